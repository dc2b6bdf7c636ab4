//! Shared driver of the native harnesses: generate inputs (text), run the real code on each, compare with the
//! executable form of the contract, shrink and record the first failing input.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len() as u64) as usize]
    }
}

/// Outcome of one case.  Err carries a message; a message starting with "[tag]" is matched against known findings.
pub type Res = Result<(), String>;
/// input outside the property's domain (only met while shrinking)
pub const INVALID: &str = "INVALID";

pub fn invalid() -> Res {
    Err(INVALID.to_string())
}

pub struct Cfg {
    pub thorough: bool,
    pub seed: u64,
    pub secs: f64,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn run_one(check: &dyn Fn(&str) -> Res, input: &str) -> Option<String> {
    match catch_unwind(AssertUnwindSafe(|| check(input))) {
        Ok(Ok(())) => None,
        Ok(Err(m)) if m == INVALID => None,
        Ok(Err(m)) => Some(m),
        Err(_) => Some(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

/// runs a case in a thread of its own (fresh thread-locals); a panic becomes a failure message
pub fn isolated(f: impl FnOnce() -> Res + Send + 'static) -> Res {
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    });
    match h {
        Ok(h) => h.join().unwrap_or_else(|_| Err("panic while the case was torn down".into())),
        Err(e) => {
            eprintln!("no thread: {e}");
            invalid()
        }
    }
}
/// Ok(value) or the panic message
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn shrink(check: &dyn Fn(&str) -> Res, input: &str, tag: &str, until: Instant) -> String {
    // drop whole lines while the same kind of failure remains
    let same = |s: &str| run_one(check, s).map(|m| tag_of(&m) == tag).unwrap_or(false);
    let mut lines: Vec<String> = input.split('\n').map(String::from).collect();
    let mut chunk = (lines.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < lines.len() && lines.len() > 1 {
            if Instant::now() > until {
                return lines.join("\n");
            }
            let mut cand = lines.clone();
            let end = (i + chunk).min(cand.len());
            cand.drain(i..end);
            if !cand.is_empty() && same(&cand.join("\n")) {
                lines = cand;
                changed = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !changed {
            break;
        }
        chunk = (chunk / 2).max(1);
    }
    lines.join("\n")
}

fn tag_of(m: &str) -> String {
    if m.starts_with('[') {
        if let Some(e) = m.find(']') {
            return m[1..e].to_string();
        }
    }
    String::new()
}

/// `gen` feeds inputs; the sink returns false when generation must stop.
pub fn main(
    gen: impl Fn(&Cfg, &mut dyn FnMut(String) -> bool),
    check: impl Fn(&str) -> Res,
) {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let cfg = Cfg {
        thorough: opt("--tier").as_deref() == Some("thorough"),
        seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        secs: opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0),
    };
    let known: Vec<String> = opt("--known").map(|s| s.split(',').filter(|x| !x.is_empty()).map(String::from).collect()).unwrap_or_default();
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
    }));
    let check: &dyn Fn(&str) -> Res = &check;

    if let Some(f) = opt("--replay") {
        let input = std::fs::read_to_string(f).expect("replay file");
        match run_one(check, &input) {
            None => {
                println!("replay: property holds on this input");
            }
            Some(m) => {
                println!("replay: FAIL {m}");
                std::process::exit(1);
            }
        }
        return;
    }

    // a case that does not come back is a failure of its own (limit far above any normal case)
    let current: std::sync::Arc<std::sync::Mutex<(String, Instant, bool)>> = std::sync::Arc::new(std::sync::Mutex::new((String::new(), Instant::now(), false)));
    {
        let current = current.clone();
        let hang = opt("--hang").and_then(|s| s.parse().ok()).unwrap_or(30u64);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if let Ok(g) = current.lock() {
                if g.2 && g.1.elapsed() > Duration::from_secs(hang) {
                    println!("HARNESS {{\"cases\":1,\"distinct\":1,\"truncated\":true,\"wall_s\":{},\"known\":{{}},\"fail\":{{\"input\":{},\"message\":\"does not terminate (stopped after {} s)\"}}}}", hang, esc(&g.0), hang);
                    std::process::exit(0);
                }
            }
        });
    }
    let trace = opt("--trace");
    let start = Instant::now();
    let limit = Duration::from_secs_f64(cfg.secs);
    let mut cases: u64 = 0;
    let mut seen: HashSet<u64> = HashSet::new();
    let mut fail: Option<(String, String)> = None;
    let mut known_hits: BTreeMap<String, (String, String)> = BTreeMap::new();
    let mut truncated = false;
    {
        let mut sink = |input: String| -> bool {
            if start.elapsed() > limit {
                truncated = true;
                return false;
            }
            cases += 1;
            if seen.len() < 2_000_000 {
                let mut h = DefaultHasher::new();
                input.hash(&mut h);
                seen.insert(h.finish());
            }
            if let Some(t) = &trace {
                let _ = std::fs::write(t, &input);
            }
            if let Ok(mut g) = current.lock() {
                *g = (input.clone(), Instant::now(), true);
            }
            let res = run_one(check, &input);
            if let Ok(mut g) = current.lock() {
                g.2 = false;
            }
            if let Some(m) = res {
                let tag = tag_of(&m);
                if !tag.is_empty() && known.contains(&tag) {
                    known_hits.entry(tag).or_insert((input, m));
                    return true;
                }
                fail = Some((input, m));
                return false;
            }
            true
        };
        gen(&cfg, &mut sink);
    }
    if let Some((input, m)) = &mut fail {
        let tag = tag_of(m);
        let small = shrink(check, input, &tag, Instant::now() + Duration::from_secs(20));
        if let Some(m2) = run_one(check, &small) {
            *m = m2;
            *input = small;
        }
    }
    let mut out = format!("{{\"cases\":{},\"distinct\":{},\"truncated\":{},\"wall_s\":{:.3},\"known\":{{", cases, seen.len(), truncated, start.elapsed().as_secs_f64());
    for (i, (t, (inp, m))) in known_hits.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out.push_str(&format!("{}:{{\"input\":{},\"message\":{}}}", esc(t), esc(inp), esc(m)));
    }
    out.push_str("},\"fail\":");
    match &fail {
        None => out.push_str("null"),
        Some((i, m)) => out.push_str(&format!("{{\"input\":{},\"message\":{}}}", esc(i), esc(m))),
    }
    out.push('}');
    println!("HARNESS {out}");
}
