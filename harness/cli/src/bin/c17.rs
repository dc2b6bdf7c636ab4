//! The public root and the translation of paths: "<wasm path>\n<dest dir>\n<requested path>.." in JSON strings, one per line
use hx_cli::mount_path::MountPathConfig;
use std::cell::RefCell;
use std::collections::BTreeMap;

thread_local! {
    static DIR: std::path::PathBuf = {
        let d = std::env::temp_dir().join(format!("hx_c17_{}", std::process::id()));
        d
    };
    static SEEN: RefCell<BTreeMap<String, u64>> = Default::default();
}
fn check(input: &str) -> hx_core::Res {
    let l: Vec<String> = match input.lines().map(serde_json::from_str::<String>).collect() {
        Ok(l) => l,
        Err(_) => return hx_core::invalid(),
    };
    if l.len() < 2 || l[1].contains('/') || l[1].contains('\0') || l[1].is_empty() || l[1] == "." || l[1] == ".." {
        return hx_core::invalid();
    }
    let (wasm, sub) = (&l[0], &l[1]);
    let dir = DIR.with(|d| d.join(sub));
    if std::fs::create_dir_all(&dir).is_err() {
        return hx_core::invalid();
    }
    let index = serde_json::json!({ "run_js": "/build/run.js", "wasm": wasm }).to_string();
    std::fs::write(dir.join("index.json"), index).unwrap();
    let dest = dir.to_string_lossy().to_string();
    let out = (|| {
        let got = MountPathConfig::new(dest.clone());
        let root = wasm.rfind('/').map(|i| wasm[..i].to_string());
        let c = match (got, &root) {
            (Err(_), None) => return Ok(()),
            (Err(_), Some(r)) => return Err(format!("the index with the file {wasm:?} is refused, its root is {r:?}")),
            (Ok(c), None) => return Err(format!("the index with the file {wasm:?} is accepted, its root is {:?}", c.http_root())),
            (Ok(c), Some(_)) => c,
        };
        let root = root.unwrap();
        if c.http_root() != root || c.fs_root() != dest || &c.wasm_path != wasm || c.run_js != "/build/run.js" {
            return Err(format!("for {wasm:?} the roots are {:?} and {:?}, the files {:?} and {:?}", c.http_root(), c.fs_root(), c.wasm_path, c.run_js));
        }
        let mut paths: Vec<String> = l[2..].to_vec();
        paths.push(wasm.clone());
        paths.push(root.clone());
        for p in &l[2..] {
            paths.push(format!("{root}{p}"));
        }
        for p in paths {
            let want = p.as_bytes().starts_with(root.as_bytes()).then(|| format!("{dest}{}", &p[root.len()..]));
            let got = c.translate_to_fs(p.as_str()).ok();
            if got != want {
                return Err(format!("{p:?} under the root {root:?} becomes {got:?}, expected {want:?}"));
            }
        }
        Ok(())
    })();
    let _ = std::fs::remove_file(dir.join("index.json"));
    let _ = std::fs::remove_dir(&dir);
    DIR.with(|d| std::fs::remove_dir(d).ok());
    out
}
fn main() {
    hx_core::main(
        |cfg, sink| {
            let mut r = hx_core::Rng::new(cfg.seed);
            let bits = ["/", "/", "/", "//", "build", "a", ".", "..", "vertigo_demo.33.wasm", "\u{e9}", "\u{1F600}", "%2f", " ", "\\", "?q=1", "#", "build/", "/build"];
            let gen = |r: &mut hx_core::Rng, n: u64| -> String { (0..r.below(n)).map(|_| *r.pick(&bits)).collect() };
            let n = if cfg.thorough { 120_000 } else { 3_000 };
            for k in [20usize, 130, 260, 1100, 5000] {
                let (deep, long) = ("/ab".repeat(k), format!("/{}", "x".repeat(k)));
                for root in [deep, long] {
                    let l = [format!("{root}/app.wasm"), "d".into(), format!("{root}/a.css"), format!("{root}/x{root}"), format!("{root}x"), root[1..].to_string(), format!("/{root}/a"), root.clone()];
                    if !sink(l.iter().map(|x| serde_json::to_string(x).unwrap()).collect::<Vec<_>>().join("\n")) {
                        return;
                    }
                }
            }
            for _ in 0..n {
                let mut l = vec![gen(&mut r, 7), ["d", "\u{e9}t\u{e9}", "demo build", "a.b"][r.below(4) as usize].to_string()];
                for _ in 0..r.below(8) {
                    let mut p = gen(&mut r, 7);
                    if r.chance(1, 3) {
                        // near misses of the root
                        let root = l[0].rfind('/').map(|i| l[0][..i].to_string()).unwrap_or_default();
                        p = match r.below(4) {
                            0 => format!("{root}x/{p}"),
                            1 => format!("/{root}{p}"),
                            2 => root.to_uppercase() + &p,
                            _ => root.chars().skip(1).collect::<String>() + &p,
                        };
                    }
                    l.push(p);
                }
                let s: Vec<String> = l.iter().map(|x| serde_json::to_string(x).unwrap()).collect();
                if !sink(s.join("\n")) {
                    break;
                }
            }
        },
        check,
    );
}
