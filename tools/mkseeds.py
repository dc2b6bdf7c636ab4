"""Development tool: writes seeded/<id>/ from tools/seeds/*.py and (with --try ID..) confirms each in a scratch copy:
builds, passes the stable tests, the demonstration passes on the unchanged tree and fails with the patch.

A seed file defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, MAIN (main.rs; @REPO@ is the repository),
and optionally DEPS (extra Cargo dependencies)."""
import importlib.util, json, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/seedrepo"
DEMO = r'''#!/bin/bash
# exit 0: the behaviour is as the property states it; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -r -f "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$here/Cargo.toml.in" "$work/Cargo.toml"
sed -i "s#@REPO@#$repo#g" "$work/Cargo.toml" "$work/src/main.rs"
cp /opt/vp/Cargo.lock "$work/Cargo.lock" 2>/dev/null || cp "$repo/Cargo.lock" "$work/Cargo.lock"
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2024-07-01 CARGO_NET_OFFLINE=true
unset RUSTC RUSTC_WRAPPER
export CARGO_TARGET_DIR="$work/target" RUSTFLAGS="--cfg vertigo_verif -Awarnings"
cd "$work" || exit 3
cargo build --offline -q || exit 3
timeout 120 "$work/target/debug/demo"
'''
CARGO = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
%s
[profile.dev]
debug = false
[workspace]
'''


def load():
    out = {}
    d = os.path.join(VERIF, "tools", "seeds")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            s = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(s)
            s.loader.exec_module(m)
            for e in m.SEEDS:
                assert e["id"] not in out, e["id"]
                out[e["id"]] = e
    return out


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def write(e):
    d = os.path.join(VERIF, "seeded", e["id"])
    os.makedirs(d, exist_ok=True)
    sh("git checkout -q -- . && git -C /repo rev-parse HEAD | xargs -I{} sh -c 'git fetch -q /repo && git checkout -q {}'", SCRATCH)
    for f, old, new in e["edits"]:
        p = os.path.join(SCRATCH, f)
        t = open(p).read()
        assert t.count(old) == 1, (e["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = sh("git diff", SCRATCH).stdout
    assert diff
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "main.rs"), "w").write(e["main"])
    deps = e.get("deps", 'vertigo = { path = "@REPO@/crates/vertigo" }')
    open(os.path.join(d, "Cargo.toml.in"), "w").write(CARGO % deps)
    json.dump({"property": e["prop"], "needs": e["needs"], "what_it_breaks": e["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return d


def trial(e, d):
    env = {k: v for k, v in os.environ.items() if k not in ("CARGO_TARGET_DIR", "RUSTFLAGS")}
    env.update(HOME="/root", PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="nightly-2024-07-01", CARGO_NET_OFFLINE="true",
               CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    r = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1", SCRATCH, env=env)
    lg = "/tmp/seedlog.%s" % e["id"]
    open(lg, "w").write(r.stdout)
    q = sh("python3 /opt/vp/results.py /tmp/seedres.json cargo:%s" % lg, "/tmp")
    res = json.load(open("/tmp/seedres.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    lost = stable - set(res["passed"])
    b = sh("bash %s/demo.sh" % d, SCRATCH)
    sh("git checkout -q -- .", SCRATCH)
    g = sh("bash %s/demo.sh" % d, SCRATCH)
    ok = not lost and b.returncode not in (0, 3, 124) and g.returncode == 0
    print(e["id"], "OK" if ok else "BAD", "lost tests:", sorted(lost)[:4], "demo patched:", b.returncode, "clean:", g.returncode, flush=True)
    if not ok:
        print((b.stdout + b.stderr)[-1500:], (g.stdout + g.stderr)[-2500:], r.stdout[-800:] if lost else "")
    return ok


if __name__ == "__main__":
    seeds = load()
    want = [a for a in sys.argv[1:] if not a.startswith("-")] or list(seeds)
    if not os.path.isdir(SCRATCH):
        sh("cp -a /repo " + SCRATCH, "/tmp")
    for i in want:
        d = write(seeds[i])
        if "--try" in sys.argv:
            trial(seeds[i], d)
    sh("git checkout -q -- .", SCRATCH)
