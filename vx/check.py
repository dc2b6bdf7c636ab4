"""python3 -m vx.check <ID> [--tier quick|thorough]

Deciding step: the verifier accepts every obligation generated from the current source in /repo (vx/merge.py).
Beside it a bounded run of the same contracts on the compiled real code: counterexample search and replay, and the
stand-in for what the contracts do not reach.  See DESIGN.md, "Outcome policy".
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

from . import merge, verus
from .props import PROPS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")


def cargo_env():
    e = dict(os.environ)
    for k in ("RUSTC", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "nightly-2024-07-01"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_TARGET_DIR"] = TARGET
    e["RUSTFLAGS"] = "--cfg vertigo_verif -Awarnings"
    return e


def build_harness(h):
    pkg, binary = h["pkg"], h["bin"]
    if pkg == "js":  # the JavaScript half: nothing to build ahead
        return os.path.join(VERIF, "harness", "js", binary + ".mjs"), "", 0.0
    d = os.path.join(VERIF, "harness", pkg)
    t0 = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--bin", binary], cwd=d, env=cargo_env(), capture_output=True, text=True, timeout=800)
    if p.returncode != 0:
        return None, p.stderr[-3000:], time.time() - t0
    return os.path.join(TARGET, "debug", binary), "", time.time() - t0


def run_harness(exe, tier, seed, secs, known, _again=False, extra=()):
    args = list(extra)
    args = [exe, "--tier", tier, "--seed", str(seed), "--secs", str(secs), "--known", ",".join(known)] + args
    try:
        p = subprocess.run(args, capture_output=True, text=True, timeout=secs + 120, cwd="/tmp", errors="replace")
    except subprocess.TimeoutExpired:
        return {"error": "timeout"}
    for ln in p.stdout.split("\n"):
        if ln.startswith("HARNESS "):
            return json.loads(ln[len("HARNESS "):])
    if p.returncode < 0 and not _again:
        # the process died (abort, segmentation fault, stack overflow): find the input, and see that it dies on it again
        with tempfile.TemporaryDirectory() as td:
            tf = os.path.join(td, "last")
            run_harness(exe, tier, seed, secs, known, _again=True, extra=["--trace", tf])
            if os.path.exists(tf):
                q = subprocess.run([exe, "--replay", tf], capture_output=True, text=True, timeout=120, cwd="/tmp", errors="replace")
                if q.returncode < 0:
                    return {"cases": 1, "distinct": 1, "known": {}, "fail": {
                        "input": open(tf, encoding="utf-8", errors="replace").read(),
                        "message": "the process dies (signal %d): %s" % (-q.returncode, q.stderr.strip()[-300:])}}
    return {"error": "exit %s: %s" % (p.returncode, (p.stdout + p.stderr)[-1500:])}


TRUST = re.compile(r"(assume_specification[^\[]*\[([^\]]*)\])|(external_body\s*\]\s*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+|spec\s+)?(?:fn|struct|trait)\s+(\w+))|(external_type_specification\][^;{]*struct\s+(\w+))|(\badmit\s*\()|(\bassume\s*\()|(axiom fn (\w+))")


def scan_trust(text):
    out = []
    clean = re.sub(r"//[^\n]*", "", text)
    # join attribute lines
    for m in TRUST.finditer(re.sub(r"#\[verifier(::|\()external_body\)?\]\s*", "#[verifier::external_body] ", clean)):
        if m.group(2):
            out.append("assumed contract on std: %s" % " ".join(m.group(2).split()))
        elif m.group(4):
            out.append("trusted body: %s" % m.group(4))
        elif m.group(6):
            out.append("external type: %s" % m.group(6))
        elif m.group(7):
            out.append("admit()")
        elif m.group(8):
            out.append("assume()")
        elif m.group(10):
            out.append("axiom: %s" % m.group(10))
    return sorted(set(out))


def verify_unit(u, work, tier):
    spec = os.path.join(VERIF, "specs", u + ".vrs")
    res = {"unit": u}
    text, infos, missing = merge.build(spec, REPO)
    res["items"], res["missing"] = infos, missing
    res["trust"] = scan_trust(text)
    path = os.path.join(work, u + ".rs")
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    res["file"] = path
    res["clean"] = not missing and all(
        not i["lost_rewrites"] and not i["displaced_ghost"] and i["same_loops"] for i in infos.values())
    res["identical"] = not missing and all(i["identical"] for i in infos.values())
    if missing:
        res["status"] = "unsupported"
        res["reason"] = "item not found: " + ", ".join(missing)
        res["fns"], res["diags"], res["obligations"] = [], [], 0
        return res
    log = os.path.join(work, u + ".log")
    r = verus.run(path, log=log, timeout=500)
    res.update(r)
    res["obligations"] = 0
    if os.path.isdir(log):
        try:
            res["obligations"] = verus.count_obligations(log)
        except OSError:
            pass
        shutil.rmtree(log, ignore_errors=True)
    if r["status"] == "failed":
        res["failed_obligations"] = []
        for d in r["diags"]:
            where = None
            for k, i in infos.items():
                if any(i["lines"][0] <= ln <= i["lines"][1] for ln in d["lines"]):
                    where = k
            res["failed_obligations"].append({"message": d["message"], "in": where, "verifier": d["rendered"][:2500]})
    if r["status"] == "proved":
        # vacuity probe: with assert(false) at the entry of every function under contract, each of them must fail
        ptext, pinfos, _ = merge.build(spec, REPO, probe=True)
        pdir = os.path.join(work, "probe")
        os.makedirs(pdir, exist_ok=True)
        ppath = os.path.join(pdir, u + ".rs")
        with open(ppath, "w", encoding="utf-8") as f:
            f.write(ptext)
        pr = verus.run(ppath, extra=["--multiple-errors", "0"], timeout=500)
        want = [k for k in pinfos if " fn " in " " + k.split(" :: ", 1)[1]]
        failed_lines = [ln for d in pr["diags"] if d["message"].startswith("assertion failed") for ln in d["lines"]]
        vac = [k for k in want if not any(pinfos[k]["lines"][0] <= ln <= pinfos[k]["lines"][1] for ln in failed_lines)]
        res["probe"] = {"functions": len(want), "reachable": len(want) - len(vac), "vacuous": vac, "status": pr["status"],
                        "wall": pr["wall"]}
    return res


def run_smt(name):
    """A file of negated claims, each of which both solvers must refute."""
    path = os.path.join(VERIF, "specs", name + ".smt2")
    want = open(path).read().count("(check-sat)")
    res = {"file": "specs/%s.smt2" % name, "obligations": want, "discharged": 0, "back_ends": []}
    for cmd in (["z3", path], ["cvc5", "--incremental", path]):
        t0 = time.time()
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=120)
            got = p.stdout.split()
        except (OSError, subprocess.TimeoutExpired) as e:
            got = [str(e)]
        ok = got == ["unsat"] * want
        res["back_ends"].append({"solver": cmd[0], "answers": got, "ok": ok, "wall_s": round(time.time() - t0, 2)})
        if ok:
            res["discharged"] = want
    return res


def load_known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) tag=(\S+) (.*)", ln.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vx_%s_" % pid)
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = [(t, d) for (p, t, d) in load_known() if p == pid]
    known_tags = [t for t, _ in known]
    harnesses = cfg.get("harness", [])
    secs = cfg.get("secs", (10, 120))[0 if tier == "quick" else 1]
    try:
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            fu = [ex.submit(verify_unit, u, work, tier) for u in cfg["units"]]
            fsmt = [ex.submit(run_smt, n) for n in cfg.get("smt", [])]
            built = []
            for h in harnesses:  # cargo serialises on the target dir anyway
                built.append((h,) + build_harness(h))
            fh = [(h, ex.submit(run_harness, exe, tier, seed, secs, known_tags) if exe else None, err) for h, exe, err, _ in built]
            hres = []
            for h, f, err in fh:
                hres.append((h, f.result() if f else {"error": "build failed: " + err[-800:]}))
            units = [f.result() for f in fu]
            smt = [f.result() for f in fsmt]
        violations = []
        findings = {}
        for h, r in hres:
            for t, v in r.get("known", {}).items():
                findings[t] = v
            if r.get("fail"):
                violations.append((h, r["fail"]))
        failed = [u for u in units if u["status"] == "failed"]
        undecided = [u for u in units if u["status"] in ("unsupported", "unknown")]
        vac = [u for u in units if u.get("probe", {}).get("vacuous") or (u["status"] == "proved" and not u["fns"])]
        decided_failed = [u for u in failed if u["clean"] and not u["identical"]]
        # a failed obligation: look harder for a concrete failing input on the real code
        if failed and not violations:
            for (h, exe, err, _) in built:
                if not exe:
                    continue
                for k in range(1, 4):
                    r = run_harness(exe, "thorough", seed * 1000 + k, max(secs, 20), known_tags)
                    if r.get("fail"):
                        violations.append((h, r["fail"]))
                        break
        rc = 0
        out_lines = []
        for i, (h, f) in enumerate(violations[:1]):
            rp = os.path.join(replays, "%s.json" % pid)
            inp = os.path.join(replays, "%s.input" % pid)
            with open(inp, "w", encoding="utf-8") as g:
                g.write(f["input"])
            with open(rp, "w", encoding="utf-8") as g:
                json.dump({"property": pid, "kind": "concrete input on the real code", "harness": "%s/%s" % (h["pkg"], h["bin"]),
                           "input": f["input"], "message": f["message"], "input_file": inp,
                           "rerun": ("%s --replay %s" % (os.path.join(VERIF, "harness", "js", h["bin"] + ".mjs"), inp)) if h["pkg"] == "js" else
                           "RUSTUP_TOOLCHAIN=nightly-2024-07-01 %s --replay %s" % (os.path.join(TARGET, "debug", h["bin"]), inp),
                           "failed_obligations": [o for u in failed for o in u.get("failed_obligations", [])]},
                          g, indent=1)
            print("FAILED INPUT (%s): %s\n%s" % (h["bin"], f["message"], f["input"][:2000]))
            for u in failed:
                for o in u.get("failed_obligations", []):
                    print("FAILED OBLIGATION [%s] %s in %s" % (u["unit"], o["message"], o["in"]))
            out_lines.append("VIOLATION property=%s replay=%s" % (pid, rp))
            rc = 1
        if not violations and decided_failed:
            rp = os.path.join(replays, "%s.json" % pid)
            obl = [dict(o, unit=u["unit"]) for u in decided_failed for o in u.get("failed_obligations", [])]
            diffs = {k: i.get("diff") for u in decided_failed for k, i in u["items"].items() if not i["identical"]}
            with open(rp, "w", encoding="utf-8") as g:
                json.dump({"property": pid, "kind": "failed proof obligation", "failed_obligations": obl,
                           "changed_items": diffs}, g, indent=1)
            for o in obl:
                print("FAILED OBLIGATION [%s] %s in %s" % (o["unit"], o["message"], o["in"]))
            out_lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
            rc = 1
        if rc == 0:
            for q in smt:
                if q["discharged"] != q["obligations"]:
                    print("ERROR: %s is not refuted: %s" % (q["file"], q["back_ends"]))
                    rc = 2
            if vac:
                print("ERROR: vacuous contracts: %s" % [u["probe"]["vacuous"] for u in vac])
                rc = 2
            harness_ok = bool(hres) and all("error" not in r for _, r in hres)
            not_proved = [u for u in units if u["status"] != "proved"]
            if not_proved:
                for u in not_proved:
                    print("UNDECIDED by proof: unit %s: %s (%s)" % (u["unit"], u["status"], u.get("reason", "")[:400]))
                if not harness_ok:
                    for h, r in hres:
                        if "error" in r:
                            print("harness error: %s" % r["error"][:1500])
                    print("ERROR: neither the verifier nor the bounded run could decide")
                    rc = 2
            elif not harness_ok:
                for h, r in hres:
                    if "error" in r:
                        print("note: bounded run unavailable: %s" % r["error"][:1500])
                if not units:
                    rc = 2
        if rc == 0:
            for t, d in known:
                if t in findings:
                    print("KNOWN-FINDING: property=%s %s" % (pid, d))
        write_evidence(pid, cfg, tier, seed, units, hres, time.time() - t0, rc, smt)
        npv = sum(len([f for f in u["fns"] if f["ok"]]) for u in units)
        print("%s %s: %d unit(s), %d function obligations sets ok, harness %s, %.1fs" % (
            pid, tier, len(units), npv,
            ", ".join("%s:%s cases" % (h["bin"], r.get("cases", r.get("error", "?")[:200])) for h, r in hres), time.time() - t0))
        for ln in out_lines:
            print(ln)
        sys.exit(rc)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def write_evidence(pid, cfg, tier, seed, units, hres, wall, rc, smt=()):
    fns = []
    trusted, rewrites, drops = set(), [], set()
    for u in units:
        for f in u.get("fns", []):
            fns.append({"unit": u["unit"], "function": f["fn"], "mode": f["mode"], "ms": round(f["ms"], 1), "discharged": f["ok"]})
        trusted.update(u["trust"])
        for k, i in u["items"].items():
            for r in i["rewrites"]:
                rewrites.append("%s: %s" % (k, r))
            drops.update(i["drops"])
    under = [k for u in units for k in u["items"] if " fn " in " " + k.split(" :: ", 1)[1]]
    trusted -= {"axiom: " + a for a in cfg.get("smt_axioms", [])}
    obligations = sum(u.get("obligations", 0) for u in units) + sum(q["obligations"] for q in smt)
    proved = sum(u.get("obligations", 0) for u in units if u["status"] == "proved") + sum(q["discharged"] for q in smt)
    level = cfg.get("level", "proof")
    cov = {
        "obligations": obligations,
        "discharged": proved,
        "checker_cmd": "python3 -m vx.check %s (verus %s)" % (pid, ", ".join("specs/%s.vrs" % u["unit"] for u in units)),
        "trusted_base": sorted(trusted) + ["Verus 0.2026.09.13 and its Z3", "vx/merge.py extraction (drops: comments, visibility, attributes, log statements)"],
        "back_end": "Verus / Z3",
        "functions_under_contract": under,
        "verifier_functions": fns,
        "solver_ms": round(sum(f["ms"] for f in fns), 1),
        "unit_status": {u["unit"]: {"status": u["status"], "reason": u.get("reason", ""), "source_identical_to_annotated_twin": u["identical"],
                                    "missing": u["missing"], "vacuity_probe": u.get("probe"),
                                    "wall_s": round(u.get("wall", 0), 2)} for u in units},
        "lemmas_by_smt": [dict(q, axioms=cfg.get("smt_axioms", [])) for q in smt],
        "declared_rewrites": rewrites,
        "extraction_drops": sorted(drops),
        "bounded_stand_in": [
            {"harness": h["bin"], "label": "bounded, not counted as proved", "bound": h.get("bound", ""),
             "evaluations": r.get("cases", 0), "distinct": r.get("distinct", 0), "wall_s": r.get("wall_s"), "error": r.get("error"),
             "truncated_by_time": r.get("truncated")} for h, r in hres],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0}
    if level == "exploration":
        cov["evaluations"] = sum(r.get("cases", 0) for _, r in hres)
        cov["distinct_nontrivial"] = sum(r.get("distinct", 0) for _, r in hres)
        cov["rule"] = cfg.get("rule", "")
        cov["samples"] = cfg.get("samples", [])
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
