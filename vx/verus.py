import json
import os
import re
import subprocess
import time

VERUS = os.environ.get("VERUS", "verus")


def env():
    e = dict(os.environ)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("RUSTFLAGS", None)
    return e


def run(path, extra=(), timeout=600, log=False):
    args = [VERUS, path, "--output-json", "--time-expanded", "--error-format=json", "--no-report-long-running"] + list(extra)
    if log:
        args += ["--log", "air-final", "--log-dir", log]
    t0 = time.time()
    try:
        p = subprocess.run(args, capture_output=True, text=True, env=env(), timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {"status": "unknown", "reason": "verifier timed out", "wall": time.time() - t0, "fns": [], "diags": []}
    wall = time.time() - t0
    diags = []
    for ln in p.stderr.split("\n"):
        if ln.startswith("{"):
            try:
                d = json.loads(ln)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans"):
                diags.append({
                    "message": d["message"],
                    "lines": [s["line_start"] for s in d["spans"]],
                    "rendered": d.get("rendered", ""),
                })
            elif d.get("level") == "error" and not d["message"].startswith("aborting"):
                diags.append({"message": d["message"], "lines": [], "rendered": d.get("rendered", "")})
    try:
        o = json.loads(p.stdout)
    except ValueError:
        return {"status": "unsupported", "reason": "verifier produced no result", "wall": wall, "fns": [], "diags": diags,
                "stderr": p.stderr[-4000:]}
    vr = o.get("verification-results", {})
    fns = []
    try:
        for m in o["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m.get("function-breakdown", []):
                fns.append({"fn": f["function"], "mode": f["mode:"], "ms": f["time-micros"] / 1000.0, "ok": f["success"],
                            "rlimit": f.get("rlimit", 0)})
    except KeyError:
        pass
    rl = any("rlimit" in d["message"].lower() or "resource limit" in d["message"].lower() for d in diags)
    if vr.get("success"):
        status = "proved"
    elif vr.get("encountered-vir-error", True) or not fns:
        status = "unsupported"
    elif rl:
        status = "unknown"
    else:
        status = "failed"
    return {"status": status, "reason": "; ".join(d["message"] for d in diags[:3]), "wall": wall, "fns": fns, "diags": diags,
            "verified": vr.get("verified", 0), "errors": vr.get("errors", 0), "stderr": p.stderr[-4000:] if status != "proved" else ""}


def count_obligations(logdir):
    n = 0
    for f in os.listdir(logdir):
        if f.endswith("final.air"):
            with open(os.path.join(logdir, f), encoding="utf-8") as h:
                s = h.read()
            for q in s.split("(check-valid")[1:]:
                n += len(re.findall(r'^\s*\(location', q, flags=re.M)) or 1
    return n
