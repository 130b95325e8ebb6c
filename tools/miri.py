#!/usr/bin/env python3
"""miri.py CRATE TARGETDIR OUT [CASES]: runs a harness under Miri; its RESULT line, or what Miri reports, goes to OUT."""
import json, os, re, subprocess, sys, tempfile
crate, tdir, out, cases, limit = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4], float(sys.argv[5])
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
e = dict(os.environ)
e["RUSTUP_TOOLCHAIN"] = "nightly"
e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=" + e.get("VERIF_SEED", "1") + " " + e.get("VERIF_MIRI_EXTRA", "")
e["RUSTFLAGS"] = "-Awarnings"
e["VERIF_CASES"] = cases
name = os.path.basename(crate)
try:
    r = subprocess.run(["cargo", "miri", "run", "--offline", "--locked", "--target-dir", tdir, "--", "C23", "x"], cwd=crate, env=e, capture_output=True, text=True, timeout=limit)
    so, se, rc = r.stdout, r.stderr, r.returncode
except subprocess.TimeoutExpired as x:
    d = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
    so, se, rc = d(x.stdout), d(x.stderr), None
m = [l for l in so.splitlines() if l.startswith("RESULT ")]
if m:
    res = json.loads(m[-1][7:])
else:
    res = {"prop": "C23", "rule": "", "seed": 0, "evaluations": 0, "distinct": 0, "samples": [], "counters": {}, "violations": [], "inconclusive": []}
ub = re.search(r"error: (Undefined Behavior|unsupported operation|abnormal termination|memory leaked|deadlock|[^\n]*data race[^\n]*)[^\n]*", se + so)
if ub and "unsupported" not in ub.group(0):
    i = (se + so).index(ub.group(0))
    res["violations"].append({"sig": "miri:" + name, "msg": (se + so)[i:i + 2500], "replay": {"cmd": "cargo miri run -- C23 x", "crate": crate, "cases": cases}})
elif not m:
    if rc is None:
        res["inconclusive"].append(f"{name} under Miri: no result within {limit} s")
    else:
        sys.stderr.write(se[-3000:])
        sys.exit(3)
res["counters"] = {f"Miri {name}: {k}": v for k, v in res["counters"].items()}
res["rule"] = f"Miri {name}: " + res["rule"]
json.dump(res, open(out, "w"))
