#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo on which the checks have to stay quiet.

  benign.py write            regenerate /verif/benign/*.diff from SPECS (needs a clean /repo)
  benign.py run [ids..]      apply each to /repo, run the checks it names, undo it; prints what was not quiet
"""
import os, subprocess, sys, json, pathlib
R = os.environ.get("REPO_DIR", "/repo"); D = pathlib.Path("/verif/benign")
RS, WK, FI, PA, SX, RU, SC, LA, UT, RE, LO, BV = ["src/enumo/ruleset.rs", "src/enumo/workload.rs", "src/enumo/filter.rs", "src/enumo/pattern.rs", "src/enumo/sexp.rs", "src/enumo/rule.rs", "src/enumo/scheduler.rs", "src/language.rs", "src/util.rs", "src/recipe_utils.rs", "src/logger.rs", "src/bv.rs"]
SPECS = []
def s(i, props, *edits): SPECS.append((i, props.split(), edits))
exec(open("/verif/benign/specs.py").read())
def sh(*c): return subprocess.run(c, capture_output=True, text=True)
if sys.argv[1] == "write":
    for i, props, edits in SPECS:
        try:
            for f, a, b in edits:
                p = pathlib.Path(R) / f; t = p.read_text()
                assert t.count(a) == 1, (i, f, t.count(a), a)
                p.write_text(t.replace(a, b))
            (D / f"{i}.diff").write_text(sh("git", "-C", R, "diff").stdout)
            (D / f"{i}.props").write_text(" ".join(props) + "\n")
        finally:
            sh("git", "-C", R, "checkout", "--", ".")
    print(len(SPECS))
else:
    ids = sys.argv[2:] or sorted(p.stem for p in D.glob("*.diff"))
    for i in ids:
        r = sh("git", "-C", R, "apply", str(D / f"{i}.diff"))
        if r.returncode: print(i, "does not apply", r.stderr); continue
        try:
            for c in (D / f"{i}.props").read_text().split():
                o = subprocess.run(["python3", "/verif/check.py", c], cwd="/verif", capture_output=True, text=True)
                bad = [l for l in o.stdout.splitlines() if l.startswith(("VIOLATION", "  failed", "  undecided"))]
                print(i, c, "exit", o.returncode, o.stdout.splitlines()[-1] if o.stdout else o.stderr[-300:], *bad, sep="\n    " if bad else " ", flush=True)
        finally:
            sh("git", "-C", R, "checkout", "--", ".")
