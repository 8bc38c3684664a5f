#!/usr/bin/env python3
"""variants.py SPEC.py [ids]: how the verifier judges behaviour-preserving edits (SPEC holds V = [(id, unit, file, old, new), ..]).

Prints OK (all discharged), UND (undecided, with the functions) or FAIL (a false alarm if the search finds nothing).
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile, time
V = "/verif"
spec = {}
exec(open(sys.argv[1]).read(), spec)
sys.path.insert(0, V)
base = tempfile.mkdtemp(prefix="variants_")
subprocess.run(["git", "clone", "-q", "/repo", base + "/r"], check=True)
os.environ["VERIF_REPO"] = base + "/r"
import check
ex = check.build_extractor()
for i, unit, f, *ed in spec["V"]:
    if sys.argv[2:] and i not in sys.argv[2:]:
        continue
    check.T0 = time.time()
    p = pathlib.Path(base, "r", f)
    src = t = p.read_text()
    for a, b in zip(ed[::2], ed[1::2]):
        if t.count(a) != 1:
            print(i, "?? old text occurs", t.count(a), a[:60]); t = None; break
        t = t.replace(a, b)
    if t is None:
        continue
    p.write_text(t)
    if os.environ.get("COMPILE"):
        c = subprocess.run(["cargo", "check", "--offline", "-q"], cwd=base + "/r", capture_output=True, text=True, env={**os.environ, "CARGO_TARGET_DIR": "/tmp/var/target"})
        if c.returncode:
            print(i, "does not compile", c.stderr[:400]); p.write_text(src); continue
    tmp = tempfile.mkdtemp(prefix="u_", dir=base)
    u = check.Unit(ex, unit, tmp)
    u.run()
    p.write_text(src)
    fail, und = {}, dict(u.undecided)
    if u.broken: und["unit"] = u.broken
    for fn in (u.meta or {"functions": []})["functions"]:
        k = fn["key"]
        bad = [m for q, ms in u.failed.items() if q.split("#")[0] == k for m in ms]
        if fn["status"] != "verified": und[k] = fn["reason"] or "?"
        elif bad and k in check.SHAPES and check.SHAPES[k] != fn["shape"]: und[k] = "shape: " + bad[0]
        elif bad and k not in und: fail[k] = bad[0]
    if u.raw_failed: und["lemmas"] = str(u.raw_failed)
    print("FAIL" if fail else "UND " if und else "OK  ", i, "%ds" % (time.time() - check.T0), {k: v[:300] for k, v in {**fail, **und}.items()} or "", flush=True)
    shutil.rmtree(tmp)
shutil.rmtree(base)
