#!/usr/bin/env python3
"""seed.py SPEC.py [ids..] : make /verif/seeded/<id>/ from a spec (list SEEDS of dicts), confirming it in a scratch copy of /repo.
Keeps a seed only when it builds, passes the stable tests, and its demonstration separates it from the unchanged tree."""
import json, os, shutil, subprocess, sys
V = "/verif"; WT = "/tmp/wt"
DEMO = r'''#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export RUSTUP_TOOLCHAIN=1.70 CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=1 CARGO_NET_OFFLINE=true RUSTFLAGS="-C target-cpu=x86-64" CARGO_TARGET_DIR="$R/target"
unset RUSTC RUSTC_WRAPPER RUST_LOG
mkdir "$T/src"; cp "$D/demo.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/"
cat > "$T/Cargo.toml" <<E
[package]
name = "seed-demo-%s"
version = "0.1.0"
edition = "2018"
[workspace]
[profile.dev]
opt-level = 3
[profile.dev.package."seed-demo-%s"]
opt-level = 1
[dependencies]
ruler = { path = "$R" }
egg = "0.9"
rand = { version = "0.7", default-features = false, features = ["std"] }
rand_pcg = "0.2"
serde = { version = "1.0", features = ["derive"] }
z3 = { version = "0.10.0", features = ["static-link-z3"] }
E
cd "$T" && cargo build --offline -q 2>"$T/err" || { cat "$T/err" >&2; exit 3; }
timeout 200 "$R/target/debug/seed-demo-%s" 
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    if not os.path.exists(WT):
        sh("cp -a /repo %s" % WT)
    for s in ns["SEEDS"]:
        i = s["id"]
        if want and i not in want: continue
        if not want and os.path.exists("%s/seeded/%s" % (V, i)): continue
        sh("git -C %s checkout -- . && git -C %s fetch -q /repo HEAD && git -C %s checkout -q FETCH_HEAD" % (WT, WT, WT))
        for f, old, new in s["edits"]:
            p = os.path.join(WT, f); t = open(p).read()
            if t.count(old) != 1:
                print(i, "edit matches %d times" % t.count(old), f, repr(old[:60])); break
            open(p, "w").write(t.replace(old, new))
        else:
            d = "/tmp/seedwork/" + i
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(sh("git -C %s diff" % WT).stdout)
            open(d + "/demo.sh", "w").write(DEMO % (i.lower(), i.lower(), i.lower())); os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.rs", "w").write(s["demo"])
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r = sh("sed 's#^exec #exec #' /opt/vp/build.sh > /dev/null; cd %s && export RUSTUP_TOOLCHAIN=1.70 CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=1 CARGO_NET_OFFLINE=true RUSTFLAGS='-C target-cpu=x86-64' && cargo test --workspace --no-run --offline" % WT)
            if r.returncode: print(i, "does not build", r.stdout[-1500:]); continue
            r1 = sh("bash %s/demo.sh" % d, cwd=WT)
            if r1.returncode == 0 or r1.returncode == 3: print(i, "demo with the change:", r1.returncode, r1.stdout[-1500:]); continue
            b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            t1 = sh("cd %s && rm -rf nightly/data out.txt three.txt four.txt; mkdir -p out; export RUSTUP_TOOLCHAIN=1.70 CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=1 CARGO_NET_OFFLINE=true RUSTFLAGS='-C target-cpu=x86-64'; (timeout 400 cargo test --no-fail-fast --offline --lib --test bool --test bv-bool --test exponential --test maxmin --test nat --test pos --test szalinski -- --test-threads 8; timeout 450 cargo test --no-fail-fast --offline --test rational --test trig -- --test-threads 8 --skip test::run --skip test::lifting_phases); rm -rf nightly/data out.txt three.txt four.txt" % WT)
            bad = [l for l in t1.stdout.splitlines() if l.startswith("test ") and "FAILED" in l]
            stable = {x.split("::", 1)[1] for x in b}
            names = {l.split()[1] for l in bad}
            # names of failing tests that are stable
            br = [n for n in names if any(x.endswith("::" + n) or x.endswith(n) for x in b)]
            if br: print(i, "breaks stable tests", br); continue
            if "test result" not in t1.stdout: print(i, "tests did not run", t1.stdout[-500:]); continue
            sh("git -C %s checkout -- ." % WT)
            r0 = sh("bash %s/demo.sh" % d, cwd=WT)
            if r0.returncode: print(i, "demo on the unchanged tree:", r0.returncode, r0.stdout[-1500:]); continue
            shutil.copytree(d, "%s/seeded/%s" % (V, i), dirs_exist_ok=True)
            print(i, "kept; with the change: exit", r1.returncode, r1.stdout.strip()[-160:].replace("\n", " / "), "; unstable failures:", sorted(names))
        sys.stdout.flush()
    sh("git -C %s checkout -- ." % WT)
main()
