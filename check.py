#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /repo:
  1. extracts the functions the property depends on from /repo's current source
     (/verif/extract) with their contracts (/verif/contracts) attached, and has
     Verus discharge every obligation;
  2. runs the executable form of the contracts (/verif/falsify) on the compiled
     code: the replay of failures, and the bounded stand-in for functions the
     verifier cannot take.
Exit 0: held.  Exit 1 and a VIOLATION line: broken.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
T0 = time.time()
UNITS = json.load(open(os.path.join(V, "contracts", "units.json")))
SOFT = 780  # seconds, below the 900 s of the final check


def left():
    return SOFT - (time.time() - T0)


def sh(cmd, timeout, env=None, cwd=None, mem=None):
    def lim():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=max(1, timeout), env=env, cwd=cwd, preexec_fn=lim)
        return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace")


def base_env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC", "RUSTC_WRAPPER", "CI", "SKIP_RECIPES", "RUST_LOG"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    return e


def repo_env():
    e = base_env()
    e.update(RUSTUP_TOOLCHAIN="1.70", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="1", CARGO_TERM_COLOR="never",
             RUSTFLAGS="-C target-cpu=x86-64", CARGO_TARGET_DIR=os.path.join(REPO, "target"))
    return e


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- proofs
def build_extractor():
    d = os.path.join(V, "extract")
    rc, o, e = sh(["cargo", "build", "--release", "--offline"], 600, env=base_env(), cwd=d)
    if rc != 0:
        raise RuntimeError("extractor does not build:\n" + e[-3000:])
    return os.path.join(d, "target", "release", "ruler-extract")


SEMANTIC = ("not satisfied", "assertion failed", "possible arithmetic", "possible division", "possible bit", "may fail", "termination",
            "decreases", "unreachable", "postcondition", "precondition", "invariant", "underflow", "overflow", "assert_by", "failed this")


def regions(text):
    """line ranges of the //@fn markers, and of top-level lemmas"""
    out, cur = [], None
    for n, l in enumerate(text.split("\n"), 1):
        if l.startswith("//@fn "):
            cur = (l[6:].strip(), n)
        elif l.startswith("//@endfn") and cur:
            out.append((cur[0], cur[1], n))
            cur = None
    return out


def where(regs, spans, fname):
    ls = []
    for s in spans:
        if os.path.basename(s["file_name"]) == fname:
            ls.append((not s["is_primary"], s["line_start"]))
    for _, l in sorted(ls):
        for k, a, b in regs:
            if a <= l <= b:
                return k
    return None


class Unit:
    """one run of the verifier over a unit of contracts"""

    def __init__(self, ex, name, tmp):
        self.ex, self.name, self.tmp = ex, name, tmp
        self.trust, self.drop = set(), set()
        self.undecided = {}      # key -> reason
        self.failed = {}         # key -> [messages]
        self.raw_failed = []
        self.verified, self.broken = 0, None
        self.smt_ms, self.runs = 0, 0
        self.text, self.meta, self.cmd = "", None, ""
        self.breakdown = {}

    def extract(self, probe=False):
        sfx = "_probe" if probe else ""
        rs, ms = os.path.join(self.tmp, self.name + sfx + ".rs"), os.path.join(self.tmp, self.name + sfx + ".json")
        cmd = [self.ex, "--repo", REPO, "--contracts", os.path.join(V, "contracts"), "--unit", self.name + ".vc", "--out", rs, "--meta", ms,
               "--trust", ",".join(sorted(self.trust)), "--drop", ",".join(sorted(self.drop))]
        if probe:
            cmd += ["--probe", "1"]
        rc, o, e = sh(cmd, 120)
        if rc != 0:
            return None, "extraction: " + (e.strip()[-500:] or str(rc))
        self.meta = json.load(open(ms))
        self.text = open(rs).read()
        return rs, None

    def verus(self, rs, extra=()):
        cmd = ["verus", rs, "--output-json", "--time-expanded", "--multiple-errors", "20", "--num-threads", "8", *extra, "--", "--error-format=json"]
        if not extra and "_probe" not in rs:
            self.cmd = " ".join(["verus", os.path.basename(rs)] + cmd[2:])
        rc, o, e = sh(cmd, min(left(), 400), env=base_env(), cwd=self.tmp)
        self.runs += 1
        diags = []
        for l in e.splitlines():
            if l.startswith("{"):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        try:
            res = json.loads(o[o.index("{"):])
        except ValueError:
            res = None
        return rc, res, diags

    def run(self):
        for attempt in range(7):
            rs, err = self.extract()
            if err:
                self.broken = err
                return self
            rc, res, diags = self.verus(rs)
            if rc == "timeout" or res is None:
                self.broken = "the verifier gave no result (%s)" % rc
                return self
            vr = res.get("verification-results", {})
            regs = regions(self.text)
            fname = os.path.basename(rs)
            errs = [d for d in diags if d.get("level") == "error" and not d["message"].startswith("aborting")]
            bad = [d for d in errs if d.get("code") or vr.get("encountered-vir-error") or vr.get("encountered-error") and not any(s in d["message"] for s in SEMANTIC)]
            if vr.get("encountered-vir-error") or "verified" not in vr or (bad and not vr.get("verified")):
                # the text is not accepted: set aside the functions it concerns
                keys = {where(regs, d["spans"], fname) for d in errs}
                # a diagnostic may point at a definition through its notes only
                if keys <= {None}:
                    for d in errs:
                        for c in d.get("children", []):
                            keys.add(where(regs, c.get("spans", []), fname))
                keys.discard(None)
                msg = "; ".join(sorted({d["message"][:160] for d in errs}))[:600]
                if not keys:
                    self.broken = "the verifier does not take the extracted text: " + msg
                    return self
                for k in keys:
                    k0 = k.split("#")[0]
                    if k0 in self.trust:
                        self.drop.add(k0)
                    self.trust.add(k0)
                    self.undecided[k0] = "not accepted by the verifier: " + msg[:300]
                continue
            self.verified = vr.get("verified", 0)
            self.collect(res)
            self.failed, lim = self.failures(diags, regs, fname)
            # a failed query is repeated with more resources and other seeds
            shapes = {f["key"]: f["shape"] for f in self.meta["functions"]}
            # (not where the answer is undecided anyway)
            moved = lambda k: k.split("#")[0] in SHAPES and SHAPES[k.split("#")[0]] != shapes.get(k.split("#")[0])
            if self.raw_failed or any(not moved(k) for k in [*self.failed, *lim]):
                for extra in (["--rlimit", "40"], ["--rlimit", "40", "-V", "spinoff-all"], ["--rlimit", "40", "--smt-option", "smt.random_seed=7"]):
                    if left() < 200:
                        break
                    rc2, res2, diags2 = self.verus(rs, extra)
                    if res2 is None or "verified" not in res2.get("verification-results", {}) or res2["verification-results"].get("encountered-vir-error"):
                        continue
                    keep_raw = self.raw_failed
                    f2, l2 = self.failures(diags2, regs, fname)
                    raw2 = self.raw_failed
                    # discharged once is discharged
                    self.failed = {k: v for k, v in self.failed.items() if k in f2 or k in l2}
                    lim = {k: v for k, v in lim.items() if k in f2 or k in l2}
                    self.raw_failed = [x for x in keep_raw if x in raw2]
                    if not self.failed and not lim and not self.raw_failed:
                        break
            for k, v in lim.items():
                if k not in self.failed:
                    self.undecided[k.split("#")[0]] = "solver gave up: " + v[:200]
            return self
        self.broken = "the extracted text is not accepted"
        return self

    def collect(self, res):
        try:
            for m in res["times-ms"]["smt"]["smt-run-module-times"]:
                for f in m.get("function-breakdown", []):
                    self.breakdown[f["function"]] = (f["mode:"] if "mode:" in f else f.get("mode", ""), f["time-micros"], f["success"])
            self.smt_ms += res["times-ms"]["smt"]["smt-run"]
        except (KeyError, TypeError):
            pass

    def failures(self, diags, regs, fname):
        failed, lim = {}, {}
        self.raw_failed = []
        for d in diags:
            if d.get("level") != "error" or d["message"].startswith("aborting"):
                continue
            k = where(regs, d["spans"], fname)
            m = d.get("rendered") or d["message"]
            if "rlimit" in d["message"].lower() or "resource limit" in d["message"].lower():
                lim.setdefault(k, m) if k else self.raw_failed.append(d["message"])
            elif k is None:
                self.raw_failed.append(d["message"])
            else:
                failed.setdefault(k, []).append(m)
        for d in diags:
            if d.get("level") != "error" and "resource limit" in d["message"].lower():
                k = where(regs, d["spans"], fname)
                if k:
                    lim.setdefault(k, d["message"])
        return failed, lim

    def probe(self):
        """every contract's precondition must be satisfiable: `assert(false)` at the start of each body must fail"""
        rs, err = self.extract(probe=True)
        if err:
            return ["?"], 0
        text = self.text
        rc, res, diags = self.verus(rs)
        if res is None:
            return [], 0
        regs = regions(text)
        f, _ = self.failures(diags, regs, os.path.basename(rs))
        keys = {k for k, a, b in regs if "assert(false); // probe" in "\n".join(text.split("\n")[a - 1:b])}
        return sorted(keys - set(f)), len(keys)


def short(key):
    return key


# ---------------------------------------------------------------- executions
def build_falsifier():
    rc, o, e = sh(["cargo", "build", "--offline"], min(left(), 700), env=repo_env(), cwd=os.path.join(V, "falsify"))
    if rc != 0:
        return None, e[-3000:]
    return os.path.join(REPO, "target", "debug", "ruler-falsify"), None


LIT = re.compile(r'//[^\n]*|/\*.*?\*/|r(#*)"(?P<raw>.*?)"\1|"(?P<str>(?:[^"\\]|\\.)*)"|\'(?P<chr>[^\'\\]|\\.)\'|(?<![\w.])(?P<num>0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?\b', re.S)


def literals(src):
    """how often each text and number stands in the sources"""
    n = {}
    for d, _, fs in sorted(os.walk(src)):
        for f in sorted(fs):
            if f.endswith(".rs"):
                for m in LIT.finditer(open(os.path.join(d, f), errors="replace").read()):
                    g = m.groupdict()
                    if g["num"]:
                        k = "n:%d" % int(g["num"].replace("_", ""), 0 if g["num"][:2] in ("0x", "0b") else 10)
                        n[k] = n.get(k, 0) + 1
                    else:
                        for w in re.split(r"[\s(){}\[\];\"\\]+", g["raw"] or g["str"] or g["chr"] or ""):
                            if 0 < len(w) <= 24:
                                n["w:" + w] = n.get("w:" + w, 0) + 1
    return n


def gained():
    """texts and numbers the code has more often than when the contracts were written: a hint for the search, nothing else"""
    try:
        base = json.load(open(os.path.join(V, "contracts", "literals.json")))
        new = [k for k, c in literals(os.path.join(REPO, "src")).items() if c > base.get(k, 0)]
        return [k[2:] for k in new if k[0] == "w"][:40], [int(k[2:]) for k in new if k[0] == "n" and int(k[2:]) < 2 ** 63][:40]
    except (OSError, ValueError):
        return [], []


class Falsifier:
    def __init__(self, binary, prop, tmp):
        self.words, self.nums = gained()
        self.bin, self.prop, self.tmp = binary, prop, tmp
        self.evals = self.distinct = 0
        self.samples, self.rule, self.viol, self.kinds = [], "", None, {}
        self.n = 0
        self.lock = threading.Lock()
        self.errors = []

    def one(self, seed, tier, budget):
        with self.lock:
            self.n += 1
            n = self.n
        out = os.path.join(self.tmp, "f%d.json" % n)
        sc = os.path.join(self.tmp, "scratch%d" % n)
        os.makedirs(sc, exist_ok=True)
        cmd = [self.bin, self.prop, "--out", out, "--scratch", sc, "--seed", str(seed), "--tier", tier, "--budget", str(budget)]
        if self.words:
            cmd += ["--words", json.dumps(self.words)]
        if self.nums:
            cmd += ["--nums", json.dumps(self.nums)]
        t = min(left() + 60, budget * 3 + 120)
        rc, o, e = sh(cmd, t, env=base_env(), cwd=sc, mem=5)
        if not os.path.exists(out):
            # the process died: once more, with every case written down before it runs
            tr = os.path.join(self.tmp, "trace%d" % n)
            rc, o, e = sh(cmd + ["--trace", tr], t, env=base_env(), cwd=sc, mem=5)
            if not os.path.exists(out):
                last = ""
                if os.path.exists(tr):
                    ls = open(tr, errors="replace").read().splitlines()
                    last = ls[-1] if ls else ""
                with self.lock:
                    if rc == "timeout" or rc in (-9, 137):
                        # out of time, or ended from outside (memory): no answer
                        self.errors.append("no result within %d s" % t)
                    elif self.viol is None:
                        self.viol = {"input": last[:4000] or "(setting up)", "detail": "the process ended with %s: %s" % (rc, e[-1500:]), "seed": seed, "tier": tier}
                shutil.rmtree(sc, ignore_errors=True)
                return
        d = json.load(open(out))
        shutil.rmtree(sc, ignore_errors=True)
        with self.lock:
            self.evals += d["evaluations"]
            self.distinct += d["distinct_nontrivial"]
            self.rule = d["rule"] or self.rule
            for s in d["samples"]:
                if len(self.samples) < 6:
                    self.samples.append(s)
            for k, v in d["per_kind"].items():
                self.kinds[k] = self.kinds.get(k, 0) + v
            if d["violation"] and self.viol is None:
                self.viol = dict(d["violation"], seed=seed, tier=tier)

    def many(self, jobs, width):
        with cf.ThreadPoolExecutor(width) as ex:
            list(ex.map(lambda j: self.one(*j), jobs))


# ---------------------------------------------------------------- main
SHAPES = {}
_b = os.path.join(V, "contracts", "baseline.txt")
if os.path.exists(_b):
    for _l in open(_b):
        _w = _l.rstrip("\n").split(" | ")
        if len(_w) == 3:
            SHAPES[_w[0]] = _w[2].split()


def known_findings(prop):
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = UNITS["properties"][prop]
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        return run(prop, tier, seed, cfg, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, cfg, tmp):
    def prove():
        ex = build_extractor()
        us = [Unit(ex, u, tmp) for u in cfg["units"]]
        with cf.ThreadPoolExecutor(4) as px:
            list(px.map(lambda u: u.run(), us))
        vac, probed = [], 0
        for u in us:
            if not u.broken:
                text, meta = u.text, u.meta
                v, n = u.probe()
                u.text, u.meta = text, meta
                vac += [k for k in v if k not in u.undecided]
                probed += n
        return us, vac, probed

    with cf.ThreadPoolExecutor(2) as px:
        pf = px.submit(prove)
        binary, berr = build_falsifier()
        fz = Falsifier(binary, prop, tmp)
        if binary:
            if tier == "quick":
                fz.many([(seed + 7919 * i, "quick", 40) for i in range(cfg.get("seeds", 4))], 4)
            else:
                fz.many([(seed + 7919 * i, "thorough", 240) for i in range(6)], 6)
        us, vac, probed = pf.result()

    # the functions the property's argument uses
    funcs, failed, undecided = [], {}, {}
    lemmas = []
    for u in us:
        if u.broken:
            undecided["unit " + u.name] = u.broken
        if u.meta:
            tagged = [f for f in u.meta["functions"] if prop in f["props"]]
        else:
            tagged = []
        for f in tagged:
            k = f["key"]
            bad = [m for q, ms in u.failed.items() if q.split("#")[0] == k for m in ms]
            st = "discharged"
            if u.broken:
                st = "undecided"
            elif f["status"] != "verified":
                st = "undecided"
                undecided[k] = f["reason"] or "not extracted"
            elif k in u.undecided:
                st = "undecided"
                undecided[k] = u.undecided[k]
            elif bad and k in SHAPES and SHAPES[k] != f["shape"]:
                # loops were added, removed or changed in kind: the invariants were written for other loops
                st = "undecided"
                undecided[k] = "its loops are not those the invariants were written for (%s, were %s); not discharged: %s" % (" ".join(f["shape"]), " ".join(SHAPES[k]), bad[0][:200])
            elif bad:
                st = "failed"
                failed[k] = (f, bad, u)
            elif k in vac:
                st = "undecided"
                undecided[k] = "its precondition could not be shown satisfiable"
            funcs.append(dict(key=k, file=f["file"], line=f["line"], status=st, loops=f["loops"], inlined=f["inlined"], closures=f["closures"], notes=f["notes"]))
        if u.raw_failed:
            undecided["lemmas of " + u.name] = "; ".join(u.raw_failed)[:300]

    # bounded search, deeper where something is open
    if binary and fz.viol is None and (failed or undecided):
        fz.many([(seed + 104729 * i, "thorough", 75 if failed else 45) for i in range(1, 7)], 6)

    known = known_findings(prop)
    viol_line, nviol, replay = None, 0, None
    rp = os.path.join(V, "evidence", "replay")
    os.makedirs(rp, exist_ok=True)
    kf_lines = []
    if fz.viol:
        hit = [d for m, d in known if m in fz.viol["input"]]
        if hit:
            kf_lines.append("KNOWN-FINDING: property=%s %s" % (prop, hit[0]))
        else:
            nviol = 1
            replay = os.path.join(rp, "%s.json" % prop)
            json.dump({"property": prop, "input": fz.viol["input"], "detail": fz.viol["detail"],
                       "rerun": "ruler-falsify %s --seed %d --tier %s --out OUT.json --scratch DIR" % (prop, fz.viol["seed"], fz.viol["tier"]),
                       "failed_obligations": {k: [m[:2000] for m in v[1]] for k, v in failed.items()}}, open(replay, "w"), indent=1)
            viol_line = "VIOLATION property=%s replay=%s" % (prop, replay)
    elif failed:
        nviol = len(failed)
        replay = os.path.join(rp, "%s.json" % prop)
        json.dump({"property": prop, "failed_obligations": [
            {"function": k, "source": "%s:%s" % (v[0]["file"], v[0]["line"]), "verifier": [m[:4000] for m in v[1]]} for k, v in failed.items()],
            "note": "the verifier gives no counterexample; a search over generated inputs found none either"}, open(replay, "w"), indent=1)
        viol_line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
    for m, d in known:
        l = "KNOWN-FINDING: property=%s %s" % (prop, d)
        if l not in kf_lines:
            kf_lines.append(l)

    # mechanical scan for what is assumed
    assumed = set()
    obligations = discharged = smt_us = 0
    qs = {}
    for u in us:
        for l in u.text.split("\n"):
            m = re.search(r"axiom fn (\w+)", l)
            if m:
                assumed.add("axiom " + m.group(1))
        for m in re.finditer(r"#\[verifier::external_body\]\s*(?:pub )?(?:broadcast )?(?:proof )?(fn|struct) (\w+)", u.text):
            assumed.add("external %s %s (%s)" % (m.group(1), m.group(2), u.name))
        for m in re.finditer(r"\b(assume|admit)\(", u.text):
            assumed.add(m.group(1) + " in " + u.name)
        for k, (mode, us_, ok) in u.breakdown.items():
            if "::p::" in k:
                continue
            obligations += 1
            discharged += bool(ok)
            smt_us += us_
            qs[k.replace("u_", "", 1)] = round(us_ / 1000.0, 1)
        # a query discharged on a repeat
        discharged += sum(1 for k, b in u.breakdown.items() if "::p::" not in k and not b[2]) if not u.failed and not u.raw_failed and not u.undecided else 0
    if obligations == 0 and not undecided:
        raise RuntimeError("no obligations")
    cov = {
        "obligations": obligations,
        "discharged": min(discharged, obligations),
        "checker_cmd": "; ".join(u.cmd for u in us),
        "trusted_base": sorted(assumed),
        "back_end": "Verus 0.2026.09.13 (Z3)",
        "solver_time_s": round(smt_us / 1e6, 2),
        "functions_under_contract": funcs,
        "functions_discharged": sum(f["status"] == "discharged" for f in funcs),
        "undecided_functions": undecided,
        "vacuity_probes": {"functions_probed": probed, "unsatisfiable": vac},
        "bounded": {"what": "executable contracts run against the compiled code of /repo; never counted as proved", "stands_in_for": cfg.get("bounded", [])},
        "evaluations": fz.evals,
        "distinct_nontrivial": fz.distinct,
        "rule": fz.rule,
        "samples": fz.samples,
        "cases_per_kind": fz.kinds,
    }
    if berr:
        cov["bounded_error"] = berr[-800:]
    if fz.errors:
        cov["bounded_error"] = "; ".join(fz.errors)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
          "assumptions": UNITS["assumptions"] + cfg.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": nviol}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)

    for l in kf_lines:
        print(l)
    for f in funcs:
        print("  %-12s %s (%s:%s)" % (f["status"], f["key"], f["file"], f["line"]))
    for k, r in undecided.items():
        print("  undecided: %s: %s" % (k, r))
    print("%s: %d/%d obligations, %d functions under contract (%d discharged), %d cases run, %.0f s" % (
        prop, cov["discharged"], obligations, len(funcs), cov["functions_discharged"], fz.evals, time.time() - T0))
    if viol_line:
        if fz.viol:
            print("  input: %s\n  %s" % (fz.viol["input"][:1500], fz.viol["detail"][:1500]))
        for k, v in failed.items():
            print("  failed obligation in %s (%s:%s):\n%s" % (k, v[0]["file"], v[0]["line"], v[1][0][:1500]))
        print(viol_line)
        return 1
    if not binary and (undecided or not funcs):
        print("nothing decides %s: the executable contracts do not build: %s" % (prop, berr[-1500:]))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
