//! files, logging, pipelines: C23, C24, C28
use crate::egr::expr;
use crate::infra::*;
use crate::rules::*;
use crate::terms::{rand_term, shows};
use crate::tl::*;
use egg::{CostFunction, Language};
use ruler::enumo::{Metric, Ruleset, Scheduler, Sexp, Workload};
use ruler::recipe_utils::*;
use ruler::*;

pub fn c23(cx: &mut Cx) -> R {
    cx.rule("random workloads of 0-8 non-empty terms (atoms with operator characters, nested lists) and random rulesets written over files with and without previous longer content, read back and compared; non-trivial: at least two terms or rules");
    let dir = cx.scratch.clone();
    let f = dir.join("roundtrip.txt");
    let fname = f.to_str().unwrap().to_string();
    let rw = |r: &mut Rng| -> Vec<Sexp> {
        let n = r.size(9);
        (0..n).map(|_| loop {
            let d = r.below(4);
            let t = rand_term(r, &["a", "b", "+", "?x", "*", "VAR", "<=", "x1", "-", "0.5", "<<", "&&", "1/2"], d, 4);
            fn ok(t: &Sexp) -> bool { match t { Sexp::Atom(_) => true, Sexp::List(l) => !l.is_empty() && l.iter().all(ok) } }
            if ok(&t) { break t }
        }).collect()
    };
    for i in 0..cx.n(700) {
        let ts = rw(&mut cx.rng);
        let old = rw(&mut cx.rng);
        let _ = std::fs::remove_file(&f);
        cx.case("workload", format!("{} over a file of {}", shows(&ts), if i % 2 == 0 { "nothing".into() } else { shows(&old) }), ts.len() > 1, || {
            if i % 2 == 1 {
                Workload::Set(old.clone()).to_file(&fname);
            }
            let w = if i % 3 == 0 { Workload::Append(vec![Workload::Set(ts.clone()), Workload::empty()]) } else { Workload::Set(ts.clone()) };
            w.to_file(&fname);
            let back = Workload::from_file(&fname).force();
            if back != ts { Err(format!("read back {}", shows(&back))) } else { Ok(()) }
        })?;
    }
    let lib = ["(+ ?a ?b) ==> (+ ?b ?a)", "(~ (~ ?a)) ==> ?a", "?a ==> (~ (~ ?a))", "(+ ?a 0) ==> ?a", "(* ?a 0) ==> 0", "(h ?a ?b ?b) ==> ?b", "(h ?a ?b ?c) ==> (h ?a ?c ?b)", "(+ (+ ?a ?b) ?c) ==> (+ ?a (+ ?b ?c))"];
    for i in 0..cx.n(700) {
        let k = cx.rng.size(8);
        let mut ts: Vec<String> = (0..k).map(|_| cx.rng.pick(&lib).to_string()).collect();
        for _ in 0..cx.rng.size(4) {
            let r = &mut cx.rng;
            let (d1, d2) = (1 + r.below(3), r.below(3));
            let (a, b) = (rand_pat_text(r, &OPS, d1, 3), rand_pat_text(r, &OPS, d2, 3));
            if legal(&pat(&a), &pat(&b)) {
                ts.push(format!("{} ==> {}", a, b));
            }
        }
        let rs: Rs = Ruleset::new(ts.iter());
        let _ = std::fs::remove_file(&f);
        cx.case("ruleset", format!("{:?}{}", names(&rs), if i % 2 == 1 { " over a longer file" } else { "" }), rs.len() > 1, || {
            if i % 2 == 1 {
                Rs::new(lib.iter()).to_file(&fname);
            }
            rs.to_file(&fname);
            let back: Rs = Ruleset::from_file(&fname);
            wellformed(&back)?;
            if back != rs || names(&back) != names(&rs) {
                return Err(format!("read back {:?}", names(&back)));
            }
            for (a, b) in back.0.values().zip(rs.0.values()) {
                if a.lhs.ast != b.lhs.ast || a.rhs.ast != b.rhs.ast {
                    return Err(format!("{} read back as {} ==> {}", b.name, a.lhs, a.rhs));
                }
            }
            Ok(())
        })?;
    }
    Ok(())
}

pub fn c24(cx: &mut Cx) -> R {
    use serde_json::{json, Value};
    cx.rule("random sequences of 1-6 public logging calls (in a scratch working directory) over a missing, empty, random-array or malformed results file; file contents after each call compared with previous records plus one; non-trivial: at least two records before the last call");
    let dir = cx.scratch.join("log");
    let path = dir.join("nightly/data/output.json");
    let rnd = |r: &mut Rng, d: usize| -> Value {
        fn go(r: &mut Rng, d: usize) -> Value {
            match r.below(if d == 0 { 5 } else { 7 }) {
                0 => Value::Null,
                1 => json!(r.chance(1, 2)),
                2 => json!(r.below(1000) as i64 - 500),
                3 => json!(["a", "x ==> y", "\"q\"\n", "ü"][r.below(4)]),
                4 => json!(r.below(100) as f64 / 8.0),
                5 => Value::Array((0..r.below(3)).map(|_| go(r, d - 1)).collect()),
                _ => {
                    let mut m = serde_json::Map::new();
                    for i in 0..r.below(3) {
                        m.insert(format!("k{}", (i * 7) % 5), go(r, d - 1));
                    }
                    Value::Object(m)
                }
            }
        }
        go(r, d)
    };
    for _ in 0..cx.n(250) {
        let r = &mut cx.rng;
        let start: Option<String> = match r.below(6) {
            0 => None,
            1 => Some(String::new()),
            2 => Some((*r.pick(&["{\"a\": 1}", "[1, 2", "not json", "7", "[1] trailing"])).to_string()),
            _ => Some({
                let n = r.size(5);
                let v = Value::Array((0..n).map(|_| rnd(r, 3)).collect());
                let text = match r.below(4) {
                    0 => v.to_string(),
                    1 => serde_json::to_string_pretty(&v).unwrap(),
                    // laid out by somebody else: deeper indentation, line ends
                    _ => {
                        let unit = [" ", "        ", "\t", "\t\t\t", "                "][r.below(5)].to_string();
                        let nl = ["\n", "\r\n", "\n\n\n"][r.below(3)];
                        serde_json::to_string_pretty(&v).unwrap().lines().map(|l| { let k = (l.len() - l.trim_start().len()) / 2; format!("{}{}", unit.repeat(k), l.trim_start()) }).collect::<Vec<_>>().join(nl)
                    }
                };
                format!("{}{}{}", ["", "", "\n", "   "][r.below(4)].repeat(r.below(4)), text, ["", "\n", " ", "\n\n"][r.below(4)].repeat([1, 1, 3, 200][r.below(4)]))
            }),
        };
        let calls = 1 + r.size(6);
        let kinds: Vec<usize> = (0..calls).map(|_| if r.chance(1, 4) { 1 + r.below(2) } else { 0 }).collect();
        let pool = ["(~ (~ ?a)) ==> ?a", "(+ ?a ?b) ==> (+ ?b ?a)", "(+ ?a ?a) ==> ?a", "(* ?a ?b) ==> (* ?b ?a)", "(~ ?a) ==> (~ (~ (~ ?a)))", "?a ==> (~ (~ ?a))", "(* ?a 0) ==> 0", "(+ ?a 0) ==> ?a"];
        let pick = |r: &mut Rng| -> Vec<&'static str> { pool.iter().filter(|_| r.chance(1, 3)).cloned().collect() };
        let mut sets: Vec<(Vec<&str>, Vec<&str>)> = (0..calls).map(|_| { let a = pick(r); let b = pick(r); (a, b) }).collect();
        let mut names: Vec<(&str, &str)> = (0..calls).map(|_| (*r.pick(&["herbie", "rational_replicate", "rational_best", "some_spec", "Herbie"]), *r.pick(&["herbie", "rational_replicate", "rational_best", "some_baseline"]))).collect();
        let recipes: Vec<Option<&str>> = (0..calls).map(|_| if r.chance(1, 3) { Some(*r.pick(&["", "a", "a\n", "a\nb", "a\n\nb\n", "\n\n\n"])) } else { None }).collect();
        let mut kindsched: Vec<[usize; 3]> = (0..calls).map(|_| [r.below(3), r.below(3), r.below(3)]).collect();
        // now and then the same record twice
        let mut times: Vec<u64> = (0..calls).map(|i| 250 * (i as u64 + 1)).collect();
        for i in 1..calls {
            if r.chance(1, 5) {
                let j = if r.chance(1, 2) { i - 1 } else { r.below(i) };
                let (a, b, c, d) = (sets[j].clone(), names[j], kindsched[j], times[j]);
                sets[i] = a;
                names[i] = b;
                kindsched[i] = c;
                times[i] = d;
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        std::env::set_current_dir(&dir).unwrap();
        if let Some(s) = &start {
            std::fs::create_dir_all(path.parent().unwrap()).unwrap();
            std::fs::write(&path, s).unwrap();
        }
        let parsed: Option<Vec<Value>> = match &start {
            None => Some(vec![]),
            Some(s) if s.is_empty() => Some(vec![]),
            Some(s) => serde_json::from_str(s).ok(),
        };
        let nt = parsed.as_ref().map_or(false, |p| p.len() + calls > 2);
        let path2 = path.clone();
        let res = cx.case("log", format!("file {:?} calls {:?} sets {:?} names {:?}", start, kinds, sets, names), nt, || {
            let mut model = parsed.clone();
            for (i, k) in kinds.iter().enumerate() {
                let t = std::time::Duration::from_millis(times[i]);
                let rs: Rs = Ruleset::new(sets[i].0.iter());
                let other: Rs = Ruleset::new(sets[i].1.iter());
                let (n1, n2) = names[i];
                let _ = std::fs::remove_dir_all("tests");
                if let Some(c) = recipes[i] {
                    std::fs::create_dir_all("tests/recipes").unwrap();
                    std::fs::write(format!("tests/recipes/{}.rs", n1), c).unwrap();
                }
                let ph = |j: usize| Phase { rules: rs.clone(), rules_name: ["one", "", "some rules"][j].into(), scheduler: [Scheduler::Simple(Limits::deriving()), Scheduler::Saturating(Limits::deriving()), Scheduler::Compress(Limits::deriving())][kindsched[i][j]] };
                let r = guarded(|| match k {
                    0 => logger::write_ff_phase(ph(0), ph(1), ph(2), t, &rs),
                    1 => logger::write_baseline(&rs, n1, &other, n2, t),
                    _ => logger::write_bv_derivability("bv8", rs.clone(), t, other.clone()),
                });
                match (&mut model, r) {
                    (None, Ok(_)) => return Err("a file that is not a JSON array was accepted".into()),
                    (None, Err(_)) => {
                        let now = std::fs::read_to_string(&path2).unwrap();
                        if Some(&now) != start.as_ref() {
                            return Err("a file that is not a JSON array was overwritten".into());
                        }
                        return Ok(());
                    }
                    (Some(_), Err(e)) => return Err(format!("logging panicked: {}", e)),
                    (Some(m), Ok(_)) => {
                        let now: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(&path2).unwrap()).map_err(|e| format!("results file is no JSON array: {}", e))?;
                        if now.len() != m.len() + 1 {
                            return Err(format!("{} records after call {}, {} before", now.len(), i, m.len()));
                        }
                        if now[..m.len()] != m[..] {
                            return Err("an earlier record was changed".into());
                        }
                        let last = now.last().unwrap();
                        let ty = ["ff_phases", "baseline", "bv"][*k];
                        if last["TYPE"] != ty {
                            return Err(format!("appended record has TYPE {}", last["TYPE"]));
                        }
                        // what the record says, without the times that are measured
                        fn untimed(v: &Value) -> Value {
                            match v {
                                Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), if k == "time" { json!("measured") } else { untimed(x) })).collect()),
                                _ => v.clone(),
                            }
                        }
                        let derive = |a: &Rs, b: &Rs, dt: DeriveType, name: bool| {
                            let (can, cannot) = a.derive(dt, b, Limits::deriving());
                            let mut v = json!({"can": can.to_str_vec(), "cannot": cannot.to_str_vec(), "time": "measured"});
                            if name { v["derive_type"] = json!(dt) }
                            v
                        };
                        let want = match k {
                            0 => {
                                let pt = |j: usize| format!("{} ({})", ["eqsat", "sat", "compress"][kindsched[i][j]], ["one", "", "some rules"][j]);
                                json!({"TYPE": ty, "phase1": pt(0), "phase2": pt(1), "phase3": pt(2), "time": "measured", "rules": rs.to_str_vec()})
                            }
                            1 => {
                                let both = |a: &Rs, b: &Rs, x: &str, y: &str| if x == "herbie" && y.starts_with("rational_") { json!({}) } else { json!({"lhs": derive(a, b, DeriveType::Lhs, true), "lhs_rhs": derive(a, b, DeriveType::LhsAndRhs, true)}) };
                                json!({"TYPE": ty, "spec_name": n1, "baseline_name": n2, "loc": recipes[i].map_or("-".to_string(), |c| c.lines().count().to_string()), "rules": rs.to_str_vec(), "time": "measured",
                                    "derivability": {"enumo_derives_baseline": both(&rs, &other, n1, n2), "baseline_derives_enumo": both(&other, &rs, n2, n1)}})
                            }
                            _ => {
                                let sound: Rs = Ruleset::new(other.to_str_vec().iter().filter(|s| { let r: ruler::enumo::Rule<Tl> = ruler::enumo::Rule::from_string(s).unwrap().0; r.is_valid() }));
                                json!({"TYPE": ty, "domain": "bv8", "direct_gen": {"rules": rs.to_str_vec(), "time": "measured"}, "from_bv4": {"rules": sound.to_str_vec(), "time": "measured"},
                                    "derivability": {"lhs": derive(&sound, &rs, DeriveType::Lhs, false), "lhs_rhs": derive(&sound, &rs, DeriveType::LhsAndRhs, false)}})
                            }
                        };
                        if untimed(last) != want {
                            return Err(format!("the appended record is {}, expected {}", untimed(last), want));
                        }
                        let given = if *k == 2 { &last["direct_gen"]["time"] } else { &last["time"] };
                        if *given != json!(t.as_secs_f64()) {
                            return Err(format!("the appended record has time {}", given));
                        }
                        *m = now;
                    }
                }
            }
            Ok(())
        });
        std::env::set_current_dir(&cx.scratch).unwrap();
        res?;
    }
    Ok(())
}

pub fn c28(cx: &mut Cx) -> R {
    cx.rule("inference on random small workloads and prior rulesets of the test domain, in cvec, fast and fast-forwarding pipelines and recursively up to size 3; every returned rule judged by an exhaustive validator; non-trivial: at least one rule learned with a non-empty prior");
    let priors = ["(+ ?a ?b) ==> (+ ?b ?a)", "(* ?a ?b) ==> (* ?b ?a)", "(~ (~ ?a)) ==> ?a", "(+ ?a 0) ==> ?a"];
    let lim = Limits { iter: 2, node: 3000, match_: 3000 };
    let valid = |r: &ruler::enumo::Rule<Tl>| verdict(&inst(&r.lhs), &inst(&r.rhs)) == 0;
    for it in 0..cx.n(900) {
        if !cx.time_left() { break }
        let r = &mut cx.rng;
        let n = 3 + r.below(8);
        let ops = [("+", 2), ("*", 2), ("~", 1), ("bad", 1), ("g", 1), ("/", 2)];
        let mut ts: Vec<String> = (0..n).map(|_| { let d = 1 + r.below(2); rand_expr(r, &ops, &["x", "y", "0", "1"], d) }).collect();
        ts.push("x".into());
        ts.push("(~ x)".into());
        ts.push("(~ (~ x))".into());
        ts.push("(+ x y)".into());
        ts.push("(+ y x)".into());
        let kp = r.below(3);
        let pt: Vec<&str> = (0..kp).map(|_| *r.pick(&priors)).collect();
        let ff = it % 3 == 2;
        let ex: Vec<String> = vec!["(bad ?a)".to_string(), "(~ ?a)".into()].into_iter().take(0).chain(vec!["(~ ?a) ==> (bad2 0 ?a)".to_string(), "(bad2 0 (bad2 0 ?a)) ==> ?a".into(), "(+ ?a ?b) ==> (+ ?b ?a)".into()]).collect();
        EXPLORATORY.with(|e| *e.borrow_mut() = ex.clone());
        let prior: Rs = Ruleset::new(pt.iter());
        let w = Workload::new(ts.iter());
        let mut learned = 0;
        let wexprs: Vec<_> = ts.iter().map(|t| expr(t)).collect();
        let maxsize = wexprs.iter().map(|e| egg::AstSize.cost_rec(e)).max().unwrap_or(0);
        let wops: std::collections::BTreeSet<String> = wexprs.iter().flat_map(|e| e.as_ref().iter().filter(|n| !n.is_leaf()).map(|n| n.to_string()).collect::<Vec<_>>()).collect();
        let d = format!("terms {:?} prior {:?} pipeline {}", ts, pt, ["exact", "fast", "fast-forwarding"][it % 3]);
        let res = cx.case("run", d, kp > 0, || {
            let got = guarded(|| if ff { run_fast_forwarding(w.clone(), prior.clone(), lim, lim) } else { run_workload(w.clone(), prior.clone(), lim, lim, it % 3 == 1) });
            let got = match got {
                Ok(g) => g,
                Err(e) if e.contains("Didn't learn any rules") => return Ok(()),
                Err(e) => return Err(format!("panicked: {}", e)),
            };
            learned = got.len();
            wellformed(&got)?;
            for r in got.0.values() {
                if !valid(r) {
                    return Err(format!("unsound rule {} learned", r.name));
                }
                if prior.contains(r) {
                    return Err(format!("prior rule {} learned again", r.name));
                }
                if !ff {
                    // candidates are smallest terms of classes of subterms of the workload, and compression adds none
                    for side in [&r.lhs, &r.rhs] {
                        let e = inst(side);
                        if egg::AstSize.cost_rec(&e) > maxsize {
                            return Err(format!("rule {} is about a term larger than every term of the workload", r.name));
                        }
                        for n in e.as_ref() {
                            if !n.is_leaf() && !wops.contains(&n.to_string()) {
                                return Err(format!("rule {} uses an operator that is not in the workload", r.name));
                            }
                        }
                    }
                }
                if ff && r.name.contains("bad") {
                    return Err(format!("rule {} uses an operator that is not allowed", r.name));
                }
            }
            Ok(())
        });
        let _ = learned;
        res?;
    }
    for it in 0..cx.n(90) {
        if !cx.time_left() { break }
        let r = &mut cx.rng;
        let uops = vec!["~"];
        let bops = vec!["+", "*"];
        // leaves that are terms themselves: equalities at size one, and possibly nothing new later
        let small = it % 3 == 0 || it > 30 || it % 5 == 4;
        let metric = if small { *r.pick(&[Metric::Lists, Metric::Atoms, Metric::Depth]) } else { Metric::Atoms };
        let lang = match it % 3 {
            0 if small => Lang::new(&["0"], &["x", "(+ x 0)"], &[&uops]),
            1 if small => Lang::new(&["0", "1"], &["x"], &[&[], &["+"]]),
            2 if small => Lang::new(&[], &["x", "(~ (~ x))", "(* x 1)"], &[&uops]),
            0 => Lang::new(&["0", "1"], &["x", "y"], &[&uops, &bops]),
            1 => Lang::new(&["0"], &["x"], &[&uops]),
            _ => Lang::new(&[], &["x", "y"], &[&uops, &bops, &["h"]]),
        };
        let kp = r.below(3);
        let pt: Vec<&str> = (0..kp).map(|_| *r.pick(&priors)).collect();
        let prior: Rs = Ruleset::new(pt.iter());
        let n = if small { 1 + it / 3 % 2 } else { it % 4 };
        cx.case("recursive", format!("{:?} {:?} size {} prior {:?}", lang, metric, n, pt), n > 1, || {
            let go = |k: usize| guarded(|| recursive_rules::<Tl>(metric, k, lang.clone(), prior.clone()));
            let got = match go(n) {
                Ok(g) => g,
                Err(e) if e.contains("Didn't learn any rules") => return Ok(()),
                Err(e) => return Err(format!("panicked: {}", e)),
            };
            wellformed(&got)?;
            for r in got.0.values() {
                if !prior.contains(r) && !valid(r) {
                    return Err(format!("unsound rule {} learned", r.name));
                }
            }
            if n > 0 {
                for r in prior.0.values() {
                    if !got.contains(r) {
                        return Err(format!("prior rule {} is missing", r.name));
                    }
                }
                let less = go(n - 1).map_err(|e| format!("smaller size panicked: {}", e))?;
                for r in less.0.values() {
                    if !got.contains(r) {
                        return Err(format!("rule {} learned at size {} is missing", r.name, n - 1));
                    }
                }
            } else if !got.is_empty() {
                return Err("rules at size 0".into());
            }
            Ok(())
        })?;
    }
    Ok(())
}
