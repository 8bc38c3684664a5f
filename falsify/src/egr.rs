//! e-graph level properties: C15 - C20, C22, C27
use crate::infra::*;
use crate::rules::*;
use crate::tl::*;
use egg::{Analysis, AstSize, CostFunction, Extractor, Language, RecExpr, Symbol};
use ruler::enumo::{Rule, Ruleset, Scheduler, Sexp, Workload};
use ruler::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn expr(s: &str) -> RecExpr<Tl> {
    s.parse().unwrap()
}
/// random e-graph from terms with some extra unions; the texts describe it
struct Spec {
    terms: Vec<String>,
    unions: Vec<(usize, usize)>,
}
impl Spec {
    fn show(&self) -> String {
        format!("terms {:?} unions {:?}", self.terms, self.unions)
    }
    fn build(&self) -> (Eg, Vec<Id>) {
        let mut eg: Eg = Default::default();
        let ids: Vec<Id> = self.terms.iter().map(|t| eg.add_expr(&expr(t))).collect();
        for (a, b) in &self.unions {
            eg.union(ids[*a], ids[*b]);
        }
        eg.rebuild();
        (eg, ids)
    }
}
fn rand_spec(r: &mut Rng, ops: &[(&str, usize)], n: usize, depth: usize, nun: usize) -> Spec {
    // variables only (no numbers), so that arbitrary unions cannot pin conflicting constants
    let terms: Vec<String> = (0..n).map(|_| rand_expr(r, ops, &["x", "y", "w"], depth)).collect();
    let unions = (0..nun).map(|_| (r.below(n), r.below(n))).collect();
    Spec { terms, unions }
}
fn ids(eg: &Eg) -> Vec<Id> {
    eg.classes().map(|c| c.id).collect()
}
fn snapshot(eg: &Eg) -> (usize, usize, Vec<(Id, Vec<String>)>) {
    let mut v: Vec<(Id, Vec<String>)> = eg.classes().map(|c| (c.id, c.nodes.iter().map(|n| format!("{:?}", n)).collect())).collect();
    v.sort();
    (eg.number_of_classes(), eg.total_number_of_nodes(), v)
}

const RULEPOOL: [&str; 14] = [
    "(+ ?a ?b) ==> (+ ?b ?a)", "(* ?a ?b) ==> (* ?b ?a)", "(~ (~ ?a)) ==> ?a", "(+ (+ ?a ?b) ?c) ==> (+ ?a (+ ?b ?c))", "(g ?a) ==> ?a", "(~ ?a) ==> (g ?a)",
    "?a ==> (~ (~ ?a))", "(* ?a (+ ?b ?c)) ==> (+ (* ?a ?b) (* ?a ?c))", "(h ?a ?b ?b) ==> ?b", "(/ ?a ?a) ==> (g ?a)", "(+ ?a ?a) ==> (~ ?a)", "(bad ?a) ==> (~ ?a)", "(h ?a ?b ?c) ==> (+ ?a (* ?b ?c))", "(g (g ?a)) ==> (bad ?a)",
];

pub fn c15(cx: &mut Cx) -> R {
    cx.rule("random e-graphs (2-7 terms up to depth 4, random unions) and random subsets of 14 rules, several limits; compression compared with an independent application of the equalities of a plain run; preservation under all three modes; for runs that saturate, all modes and egg's own runner compared; non-trivial: the run merges at least two original classes");
    let lims = [
        Limits { iter: 1, node: 2000, match_: 1000 }, Limits { iter: 2, node: 2000, match_: 1000 }, Limits { iter: 3, node: 300, match_: 20 },
        Limits { iter: 4, node: 100, match_: 5 }, Limits { iter: 0, node: 100, match_: 5 }, Limits { iter: 6, node: 3000, match_: 2000 },
    ];
    for it in 0..cx.n(700) {
        if !cx.time_left() { break }
        let r = &mut cx.rng;
        let (n, d, u) = (2 + r.size(6), 1 + r.below(4), r.size(3));
        let sp = rand_spec(r, &OPS, n, d, u);
        let k = r.below(5);
        let mut rt: Vec<&str> = (0..k).map(|_| *r.pick(&RULEPOOL)).collect();
        if it % 9 == 0 {
            rt = RULEPOOL[..3].to_vec();
        }
        let lim = lims[it % lims.len()];
        let rs: Rs = Ruleset::new(rt.iter());
        let (eg, _) = sp.build();
        let out0 = Scheduler::Simple(lim).run(&eg, &rs);
        let orig = ids(&eg);
        let merges = orig.iter().any(|a| orig.iter().any(|b| a != b && out0.find(*a) == out0.find(*b)));
        let desc = format!("{} rules {:?} {:?}", sp.show(), rt, lim);
        cx.case("run", desc, merges, || {
            let before = snapshot(&eg);
            // reference compression
            let mut want = eg.clone();
            for i in 0..orig.len() {
                for j in 0..i {
                    if out0.find(orig[i]) == out0.find(orig[j]) {
                        want.union(orig[i], orig[j]);
                    }
                }
            }
            want.rebuild();
            let got = Scheduler::Compress(lim).run(&eg, &rs);
            if snapshot(&eg) != before {
                return Err("compression modified its input".into());
            }
            if !got.clean {
                return Err("compressed e-graph is not rebuilt".into());
            }
            for i in 0..orig.len() {
                for j in 0..i {
                    let (g, w) = (got.find(orig[i]) == got.find(orig[j]), want.find(orig[i]) == want.find(orig[j]));
                    if g != w {
                        return Err(format!("original classes {} and {} are {}equal after compression, saturation {} them", orig[i], orig[j], if g { "" } else { "not " }, if w { "proved" } else { "did not prove" }));
                    }
                }
            }
            if got.number_of_classes() != want.number_of_classes() || got.number_of_classes() > eg.number_of_classes() {
                return Err(format!("{} classes after compression, {} before, {} expected", got.number_of_classes(), eg.number_of_classes(), want.number_of_classes()));
            }
            if got.total_number_of_nodes() > eg.total_number_of_nodes() {
                return Err("compression added e-nodes".into());
            }
            // every e-node of the result comes from the input
            for c in got.classes() {
                for n in &c.nodes {
                    let known = eg.classes().any(|k| k.nodes.iter().any(|m| m.clone().map_children(|i| got.find(i)) == n.clone().map_children(|i| got.find(i))));
                    if !known {
                        return Err(format!("e-node {:?} is new", n));
                    }
                }
            }
            // all modes preserve equalities and terms
            let sat = Scheduler::Saturating(lim).run(&eg, &rs);
            let sim = Scheduler::Simple(lim).run(&eg, &rs);
            if snapshot(&eg) != before {
                return Err("a scheduling mode modified its input".into());
            }
            for (name, o) in [("saturating", &sat), ("simple", &sim), ("compress", &got)] {
                if !o.clean {
                    return Err(format!("{} result is not rebuilt", name));
                }
                for c in eg.classes() {
                    for n in &c.nodes {
                        match o.lookup(n.clone()) {
                            Some(x) if o.find(x) == o.find(c.id) => (),
                            _ => return Err(format!("{} mode lost or moved e-node {:?} of class {}", name, n, c.id)),
                        }
                    }
                }
            }
            Ok(())
        })?;
    }
    // saturating systems: all modes and egg's own runner agree on the original classes
    let finite = ["(+ ?a ?b) ==> (+ ?b ?a)", "(* ?a ?b) ==> (* ?b ?a)", "(~ (~ ?a)) ==> ?a", "(+ (+ ?a ?b) ?c) ==> (+ ?a (+ ?b ?c))", "(g ?a) ==> ?a", "(~ ?a) ==> (g ?a)", "(h ?a ?b ?b) ==> ?b", "(/ ?a ?a) ==> (g ?a)", "(bad ?a) ==> (~ ?a)", "(h ?a ?b ?c) ==> (+ ?a (* ?b ?c))", "(+ ?a ?a) ==> (~ ?a)"];
    for it in 0..cx.n(400) {
        if !cx.time_left() { break }
        let r = &mut cx.rng;
        let (n, d, u) = (2 + r.below(5), 1 + r.below(3), r.below(2));
        let mut sp = rand_spec(r, &OPS, n, d, u);
        let k = 1 + r.below(5);
        let mut rt: Vec<String> = (0..k).map(|_| r.pick(&finite).to_string()).collect();
        // chains of steps, one round each: up to 30 rounds until the last equality is found
        let steps = if it % 8 == 3 { 2 + r.below(29) } else { 0 };
        if steps > 0 {
            rt.truncate(r.below(2));
            let base = r.below(3);
            for i in 0..steps {
                let to = if i + 1 == steps { "(g ?a)".to_string() } else { format!("(h ?a ?b {})", base + i + 1) };
                rt.push(format!("(h ?a ?b {}) ==> {}", base + i, to));
            }
            r.shuffle(&mut rt);
            for t in [format!("(h x y {})", base), "(g x)".to_string()] {
                sp.terms.push(t.parse().unwrap());
            }
        }
        let rs: Rs = Ruleset::new(rt.iter());
        let (eg, _) = sp.build();
        let rws: Vec<_> = rs.0.values().map(|r| r.rewrite.clone()).collect();
        let runner = egg::Runner::default().with_egraph(eg.clone()).with_scheduler(egg::SimpleScheduler).with_iter_limit(if steps > 0 { steps + 14 } else { 14 }).with_node_limit(3000).run(&rws);
        if !matches!(runner.stop_reason, Some(egg::StopReason::Saturated)) {
            continue;
        }
        let rf = runner.egraph;
        let orig = ids(&eg);
        let merges = orig.iter().any(|a| orig.iter().any(|b| a != b && rf.find(*a) == rf.find(*b)));
        let desc = format!("{} rules {:?}", sp.show(), rt);
        cx.case("saturation", desc, merges, || {
            let lim = Limits { iter: 50, node: 100000, match_: 100000 };
            for (name, s) in [("simple", Scheduler::Simple(lim)), ("saturating", Scheduler::Saturating(lim)), ("compress", Scheduler::Compress(lim))] {
                let o = s.run(&eg, &rs);
                for i in 0..orig.len() {
                    for j in 0..i {
                        let (g, w) = (o.find(orig[i]) == o.find(orig[j]), rf.find(orig[i]) == rf.find(orig[j]));
                        if g != w {
                            return Err(format!("{} mode: original classes {} and {} equal = {}, saturation says {}", name, orig[i], orig[j], g, w));
                        }
                    }
                }
            }
            Ok(())
        })?;
    }
    Ok(())
}

pub fn c16(cx: &mut Cx) -> R {
    cx.rule("random rule and ruleset pairs, both modes, several limits: verdict compared with the equality reached by running the public saturating schedule on the initial side(s), and with plain egg saturation as an upper bound when that saturates; derive compared with the per-rule verdicts; non-trivial: the verdict is positive for a non-identity or depends on the mode");
    let lims = [Limits { iter: 2, node: 2000, match_: 500 }, Limits { iter: 3, node: 1000, match_: 500 }, Limits { iter: 1, node: 2000, match_: 500 }, Limits::deriving(), Limits { iter: 0, node: 2000, match_: 500 }];
    let targets0 = [
        "(+ ?a (+ ?b ?c)) ==> (+ (+ ?a ?b) ?c)", "(+ ?a ?b) ==> (+ ?b ?a)", "(~ (~ (~ (~ ?a)))) ==> ?a", "(g (~ ?a)) ==> (~ (g ?a))", "(+ (* ?a ?b) ?c) ==> (+ ?c (* ?b ?a))",
        "(+ ?a ?b) ==> (* ?a ?b)", "(g ?a) ==> (bad ?a)", "(h ?a ?b ?c) ==> (+ ?a (* ?b ?c))", "(~ ?a) ==> (bad ?a)", "(bad ?a) ==> (~ ?a)", "(bad ?a) ==> (g ?a)", "(+ ?a ?a) ==> (g ?a)", "(* ?a ?b) ==> (* ?a ?b)",
        "(+ ?a ?b) ==> ?a", "(~ ?a) ==> ?a", "(h ?a ?a ?a) ==> (/ ?a ?a)", "(/ ?a ?a) ==> (bad ?a)",
        // the rule's variables must stay distinct constants
        "(+ ?a ?b) ==> (+ ?a ?a)", "(* ?a ?b) ==> (* ?b ?b)",
        // nothing but the left side is there to start from in left mode
        "(+ 1 2) ==> 3", "(~ 0) ==> 1", "(* ?a 0) ==> 0", "(~ ?a) ==> (g ?a)",
    ];
    for it in 0..cx.n(1500) {
        if !cx.time_left() { break }
        let r = &mut cx.rng;
        let k = r.below(5);
        let rt: Vec<&str> = (0..k).map(|_| *r.pick(&RULEPOOL)).collect();
        let t: String = if r.chance(2, 3) {
            r.pick(&targets0).to_string()
        } else {
            let (d1, d2) = (1 + r.below(3), r.below(3));
            let (a, b) = (rand_expr(r, &OPS, &["?a", "?b"], d1), rand_expr(r, &OPS, &["?a", "?b"], d2));
            if legal(&pat(&a), &pat(&b)) { format!("{} ==> {}", a, b) } else { continue }
        };
        let rule = match Rule::<Tl>::from_string(&t) { Ok(r) => r.0, Err(_) => continue };
        // the reverse of the target tells the modes apart
        let back = format!("{} ==> {}", rule.rhs, rule.lhs);
        let mut rt: Vec<&str> = rt;
        if r.chance(1, 3) && legal(&rule.rhs, &rule.lhs) { rt.push(&back) }
        let rs: Rs = Ruleset::new(rt.iter());
        let lim = lims[it % lims.len()];
        let (l, rr) = (inst(&rule.lhs), inst(&rule.rhs));
        let reach = |both: bool| {
            let mut eg: Eg = Default::default();
            eg.add_expr(&l);
            if both {
                eg.add_expr(&rr);
            }
            let o = Scheduler::Saturating(lim).run(&eg, &rs);
            match (o.lookup_expr(&l), o.lookup_expr(&rr)) {
                (Some(a), Some(b)) => o.find(a) == o.find(b),
                _ => false,
            }
        };
        let upper = |both: bool| {
            // egg's own runner: an upper bound when it saturates
            let mut eg: Eg = Default::default();
            eg.add_expr(&l);
            if both {
                eg.add_expr(&rr);
            }
            let rws: Vec<_> = rs.0.values().map(|r| r.rewrite.clone()).collect();
            let ru = egg::Runner::default().with_egraph(eg).with_scheduler(egg::SimpleScheduler).with_iter_limit(12).with_node_limit(3000).run(&rws);
            if !matches!(ru.stop_reason, Some(egg::StopReason::Saturated)) {
                return true;
            }
            let o = ru.egraph;
            match (o.lookup_expr(&l), o.lookup_expr(&rr)) {
                (Some(a), Some(b)) => o.find(a) == o.find(b),
                _ => false,
            }
        };
        let (wl, wb) = (reach(false), reach(true));
        let nt = wl != wb || (wb && rule.lhs.ast != rule.rhs.ast);
        let d = format!("rules {:?} target {:?} {:?}", rt, t, lim);
        cx.case("can_derive", d, nt, || {
            for (ty, w, both) in [(DeriveType::Lhs, wl, false), (DeriveType::LhsAndRhs, wb, true)] {
                let g = rs.can_derive(ty, &rule, lim);
                if g != w {
                    return Err(format!("{:?}: reported {}, the sides are {}equal after the run", ty, g, if w { "" } else { "not " }));
                }
                if g && !upper(both) {
                    return Err(format!("{:?}: reported derivable, but full saturation does not equate the sides", ty));
                }
            }
            let empty: Rs = Default::default();
            for ty in [DeriveType::Lhs, DeriveType::LhsAndRhs] {
                if empty.can_derive(ty, &rule, lim) != (rule.lhs.ast == rule.rhs.ast || ptree(&rule.lhs) == ptree(&rule.rhs)) {
                    return Err("the empty ruleset derives something else than identities".into());
                }
            }
            Ok(())
        })?;
    }
    for _ in 0..cx.n(120) {
        if !cx.time_left() { break }
        let r = &mut cx.rng;
        let k = r.below(4);
        let rt: Vec<&str> = (0..k).map(|_| *r.pick(&RULEPOOL)).collect();
        let k2 = r.below(7);
        let tt: Vec<&str> = (0..k2).map(|_| *r.pick(&targets0)).collect();
        let (rs, ts): (Rs, Rs) = (Ruleset::new(rt.iter()), Ruleset::new(tt.iter()));
        let lim = Limits { iter: 2, node: 2000, match_: 500 };
        let ty = if r.chance(1, 2) { DeriveType::Lhs } else { DeriveType::LhsAndRhs };
        cx.case("derive", format!("rules {:?} targets {:?} {:?}", rt, tt, ty), !ts.is_empty(), || {
            let (can, cannot) = rs.derive(ty, &ts, lim);
            let (mut wc, mut wn) = (vec![], vec![]);
            for t in ts.0.values() {
                if rs.can_derive(ty, t, lim) { wc.push(t.name.to_string()) } else { wn.push(t.name.to_string()) }
            }
            if names(&can) != wc || names(&cannot) != wn {
                return Err(format!("derivable {:?} / not {:?}, want {:?} / {:?}", names(&can), names(&cannot), wc, wn));
            }
            wellformed(&can)?;
            wellformed(&cannot)
        })?;
    }
    Ok(())
}

// ---------- C17 ----------
fn sig(cvec: Vec<Option<i64>>, t: &str, lo: Option<i64>, hi: Option<i64>) -> Signature<Tl> {
    Signature { cvec, simplest: expr(t), interval: Interval { low: lo, high: hi } }
}
fn ext_size(e: &RecExpr<Tl>) -> usize {
    // size over allowed operators, "infinite" otherwise
    if e.as_ref().iter().any(|n| matches!(n, Tl::Bad(_) | Tl::Bad2(_))) {
        return usize::MAX;
    }
    fn go(e: &RecExpr<Tl>, i: usize) -> usize {
        1 + e.as_ref()[i].children().iter().map(|c| go(e, usize::from(*c))).sum::<usize>()
    }
    go(e, e.as_ref().len() - 1)
}
pub fn c17(cx: &mut Cx) -> R {
    cx.rule("random pairs of class data: sample vectors of length 0-6 with undefined entries (compatible and incompatible), representative terms of various sizes (including disallowed operators), intervals with open and closed ends (including disjoint); joined result, flags, order independence and idempotence checked; non-trivial: both sides carry information the other lacks");
    let terms = ["x", "y", "(+ x y)", "(~ x)", "(~ (~ y))", "(bad x)", "(bad2 x y)", "(h x y w)", "0", "(+ x (bad y))", "(~ y)"];
    let b = |r: &mut Rng| if r.chance(2, 5) { None } else { Some(r.below(5) as i64) };
    for _ in 0..cx.n(12000) {
        let r = &mut cx.rng;
        let n = r.size(7);
        let base: Vec<i64> = (0..n).map(|_| r.below(3) as i64).collect();
        let mk = |r: &mut Rng, bad: bool| -> Vec<Option<i64>> {
            base.iter().map(|v| if r.chance(2, 5) { None } else if bad && r.chance(1, 5) { Some(v + 1) } else { Some(*v) }).collect()
        };
        let bad = r.chance(1, 6);
        let (ca, cb) = if r.chance(1, 12) { (vec![], vec![]) } else { (mk(r, false), mk(r, bad)) };
        let iv = |r: &mut Rng| { let (l, h) = (b(r), b(r)); match (l, h) { (Some(x), Some(y)) if x > y => (Some(y), Some(x)), z => z } };
        let (ia, ib) = (iv(r), iv(r));
        let (ta, tb) = (*r.pick(&terms), *r.pick(&terms));
        let (a, bb) = (sig(ca, ta, ia.0, ia.1), sig(cb, tb, ib.0, ib.1));
        let lo = match (ia.0, ib.0) { (Some(x), Some(y)) => Some(x.max(y)), (x, None) => x, (None, y) => y };
        let hi = match (ia.1, ib.1) { (Some(x), Some(y)) => Some(x.min(y)), (x, None) => x, (None, y) => y };
        let conflict = a.cvec.iter().zip(&bb.cvec).any(|p| matches!(p, (Some(x), Some(y)) if x != y));
        let disjoint = matches!((lo, hi), (Some(x), Some(y)) if x > y);
        let want: Vec<Option<i64>> = a.cvec.iter().zip(&bb.cvec).map(|(x, y)| x.or(*y)).collect();
        let d = format!("({:?}, {}, [{:?},{:?}]) with ({:?}, {}, [{:?},{:?}])", a.cvec, ta, ia.0, ia.1, bb.cvec, tb, ib.0, ib.1);
        let nt = !conflict && !disjoint && want != a.cvec && want != bb.cvec;
        cx.case("merge", d, nt, || {
            let run = |x: &Signature<Tl>, y: &Signature<Tl>| {
                let (mut to, from) = (x.clone(), y.clone());
                guarded(move || {
                    let f = SynthAnalysis::default().merge(&mut to, from);
                    (to, f)
                })
            };
            let res = run(&a, &bb);
            if conflict || disjoint {
                return match res {
                    Err(_) => Ok(()),
                    Ok((m, _)) => Err(format!("{} data merged silently into {:?} {:?}", if conflict { "incompatible" } else { "disjoint-interval" }, m.cvec, m.interval)),
                };
            }
            let (m, f) = res.map_err(|e| format!("panicked: {}", e))?;
            if m.cvec != want {
                return Err(format!("merged samples {:?}, want {:?}", m.cvec, want));
            }
            if m.interval.low != lo || m.interval.high != hi {
                return Err(format!("merged interval [{:?},{:?}], want [{:?},{:?}]", m.interval.low, m.interval.high, lo, hi));
            }
            let (sa, sb) = (ext_size(&a.simplest), ext_size(&bb.simplest));
            if m.simplest != a.simplest && m.simplest != bb.simplest {
                return Err(format!("representative {} is neither", m.simplest));
            }
            if ext_size(&m.simplest) != sa.min(sb) {
                return Err(format!("representative {} of size {}, the smaller has {}", m.simplest, ext_size(&m.simplest), sa.min(sb)));
            }
            let differs = |x: &Signature<Tl>| m.cvec != x.cvec || m.interval != x.interval || m.simplest != x.simplest;
            if differs(&a) && !f.0 {
                return Err("result differs from the first side but no change is reported".into());
            }
            if differs(&bb) && !f.1 {
                return Err("result differs from the second side but no change is reported".into());
            }
            // order independence up to equal-size representatives, idempotence
            let (m2, _) = run(&bb, &a).map_err(|e| format!("other order panicked: {}", e))?;
            if m2.cvec != m.cvec || m2.interval != m.interval || ext_size(&m2.simplest) != ext_size(&m.simplest) {
                return Err("merging depends on the order".into());
            }
            let (m3, f3) = run(&m, &bb).map_err(|e| format!("repeated merge panicked: {}", e))?;
            if m3.cvec != m.cvec || m3.interval != m.interval || ext_size(&m3.simplest) != ext_size(&m.simplest) || (f3.0 && m3.simplest == m.simplest) {
                return Err("repeating the merge changes the result".into());
            }
            let (_, f4) = run(&m, &m).map_err(|e| format!("self merge panicked: {}", e))?;
            if f4.0 || f4.1 {
                return Err("merging a value with itself reports a change".into());
            }
            Ok(())
        })?;
    }
    for (l, h) in [(None, None), (Some(1), None), (None, Some(0)), (Some(1), Some(1)), (Some(0), Some(2)), (Some(2), Some(1)), (Some(-3), Some(-4))] {
        cx.case("interval", format!("[{:?},{:?}]", l, h), true, || {
            let ok = !matches!((l, h), (Some(a), Some(b)) if a > b);
            match (guarded(|| Interval::<i64>::new(l, h)), ok) {
                (Ok(i), true) if i.low == l && i.high == h => Ok(()),
                (Err(_), false) => Ok(()),
                (r, _) => Err(format!("{:?}", r.map(|i| (i.low, i.high)))),
            }
        })?;
    }
    // through the e-graph: data of merged classes
    Ok(())
}

// ---------- C18 / C19 ----------
/// the two names a pair may be proposed under: renaming from e1 or from e2 first
fn pair_rules(e1: &RecExpr<Tl>, e2: &RecExpr<Tl>) -> [BTreeSet<String>; 2] {
    let go = |x: &RecExpr<Tl>, y: &RecExpr<Tl>| {
        let mut order = vec![];
        first_vars_pub(x, &mut order);
        first_vars_pub(y, &mut order);
        let ren = |e: &RecExpr<Tl>| -> RecExpr<Tl> {
            let nodes: Vec<Tl> = e.as_ref().iter().map(|n| match n {
                Tl::Var(v) => {
                    let i = order.iter().position(|o| *o == v.to_string()).unwrap();
                    Tl::Var(Symbol::from(format!("?{}", (b'a' + i as u8) as char)))
                }
                n => n.clone(),
            }).collect();
            RecExpr::from(nodes)
        };
        let (p, q) = (pat(&ren(x).to_string()), pat(&ren(y).to_string()));
        let mut s = BTreeSet::new();
        if legal(&p, &q) {
            s.insert(alpha(&format!("{} ==> {}", p, q)));
        }
        if legal(&q, &p) {
            s.insert(alpha(&format!("{} ==> {}", q, p)));
        }
        s
    };
    let b = go(e2, e1);
    [go(e1, e2), b]
}
fn first_vars_pub(e: &RecExpr<Tl>, out: &mut Vec<String>) {
    fn go(e: &RecExpr<Tl>, i: usize, out: &mut Vec<String>) {
        let n = &e.as_ref()[i];
        if let Tl::Var(v) = n {
            if !out.contains(&v.to_string()) {
                out.push(v.to_string());
            }
        }
        for c in n.children() {
            go(e, usize::from(*c), out);
        }
    }
    go(e, e.as_ref().len() - 1, out)
}
/// the variables renamed to ?a, ?b, ... in order of first appearance
fn alpha(t: &str) -> String {
    let mut seen: Vec<String> = vec![];
    let mut out = String::new();
    let mut cs = t.chars().peekable();
    while let Some(c) = cs.next() {
        if c != '?' {
            out.push(c);
            continue;
        }
        let mut n = String::new();
        while let Some(d) = cs.peek() {
            if d.is_whitespace() || *d == ')' || *d == '(' {
                break;
            }
            n.push(*d);
            cs.next();
        }
        let i = seen.iter().position(|x| *x == n).unwrap_or_else(|| {
            seen.push(n);
            seen.len() - 1
        });
        out.push_str(&format!("?{}", (b'a' + i as u8) as char));
    }
    out
}
/// exactly the qualifying pairs are proposed
fn check_pairs(got: &Rs, pairs: &[(RecExpr<Tl>, RecExpr<Tl>)], both_orders: bool) -> Result<(), String> {
    // up to the choice of variable names
    let g: BTreeSet<String> = names(got).into_iter().map(|n| alpha(&n)).collect();
    let mut allowed = BTreeSet::new();
    for (a, b) in pairs {
        let [x, y] = pair_rules(a, b);
        let ok = if both_orders { x.is_subset(&g) && y.is_subset(&g) } else { x.is_subset(&g) || y.is_subset(&g) };
        if !ok {
            return Err(format!("pair {} / {} qualifies, but {:?} is not proposed", a, b, x.difference(&g).collect::<Vec<_>>()));
        }
        allowed.extend(x);
        allowed.extend(y);
    }
    for n in &g {
        if !allowed.contains(n) {
            return Err(format!("{} is proposed but no qualifying pair gives it", n));
        }
    }
    wellformed(got)
}
pub fn c18(cx: &mut Cx) -> R {
    cx.rule("e-graphs of 2-8 random terms whose classes get random sample vectors of length 1-4 over {undefined, 0, 1, 2}; all pairs of classes judged independently and compared with both searches; non-trivial: some pair qualifies for the exact search and some does not");
    for _ in 0..cx.n(2500) {
        if !cx.time_left() { break }
        let r = &mut cx.rng;
        let (n, d) = (2 + r.size(6), r.below(3));
        let sp = rand_spec(r, &OPS, n, d, 0);
        let (mut eg, _) = sp.build();
        let len = 1 + r.size(4);
        let mut show = String::new();
        let cl = ids(&eg);
        let pool: Vec<Vec<Option<i64>>> = (0..4).map(|_| (0..len).map(|_| match r.below(5) { 0 | 1 => None, k => Some(k as i64 % 3) }).collect()).collect();
        for id in &cl {
            let mut v = r.pick(&pool).clone();
            if r.chance(1, 3) {
                let k = r.below(len);
                v[k] = if r.chance(1, 2) { None } else { Some(r.below(3) as i64) };
            }
            show.push_str(&format!("{}:{:?} ", eg[*id].nodes[0].display_op_s(), v));
            eg[*id].data.cvec = v;
        }
        let compat = |a: &Vec<Option<i64>>, b: &Vec<Option<i64>>| {
            let mut some = false;
            for (x, y) in a.iter().zip(b) {
                if let (Some(x), Some(y)) = (x, y) {
                    if x != y {
                        return false;
                    }
                    some = true;
                }
            }
            some
        };
        let ex = Extractor::new(&eg, AstSize);
        let (mut exact, mut fast) = (vec![], vec![]);
        let mut total = 0;
        for i in 0..cl.len() {
            for j in 0..i {
                total += 1;
                let (a, b) = (&eg[cl[i]].data.cvec, &eg[cl[j]].data.cvec);
                let es = || (ex.find_best(cl[j]).1, ex.find_best(cl[i]).1);
                if compat(a, b) {
                    exact.push(es());
                }
                if a == b && a.iter().any(|v| v.is_some()) {
                    fast.push(es());
                }
            }
        }
        let nt = !exact.is_empty() && exact.len() < total;
        cx.case("cvec match", format!("terms {:?} samples {}", sp.terms, show), nt, || {
            check_pairs(&Ruleset::cvec_match(&eg), &exact, false).map_err(|e| format!("exact search: {}", e))?;
            check_pairs(&Ruleset::fast_cvec_match(&eg), &fast, false).map_err(|e| format!("fast search: {}", e))
        })?;
    }
    // many classes with equal samples
    for k in [10usize, 33, 65, 66, 80, 101] {
        if !cx.time_left() { break }
        let r = &mut cx.rng;
        let mut eg: Eg = Default::default();
        let mut id = eg.add_expr(&"x".parse().unwrap());
        for _ in 1..k {
            id = eg.add(Tl::Bad(id));
        }
        eg.rebuild();
        let cl = ids(&eg);
        let odd = r.below(4);
        for (i, id) in cl.iter().enumerate() {
            eg[*id].data.cvec = vec![Some(1), if i % 7 == 3 && odd > 0 { None } else { Some(2) }, Some(if i % 11 == 5 && odd > 1 { 3 } else { 0 })];
        }
        let ex = Extractor::new(&eg, AstSize);
        let (mut exact, mut fast) = (vec![], vec![]);
        for i in 0..cl.len() {
            for j in 0..i {
                let (a, b) = (&eg[cl[i]].data.cvec, &eg[cl[j]].data.cvec);
                let e = (ex.find_best(cl[j]).1, ex.find_best(cl[i]).1);
                if a[2] == b[2] {
                    exact.push(e.clone());
                }
                if a == b {
                    fast.push(e);
                }
            }
        }
        cx.case("cvec match", format!("{} classes, a tower of one operator, with samples 1 2 0; seventh ones undefined: {}, eleventh ones other: {}", k, odd > 0, odd > 1), true, || {
            check_pairs(&Ruleset::cvec_match(&eg), &exact, false).map_err(|e| format!("exact search: {}", e))?;
            check_pairs(&Ruleset::fast_cvec_match(&eg), &fast, false).map_err(|e| format!("fast search: {}", e))
        })?;
    }
    // a single class / empty samples: nothing to propose for empty e-graphs
    cx.case("empty e-graph", "no classes".into(), false, || {
        let eg: Eg = Default::default();
        if Rs::cvec_match(&eg).len() + Rs::fast_cvec_match(&eg).len() > 0 { Err("candidates from nothing".into()) } else { Ok(()) }
    })
}
trait Op {
    fn display_op_s(&self) -> String;
}
impl Op for Tl {
    fn display_op_s(&self) -> String {
        format!("{}{:?}", self, self.children())
    }
}

pub fn c19(cx: &mut Cx) -> R {
    cx.rule("random e-graphs with allowed and disallowed operators, second e-graph from random unions or from a run of random rules; expected pairs computed from the class partition and the best allowed terms; non-trivial: at least one pair was newly merged and at least one was not");
    for it in 0..cx.n(1800) {
        if !cx.time_left() { break }
        let r = &mut cx.rng;
        let (n, d, u) = (2 + r.size(6), 1 + r.below(3), r.size(3));
        let ops = [("+", 2), ("~", 1), ("bad", 1), ("bad2", 2), ("g", 1), ("*", 2)];
        let sp = rand_spec(r, &ops, n, d, u);
        let (eg, tids) = sp.build();
        let cl = ids(&eg);
        let how;
        let eg2 = if it % 3 == 0 {
            let k = 1 + r.below(4);
            let rt: Vec<&str> = (0..k).map(|_| *r.pick(&RULEPOOL)).collect();
            how = format!("run {:?}", rt);
            Scheduler::Simple(Limits { iter: 2, node: 500, match_: 200 }).run(&eg, &Ruleset::new(rt.iter()))
        } else {
            let mut e = eg.clone();
            let mut us = vec![];
            for _ in 0..1 + r.below(4) {
                let (a, b) = (r.below(cl.len()), r.below(cl.len()));
                us.push((cl[a], cl[b]));
                e.union(cl[a], cl[b]);
            }
            e.rebuild();
            how = format!("unions {:?}", us);
            e
        };
        let _ = tids;
        // best allowed terms, independently of the code's cost function
        struct C;
        impl CostFunction<Tl> for C {
            type Cost = usize;
            fn cost<F: FnMut(Id) -> usize>(&mut self, n: &Tl, mut f: F) -> usize {
                if matches!(n, Tl::Bad(_) | Tl::Bad2(_)) {
                    return usize::MAX;
                }
                let mut s = 1usize;
                for c in n.children() {
                    s = s.saturating_add(f(*c));
                }
                s
            }
        }
        let ex = Extractor::new(&eg, C);
        let mut want = vec![];
        let mut not = 0;
        for i in 0..cl.len() {
            for j in 0..i {
                let (a, b) = (ex.find_best(cl[j]), ex.find_best(cl[i]));
                if eg2.find(cl[i]) == eg2.find(cl[j]) {
                    if a.0 != usize::MAX && b.0 != usize::MAX {
                        want.push((a.1, b.1));
                    }
                } else {
                    not += 1;
                }
            }
        }
        cx.case("extract", format!("{} second: {}", sp.show(), how), !want.is_empty() && not > 0, || {
            let got = Ruleset::extract_candidates(&eg, &eg2);
            for r in got.0.values() {
                for p in [&r.lhs, &r.rhs] {
                    if ptree(p).contains("bad") {
                        return Err(format!("{} contains an operator that is not allowed", r.name));
                    }
                }
            }
            check_pairs(&got, &want, false)
        })?;
    }
    Ok(())
}

// ---------- C20 ----------
pub fn c20(cx: &mut Cx) -> R {
    cx.rule("random legal rules applied once to random e-graphs in which randomly chosen classes are undefined on all samples (by data and by an always-undefined operator); every search match checked: instance present and merged exactly when both classes are defined, nothing else merged; is_defined on random samples; is_valid against an exhaustive verdict; non-trivial: some match with both defined and some with an undefined class");
    for k in 0..cx.n(300) {
        let r = &mut cx.rng;
        let n = r.below(5);
        let v: Vec<Option<i64>> = (0..n).map(|_| if r.chance(2, 3) { None } else { Some(1) }).collect();
        let _ = k;
        cx.case("is_defined", format!("{:?}", v), !v.is_empty(), || {
            let want = v.is_empty() || v.iter().any(|x| x.is_some());
            let s = sig(v.clone(), "x", None, None);
            if s.is_defined() != want { Err(format!("is_defined = {}", !want)) } else { Ok(()) }
        })?;
    }
    let ops = [("+", 2), ("*", 2), ("~", 1), ("undef", 1), ("h", 3), ("g", 1)];
    for it in 0..cx.n(2500) {
        if !cx.time_left() { break }
        let r = &mut cx.rng;
        let (dl, dr) = (1 + r.below(2), r.below(3));
        let (l, rh) = (rand_expr(r, &ops, &["?a", "?b", "?c"], dl), rand_expr(r, &ops, &["?a", "?b", "?c"], dr));
        let (lp, rp) = (pat(&l), pat(&rh));
        if !legal(&lp, &rp) {
            continue;
        }
        let rule = match Rule::new(&lp, &rp) { Some(r) => r, None => continue };
        // terms: instances of the left side and random ones
        let m = 1 + r.below(3);
        let mut terms: Vec<String> = vec![];
        for _ in 0..m {
            let (x, y, z) = (rand_expr(r, &ops, &["x", "y", "w"], 1), rand_expr(r, &ops, &["x", "y"], 1), rand_expr(r, &ops, &["w"], 1));
            terms.push(l.replace("?a", &x).replace("?b", &y).replace("?c", &z));
        }
        terms.push(rand_expr(r, &ops, &["x", "y", "w"], 2));
        let undef_mode = r.below(3);
        // the common sample vector length: undefined classes have all entries None
        let build = || {
            let mut eg: Eg = Default::default();
            eg.analysis.cvec_len = 2;
            for (i, v) in ["x", "y", "w"].iter().enumerate() {
                let id = eg.add(Tl::Var(Symbol::from(*v)));
                eg[id].data.cvec = if undef_mode == 1 && i == it % 3 { vec![None, None] } else if undef_mode == 2 && i == it % 3 { vec![None, Some(0)] } else { vec![Some(0), Some(0)] };
            }
            for t in &terms {
                eg.add_expr(&expr(t));
            }
            eg.rebuild();
            eg
        };
        let eg0 = build();
        let matches = rule.rewrite.search(&eg0);
        let mut ms: Vec<(Id, BTreeMap<String, Id>)> = vec![];
        let vars = lp.vars();
        for m in &matches {
            for s in &m.substs {
                ms.push((m.eclass, vars.iter().map(|v| (v.to_string(), s[*v])).collect()));
            }
        }
        fn addp(eg: &mut Eg, p: &Pattern<Tl>, b: &BTreeMap<String, Id>) -> Id {
            let mut v: Vec<Id> = vec![];
            for n in p.ast.as_ref() {
                v.push(match n {
                    egg::ENodeOrVar::Var(x) => b[&x.to_string()],
                    egg::ENodeOrVar::ENode(n) => {
                        let n = n.clone().map_children(|i| v[usize::from(i)]);
                        eg.add(n)
                    }
                });
            }
            *v.last().unwrap()
        }
        let def = |eg: &Eg, id: Id| { let c = &eg[id].data.cvec; c.is_empty() || c.iter().any(|x| x.is_some()) };
        let (mut some_def, mut some_undef) = (false, false);
        let mut clash = false;
        for (id, b) in &ms {
            let mut e = eg0.clone();
            let i = addp(&mut e, &rp, b);
            if def(&e, *id) && def(&e, i) {
                some_def = true;
                // merging classes whose samples conflict panics by design; skip such inputs
                let (c1, c2) = (&e[*id].data.cvec, &e[i].data.cvec);
                if c1.iter().zip(c2).any(|p| matches!(p, (Some(x), Some(y)) if x != y)) {
                    clash = true;
                }
            } else {
                some_undef = true;
            }
        }
        if clash {
            continue;
        }
        let d = format!("rule {} on {:?} undefined {}", rule.name, terms, if undef_mode == 0 { "none".into() } else { format!("{} of {}", ["", "all", "first"][undef_mode], ["x", "y", "w"][it % 3]) });
        cx.case("apply", d, some_def && some_undef, || {
            // one application at a time: order of matches must not matter for soundness
            for k in 0..ms.len() {
                let mut got = eg0.clone();
                let one: Vec<_> = matches.iter().filter_map(|m| {
                    let mut m2 = egg::SearchMatches { eclass: m.eclass, substs: vec![], ast: m.ast.clone() };
                    for s in &m.substs {
                        let b: BTreeMap<String, Id> = vars.iter().map(|v| (v.to_string(), s[*v])).collect();
                        if (m.eclass, b) == ms[k] {
                            m2.substs.push(s.clone());
                        }
                    }
                    if m2.substs.is_empty() { None } else { Some(m2) }
                }).collect();
                let changed = rule.rewrite.apply(&mut got, &one);
                got.rebuild();
                let (id, b) = &ms[k];
                let mut want = eg0.clone();
                let i = addp(&mut want, &rp, b);
                let merge = def(&want, *id) && def(&want, i);
                let already = want.find(i) == want.find(*id);
                if merge {
                    want.union(i, *id);
                }
                want.rebuild();
                if merge && !already && changed.is_empty() {
                    return Err(format!("match {:?} at {} merged nothing", b, id));
                }
                if (!merge || already) && !changed.is_empty() {
                    return Err(format!("match {:?} at {} reports a change although {}", b, id, if already { "nothing was new" } else { "a class is undefined" }));
                }
                let orig = ids(&eg0);
                for x in 0..orig.len() {
                    for y in 0..x {
                        let (g, w) = (got.find(orig[x]) == got.find(orig[y]), want.find(orig[x]) == want.find(orig[y]));
                        if g != w {
                            return Err(format!("after applying at class {} with {:?}: classes {} and {} equal = {}, want {}", id, b, orig[x], orig[y], g, w));
                        }
                    }
                }
                if merge {
                    let mut probe = got.clone();
                    let n0 = probe.total_number_of_nodes();
                    let j = addp(&mut probe, &rp, b);
                    if probe.total_number_of_nodes() != n0 {
                        return Err(format!("the instance of {} under {:?} is not in the e-graph", rp, b));
                    }
                    if probe.find(j) != probe.find(*id) {
                        return Err(format!("the instance of {} under {:?} is not in the matched class {}", rp, b, id));
                    }
                }
            }
            // all matches at once
            let mut got = eg0.clone();
            rule.rewrite.apply(&mut got, &matches);
            got.rebuild();
            if rule.is_valid() != (verdict(&inst(&lp), &inst(&rp)) == 0) {
                return Err(format!("is_valid = {}", rule.is_valid()));
            }
            Ok(())
        })?;
    }
    Ok(())
}

// ---------- C22 ----------
fn mem(eg: &Eg, t: &str) -> bool {
    eg.lookup_expr(&expr(t)).is_some()
}
pub fn c22(cx: &mut Cx) -> R {
    cx.rule("random workloads of 0-8 terms (with duplicates, numbers and 0-4 variables) materialised in the test domain; presence of every subterm, absence of anything else, recorded variable list and its timing, and merges checked; non-trivial: at least two variables and two terms");
    for _ in 0..cx.n(2500) {
        if !cx.time_left() { break }
        let r = &mut cx.rng;
        let n = r.size(8);
        let nv = r.below(5);
        let all = ["y", "x", "w", "v1"];
        let mut lv: Vec<&str> = all[..nv].to_vec();
        if nv == 0 || r.chance(1, 2) {
            lv.extend(["0", "1", "3"].iter());
        }
        let mut ts: Vec<String> = (0..n).map(|_| { let d = r.below(4); rand_expr(r, &[("+", 2), ("*", 2), ("~", 1), ("h", 3), ("/", 2), ("undef", 1)], &lv, d) }).collect();
        if n > 1 && r.chance(1, 3) {
            ts.push(ts[0].clone());
        }
        let w = match r.below(3) {
            0 => Workload::new(ts.iter()),
            1 => Workload::new(ts.iter()).append(Workload::new(["x"])).filter(ruler::enumo::Filter::MetricLt(ruler::enumo::Metric::Depth, 9)),
            _ => Workload::Plug(Box::new(Workload::new(["HOLE", "(~ HOLE)"])), "HOLE".into(), Box::new(Workload::new(ts.iter()))),
        };
        let terms: Vec<String> = w.force().iter().map(|s| s.to_string()).collect();
        let mut vars: Vec<String> = vec![];
        for t in &terms {
            // order of first occurrence in the term's own node order
            for n in expr(t).as_ref() {
                if let Tl::Var(v) = n {
                    if !vars.contains(&v.to_string()) {
                        vars.push(v.to_string());
                    }
                }
            }
        }
        cx.case("materialise", format!("{:?}", terms), vars.len() >= 2 && terms.len() >= 2, || {
            INIT.with(|i| i.borrow_mut().clear());
            let eg = w.to_egraph::<Tl>();
            let init = INIT.with(|i| i.borrow().clone());
            if init.len() != 1 || init[0].0 != vars {
                return Err(format!("variables initialised as {:?}, want once {:?}", init, vars));
            }
            if init[0].1 != 0 {
                return Err("variables were initialised after other terms".into());
            }
            // reference: variables, then terms
            let mut rf: Eg = Default::default();
            Tl::initialize_vars(&mut rf, &vars);
            for t in &terms {
                rf.add_expr(&expr(t));
            }
            for t in &terms {
                if !mem(&eg, t) {
                    return Err(format!("{} is not in the e-graph", t));
                }
            }
            let (mut a, mut b) = (eg.clone(), rf.clone());
            a.rebuild();
            b.rebuild();
            if a.number_of_classes() != b.number_of_classes() || a.total_number_of_nodes() != b.total_number_of_nodes() {
                return Err(format!("{} classes / {} nodes, want {} / {}", a.number_of_classes(), a.total_number_of_nodes(), b.number_of_classes(), b.total_number_of_nodes()));
            }
            for s in &terms {
                for t in &terms {
                    let f = |e: &Eg| e.find(e.lookup_expr(&expr(s)).unwrap()) == e.find(e.lookup_expr(&expr(t)).unwrap());
                    if f(&a) != f(&b) {
                        return Err(format!("{} and {} merged = {}", s, t, f(&a)));
                    }
                }
                let d = |e: &Eg| e[e.lookup_expr(&expr(s)).unwrap()].data.cvec.clone();
                if d(&a) != d(&b) {
                    return Err(format!("samples of {} are {:?}, want {:?}", s, d(&a), d(&b)));
                }
            }
            Ok(())
        })?;
    }
    let _ = |s: &Sexp| s.clone();
    Ok(())
}

// ---------- C27 ----------
fn denotes(e: &RecExpr<Tl>) -> String {
    tree(e)
}
pub fn c27(cx: &mut Cx) -> R {
    crate::tl::INTERVALS.with(|i| *i.borrow_mut() = true);
    cx.rule("e-nodes over classes whose representative terms, samples and intervals are random; representative of the made data must be the node applied to the children's representatives, samples and intervals the domain's evaluation; modify on classes with random intervals must merge exactly the pinned constant; non-trivial: a node with children of size above one / a pinned interval");
    let terms = ["x", "(+ x y)", "(~ (~ w))", "(h x y w)", "(* (+ x y) (~ w))", "3", "(+ (+ x y) (+ x y))"];
    for _ in 0..cx.n(3000) {
        let r = &mut cx.rng;
        let k = 3;
        let mut eg: Eg = Default::default();
        eg.analysis.cvec_len = 3;
        let mut cid = vec![];
        let mut reps = vec![];
        for i in 0..k {
            let id = eg.add(Tl::Var(Symbol::from(format!("c{}", i))));
            let t = *r.pick(&terms);
            // sharing inside the representative
            let e = expr(t);
            eg[id].data.simplest = e.clone();
            eg[id].data.cvec = (0..3).map(|_| if r.chance(1, 3) { None } else { Some(r.below(5) as i64) }).collect();
            let lo = r.below(4) as i64;
            eg[id].data.interval = match r.below(3) { 0 => Interval { low: None, high: None }, 1 => Interval { low: Some(lo), high: Some(lo + 1) }, _ => Interval { low: Some(lo), high: Some(lo) } };
            cid.push(id);
            reps.push(tree(&e));
        }
        let (a, b, c) = (r.below(k), r.below(k), r.below(k));
        let node = match r.below(8) {
            0 => Tl::Add([cid[a], cid[b]]),
            1 => Tl::Mul([cid[a], cid[b]]),
            2 => Tl::Div([cid[a], cid[b]]),
            3 => Tl::Neg(cid[a]),
            4 => Tl::H([cid[a], cid[b], cid[c]]),
            5 => Tl::Num(2),
            6 => Tl::Bad2([cid[a], cid[b]]),
            _ => Tl::Var(Symbol::from("fresh")),
        };
        let d = format!("{:?} over representatives {:?}", node, reps);
        cx.case("make", d, node.children().len() >= 1, || {
            let s = SynthAnalysis::make(&eg, &node);
            let want = if node.children().is_empty() {
                node.to_string()
            } else {
                format!("({} {})", node, node.children().iter().map(|i| reps[cid.iter().position(|x| x == i).unwrap()].clone()).collect::<Vec<_>>().join(" "))
            };
            // a RecExpr: every child index points before its node, root last
            for (i, n) in s.simplest.as_ref().iter().enumerate() {
                if n.children().iter().any(|c| usize::from(*c) >= i) {
                    return Err("representative is not well-formed".into());
                }
            }
            if denotes(&s.simplest) != want {
                return Err(format!("representative {}, want {}", denotes(&s.simplest), want));
            }
            let ev = node.eval(3, |i| &eg[*i].data.cvec);
            if s.cvec != ev {
                return Err(format!("samples {:?}, want {:?}", s.cvec, ev));
            }
            let iv = node.mk_interval(|i| &eg[*i].data.interval);
            if s.interval != iv {
                return Err(format!("interval {:?}, want {:?}", s.interval, iv));
            }
            Ok(())
        })?;
    }
    for _ in 0..cx.n(1500) {
        let r = &mut cx.rng;
        let (l, h) = (r.below(4) as i64, r.below(4) as i64);
        let iv = match r.below(5) {
            0 => (None, None),
            1 => (Some(l), None),
            2 => (None, Some(h)),
            3 => (Some(l), Some(l)),
            _ => (Some(l.min(h)), Some(l.max(h))),
        };
        let pre: Vec<i64> = (0..r.below(3)).map(|_| r.below(4) as i64).collect();
        // samples that agree with the interval: none, undefined everywhere, or some of them known
        let cv: Vec<Option<i64>> = match (r.below(3), iv) {
            (0, _) => vec![],
            (2, (Some(a), Some(b))) if a == b => (0..3).map(|_| if r.chance(1, 2) { None } else { Some(a) }).collect(),
            _ => vec![None; 3],
        };
        cx.case("modify", format!("interval [{:?},{:?}] samples {:?} constants present {:?}", iv.0, iv.1, cv, pre), iv.0.is_some() && iv.0 == iv.1, || {
            let mut eg: Eg = Default::default();
            eg.analysis.cvec_len = cv.len();
            let x = eg.add_expr(&expr("(~ x)"));
            let y = eg.add_expr(&expr("y"));
            for p in &pre {
                eg.add(Tl::Num(*p));
            }
            eg.rebuild();
            let n0 = eg.total_number_of_nodes();
            eg[x].data.interval = Interval { low: iv.0, high: iv.1 };
            eg[x].data.cvec = cv.clone();
            SynthAnalysis::modify(&mut eg, x);
            eg.rebuild();
            match iv {
                (Some(a), Some(b)) if a == b => {
                    match eg.lookup(Tl::Num(a)) {
                        Some(k) if eg.find(k) == eg.find(x) => (),
                        _ => return Err(format!("class is not merged with constant {}", a)),
                    }
                    for c in 0..5i64 {
                        if c != a {
                            if let Some(k) = eg.lookup(Tl::Num(c)) {
                                if eg.find(k) == eg.find(x) {
                                    return Err(format!("class is merged with constant {}", c));
                                }
                            }
                        }
                    }
                    let added = if pre.contains(&a) { 0 } else { 1 };
                    if eg.total_number_of_nodes() != n0 + added {
                        return Err("unexpected e-nodes were added".into());
                    }
                }
                _ => {
                    if eg.total_number_of_nodes() != n0 || eg[x].nodes.len() != 1 {
                        return Err("a class that is not pinned was modified".into());
                    }
                }
            }
            if eg.find(y) == eg.find(x) {
                return Err("an unrelated class was merged".into());
            }
            Ok(())
        })?;
    }
    // end to end: data of classes after materialisation and saturation
    for _ in 0..cx.n(300) {
        if !cx.time_left() { break }
        let r = &mut cx.rng;
        let ts: Vec<String> = (0..1 + r.below(4)).map(|_| rand_expr(r, &[("+", 2), ("*", 2), ("~", 1)], &["x", "y", "0", "1"], 3)).collect();
        cx.case("class data", format!("{:?}", ts), true, || {
            let eg = Workload::new(ts.iter()).to_egraph::<Tl>();
            let rs: Rs = Ruleset::new(["(+ ?a ?b) ==> (+ ?b ?a)", "(+ ?a 0) ==> ?a", "(~ (~ ?a)) ==> ?a", "(* ?a 1) ==> ?a", "(* ?a 0) ==> 0"].iter());
            let out = Scheduler::Simple(Limits { iter: 3, node: 3000, match_: 3000 }).run(&eg, &rs);
            for c in out.classes() {
                let s = &c.data.simplest;
                match out.lookup_expr(s) {
                    Some(i) if out.find(i) == out.find(c.id) => (),
                    _ => return Err(format!("representative {} is not in its class", s)),
                }
            }
            Ok(())
        })?;
    }
    Ok(())
}
