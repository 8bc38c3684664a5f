//! rules, rulesets, selection, renaming, scores: C11 - C14, C21, C25
use crate::infra::*;
use crate::tl::*;
use egg::{ENodeOrVar, RecExpr};
use ruler::enumo::{Rule, Ruleset, Scheduler};
use ruler::*;
use std::collections::{BTreeMap, BTreeSet};

pub type Rs = Ruleset<Tl>;

fn tokenize(e: &str) -> Vec<String> {
    e.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|s| s.to_string()).collect()
}
/// pattern text with ?-variables from random structure
pub fn rand_pat_text(r: &mut Rng, ops: &[(&str, usize)], depth: usize, nv: usize) -> String {
    let all = ["?a", "?b", "?c", "?d"];
    let mut leaves: Vec<&str> = all[..nv].to_vec();
    leaves.extend(["0", "1", "2"].iter());
    rand_expr(r, ops, &leaves, depth)
}
pub fn pat(s: &str) -> Pattern<Tl> {
    s.parse().unwrap()
}
fn pvars(p: &Pattern<Tl>) -> BTreeSet<String> {
    p.ast.as_ref().iter().filter_map(|n| if let ENodeOrVar::Var(v) = n { Some(v.to_string()) } else { None }).collect()
}
/// a rule is legal iff its right side uses only variables of the left side
pub fn legal(l: &Pattern<Tl>, r: &Pattern<Tl>) -> bool {
    pvars(r).is_subset(&pvars(l))
}
pub fn names(r: &Rs) -> Vec<String> {
    r.0.keys().map(|k| k.to_string()).collect()
}
pub fn wellformed(r: &Rs) -> Result<(), String> {
    for (k, v) in r.0.iter() {
        check_rule(v, &v.lhs, &v.rhs)?;
        if k.as_ref() != v.name.as_ref() {
            return Err(format!("key {:?} holds rule {:?}", k, v.name));
        }
    }
    Ok(())
}
pub fn check_rule(r: &Rule<Tl>, l: &Pattern<Tl>, rh: &Pattern<Tl>) -> Result<(), String> {
    let want = format!("{} ==> {}", l, rh);
    if r.lhs.ast != l.ast || r.rhs.ast != rh.ast {
        return Err(format!("rule is {} ==> {}, want {}", r.lhs, r.rhs, want));
    }
    if r.name.as_ref() != want || r.to_string() != want {
        return Err(format!("rule {} has name {:?} and prints as {:?}", want, r.name, r.to_string()));
    }
    if r.rewrite.name.as_str() != want {
        return Err(format!("rewrite of {} is named {:?}", want, r.rewrite.name));
    }
    let sp = r.rewrite.searcher.get_pattern_ast().ok_or("no searcher pattern")?;
    if *sp != l.ast {
        return Err(format!("rewrite of {} searches {}", want, sp));
    }
    // what it applies: run it once on its own left side
    let mut eg: Eg = Default::default();
    let li = eg.add_expr(&inst(l));
    eg.rebuild();
    let ri = inst(rh);
    let m = r.rewrite.search(&eg);
    let n = r.rewrite.apply(&mut eg, &m).len();
    eg.rebuild();
    match eg.lookup_expr(&ri) {
        Some(x) if eg.find(x) == eg.find(li) => {
            let _ = n;
            Ok(())
        }
        _ => Err(format!("applying {} to its own left side does not produce its right side", want)),
    }
}

// ---------- C13 ----------
pub fn c13(cx: &mut Cx) -> R {
    cx.rule("random sequences of 1-8 ruleset operations over a pool of 14 rules (with reverses, unidirectional rules, same-name replacements), tracked by an independent name-to-rule list model; every observer compared after each step; non-trivial: the set is non-empty and the operation overlaps it");
    let pool = [
        "(+ ?a ?b) ==> (+ ?b ?a)", "(* ?a ?b) ==> (* ?b ?a)", "(~ (~ ?a)) ==> ?a", "?a ==> (~ (~ ?a))", "(+ ?a 0) ==> ?a",
        "?a ==> (+ ?a 0)", "(* ?a 0) ==> 0", "(/ ?a 1) ==> ?a", "(+ ?a ?a) ==> (* 2 ?a)", "(* 2 ?a) ==> (+ ?a ?a)",
        "(g ?a) ==> ?a", "(h ?a ?b ?c) ==> (h ?a ?c ?b)", "(h ?a ?b ?b) ==> ?b", "(+ (+ ?a ?b) ?c) ==> (+ ?a (+ ?b ?c))",
        "(* (+ ?a ?b) (+ ?a ?b)) ==> (* (+ ?b ?a) (+ ?a ?b))", "(+ 1 2) ==> 3",
        "?a ==> ?a", "(+ ?a ?b) ==> (+ ?a ?b)",
    ];
    let mut pool: Vec<String> = pool.iter().map(|s| s.to_string()).collect();
    for k in 10..34 {
        pool.push(format!("(+ ?{} {}) ==> (+ {} ?{})", if k % 2 == 0 { "x" } else { "Long-name" }, k, k, if k % 2 == 0 { "x" } else { "Long-name" }));
    }
    let rules: Vec<Rule<Tl>> = pool.iter().map(|s| Rule::from_string(s).unwrap().0).collect();
    let rev: Vec<Option<usize>> = (0..rules.len())
        .map(|i| {
            let n = format!("{} ==> {}", rules[i].rhs, rules[i].lhs);
            (0..rules.len()).find(|&j| rules[j].name.as_ref() == n)
        })
        .collect();
    fn marked(r: &Rule<Tl>, tag: usize) -> Rule<Tl> {
        // same name, distinguishable contents
        let mut x = r.clone();
        x.rhs = format!("(h {} {} {})", tag, tag, tag).parse().unwrap();
        x
    }
    let tag_of = |r: &Rule<Tl>| -> String { r.rhs.to_string() };
    for _ in 0..cx.n(2500) {
        let steps = 1 + cx.rng.size(8);
        let mut prog = vec![];
        for _ in 0..steps {
            let k = cx.rng.below(8);
            let ix: Vec<(usize, usize)> = (0..cx.rng.size(5)).map(|_| ({ let m = if cx.rng.chance(1, 3) { rules.len() } else { 18 }; cx.rng.below(m) }, if cx.rng.chance(1, 5) { 1 + cx.rng.below(3) } else { 0 })).collect();
            prog.push((k, ix));
        }
        let d = format!("{:?}", prog.iter().map(|(k, ix)| format!("{}{:?}", ["add", "union", "extend", "add_all", "remove_all", "partition", "union_rev", "new"][*k], ix)).collect::<Vec<_>>());
        let nt = prog.len() > 1;
        cx.case("sequence", d, nt, || {
            let mk = |i: usize, t: usize| if t == 0 { rules[i].clone() } else { marked(&rules[i], t) };
            let mut rs: Rs = Default::default();
            // model: ordered list of (name, contents)
            let mut m: Vec<(String, String)> = vec![];
            let put = |m: &mut Vec<(String, String)>, n: String, c: String| match m.iter_mut().find(|x| x.0 == n) {
                Some(x) => x.1 = c,
                None => m.push((n, c)),
            };
            for (k, ix) in &prog {
                let mut other: Rs = Default::default();
                let mut om = vec![];
                for (i, t) in ix {
                    let r = mk(*i, *t);
                    other.0.insert(r.name.clone(), r.clone());
                    put(&mut om, r.name.to_string(), tag_of(&r));
                }
                let mut ordered = true;
                match k {
                    0 => {
                        for (i, t) in ix {
                            let r = mk(*i, *t);
                            put(&mut m, r.name.to_string(), tag_of(&r));
                            rs.add(r);
                        }
                    }
                    1 => {
                        let old = rs.clone();
                        let u = rs.union(&other);
                        if names(&rs) != names(&old) {
                            return Err("union modified its receiver".into());
                        }
                        for (n, c) in &om {
                            put(&mut m, n.clone(), c.clone());
                        }
                        rs = u;
                    }
                    2 => {
                        rs.extend(other.clone());
                        for (n, c) in &om {
                            put(&mut m, n.clone(), c.clone());
                        }
                    }
                    3 => {
                        let v: Vec<Rule<Tl>> = ix.iter().map(|(i, t)| mk(*i, *t)).collect();
                        rs.add_all(v.iter().collect());
                        for r in &v {
                            put(&mut m, r.name.to_string(), tag_of(r));
                        }
                    }
                    4 => {
                        rs.remove_all(other.clone());
                        m.retain(|x| !om.iter().any(|y| y.0 == x.0));
                        ordered = false; // removal may reorder the rest
                    }
                    5 => {
                        let keep: BTreeSet<String> = om.iter().map(|x| x.0.clone()).collect();
                        let (y, n) = rs.partition(|r| keep.contains(r.name.as_ref()));
                        let want_y: Vec<_> = m.iter().filter(|x| keep.contains(&x.0)).cloned().collect();
                        let want_n: Vec<_> = m.iter().filter(|x| !keep.contains(&x.0)).cloned().collect();
                        let lst = |r: &Rs| r.0.iter().map(|(k, v)| (k.to_string(), tag_of(v))).collect::<Vec<_>>();
                        if lst(&y) != want_y || lst(&n) != want_n {
                            return Err(format!("partition by {:?} gives {:?} / {:?}", keep, names(&y), names(&n)));
                        }
                        if y.len() + n.len() != rs.len() {
                            return Err("partition lost or duplicated a rule".into());
                        }
                        rs = y;
                        m = want_y;
                    }
                    6 => {
                        let u = other.union(&rs);
                        for (n, c) in &m {
                            put(&mut om, n.clone(), c.clone());
                        }
                        rs = u;
                        m = om.clone();
                    }
                    _ => {
                        rs = Ruleset::new(ix.iter().map(|(i, _)| pool[*i].as_str()));
                        m = vec![];
                        for (i, _) in ix {
                            put(&mut m, rules[*i].name.to_string(), tag_of(&rules[*i]));
                        }
                    }
                }
                // observers
                let mut got: Vec<(String, String)> = rs.0.iter().map(|(k, v)| (k.to_string(), tag_of(v))).collect();
                let mut want = m.clone();
                if ordered {
                    if got != want {
                        return Err(format!("contents {:?}, want {:?}", got, want));
                    }
                } else {
                    let order = got.clone();
                    got.sort();
                    want.sort();
                    if got != want {
                        return Err(format!("contents {:?}, want {:?}", got, want));
                    }
                    m = order;
                }
                if rs.len() != m.len() || rs.is_empty() != m.is_empty() {
                    return Err(format!("len {} is_empty {} of {} rules", rs.len(), rs.is_empty(), m.len()));
                }
                if rs.to_str_vec() != m.iter().map(|x| x.0.clone()).collect::<Vec<_>>() {
                    return Err(format!("to_str_vec {:?}", rs.to_str_vec()));
                }
                for r in &rules {
                    let want = m.iter().any(|x| x.0 == r.name.as_ref());
                    if rs.contains(r) != want {
                        return Err(format!("contains({}) = {}", r.name, !want));
                    }
                }
                if rs.iter().map(|r| r.name.to_string()).collect::<Vec<_>>() != names(&rs) {
                    return Err("iter does not list the rules in order".into());
                }
                if (&rs).into_iter().count() != m.len() || rs.clone().into_iter().count() != m.len() {
                    return Err("into_iter does not list all rules".into());
                }
                // equality is by names in order
                let mut same: Rs = Default::default();
                for (k, v) in rs.0.iter() {
                    same.0.insert(k.clone(), marked(v, 9));
                }
                if same != rs {
                    return Err("rulesets with the same names in order differ".into());
                }
                if !m.is_empty() {
                    let mut less = same.clone();
                    less.0.pop();
                    if less == rs || rs == less {
                        return Err("a strict prefix equals the whole ruleset".into());
                    }
                    let mut diff = less.clone();
                    let mut x = rules[0].clone();
                    x.name = "zzz".into();
                    diff.0.insert(x.name.clone(), x);
                    if diff == rs {
                        return Err("rulesets with different names are equal".into());
                    }
                }
                if m.len() > 1 {
                    let mut rv: Rs = Default::default();
                    for (k, v) in rs.0.iter().rev() {
                        rv.0.insert(k.clone(), v.clone());
                    }
                    if rv == rs {
                        return Err("rulesets in different orders are equal".into());
                    }
                }
                // bidirectional length: only meaningful for unmarked contents
                let plain = m.iter().all(|x| rules.iter().any(|r| r.name.as_ref() == x.0 && tag_of(r) == x.1));
                if plain {
                    let has = |i: usize| m.iter().any(|x| x.0 == rules[i].name.as_ref());
                    let mut bi = 0;
                    let mut uni = 0;
                    for i in 0..rules.len() {
                        if has(i) {
                            match rev[i] {
                                Some(j) if has(j) => bi += 1,
                                _ => uni += 1,
                            }
                        }
                    }
                    if rs.bidir_len() != uni + bi / 2 {
                        return Err(format!("bidir_len {} for {} one-way and {} two-way rules", rs.bidir_len(), uni, bi));
                    }
                }
            }
            Ok(())
        })?;
    }
    Ok(())
}

// ---------- C14 ----------
pub fn c14(cx: &mut Cx) -> R {
    cx.rule("random legal rule texts over the test language and SymbolLang-like operator names (including <, >, =, <=), three separators, with and without spaces; parsed sides, name, printed form, search pattern and effect of application checked; text without separators; rulesets built from mixed texts; non-trivial: both sides contain an operator");
    for _ in 0..cx.n(2500) {
        let r = &mut cx.rng;
        let (dl, dr) = (r.below(4), r.below(3));
        let l = rand_pat_text(r, &OPS, dl, 3);
        let rr = rand_pat_text(r, &OPS, dr, 3);
        let (lp, rp) = (pat(&l), pat(&rr));
        let sep = *r.pick(&["==>", "=>", "<=>"]);
        if !legal(&lp, &rp) || (sep == "<=>" && !legal(&rp, &lp)) {
            continue;
        }
        let (sa, sb) = (*r.pick(&["", " ", "  "]), *r.pick(&["", " ", "  "]));
        let text = format!("{}{}{}{}{}", l, sa, sep, sb, rr);
        let nt = l.starts_with('(') && rr.starts_with('(');
        cx.case("parse", text.clone(), nt, || {
            let (f, b) = Rule::<Tl>::from_string(&text).map_err(|e| format!("not parsed: {}", e))?;
            check_rule(&f, &lp, &rp)?;
            match (sep == "<=>", b) {
                (true, Some(b)) => check_rule(&b, &rp, &lp)?,
                (false, None) => (),
                (true, None) => return Err("no reverse rule for <=>".into()),
                (false, Some(b)) => return Err(format!("unexpected reverse rule {}", b.name)),
            }
            // Rule::new
            let n = Rule::new(&lp, &rp).ok_or("Rule::new refuses a legal rule")?;
            check_rule(&n, &lp, &rp)?;
            if legal(&rp, &lp) {
                check_rule(&Rule::new(&rp, &lp).ok_or("Rule::new refuses a legal reverse")?, &rp, &lp)?;
            } else if Rule::new(&rp, &lp).is_some() {
                return Err("Rule::new accepts a right side with unbound variables".into());
            }
            Ok(())
        })?;
    }
    // comparison-like operator names next to the separator
    type S = egg::SymbolLang;
    for l in ["(< ?a ?b)", "(<= ?a ?b)", "(>= ?a ?b)", "(= ?a ?b)", "?a", "(== ?a ?b)", "(f ?a <)", "(f ?a =)", "(< < <)"] {
        for rr in ["(> ?b ?a)", "?a", "(< ?a ?a)", "(<= ?b ?b)", "(= 1 ?a)", "(f <)", "x"] {
            for sep in [" ==> ", " => ", "==>", "=>", " <=> "] {
                let (lp, rp): (Pattern<S>, Pattern<S>) = (l.parse().unwrap(), rr.parse().unwrap());
                let sub = |x: &Pattern<S>, y: &Pattern<S>| y.vars().iter().all(|v| x.vars().contains(v));
                if !sub(&lp, &rp) || (sep.contains('<') && !sub(&rp, &lp)) {
                    continue;
                }
                let t = format!("{}{}{}", l, sep, rr);
                cx.case("operators", t.clone(), true, || {
                    let (f, b) = Rule::<S>::from_string(&t).map_err(|e| e)?;
                    if f.lhs.ast != lp.ast || f.rhs.ast != rp.ast || f.name.as_ref() != format!("{} ==> {}", lp, rp) {
                        return Err(format!("parsed as {}", f.name));
                    }
                    match b {
                        None if sep == " <=> " => Err("no reverse rule for <=>".into()),
                        Some(_) if sep != " <=> " => Err("unexpected reverse rule".into()),
                        Some(b) if b.lhs.ast != rp.ast || b.rhs.ast != lp.ast || b.name.as_ref() != format!("{} ==> {}", rp, lp) => Err(format!("reverse parsed as {}", b.name)),
                        _ => Ok(()),
                    }
                })?;
            }
        }
    }
    for t in ["", "?a", "(+ ?a ?b)", "?a = ?b", "?a -> ?b", "?a > ?b", "?a <= ?b", "?a == ?b", "# comment"] {
        cx.case("no separator", format!("{:?}", t), false, || {
            if Rule::<Tl>::from_string(t).is_ok() { Err("accepted".into()) } else { Ok(()) }
        })?;
    }
    let good = ["(+ ?a ?b) ==> (+ ?b ?a)", "(* ?a ?b) <=> (* ?b ?a)", "(+ ?a 0) <=> ?a", "(~ (~ ?a)) => ?a", "(* ?a 0)==>0"];
    let bad = ["", "nothing here", "?a = ?b"];
    for _ in 0..cx.n(300) {
        let k = cx.rng.size(8);
        let ts: Vec<&str> = (0..k).map(|_| if cx.rng.chance(1, 4) { *cx.rng.pick(&bad) } else { *cx.rng.pick(&good) }).collect();
        cx.case("ruleset from texts", format!("{:?}", ts), !ts.is_empty(), || {
            let mut want: Vec<String> = vec![];
            for t in &ts {
                let mut put = |s: &str| if !want.contains(&s.to_string()) { want.push(s.to_string()) };
                match *t {
                    "(+ ?a ?b) ==> (+ ?b ?a)" => put(t),
                    "(* ?a ?b) <=> (* ?b ?a)" => { put("(* ?a ?b) ==> (* ?b ?a)"); put("(* ?b ?a) ==> (* ?a ?b)") }
                    "(+ ?a 0) <=> ?a" => { put("(+ ?a 0) ==> ?a"); put("?a ==> (+ ?a 0)") }
                    "(~ (~ ?a)) => ?a" => put("(~ (~ ?a)) ==> ?a"),
                    "(* ?a 0)==>0" => put("(* ?a 0) ==> 0"),
                    _ => (),
                }
            }
            let rs: Rs = Ruleset::new(ts.iter());
            wellformed(&rs)?;
            if names(&rs) != want { Err(format!("rules {:?}, want {:?}", names(&rs), want)) } else { Ok(()) }
        })?;
    }
    Ok(())
}

// ---------- C21 ----------
fn first_vars(e: &RecExpr<Tl>, out: &mut Vec<String>) {
    // depth-first, left to right from the root
    fn go(e: &RecExpr<Tl>, i: usize, out: &mut Vec<String>) {
        use egg::Language;
        let n = &e.as_ref()[i];
        if let Tl::Var(v) = n {
            if !out.contains(&v.to_string()) {
                out.push(v.to_string());
            }
        }
        for c in n.children() {
            go(e, usize::from(*c), out);
        }
    }
    go(e, e.as_ref().len() - 1, out)
}
pub fn tree(e: &RecExpr<Tl>) -> String {
    use egg::Language;
    fn go(e: &RecExpr<Tl>, i: usize) -> String {
        let n = &e.as_ref()[i];
        if n.children().is_empty() {
            n.to_string()
        } else {
            let mut s = format!("({}", n);
            for c in n.children() {
                s.push(' ');
                s.push_str(&go(e, usize::from(*c)));
            }
            s + ")"
        }
    }
    go(e, e.as_ref().len() - 1)
}
pub fn ptree(p: &Pattern<Tl>) -> String {
    use egg::Language;
    fn go(e: &[ENodeOrVar<Tl>], i: usize) -> String {
        match &e[i] {
            ENodeOrVar::Var(v) => v.to_string(),
            ENodeOrVar::ENode(n) => {
                if n.children().is_empty() {
                    n.to_string()
                } else {
                    let mut s = format!("({}", n);
                    for c in n.children() {
                        s.push(' ');
                        s.push_str(&go(e, usize::from(*c)));
                    }
                    s + ")"
                }
            }
        }
    }
    go(p.ast.as_ref(), p.ast.as_ref().len() - 1)
}
fn subst_text(t: &str, f: &dyn Fn(&str) -> Option<String>) -> String {
    let mut out = String::new();
    for tok in tokenize(t) {
        let tk = f(&tok).unwrap_or_else(|| tok.clone());
        if !out.is_empty() && !out.ends_with('(') && tk != ")" {
            out.push(' ');
        }
        out.push_str(&tk);
    }
    out
}
fn share(r: &mut Rng, e: &RecExpr<Tl>) -> RecExpr<Tl> {
    // with random hash-consing: later equal nodes point to earlier ones
    use egg::Language;
    let mut nodes: Vec<Tl> = vec![];
    let mut map = vec![];
    for n in e.as_ref() {
        let m = n.clone().map_children(|i| egg::Id::from(map[usize::from(i)]));
        match nodes.iter().position(|x| *x == m) {
            Some(p) if r.chance(2, 3) => map.push(p),
            _ => {
                map.push(nodes.len());
                nodes.push(m);
            }
        }
    }
    // root must be last: if it was shared away, push a copy
    let root = *map.last().unwrap();
    if root != nodes.len() - 1 {
        let n = nodes[root].clone();
        nodes.push(n);
    }
    RecExpr::from(nodes)
}
pub fn c21(cx: &mut Cx) -> R {
    cx.rule("pairs of random terms (up to depth 5, up to 26 distinct variables, shared and unshared node lists) generalised under one shared renaming and instantiated back; letters compared with first-appearance order; arbitrary patterns instantiated; non-trivial: at least two variables");
    let names_pool = ["x", "y", "z", "a", "b", "c", "v1", "v2", "alpha", "q", "w", "?a", "d", "e"];
    for it in 0..cx.n(4000) {
        let r = &mut cx.rng;
        let mut leaves: Vec<String> = vec![];
        if it % 40 == 0 {
            let nv = if it % 80 == 0 { 26 } else { 27 + r.below(40) };
            for i in 0..nv {
                leaves.push(format!("n{}", nv - 1 - i));
            }
        } else {
            let k = 1 + r.below(5);
            for _ in 0..k {
                let n = r.pick(&names_pool[..]).to_string();
                if n != "?a" { leaves.push(n) }
            }
        }
        leaves.push("0".into());
        leaves.push("3".into());
        let lv: Vec<&str> = leaves.iter().map(|s| s.as_str()).collect();
        let d = 1 + r.below(5);
        let (mut t1, t2) = (rand_expr(r, &OPS, &lv, d), rand_expr(r, &OPS, &lv, d));
        if lv.len() > 25 && r.chance(2, 3) {
            let mut vs = lv.clone();
            r.shuffle(&mut vs);
            t1 = vs.into_iter().fold(t1, |t, v| if r.chance(1, 2) { format!("(+ {} {})", t, v) } else { format!("(* {} {})", v, t) });
        }
        let (e1, e2): (RecExpr<Tl>, RecExpr<Tl>) = (t1.parse().unwrap(), t2.parse().unwrap());
        let (e1, e2) = (share(r, &e1), share(r, &e2));
        let mut order = vec![];
        first_vars(&e1, &mut order);
        first_vars(&e2, &mut order);
        if order.len() > 26 {
            // more variables than letters: no answer, or still one pattern variable each
            cx.case("many variables", format!("{} variables", order.len()), true, || {
                let r = guarded(|| {
                    let mut map: ruler::HashMap<egg::Symbol, egg::Var> = Default::default();
                    Tl::generalize(&e1, &mut map);
                    Tl::generalize(&e2, &mut map);
                    map
                });
                if let Ok(map) = r {
                    let vs: std::collections::BTreeSet<String> = map.values().map(|v: &egg::Var| v.to_string()).collect();
                    if vs.len() != order.len() {
                        return Err(format!("{} variables share {} pattern variables", order.len(), vs.len()));
                    }
                }
                Ok(())
            })?;
            continue;
        }
        let d = format!("{} and {}", tree(&e1), tree(&e2));
        cx.case("generalise", d, order.len() >= 2, || {
            let mut map: ruler::HashMap<egg::Symbol, egg::Var> = Default::default();
            let p1 = Tl::generalize(&e1, &mut map);
            let p2 = Tl::generalize(&e2, &mut map);
            // consecutive letters, in whatever order the variables are met
            let mut seen = std::collections::BTreeSet::new();
            for (i, e) in [&e1, &e2].iter().enumerate() {
                let mut o = vec![];
                first_vars(e, &mut o);
                let done = seen.len();
                for v in o {
                    match map.get(&egg::Symbol::from(v.as_str())) {
                        None => return Err(format!("variable {} has no entry in the renaming", v)),
                        Some(x) => {
                            seen.insert(x.to_string());
                        }
                    }
                }
                let want: std::collections::BTreeSet<String> = (0..seen.len()).map(|i| format!("?{}", (b'a' + i as u8) as char)).collect();
                if seen != want {
                    return Err(format!("after term {} the pattern variables are {:?} (were {})", i, seen, done));
                }
            }
            let letter = |s: &str| map.get(&egg::Symbol::from(s)).map(|v| v.to_string()[1..].to_string());
            for (p, e) in [(&p1, &e1), (&p2, &e2)] {
                // structure and consistency: an injective renaming of the variables
                let want = subst_text(&tree(e), &|t| letter(t).map(|l| format!("?{}", l)));
                if ptree(p) != want {
                    return Err(format!("{} generalises to {}, want {}", tree(e), ptree(p), want));
                }
                let back = Tl::instantiate(p);
                let want = subst_text(&tree(e), &|t| letter(t));
                if tree(&back) != want {
                    return Err(format!("{} instantiates to {}, want {}", ptree(p), tree(&back), want));
                }
            }
            if map.len() != order.len() {
                return Err(format!("{} variables recorded, {} occur", map.len(), order.len()));
            }
            let vs: std::collections::BTreeSet<String> = map.values().map(|v: &egg::Var| v.to_string()).collect();
            if vs.len() != order.len() {
                return Err("two variables share a pattern variable".into());
            }
            Ok(())
        })?;
    }
    for _ in 0..cx.n(1500) {
        let r = &mut cx.rng;
        let d = r.below(5);
        let t = rand_expr(r, &OPS, &["?a", "?b", "?zz", "?v1", "0", "4", "x"], d);
        cx.case("instantiate", t.clone(), t.contains('?'), || {
            let p = pat(&t);
            let e = Tl::instantiate(&p);
            let want = t.replace('?', "");
            if tree(&e) != want { Err(format!("instantiates to {}, want {}", tree(&e), want)) } else { Ok(()) }
        })?;
    }
    // letters
    for i in 0..26usize {
        cx.case("letter", format!("{}", i), true, || {
            let want = ((b'a' + i as u8) as char).to_string();
            if letter(i) != want { Err(format!("letter {} is {:?}", i, letter(i))) } else { Ok(()) }
        })?;
    }
    Ok(())
}

// ---------- C25 ----------
pub fn score_ref(l: &Pattern<Tl>, r: &Pattern<Tl>) -> (usize, i64, i64, i64, i64) {
    use egg::Language;
    fn size(e: &[ENodeOrVar<Tl>], i: usize) -> i64 {
        1 + e[i].children().iter().map(|c| size(e, usize::from(*c))).sum::<i64>()
    }
    let sz = |p: &Pattern<Tl>| size(p.ast.as_ref(), p.ast.as_ref().len() - 1);
    let mut vs = pvars(l);
    vs.extend(pvars(r));
    let mut consts = 0;
    let mut ops = BTreeSet::new();
    for n in l.ast.as_ref().iter().chain(r.ast.as_ref()) {
        if let ENodeOrVar::ENode(n) = n {
            if matches!(n, Tl::Num(_)) {
                consts += 1;
            }
            if !n.is_leaf() {
                ops.insert(n.to_string());
            }
        }
    }
    (vs.len(), -consts, -sz(l).max(sz(r)), -(sz(l) + sz(r)), -(ops.len() as i64))
}
/// the criteria for a language without constants
fn score_sym(l: &Pattern<egg::SymbolLang>, r: &Pattern<egg::SymbolLang>) -> (usize, i64, i64, i64, i64) {
    use egg::Language;
    fn size(e: &[ENodeOrVar<egg::SymbolLang>], i: usize) -> i64 {
        1 + e[i].children().iter().map(|c| size(e, usize::from(*c))).sum::<i64>()
    }
    let sz = |p: &Pattern<egg::SymbolLang>| size(p.ast.as_ref(), p.ast.as_ref().len() - 1);
    let (mut vs, mut ops) = (BTreeSet::new(), BTreeSet::new());
    for n in l.ast.as_ref().iter().chain(r.ast.as_ref()) {
        match n {
            ENodeOrVar::Var(v) => { vs.insert(v.to_string()); }
            ENodeOrVar::ENode(n) if !n.children.is_empty() => { ops.insert(n.op.as_str().to_string()); }
            _ => {}
        }
    }
    (vs.len(), 0, -sz(l).max(sz(r)), -(sz(l) + sz(r)), -(ops.len() as i64))
}
pub fn c25(cx: &mut Cx) -> R {
    cx.rule("random pairs of rules; the order of their scores compared with the documented lexicographic criteria computed independently; score of a rule and of its reverse compared; non-trivial: the criteria differ");
    let mut pool: Vec<(String, String)> = vec![];
    for _ in 0..cx.n(250) {
        let r = &mut cx.rng;
        let nv = 1 + r.below(4);
        let (d1, d2) = (r.below(4), r.below(4));
        pool.push((rand_pat_text(r, &OPS, d1, nv), rand_pat_text(r, &OPS, d2, nv)));
    }
    // small systematic families that differ in exactly one criterion
    for (a, b) in [
        ("(+ ?a ?b)", "(+ ?b ?a)"), ("(+ ?a ?a)", "(+ ?a ?a)"), ("(+ ?a 0)", "?a"), ("(+ 0 0)", "?a"), ("(~ ?a)", "?a"),
        ("(~ (~ ?a))", "?a"), ("(~ ?a)", "(~ ?a)"), ("(~ (~ ?a))", "(~ ?a)"), ("(~ (g ?a))", "(~ ?a)"), ("(g (~ ?a))", "(bad ?a)"),
        ("(+ ?a (+ ?b ?c))", "(+ (+ ?a ?b) ?c)"), ("(+ ?a (* ?b ?c))", "(+ (* ?a ?b) ?c)"), ("(* 2 ?a)", "(+ ?a ?a)"), ("0", "1"), ("?a", "?b"), ("?a", "?a"),
        ("(h ?a ?b ?c)", "(+ ?a (+ ?b ?c))"), ("(* 1 ?a)", "(* 1 ?a)"), ("(~ (~ (~ ?a)))", "(~ ?a)"), ("(~ (~ ?a))", "(~ (~ ?a))"), ("(+ ?a ?b)", "?a"), ("?a", "(+ ?a ?b)"),
    ] {
        pool.push((a.into(), b.into()));
    }
    // operators with similar names
    for _ in 0..cx.n(400) {
        let r = &mut cx.rng;
        let base = (*r.pick(&["f", "Op", "add", "x2", "F"])).to_string();
        let mut names = vec![base.clone()];
        for _ in 0..3 { let s = r.similar(&base); if s.chars().all(|c| c.is_alphanumeric()) { names.push(s) } }
        let ops: Vec<(&str, usize)> = names.iter().map(|n| (n.as_str(), 1 + n.len() % 2)).collect();
        let (d1, d2, d3) = (1 + r.below(3), 1 + r.below(3), 1 + r.below(3));
        let ts: Vec<String> = vec![rand_pat_text(r, &ops, d1, 2), rand_pat_text(r, &ops, d2, 2), rand_pat_text(r, &ops, d3, 2)];
        cx.case("names", format!("{:?}", ts), names.len() > 1, || {
            let ps: Vec<Pattern<egg::SymbolLang>> = ts.iter().map(|t| t.parse().unwrap()).collect();
            let pairs = [(0, 1), (1, 2), (0, 2), (1, 0), (0, 0)];
            for (a, b) in pairs {
                for (c, d) in pairs {
                    let (x, y) = (egg::SymbolLang::score(&ps[a], &ps[b]), egg::SymbolLang::score(&ps[c], &ps[d]));
                    let (u, v) = (score_sym(&ps[a], &ps[b]), score_sym(&ps[c], &ps[d]));
                    if x.cmp(&y) != u.cmp(&v) {
                        return Err(format!("scores of ({}, {}) and ({}, {}) compare {:?}, criteria {:?} and {:?}", ts[a], ts[b], ts[c], ts[d], x.cmp(&y), u, v));
                    }
                }
            }
            Ok(())
        })?;
    }
    let n = pool.len();
    for i in 0..n {
        for k in 0..30 {
            let j = if k < 12 { n - 1 - k } else { cx.rng.below(n) };
            let ((l1, r1), (l2, r2)) = (&pool[i], &pool[j]);
            let (p1, q1, p2, q2) = (pat(l1), pat(r1), pat(l2), pat(r2));
            let (s1, s2) = (score_ref(&p1, &q1), score_ref(&p2, &q2));
            let d = format!("({}, {}) vs ({}, {})", l1, r1, l2, r2);
            cx.case("order", d, s1 != s2, || {
                let (a, b) = (Tl::score(&p1, &q1), Tl::score(&p2, &q2));
                if a.cmp(&b) != s1.cmp(&s2) {
                    return Err(format!("scores compare {:?}, criteria (variables, -constants, -larger side, -total size, -operators) {:?} vs {:?} compare {:?}", a.cmp(&b), s1, s2, s1.cmp(&s2)));
                }
                if Tl::score(&p1, &q1) != Tl::score(&q1, &p1) {
                    return Err("the reverse rule has another score".into());
                }
                if let (Some(x), Some(y)) = (Rule::new(&p1, &q1), Rule::new(&p2, &q2)) {
                    if x.score().cmp(&y.score()) != s1.cmp(&s2) {
                        return Err("Rule::score orders differently".into());
                    }
                }
                Ok(())
            })?;
        }
    }
    Ok(())
}

// ---------- C11 / C12 ----------
fn candidate_sets(cx: &mut Cx) -> Vec<(Vec<String>, Vec<String>)> {
    // (candidates, prior) as texts
    let lib = [
        "(+ ?a ?b) ==> (+ ?b ?a)", "(* ?a ?b) ==> (* ?b ?a)", "(~ (~ ?a)) ==> ?a", "?a ==> (~ (~ ?a))", "(+ ?a 0) ==> ?a", "?a ==> (+ ?a 0)",
        "(+ ?a ?b) ==> (* ?a ?b)", "(* ?a ?b) ==> (+ ?a ?b)", "(g ?a) ==> ?a", "?a ==> (g ?a)", "(g (g ?a)) ==> (g ?a)",
        "(* ?a 0) ==> 0", "(* ?a 1) ==> ?a", "?a ==> (* ?a 1)", "(/ ?a ?a) ==> 1", "(/ 0 ?a) ==> 0", "(/ ?a 1) ==> ?a", "(~ ?a) ==> ?a", "?a ==> (~ ?a)",
        "(+ ?a (~ ?a)) ==> 0", "(~ 0) ==> 0", "0 ==> (~ 0)", "(+ 0 ?a) ==> ?a", "(+ 0 0) ==> 0", "(~ (+ ?a ?b)) ==> (+ (~ ?a) (~ ?b))", "(+ (~ ?a) (~ ?b)) ==> (~ (+ ?a ?b))",
        "(* ?a ?a) ==> ?a", "(~ (~ (~ ?a))) ==> (~ ?a)", "(~ ?a) ==> (~ (~ (~ ?a)))", "(+ ?a ?b) ==> ?a", "(h ?a ?b ?b) ==> ?b", "(h 0 ?a ?b) ==> ?b", "(h 1 ?a ?b) ==> ?a",
        "(/ 1 (/ 1 ?a)) ==> ?a", "?a ==> (/ 1 (/ 1 ?a))", "(/ (* ?a ?b) ?b) ==> (+ ?a (* ?b 0))", "(+ ?a (* ?b 0)) ==> (/ (* ?a ?b) ?b)", "(* ?a (/ 0 ?a)) ==> (* ?a 0)", "(* ?a 0) ==> (/ 0 ?a)", "(/ ?a ?a) ==> (+ 1 (* 0 ?a))",
        "(+ (+ 0 ?a) ?b) ==> (+ ?b ?a)", "(~ (~ (+ ?a ?b))) ==> (+ ?b ?a)", "(+ 1 1) ==> 2", "(+ 1 1) ==> 3", "(* 2 3) ==> 1",
    ];
    let mut out = vec![];
    for i in 0..cx.n(260) {
        let r = &mut cx.rng;
        let k = if i % 10 == 0 { lib.len() } else { 1 + r.size(9) };
        let mut c: Vec<String> = vec![];
        if k == lib.len() {
            c = lib.iter().map(|s| s.to_string()).collect();
            r.shuffle(&mut c);
        } else {
            for _ in 0..k {
                let s = r.pick(&lib).to_string();
                if r.chance(1, 2) {
                    let (a, b) = s.split_once(" ==> ").unwrap();
                    if legal(&pat(b), &pat(a)) {
                        c.push(format!("{} ==> {}", b, a));
                    }
                }
                c.push(s);
            }
        }
        let kp = r.size(4);
        let p: Vec<String> = (0..kp).map(|_| r.pick(&lib[..6]).to_string()).collect();
        out.push((c, p));
    }
    // many candidates between the same two classes once a few rules are known
    for i in 0..cx.n(60) {
        let r = &mut cx.rng;
        let keys = ["(+ ?a 0) ==> ?a", "(~ (~ ?a)) ==> ?a", "(* ?a 1) ==> ?a"];
        let wrap = ["(+ ?a 0)", "(~ (~ ?a))", "(* ?a 1)"];
        let cores = [("(/ ?a 2)", "(/ 2 ?a)"), ("(* ?a 2)", "(+ ?a ?a)"), ("(+ ?a 1)", "(+ ?a 2)"), ("(~ ?a)", "(* ?a 3)"), ("(/ ?a ?a)", "1"), ("(+ ?a ?b)", "(+ ?b ?a)"), ("(h ?a 1 2)", "(h ?a 2 1)")];
        let w = r.below(3);
        let (a, b) = *r.pick(&cores);
        let mut c = vec![keys[w].to_string()];
        for _ in 0..3 + r.below(4) {
            let mut put = |s: &str| {
                let s = if r.chance(1, 2) { s.replace("?a", wrap[w]) } else { s.to_string() };
                if r.chance(1, 3) { wrap[w].replace("?a", &s) } else { s }
            };
            let (x, y) = (put(a), put(b));
            for (x, y) in [(&x, &y), (&y, &x)] {
                if legal(&pat(x), &pat(y)) && r.chance(3, 4) && x != y {
                    c.push(format!("{} ==> {}", x, y));
                }
            }
        }
        r.shuffle(&mut c);
        let p = if i % 3 == 0 { vec![keys[w].to_string()] } else { vec![] };
        out.push((c, p));
    }
    // random candidates
    for _ in 0..cx.n(120) {
        let r = &mut cx.rng;
        let k = 1 + r.below(6);
        let mut c = vec![];
        for _ in 0..k {
            let (d1, d2) = (1 + r.below(2), r.below(3));
            let (a, b) = (rand_pat_text(r, &ARITH, d1, 2), rand_pat_text(r, &ARITH, d2, 2));
            for (x, y) in [(&a, &b), (&b, &a)] {
                if legal(&pat(x), &pat(y)) && r.chance(3, 4) && x != y {
                    c.push(format!("{} ==> {}", x, y));
                }
            }
        }
        out.push((c, vec![]));
    }
    out
}
fn is_valid_ref(r: &Rule<Tl>) -> bool {
    verdict(&inst(&r.lhs), &inst(&r.rhs)) == 0
}
const LIM: Limits = Limits { iter: 2, node: 3000, match_: 1000 };

pub fn c11(cx: &mut Cx) -> R {
    cx.rule("candidate sets of 1-38 rules drawn from a library mixing valid, invalid and inconclusive rules and their reverses, plus random candidate sets, with random prior rulesets, three schedulers; soundness of chosen and invalid checked against an exhaustive validator; is_valid compared on every rule; non-trivial: at least one valid and one not-valid candidate");
    for (i, (c, p)) in candidate_sets(cx).into_iter().enumerate() {
        if !cx.time_left() { break }
        let d = format!("candidates {:?} prior {:?} scheduler {}", c, p, i % 3);
        let sched = match i % 5 { 3 => Scheduler::Simple(LIM), 4 => Scheduler::Saturating(LIM), _ => Scheduler::Compress(LIM) };
        let cand: Rs = Ruleset::new(c.iter());
        let prior: Rs = Ruleset::new(p.iter());
        let nv = cand.0.values().filter(|r| is_valid_ref(r)).count();
        let directed = i % 3 == 1;
        let d = if directed { format!("{} (rules judged as refinements)", d) } else { d };
        DIRECTED.with(|f| *f.borrow_mut() = directed);
        cx.case("minimize", d, nv > 0 && nv < cand.len(), || {
            for r in cand.0.values() {
                if r.is_valid() != is_valid_ref(r) {
                    return Err(format!("is_valid({}) = {}", r.name, r.is_valid()));
                }
            }
            let mut work = cand.clone();
            let (chosen, invalid) = work.minimize(prior.clone(), sched);
            wellformed(&chosen)?;
            for r in chosen.0.values() {
                if !cand.contains(r) {
                    return Err(format!("chosen rule {} was not a candidate", r.name));
                }
                if !is_valid_ref(r) {
                    return Err(format!("chosen rule {} is not judged valid", r.name));
                }
                if prior.contains(r) {
                    return Err(format!("chosen rule {} is a prior rule", r.name));
                }
            }
            for r in invalid.0.values() {
                if !cand.contains(r) {
                    return Err(format!("rule {} reported invalid was not a candidate", r.name));
                }
                if is_valid_ref(r) {
                    return Err(format!("rule {} reported invalid is valid", r.name));
                }
            }
            Ok(())
        })?;
        DIRECTED.with(|f| *f.borrow_mut() = false);
    }
    Ok(())
}

/// remaining candidates after redundancy removal, through the public scheduler
fn remaining(cands: &[Rule<Tl>], chosen: &Rs, sched: Scheduler) -> Vec<Rule<Tl>> {
    let mut eg: Eg = Default::default();
    let ids: Vec<_> = cands.iter().map(|r| (eg.add_expr(&inst(&r.lhs)), eg.add_expr(&inst(&r.rhs)))).collect();
    let out = sched.run(&eg, chosen);
    cands.iter().zip(ids).filter(|(_, (l, r))| out.find(*l) != out.find(*r)).map(|(c, _)| c.clone()).collect()
}
/// does some tie-breaking of the documented procedure give exactly this outcome?
fn explains(cands: Vec<Rule<Tl>>, chosen: &Rs, invalid: &BTreeSet<String>, goal: &(BTreeSet<String>, BTreeSet<String>), prior: &Rs, sched: Scheduler, fuel: &mut usize) -> bool {
    if cands.is_empty() {
        let got: BTreeSet<String> = chosen.0.keys().map(|k| k.to_string()).filter(|k| !prior.0.contains_key(k.as_str())).collect();
        return got == goal.0 && *invalid == goal.1;
    }
    let best = cands.iter().map(|r| score_ref(&r.lhs, &r.rhs)).max().unwrap();
    let ties: Vec<usize> = (0..cands.len()).filter(|i| score_ref(&cands[*i].lhs, &cands[*i].rhs) == best).collect();
    // the actual code pops the last of the stable order; try that first
    for &i in ties.iter().rev() {
        if *fuel == 0 {
            return true; // undecided counts as explained
        }
        *fuel -= 1;
        let mut rest = cands.clone();
        let r = rest.remove(i);
        let mut ch = chosen.clone();
        let mut inv = invalid.clone();
        if is_valid_ref(&r) {
            ch.add(r.clone());
        } else {
            inv.insert(r.name.to_string());
        }
        let rn = format!("{} ==> {}", r.rhs, r.lhs);
        if let Some(x) = rest.iter().find(|x| x.name.as_ref() == rn) {
            if is_valid_ref(x) {
                ch.add(x.clone());
            } else {
                inv.insert(rn);
            }
        }
        let okc = ch.0.keys().all(|k| prior.0.contains_key(k) || goal.0.contains(k.as_ref()));
        if okc && inv.is_subset(&goal.1) {
            let rem = remaining(&rest, &ch, sched);
            // nothing selected: redundancy need not be looked at before the next pick
            if ch == *chosen && rem.len() != rest.len() && explains(rest, &ch, &inv, goal, prior, sched, fuel) {
                return true;
            }
            if explains(rem, &ch, &inv, goal, prior, sched, fuel) {
                return true;
            }
        }
    }
    false
}
pub fn c12(cx: &mut Cx) -> R {
    cx.rule("the candidate sets of C11; the outcome must be one that the documented procedure can produce (best score first under any tie-breaking, reverse taken along, redundant candidates removed exactly when merged), found by a backtracking search; non-trivial: at least two candidates, at least one chosen");
    for (i, (c, p)) in candidate_sets(cx).into_iter().enumerate() {
        if !cx.time_left() { break }
        let cand: Rs = Ruleset::new(c.iter());
        let prior: Rs = Ruleset::new(p.iter());
        let sched = if i % 4 == 3 { Scheduler::Simple(LIM) } else { Scheduler::Compress(LIM) };
        let d = format!("candidates {:?} prior {:?} {:?}", c, p, sched);
        let directed = i % 3 == 1;
        let d = if directed { format!("{} (rules judged as refinements)", d) } else { d };
        DIRECTED.with(|f| *f.borrow_mut() = directed);
        cx.case("minimize", d, cand.len() > 1, || {
            let mut work = cand.clone();
            let (chosen, invalid) = work.minimize(prior.clone(), sched);
            if !work.is_empty() {
                return Err(format!("{} candidates left over", work.len()));
            }
            let goal: (BTreeSet<String>, BTreeSet<String>) = (names(&chosen).into_iter().collect(), names(&invalid).into_iter().collect());
            let mut fuel = 600;
            let all: Vec<Rule<Tl>> = cand.0.values().cloned().collect();
            // each candidate is chosen, invalid, prior, or merged by prior plus chosen
            let finalset = prior.union(&chosen);
            let lost: Vec<&Rule<Tl>> = all.iter().filter(|r| !goal.0.contains(r.name.as_ref()) && !goal.1.contains(r.name.as_ref()) && !prior.contains(r)).collect();
            let big = Limits { iter: 6, node: 20000, match_: 100000 };
            for r in &lost {
                if !finalset.can_derive(DeriveType::LhsAndRhs, r, big) {
                    // may still be merged only in the presence of the other candidates; the search below decides
                    let rem = remaining(&all, &finalset, Scheduler::Simple(big));
                    if rem.iter().any(|x| x.name == r.name) {
                        return Err(format!("candidate {} is neither chosen nor invalid nor derivable from prior and chosen rules", r.name));
                    }
                }
            }
            if !explains(all, &prior, &BTreeSet::new(), &goal, &prior, sched, &mut fuel) {
                return Err(format!("no tie-breaking of best-first selection yields chosen {:?}, invalid {:?}", goal.0, goal.1));
            }
            Ok(())
        })?;
        DIRECTED.with(|f| *f.borrow_mut() = false);
    }
    let _: BTreeMap<u8, u8> = BTreeMap::new();
    Ok(())
}
