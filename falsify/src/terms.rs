//! s-expressions, patterns, filters, workloads: C04 - C10
use crate::infra::*;
use ruler::enumo::{Filter, Metric, Pattern, Sexp, Workload};
use std::collections::BTreeMap;

pub fn atom(s: &str) -> Sexp {
    Sexp::Atom(s.to_string())
}
pub fn show(s: &Sexp) -> String {
    match s {
        Sexp::Atom(a) => {
            if a.is_empty() || a.contains(' ') { format!("{:?}", a) } else { a.clone() }
        }
        Sexp::List(l) => format!("({})", l.iter().map(show).collect::<Vec<_>>().join(" ")),
    }
}
pub fn shows(v: &[Sexp]) -> String {
    format!("[{}]", v.iter().map(show).collect::<Vec<_>>().join(", "))
}
fn show_p(p: &Pattern) -> String {
    match p {
        Pattern::Wild => "*".into(),
        Pattern::Var(v) => format!("var:{}", v),
        Pattern::Lit(l) => format!("lit:{}", l),
        Pattern::List(l) => format!("({})", l.iter().map(show_p).collect::<Vec<_>>().join(" ")),
    }
}
fn show_f(f: &Filter) -> String {
    match f {
        Filter::MetricLt(m, n) => format!("{:?}<{}", m, n),
        Filter::MetricEq(m, n) => format!("{:?}={}", m, n),
        Filter::Contains(p) => format!("contains[{}]", show_p(p)),
        Filter::Excludes(p) => format!("excludes[{}]", show_p(p)),
        Filter::Canon(s) => format!("canon{:?}", s),
        Filter::And(fs) => format!("and[{}]", fs.iter().map(show_f).collect::<Vec<_>>().join(", ")),
        Filter::Or(fs) => format!("or[{}]", fs.iter().map(show_f).collect::<Vec<_>>().join(", ")),
        Filter::Invert(f) => format!("not[{}]", show_f(f)),
    }
}
fn show_w(w: &Workload) -> String {
    match w {
        Workload::Set(v) => format!("set{}", shows(v)),
        Workload::Plug(a, n, b) => format!("plug({}, {:?}, {})", show_w(a), n, show_w(b)),
        Workload::Filter(f, w) => format!("filter({}, {})", show_f(f), show_w(w)),
        Workload::Append(ws) => format!("append[{}]", ws.iter().map(show_w).collect::<Vec<_>>().join(", ")),
    }
}

/// all terms with at most `size` nodes over the atoms (lists of any arity, including `()`)
pub fn all_terms(atoms: &[&str], size: usize) -> Vec<Sexp> {
    // by exact size: an atom has size 1, a list 1 + sum
    let mut by: Vec<Vec<Sexp>> = vec![vec![]; size + 1];
    // lists[n] = all sequences of terms with total size n
    let mut seqs: Vec<Vec<Vec<Sexp>>> = vec![vec![]; size + 1];
    if size > 0 {
        seqs[0] = vec![vec![]];
    }
    for n in 1..=size {
        if n == 1 {
            by[1].extend(atoms.iter().map(|a| atom(a)));
        }
        for s in seqs[n - 1].clone() {
            by[n].push(Sexp::List(s));
        }
        // sequences of total size n: first term of size k, rest n-k
        let mut v = vec![];
        for k in 1..=n {
            for t in by[k].iter() {
                for rest in seqs[n - k].iter() {
                    let mut x = vec![t.clone()];
                    x.extend(rest.iter().cloned());
                    v.push(x);
                }
            }
        }
        seqs[n] = v;
    }
    by.into_iter().flatten().collect()
}

pub fn rand_term(r: &mut Rng, atoms: &[&str], depth: usize, width: usize) -> Sexp {
    if depth == 0 || r.chance(1, 3) {
        return atom(&r.atom(atoms));
    }
    let n = match r.below(10) {
        0 => 0,
        1 => 1,
        2 => 1 + r.size(width.max(1)),
        k => 1 + k % width.max(1),
    };
    Sexp::List((0..n).map(|_| rand_term(r, atoms, depth - 1, width)).collect())
}

fn atoms_of(t: &Sexp) -> usize {
    match t {
        Sexp::Atom(_) => 1,
        Sexp::List(l) => {
            let mut n = 0;
            for x in l {
                n += atoms_of(x);
            }
            n
        }
    }
}
fn lists_of(t: &Sexp) -> usize {
    match t {
        Sexp::Atom(_) => 0,
        Sexp::List(l) => {
            let mut n = 1;
            for x in l {
                n += lists_of(x);
            }
            n
        }
    }
}
fn depth_of(t: &Sexp) -> usize {
    match t {
        Sexp::Atom(_) => 1,
        Sexp::List(l) => {
            let mut n = 0;
            for x in l {
                let d = depth_of(x);
                if d > n {
                    n = d;
                }
            }
            n + 1
        }
    }
}
pub fn meas(t: &Sexp, m: Metric) -> usize {
    match m {
        Metric::Atoms => atoms_of(t),
        Metric::Lists => lists_of(t),
        Metric::Depth => depth_of(t),
    }
}
pub const METS: [Metric; 3] = [Metric::Atoms, Metric::Lists, Metric::Depth];

pub fn c04(cx: &mut Cx) -> R {
    cx.rule("every term of at most 5 nodes over 1 atom and every term of at most 4 nodes over 2 atoms, plus random deep/wide terms; for each metric the accepted bounds of the metric filters are compared with an independent count; non-trivial: the term has a list");
    let mut terms = all_terms(&["a"], 7);
    terms.extend(all_terms(&["a", "b"], 5));
    for _ in 0..cx.n(3000) {
        let (d, w) = (1 + cx.rng.below(7), 1 + cx.rng.below(6));
        terms.push(rand_term(&mut cx.rng, &["a", "b", "+", "VAR", "?x", "", "*", "aa"], d, w));
    }
    // chains and wide lists
    for n in [1usize, 2, 10, 63, 64, 65, 200, 257, 600] {
        let mut t = atom("a");
        let mut u = Sexp::List(vec![]);
        for _ in 0..n {
            t = Sexp::List(vec![t, atom("b")]);
            u = Sexp::List(vec![u]);
        }
        terms.push(t);
        terms.push(u);
        terms.push(Sexp::List(vec![atom("a"); n]));
        terms.push(Sexp::List(vec![Sexp::List(vec![]); n]));
    }
    for t in &terms {
        for m in METS {
            let want = meas(t, m);
            let d = format!("{:?} of {}", m, show(t));
            cx.case("metric", d, matches!(t, Sexp::List(_)), || {
                let keep = |f: Filter| {
                    let w = Workload::Filter(f, Box::new(Workload::Set(vec![t.clone()]))).force();
                    if w.len() > 1 || (w.len() == 1 && w[0] != *t) {
                        return Err(format!("filtering changed the term: {}", shows(&w)));
                    }
                    Ok(w.len() == 1)
                };
                let mut bounds = vec![0, want, want + 1, want + 2];
                if want > 0 {
                    bounds.push(want - 1)
                }
                for b in bounds {
                    if keep(Filter::MetricEq(m, b))? != (b == want) {
                        return Err(format!("measure is {}, but 'equal to {}' says {}", want, b, b != want));
                    }
                    if keep(Filter::MetricLt(m, b))? != (want < b) {
                        return Err(format!("measure is {}, but 'less than {}' says {}", want, b, want >= b));
                    }
                }
                Ok(())
            })?;
        }
    }
    Ok(())
}

/// reference: leftmost occurrence varies slowest
pub fn plug_ref(t: &Sexp, name: &str, pegs: &[Sexp]) -> Vec<Sexp> {
    match t {
        Sexp::Atom(a) if a == name => pegs.to_vec(),
        Sexp::Atom(_) => vec![t.clone()],
        Sexp::List(l) => {
            let mut acc: Vec<Vec<Sexp>> = vec![vec![]];
            for x in l {
                let xs = plug_ref(x, name, pegs);
                let mut nx = vec![];
                for a in &acc {
                    for y in &xs {
                        let mut b = a.clone();
                        b.push(y.clone());
                        nx.push(b);
                    }
                }
                acc = nx;
            }
            acc.into_iter().map(Sexp::List).collect()
        }
    }
}
fn count_holes(t: &Sexp, name: &str) -> usize {
    match t {
        Sexp::Atom(a) => (a == name) as usize,
        Sexp::List(l) => l.iter().map(|x| count_holes(x, name)).sum(),
    }
}
fn eqv(kind: &str, got: &[Sexp], want: &[Sexp]) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {}, want {}", kind, clipv(got), clipv(want)))
    }
}
fn clipv(v: &[Sexp]) -> String {
    if v.len() > 40 { format!("{} terms, first {}", v.len(), shows(&v[..40])) } else { shows(v) }
}

pub fn c05(cx: &mut Cx) -> R {
    cx.rule("all single terms of at most 5 nodes over {x, a} and random workloads of 0-4 terms, with 0-4 pegs (pegs may contain the hole, duplicates and empty lists), hole names that look like operators, wildcards or variables; compared with an independent substitution; non-trivial: some hole occurs");
    let pegsets: Vec<Vec<Sexp>> = vec![
        vec![],
        vec![atom("1")],
        vec![atom("1"), atom("2")],
        vec![atom("x"), Sexp::List(vec![atom("x"), atom("1")]), atom("a")],
        vec![atom("1"), atom("1"), Sexp::List(vec![])],
    ];
    let mut jobs: Vec<(Vec<Sexp>, String, Vec<Sexp>)> = vec![];
    for t in all_terms(&["x", "a"], 5) {
        for p in &pegsets {
            if p.len().pow(count_holes(&t, "x") as u32) <= 4000 {
                jobs.push((vec![t.clone()], "x".into(), p.clone()));
            }
        }
    }
    let names = ["x", "a", "*", "?x", "+", "EXPR", "(a b)", "X", "", "xx"];
    for _ in 0..cx.n(3000) {
        let r = &mut cx.rng;
        let atoms = ["x", "a", "*", "?x", "+", "EXPR", "b", "xx"];
        let name = r.atom(&names);
        let name = name.as_str();
        let ts: Vec<Sexp> = (0..r.size(5)).map(|_| { let d = r.below(4); rand_term(r, &atoms, d, 4) }).collect();
        let k = r.size(5);
        let ps: Vec<Sexp> = (0..k).map(|_| { let d = r.below(3); rand_term(r, &["1", "2", "x", "a"], d, 3) }).collect();
        if plug_cost(&ts, name, &ps) < 60000.0 {
            jobs.push((ts, name.into(), ps));
        }
    }
    for (ts, name, ps) in &jobs {
        let nt = ts.iter().any(|t| count_holes(t, name) > 0);
        let d = format!("terms {} hole {:?} pegs {}", shows(ts), name, shows(ps));
        cx.case("plug", d, nt, || {
            let w = Workload::Plug(Box::new(Workload::Set(ts.clone())), name.clone(), Box::new(Workload::Set(ps.clone())));
            let want: Vec<Sexp> = ts.iter().flat_map(|t| plug_ref(t, name, ps)).collect();
            eqv("plug", &w.force(), &want)?;
            // through the builder (the empty peg set takes another path there)
            eqv("builder plug", &Workload::Set(ts.clone()).plug(name.clone(), &Workload::Set(ps.clone())).force(), &want)
        })?;
    }
    Ok(())
}

// ---------- patterns ----------
/// positions where variables sit, by structural alignment; None: shapes disagree
fn align<'a>(p: &'a Pattern, t: &'a Sexp, out: &mut Vec<(&'a str, &'a Sexp)>) -> bool {
    match (p, t) {
        (Pattern::Wild, _) => true,
        (Pattern::Var(v), _) => {
            out.push((v, t));
            true
        }
        (Pattern::Lit(a), Sexp::Atom(b)) => a == b,
        (Pattern::Lit(_), Sexp::List(_)) => false,
        (Pattern::List(_), Sexp::Atom(_)) => false,
        (Pattern::List(ps), Sexp::List(ts)) => {
            ps.len() == ts.len() && (0..ps.len()).all(|i| align(&ps[i], &ts[i], out))
        }
    }
}
pub fn match_ref(p: &Pattern, t: &Sexp) -> bool {
    let mut b = vec![];
    if !align(p, t, &mut b) {
        return false;
    }
    for i in 0..b.len() {
        for j in 0..i {
            if b[i].0 == b[j].0 && b[i].1 != b[j].1 {
                return false;
            }
        }
    }
    true
}
fn contains_ref(p: &Pattern, t: &Sexp) -> bool {
    match_ref(p, t)
        || match t {
            Sexp::Atom(_) => false,
            Sexp::List(l) => l.iter().any(|x| contains_ref(p, x)),
        }
}
fn rand_pat(r: &mut Rng, depth: usize) -> Pattern {
    if depth == 0 || r.chance(2, 5) {
        return match r.below(6) {
            0 => Pattern::Wild,
            1 | 2 | 3 => Pattern::Var((*r.pick(&["?x", "?y", "?z", "?"])).into()),
            _ => Pattern::Lit((*r.pick(&["a", "b", "?x", "*", "", "1", "10", "-1", "0"])).into()),
        };
    }
    let n = r.below(4);
    Pattern::List((0..n).map(|_| rand_pat(r, depth - 1)).collect())
}
/// the term with one of its atoms, perhaps, replaced by a similar one
fn near_copy(r: &mut Rng, t: &Sexp) -> Sexp {
    match t {
        Sexp::Atom(a) => atom(&r.similar(a)),
        Sexp::List(l) if l.is_empty() => t.clone(),
        Sexp::List(l) => {
            let k = r.below(l.len());
            Sexp::List(l.iter().enumerate().map(|(i, x)| if i == k { near_copy(r, x) } else { x.clone() }).collect())
        }
    }
}
/// a term that structurally resembles the pattern: instantiate, with occasional deviations
fn near_term(r: &mut Rng, p: &Pattern, env: &mut BTreeMap<String, Sexp>, dev: usize) -> Sexp {
    let at = ["a", "b", "?x", "*"];
    if r.chance(dev, 40) {
        return rand_term(r, &at, 1, 3);
    }
    match p {
        Pattern::Wild => rand_term(r, &at, 1, 3),
        Pattern::Lit(l) => if r.chance(1, 12) { atom(&r.similar(l)) } else { atom(l) },
        Pattern::Var(v) => {
            if let Some(t) = env.get(v) {
                let t = t.clone();
                if r.chance(1, 12) { near_copy(r, &t) } else { t }
            } else {
                let t = rand_term(r, &at, 1, 3);
                env.insert(v.clone(), t.clone());
                t
            }
        }
        Pattern::List(ps) => {
            let mut v: Vec<Sexp> = ps.iter().map(|p| near_term(r, p, env, dev)).collect();
            if r.chance(dev, 60) {
                v.push(atom("a"));
            } else if r.chance(dev, 60) {
                v.pop();
            }
            Sexp::List(v)
        }
    }
}
fn all_pats(size: usize) -> Vec<Pattern> {
    // reuse the term enumerator, then read atoms as pattern leaves
    fn conv(t: &Sexp) -> Pattern {
        match t {
            Sexp::Atom(a) if a == "*" => Pattern::Wild,
            Sexp::Atom(a) if a.starts_with('?') => Pattern::Var(a.clone()),
            Sexp::Atom(a) => Pattern::Lit(a.clone()),
            Sexp::List(l) => Pattern::List(l.iter().map(conv).collect()),
        }
    }
    all_terms(&["*", "?x", "?y", "a"], size).iter().map(conv).collect()
}
fn test_real(f: &Filter, t: &Sexp) -> bool {
    Workload::Filter(f.clone(), Box::new(Workload::Set(vec![t.clone()]))).force().len() == 1
}

pub fn c07(cx: &mut Cx) -> R {
    cx.rule("whether the pattern matches the whole term (observed through contains on every term none of whose proper subterms match, and through filters built on unmatched wrappers) against an alignment oracle: all patterns up to 4 nodes times all terms up to 4 nodes, plus random pattern/near-instance pairs; non-trivial: the pattern has a list and the oracle's alignment succeeds or fails only on consistency");
    // observing a match at the root: contains(p, t) = exists subterm; wrap both in a unique list
    // so that only the root can match the wrapped pattern.
    let wrap_p = |p: &Pattern| Pattern::List(vec![Pattern::Lit("ROOT".into()), p.clone()]);
    let wrap_t = |t: &Sexp| Sexp::List(vec![atom("ROOT"), t.clone()]);
    let pats = all_pats(4);
    let terms = all_terms(&["a", "b"], 4);
    let mut jobs: Vec<(Pattern, Sexp)> = vec![];
    for p in &pats {
        for t in &terms {
            jobs.push((p.clone(), t.clone()));
        }
    }
    for _ in 0..cx.n(20000) {
        let d = 1 + cx.rng.below(4);
        let p = rand_pat(&mut cx.rng, d);
        let dev = cx.rng.below(4);
        let t = near_term(&mut cx.rng, &p, &mut BTreeMap::new(), dev);
        jobs.push((p, t));
    }
    // wide and deep repeats of one variable
    for n in [2usize, 5, 16, 17, 40] {
        for bad in 0..n.min(6) {
            let p = Pattern::List((0..n).map(|i| Pattern::Var(if i % 2 == 0 { "?x" } else { "?y" }.into())).collect());
            let ts: Vec<Sexp> = (0..n).map(|i| if i % 2 == 0 { atom("a") } else { Sexp::List(vec![atom("b")]) }).collect();
            jobs.push((p.clone(), Sexp::List(ts.clone())));
            let mut t2 = ts;
            t2[n - 1 - bad] = atom("c");
            jobs.push((p, Sexp::List(t2)));
        }
    }
    for (p, t) in &jobs {
        let mut b = vec![];
        let nt = matches!(p, Pattern::List(_)) && align(p, t, &mut b);
        let d = format!("pattern {} term {}", show_p(p), show(t));
        cx.case("match", d, nt, || {
            let want = match_ref(p, t);
            let got = test_real(&Filter::Contains(wrap_p(p)), &wrap_t(t));
            if got != want {
                return Err(format!("matches = {}, but a consistent instantiation {}", got, if want { "exists" } else { "does not exist" }));
            }
            // unwrapped, when no proper subterm matches
            let sub = match t {
                Sexp::List(l) => l.iter().any(|x| contains_ref(p, x)),
                _ => false,
            };
            if !sub && test_real(&Filter::Contains(p.clone()), t) != want {
                return Err(format!("matches = {} on the bare term", !want));
            }
            Ok(())
        })?;
    }
    // parsing of patterns: every leaf keeps its meaning
    let lit = |s: &str| Pattern::Lit(s.into());
    let mut pats = pats;
    for l in ["**", "*a", "a*", "*?", "a?", "*1", "1*", "x**", "***", "+*", "*x*"] {
        pats.push(Pattern::List(vec![lit(l), Pattern::Wild, Pattern::Var("?x".into())]));
        pats.push(Pattern::List(vec![lit("f"), lit(l), Pattern::Var("?x*".into()), Pattern::List(vec![lit(l), Pattern::Var("?*".into())])]));
    }
    for p in pats.iter().filter(|p| matches!(p, Pattern::List(_))) {
        fn src(p: &Pattern) -> String {
            match p {
                Pattern::Wild => "*".into(),
                Pattern::Var(v) => v.clone(),
                Pattern::Lit(l) => l.clone(),
                Pattern::List(l) => format!("({})", l.iter().map(src).collect::<Vec<_>>().join(" ")),
            }
        }
        let s = src(p);
        cx.case("parse", s.clone(), true, || {
            let q: Pattern = s.parse().map_err(|_| "parse error".to_string())?;
            if &q != p { Err(format!("parsed as {}", show_p(&q))) } else { Ok(()) }
        })?;
    }
    Ok(())
}

// ---------- canon ----------
fn first_occ(t: &Sexp, syms: &[String], out: &mut Vec<String>) {
    match t {
        Sexp::Atom(a) => {
            if syms.contains(a) && !out.contains(a) {
                out.push(a.clone())
            }
        }
        Sexp::List(l) => {
            for x in l {
                first_occ(x, syms, out)
            }
        }
    }
}
pub fn canon_ref(t: &Sexp, syms: &[String]) -> bool {
    let mut occ = vec![];
    first_occ(t, syms, &mut occ);
    occ.iter().zip(syms).all(|(a, b)| a == b)
}
fn rename(t: &Sexp, f: &BTreeMap<String, String>) -> Sexp {
    match t {
        Sexp::Atom(a) => Sexp::Atom(f.get(a).unwrap_or(a).clone()),
        Sexp::List(l) => Sexp::List(l.iter().map(|x| rename(x, f)).collect()),
    }
}
fn perms(xs: &[String]) -> Vec<Vec<String>> {
    if xs.is_empty() {
        return vec![vec![]];
    }
    let mut r = vec![];
    for i in 0..xs.len() {
        let mut ys = xs.to_vec();
        let x = ys.remove(i);
        for mut p in perms(&ys) {
            p.insert(0, x.clone());
            r.push(p);
        }
    }
    r
}
pub fn c08(cx: &mut Cx) -> R {
    cx.rule("every term of at most 5 nodes over {a, b, c, +} and random larger terms, with several symbol lists (orders, subsets, empty, longer than used); decision compared with the first-occurrence criterion, and all bijective renamings of the symbols of each term tested for exactly one accepted; non-trivial: at least two distinct symbols occur");
    let lists: Vec<Vec<String>> = vec![
        vec!["a", "b", "c"], vec!["c", "a", "b"], vec!["b", "a"], vec!["a"], vec![], vec!["a", "b", "c", "d", "e"],
    ].into_iter().map(|v| v.into_iter().map(String::from).collect()).collect();
    let mut terms = all_terms(&["a", "b", "+"], 5);
    terms.extend(all_terms(&["a", "b", "c", "+"], 4));
    for _ in 0..cx.n(3000) {
        let d = 1 + cx.rng.below(5);
        terms.push(rand_term(&mut cx.rng, &["a", "b", "c", "d", "e", "+", "aa"], d, 4));
    }
    for (ti, t) in terms.iter().enumerate() {
        for syms in lists.iter().take(if ti % 3 == 0 { 6 } else { 2 + ti % 4 }) {
            let mut occ = vec![];
            first_occ(t, syms, &mut occ);
            let d = format!("{} with symbols {:?}", show(t), syms);
            let pr = ti % 5 == 0 && syms.len() <= 4;
            cx.case("canon", d, occ.len() >= 2, || {
                let f = Filter::Canon(syms.clone());
                let got = test_real(&f, t);
                if got != canon_ref(t, syms) {
                    return Err(format!("accepted = {}, first occurrences are {:?}", got, occ));
                }
                if pr {
                    // every injective renaming of the symbols into themselves; classes have one representative
                    let mut seen: Vec<Sexp> = vec![];
                    let mut acc = 0;
                    for p in perms(syms) {
                        let m = syms.iter().cloned().zip(p).collect();
                        let u = rename(t, &m);
                        if !seen.contains(&u) {
                            if test_real(&f, &u) {
                                acc += 1;
                            }
                            seen.push(u);
                        }
                    }
                    if acc != 1 {
                        return Err(format!("{} representatives accepted among {} renamings", acc, seen.len()));
                    }
                }
                Ok(())
            })?;
        }
    }
    Ok(())
}

// ---------- filters ----------
pub fn test_ref(f: &Filter, t: &Sexp) -> bool {
    match f {
        Filter::MetricLt(m, n) => meas(t, *m) < *n,
        Filter::MetricEq(m, n) => meas(t, *m) == *n,
        Filter::Contains(p) => contains_ref(p, t),
        Filter::Excludes(p) => !contains_ref(p, t),
        Filter::Canon(s) => canon_ref(t, s),
        Filter::And(fs) => fs.iter().all(|f| test_ref(f, t)),
        Filter::Or(fs) => fs.iter().any(|f| test_ref(f, t)),
        Filter::Invert(f) => !test_ref(f, t),
    }
}
fn rand_filter(r: &mut Rng, depth: usize) -> Filter {
    if depth == 0 || r.chance(1, 2) {
        let m = *r.pick(&METS);
        return match r.below(9) {
            0 | 1 | 2 => Filter::MetricLt(m, r.size(7)),
            3 => Filter::MetricEq(m, r.size(6)),
            4 | 5 => { let d = r.below(3); Filter::Contains(rand_pat(r, d)) }
            6 | 7 => { let d = r.below(3); Filter::Excludes(rand_pat(r, d)) }
            _ => Filter::Canon(vec!["a".into(), "b".into(), "c".into()]),
        };
    }
    match r.below(4) {
        0 | 1 => Filter::And((0..r.size(4)).map(|_| rand_filter(r, depth - 1)).collect()),
        2 => Filter::Or((0..r.size(4)).map(|_| rand_filter(r, depth - 1)).collect()),
        _ => Filter::Invert(Box::new(rand_filter(r, depth - 1))),
    }
}
const FAT: [&str; 6] = ["a", "b", "c", "+", "x", "*"];

pub fn c06(cx: &mut Cx) -> R {
    cx.rule("random filters nested up to depth 3 (every kind, redundant metric bounds) on pools of small exhaustive and random terms, directly and combined pairwise through the builder; compared with independent predicates; non-trivial: the filter accepts some and rejects some pool term");
    let pool0 = all_terms(&["a", "b"], 4);
    // fixed grid: metric bounds combined in both orders
    let mut fixed: Vec<(Filter, Filter)> = vec![];
    for m in METS {
        for m2 in METS {
            for (x, y) in [(2, 3), (3, 2), (3, 3), (1, 4), (4, 1)] {
                fixed.push((Filter::MetricLt(m, x), Filter::MetricLt(m2, y)));
                fixed.push((Filter::MetricLt(m, x), Filter::MetricEq(m2, y)));
                fixed.push((Filter::MetricEq(m, x), Filter::MetricLt(m2, y)));
                fixed.push((Filter::And(vec![Filter::MetricLt(m, x)]), Filter::MetricLt(m2, y)));
                fixed.push((Filter::MetricLt(m, x), Filter::And(vec![Filter::MetricLt(m2, y), Filter::Excludes("a".parse().unwrap())])));
            }
        }
    }
    for _ in 0..cx.n(2500) {
        let d = 1 + cx.rng.below(3);
        let f = rand_filter(&mut cx.rng, d);
        let g = rand_filter(&mut cx.rng, d);
        fixed.push((f, g));
    }
    for (f, g) in &fixed {
        let mut pool: Vec<Sexp> = (0..20).map(|_| cx.rng.pick(&pool0).clone()).collect();
        for _ in 0..20 {
            let d = 1 + cx.rng.below(4);
            pool.push(rand_term(&mut cx.rng, &FAT, d, 3));
        }
        let n = pool.iter().filter(|t| test_ref(f, t)).count();
        let d = format!("f = {}; g = {}", show_f(f), show_f(g));
        cx.case("filter", d, n > 0 && n < pool.len(), || {
            let want: Vec<Sexp> = pool.iter().filter(|t| test_ref(f, t)).cloned().collect();
            let got = Workload::Filter(f.clone(), Box::new(Workload::Set(pool.clone()))).force();
            if got != want {
                let t = pool.iter().find(|t| test_real(f, t) != test_ref(f, t));
                return Err(format!("filter decides {} wrongly (documented predicate: {})", t.map_or("?".into(), show), t.map_or(false, |t| test_ref(f, t))));
            }
            for (h1, h2) in [(f, g), (g, f)] {
                let both: Vec<Sexp> = pool.iter().filter(|t| test_ref(h1, t) && test_ref(h2, t)).cloned().collect();
                // the builder merges consecutive filters into one conjunction
                let got = Workload::Set(pool.clone()).filter(h1.clone()).filter(h2.clone()).force();
                if got != both {
                    let t = pool.iter().find(|t| (test_ref(h1, t) && test_ref(h2, t)) != got.contains(t));
                    return Err(format!("combination of {} and {} decides {} wrongly", show_f(h1), show_f(h2), t.map_or("order".into(), show)));
                }
                // three-way
                let got = Workload::Set(pool.clone()).filter(h1.clone()).filter(h2.clone()).filter(h1.clone()).force();
                if got != both {
                    return Err("triple combination differs from the conjunction".into());
                }
            }
            Ok(())
        })?;
    }
    Ok(())
}

// ---------- workload algebra ----------
fn nodes(t: &Sexp) -> f64 {
    match t {
        Sexp::Atom(_) => 1.0,
        Sexp::List(l) => 1.0 + l.iter().map(nodes).sum::<f64>(),
    }
}
/// the number of nodes of all terms that plugging gives, counted before doing it
fn plug_cost(ts: &[Sexp], name: &str, pegs: &[Sexp]) -> f64 {
    let big = pegs.iter().map(nodes).fold(1.0, f64::max);
    ts.iter()
        .map(|t| {
            let h = count_holes(t, name);
            (pegs.len() as f64).powi(h as i32) * (nodes(t) + h as f64 * big)
        })
        .sum()
}
/// the denotation, or nothing when it has too many nodes to be worth computing
fn force_lim(w: &Workload) -> Option<Vec<Sexp>> {
    let r = match w {
        Workload::Set(v) => v.clone(),
        Workload::Plug(a, n, b) => {
            let p = force_lim(b)?;
            let ts = force_lim(a)?;
            if plug_cost(&ts, n, &p) > LIMIT {
                return None;
            }
            ts.iter().flat_map(|t| plug_ref(t, n, &p)).collect()
        }
        Workload::Filter(f, w) => force_lim(w)?.into_iter().filter(|t| test_ref(f, t)).collect(),
        Workload::Append(ws) => {
            let mut r = vec![];
            for w in ws {
                r.extend(force_lim(w)?);
            }
            r
        }
    };
    if r.iter().map(nodes).sum::<f64>() > LIMIT { None } else { Some(r) }
}
const LIMIT: f64 = 20000.0;
pub fn force_ref(w: &Workload) -> Vec<Sexp> {
    match w {
        Workload::Set(v) => v.clone(),
        Workload::Plug(a, n, b) => {
            let p = force_ref(b);
            force_ref(a).iter().flat_map(|t| plug_ref(t, n, &p)).collect()
        }
        Workload::Filter(f, w) => force_ref(w).into_iter().filter(|t| test_ref(f, t)).collect(),
        Workload::Append(ws) => ws.iter().flat_map(force_ref).collect(),
    }
}
fn multiset(v: &[Sexp]) -> Vec<String> {
    let mut s: Vec<String> = v.iter().map(show).collect();
    s.sort();
    s
}
const WAT: [&str; 5] = ["x", "y", "a", "b", "*"];
fn rand_set(r: &mut Rng) -> Workload {
    let n = r.size(4);
    Workload::Set((0..n).map(|_| { let d = r.below(3); rand_term(r, &WAT, d, 3) }).collect())
}
fn monotone_filter(r: &mut Rng) -> Filter {
    match r.below(5) {
        0 | 1 => Filter::MetricLt(*r.pick(&METS), 1 + r.size(6)),
        2 => { let d = r.below(2); Filter::Excludes(rand_pat(r, d)) }
        _ => Filter::And((0..r.below(3)).map(|_| monotone_filter(r)).collect()),
    }
}
fn rand_work(r: &mut Rng, depth: usize) -> Workload {
    if depth == 0 {
        return rand_set(r);
    }
    let w = rand_work(r, depth - 1);
    match r.below(6) {
        0 | 1 => {
            let p = if r.chance(1, 6) { Workload::Set(vec![]) } else { let d = r.below(2); rand_work(r, d) };
            Workload::Plug(Box::new(w), (*r.pick(&["x", "y", "*"])).into(), Box::new(p))
        }
        2 | 3 => { let d = r.below(3); Workload::Filter(rand_filter(r, d), Box::new(w)) }
        4 => Workload::Append((0..r.size(3)).map(|_| rand_set(r)).chain(std::iter::once(w)).collect()),
        _ => w,
    }
}
pub fn c09(cx: &mut Cx) -> R {
    cx.rule("random workloads up to depth 4 (sets, plugs, filters, appends), then one to three builder steps (filter, plug including empty pegs, append in every combination of shapes); forced results compared with the reference denotation; non-trivial: the base workload denotes at least one term and the step keeps or removes some");
    for _ in 0..cx.n(9000) {
        let d = 1 + cx.rng.below(4);
        let w = rand_work(&mut cx.rng, d);
        let base = match force_lim(&w) {
            Some(b) if b.len() <= 300 => b,
            _ => continue,
        };
        cx.case("force", show_w(&w), !base.is_empty(), || eqv("force", &w.force(), &base))?;
        match cx.rng.below(4) {
            0 | 1 => {
                // filter, up to three times
                let k = 1 + cx.rng.below(3);
                let fs: Vec<Filter> = (0..k).map(|_| if cx.rng.chance(1, 2) { monotone_filter(&mut cx.rng) } else { let d = cx.rng.below(3); rand_filter(&mut cx.rng, d) }).collect();
                let d = format!("{} .filter: {}", show_w(&w), fs.iter().map(show_f).collect::<Vec<_>>().join(" .filter: "));
                let nt = base.iter().any(|t| fs.iter().all(|f| test_ref(f, t)));
                cx.case("filter", d, nt, || {
                    let mut x = w.clone();
                    let mut want = base.clone();
                    for f in &fs {
                        x = x.filter(f.clone());
                        want.retain(|t| test_ref(f, t));
                    }
                    let got = x.force();
                    if got == want {
                        return Ok(());
                    }
                    Err(format!("got {}, want {}", clipv(&got), clipv(&want)))
                })?;
            }
            2 => {
                let name = (*cx.rng.pick(&["x", "y", "*", "?x", "b", "(a b)"])).to_string();
                let p = match cx.rng.below(4) {
                    0 => Workload::Set(vec![]),
                    1 => Workload::Append(vec![]),
                    2 => Workload::Filter(Filter::MetricLt(Metric::Atoms, 0), Box::new(rand_set(&mut cx.rng))),
                    _ => { let d = cx.rng.below(2); rand_work(&mut cx.rng, d) }
                };
                let pegs = match force_lim(&p) {
                    Some(x) if plug_cost(&base, &name, &x) <= LIMIT => x,
                    _ => continue,
                };
                let d = format!("{} .plug({:?}, {})", show_w(&w), name, show_w(&p));
                let nt = base.iter().any(|t| count_holes(t, &name) > 0);
                cx.case("plug", d, nt, || {
                    let want: Vec<Sexp> = base.iter().flat_map(|t| plug_ref(t, &name, &pegs)).collect();
                    eqv("plug", &w.clone().plug(name.clone(), &p).force(), &want)
                })?;
            }
            _ => {
                let d = cx.rng.below(3);
                let v = rand_work(&mut cx.rng, d);
                let other = match force_lim(&v) {
                    Some(o) if o.len() <= 300 => o,
                    _ => continue,
                };
                let d = format!("{} .append({})", show_w(&w), show_w(&v));
                cx.case("append", d, !base.is_empty() && !other.is_empty(), || {
                    let mut want = base.clone();
                    want.extend(other.clone());
                    let got = w.clone().append(v.clone()).force();
                    if multiset(&got) != multiset(&want) {
                        return Err(format!("got {}, want (in any order) {}", clipv(&got), clipv(&want)));
                    }
                    // append after a filter / filter after an append
                    let f = Filter::MetricLt(Metric::Atoms, 3);
                    let got = w.clone().append(v.clone()).filter(f.clone()).force();
                    want.retain(|t| test_ref(&f, t));
                    if multiset(&got) != multiset(&want) {
                        return Err(format!("append then filter: got {}, want {}", clipv(&got), clipv(&want)));
                    }
                    Ok(())
                })?;
            }
        }
    }
    // the empty workload and the default are empty; new parses each text
    cx.case("empty", "Workload::empty / default".into(), false, || {
        if !Workload::empty().force().is_empty() || !Workload::default().force().is_empty() {
            return Err("the empty workload denotes a term".into());
        }
        eqv("new", &Workload::new(["a", "(+ a (b c))"]).force(),
            &[atom("a"), Sexp::List(vec![atom("+"), atom("a"), Sexp::List(vec![atom("b"), atom("c")])])])
    })
}

// ---------- recipes ----------
fn grammars() -> Vec<(Vec<&'static str>, &'static str)> {
    vec![
        (vec!["VAR", "VAL", "(OP1 EXPR)", "(OP2 EXPR EXPR)"], "EXPR"),
        (vec!["VAR", "VAL", "(OP1 EXPR)"], "EXPR"),
        (vec!["a", "(f E)", "(g E E)"], "E"),
        (vec!["E", "(f E)"], "E"),
        (vec!["(f E)", "a"], "E"),
        (vec!["a", "b"], "E"),
        (vec!["(f E)"], "E"),
        (vec!["a", "(f (g E) E)"], "E"),
        (vec!["a", "(E E)"], "E"),
        (vec!["a", "(if E a E)", "(h)"], "E"),
        (vec![], "E"),
    ]
}
fn iter_ref(g: &[Sexp], hole: &str, m: Metric, n: usize) -> Option<Vec<Sexp>> {
    let mut pegs = g.to_vec();
    for i in 1..=n {
        let cost: f64 = g.iter().map(|t| (pegs.len().max(1) as f64).powi(count_holes(t, hole) as i32)).sum();
        if cost > 60000.0 {
            return None;
        }
        let mut nx = vec![];
        for t in g {
            for u in plug_ref(t, hole, &pegs) {
                if meas(&u, m) <= i {
                    nx.push(u);
                }
            }
        }
        pegs = nx;
    }
    Some(pegs)
}
pub fn c10(cx: &mut Cx) -> R {
    use ruler::recipe_utils::{base_lang, iter_metric, substitute};
    cx.rule("11 fixed and random grammars times 3 metrics times bounds 0..=5 (as long as the reference stays below 60000 terms), against an independent round-by-round reference; random substitutions; the standard grammar for arities 0..=9; non-trivial: at least two rounds with some term");
    let mut gs: Vec<(Vec<Sexp>, String)> = grammars().into_iter().map(|(g, h)| (g.iter().map(|s| s.parse().unwrap()).collect(), h.to_string())).collect();
    for _ in 0..cx.n(60) {
        let n = 1 + cx.rng.below(4);
        let g = (0..n).map(|_| { let d = cx.rng.below(3); rand_term(&mut cx.rng, &["E", "a", "f", "b"], d, 3) }).collect();
        gs.push((g, "E".into()));
    }
    for (g, h) in &gs {
        for m in METS {
            for n in 0..6usize {
                let want = match iter_ref(g, h, m, n) { Some(w) => w, None => break };
                let d = format!("grammar {} hole {} metric {:?} rounds {}", shows(g), h, m, n);
                cx.case("iterate", d, n >= 2 && !want.is_empty(), || {
                    eqv("iterate", &iter_metric(Workload::Set(g.clone()), h, m, n).force(), &want)
                })?;
            }
        }
    }
    for _ in 0..cx.n(600) {
        let r = &mut cx.rng;
        let g: Vec<Sexp> = (0..r.below(4)).map(|_| { let d = r.below(3); rand_term(r, &["E", "a", "f"], d, 3) }).collect();
        let s: Vec<Sexp> = (0..r.below(4)).map(|_| { let d = r.below(2); rand_term(r, &["E", "1", "2"], d, 2) }).collect();
        let d = format!("terms {} atom E by each of {}", shows(&g), shows(&s));
        cx.case("substitute", d, !g.is_empty() && !s.is_empty(), || {
            let mut want = vec![];
            for x in &s {
                for t in &g {
                    want.extend(plug_ref(t, "E", &[x.clone()]));
                }
            }
            eqv("substitute", &substitute(Workload::Set(g.clone()), Workload::Set(s.clone()), "E").force(), &want)
        })?;
    }
    for n in 0..10usize {
        cx.case("base grammar", format!("arity {}", n), n > 0, || {
            let mut want = vec![atom("VAR"), atom("VAL")];
            for i in 1..=n {
                let mut l = vec![atom(&format!("OP{}", i))];
                l.extend(vec![atom("EXPR"); i]);
                want.push(Sexp::List(l));
            }
            eqv("base_lang", &base_lang(n).force(), &want)
        })?;
    }
    Ok(())
}
