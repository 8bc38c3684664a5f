//! bitvectors: C01, C02, C03, C26
use crate::infra::*;
use ruler::*;

macro_rules! width {
    ($m:ident, $n:literal) => {
        pub mod $m {
            ruler::impl_bv!($n);
        }
    };
}
width!(w1, 1);
width!(w2, 2);
width!(w3, 3);
width!(w4, 4);
width!(w8, 8);
width!(w63, 63);
width!(w64, 64);
width!(w65, 65);
width!(w100, 100);
width!(w127, 127);
width!(w128, 128);

fn mask(n: u32) -> u128 {
    if n == 128 { u128::MAX } else { (1u128 << n) - 1 }
}
/// 256-bit product modulo 2^n by schoolbook addition, independent of wrapping_mul
fn mulm(a: u128, b: u128, n: u32) -> u128 {
    let mut r = 0u128;
    let mut x = a & mask(n);
    let mut k = b;
    while k != 0 {
        if k & 1 == 1 {
            r = addm(r, x, n);
        }
        x = addm(x, x, n);
        k >>= 1;
    }
    r
}
fn addm(a: u128, b: u128, n: u32) -> u128 {
    // bit by bit
    let (mut r, mut c) = (0u128, 0u128);
    for i in 0..n {
        let (x, y) = (a >> i & 1, b >> i & 1);
        r |= (x ^ y ^ c) << i;
        c = (x & y) | (x & c) | (y & c);
    }
    r
}
fn negm(a: u128, n: u32) -> u128 {
    addm(!a & mask(n), 1, n)
}
fn subm(a: u128, b: u128, n: u32) -> u128 {
    addm(a, negm(b, n), n)
}
fn shlm(a: u128, b: u128, n: u32) -> u128 {
    if b >= n as u128 { 0 } else { let mut r = 0; for i in 0..(n - b as u32) { r |= (a >> i & 1) << (i + b as u32) } r }
}
fn shrm(a: u128, b: u128, n: u32) -> u128 {
    if b >= n as u128 { 0 } else { let mut r = 0; for i in (b as u32)..n { r |= (a >> i & 1) << (i - b as u32) } r }
}
pub fn op_ref(o: &str, a: u128, b: u128, n: u32) -> u128 {
    match o {
        "+" => addm(a, b, n),
        "--" => subm(a, b, n),
        "*" => mulm(a, b, n),
        "-" => negm(a, n),
        "~" => !a & mask(n),
        "<<" => shlm(a, b, n),
        ">>" => shrm(a, b, n),
        "&" => a & b,
        "|" => a | b,
        "^" => a ^ b,
        _ => unreachable!(),
    }
}
pub const OPS: [(&str, usize); 10] = [("+", 2), ("--", 2), ("*", 2), ("-", 1), ("~", 1), ("<<", 2), (">>", 2), ("&", 2), ("|", 2), ("^", 2)];

fn interesting(r: &mut Rng, n: u32) -> u128 {
    let m = mask(n);
    match r.below(10) {
        0 => 0,
        1 => 1 & m,
        2 => m,
        3 => 1u128 << (n - 1),
        4 => m >> 1,
        5 => (r.below(200) as u128) & m,
        6 => (n as u128).wrapping_sub(1).wrapping_add(r.below(3) as u128) & m,
        7 => 1u128 << r.below(n as usize),
        8 => m - (r.below(5) as u128 & m),
        _ => r.u128() & m,
    }
}

fn c01_width<const N: u128>(cx: &mut Cx) -> R {
    use std::ops::*;
    let n = N as u32;
    type B<const N: u128> = ruler::BV<N>;
    cx.case("constants", format!("width {}", n), true, || {
        let m = mask(n);
        let want = [("ZERO", B::<N>::ZERO.0, 0), ("ALL_ONES", B::<N>::ALL_ONES.0, m), ("NEG_ONE", B::<N>::NEG_ONE.0, m), ("MIN", B::<N>::MIN.0, 1u128 << (n - 1)), ("MAX", B::<N>::MAX.0, m >> 1)];
        for (k, g, w) in want {
            if g != w {
                return Err(format!("{} is {}, want {}", k, g, w));
            }
        }
        Ok(())
    })?;
    let mut ps: Vec<(u128, u128)> = vec![];
    if n <= 4 {
        for a in 0..1u128 << n {
            for b in 0..1u128 << n {
                ps.push((a, b));
            }
        }
    }
    // every shift distance around the boundary and powers of two beyond it
    for s in 0..(n as u128 + 3) {
        let a = cx.rng.u128() & mask(n);
        if s <= mask(n) {
            ps.push((a, s));
            ps.push((mask(n), s));
        }
    }
    for k in 0..n {
        ps.push((mask(n), 1u128 << k));
        ps.push((1u128 << k, (1u128 << k) | 1 & mask(n)));
    }
    for _ in 0..cx.n(if n < 9 { 200 } else { 500 }) {
        let a = interesting(&mut cx.rng, n);
        let b = interesting(&mut cx.rng, n);
        ps.push((a, b));
    }
    for (a, b) in ps {
        cx.case("operations", format!("width {} operands {} {}", n, a, b), a != 0 && b != 0, || {
            let (x, y) = (ruler::BV::<N>(a), ruler::BV::<N>(b));
            let got = [
                ("+", x.wrapping_add(y).0), ("--", x.wrapping_sub(y).0), ("*", x.wrapping_mul(y).0), ("-", x.wrapping_neg().0), ("~", x.not().0),
                ("<<", x.my_shl(y).0), (">>", x.my_shr(y).0), ("&", x.bitand(y).0), ("|", x.bitor(y).0), ("^", x.bitxor(y).0),
            ];
            for (o, g) in got {
                let w = op_ref(o, a, b, n);
                if g != w {
                    return Err(format!("{} gives {}, want {}", o, g, w));
                }
            }
            Ok(())
        })?;
    }
    for _ in 0..cx.n(60) {
        let v = if cx.rng.chance(1, 2) { cx.rng.u128() } else { interesting(&mut cx.rng, n) };
        cx.case("construction", format!("width {} from {}", n, v), v > mask(n), || {
            let w = v & mask(n);
            if B::<N>::new(v).0 != w || B::<N>::from(v).0 != w {
                return Err(format!("from integer gives {}", B::<N>::from(v).0));
            }
            if B::<N>::new(v as u8).0 != (v as u8 as u128) & mask(n) || B::<N>::new(v as u64).0 != (v as u64 as u128) & mask(n) {
                return Err("from a smaller integer type".into());
            }
            for (s, want) in [(v.to_string(), Some(w)), (format!("#b{:b}", v), Some(w)), (format!("#b{:0140b}", v), Some(w)), (format!("00{}", v), Some(w)), (B::<N>::new(v).to_string(), Some(w)), (format!("{:?}", B::<N>::new(v)), Some(w))] {
                let g = s.parse::<B<N>>().ok().map(|b| b.0);
                if g != want {
                    return Err(format!("text {:?} gives {:?}", s, g));
                }
            }
            Ok(())
        })?;
    }
    for s in ["", "#b", "#b2", "#bzz", "b1", "-1", "x", "#x1", "1 ", "#b 1", "0b1", "#b1_0", "#b11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111", "340282366920938463463374607431768211456", "99999999999999999999999999999999999999999"] {
        cx.case("malformed text", format!("width {} {:?}", n, s), false, || match s.parse::<B<N>>() {
            Err(_) => Ok(()),
            Ok(b) => Err(format!("accepted as {}", b.0)),
        })?;
    }
    for _ in 0..cx.n(60) {
        let chars = ['0', '1', '1', '#', 'b', 'B', '+', '-', '_', ' ', '2', '9', 'x', 'é', '日', '😀', '\u{661}', '\n'];
        let k = cx.rng.below(6);
        let mut s: String = (0..k).map(|_| *cx.rng.pick(&chars)).collect();
        if cx.rng.chance(1, 3) { s = format!("#b{}", s) }
        // digits after an optional sign, in base two after the mark
        let (body, radix) = match s.strip_prefix("#b") { Some(t) => (t, 2), None => (s.as_str(), 10) };
        let digits = body.strip_prefix('+').unwrap_or(body);
        let ok = !digits.is_empty() && digits.chars().all(|c| c.is_ascii() && c.is_digit(radix));
        let want = if ok { Some(digits.chars().fold(0u128, |a, c| a * radix as u128 + c.to_digit(radix).unwrap() as u128) & mask(n)) } else { None };
        cx.case("text", format!("width {} {:?}", n, s), ok, || {
            let g = s.parse::<B<N>>().ok().map(|b| b.0);
            if g != want { Err(format!("text {:?} gives {:?}, want {:?}", s, g, want)) } else { Ok(()) }
        })?;
    }
    use rand::distributions::Distribution;
    use rand::SeedableRng;
    let sd = cx.rng.u64();
    cx.case("sampling", format!("width {} generator seed {}", n, sd), true, || {
        let mut rng = rand_pcg::Pcg64::seed_from_u64(sd);
        let mut seen = std::collections::HashSet::new();
        for _ in 0..300 {
            let b: B<N> = rand::distributions::Standard.sample(&mut rng);
            if b.0 > mask(n) {
                return Err(format!("sample {} out of range", b.0));
            }
            seen.insert(b.0);
        }
        if seen.len() < 2 { Err("samples are constant".into()) } else { Ok(()) }
    })
}
pub fn c01(cx: &mut Cx) -> R {
    cx.rule("widths 1-9, 16, 31-33, 63-65, 96, 100, 127, 128: all operand pairs up to width 4, boundary shift distances, powers of two, corner and random operands against bit-by-bit references; integers, decimal and binary texts, malformed texts, seeded random samples; non-trivial: both operands non-zero / out-of-range source");
    macro_rules! go { ($($w:literal)*) => { $( c01_width::<$w>(cx)?; )* } }
    go!(1 2 3 4 5 6 7 8 9 16 31 32 33 63 64 65 96 100 127 128);
    Ok(())
}

macro_rules! c02_at {
    ($cx:expr, $m:ident, $n:literal) => {{
        use $m::{Bv, BV as W};
        let cx: &mut Cx = $cx;
        let id = |i: usize| Id::from(i);
        for _ in 0..cx.n(300) {
            let r = &mut cx.rng;
            let (o, ar) = *r.pick(&OPS);
            let (la, lb) = { let l = r.below(6); (l, l) };
            let mk = |r: &mut Rng, l: usize| -> Vec<Option<W>> { (0..l).map(|_| if r.chance(1, 4) { None } else { Some(ruler::BV::<$n>(interesting(r, $n))) }).collect() };
            let (ca, cb) = (mk(r, la), mk(r, lb));
            let same = r.chance(1, 10);
            let d = format!("width {} {} over {:?} {:?}{}", $n, o, ca, cb, if same { " (same child)" } else { "" });
            let nt = ca.iter().any(|x| x.is_some()) && (ar == 1 || cb.iter().any(|x| x.is_none()));
            cx.case("eval", d, nt, || {
                let cvs = [ca.clone(), cb.clone()];
                let (i, j) = (id(0), if same { id(0) } else { id(1) });
                // the operator is obtained from its symbol, so the symbol table is checked as well
                let text = if ar == 1 { format!("({} p)", o) } else { format!("({} p q)", o) };
                let e: egg::RecExpr<Bv> = text.parse().map_err(|e| format!("{} does not parse: {}", text, e))?;
                use egg::Language;
                let mut node = e.as_ref().last().unwrap().clone();
                let mut k = 0;
                node.for_each_mut(|c| { *c = if k == 0 { i } else { j }; k += 1; });
                let got = node.eval(7, |x| &cvs[usize::from(*x)]);
                let other = if same { &ca } else { &cb };
                let want: Vec<Option<u128>> = if ar == 1 { ca.iter().map(|x| x.map(|x| op_ref(o, x.0, 0, $n))).collect() } else {
                    ca.iter().zip(other.iter()).map(|p| match p { (Some(x), Some(y)) => Some(op_ref(o, x.0, y.0, $n)), _ => None }).collect()
                };
                if got.iter().map(|x| x.map(|x| x.0)).collect::<Vec<_>>() != want {
                    return Err(format!("got {:?}, want {:?}", got, want));
                }
                Ok(())
            })?;
        }
        for _ in 0..cx.n(20) {
            let v = interesting(&mut cx.rng, $n);
            let l = cx.rng.below(6);
            cx.case("literal", format!("width {} literal {} length {}", $n, v, l), l > 0, || {
                let t: egg::RecExpr<Bv> = v.to_string().parse().map_err(|e| format!("does not parse: {}", e))?;
                let none: Vec<Option<W>> = vec![];
                let got = t.as_ref()[0].eval(l, |_| &none);
                if !t.as_ref()[0].is_constant() || t.as_ref()[0].is_var() {
                    return Err("not a constant".into());
                }
                if got != vec![Some(ruler::BV::<$n>(v)); l] { Err(format!("evaluates to {:?}", got)) } else { Ok(()) }
            })?;
        }
        cx.case("variable", format!("width {}", $n), false, || {
            let t: egg::RecExpr<Bv> = "x".parse().unwrap();
            if t.as_ref()[0].to_var() != Some("x".into()) || t.as_ref()[0].is_constant() || Bv::mk_var("x".into()) != t.as_ref()[0] {
                return Err("x is not the variable x".into());
            }
            let iv = t.as_ref()[0].mk_interval(|_| unreachable!());
            if iv.low.is_some() || iv.high.is_some() { Err("a variable has a bounded interval".into()) } else { Ok(()) }
        })?;
    }};
}
pub fn c02(cx: &mut Cx) -> R {
    cx.rule("widths 1, 3, 4, 8, 63, 64, 65, 100, 128: every operator by its symbol over random children sample vectors (length 0-5, undefined entries, shared children) against bit-by-bit references; literals of several lengths; non-trivial: some defined and, for binary operators, some undefined entry");
    c02_at!(cx, w1, 1);
    c02_at!(cx, w3, 3);
    c02_at!(cx, w4, 4);
    c02_at!(cx, w8, 8);
    c02_at!(cx, w63, 63);
    c02_at!(cx, w64, 64);
    c02_at!(cx, w65, 65);
    c02_at!(cx, w100, 100);
    c02_at!(cx, w128, 128);
    Ok(())
}

fn cross_ok<T: Clone + Ord + std::fmt::Debug>(vs: &[Vec<T>], vals: &[T], n: usize) -> Result<(), String> {
    if vs.len() != n {
        return Err(format!("{} vectors for {} variables", vs.len(), n));
    }
    if n == 0 {
        return Ok(());
    }
    let rows = vals.len().pow(n as u32);
    for (i, v) in vs.iter().enumerate() {
        if v.len() != rows {
            return Err(format!("vector {} has length {}, want {}", i, v.len(), rows));
        }
    }
    let mut seen = std::collections::BTreeMap::new();
    for k in 0..rows {
        let t: Vec<T> = vs.iter().map(|v| v[k].clone()).collect();
        if t.iter().any(|x| !vals.contains(x)) {
            return Err(format!("row {} = {:?} has a foreign value", k, t));
        }
        if let Some(o) = seen.insert(t.clone(), k) {
            return Err(format!("combination {:?} occurs at {} and {}", t, o, k));
        }
    }
    if seen.len() != rows { Err("a combination is missing".into()) } else { Ok(()) }
}
macro_rules! c03_at {
    ($cx:expr, $m:ident, $n:literal) => {{
        use $m::{Bv, BV as W};
        let cx: &mut Cx = $cx;
        for nv in 0..4usize {
            cx.case("initialize", format!("width {} variables {}", $n, nv), nv > 0, || {
                let mut eg: EGraph<Bv, SynthAnalysis> = Default::default();
                let vars: Vec<String> = ["x", "b", "a1", "zz"][..nv].iter().map(|s| s.to_string()).collect();
                Bv::initialize_vars(&mut eg, &vars);
                let mut vals: Vec<u128> = vec![];
                for i in 0..2u128 {
                    vals.extend([addm(1u128 << ($n - 1), i & mask($n), $n), subm(mask($n) >> 1, i & mask($n), $n), i & mask($n), negm(i & mask($n), $n)].iter());
                }
                vals.sort();
                vals.dedup();
                let want = vals.len().pow(nv as u32);
                if eg.analysis.cvec_len != want {
                    return Err(format!("recorded length {}, want {}", eg.analysis.cvec_len, want));
                }
                if eg.number_of_classes() != nv {
                    return Err(format!("{} classes", eg.number_of_classes()));
                }
                let vs: Vec<Vec<u128>> = vars.iter().map(|v| {
                    let id = eg.lookup(Bv::Var(v.as_str().into())).ok_or(format!("variable {} is missing", v))?;
                    eg[id].data.cvec.iter().map(|x| x.map(|x: W| x.0).ok_or("undefined sample".to_string())).collect::<Result<Vec<u128>, String>>()
                }).collect::<Result<_, String>>()?;
                cross_ok(&vs, &vals, nv)
            })?;
        }
    }};
}
pub fn c03(cx: &mut Cx) -> R {
    cx.rule("value lists of length 0-9 and 0-5 variables (up to 50000 rows) checked for every combination exactly once; variable initialisation at widths 1, 2, 3, 4, 8, 64, 65, 128 with 0-3 variables; non-trivial: at least two values and two variables");
    for m in 0..10usize {
        for n in 0..6usize {
            if m.pow(n as u32) > 50000 {
                continue;
            }
            let perm = cx.rng.below(2);
            let vals: Vec<i32> = (0..m as i32).map(|i| if perm == 0 { i * 3 } else { 100 - i }).collect();
            cx.case("cross product", format!("values {:?} variables {}", vals, n), m > 1 && n > 1, || {
                if m == 0 && n > 0 {
                    let v = self_product(&vals, n);
                    return if v.len() == n && v.iter().all(|x| x.is_empty()) { Ok(()) } else { Err(format!("{:?}", v)) };
                }
                cross_ok(&self_product(&vals, n), &vals, n)
            })?;
        }
    }
    // many variables: two, one or three values each
    for (m, n) in [(2usize, 9usize), (2, 10), (2, 12), (1, 12), (3, 10), (1, 30), (2, 13)] {
        let vals: Vec<i32> = (0..m as i32).map(|i| i * 7 - 3).collect();
        cx.case("cross product", format!("values {:?} variables {}", vals, n), m > 1, || cross_ok(&self_product(&vals, n), &vals, n))?;
    }
    c03_at!(cx, w1, 1);
    c03_at!(cx, w2, 2);
    c03_at!(cx, w3, 3);
    c03_at!(cx, w4, 4);
    c03_at!(cx, w8, 8);
    c03_at!(cx, w64, 64);
    c03_at!(cx, w65, 65);
    c03_at!(cx, w128, 128);
    Ok(())
}

fn rand_text(r: &mut Rng, depth: usize, n: u32, nv: usize) -> String {
    if depth == 0 || r.chance(1, 4) {
        return if r.chance(1, 4) { interesting(r, n).to_string() } else { ["?a", "?b", "?c"][r.below(nv)].to_string() };
    }
    let (o, k) = *r.pick(&OPS);
    let mut s = format!("({}", o);
    for _ in 0..k {
        s += &format!(" {}", rand_text(r, depth - 1, n, nv));
    }
    s + ")"
}
/// independent evaluation of rule text
fn ev(t: &Tok, n: u32, env: &dyn Fn(&str) -> u128) -> u128 {
    match t {
        Tok::A(a) if a.starts_with('?') => env(a),
        Tok::A(a) => a.parse::<u128>().unwrap() & mask(n),
        Tok::L(v) => {
            let o = if let Tok::A(o) = &v[0] { o } else { unreachable!() };
            let a = ev(&v[1], n, env);
            let b = if v.len() > 2 { ev(&v[2], n, env) } else { 0 };
            op_ref(o, a, b, n)
        }
    }
}
enum Tok {
    A(String),
    L(Vec<Tok>),
}
fn parse(s: &str) -> Tok {
    let v: Vec<String> = s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(String::from).collect();
    fn go(v: &[String], i: &mut usize) -> Tok {
        if v[*i] == "(" {
            *i += 1;
            let mut r = vec![];
            while v[*i] != ")" {
                r.push(go(v, i));
            }
            *i += 1;
            Tok::L(r)
        } else {
            *i += 1;
            Tok::A(v[*i - 1].clone())
        }
    }
    go(&v, &mut 0)
}
macro_rules! c26_at {
    ($cx:expr, $m:ident, $n:literal, $k:expr) => {{
        use $m::Bv;
        let cx: &mut Cx = $cx;
        let fixed: [(&str, &str, Option<bool>); 14] = [
            ("(+ ?a ?b)", "(+ ?b ?a)", Some(true)), ("(-- ?a ?b)", "(+ ?a (- ?b))", Some(true)), ("(~ ?a)", "(-- (- ?a) 1)", Some(true)), ("(-- ?a ?b)", "(-- ?b ?a)", None),
            ("(^ ?a ?b)", "(-- (| ?a ?b) (& ?a ?b))", Some(true)), ("(<< ?a 1)", "(+ ?a ?a)", None), ("(>> (<< ?a 1) 1)", "?a", Some(false)), ("(& ?a (~ ?a))", "0", Some(true)),
            ("(>> ?a ?b)", "(<< ?a ?b)", None), ("(- ?a)", "(* ?a (- 1))", Some(true)), ("(| ?a ?b)", "(^ ?a ?b)", Some(false)), ("(<< ?a ?a)", "(<< ?a ?a)", Some(true)),
            ("(- (- ?a))", "?a", Some(true)), ("(-- 0 ?a)", "(- ?a)", Some(true)),
        ];
        let mut jobs: Vec<(String, String, Option<bool>)> = fixed.iter().map(|(a, b, c)| (a.to_string(), b.to_string(), *c)).collect();
        // literals and their distinctness at the ends of the range
        for k in [0u32, 1, 31, 32, 62, 63, 64, 65, 126, 127] {
            if k < $n {
                let v = 1u128 << k;
                jobs.push((v.to_string(), (v & 0xffff_ffff_ffff_ffff).to_string(), Some(k < 64)));
                jobs.push((format!("(+ ?a {})", v), "?a".into(), Some(false)));
                jobs.push((format!("(& ?a {})", v), format!("(-- ?a (& ?a {}))", mask($n) ^ v), Some(true)));
                jobs.push((format!("(<< 1 {})", k), v.to_string(), Some(mask($n) >= k as u128)));
            }
        }
        jobs.push((format!("(+ {} 1)", mask($n)), "0".into(), Some(true)));
        jobs.push((format!("(& ?a {})", mask($n)), "?a".into(), Some(true)));
        jobs.push((mask($n).to_string(), "(- 1)".into(), Some(true)));
        for _ in 0..cx.n($k) {
            let nv = if $n <= 4 { 2 } else { 3 };
            let (d1, d2) = (1 + cx.rng.below(2), cx.rng.below(3));
            let a = rand_text(&mut cx.rng, d1, $n, nv);
            let b = if cx.rng.chance(1, 3) { format!("(+ 0 {})", a) } else { rand_text(&mut cx.rng, d2, $n, nv) };
            jobs.push((a, b, None));
        }
        // names that differ in case only are different variables
        for i in 0..jobs.len() {
            if i % 4 == 3 && jobs[i].0.contains("?b") {
                let (a, b, k) = jobs[i].clone();
                jobs.push((a.replace("?b", "?A"), b.replace("?b", "?A"), k));
            }
        }
        for (a, b, known) in &jobs {
            if !cx.time_left() { break }
            let (x, y) = (parse(a), parse(b));
            // a distinguishing assignment, if one is found
            let small = $n <= 4;
            let mut cex: Option<Vec<u128>> = None;
            let tries = if small { 1usize << (3 * $n as usize).min(12) } else { 400 };
            for k in 0..tries {
                let vals: Vec<u128> = (0..3).map(|i| if small { (k as u128 >> (i * $n as u32)) & mask($n) } else { interesting(&mut cx.rng, $n) }).collect();
                let env = |s: &str| vals[["?a", "?b", "?c"].iter().position(|v| *v == s).unwrap_or(1)];
                if ev(&x, $n, &env) != ev(&y, $n, &env) {
                    cex = Some(vals);
                    break;
                }
            }
            let d = format!("width {} {} vs {}", $n, a, b);
            cx.case("validate", d, true, || {
                let (l, r): (Pattern<Bv>, Pattern<Bv>) = (a.parse().map_err(|e| format!("{}", e))?, b.parse().map_err(|e| format!("{}", e))?);
                match Bv::validate(&l, &r) {
                    ValidationResult::Valid => match cex {
                        Some(v) => Err(format!("judged valid, but ?a, ?b, ?c = {:?} distinguishes the sides", v)),
                        None if *known == Some(false) => Err("judged valid, but the sides are known to differ".into()),
                        None => Ok(()),
                    },
                    ValidationResult::Invalid => {
                        if *known == Some(true) || (small && cex.is_none()) {
                            Err("judged invalid, but no assignment distinguishes the sides".into())
                        } else {
                            Ok(())
                        }
                    }
                    ValidationResult::Unknown => Ok(()),
                }
            })?;
        }
    }};
}
pub fn c26(cx: &mut Cx) -> R {
    cx.rule("fixed identities and non-identities of all operators, literals at every bit-position class, and random rules of depth up to 2, at widths 1, 2, 3, 4, 8, 64, 65, 100, 128; verdict compared with exhaustive evaluation (width up to 4) or corner and random assignments; every case counts as non-trivial");
    c26_at!(cx, w1, 1, 40);
    c26_at!(cx, w2, 2, 60);
    c26_at!(cx, w3, 3, 100);
    c26_at!(cx, w4, 4, 120);
    c26_at!(cx, w8, 8, 20);
    c26_at!(cx, w64, 64, 4);
    c26_at!(cx, w65, 65, 4);
    c26_at!(cx, w100, 100, 2);
    c26_at!(cx, w128, 128, 2);
    Ok(())
}
