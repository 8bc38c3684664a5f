//! A small partial-arithmetic domain (Z_5 with division undefined at zero),
//! used to drive the domain-generic code with full control over evaluation,
//! validation verdicts and allowed operators.
use egg::{define_language, Id, RecExpr, Symbol};
use ruler::enumo::Ruleset;
use ruler::*;
use std::cell::RefCell;
use std::collections::BTreeSet;

pub const MOD: i64 = 5;

define_language! {
    pub enum Tl {
        "+" = Add([Id; 2]),
        "*" = Mul([Id; 2]),
        "/" = Div([Id; 2]),
        "~" = Neg(Id),
        // uninterpreted-looking identity: validation is inconclusive when it occurs
        "g" = G(Id),
        // not allowed in rules
        "bad" = Bad(Id),
        "bad2" = Bad2([Id; 2]),
        "h" = H([Id; 3]),
        // always undefined
        "undef" = Undef(Id),
        Num(i64),
        Var(Symbol),
    }
}

thread_local! {
    /// the variable lists handed to initialize_vars
    pub static INIT: RefCell<Vec<(Vec<String>, usize)>> = RefCell::new(vec![]);
    /// whether literals carry exact intervals (unsound rules then make the class data inconsistent)
    /// whether rules are judged as refinements: valid where the left side is defined
    pub static DIRECTED: RefCell<bool> = RefCell::new(false);
    pub static INTERVALS: RefCell<bool> = RefCell::new(false);
    pub static EXPLORATORY: RefCell<Vec<String>> = RefCell::new(vec![]);
}

pub fn op2(o: &str, a: i64, b: i64) -> Option<i64> {
    match o {
        "+" => Some((a + b).rem_euclid(MOD)),
        "*" => Some((a * b).rem_euclid(MOD)),
        "/" => {
            if b.rem_euclid(MOD) == 0 {
                None
            } else {
                let inv = (1..MOD).find(|i| (i * b).rem_euclid(MOD) == 1).unwrap();
                Some((a * inv).rem_euclid(MOD))
            }
        }
        "bad2" => Some((a - b).rem_euclid(MOD)),
        _ => unreachable!(),
    }
}

fn z<'a>(x: &'a CVec<Tl>, y: &'a CVec<Tl>, o: &'static str) -> CVec<Tl> {
    x.iter()
        .zip(y)
        .map(|p| match p {
            (Some(a), Some(b)) => op2(o, *a, *b),
            _ => None,
        })
        .collect()
}

pub fn eval_expr(e: &RecExpr<Tl>, env: &dyn Fn(&str) -> i64) -> Option<i64> {
    let mut v: Vec<Option<i64>> = vec![];
    for n in e.as_ref() {
        let g = |i: &Id| v[usize::from(*i)];
        let b = |o: &str, x: &[Id; 2]| match (g(&x[0]), g(&x[1])) {
            (Some(a), Some(c)) => op2(o, a, c),
            _ => None,
        };
        let r = match n {
            Tl::Add(x) => b("+", x),
            Tl::Mul(x) => b("*", x),
            Tl::Div(x) => b("/", x),
            Tl::Bad2(x) => b("bad2", x),
            Tl::Neg(x) => g(x).map(|a| (-a).rem_euclid(MOD)),
            Tl::G(x) => g(x),
            Tl::Bad(x) => g(x).map(|a| (a + 1).rem_euclid(MOD)),
            Tl::H([x, y, w]) => match (g(x), g(y), g(w)) {
                (Some(a), Some(c), Some(d)) => Some(if a != 0 { c } else { d }),
                _ => None,
            },
            Tl::Undef(_) => None,
            Tl::Num(k) => Some(k.rem_euclid(MOD)),
            Tl::Var(s) => Some(env(s.as_str()).rem_euclid(MOD)),
        };
        v.push(r);
    }
    v.pop().unwrap()
}

pub fn vars_of(e: &RecExpr<Tl>) -> Vec<String> {
    let mut s = BTreeSet::new();
    for n in e.as_ref() {
        if let Tl::Var(v) = n {
            s.insert(v.to_string());
        }
    }
    s.into_iter().collect()
}

/// equal (including where they are defined), over every assignment
pub fn sound(l: &RecExpr<Tl>, r: &RecExpr<Tl>) -> bool {
    let mut vs = vars_of(l);
    vs.extend(vars_of(r));
    vs.sort();
    vs.dedup();
    let n = (MOD as usize).pow(vs.len() as u32);
    (0..n).all(|k| {
        let env = |s: &str| {
            let i = vs.iter().position(|x| x == s).unwrap();
            ((k / (MOD as usize).pow(i as u32)) % MOD as usize) as i64
        };
        eval_expr(l, &env) == eval_expr(r, &env)
    })
}

/// where the left side is defined, the right side is equal to it
pub fn refines(l: &RecExpr<Tl>, r: &RecExpr<Tl>) -> bool {
    let mut vs = vars_of(l);
    vs.extend(vars_of(r));
    vs.sort();
    vs.dedup();
    let n = (MOD as usize).pow(vs.len() as u32);
    (0..n).all(|k| {
        let env = |s: &str| {
            let i = vs.iter().position(|x| x == s).unwrap();
            ((k / (MOD as usize).pow(i as u32)) % MOD as usize) as i64
        };
        match eval_expr(l, &env) { Some(v) => eval_expr(r, &env) == Some(v), None => true }
    })
}

/// pattern to expression without using the code under test
pub fn inst(p: &Pattern<Tl>) -> RecExpr<Tl> {
    let nodes: Vec<Tl> = p
        .ast
        .as_ref()
        .iter()
        .map(|n| match n {
            egg::ENodeOrVar::ENode(n) => n.clone(),
            egg::ENodeOrVar::Var(v) => Tl::Var(Symbol::from(v.to_string().trim_start_matches('?'))),
        })
        .collect();
    RecExpr::from(nodes)
}

pub fn verdict(l: &RecExpr<Tl>, r: &RecExpr<Tl>) -> u8 {
    let unk = l.as_ref().iter().chain(r.as_ref()).any(|n| matches!(n, Tl::G(_)));
    if unk {
        2
    } else if if DIRECTED.with(|d| *d.borrow()) { refines(l, r) } else { sound(l, r) } {
        0
    } else {
        1
    }
}

impl SynthLanguage for Tl {
    type Constant = i64;

    fn eval<'a, F>(&'a self, cvec_len: usize, mut get: F) -> CVec<Self>
    where
        F: FnMut(&'a Id) -> &'a CVec<Self>,
    {
        match self {
            Tl::Add([a, b]) => z(get(a), get(b), "+"),
            Tl::Mul([a, b]) => z(get(a), get(b), "*"),
            Tl::Div([a, b]) => z(get(a), get(b), "/"),
            Tl::Bad2([a, b]) => z(get(a), get(b), "bad2"),
            Tl::Neg(a) => get(a).iter().map(|x| x.map(|x| (-x).rem_euclid(MOD))).collect(),
            Tl::G(a) => get(a).clone(),
            Tl::Bad(a) => get(a).iter().map(|x| x.map(|x| (x + 1).rem_euclid(MOD))).collect(),
            Tl::H([a, b, c]) => {
                let (a, b, c) = (get(a), get(b), get(c));
                (0..a.len().min(b.len()).min(c.len()))
                    .map(|i| match (a[i], b[i], c[i]) {
                        (Some(a), Some(b), Some(c)) => Some(if a != 0 { b } else { c }),
                        _ => None,
                    })
                    .collect()
            }
            Tl::Undef(a) => get(a).iter().map(|_| None).collect(),
            Tl::Num(n) => vec![Some(n.rem_euclid(MOD)); cvec_len],
            Tl::Var(_) => vec![],
        }
    }

    fn mk_interval<'a, F>(&'a self, mut get: F) -> Interval<i64>
    where
        F: FnMut(&'a Id) -> &'a Interval<i64>,
    {
        if !INTERVALS.with(|i| *i.borrow()) {
            return Interval::default();
        }
        match self {
            Tl::Num(n) => Interval::new(Some(*n), Some(*n)),
            Tl::H([a, b, c]) => {
                // hull of the last two when known, marks that all children are consulted
                let (_, b, c) = (get(a), get(b), get(c));
                let lo = match (b.low, c.low) { (Some(x), Some(y)) => Some(x.min(y)), _ => None };
                let hi = match (b.high, c.high) { (Some(x), Some(y)) => Some(x.max(y)), _ => None };
                Interval::new(lo, hi)
            }
            _ => Interval::default(),
        }
    }

    fn initialize_vars(egraph: &mut EGraph<Self, SynthAnalysis>, vars: &[String]) {
        INIT.with(|i| i.borrow_mut().push((vars.to_vec(), egraph.total_number_of_nodes())));
        let n = (MOD as usize).pow(vars.len().min(4) as u32);
        egraph.analysis.cvec_len = n;
        for (i, v) in vars.iter().enumerate() {
            let id = egraph.add(Tl::Var(Symbol::from(v.as_str())));
            let p = (MOD as usize).pow(i.min(3) as u32);
            egraph[id].data.cvec = (0..n).map(|k| Some(((k / p) % MOD as usize) as i64)).collect();
        }
    }

    fn to_var(&self) -> Option<Symbol> {
        if let Tl::Var(s) = self { Some(*s) } else { None }
    }
    fn mk_var(sym: Symbol) -> Self {
        Tl::Var(sym)
    }
    fn is_constant(&self) -> bool {
        matches!(self, Tl::Num(_))
    }
    fn mk_constant(c: i64, _: &mut EGraph<Self, SynthAnalysis>) -> Self {
        Tl::Num(c)
    }
    fn is_allowed_op(&self) -> bool {
        !matches!(self, Tl::Bad(_) | Tl::Bad2(_))
    }
    fn is_fast_forwarding() -> bool {
        true
    }
    fn get_exploratory_rules() -> Ruleset<Self> {
        EXPLORATORY.with(|e| Ruleset::new(e.borrow().iter()))
    }
    fn validate(lhs: &Pattern<Self>, rhs: &Pattern<Self>) -> ValidationResult {
        match verdict(&inst(lhs), &inst(rhs)) {
            0 => ValidationResult::Valid,
            1 => ValidationResult::Invalid,
            _ => ValidationResult::Unknown,
        }
    }
}

pub type Eg = EGraph<Tl, SynthAnalysis>;

use crate::infra::Rng;
/// random expression text over the operators given as (name, arity)
pub fn rand_expr(r: &mut Rng, ops: &[(&str, usize)], leaves: &[&str], depth: usize) -> String {
    if depth == 0 || r.chance(1, 4) {
        return r.pick(leaves).to_string();
    }
    let (o, n) = *r.pick(ops);
    let mut s = format!("({}", o);
    for _ in 0..n {
        s.push(' ');
        s.push_str(&rand_expr(r, ops, leaves, depth - 1));
    }
    s + ")"
}
pub const OPS: [(&str, usize); 7] = [("+", 2), ("*", 2), ("/", 2), ("~", 1), ("bad", 1), ("h", 3), ("g", 1)];
pub const ARITH: [(&str, usize); 4] = [("+", 2), ("*", 2), ("/", 2), ("~", 1)];
