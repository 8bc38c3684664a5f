//! Function bodies. Every construct outside the list below is refused.
use crate::index::*;
use crate::types::*;
use crate::unit::{FnC, LoopC};
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

pub struct Em<'a> {
    pub ix: &'a RepoIndex,
    pub under: &'a BTreeMap<String, String>, // contract key -> callable name
    pub stubs: &'a BTreeSet<String>,
    pub fc: FnC,
    pub self_ty: Option<String>,
    pub selfs: Vec<String>,
    pub nloop: usize,
    pub tmp: usize,
    pub closures: Vec<(String, ExprClosure)>,
    pub inlining: Vec<String>,
    pub inlined: BTreeSet<String>,
    pub notes: BTreeSet<String>,
    pub extra_fns: Vec<String>,
    pub used_maps: BTreeSet<usize>,
    pub key: String,
    pub loop_depth: usize,
    /// depth of inlined bodies, where `return` would leave the wrong function
    pub noreturn: usize,
    pub cont: Vec<String>,
    pub generics: String,
    pub tys: BTreeMap<String, String>,
    /// kinds of the loops met, with the number of variables each changes
    pub shape: Vec<String>,
    /// parameters of type `impl Into<T>`
    pub intos: BTreeMap<String, String>,
    pub lifted: BTreeSet<String>,
}

enum Src {
    Iter(String),
    Own(String),
    Range(String, String, bool),
}
enum Ad<'a> {
    Map(&'a Expr),
    Filter(&'a Expr),
    FilterMap(&'a Expr),
    FlatMap(Option<&'a Expr>),
    Cloned,
    Enumerate,
    Zip(Box<Chain<'a>>),
    Rev,
    Skip(&'a Expr),
    Take(&'a Expr),
    Chained(Box<Chain<'a>>),
    Cartesian,
}
struct Chain<'a> {
    base: Base<'a>,
    ads: Vec<Ad<'a>>,
}
enum Base<'a> {
    Iter(&'a Expr),
    /// a collection handed over by a stub method, visited by reference
    Named(&'a Expr, String),
    Own(&'a Expr),
    Range(&'a ExprRange),
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}

/// is this method call chain an iterator?
fn chain(e: &Expr) -> Option<Chain<'_>> {
    match strip(e) {
        Expr::Range(r) if r.start.is_some() && r.end.is_some() => Some(Chain { base: Base::Range(r), ads: vec![] }),
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            let a = m.args.first();
            match n.as_str() {
                "iter" | "par_iter" if a.is_none() => return Some(Chain { base: Base::Iter(&m.receiver), ads: vec![] }),
                "into_iter" | "into_par_iter" if a.is_none() => {
                    return Some(chain(&m.receiver).unwrap_or(Chain { base: Base::Own(&m.receiver), ads: vec![] }))
                }
                "values" | "keys" | "chars" | "lines" | "classes" | "bytes" | "into_values" | "into_keys" | "split_whitespace" | "nodes_iter" if a.is_none() => {
                    return Some(Chain { base: Base::Named(&m.receiver, format!("v{}", n)), ads: vec![] })
                }
                "drain" => return Some(Chain { base: Base::Named(&m.receiver, "vdrain".into()), ads: vec![] }),
                _ => (),
            }
            let ad = match n.as_str() {
                "map" => Ad::Map(a?),
                "filter" => Ad::Filter(a?),
                "filter_map" => Ad::FilterMap(a?),
                "flat_map" => Ad::FlatMap(Some(a?)),
                "flatten" => Ad::FlatMap(None),
                "cloned" | "copied" => Ad::Cloned,
                "enumerate" => Ad::Enumerate,
                "zip" => Ad::Zip(Box::new(chain(a?).unwrap_or(Chain { base: Base::Own(a?), ads: vec![] }))),
                "rev" => Ad::Rev,
                "skip" => Ad::Skip(a?),
                "take" => Ad::Take(a?),
                "chain" => Ad::Chained(Box::new(chain(a?).unwrap_or(Chain { base: Base::Own(a?), ads: vec![] }))),
                "multi_cartesian_product" => Ad::Cartesian,
                _ => return None,
            };
            let mut c = chain(&m.receiver)?;
            c.ads.push(ad);
            Some(c)
        }
        _ => None,
    }
}

/// an iterator over elements (not a whole collection handed on)
pub fn lazy(e: &Expr) -> bool {
    match chain(e) {
        Some(c) => !matches!(c.base, Base::Named(_, ref n) if n == "vdrain") && (!c.ads.is_empty() || matches!(c.base, Base::Iter(_))),
        None => false,
    }
}

const MUTATORS: &[&str] = &[
    "push", "extend", "insert", "append", "remove", "retain", "add", "add_all", "pop", "clear", "add_expr", "add_from_recexprs", "union", "rebuild", "entry", "truncate", "dedup",
    "sort", "sort_by", "remove_all", "push_str", "swap", "reverse", "swap_remove", "add_from_strings", "vput", "minimize", "select", "shrink",
];

/// variables assigned or mutated in a block but declared outside, in order of first mention
pub fn mutated(b: &Block) -> Vec<String> {
    struct V {
        decl: BTreeSet<String>,
        out: Vec<String>,
    }
    impl V {
        fn hit(&mut self, e: &Expr) {
            let mut e = e;
            loop {
                match e {
                    Expr::Path(p) if p.path.segments.len() == 1 => {
                        let n = p.path.segments[0].ident.to_string();
                        if !self.decl.contains(&n) && !self.out.contains(&n) {
                            self.out.push(n);
                        }
                        return;
                    }
                    Expr::Field(f) => e = &f.base,
                    Expr::Index(f) => e = &f.expr,
                    Expr::Paren(f) => e = &f.expr,
                    Expr::Unary(f) => e = &f.expr,
                    Expr::MethodCall(m) => e = &m.receiver,
                    _ => return,
                }
            }
        }
    }
    impl<'b> syn::visit::Visit<'b> for V {
        fn visit_local(&mut self, l: &'b Local) {
            syn::visit::visit_local(self, l);
            let mut v = vec![];
            bound(&l.pat, &mut v);
            self.decl.extend(v);
        }
        fn visit_expr_assign(&mut self, a: &'b ExprAssign) {
            self.hit(&a.left);
            syn::visit::visit_expr_assign(self, a);
        }
        fn visit_expr_binary(&mut self, a: &'b ExprBinary) {
            if matches!(
                a.op,
                BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitXorAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_)
            ) {
                self.hit(&a.left);
            }
            syn::visit::visit_expr_binary(self, a);
        }
        fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
            syn::visit::visit_expr_method_call(self, m);
            if MUTATORS.contains(&m.method.to_string().as_str()) {
                self.hit(&m.receiver);
            }
        }
        fn visit_expr_reference(&mut self, r: &'b ExprReference) {
            if r.mutability.is_some() {
                self.hit(&r.expr);
            }
            syn::visit::visit_expr_reference(self, r);
        }
    }
    let mut v = V { decl: Default::default(), out: vec![] };
    syn::visit::Visit::visit_block(&mut v, b);
    v.out
}

fn has_return(b: &Expr) -> bool {
    struct V(bool);
    impl<'b> syn::visit::Visit<'b> for V {
        fn visit_expr_return(&mut self, _: &'b ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'b ExprTry) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'b ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, b);
    v.0
}
fn leading_break(b: &Block) -> Option<Expr> {
    match b.stmts.first()? {
        Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() => match &i.then_branch.stmts[..] {
            [Stmt::Expr(Expr::Break(b), _)] if b.label.is_none() && b.expr.is_none() && !matches!(*i.cond, Expr::Let(_)) => Some((*i.cond).clone()),
            _ => None,
        },
        _ => None,
    }
}
fn has_break(b: &Block) -> bool {
    struct V(bool);
    impl<'b> syn::visit::Visit<'b> for V {
        fn visit_expr_break(&mut self, _: &'b ExprBreak) {
            self.0 = true
        }
        fn visit_expr_while(&mut self, _: &'b ExprWhile) {}
        fn visit_expr_for_loop(&mut self, _: &'b ExprForLoop) {}
        fn visit_expr_loop(&mut self, _: &'b ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'b ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

struct LoopVars {
    acc: Vec<String>,
    i: String,
    s: String,
    t: String,
    lo: String,
    n: String,
}
impl LoopVars {
    fn fill(&self, s: &str) -> String {
        // $acc1.. before $acc
        let mut r = s.to_string();
        for (k, a) in self.acc.iter().enumerate().rev() {
            if k > 0 {
                r = r.replace(&format!("$acc{}", k), a);
            }
        }
        if let Some(a) = self.acc.first() {
            r = r.replace("$acc", a);
        }
        let done = if self.lo.is_empty() { format!("({} as nat)", self.i) } else { format!("(({} - {}) as nat)", self.i, self.lo) };
        r.replace("$done", &done).replace("$i", &format!("({} as nat)", self.i)).replace("$s", &self.s).replace("$t", &self.t).replace("$n", &self.n)
    }
}

impl<'a> Em<'a> {
    fn flag(&self, f: &str) -> bool {
        self.fc.flags.iter().any(|x| x == f)
    }
    /// an expression that is written to
    fn place(&mut self, e: &Expr) -> Res<String> {
        if !self.flag("index=trait") {
            return self.expr(e);
        }
        Ok(match strip(e) {
            Expr::Field(f) => format!("{}.{}", self.place(&f.base)?, toks(&f.member)),
            Expr::Index(i) if !matches!(strip(&i.index), Expr::Range(_)) => {
                let (b, k) = (self.place(&i.expr)?, self.expr(&i.index)?);
                format!("(*{}.vindex_mut({}))", b, k)
            }
            e => self.expr(e)?,
        })
    }
    /// a closure handed to a function of the repository or to a library function with a contract:
    /// its contract gives the types of its parameters (`vx_p0`, `vx_p1`, ...) and what it returns
    fn closure_arg(&mut self, name: &str, c: &ExprClosure) -> Res<String> {
        let fc = self.fc.closures.get(name).cloned().ok_or(format!("closure passed to {} has no contract", name))?;
        let (sig, _) = fc.sig.clone().ok_or("closure without types")?;
        let (ts, ret) = sig.split_once(" -> ").ok_or("closure types")?;
        let ts: Vec<&str> = ts.split(" ; ").map(|x| x.trim()).filter(|x| !x.is_empty()).collect();
        if ts.len() != c.inputs.len() {
            return Err(format!("closure passed to {} changed its parameters", name));
        }
        let mut lets = String::new();
        let mut ps = vec![];
        for (k, (p, t)) in c.inputs.iter().zip(&ts).enumerate() {
            ps.push(format!("vx_p{}: {}", k, t));
            lets.push_str(&format!("{}\n", let_pat(p, &format!("vx_p{}", k))?));
        }
        let cap = fc.flags.iter().find_map(|x| x.strip_prefix("captures=").map(|s| s.replace('~', " ")));
        if fc.flags.iter().any(|x| x == "lift") {
            let fname = format!("{}__{}", self.key.replace("::", "__").replace(['<', '>'], ""), name);
            let mut sub = self.sub(fc.clone(), &fname);
            let body = sub.body(&c.body)?;
            self.shape.push(format!("fn:{}", sub.shape.join("/")));
            self.notes.extend(sub.notes.iter().cloned());
            let mut all: Vec<String> = cap.iter().cloned().collect();
            all.extend(ps);
            let g = if self.generics.is_empty() { String::new() } else { self.generics.clone() };
            if !self.lifted.contains(&fname) {
                self.extra_fns.push(format!("//@fn {f}\n#[verifier::loop_isolation(false)]\nfn {f}{g}({p}) -> {r}\n{s}\n{{\n{l}{b}\n}}\n//@endfn\n", f = fname, g = g, p = all.join(", "), r = ret, s = fc.spec, l = lets, b = body));
                self.extra_fns.extend(sub.extra_fns);
                self.lifted.insert(fname.clone());
            }
            return Ok(match fc.flags.iter().find_map(|x| x.strip_prefix("as=").map(|s| s.replace('~', " "))) {
                Some(a) => a,
                None => fname,
            });
        }
        if has_return(&c.body) {
            return Err("closure returns early".into());
        }
        self.noreturn += 1;
        let b = self.expr(&c.body);
        self.noreturn -= 1;
        Ok(format!("|{}| -> {}\n{}\n{{\n{}{}\n{}\n}}", ps.join(", "), ret, fc.spec, lets, fc.entry, b?))
    }
    fn sub(&self, fc: FnC, key: &str) -> Em<'a> {
        Em {
            ix: self.ix,
            under: self.under,
            stubs: self.stubs,
            fc,
            self_ty: self.self_ty.clone(),
            selfs: vec![],
            nloop: 0,
            tmp: 0,
            closures: vec![],
            inlining: vec![],
            inlined: Default::default(),
            notes: Default::default(),
            extra_fns: vec![],
            used_maps: Default::default(),
            key: key.into(),
            loop_depth: 0,
            noreturn: 0,
            cont: vec![],
            generics: self.generics.clone(),
            tys: Default::default(),
            shape: vec![],
            intos: Default::default(),
            lifted: Default::default(),
        }
    }
    fn fresh(&mut self, p: &str) -> String {
        self.tmp += 1;
        format!("vx_{}{}", p, self.tmp)
    }
    fn note(&mut self, s: &str) {
        self.notes.insert(s.to_string());
    }

    pub fn block(&mut self, b: &Block) -> Res<String> {
        let nc = self.closures.len();
        let mut s = String::from("{\n");
        for (k, st) in b.stmts.iter().enumerate() {
            s.push_str(&self.stmt(st, k + 1 == b.stmts.len())?);
            s.push('\n');
        }
        self.closures.truncate(nc);
        s.push('}');
        Ok(s)
    }

    fn stmt(&mut self, st: &Stmt, _last: bool) -> Res<String> {
        Ok(match st {
            Stmt::Local(l) => {
                let (p, t) = match &l.pat {
                    Pat::Type(t) => (pat(&t.pat)?, Some((*t.ty).clone())),
                    p => (pat(p)?, None),
                };
                if let Some(init) = &l.init {
                    if let Expr::Closure(c) = strip(&init.expr) {
                        return self.local_closure(&p, c);
                    }
                    let mut e = self.expr_hint(&init.expr, t.as_ref())?;
                    let mut pre = String::new();
                    // a reference to a new value
                    if let Expr::Reference(r) = strip(&init.expr) {
                        if r.mutability.is_some() && matches!(strip(&r.expr), Expr::Call(_)) {
                            let v = self.fresh("own");
                            pre = format!("let mut {} = {};\n", v, self.expr(&r.expr)?);
                            e = format!("&mut {}", v);
                        }
                    }
                    let ann = match &t {
                        Some(t) if !toks(t).contains("impl") => format!(": {}", ty(t)?),
                        _ => String::new(),
                    };
                    match &init.diverge {
                        Some((_, d)) => {
                            let d = self.expr(d)?;
                            format!("let {}{} = {} else {{ {} }};", p, ann, e, d.trim_start_matches('{').trim_end_matches('}'))
                        }
                        // changed through shared references
                        None if e.starts_with("Z3Solver::") && matches!(l.pat, Pat::Ident(_)) => format!("let mut {} = {};", p.trim_start_matches("mut "), e),
                        None if ann.is_empty() && matches!(l.pat, Pat::Ident(_)) => format!("{}let {}/*@T:{}*/ = {};", pre, p, p.trim_start_matches("mut "), e),
                        None => format!("let {}{} = {};", p, ann, e),
                    }
                } else {
                    match &t {
                        Some(t) => format!("let {}: {};", p, ty(t)?),
                        None => format!("let {};", p),
                    }
                }
            }
            Stmt::Item(syn::Item::Use(_)) => String::new(),
            Stmt::Item(syn::Item::Const(c)) => format!("let {} = {};", c.ident, self.expr(&c.expr)?),
            // taken as a function of its own
            Stmt::Item(syn::Item::Fn(_)) => String::new(),
            Stmt::Item(_) => return Err("nested item".into()),
            Stmt::Expr(e, semi) => {
                let s = self.expr(e)?;
                if semi.is_some() {
                    format!("{};", s)
                } else {
                    s
                }
            }
            Stmt::Macro(m) => {
                let n = last(&m.mac.path);
                match n.as_str() {
                    "println" | "eprintln" | "print" | "eprint" | "dbg" => {
                        self.note("console output");
                        String::new()
                    }
                    _ => {
                        let s = self.mac(&m.mac, m.semi_token.is_some())?;
                        if m.semi_token.is_some() {
                            format!("{};", s)
                        } else {
                            s
                        }
                    }
                }
            }
        })
    }

    /// the closure a local name stands for
    fn bound_closure(&self, a: &Expr) -> Option<ExprClosure> {
        let p = match strip(a) {
            Expr::Path(p) => p.path.get_ident()?.to_string(),
            Expr::Reference(r) => return self.bound_closure(&r.expr),
            _ => return None,
        };
        self.closures.iter().rev().find(|(m, _)| *m == p).map(|(_, c)| c.clone()).filter(|c| c.attrs.is_empty())
    }

    /// a closure bound to a local: a function of its own when it has a contract, otherwise inlined where it is called
    fn local_closure(&mut self, name: &str, c: &ExprClosure) -> Res<String> {
        let name = name.trim_start_matches("mut ").to_string();
        if let Some(fc) = self.fc.closures.get(&name).cloned() {
            let fname = format!("{}__{}", self.key.replace("::", "__"), name);
            let mut sub = self.sub(fc.clone(), &fname);
            let mut ps = vec![];
            for p in &c.inputs {
                match p {
                    Pat::Type(t) => ps.push(format!("{}: {}", pat(&t.pat)?, ty(&t.ty)?)),
                    p => match &fc.sig {
                        Some(_) => ps.push(pat(p)?),
                        None => return Err(format!("closure {} parameter without a type", name)),
                    },
                }
            }
            let ret = match &c.output {
                ReturnType::Type(_, t) => format!(" -> (r: {})", ty(t)?),
                _ => " -> (r: bool)".into(),
            };
            let sig = match &fc.sig {
                Some((s, _)) => format!("fn {}{}", fname, s),
                None => format!("fn {}{}({}){}", fname, self.generics, ps.join(", "), ret),
            };
            let body = sub.body(&c.body)?;
            self.shape.push(format!("fn:{}", sub.shape.join("/")));
            self.notes.extend(sub.notes.iter().cloned());
            self.extra_fns.push(format!("//@fn {}\n#[verifier::loop_isolation(false)]\n{}\n{}\n{}\n//@endfn\n", fname, sig, fc.spec, body));
            self.extra_fns.extend(sub.extra_fns);
            self.closures.push((name, c.clone()));
            let k = self.closures.len() - 1;
            // marked as a function
            self.closures[k].1.attrs = vec![parse_quote!(#[vx_fn])];
            return Ok(String::new());
        }
        if has_return(&c.body) {
            return Err(format!("closure {} returns early", name));
        }
        self.closures.push((name, c.clone()));
        Ok(String::new())
    }

    /// function body with the contract's entry and exit text
    pub fn body(&mut self, e: &Expr) -> Res<String> {
        let mut s = self.body0(e)?;
        // types of accumulators, where a loop states them
        while let Some(a) = s.find("/*@T:") {
            let b = a + s[a..].find("*/").unwrap();
            let t = match self.tys.get(&s[a + 5..b]) {
                Some(t) if t != "_" => format!(": {}", t),
                _ => String::new(),
            };
            s.replace_range(a..b + 2, &t);
        }
        // the letters of the texts in the body
        if self.flag("strlits") {
            let mut lits = std::collections::BTreeSet::new();
            let mut rest = &s[..];
            while let Some(a) = rest.find("vx_str(\"") {
                let t = &rest[a + 7..];
                let mut esc = false;
                let n = t[1..].find(|c: char| { let end = c == '"' && !esc; esc = c == '\\' && !esc; end }).map_or(t.len(), |n| n + 2);
                lits.insert(t[..n].to_string());
                rest = &t[n..];
            }
            let r: String = lits.iter().map(|l| format!("reveal_strlit({}); ", l)).collect();
            s = format!("{{ proof {{ {} }}\n{}", r, &s[1..]);
        }
        Ok(s)
    }
    fn body0(&mut self, e: &Expr) -> Res<String> {
        let inner = match e {
            Expr::Block(b) => self.block(&b.block)?,
            e => format!("{{ {} }}", self.expr(e)?),
        };
        let (en, ex) = (self.fc.entry.clone(), self.fc.exit.clone());
        if ex.trim().is_empty() && en.trim().is_empty() {
            return Ok(inner);
        }
        if ex.trim().is_empty() {
            return Ok(format!("{{\n{}\n{}", en, &inner[1..]));
        }
        Ok(format!("{{\n{}\nlet vx_r = {};\n{}\nvx_r\n}}", en, inner, ex.replace("$r", "vx_r")))
    }

    pub fn expr(&mut self, e: &Expr) -> Res<String> {
        self.expr_hint(e, None)
    }

    fn args(&mut self, a: &syn::punctuated::Punctuated<Expr, Token![,]>) -> Res<Vec<String>> {
        a.iter().map(|x| self.expr(x)).collect()
    }

    fn expr_hint(&mut self, e: &Expr, hint: Option<&Type>) -> Res<String> {
        if !self.fc.maps.is_empty() {
            let t = toks(e);
            for (k, (a, b)) in self.fc.maps.clone().iter().enumerate() {
                let want = a.parse::<proc_macro2::TokenStream>().map_err(|_| "map")?.to_string();
                if t == want {
                    self.used_maps.insert(k);
                    self.note(&format!("`{}` is taken as `{}`", a, b));
                    return Ok(b.clone());
                }
            }
        }
        Ok(match e {
            Expr::Paren(p) => format!("({})", self.expr_hint(&p.expr, hint)?),
            Expr::Group(p) => self.expr_hint(&p.expr, hint)?,
            Expr::Lit(l) => match &l.lit {
                Lit::Str(s) => format!("vx_str({})", toks(s)),
                l => toks(l),
            },
            Expr::Path(p) => {
                let s = if p.qself.is_some() { toks(p) } else { path(&p.path)? };
                if s == "self" {
                    self.selfs.last().cloned().unwrap_or(s)
                } else {
                    // a constant of the repository
                    let key = match (&self.self_ty, s.strip_prefix("Self::")) {
                        (Some(t), Some(m)) => format!("{}::{}", base_ty(t), m),
                        _ => path_key(&s),
                    };
                    match self.ix.fns.get(&key) {
                        Some(fs) if fs.len() == 1 && fs[0].is_const => {
                            if self.under.contains_key(&key) {
                                format!("{}()", s)
                            } else {
                                self.inline_fn(&fs[0].clone(), None, &[])?
                            }
                        }
                        _ => s,
                    }
                }
            }
            Expr::Block(b) => self.block(&b.block)?,
            Expr::Unsafe(_) => return Err("unsafe block".into()),
            Expr::Tuple(t) => format!("({})", t.elems.iter().map(|x| self.expr(x).map(|s| s + ",")).collect::<Res<Vec<_>>>()?.join(" ")),
            Expr::Array(a) => {
                let v = self.args(&a.elems)?;
                format!("[{}]", v.join(", "))
            }
            Expr::Field(f) => format!("{}.{}", self.expr(&f.base)?, toks(&f.member)),
            Expr::Index(i) => {
                if let Expr::Range(r) = strip(&i.index) {
                    let a = match &r.start {
                        Some(x) => self.expr(x)?,
                        None => "0".into(),
                    };
                    let b = self.expr(&i.expr)?;
                    return match &r.end {
                        Some(x) => {
                            let c = self.expr(x)?;
                            let c = if matches!(r.limits, RangeLimits::Closed(_)) { format!("{} + 1", c) } else { c };
                            Ok(format!("(*vx_slice{}(&{}, {}, {}))", if self.flag("panics-ok") { "_p" } else { "" }, b, a, c))
                        }
                        None => Ok(format!("(*vx_slice_from{}(&{}, {}))", if self.flag("panics-ok") { "_p" } else { "" }, b, a)),
                    };
                }
                if self.flag("index=trait") {
                    let (b, k) = (self.expr(&i.expr)?, self.expr(&i.index)?);
                    return Ok(format!("(*{}.vindex({}))", b, k));
                }
                format!("{}[{}]", self.expr(&i.expr)?, self.expr(&i.index)?)
            }
            Expr::Reference(r) => {
                if r.mutability.is_some() {
                    format!("&mut {}", self.place(&r.expr)?)
                } else {
                    format!("&{}", self.expr(&r.expr)?)
                }
            }
            Expr::Unary(u) => {
                let x = self.expr(&u.expr)?;
                match u.op {
                    UnOp::Deref(_) => format!("*{}", x),
                    UnOp::Not(_) if self.fc.flags.iter().any(|x| x == "ops=trait") => format!("({}).not()", x),
                    UnOp::Not(_) => format!("!{}", x),
                    UnOp::Neg(_) => format!("-{}", x),
                    _ => return Err("operator".into()),
                }
            }
            Expr::Cast(c) => format!("({} as {})", self.expr(&c.expr)?, ty(&c.ty)?),
            Expr::Binary(b) => {
                let asg = toks(&b.op).ends_with('=') && !matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_));
                let (l, r) = (if asg { self.place(&b.left)? } else { self.expr(&b.left)? }, self.expr(&b.right)?);
                match b.op {
                    BinOp::Eq(_) => format!("vx_eq(&({}), &({}))", l, r),
                    BinOp::Ne(_) => format!("(!vx_eq(&({}), &({})))", l, r),
                    BinOp::BitAnd(_) if self.fc.flags.iter().any(|x| x == "ops=trait") => format!("({}).bitand({})", l, r),
                    BinOp::BitOr(_) if self.fc.flags.iter().any(|x| x == "ops=trait") => format!("({}).bitor({})", l, r),
                    BinOp::BitXor(_) if self.fc.flags.iter().any(|x| x == "ops=trait") => format!("({}).bitxor({})", l, r),
                    _ => format!("{} {} {}", l, toks(&b.op), r),
                }
            }
            Expr::Assign(a) => format!("{} = {}", self.place(&a.left)?, self.expr(&a.right)?),
            Expr::If(i) => {
                let c = self.expr(&i.cond)?;
                let t = self.block(&i.then_branch)?;
                match &i.else_branch {
                    Some((_, e)) => format!("if {} {} else {}", c, t, self.expr(e)?),
                    None => format!("if {} {}", c, t),
                }
            }
            Expr::Let(l) => format!("let {} = {}", pat(&l.pat)?, self.expr(&l.expr)?),
            Expr::Match(m) => {
                let s = self.expr(&m.expr)?;
                let mut out = format!("match {} {{\n", s);
                for a in &m.arms {
                    let g = match &a.guard {
                        Some((_, g)) => format!(" if {}", self.expr(g)?),
                        None => String::new(),
                    };
                    let b = self.expr(&a.body)?;
                    out.push_str(&format!("{}{} => {{ {} }},\n", pat(&a.pat)?, g, b));
                }
                out.push('}');
                out
            }
            Expr::Return(r) => {
                if self.noreturn > 0 {
                    return Err("return inside an inlined body".into());
                }
                match &r.expr {
                    Some(x) => {
                        let v = self.expr(x)?;
                        if self.fc.exit.trim().is_empty() {
                            format!("return {}", v)
                        } else {
                            format!("{{ let vx_r = {}; {} return vx_r; }}", v, self.fc.exit.replace("$r", "vx_r"))
                        }
                    }
                    None => "return".into(),
                }
            }
            Expr::Try(t) => {
                if self.noreturn > 0 {
                    return Err("? inside an inlined body".into());
                }
                format!("{}?", self.expr(&t.expr)?)
            }
            Expr::Break(b) => {
                if b.label.is_some() || b.expr.is_some() {
                    return Err("labelled break".into());
                }
                "break".into()
            }
            Expr::Continue(c) => {
                if c.label.is_some() {
                    return Err("labelled continue".into());
                }
                match self.cont.last() {
                    Some(t) if !t.trim().is_empty() => format!("{{ {} continue }}", t),
                    _ => "continue".into(),
                }
            }
            Expr::Struct(s) => {
                let mut fs = vec![];
                for f in &s.fields {
                    let v = self.expr(&f.expr)?;
                    fs.push(format!("{}: {}", toks(&f.member), v));
                }
                if let Some(r) = &s.rest {
                    fs.push(format!("..{}", self.expr(r)?));
                }
                format!("{} {{ {} }}", path(&s.path)?, fs.join(", "))
            }
            Expr::Macro(m) => self.mac(&m.mac, false)?,
            // `loop { if c { break; } rest }` is `while !c { rest }`
            Expr::Loop(l) if l.label.is_none() && leading_break(&l.body).is_some() => {
                let c = leading_break(&l.body).unwrap();
                let rest = Block { brace_token: l.body.brace_token, stmts: l.body.stmts[1..].to_vec() };
                let w: ExprWhile = parse_quote!(while !(#c) #rest);
                self.expr(&Expr::While(w))?
            }
            Expr::While(w) => {
                let (mut before, mut lc, k) = self.next_loop();
                self.shape.push(format!("while:{}", mutated(&w.body).len()));
                for (a, t) in mutated(&w.body).iter().zip(&lc.ty) {
                    self.tys.insert(a.clone(), t.clone());
                }
                let lv = LoopVars { acc: mutated(&w.body), i: "0".into(), s: String::new(), t: String::new(), n: String::new(), lo: String::new() };
                let c = self.expr(&w.cond)?;
                self.cont.push(lv.fill(&lc.tail));
                let body = self.block(&w.body);
                self.cont.pop();
                let body = body?;
                let dec = if lc.dec.is_empty() { "0int".to_string() } else { lv.fill(&lc.dec) };
                before = lv.fill(&before);
                let _ = k;
                lc.body = lv.fill(&lc.body);
                let inv = self.invs(&lc, &lv, &[], false);
                let att = if lc.ens.is_empty() { "" } else { "#[verifier::allow_complex_invariants]\n" };
                format!("{{ {}\n{}while {}\n{} decreases {}\n{{ {}\n{}\n{} }}\n{} }}", before, att, c, inv, dec, lc.body, body, lv.fill(&lc.tail), lv.fill(&lc.after))
            }
            Expr::ForLoop(f) => {
                let c = match chain(&f.expr) {
                    Some(c) => c,
                    None => Chain { base: Base::Own(&f.expr), ads: vec![] },
                };
                let acc = mutated(&f.body);
                let p = f.pat.clone();
                let hb = has_break(&f.body);
                let body = f.body.clone();
                self.run_chain(&c, acc, String::new(), String::new(), hb, &mut |em, cur| {
                    let b = em.block(&body)?;
                    Ok(format!("{}\n{};", let_pat(&p, cur)?, b))
                })?
            }
            Expr::Call(c) => self.call(c)?,
            // an iterator that is not consumed on the spot: its elements, computed now
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "map" | "filter" | "filter_map" | "flat_map" | "enumerate") && chain(e).is_some() => {
                let c = chain(e).unwrap();
                self.collect(&c, "Vec")?
            }
            Expr::MethodCall(m) => self.method(m, hint)?,
            Expr::Closure(_) => return Err("closure in value position".into()),
            Expr::Range(_) => return Err("range in value position".into()),
            _ => return Err(format!("expression `{}`", toks(e).chars().take(80).collect::<String>())),
        })
    }

    fn next_loop(&mut self) -> (String, LoopC, usize) {
        let k = self.nloop;
        self.nloop += 1;
        let lc = self.fc.loops.get(&k).or(self.fc.loops.get(&usize::MAX)).cloned().unwrap_or_default();
        (lc.before.clone(), lc, k)
    }
    fn invs(&self, lc: &LoopC, lv: &LoopVars, auto: &[String], brk: bool) -> String {
        let mut s = String::new();
        let mut put = |k: &str, v: Vec<String>| {
            if !v.is_empty() {
                s.push_str(&format!("{}\n", k));
                for x in v {
                    s.push_str(&format!("    {},\n", x));
                }
            }
        };
        let mut v: Vec<String> = auto.to_vec();
        v.extend(lc.inv.iter().map(|x| lv.fill(x)));
        put(if brk { "invariant_except_break" } else { "invariant" }, v);
        put("ensures", lc.ens.iter().map(|x| lv.fill(x)).collect());
        s
    }

    /// `{ decls; loop over the chain; result }`
    fn run_chain(&mut self, c: &Chain, acc: Vec<String>, decls: String, result: String, brk: bool, term: &mut dyn FnMut(&mut Self, &str) -> Res<String>) -> Res<String> {
        // a cartesian product materialises what comes before it
        if let Some(k) = c.ads.iter().position(|a| matches!(a, Ad::Cartesian)) {
            let pre = Chain { base: copy_base(&c.base), ads: c.ads[..k].iter().map(copy_ad).collect() };
            let v = self.collect(&pre, "Vec")?;
            let n = self.fresh("prod");
            let post = Chain { base: Base::Range(&DUMMY.with(|d| *d)), ads: c.ads[k + 1..].iter().map(copy_ad).collect() };
            self.note("itertools multi_cartesian_product by its contract");
            let inner = self.run_src(Src::Own(n.clone()), &post, acc, String::new(), String::new(), brk, term)?;
            let whole = format!("{{ {}\nlet {} = vx_cartesian({});\n{}\n{} }}", decls, n, v, inner, result);
            return Ok(if result.is_empty() { whole } else { format!("({})", whole) });
        }
        if let Some(Ad::Chained(o)) = c.ads.first() {
            let mut side = |em: &mut Self, b: &Base| -> Res<String> {
                Ok(match b {
                    Base::Iter(e) => format!("{}.viter()", em.expr(e)?),
                    Base::Named(e, n) => format!("{}.{}()", em.expr(e)?, n),
                    Base::Own(e) => em.expr(e)?,
                    Base::Range(_) => return Err("chain of ranges".into()),
                })
            };
            if !o.ads.is_empty() {
                return Err("iterator adapter".into());
            }
            let (a, b) = (side(self, &c.base)?, side(self, &o.base)?);
            let rest = Chain { base: Base::Range(&DUMMY.with(|d| *d)), ads: c.ads[1..].iter().map(copy_ad).collect() };
            return self.run_src(Src::Own(format!("vx_chain({}, {})", a, b)), &rest, acc, decls, result, brk, term);
        }
        let mut decls = decls;
        let src = match &c.base {
            Base::Iter(e) if matches!(strip(e), Expr::Call(_)) => {
                let (b, v) = (self.fresh("b"), self.expr(e)?);
                decls = format!("{}let {} = {};\n", decls, b, v);
                Src::Iter(format!("{}.viter()", b))
            }
            Base::Iter(e) => Src::Iter(format!("{}.viter()", self.expr(e)?)),
            Base::Named(e, n) => Src::Iter(format!("{}.{}()", self.expr(e)?, n)),
            Base::Own(e) => match strip(e) {
                Expr::Reference(r) if r.mutability.is_none() && matches!(strip(&r.expr), Expr::MethodCall(_) | Expr::Call(_)) => {
                    let (b, v) = (self.fresh("b"), self.expr(&r.expr)?);
                    decls = format!("{}let {} = {};\n", decls, b, v);
                    Src::Iter(format!("{}.viter()", b))
                }
                Expr::Reference(r) if r.mutability.is_none() => Src::Iter(format!("{}.viter()", self.expr(&r.expr)?)),
                Expr::Array(a) => {
                    let v = self.args(&a.elems)?;
                    Src::Own(vec_of(&v))
                }
                e => Src::Own(self.expr(e)?),
            },
            Base::Range(r) => {
                let (a, b) = (self.expr(r.start.as_ref().unwrap())?, self.expr(r.end.as_ref().unwrap())?);
                Src::Range(a, b, matches!(r.limits, RangeLimits::Closed(_)))
            }
        };
        self.run_src(src, c, acc, decls, result, brk, term)
    }

    fn run_src(&mut self, src: Src, c: &Chain, acc: Vec<String>, decls: String, result: String, brk: bool, term: &mut dyn FnMut(&mut Self, &str) -> Res<String>) -> Res<String> {
        let (before, lc, _) = self.next_loop();
        self.shape.push(format!("{}:{}", match &src { Src::Range(..) => "range", _ => "each" }, acc.len()));
        for (a, t) in acc.iter().zip(&lc.ty) {
            self.tys.insert(a.clone(), t.clone());
        }
        let k = self.fresh("");
        let k = k.trim_start_matches("vx_").to_string();
        let (s, i, n, x) = (format!("vx_s{}", k), format!("vx_i{}", k), format!("vx_n{}", k), format!("vx_x{}", k));
        let mut pre = String::new();
        let mut auto = vec![];
        let mut lv = LoopVars { acc, i: i.clone(), s: String::new(), t: String::new(), n: n.clone(), lo: String::new() };
        let get;
        match src {
            Src::Iter(e) => {
                pre.push_str(&format!("let {} = {};\nlet {} = {}.len();\nlet mut {}: usize = 0;\n", s, e, n, s, i));
                lv.s = format!("{}@", s);
                get = format!("{}.vget(%)", s);
                auto.push(format!("{} <= {}", i, n));
            }
            Src::Own(e) => {
                pre.push_str(&format!("let {} = {};\nlet {} = VSeq::vlen(&{});\nlet mut {}: usize = 0;\n", s, e, n, s, i));
                lv.s = format!("VSeq::vseq(&{})", s);
                get = format!("VSeq::vtake(&{}, %)", s);
                auto.push(format!("{} <= {}", i, n));
            }
            Src::Range(a, b, incl) => {
                pre.push_str(&format!("let vx_lo{k}: usize = {a};\nlet {n}: usize = {b}{plus};\nlet mut {i}: usize = vx_lo{k};\n", k = k, a = a, n = n, b = b, plus = if incl { " + 1" } else { "" }, i = i));
                get = "%".into();
                lv.lo = format!("vx_lo{}", k);
                auto.push(format!("vx_lo{k} <= {n} ==> {i} <= {n}", k = k, n = n, i = i));
                auto.push(format!("vx_lo{k} <= {i}", k = k, i = i));
            }
        }
        // adapters
        let mut body = String::new();
        let mut close = 0;
        let mut idx = i.clone();
        let mut cur = x.clone();
        let mut first = true;
        let mut ads: Vec<&Ad> = c.ads.iter().collect();
        let mut idxexpr = format!("{}", idx);
        while let Some(a) = ads.first() {
            match a {
                Ad::Rev => {
                    if get == "%" {
                        idxexpr = format!("({} - 1 - ({} - vx_lo{}))", n, idx, k);
                    } else {
                        idxexpr = format!("({} - 1 - {})", n, idx);
                    }
                }
                Ad::Skip(e) if idxexpr == idx => {
                    let v = self.expr(e)?;
                    pre.push_str(&format!("{} = vx_min({}, {});\n", idx, v, n));
                }
                Ad::Take(e) if idxexpr == idx && get != "%" => {
                    let v = self.expr(e)?;
                    pre.push_str(&format!("let {n} = vx_min({v}, {n});\n", n = n, v = v));
                }
                _ => break,
            }
            ads.remove(0);
        }
        body.push_str(&format!("let {} = {};\n", x, get.replace('%', &idxexpr)));
        body.push_str(&format!("{} = {} + 1;\n", idx, idx));
        let mut flat: Option<(String, usize)> = None;
        let mut j = 0;
        while j < ads.len() {
            let a = ads[j];
            j += 1;
            let y = self.fresh("y");
            match a {
                Ad::Map(f) => {
                    let v = self.apply(f, &[cur.clone()])?;
                    body.push_str(&format!("let {} = {};\n", y, v));
                    cur = y;
                }
                Ad::Filter(f) => {
                    let v = self.apply(f, &[format!("&{}", cur)])?;
                    body.push_str(&format!("if {} {{\n", v));
                    close += 1;
                }
                Ad::FilterMap(f) => {
                    let v = self.apply(f, &[cur.clone()])?;
                    body.push_str(&format!("if let Some({}) = {} {{\n", y, v));
                    close += 1;
                    cur = y;
                }
                Ad::Cloned => {
                    body.push_str(&format!("let {} = {}.vclone();\n", y, cur));
                    cur = y;
                }
                Ad::Enumerate if close == 0 => {
                    body.push_str(&format!("let {} = (({} - 1) as usize, {});\n", y, i, cur));
                    cur = y;
                }
                Ad::Zip(o) if close == 0 && first && o.ads.is_empty() => {
                    let t = format!("vx_t{}", k);
                    let (e, own) = match &o.base {
                        Base::Iter(e) => (format!("{}.viter()", self.expr(e)?), false),
                        Base::Named(e, m) => (format!("{}.{}()", self.expr(e)?, m), false),
                        Base::Own(e) => match strip(e) {
                            Expr::Reference(r) => (format!("{}.viter()", self.expr(&r.expr)?), false),
                            e => (self.expr(e)?, true),
                        },
                        Base::Range(_) => return Err("zip with a range".into()),
                    };
                    pre.push_str(&format!("let {} = {};\nlet {n} = vx_min({n}, {t}.{l}());\n", t, e, n = n, t = t, l = if own { "vlen" } else { "len" }));
                    lv.t = if own { format!("VSeq::vseq(&{})", t) } else { format!("{}@", t) };
                    body.push_str(&if own { format!("let {} = ({}, VSeq::vtake(&{}, {} - 1));\n", y, cur, t, i) } else { format!("let {} = ({}, {}.vget({} - 1));\n", y, cur, t, i) });
                    cur = y;
                }
                Ad::FlatMap(f) => {
                    let v = match f {
                        Some(f) => self.apply(f, &[cur.clone()])?,
                        None => cur.clone(),
                    };
                    flat = Some((v, j));
                    break;
                }
                _ => return Err("iterator adapter".into()),
            }
            first = false;
        }
        let t = match flat {
            None => {
                self.cont.push(lv.fill(&lc.tail));
                let t = term(self, &cur);
                self.cont.pop();
                t?
            }
            Some((v, j)) => {
                let d = DUMMY.with(|d| *d);
                let rest = Chain { base: Base::Range(d), ads: ads[j..].iter().map(|a| copy_ad(a)).collect() };
                let acc = lv.acc.clone();
                self.run_src(Src::Own(v), &rest, acc, String::new(), String::new(), brk, term)?
            }
        };
        body.push_str(&t);
        for _ in 0..close {
            body.push_str("\n}");
        }
        let inv = self.invs(&lc, &lv, &auto, brk);
        let dec = if lc.dec.is_empty() { format!("{} - {}", n, i) } else { lv.fill(&lc.dec) };
        let val = !result.is_empty();
        let whole = format!(
            "{{ {}\n{}{}\nwhile {} < {}\n{} decreases {}\n{{\n{}\n{}\n{}\n}}\n{}\n{} }}",
            decls,
            pre,
            lv.fill(&before),
            i,
            n,
            inv,
            dec,
            lv.fill(&lc.body),
            body,
            lv.fill(&lc.tail),
            lv.fill(&lc.after),
            result
        );
        Ok(if val { format!("({})", whole) } else { whole })
    }

    fn collect(&mut self, c: &Chain, target: &str) -> Res<String> {
        let acc = self.fresh("acc");
        let new = match target {
            "Vec" => "Vec::new()".to_string(),
            t => format!("{}::vnew()", t),
        };
        let a2 = acc.clone();
        let put = if target == "Vec" { "push" } else { "vput" };
        self.run_chain(c, vec![acc.clone()], format!("let mut {}/*@T:{}*/ = {};", acc, acc, new), acc.clone(), false, &mut |_, cur| Ok(format!("{}.{}({});", a2, put, cur)))
    }

    /// applies a closure or function value to arguments
    fn apply(&mut self, f: &Expr, args: &[String]) -> Res<String> {
        match strip(f) {
            Expr::Closure(c) => self.inline(c, args),
            Expr::Path(p) => {
                let n = path(&p.path)?;
                if let Some((_, c)) = self.closures.iter().rev().find(|(m, _)| *m == n).cloned() {
                    return self.call_closure(&n, &c, args);
                }
                match n.as_str() {
                    "String::from" | "ToString::to_string" => return Ok(format!("{}.vto_string()", args[0])),
                    _ => (),
                }
                self.call_named(&n, args)
            }
            _ => Err("function value".into()),
        }
    }
    fn call_closure(&mut self, n: &str, c: &ExprClosure, args: &[String]) -> Res<String> {
        if c.attrs.is_empty() {
            self.inline(c, args)
        } else {
            let tf = if self.generics.is_empty() { String::new() } else { format!("::{}", strip_bounds(&self.generics)) };
            let mut args = args.to_vec();
            if let Some(e) = self.fc.closures.get(n).and_then(|fc| fc.flags.iter().find_map(|x| x.strip_prefix("as=").map(|s| s.replace('~', " ")))) {
                args.push(e);
            }
            Ok(format!("{}__{}{}({})", self.key.replace("::", "__"), n, tf, args.join(", ")))
        }
    }
    fn inline(&mut self, c: &ExprClosure, args: &[String]) -> Res<String> {
        if has_return(&c.body) {
            return Err("closure returns early".into());
        }
        if c.inputs.len() != args.len() {
            return Err("closure arity".into());
        }
        let mut s = String::from("({ ");
        let mut tmp = vec![];
        for a in args {
            let t = self.fresh("a");
            s.push_str(&format!("let {} = {}; ", t, a));
            tmp.push(t);
        }
        for (p, t) in c.inputs.iter().zip(&tmp) {
            s.push_str(&format!("{} ", let_pat(p, t)?));
        }
        self.noreturn += 1;
        let b = self.expr(&c.body);
        self.noreturn -= 1;
        s.push_str(&b?);
        s.push_str(" })");
        Ok(s)
    }

    fn call_named(&mut self, n: &str, args: &[String]) -> Res<String> {
        // functions of the repository
        let key = match (&self.self_ty, n.strip_prefix("Self::")) {
            (Some(t), Some(m)) => format!("{}::{}", base_ty(t), m),
            _ => {
                let mut parts: Vec<&str> = n.split("::").filter(|s| !s.starts_with('<')).collect();
                if parts.len() > 2 {
                    parts = parts[parts.len() - 2..].to_vec();
                }
                parts.join("::")
            }
        };
        if let Some(c) = self.under.get(&key) {
            let _ = c;
            let n2 = if c.starts_with("fn:") { self.turbo(n, c) } else { n.to_string() };
            return Ok(format!("{}({})", n2, args.join(", ")));
        }
        let short = key.rsplit("::").next().unwrap().to_string();
        if self.stubs.contains(&key) || self.stubs.contains(&short) {
            return Ok(format!("{}({})", n, args.join(", ")));
        }
        if let Some(fs) = self.ix.fns.get(&key) {
            if fs.len() == 1 {
                return self.inline_fn(&fs[0].clone(), None, args);
            }
            return Err(format!("call of {}", n));
        }
        // a constructor, a library function or a local
        Ok(format!("{}({})", n, args.join(", ")))
    }
    fn turbo(&self, n: &str, c: &str) -> String {
        let _ = n;
        c[3..].to_string()
    }

    fn inline_fn(&mut self, f: &FnItem, recv: Option<String>, args: &[String]) -> Res<String> {
        if self.inlining.contains(&f.key) || f.key == self.key {
            return Err(format!("recursive function {} has no contract", f.key));
        }
        if has_return(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: f.block.clone() })) {
            return Err(format!("function {} has no contract and returns early", f.key));
        }
        self.inlining.push(f.key.clone());
        self.inlined.insert(f.key.clone());
        let mut s = String::from("{ ");
        let mut lets = String::new();
        let mut me = None;
        let mut k = 0;
        for p in &f.sig.inputs {
            match p {
                FnArg::Receiver(r) => {
                    let v = match &recv {
                        Some(v) => v.clone(),
                        None => {
                            k += 1;
                            args[k - 1].clone()
                        }
                    };
                    let n = self.fresh("self");
                    let by = if r.reference.is_some() && recv.is_some() {
                        if r.mutability.is_some() { "&mut " } else { "&" }
                    } else {
                        ""
                    };
                    let m = if r.reference.is_none() && r.mutability.is_some() { "mut " } else { "" };
                    s.push_str(&format!("let {}{} = {}{}; ", m, n, by, v));
                    me = Some(n);
                }
                FnArg::Typed(t) => {
                    let n = self.fresh("a");
                    s.push_str(&format!("let {} = {}; ", n, args.get(k).ok_or("arity")?));
                    let ann = match &*t.ty {
                        Type::ImplTrait(_) => String::new(),
                        _ => match ty(&t.ty) {
                            Ok(s) if f.sig.generics.params.is_empty() && !s.contains("Self") => format!(": {}", s),
                            _ => String::new(),
                        },
                    };
                    lets.push_str(&format!("let {}{} = {}; ", pat(&t.pat)?, ann, n));
                    k += 1;
                }
            }
        }
        s.push_str(&lets);
        let old_ty = self.self_ty.clone();
        self.self_ty = f.self_ty.clone();
        let nc = std::mem::take(&mut self.closures);
        let maps = self.fc.maps.clone();
        if let Some(m) = me {
            self.selfs.push(m);
        } else {
            self.selfs.push("self".into());
        }
        self.noreturn += 1;
        let b = self.block(&f.block);
        self.noreturn -= 1;
        self.selfs.pop();
        self.fc.maps = maps;
        self.closures = nc;
        self.self_ty = old_ty;
        self.inlining.pop();
        s.push_str(&b?);
        s.push_str(" }");
        Ok(s)
    }

    fn call(&mut self, c: &ExprCall) -> Res<String> {
        let f = strip(&c.func);
        let p = match f {
            Expr::Path(p) => p,
            Expr::Closure(_) => {
                let a = self.args(&c.args)?;
                return self.apply(f, &a);
            }
            _ => return Err("call of a value".into()),
        };
        let n = if p.qself.is_some() { toks(p) } else { path(&p.path)? };
        let mut args = self.args(&c.args)?;
        if self.flag("world") && self.stubs.contains(&format!("~{}", n)) {
            args.push("vx_w".into());
        }
        if let Some((_, cl)) = self.closures.iter().rev().find(|(m, _)| *m == n).cloned() {
            return self.call_closure(&n, &cl, &args);
        }
        match n.as_str() {
            "String::new" => return Ok("vx_str(\"\")".into()),
            "String::from" => return Ok(format!("{}.vto_string()", args[0])),
            "Box::new" | "Some" | "Ok" | "Err" | "Vec::new" => (),
            "Arc::new" | "Rc::new" => return Ok(args[0].clone()),
            "Default::default" => return Ok("VNew::vnew()".into()),
            "usize::max" | "max" => return Ok(format!("vx_max({})", args.join(", "))),
            "usize::min" | "min" => return Ok(format!("vx_min({})", args.join(", "))),
            "i32::max" | "i32::min" => return Ok(format!("vx_{}_i32({})", &n[5..], args.join(", "))),
            "Vec::with_capacity" => return Ok("Vec::new()".into()),
            _ if n.ends_with("::from_str_radix") => return Ok(format!("vx_from_str_radix({})", args.join(", "))),
            "Instant::now" => return Ok("vx_now()".into()),
            "take" if toks(&p.path).contains("mem") => return Ok(format!("vx_take({})", args[0])),
            "swap" if toks(&p.path).contains("mem") => return Ok(format!("vx_swap({})", args.join(", "))),
            "replace" if toks(&p.path).contains("mem") => return Ok(format!("vx_replace({})", args.join(", "))),
            _ => {
                if let "HashMap::default" | "IndexMap::default" | "HashSet::default" | "HashMap::new" | "IndexMap::new" | "HashSet::new" = n.as_str() {
                    return Ok(format!("{}::vnew()", n.split("::").next().unwrap()));
                }
                if let Some(t) = n.strip_suffix("::default") {
                    return Ok(format!("<{} as VNew>::vnew()", t.replace("::<", "<")));
                }
                if n.ends_with("::from") && self.ix.fns.keys().all(|k| !k.starts_with(n.trim_end_matches("::from"))) {
                    let t = n.trim_end_matches("::from");
                    if matches!(t, "usize" | "Id" | "RecExpr" | "PatternAst") {
                        return Ok(format!("VInto::<{}>::vinto({})", t, args[0]));
                    }
                    return Ok(format!("{}.vinto()", args[0]));
                }
            }
        }
        self.call_named(&n, &args)
    }

    fn method(&mut self, m: &ExprMethodCall, hint: Option<&Type>) -> Res<String> {
        let n = m.method.to_string();
        let a0 = m.args.first();
        // iterator consumers
        if let Some(c) = chain(&m.receiver) {
            match n.as_str() {
                "collect" => {
                    let t = match &m.turbofish {
                        Some(t) => match t.args.first() {
                            Some(GenericArgument::Type(Type::Path(p))) => last(&p.path),
                            _ => "Vec".into(),
                        },
                        None => match hint {
                            Some(Type::Path(p)) => last(&p.path),
                            _ => "Vec".into(),
                        },
                    };
                    return self.collect(&c, &t);
                }
                "sum" => {
                    let acc = self.fresh("acc");
                    let t = match &m.turbofish {
                        Some(t) => t.args.first().map(|x| toks(x)).unwrap(),
                        None => "usize".into(),
                    };
                    let a = acc.clone();
                    return self.run_chain(&c, vec![acc.clone()], format!("let mut {}: {} = 0;", acc, t), acc.clone(), false, &mut |_, cur| Ok(format!("{} = {} + {};", a, a, cur)));
                }
                "count" => {
                    let acc = self.fresh("acc");
                    let a = acc.clone();
                    return self.run_chain(&c, vec![acc.clone()], format!("let mut {}: usize = 0;", acc), acc.clone(), false, &mut |_, _| Ok(format!("{} = {} + 1;", a, a)));
                }
                "max" | "min" => {
                    let acc = self.fresh("acc");
                    let a = acc.clone();
                    let op = if n == "max" { ">=" } else { "<" };
                    return self.run_chain(&c, vec![acc.clone()], format!("let mut {}: Option<usize> = None;", acc), acc.clone(), false, &mut |_, cur| {
                        Ok(format!("{a} = match {a} {{ Some(vx_m) => if {c} {op} vx_m {{ Some({c}) }} else {{ Some(vx_m) }}, None => Some({c}) }};", a = a, c = cur, op = op))
                    });
                }
                "any" | "all" => {
                    let acc = self.fresh("acc");
                    let a = acc.clone();
                    let any = n == "any";
                    self.shape.push(n.clone());
                    let f = a0.ok_or("any")?.clone();
                    return self.run_chain(&c, vec![acc.clone()], format!("let mut {}: bool = {};", acc, !any), acc.clone(), false, &mut |em, cur| {
                        let v = em.apply(&f, &[cur.to_string()])?;
                        Ok(format!("if {}{} {{ {} = {}; }}", if any { "!" } else { "" }, a, a, v))
                    });
                }
                "find" | "position" | "find_map" => {
                    let acc = self.fresh("acc");
                    let a = acc.clone();
                    let f = a0.ok_or("find")?.clone();
                    let kind = n.clone();
                    if kind == "position" && !c.ads.is_empty() {
                        return Err("position after an adapter".into());
                    }
                    let pos = self.fresh("pos");
                    let d = format!("let mut {}: usize = 0; let mut {} = None;", pos, acc);
                    return self.run_chain(&c, vec![acc.clone(), pos.clone()], d, acc.clone(), false, &mut |em, cur| {
                        Ok(match kind.as_str() {
                            "find" => {
                                let v = em.apply(&f, &[format!("&{}", cur)])?;
                                format!("if {a}.is_none() {{ if {v} {{ {a} = Some({c}); }} }}", a = a, v = v, c = cur)
                            }
                            "position" => {
                                let v = em.apply(&f, &[cur.to_string()])?;
                                format!("if {a}.is_none() {{ if {v} {{ {a} = Some({p}); }} else {{ {p} = {p} + 1; }} }}", a = a, v = v, p = pos)
                            }
                            _ => {
                                let v = em.apply(&f, &[cur.to_string()])?;
                                format!("if {a}.is_none() {{ {a} = {v}; }}", a = a, v = v)
                            }
                        })
                    });
                }
                "fold" => {
                    let acc = self.fresh("acc");
                    let a = acc.clone();
                    let init = self.expr(a0.ok_or("fold")?)?;
                    let f = m.args.iter().nth(1).ok_or("fold")?.clone();
                    return self.run_chain(&c, vec![acc.clone()], format!("let mut {}/*@T:{}*/ = {};", acc, acc, init), acc.clone(), false, &mut |em, cur| {
                        let v = em.apply(&f, &[a.clone(), cur.to_string()])?;
                        Ok(format!("{} = {};", a, v))
                    });
                }
                "partition" => {
                    let (a, b) = (self.fresh("acc"), self.fresh("acc"));
                    let f = a0.ok_or("partition")?.clone();
                    let d = format!("let mut {a}/*@T:{a}*/ = Vec::new(); let mut {b}/*@T:{b}*/ = Vec::new();", a = a, b = b);
                    return self.run_chain(&c, vec![a.clone(), b.clone()], d, format!("({}, {})", a, b), false, &mut |em, cur| {
                        let v = em.apply(&f, &[format!("&{}", cur)])?;
                        Ok(format!("if {} {{ {}.push({}); }} else {{ {}.push({}); }}", v, a, cur, b, cur))
                    });
                }
                "for_each" => {
                    let f = a0.ok_or("for_each")?.clone();
                    let acc = match strip(&f) {
                        Expr::Closure(c) => mutated(&parse_quote!({ #c })),
                        _ => vec![],
                    };
                    return self.run_chain(&c, acc, String::new(), String::new(), false, &mut |em, cur| Ok(format!("{};", em.apply(&f, &[cur.to_string()])?)));
                }
                "next" | "last" | "nth" | "min_by_key" | "max_by_key" | "min_by" | "max_by" | "rev" | "peekable" | "product" | "unzip" => {
                    return Err(format!("iterator method {}", n));
                }
                _ => (),
            }
        }
        match n.as_str() {
            "iter" | "into_iter" => {
                // handed on as a whole
                let r = self.expr(&m.receiver)?;
                return Ok(format!("{}.viter()", r));
            }
            "extend" => {
                if let Some(c) = chain(a0.ok_or("extend")?) {
                    let whole = c.ads.is_empty() && matches!(c.base, Base::Own(_));
                    if !whole {
                        let r = self.expr(&m.receiver)?;
                        let acc = r.clone();
                        return self.run_chain(&c, vec![acc], String::new(), String::new(), false, &mut |_, cur| Ok(format!("{}.vput({});", r, cur)));
                    }
                }
                let r = self.expr(&m.receiver)?;
                let a = match strip(a0.unwrap()) {
                    Expr::MethodCall(i) if i.method == "into_iter" => self.expr(&i.receiver)?,
                    e => self.expr(e)?,
                };
                return Ok(format!("{}.vextend({})", r, a));
            }
            "retain" => {
                let f = a0.ok_or("retain")?.clone();
                let r = self.expr(&m.receiver)?;
                if let Expr::Closure(c) = strip(&f) {
                    if c.inputs.len() == 1 {
                        let (acc, src) = (self.fresh("acc"), self.fresh("src"));
                        let d = DUMMY.with(|d| *d);
                        let ch = Chain { base: Base::Range(d), ads: vec![] };
                        let a = acc.clone();
                        let l = self.run_src(Src::Iter(format!("{}.viter()", src)), &ch, vec![acc.clone()], String::new(), String::new(), false, &mut |em, cur| {
                            let v = em.apply(&f, &[cur.to_string()])?;
                            Ok(format!("if {} {{ {}.push({}.vclone()); }}", v, a, cur))
                        })?;
                        return Ok(format!("{{ let {src} = {r}.vclone(); let mut {acc} = Vec::new(); {l}; {r} = {acc}; }}", src = src, r = r, acc = acc, l = l));
                    }
                }
                return Err("retain".into());
            }
            "or_insert_with" | "or_insert" | "or_default" => {
                let e = match strip(&m.receiver) {
                    Expr::MethodCall(e) if e.method == "entry" && e.args.len() == 1 => e,
                    _ => return Err(format!("method {}", n)),
                };
                let (r, k) = (self.expr(&e.receiver)?, self.expr(&e.args[0])?);
                // a value that is computed only when the key is new
                if let Some(f) = a0 {
                    let plain = match strip(f) {
                        Expr::Path(_) => true,
                        Expr::Closure(c) => matches!(strip(&c.body), Expr::Lit(_) | Expr::Macro(_)) || matches!(strip(&c.body), Expr::Call(c) if c.args.is_empty()),
                        _ => false,
                    };
                    if n == "or_insert_with" && !plain {
                        let v = self.apply(f, &[])?;
                        let kk = self.fresh("k");
                        return Ok(format!("{{ let {kk} = {k}; if !{r}.contains_key(&{kk}) {{ let vx_v = {v}; {r}.insert({kk}.vclone(), vx_v); }} {r}.vget_mut({kk}) }}", kk = kk, k = k, r = r, v = v));
                    }
                }
                let v = match a0 {
                    None => "VNew::vnew()".to_string(),
                    Some(f) if n == "or_insert" => self.expr(f)?,
                    Some(f) => match strip(f) {
                        Expr::Path(p) if path(&p.path)? == "Vec::new" => "Vec::new()".to_string(),
                        f => self.apply(f, &[])?,
                    },
                };
                return Ok(format!("{}.vor_insert({}, {})", r, k, v));
            }
            // egg asks for nodes until it has all it needs
            "build_recexpr" if m.args.len() == 1 => {
                let r = self.expr(&m.receiver)?;
                let (before, lc, _) = self.next_loop();
                self.shape.push("build".into());
                let (b, o, id) = (self.fresh("b"), self.fresh("o"), self.fresh("id"));
                let lv = LoopVars { acc: vec![b.clone()], i: "0".into(), s: o.clone(), t: String::new(), n: String::new(), lo: String::new() };
                let v = self.apply(&a0.unwrap().clone(), &[id.clone()])?;
                let inv = self.invs(&lc, &lv, &[format!("{}.asked({})", b, o)], false);
                return Ok(format!(
                    "{{ let mut {b} = VBuild::new(&{r}); let mut {o} = {b}.next();\n{before}\nwhile {o}.is_some()\n{inv} decreases {b}.left()\n{{ let {id} = {o}.unwrap();\n{body}\nlet vx_node = {v};\n{mid}\n{b}.give({id}, vx_node); {o} = {b}.next();\n{tail}\n}}\n{after}\n{b}.done() }}",
                    b = b, r = r, o = o, id = id, v = v, inv = inv, before = lv.fill(&before), body = lv.fill(&lc.body), mid = lv.fill(&lc.mid), tail = lv.fill(&lc.tail), after = lv.fill(&lc.after)
                ));
            }
            // nodes of a term: their children in order
            "map_children" if matches!(a0.map(strip), Some(Expr::Closure(_))) => {
                let d = DUMMY.with(|d| *d);
                let ch = Chain { base: Base::Range(d), ads: vec![] };
                let (e, acc) = (self.fresh("node"), self.fresh("acc"));
                let r = self.expr(&m.receiver)?;
                let f = a0.unwrap().clone();
                let a = acc.clone();
                let l = self.run_src(Src::Own(format!("{}.vkids()", e)), &ch, vec![acc.clone()], String::new(), String::new(), false, &mut |em, cur| {
                    let v = em.apply(&f, &[cur.to_string()])?;
                    Ok(format!("{}.push({});", a, v))
                })?;
                return Ok(format!("{{ let {e} = {r}; let mut {acc} = Vec::new(); {l}; {e}.vwith_kids({acc}) }}", e = e, r = r, acc = acc, l = l));
            }
            "for_each" if matches!(a0.map(strip), Some(Expr::Closure(_))) => {
                let d = DUMMY.with(|d| *d);
                let ch = Chain { base: Base::Range(d), ads: vec![] };
                let r = self.expr(&m.receiver)?;
                let f = a0.unwrap().clone();
                let acc = match strip(&f) {
                    Expr::Closure(c) => mutated(&parse_quote!({ #c })),
                    _ => vec![],
                };
                return self.run_src(Src::Own(format!("{}.vkids()", r)), &ch, acc, String::new(), String::new(), false, &mut |em, cur| Ok(format!("{};", em.apply(&f, &[cur.to_string()])?)));
            }
            "fold" if matches!(m.args.iter().nth(1).map(strip), Some(Expr::Closure(_))) => {
                let d = DUMMY.with(|d| *d);
                let ch = Chain { base: Base::Range(d), ads: vec![] };
                let r = self.expr(&m.receiver)?;
                let init = self.expr(a0.unwrap())?;
                let f = m.args.iter().nth(1).unwrap().clone();
                let acc = self.fresh("acc");
                let a = acc.clone();
                let ds = format!("let mut {}/*@T:{}*/ = {};", acc, acc, init);
                return self.run_src(Src::Own(format!("{}.vkids()", r)), &ch, vec![acc.clone()], ds, acc.clone(), false, &mut |em, cur| {
                    let v = em.apply(&f, &[a.clone(), cur.to_string()])?;
                    Ok(format!("{} = {};", a, v))
                });
            }
            // options and results
            "map" | "and_then" | "unwrap_or_else" | "map_or" | "map_err" | "is_some_and" | "or_else" | "ok_or_else" | "map_or_else" | "then" => {
                let r = self.expr(&m.receiver)?;
                let x = self.fresh("o");
                return Ok(match n.as_str() {
                    "map" if fallible(&m.receiver) => {
                        let v = self.apply(a0.unwrap(), &[x.clone()])?;
                        format!("match {} {{ Ok({}) => Ok({}), Err(vx_e) => Err(vx_e) }}", r, x, v)
                    }
                    "map" => {
                        let v = self.apply(a0.unwrap(), &[x.clone()])?;
                        format!("match {} {{ Some({}) => Some({}), None => None }}", r, x, v)
                    }
                    "and_then" => {
                        let v = self.apply(a0.unwrap(), &[x.clone()])?;
                        format!("match {} {{ Some({}) => {}, None => None }}", r, x, v)
                    }
                    "is_some_and" => {
                        let v = self.apply(a0.unwrap(), &[x.clone()])?;
                        format!("match {} {{ Some({}) => {}, None => false }}", r, x, v)
                    }
                    "map_or" => {
                        let d = self.expr(a0.unwrap())?;
                        let v = self.apply(m.args.iter().nth(1).unwrap(), &[x.clone()])?;
                        format!("match {} {{ Some({}) => {}, None => {} }}", r, x, v, d)
                    }
                    "unwrap_or_else" => match strip(a0.unwrap()) {
                        Expr::Closure(c) if c.inputs.len() == 1 && self.flag("panics-ok") && matches!(strip(&c.body), Expr::Macro(m) if last(&m.mac.path) == "panic") => format!("{}.vunwrap_ok()", r),
                        Expr::Closure(c) if c.inputs.len() == 1 && matches!(strip(&c.body), Expr::Macro(_)) => format!("{}.unwrap()", r),
                        Expr::Closure(c) if c.inputs.len() == 1 => {
                            let v = self.apply(a0.unwrap(), &["vx_e".into()])?;
                            format!("match {} {{ Ok({}) => {}, Err(vx_e) => {} }}", r, x, x, v)
                        }
                        f => {
                            let v = self.apply(f, &[])?;
                            format!("match {} {{ Some({}) => {}, None => {} }}", r, x, x, v)
                        }
                    },
                    _ => return Err(format!("method {}", n)),
                });
            }
            _ => (),
        }
        // a method of the repository
        let recv_is_self = matches!(strip(&m.receiver), Expr::Path(p) if p.path.is_ident("self"));
        let cands: Vec<String> = self.ix.fns.keys().filter(|k| k.rsplit("::").next() == Some(&n) && k.contains("::")).cloned().collect();
        let covered = self.under.keys().any(|k| k.rsplit("::").next() == Some(&n) && k.contains("::")) || self.stubs.contains(&n) || self.stubs.contains(&format!(".{}", n));
        if !covered && !cands.is_empty() && !LIB.contains(&n.as_str()) {
            let own: Vec<&String> = cands.iter().filter(|k| recv_is_self && self.self_ty.as_ref().map_or(false, |t| k.starts_with(&format!("{}::", base_ty(t))))).collect();
            let key = if own.len() == 1 {
                own[0].clone()
            } else if cands.len() == 1 {
                cands[0].clone()
            } else {
                return Err(format!("method {} is ambiguous", n));
            };
            let f = self.ix.fns[&key][0].clone();
            let r = self.expr(&m.receiver)?;
            let r = if recv_is_self { r } else { r };
            let args = self.args(&m.args)?;
            return self.inline_fn(&f, Some(r), &args);
        }
        let r = if self.flag("index=trait") && MUTATORS.contains(&n.as_str()) { self.place(&m.receiver)? } else { self.expr(&m.receiver)? };
        let mut args = vec![];
        for a in &m.args {
            args.push(match strip(a) {
                Expr::Closure(c) => self.closure_arg(&n, c)?,
                a => match self.bound_closure(a) {
                    Some(c) => self.closure_arg(&n, &c)?,
                    None => self.expr(a)?,
                },
            });
        }
        if self.flag("world") && self.stubs.contains(&format!("~.{}", n)) {
            args.push("vx_w".into());
        }
        // arguments taken as `impl Into<T>` are converted at the call
        for c in &cands {
            for f in &self.ix.fns[c] {
                let ps: Vec<&FnArg> = f.sig.inputs.iter().filter(|a| matches!(a, FnArg::Typed(_))).collect();
                if ps.len() != args.len() || !self.under.contains_key(c) {
                    continue;
                }
                for (k, p) in ps.iter().enumerate() {
                    if let FnArg::Typed(t) = p {
                        if toks(&*t.ty).starts_with("impl Into") && !args[k].ends_with(".vinto()") {
                            args[k] = format!("({}).vinto()", args[k]);
                        }
                    }
                }
            }
        }
        Ok(match n.as_str() {
            "clone" | "to_vec" | "to_owned" => format!("{}.vclone()", r),
            "cloned" | "copied" => format!("vx_opt_cloned({})", r),
            "into" if matches!(strip(&m.receiver), Expr::Lit(ExprLit { lit: Lit::Int(_), .. })) => format!("VInto::vinto({}usize)", r),
            "into" => match self.intos.get(&r) {
                Some(t) => format!("VInto::<{}>::vinto({})", t, r),
                // a part of a text, by reference
                None if r.starts_with("(*vx_slice") => format!("{}.vinto()", &r[2..r.len() - 1]),
                None => format!("{}.vinto()", r),
            },
            "to_string" => format!("{}.vto_string()", r),
            "as_str" | "as_ref" | "borrow" | "as_slice" | "deref" => format!("{}.vas_ref()", r),
            "cmp" if self.flag("cmp=trait") => format!("{}.vcmp({})", r, args[0]),
            "eq" => format!("vx_eq(&*{}, {})", r, args[0]),
            "ne" => format!("(!vx_eq(&*{}, {}))", r, args[0]),
            "is_empty" => format!("{}.vis_empty()", r),
            "contains" => format!("{}.vcontains({})", r, args[0]),
            "first" | "last" if args.is_empty() => format!("vx_{}(&{})", n, r),
            "sort_by" | "sort" | "dedup" | "with_hook" | "assert" => format!("{}.v{}({})", r, n, args.join(", ")),
            "starts_with" | "ends_with" | "strip_prefix" | "strip_suffix" | "trim" | "split_once" => format!("{}.{}({})", r, n, args.join(", ")),
            "unwrap" | "expect" if self.fc.flags.iter().any(|x| x == "panics-ok") => format!("{}.vunwrap_ok()", r),
            "expect" => format!("{}.unwrap()", r),
            "unwrap_or" => format!("(match {} {{ Some(vx_o) => vx_o, None => {} }})", r, args[0]),
            "unwrap_or_default" => format!("(match {}.vopt() {{ Some(vx_o) => vx_o, None => VNew::vnew() }})", r),
            "append" if args.len() == 1 && args[0].starts_with("&mut") => format!("{}.append({})", r, args[0]),
            _ => {
                let tf = match &m.turbofish {
                    Some(t) => gargs(&PathArguments::AngleBracketed(t.clone()), true)?,
                    None => String::new(),
                };
                format!("{}.{}{}({})", r, n, tf, args.join(", "))
            }
        })
    }

    fn parse_args(&mut self, m: &Macro) -> Res<Vec<Expr>> {
        m.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
            .map(|p| p.into_iter().collect())
            .map_err(|e| format!("macro {}: {}", toks(&m.path), e))
    }
    fn mac(&mut self, m: &Macro, stmt: bool) -> Res<String> {
        let n = last(&m.path);
        Ok(match n.as_str() {
            "vec" => {
                if let Ok(r) = m.parse_body_with(|i: syn::parse::ParseStream| {
                    let x: Expr = i.parse()?;
                    let _: Token![;] = i.parse()?;
                    let k: Expr = i.parse()?;
                    Ok((x, k))
                }) {
                    let (x, k) = (self.expr(&r.0)?, self.expr(&r.1)?);
                    return Ok(format!("vx_repeat({}, {})", x, k));
                }
                let a = self.parse_args(m)?;
                let v = a.iter().map(|x| self.expr(x)).collect::<Res<Vec<_>>>()?;
                vec_of(&v)
            }
            "matches" => {
                let (e, p, g) = m
                    .parse_body_with(|i: syn::parse::ParseStream| {
                        let e: Expr = i.parse()?;
                        let _: Token![,] = i.parse()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g: Option<Expr> = if i.peek(Token![if]) {
                            let _: Token![if] = i.parse()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _: Option<Token![,]> = i.parse()?;
                        Ok((e, p, g))
                    })
                    .map_err(|e| e.to_string())?;
                let g = match g {
                    Some(g) => format!(" if {}", self.expr(&g)?),
                    None => String::new(),
                };
                format!("(match {} {{ {}{} => true, _ => false }})", self.expr(&e)?, pat(&p)?, g)
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                let f = if self.fc.flags.iter().any(|x| x == "panics-ok") { "vx_abort" } else { "vx_panic" };
                if stmt { format!("{}::<()>()", f) } else { format!("{}()", f) }
            }
            "assert" | "debug_assert" => {
                let a = self.parse_args(m)?;
                let f = if self.fc.flags.iter().any(|x| x == "panics-ok") { "vx_assert_ok" } else { "vx_assert" };
                format!("{}({})", f, self.expr(&a[0])?)
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = self.parse_args(m)?;
                let f = if self.fc.flags.iter().any(|x| x == "panics-ok") { "vx_assert_ok" } else { "vx_assert" };
                format!("{}(vx_eq(&({}), &({})))", f, self.expr(&a[0])?, self.expr(&a[1])?)
            }
            "format" => {
                let a = self.parse_args(m)?;
                self.format(&a)?
            }
            "write" | "writeln" => {
                let a = self.parse_args(m)?;
                let f = self.expr(&a[0])?;
                let mut rest = a[1..].to_vec();
                if rest.is_empty() {
                    rest.push(parse_quote!(""));
                }
                let mut s = self.format(&rest)?;
                if n == "writeln" {
                    s = format!("vx_cat({}, vx_str(\"\\n\"))", s);
                }
                if self.flag("world") {
                    format!("{}.vwrite({}, vx_w)", f, s)
                } else {
                    format!("{}.vwrite({})", f, s)
                }
            }
            "json" => {
                // `{ "key": value, .. }`, or a value
                let ts: Vec<proc_macro2::TokenTree> = m.tokens.clone().into_iter().collect();
                match &ts[..] {
                    [proc_macro2::TokenTree::Group(g)] if g.delimiter() == proc_macro2::Delimiter::Brace => {
                        let o = self.fresh("j");
                        let mut s = format!("({{ let mut {} = vx_obj();\n", o);
                        let mut field: Vec<proc_macro2::TokenTree> = vec![];
                        let mut all: Vec<Vec<proc_macro2::TokenTree>> = vec![];
                        for t in g.stream() {
                            match &t {
                                proc_macro2::TokenTree::Punct(p) if p.as_char() == ',' => all.push(std::mem::take(&mut field)),
                                _ => field.push(t),
                            }
                        }
                        if !field.is_empty() {
                            all.push(field);
                        }
                        for f in all {
                            if f.len() < 3 || !matches!(&f[1], proc_macro2::TokenTree::Punct(p) if p.as_char() == ':') {
                                return Err("json field".into());
                            }
                            let k: Expr = syn::parse2(f[0].clone().into()).map_err(|e| e.to_string())?;
                            let k = self.expr(&k)?;
                            let rest: proc_macro2::TokenStream = f[2..].iter().cloned().collect();
                            let v = match &f[2..] {
                                [proc_macro2::TokenTree::Group(g)] if g.delimiter() != proc_macro2::Delimiter::Parenthesis => {
                                    let inner: Expr = parse_quote!(json!(#g));
                                    self.expr(&inner)?
                                }
                                _ => {
                                    let e: Expr = syn::parse2(rest).map_err(|e| e.to_string())?;
                                    self.expr(&e)?
                                }
                            };
                            s.push_str(&format!("let {o}v = {v};\n{o}.vfield({k}, &({o}v));\n", o = o, k = k, v = v));
                        }
                        s.push_str(&format!("{}.vdone() }})", o));
                        s
                    }
                    [proc_macro2::TokenTree::Group(g)] if g.delimiter() == proc_macro2::Delimiter::Bracket => return Err("json array".into()),
                    _ => {
                        let e: Expr = m.parse_body().map_err(|e| e.to_string())?;
                        format!("({}).vjson()", self.expr(&e)?)
                    }
                }
            }
            "map" => {
                // ruler's element-wise evaluation macro, expanded as written there
                let ts = self.expand_rules("map", m)?;
                let e: Expr = syn::parse2(ts).map_err(|e| e.to_string())?;
                self.expr(&e)?
            }
            _ => return Err(format!("macro {}!", n)),
        })
    }
    /// expansion of a repository macro_rules by its first matching arm (only `$x:ident` / `$x:expr` parameters)
    fn expand_rules(&mut self, name: &str, m: &Macro) -> Res<proc_macro2::TokenStream> {
        let (im, _) = self.ix.macros.get(name).ok_or(format!("macro {}", name))?;
        crate::mac::expand(im, &m.tokens)
    }
    fn format(&mut self, a: &[Expr]) -> Res<String> {
        let lit = match strip(&a[0]) {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return Err("format string".into()),
        };
        let mut out: Vec<String> = vec![];
        let mut cur = String::new();
        let mut k = 1;
        let cs: Vec<char> = lit.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => {
                    cur.push('{');
                    i += 2;
                }
                '}' if cs.get(i + 1) == Some(&'}') => {
                    cur.push('}');
                    i += 2;
                }
                '{' => {
                    let j = (i..cs.len()).find(|j| cs[*j] == '}').ok_or("format string")?;
                    let name: String = cs[i + 1..j].iter().collect();
                    let arg = if name.is_empty() {
                        k += 1;
                        a.get(k - 1).ok_or("format arguments")?.clone()
                    } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') {
                        syn::parse_str::<Expr>(&name).map_err(|e| e.to_string())?
                    } else {
                        return Err(format!("format spec {{{}}}", name));
                    };
                    if !cur.is_empty() {
                        out.push(format!("vx_str({:?})", cur));
                        cur.clear();
                    }
                    let v = self.expr(&arg)?;
                    out.push(format!("({}).vto_string()", v));
                    i = j + 1;
                }
                c => {
                    cur.push(c);
                    i += 1;
                }
            }
        }
        if !cur.is_empty() || out.is_empty() {
            out.push(format!("vx_str({:?})", cur));
        }
        let mut s = out[0].clone();
        for o in &out[1..] {
            s = format!("vx_cat({}, {})", s, o);
        }
        Ok(s)
    }
}

/// expressions of type Result, by the library functions that return one
fn fallible(e: &Expr) -> bool {
    match strip(e) {
        Expr::MethodCall(m) => m.method == "parse" || m.method == "map_err",
        Expr::Call(c) => matches!(strip(&c.func), Expr::Path(p) if matches!(last(&p.path).as_str(), "from_str_radix" | "from_str" | "try_from")),
        _ => false,
    }
}
/// `Type::<args>::item` as `Type::item`
fn path_key(n: &str) -> String {
    let mut parts: Vec<&str> = n.split("::").filter(|s| !s.starts_with('<')).collect();
    if parts.len() > 2 {
        parts = parts[parts.len() - 2..].to_vec();
    }
    parts.join("::")
}
/// library methods that share a name with repository functions
const LIB: &[&str] = &["clone", "len", "is_empty", "contains", "extend", "iter", "into_iter", "new", "push", "insert", "eq", "from", "fmt", "default", "from_str", "partial_cmp", "cmp", "append", "to_string", "parse", "get", "find", "map"];

pub fn base_ty(t: &str) -> String {
    t.split('<').next().unwrap().trim().to_string()
}
/// `<L: SynthLanguage>` as arguments
pub fn strip_bounds(g: &str) -> String {
    let inner = g.trim().trim_start_matches('<').trim_end_matches('>');
    let v: Vec<String> = inner
        .split(',')
        .map(|p| p.split(':').next().unwrap().trim().trim_start_matches("const ").to_string())
        .filter(|s| !s.is_empty())
        .collect();
    format!("<{}>", v.join(", "))
}
fn vec_of(v: &[String]) -> String {
    if v.is_empty() {
        return "Vec::new()".into();
    }
    let mut s = String::from("{ let mut vx_v = Vec::new(); ");
    for x in v {
        s.push_str(&format!("vx_v.push({}); ", x));
    }
    s + "vx_v }"
}
fn copy_base<'a>(b: &Base<'a>) -> Base<'a> {
    match b {
        Base::Iter(e) => Base::Iter(e),
        Base::Named(e, n) => Base::Named(e, n.clone()),
        Base::Own(e) => Base::Own(e),
        Base::Range(r) => Base::Range(r),
    }
}
fn copy_ad<'a>(a: &Ad<'a>) -> Ad<'a> {
    match a {
        Ad::Map(e) => Ad::Map(e),
        Ad::Filter(e) => Ad::Filter(e),
        Ad::FilterMap(e) => Ad::FilterMap(e),
        Ad::FlatMap(e) => Ad::FlatMap(*e),
        Ad::Cloned => Ad::Cloned,
        Ad::Enumerate => Ad::Enumerate,
        Ad::Zip(c) => Ad::Zip(Box::new(Chain { base: copy_base(&c.base), ads: c.ads.iter().map(copy_ad).collect() })),
        Ad::Rev => Ad::Rev,
        Ad::Skip(e) => Ad::Skip(e),
        Ad::Take(e) => Ad::Take(e),
        Ad::Chained(c) => Ad::Chained(Box::new(Chain { base: copy_base(&c.base), ads: c.ads.iter().map(copy_ad).collect() })),
        Ad::Cartesian => Ad::Cartesian,
    }
}
thread_local! {
    /// stands for "the source is given separately"
    static DUMMY: &'static ExprRange = Box::leak(Box::new(match syn::parse_str::<Expr>("0..0").unwrap() { Expr::Range(r) => r, _ => unreachable!() }));
}
