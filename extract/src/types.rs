//! Types, patterns and names of the extracted text.
use quote::ToTokens;
use syn::*;

pub type Res<T> = std::result::Result<T, String>;

pub fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

thread_local! {
    /// types named without their arguments
    pub static RETYPE: std::cell::RefCell<std::collections::BTreeMap<String, String>> = Default::default();
}
fn retype(n: &str) -> Option<String> {
    RETYPE.with(|r| r.borrow().get(n).cloned())
}

/// last segment of a path
pub fn last(p: &Path) -> String {
    p.segments.last().unwrap().ident.to_string()
}

/// `str` and `Arc<str>` become the opaque `String`, slices and `Box` become what they hold
pub fn ty(t: &Type) -> Res<String> {
    Ok(match t {
        Type::Path(p) => {
            let l = p.path.segments.last().unwrap();
            let name = l.ident.to_string();
            match name.as_str() {
                "str" => return Ok("String".into()),
                "Arc" | "Rc" => return args1(&l.arguments),
                _ => (),
            }
            if p.qself.is_some() {
                return Ok(toks(t));
            }
            if matches!(l.arguments, PathArguments::None) {
                if let Some(r) = retype(&name) {
                    return Ok(r);
                }
            }
            let mut s = String::new();
            let keep = if p.path.segments.len() > 1 && p.path.segments[0].ident == "Self" { 0 } else { p.path.segments.len() - 1 };
            for (i, seg) in p.path.segments.iter().enumerate().skip(keep) {
                if i > keep {
                    s.push_str("::");
                }
                s.push_str(&seg.ident.to_string());
                s.push_str(&gargs(&seg.arguments, false)?);
            }
            s
        }
        Type::Reference(r) => {
            let lt = r.lifetime.as_ref().map(|l| format!("{} ", l)).unwrap_or_default();
            format!("&{}{}{}", lt, if r.mutability.is_some() { "mut " } else { "" }, ty(&r.elem)?)
        }
        Type::Slice(s) => format!("Vec<{}>", ty(&s.elem)?),
        Type::Array(a) => format!("[{}; {}]", ty(&a.elem)?, toks(&a.len)),
        Type::Tuple(t) => format!("({})", t.elems.iter().map(|x| ty(x).map(|s| s + ",")).collect::<Res<Vec<_>>>()?.join(" ")),
        Type::Paren(p) => ty(&p.elem)?,
        Type::Infer(_) => "_".into(),
        Type::ImplTrait(i) => {
            // `impl Into<T>` / `impl AsRef<str>`: a value of the target type
            for b in &i.bounds {
                if let TypeParamBound::Trait(t) = b {
                    let l = t.path.segments.last().unwrap();
                    if l.ident == "Into" || l.ident == "AsRef" {
                        return args1(&l.arguments);
                    }
                }
            }
            return Err(format!("type {}", toks(t)));
        }
        _ => return Err(format!("type {}", toks(t))),
    })
}
fn args1(a: &PathArguments) -> Res<String> {
    if let PathArguments::AngleBracketed(a) = a {
        if let Some(GenericArgument::Type(t)) = a.args.first() {
            return ty(t);
        }
    }
    Err("type argument".into())
}
pub fn gargs(a: &PathArguments, turbofish: bool) -> Res<String> {
    Ok(match a {
        PathArguments::None => String::new(),
        PathArguments::AngleBracketed(a) => {
            let v = a
                .args
                .iter()
                .map(|g| match g {
                    GenericArgument::Type(t) => ty(t),
                    GenericArgument::Lifetime(l) => Ok(l.to_string()),
                    GenericArgument::Const(c) => Ok(toks(c)),
                    GenericArgument::AssocType(t) => Ok(format!("{}={}", t.ident, ty(&t.ty)?)),
                    _ => Err("generic argument".into()),
                })
                .collect::<Res<Vec<_>>>()?;
            format!("{}<{}>", if turbofish { "::" } else { "" }, v.join(", "))
        }
        PathArguments::Parenthesized(_) => return Err("Fn type".into()),
    })
}

/// path in expression or pattern position: module prefixes dropped, `Type::item` kept
pub fn path(p: &Path) -> Res<String> {
    let n = p.segments.len();
    let mut start = n - 1;
    // keep everything from the first capitalised segment (type) on
    for (i, s) in p.segments.iter().enumerate() {
        let c = s.ident.to_string().chars().next().unwrap();
        if c.is_uppercase() || (i + 2 == n && is_prim(&s.ident.to_string())) {
            start = i;
            break;
        }
    }
    let mut s = String::new();
    for (i, seg) in p.segments.iter().enumerate().skip(start) {
        if i > start {
            s.push_str("::");
        }
        s.push_str(&seg.ident.to_string());
        s.push_str(&gargs(&seg.arguments, true)?);
        if matches!(seg.arguments, PathArguments::None) && i == start && n > start + 1 {
            if let Some(r) = retype(&seg.ident.to_string()) {
                s.push_str("::");
                s.push_str(&r[seg.ident.to_string().len()..]);
            }
        }
    }
    Ok(s)
}
pub fn is_prim(s: &str) -> bool {
    matches!(s, "usize" | "u128" | "u64" | "u32" | "u8" | "i32" | "i64" | "bool" | "char")
}

pub fn pat(p: &Pat) -> Res<String> {
    Ok(match p {
        Pat::Ident(i) => {
            let mut s = String::new();
            if i.by_ref.is_some() {
                s.push_str("ref ");
            }
            if i.mutability.is_some() {
                s.push_str("mut ");
            }
            s.push_str(&i.ident.to_string());
            if let Some((_, sp)) = &i.subpat {
                s = format!("{} @ {}", s, pat(sp)?);
            }
            s
        }
        Pat::Wild(_) => "_".into(),
        Pat::Path(p) => path(&p.path)?,
        Pat::TupleStruct(t) => format!("{}({})", path(&t.path)?, pats(t.elems.iter())?),
        Pat::Tuple(t) => format!("({})", t.elems.iter().map(|x| pat(x).map(|s| s + ",")).collect::<Res<Vec<_>>>()?.join(" ")),
        Pat::Struct(s) => {
            let mut fs = vec![];
            for f in &s.fields {
                fs.push(if f.colon_token.is_some() { format!("{}: {}", toks(&f.member), pat(&f.pat)?) } else { pat(&f.pat)? });
            }
            if s.rest.is_some() {
                fs.push("..".into());
            }
            format!("{} {{ {} }}", path(&s.path)?, fs.join(", "))
        }
        Pat::Or(o) => o.cases.iter().map(pat).collect::<Res<Vec<_>>>()?.join(" | "),
        Pat::Paren(p) => format!("({})", pat(&p.pat)?),
        Pat::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, pat(&r.pat)?),
        Pat::Rest(_) => "..".into(),
        Pat::Lit(l) => match &l.lit {
            Lit::Str(_) => return Err("string pattern".into()),
            l => toks(l),
        },
        // fixed-size arrays of children are taken as tuples
        Pat::Slice(s) => format!("({})", s.elems.iter().map(|x| pat(x).map(|s| s + ",")).collect::<Res<Vec<_>>>()?.join(" ")),
        Pat::Type(t) => pat(&t.pat)?,
        _ => return Err(format!("pattern {}", toks(p))),
    })
}
fn pats<'a>(it: impl Iterator<Item = &'a Pat>) -> Res<String> {
    Ok(it.map(pat).collect::<Res<Vec<_>>>()?.join(", "))
}

/// `let P = V;` with the references in P taken off
pub fn let_pat(p: &Pat, v: &str) -> Res<String> {
    fn go(p: &Pat, k: &mut usize, tail: &mut String) -> Res<String> {
        Ok(match p {
            Pat::Paren(q) => go(&q.pat, k, tail)?,
            Pat::Reference(r) => {
                *k += 1;
                let q = format!("vx_q{}", k);
                let inner = go(&r.pat, k, tail)?;
                *tail = format!(" let {} = *{};{}", inner, q, tail);
                q
            }
            Pat::Tuple(t) => format!("({})", t.elems.iter().map(|x| go(x, k, tail).map(|s| s + ",")).collect::<Res<Vec<_>>>()?.join(" ")),
            p => pat(p)?,
        })
    }
    let mut tail = String::new();
    let head = go(p, &mut 0, &mut tail)?;
    Ok(format!("let {} = {};{}", head, v, tail))
}

/// names bound by a pattern
pub fn bound(p: &Pat, out: &mut Vec<String>) {
    struct V<'a>(&'a mut Vec<String>);
    impl<'a, 'b> syn::visit::Visit<'b> for V<'a> {
        fn visit_pat_ident(&mut self, i: &'b PatIdent) {
            self.0.push(i.ident.to_string());
            syn::visit::visit_pat_ident(self, i);
        }
    }
    syn::visit::Visit::visit_pat(&mut V(out), p);
}
