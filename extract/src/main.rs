//! Extracts functions of /repo into Verus text with their contracts attached.
mod emit;
mod index;
mod lazy;
mod mac;
mod mono;
mod types;
mod unit;
use emit::*;
use index::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use types::*;
use unit::*;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct FnMeta {
    key: String,
    name: String,
    file: String,
    line: usize,
    status: String,
    reason: String,
    notes: Vec<String>,
    inlined: Vec<String>,
    loops: usize,
    closures: Vec<String>,
    props: Vec<String>,
    shape: Vec<String>,
    params: Vec<String>,
}

fn type_item(ix: &RepoIndex, spec: &str) -> Res<String> {
    let mut ws = spec.split_whitespace();
    let name = ws.next().ok_or("type name")?;
    let need: Vec<&str> = ws.collect();
    let (it, file, line) = ix.types.get(name).ok_or(format!("type {} not found", name))?;
    let (attrs, generics, body) = match it {
        syn::Item::Enum(e) => {
            let mut vs = vec![];
            for v in &e.variants {
                vs.push(match &v.fields {
                    syn::Fields::Unit => v.ident.to_string(),
                    syn::Fields::Unnamed(f) => format!("{}({})", v.ident, f.unnamed.iter().map(|f| ty(&f.ty)).collect::<Res<Vec<_>>>()?.join(", ")),
                    syn::Fields::Named(f) => format!(
                        "{} {{ {} }}",
                        v.ident,
                        f.named.iter().map(|f| Ok(format!("{}: {}", f.ident.as_ref().unwrap(), ty(&f.ty)?))).collect::<Res<Vec<_>>>()?.join(", ")
                    ),
                });
            }
            (&e.attrs, &e.generics, format!("pub enum {}{} {{ {} }}", name, toks(&e.generics), vs.join(", ")))
        }
        syn::Item::Struct(e) => {
            let b = match &e.fields {
                syn::Fields::Unit => ";".to_string(),
                syn::Fields::Unnamed(f) => format!("({});", f.unnamed.iter().map(|f| Ok(format!("pub {}", ty(&f.ty)?))).collect::<Res<Vec<_>>>()?.join(", ")),
                syn::Fields::Named(f) => format!(
                    "{{ {} }}",
                    f.named.iter().map(|f| Ok(format!("pub {}: {}", f.ident.as_ref().unwrap(), ty(&f.ty)?))).collect::<Res<Vec<_>>>()?.join(", ")
                ),
            };
            (&e.attrs, &e.generics, format!("pub struct {}{} {}", name, toks(&e.generics), b))
        }
        _ => return Err("type item".into()),
    };
    let mut derives = BTreeSet::new();
    for a in attrs.iter() {
        if a.path().is_ident("derive") {
            for w in toks(a).split(|c: char| !c.is_alphanumeric()) {
                derives.insert(w.to_string());
            }
        }
    }
    for n in need {
        if !derives.contains(n) {
            return Err(format!("type {} does not derive {}", name, n));
        }
    }
    let mut s = format!("// {}:{}\n", file, line);
    if derives.contains("Copy") {
        s.push_str("#[derive(Clone, Copy)]\n");
    }
    s.push_str(&body);
    s.push('\n');
    let g = toks(generics);
    let t = if g.is_empty() { name.to_string() } else { format!("{}{}", name, strip_bounds(&g)) };
    if derives.contains("Clone") {
        s.push_str(&format!("impl {} VClone for {} {{ #[verifier::external_body] fn vclone(&self) -> (r: Self) {{ unimplemented!() }} }}\n", g, t));
    }
    if derives.contains("PartialEq") {
        s.push_str(&format!("impl {} VEq for {} {{ #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}\n", g, t));
    }
    Ok(s)
}

fn signature(f: &FnItem, c: &FnC) -> Res<String> {
    if let Some((s, orig)) = &c.sig {
        if !orig.is_empty() {
            let want = orig.parse::<proc_macro2::TokenStream>().map_err(|_| "sig")?.to_string();
            if want != toks(&f.sig) {
                return Err("signature changed".into());
            }
        }
        return Ok(s.clone());
    }
    let mut ps = vec![];
    for i in &f.sig.inputs {
        ps.push(match i {
            syn::FnArg::Receiver(r) => toks(r),
            syn::FnArg::Typed(t) => format!("{}: {}", pat(&t.pat)?, ty(&t.ty)?),
        });
    }
    let ret = match &f.sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => format!(" -> (r: {})", ty(t)?),
    };
    let g = toks(&f.sig.generics);
    Ok(format!("pub fn {}{}({}){}", f.sig.ident, g, ps.join(", "), ret))
}

fn params(s: &syn::Signature) -> Vec<String> {
    let mut v = vec![];
    for i in &s.inputs {
        if let syn::FnArg::Typed(t) = i {
            v.push(match &*t.pat {
                syn::Pat::Ident(i) => i.ident.to_string(),
                _ => "_".into(),
            });
        }
    }
    v
}

/// the contract with parameter names replaced, as whole words, all at once
fn rename(c: &FnC, old: &[String], new: &[String]) -> FnC {
    let w = |s: &str| -> String {
        let mut o = String::new();
        let mut cur = String::new();
        let mut flush = |cur: &mut String, o: &mut String| {
            match old.iter().position(|x| x == cur) {
                Some(k) if !o.ends_with('.') && !o.ends_with('$') => o.push_str(&new[k]),
                _ => o.push_str(cur),
            }
            cur.clear();
        };
        for ch in s.chars() {
            if ch.is_alphanumeric() || ch == '_' {
                cur.push(ch);
            } else {
                flush(&mut cur, &mut o);
                o.push(ch);
            }
        }
        flush(&mut cur, &mut o);
        o
    };
    let ws = |v: &Vec<String>| v.iter().map(|s| w(s)).collect::<Vec<_>>();
    let mut r = c.clone();
    r.sig = c.sig.as_ref().map(|(a, b)| (w(a), w(b)));
    r.spec = w(&c.spec);
    r.entry = w(&c.entry);
    r.exit = w(&c.exit);
    r.maps = c.maps.iter().map(|(a, b)| (w(a), w(b))).collect();
    for l in r.loops.values_mut() {
        l.inv = ws(&l.inv);
        l.ens = ws(&l.ens);
        l.before = w(&l.before);
        l.after = w(&l.after);
        l.body = w(&l.body);
        l.tail = w(&l.tail);
        l.dec = w(&l.dec);
    }
    for (k, x) in &c.closures {
        r.closures.insert(k.clone(), rename(x, old, new));
    }
    r
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let repo = get("--repo").unwrap_or("/repo".into());
    let dir = std::path::PathBuf::from(get("--contracts").expect("--contracts"));
    let trust: BTreeSet<String> = get("--trust").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let drop: BTreeSet<String> = get("--drop").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let run = || -> Res<(String, Vec<FnMeta>, Vec<String>)> {
        let mut u = Unit::default();
        load(&dir, &get("--unit").expect("--unit"), &mut u)?;
        let mut ix = RepoIndex::load(std::path::Path::new(&repo), u.mono.clone())?;
        let mut problems = vec![];
        for (m, v) in &u.macros {
            if let Err(e) = ix.expand(m, v) {
                problems.push(e);
            }
        }
        types::RETYPE.with(|r| r.borrow_mut().extend(u.retypes.iter().cloned()));
        let mut under = BTreeMap::new();
        for it in &u.items {
            if let Item::Fn(f) = it {
                if drop.contains(&f.key) {
                    continue;
                }
                let callable = match ix.fns.get(&f.key).and_then(|v| v.first()) {
                    Some(x) if x.in_trait => format!("fn:{}", f.key.replace("::", "__")),
                    _ => "m".to_string(),
                };
                under.insert(f.key.clone(), callable);
            }
        }
        let mut baseline: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for l in std::fs::read_to_string(dir.join("baseline.txt")).unwrap_or_default().lines() {
            let w: Vec<&str> = l.split(" | ").collect();
            if w.len() == 3 {
                baseline.insert(w[0].into(), w[1].split_whitespace().map(|s| s.to_string()).collect());
            }
        }
        let stubs: BTreeSet<String> = u.stubs.iter().cloned().collect();
        let mut out = String::from("#![allow(unused, non_snake_case, non_camel_case_types)]\nuse vstd::prelude::*;\nverus! {\n");
        let mut metas = vec![];
        for it in &u.items {
            match it {
                Item::Raw(t) => {
                    out.push_str(t);
                    out.push('\n');
                }
                Item::Type(n) => match type_item(&ix, n) {
                    Ok(s) => out.push_str(&s),
                    Err(e) => problems.push(e),
                },
                Item::Lang(n, g) => match ix.langs.get(n) {
                    Some((vs, file, line)) => {
                        let t = format!("{}{}", n, strip_bounds(g).replace("<>", ""));
                        let mut e = format!("// {}:{}\npub enum {}{} {{\n", file, line, n, g);
                        let mut m = format!("pub open spec fn {}_symbol{}(e: {}) -> Seq<char> {{ match e {{\n", n.to_lowercase(), g, t);
                        for (v, op, a) in vs {
                            let at = match a {
                                syn::Type::Array(x) => {
                                    let k: usize = toks(&x.len).parse().map_err(|_| "array length")?;
                                    format!("({})", format!("{}, ", ty(&x.elem)?).repeat(k))
                                }
                                a => ty(a)?,
                            };
                            let _ = write!(e, "    {}({}),\n", v, at);
                            let _ = write!(m, "    {}::{}(_) => {:?}@,\n", t.replacen('<', "::<", 1), v, op.clone().unwrap_or_default());
                        }
                        out.push_str(&e);
                        out.push_str("}\n");
                        out.push_str(&m);
                        out.push_str("} }\n");
                        let _ = write!(out, "impl {} VClone for {} {{ #[verifier::external_body] fn vclone(&self) -> (r: Self) {{ unimplemented!() }} }}\nimpl {} VEq for {} {{ #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}\n", g, t, g, t);
                    }
                    None => problems.push(format!("language {} not found", n)),
                },
                Item::Alias(n) => match ix.aliases.get(n) {
                    Some(t) => {
                        let _ = write!(out, "pub type {} = {};\n", n, t);
                    }
                    None => problems.push(format!("type {} not found", n)),
                },
                Item::Const(n) => match ix.consts.get(n) {
                    Some((e, t)) => {
                        let _ = write!(out, "pub const {}: {} = {};\n", n, t, toks(e));
                    }
                    None => problems.push(format!("const {} not found", n)),
                },
                Item::Fn(c) => {
                    let mut meta = FnMeta {
                        key: c.key.clone(),
                        name: c.key.clone(),
                        file: String::new(),
                        line: 0,
                        status: "verified".into(),
                        reason: String::new(),
                        notes: vec![],
                        inlined: vec![],
                        loops: 0,
                        closures: vec![],
                        props: c.props.clone(),
                        shape: vec![],
                        params: vec![],
                    };
                    if drop.contains(&c.key) {
                        meta.status = "bounded".into();
                        meta.reason = "its contract no longer fits its signature".into();
                        metas.push(meta);
                        continue;
                    }
                    let f = match ix.fns.get(&c.key) {
                        Some(v) if v.len() == 1 => v[0].clone(),
                        Some(_) => {
                            meta.status = "bounded".into();
                            meta.reason = "defined more than once".into();
                            metas.push(meta);
                            continue;
                        }
                        None => {
                            meta.status = "bounded".into();
                            meta.reason = "no such function".into();
                            metas.push(meta);
                            continue;
                        }
                    };
                    meta.file = f.file.clone();
                    meta.line = f.line;
                    meta.params = params(&f.sig);
                    // the contract names parameters as they were called when it was written
                    let renamed;
                    let c = match baseline.get(&c.key) {
                        Some(old) if *old != meta.params && old.len() == meta.params.len() => {
                            renamed = rename(c, old, &meta.params);
                            &renamed
                        }
                        _ => c,
                    };
                    let sig = match signature(&f, c) {
                        Ok(s) => s,
                        Err(e) => {
                            meta.status = "bounded".into();
                            meta.reason = e;
                            metas.push(meta);
                            continue;
                        }
                    };
                    let generics = {
                        // generics in scope for closures turned into functions
                        let h = f.header.as_ref().map(|(h, _)| h.clone()).unwrap_or_default();
                        let g = h.trim_start_matches("impl").trim().to_string();
                        let hg = if g.starts_with('<') { match_angle(&g) } else { String::new() };
                        let fg = toks(&f.sig.generics);
                        if c.flags.iter().any(|x| x == "nogenerics") {
                            String::new()
                        } else if !hg.is_empty() && !fg.is_empty() {
                            format!("<{}, {}>", hg.trim().trim_start_matches('<').trim_end_matches('>'), fg.trim().trim_start_matches('<').trim_end_matches('>'))
                        } else if !hg.is_empty() {
                            hg
                        } else {
                            fg
                        }
                    };
                    let mut em = Em {
                        ix: &ix,
                        under: &under,
                        stubs: &stubs,
                        fc: c.clone(),
                        self_ty: f.self_ty.clone(),
                        selfs: vec![],
                        nloop: 0,
                        tmp: 0,
                        closures: vec![],
                        inlining: vec![],
                        inlined: Default::default(),
                        notes: Default::default(),
                        extra_fns: vec![],
                        used_maps: Default::default(),
                        key: c.key.clone(),
                        loop_depth: 0,
                        noreturn: 0,
                        cont: vec![],
                        generics,
                        tys: Default::default(),
                        shape: vec![],
                        lifted: Default::default(),
                        intos: f
                            .sig
                            .inputs
                            .iter()
                            .filter_map(|a| match a {
                                syn::FnArg::Typed(t) if toks(&*t.ty).starts_with("impl Into") => Some((pat(&t.pat).ok()?, ty(&t.ty).ok()?)),
                                _ => None,
                            })
                            .collect(),
                    };
                    let blk = syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: f.block.clone() });
                    let body = if trust.contains(&c.key) {
                        Err("the verifier does not take the extracted text".to_string())
                    } else {
                        em.body(&blk)
                    };
                    let mut attrs = String::from("#[verifier::loop_isolation(false)]\n");
                    for x in &c.flags {
                        if let Some(n) = x.strip_prefix("rlimit=") {
                            let _ = write!(attrs, "#[verifier::rlimit({})]\n", n);
                        }
                        if let Some(n) = x.strip_prefix("attr=") {
                            let _ = write!(attrs, "#[{}]\n", n);
                        }
                    }
                    let body = match body {
                        Ok(b) => b,
                        Err(e) => {
                            meta.status = "bounded".into();
                            meta.reason = e;
                            attrs = "#[verifier::external_body]\n".into();
                            "{ unimplemented!() }".into()
                        }
                    };
                    let body = if get("--probe").is_some() && meta.status == "verified" && body.contains('{') { body.replacen('{', "{\nproof { assert(false); // probe\n}\n", 1) } else { body };
                    meta.notes = em.notes.iter().cloned().collect();
                    meta.inlined = em.inlined.iter().cloned().collect();
                    meta.loops = em.nloop;
                    meta.shape = em.shape.clone();
                    if meta.status == "verified" {
                        for x in &em.extra_fns {
                            out.push_str(x);
                            meta.closures.push(x.lines().next().unwrap_or("").trim_start_matches("//@fn ").to_string());
                        }
                    }
                    let _ = write!(out, "//@fn {}\n", c.key);
                    let header = if f.in_trait || c.flags.iter().any(|x| x == "free") { None } else { f.header.clone() };
                    let hover = c.flags.iter().find_map(|x| x.strip_prefix("impl=").map(|s| s.replace('~', " ")));
                    match (&hover, &header) {
                        (Some(h), _) => {
                            let _ = write!(out, "{} {{\n{}{}\n{}\n{}\n}}\n", h, attrs, sig, c.spec, body);
                        }
                        (None, Some((h, w))) => {
                            let _ = write!(out, "{} {} {{\n{}{}\n{}\n{}\n}}\n", h, w, attrs, sig, c.spec, body);
                        }
                        (None, None) => {
                            let _ = write!(out, "{}{}\n{}\n{}\n", attrs, sig, c.spec, body);
                        }
                    }
                    out.push_str("//@endfn\n");
                    metas.push(meta);
                }
            }
        }
        out.push_str("\nfn main() {}\n}\n");
        Ok((out, metas, problems))
    };
    match run() {
        Ok((out, metas, problems)) => {
            std::fs::write(get("--out").expect("--out"), one_broadcast(out)).unwrap();
            let ms: Vec<String> = metas
                .iter()
                .map(|m| {
                    let l = |v: &Vec<String>| format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
                    format!(
                        "{{\"key\":{},\"name\":{},\"file\":{},\"line\":{},\"status\":{},\"reason\":{},\"notes\":{},\"inlined\":{},\"loops\":{},\"closures\":{},\"props\":{},\"shape\":{},\"params\":{}}}",
                        jstr(&m.key), jstr(&m.name), jstr(&m.file), m.line, jstr(&m.status), jstr(&m.reason), l(&m.notes), l(&m.inlined), m.loops, l(&m.closures), l(&m.props), l(&m.shape), l(&m.params)
                    )
                })
                .collect();
            let ps: Vec<String> = problems.iter().map(|s| jstr(s)).collect();
            std::fs::write(get("--meta").expect("--meta"), format!("{{\"functions\":[{}],\"problems\":[{}]}}", ms.join(",\n"), ps.join(","))).unwrap();
        }
        Err(e) => {
            eprintln!("extract: {}", e);
            std::process::exit(3);
        }
    }
}

fn match_angle(s: &str) -> String {
    let mut d = 0;
    let mut prev = ' ';
    for (i, c) in s.char_indices() {
        match c {
            '<' => d += 1,
            '>' if prev != '-' => {
                d -= 1;
                if d == 0 {
                    return s[..=i].to_string();
                }
            }
            _ => (),
        }
        prev = c;
    }
    String::new()
}

/// A module may have one `broadcast use`: those at the top level become one, at the first place.
fn one_broadcast(out: String) -> String {
    let is = |l: &str| l.starts_with("broadcast use {");
    let all: Vec<String> = out.lines().filter(|l| is(l)).map(|l| l["broadcast use {".len()..].trim_end().trim_end_matches("};").to_string()).collect();
    if all.len() < 2 { return out; }
    let mut done = false;
    let mut r = String::new();
    for l in out.lines() {
        if is(l) { if !done { r.push_str(&format!("broadcast use {{{}}};", all.join(", "))); done = true; } } else { r.push_str(l); }
        r.push('\n');
    }
    r
}
