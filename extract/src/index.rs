//! The repository's items, by name.
use crate::types::*;
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::*;

#[derive(Clone)]
pub struct FnItem {
    pub key: String,
    /// `impl<..> Type<..>` header for methods
    pub header: Option<(String, String)>,
    pub self_ty: Option<String>,
    pub in_trait: bool,
    pub sig: Signature,
    pub block: Block,
    pub file: String,
    pub line: usize,
    /// a constant, taken as a function without arguments
    pub is_const: bool,
}
#[derive(Default)]
pub struct RepoIndex {
    pub fns: BTreeMap<String, Vec<FnItem>>,
    pub types: BTreeMap<String, (syn::Item, String, usize)>,
    pub consts: BTreeMap<String, (syn::Expr, String)>,
    pub aliases: BTreeMap<String, String>,
    /// egg::define_language! enums: variants with operator text and argument types
    pub langs: BTreeMap<String, (Vec<(String, Option<String>, Type)>, String, usize)>,
    pub macros: BTreeMap<String, (ItemMacro, String)>,
    pub calls: BTreeMap<String, Vec<(String, ItemMacro)>>,
    pub mono: Option<String>,
}

fn const_fn(key: &str, id: &Ident, t: &Type, e: &syn::Expr, header: Option<(String, String)>, self_ty: Option<String>, file: &str) -> FnItem {
    FnItem {
        key: key.into(),
        header,
        self_ty,
        in_trait: false,
        sig: parse_quote!(fn #id() -> #t),
        block: parse_quote!({ #e }),
        file: file.into(),
        line: id.span().start().line,
        is_const: true,
    }
}
/// `pub enum Name { "op" = Variant(Type), Variant(Type), ... }`
fn language(i: parse::ParseStream) -> Result<(Ident, Vec<(String, Option<String>, Type)>)> {
    i.call(Attribute::parse_outer)?;
    i.parse::<Visibility>()?;
    i.parse::<Token![enum]>()?;
    let n: Ident = i.parse()?;
    let c;
    braced!(c in i);
    let mut vs = vec![];
    while !c.is_empty() {
        let op = if c.peek(LitStr) {
            let s: LitStr = c.parse()?;
            c.parse::<Token![=]>()?;
            Some(s.value())
        } else {
            None
        };
        let v: Ident = c.parse()?;
        let t = if c.peek(token::Paren) {
            let a;
            parenthesized!(a in c);
            a.parse::<Type>()?
        } else {
            parse_quote!(())
        };
        vs.push((v.to_string(), op, t));
        if !c.is_empty() {
            c.parse::<Token![,]>()?;
        }
    }
    Ok((n, vs))
}
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && toks(a).contains("test"))
}

impl RepoIndex {
    pub fn load(root: &std::path::Path, mono: Option<String>) -> Res<RepoIndex> {
        let mut ix = RepoIndex { mono, ..Default::default() };
        let mut dirs = vec![root.join("src")];
        while let Some(d) = dirs.pop() {
            let mut es: Vec<_> = std::fs::read_dir(&d).map_err(|e| e.to_string())?.map(|e| e.unwrap().path()).collect();
            es.sort();
            for p in es {
                if p.is_dir() {
                    dirs.push(p);
                } else if p.extension().map_or(false, |e| e == "rs") {
                    let text = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
                    let mut f = syn::parse_file(&text).map_err(|e| format!("{}: {}", p.display(), e))?;
                    syn::visit_mut::VisitMut::visit_file_mut(&mut Foreign, &mut f);
                    syn::visit_mut::VisitMut::visit_file_mut(&mut crate::lazy::Lazy, &mut f);
                    if let Some(m) = &ix.mono {
                        syn::visit_mut::VisitMut::visit_file_mut(&mut crate::mono::Mono::new(m), &mut f);
                    }
                    let rel = p.strip_prefix(root).unwrap().display().to_string();
                    ix.items(&f.items, &rel);
                }
            }
        }
        Ok(ix)
    }
    pub fn items(&mut self, items: &[syn::Item], file: &str) {
        for it in items {
            match it {
                syn::Item::Fn(f) if !is_test(&f.attrs) => self.add(FnItem {
                    key: f.sig.ident.to_string(),
                    header: None,
                    self_ty: None,
                    in_trait: false,
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                    file: file.into(),
                    line: f.sig.ident.span().start().line,
                    is_const: false,
                }),
                syn::Item::Impl(im) if !is_test(&im.attrs) => {
                    let t = match &*im.self_ty {
                        Type::Path(p) => last(&p.path),
                        t => toks(t),
                    };
                    let tyargs = ty(&im.self_ty).unwrap_or_else(|_| t.clone());
                    let g = toks(&im.generics);
                    let wc = im.generics.where_clause.as_ref().map(|w| toks(w)).unwrap_or_default();
                    for x in &im.items {
                        if let ImplItem::Const(c) = x {
                            self.add(const_fn(&format!("{}::{}", t, c.ident), &c.ident, &c.ty, &c.expr, Some((format!("impl {} {}", g, tyargs), wc.clone())), Some(tyargs.clone()), file));
                        }
                        if let ImplItem::Fn(m) = x {
                            let name = m.sig.ident.to_string();
                            let key = match &im.trait_ {
                                Some((_, p, _)) => {
                                    let tr = last(p);
                                    let targ = match &p.segments.last().unwrap().arguments {
                                        PathArguments::None => String::new(),
                                        a => format!("<{}>", toks(a).replace(['<', '>', ' '], "")),
                                    };
                                    format!("{}::{}{}::{}", t, tr, targ, name)
                                }
                                None => format!("{}::{}", t, name),
                            };
                            self.add(FnItem {
                                key,
                                header: Some((format!("impl {} {}", vbounds(&g), tyargs), wc.clone())),
                                self_ty: Some(tyargs.clone()),
                                in_trait: false,
                                sig: m.sig.clone(),
                                block: m.block.clone(),
                                file: file.into(),
                                line: m.sig.ident.span().start().line,
                                is_const: false,
                            })
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    for x in &t.items {
                        if let TraitItem::Fn(m) = x {
                            if let Some(b) = &m.default {
                                let l = self.mono.as_ref().map_or(false, |x| crate::mono::Mono::new(x).tr == t.ident.to_string());
                                let n = if l { "L".to_string() } else { t.ident.to_string() };
                                self.add(FnItem {
                                    key: format!("{}::{}", n, m.sig.ident),
                                    header: if l { Some(("impl L".into(), String::new())) } else { None },
                                    self_ty: Some(n),
                                    in_trait: !l,
                                    sig: m.sig.clone(),
                                    block: b.clone(),
                                    file: file.into(),
                                    line: m.sig.ident.span().start().line,
                                is_const: false,
                                })
                            }
                        }
                    }
                }
                syn::Item::Enum(e) => {
                    self.types.insert(e.ident.to_string(), (it.clone(), file.into(), e.ident.span().start().line));
                }
                syn::Item::Struct(e) => {
                    self.types.insert(e.ident.to_string(), (it.clone(), file.into(), e.ident.span().start().line));
                }
                syn::Item::Const(c) => {
                    self.add(const_fn(&c.ident.to_string(), &c.ident, &c.ty, &c.expr, None, None, file));
                    self.consts.insert(c.ident.to_string(), (*c.expr.clone(), toks(&c.ty)));
                }
                syn::Item::Macro(m) => {
                    if last(&m.mac.path) == "define_language" {
                        if let Ok((n, vs)) = m.mac.parse_body_with(language) {
                            self.langs.insert(n.to_string(), (vs, file.into(), n.span().start().line));
                        }
                    }
                    if let Some(i) = &m.ident {
                        self.macros.insert(i.to_string(), (m.clone(), file.into()));
                    } else {
                        self.calls.entry(last(&m.mac.path)).or_default().push((file.into(), m.clone()));
                    }
                }
                syn::Item::Type(t) => {
                    self.aliases.insert(t.ident.to_string(), toks(&t.ty));
                }
                syn::Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, its)) = &m.content {
                        self.items(its, file)
                    }
                }
                _ => (),
            }
        }
    }
    fn add(&mut self, f: FnItem) {
        // functions declared inside a body, by their own names
        struct Nested<'a>(&'a mut Vec<ItemFn>);
        impl<'a, 'b> visit::Visit<'b> for Nested<'a> {
            fn visit_item_fn(&mut self, f: &'b ItemFn) {
                self.0.push(f.clone());
            }
        }
        let mut ns = vec![];
        visit::Visit::visit_block(&mut Nested(&mut ns), &f.block);
        for n in ns {
            let line = n.sig.ident.span().start().line;
            self.add(FnItem { key: n.sig.ident.to_string(), header: None, self_ty: None, in_trait: false, sig: n.sig, block: *n.block, file: f.file.clone(), line, is_const: false });
        }
        self.fns.entry(f.key.clone()).or_default().push(f)
    }

    /// the items of a `($x:literal) => { ... }` macro at a value
    pub fn expand(&mut self, name: &str, value: &str) -> Res<()> {
        let (m, file) = self.macros.get(name).cloned().ok_or(format!("macro {} not found", name))?;
        let mut it = m.mac.tokens.clone().into_iter();
        use proc_macro2::*;
        let pat = match it.next() {
            Some(TokenTree::Group(g)) => g.stream().to_string(),
            _ => return Err(format!("macro {}", name)),
        };
        let var = pat.trim_start_matches('$').split(':').next().unwrap().trim().to_string();
        let body = loop {
            match it.next() {
                Some(TokenTree::Group(g)) => break g.stream(),
                Some(_) => continue,
                None => return Err(format!("macro {}", name)),
            }
        };
        let val: TokenStream = value.parse().map_err(|_| "macro value")?;
        fn sub(s: TokenStream, var: &str, val: &TokenStream) -> TokenStream {
            let mut out = TokenStream::new();
            let v: Vec<TokenTree> = s.into_iter().collect();
            let mut i = 0;
            while i < v.len() {
                if let TokenTree::Punct(p) = &v[i] {
                    if p.as_char() == '$' {
                        if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                            if id == var {
                                out.extend(val.clone());
                                i += 2;
                                continue;
                            }
                            if id == "crate" {
                                out.extend("crate".parse::<TokenStream>().unwrap());
                                i += 2;
                                continue;
                            }
                        }
                    }
                }
                match &v[i] {
                    TokenTree::Group(g) => {
                        let mut ng = Group::new(g.delimiter(), sub(g.stream(), var, val));
                        ng.set_span(g.span());
                        out.extend([TokenTree::Group(ng)])
                    }
                    t => out.extend([t.clone()]),
                }
                i += 1;
            }
            out
        }
        let ts = sub(body, &var, &val);
        let mut f: syn::File = syn::parse2(ts).map_err(|e| format!("macro {}: {}", name, e))?;
        syn::visit_mut::VisitMut::visit_file_mut(&mut Foreign, &mut f);
        syn::visit_mut::VisitMut::visit_file_mut(&mut crate::lazy::Lazy, &mut f);
        self.items(&f.items, &file);
        let _ = f.to_token_stream();
        Ok(())
    }
}

/// types of other crates that share a name with types of the repository: `z3::ast::BV` becomes `Z3BV`
struct Foreign;
impl visit_mut::VisitMut for Foreign {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.len() >= 2 && (p.segments[0].ident == "z3" || p.segments[0].ident == "symbolic_expressions") {
            let pre = if p.segments[0].ident == "z3" { "Z3" } else { "Sym" };
            let mut v: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
            if v.len() > 1 && (v[0].ident == "ast" || v[0].ident == "parser") {
                v.remove(0);
            }
            if v[0].ident.to_string().starts_with(char::is_uppercase) {
                v[0].ident = Ident::new(&format!("{}{}", pre, v[0].ident), v[0].ident.span());
            }
            if let PathArguments::AngleBracketed(a) = &v[0].arguments {
                if a.args.iter().all(|x| matches!(x, GenericArgument::Lifetime(_))) {
                    v[0].arguments = PathArguments::None;
                }
            }
            p.leading_colon = None;
            p.segments = v.into_iter().collect();
        }
    }
}

/// bounds the verifier knows under other names, or that only concern printing
fn vbounds(g: &str) -> String {
    g.replace(" + Display", "").replace(" + Debug", "").replace("Ord", "VOrd").replace("VVOrd", "VOrd")
}
