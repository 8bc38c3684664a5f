//! The language parameter as one opaque type: `L` stands for an arbitrary implementation of SynthLanguage, so type
//! parameters and arguments naming it are dropped, `L::Constant` becomes `Constant`, and the default methods of the
//! trait become methods of `L`.
use crate::types::*;
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Mono {
    /// type parameters taken as opaque types
    pub params: BTreeSet<String>,
    /// types that lose their arguments
    pub bases: BTreeSet<String>,
    pub tr: String,
    pub self_is_l: bool,
}
impl Mono {
    pub fn new(spec: &str) -> Mono {
        // PARAM.. / TRAIT / BASE..
        let p: Vec<Vec<String>> = spec.split('/').map(|x| x.split_whitespace().map(|s| s.to_string()).collect()).collect();
        Mono {
            params: p[0].iter().cloned().collect(),
            tr: p.get(1).and_then(|x| x.first()).cloned().unwrap_or_default(),
            bases: p.get(2).map_or(Default::default(), |x| x.iter().cloned().collect()),
            self_is_l: false,
        }
    }
    fn fixed(&self, a: &AngleBracketedGenericArguments) -> bool {
        !a.args.is_empty() && a.args.iter().all(|x| self.params.contains(&toks(x)))
    }
    fn l(&self) -> String {
        "L".into()
    }
}
impl VisitMut for Mono {
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        let keep: Vec<GenericParam> = g.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if self.params.contains(&t.ident.to_string()))).cloned().collect();
        g.params = keep.into_iter().collect();
        if g.params.is_empty() {
            g.lt_token = None;
            g.gt_token = None;
        }
        visit_mut::visit_generics_mut(self, g);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if p.qself.is_some() && last(&p.path) == "Constant" {
                *t = parse_quote!(Constant);
            }
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        let l = self.l();
        if self.self_is_l && p.segments[0].ident == "Self" {
            p.segments[0].ident = Ident::new(&l, p.segments[0].ident.span());
        }
        if p.segments.len() == 2 && p.segments[1].ident == "Constant" && self.params.contains(&p.segments[0].ident.to_string()) {
            *p = parse_quote!(Constant);
        }
        for s in p.segments.iter_mut() {
            let n = s.ident.to_string();
            if self.bases.contains(&n) {
                if let PathArguments::AngleBracketed(_) = s.arguments {
                    s.arguments = PathArguments::None;
                }
            } else if self.tr == n {
                s.arguments = PathArguments::None;
            } else if let PathArguments::AngleBracketed(a) = &s.arguments {
                // type arguments that are fixed for the whole unit are not written
                if n.starts_with(char::is_lowercase) && self.fixed(a) {
                    s.arguments = PathArguments::None;
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        if matches!(&m.turbofish, Some(a) if self.fixed(a)) {
            m.turbofish = None;
        }
        visit_mut::visit_expr_method_call_mut(self, m);
    }
    fn visit_item_trait_mut(&mut self, t: &mut ItemTrait) {
        let me = t.ident == self.tr;
        self.self_is_l = me;
        visit_mut::visit_item_trait_mut(self, t);
        self.self_is_l = false;
    }
}
