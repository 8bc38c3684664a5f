//! Iterators bound to a name are evaluated where they are consumed: `let it = xs.iter().map(f); it.sum()` is read as
//! `xs.iter().map(f).sum()`.  Only immutable bindings (they cannot be advanced in between) that no later pattern of the
//! block shadows.
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Binds<'a>(&'a str, bool);
impl<'a, 'ast> Visit<'ast> for Binds<'a> {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        if p.ident == self.0 {
            self.1 = true;
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        // a macro's text is not looked into
        if m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == self.0) {
            self.1 = true;
        }
    }
}
struct Put<'a>(&'a str, &'a Expr);
impl<'a> VisitMut for Put<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident(self.0) {
                *e = self.1.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
pub struct Lazy;
impl VisitMut for Lazy {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let found = match &b.stmts[i] {
                Stmt::Local(l) => match (&l.pat, &l.init) {
                    (Pat::Ident(p), Some(init)) if p.mutability.is_none() && p.by_ref.is_none() && init.diverge.is_none() => match &*init.expr {
                        Expr::MethodCall(_) if crate::emit::lazy(&init.expr) => Some((p.ident.to_string(), (*init.expr).clone())),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            if let Some((n, e)) = found {
                let mut v = Binds(&n, false);
                b.stmts[i + 1..].iter().for_each(|s| v.visit_stmt(s));
                if !v.1 {
                    b.stmts.remove(i);
                    for s in &mut b.stmts[i..] {
                        Put(&n, &e).visit_stmt_mut(s);
                    }
                    continue;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
