@stub .force .to_string
@raw
// ======== workloads, by their contracts (those of their builders and of force are in the enumo unit) ========
pub mod wk {
use super::*;
#[verifier::external_body]
pub struct Sexp { x: u8 }
#[verifier::external_body]
pub struct Workload { x: u8 }
impl VClone for Workload { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for Sexp { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
/// the denoted terms, in order
pub uninterp spec fn forced(w: Workload) -> Seq<Sexp>;
impl Workload { #[verifier::external_body] pub fn force(&self) -> (r: Vec<Sexp>) ensures r@ == forced(*self) { unimplemented!() } }
/// the text of a term
pub uninterp spec fn sexp_text(s: Sexp) -> Seq<char>;
impl VToString for Sexp { open spec fn shown(&self) -> Seq<char> { sexp_text(*self) } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
/// the term of the language with a text
pub uninterp spec fn expr_parse(s: Seq<char>) -> Option<RecExpr>;
impl VFromText for RecExpr { open spec fn reads(s: Seq<char>) -> Option<RecExpr> { expr_parse(s) } }
impl String {
    #[verifier::external_body]
    pub fn remove(&mut self, i: usize) -> (r: char) requires i < old(self)@.len() ensures r == old(self)@[i as int], final(self)@ == old(self)@.remove(i as int) { unimplemented!() }
}
/// the terms of the language that a workload denotes: the texts of its terms all read as terms
pub open spec fn denoted(w: Workload) -> Seq<RecExpr> { Seq::new(forced(w).len(), |i: int| expr_parse(sexp_text(forced(w)[i]))->Some_0) }
pub open spec fn readable(w: Workload) -> bool { forall|i: int| 0 <= i < forced(w).len() ==> expr_parse(sexp_text(#[trigger] forced(w)[i])) is Some }
// ---- variables, by name, in order of first occurrence ----
pub open spec fn with_var(vs: Seq<String>, n: L) -> Seq<String> { match tovar(n) { Some(s) => if vs.contains(mkstr(sym_text(s))) { vs } else { vs.push(mkstr(sym_text(s))) }, None => vs } }
pub open spec fn with_vars(vs: Seq<String>, e: Seq<L>, n: nat) -> Seq<String> decreases n { if n == 0 { vs } else { with_var(with_vars(vs, e, (n - 1) as nat), e[n - 1]) } }
pub open spec fn vars_of(es: Seq<RecExpr>, n: nat) -> Seq<String> decreases n { if n == 0 { Seq::empty() } else { with_vars(vars_of(es, (n - 1) as nat), es[n - 1].nodes@, es[n - 1].nodes@.len()) } }
// a symbol has a text that fits in memory
pub broadcast axiom fn ax_sym_str(s: Symbol) ensures mkstr(#[trigger] sym_text(s))@ == sym_text(s);
/// the e-graph after a domain has set up its variables
pub uninterp spec fn g_init(g: EGraph, vs: Seq<String>) -> EGraph;
impl L { #[verifier::external_body] pub fn initialize_vars(g: &mut EGraph, vs: &Vec<String>) ensures *final(g) == g_init(*old(g), vs@) { unimplemented!() } }
/// terms added one after the other
pub open spec fn added_exprs(g: EGraph, es: Seq<RecExpr>, n: nat) -> EGraph decreases n { if n == 0 { g } else { g_add_expr(added_exprs(g, es, (n - 1) as nat), es[n - 1]) } }
/// a workload as an e-graph: the variables first, once each, then the denoted terms in order, and nothing else
pub open spec fn materialised(w: Workload) -> EGraph { added_exprs(g_init(g_empty(), vars_of(denoted(w), denoted(w).len())), denoted(w), denoted(w).len()) }
pub open spec fn is_named(n: L, v: String) -> bool { tovar(n) matches Some(s) && sym_text(s) == v@ }
pub open spec fn occurs_in(e: Seq<L>, n: nat, v: String) -> bool { exists|i: int| 0 <= i < n && is_named(#[trigger] e[i], v) }
pub open spec fn occurs_among(es: Seq<RecExpr>, n: nat, v: String) -> bool { exists|i: int| 0 <= i < n && occurs_in((#[trigger] es[i]).nodes@, es[i].nodes@.len(), v) }
/// the text of a variable without its question mark
pub proof fn lemma_bare(n: L)
    ensures tovar(n) matches Some(s) ==> ("?"@ + sym_text(s)).len() > 0 && ("?"@ + sym_text(s)).remove(0) == sym_text(s),
{ reveal_strlit("?"); if let Some(s) = tovar(n) { assert(("?"@ + sym_text(s)).remove(0) =~= sym_text(s)); } }
pub proof fn lemma_with_var(vs: Seq<String>, n: L)
    requires vs.no_duplicates(),
    ensures with_var(vs, n).no_duplicates(), vs.is_prefix_of(with_var(vs, n)), forall|v: String| #[trigger] with_var(vs, n).contains(v) <==> vs.contains(v) || is_named(n, v),
{
    broadcast use ax_mkstr_of;
    if let Some(s) = tovar(n) {
        let x = mkstr(sym_text(s));
        ax_sym_str(s);
        assert forall|v: String| #[trigger] with_var(vs, n).contains(v) <==> vs.contains(v) || is_named(n, v) by {
            if is_named(n, v) { assert(v@ == x@); assert(mkstr(v@) == v); }
            let t = vs.push(x);
            assert(t[vs.len() as int] == x);
            if vs.contains(v) { let i = choose|i: int| 0 <= i < vs.len() && vs[i] == v; assert(t[i] == v); }
            if t.contains(v) { let i = choose|i: int| 0 <= i < t.len() && t[i] == v; if i < vs.len() { assert(vs[i] == v); } }
        }
    }
}
pub proof fn lemma_with_vars(vs: Seq<String>, e: Seq<L>, n: nat)
    requires vs.no_duplicates(), n <= e.len(),
    ensures with_vars(vs, e, n).no_duplicates(), vs.is_prefix_of(with_vars(vs, e, n)), forall|v: String| #[trigger] with_vars(vs, e, n).contains(v) <==> vs.contains(v) || occurs_in(e, n, v),
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_with_vars(vs, e, m);
        lemma_with_var(with_vars(vs, e, m), e[m as int]);
        assert forall|v: String| #[trigger] with_vars(vs, e, n).contains(v) <==> vs.contains(v) || occurs_in(e, n, v) by {
            assert(with_var(with_vars(vs, e, m), e[m as int]).contains(v) <==> with_vars(vs, e, m).contains(v) || is_named(e[m as int], v));
        }
    }
}
/// C22: the variables set up are exactly those occurring in denoted terms, once each, in order of first occurrence:
/// every prefix of the terms gives a prefix of the list
pub proof fn theorem_vars(es: Seq<RecExpr>, n: nat)
    requires n <= es.len(),
    ensures
        vars_of(es, n).no_duplicates(),
        forall|v: String| #[trigger] vars_of(es, n).contains(v) <==> occurs_among(es, n, v),
        n > 0 ==> vars_of(es, (n - 1) as nat).is_prefix_of(vars_of(es, n)),
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        theorem_vars(es, m);
        lemma_with_vars(vars_of(es, m), es[m as int].nodes@, es[m as int].nodes@.len());
        assert forall|v: String| #[trigger] vars_of(es, n).contains(v) <==> occurs_among(es, n, v) by {
            assert(with_vars(vars_of(es, m), es[m as int].nodes@, es[m as int].nodes@.len()).contains(v) <==> vars_of(es, m).contains(v) || occurs_in(es[m as int].nodes@, es[m as int].nodes@.len(), v));
        }
    } else {
        assert forall|v: String| #[trigger] vars_of(es, n).contains(v) <==> occurs_among(es, n, v) by {}
    }
}
// ---- what an e-graph answers about its terms ----
/// egg: adding a term makes it present, keeps what is present, and unites no classes by itself
pub open spec fn present(g: EGraph, e: RecExpr) -> bool { g_lookup(g, e) is Some }
pub axiom fn ax_add_present(g: EGraph, e: RecExpr) ensures present(g_add_expr(g, e), e), forall|f: RecExpr| present(g, f) ==> #[trigger] present(g_add_expr(g, e), f);
/// C22: every denoted term is present in the e-graph
pub proof fn theorem_present(g: EGraph, es: Seq<RecExpr>, n: nat, k: int)
    requires 0 <= k < n <= es.len(),
    ensures present(added_exprs(g, es, n), es[k]),
    decreases n,
{
    let m = (n - 1) as nat;
    ax_add_present(added_exprs(g, es, m), es[m as int]);
    if k < m { theorem_present(g, es, m, k); }
}
} // mod wk
use wk::*;
@fn Workload::to_egraph
@props C22
@flags panics-ok
@sig pub fn to_egraph(&self) -> (r: EGraph)
@spec
    ensures readable(*self), r == materialised(*self),
@entry
    broadcast use {ax_var_of, ax_mkstr_of};
@loop 0
    $s == forced(*self)
    forall|k: int| 0 <= k < $i ==> expr_parse(sexp_text(#[trigger] forced(*self)[k])) is Some
    $acc@ =~= vars_of(denoted(*self), $i)
@loop 1
    $acc@ =~= with_vars(vars_of(denoted(*self), vx_k), $s, $i)
    $s == denoted(*self)[vx_k as int].nodes@
@body 0
    let ghost vx_k = $i;
@body 1
    proof { lemma_bare($s[$i as int]); }
@loop 2
    $s == forced(*self)
    $acc == added_exprs(g_init(g_empty(), vars_of(denoted(*self), denoted(*self).len())), denoted(*self), $i)
    readable(*self)
@end
