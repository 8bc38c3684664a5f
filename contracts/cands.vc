@raw
// ======== candidate rules (C18, C19) ========
pub mod ca {
use super::*;
  broadcast use {ax_im_wf, ax_mkim_of};
/// rules between the two patterns put into a ruleset, in both directions where they can be rules
pub open spec fn put_rule(s: Seq<(String, Rule)>, r: Option<Rule>) -> Seq<(String, Rule)> { match r { Some(x) => im_put(s, x.name, x), None => s } }
pub open spec fn put_both(s: Seq<(String, Rule)>, l: Pattern, r: Pattern) -> Seq<(String, Rule)> { put_rule(put_rule(s, rule_new(l, r)), rule_new(r, l)) }
pub open spec fn both_of(ps: Seq<(Pattern, Pattern)>, n: nat) -> Seq<(String, Rule)> decreases n { if n == 0 { Seq::empty() } else { put_both(both_of(ps, (n - 1) as nat), ps[n - 1].0, ps[n - 1].1) } }
pub open spec fn pats_of(es: Seq<(RecExpr, RecExpr)>, ps: Seq<(Pattern, Pattern)>) -> bool { ps.len() == es.len() && forall|i: int| 0 <= i < es.len() ==> from_pair(es[i].0, es[i].1, (#[trigger] ps[i]).0, ps[i].1) }
/// a ruleset of the rules between these pairs of terms, and nothing else
pub open spec fn built(es: Seq<(RecExpr, RecExpr)>, s: Seq<(String, Rule)>) -> bool { exists|ps: Seq<(Pattern, Pattern)>| #[trigger] pats_of(es, ps) && s == both_of(ps, ps.len()) }
pub open spec fn paired(s: Seq<(String, Rule)>, e1: RecExpr, e2: RecExpr, t: Seq<(String, Rule)>) -> bool { exists|l: Pattern, r: Pattern| #[trigger] from_pair(e1, e2, l, r) && t == put_both(s, l, r) }
pub broadcast proof fn lemma_built(es: Seq<(RecExpr, RecExpr)>, s: Seq<(String, Rule)>, e1: RecExpr, e2: RecExpr, t: Seq<(String, Rule)>)
    requires #[trigger] built(es, s), #[trigger] paired(s, e1, e2, t),
    ensures built(es.push((e1, e2)), t),
{
    let ps = choose|ps: Seq<(Pattern, Pattern)>| #[trigger] pats_of(es, ps) && s == both_of(ps, ps.len());
    let (l, r) = choose|l: Pattern, r: Pattern| #[trigger] from_pair(e1, e2, l, r) && t == put_both(s, l, r);
    let qs = ps.push((l, r));
    lemma_both_prefix(ps, qs, ps.len());
    assert forall|i: int| 0 <= i < qs.len() implies from_pair(es.push((e1, e2))[i].0, es.push((e1, e2))[i].1, (#[trigger] qs[i]).0, qs[i].1) by { if i < ps.len() { assert(qs[i] == ps[i]); } }
    assert(pats_of(es.push((e1, e2)), qs));
}
pub proof fn lemma_both_prefix(a: Seq<(Pattern, Pattern)>, b: Seq<(Pattern, Pattern)>, n: nat)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures both_of(a, n) == both_of(b, n),
    decreases n,
{ if n > 0 { lemma_both_prefix(a, b, (n - 1) as nat); } }
pub broadcast proof fn lemma_from_pair(e1: RecExpr, e2: RecExpr, l: Pattern, r: Pattern, m1: Map<Symbol, Var>, m2: Map<Symbol, Var>)
    requires #[trigger] named_for(Map::empty(), e1, m1), #[trigger] named_for(m1, e2, m2), #[trigger] general(e1, l, m1), #[trigger] general(e2, r, m2),
    ensures from_pair(e1, e2, l, r),
{}
pub proof fn lemma_built_none() ensures built(Seq::empty(), Seq::empty()) { assert(pats_of(Seq::empty(), Seq::empty())); assert(both_of(Seq::empty(), 0) == Seq::<(String, Rule)>::empty()); }
pub assume_specification [usize::max_value] () -> (r: usize) ensures r == usize::MAX;
// ---- egg's extractor: a smallest term of a class under a cost function ----
pub trait VCost: Sized { spec fn csize(e: RecExpr) -> nat; }
impl VCost for ExtractableAstSize { open spec fn csize(e: RecExpr) -> nat { ext_size(e) } }
impl VCost for AstSize { open spec fn csize(e: RecExpr) -> nat { rec_size(e) } }
pub struct Extractor<C> { pub g: Ghost<EGraph>, pub c: C }
/// the term is one of the class's
pub uninterp spec fn represents(g: EGraph, a: Id, e: RecExpr) -> bool;
pub uninterp spec fn best<C>(g: EGraph, a: Id) -> RecExpr;
impl<C: VCost> Extractor<C> {
    #[verifier::external_body]
    pub fn new(g: &EGraph, c: C) -> (r: Self) ensures r.g@ == *g { unimplemented!() }
    #[verifier::external_body]
    pub fn find_best(&self, a: Id) -> (r: (usize, RecExpr)) ensures r.0 == C::csize(r.1), r.1 == best::<C>(self.g@, a), smallest::<C>(self.g@, a, r.1), rec_wf(r.1) { unimplemented!() }
}
pub open spec fn smallest<C: VCost>(g: EGraph, a: Id, e: RecExpr) -> bool { represents(g, a, e) && forall|f: RecExpr| #[trigger] represents(g, a, f) ==> C::csize(e) <= C::csize(f) }
pub broadcast axiom fn ax_best<C: VCost>(g: EGraph, a: Id) ensures smallest::<C>(g, a, #[trigger] best::<C>(g, a)), rec_wf(best::<C>(g, a));
// ---- from two e-graphs (C19) ----
pub open spec fn finite(g: EGraph, a: Id) -> bool { ext_size(best::<ExtractableAstSize>(g, a)) != usize::MAX }
pub open spec fn ext_pair(g: EGraph, a: Id, b: Id) -> (RecExpr, RecExpr) { (best::<ExtractableAstSize>(g, a), best::<ExtractableAstSize>(g, b)) }
/// two classes of g that h has merged, with different smallest allowed terms
pub open spec fn newly(g: EGraph, h: EGraph, a: Id, b: Id) -> bool { class_of(g, a) && class_of(g, b) && same_class(h, a, b) && worth(g, a, b) }
pub open spec fn worth(g: EGraph, a: Id, b: Id) -> bool { finite(g, a) && finite(g, b) && ext_pair(g, a, b).0 != ext_pair(g, a, b).1 }
#[verifier::opaque]
pub open spec fn news(g: EGraph, h: EGraph, es: Seq<(RecExpr, RecExpr)>) -> bool { forall|i: int| 0 <= i < es.len() ==> new_pair(g, h, #[trigger] es[i]) }
pub open spec fn new_pair(g: EGraph, h: EGraph, e: (RecExpr, RecExpr)) -> bool { exists|a: Id, b: Id| #[trigger] newly(g, h, a, b) && e == ext_pair(g, a, b) }
pub open spec fn all_news(g: EGraph, h: EGraph, es: Seq<(RecExpr, RecExpr)>) -> bool { forall|a: Id, b: Id| #[trigger] newly(g, h, a, b) ==> es.contains(ext_pair(g, a, b)) }
pub open spec fn exactly_new(g: EGraph, h: EGraph, s: Seq<(String, Rule)>) -> bool { exists|es: Seq<(RecExpr, RecExpr)>| #[trigger] built(es, s) && news(g, h, es) && all_news(g, h, es) }
/// the pairs with its x-th member first, up to the y-th
#[verifier::opaque]
pub open spec fn row(g: EGraph, v: Seq<Id>, x: int, y: int, es: Seq<(RecExpr, RecExpr)>) -> bool { forall|j: int| 0 <= j < y && worth(g, v[x], #[trigger] v[j]) ==> es.contains(ext_pair(g, v[x], v[j])) }
#[verifier::opaque]
pub open spec fn rows(g: EGraph, v: Seq<Id>, x: int, es: Seq<(RecExpr, RecExpr)>) -> bool { forall|i: int| 0 <= i < x ==> row(g, v, i, v.len() as int, es) }
pub proof fn lemma_new_push(g: EGraph, h: EGraph, v: Seq<Id>, x: int, y: int, es: Seq<(RecExpr, RecExpr)>)
    requires news(g, h, es), 0 <= x < v.len(), 0 <= y < v.len(), class_of(g, v[x]), class_of(g, v[y]), same_class(h, v[x], v[y]), worth(g, v[x], v[y]),
    ensures news(g, h, es.push(ext_pair(g, v[x], v[y]))), es.push(ext_pair(g, v[x], v[y])).contains(ext_pair(g, v[x], v[y])), more(es, es.push(ext_pair(g, v[x], v[y]))),
{
    reveal(news);
    let e = ext_pair(g, v[x], v[y]);
    assert(newly(g, h, v[x], v[y]));
    assert(es.push(e)[es.len() as int] == e);
    assert forall|i: int| 0 <= i < es.push(e).len() implies new_pair(g, h, #[trigger] es.push(e)[i]) by { if i < es.len() { assert(es[i] == es.push(e)[i]); } }
    lemma_more(es, e);
}
pub proof fn lemma_rows_more(g: EGraph, v: Seq<Id>, x: int, es: Seq<(RecExpr, RecExpr)>, fs: Seq<(RecExpr, RecExpr)>)
    requires rows(g, v, x, es), more(es, fs),
    ensures rows(g, v, x, fs),
{ reveal(rows); reveal(row); assert forall|i: int| 0 <= i < x implies row(g, v, i, v.len() as int, fs) by { assert(row(g, v, i, v.len() as int, es)); } }
pub open spec fn cell(g: EGraph, v: Seq<Id>, x: int, y: int, es: Seq<(RecExpr, RecExpr)>) -> Seq<(RecExpr, RecExpr)> { if worth(g, v[x], v[y]) { es.push(ext_pair(g, v[x], v[y])) } else { es } }
pub proof fn lemma_cell(g: EGraph, h: EGraph, vs: Seq<Vec<Id>>, n: int, v: Seq<Id>, x: int, y: int, es: Seq<(RecExpr, RecExpr)>)
    requires news(g, h, es), groups_done(g, vs, n, es), rows(g, v, x, es), row(g, v, x, y, es), 0 <= x < v.len(), 0 <= y < v.len(), class_of(g, v[x]), class_of(g, v[y]), same_class(h, v[x], v[y]),
    ensures ({ let fs = cell(g, v, x, y, es); news(g, h, fs) && groups_done(g, vs, n, fs) && rows(g, v, x, fs) && row(g, v, x, y + 1, fs) }),
{
    let fs = cell(g, v, x, y, es);
    if worth(g, v[x], v[y]) { lemma_new_push(g, h, v, x, y, es); }
    assert(more(es, fs));
    lemma_rows_more(g, v, x, es, fs);
    assert(groups_done(g, vs, n, fs)) by { reveal(groups_done); assert forall|p: int| 0 <= p < n implies rows(g, (#[trigger] vs[p])@, vs[p]@.len() as int, fs) by { lemma_rows_more(g, vs[p]@, vs[p]@.len() as int, es, fs); } }
    assert(row(g, v, x, y + 1, fs)) by { reveal(row); }
}
pub proof fn lemma_starts(g: EGraph, h: EGraph, vs: Seq<Vec<Id>>, v: Seq<Id>, x: int, es: Seq<(RecExpr, RecExpr)>)
    ensures groups_done(g, vs, 0, es), rows(g, v, 0, es), row(g, v, x, 0, es), es.len() == 0 ==> news(g, h, es),
        row(g, v, x, v.len() as int, es) && rows(g, v, x, es) ==> rows(g, v, x + 1, es),
        !finite(g, v[x]) ==> row(g, v, x, v.len() as int, es),
        forall|n: int| groups_done(g, vs, n, es) && vs[n]@ == v && rows(g, v, v.len() as int, es) ==> #[trigger] groups_done(g, vs, n + 1, es),
{ reveal(groups_done); reveal(rows); reveal(row); reveal(news); }
pub open spec fn more(a: Seq<(RecExpr, RecExpr)>, b: Seq<(RecExpr, RecExpr)>) -> bool { forall|p: (RecExpr, RecExpr)| #[trigger] a.contains(p) ==> b.contains(p) }
pub proof fn lemma_more(es: Seq<(RecExpr, RecExpr)>, e: (RecExpr, RecExpr)) ensures more(es, es.push(e)), es.push(e).contains(e) {
    assert(es.push(e)[es.len() as int] == e);
    assert forall|p: (RecExpr, RecExpr)| #[trigger] es.contains(p) implies es.push(e).contains(p) by { let i = choose|i: int| 0 <= i < es.len() && es[i] == p; assert(es.push(e)[i] == p); }
}
#[verifier::opaque]
pub open spec fn groups_done(g: EGraph, vs: Seq<Vec<Id>>, n: int, es: Seq<(RecExpr, RecExpr)>) -> bool { forall|p: int| 0 <= p < n ==> rows(g, (#[trigger] vs[p])@, vs[p]@.len() as int, es) }
pub proof fn lemma_all_news(g: EGraph, h: EGraph, ids: Seq<Id>, m: Map<Id, Vec<Id>>, vs: Seq<Vec<Id>>, es: Seq<(RecExpr, RecExpr)>)
    requires ids =~= class_ids(g), grouped(m, h, ids, ids.len()), vals_are(m, vs), groups_done(g, vs, vs.len() as int, es),
    ensures all_news(g, h, es),
{
    reveal(groups_done); reveal(rows); reveal(row);
    assert forall|a: Id, b: Id| #[trigger] newly(g, h, a, b) implies es.contains(ext_pair(g, a, b)) by {
        let i = choose|i: int| 0 <= i < g_classes(g).len() && (#[trigger] g_classes(g)[i]).id == a;
        let j = choose|j: int| 0 <= j < g_classes(g).len() && (#[trigger] g_classes(g)[j]).id == b;
        assert(ids[i] == a && ids[j] == b);
        let k = g_find(h, a);
        assert(in_group(m, k, a) && in_group(m, k, b));
        let p = choose|p: int| 0 <= p < vs.len() && vs[p] == m[k];
        let x = choose|x: int| 0 <= x < m[k]@.len() && m[k]@[x] == a;
        let y = choose|y: int| 0 <= y < m[k]@.len() && m[k]@[y] == b;
        assert(rows(g, vs[p]@, vs[p]@.len() as int, es));
        assert(row(g, vs[p]@, x, vs[p]@.len() as int, es));
        assert(worth(g, vs[p]@[x], vs[p]@[y]));
    }
}
// ---- sizes without disallowed operators ----
pub open spec fn asks<C: Fn(Id) -> usize>(c: C, f: spec_fn(Id) -> nat) -> bool { forall|a: Id, r: usize| #[trigger] c.ensures((a,), r) ==> r == f(a) }
pub open spec fn costs_of(e: Seq<L>, cs: Seq<nat>) -> bool { cs.len() == e.len() && forall|i: int| 0 <= i < e.len() ==> #[trigger] cs[i] == node_cost(e[i], |a: Id| cs[a.i as int]) }
/// egg sizes a term by sizing its nodes in order with the contract of `cost` below
pub axiom fn ax_ext_size(e: RecExpr) requires rec_wf(e) ensures exists|cs: Seq<nat>| #[trigger] costs_of(e.nodes@, cs) && ext_size(e) == cs.last();
pub open spec fn only_allowed(e: Seq<L>, i: int) -> bool decreases i { allowed_op(e[i]) && forall|k: int| 0 <= k < kids(e[i]).len() ==> 0 <= (#[trigger] kids(e[i])[k]).i < i && only_allowed(e, kids(e[i])[k].i as int) }
pub proof fn lemma_sat_sum(f: spec_fn(Id) -> nat, ks: Seq<Id>, n: nat, k: int)
    requires sat_sum(f, ks, n) < usize::MAX, 0 <= k < n <= ks.len(),
    ensures f(ks[k]) < usize::MAX,
    decreases n,
{ if k < n - 1 { lemma_sat_sum(f, ks, (n - 1) as nat, k); } }
pub proof fn lemma_only_allowed(e: Seq<L>, cs: Seq<nat>, i: int)
    requires nodes_wf(e), costs_of(e, cs), 0 <= i < e.len(), cs[i] < usize::MAX,
    ensures only_allowed(e, i),
    decreases i,
{
    let f = |a: Id| cs[a.i as int];
    assert(cs[i] == node_cost(e[i], f));
    assert(rec_node_wf(e[i], i));
    assert forall|k: int| 0 <= k < kids(e[i]).len() implies 0 <= (#[trigger] kids(e[i])[k]).i < i && only_allowed(e, kids(e[i])[k].i as int) by {
        lemma_sat_sum(f, kids(e[i]), kids(e[i]).len(), k);
        lemma_only_allowed(e, cs, kids(e[i])[k].i as int);
    }
}
/// C19: no term of a candidate has an operator that is not allowed in rules, and both are smallest in their classes
pub proof fn theorem_candidates(g: EGraph, h: EGraph, es: Seq<(RecExpr, RecExpr)>)
    requires news(g, h, es),
    ensures forall|i: int| 0 <= i < es.len() ==> all_allowed((#[trigger] es[i]).0) && all_allowed(es[i].1) && smallest_of_two(g, h, es[i]),
{
    reveal(news);
    broadcast use ax_best;
    assert forall|i: int| 0 <= i < es.len() implies all_allowed((#[trigger] es[i]).0) && all_allowed(es[i].1) && smallest_of_two(g, h, es[i]) by {
        assert(new_pair(g, h, es[i]));
        let (a, b) = choose|a: Id, b: Id| #[trigger] newly(g, h, a, b) && es[i] == ext_pair(g, a, b);
        lemma_finite(g, a);
        lemma_finite(g, b);
        assert(a != b);
    }
}
pub open spec fn all_allowed(e: RecExpr) -> bool { only_allowed(e.nodes@, e.nodes@.len() - 1) }
pub open spec fn smallest_of_two(g: EGraph, h: EGraph, e: (RecExpr, RecExpr)) -> bool { exists|a: Id, b: Id| a != b && #[trigger] newly(g, h, a, b) && smallest::<ExtractableAstSize>(g, a, e.0) && smallest::<ExtractableAstSize>(g, b, e.1) }
pub proof fn lemma_finite(g: EGraph, a: Id)
    requires finite(g, a),
    ensures all_allowed(best::<ExtractableAstSize>(g, a)),
{
    broadcast use ax_best;
    let e = best::<ExtractableAstSize>(g, a);
    assert(smallest::<ExtractableAstSize>(g, a, e));
    ax_ext_size(e);
    let cs = choose|cs: Seq<nat>| #[trigger] costs_of(e.nodes@, cs) && ext_size(e) == cs.last();
    let n = e.nodes@.len() - 1;
    assert(cs[n] <= usize::MAX) by { assert(cs[n] == node_cost(e.nodes@[n], |b: Id| cs[b.i as int])); lemma_sat_le(|b: Id| cs[b.i as int], kids(e.nodes@[n]), kids(e.nodes@[n]).len()); }
    lemma_only_allowed(e.nodes@, cs, n);
}
pub proof fn lemma_sat_le(f: spec_fn(Id) -> nat, ks: Seq<Id>, n: nat) ensures sat_sum(f, ks, n) <= usize::MAX {}
} // mod ca
use ca::*;
@fn Ruleset::add_from_recexprs
@props C18 C19 C21
@spec
    requires rec_wf(*e1), rec_wf(*e2),
    ensures paired(old(self).0@, *e1, *e2, final(self).0@),
@entry
    broadcast use lemma_from_pair;
@fn Ruleset::extract_candidates
@props C19
@spec
    ensures exactly_new(*eg1, *eg2, r.0@),
@entry
    broadcast use lemma_built;
    let ghost mut vx_es: Seq<(RecExpr, RecExpr)> = Seq::empty();
    proof { lemma_built_none(); }
@loop 0
    $s == g_classes(*eg1)
    $acc@ =~= Seq::new($i, |i: int| g_classes(*eg1)[i].id)
@loop 1
    $s =~= class_ids(*eg1)
    grouped($acc@, *eg2, class_ids(*eg1), $i)
@body 1
    let ghost vx_m0 = $acc@;
    let ghost vx_p = $i;
@tail 1
    proof { lemma_group(vx_m0, *eg2, class_ids(*eg1), vx_p, $acc@); }
@before 2
    proof { assert(vals_are(unions@, $s)); lemma_starts(*eg1, *eg2, $s, Seq::empty(), 0, vx_es); }
@loop 2
    built(vx_es, $acc.0@)
    news(*eg1, *eg2, vx_es)
    groups_done(*eg1, $s, $i as int, vx_es)
@body 2
    let ghost vx_vs = $s;
    let ghost vx_at = $i;
    let ghost vx_v = $s[$i as int]@;
    proof { assert(is_val(unions@, $s[$i as int])); lemma_members(*eg1, *eg2, class_ids(*eg1), unions@, $s[$i as int]); lemma_starts(*eg1, *eg2, $s, vx_v, 0, vx_es); }
@tail 2
    proof { lemma_starts(*eg1, *eg2, vx_vs, vx_v, 0, vx_es); assert(groups_done(*eg1, vx_vs, vx_at as int + 1, vx_es)); }
@loop 3
    $s == vx_v
    built(vx_es, $acc.0@)
    news(*eg1, *eg2, vx_es)
    groups_done(*eg1, vx_vs, vx_at as int, vx_es)
    rows(*eg1, vx_v, $i as int, vx_es)
@body 3
    let ghost vx_x = $i as int;
    proof { lemma_starts(*eg1, *eg2, vx_vs, vx_v, vx_x, vx_es); }
@tail 3
    proof { lemma_starts(*eg1, *eg2, vx_vs, vx_v, vx_x, vx_es); }
@loop 4
    $s == vx_v
    built(vx_es, $acc.0@)
    news(*eg1, *eg2, vx_es)
    groups_done(*eg1, vx_vs, vx_at as int, vx_es)
    rows(*eg1, vx_v, vx_x, vx_es)
    row(*eg1, vx_v, vx_x, $i as int, vx_es)
@body 4
    proof {
        assert(same_class(*eg2, vx_v[vx_x], vx_v[$i as int]));
        lemma_cell(*eg1, *eg2, vx_vs, vx_at as int, vx_v, vx_x, $i as int, vx_es);
        vx_es = cell(*eg1, vx_v, vx_x, $i as int, vx_es);
    }
@after 2
    proof { lemma_all_news(*eg1, *eg2, class_ids(*eg1), unions@, $s, vx_es); assert(exactly_new(*eg1, *eg2, $acc.0@)); }
@fn ExtractableAstSize::CostFunction::cost
@props C19
@flags impl=impl~ExtractableAstSize
@sig pub fn cost<C: Fn(Id) -> usize>(&mut self, enode: &L, costs: C) -> (r: usize)
@spec
    requires forall|a: Id| #[trigger] costs.requires((a,)),
    ensures forall|f: spec_fn(Id) -> nat| #[trigger] asks(costs, f) ==> r == node_cost(*enode, f),
@loop 0
    $s == kids(*enode)
    forall|f: spec_fn(Id) -> nat| #[trigger] asks(costs, f) ==> $acc == sat_sum(f, kids(*enode), $i)
@ty 0 usize
@end
