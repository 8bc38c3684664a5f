@type Limits Copy
@type Scheduler Copy
@type MatchScheduler
@stub .with_scheduler .with_node_limit .with_iter_limit .with_time_limit .with_egraph .with_hook .run_rw .lookup_expr .search_with_limit
@raw
// ======== scheduling (C15, C16) ========
pub mod sc {
use super::*;
/// what a run of egg is told: the match limit of each search, its node and iteration limits, and the two terms whose equality ends it
pub struct Cfg { pub matches: nat, pub nodes: nat, pub iters: nat, pub stop: Option<(RecExpr, RecExpr)> }
pub struct Runner { pub egraph: EGraph, pub cfg: Ghost<Cfg> }
impl VNew for Runner { open spec fn is_new(r: Self) -> bool { r.cfg@.stop is None } #[verifier::external_body] fn vnew() -> (r: Self) { unimplemented!() } }
/// equality saturation with these rewrites: a relation, as it may be cut short by the clock
pub uninterp spec fn sat_run(c: Cfg, g: EGraph, rws: Seq<Rewrite>, out: EGraph) -> bool;
pub struct Duration { pub s: u64 }
impl Duration { pub fn from_secs(s: u64) -> (r: Duration) { Duration { s } } }
pub trait VRws { spec fn rws(&self) -> Seq<Rewrite>; }
impl VRws for &Vec<Rewrite> { open spec fn rws(&self) -> Seq<Rewrite> { self@ } }
impl VRws for Vec<Rewrite> { open spec fn rws(&self) -> Seq<Rewrite> { self@ } }
impl VRws for Vec<&Rewrite> { open spec fn rws(&self) -> Seq<Rewrite> { derefs(self@) } }
impl VRws for &Vec<&Rewrite> { open spec fn rws(&self) -> Seq<Rewrite> { derefs(self@) } }
impl Runner {
    #[verifier::external_body]
    pub fn with_scheduler(self, s: MatchScheduler) -> (r: Runner) ensures r.egraph == self.egraph, r.cfg@ == (Cfg { matches: s.match_limit as nat, ..self.cfg@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_node_limit(self, n: usize) -> (r: Runner) ensures r.egraph == self.egraph, r.cfg@ == (Cfg { nodes: n as nat, ..self.cfg@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_iter_limit(self, n: usize) -> (r: Runner) ensures r.egraph == self.egraph, r.cfg@ == (Cfg { iters: n as nat, ..self.cfg@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_time_limit(self, d: Duration) -> (r: Runner) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn with_egraph(self, g: EGraph) -> (r: Runner) ensures r.egraph == g, r.cfg@ == self.cfg@ { unimplemented!() }
    /// the hook is the function under contract below, over the terms it holds
    #[verifier::external_body]
    pub fn vwith_hook(self, l: RecExpr, r: RecExpr) -> (res: Runner) ensures res.egraph == self.egraph, res.cfg@ == (Cfg { stop: Some((l, r)), ..self.cfg@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn run<R: VRws>(self, rws: R) -> (r: Runner) ensures sat_run(self.cfg@, self.egraph, rws.rws(), r.egraph) { unimplemented!() }
}
/// egg's e-graphs only ever grow together: what was equal stays equal
pub open spec fn same_class(g: EGraph, a: Id, b: Id) -> bool { g_find(g, a) == g_find(g, b) }
pub open spec fn coarser(g: EGraph, h: EGraph) -> bool { forall|a: Id, b: Id| same_class(g, a, b) ==> #[trigger] same_class(h, a, b) }
pub broadcast axiom fn ax_sat_run(c: Cfg, g: EGraph, rws: Seq<Rewrite>, out: EGraph) requires #[trigger] sat_run(c, g, rws, out) ensures coarser(g, out);
pub axiom fn ax_union(g: EGraph, a: Id, b: Id) ensures coarser(g, g_union(g, a, b)), same_class(g_union(g, a, b), a, b);
pub axiom fn ax_rebuild(g: EGraph) ensures coarser(g, g_rebuild(g));
pub proof fn lemma_coarser(a: EGraph, b: EGraph, c: EGraph) requires coarser(a, b), coarser(b, c) ensures coarser(a, c) { assert forall|x: Id, y: Id| same_class(a, x, y) implies #[trigger] same_class(c, x, y) by { assert(same_class(b, x, y)); } }

/// whether the two terms are present and equal
pub open spec fn met(g: EGraph, l: RecExpr, r: RecExpr) -> bool { match (g_lookup(g, l), g_lookup(g, r)) { (Some(a), Some(b)) => a == b, _ => false } }
pub open spec fn stop_of(rule: Option<&Rule>) -> Option<(RecExpr, RecExpr)> { match rule { Some(r) => Some((inst(r.lhs), inst(r.rhs))), None => None } }
pub open spec fn cfg_of(m: nat, n: nat, i: nat, stop: Option<(RecExpr, RecExpr)>) -> Cfg { Cfg { matches: m, nodes: n, iters: i, stop } }
pub open spec fn rewrites(rs: Seq<Rule>) -> Seq<Rewrite> { Seq::new(rs.len(), |i: int| rs[i].rewrite) }
/// applying the rule to its own left side makes no new class
pub open spec fn saturating(r: Rule) -> bool {
    let g0 = g_empty();
    let (l, g1) = (g_add_expr_id(g0, inst(r.lhs)), g_add_expr(g0, inst(r.lhs)));
    let (rr, g2) = (g_add_expr_id(g1, inst(r.rhs)), g_add_expr(g1, inst(r.rhs)));
    g_classes(g1).len() >= g_classes(g_rebuild(g_union(g2, l, rr))).len()
}
pub open spec fn sat_flags(rs: Seq<Rule>) -> Seq<bool> { Seq::new(rs.len(), |i: int| saturating(rs[i])) }
/// the rewrites of the rules on one side of the split, in order
pub open spec fn side(rs: Seq<Rule>, b: bool) -> Seq<Rewrite> { rewrites(im_vals(puts(Seq::empty(), pick(rs, sat_flags(rs), b, rs.len()), pick(rs, sat_flags(rs), b, rs.len()).len()))) }
pub open spec fn one_round(lim: Limits, stop: Option<(RecExpr, RecExpr)>, rs: Seq<Rule>, g: EGraph, mid: EGraph, out: EGraph) -> bool {
    sat_run(cfg_of(lim.match_ as nat, usize::MAX as nat, usize::MAX as nat, stop), g, side(rs, true), mid)
    && sat_run(cfg_of(lim.match_ as nat, lim.node as nat, 1, stop), mid, side(rs, false), out)
}
pub open spec fn round_to(lim: Limits, stop: Option<(RecExpr, RecExpr)>, rs: Seq<Rule>, g: EGraph, out: EGraph) -> bool { exists|mid: EGraph| #[trigger] one_round(lim, stop, rs, g, mid, out) }
pub proof fn lemma_round(lim: Limits, stop: Option<(RecExpr, RecExpr)>, rs: Seq<Rule>, g: EGraph, out: EGraph)
    requires exists|mid: EGraph| #[trigger] sat_run(cfg_of(lim.match_ as nat, usize::MAX as nat, usize::MAX as nat, stop), g, side(rs, true), mid) && sat_run(cfg_of(lim.match_ as nat, lim.node as nat, 1, stop), mid, side(rs, false), out),
    ensures round_to(lim, stop, rs, g, out),
{
    let mid = choose|mid: EGraph| #[trigger] sat_run(cfg_of(lim.match_ as nat, usize::MAX as nat, usize::MAX as nat, stop), g, side(rs, true), mid) && sat_run(cfg_of(lim.match_ as nat, lim.node as nat, 1, stop), mid, side(rs, false), out);
    assert(one_round(lim, stop, rs, g, mid, out));
}
/// a predicate that decides `saturating` splits the rules by it
pub broadcast proof fn lemma_split_sat<F: Fn(&Rule) -> bool>(f: F, rs: Seq<Rule>, yes: Seq<(String, Rule)>, no: Seq<(String, Rule)>)
    requires #[trigger] split(f, rs, yes, no), forall|x: &Rule, b: bool| f.ensures((x,), b) ==> b == saturating(*x),
    ensures
        yes == puts(Seq::empty(), pick(rs, sat_flags(rs), true, rs.len()), pick(rs, sat_flags(rs), true, rs.len()).len()),
        no == puts(Seq::empty(), pick(rs, sat_flags(rs), false, rs.len()), pick(rs, sat_flags(rs), false, rs.len()).len()),
{
    let fl = choose|fl: Seq<bool>| #[trigger] answered(f, rs, fl) && yes == puts(Seq::empty(), pick(rs, fl, true, rs.len()), pick(rs, fl, true, rs.len()).len()) && no == puts(Seq::empty(), pick(rs, fl, false, rs.len()), pick(rs, fl, false, rs.len()).len());
    assert(fl =~= sat_flags(rs));
}
pub open spec fn trace(lim: Limits, stop: Option<(RecExpr, RecExpr)>, rs: Seq<Rule>, n: nat, tr: Seq<EGraph>) -> bool { tr.len() == n + 1 && forall|i: int| 0 <= i < n ==> round_to(lim, stop, rs, #[trigger] tr[i], tr[(i + 1) as int]) }
/// the saturating rules to saturation, then the others once: n times
pub open spec fn rounds(lim: Limits, stop: Option<(RecExpr, RecExpr)>, rs: Seq<Rule>, n: nat, g: EGraph, out: EGraph) -> bool { exists|tr: Seq<EGraph>| #[trigger] trace(lim, stop, rs, n, tr) && tr[0] == g && tr[n as int] == out }
pub open spec fn ran_simple(lim: Limits, g: EGraph, rs: Seq<Rule>, stop: Option<(RecExpr, RecExpr)>, out: EGraph) -> bool {
    exists|x: EGraph| #[trigger] sat_run(cfg_of(lim.match_ as nat, lim.node as nat, lim.iter as nat, stop), g, rewrites(rs), x) && out == g_rebuild(x)
}
pub open spec fn ran_saturating(lim: Limits, g: EGraph, rs: Seq<Rule>, stop: Option<(RecExpr, RecExpr)>, out: EGraph) -> bool {
    exists|a: EGraph, x: EGraph| #[trigger] rounds(lim, stop, rs, lim.iter as nat, g, a) && #[trigger] sat_run(cfg_of(lim.match_ as nat, usize::MAX as nat, usize::MAX as nat, stop), a, side(rs, true), x) && out == g_rebuild(x)
}
/// merging pairs of classes
pub open spec fn merged(g: EGraph, ps: Seq<(Id, Id)>, n: nat) -> EGraph decreases n { if n == 0 { g } else { g_union(merged(g, ps, (n - 1) as nat), ps[n - 1].0, ps[n - 1].1) } }
pub open spec fn class_ids(g: EGraph) -> Seq<Id> { Seq::new(g_classes(g).len(), |i: int| g_classes(g)[i].id) }
pub open spec fn class_of(g: EGraph, a: Id) -> bool { exists|i: int| 0 <= i < g_classes(g).len() && (#[trigger] g_classes(g)[i]).id == a }
/// every pair is of two original classes that the run made equal
pub open spec fn pairs_proved(g: EGraph, h: EGraph, ps: Seq<(Id, Id)>) -> bool { forall|i: int| 0 <= i < ps.len() ==> class_of(g, (#[trigger] ps[i]).0) && class_of(g, ps[i].1) && same_class(h, ps[i].0, ps[i].1) }
pub open spec fn linked(ps: Seq<(Id, Id)>, f: Id, a: Id) -> bool { a == f || ps.contains((f, a)) }
/// any two original classes that the run made equal are joined by the pairs
pub open spec fn pairs_cover(g: EGraph, h: EGraph, ps: Seq<(Id, Id)>) -> bool { forall|a: Id, b: Id| class_of(g, a) && class_of(g, b) && #[trigger] same_class(h, a, b) ==> exists|f: Id| #[trigger] linked(ps, f, a) && linked(ps, f, b) }
/// the original e-graph with exactly the classes merged that the run made equal
pub open spec fn compressed(g: EGraph, h: EGraph, out: EGraph) -> bool { exists|ps: Seq<(Id, Id)>| #[trigger] pairs_proved(g, h, ps) && pairs_cover(g, h, ps) && out == g_rebuild(merged(g, ps, ps.len())) }
pub open spec fn ran_compress(lim: Limits, g: EGraph, rs: Seq<Rule>, out: EGraph) -> bool { exists|h: EGraph| #[trigger] ran_simple(lim, g, rs, None, h) && compressed(g, h, out) }
pub open spec fn ran(s: Scheduler, g: EGraph, rs: Seq<Rule>, stop: Option<(RecExpr, RecExpr)>, out: EGraph) -> bool {
    match s {
        Scheduler::Simple(lim) => ran_simple(lim, g, rs, stop, out),
        Scheduler::Saturating(lim) => ran_saturating(lim, g, rs, stop, out),
        Scheduler::Compress(lim) => ran_compress(lim, g, rs, out),
    }
}
pub open spec fn lvl(s: Scheduler) -> nat { match s { Scheduler::Compress(_) => 1, _ => 0 } }
pub proof fn lemma_merged(g: EGraph, ps: Seq<(Id, Id)>, n: nat)
    requires n <= ps.len(),
    ensures coarser(g, merged(g, ps, n)), forall|i: int| 0 <= i < n ==> same_class(merged(g, ps, n), (#[trigger] ps[i]).0, ps[i].1),
    decreases n,
{
    if n > 0 {
        let m = merged(g, ps, (n - 1) as nat);
        lemma_merged(g, ps, (n - 1) as nat);
        ax_union(m, ps[n - 1].0, ps[n - 1].1);
        lemma_coarser(g, m, merged(g, ps, n));
    }
}
/// C15: what saturation proved of the original classes holds after compression, and nothing original is separated
pub proof fn theorem_compress(g: EGraph, h: EGraph, out: EGraph)
    requires compressed(g, h, out),
    ensures coarser(g, out), forall|a: Id, b: Id| class_of(g, a) && class_of(g, b) && same_class(h, a, b) ==> #[trigger] same_class(out, a, b),
{
    let ps = choose|ps: Seq<(Id, Id)>| #[trigger] pairs_proved(g, h, ps) && pairs_cover(g, h, ps) && out == g_rebuild(merged(g, ps, ps.len()));
    let m = merged(g, ps, ps.len());
    lemma_merged(g, ps, ps.len());
    ax_rebuild(m);
    lemma_coarser(g, m, out);
    assert forall|a: Id, b: Id| class_of(g, a) && class_of(g, b) && same_class(h, a, b) implies #[trigger] same_class(out, a, b) by {
        let f = choose|f: Id| #[trigger] linked(ps, f, a) && linked(ps, f, b);
        if a != f { let i = choose|i: int| 0 <= i < ps.len() && ps[i] == (f, a); assert(same_class(m, ps[i].0, ps[i].1)); }
        if b != f { let i = choose|i: int| 0 <= i < ps.len() && ps[i] == (f, b); assert(same_class(m, ps[i].0, ps[i].1)); }
        assert(same_class(m, a, b));
    }
}
pub proof fn lemma_rounds(lim: Limits, stop: Option<(RecExpr, RecExpr)>, rs: Seq<Rule>, tr: Seq<EGraph>, n: nat, k: nat)
    requires trace(lim, stop, rs, n, tr), k <= n,
    ensures coarser(tr[0], tr[k as int]),
    decreases k,
{
    if k > 0 {
        lemma_rounds(lim, stop, rs, tr, n, (k - 1) as nat);
        let (a, out) = (tr[k - 1], tr[k as int]);
        assert(round_to(lim, stop, rs, tr[k - 1], tr[(k - 1 + 1) as int]));
        let mid = choose|mid: EGraph| #[trigger] one_round(lim, stop, rs, a, mid, out);
        ax_sat_run(cfg_of(lim.match_ as nat, usize::MAX as nat, usize::MAX as nat, stop), a, side(rs, true), mid);
        ax_sat_run(cfg_of(lim.match_ as nat, lim.node as nat, 1, stop), mid, side(rs, false), out);
        lemma_coarser(a, mid, out);
        lemma_coarser(tr[0], a, out);
    }
}
/// C15: no mode separates classes that were equal
pub proof fn theorem_modes_keep(s: Scheduler, g: EGraph, rs: Seq<Rule>, stop: Option<(RecExpr, RecExpr)>, out: EGraph)
    requires ran(s, g, rs, stop, out),
    ensures coarser(g, out),
{
    match s {
        Scheduler::Simple(lim) => {
            let c = cfg_of(lim.match_ as nat, lim.node as nat, lim.iter as nat, stop);
            let x = choose|x: EGraph| #[trigger] sat_run(c, g, rewrites(rs), x) && out == g_rebuild(x);
            ax_sat_run(c, g, rewrites(rs), x); ax_rebuild(x); lemma_coarser(g, x, out);
        }
        Scheduler::Saturating(lim) => {
            let c = cfg_of(lim.match_ as nat, usize::MAX as nat, usize::MAX as nat, stop);
            let (a, x) = choose|a: EGraph, x: EGraph| #[trigger] rounds(lim, stop, rs, lim.iter as nat, g, a) && #[trigger] sat_run(c, a, side(rs, true), x) && out == g_rebuild(x);
            let tr = choose|tr: Seq<EGraph>| #[trigger] trace(lim, stop, rs, lim.iter as nat, tr) && tr[0] == g && tr[lim.iter as int] == a;
            lemma_rounds(lim, stop, rs, tr, lim.iter as nat, lim.iter as nat);
            ax_sat_run(c, a, side(rs, true), x); ax_rebuild(x); lemma_coarser(g, a, x); lemma_coarser(g, x, out);
        }
        Scheduler::Compress(lim) => {
            let h = choose|h: EGraph| #[trigger] ran_simple(lim, g, rs, None, h) && compressed(g, h, out);
            theorem_compress(g, h, out);
        }
    }
}
pub proof fn lemma_push_pair(g: EGraph, h: EGraph, ps: Seq<(Id, Id)>, a: Id, b: Id)
    ensures
        merged(g, ps.push((a, b)), ps.len() + 1) == g_union(merged(g, ps, ps.len()), a, b),
        pairs_proved(g, h, ps) && class_of(g, a) && class_of(g, b) && same_class(h, a, b) ==> pairs_proved(g, h, ps.push((a, b))),
        forall|f: Id, x: Id| linked(ps, f, x) ==> #[trigger] linked(ps.push((a, b)), f, x),
        linked(ps.push((a, b)), a, b),
{
    let q = ps.push((a, b));
    lemma_merged_prefix(g, q, ps, ps.len());
    assert forall|f: Id, x: Id| linked(ps, f, x) implies #[trigger] linked(q, f, x) by { if f != x { let i = choose|i: int| 0 <= i < ps.len() && ps[i] == (f, x); assert(q[i] == (f, x)); } }
    assert(q[ps.len() as int] == (a, b));
}
pub proof fn lemma_merged_prefix(g: EGraph, a: Seq<(Id, Id)>, b: Seq<(Id, Id)>, n: nat)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures merged(g, a, n) == merged(g, b, n),
    decreases n,
{ if n > 0 { lemma_merged_prefix(g, a, b, (n - 1) as nat); } }
/// classes by what they are in h
pub open spec fn in_group(m: Map<Id, Vec<Id>>, k: Id, x: Id) -> bool { m.contains_key(k) && m[k]@.contains(x) }
pub open spec fn group_ok(h: EGraph, ids: Seq<Id>, k: Id, v: Seq<Id>) -> bool { v.len() > 0 && forall|j: int| 0 <= j < v.len() ==> g_find(h, #[trigger] v[j]) == k && ids.contains(v[j]) }
pub open spec fn grouped(m: Map<Id, Vec<Id>>, h: EGraph, ids: Seq<Id>, n: nat) -> bool {
    (forall|k: Id| #[trigger] m.contains_key(k) ==> group_ok(h, ids, k, m[k]@)) && (forall|j: int| 0 <= j < n ==> in_group(m, g_find(h, #[trigger] ids[j]), ids[j]))
}
pub proof fn lemma_group(m: Map<Id, Vec<Id>>, h: EGraph, ids: Seq<Id>, n: nat, m2: Map<Id, Vec<Id>>)
    requires
        grouped(m, h, ids, n), n < ids.len(),
        ({ let k = g_find(h, ids[n as int]); m2.contains_key(k) && m2 == m.insert(k, m2[k]) && m2[k]@ == (if m.contains_key(k) { m[k]@ } else { Seq::empty() }).push(ids[n as int]) }),
    ensures grouped(m2, h, ids, n + 1),
{
    let k = g_find(h, ids[n as int]);
    let old = if m.contains_key(k) { m[k]@ } else { Seq::empty() };
    assert(m2[k]@[old.len() as int] == ids[n as int]);
    assert forall|q: Id| #[trigger] m2.contains_key(q) implies group_ok(h, ids, q, m2[q]@) by {
        if q == k {
            assert forall|j: int| 0 <= j < m2[q]@.len() implies g_find(h, #[trigger] m2[q]@[j]) == k && ids.contains(m2[q]@[j]) by { if j < old.len() { assert(group_ok(h, ids, k, m[k]@)); assert(m2[q]@[j] == old[j]); } }
        } else { assert(m.contains_key(q)); assert(m2[q] == m[q]); }
    }
    assert forall|j: int| 0 <= j < n + 1 implies in_group(m2, g_find(h, #[trigger] ids[j]), ids[j]) by {
        if j < n {
            let q = g_find(h, ids[j]);
            assert(in_group(m, q, ids[j]));
            let i = choose|i: int| 0 <= i < m[q]@.len() && m[q]@[i] == ids[j];
            if q == k { assert(m2[q]@[i] == ids[j]); }
        }
    }
}
/// every member is linked to the first
pub open spec fn star(ps: Seq<(Id, Id)>, v: Seq<Id>) -> bool { forall|j: int| 0 <= j < v.len() ==> linked(ps, v[0], #[trigger] v[j]) }
pub proof fn lemma_cover(g: EGraph, h: EGraph, ids: Seq<Id>, m: Map<Id, Vec<Id>>, vs: Seq<Vec<Id>>, ps: Seq<(Id, Id)>)
    requires
        ids =~= class_ids(g), grouped(m, h, ids, ids.len()), vals_are(m, vs),
        forall|i: int| 0 <= i < vs.len() ==> star(ps, (#[trigger] vs[i])@),
    ensures pairs_cover(g, h, ps),
{
    assert forall|a: Id, b: Id| class_of(g, a) && class_of(g, b) && #[trigger] same_class(h, a, b) implies exists|f: Id| #[trigger] linked(ps, f, a) && linked(ps, f, b) by {
        let i = choose|i: int| 0 <= i < g_classes(g).len() && (#[trigger] g_classes(g)[i]).id == a;
        let j = choose|j: int| 0 <= j < g_classes(g).len() && (#[trigger] g_classes(g)[j]).id == b;
        assert(ids[i] == a && ids[j] == b);
        let k = g_find(h, a);
        assert(in_group(m, k, a) && in_group(m, k, b));
        let p = choose|p: int| 0 <= p < vs.len() && vs[p] == m[k];
        let x = choose|x: int| 0 <= x < m[k]@.len() && m[k]@[x] == a;
        let y = choose|y: int| 0 <= y < m[k]@.len() && m[k]@[y] == b;
        assert(star(ps, vs[p]@));
        assert(linked(ps, m[k]@[0], m[k]@[x]) && linked(ps, m[k]@[0], m[k]@[y]));
    }
}
pub proof fn lemma_members(g: EGraph, h: EGraph, ids: Seq<Id>, m: Map<Id, Vec<Id>>, v: Vec<Id>)
    requires ids =~= class_ids(g), grouped(m, h, ids, ids.len()), is_val(m, v),
    ensures v@.len() > 0, forall|x: int, y: int| 0 <= x < v@.len() && 0 <= y < v@.len() ==> same_class(h, #[trigger] v@[x], #[trigger] v@[y]), forall|x: int| 0 <= x < v@.len() ==> class_of(g, #[trigger] v@[x]),
{
    let k = choose|k: Id| #[trigger] m.contains_key(k) && m[k] == v;
    assert(group_ok(h, ids, k, v@));
    assert forall|x: int| 0 <= x < v@.len() implies class_of(g, #[trigger] v@[x]) by { assert(ids.contains(v@[x])); let i = choose|i: int| 0 <= i < ids.len() && ids[i] == v@[x]; assert(g_classes(g)[i].id == v@[x]); }
}
pub proof fn lemma_side(rs: Seq<Rule>, s: Seq<(String, Rule)>, b: bool, v: Seq<Rewrite>)
    requires v =~= rewrites(im_vals(s)), s == puts(Seq::empty(), pick(rs, sat_flags(rs), b, rs.len()), pick(rs, sat_flags(rs), b, rs.len()).len()),
    ensures v == side(rs, b),
{}
pub uninterp spec fn searched(w: Rewrite, g: EGraph, limit: nat) -> Seq<SearchMatches>;
#[verifier::external_body]
pub struct SearchMatches { x: u8 }
impl Rewrite { #[verifier::external_body] pub fn search_with_limit(&self, g: &EGraph, limit: usize) -> (r: Vec<SearchMatches>) ensures r@ == searched(*self, *g, limit as nat) { unimplemented!() } }
} // mod sc
use sc::*;
@fn MatchScheduler::RewriteScheduler::search_rewrite
@props C15 C16
@flags impl=impl~MatchScheduler
@sig pub fn search_rewrite(&mut self, _iteration: usize, egraph: &EGraph, rewrite: &Rewrite) -> (r: Vec<SearchMatches>)
@spec
    ensures r@ == searched(*rewrite, *egraph, old(self).match_limit as nat), *final(self) == *old(self),
@fn Rule::is_saturating
@props C15 C16
@spec
    ensures r == saturating(*self),
@fn Scheduler::run_internal
@props C15 C16
@flags index=trait rlimit=60
@spec
    ensures ran(*self, *egraph, vals_of(*ruleset), stop_of(rule), r),
    decreases lvl(*self), 0nat,
@entry
    broadcast use sc::lemma_split_sat;
@loop 0
    derefs($acc@) =~= rewrites(vals_of(*ruleset)).take($i as int)
@after 0
    proof { assert(derefs($acc@) =~= rewrites(vals_of(*ruleset))); }
@loop 1
    $acc@ =~= rewrites(im_vals($s)).take($i as int)
@after 1
    proof { lemma_side(vals_of(*ruleset), sat.0@, true, $acc@); }
@loop 2
    $acc@ =~= rewrites(im_vals($s)).take($i as int)
@after 2
    proof { lemma_side(vals_of(*ruleset), other.0@, false, $acc@); }
@before 3
    let ghost mut vx_tr: Seq<EGraph> = seq![*egraph];
    let ghost vx_rs = vals_of(*ruleset);
@loop 3
    trace(*limits, stop_of(rule), vx_rs, $i, vx_tr)
    vx_tr[0] == *egraph
    vx_tr.last() == $acc.egraph
@body 3
    let ghost vx_o = vx_tr;
    let ghost vx_k = $i;
@tail 3
    proof {
        lemma_round(*limits, stop_of(rule), vx_rs, vx_o.last(), $acc.egraph);
        vx_tr = vx_o.push($acc.egraph);
        assert forall|i: int| 0 <= i < vx_k + 1 implies round_to(*limits, stop_of(rule), vx_rs, #[trigger] vx_tr[i], vx_tr[(i + 1) as int]) by { if i < vx_k { assert(round_to(*limits, stop_of(rule), vx_rs, vx_o[i], vx_o[(i + 1) as int])); } }
    }
@after 3
    proof { assert(rounds(*limits, stop_of(rule), vx_rs, limits.iter as nat, *egraph, runner.egraph)); }
@loop 4
    $s == g_classes(*egraph)
    $acc@ =~= Seq::new($i, |i: int| g_classes(*egraph)[i].id)
@loop 5
    $s =~= class_ids(*egraph)
    grouped($acc@, out, class_ids(*egraph), $i)
@body 5
    let ghost vx_m0 = $acc@;
    let ghost vx_p = $i;
@tail 5
    proof { lemma_group(vx_m0, out, class_ids(*egraph), vx_p, $acc@); }
@before 6
    let ghost mut vx_ps: Seq<(Id, Id)> = Seq::empty();
    proof { assert(vals_are(unions@, $s)); }
@loop 6
    $acc == merged(*egraph, vx_ps, vx_ps.len())
    pairs_proved(*egraph, out, vx_ps)
    forall|j: int| 0 <= j < $i ==> star(vx_ps, (#[trigger] $s[j])@)
@body 6
    let ghost vx_vs = $s;
    let ghost vx_at = $i;
    let ghost vx_v = $s[$i as int];
    proof { assert(is_val(unions@, $s[$i as int])); lemma_members(*egraph, out, class_ids(*egraph), unions@, $s[$i as int]); }
@loop 7
    $acc == merged(*egraph, vx_ps, vx_ps.len())
    pairs_proved(*egraph, out, vx_ps)
    forall|j: int| 0 <= j < vx_at ==> star(vx_ps, (#[trigger] vx_vs[j])@)
    forall|j: int| 0 <= j <= $i ==> linked(vx_ps, vx_v@[0], #[trigger] vx_v@[j])
    $s == vx_v@.skip(1)
@body 7
    proof { assert(same_class(out, vx_v@[0], vx_v@[($i + 1) as int])); lemma_push_pair(*egraph, out, vx_ps, vx_v@[0], vx_v@[($i + 1) as int]); vx_ps = vx_ps.push((vx_v@[0], vx_v@[($i + 1) as int])); }
@after 6
    proof { lemma_cover(*egraph, out, class_ids(*egraph), unions@, $s, vx_ps); }
@closure with_hook
@sig &mut Runner -> (res: Result<(), String>)
@flags lift captures=lexpr:~&RecExpr,~rexpr:~&RecExpr as=lexpr,~rexpr
@spec
    ensures res is Err <==> met(old(vx_p0).egraph, *lexpr, *rexpr), *final(vx_p0) == *old(vx_p0),
@closure partition
@sig &Rule -> (res: bool)
@spec
    ensures res == saturating(*vx_p0)
@end
@fn Scheduler::run
@props C15 C16
@spec
    ensures ran(*self, *egraph, vals_of(*ruleset), None, r),
    decreases lvl(*self), 1nat,
@fn Scheduler::run_derive
@props C15 C16
@spec
    ensures ran(*self, *egraph, vals_of(*ruleset), stop_of(Some(rule)), r),
    decreases lvl(*self), 1nat,
