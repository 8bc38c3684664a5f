@raw
// ======== e-class data (C17, C27) ========
pub mod an {
use super::*;
// the domain's order on constants, which is total
pub uninterp spec fn cle(a: Constant, b: Constant) -> bool;
pub broadcast axiom fn ax_cle_total(a: Constant, b: Constant) ensures #[trigger] cle(a, b) || cle(b, a);
pub broadcast axiom fn ax_cle_anti(a: Constant, b: Constant) ensures #[trigger] cle(a, b) && #[trigger] cle(b, a) ==> a == b;
pub axiom fn ax_cle_trans(a: Constant, b: Constant, c: Constant) requires cle(a, b), cle(b, c) ensures cle(a, c);
pub trait VOrd: Sized { spec fn ole(a: Self, b: Self) -> bool; fn le(&self, o: &Self) -> (r: bool) ensures r == Self::ole(*self, *o); fn lt(&self, o: &Self) -> (r: bool) ensures r == !Self::ole(*o, *self); fn ge(&self, o: &Self) -> (r: bool) ensures r == Self::ole(*o, *self); fn gt(&self, o: &Self) -> (r: bool) ensures r == !Self::ole(*self, *o); }
impl VOrd for Constant { open spec fn ole(a: Self, b: Self) -> bool { cle(a, b) }
    #[verifier::external_body] fn le(&self, o: &Self) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn lt(&self, o: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn ge(&self, o: &Self) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn gt(&self, o: &Self) -> (r: bool) { unimplemented!() } }
pub open spec fn cmax(a: Constant, b: Constant) -> Constant { if cle(a, b) { b } else { a } }
pub open spec fn cmin(a: Constant, b: Constant) -> Constant { if cle(a, b) { a } else { b } }
impl Constant {
    #[verifier::external_body] pub fn max<'a>(&'a self, o: &'a Constant) -> (r: &'a Constant) ensures *r == cmax(*self, *o) { unimplemented!() }
    #[verifier::external_body] pub fn min<'a>(&'a self, o: &'a Constant) -> (r: &'a Constant) ensures *r == cmin(*self, *o) { unimplemented!() }
}
pub struct DidMerge(pub bool, pub bool);
// ---- sizes: what a node costs given what its children cost; a term costs what its root does (egg evaluates nodes in order) ----
pub open spec fn sat_add(a: nat, b: nat) -> nat { if a + b > usize::MAX { usize::MAX as nat } else { a + b } }
pub open spec fn sat_sum(f: spec_fn(Id) -> nat, ks: Seq<Id>, n: nat) -> nat decreases n { if n == 0 { 1 } else { sat_add(sat_sum(f, ks, (n - 1) as nat), f(ks[n - 1])) } }
pub open spec fn node_cost(n: L, f: spec_fn(Id) -> nat) -> nat { if allowed_op(n) { sat_sum(f, kids(n), kids(n).len()) } else { usize::MAX as nat } }
pub uninterp spec fn ext_size(e: RecExpr) -> nat;
pub trait VCosted { spec fn costed(&self) -> nat; }
impl ExtractableAstSize { #[verifier::external_body] pub fn cost_rec(&self, e: &RecExpr) -> (r: usize) ensures r == ext_size(*e) { unimplemented!() } }
// ---- merging ----
pub open spec fn know(a: Option<Constant>, b: Option<Constant>) -> Option<Constant> { if a is Some { a } else { b } }
pub open spec fn cv_agree(a: Seq<Option<Constant>>, b: Seq<Option<Constant>>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] agree_at(a[i], b[i]) }
pub open spec fn agree_at(a: Option<Constant>, b: Option<Constant>) -> bool { a is None || b is None || a == b }
pub open spec fn cv_join(a: Seq<Option<Constant>>, b: Seq<Option<Constant>>) -> Seq<Option<Constant>> { Seq::new(a.len(), |i: int| know(a[i], b[i])) }
pub open spec fn lo_join(a: Option<Constant>, b: Option<Constant>) -> Option<Constant> { match (a, b) { (Some(x), Some(y)) => Some(cmax(x, y)), _ => know(a, b) } }
pub open spec fn hi_join(a: Option<Constant>, b: Option<Constant>) -> Option<Constant> { match (a, b) { (Some(x), Some(y)) => Some(cmin(x, y)), _ => know(a, b) } }
pub open spec fn iv_ok(i: Interval<Constant>) -> bool { i.low matches Some(a) ==> i.high matches Some(b) ==> cle(a, b) }
pub open spec fn iv_join(a: Interval<Constant>, b: Interval<Constant>) -> Interval<Constant> { Interval { low: lo_join(a.low, b.low), high: hi_join(a.high, b.high) } }
pub open spec fn rep_join(a: RecExpr, b: RecExpr) -> RecExpr { if ext_size(b) < ext_size(a) { b } else { a } }
/// what both sides know
pub open spec fn joined(a: Signature, b: Signature) -> Signature { Signature { cvec: mkvec(cv_join(a.cvec@, b.cvec@)), simplest: rep_join(a.simplest, b.simplest), interval: iv_join(a.interval, b.interval) } }
pub open spec fn compatible(a: Signature, b: Signature) -> bool { cv_agree(a.cvec@, b.cvec@) && iv_ok(iv_join(a.interval, b.interval)) }
/// the same up to the choice among representatives of equal size
pub open spec fn same_data(a: Signature, b: Signature) -> bool { a.cvec@ =~= b.cvec@ && a.interval == b.interval && ext_size(a.simplest) == ext_size(b.simplest) }
/// C17: the order of the two sides does not matter
pub proof fn theorem_merge_commutes(a: Signature, b: Signature)
    requires compatible(a, b),
    ensures compatible(b, a), same_data(joined(a, b), joined(b, a)),
{
    broadcast use {ax_cle_total, ax_cle_anti};
    assert forall|i: int| 0 <= i < b.cvec@.len() implies #[trigger] agree_at(b.cvec@[i], a.cvec@[i]) by { assert(agree_at(a.cvec@[i], b.cvec@[i])); }
    assert(cv_join(a.cvec@, b.cvec@) =~= cv_join(b.cvec@, a.cvec@)) by { assert forall|i: int| 0 <= i < a.cvec@.len() implies know(a.cvec@[i], b.cvec@[i]) == know(b.cvec@[i], a.cvec@[i]) by { assert(agree_at(a.cvec@[i], b.cvec@[i])); } }
    lemma_iv_commutes(a.interval, b.interval);
}
pub proof fn lemma_iv_commutes(a: Interval<Constant>, b: Interval<Constant>) ensures iv_join(a, b) == iv_join(b, a) {
    broadcast use {ax_cle_total, ax_cle_anti};
    if let (Some(x), Some(y)) = (a.low, b.low) { assert(cle(x, y) || cle(y, x)); }
    if let (Some(x), Some(y)) = (a.high, b.high) { assert(cle(x, y) || cle(y, x)); }
}
pub proof fn lemma_max3(a: Constant, b: Constant, c: Constant) ensures cmax(cmax(a, b), c) == cmax(a, cmax(b, c)), cle(a, cmax(a, b)), cle(b, cmax(a, b)), cmin(cmin(a, b), c) == cmin(a, cmin(b, c)), cle(cmin(a, b), a), cle(cmin(a, b), b) {
    broadcast use {ax_cle_total, ax_cle_anti};
    assert(cle(a, b) || cle(b, a)); assert(cle(b, c) || cle(c, b)); assert(cle(a, c) || cle(c, a)); assert(cle(a, a)); assert(cle(b, b));
    if cle(a, b) && cle(b, c) { ax_cle_trans(a, b, c); }
    if cle(b, a) && cle(a, c) { ax_cle_trans(b, a, c); }
    if cle(a, c) && cle(c, b) { ax_cle_trans(a, c, b); }
    if cle(c, a) && cle(a, b) { ax_cle_trans(c, a, b); }
    if cle(b, c) && cle(c, a) { ax_cle_trans(b, c, a); }
    if cle(c, b) && cle(b, a) { ax_cle_trans(c, b, a); }
}
pub proof fn lemma_iv_assoc(a: Interval<Constant>, b: Interval<Constant>, c: Interval<Constant>) ensures iv_join(iv_join(a, b), c) == iv_join(a, iv_join(b, c)) {
    if let (Some(x), Some(y)) = (a.low, b.low) { if let Some(z) = c.low { lemma_max3(x, y, z); } }
    if let (Some(x), Some(y)) = (a.high, b.high) { if let Some(z) = c.high { lemma_max3(x, y, z); } }
}
/// a part of a non-empty intersection is not empty
pub proof fn lemma_iv_part(a: Interval<Constant>, b: Interval<Constant>) requires iv_ok(iv_join(a, b)) ensures iv_ok(b) {
    if let (Some(x), Some(y)) = (b.low, b.high) {
        let l = iv_join(a, b).low->Some_0;
        let h = iv_join(a, b).high->Some_0;
        assert(cle(x, l)) by { if let Some(w) = a.low { lemma_max3(w, x, x); } else { lemma_max3(x, x, x); } }
        assert(cle(h, y)) by { if let Some(w) = a.high { lemma_max3(w, y, y); } else { lemma_max3(y, y, y); } }
        ax_cle_trans(x, l, h);
        ax_cle_trans(x, h, y);
    }
}
/// C17: the order in which several classes are merged does not matter
pub proof fn theorem_merge_associates(a: Signature, b: Signature, c: Signature)
    requires compatible(a, b), compatible(joined(a, b), c),
    ensures compatible(b, c), compatible(a, joined(b, c)), joined(joined(a, b), c) == joined(a, joined(b, c)),
{
    broadcast use {ax_vec_len, ax_mkvec_of, ax_mkvec_view};
    let (x, y, z) = (a.cvec@, b.cvec@, c.cvec@);
    let (u, v) = (cv_join(x, y), cv_join(y, z));
    assert(x.len() <= usize::MAX && u.len() <= usize::MAX);
    assert(mkvec(u)@ == u);
    assert forall|i: int| 0 <= i < x.len() implies agree_at(#[trigger] y[i], z[i]) && agree_at(x[i], v[i]) && know(u[i], z[i]) == know(x[i], v[i]) by {
        assert(agree_at(x[i], y[i])); assert(agree_at(u[i], z[i]));
    }
    assert(cv_agree(y, z));
    assert(y.len() <= usize::MAX && v.len() <= usize::MAX);
    assert(mkvec(v)@ == v);
    assert(cv_agree(x, v));
    assert(cv_join(u, z) =~= cv_join(x, v));
    lemma_iv_assoc(a.interval, b.interval, c.interval);
    lemma_iv_part(a.interval, iv_join(b.interval, c.interval));
}
/// C17: merging the same data again changes nothing
pub proof fn theorem_merge_idempotent(a: Signature, b: Signature)
    requires compatible(a, b),
    ensures compatible(joined(a, b), b), joined(joined(a, b), b) == joined(a, b), compatible(a, a) ==> joined(a, a) == a,
{
    broadcast use {ax_cle_total, ax_cle_anti, ax_vec_len, ax_mkvec_of, ax_mkvec_view};
    let j = joined(a, b);
    let c = cv_join(a.cvec@, b.cvec@);
    assert(a.cvec@.len() <= usize::MAX);
    assert(c.len() <= usize::MAX);
    assert(mkvec(c)@ == c);
    assert forall|i: int| 0 <= i < j.cvec@.len() implies #[trigger] agree_at(j.cvec@[i], b.cvec@[i]) by { assert(agree_at(a.cvec@[i], b.cvec@[i])); }
    assert(cv_join(j.cvec@, b.cvec@) =~= j.cvec@);
    assert(cv_join(a.cvec@, a.cvec@) =~= a.cvec@);
    if let (Some(x), Some(y)) = (a.interval.low, b.interval.low) { assert(cle(x, y) || cle(y, x)); assert(cle(y, y)); assert(cle(x, x)); }
    if let (Some(x), Some(y)) = (a.interval.high, b.interval.high) { assert(cle(x, y) || cle(y, x)); assert(cle(y, y)); assert(cle(x, x)); }
    assert(iv_join(j.interval, b.interval) == j.interval);
    assert(iv_join(a.interval, a.interval) == a.interval);
}
pub open spec fn differ(a: Seq<Option<Constant>>, b: Seq<Option<Constant>>, n: int) -> bool { exists|k: int| 0 <= k < n && a[k] != #[trigger] b[k] }
pub proof fn lemma_differ(t: Seq<Option<Constant>>, t2: Seq<Option<Constant>>, o: Seq<Option<Constant>>, f: Seq<Option<Constant>>, k: int)
    requires 0 <= k < t.len(), t.len() == o.len(), o.len() == f.len(), t2 =~= t.update(k, t2[k]), t[k] == o[k], t2[k] == know(o[k], f[k]), agree_at(o[k], f[k]),
        forall|j: int| k <= j < t.len() ==> t[j] == #[trigger] o[j],
        forall|j: int| 0 <= j < k ==> t[j] == know(o[j], #[trigger] f[j]),
    ensures
        differ(t, o, k) ==> differ(t2, o, k + 1), t2[k] != o[k] ==> differ(t2, o, k + 1), differ(t, f, k) ==> differ(t2, f, k + 1), t2[k] != f[k] ==> differ(t2, f, k + 1),
{
    if differ(t, o, k) { let j = choose|j: int| 0 <= j < k && t[j] != #[trigger] o[j]; assert(t2[j] == t[j]); }
    if differ(t, f, k) { let j = choose|j: int| 0 <= j < k && t[j] != #[trigger] f[j]; assert(t2[j] == t[j]); }
}
/// the parts of a merged signature
pub proof fn lemma_merge_parts(o: Signature, f: Signature, t: Signature)
    requires o.cvec@.len() == f.cvec@.len(), t.cvec@.len() == o.cvec@.len(), forall|k: int| 0 <= k < o.cvec@.len() ==> t.cvec@[k] == know(#[trigger] o.cvec@[k], f.cvec@[k]),
    ensures t.cvec@ =~= cv_join(o.cvec@, f.cvec@), mkvec(cv_join(o.cvec@, f.cvec@)) == t.cvec,
        differ(t.cvec@, o.cvec@, o.cvec@.len() as int) ==> t.cvec != o.cvec, differ(t.cvec@, f.cvec@, o.cvec@.len() as int) ==> t.cvec != f.cvec,
        (forall|k: int| 0 <= k < o.cvec@.len() ==> #[trigger] t.cvec@[k] == o.cvec@[k]) ==> t.cvec == o.cvec,
        (forall|k: int| 0 <= k < o.cvec@.len() ==> #[trigger] t.cvec@[k] == f.cvec@[k]) ==> t.cvec == f.cvec,
{
    broadcast use {ax_mkvec_of};
    assert(t.cvec@ =~= cv_join(o.cvec@, f.cvec@));
    if forall|k: int| 0 <= k < o.cvec@.len() ==> #[trigger] t.cvec@[k] == o.cvec@[k] { assert(t.cvec@ =~= o.cvec@); assert(mkvec(t.cvec@) == t.cvec); assert(mkvec(o.cvec@) == o.cvec); }
    if forall|k: int| 0 <= k < o.cvec@.len() ==> #[trigger] t.cvec@[k] == f.cvec@[k] { assert(t.cvec@ =~= f.cvec@); assert(mkvec(t.cvec@) == t.cvec); assert(mkvec(f.cvec@) == f.cvec); }
}
} // mod an
use an::*;
broadcast use {ax_cle_total, ax_cle_anti};
@type ExtractableAstSize
@fn Interval::new
@props C17
@flags panics-ok
@spec
    ensures r.low == low, r.high == high, low matches Some(a) ==> high matches Some(b) ==> T::ole(a, b),
@fn Interval::Default::default
@props C17 C27
@flags impl=impl<T>~Interval<T>
@sig pub fn default() -> (r: Self)
@spec
    ensures r.low is None, r.high is None,
@fn SynthAnalysis::Analysis::merge
@props C17
@flags impl=impl~SynthAnalysis panics-ok index=trait
@sig pub fn merge(&mut self, to: &mut Signature, from: Signature) -> (r: DidMerge)
@spec
    requires old(to).cvec@.len() == from.cvec@.len(),
    ensures
        compatible(*old(to), from),
        *final(to) == joined(*old(to), from),
        r.0 == (*final(to) != *old(to)),
        r.1 == (*final(to) != from),
@loop 0
    to.cvec@.len() == old(to).cvec@.len()
    to.simplest == old(to).simplest && to.interval == old(to).interval
    forall|k: int| 0 <= k < $i ==> agree_at(#[trigger] old(to).cvec@[k], from.cvec@[k]) && to.cvec@[k] == know(old(to).cvec@[k], from.cvec@[k])
    forall|k: int| $i <= k < to.cvec@.len() ==> #[trigger] to.cvec@[k] == old(to).cvec@[k]
    merge_a ==> differ(to.cvec@, old(to).cvec@, $i as int)
    !merge_a ==> forall|k: int| 0 <= k < $i ==> #[trigger] to.cvec@[k] == old(to).cvec@[k]
    merge_b ==> differ(to.cvec@, from.cvec@, $i as int)
    !merge_b ==> forall|k: int| 0 <= k < $i ==> #[trigger] to.cvec@[k] == from.cvec@[k]
@body 0
    let ghost vx_t = to.cvec@;
    let ghost vx_k = $i as int;
@tail 0
    proof { lemma_differ(vx_t, to.cvec@, old(to).cvec@, from.cvec@, vx_k); }
@exit
    proof { lemma_merge_parts(*old(to), from, *to); }
@end
@raw
// ---- making and completing class data (C27) ----
pub mod mk {
use super::*;
/// the domain's evaluation of a node on samples and on intervals, given those of its children
pub uninterp spec fn eval_of(n: L, len: nat, cv: spec_fn(Id) -> Seq<Option<Constant>>) -> Seq<Option<Constant>>;
pub uninterp spec fn interval_of(n: L, iv: spec_fn(Id) -> Interval<Constant>) -> Interval<Constant>;
impl L {
    #[verifier::external_body]
    pub fn eval<'a, F: Fn(&'a Id) -> &'a CVec>(&'a self, len: usize, get: F) -> (r: CVec)
        requires forall|i: &'a Id| call_requires(get, (i,)),
        ensures forall|cv: spec_fn(Id) -> Seq<Option<Constant>>| (forall|i: &'a Id, v: &'a CVec| call_ensures(get, (i,), v) ==> v@ == cv(*i)) ==> r@ == #[trigger] eval_of(*self, len as nat, cv),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn mk_interval<'a, F: Fn(&'a Id) -> &'a Interval<Constant>>(&'a self, get: F) -> (r: Interval<Constant>)
        requires forall|i: &'a Id| call_requires(get, (i,)),
        ensures forall|iv: spec_fn(Id) -> Interval<Constant>| (forall|i: &'a Id, v: &'a Interval<Constant>| call_ensures(get, (i,), v) ==> *v == iv(*i)) ==> r == #[trigger] interval_of(*self, iv),
    { unimplemented!() }
}
pub open spec fn class_cv(g: EGraph) -> spec_fn(Id) -> Seq<Option<Constant>> { |i: Id| g_class(g, i).data.cvec@ }
pub open spec fn class_iv(g: EGraph) -> spec_fn(Id) -> Interval<Constant> { |i: Id| g_class(g, i).data.interval }
pub open spec fn rep(g: EGraph, i: Id) -> RecExpr { g_class(g, i).data.simplest }
pub open spec fn reps_wf(g: EGraph) -> bool { forall|i: Id| rec_wf(#[trigger] rep(g, i)) }
pub open spec fn rep_trees(g: EGraph, ks: Seq<Id>) -> Seq<Tree> { Seq::new(ks.len(), |j: int| rec_tree(rep(g, ks[j]))) }
/// where the representatives of children have been placed
pub open spec fn reps_at(g: EGraph, s: Seq<L>, m: Map<Id, Id>) -> bool { nodes_wf(s) && forall|i: Id| #[trigger] m.contains_key(i) ==> m[i].i < s.len() && tree(s, m[i].i as int) == rec_tree(rep(g, i)) }
pub proof fn lemma_rep_added(g: EGraph, s: Seq<L>, m: Map<Id, Id>, id: Id, t: Seq<L>)
    requires reps_at(g, s, m), rec_wf(rep(g, id)), t.len() == s.len() + rep(g, id).nodes@.len(), t.take(s.len() as int) =~= s, placed(rep(g, id).nodes@, s.len() as int, t, rep(g, id).nodes@.len() as int),
    ensures reps_at(g, t, m), reps_at(g, t, m.insert(id, Id { i: (t.len() - 1) as usize })), m.insert(id, Id { i: (t.len() - 1) as usize }).contains_key(id),
{
    let r = rep(g, id).nodes@;
    let d = s.len() as int;
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] rec_node_wf(t[i], i) by {
        if i < d { assert(t.take(d)[i] == s[i]); assert(rec_node_wf(s[i], i)); }
        else { assert(rec_node_wf(r[i - d], i - d)); lemma_moved_wf(r[i - d], i - d, d); assert(t[d + (i - d)] == moved(r[i - d], d)); }
    }
    lemma_placed(r, d, t, r.len() - 1);
    assert forall|i: Id| #[trigger] m.contains_key(i) implies m[i].i < t.len() && tree(t, m[i].i as int) == rec_tree(rep(g, i)) by {
        assert forall|k: int| 0 <= k <= m[i].i implies s[k] == #[trigger] t[k] by { assert(t.take(d)[k] == s[k]); }
        lemma_tree_prefix(s, t, m[i].i as int);
    }
}
pub proof fn lemma_rep_done(g: EGraph, s: Seq<L>, m: Map<Id, Id>, n: L, ks: Seq<Id>)
    requires reps_at(g, s, m), ks.len() == kids(n).len(), forall|j: int| 0 <= j < ks.len() ==> m.contains_key(#[trigger] kids(n)[j]) && ks[j] == m[kids(n)[j]],
    ensures nodes_wf(s.push(with_kids(n, ks))), tree(s.push(with_kids(n, ks)), s.len() as int) == app(n, rep_trees(g, kids(n))),
{
    let t = s.push(with_kids(n, ks));
    let d = s.len() as int;
    lemma_head(n, ks);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] rec_node_wf(t[i], i) by {
        if i < d { assert(t[i] == s[i]); assert(rec_node_wf(s[i], i)); }
        else { assert forall|j: int| 0 <= j < kids(t[i]).len() implies (#[trigger] kids(t[i])[j]).i < i by { assert(m.contains_key(kids(n)[j])); } }
    }
    assert(rec_node_wf(t[d], d));
    lemma_tree(t, d);
    let a = Seq::new(kids(t[d]).len(), |j: int| tree(t, kids(t[d])[j].i as int));
    assert forall|j: int| 0 <= j < a.len() implies a[j] == rep_trees(g, kids(n))[j] by {
        assert(m.contains_key(kids(n)[j]));
        lemma_tree_prefix(s, t, m[kids(n)[j]].i as int);
    }
    assert(a =~= rep_trees(g, kids(n)));
}
pub proof fn lemma_leaf(n: L, s: Seq<L>)
    requires kids(n).len() == 0, s =~= seq![n],
    ensures nodes_wf(s), tree(s, 0) == app(n, Seq::empty()),
{ assert(rec_node_wf(s[0], 0)); lemma_tree(s, 0); assert(Seq::new(0nat, |j: int| tree(s, kids(s[0])[j].i as int)) =~= Seq::<Tree>::empty()); }
pub uninterp spec fn g_custom(g: EGraph, i: Id) -> EGraph;
pub uninterp spec fn g_mkc(g: EGraph, c: Constant) -> EGraph;
pub uninterp spec fn mkc_node(g: EGraph, c: Constant) -> L;
impl L {
    #[verifier::external_body] pub fn custom_modify(g: &mut EGraph, i: Id) ensures *final(g) == g_custom(*old(g), i) { unimplemented!() }
    #[verifier::external_body] pub fn mk_constant(c: Constant, g: &mut EGraph) -> (r: L) ensures *final(g) == g_mkc(*old(g), c), r == mkc_node(*old(g), c) { unimplemented!() }
}
/// the single value an interval allows
pub open spec fn pinned(i: Interval<Constant>) -> Option<Constant> { match (i.low, i.high) { (Some(a), Some(b)) => if a == b { Some(a) } else { None }, _ => None } }
pub open spec fn pin(g: EGraph, i: Id, c: Constant, h: EGraph) -> bool {
    let k = g_mkc(g, c);
    let n = mkc_node(g, c);
    h == g_union(g_add(k, n), i, g_add_id(k, n)) || h == g_union(g_add(k, n), g_add_id(k, n), i)
}
/// variables and constants have no children
pub broadcast axiom fn ax_leaf(n: L) ensures #[trigger] tovar(n) is Some || #[trigger] is_const(n) ==> kids(n).len() == 0;
} // mod mk
use mk::*;
@fn L::is_var
@props C27
@sig pub fn is_var(&self) -> (r: bool)
@spec
    ensures r == (tovar(*self) is Some),
@fn SynthAnalysis::Analysis::modify
@props C27
@flags impl=impl~SynthAnalysis index=trait
@sig pub fn modify(egraph: &mut EGraph, id: Id)
@spec
    ensures ({
        let g = g_custom(*old(egraph), id);
        match pinned(g_class(g, id).data.interval) { Some(c) => pin(g, id, c, *final(egraph)), None => *final(egraph) == g }
    }),
@fn SynthAnalysis::Analysis::make
@props C27
@flags impl=impl~SynthAnalysis index=trait
@sig pub fn make(egraph: &EGraph, enode: &L) -> (r: Signature)
@spec
    requires reps_wf(*egraph),
    ensures
        rec_wf(r.simplest),
        rec_tree(r.simplest) == app(*enode, rep_trees(*egraph, kids(*enode))),
        r.cvec@ == eval_of(*enode, egraph.analysis.cvec_len as nat, class_cv(*egraph)),
        r.interval == interval_of(*enode, class_iv(*egraph)),
@entry
    proof { ax_leaf(*enode); assert(Seq::<L>::empty().push(*enode) =~= seq![*enode]); if kids(*enode).len() == 0 { lemma_leaf(*enode, seq![*enode]); assert(rep_trees(*egraph, kids(*enode)) =~= Seq::<Tree>::empty()); } }
@loop 0
    $s == kids(*enode)
    reps_at(*egraph, nodes@, map@)
    forall|j: int| 0 <= j < $i ==> map@.contains_key(#[trigger] kids(*enode)[j])
@body 0
    let ghost vx_nodes = nodes@;
    let ghost vx_map = map@;
    let ghost vx_id = kids(*enode)[$i as int];
    proof { assert(rec_wf(rep(*egraph, vx_id))); }
@loop 1
    $s == rep(*egraph, vx_id).nodes@
    nodes@.len() == vx_nodes.len() + $i
    nodes@.take(vx_nodes.len() as int) =~= vx_nodes
    placed($s, vx_nodes.len() as int, nodes@, $i as int)
@body 1
    let ghost vx_k = $i as int;
    let ghost vx_rs = $s;
    let ghost vx_mid = nodes@;
@loop 2
    $s == kids(vx_rs[vx_k])
    $acc@ =~= Seq::new($i, |j: int| Id { i: (kids(vx_rs[vx_k])[j].i + vx_nodes.len()) as usize })
@body 2
    proof { assert(rec_node_wf(vx_rs[vx_k], vx_k)); assert(kids(vx_rs[vx_k])[$i as int].i < vx_k); assert(nodes@.len() <= usize::MAX); }
@after 2
    proof { assert($acc@ =~= Seq::new(kids(vx_rs[vx_k]).len(), |j: int| Id { i: (kids(vx_rs[vx_k])[j].i + vx_nodes.len()) as usize })); }
@tail 1
    proof {
        assert(nodes@[vx_nodes.len() + vx_k] == moved(vx_rs[vx_k], vx_nodes.len() as int));
        assert forall|k: int| 0 <= k < vx_k + 1 implies nodes@[vx_nodes.len() + k] == moved(#[trigger] vx_rs[k], vx_nodes.len() as int) by { if k < vx_k { assert(vx_mid[vx_nodes.len() + k] == moved(vx_rs[k], vx_nodes.len() as int)); } }
        assert(nodes@.take(vx_nodes.len() as int) =~= vx_mid.take(vx_nodes.len() as int));
    }
@after 1
    proof { lemma_rep_added(*egraph, vx_nodes, vx_map, vx_id, nodes@); }
@loop 3
    $s == kids(*enode)
    $acc@.len() == $i
    forall|j: int| 0 <= j < $i ==> $acc@[j] == map@[#[trigger] kids(*enode)[j]]
@after 3
    proof { lemma_rep_done(*egraph, nodes@, map@, *enode, $acc@); }
@closure eval
@sig &Id -> (res: &CVec)
@spec
    ensures *res == g_class(*egraph, *vx_p0).data.cvec
@closure mk_interval
@sig &Id -> (res: &Interval<Constant>)
@spec
    ensures *res == g_class(*egraph, *vx_p0).data.interval
@end
