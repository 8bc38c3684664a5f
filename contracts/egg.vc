@mono L A N / SynthLanguage / EGraph Pattern RecExpr PatternAst ENodeOrVar Rewrite EClass Signature Rule Ruleset CVec Constant Phase Runner Rhs Analysis Applier RewriteScheduler CostFunction SearchMatches
@stub vclone L::mk_var L::mk_constant L::validate L::is_allowed_op L::custom_modify L::initialize_vars L::get_exploratory_rules L::is_fast_forwarding .to_var .is_constant .is_allowed_op .run .run_derive .vars .instantiate .eval .mk_interval .add .union .find .rebuild .add_expr
@raw
// ======== egg, indexmap and the language, by their contracts ========
pub mod eg {
use super::*;

// ---- the language: an arbitrary implementation of SynthLanguage ----
#[verifier::external_body]
pub struct L { x: u8 }
impl VClone for L { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl VEq for L { #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
#[verifier::external_body]
pub struct Constant { x: u8 }
impl VClone for Constant { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
/// the text of a constant: two constants may share one
pub uninterp spec fn const_text(c: Constant) -> Seq<char>;
impl VToString for Constant { open spec fn shown(&self) -> Seq<char> { const_text(*self) } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
impl VEq for Constant { #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Symbol { x: u8 }
impl VClone for Symbol { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl VEq for Symbol { #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Var { x: u8 }
impl VClone for Var { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl VEq for Var { #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
// class and node identifiers
#[derive(Clone, Copy)]
pub struct Id { pub i: usize }
impl VClone for Id { fn vclone(&self) -> (r: Self) { *self } }
impl VEq for Id { fn veq(&self, o: &Self) -> (r: bool) { self.i == o.i } }
impl VInto<usize> for Id { open spec fn into_req(x: Self) -> bool { true } open spec fn into_ok(x: Self, r: usize) -> bool { r == x.i } fn vinto(self) -> (r: usize) { self.i } }
impl VInto<Id> for usize { open spec fn into_req(x: Self) -> bool { true } open spec fn into_ok(x: Self, r: Id) -> bool { r.i == x } fn vinto(self) -> (r: Id) { Id { i: self } } }

// children of a node, in order; the node with other children
pub uninterp spec fn kids(n: L) -> Seq<Id>;
pub uninterp spec fn with_kids(n: L, ks: Seq<Id>) -> L;
impl L {
    #[verifier::external_body]
    pub fn vkids(&self) -> (r: Vec<Id>) ensures r@ == kids(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vwith_kids(self, ks: Vec<Id>) -> (r: L) requires ks@.len() == kids(self).len() ensures r == with_kids(self, ks@) { unimplemented!() }
}
#[verifier::external_body]
pub struct Subst { x: u8 }
pub uninterp spec fn sub_get(s: Subst, v: Var) -> Id;
pub enum ENodeOrVar { ENode(L), Var(Var) }
impl VClone for ENodeOrVar { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl VEq for ENodeOrVar { #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
pub struct RecExpr { pub nodes: Vec<L> }
impl VClone for RecExpr { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl VEq for RecExpr { #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl RecExpr { pub fn vas_ref(&self) -> (r: &Vec<L>) ensures r@ == self.nodes@ { &self.nodes } }
impl VInto<RecExpr> for Vec<L> { open spec fn into_req(x: Self) -> bool { true } open spec fn into_ok(x: Self, r: RecExpr) -> bool { r.nodes == x } fn vinto(self) -> (r: RecExpr) { RecExpr { nodes: self } } }
pub struct PatternAst { pub nodes: Vec<ENodeOrVar> }
impl VClone for PatternAst { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl PatternAst { pub fn vas_ref(&self) -> (r: &Vec<ENodeOrVar>) ensures r@ == self.nodes@ { &self.nodes } }
impl VInto<PatternAst> for Vec<ENodeOrVar> { open spec fn into_req(x: Self) -> bool { true } open spec fn into_ok(x: Self, r: PatternAst) -> bool { r.nodes == x } fn vinto(self) -> (r: PatternAst) { PatternAst { nodes: self } } }
pub struct Pattern { pub ast: PatternAst }
impl VClone for Pattern { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl VInto<Pattern> for PatternAst { open spec fn into_req(x: Self) -> bool { true } open spec fn into_ok(x: Self, r: Pattern) -> bool { r.ast == x } fn vinto(self) -> (r: Pattern) { Pattern { ast: self } } }
// children come before their node
pub open spec fn pat_wf(p: Seq<ENodeOrVar>) -> bool { p.len() > 0 && forall|i: int| 0 <= i < p.len() ==> #[trigger] node_wf(p[i], i) }
pub open spec fn node_wf(n: ENodeOrVar, i: int) -> bool { match n { ENodeOrVar::Var(_) => true, ENodeOrVar::ENode(e) => forall|j: int| 0 <= j < kids(e).len() ==> (#[trigger] kids(e)[j]).i < i } }
// the printed form of a pattern, its variables in order of appearance, and the pattern a text denotes
pub uninterp spec fn pat_shown(p: Pattern) -> Seq<char>;
pub uninterp spec fn pat_vars(p: Pattern) -> Seq<Var>;
pub uninterp spec fn pat_parse(s: Seq<char>) -> Option<Pattern>;
impl VToString for Pattern { open spec fn shown(&self) -> Seq<char> { pat_shown(*self) } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
impl Pattern { #[verifier::external_body] pub fn vars(&self) -> (r: Vec<Var>) ensures r@ == pat_vars(*self) { unimplemented!() } }

// ---- indexing ----
pub trait VIndex<I> { type Out; spec fn at(&self, i: I) -> Self::Out; spec fn at_req(&self, i: I) -> bool; fn vindex(&self, i: I) -> (r: &Self::Out) requires self.at_req(i) ensures *r == self.at(i); }
impl<T> VIndex<usize> for Vec<T> { type Out = T; open spec fn at(&self, i: usize) -> T { self@[i as int] } open spec fn at_req(&self, i: usize) -> bool { i < self@.len() } fn vindex(&self, i: usize) -> (r: &T) { &self[i] } }
impl VIndex<Id> for EGraph { type Out = EClass; open spec fn at(&self, i: Id) -> EClass { g_class(*self, i) } open spec fn at_req(&self, i: Id) -> bool { true } #[verifier::external_body] fn vindex(&self, i: Id) -> (r: &EClass) { unimplemented!() } }
impl VIndex<Var> for Subst { type Out = Id; open spec fn at(&self, v: Var) -> Id { sub_get(*self, v) } open spec fn at_req(&self, i: Var) -> bool { true } #[verifier::external_body] fn vindex(&self, v: Var) -> (r: &Id) { unimplemented!() } }
impl VIndex<Id> for RecExpr { type Out = L; open spec fn at(&self, i: Id) -> L { self.nodes@[i.i as int] } open spec fn at_req(&self, i: Id) -> bool { i.i < self.nodes@.len() } fn vindex(&self, i: Id) -> (r: &L) { &self.nodes[i.i] } }
impl<T> VIndexMut<usize> for Vec<T> { type Out = T;
    open spec fn mat_req(&self, i: usize) -> bool { i < self@.len() }
    open spec fn was_at(old: &Self, i: usize, x: T) -> bool { x == old@[i as int] }
    open spec fn now_at(old: &Self, i: usize, x: T, new: &Self) -> bool { new@ == old@.update(i as int, x) }
    fn vindex_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] } }
pub trait VIndexMut<I> { type Out; spec fn mat_req(&self, i: I) -> bool; spec fn was_at(old: &Self, i: I, x: Self::Out) -> bool; spec fn now_at(old: &Self, i: I, x: Self::Out, new: &Self) -> bool;
    fn vindex_mut(&mut self, i: I) -> (r: &mut Self::Out) requires old(self).mat_req(i) ensures Self::was_at(old(self), i, *r), Self::now_at(old(self), i, *final(r), final(self)); }
pub open spec fn derefs<T>(v: Seq<&T>) -> Seq<T> { Seq::new(v.len(), |i: int| *v[i]) }
/// a part of a slice; of a text, by its bytes
pub trait VSlice { type S; spec fn part(&self, r: &Self::S, a: int, b: int) -> bool; spec fn size(&self) -> nat; spec fn bound(&self, a: int) -> bool; fn vsize(&self) -> (r: usize) ensures r == self.size(), self.bound(r as int); fn vslice(&self, a: usize, b: usize) -> (r: &Self::S) requires a <= b <= self.size(), self.bound(a as int), self.bound(b as int) ensures self.part(r, a as int, b as int); }
impl<T> VSlice for Vec<T> { type S = Vec<T>; open spec fn part(&self, r: &Vec<T>, a: int, b: int) -> bool { r@ == self@.subrange(a, b) } open spec fn size(&self) -> nat { self@.len() } open spec fn bound(&self, a: int) -> bool { true } fn vsize(&self) -> (r: usize) { self.len() } #[verifier::external_body] fn vslice(&self, a: usize, b: usize) -> (r: &Vec<T>) { unimplemented!() } }
impl<'x, T: VSlice> VSlice for &'x T { type S = T::S; open spec fn part(&self, r: &T::S, a: int, b: int) -> bool { (**self).part(r, a, b) } open spec fn size(&self) -> nat { (**self).size() } open spec fn bound(&self, a: int) -> bool { (**self).bound(a) } fn vsize(&self) -> (r: usize) { (**self).vsize() } fn vslice(&self, a: usize, b: usize) -> (r: &T::S) { (**self).vslice(a, b) } }
impl VSlice for String { type S = String; open spec fn part(&self, r: &String, a: int, b: int) -> bool { r@ == self@.subrange(cpos(self@, a), cpos(self@, b)) } open spec fn size(&self) -> nat { byte_len(self@) } open spec fn bound(&self, a: int) -> bool { boundary(self@, a) } #[verifier::external_body] fn vsize(&self) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn vslice(&self, a: usize, b: usize) -> (r: &String) { unimplemented!() } }
pub fn vx_slice_from<T: VSlice>(v: &T, a: usize) -> (r: &T::S) requires a <= v.size(), v.bound(a as int) ensures v.part(r, a as int, v.size() as int) { let n = v.vsize(); v.vslice(a, n) }
pub fn vx_slice<T: VSlice>(v: &T, a: usize, b: usize) -> (r: &T::S) requires a <= b <= v.size(), v.bound(a as int), v.bound(b as int) ensures v.part(r, a as int, b as int) { v.vslice(a, b) }
/// the same where an impossible range is a panic
#[verifier::external_body]
pub fn vx_slice_p<'a, T: VSlice>(v: &T, a: usize, b: usize) -> (r: &'a T::S) where T::S: 'a ensures a <= b <= v.size(), v.bound(a as int), v.bound(b as int), v.part(r, a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_slice_from_p<T: VSlice>(v: &T, a: usize) -> (r: &T::S) ensures a <= v.size(), v.bound(a as int), v.part(r, a as int, v.size() as int) { unimplemented!() }

// ---- e-graphs: every operation a function of the e-graph ----
pub struct EGraph { pub analysis: SynthAnalysis, pub inner: EGInner }
#[verifier::external_body]
pub struct EGInner { x: u8 }
pub struct EClass { pub id: Id, pub data: Signature }
impl VClone for EGraph { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl VNew for EGraph { open spec fn is_new(r: Self) -> bool { r == g_empty() } #[verifier::external_body] fn vnew() -> (r: Self) { unimplemented!() } }
pub uninterp spec fn g_empty() -> EGraph;
pub uninterp spec fn g_add(g: EGraph, n: L) -> EGraph;
pub uninterp spec fn g_add_id(g: EGraph, n: L) -> Id;
pub uninterp spec fn g_add_expr(g: EGraph, e: RecExpr) -> EGraph;
pub uninterp spec fn g_add_expr_id(g: EGraph, e: RecExpr) -> Id;
pub uninterp spec fn g_union(g: EGraph, a: Id, b: Id) -> EGraph;
pub uninterp spec fn g_rebuild(g: EGraph) -> EGraph;
pub uninterp spec fn g_find(g: EGraph, a: Id) -> Id;
pub uninterp spec fn g_class(g: EGraph, a: Id) -> EClass;
pub uninterp spec fn g_classes(g: EGraph) -> Seq<EClass>;
pub uninterp spec fn g_lookup(g: EGraph, e: RecExpr) -> Option<Id>;
impl EGraph {
    #[verifier::external_body]
    pub fn add(&mut self, n: L) -> (r: Id) ensures *final(self) == g_add(*old(self), n), r == g_add_id(*old(self), n) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_expr(&mut self, e: &RecExpr) -> (r: Id) ensures *final(self) == g_add_expr(*old(self), *e), r == g_add_expr_id(*old(self), *e) { unimplemented!() }
    #[verifier::external_body]
    pub fn union(&mut self, a: Id, b: Id) -> (r: bool) ensures *final(self) == g_union(*old(self), a, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn rebuild(&mut self) -> (r: usize) ensures *final(self) == g_rebuild(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn find(&self, a: Id) -> (r: Id) ensures r == g_find(*self, a) { unimplemented!() }
    #[verifier::external_body]
    pub fn vclasses(&self) -> (r: &Vec<EClass>) ensures r@ == g_classes(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn number_of_classes(&self) -> (r: usize) ensures r == g_classes(*self).len() { unimplemented!() }
    #[verifier::external_body]
    pub fn lookup_expr(&self, e: &RecExpr) -> (r: Option<Id>) ensures r == g_lookup(*self, *e) { unimplemented!() }
}
// classes are listed once each, under their own identifier
pub broadcast axiom fn ax_classes(g: EGraph) ensures classes_once(#[trigger] g_classes(g)), forall|i: int| 0 <= i < g_classes(g).len() ==> g_class(g, (#[trigger] g_classes(g)[i]).id) == g_classes(g)[i];
pub open spec fn classes_once(s: Seq<EClass>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).id != (#[trigger] s[j]).id }

// ---- text ----
#[verifier::external_body]
pub struct Fmt { x: u8 }
impl View for Fmt { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Fmt { #[verifier::external_body] pub fn vwrite<T: VText>(&mut self, t: T) -> (r: Result<(), VErr>) ensures r is Ok ==> final(self)@ == old(self)@ + t.text() { unimplemented!() } }
#[derive(Debug)]
pub struct VErr;
pub trait VFromText: Sized { spec fn reads(s: Seq<char>) -> Option<Self>; }
impl VFromText for Pattern { open spec fn reads(s: Seq<char>) -> Option<Pattern> { pat_parse(s) } }
impl String {
    #[verifier::external_body]
    pub fn parse<T: VFromText>(&self) -> (r: Result<T, VErr>) ensures r is Ok <==> T::reads(self@) is Some, r matches Ok(x) ==> T::reads(self@) == Some(x) { unimplemented!() }
}

// ---- indexmap: a sequence of entries with distinct keys ----
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { k: std::marker::PhantomData<K>, v: std::marker::PhantomData<V> }
impl<K, V> View for IndexMap<K, V> { type V = Seq<(K, V)>; uninterp spec fn view(&self) -> Seq<(K, V)>; }
pub open spec fn im_wf<K, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub broadcast axiom fn ax_im_wf<K, V>(m: IndexMap<K, V>) ensures im_wf(#[trigger] m@), m@.len() <= usize::MAX;
pub uninterp spec fn mkim<K, V>(s: Seq<(K, V)>) -> IndexMap<K, V>;
pub broadcast axiom fn ax_mkim_of<K, V>(m: IndexMap<K, V>) ensures mkim(#[trigger] m@) == m;
pub open spec fn im_has<K, V>(s: Seq<(K, V)>, k: K) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub open spec fn im_pos<K, V>(s: Seq<(K, V)>, k: K) -> int { choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub open spec fn im_get<K, V>(s: Seq<(K, V)>, k: K) -> V { s[im_pos(s, k)].1 }
pub open spec fn im_put<K, V>(s: Seq<(K, V)>, k: K, v: V) -> Seq<(K, V)> { if im_has(s, k) { s.update(im_pos(s, k), (k, v)) } else { s.push((k, v)) } }
// the last entry takes the place of the removed one
pub open spec fn im_del<K, V>(s: Seq<(K, V)>, k: K) -> Seq<(K, V)> { if im_has(s, k) { s.update(im_pos(s, k), s.last()).drop_last() } else { s } }
// the first n entries of t put into s
pub open spec fn im_merge<K, V>(s: Seq<(K, V)>, t: Seq<(K, V)>, n: nat) -> Seq<(K, V)> decreases n { if n == 0 { s } else { im_put(im_merge(s, t, (n - 1) as nat), t[n - 1].0, t[n - 1].1) } }
pub open spec fn opt_entry<K, V>(s: Seq<(K, V)>, k: K) -> Option<V> { if im_has(s, k) { Some(im_get(s, k)) } else { None } }
pub open spec fn im_vals<K, V>(s: Seq<(K, V)>) -> Seq<V> { Seq::new(s.len(), |i: int| s[i].1) }
pub open spec fn im_keys<K, V>(s: Seq<(K, V)>) -> Seq<K> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn same_entries<K, V>(a: Seq<(K, V)>, b: Seq<(K, V)>) -> bool { a.to_multiset() =~= b.to_multiset() }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct Vals<'a, K, V> { m: &'a IndexMap<K, V> }
impl<'a, K, V> View for Vals<'a, K, V> { type V = Seq<V>; uninterp spec fn view(&self) -> Seq<V>; }
impl<'a, K, V> Vals<'a, K, V> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vget(&self, i: usize) -> (r: &'a V) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct Pairs<'a, K, V> { m: &'a IndexMap<K, V> }
impl<'a, K, V> View for Pairs<'a, K, V> { type V = Seq<(K, V)>; uninterp spec fn view(&self) -> Seq<(K, V)>; }
impl<'a, K, V> Pairs<'a, K, V> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vget(&self, i: usize) -> (r: (&'a K, &'a V)) requires i < self@.len() ensures *r.0 == self@[i as int].0, *r.1 == self@[i as int].1 { unimplemented!() }
}
impl<K, V> IndexMap<K, V> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    pub fn vis_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.len() == 0 }
    #[verifier::external_body]
    pub fn viter(&self) -> (r: Pairs<'_, K, V>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vvalues(&self) -> (r: Vals<'_, K, V>) ensures r@ == im_vals(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: Vals<'_, K, V>) ensures r@ == im_vals(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vkeys(&self) -> (r: Vals<'_, V, K>) ensures r@ == im_keys(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap_remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == im_del(old(self)@, *k), r == opt_entry(old(self)@, *k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_index(&self, i: usize) -> (r: Option<(&K, &V)>)
        ensures r == (if i < self@.len() { Some((&self@[i as int].0, &self@[i as int].1)) } else { None::<(&K, &V)> })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r == (if im_has(self@, *k) { Some(&im_get(self@, *k)) } else { None::<&V> }) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == im_has(self@, *k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == im_put(old(self)@, k, v), r == opt_entry(old(self)@, k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == im_del(old(self)@, *k), r == opt_entry(old(self)@, *k) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<(K, V)>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vor_insert(&mut self, k: K, v: V) -> (r: &mut V)
        ensures *r == (if im_has(old(self)@, k) { im_get(old(self)@, k) } else { v }), final(self)@ == im_put(old(self)@, k, *final(r)),
    { unimplemented!() }
    /// sorted by a comparison: a rearrangement in which no later entry compares smaller than an earlier one
    #[verifier::external_body]
    pub fn vsort_by<F: Fn(&K, &V, &K, &V) -> Ordering>(&mut self, f: F)
        requires forall|a: &K, b: &V, c: &K, d: &V| #[trigger] f.requires((a, b, c, d)),
        ensures
            same_entries(old(self)@, final(self)@),
            forall|i: int, j: int| 0 <= i < j < final(self)@.len() ==> cmp_not_greater(f, final(self)@[i], #[trigger] final(self)@[j], #[trigger] trig2(i, j)),
    { unimplemented!() }
}
pub open spec fn trig2(i: int, j: int) -> bool { true }
pub open spec fn cmp_not_greater<K, V, F: Fn(&K, &V, &K, &V) -> Ordering>(f: F, a: (K, V), b: (K, V), t: bool) -> bool { exists|o: Ordering| o != Ordering::Greater && #[trigger] f.ensures((&a.0, &a.1, &b.0, &b.1), o) }
impl<K, V> VNew for IndexMap<K, V> { open spec fn is_new(r: Self) -> bool { r@ == Seq::<(K, V)>::empty() } #[verifier::external_body] fn vnew() -> (r: Self) { unimplemented!() } }
impl<K: VClone, V: VClone> VClone for IndexMap<K, V> { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl<K, V> VExtend<IndexMap<K, V>> for IndexMap<K, V> {
    open spec fn extended(old: Self, a: Self, new: Self) -> bool { new@ == im_merge(old@, a@, a@.len()) }
    #[verifier::external_body]
    fn vextend(&mut self, a: Self) { unimplemented!() }
}
impl<K, V> VSeq for IndexMap<K, V> {
    type Elem = (K, V); type Out = (K, V);
    open spec fn vseq(&self) -> Seq<(K, V)> { self@ }
    open spec fn visit(o: (K, V), e: (K, V)) -> bool { o == e }
    fn vlen(&self) -> (n: usize) { self.len() }
    #[verifier::external_body]
    fn vtake(&self, i: usize) -> (r: (K, V)) { unimplemented!() }
}
// map values, in an order that is not specified
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HVals<'a, K, V> { m: &'a HashMap<K, V> }
impl<'a, K, V> View for HVals<'a, K, V> { type V = Seq<V>; uninterp spec fn view(&self) -> Seq<V>; }
impl<'a, K, V> HVals<'a, K, V> {
    pub uninterp spec fn ks(&self) -> Seq<K>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vget(&self, i: usize) -> (r: &'a V) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn vvalues(&self) -> (r: HVals<'_, K, V>)
        ensures
            r.ks().len() == r@.len(), r.ks().no_duplicates(),
            forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(#[trigger] r.ks()[i]) && r@[i] == self@[r.ks()[i]],
            forall|k: K| #[trigger] self@.contains_key(k) ==> r.ks().contains(k),
            vals_are(self@, r@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vor_insert(&mut self, k: K, v: V) -> (r: &mut V)
        ensures *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { v }), final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn vget_mut(&mut self, k: K) -> (r: &mut V)
        requires old(self)@.contains_key(k),
        ensures *r == old(self)@[k], final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
}
/// the values of a map, in some order
pub open spec fn vals_are<K, V>(m: Map<K, V>, s: Seq<V>) -> bool { (forall|i: int| 0 <= i < s.len() ==> is_val(m, #[trigger] s[i])) && (forall|k: K| #[trigger] m.contains_key(k) ==> s.contains(m[k])) }
pub open spec fn is_val<K, V>(m: Map<K, V>, v: V) -> bool { exists|k: K| #[trigger] m.contains_key(k) && m[k] == v }
#[derive(Clone, Copy)]
pub enum Ordering { Less, Equal, Greater }

pub proof fn lemma_put<K, V>(s: Seq<(K, V)>, k: K, v: V)
    requires im_wf(s),
    ensures
        im_wf(im_put(s, k, v)),
        forall|x: K| #[trigger] im_has(im_put(s, k, v), x) <==> x == k || im_has(s, x),
        forall|x: K| im_has(im_put(s, k, v), x) ==> #[trigger] im_get(im_put(s, k, v), x) == (if x == k { v } else { im_get(s, x) }),
{
    let t = im_put(s, k, v);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by {
        if !im_has(s, k) { if j == s.len() { assert(s[i].0 != k); } }
    }
    assert forall|x: K| #[trigger] im_has(t, x) <==> x == k || im_has(s, x) by {
        if im_has(t, x) { let i = im_pos(t, x); if i < s.len() && x != k { assert(s[i].0 == x); } }
        if x == k { if im_has(s, k) { assert(t[im_pos(s, k)].0 == k); } else { assert(t[s.len() as int].0 == k); } }
        if im_has(s, x) { let i = im_pos(s, x); assert(t[i].0 == x); }
    }
    assert forall|x: K| im_has(t, x) implies #[trigger] im_get(t, x) == (if x == k { v } else { im_get(s, x) }) by {
        let i = im_pos(t, x);
        assert(t[i].0 == x);
        if x == k {
            if im_has(s, k) { let p = im_pos(s, k); assert(t[p].0 == k); if i != p { if i < p { assert(t[i].0 != t[p].0); } else { assert(t[p].0 != t[i].0); } } }
            else { if i < s.len() { assert(s[i].0 == k); } }
        } else {
            assert(i < s.len() ==> s[i].0 == x);
            let p = im_pos(s, x);
            assert(s[p].0 == x);
            if i != p { if i < p { assert(s[i].0 != s[p].0); } else { assert(s[p].0 != s[i].0); } }
        }
    }
}
pub proof fn lemma_get<K, V>(s: Seq<(K, V)>, i: int)
    requires im_wf(s), 0 <= i < s.len(),
    ensures im_has(s, s[i].0), im_get(s, s[i].0) == s[i].1, im_pos(s, s[i].0) == i,
{
    let k = s[i].0;
    assert(s[i].0 == k);
    let p = im_pos(s, k);
    assert(s[p].0 == k);
    if p < i { assert(s[p].0 != s[i].0); }
    if i < p { assert(s[i].0 != s[p].0); }
}
pub proof fn lemma_del<K, V>(s: Seq<(K, V)>, k: K)
    requires im_wf(s),
    ensures
        im_wf(im_del(s, k)),
        forall|x: K| #[trigger] im_has(im_del(s, k), x) <==> x != k && im_has(s, x),
        forall|x: K| im_has(im_del(s, k), x) ==> #[trigger] im_get(im_del(s, k), x) == im_get(s, x),
{
    let t = im_del(s, k);
    if im_has(s, k) {
        let p = im_pos(s, k);
        assert(s[p].0 == k);
        let n = s.len() - 1;
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == (if i == p { s[n] } else { s[i] }) by {}
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by {
            let a = if i == p { n } else { i };
            let b = if j == p { n } else { j };
            if a < b { assert(s[a].0 != s[b].0); } else { assert(s[b].0 != s[a].0); }
        }
        assert forall|x: K| #[trigger] im_has(t, x) <==> x != k && im_has(s, x) by {
            if im_has(t, x) {
                let i = im_pos(t, x);
                let a = if i == p { n } else { i };
                assert(s[a].0 == x);
                if x == k { if a < p { assert(s[a].0 != s[p].0); } else { assert(s[p].0 != s[a].0); } }
            }
            if x != k && im_has(s, x) {
                let i = im_pos(s, x);
                assert(s[i].0 == x);
                if i == n { assert(t[p].0 == x); } else { assert(t[i].0 == x); }
            }
        }
        assert forall|x: K| im_has(t, x) implies #[trigger] im_get(t, x) == im_get(s, x) by {
            let i = im_pos(t, x);
            assert(t[i].0 == x);
            let a = if i == p { n } else { i };
            lemma_get(s, a);
        }
    } else {
        assert(forall|x: K| im_has(s, x) ==> x != k);
    }
}
pub proof fn lemma_merge<K, V>(s: Seq<(K, V)>, t: Seq<(K, V)>, n: nat)
    requires im_wf(s), im_wf(t), n <= t.len(),
    ensures
        im_wf(im_merge(s, t, n)),
        forall|x: K| #[trigger] im_has(im_merge(s, t, n), x) <==> im_has(s, x) || im_has(t.take(n as int), x),
        forall|x: K| im_has(im_merge(s, t, n), x) ==> #[trigger] im_get(im_merge(s, t, n), x) == (if im_has(t.take(n as int), x) { im_get(t.take(n as int), x) } else { im_get(s, x) }),
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_merge(s, t, m);
        let a = im_merge(s, t, m);
        let (k, v) = t[n - 1];
        lemma_put(a, k, v);
        let u = t.take(n as int);
        let w = t.take(m as int);
        assert(im_wf(u)) by { assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).0 != (#[trigger] u[j]).0 by { assert(t[i].0 != t[j].0); } }
        assert(im_wf(w)) by { assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).0 != (#[trigger] w[j]).0 by { assert(t[i].0 != t[j].0); } }
        assert forall|x: K| #[trigger] im_has(u, x) <==> x == k || im_has(w, x) by {
            if im_has(u, x) { let i = im_pos(u, x); assert(u[i].0 == x); if i < m { assert(w[i].0 == x); } }
            if x == k { assert(u[m as int].0 == k); }
            if im_has(w, x) { let i = im_pos(w, x); assert(u[i].0 == x); }
        }
        assert forall|x: K| im_has(u, x) implies #[trigger] im_get(u, x) == (if x == k { v } else { im_get(w, x) }) by {
            if x == k { lemma_get(u, m as int); } else { let i = im_pos(w, x); assert(w[i].0 == x); lemma_get(w, i); lemma_get(u, i); }
        }
    }
    assert(im_merge(s, t, 0) == s);
}
} // mod eg
use eg::*;
broadcast use {ax_im_wf, ax_mkim_of, ax_classes};
@type SynthAnalysis Clone
@alias CVec
@type Interval PartialEq Clone
@type Signature Clone
