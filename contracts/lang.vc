@stub .cost_rec .is_leaf
@raw
// ======== the language trait (C25) ========
pub mod la {
use super::*;
// sets
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: std::marker::PhantomData<K> }
impl<K> View for HashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
pub broadcast axiom fn ax_hs<K>(m: HashSet<K>) ensures #[trigger] m@.len() <= usize::MAX;
impl<K> HashSet<K> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vis_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn vcontains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
}
impl<K> VNew for HashSet<K> { open spec fn is_new(r: Self) -> bool { r@ == Set::<K>::empty() } #[verifier::external_body] fn vnew() -> (r: Self) { unimplemented!() } }
impl<K> VExtend<Vec<K>> for HashSet<K> { open spec fn extended(old: Self, a: Vec<K>, new: Self) -> bool { new@ == old@.union(a@.to_set()) } #[verifier::external_body] fn vextend(&mut self, a: Vec<K>) { unimplemented!() } }
impl<K> VPut<K> for HashSet<K> { open spec fn was_put(old: Self, a: K, new: Self) -> bool { new@ == old@.insert(a) } #[verifier::external_body] fn vput(&mut self, a: K) { unimplemented!() } }

// egg's size of a term or pattern (AstSize): not bounded by the number of its nodes, as nodes are shared; it is assumed not to exceed 2^28
pub trait VTerm { spec fn asize(&self) -> nat; }
pub uninterp spec fn pat_size(p: PatternAst) -> nat;
pub uninterp spec fn rec_size(p: RecExpr) -> nat;
impl VTerm for PatternAst { open spec fn asize(&self) -> nat { pat_size(*self) } }
impl VTerm for RecExpr { open spec fn asize(&self) -> nat { rec_size(*self) } }
pub struct AstSize;
impl AstSize { #[verifier::external_body] pub fn cost_rec<T: VTerm>(&self, t: &T) -> (r: usize) ensures r == t.asize(), r <= 0x1000_0000 { unimplemented!() } }
// a pattern that is in memory has few nodes and variables
#[verifier::external_body]
pub fn vx_pat_small(p: &Pattern) ensures p.ast.nodes@.len() <= 0x1000_0000, pat_vars(*p).len() <= 0x1000_0000 {}
// the printed operator of a node, and whether a node has no children
pub uninterp spec fn op_text(n: ENodeOrVar) -> Seq<char>;
pub open spec fn is_leaf(n: ENodeOrVar) -> bool { match n { ENodeOrVar::Var(_) => true, ENodeOrVar::ENode(e) => kids(e).len() == 0 } }
pub uninterp spec fn is_const(n: L) -> bool;
pub uninterp spec fn allowed_op(n: L) -> bool;
impl VToString for ENodeOrVar { open spec fn shown(&self) -> Seq<char> { op_text(*self) } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
impl ENodeOrVar { #[verifier::external_body] pub fn is_leaf(&self) -> (r: bool) ensures r == is_leaf(*self) { unimplemented!() } }
impl L {
    #[verifier::external_body] pub fn is_constant(&self) -> (r: bool) ensures r == is_const(*self) { unimplemented!() }
    #[verifier::external_body] pub fn is_allowed_op(&self) -> (r: bool) ensures r == allowed_op(*self) { unimplemented!() }
}
// ---- scores ----
pub open spec fn const_node(n: ENodeOrVar) -> bool { match n { ENodeOrVar::ENode(e) => is_const(e), ENodeOrVar::Var(_) => false } }
pub open spec fn consts(s: Seq<ENodeOrVar>, n: nat) -> nat decreases n { if n == 0 { 0 } else { consts(s, (n - 1) as nat) + (if const_node(s[n - 1]) { 1nat } else { 0 }) } }
pub open spec fn ops_of(s: Seq<ENodeOrVar>, n: nat) -> Set<String> decreases n { if n == 0 { Set::empty() } else { let p = ops_of(s, (n - 1) as nat); if is_leaf(s[n - 1]) { p } else { p.insert(mkstr(op_text(s[n - 1]))) } } }
pub open spec fn both(l: Pattern, r: Pattern) -> Seq<ENodeOrVar> { l.ast.nodes@ + r.ast.nodes@ }
pub open spec fn mx(a: nat, b: nat) -> int { if a > b { a as int } else { b as int } }
/// more distinct variables, fewer constants, a smaller larger side, a smaller total size, fewer distinct operators
pub open spec fn score_of(l: Pattern, r: Pattern) -> Seq<int> {
    seq![
        pat_vars(l).to_set().union(pat_vars(r).to_set()).len() as int,
        -(consts(both(l, r), both(l, r).len()) as int),
        -mx(pat_size(l.ast), pat_size(r.ast)),
        -((pat_size(l.ast) + pat_size(r.ast)) as int),
        -(ops_of(both(l, r), both(l, r).len()).len() as int),
    ]
}
/// the first difference decides, and the greater value there wins
pub open spec fn lex(a: Seq<int>, b: Seq<int>) -> Ordering decreases a.len() {
    if a.len() == 0 || b.len() == 0 { if a.len() == b.len() { Ordering::Equal } else if a.len() == 0 { Ordering::Less } else { Ordering::Greater } }
    else if a[0] < b[0] { Ordering::Less } else if a[0] > b[0] { Ordering::Greater } else { lex(a.skip(1), b.skip(1)) }
}
pub open spec fn ints(a: Seq<i32>) -> Seq<int> { Seq::new(a.len(), |i: int| a[i] as int) }
pub trait VCmp: Sized { spec fn order(a: Self, b: Self) -> Ordering; fn vcmp(&self, o: &Self) -> (r: Ordering) ensures r == Self::order(*self, *o); }
impl VCmp for [i32; 5] { open spec fn order(a: [i32; 5], b: [i32; 5]) -> Ordering { lex(ints(a@), ints(b@)) } #[verifier::external_body] fn vcmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
pub proof fn lemma_consts_split(a: Seq<ENodeOrVar>, b: Seq<ENodeOrVar>, n: nat)
    requires n <= b.len(),
    ensures consts(a + b, a.len() + n) == consts(a, a.len()) + consts(b, n), ops_of(a + b, a.len() + n) =~= ops_of(a, a.len()).union(ops_of(b, n)),
    decreases n,
{
    if n == 0 { lemma_consts_prefix(a + b, a, a.len()); } else { lemma_consts_split(a, b, (n - 1) as nat); assert((a + b)[a.len() + n - 1] == b[n - 1]); assert((a.len() + n - 1) as nat == a.len() + (n - 1) as nat); }
}
pub proof fn lemma_consts_prefix(a: Seq<ENodeOrVar>, b: Seq<ENodeOrVar>, n: nat)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures consts(a, n) == consts(b, n), ops_of(a, n) == ops_of(b, n),
    decreases n,
{ if n > 0 { lemma_consts_prefix(a, b, (n - 1) as nat); } }
/// C25: a rule and its reverse have the same score
pub proof fn theorem_score_symmetric(l: Pattern, r: Pattern)
    ensures score_of(l, r) =~= score_of(r, l),
{
    let (a, b) = (l.ast.nodes@, r.ast.nodes@);
    lemma_consts_split(a, b, b.len());
    lemma_consts_split(b, a, a.len());
    assert(ops_of(a, a.len()).union(ops_of(b, b.len())) =~= ops_of(b, b.len()).union(ops_of(a, a.len())));
    assert(pat_vars(l).to_set().union(pat_vars(r).to_set()) =~= pat_vars(r).to_set().union(pat_vars(l).to_set()));
}
/// C25: the criteria in their order of importance
pub proof fn theorem_score_order(l1: Pattern, r1: Pattern, l2: Pattern, r2: Pattern, k: int)
    requires 0 <= k < 5, forall|i: int| 0 <= i < k ==> score_of(l1, r1)[i] == score_of(l2, r2)[i], score_of(l1, r1)[k] < score_of(l2, r2)[k],
    ensures lex(score_of(l1, r1), score_of(l2, r2)) is Less, lex(score_of(l2, r2), score_of(l1, r1)) is Greater,
{ lemma_lex(score_of(l1, r1), score_of(l2, r2), k); }
pub proof fn lemma_lex(a: Seq<int>, b: Seq<int>, k: int)
    requires 0 <= k < a.len(), a.len() == b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i], a[k] < b[k],
    ensures lex(a, b) is Less, lex(b, a) is Greater,
    decreases k,
{ if k > 0 { lemma_lex(a.skip(1), b.skip(1), k - 1); } }
/// not greater, transitively
pub proof fn lemma_lex_trans(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    requires a.len() == b.len(), b.len() == c.len(), !(lex(a, b) is Greater), !(lex(b, c) is Greater),
    ensures !(lex(a, c) is Greater),
    decreases a.len(),
{ if a.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_lex_trans(a.skip(1), b.skip(1), c.skip(1)); } }
#[verifier::external_body]
pub fn vx_max_i32(a: i32, b: i32) -> (r: i32) ensures r == (if a > b { a } else { b }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_min_i32(a: i32, b: i32) -> (r: i32) ensures r == (if a < b { a } else { b }) { unimplemented!() }
pub proof fn lemma_counts(l: Pattern, r: Pattern, n: nat)
    requires n <= both(l, r).len(),
    ensures consts(both(l, r), n) <= n, ops_of(both(l, r), n).len() <= n,
    decreases n,
{ if n > 0 { lemma_counts(l, r, (n - 1) as nat); } }
pub proof fn lemma_var_count(l: Pattern, r: Pattern)
    ensures pat_vars(l).to_set().union(pat_vars(r).to_set()).len() <= pat_vars(l).len() + pat_vars(r).len(),
{
    pat_vars(l).lemma_cardinality_of_set(); pat_vars(r).lemma_cardinality_of_set();
    vstd::set_lib::lemma_len_union(pat_vars(l).to_set(), pat_vars(r).to_set());
}
} // mod la
use la::*;
broadcast use {ax_hs};
@fn L::score
@props C25
@sig pub fn score(lhs: &Pattern, rhs: &Pattern) -> (r: [i32; 5])
@spec
    ensures ints(r@) =~= score_of(*lhs, *rhs),
@entry
    vx_pat_small(lhs);
    vx_pat_small(rhs);
    proof { lemma_counts(*lhs, *rhs, both(*lhs, *rhs).len()); lemma_var_count(*lhs, *rhs); assert(Set::<Var>::empty().union(pat_vars(*lhs).to_set()) =~= pat_vars(*lhs).to_set()); }
@loop 0
    ops@ == ops_of(both(*lhs, *rhs), $i)
    derefs($s) =~= both(*lhs, *rhs)
@loop 1
    $acc == consts(both(*lhs, *rhs), $i)
    $acc <= $i
    derefs($s) =~= both(*lhs, *rhs)
@end
@fn Rule::score
@props C25
@sig pub fn score(&self) -> (r: [i32; 5]) | fn score (& self) -> impl Ord + Debug
@spec
    ensures ints(r@) =~= score_of(self.lhs, self.rhs),
