@retype BV BV<N>
@retype Bv Bv<N>
@macro impl_bv N
@include bv.vc
@raw
#[derive(Clone, Copy)] pub struct Id(pub u32);
#[derive(Clone, Copy)] pub struct Symbol(pub u32);
@lang Bv <const N: u128>
@raw
pub open spec fn mk<const N: u128>(x: int) -> BV<N> { BV((x % (p2(N as nat) as int)) as u128) }
@include util.vc
@stub ~none .add vclone
@raw
// ======== variables of the bit-vector domain (C03) ========
pub mod bi {
use super::*;
use vstd::prelude::*;
impl<const N: u128> VInto<BV<N>> for usize {
    open spec fn into_req(x: usize) -> bool { ok_width(N) }
    open spec fn into_ok(x: usize, r: BV<N>) -> bool { r.0 as nat == x as nat % p2(N as nat) && can(r) }
    fn vinto(self) -> (r: BV<N>) { (self as u128).vinto() }
}
impl VNew for Id { open spec fn is_new(r: Self) -> bool { true } #[verifier::external_body] fn vnew() -> (r: Self) { unimplemented!() } }
pub uninterp spec fn sym_of(s: Seq<char>) -> Symbol;
impl Symbol { #[verifier::external_body] pub fn from(s: String) -> (r: Symbol) ensures r == sym_of(s@) { unimplemented!() } }
pub struct SynthAnalysis { pub cvec_len: usize }
/// egg's tables
#[verifier::external_body] pub struct Inner<const N: u128> { x: u8 }
pub struct EGraph<const N: u128> { pub analysis: SynthAnalysis, pub inner: Inner<N> }
pub struct Signature<const N: u128> { pub cvec: Vec<Option<BV<N>>> }
pub struct EClass<const N: u128> { pub data: Signature<N> }
pub uninterp spec fn i_add<const N: u128>(g: Inner<N>, n: Bv<N>) -> Inner<N>;
pub uninterp spec fn i_id<const N: u128>(g: Inner<N>, n: Bv<N>) -> Id;
pub uninterp spec fn i_class<const N: u128>(g: Inner<N>, i: Id) -> EClass<N>;
/// the same tables with another class under an identifier
pub uninterp spec fn i_with<const N: u128>(g: Inner<N>, i: Id, c: EClass<N>) -> Inner<N>;
impl<const N: u128> EGraph<N> { #[verifier::external_body] pub fn add(&mut self, n: Bv<N>) -> (r: Id) ensures r == i_id(old(self).inner, n), final(self).inner == i_add(old(self).inner, n), final(self).analysis == old(self).analysis { unimplemented!() } }
pub trait VIndex<I> { type Out; spec fn at(&self, i: I) -> Self::Out; spec fn at_req(&self, i: I) -> bool; fn vindex(&self, i: I) -> (r: &Self::Out) requires self.at_req(i) ensures *r == self.at(i); }
impl<T> VIndex<usize> for Vec<T> { type Out = T; open spec fn at(&self, i: usize) -> T { self@[i as int] } open spec fn at_req(&self, i: usize) -> bool { i < self@.len() } fn vindex(&self, i: usize) -> (r: &T) { &self[i] } }
pub trait VIndexMut<I> { type Out; spec fn was_at(old: &Self, i: I, x: Self::Out) -> bool; spec fn now_at(old: &Self, i: I, x: Self::Out, new: &Self) -> bool;
    fn vindex_mut(&mut self, i: I) -> (r: &mut Self::Out) ensures Self::was_at(old(self), i, *r), Self::now_at(old(self), i, *final(r), final(self)); }
impl<const N: u128> VIndexMut<Id> for EGraph<N> { type Out = EClass<N>;
    open spec fn was_at(old: &Self, i: Id, x: EClass<N>) -> bool { x == i_class(old.inner, i) }
    open spec fn now_at(old: &Self, i: Id, x: EClass<N>, new: &Self) -> bool { new.analysis == old.analysis && new.inner == i_with(old.inner, i, x) }
    #[verifier::external_body] fn vindex_mut(&mut self, i: Id) -> (r: &mut EClass<N>) { unimplemented!() } }
// ---- sorting, and removing repetitions that follow each other ----
pub open spec fn ole<const N: u128>(a: Option<BV<N>>, b: Option<BV<N>>) -> bool { match (a, b) { (None, _) => true, (_, None) => false, (Some(x), Some(y)) => x.0 <= y.0 } }
pub open spec fn sorted<const N: u128>(s: Seq<Option<BV<N>>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> ole(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn squeezed<T>(s: Seq<T>) -> Seq<T> decreases s.len() { if s.len() == 0 { s } else { let p = squeezed(s.drop_last()); if p.len() > 0 && p.last() == s.last() { p } else { p.push(s.last()) } } }
pub trait VSort { spec fn in_order(x: Seq<Self>) -> bool where Self: Sized; }
impl<const N: u128> VSort for Option<BV<N>> { open spec fn in_order(x: Seq<Self>) -> bool { sorted(x) } }
pub trait VSortable { spec fn was_sorted(old: &Self, new: &Self) -> bool; spec fn was_squeezed(old: &Self, new: &Self) -> bool; fn vsort(&mut self) ensures Self::was_sorted(old(self), final(self)); fn vdedup(&mut self) ensures Self::was_squeezed(old(self), final(self)); }
impl<T: VSort> VSortable for Vec<T> {
    open spec fn was_sorted(old: &Self, new: &Self) -> bool { T::in_order(new@) && new@.to_multiset() == old@.to_multiset() }
    open spec fn was_squeezed(old: &Self, new: &Self) -> bool { new@ == squeezed(old@) }
    #[verifier::external_body] fn vsort(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vdedup(&mut self) { unimplemented!() }
}
pub proof fn lemma_squeezed<const N: u128>(s: Seq<Option<BV<N>>>)
    requires sorted(s),
    ensures squeezed(s).no_duplicates(), forall|x: Option<BV<N>>| squeezed(s).contains(x) <==> #[trigger] s.contains(x), s.len() > 0 ==> squeezed(s).len() > 0 && squeezed(s).last() == s.last(),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_squeezed(d);
        let p = squeezed(d);
        let l = s.last();
        assert forall|x: Option<BV<N>>| s.contains(x) <==> (#[trigger] d.contains(x) || x == l) by {
            if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < d.len() { assert(d[i] == x); } }
            if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); }
            assert(s[s.len() - 1] == l);
        }
        if !(p.len() > 0 && p.last() == l) {
            if p.contains(l) {
                assert(d.contains(l));
                let i = choose|i: int| 0 <= i < d.len() && d[i] == l;
                assert(s[i] == l && s[d.len() - 1] == d.last());
                if i < d.len() - 1 { assert(ole(s[i], s[d.len() - 1])); }
                assert(ole(s[d.len() - 1], s[s.len() - 1]));
                assert(d.last() == l);
            }
            let q = p.push(l);
            assert forall|x: Option<BV<N>>| q.contains(x) <==> (#[trigger] p.contains(x) || x == l) by {
                if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; if i < p.len() { assert(p[i] == x); } }
                if p.contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(q[i] == x); }
                assert(q[p.len() as int] == l);
            }
            assert forall|x: Option<BV<N>>| squeezed(s).contains(x) <==> #[trigger] s.contains(x) by { assert(p.contains(x) <==> d.contains(x)); assert(q.contains(x) <==> (p.contains(x) || x == l)); }
            assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { if i == p.len() { assert(p.contains(q[j])); } else if j == p.len() { assert(p.contains(q[i])); } }
        } else {
            assert(p.contains(l)) by { assert(p[p.len() - 1] == l); }
            assert forall|x: Option<BV<N>>| squeezed(s).contains(x) <==> #[trigger] s.contains(x) by { assert(p.contains(x) <==> d.contains(x)); }
        }
    }
}
/// the domain's corner cases: zero, one, minus one, and the two signed extremes with their inner neighbours
pub open spec fn corner<const N: u128>(x: BV<N>) -> bool {
    let m = p2((N - 1) as nat) as int;
    x == mk::<N>(0) || x == mk::<N>(1) || x == mk::<N>(-1) || x == mk::<N>(m) || x == mk::<N>(m + 1) || x == mk::<N>(m - 1) || x == mk::<N>(m - 2)
}
/// the values of one round of the enumeration
pub open spec fn nearby<const N: u128>(x: BV<N>, j: int) -> bool { let m = p2((N - 1) as nat) as int; x == mk::<N>(m + j) || x == mk::<N>(m - 1 - j) || x == mk::<N>(j) || x == mk::<N>(-j) }
pub open spec fn some_nearby<const N: u128>(x: Option<BV<N>>, n: int) -> bool { x matches Some(b) && exists|j: int| 0 <= j < n && #[trigger] nearby(b, j) }
pub open spec fn exactly_nearby<const N: u128>(s: Seq<Option<BV<N>>>, n: int) -> bool { forall|x: Option<BV<N>>| #[trigger] s.contains(x) <==> some_nearby(x, n) }
pub proof fn lemma_round<const N: u128>(s: Seq<Option<BV<N>>>, n: int, t: Seq<Option<BV<N>>>, a: BV<N>, b: BV<N>, c: BV<N>, d: BV<N>)
    requires exactly_nearby(s, n), n >= 0, t == s.push(Some(a)).push(Some(b)).push(Some(c)).push(Some(d)), forall|x: BV<N>| #[trigger] nearby(x, n) <==> (x == a || x == b || x == c || x == d),
    ensures exactly_nearby(t, n + 1),
{
    assert forall|x: Option<BV<N>>| #[trigger] t.contains(x) <==> some_nearby(x, n + 1) by {
        if t.contains(x) {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == x;
            if i < s.len() { assert(s[i] == x); assert(s.contains(x)); } else { assert(nearby(x->Some_0, n)); }
        }
        if some_nearby(x, n + 1) {
            let j = choose|j: int| 0 <= j < n + 1 && #[trigger] nearby(x->Some_0, j);
            if j < n { assert(some_nearby(x, n)); assert(s.contains(x)); let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[i] == x); }
            else { let k = s.len() as int; assert(t[k] == Some(a) && t[k + 1] == Some(b) && t[k + 2] == Some(c) && t[k + 3] == Some(d)); }
        }
    }
}
pub broadcast proof fn lemma_corners<const N: u128>(s: Seq<Option<BV<N>>>, u: Seq<Option<BV<N>>>, n: int)
    requires #[trigger] exactly_nearby(s, n), n == 2, #[trigger] sorted(u), u.to_multiset() == s.to_multiset(),
    ensures corners(squeezed(u)), squeezed(u).len() <= u.len(), u.len() == s.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    lemma_squeezed(u);
    lemma_squeezed_len(u);
    assert(u.to_multiset().len() == u.len() && s.to_multiset().len() == s.len());
    assert forall|x: Option<BV<N>>| #[trigger] squeezed(u).contains(x) <==> (x matches Some(b) && corner(b)) by {
        assert(u.to_multiset().count(x) > 0 <==> u.contains(x)); assert(s.to_multiset().count(x) > 0 <==> s.contains(x));
        if x is Some { let b = x->Some_0; assert(corner(b) <==> nearby(b, 0) || nearby(b, 1)); if some_nearby(x, 2) { let j = choose|j: int| 0 <= j < 2 && #[trigger] nearby(b, j); } }
    }
}
pub proof fn lemma_squeezed_len<T>(s: Seq<T>) ensures squeezed(s).len() <= s.len(), decreases s.len() { if s.len() > 0 { lemma_squeezed_len(s.drop_last()); } }
pub broadcast proof fn lemma_pw_base(a: nat, b: nat, e: nat) requires a <= b, ensures #[trigger] pw(a, e) <= #[trigger] pw(b, e), decreases e { if e > 0 { lemma_pw_base(a, b, (e - 1) as nat); assert(a * pw(a, (e - 1) as nat) <= b * pw(b, (e - 1) as nat)) by (nonlinear_arith) requires a <= b, pw(a, (e - 1) as nat) <= pw(b, (e - 1) as nat); } }
pub proof fn lemma_small<const N: u128>(v: int) requires ok_width(N), 0 <= v < 2, ensures v % (p2(N as nat) as int) == v { lemma_p2_pos((N - 1) as nat); vstd::arithmetic::div_mod::lemma_small_mod(v as nat, p2(N as nat)); }
/// a value by its residue
pub proof fn lemma_mk<const N: u128>(x: BV<N>, v: int)
    requires ok_width(N), x.0 as int == v % (p2(N as nat) as int),
    ensures x == mk::<N>(v),
{ lemma_p2_128(); lemma_p2_mono(N as nat, 128); lemma_p2_pos(N as nat); }
/// each corner case once, in increasing order
pub open spec fn corners<const N: u128>(s: Seq<Option<BV<N>>>) -> bool { s.no_duplicates() && forall|x: Option<BV<N>>| #[trigger] s.contains(x) <==> (x matches Some(b) && corner(b)) }
/// the first n variables added, each with its vector
pub open spec fn set_up<const N: u128>(g: Inner<N>, vars: Seq<String>, vals: Seq<Option<BV<N>>>, n: nat) -> Inner<N> decreases n {
    if n == 0 { g } else {
        let h = set_up(g, vars, vals, (n - 1) as nat);
        let v = Bv::Var(sym_of(vars[n - 1]@));
        let k = i_add(h, v);
        i_with(k, i_id(h, v), EClass { data: Signature { cvec: mkvec(column(vals, vars.len(), (n - 1) as nat)) } })
    }
}
} // mod bi
use bi::*;
@fn Bv::SynthLanguage::initialize_vars
@props C03
@flags ops=trait index=trait impl=impl<const~N:~u128>~Bv<N>
@sig pub fn initialize_vars(egraph: &mut EGraph<N>, vars: &Vec<String>) | fn initialize_vars (egraph : & mut EGraph < Self , SynthAnalysis > , vars : & [String])
@spec
    requires ok_width(N), vars@.len() <= u32::MAX, pw(8, vars@.len()) <= usize::MAX,
    ensures exists|vals: Seq<Option<BV<N>>>| #[trigger] corners(vals) && final(egraph).inner == set_up(old(egraph).inner, vars@, vals, vars@.len())
        && final(egraph).analysis.cvec_len == (if vars@.len() == 0 { 1 } else { pw(vals.len(), vars@.len()) }),
@entry
    broadcast use {ax_mkvec_of, lemma_corners, lemma_pw_base};
    proof { lemma_p2_pos((N - 1) as nat); lemma_small::<N>(0); lemma_small::<N>(1); }
    let ghost vx_g0 = egraph.inner;
    let ghost mut vx_s: Seq<Option<BV<N>>> = Seq::empty();
@loop 0
    exactly_nearby(consts@, $i as int)
    consts@.len() == 4 * $i
@body 0
    let ghost vx_c = consts@;
    let ghost vx_j = $i as int;
@tail 0
    proof {
        let k = vx_c.len() as int;
        let m = p2((N - 1) as nat) as int;
        let (a, b, c, d) = (consts@[k]->Some_0, consts@[k + 1]->Some_0, consts@[k + 2]->Some_0, consts@[k + 3]->Some_0);
        lemma_mk(a, m + vx_j); lemma_mk(b, m - 1 - vx_j); lemma_mk(c, vx_j); lemma_mk(d, -vx_j);
        assert(consts@ =~= vx_c.push(Some(a)).push(Some(b)).push(Some(c)).push(Some(d)));
        lemma_round(vx_c, vx_j, consts@, a, b, c, d);
    }
@after 0
    proof { vx_s = consts@; }
@before 1
    let ghost vx_vals = consts@;
    proof {
        assert(exactly_nearby(vx_s, 2));
        assert(corners(vx_vals));
        assert(egraph.analysis.cvec_len == (if vars@.len() == 0 { 1 } else { pw(vx_vals.len(), vars@.len()) }));
    }
@loop 1
    $s == vars@
    egraph.inner == set_up(vx_g0, vars@, vx_vals, $i)
    egraph.analysis.cvec_len == (if vars@.len() == 0 { 1 } else { pw(vx_vals.len(), vars@.len()) })
    corners(vx_vals)
@after 1
    proof { assert(corners(vx_vals)); assert(egraph.inner == set_up(vx_g0, vars@, vx_vals, vars@.len())); }
@end
