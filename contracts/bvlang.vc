@retype BV BV<N>
@retype Bv Bv<N>
@retype Interval Interval<BV<N>>
@macro impl_bv N
@stub Interval::new
@include bv.vc
@raw
#[derive(Clone, Copy)] pub struct Id(pub u32);
#[derive(Clone, Copy)] pub struct Symbol(pub u32);
@lang Bv <const N: u128>
@raw
// ======== the bit-vector domain is a lawful language (C21, C25, C27) ========
pub struct EGraph { pub x: u8 }
pub struct Interval<T> { pub low: Option<T>, pub high: Option<T> }
impl<const N: u128> Interval<BV<N>> {
    // both are under contract in the rules unit, for every kind of constant
    pub fn new(low: Option<BV<N>>, high: Option<BV<N>>) -> (r: Self)
        requires low matches Some(a) ==> high matches Some(b) ==> a.0 <= b.0,
        ensures r.low == low, r.high == high,
    { Interval { low, high } }
}
impl<const N: u128> VNew for Interval<BV<N>> { open spec fn is_new(r: Self) -> bool { r.low is None && r.high is None } fn vnew() -> (r: Self) { Interval { low: None, high: None } } }
pub open spec fn bv_var<const N: u128>(e: Bv<N>) -> Option<Symbol> { match e { Bv::Var(s) => Some(s), _ => None } }
@fn Bv::SynthLanguage::to_var
@props C21 C22 C27
@flags impl=impl<const~N:~u128>~Bv<N>
@sig pub fn to_var(&self) -> (r: Option<Symbol>) | fn to_var (& self) -> Option < Symbol >
@spec
    ensures r == bv_var(*self),
@fn Bv::SynthLanguage::mk_var
@props C21 C22
@flags impl=impl<const~N:~u128>~Bv<N>
@sig pub fn mk_var(sym: Symbol) -> (r: Self) | fn mk_var (sym : Symbol) -> Self
@spec
    ensures r == Bv::<N>::Var(sym),
@fn Bv::SynthLanguage::is_constant
@props C25 C27
@flags impl=impl<const~N:~u128>~Bv<N>
@sig pub fn is_constant(&self) -> (r: bool) | fn is_constant (& self) -> bool
@spec
    ensures r == (*self is Lit),
@fn Bv::SynthLanguage::mk_constant
@props C27
@flags impl=impl<const~N:~u128>~Bv<N>
@sig pub fn mk_constant(c: BV<N>, _egraph: &mut EGraph) -> (r: Self) | fn mk_constant (c : Self :: Constant , _egraph : & mut EGraph < Self , SynthAnalysis >) -> Self
@spec
    ensures r == Bv::<N>::Lit(c), *final(_egraph) == *old(_egraph),
@fn Bv::SynthLanguage::mk_interval
@props C27
@flags impl=impl<const~N:~u128>~Bv<N>
@sig pub fn mk_interval<'a, F: Fn(&'a Id) -> &'a Interval<BV<N>>>(&'a self, get_interval: F) -> (r: Interval<BV<N>>) | fn mk_interval < 'a , F > (& 'a self , mut get_interval : F) -> Interval < Self :: Constant > where F : FnMut (& 'a Id) -> & 'a Interval < Self :: Constant > ,
@spec
    requires forall|i: &'a Id| call_requires(get_interval, (i,)),
    ensures r.low == r.high, r.low == (match *self { Bv::Lit(c) => Some(c), _ => None }),
@end
