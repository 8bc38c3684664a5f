@retype BV BV<N>
@retype Bv Bv<N>
@macro impl_bv N
@include bv.vc
@raw
// ======== evaluation (C02) ========
#[derive(Clone, Copy)] pub struct Id(pub u32);
#[derive(Clone, Copy)] pub struct Symbol(pub u32);
@lang Bv <const N: u128>
@raw
pub type Cv<const N: u128> = Seq<Option<BV<N>>>;
pub open spec fn mk<const N: u128>(x: int) -> BV<N> { BV((x % (p2(N as nat) as int)) as u128) }
/// the operator a symbol names, on two in-range values
pub open spec fn sem2<const N: u128>(s: Seq<char>, a: BV<N>, b: BV<N>) -> BV<N> {
    if s == "+"@ { mk(a.0 + b.0) }
    else if s == "--"@ { mk(a.0 - b.0) }
    else if s == "*"@ { mk(a.0 * b.0) }
    else if s == "<<"@ { mk(a.0 * p2(b.0 as nat)) }
    else if s == ">>"@ { BV((a.0 as nat / p2(b.0 as nat)) as u128) }
    else if s == "&"@ { BV(a.0 & b.0) }
    else if s == "|"@ { BV(a.0 | b.0) }
    else { BV(a.0 ^ b.0) }
}
pub open spec fn sem1<const N: u128>(s: Seq<char>, a: BV<N>) -> BV<N> {
    if s == "-"@ { mk(-(a.0 as int)) } else { BV((p2(N as nat) - 1 - a.0) as u128) }
}
pub open spec fn at<const N: u128>(s: Cv<N>, k: int) -> Option<BV<N>> { s[k] }
pub open spec fn pt1<const N: u128>(s: Seq<char>, x: Cv<N>) -> Cv<N> {
    Seq::new(x.len(), |k: int| match at(x, k) { Some(a) => Some(sem1(s, a)), None => None })
}
pub open spec fn pt2<const N: u128>(s: Seq<char>, x: Cv<N>, y: Cv<N>) -> Cv<N> {
    Seq::new(if x.len() < y.len() { x.len() } else { y.len() }, |k: int| match (at(x, k), at(y, k)) { (Some(a), Some(b)) => Some(sem2(s, a, b)), _ => None })
}
/// pointwise, undefined exactly where a child is undefined
pub open spec fn evaluated<const N: u128>(e: Bv<N>, n: usize, cv: spec_fn(Id) -> Cv<N>) -> Cv<N> {
    let s = bv_symbol(e);
    match e {
        Bv::Neg(a) => pt1(s, cv(a)),
        Bv::Not(a) => pt1(s, cv(a)),
        Bv::Add(v) => pt2(s, cv(v.0), cv(v.1)),
        Bv::Sub(v) => pt2(s, cv(v.0), cv(v.1)),
        Bv::Mul(v) => pt2(s, cv(v.0), cv(v.1)),
        Bv::Shl(v) => pt2(s, cv(v.0), cv(v.1)),
        Bv::Shr(v) => pt2(s, cv(v.0), cv(v.1)),
        Bv::And(v) => pt2(s, cv(v.0), cv(v.1)),
        Bv::Or(v) => pt2(s, cv(v.0), cv(v.1)),
        Bv::Xor(v) => pt2(s, cv(v.0), cv(v.1)),
        Bv::Lit(c) => Seq::new(n as nat, |k: int| Some(c)),
        Bv::Var(_) => Seq::empty(),
    }
}
pub open spec fn all_can<const N: u128>(x: Cv<N>) -> bool { forall|k: int| 0 <= k < x.len() ==> ((#[trigger] x[k]) matches Some(b) ==> can(b)) }
/// the operator texts are the documented ones, so `sem1` and `sem2` read them as the variant's operation
proof fn lemma_symbols<const N: u128>(e: Bv<N>)
    ensures
        e is Neg ==> forall|a: BV<N>| #[trigger] sem1(bv_symbol(e), a) == mk::<N>(-(a.0 as int)),
        e is Not ==> forall|a: BV<N>| #[trigger] sem1(bv_symbol(e), a) == BV::<N>((p2(N as nat) - 1 - a.0) as u128),
        e is Add ==> forall|a: BV<N>, b: BV<N>| #[trigger] sem2(bv_symbol(e), a, b) == mk::<N>(a.0 + b.0),
        e is Sub ==> forall|a: BV<N>, b: BV<N>| #[trigger] sem2(bv_symbol(e), a, b) == mk::<N>(a.0 - b.0),
        e is Mul ==> forall|a: BV<N>, b: BV<N>| #[trigger] sem2(bv_symbol(e), a, b) == mk::<N>(a.0 * b.0),
        e is Shl ==> forall|a: BV<N>, b: BV<N>| #[trigger] sem2(bv_symbol(e), a, b) == mk::<N>(a.0 * p2(b.0 as nat)),
        e is Shr ==> forall|a: BV<N>, b: BV<N>| #[trigger] sem2(bv_symbol(e), a, b) == BV::<N>((a.0 as nat / p2(b.0 as nat)) as u128),
        e is And ==> forall|a: BV<N>, b: BV<N>| #[trigger] sem2(bv_symbol(e), a, b) == BV::<N>(a.0 & b.0),
        e is Or ==> forall|a: BV<N>, b: BV<N>| #[trigger] sem2(bv_symbol(e), a, b) == BV::<N>(a.0 | b.0),
        e is Xor ==> forall|a: BV<N>, b: BV<N>| #[trigger] sem2(bv_symbol(e), a, b) == BV::<N>(a.0 ^ b.0),
{
    reveal_strlit("+"); reveal_strlit("--"); reveal_strlit("*"); reveal_strlit("-"); reveal_strlit("~"); reveal_strlit("<<"); reveal_strlit(">>"); reveal_strlit("&"); reveal_strlit("|"); reveal_strlit("^");
    assert("--"@[0] == '-'); assert("<<"@[0] == '<'); assert(">>"@[0] == '>');
    assert("+"@[0] == '+'); assert("*"@[0] == '*'); assert("-"@[0] == '-'); assert("~"@[0] == '~'); assert("&"@[0] == '&'); assert("|"@[0] == '|'); assert("^"@[0] == '^');
}
@fn Bv::SynthLanguage::eval
@props C02
@flags ops=trait impl=impl<const~N:~u128>~Bv<N>
@sig pub fn eval<'a, F: Fn(&'a Id) -> &'a Vec<Option<BV<N>>>>(&'a self, cvec_len: usize, get_cvec: F, Ghost(cv): Ghost<spec_fn(Id) -> Cv<N>>) -> (r: Vec<Option<BV<N>>>) | fn eval < 'a , F > (& 'a self , cvec_len : usize , mut get_cvec : F) -> CVec < Self > where F : FnMut (& 'a Id) -> & 'a CVec < Self > ,
@spec
    requires ok_width(N),
        forall|i: &'a Id| call_requires(get_cvec, (i,)),
        forall|i: &'a Id, v: &'a Vec<Option<BV<N>>>| call_ensures(get_cvec, (i,), v) ==> v@ == cv(*i),
        forall|i: Id| all_can(#[trigger] cv(i)),
    ensures r@ =~= evaluated(*self, cvec_len, cv),
@entry
  proof { lemma_symbols(*self); }
@ty * Vec<Option<BV<N>>>
@loop *
  $i <= evaluated(*self, cvec_len, cv).len()
  $acc@ =~= evaluated(*self, cvec_len, cv).take($i as int)
@end
