@include bveval.vc
@stub not concat extract bvadd bvsub bvmul bvshl bvlshr bvand bvor bvxor bvnot bvneg _eq vassert check set_timeout_msec instantiate new_const from_u64 Z3Config::new Z3Context::new Z3Solver::new vto_string as_ref
@type ValidationResult
@raw
// ======== the bitvector validator (C26) ========
pub uninterp spec fn sym_text(s: Symbol) -> Seq<char>;
impl VToString for Symbol { open spec fn shown(&self) -> Seq<char> { sym_text(*self) } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
impl VInto<usize> for Id { open spec fn into_req(x: Self) -> bool { true } open spec fn into_ok(x: Self, r: usize) -> bool { r == x.0 as usize } #[verifier::external_body] fn vinto(self) -> (r: usize) { unimplemented!() } }
// ---- z3: formulas denote functions of the values given to the constants, a verdict is about all of them ----
pub type Zenv = spec_fn(Seq<char>, nat) -> nat;
pub open spec fn z_in(z: Zenv) -> bool { forall|s: Seq<char>, w: nat| #[trigger] z(s, w) < p2(w) }
#[verifier::external_body] pub struct Z3BV { x: u8 }
#[verifier::external_body] pub struct Z3Bool { x: u8 }
#[verifier::external_body] pub struct Z3Config { x: u8 }
#[verifier::external_body] pub struct Z3Context { x: u8 }
#[verifier::external_body] pub struct Z3Solver { x: u8 }
pub enum SatResult { Unsat, Unknown, Sat }
pub uninterp spec fn zw(b: Z3BV) -> nat;
pub uninterp spec fn zv(b: Z3BV, z: Zenv) -> nat;
pub uninterp spec fn zb(b: Z3Bool, z: Zenv) -> bool;
pub uninterp spec fn zs(s: Z3Solver) -> Seq<Z3Bool>;
pub open spec fn holds(s: Z3Solver, z: Zenv) -> bool { forall|i: int| 0 <= i < zs(s).len() ==> zb(#[trigger] zs(s)[i], z) }
impl Z3Config {
    #[verifier::external_body] pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn set_timeout_msec(&mut self, n: u64) { unimplemented!() }
}
impl Z3Context { #[verifier::external_body] pub fn new(c: &Z3Config) -> Self { unimplemented!() } }
impl Z3BV {
    #[verifier::external_body] pub fn new_const(c: &Z3Context, s: String, w: u128) -> (r: Self) ensures zw(r) == w, forall|z: Zenv| #[trigger] zv(r, z) == z(s@, w as nat) { unimplemented!() }
    #[verifier::external_body] pub fn from_u64(c: &Z3Context, v: u64, w: u128) -> (r: Self) ensures zw(r) == w, forall|z: Zenv| #[trigger] zv(r, z) == v as nat % p2(w as nat) { unimplemented!() }
    #[verifier::external_body] pub fn concat(&self, o: &Self) -> (r: Self) ensures zw(r) == zw(*self) + zw(*o), forall|z: Zenv| #[trigger] zv(r, z) == zv(*self, z) * p2(zw(*o)) + zv(*o, z) { unimplemented!() }
    #[verifier::external_body] pub fn extract(&self, hi: u128, lo: u128) -> (r: Self) requires lo <= hi < zw(*self) ensures zw(r) == hi - lo + 1, forall|z: Zenv| #[trigger] zv(r, z) == (zv(*self, z) / p2(lo as nat)) % p2((hi - lo + 1) as nat) { unimplemented!() }
    #[verifier::external_body] pub fn bvadd(&self, o: &Self) -> (r: Self) requires zw(*self) == zw(*o) ensures zw(r) == zw(*self), forall|z: Zenv| #[trigger] zv(r, z) == (zv(*self, z) + zv(*o, z)) % p2(zw(*self)) { unimplemented!() }
    #[verifier::external_body] pub fn bvsub(&self, o: &Self) -> (r: Self) requires zw(*self) == zw(*o) ensures zw(r) == zw(*self), forall|z: Zenv| #[trigger] zv(r, z) == (zv(*self, z) - zv(*o, z)) % (p2(zw(*self)) as int) { unimplemented!() }
    #[verifier::external_body] pub fn bvmul(&self, o: &Self) -> (r: Self) requires zw(*self) == zw(*o) ensures zw(r) == zw(*self), forall|z: Zenv| #[trigger] zv(r, z) == (zv(*self, z) * zv(*o, z)) % p2(zw(*self)) { unimplemented!() }
    #[verifier::external_body] pub fn bvshl(&self, o: &Self) -> (r: Self) requires zw(*self) == zw(*o) ensures zw(r) == zw(*self), forall|z: Zenv| #[trigger] zv(r, z) == (zv(*self, z) * p2(zv(*o, z))) % p2(zw(*self)) { unimplemented!() }
    #[verifier::external_body] pub fn bvlshr(&self, o: &Self) -> (r: Self) requires zw(*self) == zw(*o) ensures zw(r) == zw(*self), forall|z: Zenv| #[trigger] zv(r, z) == zv(*self, z) / p2(zv(*o, z)) { unimplemented!() }
    // bit by bit (stated for the widths a 128-bit word holds)
    #[verifier::external_body] pub fn bvand(&self, o: &Self) -> (r: Self) requires zw(*self) == zw(*o) <= 128 ensures zw(r) == zw(*self), forall|z: Zenv| #[trigger] zv(r, z) == (zv(*self, z) as u128 & zv(*o, z) as u128) { unimplemented!() }
    #[verifier::external_body] pub fn bvor(&self, o: &Self) -> (r: Self) requires zw(*self) == zw(*o) <= 128 ensures zw(r) == zw(*self), forall|z: Zenv| #[trigger] zv(r, z) == (zv(*self, z) as u128 | zv(*o, z) as u128) { unimplemented!() }
    #[verifier::external_body] pub fn bvxor(&self, o: &Self) -> (r: Self) requires zw(*self) == zw(*o) <= 128 ensures zw(r) == zw(*self), forall|z: Zenv| #[trigger] zv(r, z) == (zv(*self, z) as u128 ^ zv(*o, z) as u128) { unimplemented!() }
    #[verifier::external_body] pub fn bvnot(&self) -> (r: Self) ensures zw(r) == zw(*self), forall|z: Zenv| #[trigger] zv(r, z) == p2(zw(*self)) - 1 - zv(*self, z) { unimplemented!() }
    #[verifier::external_body] pub fn bvneg(&self) -> (r: Self) ensures zw(r) == zw(*self), forall|z: Zenv| #[trigger] zv(r, z) == -(zv(*self, z) as int) % (p2(zw(*self)) as int) { unimplemented!() }
    // the shifts z3 also has: arithmetic right shift, rotations and signed operations are not used by the code
    #[verifier::external_body] pub fn _eq(&self, o: &Self) -> (r: Z3Bool) requires zw(*self) == zw(*o) ensures forall|z: Zenv| #[trigger] zb(r, z) == (zv(*self, z) == zv(*o, z)) { unimplemented!() }
}
impl Z3Bool { #[verifier::external_body] pub fn not(&self) -> (r: Z3Bool) ensures forall|z: Zenv| #[trigger] zb(r, z) == !zb(*self, z) { unimplemented!() } }
impl Z3Solver {
    #[verifier::external_body] pub fn new(c: &Z3Context) -> (r: Self) ensures zs(r).len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn vassert(&mut self, b: &Z3Bool) ensures zs(*final(self)) == zs(*old(self)).push(*b) { unimplemented!() }
    #[verifier::external_body] pub fn check(&self) -> (r: SatResult) ensures r is Sat ==> exists|z: Zenv| z_in(z) && #[trigger] holds(*self, z), r is Unsat ==> forall|z: Zenv| z_in(z) ==> !#[trigger] holds(*self, z) { unimplemented!() }
}
// ---- terms and patterns ----
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Pattern<T> { x: core::marker::PhantomData<T> }
pub struct RecExpr<T> { pub nodes: Vec<T> }
impl<T> RecExpr<T> { pub fn vas_ref(&self) -> (r: &Vec<T>) ensures *r == self.nodes { &self.nodes } }
/// a pattern as a term over variables of the same names (C21)
pub uninterp spec fn instantiated<const N: u128>(p: Pattern<Bv<N>>) -> Seq<Bv<N>>;
/// children come first
pub open spec fn kid_ok<const N: u128>(e: Bv<N>, i: int) -> bool {
    match e {
        Bv::Neg(a) => a.0 < i, Bv::Not(a) => a.0 < i,
        Bv::Add(v) => v.0.0 < i && v.1.0 < i, Bv::Sub(v) => v.0.0 < i && v.1.0 < i, Bv::Mul(v) => v.0.0 < i && v.1.0 < i,
        Bv::Shl(v) => v.0.0 < i && v.1.0 < i, Bv::Shr(v) => v.0.0 < i && v.1.0 < i,
        Bv::And(v) => v.0.0 < i && v.1.0 < i, Bv::Or(v) => v.0.0 < i && v.1.0 < i, Bv::Xor(v) => v.0.0 < i && v.1.0 < i,
        Bv::Lit(c) => can(c), Bv::Var(_) => true,
    }
}
pub open spec fn term_ok<const N: u128>(e: Seq<Bv<N>>) -> bool { e.len() > 0 && forall|i: int| 0 <= i < e.len() ==> kid_ok(#[trigger] e[i], i) }
impl<const N: u128> Bv<N> {
    // the nodes of a pattern are in order, and literals are in range (C01)
    #[verifier::external_body] pub fn instantiate(p: &Pattern<Bv<N>>) -> (r: RecExpr<Bv<N>>) ensures r.nodes@ == instantiated(*p), term_ok(r.nodes@) { unimplemented!() }
}
/// values given to variables, by name
pub type Env<const N: u128> = spec_fn(Seq<char>) -> BV<N>;
pub open spec fn env_ok<const N: u128>(env: Env<N>) -> bool { forall|s: Seq<char>| can(#[trigger] env(s)) }
/// the value of node i: the meaning of its operator text on the values of its children, as in evaluation (C02)
pub open spec fn val<const N: u128>(e: Seq<Bv<N>>, i: int, env: Env<N>) -> BV<N> decreases i {
    let s = bv_symbol(e[i]);
    match e[i] {
        Bv::Neg(a) => if a.0 < i { sem1(s, val(e, a.0 as int, env)) } else { BV(0) },
        Bv::Not(a) => if a.0 < i { sem1(s, val(e, a.0 as int, env)) } else { BV(0) },
        Bv::Add(v) => if v.0.0 < i && v.1.0 < i { sem2(s, val(e, v.0.0 as int, env), val(e, v.1.0 as int, env)) } else { BV(0) },
        Bv::Sub(v) => if v.0.0 < i && v.1.0 < i { sem2(s, val(e, v.0.0 as int, env), val(e, v.1.0 as int, env)) } else { BV(0) },
        Bv::Mul(v) => if v.0.0 < i && v.1.0 < i { sem2(s, val(e, v.0.0 as int, env), val(e, v.1.0 as int, env)) } else { BV(0) },
        Bv::Shl(v) => if v.0.0 < i && v.1.0 < i { sem2(s, val(e, v.0.0 as int, env), val(e, v.1.0 as int, env)) } else { BV(0) },
        Bv::Shr(v) => if v.0.0 < i && v.1.0 < i { sem2(s, val(e, v.0.0 as int, env), val(e, v.1.0 as int, env)) } else { BV(0) },
        Bv::And(v) => if v.0.0 < i && v.1.0 < i { sem2(s, val(e, v.0.0 as int, env), val(e, v.1.0 as int, env)) } else { BV(0) },
        Bv::Or(v) => if v.0.0 < i && v.1.0 < i { sem2(s, val(e, v.0.0 as int, env), val(e, v.1.0 as int, env)) } else { BV(0) },
        Bv::Xor(v) => if v.0.0 < i && v.1.0 < i { sem2(s, val(e, v.0.0 as int, env), val(e, v.1.0 as int, env)) } else { BV(0) },
        Bv::Lit(c) => c,
        Bv::Var(x) => env(sym_text(x)),
    }
}
pub open spec fn value<const N: u128>(e: Seq<Bv<N>>, env: Env<N>) -> BV<N> { val(e, e.len() - 1, env) }
pub open spec fn env_of<const N: u128>(z: Zenv) -> Env<N> { |s: Seq<char>| BV(z(s, N as nat) as u128) }
pub open spec fn z_of<const N: u128>(env: Env<N>) -> Zenv { |s: Seq<char>, w: nat| if w == N { env(s).0 as nat } else { 0 } }
pub open spec fn agree<const N: u128>(l: Seq<Bv<N>>, r: Seq<Bv<N>>) -> bool { forall|env: Env<N>| env_ok(env) ==> value(l, env) == #[trigger] value(r, env) }
pub open spec fn differ<const N: u128>(l: Seq<Bv<N>>, r: Seq<Bv<N>>) -> bool { exists|env: Env<N>| env_ok(env) && value(l, env) != #[trigger] value(r, env) }
pub proof fn lemma_env<const N: u128>(z: Zenv)
    requires ok_width(N), z_in(z),
    ensures env_ok(env_of::<N>(z)), forall|s: Seq<char>| (#[trigger] env_of::<N>(z)(s)).0 == z(s, N as nat),
{
    lemma_p2_128(); lemma_p2_mono(N as nat, 128);
    assert forall|s: Seq<char>| can(#[trigger] env_of::<N>(z)(s)) && env_of::<N>(z)(s).0 == z(s, N as nat) by { assert(z(s, N as nat) < p2(N as nat)); }
}
pub proof fn lemma_back<const N: u128>(env: Env<N>)
    requires ok_width(N), env_ok(env),
    ensures z_in(z_of(env)), env_of::<N>(z_of(env)) == env,
{
    assert forall|s: Seq<char>, w: nat| #[trigger] z_of(env)(s, w) < p2(w) by { lemma_p2_pos(w); assert(can(env(s))); }
    assert forall|s: Seq<char>| #[trigger] env_of::<N>(z_of(env))(s) == env(s) by { assert(env_of::<N>(z_of(env))(s).0 == env(s).0); }
    assert(env_of::<N>(z_of(env)) =~= env);
}
pub broadcast proof fn lemma_mk<const N: u128>(x: int)
    requires ok_width(N),
    ensures (#[trigger] mk::<N>(x)).0 == x % (p2(N as nat) as int), can(mk::<N>(x)),
{ lemma_p2_128(); lemma_p2_mono(N as nat, 128); lemma_p2_pos(N as nat); }
pub proof fn lemma_lit<const N: u128>(c: BV<N>)
    requires ok_width(N), can(c),
    ensures
        ((((c.0 >> 64u128) as u64) as nat % p2(64)) * p2(64) + (c.0 as u64) as nat % p2(64)) == c.0 as nat,
        (c.0 as nat / p2(0)) % p2(N as nat) == c.0,
{
    let x = c.0;
    assert(p2(64) == 0x1_0000_0000_0000_0000) by (compute);
    assert(x == ((x >> 64u128) as u64) as u128 * 0x1_0000_0000_0000_0000 + (x as u64) as u128) by (bit_vector);
    vstd::arithmetic::div_mod::lemma_small_mod(((x >> 64u128) as u64) as nat, p2(64));
    vstd::arithmetic::div_mod::lemma_small_mod((x as u64) as nat, p2(64));
    assert(p2(0) == 1);
    assert(x as nat / 1 == x as nat);
    vstd::arithmetic::div_mod::lemma_small_mod(x as nat, p2(N as nat));
}
/// operations on values in range give values in range
pub proof fn lemma_sem2<const N: u128>(s: Seq<char>, a: BV<N>, b: BV<N>)
    requires ok_width(N), can(a), can(b),
    ensures can(sem2(s, a, b)),
{
    broadcast use lemma_mk;
    lemma_p2_128(); lemma_p2_mono(N as nat, 128);
    lemma_shr(a.0, b.0, N);
    lemma_bits(a.0, b.0, N);
}
pub proof fn lemma_sem1<const N: u128>(s: Seq<char>, a: BV<N>)
    requires ok_width(N), can(a),
    ensures can(sem1(s, a)),
{ broadcast use lemma_mk; lemma_p2_128(); lemma_p2_mono(N as nat, 128); }
pub proof fn lemma_val<const N: u128>(e: Seq<Bv<N>>, i: int, env: Env<N>)
    requires ok_width(N), term_ok(e), env_ok(env), 0 <= i < e.len(),
    ensures can(val(e, i, env)),
    decreases i,
{
    let s = bv_symbol(e[i]);
    assert(kid_ok(e[i], i));
    match e[i] {
        Bv::Neg(a) => { lemma_val(e, a.0 as int, env); lemma_sem1(s, val(e, a.0 as int, env)); },
        Bv::Not(a) => { lemma_val(e, a.0 as int, env); lemma_sem1(s, val(e, a.0 as int, env)); },
        Bv::Add(v) => { lemma_val(e, v.0.0 as int, env); lemma_val(e, v.1.0 as int, env); lemma_sem2(s, val(e, v.0.0 as int, env), val(e, v.1.0 as int, env)); },
        Bv::Sub(v) => { lemma_val(e, v.0.0 as int, env); lemma_val(e, v.1.0 as int, env); lemma_sem2(s, val(e, v.0.0 as int, env), val(e, v.1.0 as int, env)); },
        Bv::Mul(v) => { lemma_val(e, v.0.0 as int, env); lemma_val(e, v.1.0 as int, env); lemma_sem2(s, val(e, v.0.0 as int, env), val(e, v.1.0 as int, env)); },
        Bv::Shl(v) => { lemma_val(e, v.0.0 as int, env); lemma_val(e, v.1.0 as int, env); lemma_sem2(s, val(e, v.0.0 as int, env), val(e, v.1.0 as int, env)); },
        Bv::Shr(v) => { lemma_val(e, v.0.0 as int, env); lemma_val(e, v.1.0 as int, env); lemma_sem2(s, val(e, v.0.0 as int, env), val(e, v.1.0 as int, env)); },
        Bv::And(v) => { lemma_val(e, v.0.0 as int, env); lemma_val(e, v.1.0 as int, env); lemma_sem2(s, val(e, v.0.0 as int, env), val(e, v.1.0 as int, env)); },
        Bv::Or(v) => { lemma_val(e, v.0.0 as int, env); lemma_val(e, v.1.0 as int, env); lemma_sem2(s, val(e, v.0.0 as int, env), val(e, v.1.0 as int, env)); },
        Bv::Xor(v) => { lemma_val(e, v.0.0 as int, env); lemma_val(e, v.1.0 as int, env); lemma_sem2(s, val(e, v.0.0 as int, env), val(e, v.1.0 as int, env)); },
        Bv::Lit(c) => {},
        Bv::Var(x) => {},
    }
}
pub open spec fn samples<const N: u128>(e: Seq<Bv<N>>, i: Id, env: Env<N>, c: Cv<N>, k: int) -> bool { 0 <= k < c.len() && c[k] == Some(val(e, i.0 as int, env)) }
/// C26: the value of a term is what evaluation (C02) computes: a node whose children's sample vectors hold the children's values at k has its own value at k
pub proof fn theorem_eval_agrees<const N: u128>(e: Seq<Bv<N>>, i: int, env: Env<N>, n: usize, cv: spec_fn(Id) -> Cv<N>, k: int)
    requires term_ok(e), 0 <= i < e.len(), 0 <= k < n, !(e[i] is Var), forall|a: Id| a.0 < i ==> #[trigger] samples(e, a, env, cv(a), k),
    ensures k < evaluated(e[i], n, cv).len(), evaluated(e[i], n, cv)[k] == Some(val(e, i, env)),
{
    assert(kid_ok(e[i], i));
    match e[i] {
        Bv::Neg(a) => { assert(samples(e, a, env, cv(a), k)); },
        Bv::Not(a) => { assert(samples(e, a, env, cv(a), k)); },
        Bv::Add(v) => { assert(samples(e, v.0, env, cv(v.0), k) && samples(e, v.1, env, cv(v.1), k)); },
        Bv::Sub(v) => { assert(samples(e, v.0, env, cv(v.0), k) && samples(e, v.1, env, cv(v.1), k)); },
        Bv::Mul(v) => { assert(samples(e, v.0, env, cv(v.0), k) && samples(e, v.1, env, cv(v.1), k)); },
        Bv::Shl(v) => { assert(samples(e, v.0, env, cv(v.0), k) && samples(e, v.1, env, cv(v.1), k)); },
        Bv::Shr(v) => { assert(samples(e, v.0, env, cv(v.0), k) && samples(e, v.1, env, cv(v.1), k)); },
        Bv::And(v) => { assert(samples(e, v.0, env, cv(v.0), k) && samples(e, v.1, env, cv(v.1), k)); },
        Bv::Or(v) => { assert(samples(e, v.0, env, cv(v.0), k) && samples(e, v.1, env, cv(v.1), k)); },
        Bv::Xor(v) => { assert(samples(e, v.0, env, cv(v.0), k) && samples(e, v.1, env, cv(v.1), k)); },
        _ => {},
    }
}
#[verifier::opaque] pub open spec fn named(b: bool) -> bool { true }
/// every assignment of the domain is one of z3's
pub broadcast proof fn lemma_all<const N: u128>(s: Z3Solver, env: Env<N>)
    requires ok_width(N), #[trigger] env_ok(env), #[trigger] zs(s) == zs(s),
    ensures z_in(z_of(env)), env_of::<N>(z_of(env)) == env, named(holds(s, z_of(env))),
        holds(s, z_of(env)) && zs(s).len() > 0 ==> zb(zs(s)[0], z_of(env)) && zb(zs(s).last(), z_of(env)),
{ lemma_back(env); reveal(named); }
/// and every assignment of z3 gives one of the domain
pub broadcast proof fn lemma_found<const N: u128>(s: Z3Solver, z: Zenv, e: Seq<Bv<N>>)
    requires ok_width(N), z_in(z), #[trigger] holds(s, z), #[trigger] term_ok(e),
    ensures env_ok(env_of::<N>(z)), zs(s).len() > 0 ==> zb(zs(s)[0], z) && zb(zs(s).last(), z), named(value(e, env_of::<N>(z)) == value(e, env_of::<N>(z))),
{ lemma_env::<N>(z); reveal(named); }
@fn egg_to_z3
@props C26
@flags nogenerics
@sig fn egg_to_z3<const N: u128>(ctx: &Z3Context, expr: &Vec<Bv<N>>) -> (r: Z3BV) | fn egg_to_z3 < 'a > (ctx : & 'a Z3Context , expr : & [Bv]) -> Z3BV
@spec
    requires ok_width(N), term_ok(expr@),
    ensures zw(r) == N, forall|z: Zenv| z_in(z) ==> #[trigger] zv(r, z) == value(expr@, env_of::<N>(z)).0,
@loop 0
    $s == expr@
    $acc@.len() == $i
    forall|k: int| 0 <= k < $i ==> zw(#[trigger] $acc@[k]) == N
    forall|k: int, z: Zenv| 0 <= k < $i && z_in(z) ==> #[trigger] zv($acc@[k], z) == val(expr@, k, env_of::<N>(z)).0 && can(val(expr@, k, env_of::<N>(z)))
@body 0
    let ghost vx_old = $acc@;
    proof { assert(kid_ok(expr@[$i as int], $i as int)); lemma_symbols(expr@[$i as int]); }
@tail 0
    proof {
        let vx_k = ($i - 1) as int;
        lemma_p2_pos(N as nat); lemma_p2_128(); lemma_p2_mono(N as nat, 128);
        assert forall|z: Zenv| z_in(z) implies #[trigger] zv($acc@[vx_k], z) == val(expr@, vx_k, env_of::<N>(z)).0 && can(val(expr@, vx_k, env_of::<N>(z))) by {
            broadcast use lemma_mk;
            lemma_env::<N>(z);
            lemma_val(expr@, vx_k, env_of::<N>(z));
            let vx_z = env_of::<N>(z);
            match expr@[vx_k] {
                Bv::Lit(c) => { lemma_lit(c); },
                Bv::Shr(v) => { lemma_val(expr@, v.0.0 as int, vx_z); lemma_shr(val(expr@, v.0.0 as int, vx_z).0, val(expr@, v.1.0 as int, vx_z).0, N); },
                _ => {},
            }
        }
    }
@fn Bv::SynthLanguage::validate
@props C26
@flags impl=impl<const~N:~u128>~Bv<N>
@sig pub fn validate(lhs: &Pattern<Bv<N>>, rhs: &Pattern<Bv<N>>) -> (r: ValidationResult) | fn validate (lhs : & Pattern < Self > , rhs : & Pattern < Self > ,) -> ValidationResult
@spec
    requires ok_width(N),
    ensures
        r is Valid ==> agree(instantiated(*lhs), instantiated(*rhs)),
        r is Invalid ==> differ(instantiated(*lhs), instantiated(*rhs)),
@entry
    broadcast use {lemma_all, lemma_found};
@end
