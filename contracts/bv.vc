@stub vclone not bitand bitor bitxor from wrapping_add wrapping_sub wrapping_mul wrapping_neg parse strip_prefix gen
@include prelude.vc
@alias Inner
@type BV Copy PartialEq
@raw
// ======== bitvectors (C01) ========
use core::mem::size_of;
pub open spec fn p2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * p2((n - 1) as nat) } }
proof fn lemma_mask(n: u128)
    requires 1 <= n <= 128,
    ensures (u128::MAX >> (128 - n)) as nat == p2(n as nat) - 1,
    decreases n,
{
    if n == 1 { assert(u128::MAX >> 127u128 == 1u128) by (bit_vector); reveal_with_fuel(p2, 2); }
    else {
        lemma_mask((n - 1) as u128);
        assert((u128::MAX >> ((128 - n) as u128)) == 2 * (u128::MAX >> ((129 - n) as u128)) + 1) by (bit_vector) requires 2 <= n <= 128;
    }
}
proof fn lemma_and_mod(x: u128, n: u128)
    requires 1 <= n <= 128,
    ensures (x & (u128::MAX >> (128 - n))) as nat == x as nat % p2(n as nat),
    decreases n,
{
    if n == 1 {
        assert(x & (u128::MAX >> 127u128) == x % 2) by (bit_vector); reveal_with_fuel(p2, 2); 
    } else {
        let h = x / 2;
        lemma_and_mod(h, (n - 1) as u128);
        assert(x & (u128::MAX >> ((128 - n) as u128)) == 2 * ((x / 2) & (u128::MAX >> ((129 - n) as u128))) + x % 2) by (bit_vector) requires 2 <= n <= 128;
        let p = p2((n - 1) as nat);
        let q = h as nat / p; let m = h as nat % p;
        assert(p > 0) by { lemma_p2_pos((n-1) as nat); }
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(h as int, p as int);
        assert(h as nat == q * p + m) by (nonlinear_arith) requires h as int == p as int * (h as int / p as int) + (h as int % p as int), q == h as int / p as int, m == h as int % p as int;
        assert(x as nat == q * (2 * p) + (2 * m + x % 2)) by (nonlinear_arith) requires x == 2 * h + x % 2, h == q * p + m;
        assert(x as nat % (2 * p) == 2 * m + x % 2) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x as int, 2 * p as int, q as int, 2 * m + x % 2); }
    }
}
proof fn lemma_p2_pos(n: nat) ensures p2(n) > 0 decreases n { if n > 0 { lemma_p2_pos((n-1) as nat); } }

proof fn lemma_p2_add(a: nat, b: nat) ensures p2(a + b) == p2(a) * p2(b) decreases b {
    if b > 0 {
        lemma_p2_add(a, (b - 1) as nat);
        assert(p2(a) * (2 * p2((b - 1) as nat)) == 2 * (p2(a) * p2((b - 1) as nat))) by (nonlinear_arith);
        assert(p2(a + b) == 2 * p2((a + b - 1) as nat));
        assert((a + b - 1) as nat == a + (b - 1) as nat);
    } else { assert(p2(0) == 1); assert(p2(a) * 1 == p2(a)); }
}
proof fn lemma_p2_128() ensures p2(128) == u128::MAX + 1 {
    lemma_mask(128);
    assert(u128::MAX >> 0u128 == u128::MAX) by (bit_vector);
    lemma_p2_pos(128);
}
proof fn lemma_p2_mono(a: nat, b: nat) requires a <= b ensures p2(a) <= p2(b) decreases b { if a < b { lemma_p2_mono(a, (b - 1) as nat); } }
/// the residue modulo 2^128 has the same residue modulo 2^n
proof fn lemma_mod(x: int, n: u128)
    requires 1 <= n <= 128,
    ensures (x % (u128::MAX + 1)) % (p2(n as nat) as int) == x % (p2(n as nat) as int), 0 <= x % (u128::MAX + 1) <= u128::MAX,
{
    lemma_p2_128();
    lemma_p2_add(n as nat, (128 - n) as nat);
    lemma_p2_pos(n as nat);
    lemma_p2_pos((128 - n) as nat);
    let (m, k) = (p2(n as nat) as int, p2((128 - n) as nat) as int);
    vstd::arithmetic::div_mod::lemma_mod_mod(x, m, k);
}
proof fn lemma_all_ones(n: u128)
    requires 1 <= n <= 128,
    ensures (u128::MAX >> (128 - n)) as nat == p2(n as nat) - 1, p2(n as nat) > 0,
        p2((n - 1) as nat) > 0, p2(n as nat) == 2 * p2((n - 1) as nat), (1u128 << ((n - 1) as u128)) as nat == p2((n - 1) as nat), p2((n - 1) as nat) <= u128::MAX,
        ((u128::MAX >> ((128 - n) as u128)) >> 1) as nat == p2((n - 1) as nat) - 1,
        forall|x: u128| (#[trigger] (x & (u128::MAX >> ((128 - n) as u128)))) as nat == x as nat % p2(n as nat),
        forall|x: u128| #[trigger] (!x) == u128::MAX - x,
        forall|x: u128| (x as nat) < p2(n as nat) ==> (#[trigger] (x ^ (u128::MAX >> ((128 - n) as u128)))) as nat == p2(n as nat) - 1 - x,
        forall|x: u128| (x as nat) < p2(n as nat) ==> (#[trigger] ((u128::MAX >> ((128 - n) as u128)) ^ x)) as nat == p2(n as nat) - 1 - x,
{
    lemma_mask(n); lemma_p2_pos(n as nat); lemma_p2_pos((n - 1) as nat); lemma_one_shl((n - 1) as u128); lemma_half(n);
    assert forall|x: u128| (#[trigger] (x & (u128::MAX >> ((128 - n) as u128)))) as nat == x as nat % p2(n as nat) by { lemma_and_mod(x, n); }
    assert forall|x: u128| #[trigger] (!x) == u128::MAX - x by { assert(!x == sub(u128::MAX, x)) by (bit_vector); }
    assert forall|x: u128| (x as nat) < p2(n as nat) implies (#[trigger] (x ^ (u128::MAX >> ((128 - n) as u128)))) as nat == p2(n as nat) - 1 - x by {
        assert(x <= u128::MAX >> ((128 - n) as u128));
        assert(x ^ (u128::MAX >> ((128 - n) as u128)) == sub(u128::MAX >> ((128 - n) as u128), x)) by (bit_vector) requires x <= u128::MAX >> ((128 - n) as u128), 1 <= n <= 128;
    }
    assert forall|x: u128| (x as nat) < p2(n as nat) implies (#[trigger] ((u128::MAX >> ((128 - n) as u128)) ^ x)) as nat == p2(n as nat) - 1 - x by {
        assert(x <= u128::MAX >> ((128 - n) as u128));
        assert((u128::MAX >> ((128 - n) as u128)) ^ x == sub(u128::MAX >> ((128 - n) as u128), x)) by (bit_vector) requires x <= u128::MAX >> ((128 - n) as u128), 1 <= n <= 128;
    }
}
/// the products, differences and complements of two words, modulo the width
proof fn lemma_word(a: u128, b: u128, n: u128)
    requires 1 <= n <= 128,
    ensures
        (u128::MAX - b + 1) % (u128::MAX + 1) == (-b) % (u128::MAX + 1),
        ((-b) % (u128::MAX + 1)) % (p2(n as nat) as int) == (-b) % (p2(n as nat) as int),
        ((a + (-b) % (u128::MAX + 1)) % (u128::MAX + 1)) % (p2(n as nat) as int) == (a - b) % (p2(n as nat) as int),
        ((a - b) % (u128::MAX + 1)) % (p2(n as nat) as int) == (a - b) % (p2(n as nat) as int),
        ((a + b) % (u128::MAX + 1)) % (p2(n as nat) as int) == (a + b) % (p2(n as nat) as int),
        ((a * b) % (u128::MAX + 1)) % (p2(n as nat) as int) == (a * b) % (p2(n as nat) as int),
        a * b == b * a,
{
    lemma_p2_pos(n as nat);
    lemma_ring(a as int, b as int, u128::MAX + 1);
    lemma_mod(-(b as int), n); lemma_mod(a - b, n); lemma_mod(a + b, n); lemma_mod(a * b, n);
    assert(a * b == b * a) by (nonlinear_arith);
}
/// identities of modular arithmetic by which an operation may be written with another one
proof fn lemma_ring(a: int, b: int, p: int)
    requires p > 0,
    ensures
        (a + (-b) % p) % p == (a - b) % p,
        (a - (-b) % p) % p == (a + b) % p,
        (p - 1 - b + 1) % p == (-b) % p,
        ((p - 1 - b) % p + 1) % p == (-b) % p,
        (a + (p - 1 - b) + 1) % p == (a - b) % p,
        ((a + (p - 1 - b)) % p + 1) % p == (a - b) % p,
        (a + (p - b)) % p == (a - b) % p,
        (p - b) % p == (-b) % p,
        (a * (p - 1)) % p == (-a) % p,
        (p - 1 - ((p - 1 - a) + b) % p) % p == (a - b) % p,
{
    use vstd::arithmetic::div_mod::*;
    lemma_add_mod_noop_right(a, -b, p);
    lemma_sub_mod_noop_right(a, -b, p);
    lemma_mod_multiples_vanish(1, -b, p);
    assert(p * 1 + -b == p - b);
    lemma_add_mod_noop(p - 1 - b, 1, p); lemma_add_mod_noop_right(1, p - 1 - b, p);
    lemma_mod_multiples_vanish(1, a - b, p);
    assert(p * 1 + (a - b) == a + (p - 1 - b) + 1);
    lemma_add_mod_noop_right(1, a + (p - 1 - b), p);
    lemma_mod_multiples_vanish(a, -a, p);
    assert(p * a + -a == a * (p - 1)) by (nonlinear_arith);
    lemma_sub_mod_noop_right(p - 1, (p - 1 - a) + b, p);
    assert(p - 1 - ((p - 1 - a) + b) == a - b);
}
proof fn lemma_one_shl(k: u128) requires k < 128 ensures (1u128 << k) as nat == p2(k as nat) decreases k {
    if k == 0 { assert(1u128 << 0u128 == 1) by (bit_vector); }
    else {
        lemma_one_shl((k - 1) as u128);
        assert(1u128 << k == 2 * (1u128 << ((k - 1) as u128))) by (bit_vector) requires 1 <= k < 128;
    }
}
proof fn lemma_half(n: u128) requires 1 <= n <= 128 ensures ((u128::MAX >> ((128 - n) as u128)) >> 1) as nat == p2((n - 1) as nat) - 1, {
    lemma_mask(n);
    assert((u128::MAX >> ((128 - n) as u128)) >> 1 == (u128::MAX >> ((128 - n) as u128)) / 2) by (bit_vector);
    lemma_p2_pos((n - 1) as nat);
}
/// a shift within the machine width
proof fn lemma_shl1(x: u128, k: u128) requires k < 128 ensures (x << k) as int == (x * p2(k as nat)) % (u128::MAX + 1) decreases k {
    if k == 0 { assert(x << 0u128 == x) by (bit_vector); assert(p2(0) == 1); assert(x * 1 == x); vstd::arithmetic::div_mod::lemma_small_mod(x as nat, (u128::MAX + 1) as nat); }
    else {
        let j = (k - 1) as u128;
        lemma_shl1(x, j);
        let y = x << j;
        assert(x << k == y.wrapping_add(y)) by {
            assert(x << k == (x << ((k - 1) as u128)) << 1u128) by (bit_vector) requires 1 <= k < 128;
            lemma_dbl(y);
        }
        let m = u128::MAX + 1;
        let z = x * p2(j as nat);
        assert(y as int == z % m);
        assert(x * p2(k as nat) == z + z) by (nonlinear_arith) requires z == x * p2(j as nat), p2(k as nat) == 2 * p2(j as nat);
        vstd::arithmetic::div_mod::lemma_add_mod_noop(z, z, m);
    }
}
proof fn lemma_dbl(y: u128) ensures y << 1u128 == y.wrapping_add(y) {
    assert(y >= 0x8000_0000_0000_0000_0000_0000_0000_0000 ==> y << 1u128 == 2 * (y - 0x8000_0000_0000_0000_0000_0000_0000_0000)) by (bit_vector);
    assert(y < 0x8000_0000_0000_0000_0000_0000_0000_0000 ==> y << 1u128 == 2 * y) by (bit_vector);
}
proof fn lemma_shl(x: u128, k: u128, n: u128)
    requires 1 <= n <= 128,
    ensures k < n ==> (x << k) as nat % p2(n as nat) == (x as nat * p2(k as nat)) % p2(n as nat), k >= n ==> (x as nat * p2(k as nat)) % p2(n as nat) == 0,
{
    if k < n { lemma_shl1(x, k); lemma_mod(x * p2(k as nat), n); }
    else {
        lemma_p2_add(n as nat, (k - n) as nat);
        let (m, q) = (p2(n as nat), p2((k - n) as nat));
        lemma_p2_pos(n as nat);
        assert(x as nat * p2(k as nat) == m * (x as nat * q)) by (nonlinear_arith) requires p2(k as nat) == m * q;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic((x as nat * q) as int, m as int);
        assert((x as nat * q) as int * m as int == m * (x as nat * q)) by (nonlinear_arith);
    }
}
proof fn lemma_shr1(x: u128, k: u128) requires k < 128 ensures (x >> k) as nat == x as nat / p2(k as nat) decreases k {
    if k == 0 { assert(x >> 0u128 == x) by (bit_vector); assert(p2(0) == 1); assert(x as nat / 1 == x as nat); }
    else {
        let j = (k - 1) as u128;
        lemma_shr1(x, j);
        assert(x >> k == (x >> ((k - 1) as u128)) / 2) by (bit_vector) requires 1 <= k < 128;
        lemma_p2_pos(j as nat);
        vstd::arithmetic::div_mod::lemma_div_denominator(x as int, p2(j as nat) as int, 2);
        assert(p2(j as nat) as int * 2 == p2(k as nat) as int);
    }
}
proof fn lemma_shr(x: u128, k: u128, n: u128)
    requires 1 <= n <= 128, (x as nat) < p2(n as nat),
    ensures k < n ==> ((x >> k) as nat == x as nat / p2(k as nat)), x as nat / p2(k as nat) < p2(n as nat), k >= n ==> x as nat / p2(k as nat) == 0,
        k < n ==> (x >> k) as nat % p2(n as nat) == x as nat / p2(k as nat),
{
    lemma_p2_pos(k as nat);
    vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(x as int, 1, p2(k as nat) as int);
    assert(x as nat / p2(k as nat) <= x as nat) by { vstd::arithmetic::div_mod::lemma_div_nonincreasing(x as int, p2(k as nat) as int); }
    if k < n { lemma_shr1(x, k); vstd::arithmetic::div_mod::lemma_small_mod(x as nat / p2(k as nat), p2(n as nat)); }
    else { lemma_p2_mono(n as nat, k as nat); vstd::arithmetic::div_mod::lemma_basic_div(x as int, p2(k as nat) as int); }
}
proof fn lemma_not(x: u128, n: u128)
    requires 1 <= n <= 128, (x as nat) < p2(n as nat),
    ensures (!x) as nat % p2(n as nat) == p2(n as nat) - 1 - x,
{
    lemma_mask(n);
    lemma_and_mod(!x, n);
    let m = u128::MAX >> ((128 - n) as u128);
    assert(x <= m);
    assert(!x & (u128::MAX >> ((128 - n) as u128)) == sub(u128::MAX >> ((128 - n) as u128), x)) by (bit_vector) requires x <= u128::MAX >> ((128 - n) as u128), 1 <= n <= 128;
}
proof fn lemma_bits(x: u128, y: u128, n: u128)
    requires 1 <= n <= 128, (x as nat) < p2(n as nat), (y as nat) < p2(n as nat),
    ensures (x & y) as nat % p2(n as nat) == (x & y) as nat, (x | y) as nat % p2(n as nat) == (x | y) as nat, (x ^ y) as nat % p2(n as nat) == (x ^ y) as nat,
        ((x & y) as nat) < p2(n as nat), ((x | y) as nat) < p2(n as nat), ((x ^ y) as nat) < p2(n as nat),
{
    lemma_mask(n);
    let m = u128::MAX >> ((128 - n) as u128);
    assert(x <= m && y <= m);
    assert(x & y <= (u128::MAX >> ((128 - n) as u128)) && x | y <= (u128::MAX >> ((128 - n) as u128)) && x ^ y <= (u128::MAX >> ((128 - n) as u128))) by (bit_vector)
        requires x <= u128::MAX >> ((128 - n) as u128), y <= u128::MAX >> ((128 - n) as u128), 1 <= n <= 128;
    vstd::arithmetic::div_mod::lemma_small_mod((x & y) as nat, p2(n as nat));
    vstd::arithmetic::div_mod::lemma_small_mod((x | y) as nat, p2(n as nat));
    vstd::arithmetic::div_mod::lemma_small_mod((x ^ y) as nat, p2(n as nat));
}

pub open spec fn ok_width(n: u128) -> bool { 1 <= n <= 128 }
/// in range
pub open spec fn can<const N: u128>(b: BV<N>) -> bool { (b.0 as nat) < p2(N as nat) }
pub assume_specification [u128::wrapping_neg] (x: u128) -> (r: u128) ensures r == (0 - x) % (u128::MAX + 1);
pub trait VBit: Sized {
    spec fn and_ok(a: Self, b: Self, r: Self) -> bool; spec fn or_ok(a: Self, b: Self, r: Self) -> bool; spec fn xor_ok(a: Self, b: Self, r: Self) -> bool; spec fn not_ok(a: Self, r: Self) -> bool;
    fn bitand(self, o: Self) -> (r: Self) ensures Self::and_ok(self, o, r);
    fn bitor(self, o: Self) -> (r: Self) ensures Self::or_ok(self, o, r);
    fn bitxor(self, o: Self) -> (r: Self) ensures Self::xor_ok(self, o, r);
    fn not(self) -> (r: Self) ensures Self::not_ok(self, r);
}
impl VBit for u128 {
    open spec fn and_ok(a: u128, b: u128, r: u128) -> bool { r == a & b }
    open spec fn or_ok(a: u128, b: u128, r: u128) -> bool { r == a | b }
    open spec fn xor_ok(a: u128, b: u128, r: u128) -> bool { r == a ^ b }
    open spec fn not_ok(a: u128, r: u128) -> bool { r == !a }
    fn bitand(self, o: u128) -> (r: u128) { self & o }
    fn bitor(self, o: u128) -> (r: u128) { self | o }
    fn bitxor(self, o: u128) -> (r: u128) { self ^ o }
    fn not(self) -> (r: u128) { !self }
}
@fn INNER_N
@props C01
@sig pub fn INNER_N() -> (r: Inner)
@spec
    ensures r == 128,
@entry
  broadcast use vstd::layout::layout_of_primitives;
@fn BV::ALL_ONES
@props C01
@spec
    requires ok_width(N),
    ensures r.0 as nat == p2(N as nat) - 1, can(r), r.0 == u128::MAX >> ((128 - N) as u128),
@entry
  proof { lemma_mask(N); assert(!0u128 == u128::MAX) by (bit_vector); }
@fn BV::ZERO
@props C01
@spec
    requires ok_width(N),
    ensures r.0 == 0, can(r),
@entry
  proof { lemma_p2_pos(N as nat); }
@fn BV::NEG_ONE
@props C01
@spec
    requires ok_width(N),
    ensures r.0 as nat == p2(N as nat) - 1, can(r),
@fn BV::MIN
@props C01
@spec
    requires ok_width(N),
    ensures r.0 as nat == p2((N - 1) as nat), can(r),
@entry
  proof { lemma_one_shl((N - 1) as u128); lemma_p2_pos((N - 1) as nat); lemma_all_ones(N); }
@fn BV::MAX
@props C01
@spec
    requires ok_width(N),
    ensures r.0 as nat == p2((N - 1) as nat) - 1, can(r),
@entry
  proof { lemma_half(N); lemma_p2_pos((N - 1) as nat); lemma_all_ones(N); }
@fn BV::new
@props C01
@spec
    requires ok_width(N),
    ensures r.0 as nat == n as nat % p2(N as nat), can(r),
@entry
  proof { lemma_and_mod(n, N); lemma_p2_pos(N as nat); }
@fn BV::wrapping_add
@props C01 C02
@spec
    requires ok_width(N),
    ensures r.0 as int == (self.0 + rhs.0) % (p2(N as nat) as int), can(r),
@entry
  proof { lemma_all_ones(N); lemma_word(self.0, rhs.0, N); lemma_ring(self.0 as int, rhs.0 as int, p2(N as nat) as int); lemma_ring(0, rhs.0 as int, p2(N as nat) as int); }
@fn BV::wrapping_sub
@props C01 C02
@spec
    requires ok_width(N),
    ensures r.0 as int == (self.0 - rhs.0) % (p2(N as nat) as int), can(r),
@entry
  proof { lemma_all_ones(N); lemma_word(self.0, rhs.0, N); lemma_ring(self.0 as int, rhs.0 as int, p2(N as nat) as int); lemma_ring(0, rhs.0 as int, p2(N as nat) as int); }
@fn BV::wrapping_mul
@props C01 C02
@spec
    requires ok_width(N),
    ensures r.0 as int == (self.0 * rhs.0) % (p2(N as nat) as int), can(r),
@entry
  proof { lemma_all_ones(N); lemma_word(self.0, rhs.0, N); }
@fn BV::wrapping_neg
@props C01 C02
@spec
    requires ok_width(N),
    ensures r.0 as int == (-(self.0 as int)) % (p2(N as nat) as int), can(r),
@entry
  proof { lemma_all_ones(N); lemma_word(0u128, self.0, N); lemma_ring(0u128 as int, self.0 as int, p2(N as nat) as int); lemma_ring(0, self.0 as int, p2(N as nat) as int); lemma_ring(self.0 as int, 0, p2(N as nat) as int); }
@fn BV::my_shl
@props C01 C02
@spec
    requires ok_width(N),
    ensures r.0 as nat == (self.0 as nat * p2(rhs.0 as nat)) % p2(N as nat), can(r), rhs.0 >= N ==> r.0 == 0,
@entry
  proof { lemma_shl(self.0, rhs.0, N); lemma_p2_pos(N as nat); lemma_all_ones(N); }
@fn BV::my_shr
@props C01 C02
@spec
    requires ok_width(N), can(self),
    ensures r.0 as nat == self.0 as nat / p2(rhs.0 as nat), can(r), rhs.0 >= N ==> r.0 == 0,
@entry
  proof { lemma_shr(self.0, rhs.0, N); lemma_all_ones(N); }
@fn BV::Not::not
@props C01 C02
@flags impl=impl<const~N:~u128>~BV<N>
@spec
    requires ok_width(N), can(self),
    ensures r.0 as nat == p2(N as nat) - 1 - self.0, can(r),
@entry
  proof { lemma_not(self.0, N); lemma_all_ones(N); }
@sig pub fn not(self) -> (r: Self) | fn not (self) -> Self :: Output
@fn BV::BitAnd::bitand
@props C01 C02
@flags impl=impl<const~N:~u128>~BV<N>
@sig pub fn bitand(self, rhs: Self) -> (r: Self) | fn bitand (self , rhs : Self) -> Self :: Output
@spec
    requires ok_width(N), can(self), can(rhs),
    ensures r.0 == self.0 & rhs.0, can(r),
@entry
  proof { lemma_bits(self.0, rhs.0, N); }
@fn BV::BitOr::bitor
@props C01 C02
@flags impl=impl<const~N:~u128>~BV<N>
@sig pub fn bitor(self, rhs: Self) -> (r: Self) | fn bitor (self , rhs : Self) -> Self :: Output
@spec
    requires ok_width(N), can(self), can(rhs),
    ensures r.0 == self.0 | rhs.0, can(r),
@entry
  proof { lemma_bits(self.0, rhs.0, N); }
@fn BV::BitXor::bitxor
@props C01 C02
@flags impl=impl<const~N:~u128>~BV<N>
@sig pub fn bitxor(self, rhs: Self) -> (r: Self) | fn bitxor (self , rhs : Self) -> Self :: Output
@spec
    requires ok_width(N), can(self), can(rhs),
    ensures r.0 == self.0 ^ rhs.0, can(r),
@entry
  proof { lemma_bits(self.0, rhs.0, N); }
@raw
// random bits and number text, from the library
pub struct Random {}
impl Random { #[verifier::external_body] pub fn gen(&mut self) -> (r: u128) { unimplemented!() } }
pub struct Standard;
pub struct VErr {}
/// the number a text spells in a radix, as std reads it
pub uninterp spec fn number(s: Seq<char>, radix: nat) -> Option<u128>;
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
impl String {
    #[verifier::external_body]
    pub fn strip_prefix(&self, p: &String) -> (r: Option<&String>)
        ensures r is Some <==> starts(self@, p@), r matches Some(t) ==> t@ == self@.skip(p@.len() as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parse<T: VFromText>(&self) -> (r: Result<T, VErr>) ensures r matches Ok(x) ==> T::reads(self@, x), r is Ok <==> T::readable(self@) { unimplemented!() }
}
pub trait VFromText: Sized { spec fn readable(s: Seq<char>) -> bool; spec fn reads(s: Seq<char>, x: Self) -> bool; }
impl VFromText for u128 {
    open spec fn readable(s: Seq<char>) -> bool { number(s, 10) is Some }
    open spec fn reads(s: Seq<char>, x: u128) -> bool { number(s, 10) == Some(x) }
}
#[verifier::external_body]
pub fn vx_from_str_radix(s: &String, radix: u32) -> (r: Result<u128, VErr>)
    requires 2 <= radix <= 36,
    ensures r is Ok <==> number(s@, radix as nat) is Some, r matches Ok(x) ==> number(s@, radix as nat) == Some(x),
{ unimplemented!() }
/// what a bitvector literal means
pub open spec fn literal(s: Seq<char>) -> Option<u128> { if starts(s, "#b"@) { number(s.skip("#b"@.len() as int), 2) } else { number(s, 10) } }
@fn BV::From<Inner>::from
@props C01
@flags impl=impl<const~N:~u128>~BV<N>
@spec
    requires ok_width(N),
    ensures r.0 as nat == v as nat % p2(N as nat), can(r),
@raw
impl<const N: u128> VInto<BV<N>> for u128 {
    open spec fn into_req(x: u128) -> bool { ok_width(N) }
    open spec fn into_ok(x: u128, r: BV<N>) -> bool { r.0 as nat == x as nat % p2(N as nat) && can(r) }
    fn vinto(self) -> (r: BV<N>) { BV::<N>::from(self) }
}
@fn Standard::Distribution<BVN>::sample
@props C01
@flags impl=impl~Standard nogenerics
@sig pub fn sample<const N: u128>(&self, rng: &mut Random) -> (r: BV<N>) | fn sample < R : Rng + ? Sized > (& self , rng : & mut R) -> BV < N >
@spec
    requires ok_width(N),
    ensures can(r),
@fn BV::FromStr::from_str
@props C01
@flags impl=impl<const~N:~u128>~BV<N>
@sig pub fn from_str(s: &String) -> (r: Result<Self, VErr>) | fn from_str (s : & str) -> Result < Self , Self :: Err >
@spec
    requires ok_width(N),
    ensures r is Ok <==> literal(s@) is Some,
        r matches Ok(b) ==> b.0 as nat == literal(s@)->Some_0 as nat % p2(N as nat) && can(b),
@end
