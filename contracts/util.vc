@stub vclone
@include prelude.vc
@raw
// ======== cross products (C03) ========
pub open spec fn pw(m: nat, e: nat) -> nat decreases e { if e == 0 { 1 } else { m * pw(m, (e - 1) as nat) } }
pub assume_specification [usize::pow] (x: usize, e: u32) -> (r: usize)
    requires pw(x as nat, e as nat) <= usize::MAX,
    ensures r == pw(x as nat, e as nat);
/// digit i of k in base m, least significant first
pub open spec fn digit(k: nat, m: nat, i: nat) -> nat { (k / pw(m, i)) % m }
proof fn lemma_pw_pos(m: nat, e: nat) requires m > 0 ensures pw(m, e) > 0 decreases e
{ if e > 0 { lemma_pw_pos(m, (e - 1) as nat); assert(m * pw(m, (e - 1) as nat) > 0) by (nonlinear_arith) requires m > 0, pw(m, (e - 1) as nat) > 0; } }
proof fn lemma_pw_add(m: nat, a: nat, b: nat) ensures pw(m, a + b) == pw(m, a) * pw(m, b) decreases a
{
    if a > 0 {
        lemma_pw_add(m, (a - 1) as nat, b);
        assert(m * (pw(m, (a - 1) as nat) * pw(m, b)) == (m * pw(m, (a - 1) as nat)) * pw(m, b)) by (nonlinear_arith);
        assert((a - 1) as nat + b == (a + b - 1) as nat);
    } else { assert(1 * pw(m, b) == pw(m, b)); }
}
proof fn lemma_pw_le(m: nat, a: nat, b: nat) requires m > 0, a <= b ensures pw(m, a) <= pw(m, b) decreases b
{
    if a < b { lemma_pw_le(m, a, (b - 1) as nat); assert(pw(m, (b - 1) as nat) <= m * pw(m, (b - 1) as nat)) by (nonlinear_arith) requires m > 0; }
}
proof fn lemma_pw_zero(e: nat) requires e > 0 ensures pw(0, e) == 0 { assert(0 * pw(0, (e - 1) as nat) == 0); }
proof fn lemma_digit(q: nat, m: nat, i: nat, j: nat, t: nat)
    requires m > 0, j < m, t < pw(m, i),
    ensures digit(q * pw(m, i + 1) + j * pw(m, i) + t, m, i) == j,
{
    let p = pw(m, i);
    lemma_pw_pos(m, i);
    assert(pw(m, i + 1) == m * p);
    assert(q * (m * p) + j * p + t == (q * m + j) * p + t) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse((q * (m * p) + j * p + t) as int, p as int, (q * m + j) as int, t as int);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse((q * m + j) as int, m as int, q as int, j as int);
}
/// the vectors are read off in base |values|: variable i takes digit i of the position
pub open spec fn column<T>(ts: Seq<T>, n: nat, i: nat) -> Seq<T> { Seq::new(pw(ts.len(), n), |k: int| ts[digit(k as nat, ts.len(), i) as int]) }
proof fn lemma_div_div(k: nat, m: nat, i: nat)
    requires m > 0,
    ensures k / pw(m, i + 1) == (k / m) / pw(m, i),
{
    lemma_pw_pos(m, i);
    vstd::arithmetic::div_mod::lemma_div_denominator(k as int, m as int, pw(m, i) as int);
}
/// the number with the given digits
pub open spec fn undigits(d: Seq<nat>, m: nat) -> nat decreases d.len() { if d.len() == 0 { 0 } else { d[0] + m * undigits(d.skip(1), m) } }
/// position k holds the combination d: component i is digit i of k
pub open spec fn has_digits(k: nat, m: nat, d: Seq<nat>) -> bool { forall|i: nat| i < d.len() ==> #[trigger] digit(k, m, i) == d[i as int] }
/// C03: every combination of values is met at exactly one position
proof fn theorem_each_combination_once(d: Seq<nat>, m: nat)
    requires m > 0, forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] < m,
    ensures
        undigits(d, m) < pw(m, d.len()),
        has_digits(undigits(d, m), m, d),
        forall|k: nat| k < pw(m, d.len()) && #[trigger] has_digits(k, m, d) ==> k == undigits(d, m),
    decreases d.len(),
{
    let n = d.len();
    if n > 0 {
        let r = d.skip(1);
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] < m by { assert(r[i] == d[(i + 1) as int]); }
        theorem_each_combination_once(r, m);
        let u = undigits(r, m);
        let k0 = undigits(d, m);
        assert(k0 == d[0] + m * u);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k0 as int, m as int, u as int, d[0] as int);
        assert(m * u + d[0] == d[0] + m * u);
        assert(u * m == m * u) by (nonlinear_arith);
        assert(k0 / m == u && k0 % m == d[0]);
        assert(k0 < m * pw(m, (n - 1) as nat)) by (nonlinear_arith) requires k0 == d[0] + m * u, d[0] < m, u < pw(m, (n - 1) as nat), m > 0;
        assert forall|i: nat| i < n implies #[trigger] digit(k0, m, i) == d[i as int] by {
            if i == 0 { assert(pw(m, 0) == 1); assert(k0 / 1 == k0); }
            else { lemma_div_div(k0, m, (i - 1) as nat); assert(digit(u, m, (i - 1) as nat) == r[i - 1]); assert(r[i - 1] == d[i as int]); assert((i - 1) as nat + 1 == i); }
        }
        assert forall|k: nat| k < pw(m, n) && #[trigger] has_digits(k, m, d) implies k == k0 by {
            assert(digit(k, m, 0) == d[0]);
            assert(pw(m, 0) == 1); assert(k / 1 == k);
            assert(k % m == d[0]);
            let h = k / m;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k as int, m as int);
            assert(h < pw(m, (n - 1) as nat)) by (nonlinear_arith) requires k == m * h + k % m, k < m * pw(m, (n - 1) as nat), m > 0, k % m >= 0;
            assert forall|i: nat| i < r.len() implies #[trigger] digit(h, m, i) == r[i as int] by {
                assert(digit(k, m, i + 1) == d[(i + 1) as int]);
                lemma_div_div(k, m, i);
            }
            assert(has_digits(h, m, r));
            assert(h == u);
        }
    }
}
@fn self_product
@props C03
@sig pub fn self_product<T: VClone>(ts: &Vec<T>, n: usize) -> (r: Vec<Vec<T>>) | fn self_product < T : Clone > (ts : & [T] , n : usize) -> Vec < Vec < T > >
@spec
    requires n <= u32::MAX, pw(ts@.len(), n as nat) <= usize::MAX,
    ensures r@.len() == n,
        forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@ =~= column(ts@, n as nat, i as nat),
@entry
  let ghost m = ts@.len();
  proof { assert forall|e: nat| m > 0 && e <= n implies #[trigger] pw(m, e) <= usize::MAX by { lemma_pw_le(m, e, n as nat); } if m == 0 && n > 0 { lemma_pw_zero(n as nat); } }
@ty 0 Vec<Vec<T>>
@loop 0
  $acc@.len() == $i
  forall|i: int| 0 <= i < $i ==> (#[trigger] $acc@[i])@ =~= column(ts@, n as nat, i as nat)
@body 0
  let ghost gi = $i;
  proof {
    lemma_pw_add(m, (gi + 1) as nat, (n - gi - 1) as nat);
    if m > 0 { lemma_pw_pos(m, (gi + 1) as nat); }
    assert(0nat * pw(m, (gi + 1) as nat) == 0);
  }
  let ghost mut gq: nat = 0;
@ty 1 Vec<T>
@dec 1 pw(m, n as nat) - $acc@.len()
@loop 1
  m > 0 ==> $acc@.len() == gq * pw(m, (gi + 1) as nat)
  m > 0 ==> gq <= pw(m, (n - gi - 1) as nat)
  m == 0 ==> $acc@.len() == 0
  $acc@.len() <= pw(m, n as nat)
  forall|k: int| 0 <= k < $acc@.len() ==> #[trigger] $acc@[k] == ts@[digit(k as nat, m, gi) as int]
@body 1
  proof {
    assert(m > 0);
    lemma_pw_pos(m, gi);
    assert(gq < pw(m, (n - gi - 1) as nat)) by (nonlinear_arith) requires gq * pw(m, (gi + 1) as nat) < pw(m, (gi + 1) as nat) * pw(m, (n - gi - 1) as nat), gq <= pw(m, (n - gi - 1) as nat);
    assert(pw(m, (gi + 1) as nat) == m * pw(m, gi));
    assert((gq + 1) * pw(m, (gi + 1) as nat) <= pw(m, (gi + 1) as nat) * pw(m, (n - gi - 1) as nat)) by (nonlinear_arith) requires gq + 1 <= pw(m, (n - gi - 1) as nat);
    assert((gq + 1) * pw(m, (gi + 1) as nat) == gq * pw(m, (gi + 1) as nat) + pw(m, (gi + 1) as nat)) by (nonlinear_arith);
    assert(0nat * pw(m, gi) == 0);
  }
@tail 1
  proof { gq = gq + 1; }
@loop 2
  $acc@.len() == gq * pw(m, (gi + 1) as nat) + $i * pw(m, gi)
  forall|k: int| 0 <= k < $acc@.len() ==> #[trigger] $acc@[k] == ts@[digit(k as nat, m, gi) as int]
@body 2
  let ghost gj = $i;
  proof { assert((gj + 1) * pw(m, gi) == gj * pw(m, gi) + pw(m, gi)) by (nonlinear_arith); assert(pw(m, gi) <= usize::MAX); }
@loop 3
  $acc@.len() == gq * pw(m, (gi + 1) as nat) + gj * pw(m, gi) + $i
  forall|k: int| 0 <= k < $acc@.len() ==> #[trigger] $acc@[k] == ts@[digit(k as nat, m, gi) as int]
@body 3
  proof { lemma_digit(gq, m, gi, gj, $i); }
@end
