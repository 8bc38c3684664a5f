@include prelude.vc
@include text.vc
@type Metric Copy PartialEq
@type Sexp PartialEq Clone
@raw
// ======== metrics (C04) ========
pub open spec fn nodes(t: Sexp) -> nat decreases t {
    match t { Sexp::Atom(_) => 1, Sexp::List(v) => nodes_n(v@, v@.len()) + 1 }
}
pub open spec fn nodes_n(s: Seq<Sexp>, n: nat) -> nat decreases s, n when n <= s.len() {
    if n == 0 { 0 } else { nodes_n(s, (n - 1) as nat) + nodes(s[n - 1]) }
}
/// number of atoms; number of lists; depth (an atom and `()` have depth 1)
pub open spec fn meas(t: Sexp, m: Metric) -> nat decreases t {
    match t {
        Sexp::Atom(_) => if m is Lists { 0 } else { 1 },
        Sexp::List(v) => match m {
            Metric::Atoms => sum_m(v@, m, v@.len()),
            Metric::Lists => sum_m(v@, m, v@.len()) + 1,
            Metric::Depth => max_m(v@, v@.len()) + 1,
        },
    }
}
pub open spec fn sum_m(s: Seq<Sexp>, m: Metric, n: nat) -> nat decreases s, n when n <= s.len() {
    if n == 0 { 0 } else { sum_m(s, m, (n - 1) as nat) + meas(s[n - 1], m) }
}
pub open spec fn max_m(s: Seq<Sexp>, n: nat) -> nat decreases s, n when n <= s.len() {
    if n == 0 { 0 } else {
        let a = max_m(s, (n - 1) as nat);
        let b = meas(s[n - 1], Metric::Depth);
        if a > b { a } else { b }
    }
}
proof fn lemma_nodes_mono(s: Seq<Sexp>, a: nat, b: nat)
    requires a <= b <= s.len(),
    ensures nodes_n(s, a) <= nodes_n(s, b),
    decreases b,
{ if a < b { lemma_nodes_mono(s, a, (b - 1) as nat); } }
proof fn lemma_meas_nodes(t: Sexp, m: Metric)
    ensures meas(t, m) <= nodes(t),
    decreases t,
{
    if let Sexp::List(v) = t { lemma_sum_nodes(v@, m, v@.len()); lemma_max_nodes(v@, v@.len()); }
}
proof fn lemma_sum_nodes(s: Seq<Sexp>, m: Metric, n: nat)
    requires n <= s.len(),
    ensures sum_m(s, m, n) <= nodes_n(s, n),
    decreases s, n,
{ if n > 0 { lemma_sum_nodes(s, m, (n - 1) as nat); lemma_meas_nodes(s[n - 1], m); } }
proof fn lemma_max_nodes(s: Seq<Sexp>, n: nat)
    requires n <= s.len(),
    ensures max_m(s, n) <= nodes_n(s, n),
    decreases s, n,
{ if n > 0 { lemma_max_nodes(s, (n - 1) as nat); lemma_meas_nodes(s[n - 1], Metric::Depth); } }
/// the term occurs in memory, so it has fewer than usize::MAX nodes
#[verifier::external_body]
pub fn vx_in_memory(t: &Sexp) ensures nodes(*t) < usize::MAX {}
pub open spec fn opt_max(s: Seq<Sexp>, n: nat) -> Option<usize> { if n == 0 { None } else { Some(max_m(s, n) as usize) } }

// ======== plugging (C05) ========
pub open spec fn plug(t: Sexp, name: String, pegs: Seq<Sexp>) -> Seq<Sexp> decreases t {
    match t {
        Sexp::Atom(a) => if a == name { pegs } else { seq![t] },
        Sexp::List(v) => lists(choices(v@, name, pegs, v@.len())),
    }
}
pub open spec fn lists(s: Seq<Seq<Sexp>>) -> Seq<Sexp> { Seq::new(s.len(), |i: int| Sexp::List(mkvec(s[i]))) }
/// one choice for each of the first n components, independently, the first varying slowest
pub open spec fn choices(s: Seq<Sexp>, name: String, pegs: Seq<Sexp>, n: nat) -> Seq<Seq<Sexp>> decreases s, n when n <= s.len() {
    if n == 0 { seq![Seq::<Sexp>::empty()] } else {
        let p = choices(s, name, pegs, (n - 1) as nat);
        cart_step(p, plug(s[n - 1], name, pegs), p.len())
    }
}
proof fn lemma_cart_choices(v: Seq<Vec<Sexp>>, s: Seq<Sexp>, name: String, pegs: Seq<Sexp>, n: nat)
    requires n <= s.len(), v.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i])@ == plug(s[i], name, pegs),
    ensures cart(v, n) == choices(s, name, pegs, n),
    decreases n,
{ if n > 0 { lemma_cart_choices(v, s, name, pegs, (n - 1) as nat); assert(v[n - 1]@ == plug(s[n - 1], name, pegs)); } }
@fn Sexp::measure
@props C04
@spec
    requires nodes(*self) < usize::MAX,
    ensures r == meas(*self, metric),
    decreases self,
@loop 0
  $acc == sum_m($s, metric, $i)
@before 0
  proof { if let Sexp::List(v) = self { assert(nodes(*self) == nodes_n(v@, v@.len()) + 1); } }
@body 0
  proof { let k = $i; lemma_nodes_mono($s, k + 1, $s.len()); lemma_sum_nodes($s, metric, k); lemma_meas_nodes($s[k as int], metric); assert(nodes_n($s, k + 1) == nodes_n($s, k) + nodes($s[k as int])); }
@loop 1
  $acc == sum_m($s, metric, $i)
@body 1
  proof { let k = $i; lemma_nodes_mono($s, k + 1, $s.len()); lemma_sum_nodes($s, metric, k); lemma_meas_nodes($s[k as int], metric); assert(nodes_n($s, k + 1) == nodes_n($s, k) + nodes($s[k as int])); }
@after 1
  proof { lemma_sum_nodes($s, metric, $s.len()); }
@loop 2
  $acc == opt_max($s, $i)
@body 2
  proof { let k = $i; lemma_nodes_mono($s, k + 1, $s.len()); lemma_max_nodes($s, k); lemma_meas_nodes($s[k as int], metric); assert(nodes_n($s, k + 1) == nodes_n($s, k) + nodes($s[k as int])); }
@after 2
  proof { lemma_max_nodes($s, $s.len()); }
@fn Sexp::plug
@props C05
@spec
    ensures r@ =~= plug(*self, *name, pegs@),
    decreases self,
@entry
  proof { if let Sexp::List(v) = self { if v@.len() == 0 { assert(v@ =~= Seq::<Sexp>::empty()); assert(*v == mkvec(v@)); assert(choices(v@, *name, pegs@, 0) == seq![Seq::<Sexp>::empty()]); } } }
@ty 0 Vec<Vec<Sexp>>
@ty 1 Vec<Sexp>
@loop 0
  $acc@.len() == $i
  forall|j: int| 0 <= j < $i ==> (#[trigger] $acc@[j])@ == plug($s[j], *name, pegs@)
@after 0
  proof { lemma_cart_choices($acc@, $s, *name, pegs@, $s.len()); }
@loop 1
  $acc@.len() == $i
  forall|j: int| 0 <= j < $i ==> #[trigger] $acc@[j] == Sexp::List($s[j])
@type Pattern PartialEq Clone
@raw
// ======== pattern matching (C07) ========
/// under assignment m, pattern p is exactly the term t (a wildcard is any term)
pub open spec fn fits(p: Pattern, t: Sexp, m: Map<String, Sexp>) -> bool decreases p {
    match p {
        Pattern::Wild => true,
        Pattern::Var(x) => m.contains_key(x) && m[x] == t,
        Pattern::Lit(l) => t == Sexp::Atom(l),
        Pattern::List(ps) => t is List && ps@.len() == t->List_0@.len() && fits_n(ps@, t->List_0@, m, ps@.len()),
    }
}
pub open spec fn fits_n(ps: Seq<Pattern>, ts: Seq<Sexp>, m: Map<String, Sexp>, n: nat) -> bool
    decreases ps, n when n <= ps.len() && n <= ts.len()
{ n == 0 || fits_n(ps, ts, m, (n - 1) as nat) && fits(ps[n - 1], ts[n - 1], m) }
/// some assignment of terms to the pattern's variables makes it the term
pub open spec fn pmatch(p: Pattern, t: Sexp) -> bool { exists|m: Map<String, Sexp>| fits(p, t, m) }
/// b extends a
pub open spec fn sub<V>(a: Map<String, V>, b: Map<String, V>) -> bool { forall|k: String| #[trigger] a.contains_key(k) ==> b.contains_key(k) && a[k] == b[k] }
/// m is the least assignment above s that fits, or there is none
pub open spec fn least(r: Option<Map<String, Sexp>>, fit: spec_fn(Map<String, Sexp>) -> bool, s: Map<String, Sexp>) -> bool {
    match r {
        Some(q) => sub(s, q) && fit(q) && forall|m: Map<String, Sexp>| sub(s, m) && #[trigger] fit(m) ==> sub(q, m),
        None => forall|m: Map<String, Sexp>| sub(s, m) ==> !#[trigger] fit(m),
    }
}
pub open spec fn fit1(p: Pattern, t: Sexp) -> spec_fn(Map<String, Sexp>) -> bool { |m: Map<String, Sexp>| fits(p, t, m) }
pub open spec fn fitn(ps: Seq<Pattern>, ts: Seq<Sexp>, n: nat) -> spec_fn(Map<String, Sexp>) -> bool { |m: Map<String, Sexp>| fits_n(ps, ts, m, n) }
pub open spec fn omap(o: Option<HashMap<String, Sexp>>) -> Option<Map<String, Sexp>> { match o { Some(m) => Some(m@), None => None } }
proof fn lemma_fits_mono(p: Pattern, t: Sexp, m: Map<String, Sexp>, q: Map<String, Sexp>)
    requires fits(p, t, m), sub(m, q),
    ensures fits(p, t, q),
    decreases p,
{ if let Pattern::List(ps) = p { lemma_fits_n_mono(ps@, t->List_0@, m, q, ps@.len()); } }
proof fn lemma_fits_n_mono(ps: Seq<Pattern>, ts: Seq<Sexp>, m: Map<String, Sexp>, q: Map<String, Sexp>, n: nat)
    requires n <= ps.len(), n <= ts.len(), fits_n(ps, ts, m, n), sub(m, q),
    ensures fits_n(ps, ts, q, n),
    decreases ps, n,
{ if n > 0 { lemma_fits_n_mono(ps, ts, m, q, (n - 1) as nat); lemma_fits_mono(ps[n - 1], ts[n - 1], m, q); } }
proof fn lemma_least_step(ps: Seq<Pattern>, ts: Seq<Sexp>, n: nat, s: Map<String, Sexp>, q: Map<String, Sexp>, r: Option<Map<String, Sexp>>)
    requires n < ps.len(), n < ts.len(), least(Some(q), fitn(ps, ts, n), s), least(r, fit1(ps[n as int], ts[n as int]), q),
    ensures least(r, fitn(ps, ts, n + 1), s),
{
    assert forall|m: Map<String, Sexp>| sub(s, m) && #[trigger] fitn(ps, ts, n + 1)(m) implies r is Some && sub(r->Some_0, m) by {
        assert(fitn(ps, ts, n)(m));
        assert(fit1(ps[n as int], ts[n as int])(m));
    }
    if let Some(x) = r { assert(fitn(ps, ts, n)(q)); lemma_fits_n_mono(ps, ts, q, x, n); assert(fit1(ps[n as int], ts[n as int])(x)); assert(fits_n(ps, ts, x, n + 1)); assert(fitn(ps, ts, n + 1)(x)); assert forall|k: String| #[trigger] s.contains_key(k) implies x.contains_key(k) && s[k] == x[k] by { assert(q.contains_key(k)); } assert(sub(s, x)); }
}
proof fn lemma_least_none(ps: Seq<Pattern>, ts: Seq<Sexp>, n: nat, s: Map<String, Sexp>)
    requires n < ps.len(), n < ts.len(), least(None, fitn(ps, ts, n), s),
    ensures least(None, fitn(ps, ts, n + 1), s),
{
    assert forall|m: Map<String, Sexp>| sub(s, m) implies !#[trigger] fitn(ps, ts, n + 1)(m) by { assert(!fitn(ps, ts, n)(m)); }
}
@fn Pattern::matches_with
@props C07 C06
@spec
    ensures least(omap(r), fit1(*self, *sexp), subst@),
    decreases self,
@entry
  let ghost s0 = subst@;
  proof {
    assert forall|m: Map<String, Sexp>| #[trigger] fit1(*self, *sexp)(m) == fits(*self, *sexp, m) by {}
    if let Pattern::List(ps) = self { if let Sexp::List(ts) = sexp { if ps@.len() == ts@.len() { assert forall|m: Map<String, Sexp>| #[trigger] fit1(*self, *sexp)(m) == fitn(ps@, ts@, ps@.len())(m) by {} } } }
  }
@loop 0
  least(omap($acc), fitn($s, sexp->List_0@, $i), s0)
@body 0
  let ghost a0 = omap($acc);
  let ghost k0 = $i;
@tail 0
  proof { match a0 { Some(q) => { lemma_least_step($s, sexp->List_0@, k0, s0, q, omap($acc)); } None => { lemma_least_none($s, sexp->List_0@, k0, s0); } } }
@fn Pattern::matches
@props C07 C06
@spec
    ensures r == pmatch(*self, *sexp),
@entry
  proof {
    if pmatch(*self, *sexp) {
      let m = choose|m: Map<String, Sexp>| fits(*self, *sexp, m);
      assert(fit1(*self, *sexp)(m) && sub(Map::<String, Sexp>::empty(), m));
    }
  }

@type Filter PartialEq Clone
@raw
// ======== canonical forms (C08) ========
/// the symbols that occur in t, in order of first occurrence, after those in acc
pub open spec fn occ(t: Sexp, syms: Seq<String>, acc: Seq<String>) -> Seq<String> decreases t {
    match t {
        Sexp::Atom(x) => if syms.contains(x) && !acc.contains(x) { acc.push(x) } else { acc },
        Sexp::List(v) => occ_n(v@, syms, acc, v@.len()),
    }
}
pub open spec fn occ_n(s: Seq<Sexp>, syms: Seq<String>, acc: Seq<String>, n: nat) -> Seq<String> decreases s, n when n <= s.len() {
    if n == 0 { acc } else { occ(s[n - 1], syms, occ_n(s, syms, acc, (n - 1) as nat)) }
}
/// the first occurrences of the symbols are the listed symbols, in list order, without gaps
pub open spec fn is_canon(t: Sexp, syms: Seq<String>) -> bool {
    let o = occ(t, syms, Seq::<String>::empty());
    o.len() <= syms.len() && o == syms.take(o.len() as int)
}
/// a reading of m as "the i-th occurring symbol becomes the i-th listed one"
pub open spec fn naming(m: Map<String, String>, o: Seq<String>, syms: Seq<String>) -> bool {
    &&& o.no_duplicates()
    &&& o.len() <= syms.len()
    &&& forall|x: String| #![auto] m.contains_key(x) <==> o.contains(x)
    &&& forall|i: int| 0 <= i < o.len() ==> syms.contains(#[trigger] o[i]) && m[o[i]] == syms[i]
}
pub open spec fn ren(t: Sexp, m: Map<String, String>) -> Sexp decreases t {
    match t {
        Sexp::Atom(x) => if m.contains_key(x) { Sexp::Atom(m[x]) } else { t },
        Sexp::List(v) => Sexp::List(mkvec(ren_n(v@, m, v@.len()))),
    }
}
pub open spec fn ren_n(s: Seq<Sexp>, m: Map<String, String>, n: nat) -> Seq<Sexp> decreases s, n when n <= s.len() {
    if n == 0 { Seq::empty() } else { ren_n(s, m, (n - 1) as nat).push(ren(s[n - 1], m)) }
}
pub open spec fn canon_map(o: Seq<String>, syms: Seq<String>) -> Map<String, String> {
    Map::new(o.to_set(), |x: String| syms[o.index_of(x)])
}
pub open spec fn canon_of(t: Sexp, syms: Seq<String>) -> Sexp { ren(t, canon_map(occ(t, syms, Seq::<String>::empty()), syms)) }
proof fn lemma_naming_unique(m: Map<String, String>, o: Seq<String>, syms: Seq<String>)
    requires naming(m, o, syms),
    ensures m == canon_map(o, syms),
{
    let q = canon_map(o, syms);
    assert forall|x: String| #[trigger] m.contains_key(x) implies m[x] == q[x] by { let i = o.index_of(x); assert(o.contains(x)); assert(o[i] == x); }
    assert(m =~= q);
}
proof fn lemma_ren_n(s: Seq<Sexp>, m: Map<String, String>, n: nat)
    requires n <= s.len(),
    ensures ren_n(s, m, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] ren_n(s, m, n)[i] == ren(s[i], m),
    decreases n,
{ if n > 0 { lemma_ren_n(s, m, (n - 1) as nat); } }
/// a list of distinct members of syms is no longer than syms
proof fn lemma_distinct_len(o: Seq<String>, syms: Seq<String>)
    requires o.no_duplicates(), forall|i: int| 0 <= i < o.len() ==> syms.contains(#[trigger] o[i]),
    ensures o.len() <= syms.len(),
{
    o.unique_seq_to_set();
    assert(o.to_set().subset_of(syms.to_set())) by {
        assert forall|x: String| o.to_set().contains(x) implies syms.to_set().contains(x) by { let i = choose|i: int| 0 <= i < o.len() && o[i] == x; assert(syms.contains(o[i])); }
    }
    vstd::set_lib::lemma_len_subset(o.to_set(), syms.to_set());
    syms.lemma_cardinality_of_set();
}
proof fn lemma_occ_props(t: Sexp, syms: Seq<String>, acc: Seq<String>)
    requires acc.no_duplicates(), forall|i: int| 0 <= i < acc.len() ==> syms.contains(#[trigger] acc[i]),
    ensures ({ let o = occ(t, syms, acc); o.no_duplicates() && acc.len() <= o.len() && acc == o.take(acc.len() as int) && forall|i: int| 0 <= i < o.len() ==> syms.contains(#[trigger] o[i]) }),
    decreases t,
{
    match t {
        Sexp::Atom(x) => { assert(acc.push(x).take(acc.len() as int) =~= acc); assert(acc.take(acc.len() as int) =~= acc); }
        Sexp::List(v) => { lemma_occ_n_props(v@, syms, acc, v@.len()); }
    }
}
proof fn lemma_occ_n_props(s: Seq<Sexp>, syms: Seq<String>, acc: Seq<String>, n: nat)
    requires n <= s.len(), acc.no_duplicates(), forall|i: int| 0 <= i < acc.len() ==> syms.contains(#[trigger] acc[i]),
    ensures ({ let o = occ_n(s, syms, acc, n); o.no_duplicates() && acc.len() <= o.len() && acc == o.take(acc.len() as int) && forall|i: int| 0 <= i < o.len() ==> syms.contains(#[trigger] o[i]) }),
    decreases s, n,
{
    assert(acc.take(acc.len() as int) =~= acc);
    if n > 0 {
        lemma_occ_n_props(s, syms, acc, (n - 1) as nat);
        let p = occ_n(s, syms, acc, (n - 1) as nat);
        lemma_occ_props(s[n - 1], syms, p);
        let o = occ_n(s, syms, acc, n);
        assert(o.take(acc.len() as int) =~= p.take(acc.len() as int)) by {
            assert forall|i: int| 0 <= i < acc.len() implies o[i] == p[i] by { assert(o.take(p.len() as int)[i] == p[i]); }
        }
    }
}
@fn Sexp::mk_canon
@props C08 C06
@spec
    requires exists|o: Seq<String>| #[trigger] naming(subst@, o, symbols@) && o.len() == idx,
    ensures forall|o: Seq<String>| #[trigger] naming(subst@, o, symbols@) && o.len() == idx ==> naming(r.0@, occ(*self, symbols@, o), symbols@) && r.1 == occ(*self, symbols@, o).len(),
    decreases self,
@entry
  let ghost m0 = subst@;
  let ghost i0 = idx;
  proof {
    assert forall|o: Seq<String>| #[trigger] naming(subst@, o, symbols@) && o.len() == idx implies
        match self { Sexp::Atom(x) => symbols@.contains(*x) && !subst@.contains_key(*x) ==> idx < symbols@.len() && naming(subst@.insert(*x, symbols@[idx as int]), o.push(*x), symbols@), _ => true }
    by {
        if let Sexp::Atom(x) = self { if symbols@.contains(*x) && !subst@.contains_key(*x) { lemma_push_naming(m0, o, symbols@, *x); } }
    }
  }
@loop 0
  forall|o: Seq<String>| #[trigger] naming(m0, o, symbols@) && o.len() == i0 ==> naming($acc.0@, occ_n($s, symbols@, o, $i), symbols@) && $acc.1 == occ_n($s, symbols@, o, $i).len()
@body 0
  proof {
    let o = choose|o: Seq<String>| #[trigger] naming(m0, o, symbols@) && o.len() == i0;
    assert(naming($acc.0@, occ_n($s, symbols@, o, $i), symbols@));
  }
@raw
proof fn lemma_push_naming(m: Map<String, String>, o: Seq<String>, syms: Seq<String>, x: String)
    requires naming(m, o, syms), syms.contains(x), !m.contains_key(x),
    ensures o.len() < syms.len(), naming(m.insert(x, syms[o.len() as int]), o.push(x), syms),
{
    assert(!o.contains(x));
    let p = o.push(x);
    assert forall|i: int| 0 <= i < p.len() implies syms.contains(#[trigger] p[i]) by { if i < o.len() { assert(p[i] == o[i]); } }
    assert(p.no_duplicates());
    lemma_distinct_len(p, syms);
    let q = m.insert(x, syms[o.len() as int]);
    assert forall|y: String| #![auto] q.contains_key(y) <==> p.contains(y) by {
        if o.contains(y) { let i = choose|i: int| 0 <= i < o.len() && o[i] == y; assert(p[i] == y); }
        if y == x { assert(p[o.len() as int] == x); }
        if p.contains(y) && y != x { let i = choose|i: int| 0 <= i < p.len() && p[i] == y; assert(o[i] == y); }
    }
    assert forall|i: int| 0 <= i < p.len() implies syms.contains(#[trigger] p[i]) && q[p[i]] == syms[i] by { if i < o.len() { assert(p[i] == o[i]); assert(o.contains(o[i])); } }
}
@fn Sexp::apply_subst
@props C08 C06
@spec
    ensures r == ren(*self, subst@),
    decreases self,
@loop 0
  $acc@ == ren_n($s, subst@, $i)
@fn Sexp::canon
@props C08 C06
@spec
    ensures r == canon_of(*self, symbols@),
@entry
  proof {
    assert(naming(Map::<String, String>::empty(), Seq::<String>::empty(), symbols@));
    assert forall|m: Map<String, String>| #[trigger] naming(m, occ(*self, symbols@, Seq::<String>::empty()), symbols@) implies m == canon_map(occ(*self, symbols@, Seq::<String>::empty()), symbols@) by { lemma_naming_unique(m, occ(*self, symbols@, Seq::<String>::empty()), symbols@); }
  }
@raw
// ---- theorems about canonical forms ----
proof fn lemma_ren_id(t: Sexp, syms: Seq<String>, acc: Seq<String>, o: Seq<String>)
    requires ({ let p = occ(t, syms, acc); p.len() <= o.len() && p == o.take(p.len() as int) }), o.no_duplicates(), o.len() <= syms.len(), acc.no_duplicates(),
        forall|i: int| 0 <= i < acc.len() ==> syms.contains(#[trigger] acc[i]), forall|i: int| 0 <= i < o.len() ==> syms.contains(#[trigger] o[i]),
    ensures
        (ren(t, canon_map(o, syms)) == t) == (forall|i: int| 0 <= i < o.len() && occurs(t, o[i]) ==> #[trigger] o[i] == syms[i]),
    decreases t,
{
    let m = canon_map(o, syms);
    match t {
        Sexp::Atom(x) => {
            if syms.contains(x) {
                let p = occ(t, syms, acc);
                assert(p.contains(x)) by { if !acc.contains(x) { assert(p[acc.len() as int] == x); } }
                let j = choose|j: int| 0 <= j < p.len() && p[j] == x;
                assert(o[j] == x) by { assert(o.take(p.len() as int)[j] == p[j]); }
                assert(o.contains(x));
                let k = o.index_of(x);
                assert(o[k] == x && k == j);
                assert(occurs(t, o[j]));
                assert(ren(t, m) == Sexp::Atom(syms[j]));
                if syms[j] == x { assert forall|i: int| 0 <= i < o.len() && occurs(t, o[i]) implies #[trigger] o[i] == syms[i] by { assert(o[i] == o[j]); assert(i == j); } }
            } else {
                assert(!o.contains(x)) by { if o.contains(x) { let k = choose|k: int| 0 <= k < o.len() && o[k] == x; assert(syms.contains(o[k])); } }
                assert forall|i: int| 0 <= i < o.len() && occurs(t, o[i]) implies #[trigger] o[i] == syms[i] by { assert(syms.contains(o[i])); }
            }
        }
        Sexp::List(v) => {
            lemma_ren_id_n(v@, syms, acc, o, v@.len());
            lemma_ren_n(v@, m, v@.len());
            if ren_n(v@, m, v@.len()) == v@ { assert(mkvec(v@) == v); }
            if ren(t, m) == t { assert(mkvec(ren_n(v@, m, v@.len())) == v); assert(mkvec(ren_n(v@, m, v@.len()))@ == ren_n(v@, m, v@.len())); }
            assert forall|i: int| 0 <= i < o.len() implies occurs(t, #[trigger] o[i]) == occurs_n(v@, o[i], v@.len()) by {}
            assert(v@.take(v@.len() as int) =~= v@);
        }
    }
}
proof fn lemma_ren_id_n(s: Seq<Sexp>, syms: Seq<String>, acc: Seq<String>, o: Seq<String>, n: nat)
    requires n <= s.len(), ({ let p = occ_n(s, syms, acc, n); p.len() <= o.len() && p == o.take(p.len() as int) }), o.no_duplicates(), o.len() <= syms.len(), acc.no_duplicates(),
        forall|i: int| 0 <= i < acc.len() ==> syms.contains(#[trigger] acc[i]), forall|i: int| 0 <= i < o.len() ==> syms.contains(#[trigger] o[i]),
    ensures
        (ren_n(s, canon_map(o, syms), n) == s.take(n as int)) == (forall|i: int| 0 <= i < o.len() && occurs_n(s, o[i], n) ==> #[trigger] o[i] == syms[i]),
    decreases s, n,
{
    let m = canon_map(o, syms);
    lemma_ren_n(s, m, n);
    if n == 0 {
        assert(ren_n(s, m, n) =~= s.take(0));
    } else {
        let q = occ_n(s, syms, acc, (n - 1) as nat);
        let p = occ_n(s, syms, acc, n);
        lemma_occ_n_props(s, syms, acc, (n - 1) as nat);
        lemma_occ_props(s[n - 1], syms, q);
        assert(q == o.take(q.len() as int)) by { assert(q == p.take(q.len() as int)); assert(q =~= o.take(q.len() as int)); }
        lemma_ren_id_n(s, syms, acc, o, (n - 1) as nat);
        lemma_ren_id(s[n - 1], syms, q, o);
        let a = ren_n(s, m, (n - 1) as nat);
        let b = ren_n(s, m, n);
        if b == s.take(n as int) {
            assert(a =~= s.take(n - 1)) by { assert forall|i: int| 0 <= i < n - 1 implies a[i] == s[i] by { assert(b[i] == s.take(n as int)[i]); } }
            assert(b[n - 1] == s.take(n as int)[n - 1]);
        }
        if a == s.take(n - 1) && ren(s[n - 1], m) == s[n - 1] {
            assert(b =~= s.take(n as int)) by { assert forall|i: int| 0 <= i < n - 1 implies b[i] == s[i] by { assert(a[i] == s.take(n - 1)[i]); } }
        }
    }
}
/// the atom x occurs in t
pub open spec fn occurs(t: Sexp, x: String) -> bool decreases t {
    match t { Sexp::Atom(y) => x == y, Sexp::List(v) => occurs_n(v@, x, v@.len()) }
}
pub open spec fn occurs_n(s: Seq<Sexp>, x: String, n: nat) -> bool decreases s, n when n <= s.len() {
    n > 0 && (occurs_n(s, x, (n - 1) as nat) || occurs(s[n - 1], x))
}

/// everything in occ(t, acc) comes from acc or occurs in t
proof fn lemma_occ_occurs(t: Sexp, syms: Seq<String>, acc: Seq<String>)
    ensures forall|i: int| 0 <= i < occ(t, syms, acc).len() ==> acc.contains(#[trigger] occ(t, syms, acc)[i]) || occurs(t, occ(t, syms, acc)[i]),
    decreases t,
{
    match t {
        Sexp::Atom(x) => { assert forall|i: int| 0 <= i < occ(t, syms, acc).len() implies acc.contains(#[trigger] occ(t, syms, acc)[i]) || occurs(t, occ(t, syms, acc)[i]) by { if i < acc.len() { assert(occ(t, syms, acc)[i] == acc[i]); } } }
        Sexp::List(v) => {
            lemma_occ_n_occurs(v@, syms, acc, v@.len());
            let o = occ(t, syms, acc);
            assert forall|i: int| 0 <= i < o.len() implies acc.contains(#[trigger] o[i]) || occurs(t, o[i]) by { assert(o[i] == occ_n(v@, syms, acc, v@.len())[i]); }
        }
    }
}
proof fn lemma_occ_n_occurs(s: Seq<Sexp>, syms: Seq<String>, acc: Seq<String>, n: nat)
    requires n <= s.len(),
    ensures forall|i: int| 0 <= i < occ_n(s, syms, acc, n).len() ==> acc.contains(#[trigger] occ_n(s, syms, acc, n)[i]) || occurs_n(s, occ_n(s, syms, acc, n)[i], n),
    decreases s, n,
{
    let o = occ_n(s, syms, acc, n);
    if n == 0 {
        assert forall|i: int| 0 <= i < o.len() implies acc.contains(#[trigger] o[i]) || occurs_n(s, o[i], n) by { assert(o[i] == acc[i]); }
    } else {
        let p = occ_n(s, syms, acc, (n - 1) as nat);
        lemma_occ_n_occurs(s, syms, acc, (n - 1) as nat);
        lemma_occ_occurs(s[n - 1], syms, p);
        assert forall|i: int| 0 <= i < o.len() implies acc.contains(#[trigger] o[i]) || occurs_n(s, o[i], n) by {
            assert(o[i] == occ(s[n - 1], syms, p)[i]);
            if p.contains(o[i]) { let j = choose|j: int| 0 <= j < p.len() && p[j] == o[i]; assert(p[j] == o[i]); }
        }
    }
}
/// C08: the canonical filter accepts exactly the terms whose first occurrences are the listed symbols in order
proof fn theorem_canon_decides(t: Sexp, syms: Seq<String>)
    ensures (canon_of(t, syms) == t) == is_canon(t, syms),
{
    let e = Seq::<String>::empty();
    let o = occ(t, syms, e);
    lemma_occ_props(t, syms, e);
    lemma_distinct_len(o, syms);
    assert(o =~= o.take(o.len() as int));
    lemma_ren_id(t, syms, e, o);
    lemma_occ_occurs(t, syms, e);
    if canon_of(t, syms) == t { assert forall|i: int| 0 <= i < o.len() implies o[i] == syms.take(o.len() as int)[i] by { assert(!e.contains(o[i])); assert(occurs(t, o[i])); } assert(o =~= syms.take(o.len() as int)); }
    if is_canon(t, syms) { assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i] == syms[i] by { assert(syms.take(o.len() as int)[i] == syms[i]); } }
}
/// q renames symbols to symbols, injectively, and covers those that occur
pub open spec fn renaming(q: Map<String, String>, o: Seq<String>, syms: Seq<String>) -> bool {
    &&& forall|x: String| #[trigger] q.contains_key(x) ==> syms.contains(x) && syms.contains(q[x])
    &&& forall|x: String, y: String| #[trigger] q.contains_key(x) && #[trigger] q.contains_key(y) && q[x] == q[y] ==> x == y
    &&& forall|i: int| 0 <= i < o.len() ==> q.contains_key(#[trigger] o[i])
}
pub open spec fn mapped(o: Seq<String>, q: Map<String, String>) -> Seq<String> { Seq::new(o.len(), |i: int| q[o[i]]) }
proof fn lemma_occ_ren(t: Sexp, syms: Seq<String>, acc: Seq<String>, q: Map<String, String>)
    requires renaming(q, occ(t, syms, acc), syms), renaming(q, acc, syms), acc.no_duplicates(), forall|i: int| 0 <= i < acc.len() ==> syms.contains(#[trigger] acc[i]),
    ensures occ(ren(t, q), syms, mapped(acc, q)) == mapped(occ(t, syms, acc), q),
    decreases t,
{
    match t {
        Sexp::Atom(x) => {
            if syms.contains(x) {
                let p = occ(t, syms, acc);
                if acc.contains(x) {
                    let i = choose|i: int| 0 <= i < acc.len() && acc[i] == x;
                    assert(q.contains_key(acc[i]));
                    assert(mapped(acc, q)[i] == q[x]);
                } else {
                    assert(p[acc.len() as int] == x);
                    assert(q.contains_key(p[acc.len() as int]));
                    if mapped(acc, q).contains(q[x]) { let i = choose|i: int| 0 <= i < acc.len() && mapped(acc, q)[i] == q[x]; assert(q.contains_key(acc[i])); assert(acc[i] == x); }
                    assert(mapped(p, q) =~= mapped(acc, q).push(q[x]));
                }
            }
        }
        Sexp::List(v) => {
            lemma_ren_n(v@, q, v@.len());
            lemma_occ_ren_n(v@, syms, acc, q, v@.len());
            assert(ren_n(v@, q, v@.len()).len() == v@.len());
            assert(mkvec(ren_n(v@, q, v@.len()))@ == ren_n(v@, q, v@.len()));
        }
    }
}
proof fn lemma_occ_ren_n(s: Seq<Sexp>, syms: Seq<String>, acc: Seq<String>, q: Map<String, String>, n: nat)
    requires n <= s.len(), renaming(q, occ_n(s, syms, acc, n), syms), renaming(q, acc, syms), acc.no_duplicates(), forall|i: int| 0 <= i < acc.len() ==> syms.contains(#[trigger] acc[i]),
    ensures occ_n(ren_n(s, q, s.len()), syms, mapped(acc, q), n) == mapped(occ_n(s, syms, acc, n), q),
    decreases s, n,
{
    lemma_ren_n(s, q, s.len());
    if n > 0 {
        let p = occ_n(s, syms, acc, (n - 1) as nat);
        let o = occ_n(s, syms, acc, n);
        lemma_occ_n_props(s, syms, acc, (n - 1) as nat);
        lemma_occ_props(s[n - 1], syms, p);
        assert(renaming(q, p, syms)) by { assert forall|i: int| 0 <= i < p.len() implies q.contains_key(#[trigger] p[i]) by { assert(o.take(p.len() as int)[i] == p[i]); assert(q.contains_key(o[i])); } }
        lemma_occ_ren_n(s, syms, acc, q, (n - 1) as nat);
        lemma_occ_ren(s[n - 1], syms, p, q);
    }
}
proof fn lemma_ren_fix(t: Sexp, q: Map<String, String>)
    requires forall|x: String| #[trigger] q.contains_key(x) && occurs(t, x) ==> q[x] == x,
    ensures ren(t, q) == t,
    decreases t,
{
    if let Sexp::List(v) = t {
        lemma_ren_fix_n(v@, q, v@.len());
        lemma_ren_n(v@, q, v@.len());
        assert(ren_n(v@, q, v@.len()) =~= v@);
        assert(mkvec(v@) == v);
    }
}
proof fn lemma_ren_fix_n(s: Seq<Sexp>, q: Map<String, String>, n: nat)
    requires n <= s.len(), forall|x: String| #[trigger] q.contains_key(x) && occurs_n(s, x, n) ==> q[x] == x,
    ensures forall|i: int| 0 <= i < n ==> ren(#[trigger] s[i], q) == s[i],
    decreases s, n,
{ if n > 0 { lemma_ren_fix_n(s, q, (n - 1) as nat); lemma_ren_fix(s[n - 1], q); } }
/// every listed symbol that occurs in t is in occ(t, acc)
proof fn lemma_occurs_occ(t: Sexp, syms: Seq<String>, acc: Seq<String>, x: String)
    requires syms.contains(x), acc.contains(x) || occurs(t, x), acc.no_duplicates(), forall|i: int| 0 <= i < acc.len() ==> syms.contains(#[trigger] acc[i]),
    ensures occ(t, syms, acc).contains(x),
    decreases t,
{
    match t {
        Sexp::Atom(y) => { if acc.contains(x) { let i = choose|i: int| 0 <= i < acc.len() && acc[i] == x; assert(occ(t, syms, acc)[i] == x); } else { assert(occ(t, syms, acc)[acc.len() as int] == x); } }
        Sexp::List(v) => { lemma_occurs_occ_n(v@, syms, acc, x, v@.len()); }
    }
}
proof fn lemma_occurs_occ_n(s: Seq<Sexp>, syms: Seq<String>, acc: Seq<String>, x: String, n: nat)
    requires n <= s.len(), syms.contains(x), acc.contains(x) || occurs_n(s, x, n), acc.no_duplicates(), forall|i: int| 0 <= i < acc.len() ==> syms.contains(#[trigger] acc[i]),
    ensures occ_n(s, syms, acc, n).contains(x),
    decreases s, n,
{
    if n > 0 {
        lemma_occ_n_props(s, syms, acc, (n - 1) as nat);
        if acc.contains(x) || occurs_n(s, x, (n - 1) as nat) { lemma_occurs_occ_n(s, syms, acc, x, (n - 1) as nat); }
        lemma_occurs_occ(s[n - 1], syms, occ_n(s, syms, acc, (n - 1) as nat), x);
    }
}
/// C08: two accepted terms that are renamings of each other are the same term
proof fn theorem_canon_unique(t: Sexp, q: Map<String, String>, syms: Seq<String>)
    requires is_canon(t, syms), is_canon(ren(t, q), syms), renaming(q, occ(t, syms, Seq::<String>::empty()), syms),
    ensures ren(t, q) == t,
{
    let e = Seq::<String>::empty();
    let o = occ(t, syms, e);
    assert(renaming(q, e, syms));
    lemma_occ_ren(t, syms, e, q);
    assert(mapped(e, q) =~= e);
    assert forall|x: String| #[trigger] q.contains_key(x) && occurs(t, x) implies q[x] == x by {
        lemma_occurs_occ(t, syms, e, x);
        let i = choose|i: int| 0 <= i < o.len() && o[i] == x;
        assert(mapped(o, q)[i] == q[x]);
        assert(mapped(o, q)[i] == syms.take(o.len() as int)[i]);
        assert(o[i] == syms.take(o.len() as int)[i]);
    }
    lemma_ren_fix(t, q);
}
/// C08: every term has an accepted renaming
proof fn theorem_canon_exists(t: Sexp, syms: Seq<String>)
    requires syms.no_duplicates(),
    ensures is_canon(canon_of(t, syms), syms), renaming(canon_map(occ(t, syms, Seq::<String>::empty()), syms), occ(t, syms, Seq::<String>::empty()), syms),
{
    let e = Seq::<String>::empty();
    let o = occ(t, syms, e);
    let q = canon_map(o, syms);
    lemma_occ_props(t, syms, e);
    lemma_distinct_len(o, syms);
    assert forall|x: String| #[trigger] q.contains_key(x) implies syms.contains(x) && syms.contains(q[x]) by { assert(o.contains(x)); let i = o.index_of(x); assert(syms.contains(o[i])); assert(q[x] == syms[i]); }
    assert forall|x: String, y: String| #[trigger] q.contains_key(x) && #[trigger] q.contains_key(y) && q[x] == q[y] implies x == y by { assert(o.contains(x) && o.contains(y)); let i = o.index_of(x); let j = o.index_of(y); assert(syms[i] == syms[j]); assert(i == j); }
    assert forall|i: int| 0 <= i < o.len() implies q.contains_key(#[trigger] o[i]) && q[o[i]] == syms[i] by { assert(o.contains(o[i])); assert(o[o.index_of(o[i])] == o[i]); }
    assert(renaming(q, e, syms));
    lemma_occ_ren(t, syms, e, q);
    assert(mapped(e, q) =~= e);
    assert(mapped(o, q) =~= syms.take(o.len() as int));
}

// ======== filters (C06) ========
/// the term or some subterm matches
pub open spec fn occursm(p: Pattern, t: Sexp) -> bool decreases t {
    pmatch(p, t) || match t { Sexp::Atom(_) => false, Sexp::List(v) => has_n(p, v@, v@.len()) }
}
pub open spec fn has_n(p: Pattern, s: Seq<Sexp>, n: nat) -> bool decreases s, n when n <= s.len() {
    n > 0 && (has_n(p, s, (n - 1) as nat) || occursm(p, s[n - 1]))
}
pub open spec fn keeps(f: Filter, t: Sexp) -> bool decreases f {
    match f {
        Filter::MetricLt(m, n) => meas(t, m) < n,
        Filter::MetricEq(m, n) => meas(t, m) == n,
        Filter::Contains(p) => occursm(p, t),
        Filter::Excludes(p) => !occursm(p, t),
        Filter::Canon(syms) => is_canon(t, syms@),
        Filter::And(fs) => all_n(fs@, t, fs@.len()),
        Filter::Or(fs) => any_n(fs@, t, fs@.len()),
        Filter::Invert(g) => !keeps(*g, t),
    }
}
pub open spec fn all_n(s: Seq<Filter>, t: Sexp, n: nat) -> bool decreases s, n when n <= s.len() {
    n == 0 || (all_n(s, t, (n - 1) as nat) && keeps(s[n - 1], t))
}
pub open spec fn any_n(s: Seq<Filter>, t: Sexp, n: nat) -> bool decreases s, n when n <= s.len() {
    n > 0 && (any_n(s, t, (n - 1) as nat) || keeps(s[n - 1], t))
}
pub open spec fn excl_rank(f: Filter) -> int { if f is Excludes { 1 } else { 0 } }
/// Excludes(p) is decided by Contains(p)
pub open spec fn fh(f: Filter) -> nat decreases f {
    match f {
        Filter::Excludes(_) => 1,
        Filter::And(v) => fh_n(v@, v@.len()) + 2,
        Filter::Or(v) => fh_n(v@, v@.len()) + 2,
        Filter::Invert(g) => fh(*g) + 2,
        _ => 0,
    }
}
pub open spec fn fh_n(s: Seq<Filter>, n: nat) -> nat decreases s, n when n <= s.len() {
    if n == 0 { 0 } else { fh_n(s, (n - 1) as nat) + fh(s[n - 1]) }
}
proof fn lemma_fh(s: Seq<Filter>, n: nat)
    requires n <= s.len(),
    ensures forall|i: int| 0 <= i < n ==> fh(#[trigger] s[i]) <= fh_n(s, n),
    decreases n,
{ if n > 0 { lemma_fh(s, (n - 1) as nat); } }
proof fn lemma_all(s: Seq<Filter>, t: Sexp, n: nat)
    requires n <= s.len(),
    ensures all_n(s, t, n) == forall|i: int| 0 <= i < n ==> keeps(#[trigger] s[i], t),
    decreases n,
{ if n > 0 { lemma_all(s, t, (n - 1) as nat); } }
proof fn lemma_any(s: Seq<Filter>, t: Sexp, n: nat)
    requires n <= s.len(),
    ensures any_n(s, t, n) == exists|i: int| 0 <= i < n && keeps(#[trigger] s[i], t),
    decreases n,
{ if n > 0 { lemma_any(s, t, (n - 1) as nat); if any_n(s, t, n) && !keeps(s[n - 1], t) { let i = choose|i: int| 0 <= i < n - 1 && keeps(#[trigger] s[i], t); assert(keeps(s[i], t)); } } }
proof fn lemma_has_n(p: Pattern, s: Seq<Sexp>, n: nat)
    requires n <= s.len(),
    ensures has_n(p, s, n) == exists|i: int| 0 <= i < n && occursm(p, #[trigger] s[i]),
    decreases n,
{ if n > 0 { lemma_has_n(p, s, (n - 1) as nat); if has_n(p, s, n) && !occursm(p, s[n - 1]) { let i = choose|i: int| 0 <= i < n - 1 && occursm(p, #[trigger] s[i]); assert(occursm(p, s[i])); } } }
@fn Filter::test
@props C06 C09 C10
@spec
    ensures r == keeps(*self, *sexp),
    decreases fh(*self), *sexp,
@entry
  vx_in_memory(sexp);
  proof {
    match self {
      Filter::And(fs) => { lemma_fh(fs@, fs@.len()); lemma_all(fs@, *sexp, fs@.len()); }
      Filter::Or(fs) => { lemma_fh(fs@, fs@.len()); lemma_any(fs@, *sexp, fs@.len()); }
      Filter::Canon(syms) => { theorem_canon_decides(*sexp, syms@); }
      Filter::Contains(p) => { if let Sexp::List(v) = sexp { lemma_has_n(*p, v@, v@.len()); } }
      _ => {}
    }
  }
@loop 0
  $acc == has_n(*pat, $s, $i)
@loop 1
  $acc == all_n($s, *sexp, $i)
@loop 2
  $acc == any_n($s, *sexp, $i)

@raw
proof fn lemma_lt_weaker(m: Metric, a: usize, b: usize, t: Sexp)
    requires a <= b, keeps(Filter::MetricLt(m, a), t),
    ensures keeps(Filter::MetricLt(m, b), t),
{}
proof fn lemma_all_cat(a: Seq<Filter>, b: Seq<Filter>, t: Sexp)
    ensures all_n(a + b, t, (a + b).len()) == (all_n(a, t, a.len()) && all_n(b, t, b.len())),
{
    lemma_all(a + b, t, (a + b).len()); lemma_all(a, t, a.len()); lemma_all(b, t, b.len());
    if all_n(a + b, t, (a + b).len()) {
        assert forall|i: int| 0 <= i < a.len() implies keeps(#[trigger] a[i], t) by { assert((a + b)[i] == a[i]); }
        assert forall|i: int| 0 <= i < b.len() implies keeps(#[trigger] b[i], t) by { assert((a + b)[a.len() + i] == b[i]); }
    }
}
proof fn lemma_all_push(a: Seq<Filter>, f: Filter, t: Sexp)
    ensures all_n(a.push(f), t, a.len() + 1) == (all_n(a, t, a.len()) && keeps(f, t)),
{
    assert(a.push(f) =~= a + seq![f]);
    lemma_all_cat(a, seq![f], t);
    assert(all_n(seq![f], t, 1) == keeps(f, t)) by { reveal_with_fuel(all_n, 3); }
}
proof fn lemma_all_prefix(s: Seq<Filter>, q: Seq<Filter>, t: Sexp, n: nat)
    requires n <= s.len(), n <= q.len(), forall|i: int| 0 <= i < n ==> s[i] == q[i],
    ensures all_n(s, t, n) == all_n(q, t, n),
    decreases n,
{ if n > 0 { lemma_all_prefix(s, q, t, (n - 1) as nat); } }
/// what a filter keeps, it also keeps of every component
pub open spec fn hereditary(f: Filter) -> bool {
    forall|v: Vec<Sexp>, i: int| keeps(f, Sexp::List(v)) && 0 <= i < v@.len() ==> keeps(f, #[trigger] v@[i])
}
proof fn lemma_meas_child(v: Seq<Sexp>, m: Metric, n: nat, i: int)
    requires 0 <= i < n <= v.len(),
    ensures meas(v[i], m) <= sum_m(v, m, n), meas(v[i], Metric::Depth) <= max_m(v, n),
    decreases n,
{ if i < n - 1 { lemma_meas_child(v, m, (n - 1) as nat, i); } }
proof fn lemma_lt_hereditary(m: Metric, k: usize)
    ensures hereditary(Filter::MetricLt(m, k)),
{
    assert forall|v: Vec<Sexp>, i: int| keeps(Filter::MetricLt(m, k), Sexp::List(v)) && 0 <= i < v@.len() implies keeps(Filter::MetricLt(m, k), #[trigger] v@[i]) by {
        lemma_meas_child(v@, m, v@.len(), i);
    }
}
proof fn lemma_excl_hereditary(p: Pattern)
    ensures hereditary(Filter::Excludes(p)),
{
    assert forall|v: Vec<Sexp>, i: int| keeps(Filter::Excludes(p), Sexp::List(v)) && 0 <= i < v@.len() implies keeps(Filter::Excludes(p), #[trigger] v@[i]) by {
        lemma_has_n(p, v@, v@.len());
        if occursm(p, v@[i]) { assert(occursm(p, v@[i])); }
    }
}
proof fn lemma_and_hereditary(fs: Vec<Filter>)
    requires forall|j: int| 0 <= j < fs@.len() ==> hereditary(#[trigger] fs@[j]),
    ensures hereditary(Filter::And(fs)),
{
    assert forall|v: Vec<Sexp>, i: int| keeps(Filter::And(fs), Sexp::List(v)) && 0 <= i < v@.len() implies keeps(Filter::And(fs), #[trigger] v@[i]) by {
        lemma_all(fs@, Sexp::List(v), fs@.len());
        lemma_all(fs@, v@[i], fs@.len());
        assert forall|j: int| 0 <= j < fs@.len() implies keeps(#[trigger] fs@[j], v@[i]) by { assert(keeps(fs@[j], Sexp::List(v))); assert(hereditary(fs@[j])); }
    }
}
@fn Filter::subsumed_by
@props C06 C09
@spec
    ensures r ==> forall|t: Sexp| #[trigger] all_n(fs@, t, fs@.len()) ==> keeps(*self, t),
@entry
  proof { assert forall|t: Sexp| #[trigger] all_n(fs@, t, fs@.len()) implies forall|i: int| 0 <= i < fs@.len() ==> keeps(#[trigger] fs@[i], t) by { lemma_all(fs@, t, fs@.len()); } }
@body 0
  proof { assert(forall|t: Sexp| #[trigger] all_n(fs@, t, fs@.len()) ==> keeps(fs@[$i as int], t)); }
@fn Filter::and
@props C06 C09
@spec
    ensures forall|t: Sexp| #[trigger] keeps(r, t) == (keeps(self, t) && keeps(other, t)),
@loop 0
  forall|t: Sexp| #[trigger] all_n($acc@, t, $acc@.len()) == all_n($s, t, $i)
  forall|t: Sexp| #[trigger] all_n($s, t, $s.len()) == (keeps(self, t) && keeps(other, t))
@before 0
  proof {
    assert forall|t: Sexp| #[trigger] all_n($s, t, $s.len()) == (keeps(self, t) && keeps(other, t)) by {
      reveal_with_fuel(all_n, 3);
      if let Filter::And(a) = self { if let Filter::And(b) = other { lemma_all_cat(a@, b@, t); } else { lemma_all_push(a@, other, t); } }
      else if let Filter::And(b) = other { lemma_all_push(b@, self, t); }
    }
  }
@body 0
  let ghost m0 = $acc@;
  let ghost k0 = $i;
@tail 0
  proof {
    assert forall|t: Sexp| #[trigger] all_n($acc@, t, $acc@.len()) == all_n($s, t, $i) by {
      assert(all_n(m0, t, m0.len()) == all_n($s, t, k0));
      lemma_all_push(m0, $s[k0 as int], t);
    }
  }
@after 0
  proof {
    assert forall|t: Sexp| #[trigger] keeps(Filter::And($acc), t) == (keeps(self, t) && keeps(other, t)) by { assert(all_n($s, t, $s.len()) == (keeps(self, t) && keeps(other, t))); assert(all_n($acc@, t, $acc@.len()) == all_n($s, t, $i)); }
  }
@fn Filter::is_monotonic
@props C09 C10
@spec
    ensures r ==> hereditary(*self),
    decreases self,
@entry
  proof { match self { Filter::MetricLt(m, k) => { lemma_lt_hereditary(*m, *k); } Filter::Excludes(p) => { lemma_excl_hereditary(*p); } Filter::And(v) => { if (forall|j: int| 0 <= j < v@.len() ==> hereditary(#[trigger] v@[j])) { lemma_and_hereditary(*v); } } _ => {} } }
@loop 0
  $acc ==> forall|j: int| 0 <= j < $i ==> hereditary(#[trigger] $s[j])

@type Workload PartialEq Clone
@raw
// ======== workloads (C05, C09) ========
pub open spec fn selp<T>(p: spec_fn(T) -> bool, s: Seq<T>, n: nat) -> Seq<T> decreases n when n <= s.len() {
    if n == 0 { Seq::empty() } else if p(s[n - 1]) { selp(p, s, (n - 1) as nat).push(s[n - 1]) } else { selp(p, s, (n - 1) as nat) }
}
pub open spec fn kp(f: Filter) -> spec_fn(Sexp) -> bool { |t: Sexp| keeps(f, t) }
/// the terms of s that f keeps, in order
pub open spec fn kept(f: Filter, s: Seq<Sexp>) -> Seq<Sexp> { selp(kp(f), s, s.len()) }
/// the terms a workload denotes, in order
pub open spec fn denote(w: Workload) -> Seq<Sexp> decreases w {
    match w {
        Workload::Set(v) => v@,
        Workload::Plug(b, name, pegs) => plug_all(denote(*b), name, denote(*pegs), denote(*b).len()),
        Workload::Filter(f, b) => kept(f, denote(*b)),
        Workload::Append(ws) => denote_n(ws@, ws@.len()),
    }
}
pub open spec fn denote_n(ws: Seq<Workload>, n: nat) -> Seq<Sexp> decreases ws, n when n <= ws.len() {
    if n == 0 { Seq::empty() } else { denote_n(ws, (n - 1) as nat) + denote(ws[n - 1]) }
}
pub open spec fn plug_all(ts: Seq<Sexp>, name: String, pegs: Seq<Sexp>, n: nat) -> Seq<Sexp> decreases n when n <= ts.len() {
    if n == 0 { Seq::empty() } else { plug_all(ts, name, pegs, (n - 1) as nat) + plug(ts[n - 1], name, pegs) }
}
proof fn lemma_selp_prefix<T>(p: spec_fn(T) -> bool, a: Seq<T>, b: Seq<T>, n: nat)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures selp(p, a, n) == selp(p, b, n),
    decreases n,
{ if n > 0 { lemma_selp_prefix(p, a, b, (n - 1) as nat); } }
proof fn lemma_selp_add<T>(p: spec_fn(T) -> bool, a: Seq<T>, b: Seq<T>, n: nat)
    requires n <= b.len(),
    ensures selp(p, a + b, a.len() + n) == selp(p, a, a.len()) + selp(p, b, n),
    decreases n,
{
    if n == 0 { lemma_selp_prefix(p, a + b, a, a.len()); assert(selp(p, a, a.len()) + selp(p, b, 0) =~= selp(p, a, a.len())); }
    else {
        lemma_selp_add(p, a, b, (n - 1) as nat);
        assert((a + b)[a.len() + n - 1] == b[n - 1]);
        assert(selp(p, a + b, a.len() + n) =~= selp(p, a, a.len()) + selp(p, b, n));
    }
}
proof fn lemma_selp_push<T>(p: spec_fn(T) -> bool, a: Seq<T>, x: T)
    ensures selp(p, a.push(x), a.len() + 1) == if p(x) { selp(p, a, a.len()).push(x) } else { selp(p, a, a.len()) },
{ lemma_selp_prefix(p, a.push(x), a, a.len()); }
/// selecting by p after q is selecting by p where p implies q
proof fn lemma_selp_imp<T>(p: spec_fn(T) -> bool, q: spec_fn(T) -> bool, s: Seq<T>, n: nat)
    requires n <= s.len(), forall|i: int| 0 <= i < n && p(s[i]) ==> q(#[trigger] s[i]),
    ensures selp(p, selp(q, s, n), selp(q, s, n).len()) == selp(p, s, n),
    decreases n,
{
    if n > 0 {
        lemma_selp_imp(p, q, s, (n - 1) as nat);
        lemma_selp_push(p, selp(q, s, (n - 1) as nat), s[n - 1]);
        assert(p(s[n - 1]) ==> q(s[n - 1]));
    }
}
pub open spec fn conj<T>(r: spec_fn(T) -> bool, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool) -> bool { forall|t: T| #[trigger] r(t) == (p(t) && q(t)) }
proof fn lemma_selp_and<T>(r: spec_fn(T) -> bool, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool, s: Seq<T>, n: nat)
    requires n <= s.len(), conj(r, p, q),
    ensures selp(p, selp(q, s, n), selp(q, s, n).len()) == selp(r, s, n),
    decreases n,
{
    if n > 0 {
        lemma_selp_and(r, p, q, s, (n - 1) as nat);
        lemma_selp_push(p, selp(q, s, (n - 1) as nat), s[n - 1]);
        assert(r(s[n - 1]) == (p(s[n - 1]) && q(s[n - 1])));
    }
}
proof fn lemma_selp_same<T>(p: spec_fn(T) -> bool, q: spec_fn(T) -> bool, s: Seq<T>, n: nat)
    requires n <= s.len(), forall|i: int| 0 <= i < n ==> p(s[i]) == q(#[trigger] s[i]),
    ensures selp(p, s, n) == selp(q, s, n),
    decreases n,
{ if n > 0 { assert(p(s[n - 1]) == q(s[n - 1])); lemma_selp_same(p, q, s, (n - 1) as nat); } }
// ---- pushing a hereditary filter into a plug ----
pub open spec fn each(f: Filter) -> spec_fn(Seq<Sexp>) -> bool { |c: Seq<Sexp>| forall|i: int| 0 <= i < c.len() ==> keeps(f, #[trigger] c[i]) }
pub open spec fn row(c: Seq<Sexp>, xs: Seq<Sexp>, m: nat) -> Seq<Seq<Sexp>> { Seq::new(m, |k: int| c.push(xs[k])) }
proof fn lemma_each_push(f: Filter, c: Seq<Sexp>, x: Sexp)
    ensures each(f)(c.push(x)) == (each(f)(c) && keeps(f, x)),
{
    if each(f)(c.push(x)) {
        assert forall|i: int| 0 <= i < c.len() implies keeps(f, #[trigger] c[i]) by { assert(c.push(x)[i] == c[i]); }
        assert(c.push(x)[c.len() as int] == x);
    }
}
proof fn lemma_row(f: Filter, c: Seq<Sexp>, xs: Seq<Sexp>, m: nat)
    requires m <= xs.len(),
    ensures ({ let y = selp(kp(f), xs, m); selp(each(f), row(c, xs, xs.len()), m) == if each(f)(c) { row(c, y, y.len()) } else { Seq::<Seq<Sexp>>::empty() } }),
    decreases m,
{
    if m > 0 {
        lemma_row(f, c, xs, (m - 1) as nat);
        lemma_each_push(f, c, xs[m - 1]);
        let y0 = selp(kp(f), xs, (m - 1) as nat);
        let y = selp(kp(f), xs, m);
        assert(row(c, xs, xs.len())[m - 1] == c.push(xs[m - 1]));
        if keeps(f, xs[m - 1]) { assert(row(c, y, y.len()) =~= row(c, y0, y0.len()).push(c.push(xs[m - 1]))); }
    } else {
        assert(row(c, selp(kp(f), xs, 0), 0) =~= Seq::<Seq<Sexp>>::empty());
    }
}
proof fn lemma_cart_prefix<T>(a: Seq<Seq<T>>, b: Seq<Seq<T>>, xs: Seq<T>, n: nat)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures cart_step(a, xs, n) == cart_step(b, xs, n),
    decreases n,
{
    if n > 0 {
        lemma_cart_prefix(a, b, xs, (n - 1) as nat);
        assert(Seq::new(xs.len(), |k: int| a[n - 1].push(xs[k])) =~= Seq::new(xs.len(), |k: int| b[n - 1].push(xs[k])));
    }
}
proof fn lemma_cart_sel(f: Filter, pre: Seq<Seq<Sexp>>, xs: Seq<Sexp>, n: nat)
    requires n <= pre.len(),
    ensures ({ let q = selp(each(f), pre, n); selp(each(f), cart_step(pre, xs, n), cart_step(pre, xs, n).len()) == cart_step(q, kept(f, xs), q.len()) }),
    decreases n,
{
    if n > 0 {
        let c = pre[n - 1];
        let a = cart_step(pre, xs, (n - 1) as nat);
        let r = row(c, xs, xs.len());
        assert(r =~= Seq::new(xs.len(), |k: int| pre[n - 1].push(xs[k])));
        assert(cart_step(pre, xs, n) == a + r);
        lemma_selp_add(each(f), a, r, r.len());
        lemma_row(f, c, xs, xs.len());
        lemma_cart_sel(f, pre, xs, (n - 1) as nat);
        let q0 = selp(each(f), pre, (n - 1) as nat);
        let q = selp(each(f), pre, n);
        let y = kept(f, xs);
        if each(f)(c) {
            lemma_cart_prefix(q, q0, y, q0.len());
            assert(row(c, y, y.len()) =~= Seq::new(y.len(), |k: int| q[q.len() - 1].push(y[k])));
        } else {
            assert(selp(each(f), a, a.len()) + Seq::<Seq<Sexp>>::empty() =~= selp(each(f), a, a.len()));
        }
    }
}
proof fn lemma_choices_len(s: Seq<Sexp>, name: String, pegs: Seq<Sexp>, n: nat)
    requires n <= s.len(),
    ensures forall|i: int| 0 <= i < choices(s, name, pegs, n).len() ==> (#[trigger] choices(s, name, pegs, n)[i]).len() == n,
    decreases n,
{
    if n > 0 {
        lemma_choices_len(s, name, pegs, (n - 1) as nat);
        let p = choices(s, name, pegs, (n - 1) as nat);
        lemma_cart_step_len(p, plug(s[n - 1], name, pegs), p.len(), (n - 1) as nat);
    }
}
proof fn lemma_cart_step_len<T>(p: Seq<Seq<T>>, xs: Seq<T>, n: nat, l: nat)
    requires n <= p.len(), forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).len() == l,
    ensures forall|i: int| 0 <= i < cart_step(p, xs, n).len() ==> (#[trigger] cart_step(p, xs, n)[i]).len() == l + 1,
    decreases n,
{
    if n > 0 {
        lemma_cart_step_len(p, xs, (n - 1) as nat, l);
        let a = cart_step(p, xs, (n - 1) as nat);
        assert forall|i: int| 0 <= i < cart_step(p, xs, n).len() implies (#[trigger] cart_step(p, xs, n)[i]).len() == l + 1 by {
            if i < a.len() { assert(cart_step(p, xs, n)[i] == a[i]); } else { assert(cart_step(p, xs, n)[i] == p[n - 1].push(xs[i - a.len()])); }
        }
    }
}
proof fn lemma_sel_choices(f: Filter, s: Seq<Sexp>, name: String, pegs: Seq<Sexp>, n: nat)
    requires n <= s.len(), hereditary(f),
    ensures ({ let a = choices(s, name, pegs, n); let b = choices(s, name, kept(f, pegs), n); selp(each(f), a, a.len()) == selp(each(f), b, b.len()) }),
    decreases s, n,
{
    if n > 0 {
        lemma_sel_choices(f, s, name, pegs, (n - 1) as nat);
        theorem_push_filter(f, s[n - 1], name, pegs);
        let a = choices(s, name, pegs, (n - 1) as nat);
        let b = choices(s, name, kept(f, pegs), (n - 1) as nat);
        lemma_cart_sel(f, a, plug(s[n - 1], name, pegs), a.len());
        lemma_cart_sel(f, b, plug(s[n - 1], name, kept(f, pegs)), b.len());
    }
}
pub open spec fn kl(f: Filter) -> spec_fn(Seq<Sexp>) -> bool { |c: Seq<Sexp>| keeps(f, Sexp::List(mkvec(c))) }
proof fn lemma_sel_lists(f: Filter, cs: Seq<Seq<Sexp>>, n: nat)
    requires n <= cs.len(),
    ensures selp(kp(f), lists(cs), n) == lists(selp(kl(f), cs, n)),
    decreases n,
{
    if n > 0 { lemma_sel_lists(f, cs, (n - 1) as nat); }
    assert(selp(kp(f), lists(cs), n) =~= lists(selp(kl(f), cs, n)));
}
/// C09: a filter that passes to components may be applied to the pegs first
proof fn theorem_push_filter(f: Filter, t: Sexp, name: String, pegs: Seq<Sexp>)
    requires hereditary(f),
    ensures kept(f, plug(t, name, pegs)) == kept(f, plug(t, name, kept(f, pegs))),
    decreases t,
{
    match t {
        Sexp::Atom(a) => { if a == name { lemma_selp_imp(kp(f), kp(f), pegs, pegs.len()); } }
        Sexp::List(v) => {
            let a = choices(v@, name, pegs, v@.len());
            let b = choices(v@, name, kept(f, pegs), v@.len());
            lemma_sel_choices(f, v@, name, pegs, v@.len());
            lemma_choices_len(v@, name, pegs, v@.len());
            lemma_choices_len(v@, name, kept(f, pegs), v@.len());
            lemma_kl_each(f, a, v@.len());
            lemma_kl_each(f, b, v@.len());
            lemma_selp_imp(kl(f), each(f), a, a.len());
            lemma_selp_imp(kl(f), each(f), b, b.len());
            lemma_sel_lists(f, a, a.len());
            lemma_sel_lists(f, b, b.len());
        }
    }
}
proof fn lemma_kl_each(f: Filter, cs: Seq<Seq<Sexp>>, l: nat)
    requires hereditary(f), l <= usize::MAX, forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).len() == l,
    ensures forall|i: int| 0 <= i < cs.len() && kl(f)(cs[i]) ==> each(f)(#[trigger] cs[i]),
{
    assert forall|i: int| 0 <= i < cs.len() && kl(f)(cs[i]) implies each(f)(#[trigger] cs[i]) by {
        let v = mkvec(cs[i]);
        assert(v@ == cs[i]);
        assert forall|j: int| 0 <= j < cs[i].len() implies keeps(f, #[trigger] cs[i][j]) by { assert(keeps(f, v@[j])); }
    }
}
proof fn lemma_push_all(f: Filter, ts: Seq<Sexp>, name: String, pegs: Seq<Sexp>, n: nat)
    requires hereditary(f), n <= ts.len(),
    ensures kept(f, plug_all(ts, name, pegs, n)) == kept(f, plug_all(ts, name, kept(f, pegs), n)),
    decreases n,
{
    if n > 0 {
        lemma_push_all(f, ts, name, pegs, (n - 1) as nat);
        theorem_push_filter(f, ts[n - 1], name, pegs);
        let x = plug(ts[n - 1], name, pegs);
        let y = plug(ts[n - 1], name, kept(f, pegs));
        lemma_selp_add(kp(f), plug_all(ts, name, pegs, (n - 1) as nat), x, x.len());
        lemma_selp_add(kp(f), plug_all(ts, name, kept(f, pegs), (n - 1) as nat), y, y.len());
    }
}
// ---- plugging nothing ----
proof fn lemma_plug_none(t: Sexp, name: String)
    ensures plug(t, name, Seq::<Sexp>::empty()) == if occursm(Pattern::Lit(name), t) { Seq::<Sexp>::empty() } else { seq![t] },
    decreases t,
{
    lemma_lit(name, t);
    if let Sexp::List(v) = t {
        lemma_choices_none(v@, name, v@.len());
        if occursm(Pattern::Lit(name), t) {
            assert(lists(choices(v@, name, Seq::<Sexp>::empty(), v@.len())) =~= Seq::<Sexp>::empty());
        } else {
            assert(v@.take(v@.len() as int) =~= v@);
            assert(mkvec(v@) == v);
            assert(lists(choices(v@, name, Seq::<Sexp>::empty(), v@.len())) =~= seq![t]);
        }
    }
}
proof fn lemma_lit(name: String, t: Sexp)
    ensures pmatch(Pattern::Lit(name), t) == (t == Sexp::Atom(name)),
{
    let m = Map::<String, Sexp>::empty();
    if t == Sexp::Atom(name) { assert(fits(Pattern::Lit(name), t, m)); }
}
proof fn lemma_choices_none(s: Seq<Sexp>, name: String, n: nat)
    requires n <= s.len(),
    ensures choices(s, name, Seq::<Sexp>::empty(), n) == if has_n(Pattern::Lit(name), s, n) { Seq::<Seq<Sexp>>::empty() } else { seq![s.take(n as int)] },
    decreases s, n,
{
    if n == 0 { assert(s.take(0) =~= Seq::<Sexp>::empty()); }
    else {
        lemma_choices_none(s, name, (n - 1) as nat);
        lemma_plug_none(s[n - 1], name);
        let p = choices(s, name, Seq::<Sexp>::empty(), (n - 1) as nat);
        let x = plug(s[n - 1], name, Seq::<Sexp>::empty());
        reveal_with_fuel(cart_step, 3);
        if has_n(Pattern::Lit(name), s, (n - 1) as nat) { assert(cart_step(p, x, p.len()) =~= Seq::<Seq<Sexp>>::empty()); }
        else {
            assert(p.len() == 1);
            assert(cart_step(p, x, 1) =~= Seq::new(x.len(), |k: int| p[0].push(x[k])));
            if occursm(Pattern::Lit(name), s[n - 1]) { assert(cart_step(p, x, 1) =~= Seq::<Seq<Sexp>>::empty()); }
            else { assert(s.take(n - 1).push(s[n - 1]) =~= s.take(n as int)); assert(cart_step(p, x, 1) =~= seq![s.take(n as int)]); }
        }
    }
}
proof fn lemma_plug_all_none(ts: Seq<Sexp>, name: String, n: nat)
    requires n <= ts.len(),
    ensures plug_all(ts, name, Seq::<Sexp>::empty(), n) == selp(kp(Filter::Excludes(Pattern::Lit(name))), ts, n),
    decreases n,
{
    if n > 0 {
        lemma_plug_all_none(ts, name, (n - 1) as nat);
        lemma_plug_none(ts[n - 1], name);
        assert(plug_all(ts, name, Seq::<Sexp>::empty(), n) =~= selp(kp(Filter::Excludes(Pattern::Lit(name))), ts, n));
    }
}
// ---- appending ----
proof fn lemma_denote_cat(a: Seq<Workload>, b: Seq<Workload>, n: nat)
    requires n <= b.len(),
    ensures denote_n(a + b, a.len() + n) == denote_n(a, a.len()) + denote_n(b, n),
    decreases n,
{
    if n == 0 { lemma_denote_prefix(a + b, a, a.len()); assert(denote_n(a, a.len()) + denote_n(b, 0) =~= denote_n(a, a.len())); }
    else {
        lemma_denote_cat(a, b, (n - 1) as nat);
        assert((a + b)[a.len() + n - 1] == b[n - 1]);
        assert(denote_n(a + b, a.len() + n) =~= denote_n(a, a.len()) + denote_n(b, n));
    }
}
proof fn lemma_denote_prefix(a: Seq<Workload>, b: Seq<Workload>, n: nat)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures denote_n(a, n) == denote_n(b, n),
    decreases n,
{ if n > 0 { lemma_denote_prefix(a, b, (n - 1) as nat); } }
proof fn lemma_denote_push(a: Seq<Workload>, w: Workload)
    ensures denote_n(a.push(w), a.len() + 1) == denote_n(a, a.len()) + denote(w),
{ lemma_denote_prefix(a.push(w), a, a.len()); }
proof fn lemma_mset<T>(a: Seq<T>, b: Seq<T>)
    ensures (a + b).to_multiset() == a.to_multiset().add(b.to_multiset()), (b + a).to_multiset() == a.to_multiset().add(b.to_multiset()),
{
    vstd::seq_lib::lemma_multiset_commutative(a, b);
    vstd::seq_lib::lemma_multiset_commutative(b, a);
    assert((b + a).to_multiset() =~= a.to_multiset().add(b.to_multiset()));
}
proof fn lemma_denote_one(w: Workload)
    ensures denote_n(seq![w], 1) == denote(w),
{ reveal_with_fuel(denote_n, 3); assert(denote_n(seq![w], 1) =~= denote(w)); }
proof fn lemma_denote_two(w: Workload, x: Workload)
    ensures denote_n(seq![w, x], 2) == denote(w) + denote(x),
{ reveal_with_fuel(denote_n, 3); assert(denote_n(seq![w, x], 2) =~= denote(w) + denote(x)); }
proof fn lemma_filter(w: Workload, filter: Filter)
    ensures
        w matches Workload::Plug(b, name, pegs) ==> hereditary(filter) ==> kept(filter, denote(w)) == kept(filter, plug_all(denote(*b), name, kept(filter, denote(*pegs)), denote(*b).len())),
        w matches Workload::Filter(f, b) ==> forall|g: Filter| (forall|t: Sexp| #[trigger] keeps(g, t) == (keeps(f, t) && keeps(filter, t))) ==> #[trigger] kept(g, denote(*b)) == kept(filter, kept(f, denote(*b))),
{
    match w {
        Workload::Plug(b, name, pegs) => { if hereditary(filter) { lemma_push_all(filter, denote(*b), name, denote(*pegs), denote(*b).len()); } }
        Workload::Filter(f, w) => {
            assert forall|g: Filter| (forall|t: Sexp| #[trigger] keeps(g, t) == (keeps(f, t) && keeps(filter, t))) implies #[trigger] kept(g, denote(*w)) == kept(filter, kept(f, denote(*w))) by {
                assert forall|t: Sexp| #[trigger] kp(g)(t) == (kp(filter)(t) && kp(f)(t)) by { assert(keeps(g, t) == (keeps(f, t) && keeps(filter, t))); }
                lemma_selp_and(kp(g), kp(filter), kp(f), denote(*w), denote(*w).len());
            }
        }
        _ => {}
    }
}
proof fn lemma_append(w: Workload, x: Workload)
    ensures
        denote_n(Seq::<Workload>::empty().push(w).push(x), 2) == denote(w) + denote(x),
        (denote(w) + denote(x)).to_multiset() == denote(w).to_multiset().add(denote(x).to_multiset()),
        (denote(x) + denote(w)).to_multiset() == denote(w).to_multiset().add(denote(x).to_multiset()),
        w matches Workload::Append(xs) ==> denote_n(xs@.push(x), xs@.len() + 1) == denote(w) + denote(x),
        x matches Workload::Append(ys) ==> denote_n(ys@.push(w), ys@.len() + 1) == denote(x) + denote(w),
        (w matches Workload::Append(xs) && x matches Workload::Append(ys)) ==> denote_n(w->Append_0@ + x->Append_0@, w->Append_0@.len() + x->Append_0@.len()) == denote(w) + denote(x),
{
    lemma_mset(denote(w), denote(x));
    lemma_denote_two(w, x);
    assert(Seq::<Workload>::empty().push(w).push(x) =~= seq![w, x]);
    if let Workload::Append(xs) = w {
        lemma_denote_push(xs@, x);
        if let Workload::Append(ys) = x { lemma_denote_cat(xs@, ys@, ys@.len()); }
    }
    if let Workload::Append(ys) = x { lemma_denote_push(ys@, w); }
}
@fn Workload::empty
@props C09 C10
@spec
    ensures denote(r) =~= Seq::<Sexp>::empty(), r is Set,
@entry
  proof { reveal_with_fuel(denote, 2); }
@fn Workload::force
@props C05 C09 C10
@spec
    ensures r@ == denote(*self),
    decreases self,
@ty 0 Vec<Sexp>
@loop 0
  $acc@ == plug_all($s, *name, pegs@, $i)
@loop 1
  $acc@ == selp(kp(*f), $s, $i)
@loop 2
  $acc@ == denote_n($s, $i)
@fn Workload::filter
@props C09 C10
@spec
    ensures denote(r) =~= kept(filter, denote(self)),
    decreases self,
@entry
  proof { reveal_with_fuel(denote, 3); lemma_filter(self, filter); }
@fn Workload::plug
@props C09 C10
@spec
    ensures denote(r) =~= plug_all(denote(self), name, denote(*workload), denote(self).len()),
        !(workload is Set && denote(*workload).len() == 0) ==> !(r is Append),
@entry
  proof {
    lemma_plug_all_none(denote(self), name, denote(self).len());
    if let Workload::Set(v) = workload { if v@.len() == 0 { assert(v@ =~= Seq::<Sexp>::empty()); } }
  }
@fn Workload::append
@props C09 C10
@spec
    ensures denote(r).to_multiset() == denote(self).to_multiset().add(denote(workload).to_multiset()),
        !(workload is Append) ==> denote(r) =~= denote(self) + denote(workload),
@entry
  proof { reveal_with_fuel(denote, 2); lemma_append(self, workload); }

@raw
// ======== grammar iteration (C10) ========
/// n rounds of plugging the previous terms into the hole, keeping size at most i in round i
pub open spec fn rounds(w: Workload, hole: String, m: Metric, n: nat) -> Seq<Sexp> decreases n {
    if n == 0 { denote(w) } else { kept(Filter::MetricLt(m, (n + 1) as usize), plug_all(denote(w), hole, rounds(w, hole, m, (n - 1) as nat), denote(w).len())) }
}
proof fn lemma_selp_all<T>(p: spec_fn(T) -> bool, s: Seq<T>, n: nat)
    requires n <= s.len(),
    ensures forall|i: int| 0 <= i < selp(p, s, n).len() ==> p(#[trigger] selp(p, s, n)[i]),
    decreases n,
{
    if n > 0 {
        lemma_selp_all(p, s, (n - 1) as nat);
        let a = selp(p, s, (n - 1) as nat);
        assert forall|i: int| 0 <= i < selp(p, s, n).len() implies p(#[trigger] selp(p, s, n)[i]) by { if i < a.len() { assert(selp(p, s, n)[i] == a[i]); } }
    }
}
/// C10: every term of round n has size at most n
proof fn theorem_rounds_bounded(w: Workload, hole: String, m: Metric, n: nat)
    requires 0 < n < usize::MAX,
    ensures forall|i: int| 0 <= i < rounds(w, hole, m, n).len() ==> meas(#[trigger] rounds(w, hole, m, n)[i], m) <= n,
{
    let all = plug_all(denote(w), hole, rounds(w, hole, m, (n - 1) as nat), denote(w).len());
    let f = Filter::MetricLt(m, (n + 1) as usize);
    lemma_selp_all(kp(f), all, all.len());
    assert forall|i: int| 0 <= i < rounds(w, hole, m, n).len() implies meas(#[trigger] rounds(w, hole, m, n)[i], m) <= n by {
        assert(kp(f)(rounds(w, hole, m, n)[i]));
    }
}
/// each substitution term in turn, put for every occurrence of the atom
pub open spec fn subst_all(ts: Seq<Sexp>, atom: String, subs: Seq<Sexp>, n: nat) -> Seq<Sexp> decreases n when n <= subs.len() {
    if n == 0 { Seq::empty() } else { subst_all(ts, atom, subs, (n - 1) as nat) + plug_all(ts, atom, seq![subs[n - 1]], ts.len()) }
}
pub open spec fn put(t: Sexp, atom: String, x: Sexp) -> Sexp decreases t {
    match t {
        Sexp::Atom(a) => if a == atom { x } else { t },
        Sexp::List(v) => Sexp::List(mkvec(put_n(v@, atom, x, v@.len()))),
    }
}
pub open spec fn put_n(s: Seq<Sexp>, atom: String, x: Sexp, n: nat) -> Seq<Sexp> decreases s, n when n <= s.len() {
    if n == 0 { Seq::empty() } else { put_n(s, atom, x, (n - 1) as nat).push(put(s[n - 1], atom, x)) }
}
proof fn lemma_put_one(t: Sexp, atom: String, x: Sexp)
    ensures plug(t, atom, seq![x]) =~= seq![put(t, atom, x)],
    decreases t,
{
    if let Sexp::List(v) = t {
        lemma_put_choices(v@, atom, x, v@.len());
        assert(lists(seq![put_n(v@, atom, x, v@.len())]) =~= seq![put(t, atom, x)]);
    }
}
proof fn lemma_put_choices(s: Seq<Sexp>, atom: String, x: Sexp, n: nat)
    requires n <= s.len(),
    ensures choices(s, atom, seq![x], n) =~= seq![put_n(s, atom, x, n)],
    decreases s, n,
{
    if n > 0 {
        lemma_put_choices(s, atom, x, (n - 1) as nat);
        lemma_put_one(s[n - 1], atom, x);
        reveal_with_fuel(cart_step, 3);
        let p = choices(s, atom, seq![x], (n - 1) as nat);
        assert(p.len() == 1);
        assert(Seq::new(1, |k: int| p[0].push(seq![put(s[n - 1], atom, x)][k])) =~= seq![put_n(s, atom, x, n)]);
    }
}
/// C10: plugging a single term is simultaneous substitution, one result per term
proof fn theorem_substitute(ts: Seq<Sexp>, atom: String, x: Sexp, n: nat)
    requires n <= ts.len(),
    ensures plug_all(ts, atom, seq![x], n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] plug_all(ts, atom, seq![x], n)[i] == put(ts[i], atom, x),
    decreases n,
{ if n > 0 { theorem_substitute(ts, atom, x, (n - 1) as nat); lemma_put_one(ts[n - 1], atom, x); } }
@fn iter_metric
@props C10
@spec
    requires n < usize::MAX - 1,
    ensures denote(r) =~= rounds(wkld, *atom, met, n as nat),
@loop 0
  denote($acc) =~= rounds(wkld, *atom, met, $done)
@fn substitute
@props C10
@spec
    ensures denote(r) =~= subst_all(denote(workload), *atom, denote(sub), denote(sub).len()),
@loop 0
  denote($acc) =~= subst_all(denote(workload), *atom, $s, $i)

@stub parse parse_str
@raw
// ======== reading terms ========
/// what the reader of the symbolic_expressions crate makes of a text
pub enum SymSexp { String(String), List(Vec<SymSexp>), Empty }
impl VClone for SymSexp { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
pub struct SymErr;
pub uninterp spec fn sym_read(s: Seq<char>) -> Result<SymSexp, SymErr>;
#[verifier::external_body] pub fn parse_str(s: &String) -> (r: Result<SymSexp, SymErr>) ensures r == sym_read(s@) { unimplemented!() }
/// atoms stay atoms, lists stay lists, in the same order
pub open spec fn conv(x: SymSexp) -> Sexp decreases x {
    match x { SymSexp::String(s) => Sexp::Atom(s), SymSexp::List(v) => Sexp::List(mkvec(conv_n(v@, v@.len()))), SymSexp::Empty => Sexp::List(mkvec(Seq::empty())) }
}
pub open spec fn conv_n(s: Seq<SymSexp>, n: nat) -> Seq<Sexp> decreases s, n when n <= s.len() { if n == 0 { Seq::empty() } else { conv_n(s, (n - 1) as nat).push(conv(s[n - 1])) } }
pub open spec fn parsed(s: Seq<char>) -> Result<Sexp, String> { match sym_read(s) { Ok(x) => Ok(conv(x)), Err(_) => Err(arbitrary()) } }
impl String {
    // str::parse calls from_str, under contract below
    #[verifier::external_body]
    pub fn parse(&self) -> (r: Result<Sexp, String>) ensures r is Ok <==> sym_read(self@) is Ok, r is Ok ==> r == parsed(self@) { unimplemented!() }
}
@fn Sexp::from_symbolic_expr
@props C04 C10 C23
@sig fn from_symbolic_expr(sexp: SymSexp) -> (r: Self)
@spec
    ensures r == conv(sexp),
    decreases sexp,
@loop 0
  $acc@ == conv_n($s, $i)
@fn Sexp::FromStr::from_str
@props C04 C10 C23
@flags impl=impl~Sexp panics-ok
@sig pub fn from_str(s: &String) -> (r: Result<Self, String>)
@spec
    ensures r is Ok <==> sym_read(s@) is Ok, r is Ok ==> r == parsed(s@),
@raw
// ======== reading patterns ========
/// `*` is a wildcard, a word starting with `?` a variable, any other word a literal, lists stay lists
pub open spec fn pconv(x: SymSexp) -> Pattern decreases x {
    match x {
        SymSexp::String(s) => if s@ == "*"@ { Pattern::Wild } else if s@.len() > 0 && s@[0] == '?' { Pattern::Var(s) } else { Pattern::Lit(s) },
        SymSexp::List(v) => Pattern::List(mkvec(pconv_n(v@, v@.len()))),
        SymSexp::Empty => Pattern::List(mkvec(Seq::empty())),
    }
}
pub open spec fn pconv_n(s: Seq<SymSexp>, n: nat) -> Seq<Pattern> decreases s, n when n <= s.len() { if n == 0 { Seq::empty() } else { pconv_n(s, (n - 1) as nat).push(pconv(s[n - 1])) } }
@fn Pattern::from_symbolic_expr
@props C07 C06
@sig fn from_symbolic_expr(sexp: SymSexp) -> (r: Self)
@spec
    ensures r == pconv(sexp),
    decreases sexp,
@entry
  proof { reveal_strlit("?"); assert("?"@ =~= seq!['?']); if sexp is String { let t = sexp->String_0@; if occurs_at(t, seq!['?'], 0) { assert(t[0] == t.subrange(0, 1)[0]); } else if t.len() > 0 && t[0] == '?' { assert(t.subrange(0, 1) =~= seq!['?']); } } }
@loop 0
  $acc@ == pconv_n($s, $i)
@fn Pattern::FromStr::from_str
@props C07 C06
@flags impl=impl~Pattern panics-ok
@sig pub fn from_str(s: &String) -> (r: Result<Self, String>)
@spec
    ensures r is Ok <==> sym_read(s@) is Ok, r matches Ok(p) ==> p == pconv(sym_read(s@)->Ok_0),
@raw
pub open spec fn read_all(s: Seq<String>) -> Seq<Sexp> { Seq::new(s.len(), |i: int| parsed(s[i]@)->Ok_0) }
/// "VAR", "VAL", then one operator of each arity
pub open spec fn arity_text(i: nat) -> Seq<char> { "(OP"@ + dec(i) + reps(" EXPR"@, i) + ")"@ }
pub open spec fn grammar(i: int) -> Sexp {
    parsed(if i == 0 { "VAR"@ } else if i == 1 { "VAL"@ } else { arity_text((i - 1) as nat) })->Ok_0
}
@fn Workload::new
@props C10
@sig pub fn new(vals: Vec<String>) -> (r: Self) | fn new < I > (vals : I) -> Self where I : IntoIterator , I :: Item : AsRef < str > ,
@flags panics-ok nogenerics
@spec
    ensures denote(r) =~= read_all(vals@),
@ty 0 Vec<Sexp>
@loop 0
  $acc@ =~= read_all($s.take($i as int))
@after 0
  proof { assert($s.take($i as int) =~= $s); }
@fn base_lang
@props C10
@spec
    requires n < usize::MAX - 1,
    ensures denote(r) =~= Seq::new(n as nat + 2, |i: int| grammar(i)),
@loop 0
  $acc@.len() == $done + 2
  $acc@[0]@ == "VAR"@
  $acc@[1]@ == "VAL"@
  forall|j: int| 2 <= j < $acc@.len() ==> (#[trigger] $acc@[j])@ == arity_text((j - 1) as nat)
@end
