@type Ruleset Clone
@raw
// ======== rulesets (C13) ========
pub mod rset {
use super::*;
  broadcast use {ax_im_wf, ax_mkim_of};
pub open spec fn vals_of(r: Ruleset) -> Seq<Rule> { im_vals(r.0@) }
/// every entry is under its rule's own name
pub open spec fn keyed(s: Seq<(String, Rule)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == s[i].1.name }
/// rules added one after the other
pub open spec fn puts(s: Seq<(String, Rule)>, rs: Seq<Rule>, n: nat) -> Seq<(String, Rule)> decreases n { if n == 0 { s } else { im_put(puts(s, rs, (n - 1) as nat), rs[n - 1].name, rs[n - 1]) } }
pub open spec fn dels(s: Seq<(String, Rule)>, t: Seq<(String, Rule)>, n: nat) -> Seq<(String, Rule)> decreases n { if n == 0 { s } else { im_del(dels(s, t, (n - 1) as nat), t[n - 1].0) } }
/// the elements of s at which the flag is b, in order
pub open spec fn pick(s: Seq<Rule>, fl: Seq<bool>, b: bool, n: nat) -> Seq<Rule> decreases n { if n == 0 { Seq::empty() } else { let p = pick(s, fl, b, (n - 1) as nat); if fl[n - 1] == b { p.push(s[n - 1]) } else { p } } }
/// every flag is an answer of the predicate on its rule
pub open spec fn answered<F: Fn(&Rule) -> bool>(f: F, s: Seq<Rule>, fl: Seq<bool>) -> bool { fl.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> f.ensures((&s[i],), #[trigger] fl[i]) }
pub open spec fn split<F: Fn(&Rule) -> bool>(f: F, s: Seq<Rule>, yes: Seq<(String, Rule)>, no: Seq<(String, Rule)>) -> bool {
    exists|fl: Seq<bool>| #[trigger] answered(f, s, fl) && yes == puts(Seq::empty(), pick(s, fl, true, s.len()), pick(s, fl, true, s.len()).len()) && no == puts(Seq::empty(), pick(s, fl, false, s.len()), pick(s, fl, false, s.len()).len())
}
/// the rule in the other direction
pub open spec fn rev_of(r: Rule) -> Option<Rule> { rule_new(r.rhs, r.lhs) }
pub open spec fn has_rev(s: Seq<(String, Rule)>, r: Rule) -> bool { match rev_of(r) { Some(b) => im_has(s, b.name), None => false } }
pub open spec fn revs(s: Seq<(String, Rule)>, n: nat) -> nat decreases n { if n == 0 { 0 } else { revs(s, (n - 1) as nat) + (if has_rev(s, s[n - 1].1) { 1nat } else { 0 }) } }
pub proof fn lemma_revs(s: Seq<(String, Rule)>, n: nat) ensures revs(s, n) <= n decreases n { if n > 0 { lemma_revs(s, (n - 1) as nat); } }
/// same names, in the same order
pub open spec fn same_names(a: Seq<(String, Rule)>, b: Seq<(String, Rule)>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == b[i].0 }

pub proof fn lemma_puts(s: Seq<(String, Rule)>, rs: Seq<Rule>, n: nat)
    requires im_wf(s), keyed(s), n <= rs.len(),
    ensures
        im_wf(puts(s, rs, n)), keyed(puts(s, rs, n)),
        forall|x: String| #[trigger] im_has(puts(s, rs, n), x) <==> im_has(s, x) || (exists|i: int| 0 <= i < n && (#[trigger] rs[i]).name == x),
        forall|x: String| im_has(puts(s, rs, n), x) ==> late(s, rs, n, x, #[trigger] im_get(puts(s, rs, n), x)),
    decreases n,
{
    let t = puts(s, rs, n);
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_puts(s, rs, m);
        let p = puts(s, rs, m);
        let k = rs[m as int].name;
        lemma_put(p, k, rs[m as int]);
        assert forall|x: String| #[trigger] im_has(t, x) <==> im_has(s, x) || (exists|i: int| 0 <= i < n && (#[trigger] rs[i]).name == x) by {
            if exists|i: int| 0 <= i < n && (#[trigger] rs[i]).name == x { let i = choose|i: int| 0 <= i < n && (#[trigger] rs[i]).name == x; if i < m { assert(rs[i].name == x); assert(im_has(p, x)); } }
            if im_has(t, x) { if x == k { assert(rs[m as int].name == x); } else { assert(im_has(p, x)); } }
        }
        assert forall|x: String| im_has(t, x) implies late(s, rs, n, x, #[trigger] im_get(t, x)) by {
            assert(im_get(t, x) == (if x == k { rs[m as int] } else { im_get(p, x) }));
            if x != k { assert(im_has(p, x)); assert(late(s, rs, m, x, im_get(p, x))); } else { assert(late_at(rs, n, x, m as int)); }
            if x != k && exists|i: int| 0 <= i < m && (#[trigger] rs[i]).name == x { let j = choose|j: int| #[trigger] late_at(rs, m, x, j) && im_get(p, x) == rs[j]; assert(late_at(rs, n, x, j)); }
        }
        if im_has(p, k) { assert(keyed(t)); } else { assert(keyed(t)); }
    } else {
        assert forall|x: String| im_has(t, x) implies late(s, rs, n, x, #[trigger] im_get(t, x)) by { }
    }
}
/// j is the last of the first n rules with that name
pub open spec fn late_at(rs: Seq<Rule>, n: nat, x: String, j: int) -> bool { 0 <= j < n && rs[j].name == x && forall|k: int| j < k < n ==> (#[trigger] rs[k]).name != x }
/// the rule under a name: the last one added, or else the one that was there
pub open spec fn late(s: Seq<(String, Rule)>, rs: Seq<Rule>, n: nat, x: String, r: Rule) -> bool {
    if exists|i: int| 0 <= i < n && (#[trigger] rs[i]).name == x { exists|j: int| #[trigger] late_at(rs, n, x, j) && r == rs[j] } else { r == im_get(s, x) }
}
pub proof fn lemma_dels(s: Seq<(String, Rule)>, t: Seq<(String, Rule)>, n: nat)
    requires im_wf(s), keyed(s), n <= t.len(),
    ensures
        im_wf(dels(s, t, n)), keyed(dels(s, t, n)),
        forall|x: String| #[trigger] im_has(dels(s, t, n), x) <==> im_has(s, x) && !im_has(t.take(n as int), x),
        forall|x: String| im_has(dels(s, t, n), x) ==> #[trigger] im_get(dels(s, t, n), x) == im_get(s, x),
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_dels(s, t, m);
        let p = dels(s, t, m);
        let k = t[m as int].0;
        lemma_del(p, k);
        let u = t.take(n as int);
        let w = t.take(m as int);
        assert forall|x: String| #[trigger] im_has(u, x) <==> x == k || im_has(w, x) by {
            if im_has(u, x) { let i = im_pos(u, x); assert(u[i].0 == x); if i < m { assert(w[i].0 == x); } }
            if x == k { assert(u[m as int].0 == k); }
            if im_has(w, x) { let i = im_pos(w, x); assert(u[i].0 == x); }
        }
        if im_has(p, k) { let q = im_pos(p, k); assert(p[q].0 == k); assert forall|i: int| 0 <= i < im_del(p, k).len() implies (#[trigger] im_del(p, k)[i]).0 == im_del(p, k)[i].1.name by { let j = if i == q { p.len() - 1 } else { i }; assert(p[j].0 == p[j].1.name); } }
    } else {
        assert(forall|x: String| !im_has(t.take(0), x));
    }
}
/// C13: a union has the names of both sides, with the later side's rules where both have one
pub proof fn theorem_union(a: Ruleset, b: Ruleset, r: Ruleset)
    requires keyed(a.0@), keyed(b.0@), r.0@ == im_merge(a.0@, b.0@, b.0@.len()),
    ensures
        keyed(r.0@),
        forall|x: String| #[trigger] im_has(r.0@, x) <==> im_has(a.0@, x) || im_has(b.0@, x),
        forall|x: String| im_has(r.0@, x) ==> #[trigger] im_get(r.0@, x) == (if im_has(b.0@, x) { im_get(b.0@, x) } else { im_get(a.0@, x) }),
{
    lemma_merge(a.0@, b.0@, b.0@.len());
    assert(b.0@.take(b.0@.len() as int) =~= b.0@);
    lemma_merge_keyed(a.0@, b.0@, b.0@.len());
}
pub proof fn lemma_merge_keyed(s: Seq<(String, Rule)>, t: Seq<(String, Rule)>, n: nat)
    requires keyed(s), keyed(t), n <= t.len(),
    ensures keyed(im_merge(s, t, n)),
    decreases n,
{ if n > 0 { lemma_merge_keyed(s, t, (n - 1) as nat); let p = im_merge(s, t, (n - 1) as nat); let k = t[n - 1].0; assert(t[n - 1].0 == t[n - 1].1.name); if im_has(p, k) { assert(p[im_pos(p, k)].0 == k); } } }
/// C13: adding rules adds exactly their names; the last rule of a name wins
pub proof fn theorem_add_all(s: Ruleset, rs: Seq<Rule>, r: Ruleset)
    requires keyed(s.0@), r.0@ == puts(s.0@, rs, rs.len()),
    ensures
        keyed(r.0@),
        forall|x: String| #[trigger] im_has(r.0@, x) <==> im_has(s.0@, x) || (exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).name == x),
        forall|x: String| im_has(r.0@, x) ==> late(s.0@, rs, rs.len(), x, #[trigger] im_get(r.0@, x)),
{ lemma_puts(s.0@, rs, rs.len()); }
/// C13: removing a ruleset removes exactly its names
pub proof fn theorem_remove_all(s: Ruleset, t: Ruleset, r: Ruleset)
    requires keyed(s.0@), r.0@ == dels(s.0@, t.0@, t.0@.len()),
    ensures
        keyed(r.0@),
        forall|x: String| #[trigger] im_has(r.0@, x) <==> im_has(s.0@, x) && !im_has(t.0@, x),
        forall|x: String| im_has(r.0@, x) ==> #[trigger] im_get(r.0@, x) == im_get(s.0@, x),
{ lemma_dels(s.0@, t.0@, t.0@.len()); assert(t.0@.take(t.0@.len() as int) =~= t.0@); }
/// entries picked by flags
pub open spec fn pick_e(s: Seq<(String, Rule)>, fl: Seq<bool>, b: bool, n: nat) -> Seq<(String, Rule)> decreases n { if n == 0 { Seq::empty() } else { let p = pick_e(s, fl, b, (n - 1) as nat); if fl[n - 1] == b { p.push(s[n - 1]) } else { p } } }
pub proof fn lemma_pick(s: Seq<(String, Rule)>, fl: Seq<bool>, b: bool, n: nat)
    requires im_wf(s), keyed(s), n <= s.len(), fl.len() == s.len(),
    ensures
        pick(im_vals(s), fl, b, n).len() == pick_e(s, fl, b, n).len(),
        forall|i: int| 0 <= i < pick_e(s, fl, b, n).len() ==> (#[trigger] pick_e(s, fl, b, n)[i]) == (pick(im_vals(s), fl, b, n)[i].name, pick(im_vals(s), fl, b, n)[i]),
        forall|i: int| 0 <= i < pick_e(s, fl, b, n).len() ==> from_at(s, fl, b, n, #[trigger] pick_e(s, fl, b, n)[i]),
        forall|j: int| 0 <= j < n ==> fl[j] == b ==> pick_e(s, fl, b, n).contains(#[trigger] s[j]),
        puts(Seq::empty(), pick(im_vals(s), fl, b, n), pick(im_vals(s), fl, b, n).len()) =~= pick_e(s, fl, b, n),
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_pick(s, fl, b, m);
        let q = pick(im_vals(s), fl, b, m);
        let e = pick_e(s, fl, b, m);
        let e2 = pick_e(s, fl, b, n);
        assert(s[m as int].0 == s[m as int].1.name);
        assert forall|i: int| 0 <= i < e2.len() implies from_at(s, fl, b, n, #[trigger] e2[i]) by {
            if i < e.len() { assert(from_at(s, fl, b, m, e[i])); let j = choose|j: int| 0 <= j < m && fl[j] == b && e[i] == #[trigger] s[j]; assert(s[j] == e2[i]); } else { assert(e2[i] == s[m as int]); }
        }
        assert forall|j: int| 0 <= j < n && fl[j] == b implies e2.contains(#[trigger] s[j]) by {
            if j < m { assert(e.contains(s[j])); let i = choose|i: int| 0 <= i < e.len() && e[i] == s[j]; assert(e2[i] == s[j]); } else { assert(e2[e2.len() - 1] == s[j]); }
        }
        if fl[m as int] == b {
            let k = s[m as int].0;
            assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]).0 != k by { assert(from_at(s, fl, b, m, e[i])); let j = choose|j: int| 0 <= j < m && fl[j] == b && e[i] == #[trigger] s[j]; assert(s[j].0 != s[m as int].0); }
            lemma_puts_prefix(Seq::empty(), q.push(s[m as int].1), q, q.len());
        }
    }
}
pub proof fn lemma_pick_prefix(s: Seq<Rule>, a: Seq<bool>, b: Seq<bool>, c: bool, n: nat)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures pick(s, a, c, n) == pick(s, b, c, n),
    decreases n,
{ if n > 0 { lemma_pick_prefix(s, a, b, c, (n - 1) as nat); } }
pub open spec fn from_at(s: Seq<(String, Rule)>, fl: Seq<bool>, b: bool, n: nat, x: (String, Rule)) -> bool { exists|j: int| 0 <= j < n && fl[j] == b && x == #[trigger] s[j] }
pub proof fn lemma_puts_prefix(s: Seq<(String, Rule)>, a: Seq<Rule>, b: Seq<Rule>, n: nat)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i],
    ensures puts(s, a, n) == puts(s, b, n),
    decreases n,
{ if n > 0 { lemma_puts_prefix(s, a, b, (n - 1) as nat); assert(a[n - 1] == b[n - 1]); } }
/// C13: each rule is on exactly one side, by the predicate, and the order is kept
pub proof fn theorem_partition<F: Fn(&Rule) -> bool>(f: F, s: Ruleset, yes: Ruleset, no: Ruleset)
    requires keyed(s.0@), split(f, vals_of(s), yes.0@, no.0@),
    ensures exists|fl: Seq<bool>| #[trigger] answered(f, vals_of(s), fl) && yes.0@ == pick_e(s.0@, fl, true, s.0@.len()) && no.0@ == pick_e(s.0@, fl, false, s.0@.len())
        && (forall|j: int| 0 <= j < s.0@.len() ==> (if fl[j] { yes.0@ } else { no.0@ }).contains(#[trigger] s.0@[j]))
        && (forall|i: int| 0 <= i < yes.0@.len() ==> from_at(s.0@, fl, true, s.0@.len(), #[trigger] yes.0@[i]))
        && (forall|i: int| 0 <= i < no.0@.len() ==> from_at(s.0@, fl, false, s.0@.len(), #[trigger] no.0@[i])),
{
    let v = vals_of(s);
    let fl = choose|fl: Seq<bool>| #[trigger] answered(f, v, fl) && yes.0@ == puts(Seq::empty(), pick(v, fl, true, v.len()), pick(v, fl, true, v.len()).len()) && no.0@ == puts(Seq::empty(), pick(v, fl, false, v.len()), pick(v, fl, false, v.len()).len());
    lemma_pick(s.0@, fl, true, v.len());
    lemma_pick(s.0@, fl, false, v.len());
}
// ---- C14: a ruleset of texts ----
/// the rules of one text
pub open spec fn put_text(s: Seq<(String, Rule)>, t: Seq<char>) -> Seq<(String, Rule)> {
    if text_ok(t) {
        let (f, b) = text_rules(t);
        let s1 = im_put(s, f.name, f);
        match b { Some(b) => im_put(s1, b.name, b), None => s1 }
    } else { s }
}
pub open spec fn put_texts(s: Seq<(String, Rule)>, ts: Seq<Seq<char>>, n: nat) -> Seq<(String, Rule)> decreases n { if n == 0 { s } else { put_text(put_texts(s, ts, (n - 1) as nat), ts[n - 1]) } }
pub open spec fn views(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
/// r is a rule of text t
pub open spec fn of_text(t: Seq<char>, r: Rule) -> bool { text_ok(t) && (r == text_rules(t).0 || text_rules(t).1 == Some(r)) }
/// C14: a ruleset built from texts has exactly the rules of its well-formed texts, each under its own name
pub proof fn theorem_ruleset_new(ts: Seq<Seq<char>>, n: nat)
    requires n <= ts.len(),
    ensures
        im_wf(put_texts(Seq::empty(), ts, n)), keyed(put_texts(Seq::empty(), ts, n)),
        forall|i: int| 0 <= i < put_texts(Seq::empty(), ts, n).len() ==> some_text(ts, n, (#[trigger] put_texts(Seq::empty(), ts, n)[i]).1),
        forall|j: int, r: Rule| 0 <= j < n && #[trigger] of_text(ts[j], r) ==> im_has(put_texts(Seq::empty(), ts, n), r.name),
    decreases n,
{
    let t = put_texts(Seq::empty(), ts, n);
    if n > 0 {
        let m = (n - 1) as nat;
        theorem_ruleset_new(ts, m);
        let p = put_texts(Seq::empty(), ts, m);
        if text_ok(ts[m as int]) {
            let (f, b) = text_rules(ts[m as int]);
            assert(of_text(ts[m as int], f));
            lemma_put(p, f.name, f);
            let p1 = im_put(p, f.name, f);
            if let Some(b) = b { assert(of_text(ts[m as int], b)); lemma_put(p1, b.name, b); }
        }
        assert forall|i: int| 0 <= i < p.len() implies some_text(ts, n, (#[trigger] p[i]).1) by { assert(some_text(ts, m, p[i].1)); let j = choose|j: int| 0 <= j < m && #[trigger] of_text(ts[j], p[i].1); assert(of_text(ts[j], p[i].1)); }
        assert forall|j: int, r: Rule| 0 <= j < n && #[trigger] of_text(ts[j], r) implies im_has(t, r.name) by { if j < m { assert(im_has(p, r.name)); } }
    }
}
pub open spec fn some_text(ts: Seq<Seq<char>>, n: nat, r: Rule) -> bool { exists|j: int| 0 <= j < n && #[trigger] of_text(ts[j], r) }
} // mod rset
use rset::*;
impl VNew for Ruleset { open spec fn is_new(r: Self) -> bool { r.0@ == Seq::<(String, Rule)>::empty() } fn vnew() -> (r: Self) { Ruleset::default() } }
impl VExtend<Ruleset> for Ruleset { open spec fn extended(old: Self, a: Self, new: Self) -> bool { new.0@ == im_merge(old.0@, a.0@, a.0@.len()) } fn vextend(&mut self, a: Ruleset) { self.extend(a) } }
impl Ruleset {
    pub fn vis_empty(&self) -> (r: bool) ensures r == (self.0@.len() == 0) { self.is_empty() }
    pub fn vcontains(&self, x: &Rule) -> (r: bool) ensures r == im_has(self.0@, x.name) { self.contains(x) }
}
impl<'a, K, V> VSeq for &'a IndexMap<K, V> {
    type Elem = (K, V); type Out = (&'a K, &'a V);
    open spec fn vseq(&self) -> Seq<(K, V)> { (**self)@ }
    open spec fn visit(o: (&'a K, &'a V), e: (K, V)) -> bool { *o.0 == e.0 && *o.1 == e.1 }
    fn vlen(&self) -> (n: usize) { (**self).len() }
    fn vtake(&self, i: usize) -> (r: (&'a K, &'a V)) { (**self).viter().vget(i) }
}
@fn Ruleset::Default::default
@props C13
@flags impl=impl~Ruleset
@sig pub fn default() -> (r: Self)
@spec
    ensures r.0@ == Seq::<(String, Rule)>::empty(),
@fn Ruleset::PartialEq::eq
@props C13
@flags impl=impl~Ruleset
@sig pub fn eq__(&self, other: &Self) -> (r: bool)
@spec
    ensures r == same_names(self.0@, other.0@),
@loop 0
    self.0@.len() == other.0@.len()
    forall|i: int| 0 <= i < $i ==> (#[trigger] self.0@[i]).0 == other.0@[i].0
@fn Ruleset::union
@props C13
@spec
    ensures r.0@ == im_merge(self.0@, other.0@, other.0@.len()),
@fn Ruleset::to_str_vec
@props C13 C23
@spec
    ensures r@ =~= Seq::new(self.0@.len(), |i: int| self.0@[i].0),
@loop 0
    $acc@ =~= Seq::new($i, |i: int| self.0@[i].0)
@fn Ruleset::iter
@props C13
@sig pub fn viter(&self) -> (r: Vals<'_, String, Rule>)
@spec
    ensures r@ == im_vals(self.0@),
@fn Ruleset::is_empty
@props C13 C12
@spec
    ensures r == (self.0@.len() == 0),
@fn Ruleset::len
@props C13 C12
@spec
    ensures r == self.0@.len(),
@fn Ruleset::bidir_len
@props C13
@flags panics-ok
@spec
    ensures r == self.0@.len() - revs(self.0@, self.0@.len()) + revs(self.0@, self.0@.len()) / 2,
@loop 0
    bidir == revs(self.0@, $i)
    unidir == $i - revs(self.0@, $i)
@body 0
    proof { lemma_revs(self.0@, $i); lemma_revs(self.0@, $i + 1); }
@fn Ruleset::contains
@props C13 C11 C12
@spec
    ensures r == im_has(self.0@, rule.name),
@fn Ruleset::add
@props C13 C11 C12
@spec
    ensures final(self).0@ == im_put(old(self).0@, rule.name, rule),
@fn Ruleset::add_all
@props C13
@spec
    ensures final(self).0@ == puts(old(self).0@, derefs(rules@), rules@.len()),
@loop 0
    self.0@ == puts(old(self).0@, derefs(rules@), $i)
@fn Ruleset::remove_all
@props C13 C11 C12
@spec
    ensures final(self).0@ == dels(old(self).0@, other.0@, other.0@.len()),
@loop 0
    self.0@ == dels(old(self).0@, other.0@, $i)
@fn Ruleset::extend
@props C13 C11 C12
@spec
    ensures final(self).0@ == im_merge(old(self).0@, other.0@, other.0@.len()),
@fn Ruleset::partition
@props C13 C16
@sig pub fn partition<F: Fn(&Rule) -> bool>(&self, f: F) -> (r: (Self, Self))
@spec
    requires forall|x: &Rule| #[trigger] f.requires((x,)),
    ensures split(f, vals_of(*self), r.0.0@, r.1.0@),
@loop 0
    $s == vals_of(*self)
    derefs($acc@) =~= vals_of(*self).take($i as int)
@before 1
    let ghost mut vx_fl: Seq<bool> = Seq::empty();
    let ghost vx_v = vals_of(*self);
@loop 1
    vx_fl.len() == $i
    derefs($s) =~= vx_v
    forall|i: int| 0 <= i < $i ==> f.ensures((&vx_v[i],), #[trigger] vx_fl[i])
    derefs($acc@) =~= pick(vx_v, vx_fl, true, $i)
    derefs($acc1@) =~= pick(vx_v, vx_fl, false, $i)
@body 1
    let ghost vx_l = $acc@.len();
    let ghost vx_b0 = derefs($acc@);
    let ghost vx_b1 = derefs($acc1@);
    let ghost vx_old = vx_fl;
@tail 1
    proof {
        vx_fl = vx_fl.push($acc@.len() > vx_l);
        assert(vx_v[$i - 1] == derefs($s)[$i - 1]);
        lemma_pick_prefix(vx_v, vx_old, vx_fl, true, ($i - 1) as nat);
        lemma_pick_prefix(vx_v, vx_old, vx_fl, false, ($i - 1) as nat);
        assert(derefs($acc@) =~= (if $acc@.len() > vx_l { vx_b0.push(vx_v[$i - 1]) } else { vx_b0 }));
        assert(derefs($acc1@) =~= (if $acc@.len() > vx_l { vx_b1 } else { vx_b1.push(vx_v[$i - 1]) }));
    }
@after 1
    proof { assert(answered(f, vx_v, vx_fl)); }
@fn Ruleset::new
@props C14
@sig pub fn new(vals: Vec<String>) -> (r: Self) | fn new < I > (vals : I) -> Self where I : IntoIterator , I :: Item : AsRef < str > ,
@spec
    ensures r.0@ == put_texts(Seq::empty(), views(vals@), vals@.len()),
@loop 0
    map@ == put_texts(Seq::empty(), views($s), $i)
