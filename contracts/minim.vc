@type DeriveType
@stub .sort_by
@raw
// ======== derivability (C16) and minimisation (C11, C12) ========
pub mod mi {
use super::*;
  broadcast use {ax_im_wf, ax_mkim_of};
/// the e-graph a derivation starts from
pub open spec fn derive_start(t: DeriveType, l: RecExpr, r: RecExpr) -> EGraph { match t { DeriveType::Lhs => g_add_expr(g_empty(), l), DeriveType::LhsAndRhs => g_add_expr(g_add_expr(g_empty(), l), r) } }
/// the verdict is whether both sides are there and equal in an e-graph the rules reach from the start
pub open spec fn derives(by: Ruleset, t: DeriveType, rule: Rule, lim: Limits, b: bool) -> bool {
    exists|out: EGraph| #[trigger] ran(Scheduler::Saturating(lim), derive_start(t, inst(rule.lhs), inst(rule.rhs)), vals_of(by), stop_of(Some(&rule)), out) && b == met(out, inst(rule.lhs), inst(rule.rhs))
}
/// each rule on exactly one side, by its verdict, in order
pub open spec fn derive_split(by: Ruleset, t: DeriveType, lim: Limits, rs: Seq<Rule>, fl: Seq<bool>) -> bool { fl.len() == rs.len() && forall|i: int| 0 <= i < rs.len() ==> derives(by, t, #[trigger] rs[i], lim, fl[i]) }
pub proof fn lemma_split_derive<F: Fn(&Rule) -> bool>(f: F, by: Ruleset, t: DeriveType, lim: Limits, rs: Seq<Rule>, yes: Seq<(String, Rule)>, no: Seq<(String, Rule)>)
    requires split(f, rs, yes, no), forall|x: &Rule, b: bool| f.ensures((x,), b) ==> derives(by, t, *x, lim, b),
    ensures exists|fl: Seq<bool>| #[trigger] derive_split(by, t, lim, rs, fl) && yes == puts(Seq::empty(), pick(rs, fl, true, rs.len()), pick(rs, fl, true, rs.len()).len()) && no == puts(Seq::empty(), pick(rs, fl, false, rs.len()), pick(rs, fl, false, rs.len()).len()),
{
    let fl = choose|fl: Seq<bool>| #[trigger] answered(f, rs, fl) && yes == puts(Seq::empty(), pick(rs, fl, true, rs.len()), pick(rs, fl, true, rs.len()).len()) && no == puts(Seq::empty(), pick(rs, fl, false, rs.len()), pick(rs, fl, false, rs.len()).len());
    assert(derive_split(by, t, lim, rs, fl));
}
/// C16: with no rules nothing is run, so a verdict is whether the start already has the two sides equal up to an empty run
pub proof fn theorem_derive_partition(by: Ruleset, t: DeriveType, lim: Limits, against: Ruleset, fl: Seq<bool>, yes: Ruleset, no: Ruleset)
    requires
        keyed(against.0@), derive_split(by, t, lim, vals_of(against), fl),
        yes.0@ == puts(Seq::empty(), pick(vals_of(against), fl, true, fl.len()), pick(vals_of(against), fl, true, fl.len()).len()),
        no.0@ == puts(Seq::empty(), pick(vals_of(against), fl, false, fl.len()), pick(vals_of(against), fl, false, fl.len()).len()),
    ensures
        yes.0@ == pick_e(against.0@, fl, true, fl.len()), no.0@ == pick_e(against.0@, fl, false, fl.len()),
        forall|j: int| 0 <= j < against.0@.len() ==> (if fl[j] { yes.0@ } else { no.0@ }).contains(#[trigger] against.0@[j]),
        forall|j: int| 0 <= j < against.0@.len() ==> !(if fl[j] { no.0@ } else { yes.0@ }).contains(#[trigger] against.0@[j]),
{
    lemma_pick(against.0@, fl, true, fl.len());
    lemma_pick(against.0@, fl, false, fl.len());
    assert forall|j: int| 0 <= j < against.0@.len() implies !(if fl[j] { no.0@ } else { yes.0@ }).contains(#[trigger] against.0@[j]) by {
        let o = if fl[j] { no.0@ } else { yes.0@ };
        if o.contains(against.0@[j]) {
            let i = choose|i: int| 0 <= i < o.len() && o[i] == against.0@[j];
            assert(from_at(against.0@, fl, !fl[j], fl.len(), o[i]));
            let k = choose|k: int| 0 <= k < fl.len() && fl[k] == !fl[j] && o[i] == #[trigger] against.0@[k];
            if k < j { assert(against.0@[k].0 != against.0@[j].0); } else { assert(against.0@[j].0 != against.0@[k].0); }
        }
    }
}
// ---- selecting ----
/// some verdict of the validator on the rule is Valid, or is not
pub open spec fn verdict(r: Rule, valid: bool) -> bool { exists|v: ValidationResult| #[trigger] judged(r.lhs, r.rhs, v) && valid == (v is Valid) }
/// the rule is a candidate's, or the other direction of a candidate's
pub open spec fn stands(c: Seq<(String, Rule)>, r: Rule) -> bool { c.contains((r.name, r)) || exists|x: (String, Rule)| #[trigger] c.contains(x) && rev_of(x.1) == Some(r) }
/// an entry that is a candidate, or the reverse of one with a candidate's name, and was judged so
pub open spec fn from_cands(c: Seq<(String, Rule)>, e: (String, Rule), valid: bool) -> bool { e.0 == e.1.name && im_has(c, e.0) && stands(c, e.1) && verdict(e.1, valid) }
pub proof fn lemma_stands(c: Seq<(String, Rule)>, d: Seq<(String, Rule)>, r: Rule)
    requires stands(c, r), forall|x: (String, Rule)| #[trigger] c.contains(x) ==> d.contains(x),
    ensures stands(d, r),
{ if !c.contains((r.name, r)) { let x = choose|x: (String, Rule)| #[trigger] c.contains(x) && rev_of(x.1) == Some(r); assert(d.contains(x)); } }
/// every entry was there before or is a candidate judged so
pub open spec fn grew(old: Seq<(String, Rule)>, new: Seq<(String, Rule)>, c: Seq<(String, Rule)>, valid: bool) -> bool { forall|i: int| 0 <= i < new.len() ==> old.contains(#[trigger] new[i]) || from_cands(c, new[i], valid) }
pub open spec fn kept<V>(old: Seq<(String, V)>, new: Seq<(String, V)>) -> bool { forall|x: String| #[trigger] im_has(old, x) ==> im_has(new, x) }
/// no later entry has a smaller score
pub open spec fn sorted(t: Seq<(String, Rule)>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> !(#[trigger] better(t[i].1, t[j].1)) }
pub open spec fn better(a: Rule, b: Rule) -> bool { lex(score_of(a.lhs, a.rhs), score_of(b.lhs, b.rhs)) is Greater }
/// what becomes of a rule taken, and of its reverse when that is still a candidate
pub open spec fn settled(x: String, chosen: Seq<(String, Rule)>, invalid: Seq<(String, Rule)>) -> bool { im_has(chosen, x) || im_has(invalid, x) }
pub open spec fn taken(t: Seq<(String, Rule)>, j: int, chosen: Seq<(String, Rule)>, invalid: Seq<(String, Rule)>) -> bool {
    settled(t[j].0, chosen, invalid) && (rev_of(t[j].1) matches Some(b) ==> im_has(t.take(j), b.name) ==> settled(b.name, chosen, invalid))
}
/// candidates `now` are the first ones of a best-last rearrangement of candidates `old`; the others were taken
pub open spec fn picked(t: Seq<(String, Rule)>, old: Seq<(String, Rule)>, now: Seq<(String, Rule)>, chosen: Seq<(String, Rule)>, invalid: Seq<(String, Rule)>) -> bool {
    &&& same_entries(old, t) && sorted(t)
    &&& now.len() <= t.len() && now == t.take(now.len() as int)
    &&& forall|j: int| now.len() <= j < t.len() ==> #[trigger] taken(t, j, chosen, invalid)
}
pub proof fn lemma_grew_put(old: Seq<(String, Rule)>, s: Seq<(String, Rule)>, r: Rule, c: Seq<(String, Rule)>, valid: bool)
    requires im_wf(s), grew(old, s, c, valid), im_has(c, r.name), stands(c, r), verdict(r, valid),
    ensures grew(old, im_put(s, r.name, r), c, valid), kept(s, im_put(s, r.name, r)), im_has(im_put(s, r.name, r), r.name),
{
    let t = im_put(s, r.name, r);
    lemma_put(s, r.name, r);
    assert forall|i: int| 0 <= i < t.len() implies old.contains(#[trigger] t[i]) || from_cands(c, t[i], valid) by { if t[i] != (r.name, r) { assert(s[i] == t[i]); } }
}
pub proof fn lemma_same_has(a: Seq<(String, Rule)>, b: Seq<(String, Rule)>)
    requires same_entries(a, b),
    ensures forall|e: (String, Rule)| a.contains(e) <==> #[trigger] b.contains(e), forall|x: String| im_has(a, x) <==> #[trigger] im_has(b, x), a.len() == b.len(), keyed(a) ==> keyed(b),
{
    assert forall|e: (String, Rule)| a.contains(e) <==> #[trigger] b.contains(e) by { a.to_multiset_ensures(); b.to_multiset_ensures(); assert(a.to_multiset().count(e) == b.to_multiset().count(e)); }
    assert forall|x: String| im_has(a, x) <==> #[trigger] im_has(b, x) by {
        if im_has(a, x) { let i = im_pos(a, x); assert(b.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(b[j].0 == x); }
        if im_has(b, x) { let i = im_pos(b, x); assert(b.contains(b[i])); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(a[j].0 == x); }
    }
    a.to_multiset_ensures(); b.to_multiset_ensures();
    if keyed(a) { assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).0 == b[i].1.name by { assert(b.contains(b[i])); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(a[j].0 == a[j].1.name); } }
}
/// the sorting closure compares by score
pub proof fn lemma_sorted<F: Fn(&String, &Rule, &String, &Rule) -> Ordering>(f: F, t: Seq<(String, Rule)>)
    requires
        forall|i: int, j: int| 0 <= i < j < t.len() ==> cmp_not_greater(f, t[i], #[trigger] t[j], #[trigger] trig2(i, j)),
        forall|a: &String, b: &Rule, c: &String, d: &Rule, o: Ordering| f.ensures((a, b, c, d), o) ==> o == lex(score_of(b.lhs, b.rhs), score_of(d.lhs, d.rhs)),
    ensures sorted(t),
{ assert forall|i: int, j: int| 0 <= i < j < t.len() implies !(#[trigger] better(t[i].1, t[j].1)) by { assert(trig2(i, j)); assert(cmp_not_greater(f, t[i], t[j], true)); } }
// ---- shrinking ----
/// both sides of the first n rules added, and where they are
pub open spec fn loaded(rs: Seq<Rule>, n: nat) -> EGraph decreases n { if n == 0 { g_empty() } else { g_add_expr(g_add_expr(loaded(rs, (n - 1) as nat), inst(rs[n - 1].lhs)), inst(rs[n - 1].rhs)) } }
pub open spec fn sides(rs: Seq<Rule>, i: int) -> (Id, Id) { let g = loaded(rs, i as nat); (g_add_expr_id(g, inst(rs[i].lhs)), g_add_expr_id(g_add_expr(g, inst(rs[i].lhs)), inst(rs[i].rhs))) }
pub open spec fn apart(rs: Seq<Rule>, out: EGraph) -> Seq<bool> { Seq::new(rs.len(), |i: int| !same_class(out, sides(rs, i).0, sides(rs, i).1)) }
/// the candidates whose sides the chosen rules leave apart
pub open spec fn shrunk(s: Scheduler, old: Seq<(String, Rule)>, chosen: Seq<Rule>, out: EGraph, new: Seq<(String, Rule)>) -> bool {
    ran(s, loaded(im_vals(old), old.len()), chosen, None, out) && new == pick_e(old, apart(im_vals(old), out), true, old.len())
}
/// a candidate whose two sides the rules `ch`, all of them among `all`, had merged
pub open spec fn redundant(s: Scheduler, r: Rule, all: Seq<(String, Rule)>) -> bool { exists|cs: Seq<Rule>, ch: Seq<(String, Rule)>, i: int, out: EGraph| 0 <= i < cs.len() && cs[i] == r && kept(ch, all) && #[trigger] merged_by(s, cs, ch, i, out) }
pub open spec fn merged_by(s: Scheduler, cs: Seq<Rule>, ch: Seq<(String, Rule)>, i: int, out: EGraph) -> bool { ran(s, loaded(cs, cs.len()), im_vals(ch), None, out) && same_class(out, sides(cs, i).0, sides(cs, i).1) }
/// what becomes of every candidate
pub open spec fn explained(s: Scheduler, e: (String, Rule), all: Seq<(String, Rule)>, invalid: Seq<(String, Rule)>) -> bool { settled(e.0, all, invalid) || redundant(s, e.1, all) }
pub open spec fn accounted(s: Scheduler, old: Seq<(String, Rule)>, now: Seq<(String, Rule)>, all: Seq<(String, Rule)>, invalid: Seq<(String, Rule)>) -> bool { forall|i: int| 0 <= i < old.len() ==> now.contains(#[trigger] old[i]) || explained(s, old[i], all, invalid) }
/// C11, C12: prior rules and chosen ones together, the candidates left, and those judged not valid
pub open spec fn progress(s: Scheduler, c0: Seq<(String, Rule)>, prior: Seq<(String, Rule)>, now: Seq<(String, Rule)>, all: Seq<(String, Rule)>, invalid: Seq<(String, Rule)>) -> bool {
    &&& im_wf(now) && im_wf(all) && im_wf(invalid) && keyed(now) && keyed(all)
    &&& forall|i: int| 0 <= i < now.len() ==> c0.contains(#[trigger] now[i])
    &&& grew(prior, all, c0, true) && kept(prior, all)
    &&& grew(Seq::empty(), invalid, c0, false)
    &&& accounted(s, c0, now, all, invalid)
}
pub proof fn lemma_take_wf(t: Seq<(String, Rule)>, n: int)
    requires 0 <= n <= t.len(), im_wf(t), keyed(t),
    ensures im_wf(t.take(n)), keyed(t.take(n)),
{ assert forall|i: int, j: int| 0 <= i < j < n implies (#[trigger] t.take(n)[i]).0 != (#[trigger] t.take(n)[j]).0 by { assert(t[i].0 != t[j].0); } assert forall|i: int| 0 <= i < n implies (#[trigger] t.take(n)[i]).0 == t.take(n)[i].1.name by { assert(t[i].0 == t[i].1.name); } }
pub proof fn lemma_grew_keyed(old: Seq<(String, Rule)>, new: Seq<(String, Rule)>, c: Seq<(String, Rule)>, valid: bool)
    requires keyed(old), grew(old, new, c, valid),
    ensures keyed(new),
{ assert forall|i: int| 0 <= i < new.len() implies (#[trigger] new[i]).0 == new[i].1.name by { if old.contains(new[i]) { let j = choose|j: int| 0 <= j < old.len() && old[j] == new[i]; assert(old[j].0 == old[j].1.name); } } }
/// one round: select, extend, shrink
pub broadcast proof fn lemma_round_ok(s: Scheduler, c0: Seq<(String, Rule)>, prior: Seq<(String, Rule)>, now: Seq<(String, Rule)>, all: Seq<(String, Rule)>, invalid: Seq<(String, Rule)>, t: Seq<(String, Rule)>, mid: Seq<(String, Rule)>, sel: Seq<(String, Rule)>, inv2: Seq<(String, Rule)>, all2: Seq<(String, Rule)>, out: EGraph, fin: Seq<(String, Rule)>)
    requires
        keyed(prior), im_wf(c0), keyed(c0), #[trigger] progress(s, c0, prior, now, all, invalid),
        #[trigger] picked(t, now, mid, sel, inv2), im_wf(mid), im_wf(sel), im_wf(inv2), im_wf(all2), im_wf(t),
        grew(Seq::empty(), sel, now, true), grew(invalid, inv2, now, false), kept(invalid, inv2),
        all2 == #[trigger] im_merge(all, sel, sel.len()), #[trigger] shrunk(s, mid, im_vals(all2), out, fin),
    ensures progress(s, c0, prior, fin, all2, inv2), fin.len() <= mid.len(), kept(all, all2),
{
    lemma_merge(all, sel, sel.len());
    assert(sel.take(sel.len() as int) =~= sel);
    lemma_same_has(now, t);
    lemma_take_wf(t, mid.len() as int);
    let fl = apart(im_vals(mid), out);
    lemma_pick(mid, fl, true, mid.len());
    lemma_pick_len(mid, fl, true, mid.len());
    lemma_grew_keyed(Seq::empty(), sel, now, true);
    lemma_merge_keyed(all, sel, sel.len());
    lemma_merge_entries(all, sel, sel.len());
    assert forall|x: String| im_has(now, x) implies #[trigger] im_has(c0, x) by { let i = im_pos(now, x); assert(c0.contains(now[i])); let j = choose|j: int| 0 <= j < c0.len() && c0[j] == now[i]; assert(c0[j].0 == x); }
    assert(im_wf(fin) && keyed(fin)) by { lemma_puts(Seq::empty(), pick(im_vals(mid), fl, true, mid.len()), pick(im_vals(mid), fl, true, mid.len()).len()); }
    assert forall|i: int| 0 <= i < fin.len() implies c0.contains(#[trigger] fin[i]) by {
        assert(from_at(mid, fl, true, mid.len(), fin[i]));
        let j = choose|j: int| 0 <= j < mid.len() && fl[j] == true && fin[i] == #[trigger] mid[j];
        assert(t[j] == fin[i]); assert(t.contains(t[j])); assert(now.contains(t[j]));
        let k = choose|k: int| 0 <= k < now.len() && now[k] == fin[i]; assert(c0.contains(now[k]));
    }
    assert forall|x: (String, Rule)| #[trigger] now.contains(x) implies c0.contains(x) by { let i = choose|i: int| 0 <= i < now.len() && now[i] == x; assert(c0.contains(now[i])); }
    assert forall|i: int| 0 <= i < all2.len() implies prior.contains(#[trigger] all2[i]) || from_cands(c0, all2[i], true) by {
        if all.contains(all2[i]) { let j = choose|j: int| 0 <= j < all.len() && all[j] == all2[i]; assert(prior.contains(all[j]) || from_cands(c0, all[j], true)); }
        else { assert(sel.contains(all2[i])); let j = choose|j: int| 0 <= j < sel.len() && sel[j] == all2[i]; assert(from_cands(now, sel[j], true)); lemma_stands(now, c0, sel[j].1); }
    }
    assert(kept(prior, all2)) by { assert forall|x: String| #[trigger] im_has(prior, x) implies im_has(all2, x) by { assert(im_has(all, x)); } }
    assert forall|i: int| 0 <= i < inv2.len() implies Seq::<(String, Rule)>::empty().contains(#[trigger] inv2[i]) || from_cands(c0, inv2[i], false) by {
        if invalid.contains(inv2[i]) { let j = choose|j: int| 0 <= j < invalid.len() && invalid[j] == inv2[i]; assert(Seq::<(String, Rule)>::empty().contains(invalid[j]) || from_cands(c0, invalid[j], false)); assert(from_cands(c0, invalid[j], false)); }
        else { assert(from_cands(now, inv2[i], false)); lemma_stands(now, c0, inv2[i].1); }
    }
    assert forall|i: int| 0 <= i < c0.len() implies fin.contains(#[trigger] c0[i]) || explained(s, c0[i], all2, inv2) by {
        let e = c0[i];
        if now.contains(e) {
            assert(t.contains(e));
            let j = choose|j: int| 0 <= j < t.len() && t[j] == e;
            if j >= mid.len() {
                assert(taken(t, j, sel, inv2));
                if im_has(sel, e.0) { assert(im_has(all2, e.0)); }
            } else {
                assert(mid[j] == e);
                if fl[j] { assert(fin.contains(mid[j])); }
                else { assert(im_vals(mid)[j] == e.1); assert(merged_by(s, im_vals(mid), all2, j, out)); assert(kept(all2, all2)); assert(redundant(s, e.1, all2)); }
            }
        } else {
            assert(explained(s, e, all, invalid));
            if !settled(e.0, all, invalid) {
                let (cs, ch, j, o) = choose|cs: Seq<Rule>, ch: Seq<(String, Rule)>, j: int, o: EGraph| 0 <= j < cs.len() && cs[j] == e.1 && kept(ch, all) && #[trigger] merged_by(s, cs, ch, j, o);
                assert(kept(ch, all2)) by { assert forall|x: String| #[trigger] im_has(ch, x) implies im_has(all2, x) by { assert(im_has(all, x)); } }
                assert(merged_by(s, cs, ch, j, o));
            }
        }
    }
}
pub broadcast proof fn lemma_picked(t: Seq<(String, Rule)>, now: Seq<(String, Rule)>, mid: Seq<(String, Rule)>, sel: Seq<(String, Rule)>, inv: Seq<(String, Rule)>)
    requires #[trigger] picked(t, now, mid, sel, inv), keyed(now), im_wf(t),
    ensures keyed(mid), mid.len() <= now.len(),
{ lemma_same_has(now, t); lemma_take_wf(t, mid.len() as int); }
pub open spec fn put_if(s: Seq<(String, Rule)>, r: Rule, b: bool) -> Seq<(String, Rule)> { if b { im_put(s, r.name, r) } else { s } }
/// the reverse of t[n] when it is among the candidates before it
pub open spec fn near(t: Seq<(String, Rule)>, n: int) -> Option<Rule> { match rev_of(t[n].1) { Some(b) => if im_has(t.take(n), b.name) { Some(b) } else { None }, None => None } }
/// one rule taken with verdict b1, and its reverse with verdict b2
pub open spec fn step(t: Seq<(String, Rule)>, n: int, s0: Seq<(String, Rule)>, i0: Seq<(String, Rule)>, b1: bool, b2: bool, s2: Seq<(String, Rule)>, i2: Seq<(String, Rule)>) -> bool {
    let r = t[n].1;
    let (s1, i1) = (put_if(s0, r, b1), put_if(i0, r, !b1));
    verdict(r, b1) && match near(t, n) { Some(b) => verdict(b, b2) && s2 == put_if(s1, b, b2) && i2 == put_if(i1, b, !b2), None => s2 == s1 && i2 == i1 }
}
pub proof fn lemma_put_if(old: Seq<(String, Rule)>, s: Seq<(String, Rule)>, r: Rule, b: bool, c: Seq<(String, Rule)>, valid: bool)
    requires im_wf(s), grew(old, s, c, valid), im_has(c, r.name), b ==> stands(c, r) && verdict(r, valid),
    ensures grew(old, put_if(s, r, b), c, valid), kept(s, put_if(s, r, b)), b ==> im_has(put_if(s, r, b), r.name), im_wf(put_if(s, r, b)),
{ if b { lemma_grew_put(old, s, r, c, valid); lemma_put(s, r.name, r); } }
pub proof fn lemma_step(t: Seq<(String, Rule)>, c: Seq<(String, Rule)>, n: int, old: Seq<(String, Rule)>, s0: Seq<(String, Rule)>, i0: Seq<(String, Rule)>, b1: bool, b2: bool, s2: Seq<(String, Rule)>, i2: Seq<(String, Rule)>)
    requires
        0 <= n < t.len(), same_entries(c, t), keyed(c), im_wf(s0), im_wf(i0), grew(Seq::empty(), s0, c, true), grew(old, i0, c, false),
        forall|j: int| n < j < t.len() ==> #[trigger] taken(t, j, s0, i0),
    ensures
        step(t, n, s0, i0, b1, b2, s2, i2) ==> grew(Seq::empty(), s2, c, true) && grew(old, i2, c, false) && kept(i0, i2) && (forall|j: int| n <= j < t.len() ==> #[trigger] taken(t, j, s2, i2)),
{
    if step(t, n, s0, i0, b1, b2, s2, i2) {
        lemma_same_has(c, t);
        let r = t[n].1;
        assert(t[n].0 == r.name);
        assert(im_has(t, r.name));
        assert(c.contains(t[n])) by { assert(t.contains(t[n])); }
        assert(stands(c, r));
        let (s1, i1) = (put_if(s0, r, b1), put_if(i0, r, !b1));
        lemma_put_if(Seq::empty(), s0, r, b1, c, true);
        lemma_put_if(old, i0, r, !b1, c, false);
        if let Some(b) = near(t, n) {
            let k = im_pos(t.take(n), b.name);
            assert(t[k].0 == b.name);
            assert(im_has(t, b.name));
            assert(stands(c, b)) by { assert(c.contains(t[n]) && rev_of(t[n].1) == Some(b)); }
            lemma_put_if(Seq::empty(), s1, b, b2, c, true);
            lemma_put_if(old, i1, b, !b2, c, false);
        }
        assert(kept(s0, s2)) by { assert forall|x: String| #[trigger] im_has(s0, x) implies im_has(s2, x) by { assert(im_has(s1, x)); } }
        assert(kept(i0, i2)) by { assert forall|x: String| #[trigger] im_has(i0, x) implies im_has(i2, x) by { assert(im_has(i1, x)); } }
        assert(settled(r.name, s1, i1));
        assert(settled(r.name, s2, i2));
        assert forall|j: int| n <= j < t.len() implies #[trigger] taken(t, j, s2, i2) by {
            if j > n { assert(taken(t, j, s0, i0)); } else { if let Some(b) = rev_of(t[n].1) { if im_has(t.take(n), b.name) { assert(near(t, n) == Some(b)); assert(settled(b.name, s2, i2)); } } }
        }
    }
}
pub proof fn lemma_start_of(t: DeriveType, rule: Rule)
    ensures derive_start(t, inst(rule.lhs), inst(rule.rhs)) == (match t { DeriveType::Lhs => g_add_expr(g_empty(), inst(rule.lhs)), DeriveType::LhsAndRhs => g_add_expr(g_add_expr(g_empty(), inst(rule.lhs)), inst(rule.rhs)) }), stop_of(Some(&rule)) == Some((inst(rule.lhs), inst(rule.rhs))),
{}
pub proof fn lemma_pick_len(s: Seq<(String, Rule)>, fl: Seq<bool>, b: bool, n: nat) ensures pick_e(s, fl, b, n).len() <= n decreases n { if n > 0 { lemma_pick_len(s, fl, b, (n - 1) as nat); } }
pub proof fn lemma_merge_entries(a: Seq<(String, Rule)>, b: Seq<(String, Rule)>, n: nat)
    requires n <= b.len(),
    ensures forall|i: int| 0 <= i < im_merge(a, b, n).len() ==> a.contains(#[trigger] im_merge(a, b, n)[i]) || b.contains(im_merge(a, b, n)[i]),
    decreases n,
{
    let t = im_merge(a, b, n);
    if n > 0 {
        lemma_merge_entries(a, b, (n - 1) as nat);
        let p = im_merge(a, b, (n - 1) as nat);
        assert forall|i: int| 0 <= i < t.len() implies a.contains(#[trigger] t[i]) || b.contains(t[i]) by { if t[i] == b[n - 1] { assert(b.contains(b[n - 1])); } else { assert(t[i] == p[i]); } }
    } else { assert forall|i: int| 0 <= i < t.len() implies a.contains(#[trigger] t[i]) || b.contains(t[i]) by { assert(a[i] == t[i]); } }
}
/// merging into nothing
pub proof fn lemma_merge_empty(s: Seq<(String, Rule)>, n: nat)
    requires im_wf(s), n <= s.len(),
    ensures im_merge(Seq::empty(), s, n) =~= s.take(n as int),
    decreases n,
{
    if n > 0 {
        lemma_merge_empty(s, (n - 1) as nat);
        let p = s.take(n - 1);
        if im_has(p, s[n - 1].0) { let i = im_pos(p, s[n - 1].0); assert(p[i].0 == s[n - 1].0); assert(s[i].0 != s[n - 1].0); }
        assert(s.take(n as int) =~= p.push(s[n - 1]));
    }
}
pub proof fn lemma_dels_entries(s: Seq<(String, Rule)>, t: Seq<(String, Rule)>, n: nat)
    requires n <= t.len(), im_wf(s), keyed(s),
    ensures forall|i: int| 0 <= i < dels(s, t, n).len() ==> s.contains(#[trigger] dels(s, t, n)[i]) && !im_has(t.take(n as int), dels(s, t, n)[i].0),
{
    lemma_dels(s, t, n);
    let d = dels(s, t, n);
    assert forall|i: int| 0 <= i < d.len() implies s.contains(#[trigger] d[i]) && !im_has(t.take(n as int), d[i].0) by {
        lemma_get(d, i);
        assert(im_has(d, d[i].0));
        let j = im_pos(s, d[i].0);
        assert(s[j].0 == d[i].0 && s[j].1 == d[i].1);
        assert(s[j] == d[i]);
    }
}
/// C11: the rules returned are candidates judged Valid that are no prior rules; those reported invalid are candidates not judged Valid
pub open spec fn sound_pair(c0: Seq<(String, Rule)>, prior: Seq<(String, Rule)>, chosen: Seq<(String, Rule)>, invalid: Seq<(String, Rule)>) -> bool {
    &&& forall|i: int| 0 <= i < chosen.len() ==> from_cands(c0, #[trigger] chosen[i], true) && !im_has(prior, chosen[i].0)
    &&& forall|i: int| 0 <= i < invalid.len() ==> from_cands(c0, #[trigger] invalid[i], false)
}
/// C12: every candidate is prior, chosen, invalid, or was merged by prior and chosen rules
pub open spec fn complete_pair(s: Scheduler, c0: Seq<(String, Rule)>, prior: Seq<(String, Rule)>, chosen: Seq<(String, Rule)>, invalid: Seq<(String, Rule)>) -> bool {
    exists|all: Seq<(String, Rule)>| #[trigger] grown_from(prior, all) && chosen == dels(all, prior, prior.len()) && accounted(s, c0, Seq::empty(), all, invalid)
        && (forall|x: String| #[trigger] im_has(all, x) <==> im_has(prior, x) || im_has(chosen, x))
}
pub open spec fn grown_from(prior: Seq<(String, Rule)>, all: Seq<(String, Rule)>) -> bool { im_wf(all) && keyed(all) && kept(prior, all) }
pub proof fn lemma_minimized(s: Scheduler, c0: Seq<(String, Rule)>, prior: Seq<(String, Rule)>, all: Seq<(String, Rule)>, invalid: Seq<(String, Rule)>)
    requires progress(s, c0, prior, Seq::empty(), all, invalid), keyed(prior), im_wf(prior),
    ensures sound_pair(c0, prior, dels(all, prior, prior.len()), invalid), complete_pair(s, c0, prior, dels(all, prior, prior.len()), invalid), keyed(dels(all, prior, prior.len())), keyed(invalid),
{
    let d = dels(all, prior, prior.len());
    lemma_dels(all, prior, prior.len());
    lemma_dels_entries(all, prior, prior.len());
    assert(prior.take(prior.len() as int) =~= prior);
    assert forall|i: int| 0 <= i < d.len() implies from_cands(c0, #[trigger] d[i], true) && !im_has(prior, d[i].0) by {
        let j = choose|j: int| 0 <= j < all.len() && all[j] == d[i];
        if prior.contains(all[j]) { let k = choose|k: int| 0 <= k < prior.len() && prior[k] == all[j]; assert(prior[k].0 == d[i].0); }
    }
    assert forall|i: int| 0 <= i < invalid.len() implies from_cands(c0, #[trigger] invalid[i], false) by { assert(!Seq::<(String, Rule)>::empty().contains(invalid[i])); }
    assert(grown_from(prior, all));
    assert forall|x: String| #[trigger] im_has(all, x) <==> im_has(prior, x) || im_has(d, x) by { }
    lemma_grew_keyed(Seq::empty(), invalid, c0, false);
}
pub proof fn lemma_start(s: Scheduler, c0: Seq<(String, Rule)>, prior: Seq<(String, Rule)>)
    requires im_wf(c0), im_wf(prior), keyed(c0), keyed(prior),
    ensures progress(s, c0, prior, c0, prior, Seq::empty()),
{
    assert forall|i: int| 0 <= i < c0.len() implies c0.contains(#[trigger] c0[i]) by { }
    assert forall|i: int| 0 <= i < prior.len() implies prior.contains(#[trigger] prior[i]) by { }
}
} // mod mi
use mi::*;
@fn Ruleset::can_derive
@props C16
@flags panics-ok
@spec
    ensures derives(*self, derive_type, *rule, limits, r),
@entry
    proof { lemma_start_of(derive_type, *rule); }
@fn Ruleset::derive
@props C16
@flags panics-ok
@spec
    ensures exists|fl: Seq<bool>| fl.len() == vals_of(*against).len() && derive_split(*self, derive_type, limits, vals_of(*against), fl)
        && r.0.0@ == puts(Seq::empty(), #[trigger] pick(vals_of(*against), fl, true, vals_of(*against).len()), pick(vals_of(*against), fl, true, vals_of(*against).len()).len())
        && r.1.0@ == puts(Seq::empty(), pick(vals_of(*against), fl, false, vals_of(*against).len()), pick(vals_of(*against), fl, false, vals_of(*against).len()).len()),
@closure partition
@sig &Rule -> (res: bool)
@spec
    ensures derives(*self, derive_type, *vx_p0, limits, res)
@end
@fn Ruleset::select
@props C11 C12
@flags cmp=trait
@spec
    requires keyed(old(self).0@), old(invalid).0@.len() >= 0,
    ensures
        exists|t: Seq<(String, Rule)>| #[trigger] picked(t, old(self).0@, final(self).0@, r.0@, final(invalid).0@) && im_wf(t),
        grew(Seq::empty(), r.0@, old(self).0@, true),
        grew(old(invalid).0@, final(invalid).0@, old(self).0@, false), kept(old(invalid).0@, final(invalid).0@),
        r.0@.len() >= step_size || final(self).0@.len() == 0,
        step_size > 0 && old(self).0@.len() > 0 ==> final(self).0@.len() < old(self).0@.len(),
@entry
    let ghost vx_c = self.0@;
    let ghost vx_i00 = invalid.0@;
@before 0
    let ghost vx_t = self.0@;
    proof {
        assert forall|i: int, j: int| 0 <= i < j < vx_t.len() implies !(#[trigger] better(vx_t[i].1, vx_t[j].1)) by { assert(trig2(i, j)); let _ = vx_t[j]; }
        lemma_same_has(vx_c, vx_t);
        assert(vx_t.take(vx_t.len() as int) =~= vx_t);
    }
@loop 0
    self.0@.len() <= vx_t.len()
    self.0@ == vx_t.take(self.0@.len() as int)
    grew(Seq::empty(), selected.0@, vx_c, true)
    grew(vx_i00, invalid.0@, vx_c, false)
    kept(vx_i00, invalid.0@)
    self.0@.len() == vx_t.len() ==> selected.0@.len() == 0
    forall|j: int| self.0@.len() <= j < vx_t.len() ==> #[trigger] taken(vx_t, j, selected.0@, invalid.0@)
@lens 0
    selected.0@.len() >= step_size || self.0@.len() == 0
@dec 0 self.0@.len()
@body 0
    let ghost vx_p = self.0@;
    let ghost vx_s0 = selected.0@;
    let ghost vx_i0 = invalid.0@;
@tail 0
    proof {
        let n = vx_p.len() - 1;
        assert(self.0@ =~= vx_t.take(n));
        lemma_step(vx_t, vx_c, n, vx_i00, vx_s0, vx_i0, true, true, selected.0@, invalid.0@);
        lemma_step(vx_t, vx_c, n, vx_i00, vx_s0, vx_i0, true, false, selected.0@, invalid.0@);
        lemma_step(vx_t, vx_c, n, vx_i00, vx_s0, vx_i0, false, true, selected.0@, invalid.0@);
        lemma_step(vx_t, vx_c, n, vx_i00, vx_s0, vx_i0, false, false, selected.0@, invalid.0@);
    }
@after 0
    proof { assert(picked(vx_t, vx_c, self.0@, selected.0@, invalid.0@)); lemma_merge_empty(selected.0@, selected.0@.len()); assert(selected.0@.take(selected.0@.len() as int) =~= selected.0@); }
@closure sort_by
@sig &String ; &Rule ; &String ; &Rule -> (res: Ordering)
@spec
    ensures res == lex(score_of(vx_p1.lhs, vx_p1.rhs), score_of(vx_p3.lhs, vx_p3.rhs))
@end
@fn Ruleset::shrink
@props C12
@spec
    requires keyed(old(self).0@),
    ensures exists|out: EGraph| #[trigger] shrunk(scheduler, old(self).0@, vals_of(*chosen), out, final(self).0@),
@entry
    let ghost vx_o = self.0@;
    let ghost vx_v = vals_of(*self);
@ty 0 EGraph ; Vec<(Id, Id, Rule)>
@loop 0
    $s == vx_v
    egraph == loaded(vx_v, $i)
    initial@.len() == $i
    forall|j: int| 0 <= j < $i ==> (#[trigger] initial@[j]).0 == sides(vx_v, j).0 && initial@[j].1 == sides(vx_v, j).1 && initial@[j].2 == vx_v[j]
@loop 1
    $s.len() == vx_v.len()
    forall|j: int| 0 <= j < $s.len() ==> (#[trigger] $s[j]).0 == sides(vx_v, j).0 && $s[j].1 == sides(vx_v, j).1 && $s[j].2 == vx_v[j]
    self.0@ == puts(Seq::empty(), pick(vx_v, apart(vx_v, egraph), true, $i), pick(vx_v, apart(vx_v, egraph), true, $i).len())
@body 1
    proof { let p = pick(vx_v, apart(vx_v, egraph), true, $i); lemma_puts_prefix(Seq::empty(), pick(vx_v, apart(vx_v, egraph), true, $i + 1), p, p.len()); assert(apart(vx_v, egraph)[$i as int] == !same_class(egraph, sides(vx_v, $i as int).0, sides(vx_v, $i as int).1)); assert($s[$i as int].2 == vx_v[$i as int]); }
@after 1
    proof { lemma_pick(vx_o, apart(vx_v, egraph), true, vx_o.len()); assert(shrunk(scheduler, vx_o, vals_of(*chosen), egraph, self.0@)); }
@fn Ruleset::minimize
@props C11 C12
@spec
    requires keyed(old(self).0@), keyed(prior.0@),
    ensures
        final(self).0@.len() == 0,
        sound_pair(old(self).0@, prior.0@, r.0.0@, r.1.0@),
        complete_pair(scheduler, old(self).0@, prior.0@, r.0.0@, r.1.0@),
        keyed(r.0.0@), keyed(r.1.0@),
@entry
    broadcast use {mi::lemma_round_ok, mi::lemma_picked};
    proof { lemma_start(scheduler, self.0@, prior.0@); }
@loop 0
    progress(scheduler, old(self).0@, prior.0@, self.0@, chosen.0@, invalid.0@)
@dec 0 self.0@.len()
@after 0
    proof { assert(self.0@ =~= Seq::<(String, Rule)>::empty()); lemma_minimized(scheduler, old(self).0@, prior.0@, chosen.0@, invalid.0@); }
