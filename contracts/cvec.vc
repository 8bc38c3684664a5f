@raw
// ======== candidates by sample vectors (C18) ========
pub mod cm {
use super::*;
  broadcast use {ax_im_wf, ax_mkim_of};
#[verifier::external_body]
pub struct Instant { x: u8 }
#[verifier::external_body]
pub fn vx_now() -> (r: Instant) { unimplemented!() }
pub type CV = Seq<Option<Constant>>;
/// equal wherever both are defined, and both defined somewhere
pub open spec fn matching(a: CV, b: CV) -> bool { no_clash(a, b, shorter(a, b)) && meet(a, b, shorter(a, b)) }
pub open spec fn shorter(a: CV, b: CV) -> int { if a.len() < b.len() { a.len() as int } else { b.len() as int } }
pub open spec fn no_clash(a: CV, b: CV, n: int) -> bool { forall|i: int| 0 <= i < n ==> agree_at(#[trigger] a[i], b[i]) }
pub open spec fn meet(a: CV, b: CV, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] a[i]) is Some && b[i] is Some }
pub open spec fn has_some(a: CV) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Some }
/// the classes with a property, in order
pub open spec fn chosen(cs: Seq<EClass>, f: spec_fn(EClass) -> bool, n: nat) -> Seq<EClass> decreases n { if n == 0 { Seq::empty() } else { let p = chosen(cs, f, (n - 1) as nat); if f(cs[n - 1]) { p.push(cs[n - 1]) } else { p } } }
pub open spec fn with_some() -> spec_fn(EClass) -> bool { |c: EClass| has_some(c.data.cvec@) }
pub open spec fn with_defined() -> spec_fn(EClass) -> bool { |c: EClass| defined(c.data) }
pub open spec fn ids_of(cs: Seq<EClass>) -> Seq<Id> { Seq::new(cs.len(), |i: int| cs[i].id) }
pub open spec fn drawn(cs: Seq<EClass>, f: spec_fn(EClass) -> bool, n: nat, c: EClass) -> bool { exists|i: int| 0 <= i < n && c == #[trigger] cs[i] && f(c) }
pub proof fn lemma_chosen(cs: Seq<EClass>, f: spec_fn(EClass) -> bool, n: nat)
    requires n <= cs.len(), classes_once(cs),
    ensures
        classes_once(chosen(cs, f, n)),
        forall|k: int| 0 <= k < chosen(cs, f, n).len() ==> drawn(cs, f, n, #[trigger] chosen(cs, f, n)[k]),
        forall|i: int| 0 <= i < n && f(cs[i]) ==> chosen(cs, f, n).contains(#[trigger] cs[i]),
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_chosen(cs, f, m);
        let p = chosen(cs, f, m);
        let q = chosen(cs, f, n);
        assert forall|k: int| 0 <= k < q.len() implies drawn(cs, f, n, #[trigger] q[k]) by { if k < p.len() { assert(q[k] == p[k]); assert(drawn(cs, f, m, p[k])); let i = choose|i: int| 0 <= i < m && p[k] == #[trigger] cs[i] && f(p[k]); assert(q[k] == cs[i]); } else { assert(q[k] == cs[m as int]); } }
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).id != (#[trigger] q[j]).id by {
            if j == p.len() { assert(drawn(cs, f, m, p[i])); let x = choose|x: int| 0 <= x < m && p[i] == #[trigger] cs[x] && f(p[i]); assert(cs[x].id != cs[m as int].id); } else { assert(p[i].id != p[j].id); }
        }
        assert forall|i: int| 0 <= i < n && f(cs[i]) implies q.contains(#[trigger] cs[i]) by {
            if i < m { assert(p.contains(cs[i])); let k = choose|k: int| 0 <= k < p.len() && p[k] == cs[i]; assert(q[k] == cs[i]); } else { assert(q[p.len() as int] == cs[i]); }
        }
    }
}
// ---- sorting classes into buckets ----
pub open spec fn in_bucket<K>(s: Seq<(K, Vec<Id>)>, k: K, a: Id) -> bool { im_has(s, k) && im_get(s, k)@.contains(a) }
pub open spec fn bucket_ok<K>(key: spec_fn(Id) -> K, ids: Seq<Id>, k: K, v: Seq<Id>) -> bool { v.no_duplicates() && forall|j: int| 0 <= j < v.len() ==> ids.contains(#[trigger] v[j]) && key(v[j]) == k }
/// the ids, each in the bucket of its key
pub open spec fn buckets<K>(s: Seq<(K, Vec<Id>)>, key: spec_fn(Id) -> K, ids: Seq<Id>) -> bool {
    (forall|e: int| 0 <= e < s.len() ==> bucket_ok(key, ids, (#[trigger] s[e]).0, s[e].1@)) && (forall|j: int| 0 <= j < ids.len() ==> in_bucket(s, key(#[trigger] ids[j]), ids[j]))
}
pub open spec fn pushed<K>(s: Seq<(K, Vec<Id>)>, k: K, x: Id, s2: Seq<(K, Vec<Id>)>) -> bool { exists|v: Vec<Id>| s2 == #[trigger] im_put(s, k, v) && v@ == bucket_of(s, k).push(x) }
pub open spec fn bucket_of<K>(s: Seq<(K, Vec<Id>)>, k: K) -> Seq<Id> { if im_has(s, k) { im_get(s, k)@ } else { Seq::empty() } }
pub proof fn lemma_bucket_grows<K>(key: spec_fn(Id) -> K, ids: Seq<Id>, k: K, old: Seq<Id>, x: Id)
    requires bucket_ok(key, ids, k, old), !ids.contains(x),
    ensures bucket_ok(key, ids.push(x), k, old), key(x) == k ==> bucket_ok(key, ids.push(x), k, old.push(x)),
{
    let more = ids.push(x);
    assert forall|a: Id| #[trigger] ids.contains(a) implies more.contains(a) by { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == a; assert(more[i] == a); }
    assert(more[ids.len() as int] == x);
    let v = old.push(x);
    assert forall|j: int| 0 <= j < v.len() implies more.contains(#[trigger] v[j]) by { if j < old.len() { assert(v[j] == old[j]); } }
    assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies v[i] != v[j] by { if i < old.len() { assert(ids.contains(old[i])); } if j < old.len() { assert(ids.contains(old[j])); } }
    if key(x) == k { assert forall|j: int| 0 <= j < v.len() implies key(#[trigger] v[j]) == k by { if j < old.len() { assert(v[j] == old[j]); } } }
}
pub proof fn lemma_bucket<K>(s: Seq<(K, Vec<Id>)>, key: spec_fn(Id) -> K, ids: Seq<Id>, x: Id, k: K, s2: Seq<(K, Vec<Id>)>)
    requires im_wf(s), buckets(s, key, ids), !ids.contains(x), k == key(x), pushed(s, k, x, s2),
    ensures im_wf(s2), buckets(s2, key, ids.push(x)),
{
    let v = choose|v: Vec<Id>| s2 == #[trigger] im_put(s, k, v) && v@ == bucket_of(s, k).push(x);
    let old = bucket_of(s, k);
    let more = ids.push(x);
    lemma_put(s, k, v);
    if im_has(s, k) { let e = im_pos(s, k); assert(bucket_ok(key, ids, s[e].0, s[e].1@)); } else { assert(bucket_ok(key, ids, k, old)); }
    lemma_bucket_grows(key, ids, k, old, x);
    assert forall|e: int| 0 <= e < s2.len() implies bucket_ok(key, more, (#[trigger] s2[e]).0, s2[e].1@) by {
        if im_has(s, k) && e == im_pos(s, k) || e == s.len() { assert(s2[e] == (k, v)); }
        else { assert(s2[e] == s[e]); lemma_bucket_grows(key, ids, s[e].0, s[e].1@, x); }
    }
    assert forall|j: int| 0 <= j < more.len() implies in_bucket(s2, key(#[trigger] more[j]), more[j]) by {
        if j < ids.len() {
            assert(more[j] == ids[j]);
            assert(in_bucket(s, key(ids[j]), ids[j]));
            if key(ids[j]) == k { let i = choose|i: int| 0 <= i < old.len() && old[i] == ids[j]; assert(v@[i] == ids[j]); }
        } else { assert(v@[old.len() as int] == x); }
    }
}
// ---- pairs of classes ----
pub open spec fn cv(g: EGraph, a: Id) -> CV { g_class(g, a).data.cvec@ }
pub open spec fn size_pair(g: EGraph, a: Id, b: Id) -> (RecExpr, RecExpr) { (best::<AstSize>(g, a), best::<AstSize>(g, b)) }
pub open spec fn two(g: EGraph, a: Id, b: Id) -> bool { a != b && class_of(g, a) && class_of(g, b) }
/// the exact search: vectors that match
pub open spec fn match_rel(g: EGraph) -> spec_fn(Id, Id) -> bool { |a: Id, b: Id| two(g, a, b) && matching(cv(g, a), cv(g, b)) }
/// the fast search: the same vector, not undefined everywhere
pub open spec fn same_rel(g: EGraph) -> spec_fn(Id, Id) -> bool { |a: Id, b: Id| two(g, a, b) && defined(g_class(g, a).data) && cv(g, a) == cv(g, b) }
pub open spec fn rel_pair(g: EGraph, rel: spec_fn(Id, Id) -> bool, e: (RecExpr, RecExpr)) -> bool { exists|a: Id, b: Id| #[trigger] rel(a, b) && e == size_pair(g, a, b) }
/// every pair is of the smallest terms of two related classes
#[verifier::opaque]
pub open spec fn only_rel(g: EGraph, rel: spec_fn(Id, Id) -> bool, es: Seq<(RecExpr, RecExpr)>) -> bool { forall|i: int| 0 <= i < es.len() ==> rel_pair(g, rel, #[trigger] es[i]) }
pub open spec fn either(g: EGraph, a: Id, b: Id, es: Seq<(RecExpr, RecExpr)>) -> bool { es.contains(size_pair(g, a, b)) || es.contains(size_pair(g, b, a)) }
pub open spec fn all_rel(g: EGraph, rel: spec_fn(Id, Id) -> bool, es: Seq<(RecExpr, RecExpr)>) -> bool { forall|a: Id, b: Id| #[trigger] rel(a, b) ==> either(g, a, b, es) }
/// rules, in both directions, between the smallest terms of exactly the pairs of related classes
pub open spec fn exactly_rel(g: EGraph, rel: spec_fn(Id, Id) -> bool, s: Seq<(String, Rule)>) -> bool { exists|es: Seq<(RecExpr, RecExpr)>| #[trigger] built(es, s) && only_rel(g, rel, es) && all_rel(g, rel, es) }
// members of a bucket, in pairs
#[verifier::opaque]
pub open spec fn tail_of(g: EGraph, rel: spec_fn(Id, Id) -> bool, v: Seq<Id>, x: int, y: int, es: Seq<(RecExpr, RecExpr)>) -> bool { forall|j: int| x < j < y && rel(v[x], #[trigger] v[j]) ==> es.contains(size_pair(g, v[x], v[j])) }
#[verifier::opaque]
pub open spec fn tails_of(g: EGraph, rel: spec_fn(Id, Id) -> bool, v: Seq<Id>, x: int, es: Seq<(RecExpr, RecExpr)>) -> bool { forall|i: int| 0 <= i < x ==> tail_of(g, rel, v, i, v.len() as int, es) }
#[verifier::opaque]
pub open spec fn lists_done(g: EGraph, rel: spec_fn(Id, Id) -> bool, vs: Seq<Seq<Id>>, n: int, es: Seq<(RecExpr, RecExpr)>) -> bool { forall|p: int| 0 <= p < n ==> tails_of(g, rel, #[trigger] vs[p], vs[p].len() as int, es) }
pub open spec fn rel_step(g: EGraph, rel: spec_fn(Id, Id) -> bool, a: Id, b: Id, es: Seq<(RecExpr, RecExpr)>) -> Seq<(RecExpr, RecExpr)> { if rel(a, b) { es.push(size_pair(g, a, b)) } else { es } }
pub proof fn lemma_tails_more(g: EGraph, rel: spec_fn(Id, Id) -> bool, v: Seq<Id>, x: int, es: Seq<(RecExpr, RecExpr)>, fs: Seq<(RecExpr, RecExpr)>)
    requires tails_of(g, rel, v, x, es), more(es, fs),
    ensures tails_of(g, rel, v, x, fs),
{ reveal(tails_of); reveal(tail_of); assert forall|i: int| 0 <= i < x implies tail_of(g, rel, v, i, v.len() as int, fs) by { assert(tail_of(g, rel, v, i, v.len() as int, es)); } }
pub proof fn lemma_rel_step(g: EGraph, rel: spec_fn(Id, Id) -> bool, vs: Seq<Seq<Id>>, n: int, v: Seq<Id>, x: int, y: int, es: Seq<(RecExpr, RecExpr)>)
    requires only_rel(g, rel, es), lists_done(g, rel, vs, n, es), tails_of(g, rel, v, x, es), tail_of(g, rel, v, x, y, es), 0 <= x < y < v.len(),
    ensures ({ let fs = rel_step(g, rel, v[x], v[y], es); only_rel(g, rel, fs) && lists_done(g, rel, vs, n, fs) && tails_of(g, rel, v, x, fs) && tail_of(g, rel, v, x, y + 1, fs) }),
{
    let e = size_pair(g, v[x], v[y]);
    let fs = rel_step(g, rel, v[x], v[y], es);
    if rel(v[x], v[y]) {
        lemma_more(es, e);
        assert(only_rel(g, rel, fs)) by { reveal(only_rel); assert forall|i: int| 0 <= i < fs.len() implies rel_pair(g, rel, #[trigger] fs[i]) by { if i < es.len() { assert(es[i] == fs[i]); } } }
    }
    assert(more(es, fs));
    lemma_tails_more(g, rel, v, x, es, fs);
    assert(lists_done(g, rel, vs, n, fs)) by { reveal(lists_done); assert forall|p: int| 0 <= p < n implies tails_of(g, rel, #[trigger] vs[p], vs[p].len() as int, fs) by { lemma_tails_more(g, rel, vs[p], vs[p].len() as int, es, fs); } }
    assert(tail_of(g, rel, v, x, y + 1, fs)) by { reveal(tail_of); }
}
pub proof fn lemma_rel_starts(g: EGraph, rel: spec_fn(Id, Id) -> bool, vs: Seq<Seq<Id>>, v: Seq<Id>, x: int, es: Seq<(RecExpr, RecExpr)>)
    ensures lists_done(g, rel, vs, 0, es), tails_of(g, rel, v, 0, es), tail_of(g, rel, v, x, x + 1, es), es.len() == 0 ==> only_rel(g, rel, es),
        tail_of(g, rel, v, x, v.len() as int, es) && tails_of(g, rel, v, x, es) ==> tails_of(g, rel, v, x + 1, es),
        tails_of(g, rel, v, x, es) && x + 1 >= v.len() ==> tails_of(g, rel, v, x + 1, es),
        forall|n: int| lists_done(g, rel, vs, n, es) && vs[n] == v && tails_of(g, rel, v, v.len() as int, es) ==> #[trigger] lists_done(g, rel, vs, n + 1, es),
{ reveal(lists_done); reveal(tails_of); reveal(tail_of); reveal(only_rel); }
/// two members of a list that are related have been paired
pub proof fn lemma_listed(g: EGraph, rel: spec_fn(Id, Id) -> bool, vs: Seq<Seq<Id>>, es: Seq<(RecExpr, RecExpr)>, p: int, a: Id, b: Id)
    requires lists_done(g, rel, vs, vs.len() as int, es), 0 <= p < vs.len(), vs[p].contains(a), vs[p].contains(b), a != b, rel(a, b), rel(b, a),
    ensures either(g, a, b, es),
{
    reveal(lists_done); reveal(tails_of); reveal(tail_of);
    let v = vs[p];
    let x = choose|x: int| 0 <= x < v.len() && v[x] == a;
    let y = choose|y: int| 0 <= y < v.len() && v[y] == b;
    assert(tails_of(g, rel, v, v.len() as int, es));
    if x < y { assert(tail_of(g, rel, v, x, v.len() as int, es)); assert(es.contains(size_pair(g, v[x], v[y]))); } else { assert(tail_of(g, rel, v, y, v.len() as int, es)); assert(es.contains(size_pair(g, v[y], v[x]))); }
}
// ---- the exact search ----
pub open spec fn first_key(g: EGraph) -> spec_fn(Id) -> Option<Constant> { |a: Id| cv(g, a)[0] }
pub open spec fn none_of(bs: Seq<(Option<Constant>, Vec<Id>)>) -> Seq<Id> { if im_has(bs, None) { im_get(bs, None)@ } else { Seq::empty() } }
/// what a bucket is compared with itself: its own classes, and those whose first value is undefined
pub open spec fn mixed(bs: Seq<(Option<Constant>, Vec<Id>)>, p: int) -> Seq<Id> { if bs[p].0 is Some { bs[p].1@ + none_of(bs) } else { bs[p].1@ } }
pub open spec fn mixes(bs: Seq<(Option<Constant>, Vec<Id>)>) -> Seq<Seq<Id>> { Seq::new(bs.len(), |p: int| mixed(bs, p)) }
pub open spec fn some_ids(g: EGraph) -> Seq<Id> { ids_of(chosen(g_classes(g), with_some(), g_classes(g).len())) }
pub proof fn lemma_some_ids(g: EGraph)
    ensures forall|a: Id| #[trigger] some_ids(g).contains(a) <==> class_of(g, a) && has_some(cv(g, a)), some_ids(g).no_duplicates(),
{
    broadcast use ax_classes;
    let cs = g_classes(g);
    lemma_chosen(cs, with_some(), cs.len());
    let ch = chosen(cs, with_some(), cs.len());
    assert forall|a: Id| #[trigger] some_ids(g).contains(a) <==> class_of(g, a) && has_some(cv(g, a)) by {
        if some_ids(g).contains(a) {
            let k = choose|k: int| 0 <= k < ch.len() && some_ids(g)[k] == a;
            assert(drawn(cs, with_some(), cs.len(), ch[k]));
        }
        if class_of(g, a) && has_some(cv(g, a)) {
            let i = choose|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).id == a;
            assert(with_some()(cs[i]));
            assert(ch.contains(cs[i]));
            let k = choose|k: int| 0 <= k < ch.len() && ch[k] == cs[i];
            assert(some_ids(g)[k] == a);
        }
    }
    assert forall|i: int, j: int| 0 <= i < some_ids(g).len() && 0 <= j < some_ids(g).len() && i != j implies some_ids(g)[i] != some_ids(g)[j] by { if i < j { assert(ch[i].id != ch[j].id); } else { assert(ch[j].id != ch[i].id); } }
}
/// the members of a mixed bucket are distinct classes
pub proof fn lemma_mixed(g: EGraph, bs: Seq<(Option<Constant>, Vec<Id>)>, p: int)
    requires im_wf(bs), buckets(bs, first_key(g), some_ids(g)), 0 <= p < bs.len(),
    ensures forall|x: int| 0 <= x < mixed(bs, p).len() ==> some_ids(g).contains(#[trigger] mixed(bs, p)[x]), mixed(bs, p).no_duplicates(),
{
    let v = mixed(bs, p);
    let a = bs[p].1@;
    let b = none_of(bs);
    assert(bucket_ok(first_key(g), some_ids(g), bs[p].0, a));
    if im_has(bs, None) { let q = im_pos(bs, None); assert(bucket_ok(first_key(g), some_ids(g), bs[q].0, bs[q].1@)); }
    if bs[p].0 is Some {
        assert forall|x: int| 0 <= x < v.len() implies some_ids(g).contains(#[trigger] v[x]) by { if x < a.len() { assert(v[x] == a[x]); } else { assert(v[x] == b[x - a.len()]); } }
        assert forall|x: int, y: int| 0 <= x < v.len() && 0 <= y < v.len() && x != y implies v[x] != v[y] by {
            if x < a.len() { assert(first_key(g)(a[x]) == bs[p].0); } else { assert(first_key(g)(b[x - a.len()]) is None); }
            if y < a.len() { assert(first_key(g)(a[y]) == bs[p].0); } else { assert(first_key(g)(b[y - a.len()]) is None); }
        }
    } else {
        assert forall|x: int| 0 <= x < v.len() implies some_ids(g).contains(#[trigger] v[x]) by { assert(v[x] == a[x]); }
    }
}
pub proof fn lemma_matching_back(a: CV, b: CV) requires matching(a, b) ensures matching(b, a) {
    let n = shorter(a, b);
    assert forall|i: int| 0 <= i < n implies agree_at(#[trigger] b[i], a[i]) by { assert(agree_at(a[i], b[i])); }
    let i = choose|i: int| 0 <= i < n && (#[trigger] a[i]) is Some && b[i] is Some;
    assert(b[i] is Some && a[i] is Some);
}
pub proof fn lemma_all_match(g: EGraph, bs: Seq<(Option<Constant>, Vec<Id>)>, es: Seq<(RecExpr, RecExpr)>)
    requires im_wf(bs), buckets(bs, first_key(g), some_ids(g)), lists_done(g, match_rel(g), mixes(bs), bs.len() as int, es),
    ensures all_rel(g, match_rel(g), es),
{
    lemma_some_ids(g);
    let rel = match_rel(g);
    let ids = some_ids(g);
    assert forall|a: Id, b: Id| #[trigger] rel(a, b) implies either(g, a, b, es) by {
        let (ca, cb) = (cv(g, a), cv(g, b));
        lemma_matching_back(ca, cb);
        let i = choose|i: int| 0 <= i < shorter(ca, cb) && (#[trigger] ca[i]) is Some && cb[i] is Some;
        assert(has_some(ca)); assert(has_some(cb));
        assert(agree_at(ca[0], cb[0]));
        assert(ids.contains(a) && ids.contains(b));
        let x = choose|x: int| 0 <= x < ids.len() && ids[x] == a;
        let y = choose|y: int| 0 <= y < ids.len() && ids[y] == b;
        let key = first_key(g);
        assert(key(a) == ca[0] && key(b) == cb[0]);
        assert(in_bucket(bs, key(ids[x]), ids[x]) && in_bucket(bs, key(ids[y]), ids[y]));
        let k = know(ca[0], cb[0]);
        let p = im_pos(bs, k);
        assert(im_has(bs, k));
        let v = mixed(bs, p);
        assert(mixes(bs)[p] == v);
        lemma_in_mixed(bs, p, a, ca[0]);
        lemma_in_mixed(bs, p, b, cb[0]);
        lemma_listed(g, rel, mixes(bs), es, p, a, b);
    }
}
pub proof fn lemma_in_mixed(bs: Seq<(Option<Constant>, Vec<Id>)>, p: int, a: Id, k: Option<Constant>)
    requires im_wf(bs), 0 <= p < bs.len(), in_bucket(bs, k, a), k == bs[p].0 || k is None,
    ensures mixed(bs, p).contains(a),
{
    let v = mixed(bs, p);
    if k == bs[p].0 {
        assert(im_pos(bs, k) == p) by { let q = im_pos(bs, k); assert(bs[q].0 == k); if q < p { assert(bs[q].0 != bs[p].0); } else if p < q { assert(bs[p].0 != bs[q].0); } }
        let x = choose|x: int| 0 <= x < bs[p].1@.len() && bs[p].1@[x] == a;
        assert(v[x] == a);
    } else {
        let x = choose|x: int| 0 <= x < none_of(bs).len() && none_of(bs)[x] == a;
        assert(v[bs[p].1@.len() + x] == a);
    }
}
// ---- the fast search ----
pub open spec fn whole_key(g: EGraph) -> spec_fn(Id) -> &'static CVec { |a: Id| &g_class(g, a).data.cvec }
pub open spec fn def_ids(g: EGraph, n: nat) -> Seq<Id> { ids_of(chosen(g_classes(g), with_defined(), n)) }
pub proof fn lemma_def_ids(g: EGraph, n: nat)
    requires n <= g_classes(g).len(),
    ensures
        forall|a: Id| #[trigger] def_ids(g, n).contains(a) ==> class_of(g, a) && defined(g_class(g, a).data),
        n == g_classes(g).len() ==> forall|a: Id| class_of(g, a) && defined(g_class(g, a).data) ==> #[trigger] def_ids(g, n).contains(a),
        n < g_classes(g).len() ==> !def_ids(g, n).contains(g_classes(g)[n as int].id),
        n < g_classes(g).len() ==> def_ids(g, n + 1) == (if defined(g_classes(g)[n as int].data) { def_ids(g, n).push(g_classes(g)[n as int].id) } else { def_ids(g, n) }),
{
    broadcast use ax_classes;
    let cs = g_classes(g);
    lemma_chosen(cs, with_defined(), n);
    let ch = chosen(cs, with_defined(), n);
    assert forall|a: Id| #[trigger] def_ids(g, n).contains(a) implies class_of(g, a) && defined(g_class(g, a).data) by {
        let k = choose|k: int| 0 <= k < ch.len() && def_ids(g, n)[k] == a;
        assert(drawn(cs, with_defined(), n, ch[k]));
    }
    if n == cs.len() {
        assert forall|a: Id| class_of(g, a) && defined(g_class(g, a).data) implies #[trigger] def_ids(g, n).contains(a) by {
            let i = choose|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).id == a;
            assert(with_defined()(cs[i]));
            assert(ch.contains(cs[i]));
            let k = choose|k: int| 0 <= k < ch.len() && ch[k] == cs[i];
            assert(def_ids(g, n)[k] == a);
        }
    } else {
        if def_ids(g, n).contains(cs[n as int].id) {
            let k = choose|k: int| 0 <= k < ch.len() && def_ids(g, n)[k] == cs[n as int].id;
            assert(drawn(cs, with_defined(), n, ch[k]));
            let i = choose|i: int| 0 <= i < n && ch[k] == #[trigger] cs[i] && with_defined()(ch[k]);
            assert(cs[i].id != cs[n as int].id);
        }
        assert(def_ids(g, n + 1) =~= (if defined(cs[n as int].data) { def_ids(g, n).push(cs[n as int].id) } else { def_ids(g, n) }));
    }
}
pub open spec fn lists(bs: Seq<(&CVec, Vec<Id>)>) -> Seq<Seq<Id>> { Seq::new(bs.len(), |p: int| bs[p].1@) }
pub proof fn lemma_all_same(g: EGraph, bs: Seq<(&CVec, Vec<Id>)>, es: Seq<(RecExpr, RecExpr)>)
    requires im_wf(bs), buckets(bs, whole_key(g), def_ids(g, g_classes(g).len())), lists_done(g, same_rel(g), lists(bs), bs.len() as int, es),
    ensures all_rel(g, same_rel(g), es),
{
    broadcast use ax_mkvec_of;
    let n = g_classes(g).len();
    lemma_def_ids(g, n);
    let rel = same_rel(g);
    let ids = def_ids(g, n);
    let key = whole_key(g);
    assert forall|a: Id, b: Id| #[trigger] rel(a, b) implies either(g, a, b, es) by {
        assert(mkvec(cv(g, a)) == g_class(g, a).data.cvec && mkvec(cv(g, b)) == g_class(g, b).data.cvec);
        assert(key(a) == key(b));
        assert(defined(g_class(g, b).data));
        assert(ids.contains(a) && ids.contains(b));
        let x = choose|x: int| 0 <= x < ids.len() && ids[x] == a;
        let y = choose|y: int| 0 <= y < ids.len() && ids[y] == b;
        assert(in_bucket(bs, key(ids[x]), ids[x]) && in_bucket(bs, key(ids[y]), ids[y]));
        let p = im_pos(bs, key(a));
        assert(lists(bs)[p] == im_get(bs, key(a))@);
        lemma_listed(g, rel, lists(bs), es, p, a, b);
    }
}
/// the members of a bucket are distinct classes with the same vector
pub proof fn lemma_same_bucket(g: EGraph, bs: Seq<(&CVec, Vec<Id>)>, p: int)
    requires buckets(bs, whole_key(g), def_ids(g, g_classes(g).len())), 0 <= p < bs.len(),
    ensures forall|x: int, y: int| 0 <= x < y < bs[p].1@.len() ==> same_rel(g)(#[trigger] bs[p].1@[x], #[trigger] bs[p].1@[y]),
{
    let ids = def_ids(g, g_classes(g).len());
    lemma_def_ids(g, g_classes(g).len());
    assert(bucket_ok(whole_key(g), ids, bs[p].0, bs[p].1@));
    let v = bs[p].1@;
    assert forall|x: int, y: int| 0 <= x < y < v.len() implies same_rel(g)(#[trigger] v[x], #[trigger] v[y]) by { assert(ids.contains(v[x]) && ids.contains(v[y])); assert(whole_key(g)(v[x]) == whole_key(g)(v[y])); assert(v[x] != v[y]); }
}
} // mod cm
use cm::*;
@fn Ruleset::cvec_match
@props C18
@flags index=trait panics-ok
@spec
    ensures exactly_rel(*egraph, match_rel(*egraph), r.0@),
@entry
    broadcast use {lemma_built, ax_best, ax_classes, ax_im_wf};
    let ghost mut vx_es: Seq<(RecExpr, RecExpr)> = Seq::empty();
    let ghost vx_cs = g_classes(*egraph);
    let ghost vx_ch = chosen(vx_cs, with_some(), vx_cs.len());
    let ghost vx_key = first_key(*egraph);
    let ghost vx_rel = match_rel(*egraph);
    proof { lemma_built_none(); lemma_some_ids(*egraph); lemma_chosen(vx_cs, with_some(), vx_cs.len()); }
@loop 0
    $s == vx_cs
    derefs($acc@) =~= chosen(vx_cs, with_some(), $i)
@loop 1
    $acc == exists|k: int| 0 <= k < $i && (#[trigger] $s[k]) is Some
@after 0
    proof { assert(derefs($acc@) == vx_ch); }
@loop 2
    derefs($s) == vx_ch
    buckets($acc@, vx_key, some_ids(*egraph).take($i as int))
@body 2
    let ghost vx_b0 = $acc@;
    let ghost vx_p = $i as int;
    let ghost vx_x = vx_ch[vx_p];
    proof { assert(derefs($s)[vx_p] == vx_x); assert(drawn(vx_cs, with_some(), vx_cs.len(), vx_x)); }
@tail 2
    proof {
        assert(some_ids(*egraph)[vx_p] == vx_x.id);
        assert(!some_ids(*egraph).take(vx_p).contains(vx_x.id)) by { if some_ids(*egraph).take(vx_p).contains(vx_x.id) { let j = choose|j: int| 0 <= j < vx_p && some_ids(*egraph).take(vx_p)[j] == vx_x.id; assert(some_ids(*egraph)[j] == vx_x.id); } }
        lemma_bucket(vx_b0, vx_key, some_ids(*egraph).take(vx_p), vx_x.id, vx_x.data.cvec@[0], $acc@);
        assert(some_ids(*egraph).take(vx_p).push(vx_x.id) =~= some_ids(*egraph).take(vx_p + 1));
    }
@after 2
    proof { assert(some_ids(*egraph).take($i as int) =~= some_ids(*egraph)); }
@before 3
    let ghost vx_bs = $s;
    proof { lemma_rel_starts(*egraph, vx_rel, mixes(vx_bs), Seq::empty(), 0, vx_es); }
@loop 3
    built(vx_es, $acc.0@)
    only_rel(*egraph, vx_rel, vx_es)
    lists_done(*egraph, vx_rel, mixes(vx_bs), $i as int, vx_es)
@body 3
    let ghost vx_p = $i as int;
    let ghost vx_v = mixed(vx_bs, vx_p);
    proof { lemma_mixed(*egraph, vx_bs, vx_p); assert(mixes(vx_bs)[vx_p] == vx_v); lemma_rel_starts(*egraph, vx_rel, mixes(vx_bs), vx_v, 0, vx_es); }
@tail 3
    proof { lemma_rel_starts(*egraph, vx_rel, mixes(vx_bs), vx_v, 0, vx_es); assert(lists_done(*egraph, vx_rel, mixes(vx_bs), vx_p + 1, vx_es)); }
@loop 4
    built(vx_es, $acc.0@)
    only_rel(*egraph, vx_rel, vx_es)
    lists_done(*egraph, vx_rel, mixes(vx_bs), vx_p, vx_es)
    tails_of(*egraph, vx_rel, vx_v, $i as int, vx_es)
@body 4
    let ghost vx_a = $i as int;
    proof { lemma_rel_starts(*egraph, vx_rel, mixes(vx_bs), vx_v, vx_a, vx_es); }
@tail 4
    proof { lemma_rel_starts(*egraph, vx_rel, mixes(vx_bs), vx_v, vx_a, vx_es); }
@loop 5
    built(vx_es, $acc.0@)
    only_rel(*egraph, vx_rel, vx_es)
    lists_done(*egraph, vx_rel, mixes(vx_bs), vx_p, vx_es)
    tails_of(*egraph, vx_rel, vx_v, vx_a, vx_es)
    tail_of(*egraph, vx_rel, vx_v, vx_a, $i as int, vx_es)
@body 5
    proof {
        assert(some_ids(*egraph).contains(vx_v[vx_a]) && some_ids(*egraph).contains(vx_v[$i as int]));
        assert(vx_v[vx_a] != vx_v[$i as int]);
        lemma_rel_step(*egraph, vx_rel, mixes(vx_bs), vx_p, vx_v, vx_a, $i as int, vx_es);
        vx_es = rel_step(*egraph, vx_rel, vx_v[vx_a], vx_v[$i as int], vx_es);
    }
@after 3
    proof { lemma_all_match(*egraph, vx_bs, vx_es); assert(exactly_rel(*egraph, vx_rel, $acc.0@)); }
@closure compare
@sig (cvec1: &Vec<Option<Constant>>, cvec2: &Vec<Option<Constant>>) -> (r: bool)
@spec
    ensures r == matching(cvec1@, cvec2@),
@loop 0
    no_clash(cvec1@, cvec2@, $i as int)
    overlap == meet(cvec1@, cvec2@, $i as int)
@end
@raw
/// s is the smallest terms of the n classes of v from a position on
pub open spec fn smallest(g: EGraph, v: Seq<Id>, from: int, n: int, s: Seq<RecExpr>) -> bool { s.len() == n && forall|k: int| 0 <= k < n ==> #[trigger] s[k] == best::<AstSize>(g, v[from + k]) }
@fn Ruleset::fast_cvec_match
@props C18
@flags index=trait rlimit=60
@spec
    ensures exactly_rel(*egraph, same_rel(*egraph), r.0@),
@entry
    broadcast use {lemma_built, ax_best, ax_classes, ax_im_wf};
    let ghost mut vx_es: Seq<(RecExpr, RecExpr)> = Seq::empty();
    let ghost vx_cs = g_classes(*egraph);
    let ghost vx_key = whole_key(*egraph);
    let ghost vx_rel = same_rel(*egraph);
    proof { lemma_built_none(); }
@loop 0
    $s == vx_cs
    buckets($acc@, vx_key, def_ids(*egraph, $i))
@body 0
    let ghost vx_b0 = $acc@;
    let ghost vx_p = $i;
    proof { lemma_def_ids(*egraph, vx_p); }
@tail 0
    proof { if defined(vx_cs[vx_p as int].data) { lemma_bucket(vx_b0, vx_key, def_ids(*egraph, vx_p), vx_cs[vx_p as int].id, &vx_cs[vx_p as int].data.cvec, $acc@); } }
@before 1
    let ghost vx_bs = by_cvec@;
    proof { lemma_rel_starts(*egraph, vx_rel, lists(vx_bs), Seq::empty(), 0, vx_es); }
@loop 1
    built(vx_es, $acc.0@)
    only_rel(*egraph, vx_rel, vx_es)
    lists_done(*egraph, vx_rel, lists(vx_bs), $i as int, vx_es)
@body 1
    let ghost vx_p = $i as int;
    let ghost vx_v = vx_bs[vx_p].1@;
    proof { lemma_same_bucket(*egraph, vx_bs, vx_p); assert(lists(vx_bs)[vx_p] == vx_v); lemma_rel_starts(*egraph, vx_rel, lists(vx_bs), vx_v, 0, vx_es); }
@tail 1
    proof { lemma_rel_starts(*egraph, vx_rel, lists(vx_bs), vx_v, 0, vx_es); assert(lists_done(*egraph, vx_rel, lists(vx_bs), vx_p + 1, vx_es)); }
@loop 2
    $s == vx_v
    smallest(*egraph, vx_v, 0, $i as int, $acc@)
@loop 3
    smallest(*egraph, vx_v, 0, vx_v.len() as int, $s)
    built(vx_es, $acc.0@)
    only_rel(*egraph, vx_rel, vx_es)
    lists_done(*egraph, vx_rel, lists(vx_bs), vx_p, vx_es)
    tails_of(*egraph, vx_rel, vx_v, $i as int, vx_es)
@body 3
    let ghost vx_a = $i as int;
    proof { lemma_rel_starts(*egraph, vx_rel, lists(vx_bs), vx_v, vx_a, vx_es); }
@tail 3
    proof { lemma_rel_starts(*egraph, vx_rel, lists(vx_bs), vx_v, vx_a, vx_es); }
@loop 4
    smallest(*egraph, vx_v, vx_a + 1, vx_v.len() - vx_a - 1, $s)
    built(vx_es, $acc.0@)
    only_rel(*egraph, vx_rel, vx_es)
    lists_done(*egraph, vx_rel, lists(vx_bs), vx_p, vx_es)
    tails_of(*egraph, vx_rel, vx_v, vx_a, vx_es)
    tail_of(*egraph, vx_rel, vx_v, vx_a, vx_a + 1 + $i, vx_es)
@body 4
    proof {
        let ghost vx_y = vx_a + 1 + $i;
        assert(vx_rel(vx_v[vx_a], vx_v[vx_y]));
        lemma_rel_step(*egraph, vx_rel, lists(vx_bs), vx_p, vx_v, vx_a, vx_y, vx_es);
        vx_es = rel_step(*egraph, vx_rel, vx_v[vx_a], vx_v[vx_y], vx_es);
    }
@after 1
    proof { lemma_all_same(*egraph, vx_bs, vx_es); assert(exactly_rel(*egraph, vx_rel, $acc.0@)); }
@end
