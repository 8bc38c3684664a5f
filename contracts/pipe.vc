@type Lang Clone
@type Metric Copy
@stub .elapsed .as_secs_f64 iter_metric base_lang .filter .plug Workload::new
@raw
// ======== inference pipelines (C28) ========
pub mod pp {
use super::*;
  broadcast use {ax_im_wf, ax_mkim_of};
// time, used only for printing
#[verifier::external_body]
pub struct Seconds { x: u8 }
impl Instant { #[verifier::external_body] pub fn elapsed(&self) -> (r: Duration) { unimplemented!() } }
impl Duration { #[verifier::external_body] pub fn as_secs_f64(&self) -> (r: Seconds) { unimplemented!() } }
// ---- building workloads: the functions and their contracts are in the enumo unit ----
#[verifier::external_body]
pub struct EPattern { x: u8 }
pub uninterp spec fn epat_parse(s: Seq<char>) -> Option<EPattern>;
impl VFromText for EPattern { open spec fn reads(s: Seq<char>) -> Option<EPattern> { epat_parse(s) } }
pub enum Filter { MetricLt(Metric, usize), MetricEq(Metric, usize), Contains(EPattern), Excludes(EPattern), Canon(Vec<String>), And(Vec<Filter>), Or(Vec<Filter>), Invert(Box<Filter>) }
pub uninterp spec fn w_iter(w: Workload, atom: Seq<char>, m: Metric, n: int) -> Workload;
pub uninterp spec fn w_base(n: int) -> Workload;
pub uninterp spec fn w_new(ts: Seq<Seq<char>>) -> Workload;
pub uninterp spec fn w_plug(w: Workload, name: Seq<char>, pegs: Workload) -> Workload;
pub uninterp spec fn w_filter(w: Workload, f: Filter) -> Workload;
pub trait VTexts { spec fn texts(&self) -> Seq<Seq<char>>; }
impl VTexts for Vec<String> { open spec fn texts(&self) -> Seq<Seq<char>> { views(self@) } }
impl<T: VTexts> VTexts for &T { open spec fn texts(&self) -> Seq<Seq<char>> { (**self).texts() } }
impl Workload {
    #[verifier::external_body] pub fn new<I: VTexts>(vals: I) -> (r: Workload) ensures r == w_new(vals.texts()) { unimplemented!() }
    #[verifier::external_body] pub fn plug<S: VText>(self, name: S, pegs: &Workload) -> (r: Workload) ensures r == w_plug(self, name.text(), *pegs) { unimplemented!() }
    #[verifier::external_body] pub fn filter(self, f: Filter) -> (r: Workload) ensures r == w_filter(self, f) { unimplemented!() }
}
#[verifier::external_body]
pub fn iter_metric(w: Workload, atom: &String, m: Metric, n: usize) -> (r: Workload) ensures r == w_iter(w, atom@, m, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn base_lang(n: usize) -> (r: Workload) ensures r == w_base(n as int) { unimplemented!() }
// ---- allowed rules ----
pub open spec fn all_allowed_nodes(p: Pattern) -> bool { forall|i: int| 0 <= i < p.ast.nodes@.len() ==> node_allowed(#[trigger] p.ast.nodes@[i]) }
pub open spec fn node_allowed(n: ENodeOrVar) -> bool { match n { ENodeOrVar::ENode(e) => allowed_op(e), ENodeOrVar::Var(_) => true } }
// ---- candidates have their rules' names ----
pub proof fn lemma_both_keyed(ps: Seq<(Pattern, Pattern)>, n: nat)
    requires n <= ps.len(),
    ensures keyed(both_of(ps, n)), im_wf(both_of(ps, n)),
    decreases n,
{
    if n > 0 {
        lemma_both_keyed(ps, (n - 1) as nat);
        let s = both_of(ps, (n - 1) as nat);
        lemma_put_keyed(s, rule_new(ps[n - 1].0, ps[n - 1].1));
        lemma_put_keyed(put_rule(s, rule_new(ps[n - 1].0, ps[n - 1].1)), rule_new(ps[n - 1].1, ps[n - 1].0));
    }
}
pub proof fn lemma_put_keyed(s: Seq<(String, Rule)>, r: Option<Rule>)
    requires keyed(s), im_wf(s),
    ensures keyed(put_rule(s, r)), im_wf(put_rule(s, r)),
{
    if let Some(x) = r { lemma_put(s, x.name, x); let t = put_rule(s, r); assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0 == t[i].1.name by { if t[i] != (x.name, x) { assert(t[i] == s[i]); } } }
}
pub broadcast proof fn lemma_built_keyed(es: Seq<(RecExpr, RecExpr)>, s: Seq<(String, Rule)>)
    requires #[trigger] built(es, s),
    ensures keyed(s),
{ let ps = choose|ps: Seq<(Pattern, Pattern)>| #[trigger] pats_of(es, ps) && s == both_of(ps, ps.len()); lemma_both_keyed(ps, ps.len()); }
pub broadcast proof fn lemma_rel_keyed(g: EGraph, rel: spec_fn(Id, Id) -> bool, s: Seq<(String, Rule)>)
    requires #[trigger] exactly_rel(g, rel, s),
    ensures keyed(s),
{ let es = choose|es: Seq<(RecExpr, RecExpr)>| #[trigger] built(es, s) && only_rel(g, rel, es) && all_rel(g, rel, es); lemma_built_keyed(es, s); }
pub broadcast proof fn lemma_new_keyed(g: EGraph, h: EGraph, s: Seq<(String, Rule)>)
    requires #[trigger] exactly_new(g, h, s),
    ensures keyed(s),
{ let es = choose|es: Seq<(RecExpr, RecExpr)>| #[trigger] built(es, s) && news(g, h, es) && all_news(g, h, es); lemma_built_keyed(es, s); }
// ---- what inference returns ----
/// the outcome of minimising candidates against prior rules
pub open spec fn learned(s: Scheduler, c: Seq<(String, Rule)>, prior: Seq<(String, Rule)>, r: Seq<(String, Rule)>) -> bool { exists|inv: Seq<(String, Rule)>| #[trigger] sound_pair(c, prior, r, inv) && complete_pair(s, c, prior, r, inv) }
pub open spec fn matches_of(g: EGraph, fast: bool, c: Seq<(String, Rule)>) -> bool { if fast { exactly_rel(g, same_rel(g), c) } else { exactly_rel(g, match_rel(g), c) } }
/// candidates of the e-graph that the prior rules compress the workload's terms into, minimised against the prior rules
#[verifier::opaque]
pub open spec fn inferred(w: Workload, prior: Seq<(String, Rule)>, pl: Limits, ml: Limits, fast: bool, r: Seq<(String, Rule)>) -> bool {
    readable(w) && exists|g: EGraph, c: Seq<(String, Rule)>| #[trigger] ran(Scheduler::Compress(pl), materialised(w), im_vals(prior), None, g) && #[trigger] matches_of(g, fast, c) && learned(Scheduler::Compress(ml), c, prior, r)
}
pub broadcast proof fn lemma_inferred(w: Workload, prior: Seq<(String, Rule)>, pl: Limits, ml: Limits, g: EGraph, rel: spec_fn(Id, Id) -> bool, c: Seq<(String, Rule)>, r: Seq<(String, Rule)>, inv: Seq<(String, Rule)>, rs: Seq<Rule>, g0: EGraph)
    requires
        #[trigger] ran(Scheduler::Compress(pl), g0, rs, None, g), g0 == materialised(w), rs == im_vals(prior), #[trigger] readable(w), #[trigger] exactly_rel(g, rel, c),
        #[trigger] sound_pair(c, prior, r, inv), #[trigger] complete_pair(Scheduler::Compress(ml), c, prior, r, inv),
    ensures rel == same_rel(g) ==> inferred(w, prior, pl, ml, true, r), rel == match_rel(g) ==> inferred(w, prior, pl, ml, false, r),
{ reveal(inferred);
    assert(learned(Scheduler::Compress(ml), c, prior, r));
    if rel == same_rel(g) { assert(matches_of(g, true, c)); }
    if rel == match_rel(g) { assert(matches_of(g, false, c)); }
}
/// C28: rules inferred are judged valid and are no prior rules
pub proof fn theorem_inferred(w: Workload, prior: Seq<(String, Rule)>, pl: Limits, ml: Limits, fast: bool, r: Seq<(String, Rule)>, i: int)
    requires inferred(w, prior, pl, ml, fast, r), 0 <= i < r.len(),
    ensures verdict(r[i].1, true), !im_has(prior, r[i].0),
{ reveal(inferred);
    let (g, c) = choose|g: EGraph, c: Seq<(String, Rule)>| #[trigger] ran(Scheduler::Compress(pl), materialised(w), im_vals(prior), None, g) && #[trigger] matches_of(g, fast, c) && learned(Scheduler::Compress(ml), c, prior, r);
    let inv = choose|inv: Seq<(String, Rule)>| #[trigger] sound_pair(c, prior, r, inv) && complete_pair(Scheduler::Compress(ml), c, prior, r, inv);
    assert(from_cands(c, r[i], true));
}
// ---- fast-forwarding ----
pub uninterp spec fn exploratory() -> Seq<(String, Rule)>;
impl L { #[verifier::external_body] pub fn get_exploratory_rules() -> (r: Ruleset) ensures r.0@ == exploratory() { unimplemented!() } }
pub open spec fn allowed_rule(r: Rule) -> bool { all_allowed_nodes(r.lhs) && all_allowed_nodes(r.rhs) }
/// the rules that may be used first
pub open spec fn usable(s: Seq<(String, Rule)>, n: nat) -> Seq<Rule> decreases n { if n == 0 { Seq::empty() } else { let p = usable(s, (n - 1) as nat); if allowed_rule(s[n - 1].1) { p.push(s[n - 1].1) } else { p } } }
pub open spec fn usables(s: Seq<(String, Rule)>) -> Seq<(String, Rule)> { puts(Seq::empty(), usable(s, s.len()), usable(s, s.len()).len()) }
#[verifier::opaque]
pub open spec fn forwarded(w: Workload, prior: Seq<(String, Rule)>, pl: Limits, ml: Limits, r: Seq<(String, Rule)>) -> bool {
    readable(w) && exists|g1: EGraph, g2: EGraph, g3: EGraph, c1: Seq<(String, Rule)>, c2: Seq<(String, Rule)>| {
        &&& #[trigger] ran(Scheduler::Compress(pl), materialised(w), im_vals(usables(prior)), None, g1)
        &&& #[trigger] ran(Scheduler::Simple(pl), g1, im_vals(exploratory()), None, g2)
        &&& #[trigger] ran(Scheduler::Compress(pl), g2, im_vals(im_merge(prior, exploratory(), exploratory().len())), None, g3)
        &&& #[trigger] exactly_new(g1, g2, c1) && #[trigger] exactly_new(g2, g3, c2)
        &&& learned(Scheduler::Compress(ml), im_merge(c1, c2, c2.len()), prior, r)
    }
}
pub proof fn lemma_usable<F: Fn(&Rule) -> bool>(f: F, s: Seq<(String, Rule)>, fl: Seq<bool>, n: nat)
    requires answered(f, im_vals(s), fl), n <= s.len(), forall|x: &Rule, b: bool| #[trigger] f.ensures((x,), b) ==> b == allowed_rule(*x),
    ensures pick(im_vals(s), fl, true, n) == usable(s, n),
    decreases n,
{ if n > 0 { lemma_usable(f, s, fl, (n - 1) as nat); assert(f.ensures((&im_vals(s)[n - 1],), fl[n - 1])); } }
pub broadcast proof fn lemma_usables<F: Fn(&Rule) -> bool>(f: F, s: Seq<(String, Rule)>, yes: Seq<(String, Rule)>, no: Seq<(String, Rule)>)
    requires #[trigger] split(f, im_vals(s), yes, no), forall|x: &Rule, b: bool| #[trigger] f.ensures((x,), b) ==> b == allowed_rule(*x),
    ensures yes == usables(s),
{
    let v = im_vals(s);
    let fl = choose|fl: Seq<bool>| #[trigger] answered(f, v, fl) && yes == puts(Seq::empty(), pick(v, fl, true, v.len()), pick(v, fl, true, v.len()).len()) && no == puts(Seq::empty(), pick(v, fl, false, v.len()), pick(v, fl, false, v.len()).len());
    lemma_usable(f, s, fl, s.len());
}
pub broadcast proof fn lemma_keyed_merge(s: Seq<(String, Rule)>, t: Seq<(String, Rule)>, n: nat)
    requires keyed(s), keyed(t), n == t.len(),
    ensures keyed(#[trigger] im_merge(s, t, n)),
{ lemma_merge_keyed(s, t, n); }
pub broadcast proof fn lemma_forwarded(w: Workload, prior: Seq<(String, Rule)>, pl: Limits, ml: Limits, g1: EGraph, g2: EGraph, g3: EGraph, c1: Seq<(String, Rule)>, c2: Seq<(String, Rule)>, r: Seq<(String, Rule)>, inv: Seq<(String, Rule)>, rs1: Seq<Rule>, rs2: Seq<Rule>, rs3: Seq<Rule>, g0: EGraph, c: Seq<(String, Rule)>)
    requires
        #[trigger] ran(Scheduler::Compress(pl), g0, rs1, None, g1), g0 == materialised(w), #[trigger] readable(w), rs1 == im_vals(usables(prior)),
        #[trigger] ran(Scheduler::Simple(pl), g1, rs2, None, g2), rs2 == im_vals(exploratory()),
        #[trigger] ran(Scheduler::Compress(pl), g2, rs3, None, g3), rs3 == im_vals(im_merge(prior, exploratory(), exploratory().len())),
        #[trigger] exactly_new(g1, g2, c1), #[trigger] exactly_new(g2, g3, c2), c == im_merge(c1, c2, c2.len()),
        #[trigger] sound_pair(c, prior, r, inv), #[trigger] complete_pair(Scheduler::Compress(ml), c, prior, r, inv),
    ensures forwarded(w, prior, pl, ml, r),
{ reveal(forwarded); assert(learned(Scheduler::Compress(ml), c, prior, r)); }
// ---- fast-forwarded rules use only allowed operators ----
/// which operators are allowed does not depend on the arguments
pub axiom fn ax_allowed_head(a: L, b: L) requires head(a) == head(b) ensures allowed_op(a) == allowed_op(b);
/// every operator of the term under node j is allowed
pub open spec fn ops_allowed(p: Seq<ENodeOrVar>, j: int) -> bool decreases j {
    match p[j] { ENodeOrVar::Var(_) => true, ENodeOrVar::ENode(n) => allowed_op(n) && forall|k: int| 0 <= k < kids(n).len() ==> 0 <= (#[trigger] kids(n)[k]).i < j && ops_allowed(p, kids(n)[k].i as int) }
}
pub open spec fn pat_allowed(p: Pattern) -> bool { ops_allowed(p.ast.nodes@, p.ast.nodes@.len() - 1) }
pub open spec fn sides_allowed(r: Rule) -> bool { pat_allowed(r.lhs) && pat_allowed(r.rhs) }
pub open spec fn rules_allowed(s: Seq<(String, Rule)>) -> bool { forall|i: int| 0 <= i < s.len() ==> sides_allowed((#[trigger] s[i]).1) }
pub proof fn lemma_renamed_allowed(e: Seq<L>, i: int, p: Seq<ENodeOrVar>, j: int, m: Map<Symbol, Var>)
    requires renamed(e, i, p, j, m), only_allowed(e, i),
    ensures ops_allowed(p, j),
    decreases j,
{
    if let ENodeOrVar::ENode(n) = p[j] {
        ax_allowed_head(n, e[i]);
        assert forall|k: int| 0 <= k < kids(n).len() implies 0 <= (#[trigger] kids(n)[k]).i < j && ops_allowed(p, kids(n)[k].i as int) by {
            assert(kids(e[i])[k].i < i);
            lemma_renamed_allowed(e, kids(e[i])[k].i as int, p, kids(n)[k].i as int, m);
        }
    }
}
pub proof fn lemma_both_allowed(ps: Seq<(Pattern, Pattern)>, n: nat)
    requires n <= ps.len(), forall|i: int| 0 <= i < n ==> pat_allowed((#[trigger] ps[i]).0) && pat_allowed(ps[i].1),
    ensures rules_allowed(both_of(ps, n)),
    decreases n,
{
    if n > 0 {
        let (l, r) = ps[n - 1];
        lemma_both_allowed(ps, (n - 1) as nat);
        let s = both_of(ps, (n - 1) as nat);
        lemma_put_allowed(s, rule_new(l, r));
        lemma_put_allowed(put_rule(s, rule_new(l, r)), rule_new(r, l));
    }
}
pub proof fn lemma_put_allowed(s: Seq<(String, Rule)>, r: Option<Rule>)
    requires rules_allowed(s), r matches Some(x) ==> sides_allowed(x),
    ensures rules_allowed(put_rule(s, r)),
{
    if let Some(x) = r { let t = put_rule(s, r); assert forall|i: int| 0 <= i < t.len() implies sides_allowed((#[trigger] t[i]).1) by { if t[i] != (x.name, x) { assert(t[i] == s[i]); } } }
}
pub proof fn lemma_merge_allowed(s: Seq<(String, Rule)>, t: Seq<(String, Rule)>, n: nat)
    requires rules_allowed(s), rules_allowed(t), n <= t.len(),
    ensures rules_allowed(im_merge(s, t, n)),
    decreases n,
{
    if n > 0 {
        lemma_merge_allowed(s, t, (n - 1) as nat);
        let a = im_merge(s, t, (n - 1) as nat);
        let b = im_merge(s, t, n);
        assert forall|i: int| 0 <= i < b.len() implies sides_allowed((#[trigger] b[i]).1) by { if b[i] != t[n - 1] { assert(b[i] == a[i]); } }
    }
}
pub proof fn lemma_new_allowed(g: EGraph, h: EGraph, c: Seq<(String, Rule)>)
    requires exactly_new(g, h, c),
    ensures rules_allowed(c),
{
    let es = choose|es: Seq<(RecExpr, RecExpr)>| #[trigger] built(es, c) && news(g, h, es) && all_news(g, h, es);
    theorem_candidates(g, h, es);
    let ps = choose|ps: Seq<(Pattern, Pattern)>| #[trigger] pats_of(es, ps) && c == both_of(ps, ps.len());
    assert forall|i: int| 0 <= i < ps.len() implies pat_allowed((#[trigger] ps[i]).0) && pat_allowed(ps[i].1) by {
        assert(from_pair(es[i].0, es[i].1, ps[i].0, ps[i].1));
        let (m1, m2) = choose|m1: Map<Symbol, Var>, m2: Map<Symbol, Var>| #[trigger] named_for(Map::empty(), es[i].0, m1) && #[trigger] named_for(m1, es[i].1, m2) && general(es[i].0, ps[i].0, m1) && general(es[i].1, ps[i].1, m2);
        lemma_renamed_allowed(es[i].0.nodes@, es[i].0.nodes@.len() - 1, ps[i].0.ast.nodes@, ps[i].0.ast.nodes@.len() - 1, m1);
        lemma_renamed_allowed(es[i].1.nodes@, es[i].1.nodes@.len() - 1, ps[i].1.ast.nodes@, ps[i].1.ast.nodes@.len() - 1, m2);
    }
    lemma_both_allowed(ps, ps.len());
}
/// C28: fast-forwarded rules are judged valid, are no prior rules, and use only allowed operators
pub proof fn theorem_forwarded(w: Workload, prior: Seq<(String, Rule)>, pl: Limits, ml: Limits, r: Seq<(String, Rule)>, i: int)
    requires forwarded(w, prior, pl, ml, r), 0 <= i < r.len(),
    ensures verdict(r[i].1, true), !im_has(prior, r[i].0), sides_allowed(r[i].1),
{
    reveal(forwarded);
    let (g1, g2, g3, c1, c2) = choose|g1: EGraph, g2: EGraph, g3: EGraph, c1: Seq<(String, Rule)>, c2: Seq<(String, Rule)>| {
        &&& #[trigger] ran(Scheduler::Compress(pl), materialised(w), im_vals(usables(prior)), None, g1)
        &&& #[trigger] ran(Scheduler::Simple(pl), g1, im_vals(exploratory()), None, g2)
        &&& #[trigger] ran(Scheduler::Compress(pl), g2, im_vals(im_merge(prior, exploratory(), exploratory().len())), None, g3)
        &&& #[trigger] exactly_new(g1, g2, c1) && #[trigger] exactly_new(g2, g3, c2)
        &&& learned(Scheduler::Compress(ml), im_merge(c1, c2, c2.len()), prior, r)
    };
    let c = im_merge(c1, c2, c2.len());
    lemma_new_allowed(g1, g2, c1);
    lemma_new_allowed(g2, g3, c2);
    lemma_merge_allowed(c1, c2, c2.len());
    let inv = choose|inv: Seq<(String, Rule)>| #[trigger] sound_pair(c, prior, r, inv) && complete_pair(Scheduler::Compress(ml), c, prior, r, inv);
    assert(from_cands(c, r[i], true));
    if c.contains((r[i].1.name, r[i].1)) {
        let k = choose|k: int| 0 <= k < c.len() && c[k] == (r[i].1.name, r[i].1);
        assert(sides_allowed(c[k].1));
    } else {
        let x = choose|x: (String, Rule)| #[trigger] c.contains(x) && rev_of(x.1) == Some(r[i].1);
        let k = choose|k: int| 0 <= k < c.len() && c[k] == x;
        assert(sides_allowed(c[k].1));
    }
}
// ---- recursive inference ----
pub open spec fn with_ops(w: Workload, ops: Seq<Vec<String>>, n: nat) -> Workload decreases n { if n == 0 { w } else { w_plug(with_ops(w, ops, (n - 1) as nat), "OP"@ + dec(n as nat), w_new(views(ops[n - 1]@))) } }
/// the terms of a language up to a size, those with variables
pub open spec fn grammar(m: Metric, n: int, l: Lang) -> Workload {
    with_ops(w_plug(w_plug(w_filter(w_iter(w_base(l.ops@.len() as int), "EXPR"@, m, n), Filter::Contains(epat_parse("VAR"@)->Some_0)), "VAR"@, w_new(views(l.vars@))), "VAL"@, w_new(views(l.vals@))), l.ops@, l.ops@.len())
}
pub open spec fn synthesis() -> Limits { Limits { iter: 2, node: 300_000, match_: 200_000 } }
pub open spec fn minimising() -> Limits { Limits { iter: 2, node: 300_000, match_: 200_000 } }
/// from what is known up to a size to what is known up to the next
pub open spec fn next_size(m: Metric, n: int, l: Lang, prior: Seq<(String, Rule)>, before: Seq<(String, Rule)>, after: Seq<(String, Rule)>) -> bool {
    exists|new: Seq<(String, Rule)>| #[trigger] inferred(grammar(m, n, l), im_merge(before, prior, prior.len()), synthesis(), minimising(), true, new) && after == im_merge(new, im_merge(before, prior, prior.len()), im_merge(before, prior, prior.len()).len())
}
pub open spec fn sizes(m: Metric, n: int, l: Lang, prior: Seq<(String, Rule)>, t: Seq<Seq<(String, Rule)>>) -> bool { t.len() == n + 1 && t[0] == Seq::<(String, Rule)>::empty() && forall|k: int| 0 < k <= n ==> next_size(m, k, l, prior, t[k - 1], #[trigger] t[k]) }
#[verifier::opaque]
pub open spec fn recursed(m: Metric, n: int, l: Lang, prior: Seq<(String, Rule)>, r: Seq<(String, Rule)>) -> bool { exists|t: Seq<Seq<(String, Rule)>>| #[trigger] sizes(m, n, l, prior, t) && r == t.last() }
pub broadcast proof fn lemma_no_size(m: Metric, n: int, l: Lang, prior: Seq<(String, Rule)>, r: Seq<(String, Rule)>) requires n == 0, r.len() == 0 ensures #[trigger] recursed(m, n, l, prior, r) { reveal(recursed); let t = seq![Seq::<(String, Rule)>::empty()]; assert(sizes(m, 0, l, prior, t)); assert(r =~= t.last()); }
pub broadcast proof fn lemma_learn_next(m: Metric, n: int, l: Lang, prior: Seq<(String, Rule)>, before: Seq<(String, Rule)>, new: Seq<(String, Rule)>, w: Workload, rec: Seq<(String, Rule)>)
    requires n >= 0, #[trigger] recursed(m, n, l, prior, before), #[trigger] inferred(w, rec, synthesis(), minimising(), true, new), w == grammar(m, n + 1, l), rec == im_merge(before, prior, prior.len()),
    ensures recursed(m, n + 1, l, prior, im_merge(new, rec, rec.len())),
{ assert(next_size(m, n + 1, l, prior, before, im_merge(new, rec, rec.len()))); lemma_next_size(m, n + 1, l, prior, before, im_merge(new, rec, rec.len())); }
pub proof fn lemma_next_size(m: Metric, n: int, l: Lang, prior: Seq<(String, Rule)>, before: Seq<(String, Rule)>, after: Seq<(String, Rule)>)
    requires n > 0, recursed(m, n - 1, l, prior, before), next_size(m, n, l, prior, before, after),
    ensures recursed(m, n, l, prior, after),
{ reveal(recursed);
    let t = choose|t: Seq<Seq<(String, Rule)>>| #[trigger] sizes(m, n - 1, l, prior, t) && before == t.last();
    let u = t.push(after);
    assert(u[0] == t[0]);
    assert forall|k: int| 0 < k <= n implies next_size(m, k, l, prior, u[k - 1], #[trigger] u[k]) by { if k < n { assert(t[k] == u[k] && t[k - 1] == u[k - 1]); } else { assert(u[k - 1] == before); } }
    assert(sizes(m, n, l, prior, u));
}
/// C28: what recursive inference returns has every prior rule and everything known at each smaller size
pub proof fn theorem_recursed(m: Metric, n: int, l: Lang, prior: Seq<(String, Rule)>, t: Seq<Seq<(String, Rule)>>, k: int)
    requires sizes(m, n, l, prior, t), im_wf(prior), 0 <= k <= n,
    ensures forall|x: String| im_has(t[k], x) ==> #[trigger] im_has(t[n], x), n > 0 ==> forall|x: String| im_has(prior, x) ==> #[trigger] im_has(t[n], x),
    decreases n - k,
{
    if n > 0 {
        assert(next_size(m, n, l, prior, t[n - 1], t[n]));
        lemma_next_has(m, n, l, prior, t[n - 1], t[n]);
        if k < n {
            let u = t.take(n);
            assert(sizes(m, n - 1, l, prior, u)) by { assert forall|j: int| 0 < j <= n - 1 implies next_size(m, j, l, prior, u[j - 1], #[trigger] u[j]) by { assert(next_size(m, j, l, prior, t[j - 1], t[j])); } }
            theorem_recursed(m, n - 1, l, prior, u, k);
            assert(u[k] == t[k] && u[n - 1] == t[n - 1]);
            assert forall|x: String| im_has(t[k], x) implies #[trigger] im_has(t[n], x) by { assert(im_has(t[n - 1], x)); }
        }
    }
}
pub proof fn lemma_next_has(m: Metric, n: int, l: Lang, prior: Seq<(String, Rule)>, before: Seq<(String, Rule)>, after: Seq<(String, Rule)>)
    requires next_size(m, n, l, prior, before, after),
    ensures forall|x: String| im_has(before, x) || im_has(prior, x) ==> #[trigger] im_has(after, x),
{
    let rec = im_merge(before, prior, prior.len());
    let new = choose|new: Seq<(String, Rule)>| #[trigger] inferred(grammar(m, n, l), rec, synthesis(), minimising(), true, new) && after == im_merge(new, rec, rec.len());
    assert forall|x: String| im_has(before, x) || im_has(prior, x) implies #[trigger] im_has(after, x) by { lemma_merge_keeps(before, prior, prior.len(), x); lemma_merge_keeps(new, rec, rec.len(), x); }
}
pub proof fn lemma_merge_keeps<V>(s: Seq<(String, V)>, t: Seq<(String, V)>, n: nat, x: String)
    requires n <= t.len(),
    ensures im_has(s, x) || im_has(t.take(n as int), x) ==> im_has(im_merge(s, t, n), x), im_has(s, x) || (n == t.len() && im_has(t, x)) ==> im_has(im_merge(s, t, n), x),
    decreases n,
{
    if n > 0 {
        lemma_merge_keeps(s, t, (n - 1) as nat, x);
        let p = im_merge(s, t, (n - 1) as nat);
        let k = t[n - 1].0;
        let q = im_put(p, k, t[n - 1].1);
        if im_has(p, x) { let i = im_pos(p, x); if im_has(p, k) { assert(q[i].0 == x); } else { assert(q[i].0 == x); } }
        if x == k { if im_has(p, k) { assert(q[im_pos(p, k)].0 == x); } else { assert(q[p.len() as int].0 == x); } }
        let u = t.take(n as int);
        let w = t.take(n - 1);
        if im_has(u, x) { let i = im_pos(u, x); if i < n - 1 { assert(w[i].0 == x); } }
    }
    if n == t.len() { assert(t.take(n as int) =~= t); }
}
} // mod pp
use pp::*;
@fn Ruleset::pretty_print
@props C28
@spec
@fn L::is_allowed_rewrite
@props C28
@sig pub fn is_allowed_rewrite(lhs: &Pattern, rhs: &Pattern) -> (r: bool)
@spec
    ensures r == (all_allowed_nodes(*lhs) && all_allowed_nodes(*rhs)),
@loop 0
    $s == lhs.ast.nodes@
    $acc == (forall|k: int| 0 <= k < $i ==> node_allowed(#[trigger] $s[k]))
@loop 1
    $s == rhs.ast.nodes@
    $acc == (forall|k: int| 0 <= k < $i ==> node_allowed(#[trigger] $s[k]))
@fn Limits::synthesis
@props C28
@spec
    ensures r == synthesis(),
@fn Limits::minimize
@props C28
@spec
    ensures r == minimising(),
@fn run_workload_internal
@props C28
@flags panics-ok
@spec
    requires keyed(prior.0@),
    ensures inferred(workload, prior.0@, prior_limits, minimize_limits, fast_match, r.0@), keyed(r.0@), r.0@.len() > 0 || allow_empty,
@entry
    broadcast use {lemma_rel_keyed, lemma_inferred};
@fn run_workload
@props C28
@flags panics-ok
@spec
    requires keyed(prior.0@),
    ensures inferred(workload, prior.0@, prior_limits, minimize_limits, fast_match, r.0@), keyed(r.0@), r.0@.len() > 0,
@fn run_fast_forwarding
@props C28
@flags panics-ok
@spec
    requires keyed(prior.0@), keyed(exploratory()),
    ensures forwarded(workload, prior.0@, prior_limits, minimize_limits, r.0@), keyed(r.0@),
@entry
    broadcast use {lemma_new_keyed, lemma_forwarded, lemma_usables, lemma_keyed_merge};
@closure partition
@sig &Rule -> (res: bool)
@spec
    ensures res == allowed_rule(*vx_p0)
@end
@fn recursive_rules
@props C28
@flags panics-ok rlimit=40
@spec
    requires keyed(prior.0@),
    ensures recursed(metric, n as int, lang, prior.0@, r.0@), keyed(r.0@),
    decreases n,
@entry
    broadcast use {lemma_no_size, lemma_learn_next, lemma_keyed_merge};
@before 0
    let ghost vx_w = $acc;
@loop 0
    $s == lang.ops@
    $acc == with_ops(vx_w, lang.ops@, $i)
@end
