@type ValidationResult
@type Rule Clone
@type Rhs
@raw
// ======== rules (C14, C20) ========
pub mod ru {
use super::*;
#[verifier::external_body]
pub struct Rewrite { x: u8 }
impl VClone for Rewrite { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
pub uninterp spec fn mk_rw(name: String, searched: Pattern, applied: Pattern) -> Rewrite;
/// every variable of the right side occurs on the left
pub open spec fn rw_ok(l: Pattern, r: Pattern) -> bool { forall|v: Var| pat_vars(r).contains(v) ==> pat_vars(l).contains(v) }
impl Rewrite {
    #[verifier::external_body]
    pub fn new(name: String, searcher: Pattern, applier: Rhs) -> (r: Result<Rewrite, VErr>)
        ensures r is Ok <==> rw_ok(searcher, applier.rhs), r matches Ok(w) ==> w == mk_rw(name, searcher, applier.rhs),
    { unimplemented!() }
}
/// `L ==> R`
pub open spec fn rule_text(l: Pattern, r: Pattern) -> Seq<char> { pat_shown(l) + " ==> "@ + pat_shown(r) }
pub open spec fn the_rule(l: Pattern, r: Pattern) -> Rule { Rule { name: mkstr(rule_text(l, r)), lhs: l, rhs: r, rewrite: mk_rw(mkstr(rule_text(l, r)), l, r) } }
pub open spec fn rule_new(l: Pattern, r: Pattern) -> Option<Rule> { if rw_ok(l, r) { Some(the_rule(l, r)) } else { None } }
/// the verdict of some call of the domain's validator
pub uninterp spec fn judged(l: Pattern, r: Pattern, v: ValidationResult) -> bool;
// variables: the name of a symbol, the node of a variable of the language, the printed form of a pattern variable
pub uninterp spec fn sym_text(s: Symbol) -> Seq<char>;
pub uninterp spec fn mksym(s: Seq<char>) -> Symbol;
pub uninterp spec fn mkvar(s: Symbol) -> L;
pub uninterp spec fn var_text(v: Var) -> Seq<char>;
pub broadcast axiom fn ax_sym(s: Symbol) ensures mksym(#[trigger] sym_text(s)) == s;
pub broadcast axiom fn ax_mksym(s: Seq<char>) ensures sym_text(#[trigger] mksym(s)) == s;
pub broadcast axiom fn ax_var_text(v: Var) ensures #[trigger] var_text(v).len() > 0, var_text(v)[0] == '?';
impl VToString for Var { open spec fn shown(&self) -> Seq<char> { var_text(*self) } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
impl VToString for Symbol { open spec fn shown(&self) -> Seq<char> { sym_text(*self) } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
impl VInto<Symbol> for String { open spec fn into_req(x: Self) -> bool { true } open spec fn into_ok(x: Self, r: Symbol) -> bool { r == mksym(x@) } #[verifier::external_body] fn vinto(self) -> (r: Symbol) { unimplemented!() } }
impl VInto<Symbol> for &String { open spec fn into_req(x: Self) -> bool { true } open spec fn into_ok(x: Self, r: Symbol) -> bool { r == mksym(x@) } #[verifier::external_body] fn vinto(self) -> (r: Symbol) { unimplemented!() } }
impl L { #[verifier::external_body] pub fn mk_var(s: Symbol) -> (r: L) ensures r == mkvar(s) { unimplemented!() } }
/// the node a pattern node stands for: a pattern variable is the variable of the same name
pub open spec fn inst_node(n: ENodeOrVar) -> L { match n { ENodeOrVar::ENode(e) => e, ENodeOrVar::Var(v) => mkvar(mksym(var_text(v).skip(1))) } }
pub open spec fn inst(p: Pattern) -> RecExpr { RecExpr { nodes: mkvec(Seq::new(p.ast.nodes@.len(), |i: int| inst_node(p.ast.nodes@[i]))) } }
impl L {
    #[verifier::external_body]
    pub fn validate(l: &Pattern, r: &Pattern) -> (v: ValidationResult) ensures judged(*l, *r, v) { unimplemented!() }
}
/// where the left side of a rule text ends, and whether the rule goes both ways
pub open spec fn lhs_text(a: Seq<char>) -> Seq<char> { if a.len() > 0 && (a.last() == '<' || a.last() == '=') { a.drop_last() } else { a } }
pub open spec fn both_ways(a: Seq<char>) -> bool { a.len() > 0 && a.last() == '<' }
pub open spec fn sep_at(s: Seq<char>, i: int) -> bool { first_at(s, "=>"@, i) }
pub open spec fn text_lhs(s: Seq<char>, i: int) -> Pattern { pat_parse(lhs_text(s.take(i)))->Some_0 }
pub open spec fn text_rhs(s: Seq<char>, i: int) -> Pattern { pat_parse(s.skip(i + 2))->Some_0 }
pub open spec fn text_pos(s: Seq<char>) -> int { choose|i: int| sep_at(s, i) }
pub open spec fn text_ok(s: Seq<char>) -> bool { exists|i: int| #[trigger] sep_at(s, i) }
pub open spec fn text_rules(s: Seq<char>) -> (Rule, Option<Rule>) {
    let i = text_pos(s);
    (the_rule(text_lhs(s, i), text_rhs(s, i)), if both_ways(s.take(i)) { Some(the_rule(text_rhs(s, i), text_lhs(s, i))) } else { None })
}
pub proof fn lemma_first_unique(s: Seq<char>, p: Seq<char>, i: int, j: int)
    requires first_at(s, p, i), first_at(s, p, j),
    ensures i == j,
{ if i < j { assert(!occurs_at(s, p, i)); } if j < i { assert(!occurs_at(s, p, j)); } }
pub proof fn lemma_no_first(s: Seq<char>, p: Seq<char>)
    requires forall|i: int| !#[trigger] occurs_at(s, p, i),
    ensures forall|i: int| !#[trigger] first_at(s, p, i),
{ assert forall|i: int| !#[trigger] first_at(s, p, i) by { assert(!occurs_at(s, p, i)); } }
pub proof fn lemma_from_string(s: Seq<char>)
    ensures
        forall|i: int| #[trigger] first_at(s, "=>"@, i) ==> sep_at(s, i) && text_pos(s) == i,
        (forall|i: int| !#[trigger] occurs_at(s, "=>"@, i)) ==> !text_ok(s),
        forall|a: Seq<char>, c: char| #[trigger] occurs_at(a, seq![c], a.len() - 1) <==> a.len() > 0 && a.last() == c,
        "=>"@.len() == 2, byte_len("=>"@) == 2,
{
    reveal_strlit("=>");
    lemma_ascii("=>"@);
    assert forall|i: int| #[trigger] first_at(s, "=>"@, i) implies sep_at(s, i) && text_pos(s) == i by { assert(sep_at(s, i)); assert(sep_at(s, text_pos(s))); lemma_first_unique(s, "=>"@, i, text_pos(s)); }
    if forall|i: int| !#[trigger] occurs_at(s, "=>"@, i) { lemma_no_first(s, "=>"@); }
    assert forall|a: Seq<char>, c: char| #[trigger] occurs_at(a, seq![c], a.len() - 1) <==> a.len() > 0 && a.last() == c by {
        if a.len() > 0 { assert(a.subrange(a.len() - 1, a.len() as int)[0] == a.last()); if a.last() == c { assert(a.subrange(a.len() - 1, a.len() as int) =~= seq![c]); } }
    }
}
/// the text of a side: it does not contain the separator, and its last character that is not blank is no part of one
pub open spec fn side_text(a: Seq<char>) -> bool { a.len() > 0 && (forall|i: int| !#[trigger] occurs_at(a, "=>"@, i)) && a.last() != '=' && a.last() != '<' }
/// C14: `A=>B`, `A==>B` and `A<=>B`, where A may end in blanks, mean the rule from A to B, with the reverse for `<=>` only
pub proof fn theorem_rule_text(a: Seq<char>, b: Seq<char>, k: int)
    requires side_text(a), 0 <= k < 3,
    ensures ({
        let sep = if k == 0 { "=>"@ } else if k == 1 { "==>"@ } else { "<=>"@ };
        let s = a + sep + b;
        &&& text_ok(s)
        &&& text_lhs(s, text_pos(s)) == pat_parse(a)->Some_0
        &&& text_rhs(s, text_pos(s)) == pat_parse(b)->Some_0
        &&& (text_rules(s).1 is Some <==> k == 2)
    }),
{
    reveal_strlit("=>"); reveal_strlit("==>"); reveal_strlit("<=>");
    let sep = if k == 0 { "=>"@ } else if k == 1 { "==>"@ } else { "<=>"@ };
    let s = a + sep + b;
    let d = if k == 0 { 0int } else { 1 };
    let i = a.len() + d;
    assert(s.subrange(i, i + 2) =~= "=>"@);
    assert forall|j: int| 0 <= j < i implies !#[trigger] occurs_at(s, "=>"@, j) by {
        if occurs_at(s, "=>"@, j) {
            let w = s.subrange(j, j + 2);
            assert(w[0] == s[j] && w[1] == s[j + 1]);
            if j + 2 <= a.len() { assert(a.subrange(j, j + 2) =~= "=>"@) by { assert(s[j] == a[j] && s[j + 1] == a[j + 1]); } assert(occurs_at(a, "=>"@, j)); }
            else if j + 1 == a.len() { assert(s[j] == a.last()); }
            else { assert(s[j] == sep[j - a.len()]); assert(s[j + 1] == sep[j + 1 - a.len()]); }
        }
    }
    assert(sep_at(s, i));
    lemma_first_unique(s, "=>"@, i, text_pos(s));
    if d == 0 { assert(s.take(i) =~= a); }
    else { assert(s.take(i) =~= a.push(sep[0])); assert(a.push(sep[0]).drop_last() =~= a); }
    assert(s.skip(i + 2) =~= b);
}

// ---- applying a rule ----
pub open spec fn defined(d: Signature) -> bool { d.cvec@.len() == 0 || exists|i: int| 0 <= i < d.cvec@.len() && (#[trigger] d.cvec@[i]) is Some }
/// the ids of the first n nodes of a pattern under a substitution, and the e-graph they are in
pub open spec fn added(p: Seq<ENodeOrVar>, n: nat, g: EGraph, s: Subst) -> (Seq<Id>, EGraph) decreases n {
    if n == 0 { (Seq::empty(), g) } else {
        let (ids, h) = added(p, (n - 1) as nat, g, s);
        match p[n - 1] {
            ENodeOrVar::Var(v) => (ids.push(sub_get(s, v)), h),
            ENodeOrVar::ENode(e) => { let m = with_kids(e, Seq::new(kids(e).len(), |j: int| ids[kids(e)[j].i as int])); (ids.push(g_add_id(h, m)), g_add(h, m)) },
        }
    }
}
pub proof fn lemma_added_len(p: Seq<ENodeOrVar>, n: nat, g: EGraph, s: Subst) ensures added(p, n, g, s).0.len() == n decreases n { if n > 0 { lemma_added_len(p, (n - 1) as nat, g, s); } }
} // mod ru
use ru::*;
broadcast use {ax_sym, ax_mksym, ax_var_text};
@fn L::instantiate
@props C21 C16 C15 C12
@sig pub fn instantiate(pattern: &Pattern) -> (r: RecExpr)
@spec
    ensures r == inst(*pattern),
@loop 0
    $acc@ =~= Seq::new($i, |i: int| inst_node(pattern.ast.nodes@[i]))
    $s == pattern.ast.nodes@
@after 0
    proof { assert($acc@ =~= Seq::new(pattern.ast.nodes@.len(), |i: int| inst_node(pattern.ast.nodes@[i]))); }
@end
@fn Signature::is_defined
@props C20 C18
@spec
    ensures r == defined(*self),
@loop *
    $acc == exists|i: int| 0 <= i < $i && (#[trigger] self.cvec@[i]) is Some
@fn Rhs::Applier::vars
@props C20
@spec
    ensures r@ == pat_vars(self.rhs),
@fn apply_pat
@props C20
@flags index=trait
@sig pub fn apply_pat(pat: &Vec<ENodeOrVar>, egraph: &mut EGraph, subst: &Subst) -> (r: Id) | fn apply_pat (pat : & [ENodeOrVar] , egraph : & mut EGraph , subst : & Subst ,) -> Id
@spec
    requires pat_wf(pat@),
    ensures
        r == added(pat@, pat@.len(), *old(egraph), *subst).0.last(),
        *final(egraph) == added(pat@, pat@.len(), *old(egraph), *subst).1,
@before 0
    let ghost vx_n0 = ids@.len();
@loop 0
    $s == pat@
    vx_n0 == 0 || vx_n0 == pat@.len()
    ids@.len() == if vx_n0 == 0 { $i as int } else { pat@.len() as int }
    ids@.take($i as int) =~= added(pat@, $i, *old(egraph), *subst).0
    *egraph == added(pat@, $i, *old(egraph), *subst).1
@body 0
    proof { lemma_added_len(pat@, $i, *old(egraph), *subst); lemma_added_len(pat@, $i + 1, *old(egraph), *subst); }
    let ghost vx_done = ids@.take($i as int);
    let ghost vx_pos = $i as int;
@loop 1
    $s == kids(*e)
    $acc@ =~= Seq::new($i, |j: int| vx_done[kids(*e)[j].i as int])
@body 1
    proof { assert(node_wf(pat@[vx_pos], vx_pos)); assert(kids(*e)[$i as int].i < vx_pos); assert(ids@.take(vx_pos)[kids(*e)[$i as int].i as int] == ids@[kids(*e)[$i as int].i as int]); }
@after 1
    proof { assert($acc@ =~= Seq::new(kids(*e).len(), |j: int| vx_done[kids(*e)[j].i as int])); }
@end
@fn Rhs::Applier::apply_one
@props C20
@flags index=trait
@sig pub fn apply_one(&self, egraph: &mut EGraph, matched_id: Id, subst: &Subst, _ast: Option<&PatternAst>, _sym: Symbol) -> (r: Vec<Id>)
@spec
    requires pat_wf(self.rhs.ast.nodes@),
    ensures
        // nothing is added to or merged with a class undefined everywhere
        !defined(g_class(*old(egraph), matched_id).data) ==> *final(egraph) == *old(egraph) && r@.len() == 0,
        defined(g_class(*old(egraph), matched_id).data) ==> ({
            let p = self.rhs.ast.nodes@;
            let (ids, g) = added(p, p.len(), *old(egraph), *subst);
            let id = ids.last();
            if id == matched_id || !defined(g_class(g, id).data) { *final(egraph) == g && r@.len() == 0 }
            else { (*final(egraph) == g_union(g, id, matched_id) || *final(egraph) == g_union(g, matched_id, id)) && r@ =~= seq![id] }
        }),
@fn Rule::is_valid
@props C20 C11
@spec
    ensures exists|v: ValidationResult| #[trigger] judged(self.lhs, self.rhs, v) && r == (v is Valid),
@fn Rule::new
@props C14 C20
@spec
    ensures r == rule_new(*l_pat, *r_pat),
@fn Rule::Display::fmt
@props C14
@flags impl=impl~Rule strlits
@sig pub fn fmt(&self, f: &mut Fmt) -> (r: Result<(), VErr>)
@spec
    ensures r is Ok ==> final(f)@ =~= old(f)@ + (pat_shown(self.lhs) + " ==> "@ + pat_shown(self.rhs)),
@entry
    proof { reveal_strlit(" ==> "); }
@fn Rule::from_string
@props C14
@flags panics-ok
@sig pub fn from_string(s: &String) -> (r: Result<(Self, Option<Self>), String>) | fn from_string (s : & str) -> Result < (Self , Option < Self >) , String >
@spec
    ensures
        r is Ok <==> text_ok(s@),
        r matches Ok(p) ==> p == text_rules(s@) && rw_ok(p.0.lhs, p.0.rhs) && (p.1 matches Some(b) ==> rw_ok(b.lhs, b.rhs)),
@entry
    proof { lemma_from_string(s@); }
@end
