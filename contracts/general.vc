@raw
// ======== generalising (C21) ========
pub mod ge {
use super::*;
// pattern variables are their texts; variables of the language are their symbols
pub uninterp spec fn var_of(s: Seq<char>) -> Var;
pub open spec fn var_ok(s: Seq<char>) -> bool { s.len() > 1 && s[0] == '?' }
pub broadcast axiom fn ax_var_of(s: Seq<char>) requires var_ok(s) ensures var_text(#[trigger] var_of(s)) == s;
pub broadcast axiom fn ax_var_own(v: Var) ensures var_of(#[trigger] var_text(v)) == v, var_text(v).len() > 1;
impl VFromText for Var { open spec fn reads(s: Seq<char>) -> Option<Var> { if var_ok(s) { Some(var_of(s)) } else { None } } }
pub broadcast axiom fn ax_mkvar(s: Symbol) ensures tovar(#[trigger] mkvar(s)) == Some(s);
pub broadcast axiom fn ax_tovar_place(n: L, ks: Seq<Id>) requires ks.len() == kids(n).len() ensures tovar(#[trigger] with_kids(n, ks)) == tovar(n);
pub broadcast axiom fn ax_var_kids(n: L) ensures #[trigger] tovar(n) is Some ==> kids(n).len() == 0;
pub broadcast axiom fn ax_hm_len<K, V>(m: HashMap<K, V>) ensures #[trigger] m@.dom().len() < usize::MAX;
// ---- egg's build_recexpr: asks for nodes, some of them more than once, and shares equal ones ----
#[verifier::external_body]
pub struct VBuild { x: u8 }
impl VBuild {
    pub uninterp spec fn given(&self) -> Map<Id, L>;
    pub uninterp spec fn root(&self) -> L;
    pub uninterp spec fn left(&self) -> nat;
    /// what it asks for is a child of a node it has, and it is done when it has all of them
    pub open spec fn asked(&self, o: Option<Id>) -> bool { match o { Some(id) => self.wants(id), None => self.complete() } }
    pub open spec fn wants(&self, id: Id) -> bool { kids(self.root()).contains(id) || exists|k: Id| #[trigger] self.given().contains_key(k) && kids(self.given()[k]).contains(id) }
    pub open spec fn complete(&self) -> bool { has_all(self.given(), self.root()) && forall|k: Id| #[trigger] self.given().contains_key(k) ==> has_all(self.given(), self.given()[k]) }
    #[verifier::external_body]
    pub fn new(r: &L) -> (b: Self) ensures b.given() == Map::<Id, L>::empty(), b.root() == *r { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Id>) ensures final(self).given() == old(self).given(), final(self).root() == old(self).root(), final(self).left() == old(self).left(), final(self).asked(r) { unimplemented!() }
    /// the same question gets the same answer, and children of a node come before it
    #[verifier::external_body]
    pub fn give(&mut self, id: Id, n: L)
        requires old(self).asked(Some(id)), old(self).given().contains_key(id) ==> old(self).given()[id] == n, rec_node_wf(n, id.i as int),
        ensures final(self).given() == old(self).given().insert(id, n), final(self).root() == old(self).root(), final(self).left() < old(self).left(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn done(self) -> (r: RecExpr) requires self.complete() ensures rec_wf(r), unfolds(self.given(), self.root(), r.nodes@, r.nodes@.len() - 1) { unimplemented!() }
}
pub open spec fn has_all(g: Map<Id, L>, n: L) -> bool { forall|j: int| 0 <= j < kids(n).len() ==> g.contains_key(#[trigger] kids(n)[j]) }
/// node j of r is n with the answers given for its children
pub open spec fn unfolds(g: Map<Id, L>, n: L, r: Seq<L>, j: int) -> bool decreases j {
    head(r[j]) == head(n) && kids(r[j]).len() == kids(n).len() && forall|k: int| 0 <= k < kids(n).len() ==> 0 <= (#[trigger] kids(r[j])[k]).i < j && unfolds(g, g[kids(n)[k]], r, kids(r[j])[k].i as int)
}
// ---- renaming ----
/// node j of p is node i of e with variables replaced as in m, and the same operator and structure
pub open spec fn renamed(e: Seq<L>, i: int, p: Seq<ENodeOrVar>, j: int, m: Map<Symbol, Var>) -> bool decreases j {
    match p[j] {
        ENodeOrVar::Var(v) => tovar(e[i]) matches Some(s) && m.contains_key(s) && m[s] == v,
        ENodeOrVar::ENode(n) => tovar(e[i]) is None && head(n) == head(e[i]) && kids(n).len() == kids(e[i]).len() && forall|k: int| 0 <= k < kids(n).len() ==> 0 <= (#[trigger] kids(n)[k]).i < j && renamed(e, kids(e[i])[k].i as int, p, kids(n)[k].i as int, m),
    }
}
/// a whole term and a whole pattern
pub open spec fn general(e: RecExpr, p: Pattern, m: Map<Symbol, Var>) -> bool { pat_wf(p.ast.nodes@) && renamed(e.nodes@, e.nodes@.len() - 1, p.ast.nodes@, p.ast.nodes@.len() - 1, m) }
/// the letters
pub open spec fn letter_text(i: int) -> Seq<char> { "abcdefghijklmnopqrstuvwxyz"@.subrange(i, i + 1) }
pub open spec fn letter_var(i: int) -> Var { var_of("?"@ + letter_text(i)) }
/// new variables named by consecutive letters
pub open spec fn named(m: Map<Symbol, Var>, ns: Seq<Symbol>, n: nat) -> Map<Symbol, Var> decreases n { if n == 0 { m } else { named(m, ns, (n - 1) as nat).insert(ns[n - 1], letter_var(m.dom().len() + n - 1)) } }
pub open spec fn is_var_of(e: Seq<L>, s: Symbol) -> bool { exists|i: int| 0 <= i < e.len() && tovar(#[trigger] e[i]) == Some(s) }
pub open spec fn new_names(m: Map<Symbol, Var>, ns: Seq<Symbol>, e: Seq<L>) -> bool { ns.no_duplicates() && (ns.len() > 0 ==> m.dom().len() + ns.len() <= 26) && forall|k: int| 0 <= k < ns.len() ==> !m.contains_key(#[trigger] ns[k]) && is_var_of(e, ns[k]) }
pub open spec fn named_for(m: Map<Symbol, Var>, e: RecExpr, m2: Map<Symbol, Var>) -> bool { exists|ns: Seq<Symbol>| #[trigger] new_names(m, ns, e.nodes@) && m2 == named(m, ns, ns.len()) }
/// the node asked for, with its variable replaced by the one of that name
pub open spec fn respelt(n: L, m: Map<Symbol, Var>) -> L { match tovar(n) { Some(s) => mkvar(mksym(var_text(m[s]).skip(1))), None => n } }
pub open spec fn known(n: L, m: Map<Symbol, Var>) -> bool { tovar(n) matches Some(s) ==> m.contains_key(s) }
pub open spec fn one_name(n: L, m: Map<Symbol, Var>) -> Map<Symbol, Var> { match tovar(n) { Some(s) => if m.contains_key(s) { m } else { m.insert(s, letter_var(m.dom().len() as int)) }, None => m } }
/// the pattern node of a node
pub open spec fn pat_node(n: L) -> ENodeOrVar { match tovar(n) { Some(s) => ENodeOrVar::Var(var_of("?"@ + sym_text(s))), None => ENodeOrVar::ENode(n) } }
pub open spec fn next_names(ns: Seq<Symbol>, n: L, m: Map<Symbol, Var>) -> Seq<Symbol> { match tovar(n) { Some(s) => if m.contains_key(s) { ns } else { ns.push(s) }, None => ns } }
pub proof fn lemma_named(m: Map<Symbol, Var>, ns: Seq<Symbol>, n: nat)
    requires n <= ns.len(), ns.no_duplicates(), forall|k: int| 0 <= k < ns.len() ==> !m.contains_key(#[trigger] ns[k]),
    ensures
        named(m, ns, n).dom().len() == m.dom().len() + n,
        forall|s: Symbol| #[trigger] named(m, ns, n).contains_key(s) <==> m.contains_key(s) || ns.take(n as int).contains(s),
        forall|s: Symbol| m.contains_key(s) ==> #[trigger] named(m, ns, n)[s] == m[s],
        forall|k: int| 0 <= k < n ==> named(m, ns, n)[#[trigger] ns[k]] == letter_var(m.dom().len() + k),
    decreases n,
{
    if n > 0 {
        let p = (n - 1) as nat;
        lemma_named(m, ns, p);
        let a = named(m, ns, p);
        let b = named(m, ns, n);
        assert(!a.contains_key(ns[n - 1])) by { if ns.take(p as int).contains(ns[n - 1]) { let k = choose|k: int| 0 <= k < p && ns.take(p as int)[k] == ns[n - 1]; assert(ns[k] == ns[n - 1]); } }
        assert(b.dom() =~= a.dom().insert(ns[n - 1]));
        assert forall|s: Symbol| #[trigger] b.contains_key(s) <==> m.contains_key(s) || ns.take(n as int).contains(s) by {
            if ns.take(n as int).contains(s) { let k = choose|k: int| 0 <= k < n && ns.take(n as int)[k] == s; if k < p { assert(ns.take(p as int)[k] == s); } }
            if ns.take(p as int).contains(s) { let k = choose|k: int| 0 <= k < p && ns.take(p as int)[k] == s; assert(ns.take(n as int)[k] == s); }
            if s == ns[n - 1] { assert(ns.take(n as int)[n - 1] == s); }
        }
        assert forall|k: int| 0 <= k < n implies b[#[trigger] ns[k]] == letter_var(m.dom().len() + k) by { if k < p { assert(ns[k] != ns[n - 1]); } }
    } else { assert(ns.take(0) =~= Seq::<Symbol>::empty()); }
}
pub proof fn lemma_named_prefix(m: Map<Symbol, Var>, a: Seq<Symbol>, b: Seq<Symbol>, n: nat)
    requires n <= a.len(), n <= b.len(), forall|k: int| 0 <= k < n ==> a[k] == b[k],
    ensures named(m, a, n) == named(m, b, n),
    decreases n,
{ if n > 0 { lemma_named_prefix(m, a, b, (n - 1) as nat); } }
pub proof fn lemma_name(m0: Map<Symbol, Var>, ns: Seq<Symbol>, e: Seq<L>, i: int, m: Map<Symbol, Var>, m2: Map<Symbol, Var>)
    requires new_names(m0, ns, e), m == named(m0, ns, ns.len()), 0 <= i < e.len(), m2 == one_name(e[i], m), tovar(e[i]) is Some && !m.contains_key(tovar(e[i])->Some_0) ==> m.dom().len() < 26,
    ensures
        ({ let ns2 = next_names(ns, e[i], m); new_names(m0, ns2, e) && m2 == named(m0, ns2, ns2.len()) }),
        forall|x: L| known(x, m) ==> #[trigger] known(x, m2),
        forall|x: L| known(x, m) ==> #[trigger] respelt(x, m2) == respelt(x, m),
{
    lemma_named(m0, ns, ns.len());
    assert(ns.take(ns.len() as int) =~= ns);
    if let Some(s) = tovar(e[i]) { if !m.contains_key(s) {
        let ns2 = ns.push(s);
        lemma_named_prefix(m0, ns, ns2, ns.len());
        assert(ns2[ns.len() as int] == s);
        assert(is_var_of(e, s));
        assert forall|k: int| 0 <= k < ns2.len() implies !m0.contains_key(#[trigger] ns2[k]) && is_var_of(e, ns2[k]) by { if k < ns.len() { assert(ns[k] == ns2[k]); } }
    } }
}
pub proof fn lemma_respelt(n: L, m: Map<Symbol, Var>, i: int)
    requires rec_node_wf(n, i),
    ensures rec_node_wf(respelt(n, m), i), tovar(n) is None ==> respelt(n, m) == n, tovar(n) is Some ==> kids(respelt(n, m)).len() == 0,
{ if let Some(s) = tovar(n) { let x = mksym(var_text(m[s]).skip(1)); ax_mkvar(x); ax_var_kids(mkvar(x)); } }
/// what the builder asks for is a node of the term
pub proof fn lemma_asked(e: Seq<L>, g: Map<Id, L>, root: L, m: Map<Symbol, Var>, b: VBuild, id: Id)
    requires nodes_wf(e), e.len() > 0, b.given() == g, b.root() == root, root == respelt(e.last(), m), answers(e, g, m), b.wants(id),
    ensures id.i < e.len(),
{
    assert(rec_node_wf(e.last(), e.len() - 1)) by { assert(rec_node_wf(e[e.len() - 1], e.len() - 1)); }
    lemma_respelt(e.last(), m, e.len() - 1);
    if !kids(root).contains(id) {
        let k = choose|k: Id| #[trigger] g.contains_key(k) && kids(g[k]).contains(id);
        assert(rec_node_wf(e[k.i as int], k.i as int));
        lemma_respelt(e[k.i as int], m, k.i as int);
        let x = choose|x: int| 0 <= x < kids(g[k]).len() && kids(g[k])[x] == id;
        assert(kids(g[k])[x].i < k.i);
    } else { let x = choose|x: int| 0 <= x < kids(root).len() && kids(root)[x] == id; assert(kids(root)[x].i < e.len()); }
}
pub open spec fn answers(e: Seq<L>, g: Map<Id, L>, m: Map<Symbol, Var>) -> bool { forall|k: Id| #[trigger] g.contains_key(k) ==> k.i < e.len() && known(e[k.i as int], m) && g[k] == respelt(e[k.i as int], m) }
pub proof fn lemma_answers(e: Seq<L>, g: Map<Id, L>, m: Map<Symbol, Var>, m2: Map<Symbol, Var>, id: Id)
    requires answers(e, g, m), id.i < e.len(), known(e[id.i as int], m2),
        forall|x: L| known(x, m) ==> #[trigger] known(x, m2), forall|x: L| known(x, m) ==> #[trigger] respelt(x, m2) == respelt(x, m),
    ensures answers(e, g, m2), answers(e, g.insert(id, respelt(e[id.i as int], m2)), m2), g.contains_key(id) ==> g[id] == respelt(e[id.i as int], m2),
{}
pub proof fn lemma_general(e: Seq<L>, i: int, g: Map<Id, L>, m: Map<Symbol, Var>, r: Seq<L>, j: int, p: Seq<ENodeOrVar>)
    requires
        nodes_wf(e), answers(e, g, m), 0 <= i < e.len(), 0 <= j < r.len(), p.len() == r.len(), forall|k: int| 0 <= k < r.len() ==> #[trigger] p[k] == pat_node(r[k]),
        known(e[i], m), has_all(g, respelt(e[i], m)), forall|k: Id| #[trigger] g.contains_key(k) ==> has_all(g, g[k]),
        unfolds(g, respelt(e[i], m), r, j),
    ensures renamed(e, i, p, j, m),
    decreases j,
{
    let n = respelt(e[i], m);
    assert(p[j] == pat_node(r[j]));
    ax_tovar_place(r[j], blank(kids(r[j]).len()));
    ax_tovar_place(n, blank(kids(n).len()));
    assert(tovar(r[j]) == tovar(n));
    assert(rec_node_wf(e[i], i));
    if let Some(s) = tovar(e[i]) {
        let x = mksym(var_text(m[s]).skip(1));
        ax_mkvar(x);
        ax_mksym(var_text(m[s]).skip(1));
        ax_var_text(m[s]);
        ax_var_own(m[s]);
        reveal_strlit("?");
        assert("?"@ + var_text(m[s]).skip(1) =~= var_text(m[s]));
        assert(p[j] == ENodeOrVar::Var(m[s]));
    } else {
        assert(p[j] == ENodeOrVar::ENode(r[j]));
        assert forall|k: int| 0 <= k < kids(r[j]).len() implies 0 <= (#[trigger] kids(r[j])[k]).i < j && renamed(e, kids(e[i])[k].i as int, p, kids(r[j])[k].i as int, m) by {
            let c = kids(n)[k];
            assert(g.contains_key(c));
            lemma_general(e, c.i as int, g, m, r, kids(r[j])[k].i as int, p);
        }
    }
}
pub proof fn lemma_pat_wf(r: Seq<L>, p: Seq<ENodeOrVar>)
    requires nodes_wf(r), r.len() > 0, p.len() == r.len(), forall|k: int| 0 <= k < r.len() ==> #[trigger] p[k] == pat_node(r[k]),
    ensures pat_wf(p),
{ assert forall|i: int| 0 <= i < p.len() implies #[trigger] node_wf(p[i], i) by { assert(rec_node_wf(r[i], i)); assert(p[i] == pat_node(r[i])); } }
// ---- a rule from two terms (C21) ----
/// the two sides are the two terms under one renaming, the second term's new variables named after the first's
pub open spec fn from_pair(e1: RecExpr, e2: RecExpr, l: Pattern, r: Pattern) -> bool {
    exists|m1: Map<Symbol, Var>, m2: Map<Symbol, Var>| #[trigger] named_for(Map::empty(), e1, m1) && #[trigger] named_for(m1, e2, m2) && general(e1, l, m1) && general(e2, r, m2)
}
pub open spec fn injective(m: Map<Symbol, Var>) -> bool { forall|a: Symbol, b: Symbol| m.contains_key(a) && m.contains_key(b) && #[trigger] m[a] == #[trigger] m[b] ==> a == b }
pub proof fn lemma_letters(i: int, j: int)
    requires 0 <= i < 26, 0 <= j < 26, letter_var(i) == letter_var(j),
    ensures i == j,
{
    reveal_strlit("abcdefghijklmnopqrstuvwxyz");
    reveal_strlit("?");
    let s = "abcdefghijklmnopqrstuvwxyz"@;
    let (a, b) = ("?"@ + letter_text(i), "?"@ + letter_text(j));
    assert(a[0] == '?' && b[0] == '?' && a.len() == 2 && b.len() == 2);
    ax_var_of(a); ax_var_of(b);
    assert(a == b);
    assert(a[1] == s[i] && b[1] == s[j]);
    assert(forall|k: int| 0 <= k < 26 ==> #[trigger] s[k] as u32 == 97 + k) by {
        assert(s[0] == 'a' && s[1] == 'b' && s[2] == 'c' && s[3] == 'd' && s[4] == 'e' && s[5] == 'f' && s[6] == 'g' && s[7] == 'h' && s[8] == 'i' && s[9] == 'j' && s[10] == 'k' && s[11] == 'l' && s[12] == 'm');
        assert(s[13] == 'n' && s[14] == 'o' && s[15] == 'p' && s[16] == 'q' && s[17] == 'r' && s[18] == 's' && s[19] == 't' && s[20] == 'u' && s[21] == 'v' && s[22] == 'w' && s[23] == 'x' && s[24] == 'y' && s[25] == 'z');
    }
}
pub proof fn lemma_injective(ns: Seq<Symbol>)
    requires ns.no_duplicates(), ns.len() <= 26,
    ensures injective(named(Map::empty(), ns, ns.len())),
{
    let e = Map::<Symbol, Var>::empty();
    lemma_named(e, ns, ns.len());
    let m = named(e, ns, ns.len());
    assert(ns.take(ns.len() as int) =~= ns);
    assert forall|a: Symbol, b: Symbol| m.contains_key(a) && m.contains_key(b) && #[trigger] m[a] == #[trigger] m[b] implies a == b by {
        let i = choose|i: int| 0 <= i < ns.len() && ns[i] == a;
        let j = choose|j: int| 0 <= j < ns.len() && ns[j] == b;
        assert(m[ns[i]] == letter_var(i) && m[ns[j]] == letter_var(j));
        lemma_letters(i, j);
    }
}
pub proof fn lemma_named_twice(a: Seq<Symbol>, b: Seq<Symbol>, n: nat)
    requires (a + b).no_duplicates(), n <= b.len(),
    ensures named(named(Map::empty(), a, a.len()), b, n) == named(Map::empty(), a + b, a.len() + n),
    decreases n,
{
    let e = Map::<Symbol, Var>::empty();
    let c = a + b;
    assert forall|x: int, y: int| 0 <= x < a.len() && 0 <= y < a.len() && x != y implies a[x] != a[y] by { assert(c[x] == a[x] && c[y] == a[y]); }
    assert forall|x: int, y: int| 0 <= x < b.len() && 0 <= y < b.len() && x != y implies b[x] != b[y] by { assert(c[x + a.len()] == b[x] && c[y + a.len()] == b[y]); }
    lemma_named(e, a, a.len());
    lemma_named_prefix(e, a, c, a.len());
    if n > 0 { lemma_named_twice(a, b, (n - 1) as nat); }
}
pub open spec fn within(m: Map<Symbol, Var>, m2: Map<Symbol, Var>) -> bool { forall|s: Symbol| #[trigger] m.contains_key(s) ==> m2.contains_key(s) && m2[s] == m[s] }
pub proof fn lemma_renamed_more(e: Seq<L>, i: int, p: Seq<ENodeOrVar>, j: int, m: Map<Symbol, Var>, m2: Map<Symbol, Var>)
    requires renamed(e, i, p, j, m), within(m, m2),
    ensures renamed(e, i, p, j, m2),
    decreases j,
{
    if let ENodeOrVar::ENode(n) = p[j] {
        assert forall|k: int| 0 <= k < kids(n).len() implies 0 <= (#[trigger] kids(n)[k]).i < j && renamed(e, kids(e[i])[k].i as int, p, kids(n)[k].i as int, m2) by { lemma_renamed_more(e, kids(e[i])[k].i as int, p, kids(n)[k].i as int, m, m2); }
    }
}
/// C21: a rule from two terms is those terms under one injective renaming
pub proof fn theorem_from_pair(e1: RecExpr, e2: RecExpr, l: Pattern, r: Pattern)
    requires from_pair(e1, e2, l, r),
    ensures exists|m: Map<Symbol, Var>| #[trigger] injective(m) && general(e1, l, m) && general(e2, r, m),
{
    let e = Map::<Symbol, Var>::empty();
    let (m1, m2) = choose|m1: Map<Symbol, Var>, m2: Map<Symbol, Var>| #[trigger] named_for(e, e1, m1) && #[trigger] named_for(m1, e2, m2) && general(e1, l, m1) && general(e2, r, m2);
    let a = choose|ns: Seq<Symbol>| #[trigger] new_names(e, ns, e1.nodes@) && m1 == named(e, ns, ns.len());
    let b = choose|ns: Seq<Symbol>| #[trigger] new_names(m1, ns, e2.nodes@) && m2 == named(m1, ns, ns.len());
    lemma_named(e, a, a.len());
    lemma_named(m1, b, b.len());
    assert(a.take(a.len() as int) =~= a);
    assert forall|x: int, y: int| 0 <= x < (a + b).len() && 0 <= y < (a + b).len() && x != y implies (a + b)[x] != (a + b)[y] by {
        if x < a.len() && y >= a.len() { assert(a.contains(a[x])); assert(!m1.contains_key(b[y - a.len()])); }
        if y < a.len() && x >= a.len() { assert(a.contains(a[y])); assert(!m1.contains_key(b[x - a.len()])); }
    }
    lemma_named_twice(a, b, b.len());
    assert(m2 == named(e, a + b, (a + b).len()));
    assert((a + b).len() <= 26);
    lemma_injective(a + b);
    lemma_renamed_more(e1.nodes@, e1.nodes@.len() - 1, l.ast.nodes@, l.ast.nodes@.len() - 1, m1, m2);
    assert(injective(m2) && general(e1, l, m2) && general(e2, r, m2));
}
/// node j of r is node i of e with each variable replaced by the one named like its pattern variable
pub open spec fn spelled(e: Seq<L>, i: int, r: Seq<L>, j: int, m: Map<Symbol, Var>) -> bool decreases j {
    match tovar(e[i]) {
        Some(s) => m.contains_key(s) && r[j] == mkvar(mksym(var_text(m[s]).skip(1))),
        None => head(r[j]) == head(e[i]) && kids(r[j]).len() == kids(e[i]).len() && forall|k: int| 0 <= k < kids(r[j]).len() ==> 0 <= (#[trigger] kids(r[j])[k]).i < j && spelled(e, kids(e[i])[k].i as int, r, kids(r[j])[k].i as int, m),
    }
}
/// C21: instantiating undoes generalising up to the names of the variables
pub proof fn theorem_instantiate(e: RecExpr, p: Pattern, m: Map<Symbol, Var>)
    requires general(e, p, m),
    ensures spelled(e.nodes@, e.nodes@.len() - 1, inst(p).nodes@, inst(p).nodes@.len() - 1, m),
{
    broadcast use {ax_vec_len, ax_mkvec_view};
    let r = Seq::new(p.ast.nodes@.len(), |i: int| inst_node(p.ast.nodes@[i]));
    assert(p.ast.nodes@.len() <= usize::MAX);
    assert(inst(p).nodes@ == r);
    lemma_spelled(e.nodes@, e.nodes@.len() - 1, p.ast.nodes@, p.ast.nodes@.len() - 1, r, m);
}
pub proof fn lemma_spelled(e: Seq<L>, i: int, p: Seq<ENodeOrVar>, j: int, r: Seq<L>, m: Map<Symbol, Var>)
    requires renamed(e, i, p, j, m), 0 <= j < p.len(), r == Seq::new(p.len(), |k: int| inst_node(p[k])),
    ensures spelled(e, i, r, j, m),
    decreases j,
{
    if let ENodeOrVar::ENode(n) = p[j] {
        assert(r[j] == n);
        assert forall|k: int| 0 <= k < kids(r[j]).len() implies 0 <= (#[trigger] kids(r[j])[k]).i < j && spelled(e, kids(e[i])[k].i as int, r, kids(r[j])[k].i as int, m) by { lemma_spelled(e, kids(e[i])[k].i as int, p, kids(n)[k].i as int, r, m); }
    }
}
} // mod ge
use ge::*;
@fn letter
@props C21 C18 C19
@flags panics-ok
@sig pub fn letter(i: usize) -> (r: &'static String)
@spec
    requires i < usize::MAX,
    ensures i < 26, r@ == letter_text(i as int),
@entry
    proof { reveal_strlit("abcdefghijklmnopqrstuvwxyz"); lemma_ascii("abcdefghijklmnopqrstuvwxyz"@); }
@fn L::to_enode_or_var
@props C21 C18 C19
@flags panics-ok
@sig pub fn to_enode_or_var(self) -> (r: ENodeOrVar)
@spec
    ensures tovar(self) is None ==> r == ENodeOrVar::ENode(self),
        tovar(self) matches Some(s) ==> var_ok("?"@ + sym_text(s)) && r == ENodeOrVar::Var(var_of("?"@ + sym_text(s))),
@fn L::generalize
@props C21 C18 C19
@flags panics-ok index=trait
@sig pub fn generalize(expr: &RecExpr, map: &mut HashMap<Symbol, Var>) -> (r: Pattern)
@spec
    requires rec_wf(*expr),
    ensures
        general(*expr, r, final(map)@),
        named_for(old(map)@, *expr, final(map)@),
@entry
    let ghost vx_e = expr.nodes@;
    let ghost vx_m0 = map@;
    let ghost mut vx_ns: Seq<Symbol> = Seq::empty();
    proof { assert(rec_node_wf(vx_e[vx_e.len() - 1], vx_e.len() - 1)); }
    let ghost mut vx_g: Map<Id, L> = Map::empty();
    let ghost mut vx_root: L = vx_e.last();
@before 0
    proof {
        lemma_name(vx_m0, vx_ns, vx_e, vx_e.len() - 1, vx_m0, map@);
        vx_ns = next_names(vx_ns, vx_e.last(), vx_m0);
    }
@loop 0
    $acc.root() == root
    root == respelt(vx_e.last(), map@)
    known(vx_e.last(), map@)
    answers(vx_e, $acc.given(), map@)
    new_names(vx_m0, vx_ns, vx_e)
    map@ == named(vx_m0, vx_ns, vx_ns.len())
@body 0
    let ghost vx_id = $s->Some_0;
    let ghost vx_ma = map@;
    proof { lemma_asked(vx_e, $acc.given(), root, map@, $acc, vx_id); assert(rec_node_wf(vx_e[vx_id.i as int], vx_id.i as int)); }
@mid 0
    proof {
        lemma_name(vx_m0, vx_ns, vx_e, vx_id.i as int, vx_ma, map@);
        vx_ns = next_names(vx_ns, vx_e[vx_id.i as int], vx_ma);
        lemma_answers(vx_e, $acc.given(), vx_ma, map@, vx_id);
        lemma_respelt(vx_e[vx_id.i as int], map@, vx_id.i as int);
    }
@after 0
    proof { vx_g = $acc.given(); vx_root = root; }
@loop 1
    $acc@ =~= Seq::new($i, |k: int| pat_node($s[k]))
@after 1
    proof { lemma_pat_wf($s, $acc@); lemma_general(vx_e, vx_e.len() - 1, vx_g, map@, $s, $s.len() - 1, $acc@); }
@closure rename_node
@sig (node: &L, map: &mut HashMap<Symbol, Var>) -> (r: L)
@flags as=map panics-ok index=trait
@entry
    broadcast use ax_hm_len;
@spec
    ensures final(map)@ == one_name(*node, old(map)@), known(*node, final(map)@), r == respelt(*node, final(map)@), tovar(*node) is Some && !old(map)@.contains_key(tovar(*node)->Some_0) ==> old(map)@.dom().len() < 26,
@end
