@raw
// ======== terms as trees ========
pub mod te {
use super::*;
// egg's Language: a node is its operator and its children; replacing the children keeps the operator
pub broadcast axiom fn ax_kids_of(n: L, ks: Seq<Id>) requires ks.len() == kids(n).len() ensures kids(#[trigger] with_kids(n, ks)) == ks;
pub broadcast axiom fn ax_with_with(n: L, ks: Seq<Id>, ms: Seq<Id>) requires ks.len() == kids(n).len(), ms.len() == ks.len() ensures #[trigger] with_kids(with_kids(n, ks), ms) == with_kids(n, ms);
pub broadcast axiom fn ax_with_own(n: L) ensures with_kids(n, #[trigger] kids(n)) == n;
/// whether a node is a variable, and which: this does not depend on its children's places
pub uninterp spec fn tovar(n: L) -> Option<Symbol>;
impl L { #[verifier::external_body] pub fn to_var(&self) -> (r: Option<Symbol>) ensures r == tovar(*self) { unimplemented!() } }
impl VNew for RecExpr { open spec fn is_new(r: Self) -> bool { r.nodes@ == Seq::<L>::empty() } fn vnew() -> (r: Self) { RecExpr { nodes: Vec::new() } } }
impl RecExpr { pub fn add(&mut self, n: L) -> (r: Id) ensures final(self).nodes@ == old(self).nodes@.push(n), r.i == old(self).nodes@.len() { self.nodes.push(n); Id { i: self.nodes.len() - 1 } } }
/// the operator of a node: the node with blank children
pub open spec fn blank(n: nat) -> Seq<Id> { Seq::new(n, |i: int| Id { i: 0 }) }
pub open spec fn head(n: L) -> L { with_kids(n, blank(kids(n).len())) }
pub enum Tree { Node(L, Seq<Tree>) }
/// the term rooted at node i, whose children are earlier nodes
pub open spec fn tree(s: Seq<L>, i: int) -> Tree decreases i, kids(s[i]).len() + 2 { Tree::Node(head(s[i]), trees(s, kids(s[i]), i, kids(s[i]).len())) }
pub open spec fn trees(s: Seq<L>, ks: Seq<Id>, i: int, n: nat) -> Seq<Tree> decreases i, n + 1 { if n == 0 { Seq::empty() } else { trees(s, ks, i, (n - 1) as nat).push(if ks[n - 1].i < i { tree(s, ks[n - 1].i as int) } else { arbitrary() }) } }
pub open spec fn rec_node_wf(n: L, i: int) -> bool { forall|j: int| 0 <= j < kids(n).len() ==> (#[trigger] kids(n)[j]).i < i }
pub open spec fn nodes_wf(s: Seq<L>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] rec_node_wf(s[i], i) }
pub open spec fn rec_wf(e: RecExpr) -> bool { e.nodes@.len() > 0 && nodes_wf(e.nodes@) }
pub open spec fn rec_tree(e: RecExpr) -> Tree { tree(e.nodes@, e.nodes@.len() - 1) }
/// a node applied to terms
pub open spec fn app(n: L, ts: Seq<Tree>) -> Tree { Tree::Node(head(n), ts) }
pub proof fn lemma_head(n: L, ks: Seq<Id>)
    requires ks.len() == kids(n).len(),
    ensures head(with_kids(n, ks)) == head(n), kids(with_kids(n, ks)) == ks,
{ ax_kids_of(n, ks); ax_with_with(n, ks, blank(ks.len())); }
pub proof fn lemma_tree(s: Seq<L>, i: int)
    requires 0 <= i, rec_node_wf(s[i], i),
    ensures tree(s, i) == app(s[i], Seq::new(kids(s[i]).len(), |j: int| tree(s, kids(s[i])[j].i as int))),
{
    lemma_trees(s, kids(s[i]), i, kids(s[i]).len());
    assert(trees(s, kids(s[i]), i, kids(s[i]).len()) =~= Seq::new(kids(s[i]).len(), |j: int| tree(s, kids(s[i])[j].i as int)));
}
pub proof fn lemma_trees(s: Seq<L>, ks: Seq<Id>, i: int, n: nat)
    requires n <= ks.len(), forall|j: int| 0 <= j < n ==> (#[trigger] ks[j]).i < i,
    ensures trees(s, ks, i, n).len() == n, forall|j: int| 0 <= j < n ==> #[trigger] trees(s, ks, i, n)[j] == tree(s, ks[j].i as int),
    decreases n,
{ if n > 0 { lemma_trees(s, ks, i, (n - 1) as nat); assert(ks[n - 1].i < i); } }
/// a term depends only on the nodes up to its root
pub proof fn lemma_tree_prefix(s: Seq<L>, t: Seq<L>, i: int)
    requires 0 <= i < s.len(), i < t.len(), nodes_wf(s), forall|k: int| 0 <= k <= i ==> s[k] == #[trigger] t[k],
    ensures tree(s, i) == tree(t, i),
    decreases i,
{
    assert(s[i] == t[i]);
    assert(rec_node_wf(s[i], i));
    lemma_tree(s, i);
    lemma_tree(t, i);
    let a = Seq::new(kids(s[i]).len(), |j: int| tree(s, kids(s[i])[j].i as int));
    let b = Seq::new(kids(t[i]).len(), |j: int| tree(t, kids(t[i])[j].i as int));
    assert forall|j: int| 0 <= j < a.len() implies a[j] == b[j] by { let k = kids(s[i])[j].i as int; assert(kids(s[i])[j].i < i); lemma_tree_prefix(s, t, k); }
    assert(a =~= b);
}
/// nodes moved up by d places
pub open spec fn moved(n: L, d: int) -> L { with_kids(n, Seq::new(kids(n).len(), |j: int| Id { i: (kids(n)[j].i + d) as usize })) }
pub open spec fn placed(s: Seq<L>, d: int, t: Seq<L>, n: int) -> bool { d + n <= t.len() && t.len() <= usize::MAX && forall|k: int| 0 <= k < n ==> t[d + k] == moved(#[trigger] s[k], d) }
pub proof fn lemma_moved_wf(n: L, i: int, d: int)
    requires rec_node_wf(n, i), 0 <= d, i + d <= usize::MAX,
    ensures rec_node_wf(moved(n, d), i + d), head(moved(n, d)) == head(n), kids(moved(n, d)).len() == kids(n).len(), forall|j: int| 0 <= j < kids(n).len() ==> (#[trigger] kids(moved(n, d))[j]).i == kids(n)[j].i + d,
{
    let ks = Seq::new(kids(n).len(), |j: int| Id { i: (kids(n)[j].i + d) as usize });
    lemma_head(n, ks);
    assert forall|j: int| 0 <= j < ks.len() implies (#[trigger] kids(moved(n, d))[j]).i == kids(n)[j].i + d by { assert(kids(n)[j].i < i); assert(kids(moved(n, d))[j] == ks[j]); }
    assert forall|j: int| 0 <= j < kids(moved(n, d)).len() implies (#[trigger] kids(moved(n, d))[j]).i < i + d by { assert(kids(n)[j].i < i); }
}
pub proof fn lemma_placed(s: Seq<L>, d: int, t: Seq<L>, i: int)
    requires nodes_wf(s), 0 <= i < s.len(), 0 <= d, placed(s, d, t, s.len() as int),
    ensures tree(t, d + i) == tree(s, i),
    decreases i,
{
    assert(rec_node_wf(s[i], i));
    lemma_moved_wf(s[i], i, d);
    assert(t[d + i] == moved(s[i], d));
    lemma_tree(s, i);
    lemma_tree(t, d + i);
    let a = Seq::new(kids(s[i]).len(), |j: int| tree(s, kids(s[i])[j].i as int));
    let b = Seq::new(kids(t[d + i]).len(), |j: int| tree(t, kids(t[d + i])[j].i as int));
    assert forall|j: int| 0 <= j < a.len() implies a[j] == b[j] by { let k = kids(s[i])[j].i as int; assert(kids(s[i])[j].i < i); lemma_placed(s, d, t, k); assert(kids(t[d + i])[j].i == k + d); }
    assert(a =~= b);
}
} // mod te
use te::*;
