@raw
// ======== rulesets in files (C23) ========
pub mod rf {
use super::*;
pub open spec fn keys_of(s: Seq<(String, Rule)>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].0@) }
/// a rule whose name reads back as the rule: both sides read back from their printed text (egg's reader and printer)
pub open spec fn reads_back(r: Rule) -> bool {
    &&& r == the_rule(r.lhs, r.rhs) && r.name@ == rule_text(r.lhs, r.rhs) && one_line(r.name@)
    &&& side_text(pat_shown(r.lhs) + " "@) && pat_parse(pat_shown(r.lhs) + " "@) == Some(r.lhs) && pat_parse(" "@ + pat_shown(r.rhs)) == Some(r.rhs)
}
pub proof fn lemma_reads_back(r: Rule)
    requires reads_back(r),
    ensures text_ok(r.name@), text_rules(r.name@) == (r, None::<Rule>),
{
    let (a, b) = (pat_shown(r.lhs) + " "@, " "@ + pat_shown(r.rhs));
    reveal_strlit(" "); reveal_strlit("==>"); reveal_strlit(" ==> ");
    assert(" ==> "@ =~= " "@ + "==>"@ + " "@);
    assert(r.name@ =~= a + "==>"@ + b);
    theorem_rule_text(a, b, 1);
}
/// C23: a ruleset read back from the file it was written to has the same rules in the same order
pub proof fn theorem_ruleset_file(s: Seq<(String, Rule)>, n: nat)
    requires im_wf(s), keyed(s), n <= s.len(), forall|i: int| 0 <= i < s.len() ==> reads_back((#[trigger] s[i]).1),
    ensures put_texts(Seq::empty(), keys_of(s), n) == s.take(n as int), n == s.len() ==> lines_of(one_per_line(keys_of(s), n)) == keys_of(s),
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        theorem_ruleset_file(s, m);
        let r = s[m as int].1;
        lemma_reads_back(r);
        assert(keys_of(s)[m as int] == r.name@);
        let t = s.take(m as int);
        assert(!im_has(t, r.name)) by { if im_has(t, r.name) { let i = im_pos(t, r.name); assert(s[i].0 == s[m as int].0); } }
        assert(t.push(s[m as int]) =~= s.take(n as int));
    } else { assert(s.take(0) =~= Seq::empty()); }
    if n == s.len() {
        assert forall|i: int| 0 <= i < keys_of(s).len() implies one_line(#[trigger] keys_of(s)[i]) by { assert(reads_back(s[i].1)); }
        lemma_lines(keys_of(s));
    }
}
} // mod rf
use rf::*;
@fn Ruleset::to_file
@props C23
@flags panics-ok world
@sig pub fn to_file(&self, filename: &String, vx_w: &mut World) | fn to_file (& self , filename : & str)
@spec
    ensures wrote(*old(vx_w), *final(vx_w), filename@, one_per_line(keys_of(self.0@), self.0@.len())),
@entry
    broadcast use {lemma_last_write};
@loop 0
    $s == self.0@
    fh_name(file) == filename@ && fh_end(file)
    wrote(*old(vx_w), *vx_w, filename@, one_per_line(keys_of(self.0@), $i))
@tail 0
    proof {
        reveal_strlit("\n");
        assert("\n"@ =~= seq!['\n']);
        let s = files(*vx_w)[filename@];
        let ks = keys_of(self.0@);
        assert(ks[$i - 1] == self.0@[$i - 1].0@);
        assert(s =~= one_per_line(ks, ($i - 1) as nat) + (ks[$i - 1] + seq!['\n']));
        assert(files(*vx_w) =~= files(*old(vx_w)).insert(filename@, s));
    }
@fn Ruleset::from_file
@props C23
@flags panics-ok world
@sig pub fn from_file(filename: &String, vx_w: &mut World) -> (r: Self) | fn from_file (filename : & str) -> Self
@spec
    ensures *final(vx_w) == *old(vx_w), files(*old(vx_w)).dom().contains(filename@),
        ({ let ts = lines_of(files(*old(vx_w))[filename@]); r.0@ == put_texts(Seq::empty(), ts, ts.len()) }),
@loop 0
    $s.len() == lines_of(files(*old(vx_w))[filename@]).len()
    all_rules@ == put_texts(Seq::empty(), lines_of(files(*old(vx_w))[filename@]), $i)
@end
