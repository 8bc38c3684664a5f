@raw
// ======== terms as text; workloads in files (C23) ========
pub mod wf {
use super::*;
#[verifier::external_body] pub struct Fmt { x: u8 }
impl View for Fmt { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[derive(Debug)]
pub struct VErr;
impl Fmt { #[verifier::external_body] pub fn write_str(&mut self, t: &String) -> (r: Result<(), VErr>) ensures r is Ok ==> final(self)@ == old(self)@ + t@ { unimplemented!() } #[verifier::external_body] pub fn vwrite<T: VText>(&mut self, t: T) -> (r: Result<(), VErr>) ensures r is Ok ==> final(self)@ == old(self)@ + t.text() { unimplemented!() } }
/// a list is its parts in brackets, each followed by a space
pub open spec fn term_text(t: Sexp) -> Seq<char> decreases t {
    match t { Sexp::Atom(a) => a@, Sexp::List(v) => "("@ + parts_text(v@, v@.len()) + ")"@ }
}
pub open spec fn parts_text(s: Seq<Sexp>, n: nat) -> Seq<char> decreases s, n when n <= s.len() { if n == 0 { Seq::empty() } else { parts_text(s, (n - 1) as nat) + (term_text(s[n - 1]) + " "@) } }
impl VText for Sexp { open spec fn text(&self) -> Seq<char> { term_text(*self) } }
// to_string prints what fmt prints, under contract below
impl VToString for Sexp { open spec fn shown(&self) -> Seq<char> { term_text(*self) } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
/// the atoms are what an atom may be: no line breaks
pub open spec fn clean(t: Sexp) -> bool decreases t { match t { Sexp::Atom(a) => one_line(a@), Sexp::List(v) => clean_n(v@, v@.len()) } }
pub open spec fn clean_n(s: Seq<Sexp>, n: nat) -> bool decreases s, n when n <= s.len() { n == 0 || (clean_n(s, (n - 1) as nat) && clean(s[n - 1])) }
pub proof fn lemma_text_line(t: Sexp) requires clean(t), ensures one_line(term_text(t)), decreases t,
{
    reveal_strlit("("); reveal_strlit(")");
    if let Sexp::List(v) = t {
        lemma_parts_line(v@, v@.len());
        let p = parts_text(v@, v@.len());
        let s = term_text(t);
        assert(s.last() == ')');
        assert(!s.contains('\n')) by { if s.contains('\n') { let i = choose|i: int| 0 <= i < s.len() && s[i] == '\n'; assert(0 < i <= p.len()); assert(p[i - 1] == '\n'); } }
    }
}
pub proof fn lemma_parts_line(s: Seq<Sexp>, n: nat) requires n <= s.len(), clean_n(s, n), ensures !parts_text(s, n).contains('\n'), decreases s, n,
{
    reveal_strlit(" ");
    if n > 0 {
        lemma_parts_line(s, (n - 1) as nat);
        lemma_text_line(s[n - 1]);
        let (a, b, c) = (parts_text(s, (n - 1) as nat), term_text(s[n - 1]), parts_text(s, n));
        assert(c =~= a + b + " "@);
        if c.contains('\n') { let i = choose|i: int| 0 <= i < c.len() && c[i] == '\n'; if i < a.len() { assert(a[i] == '\n'); } else if i < a.len() + b.len() { assert(b[i - a.len()] == '\n'); } }
    }
}
/// the reader of the symbolic_expressions crate reads the text of the term as the term
pub open spec fn reads_as(t: Sexp) -> bool { sym_read(term_text(t)) is Ok && parsed(term_text(t)) == Ok::<Sexp, String>(t) }
pub open spec fn texts_of(s: Seq<Sexp>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| term_text(s[i])) }
pub open spec fn read_lines(s: Seq<Seq<char>>) -> Seq<Sexp> { Seq::new(s.len(), |i: int| parsed(s[i])->Ok_0) }
/// C23: a workload read back from the file it was written to holds the same terms in the same order
pub proof fn theorem_workload_file(w: Workload)
    requires forall|i: int| 0 <= i < denote(w).len() ==> clean(#[trigger] denote(w)[i]) && reads_as(denote(w)[i]),
    ensures read_lines(lines_of(one_per_line(texts_of(denote(w)), denote(w).len()))) == denote(w),
{
    let s = denote(w);
    let ts = texts_of(s);
    assert forall|i: int| 0 <= i < ts.len() implies one_line(#[trigger] ts[i]) by { lemma_text_line(s[i]); }
    lemma_lines(ts);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] read_lines(ts)[i]) == s[i] by { assert(reads_as(s[i])); }
    assert(read_lines(ts) =~= s);
}
} // mod wf
use wf::*;
@fn Sexp::Display::fmt
@props C23
@flags impl=impl~Sexp panics-ok strlits
@sig pub fn fmt(&self, f: &mut Fmt) -> (r: Result<(), VErr>)
@spec
    ensures r is Ok ==> final(f)@ =~= old(f)@ + term_text(*self),
    decreases self,
@entry
    proof { reveal_strlit("("); reveal_strlit(")"); reveal_strlit(" "); }
@before 0
    let ghost vx_f = f@;
@loop 0
    f@ =~= vx_f + parts_text($s, $i)
@fn Workload::to_file
@props C23
@flags panics-ok world
@sig pub fn to_file(&self, filename: &String, vx_w: &mut World) | fn to_file (& self , filename : & str)
@spec
    ensures wrote(*old(vx_w), *final(vx_w), filename@, one_per_line(texts_of(denote(*self)), denote(*self).len())),
@entry
    broadcast use {lemma_last_write};
@loop 0
    $s == denote(*self)
    fh_name(file) == filename@ && fh_end(file)
    wrote(*old(vx_w), *vx_w, filename@, one_per_line(texts_of(denote(*self)), $i))
@tail 0
    proof {
        reveal_strlit("\n");
        assert("\n"@ =~= seq!['\n']);
        let s = files(*vx_w)[filename@];
        let ks = texts_of(denote(*self));
        assert(ks[$i - 1] == term_text(denote(*self)[$i - 1]));
        assert(s =~= one_per_line(ks, ($i - 1) as nat) + (ks[$i - 1] + seq!['\n']));
        assert(files(*vx_w) =~= files(*old(vx_w)).insert(filename@, s));
    }
@fn Workload::from_file
@props C23
@flags panics-ok world
@sig pub fn from_file(filename: &String, vx_w: &mut World) -> (r: Self) | fn from_file (filename : & str) -> Self
@spec
    ensures *final(vx_w) == *old(vx_w), files(*old(vx_w)).dom().contains(filename@), denote(r) =~= read_lines(lines_of(files(*old(vx_w))[filename@])),
@loop 0
    $s.len() == lines_of(files(*old(vx_w))[filename@]).len()
    sexps@ =~= read_lines(lines_of(files(*old(vx_w))[filename@]).take($i as int))
@after 0
    proof { assert(lines_of(files(*old(vx_w))[filename@]).take($i as int) =~= lines_of(files(*old(vx_w))[filename@])); }
@end
