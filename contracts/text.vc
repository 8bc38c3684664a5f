# searching in texts
@raw
// ---- parts of a text ----
pub trait VPat: Sized { spec fn ptext(p: Self) -> Seq<char>; }
impl VPat for char { open spec fn ptext(p: Self) -> Seq<char> { seq![p] } }
impl VPat for &String { open spec fn ptext(p: Self) -> Seq<char> { p@ } }
pub open spec fn occurs_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) =~= p }
/// first occurrence
pub open spec fn first_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { occurs_at(s, p, i) && forall|j: int| 0 <= j < i ==> !#[trigger] occurs_at(s, p, j) }
impl String {
    #[verifier::external_body]
    pub fn split_once<P: VPat>(&self, p: P) -> (r: Option<(&String, &String)>)
        ensures
            r matches Some((a, b)) ==> exists|i: int| #[trigger] first_at(self@, P::ptext(p), i) && a@ == self@.take(i) && b@ == self@.skip(i + P::ptext(p).len()),
            P::ptext(p).len() >= 0, r is None ==> forall|i: int| !#[trigger] occurs_at(self@, P::ptext(p), i),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&String>)
        ensures
            r is Some <==> occurs_at(self@, P::ptext(p), self@.len() - P::ptext(p).len()),
            r matches Some(a) ==> a@ == self@.take(self@.len() - P::ptext(p).len()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&String>)
        ensures
            r is Some <==> occurs_at(self@, P::ptext(p), 0),
            r matches Some(a) ==> a@ == self@.skip(P::ptext(p).len() as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<P: VPat>(&self, p: P) -> (r: Option<usize>)
        ensures
            r matches Some(a) ==> exists|i: int| #[trigger] first_at(self@, P::ptext(p), i) && a == bpos(self@, i) && a + byte_len(P::ptext(p)) <= byte_len(self@) <= usize::MAX && boundary(self@, a as int) && cpos(self@, a as int) == i && boundary(self@, a + byte_len(P::ptext(p))) && cpos(self@, a + byte_len(P::ptext(p))) == i + P::ptext(p).len(),
            P::ptext(p).len() >= 0, r is None ==> forall|i: int| !#[trigger] occurs_at(self@, P::ptext(p), i),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == occurs_at(self@, P::ptext(p), 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn ends_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == occurs_at(self@, P::ptext(p), self@.len() - P::ptext(p).len()) { unimplemented!() }
}
