@stub ~File::create ~File::open ~.open ~create_dir_all ~read_to_string ~write ~read BufReader::new BufRead::lines .lines .read .write .append .truncate .create OpenOptions::new File::create File::open
@raw
// ======== the file system ========
pub mod fsys {
use super::*;
// names of files and their contents, as text; nothing else writes to them meanwhile
#[verifier::external_body] pub struct IoErr { x: u8 }
#[verifier::external_body] pub struct World { x: u8 }
pub uninterp spec fn files(w: World) -> Map<Seq<char>, Seq<char>>;
pub open spec fn wrote(w0: World, w1: World, name: Seq<char>, s: Seq<char>) -> bool { files(w1) == files(w0).insert(name, s) }
pub broadcast proof fn lemma_last_write(m: Map<Seq<char>, Seq<char>>, n: Seq<char>, a: Seq<char>, b: Seq<char>) ensures #[trigger] m.insert(n, a).insert(n, b) == m.insert(n, b) { assert(m.insert(n, a).insert(n, b) =~= m.insert(n, b)); }
#[verifier::external_body] pub struct File { x: u8 }
pub uninterp spec fn fh_name(f: File) -> Seq<char>;
/// content when opened
pub uninterp spec fn fh_text(f: File) -> Seq<char>;
/// what is written goes to the end of the file
pub uninterp spec fn fh_end(f: File) -> bool;
impl File {
    #[verifier::external_body] pub fn create<S: VText>(p: S, vx_w: &mut World) -> (r: Result<File, IoErr>)
        ensures r matches Ok(f) ==> fh_name(f) == p.text() && fh_end(f) && wrote(*old(vx_w), *final(vx_w), p.text(), Seq::empty()), r is Err ==> *final(vx_w) == *old(vx_w) { unimplemented!() }
    #[verifier::external_body] pub fn open<S: VText>(p: S, vx_w: &mut World) -> (r: Result<File, IoErr>)
        ensures *final(vx_w) == *old(vx_w), r matches Ok(f) ==> files(*old(vx_w)).dom().contains(p.text()) && fh_name(f) == p.text() && fh_text(f) == files(*old(vx_w))[p.text()] { unimplemented!() }
    #[verifier::external_body] pub fn vwrite<T: VText>(&mut self, t: T, vx_w: &mut World) -> (r: Result<(), IoErr>)
        ensures *final(self) == *old(self), r is Ok ==> exists|s: Seq<char>| #[trigger] wrote(*old(vx_w), *final(vx_w), fh_name(*old(self)), s) && (fh_end(*old(self)) ==> s == files(*old(vx_w))[fh_name(*old(self))] + t.text()) { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct OpenOptions { pub r: bool, pub w: bool, pub a: bool, pub t: bool, pub c: bool }
impl OpenOptions {
    pub fn new() -> (r: OpenOptions) ensures r == (OpenOptions { r: false, w: false, a: false, t: false, c: false }) { OpenOptions { r: false, w: false, a: false, t: false, c: false } }
    pub fn read(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { r: b, ..self }) { OpenOptions { r: b, ..self } }
    pub fn write(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { w: b, ..self }) { OpenOptions { w: b, ..self } }
    pub fn append(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { a: b, ..self }) { OpenOptions { a: b, ..self } }
    pub fn truncate(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { t: b, ..self }) { OpenOptions { t: b, ..self } }
    pub fn create(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { c: b, ..self }) { OpenOptions { c: b, ..self } }
    #[verifier::external_body] pub fn open<S: VText>(self, p: S, vx_w: &mut World) -> (r: Result<File, IoErr>)
        ensures r is Err ==> *final(vx_w) == *old(vx_w),
            r matches Ok(f) ==> {
                let was = files(*old(vx_w)).dom().contains(p.text());
                let s = if was && !self.t { files(*old(vx_w))[p.text()] } else { Seq::empty() };
                fh_name(f) == p.text() && fh_text(f) == s && fh_end(f) == (self.a || s.len() == 0) && (was || (self.c && (self.w || self.a))) && wrote(*old(vx_w), *final(vx_w), p.text(), s)
            } { unimplemented!() }
}
#[verifier::external_body]
pub fn create_dir_all<S: VText>(p: S, vx_w: &mut World) -> (r: Result<(), IoErr>) ensures *final(vx_w) == *old(vx_w) { unimplemented!() }
#[verifier::external_body]
pub fn read_to_string<S: VText>(p: S, vx_w: &mut World) -> (r: Result<String, IoErr>) ensures *final(vx_w) == *old(vx_w), r matches Ok(s) ==> files(*old(vx_w)).dom().contains(p.text()) && s@ == files(*old(vx_w))[p.text()] { unimplemented!() }
#[verifier::external_body]
pub fn write<S: VText, T: VText>(p: S, t: T, vx_w: &mut World) -> (r: Result<(), IoErr>) ensures r is Ok ==> wrote(*old(vx_w), *final(vx_w), p.text(), t.text()) { unimplemented!() }
impl String { #[verifier::external_body] pub fn vis_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() } }
// ---- lines ----
#[verifier::external_body] pub struct BufReader { x: u8 }
pub uninterp spec fn br_text(r: BufReader) -> Seq<char>;
impl BufReader {
    #[verifier::external_body] pub fn new(f: File) -> (r: Self) ensures br_text(r) == fh_text(f) { unimplemented!() }
    #[verifier::external_body] pub fn lines(self) -> (r: Vec<Result<String, IoErr>>) ensures lines_are(r@, br_text(self)) { unimplemented!() }
}
impl BufReader { #[verifier::external_body] pub fn vlines(self) -> (r: Vec<Result<String, IoErr>>) ensures lines_are(r@, br_text(self)) { unimplemented!() } }
pub struct BufRead { x: u8 }
impl BufRead { #[verifier::external_body] pub fn lines(b: BufReader) -> (r: Vec<Result<String, IoErr>>) ensures lines_are(r@, br_text(b)) { unimplemented!() } }
pub open spec fn lines_are(r: Seq<Result<String, IoErr>>, s: Seq<char>) -> bool { r.len() == lines_of(s).len() && forall|i: int| 0 <= i < r.len() ==> ((#[trigger] r[i]) matches Ok(x) ==> x@ == lines_of(s)[i]) }
/// position of the first line break, or the length
pub open spec fn line_end(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 || s[0] == '\n' { 0 } else { 1 + line_end(s.skip(1)) } }
pub open spec fn no_cr(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
/// the lines of a text, as the standard library reads them (a line break ends a line; a carriage return before it is dropped)
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if line_end(s) < s.len() { seq![no_cr(s.take(line_end(s) as int))] + lines_of(s.skip(line_end(s) as int + 1)) }
    else { seq![s] }
}
/// texts written one per line
pub open spec fn one_per_line(ts: Seq<Seq<char>>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { one_per_line(ts, (n - 1) as nat) + (ts[n - 1] + seq!['\n']) } }
pub open spec fn one_line(s: Seq<char>) -> bool { !s.contains('\n') && (s.len() > 0 ==> s.last() != '\r') }
pub proof fn lemma_line_end(a: Seq<char>, b: Seq<char>)
    requires !a.contains('\n'),
    ensures line_end(a + seq!['\n'] + b) == a.len(),
    decreases a.len(),
{
    let s = a + seq!['\n'] + b;
    if a.len() > 0 {
        assert(s[0] == a[0]);
        assert(a.contains(a[0]));
        let c = a.skip(1);
        assert(s.skip(1) =~= c + seq!['\n'] + b);
        assert(!c.contains('\n')) by { if c.contains('\n') { let i = choose|i: int| 0 <= i < c.len() && c[i] == '\n'; assert(a[i + 1] == '\n'); } }
        lemma_line_end(c, b);
    } else { assert(s[0] == '\n'); }
}
pub proof fn lemma_front(ts: Seq<Seq<char>>, n: nat)
    requires 0 < n <= ts.len(),
    ensures one_per_line(ts, n) == ts[0] + seq!['\n'] + one_per_line(ts.skip(1), (n - 1) as nat),
    decreases n,
{
    if n > 1 {
        lemma_front(ts, (n - 1) as nat);
        assert(ts.skip(1)[n - 2] == ts[n - 1]);
        assert(one_per_line(ts, n) =~= ts[0] + seq!['\n'] + one_per_line(ts.skip(1), (n - 1) as nat));
    } else { assert(one_per_line(ts, 0) == Seq::<char>::empty()); assert(one_per_line(ts.skip(1), 0) == Seq::<char>::empty()); assert(one_per_line(ts, 1) =~= ts[0] + seq!['\n'] + one_per_line(ts.skip(1), 0)); }
}
/// texts written one per line are the lines read back
pub proof fn lemma_lines(ts: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < ts.len() ==> one_line(#[trigger] ts[i]),
    ensures lines_of(one_per_line(ts, ts.len())) == ts,
    decreases ts.len(),
{
    if ts.len() > 0 {
        lemma_front(ts, ts.len());
        let u = ts.skip(1);
        let s = one_per_line(ts, ts.len());
        let b = one_per_line(u, u.len());
        assert(one_line(ts[0]));
        lemma_line_end(ts[0], b);
        assert forall|i: int| 0 <= i < u.len() implies one_line(#[trigger] u[i]) by { assert(u[i] == ts[i + 1]); }
        lemma_lines(u);
        assert(s.take(ts[0].len() as int) =~= ts[0]);
        assert(s.skip(ts[0].len() as int + 1) =~= b);
        assert(lines_of(s) == seq![ts[0]] + lines_of(b));
        assert(seq![ts[0]] + u =~= ts);
    } else { assert(ts =~= Seq::empty()); assert(one_per_line(ts, 0) == Seq::<char>::empty()); }
}
} // mod fsys
use fsys::*;
