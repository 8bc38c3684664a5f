@raw
pub mod p {
use super::*;

// ---- text: an opaque value determined by its characters ----
#[verifier::external_body]
pub struct String { s: std::string::String }
impl View for String { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub uninterp spec fn mkstr(s: Seq<char>) -> String;
pub broadcast axiom fn ax_mkstr_of(t: String) ensures mkstr(#[trigger] t@) == t;

// ---- Vec: an opaque value determined by its elements (capacity is not observable) ----
pub uninterp spec fn mkvec<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn ax_mkvec_of<T>(v: Vec<T>) ensures mkvec(#[trigger] v@) == v;
pub broadcast axiom fn ax_mkvec_view<T>(s: Seq<T>) requires s.len() <= usize::MAX ensures (#[trigger] mkvec(s))@ == s;
// an in-memory vector has at most usize::MAX elements
pub broadcast axiom fn ax_vec_len<T>(v: Vec<T>) ensures #[trigger] v@.len() <= usize::MAX;

pub broadcast proof fn lemma_empty_add<T>(s: Seq<T>) ensures #[trigger] (Seq::<T>::empty() + s) == s { assert(Seq::<T>::empty() + s =~= s); }
pub broadcast proof fn lemma_add_empty<T>(s: Seq<T>) ensures #[trigger] (s + Seq::<T>::empty()) == s { assert(s + Seq::<T>::empty() =~= s); }

// ---- copies and comparisons ----
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
pub trait VEq: Sized { fn veq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o); }
pub trait VNew: Sized { spec fn is_new(r: Self) -> bool; fn vnew() -> (r: Self) ensures Self::is_new(r); }
pub fn vx_eq<T: VEq>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { a.veq(b) }
impl<T: VClone> VClone for Vec<T> { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl<T: VEq> VEq for Vec<T> { #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<T> VNew for Vec<T> { open spec fn is_new(r: Self) -> bool { r@ == Seq::<T>::empty() } fn vnew() -> (r: Self) { Vec::new() } }
impl<T: VClone> VClone for Box<T> { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl<T: VEq> VEq for Box<T> { #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<T: VClone> VClone for Option<T> { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl<T: VEq> VEq for Option<T> { #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<A: VClone, B: VClone> VClone for (A, B) { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl<A: VEq, B: VEq> VEq for (A, B) { #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl VClone for String { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl VEq for String { #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<T: VEq> VEq for &T { fn veq(&self, o: &Self) -> (r: bool) { (**self).veq(*o) } }
impl VClone for usize { fn vclone(&self) -> (r: Self) { *self } }
impl VEq for usize { fn veq(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VClone for u128 { fn vclone(&self) -> (r: Self) { *self } }
impl VEq for u128 { fn veq(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VClone for u64 { fn vclone(&self) -> (r: Self) { *self } }
impl VEq for u64 { fn veq(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VClone for u32 { fn vclone(&self) -> (r: Self) { *self } }
impl VEq for u32 { fn veq(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VClone for i32 { fn vclone(&self) -> (r: Self) { *self } }
impl VEq for i32 { fn veq(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VClone for bool { fn vclone(&self) -> (r: Self) { *self } }
impl VEq for bool { fn veq(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VNew for usize { open spec fn is_new(r: Self) -> bool { r == 0 } fn vnew() -> (r: Self) { 0 } }
impl VNew for bool { open spec fn is_new(r: Self) -> bool { r == false } fn vnew() -> (r: Self) { false } }
pub fn vx_opt_cloned<T: VClone>(o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None::<T> }),
{ match o { Some(x) => Some(x.vclone()), None => None } }

// ---- conversions that keep the value ----
pub trait VInto<T>: Sized { spec fn into_req(x: Self) -> bool; spec fn into_ok(x: Self, r: T) -> bool; fn vinto(self) -> (r: T) requires Self::into_req(self) ensures Self::into_ok(self, r); }
impl<T> VInto<T> for T { open spec fn into_req(x: Self) -> bool { true } open spec fn into_ok(x: Self, r: T) -> bool { r == x } fn vinto(self) -> (r: T) { self } }
impl VInto<String> for &String { open spec fn into_req(x: Self) -> bool { true } open spec fn into_ok(x: Self, r: String) -> bool { r == *x } fn vinto(self) -> (r: String) { self.vclone() } }
pub trait VToString { spec fn shown(&self) -> Seq<char>; fn vto_string(&self) -> (r: String) ensures r@ == self.shown(); }
impl VToString for String { open spec fn shown(&self) -> Seq<char> { self@ } fn vto_string(&self) -> (r: String) { self.vclone() } }
impl<T: VToString> VToString for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } fn vto_string(&self) -> (r: String) { (**self).vto_string() } }
pub trait VAsRef { fn vas_ref(&self) -> (r: &Self) ensures r == self; }
impl<T> VAsRef for T { fn vas_ref(&self) -> (r: &Self) { self } }
#[verifier::external_body]
pub fn vx_str(s: &'static str) -> (r: &'static String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_cat<A: VText, B: VText>(a: A, b: B) -> (r: String) ensures r@ == a.text() + b.text() { unimplemented!() }
pub trait VText { spec fn text(&self) -> Seq<char>; }
impl VText for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl<T: VText> VText for &T { open spec fn text(&self) -> Seq<char> { (**self).text() } }

// decimal notation; text repeated; text of a list of words
pub uninterp spec fn dec(n: nat) -> Seq<char>;
impl VToString for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
pub open spec fn reps(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { reps(s, (n - 1) as nat) + s } }
impl String {
    #[verifier::external_body]
    pub fn repeat(&self, n: usize) -> (r: String) ensures r@ == reps(self@, n as nat) { unimplemented!() }
}
// a value, or a panic
pub trait VUnwrap<T>: Sized { spec fn has_val(x: Self, r: T) -> bool; fn vunwrap_ok(self) -> (r: T) ensures Self::has_val(self, r); }
impl<T> VUnwrap<T> for Option<T> { open spec fn has_val(x: Self, r: T) -> bool { x == Some(r) } #[verifier::external_body] fn vunwrap_ok(self) -> (r: T) { unimplemented!() } }
impl<T, E> VUnwrap<T> for Result<T, E> { open spec fn has_val(x: Self, r: T) -> bool { x matches Ok(y) && y == r } #[verifier::external_body] fn vunwrap_ok(self) -> (r: T) { unimplemented!() } }

// ---- sequences ----
pub trait VSeq: Sized {
    type Elem; type Out;
    spec fn vseq(&self) -> Seq<Self::Elem>;
    spec fn visit(o: Self::Out, e: Self::Elem) -> bool;
    fn vlen(&self) -> (n: usize) ensures n == self.vseq().len();
    fn vtake(&self, i: usize) -> (r: Self::Out) requires i < self.vseq().len() ensures Self::visit(r, self.vseq()[i as int]);
}
impl<T> VSeq for Vec<T> {
    type Elem = T; type Out = T;
    open spec fn vseq(&self) -> Seq<T> { self@ }
    open spec fn visit(o: T, e: T) -> bool { o == e }
    fn vlen(&self) -> (n: usize) { self.len() }
    #[verifier::external_body]
    fn vtake(&self, i: usize) -> (r: T) { unimplemented!() }
}
impl<'a, T> VSeq for &'a Vec<T> {
    type Elem = T; type Out = &'a T;
    open spec fn vseq(&self) -> Seq<T> { (**self)@ }
    open spec fn visit(o: &'a T, e: T) -> bool { *o == e }
    fn vlen(&self) -> (n: usize) { (**self).len() }
    fn vtake(&self, i: usize) -> (r: &'a T) { &(**self)[i] }
}
impl<'a, 'b, T> VSeq for &'b &'a Vec<T> {
    type Elem = T; type Out = &'a T;
    open spec fn vseq(&self) -> Seq<T> { (***self)@ }
    open spec fn visit(o: &'a T, e: T) -> bool { *o == e }
    fn vlen(&self) -> (n: usize) { (***self).len() }
    fn vtake(&self, i: usize) -> (r: &'a T) { &(***self)[i] }
}
pub trait VVec<T> {
    spec fn vw(&self) -> Seq<T>;
    fn viter(&self) -> (r: &Vec<T>) ensures r@ == self.vw();
    fn vget(&self, i: usize) -> (r: &T) requires i < self.vw().len() ensures *r == self.vw()[i as int];
    fn vis_empty(&self) -> (r: bool) ensures r == (self.vw().len() == 0);
    fn vcontains(&self, x: &T) -> (r: bool) where T: VEq ensures r == self.vw().contains(*x);
}
impl<T> VVec<T> for Vec<T> {
    open spec fn vw(&self) -> Seq<T> { self@ }
    fn viter(&self) -> (r: &Vec<T>) { self }
    fn vget(&self, i: usize) -> (r: &T) { &self[i] }
    fn vis_empty(&self) -> (r: bool) { self.len() == 0 }
    #[verifier::external_body]
    fn vcontains(&self, x: &T) -> (r: bool) where T: VEq { unimplemented!() }
}
pub trait VExtend<A>: Sized { spec fn extended(old: Self, a: A, new: Self) -> bool; fn vextend(&mut self, a: A) ensures Self::extended(*old(self), a, *final(self)); }
impl<T> VExtend<Vec<T>> for Vec<T> {
    open spec fn extended(old: Self, a: Vec<T>, new: Self) -> bool { new@ == old@ + a@ }
    #[verifier::external_body]
    fn vextend(&mut self, a: Vec<T>) { unimplemented!() }
}
impl<T: VClone> VExtend<&Vec<T>> for Vec<T> {
    open spec fn extended(old: Self, a: &Vec<T>, new: Self) -> bool { new@ == old@ + a@ }
    #[verifier::external_body]
    fn vextend(&mut self, a: &Vec<T>) { unimplemented!() }
}
pub trait VPut<A>: Sized { spec fn was_put(old: Self, a: A, new: Self) -> bool; fn vput(&mut self, a: A) ensures Self::was_put(*old(self), a, *final(self)); }
impl<T> VPut<T> for Vec<T> {
    open spec fn was_put(old: Self, a: T, new: Self) -> bool { new@ == old@.push(a) }
    fn vput(&mut self, a: T) { self.push(a) }
}
#[verifier::external_body]
pub fn vx_repeat<T: VClone>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
#[verifier::external_body]
pub fn vx_take<T: VNew>(x: &mut T) -> (r: T) ensures r == *old(x), T::is_new(*final(x)) { unimplemented!() }
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn vx_first<T>(v: &Vec<T>) -> (r: Option<&T>)
    ensures r == (if v@.len() > 0 { Some(&v@[0]) } else { None::<&T> }),
{ if v.len() > 0 { Some(&v[0]) } else { None } }
pub fn vx_last<T>(v: &Vec<T>) -> (r: Option<&T>)
    ensures r == (if v@.len() > 0 { Some(&v@[v@.len() - 1]) } else { None::<&T> }),
{ if v.len() > 0 { Some(&v[v.len() - 1]) } else { None } }
// itertools: all choices, the first component varying slowest; nothing for no components
pub open spec fn cart<T>(s: Seq<Vec<T>>, n: nat) -> Seq<Seq<T>> decreases n {
    if n == 0 { seq![Seq::<T>::empty()] } else if n > s.len() { Seq::empty() } else { cart_step(cart(s, (n - 1) as nat), s[n - 1]@, cart(s, (n - 1) as nat).len()) }
}
// every prefix extended by every element, prefixes outermost
pub open spec fn cart_step<T>(pre: Seq<Seq<T>>, xs: Seq<T>, n: nat) -> Seq<Seq<T>> decreases n {
    if n == 0 { Seq::empty() } else { cart_step(pre, xs, (n - 1) as nat) + Seq::new(xs.len(), |k: int| pre[n - 1].push(xs[k])) }
}
pub open spec fn vecs<T>(s: Seq<Seq<T>>) -> Seq<Vec<T>> { Seq::new(s.len(), |i: int| mkvec(s[i])) }
#[verifier::external_body]
pub fn vx_cartesian<T: VClone>(v: Vec<Vec<T>>) -> (r: Vec<Vec<T>>) ensures r@ == vecs(if v@.len() == 0 { Seq::<Seq<T>>::empty() } else { cart(v@, v@.len()) }) { unimplemented!() }

// ---- failure ----
#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_abort<T>() -> (r: T) ensures false { unimplemented!() }
pub fn vx_assert(c: bool) requires c {}
#[verifier::external_body]
pub fn vx_assert_ok(c: bool) ensures c { unimplemented!() }

// ---- maps ----
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: std::marker::PhantomData<K>, v: std::marker::PhantomData<V> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
pub uninterp spec fn mkmap<K, V>(m: Map<K, V>) -> HashMap<K, V>;
pub broadcast axiom fn ax_mkmap_of<K, V>(v: HashMap<K, V>) ensures mkmap(#[trigger] v@) == v;
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None::<&V> }) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None::<V> }) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vis_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None::<V> }) { unimplemented!() }
}
impl<K, V> VNew for HashMap<K, V> { open spec fn is_new(r: Self) -> bool { r@ == Map::<K, V>::empty() } #[verifier::external_body] fn vnew() -> (r: Self) { unimplemented!() } }
impl<K: VClone, V: VClone> VClone for HashMap<K, V> { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
// ---- more of the library's text functions: what they give is not interpreted ----
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn ascii_lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn ascii_upper(s: Seq<char>) -> Seq<char>;
/// UTF-8: the bytes of a character, of the first k characters, of a text, and the character at a byte
pub open spec fn utf8_len(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn bpos(s: Seq<char>, k: int) -> nat decreases k { if k <= 0 { 0 } else { bpos(s, k - 1) + utf8_len(s[k - 1]) } }
pub open spec fn byte_len(s: Seq<char>) -> nat { bpos(s, s.len() as int) }
pub open spec fn at_byte(s: Seq<char>, a: int, k: int) -> bool { 0 <= k <= s.len() && bpos(s, k) == a }
pub open spec fn boundary(s: Seq<char>, a: int) -> bool { exists|k: int| #[trigger] at_byte(s, a, k) }
pub open spec fn cpos(s: Seq<char>, a: int) -> int { choose|k: int| #[trigger] at_byte(s, a, k) }
pub proof fn lemma_bpos(s: Seq<char>, i: int, j: int) requires 0 <= i < j ensures bpos(s, i) < bpos(s, j) decreases j { if i < j - 1 { lemma_bpos(s, i, j - 1); } }
pub broadcast proof fn lemma_cpos(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures #![trigger bpos(s, k)] boundary(s, bpos(s, k) as int), cpos(s, bpos(s, k) as int) == k {
    assert(at_byte(s, bpos(s, k) as int, k));
    let i = cpos(s, bpos(s, k) as int);
    assert(at_byte(s, bpos(s, k) as int, i));
    if i < k { lemma_bpos(s, i, k); } else if k < i { lemma_bpos(s, k, i); }
}
pub broadcast proof fn lemma_cpos_1(s: Seq<char>) requires s.len() > 0, (s[0] as u32) < 0x80 ensures #![trigger cpos(s, 1)] #![trigger boundary(s, 1)] boundary(s, 1), cpos(s, 1) == 1 { assert(bpos(s, 1) == 1) by { reveal_with_fuel(bpos, 2); } lemma_cpos(s, 1); }
pub broadcast proof fn lemma_cpos_0(s: Seq<char>) ensures #![trigger cpos(s, 0)] #![trigger boundary(s, 0)] boundary(s, 0), cpos(s, 0) == 0 { assert(bpos(s, 0) == 0); lemma_cpos(s, 0); }
pub broadcast proof fn lemma_cpos_last(s: Seq<char>) requires s.len() > 0, (s.last() as u32) < 0x80 ensures #![trigger byte_len(s)] byte_len(s) >= 1, boundary(s, byte_len(s) - 1), cpos(s, byte_len(s) - 1) == s.len() - 1, boundary(s, byte_len(s) as int), cpos(s, byte_len(s) as int) == s.len() { assert(byte_len(s) == bpos(s, s.len() - 1) + 1); lemma_cpos(s, s.len() - 1); lemma_cpos(s, s.len() as int); }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
pub proof fn lemma_ascii_bpos(s: Seq<char>, k: int) requires ascii(s), 0 <= k <= s.len() ensures bpos(s, k) == k decreases k { if k > 0 { lemma_ascii_bpos(s, k - 1); assert((s[k - 1] as u32) < 128); } }
/// of a text in ASCII the positions in bytes are those in characters
pub proof fn lemma_ascii(s: Seq<char>) requires ascii(s) ensures byte_len(s) == s.len(), forall|a: int| #[trigger] boundary(s, a) ==> 0 <= a <= s.len() && cpos(s, a) == a, forall|a: int| 0 <= a <= s.len() ==> #[trigger] boundary(s, a), forall|a: int| 0 <= a <= s.len() ==> #[trigger] cpos(s, a) == a {
    lemma_ascii_bpos(s, s.len() as int);
    assert forall|a: int| 0 <= a <= s.len() implies #[trigger] cpos(s, a) == a by { lemma_ascii_bpos(s, a); lemma_cpos(s, a); }
    assert forall|a: int| 0 <= a <= s.len() implies #[trigger] boundary(s, a) by { lemma_ascii_bpos(s, a); lemma_cpos(s, a); }
    assert forall|a: int| #[trigger] boundary(s, a) implies 0 <= a <= s.len() && cpos(s, a) == a by { let k = cpos(s, a); assert(at_byte(s, a, k)); lemma_ascii_bpos(s, k); }
}
impl String {
    #[verifier::external_body]
    pub fn to_lowercase(&self) -> (r: String) ensures r@ == lower(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_uppercase(&self) -> (r: String) ensures r@ == upper(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_ascii_lowercase(&self) -> (r: String) ensures r@ == ascii_lower(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_ascii_uppercase(&self) -> (r: String) ensures r@ == ascii_upper(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn eq_ignore_ascii_case(&self, o: &String) -> (r: bool) ensures r == (ascii_lower(self@) == ascii_lower(o@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == byte_len(self@), r >= self@.len(), ascii(self@) ==> r == self@.len(), r == 0 <==> self@.len() == 0 { unimplemented!() }
}
pub trait VOpt<T>: Sized { spec fn opt(x: Self) -> Option<T>; fn vopt(self) -> (r: Option<T>) ensures r == Self::opt(self); }
impl<T> VOpt<T> for Option<T> { open spec fn opt(x: Self) -> Option<T> { x } fn vopt(self) -> (r: Option<T>) { self } }
impl<T, E> VOpt<T> for Result<T, E> { open spec fn opt(x: Self) -> Option<T> { match x { Ok(y) => Some(y), Err(_) => None } } #[verifier::external_body] fn vopt(self) -> (r: Option<T>) { unimplemented!() } }
/// the elements of two sequences, one after the other
pub trait VChain: Sized { type R; spec fn chained(a: Self, b: Self, r: Self::R) -> bool; fn vchain(self, o: Self) -> (r: Self::R) ensures Self::chained(self, o, r); }
impl<T> VChain for Vec<T> { type R = Vec<T>; open spec fn chained(a: Self, b: Self, r: Vec<T>) -> bool { r@ == a@ + b@ } #[verifier::external_body] fn vchain(self, o: Self) -> (r: Vec<T>) { unimplemented!() } }
impl<'a, T> VChain for &'a Vec<T> { type R = Vec<&'a T>; open spec fn chained(a: Self, b: Self, r: Vec<&'a T>) -> bool { r@.len() == a@.len() + b@.len() && forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == (if i < a@.len() { a@[i] } else { b@[i - a@.len()] }) } #[verifier::external_body] fn vchain(self, o: Self) -> (r: Vec<&'a T>) { unimplemented!() } }
pub fn vx_chain<A: VChain>(a: A, b: A) -> (r: A::R) ensures A::chained(a, b, r) { a.vchain(b) }
} // mod p
use p::*;
broadcast use {ax_mkstr_of, ax_mkvec_of, ax_mkvec_view, ax_vec_len, ax_mkmap_of, lemma_empty_add, lemma_add_empty, lemma_cpos, lemma_cpos_0, lemma_cpos_1, lemma_cpos_last};
@stub vclone
