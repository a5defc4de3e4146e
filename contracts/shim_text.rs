// ---------------------------------------------------------------------------------------------
// Text: `&str` is `Str`, a `String` is a sequence of characters. Formatting appends, in order, what
// each piece displays as.
// ---------------------------------------------------------------------------------------------
#[verifier::external_body]
pub struct Str<'a> { x: std::marker::PhantomData<&'a ()> }
impl<'a> Clone for Str<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a> Copy for Str<'a> {}
impl<'a> View for Str<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
/// two `&str` are the same when their characters are
pub broadcast axiom fn str_ext<'a>(a: Str<'a>, b: Str<'a>) ensures #[trigger] a.view() == #[trigger] b.view() ==> a == b;

#[verifier::external_body]
pub struct String { x: u8 }
impl View for String { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub broadcast axiom fn string_ext(a: String, b: String) ensures #[trigger] a.view() == #[trigger] b.view() ==> a == b;
impl Clone for String { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }

impl FromVec<char> for String {
    open spec fn from_ok(&self, v: Seq<char>) -> bool { self@ == v }
    #[verifier::external_body]
    fn from_vec(v: Vec<char>) -> (r: Self) { unimplemented!() }
}
/// conversion into a `T`
pub trait VIntoT<T>: Sized { spec fn into_ok(self, r: T) -> bool; fn vinto(self) -> (r: T) ensures self.into_ok(r); }
impl<'a> VIntoT<String> for Str<'a> { open spec fn into_ok(self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vinto(self) -> (r: String) { unimplemented!() } }
impl<'a, 'b> KeyOf<Str<'a>> for Str<'b> { open spec fn the_key(self) -> Str<'a> { self } }
impl VIntoT<String> for String { open spec fn into_ok(self, r: String) -> bool { r@ == self@ } fn vinto(self) -> (r: String) { self } }
#[verifier::external_body]
pub fn vlit(s: &'static str) -> (r: Str<'static>) ensures r@ == s@ { unimplemented!() }

pub trait Chars: Sized { spec fn cs(self) -> Seq<char>; }
impl<'a> Chars for Str<'a> { open spec fn cs(self) -> Seq<char> { self@ } }
impl<'a, 'b> Chars for &'b Str<'a> { open spec fn cs(self) -> Seq<char> { (*self)@ } }
impl<'b> Chars for &'b String { open spec fn cs(self) -> Seq<char> { (*self)@ } }

/// deref coercion to `&str`
pub trait ToStr<'a>: Sized { spec fn st(&self) -> Str<'a>; fn to_s(self) -> (r: Str<'a>) ensures r == self.st(); }
impl<'a> ToStr<'a> for Str<'a> { open spec fn st(&self) -> Str<'a> { *self } fn to_s(self) -> Str<'a> { self } }
impl<'a, 'b> ToStr<'a> for &'b Str<'a> { open spec fn st(&self) -> Str<'a> { **self } fn to_s(self) -> Str<'a> { *self } }
pub fn vstr<'a, T: ToStr<'a>>(x: T) -> (r: Str<'a>) ensures r == x.st() { x.to_s() }
/// the arena: what it keeps lives as long as it does
#[verifier::external_body]
pub struct Bump { x: u8 }
pub trait Kept<'a>: Sized { type Out; spec fn kept(self, r: Self::Out) -> bool; }
impl<'a> Kept<'a> for String { type Out = Str<'a>; open spec fn kept(self, r: Str<'a>) -> bool { r@ == self@ } }
impl Bump { #[verifier::external_body] pub fn alloc<'a, T: Kept<'a>>(&'a self, s: T) -> (r: T::Out) ensures s.kept(r) { unimplemented!() } }

pub trait TextSink: Sized {
    spec fn txt(&self) -> Seq<char>;
    fn put<'a>(&mut self, s: Str<'a>) ensures final(self).txt() == old(self).txt() + s@;
    fn sink(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self);
    fn write_str<C: Chars>(&mut self, s: C) -> (r: Result<(), FmtError>) ensures final(self).txt() == old(self).txt() + s.cs(), r is Ok;
}
impl TextSink for String {
    open spec fn txt(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn put<'a>(&mut self, s: Str<'a>) { unimplemented!() }
    #[verifier::external_body]
    fn write_str<C: Chars>(&mut self, s: C) -> (r: Result<(), FmtError>) { unimplemented!() }
    fn sink(&mut self) -> (r: &mut Self) { self }
}
impl String {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str<C: Chars>(&mut self, s: C) ensures final(self)@ == old(self)@ + s.cs() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    /// bytes of the UTF-8 text
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == utf8_len(self@), (r == 0) == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vis_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vas_str<'a>(&'a self) -> (r: Str<'a>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vchars<'a>(&'a self) -> (r: SeqIter<char>) ensures r.rem() == self@, self@.len() <= usize::MAX { unimplemented!() }
}
impl<'a> Str<'a> {
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == utf8_len(self@), (r == 0) == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vis_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vchars(&self) -> (r: SeqIter<char>) ensures r.rem() == self@, self@.len() <= usize::MAX { unimplemented!() }
}
pub uninterp spec fn utf8_len(s: Seq<char>) -> nat;
/// every character takes at least a byte
pub axiom fn utf8_len_ge(s: Seq<char>) ensures utf8_len(s) >= s.len();

pub open spec fn digit(i: int) -> char {
    if i == 0 { '0' } else if i == 1 { '1' } else if i == 2 { '2' } else if i == 3 { '3' } else if i == 4 { '4' }
    else if i == 5 { '5' } else if i == 6 { '6' } else if i == 7 { '7' } else if i == 8 { '8' } else { '9' }
}
/// the decimal notation of `i`
pub open spec fn dec(i: nat) -> Seq<char> decreases i {
    if i < 10 { seq![digit(i as int)] } else { dec(i / 10).push(digit((i % 10) as int)) }
}
pub trait VDisplay {
    spec fn shown(&self) -> Seq<char>;
    fn vdisplay<W: TextSink>(&self, w: &mut W) ensures final(w).txt() == old(w).txt() + self.shown();
    fn vto_string(&self) -> (r: String) ensures r@ == self.shown();
}
impl<'a, T: VDisplay> VDisplay for &'a T {
    open spec fn shown(&self) -> Seq<char> { (**self).shown() }
    #[verifier::external_body]
    fn vdisplay<W: TextSink>(&self, w: &mut W) { unimplemented!() }
    #[verifier::external_body]
    fn vto_string(&self) -> (r: String) { unimplemented!() }
}
impl VDisplay for u32 {
    open spec fn shown(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn vdisplay<W: TextSink>(&self, w: &mut W) { unimplemented!() }
    #[verifier::external_body]
    fn vto_string(&self) -> (r: String) { unimplemented!() }
}
impl VDisplay for usize {
    open spec fn shown(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn vdisplay<W: TextSink>(&self, w: &mut W) { unimplemented!() }
    #[verifier::external_body]
    fn vto_string(&self) -> (r: String) { unimplemented!() }
}
impl VDisplay for i32 {
    open spec fn shown(&self) -> Seq<char> { if *self >= 0 { dec(*self as nat) } else { seq!['-'] + dec((-*self) as nat) } }
    #[verifier::external_body]
    fn vdisplay<W: TextSink>(&self, w: &mut W) { unimplemented!() }
    #[verifier::external_body]
    fn vto_string(&self) -> (r: String) { unimplemented!() }
}
impl VDisplay for String {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vdisplay<W: TextSink>(&self, w: &mut W) { unimplemented!() }
    #[verifier::external_body]
    fn vto_string(&self) -> (r: String) { unimplemented!() }
}
impl<'a> VDisplay for Str<'a> {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vdisplay<W: TextSink>(&self, w: &mut W) { unimplemented!() }
    #[verifier::external_body]
    fn vto_string(&self) -> (r: String) { unimplemented!() }
}
impl VDisplay for char {
    open spec fn shown(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body]
    fn vdisplay<W: TextSink>(&self, w: &mut W) { unimplemented!() }
    #[verifier::external_body]
    fn vto_string(&self) -> (r: String) { unimplemented!() }
}
impl VDisplay for bool {
    open spec fn shown(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } }
    #[verifier::external_body]
    fn vdisplay<W: TextSink>(&self, w: &mut W) { unimplemented!() }
    #[verifier::external_body]
    fn vto_string(&self) -> (r: String) { unimplemented!() }
}
/// the str_texts one after the other
pub open spec fn concats(v: Seq<Seq<char>>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { concats(v, n - 1) + v[n - 1] } }
/// the str_texts with `sep` between them
pub open spec fn seps(v: Seq<Seq<char>>, sep: Seq<char>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else if n == 1 { v[0] } else { seps(v, sep, n - 1) + sep + v[n - 1] }
}
pub open spec fn str_texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
impl FromVec<String> for String {
    open spec fn from_ok(&self, v: Seq<String>) -> bool { self@ == concats(str_texts(v), v.len() as int) }
    #[verifier::external_body]
    fn from_vec(v: Vec<String>) -> (r: Self) { unimplemented!() }
}
pub trait VJoin: Sized { fn vjoin<'a>(&self, sep: Str<'a>) -> (r: String); }
impl VJoin for Vec<String> {
    #[verifier::external_body]
    fn vjoin<'a>(&self, sep: Str<'a>) -> (r: String) ensures r@ == seps(str_texts(self@), sep@, self@.len() as int) { unimplemented!() }
}
/// `std::fmt::Write` for a `String` never fails
pub struct FmtError {}
pub type FmtResult = Result<(), FmtError>;
pub fn vres<T>(x: Result<T, FmtError>) -> (r: Result<T, FmtError>) ensures r == x { x }
pub fn vok() -> (r: Result<(), FmtError>) ensures r is Ok { Ok(()) }
