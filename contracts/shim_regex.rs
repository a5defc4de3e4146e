// ---------------------------------------------------------------------------------------------
// regex_syntax::hir as the crate uses it (the same variants; positions and greediness left out).
// ---------------------------------------------------------------------------------------------
pub struct RegexHir { pub k: HirKind }
pub enum HirKind {
    Empty,
    Literal(Literal),
    Class(Class),
    Anchor(Anchor),
    WordBoundary(WordBoundary),
    Repetition(Repetition),
    Group(Group),
    Concat(Vec<RegexHir>),
    Alternation(Vec<RegexHir>),
}
pub enum Literal { Unicode(char), Byte(u8) }
pub enum Class { Unicode(ClassUnicode), Bytes(ClassBytes) }
pub enum Anchor { StartLine, EndLine, StartText, EndText }
pub enum WordBoundary { Unicode, UnicodeNegate, Ascii, AsciiNegate }
pub struct Repetition { pub kind: RepetitionKind, pub greedy: bool, pub hir: Box<RegexHir> }
pub enum RepetitionKind { ZeroOrOne, ZeroOrMore, OneOrMore, Range(RepetitionRange) }
pub enum RepetitionRange { Exactly(u32), AtLeast(u32), Bounded(u32, u32) }
pub struct Group { pub kind: u8, pub hir: Box<RegexHir> }
pub struct ClassUnicode { pub v: Vec<ClassUnicodeRange> }
pub struct ClassBytes { pub v: Vec<ClassBytesRange> }
pub struct ClassUnicodeRange { pub s: char, pub e: char }
pub struct ClassBytesRange { pub s: u8, pub e: u8 }
impl RegexHir { pub fn kind<'a>(&'a self) -> (r: &'a HirKind) ensures *r == self.k { &self.k } }
impl ClassUnicode { pub fn ranges<'a>(&'a self) -> (r: &'a Vec<ClassUnicodeRange>) ensures *r == self.v { &self.v } }
impl ClassBytes { pub fn ranges<'a>(&'a self) -> (r: &'a Vec<ClassBytesRange>) ensures *r == self.v { &self.v } }
impl ClassUnicodeRange {
    pub fn start(&self) -> (r: char) ensures r == self.s { self.s }
    pub fn end(&self) -> (r: char) ensures r == self.e { self.e }
}
impl ClassBytesRange {
    pub fn start(&self) -> (r: u8) ensures r == self.s { self.s }
    pub fn end(&self) -> (r: u8) ensures r == self.e { self.e }
}

// --- the language of a regex: which whole strings it matches ---
pub open spec fn lit_has(l: Literal, c: char) -> bool {
    match l { Literal::Unicode(x) => x == c, Literal::Byte(b) => b as int == c as int }
}
pub open spec fn class_has(k: Class, c: char) -> bool {
    match k {
        Class::Unicode(k) => exists|i: int| 0 <= i < k.v@.len() && (#[trigger] k.v@[i]).s as int <= c as int <= k.v@[i].e as int,
        Class::Bytes(k) => exists|i: int| 0 <= i < k.v@.len() && (#[trigger] k.v@[i]).s as int <= c as int <= k.v@[i].e as int,
    }
}
/// names a count (for the solver)
pub open spec fn times(n: nat) -> bool { true }
pub open spec fn lang(h: RegexHir, w: Seq<char>) -> bool decreases h, 0nat
{
    match h.k {
        HirKind::Empty => w.len() == 0,
        HirKind::Literal(l) => w.len() == 1 && lit_has(l, w[0]),
        HirKind::Class(c) => w.len() == 1 && class_has(c, w[0]),
        HirKind::Anchor(_) => false,
        HirKind::WordBoundary(_) => false,
        HirKind::Repetition(r) => match r.kind {
            RepetitionKind::ZeroOrOne => w.len() == 0 || lang(*r.hir, w),
            RepetitionKind::ZeroOrMore => exists|n: nat| #[trigger] times(n) && star(*r.hir, n, w),
            RepetitionKind::OneOrMore => exists|n: nat| #[trigger] times(n) && n >= 1 && star(*r.hir, n, w),
            RepetitionKind::Range(_) => false,
        },
        HirKind::Group(g) => lang(*g.hir, w),
        HirKind::Concat(v) => lang_cat(v, 0, w),
        HirKind::Alternation(v) => lang_alt(v, 0, w),
    }
}
/// `n` matches of `h` in a row
pub open spec fn star(h: RegexHir, n: nat, w: Seq<char>) -> bool decreases h, n + 1
{
    if n == 0 { w.len() == 0 } else {
        exists|j: int| 0 <= j <= w.len() && lang(h, #[trigger] w.take(j)) && star(h, (n - 1) as nat, w.skip(j))
    }
}
/// matches of `v[i]`, `v[i + 1]`, ... in a row
pub open spec fn lang_cat(v: Vec<RegexHir>, i: nat, w: Seq<char>) -> bool decreases v, v@.len() - i
{
    if i >= v@.len() { w.len() == 0 } else {
        exists|j: int| 0 <= j <= w.len() && lang(v@[i as int], #[trigger] w.take(j)) && lang_cat(v, i + 1, w.skip(j))
    }
}
/// a match of one of `v[i]`, `v[i + 1]`, ...
pub open spec fn lang_alt(v: Vec<RegexHir>, i: nat, w: Seq<char>) -> bool decreases v, v@.len() - i
{
    i < v@.len() && (lang(v@[i as int], w) || lang_alt(v, i + 1, w))
}
pub proof fn lang_alt_some(v: Vec<RegexHir>, i: nat, w: Seq<char>)
    ensures lang_alt(v, i, w) <==> exists|j: int| i <= j < v@.len() && lang(#[trigger] v@[j], w)
    decreases v@.len() - i
{
    if i < v@.len() {
        lang_alt_some(v, i + 1, w);
        if lang(v@[i as int], w) { assert(i <= i < v@.len()); }
        if exists|j: int| i <= j < v@.len() && lang(#[trigger] v@[j], w) {
            let j = choose|j: int| i <= j < v@.len() && lang(#[trigger] v@[j], w);
            if j > i { assert(i + 1 <= j < v@.len() && lang(v@[j], w)); }
        }
    }
}
/// built from literals, classes, groups, concatenation, alternation, the empty regex, `?`, `*` and `+`
pub open spec fn supported(h: RegexHir) -> bool decreases h
{
    match h.k {
        HirKind::Empty => true,
        HirKind::Literal(l) => true,
        HirKind::Class(c) => true,
        HirKind::Anchor(_) => false,
        HirKind::WordBoundary(_) => false,
        HirKind::Repetition(r) => !(r.kind is Range) && supported(*r.hir),
        HirKind::Group(g) => supported(*g.hir),
        HirKind::Concat(v) => forall|i: int| 0 <= i < v@.len() ==> supported(#[trigger] v@[i]),
        HirKind::Alternation(v) => forall|i: int| 0 <= i < v@.len() ==> supported(#[trigger] v@[i]),
    }
}
// --- reading regexes (the crates regex and regex-syntax) ---
/// what `regex_syntax` reads a text as
pub uninterp spec fn regex_of(s: Seq<char>) -> Option<RegexHir>;
/// the text with the characters that mean something in a regex escaped
pub uninterp spec fn escaped(s: Seq<char>) -> Seq<char>;
/// an escaped text reads as the regex that matches just that text
pub axiom fn escape_lit(s: Seq<char>)
    ensures regex_of(escaped(s)) matches Some(h) && supported(h) && forall|w: Seq<char>| #[trigger] lang(h, w) <==> w == s;
#[derive(Debug)]
#[verifier::external_derive]
pub struct RegexError {}
pub struct RegexParser {}
impl RegexParser {
    pub fn new() -> (r: Self) { RegexParser {} }
    #[verifier::external_body]
    pub fn parse<C: Chars>(&mut self, s: C) -> (r: Result<RegexHir, RegexError>) ensures match r { Ok(h) => regex_of(s.cs()) == Some(h), Err(_) => regex_of(s.cs()) is None } { unimplemented!() }
}
pub mod regex {
    use super::*;
    #[verifier::external_body]
    pub fn escape<C: Chars>(s: C) -> (r: String) ensures r@ == escaped(s.cs()) { unimplemented!() }
}
