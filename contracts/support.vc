@module supportp = -
@text
// C19: what stands between the delimiters
pub open spec fn inside(s: Seq<char>) -> Seq<char> { s.subrange(1, s.len() - 1) }
pub proof fn inside_is(s: Seq<char>) requires s.len() >= 2 ensures inside(s) =~= s.skip(1).take(s.len() - 2) {}
impl<'a> Kept<'a> for NamedSymbol<'a> { type Out = &'a NamedSymbol<'a>; open spec fn kept(self, r: &'a NamedSymbol<'a>) -> bool { *r == self } }
impl<'a> Kept<'a> for InputSymbol<'a> { type Out = &'a InputSymbol<'a>; open spec fn kept(self, r: &'a InputSymbol<'a>) -> bool { *r == self } }
@module support = parser/support.rs rename bumpalo::Bump=Bump
@item ParserSupport
@fn ParserSupport::new
@spec
    ensures *r.ast == *ast,
@fn ParserSupport::alloc
@sig fn alloc<T: Kept<'ast>>(&self, val: T) -> (r: T::Out)
@spec
    ensures val.kept(r),
@fn ParserSupport::alloc_str
@sig fn alloc_str<'a>(&self, s: Str<'a>) -> (r: Str<'ast>)
@spec
    ensures r@ == s@,
@fn ParserSupport::alloc_quoted_str
@sig fn alloc_quoted_str<'a>(&self, s: Str<'a>) -> (r: Str<'ast>)
@spec
    requires s@.len() >= 2,
    ensures r@ == inside(s@),
@hint start
    proof { inside_is(s@); }
@fn ParserSupport::alloc_ts_code
@sig fn alloc_ts_code<'a>(&self, ts_code_with_paren: Str<'a>) -> (r: Str<'ast>)
@spec
    requires ts_code_with_paren@.len() >= 2,
    ensures r@ == inside(ts_code_with_paren@),
@hint start
    proof { inside_is(ts_code_with_paren@); }
@fn ParserSupport::alloc_regex
@sig fn alloc_regex<'a>(&self, regex_str_with_quotes: Str<'a>) -> (r: Str<'ast>)
@spec
    requires regex_str_with_quotes@.len() >= 2,
    ensures r@ == inside(regex_str_with_quotes@),
@hint start
    proof { inside_is(regex_str_with_quotes@); utf8_len_ge(regex_str_with_quotes@); reveal_strlit(""); assert(regex_str_with_quotes@.len() == 2 ==> inside(regex_str_with_quotes@) =~= Seq::<char>::empty()); }
