@module readp = -
@text
// C19: the tokens that a grammar is written with. `toks` and `row` are the grammar language: what is
// read is exactly what these print. The only freedom is `export` before a group that is not the
// start, and the comma after the last alternative.
pub open spec fn quoted(t: Seq<char>) -> Seq<char> { seq!['"'] + t + seq!['"'] }
pub open spec fn parens(t: Seq<char>) -> Seq<char> { seq!['('] + t + seq![')'] }
/// the tokens of a symbol that is not named
pub open spec fn sym_toks<'a>(s: InputSymbol<'a>) -> Seq<Seq<char>> {
    match s {
        InputSymbol::StrLit(t) => seq![quoted(t@)],
        InputSymbol::Regex(t) => seq!["r"@, quoted(t@)],
        InputSymbol::NonTerminal(n) => seq![n.0@],
        _ => seq![],
    }
}
pub open spec fn is_bare<'a>(s: InputSymbol<'a>) -> bool { s is StrLit || s is Regex || s is NonTerminal }
pub open spec fn reads_Symbol<'a>(y: Seq<Seq<char>>, s: InputSymbol<'a>) -> bool { is_bare(s) && (s matches InputSymbol::NonTerminal(n) ==> is_name(n.0@)) && y =~= sym_toks(s) }
pub open spec fn reads_NamedSymbol<'a>(y: Seq<Seq<char>>, s: InputSymbol<'a>) -> bool {
    match s {
        InputSymbol::Named(n) => n.name is Some && is_name((n.name->0).0@) && exists|t: Seq<Seq<char>>| #[trigger] reads_Symbol(t, *n.ty) && y =~= seq!["<"@, (n.name->0).0@, ":"@] + t + seq![">"@],
        _ => reads_Symbol(y, s),
    }
}
pub open spec fn name_start(c: char) -> bool { c == '_' || 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
/// letters, digits and underscores, no digit first, and none of the reserved words
pub open spec fn is_name(t: Seq<char>) -> bool {
    t.len() >= 1 && name_start(t[0]) && (forall|k: int| 0 <= k < t.len() ==> name_start(#[trigger] t[k]) || '0' <= t[k] <= '9')
    && t != "r"@ && t != "start"@ && t != "export"@
}
pub open spec fn reads_Ident<'a>(y: Seq<Seq<char>>, n: Ident<'a>) -> bool { y =~= seq![n.0@] && is_name(n.0@) }
pub open spec fn reads_TsCode<'a>(y: Seq<Seq<char>>, t: Str<'a>) -> bool { y =~= seq![parens(t@)] }
pub open spec fn cat_toks(p: Seq<Seq<Seq<char>>>) -> Seq<Seq<char>> decreases p.len() {
    if p.len() == 0 { Seq::empty() } else { cat_toks(p.drop_last()) + p.last() }
}
/// `p` cuts the tokens of an alternative's symbols symbol by symbol
pub open spec fn body_parts<'a>(p: Seq<Seq<Seq<char>>>, b: ProductionBody<'a>) -> bool {
    p.len() == b.input_tokens@.len() && p.len() >= 1
    && forall|k: int| 0 <= k < p.len() ==> reads_NamedSymbol(#[trigger] p[k], b.input_tokens@[k])
}
pub open spec fn body_toks<'a>(p: Seq<Seq<Seq<char>>>, b: ProductionBody<'a>) -> Seq<Seq<char>> { cat_toks(p) + seq!["=>"@] + seq![parens(b.mapping_fn@)] }
pub open spec fn reads_ProductionBody<'a>(y: Seq<Seq<char>>, b: ProductionBody<'a>) -> bool {
    exists|p: Seq<Seq<Seq<char>>>| #[trigger] body_parts(p, b) && y =~= body_toks(p, b)
}
/// every element is followed by a comma
pub open spec fn comma_after(q: Seq<Seq<Seq<char>>>) -> Seq<Seq<char>> decreases q.len() {
    if q.len() == 0 { Seq::empty() } else { comma_after(q.drop_last()) + q.last() + seq![","@] }
}
pub open spec fn list_parts<'a>(q: Seq<Seq<Seq<char>>>, v: Seq<ProductionBody<'a>>) -> bool {
    q.len() == v.len() && forall|k: int| 0 <= k < q.len() ==> reads_ProductionBody(#[trigger] q[k], v[k])
}
/// the list `q` with a comma between two elements, and perhaps one after the last
pub open spec fn list_toks(q: Seq<Seq<Seq<char>>>, y: Seq<Seq<char>>) -> bool {
    y =~= comma_after(q) || q.len() > 0 && y =~= comma_after(q.drop_last()) + q.last()
}
pub open spec fn reads_Comma_ProductionBody<'a>(y: Seq<Seq<char>>, v: Vec<ProductionBody<'a>>) -> bool {
    exists|q: Seq<Seq<Seq<char>>>| #[trigger] list_parts(q, v@) && list_toks(q, y)
}
/// `export start` before the start group; before the others `export` or nothing
pub open spec fn marked(start: bool, y: Seq<Seq<char>>) -> bool {
    if start { y =~= seq!["export"@, "start"@] } else { y =~= seq![] || y =~= seq!["export"@] }
}
pub open spec fn group_toks<'a>(p: AstProduction<'a>, m: Seq<Seq<char>>, l: Seq<Seq<char>>) -> Seq<Seq<char>> {
    m + seq![p.name.0@] + seq![":"@] + seq![parens(p.ts_code@)] + seq!["="@] + seq!["["@] + l + seq!["]"@]
}
pub open spec fn group_parts<'a>(m: Seq<Seq<char>>, l: Seq<Seq<char>>, p: AstProduction<'a>) -> bool { marked(p.is_start, m) && is_name(p.name.0@) && reads_Comma_ProductionBody(l, p.bodies) }
pub open spec fn reads_Production<'a>(y: Seq<Seq<char>>, p: AstProduction<'a>) -> bool {
    exists|m: Seq<Seq<char>>, l: Seq<Seq<char>>| #[trigger] group_parts(m, l, p) && y =~= group_toks(p, m, l)
}
pub open spec fn prog_parts<'a>(p: Seq<Seq<Seq<char>>>, v: Seq<AstProduction<'a>>) -> bool {
    p.len() == v.len() && forall|k: int| 0 <= k < p.len() ==> reads_Production(#[trigger] p[k], v[k])
}
pub open spec fn reads_Program<'a>(y: Seq<Seq<char>>, v: Vec<AstProduction<'a>>) -> bool {
    v@.len() >= 1 && exists|p: Seq<Seq<Seq<char>>>| #[trigger] prog_parts(p, v@) && y =~= cat_toks(p)
}

// what matches the patterns of the grammar (LALRPOP's lexer)
pub uninterp spec fn pattern(p: Seq<char>, t: Seq<char>) -> bool;
pub broadcast axiom fn pattern_quoted(t: Seq<char>)
    requires #[trigger] pattern(r#""(\\\\|\\"|[^"\\])*""#@, t)
    ensures t.len() >= 2, t[0] == '"', t.last() == '"';
pub broadcast axiom fn pattern_code(t: Seq<char>)
    requires #[trigger] pattern(r"\(.*\)"@, t)
    ensures t.len() >= 2, t[0] == '(', t.last() == ')';
pub broadcast axiom fn pattern_name(t: Seq<char>)
    requires #[trigger] pattern(r"[_A-Za-z][_A-Za-z0-9]*"@, t)
    ensures is_name(t);
pub broadcast proof fn inside_quoted(t: Seq<char>) requires t.len() >= 2, t[0] == '"', t.last() == '"' ensures t == quoted(#[trigger] inside(t)) { assert(t =~= quoted(inside(t))); }
pub broadcast proof fn inside_parens(t: Seq<char>) requires t.len() >= 2, t[0] == '(', t.last() == ')' ensures t == parens(#[trigger] inside(t)) { assert(t =~= parens(inside(t))); }

/// elements followed by a comma each, joined
pub proof fn commas_joined(q: Seq<Seq<Seq<char>>>, p: Seq<Seq<Seq<char>>>)
    requires q.len() == p.len(), forall|k: int| 0 <= k < q.len() ==> #[trigger] p[k] == q[k] + seq![","@]
    ensures cat_toks(p) == comma_after(q)
    decreases q.len()
{
    if q.len() > 0 {
        assert forall|k: int| 0 <= k < q.len() - 1 implies #[trigger] p.drop_last()[k] == q.drop_last()[k] + seq![","@] by { assert(p[k] == q[k] + seq![","@]); }
        commas_joined(q.drop_last(), p.drop_last());
        assert(p.last() == q.last() + seq![","@]);
        assert(cat_toks(p) =~= comma_after(q));
    }
}
/// every character of `s` is white space
pub open spec fn blank(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> white(#[trigger] s[k]) }
pub uninterp spec fn white(c: char) -> bool;
pub open spec fn spread(w: Seq<Seq<char>>, y: Seq<Seq<char>>, n: int) -> Seq<char> decreases n { if n <= 0 { w[0] } else { spread(w, y, n - 1) + y[n - 1] + w[n] } }
/// `text` is the tokens `y` with white space `w` around them
pub open spec fn spaces(w: Seq<Seq<char>>, y: Seq<Seq<char>>) -> bool { w.len() == y.len() + 1 && forall|k: int| 0 <= k < w.len() ==> blank(#[trigger] w[k]) }
pub open spec fn cut(text: Seq<char>, y: Seq<Seq<char>>) -> bool { exists|w: Seq<Seq<char>>| #[trigger] spaces(w, y) && text =~= spread(w, y, y.len() as int) }
/// reading `text` may yield `v`
pub open spec fn read_as<'a>(text: Seq<char>, v: Vec<AstProduction<'a>>) -> bool { exists|y: Seq<Seq<char>>| #[trigger] cut(text, y) && reads_Program(y, v) }
/// texts of the grammar language
pub uninterp spec fn grammar_text(text: Seq<char>) -> bool;

// the parser that LALRPOP generates: it cuts the text into tokens and runs the actions along a
// derivation, each on the values of its symbols. The contracts of the actions (module `gram`) then
// give, by induction on the derivation, `reads_Program` for the value of the whole.
#[verifier::external_body]
pub struct ProgramParser { x: u8 }
#[verifier::external_body]
#[derive(Debug)]
pub struct ParseError { x: u8 }
impl ProgramParser {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn parse<'ast, 'a>(&self, support: &mut ParserSupport<'ast>, input: Str<'a>) -> (r: Result<Vec<AstProduction<'ast>>, ParseError>)
        ensures match r { Ok(v) => read_as(input@, v), Err(_) => !grammar_text(input@) }
    { unimplemented!() }
}
// what reading yields is what the rest of the crate expects of a grammar
pub proof fn bare_lowered<'a>(s: InputSymbol<'a>) requires is_bare(s) ensures lowered(s) is StrLit || lowered(s) is Regex || lowered(s) is NonTerminal {}
/// names are given and not nested, there is no empty alternative, and no end or epsilon symbol
pub proof fn read_plain<'a>(y: Seq<Seq<char>>, v: Vec<AstProduction<'a>>, i: int, j: int)
    requires reads_Program(y, v), 0 <= i < v@.len(), 0 <= j < v@[i].bodies@.len()
    ensures v@[i].bodies@[j].input_tokens@.len() >= 1, v@[i].bodies@[j].input_tokens@.len() < i32::MAX ==> body_plain(v@[i].bodies@[j].input_tokens@)
{
    let p = choose|p: Seq<Seq<Seq<char>>>| #[trigger] prog_parts(p, v@) && y =~= cat_toks(p);
    assert(reads_Production(p[i], v@[i]));
    let (m, l) = choose|m: Seq<Seq<char>>, l: Seq<Seq<char>>| #[trigger] group_parts(m, l, v@[i]) && p[i] =~= group_toks(v@[i], m, l);
    let q = choose|q: Seq<Seq<Seq<char>>>| #[trigger] list_parts(q, v@[i].bodies@) && list_toks(q, l);
    let b = v@[i].bodies@[j];
    assert(reads_ProductionBody(q[j], b));
    let r = choose|r: Seq<Seq<Seq<char>>>| #[trigger] body_parts(r, b) && q[j] =~= body_toks(r, b);
    assert forall|k: int| 0 <= k < b.input_tokens@.len() implies named_ok(#[trigger] b.input_tokens@[k]) && !(lowered(b.input_tokens@[k]) is Epsilon) && !(lowered(b.input_tokens@[k]) is Eof) by {
        let s = b.input_tokens@[k];
        assert(reads_NamedSymbol(r[k], s));
        match s {
            InputSymbol::Named(n) => {
                let t = choose|t: Seq<Seq<char>>| #[trigger] reads_Symbol(t, *n.ty) && r[k] =~= seq!["<"@, (n.name->0).0@, ":"@] + t + seq![">"@];
                bare_lowered(*n.ty);
                assert(lowered(s) == lowered(*n.ty));
            }
            _ => { bare_lowered(s); }
        }
    }
}
@module gram = parser/grammar.lalrpop rename Production=AstProduction
@fn Program_*
@hint start
    proof { assert(prog_parts($parts(Production), $v(Production)@)); }
@fn Production_*
@hint end
    proof {
        let m = $pre(Ident); let l = $y(Comma_ProductionBody);
        assert(marked(r__.is_start, m));
        assert(group_parts(m, l, r__));
        assert($y(Ident) =~= seq![r__.name.0@]);
        assert($y(TsCode) =~= seq![parens(r__.ts_code@)]);
    }
@fn ProductionBody_*
@hint end
    proof { assert(body_parts($parts(NamedSymbol), r__)); assert($y(TsCode) =~= seq![parens(r__.mapping_fn@)]); }
@fn Symbol_*
@hint start
    proof { broadcast use {pattern_quoted, inside_quoted}; }
@fn Ident_*
@hint start
    proof { broadcast use pattern_name; }
@fn NamedSymbol_*
@hint end
    proof { assert(reads_Symbol($y(Symbol), if r__ is Named { *(r__->Named_0).ty } else { r__ })); }
@fn TsCode_*
@hint start
    proof { broadcast use {pattern_code, inside_parens}; }
@fn Comma_ProductionBody_*
@hint start
    proof { commas_joined($inner(ProductionBody), $parts(ProductionBody)); }
@hint end
    proof {
        let q = if $v(ProductionBody2) is None { $inner(ProductionBody) } else { $inner(ProductionBody).push($y(ProductionBody2)) };
        assert($v(ProductionBody2) is Some ==> q.drop_last() =~= $inner(ProductionBody));
        assert(list_parts(q, r__@));
        assert(list_toks(q, $y(ProductionBody) + $y(ProductionBody2)));
    }
@module libr = lib.rs rename ast::Production=AstProduction
@fn parse_grammar
@spec
    requires grammar_text(grammar_str@),
    ensures read_as(grammar_str@, r),
