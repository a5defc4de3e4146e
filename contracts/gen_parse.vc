@module gen_parses = -
@text
impl<'b: 'a, 'a> Kept<'a> for ActionImpl<'b> { type Out = &'a ActionImpl<'b>; open spec fn kept(self, r: &'a ActionImpl<'b>) -> bool { *r == self } }
impl<'b: 'a, 'a> Kept<'a> for NamedActionImplParam<'b> { type Out = &'a NamedActionImplParam<'b>; open spec fn kept(self, r: &'a NamedActionImplParam<'b>) -> bool { *r == self } }
// C16: the text of the parse tables
pub open spec fn gs_row<'a>(p: Seq<char>, s: Str<'a>) -> Seq<char> { p + "| { kind: \""@ + s@ + "\", value: actions."@ + s@ + " }"@ }
pub open spec fn gs_rows<'a>(p: Seq<char>, v: Seq<Str<'a>>, n: int) -> Seq<char> decreases n { if n <= 0 { p } else { gs_row(gs_rows(p, v, n - 1), v[n - 1]) } }
pub open spec fn gs_head(p: Seq<char>) -> Seq<char> { p + "export type Symbol = { kind: \"token\", token: L.Token }"@ }
/// the symbols a stack holds: tokens, and one kind for each non-terminal
pub open spec fn gs_text<'a>(p: Seq<char>, v: Seq<Str<'a>>) -> Seq<char> { gs_rows(gs_head(p), v, v.len() as int) + "\n\n"@ }

/// the `i`-th symbol of the grammar: its kind and its text
pub open spec fn gt_row<'a>(p: Seq<char>, i: int, t: Symbol<'a>) -> Seq<char> {
    match t {
        Symbol::StrLit(s) => gt_entry(p, i, "strlit"@, s@),
        Symbol::NonTerminal(s) => gt_entry(p, i, "nonterminal"@, s.0@),
        Symbol::Regex(s) => gt_entry(p, i, "regex"@, s@),
        Symbol::Epsilon => p,
        Symbol::Eof => p + "\n"@ + dec(i as nat) + ": { kind: \"eof\" }"@,
    }
}
pub open spec fn gt_entry(p: Seq<char>, i: int, kind: Seq<char>, s: Seq<char>) -> Seq<char> { p + "\n                "@ + dec(i as nat) + ": { kind: \""@ + kind + "\", value: \""@ + esc_text(s) + "\" }"@ }
pub open spec fn gt_rows<'a>(p: Seq<char>, v: Seq<Symbol<'a>>, n: int) -> Seq<char> decreases n { if n <= 0 { p } else { gt_row(gt_rows(p, v, n - 1), n - 1, v[n - 1]) } }
pub open spec fn gt_head(p: Seq<char>) -> Seq<char> { p + "\nexport type Token =\n  | { kind: \"strlit\"; value: string }\n  | { kind: \"nonterminal\"; value: string }\n  | { kind: \"regex\"; value: string }\n  | { kind: \"eof\" };\n  \n  "@ + "export type Tokens = {"@ }
pub open spec fn gt_text<'a>(p: Seq<char>, v: Seq<Symbol<'a>>) -> Seq<char> { gt_rows(gt_head(p), v, v.len() as int) + "\n}\n\n"@ }

/// the index of a symbol
pub open spec fn sym_idx<'a>(t: Seq<Symbol<'a>>, x: Symbol<'a>) -> int { choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == x }
pub open spec fn gx_rows<'a>(p: Seq<char>, t: Seq<Symbol<'a>>, v: Seq<Symbol<'a>>, n: int) -> Seq<char> decreases n { if n <= 0 { p } else { gx_rows(p, t, v, n - 1) + dec(sym_idx(t, v[n - 1]) as nat) + ","@ } }
/// the `i`-th production: its name and the indices of its symbols
pub open spec fn gp_head(p: Seq<char>, i: int, name: Seq<char>) -> Seq<char> { p + dec(i as nat) + ": { name: \""@ + name + "\", tokens: ["@ + ""@ }
pub open spec fn gp_row<'a>(p: Seq<char>, i: int, g: Grammar<'a>) -> Seq<char> {
    let x = g.productions@[i];
    gx_rows(gp_head(p, i, x.name.0@), g.tokens@, x.input_tokens@, x.input_tokens@.len() as int) + "] }\n"@
}
pub open spec fn gp_rows<'a>(p: Seq<char>, g: Grammar<'a>, n: int) -> Seq<char> decreases n { if n <= 0 { p } else { gp_row(gp_rows(p, g, n - 1), n - 1, g) } }
pub open spec fn gp_pre(p: Seq<char>) -> Seq<char> { p + "export type Production = {\n                name: string;\n                tokens: Array<keyof Tokens>;\n              };\n              \n              "@ + "export type Productions = {"@ }
pub open spec fn gp_text<'a>(p: Seq<char>, g: Grammar<'a>) -> Seq<char> { gp_rows(gp_pre(p), g, g.productions@.len() as int) + "\n}\n\n"@ }

pub open spec fn ga_cell(p: Seq<char>, k: TokenIdx, a: Action) -> Seq<char> {
    let q = p + dec(k.0 as nat) + ": {"@;
    let s = match a {
        Action::Shift(j) => q + "shift: "@ + dec(j as nat),
        Action::Reduce(r) => q + "reduce: "@ + dec(r.0 as nat),
        Action::Accept => q + "accept: true"@,
    };
    s + "\n}\n"@
}
pub open spec fn ga_cells<'a>(p: Seq<char>, s: Seq<(&'a TokenIdx, &'a Action)>, n: int) -> Seq<char> decreases n { if n <= 0 { p } else { ga_cell(ga_cells(p, s, n - 1), *s[n - 1].0, *s[n - 1].1) } }
/// a state and its actions, by token
pub open spec fn ga_row(p: Seq<char>, i: usize, m: Map<TokenIdx, Action>) -> Seq<char> {
    let e = entries::<TokenIdx, Action>(m);
    ga_cells(p + dec(i as nat) + ": {"@, e, e.len() as int) + "\n}\n"@
}
pub open spec fn ga_rows<'a>(p: Seq<char>, s: Seq<(&'a usize, &'a BTreeMap<TokenIdx, Action>)>, n: int) -> Seq<char> decreases n { if n <= 0 { p } else { ga_row(ga_rows(p, s, n - 1), *s[n - 1].0, s[n - 1].1@) } }
pub open spec fn ga_text(p: Seq<char>, t: ActionTable) -> Seq<char> {
    let e = entries::<usize, BTreeMap<TokenIdx, Action>>(t.0@);
    ga_rows(p + "export type Action = {"@, e, e.len() as int) + "\n}\n"@
}
pub open spec fn gg_cell<'b>(p: Seq<char>, k: Ident<'b>, j: usize) -> Seq<char> { p + "\n"@ + k.0@ + ": "@ + dec(j as nat) + "\n"@ }
pub open spec fn gg_cells<'a, 'b>(p: Seq<char>, s: Seq<(&'a Ident<'b>, &'a usize)>, n: int) -> Seq<char> decreases n { if n <= 0 { p } else { gg_cell(gg_cells(p, s, n - 1), *s[n - 1].0, *s[n - 1].1) } }
/// a state and its gotos, by non-terminal
pub open spec fn gg_row<'b>(p: Seq<char>, i: usize, m: Map<Ident<'b>, usize>) -> Seq<char> {
    let e = entries::<Ident<'b>, usize>(m);
    gg_cells(p + dec(i as nat) + ": {"@, e, e.len() as int) + "\n}\n"@
}
pub open spec fn gg_rows<'a, 'b>(p: Seq<char>, s: Seq<(&'a usize, &'a BTreeMap<Ident<'b>, usize>)>, n: int) -> Seq<char> decreases n { if n <= 0 { p } else { gg_row(gg_rows(p, s, n - 1), *s[n - 1].0, s[n - 1].1@) } }
pub open spec fn gg_text<'b>(p: Seq<char>, t: GotoTable<'b>) -> Seq<char> {
    let e = entries::<usize, BTreeMap<Ident<'b>, usize>>(t.0@);
    gg_rows(p + "export type Goto = {"@, e, e.len() as int) + "\n}\n"@
}
/// the name of a terminal
pub open spec fn t_name<'a>(t: Symbol<'a>) -> Seq<char> { match t { Symbol::StrLit(s) => s@, Symbol::Regex(s) => s@, _ => "EOF"@ } }
pub open spec fn gk_row<'a>(p: Seq<char>, i: int, t: Symbol<'a>) -> Seq<char> {
    if t is NonTerminal || t is Epsilon { p } else { p + "'"@ + esc_text(t_name(t)) + "': "@ + dec(i as nat) + "\n"@ }
}
pub open spec fn gk_rows<'a>(p: Seq<char>, v: Seq<Symbol<'a>>, n: int) -> Seq<char> decreases n { if n <= 0 { p } else { gk_row(gk_rows(p, v, n - 1), n - 1, v[n - 1]) } }
pub open spec fn gk_text<'a>(p: Seq<char>, v: Seq<Symbol<'a>>) -> Seq<char> { gk_rows(p + "export type TokenKindToIdx = {"@, v, v.len() as int) + "\n}\n"@ }
/// C16
pub open spec fn tables_text<'a>(p: Seq<char>, c: GenCtx<'a>) -> Seq<char> {
    let a = gt_text(gs_text(p + "export declare module type_defs {\n"@, c.symbols@), c.grammar.tokens@);
    gk_text(gg_text(ga_text(gp_text(a, *c.grammar), c.lalr.action), c.lalr.goto), c.grammar.tokens@) + "\n}\n"@
}
pub open spec fn imports_text(p: Seq<char>) -> Seq<char> { p + "import * as U from \"./util\"\n"@ + "import * as L from \"./lex\"\n"@ + "\n"@ }
pub proof fn no_epsilon<'a>(g: Grammar<'a>, i: int) requires gctx(g), 0 <= i < g.tokens@.len() ensures !(g.tokens@[i] is Epsilon)
{ gctx_of(g); reveal(tokens_ok); if i > 0 { assert(occurs(g.productions@, g.tokens@[i])); reveal(closed_g); } }
pub proof fn has_sym<'a>(g: Grammar<'a>, i: int, j: int)
    requires gctx(g), 0 <= i < g.productions@.len(), 0 <= j < g.productions@[i].input_tokens@.len() ensures sym_in(g.tokens@, g.productions@[i].input_tokens@[j])
{ gctx_of(g); reveal(tokens_ok); let x = g.productions@[i].input_tokens@[j]; assert(sym_at(g.productions@, i, j, x)); assert(occurs(g.productions@, x)); }
pub proof fn has_idx<'a>(g: Grammar<'a>, i: int, j: int, r: Option<TokenIdx>)
    requires gctx(g), 0 <= i < g.productions@.len(), 0 <= j < g.productions@[i].input_tokens@.len(), token_found(r, g.tokens@, g.productions@[i].input_tokens@[j])
    ensures r is Some, (r->0).0 == sym_idx(g.tokens@, g.productions@[i].input_tokens@[j])
{
    gctx_of(g); reveal(tokens_ok);
    let x = g.productions@[i].input_tokens@[j];
    assert(sym_at(g.productions@, i, j, x)); assert(occurs(g.productions@, x)); assert(sym_in(g.tokens@, x));
    let t = g.tokens@; let k = sym_idx(t, x); let l = (r->0).0 as int;
    assert(t[k] == x && t[l] == x);
}

// C17: actions
pub open spec fn flat_p<'a>(p: ActionImplParam<'a>) -> bool { p matches ActionImplParam::Named(n) ==> !(n.param is Named) }
#[verifier::opaque]
pub open spec fn flat_ps<'a>(v: Seq<ActionImplParam<'a>>) -> bool { v.len() < i32::MAX && forall|k: int| 0 <= k < v.len() ==> flat_p(#[trigger] v[k]) }
pub proof fn flat_at<'a>(v: Seq<ActionImplParam<'a>>, k: int) requires flat_ps(v), 0 <= k < v.len() ensures flat_p(v[k]), v.len() < i32::MAX { reveal(flat_ps); }
pub open spec fn c_nt(n: Seq<char>, t: Seq<char>) -> Seq<char> { Seq::<char>::empty() + "__"@ + n + " extends { kind : \""@ + t + "\", value: infer "@ + n + " extends "@ + t + " }"@ }
pub open spec fn c_tok(n: Seq<char>) -> Seq<char> { Seq::<char>::empty() + "__"@ + n + " extends { kind: \"token\", token: L.Token }"@ }
pub open spec fn c_lit(n: Seq<char>, t: Seq<char>) -> Seq<char> { Seq::<char>::empty() + "__"@ + n + "['token']['value'] extends infer "@ + n + " extends '"@ + esc_text(t) + "'"@ }
pub open spec fn c_any(n: Seq<char>) -> Seq<char> { Seq::<char>::empty() + "__"@ + n + "['token']['value'] extends infer "@ + n + " extends string"@ }
pub open spec fn e_nt(i: int, k: u32) -> Seq<char> { Seq::<char>::empty() + "\"error: invalid symbol (pos `"@ + dec(i as nat) + "`, Action"@ + dec(k as nat) + ")\""@ }
pub open spec fn e_tok(i: int, k: u32) -> Seq<char> { Seq::<char>::empty() + "`error: not a token (pos \\`"@ + dec(i as nat) + "\\`, Action"@ + dec(k as nat) + ")`"@ }
pub open spec fn e_sym(i: int, k: u32) -> Seq<char> { Seq::<char>::empty() + "`error: invalid symbol (pos \\`"@ + dec(i as nat) + "\\`, Action"@ + dec(k as nat) + ")`"@ }
/// what is checked of a named symbol: its kind, and what its name is bound to
pub open spec fn conds_of<'a>(p: ActionImplParam<'a>) -> Seq<Seq<char>> {
    match p {
        ActionImplParam::Named(n) => match n.param {
            ActionImplParam::NonTerminal(t) => seq![c_nt(n.name.0@, t@)],
            ActionImplParam::StrLit(t) => seq![c_tok(n.name.0@), c_lit(n.name.0@, t@)],
            ActionImplParam::Regex(t) => seq![c_tok(n.name.0@), c_any(n.name.0@)],
            ActionImplParam::Named(q) => Seq::empty(),
        },
        _ => Seq::empty(),
    }
}
/// and what follows when one of the checks fails, in the same order
pub open spec fn elses_of<'a>(p: ActionImplParam<'a>, i: int, k: u32) -> Seq<Seq<char>> {
    match p {
        ActionImplParam::Named(n) => match n.param {
            ActionImplParam::NonTerminal(t) => seq![e_nt(i, k)],
            ActionImplParam::StrLit(t) => seq![e_tok(i, k), e_sym(i, k)],
            ActionImplParam::Regex(t) => seq![e_tok(i, k), e_sym(i, k)],
            ActionImplParam::Named(q) => Seq::empty(),
        },
        _ => Seq::empty(),
    }
}
pub open spec fn conds<'a>(v: Seq<ActionImplParam<'a>>, n: int) -> Seq<Seq<char>> decreases n { if n <= 0 { Seq::empty() } else { conds(v, n - 1) + conds_of(v[n - 1]) } }
pub open spec fn elses<'a>(v: Seq<ActionImplParam<'a>>, k: u32, n: int) -> Seq<Seq<char>> decreases n { if n <= 0 { Seq::empty() } else { elses(v, k, n - 1) + elses_of(v[n - 1], n, k) } }
/// one check for each error
pub proof fn paired<'a>(v: Seq<ActionImplParam<'a>>, k: u32, n: int) ensures conds(v, n).len() == elses(v, k, n).len() decreases n { if n > 0 { paired(v, k, n - 1); } }
pub open spec fn wc_rows(p: Seq<char>, c: Seq<Seq<char>>, n: int) -> Seq<char> decreases n { if n <= 0 { p } else { wc_rows(p, c, n - 1) + c[n - 1] + " ? "@ } }
pub open spec fn we_rows(p: Seq<char>, e: Seq<Seq<char>>, n: int) -> Seq<char> decreases n { if n <= 0 { p } else { we_rows(p, e, n - 1) + " : "@ + e[e.len() - n] } }
/// the checks, the value if all hold, and the errors: the last check's first
pub open spec fn va_text<'a>(p: Seq<char>, a: GenAction<'a>, call: Seq<char>) -> Seq<char> {
    let v = a.action_impl.inputs@;
    let c = conds(v, v.len() as int);
    let e = elses(v, a.production_idx.0, v.len() as int);
    we_rows(wc_rows(p, c, c.len() as int) + call, e, e.len() as int)
}
pub proof fn str_texts_push(v: Seq<String>, s: String) ensures str_texts(v.push(s)) == str_texts(v).push(s@) { assert(str_texts(v.push(s)) =~= str_texts(v).push(s@)); }
pub open spec fn grew1(v: Seq<String>, w: Seq<String>, a: Seq<char>) -> bool { w.len() == v.len() + 1 && w.drop_last() == v && w.last()@ == a }
pub open spec fn grew2(v: Seq<String>, w: Seq<String>, a: Seq<char>, b: Seq<char>) -> bool { w.len() == v.len() + 2 && w.drop_last().drop_last() == v && w.drop_last().last()@ == a && w.last()@ == b }
pub proof fn grew1_texts(v: Seq<String>, w: Seq<String>, a: Seq<char>) requires grew1(v, w, a) ensures str_texts(w) == str_texts(v) + seq![a]
{ assert(str_texts(w) =~= str_texts(v) + seq![a]) by { assert forall|i: int| 0 <= i < w.len() implies str_texts(w)[i] == (str_texts(v) + seq![a])[i] by { if i < v.len() { assert(w.drop_last()[i] == w[i]); } } } }
pub proof fn grew2_texts(v: Seq<String>, w: Seq<String>, a: Seq<char>, b: Seq<char>) requires grew2(v, w, a, b) ensures str_texts(w) == str_texts(v) + seq![a, b]
{
    grew1_texts(v, w.drop_last(), a); grew1_texts(w.drop_last(), w, b);
    assert(str_texts(v) + seq![a] + seq![b] =~= str_texts(v) + seq![a, b]);
}
/// unnamed symbols among the first `n`
pub open spec fn unnamed<'a>(v: Seq<ActionImplParam<'a>>, n: int) -> nat decreases n { if n <= 0 { 0 } else { unnamed(v, n - 1) + if v[n - 1] is Named { 0nat } else { 1nat } } }
pub proof fn unnamed_le<'a>(v: Seq<ActionImplParam<'a>>, n: int) requires 0 <= n ensures unnamed(v, n) <= n decreases n { if n > 0 { unnamed_le(v, n - 1); } }
/// every popped symbol is bound, in order: under its name, or under one of its own
pub open spec fn pv_row<'a>(p: Seq<char>, v: Seq<ActionImplParam<'a>>, i: int) -> Seq<char> {
    match v[i] { ActionImplParam::Named(n) => p + "infer __"@ + n.name.0@ + ","@, _ => p + "infer var"@ + dec(unnamed(v, i)) + ","@ }
}
pub open spec fn pv_rows<'a>(p: Seq<char>, v: Seq<ActionImplParam<'a>>, n: int) -> Seq<char> decreases n { if n <= 0 { p } else { pv_row(pv_rows(p, v, n - 1), v, n - 1) } }
pub open spec fn pv_head(p: Seq<char>) -> Seq<char> { p + "poppedValues extends ["@ }
pub open spec fn pv_cond<'a>(p: Seq<char>, v: Seq<ActionImplParam<'a>>) -> Seq<char> { pv_rows(pv_head(p), v, v.len() as int) + "]"@ }
pub open spec fn pv_text<'a>(p: Seq<char>, a: GenAction<'a>, call: Seq<char>, idx: ProductionIdx) -> Seq<char> {
    va_text(pv_cond(p, a.action_impl.inputs@) + " ? "@ + "newStack extends type_defs.Symbol[]"@ + " ? "@, a, call)
    + " : "@ + "`unreachable: \\`newStack\\` should always be a type_defs.Symbol[] (Action"@ + dec(idx.0 as nat) + ")`"@
    + " : "@ + "`error: popping off symbol Stack Action"@ + dec(a.action_impl.production_idx.0 as nat) + "`"@
}
/// what is pushed: a symbol of the alternative's non-terminal, whose value is the alternative's code
pub open spec fn call_text<'a>(a: GenAction<'a>) -> Seq<char> {
    Seq::<char>::empty().push('[') + "{ kind: '"@ + a.production_name.0@ + "', value: "@ + a.action_impl.code@ + " },"@ + "...newStack]"@
}
pub open spec fn act_head<'a>(p: Seq<char>, a: GenAction<'a>) -> Seq<char> { p + "type Action"@ + dec(a.production_idx.0 as nat) + "<symbolStack extends type_defs.Symbol[]> = "@ }
pub open spec fn act_text<'a>(p: Seq<char>, a: GenAction<'a>) -> Seq<char> {
    pv_text(act_head(p, a) + "U.PopNStackWithValue<symbolStack, "@ + dec(a.pop_amount as nat) + "> extends [infer newStack, infer poppedValues]"@ + " ? "@, a, call_text(a), a.action_impl.production_idx)
    + " : "@ + "'unreachable: inferring popped values never fails'"@
}
pub open spec fn av_rows<'a, 'b>(p: Seq<char>, s: Seq<(&'a Str<'b>, &'a SymbolVariant<'b>)>, n: int) -> Seq<char> decreases n {
    if n <= 0 { p } else { av_rows(p, s, n - 1) + "type "@ + s[n - 1].1.production_name@ + " = "@ + s[n - 1].1.ts_code@ + "\n"@ }
}
/// dispatch on the number of a production
pub open spec fn ad_rows<'a>(p: Seq<char>, v: Seq<GenAction<'a>>, n: int) -> Seq<char> decreases n {
    if n <= 0 { p } else { ad_rows(p, v, n - 1) + "prodIdx extends "@ + dec(v[n - 1].production_idx.0 as nat) + " ? actions.Action"@ + dec(v[n - 1].production_idx.0 as nat) + "<symbolStack> :"@ }
}
pub open spec fn aa_rows<'a>(p: Seq<char>, v: Seq<GenAction<'a>>, n: int) -> Seq<char> decreases n { if n <= 0 { p } else { act_text(aa_rows(p, v, n - 1), v[n - 1]).push('\n') } }
pub open spec fn av_text<'a>(p: Seq<char>, c: GenCtx<'a>) -> Seq<char> {
    let e = entries::<Str<'a>, SymbolVariant<'a>>(c.symbol_variants@);
    av_rows(p + "export declare module actions {\n"@, e, e.len() as int)
}
pub open spec fn ad_head(p: Seq<char>) -> Seq<char> { p + "\ntype EmitProduction<prodIdx extends number, symbolStack extends type_defs.Symbol[]> = "@ }
pub open spec fn ad_text<'a>(p: Seq<char>, c: GenCtx<'a>) -> Seq<char> { (ad_rows(ad_head(av_text(p, c)), c.actions@, c.actions@.len() as int) + "`error: invalid production idx: ${prodIdx}`;\n"@).push('\n') }
pub open spec fn actions_text<'a>(p: Seq<char>, c: GenCtx<'a>) -> Seq<char> { aa_rows(ad_text(p, c), c.actions@, c.actions@.len() as int) + "\n}\n"@ }
pub open spec fn parse_text<'a>(c: GenCtx<'a>) -> Seq<char> { actions_text(imports_text(tables_text(Seq::<char>::empty(), c)), c) }

// --- the alternatives as actions ---
pub open spec fn named_ok<'a>(s: InputSymbol<'a>) -> bool { s matches InputSymbol::Named(n) ==> n.name is Some && !(n.ty is Named) }
/// what the grammar's parser builds: names are given, and are not nested; no alternative has 2^31 symbols
#[verifier::opaque]
pub open spec fn ast_plain<'a>(ast: Seq<AstProduction<'a>>) -> bool {
    forall|i: int, j: int| 0 <= i < ast.len() && 0 <= j < ast[i].bodies@.len() ==> body_plain((#[trigger] ast[i].bodies@[j]).input_tokens@)
}
pub open spec fn body_plain<'a>(v: Seq<InputSymbol<'a>>) -> bool {
    v.len() < i32::MAX && forall|k: int| 0 <= k < v.len() ==> named_ok(#[trigger] v[k]) && !(lowered(v[k]) is Epsilon) && !(lowered(v[k]) is Eof)
}
pub open spec fn param_of<'a>(s: InputSymbol<'a>) -> Option<ActionImplParam<'a>> decreases s {
    match s {
        InputSymbol::StrLit(t) => Some(ActionImplParam::StrLit(t)),
        InputSymbol::NonTerminal(n) => Some(ActionImplParam::NonTerminal(n.0)),
        InputSymbol::Regex(t) => Some(ActionImplParam::Regex(t)),
        InputSymbol::Named(n) => match param_of(*n.ty) { Some(q) => Some(ActionImplParam::Named(&NamedActionImplParam { name: n.name->0, param: q })), None => None },
        InputSymbol::Epsilon => None,
        InputSymbol::Eof => None,
    }
}
pub open spec fn params_of<'a>(v: Seq<InputSymbol<'a>>, n: int) -> Seq<ActionImplParam<'a>> decreases n {
    if n <= 0 { Seq::empty() } else { match param_of(v[n - 1]) { Some(q) => params_of(v, n - 1).push(q), None => params_of(v, n - 1) } }
}
pub proof fn params_all<'a>(v: Seq<InputSymbol<'a>>, n: int) requires body_plain(v), 0 <= n <= v.len()
    ensures params_of(v, n).len() == n, flat_ps(params_of(v, n)), forall|k: int| 0 <= k < n ==> Some(#[trigger] params_of(v, n)[k]) == param_of(v[k]) decreases n
{
    reveal(flat_ps);
    if n > 0 {
        params_all(v, n - 1);
        let s = v[n - 1];
        assert(named_ok(s));
        reveal_with_fuel(param_of, 3); reveal_with_fuel(lowered, 3);
        assert(param_of(s) is Some);
        assert(flat_p(param_of(s)->0));
    }
}
pub open spec fn impl_is<'a>(m: ActionImpl<'a>, n: int, p: AstProduction<'a>, b: ProductionBody<'a>) -> bool {
    m.production_idx.0 == n && m.name == p.name && m.code == b.mapping_fn && m.inputs@ == params_of(b.input_tokens@, b.input_tokens@.len() as int)
}
/// the action of an alternative: its number, what it pops, names, checks and pushes
pub open spec fn act_is<'a>(a: GenAction<'a>, n: int, p: AstProduction<'a>, b: ProductionBody<'a>) -> bool {
    a.production_idx.0 == n && a.production_name == p.name && a.pop_amount == b.input_tokens@.len() && impl_is(*a.action_impl, n, p, b)
}
/// an action for each alternative, in their order, under the number of its production
#[verifier::opaque]
pub open spec fn acts_of<'a>(v: Seq<GenAction<'a>>, g: Grammar<'a>, ast: Seq<AstProduction<'a>>) -> bool {
    let al = alts(ast, ast.len() as int, 0);
    &&& v.len() == al.len() && g.productions@.len() == 1 + al.len()
    &&& forall|k: int| 0 <= k < al.len() ==> act_is(#[trigger] v[k], k + 1, ast[al[k].0], ast[al[k].0].bodies@[al[k].1]) && flat_ps(v[k].action_impl.inputs@)
        && is_prod(g.productions@[k + 1], ast[al[k].0], ast[al[k].0].bodies@[al[k].1])
}
#[verifier::opaque]
pub open spec fn flat_bodies<'a>(v: Seq<(Ident<'a>, &'a ProductionBody<'a>)>, ast: Seq<AstProduction<'a>>, n: int, m: int) -> bool {
    let al = alts(ast, n, m);
    v.len() == al.len() && forall|k: int| 0 <= k < al.len() ==> (#[trigger] v[k]).0 == ast[al[k].0].name && *v[k].1 == ast[al[k].0].bodies@[al[k].1]
}
pub proof fn flat_b0<'a>(v: Seq<(Ident<'a>, &'a ProductionBody<'a>)>, ast: Seq<AstProduction<'a>>) requires v.len() == 0 ensures flat_bodies(v, ast, 0, 0) { reveal(flat_bodies); }
pub proof fn flat_push<'a>(v: Seq<(Ident<'a>, &'a ProductionBody<'a>)>, ast: Seq<AstProduction<'a>>, n: int, m: int)
    requires 0 <= n < ast.len(), 0 < m <= ast[n].bodies@.len(), v.len() > 0, flat_bodies(v.drop_last(), ast, n, m - 1), v.last().0 == ast[n].name, *v.last().1 == ast[n].bodies@[m - 1]
    ensures flat_bodies(v, ast, n, m)
{
    reveal(flat_bodies);
    let al = alts(ast, n, m - 1); let al2 = alts(ast, n, m);
    assert(al2 == al.push((n, m - 1)));
    assert forall|k: int| 0 <= k < al2.len() implies (#[trigger] v[k]).0 == ast[al2[k].0].name && *v[k].1 == ast[al2[k].0].bodies@[al2[k].1] by { if k < al.len() { assert(v.drop_last()[k] == v[k]); assert(al2[k] == al[k]); } }
}
pub proof fn flat_next<'a>(v: Seq<(Ident<'a>, &'a ProductionBody<'a>)>, ast: Seq<AstProduction<'a>>, n: int)
    requires 0 <= n < ast.len(), flat_bodies(v, ast, n, ast[n].bodies@.len() as int) ensures flat_bodies(v, ast, n + 1, 0) { reveal(flat_bodies); }
pub proof fn flat_el<'a>(v: Seq<(Ident<'a>, &'a ProductionBody<'a>)>, ast: Seq<AstProduction<'a>>, k: int)
    requires flat_bodies(v, ast, ast.len() as int, 0), ast_plain(ast), 0 <= k < v.len()
    ensures body_plain(v[k].1.input_tokens@)
{
    reveal(flat_bodies); alts_in(ast, ast.len() as int, 0); reveal(ast_plain);
    let al = alts(ast, ast.len() as int, 0);
    assert(al[k].0 < ast.len()); assert(body_plain(ast[al[k].0].bodies@[al[k].1].input_tokens@));
}
#[verifier::opaque]
pub open spec fn impls_part<'a>(v: Seq<&'a ActionImpl<'a>>, f: Seq<(Ident<'a>, &'a ProductionBody<'a>)>, n: int) -> bool {
    v.len() == n && forall|k: int| 0 <= k < n ==> impl_at(*(#[trigger] v[k]), k + 1, f[k].0, *f[k].1)
}
pub open spec fn impl_at<'a>(m: ActionImpl<'a>, n: int, name: Ident<'a>, b: ProductionBody<'a>) -> bool {
    m.production_idx.0 == n && m.name == name && m.code == b.mapping_fn && m.inputs@ == params_of(b.input_tokens@, b.input_tokens@.len() as int)
}
pub proof fn impls_0<'a>(v: Seq<&'a ActionImpl<'a>>, f: Seq<(Ident<'a>, &'a ProductionBody<'a>)>) requires v.len() == 0 ensures impls_part(v, f, 0) { reveal(impls_part); }
pub proof fn impls_step<'a>(v: Seq<&'a ActionImpl<'a>>, f: Seq<(Ident<'a>, &'a ProductionBody<'a>)>, n: int)
    requires n > 0, v.len() > 0, impls_part(v.drop_last(), f, n - 1), impl_at(*v.last(), n, f[n - 1].0, *f[n - 1].1) ensures impls_part(v, f, n)
{ reveal(impls_part); assert forall|k: int| 0 <= k < n implies impl_at(*(#[trigger] v[k]), k + 1, f[k].0, *f[k].1) by { if k < n - 1 { assert(v.drop_last()[k] == v[k]); } } }
pub open spec fn act_for<'a>(a: GenAction<'a>, m: &'a ActionImpl<'a>) -> bool { a.action_impl == m && a.pop_amount == m.inputs@.len() && a.production_idx == m.production_idx && a.production_name == m.name }
#[verifier::opaque]
pub open spec fn acts_part<'a>(v: Seq<GenAction<'a>>, m: Seq<&'a ActionImpl<'a>>, n: int) -> bool { v.len() == n && forall|k: int| 0 <= k < n ==> act_for(#[trigger] v[k], m[k]) }
pub proof fn acts_0<'a>(v: Seq<GenAction<'a>>, m: Seq<&'a ActionImpl<'a>>) requires v.len() == 0 ensures acts_part(v, m, 0) { reveal(acts_part); }
pub proof fn acts_step<'a>(v: Seq<GenAction<'a>>, m: Seq<&'a ActionImpl<'a>>, n: int)
    requires n > 0, v.len() > 0, acts_part(v.drop_last(), m, n - 1), act_for(v.last(), m[n - 1]) ensures acts_part(v, m, n)
{ reveal(acts_part); assert forall|k: int| 0 <= k < n implies act_for(#[trigger] v[k], m[k]) by { if k < n - 1 { assert(v.drop_last()[k] == v[k]); } } }
pub proof fn acts_done<'a>(v: Seq<GenAction<'a>>, m: Seq<&'a ActionImpl<'a>>, f: Seq<(Ident<'a>, &'a ProductionBody<'a>)>, g: Grammar<'a>, ast: Seq<AstProduction<'a>>)
    requires grammar_of(g, ast), ast_plain(ast), flat_bodies(f, ast, ast.len() as int, 0), impls_part(m, f, f.len() as int), acts_part(v, m, m.len() as int)
    ensures acts_of(v, g, ast)
{
    reveal(flat_bodies); reveal(impls_part); reveal(acts_part); reveal(acts_of); reveal(prods_ok);
    alts_in(ast, ast.len() as int, 0);
    let al = alts(ast, ast.len() as int, 0);
    assert forall|k: int| 0 <= k < al.len() implies act_is(#[trigger] v[k], k + 1, ast[al[k].0], ast[al[k].0].bodies@[al[k].1]) && flat_ps(v[k].action_impl.inputs@)
        && is_prod(g.productions@[k + 1], ast[al[k].0], ast[al[k].0].bodies@[al[k].1]) by {
        assert(act_for(v[k], m[k])); assert(impl_at(*m[k], k + 1, f[k].0, *f[k].1)); assert(f[k].0 == ast[al[k].0].name);
        flat_el(f, ast, k);
        params_all(f[k].1.input_tokens@, f[k].1.input_tokens@.len() as int);
    }
}
pub proof fn few_alts<'a>(g: Grammar<'a>, ast: Seq<AstProduction<'a>>, f: Seq<(Ident<'a>, &'a ProductionBody<'a>)>)
    requires grammar_of(g, ast), flat_bodies(f, ast, ast.len() as int, 0) ensures f.len() < u32::MAX
{ reveal(prods_ok); reveal(flat_bodies); }
pub open spec fn a_variant<'a>(p: AstProduction<'a>) -> (Str<'a>, SymbolVariant<'a>) { (p.name.0, SymbolVariant { production_name: p.name.0, ts_code: p.ts_code }) }
pub open spec fn a_variants<'a>(ast: Seq<AstProduction<'a>>) -> Seq<(Str<'a>, SymbolVariant<'a>)> { Seq::new(ast.len(), |i: int| a_variant(ast[i])) }
#[verifier::opaque]
pub open spec fn variants_part<'a>(v: Seq<(Str<'a>, SymbolVariant<'a>)>, ast: Seq<AstProduction<'a>>, n: int) -> bool { v.len() == n && forall|k: int| 0 <= k < n ==> #[trigger] v[k] == a_variant(ast[k]) }
pub proof fn variants_0<'a>(v: Seq<(Str<'a>, SymbolVariant<'a>)>, ast: Seq<AstProduction<'a>>) requires v.len() == 0 ensures variants_part(v, ast, 0) { reveal(variants_part); }
pub proof fn variants_step<'a>(v: Seq<(Str<'a>, SymbolVariant<'a>)>, ast: Seq<AstProduction<'a>>, n: int)
    requires n > 0, v.len() > 0, variants_part(v.drop_last(), ast, n - 1), v.last() == a_variant(ast[n - 1]) ensures variants_part(v, ast, n)
{ reveal(variants_part); assert forall|k: int| 0 <= k < n implies #[trigger] v[k] == a_variant(ast[k]) by { if k < n - 1 { assert(v.drop_last()[k] == v[k]); } } }
pub proof fn variants_all<'a>(v: Seq<(Str<'a>, SymbolVariant<'a>)>, ast: Seq<AstProduction<'a>>) requires variants_part(v, ast, ast.len() as int) ensures v == a_variants(ast) { reveal(variants_part); assert(v =~= a_variants(ast)); }
#[verifier::opaque]
pub open spec fn names_part<'a>(v: Seq<Str<'a>>, ast: Seq<AstProduction<'a>>, n: int) -> bool { v.len() == n && forall|k: int| 0 <= k < n ==> #[trigger] v[k] == ast[k].name.0 }
pub proof fn pnames_0<'a>(v: Seq<Str<'a>>, ast: Seq<AstProduction<'a>>) requires v.len() == 0 ensures names_part(v, ast, 0) { reveal(names_part); }
pub proof fn pnames_step<'a>(v: Seq<Str<'a>>, ast: Seq<AstProduction<'a>>, n: int)
    requires n > 0, v.len() > 0, names_part(v.drop_last(), ast, n - 1), v.last() == ast[n - 1].name.0 ensures names_part(v, ast, n)
{ reveal(names_part); assert forall|k: int| 0 <= k < n implies #[trigger] v[k] == ast[k].name.0 by { if k < n - 1 { assert(v.drop_last()[k] == v[k]); } } }
/// what the text is made from
pub open spec fn gen_of<'a>(c: GenCtx<'a>, ast: Seq<AstProduction<'a>>, l: Lalr<'a>) -> bool {
    *c.lalr == l && *c.grammar == l.grammar && names_part(c.symbols@, ast, ast.len() as int)
    && c.symbol_variants@ == pairs_map(a_variants(ast), ast.len() as int) && acts_of(c.actions@, l.grammar, ast)
}
#[verifier::opaque]
pub open spec fn flat_acts<'a>(v: Seq<GenAction<'a>>) -> bool { forall|k: int| 0 <= k < v.len() ==> flat_ps((#[trigger] v[k]).action_impl.inputs@) }
pub proof fn flat_acts_of<'a>(v: Seq<GenAction<'a>>, g: Grammar<'a>, ast: Seq<AstProduction<'a>>) requires acts_of(v, g, ast) ensures flat_acts(v) { reveal(acts_of); reveal(flat_acts); }
pub proof fn flat_act<'a>(v: Seq<GenAction<'a>>, k: int) requires flat_acts(v), 0 <= k < v.len() ensures flat_ps(v[k].action_impl.inputs@) { reveal(flat_acts); }

pub open spec fn bodies_in<'a>(s: Seq<(usize, (Ident<'a>, &'a ProductionBody<'a>))>) -> Seq<(Ident<'a>, &'a ProductionBody<'a>)> { Seq::new(s.len(), |i: int| s[i].1) }

@module gen_parse = codegen/parse_gen.rs rename Ctx=GenCtx Action=GenAction table::Action=Action lex_gen::generate=generate_lexer ast::Production=AstProduction
@item GenCtx
@item SymbolVariant
@item GenAction
@item ActionImpl
@item ActionImplParam
@item NamedActionImplParam
@fn GenCtx::new
@attr #[verifier::rlimit(100)]
@spec
    requires grammar_of(lalr.grammar, ast_productions@), ast_plain(ast_productions@),
    ensures gen_of(r, ast_productions@, *lalr),
@hint start
    let ghost mut fb: Seq<(Ident<'ast>, &'ast ProductionBody<'ast>)> = Seq::empty();
@hint loop 1 before
    proof { variants_0($acc@, ast_productions@); }
@loop 1
    invariant $s == refs::<AstProduction>(ast_productions@), variants_part($acc@, ast_productions@, $i),
@hint loop 1 start
    let ghost a0 = $acc@;
@hint loop 1 end
    proof { assert($acc@.drop_last() =~= a0); variants_step($acc@, ast_productions@, $i); }
@hint loop 1 after
    proof { variants_all($acc@, ast_productions@); }
@hint loop 3 before
    proof { flat_b0($acc@, ast_productions@); }
@loop 3
    invariant $s == refs::<AstProduction>(ast_productions@), flat_bodies($acc@, ast_productions@, $i, 0),
@loop 4
    invariant $s == refs::<ProductionBody>(ast_prod.bodies@), *ast_prod == ast_productions@[$i3 - 1], flat_bodies(acc3__@, ast_productions@, $i3 - 1, $i),
@hint loop 4 start
    let ghost a0 = acc3__@;
@hint loop 4 end
    proof { assert(acc3__@.drop_last() =~= a0); flat_push(acc3__@, ast_productions@, $i3 - 1, $i); }
@hint loop 3 end
    proof { flat_next($acc@, ast_productions@, $i - 1); }
@hint loop 3 after
    proof { fb = $acc@; }
@hint loop 2 before
    let ghost f = bodies_in($s);
    assert(f =~= fb);
    proof { impls_0($acc@, f); few_alts(lalr.grammar, ast_productions@, f); }
@loop 2
    invariant f == bodies_in($s), impls_part($acc@, f, $i),
@hint loop 2 start
    let ghost a0 = $acc@;
    proof { flat_el(f, ast_productions@, $i - 1); }
@hint loop 2 end
    proof { assert($acc@.drop_last() =~= a0); impls_step($acc@, f, $i); }
@loop 5
    invariant $s == refs::<InputSymbol>(body.input_tokens@), $acc@ == params_of(body.input_tokens@, $i),
@hint loop 6 before
    proof { acts_0($acc@, action_impls@); }
@loop 6
    invariant $s == refs::<&ActionImpl>(action_impls@), acts_part($acc@, action_impls@, $i),
@hint loop 6 start
    let ghost a0 = $acc@;
@hint loop 6 end
    proof { assert($acc@.drop_last() =~= a0); acts_step($acc@, action_impls@, $i); }
@hint loop 6 after
    proof { acts_done($acc@, action_impls@, f, lalr.grammar, ast_productions@); }
@hint loop 7 before
    proof { pnames_0($acc@, ast_productions@); }
@loop 7
    invariant $s == refs::<AstProduction>(ast_productions@), names_part($acc@, ast_productions@, $i),
@hint loop 7 start
    let ghost a0 = $acc@;
@hint loop 7 end
    proof { assert($acc@.drop_last() =~= a0); pnames_step($acc@, ast_productions@, $i); }
@fn GenCtx::generate
@spec
    requires gctx(*self.grammar), flat_acts(self.actions@),
    ensures r is Ok, (r->Ok_0)@ == parse_text(*self),
@fn GenCtx::generate_type_defs_module
@spec
    requires gctx(*self.grammar),
    ensures final(w).txt() == tables_text(old(w).txt(), *self), r is Ok,
@fn GenCtx::generate_imports
@spec
    ensures final(w).txt() == imports_text(old(w).txt()), r is Ok,
@fn GenCtx::generate_symbols
@spec
    ensures final(w).txt() == gs_text(old(w).txt(), self.symbols@), r is Ok,
@loop 1
    invariant $s == refs::<Str>(self.symbols@), w.txt() == gs_rows(gs_head(old(w).txt()), self.symbols@, $i),
@fn GenCtx::generate_tokens
@spec
    requires gctx(*self.grammar),
    ensures final(w).txt() == gt_text(old(w).txt(), self.grammar.tokens@), r is Ok,
@loop 1
    invariant $s.len() == self.grammar.tokens@.len(), forall|q: int| 0 <= q < $s.len() ==> (#[trigger] $s[q]).0 == q && *$s[q].1 == self.grammar.tokens@[q],
        w.txt() == gt_rows(gt_head(old(w).txt()), self.grammar.tokens@, $i),
@hint loop 1 start
    let ghost p = w.txt();
    proof { no_epsilon(*self.grammar, $i - 1); }
@hint loop 1 end
    proof { assert(w.txt() == gt_row(p, $i - 1, self.grammar.tokens@[$i - 1])); }
@fn GenCtx::generate_productions
@spec
    requires gctx(*self.grammar),
    ensures final(w).txt() == gp_text(old(w).txt(), *self.grammar), r is Ok,
@hint start
    proof { gctx_of(*self.grammar); }
@loop 1
    invariant $s.len() == self.grammar.productions@.len(), forall|q: int| 0 <= q < $s.len() ==> (#[trigger] $s[q]).0 == q && *$s[q].1 == self.grammar.productions@[q],
        w.txt() == gp_rows(gp_pre(old(w).txt()), *self.grammar, $i),
@hint loop 1 start
    let ghost p = w.txt();
    let ghost pr = self.grammar.productions@[$i - 1];
@hint loop 2 before
    let ghost h = w.txt();
    proof { assert(h == gp_head(p, $i1 - 1, pr.name.0@)); }
@loop 2
    invariant $s == refs::<Symbol>(pr.input_tokens@), w.txt() == gx_rows(h, self.grammar.tokens@, pr.input_tokens@, $i),
@hint loop 2 start
    proof { has_sym(*self.grammar, $i1 - 1, $i2 - 1); }
@hint after let idx
    proof { has_idx(*self.grammar, $i1 - 1, $i2 - 1, Some(idx)); }
@hint loop 1 end
    proof { assert(w.txt() == gp_row(p, $i - 1, *self.grammar)); }
@fn GenCtx::generate_action_table
@attr #[verifier::rlimit(100)]
@spec
    ensures final(w).txt() == ga_text(old(w).txt(), self.lalr.action), r is Ok,
@hint loop 1 before
    let ghost h = w.txt();
    proof { entries_are($s, self.lalr.action.0@); }
@loop 1
    invariant $s == entries::<usize, BTreeMap<TokenIdx, Action>>(self.lalr.action.0@), w.txt() == ga_rows(h, $s, $i),
@hint loop 1 start
    let ghost p = w.txt();
@hint loop 2 before
    let ghost h2 = w.txt();
    proof { entries_are($s, action_map@); }
@loop 2
    invariant $s == entries::<TokenIdx, Action>(action_map@), w.txt() == ga_cells(h2, $s, $i),
@hint loop 2 start
    let ghost p2 = w.txt();
@hint loop 2 end
    proof { assert(w.txt() == ga_cell(p2, *$s[$i - 1].0, *$s[$i - 1].1)); }
@hint loop 1 end
    proof { assert(w.txt() == ga_row(p, *$s[$i - 1].0, $s[$i - 1].1@)); }
@fn GenCtx::generate_goto_table
@attr #[verifier::rlimit(100)]
@spec
    ensures final(w).txt() == gg_text(old(w).txt(), self.lalr.goto), r is Ok,
@hint loop 1 before
    let ghost h = w.txt();
    proof { entries_are($s, self.lalr.goto.0@); }
@loop 1
    invariant $s == entries::<usize, BTreeMap<Ident<'ast>, usize>>(self.lalr.goto.0@), w.txt() == gg_rows(h, $s, $i),
@hint loop 1 start
    let ghost p = w.txt();
@hint loop 2 before
    let ghost h2 = w.txt();
    proof { entries_are($s, goto_map@); }
@loop 2
    invariant $s == entries::<Ident<'ast>, usize>(goto_map@), w.txt() == gg_cells(h2, $s, $i),
@hint loop 2 start
    let ghost p2 = w.txt();
@hint loop 2 end
    proof { assert(w.txt() == gg_cell(p2, *$s[$i - 1].0, *$s[$i - 1].1)); }
@hint loop 1 end
    proof { assert(w.txt() == gg_row(p, *$s[$i - 1].0, $s[$i - 1].1@)); }
@fn GenCtx::generate_tokenkind_to_idx
@spec
    ensures final(w).txt() == gk_text(old(w).txt(), self.grammar.tokens@), r is Ok,
@hint loop 1 before
    let ghost h = w.txt();
@loop 1
    invariant $s.len() == self.grammar.tokens@.len(), forall|q: int| 0 <= q < $s.len() ==> (#[trigger] $s[q]).0 == q && *$s[q].1 == self.grammar.tokens@[q],
        w.txt() == gk_rows(h, self.grammar.tokens@, $i),
@hint loop 1 start
    let ghost p = w.txt();
@hint loop 1 end
    proof { assert(w.txt() == gk_row(p, $i - 1, self.grammar.tokens@[$i - 1])); }
@fn GenCtx::generate_actions_module
@attr #[verifier::rlimit(100)]
@spec
    requires flat_acts(self.actions@),
    ensures final(buf)@ == actions_text(old(buf)@, *self), r is Ok,
@hint loop 1 before
    let ghost h = buf@;
    proof { entries_are($s, self.symbol_variants@); }
@loop 1
    invariant $s == entries::<Str<'ast>, SymbolVariant<'ast>>(self.symbol_variants@), buf@ == av_rows(h, $s, $i),
@hint loop 2 before
    let ghost h2 = buf@;
    proof { assert(h2 == ad_head(av_text(old(buf)@, *self))); }
@loop 2
    invariant $s == refs::<GenAction>(self.actions@), buf@ == ad_rows(h2, self.actions@, $i),
@hint loop 3 before
    let ghost h3 = buf@;
    proof { assert(h3 == ad_text(old(buf)@, *self)); }
@loop 3
    invariant $s == refs::<GenAction>(self.actions@), buf@ == aa_rows(h3, self.actions@, $i),
@hint loop 3 start
    proof { flat_act(self.actions@, $i - 1); }
@fn GenAction::call_impl_args
@spec
    requires flat_ps(self.action_impl.inputs@),
    ensures r is Ok,
@loop 1
    invariant $s == refs::<ActionImplParam>(self.action_impl.inputs@), 
@hint loop 1 start
    proof { flat_at(self.action_impl.inputs@, $i - 1); }
@fn GenAction::call_impl
@spec
    requires flat_ps(self.action_impl.inputs@),
    ensures r is Ok, (r->Ok_0)@ == call_text(*self),
@fn GenAction::validate_params
@attr #[verifier::rlimit(100)]
@spec
    requires flat_ps(self.action_impl.inputs@),
    ensures final(w).txt() == va_text(old(w).txt(), *self, call_impl@), r is Ok,
@hint loop 1 before
    let ghost v = self.action_impl.inputs@;
    let ghost k = self.production_idx.0;
    proof { assert(str_texts(cond_stack@) =~= Seq::empty()); assert(str_texts(else_stack@) =~= Seq::empty()); }
@loop 1
    invariant $s == refs::<ActionImplParam>(v), i == $i, str_texts(cond_stack@) == conds(v, $i), str_texts(else_stack@) == elses(v, k, $i), w.txt() == old(w).txt(),
@hint loop 1 start
    let ghost c0 = cond_stack@;
    let ghost e0 = else_stack@;
    proof { flat_at(v, $i - 1); }
@hint loop 1 end
    proof {
        let cs = conds_of(v[$i - 1]);
        let es = elses_of(v[$i - 1], $i, k);
        if cs.len() == 0 { assert(conds(v, $i) =~= conds(v, $i - 1)); assert(elses(v, k, $i) =~= elses(v, k, $i - 1)); }
        else if cs.len() == 1 {
            assert(cond_stack@.drop_last() =~= c0); assert(else_stack@.drop_last() =~= e0);
            grew1_texts(c0, cond_stack@, cs[0]); grew1_texts(e0, else_stack@, es[0]);
        } else {
            assert(cond_stack@.drop_last().drop_last() =~= c0); assert(else_stack@.drop_last().drop_last() =~= e0);
            grew2_texts(c0, cond_stack@, cs[0], cs[1]); grew2_texts(e0, else_stack@, es[0], es[1]);
        }
    }
@hint loop 2 before
    let ghost c = conds(v, v.len() as int);
@loop 2
    invariant c == str_texts($s), w.txt() == wc_rows(old(w).txt(), c, $i),
@hint loop 3 before
    let ghost h = w.txt();
    let ghost e = elses(v, k, v.len() as int);
    proof { assert(h == wc_rows(old(w).txt(), c, c.len() as int) + call_impl@); }
@loop 3
    invariant $s.len() == e.len(), forall|q: int| 0 <= q < $s.len() ==> (#[trigger] $s[q])@ == e[e.len() - 1 - q], w.txt() == we_rows(h, e, $i),
@fn GenAction::popped_values
@attr #[verifier::rlimit(100)]
@spec
    requires flat_ps(self.action_impl.inputs@),
    ensures final(w).txt() == pv_text(old(w).txt(), *self, call_impl@, action_idx), r is Ok,
@hint loop 1 before
    let ghost v = self.action_impl.inputs@;
@loop 1
    invariant $s == refs::<ActionImplParam>(v), i == unnamed(v, $i), w.txt() == pv_rows(pv_head(old(w).txt()), v, $i),
@hint loop 1 start
    let ghost p = w.txt();
    proof { flat_at(v, $i - 1); unnamed_le(v, $i - 1); }
@hint loop 1 end
    proof { assert(w.txt() == pv_row(p, v, $i - 1)); }
@fn GenAction::write
@spec
    requires flat_ps(self.action_impl.inputs@),
    ensures final(w).txt() == act_text(old(w).txt(), *self), r is Ok,
@fn ActionImplParam::from_input_symbols
@spec
    requires named_ok(*input_symbol),
    ensures r == param_of(*input_symbol),
    decreases *input_symbol,
@fn generate
@spec
    requires grammar_of(lalr.grammar, ast_productions@), ast_plain(ast_productions@), gctx(lalr.grammar), lok(lalr.lexer),
    ensures r is Ok,
        exists|c: LexCtx| #[trigger] ctx_of(c, lalr.lexer) && (r->Ok_0).0@ == lex_text(c),
        exists|c: GenCtx<'ast>| #[trigger] gen_of(c, ast_productions@, *lalr) && (r->Ok_0).1@ == parse_text(c),
@hint after let ctx
    proof { flat_acts_of(ctx.actions@, lalr.grammar, ast_productions@); }
@hint end
    proof { assert(gen_of(ctx, ast_productions@, *lalr)); }
