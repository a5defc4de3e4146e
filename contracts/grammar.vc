@module ast = parser/ast.rs rename Production=AstProduction
@item AstProduction
@item ProductionBody
@item InputSymbol
@item NamedSymbol
@item Ident
@text
/// a symbol without the name of its binding
pub open spec fn lowered<'a>(s: InputSymbol<'a>) -> Symbol<'a> decreases s {
    match s {
        InputSymbol::StrLit(a) => Symbol::StrLit(a),
        InputSymbol::Named(n) => lowered(*n.ty),
        InputSymbol::NonTerminal(n) => Symbol::NonTerminal(n),
        InputSymbol::Regex(r) => Symbol::Regex(r),
        InputSymbol::Epsilon => Symbol::Epsilon,
        InputSymbol::Eof => Symbol::Eof,
    }
}
@fn InputSymbol::lower
@spec
    ensures r == lowered(*self),
    decreases *self,
@fn InputSymbol::as_non_terminal
@spec
    ensures match r { Some(n) => lowered(*self) == Symbol::NonTerminal(*n), None => !(lowered(*self) is NonTerminal) },
    decreases *self,
@fn InputSymbol::is_terminal
@spec
    ensures r == !(lowered(*self) is NonTerminal),
    decreases *self,

@fn <AsRef<str> for Ident>::as_ref
@sig fn vas_ref(&self) -> (r: Str<'ast>)
@spec
    ensures r == self.0,
@fn <Display for Ident>::fmt
@sig fn fmt_v<W: TextSink>(&self, f: &mut W) -> (r: Result<(), FmtError>)
@spec
    ensures final(f).txt() == old(f).txt() + self.0@, r is Ok,
@text
impl<'ast> VDisplay for Ident<'ast> {
    open spec fn shown(&self) -> Seq<char> { self.0@ }
    fn vdisplay<W: TextSink>(&self, w: &mut W) { let _ = self.fmt_v(w); }
    #[verifier::external_body]
    fn vto_string(&self) -> (r: String) { unimplemented!() }
}

@module idx = lalr/item.rs
@item ProductionIdx
@item TokenIdx

@module grammars = -
@text
/// `p` is the alternative `b` of the group `a`
pub open spec fn is_prod<'a>(p: Production<'a>, a: AstProduction<'a>, b: ProductionBody<'a>) -> bool {
    &&& p.name == a.name && p.mapping_fn == Some(b.mapping_fn) && p.ts_type == Some(a.ts_code)
    &&& p.input_tokens@.len() == b.input_tokens@.len()
    &&& forall|k: int| 0 <= k < b.input_tokens@.len() ==> #[trigger] p.input_tokens@[k] == lowered(b.input_tokens@[k])
}
/// the alternatives (group, number in the group) of the first `n` groups and the first `m` of group `n`, in source order
pub open spec fn alts<'a>(ps: Seq<AstProduction<'a>>, n: int, m: int) -> Seq<(int, int)> decreases n, m {
    if m > 0 { alts(ps, n, m - 1).push((n, m - 1)) } else if n > 0 { alts(ps, n - 1, ps[n - 1].bodies@.len() as int) } else { Seq::empty() }
}
pub proof fn alts_in<'a>(ps: Seq<AstProduction<'a>>, n: int, m: int)
    requires 0 <= n <= ps.len(), m >= 0, m > 0 ==> n < ps.len() && m <= ps[n].bodies@.len()
    ensures forall|k: int| 0 <= k < alts(ps, n, m).len() ==> ({ let a = #[trigger] alts(ps, n, m)[k]; 0 <= a.0 <= n && a.0 < ps.len() && 0 <= a.1 < ps[a.0].bodies@.len() })
    decreases n, m
{
    let al = alts(ps, n, m);
    if m > 0 {
        alts_in(ps, n, m - 1);
        let a0 = alts(ps, n, m - 1);
        assert forall|k: int| 0 <= k < al.len() implies ({ let a = #[trigger] al[k]; 0 <= a.0 <= n && a.0 < ps.len() && 0 <= a.1 < ps[a.0].bodies@.len() }) by {
            if k < a0.len() { assert(al[k] == a0[k]); } else { assert(al[k] == (n, m - 1)); }
        }
    } else if n > 0 {
        let a0 = alts(ps, n - 1, ps[n - 1].bodies@.len() as int);
        alts_in(ps, n - 1, ps[n - 1].bodies@.len() as int);
        assert forall|k: int| 0 <= k < al.len() implies ({ let a = #[trigger] al[k]; 0 <= a.0 <= n && a.0 < ps.len() && 0 <= a.1 < ps[a.0].bodies@.len() }) by { assert(al[k] == a0[k]); }
    }
}
/// every alternative is numbered
pub proof fn alts_all<'a>(ps: Seq<AstProduction<'a>>, n: int, m: int, i: int, j: int) -> (k: int)
    requires 0 <= n <= ps.len(), m >= 0, m > 0 ==> n < ps.len() && m <= ps[n].bodies@.len(), 0 <= i, 0 <= j, i < n && j < ps[i].bodies@.len() || i == n && j < m
    ensures 0 <= k < alts(ps, n, m).len(), alts(ps, n, m)[k] == (i, j)
    decreases n, m
{
    if m > 0 {
        if i == n && j == m - 1 { alts(ps, n, m - 1).len() as int } else { alts_all(ps, n, m - 1, i, j) }
    } else { alts_all(ps, n - 1, ps[n - 1].bodies@.len() as int, i, j) }
}
pub proof fn alts_mono<'a>(ps: Seq<AstProduction<'a>>, n: int, m: int, n2: int, m2: int)
    requires 0 <= n <= n2 <= ps.len(), m >= 0, m2 >= 0, n == n2 ==> m <= m2, m > 0 ==> n < ps.len() && m <= ps[n].bodies@.len(), m2 > 0 ==> n2 < ps.len() && m2 <= ps[n2].bodies@.len()
    ensures alts(ps, n, m).len() <= alts(ps, n2, m2).len()
    decreases n2, m2
{
    if n == n2 && m == m2 {} else if m2 > 0 { alts_mono(ps, n, m, n2, m2 - 1); } else { alts_mono(ps, n, m, n2 - 1, ps[n2 - 1].bodies@.len() as int); }
}
pub open spec fn lowered_all<'a>(s: Seq<Symbol<'a>>, b: Seq<InputSymbol<'a>>, n: int) -> bool { s.len() == n && forall|k: int| 0 <= k < n ==> #[trigger] s[k] == lowered(b[k]) }
#[verifier::opaque]
pub open spec fn prods_ok<'a>(ps: Seq<Production<'a>>, ast: Seq<AstProduction<'a>>, n: int, m: int) -> bool {
    let al = alts(ast, n, m);
    &&& ps.len() == 1 + al.len()
    &&& forall|k: int| 0 <= k < al.len() ==> is_prod(#[trigger] ps[k + 1], ast[al[k].0], ast[al[k].0].bodies@[al[k].1])
}
pub proof fn prods_0<'a>(ps: Seq<Production<'a>>, ast: Seq<AstProduction<'a>>) requires ps.len() == 1 ensures prods_ok(ps, ast, 0, 0) { reveal(prods_ok); }
pub proof fn prods_len<'a>(ps: Seq<Production<'a>>, ast: Seq<AstProduction<'a>>, n: int, m: int) requires prods_ok(ps, ast, n, m) ensures ps.len() == 1 + alts(ast, n, m).len() { reveal(prods_ok); }
pub proof fn prods_push<'a>(ps: Seq<Production<'a>>, ast: Seq<AstProduction<'a>>, n: int, m: int, p: Production<'a>)
    requires prods_ok(ps, ast, n, m), 0 <= n < ast.len(), 0 <= m < ast[n].bodies@.len(), is_prod(p, ast[n], ast[n].bodies@[m])
    ensures prods_ok(ps.push(p), ast, n, m + 1)
{
    reveal(prods_ok);
    let al = alts(ast, n, m);
    let al2 = alts(ast, n, m + 1);
    let ps2 = ps.push(p);
    assert(al2 == al.push((n, m)));
    assert forall|k: int| 0 <= k < al2.len() implies is_prod(#[trigger] ps2[k + 1], ast[al2[k].0], ast[al2[k].0].bodies@[al2[k].1]) by { if k < al.len() { assert(ps2[k + 1] == ps[k + 1]); assert(al2[k] == al[k]); } }
}
pub proof fn prods_next<'a>(ps: Seq<Production<'a>>, ast: Seq<AstProduction<'a>>, n: int)
    requires 0 <= n < ast.len(), prods_ok(ps, ast, n, ast[n].bodies@.len() as int) ensures prods_ok(ps, ast, n + 1, 0)
{ reveal(prods_ok); }

/// the productions listed for a name are exactly those with that name, in order
#[verifier::opaque]
pub open spec fn names_ok<'a>(m: Map<Ident<'a>, Vec<ProductionIdx>>, ps: Seq<Production<'a>>) -> bool {
    &&& forall|n: Ident<'a>| #[trigger] m.contains_key(n) ==> m[n]@.len() > 0 && idxs_of(m[n]@, ps, n)
    &&& forall|i: int| 0 <= i < ps.len() ==> m.contains_key((#[trigger] ps[i]).name)
}
pub open spec fn idxs_of<'a>(l: Seq<ProductionIdx>, ps: Seq<Production<'a>>, n: Ident<'a>) -> bool {
    &&& forall|k: int| 0 <= k < l.len() ==> (#[trigger] l[k]).0 < ps.len() && ps[l[k].0 as int].name == n
    &&& forall|h: int, k: int| 0 <= h < k < l.len() ==> (#[trigger] l[h]).0 < (#[trigger] l[k]).0
    &&& forall|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).name == n ==> listed(l, i)
}
pub open spec fn listed(l: Seq<ProductionIdx>, i: int) -> bool { exists|k: int| 0 <= k < l.len() && (#[trigger] l[k]).0 == i }
pub proof fn names_0<'a>(m: Map<Ident<'a>, Vec<ProductionIdx>>, ps: Seq<Production<'a>>, l: Vec<ProductionIdx>)
    requires ps.len() == 1, l@ == seq![ProductionIdx(0)], m == Map::<Ident<'a>, Vec<ProductionIdx>>::empty().insert(ps[0].name, l) ensures names_ok(m, ps)
{ reveal(names_ok); assert(l@[0].0 == 0); }
pub proof fn names_push<'a>(m: Map<Ident<'a>, Vec<ProductionIdx>>, ps: Seq<Production<'a>>, p: Production<'a>, m2: Map<Ident<'a>, Vec<ProductionIdx>>, l: Seq<ProductionIdx>)
    requires names_ok(m, ps), ps.len() <= u32::MAX, m2.contains_key(p.name), m2 =~= m.insert(p.name, m2[p.name]), l == (if m.contains_key(p.name) { m[p.name]@ } else { Seq::empty() }),
        m2[p.name]@ == l.push(ProductionIdx(ps.len() as u32)),
    ensures names_ok(m2, ps.push(p))
{
    reveal(names_ok);
    let ps2 = ps.push(p);
    let l2 = m2[p.name]@;
    let i2 = ps.len() as int;
    assert(l2[l.len() as int].0 == i2);
    assert(ps2[i2] == p);
    assert forall|i: int| 0 <= i < ps.len() implies ps2[i] == #[trigger] ps[i] by {}
    assert(idxs_of(l, ps, p.name)) by { if !m.contains_key(p.name) { assert forall|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).name == p.name implies listed(l, i) by { assert(m.contains_key(ps[i].name)); } } }
    assert forall|n: Ident<'a>| #[trigger] m2.contains_key(n) implies m2[n]@.len() > 0 && idxs_of(m2[n]@, ps2, n) by {
        if n == p.name {
            assert forall|k: int| 0 <= k < l2.len() implies (#[trigger] l2[k]).0 < ps2.len() && ps2[l2[k].0 as int].name == n by { if k < l.len() { assert(l2[k] == l[k]); } }
            assert forall|h: int, k: int| 0 <= h < k < l2.len() implies (#[trigger] l2[h]).0 < (#[trigger] l2[k]).0 by { assert(l2[h] == l[h]); if k < l.len() { assert(l2[k] == l[k]); } }
            assert forall|i: int| 0 <= i < ps2.len() && (#[trigger] ps2[i]).name == n implies listed(l2, i) by {
                if i < ps.len() { assert(ps[i].name == n); let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).0 == i; assert(l2[k] == l[k]); }
            }
        } else {
            assert(m.contains_key(n));
            let q = m[n]@;
            assert(idxs_of(q, ps, n));
            assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]).0 < ps2.len() && ps2[q[k].0 as int].name == n by { assert(ps2[q[k].0 as int] == ps[q[k].0 as int]); }
            assert forall|i: int| 0 <= i < ps2.len() && (#[trigger] ps2[i]).name == n implies listed(q, i) by { assert(ps[i].name == n); }
        }
    }
    assert forall|i: int| 0 <= i < ps2.len() implies m2.contains_key((#[trigger] ps2[i]).name) by { if i < ps.len() { assert(m.contains_key(ps[i].name)); } }
}

/// `x` is in a production
pub open spec fn occurs<'a>(ps: Seq<Production<'a>>, x: Symbol<'a>) -> bool { exists|i: int, j: int| #[trigger] sym_at(ps, i, j, x) }
pub open spec fn sym_at<'a>(ps: Seq<Production<'a>>, i: int, j: int, x: Symbol<'a>) -> bool { 0 <= i < ps.len() && 0 <= j < ps[i].input_tokens@.len() && ps[i].input_tokens@[j] == x }
#[verifier::opaque]
pub open spec fn syms_part<'a>(t: Set<Symbol<'a>>, ps: Seq<Production<'a>>, n: int, m: int) -> bool {
    forall|x: Symbol<'a>| #[trigger] t.contains(x) <==> exists|i: int, j: int| #[trigger] sym_at(ps, i, j, x) && (i < n || i == n && j < m)
}
pub proof fn syms_0<'a>(t: Set<Symbol<'a>>, ps: Seq<Production<'a>>) requires t == Set::<Symbol<'a>>::empty() ensures syms_part(t, ps, 0, 0) { reveal(syms_part); }
pub proof fn syms_next<'a>(t: Set<Symbol<'a>>, ps: Seq<Production<'a>>, n: int) requires 0 <= n < ps.len(), syms_part(t, ps, n, ps[n].input_tokens@.len() as int) ensures syms_part(t, ps, n + 1, 0)
{
    reveal(syms_part);
    assert forall|x: Symbol<'a>| #[trigger] t.contains(x) <==> exists|i: int, j: int| #[trigger] sym_at(ps, i, j, x) && (i < n + 1 || i == n + 1 && j < 0) by {
        if t.contains(x) { let (i, j) = choose|i: int, j: int| #[trigger] sym_at(ps, i, j, x) && (i < n || i == n && j < ps[n].input_tokens@.len()); assert(sym_at(ps, i, j, x) && i < n + 1); }
        if exists|i: int, j: int| #[trigger] sym_at(ps, i, j, x) && (i < n + 1 || i == n + 1 && j < 0) {
            let (i, j) = choose|i: int, j: int| #[trigger] sym_at(ps, i, j, x) && (i < n + 1 || i == n + 1 && j < 0);
            assert(sym_at(ps, i, j, x) && (i < n || i == n && j < ps[n].input_tokens@.len()));
        }
    }
}
pub proof fn syms_step<'a>(t: Set<Symbol<'a>>, ps: Seq<Production<'a>>, n: int, m: int)
    requires 0 <= n < ps.len(), 0 <= m < ps[n].input_tokens@.len(), syms_part(t, ps, n, m) ensures syms_part(t.insert(ps[n].input_tokens@[m]), ps, n, m + 1)
{
    reveal(syms_part);
    let s = ps[n].input_tokens@[m];
    let t2 = t.insert(s);
    assert forall|x: Symbol<'a>| #[trigger] t2.contains(x) <==> exists|i: int, j: int| #[trigger] sym_at(ps, i, j, x) && (i < n || i == n && j < m + 1) by {
        if t2.contains(x) {
            if x == s { assert(sym_at(ps, n, m, x)); }
            else { assert(t.contains(x)); let (i, j) = choose|i: int, j: int| #[trigger] sym_at(ps, i, j, x) && (i < n || i == n && j < m); assert(sym_at(ps, i, j, x) && (i < n || i == n && j < m + 1)); }
        }
        if exists|i: int, j: int| #[trigger] sym_at(ps, i, j, x) && (i < n || i == n && j < m + 1) {
            let (i, j) = choose|i: int, j: int| #[trigger] sym_at(ps, i, j, x) && (i < n || i == n && j < m + 1);
            if !(i == n && j == m) { assert(sym_at(ps, i, j, x) && (i < n || i == n && j < m)); assert(t.contains(x)); }
        }
    }
}
/// the end marker, then the symbols that occur in a production, each once, in their order
#[verifier::opaque]
pub open spec fn tokens_ok<'a>(t: Seq<Symbol<'a>>, ps: Seq<Production<'a>>) -> bool {
    &&& 0 < t.len() && t.len() <= u32::MAX && t[0] == Symbol::<'a>::Eof
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> #[trigger] t[i] != #[trigger] t[j]
    &&& sorted(t.skip(1))
    &&& forall|x: Symbol<'a>| #[trigger] occurs(ps, x) ==> sym_in(t, x)
    &&& forall|i: int| 0 < i < t.len() ==> occurs(ps, #[trigger] t[i])
}
pub open spec fn sym_in<'a>(t: Seq<Symbol<'a>>, x: Symbol<'a>) -> bool { exists|i: int| 0 <= i < t.len() && #[trigger] t[i] == x }
pub open spec fn no_eof<'a>(ps: Seq<Production<'a>>) -> bool { !occurs(ps, Symbol::<'a>::Eof) }
pub proof fn tokens_done<'a>(t: Seq<Symbol<'a>>, s: Seq<Symbol<'a>>, u: Set<Symbol<'a>>, ps: Seq<Production<'a>>)
    requires syms_part(u, ps, ps.len() as int, 0), enumerates(s, u), sorted(s), t == seq![Symbol::<'a>::Eof] + s, no_eof(ps), t.len() <= u32::MAX
    ensures tokens_ok(t, ps)
{
    reveal(tokens_ok); reveal(syms_part);
    assert(t.skip(1) =~= s);
    assert forall|x: Symbol<'a>| #[trigger] u.contains(x) <==> occurs(ps, x) by {
        if occurs(ps, x) { let (i, j) = choose|i: int, j: int| #[trigger] sym_at(ps, i, j, x); assert(sym_at(ps, i, j, x) && i < ps.len()); }
    }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i] != #[trigger] t[j] by {
        assert(t[j] == s[j - 1] && u.contains(s[j - 1]));
        if i > 0 { assert(t[i] == s[i - 1]); }
    }
    assert forall|x: Symbol<'a>| #[trigger] occurs(ps, x) implies sym_in(t, x) by {
        assert(u.contains(x));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
        assert(t[i + 1] == x);
    }
    assert forall|i: int| 0 < i < t.len() implies occurs(ps, #[trigger] t[i]) by { assert(t[i] == s[i - 1] && u.contains(s[i - 1])); }
}
pub open spec fn ast_no_eof<'a>(ast: Seq<AstProduction<'a>>) -> bool {
    forall|i: int, j: int, k: int| 0 <= i < ast.len() && 0 <= j < ast[i].bodies@.len() && 0 <= k < ast[i].bodies@[j].input_tokens@.len() ==> !(lowered(#[trigger] ast[i].bodies@[j].input_tokens@[k]) is Eof)
}
pub proof fn no_eof_of<'a>(ps: Seq<Production<'a>>, ast: Seq<AstProduction<'a>>)
    requires prods_ok(ps, ast, ast.len() as int, 0), ast_no_eof(ast), ps[0].input_tokens@.len() == 1, ps[0].input_tokens@[0] is NonTerminal ensures no_eof(ps)
{
    reveal(prods_ok);
    if occurs(ps, Symbol::<'a>::Eof) {
        let (i, j) = choose|i: int, j: int| #[trigger] sym_at(ps, i, j, Symbol::<'a>::Eof);
        if i > 0 {
            let al = alts(ast, ast.len() as int, 0);
            alts_in(ast, ast.len() as int, 0);
            let a = al[i - 1];
            assert(is_prod(ps[i - 1 + 1], ast[a.0], ast[a.0].bodies@[a.1]));
            assert(ps[i].input_tokens@[j] == lowered(ast[a.0].bodies@[a.1].input_tokens@[j]));
        }
    }
}
/// `x` is the start symbol of an augmented production or a symbol of an alternative
pub open spec fn in_ast<'a>(ast: Seq<AstProduction<'a>>, x: Symbol<'a>) -> bool {
    ||| exists|i: int| 0 <= i < ast.len() && x == Symbol::NonTerminal((#[trigger] ast[i]).name)
    ||| exists|i: int, j: int, k: int| 0 <= i < ast.len() && 0 <= j < ast[i].bodies@.len() && 0 <= k < ast[i].bodies@[j].input_tokens@.len() && x == lowered(#[trigger] ast[i].bodies@[j].input_tokens@[k])
}
pub open spec fn distinct_syms<'a>(s: Seq<Symbol<'a>>, ast: Seq<AstProduction<'a>>) -> bool { s.no_duplicates() && forall|i: int| 0 <= i < s.len() ==> in_ast(ast, #[trigger] s[i]) }
/// the numbers of the symbols fit the type of the indices
pub open spec fn few_syms<'a>(ast: Seq<AstProduction<'a>>) -> bool { forall|s: Seq<Symbol<'a>>| #[trigger] distinct_syms(s, ast) ==> s.len() < u32::MAX }
pub proof fn few_of<'a>(s: Seq<Symbol<'a>>, u: Set<Symbol<'a>>, ps: Seq<Production<'a>>, ast: Seq<AstProduction<'a>>, st: int)
    requires few_syms(ast), prods_ok(ps, ast, ast.len() as int, 0), 0 <= st < ast.len(), ps[0].input_tokens@ == seq![Symbol::NonTerminal(ast[st].name)], syms_part(u, ps, ps.len() as int, 0), enumerates(s, u)
    ensures s.len() < u32::MAX
{
    reveal(prods_ok); reveal(syms_part);
    assert forall|q: int| 0 <= q < s.len() implies in_ast(ast, #[trigger] s[q]) by {
        let x = s[q];
        assert(u.contains(x));
        let (i, j) = choose|i: int, j: int| #[trigger] sym_at(ps, i, j, x) && (i < ps.len() || i == ps.len() && j < 0);
        if i == 0 { assert(x == Symbol::NonTerminal(ast[st].name)); }
        else {
            let al = alts(ast, ast.len() as int, 0);
            alts_in(ast, ast.len() as int, 0);
            let a = al[i - 1];
            assert(is_prod(ps[i - 1 + 1], ast[a.0], ast[a.0].bodies@[a.1]));
            assert(ps[i].input_tokens@[j] == lowered(ast[a.0].bodies@[a.1].input_tokens@[j]));
        }
    }
    assert(distinct_syms(s, ast));
}
pub open spec fn token_found<'a>(r: Option<TokenIdx>, t: Seq<Symbol<'a>>, x: Symbol<'a>) -> bool { match r { Some(i) => i.0 < t.len() && t[i.0 as int] == x, None => !sym_in(t, x) } }
/// the non-terminals among the first n symbols, with their indices
pub open spec fn nts_ok<'a, 'b>(r: Seq<(TokenIdx, &'b Ident<'a>)>, t: Seq<Symbol<'a>>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).0.0 < n && r[k].0.0 < t.len() && t[r[k].0.0 as int] == Symbol::NonTerminal(*r[k].1)
    &&& forall|i: int| 0 <= i < n && (#[trigger] t[i]) is NonTerminal ==> nt_listed(r, i)
    &&& forall|k: int, l: int| 0 <= k < l < r.len() ==> (#[trigger] r[k]).0.0 < (#[trigger] r[l]).0.0
}
pub open spec fn nt_listed<'a, 'b>(r: Seq<(TokenIdx, &'b Ident<'a>)>, i: int) -> bool { exists|k: int| 0 <= k < r.len() && (#[trigger] r[k]).0.0 == i }
pub proof fn nts_step<'a, 'b>(r: Seq<(TokenIdx, &'b Ident<'a>)>, t: Seq<Symbol<'a>>, n: int, r2: Seq<(TokenIdx, &'b Ident<'a>)>)
    requires nts_ok(r, t, n), 0 <= n < t.len(), t.len() <= u32::MAX,
        t[n] is NonTerminal ==> r2.len() == r.len() + 1 && r2 == r.push(r2.last()) && r2.last().0.0 == n && Symbol::NonTerminal(*r2.last().1) == t[n], !(t[n] is NonTerminal) ==> r2 == r
    ensures nts_ok(r2, t, n + 1)
{
    assert forall|i: int| 0 <= i < n + 1 && (#[trigger] t[i]) is NonTerminal implies nt_listed(r2, i) by {
        if i < n { assert(nt_listed(r, i)); let k = choose|k: int| 0 <= k < r.len() && (#[trigger] r[k]).0.0 == i; assert(r2[k] == r[k]); }
        else { assert(r2[r.len() as int].0.0 == i); }
    }
}
/// looking up the index of a symbol gives back the index it was found at
pub proof fn idx_roundtrip<'a>(t: Seq<Symbol<'a>>, ps: Seq<Production<'a>>, i: int, r: Option<TokenIdx>)
    requires tokens_ok(t, ps), 0 <= i < t.len(), token_found(r, t, t[i]) ensures r == Some(TokenIdx(i as u32))
{ reveal(tokens_ok); assert(sym_in(t, t[i])); }
pub proof fn names_of<'a>(g: Grammar<'a>, n: Ident<'a>)
    requires gwf(g), exists|i: int| 0 <= i < g.productions@.len() && (#[trigger] g.productions@[i]).name == n
    ensures g.production_name_map@.contains_key(n), g.production_name_map@[n]@.len() > 0, idxs_of(g.production_name_map@[n]@, g.productions@, n)
{ reveal(names_ok); }
/// what every part of the tool relies on
pub open spec fn gwf<'a>(g: Grammar<'a>) -> bool {
    0 < g.productions@.len() <= u32::MAX && names_ok(g.production_name_map@, g.productions@) && tokens_ok(g.tokens@, g.productions@)
}
pub open spec fn first_start<'a>(ast: Seq<AstProduction<'a>>, k: int) -> bool { 0 <= k < ast.len() && ast[k].is_start && forall|h: int| 0 <= h < k ==> !(#[trigger] ast[h]).is_start }
/// C06
pub open spec fn grammar_of<'a>(g: Grammar<'a>, ast: Seq<AstProduction<'a>>) -> bool {
    &&& gwf(g)
    &&& exists|k: int| #[trigger] first_start(ast, k) && g.productions@[0].input_tokens@ == seq![Symbol::NonTerminal(ast[k].name)] && g.augmented_start_name.0@ == ast[k].name.0@.push('\'')
    &&& g.productions@[0].name == g.augmented_start_name && g.productions@[0].mapping_fn is None && g.productions@[0].ts_type is None
    &&& prods_ok(g.productions@, ast, ast.len() as int, 0)
}
pub open spec fn prod_seq<'a>(l: Seq<ProductionIdx>, ps: Seq<Production<'a>>, i: int) -> Seq<(ProductionIdx, &'a Production<'a>)> {
    if 0 <= i <= l.len() { Seq::new((l.len() - i) as nat, |k: int| (l[i + k], &ps[l[i + k].0 as int])) } else { Seq::empty() }
}
pub proof fn prod_seq_next<'a>(l: Seq<ProductionIdx>, ps: Seq<Production<'a>>, i: int)
    ensures 0 <= i < l.len() ==> prod_seq(l, ps, i).len() > 0 && prod_seq(l, ps, i)[0] == (l[i], &ps[l[i].0 as int]) && prod_seq(l, ps, i).skip(1) == prod_seq(l, ps, i + 1)
{ if 0 <= i < l.len() { assert(prod_seq(l, ps, i).skip(1) =~= prod_seq(l, ps, i + 1)); } }
/// `x` gives the productions of `n`, in order
pub open spec fn prods_of<'a>(s: Seq<(ProductionIdx, &'a Production<'a>)>, g: Grammar<'a>, n: Ident<'a>) -> bool {
    s.len() <= usize::MAX && exists|l: Seq<ProductionIdx>| #[trigger] idxs_of(l, g.productions@, n) && l.len() > 0 && s == prod_seq(l, g.productions@, 0)
}

@module grammar = parser/mod.rs rename ast::Production=AstProduction ast::ProductionBody=ProductionBody
@item Grammar
@item Symbol
@item Production
@item ProductionIter
@item Grammar::AUGMENTED_START_PRODUCTION_IDX
@item Grammar::EOF_TOKEN_IDX
@impl impl<'ast> VIterator for ProductionIter<'ast>
@text
    type Item = (ProductionIdx, &'ast Production<'ast>);
    open spec fn rem(&self) -> Seq<(ProductionIdx, &'ast Production<'ast>)> { prod_seq(self.production_indices@, self.productions@, self.idx as int) }
    open spec fn wf_it(&self) -> bool { self.production_indices@.len() < usize::MAX && forall|k: int| 0 <= k < self.production_indices@.len() ==> (#[trigger] self.production_indices@[k]).0 < self.productions@.len() }
@fn <Iterator for ProductionIter>::next
@trait
@hint start
    proof { prod_seq_next(self.production_indices@, self.productions@, self.idx as int); }
@endimpl
@fn Grammar::grammar_from_ast_productions
@attr #[verifier::rlimit(100)]
@spec
    requires exists|k: int| #[trigger] first_start(ast_productions@, k), 1 + alts(ast_productions@, ast_productions@.len() as int, 0).len() <= u32::MAX, ast_no_eof(ast_productions@), few_syms(ast_productions@),
    ensures grammar_of(r, ast_productions@),
@loop 1
    invariant_except_break forall|k: int| 0 <= k < $i ==> !(#[trigger] ast_productions@[k]).is_start,
    invariant $s == refs::<AstProduction>(ast_productions@),
    ensures match $res { Some(p) => first_start(ast_productions@, $i - 1) && *p == ast_productions@[$i - 1], None => forall|k: int| 0 <= k < ast_productions@.len() ==> !(#[trigger] ast_productions@[k]).is_start },
@hint loop 2 before
    let ghost ast = ast_productions@;
    let ghost p0 = productions@[0];
    let ghost st = choose|k: int| #[trigger] first_start(ast, k) && *start_symbol == ast[k];
    proof {
        assert(first_start(ast, st) && *start_symbol == ast[st]);
        assert(productions@ =~= seq![p0]); prods_0(productions@, ast);
        assert(production_name_map@[augmented_start_name]@ =~= seq![ProductionIdx(0)]);
        names_0(production_name_map@, productions@, production_name_map@[augmented_start_name]);
        reveal_strlit("'");
        assert(augmented_start_name.0@ =~= ast[st].name.0@.push('\''));
        assert(p0.input_tokens@ =~= seq![Symbol::NonTerminal(ast[st].name)]);
    }
@loop 2
    invariant $s == refs::<AstProduction>(ast), prods_ok(productions@, ast, $i, 0), names_ok(production_name_map@, productions@), productions@.len() > 0, productions@[0] == p0,
@hint loop 2 start
    let ghost n = $i - 1;
@loop 3
    invariant $s == refs::<ProductionBody>(ast[n].bodies@), prods_ok(productions@, ast, n, $i), names_ok(production_name_map@, productions@), productions@.len() > 0, productions@[0] == p0,
@hint loop 3 start
    let ghost ps0 = productions@;
    let ghost m0 = production_name_map@;
    proof { prods_len(ps0, ast, n, $i - 1); alts_mono(ast, n, $i, ast.len() as int, 0); }
@hint loop 3 end
    proof {
        let p = productions@.last();
        prods_push(ps0, ast, n, $i - 1, p);
        assert(productions@ =~= ps0.push(p));
        let l = if m0.contains_key(p.name) { m0[p.name]@ } else { Seq::empty() };
        assert(production_name_map@[p.name]@ =~= l.push(ProductionIdx(ps0.len() as u32)));
        assert(production_name_map@ =~= m0.insert(p.name, production_name_map@[p.name]));
        names_push(m0, ps0, p, production_name_map@, l);
    }
@hint loop 2 end
    proof { prods_next(productions@, ast, n); }
@hint loop 4 before
    let ghost ps = productions@;
    proof { prods_len(ps, ast, ast.len() as int, 0); syms_0(token_set@, ps); }
@loop 4
    invariant $s == refs::<Production>(ps), syms_part(token_set@, ps, $i, 0),
@loop 5
    invariant $s == refs::<Symbol>(ps[$i4 - 1].input_tokens@), syms_part(token_set@, ps, $i4 - 1, $i),
@hint loop 5 start
    let ghost t0 = token_set@;
@hint loop 5 end
    proof { syms_step(t0, ps, $i4 - 1, $i - 1); }
@hint loop 5 after
    proof { syms_next(token_set@, ps, $i4 - 1); }
@hint loop 4 after
    let ghost u = token_set@;
@hint before call extend 1
    let ghost t1 = tokens@;
@hint end
    proof {
        let s = tokens@.skip(1);
        assert(tokens@ =~= t1 + s);
        assert(t1 =~= seq![Symbol::Eof]);
        few_of(s, u, ps, ast, st);
        no_eof_of(ps, ast);
        tokens_done(tokens@, s, u, ps);
    }
@fn Grammar::production_iter
@spec
    requires gwf(*self), exists|i: int| 0 <= i < self.productions@.len() && (#[trigger] self.productions@[i]).name == name,
    ensures r.wf_it(), prods_of(r.rem(), *self, name),
@hint start
    let ghost l = self.production_name_map@[name];
    proof { names_of(*self, name); vec_len_max(l); assert(prods_of(prod_seq(l@, self.productions@, 0), *self, name)); }
@fn Grammar::tokens
@spec
    ensures r.rem() == refs::<Symbol>(self.tokens@), r.rem().len() <= usize::MAX,
@fn Grammar::non_terminals
@retty SeqIter<(TokenIdx, &Ident<'ast>)>
@spec
    requires self.tokens@.len() <= u32::MAX,
    ensures nts_ok(r.rem(), self.tokens@, self.tokens@.len() as int), r.rem().len() <= usize::MAX,
@loop 1
    invariant $s.len() == self.tokens@.len(), forall|k: int| 0 <= k < $s.len() ==> #[trigger] $s[k] == (k as usize, &self.tokens@[k]), nts_ok($acc@, self.tokens@, $i),
@hint loop 1 start
    let ghost a1 = $acc@;
@hint loop 1 end
    proof { nts_step(a1, self.tokens@, $i - 1, $acc@); }
@fn Grammar::iter_productions
@spec
    ensures r.rem() == refs::<Production>(self.productions@), r.rem().len() <= usize::MAX,
@fn Grammar::get_production_indices_by_name
@spec
    ensures match r { Some(l) => self.production_name_map@.contains_key(name) && *l == self.production_name_map@[name], None => !self.production_name_map@.contains_key(name) },
@fn Grammar::get_production
@spec
    ensures match r { Some(p) => idx.0 < self.productions@.len() && *p == self.productions@[idx.0 as int], None => idx.0 >= self.productions@.len() },
@fn Grammar::get_token
@spec
    ensures match r { Some(p) => idx.0 < self.tokens@.len() && *p == self.tokens@[idx.0 as int], None => idx.0 >= self.tokens@.len() },
@fn Grammar::get_token_idx
@spec
    requires tokens_ok(self.tokens@, self.productions@),
    ensures token_found(r, self.tokens@, *input_token),
@hint start
    proof { reveal(tokens_ok); }
@loop 1
    invariant $s.len() == self.tokens@.len(), forall|k: int| 0 <= k < $s.len() ==> #[trigger] $s[k] == (k as usize, &self.tokens@[k]),
    invariant_except_break forall|k: int| 0 <= k < $i ==> #[trigger] self.tokens@[k] != *input_token,
    ensures token_found($res, self.tokens@, *input_token),
@fn Symbol::as_non_terminal
@spec
    ensures r == (match *self { Symbol::NonTerminal(n) => Some(&n), _ => None }),
@fn Symbol::is_terminal
@spec
    ensures r == !(*self is NonTerminal),
@fn Production::from_ast
@spec
    ensures is_prod(r, *prod, *prod_body),
@loop 1
    invariant $s == refs::<InputSymbol>(prod_body.input_tokens@), lowered_all($acc@, prod_body.input_tokens@, $i),

