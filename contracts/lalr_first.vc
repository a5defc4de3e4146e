@module firsts = -
@text
/// every non-terminal that occurs has a production
pub open spec fn closed_g<'a>(g: Grammar<'a>) -> bool {
    forall|x: Symbol<'a>| #[trigger] occurs(g.productions@, x) ==> sym_ok(g, x)
}
/// a symbol `first` can be asked about
pub open spec fn sym_ok<'a>(g: Grammar<'a>, x: Symbol<'a>) -> bool { !(x is Epsilon) && (x matches Symbol::NonTerminal(n) ==> has_prod(g.productions@, n)) }
pub open spec fn has_prod<'a>(ps: Seq<Production<'a>>, n: Ident<'a>) -> bool { exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).name == n }
/// `y` is the first symbol of a production of `x`
pub open spec fn expands<'a>(ps: Seq<Production<'a>>, x: Symbol<'a>, y: Symbol<'a>) -> bool {
    exists|i: int| #[trigger] expands_by(ps, x, y, i)
}
pub open spec fn expands_by<'a>(ps: Seq<Production<'a>>, x: Symbol<'a>, y: Symbol<'a>, i: int) -> bool {
    0 <= i < ps.len() && x == Symbol::NonTerminal(ps[i].name) && ps[i].input_tokens@.len() > 0 && ps[i].input_tokens@[0] == y
}
/// leftmost symbols of strings derived from p[0] by expanding the leftmost symbol, none of them in `e`
pub open spec fn lpath<'a>(ps: Seq<Production<'a>>, e: Set<Ident<'a>>, p: Seq<Symbol<'a>>) -> bool {
    &&& p.len() > 0
    &&& forall|k: int| 0 < k < p.len() ==> expands(ps, #[trigger] p[k - 1], p[k])
    &&& forall|k: int| 0 <= k < p.len() ==> avoids(e, #[trigger] p[k])
}
pub open spec fn avoids<'a>(e: Set<Ident<'a>>, x: Symbol<'a>) -> bool { x matches Symbol::NonTerminal(n) ==> !e.contains(n) }
/// the terminal `t` can begin a string derived from `x` without expanding a symbol of `e`
#[verifier::opaque]
pub open spec fn begins_av<'a>(ps: Seq<Production<'a>>, e: Set<Ident<'a>>, x: Symbol<'a>, t: Symbol<'a>) -> bool {
    !(t is NonTerminal) && exists|p: Seq<Symbol<'a>>| #[trigger] lpath(ps, e, p) && p[0] == x && p.last() == t
}
/// the terminal `t` can begin a string derived from `x`
pub open spec fn begins<'a>(g: Grammar<'a>, x: Symbol<'a>, t: Symbol<'a>) -> bool { begins_av(g.productions@, Set::empty(), x, t) }

pub proof fn begins_term<'a>(ps: Seq<Production<'a>>, e: Set<Ident<'a>>, x: Symbol<'a>, t: Symbol<'a>)
    requires !(x is NonTerminal) ensures begins_av(ps, e, x, t) <==> t == x
{
    reveal(begins_av);
    if t == x { let p = seq![x]; assert(lpath(ps, e, p) && p[0] == x && p.last() == t); }
    if begins_av(ps, e, x, t) {
        let p = choose|p: Seq<Symbol<'a>>| #[trigger] lpath(ps, e, p) && p[0] == x && p.last() == t;
        if p.len() > 1 { assert(expands(ps, p[1 - 1], p[1])); }
    }
}
pub proof fn begins_none<'a>(ps: Seq<Production<'a>>, e: Set<Ident<'a>>, n: Ident<'a>, t: Symbol<'a>)
    requires e.contains(n) ensures !begins_av(ps, e, Symbol::NonTerminal(n), t)
{
    reveal(begins_av);
    if begins_av(ps, e, Symbol::NonTerminal(n), t) {
        let p = choose|p: Seq<Symbol<'a>>| #[trigger] lpath(ps, e, p) && p[0] == Symbol::NonTerminal(n) && p.last() == t;
        assert(avoids(e, p[0]));
    }
}
/// a path can be cut to one that does not come back to where it starts
proof fn cut<'a>(ps: Seq<Production<'a>>, e: Set<Ident<'a>>, n: Ident<'a>, p: Seq<Symbol<'a>>) -> (q: Seq<Symbol<'a>>)
    requires lpath(ps, e, p), p[0] == Symbol::NonTerminal(n), !(p.last() is NonTerminal)
    ensures q.len() > 1, q[0] == p[0], q.last() == p.last(), lpath(ps, e, q), lpath(ps, e.insert(n), q.skip(1))
    decreases p.len()
{
    if exists|k: int| 0 < k < p.len() && #[trigger] p[k] == p[0] {
        let k = choose|k: int| 0 < k < p.len() && #[trigger] p[k] == p[0];
        let s = p.skip(k);
        assert(lpath(ps, e, s)) by {
            assert forall|j: int| 0 < j < s.len() implies expands(ps, #[trigger] s[j - 1], s[j]) by { assert(s[j - 1] == p[k + j - 1]); assert(s[j] == p[k + j]); assert(expands(ps, p[k + j - 1], p[k + j])); }
            assert forall|j: int| 0 <= j < s.len() implies avoids(e, #[trigger] s[j]) by { assert(s[j] == p[k + j]); }
        }
        cut(ps, e, n, s)
    } else {
        let s = p.skip(1);
        assert(p.len() > 1);
        assert(s[0] == p[1]);
        assert forall|j: int| 0 < j < s.len() implies expands(ps, #[trigger] s[j - 1], s[j]) by { assert(s[j - 1] == p[j]); assert(s[j] == p[1 + j]); assert(expands(ps, p[1 + j - 1], p[1 + j])); }
        assert forall|j: int| 0 <= j < s.len() implies avoids(e.insert(n), #[trigger] s[j]) by { assert(s[j] == p[1 + j]); assert(avoids(e, p[1 + j])); assert(p[1 + j] != p[0]); }
        p
    }
}
/// the terminals found over the first `m` productions of `l`
#[verifier::opaque]
pub open spec fn ffound_upto<'a>(ps: Seq<Production<'a>>, e: Set<Ident<'a>>, l: Seq<ProductionIdx>, m: int, t: Symbol<'a>) -> bool {
    exists|k: int| 0 <= k < m && #[trigger] ffound_at(ps, e, l, k, t)
}
pub open spec fn ffound_at<'a>(ps: Seq<Production<'a>>, e: Set<Ident<'a>>, l: Seq<ProductionIdx>, k: int, t: Symbol<'a>) -> bool {
    0 <= k < l.len() && ps[l[k].0 as int].input_tokens@.len() > 0 && begins_av(ps, e, ps[l[k].0 as int].input_tokens@[0], t)
}
pub open spec fn sgrown<'a>(s: Set<&'a Symbol<'a>>, s0: Set<&'a Symbol<'a>>, f: spec_fn(Symbol<'a>) -> bool) -> bool { forall|t: Symbol<'a>| #[trigger] s.contains(&t) <==> s0.contains(&t) || f(t) }
pub proof fn ffound_0<'a>(ps: Seq<Production<'a>>, e: Set<Ident<'a>>, l: Seq<ProductionIdx>, s: Set<&'a Symbol<'a>>) ensures sgrown(s, s, |t: Symbol<'a>| ffound_upto(ps, e, l, 0, t)) { reveal(ffound_upto); }
pub proof fn ffound_step<'a>(ps: Seq<Production<'a>>, e: Set<Ident<'a>>, l: Seq<ProductionIdx>, m: int, s0: Set<&'a Symbol<'a>>, s: Set<&'a Symbol<'a>>, s2: Set<&'a Symbol<'a>>)
    requires 0 <= m < l.len(), sgrown(s, s0, |t: Symbol<'a>| ffound_upto(ps, e, l, m, t)),
        ps[l[m].0 as int].input_tokens@.len() > 0 ==> sgrown(s2, s, |t: Symbol<'a>| begins_av(ps, e, ps[l[m].0 as int].input_tokens@[0], t)),
        ps[l[m].0 as int].input_tokens@.len() == 0 ==> s2 == s
    ensures sgrown(s2, s0, |t: Symbol<'a>| ffound_upto(ps, e, l, m + 1, t))
{
    reveal(ffound_upto);
    assert forall|t: Symbol<'a>| #[trigger] s2.contains(&t) <==> s0.contains(&t) || ffound_upto(ps, e, l, m + 1, t) by {
        assert(s.contains(&t) <==> s0.contains(&t) || ffound_upto(ps, e, l, m, t));
        if ffound_at(ps, e, l, m, t) { assert(ffound_upto(ps, e, l, m + 1, t)); }
        if ffound_upto(ps, e, l, m, t) { let k = choose|k: int| 0 <= k < m && #[trigger] ffound_at(ps, e, l, k, t); assert(ffound_at(ps, e, l, k, t) && k < m + 1); }
        if ffound_upto(ps, e, l, m + 1, t) { let k = choose|k: int| 0 <= k < m + 1 && #[trigger] ffound_at(ps, e, l, k, t); if k < m { assert(ffound_upto(ps, e, l, m, t)); } }
    }
}
pub proof fn ffound_all<'a>(ps: Seq<Production<'a>>, e: Set<Ident<'a>>, n: Ident<'a>, l: Seq<ProductionIdx>, s0: Set<&'a Symbol<'a>>, s: Set<&'a Symbol<'a>>)
    requires !e.contains(n), idxs_of(l, ps, n), sgrown(s, s0, |t: Symbol<'a>| ffound_upto(ps, e.insert(n), l, l.len() as int, t))
    ensures sgrown(s, s0, |t: Symbol<'a>| begins_av(ps, e, Symbol::NonTerminal(n), t))
{
    let x = Symbol::NonTerminal(n);
    let e2 = e.insert(n);
    assert forall|t: Symbol<'a>| begins_av(ps, e, x, t) <==> #[trigger] ffound_upto(ps, e2, l, l.len() as int, t) by {
        reveal(begins_av);
        if begins_av(ps, e, x, t) {
            let p = choose|p: Seq<Symbol<'a>>| #[trigger] lpath(ps, e, p) && p[0] == x && p.last() == t;
            let q = cut(ps, e, n, p);
            assert(expands(ps, q[1 - 1], q[1]));
            let i = choose|i: int| #[trigger] expands_by(ps, x, q[1], i);
            assert(ps[i].name == n);
            let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).0 == i;
            let r = q.skip(1);
            assert(lpath(ps, e2, r) && r[0] == q[1] && r.last() == t);
            assert(ffound_at(ps, e2, l, k, t));
            reveal(ffound_upto);
        }
        if ffound_upto(ps, e2, l, l.len() as int, t) {
            reveal(ffound_upto);
            let k = choose|k: int| 0 <= k < l.len() && #[trigger] ffound_at(ps, e2, l, k, t);
            let i = l[k].0 as int;
            let y = ps[i].input_tokens@[0];
            let r = choose|p: Seq<Symbol<'a>>| #[trigger] lpath(ps, e2, p) && p[0] == y && p.last() == t;
            let q = seq![x] + r;
            assert(expands_by(ps, x, y, i));
            assert(lpath(ps, e, q)) by {
                assert forall|j: int| 0 < j < q.len() implies expands(ps, #[trigger] q[j - 1], q[j]) by { assert(q[j] == r[j - 1]); if j > 1 { assert(q[j - 1] == r[j - 2]); assert(expands(ps, r[j - 1 - 1], r[j - 1])); } }
                assert forall|j: int| 0 <= j < q.len() implies avoids(e, #[trigger] q[j]) by { if j > 0 { assert(q[j] == r[j - 1]); assert(avoids(e2, r[j - 1])); } }
            }
            assert(q[0] == x && q.last() == t);
        }
    }
}
pub open spec fn first_is<'a>(s: Set<&'a Symbol<'a>>, g: Grammar<'a>, x: Symbol<'a>) -> bool { forall|t: Symbol<'a>| #[trigger] s.contains(&t) <==> begins(g, x, t) }
pub proof fn sgrown_0<'a>(s: Set<&'a Symbol<'a>>, ps: Seq<Production<'a>>, x: Symbol<'a>)
    requires sgrown(s, Set::empty(), |t: Symbol<'a>| begins_av(ps, Set::empty(), x, t)) ensures forall|t: Symbol<'a>| #[trigger] s.contains(&t) <==> begins_av(ps, Set::empty(), x, t)
{ }
pub proof fn no_eps<'a>(g: Grammar<'a>, x: Symbol<'a>)
    requires closed_g(g), sym_ok(g, x) ensures !begins(g, x, Symbol::Epsilon)
{
    reveal(begins_av);
    let ps = g.productions@;
    if begins(g, x, Symbol::Epsilon) {
        let p = choose|p: Seq<Symbol<'a>>| #[trigger] lpath(ps, Set::empty(), p) && p[0] == x && p.last() == Symbol::<'a>::Epsilon;
        if p.len() > 1 {
            let k = p.len() - 1;
            assert(expands(ps, p[k - 1], p[k]));
            let i = choose|i: int| #[trigger] expands_by(ps, p[k - 1], p[k], i);
            symbols_ok(g, i, 0);
        }
    }
}
/// how many non-terminals are not in `e`
pub open spec fn left<'a>(g: Grammar<'a>, e: Set<Ident<'a>>) -> nat { g.production_name_map@.dom().difference(e).len() }
pub proof fn left_less<'a>(g: Grammar<'a>, e: Set<Ident<'a>>, n: Ident<'a>)
    requires gwf(g), has_prod(g.productions@, n), !e.contains(n) ensures left(g, e.insert(n)) < left(g, e)
{
    names_of(g, n);
    let d = g.production_name_map@.dom();
    btree_map_finite(g.production_name_map);
    assert(d.difference(e.insert(n)) =~= d.difference(e).remove(n));
}
pub proof fn symbols_ok<'a>(g: Grammar<'a>, i: int, j: int)
    requires closed_g(g), 0 <= i < g.productions@.len(), 0 <= j < g.productions@[i].input_tokens@.len() ensures sym_ok(g, g.productions@[i].input_tokens@[j])
{ assert(sym_at(g.productions@, i, j, g.productions@[i].input_tokens@[j])); assert(occurs(g.productions@, g.productions@[i].input_tokens@[j])); }

@module first = lalr/first.rs
@fn first_of_symbol
@attr #[verifier::rlimit(100)]
@spec
    requires gwf(*grammar), closed_g(*grammar), sym_ok(*grammar, *symbol),
    ensures !r, final(expanding)@ == old(expanding)@, sgrown(final(set)@, old(set)@, |t: Symbol<'ast>| begins_av(grammar.productions@, old(expanding)@, *symbol, t)),
    decreases left(*grammar, old(expanding)@),
@hint start
    let ghost ps = grammar.productions@;
    let ghost e = expanding@;
    let ghost s0 = set@;
    proof {
        assert forall|t: Symbol<'ast>| !(*symbol is NonTerminal) implies (begins_av(ps, e, *symbol, t) <==> t == *symbol) by { if !(*symbol is NonTerminal) { begins_term(ps, e, *symbol, t); } }
        if let Symbol::NonTerminal(n) = *symbol {
            if e.contains(n) { assert forall|t: Symbol<'ast>| !begins_av(ps, e, *symbol, t) by { begins_none(ps, e, n, t); } }
            else { left_less(*grammar, e, n); }
        }
    }
@hint before let added_epsilon 1
    let ghost n = *non_terminal;
    let ghost e2 = expanding@;
@hint loop 1 before
    let ghost l = choose|l: Seq<ProductionIdx>| #[trigger] idxs_of(l, ps, n) && l.len() > 0 && $s == prod_seq(l, ps, 0);
    proof { ffound_0(ps, e2, l, s0); }
@loop 1
    invariant $s == prod_seq(l, ps, 0), !added_epsilon, expanding@ == e2, sgrown(set@, s0, |t: Symbol<'ast>| ffound_upto(ps, e2, l, $i, t)),
    ensures $i == $s.len(),
@hint loop 1 start
    let ghost m = $i - 1;
    let ghost i = l[m].0 as int;
    let ghost s1 = set@;
    proof { assert(x1__.1 == &ps[i]); }
@loop 2
    invariant $s == refs::<Symbol>(ps[i].input_tokens@),
    invariant_except_break !added_epsilon, expanding@ == e2, $i == 0, set@ == s1,
    ensures !added_epsilon, expanding@ == e2, ps[i].input_tokens@.len() > 0 ==> sgrown(set@, s1, |t: Symbol<'ast>| begins_av(ps, e2, ps[i].input_tokens@[0], t)), ps[i].input_tokens@.len() == 0 ==> set@ == s1,
@hint loop 2 start
    proof { symbols_ok(*grammar, i, 0); }
@hint loop 1 end
    proof { ffound_step(ps, e2, l, m, s0, s1, set@); }
@hint loop 1 after
    proof { ffound_all(ps, e, n, l, s0, set@); }
@hint end
    proof { assert(expanding@ =~= e); }
@fn first
@spec
    requires gwf(*grammar), closed_g(*grammar), symbols.wf_it(), symbols.rem().len() > 0 ==> sym_ok(*grammar, *symbols.rem()[0]),
    ensures symbols.rem().len() > 0 ==> first_is(r@, *grammar, *symbols.rem()[0]), symbols.rem().len() == 0 ==> r@ == Set::<&'ast Symbol<'ast>>::empty().insert(&Symbol::<'ast>::Epsilon),
@loop 1
    invariant_except_break $i == 0, prev_has_epsilon, set@ == Set::<&'ast Symbol<'ast>>::empty(), expanding@ == Set::<Ident<'ast>>::empty(),
    ensures $s.len() == 0 ==> prev_has_epsilon && set@ == Set::<&'ast Symbol<'ast>>::empty(), $s.len() > 0 ==> !prev_has_epsilon && first_is(set@, *grammar, *$s[0]),
@hint after call first_of_symbol 1
    let ghost set1 = set@;
    proof { no_eps(*grammar, *$s[0]); sgrown_0(set1, grammar.productions@, *$s[0]); assert(set1.remove(&Symbol::<'ast>::Epsilon) =~= set1); }
