@module itemsp = -
@text
pub type Entry1 = (Item, TokenIdx);
/// the grammar `items` and what builds on it can work with
#[verifier::opaque]
pub open spec fn gctx<'a>(g: Grammar<'a>) -> bool {
    gwf(g) && closed_g(g) && forall|i: int| 0 <= i < g.productions@.len() ==> (#[trigger] g.productions@[i]).input_tokens@.len() < u32::MAX
}
pub proof fn gctx_of<'a>(g: Grammar<'a>) requires gctx(g) ensures gwf(g), closed_g(g) { reveal(gctx); }
pub open spec fn rhs<'a>(g: Grammar<'a>, i: Item) -> Seq<Symbol<'a>> { g.productions@[i.0.0 as int].input_tokens@ }
pub open spec fn item_ok<'a>(g: Grammar<'a>, i: Item) -> bool { i.0.0 < g.productions@.len() && i.1 <= rhs(g, i).len() && rhs(g, i).len() < u32::MAX }
pub open spec fn la_ok<'a>(g: Grammar<'a>, a: TokenIdx) -> bool { a.0 < g.tokens@.len() && !(g.tokens@[a.0 as int] is NonTerminal) }
pub open spec fn hasp(m: Map<Item, BTreeSet<TokenIdx>>, e: Entry1) -> bool { m.contains_key(e.0) && m[e.0]@.contains(e.1) }
/// an item set as the set of its items, one for each lookahead
pub open spec fn pairs(m: Map<Item, BTreeSet<TokenIdx>>) -> ISet<Entry1> { ISet::new(|e: Entry1| hasp(m, e)) }
pub open spec fn entry_ok<'a>(g: Grammar<'a>, e: Entry1) -> bool { item_ok(g, e.0) && la_ok(g, e.1) }
#[verifier::opaque]
pub open spec fn iset_ok<'a>(g: Grammar<'a>, m: Map<Item, BTreeSet<TokenIdx>>) -> bool {
    &&& forall|i: Item| #[trigger] m.contains_key(i) ==> item_ok(g, i) && exists|a: TokenIdx| #[trigger] m[i]@.contains(a)
    &&& forall|e: Entry1| #[trigger] hasp(m, e) ==> entry_ok(g, e)
}
/// what can follow the symbol after the dot: the next symbol, or the lookahead at the end
pub open spec fn follow<'a>(g: Grammar<'a>, i: Item, a: TokenIdx) -> Symbol<'a> { if i.1 + 1 < rhs(g, i).len() { rhs(g, i)[i.1 + 1] } else { g.tokens@[a.0 as int] } }
/// the LR(1) rule: [A -> x.By, a] requires [B -> .z, b] for b in FIRST(ya)
pub open spec fn lr1adds<'a>(g: Grammar<'a>, e: Entry1, f: Entry1) -> bool {
    &&& item_ok(g, e.0) && e.0.1 < rhs(g, e.0).len() && f.0.0.0 < g.productions@.len() && f.0.1 == 0
    &&& rhs(g, e.0)[e.0.1 as int] == Symbol::NonTerminal(g.productions@[f.0.0.0 as int].name)
    &&& f.1.0 < g.tokens@.len() && begins(g, follow(g, e.0, e.1), g.tokens@[f.1.0 as int])
}
pub open spec fn lr1path<'a>(g: Grammar<'a>, s: ISet<Entry1>, p: Seq<Entry1>) -> bool {
    p.len() > 0 && s.contains(p[0]) && forall|k: int| 0 < k < p.len() ==> lr1adds(g, #[trigger] p[k - 1], p[k])
}
#[verifier::opaque]
pub open spec fn lr1reach<'a>(g: Grammar<'a>, s: ISet<Entry1>, e: Entry1) -> bool { exists|p: Seq<Entry1>| #[trigger] lr1path(g, s, p) && p.last() == e }
/// the closure: what the rule requires, and nothing else
pub open spec fn closure_set<'a>(g: Grammar<'a>, s: ISet<Entry1>) -> ISet<Entry1> { ISet::new(|e: Entry1| lr1reach(g, s, e)) }
pub open spec fn inc(i: Item) -> Item { Item(i.0, (i.1 + 1) as u32) }
/// the items with the dot moved over `x`
pub open spec fn moved_over<'a>(g: Grammar<'a>, s: ISet<Entry1>, x: Symbol<'a>, f: Entry1) -> bool { exists|e: Entry1| #[trigger] moves(g, s, x, e, f) }
pub open spec fn moves<'a>(g: Grammar<'a>, s: ISet<Entry1>, x: Symbol<'a>, e: Entry1, f: Entry1) -> bool { s.contains(e) && e.0.1 < rhs(g, e.0).len() && rhs(g, e.0)[e.0.1 as int] == x && f == (inc(e.0), e.1) }
pub open spec fn kernel<'a>(g: Grammar<'a>, s: ISet<Entry1>, x: Symbol<'a>) -> ISet<Entry1> { ISet::new(|f: Entry1| moved_over(g, s, x, f)) }
/// C08
pub open spec fn goto_set<'a>(g: Grammar<'a>, s: ISet<Entry1>, x: Symbol<'a>) -> ISet<Entry1> { closure_set(g, kernel(g, s, x)) }

pub proof fn reach_base<'a>(g: Grammar<'a>, s: ISet<Entry1>, e: Entry1) requires s.contains(e) ensures lr1reach(g, s, e)
{ reveal(lr1reach); let p = seq![e]; assert(lr1path(g, s, p) && p.last() == e); }
pub proof fn reach_add<'a>(g: Grammar<'a>, s: ISet<Entry1>, e: Entry1, f: Entry1) requires lr1reach(g, s, e), lr1adds(g, e, f) ensures lr1reach(g, s, f)
{
    reveal(lr1reach);
    let p = choose|p: Seq<Entry1>| #[trigger] lr1path(g, s, p) && p.last() == e;
    let q = p.push(f);
    assert forall|k: int| 0 < k < q.len() implies lr1adds(g, #[trigger] q[k - 1], q[k]) by { if k < p.len() { assert(lr1adds(g, p[k - 1], p[k])); } }
    assert(lr1path(g, s, q) && q.last() == f);
}
pub open spec fn rule_closed<'a>(g: Grammar<'a>, t: ISet<Entry1>) -> bool { forall|e: Entry1, f: Entry1| t.contains(e) && #[trigger] lr1adds(g, e, f) ==> t.contains(f) }
proof fn reach_min_p<'a>(g: Grammar<'a>, s: ISet<Entry1>, t: ISet<Entry1>, p: Seq<Entry1>)
    requires lr1path(g, s, p), s.subset_of(t), rule_closed(g, t) ensures t.contains(p.last()) decreases p.len()
{
    if p.len() > 1 {
        let q = p.drop_last();
        assert(lr1path(g, s, q)) by { assert forall|k: int| 0 < k < q.len() implies lr1adds(g, #[trigger] q[k - 1], q[k]) by { assert(lr1adds(g, p[k - 1], p[k])); } }
        reach_min_p(g, s, t, q);
        let k = p.len() - 1;
        assert(lr1adds(g, p[k - 1], p[k]));
        assert(q.last() == p[k - 1]);
    }
}
pub proof fn reach_min<'a>(g: Grammar<'a>, s: ISet<Entry1>, t: ISet<Entry1>)
    requires s.subset_of(t), rule_closed(g, t) ensures closure_set(g, s).subset_of(t)
{
    reveal(lr1reach);
    assert forall|e: Entry1| closure_set(g, s).contains(e) implies t.contains(e) by {
        let p = choose|p: Seq<Entry1>| #[trigger] lr1path(g, s, p) && p.last() == e;
        reach_min_p(g, s, t, p);
    }
}
/// item sets with the same items and lookaheads are the same value
pub proof fn iset_ext<'a>(g: Grammar<'a>, a: ItemSet, b: ItemSet)
    requires iset_ok(g, a.0@), iset_ok(g, b.0@), pairs(a.0@) == pairs(b.0@) ensures a == b
{
    reveal(iset_ok);
    let m = a.0@;
    let n = b.0@;
    assert forall|e: Entry1| hasp(m, e) <==> hasp(n, e) by { assert(pairs(m).contains(e) <==> pairs(n).contains(e)); }
    assert forall|i: Item| m.contains_key(i) <==> n.contains_key(i) by {
        if m.contains_key(i) { let x = choose|x: TokenIdx| #[trigger] m[i]@.contains(x); assert(hasp(m, (i, x))); assert(hasp(n, (i, x))); }
        if n.contains_key(i) { let x = choose|x: TokenIdx| #[trigger] n[i]@.contains(x); assert(hasp(n, (i, x))); assert(hasp(m, (i, x))); }
    }
    assert forall|i: Item| m.contains_key(i) implies m[i] == n[i] by {
        assert forall|x: TokenIdx| m[i]@.contains(x) <==> n[i]@.contains(x) by { assert(hasp(m, (i, x)) <==> hasp(n, (i, x))); }
        assert(m[i]@ =~= n[i]@);
        btree_ext(m[i], n[i]);
    }
    assert(m =~= n);
    btree_map_ext(a.0, b.0);
}
// --- all there can be ---
pub open spec fn ulist(p: int, d: int, t: int, nd: int, nt: int) -> Seq<Entry1> decreases p, d, t {
    if p < 0 || d < 0 || t < 0 { Seq::empty() }
    else if t > 0 { ulist(p, d, t - 1, nd, nt).push((Item(ProductionIdx(p as u32), d as u32), TokenIdx((t - 1) as u32))) }
    else if d > 0 { ulist(p, d - 1, nt, nd, nt) }
    else if p > 0 { ulist(p - 1, nd, nt, nd, nt) }
    else { Seq::empty() }
}
proof fn ulist_has(p: int, d: int, t: int, nd: int, nt: int, e: Entry1)
    requires 0 <= p <= u32::MAX, 0 <= d <= nd, 0 <= t <= nt, nd <= u32::MAX, nt <= u32::MAX, e.0.1 <= nd, e.1.0 < nt,
        e.0.0.0 < p || e.0.0.0 == p && (e.0.1 < d || e.0.1 == d && e.1.0 < t)
    ensures exists|k: int| 0 <= k < ulist(p, d, t, nd, nt).len() && #[trigger] ulist(p, d, t, nd, nt)[k] == e
    decreases p, d, t
{
    let u = ulist(p, d, t, nd, nt);
    if t > 0 {
        if e.0.0.0 == p && e.0.1 == d && e.1.0 == t - 1 { assert(u[u.len() - 1] == e); }
        else {
            ulist_has(p, d, t - 1, nd, nt, e);
            let v = ulist(p, d, t - 1, nd, nt);
            let k = choose|k: int| 0 <= k < v.len() && #[trigger] v[k] == e;
            assert(u[k] == e);
        }
    } else if d > 0 { ulist_has(p, d - 1, nt, nd, nt, e); } else { ulist_has(p - 1, nd, nt, nd, nt, e); }
}
pub open spec fn maxlen<'a>(ps: Seq<Production<'a>>) -> int decreases ps.len() {
    if ps.len() == 0 { 0 } else { let m = maxlen(ps.drop_last()); let l = ps.last().input_tokens@.len() as int; if m >= l { m } else { l } }
}
proof fn maxlen_ge<'a>(ps: Seq<Production<'a>>, i: int) requires 0 <= i < ps.len() ensures ps[i].input_tokens@.len() <= maxlen(ps) decreases ps.len()
{ if i < ps.len() - 1 { maxlen_ge(ps.drop_last(), i); assert(ps.drop_last()[i] == ps[i]); } }
proof fn maxlen_le<'a>(ps: Seq<Production<'a>>) requires forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).input_tokens@.len() < u32::MAX ensures 0 <= maxlen(ps) <= u32::MAX decreases ps.len()
{ if ps.len() > 0 { assert forall|i: int| 0 <= i < ps.drop_last().len() implies (#[trigger] ps.drop_last()[i]).input_tokens@.len() < u32::MAX by { assert(ps.drop_last()[i] == ps[i]); } maxlen_le(ps.drop_last()); assert(ps[ps.len() - 1].input_tokens@.len() < u32::MAX); } }
/// every possible entry of an item set
pub open spec fn univ<'a>(g: Grammar<'a>) -> Seq<Entry1> { ulist(g.productions@.len() - 1, maxlen(g.productions@), g.tokens@.len() as int, maxlen(g.productions@), g.tokens@.len() as int) }
pub proof fn univ_has<'a>(g: Grammar<'a>, e: Entry1) requires gctx(g), entry_ok(g, e) ensures exists|k: int| 0 <= k < univ(g).len() && #[trigger] univ(g)[k] == e
{
    reveal(gctx); reveal(tokens_ok);
    maxlen_le(g.productions@); maxlen_ge(g.productions@, e.0.0.0 as int);
    let u = univ(g);
    assert(u == ulist(g.productions@.len() - 1, maxlen(g.productions@), g.tokens@.len() as int, maxlen(g.productions@), g.tokens@.len() as int));
    ulist_has(g.productions@.len() - 1, maxlen(g.productions@), g.tokens@.len() as int, maxlen(g.productions@), g.tokens@.len() as int, e);
}
pub open spec fn missing(s: ISet<Entry1>, u: Seq<Entry1>) -> nat decreases u.len() {
    if u.len() == 0 { 0 } else { missing(s, u.drop_last()) + (if s.contains(u.last()) { 0nat } else { 1nat }) }
}
pub proof fn missing_mono(s: ISet<Entry1>, t: ISet<Entry1>, u: Seq<Entry1>) requires s.subset_of(t) ensures missing(t, u) <= missing(s, u) decreases u.len()
{ if u.len() > 0 { missing_mono(s, t, u.drop_last()); } }
pub proof fn missing_less(s: ISet<Entry1>, t: ISet<Entry1>, u: Seq<Entry1>, k: int) requires s.subset_of(t), 0 <= k < u.len(), !s.contains(u[k]), t.contains(u[k]) ensures missing(t, u) < missing(s, u) decreases u.len()
{ if k < u.len() - 1 { missing_less(s, t, u.drop_last(), k); assert(u.drop_last()[k] == u[k]); } else { missing_mono(s, t, u.drop_last()); } }
// --- one round of the closure ---
#[verifier::opaque]
pub open spec fn sublist(a: Seq<Entry1>, b: Seq<Entry1>) -> bool { forall|e: Entry1| #[trigger] a.contains(e) ==> b.contains(e) }
#[verifier::opaque]
pub open spec fn tba_sound<'a>(g: Grammar<'a>, s: ISet<Entry1>, tba: Seq<Entry1>) -> bool { forall|k: int| 0 <= k < tba.len() ==> added_by(g, s, #[trigger] tba[k]) }
pub open spec fn added_by<'a>(g: Grammar<'a>, s: ISet<Entry1>, f: Entry1) -> bool { exists|e: Entry1| s.contains(e) && #[trigger] lr1adds(g, e, f) }
pub open spec fn done_la<'a>(g: Grammar<'a>, e: Entry1, jp: ProductionIdx, tba: Seq<Entry1>) -> bool { forall|b: TokenIdx| #[trigger] lr1adds(g, e, (Item(jp, 0), b)) ==> tba.contains((Item(jp, 0), b)) }
#[verifier::opaque]
pub open spec fn done4<'a>(g: Grammar<'a>, i: Item, las: Seq<&'a TokenIdx>, n: int, jp: ProductionIdx, tba: Seq<Entry1>) -> bool { forall|k: int| 0 <= k < n ==> done_la(g, (i, *#[trigger] las[k]), jp, tba) }
pub open spec fn done_jp<'a>(g: Grammar<'a>, s: ISet<Entry1>, i: Item, jp: ProductionIdx, tba: Seq<Entry1>) -> bool { forall|a: TokenIdx| s.contains((i, a)) ==> #[trigger] done_la(g, (i, a), jp, tba) }
#[verifier::opaque]
pub open spec fn done3<'a>(g: Grammar<'a>, s: ISet<Entry1>, i: Item, l: Seq<ProductionIdx>, n: int, tba: Seq<Entry1>) -> bool { forall|k: int| 0 <= k < n ==> done_jp(g, s, i, #[trigger] l[k], tba) }
pub open spec fn done_i<'a>(g: Grammar<'a>, s: ISet<Entry1>, i: Item, tba: Seq<Entry1>) -> bool { forall|jp: ProductionIdx| #[trigger] done_jp(g, s, i, jp, tba) }
#[verifier::opaque]
pub open spec fn done2<'a>(g: Grammar<'a>, s: ISet<Entry1>, keys: Seq<Item>, n: int, tba: Seq<Entry1>) -> bool { forall|k: int| 0 <= k < n ==> done_i(g, s, #[trigger] keys[k], tba) }
#[verifier::opaque]
pub open spec fn done5<'a>(g: Grammar<'a>, jp: ProductionIdx, ts: Seq<&'a Symbol<'a>>, n: int, tba: Seq<Entry1>) -> bool {
    forall|k: int, b: TokenIdx| 0 <= k < n && b.0 < g.tokens@.len() && g.tokens@[b.0 as int] == *#[trigger] ts[k] ==> #[trigger] tba.contains((Item(jp, 0), b))
}
pub proof fn sub_refl(a: Seq<Entry1>) ensures sublist(a, a) { reveal(sublist); }
pub proof fn sub_push(a: Seq<Entry1>, b: Seq<Entry1>, f: Entry1) requires sublist(a, b) ensures sublist(a, b.push(f)), sublist(b, b.push(f))
{
    reveal(sublist);
    let c = b.push(f);
    assert forall|e: Entry1| #[trigger] b.contains(e) implies c.contains(e) by { let k = choose|k: int| 0 <= k < b.len() && b[k] == e; assert(c[k] == e); }
}
pub proof fn sub_trans(a: Seq<Entry1>, b: Seq<Entry1>, c: Seq<Entry1>) requires sublist(a, b), sublist(b, c) ensures sublist(a, c) { reveal(sublist); }
pub proof fn sound_0<'a>(g: Grammar<'a>, s: ISet<Entry1>, tba: Seq<Entry1>) requires tba.len() == 0 ensures tba_sound(g, s, tba) { reveal(tba_sound); }
pub proof fn done_0<'a>(g: Grammar<'a>, s: ISet<Entry1>, tba: Seq<Entry1>)
    ensures forall|keys: Seq<Item>| #[trigger] done2(g, s, keys, 0, tba), forall|i: Item, l: Seq<ProductionIdx>| #[trigger] done3(g, s, i, l, 0, tba),
        forall|i: Item, las: Seq<&'a TokenIdx>, jp: ProductionIdx| #[trigger] done4(g, i, las, 0, jp, tba), forall|jp: ProductionIdx, ts: Seq<&'a Symbol<'a>>| #[trigger] done5(g, jp, ts, 0, tba)
{ reveal(done2); reveal(done3); reveal(done4); reveal(done5); }
pub proof fn done_la_mono<'a>(g: Grammar<'a>, e: Entry1, jp: ProductionIdx, a: Seq<Entry1>, b: Seq<Entry1>) requires sublist(a, b), done_la(g, e, jp, a) ensures done_la(g, e, jp, b) { reveal(sublist); }
pub proof fn done_jp_mono<'a>(g: Grammar<'a>, s: ISet<Entry1>, i: Item, jp: ProductionIdx, a: Seq<Entry1>, b: Seq<Entry1>) requires sublist(a, b), done_jp(g, s, i, jp, a) ensures done_jp(g, s, i, jp, b)
{ assert forall|x: TokenIdx| s.contains((i, x)) implies #[trigger] done_la(g, (i, x), jp, b) by { assert(done_la(g, (i, x), jp, a)); done_la_mono(g, (i, x), jp, a, b); } }
pub proof fn step5<'a>(g: Grammar<'a>, s: ISet<Entry1>, e: Entry1, jp: ProductionIdx, ts: Seq<&'a Symbol<'a>>, n: int, a: Seq<Entry1>, t: TokenIdx)
    requires gwf(g), 0 <= n < ts.len(), done5(g, jp, ts, n, a), token_found(Some(t), g.tokens@, *ts[n]), tba_sound(g, s, a), s.contains(e), lr1adds(g, e, (Item(jp, 0), t))
    ensures done5(g, jp, ts, n + 1, a.push((Item(jp, 0), t))), tba_sound(g, s, a.push((Item(jp, 0), t)))
{
    reveal(done5); reveal(tba_sound); reveal(sublist); reveal(tokens_ok);
    let f = (Item(jp, 0), t);
    let b = a.push(f);
    sub_refl(a); sub_push(a, a, f);
    assert forall|k: int, x: TokenIdx| 0 <= k < n + 1 && x.0 < g.tokens@.len() && g.tokens@[x.0 as int] == *#[trigger] ts[k] implies #[trigger] b.contains((Item(jp, 0), x)) by {
        if k < n { assert(a.contains((Item(jp, 0), x))); }
        else {
            if x.0 < t.0 { assert(g.tokens@[x.0 as int] != g.tokens@[t.0 as int]); }
            if t.0 < x.0 { assert(g.tokens@[t.0 as int] != g.tokens@[x.0 as int]); }
            assert(x == t); assert(b[a.len() as int] == f);
        }
    }
    assert forall|k: int| 0 <= k < b.len() implies added_by(g, s, #[trigger] b[k]) by { if k < a.len() { assert(b[k] == a[k]); } }
}
/// the terminals of FIRST are looked up one by one
pub proof fn step4<'a>(g: Grammar<'a>, e: Entry1, jp: ProductionIdx, las: Seq<&'a TokenIdx>, n: int, ts: Seq<&'a Symbol<'a>>, u: Set<&'a Symbol<'a>>, a0: Seq<Entry1>, a: Seq<Entry1>)
    requires 0 <= n < las.len(), done4(g, e.0, las, n, jp, a0), sublist(a0, a), *las[n] == e.1, done5(g, jp, ts, ts.len() as int, a), enumerates(ts, u), first_is(u, g, follow(g, e.0, e.1))
    ensures done4(g, e.0, las, n + 1, jp, a)
{
    reveal(done4); reveal(done5);
    assert forall|k: int| 0 <= k < n + 1 implies done_la(g, (e.0, *#[trigger] las[k]), jp, a) by {
        if k < n { done_la_mono(g, (e.0, *las[k]), jp, a0, a); }
        else {
            assert forall|b: TokenIdx| #[trigger] lr1adds(g, e, (Item(jp, 0), b)) implies a.contains((Item(jp, 0), b)) by {
                let t = g.tokens@[b.0 as int];
                assert(u.contains(&t));
                let q = choose|q: int| 0 <= q < ts.len() && ts[q] == &t;
                assert(*ts[q] == t);
            }
        }
    }
}
pub proof fn step3<'a>(g: Grammar<'a>, s: ISet<Entry1>, i: Item, l: Seq<ProductionIdx>, n: int, las: Seq<&'a TokenIdx>, x: Set<TokenIdx>, a0: Seq<Entry1>, a: Seq<Entry1>)
    requires 0 <= n < l.len(), done3(g, s, i, l, n, a0), sublist(a0, a), done4(g, i, las, las.len() as int, l[n], a), enum_refs(las, x), forall|b: TokenIdx| s.contains((i, b)) ==> #[trigger] x.contains(b)
    ensures done3(g, s, i, l, n + 1, a)
{
    reveal(done3); reveal(done4);
    assert forall|k: int| 0 <= k < n + 1 implies done_jp(g, s, i, #[trigger] l[k], a) by {
        if k < n { done_jp_mono(g, s, i, l[k], a0, a); }
        else {
            assert forall|b: TokenIdx| s.contains((i, b)) implies #[trigger] done_la(g, (i, b), l[n], a) by {
                assert(x.contains(b));
                let q = choose|q: int| 0 <= q < las.len() && *#[trigger] las[q] == b;
                assert(done_la(g, (i, *las[q]), l[n], a));
            }
        }
    }
}
/// every production of the symbol after the dot has been looked at
pub proof fn step2<'a>(g: Grammar<'a>, s: ISet<Entry1>, keys: Seq<Item>, n: int, nm: Ident<'a>, l: Seq<ProductionIdx>, a0: Seq<Entry1>, a: Seq<Entry1>)
    requires 0 <= n < keys.len(), done2(g, s, keys, n, a0), sublist(a0, a), idxs_of(l, g.productions@, nm), done3(g, s, keys[n], l, l.len() as int, a),
        item_ok(g, keys[n]), keys[n].1 < rhs(g, keys[n]).len(), rhs(g, keys[n])[keys[n].1 as int] == Symbol::NonTerminal(nm)
    ensures done2(g, s, keys, n + 1, a)
{
    reveal(done2); reveal(done3);
    let i = keys[n];
    assert forall|k: int| 0 <= k < n + 1 implies done_i(g, s, #[trigger] keys[k], a) by {
        assert forall|jp: ProductionIdx| #[trigger] done_jp(g, s, keys[k], jp, a) by {
            if k < n { assert(done_jp(g, s, keys[k], jp, a0)); done_jp_mono(g, s, keys[k], jp, a0, a); }
            else {
                assert forall|x: TokenIdx| s.contains((i, x)) implies #[trigger] done_la(g, (i, x), jp, a) by {
                    if jp.0 < g.productions@.len() && g.productions@[jp.0 as int].name == nm {
                        assert(listed(l, jp.0 as int));
                        let q = choose|q: int| 0 <= q < l.len() && (#[trigger] l[q]).0 == jp.0;
                        assert(l[q] == jp);
                        assert(done_jp(g, s, i, l[q], a));
                    }
                }
            }
        }
    }
}
/// nothing to look at
pub proof fn skip2<'a>(g: Grammar<'a>, s: ISet<Entry1>, keys: Seq<Item>, n: int, a: Seq<Entry1>)
    requires 0 <= n < keys.len(), done2(g, s, keys, n, a), item_ok(g, keys[n]), keys[n].1 < rhs(g, keys[n]).len() ==> !(rhs(g, keys[n])[keys[n].1 as int] is NonTerminal)
    ensures done2(g, s, keys, n + 1, a)
{
    reveal(done2);
    assert forall|k: int| 0 <= k < n + 1 implies done_i(g, s, #[trigger] keys[k], a) by { if k == n { assert forall|jp: ProductionIdx| #[trigger] done_jp(g, s, keys[k], jp, a) by {} } }
}
pub open spec fn between<'a>(g: Grammar<'a>, s0: ISet<Entry1>, t: ISet<Entry1>) -> bool { s0.subset_of(t) && t.subset_of(closure_set(g, s0)) }
pub proof fn between_0<'a>(g: Grammar<'a>, s0: ISet<Entry1>) ensures between(g, s0, s0) { assert forall|e: Entry1| s0.contains(e) implies closure_set(g, s0).contains(e) by { reach_base(g, s0, e); } }
/// what is in the list may be added
pub proof fn sound_in<'a>(g: Grammar<'a>, s0: ISet<Entry1>, s: ISet<Entry1>, tba: Seq<Entry1>, k: int)
    requires gctx(g), between(g, s0, s), tba_sound(g, s, tba), 0 <= k < tba.len() ensures closure_set(g, s0).contains(tba[k]), entry_ok(g, tba[k])
{
    reveal(tba_sound); reveal(gctx);
    let e = choose|e: Entry1| s.contains(e) && #[trigger] lr1adds(g, e, tba[k]);
    assert(closure_set(g, s0).contains(e));
    reach_add(g, s0, e, tba[k]);
    reveal(begins_av);
}
/// all there is to add is there
pub proof fn finished<'a>(g: Grammar<'a>, s0: ISet<Entry1>, m: Map<Item, BTreeSet<TokenIdx>>, keys: Seq<Item>, tba: Seq<Entry1>)
    requires between(g, s0, pairs(m)), done2(g, pairs(m), keys, keys.len() as int, tba), enumerates(keys, m.dom()), forall|k: int| 0 <= k < tba.len() ==> pairs(m).contains(#[trigger] tba[k])
    ensures pairs(m) == closure_set(g, s0)
{
    reveal(done2);
    let s = pairs(m);
    assert forall|e: Entry1, f: Entry1| s.contains(e) && #[trigger] lr1adds(g, e, f) implies s.contains(f) by {
        assert(m.dom().contains(e.0));
        let k = choose|k: int| 0 <= k < keys.len() && keys[k] == e.0;
        assert(done_i(g, s, keys[k], tba));
        assert(done_jp(g, s, e.0, f.0.0, tba));
        assert(s.contains((e.0, e.1)));
        assert(done_la(g, (e.0, e.1), f.0.0, tba));
        assert(f == (Item(f.0.0, 0), f.1));
        assert(tba.contains(f));
    }
    reach_min(g, s0, s);
    assert(s =~= closure_set(g, s0));
}
/// the round has looked at every entry
pub open spec fn done_all<'a>(g: Grammar<'a>, m: Map<Item, BTreeSet<TokenIdx>>, tba: Seq<Entry1>) -> bool { exists|keys: Seq<Item>| #[trigger] enumerates(keys, m.dom()) && done2(g, pairs(m), keys, keys.len() as int, tba) }
pub open spec fn all_in(tba: Seq<Entry1>, n: int, s: ISet<Entry1>) -> bool { forall|k: int| 0 <= k < n ==> s.contains(#[trigger] tba[k]) }
pub proof fn finished_all<'a>(g: Grammar<'a>, s0: ISet<Entry1>, m: Map<Item, BTreeSet<TokenIdx>>, tba: Seq<Entry1>)
    requires between(g, s0, pairs(m)), done_all(g, m, tba), all_in(tba, tba.len() as int, pairs(m)) ensures pairs(m) == closure_set(g, s0)
{ let keys = choose|keys: Seq<Item>| #[trigger] enumerates(keys, m.dom()) && done2(g, pairs(m), keys, keys.len() as int, tba); finished(g, s0, m, keys, tba); }
pub proof fn put_one<'a>(g: Grammar<'a>, s0: ISet<Entry1>, m: Map<Item, BTreeSet<TokenIdx>>, m2: Map<Item, BTreeSet<TokenIdx>>, e: Entry1, tba: Seq<Entry1>, n: int)
    requires gctx(g), iset_ok(g, m), entry_ok(g, e), between(g, s0, pairs(m)), closure_set(g, s0).contains(e), m2 =~= m.insert(e.0, m2[e.0]), forall|x: TokenIdx| #[trigger] m2[e.0]@.contains(x) <==> x == e.1 || hasp(m, (e.0, x)),
        0 <= n < tba.len(), tba[n] == e, all_in(tba, n, pairs(m))
    ensures iset_ok(g, m2), between(g, s0, pairs(m2)), all_in(tba, n + 1, pairs(m2)), hasp(m, e) ==> pairs(m2) == pairs(m), !hasp(m, e) ==> missing(pairs(m2), univ(g)) < missing(pairs(m), univ(g)), missing(pairs(m2), univ(g)) <= missing(pairs(m), univ(g))
{
    put_pair(g, m, e, m2[e.0]);
    univ_has(g, e);
    let u = univ(g);
    let k = choose|k: int| 0 <= k < u.len() && #[trigger] u[k] == e;
    missing_mono(pairs(m), pairs(m2), u);
    if hasp(m, e) { assert(pairs(m2) =~= pairs(m)); } else { missing_less(pairs(m), pairs(m2), u, k); }
}
pub proof fn first_found<'a>(g: Grammar<'a>, e: Entry1, ts: Seq<&'a Symbol<'a>>, u: Set<&'a Symbol<'a>>, k: int)
    requires enumerates(ts, u), first_is(u, g, follow(g, e.0, e.1)), 0 <= k < ts.len() ensures begins(g, follow(g, e.0, e.1), *ts[k])
{ assert(u.contains(ts[k])); }
// --- moving the dot ---
pub open spec fn kern_at<'a>(g: Grammar<'a>, s: Seq<(&'a Item, &'a BTreeSet<TokenIdx>)>, k: int, x: Symbol<'a>, f: Entry1) -> bool {
    0 <= k < s.len() && s[k].0.1 < rhs(g, *s[k].0).len() && rhs(g, *s[k].0)[s[k].0.1 as int] == x && f.0 == inc(*s[k].0) && s[k].1@.contains(f.1)
}
pub open spec fn kern_upto<'a>(g: Grammar<'a>, s: Seq<(&'a Item, &'a BTreeSet<TokenIdx>)>, n: int, x: Symbol<'a>, f: Entry1) -> bool { exists|k: int| 0 <= k < n && #[trigger] kern_at(g, s, k, x, f) }
#[verifier::opaque]
pub open spec fn kerns<'a>(g: Grammar<'a>, s: Seq<(&'a Item, &'a BTreeSet<TokenIdx>)>, n: int, x: Symbol<'a>, j: Map<Item, BTreeSet<TokenIdx>>) -> bool { forall|f: Entry1| #[trigger] hasp(j, f) <==> kern_upto(g, s, n, x, f) }
pub open spec fn in_refs<'a>(l: Seq<&'a TokenIdx>, n: int, a: TokenIdx) -> bool { exists|q: int| 0 <= q < n && *#[trigger] l[q] == a }
#[verifier::opaque]
pub open spec fn kern_las<'a>(j: Map<Item, BTreeSet<TokenIdx>>, j0: Map<Item, BTreeSet<TokenIdx>>, i: Item, l: Seq<&'a TokenIdx>, n: int) -> bool { forall|f: Entry1| #[trigger] hasp(j, f) <==> hasp(j0, f) || f.0 == i && in_refs(l, n, f.1) }
pub proof fn kern_0<'a>(g: Grammar<'a>, s: Seq<(&'a Item, &'a BTreeSet<TokenIdx>)>, x: Symbol<'a>, j: Map<Item, BTreeSet<TokenIdx>>) requires j == Map::<Item, BTreeSet<TokenIdx>>::empty() ensures kerns(g, s, 0, x, j), iset_ok(g, j) { reveal(kerns); reveal(iset_ok); }
pub proof fn kern_las_0<'a>(j: Map<Item, BTreeSet<TokenIdx>>, i: Item, l: Seq<&'a TokenIdx>) ensures kern_las(j, j, i, l, 0) { reveal(kern_las); }
pub proof fn kern_las_step<'a>(g: Grammar<'a>, j: Map<Item, BTreeSet<TokenIdx>>, j0: Map<Item, BTreeSet<TokenIdx>>, i: Item, l: Seq<&'a TokenIdx>, n: int, j2: Map<Item, BTreeSet<TokenIdx>>)
    requires iset_ok(g, j), kern_las(j, j0, i, l, n), 0 <= n < l.len(), entry_ok(g, (i, *l[n])), j2 =~= j.insert(i, j2[i]), forall|x: TokenIdx| #[trigger] j2[i]@.contains(x) <==> x == *l[n] || hasp(j, (i, x))
    ensures kern_las(j2, j0, i, l, n + 1), iset_ok(g, j2)
{
    reveal(kern_las);
    let e = (i, *l[n]);
    put_pair(g, j, e, j2[i]);
    assert forall|f: Entry1| #[trigger] hasp(j2, f) <==> hasp(j0, f) || f.0 == i && in_refs(l, n + 1, f.1) by {
        assert(pairs(j2).contains(f) <==> pairs(j).insert(e).contains(f));
        assert(hasp(j, f) <==> hasp(j0, f) || f.0 == i && in_refs(l, n, f.1));
        if f == e { assert(*l[n] == f.1); }
        if in_refs(l, n, f.1) { let q = choose|q: int| 0 <= q < n && *#[trigger] l[q] == f.1; assert(*l[q] == f.1 && q < n + 1); }
        if in_refs(l, n + 1, f.1) { let q = choose|q: int| 0 <= q < n + 1 && *#[trigger] l[q] == f.1; if q < n { assert(in_refs(l, n, f.1)); } }
    }
}
pub proof fn kern_step<'a>(g: Grammar<'a>, s: Seq<(&'a Item, &'a BTreeSet<TokenIdx>)>, n: int, x: Symbol<'a>, j: Map<Item, BTreeSet<TokenIdx>>, l: Seq<&'a TokenIdx>, j2: Map<Item, BTreeSet<TokenIdx>>)
    requires kerns(g, s, n, x, j), 0 <= n < s.len(), s[n].0.1 < rhs(g, *s[n].0).len(), rhs(g, *s[n].0)[s[n].0.1 as int] == x, enum_refs(l, s[n].1@), kern_las(j2, j, inc(*s[n].0), l, l.len() as int)
    ensures kerns(g, s, n + 1, x, j2)
{
    reveal(kerns); reveal(kern_las);
    assert forall|f: Entry1| #[trigger] hasp(j2, f) <==> kern_upto(g, s, n + 1, x, f) by {
        assert(hasp(j, f) <==> kern_upto(g, s, n, x, f));
        if kern_upto(g, s, n, x, f) { let k = choose|k: int| 0 <= k < n && #[trigger] kern_at(g, s, k, x, f); assert(kern_at(g, s, k, x, f) && k < n + 1); }
        if f.0 == inc(*s[n].0) && in_refs(l, l.len() as int, f.1) { let q = choose|q: int| 0 <= q < l.len() && *#[trigger] l[q] == f.1; assert(s[n].1@.contains(*l[q])); assert(kern_at(g, s, n, x, f)); }
        if kern_upto(g, s, n + 1, x, f) {
            let k = choose|k: int| 0 <= k < n + 1 && #[trigger] kern_at(g, s, k, x, f);
            if k < n { assert(kern_upto(g, s, n, x, f)); } else { assert(s[n].1@.contains(f.1)); let q = choose|q: int| 0 <= q < l.len() && *#[trigger] l[q] == f.1; assert(in_refs(l, l.len() as int, f.1)); }
        }
    }
}
pub proof fn kern_skip<'a>(g: Grammar<'a>, s: Seq<(&'a Item, &'a BTreeSet<TokenIdx>)>, n: int, x: Symbol<'a>, j: Map<Item, BTreeSet<TokenIdx>>)
    requires kerns(g, s, n, x, j), 0 <= n < s.len(), !(s[n].0.1 < rhs(g, *s[n].0).len() && rhs(g, *s[n].0)[s[n].0.1 as int] == x) ensures kerns(g, s, n + 1, x, j)
{
    reveal(kerns);
    assert forall|f: Entry1| #[trigger] hasp(j, f) <==> kern_upto(g, s, n + 1, x, f) by {
        assert(hasp(j, f) <==> kern_upto(g, s, n, x, f));
        if kern_upto(g, s, n, x, f) { let k = choose|k: int| 0 <= k < n && #[trigger] kern_at(g, s, k, x, f); assert(kern_at(g, s, k, x, f) && k < n + 1); }
        if kern_upto(g, s, n + 1, x, f) { let k = choose|k: int| 0 <= k < n + 1 && #[trigger] kern_at(g, s, k, x, f); if k < n { assert(kern_upto(g, s, n, x, f)); } }
    }
}
pub proof fn kern_done<'a>(g: Grammar<'a>, s: Seq<(&'a Item, &'a BTreeSet<TokenIdx>)>, m: Map<Item, BTreeSet<TokenIdx>>, x: Symbol<'a>, j: Map<Item, BTreeSet<TokenIdx>>)
    requires kerns(g, s, s.len() as int, x, j), map_refs(s, m) ensures pairs(j) == kernel(g, pairs(m), x)
{
    reveal(kerns);
    assert forall|f: Entry1| pairs(j).contains(f) <==> kernel(g, pairs(m), x).contains(f) by {
        assert(hasp(j, f) <==> kern_upto(g, s, s.len() as int, x, f));
        if kern_upto(g, s, s.len() as int, x, f) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] kern_at(g, s, k, x, f); let i = *s[k].0; assert(m.contains_key(i)); assert(moves(g, pairs(m), x, (i, f.1), f)); }
        if moved_over(g, pairs(m), x, f) {
            let e = choose|e: Entry1| #[trigger] moves(g, pairs(m), x, e, f);
            assert(m.contains_key(e.0));
            let k = choose|k: int| 0 <= k < s.len() && *(#[trigger] s[k]).0 == e.0;
            assert(kern_at(g, s, k, x, f));
        }
    }
    assert(pairs(j) =~= kernel(g, pairs(m), x));
}
pub proof fn put_pair<'a>(g: Grammar<'a>, m: Map<Item, BTreeSet<TokenIdx>>, e: Entry1, v: BTreeSet<TokenIdx>)
    requires forall|x: TokenIdx| #[trigger] v@.contains(x) <==> x == e.1 || hasp(m, (e.0, x))
    ensures pairs(m.insert(e.0, v)) == pairs(m).insert(e), iset_ok(g, m) && entry_ok(g, e) ==> iset_ok(g, m.insert(e.0, v))
{
    reveal(iset_ok);
    let n = m.insert(e.0, v);
    assert forall|f: Entry1| pairs(n).contains(f) <==> pairs(m).insert(e).contains(f) by { if f.0 == e.0 { assert(f == (e.0, f.1)); assert(v@.contains(f.1) <==> f.1 == e.1 || hasp(m, (e.0, f.1))); } }
    assert(pairs(n) =~= pairs(m).insert(e));
    if iset_ok(g, m) && entry_ok(g, e) {
        assert forall|i: Item| #[trigger] n.contains_key(i) implies item_ok(g, i) && exists|a: TokenIdx| #[trigger] n[i]@.contains(a) by { if i == e.0 { assert(n[i]@.contains(e.1)); } else { assert(m.contains_key(i)); assert(n[i] == m[i]); } }
        assert forall|f: Entry1| #[trigger] hasp(n, f) implies entry_ok(g, f) by { assert(pairs(n).contains(f)); assert(pairs(m).insert(e).contains(f)); if f != e { assert(hasp(m, f)); } }
    }
}
pub proof fn iset_key<'a>(g: Grammar<'a>, m: Map<Item, BTreeSet<TokenIdx>>, i: Item) requires iset_ok(g, m), m.contains_key(i) ensures item_ok(g, i), exists|a: TokenIdx| #[trigger] m[i]@.contains(a) { reveal(iset_ok); }
pub proof fn iset_la<'a>(g: Grammar<'a>, m: Map<Item, BTreeSet<TokenIdx>>, e: Entry1) requires iset_ok(g, m), hasp(m, e) ensures item_ok(g, e.0), la_ok(g, e.1) { reveal(iset_ok); }
/// what follows is a symbol FIRST can be asked about, and its terminals are known
pub proof fn follow_ok<'a>(g: Grammar<'a>, e: Entry1)
    requires gctx(g), entry_ok(g, e) ensures sym_ok(g, follow(g, e.0, e.1)), forall|t: Symbol<'a>| #[trigger] begins(g, follow(g, e.0, e.1), t) ==> sym_in(g.tokens@, t)
{
    reveal(gctx); reveal(tokens_ok);
    let x = follow(g, e.0, e.1);
    let p = e.0.0.0 as int;
    if e.0.1 + 1 < rhs(g, e.0).len() {
        symbols_ok(g, p, e.0.1 + 1);
        assert(sym_at(g.productions@, p, e.0.1 + 1, x)); assert(occurs(g.productions@, x));
    } else {
        assert(g.tokens@[e.1.0 as int] == x);
        if e.1.0 > 0 { assert(occurs(g.productions@, g.tokens@[e.1.0 as int])); }
    }
    assert forall|t: Symbol<'a>| #[trigger] begins(g, x, t) implies sym_in(g.tokens@, t) by {
        reveal(begins_av);
        let ps = g.productions@;
        let q = choose|q: Seq<Symbol<'a>>| #[trigger] lpath(ps, Set::empty(), q) && q[0] == x && q.last() == t;
        if q.len() > 1 {
            let k = q.len() - 1;
            assert(expands(ps, q[k - 1], q[k]));
            let i = choose|i: int| #[trigger] expands_by(ps, q[k - 1], q[k], i);
            assert(sym_at(ps, i, 0, t)); assert(occurs(ps, t));
        } else { assert(sym_in(g.tokens@, x)); }
    }
}
pub proof fn dot_name_ok<'a>(g: Grammar<'a>, i: Item, n: Ident<'a>)
    requires gctx(g), item_ok(g, i), i.1 < rhs(g, i).len(), rhs(g, i)[i.1 as int] == Symbol::NonTerminal(n) ensures has_prod(g.productions@, n)
{ reveal(gctx); symbols_ok(g, i.0.0 as int, i.1 as int); }

@module item = lalr/item.rs
@item Item
@item ItemSet noclone
@text
impl Clone for ItemSet { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
@item ItemIter
@impl impl<'ast> VIterator for ItemIter<'ast>
@text
    type Item = &'ast Symbol<'ast>;
    open spec fn rem(&self) -> Seq<&'ast Symbol<'ast>> {
        if self.item.0.0 < self.grammar.productions@.len() && self.item.1 <= rhs(*self.grammar, self.item).len() { refs::<Symbol>(rhs(*self.grammar, self.item).skip(self.item.1 as int)) } else { Seq::empty() }
    }
    open spec fn wf_it(&self) -> bool { item_ok(*self.grammar, self.item) }
@fn <Iterator for ItemIter>::next
@trait
@hint end
    proof { if old(self).rem().len() > 0 { assert(self.rem() =~= old(self).rem().skip(1)); } }
@endimpl
@fn Item::production_idx
@spec
    ensures r == self.0,
@fn Item::dot
@spec
    ensures r == self.1,
@fn Item::increment
@spec
    requires self.1 < u32::MAX,
    ensures r == inc(self),
@fn Item::production
@spec
    requires self.0.0 < grammar.productions@.len(),
    ensures *r == grammar.productions@[self.0.0 as int],
@fn Item::dot_token
@spec
    requires self.0.0 < grammar.productions@.len(),
    ensures match r { Some(x) => self.1 < rhs(*grammar, self).len() && *x == rhs(*grammar, self)[self.1 as int], None => self.1 >= rhs(*grammar, self).len() },
@fn Item::last_token
@spec
    requires self.0.0 < grammar.productions@.len(), rhs(*grammar, self).len() > 0,
    ensures *r == rhs(*grammar, self).last(),
@fn Item::dot_production_name
@spec
    requires self.0.0 < grammar.productions@.len(),
    ensures match r { Some(n) => self.1 < rhs(*grammar, self).len() && rhs(*grammar, self)[self.1 as int] == Symbol::NonTerminal(n), None => self.1 >= rhs(*grammar, self).len() || !(rhs(*grammar, self)[self.1 as int] is NonTerminal) },
@fn Item::iter
@spec
    ensures r.item == self, *r.grammar == *grammar,
@fn ItemSet::iter
@spec
    ensures map_refs(r.rem(), self.0@),
@fn ItemSet::initial
@spec
    ensures pairs(r.0@) == ISet::<Entry1>::empty().insert((Item(ProductionIdx(0), 0), TokenIdx(0))), r.0@.dom() == Set::<Item>::empty().insert(Item(ProductionIdx(0), 0)),
@fn ItemSet::closure
@attr #[verifier::rlimit(200)]
@loopkind 2 mapmut
@spec
    requires gctx(*grammar), iset_ok(*grammar, old(self).0@),
    ensures iset_ok(*grammar, final(self).0@), pairs(final(self).0@) == closure_set(*grammar, pairs(old(self).0@)),
@hint start
    let ghost g = *grammar;
    let ghost s0 = pairs(self.0@);
    let ghost u = univ(g);
    proof { between_0(g, s0); gctx_of(g); }
@loop 1
    invariant iset_ok(g, self.0@), between(g, s0, pairs(self.0@)), to_be_added@.len() == 0,
    ensures iset_ok(g, self.0@), pairs(self.0@) == closure_set(g, s0),
    decreases missing(pairs(self.0@), u),
@hint loop 1 start
    let ghost m = self.0@;
    let ghost s = pairs(m);
    proof { done_0(g, s, to_be_added@); sound_0(g, s, to_be_added@); }
@loop 2
    invariant self.0@ == m, enumerates($s, m.dom()), tba_sound(g, s, to_be_added@), done2(g, s, $s, $i, to_be_added@),
@hint loop 2 start
    let ghost t2 = to_be_added@;
    proof { assert(m.dom().contains($s[$i - 1])); iset_key(g, m, *item); sub_refl(t2); assert(item_ok(g, *item)); done_0(g, s, t2);
        if item.1 < rhs(g, *item).len() { if let Symbol::NonTerminal(n) = rhs(g, *item)[item.1 as int] { dot_name_ok(g, *item, n); } }
    }
@hint loop 2 end
    proof {
        assert(self.0@ =~= m);
        if !(item.1 < rhs(g, *item).len() && rhs(g, *item)[item.1 as int] is NonTerminal) { skip2(g, s, $s, $i - 1, to_be_added@); }
    }
@hint loop 2 after
    proof { assert(enumerates($s, m.dom()) && done2(g, s, $s, $s.len() as int, to_be_added@)); assert(done_all(g, m, to_be_added@)); }
@hint loop 3 before
    let ghost nm = production_name;
    let ghost ii = *item;
    let ghost l = choose|l: Seq<ProductionIdx>| #[trigger] idxs_of(l, g.productions@, nm) && l.len() > 0 && $s == prod_seq(l, g.productions@, 0);
@loop 3
    invariant $s == prod_seq(l, g.productions@, 0), tba_sound(g, s, to_be_added@), done3(g, s, ii, l, $i, to_be_added@), sublist(t2, to_be_added@),
@hint loop 3 start
    let ghost t3 = to_be_added@;
    let ghost jp = l[$i - 1];
    proof { sub_refl(t3); done_0(g, s, t3); assert(prod_idx == jp); }
@loop 4
    invariant enum_refs($s, m[ii]@), tba_sound(g, s, to_be_added@), done4(g, ii, $s, $i, jp, to_be_added@), sublist(t2, to_be_added@), sublist(t3, to_be_added@),
@hint loop 4 start
    let ghost t4 = to_be_added@;
    let ghost ee = (ii, *lookahead);
    proof { assert(hasp(m, ee)); iset_la(g, m, ee); sub_refl(t4); done_0(g, s, t4); follow_ok(g, ee); }
@loop 5
    invariant tba_sound(g, s, to_be_added@), done5(g, jp, $s, $i, to_be_added@), sublist(t2, to_be_added@), sublist(t3, to_be_added@), sublist(t4, to_be_added@),
@hint after let u3b2_u1d44e_ 1
    proof { assert(*u3b2_u1d44e_.rem()[0] == follow(g, ii, *lookahead)); }
@hint loop 5 before
    let ghost uu = choose|u: Set<&Symbol>| #[trigger] enumerates($s, u) && first_is(u, g, follow(g, ii, *lookahead));
    proof { assert(enumerates($s, uu) && first_is(uu, g, follow(g, ii, *lookahead))); }
@hint loop 5 start
    let ghost t5 = to_be_added@;
    proof { first_found(g, ee, $s, uu, $i - 1); }
@hint loop 5 end
    proof {
        let f = (Item(jp, 0), token_idx);
        assert(g.productions@[l[$i3 - 1].0 as int].name == nm);
        assert(lr1adds(g, ee, f));
        assert(to_be_added@ == t5.push(f));
        step5(g, s, ee, jp, $s, $i - 1, t5, token_idx);
        sub_push(t2, t5, f); sub_push(t3, t5, f); sub_push(t4, t5, f);
    }
@hint loop 5 after
    proof { step4(g, ee, jp, $s4, $i4 - 1, $s, uu, t4, to_be_added@); }
@hint loop 4 after
    proof { step3(g, s, ii, l, $i3 - 1, $s, m[ii]@, t3, to_be_added@); }
@hint loop 3 after
    proof { step2(g, s, $s2, $i2 - 1, nm, l, t2, to_be_added@); }
@hint loop 6 before
    let ghost tb = to_be_added@;
@loop 6
    invariant $s == refs::<Entry1>(tb), iset_ok(g, self.0@), between(g, s0, pairs(self.0@)), all_in(tb, $i, pairs(self.0@)), !added ==> pairs(self.0@) == s, missing(pairs(self.0@), u) <= missing(s, u), added ==> missing(pairs(self.0@), u) < missing(s, u),
@hint loop 6 start
    let ghost m6 = self.0@;
    let ghost e = tb[$i - 1];
    proof { sound_in(g, s0, s, tb, $i - 1); }
@hint loop 6 end
    proof {
        assert(e == (*item, *token_idx));
        assert(self.0@ =~= m6.insert(e.0, self.0@[e.0]));
        assert forall|x: TokenIdx| #[trigger] self.0@[e.0]@.contains(x) <==> x == e.1 || hasp(m6, (e.0, x)) by { }
        put_one(g, s0, m6, self.0@, e, tb, $i - 1);
    }
@hint loop 6 after
    proof { if !added { finished_all(g, s0, m, tb); } }
@fn ItemSet::goto
@attr #[verifier::rlimit(100)]
@spec
    requires gctx(*grammar), iset_ok(*grammar, self.0@),
    ensures iset_ok(*grammar, r.0@), pairs(r.0@) == goto_set(*grammar, pairs(self.0@), *x),
@hint start
    let ghost g = *grammar;
    let ghost m = self.0@;
    proof { gctx_of(g); }
@hint loop 1 before
    proof { kern_0(g, $s, *x, j@); }
@loop 1
    invariant map_refs($s, m), iset_ok(g, j@), kerns(g, $s, $i, *x, j@),
@hint loop 1 start
    let ghost ii = *item;
    let ghost j1 = j@;
    proof { assert(m.contains_key(ii)); iset_key(g, m, ii); }
@hint loop 1 end
    proof { if !(item.1 < rhs(g, *item).len() && rhs(g, *item)[item.1 as int] == *x) { kern_skip(g, $s, $i - 1, *x, j@); } }
@hint loop 2 before
    proof { kern_las_0(j1, inc(ii), $s); }
@loop 2
    invariant enum_refs($s, m[ii]@), iset_ok(g, j@), kern_las(j@, j1, inc(ii), $s, $i),
@hint loop 2 start
    let ghost j2 = j@;
    proof { assert(hasp(m, (ii, *lookahead))); iset_la(g, m, (ii, *lookahead)); }
@hint loop 2 end
    proof {
        assert(j@ =~= j2.insert(inc(ii), j@[inc(ii)]));
        kern_las_step(g, j2, j1, inc(ii), $s, $i - 1, j@);
    }
@hint loop 2 after
    proof { kern_step(g, $s1, $i1 - 1, *x, j1, $s, j@); }
@hint loop 1 after
    proof { kern_done(g, $s, m, *x, j@); }
