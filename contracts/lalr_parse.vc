@module parsep = -
@text
// --- what a sentence is ---
pub open spec fn rhs_of<'a>(g: Grammar<'a>, p: int) -> Seq<Symbol<'a>> { g.productions@[p].input_tokens@ }
pub open spec fn name_of<'a>(g: Grammar<'a>, p: int) -> Symbol<'a> { Symbol::NonTerminal(g.productions@[p].name) }
/// what the production `p` makes of the non-terminal at `q`
pub open spec fn replaced<'a>(g: Grammar<'a>, u: Seq<Symbol<'a>>, q: int, p: int) -> Seq<Symbol<'a>> { u.subrange(0, q) + rhs_of(g, p) + u.subrange(q + 1, u.len() as int) }
/// `v` is `u` with the non-terminal at `q` replaced by a production of it
pub open spec fn step_at<'a>(g: Grammar<'a>, u: Seq<Symbol<'a>>, v: Seq<Symbol<'a>>, q: int, p: int) -> bool { 0 <= q < u.len() && 0 <= p < g.productions@.len() && u[q] == name_of(g, p) && v == replaced(g, u, q, p) }
pub open spec fn dstep<'a>(g: Grammar<'a>, u: Seq<Symbol<'a>>, v: Seq<Symbol<'a>>) -> bool { exists|q: int, p: int| #[trigger] step_at(g, u, v, q, p) }
pub open spec fn derivation<'a>(g: Grammar<'a>, f: Seq<Seq<Symbol<'a>>>) -> bool { f.len() > 0 && forall|k: int| 0 < k < f.len() ==> dstep(g, #[trigger] f[k - 1], f[k]) }
#[verifier::opaque]
pub open spec fn derives<'a>(g: Grammar<'a>, u: Seq<Symbol<'a>>, w: Seq<Symbol<'a>>) -> bool { exists|f: Seq<Seq<Symbol<'a>>>| #[trigger] derivation(g, f) && f[0] == u && f.last() == w }
/// the start symbol
pub open spec fn start_form<'a>(g: Grammar<'a>) -> Seq<Symbol<'a>> { rhs_of(g, 0) }
/// the symbols of a token sequence, without the end marker
pub open spec fn word<'a>(g: Grammar<'a>, ts: Seq<(Token, TokenIdx)>) -> Seq<Symbol<'a>> { Seq::new((ts.len() - 1) as nat, |k: int| g.tokens@[ts[k].1.0 as int]) }
/// C12, C13
pub open spec fn sentence<'a>(g: Grammar<'a>, ts: Seq<(Token, TokenIdx)>) -> bool { derives(g, start_form(g), word(g, ts)) }
/// terminals of the grammar, and the end marker after them
#[verifier::opaque]
pub open spec fn input_ok<'a>(g: Grammar<'a>, ts: Seq<(Token, TokenIdx)>) -> bool {
    &&& ts.len() > 0 && ts.last().1.0 == 0
    &&& forall|k: int| 0 <= k < ts.len() - 1 ==> 0 < (#[trigger] ts[k]).1.0 < g.tokens@.len() && !(g.tokens@[ts[k].1.0 as int] is NonTerminal)
}
/// a grammar the parser is for: its own start symbol is nowhere used, the end marker is not in the rules, no production is empty
#[verifier::opaque]
pub open spec fn pctx<'a>(g: Grammar<'a>) -> bool {
    &&& gctx(g)
    &&& g.productions@[0].input_tokens@.len() == 1
    &&& !occurs(g.productions@, name_of(g, 0)) && !occurs(g.productions@, Symbol::Eof)
    &&& forall|i: int| 0 <= i < g.productions@.len() ==> (#[trigger] g.productions@[i]).input_tokens@.len() > 0
}
pub proof fn derives_0<'a>(g: Grammar<'a>, u: Seq<Symbol<'a>>) ensures derives(g, u, u) { reveal(derives); let f = seq![u]; assert(derivation(g, f) && f[0] == u && f.last() == u); }
pub proof fn derives_step<'a>(g: Grammar<'a>, u: Seq<Symbol<'a>>, v: Seq<Symbol<'a>>, w: Seq<Symbol<'a>>) requires dstep(g, u, v), derives(g, v, w) ensures derives(g, u, w)
{
    reveal(derives);
    let f = choose|f: Seq<Seq<Symbol<'a>>>| #[trigger] derivation(g, f) && f[0] == v && f.last() == w;
    let h = seq![u] + f;
    assert forall|k: int| 0 < k < h.len() implies dstep(g, #[trigger] h[k - 1], h[k]) by { assert(h[k] == f[k - 1]); if k > 1 { assert(h[k - 1] == f[k - 2]); assert(dstep(g, f[k - 1 - 1], f[k - 1])); } }
    assert(derivation(g, h) && h[0] == u && h.last() == w);
}

// --- the states ---
pub proof fn closure_last<'a>(g: Grammar<'a>, k: ISet<Entry1>, f: Entry1) requires closure_set(g, k).contains(f) ensures k.contains(f) || exists|e: Entry1| closure_set(g, k).contains(e) && #[trigger] lr1adds(g, e, f)
{
    reveal(lr1reach);
    let p = choose|p: Seq<Entry1>| #[trigger] lr1path(g, k, p) && p.last() == f;
    if p.len() > 1 {
        let n = p.len() - 1;
        assert(lr1adds(g, p[n - 1], p[n]));
        let q = p.drop_last();
        assert(lr1path(g, k, q)) by { assert forall|j: int| 0 < j < q.len() implies lr1adds(g, #[trigger] q[j - 1], q[j]) by { assert(lr1adds(g, p[j - 1], p[j])); } }
        assert(lr1reach(g, k, p[n - 1])) by { assert(q.last() == p[n - 1]); }
        assert(closure_set(g, k).contains(p[n - 1]));
    }
}
/// a state is the closure of something
pub open spec fn made_by<'a>(g: Grammar<'a>, s: ISet<Entry1>) -> bool { s == start_set(g) || exists|t: ISet<Entry1>, x: Symbol<'a>| s == #[trigger] goto_set(g, t, x) }
pub proof fn treach_by<'a>(g: Grammar<'a>, s: ISet<Entry1>) requires treach(g, s) ensures made_by(g, s)
{
    reveal(treach);
    let p = choose|p: Seq<ISet<Entry1>>| #[trigger] tpath(g, p) && p.last() == s;
    if p.len() > 1 { let n = p.len() - 1; assert(trans(g, p[n - 1], p[n])); }
}
pub proof fn state_closed<'a>(g: Grammar<'a>, s: ISet<Entry1>, e: Entry1, f: Entry1) requires treach(g, s), s.contains(e), lr1adds(g, e, f) ensures s.contains(f)
{
    treach_by(g, s);
    if s == start_set(g) { reach_add(g, ISet::<Entry1>::empty().insert(start_entry()), e, f); }
    else { let (t, x) = choose|t: ISet<Entry1>, x: Symbol<'a>| s == #[trigger] goto_set(g, t, x); reach_add(g, kernel(g, t, x), e, f); }
}
/// an item with the dot at the start is the start item, or comes from an item with the dot before its name
pub proof fn dot0<'a>(g: Grammar<'a>, s: ISet<Entry1>, f: Entry1) requires pctx(g), treach(g, s), s.contains(f), item_ok(g, f.0), f.0.1 == 0, f != start_entry() ensures exists|e: Entry1| s.contains(e) && #[trigger] lr1adds(g, e, f)
{
    treach_by(g, s);
    if s == start_set(g) { closure_last(g, ISet::<Entry1>::empty().insert(start_entry()), f); }
    else {
        let (t, x) = choose|t: ISet<Entry1>, x: Symbol<'a>| s == #[trigger] goto_set(g, t, x);
        closure_last(g, kernel(g, t, x), f);
        if kernel(g, t, x).contains(f) { let e = choose|e: Entry1| #[trigger] moves(g, t, x, e, f); assert(e.0.0 == f.0.0); }
    }
}
/// an item with the dot further on was moved over the symbol
pub proof fn dotn<'a>(g: Grammar<'a>, t: ISet<Entry1>, x: Symbol<'a>, f: Entry1) requires goto_set(g, t, x).contains(f), item_ok(g, f.0), f.0.1 > 0 ensures t.contains((Item(f.0.0, (f.0.1 - 1) as u32), f.1)), rhs(g, f.0)[f.0.1 - 1] == x
{
    closure_last(g, kernel(g, t, x), f);
    let e = choose|e: Entry1| #[trigger] moves(g, t, x, e, f);
    assert(e.0.0 == f.0.0 && e.1 == f.1);
    assert(e.0 == Item(f.0.0, (f.0.1 - 1) as u32));
}
pub proof fn start_dot<'a>(g: Grammar<'a>, f: Entry1) requires start_set(g).contains(f) ensures f.0.1 == 0 { closure_last(g, ISet::<Entry1>::empty().insert(start_entry()), f); }
/// the start item has the end marker as its lookahead, and no transition leads to it
pub proof fn start_only<'a>(g: Grammar<'a>, e: Entry1, f: Entry1) requires pctx(g), lr1adds(g, e, f) ensures f.0.0.0 != 0
{
    reveal(pctx);
    occurs_at(g, e.0);
}
pub open spec fn start_fine(s: ISet<Entry1>) -> bool { forall|e: Entry1| #[trigger] s.contains(e) && e.0.0.0 == 0 ==> e.1.0 == 0 }
proof fn start_la_p<'a>(g: Grammar<'a>, p: Seq<ISet<Entry1>>) requires pctx(g), tpath(g, p) ensures start_fine(p.last()) decreases p.len()
{
    if p.len() == 1 {
        assert forall|e: Entry1| #[trigger] start_set(g).contains(e) && e.0.0.0 == 0 implies e.1.0 == 0 by {
            closure_last(g, ISet::<Entry1>::empty().insert(start_entry()), e);
            if e != start_entry() { let d = choose|d: Entry1| start_set(g).contains(d) && #[trigger] lr1adds(g, d, e); start_only(g, d, e); }
        }
    } else {
        let n = p.len() - 1;
        let q = p.drop_last();
        assert(tpath(g, q)) by { assert forall|k: int| 0 < k < q.len() implies trans(g, #[trigger] q[k - 1], q[k]) by { assert(trans(g, p[k - 1], p[k])); } }
        start_la_p(g, q);
        assert(trans(g, p[n - 1], p[n]));
        assert(q.last() == p[n - 1]);
        let x = choose|x: Symbol<'a>| p[n] == #[trigger] goto_set(g, p[n - 1], x);
        let k = kernel(g, p[n - 1], x);
        assert forall|e: Entry1| #[trigger] p[n].contains(e) && e.0.0.0 == 0 implies e.1.0 == 0 by {
            closure_last(g, k, e);
            if k.contains(e) { let d = choose|d: Entry1| #[trigger] moves(g, p[n - 1], x, d, e); assert(p[n - 1].contains(d)); }
            else { let d = choose|d: Entry1| closure_set(g, k).contains(d) && #[trigger] lr1adds(g, d, e); start_only(g, d, e); }
        }
    }
}
pub proof fn start_la<'a>(g: Grammar<'a>, s: ISet<Entry1>) requires pctx(g), treach(g, s) ensures start_fine(s)
{ reveal(treach); let p = choose|p: Seq<ISet<Entry1>>| #[trigger] tpath(g, p) && p.last() == s; start_la_p(g, p); }

// --- the merged states ---
/// an LR(1) state that the entry of the merged state comes from
pub proof fn from_lr<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, k: int, e: Entry1) -> (i: usize)
    requires tctx(g, lr, lalr, m), 0 <= k < lalr.len(), hasp(lalr[k].0@, e) ensures i < lr.len(), m[i] == k, hasp(lr[i as int].0@, e), state_ok(g, lr[i as int]), entry_ok(g, e)
{
    tctx_of(g, lr, lalr, m);
    reveal(merged);
    assert(in_some(lr, m, k, e));
    let i = choose|i: usize| i < lr.len() && #[trigger] m[i] == k && hasp(lr[i as int].0@, e);
    coll_state(g, lr, i as int);
    iset_la(g, lr[i as int].0@, e);
    i
}
pub proof fn to_lalr<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, i: usize, e: Entry1)
    requires tctx(g, lr, lalr, m), i < lr.len(), hasp(lr[i as int].0@, e) ensures m.contains_key(i), m[i] < lalr.len(), hasp(lalr[m[i] as int].0@, e)
{
    tctx_of(g, lr, lalr, m);
    reveal(merged);
    assert(m.contains_key(i));
    assert(in_some(lr, m, m[i] as int, e));
}
pub proof fn core_some<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, k: int, i: Item) -> (a: TokenIdx)
    requires tctx(g, lr, lalr, m), 0 <= k < lalr.len(), core(lalr[k]).contains(i) ensures hasp(lalr[k].0@, (i, a)), item_ok(g, i)
{
    lalr_ok(g, lr, lalr, m, k);
    iset_key(g, lalr[k].0@, i);
    choose|a: TokenIdx| #[trigger] lalr[k].0@[i]@.contains(a)
}
pub proof fn lalr_closed<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, k: int, e: Entry1, f: Entry1)
    requires tctx(g, lr, lalr, m), 0 <= k < lalr.len(), hasp(lalr[k].0@, e), lr1adds(g, e, f) ensures hasp(lalr[k].0@, f)
{
    let i = from_lr(g, lr, lalr, m, k, e);
    assert(pairs(lr[i as int].0@).contains(e));
    state_closed(g, pairs(lr[i as int].0@), e, f);
    assert(hasp(lr[i as int].0@, f));
    to_lalr(g, lr, lalr, m, i, f);
}
/// the dot moves over the symbol of a transition
pub proof fn moved_in<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, k: int, x: Symbol<'a>, j: int, e: Entry1)
    requires tctx(g, lr, lalr, m), 0 <= k < lalr.len(), hasp(lalr[k].0@, e), !ends(g, e.0), dot_sym(g, e.0) == x, target(g, lalr, st(lalr, k), x, j) ensures hasp(lalr[j].0@, (inc(e.0), e.1))
{
    tctx_of(g, lr, lalr, m);
    merged_at(lr, lalr, m);
    let l = from_lr(g, lr, lalr, m, k, e);
    let s = pairs(lr[l as int].0@);
    let f = (inc(e.0), e.1);
    assert(s.contains(e));
    assert(moves(g, s, x, e, f));
    assert(moved_over(g, s, x, f));
    reach_base(g, kernel(g, s, x), f);
    assert(goto_set(g, s, x).contains(f));
    assert(some_entry(goto_set(g, s, x)));
    assert(goes(g, lr, s, x));
    let i = choose|i: int| 0 <= i < lr.len() && pairs(#[trigger] lr[i].0@) == goto_set(g, s, x);
    coll_state(g, lr, i);
    assert(hasp(lr[i].0@, f)) by { assert(pairs(lr[i].0@).contains(f)); }
    to_lalr(g, lr, lalr, m, i as usize, f);
    let j2 = m[i as usize] as int;
    lalr_ok(g, lr, lalr, m, k);
    assert(core(lalr[k]) == core(lr[l as int])) by { assert(m.contains_key(l)); }
    coll_state(g, lr, l as int);
    assert(target(g, lalr, st(lalr, k), x, j2)) by {
        reveal(target);
        assert forall|it: Item| #[trigger] core(lalr[j2]).contains(it) <==> in_core(goto_set(g, st(lalr, k), x), it) by {
            core_pairs(g, lr[i], it);
            if in_core(goto_set(g, s, x), it) { goto_core(g, lr[l as int], lalr[k], x, it); }
            if in_core(goto_set(g, st(lalr, k), x), it) { goto_core(g, lalr[k], lr[l as int], x, it); }
        }
    }
    target_unique(g, lr, lalr, m, st(lalr, k), x, j, j2);
}
/// the dot was moved over the symbol of a transition
pub proof fn step_back<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, k: int, x: Symbol<'a>, j: int, i: Item)
    requires tctx(g, lr, lalr, m), 0 <= k < lalr.len(), target(g, lalr, st(lalr, k), x, j), core(lalr[j]).contains(i), i.1 > 0 ensures item_ok(g, i), rhs(g, i)[i.1 - 1] == x, core(lalr[k]).contains(Item(i.0, (i.1 - 1) as u32))
{
    reveal(target);
    let b = core_some(g, lr, lalr, m, j, i);
    assert(in_core(goto_set(g, st(lalr, k), x), i));
    let a = choose|a: TokenIdx| #[trigger] goto_set(g, st(lalr, k), x).contains((i, a));
    dotn(g, st(lalr, k), x, (i, a));
    assert(hasp(lalr[k].0@, (Item(i.0, (i.1 - 1) as u32), a)));
}
/// an item with the dot at the start that is not the start item has a state to go to on its name
pub proof fn name_goes<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, k: int, i: Item)
    requires pctx(g), tctx(g, lr, lalr, m), 0 <= k < lalr.len(), core(lalr[k]).contains(i), i.1 == 0, i.0.0 != 0 ensures has_target(g, lalr, st(lalr, k), name_of(g, i.0.0 as int))
{
    let a = core_some(g, lr, lalr, m, k, i);
    let l = from_lr(g, lr, lalr, m, k, (i, a));
    let s = pairs(lr[l as int].0@);
    assert(s.contains((i, a)));
    dot0(g, s, (i, a));
    let e = choose|e: Entry1| s.contains(e) && #[trigger] lr1adds(g, e, (i, a));
    assert(hasp(lr[l as int].0@, e));
    to_lalr(g, lr, lalr, m, l, e);
    target_exists(g, lr, lalr, m, k, e);
}
pub proof fn state_0<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>)
    requires pctx(g), tctx(g, lr, lalr, m) ensures lalr.len() > 0, forall|i: Item| #[trigger] core(lalr[0]).contains(i) ==> i.1 == 0, hasp(lalr[0].0@, start_entry())
{
    tctx_of(g, lr, lalr, m);
    merged_at(lr, lalr, m);
    assert(lr.len() > 0 && pairs(lr[0].0@) == start_set(g)) by { reveal(lr1coll); }
    assert(m[0] == 0) by { reveal(merged); }
    assert(m.contains_key(0usize));
    coll_state(g, lr, 0);
    assert forall|i: Item| #[trigger] core(lalr[0]).contains(i) implies i.1 == 0 by {
        assert(core(lr[0]).contains(i));
        core_pairs(g, lr[0], i);
        let a = choose|a: TokenIdx| #[trigger] pairs(lr[0].0@).contains((i, a));
        start_dot(g, (i, a));
    }
    reach_base(g, ISet::<Entry1>::empty().insert(start_entry()), start_entry());
    assert(pairs(lr[0].0@).contains(start_entry()));
    to_lalr(g, lr, lalr, m, 0, start_entry());
}
/// no transition leads to the state with the start item
pub proof fn start_not_in<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, k: int, x: Symbol<'a>, j: int)
    requires pctx(g), tctx(g, lr, lalr, m), 0 <= k < lalr.len(), target(g, lalr, st(lalr, k), x, j) ensures !core(lalr[j]).contains(start_entry().0)
{
    reveal(target);
    let i = start_entry().0;
    if core(lalr[j]).contains(i) {
        assert(in_core(goto_set(g, st(lalr, k), x), i));
        let a = choose|a: TokenIdx| #[trigger] goto_set(g, st(lalr, k), x).contains((i, a));
        let kk = kernel(g, st(lalr, k), x);
        closure_last(g, kk, (i, a));
        if kk.contains((i, a)) {
            let e = choose|e: Entry1| #[trigger] moves(g, st(lalr, k), x, e, (i, a));
            assert(e.0.0 == i.0);
            assert(rhs(g, e.0).len() == 1) by { reveal(pctx); }
        } else { let e = choose|e: Entry1| closure_set(g, kk).contains(e) && #[trigger] lr1adds(g, e, (i, a)); start_only(g, e, (i, a)); }
    }
}
pub proof fn start_la_in<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, k: int, e: Entry1)
    requires pctx(g), tctx(g, lr, lalr, m), 0 <= k < lalr.len(), hasp(lalr[k].0@, e), e.0.0.0 == 0 ensures e.1.0 == 0
{
    let i = from_lr(g, lr, lalr, m, k, e);
    start_la(g, pairs(lr[i as int].0@));
    assert(pairs(lr[i as int].0@).contains(e));
}

// --- the stack ---
/// the states on the stack are reached from the first one over the symbols
#[verifier::opaque]
pub open spec fn stack_ok<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, s: Seq<u32>, u: Seq<Symbol<'a>>) -> bool {
    &&& s.len() == u.len() + 1 && s[0] == 0
    &&& forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] < lalr.len()
    &&& forall|k: int| 0 <= k < u.len() ==> goes_at(g, lalr, s, u, k)
}
pub open spec fn goes_at<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, s: Seq<u32>, u: Seq<Symbol<'a>>, k: int) -> bool { target(g, lalr, st(lalr, s[k] as int), u[k], s[k + 1] as int) }
pub proof fn stack_0<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, s: Seq<u32>) requires pctx(g), tctx(g, lr, lalr, m), s.len() == 1, s[0] == 0 ensures stack_ok(g, lalr, s, Seq::<Symbol<'a>>::empty()) { reveal(stack_ok); state_0(g, lr, lalr, m); }
pub proof fn stack_push<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, s: Seq<u32>, u: Seq<Symbol<'a>>, x: Symbol<'a>, j: u32)
    requires stack_ok(g, lalr, s, u), target(g, lalr, st(lalr, s.last() as int), x, j as int) ensures stack_ok(g, lalr, s.push(j), u.push(x))
{
    reveal(stack_ok);
    let s2 = s.push(j);
    let u2 = u.push(x);
    assert(j < lalr.len()) by { reveal(target); }
    assert forall|k: int| 0 <= k < u2.len() implies goes_at(g, lalr, s2, u2, k) by { if k < u.len() { assert(goes_at(g, lalr, s, u, k)); } }
}
pub proof fn stack_cut<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, s: Seq<u32>, u: Seq<Symbol<'a>>, n: int)
    requires stack_ok(g, lalr, s, u), 0 <= n <= u.len() ensures stack_ok(g, lalr, s.subrange(0, n + 1), u.subrange(0, n))
{
    reveal(stack_ok);
    let s2 = s.subrange(0, n + 1);
    let u2 = u.subrange(0, n);
    assert forall|k: int| 0 <= k < u2.len() implies goes_at(g, lalr, s2, u2, k) by { assert(goes_at(g, lalr, s, u, k)); }
}
pub proof fn stack_at<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, s: Seq<u32>, u: Seq<Symbol<'a>>, k: int) requires stack_ok(g, lalr, s, u) ensures s.len() == u.len() + 1, s[0] == 0, 0 <= k < s.len() ==> s[k] < lalr.len(), 0 <= k < u.len() ==> goes_at(g, lalr, s, u, k) { reveal(stack_ok); }
/// what the dot has passed is on the stack
pub proof fn valid_item<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, s: Seq<u32>, u: Seq<Symbol<'a>>, i: Item)
    requires pctx(g), tctx(g, lr, lalr, m), stack_ok(g, lalr, s, u), core(lalr[s.last() as int]).contains(i)
    ensures item_ok(g, i), i.1 <= u.len(), u.subrange(u.len() - i.1, u.len() as int) == rhs(g, i).subrange(0, i.1 as int), core(lalr[s[u.len() - i.1] as int]).contains(Item(i.0, 0))
    decreases i.1
{
    let n = u.len() as int;
    stack_at(g, lalr, s, u, n);
    let a = core_some(g, lr, lalr, m, s.last() as int, i);
    if i.1 == 0 {
        assert(u.subrange(n, n) =~= rhs(g, i).subrange(0, 0));
        assert(Item(i.0, 0) == i);
    } else {
        if n == 0 { state_0(g, lr, lalr, m); }
        stack_at(g, lalr, s, u, n - 1);
        let h = Item(i.0, (i.1 - 1) as u32);
        step_back(g, lr, lalr, m, s[n - 1] as int, u[n - 1], s[n] as int, i);
        stack_cut(g, lalr, s, u, n - 1);
        let s2 = s.subrange(0, n);
        let u2 = u.subrange(0, n - 1);
        valid_item(g, lr, lalr, m, s2, u2, h);
        let d = i.1 as int;
        assert(u.subrange(n - d, n) =~= u2.subrange(n - d, n - 1).push(u[n - 1]));
        assert(rhs(g, i).subrange(0, d) =~= rhs(g, i).subrange(0, d - 1).push(rhs(g, i)[d - 1]));
    }
}
/// the start item is at the bottom only
pub proof fn start_bottom<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, s: Seq<u32>, u: Seq<Symbol<'a>>, k: int)
    requires pctx(g), tctx(g, lr, lalr, m), stack_ok(g, lalr, s, u), 0 <= k < s.len(), core(lalr[s[k] as int]).contains(start_entry().0) ensures k == 0
{
    stack_at(g, lalr, s, u, k);
    if k > 0 { stack_at(g, lalr, s, u, k - 1); start_not_in(g, lr, lalr, m, s[k - 1] as int, u[k - 1], s[k] as int); }
}

// --- a step of the parser ---
/// what the action on the top of the stack means
pub open spec fn act_facts<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, goto: GotoTable<'a>, s: Seq<u32>, u: Seq<Symbol<'a>>, a: TokenIdx, act: Option<Action>) -> bool {
    match act {
        Some(Action::Shift(j)) => a.0 != 0 && a.0 < g.tokens@.len() && !(g.tokens@[a.0 as int] is NonTerminal) && target(g, lalr, st(lalr, s.last() as int), g.tokens@[a.0 as int], j as int),
        Some(Action::Reduce(p)) => {
            &&& 0 < p.0 < g.productions@.len()
            &&& rhs_of(g, p.0 as int).len() <= u.len()
            &&& u.subrange(u.len() - rhs_of(g, p.0 as int).len(), u.len() as int) == rhs_of(g, p.0 as int)
            &&& reduces_to(g, lalr, goto, s[u.len() - rhs_of(g, p.0 as int).len()], g.productions@[p.0 as int].name)
        },
        Some(Action::Accept) => u == start_form(g) && a.0 == 0,
        None => true,
    }
}
pub open spec fn reduces_to<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, goto: GotoTable<'a>, k: u32, n: Ident<'a>) -> bool {
    match cell(goto, k as usize, n) { Some(j) => j <= u32::MAX && target(g, lalr, st(lalr, k as int), Symbol::NonTerminal(n), j as int), None => false }
}
pub proof fn act_means<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, action: ActionTable, goto: GotoTable<'a>, s: Seq<u32>, u: Seq<Symbol<'a>>, a: TokenIdx)
    requires pctx(g), tctx(g, lr, lalr, m), tables_ok(g, lalr, action, goto), stack_ok(g, lalr, s, u)
    ensures act_facts(g, lalr, goto, s, u, a, cell(action, s.last() as usize, a))
{
    tctx_of(g, lr, lalr, m);
    reveal(tables_ok);
    let n = u.len() as int;
    stack_at(g, lalr, s, u, n);
    let k = s.last() as int;
    if cell(action, s.last() as usize, a) is Some {
        let act = cell(action, s.last() as usize, a)->0;
        assert(action_ok(g, lalr, action, k as usize, a, act));
        let e = choose|e: Entry1| hasp(lalr[k].0@, e) && #[trigger] prescribes(g, lalr, st(lalr, k), e, a, act);
        let l = from_lr(g, lr, lalr, m, k, e);
        assert(core(lalr[k]).contains(e.0));
        if !ends(g, e.0) {
            occurs_at(g, e.0);
            reveal(pctx); reveal(tokens_ok);
        } else {
            valid_item(g, lr, lalr, m, s, u, e.0);
            let d = e.0.1 as int;
            assert(rhs(g, e.0).subrange(0, d) =~= rhs(g, e.0));
            if e.0.0.0 == 0 {
                start_la_in(g, lr, lalr, m, k, e);
                assert(Item(e.0.0, 0) == start_entry().0);
                start_bottom(g, lr, lalr, m, s, u, n - d);
                assert(u.subrange(0, n) =~= u);
            } else {
                let b = s[n - d] as int;
                stack_at(g, lalr, s, u, n - d);
                name_goes(g, lr, lalr, m, b, Item(e.0.0, 0));
                let x = name_of(g, e.0.0.0 as int);
                let j = choose|j: int| #[trigger] target(g, lalr, st(lalr, b), x, j);
                assert(0 <= j < lalr.len()) by { reveal(target); }
                assert(goto_ok(g, lalr, goto, b as usize, g.productions@[e.0.0.0 as int].name, j as usize));
            }
        }
    }
}
/// what is on the stack and what is left derive the input
#[verifier::opaque]
pub open spec fn pinv<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, ts: Seq<(Token, TokenIdx)>, s: Seq<u32>, u: Seq<Symbol<'a>>, i: int) -> bool {
    stack_ok(g, lalr, s, u) && 0 <= i < ts.len() && derives(g, u + word(g, ts).skip(i), word(g, ts))
}
pub proof fn pinv_0<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, ts: Seq<(Token, TokenIdx)>, s: Seq<u32>)
    requires pctx(g), tctx(g, lr, lalr, m), input_ok(g, ts), s.len() == 1, s[0] == 0 ensures pinv(g, lalr, ts, s, Seq::<Symbol<'a>>::empty(), 0)
{
    reveal(pinv); reveal(input_ok);
    stack_0(g, lr, lalr, m, s);
    assert(Seq::<Symbol<'a>>::empty() + word(g, ts).skip(0) =~= word(g, ts));
    derives_0(g, word(g, ts));
}
pub proof fn pinv_facts<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, action: ActionTable, goto: GotoTable<'a>, ts: Seq<(Token, TokenIdx)>, s: Seq<u32>, u: Seq<Symbol<'a>>, i: int)
    requires pctx(g), tctx(g, lr, lalr, m), tables_ok(g, lalr, action, goto), pinv(g, lalr, ts, s, u, i), input_ok(g, ts)
    ensures s.len() == u.len() + 1, 0 <= i < ts.len(), act_facts(g, lalr, goto, s, u, ts[i].1, cell(action, s.last() as usize, ts[i].1)), ts[i].1.0 != 0 ==> i + 1 < ts.len(),
        cell(action, s.last() as usize, ts[i].1) == Some(Action::Accept) ==> sentence(g, ts),
{
    reveal(pinv); reveal(input_ok);
    stack_at(g, lalr, s, u, 0);
    act_means(g, lr, lalr, m, action, goto, s, u, ts[i].1);
    if cell(action, s.last() as usize, ts[i].1) == Some(Action::Accept) {
        assert(i == ts.len() - 1);
        assert(u + word(g, ts).skip(i) =~= u);
    }
}
pub proof fn pinv_shift<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, ts: Seq<(Token, TokenIdx)>, s: Seq<u32>, u: Seq<Symbol<'a>>, i: int, j: u32)
    requires pinv(g, lalr, ts, s, u, i), i + 1 < ts.len(), target(g, lalr, st(lalr, s.last() as int), g.tokens@[ts[i].1.0 as int], j as int) ensures pinv(g, lalr, ts, s.push(j), u.push(g.tokens@[ts[i].1.0 as int]), i + 1)
{
    reveal(pinv);
    let x = g.tokens@[ts[i].1.0 as int];
    stack_push(g, lalr, s, u, x, j);
    assert(u.push(x) + word(g, ts).skip(i + 1) =~= u + word(g, ts).skip(i));
}
pub proof fn pinv_reduce<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, goto: GotoTable<'a>, ts: Seq<(Token, TokenIdx)>, s: Seq<u32>, u: Seq<Symbol<'a>>, i: int, p: ProductionIdx, s2: Seq<u32>)
    requires pinv(g, lalr, ts, s, u, i), act_facts(g, lalr, goto, s, u, ts[i].1, Some(Action::Reduce(p))), s2 == red_stack(g, goto, s, u, p) ensures pinv(g, lalr, ts, s2, red_syms(g, u, p), i)
{
    reveal(pinv);
    let n = u.len() - rhs_of(g, p.0 as int).len();
    let x = name_of(g, p.0 as int);
    stack_at(g, lalr, s, u, n);
    stack_cut(g, lalr, s, u, n);
    assert(s.subrange(0, n + 1).last() == s[n]);
    stack_push(g, lalr, s.subrange(0, n + 1), u.subrange(0, n), x, s2.last());
    let rest = word(g, ts).skip(i);
    let v = u.subrange(0, n).push(x) + rest;
    assert(step_at(g, v, u + rest, n, p.0 as int)) by { assert(replaced(g, v, n, p.0 as int) =~= u + rest) by { assert(u =~= u.subrange(0, n) + u.subrange(n, u.len() as int)); } }
    derives_step(g, v, u + rest, word(g, ts));
}
pub open spec fn red_syms<'a>(g: Grammar<'a>, u: Seq<Symbol<'a>>, p: ProductionIdx) -> Seq<Symbol<'a>> { u.subrange(0, u.len() - rhs_of(g, p.0 as int).len()).push(name_of(g, p.0 as int)) }
pub open spec fn red_stack<'a>(g: Grammar<'a>, goto: GotoTable<'a>, s: Seq<u32>, u: Seq<Symbol<'a>>, p: ProductionIdx) -> Seq<u32> {
    let n = u.len() - rhs_of(g, p.0 as int).len();
    s.subrange(0, n + 1).push(cell(goto, s[n] as usize, g.productions@[p.0 as int].name)->0 as u32)
}

// --- every sentence is accepted ---
pub open spec fn cut(k: int, m: nat) -> bool { true }
pub open spec fn by_prod(p: int) -> bool { true }
/// the symbols derive the tokens from the i-th to the j-th, in n shifts and reductions
pub open spec fn ylds<'a>(g: Grammar<'a>, ts: Seq<(Token, TokenIdx)>, u: Seq<Symbol<'a>>, i: int, j: int, n: nat) -> bool decreases n, 1int {
    if u.len() == 0 { i == j && 0 <= i <= ts.len() - 1 && n == 0 }
    else { exists|k: int, m: nat| #[trigger] cut(k, m) && 0 < m <= n && i <= k <= j && yld1(g, ts, u[0], i, k, m) && ylds(g, ts, u.skip(1), k, j, (n - m) as nat) }
}
pub open spec fn yld1<'a>(g: Grammar<'a>, ts: Seq<(Token, TokenIdx)>, x: Symbol<'a>, i: int, k: int, m: nat) -> bool decreases m, 0int {
    if x is NonTerminal { m > 0 && exists|p: int| #[trigger] by_prod(p) && 0 <= p < g.productions@.len() && name_of(g, p) == x && ylds(g, ts, rhs_of(g, p), i, k, (m - 1) as nat) }
    else { m == 1 && k == i + 1 && 0 <= i < ts.len() - 1 && g.tokens@[ts[i].1.0 as int] == x }
}
pub open spec fn ylds_some<'a>(g: Grammar<'a>, ts: Seq<(Token, TokenIdx)>, u: Seq<Symbol<'a>>, i: int, j: int) -> bool { exists|n: nat| #[trigger] ylds(g, ts, u, i, j, n) }
pub proof fn ylds_head<'a>(g: Grammar<'a>, ts: Seq<(Token, TokenIdx)>, u: Seq<Symbol<'a>>, i: int, j: int, n: nat) -> (r: (int, nat)) requires ylds(g, ts, u, i, j, n), u.len() > 0
    ensures 0 < r.1 <= n, i <= r.0 <= j, yld1(g, ts, u[0], i, r.0, r.1), ylds(g, ts, u.skip(1), r.0, j, (n - r.1) as nat)
{
    let (k, m) = choose|k: int, m: nat| #[trigger] cut(k, m) && 0 < m <= n && i <= k <= j && yld1(g, ts, u[0], i, k, m) && ylds(g, ts, u.skip(1), k, j, (n - m) as nat);
    (k, m)
}
pub proof fn ylds_cons<'a>(g: Grammar<'a>, ts: Seq<(Token, TokenIdx)>, u: Seq<Symbol<'a>>, i: int, k: int, j: int, m: nat, n: nat)
    requires u.len() > 0, m > 0, i <= k <= j, yld1(g, ts, u[0], i, k, m), ylds(g, ts, u.skip(1), k, j, n) ensures ylds(g, ts, u, i, j, m + n)
{ assert(cut(k, m)); assert((m + n - m) as nat == n); }
pub proof fn yld1_prod<'a>(g: Grammar<'a>, ts: Seq<(Token, TokenIdx)>, x: Symbol<'a>, i: int, k: int, m: nat) -> (p: int) requires yld1(g, ts, x, i, k, m), x is NonTerminal
    ensures m > 0, 0 <= p < g.productions@.len(), name_of(g, p) == x, ylds(g, ts, rhs_of(g, p), i, k, (m - 1) as nat)
{ choose|p: int| #[trigger] by_prod(p) && 0 <= p < g.productions@.len() && name_of(g, p) == x && ylds(g, ts, rhs_of(g, p), i, k, (m - 1) as nat) }
pub proof fn ylds_in<'a>(g: Grammar<'a>, ts: Seq<(Token, TokenIdx)>, u: Seq<Symbol<'a>>, i: int, j: int, n: nat) requires ylds(g, ts, u, i, j, n) ensures 0 <= i <= j <= ts.len() - 1 decreases n, u.len()
{
    if u.len() > 0 {
        let (k, m) = ylds_head(g, ts, u, i, j, n);
        ylds_in(g, ts, u.skip(1), k, j, (n - m) as nat);
        if u[0] is NonTerminal { let p = yld1_prod(g, ts, u[0], i, k, m); ylds_in(g, ts, rhs_of(g, p), i, k, (m - 1) as nat); }
    }
}
pub proof fn ylds_cat<'a>(g: Grammar<'a>, ts: Seq<(Token, TokenIdx)>, u: Seq<Symbol<'a>>, v: Seq<Symbol<'a>>, i: int, k: int, j: int, m: nat, n: nat)
    requires ylds(g, ts, u, i, k, m), ylds(g, ts, v, k, j, n) ensures ylds(g, ts, u + v, i, j, m + n) decreases u.len()
{
    if u.len() == 0 { assert(u + v =~= v); }
    else {
        let (k2, m2) = ylds_head(g, ts, u, i, k, m);
        ylds_cat(g, ts, u.skip(1), v, k2, k, j, (m - m2) as nat, n);
        assert((u + v).skip(1) =~= u.skip(1) + v);
        ylds_in(g, ts, v, k, j, n);
        ylds_cons(g, ts, u + v, i, k2, j, m2, (m - m2) as nat + n);
    }
}
pub proof fn ylds_split<'a>(g: Grammar<'a>, ts: Seq<(Token, TokenIdx)>, u: Seq<Symbol<'a>>, v: Seq<Symbol<'a>>, i: int, j: int, n: nat) -> (r: (int, nat, nat))
    requires ylds(g, ts, u + v, i, j, n) ensures ylds(g, ts, u, i, r.0, r.1), ylds(g, ts, v, r.0, j, r.2), r.1 + r.2 == n decreases u.len()
{
    ylds_in(g, ts, u + v, i, j, n);
    if u.len() == 0 { assert(u + v =~= v); (i, 0, n) }
    else {
        let (k, m) = ylds_head(g, ts, u + v, i, j, n);
        assert((u + v).skip(1) =~= u.skip(1) + v);
        let r = ylds_split(g, ts, u.skip(1), v, k, j, (n - m) as nat);
        ylds_in(g, ts, u.skip(1), k, r.0, r.1);
        ylds_cons(g, ts, u, i, k, r.0, m, r.1);
        (r.0, m + r.1, r.2)
    }
}
/// the tokens themselves
pub proof fn ylds_word<'a>(g: Grammar<'a>, ts: Seq<(Token, TokenIdx)>, i: int) requires input_ok(g, ts), 0 <= i <= ts.len() - 1 ensures ylds(g, ts, word(g, ts).skip(i), i, ts.len() - 1, (ts.len() - 1 - i) as nat) decreases ts.len() - i
{
    reveal(input_ok);
    let w = word(g, ts).skip(i);
    if i < ts.len() - 1 {
        ylds_word(g, ts, i + 1);
        assert(w.skip(1) =~= word(g, ts).skip(i + 1));
        let q = ts[i];
        assert(w[0] == g.tokens@[ts[i].1.0 as int]);
        ylds_cons(g, ts, w, i, i + 1, ts.len() - 1, 1, (ts.len() - 1 - (i + 1)) as nat);
    }
}
/// a step of a derivation, backwards
pub proof fn ylds_back<'a>(g: Grammar<'a>, ts: Seq<(Token, TokenIdx)>, u: Seq<Symbol<'a>>, v: Seq<Symbol<'a>>, i: int, j: int) requires dstep(g, u, v), ylds_some(g, ts, v, i, j) ensures ylds_some(g, ts, u, i, j)
{
    let (q, p) = choose|q: int, p: int| #[trigger] step_at(g, u, v, q, p);
    let n = choose|n: nat| #[trigger] ylds(g, ts, v, i, j, n);
    let a = u.subrange(0, q);
    let b = u.subrange(q + 1, u.len() as int);
    let (k2, n2, n3) = ylds_split(g, ts, a + rhs_of(g, p), b, i, j, n);
    let (k1, n1, n4) = ylds_split(g, ts, a, rhs_of(g, p), i, k2, n2);
    ylds_in(g, ts, rhs_of(g, p), k1, k2, n4);
    let x = seq![u[q]];
    assert(by_prod(p));
    assert((n4 + 1 - 1) as nat == n4);
    assert(yld1(g, ts, u[q], k1, k2, n4 + 1));
    assert(x.skip(1).len() == 0);
    ylds_in(g, ts, b, k2, j, n3);
    assert(ylds(g, ts, x.skip(1), k2, k2, 0));
    ylds_cons(g, ts, x, k1, k2, k2, n4 + 1, 0);
    ylds_cat(g, ts, a, x, i, k1, k2, n1, n4 + 1);
    ylds_cat(g, ts, a + x, b, i, k2, j, n1 + (n4 + 1), n3);
    assert(a + x + b =~= u);
}
proof fn ylds_from<'a>(g: Grammar<'a>, ts: Seq<(Token, TokenIdx)>, f: Seq<Seq<Symbol<'a>>>, k: int) requires derivation(g, f), f.last() == word(g, ts), input_ok(g, ts), 0 <= k < f.len() ensures ylds_some(g, ts, f[k], 0, ts.len() - 1) decreases f.len() - k
{
    if k == f.len() - 1 { reveal(input_ok); ylds_word(g, ts, 0); assert(word(g, ts).skip(0) =~= word(g, ts)); }
    else { ylds_from(g, ts, f, k + 1); assert(dstep(g, f[k + 1 - 1], f[k + 1])); ylds_back(g, ts, f[k], f[k + 1], 0, ts.len() - 1); }
}
pub proof fn ylds_of<'a>(g: Grammar<'a>, ts: Seq<(Token, TokenIdx)>) requires sentence(g, ts), input_ok(g, ts) ensures ylds_some(g, ts, start_form(g), 0, ts.len() - 1)
{
    reveal(derives);
    let f = choose|f: Seq<Seq<Symbol<'a>>>| #[trigger] derivation(g, f) && f[0] == start_form(g) && f.last() == word(g, ts);
    ylds_from(g, ts, f, 0);
}
/// the first token can begin the symbol
pub proof fn yld1_begins<'a>(g: Grammar<'a>, ts: Seq<(Token, TokenIdx)>, x: Symbol<'a>, i: int, k: int, m: nat) requires pctx(g), input_ok(g, ts), yld1(g, ts, x, i, k, m) ensures 0 <= i < ts.len() - 1, begins(g, x, g.tokens@[ts[i].1.0 as int]) decreases m
{
    let t = g.tokens@[ts[i].1.0 as int];
    if x is NonTerminal {
        let p = yld1_prod(g, ts, x, i, k, m);
        reveal(pctx);
        let l = rhs_of(g, p);
        assert(g.productions@[p].input_tokens@.len() > 0);
        let (k2, m2) = ylds_head(g, ts, l, i, k, (m - 1) as nat);
        yld1_begins(g, ts, l[0], i, k2, m2);
        reveal(begins_av);
        let q = choose|q: Seq<Symbol<'a>>| #[trigger] lpath(g.productions@, Set::empty(), q) && q[0] == l[0] && q.last() == t;
        let r = seq![x] + q;
        assert(expands_by(g.productions@, x, l[0], p));
        assert forall|k: int| 0 < k < r.len() implies expands(g.productions@, #[trigger] r[k - 1], r[k]) by { assert(r[k] == q[k - 1]); if k > 1 { assert(r[k - 1] == q[k - 2]); assert(expands(g.productions@, q[k - 1 - 1], q[k - 1])); } }
        assert(lpath(g.productions@, Set::empty(), r) && r[0] == x && r.last() == t);
    } else { begins_term(g.productions@, Set::empty(), x, t); }
}
pub open spec fn fcut(j: int, m: nat) -> bool { true }
/// The productions that are under way, the innermost last: the state has the item, what is left of the production
/// (without the symbol after the dot, with sk == 1) derives the tokens up to one that the item has as its lookahead, and so on outwards.
pub open spec fn frames<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, ts: Seq<(Token, TokenIdx)>, sk: int, s: Seq<u32>, es: Seq<Entry1>, i: int, c: nat) -> bool decreases es.len() {
    es.len() > 0 && exists|j: int, m: nat| #[trigger] fcut(j, m) && frame_at(g, lalr, ts, sk, s, es.last(), i, j, m) && m <= c && if es.len() == 1 { es.last().0.0.0 == 0 && j == ts.len() - 1 && m == c } else {
        m + 1 <= c && in_frame(g, es) && frames(g, lalr, ts, 1, s.subrange(0, s.len() - es.last().0.1), es.drop_last(), j, (c - m - 1) as nat)
    }
}
pub open spec fn in_frame<'a>(g: Grammar<'a>, es: Seq<Entry1>) -> bool { let f = es[es.len() - 2]; !ends(g, f.0) && dot_sym(g, f.0) == name_of(g, es.last().0.0.0 as int) && es.last().0.0.0 != 0 }
pub open spec fn frame_at<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, ts: Seq<(Token, TokenIdx)>, sk: int, s: Seq<u32>, e: Entry1, i: int, j: int, m: nat) -> bool {
    &&& s.len() > e.0.1 && s.last() < lalr.len() && hasp(lalr[s.last() as int].0@, e) && item_ok(g, e.0) && e.0.1 + sk <= rhs(g, e.0).len()
    &&& ylds(g, ts, rhs(g, e.0).skip(e.0.1 + sk), i, j, m)
    &&& 0 <= j < ts.len() && e.1 == ts[j].1
}
/// the dot of the innermost production moves over its symbol
proof fn frames_move<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, mm: Map<usize, usize>, ts: Seq<(Token, TokenIdx)>, s: Seq<u32>, es: Seq<Entry1>, i: int, c: nat, t: u32) -> (es2: Seq<Entry1>)
    requires tctx(g, lr, lalr, mm), frames(g, lalr, ts, 1, s, es, i, c), target(g, lalr, st(lalr, s.last() as int), dot_sym(g, es.last().0), t as int) ensures frames(g, lalr, ts, 0, s.push(t), es2, i, c)
{
    let e = es.last();
    let (j, m) = choose|j: int, m: nat| #[trigger] fcut(j, m) && frame_at(g, lalr, ts, 1, s, es.last(), i, j, m) && m <= c && if es.len() == 1 { es.last().0.0.0 == 0 && j == ts.len() - 1 && m == c } else {
        m + 1 <= c && in_frame(g, es) && frames(g, lalr, ts, 1, s.subrange(0, s.len() - es.last().0.1), es.drop_last(), j, (c - m - 1) as nat)
    };
    let e2 = (inc(e.0), e.1);
    let es2 = es.drop_last().push(e2);
    let s2 = s.push(t);
    assert(t < lalr.len()) by { reveal(target); }
    moved_in(g, lr, lalr, mm, s.last() as int, dot_sym(g, e.0), t as int, e);
    assert(frame_at(g, lalr, ts, 0, s2, e2, i, j, m));
    assert(es2.drop_last() =~= es.drop_last());
    if es.len() > 1 {
        assert(s2.subrange(0, s2.len() - e2.0.1) =~= s.subrange(0, s.len() - e.0.1));
        assert(es2[es2.len() - 2] == es[es.len() - 2]);
        assert(in_frame(g, es2));
    }
    assert(fcut(j, m));
    es2
}
/// what the parser does next on a sentence, and where that leaves it
pub open spec fn next_ok<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, goto: GotoTable<'a>, ts: Seq<(Token, TokenIdx)>, s: Seq<u32>, u: Seq<Symbol<'a>>, i: int, c: nat, act: Option<Action>) -> bool {
    match act {
        Some(Action::Shift(t)) => c > 0 && cinv(g, lalr, ts, s.push(t), i + 1, (c - 1) as nat),
        Some(Action::Reduce(p)) => c > 0 && cinv(g, lalr, ts, red_stack(g, goto, s, u, p), i, (c - 1) as nat),
        Some(Action::Accept) => true,
        None => false,
    }
}
#[verifier::opaque]
pub open spec fn cinv<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, ts: Seq<(Token, TokenIdx)>, s: Seq<u32>, i: int, c: nat) -> bool { exists|es: Seq<Entry1>| #[trigger] frames(g, lalr, ts, 0, s, es, i, c) }
proof fn frames_next<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, mm: Map<usize, usize>, action: ActionTable, goto: GotoTable<'a>, ts: Seq<(Token, TokenIdx)>, s: Seq<u32>, u: Seq<Symbol<'a>>, i: int, c: nat, es: Seq<Entry1>, j: int, m: nat)
    requires pctx(g), input_ok(g, ts), tctx(g, lr, lalr, mm), tables_ok(g, lalr, action, goto), stack_ok(g, lalr, s, u), es.len() > 0, m <= c,
        frame_at(g, lalr, ts, 0, s, es.last(), i, j, m),
        if es.len() == 1 { es.last().0.0.0 == 0 && j == ts.len() - 1 && m == c } else { m + 1 <= c && in_frame(g, es) && frames(g, lalr, ts, 1, s.subrange(0, s.len() - es.last().0.1), es.drop_last(), j, (c - m - 1) as nat) },
    ensures next_ok(g, lalr, goto, ts, s, u, i, c, cell(action, s.last() as usize, ts[i].1))
    decreases m
{
    let e = es.last();
    let d = e.0.1 as int;
    let k = s.last() as int;
    let l = rhs(g, e.0);
    let v = l.skip(d);
    stack_at(g, lalr, s, u, 0);
    if v.len() == 0 {
        assert(i == j && m == 0);
        let act = end_act(e);
        assert(prescribes(g, lalr, st(lalr, k), e, ts[i].1, act));
        assert(action_of(g, lalr, k, ts[i].1, act));
        assert(action_ok(g, lalr, action, k as usize, ts[i].1, act)) by { reveal(tables_ok); }
        if es.len() == 1 { reveal(input_ok); }
        else {
            act_means(g, lr, lalr, mm, action, goto, s, u, ts[i].1);
            let n = u.len() - d;
            let s1 = s.subrange(0, n + 1);
            let t = red_stack(g, goto, s, u, e.0.0).last();
            assert(s1 == s.subrange(0, s.len() - d));
            assert(s1.last() == s[n]);
            let es2 = frames_move(g, lr, lalr, mm, ts, s1, es.drop_last(), i, (c - 1) as nat, t);
            reveal(cinv);
        }
    } else {
        let (k1, m1) = ylds_head(g, ts, v, i, j, m);
        let x = dot_sym(g, e.0);
        assert(v[0] == x);
        assert(v.skip(1) =~= l.skip(d + 1));
        assert(has_target(g, lalr, st(lalr, k), x)) by { reveal(tables_ok); }
        if x is NonTerminal {
            let p = yld1_prod(g, ts, x, i, k1, m1);
            let e2 = (Item(ProductionIdx(p as u32), 0), ts[k1].1);
            ylds_in(g, ts, l.skip(d + 1), k1, j, (m - m1) as nat);
            prod_fits(g, p);
            assert(begins(g, follow(g, e.0, e.1), g.tokens@[ts[k1].1.0 as int])) by {
                if d + 1 < l.len() {
                    let (k2, m2) = ylds_head(g, ts, l.skip(d + 1), k1, j, (m - m1) as nat);
                    assert(l.skip(d + 1)[0] == l[d + 1]);
                    yld1_begins(g, ts, l[d + 1], k1, k2, m2);
                } else {
                    assert(l.skip(d + 1).len() == 0);
                    token_ok(g, ts, k1);
                    begins_term(g.productions@, Set::empty(), g.tokens@[e.1.0 as int], g.tokens@[ts[k1].1.0 as int]);
                }
            }
            token_ok(g, ts, k1);
            assert(lr1adds(g, e, e2));
            lalr_closed(g, lr, lalr, mm, k, e, e2);
            let es2 = es.push(e2);
            assert(es2.drop_last() =~= es);
            assert(e2.0.0.0 != 0) by { occurs_at(g, e.0); reveal(pctx); }
            assert(in_frame(g, es2));
            assert(s.subrange(0, s.len() - 0) =~= s);
            assert(rhs(g, e2.0).skip(0) =~= rhs(g, e2.0));
            let m2 = (m - m1) as nat;
            assert(frame_at(g, lalr, ts, 1, s, e, k1, j, m2));
            let c2 = (c - (m1 - 1) - 1) as nat;
            assert(fcut(j, m2));
            assert(c2 - m2 - 1 == c - m - 1);
            assert(frames(g, lalr, ts, 1, s, es, k1, c2));
            frames_next(g, lr, lalr, mm, action, goto, ts, s, u, i, c, es2, k1, (m1 - 1) as nat);
        } else {
            let t = choose|t: int| #[trigger] target(g, lalr, st(lalr, k), x, t);
            tctx_of(g, lr, lalr, mm);
            assert(0 <= t < lalr.len()) by { reveal(target); }
            let act = Action::Shift(t as u32);
            token_ok(g, ts, i);
            assert(prescribes(g, lalr, st(lalr, k), e, ts[i].1, act));
            assert(action_of(g, lalr, k, ts[i].1, act));
            assert(action_ok(g, lalr, action, k as usize, ts[i].1, act)) by { reveal(tables_ok); }
            let m2 = (m - 1) as nat;
            assert(frame_at(g, lalr, ts, 1, s, e, i + 1, j, m2));
            assert(fcut(j, m2));
            assert((c - 1) as nat - m2 - 1 == c - m - 1);
            assert(frames(g, lalr, ts, 1, s, es, i + 1, (c - 1) as nat));
            let es2 = frames_move(g, lr, lalr, mm, ts, s, es, i + 1, (c - 1) as nat, t as u32);
            reveal(cinv);
        }
    }
}
pub proof fn prod_fits<'a>(g: Grammar<'a>, p: int) requires pctx(g), 0 <= p < g.productions@.len() ensures p < u32::MAX, g.productions@[p].input_tokens@.len() < u32::MAX { reveal(pctx); reveal(gctx); }
pub proof fn token_ok<'a>(g: Grammar<'a>, ts: Seq<(Token, TokenIdx)>, i: int) requires pctx(g), input_ok(g, ts), 0 <= i < ts.len() ensures ts[i].1.0 < g.tokens@.len(), !(g.tokens@[ts[i].1.0 as int] is NonTerminal) { reveal(pctx); reveal(gctx); reveal(tokens_ok); reveal(input_ok); }
pub proof fn cinv_0<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, mm: Map<usize, usize>, ts: Seq<(Token, TokenIdx)>, s: Seq<u32>) -> (c: nat)
    requires pctx(g), tctx(g, lr, lalr, mm), input_ok(g, ts), s.len() == 1, s[0] == 0 ensures sentence(g, ts) ==> cinv(g, lalr, ts, s, 0, c)
{
    if sentence(g, ts) {
        ylds_of(g, ts);
        let n = choose|n: nat| #[trigger] ylds(g, ts, start_form(g), 0, ts.len() - 1, n);
        state_0(g, lr, lalr, mm);
        let e = start_entry();
        let es = seq![e];
        let j = ts.len() - 1;
        lalr_ok(g, lr, lalr, mm, 0);
        iset_la(g, lalr[0].0@, e);
        assert(rhs(g, e.0).skip(0) =~= start_form(g));
        reveal(input_ok);
        assert(frame_at(g, lalr, ts, 0, s, e, 0, j, n));
        assert(fcut(j, n));
        assert(frames(g, lalr, ts, 0, s, es, 0, n));
        reveal(cinv);
        n
    } else { 0 }
}
pub proof fn cinv_next<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, mm: Map<usize, usize>, action: ActionTable, goto: GotoTable<'a>, ts: Seq<(Token, TokenIdx)>, s: Seq<u32>, u: Seq<Symbol<'a>>, i: int, c: nat)
    requires pctx(g), input_ok(g, ts), tctx(g, lr, lalr, mm), tables_ok(g, lalr, action, goto), pinv(g, lalr, ts, s, u, i), cinv(g, lalr, ts, s, i, c)
    ensures next_ok(g, lalr, goto, ts, s, u, i, c, cell(action, s.last() as usize, ts[i].1))
{
    reveal(cinv); reveal(pinv);
    let es = choose|es: Seq<Entry1>| #[trigger] frames(g, lalr, ts, 0, s, es, i, c);
    let (j, m) = choose|j: int, m: nat| #[trigger] fcut(j, m) && frame_at(g, lalr, ts, 0, s, es.last(), i, j, m) && m <= c && if es.len() == 1 { es.last().0.0.0 == 0 && j == ts.len() - 1 && m == c } else {
        m + 1 <= c && in_frame(g, es) && frames(g, lalr, ts, 1, s.subrange(0, s.len() - es.last().0.1), es.drop_last(), j, (c - m - 1) as nat)
    };
    frames_next(g, lr, lalr, mm, action, goto, ts, s, u, i, c, es, j, m);
}
/// the fewest steps that are left
pub open spec fn fewest<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, ts: Seq<(Token, TokenIdx)>, s: Seq<u32>, i: int, c: nat) -> bool { cinv(g, lalr, ts, s, i, c) && forall|d: nat| #[trigger] cinv(g, lalr, ts, s, i, d) ==> c <= d }
pub proof fn fewest_of<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, ts: Seq<(Token, TokenIdx)>, s: Seq<u32>, i: int, c: nat) -> (r: nat) requires cinv(g, lalr, ts, s, i, c) ensures fewest(g, lalr, ts, s, i, r), r <= c decreases c
{
    if exists|d: nat| d < c && #[trigger] cinv(g, lalr, ts, s, i, d) { fewest_of(g, lalr, ts, s, i, choose|d: nat| d < c && #[trigger] cinv(g, lalr, ts, s, i, d)) } else { c }
}
/// the stack after a reduction of the production `p`, with one symbol, over `b`
pub open spec fn unit_stack<'a>(g: Grammar<'a>, goto: GotoTable<'a>, b: Seq<u32>, p: int) -> Seq<u32> { b.push(cell(goto, b.last() as usize, g.productions@[p].name)->0 as u32) }
/// the productions with one symbol that were reduced by since the last other action, with fewer steps left after each
#[verifier::opaque]
pub open spec fn units<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, goto: GotoTable<'a>, ts: Seq<(Token, TokenIdx)>, s: Seq<u32>, i: int, us: Seq<int>, ls: Seq<nat>) -> bool {
    &&& s.len() > 0 && us.len() == ls.len()
    &&& us.len() > 0 ==> s == unit_stack(g, goto, s.drop_last(), us.last()) && fewest(g, lalr, ts, s, i, ls.last())
    &&& forall|k: int| 0 <= k < us.len() ==> 0 <= #[trigger] us[k] < g.productions@.len() && fewest(g, lalr, ts, unit_stack(g, goto, s.drop_last(), us[k]), i, ls[k])
    &&& forall|j: int, k: int| 0 <= j < k < us.len() ==> #[trigger] ls[j] > #[trigger] ls[k]
}
pub proof fn units_0<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, goto: GotoTable<'a>, ts: Seq<(Token, TokenIdx)>, s: Seq<u32>, i: int) requires s.len() > 0 ensures units(g, lalr, goto, ts, s, i, seq![], seq![]) { reveal(units); }
pub proof fn units_push<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, goto: GotoTable<'a>, ts: Seq<(Token, TokenIdx)>, s: Seq<u32>, u: Seq<Symbol<'a>>, i: int, us: Seq<int>, ls: Seq<nat>, p: ProductionIdx, c: nat, d: nat)
    requires units(g, lalr, goto, ts, s, i, us, ls), s.len() == u.len() + 1, u.len() > 0, 0 <= p.0 < g.productions@.len(), rhs_of(g, p.0 as int).len() == 1, fewest(g, lalr, ts, s, i, c), d < c, fewest(g, lalr, ts, red_stack(g, goto, s, u, p), i, d)
    ensures units(g, lalr, goto, ts, red_stack(g, goto, s, u, p), i, us.push(p.0 as int), ls.push(d))
{
    reveal(units);
    let s2 = red_stack(g, goto, s, u, p);
    let n = u.len() - 1;
    assert(s.subrange(0, n + 1) =~= s.drop_last());
    assert(s2.drop_last() =~= s.drop_last());
    assert(s.drop_last().last() == s[n]);
    assert(s2 == unit_stack(g, goto, s.drop_last(), p.0 as int));
    if us.len() > 0 { assert(ls.last() == c); }
}
/// no production comes up twice
pub proof fn units_few<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, goto: GotoTable<'a>, ts: Seq<(Token, TokenIdx)>, s: Seq<u32>, i: int, us: Seq<int>, ls: Seq<nat>) requires units(g, lalr, goto, ts, s, i, us, ls) ensures us.len() <= g.productions@.len()
{
    reveal(units);
    assert(us.no_duplicates()) by { assert forall|j: int, k: int| 0 <= j < us.len() && 0 <= k < us.len() && j != k implies us[j] != us[k] by { if us[j] == us[k] { assert(ls[j] == ls[k]); if j < k { assert(ls[j] > ls[k]); } else { assert(ls[k] > ls[j]); } } } }
    us.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, g.productions@.len() as int);
    let r = vstd::set_lib::set_int_range(0, g.productions@.len() as int);
    assert(us.to_set().subset_of(r)) by { assert forall|x: int| us.to_set().contains(x) implies r.contains(x) by { let k = choose|k: int| 0 <= k < us.len() && us[k] == x; assert(0 <= us[k] < g.productions@.len()); } }
    vstd::set_lib::lemma_len_subset(us.to_set(), r);
}
/// a parser with the tables of its grammar
#[verifier::opaque]
pub open spec fn parser_ok<'a>(l: Lalr<'a>) -> bool { pctx(l.grammar) && made(l.grammar, l.states@) && tables_ok(l.grammar, l.states@, l.action, l.goto) }

@module lexi = lex/lex.rs
@item TokenDef
@item Token
@item Lex

@module parse = lalr.rs
@item Lalr
@fn Lalr::parse_impl/next_token
@spec
    requires *old(i) + 1 <= usize::MAX,
    ensures *final(i) == *old(i) + 1,
        *final(i) < tokens@.len() ==> **final(a) == tokens@[*final(i) as int].0 && *final(a_idx) == tokens@[*final(i) as int].1,
        *final(i) >= tokens@.len() ==> *final(a) == *old(a) && *final(a_idx) == *old(a_idx),
@fn Lalr::parse_impl
@attr #[verifier::rlimit(100)]
@panic 0 !sentence(self.grammar, tokens@)
@spec
    requires parser_ok(*self), input_ok(self.grammar, tokens@),
    ensures sentence(self.grammar, tokens@),
@hint start
    let ghost g = self.grammar;
    let ghost lalr = self.states@;
    proof { reveal(parser_ok); reveal(made); }
    let ghost (lr, m) = choose|lr: Seq<ItemSet>, m: Map<usize, usize>| #[trigger] tctx(g, lr, lalr, m);
    let ghost mut syms = Seq::<Symbol<'ast>>::empty();
    let ghost mut us = Seq::<int>::empty();
    let ghost mut ls = Seq::<nat>::empty();
    let ghost mut nus = Seq::<int>::empty();
    let ghost mut nls = Seq::<nat>::empty();
    proof { reveal(input_ok); }
@hint loop 1 before
    let ghost mut left: nat = 0;
    proof {
        pinv_0(g, lr, lalr, m, tokens@, stack@);
        let c = cinv_0(g, lr, lalr, m, tokens@, stack@);
        if sentence(g, tokens@) { left = fewest_of(g, lalr, tokens@, stack@, 0, c); }
        units_0(g, lalr, self.goto, tokens@, stack@, 0);
    }
@loop 1
    invariant pinv(g, lalr, tokens@, stack@, syms, i as int), i < tokens@.len(), *a == tokens@[i as int].0, a_idx == tokens@[i as int].1,
        sentence(g, tokens@) ==> fewest(g, lalr, tokens@, stack@, i as int, left),
        sentence(g, tokens@) ==> units(g, lalr, self.goto, tokens@, stack@, i as int, us, ls) && us.len() == unit_reductions,
        unit_reductions <= g.productions@.len(),
    ensures sentence(g, tokens@),
    decreases tokens@.len() - i, stack@.len(), g.productions@.len() - unit_reductions,
@hint loop 1 start
    let ghost s0 = stack@;
    let ghost i0 = i as int;
    proof { pinv_facts(g, lr, lalr, m, self.action, self.goto, tokens@, s0, syms, i0); }
    let ghost left0 = left;
    proof {
        if sentence(g, tokens@) {
            cinv_next(g, lr, lalr, m, self.action, self.goto, tokens@, s0, syms, i0, left);
            match cell(self.action, s0.last() as usize, tokens@[i0].1) {
                Some(Action::Shift(j)) => {
                    left = fewest_of(g, lalr, tokens@, s0.push(j), i0 + 1, (left0 - 1) as nat);
                    units_0(g, lalr, self.goto, tokens@, s0.push(j), i0 + 1);
                },
                Some(Action::Reduce(p)) => {
                    let s1 = red_stack(g, self.goto, s0, syms, p);
                    left = fewest_of(g, lalr, tokens@, s1, i0, (left0 - 1) as nat);
                    if rhs_of(g, p.0 as int).len() == 1 {
                        units_push(g, lalr, self.goto, tokens@, s0, syms, i0, us, ls, p, left0, left);
                        nus = us.push(p.0 as int);
                        nls = ls.push(left);
                        units_few(g, lalr, self.goto, tokens@, s1, i0, nus, nls);
                    } else { units_0(g, lalr, self.goto, tokens@, s1, i0); }
                },
                _ => { },
            }
        }
    }
@hint loop 1 end
    proof {
        assert(sentence(g, tokens@) ==> 0 <= left < left0);
        match cell(self.action, s0.last() as usize, tokens@[i0].1) {
            Some(Action::Shift(j)) => { pinv_shift(g, lalr, tokens@, s0, syms, i0, j); syms = syms.push(g.tokens@[tokens@[i0].1.0 as int]); us = seq![]; ls = seq![]; },
            Some(Action::Reduce(p)) => {
                pinv_reduce(g, lalr, self.goto, tokens@, s0, syms, i0, p, stack@);
                syms = red_syms(g, syms, p);
                reveal(pctx);
                assert(g.productions@[p.0 as int].input_tokens@.len() > 0);
                if rhs_of(g, p.0 as int).len() == 1 { us = nus; ls = nls; } else { us = seq![]; ls = seq![]; }
            },
            _ => { },
        }
    }
