@module tablesp = -
@text
// --- a table as its cells ---
pub open spec fn trow<K, V>(t: Table<K, V>, i: usize) -> Map<K, V> { if t.0@.contains_key(i) { t.0@[i]@ } else { Map::<K, V>::empty() } }
pub open spec fn cell<K, V>(t: Table<K, V>, i: usize, k: K) -> Option<V> { if trow(t, i).contains_key(k) { Some(trow(t, i)[k]) } else { None } }
// --- what the tables are to contain ---
pub open spec fn in_core(s: ISet<Entry1>, i: Item) -> bool { exists|a: TokenIdx| #[trigger] s.contains((i, a)) }
/// `j` is the state that the set goes to on `x`: the one with the core of the transition
#[verifier::opaque]
pub open spec fn target<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, s: ISet<Entry1>, x: Symbol<'a>, j: int) -> bool {
    0 <= j < lalr.len() && forall|i: Item| #[trigger] core(lalr[j]).contains(i) <==> in_core(goto_set(g, s, x), i)
}
pub open spec fn ends<'a>(g: Grammar<'a>, i: Item) -> bool { i.1 >= rhs(g, i).len() }
pub open spec fn dot_sym<'a>(g: Grammar<'a>, i: Item) -> Symbol<'a> { rhs(g, i)[i.1 as int] }
/// what the completed item with that lookahead asks for
pub open spec fn end_act(e: Entry1) -> Action { if e.0.0.0 == 0 && e.1.0 == 0 { Action::Accept } else { Action::Reduce(e.0.0) } }
/// the entry of a state asks for the action on the terminal
pub open spec fn prescribes<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, s: ISet<Entry1>, e: Entry1, a: TokenIdx, act: Action) -> bool {
    if ends(g, e.0) { a == e.1 && act == end_act(e) }
    else {
        &&& a.0 < g.tokens@.len() && g.tokens@[a.0 as int] == dot_sym(g, e.0) && !(dot_sym(g, e.0) is NonTerminal)
        &&& match act { Action::Shift(j) => target(g, lalr, s, dot_sym(g, e.0), j as int), _ => false }
    }
}
pub open spec fn st(lalr: Seq<ItemSet>, i: int) -> ISet<Entry1> { pairs(lalr[i].0@) }
pub open spec fn action_of<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, i: int, a: TokenIdx, act: Action) -> bool { exists|e: Entry1| hasp(lalr[i].0@, e) && #[trigger] prescribes(g, lalr, st(lalr, i), e, a, act) }
#[verifier::opaque]
pub open spec fn conflict<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>) -> bool { exists|i: int, a: TokenIdx, x: Action, y: Action| 0 <= i < lalr.len() && x != y && #[trigger] action_of(g, lalr, i, a, x) && #[trigger] action_of(g, lalr, i, a, y) }
pub open spec fn actions_ok<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, t: ActionTable) -> bool { forall|i: usize, a: TokenIdx, act: Action| #[trigger] action_ok(g, lalr, t, i, a, act) }
pub open spec fn action_ok<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, t: ActionTable, i: usize, a: TokenIdx, act: Action) -> bool { cell(t, i, a) == Some(act) <==> i < lalr.len() && action_of(g, lalr, i as int, a, act) }
pub open spec fn gotos_ok<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, t: GotoTable<'a>) -> bool { forall|i: usize, n: Ident<'a>, j: usize| #[trigger] goto_ok(g, lalr, t, i, n, j) }
pub open spec fn goto_ok<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, t: GotoTable<'a>, i: usize, n: Ident<'a>, j: usize) -> bool { cell(t, i, n) == Some(j) <==> i < lalr.len() && target(g, lalr, st(lalr, i as int), Symbol::NonTerminal(n), j as int) }
/// wherever the dot is before a symbol there is a state to go to
pub open spec fn goes_on<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>) -> bool { forall|i: int, e: Entry1| 0 <= i < lalr.len() && #[trigger] hasp(lalr[i].0@, e) && !ends(g, e.0) ==> has_target(g, lalr, st(lalr, i), dot_sym(g, e.0)) }
pub open spec fn has_target<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, s: ISet<Entry1>, x: Symbol<'a>) -> bool { exists|j: int| #[trigger] target(g, lalr, s, x, j) }
/// C11
#[verifier::opaque]
pub open spec fn tables_ok<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, action: ActionTable, goto: GotoTable<'a>) -> bool { actions_ok(g, lalr, action) && gotos_ok(g, lalr, goto) && goes_on(g, lalr) }
/// what the tables are made from
#[verifier::opaque]
pub open spec fn tctx<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>) -> bool { gctx(g) && collection(g, lr) && merged(lr, lalr, m) && lalr.len() <= u32::MAX && lr.len() <= isize::MAX }

// --- transitions of states with the same core have the same core ---
proof fn goto_core_p<'a>(g: Grammar<'a>, s: ISet<Entry1>, t: ISet<Entry1>, p: Seq<Entry1>)
    requires lr1path(g, s, p), forall|i: Item| in_core(s, i) ==> #[trigger] in_core_ok(g, t, i) ensures reach_ok(g, t, p.last().0) decreases p.len()
{
    if p.len() == 1 {
        assert(in_core(s, p[0].0)) by { assert(s.contains((p[0].0, p[0].1))); }
        assert(in_core_ok(g, t, p[0].0));
        let b = choose|b: TokenIdx| #[trigger] t.contains((p[0].0, b)) && la_ok(g, b);
        reach_base(g, t, (p[0].0, b));
    } else {
        let q = p.drop_last();
        assert(lr1path(g, s, q)) by { assert forall|k: int| 0 < k < q.len() implies lr1adds(g, #[trigger] q[k - 1], q[k]) by { assert(lr1adds(g, p[k - 1], p[k])); } }
        goto_core_p(g, s, t, q);
        let k = p.len() - 1;
        let e = p[k - 1];
        let f = p[k];
        assert(lr1adds(g, e, f));
        assert(q.last() == e);
        let b = choose|b: TokenIdx| #[trigger] lr1reach(g, t, (e.0, b)) && la_ok(g, b);
        if e.0.1 + 1 < rhs(g, e.0).len() {
            assert(lr1adds(g, (e.0, b), f));
            reach_add(g, t, (e.0, b), f);
            reveal(begins_av);
            assert(lr1reach(g, t, (f.0, f.1)) && la_ok(g, f.1));
        } else {
            begins_term(g.productions@, Set::empty(), g.tokens@[b.0 as int], g.tokens@[b.0 as int]);
            assert(lr1adds(g, (e.0, b), (f.0, b)));
            reach_add(g, t, (e.0, b), (f.0, b));
        }
    }
}
pub open spec fn in_core_ok<'a>(g: Grammar<'a>, t: ISet<Entry1>, i: Item) -> bool { exists|a: TokenIdx| #[trigger] t.contains((i, a)) && la_ok(g, a) }
pub open spec fn reach_ok<'a>(g: Grammar<'a>, t: ISet<Entry1>, i: Item) -> bool { exists|a: TokenIdx| #[trigger] lr1reach(g, t, (i, a)) && la_ok(g, a) }
pub proof fn goto_core<'a>(g: Grammar<'a>, a: ItemSet, b: ItemSet, x: Symbol<'a>, i: Item)
    requires iset_ok(g, a.0@), iset_ok(g, b.0@), core(a) == core(b), in_core(goto_set(g, pairs(a.0@), x), i) ensures in_core(goto_set(g, pairs(b.0@), x), i)
{
    let s = kernel(g, pairs(a.0@), x);
    let t = kernel(g, pairs(b.0@), x);
    assert forall|i: Item| in_core(s, i) implies #[trigger] in_core_ok(g, t, i) by {
        let l = choose|l: TokenIdx| #[trigger] s.contains((i, l));
        assert(moved_over(g, pairs(a.0@), x, (i, l)));
        let e = choose|e: Entry1| #[trigger] moves(g, pairs(a.0@), x, e, (i, l));
        assert(hasp(a.0@, e));
        assert(core(b).contains(e.0)) by { assert(core(a).contains(e.0)); }
        iset_key(g, b.0@, e.0);
        let c = choose|c: TokenIdx| #[trigger] b.0@[e.0]@.contains(c);
        iset_la(g, b.0@, (e.0, c));
        assert(hasp(b.0@, (e.0, c)));
        assert(moves(g, pairs(b.0@), x, (e.0, c), (i, c)));
        assert(t.contains((i, c)));
    }
    reveal(lr1reach);
    let l = choose|l: TokenIdx| #[trigger] goto_set(g, pairs(a.0@), x).contains((i, l));
    let p = choose|p: Seq<Entry1>| #[trigger] lr1path(g, s, p) && p.last() == (i, l);
    goto_core_p(g, s, t, p);
    let b2 = choose|b: TokenIdx| #[trigger] lr1reach(g, t, (i, b)) && la_ok(g, b);
    assert(goto_set(g, pairs(b.0@), x).contains((i, b2)));
}
pub proof fn core_pairs<'a>(g: Grammar<'a>, s: ItemSet, i: Item) requires iset_ok(g, s.0@) ensures core(s).contains(i) <==> in_core(pairs(s.0@), i)
{
    if core(s).contains(i) { iset_key(g, s.0@, i); let a = choose|a: TokenIdx| #[trigger] s.0@[i]@.contains(a); assert(pairs(s.0@).contains((i, a))); }
    if in_core(pairs(s.0@), i) { let a = choose|a: TokenIdx| #[trigger] pairs(s.0@).contains((i, a)); assert(hasp(s.0@, (i, a))); }
}
pub proof fn target_core<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, s: ISet<Entry1>, x: Symbol<'a>, t: ItemSet)
    requires iset_ok(g, t.0@), pairs(t.0@) == goto_set(g, s, x) ensures forall|j: int| #[trigger] target(g, lalr, s, x, j) <==> 0 <= j < lalr.len() && core(lalr[j]) == core(t), forall|j: int| 0 <= j < lalr.len() && core(#[trigger] lalr[j]) == core(t) ==> target(g, lalr, s, x, j)
{
    assert forall|j: int| #[trigger] target(g, lalr, s, x, j) <==> 0 <= j < lalr.len() && core(lalr[j]) == core(t) by {
        reveal(target);
        assert forall|i: Item| #[trigger] core(t).contains(i) <==> in_core(goto_set(g, s, x), i) by { core_pairs(g, t, i); }
        if target(g, lalr, s, x, j) { assert(core(lalr[j]) =~= core(t)); }
    }
}
pub proof fn merged_at(lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>)
    requires merged(lr, lalr, m) ensures forall|i: usize| i < lr.len() ==> #[trigger] m.contains_key(i) && m[i] < lalr.len() && core(lalr[m[i] as int]) == core(lr[i as int]) { reveal(merged); }
/// no two states have the same core
pub proof fn cores_differ(lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, j: int, k: int)
    requires merged(lr, lalr, m), 0 <= j < lalr.len(), 0 <= k < lalr.len(), core(lalr[j]) == core(lalr[k]) ensures j == k
{
    reveal(merged);
    assert(used(lr, m, j) && used(lr, m, k));
    let a = choose|i: usize| i < lr.len() && #[trigger] m[i] == j;
    let b = choose|i: usize| i < lr.len() && #[trigger] m[i] == k;
    assert(core(lr[a as int]) == core(lr[b as int]));
}
pub proof fn tctx_of<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>) requires tctx(g, lr, lalr, m) ensures gctx(g), collection(g, lr), merged(lr, lalr, m), lalr.len() <= u32::MAX, lr.len() <= isize::MAX, g.tokens@.len() <= u32::MAX, tokens_ok(g.tokens@, g.productions@)
{ reveal(tctx); reveal(gctx); reveal(tokens_ok); }
pub proof fn target_unique<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, s: ISet<Entry1>, x: Symbol<'a>, j: int, k: int)
    requires tctx(g, lr, lalr, m), target(g, lalr, s, x, j), target(g, lalr, s, x, k) ensures j == k
{
    tctx_of(g, lr, lalr, m);
    reveal(target);
    assert(core(lalr[j]) =~= core(lalr[k]));
    cores_differ(lr, lalr, m, j, k);
}
pub proof fn lalr_ok<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, k: int)
    requires tctx(g, lr, lalr, m), 0 <= k < lalr.len() ensures iset_ok(g, lalr[k].0@)
{
    tctx_of(g, lr, lalr, m);
    reveal(merged);
    let d = lalr[k].0@;
    assert(used(lr, m, k));
    let l = choose|i: usize| i < lr.len() && #[trigger] m[i] == k;
    coll_state(g, lr, l as int);
    assert forall|i: Item| #[trigger] d.contains_key(i) implies item_ok(g, i) && exists|a: TokenIdx| #[trigger] d[i]@.contains(a) by {
        assert(core(lalr[k]).contains(i));
        assert(core(lr[l as int]).contains(i));
        iset_key(g, lr[l as int].0@, i);
        let a = choose|a: TokenIdx| #[trigger] lr[l as int].0@[i]@.contains(a);
        assert(hasp(lr[l as int].0@, (i, a)));
        assert(in_some(lr, m, k, (i, a)));
        assert(hasp(d, (i, a)));
    }
    assert forall|e: Entry1| #[trigger] hasp(d, e) implies entry_ok(g, e) by {
        assert(in_some(lr, m, k, e));
        let i = choose|i: usize| i < lr.len() && #[trigger] m[i] == k && hasp(lr[i as int].0@, e);
        coll_state(g, lr, i as int);
        iset_la(g, lr[i as int].0@, e);
    }
    reveal(iset_ok);
}
pub proof fn target_exists<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, k: int, e: Entry1)
    requires tctx(g, lr, lalr, m), 0 <= k < lalr.len(), hasp(lalr[k].0@, e), !ends(g, e.0) ensures has_target(g, lalr, st(lalr, k), dot_sym(g, e.0))
{
    let x = dot_sym(g, e.0);
    tctx_of(g, lr, lalr, m);
    lalr_ok(g, lr, lalr, m, k);
    merged_at(lr, lalr, m);
    assert(used(lr, m, k)) by { reveal(merged); }
    let l = choose|i: usize| i < lr.len() && #[trigger] m[i] == k;
    assert(m.contains_key(l));
    coll_state(g, lr, l as int);
    assert(core(lalr[k]).contains(e.0));
    assert(core(lr[l as int]).contains(e.0));
    iset_key(g, lr[l as int].0@, e.0);
    let s = pairs(lr[l as int].0@);
    let a = choose|a: TokenIdx| #[trigger] lr[l as int].0@[e.0]@.contains(a);
    assert(s.contains((e.0, a)));
    let f = (inc(e.0), a);
    assert(moves(g, s, x, (e.0, a), f));
    assert(moved_over(g, s, x, f));
    reach_base(g, kernel(g, s, x), f);
    assert(goto_set(g, s, x).contains(f));
    assert(some_entry(goto_set(g, s, x)));
    assert(goes(g, lr, s, x));
    let i = choose|i: int| 0 <= i < lr.len() && pairs(#[trigger] lr[i].0@) == goto_set(g, s, x);
    coll_state(g, lr, i);
    let j = m[i as usize] as int;
    assert(m.contains_key(i as usize));
    assert(target(g, lalr, st(lalr, k), x, j)) by {
        reveal(target);
        assert forall|it: Item| #[trigger] core(lalr[j]).contains(it) <==> in_core(goto_set(g, st(lalr, k), x), it) by {
            core_pairs(g, lr[i], it);
            if in_core(goto_set(g, s, x), it) { goto_core(g, lr[l as int], lalr[k], x, it); }
            if in_core(goto_set(g, st(lalr, k), x), it) { goto_core(g, lalr[k], lr[l as int], x, it); }
        }
    }
}
pub proof fn goes_on_of<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>) requires tctx(g, lr, lalr, m) ensures goes_on(g, lalr)
{
    assert forall|i: int, e: Entry1| 0 <= i < lalr.len() && #[trigger] hasp(lalr[i].0@, e) && !ends(g, e.0) implies has_target(g, lalr, st(lalr, i), dot_sym(g, e.0)) by { target_exists(g, lr, lalr, m, i, e); }
}

// --- filling the action table ---
/// one of the first n items asks for the action
pub open spec fn asked<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, s: ISet<Entry1>, its: Seq<(&'a Item, &'a BTreeSet<TokenIdx>)>, n: int, a: TokenIdx, act: Action) -> bool { exists|k: int, l: TokenIdx| 0 <= k < n && its[k].1@.contains(l) && #[trigger] prescribes(g, lalr, s, (*its[k].0, l), a, act) }
pub open spec fn asked_las<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, s: ISet<Entry1>, it: Item, ls: Seq<&'a TokenIdx>, m: int, a: TokenIdx, act: Action) -> bool { exists|q: int| 0 <= q < m && #[trigger] prescribes(g, lalr, s, (it, *ls[q]), a, act) }
pub open spec fn filled_at<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, t: ActionTable, i: usize, a: TokenIdx, act: Action) -> bool { cell(t, i, a) == Some(act) <==> i < n && action_of(g, lalr, i as int, a, act) }
#[verifier::opaque]
pub open spec fn filled<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, t: ActionTable) -> bool { forall|i: usize, a: TokenIdx, act: Action| #[trigger] filled_at(g, lalr, n, t, i, a, act) }
pub open spec fn filled2_at<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, its: Seq<(&'a Item, &'a BTreeSet<TokenIdx>)>, k: int, t: ActionTable, i: usize, a: TokenIdx, act: Action) -> bool {
    cell(t, i, a) == Some(act) <==> i < n && action_of(g, lalr, i as int, a, act) || i == n && asked(g, lalr, st(lalr, n), its, k, a, act)
}
#[verifier::opaque]
pub open spec fn filled2<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, its: Seq<(&'a Item, &'a BTreeSet<TokenIdx>)>, k: int, t: ActionTable) -> bool { forall|i: usize, a: TokenIdx, act: Action| #[trigger] filled2_at(g, lalr, n, its, k, t, i, a, act) }
pub open spec fn filled3_at<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, it: Item, ls: Seq<&'a TokenIdx>, m: int, t0: ActionTable, t: ActionTable, i: usize, a: TokenIdx, act: Action) -> bool {
    cell(t, i, a) == Some(act) <==> cell(t0, i, a) == Some(act) || i == n && asked_las(g, lalr, st(lalr, n), it, ls, m, a, act)
}
/// the first m lookaheads of the item are in, in addition to what was in `t0`
#[verifier::opaque]
pub open spec fn filled3<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, it: Item, ls: Seq<&'a TokenIdx>, m: int, t0: ActionTable, t: ActionTable) -> bool { forall|i: usize, a: TokenIdx, act: Action| #[trigger] filled3_at(g, lalr, n, it, ls, m, t0, t, i, a, act) }
pub proof fn filled_0<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, t: ActionTable) requires t.0@ == Map::<usize, BTreeMap<TokenIdx, Action>>::empty() ensures filled(g, lalr, 0, t) { reveal(filled); }
pub proof fn filled2_0<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, its: Seq<(&'a Item, &'a BTreeSet<TokenIdx>)>, t: ActionTable) requires filled(g, lalr, n, t) ensures filled2(g, lalr, n, its, 0, t)
{ reveal(filled); reveal(filled2); assert forall|i: usize, a: TokenIdx, act: Action| #[trigger] filled2_at(g, lalr, n, its, 0, t, i, a, act) by { assert(filled_at(g, lalr, n, t, i, a, act)); } }
pub proof fn filled3_0<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, it: Item, ls: Seq<&'a TokenIdx>, t: ActionTable) ensures filled3(g, lalr, n, it, ls, 0, t, t) { reveal(filled3); }
pub proof fn filled2_done<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, its: Seq<(&'a Item, &'a BTreeSet<TokenIdx>)>, t: ActionTable)
    requires filled2(g, lalr, n, its, its.len() as int, t), map_refs(its, lalr[n].0@), 0 <= n ensures filled(g, lalr, n + 1, t)
{
    reveal(filled); reveal(filled2);
    assert forall|i: usize, a: TokenIdx, act: Action| #[trigger] filled_at(g, lalr, n + 1, t, i, a, act) by {
        assert(filled2_at(g, lalr, n, its, its.len() as int, t, i, a, act));
        if i == n { asked_all(g, lalr, n, its, a, act); }
    }
}
pub proof fn asked_all<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, its: Seq<(&'a Item, &'a BTreeSet<TokenIdx>)>, a: TokenIdx, act: Action)
    requires map_refs(its, lalr[n].0@) ensures asked(g, lalr, st(lalr, n), its, its.len() as int, a, act) <==> action_of(g, lalr, n, a, act)
{
    let s = st(lalr, n);
    if asked(g, lalr, s, its, its.len() as int, a, act) { asked_is(g, lalr, n, its, its.len() as int, a, act); }
    if action_of(g, lalr, n, a, act) {
        let e = choose|e: Entry1| hasp(lalr[n].0@, e) && #[trigger] prescribes(g, lalr, s, e, a, act);
        let k = choose|k: int| 0 <= k < its.len() && *(#[trigger] its[k]).0 == e.0;
        assert(prescribes(g, lalr, s, (*its[k].0, e.1), a, act));
    }
}
pub proof fn asked_is<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, its: Seq<(&'a Item, &'a BTreeSet<TokenIdx>)>, m: int, a: TokenIdx, act: Action)
    requires map_refs(its, lalr[n].0@), m <= its.len(), asked(g, lalr, st(lalr, n), its, m, a, act) ensures action_of(g, lalr, n, a, act)
{
    let (k, l) = choose|k: int, l: TokenIdx| 0 <= k < m && its[k].1@.contains(l) && #[trigger] prescribes(g, lalr, st(lalr, n), (*its[k].0, l), a, act);
    assert(lalr[n].0@.contains_key(*its[k].0));
    assert(hasp(lalr[n].0@, (*its[k].0, l)));
}
/// what an item contributes: its shift, or one action for each lookahead
pub open spec fn item_adds<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, it: Item, las: Set<TokenIdx>, t0: ActionTable, t: ActionTable) -> bool {
    if ends(g, it) { exists|ls: Seq<&'a TokenIdx>| enum_refs(ls, las) && #[trigger] filled3(g, lalr, n, it, ls, ls.len() as int, t0, t) }
    else if dot_sym(g, it) is NonTerminal { t0 == t }
    else { shift_adds(g, lalr, n, it, t0, t) }
}
pub open spec fn same_cells<K, V>(t0: Table<K, V>, t: Table<K, V>) -> bool { forall|i: usize, k: K| #[trigger] cell(t, i, k) == cell(t0, i, k) }
#[verifier::opaque]
pub open spec fn one_cell<K, V>(t0: Table<K, V>, t: Table<K, V>, n: int, k0: K, v: V) -> bool { forall|i: usize, k: K| #[trigger] cell(t, i, k) == (if i == n && k == k0 { Some(v) } else { cell(t0, i, k) }) }
/// the row has got the value under the key, or it was there
pub open spec fn written<K, V>(t0: Table<K, V>, t: Table<K, V>, n: usize, k: K, v: V) -> bool {
    t.0@ == t0.0@.insert(n, t.0@[n]) && (t.0@[n]@ == trow(t0, n).insert(k, v) || t.0@[n]@ == trow(t0, n) && cell(t0, n, k) == Some(v))
}
pub proof fn one_cell_of<K, V>(t0: Table<K, V>, t: Table<K, V>, n: usize, k0: K, v: V) requires written(t0, t, n, k0, v) ensures one_cell(t0, t, n as int, k0, v)
{
    reveal(one_cell);
    assert forall|i: usize, k: K| #[trigger] cell(t, i, k) == (if i == n && k == k0 { Some(v) } else { cell(t0, i, k) }) by {
        if i == n { assert(trow(t, i) == t.0@[n]@); if t.0@[n]@ == trow(t0, n) { } else { } }
        else { assert(trow(t, i) == trow(t0, i)); }
    }
}
/// the index of the symbol
pub open spec fn tok_of<'a>(g: Grammar<'a>, x: Symbol<'a>) -> TokenIdx { choose|a: TokenIdx| a.0 < g.tokens@.len() && #[trigger] g.tokens@[a.0 as int] == x }
/// the state that the set goes to
pub open spec fn to_of<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, s: ISet<Entry1>, x: Symbol<'a>) -> int { choose|j: int| #[trigger] target(g, lalr, s, x, j) }
pub open spec fn shift_adds<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, it: Item, t0: ActionTable, t: ActionTable) -> bool {
    let a = tok_of(g, dot_sym(g, it));
    let x = Action::Shift(to_of(g, lalr, st(lalr, n), dot_sym(g, it)) as u32);
    written(t0, t, n as usize, a, x) && (cell(t0, n as usize, a) is None || cell(t0, n as usize, a) == Some(x))
}
pub proof fn item_step<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, n: int, its: Seq<(&'a Item, &'a BTreeSet<TokenIdx>)>, k: int, t0: ActionTable, t: ActionTable)
    requires tctx(g, lr, lalr, m), 0 <= n < lalr.len(), map_refs(its, lalr[n].0@), 0 <= k < its.len(), filled2(g, lalr, n, its, k, t0), item_adds(g, lalr, n, *its[k].0, its[k].1@, t0, t)
    ensures filled2(g, lalr, n, its, k + 1, t)
{
    reveal(filled2); reveal(filled3);
    tctx_of(g, lr, lalr, m);
    lalr_ok(g, lr, lalr, m, n);
    let it = *its[k].0;
    let s = st(lalr, n);
    assert(lalr[n].0@.contains_key(it));
    iset_key(g, lalr[n].0@, it);
    let ls = if ends(g, it) { choose|ls: Seq<&'a TokenIdx>| enum_refs(ls, its[k].1@) && #[trigger] filled3(g, lalr, n, it, ls, ls.len() as int, t0, t) } else { Seq::empty() };
    assert forall|i: usize, a: TokenIdx, act: Action| #[trigger] filled2_at(g, lalr, n, its, k + 1, t, i, a, act) by {
        assert(filled2_at(g, lalr, n, its, k, t0, i, a, act));
        // what this item asks for
        let mine = exists|l: TokenIdx| its[k].1@.contains(l) && #[trigger] prescribes(g, lalr, s, (it, l), a, act);
        assert(asked(g, lalr, s, its, k + 1, a, act) <==> asked(g, lalr, s, its, k, a, act) || mine) by {
            if mine { let l = choose|l: TokenIdx| its[k].1@.contains(l) && #[trigger] prescribes(g, lalr, s, (it, l), a, act); assert(prescribes(g, lalr, s, (*its[k].0, l), a, act)); }
            if asked(g, lalr, s, its, k, a, act) { let (k2, l) = choose|k2: int, l: TokenIdx| 0 <= k2 < k && its[k2].1@.contains(l) && #[trigger] prescribes(g, lalr, s, (*its[k2].0, l), a, act); assert(prescribes(g, lalr, s, (*its[k2].0, l), a, act)); }
            if asked(g, lalr, s, its, k + 1, a, act) { let (k2, l) = choose|k2: int, l: TokenIdx| 0 <= k2 < k + 1 && its[k2].1@.contains(l) && #[trigger] prescribes(g, lalr, s, (*its[k2].0, l), a, act); if k2 < k { assert(prescribes(g, lalr, s, (*its[k2].0, l), a, act)); } else { assert(prescribes(g, lalr, s, (it, l), a, act)); } }
        }
        if ends(g, it) {
            assert(filled3_at(g, lalr, n, it, ls, ls.len() as int, t0, t, i, a, act));
            assert(asked_las(g, lalr, s, it, ls, ls.len() as int, a, act) <==> mine) by {
                if mine { let l = choose|l: TokenIdx| its[k].1@.contains(l) && #[trigger] prescribes(g, lalr, s, (it, l), a, act); let q = choose|q: int| 0 <= q < ls.len() && *#[trigger] ls[q] == l; assert(prescribes(g, lalr, s, (it, *ls[q]), a, act)); }
                if asked_las(g, lalr, s, it, ls, ls.len() as int, a, act) { let q = choose|q: int| 0 <= q < ls.len() && #[trigger] prescribes(g, lalr, s, (it, *ls[q]), a, act); assert(its[k].1@.contains(*ls[q])); }
            }
        } else if dot_sym(g, it) is NonTerminal {
            assert(!mine);
            assert(cell(t, i, a) == cell(t0, i, a));
        } else {
            let x = dot_sym(g, it);
            refusal_shift(g, lr, lalr, m, n, its, k, t0);
            assert(shift_facts(g, lalr, n, x, t0));
            let a1 = choose|p: int| 0 <= p < g.tokens@.len() && #[trigger] g.tokens@[p] == x;
            assert(g.tokens@[TokenIdx(a1 as u32).0 as int] == x);
            let a0 = tok_of(g, x);
            let j = to_of(g, lalr, s, x) as u32;
            assert(target(g, lalr, s, x, to_of(g, lalr, s, x)));
            one_cell_of(t0, t, n as usize, a0, Action::Shift(j));
            reveal(one_cell);
            assert(cell(t, i, a) == (if i == n && a == a0 { Some(Action::Shift(j)) } else { cell(t0, i, a) }));
            assert(mine <==> a == a0 && act == Action::Shift(j)) by {
                let l0 = choose|l: TokenIdx| #[trigger] lalr[n].0@[it]@.contains(l);
                if a == a0 && act == Action::Shift(j) { assert(prescribes(g, lalr, s, (it, l0), a, act)); }
                if mine {
                    let l = choose|l: TokenIdx| its[k].1@.contains(l) && #[trigger] prescribes(g, lalr, s, (it, l), a, act);
                    match act { Action::Shift(j2) => { target_unique(g, lr, lalr, m, s, dot_sym(g, it), j as int, j2 as int); }, _ => { } }
                }
            }
        }
    }
}
/// what is in the table was asked for: another action that is asked for is a conflict
pub proof fn refusal_shift<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, n: int, its: Seq<(&'a Item, &'a BTreeSet<TokenIdx>)>, k: int, t0: ActionTable)
    requires tctx(g, lr, lalr, m), 0 <= n < lalr.len(), map_refs(its, lalr[n].0@), 0 <= k < its.len(), filled2(g, lalr, n, its, k, t0)
    ensures !ends(g, *its[k].0) ==> shift_facts(g, lalr, n, dot_sym(g, *its[k].0), t0)
{
    tctx_of(g, lr, lalr, m);
    let it = *its[k].0;
    let s = st(lalr, n);
    if !ends(g, it) {
        let x = dot_sym(g, it);
        lalr_ok(g, lr, lalr, m, n);
        assert(lalr[n].0@.contains_key(it));
        iset_key(g, lalr[n].0@, it);
        let l0 = choose|l: TokenIdx| #[trigger] lalr[n].0@[it]@.contains(l);
        target_exists(g, lr, lalr, m, n, (it, l0));
        occurs_at(g, it);
        assert(sym_in(g.tokens@, x)) by { reveal(tokens_ok); }
        let a1 = choose|p: int| 0 <= p < g.tokens@.len() && #[trigger] g.tokens@[p] == x;
        assert(g.tokens@[TokenIdx(a1 as u32).0 as int] == x);
        let a = tok_of(g, x);
        let j = to_of(g, lalr, s, x);
        assert forall|b: TokenIdx| b.0 < g.tokens@.len() && #[trigger] g.tokens@[b.0 as int] == x implies b == a by {
            reveal(tokens_ok);
            if a.0 < b.0 { assert(g.tokens@[a.0 as int] != g.tokens@[b.0 as int]); }
            if b.0 < a.0 { assert(g.tokens@[b.0 as int] != g.tokens@[a.0 as int]); }
        }
        assert forall|i: int| #[trigger] target(g, lalr, s, x, i) implies i == j by { target_unique(g, lr, lalr, m, s, x, i, j); }
        assert(0 <= j < lalr.len()) by { reveal(target); }
        if !(x is NonTerminal) && cell(t0, n as usize, a) is Some && cell(t0, n as usize, a) != Some(Action::Shift(j as u32)) {
            let y = cell(t0, n as usize, a)->0;
            reveal(filled2); reveal(conflict);
            assert(filled2_at(g, lalr, n, its, k, t0, n as usize, a, y));
            asked_is(g, lalr, n, its, k, a, y);
            assert(hasp(lalr[n].0@, (it, l0)));
            assert(prescribes(g, lalr, s, (it, l0), a, Action::Shift(j as u32)));
            assert(action_of(g, lalr, n, a, Action::Shift(j as u32)) && action_of(g, lalr, n, a, y));
        }
    }
}
/// what the code relies on when it shifts
pub open spec fn shift_facts<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, x: Symbol<'a>, t0: ActionTable) -> bool {
    &&& sym_in(g.tokens@, x)
    &&& has_target(g, lalr, st(lalr, n), x)
    &&& forall|b: TokenIdx| b.0 < g.tokens@.len() && #[trigger] g.tokens@[b.0 as int] == x ==> b == tok_of(g, x)
    &&& forall|i: int| #[trigger] target(g, lalr, st(lalr, n), x, i) ==> i == to_of(g, lalr, st(lalr, n), x)
    &&& 0 <= to_of(g, lalr, st(lalr, n), x) < lalr.len()
    &&& !(x is NonTerminal) && cell(t0, n as usize, tok_of(g, x)) is Some && cell(t0, n as usize, tok_of(g, x)) != Some(Action::Shift(to_of(g, lalr, st(lalr, n), x) as u32)) ==> conflict(g, lalr)
}
pub proof fn refusal_end<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, n: int, its: Seq<(&'a Item, &'a BTreeSet<TokenIdx>)>, k: int, ls: Seq<&'a TokenIdx>, q: int, t0: ActionTable, t: ActionTable)
    requires tctx(g, lr, lalr, m), 0 <= n < lalr.len(), map_refs(its, lalr[n].0@), 0 <= k < its.len(), enum_refs(ls, its[k].1@), filled2(g, lalr, n, its, k, t0), ends(g, *its[k].0), 0 <= q < ls.len(), filled3(g, lalr, n, *its[k].0, ls, q, t0, t)
    ensures cell(t, n as usize, *ls[q]) is Some ==> conflict(g, lalr)
{
    tctx_of(g, lr, lalr, m);
    let it = *its[k].0;
    let s = st(lalr, n);
    let a = *ls[q];
    if cell(t, n as usize, a) is Some {
        let x = cell(t, n as usize, a)->0;
        let y = end_act((it, a));
        reveal(filled2); reveal(filled3); reveal(conflict);
        lalr_ok(g, lr, lalr, m, n);
        assert(lalr[n].0@.contains_key(it));
        assert(filled2_at(g, lalr, n, its, k, t0, n as usize, a, x));
        assert(filled3_at(g, lalr, n, it, ls, q, t0, t, n as usize, a, x));
        assert(its[k].1@.contains(a));
        assert(hasp(lalr[n].0@, (it, a)));
        assert(prescribes(g, lalr, s, (it, a), a, y));
        assert(action_of(g, lalr, n, a, y));
        if asked_las(g, lalr, s, it, ls, q, a, x) {
            let p = choose|p: int| 0 <= p < q && #[trigger] prescribes(g, lalr, s, (it, *ls[p]), a, x);
            assert(*ls[p] != *ls[q]);
        } else {
            assert(asked(g, lalr, s, its, k, a, x));
            asked_is(g, lalr, n, its, k, a, x);
            if x == y {
                let (k2, l) = choose|k2: int, l: TokenIdx| 0 <= k2 < k && its[k2].1@.contains(l) && #[trigger] prescribes(g, lalr, s, (*its[k2].0, l), a, x);
                let i2 = *its[k2].0;
                assert(lalr[n].0@.contains_key(i2));
                iset_key(g, lalr[n].0@, i2);
                iset_key(g, lalr[n].0@, it);
                assert(i2.0 == it.0 && i2.1 == it.1);
                assert(*its[k2].0 != *its[k].0);
            }
        }
    }
}
pub proof fn filled3_step<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, it: Item, ls: Seq<&'a TokenIdx>, q: int, t0: ActionTable, t: ActionTable, t2: ActionTable)
    requires filled3(g, lalr, n, it, ls, q, t0, t), ends(g, it), 0 <= q < ls.len(), 0 <= n <= usize::MAX, cell(t, n as usize, *ls[q]) is None, written(t, t2, n as usize, *ls[q], end_act((it, *ls[q]))) ensures filled3(g, lalr, n, it, ls, q + 1, t0, t2)
{
    reveal(filled3); reveal(one_cell);
    one_cell_of(t, t2, n as usize, *ls[q], end_act((it, *ls[q])));
    let s = st(lalr, n);
    assert forall|i: usize, a: TokenIdx, act: Action| #[trigger] filled3_at(g, lalr, n, it, ls, q + 1, t0, t2, i, a, act) by {
        assert(filled3_at(g, lalr, n, it, ls, q, t0, t, i, a, act));
        assert(cell(t2, i, a) == (if i == n && a == *ls[q] { Some(end_act((it, *ls[q]))) } else { cell(t, i, a) }));
        let mine = prescribes(g, lalr, s, (it, *ls[q]), a, act);
        assert(asked_las(g, lalr, s, it, ls, q + 1, a, act) <==> asked_las(g, lalr, s, it, ls, q, a, act) || mine) by {
            if asked_las(g, lalr, s, it, ls, q + 1, a, act) { let p = choose|p: int| 0 <= p < q + 1 && #[trigger] prescribes(g, lalr, s, (it, *ls[p]), a, act); assert(p < q ==> asked_las(g, lalr, s, it, ls, q, a, act)); }
        }
    }
}
pub proof fn filled_done<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, t: ActionTable) requires filled(g, lalr, lalr.len() as int, t) ensures actions_ok(g, lalr, t)
{ reveal(filled); assert forall|i: usize, a: TokenIdx, act: Action| #[trigger] action_ok(g, lalr, t, i, a, act) by { assert(filled_at(g, lalr, lalr.len() as int, t, i, a, act)); } }

// --- filling the goto table ---
pub open spec fn goto_at<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, k: int, t: GotoTable<'a>, i: usize, x: Ident<'a>, j: usize) -> bool {
    cell(t, i, x) == Some(j) <==> (i < n || i == n && nt_before(g, k, x)) && target(g, lalr, st(lalr, i as int), Symbol::NonTerminal(x), j as int)
}
pub open spec fn nt_before<'a>(g: Grammar<'a>, k: int, x: Ident<'a>) -> bool { exists|p: int| 0 <= p < k && p < g.tokens@.len() && #[trigger] g.tokens@[p] == Symbol::NonTerminal(x) }
#[verifier::opaque]
pub open spec fn gotos<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, k: int, t: GotoTable<'a>) -> bool { forall|i: usize, x: Ident<'a>, j: usize| #[trigger] goto_at(g, lalr, n, k, t, i, x, j) }
/// the non-terminals that the first n entries of the list reach up to
pub open spec fn upto<'a, 'b>(g: Grammar<'a>, l: Seq<(TokenIdx, &'b Ident<'a>)>, n: int) -> int { if n < l.len() { l[n].0.0 as int } else { g.tokens@.len() as int } }
pub proof fn gotos_0<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, t: GotoTable<'a>) requires t.0@ == Map::<usize, BTreeMap<Ident<'a>, usize>>::empty() ensures gotos(g, lalr, 0, 0, t) { reveal(gotos); }
pub proof fn gotos_first<'a, 'b>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, l: Seq<(TokenIdx, &'b Ident<'a>)>, t: GotoTable<'a>) requires gotos(g, lalr, n, 0, t), nts_ok(l, g.tokens@, g.tokens@.len() as int) ensures gotos(g, lalr, n, upto(g, l, 0), t)
{
    reveal(gotos);
    assert forall|i: usize, x: Ident<'a>, j: usize| #[trigger] goto_at(g, lalr, n, upto(g, l, 0), t, i, x, j) by {
        assert(goto_at(g, lalr, n, 0, t, i, x, j));
        if nt_before(g, upto(g, l, 0), x) {
            let p = choose|p: int| 0 <= p < upto(g, l, 0) && p < g.tokens@.len() && #[trigger] g.tokens@[p] == Symbol::NonTerminal(x);
            assert(nt_listed(l, p));
            let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).0.0 == p;
            if k > 0 { assert(l[0].0.0 < l[k].0.0); }
        }
    }
}
pub proof fn gotos_step<'a, 'b>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, n: int, l: Seq<(TokenIdx, &'b Ident<'a>)>, q: int, t0: GotoTable<'a>, t: GotoTable<'a>)
    requires tctx(g, lr, lalr, m), 0 <= n < lalr.len(), gotos(g, lalr, n, upto(g, l, q), t0), nts_ok(l, g.tokens@, g.tokens@.len() as int), 0 <= q < l.len(),
        goto_adds(g, lalr, n, *l[q].1, t0, t)
    ensures gotos(g, lalr, n, upto(g, l, q + 1), t)
{
    reveal(gotos); reveal(one_cell);
    tctx_of(g, lr, lalr, m);
    let y = *l[q].1;
    assert forall|i: usize, x: Ident<'a>, j: usize| #[trigger] goto_at(g, lalr, n, upto(g, l, q + 1), t, i, x, j) by {
        assert(goto_at(g, lalr, n, upto(g, l, q), t0, i, x, j));
        assert(nt_before(g, upto(g, l, q + 1), x) <==> nt_before(g, upto(g, l, q), x) || x == y) by {
            if q + 1 < l.len() { assert(l[q].0.0 < l[q + 1].0.0); }
            if x == y { assert(g.tokens@[l[q].0.0 as int] == Symbol::NonTerminal(x)); }
            if nt_before(g, upto(g, l, q), x) { let p = choose|p: int| 0 <= p < upto(g, l, q) && p < g.tokens@.len() && #[trigger] g.tokens@[p] == Symbol::NonTerminal(x); assert(p < upto(g, l, q + 1)); }
            if nt_before(g, upto(g, l, q + 1), x) {
                let p = choose|p: int| 0 <= p < upto(g, l, q + 1) && p < g.tokens@.len() && #[trigger] g.tokens@[p] == Symbol::NonTerminal(x);
                assert(nt_listed(l, p));
                let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).0.0 == p;
                if k > q + 1 { assert(l[q + 1].0.0 < l[k].0.0); }
                if k == q + 1 { }
                if k < q { assert(l[k].0.0 < l[q].0.0); }
            }
        }
        // the symbols are distinct
        assert(x == y ==> !nt_before(g, upto(g, l, q), x)) by {
            if x == y && nt_before(g, upto(g, l, q), x) {
                reveal(tokens_ok);
                let p = choose|p: int| 0 <= p < upto(g, l, q) && p < g.tokens@.len() && #[trigger] g.tokens@[p] == Symbol::NonTerminal(x);
                assert(g.tokens@[p] != g.tokens@[l[q].0.0 as int]);
            }
        }
        assert(cell(t, i, x) is Some ==> i != n || x != y || cell(t, i, x)->0 as int >= 0);
        if i == n && x == y {
            if has_target(g, lalr, st(lalr, n), Symbol::NonTerminal(y)) {
                let jj = to_of(g, lalr, st(lalr, n), Symbol::NonTerminal(y)) as usize;
                assert(target(g, lalr, st(lalr, n), Symbol::NonTerminal(y), to_of(g, lalr, st(lalr, n), Symbol::NonTerminal(y))));
                assert(jj == to_of(g, lalr, st(lalr, n), Symbol::NonTerminal(y))) by { reveal(target); }
                assert(cell(t, i, x) == Some(jj));
                if target(g, lalr, st(lalr, n), Symbol::NonTerminal(y), j as int) { target_unique(g, lr, lalr, m, st(lalr, n), Symbol::NonTerminal(y), j as int, jj as int); }
            } else {
                assert(cell(t, i, x) == cell(t0, i, x));
                assert(!target(g, lalr, st(lalr, n), Symbol::NonTerminal(y), j as int));
            }
        } else {
            assert(cell(t, i, x) == cell(t0, i, x));
        }
    }
}
pub open spec fn goto_adds<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, y: Ident<'a>, t0: GotoTable<'a>, t: GotoTable<'a>) -> bool {
    if has_target(g, lalr, st(lalr, n), Symbol::NonTerminal(y)) { one_cell(t0, t, n, y, to_of(g, lalr, st(lalr, n), Symbol::NonTerminal(y)) as usize) } else { t0 == t }
}
/// how the code finds the state to go to
pub proof fn target_to<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, n: int, x: Symbol<'a>, t: ItemSet)
    requires tctx(g, lr, lalr, m), 0 <= n < lalr.len(), iset_ok(g, t.0@), pairs(t.0@) == goto_set(g, st(lalr, n), x) ensures to_facts(g, lalr, n, x, t)
{
    target_core(g, lalr, st(lalr, n), x, t);
    assert forall|i: int| #[trigger] target(g, lalr, st(lalr, n), x, i) implies i == to_of(g, lalr, st(lalr, n), x) by { target_unique(g, lr, lalr, m, st(lalr, n), x, i, to_of(g, lalr, st(lalr, n), x)); }
    assert forall|j: int| 0 <= j < lalr.len() && core(#[trigger] lalr[j]) == core(t) implies j == to_of(g, lalr, st(lalr, n), x) && has_target(g, lalr, st(lalr, n), x) by { assert(target(g, lalr, st(lalr, n), x, j)); }
    if forall|j: int| 0 <= j < lalr.len() ==> core(#[trigger] lalr[j]) != core(t) { if has_target(g, lalr, st(lalr, n), x) { let j = to_of(g, lalr, st(lalr, n), x); assert(target(g, lalr, st(lalr, n), x, j)); assert(core(lalr[j]) == core(t)); } }
}
pub open spec fn to_facts<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, n: int, x: Symbol<'a>, t: ItemSet) -> bool {
    &&& forall|j: int| 0 <= j < lalr.len() && core(#[trigger] lalr[j]) == core(t) ==> j == to_of(g, lalr, st(lalr, n), x) && has_target(g, lalr, st(lalr, n), x)
    &&& (forall|j: int| 0 <= j < lalr.len() ==> core(#[trigger] lalr[j]) != core(t)) ==> !has_target(g, lalr, st(lalr, n), x)
}
pub proof fn gotos_next<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, n: int, t: GotoTable<'a>)
    requires tctx(g, lr, lalr, m), 0 <= n < lalr.len(), gotos(g, lalr, n, g.tokens@.len() as int, t) ensures gotos(g, lalr, n + 1, 0, t)
{
    reveal(gotos);
    tctx_of(g, lr, lalr, m);
    lalr_ok(g, lr, lalr, m, n);
    assert forall|i: usize, x: Ident<'a>, j: usize| #[trigger] goto_at(g, lalr, n + 1, 0, t, i, x, j) by {
        assert(goto_at(g, lalr, n, g.tokens@.len() as int, t, i, x, j));
        if i == n {
            let y = Symbol::NonTerminal(x);
            if sym_in(g.tokens@, y) { let p = choose|p: int| 0 <= p < g.tokens@.len() && #[trigger] g.tokens@[p] == y; assert(nt_before(g, g.tokens@.len() as int, x)); }
            else if target(g, lalr, st(lalr, n), y, j as int) {
                goto_other(g, lalr[n].0@, y);
                reveal(target);
                no_empty(g, lr, lalr, m, j as int);
                let it = choose|it: Item| core(lalr[j as int]).contains(it);
                assert(in_core(goto_set(g, st(lalr, n), y), it));
                let a = choose|a: TokenIdx| #[trigger] goto_set(g, st(lalr, n), y).contains((it, a));
                assert(some_entry(goto_set(g, st(lalr, n), y)));
            }
        }
    }
}
pub proof fn no_empty<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>, j: int)
    requires tctx(g, lr, lalr, m), 0 <= j < lalr.len() ensures exists|i: Item| core(lalr[j]).contains(i)
{
    tctx_of(g, lr, lalr, m);
    merged_at(lr, lalr, m);
    assert(used(lr, m, j)) by { reveal(merged); }
    let l = choose|i: usize| i < lr.len() && #[trigger] m[i] == j;
    assert(m.contains_key(l));
    coll_state(g, lr, l as int);
    let e = choose|e: Entry1| #[trigger] pairs(lr[l as int].0@).contains(e);
    assert(hasp(lr[l as int].0@, e));
    assert(core(lr[l as int]).contains(e.0));
    assert(core(lalr[j]).contains(e.0));
}
pub proof fn gotos_done<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>, t: GotoTable<'a>) requires gotos(g, lalr, lalr.len() as int, 0, t) ensures gotos_ok(g, lalr, t)
{ reveal(gotos); assert forall|i: usize, n: Ident<'a>, j: usize| #[trigger] goto_ok(g, lalr, t, i, n, j) by { assert(goto_at(g, lalr, lalr.len() as int, 0, t, i, n, j)); } }

// --- what the whole construction needs and gives ---
/// the core digests do not collide, and the states can be numbered
#[verifier::opaque]
pub open spec fn no_digest_clash<'a>(g: Grammar<'a>) -> bool { forall|lr: Seq<ItemSet>| #[trigger] collection(g, lr) ==> no_collision(lr) && lr.len() <= u32::MAX && lr.len() <= isize::MAX }
#[verifier::opaque]
pub open spec fn made<'a>(g: Grammar<'a>, lalr: Seq<ItemSet>) -> bool { exists|lr: Seq<ItemSet>, m: Map<usize, usize>| #[trigger] tctx(g, lr, lalr, m) }
pub proof fn made_of<'a>(g: Grammar<'a>, lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>) requires gctx(g), no_digest_clash(g), collection(g, lr), merged(lr, lalr, m) ensures tctx(g, lr, lalr, m), made(g, lalr)
{
    reveal(no_digest_clash); reveal(tctx); reveal(made);
    let w = Seq::new(lalr.len(), |k: int| choose|i: int| 0 <= i < lr.len() && #[trigger] m[i as usize] == k);
    assert forall|k: int| 0 <= k < lalr.len() implies 0 <= #[trigger] w[k] < lr.len() && m[w[k] as usize] == k by {
        reveal(merged);
        assert(used(lr, m, k));
        let i = choose|i: usize| i < lr.len() && #[trigger] m[i] == k;
        assert(m[(i as int) as usize] == k);
    }
    assert(w.no_duplicates());
    w.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, lr.len() as int);
    assert(w.to_set().subset_of(vstd::set_lib::set_int_range(0, lr.len() as int)));
    vstd::set_lib::lemma_len_subset(w.to_set(), vstd::set_lib::set_int_range(0, lr.len() as int));
    assert(tctx(g, lr, lalr, m));
}

@module tables = lalr/table.rs
@item Action
@item Table #[verifier::reject_recursive_types(K)]
@item TableInner
@item ActionTable
@item GotoTable
@fn Table::empty
@spec
    ensures r.0@ == Map::<usize, BTreeMap<K, V>>::empty(),
@fn Table::try_index
@spec
    ensures r == (match cell(*self, arg1__.0 as usize, arg1__.1) { Some(v) => Some(&v), None => None }),
@fn Table::valid
@spec
    ensures match r { Some(it) => self.0@.contains_key(outer_idx as usize) && enum_refs(it.rem(), trow(*self, outer_idx as usize).dom()), None => !self.0@.contains_key(outer_idx as usize) },
@fn Table::entry
@spec
    ensures match r {
        Entry::Vacant(e) => cell(*old(self), arg1__.0 as usize, arg1__.1) is None && e.key == arg1__.1 && (*e.map)@ == trow(*old(self), arg1__.0 as usize) && final(self).0@ == old(self).0@.insert(arg1__.0 as usize, *final(e.map)),
        Entry::Occupied(e) => cell(*old(self), arg1__.0 as usize, arg1__.1) is Some && e.key == arg1__.1 && (*e.map)@ == trow(*old(self), arg1__.0 as usize) && final(self).0@ == old(self).0@.insert(arg1__.0 as usize, *final(e.map)),
    },
@fn Table::insert
@spec
    ensures one_cell(*old(self), *final(self), arg1__.0 as int, arg1__.1, val), r == cell(*old(self), arg1__.0 as usize, arg1__.1),
@hint end
    proof { one_cell_of(*old(self), *final(self), arg1__.0 as usize, arg1__.1, val); }
@fn Table::iter
@spec
    ensures map_refs(r.rem(), self.0@),
@fn make_lalr_tables/compute_goto
@spec
    requires tctx(*grammar, lr_sets@, lalr_sets@, lr_to_lalr@), iset_ok(*grammar, item_set.0@),
    ensures match r { Some(j) => target(*grammar, lalr_sets@, pairs(item_set.0@), *a, j as int), None => !has_target(*grammar, lalr_sets@, pairs(item_set.0@), *a) },
@hint start
    proof { tctx_of(*grammar, lr_sets@, lalr_sets@, lr_to_lalr@); merged_at(lr_sets@, lalr_sets@, lr_to_lalr@); }
@hint after let goto_ia 1
    proof { target_core(*grammar, lalr_sets@, pairs(item_set.0@), *a, goto_ia); }
@loop 1
    invariant $s == refs::<ItemSet>(lalr_sets@),
    invariant_except_break forall|k: int| 0 <= k < $i ==> core(#[trigger] lalr_sets@[k]) != core(goto_ia),
    ensures match $res { Some(j) => j < lalr_sets@.len() && core(lalr_sets@[j as int]) == core(goto_ia), None => forall|k: int| 0 <= k < lalr_sets@.len() ==> core(#[trigger] lalr_sets@[k]) != core(goto_ia) },
@fn make_lalr_tables
@attr #[verifier::rlimit(60)]
@panic 0 conflict(g, lalr)
@spec
    requires tctx(*grammar, lr_sets@, lalr_sets@, lr_to_lalr@),
    ensures tables_ok(*grammar, lalr_sets@, r.0, r.1),
@hint start
    let ghost g = *grammar;
    let ghost lr = lr_sets@;
    let ghost lalr = lalr_sets@;
    let ghost m = lr_to_lalr@;
    proof { tctx_of(g, lr, lalr, m); merged_at(lr, lalr, m); }
@hint loop 1 before
    proof { filled_0(g, lalr, action); }
@loop 1
    invariant $s.len() == lalr.len(), forall|k: int| 0 <= k < lalr.len() ==> #[trigger] $s[k] == (k as usize, &lalr[k]), filled(g, lalr, $i, action),
@hint loop 1 start
    let ghost n = $i - 1;
    proof { lalr_ok(g, lr, lalr, m, n); }
@hint loop 2 before
    proof { filled2_0(g, lalr, n, $s, action); }
@loop 2
    invariant map_refs($s, lalr[n].0@), filled2(g, lalr, n, $s, $i, action),
@hint loop 2 start
    let ghost k = $i - 1;
    let ghost t2 = action;
    let ghost it = *$s[k].0;
    proof { assert(lalr[n].0@.contains_key(it)); iset_key(g, lalr[n].0@, it); refusal_shift(g, lr, lalr, m, n, $s, k, action); }
@hint loop 2 end
    proof { item_step(g, lr, lalr, m, n, $s, k, t2, action); }
@hint loop 2 after
    proof { filled2_done(g, lalr, n, $s, action); }
@loop 3
    invariant filled3(g, lalr, n, it, $s, $i, t2, action), enum_refs($s, $s2[k].1@), ends(g, it),
@hint loop 3 before
    proof { filled3_0(g, lalr, n, it, $s, action); }
@hint loop 3 start
    let ghost t3 = action;
    proof { refusal_end(g, lr, lalr, m, n, $s2, k, $s, $i - 1, t2, action); }
@hint loop 3 end
    proof { filled3_step(g, lalr, n, it, $s, $i - 1, t2, t3, action); }
@hint loop 1 after
    proof { filled_done(g, lalr, action); gotos_0(g, lalr, goto); goes_on_of(g, lr, lalr, m); }
@loop 4
    invariant $s.len() == lalr.len(), forall|k: int| 0 <= k < lalr.len() ==> #[trigger] $s[k] == (k as usize, &lalr[k]), gotos(g, lalr, $i, 0, goto),
@hint loop 4 start
    let ghost n4 = $i - 1;
    proof { lalr_ok(g, lr, lalr, m, n4); }
@hint loop 5 before
    proof { gotos_first(g, lalr, n4, $s, goto); }
@loop 5
    invariant nts_ok($s, g.tokens@, g.tokens@.len() as int), gotos(g, lalr, n4, upto(g, $s, $i), goto),
@hint loop 5 start
    let ghost t5 = goto;
@hint after let goto_ia 1
    proof { target_to(g, lr, lalr, m, n4, Symbol::NonTerminal(*$s5[$i5 - 1].1), goto_ia); }
@loop 6
    invariant $s == refs::<ItemSet>(lalr_sets@),
    invariant_except_break forall|k: int| 0 <= k < $i ==> core(#[trigger] lalr_sets@[k]) != core(goto_ia),
    ensures match $res { Some(j) => j < lalr_sets@.len() && core(lalr_sets@[j as int]) == core(goto_ia), None => forall|k: int| 0 <= k < lalr_sets@.len() ==> core(#[trigger] lalr_sets@[k]) != core(goto_ia) },
@hint loop 5 end
    proof { gotos_step(g, lr, lalr, m, n4, $s, $i - 1, t5, goto); }
@hint loop 5 after
    proof { gotos_next(g, lr, lalr, m, n4, goto); }
@hint loop 4 after
    proof { gotos_done(g, lalr, goto); reveal(tables_ok); }
@fn make_tables
@spec
    requires gctx(*grammar), no_digest_clash(*grammar),
    ensures made(*grammar, r.2@), tables_ok(*grammar, r.2@, r.0, r.1),
@hint after call items 1
    proof { reveal(no_digest_clash); }
@hint after call merge_cores 1
    proof { made_of(*grammar, lr_items@, lalr_set@, lr_to_lalr@); }
