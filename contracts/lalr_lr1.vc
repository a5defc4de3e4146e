@module lr1p = -
@text
/// [S' -> .S, $]
pub open spec fn start_entry() -> Entry1 { (Item(ProductionIdx(0), 0), TokenIdx(0)) }
pub open spec fn start_set<'a>(g: Grammar<'a>) -> ISet<Entry1> { closure_set(g, ISet::<Entry1>::empty().insert(start_entry())) }
pub open spec fn some_entry(s: ISet<Entry1>) -> bool { exists|e: Entry1| #[trigger] s.contains(e) }
/// a transition from `s` to `t`
pub open spec fn trans<'a>(g: Grammar<'a>, s: ISet<Entry1>, t: ISet<Entry1>) -> bool { some_entry(t) && exists|x: Symbol<'a>| t == #[trigger] goto_set(g, s, x) }
pub open spec fn tpath<'a>(g: Grammar<'a>, p: Seq<ISet<Entry1>>) -> bool { p.len() > 0 && p[0] == start_set(g) && forall|k: int| 0 < k < p.len() ==> trans(g, #[trigger] p[k - 1], p[k]) }
/// `s` is reached from the start state by transitions
#[verifier::opaque]
pub open spec fn treach<'a>(g: Grammar<'a>, s: ISet<Entry1>) -> bool { exists|p: Seq<ISet<Entry1>>| #[trigger] tpath(g, p) && p.last() == s }
pub open spec fn member(c: Seq<ItemSet>, s: ISet<Entry1>) -> bool { exists|i: int| 0 <= i < c.len() && pairs(#[trigger] c[i].0@) == s }
/// the states newsets so far: the first is the start state, all are reached, none is empty, no two are the same
#[verifier::opaque]
pub open spec fn lr1coll<'a>(g: Grammar<'a>, c: Seq<ItemSet>) -> bool {
    &&& c.len() > 0 && pairs(c[0].0@) == start_set(g)
    &&& forall|i: int| 0 <= i < c.len() ==> state_ok(g, #[trigger] c[i])
    &&& forall|i: int, j: int| 0 <= i < j < c.len() ==> pairs(#[trigger] c[i].0@) != pairs(#[trigger] c[j].0@)
}
pub open spec fn state_ok<'a>(g: Grammar<'a>, s: ItemSet) -> bool { iset_ok(g, s.0@) && treach(g, pairs(s.0@)) && some_entry(pairs(s.0@)) }
/// the transition of `s` on `x` is a member, if there is one
pub open spec fn goes<'a>(g: Grammar<'a>, c: Seq<ItemSet>, s: ISet<Entry1>, x: Symbol<'a>) -> bool { some_entry(goto_set(g, s, x)) ==> member(c, goto_set(g, s, x)) }
/// C09
pub open spec fn collection<'a>(g: Grammar<'a>, c: Seq<ItemSet>) -> bool { lr1coll(g, c) && forall|i: int, x: Symbol<'a>| 0 <= i < c.len() ==> #[trigger] goes(g, c, pairs(c[i].0@), x) }

pub proof fn treach_0<'a>(g: Grammar<'a>) ensures treach(g, start_set(g)) { reveal(treach); let p = seq![start_set(g)]; assert(tpath(g, p) && p.last() == start_set(g)); }
pub proof fn treach_step<'a>(g: Grammar<'a>, s: ISet<Entry1>, t: ISet<Entry1>) requires treach(g, s), trans(g, s, t) ensures treach(g, t)
{
    reveal(treach);
    let p = choose|p: Seq<ISet<Entry1>>| #[trigger] tpath(g, p) && p.last() == s;
    let q = p.push(t);
    assert forall|k: int| 0 < k < q.len() implies trans(g, #[trigger] q[k - 1], q[k]) by { if k < p.len() { assert(trans(g, p[k - 1], p[k])); } }
    assert(tpath(g, q) && q.last() == t);
}
pub proof fn coll_state<'a>(g: Grammar<'a>, c: Seq<ItemSet>, i: int) requires lr1coll(g, c), 0 <= i < c.len() ensures state_ok(g, c[i]) { reveal(lr1coll); }
pub proof fn occurs_at<'a>(g: Grammar<'a>, i: Item) requires item_ok(g, i), i.1 < rhs(g, i).len() ensures occurs(g.productions@, rhs(g, i)[i.1 as int])
{ let p = i.0.0 as int; let k = i.1 as int; assert(sym_at(g.productions@, p, k, rhs(g, i)[k])); }
pub proof fn kernel_empty<'a>(g: Grammar<'a>, s: ISet<Entry1>) requires !some_entry(s) ensures !some_entry(closure_set(g, s))
{ assert(rule_closed(g, s)); reach_min(g, s, s); }
/// the dot is never before a symbol that the grammar does not have
pub proof fn goto_other<'a>(g: Grammar<'a>, m: Map<Item, BTreeSet<TokenIdx>>, x: Symbol<'a>) requires gctx(g), iset_ok(g, m), !sym_in(g.tokens@, x) ensures !some_entry(goto_set(g, pairs(m), x))
{
    reveal(gctx); reveal(tokens_ok);
    let k = kernel(g, pairs(m), x);
    assert forall|f: Entry1| !#[trigger] k.contains(f) by {
        if k.contains(f) {
            let e = choose|e: Entry1| #[trigger] moves(g, pairs(m), x, e, f);
            assert(pairs(m).contains(e));
            iset_la(g, m, e);
            occurs_at(g, e.0);
        }
    }
    kernel_empty(g, k);
}
pub proof fn empty_map(m: Map<Item, BTreeSet<TokenIdx>>) requires m == Map::<Item, BTreeSet<TokenIdx>>::empty() ensures !some_entry(pairs(m)) { }
pub proof fn full_map<'a>(g: Grammar<'a>, m: Map<Item, BTreeSet<TokenIdx>>) requires iset_ok(g, m), m != Map::<Item, BTreeSet<TokenIdx>>::empty() ensures some_entry(pairs(m))
{
    reveal(iset_ok);
    if forall|i: Item| !m.contains_key(i) { assert(m =~= Map::<Item, BTreeSet<TokenIdx>>::empty()); }
    let i = choose|i: Item| m.contains_key(i);
    let a = choose|a: TokenIdx| #[trigger] m[i]@.contains(a);
    assert(pairs(m).contains((i, a)));
}
pub proof fn coll_0<'a>(g: Grammar<'a>, c: Seq<ItemSet>, m0: Map<Item, BTreeSet<TokenIdx>>)
    requires gctx(g), c.len() == 1, iset_ok(g, c[0].0@), pairs(m0) == ISet::<Entry1>::empty().insert(start_entry()), pairs(c[0].0@) == closure_set(g, pairs(m0)) ensures lr1coll(g, c)
{
    reveal(lr1coll);
    treach_0(g);
    reach_base(g, pairs(m0), start_entry());
    assert(start_set(g).contains(start_entry()));
}
pub proof fn initial_ok<'a>(g: Grammar<'a>, m: Map<Item, BTreeSet<TokenIdx>>)
    requires gctx(g), pairs(m) == ISet::<Entry1>::empty().insert(start_entry()), m.dom() == Set::<Item>::empty().insert(Item(ProductionIdx(0), 0)) ensures iset_ok(g, m)
{
    reveal(iset_ok); reveal(gctx); reveal(tokens_ok);
    let i0 = Item(ProductionIdx(0), 0);
    assert(g.productions@[0].input_tokens@.len() < u32::MAX);
    assert(pairs(m).contains((i0, TokenIdx(0))));
    assert(item_ok(g, i0));
    assert(la_ok(g, TokenIdx(0)));
    assert forall|i: Item| #[trigger] m.contains_key(i) implies item_ok(g, i) && exists|a: TokenIdx| #[trigger] m[i]@.contains(a) by { assert(m.dom().contains(i)); assert(i == i0); assert(m[i]@.contains(TokenIdx(0))); }
    assert forall|e: Entry1| #[trigger] hasp(m, e) implies entry_ok(g, e) by { assert(pairs(m).contains(e)); assert(e == start_entry()); }
}
// --- the exploration ---
#[verifier::opaque]
pub open spec fn newsets<'a>(g: Grammar<'a>, c: Seq<ItemSet>, t: Seq<ItemSet>) -> bool { forall|k: int| 0 <= k < t.len() ==> state_ok(g, #[trigger] t[k]) && !c.contains(t[k]) }
/// every transition of the first n states, and of the next one on the first h tokens, is in `c` or in `t`
#[verifier::opaque]
pub open spec fn looked<'a>(g: Grammar<'a>, c: Seq<ItemSet>, t: Seq<ItemSet>, n: int, h: int) -> bool {
    &&& forall|k: int, x: int| 0 <= k < n && 0 <= x < g.tokens@.len() ==> seen(g, c, t, k, x)
    &&& forall|x: int| 0 <= x < h ==> seen(g, c, t, n, x)
}
pub open spec fn seen<'a>(g: Grammar<'a>, c: Seq<ItemSet>, t: Seq<ItemSet>, k: int, x: int) -> bool {
    let s = goto_set(g, pairs(c[k].0@), g.tokens@[x]);
    some_entry(s) ==> member(c, s) || member(t, s)
}
pub proof fn looked_0<'a>(g: Grammar<'a>, c: Seq<ItemSet>, t: Seq<ItemSet>) ensures looked(g, c, t, 0, 0) { reveal(looked); }
pub proof fn looked_next<'a>(g: Grammar<'a>, c: Seq<ItemSet>, t: Seq<ItemSet>, n: int) requires looked(g, c, t, n, g.tokens@.len() as int) ensures looked(g, c, t, n + 1, 0)
{
    reveal(looked);
    assert forall|k: int, x: int| 0 <= k < n + 1 && 0 <= x < g.tokens@.len() implies seen(g, c, t, k, x) by { if k == n { assert(seen(g, c, t, n, x)); } }
}
pub proof fn seen_push<'a>(g: Grammar<'a>, c: Seq<ItemSet>, t: Seq<ItemSet>, s: ItemSet, k: int, x: int) requires seen(g, c, t, k, x) ensures seen(g, c, t.push(s), k, x)
{
    let q = goto_set(g, pairs(c[k].0@), g.tokens@[x]);
    if some_entry(q) && !member(c, q) {
        let i = choose|i: int| 0 <= i < t.len() && pairs(#[trigger] t[i].0@) == q;
        assert(pairs(t.push(s)[i].0@) == q);
    }
}
pub proof fn looked_step<'a>(g: Grammar<'a>, c: Seq<ItemSet>, t: Seq<ItemSet>, t2: Seq<ItemSet>, n: int, h: int, r: ItemSet)
    requires gctx(g), lr1coll(g, c), newsets(g, c, t), looked(g, c, t, n, h), 0 <= n < c.len(), 0 <= h < g.tokens@.len(),
        iset_ok(g, r.0@), pairs(r.0@) == goto_set(g, pairs(c[n].0@), g.tokens@[h]),
        t2 == (if r.0@ != Map::<Item, BTreeSet<TokenIdx>>::empty() && !c.contains(r) { t.push(r) } else { t })
    ensures looked(g, c, t2, n, h + 1), newsets(g, c, t2)
{
    reveal(looked); reveal(newsets); reveal(lr1coll);
    let q = pairs(r.0@);
    if t2 != t {
        full_map(g, r.0@);
        assert(trans(g, pairs(c[n].0@), q));
        treach_step(g, pairs(c[n].0@), q);
        assert forall|k: int| 0 <= k < t2.len() implies state_ok(g, #[trigger] t2[k]) && !c.contains(t2[k]) by { if k < t.len() { assert(t2[k] == t[k]); } }
        assert forall|k: int, x: int| 0 <= k < n && 0 <= x < g.tokens@.len() implies seen(g, c, t2, k, x) by { seen_push(g, c, t, r, k, x); }
        assert forall|x: int| 0 <= x < h + 1 implies seen(g, c, t2, n, x) by { if x < h { seen_push(g, c, t, r, n, x); } else { assert(pairs(t2[t.len() as int].0@) == q); } }
    } else {
        assert(t.push(r).len() != t.len());
        assert(seen(g, c, t, n, h)) by {
            if some_entry(q) {
                if r.0@ == Map::<Item, BTreeSet<TokenIdx>>::empty() { empty_map(r.0@); }
                let i = choose|i: int| 0 <= i < c.len() && c[i] == r;
                assert(pairs(c[i].0@) == q);
            }
        }
        assert forall|x: int| 0 <= x < h + 1 implies seen(g, c, t2, n, x) by { if x < h { assert(seen(g, c, t, n, x)); } }
    }
}
pub proof fn explored<'a>(g: Grammar<'a>, c: Seq<ItemSet>, t: Seq<ItemSet>) requires gctx(g), lr1coll(g, c), looked(g, c, t, c.len() as int, 0), t.len() == 0 ensures collection(g, c)
{
    reveal(looked); reveal(lr1coll);
    assert forall|i: int, x: Symbol<'a>| 0 <= i < c.len() implies #[trigger] goes(g, c, pairs(c[i].0@), x) by {
        if sym_in(g.tokens@, x) {
            let j = choose|j: int| 0 <= j < g.tokens@.len() && #[trigger] g.tokens@[j] == x;
            assert(seen(g, c, t, i, j));
        } else { goto_other(g, c[i].0@, x); }
    }
}
pub proof fn lfound_0<'a>(g: Grammar<'a>, c: Seq<ItemSet>, t: Seq<ItemSet>) requires t.len() == 0 ensures newsets(g, c, t) { reveal(newsets); }
/// adding the states newsets
#[verifier::opaque]
pub open spec fn emptied<'a>(g: Grammar<'a>, c0: Seq<ItemSet>, t0: Seq<ItemSet>, c: Seq<ItemSet>, t: Seq<ItemSet>) -> bool {
    &&& lr1coll(g, c) && c.len() >= c0.len()
    &&& t.len() <= t0.len() && (forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] == t0[k])
    &&& t.len() < t0.len() ==> c.len() > c0.len()
    &&& t.len() == t0.len() ==> c == c0
}
pub proof fn emptied_0<'a>(g: Grammar<'a>, c: Seq<ItemSet>, t: Seq<ItemSet>) requires lr1coll(g, c) ensures emptied(g, c, t, c, t) { reveal(emptied); }
pub proof fn emptied_step<'a>(g: Grammar<'a>, c0: Seq<ItemSet>, t0: Seq<ItemSet>, c: Seq<ItemSet>, t: Seq<ItemSet>, c2: Seq<ItemSet>)
    requires emptied(g, c0, t0, c, t), newsets(g, c0, t0), t.len() > 0, c2 == (if c.contains(t.last()) { c } else { c.push(t.last()) }) ensures emptied(g, c0, t0, c2, t.drop_last())
{
    reveal(emptied); reveal(newsets); reveal(lr1coll);
    let n = t.len() - 1;
    assert(t[n] == t0[n]);
    assert(state_ok(g, t0[n]) && !c0.contains(t0[n]));
    assert forall|k: int| 0 <= k < t.drop_last().len() implies #[trigger] t.drop_last()[k] == t0[k] by { assert(t[k] == t0[k]); }
    if !c.contains(t.last()) {
        assert forall|i: int, j: int| 0 <= i < j < c2.len() implies pairs(#[trigger] c2[i].0@) != pairs(#[trigger] c2[j].0@) by {
            if j == c.len() {
                if pairs(c2[i].0@) == pairs(c2[j].0@) { assert(state_ok(g, c[i])); iset_ext(g, c[i], t.last()); assert(c[i] == t.last()); assert(c.contains(t.last())); }
            } else { assert(pairs(c[i].0@) != pairs(c[j].0@)); }
        }
        assert forall|i: int| 0 <= i < c2.len() implies state_ok(g, #[trigger] c2[i]) by { if i < c.len() { assert(c2[i] == c[i]); } }
    }
}
pub proof fn emptied_coll<'a>(g: Grammar<'a>, c0: Seq<ItemSet>, t0: Seq<ItemSet>, c: Seq<ItemSet>, t: Seq<ItemSet>) requires emptied(g, c0, t0, c, t) ensures lr1coll(g, c), t.len() == 0 && t0.len() > 0 ==> c.len() > c0.len() { reveal(emptied); }
// --- there are finitely many sets of entries ---
pub open spec fn ucode(s: ISet<Entry1>, u: Seq<Entry1>) -> nat decreases u.len() {
    if u.len() == 0 { 0 } else { ucode(s, u.drop_last()) + (if s.contains(u.last()) { p2((u.len() - 1) as nat) } else { 0 }) }
}
pub proof fn ucode_lt(s: ISet<Entry1>, u: Seq<Entry1>) ensures ucode(s, u) < p2(u.len()) decreases u.len() { if u.len() > 0 { ucode_lt(s, u.drop_last()); } }
pub proof fn ucode_inj(s: ISet<Entry1>, t: ISet<Entry1>, u: Seq<Entry1>)
    requires ucode(s, u) == ucode(t, u) ensures forall|k: int| 0 <= k < u.len() ==> (s.contains(#[trigger] u[k]) <==> t.contains(u[k])) decreases u.len()
{
    if u.len() > 0 {
        let v = u.drop_last();
        ucode_lt(s, v); ucode_lt(t, v);
        ucode_inj(s, t, v);
        assert forall|k: int| 0 <= k < u.len() implies (s.contains(#[trigger] u[k]) <==> t.contains(u[k])) by { if k < v.len() { assert(v[k] == u[k]); } }
    }
}
pub proof fn coll_bound<'a>(g: Grammar<'a>, c: Seq<ItemSet>) requires gctx(g), lr1coll(g, c) ensures c.len() <= p2(univ(g).len())
{
    reveal(lr1coll); reveal(iset_ok);
    let u = univ(g);
    let cs = Seq::new(c.len(), |i: int| ucode(pairs(c[i].0@), u) as int);
    assert forall|i: int, j: int| 0 <= i < cs.len() && 0 <= j < cs.len() && i != j implies cs[i] != cs[j] by {
        if cs[i] == cs[j] {
            let s = pairs(c[i].0@);
            let t = pairs(c[j].0@);
            ucode_inj(s, t, u);
            assert(state_ok(g, c[i]) && state_ok(g, c[j]));
            assert forall|e: Entry1| s.contains(e) <==> t.contains(e) by {
                if s.contains(e) || t.contains(e) {
                    assert(hasp(c[i].0@, e) || hasp(c[j].0@, e));
                    univ_has(g, e);
                    let k = choose|k: int| 0 <= k < u.len() && #[trigger] u[k] == e;
                    assert(s.contains(u[k]) <==> t.contains(u[k]));
                }
            }
            assert(s =~= t);
            if i < j { assert(pairs(c[i].0@) != pairs(c[j].0@)); } else { assert(pairs(c[j].0@) != pairs(c[i].0@)); }
        }
    }
    assert(cs.no_duplicates());
    cs.unique_seq_to_set();
    let r = vstd::set_lib::set_int_range(0, p2(u.len()) as int);
    vstd::set_lib::lemma_int_range(0, p2(u.len()) as int);
    assert forall|x: int| cs.to_set().contains(x) implies r.contains(x) by {
        let i = choose|i: int| 0 <= i < cs.len() && cs[i] == x;
        ucode_lt(pairs(c[i].0@), u);
    }
    vstd::set_lib::lemma_len_subset(cs.to_set(), r);
}

@module lr1 = lalr/item.rs
@fn ItemSet::items
@attr #[verifier::rlimit(100)]
@spec
    requires gctx(*grammar),
    ensures collection(*grammar, r@),
@hint start
    let ghost g = *grammar;
@hint after let initial_items 1
    proof { initial_ok(g, initial_items.0@); }
    let ghost m0 = initial_items.0@;
@hint after let temp 1
    proof { coll_0(g, c@, m0); coll_bound(g, c@); }
@loop 1
    invariant lr1coll(g, c@), c@.len() <= p2(univ(g).len()), temp@.len() == 0,
    ensures collection(g, c@),
    decreases p2(univ(g).len()) - c@.len(),
@hint loop 1 start
    let ghost c0 = c@;
    proof { looked_0(g, c0, temp@); lfound_0(g, c0, temp@); }
@loop 2
    invariant $s == refs::<ItemSet>(c0), c@ == c0, newsets(g, c0, temp@), looked(g, c0, temp@, $i, 0),
@hint loop 2 start
    let ghost n = $i - 1;
@loop 3
    invariant $s == refs::<Symbol>(g.tokens@), c@ == c0, newsets(g, c0, temp@), looked(g, c0, temp@, n, $i),
@hint loop 3 start
    let ghost t3 = temp@;
    proof { coll_state(g, c0, n); assert(item_set == &c0[n]); assert(grammar_symbol == &g.tokens@[$i - 1]); }
@hint after let goto_i_x 1
    let ghost rr = goto_i_x;
@hint loop 3 end
    proof { looked_step(g, c0, t3, temp@, n, $i - 1, rr); }
@hint loop 3 after
    proof { looked_next(g, c0, temp@, n); }
@hint loop 2 after
    proof { if temp@.len() == 0 { explored(g, c0, temp@); } emptied_0(g, c0, temp@); }
    let ghost t0 = temp@;
@loop 4
    invariant newsets(g, c0, t0), emptied(g, c0, t0, c@, temp@),
    decreases temp@.len(),
@hint loop 4 start
    let ghost c4 = c@;
    let ghost t4 = temp@;
@hint loop 4 end
    proof { assert(temp@ == t4.drop_last()); emptied_step(g, c0, t0, c4, t4, c@); }
@hint loop 4 after
    proof { emptied_coll(g, c0, t0, c@, temp@); coll_bound(g, c@); }
