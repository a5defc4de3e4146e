@module nfag = -
@text
// --- automata as edge lists: paths, and how fragments compose ---
pub open spec fn reads(e: Edge, c: char) -> bool { match e.label { Some(m) => inr(m, c as int), None => false } }
/// a path of `n` edges from `s` to `t` reading `w`
#[verifier::opaque]
pub open spec fn path(es: Seq<Edge>, n: nat, s: usize, w: Seq<char>, t: usize) -> bool decreases n
{
    if n == 0 { s == t && w.len() == 0 } else {
        exists|e: Edge| #[trigger] es.contains(e) && e.from.0 == s && {
            ||| e.label is None && path(es, (n - 1) as nat, e.to.0, w, t)
            ||| w.len() > 0 && reads(e, w[0]) && path(es, (n - 1) as nat, e.to.0, w.skip(1), t)
        }
    }
}
#[verifier::opaque]
pub open spec fn reach(es: Seq<Edge>, s: usize, w: Seq<char>, t: usize) -> bool { exists|n: nat| path(es, n, s, w, t) }

pub proof fn reach_n(es: Seq<Edge>, s: usize, w: Seq<char>, t: usize) -> (n: nat)
    requires reach(es, s, w, t) ensures path(es, n, s, w, t)
{ reveal(reach); choose|n: nat| path(es, n, s, w, t) }
pub proof fn reach_i(es: Seq<Edge>, n: nat, s: usize, w: Seq<char>, t: usize)
    requires path(es, n, s, w, t) ensures reach(es, s, w, t)
{ reveal(reach); }
pub proof fn path_0(es: Seq<Edge>, n: nat, s: usize, w: Seq<char>, t: usize)
    ensures n == 0 ==> (path(es, n, s, w, t) <==> s == t && w.len() == 0)
{ reveal_with_fuel(path, 1); }
pub proof fn path_first(es: Seq<Edge>, n: nat, s: usize, w: Seq<char>, t: usize) -> (e: Edge)
    requires path(es, n, s, w, t), n > 0
    ensures es.contains(e), e.from.0 == s,
        (e.label is None && path(es, (n - 1) as nat, e.to.0, w, t)) || (w.len() > 0 && reads(e, w[0]) && path(es, (n - 1) as nat, e.to.0, w.skip(1), t))
{
    reveal_with_fuel(path, 1);
    choose|e: Edge| #[trigger] es.contains(e) && e.from.0 == s && {
            ||| e.label is None && path(es, (n - 1) as nat, e.to.0, w, t)
            ||| w.len() > 0 && reads(e, w[0]) && path(es, (n - 1) as nat, e.to.0, w.skip(1), t)
        }
}
pub proof fn path_eps(es: Seq<Edge>, n: nat, e: Edge, w: Seq<char>, t: usize)
    requires es.contains(e), e.label is None, path(es, n, e.to.0, w, t)
    ensures path(es, n + 1, e.from.0, w, t)
{ reveal_with_fuel(path, 1); }
pub proof fn path_char(es: Seq<Edge>, n: nat, e: Edge, w: Seq<char>, t: usize)
    requires es.contains(e), w.len() > 0, reads(e, w[0]), path(es, n, e.to.0, w.skip(1), t)
    ensures path(es, n + 1, e.from.0, w, t)
{ reveal_with_fuel(path, 1); }
pub open spec fn sub(a: Seq<Edge>, b: Seq<Edge>) -> bool { forall|e: Edge| #[trigger] a.contains(e) ==> b.contains(e) }
pub proof fn path_mono(a: Seq<Edge>, b: Seq<Edge>, n: nat, s: usize, w: Seq<char>, t: usize)
    requires path(a, n, s, w, t), sub(a, b) ensures path(b, n, s, w, t) decreases n
{
    path_0(a, n, s, w, t); path_0(b, n, s, w, t);
    if n > 0 {
        let e = path_first(a, n, s, w, t);
        let m = (n - 1) as nat;
        if e.label is None { path_mono(a, b, m, e.to.0, w, t); path_eps(b, m, e, w, t); }
        else { path_mono(a, b, m, e.to.0, w.skip(1), t); path_char(b, m, e, w, t); }
    }
}
pub proof fn path_join(es: Seq<Edge>, n1: nat, n2: nat, s: usize, w1: Seq<char>, m: usize, w2: Seq<char>, t: usize)
    requires path(es, n1, s, w1, m), path(es, n2, m, w2, t) ensures path(es, n1 + n2, s, w1 + w2, t) decreases n1
{
    path_0(es, n1, s, w1, m);
    if n1 == 0 { assert(w1 + w2 =~= w2); }
    else {
        let e = path_first(es, n1, s, w1, m);
        let k = (n1 - 1) as nat;
        if e.label is None { path_join(es, k, n2, e.to.0, w1, m, w2, t); path_eps(es, k + n2, e, w1 + w2, t); }
        else {
            path_join(es, k, n2, e.to.0, w1.skip(1), m, w2, t);
            assert((w1 + w2).skip(1) =~= w1.skip(1) + w2);
            path_char(es, k + n2, e, w1 + w2, t);
        }
    }
}
pub open spec fn at(s: usize, lo: int, hi: int) -> bool { lo <= s < hi }
/// the edges `en` of the states `lo..hi` lead to these states or to `acc`, and are all of their edges in `es`
pub open spec fn island(es: Seq<Edge>, en: Seq<Edge>, lo: int, hi: int, acc: usize) -> bool {
    &&& !at(acc, lo, hi)
    &&& forall|e: Edge| #[trigger] es.contains(e) && at(e.from.0, lo, hi) ==> en.contains(e)
    &&& forall|e: Edge| #[trigger] en.contains(e) ==> es.contains(e) && at(e.from.0, lo, hi) && (at(e.to.0, lo, hi) || e.to.0 == acc)
}
/// a path out of the island goes through `acc`
pub proof fn path_split(es: Seq<Edge>, en: Seq<Edge>, lo: int, hi: int, acc: usize, n: nat, s: usize, w: Seq<char>, t: usize) -> (r: (nat, int))
    requires island(es, en, lo, hi, acc), path(es, n, s, w, t), at(s, lo, hi) || s == acc, !at(t, lo, hi)
    ensures 0 <= r.0 <= n, 0 <= r.1 <= w.len(), path(en, r.0, s, w.take(r.1), acc), path(es, (n - r.0) as nat, acc, w.skip(r.1), t),
    decreases n
{
    path_0(es, n, s, w, t);
    path_0(en, 0, s, w.take(0), acc);
    if s == acc { assert(w.skip(0) =~= w); (0, 0) }
    else {
        let e = path_first(es, n, s, w, t);
        let m = (n - 1) as nat;
        assert(en.contains(e));
        if e.label is None {
            let (k, j) = path_split(es, en, lo, hi, acc, m, e.to.0, w, t);
            path_eps(en, k, e, w.take(j), acc);
            ((k + 1) as nat, j)
        } else {
            let (k, j) = path_split(es, en, lo, hi, acc, m, e.to.0, w.skip(1), t);
            assert(w.skip(1).take(j) =~= w.take(j + 1).skip(1));
            assert(w.skip(1).skip(j) =~= w.skip(j + 1));
            path_char(en, k, e, w.take(j + 1), acc);
            ((k + 1) as nat, j + 1)
        }
    }
}
/// edges of `es` that start outside of the island are in `eo` and do not lead into it
pub open spec fn outside(es: Seq<Edge>, eo: Seq<Edge>, lo: int, hi: int) -> bool {
    forall|e: Edge| #[trigger] es.contains(e) && !at(e.from.0, lo, hi) ==> eo.contains(e) && !at(e.to.0, lo, hi)
}
pub proof fn path_out(es: Seq<Edge>, eo: Seq<Edge>, lo: int, hi: int, n: nat, s: usize, w: Seq<char>, t: usize)
    requires outside(es, eo, lo, hi), path(es, n, s, w, t), !at(s, lo, hi)
    ensures path(eo, n, s, w, t) decreases n
{
    path_0(es, n, s, w, t); path_0(eo, n, s, w, t);
    if n > 0 {
        let e = path_first(es, n, s, w, t);
        let m = (n - 1) as nat;
        if e.label is None { path_out(es, eo, lo, hi, m, e.to.0, w, t); path_eps(eo, m, e, w, t); }
        else { path_out(es, eo, lo, hi, m, e.to.0, w.skip(1), t); path_char(eo, m, e, w, t); }
    }
}
pub proof fn reach_out(es: Seq<Edge>, eo: Seq<Edge>, lo: int, hi: int, s: usize, w: Seq<char>, t: usize)
    requires outside(es, eo, lo, hi), sub(eo, es), !at(s, lo, hi)
    ensures reach(es, s, w, t) <==> reach(eo, s, w, t)
{
    if reach(es, s, w, t) { let n = reach_n(es, s, w, t); path_out(es, eo, lo, hi, n, s, w, t); reach_i(eo, n, s, w, t); }
    if reach(eo, s, w, t) { let n = reach_n(eo, s, w, t); path_mono(eo, es, n, s, w, t); reach_i(es, n, s, w, t); }
}
/// from the island at `s` one reaches `t` by reaching `acc` in it first
pub open spec fn seq_reach(en: Seq<Edge>, es: Seq<Edge>, s: usize, acc: usize, t: usize, w: Seq<char>) -> bool {
    exists|j: int| 0 <= j <= w.len() && #[trigger] reach(en, s, w.take(j), acc) && reach(es, acc, w.skip(j), t)
}
pub proof fn reach_split(es: Seq<Edge>, en: Seq<Edge>, lo: int, hi: int, acc: usize, s: usize, w: Seq<char>, t: usize)
    requires island(es, en, lo, hi, acc), at(s, lo, hi) || s == acc, !at(t, lo, hi)
    ensures reach(es, s, w, t) <==> seq_reach(en, es, s, acc, t, w)
{
    if reach(es, s, w, t) {
        let n = reach_n(es, s, w, t);
        let (k, j) = path_split(es, en, lo, hi, acc, n, s, w, t);
        reach_i(en, k, s, w.take(j), acc);
        reach_i(es, (n - k) as nat, acc, w.skip(j), t);
    }
    if seq_reach(en, es, s, acc, t, w) {
        let j = choose|j: int| 0 <= j <= w.len() && #[trigger] reach(en, s, w.take(j), acc) && reach(es, acc, w.skip(j), t);
        let a = reach_n(en, s, w.take(j), acc);
        path_mono(en, es, a, s, w.take(j), acc);
        let b = reach_n(es, acc, w.skip(j), t);
        path_join(es, a, b, s, w.take(j), acc, w.skip(j), t);
        assert(w.take(j) + w.skip(j) =~= w);
        reach_i(es, a + b, s, w, t);
    }
}
/// nothing leaves `s`
pub proof fn reach_stuck(es: Seq<Edge>, s: usize, w: Seq<char>, t: usize)
    requires forall|e: Edge| #[trigger] es.contains(e) ==> e.from.0 != s
    ensures reach(es, s, w, t) <==> s == t && w.len() == 0
{
    path_0(es, 0, s, w, t);
    if reach(es, s, w, t) {
        let n = reach_n(es, s, w, t);
        path_0(es, n, s, w, t);
        if n > 0 { let e = path_first(es, n, s, w, t); }
    }
    if s == t && w.len() == 0 { reach_i(es, 0, s, w, t); }
}
/// the first step
pub open spec fn one_step(es: Seq<Edge>, e: Edge, w: Seq<char>, t: usize) -> bool {
    ||| e.label is None && reach(es, e.to.0, w, t)
    ||| w.len() > 0 && reads(e, w[0]) && reach(es, e.to.0, w.skip(1), t)
}
pub open spec fn some_step(es: Seq<Edge>, s: usize, w: Seq<char>, t: usize) -> bool {
    exists|e: Edge| #[trigger] es.contains(e) && e.from.0 == s && one_step(es, e, w, t)
}
pub proof fn reach_step(es: Seq<Edge>, s: usize, w: Seq<char>, t: usize)
    ensures reach(es, s, w, t) <==> (s == t && w.len() == 0) || some_step(es, s, w, t)
{
    path_0(es, 0, s, w, t);
    if s == t && w.len() == 0 { reach_i(es, 0, s, w, t); }
    if reach(es, s, w, t) {
        let n = reach_n(es, s, w, t);
        path_0(es, n, s, w, t);
        if n > 0 {
            let e = path_first(es, n, s, w, t);
            if e.label is None { reach_i(es, (n - 1) as nat, e.to.0, w, t); } else { reach_i(es, (n - 1) as nat, e.to.0, w.skip(1), t); }
        }
    }
    if some_step(es, s, w, t) {
        let e = choose|e: Edge| #[trigger] es.contains(e) && e.from.0 == s && one_step(es, e, w, t);
        if e.label is None { let n = reach_n(es, e.to.0, w, t); path_eps(es, n, e, w, t); reach_i(es, n + 1, s, w, t); }
        else { let n = reach_n(es, e.to.0, w.skip(1), t); path_char(es, n, e, w, t); reach_i(es, n + 1, s, w, t); }
    }
}
pub proof fn contains_push(es: Seq<Edge>, x: Edge)
    ensures forall|e: Edge| #[trigger] es.push(x).contains(e) <==> es.contains(e) || e == x
{
    assert forall|e: Edge| #[trigger] es.push(x).contains(e) <==> es.contains(e) || e == x by {
        if es.contains(e) { let i = choose|i: int| 0 <= i < es.len() && es[i] == e; assert(es.push(x)[i] == e); }
        if e == x { assert(es.push(x)[es.len() as int] == e); }
        if es.push(x).contains(e) { let i = choose|i: int| 0 <= i < es.push(x).len() && es.push(x)[i] == e; if i < es.len() { assert(es[i] == e); } }
    }
}
pub proof fn contains_add(a: Seq<Edge>, b: Seq<Edge>)
    ensures forall|e: Edge| #[trigger] (a + b).contains(e) <==> a.contains(e) || b.contains(e)
{
    assert forall|e: Edge| #[trigger] (a + b).contains(e) <==> a.contains(e) || b.contains(e) by {
        if a.contains(e) { let i = choose|i: int| 0 <= i < a.len() && a[i] == e; assert((a + b)[i] == e); }
        if b.contains(e) { let i = choose|i: int| 0 <= i < b.len() && b[i] == e; assert((a + b)[a.len() + i] == e); }
        if (a + b).contains(e) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == e; if i < a.len() { assert(a[i] == e); } else { assert(b[i - a.len()] == e); } }
    }
}

// --- fragments: what `compile` adds ---
/// the new edges `es` lead from the new states `lo..hi` to new states or to `acc`; the fragment starts at `x`
pub open spec fn frag_shape(es: Seq<Edge>, lo: int, hi: int, acc: usize, x: usize) -> bool {
    &&& lo <= hi && acc < lo && (at(x, lo, hi) || x == acc)
    &&& forall|e: Edge| #[trigger] es.contains(e) ==> at(e.from.0, lo, hi) && (at(e.to.0, lo, hi) || e.to.0 == acc)
}
#[verifier::opaque]
pub open spec fn frag_lang(es: Seq<Edge>, acc: usize, x: usize, h: RegexHir) -> bool {
    forall|w: Seq<char>| #[trigger] reach(es, x, w, acc) <==> lang(h, w)
}
pub proof fn frag_lang_at(es: Seq<Edge>, acc: usize, x: usize, h: RegexHir, w: Seq<char>)
    requires frag_lang(es, acc, x, h) ensures reach(es, x, w, acc) <==> lang(h, w)
{ reveal(frag_lang); }
#[verifier::opaque]
pub open spec fn cat_lang(es: Seq<Edge>, acc: usize, x: usize, v: Vec<RegexHir>, k: nat) -> bool {
    forall|w: Seq<char>| #[trigger] reach(es, x, w, acc) <==> lang_cat(v, k, w)
}
pub proof fn frag_empty(es: Seq<Edge>, acc: usize, v: Vec<RegexHir>)
    requires es.len() == 0
    ensures forall|w: Seq<char>| #[trigger] reach(es, acc, w, acc) <==> w.len() == 0, cat_lang(es, acc, acc, v, v@.len())
{
    reveal(cat_lang);
    assert forall|w: Seq<char>| #[trigger] reach(es, acc, w, acc) <==> w.len() == 0 by { reach_stuck(es, acc, w, acc); }
}
pub proof fn frag_cat(e0: Seq<Edge>, e1: Seq<Edge>, lo: int, mid: int, hi: int, acc: usize, a: usize, x: usize, v: Vec<RegexHir>, k: nat)
    requires
        frag_shape(e0, lo, mid, acc, a), frag_shape(e1, mid, hi, a, x), k < v@.len(),
        cat_lang(e0, acc, a, v, k + 1), frag_lang(e1, a, x, v@[k as int]),
    ensures frag_shape(e0 + e1, lo, hi, acc, x), cat_lang(e0 + e1, acc, x, v, k)
{
    let es = e0 + e1;
    contains_add(e0, e1);
    reveal(cat_lang);
    assert forall|w: Seq<char>| #[trigger] reach(es, x, w, acc) <==> lang_cat(v, k, w) by {
        reach_split(es, e1, mid, hi, a, x, w, acc);
        if reach(es, x, w, acc) {
            let j = choose|j: int| 0 <= j <= w.len() && #[trigger] reach(e1, x, w.take(j), a) && reach(es, a, w.skip(j), acc);
            frag_lang_at(e1, a, x, v@[k as int], w.take(j));
            reach_out(es, e0, mid, hi, a, w.skip(j), acc);
            assert(lang(v@[k as int], w.take(j)));
        }
        if lang_cat(v, k, w) {
            let j = choose|j: int| 0 <= j <= w.len() && lang(v@[k as int], #[trigger] w.take(j)) && lang_cat(v, k + 1, w.skip(j));
            frag_lang_at(e1, a, x, v@[k as int], w.take(j));
            reach_out(es, e0, mid, hi, a, w.skip(j), acc);
            assert(reach(e0, a, w.skip(j), acc));
        }
    }
}
/// one labelled edge
#[verifier::opaque]
pub open spec fn one_lang(es: Seq<Edge>, acc: usize, x: usize, m: Match) -> bool {
    forall|w: Seq<char>| #[trigger] reach(es, x, w, acc) <==> w.len() == 1 && inr(m, w[0] as int)
}
pub proof fn one_lang_at(es: Seq<Edge>, acc: usize, x: usize, m: Match, w: Seq<char>)
    requires one_lang(es, acc, x, m) ensures reach(es, x, w, acc) <==> w.len() == 1 && inr(m, w[0] as int)
{ reveal(one_lang); }
pub proof fn frag_one(es: Seq<Edge>, acc: usize, e: Edge, m: Match)
    requires es.len() == 1, es[0] == e, e.label == Some(m), e.to.0 == acc, acc < e.from.0
    ensures frag_shape(es, e.from.0 as int, e.from.0 + 1, acc, e.from.0), one_lang(es, acc, e.from.0, m)
{
    let x = e.from.0;
    reveal(one_lang);
    assert(es.contains(e));
    assert forall|w: Seq<char>| #[trigger] reach(es, x, w, acc) <==> w.len() == 1 && inr(m, w[0] as int) by {
        reach_step(es, x, w, acc);
        if w.len() > 0 { reach_stuck(es, acc, w.skip(1), acc); }
        if reach(es, x, w, acc) {
            let e2 = choose|e2: Edge| #[trigger] es.contains(e2) && e2.from.0 == x && one_step(es, e2, w, acc);
            assert(e2 == e);
        }
        if w.len() == 1 && inr(m, w[0] as int) { assert(one_step(es, e, w, acc)); }
    }
}
// alternation: `f` leads to `acc`, alternatives lead to `f`
pub open spec fn alt_shape(es: Seq<Edge>, lo: int, hi: int, acc: usize, f: usize) -> bool {
    &&& lo <= hi && acc < lo && at(f, lo, hi)
    &&& forall|e: Edge| #[trigger] es.contains(e) ==> at(e.from.0, lo, hi) && (at(e.to.0, lo, hi) || e.to.0 == acc)
}
#[verifier::opaque]
pub open spec fn eps_lang(es: Seq<Edge>, acc: usize, f: usize) -> bool { forall|w: Seq<char>| #[trigger] reach(es, f, w, acc) <==> w.len() == 0 }
pub proof fn eps_lang_at(es: Seq<Edge>, acc: usize, f: usize, w: Seq<char>)
    requires eps_lang(es, acc, f) ensures reach(es, f, w, acc) <==> w.len() == 0
{ reveal(eps_lang); }
pub proof fn alt_start(es: Seq<Edge>, acc: usize, e: Edge)
    requires es.len() == 1, es[0] == e, e.label is None, e.to.0 == acc, acc < e.from.0
    ensures alt_shape(es, e.from.0 as int, e.from.0 + 1, acc, e.from.0), eps_lang(es, acc, e.from.0)
{
    let x = e.from.0;
    reveal(eps_lang);
    assert(es.contains(e));
    assert forall|w: Seq<char>| #[trigger] reach(es, x, w, acc) <==> w.len() == 0 by {
        reach_step(es, x, w, acc);
        reach_stuck(es, acc, w, acc);
        if reach(es, x, w, acc) {
            let e2 = choose|e2: Edge| #[trigger] es.contains(e2) && e2.from.0 == x && one_step(es, e2, w, acc);
            assert(e2 == e);
        }
        if w.len() == 0 { assert(one_step(es, e, w, acc)); }
    }
}
/// what is reached from states that were there before stays what it was
#[verifier::opaque]
pub open spec fn same_reach(e0: Seq<Edge>, es: Seq<Edge>, lo: int, hi: int, acc: usize) -> bool {
    forall|s: usize, w: Seq<char>| !at(s, lo, hi) ==> (#[trigger] reach(es, s, w, acc) <==> reach(e0, s, w, acc))
}
pub proof fn same_reach_at(e0: Seq<Edge>, es: Seq<Edge>, lo: int, hi: int, acc: usize, s: usize, w: Seq<char>)
    requires same_reach(e0, es, lo, hi, acc), !at(s, lo, hi) ensures reach(es, s, w, acc) <==> reach(e0, s, w, acc)
{ reveal(same_reach); }
pub proof fn same_reach_i(e0: Seq<Edge>, es: Seq<Edge>, lo: int, hi: int, acc: usize)
    requires outside(es, e0, lo, hi), sub(e0, es) ensures same_reach(e0, es, lo, hi, acc)
{
    reveal(same_reach);
    assert forall|s: usize, w: Seq<char>| !at(s, lo, hi) implies (#[trigger] reach(es, s, w, acc) <==> reach(e0, s, w, acc)) by { reach_out(es, e0, lo, hi, s, w, acc); }
}
#[verifier::opaque]
pub open spec fn eq_lang(e1: Seq<Edge>, x1: usize, t1: usize, e2: Seq<Edge>, x2: usize, t2: usize) -> bool {
    forall|w: Seq<char>| #[trigger] reach(e1, x1, w, t1) <==> #[trigger] reach(e2, x2, w, t2)
}
pub proof fn eq_lang_at(e1: Seq<Edge>, x1: usize, t1: usize, e2: Seq<Edge>, x2: usize, t2: usize, w: Seq<char>)
    requires eq_lang(e1, x1, t1, e2, x2, t2) ensures reach(e1, x1, w, t1) <==> reach(e2, x2, w, t2)
{ reveal(eq_lang); }
pub proof fn alt_add(e0: Seq<Edge>, e1: Seq<Edge>, lo: int, mid: int, hi: int, acc: usize, f: usize, x: usize)
    requires alt_shape(e0, lo, mid, acc, f), eps_lang(e0, acc, f), frag_shape(e1, mid, hi, f, x)
    ensures alt_shape(e0 + e1, lo, hi, acc, f), eps_lang(e0 + e1, acc, f), same_reach(e0, e0 + e1, mid, hi, acc),
        eq_lang(e0 + e1, x, acc, e1, x, f),
{
    let es = e0 + e1;
    contains_add(e0, e1);
    same_reach_i(e0, es, mid, hi, acc);
    assert forall|w: Seq<char>| #[trigger] reach(es, f, w, acc) <==> w.len() == 0 by {
        same_reach_at(e0, es, mid, hi, acc, f, w);
        eps_lang_at(e0, acc, f, w);
    }
    assert(eps_lang(es, acc, f)) by { reveal(eps_lang); }
    assert forall|w: Seq<char>| reach(es, x, w, acc) <==> reach(e1, x, w, f) by {
        reach_split(es, e1, mid, hi, f, x, w, acc);
        if reach(es, x, w, acc) {
            let j = choose|j: int| 0 <= j <= w.len() && #[trigger] reach(e1, x, w.take(j), f) && reach(es, f, w.skip(j), acc);
            eps_lang_at(es, acc, f, w.skip(j));
            assert(w.take(j) =~= w);
        }
        if reach(e1, x, w, f) {
            let j = w.len() as int;
            assert(w.take(j) =~= w);
            eps_lang_at(es, acc, f, w.skip(j));
            assert(reach(e1, x, w.take(j), f) && reach(es, f, w.skip(j), acc));
        }
    }
    assert(eq_lang(es, x, acc, e1, x, f)) by { reveal(eq_lang); }
}
/// an epsilon edge from `i`, where nothing leads to `i`
pub proof fn alt_push(e0: Seq<Edge>, i: usize, e: Edge, acc: usize)
    requires e.from.0 == i, e.label is None, e.to.0 != i, i != acc, forall|e: Edge| #[trigger] e0.contains(e) ==> e.to.0 != i
    ensures same_reach(e0, e0.push(e), i as int, i + 1, acc),
        forall|w: Seq<char>| #[trigger] reach(e0.push(e), i, w, acc) <==> reach(e0, i, w, acc) || reach(e0, e.to.0, w, acc),
{
    let es = e0.push(e);
    contains_push(e0, e);
    same_reach_i(e0, es, i as int, i + 1, acc);
    assert forall|w: Seq<char>| #[trigger] reach(es, i, w, acc) <==> reach(e0, i, w, acc) || reach(e0, e.to.0, w, acc) by {
        reach_step(es, i, w, acc);
        reach_step(e0, i, w, acc);
        same_reach_at(e0, es, i as int, i + 1, acc, e.to.0, w);
        assert(es.contains(e));
        if reach(es, i, w, acc) {
            let d = choose|d: Edge| #[trigger] es.contains(d) && d.from.0 == i && one_step(es, d, w, acc);
            if d != e {
                assert(e0.contains(d));
                if d.label is None { same_reach_at(e0, es, i as int, i + 1, acc, d.to.0, w); } else { same_reach_at(e0, es, i as int, i + 1, acc, d.to.0, w.skip(1)); }
                assert(one_step(e0, d, w, acc));
            }
        }
        if reach(e0, i, w, acc) {
            let d = choose|d: Edge| #[trigger] e0.contains(d) && d.from.0 == i && one_step(e0, d, w, acc);
            if d.label is None { same_reach_at(e0, es, i as int, i + 1, acc, d.to.0, w); } else { same_reach_at(e0, es, i as int, i + 1, acc, d.to.0, w.skip(1)); }
            assert(es.contains(d) && one_step(es, d, w, acc));
        }
        if reach(e0, e.to.0, w, acc) { assert(one_step(es, e, w, acc)); }
    }
}
// repetition
pub open spec fn rep_edges(es: Seq<Edge>, en: Seq<Edge>, out: usize, inn: usize, i: usize, acc: usize, again: bool, skip: bool) -> bool {
    forall|e: Edge| #[trigger] es.contains(e) <==> {
        ||| en.contains(e)
        ||| e.label is None && e.from.0 == out && e.to.0 == acc
        ||| again && e.label is None && e.from.0 == out && e.to.0 == inn
        ||| e.label is None && e.from.0 == i && e.to.0 == inn
        ||| skip && e.label is None && e.from.0 == i && e.to.0 == acc
    }
}
pub open spec fn rep_pre(es: Seq<Edge>, en: Seq<Edge>, lo: int, hi: int, out: usize, inn: usize, i: usize, acc: usize, again: bool, skip: bool, h: RegexHir) -> bool {
    &&& rep_edges(es, en, out, inn, i, acc, again, skip)
    &&& acc < out && out + 1 == lo && hi == i && frag_shape(en, lo, hi, out, inn) && frag_lang(en, out, inn, h)
}
pub open spec fn eps_edge(a: usize, b: usize) -> Edge { Edge { from: StateIdx(a), label: None, to: StateIdx(b) } }
pub proof fn rep_out_star(es: Seq<Edge>, en: Seq<Edge>, lo: int, hi: int, out: usize, inn: usize, i: usize, acc: usize, again: bool, skip: bool, h: RegexHir, n: nat, w: Seq<char>) -> (k: nat)
    requires rep_pre(es, en, lo, hi, out, inn, i, acc, again, skip, h), path(es, n, out, w, acc)
    ensures star(h, k, w), !again ==> w.len() == 0
    decreases n
{
    path_0(es, n, out, w, acc);
    let e = path_first(es, n, out, w, acc);
    let m = (n - 1) as nat;
    if e.to.0 == acc {
        reach_i(es, m, acc, w, acc);
        reach_stuck(es, acc, w, acc);
        0
    } else {
        assert(again && e.to.0 == inn && e.label is None);
        let (a, j) = path_split(es, en, lo, hi, out, m, inn, w, acc);
        reach_i(en, a, inn, w.take(j), out);
        frag_lang_at(en, out, inn, h, w.take(j));
        let k = rep_out_star(es, en, lo, hi, out, inn, i, acc, again, skip, h, (m - a) as nat, w.skip(j));
        assert(star(h, k + 1, w)) by { assert(lang(h, w.take(j)) && star(h, (k + 1 - 1) as nat, w.skip(j))); }
        k + 1
    }
}
pub proof fn rep_acc(es: Seq<Edge>, en: Seq<Edge>, lo: int, hi: int, out: usize, inn: usize, i: usize, acc: usize, again: bool, skip: bool, h: RegexHir, w: Seq<char>)
    requires rep_pre(es, en, lo, hi, out, inn, i, acc, again, skip, h), w.len() == 0
    ensures reach(es, out, w, acc), skip ==> reach(es, i, w, acc)
{
    reach_stuck(es, acc, w, acc);
    let e = eps_edge(out, acc);
    assert(es.contains(e) && one_step(es, e, w, acc));
    reach_step(es, out, w, acc);
    reach_step(es, i, w, acc);
    if skip {
        let e = eps_edge(i, acc);
        assert(es.contains(e) && one_step(es, e, w, acc));
    }
}
/// through `h` once, then on from `out`
pub proof fn rep_in(es: Seq<Edge>, en: Seq<Edge>, lo: int, hi: int, out: usize, inn: usize, i: usize, acc: usize, again: bool, skip: bool, h: RegexHir, j: int, w: Seq<char>)
    requires rep_pre(es, en, lo, hi, out, inn, i, acc, again, skip, h), 0 <= j <= w.len(), lang(h, w.take(j)), reach(es, out, w.skip(j), acc)
    ensures reach(es, inn, w, acc), reach(es, i, w, acc), again ==> reach(es, out, w, acc)
{
    frag_lang_at(en, out, inn, h, w.take(j));
    reach_split(es, en, lo, hi, out, inn, w, acc);
    assert(seq_reach(en, es, inn, out, acc, w)) by { assert(reach(en, inn, w.take(j), out) && reach(es, out, w.skip(j), acc)); }
    reach_step(es, out, w, acc);
    reach_step(es, i, w, acc);
    let e = eps_edge(i, inn);
    assert(es.contains(e) && one_step(es, e, w, acc));
    if again {
        let e = eps_edge(out, inn);
        assert(es.contains(e) && one_step(es, e, w, acc));
    }
}
pub proof fn rep_star_out(es: Seq<Edge>, en: Seq<Edge>, lo: int, hi: int, out: usize, inn: usize, i: usize, acc: usize, again: bool, skip: bool, h: RegexHir, n: nat, w: Seq<char>)
    requires rep_pre(es, en, lo, hi, out, inn, i, acc, again, skip, h), again, star(h, n, w)
    ensures reach(es, out, w, acc)
    decreases n
{
    if n == 0 { rep_acc(es, en, lo, hi, out, inn, i, acc, again, skip, h, w); }
    else {
        let j = choose|j: int| 0 <= j <= w.len() && lang(h, #[trigger] w.take(j)) && star(h, (n - 1) as nat, w.skip(j));
        rep_star_out(es, en, lo, hi, out, inn, i, acc, again, skip, h, (n - 1) as nat, w.skip(j));
        rep_in(es, en, lo, hi, out, inn, i, acc, again, skip, h, j, w);
    }
}
pub open spec fn rep_lang(again: bool, skip: bool, h: RegexHir, w: Seq<char>) -> bool {
    ||| skip && w.len() == 0
    ||| !again && lang(h, w)
    ||| again && exists|n: nat| #[trigger] times(n) && n >= 1 && star(h, n, w)
}
pub proof fn rep_to(es: Seq<Edge>, en: Seq<Edge>, lo: int, hi: int, out: usize, inn: usize, i: usize, acc: usize, again: bool, skip: bool, h: RegexHir, w: Seq<char>)
    requires rep_pre(es, en, lo, hi, out, inn, i, acc, again, skip, h), rep_lang(again, skip, h, w)
    ensures reach(es, i, w, acc)
{
    if skip && w.len() == 0 { rep_acc(es, en, lo, hi, out, inn, i, acc, again, skip, h, w); }
    else if !again {
        let j = w.len() as int;
        assert(w.take(j) =~= w);
        rep_acc(es, en, lo, hi, out, inn, i, acc, again, skip, h, w.skip(j));
        rep_in(es, en, lo, hi, out, inn, i, acc, again, skip, h, j, w);
    } else {
        let n = choose|n: nat| #[trigger] times(n) && n >= 1 && star(h, n, w);
        let j = choose|j: int| 0 <= j <= w.len() && lang(h, #[trigger] w.take(j)) && star(h, (n - 1) as nat, w.skip(j));
        rep_star_out(es, en, lo, hi, out, inn, i, acc, again, skip, h, (n - 1) as nat, w.skip(j));
        rep_in(es, en, lo, hi, out, inn, i, acc, again, skip, h, j, w);
    }
}
pub proof fn rep_from(es: Seq<Edge>, en: Seq<Edge>, lo: int, hi: int, out: usize, inn: usize, i: usize, acc: usize, again: bool, skip: bool, h: RegexHir, w: Seq<char>)
    requires rep_pre(es, en, lo, hi, out, inn, i, acc, again, skip, h), reach(es, i, w, acc)
    ensures rep_lang(again, skip, h, w)
{
    reach_step(es, i, w, acc);
    let e = choose|e: Edge| #[trigger] es.contains(e) && e.from.0 == i && one_step(es, e, w, acc);
    if e.to.0 == acc {
        reach_stuck(es, acc, w, acc);
    } else {
        assert(e.to.0 == inn);
        reach_split(es, en, lo, hi, out, inn, w, acc);
        let j = choose|j: int| 0 <= j <= w.len() && #[trigger] reach(en, inn, w.take(j), out) && reach(es, out, w.skip(j), acc);
        frag_lang_at(en, out, inn, h, w.take(j));
        let n = reach_n(es, out, w.skip(j), acc);
        let k = rep_out_star(es, en, lo, hi, out, inn, i, acc, again, skip, h, n, w.skip(j));
        if again {
            assert(times(k + 1));
            assert(star(h, k + 1, w)) by { assert(lang(h, w.take(j)) && star(h, (k + 1 - 1) as nat, w.skip(j))); }
        } else {
            assert(w.take(j) =~= w);
        }
    }
}
pub proof fn frag_rep(es: Seq<Edge>, en: Seq<Edge>, lo: int, hi: int, out: usize, inn: usize, i: usize, acc: usize, again: bool, skip: bool, h: RegexHir, hr: RegexHir)
    requires rep_pre(es, en, lo, hi, out, inn, i, acc, again, skip, h), hr.k matches HirKind::Repetition(r) && *r.hir == h && !(r.kind is Range)
        && again == (r.kind is OneOrMore || r.kind is ZeroOrMore) && skip == (r.kind is ZeroOrOne || r.kind is ZeroOrMore)
    ensures frag_shape(es, out as int, i + 1, acc, i), frag_lang(es, acc, i, hr)
{
    reveal(frag_lang);
    assert forall|w: Seq<char>| #[trigger] reach(es, i, w, acc) <==> lang(hr, w) by {
        if reach(es, i, w, acc) { rep_from(es, en, lo, hi, out, inn, i, acc, again, skip, h, w); }
        assert(star(h, 0, w) <==> w.len() == 0);
        assert(times(0));
        if skip && again && lang(hr, w) {
            let n = choose|n: nat| #[trigger] times(n) && star(h, n, w);
            assert(n == 0 || n >= 1);
        }
        if lang(hr, w) { rep_to(es, en, lo, hi, out, inn, i, acc, again, skip, h, w); }
    }
}

// --- targets of an alternation ---
pub open spec fn tg(t: Seq<OptionUsize<StateIdx>>, j: int) -> usize { t[j].val().0 }
#[verifier::opaque]
pub open spec fn tg_lang(es: Seq<Edge>, acc: usize, t: Seq<OptionUsize<StateIdx>>, p: spec_fn(int, Seq<char>) -> bool) -> bool {
    forall|j: int, w: Seq<char>| 0 <= j < t.len() ==> (#[trigger] reach(es, tg(t, j), w, acc) <==> #[trigger] p(j, w))
}
pub proof fn tg_lang_at(es: Seq<Edge>, acc: usize, t: Seq<OptionUsize<StateIdx>>, p: spec_fn(int, Seq<char>) -> bool, j: int, w: Seq<char>)
    requires tg_lang(es, acc, t, p), 0 <= j < t.len() ensures reach(es, tg(t, j), w, acc) <==> p(j, w)
{ reveal(tg_lang); }
/// the targets lie between `a` and `b`
pub open spec fn tg_at(t: Seq<OptionUsize<StateIdx>>, a: int, b: int, acc: usize) -> bool {
    forall|j: int| 0 <= j < t.len() ==> !(#[trigger] t[j]).none_v() && (at(tg(t, j), a, b))
}
#[verifier::opaque]
pub open spec fn p_lang(es: Seq<Edge>, acc: usize, x: usize, p: spec_fn(int, Seq<char>) -> bool, j: int) -> bool {
    forall|w: Seq<char>| #[trigger] reach(es, x, w, acc) <==> p(j, w)
}
pub proof fn tg_0(es: Seq<Edge>, acc: usize, t: Seq<OptionUsize<StateIdx>>, p: spec_fn(int, Seq<char>) -> bool)
    requires t.len() == 0 ensures tg_lang(es, acc, t, p)
{ reveal(tg_lang); }
pub proof fn tg_add(e0: Seq<Edge>, es: Seq<Edge>, mid: int, hi: int, acc: usize, t: Seq<OptionUsize<StateIdx>>, x: OptionUsize<StateIdx>, p: spec_fn(int, Seq<char>) -> bool)
    requires tg_lang(e0, acc, t, p), same_reach(e0, es, mid, hi, acc), forall|j: int| 0 <= j < t.len() ==> !at(tg(t, j), mid, hi), p_lang(es, acc, x.val().0, p, t.len() as int)
    ensures tg_lang(es, acc, t.push(x), p)
{
    let t2 = t.push(x);
    assert forall|j: int, w: Seq<char>| 0 <= j < t2.len() implies (#[trigger] reach(es, tg(t2, j), w, acc) <==> #[trigger] p(j, w)) by {
        if j < t.len() {
            assert(tg(t2, j) == tg(t, j));
            tg_lang_at(e0, acc, t, p, j, w);
            same_reach_at(e0, es, mid, hi, acc, tg(t, j), w);
        } else { reveal(p_lang); }
    }
    reveal(tg_lang);
}
pub proof fn tg_keep(e0: Seq<Edge>, es: Seq<Edge>, mid: int, hi: int, acc: usize, t: Seq<OptionUsize<StateIdx>>, p: spec_fn(int, Seq<char>) -> bool)
    requires tg_lang(e0, acc, t, p), same_reach(e0, es, mid, hi, acc), forall|j: int| 0 <= j < t.len() ==> !at(#[trigger] tg(t, j), mid, hi)
    ensures tg_lang(es, acc, t, p)
{
    assert forall|j: int, w: Seq<char>| 0 <= j < t.len() implies (#[trigger] reach(es, tg(t, j), w, acc) <==> #[trigger] p(j, w)) by {
        tg_lang_at(e0, acc, t, p, j, w);
        same_reach_at(e0, es, mid, hi, acc, tg(t, j), w);
    }
    reveal(tg_lang);
}
pub open spec fn some_p(p: spec_fn(int, Seq<char>) -> bool, k: int, w: Seq<char>) -> bool { exists|j: int| 0 <= j < k && #[trigger] p(j, w) }
#[verifier::opaque]
pub open spec fn sel_lang(es: Seq<Edge>, acc: usize, i: usize, k: int, p: spec_fn(int, Seq<char>) -> bool) -> bool {
    forall|w: Seq<char>| #[trigger] reach(es, i, w, acc) <==> some_p(p, k, w)
}
pub proof fn sel_0(es: Seq<Edge>, acc: usize, i: usize, p: spec_fn(int, Seq<char>) -> bool)
    requires i != acc, forall|e: Edge| #[trigger] es.contains(e) ==> e.from.0 != i
    ensures sel_lang(es, acc, i, 0, p)
{
    assert forall|w: Seq<char>| #[trigger] reach(es, i, w, acc) <==> some_p(p, 0, w) by { reach_stuck(es, i, w, acc); }
    reveal(sel_lang);
}
pub proof fn sel_add(e0: Seq<Edge>, i: usize, e: Edge, acc: usize, t: Seq<OptionUsize<StateIdx>>, k: int, p: spec_fn(int, Seq<char>) -> bool)
    requires
        e.from.0 == i, e.label is None, 0 <= k < t.len(), e.to.0 == tg(t, k), i != acc,
        forall|j: int| 0 <= j < t.len() ==> #[trigger] tg(t, j) != i,
        forall|e: Edge| #[trigger] e0.contains(e) ==> e.to.0 != i,
        tg_lang(e0, acc, t, p), sel_lang(e0, acc, i, k, p),
    ensures
        tg_lang(e0.push(e), acc, t, p), sel_lang(e0.push(e), acc, i, k + 1, p),
        forall|e2: Edge| #[trigger] e0.push(e).contains(e2) ==> e2.to.0 != i,
{
    let es = e0.push(e);
    contains_push(e0, e);
    alt_push(e0, i, e, acc);
    tg_keep(e0, es, i as int, i + 1, acc, t, p);
    assert forall|w: Seq<char>| #[trigger] reach(es, i, w, acc) <==> some_p(p, k + 1, w) by {
        reveal(sel_lang);
        tg_lang_at(e0, acc, t, p, k, w);
        assert(reach(e0, i, w, acc) <==> some_p(p, k, w));
        if some_p(p, k, w) { let j = choose|j: int| 0 <= j < k && #[trigger] p(j, w); assert(p(j, w)); }
        if some_p(p, k + 1, w) { let j = choose|j: int| 0 <= j < k + 1 && #[trigger] p(j, w); assert(j == k || j < k); }
        if p(k, w) { assert(some_p(p, k + 1, w)); }
    }
    reveal(sel_lang);
}
pub open spec fn p_alt(v: Seq<RegexHir>) -> spec_fn(int, Seq<char>) -> bool { |j: int, w: Seq<char>| lang(v[j], w) }
pub open spec fn p_cls(v: Seq<Match>) -> spec_fn(int, Seq<char>) -> bool { |j: int, w: Seq<char>| w.len() == 1 && inr(v[j], w[0] as int) }
pub proof fn p_lang_alt(es: Seq<Edge>, e1: Seq<Edge>, acc: usize, x: usize, f: usize, v: Seq<RegexHir>, j: int)
    requires eq_lang(es, x, acc, e1, x, f), frag_lang(e1, f, x, v[j]) ensures p_lang(es, acc, x, p_alt(v), j)
{
    assert forall|w: Seq<char>| #[trigger] reach(es, x, w, acc) <==> p_alt(v)(j, w) by { eq_lang_at(es, x, acc, e1, x, f, w); frag_lang_at(e1, f, x, v[j], w); }
    reveal(p_lang);
}
pub proof fn p_lang_cls(es: Seq<Edge>, e1: Seq<Edge>, acc: usize, x: usize, f: usize, v: Seq<Match>, j: int)
    requires eq_lang(es, x, acc, e1, x, f), one_lang(e1, f, x, v[j]) ensures p_lang(es, acc, x, p_cls(v), j)
{
    assert forall|w: Seq<char>| #[trigger] reach(es, x, w, acc) <==> p_cls(v)(j, w) by { eq_lang_at(es, x, acc, e1, x, f, w); one_lang_at(e1, f, x, v[j], w); }
    reveal(p_lang);
}
pub proof fn frag_alt(es: Seq<Edge>, acc: usize, i: usize, h: RegexHir, v: Vec<RegexHir>)
    requires h.k == HirKind::Alternation(v), sel_lang(es, acc, i, v@.len() as int, p_alt(v@))
    ensures frag_lang(es, acc, i, h)
{
    assert forall|w: Seq<char>| #[trigger] reach(es, i, w, acc) <==> lang(h, w) by {
        reveal(sel_lang);
        let p = p_alt(v@);
        assert(reach(es, i, w, acc) <==> some_p(p, v@.len() as int, w));
        lang_alt_some(v, 0, w);
        if some_p(p, v@.len() as int, w) { let j = choose|j: int| 0 <= j < v@.len() && #[trigger] p(j, w); assert(lang(v@[j], w)); }
        if lang(h, w) { let j = choose|j: int| 0 <= j < v@.len() && lang(#[trigger] v@[j], w); assert(p(j, w)); }
    }
    reveal(frag_lang);
}
pub open spec fn lbl(m: Match, s: int, e: int) -> bool { m.range.start == s && m.range.end == e + 1 }
/// the ranges of a class as labels
pub open spec fn cls_labels(k: Class, v: Seq<Match>) -> bool {
    match k {
        Class::Unicode(k) => v.len() == k.v@.len() && forall|i: int| 0 <= i < v.len() ==> lbl(#[trigger] v[i], k.v@[i].s as int, k.v@[i].e as int),
        Class::Bytes(k) => v.len() == k.v@.len() && forall|i: int| 0 <= i < v.len() ==> lbl(#[trigger] v[i], k.v@[i].s as int, k.v@[i].e as int),
    }
}
pub proof fn cls_has(k: Class, v: Seq<Match>, c: char)
    requires cls_labels(k, v) ensures class_has(k, c) <==> exists|j: int| 0 <= j < v.len() && inr(#[trigger] v[j], c as int)
{
    match k {
        Class::Unicode(u) => {
            if class_has(k, c) { let j = choose|i: int| 0 <= i < u.v@.len() && (#[trigger] u.v@[i]).s as int <= c as int <= u.v@[i].e as int; assert(inr(v[j], c as int)); }
            if exists|j: int| 0 <= j < v.len() && inr(#[trigger] v[j], c as int) { let j = choose|j: int| 0 <= j < v.len() && inr(#[trigger] v[j], c as int); assert(u.v@[j].s as int <= c as int <= u.v@[j].e as int); }
        }
        Class::Bytes(u) => {
            if class_has(k, c) { let j = choose|i: int| 0 <= i < u.v@.len() && (#[trigger] u.v@[i]).s as int <= c as int <= u.v@[i].e as int; assert(inr(v[j], c as int)); }
            if exists|j: int| 0 <= j < v.len() && inr(#[trigger] v[j], c as int) { let j = choose|j: int| 0 <= j < v.len() && inr(#[trigger] v[j], c as int); assert(u.v@[j].s as int <= c as int <= u.v@[j].e as int); }
        }
    }
}
pub proof fn frag_cls(es: Seq<Edge>, acc: usize, i: usize, h: RegexHir, k: Class, v: Seq<Match>)
    requires h.k == HirKind::Class(k), cls_labels(k, v), sel_lang(es, acc, i, v.len() as int, p_cls(v))
    ensures frag_lang(es, acc, i, h)
{
    assert forall|w: Seq<char>| #[trigger] reach(es, i, w, acc) <==> lang(h, w) by {
        reveal(sel_lang);
        let p = p_cls(v);
        assert(reach(es, i, w, acc) <==> some_p(p, v.len() as int, w));
        if some_p(p, v.len() as int, w) {
            let j = choose|j: int| 0 <= j < v.len() && #[trigger] p(j, w);
            assert(inr(v[j], w[0] as int));
            cls_has(k, v, w[0]);
            assert(lang(h, w));
        }
        if lang(h, w) {
            cls_has(k, v, w[0]);
            let j = choose|j: int| 0 <= j < v.len() && inr(#[trigger] v[j], w[0] as int);
            assert(p(j, w));
            assert(some_p(p, v.len() as int, w));
            assert(reach(es, i, w, acc));
        }
        assert(reach(es, i, w, acc) ==> lang(h, w));
        assert(lang(h, w) ==> reach(es, i, w, acc));
    }
    reveal(frag_lang);
}
pub proof fn frag_lit(es: Seq<Edge>, acc: usize, i: usize, h: RegexHir, l: Literal, m: Match)
    requires h.k == HirKind::Literal(l), one_lang(es, acc, i, m),
        match l { Literal::Unicode(c) => m.range.start == c as u32 && m.range.end == c as u32 + 1, Literal::Byte(b) => m.range.start == b as u32 && m.range.end == b as u32 + 1 }
    ensures frag_lang(es, acc, i, h)
{
    assert forall|w: Seq<char>| #[trigger] reach(es, i, w, acc) <==> lang(h, w) by { one_lang_at(es, acc, i, m, w); }
    reveal(frag_lang);
}
pub proof fn frag_id(es: Seq<Edge>, acc: usize, h: RegexHir)
    requires h.k is Empty, es.len() == 0 ensures frag_shape(es, acc + 1, acc + 1, acc, acc), frag_lang(es, acc, acc, h)
{
    assert forall|w: Seq<char>| #[trigger] reach(es, acc, w, acc) <==> lang(h, w) by { reach_stuck(es, acc, w, acc); }
    reveal(frag_lang);
}
pub proof fn frag_group(es: Seq<Edge>, acc: usize, x: usize, h: RegexHir, g: Group)
    requires h.k == HirKind::Group(g), frag_lang(es, acc, x, *g.hir) ensures frag_lang(es, acc, x, h)
{ reveal(frag_lang); }
pub proof fn frag_concat(es: Seq<Edge>, acc: usize, x: usize, h: RegexHir, v: Vec<RegexHir>)
    requires h.k == HirKind::Concat(v), cat_lang(es, acc, x, v, 0) ensures frag_lang(es, acc, x, h)
{ reveal(frag_lang); reveal(cat_lang); }

// --- the arrays of an automaton ---
pub open spec fn first_ok(st: Seq<State>, es: Seq<Edge>, s: int) -> bool {
    if st[s].first_edge.none_v() { forall|e: int| 0 <= e < es.len() ==> (#[trigger] es[e]).from.0 != s }
    else {
        let f = st[s].first_edge.val();
        &&& f < es.len() && es[f as int].from.0 == s
        &&& forall|e: int| 0 <= e < es.len() && (#[trigger] es[e]).from.0 == s ==> f <= e
        &&& forall|e1: int, e2: int| f <= e1 <= e2 < es.len() && (#[trigger] es[e2]).from.0 == s ==> (#[trigger] es[e1]).from.0 == s
    }
}
/// the edges of every state lie together, from its first one on
#[verifier::opaque]
pub open spec fn nwf(a: NFA) -> bool {
    &&& forall|e: int| 0 <= e < a.edges@.len() ==> (#[trigger] a.edges@[e]).from.0 < a.states@.len() && a.edges@[e].to.0 < a.states@.len()
    &&& forall|s: int| 0 <= s < a.states@.len() ==> #[trigger] first_ok(a.states@, a.edges@, s)
}
pub open spec fn can_push(a: NFA, s: int) -> bool { a.states@[s].first_edge.none_v() || (a.edges@.len() > 0 && a.edges@.last().from.0 == s) }
pub open spec fn newe(a: NFA, b: NFA) -> Seq<Edge> { b.edges@.skip(a.edges@.len() as int) }
pub open spec fn grown(a: NFA, b: NFA) -> bool {
    &&& a.states@.len() <= b.states@.len() && a.edges@.len() <= b.edges@.len()
    &&& b.edges@ == a.edges@ + newe(a, b)
    &&& forall|i: int| 0 <= i < a.states@.len() ==> #[trigger] b.states@[i] == a.states@[i]
    &&& forall|i: int| a.states@.len() <= i < b.states@.len() ==> !(#[trigger] b.states@[i]).is_accept
}
pub open spec fn edged(a: NFA, b: NFA, e: Edge) -> bool {
    &&& b.edges@ == a.edges@.push(e)
    &&& a.states@.len() == b.states@.len()
    &&& forall|i: int| 0 <= i < a.states@.len() && i != e.from.0 ==> #[trigger] b.states@[i] == a.states@[i]
    &&& forall|i: int| 0 <= i < a.states@.len() ==> (#[trigger] b.states@[i]).is_accept == a.states@[i].is_accept
    &&& can_push(b, e.from.0 as int)
}
pub open spec fn first_set(a: NFA, b: NFA, s: int) -> bool {
    b.states@[s].first_edge == (if a.states@[s].first_edge.none_v() { OptionUsize(a.edges@.len() as usize) } else { a.states@[s].first_edge })
}
pub proof fn grown_trans(a: NFA, b: NFA, c: NFA)
    requires grown(a, b), grown(b, c) ensures grown(a, c), newe(a, c) == newe(a, b) + newe(b, c)
{ assert(newe(a, c) =~= newe(a, b) + newe(b, c)); assert(c.edges@ =~= a.edges@ + newe(a, c));
  assert forall|i: int| 0 <= i < a.states@.len() implies #[trigger] c.states@[i] == a.states@[i] by { assert(c.states@[i] == b.states@[i]); }
  assert forall|i: int| a.states@.len() <= i < c.states@.len() implies !(#[trigger] c.states@[i]).is_accept by { if i < b.states@.len() { assert(c.states@[i] == b.states@[i]); } }
}
pub proof fn grown_edge(a: NFA, b: NFA, c: NFA, e: Edge)
    requires grown(a, b), edged(b, c, e), e.from.0 >= a.states@.len() ensures grown(a, c), newe(a, c) == newe(a, b).push(e)
{ assert(newe(a, c) =~= newe(a, b).push(e)); assert(c.edges@ =~= a.edges@ + newe(a, c));
  assert forall|i: int| 0 <= i < a.states@.len() implies #[trigger] c.states@[i] == a.states@[i] by { assert(c.states@[i] == b.states@[i]); }
}
pub open spec fn blank() -> State { State { first_edge: OptionUsize(usize::MAX), is_accept: false } }
pub proof fn new_state(a: NFA, b: NFA, s: State)
    requires b.edges@ == a.edges@, b.states@ =~= a.states@.push(s), !s.is_accept, s.first_edge.none_v()
    ensures grown(a, b), newe(a, b).len() == 0, nwf(a) ==> nwf(b), can_push(b, a.states@.len() as int)
{
    assert(b.edges@ =~= a.edges@ + newe(a, b));
    if nwf(a) {
        reveal(nwf);
        assert forall|i: int| 0 <= i < b.states@.len() implies #[trigger] first_ok(b.states@, b.edges@, i) by {
            if i < a.states@.len() { assert(first_ok(a.states@, a.edges@, i)); }
        }
    }
}
pub proof fn grown_refl(a: NFA) ensures grown(a, a), newe(a, a).len() == 0 { assert(a.edges@ =~= a.edges@ + newe(a, a)); }
pub proof fn wf_edged(a: NFA, b: NFA, e: Edge)
    requires nwf(a), edged(a, b, e), can_push(a, e.from.0 as int), e.from.0 < a.states@.len(), e.to.0 < a.states@.len(),
        b.states@[e.from.0 as int].first_edge == (if a.states@[e.from.0 as int].first_edge.none_v() { OptionUsize(a.edges@.len() as usize) } else { a.states@[e.from.0 as int].first_edge }),
        a.edges@.len() < usize::MAX,
    ensures nwf(b)
{
    reveal(nwf);
    let s = e.from.0 as int;
    assert(first_ok(a.states@, a.edges@, s));
    assert forall|i: int| 0 <= i < b.states@.len() implies #[trigger] first_ok(b.states@, b.edges@, i) by {
        assert(first_ok(a.states@, a.edges@, i));
        assert(b.edges@[a.edges@.len() as int] == e);
        if i != s {
            assert(b.states@[i] == a.states@[i]);
            if !a.states@[i].first_edge.none_v() {
                let f = a.states@[i].first_edge.val();
                assert(b.edges@[f as int] == a.edges@[f as int]);
            }
        } else if !a.states@[i].first_edge.none_v() {
            let f = a.states@[i].first_edge.val();
            assert(b.edges@[f as int] == a.edges@[f as int]);
            assert forall|e1: int, e2: int| f <= e1 <= e2 < b.edges@.len() && (#[trigger] b.edges@[e2]).from.0 == s implies (#[trigger] b.edges@[e1]).from.0 == s by {
                if e2 == a.edges@.len() && e1 < e2 {
                    assert(a.edges@[a.edges@.len() - 1].from.0 == s);
                    assert(a.edges@[e1].from.0 == s);
                }
            }
        }
    }
}

@module nfa = lex/nfa.rs
@item StateIdx
@item Edge
@item State
@item NFA
@item Match::EPSILON
@item NFA::START_IDX
@item NFA::FINAL_ACCEPT_IDX
@impl impl UIdx for StateIdx
@text
    open spec fn idx(self) -> usize { self.0 }
    open spec fn mk(i: usize) -> StateIdx { StateIdx(i) }
    proof fn idx_mk(i: usize) {}
@fn <Into<usize> for StateIdx>::into
@sig fn vinto(self) -> (r: usize)
@trait
@fn <From<usize> for StateIdx>::from
@trait
@endimpl
@fn StateIdx::value
@spec
    ensures r == self.0,
@fn NFA::push_edge
@spec
    requires
        from.0 < old(self).states@.len(),
    ensures
        edged(*old(self), *final(self), Edge { from, label, to }), first_set(*old(self), *final(self), from.0 as int),
        nwf(*old(self)) && to.0 < old(self).states@.len() && can_push(*old(self), from.0 as int) ==> nwf(*final(self)),
@hint start
    let ghost me0 = *self;
    proof { vec_len_max(self.edges); }
@hint end
    proof { if nwf(me0) && to.0 < me0.states@.len() && can_push(me0, from.0 as int) { wf_edged(me0, *self, Edge { from, label, to }); } }
@fn NFA::compile_match
@spec
    requires nwf(*old(self)), accept.0 < old(self).states@.len(),
    ensures
        nwf(*final(self)), grown(*old(self), *final(self)), !r.none_v(), r.val().0 == old(self).states@.len(),
        final(self).states@.len() == old(self).states@.len() + 1,
        frag_shape(newe(*old(self), *final(self)), old(self).states@.len() as int, final(self).states@.len() as int, accept.0, r.val().0),
        one_lang(newe(*old(self), *final(self)), accept.0, r.val().0, m),
@hint start
    let ghost me0 = *self;
    proof { vec_len_max(self.states); }
@hint before call push_edge 1
    let ghost me1 = *self;
    proof { new_state(me0, me1, self.states@.last()); vec_len_max(self.states); }
@hint after call push_edge 1
    proof {
        let e = Edge { from, label: Some(m), to: accept };
        grown_edge(me0, me1, *self, e);
        frag_one(newe(me0, *self), accept.0, e, m);
    }
@fn NFA::compile
@attr #[verifier::rlimit(200)]
@spec
    requires nwf(*old(self)), accept.0 < old(self).states@.len(), supported(*regex),
    ensures
        nwf(*final(self)), grown(*old(self), *final(self)), !r.none_v(),
        frag_shape(newe(*old(self), *final(self)), old(self).states@.len() as int, final(self).states@.len() as int, accept.0, r.val().0),
        frag_lang(newe(*old(self), *final(self)), accept.0, r.val().0, *regex),
    decreases regex
@hint start
    let ghost me0 = *self;
    let ghost acc = accept.0;
    let ghost lo = self.states@.len() as int;
    proof { vec_len_max(self.states); grown_refl(me0); if regex.k is Empty { frag_id(newe(me0, me0), acc, *regex); } }
@hint end
    proof {
        if regex.k is Literal {
            let m = match regex.k { HirKind::Literal(Literal::Unicode(c)) => Match { range: Range { start: c as u32, end: (c as u32 + 1) as u32 } }, HirKind::Literal(Literal::Byte(b)) => Match { range: Range { start: b as u32, end: (b as u32 + 1) as u32 } }, _ => arbitrary() };
            frag_lit(newe(me0, *self), acc, lo as usize, *regex, regex.k->Literal_0, m);
        }
        if regex.k is Group { frag_group(newe(me0, *self), acc, r__.val().0, *regex, regex.k->Group_0); }
    }
@loop 1
    invariant
        $acc@.len() == $i,
        forall|q: int| 0 <= q < $i ==> lbl(#[trigger] $acc@[q], class.v@[q].s as int, class.v@[q].e as int),
@loop 2
    invariant
        $acc@.len() == $i,
        forall|q: int| 0 <= q < $i ==> lbl(#[trigger] $acc@[q], class.v@[q].s as int, class.v@[q].e as int),
@hint before call push_edge 1
    let ghost me1 = *self;
    let ghost p = p_cls(ranges@);
    proof { new_state(me0, me1, self.states@.last()); vec_len_max(self.states); }
@hint after call push_edge 1
    let ghost me2 = *self;
    proof {
        let e = Edge { from: f_idx, label: None, to: accept };
        grown_edge(me0, me1, me2, e);
        alt_start(newe(me0, me2), acc, e);
    }
@hint loop 3 before
    proof {
        new_state(me2, *self, self.states@.last()); grown_trans(me0, me2, *self); vec_len_max(self.states);
        assert(newe(me0, *self) =~= newe(me0, me2));
        tg_0(newe(me0, *self), acc, $acc@, p);
    }
@loop 3
    invariant
        nwf(*self), grown(me0, *self), f_idx.0 == lo, i_idx.0 == lo + 1, self.states@.len() >= lo + 2, accept.0 == acc, acc < lo, me0.states@.len() == lo, p == p_cls(ranges@),
        alt_shape(newe(me0, *self), lo, self.states@.len() as int, acc, f_idx.0), eps_lang(newe(me0, *self), acc, f_idx.0),
        forall|e: Edge| #[trigger] newe(me0, *self).contains(e) ==> e.from.0 != i_idx.0 && e.to.0 != i_idx.0,
        can_push(*self, i_idx.0 as int), self.states@[i_idx.0 as int].first_edge.none_v(),
        $acc@.len() == $i, tg_at($acc@, lo + 2, self.states@.len() as int, acc), tg_lang(newe(me0, *self), acc, $acc@, p),
@hint loop 3 start
    let ghost me3 = *self;
    let ghost tg3 = $acc@;
@hint loop 3 end
    proof {
        vec_len_max(self.states);
        grown_trans(me0, me3, *self);
        let e0 = newe(me0, me3);
        let e1 = newe(me3, *self);
        let mid = me3.states@.len() as int;
        let hi = self.states@.len() as int;
        let x = $acc@[$i - 1];
        contains_add(e0, e1);
        alt_add(e0, e1, lo, mid, hi, acc, f_idx.0, x.val().0);
        p_lang_cls(e0 + e1, e1, acc, x.val().0, f_idx.0, ranges@, $i - 1);
        tg_add(e0, e0 + e1, mid, hi, acc, tg3, x, p);
        assert(tg3.push(x) =~= $acc@);
        assert(self.states@[i_idx.0 as int] == me3.states@[i_idx.0 as int]);
    }
@hint loop 4 before
    proof { sel_0(newe(me0, *self), acc, i_idx.0, p); }
@loop 4
    invariant
        nwf(*self), grown(me0, *self), f_idx.0 == lo, i_idx.0 == lo + 1, self.states@.len() >= lo + 2, acc < lo, me0.states@.len() == lo,
        forall|e: Edge| #[trigger] newe(me0, *self).contains(e) ==> at(e.from.0, lo, self.states@.len() as int) && (at(e.to.0, lo, self.states@.len() as int) || e.to.0 == acc),
        forall|e: Edge| #[trigger] newe(me0, *self).contains(e) ==> e.to.0 != i_idx.0,
        can_push(*self, i_idx.0 as int),
        tg_at($s, lo + 2, self.states@.len() as int, acc), tg_lang(newe(me0, *self), acc, $s, p),
        sel_lang(newe(me0, *self), acc, i_idx.0, $i as int, p),
@hint loop 4 start
    let ghost me3 = *self;
@hint loop 4 end
    proof {
        let e = Edge { from: i_idx, label: None, to: target.val() };
        let k = $i - 1;
        assert(target == $s[k]);
        assert(tg($s, k) == e.to.0);
        grown_edge(me0, me3, *self, e);
        contains_push(newe(me0, me3), e);
        sel_add(newe(me0, me3), i_idx.0, e, acc, $s, k, p);
    }
@hint loop 4 after
    proof { frag_cls(newe(me0, *self), acc, i_idx.0, *regex, *class, ranges@); }
@hint before call compile 1
    let ghost me1 = *self;
    proof { new_state(me0, me1, self.states@.last()); vec_len_max(self.states); }
@hint after call compile 1
    let ghost me2 = *self;
    let ghost en = newe(me1, me2);
    proof {
        vec_len_max(self.states);
        grown_trans(me0, me1, me2);
        assert(newe(me0, me2) =~= en);
        assert(self.states@[s_out.0 as int] == me1.states@[s_out.0 as int]);
    }
@hint after call push_edge 3
    let ghost me3 = *self;
    proof { grown_edge(me0, me2, me3, Edge { from: s_out, label: None, to: accept }); contains_push(newe(me0, me2), Edge { from: s_out, label: None, to: accept }); }
@hint after call push_edge 4
    proof {
        if rep.kind is OneOrMore || rep.kind is ZeroOrMore {
            grown_edge(me0, me3, *self, Edge { from: s_out, label: None, to: s_in }); contains_push(newe(me0, me3), Edge { from: s_out, label: None, to: s_in });
        }
    }
@hint before let i 1
    let ghost me4 = *self;
@hint before call push_edge 5
    let ghost me5 = *self;
    proof { new_state(me4, me5, self.states@.last()); grown_trans(me0, me4, me5); assert(newe(me0, me5) =~= newe(me0, me4)); vec_len_max(self.states); }
@hint after call push_edge 5
    let ghost me6 = *self;
    proof { grown_edge(me0, me5, me6, Edge { from: i, label: None, to: s_in }); contains_push(newe(me0, me5), Edge { from: i, label: None, to: s_in }); }
@hint after call push_edge 6
    proof {
        if rep.kind is ZeroOrOne || rep.kind is ZeroOrMore {
            grown_edge(me0, me6, *self, Edge { from: i, label: None, to: accept }); contains_push(newe(me0, me6), Edge { from: i, label: None, to: accept });
        }
    }
@hint before call some 3
    proof {
        let again = rep.kind is OneOrMore || rep.kind is ZeroOrMore;
        let skip = rep.kind is ZeroOrOne || rep.kind is ZeroOrMore;
        let es = newe(me0, *self);
        assert(rep_edges(es, en, s_out.0, s_in.0, i.0, acc, again, skip));
        frag_rep(es, en, lo + 1, i.0 as int, s_out.0, s_in.0, i.0, acc, again, skip, *rep.hir, *regex);
    }
@hint loop 5 before
    proof { frag_empty(newe(me0, *self), acc, *exprs); }
@loop 5
    invariant
        nwf(*self), grown(me0, *self), acc < lo, me0.states@.len() == lo, accept.0 < self.states@.len(), regex.k == HirKind::Concat(*exprs), supported(*regex),
        $s == refs::<RegexHir>(exprs@).reverse(),
        frag_shape(newe(me0, *self), lo, self.states@.len() as int, acc, accept.0), cat_lang(newe(me0, *self), acc, accept.0, *exprs, (exprs@.len() - $i) as nat),
@hint loop 5 start
    let ghost me3 = *self;
    let ghost a3 = accept.0;
    let ghost k = exprs@.len() - $i;
    proof { assert(*expr == exprs@[k]); assert(decreases_to!(exprs => exprs[k])); }
@hint loop 5 end
    proof {
        grown_trans(me0, me3, *self);
        vec_len_max(self.states);
        frag_cat(newe(me0, me3), newe(me3, *self), lo, me3.states@.len() as int, self.states@.len() as int, acc, a3, accept.0, *exprs, k as nat);
    }
@hint loop 5 after
    proof { frag_concat(newe(me0, *self), acc, accept.0, *regex, *exprs); vec_len_max(self.states); }
@hint before call push_edge 7
    let ghost me1 = *self;
    let ghost p = p_alt(alternations@);
    proof { new_state(me0, me1, self.states@.last()); vec_len_max(self.states); }
@hint after call push_edge 7
    let ghost me2 = *self;
    proof {
        let e = Edge { from: f_idx, label: None, to: accept };
        grown_edge(me0, me1, me2, e);
        alt_start(newe(me0, me2), acc, e);
    }
@hint loop 6 before
    proof {
        new_state(me2, *self, self.states@.last()); grown_trans(me0, me2, *self); vec_len_max(self.states);
        assert(newe(me0, *self) =~= newe(me0, me2));
        tg_0(newe(me0, *self), acc, $acc@, p);
    }
@loop 6
    invariant
        nwf(*self), grown(me0, *self), f_idx.0 == lo, i_idx.0 == lo + 1, self.states@.len() >= lo + 2, accept.0 == acc, acc < lo, me0.states@.len() == lo, p == p_alt(alternations@),
        regex.k == HirKind::Alternation(*alternations), supported(*regex), $s == refs::<RegexHir>(alternations@),
        alt_shape(newe(me0, *self), lo, self.states@.len() as int, acc, f_idx.0), eps_lang(newe(me0, *self), acc, f_idx.0),
        forall|e: Edge| #[trigger] newe(me0, *self).contains(e) ==> e.from.0 != i_idx.0 && e.to.0 != i_idx.0,
        can_push(*self, i_idx.0 as int), self.states@[i_idx.0 as int].first_edge.none_v(),
        $acc@.len() == $i, tg_at($acc@, lo, self.states@.len() as int, acc), tg_lang(newe(me0, *self), acc, $acc@, p),
        forall|j: int| 0 <= j < $i ==> #[trigger] tg($acc@, j) != i_idx.0,
@hint loop 6 start
    let ghost me3 = *self;
    let ghost tg3 = $acc@;
    proof { assert(*$x == alternations@[$i - 1]); assert(decreases_to!(alternations => alternations[$i - 1])); }
@hint loop 6 end
    proof {
        vec_len_max(self.states);
        grown_trans(me0, me3, *self);
        let e0 = newe(me0, me3);
        let e1 = newe(me3, *self);
        let mid = me3.states@.len() as int;
        let hi = self.states@.len() as int;
        let x = $acc@[$i - 1];
        contains_add(e0, e1);
        alt_add(e0, e1, lo, mid, hi, acc, f_idx.0, x.val().0);
        p_lang_alt(e0 + e1, e1, acc, x.val().0, f_idx.0, alternations@, $i - 1);
        tg_add(e0, e0 + e1, mid, hi, acc, tg3, x, p);
        assert(tg3.push(x) =~= $acc@);
        assert(self.states@[i_idx.0 as int] == me3.states@[i_idx.0 as int]);
        assert forall|j: int| 0 <= j < $i implies #[trigger] tg($acc@, j) != i_idx.0 by { if j < $i - 1 { assert(tg(tg3, j) == tg($acc@, j)); } }
    }
@hint loop 7 before
    proof { sel_0(newe(me0, *self), acc, i_idx.0, p); }
@loop 7
    invariant
        nwf(*self), grown(me0, *self), f_idx.0 == lo, i_idx.0 == lo + 1, self.states@.len() >= lo + 2, acc < lo, me0.states@.len() == lo,
        forall|e: Edge| #[trigger] newe(me0, *self).contains(e) ==> at(e.from.0, lo, self.states@.len() as int) && (at(e.to.0, lo, self.states@.len() as int) || e.to.0 == acc),
        forall|e: Edge| #[trigger] newe(me0, *self).contains(e) ==> e.to.0 != i_idx.0,
        can_push(*self, i_idx.0 as int),
        tg_at($s, lo, self.states@.len() as int, acc), tg_lang(newe(me0, *self), acc, $s, p),
        forall|j: int| 0 <= j < $s.len() ==> #[trigger] tg($s, j) != i_idx.0,
        sel_lang(newe(me0, *self), acc, i_idx.0, $i as int, p),
@hint loop 7 start
    let ghost me3 = *self;
@hint loop 7 end
    proof {
        let e = Edge { from: i_idx, label: None, to: target.val() };
        let k = $i - 1;
        assert(target == $s[k]);
        assert(tg($s, k) == e.to.0);
        grown_edge(me0, me3, *self, e);
        contains_push(newe(me0, me3), e);
        sel_add(newe(me0, me3), i_idx.0, e, acc, $s, k, p);
    }
@hint loop 7 after
    proof { frag_alt(newe(me0, *self), acc, i_idx.0, *regex, *alternations); }
@fn NFA::from_regex
@spec
    requires supported(*regex),
    ensures
        nwf(r), r.states@.len() >= 2, one_accept(r), from_shape(r),
        forall|w: Seq<char>| #[trigger] nfa_accepts(r, w) <==> lang(*regex, w),
@hint before call compile 1
    let ghost me0 = this;
    proof { first_nwf(me0); }
@hint after call compile 1
    let ghost me1 = this;
    proof {
        vec_len_max(this.states);
        assert(me1.states@[0] == me0.states@[0] && me1.states@[1] == me0.states@[1]);
        assert(newe(me0, me1) =~= me1.edges@);
    }
@hint after call push_edge 1
    proof { from_accepts(me1, this, after_start.val().0, *regex); }

@fn NFA::starting_state
@spec
    requires nwf(*self), self.states@.len() > 0,
    ensures eps_set(*self, set![StateIdx(0)], r@),
@hint end
    proof { assert(start@ =~= set![StateIdx(0)]); }
@fn NFA::move_state
@spec
    requires nwf(*self), in_states(*self, state_set@),
    ensures moved_set(*self, state_set@, Lab::C(c), r@), in_states(*self, r@),
@hint loop 1 before
    let ghost from0 = state_set@;
    proof { moved_0(*self, $s, Lab::C(c), ret@); }
@loop 1
    invariant
        enumerates($s, from0), moved_part(*self, $s, $i, Lab::C(c), ret@, self.edges@.len() as int),
@hint loop 1 start
    proof { assert($s.contains($s[$i - 1])); assert(from0.contains($s[$i - 1])); moved_start(*self, $s, $i, Lab::C(c), ret@); }
@loop 2
    invariant
        edge_idx <= self.edges@.len(), state_idx == $s1[$i1 - 1], 0 < $i1 <= $s1.len(),
    invariant_except_break
        moved_part(*self, $s1, $i1, Lab::C(c), ret@, edge_idx as int), group_from(*self, state_idx, edge_idx as int),
    ensures moved_part(*self, $s1, $i1, Lab::C(c), ret@, self.edges@.len() as int),
    decreases self.edges@.len() - edge_idx
@hint loop 2 start
    proof { moved_step(*self, $s1, $i1, Lab::C(c), ret@, edge_idx as int); }
@hint end
    proof { moved_end(*self, from0, $s1, Lab::C(c), ret@); }
@fn NFA::epsilon_closure
@spec
    requires nwf(*self), in_states(*self, state_set@),
    ensures eps_set(*self, state_set@, r@), in_states(*self, r@),
@hint loop 1 before
    let ghost from0 = state_set@;
    let ghost len = self.edges@.len() as int;
    let ghost y0 = StateIdx(0);
    proof { clos_0(*self, from0, ret@, stack@); }
@loop 1
    invariant
        clos(*self, from0, ret@, stack@, arbitrary(), len), len == self.edges@.len(),
    decreases miss(ret@, self.states@.len()), stack@.len(),
@hint loop 1 start
    let ghost ret0 = ret@;
    let ghost st0 = stack@;
    let ghost st1 = stack@.drop_last();
    let ghost y = stack@.last();
    let ghost was = ret0.contains(y);
    proof { vec_len_max(self.states); clos_pop(*self, from0, ret0, st0); }
@loop 2
    invariant
        edge_idx <= self.edges@.len(), state_idx == y, ret@ == ret0.insert(y), was ==> stack@ == st1,
    invariant_except_break
        clos(*self, from0, ret@, stack@, y, edge_idx as int), group_from(*self, y, edge_idx as int), edge_idx == len ==> clos(*self, from0, ret@, stack@, arbitrary(), len),
    ensures clos(*self, from0, ret@, stack@, arbitrary(), len),
    decreases self.edges@.len() - edge_idx
@hint loop 2 start
    proof { clos_step(*self, from0, ret@, stack@, y, edge_idx as int); }
@hint end
    proof { clos_end(*self, from0, ret@, stack@); }
@fn NFA::has_accepting_states
@spec
    ensures r == exists|x: StateIdx| final_states@.contains(x) && #[trigger] accepting_states@.contains(x),
@hint loop 1 before
    let ghost fin = final_states@;
@loop 1
    invariant enumerates($s, fin),
    invariant_except_break forall|k: int| 0 <= k < $i ==> !accepting_states@.contains(#[trigger] $s[k]),
    ensures $res ==> exists|x: StateIdx| fin.contains(x) && #[trigger] accepting_states@.contains(x),
        !$res ==> forall|k: int| 0 <= k < $s.len() ==> !accepting_states@.contains(#[trigger] $s[k]),
@hint loop 1 start
    proof { assert($s.contains($s[$i - 1])); }
@hint loop 1 after
    proof {
        if exists|x: StateIdx| fin.contains(x) && #[trigger] accepting_states@.contains(x) {
            let x = choose|x: StateIdx| fin.contains(x) && #[trigger] accepting_states@.contains(x);
            let k = choose|k: int| 0 <= k < $s.len() && $s[k] == x;
            assert(accepting_states@.contains($s[k]));
        }
    }
@fn NFA::simulate
@spec
    requires nwf(*self), self.states@.len() > 0,
    ensures r == nfa_accepts(*self, s@),
@hint loop 1 before
    proof { stepped_0(*self, $s.take(0), state_set@); stepped_in(*self, $s.take(0), state_set@); }
@loop 1
    invariant stepped(*self, $s.take($i), state_set@), $s == s@, in_states(*self, state_set@),
@hint loop 1 start
    let ghost set0 = state_set@;
@hint loop 1 end
    proof {
        assert($s.take($i) =~= $s.take($i - 1).push(c));
        assert forall|m: Set<StateIdx>| #[trigger] moved_set(*self, set0, Lab::C(c), m) && eps_set(*self, m, state_set@) implies stepped(*self, $s.take($i), state_set@) by {
            stepped_next(*self, $s.take($i - 1), c, set0, m, state_set@);
        }
    }
@loop 2
    invariant acc_ok(*self, $i, $acc@),
@hint loop 2 start
    proof { vec_len_max(self.states); acc_ok_step(*self, $i, $acc@); }
@hint loop 2 after
    proof {
        assert(s@.take(s@.len() as int) =~= s@);
        vec_len_max(self.states);
        acc_ok_end(*self, s@, $acc@, state_set@);
        assert forall|v: Seq<&StateIdx>| enum_refs(v, state_set@) implies #[trigger] derefs(v).to_set() == state_set@ by { derefs_set(v, state_set@); }
    }

@item EdgeIter
@impl impl<'a> VIterator for EdgeIter<'a>
@text
    type Item = &'a Edge;
    open spec fn rem(&self) -> Seq<&'a Edge> { egroup(self.nfa.edges@, self.state, self.edge_idx as int) }
    open spec fn wf_it(&self) -> bool { true }
@fn <Iterator for EdgeIter>::next
@trait
@hint start
    proof { vec_len_max(self.nfa.edges); egroup_next(self.nfa.edges@, self.state, self.edge_idx as int); }
@endimpl
@fn NFA::edge_iter
@spec
    requires state_idx.0 < self.states@.len(), nwf(*self),
    ensures
        r is None <==> self.states@[state_idx.0 as int].first_edge.none_v(),
        r matches Some(it) ==> it.rem() == egroup(self.edges@, state_idx, self.states@[state_idx.0 as int].first_edge.val() as int),
@fn NFA::labels
@spec
    requires nwf(*self),
    ensures labels_of(*self, r@),
@hint loop 1 before
    proof { lab_0(*self, ret@); }
@loop 1
    invariant lab_part(*self, ret@, $i, 0),
@hint loop 1 start
    proof { vec_len_max(self.states); egroup_all(*self, StateIdx(i)); lab_start(*self, ret@, $i - 1); }
@hint loop 2 before
    let ghost f = self.states@[i as int].first_edge.val() as int;
@loop 2
    invariant f + $s.len() <= self.edges@.len(), forall|k: int| 0 <= k < $s.len() ==> *(#[trigger] $s[k]) == self.edges@[f + k],
        lab_part(*self, ret@, i as int, f + $i),
@hint loop 2 start
    let ghost v0 = ret@;
    proof { assert(*$s[$i - 1] == self.edges@[f + $i - 1]); }
@hint loop 2 end
    proof { if ret@.len() > v0.len() { assert(ret@.drop_last() =~= v0); } lab_step(*self, v0, ret@, i as int, f + $i - 1); }
@hint loop 1 end
    proof { lab_next(*self, ret@, $i - 1); }
@hint end
    proof { lab_end(*self, ret@); }
@fn NFA::accepting_states
@spec
    ensures forall|x: StateIdx| #[trigger] r@.contains(x) <==> (x.0 < self.states@.len() && self.states@[x.0 as int].is_accept),
@loop 1
    invariant acc_set(*self, ret@, $i),
@hint loop 1 start
    let ghost ret0 = ret@;
@hint loop 1 end
    proof { vec_len_max(self.states); acc_set_step(*self, ret0, ret@, $i); }
@hint end
    proof { assert forall|x: StateIdx| #[trigger] r__@.contains(x) <==> (x.0 < self.states@.len() && self.states@[x.0 as int].is_accept) by { assert(x == StateIdx(x.0)); } }

@module nfas = -
@text
/// the automaton accepts the whole string
#[verifier::opaque]
pub open spec fn nfa_accepts(a: NFA, w: Seq<char>) -> bool {
    exists|t: usize| t < a.states@.len() && (#[trigger] a.states@[t as int]).is_accept && reach(a.edges@, 0, w, t)
}
pub open spec fn one_accept(a: NFA) -> bool { forall|t: int| 0 <= t < a.states@.len() ==> ((#[trigger] a.states@[t]).is_accept <==> t == 1) }
pub open spec fn from_shape(a: NFA) -> bool { forall|e: Edge| #[trigger] a.edges@.contains(e) ==> e.from.0 != 1 && e.to.0 != 0 }
pub proof fn first_nwf(a: NFA)
    requires a.edges@.len() == 0, a.states@.len() == 2, forall|i: int| 0 <= i < 2 ==> (#[trigger] a.states@[i]).first_edge.none_v()
    ensures nwf(a)
{ reveal(nwf); }
pub proof fn from_accepts(a: NFA, b: NFA, x: usize, h: RegexHir)
    requires frag_shape(a.edges@, 2, a.states@.len() as int, 1, x), frag_lang(a.edges@, 1, x, h), edged(a, b, eps_edge(0, x)), one_accept(a), a.states@.len() >= 2
    ensures one_accept(b), forall|w: Seq<char>| #[trigger] nfa_accepts(b, w) <==> lang(h, w), from_shape(b)
{
    reveal(nfa_accepts);
    contains_push(a.edges@, eps_edge(0, x));
    assert forall|t: int| 0 <= t < b.states@.len() implies ((#[trigger] b.states@[t]).is_accept <==> t == 1) by { assert(b.states@[t].is_accept == a.states@[t].is_accept); }
    assert forall|w: Seq<char>| #[trigger] nfa_accepts(b, w) <==> lang(h, w) by {
        alt_push(a.edges@, 0, eps_edge(0, x), 1);
        reach_stuck(a.edges@, 0, w, 1);
        frag_lang_at(a.edges@, 1, x, h, w);
        if lang(h, w) { assert(b.states@[1].is_accept); }
    }
}
/// --- simulation ---
pub open spec fn in_states(a: NFA, s: Set<StateIdx>) -> bool { forall|x: StateIdx| #[trigger] s.contains(x) ==> x.0 < a.states@.len() }
pub open spec fn nochars() -> Seq<char> { Seq::empty() }
/// `t` is reached from one of `s` without reading
#[verifier::opaque]
pub open spec fn eps_from(a: NFA, s: Set<StateIdx>, t: StateIdx) -> bool {
    exists|x: StateIdx| #[trigger] s.contains(x) && reach(a.edges@, x.0, nochars(), t.0)
}
#[verifier::opaque]
pub open spec fn eps_set(a: NFA, s: Set<StateIdx>, r: Set<StateIdx>) -> bool {
    in_states(a, r) && forall|t: StateIdx| #[trigger] r.contains(t) <==> eps_from(a, s, t)
}
pub proof fn eps_set_in(a: NFA, s: Set<StateIdx>, r: Set<StateIdx>) requires eps_set(a, s, r) ensures in_states(a, r) { reveal(eps_set); }
/// what an edge is taken on: a character, or all characters of a range
pub enum Lab { C(char), L(Match) }
pub open spec fn takes(e: Edge, k: Lab) -> bool {
    match k { Lab::C(c) => reads(e, c), Lab::L(m) => match e.label { Some(l) => subr(m, l), None => false } }
}
#[verifier::opaque]
pub open spec fn moved(a: NFA, s: Set<StateIdx>, k: Lab, t: StateIdx) -> bool {
    exists|q: int| 0 <= q < a.edges@.len() && s.contains((#[trigger] a.edges@[q]).from) && takes(a.edges@[q], k) && a.edges@[q].to == t
}
#[verifier::opaque]
pub open spec fn moved_set(a: NFA, s: Set<StateIdx>, k: Lab, r: Set<StateIdx>) -> bool {
    in_states(a, r) && forall|t: StateIdx| #[trigger] r.contains(t) <==> moved(a, s, k, t)
}
pub proof fn moved_set_in(a: NFA, s: Set<StateIdx>, k: Lab, r: Set<StateIdx>) requires moved_set(a, s, k, r) ensures in_states(a, r) { reveal(moved_set); }
/// the edges of `y` before `m` are a beginning of all of them
pub open spec fn group_from(a: NFA, y: StateIdx, m: int) -> bool {
    &&& 0 <= m
    &&& m < a.edges@.len() && a.edges@[m].from != y ==> forall|q: int| m <= q < a.edges@.len() ==> (#[trigger] a.edges@[q]).from != y
}
#[verifier::opaque]
pub open spec fn moved_part(a: NFA, s: Seq<StateIdx>, i: int, k: Lab, r: Set<StateIdx>, m: int) -> bool {
    &&& forall|t: StateIdx| #[trigger] r.contains(t) ==> exists|q: int| 0 <= q < a.edges@.len() && s.contains((#[trigger] a.edges@[q]).from) && takes(a.edges@[q], k) && a.edges@[q].to == t
    &&& forall|q: int, h: int| 0 <= q < a.edges@.len() && 0 <= h < i && (#[trigger] s[h]) == (#[trigger] a.edges@[q]).from && (h == i - 1 ==> q < m) && takes(a.edges@[q], k) ==> r.contains(a.edges@[q].to)
}
pub proof fn moved_0(a: NFA, s: Seq<StateIdx>, k: Lab, r: Set<StateIdx>)
    requires r == Set::<StateIdx>::empty() ensures moved_part(a, s, 0, k, r, a.edges@.len() as int) { reveal(moved_part); }
pub proof fn first_group(a: NFA, y: StateIdx)
    requires nwf(a), y.0 < a.states@.len()
    ensures ({
        let fe = a.states@[y.0 as int].first_edge;
        if fe.none_v() { forall|q: int| 0 <= q < a.edges@.len() ==> (#[trigger] a.edges@[q]).from != y }
        else { fe.val() < a.edges@.len() && (forall|q: int| 0 <= q < fe.val() ==> (#[trigger] a.edges@[q]).from != y)
            && forall|m: int| fe.val() <= m < a.edges@.len() ==> #[trigger] group_from(a, y, m) }
    })
{
    reveal(nwf);
    assert(first_ok(a.states@, a.edges@, y.0 as int));
}
pub proof fn moved_start(a: NFA, s: Seq<StateIdx>, i: int, k: Lab, r: Set<StateIdx>)
    requires nwf(a), 0 < i <= s.len(), s[i - 1].0 < a.states@.len(), moved_part(a, s, i - 1, k, r, a.edges@.len() as int)
    ensures ({
        let fe = a.states@[s[i - 1].0 as int].first_edge;
        if fe.none_v() { moved_part(a, s, i, k, r, a.edges@.len() as int) }
        else { fe.val() < a.edges@.len() && moved_part(a, s, i, k, r, fe.val() as int)
            && forall|m: int| fe.val() <= m < a.edges@.len() ==> #[trigger] group_from(a, s[i - 1], m) }
    })
{
    first_group(a, s[i - 1]);
    reveal(moved_part);
}
pub proof fn moved_step(a: NFA, s: Seq<StateIdx>, i: int, k: Lab, r: Set<StateIdx>, m: int)
    requires nwf(a), 0 < i <= s.len(), s[i - 1].0 < a.states@.len(), moved_part(a, s, i, k, r, m), 0 <= m < a.edges@.len(), group_from(a, s[i - 1], m)
    ensures ({
        let e = a.edges@[m];
        &&& (e.from != s[i - 1] ==> moved_part(a, s, i, k, r, a.edges@.len() as int))
        &&& (e.from == s[i - 1] && !takes(e, k) ==> moved_part(a, s, i, k, r, m + 1))
        &&& (e.from == s[i - 1] && takes(e, k) ==> moved_part(a, s, i, k, r.insert(e.to), m + 1))
        &&& (e.from == s[i - 1] ==> group_from(a, s[i - 1], m + 1))
    })
{
    first_group(a, s[i - 1]);
    reveal(moved_part);
    let e = a.edges@[m];
    if e.from == s[i - 1] && takes(e, k) {
        let r2 = r.insert(e.to);
        assert forall|t: StateIdx| #[trigger] r2.contains(t) implies exists|q: int| 0 <= q < a.edges@.len() && s.contains((#[trigger] a.edges@[q]).from) && takes(a.edges@[q], k) && a.edges@[q].to == t by {
            if t == e.to { assert(s.contains(a.edges@[m].from)); } else { assert(r.contains(t)); }
        }
    }
}
/// after the edges of the state
pub proof fn moved_group(a: NFA, s: Seq<StateIdx>, i: int, k: Lab, r: Set<StateIdx>)
    requires nwf(a), 0 < i <= s.len(), s[i - 1].0 < a.states@.len(), !a.states@[s[i - 1].0 as int].first_edge.none_v(), ({
        let f = a.states@[s[i - 1].0 as int].first_edge.val() as int;
        moved_part(a, s, i, k, r, f + egroup(a.edges@, s[i - 1], f).len()) })
    ensures moved_part(a, s, i, k, r, a.edges@.len() as int)
{ reveal(moved_part); egroup_all(a, s[i - 1]); }
pub proof fn moved_end(a: NFA, from: Set<StateIdx>, s: Seq<StateIdx>, k: Lab, r: Set<StateIdx>)
    requires nwf(a), enumerates(s, from), moved_part(a, s, s.len() as int, k, r, a.edges@.len() as int)
    ensures moved_set(a, from, k, r), in_states(a, r)
{
    reveal(moved_set); reveal(moved); reveal(moved_part); reveal(nwf);
    assert forall|t: StateIdx| #[trigger] r.contains(t) <==> moved(a, from, k, t) by {
        if moved(a, from, k, t) {
            let q = choose|q: int| 0 <= q < a.edges@.len() && from.contains((#[trigger] a.edges@[q]).from) && takes(a.edges@[q], k) && a.edges@[q].to == t;
            assert(s.contains(a.edges@[q].from));
            let h = choose|h: int| 0 <= h < s.len() && s[h] == a.edges@[q].from;
            assert(s[h] == a.edges@[q].from);
        }
    }
}
// how many of the states below `n` are not in `r`
pub open spec fn miss(r: Set<StateIdx>, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { miss(r, (n - 1) as nat) + (if r.contains(StateIdx((n - 1) as usize)) { 0nat } else { 1nat }) }
}
pub proof fn miss_insert(r: Set<StateIdx>, y: StateIdx, n: nat)
    requires n <= usize::MAX
    ensures miss(r.insert(y), n) <= miss(r, n), y.0 < n && !r.contains(y) ==> miss(r.insert(y), n) < miss(r, n)
    decreases n
{ if n > 0 { miss_insert(r, y, (n - 1) as nat); assert(y == StateIdx(y.0)); } }
pub open spec fn above(st: Seq<StateIdx>, k: int, x: StateIdx) -> bool { exists|j: int| k < j < st.len() && #[trigger] st[j] == x }
#[verifier::opaque]
pub open spec fn clos(a: NFA, from: Set<StateIdx>, r: Set<StateIdx>, st: Seq<StateIdx>, y: StateIdx, m: int) -> bool {
    &&& forall|x: StateIdx| #[trigger] r.contains(x) ==> x.0 < a.states@.len() && eps_from(a, from, x)
    &&& forall|k: int| 0 <= k < st.len() ==> (#[trigger] st[k]).0 < a.states@.len() && eps_from(a, from, st[k])
    &&& forall|x: StateIdx| #[trigger] from.contains(x) ==> r.contains(x) || above(st, -1, x)
    &&& forall|q: int| 0 <= q < a.edges@.len() && (#[trigger] a.edges@[q]).label is None && r.contains(a.edges@[q].from) && (a.edges@[q].from == y ==> q < m)
            ==> r.contains(a.edges@[q].to) || above(st, -1, a.edges@[q].to)
    &&& forall|q: int, k: int| 0 <= q < a.edges@.len() && 0 <= k < st.len() && (#[trigger] a.edges@[q]).label is None && (#[trigger] st[k]) == a.edges@[q].from && r.contains(st[k]) && (a.edges@[q].from == y ==> q < m)
            ==> r.contains(a.edges@[q].to) || above(st, k, a.edges@[q].to)
}
pub proof fn eps_start(a: NFA, s: Set<StateIdx>, x: StateIdx) requires s.contains(x) ensures eps_from(a, s, x)
{ reveal(eps_from); path_0(a.edges@, 0, x.0, nochars(), x.0); reach_i(a.edges@, 0, x.0, nochars(), x.0); }
pub proof fn reach_eps_last(es: Seq<Edge>, s: usize, w: Seq<char>, e: Edge)
    requires reach(es, s, w, e.from.0), es.contains(e), e.label is None ensures reach(es, s, w, e.to.0)
{
    let n = reach_n(es, s, w, e.from.0);
    path_0(es, 0, e.to.0, nochars(), e.to.0);
    path_eps(es, 0, e, nochars(), e.to.0);
    path_join(es, n, 1, s, w, e.from.0, nochars(), e.to.0);
    assert(w + nochars() =~= w);
    reach_i(es, n + 1, s, w, e.to.0);
}
pub proof fn eps_next(a: NFA, s: Set<StateIdx>, q: int)
    requires 0 <= q < a.edges@.len(), a.edges@[q].label is None, eps_from(a, s, a.edges@[q].from) ensures eps_from(a, s, a.edges@[q].to)
{
    reveal(eps_from);
    let e = a.edges@[q];
    let x = choose|x: StateIdx| #[trigger] s.contains(x) && reach(a.edges@, x.0, nochars(), e.from.0);
    assert(a.edges@.contains(e));
    reach_eps_last(a.edges@, x.0, nochars(), e);
}
pub proof fn clos_0(a: NFA, from: Set<StateIdx>, r: Set<StateIdx>, st: Seq<StateIdx>)
    requires in_states(a, from), enumerates(st, from), r == Set::<StateIdx>::empty()
    ensures clos(a, from, r, st, arbitrary(), a.edges@.len() as int)
{
    reveal(clos);
    assert forall|k: int| 0 <= k < st.len() implies (#[trigger] st[k]).0 < a.states@.len() && eps_from(a, from, st[k]) by { assert(st.contains(st[k])); eps_start(a, from, st[k]); }
    assert forall|x: StateIdx| #[trigger] from.contains(x) implies above(st, -1, x) by { assert(st.contains(x)); let j = choose|j: int| 0 <= j < st.len() && st[j] == x; assert(st[j] == x); }
}
pub proof fn clos_pop(a: NFA, from: Set<StateIdx>, r: Set<StateIdx>, st: Seq<StateIdx>)
    requires nwf(a), st.len() > 0, clos(a, from, r, st, arbitrary(), a.edges@.len() as int), a.states@.len() <= usize::MAX
    ensures ({
        let y = st.last();
        let r1 = r.insert(y);
        let st1 = st.drop_last();
        let fe = a.states@[y.0 as int].first_edge;
        let n = a.states@.len();
        &&& y.0 < a.states@.len()
        &&& miss(r1, n) <= miss(r, n)
        &&& (!r.contains(y) ==> miss(r1, n) < miss(r, n))
        &&& (if fe.none_v() { clos(a, from, r1, st1, arbitrary(), a.edges@.len() as int) }
            else { fe.val() < a.edges@.len() && clos(a, from, r1, st1, y, fe.val() as int)
                && forall|m: int| fe.val() <= m < a.edges@.len() ==> #[trigger] group_from(a, y, m) })
        &&& (r.contains(y) ==> forall|q: int| 0 <= q < a.edges@.len() && (#[trigger] a.edges@[q]).from == y && a.edges@[q].label is None ==> r1.contains(a.edges@[q].to))
    })
{
    let y = st.last();
    let r1 = r.insert(y);
    let st1 = st.drop_last();
    let fe = a.states@[y.0 as int].first_edge;
    let len = a.edges@.len() as int;
    assert(y == st[st.len() - 1]);
    reveal(clos);
    first_group(a, y);
    miss_insert(r, y, a.states@.len());
    let m = if fe.none_v() { len } else { fe.val() as int };
    assert forall|k: int, x: StateIdx| -1 <= k < st1.len() && #[trigger] above(st, k, x) implies x == y || above(st1, k, x) by {
        let j = choose|j: int| k < j < st.len() && #[trigger] st[j] == x;
        if j < st1.len() { assert(st1[j] == x); }
    }
    assert forall|q: int, k: int| 0 <= q < len && 0 <= k < st1.len() && (#[trigger] a.edges@[q]).label is None && (#[trigger] st1[k]) == a.edges@[q].from && r1.contains(st1[k]) && (a.edges@[q].from == y ==> q < m)
            implies r1.contains(a.edges@[q].to) || above(st1, k, a.edges@[q].to) by {
        assert(a.edges@[q].from != y);
        assert(st1[k] == st[k]);
    }
    if fe.none_v() { assert(clos(a, from, r1, st1, arbitrary(), len)); }
    if r.contains(y) {
        assert forall|q: int| 0 <= q < len && (#[trigger] a.edges@[q]).from == y && a.edges@[q].label is None implies r1.contains(a.edges@[q].to) by {
            assert(st[st.len() - 1] == a.edges@[q].from);
        }
    }
}
pub open spec fn clos_upto(a: NFA, from: Set<StateIdx>, r: Set<StateIdx>, st: Seq<StateIdx>, y: StateIdx, m: int) -> bool {
    clos(a, from, r, st, y, m) && (m == a.edges@.len() ==> clos(a, from, r, st, arbitrary(), m))
}
pub proof fn clos_step(a: NFA, from: Set<StateIdx>, r: Set<StateIdx>, st: Seq<StateIdx>, y: StateIdx, m: int)
    requires nwf(a), y.0 < a.states@.len(), r.contains(y), clos(a, from, r, st, y, m), 0 <= m < a.edges@.len(), group_from(a, y, m)
    ensures ({
        let e = a.edges@[m];
        &&& (e.from != y ==> clos(a, from, r, st, arbitrary(), a.edges@.len() as int))
        &&& (e.from == y && (e.label is Some || r.contains(e.to)) ==> clos_upto(a, from, r, st, y, m + 1))
        &&& (e.from == y && e.label is None && !r.contains(e.to) ==> clos_upto(a, from, r, st.push(e.to), y, m + 1))
        &&& (e.from == y ==> group_from(a, y, m + 1))
    })
{
    let e = a.edges@[m];
    let len = a.edges@.len() as int;
    first_group(a, y);
    reveal(clos);
    if e.from == y && e.label is None && !r.contains(e.to) {
        let st2 = st.push(e.to);
        reveal(nwf);
        eps_next(a, from, m);
        assert(st2[st.len() as int] == e.to);
        assert forall|k: int, x: StateIdx| -1 <= k < st.len() && #[trigger] above(st, k, x) implies above(st2, k, x) by {
            let j = choose|j: int| k < j < st.len() && #[trigger] st[j] == x;
            assert(st2[j] == x);
        }
        assert forall|q: int, k: int| 0 <= q < len && 0 <= k < st2.len() && (#[trigger] a.edges@[q]).label is None && (#[trigger] st2[k]) == a.edges@[q].from && r.contains(st2[k]) && (a.edges@[q].from == y ==> q < m + 1)
            implies r.contains(a.edges@[q].to) || above(st2, k, a.edges@[q].to) by {
            assert(st2[k] == st[k]);
            if q == m { assert(above(st2, k, e.to)); }
        }
        assert forall|q: int| 0 <= q < len && (#[trigger] a.edges@[q]).label is None && r.contains(a.edges@[q].from) && (a.edges@[q].from == y ==> q < m + 1)
            implies r.contains(a.edges@[q].to) || above(st2, -1, a.edges@[q].to) by { if q == m { assert(above(st2, -1, e.to)); } }
        assert forall|k: int| 0 <= k < st2.len() implies (#[trigger] st2[k]).0 < a.states@.len() && eps_from(a, from, st2[k]) by { if k < st.len() { assert(st2[k] == st[k]); } }
    }
}
pub proof fn clos_end(a: NFA, from: Set<StateIdx>, r: Set<StateIdx>, st: Seq<StateIdx>)
    requires nwf(a), st.len() == 0, clos(a, from, r, st, arbitrary(), a.edges@.len() as int)
    ensures eps_set(a, from, r), in_states(a, r)
{
    reveal(eps_set); reveal(clos);
    assert forall|t: StateIdx| #[trigger] r.contains(t) <==> eps_from(a, from, t) by {
        if eps_from(a, from, t) {
            reveal(eps_from);
            let x = choose|x: StateIdx| #[trigger] from.contains(x) && reach(a.edges@, x.0, nochars(), t.0);
            let n = reach_n(a.edges@, x.0, nochars(), t.0);
            clos_path(a, from, r, st, n, x, t);
        }
    }
}
pub proof fn clos_path(a: NFA, from: Set<StateIdx>, r: Set<StateIdx>, st: Seq<StateIdx>, n: nat, x: StateIdx, t: StateIdx)
    requires st.len() == 0, clos(a, from, r, st, arbitrary(), a.edges@.len() as int), r.contains(x), path(a.edges@, n, x.0, nochars(), t.0)
    ensures r.contains(t) decreases n
{
    path_0(a.edges@, n, x.0, nochars(), t.0);
    if n == 0 { assert(x == t); }
    else {
        let e = path_first(a.edges@, n, x.0, nochars(), t.0);
        let q = choose|q: int| 0 <= q < a.edges@.len() && a.edges@[q] == e;
        assert(e.from == x);
        reveal(clos);
        assert(r.contains(a.edges@[q].to));
        clos_path(a, from, r, st, (n - 1) as nat, e.to, t);
    }
}
/// the states reached by reading `w`
#[verifier::opaque]
pub open spec fn stepped(a: NFA, w: Seq<char>, r: Set<StateIdx>) -> bool { in_states(a, r) && forall|t: StateIdx| #[trigger] r.contains(t) <==> reach(a.edges@, 0, w, t.0) }
pub proof fn stepped_in(a: NFA, w: Seq<char>, r: Set<StateIdx>) requires stepped(a, w, r) ensures in_states(a, r) { reveal(stepped); }
pub proof fn stepped_0(a: NFA, w: Seq<char>, r: Set<StateIdx>)
    requires eps_set(a, set![StateIdx(0)], r), w.len() == 0 ensures stepped(a, w, r)
{
    reveal(stepped); reveal(eps_set); reveal(eps_from);
    assert(w =~= nochars());
    assert forall|t: StateIdx| #[trigger] r.contains(t) <==> reach(a.edges@, 0, w, t.0) by {
        assert(r.contains(t) <==> eps_from(a, set![StateIdx(0)], t));
        assert(set![StateIdx(0)].contains(StateIdx(0)));
    }
}
/// the last character of a path is read by one of its edges
pub proof fn path_last(es: Seq<Edge>, n: nat, s: usize, w: Seq<char>, c: char, t: usize) -> (e: Edge)
    requires path(es, n, s, w.push(c), t)
    ensures es.contains(e), reads(e, c), reach(es, s, w, e.from.0), reach(es, e.to.0, nochars(), t)
    decreases n
{
    let v = w.push(c);
    path_0(es, n, s, v, t);
    let e = path_first(es, n, s, v, t);
    let k = (n - 1) as nat;
    if e.label is None {
        let x = path_last(es, k, e.to.0, w, c, t);
        let m = reach_n(es, e.to.0, w, x.from.0);
        path_eps(es, m, e, w, x.from.0);
        reach_i(es, m + 1, s, w, x.from.0);
        x
    } else if w.len() == 0 {
        assert(v.skip(1) =~= nochars());
        reach_i(es, k, e.to.0, nochars(), t);
        path_0(es, 0, s, w, s);
        reach_i(es, 0, s, w, s);
        e
    } else {
        assert(v.skip(1) =~= w.skip(1).push(c));
        let x = path_last(es, k, e.to.0, w.skip(1), c, t);
        let m = reach_n(es, e.to.0, w.skip(1), x.from.0);
        path_char(es, m, e, w, x.from.0);
        reach_i(es, m + 1, s, w, x.from.0);
        x
    }
}
pub proof fn reach_last(es: Seq<Edge>, s: usize, w: Seq<char>, e: Edge, c: char, t: usize)
    requires reach(es, s, w, e.from.0), es.contains(e), reads(e, c), reach(es, e.to.0, nochars(), t)
    ensures reach(es, s, w.push(c), t)
{
    let n = reach_n(es, s, w, e.from.0);
    let m = reach_n(es, e.to.0, nochars(), t);
    let c1 = seq![c];
    assert(c1.skip(1) =~= nochars());
    path_char(es, m, e, c1, t);
    path_join(es, n, m + 1, s, w, e.from.0, c1, t);
    assert(w + c1 =~= w.push(c));
    reach_i(es, n + m + 1, s, w.push(c), t);
}
pub proof fn stepped_next(a: NFA, w: Seq<char>, c: char, r: Set<StateIdx>, m: Set<StateIdx>, r2: Set<StateIdx>)
    requires nwf(a), stepped(a, w, r), moved_set(a, r, Lab::C(c), m), eps_set(a, m, r2)
    ensures stepped(a, w.push(c), r2)
{
    reveal(stepped); reveal(moved_set); reveal(eps_set); reveal(moved); reveal(eps_from);
    let es = a.edges@;
    assert forall|t: StateIdx| #[trigger] r2.contains(t) <==> reach(es, 0, w.push(c), t.0) by {
        if r2.contains(t) {
            assert(eps_from(a, m, t));
            let x = choose|x: StateIdx| #[trigger] m.contains(x) && reach(es, x.0, nochars(), t.0);
            assert(moved(a, r, Lab::C(c), x));
            let q = choose|q: int| 0 <= q < es.len() && r.contains((#[trigger] es[q]).from) && reads(es[q], c) && es[q].to == x;
            assert(es.contains(es[q]));
            reach_last(es, 0, w, es[q], c, t.0);
        }
        if reach(es, 0, w.push(c), t.0) {
            let n = reach_n(es, 0, w.push(c), t.0);
            let e = path_last(es, n, 0, w, c, t.0);
            let q = choose|q: int| 0 <= q < es.len() && es[q] == e;
            assert(r.contains(es[q].from));
            assert(moved(a, r, Lab::C(c), e.to));
            assert(m.contains(e.to));
            assert(eps_from(a, m, t));
        }
    }
}
pub open spec fn acc_ok(a: NFA, i: int, v: Seq<StateIdx>) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).0 < i && a.states@[v[k].0 as int].is_accept
    &&& forall|q: int| 0 <= q < i && (#[trigger] a.states@[q]).is_accept ==> v.contains(StateIdx(q as usize))
}
pub proof fn acc_ok_step(a: NFA, i: int, v: Seq<StateIdx>)
    requires 0 < i <= a.states@.len(), a.states@.len() <= usize::MAX, acc_ok(a, i - 1, v)
    ensures a.states@[i - 1].is_accept ==> acc_ok(a, i, v.push(StateIdx((i - 1) as usize))), !a.states@[i - 1].is_accept ==> acc_ok(a, i, v)
{
    let w = v.push(StateIdx((i - 1) as usize));
    assert(w[v.len() as int] == StateIdx((i - 1) as usize));
    assert forall|x: StateIdx| v.contains(x) implies #[trigger] w.contains(x) by { let k = choose|k: int| 0 <= k < v.len() && v[k] == x; assert(w[k] == x); }
}
pub proof fn acc_ok_end(a: NFA, w: Seq<char>, v: Seq<StateIdx>, r: Set<StateIdx>)
    requires acc_ok(a, a.states@.len() as int, v), a.states@.len() <= usize::MAX, stepped(a, w, r)
    ensures nfa_accepts(a, w) <==> exists|x: StateIdx| r.contains(x) && #[trigger] v.to_set().contains(x)
{
    reveal(nfa_accepts); reveal(stepped);
    if nfa_accepts(a, w) {
        let t = choose|t: usize| t < a.states@.len() && (#[trigger] a.states@[t as int]).is_accept && reach(a.edges@, 0, w, t);
        assert(r.contains(StateIdx(t)));
        assert(v.contains(StateIdx(t)));
        assert(v.to_set().contains(StateIdx(t)));
    }
    if exists|x: StateIdx| r.contains(x) && #[trigger] v.to_set().contains(x) {
        let x = choose|x: StateIdx| r.contains(x) && #[trigger] v.to_set().contains(x);
        assert(v.contains(x));
        assert(a.states@[x.0 as int].is_accept);
    }
}

/// --- the edges of a state, as an iterator gives them ---
pub open spec fn egroup<'a>(es: Seq<Edge>, st: StateIdx, i: int) -> Seq<&'a Edge> decreases es.len() - i {
    if 0 <= i < es.len() && es[i].from == st { seq![&es[i]] + egroup(es, st, i + 1) } else { Seq::empty() }
}
pub proof fn egroup_next<'a>(es: Seq<Edge>, st: StateIdx, i: int)
    ensures 0 <= i < es.len() && es[i].from == st ==> egroup::<'a>(es, st, i).len() > 0 && egroup::<'a>(es, st, i)[0] == &es[i] && egroup::<'a>(es, st, i).skip(1) == egroup::<'a>(es, st, i + 1),
        !(0 <= i < es.len() && es[i].from == st) ==> egroup::<'a>(es, st, i).len() == 0,
{
    if 0 <= i < es.len() && es[i].from == st {
        let t = egroup::<'a>(es, st, i + 1);
        assert((seq![&es[i]] + t).skip(1) =~= t);
    }
}
pub proof fn egroup_el<'a>(es: Seq<Edge>, st: StateIdx, i: int)
    requires 0 <= i <= es.len()
    ensures ({
        let g = egroup::<'a>(es, st, i);
        &&& i + g.len() <= es.len()
        &&& forall|k: int| 0 <= k < g.len() ==> *(#[trigger] g[k]) == es[i + k] && es[i + k].from == st
        &&& i + g.len() < es.len() ==> es[i + g.len()].from != st
    })
    decreases es.len() - i
{
    if i < es.len() && es[i].from == st {
        egroup_el(es, st, i + 1);
        let g = egroup::<'a>(es, st, i);
        let t = egroup::<'a>(es, st, i + 1);
        assert forall|k: int| 0 <= k < g.len() implies *(#[trigger] g[k]) == es[i + k] && es[i + k].from == st by { if k > 0 { assert(g[k] == t[k - 1]); } }
    }
}
/// they are all the edges of the state
pub proof fn egroup_all<'a>(a: NFA, y: StateIdx)
    requires nwf(a), y.0 < a.states@.len()
    ensures ({
        let fe = a.states@[y.0 as int].first_edge;
        let f = fe.val() as int;
        let g = egroup::<'a>(a.edges@, y, f);
        if fe.none_v() { forall|q: int| 0 <= q < a.edges@.len() ==> (#[trigger] a.edges@[q]).from != y }
        else {
            &&& f + g.len() <= a.edges@.len()
            &&& forall|k: int| 0 <= k < g.len() ==> *(#[trigger] g[k]) == a.edges@[f + k] && a.edges@[f + k].from == y
            &&& forall|q: int| 0 <= q < a.edges@.len() && (#[trigger] a.edges@[q]).from == y ==> f <= q < f + g.len()
        }
    })
{
    first_group(a, y);
    let fe = a.states@[y.0 as int].first_edge;
    if !fe.none_v() {
        let f = fe.val() as int;
        let g = egroup::<'a>(a.edges@, y, f);
        egroup_el(a.edges@, y, f);
        if f + g.len() < a.edges@.len() { assert(group_from(a, y, f + g.len())); }
    }
}
pub open spec fn has_label<'a>(v: Seq<&'a Match>, m: Match) -> bool { exists|k: int| 0 <= k < v.len() && *(#[trigger] v[k]) == m }
pub open spec fn edge_label(a: NFA, m: Match) -> bool { exists|q: int| 0 <= q < a.edges@.len() && (#[trigger] a.edges@[q]).label == Some(m) }
#[verifier::opaque]
pub open spec fn labels_of<'a>(a: NFA, v: Seq<&'a Match>) -> bool { forall|m: Match| #[trigger] has_label(v, m) <==> edge_label(a, m) }
/// all labels of the states before `i`, and those of state `i` before edge `e`
#[verifier::opaque]
pub open spec fn lab_part<'a>(a: NFA, v: Seq<&'a Match>, i: int, e: int) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> edge_label(a, *(#[trigger] v[k]))
    &&& forall|q: int| 0 <= q < a.edges@.len() && ((#[trigger] a.edges@[q]).from.0 < i || a.edges@[q].from.0 == i && q < e) && a.edges@[q].label is Some ==> has_label(v, a.edges@[q].label.unwrap())
}
pub proof fn lab_0<'a>(a: NFA, v: Seq<&'a Match>) requires v.len() == 0 ensures lab_part(a, v, 0, 0) { reveal(lab_part); }
pub proof fn lab_start<'a>(a: NFA, v: Seq<&'a Match>, i: int)
    requires nwf(a), 0 <= i < a.states@.len(), i <= usize::MAX, lab_part(a, v, i, 0)
    ensures a.states@[i].first_edge.none_v() ==> lab_part(a, v, i + 1, 0), !a.states@[i].first_edge.none_v() ==> lab_part(a, v, i, a.states@[i].first_edge.val() as int)
{
    reveal(lab_part);
    egroup_all(a, StateIdx(i as usize));
    assert forall|q: int| 0 <= q < a.edges@.len() && (#[trigger] a.edges@[q]).from.0 == i implies a.edges@[q].from == StateIdx(i as usize) by {}
}
pub proof fn lab_step<'a>(a: NFA, v: Seq<&'a Match>, w: Seq<&'a Match>, i: int, e: int)
    requires lab_part(a, v, i, e), 0 <= e < a.edges@.len(), match a.edges@[e].label { Some(m) => w.len() == v.len() + 1 && w.drop_last() == v && *w.last() == m, None => w == v }
    ensures lab_part(a, w, i, e + 1)
{
    reveal(lab_part);
    assert(a.edges@[e].label is Some ==> edge_label(a, a.edges@[e].label.unwrap()));
    assert forall|k: int| 0 <= k < w.len() implies edge_label(a, *(#[trigger] w[k])) by { if k < v.len() { assert(w[k] == v[k]); } }
    assert forall|q: int| 0 <= q < a.edges@.len() && ((#[trigger] a.edges@[q]).from.0 < i || a.edges@[q].from.0 == i && q < e + 1) && a.edges@[q].label is Some implies has_label(w, a.edges@[q].label.unwrap()) by {
        let m = a.edges@[q].label.unwrap();
        if q == e { assert(*w[v.len() as int] == m); }
        else { let k = choose|k: int| 0 <= k < v.len() && *(#[trigger] v[k]) == m; assert(w[k] == v[k]); }
    }
}
pub proof fn lab_next<'a>(a: NFA, v: Seq<&'a Match>, i: int)
    requires nwf(a), 0 <= i < a.states@.len(), i <= usize::MAX,
        lab_part(a, v, i + 1, 0) || (!a.states@[i].first_edge.none_v() && lab_part(a, v, i, a.states@[i].first_edge.val() + egroup::<'a>(a.edges@, StateIdx(i as usize), a.states@[i].first_edge.val() as int).len()))
    ensures lab_part(a, v, i + 1, 0)
{
    reveal(lab_part);
    egroup_all(a, StateIdx(i as usize));
    assert forall|q: int| 0 <= q < a.edges@.len() && (#[trigger] a.edges@[q]).from.0 == i implies a.edges@[q].from == StateIdx(i as usize) by {}
}
pub proof fn lab_end<'a>(a: NFA, v: Seq<&'a Match>)
    requires nwf(a), lab_part(a, v, a.states@.len() as int, 0) ensures labels_of(a, v)
{
    reveal(lab_part); reveal(labels_of); reveal(nwf);
}
pub open spec fn acc_set(a: NFA, r: Set<StateIdx>, i: int) -> bool { forall|x: StateIdx| #[trigger] r.contains(x) <==> (x.0 < i && a.states@[x.0 as int].is_accept) }
pub proof fn acc_set_step(a: NFA, r: Set<StateIdx>, r2: Set<StateIdx>, i: int)
    requires 0 < i <= a.states@.len(), i <= usize::MAX, acc_set(a, r, i - 1), r2 == (if a.states@[i - 1].is_accept { r.insert(StateIdx((i - 1) as usize)) } else { r })
    ensures acc_set(a, r2, i)
{ assert forall|x: StateIdx| #[trigger] r2.contains(x) <==> (x.0 < i && a.states@[x.0 as int].is_accept) by { assert(x == StateIdx(x.0)); } }
