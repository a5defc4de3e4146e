@module dfas = -
@text
// --- deterministic automata ---
pub open spec fn dgroup<'a>(es: Seq<DEdge>, st: StateIdx, i: int) -> Seq<&'a DEdge> decreases es.len() - i {
    if 0 <= i < es.len() && es[i].from == st { seq![&es[i]] + dgroup(es, st, i + 1) } else { Seq::empty() }
}
pub proof fn dgroup_next<'a>(es: Seq<DEdge>, st: StateIdx, i: int)
    ensures 0 <= i < es.len() && es[i].from == st ==> dgroup::<'a>(es, st, i).len() > 0 && dgroup::<'a>(es, st, i)[0] == &es[i] && dgroup::<'a>(es, st, i).skip(1) == dgroup::<'a>(es, st, i + 1),
        !(0 <= i < es.len() && es[i].from == st) ==> dgroup::<'a>(es, st, i).len() == 0,
{
    if 0 <= i < es.len() && es[i].from == st {
        let t = dgroup::<'a>(es, st, i + 1);
        assert((seq![&es[i]] + t).skip(1) =~= t);
    }
}
pub proof fn dgroup_el<'a>(es: Seq<DEdge>, st: StateIdx, i: int)
    requires 0 <= i <= es.len()
    ensures ({
        let g = dgroup::<'a>(es, st, i);
        &&& i + g.len() <= es.len()
        &&& forall|k: int| 0 <= k < g.len() ==> *(#[trigger] g[k]) == es[i + k] && es[i + k].from == st
        &&& i + g.len() < es.len() ==> es[i + g.len()].from != st
    })
    decreases es.len() - i
{
    if i < es.len() && es[i].from == st {
        dgroup_el(es, st, i + 1);
        let g = dgroup::<'a>(es, st, i);
        let t = dgroup::<'a>(es, st, i + 1);
        assert forall|k: int| 0 <= k < g.len() implies *(#[trigger] g[k]) == es[i + k] && es[i + k].from == st by { if k > 0 { assert(g[k] == t[k - 1]); } }
    }
}
pub open spec fn dfirst(es: Seq<DEdge>, f: OptionUsize<usize>, s: int) -> bool {
    if f.none_v() { forall|q: int| 0 <= q < es.len() ==> (#[trigger] es[q]).from.0 != s }
    else { f.val() < es.len() && es[f.val() as int].from.0 == s && forall|q: int| 0 <= q < es.len() && (#[trigger] es[q]).from.0 == s ==> f.val() <= q }
}
pub open spec fn sorted_from(es: Seq<DEdge>) -> bool { forall|q: int, h: int| 0 <= q <= h < es.len() ==> (#[trigger] es[q]).from.0 <= (#[trigger] es[h]).from.0 }
pub open spec fn det(es: Seq<DEdge>) -> bool { forall|q: int, h: int| 0 <= q < h < es.len() && es[q].from == es[h].from ==> !overlap((#[trigger] es[q]).label, (#[trigger] es[h]).label) }
/// the arrays are in order, and no state has two transitions for one character
#[verifier::opaque]
pub open spec fn dshape(d: DFA) -> bool {
    &&& d.states@.len() > 0
    &&& forall|q: int| 0 <= q < d.edges@.len() ==> (#[trigger] d.edges@[q]).from.0 < d.states@.len() && d.edges@[q].to.0 < d.states@.len() && nonempty(d.edges@[q].label)
    &&& sorted_from(d.edges@) && det(d.edges@)
    &&& forall|s: int| 0 <= s < d.states@.len() ==> dfirst(d.edges@, (#[trigger] d.states@[s]).first_edge, s)
}
pub proof fn dshape_len(d: DFA) requires dshape(d) ensures d.states@.len() > 0 { reveal(dshape); }
/// the edges an iterator gives are all the edges of the state
pub proof fn dgroup_all<'a>(d: DFA, y: StateIdx)
    requires dshape(d), y.0 < d.states@.len()
    ensures ({
        let fe = d.states@[y.0 as int].first_edge;
        let f = fe.val() as int;
        let g = dgroup::<'a>(d.edges@, y, f);
        if fe.none_v() { forall|q: int| 0 <= q < d.edges@.len() ==> (#[trigger] d.edges@[q]).from != y }
        else {
            &&& f + g.len() <= d.edges@.len()
            &&& forall|k: int| 0 <= k < g.len() ==> *(#[trigger] g[k]) == d.edges@[f + k] && d.edges@[f + k].from == y
            &&& forall|q: int| 0 <= q < d.edges@.len() && (#[trigger] d.edges@[q]).from == y ==> f <= q < f + g.len()
        }
    })
{
    reveal(dshape);
    let fe = d.states@[y.0 as int].first_edge;
    assert(dfirst(d.edges@, fe, y.0 as int));
    if !fe.none_v() {
        let f = fe.val() as int;
        let g = dgroup::<'a>(d.edges@, y, f);
        dgroup_el(d.edges@, y, f);
        assert forall|q: int| 0 <= q < d.edges@.len() && (#[trigger] d.edges@[q]).from == y implies f <= q < f + g.len() by {
            if q >= f + g.len() {
                let h = f + g.len();
                assert(d.edges@[f].from.0 <= d.edges@[h].from.0);
                assert(d.edges@[h].from.0 <= d.edges@[q].from.0);
            }
        }
    }
}
pub open spec fn on(d: DFA, q: int, s: usize, c: char) -> bool { 0 <= q < d.edges@.len() && d.edges@[q].from.0 == s && inr(d.edges@[q].label, c as int) }
#[verifier::opaque]
pub open spec fn dnext(d: DFA, s: usize, c: char) -> Option<usize> {
    if exists|q: int| #[trigger] on(d, q, s, c) { let q = choose|q: int| #[trigger] on(d, q, s, c); Some(d.edges@[q].to.0) } else { None }
}
pub proof fn dnext_is(d: DFA, s: usize, c: char, q: int)
    requires dshape(d), on(d, q, s, c) ensures dnext(d, s, c) == Some(d.edges@[q].to.0)
{
    reveal(dnext); reveal(dshape);
    let h = choose|h: int| #[trigger] on(d, h, s, c);
    if h < q { assert(!overlap(d.edges@[h].label, d.edges@[q].label)); }
    if q < h { assert(!overlap(d.edges@[q].label, d.edges@[h].label)); }
}
pub proof fn dnext_none(d: DFA, s: usize, c: char)
    requires forall|q: int| !#[trigger] on(d, q, s, c) ensures dnext(d, s, c) is None
{ reveal(dnext); }
pub proof fn dnext_some(d: DFA, s: usize, c: char) -> (q: int)
    requires dnext(d, s, c) is Some ensures on(d, q, s, c), dnext(d, s, c) == Some(d.edges@[q].to.0)
{ reveal(dnext); choose|q: int| #[trigger] on(d, q, s, c) }
/// the state after `w`, if there is one
#[verifier::opaque]
pub open spec fn drun(d: DFA, w: Seq<char>) -> Option<usize> decreases w.len() {
    if w.len() == 0 { Some(0) } else { match drun(d, w.drop_last()) { Some(s) => dnext(d, s, w.last()), None => None } }
}
pub proof fn drun_0(d: DFA, w: Seq<char>) requires w.len() == 0 ensures drun(d, w) == Some(0usize) { reveal(drun); }
pub proof fn drun_push(d: DFA, w: Seq<char>, c: char)
    ensures drun(d, w.push(c)) == (match drun(d, w) { Some(s) => dnext(d, s, c), None => None })
{ reveal(drun); assert(w.push(c).drop_last() =~= w); }
pub proof fn drun_in(d: DFA, w: Seq<char>)
    requires dshape(d) ensures drun(d, w) matches Some(s) ==> s < d.states@.len() decreases w.len()
{
    if w.len() == 0 { drun_0(d, w); reveal(dshape); } else {
        drun_in(d, w.drop_last());
        assert(w.drop_last().push(w.last()) =~= w);
        drun_push(d, w.drop_last(), w.last());
        match drun(d, w.drop_last()) { Some(s) => { if dnext(d, s, w.last()) is Some { let q = dnext_some(d, s, w.last()); reveal(dshape); } } None => {} }
    }
}
/// the state stands for a set with an accepting state of the original automaton
#[verifier::opaque]
pub open spec fn dacc(d: DFA, s: StateIdx) -> bool {
    d.dfa_to_nfa@.contains_key(s) && exists|x: StateIdx| d.dfa_to_nfa@[s]@.contains(x) && #[trigger] d.accepting_states@.contains(x)
}
pub open spec fn dfa_accepts(d: DFA, w: Seq<char>) -> bool { match drun(d, w) { Some(s) => dacc(d, StateIdx(s)), None => false } }
pub proof fn dacc_none(d: DFA, y: StateIdx, s: Seq<&StateIdx>)
    requires d.dfa_to_nfa@.contains_key(y), enum_refs(s, d.dfa_to_nfa@[y]@), forall|k: int| 0 <= k < s.len() ==> !d.accepting_states@.contains(*(#[trigger] s[k]))
    ensures !dacc(d, y)
{
    reveal(dacc);
    if dacc(d, y) {
        let x = choose|x: StateIdx| d.dfa_to_nfa@[y]@.contains(x) && #[trigger] d.accepting_states@.contains(x);
        let k = choose|k: int| 0 <= k < s.len() && *(#[trigger] s[k]) == x;
        assert(!d.accepting_states@.contains(*s[k]));
    }
}
/// what simulating answers: the characters eaten until no transition is left, if that is in an accepting state
pub open spec fn dstop(d: DFA, w: Seq<char>, k: int, s: usize) -> bool {
    0 <= k <= w.len() && drun(d, w.take(k)) == Some(s) && (k == w.len() || drun(d, w.take(k + 1)) is None)
}
pub open spec fn sim_of(d: DFA, w: Seq<char>, r: Option<usize>) -> bool {
    exists|k: int, s: usize| #[trigger] dstop(d, w, k, s) && r == (if dacc(d, StateIdx(s)) { Some(k as usize) } else { None })
}
pub proof fn drun_prefix(d: DFA, w: Seq<char>, k: int)
    requires 0 <= k <= w.len(), drun(d, w.take(k)) is None ensures drun(d, w) is None decreases w.len() - k
{
    if k == w.len() { assert(w.take(k) =~= w); }
    else { assert(w.take(k + 1) =~= w.take(k).push(w[k])); drun_push(d, w.take(k), w[k]); drun_prefix(d, w, k + 1); }
}
pub proof fn sim_test(d: DFA, w: Seq<char>, r: Option<usize>)
    requires sim_of(d, w, r), w.len() <= usize::MAX ensures (r matches Some(n) && n == w.len()) <==> dfa_accepts(d, w)
{
    let (k, s) = choose|k: int, s: usize| #[trigger] dstop(d, w, k, s) && r == (if dacc(d, StateIdx(s)) { Some(k as usize) } else { None });
    if k == w.len() { assert(w.take(k) =~= w); } else { drun_prefix(d, w, k + 1); }
}
pub open spec fn found(d: DFA, s: StateIdx, c: char, r: Option<&DEdge>) -> bool { match r { Some(e) => dnext(d, s.0, c) == Some(e.to.0), None => dnext(d, s.0, c) is None } }
pub proof fn found_in<'a>(d: DFA, y: StateIdx, c: char, s: Seq<&'a DEdge>, i: int, r: Option<&'a DEdge>)
    requires dshape(d), y.0 < d.states@.len(), !d.states@[y.0 as int].first_edge.none_v(), s == dgroup::<'a>(d.edges@, y, d.states@[y.0 as int].first_edge.val() as int),
        match r { Some(e) => 0 < i <= s.len() && *e == *s[i - 1] && inr(e.label, c as int), None => forall|k: int| 0 <= k < s.len() ==> !inr((#[trigger] s[k]).label, c as int) }
    ensures found(d, y, c, r)
{
    dgroup_all(d, y);
    let f = d.states@[y.0 as int].first_edge.val() as int;
    match r {
        Some(e) => { assert(*s[i - 1] == d.edges@[f + i - 1]); assert(on(d, f + i - 1, y.0, c)); dnext_is(d, y.0, c, f + i - 1); }
        None => {
            assert forall|q: int| !#[trigger] on(d, q, y.0, c) by {
                if on(d, q, y.0, c) { assert(d.edges@[q].from == y); assert(*s[q - f] == d.edges@[f + (q - f)]); }
            }
            dnext_none(d, y.0, c);
        }
    }
}
pub proof fn found_0(d: DFA, y: StateIdx, c: char)
    requires dshape(d), y.0 < d.states@.len(), d.states@[y.0 as int].first_edge.none_v() ensures dnext(d, y.0, c) is None
{
    dgroup_all(d, y);
    assert forall|q: int| !#[trigger] on(d, q, y.0, c) by { if on(d, q, y.0, c) { assert(d.edges@[q].from == y); } }
    dnext_none(d, y.0, c);
}

// --- what a deterministic automaton has to do with the original one ---
#[verifier::opaque]
pub open spec fn step_set(a: NFA, s: Set<StateIdx>, k: Lab, r: Set<StateIdx>) -> bool { exists|m: Set<StateIdx>| #[trigger] moved_set(a, s, k, m) && eps_set(a, m, r) }
#[verifier::opaque]
pub open spec fn nomove(a: NFA, s: Set<StateIdx>, k: Lab) -> bool { forall|t: StateIdx| !#[trigger] moved(a, s, k, t) }
pub open spec fn nset(d: DFA, s: usize) -> Set<StateIdx> { d.dfa_to_nfa@[StateIdx(s)]@ }
pub open spec fn leaves(d: DFA, s: usize, c: char) -> bool { exists|q: int| #[trigger] on(d, q, s, c) }
#[verifier::opaque]
pub open spec fn dsem(d: DFA, a: NFA) -> bool {
    &&& forall|k: StateIdx| #[trigger] d.dfa_to_nfa@.contains_key(k) <==> k.0 < d.states@.len()
    &&& forall|s: usize| s < d.states@.len() ==> in_states(a, #[trigger] nset(d, s))
    &&& eps_set(a, set![StateIdx(0)], nset(d, 0))
    &&& forall|q: int, s: usize, c: char| #[trigger] on(d, q, s, c) ==> step_set(a, nset(d, s), Lab::C(c), nset(d, d.edges@[q].to.0))
    &&& forall|s: usize, c: char| s < d.states@.len() && !#[trigger] leaves(d, s, c) ==> nomove(a, nset(d, s), Lab::C(c))
    &&& forall|x: StateIdx| #[trigger] d.accepting_states@.contains(x) <==> (x.0 < a.states@.len() && a.states@[x.0 as int].is_accept)
}
/// C02: the deterministic automaton of `a`
pub open spec fn dfa_of(d: DFA, a: NFA) -> bool { dshape(d) && dsem(d, a) }
pub open spec fn run_ok(d: DFA, a: NFA, w: Seq<char>) -> bool {
    match drun(d, w) { Some(s) => s < d.states@.len() && stepped(a, w, nset(d, s)), None => forall|t: usize| !#[trigger] reach(a.edges@, 0, w, t) }
}
/// each state stands for exactly the set of original states reached on every string leading there
pub proof fn run_stepped(d: DFA, a: NFA, w: Seq<char>)
    requires nwf(a), dfa_of(d, a) ensures run_ok(d, a, w) decreases w.len()
{
    reveal(dsem); reveal(dshape);
    if w.len() == 0 { drun_0(d, w); stepped_0(a, w, nset(d, 0)); }
    else {
        let v = w.drop_last();
        let c = w.last();
        assert(w =~= v.push(c));
        run_stepped(d, a, v);
        drun_push(d, v, c);
        match drun(d, v) {
            Some(s) => {
                match dnext(d, s, c) {
                    Some(t) => {
                        let q = dnext_some(d, s, c);
                        reveal(step_set);
                        let m = choose|m: Set<StateIdx>| #[trigger] moved_set(a, nset(d, s), Lab::C(c), m) && eps_set(a, m, nset(d, d.edges@[q].to.0));
                        stepped_next(a, v, c, nset(d, s), m, nset(d, t));
                    }
                    None => {
                        if leaves(d, s, c) { let q = choose|q: int| #[trigger] on(d, q, s, c); dnext_is(d, s, c, q); }
                        reveal(nomove);
                        assert forall|t: usize| !#[trigger] reach(a.edges@, 0, w, t) by {
                            if reach(a.edges@, 0, w, t) { stepped_stuck(a, v, c, nset(d, s), t); }
                        }
                    }
                }
            }
            None => {
                assert forall|t: usize| !#[trigger] reach(a.edges@, 0, w, t) by {
                    if reach(a.edges@, 0, w, t) {
                        let n = reach_n(a.edges@, 0, v.push(c), t);
                        let e = path_last(a.edges@, n, 0, v, c, t);
                    }
                }
            }
        }
    }
}
pub proof fn stepped_stuck(a: NFA, v: Seq<char>, c: char, r: Set<StateIdx>, t: usize)
    requires stepped(a, v, r), nomove(a, r, Lab::C(c)), reach(a.edges@, 0, v.push(c), t) ensures false
{
    reveal(stepped); reveal(nomove); reveal(moved);
    let n = reach_n(a.edges@, 0, v.push(c), t);
    let e = path_last(a.edges@, n, 0, v, c, t);
    let q = choose|q: int| 0 <= q < a.edges@.len() && a.edges@[q] == e;
    assert(r.contains(a.edges@[q].from));
    assert(moved(a, r, Lab::C(c), e.to));
}
pub proof fn dfa_of_accepts(d: DFA, a: NFA, w: Seq<char>)
    requires nwf(a), dfa_of(d, a) ensures dfa_accepts(d, w) <==> nfa_accepts(a, w)
{
    run_stepped(d, a, w);
    reveal(dsem); reveal(nfa_accepts); reveal(stepped); reveal(dacc);
    match drun(d, w) {
        Some(s) => {
            if dacc(d, StateIdx(s)) {
                let x = choose|x: StateIdx| d.dfa_to_nfa@[StateIdx(s)]@.contains(x) && #[trigger] d.accepting_states@.contains(x);
                assert(nset(d, s).contains(x));
                assert(a.states@[x.0 as int].is_accept && reach(a.edges@, 0, w, x.0));
            }
            if nfa_accepts(a, w) {
                let t = choose|t: usize| t < a.states@.len() && (#[trigger] a.states@[t as int]).is_accept && reach(a.edges@, 0, w, t);
                assert(nset(d, s).contains(StateIdx(t)));
                assert(d.accepting_states@.contains(StateIdx(t)));
            }
        }
        None => { if nfa_accepts(a, w) { let t = choose|t: usize| t < a.states@.len() && (#[trigger] a.states@[t as int]).is_accept && reach(a.edges@, 0, w, t); } }
    }
}

// --- the closure of the subset construction ---
#[verifier::opaque]
pub open spec fn clos2(a: NFA, from: Set<StateIdx>, r: Set<StateIdx>, st: Seq<StateIdx>, y: StateIdx, m: int) -> bool {
    &&& forall|x: StateIdx| #[trigger] r.contains(x) ==> x.0 < a.states@.len() && eps_from(a, from, x)
    &&& forall|x: StateIdx| #[trigger] from.contains(x) ==> r.contains(x)
    &&& forall|k: int| 0 <= k < st.len() ==> r.contains(#[trigger] st[k])
    &&& forall|q: int| 0 <= q < a.edges@.len() && (#[trigger] a.edges@[q]).label is None && r.contains(a.edges@[q].from) && (a.edges@[q].from == y ==> q < m)
            ==> r.contains(a.edges@[q].to) || above(st, -1, a.edges@[q].from)
}
pub proof fn clos2_0(a: NFA, from: Set<StateIdx>, s: Seq<&StateIdx>, st: Seq<StateIdx>)
    requires in_states(a, from), enum_refs(s, from), st == derefs(s)
    ensures clos2(a, from, from, st, arbitrary(), a.edges@.len() as int)
{
    reveal(clos2);
    assert forall|x: StateIdx| #[trigger] from.contains(x) implies eps_from(a, from, x) && above(st, -1, x) by {
        eps_start(a, from, x);
        let k = choose|k: int| 0 <= k < s.len() && *(#[trigger] s[k]) == x;
        assert(st[k] == x);
    }
    assert forall|k: int| 0 <= k < st.len() implies from.contains(#[trigger] st[k]) by { assert(st[k] == *s[k]); }
}
pub proof fn clos2_pop(a: NFA, from: Set<StateIdx>, r: Set<StateIdx>, st: Seq<StateIdx>)
    requires nwf(a), st.len() > 0, clos2(a, from, r, st, arbitrary(), a.edges@.len() as int)
    ensures ({
        let y = st.last();
        let st1 = st.drop_last();
        let fe = a.states@[y.0 as int].first_edge;
        &&& y.0 < a.states@.len() && r.contains(y)
        &&& (if fe.none_v() { clos2(a, from, r, st1, arbitrary(), a.edges@.len() as int) } else { clos2(a, from, r, st1, y, fe.val() as int) })
    })
{
    reveal(clos2);
    let y = st.last();
    let st1 = st.drop_last();
    assert(y == st[st.len() - 1]);
    assert(r.contains(y));
    egroup_all(a, y);
    assert forall|x: StateIdx| #[trigger] above(st, -1, x) implies x == y || above(st1, -1, x) by {
        let j = choose|j: int| -1 < j < st.len() && #[trigger] st[j] == x;
        if j < st1.len() { assert(st1[j] == x); }
    }
    assert forall|k: int| 0 <= k < st1.len() implies r.contains(#[trigger] st1[k]) by { assert(st1[k] == st[k]); }
}
pub proof fn clos2_step(a: NFA, from: Set<StateIdx>, r: Set<StateIdx>, st: Seq<StateIdx>, y: StateIdx, m: int)
    requires nwf(a), clos2(a, from, r, st, y, m), 0 <= m < a.edges@.len(), a.edges@[m].from == y, r.contains(y), a.states@.len() <= usize::MAX
    ensures ({
        let e = a.edges@[m];
        &&& (e.label is Some || r.contains(e.to) ==> clos2(a, from, r, st, y, m + 1))
        &&& (e.label is None && !r.contains(e.to) ==> clos2(a, from, r.insert(e.to), st.push(e.to), y, m + 1) && miss(r.insert(e.to), a.states@.len()) < miss(r, a.states@.len()))
        &&& r.contains(e.to) ==> r.insert(e.to) == r
    })
{
    reveal(clos2);
    let e = a.edges@[m];
    assert(r.contains(e.to) ==> r.insert(e.to) =~= r);
    if e.label is None && !r.contains(e.to) {
        reveal(nwf);
        eps_next(a, from, m);
        miss_insert(r, e.to, a.states@.len());
        let st2 = st.push(e.to);
        let r2 = r.insert(e.to);
        assert(st2[st.len() as int] == e.to);
        assert(above(st2, -1, e.to));
        assert forall|x: StateIdx| #[trigger] above(st, -1, x) implies above(st2, -1, x) by {
            let j = choose|j: int| -1 < j < st.len() && #[trigger] st[j] == x;
            assert(st2[j] == x);
        }
        assert forall|k: int| 0 <= k < st2.len() implies r2.contains(#[trigger] st2[k]) by { if k < st.len() { assert(st2[k] == st[k]); } }
    }
}
pub proof fn clos2_all(a: NFA, from: Set<StateIdx>, r: Set<StateIdx>, st: Seq<StateIdx>, y: StateIdx)
    requires nwf(a), y.0 < a.states@.len(), !a.states@[y.0 as int].first_edge.none_v(), ({ let f = a.states@[y.0 as int].first_edge.val() as int; clos2(a, from, r, st, y, f + egroup(a.edges@, y, f).len()) })
    ensures clos2(a, from, r, st, arbitrary(), a.edges@.len() as int)
{ reveal(clos2); egroup_all(a, y); }
pub proof fn clos2_end(a: NFA, from: Set<StateIdx>, r: Set<StateIdx>, st: Seq<StateIdx>)
    requires nwf(a), st.len() == 0, clos2(a, from, r, st, arbitrary(), a.edges@.len() as int)
    ensures eps_set(a, from, r), in_states(a, r)
{
    reveal(eps_set); reveal(clos2);
    assert forall|t: StateIdx| #[trigger] r.contains(t) <==> eps_from(a, from, t) by {
        if eps_from(a, from, t) {
            reveal(eps_from);
            let x = choose|x: StateIdx| #[trigger] from.contains(x) && reach(a.edges@, x.0, nochars(), t.0);
            let n = reach_n(a.edges@, x.0, nochars(), t.0);
            clos2_path(a, from, r, st, n, x, t);
        }
    }
}
pub proof fn clos2_path(a: NFA, from: Set<StateIdx>, r: Set<StateIdx>, st: Seq<StateIdx>, n: nat, x: StateIdx, t: StateIdx)
    requires st.len() == 0, clos2(a, from, r, st, arbitrary(), a.edges@.len() as int), r.contains(x), path(a.edges@, n, x.0, nochars(), t.0)
    ensures r.contains(t) decreases n
{
    path_0(a.edges@, n, x.0, nochars(), t.0);
    if n == 0 { assert(x == t); }
    else {
        let e = path_first(a.edges@, n, x.0, nochars(), t.0);
        let q = choose|q: int| 0 <= q < a.edges@.len() && a.edges@[q] == e;
        assert(e.from == x);
        reveal(clos2);
        assert(r.contains(a.edges@[q].to));
        clos2_path(a, from, r, st, (n - 1) as nat, e.to, t);
    }
}

#[verifier::opaque]
pub open spec fn in_group<'a>(a: NFA, s: Seq<&'a Edge>, f: int, y: StateIdx) -> bool {
    f + s.len() <= a.edges@.len() && forall|k: int| 0 <= k < s.len() ==> *(#[trigger] s[k]) == a.edges@[f + k] && a.edges@[f + k].from == y
}
pub proof fn in_group_0(a: NFA, y: StateIdx)
    requires nwf(a), y.0 < a.states@.len() ensures ({ let fe = a.states@[y.0 as int].first_edge; let f = fe.val() as int; !fe.none_v() ==> f >= 0 && in_group(a, egroup(a.edges@, y, f), f, y) })
{ reveal(in_group); egroup_all(a, y); }
pub proof fn in_group_at<'a>(a: NFA, s: Seq<&'a Edge>, f: int, y: StateIdx, k: int)
    requires in_group(a, s, f, y), 0 <= k < s.len() ensures *s[k] == a.edges@[f + k], a.edges@[f + k].from == y, f + k < a.edges@.len()
{ reveal(in_group); }
pub proof fn to_set_push<T>(s: Seq<T>, x: T) ensures s.push(x).to_set() =~= s.to_set().insert(x)
{
    assert forall|y: T| s.to_set().insert(x).contains(y) implies #[trigger] s.push(x).to_set().contains(y) by {
        if y == x { assert(s.push(x)[s.len() as int] == x); } else { let k = choose|k: int| 0 <= k < s.len() && s[k] == y; assert(s.push(x)[k] == y); }
    }
}
pub proof fn derefs_enum<T>(s: Seq<&T>, x: Set<T>) requires enum_refs(s, x) ensures enumerates(derefs(s), x)
{
    let d = derefs(s);
    assert forall|y: T| x.contains(y) implies d.contains(y) by { let k = choose|k: int| 0 <= k < s.len() && *(#[trigger] s[k]) == y; assert(d[k] == y); }
    assert forall|k: int| 0 <= k < d.len() implies x.contains(#[trigger] d[k]) by { assert(x.contains(*s[k])); }
}

// --- the alphabet ---
#[verifier::opaque]
pub open spec fn alph_ok(a: NFA, al: Seq<Match>) -> bool {
    &&& forall|j: int| 0 <= j < al.len() ==> nonempty(#[trigger] al[j])
    &&& forall|i: int, j: int| 0 <= i < j < al.len() ==> !overlap(#[trigger] al[i], #[trigger] al[j])
    &&& forall|q: int, c: int| 0 <= q < a.edges@.len() && (#[trigger] a.edges@[q]).label is Some && #[trigger] inr(a.edges@[q].label.unwrap(), c) ==> cov(al, 0, c)
    &&& forall|q: int, j: int| 0 <= q < a.edges@.len() && 0 <= j < al.len() && (#[trigger] a.edges@[q]).label is Some ==> subr(#[trigger] al[j], a.edges@[q].label.unwrap()) || !overlap(al[j], a.edges@[q].label.unwrap())
}
#[verifier::opaque]
pub open spec fn ranges_upto<'a>(r: Set<Match>, s: Seq<&'a Match>, i: int) -> bool { forall|m: Match| #[trigger] r.contains(m) <==> exists|k: int| 0 <= k < i && *(#[trigger] s[k]) == m }
pub proof fn ranges_0<'a>(r: Set<Match>, s: Seq<&'a Match>) requires r == Set::<Match>::empty() ensures ranges_upto(r, s, 0) { reveal(ranges_upto); }
pub proof fn ranges_step<'a>(r: Set<Match>, s: Seq<&'a Match>, i: int)
    requires 0 <= i < s.len(), ranges_upto(r, s, i) ensures ranges_upto(r.insert(*s[i]), s, i + 1)
{
    reveal(ranges_upto);
    let r2 = r.insert(*s[i]);
    assert forall|m: Match| #[trigger] r2.contains(m) <==> exists|k: int| 0 <= k < i + 1 && *(#[trigger] s[k]) == m by {
        if m == *s[i] { assert(r2.contains(m)); assert(*s[i] == m); } else { assert(r2.contains(m) <==> r.contains(m)); }
    }
}
pub proof fn alph_of<'a>(a: NFA, s: Seq<&'a Match>, r: Set<Match>, al: Seq<Match>)
    requires labels_of(a, s), ranges_upto(r, s, s.len() as int), alphabet_of(al, r) ensures alph_ok(a, al)
{
    reveal(labels_of); reveal(ranges_upto); reveal(alph_ok);
    assert forall|q: int| 0 <= q < a.edges@.len() && (#[trigger] a.edges@[q]).label is Some implies r.contains(a.edges@[q].label.unwrap()) by {
        assert(edge_label(a, a.edges@[q].label.unwrap()));
        assert(has_label(s, a.edges@[q].label.unwrap()));
    }
}
/// a range of the alphabet is read like each of its characters
pub proof fn lab_char(a: NFA, al: Seq<Match>, s: Set<StateIdx>, j: int, c: char)
    requires alph_ok(a, al), 0 <= j < al.len(), inr(al[j], c as int)
    ensures forall|t: StateIdx| #[trigger] moved(a, s, Lab::C(c), t) <==> moved(a, s, Lab::L(al[j]), t)
{
    reveal(alph_ok); reveal(moved);
    assert forall|q: int| 0 <= q < a.edges@.len() implies (takes(#[trigger] a.edges@[q], Lab::C(c)) <==> takes(a.edges@[q], Lab::L(al[j]))) by {}
    assert forall|t: StateIdx| #[trigger] moved(a, s, Lab::C(c), t) <==> moved(a, s, Lab::L(al[j]), t) by {
        if moved(a, s, Lab::C(c), t) { let q = choose|q: int| 0 <= q < a.edges@.len() && s.contains((#[trigger] a.edges@[q]).from) && takes(a.edges@[q], Lab::C(c)) && a.edges@[q].to == t; assert(takes(a.edges@[q], Lab::L(al[j]))); }
        if moved(a, s, Lab::L(al[j]), t) { let q = choose|q: int| 0 <= q < a.edges@.len() && s.contains((#[trigger] a.edges@[q]).from) && takes(a.edges@[q], Lab::L(al[j])) && a.edges@[q].to == t; assert(takes(a.edges@[q], Lab::C(c))); }
    }
}
/// a character outside of the alphabet is not read
pub proof fn lab_none(a: NFA, al: Seq<Match>, s: Set<StateIdx>, c: char)
    requires alph_ok(a, al), !cov(al, 0, c as int) ensures nomove(a, s, Lab::C(c))
{
    reveal(nomove); reveal(moved); reveal(alph_ok);
    assert forall|t: StateIdx| !#[trigger] moved(a, s, Lab::C(c), t) by {
        if moved(a, s, Lab::C(c), t) {
            let q = choose|q: int| 0 <= q < a.edges@.len() && s.contains((#[trigger] a.edges@[q]).from) && takes(a.edges@[q], Lab::C(c)) && a.edges@[q].to == t;
            assert(inr(a.edges@[q].label.unwrap(), c as int));
        }
    }
}
pub proof fn step_char(a: NFA, al: Seq<Match>, s: Set<StateIdx>, j: int, c: char, r: Set<StateIdx>)
    requires alph_ok(a, al), 0 <= j < al.len(), inr(al[j], c as int)
    ensures step_set(a, s, Lab::L(al[j]), r) ==> step_set(a, s, Lab::C(c), r), nomove(a, s, Lab::L(al[j])) ==> nomove(a, s, Lab::C(c))
{
    lab_char(a, al, s, j, c);
    reveal(step_set); reveal(nomove); reveal(moved_set);
    if step_set(a, s, Lab::L(al[j]), r) {
        let m = choose|m: Set<StateIdx>| #[trigger] moved_set(a, s, Lab::L(al[j]), m) && eps_set(a, m, r);
        assert(moved_set(a, s, Lab::C(c), m));
    }
}
pub proof fn step_empty(a: NFA, s: Set<StateIdx>, k: Lab, r: Set<StateIdx>)
    requires step_set(a, s, k, r), r == Set::<StateIdx>::empty() ensures nomove(a, s, k)
{
    reveal(step_set); reveal(nomove); reveal(moved_set); reveal(eps_set);
    let m = choose|m: Set<StateIdx>| #[trigger] moved_set(a, s, k, m) && eps_set(a, m, r);
    assert forall|t: StateIdx| !#[trigger] moved(a, s, k, t) by {
        if moved(a, s, k, t) { assert(m.contains(t)); eps_start(a, m, t); assert(r.contains(t)); }
    }
}

// --- there are finitely many sets of states ---
pub open spec fn p2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * p2((n - 1) as nat) } }
pub open spec fn code(s: Set<StateIdx>, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { code(s, (n - 1) as nat) + (if s.contains(StateIdx((n - 1) as usize)) { p2((n - 1) as nat) } else { 0 }) }
}
pub proof fn code_lt(s: Set<StateIdx>, n: nat) ensures code(s, n) < p2(n) decreases n { if n > 0 { code_lt(s, (n - 1) as nat); } }
pub proof fn code_inj(s: Set<StateIdx>, t: Set<StateIdx>, n: nat)
    requires code(s, n) == code(t, n), n <= usize::MAX ensures forall|x: StateIdx| x.0 < n ==> (#[trigger] s.contains(x) <==> t.contains(x)) decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        code_lt(s, m); code_lt(t, m);
        code_inj(s, t, m);
        assert forall|x: StateIdx| x.0 < n implies (#[trigger] s.contains(x) <==> t.contains(x)) by { if x.0 == m { assert(x == StateIdx(m as usize)); } }
    }
}
pub open spec fn distinct(ds: Seq<BTreeSet<StateIdx>>) -> bool { forall|i: int, j: int| 0 <= i < j < ds.len() ==> #[trigger] ds[i] != #[trigger] ds[j] }
pub proof fn distinct_bound(a: NFA, ds: Seq<BTreeSet<StateIdx>>)
    requires distinct(ds), a.states@.len() <= usize::MAX, forall|i: int| 0 <= i < ds.len() ==> in_states(a, (#[trigger] ds[i])@)
    ensures ds.len() <= p2(a.states@.len())
{
    let n = a.states@.len();
    let cs = Seq::new(ds.len(), |i: int| code(ds[i]@, n) as int);
    assert forall|i: int, j: int| 0 <= i < cs.len() && 0 <= j < cs.len() && i != j implies cs[i] != cs[j] by {
        if cs[i] == cs[j] {
            code_inj(ds[i]@, ds[j]@, n);
            assert(in_states(a, ds[i]@) && in_states(a, ds[j]@));
            assert(ds[i]@ =~= ds[j]@);
            btree_ext(ds[i], ds[j]);
            if i < j { assert(ds[i] != ds[j]); } else { assert(ds[j] != ds[i]); }
        }
    }
    assert(cs.no_duplicates());
    cs.unique_seq_to_set();
    let u = vstd::set_lib::set_int_range(0, p2(n) as int);
    vstd::set_lib::lemma_int_range(0, p2(n) as int);
    assert forall|x: int| cs.to_set().contains(x) implies u.contains(x) by {
        let i = choose|i: int| 0 <= i < cs.len() && cs[i] == x;
        code_lt(ds[i]@, n);
    }
    vstd::set_lib::lemma_len_subset(cs.to_set(), u);
}

// --- the construction, state by state and label by label ---
pub open spec fn via(a: NFA, al: Seq<Match>, ds: Seq<BTreeSet<StateIdx>>, e: DEdge, t: int, i: int) -> bool {
    &&& e.from.0 <= t && e.from.0 < ds.len() && e.to.0 < ds.len()
    &&& exists|j: int| 0 <= j < al.len() && e.label == #[trigger] al[j] && (e.from.0 == t ==> j < i)
    &&& step_set(a, ds[e.from.0 as int]@, Lab::L(e.label), ds[e.to.0 as int]@)
}
pub open spec fn done(a: NFA, al: Seq<Match>, ds: Seq<BTreeSet<StateIdx>>, es: Seq<DEdge>, s: int, j: int) -> bool {
    (exists|q: int| 0 <= q < es.len() && (#[trigger] es[q]).from.0 == s && es[q].label == al[j]) || nomove(a, ds[s]@, Lab::L(al[j]))
}
#[verifier::opaque]
pub open spec fn bst(a: NFA, al: Seq<Match>, ds: Seq<BTreeSet<StateIdx>>, es: Seq<DEdge>, t: int, i: int) -> bool {
    &&& ds.len() > 0
    &&& forall|s: int| 0 <= s < ds.len() ==> in_states(a, (#[trigger] ds[s])@)
    &&& eps_set(a, set![StateIdx(0)], ds[0]@)
    &&& distinct(ds)
    &&& forall|q: int| 0 <= q < es.len() ==> via(a, al, ds, #[trigger] es[q], t, i)
    &&& sorted_from(es) && det(es)
    &&& forall|s: int, j: int| 0 <= s < ds.len() && 0 <= j < al.len() && (s < t || s == t && j < i) ==> #[trigger] done(a, al, ds, es, s, j)
}
pub proof fn bst_0(a: NFA, al: Seq<Match>, ds: Seq<BTreeSet<StateIdx>>, es: Seq<DEdge>)
    requires ds.len() == 1, es.len() == 0, eps_set(a, set![StateIdx(0)], ds[0]@), in_states(a, ds[0]@) ensures bst(a, al, ds, es, 0, 0)
{ reveal(bst); }
pub proof fn bst_bound(a: NFA, al: Seq<Match>, ds: Seq<BTreeSet<StateIdx>>, es: Seq<DEdge>, t: int, i: int)
    requires bst(a, al, ds, es, t, i), a.states@.len() <= usize::MAX ensures ds.len() <= p2(a.states@.len()), forall|s: int| 0 <= s < ds.len() ==> in_states(a, (#[trigger] ds[s])@)
{ reveal(bst); distinct_bound(a, ds); }
pub proof fn bst_next(a: NFA, al: Seq<Match>, ds: Seq<BTreeSet<StateIdx>>, es: Seq<DEdge>, t: int)
    requires bst(a, al, ds, es, t, al.len() as int) ensures bst(a, al, ds, es, t + 1, 0)
{ reveal(bst); }
pub proof fn bst_skip(a: NFA, al: Seq<Match>, ds: Seq<BTreeSet<StateIdx>>, es: Seq<DEdge>, t: int, i: int)
    requires bst(a, al, ds, es, t, i), 0 <= t < ds.len(), 0 <= i < al.len(), nomove(a, ds[t]@, Lab::L(al[i])) ensures bst(a, al, ds, es, t, i + 1)
{ reveal(bst); }
pub proof fn bst_edge(a: NFA, al: Seq<Match>, ds: Seq<BTreeSet<StateIdx>>, es: Seq<DEdge>, t: int, i: int, u: BTreeSet<StateIdx>, idx: usize, ds2: Seq<BTreeSet<StateIdx>>, es2: Seq<DEdge>)
    requires bst(a, al, ds, es, t, i), alph_ok(a, al), 0 <= t < ds.len(), t <= usize::MAX, 0 <= i < al.len(), step_set(a, ds[t]@, Lab::L(al[i]), u@), in_states(a, u@),
        es2 == es.push(DEdge { from: StateIdx(t as usize), label: al[i], to: StateIdx(idx) }),
        (ds2 == ds && idx < ds.len() && ds[idx as int] == u) || (ds2 == ds.push(u) && idx == ds.len() && forall|s: int| 0 <= s < ds.len() ==> #[trigger] ds[s] != u),
    ensures bst(a, al, ds2, es2, t, i + 1)
{
    reveal(bst);
    let e = es2[es.len() as int];
    assert forall|s: int| 0 <= s < ds.len() implies ds2[s] == #[trigger] ds[s] by {}
    assert forall|q: int| 0 <= q < es2.len() implies via(a, al, ds2, #[trigger] es2[q], t, i + 1) by {
        if q < es.len() { assert(es2[q] == es[q]); assert(via(a, al, ds, es[q], t, i)); } else { assert(e.label == al[i]); }
    }
    assert forall|q: int, h: int| 0 <= q < h < es2.len() && es2[q].from == es2[h].from implies !overlap((#[trigger] es2[q]).label, (#[trigger] es2[h]).label) by {
        assert(es2[q] == es[q]);
        if h < es.len() { assert(es2[h] == es[h]); assert(!overlap(es[q].label, es[h].label)); }
        else {
            assert(via(a, al, ds, es[q], t, i));
            let j = choose|j: int| 0 <= j < al.len() && es[q].label == #[trigger] al[j] && (es[q].from.0 == t ==> j < i);
            reveal(alph_ok);
            assert(!overlap(al[j], al[i]));
        }
    }
    assert forall|q: int, h: int| 0 <= q <= h < es2.len() implies (#[trigger] es2[q]).from.0 <= (#[trigger] es2[h]).from.0 by {
        if q < es.len() { assert(es2[q] == es[q]); assert(via(a, al, ds, es[q], t, i)); if h < es.len() { assert(es2[h] == es[h]); } }
    }
    assert forall|s: int, j: int| 0 <= s < ds2.len() && 0 <= j < al.len() && (s < t || s == t && j < i + 1) implies #[trigger] done(a, al, ds2, es2, s, j) by {
        if s == t && j == i { assert(e.from.0 == s && e.label == al[j]); }
        else {
            assert(done(a, al, ds, es, s, j));
            if exists|q: int| 0 <= q < es.len() && (#[trigger] es[q]).from.0 == s && es[q].label == al[j] {
                let q = choose|q: int| 0 <= q < es.len() && (#[trigger] es[q]).from.0 == s && es[q].label == al[j];
                assert(es2[q] == es[q]);
            }
        }
    }
    assert forall|s: int| 0 <= s < ds2.len() implies in_states(a, (#[trigger] ds2[s])@) by { if s < ds.len() { assert(ds2[s] == ds[s]); } }
    assert(ds2[0] == ds[0]);
}
#[verifier::opaque]
pub open spec fn fst(f: Seq<OptionUsize<usize>>, es: Seq<DEdge>) -> bool { forall|s: int| 0 <= s < f.len() ==> dfirst(es, #[trigger] f[s], s) }
pub proof fn fst_0(f: Seq<OptionUsize<usize>>, es: Seq<DEdge>) requires f.len() == 0 ensures fst(f, es) { reveal(fst); }
pub proof fn fst_new(a: NFA, al: Seq<Match>, ds: Seq<BTreeSet<StateIdx>>, f: Seq<OptionUsize<usize>>, es: Seq<DEdge>, x: OptionUsize<usize>)
    requires fst(f, es), x.none_v(), bst(a, al, ds, es, f.len() as int, 0) ensures fst(f.push(x), es)
{
    reveal(fst); reveal(bst);
    let g = f.push(x);
    assert forall|s: int| 0 <= s < g.len() implies dfirst(es, #[trigger] g[s], s) by {
        if s < f.len() { assert(g[s] == f[s]); }
        else { assert forall|q: int| 0 <= q < es.len() implies (#[trigger] es[q]).from.0 != s by { assert(via(a, al, ds, es[q], f.len() as int, 0)); } }
    }
}
pub proof fn fst_edge(f: Seq<OptionUsize<usize>>, es: Seq<DEdge>, t: int, e: DEdge, f2: Seq<OptionUsize<usize>>)
    requires fst(f, es), 0 <= t < f.len(), e.from.0 == t, es.len() < usize::MAX, f2 =~= f.update(t, if f[t].none_v() { OptionUsize(es.len() as usize) } else { f[t] })
    ensures fst(f2, es.push(e))
{
    reveal(fst);
    let es2 = es.push(e);
    assert forall|s: int| 0 <= s < f2.len() implies dfirst(es2, #[trigger] f2[s], s) by {
        assert(dfirst(es, f[s], s));
        assert(es2[es.len() as int] == e);
        if s != t { assert(f2[s] == f[s]); }
        if !f[s].none_v() { assert(es2[f[s].val() as int] == es[f[s].val() as int]); }
    }
}
#[verifier::opaque]
pub open spec fn dmap(m: Map<StateIdx, BTreeSet<StateIdx>>, ds: Seq<BTreeSet<StateIdx>>) -> bool {
    &&& forall|k: StateIdx| #[trigger] m.contains_key(k) <==> k.0 < ds.len()
    &&& forall|k: StateIdx| k.0 < ds.len() ==> #[trigger] m[k] == ds[k.0 as int]
}
pub proof fn dmap_0(m: Map<StateIdx, BTreeSet<StateIdx>>, ds: Seq<BTreeSet<StateIdx>>)
    requires ds.len() == 1, m == Map::<StateIdx, BTreeSet<StateIdx>>::empty().insert(StateIdx(0), ds[0]) ensures dmap(m, ds)
{ reveal(dmap); assert forall|k: StateIdx| #[trigger] m.contains_key(k) <==> k.0 < ds.len() by { if k.0 == 0 { assert(k == StateIdx(0)); } }
  assert forall|k: StateIdx| k.0 < ds.len() implies #[trigger] m[k] == ds[k.0 as int] by { assert(k == StateIdx(0)); } }
pub proof fn dmap_push(m: Map<StateIdx, BTreeSet<StateIdx>>, ds: Seq<BTreeSet<StateIdx>>, u: BTreeSet<StateIdx>)
    requires dmap(m, ds), ds.len() <= usize::MAX ensures dmap(m.insert(StateIdx(ds.len() as usize), u), ds.push(u))
{ reveal(dmap);
  let m2 = m.insert(StateIdx(ds.len() as usize), u);
  assert forall|k: StateIdx| #[trigger] m2.contains_key(k) <==> k.0 < ds.push(u).len() by { if k.0 == ds.len() { assert(k == StateIdx(ds.len() as usize)); } }
  assert forall|k: StateIdx| k.0 < ds.push(u).len() implies #[trigger] m2[k] == ds.push(u)[k.0 as int] by { if k.0 == ds.len() { assert(k == StateIdx(ds.len() as usize)); } }
}
pub open spec fn finals(s: Seq<DState>, f: Seq<OptionUsize<usize>>, i: int) -> bool { s.len() == i && forall|k: int| 0 <= k < i ==> (#[trigger] s[k]).first_edge == f[k] }
pub proof fn bst_final(a: NFA, al: Seq<Match>, ds: Seq<BTreeSet<StateIdx>>, f: Seq<OptionUsize<usize>>, d: DFA)
    requires bst(a, al, ds, d.edges@, ds.len() as int, 0), alph_ok(a, al), fst(f, d.edges@), f.len() == ds.len(), dmap(d.dfa_to_nfa@, ds), d.states@.len() == ds.len(),
        forall|s: int| 0 <= s < f.len() ==> (#[trigger] d.states@[s]).first_edge == f[s],
        forall|x: StateIdx| #[trigger] d.accepting_states@.contains(x) <==> (x.0 < a.states@.len() && a.states@[x.0 as int].is_accept),
    ensures dfa_of(d, a)
{
    reveal(bst); reveal(fst); reveal(dmap); reveal(dshape); reveal(dsem);
    let es = d.edges@;
    assert forall|q: int| 0 <= q < es.len() implies via(a, al, ds, #[trigger] es[q], ds.len() as int, 0) && nonempty(es[q].label) by { reveal(alph_ok); }
    assert forall|s: int| 0 <= s < d.states@.len() implies dfirst(es, (#[trigger] d.states@[s]).first_edge, s) by { assert(dfirst(es, f[s], s)); }
    assert forall|s: usize| s < ds.len() implies #[trigger] nset(d, s) == ds[s as int]@ by {}
    assert forall|q: int, s: usize, c: char| #[trigger] on(d, q, s, c) implies step_set(a, nset(d, s), Lab::C(c), nset(d, d.edges@[q].to.0)) by {
        assert(via(a, al, ds, es[q], ds.len() as int, 0));
        let j = choose|j: int| 0 <= j < al.len() && es[q].label == #[trigger] al[j];
        step_char(a, al, ds[s as int]@, j, c, nset(d, es[q].to.0));
    }
    assert forall|s: usize, c: char| s < d.states@.len() && !#[trigger] leaves(d, s, c) implies nomove(a, nset(d, s), Lab::C(c)) by {
        if cov(al, 0, c as int) {
            reveal(cov);
            let j = choose|j: int| 0 <= j < al.len() && inr(#[trigger] al[j], c as int);
            assert(done(a, al, ds, es, s as int, j));
            if exists|q: int| 0 <= q < es.len() && (#[trigger] es[q]).from.0 == s && es[q].label == al[j] {
                let q = choose|q: int| 0 <= q < es.len() && (#[trigger] es[q]).from.0 == s && es[q].label == al[j];
                assert(on(d, q, s, c));
            }
            step_char(a, al, ds[s as int]@, j, c, nset(d, s));
        } else { lab_none(a, al, nset(d, s), c); }
    }
}

@module dfa = lex/dfa.rs rename Edge=DEdge State=DState EdgeIter=DEdgeIter
@item DEdge
@item DState
@item DFA
@item DFABuilder
@item DFA::START_IDX
@item DEdgeIter
@impl impl<'a> VIterator for DEdgeIter<'a>
@text
    type Item = &'a DEdge;
    open spec fn rem(&self) -> Seq<&'a DEdge> { dgroup(self.dfa.edges@, self.state, self.edge_idx as int) }
    open spec fn wf_it(&self) -> bool { true }
@fn <Iterator for DEdgeIter>::next
@trait
@hint start
    proof { vec_len_max(self.dfa.edges); dgroup_next(self.dfa.edges@, self.state, self.edge_idx as int); }
@endimpl
@fn DFA::edge_iter
@spec
    requires state_idx.0 < self.states@.len(),
    ensures
        r is None <==> self.states@[state_idx.0 as int].first_edge.none_v(),
        r matches Some(it) ==> it.rem() == dgroup(self.edges@, state_idx, self.states@[state_idx.0 as int].first_edge.val() as int),
@fn DFA::dfa_state_is_accepting
@spec
    ensures r == dacc(*self, dfa_state_idx),
@hint start
    proof { reveal(dacc); }
@loop 1
    invariant enum_refs($s, nfa_states@), *nfa_states == self.dfa_to_nfa@[dfa_state_idx], self.dfa_to_nfa@.contains_key(dfa_state_idx),
        forall|k: int| 0 <= k < $i ==> !self.accepting_states@.contains(*(#[trigger] $s[k])),
@hint loop 1 after
    proof { dacc_none(*self, dfa_state_idx, $s); }
@fn DFA::from_nfa
@spec
    requires nwf(nfa), nfa.states@.len() > 0,
    ensures dfa_of(r, nfa), forall|w: Seq<char>| #[trigger] dfa_accepts(r, w) <==> nfa_accepts(nfa, w),
@hint loop 1 before
    let ghost ls = alphabet@;
    proof { ranges_0(ranges@, $s); }
@loop 1
    invariant $s == ls, ranges_upto(ranges@, $s, $i),
@hint loop 1 start
    proof { ranges_step(ranges@, $s, $i - 1); }
@hint after let alphabet 2
    proof { alph_of(nfa, ls, ranges@, alphabet@); }
@hint end
    proof { assert forall|w: Seq<char>| #[trigger] dfa_accepts(r__, w) <==> nfa_accepts(nfa, w) by { dfa_of_accepts(r__, nfa, w); } }
@fn DFA::test
@spec
    requires dshape(*self),
    ensures r == dfa_accepts(*self, s@),
@hint end
    proof { assert forall|x: Option<usize>| s@.len() <= usize::MAX && #[trigger] sim_of(*self, s@, x) implies ((x matches Some(n) && n == s@.len()) <==> dfa_accepts(*self, s@)) by { sim_test(*self, s@, x); } }
@fn DFA::simulate
@spec
    requires dshape(*self),
    ensures sim_of(*self, s@, r), s@.len() <= usize::MAX,
@hint loop 1 before
    proof { drun_0(*self, $s.take(0)); dshape_len(*self); }
@loop 1
    invariant $s == s@, s@.len() <= usize::MAX, state_idx.0 < self.states@.len(), drun(*self, s@.take(eaten as int)) == Some(state_idx.0),
    invariant_except_break eaten == $i,
    ensures dstop(*self, s@, eaten as int, state_idx.0),
@hint loop 1 start
    proof {
        assert($s.take($i) =~= $s.take($i - 1).push(c));
        drun_push(*self, $s.take($i - 1), c);
        drun_in(*self, $s.take($i));
        if self.states@[state_idx.0 as int].first_edge.none_v() { found_0(*self, state_idx, c); }
    }
@loop 2
    invariant_except_break forall|k: int| 0 <= k < $i ==> !inr((#[trigger] $s[k]).label, c as int),
    invariant $s == dgroup(self.edges@, state_idx, self.states@[state_idx.0 as int].first_edge.val() as int),
    ensures match $res { Some(e) => 0 < $i && *e == *$s[$i - 1] && inr(e.label, c as int), None => forall|k: int| 0 <= k < $s.len() ==> !inr((#[trigger] $s[k]).label, c as int) },
@hint loop 2 after
    proof { found_in(*self, state_idx, c, $s, $i, $res); }
@hint end
    proof { assert(dstop(*self, s@, eaten as int, state_idx.0)); }
@fn DFABuilder::new
@spec
    ensures r.edges@.len() == 0,
@fn DFABuilder::hashset_to_btreeset
@spec
    ensures r@ == f@,
@hint loop 1 before
    let ghost f0 = f@;
@loop 1
    invariant enumerates($s, f0), ret@ == $s.take($i).to_set(),
@hint loop 1 start
    let ghost ret0 = ret@;
@hint loop 1 end
    proof { assert($s.take($i) =~= $s.take($i - 1).push($s[$i - 1])); assert(ret@ =~= $s.take($i).to_set()) by { to_set_push($s.take($i - 1), $s[$i - 1]); } }
@hint loop 1 after
    proof { assert($s.take($s.len() as int) =~= $s); assert(ret@ =~= f0); }
@fn DFABuilder::epsilon_closure
@spec
    requires nwf(*nfa), in_states(*nfa, set@),
    ensures eps_set(*nfa, set@, r@), in_states(*nfa, r@),
@hint start
    let ghost from0 = set@;
    let ghost len = nfa.edges@.len() as int;
@loop 1
    invariant enum_refs($s, from0), stack@ == derefs($s).take($i),
@hint loop 1 end
    proof { assert(derefs($s).take($i) =~= derefs($s).take($i - 1).push(*s)); }
@hint loop 1 after
    proof { assert(derefs($s).take($s.len() as int) =~= derefs($s)); clos2_0(*nfa, from0, $s, stack@); }
@loop 2
    invariant clos2(*nfa, from0, set@, stack@, arbitrary(), len), len == nfa.edges@.len(),
    ensures stack@.len() == 0,
    decreases miss(set@, nfa.states@.len()), stack@.len(),
@hint loop 2 head
    let ghost set0 = set@;
    let ghost st1 = stack@.drop_last();
    let ghost y = stack@.last();
    let ghost f = nfa.states@[y.0 as int].first_edge.val() as int;
    proof { vec_len_max(nfa.states); if stack@.len() > 0 { clos2_pop(*nfa, from0, set@, stack@); in_group_0(*nfa, y); } }
@loop 3
    invariant
        in_group(*nfa, $s, f, y),
        set@.contains(y), clos2(*nfa, from0, set@, stack@, y, f + $i),
        (set@ == set0 && stack@ == st1) || miss(set@, nfa.states@.len()) < miss(set0, nfa.states@.len()),
@hint loop 3 start
    proof { in_group_at(*nfa, $s, f, y, $i - 1); clos2_step(*nfa, from0, set@, stack@, y, f + $i - 1); }
@hint loop 3 after
    proof { clos2_all(*nfa, from0, set@, stack@, y); }
@hint end
    proof { clos2_end(*nfa, from0, set@, stack@); }
@fn DFABuilder::move_set
@attr #[verifier::rlimit(60)]
@spec
    requires nwf(*nfa), in_states(*nfa, set@), nonempty(*label),
    ensures moved_set(*nfa, set@, Lab::L(*label), r@), in_states(*nfa, r@),
@hint loop 1 before
    proof { moved_0(*nfa, derefs($s), Lab::L(*label), ret@); }
@loop 1
    invariant enum_refs($s, set@), moved_part(*nfa, derefs($s), $i, Lab::L(*label), ret@, nfa.edges@.len() as int),
@hint loop 1 start
    let ghost y = *state;
    let ghost f = nfa.states@[y.0 as int].first_edge.val() as int;
    let ghost sq = derefs($s);
    proof { assert(set@.contains(*$s[$i - 1])); assert(sq[$i - 1] == y); moved_start(*nfa, sq, $i, Lab::L(*label), ret@); in_group_0(*nfa, y); }
@loop 2
    invariant
        in_group(*nfa, $s, f, y),
        moved_part(*nfa, sq, $i1, Lab::L(*label), ret@, f + $i),
@hint loop 2 start
    proof { in_group_at(*nfa, $s, f, y, $i - 1); moved_step(*nfa, sq, $i1, Lab::L(*label), ret@, f + $i - 1); }
@hint loop 2 after
    proof { moved_group(*nfa, sq, $i1, Lab::L(*label), ret@); }
@hint end
    proof { derefs_enum(s1__, set@); moved_end(*nfa, set@, derefs(s1__), Lab::L(*label), ret@); }
@fn DFABuilder::build
@attr #[verifier::rlimit(100)]
@spec
    requires nwf(*nfa), nfa.states@.len() > 0, alph_ok(*nfa, alphabet@), self.edges@.len() == 0,
    ensures dfa_of(r, *nfa),
@hint loop 1 before
    let ghost al = alphabet@;
    proof { bst_0(*nfa, al, d_states@, self__.edges@); fst_0(first_edges@, self__.edges@); dmap_0(dfa_to_nfa@, d_states@); }
@loop 1
    invariant
        bst(*nfa, al, d_states@, self__.edges@, first_edges@.len() as int, 0), fst(first_edges@, self__.edges@), dmap(dfa_to_nfa@, d_states@),
        marks@.len() == d_states@.len(), forall|k: int| 0 <= k < marks@.len() ==> (#[trigger] marks@[k] <==> k < first_edges@.len()), first_edges@.len() <= d_states@.len(),
    ensures first_edges@.len() == d_states@.len(),
    decreases p2(nfa.states@.len()) - first_edges@.len(),
@hint loop 1 start
    let ghost t = first_edges@.len() as int;
    let ghost fe0 = first_edges@;
    proof { vec_len_max(nfa.states); bst_bound(*nfa, al, d_states@, self__.edges@, t, 0); }
@loop 2
    invariant_except_break forall|k: int| 0 <= k < $i ==> #[trigger] marks@[k],
    invariant $s.len() == marks@.len(), forall|k: int| 0 <= k < $s.len() ==> $s[k] == k,
    ensures match $res { Some(k) => 0 <= k < marks@.len() && !marks@[k as int] && forall|h: int| 0 <= h < k ==> #[trigger] marks@[h], None => forall|k: int| 0 <= k < marks@.len() ==> #[trigger] marks@[k] },
@hint loop 2 after
    proof { if $res is None && t < marks@.len() { assert(marks@[t]); } }
@hint after let t_idx 1
    proof { assert(!marks@[t_idx as int]); assert(t <= t_idx); if t < t_idx { assert(marks@[t]); } assert(t_idx == t); }
@hint loop 3 before
    proof { fst_new(*nfa, al, d_states@, fe0, self__.edges@, first_edges@.last()); assert(first_edges@ =~= fe0.push(first_edges@.last())); }
@loop 3
    invariant
        bst(*nfa, al, d_states@, self__.edges@, t, $i), fst(first_edges@, self__.edges@), dmap(dfa_to_nfa@, d_states@), first_edges@.len() == t + 1,
        marks@.len() == d_states@.len(), forall|k: int| 0 <= k < marks@.len() ==> (#[trigger] marks@[k] <==> k <= t), 0 <= t < d_states@.len(), t_idx == t,
        al == alphabet@, $s.len() == al.len(), forall|k: int| 0 <= k < $s.len() ==> *(#[trigger] $s[k]) == al[k], alph_ok(*nfa, al), nwf(*nfa), nfa.states@.len() <= usize::MAX,
@hint loop 3 start
    let ghost j = $i - 1;
    let ghost dst = d_states@;
    let ghost est = self__.edges@;
    let ghost fst0 = first_edges@;
    let ghost m0 = dfa_to_nfa@;
    proof { vec_len_max(d_states); vec_len_max(self__.edges); bst_bound(*nfa, al, dst, est, t, j); assert(*label == al[j]); reveal(alph_ok); }
@hint after let u 1
    let ghost u0 = u;
    proof {
        reveal(step_set);
        assert(step_set(*nfa, dst[t]@, Lab::L(al[j]), u@));
        if u@.len() == 0 { assert(u@ =~= Set::empty()); }
        if u@ == Set::<StateIdx>::empty() { step_empty(*nfa, dst[t]@, Lab::L(al[j]), u@); bst_skip(*nfa, al, dst, est, t, j); }
    }
@loop 4
    invariant_except_break forall|k: int| 0 <= k < $i ==> #[trigger] d_states@[k] != u,
    invariant $s.len() == d_states@.len(), forall|k: int| 0 <= k < $s.len() ==> (#[trigger] $s[k]).0 == k && *$s[k].1 == d_states@[k],
    ensures match $res { Some(p) => p.0 < d_states@.len() && d_states@[p.0 as int] == u, None => forall|k: int| 0 <= k < d_states@.len() ==> #[trigger] d_states@[k] != u },
@hint loop 3 end
    proof { if self__.edges@.len() > est.len() {
        assert(self__.edges@ =~= est.push(self__.edges@.last()));
        bst_edge(*nfa, al, dst, est, t, j, u0, self__.edges@.last().to.0, d_states@, self__.edges@);
        fst_edge(fst0, est, t, self__.edges@.last(), first_edges@);
        if d_states@.len() > dst.len() { dmap_push(m0, dst, u0); }
    } }
@hint loop 3 after
    proof { bst_next(*nfa, al, d_states@, self__.edges@, t); }
@hint loop 1 after
    let ghost ds = d_states@;
@loop 5
    invariant $s.len() == ds.len(), first_edges@.len() == ds.len(), finals(final_states@, first_edges@, $i),
        forall|k: int| 0 <= k < $s.len() ==> (#[trigger] $s[k]).0 == k,
@hint end
    proof { bst_final(*nfa, al, ds, first_edges@, r__); }
