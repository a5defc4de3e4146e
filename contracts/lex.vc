@module lexs = -
@text
// --- the accepting original states of each state ---
/// the accepting states of the original automaton among the first `n`
pub open spec fn sel(d: DFA, s: Seq<StateIdx>, n: int) -> Seq<StateIdx> decreases n {
    if n <= 0 { Seq::empty() } else if d.accepting_states@.contains(s[n - 1]) { sel(d, s, n - 1).push(s[n - 1]) } else { sel(d, s, n - 1) }
}
/// the accepting original states that the state stands for, by increasing number
pub open spec fn acc_list(d: DFA, x: StateIdx, v: Seq<StateIdx>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i].0 < #[trigger] v[j].0
    &&& forall|y: StateIdx| #[trigger] v.contains(y) <==> d.dfa_to_nfa@[x]@.contains(y) && d.accepting_states@.contains(y)
}
pub open spec fn acc_at(d: DFA, m: Map<StateIdx, Vec<StateIdx>>, x: StateIdx) -> bool {
    if dacc(d, x) { m.contains_key(x) && m[x]@.len() > 0 && acc_list(d, x, m[x]@) } else { !m.contains_key(x) }
}
/// the list of each accepting state, and nothing for the others
#[verifier::opaque]
pub open spec fn acc_map(d: DFA, m: Map<StateIdx, Vec<StateIdx>>) -> bool { forall|x: StateIdx| #[trigger] acc_at(d, m, x) }
pub open spec fn key_in<'a>(s: Seq<(&'a StateIdx, &'a BTreeSet<StateIdx>)>, n: int, x: StateIdx) -> bool { exists|k: int| 0 <= k < n && *(#[trigger] s[k]).0 == x }
#[verifier::opaque]
pub open spec fn acc_upto<'a>(d: DFA, s: Seq<(&'a StateIdx, &'a BTreeSet<StateIdx>)>, n: int, m: Map<StateIdx, Vec<StateIdx>>) -> bool {
    forall|x: StateIdx| #[trigger] acc_part(d, s, n, m, x)
}
pub open spec fn acc_part<'a>(d: DFA, s: Seq<(&'a StateIdx, &'a BTreeSet<StateIdx>)>, n: int, m: Map<StateIdx, Vec<StateIdx>>, x: StateIdx) -> bool { if key_in(s, n, x) { acc_at(d, m, x) } else { !m.contains_key(x) } }
pub open spec fn cur_list(m: Map<StateIdx, Vec<StateIdx>>, x: StateIdx) -> Seq<StateIdx> { if m.contains_key(x) { m[x]@ } else { Seq::empty() } }
#[verifier::opaque]
pub open spec fn acc_in(d: DFA, m0: Map<StateIdx, Vec<StateIdx>>, m: Map<StateIdx, Vec<StateIdx>>, x: StateIdx, s: Seq<StateIdx>, n: int) -> bool {
    &&& cur_list(m, x) == sel(d, s, n) && (m.contains_key(x) ==> m[x]@.len() > 0)
    &&& forall|y: StateIdx| y != x ==> #[trigger] same_at(m0, m, y)
}
pub open spec fn same_at(m0: Map<StateIdx, Vec<StateIdx>>, m: Map<StateIdx, Vec<StateIdx>>, y: StateIdx) -> bool { m.contains_key(y) == m0.contains_key(y) && (m.contains_key(y) ==> m[y] == m0[y]) }
pub proof fn acc_map_0<'a>(d: DFA, s: Seq<(&'a StateIdx, &'a BTreeSet<StateIdx>)>, m: Map<StateIdx, Vec<StateIdx>>) requires m == Map::<StateIdx, Vec<StateIdx>>::empty() ensures acc_upto(d, s, 0, m) { reveal(acc_upto); }
pub proof fn acc_next<'a>(d: DFA, s: Seq<(&'a StateIdx, &'a BTreeSet<StateIdx>)>, n: int, m: Map<StateIdx, Vec<StateIdx>>, q: Seq<StateIdx>)
    requires map_refs(s, d.dfa_to_nfa@), 0 < n <= s.len(), acc_upto(d, s, n - 1, m) ensures acc_in(d, m, m, *s[n - 1].0, q, 0)
{
    reveal(acc_upto); reveal(acc_in);
    let x = *s[n - 1].0;
    assert(acc_part(d, s, n - 1, m, x));
}
pub proof fn acc_in_step(d: DFA, m0: Map<StateIdx, Vec<StateIdx>>, m1: Map<StateIdx, Vec<StateIdx>>, m: Map<StateIdx, Vec<StateIdx>>, x: StateIdx, s: Seq<StateIdx>, n: int)
    requires acc_in(d, m0, m1, x, s, n - 1), 0 < n <= s.len(),
        if d.accepting_states@.contains(s[n - 1]) { m == m1.insert(x, m[x]) && m[x]@ == cur_list(m1, x).push(s[n - 1]) } else { m == m1 }
    ensures acc_in(d, m0, m, x, s, n)
{
    reveal(acc_in);
    assert forall|y: StateIdx| y != x implies #[trigger] same_at(m0, m, y) by { assert(same_at(m0, m1, y)); }
}
pub proof fn sel_list(d: DFA, s: Seq<StateIdx>, n: int) requires 0 <= n <= s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].0 < #[trigger] s[j].0
    ensures ({ let v = sel(d, s, n);
        &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i].0 < #[trigger] v[j].0
        &&& forall|i: int| 0 <= i < v.len() ==> in_first(s, n, #[trigger] v[i]) && d.accepting_states@.contains(v[i])
        &&& forall|k: int| 0 <= k < n && d.accepting_states@.contains(#[trigger] s[k]) ==> v.contains(s[k]) })
    decreases n
{
    if n > 0 {
        sel_list(d, s, n - 1);
        let v0 = sel(d, s, n - 1);
        let v = sel(d, s, n);
        assert forall|i: int| 0 <= i < v0.len() implies in_first(s, n, #[trigger] v0[i]) && v0[i].0 < s[n - 1].0 by { let k = choose|k: int| 0 <= k < n - 1 && #[trigger] s[k] == v0[i]; assert(s[k].0 < s[n - 1].0); }
        if d.accepting_states@.contains(s[n - 1]) {
            assert(s[n - 1] == s[n - 1]);
            assert(in_first(s, n, s[n - 1]));
            assert forall|i: int| 0 <= i < v.len() implies in_first(s, n, #[trigger] v[i]) && d.accepting_states@.contains(v[i]) by { if i < v0.len() { assert(v[i] == v0[i]); } }
            assert forall|i: int, j: int| 0 <= i < j < v.len() implies #[trigger] v[i].0 < #[trigger] v[j].0 by { assert(v[i] == v0[i]); if j < v0.len() { assert(v[j] == v0[j]); } }
            assert(v[v0.len() as int] == s[n - 1]);
            assert forall|k: int| 0 <= k < n && d.accepting_states@.contains(#[trigger] s[k]) implies v.contains(s[k]) by { if k < n - 1 { let h = choose|h: int| 0 <= h < v0.len() && v0[h] == s[k]; assert(v[h] == s[k]); } }
        } else {
            assert forall|k: int| 0 <= k < n && d.accepting_states@.contains(#[trigger] s[k]) implies v.contains(s[k]) by { assert(k < n - 1); }
        }
    }
}
pub open spec fn in_first(s: Seq<StateIdx>, n: int, y: StateIdx) -> bool { exists|k: int| 0 <= k < n && #[trigger] s[k] == y }
pub proof fn acc_group<'a>(d: DFA, s: Seq<(&'a StateIdx, &'a BTreeSet<StateIdx>)>, n: int, m0: Map<StateIdx, Vec<StateIdx>>, m: Map<StateIdx, Vec<StateIdx>>, l: Seq<&'a StateIdx>)
    requires map_refs(s, d.dfa_to_nfa@), 0 < n <= s.len(), acc_upto(d, s, n - 1, m0), enum_refs(l, d.dfa_to_nfa@[*s[n - 1].0]@), sorted_refs(l), acc_in(d, m0, m, *s[n - 1].0, derefs(l), l.len() as int)
    ensures acc_upto(d, s, n, m)
{
    reveal(acc_upto); reveal(acc_in); reveal(dacc);
    let x = *s[n - 1].0;
    let q = derefs(l);
    let v = sel(d, q, q.len() as int);
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] q[i].0 < #[trigger] q[j].0 by { assert(vlt(*l[i], *l[j])); vlt_state(*l[i], *l[j]); }
    sel_list(d, q, q.len() as int);
    assert forall|y: StateIdx| #[trigger] v.contains(y) <==> d.dfa_to_nfa@[x]@.contains(y) && d.accepting_states@.contains(y) by {
        if v.contains(y) { let i = choose|i: int| 0 <= i < v.len() && v[i] == y; assert(in_first(q, q.len() as int, v[i])); let k = choose|k: int| 0 <= k < q.len() && #[trigger] q[k] == y; assert(*l[k] == y); }
        if d.dfa_to_nfa@[x]@.contains(y) && d.accepting_states@.contains(y) { let k = choose|k: int| 0 <= k < l.len() && *(#[trigger] l[k]) == y; assert(q[k] == y); }
    }
    assert(acc_at(d, m, x)) by {
        if v.len() > 0 { assert(v.contains(v[0])); }
        if dacc(d, x) { let y = choose|y: StateIdx| d.dfa_to_nfa@[x]@.contains(y) && #[trigger] d.accepting_states@.contains(y); assert(v.contains(y)); }
    }
    assert forall|y: StateIdx| #[trigger] acc_part(d, s, n, m, y) by {
        if y != x {
            assert(same_at(m0, m, y));
            assert(acc_part(d, s, n - 1, m0, y));
            if key_in(s, n, y) { let k = choose|k: int| 0 <= k < n && *(#[trigger] s[k]).0 == y; assert(key_in(s, n - 1, y)); }
            if key_in(s, n - 1, y) { let k = choose|k: int| 0 <= k < n - 1 && *(#[trigger] s[k]).0 == y; assert(key_in(s, n, y)); }
        } else { assert(*s[n - 1].0 == x); assert(key_in(s, n, x)); }
    }
}
pub proof fn acc_done<'a>(d: DFA, s: Seq<(&'a StateIdx, &'a BTreeSet<StateIdx>)>, m: Map<StateIdx, Vec<StateIdx>>)
    requires map_refs(s, d.dfa_to_nfa@), acc_upto(d, s, s.len() as int, m) ensures acc_map(d, m)
{
    reveal(acc_upto); reveal(acc_map); reveal(dacc);
    assert forall|x: StateIdx| #[trigger] acc_at(d, m, x) by { assert(acc_part(d, s, s.len() as int, m, x)); }
}

@module dfaacc = lex/dfa.rs rename Edge=DEdge State=DState EdgeIter=DEdgeIter
@text
/// the derived order of the numbers
pub axiom fn vlt_state(a: StateIdx, b: StateIdx) ensures vlt(a, b) == (a.0 < b.0);
@fn DFA::accepting_states
@spec
    ensures acc_map(*self, r@),
@hint loop 1 before
    proof { acc_map_0(*self, $s, ret@); }
@loop 1
    invariant map_refs($s, self.dfa_to_nfa@), acc_upto(*self, $s, $i, ret@),
@hint loop 1 start
    let ghost m0 = ret@;
    let ghost x = *$s[$i - 1].0;
@hint loop 2 before
    proof { acc_next(*self, $s1, $i1, m0, derefs($s)); }
@loop 2
    invariant enum_refs($s, self.dfa_to_nfa@[x]@), sorted_refs($s), acc_in(*self, m0, ret@, x, derefs($s), $i), x == *dfa_state,
@hint loop 2 start
    let ghost m1 = ret@;
@hint loop 2 end
    proof { if self.accepting_states@.contains(derefs($s)[$i - 1]) { assert(ret@ =~= m1.insert(x, ret@[x])); assert(ret@[x]@ =~= cur_list(m1, x).push(derefs($s)[$i - 1])); } acc_in_step(*self, m0, m1, ret@, x, derefs($s), $i); }
@hint loop 2 after
    proof { acc_group(*self, $s1, $i1, m0, ret@, $s); }
@hint loop 1 after
    proof { acc_done(*self, $s, ret@); }

@module combs = -
@text
// --- the automata of all tokens under one start state ---
pub open spec fn so(ls: Seq<(usize, usize)>, n: int) -> int decreases n { if n <= 0 { 0 } else { so(ls, n - 1) + ls[n - 1].0 } }
pub open spec fn eo(ls: Seq<(usize, usize)>, n: int) -> int decreases n { if n <= 0 { 0 } else { eo(ls, n - 1) + ls[n - 1].1 } }
pub proof fn so_mono(ls: Seq<(usize, usize)>, i: int, j: int) requires 0 <= i <= j ensures so(ls, i) <= so(ls, j), eo(ls, i) <= eo(ls, j), 0 <= so(ls, i), 0 <= eo(ls, i) decreases j
{ if i < j { so_mono(ls, i, j - 1); } else if i > 0 { so_mono(ls, i - 1, i - 1); } }
pub open spec fn teps(ls: Seq<(usize, usize)>, q: int) -> Edge { Edge { from: StateIdx(0), label: None, to: StateIdx((1 + so(ls, q)) as usize) } }
pub open spec fn template_of(ls: Seq<(usize, usize)>, n: int, a: NFA) -> bool {
    &&& a.states@.len() == 1 && !a.states@[0].is_accept
    &&& a.edges@.len() == n && forall|q: int| 0 <= q < n ==> #[trigger] a.edges@[q] == teps(ls, q)
    &&& a.states@[0].first_edge == OptionUsize::<usize>(if n == 0 { usize::MAX } else { 0 })
}
pub open spec fn sedge(e: Edge, k: int) -> Edge { Edge { from: StateIdx((e.from.0 + k) as usize), label: e.label, to: StateIdx((e.to.0 + k) as usize) } }
pub open spec fn sstate(s: State, k: int) -> State { if s.first_edge.none_v() { s } else { State { first_edge: OptionUsize((s.first_edge.val() + k) as usize), is_accept: s.is_accept } } }
pub open spec fn shift_st(a: Seq<State>, b: Seq<State>, k: int, n: int) -> bool {
    a.len() == b.len() && forall|t: int| 0 <= t < a.len() ==> #[trigger] b[t] == (if t < n { sstate(a[t], k) } else { a[t] })
}
pub open spec fn shift_ed(a: Seq<Edge>, b: Seq<Edge>, k: int, n: int) -> bool {
    a.len() == b.len() && forall|t: int| 0 <= t < a.len() ==> #[trigger] b[t] == (if t < n { sedge(a[t], k) } else { a[t] })
}
/// the numbers moved up by `ks` (states) and `ke` (edges)
pub open spec fn shifted(a: NFA, b: NFA, ks: int, ke: int) -> bool { shift_st(a.states@, b.states@, ke, a.states@.len() as int) && shift_ed(a.edges@, b.edges@, ks, a.edges@.len() as int) }
pub open spec fn shiftable(a: NFA, ks: int, ke: int) -> bool {
    &&& forall|t: int| 0 <= t < a.states@.len() && !(#[trigger] a.states@[t]).first_edge.none_v() ==> a.states@[t].first_edge.val() + ke < usize::MAX
    &&& forall|q: int| 0 <= q < a.edges@.len() ==> (#[trigger] a.edges@[q]).from.0 + ks <= usize::MAX && a.edges@[q].to.0 + ks <= usize::MAX
}
/// the originals with their regexes compiled
#[verifier::opaque]
pub open spec fn tok_nfa(d: (TokenDef, RegexHir), x: (TokenDef, NFA)) -> bool {
    &&& x.0 == d.0 && nwf(x.1) && x.1.states@.len() >= 2 && one_accept(x.1)
    &&& forall|w: Seq<char>| #[trigger] nfa_accepts(x.1, w) <==> lang(d.1, w)
}
pub open spec fn tok_nfas(ts: Seq<(TokenDef, RegexHir)>, v: Seq<(TokenDef, NFA)>, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> tok_nfa(ts[i], #[trigger] v[i]) }
pub open spec fn lens(v: Seq<(TokenDef, NFA)>) -> Seq<(usize, usize)> { Seq::new(v.len(), |i: int| (v[i].1.states.len(), v[i].1.edges.len())) }
pub open spec fn off(v: Seq<(TokenDef, NFA)>, i: int) -> int { 1 + so(lens(v), i) }
pub open spec fn eoff(v: Seq<(TokenDef, NFA)>, i: int) -> int { v.len() + eo(lens(v), i) }
/// all of them are in memory at once
pub axiom fn nfas_fit(v: Vec<(TokenDef, NFA)>) ensures v@.len() <= isize::MAX, so(lens(v@), v@.len() as int) <= isize::MAX, eo(lens(v@), v@.len() as int) <= isize::MAX;
pub open spec fn fits(v: Seq<(TokenDef, NFA)>) -> bool { v.len() <= isize::MAX && so(lens(v), v.len() as int) <= isize::MAX && eo(lens(v), v.len() as int) <= isize::MAX }
pub proof fn off_mono(v: Seq<(TokenDef, NFA)>, i: int, j: int) requires 0 <= i <= j
    ensures 1 <= off(v, i) <= off(v, j), v.len() <= eoff(v, i) <= eoff(v, j)
{ so_mono(lens(v), i, j); }
pub proof fn off_next(v: Seq<(TokenDef, NFA)>, i: int) requires 0 <= i < v.len()
    ensures off(v, i + 1) == off(v, i) + v[i].1.states@.len(), eoff(v, i + 1) == eoff(v, i) + v[i].1.edges@.len()
{ }
pub open spec fn cst(v: Seq<(TokenDef, NFA)>, i: int, t: int) -> State { sstate(v[i].1.states@[t], eoff(v, i)) }
pub open spec fn ced(v: Seq<(TokenDef, NFA)>, i: int, q: int) -> Edge { sedge(v[i].1.edges@[q], off(v, i)) }
pub open spec fn prec(v: Seq<(TokenDef, NFA)>, n: int, m: int, i: int, t: int) -> bool { 0 <= i < v.len() && (i < n || i == n && t < m) }
/// the template, then everything before token `n`, and its first `s` states and `e` edges
#[verifier::opaque]
pub open spec fn cat(v: Seq<(TokenDef, NFA)>, a: NFA, n: int, s: int, e: int) -> bool {
    &&& a.states@.len() == off(v, n) + s && a.edges@.len() == eoff(v, n) + e
    &&& !a.states@[0].is_accept && a.states@[0].first_edge == OptionUsize::<usize>(if v.len() == 0 { usize::MAX } else { 0 })
    &&& forall|q: int| 0 <= q < v.len() ==> #[trigger] a.edges@[q] == teps(lens(v), q)
    &&& forall|i: int, t: int| prec(v, n, s, i, t) && 0 <= t < v[i].1.states@.len() ==> a.states@[off(v, i) + t] == #[trigger] cst(v, i, t)
    &&& forall|i: int, q: int| prec(v, n, e, i, q) && 0 <= q < v[i].1.edges@.len() ==> a.edges@[eoff(v, i) + q] == #[trigger] ced(v, i, q)
}
pub open spec fn comb(v: Seq<(TokenDef, NFA)>, a: NFA) -> bool { cat(v, a, v.len() as int, 0, 0) }
pub proof fn cat_0(v: Seq<(TokenDef, NFA)>, a: NFA) requires template_of(lens(v), v.len() as int, a) ensures cat(v, a, 0, 0, 0) { reveal(cat); }
pub proof fn cat_next(v: Seq<(TokenDef, NFA)>, a: NFA, n: int)
    requires 0 <= n < v.len(), cat(v, a, n, v[n].1.states@.len() as int, v[n].1.edges@.len() as int) ensures cat(v, a, n + 1, 0, 0)
{
    reveal(cat); off_next(v, n);
    assert forall|i: int, t: int| prec(v, n + 1, 0, i, t) && 0 <= t < v[i].1.states@.len() implies a.states@[off(v, i) + t] == #[trigger] cst(v, i, t) by { assert(prec(v, n, v[n].1.states@.len() as int, i, t)); }
    assert forall|i: int, t: int| prec(v, n + 1, 0, i, t) && 0 <= t < v[i].1.edges@.len() implies a.edges@[eoff(v, i) + t] == #[trigger] ced(v, i, t) by { assert(prec(v, n, v[n].1.edges@.len() as int, i, t)); }
}
pub proof fn cat_state(v: Seq<(TokenDef, NFA)>, a: NFA, b: NFA, n: int, s: int, e: int)
    requires 0 <= n < v.len(), 0 <= s < v[n].1.states@.len(), cat(v, a, n, s, e), b.states@ =~= a.states@.push(cst(v, n, s)), b.edges == a.edges ensures cat(v, b, n, s + 1, e)
{
    reveal(cat);
    assert forall|i: int, t: int| prec(v, n, s + 1, i, t) && 0 <= t < v[i].1.states@.len() implies b.states@[off(v, i) + t] == #[trigger] cst(v, i, t) by {
        off_mono(v, i, i);
        if i < n { off_next(v, i); off_mono(v, i + 1, n); }
        if !(i == n && t == s) { assert(prec(v, n, s, i, t)); }
    }
    off_mono(v, 0, n);
    assert(b.states@[0] == a.states@[0]);
}
pub proof fn cat_edge(v: Seq<(TokenDef, NFA)>, a: NFA, b: NFA, n: int, s: int, e: int)
    requires 0 <= n < v.len(), 0 <= e < v[n].1.edges@.len(), cat(v, a, n, s, e), b.edges@ =~= a.edges@.push(ced(v, n, e)), b.states == a.states ensures cat(v, b, n, s, e + 1)
{
    reveal(cat);
    assert forall|i: int, t: int| prec(v, n, e + 1, i, t) && 0 <= t < v[i].1.edges@.len() implies b.edges@[eoff(v, i) + t] == #[trigger] ced(v, i, t) by {
        off_mono(v, i, i);
        if i < n { off_next(v, i); off_mono(v, i + 1, n); }
        if !(i == n && t == e) { assert(prec(v, n, e, i, t)); }
    }
    off_mono(v, 0, n);
    assert forall|q: int| 0 <= q < v.len() implies #[trigger] b.edges@[q] == teps(lens(v), q) by { assert(b.edges@[q] == a.edges@[q]); }
}
/// the edge or state of the combined automaton belongs to one token
pub proof fn edge_of(v: Seq<(TokenDef, NFA)>, q: int, n: int) -> (i: int)
    requires v.len() <= q < eoff(v, n), 0 <= n <= v.len() ensures 0 <= i < n, eoff(v, i) <= q < eoff(v, i) + v[i].1.edges@.len() decreases n
{ if n == 0 { 0 } else { off_next(v, n - 1); if q < eoff(v, n - 1) { edge_of(v, q, n - 1) } else { n - 1 } } }
pub proof fn state_of(v: Seq<(TokenDef, NFA)>, x: int, n: int) -> (i: int)
    requires 1 <= x < off(v, n), 0 <= n <= v.len() ensures 0 <= i < n, off(v, i) <= x < off(v, i) + v[i].1.states@.len() decreases n
{ if n == 0 { 0 } else { off_next(v, n - 1); if x < off(v, n - 1) { state_of(v, x, n - 1) } else { n - 1 } } }
pub proof fn off_uniq(v: Seq<(TokenDef, NFA)>, i: int, s: int, j: int, t: int)
    requires 0 <= i < v.len(), 0 <= j < v.len(), 0 <= s < v[i].1.states@.len(), 0 <= t < v[j].1.states@.len(), off(v, i) + s == off(v, j) + t ensures i == j, s == t
{ off_next(v, i); off_next(v, j); if i < j { off_mono(v, i + 1, j); } if j < i { off_mono(v, j + 1, i); } }
pub open spec fn parts(v: Seq<(TokenDef, NFA)>) -> bool { fits(v) && forall|i: int| 0 <= i < v.len() ==> nwf((#[trigger] v[i]).1) && v[i].1.states@.len() >= 2 && one_accept(v[i].1) }
/// an edge of the combined automaton: where it comes from
pub proof fn comb_edge(v: Seq<(TokenDef, NFA)>, a: NFA, q: int) -> (r: (int, int))
    requires comb(v, a), parts(v), 0 <= q < a.edges@.len()
    ensures q < v.len() ==> a.edges@[q] == teps(lens(v), q) && a.edges@[q].from.0 == 0 && a.edges@[q].to.0 == off(v, q),
        q >= v.len() ==> 0 <= r.0 < v.len() && 0 <= r.1 < v[r.0].1.edges@.len() && q == eoff(v, r.0) + r.1 && a.edges@[q] == ced(v, r.0, r.1)
            && a.edges@[q].from.0 == off(v, r.0) + v[r.0].1.edges@[r.1].from.0 && a.edges@[q].to.0 == off(v, r.0) + v[r.0].1.edges@[r.1].to.0
            && v[r.0].1.edges@[r.1].from.0 < v[r.0].1.states@.len() && v[r.0].1.edges@[r.1].to.0 < v[r.0].1.states@.len()
{
    reveal(cat); reveal(nwf);
    let k = v.len() as int;
    if q < k { off_mono(v, q, k); (0, 0) } else {
        let i = edge_of(v, q, k);
        let x = q - eoff(v, i);
        assert(prec(v, k, 0, i, x));
        assert(a.edges@[eoff(v, i) + x] == ced(v, i, x));
        off_next(v, i); off_mono(v, i + 1, k);
        assert(nwf(v[i].1));
        off_mono(v, i, i);
        let e0 = v[i].1.edges@[x];
        assert(e0.from.0 < v[i].1.states@.len() && e0.to.0 < v[i].1.states@.len());
        (i, x)
    }
}
pub proof fn comb_out(v: Seq<(TokenDef, NFA)>, a: NFA, i: int, s: int, e: Edge) -> (e0: Edge)
    requires comb(v, a), parts(v), 0 <= i < v.len(), 0 <= s < v[i].1.states@.len(), a.edges@.contains(e), e.from.0 == off(v, i) + s
    ensures v[i].1.edges@.contains(e0), e == sedge(e0, off(v, i)), e0.from.0 == s, e.to.0 == off(v, i) + e0.to.0, e0.to.0 < v[i].1.states@.len()
{
    let q = choose|q: int| 0 <= q < a.edges@.len() && a.edges@[q] == e;
    let (j, x) = comb_edge(v, a, q);
    off_mono(v, i, i);
    off_uniq(v, i, s, j, v[j].1.edges@[x].from.0 as int);
    v[i].1.edges@[x]
}
pub proof fn comb_in(v: Seq<(TokenDef, NFA)>, a: NFA, i: int, e0: Edge)
    requires comb(v, a), parts(v), 0 <= i < v.len(), v[i].1.edges@.contains(e0)
    ensures a.edges@.contains(sedge(e0, off(v, i))), sedge(e0, off(v, i)).from.0 == off(v, i) + e0.from.0, sedge(e0, off(v, i)).to.0 == off(v, i) + e0.to.0, e0.to.0 < v[i].1.states@.len()
{
    reveal(cat);
    let k = v.len() as int;
    let x = choose|x: int| 0 <= x < v[i].1.edges@.len() && v[i].1.edges@[x] == e0;
    off_next(v, i); off_mono(v, i + 1, k); off_mono(v, i, i);
    let (j, y) = comb_edge(v, a, eoff(v, i) + x);
    assert(prec(v, k, 0, i, x));
    assert(a.edges@[eoff(v, i) + x] == ced(v, i, x));
    reveal(nwf);
    assert(nwf(v[i].1));
}
pub proof fn path_down(v: Seq<(TokenDef, NFA)>, a: NFA, i: int, n: nat, s: usize, w: Seq<char>, t: usize)
    requires comb(v, a), parts(v), 0 <= i < v.len(), off(v, i) <= s < off(v, i) + v[i].1.states@.len(), path(a.edges@, n, s, w, t)
    ensures off(v, i) <= t < off(v, i) + v[i].1.states@.len(), path(v[i].1.edges@, n, (s - off(v, i)) as usize, w, (t - off(v, i)) as usize) decreases n
{
    let es = v[i].1.edges@;
    let o = off(v, i);
    off_mono(v, i, i);
    path_0(a.edges@, n, s, w, t); path_0(es, n, (s - o) as usize, w, (t - o) as usize);
    if n > 0 {
        let e = path_first(a.edges@, n, s, w, t);
        let e0 = comb_out(v, a, i, s - o, e);
        let m = (n - 1) as nat;
        if e.label is None { path_down(v, a, i, m, e.to.0, w, t); path_eps(es, m, e0, w, (t - o) as usize); }
        else { path_down(v, a, i, m, e.to.0, w.skip(1), t); assert(reads(e0, w[0])); path_char(es, m, e0, w, (t - o) as usize); }
    }
}
pub proof fn path_up(v: Seq<(TokenDef, NFA)>, a: NFA, i: int, n: nat, s: usize, w: Seq<char>, t: usize)
    requires comb(v, a), parts(v), 0 <= i < v.len(), s < v[i].1.states@.len(), path(v[i].1.edges@, n, s, w, t)
    ensures t < v[i].1.states@.len(), path(a.edges@, n, (s + off(v, i)) as usize, w, (t + off(v, i)) as usize) decreases n
{
    let es = v[i].1.edges@;
    let o = off(v, i);
    off_next(v, i); off_mono(v, i, i); off_mono(v, i + 1, v.len() as int);
    path_0(es, n, s, w, t); path_0(a.edges@, n, (s + o) as usize, w, (t + o) as usize);
    if n > 0 {
        let e0 = path_first(es, n, s, w, t);
        comb_in(v, a, i, e0);
        let e = sedge(e0, o);
        let m = (n - 1) as nat;
        if e.label is None { path_up(v, a, i, m, e0.to.0, w, t); path_eps(a.edges@, m, e, w, (t + o) as usize); }
        else { path_up(v, a, i, m, e0.to.0, w.skip(1), t); assert(reads(e, w[0])); path_char(a.edges@, m, e, w, (t + o) as usize); }
    }
}
/// a token's automaton works in the combined one as it does alone
pub proof fn comb_reach(v: Seq<(TokenDef, NFA)>, a: NFA, i: int, w: Seq<char>, t: usize)
    requires comb(v, a), parts(v), 0 <= i < v.len(), t < v[i].1.states@.len()
    ensures off(v, i) + t < usize::MAX, reach(a.edges@, 0, w, (off(v, i) + t) as usize) <==> reach(v[i].1.edges@, 0, w, t)
{
    let k = v.len() as int;
    off_next(v, i); off_mono(v, i, i); off_mono(v, i + 1, k);
    let x = (off(v, i) + t) as usize;
    if reach(a.edges@, 0, w, x) {
        let n = reach_n(a.edges@, 0, w, x);
        path_0(a.edges@, n, 0, w, x);
        let e = path_first(a.edges@, n, 0, w, x);
        let q = choose|q: int| 0 <= q < a.edges@.len() && a.edges@[q] == e;
        let (j, y) = comb_edge(v, a, q);
        if q >= k { off_mono(v, j, j); }
        off_mono(v, q, q);
        off_next(v, q);
        path_down(v, a, q, (n - 1) as nat, e.to.0, w, x);
        off_uniq(v, i, t as int, q, x - off(v, q));
        reach_i(v[i].1.edges@, (n - 1) as nat, 0, w, t);
    }
    if reach(v[i].1.edges@, 0, w, t) {
        let n = reach_n(v[i].1.edges@, 0, w, t);
        path_up(v, a, i, n, 0, w, t);
        reveal(cat);
        assert(a.edges@.len() == eoff(v, k));
        off_mono(v, 0, k);
        let y = comb_edge(v, a, i);
        let e = a.edges@[i];
        assert(a.edges@.contains(e));
        path_eps(a.edges@, n, e, w, x);
        reach_i(a.edges@, n + 1, 0, w, x);
    }
}
pub proof fn comb_nwf(v: Seq<(TokenDef, NFA)>, a: NFA)
    requires comb(v, a), parts(v) ensures nwf(a), a.states@.len() > 0
{
    let k = v.len() as int;
    off_mono(v, 0, k);
    assert forall|q: int| 0 <= q < a.edges@.len() implies (#[trigger] a.edges@[q]).from.0 < a.states@.len() && a.edges@[q].to.0 < a.states@.len() by {
        let (i, x) = comb_edge(v, a, q);
        reveal(cat);
        if q < k { off_mono(v, q, q); off_next(v, q); off_mono(v, q + 1, k); } else { off_next(v, i); off_mono(v, i + 1, k); }
    }
    assert forall|s: int| 0 <= s < a.states@.len() implies #[trigger] first_ok(a.states@, a.edges@, s) by { comb_first(v, a, s); }
    reveal(nwf); reveal(cat);
}
pub proof fn comb_first(v: Seq<(TokenDef, NFA)>, a: NFA, s: int)
    requires comb(v, a), parts(v), 0 <= s < a.states@.len() ensures first_ok(a.states@, a.edges@, s)
{
    let k = v.len() as int;
    off_mono(v, 0, k);
    reveal(cat);
    if s == 0 {
        assert forall|q: int| 0 <= q < a.edges@.len() && q >= k implies (#[trigger] a.edges@[q]).from.0 != 0 by { let (i, x) = comb_edge(v, a, q); off_mono(v, i, i); }
        assert forall|q: int| 0 <= q < k implies (#[trigger] a.edges@[q]).from.0 == 0 by { let y = comb_edge(v, a, q); }
    } else {
        let i = state_of(v, s, k);
        let t = s - off(v, i);
        let b = v[i].1;
        assert(prec(v, k, 0, i, t));
        assert(a.states@[off(v, i) + t] == cst(v, i, t));
        off_mono(v, i, i); off_next(v, i); off_mono(v, i + 1, k);
        reveal(nwf);
        assert(first_ok(b.states@, b.edges@, t));
        // the edges of `s` are those of `t`, moved
        assert forall|q: int| 0 <= q < a.edges@.len() implies ((#[trigger] a.edges@[q]).from.0 == s <==> (eoff(v, i) <= q < eoff(v, i) + b.edges@.len() && b.edges@[q - eoff(v, i)].from.0 == t)) by {
            let (j, x) = comb_edge(v, a, q);
            if a.edges@[q].from.0 == s { off_uniq(v, i, t, j, v[j].1.edges@[x].from.0 as int); }
            if eoff(v, i) <= q < eoff(v, i) + b.edges@.len() && b.edges@[q - eoff(v, i)].from.0 == t {
                assert(prec(v, k, 0, i, q - eoff(v, i)));
                assert(a.edges@[eoff(v, i) + (q - eoff(v, i))] == ced(v, i, q - eoff(v, i)));
            }
        }
        if !b.states@[t].first_edge.none_v() {
            let f = b.states@[t].first_edge.val() as int;
            let g = f + eoff(v, i);
            assert(a.states@[s].first_edge.val() == g);
            assert(b.edges@[g - eoff(v, i)].from.0 == t);
            assert(a.edges@[g].from.0 == s);
            assert forall|q: int| 0 <= q < a.edges@.len() && (#[trigger] a.edges@[q]).from.0 == s implies g <= q by { assert(b.edges@[q - eoff(v, i)].from.0 == t); }
            assert forall|e1: int, e2: int| g <= e1 <= e2 < a.edges@.len() && (#[trigger] a.edges@[e2]).from.0 == s implies (#[trigger] a.edges@[e1]).from.0 == s by {
                assert(b.edges@[e2 - eoff(v, i)].from.0 == t);
                assert(b.edges@[e1 - eoff(v, i)].from.0 == t);
            }
        } else {
            assert forall|q: int| 0 <= q < a.edges@.len() implies (#[trigger] a.edges@[q]).from.0 != s by { if a.edges@[q].from.0 == s { assert(b.edges@[q - eoff(v, i)].from.0 == t); } }
        }
    }
}
/// the accepting states are the tokens' own
pub open spec fn tkey(v: Seq<(TokenDef, NFA)>, i: int) -> StateIdx { StateIdx((off(v, i) + 1) as usize) }
pub proof fn tkey_in(v: Seq<(TokenDef, NFA)>, i: int) requires parts(v), 0 <= i < v.len() ensures tkey(v, i).0 == off(v, i) + 1
{ off_mono(v, i, i); off_next(v, i); off_mono(v, i + 1, v.len() as int); }
pub proof fn tkey_lt(v: Seq<(TokenDef, NFA)>, i: int, j: int) requires parts(v), 0 <= i < j < v.len() ensures tkey(v, i).0 < tkey(v, j).0
{ tkey_in(v, i); tkey_in(v, j); off_next(v, i); off_mono(v, i + 1, j); }
pub proof fn comb_accept(v: Seq<(TokenDef, NFA)>, a: NFA, x: int) -> (i: int)
    requires comb(v, a), parts(v), 0 <= x < a.states@.len()
    ensures a.states@[x].is_accept ==> 0 <= i < v.len() && tkey(v, i).0 == x
{
    reveal(cat);
    if a.states@[x].is_accept {
        let i = state_of(v, x, v.len() as int);
        let t = x - off(v, i);
        assert(prec(v, v.len() as int, 0, i, t));
        assert(a.states@[off(v, i) + t] == cst(v, i, t));
        assert(v[i].1.states@[t].is_accept);
        assert(one_accept(v[i].1));
        tkey_in(v, i);
        i
    } else { 0 }
}
pub proof fn comb_accepts(v: Seq<(TokenDef, NFA)>, a: NFA, i: int)
    requires comb(v, a), parts(v), 0 <= i < v.len()
    ensures tkey(v, i).0 < a.states@.len(), a.states@[tkey(v, i).0 as int].is_accept
{
    reveal(cat);
    tkey_in(v, i); off_mono(v, i, i); off_next(v, i); off_mono(v, i + 1, v.len() as int);
    assert(prec(v, v.len() as int, 0, i, 1));
    assert(a.states@[off(v, i) + 1] == cst(v, i, 1));
    assert(one_accept(v[i].1));
    assert(v[i].1.states@[1].is_accept);
}
/// each token's accepting state is mapped to its definition
#[verifier::opaque]
pub open spec fn tmap(v: Seq<(TokenDef, NFA)>, m: Map<StateIdx, TokenDef>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> m.contains_key(#[trigger] tkey(v, i)) && m[tkey(v, i)] == v[i].0
    &&& forall|x: StateIdx| #[trigger] m.contains_key(x) ==> def_in(v, n, m[x])
}
pub open spec fn def_in(v: Seq<(TokenDef, NFA)>, n: int, d: TokenDef) -> bool { exists|i: int| 0 <= i < n && d == (#[trigger] v[i]).0 }
pub proof fn tmap_0(v: Seq<(TokenDef, NFA)>, m: Map<StateIdx, TokenDef>) requires m == Map::<StateIdx, TokenDef>::empty() ensures tmap(v, m, 0) { reveal(tmap); }
pub proof fn tmap_step(v: Seq<(TokenDef, NFA)>, m: Map<StateIdx, TokenDef>, n: int)
    requires parts(v), 0 <= n < v.len(), tmap(v, m, n) ensures tmap(v, m.insert(tkey(v, n), v[n].0), n + 1)
{
    reveal(tmap);
    let m2 = m.insert(tkey(v, n), v[n].0);
    assert forall|i: int| 0 <= i < n + 1 implies m2.contains_key(#[trigger] tkey(v, i)) && m2[tkey(v, i)] == v[i].0 by { if i < n { tkey_lt(v, i, n); } }
    assert forall|x: StateIdx| #[trigger] m2.contains_key(x) implies def_in(v, n + 1, m2[x]) by {
        if x == tkey(v, n) { assert(m2[x] == v[n].0); } else { assert(m.contains_key(x)); let i = choose|i: int| 0 <= i < n && m[x] == (#[trigger] v[i]).0; assert(m2[x] == v[i].0); }
    }
}
/// the first of the definitions from `i` on that matches all of `w`
pub open spec fn pick(ts: Seq<(TokenDef, RegexHir)>, w: Seq<char>, i: int) -> int decreases ts.len() - i {
    if i >= ts.len() { ts.len() as int } else if lang(ts[i].1, w) { i } else { pick(ts, w, i + 1) }
}
pub proof fn pick_is(ts: Seq<(TokenDef, RegexHir)>, w: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= ts.len(), forall|k: int| i <= k < j ==> !lang((#[trigger] ts[k]).1, w), j < ts.len() ==> lang(ts[j].1, w)
    ensures pick(ts, w, i) == j decreases j - i
{ if i < j { assert(!lang(ts[i].1, w)); pick_is(ts, w, i + 1, j); } }
pub open spec fn tok_def(l: Lex, x: StateIdx) -> Option<TokenDef> {
    if l.accepting_dfa_to_nfa@.contains_key(x) && l.accepting_dfa_to_nfa@[x]@.len() > 0 && l.tokens@.contains_key(l.accepting_dfa_to_nfa@[x]@[0]) { Some(l.tokens@[l.accepting_dfa_to_nfa@[x]@[0]]) } else { None }
}
/// the table of original states is about the states, all of them
#[verifier::opaque]
pub open spec fn dkeys(d: DFA) -> bool { forall|k: StateIdx| #[trigger] d.dfa_to_nfa@.contains_key(k) <==> k.0 < d.states@.len() }
/// every accepting state names a token
#[verifier::opaque]
pub open spec fn lok(l: Lex) -> bool { dshape(l.dfa) && dkeys(l.dfa) && acc_map(l.dfa, l.accepting_dfa_to_nfa@) && forall|x: StateIdx| #[trigger] dacc(l.dfa, x) ==> tok_def(l, x) is Some }
pub open spec fn lex_at(l: Lex, ts: Seq<(TokenDef, RegexHir)>, w: Seq<char>) -> bool {
    let p = pick(ts, w, 0);
    match drun(l.dfa, w) {
        None => p == ts.len(),
        Some(s) => if p < ts.len() { dacc(l.dfa, StateIdx(s)) && tok_def(l, StateIdx(s)) == Some(ts[p].0) } else { !dacc(l.dfa, StateIdx(s)) },
    }
}
/// the automaton accepts what some definition matches, for the first of these
#[verifier::opaque]
pub open spec fn lex_of(l: Lex, ts: Seq<(TokenDef, RegexHir)>) -> bool { forall|w: Seq<char>| #[trigger] lex_at(l, ts, w) }
/// every token the lexer names is one of the definitions
#[verifier::opaque]
pub open spec fn lex_names(l: Lex, ts: Seq<(TokenDef, RegexHir)>) -> bool { names_to(l, ts) && names_from(l, ts) }
pub open spec fn names_to(l: Lex, ts: Seq<(TokenDef, RegexHir)>) -> bool { forall|x: StateIdx| #[trigger] l.tokens@.contains_key(x) ==> exists|i: int| 0 <= i < ts.len() && l.tokens@[x] == (#[trigger] ts[i]).0 }
pub open spec fn names_from(l: Lex, ts: Seq<(TokenDef, RegexHir)>) -> bool { forall|i: int| 0 <= i < ts.len() ==> named_def(l, (#[trigger] ts[i]).0) }
pub open spec fn named_def(l: Lex, d: TokenDef) -> bool { exists|x: StateIdx| #[trigger] l.tokens@.contains_key(x) && l.tokens@[x] == d }
pub proof fn lex_names_from(l: Lex, ts: Seq<(TokenDef, RegexHir)>, v: Seq<(TokenDef, NFA)>)
    requires tok_nfas(ts, v, ts.len() as int), tmap(v, l.tokens@, v.len() as int) ensures lex_names(l, ts)
{
    reveal(tmap); reveal(lex_names);
    assert forall|x: StateIdx| #[trigger] l.tokens@.contains_key(x) implies exists|i: int| 0 <= i < ts.len() && l.tokens@[x] == (#[trigger] ts[i]).0 by {
        assert(def_in(v, v.len() as int, l.tokens@[x]));
        let i = choose|i: int| 0 <= i < v.len() && l.tokens@[x] == (#[trigger] v[i]).0;
        assert(tok_nfa(ts[i], v[i])); reveal(tok_nfa); assert(l.tokens@[x] == ts[i].0);
    }
    assert forall|i: int| 0 <= i < ts.len() implies named_def(l, (#[trigger] ts[i]).0) by {
        assert(tok_nfa(ts[i], v[i])); reveal(tok_nfa);
        let k = tkey(v, i);
        assert(l.tokens@.contains_key(k)); assert(l.tokens@[k] == v[i].0); assert(v[i].0 == ts[i].0);
    }
    assert(names_to(l, ts)); assert(names_from(l, ts));
}
pub proof fn lex_from(l: Lex, ts: Seq<(TokenDef, RegexHir)>, v: Seq<(TokenDef, NFA)>, a: NFA)
    requires comb(v, a), fits(v), tok_nfas(ts, v, ts.len() as int), tmap(v, l.tokens@, v.len() as int), dfa_of(l.dfa, a), acc_map(l.dfa, l.accepting_dfa_to_nfa@)
    ensures lok(l), lex_of(l, ts), lex_names(l, ts)
{
    lex_names_from(l, ts, v);
    assert(parts(v)) by { reveal(tok_nfa); assert forall|i: int| 0 <= i < v.len() implies nwf((#[trigger] v[i]).1) && v[i].1.states@.len() >= 2 && one_accept(v[i].1) by { assert(tok_nfa(ts[i], v[i])); } }
    comb_nwf(v, a);
    assert forall|x: StateIdx| #[trigger] dacc(l.dfa, x) implies tok_def(l, x) is Some by { let i = acc_tok(l, v, a, x); }
    reveal(lok);
    assert(dkeys(l.dfa)) by { reveal(dkeys); reveal(dsem); }
    assert forall|w: Seq<char>| #[trigger] lex_at(l, ts, w) by { lex_at_is(l, ts, v, a, w); }
    reveal(lex_of);
}
/// the first original state of an accepting state is a token's
pub proof fn acc_tok(l: Lex, v: Seq<(TokenDef, NFA)>, a: NFA, x: StateIdx) -> (i: int)
    requires comb(v, a), parts(v), tmap(v, l.tokens@, v.len() as int), dfa_of(l.dfa, a), acc_map(l.dfa, l.accepting_dfa_to_nfa@), dacc(l.dfa, x)
    ensures 0 <= i < v.len(), tok_def(l, x) == Some(v[i].0), l.accepting_dfa_to_nfa@[x]@.len() > 0, l.accepting_dfa_to_nfa@[x]@[0] == tkey(v, i), acc_at(l.dfa, l.accepting_dfa_to_nfa@, x)
{
    reveal(acc_map); reveal(tmap); reveal(dsem);
    assert(acc_at(l.dfa, l.accepting_dfa_to_nfa@, x));
    let f = l.accepting_dfa_to_nfa@[x]@;
    assert(f.contains(f[0]));
    assert(l.dfa.accepting_states@.contains(f[0]));
    let i = comb_accept(v, a, f[0].0 as int);
    assert(f[0] == tkey(v, i));
    i
}
pub proof fn lex_at_is(l: Lex, ts: Seq<(TokenDef, RegexHir)>, v: Seq<(TokenDef, NFA)>, a: NFA, w: Seq<char>)
    requires comb(v, a), parts(v), nwf(a), tok_nfas(ts, v, ts.len() as int), tmap(v, l.tokens@, v.len() as int), dfa_of(l.dfa, a), acc_map(l.dfa, l.accepting_dfa_to_nfa@)
    ensures lex_at(l, ts, w)
{
    run_stepped(l.dfa, a, w);
    // what a token matches, the combined automaton reaches
    assert forall|i: int| 0 <= i < ts.len() implies (lang((#[trigger] ts[i]).1, w) <==> reach(a.edges@, 0, w, tkey(v, i).0)) by {
        assert(tok_nfa(ts[i], v[i]));
        reveal(tok_nfa); reveal(nfa_accepts);
        comb_reach(v, a, i, w, 1);
        tkey_in(v, i);
        assert(one_accept(v[i].1));
        assert(nfa_accepts(v[i].1, w) <==> lang(ts[i].1, w));
        if reach(v[i].1.edges@, 0, w, 1) { assert(v[i].1.states@[1usize as int].is_accept); }
    }
    match drun(l.dfa, w) {
        None => { pick_is(ts, w, 0, ts.len() as int); }
        Some(s) => {
            let x = StateIdx(s);
            reveal(stepped);
            let r = nset(l.dfa, s);
            reveal(dsem);
            assert forall|i: int| 0 <= i < ts.len() implies (lang((#[trigger] ts[i]).1, w) <==> l.dfa.dfa_to_nfa@[x]@.contains(tkey(v, i)) && l.dfa.accepting_states@.contains(tkey(v, i))) by {
                comb_accepts(v, a, i);
                assert(r.contains(tkey(v, i)) <==> reach(a.edges@, 0, w, tkey(v, i).0));
            }
            assert(l.dfa.dfa_to_nfa@.contains_key(x));
            if dacc(l.dfa, x) {
                let i = acc_tok(l, v, a, x);
                let f = l.accepting_dfa_to_nfa@[x]@;
                assert(f.contains(f[0]));
                assert(lang(ts[i].1, w));
                assert forall|k: int| 0 <= k < i implies !lang((#[trigger] ts[k]).1, w) by {
                    if lang(ts[k].1, w) {
                        assert(f.contains(tkey(v, k)));
                        tkey_lt(v, k, i);
                        let h = choose|h: int| 0 <= h < f.len() && f[h] == tkey(v, k);
                        if h > 0 { assert(f[0].0 < f[h].0); }
                    }
                }
                pick_is(ts, w, 0, i);
                assert(v[i].0 == ts[i].0) by { assert(tok_nfa(ts[i], v[i])); reveal(tok_nfa); }
            } else {
                assert forall|k: int| 0 <= k < ts.len() implies !lang((#[trigger] ts[k]).1, w) by {
                    if lang(ts[k].1, w) { reveal(dacc); assert(l.dfa.accepting_states@.contains(tkey(v, k))); }
                }
                pick_is(ts, w, 0, ts.len() as int);
            }
        }
    }
}
pub proof fn tok_nfas_parts(ts: Seq<(TokenDef, RegexHir)>, v: Seq<(TokenDef, NFA)>) requires fits(v), tok_nfas(ts, v, ts.len() as int) ensures parts(v) {
    reveal(tok_nfa);
    assert forall|i: int| 0 <= i < v.len() implies nwf((#[trigger] v[i]).1) && v[i].1.states@.len() >= 2 && one_accept(v[i].1) by { assert(tok_nfa(ts[i], v[i])); }
}
pub open spec fn at_moved(v: Seq<(TokenDef, NFA)>, x: (TokenDef, NFA), i: int, done: bool) -> bool { if done { x.0 == v[i].0 && shifted(v[i].1, x.1, off(v, i), eoff(v, i)) } else { x == v[i] } }
pub open spec fn moved_up(v: Seq<(TokenDef, NFA)>, u: Seq<(TokenDef, NFA)>, n: int) -> bool { u.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> at_moved(v, #[trigger] u[i], i, i < n) }
pub proof fn can_shift(v: Seq<(TokenDef, NFA)>, i: int) requires parts(v), 0 <= i < v.len() ensures shiftable(v[i].1, off(v, i), eoff(v, i)) {
    let b = v[i].1;
    reveal(nwf);
    assert(nwf(b));
    off_next(v, i); off_mono(v, i, i); off_mono(v, i + 1, v.len() as int);
    assert forall|t: int| 0 <= t < b.states@.len() && !(#[trigger] b.states@[t]).first_edge.none_v() implies b.states@[t].first_edge.val() + eoff(v, i) < usize::MAX by { assert(first_ok(b.states@, b.edges@, t)); }
}
/// the accepting states in order
pub open spec fn accs_of(a: NFA, s: Seq<StateIdx>) -> bool { exists|r: Set<StateIdx>| #[trigger] enumerates(s, r) && acc_set(a, r, a.states@.len() as int) }
pub proof fn accs_at(v: Seq<(TokenDef, NFA)>, j: int, s: Seq<StateIdx>, i: int) requires parts(v), 0 <= j < v.len(), accs_of(v[j].1, s), 0 <= i < s.len() ensures s[i].0 == 1
{ assert(one_accept(v[j].1)); let r = choose|r: Set<StateIdx>| #[trigger] enumerates(s, r) && acc_set(v[j].1, r, v[j].1.states@.len() as int); assert(s.contains(s[i])); assert(r.contains(s[i])); assert(v[j].1.states@[s[i].0 as int].is_accept); }
pub proof fn accs_one(v: Seq<(TokenDef, NFA)>, j: int, s: Seq<StateIdx>) requires parts(v), 0 <= j < v.len(), accs_of(v[j].1, s) ensures s.len() > 0
{ assert(one_accept(v[j].1)); assert(v[j].1.states@[1].is_accept); let r = choose|r: Set<StateIdx>| #[trigger] enumerates(s, r) && acc_set(v[j].1, r, v[j].1.states@.len() as int); assert(r.contains(StateIdx(1))); assert(s.contains(StateIdx(1))); }

@module nfalex = lex/nfa.rs
@fn NFA::lex_nfa_template
@spec
    requires so(token_nfa_lengths@, token_nfa_lengths@.len() as int) < usize::MAX, eo(token_nfa_lengths@, token_nfa_lengths@.len() as int) <= usize::MAX,
    ensures template_of(token_nfa_lengths@, token_nfa_lengths@.len() as int, r),
@loop 1
    invariant $acc == eo(token_nfa_lengths@, $i), $s == refs::<(usize, usize)>(token_nfa_lengths@),
@hint loop 1 start
    proof { so_mono(token_nfa_lengths@, $i, token_nfa_lengths@.len() as int); }
@loop 2
    invariant state_offset == 1 + so(token_nfa_lengths@, $i), $s == refs::<(usize, usize)>(token_nfa_lengths@), template_of(token_nfa_lengths@, $i, this),
@hint loop 2 start
    proof { so_mono(token_nfa_lengths@, $i, token_nfa_lengths@.len() as int); }
@fn NFA::shift_state_and_edges
@spec
    requires shiftable(*old(self), state_offset as int, edge_offset as int),
    ensures shifted(*old(self), *final(self), state_offset as int, edge_offset as int),
@hint start
    let ghost me0 = *self;
@loop 1
    invariant shift_st(me0.states@, self.states@, edge_offset as int, $n as int), self.edges == me0.edges,
@loop 2
    invariant shift_st(me0.states@, self.states@, edge_offset as int, me0.states@.len() as int), shift_ed(me0.edges@, self.edges@, state_offset as int, $n as int),

@module lexrun = -
@text
// --- cutting the input ---
pub open spec fn is_ws(c: char) -> bool { c == '\n' || c == ' ' }
/// the longest non-empty prefix of `w`, of at most `n` characters, that some token matches (0: none)
pub open spec fn longest(l: Lex, w: Seq<char>, n: int) -> int decreases n { if n <= 0 { 0 } else if dfa_accepts(l.dfa, w.take(n)) { n } else { longest(l, w, n - 1) } }
pub proof fn longest_in(l: Lex, w: Seq<char>, n: int) requires 0 <= n <= w.len()
    ensures 0 <= longest(l, w, n) <= n, longest(l, w, n) > 0 ==> dfa_accepts(l.dfa, w.take(longest(l, w, n)))
    decreases n
{ if n > 0 { longest_in(l, w, n - 1); } }
/// nothing longer matches where the automaton has come to an end
pub proof fn longest_end(l: Lex, w: Seq<char>, k: int, n: int)
    requires 0 <= k <= n <= w.len(), k < n ==> drun(l.dfa, w.take(k + 1)) is None ensures longest(l, w, n) == longest(l, w, k) decreases n
{
    if k < n {
        longest_end(l, w, k, n - 1);
        let x = w.take(n);
        assert(x.take(k + 1) =~= w.take(k + 1));
        drun_prefix(l.dfa, x, k + 1);
    }
}
/// the token that takes `v`
pub open spec fn tok_of(l: Lex, v: Seq<char>) -> Option<TokenDef> { match drun(l.dfa, v) { Some(s) => tok_def(l, StateIdx(s)), None => None } }
pub struct Cut { pub def: TokenDef, pub text: Seq<char> }
pub open spec fn a_cut(l: Lex, v: Seq<char>) -> Cut { Cut { def: tok_of(l, v).unwrap(), text: v } }
/// the lexemes from position `p` on: the longest match each time; where there is none, a space or
/// newline that begins no match is skipped, and anything else ends the lexing
pub open spec fn cuts(l: Lex, w: Seq<char>, p: int) -> Seq<Cut> decreases w.len() - p {
    if p < 0 || p >= w.len() { Seq::empty() } else {
        let r = w.skip(p);
        let n = longest(l, r, r.len() as int);
        if 0 < n <= r.len() { seq![a_cut(l, r.take(n))] + cuts(l, w, p + n) }
        else if is_ws(w[p]) && drun(l.dfa, r.take(1)) is None { cuts(l, w, p + 1) }
        else { Seq::empty() }
    }
}
/// the token has its definition's name, and carries the text if the definition says so
pub open spec fn tok_is(t: Token, c: Cut) -> bool {
    t.name == c.def.name && if c.def.with_val { t.val matches Some(b) && b@ == c.text } else { t.val is None }
}
pub open spec fn toks_are(t: Seq<Token>, c: Seq<Cut>) -> bool { t.len() == c.len() && forall|i: int| 0 <= i < t.len() ==> tok_is(#[trigger] t[i], c[i]) }
/// what the loop knows: the lexemes `done` before `b`, the state after `b..f`, and the longest match of it
#[verifier::opaque]
pub open spec fn linv(l: Lex, w: Seq<char>, t: Seq<Token>, b: int, f: int, s: usize, m: Option<(usize, StateIdx)>) -> bool {
    &&& lok(l) && 0 <= b <= f <= w.len() && s < l.dfa.states@.len()
    &&& drun(l.dfa, w.subrange(b, f)) == Some(s)
    &&& match m { None => longest(l, w.skip(b), f - b) == 0, Some((i, x)) => b <= i < f && longest(l, w.skip(b), f - b) == i + 1 - b && names(l, w.subrange(b, i + 1), x) }
    &&& exists|done: Seq<Cut>| #[trigger] toks_are(t, done) && cuts(l, w, 0) == done + cuts(l, w, b)
}
/// `x` is what the token is looked up by
pub open spec fn names(l: Lex, v: Seq<char>, x: StateIdx) -> bool { l.tokens@.contains_key(x) && tok_of(l, v) == Some(l.tokens@[x]) }
pub proof fn linv_0(l: Lex, w: Seq<char>, t: Seq<Token>) requires lok(l), t.len() == 0 ensures linv(l, w, t, 0, 0, 0, None)
{
    reveal(linv); reveal(lok); dshape_len(l.dfa);
    drun_0(l.dfa, w.subrange(0, 0));
    assert(toks_are(t, Seq::<Cut>::empty()));
    assert(cuts(l, w, 0) =~= Seq::<Cut>::empty() + cuts(l, w, 0));
}
pub proof fn linv_in(l: Lex, w: Seq<char>, t: Seq<Token>, b: int, f: int, s: usize, m: Option<(usize, StateIdx)>)
    requires linv(l, w, t, b, f, s, m)
    ensures lok(l), dshape(l.dfa), s < l.dfa.states@.len(), 0 <= b <= f <= w.len(), m matches Some((i, x)) ==> b <= i < f && l.tokens@.contains_key(x),
        forall|x: StateIdx| #[trigger] l.accepting_dfa_to_nfa@.contains_key(x) ==> l.accepting_dfa_to_nfa@[x]@.len() > 0,
{
    reveal(linv); reveal(lok);
    assert forall|x: StateIdx| #[trigger] l.accepting_dfa_to_nfa@.contains_key(x) implies l.accepting_dfa_to_nfa@[x]@.len() > 0 by { linv_acc(l, x); }
}
/// a transition was found
pub proof fn linv_step(l: Lex, w: Seq<char>, t: Seq<Token>, b: int, f: int, s: usize, m: Option<(usize, StateIdx)>, s2: usize, m2: Option<(usize, StateIdx)>)
    requires linv(l, w, t, b, f, s, m), f < w.len(), f < usize::MAX, dnext(l.dfa, s, w[f]) == Some(s2),
        if l.accepting_dfa_to_nfa@.contains_key(StateIdx(s2)) { l.accepting_dfa_to_nfa@[StateIdx(s2)]@.len() > 0 && m2 == Some((f as usize, l.accepting_dfa_to_nfa@[StateIdx(s2)]@[0])) } else { m2 == m }
    ensures linv(l, w, t, b, f + 1, s2, m2)
{
    reveal(linv); reveal(lok); reveal(acc_map);
    let v = w.subrange(b, f + 1);
    assert(v =~= w.subrange(b, f).push(w[f]));
    drun_push(l.dfa, w.subrange(b, f), w[f]);
    drun_in(l.dfa, v);
    assert(w.skip(b).take(f + 1 - b) =~= v);
    assert(acc_at(l.dfa, l.accepting_dfa_to_nfa@, StateIdx(s2)));
    assert(dfa_accepts(l.dfa, v) == dacc(l.dfa, StateIdx(s2)));
}
/// the state it goes to is told by the accepting states
pub proof fn linv_acc(l: Lex, x: StateIdx) requires lok(l), l.accepting_dfa_to_nfa@.contains_key(x) ensures l.accepting_dfa_to_nfa@[x]@.len() > 0
{ reveal(lok); reveal(acc_map); assert(acc_at(l.dfa, l.accepting_dfa_to_nfa@, x)); }
/// no transition, after a match
pub proof fn linv_tok(l: Lex, w: Seq<char>, t: Seq<Token>, b: int, f: int, s: usize, i: usize, x: StateIdx, k: Token)
    requires linv(l, w, t, b, f, s, Some((i, x))), f < w.len() ==> dnext(l.dfa, s, w[f]) is None, tok_is(k, Cut { def: l.tokens@[x], text: w.subrange(b, i + 1) })
    ensures linv(l, w, t.push(k), i + 1, i + 1, 0, None)
{
    reveal(linv); reveal(lok); dshape_len(l.dfa);
    let r = w.skip(b);
    at_end(l, w, b, f, s);
    let n = longest(l, r, r.len() as int);
    longest_in(l, r, r.len() as int);
    assert(n == i + 1 - b);
    assert(r.take(n) =~= w.subrange(b, i + 1));
    let done = choose|done: Seq<Cut>| #[trigger] toks_are(t, done) && cuts(l, w, 0) == done + cuts(l, w, b);
    let c = a_cut(l, r.take(n));
    assert(cuts(l, w, b) == seq![c] + cuts(l, w, b + n));
    let d2 = done.push(c);
    assert(done + (seq![c] + cuts(l, w, b + n)) =~= d2 + cuts(l, w, b + n));
    let t2 = t.push(k);
    assert forall|j: int| 0 <= j < t2.len() implies tok_is(#[trigger] t2[j], d2[j]) by { if j < t.len() { assert(t2[j] == t[j]); assert(tok_is(t[j], done[j])); } }
    assert(toks_are(t2, d2));
    drun_0(l.dfa, w.subrange(i + 1, i + 1));
}
pub proof fn at_end(l: Lex, w: Seq<char>, b: int, f: int, s: usize)
    requires 0 <= b <= f <= w.len(), drun(l.dfa, w.subrange(b, f)) == Some(s), f < w.len() ==> dnext(l.dfa, s, w[f]) is None
    ensures longest(l, w.skip(b), w.len() - b) == longest(l, w.skip(b), f - b), f > b ==> drun(l.dfa, w.skip(b).take(1)) is Some, f == b && f < w.len() ==> drun(l.dfa, w.skip(b).take(1)) is None
{
    let r = w.skip(b);
    if f < w.len() {
        assert(r.take(f - b + 1) =~= w.subrange(b, f).push(w[f]));
        drun_push(l.dfa, w.subrange(b, f), w[f]);
    }
    longest_end(l, r, f - b, w.len() - b);
    if f > b && drun(l.dfa, r.take(1)) is None {
        assert(w.subrange(b, f).take(1) =~= r.take(1));
        drun_prefix(l.dfa, w.subrange(b, f), 1);
    }
}
/// a space is skipped
pub proof fn linv_ws(l: Lex, w: Seq<char>, t: Seq<Token>, b: int, s: usize)
    requires linv(l, w, t, b, b, s, None), b < w.len(), dnext(l.dfa, s, w[b]) is None, is_ws(w[b])
    ensures linv(l, w, t, b + 1, b + 1, s, None)
{
    reveal(linv); reveal(lok);
    at_end(l, w, b, b, s);
    drun_0(l.dfa, w.subrange(b, b));
    drun_0(l.dfa, w.subrange(b + 1, b + 1));
    assert(cuts(l, w, b) == cuts(l, w, b + 1));
}
/// nothing matches any more
pub proof fn linv_end(l: Lex, w: Seq<char>, t: Seq<Token>, b: int, f: int, s: usize)
    requires linv(l, w, t, b, f, s, None), f < w.len() ==> dnext(l.dfa, s, w[f]) is None && (!is_ws(w[f]) || f != b)
    ensures toks_are(t, cuts(l, w, 0))
{
    reveal(linv);
    at_end(l, w, b, f, s);
    assert(cuts(l, w, b) =~= Seq::<Cut>::empty());
    let done = choose|done: Seq<Cut>| #[trigger] toks_are(t, done) && cuts(l, w, 0) == done + cuts(l, w, b);
    assert(done + cuts(l, w, b) =~= done);
}

// --- in terms of the definitions ---
pub open spec fn longest_ts(ts: Seq<(TokenDef, RegexHir)>, w: Seq<char>, n: int) -> int decreases n { if n <= 0 { 0 } else if pick(ts, w.take(n), 0) < ts.len() { n } else { longest_ts(ts, w, n - 1) } }
/// C04, C05: the longest match by some definition, for the first definition that matches it
pub proof fn cut_by_defs(l: Lex, ts: Seq<(TokenDef, RegexHir)>, w: Seq<char>, n: int)
    requires lex_of(l, ts), 0 <= n <= w.len()
    ensures longest(l, w, n) == longest_ts(ts, w, n), longest(l, w, n) > 0 ==> tok_of(l, w.take(longest(l, w, n))) == Some(ts[pick(ts, w.take(longest(l, w, n)), 0)].0)
    decreases n
{
    reveal(lex_of);
    if n > 0 { cut_by_defs(l, ts, w, n - 1); assert(lex_at(l, ts, w.take(n))); pick_in(ts, w.take(n), 0); }
}
pub proof fn pick_in(ts: Seq<(TokenDef, RegexHir)>, w: Seq<char>, i: int) requires 0 <= i <= ts.len()
    ensures i <= pick(ts, w, i) <= ts.len(), pick(ts, w, i) < ts.len() ==> lang(ts[pick(ts, w, i)].1, w), forall|k: int| i <= k < pick(ts, w, i) ==> !lang((#[trigger] ts[k]).1, w)
    decreases ts.len() - i
{ if i < ts.len() && !lang(ts[i].1, w) { pick_in(ts, w, i + 1); } }
/// where the automaton has no transition, no definition matches anything that begins so
pub proof fn none_begins(l: Lex, ts: Seq<(TokenDef, RegexHir)>, w: Seq<char>, k: int)
    requires lex_of(l, ts), 0 <= k <= w.len(), drun(l.dfa, w.take(k)) is None ensures forall|i: int| 0 <= i < ts.len() ==> !lang((#[trigger] ts[i]).1, w)
{ reveal(lex_of); drun_prefix(l.dfa, w, k); assert(lex_at(l, ts, w)); pick_in(ts, w, 0); }

@module lexer = lex/lex.rs
@fn Lex::from_tokens
@spec
    requires forall|i: int| 0 <= i < tokens@.len() ==> supported((#[trigger] tokens@[i]).1),
    ensures lok(r), lex_of(r, tokens@), lex_names(r, tokens@),
@hint start
    let ghost ts = tokens@;
@loop 1
    invariant $s == ts, tok_nfas(ts, $acc@, $i),
@hint loop 1 end
    proof { reveal(tok_nfa); assert(tok_nfa(ts[$i - 1], $acc@[$i - 1])); }
@hint after let tokens_with_nfa 1
    let ghost v = tokens_with_nfa@;
    proof { nfas_fit(tokens_with_nfa); vec_len_max(tokens_with_nfa); tok_nfas_parts(ts, v); }
@loop 2
    invariant $s == refs::<(TokenDef, NFA)>(v), $acc@ =~= lens(v).take($i),
@hint loop 2 after
    proof { assert(lens(v).take($i) =~= lens(v)); }
@hint loop 3 before
    let ghost mut lex0 = lex_nfa;
    proof { tmap_0(v, tokens_map@); cat_0(v, lex_nfa); }
@loop 3
    invariant moved_up(v, tokens_with_nfa@, $n as int), state_offset == off(v, $n as int), edge_offset == eoff(v, $n as int), tmap(v, tokens_map@, $n as int),
@hint loop 3 start
    let ghost j = $n - 1;
    let ghost m0 = tokens_map@;
    proof { off_next(v, j); off_mono(v, j + 1, v.len() as int); off_mono(v, j, j); can_shift(v, j); tkey_in(v, j); }
@hint loop 4 before
    let ghost d0 = *nfa;
    proof { assert(d0 == v[j].1); assert(*tok == v[j].0); }
@loop 4
    invariant accs_of(d0, $s), *nfa == d0, *tok == v[j].0, tokens_map@ == (if $i == 0 { m0 } else { m0.insert(tkey(v, j), v[j].0) }),
@hint loop 4 start
    proof { accs_at(v, j, $s, $i - 1); }
@hint loop 4 end
    proof { assert(tokens_map@ =~= m0.insert(tkey(v, j), v[j].0)); }
@hint loop 4 after
    proof { accs_one(v, j, $s); tmap_step(v, m0, j); }
@hint loop 3 end
    proof { off_next(v, j); }
@hint loop 5 before
    let ghost v2 = tokens_with_nfa@;
@loop 5
    invariant $s == refs::<(TokenDef, NFA)>(v2), cat(v, lex_nfa, $i, 0, 0),
@hint loop 5 start
    let ghost h = $i - 1;
@loop 6
    invariant $s == refs::<State>(v2[h].1.states@), cat(v, lex_nfa, h, $i, 0),
@hint loop 6 start
    let ghost l0 = lex_nfa;
@hint loop 6 end
    proof { cat_state(v, l0, lex_nfa, h, $i - 1, 0); }
@loop 7
    invariant $s == refs::<Edge>(v2[h].1.edges@), cat(v, lex_nfa, h, v[h].1.states@.len() as int, $i),
@hint loop 7 start
    let ghost l0 = lex_nfa;
@hint loop 7 end
    proof { cat_edge(v, l0, lex_nfa, h, v[h].1.states@.len() as int, $i - 1); }
@hint loop 5 end
    proof { cat_next(v, lex_nfa, h); }
@hint loop 5 after
    let ghost a = lex_nfa;
    proof { comb_nwf(v, a); }
@hint end
    proof { lex_from(r__, ts, v, a); }
@fn Lex::new
@spec
    requires dshape(dfa),
    ensures r.dfa == dfa, acc_map(dfa, r.accepting_dfa_to_nfa@), r.tokens@ == pairs_map(tokens@, tokens@.len() as int),
@hint start
    let ghost ts = tokens@;
@loop 1
    invariant $s == ts, $acc@ =~= ts.take($i),
@hint loop 1 after
    proof { assert($acc@ =~= ts); }

@fn Token::new
@spec
    ensures r.name == name, r.val is None,
@fn Token::new_with_val
@spec
    ensures r.name == name, r.val matches Some(b) && val.into_ok(*b),
@fn Lex::is_whitespace
@spec
    ensures r == is_ws(c),
@fn Lex::make_tok
@spec
    requires self.tokens@.contains_key(last_accepting_state_idx), start <= end, end < input@.len(), end < usize::MAX,
    ensures tok_is(r, Cut { def: self.tokens@[last_accepting_state_idx], text: input@.subrange(start as int, end + 1) }),
@hint start
    proof { assert(input@.skip(start as int).take(end + 1 - start) =~= input@.subrange(start as int, end + 1)); }
@fn Lex::lex
@attr #[verifier::rlimit(100)]
@spec
    requires lok(*self),
    ensures toks_are(r@, cuts(*self, input@, 0)),
@hint loop 1 before
    let ghost w = input@;
    proof { assert(chars@ =~= w); vec_len_max(chars); linv_0(*self, w, tokens@); }
@loop 1
    invariant linv(*self, w, tokens@, lexeme_begin as int, forward as int, state_idx.0, last_accepting_state), chars@ == w, chars@.len() < usize::MAX,
    ensures toks_are(tokens@, cuts(*self, w, 0)),
    decreases w.len() - lexeme_begin, w.len() - forward,
@hint loop 1 start
    let ghost b0 = lexeme_begin as int;
    let ghost f0 = forward as int;
    let ghost s0 = state_idx;
    let ghost m0 = last_accepting_state;
    let ghost t0 = tokens@;
    proof { linv_in(*self, w, t0, b0, f0, s0.0, m0); if f0 < w.len() && self.dfa.states@[s0.0 as int].first_edge.none_v() { found_0(self.dfa, s0, w[f0]); } }
@loop 2
    invariant_except_break forall|k: int| 0 <= k < $i ==> !inr((#[trigger] $s[k]).label, c as int),
    invariant $s == dgroup(self.dfa.edges@, state_idx, self.dfa.states@[state_idx.0 as int].first_edge.val() as int),
    ensures match $res { Some(e) => 0 < $i && *e == *$s[$i - 1] && inr(e.label, c as int), None => forall|k: int| 0 <= k < $s.len() ==> !inr((#[trigger] $s[k]).label, c as int) },
@hint loop 2 after
    proof { found_in(self.dfa, state_idx, c, $s, $i, $res); }
@hint loop 1 break
    proof { linv_end(*self, w, t0, b0, f0, s0.0); }
@hint loop 1 after
    proof { if forward >= chars.len() && last_accepting_state is None { linv_end(*self, w, tokens@, lexeme_begin as int, forward as int, state_idx.0); } }
@hint loop 1 end
    proof {
        if f0 < w.len() && dnext(self.dfa, s0.0, w[f0]) is Some {
            linv_step(*self, w, t0, b0, f0, s0.0, m0, state_idx.0, last_accepting_state);
        } else if m0 is Some {
            let (i, x) = m0.unwrap();
            assert(tokens@ =~= t0.push(tokens@[t0.len() as int]));
            linv_tok(*self, w, t0, b0, f0, s0.0, i, x, tokens@[t0.len() as int]);
        } else {
            linv_ws(*self, w, t0, b0, s0.0);
        }
    }

@module lexgr = -
@text
// --- the terminals of a grammar as token definitions ---
/// a terminal with a text of its own
pub open spec fn is_text<'a>(s: Symbol<'a>) -> bool { s is StrLit || s is Regex }
pub open spec fn text_of<'a>(s: Symbol<'a>) -> Seq<char> { match s { Symbol::StrLit(t) => t@, Symbol::Regex(t) => t@, _ => Seq::empty() } }
/// the regex that stands for it
pub open spec fn sym_regex<'a>(s: Symbol<'a>) -> Option<RegexHir> { match s { Symbol::StrLit(t) => regex_of(escaped(t@)), Symbol::Regex(t) => regex_of(t@), _ => None } }
/// the definition of terminal `i`
pub open spec fn def_of<'a>(s: Symbol<'a>, i: u32, d: (TokenDef, RegexHir)) -> bool {
    &&& is_text(s) && d.0.name@ == text_of(s) && d.0.with_val && d.0.token_idx == Some(i)
    &&& sym_regex(s) == Some(d.1)
}
/// its regex is one the tool takes
pub open spec fn readable<'a>(s: Symbol<'a>) -> bool { s is Regex ==> (sym_regex(s) matches Some(h) && supported(h)) }
pub proof fn readable_all<'a>(s: Symbol<'a>) requires readable(s), is_text(s) ensures sym_regex(s) matches Some(h) && supported(h)
{ if let Symbol::StrLit(t) = s { escape_lit(t@); } }
/// the terminals before number `n`, in order
pub open spec fn texts<'a>(toks: Seq<Symbol<'a>>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else if is_text(toks[n - 1]) { texts(toks, n - 1).push(n - 1) } else { texts(toks, n - 1) } }
pub proof fn texts_in<'a>(toks: Seq<Symbol<'a>>, n: int)
    requires 0 <= n <= toks.len()
    ensures forall|j: int| 0 <= j < texts(toks, n).len() ==> 0 <= #[trigger] texts(toks, n)[j] < n && is_text(toks[texts(toks, n)[j]]),
        forall|i: int| 0 <= i < n && is_text(#[trigger] toks[i]) ==> texts(toks, n).contains(i),
    decreases n
{
    if n > 0 {
        texts_in(toks, n - 1);
        let a = texts(toks, n - 1);
        assert forall|i: int| 0 <= i < n && is_text(#[trigger] toks[i]) implies texts(toks, n).contains(i) by {
            if i == n - 1 { assert(texts(toks, n)[a.len() as int] == i); } else { let j = choose|j: int| 0 <= j < a.len() && a[j] == i; assert(texts(toks, n)[j] == i); }
        }
    }
}
/// one definition for each of them, in the same order
#[verifier::opaque]
pub open spec fn gdefs<'a>(toks: Seq<Symbol<'a>>, n: int, ts: Seq<(TokenDef, RegexHir)>) -> bool {
    ts.len() == texts(toks, n).len() && forall|j: int| 0 <= j < ts.len() ==> def_of(toks[texts(toks, n)[j]], texts(toks, n)[j] as u32, #[trigger] ts[j])
}
pub proof fn gdefs_0<'a>(toks: Seq<Symbol<'a>>, ts: Seq<(TokenDef, RegexHir)>) requires ts.len() == 0 ensures gdefs(toks, 0, ts) { reveal(gdefs); }
pub proof fn gdefs_skip<'a>(toks: Seq<Symbol<'a>>, n: int, ts: Seq<(TokenDef, RegexHir)>) requires gdefs(toks, n, ts), 0 <= n < toks.len(), !is_text(toks[n]) ensures gdefs(toks, n + 1, ts) { reveal(gdefs); }
pub proof fn gdefs_push<'a>(toks: Seq<Symbol<'a>>, n: int, ts: Seq<(TokenDef, RegexHir)>, d: (TokenDef, RegexHir))
    requires gdefs(toks, n, ts), 0 <= n < toks.len(), def_of(toks[n], n as u32, d) ensures gdefs(toks, n + 1, ts.push(d))
{ reveal(gdefs); }
pub proof fn gdefs_ok<'a>(toks: Seq<Symbol<'a>>, n: int, ts: Seq<(TokenDef, RegexHir)>)
    requires gdefs(toks, n, ts), 0 <= n <= toks.len(), forall|i: int| 0 <= i < toks.len() ==> readable(#[trigger] toks[i])
    ensures forall|j: int| 0 <= j < ts.len() ==> supported((#[trigger] ts[j]).1)
{
    reveal(gdefs); texts_in(toks, n);
    assert forall|j: int| 0 <= j < ts.len() implies supported((#[trigger] ts[j]).1) by { readable_all(toks[texts(toks, n)[j]]); }
}
/// the lexer's definitions are those of the grammar's terminals
pub open spec fn lex_gr<'a>(l: Lex, toks: Seq<Symbol<'a>>) -> bool { exists|ts: Seq<(TokenDef, RegexHir)>| #[trigger] gdefs(toks, toks.len() as int, ts) && lex_of(l, ts) && lex_names(l, ts) }
pub open spec fn readable_gr<'a>(g: Grammar<'a>) -> bool { forall|i: int| 0 <= i < g.tokens@.len() ==> readable(#[trigger] g.tokens@[i]) }

/// C14: every terminal has a definition that matches exactly what the terminal stands for, and every definition is of a terminal
pub open spec fn stands_for<'a>(s: Symbol<'a>, w: Seq<char>) -> bool { match s { Symbol::StrLit(t) => w == t@, Symbol::Regex(t) => lang(regex_of(t@).unwrap(), w), _ => false } }
pub proof fn defs_are_terminals<'a>(toks: Seq<Symbol<'a>>, ts: Seq<(TokenDef, RegexHir)>)
    requires gdefs(toks, toks.len() as int, ts), toks.len() <= u32::MAX
    ensures
        forall|i: int| 0 <= i < toks.len() && is_text(#[trigger] toks[i]) ==> exists|j: int| 0 <= j < ts.len() && (#[trigger] ts[j]).0.token_idx == Some(i as u32),
        forall|j: int| 0 <= j < ts.len() ==> def_ok(toks, #[trigger] ts[j]),
{
    reveal(gdefs); reveal(def_ok); texts_in(toks, toks.len() as int);
    let x = texts(toks, toks.len() as int);
    assert forall|i: int| 0 <= i < toks.len() && is_text(#[trigger] toks[i]) implies exists|j: int| 0 <= j < ts.len() && (#[trigger] ts[j]).0.token_idx == Some(i as u32) by {
        let j = choose|j: int| 0 <= j < x.len() && x[j] == i; assert(ts[j].0.token_idx == Some(i as u32));
    }
    assert forall|j: int| 0 <= j < ts.len() implies def_ok(toks, #[trigger] ts[j]) by {
        let s = toks[x[j]];
        if let Symbol::StrLit(t) = s { escape_lit(t@); }
    }
}
#[verifier::opaque]
pub open spec fn def_ok<'a>(toks: Seq<Symbol<'a>>, d: (TokenDef, RegexHir)) -> bool {
    d.0.token_idx matches Some(i) && i < toks.len() && is_text(toks[i as int]) && d.0.name@ == text_of(toks[i as int]) && d.0.with_val && forall|w: Seq<char>| lang(d.1, w) <==> #[trigger] stands_for(toks[i as int], w)
}

// --- tokens by name ---
/// one of the lexer's tokens is named so and has that index
pub open spec fn named_idx(l: Lex, name: Seq<char>, i: u32) -> bool { exists|x: StateIdx| #[trigger] l.tokens@.contains_key(x) && l.tokens@[x].name@ == name && l.tokens@[x].token_idx == Some(i) }
pub open spec fn known(l: Lex, name: Seq<char>) -> bool { exists|x: StateIdx| #[trigger] l.tokens@.contains_key(x) && l.tokens@[x].name@ == name }
pub open spec fn all_idx(l: Lex) -> bool { forall|x: StateIdx| #[trigger] l.tokens@.contains_key(x) ==> l.tokens@[x].token_idx is Some }
pub open spec fn all_known(l: Lex, ts: Seq<Token>) -> bool { forall|i: int| 0 <= i < ts.len() ==> known(l, (#[trigger] ts[i]).name@) }
pub open spec fn conv_at(l: Lex, t: Token, r: (Token, TokenIdx)) -> bool { r.0 == t && named_idx(l, t.name@, r.1.0) }
pub open spec fn conv_part(l: Lex, ts: Seq<Token>, r: Seq<(Token, TokenIdx)>, n: int) -> bool { r.len() == n && forall|i: int| 0 <= i < n ==> conv_at(l, ts[i], #[trigger] r[i]) }
/// the tokens with their indexes, then the end marker
pub open spec fn is_eof(t: (Token, TokenIdx)) -> bool { t.0.name@ == "EOF"@ && t.0.val is None && t.1.0 == 0 }
pub open spec fn conv_of(l: Lex, ts: Seq<Token>, r: Seq<(Token, TokenIdx)>) -> bool { r.len() == ts.len() + 1 && (forall|i: int| 0 <= i < ts.len() ==> conv_at(l, ts[i], #[trigger] r[i])) && is_eof(r[ts.len() as int]) }
/// the definitions by name
#[verifier::opaque]
pub open spec fn by_name<'a, 'b>(l: Lex, m: Map<Str<'a>, &'b TokenDef>, s: Seq<(&'b StateIdx, &'b TokenDef)>, n: int) -> bool {
    &&& forall|k: Str<'a>| #[trigger] m.contains_key(k) ==> m[k].name@ == k@ && exists|x: StateIdx| #[trigger] l.tokens@.contains_key(x) && l.tokens@[x] == *m[k]
    &&& forall|i: int| 0 <= i < n ==> has_name(m, (#[trigger] s[i]).1.name@)
}
pub open spec fn has_name<'a, 'b>(m: Map<Str<'a>, &'b TokenDef>, name: Seq<char>) -> bool { exists|k: Str<'a>| #[trigger] m.contains_key(k) && k@ == name }
pub proof fn by_name_0<'a, 'b>(l: Lex, m: Map<Str<'a>, &'b TokenDef>, s: Seq<(&'b StateIdx, &'b TokenDef)>) requires m == Map::<Str<'a>, &'b TokenDef>::empty() ensures by_name(l, m, s, 0) { reveal(by_name); }
pub proof fn by_name_step<'a, 'b>(l: Lex, m: Map<Str<'a>, &'b TokenDef>, s: Seq<(&'b StateIdx, &'b TokenDef)>, n: int, k: Str<'a>, m2: Map<Str<'a>, &'b TokenDef>)
    requires by_name(l, m, s, n), map_refs(s, l.tokens@), 0 <= n < s.len(), k@ == s[n].1.name@, m2 =~= m.insert(k, s[n].1) ensures by_name(l, m2, s, n + 1)
{
    reveal(by_name);
    assert(l.tokens@.contains_key(*s[n].0));
    assert forall|q: Str<'a>| #[trigger] m2.contains_key(q) implies m2[q].name@ == q@ && exists|x: StateIdx| #[trigger] l.tokens@.contains_key(x) && l.tokens@[x] == *m2[q] by { if q != k { assert(m.contains_key(q)); } }
    assert forall|i: int| 0 <= i < n + 1 implies has_name(m2, (#[trigger] s[i]).1.name@) by {
        if i < n { assert(has_name(m, s[i].1.name@)); let q = choose|q: Str<'a>| #[trigger] m.contains_key(q) && q@ == s[i].1.name@; assert(m2.contains_key(q)); } else { assert(m2.contains_key(k)); }
    }
}
pub proof fn by_name_put<'a, 'b>(l: Lex, m: Map<Str<'a>, &'b TokenDef>, s: Seq<(&'b StateIdx, &'b TokenDef)>, n: int, m2: Map<Str<'a>, &'b TokenDef>)
    requires by_name(l, m, s, n), map_refs(s, l.tokens@), 0 <= n < s.len(), exists|k: Str<'a>| k@ == s[n].1.name@ && m2 == #[trigger] m.insert(k, s[n].1) ensures by_name(l, m2, s, n + 1)
{ let k = choose|k: Str<'a>| k@ == s[n].1.name@ && m2 == #[trigger] m.insert(k, s[n].1); by_name_step(l, m, s, n, k, m2); }
/// what is known has an entry
pub proof fn by_name_known<'a, 'b>(l: Lex, m: Map<Str<'a>, &'b TokenDef>, s: Seq<(&'b StateIdx, &'b TokenDef)>, name: Seq<char>)
    requires by_name(l, m, s, s.len() as int), map_refs(s, l.tokens@), known(l, name), all_idx(l)
    ensures has_name(m, name), forall|k: Str<'a>| #[trigger] m.contains_key(k) && k@ == name ==> m[k].token_idx is Some && named_idx(l, name, m[k].token_idx.unwrap())
{
    reveal(by_name);
    let x = choose|x: StateIdx| #[trigger] l.tokens@.contains_key(x) && l.tokens@[x].name@ == name;
    let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == x;
    assert(has_name(m, s[i].1.name@));
    assert forall|k: Str<'a>| #[trigger] m.contains_key(k) && k@ == name implies m[k].token_idx is Some && named_idx(l, name, m[k].token_idx.unwrap()) by {
        let y = choose|y: StateIdx| #[trigger] l.tokens@.contains_key(y) && l.tokens@[y] == *m[k];
    }
}

@module symdef = parser/mod.rs
@fn Symbol::to_token_def_with_regex
@spec
    requires readable(*self),
    ensures match r { Some(d) => def_of(*self, token_idx.0, d), None => !is_text(*self) },
@hint start
    proof { if is_text(*self) { readable_all(*self); } }
@fn Symbol::to_token_def
@spec
    ensures match r { Some(d) => is_text(*self) && d.name@ == text_of(*self) && d.with_val && d.token_idx == Some(token_idx.0), None => !is_text(*self) },

@module lexconv = lex/lex.rs
@fn TokenDef::to_token
@spec
    ensures r.name == self.name, r.val is None,
@fn Lex::from_grammar
@spec
    requires readable_gr(*grammar),
    ensures lok(r), lex_gr(r, grammar.tokens@),
@hint loop 1 before
    proof { gdefs_0(grammar.tokens@, tokens@); }
@loop 1
    invariant $s.len() == grammar.tokens@.len(), forall|k: int| 0 <= k < $s.len() ==> #[trigger] $s[k] == (k as usize, &grammar.tokens@[k]), gdefs(grammar.tokens@, $i, tokens@), readable_gr(*grammar),
@hint loop 1 start
    let ghost t0 = tokens@;
    proof { assert(readable(grammar.tokens@[$i - 1])); }
@hint loop 1 end
    proof {
        if is_text(grammar.tokens@[$i - 1]) { assert(tokens@ =~= t0.push(tokens@[t0.len() as int])); gdefs_push(grammar.tokens@, $i - 1, t0, tokens@[t0.len() as int]); }
        else { gdefs_skip(grammar.tokens@, $i - 1, t0); }
    }
@hint loop 1 after
    let ghost ts = tokens@;
    proof { gdefs_ok(grammar.tokens@, grammar.tokens@.len() as int, ts); }
@fn Lex::token_with_idx
@spec
    requires has_name(def_map@, token.name@), forall|k: Str<'_>| #[trigger] def_map@.contains_key(k) && k@ == token.name@ ==> def_map@[k].token_idx is Some,
    ensures r.0 == token, exists|k: Str<'_>| #[trigger] def_map@.contains_key(k) && k@ == token.name@ && def_map@[k].token_idx == Some(r.1.0),
@hint start
    broadcast use str_ext;
@fn Lex::convert_tokens
@spec
    requires all_idx(*self), all_known(*self, tokens@),
    ensures conv_of(*self, tokens@, r@),
@hint start
    let ghost ts = tokens@;
@hint loop 1 before
    proof { by_name_0(*self, $acc@, $s); }
@loop 1
    invariant map_refs($s, self.tokens@), by_name(*self, $acc@, $s, $i),
@hint loop 1 start
    let ghost m0 = $acc@;
@hint loop 1 end
    proof { by_name_put(*self, m0, $s, $i - 1, $acc@); }
@hint loop 1 after
    let ghost defs = $s;
@loop 2
    invariant $s == ts, conv_part(*self, ts, $acc@, $i),
@hint loop 2 start
    proof { assert(known(*self, ts[$i - 1].name@)); by_name_known(*self, def_map@, defs, ts[$i - 1].name@); }

@module lalrcp = -
@text
// --- from text to parser input ---
pub open spec fn distinct_texts<'a>(g: Grammar<'a>) -> bool { forall|i: int, j: int| 0 <= i < g.tokens@.len() && 0 <= j < g.tokens@.len() && is_text(#[trigger] g.tokens@[i]) && is_text(#[trigger] g.tokens@[j]) && text_of(g.tokens@[i]) == text_of(g.tokens@[j]) ==> i == j }
/// the parser of a grammar
#[verifier::opaque]
pub open spec fn lalr_of<'a>(l: Lalr<'a>) -> bool { parser_ok(l) && lok(l.lexer) && lex_gr(l.lexer, l.grammar.tokens@) }
/// the lexed tokens, each with the index of the terminal that matched it, then the end marker
pub open spec fn fed<'a>(l: Lalr<'a>, w: Seq<char>, ts: Seq<(Token, TokenIdx)>) -> bool {
    let c = cuts(l.lexer, w, 0);
    &&& ts.len() == c.len() + 1 && is_eof(ts[c.len() as int])
    &&& forall|i: int| 0 <= i < c.len() ==> fed_at(l.grammar, c[i], #[trigger] ts[i])
}
pub open spec fn fed_at<'a>(g: Grammar<'a>, c: Cut, t: (Token, TokenIdx)) -> bool { tok_is(t.0, c) && c.def.token_idx == Some(t.1.0) && t.1.0 < g.tokens@.len() && is_text(g.tokens@[t.1.0 as int]) && stands_for(g.tokens@[t.1.0 as int], c.text) }
/// a lexeme is a match of one of the definitions
#[verifier::opaque]
pub open spec fn cut_ok(ts: Seq<(TokenDef, RegexHir)>, c: Cut) -> bool { exists|j: int| 0 <= j < ts.len() && c.def == (#[trigger] ts[j]).0 && lang(ts[j].1, c.text) }
pub open spec fn all_cuts_ok(ts: Seq<(TokenDef, RegexHir)>, c: Seq<Cut>) -> bool { forall|i: int| 0 <= i < c.len() ==> cut_ok(ts, #[trigger] c[i]) }
pub proof fn cut_def(ts: Seq<(TokenDef, RegexHir)>, c: Cut) -> (j: int) requires cut_ok(ts, c) ensures 0 <= j < ts.len(), c.def == ts[j].0, lang(ts[j].1, c.text)
{ reveal(cut_ok); choose|j: int| 0 <= j < ts.len() && c.def == (#[trigger] ts[j]).0 && lang(ts[j].1, c.text) }
proof fn a_cut_ok(l: Lex, ts: Seq<(TokenDef, RegexHir)>, r: Seq<char>, n: int)
    requires lex_of(l, ts), n == longest(l, r, r.len() as int), 0 < n <= r.len() ensures cut_ok(ts, a_cut(l, r.take(n)))
{
    longest_in(l, r, r.len() as int);
    cut_by_defs(l, ts, r, r.len() as int);
    reveal(lex_of); reveal(cut_ok);
    assert(lex_at(l, ts, r.take(n)));
    pick_in(ts, r.take(n), 0);
    let c = a_cut(l, r.take(n));
    let k = pick(ts, r.take(n), 0);
    assert(0 <= k < ts.len() && c.def == ts[k].0 && lang(ts[k].1, c.text));
}
pub proof fn cuts_ok(l: Lex, ts: Seq<(TokenDef, RegexHir)>, w: Seq<char>, p: int)
    requires lex_of(l, ts) ensures all_cuts_ok(ts, cuts(l, w, p)) decreases w.len() - p
{
    if 0 <= p < w.len() {
        let r = w.skip(p);
        let n = longest(l, r, r.len() as int);
        if 0 < n <= r.len() { cuts_ok(l, ts, w, p + n); a_cut_ok(l, ts, r, n); }
        else if is_ws(w[p]) && drun(l.dfa, r.take(1)) is None { cuts_ok(l, ts, w, p + 1); }
    }
}
pub open spec fn defs_ok<'a>(toks: Seq<Symbol<'a>>, ts: Seq<(TokenDef, RegexHir)>) -> bool { forall|j: int| 0 <= j < ts.len() ==> def_ok(toks, #[trigger] ts[j]) }
/// the definitions behind the lexer
pub proof fn lalr_defs<'a>(l: Lalr<'a>) -> (ts: Seq<(TokenDef, RegexHir)>)
    requires lalr_of(l) ensures lex_of(l.lexer, ts), lex_names(l.lexer, ts), defs_ok(l.grammar.tokens@, ts), lok(l.lexer), parser_ok(l)
{
    reveal(lalr_of); reveal(parser_ok); reveal(pctx); reveal(gctx); reveal(tokens_ok);
    let g = l.grammar.tokens@;
    let ts = choose|ts: Seq<(TokenDef, RegexHir)>| #[trigger] gdefs(g, g.len() as int, ts) && lex_of(l.lexer, ts) && lex_names(l.lexer, ts);
    defs_are_terminals(g, ts);
    ts
}
proof fn name_def(l: Lex, ts: Seq<(TokenDef, RegexHir)>, x: StateIdx) -> (k: int) requires lex_names(l, ts), l.tokens@.contains_key(x) ensures 0 <= k < ts.len(), l.tokens@[x] == ts[k].0
{ reveal(lex_names); choose|i: int| 0 <= i < ts.len() && l.tokens@[x] == (#[trigger] ts[i]).0 }
proof fn def_name(l: Lex, ts: Seq<(TokenDef, RegexHir)>, j: int) -> (x: StateIdx) requires lex_names(l, ts), 0 <= j < ts.len() ensures l.tokens@.contains_key(x), l.tokens@[x] == ts[j].0
{ reveal(lex_names); choose|x: StateIdx| #[trigger] l.tokens@.contains_key(x) && l.tokens@[x] == (#[trigger] ts[j]).0 }
pub proof fn all_known_of<'a>(l: Lalr<'a>, w: Seq<char>, t: Seq<Token>)
    requires lalr_of(l), toks_are(t, cuts(l.lexer, w, 0)) ensures all_idx(l.lexer), all_known(l.lexer, t)
{
    let ts = lalr_defs(l);
    assert forall|x: StateIdx| #[trigger] l.lexer.tokens@.contains_key(x) implies l.lexer.tokens@[x].token_idx is Some by { let i = name_def(l.lexer, ts, x); assert(def_ok(l.grammar.tokens@, ts[i])); reveal(def_ok); }
    cuts_ok(l.lexer, ts, w, 0);
    let c = cuts(l.lexer, w, 0);
    assert forall|i: int| 0 <= i < t.len() implies known(l.lexer, (#[trigger] t[i]).name@) by {
        assert(tok_is(t[i], c[i]));
        let j = cut_def(ts, c[i]);
        let x = def_name(l.lexer, ts, j);
        assert(l.lexer.tokens@.contains_key(x) && l.lexer.tokens@[x].name@ == t[i].name@);
    }
}
/// the index found by name is that of the terminal that matched
proof fn fed_one<'a>(l: Lalr<'a>, ts: Seq<(TokenDef, RegexHir)>, c: Cut, t: Token, r: (Token, TokenIdx))
    requires lex_names(l.lexer, ts), defs_ok(l.grammar.tokens@, ts), cut_ok(ts, c), tok_is(t, c), conv_at(l.lexer, t, r), distinct_texts(l.grammar) ensures fed_at(l.grammar, c, r)
{
    let g = l.grammar.tokens@;
    let j = cut_def(ts, c);
    let x = choose|x: StateIdx| #[trigger] l.lexer.tokens@.contains_key(x) && l.lexer.tokens@[x].name@ == t.name@ && l.lexer.tokens@[x].token_idx == Some(r.1.0);
    let k = name_def(l.lexer, ts, x);
    assert(def_ok(g, ts[j])); assert(def_ok(g, ts[k]));
    reveal(def_ok);
    let a = ts[j].0.token_idx.unwrap() as int; let b = ts[k].0.token_idx.unwrap() as int;
    assert(text_of(g[a]) == text_of(g[b]) && is_text(g[a]) && is_text(g[b]));
    assert(a == b);
    assert(stands_for(g[a], c.text));
}
pub proof fn fed_of<'a>(l: Lalr<'a>, w: Seq<char>, t: Seq<Token>, r: Seq<(Token, TokenIdx)>)
    requires lalr_of(l), distinct_texts(l.grammar), toks_are(t, cuts(l.lexer, w, 0)), conv_of(l.lexer, t, r)
    ensures fed(l, w, r), input_ok(l.grammar, r), parser_ok(l)
{
    let g = l.grammar.tokens@;
    let ts = lalr_defs(l);
    cuts_ok(l.lexer, ts, w, 0);
    let c = cuts(l.lexer, w, 0);
    assert forall|i: int| 0 <= i < c.len() implies fed_at(l.grammar, c[i], #[trigger] r[i]) by { assert(tok_is(t[i], c[i])); assert(conv_at(l.lexer, t[i], r[i])); fed_one(l, ts, c[i], t[i], r[i]); }
    assert(g[0] == Symbol::<'a>::Eof) by { reveal(parser_ok); reveal(pctx); reveal(gctx); reveal(tokens_ok); }
    reveal(input_ok);
    assert forall|k: int| 0 <= k < r.len() - 1 implies 0 < (#[trigger] r[k]).1.0 < g.len() && !(g[r[k].1.0 as int] is NonTerminal) by { assert(fed_at(l.grammar, c[k], r[k])); }
}
pub proof fn lalr_lok<'a>(l: Lalr<'a>) requires lalr_of(l) ensures lok(l.lexer) { reveal(lalr_of); }

@module lalrc = lalr.rs
@fn Lalr::new
@spec
    requires gctx(grammar), no_digest_clash(grammar), readable_gr(grammar),
    ensures r.grammar == grammar, made(grammar, r.states@), tables_ok(grammar, r.states@, r.action, r.goto), lok(r.lexer), lex_gr(r.lexer, grammar.tokens@), pctx(grammar) ==> lalr_of(r),
@hint end
    proof { reveal(lalr_of); reveal(parser_ok); }
@fn Lalr::parse
@spec
    requires lalr_of(*self), distinct_texts(self.grammar),
    ensures exists|ts: Seq<(Token, TokenIdx)>| #[trigger] fed(*self, input@, ts) && sentence(self.grammar, ts),
@hint start
    proof { lalr_lok(*self); }
@hint after let tokens 1
    let ghost t = tokens@;
    proof { all_known_of(*self, input@, t); }
@hint after let tokens_with_idx 1
    proof { fed_of(*self, input@, t, tokens_with_idx@); }
