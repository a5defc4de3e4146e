@module escs = -
@text
// --- C15, C16, C17: text between quotes ---
pub open spec fn esc1(c: char) -> Seq<char> {
    if c == '\\' { "\\\\"@ } else if c == '"' { "\\\""@ } else if c == '\'' { "\\'"@ } else if c == '\n' { "\\n"@ } else if c == '\r' { "\\r"@ } else { seq![c] }
}
pub open spec fn escaped_n(s: Seq<char>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { escaped_n(s, n - 1) + esc1(s[n - 1]) } }
pub open spec fn esc_text(s: Seq<char>) -> Seq<char> { escaped_n(s, s.len() as int) }
/// the character a backslash and `c` stand for between quotes
pub open spec fn esc_of(c: char) -> char { if c == 'n' { '\n' } else if c == 'r' { '\r' } else { c } }
/// what the text between two quotes (of either kind) denotes, if it ends nowhere before
pub open spec fn ts_read(t: Seq<char>) -> Option<Seq<char>> decreases t.len() {
    if t.len() == 0 { Some(Seq::empty()) }
    else if t[0] == '\\' {
        if t.len() < 2 || !(t[1] == '\\' || t[1] == '"' || t[1] == '\'' || t[1] == 'n' || t[1] == 'r') { None }
        else { match ts_read(t.skip(2)) { Some(r) => Some(seq![esc_of(t[1])] + r), None => None } }
    }
    else if t[0] == '"' || t[0] == '\'' || t[0] == '\n' || t[0] == '\r' { None }
    else { match ts_read(t.skip(1)) { Some(r) => Some(seq![t[0]] + r), None => None } }
}
pub proof fn ts_read_1(c: char, u: Seq<char>)
    ensures ts_read(esc1(c) + u) == (match ts_read(u) { Some(r) => Some(seq![c] + r), None => None })
{
    reveal_strlit("\\\\"); reveal_strlit("\\\""); reveal_strlit("\\'"); reveal_strlit("\\n"); reveal_strlit("\\r");
    let t = esc1(c) + u;
    if esc1(c).len() == 2 { assert(t.skip(2) =~= u); assert(esc_of(t[1]) == c); } else { assert(esc1(c) == seq![c]); assert(t.skip(1) =~= u); assert(t[0] == c); }
}
/// the escaped text is a literal that denotes the text
pub proof fn esc_read_n(s: Seq<char>, n: int, u: Seq<char>)
    requires 0 <= n <= s.len()
    ensures ts_read(escaped_n(s, n) + u) == (match ts_read(u) { Some(r) => Some(s.take(n) + r), None => None })
    decreases n
{
    if n == 0 { assert(escaped_n(s, 0) + u =~= u); if ts_read(u) is Some { assert(s.take(0) + ts_read(u).unwrap() =~= ts_read(u).unwrap()); } } else {
        let c = s[n - 1];
        assert(escaped_n(s, n) + u =~= escaped_n(s, n - 1) + (esc1(c) + u));
        ts_read_1(c, u);
        esc_read_n(s, n - 1, esc1(c) + u);
        if ts_read(u) is Some { let r = ts_read(u).unwrap(); assert(s.take(n - 1) + (seq![c] + r) =~= s.take(n) + r); }
    }
}
pub proof fn esc_read(s: Seq<char>) ensures ts_read(esc_text(s)) == Some(s)
{
    esc_read_n(s, s.len() as int, Seq::empty());
    assert(esc_text(s) + Seq::<char>::empty() =~= esc_text(s));
    assert(s.take(s.len() as int) + Seq::<char>::empty() =~= s);
}

@module gen_esc = codegen.rs
@fn escape_ts_str
@spec
    ensures r@ == esc_text(s@), ts_read(r@) == Some(s@),
@loop 1
    invariant $s == s@, ret@ == escaped_n(s@, $i),
@hint loop 1 end
    proof {
        reveal_strlit("\\\\"); reveal_strlit("\\\""); reveal_strlit("\\'"); reveal_strlit("\\n"); reveal_strlit("\\r");
        assert(ret@ =~= escaped_n(s@, $i - 1) + esc1(s@[$i - 1]));
    }
@hint end
    proof { esc_read(s@); }

@module gen_lexs = -
@text
// --- C15: what the generated lexer declares ---
/// the entries of a map by increasing key
pub open spec fn entries<'a, K, V>(m: Map<K, V>) -> Seq<(&'a K, &'a V)> { choose|s: Seq<(&'a K, &'a V)>| map_refs(s, m) }
pub open spec fn elems_by_order<'a, T>(x: Set<T>) -> Seq<&'a T> { choose|s: Seq<&'a T>| enum_refs(s, x) && sorted_refs(s) }
pub proof fn refs_unique<'a, T>(s: Seq<&'a T>, t: Seq<&'a T>, x: Set<T>, n: int)
    requires enum_refs(s, x), sorted_refs(s), enum_refs(t, x), sorted_refs(t), 0 <= n <= s.len()
    ensures s.len() == t.len(), s.take(n) =~= t.take(n) decreases n
{
    if n > 0 {
        refs_unique(s, t, x, n - 1);
        let i = n - 1;
        assert forall|j: int| 0 <= j < i implies *(#[trigger] s[j]) == *t[j] by { assert(s.take(i)[j] == t.take(i)[j]); }
        let k = ref_at(t, x, *s[i]);
        let h = ref_at(s, x, *t[i]);
        assert(k >= i) by { if k < i { assert(*s[k] == *t[k]); assert(*s[k] != *s[i]); } }
        assert(h >= i) by { if h < i { assert(*s[h] == *t[h]); assert(*t[h] != *t[i]); } }
        if k > i {
            assert(vlt(*t[i], *t[k]));
            if h > i { assert(vlt(*s[i], *s[h])); vlt_asym(*s[i], *t[i]); }
            assert(false);
        }
        assert(*s[i] == *t[i]);
        assert forall|j: int| 0 <= j < n implies s.take(n)[j] == t.take(n)[j] by { assert(s[j] == s.take(n)[j]); if j < i { assert(*s[j] == *t[j]); } }
    }
}
pub proof fn ref_at<'a, T>(s: Seq<&'a T>, x: Set<T>, v: T) -> (i: int) requires enum_refs(s, x), x.contains(v) ensures 0 <= i < s.len(), *s[i] == v
{ choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == v }
pub proof fn elems_are<'a, T>(s: Seq<&'a T>, x: Set<T>) requires enum_refs(s, x), sorted_refs(s) ensures s == elems_by_order::<T>(x)
{
    let t = elems_by_order::<T>(x);
    refs_unique(s, t, x, s.len() as int);
    assert(s.take(s.len() as int) =~= s); assert(t.take(t.len() as int) =~= t);
}
pub open spec fn ent_keys<'a, K, V>(s: Seq<(&'a K, &'a V)>) -> Seq<&'a K> { Seq::new(s.len(), |i: int| s[i].0) }
pub proof fn keys_enum<'a, K, V>(s: Seq<(&'a K, &'a V)>, m: Map<K, V>) requires map_refs(s, m) ensures enum_refs(ent_keys(s), m.dom()), sorted_refs(ent_keys(s))
{
    let k = ent_keys(s);
    assert forall|i: int| 0 <= i < k.len() implies m.dom().contains(*(#[trigger] k[i])) by { assert(m.contains_key(*s[i].0)); }
    assert forall|i: int, j: int| 0 <= i < j < k.len() implies *(#[trigger] k[i]) != *(#[trigger] k[j]) by { assert(*s[i].0 != *s[j].0); }
    assert forall|i: int, j: int| 0 <= i < j < k.len() implies vlt(*(#[trigger] k[i]), *(#[trigger] k[j])) by { assert(*s[i].0 != *s[j].0 && vlt(*s[i].0, *s[j].0)); }
    assert forall|v: K| #[trigger] m.dom().contains(v) implies exists|i: int| 0 <= i < k.len() && *(#[trigger] k[i]) == v by {
        assert(m.contains_key(v));
        let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == v;
        assert(*k[i] == v);
    }
}
pub proof fn entries_are<'a, K, V>(s: Seq<(&'a K, &'a V)>, m: Map<K, V>) requires map_refs(s, m) ensures s == entries::<K, V>(m)
{
    let t = entries::<K, V>(m);
    keys_enum(s, m); keys_enum(t, m);
    refs_unique(ent_keys(s), ent_keys(t), m.dom(), s.len() as int);
    assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by {
        assert(ent_keys(s).take(s.len() as int)[i] == ent_keys(t).take(s.len() as int)[i]);
        assert(s[i].0 == ent_keys(s)[i] && t[i].0 == ent_keys(t)[i]);
        assert(*s[i].1 == m[*s[i].0]); assert(*t[i].1 == m[*t[i].0]);
    }
    assert(s =~= t);
}
/// the transitions from `x`, in their order
pub open spec fn from_state<'a>(es: Seq<DEdge>, x: StateIdx, n: int) -> Seq<&'a DEdge> decreases n {
    if n <= 0 { Seq::empty() } else if es[n - 1].from == x { from_state(es, x, n - 1).push(&es[n - 1]) } else { from_state(es, x, n - 1) }
}
pub proof fn from_none<'a>(es: Seq<DEdge>, x: StateIdx, n: int) requires forall|q: int| 0 <= q < n ==> (#[trigger] es[q]).from != x, n <= es.len() ensures from_state::<'a>(es, x, n) =~= Seq::<&'a DEdge>::empty() decreases n
{ if n > 0 { from_none(es, x, n - 1); } }
pub proof fn from_group<'a>(d: DFA, x: StateIdx, n: int)
    requires dshape(d), x.0 < d.states@.len(), !d.states@[x.0 as int].first_edge.none_v(), 0 <= n <= d.edges@.len()
    ensures ({ let f = d.states@[x.0 as int].first_edge.val() as int; let g = dgroup::<'a>(d.edges@, x, f);
        from_state::<'a>(d.edges@, x, n) =~= g.take(if n < f { 0 } else if n - f < g.len() { n - f } else { g.len() as int }) })
    decreases n
{
    dgroup_all(d, x);
    let f = d.states@[x.0 as int].first_edge.val() as int; let g = dgroup::<'a>(d.edges@, x, f);
    if n > 0 {
        from_group(d, x, n - 1);
        if f <= n - 1 < f + g.len() { let k = n - 1 - f; assert(*g[k] == d.edges@[f + k]); }
    }
}
pub open spec fn all_from<'a>(d: DFA, x: StateIdx) -> Seq<&'a DEdge> { from_state(d.edges@, x, d.edges@.len() as int) }
pub proof fn edges_given<'a>(d: DFA, x: StateIdx)
    requires dshape(d), x.0 < d.states@.len()
    ensures all_from::<'a>(d, x) == (if d.states@[x.0 as int].first_edge.none_v() { Seq::<&'a DEdge>::empty() } else { dgroup::<'a>(d.edges@, x, d.states@[x.0 as int].first_edge.val() as int) })
{
    dgroup_all(d, x);
    if d.states@[x.0 as int].first_edge.none_v() { from_none(d.edges@, x, d.edges@.len() as int); } else {
        from_group(d, x, d.edges@.len() as int);
        let g = dgroup::<'a>(d.edges@, x, d.states@[x.0 as int].first_edge.val() as int);
        assert(g.take(g.len() as int) =~= g);
    }
}
pub open spec fn label_of(e: &DEdge) -> (usize, Match) { (e.to.0, e.label) }
pub open spec fn lex_labels<'a>(s: Seq<&'a DEdge>) -> Seq<(usize, Match)> { Seq::new(s.len(), |i: int| label_of(s[i])) }
/// the state has the transitions of `x`, and is accepting if it is
pub open spec fn lstate_of(d: DFA, x: StateIdx, st: LexState) -> bool { st.labels@ == lex_labels(all_from(d, x)) && st.accepting == dacc(d, x) }
#[verifier::opaque]
pub open spec fn states_of(d: DFA, v: Seq<LexState>, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> lstate_of(d, StateIdx(i as usize), #[trigger] v[i]) }
pub proof fn states_of_0(d: DFA, v: Seq<LexState>) requires v.len() == 0 ensures states_of(d, v, 0) { reveal(states_of); }
pub proof fn states_of_step(d: DFA, v: Seq<LexState>, n: int) requires v.len() > 0, n > 0, states_of(d, v.drop_last(), n - 1), lstate_of(d, StateIdx((n - 1) as usize), v.last()) ensures states_of(d, v, n)
{ reveal(states_of); assert(v[v.len() - 1] == v.last()); assert forall|i: int| 0 <= i < n implies lstate_of(d, StateIdx(i as usize), #[trigger] v[i]) by { if i < n - 1 { assert(v.drop_last()[i] == v[i]); } } }

/// state `s` stands for the accepting original state `k`
pub open spec fn stands(d: DFA, s: int, k: StateIdx) -> bool {
    d.dfa_to_nfa@.contains_key(StateIdx(s as usize)) && d.dfa_to_nfa@[StateIdx(s as usize)]@.contains(k) && d.accepting_states@.contains(k)
}
pub open spec fn stands_upto(d: DFA, n: int, k: StateIdx) -> bool { exists|s: int| 0 <= s < n && #[trigger] stands(d, s, k) }
/// a token of the lexer of which a state stands for the accepting state
pub open spec fn kind_known(l: Lex, k: StateIdx) -> bool { l.tokens@.contains_key(k) && stands_upto(l.dfa, l.dfa.states@.len() as int, k) }
pub open spec fn kind_val(l: Lex, k: StateIdx, v: (Str, bool)) -> bool { v.0@ == l.tokens@[k].name@ && v.1 == l.tokens@[k].with_val }
pub open spec fn tk_good<'a>(l: Lex, p: (usize, (Str<'a>, bool))) -> bool { kind_known(l, StateIdx(p.0)) && kind_val(l, StateIdx(p.0), p.1) }
pub open spec fn tk_seen<V>(v: Seq<(usize, V)>, k: usize) -> bool { exists|q: int| 0 <= q < v.len() && (#[trigger] v[q]).0 == k }
pub open spec fn tk_row<'a>(l: Lex, m: Map<usize, (Str<'a>, bool)>, k: usize) -> bool {
    m.contains_key(k) == kind_known(l, StateIdx(k)) && (m.contains_key(k) ==> kind_val(l, StateIdx(k), m[k]))
}
#[verifier::opaque]
pub open spec fn tk_all<'a>(l: Lex, m: Map<usize, (Str<'a>, bool)>) -> bool { forall|k: usize| #[trigger] tk_row(l, m, k) }
#[verifier::opaque]
pub open spec fn tk_sound<'a>(l: Lex, v: Seq<(usize, (Str<'a>, bool))>) -> bool { forall|q: int| 0 <= q < v.len() ==> tk_good(l, #[trigger] v[q]) }
#[verifier::opaque]
pub open spec fn tk_outer<'a, 'b>(l: Lex, s: Seq<(&'b StateIdx, &'b TokenDef)>, n: int, v: Seq<(usize, (Str<'a>, bool))>) -> bool {
    tk_sound(l, v) && forall|j: int| 0 <= j < n ==> (kind_known(l, *(#[trigger] s[j]).0) ==> tk_seen(v, s[j].0.0))
}
#[verifier::opaque]
pub open spec fn tk_inner<'a, 'b>(l: Lex, s: Seq<(&'b StateIdx, &'b TokenDef)>, n: int, m: int, v: Seq<(usize, (Str<'a>, bool))>) -> bool {
    tk_outer(l, s, n - 1, v) && (stands_upto(l.dfa, m, *s[n - 1].0) ==> tk_seen(v, s[n - 1].0.0))
}
pub proof fn tk_outer_0<'a, 'b>(l: Lex, s: Seq<(&'b StateIdx, &'b TokenDef)>, v: Seq<(usize, (Str<'a>, bool))>) requires v.len() == 0 ensures tk_outer(l, s, 0, v) { reveal(tk_outer); reveal(tk_sound); }
pub proof fn tk_inner_0<'a, 'b>(l: Lex, s: Seq<(&'b StateIdx, &'b TokenDef)>, n: int, v: Seq<(usize, (Str<'a>, bool))>) requires tk_outer(l, s, n - 1, v) ensures tk_inner(l, s, n, 0, v) { reveal(tk_inner); }
pub proof fn tk_inner_end<'a, 'b>(l: Lex, s: Seq<(&'b StateIdx, &'b TokenDef)>, n: int, v: Seq<(usize, (Str<'a>, bool))>) requires 0 < n <= s.len(), tk_inner(l, s, n, l.dfa.states@.len() as int, v) ensures tk_outer(l, s, n, v)
{ reveal(tk_inner); reveal(tk_outer); }
pub open spec fn tk_listed(l: Lex, s: int, k: StateIdx) -> bool { let m = l.accepting_dfa_to_nfa@; let x = StateIdx(s as usize); m.contains_key(x) && m[x]@.contains(k) }
/// the list of accepting original states has those the state stands for
pub proof fn tk_listed_is(l: Lex, s: int, k: StateIdx) requires lok(l), 0 <= s <= usize::MAX ensures tk_listed(l, s, k) == stands(l.dfa, s, k)
{
    reveal(lok); reveal(acc_map); reveal(dacc);
    let x = StateIdx(s as usize);
    assert(acc_at(l.dfa, l.accepting_dfa_to_nfa@, x));
    if stands(l.dfa, s, k) { assert(dacc(l.dfa, x)); }
}
pub proof fn tk_inner_step<'a, 'b>(l: Lex, s: Seq<(&'b StateIdx, &'b TokenDef)>, n: int, m: int, v0: Seq<(usize, (Str<'a>, bool))>, v: Seq<(usize, (Str<'a>, bool))>)
    requires lok(l), map_refs(s, l.tokens@), 0 < n <= s.len(), 0 < m <= l.dfa.states@.len(), l.dfa.states@.len() <= usize::MAX, tk_inner(l, s, n, m - 1, v0),
        if tk_listed(l, m - 1, *s[n - 1].0) { v.len() == v0.len() + 1 && v.drop_last() == v0 && v.last().0 == s[n - 1].0.0 && v.last().1.0@ == s[n - 1].1.name@ && v.last().1.1 == s[n - 1].1.with_val } else { v == v0 }
    ensures tk_inner(l, s, n, m, v)
{
    let k = *s[n - 1].0;
    tk_listed_is(l, m - 1, k);
    reveal(tk_inner);
    if stands_upto(l.dfa, m, k) { let q = choose|q: int| 0 <= q < m && #[trigger] stands(l.dfa, q, k); if q < m - 1 { assert(stands_upto(l.dfa, m - 1, k)); } }
    if stands(l.dfa, m - 1, k) {
        assert(v[v.len() - 1] == v.last());
        assert(tk_seen(v, k.0));
        assert(l.tokens@.contains_key(*s[n - 1].0));
        assert(tk_outer(l, s, n - 1, v)) by {
            reveal(tk_outer);
            assert(tk_sound(l, v)) by { reveal(tk_sound); assert forall|q: int| 0 <= q < v.len() implies tk_good(l, #[trigger] v[q]) by { if q < v0.len() { assert(v[q] == v0[q]); } else { assert(StateIdx(v[q].0) == k); assert(stands(l.dfa, m - 1, k)); assert(stands_upto(l.dfa, l.dfa.states@.len() as int, k)); } } }
            assert forall|j: int| 0 <= j < n - 1 implies (kind_known(l, *(#[trigger] s[j]).0) ==> tk_seen(v, s[j].0.0)) by {
                if kind_known(l, *s[j].0) { assert(tk_seen(v0, s[j].0.0)); let q = choose|q: int| 0 <= q < v0.len() && (#[trigger] v0[q]).0 == s[j].0.0; assert(v[q] == v0[q]); }
            }
        }
    }
}
pub proof fn pairs_map_at<V>(s: Seq<(usize, V)>, n: int, k: usize)
    requires 0 <= n <= s.len()
    ensures pairs_map(s, n).contains_key(k) <==> (exists|q: int| 0 <= q < n && (#[trigger] s[q]).0 == k),
        pairs_map(s, n).contains_key(k) ==> exists|q: int| 0 <= q < n && (#[trigger] s[q]).0 == k && s[q].1 == pairs_map(s, n)[k],
    decreases n
{
    if n > 0 {
        pairs_map_at(s, n - 1, k);
        if s[n - 1].0 != k && pairs_map(s, n).contains_key(k) { let q = choose|q: int| 0 <= q < n - 1 && (#[trigger] s[q]).0 == k && s[q].1 == pairs_map(s, n - 1)[k]; assert(s[q].1 == pairs_map(s, n)[k]); }
    }
}
pub proof fn tk_done<'a, 'b>(l: Lex, s: Seq<(&'b StateIdx, &'b TokenDef)>, v: Seq<(usize, (Str<'a>, bool))>)
    requires map_refs(s, l.tokens@), tk_outer(l, s, s.len() as int, v) ensures tk_all(l, pairs_map(v, v.len() as int))
{
    reveal(tk_outer); reveal(tk_sound); reveal(tk_all);
    let m = pairs_map(v, v.len() as int);
    assert forall|k: usize| #[trigger] tk_row(l, m, k) by {
        pairs_map_at(v, v.len() as int, k);
        if kind_known(l, StateIdx(k)) { let j = choose|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).0 == StateIdx(k); assert(tk_seen(v, s[j].0.0)); }
        if m.contains_key(k) { let q = choose|q: int| 0 <= q < v.len() && (#[trigger] v[q]).0 == k && v[q].1 == m[k]; assert(tk_good(l, v[q])); }
    }
}
/// what is printed for `l`
pub open spec fn ctx_of(c: LexCtx, l: Lex) -> bool { tk_all(l, c.tokens@) && states_of(l.dfa, c.states@, l.dfa.states@.len() as int) && *c.dfa_to_nfa == l.dfa.dfa_to_nfa && dkeys(l.dfa) }

// the text
pub open spec fn td_row(pre: Seq<char>, k: usize, v: (Str, bool)) -> Seq<char> {
    pre + "type TokenDef"@ + dec(k as nat) + " = {\n                    kind: \""@ + esc_text(v.0@) + "\",\n                    hasValue: "@ + (if v.1 { "true"@ } else { "false"@ }) + "\n                }\n                \n                "@
}
pub open spec fn td_rows<'a>(pre: Seq<char>, s: Seq<(&'a usize, &'a (Str<'a>, bool))>, n: int) -> Seq<char> decreases n { if n <= 0 { pre } else { td_row(td_rows(pre, s, n - 1), *s[n - 1].0, *s[n - 1].1) } }
pub open spec fn tl_row(pre: Seq<char>, k: usize) -> Seq<char> { pre + "  "@ + dec(k as nat) + ": TokenDef"@ + dec(k as nat) + ";"@ }
pub open spec fn tl_rows<'a>(pre: Seq<char>, s: Seq<(&'a usize, &'a (Str<'a>, bool))>, n: int) -> Seq<char> decreases n { if n <= 0 { pre } else { tl_row(tl_rows(pre, s, n - 1), *s[n - 1].0) } }
pub open spec fn tos_text(s: Seq<(usize, Match)>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| dec(s[i].0 as nat)) }
pub open spec fn range_text(m: Match) -> Seq<char> { Seq::<char>::empty() + "{ from: "@ + dec(m.range.start as nat) + ", to: "@ + dec(m.range.end as nat) + " }"@ }
pub open spec fn ranges_text(s: Seq<(usize, Match)>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| range_text(s[i].1)) }
pub open spec fn st_row(pre: Seq<char>, i: int, st: LexState) -> Seq<char> {
    pre + "type State"@ + dec(i as nat) + " = {\n                    to: ["@ + seps(tos_text(st.labels@), ","@, st.labels@.len() as int) + "],\n                    labels: ["@ + seps(ranges_text(st.labels@), ","@, st.labels@.len() as int) + "],\n                    accepting: "@ + st.accepting.shown() + "\n                }\n                \n                "@
}
pub open spec fn st_rows(pre: Seq<char>, s: Seq<LexState>, n: int) -> Seq<char> decreases n { if n <= 0 { pre } else { st_row(st_rows(pre, s, n - 1), n - 1, s[n - 1]) } }
pub open spec fn state_name(i: int) -> Seq<char> { Seq::<char>::empty() + "State"@ + dec(i as nat) }
pub open spec fn state_names(n: int) -> Seq<Seq<char>> { Seq::new(n as nat, |i: int| state_name(i)) }
pub open spec fn nums_text<'a>(s: Seq<&'a StateIdx>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| Seq::<char>::empty() + dec(s[i].0 as nat)) }
pub open spec fn set_text(x: Set<StateIdx>) -> Seq<char> { let e = elems_by_order(x); Seq::<char>::empty() + "[ "@ + seps(nums_text(e), ", "@, e.len() as int) + " ]"@ }
pub open spec fn dn_row(k: StateIdx, x: BTreeSet<StateIdx>) -> Seq<char> { Seq::<char>::empty() + dec(k.0 as nat) + ": "@ + set_text(x@) + ",\n"@ }
pub open spec fn dn_rows<'a>(s: Seq<(&'a StateIdx, &'a BTreeSet<StateIdx>)>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| dn_row(*s[i].0, *s[i].1)) }
pub open spec fn lex_head() -> Seq<char> { Seq::<char>::empty() + "/**\n            * These are generated DFA states for the lexer.\n            * Don't edit this file.\n            */\n            \n            "@ }
pub open spec fn lex_types<'a>(s: Seq<(&'a usize, &'a (Str<'a>, bool))>) -> Seq<char> { td_rows(lex_head(), s, s.len() as int) + "export type Tokens = {\n"@ }
pub open spec fn lex_kinds<'a>(s: Seq<(&'a usize, &'a (Str<'a>, bool))>) -> Seq<char> { tl_rows(lex_types(s), s, s.len() as int) + "\n}\n\n"@ }
pub open spec fn lex_text(c: LexCtx) -> Seq<char> {
    st_rows(lex_kinds(entries(c.tokens@)), c.states@, c.states@.len() as int)
    + "export type States = ["@ + seps(state_names(c.states@.len() as int), ", "@, c.states@.len() as int) + "];\n\n"@
    + "export type DFAtoNFA = {\n  "@ + concats(dn_rows(entries(c.dfa_to_nfa@)), entries::<StateIdx, BTreeSet<StateIdx>>(c.dfa_to_nfa@).len() as int) + "}"@
}
/// `v` are the first str_texts of `t`
#[verifier::opaque]
pub open spec fn first_texts(v: Seq<String>, t: Seq<Seq<char>>, n: int) -> bool { v.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] v[k])@ == t[k] }
pub proof fn first_texts_0(v: Seq<String>, t: Seq<Seq<char>>) requires v.len() == 0 ensures first_texts(v, t, 0) { reveal(first_texts); }
pub proof fn first_texts_step(v: Seq<String>, t: Seq<Seq<char>>, n: int) requires n > 0, v.len() > 0, first_texts(v.drop_last(), t, n - 1), v.last()@ == t[n - 1] ensures first_texts(v, t, n)
{ reveal(first_texts); assert(v[v.len() - 1] == v.last()); assert forall|k: int| 0 <= k < n implies (#[trigger] v[k])@ == t[k] by { if k < n - 1 { assert(v.drop_last()[k] == v[k]); } } }
pub proof fn first_texts_all(v: Seq<String>, t: Seq<Seq<char>>) requires first_texts(v, t, t.len() as int) ensures str_texts(v) == t, v.len() == t.len() { reveal(first_texts); assert(str_texts(v) =~= t); }

@module gen_lex = codegen/lex_gen.rs rename Ctx=LexCtx State=LexState Tokens=LexTokens States=LexStates generate=generate_lexer
@item LexTokens
@item LexStates
@item LexCtx
@item LexState
@fn LexState::from_lex_state
@spec
    requires dshape(*dfa), state_idx < dfa.states@.len(),
    ensures lstate_of(*dfa, StateIdx(state_idx), r),
@hint start
    proof { edges_given(*dfa, StateIdx(state_idx)); }
@loop 1
    invariant $s == all_from(*dfa, state_idx), labels@ =~= lex_labels($s).take($i),
@hint end
    proof { let g = all_from(*dfa, StateIdx(state_idx.0)); assert(lex_labels(g).take(g.len() as int) =~= lex_labels(g)); if dfa.states@[state_idx.0 as int].first_edge.none_v() { assert(lex_labels(g) =~= Seq::<(usize, Match)>::empty()); } }
@fn LexCtx::new
@spec
    requires lok(*lex),
    ensures ctx_of(r, *lex),
@hint start
    let ghost l = *lex;
    proof { reveal(lok); vec_len_max(lex.dfa.states); }
@hint loop 1 before
    proof { tk_outer_0(l, $s, $acc@); }
@loop 1
    invariant map_refs($s, l.tokens@), tk_outer(l, $s, $i, $acc@),
@hint loop 1 start
    proof { tk_inner_0(l, $s, $i, $acc@); }
@loop 2
    invariant tk_inner(l, $s1, $i1, $i, $acc1@), $s.len() == l.dfa.states@.len(), forall|q: int| 0 <= q < $s.len() ==> (#[trigger] $s[q]).0 == q,
@hint loop 2 start
    let ghost v0 = $acc1@;
@hint loop 2 end
    proof {
        if tk_listed(l, $i - 1, *$s1[$i1 - 1].0) { assert($acc1@.drop_last() =~= v0); }
        tk_inner_step(l, $s1, $i1, $i, v0, $acc1@);
    }
@hint loop 1 end
    proof { tk_inner_end(l, $s, $i, $acc@); }
@hint loop 1 after
    proof { tk_done(l, $s, $acc@); }
@hint loop 3 before
    proof { states_of_0(l.dfa, $acc@); }
@loop 3
    invariant $s.len() == l.dfa.states@.len(), forall|q: int| 0 <= q < $s.len() ==> (#[trigger] $s[q]).0 == q, states_of(l.dfa, $acc@, $i),
@hint loop 3 start
    let ghost b0 = $acc@;
@hint loop 3 end
    proof { assert($acc@.drop_last() =~= b0); states_of_step(l.dfa, $acc@, $i); }
@fn LexCtx::to_string/nfa_set_to_string
@spec
    ensures r@ == set_text(set@),
@hint loop 1 before
    let ghost t = nums_text($s);
    proof { elems_are($s, set@); first_texts_0($acc@, t); }
@loop 1
    invariant $s == elems_by_order(set@), t == nums_text($s), first_texts($acc@, t, $i),
@hint loop 1 start
    let ghost a0 = $acc@;
@hint loop 1 end
    proof { assert($acc@.drop_last() =~= a0); first_texts_step($acc@, t, $i); }
@hint loop 1 after
    proof { first_texts_all($acc@, t); }
@fn LexCtx::to_string
@attr #[verifier::rlimit(100)]
@spec
    ensures r@ == lex_text(*self),
@hint loop 1 before
    let ghost ts = entries(self.tokens@);
    let ghost h = ret@;
    proof { entries_are($s, self.tokens@); assert(h =~= lex_head()); }
@loop 1
    invariant $s == ts, ret@ == td_rows(lex_head(), ts, $i),
@hint loop 1 start
    let ghost p = ret@;
@hint loop 1 end
    proof { assert(ret@ == td_row(p, *ts[$i - 1].0, *ts[$i - 1].1)); }
@hint loop 2 before
    proof { entries_are($s, self.tokens@); }
@loop 2
    invariant $s == ts, ret@ == tl_rows(lex_types(ts), ts, $i),
@hint loop 2 start
    let ghost p = ret@;
@hint loop 2 end
    proof { assert(ret@ == tl_row(p, *ts[$i - 1].0)); }
@loop 3
    invariant $s.len() == self.states@.len(), forall|q: int| 0 <= q < $s.len() ==> (#[trigger] $s[q]).0 == q && *$s[q].1 == self.states@[q], ret@ == st_rows(lex_kinds(ts), self.states@, $i),
@hint loop 3 start
    let ghost p = ret@;
    let ghost st = self.states@[$i - 1];
    let ghost t1 = tos_text(st.labels@);
    let ghost t2 = ranges_text(st.labels@);
@hint loop 4 before
    proof { first_texts_0($acc@, t1); }
@loop 4
    invariant $s == refs::<(usize, Match)>(st.labels@), first_texts($acc@, t1, $i),
@hint loop 4 start
    let ghost a0 = $acc@;
@hint loop 4 end
    proof { assert($acc@.drop_last() =~= a0); first_texts_step($acc@, t1, $i); }
@hint loop 4 after
    proof { first_texts_all($acc@, t1); }
@hint loop 5 before
    proof { first_texts_0($acc@, t2); }
@loop 5
    invariant $s == refs::<(usize, Match)>(st.labels@), first_texts($acc@, t2, $i),
@hint loop 5 start
    let ghost a0 = $acc@;
@hint loop 5 end
    proof { assert($acc@.drop_last() =~= a0); first_texts_step($acc@, t2, $i); }
@hint loop 5 after
    proof { first_texts_all($acc@, t2); }
@hint loop 3 end
    proof { assert(ret@ == st_row(p, $i - 1, st)); }
@hint loop 6 before
    let ghost t3 = state_names(self.states@.len() as int);
    proof { first_texts_0($acc@, t3); }
@loop 6
    invariant $s.len() == self.states@.len(), forall|q: int| 0 <= q < $s.len() ==> (#[trigger] $s[q]).0 == q, first_texts($acc@, t3, $i),
@hint loop 6 start
    let ghost a0 = $acc@;
@hint loop 6 end
    proof { assert($acc@.drop_last() =~= a0); first_texts_step($acc@, t3, $i); }
@hint loop 6 after
    proof { first_texts_all($acc@, t3); }
@hint loop 7 before
    let ghost t4 = dn_rows($s);
    proof { entries_are($s, self.dfa_to_nfa@); first_texts_0($acc@, t4); }
@loop 7
    invariant $s == entries(self.dfa_to_nfa@), t4 == dn_rows($s), first_texts($acc@, t4, $i),
@hint loop 7 start
    let ghost a0 = $acc@;
@hint loop 7 end
    proof { assert($acc@.drop_last() =~= a0); first_texts_step($acc@, t4, $i); }
@hint loop 7 after
    proof { first_texts_all($acc@, t4); }
@fn generate_chars
@attr #[verifier::external_body]
@fn generate_lexer
@spec
    requires lok(*lex),
    ensures exists|c: LexCtx| #[trigger] ctx_of(c, *lex) && r@ == lex_text(c),
@hint end
    proof { assert(ctx_of(ctx, *lex)); }
