@module mergep = -
@text
pub open spec fn core(s: ItemSet) -> Set<Item> { s.0@.dom() }
// --- the digest of a core ---
pub open spec fn wseq<'a>(s: Seq<&'a Item>, n: int) -> Seq<Word> decreases n { if n <= 0 { Seq::empty() } else { wseq(s, n - 1) + words_of(*s[n - 1]) } }
pub open spec fn key_list<'a>(s: Seq<&'a Item>, d: Set<Item>) -> bool { enum_refs(s, d) && sorted_refs(s) }
pub open spec fn core_words(d: Set<Item>) -> Seq<Word> { let s = choose|s: Seq<&Item>| #[trigger] key_list(s, d); wseq(s, s.len() as int) }
/// the key that merging groups by
pub open spec fn cd(s: ItemSet) -> u64 { digest::<DefaultHasher>(core_words(core(s))) }
pub proof fn key_list_unique<'a>(s: Seq<&'a Item>, t: Seq<&'a Item>, d: Set<Item>) requires key_list(s, d), key_list(t, d) ensures s == t
{
    assert forall|k: int| 0 <= k < s.len() implies s[k] == t[k] by { key_list_at(s, t, d, k); }
    assert(s =~= t);
}
proof fn key_list_at<'a>(s: Seq<&'a Item>, t: Seq<&'a Item>, d: Set<Item>, k: int) requires key_list(s, d), key_list(t, d), 0 <= k < s.len() ensures s[k] == t[k] decreases k
{
    let a = *s[k];
    let b = *t[k];
    if a != b {
        assert(d.contains(a) && d.contains(b));
        let j = choose|j: int| 0 <= j < t.len() && *#[trigger] t[j] == a;
        let i = choose|i: int| 0 <= i < s.len() && *#[trigger] s[i] == b;
        if j < k { key_list_at(s, t, d, j); assert(*s[j] != *s[k]); }
        if i < k { key_list_at(s, t, d, i); assert(*t[i] != *t[k]); }
        assert(j > k && i > k);
        assert(vlt(*s[k], *s[i]) && vlt(*t[k], *t[j]));
        vlt_asym(a, b);
    }
}
pub proof fn words_done<'a>(s: Seq<&'a Item>, d: Set<Item>) requires key_list(s, d) ensures wseq(s, s.len() as int) == core_words(d)
{
    let t = choose|t: Seq<&Item>| #[trigger] key_list(t, d);
    assert(key_list(t, d));
    key_list_unique(s, t, d);
}
pub proof fn same_keys<'a>(s: Seq<&'a Item>, t: Seq<&'a Item>, d: Set<Item>, e: Set<Item>) requires key_list(s, d), key_list(t, e) ensures derefs(s) == derefs(t) <==> d == e
{
    if d == e { key_list_unique(s, t, d); }
    if derefs(s) == derefs(t) {
        assert(s.len() == derefs(s).len() && t.len() == derefs(t).len());
        assert forall|x: Item| d.contains(x) <==> e.contains(x) by {
            if d.contains(x) { let i = choose|i: int| 0 <= i < s.len() && *#[trigger] s[i] == x; assert(derefs(s)[i] == x); assert(derefs(t)[i] == *t[i]); }
            if e.contains(x) { let i = choose|i: int| 0 <= i < t.len() && *#[trigger] t[i] == x; assert(derefs(t)[i] == x); assert(derefs(s)[i] == *s[i]); }
        }
        assert(d =~= e);
    }
}
pub proof fn same_keys_all(d: Set<Item>, e: Set<Item>) ensures forall|s: Seq<&Item>, t: Seq<&Item>| #![trigger derefs(s), derefs(t)] key_list(s, d) && key_list(t, e) ==> (derefs(s) == derefs(t) <==> d == e)
{ assert forall|s: Seq<&Item>, t: Seq<&Item>| #![trigger derefs(s), derefs(t)] key_list(s, d) && key_list(t, e) implies (derefs(s) == derefs(t) <==> d == e) by { same_keys(s, t, d, e); } }
pub proof fn results_len(lr: Seq<ItemSet>, ord: Seq<u64>, mp: Map<u64, Vec<usize>>, n: int, res: Seq<ItemSet>, m: Map<usize, usize>) requires results(lr, ord, mp, n, res, m) ensures res.len() == n { reveal(results); }
/// what merging needs: different cores have different digests
#[verifier::opaque]
pub open spec fn no_collision(lr: Seq<ItemSet>) -> bool { forall|i: int, j: int| 0 <= i < lr.len() && 0 <= j < lr.len() && cd(#[trigger] lr[i]) == cd(#[trigger] lr[j]) ==> core(lr[i]) == core(lr[j]) }
/// C10
#[verifier::opaque]
pub open spec fn merged(lr: Seq<ItemSet>, lalr: Seq<ItemSet>, m: Map<usize, usize>) -> bool {
    &&& forall|i: usize| #[trigger] m.contains_key(i) <==> i < lr.len()
    &&& forall|i: usize| i < lr.len() ==> #[trigger] m[i] < lalr.len() && core(lalr[m[i] as int]) == core(lr[i as int])
    &&& forall|i: usize, j: usize| i < lr.len() && j < lr.len() ==> (#[trigger] m[i] == #[trigger] m[j] <==> core(lr[i as int]) == core(lr[j as int]))
    &&& forall|k: int| 0 <= k < lalr.len() ==> #[trigger] used(lr, m, k)
    &&& forall|k: int, e: Entry1| 0 <= k < lalr.len() ==> (#[trigger] hasp(lalr[k].0@, e) <==> in_some(lr, m, k, e))
    &&& lr.len() > 0 ==> m[0] == 0
}
pub open spec fn used(lr: Seq<ItemSet>, m: Map<usize, usize>, k: int) -> bool { exists|i: usize| i < lr.len() && #[trigger] m[i] == k }
pub open spec fn in_some(lr: Seq<ItemSet>, m: Map<usize, usize>, k: int, e: Entry1) -> bool { exists|i: usize| i < lr.len() && #[trigger] m[i] == k && hasp(lr[i as int].0@, e) }
// --- the groups ---
pub open spec fn in_grp(v: Seq<usize>, i: int) -> bool { exists|p: int| 0 <= p < v.len() && #[trigger] v[p] == i }
pub open spec fn group_ok(lr: Seq<ItemSet>, n: int, v: Seq<usize>, h: u64) -> bool {
    &&& v.len() > 0
    &&& forall|p: int| 0 <= p < v.len() ==> #[trigger] v[p] < n && cd(lr[v[p] as int]) == h
    &&& forall|p: int, q: int| 0 <= p < q < v.len() ==> #[trigger] v[p] < #[trigger] v[q]
}
#[verifier::opaque]
pub open spec fn groups(lr: Seq<ItemSet>, n: int, ord: Seq<u64>, mp: Map<u64, Vec<usize>>) -> bool {
    &&& forall|i: int| 0 <= i < n ==> grouped(lr, mp, i)
    &&& forall|h: u64| #[trigger] mp.contains_key(h) ==> group_ok(lr, n, mp[h]@, h)
    &&& n > 0 ==> ord.len() > 0 && ord[0] == cd(lr[0])
}
pub open spec fn grouped(lr: Seq<ItemSet>, mp: Map<u64, Vec<usize>>, i: int) -> bool { mp.contains_key(cd(lr[i])) && in_grp(mp[cd(lr[i])]@, i) }
pub proof fn groups_0(lr: Seq<ItemSet>, ord: Seq<u64>, mp: Map<u64, Vec<usize>>) requires mp == Map::<u64, Vec<usize>>::empty() ensures groups(lr, 0, ord, mp) { reveal(groups); }
pub proof fn groups_step(lr: Seq<ItemSet>, n: int, ord: Seq<u64>, mp: Map<u64, Vec<usize>>, ord2: Seq<u64>, mp2: Map<u64, Vec<usize>>)
    requires groups(lr, n, ord, mp), 0 <= n < lr.len(), lr.len() <= isize::MAX, mp2.contains_key(cd(lr[n])), mp2 =~= mp.insert(cd(lr[n]), mp2[cd(lr[n])]),
        mp2[cd(lr[n])]@ == (if mp.contains_key(cd(lr[n])) { mp[cd(lr[n])]@ } else { Seq::<usize>::empty() }).push(n as usize),
        ord2 == (if mp.contains_key(cd(lr[n])) { ord } else { ord.push(cd(lr[n])) }), n == 0 ==> ord.len() == 0 && mp == Map::<u64, Vec<usize>>::empty()
    ensures groups(lr, n + 1, ord2, mp2)
{
    reveal(groups);
    let c = cd(lr[n]);
    let v = if mp.contains_key(c) { mp[c]@ } else { Seq::<usize>::empty() };
    assert forall|i: int| 0 <= i < n + 1 implies grouped(lr, mp2, i) by {
        if i < n {
            assert(grouped(lr, mp, i));
            if cd(lr[i]) == c { let p = choose|p: int| 0 <= p < v.len() && #[trigger] v[p] == i; assert(mp2[c]@[p] == i); }
        } else { assert(mp2[c]@[v.len() as int] == n); }
    }
    assert forall|h: u64| #[trigger] mp2.contains_key(h) implies group_ok(lr, n + 1, mp2[h]@, h) by {
        if h == c {
            if mp.contains_key(c) { assert(group_ok(lr, n, mp[c]@, c)); }
            let w = mp2[c]@;
            assert forall|p: int| 0 <= p < w.len() implies #[trigger] w[p] < n + 1 && cd(lr[w[p] as int]) == c by { if p < v.len() { assert(w[p] == v[p]); } }
            assert forall|p: int, q: int| 0 <= p < q < w.len() implies #[trigger] w[p] < #[trigger] w[q] by { assert(w[p] == v[p]); if q < v.len() { assert(w[q] == v[q]); } }
        } else { assert(mp.contains_key(h)); assert(group_ok(lr, n, mp[h]@, h)); }
    }
}
/// `s` is the union of the states of the group
pub open spec fn union_of(lr: Seq<ItemSet>, v: Seq<usize>, n: int, s: ItemSet) -> bool {
    &&& v.len() > 0 && core(s) == core(lr[v[0] as int])
    &&& forall|e: Entry1| #[trigger] hasp(s.0@, e) <==> in_first(lr, v, n, e)
}
pub open spec fn in_first(lr: Seq<ItemSet>, v: Seq<usize>, n: int, e: Entry1) -> bool { exists|p: int| 0 <= p < n && hasp(lr[#[trigger] v[p] as int].0@, e) }
pub open spec fn mdv(v: Vec<ManuallyDrop<ItemSet>>) -> Seq<ManuallyDrop<ItemSet>> { v@ }
pub open spec fn vals(s: Seq<ManuallyDrop<ItemSet>>) -> Seq<ItemSet> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn on(b: Seq<bool>, k: int) -> bool { b[k] }
/// the first n of the group are taken, the others as before
pub open spec fn taken(s0: Seq<ManuallyDrop<ItemSet>>, b0: Seq<bool>, s: Seq<ManuallyDrop<ItemSet>>, b: Seq<bool>, v: Seq<usize>, n: int) -> bool {
    &&& s.len() == s0.len() && b.len() == b0.len()
    &&& forall|k: int| 0 <= k < s.len() ==> #[trigger] taken_at(s0, b0, s, b, v, n, k)
}
pub open spec fn taken_at(s0: Seq<ManuallyDrop<ItemSet>>, b0: Seq<bool>, s: Seq<ManuallyDrop<ItemSet>>, b: Seq<bool>, v: Seq<usize>, n: int, k: int) -> bool {
    if part_of(v, n, k) { !on(b, k) } else { on(b, k) == on(b0, k) && s[k] == s0[k] }
}
pub open spec fn part_of(v: Seq<usize>, n: int, k: int) -> bool { exists|p: int| 0 <= p < n && #[trigger] v[p] == k }
#[verifier::opaque]
pub open spec fn takeable(s: Seq<ManuallyDrop<ItemSet>>, b: Seq<bool>, v: Seq<usize>) -> bool {
    &&& v.len() > 0 && s.len() == b.len()
    &&& forall|p: int| 0 <= p < v.len() ==> #[trigger] v[p] < s.len() && b[v[p] as int] && s[v[p] as int].live() && core(s[v[p] as int]@) == core(s[v[0] as int]@)
    &&& forall|p: int, q: int| 0 <= p < q < v.len() ==> #[trigger] v[p] < #[trigger] v[q]
}
#[verifier::opaque]
pub open spec fn merging(s0: Seq<ManuallyDrop<ItemSet>>, b0: Seq<bool>, s: Seq<ManuallyDrop<ItemSet>>, b: Seq<bool>, v: Seq<usize>, n: int, r: ItemSet) -> bool {
    taken(s0, b0, s, b, v, n) && union_of(vals(s0), v, n, r)
}
pub proof fn takeable_at(s: Seq<ManuallyDrop<ItemSet>>, b: Seq<bool>, v: Seq<usize>, p: int)
    requires takeable(s, b, v), 0 <= p < v.len() ensures v.len() > 0, s.len() == b.len(), v[p] < s.len(), b[v[p] as int], s[v[p] as int].live(), core(s[v[p] as int]@) == core(s[v[0] as int]@) { reveal(takeable); }
pub proof fn takeable_len(s: Seq<ManuallyDrop<ItemSet>>, b: Seq<bool>, v: Seq<usize>) requires takeable(s, b, v) ensures v.len() > 0, s.len() == b.len() { reveal(takeable); }
pub proof fn merging_1(s0: Seq<ManuallyDrop<ItemSet>>, b0: Seq<bool>, s: Seq<ManuallyDrop<ItemSet>>, b: Seq<bool>, v: Seq<usize>, x: ManuallyDrop<ItemSet>, r: ItemSet)
    requires takeable(s0, b0, v), s =~= s0.update(v[0] as int, x), b =~= b0.update(v[0] as int, false), r == s0[v[0] as int]@ ensures merging(s0, b0, s, b, v, 1, r)
{
    reveal(takeable); reveal(merging);
    let lr = vals(s0);
    assert(v[0] < s0.len());
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] taken_at(s0, b0, s, b, v, 1, k) by { if k == v[0] { assert(part_of(v, 1, k)); } }
    assert forall|e: Entry1| #[trigger] hasp(r.0@, e) <==> in_first(lr, v, 1, e) by { assert(lr[v[0] as int] == r); }
}
/// the next of the group has not been taken yet
pub proof fn merging_next(s0: Seq<ManuallyDrop<ItemSet>>, b0: Seq<bool>, s: Seq<ManuallyDrop<ItemSet>>, b: Seq<bool>, v: Seq<usize>, n: int, r: ItemSet)
    requires takeable(s0, b0, v), merging(s0, b0, s, b, v, n, r), 0 < n < v.len() ensures s.len() == s0.len(), b.len() == s.len(), v[n] < s.len(), b[v[n] as int], s[v[n] as int] == s0[v[n] as int], s[v[n] as int].live(), core(r) == core(s[v[n] as int]@)
{
    reveal(takeable); reveal(merging);
    let k = v[n] as int;
    assert(v[n] < s0.len());
    if part_of(v, n, k) { let p = choose|p: int| 0 <= p < n && #[trigger] v[p] == k; assert(v[p] < v[n]); }
    assert(taken_at(s0, b0, s, b, v, n, k));
    assert(s[k] == s0[k] && on(b, k) && on(b0, k));
    assert(vals(s0)[v[0] as int] == s0[v[0] as int]@);
}
pub proof fn merging_step(s0: Seq<ManuallyDrop<ItemSet>>, b0: Seq<bool>, s: Seq<ManuallyDrop<ItemSet>>, b: Seq<bool>, v: Seq<usize>, n: int, r: ItemSet, x: ManuallyDrop<ItemSet>, r2: ItemSet)
    requires takeable(s0, b0, v), merging(s0, b0, s, b, v, n, r), 0 < n < v.len(), core(r2) == core(r), joined(r, s0[v[n] as int]@, r2)
    ensures merging(s0, b0, s.update(v[n] as int, x), b.update(v[n] as int, false), v, n + 1, r2)
{
    reveal(takeable); reveal(merging);
    let lr = vals(s0);
    assert(v[n] < s0.len());
    let s2 = s.update(v[n] as int, x);
    let b2 = b.update(v[n] as int, false);
    assert forall|k: int| 0 <= k < s2.len() implies #[trigger] taken_at(s0, b0, s2, b2, v, n + 1, k) by {
        assert(taken_at(s0, b0, s, b, v, n, k));
        if k == v[n] { assert(part_of(v, n + 1, k)); }
        else {
            assert(s2[k] == s[k]);
            assert(part_of(v, n + 1, k) == part_of(v, n, k));
        }
    }
    assert(taken(s0, b0, s2, b2, v, n + 1));
    assert(core(r2) == core(lr[v[0] as int]));
    assert forall|e: Entry1| #[trigger] hasp(r2.0@, e) <==> in_first(lr, v, n + 1, e) by {
        assert(lr[v[n] as int] == s0[v[n] as int]@);
        if hasp(s0[v[n] as int]@.0@, e) { assert(hasp(lr[v[n] as int].0@, e)); assert(in_first(lr, v, n + 1, e)); }
        if hasp(r.0@, e) { assert(in_first(lr, v, n, e)); let p = choose|p: int| 0 <= p < n && hasp(lr[#[trigger] v[p] as int].0@, e); assert(in_first(lr, v, n + 1, e)); }
        if in_first(lr, v, n + 1, e) && !hasp(s0[v[n] as int]@.0@, e) { let p = choose|p: int| 0 <= p < n + 1 && hasp(lr[#[trigger] v[p] as int].0@, e); assert(p < n); assert(in_first(lr, v, n, e)); }
    }
}
/// `c` has the lookaheads of `a` and those of `b`
pub open spec fn joined(a: ItemSet, b: ItemSet, c: ItemSet) -> bool { forall|e: Entry1| #[trigger] hasp(c.0@, e) <==> hasp(a.0@, e) || hasp(b.0@, e) }
/// the first n items have both lookahead sets
#[verifier::opaque]
pub open spec fn joining(a: Map<Item, BTreeSet<TokenIdx>>, b: Map<Item, BTreeSet<TokenIdx>>, c: Map<Item, BTreeSet<TokenIdx>>, s: Seq<Item>, n: int) -> bool {
    &&& c.dom() == a.dom()
    &&& forall|k: int| 0 <= k < s.len() ==> (#[trigger] c[s[k]])@ == (if k < n { a[s[k]]@.union(b[s[k]]@) } else { a[s[k]]@ })
}
pub proof fn joining_0(a: Map<Item, BTreeSet<TokenIdx>>, b: Map<Item, BTreeSet<TokenIdx>>, s: Seq<Item>) ensures joining(a, b, a, s, 0) { reveal(joining); }
pub proof fn joining_dom(a: Map<Item, BTreeSet<TokenIdx>>, b: Map<Item, BTreeSet<TokenIdx>>, c: Map<Item, BTreeSet<TokenIdx>>, s: Seq<Item>, n: int) requires joining(a, b, c, s, n) ensures c.dom() == a.dom() { reveal(joining); }
pub proof fn joining_step(a: Map<Item, BTreeSet<TokenIdx>>, b: Map<Item, BTreeSet<TokenIdx>>, c: Map<Item, BTreeSet<TokenIdx>>, s: Seq<Item>, n: int, c2: Map<Item, BTreeSet<TokenIdx>>)
    requires joining(a, b, c, s, n), 0 <= n < s.len(), enumerates(s, a.dom()), c2 =~= c.insert(s[n], c2[s[n]]), c2.dom().contains(s[n]), c2[s[n]]@ == c[s[n]]@.union(b[s[n]]@) ensures joining(a, b, c2, s, n + 1)
{
    reveal(joining);
    assert(s.contains(s[n]));
    assert(a.dom().contains(s[n]));
    assert(c2.dom() =~= a.dom());
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] c2[s[k]])@ == (if k < n + 1 { a[s[k]]@.union(b[s[k]]@) } else { a[s[k]]@ }) by {
        if k != n { assert(s[k] != s[n]); assert(c2[s[k]] == c[s[k]]); } else { assert(c[s[n]]@ == a[s[n]]@); }
    }
}
pub proof fn joining_done(a: ItemSet, b: ItemSet, c: ItemSet, s: Seq<Item>) requires joining(a.0@, b.0@, c.0@, s, s.len() as int), enumerates(s, core(a)), core(a) == core(b) ensures joined(a, b, c), core(c) == core(a)
{
    reveal(joining);
    assert forall|e: Entry1| #[trigger] hasp(c.0@, e) <==> hasp(a.0@, e) || hasp(b.0@, e) by {
        assert(core(a).contains(e.0) <==> core(b).contains(e.0));
        assert(core(c).contains(e.0) <==> core(a).contains(e.0));
        if core(a).contains(e.0) {
            assert(s.contains(e.0));
            let k = choose|k: int| 0 <= k < s.len() && s[k] == e.0;
            assert(c.0@[s[k]]@ == a.0@[s[k]]@.union(b.0@[s[k]]@));
        }
    }
}
// --- merging group by group ---
pub open spec fn before(lr: Seq<ItemSet>, ord: Seq<u64>, n: int, i: int) -> bool { exists|k: int| 0 <= k < n && #[trigger] ord[k] == cd(lr[i]) }
#[verifier::opaque]
pub open spec fn results(lr: Seq<ItemSet>, ord: Seq<u64>, mp: Map<u64, Vec<usize>>, n: int, res: Seq<ItemSet>, m: Map<usize, usize>) -> bool {
    &&& res.len() == n && n <= ord.len()
    &&& forall|k: int| 0 <= k < n ==> union_of(lr, mp[#[trigger] ord[k]]@, mp[ord[k]]@.len() as int, res[k])
    &&& forall|i: usize| #[trigger] m.contains_key(i) <==> i < lr.len() && before(lr, ord, n, i as int)
    &&& forall|i: usize, k: int| i < lr.len() && 0 <= k < n && #[trigger] ord[k] == cd(lr[i as int]) ==> #[trigger] m[i] == k
}
#[verifier::opaque]
pub open spec fn slots(lr: Seq<ItemSet>, ord: Seq<u64>, n: int, s: Seq<ManuallyDrop<ItemSet>>, b: Seq<bool>) -> bool {
    &&& s.len() == lr.len() && b.len() == lr.len()
    &&& forall|i: int| 0 <= i < lr.len() ==> #[trigger] slot_ok(lr, ord, n, s, b, i)
}
pub open spec fn slot_ok(lr: Seq<ItemSet>, ord: Seq<u64>, n: int, s: Seq<ManuallyDrop<ItemSet>>, b: Seq<bool>, i: int) -> bool { !before(lr, ord, n, i) ==> on(b, i) && s[i].live() && s[i]@ == lr[i] }
#[verifier::opaque]
pub open spec fn indexed(m0: Map<usize, usize>, v: Seq<usize>, p: int, n: int, m: Map<usize, usize>) -> bool {
    forall|i: usize| (#[trigger] m.contains_key(i) <==> m0.contains_key(i) || part_of(v, p, i as int)) && m[i] == (if part_of(v, p, i as int) { n as usize } else { m0[i] })
}
pub proof fn indexed_0(m: Map<usize, usize>, v: Seq<usize>, n: int) ensures indexed(m, v, 0, n, m) { reveal(indexed); }
pub proof fn indexed_step(m0: Map<usize, usize>, v: Seq<usize>, p: int, n: int, m: Map<usize, usize>) requires indexed(m0, v, p, n, m), 0 <= p < v.len() ensures indexed(m0, v, p + 1, n, m.insert(v[p], n as usize))
{
    reveal(indexed);
    let m2 = m.insert(v[p], n as usize);
    assert forall|i: usize| (#[trigger] m2.contains_key(i) <==> m0.contains_key(i) || part_of(v, p + 1, i as int)) && m2[i] == (if part_of(v, p + 1, i as int) { n as usize } else { m0[i] }) by {
        assert(m.contains_key(i) <==> m0.contains_key(i) || part_of(v, p, i as int));
        if i == v[p] { assert(part_of(v, p + 1, i as int)); } else { assert(part_of(v, p + 1, i as int) == part_of(v, p, i as int)); }
    }
}
pub proof fn results_0(lr: Seq<ItemSet>, ord: Seq<u64>, mp: Map<u64, Vec<usize>>, res: Seq<ItemSet>, m: Map<usize, usize>) requires res.len() == 0, m == Map::<usize, usize>::empty() ensures results(lr, ord, mp, 0, res, m) { reveal(results); }
#[verifier::opaque]
pub open spec fn cloned_to(lr: Seq<ItemSet>, s: Seq<ManuallyDrop<ItemSet>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).live() && s[i]@ == lr[i] }
pub proof fn cloned_0(lr: Seq<ItemSet>, s: Seq<ManuallyDrop<ItemSet>>) requires s.len() == 0 ensures cloned_to(lr, s) { reveal(cloned_to); }
pub proof fn cloned_push(lr: Seq<ItemSet>, s: Seq<ManuallyDrop<ItemSet>>, x: ManuallyDrop<ItemSet>) requires cloned_to(lr, s), x.live(), x@ == lr[s.len() as int] ensures cloned_to(lr, s.push(x)) { reveal(cloned_to); }
pub proof fn slots_0(lr: Seq<ItemSet>, ord: Seq<u64>, s: Seq<ManuallyDrop<ItemSet>>, b: Seq<bool>)
    requires cloned_to(lr, s), s.len() == lr.len(), b == Seq::new(lr.len(), |i: int| true) ensures slots(lr, ord, 0, s, b) 
{
    reveal(slots); reveal(cloned_to);
    assert forall|i: int| 0 <= i < lr.len() implies #[trigger] slot_ok(lr, ord, 0, s, b, i) by { assert(s[i].live()); }
}
pub open spec fn keys_of(ord: Seq<u64>, mp: Map<u64, Vec<usize>>) -> bool { ord.no_duplicates() && forall|h: u64| #[trigger] mp.contains_key(h) <==> ord.contains(h) }
pub proof fn group_takeable(lr: Seq<ItemSet>, ord: Seq<u64>, mp: Map<u64, Vec<usize>>, n: int, s: Seq<ManuallyDrop<ItemSet>>, b: Seq<bool>)
    requires groups(lr, lr.len() as int, ord, mp), keys_of(ord, mp), 0 <= n < ord.len(), slots(lr, ord, n, s, b), no_collision(lr) ensures mp.contains_key(ord[n]), takeable(s, b, mp[ord[n]]@)
{
    reveal(groups); reveal(slots); reveal(takeable); reveal(no_collision);
    assert(ord.contains(ord[n]) && mp.contains_key(ord[n]));
    let v = mp[ord[n]]@;
    assert(group_ok(lr, lr.len() as int, v, ord[n]));
    assert forall|p: int| 0 <= p < v.len() implies #[trigger] v[p] < s.len() && b[v[p] as int] && s[v[p] as int].live() && core(s[v[p] as int]@) == core(s[v[0] as int]@) by {
        assert(!before(lr, ord, n, v[p] as int));
        assert(!before(lr, ord, n, v[0] as int));
        assert(slot_ok(lr, ord, n, s, b, v[p] as int) && slot_ok(lr, ord, n, s, b, v[0] as int));
        assert(s[v[p] as int].live() && s[v[0] as int].live());
        assert(cd(lr[v[p] as int]) == cd(lr[v[0] as int]));
    }
}
pub proof fn results_step(lr: Seq<ItemSet>, ord: Seq<u64>, mp: Map<u64, Vec<usize>>, n: int, s: Seq<ManuallyDrop<ItemSet>>, b: Seq<bool>, s2: Seq<ManuallyDrop<ItemSet>>, b2: Seq<bool>, res: Seq<ItemSet>, m: Map<usize, usize>, m2: Map<usize, usize>, x: ItemSet, res2: Seq<ItemSet>)
    requires groups(lr, lr.len() as int, ord, mp), lr.len() <= isize::MAX, keys_of(ord, mp), 0 <= n < ord.len(), ord.len() <= isize::MAX, slots(lr, ord, n, s, b), no_collision(lr), results(lr, ord, mp, n, res, m),
        indexed(m, mp[ord[n]]@, mp[ord[n]]@.len() as int, n, m2), merging(s, b, s2, b2, mp[ord[n]]@, mp[ord[n]]@.len() as int, x), res2 == (if res.contains(x) { res } else { res.push(x) })
    ensures results(lr, ord, mp, n + 1, res2, m2), slots(lr, ord, n + 1, s2, b2)
{
    reveal(groups); reveal(slots); reveal(merging); reveal(results); reveal(indexed);
    group_takeable(lr, ord, mp, n, s, b);
    let v = mp[ord[n]]@;
    let l = v.len() as int;
    assert(group_ok(lr, lr.len() as int, v, ord[n]));
    // who is in the group
    assert forall|i: int| 0 <= i < lr.len() implies (#[trigger] part_of(v, l, i) <==> cd(lr[i]) == ord[n]) by {
        if part_of(v, l, i) { let p = choose|p: int| 0 <= p < l && #[trigger] v[p] == i; }
        if cd(lr[i]) == ord[n] { assert(grouped(lr, mp, i)); }
    }
    assert(forall|i: int| 0 <= i < lr.len() ==> (#[trigger] before(lr, ord, n + 1, i) <==> before(lr, ord, n, i) || cd(lr[i]) == ord[n])) by {
        assert forall|i: int| 0 <= i < lr.len() implies (#[trigger] before(lr, ord, n + 1, i) <==> before(lr, ord, n, i) || cd(lr[i]) == ord[n]) by {
            if cd(lr[i]) == ord[n] { assert(before(lr, ord, n + 1, i)); }
            if before(lr, ord, n, i) { let k = choose|k: int| 0 <= k < n && #[trigger] ord[k] == cd(lr[i]); assert(before(lr, ord, n + 1, i)); }
        }
    }
    assert forall|i: int| 0 <= i < lr.len() implies #[trigger] slot_ok(lr, ord, n + 1, s2, b2, i) by {
        if !before(lr, ord, n + 1, i) {
            assert(part_of(v, l, i) <==> cd(lr[i]) == ord[n]);
            assert(slot_ok(lr, ord, n, s, b, i));
            assert(taken_at(s, b, s2, b2, v, l, i));
        }
    }
    assert(s2.len() == lr.len() && b2.len() == lr.len());
    assert(slots(lr, ord, n + 1, s2, b2));
    // the union, in terms of the states
    assert(union_of(lr, v, l, x)) by {
        let ls = vals(s);
        assert forall|p: int| 0 <= p < l implies ls[#[trigger] v[p] as int] == lr[v[p] as int] by {
            assert(part_of(v, l, v[p] as int));
            assert(!before(lr, ord, n, v[p] as int)) by { if before(lr, ord, n, v[p] as int) { let k = choose|k: int| 0 <= k < n && #[trigger] ord[k] == cd(lr[v[p] as int]); assert(ord[k] == ord[n]); } }
            assert(slot_ok(lr, ord, n, s, b, v[p] as int));
        }
        assert(v[0] < lr.len());
        assert forall|e: Entry1| #[trigger] hasp(x.0@, e) <==> in_first(lr, v, l, e) by {
            if in_first(ls, v, l, e) { let p = choose|p: int| 0 <= p < l && hasp(ls[#[trigger] v[p] as int].0@, e); assert(hasp(lr[v[p] as int].0@, e)); }
            if in_first(lr, v, l, e) { let p = choose|p: int| 0 <= p < l && hasp(lr[#[trigger] v[p] as int].0@, e); assert(hasp(ls[v[p] as int].0@, e)); }
        }
    }
    // it is new
    if res.contains(x) {
        let k = choose|k: int| 0 <= k < res.len() && res[k] == x;
        let w = mp[ord[k]]@;
        assert(union_of(lr, w, w.len() as int, res[k]));
        assert(ord.contains(ord[k]) && mp.contains_key(ord[k]));
        assert(group_ok(lr, lr.len() as int, w, ord[k]));
        assert(v[0] < lr.len() && w[0] < lr.len());
        assert(core(lr[v[0] as int]) == core(lr[w[0] as int]));
        assert(ord[k] == ord[n]);
    }
    assert forall|k: int| 0 <= k < n + 1 implies union_of(lr, mp[#[trigger] ord[k]]@, mp[ord[k]]@.len() as int, res2[k]) by { if k < n { assert(union_of(lr, mp[ord[k]]@, mp[ord[k]]@.len() as int, res[k])); } }
    assert forall|i: usize| #[trigger] m2.contains_key(i) <==> i < lr.len() && before(lr, ord, n + 1, i as int) by {
        if part_of(v, l, i as int) { let p = choose|p: int| 0 <= p < l && #[trigger] v[p] == i; assert(v[p] < lr.len()); }
        if i < lr.len() { assert(part_of(v, l, i as int) <==> cd(lr[i as int]) == ord[n]); }
        assert(m.contains_key(i) <==> i < lr.len() && before(lr, ord, n, i as int));
    }
    assert forall|i: usize, k: int| i < lr.len() && 0 <= k < n + 1 && #[trigger] ord[k] == cd(lr[i as int]) implies #[trigger] m2[i] == k by {
        assert(part_of(v, l, i as int) <==> cd(lr[i as int]) == ord[n]);
        assert(m2.contains_key(i) <==> m.contains_key(i) || part_of(v, l, i as int));
        if k < n { assert(ord[k] != ord[n]); assert(m[i] == k); }
    }
}
pub proof fn results_done(lr: Seq<ItemSet>, ord: Seq<u64>, mp: Map<u64, Vec<usize>>, res: Seq<ItemSet>, m: Map<usize, usize>)
    requires groups(lr, lr.len() as int, ord, mp), keys_of(ord, mp), no_collision(lr), results(lr, ord, mp, ord.len() as int, res, m), lr.len() <= isize::MAX ensures merged(lr, res, m)
{
    reveal(groups); reveal(results); reveal(no_collision); reveal(merged);
    let n = ord.len() as int;
    assert forall|i: int| 0 <= i < lr.len() implies #[trigger] before(lr, ord, n, i) by { assert(grouped(lr, mp, i)); assert(ord.contains(cd(lr[i]))); }
    assert forall|i: usize| i < lr.len() implies #[trigger] m[i] < res.len() && core(res[m[i] as int]) == core(lr[i as int]) && ord[m[i] as int] == cd(lr[i as int]) by {
        assert(before(lr, ord, n, i as int));
        let k = choose|k: int| 0 <= k < n && #[trigger] ord[k] == cd(lr[i as int]);
        assert(m[i] == k);
        let v = mp[ord[k]]@;
        assert(union_of(lr, v, v.len() as int, res[k]));
        assert(ord.contains(ord[k]) && mp.contains_key(ord[k]));
        assert(group_ok(lr, lr.len() as int, v, ord[k]));
        assert(v[0] < lr.len());
    }
    assert forall|i: usize, j: usize| i < lr.len() && j < lr.len() implies (#[trigger] m[i] == #[trigger] m[j] <==> core(lr[i as int]) == core(lr[j as int])) by {
        if core(lr[i as int]) == core(lr[j as int]) {
            assert(before(lr, ord, n, i as int));
            let k = choose|k: int| 0 <= k < n && #[trigger] ord[k] == cd(lr[i as int]);
            assert(m[i] == k && m[j] == k);
        }
    }
    assert forall|k: int| 0 <= k < res.len() implies #[trigger] used(lr, m, k) by {
        let v = mp[ord[k]]@;
        assert(ord.contains(ord[k]) && mp.contains_key(ord[k]));
        assert(group_ok(lr, lr.len() as int, v, ord[k]));
        assert(v[0] < lr.len() && m[v[0]] == k);
    }
    assert forall|k: int, e: Entry1| 0 <= k < res.len() implies (#[trigger] hasp(res[k].0@, e) <==> in_some(lr, m, k, e)) by {
        let v = mp[ord[k]]@;
        assert(union_of(lr, v, v.len() as int, res[k]));
        assert(ord.contains(ord[k]) && mp.contains_key(ord[k]));
        assert(group_ok(lr, lr.len() as int, v, ord[k]));
        if in_first(lr, v, v.len() as int, e) { let p = choose|p: int| 0 <= p < v.len() && hasp(lr[#[trigger] v[p] as int].0@, e); assert(v[p] < lr.len()); assert(m[v[p]] == k); }
        if in_some(lr, m, k, e) {
            let i = choose|i: usize| i < lr.len() && #[trigger] m[i] == k && hasp(lr[i as int].0@, e);
            assert(grouped(lr, mp, i as int));
            assert(in_grp(v, i as int));
            let p = choose|p: int| 0 <= p < v.len() && #[trigger] v[p] == i;
            assert(in_first(lr, v, v.len() as int, e));
        }
    }
    if lr.len() > 0 { assert(ord[0] == cd(lr[0])); assert(m[0usize] == 0); }
}

@module isets = lalr/item.rs
@fn ItemSet::core_hash
@spec
    ensures r == cd(*self),
@hint start
    proof { assert(Seq::<Word>::empty() + core_words(core(*self)) =~= core_words(core(*self))); }
@fn ItemSet::core_hash_with_hasher
@spec
    ensures r == digest::<H>(h.fed() + core_words(core(*self))),
@hint start
    let ghost h0 = h.fed();
    proof { assert(h0 + Seq::<Word>::empty() =~= h0); }
@loop 1
    invariant key_list($s, core(*self)), h.fed() == h0 + wseq($s, $i),
@hint loop 1 start
    proof { assert(h0 + wseq($s, $i) =~= (h0 + wseq($s, $i - 1)) + words_of(*$s[$i - 1])); }
@hint loop 1 after
    proof { words_done($s, core(*self)); }
@fn ItemSet::same_core
@spec
    ensures r == (core(*self) == core(*other)),
@hint start
    proof { same_keys_all(core(*self), core(*other)); }
@fn ItemSet::union
@loopkind 1 mapmut
@spec
    requires core(*old(self)) == core(other),
    ensures core(*final(self)) == core(*old(self)), joined(*old(self), other, *final(self)),
@hint start
    let ghost a0 = *self;
@hint loop 1 before
    proof { joining_0(a0.0@, other.0@, $s); }
    let ghost mut c1 = self.0@;
    proof { assert(c1.dom() == core(a0)); }
@loop 1
    invariant enumerates($s, core(a0)), c1 == self.0@, c1.dom() == core(a0), joining(a0.0@, other.0@, c1, $s, $i),
@hint loop 1 start
    proof { joining_dom(a0.0@, other.0@, c1, $s, $i - 1); assert($s.contains($s[$i - 1])); assert(core(a0).contains($s[$i - 1])); assert(c1.dom().contains($s[$i - 1])); assert(core(other).contains($s[$i - 1])); }
@hint loop 1 end
    proof { assert(self.0@ =~= c1.insert($s[$i - 1], self.0@[$s[$i - 1]])); joining_step(a0.0@, other.0@, c1, $s, $i - 1, self.0@); c1 = self.0@; joining_dom(a0.0@, other.0@, c1, $s, $i); }
@hint loop 1 after
    proof { joining_done(a0, other, *self, $s); }

@module merge = lalr/table.rs
@fn merge_cores
@attr #[verifier::rlimit(100)]
@spec
    requires no_collision(lr_sets@),
    ensures merged(lr_sets@, r.0@, r.1@),
@hint start
    let ghost lr = lr_sets@;
    proof { index_set_distinct(*lr_sets); }
@hint loop 1 before
    proof { groups_0(lr, core_hash_to_index.order(), core_hash_to_index@); }
@loop 1
    invariant $s.len() == lr.len(), forall|k: int| 0 <= k < lr.len() ==> #[trigger] $s[k] == (k as usize, &lr[k]), groups(lr, $i, core_hash_to_index.order(), core_hash_to_index@), $i == 0 ==> core_hash_to_index.order().len() == 0 && core_hash_to_index@ == Map::<u64, Vec<usize>>::empty(),
@hint loop 1 start
    let ghost o1 = core_hash_to_index.order();
    let ghost m1 = core_hash_to_index@;
@hint loop 1 end
    proof { groups_step(lr, $i - 1, o1, m1, core_hash_to_index.order(), core_hash_to_index@); }
@hint loop 1 after
    let ghost ord = core_hash_to_index.order();
    let ghost mp = core_hash_to_index@;
    proof { index_map_order(core_hash_to_index); assert(keys_of(ord, mp)); }
@hint loop 2 before
    proof { cloned_0(lr, Seq::empty()); }
@loop 2
    invariant $s == refs::<ItemSet>(lr), $acc@.len() == $i, cloned_to(lr, $acc@),
@hint loop 2 start
    let ghost a2 = $acc@;
@hint loop 2 end
    proof { let q = $acc@; assert(q == a2.push(q.last())); cloned_push(lr, a2, q.last()); }
@hint loop 3 before
    proof { slots_0(lr, ord, mdv(lalr_sets), presence_vec.bits()); results_0(lr, ord, mp, resulting@, lr_to_lalr@); }
@loop 3
    invariant $s == refs::<u64>(ord), results(lr, ord, mp, $i, resulting@, lr_to_lalr@), slots(lr, ord, $i, lalr_sets@, presence_vec.bits()),
@hint loop 3 start
    let ghost n = $i - 1;
    let ghost m3 = lr_to_lalr@;
    let ghost s3 = lalr_sets@;
    let ghost b3 = presence_vec.bits();
    let ghost r3 = resulting@;
    let ghost v = mp[ord[n]]@;
    proof { group_takeable(lr, ord, mp, n, s3, b3); indexed_0(m3, v, n); results_len(lr, ord, mp, n, r3, m3); }
@loop 4
    invariant $s == refs::<usize>(v), indexed(m3, v, $i, n, lr_to_lalr@),
@hint loop 4 end
    proof { indexed_step(m3, v, $i - 1, n, m4); }
@hint loop 4 start
    let ghost m4 = lr_to_lalr@;
@hint after let merged_set 1
    let ghost x3 = merged_set;
@hint loop 3 end
    proof { results_step(lr, ord, mp, n, s3, b3, lalr_sets@, presence_vec.bits(), r3, m3, lr_to_lalr@, x3, resulting@); }
@hint loop 3 after
    proof { results_done(lr, ord, mp, resulting@, lr_to_lalr@); }
@fn merge_sets_with_same_core
@attr #[verifier::rlimit(100)]
@spec
    requires takeable(old(lalr_sets)@, old(presence_vec).bits(), indices@),
    ensures merging(old(lalr_sets)@, old(presence_vec).bits(), final(lalr_sets)@, final(presence_vec).bits(), indices@, indices@.len() as int, r),
@hint start
    let ghost s0 = lalr_sets@;
    let ghost b0 = presence_vec.bits();
    let ghost v = indices@;
    proof { takeable_len(s0, b0, v); takeable_at(s0, b0, v, 0); }
@hint after let item_set 1
    proof { merging_1(s0, b0, lalr_sets@, presence_vec.bits(), v, lalr_sets@[v[0] as int], item_set); }
@loop 1
    invariant $s == refs::<usize>(v).skip(1), merging(s0, b0, lalr_sets@, presence_vec.bits(), v, $i + 1, item_set),
@hint loop 1 start
    let ghost s1 = lalr_sets@;
    let ghost b1 = presence_vec.bits();
    let ghost r1 = item_set;
    proof { merging_next(s0, b0, s1, b1, v, $i, item_set); assert(*i == v[$i]); }
@hint loop 1 end
    proof { assert(lalr_sets@ =~= s1.update(v[$i] as int, lalr_sets@[v[$i] as int])); merging_step(s0, b0, s1, b1, v, $i, r1, lalr_sets@[v[$i] as int], item_set); }
