@module overlap = lex/dfa.rs
@text
// --- character ranges as sets of characters ---
pub open spec fn subr(a: Match, b: Match) -> bool { b.range.start <= a.range.start && a.range.end <= b.range.end }
pub open spec fn pairwise(v: Seq<Match>) -> bool {
    forall|i: int, j: int| 0 <= i < j < v.len() ==> !overlap(#[trigger] v[i], #[trigger] v[j])
}
#[verifier::opaque]
pub open spec fn cov(v: Seq<Match>, from: int, c: int) -> bool {
    exists|i: int| from <= i < v.len() && inr(#[trigger] v[i], c)
}
/// `w` covers what `v` covers and `r`
#[verifier::opaque]
pub open spec fn adds(w: Seq<Match>, v: Seq<Match>, r: Match) -> bool {
    forall|c: int| #[trigger] cov(w, 0, c) <==> cov(v, 0, c) || inr(r, c)
}
pub proof fn adds_at(w: Seq<Match>, v: Seq<Match>, r: Match, c: int)
    requires adds(w, v, r)
    ensures cov(w, 0, c) <==> cov(v, 0, c) || inr(r, c)
{ reveal(adds); }
pub proof fn cov_of(v: Seq<Match>, i: int, from: int, c: int)
    requires from <= i < v.len(), inr(v[i], c)
    ensures cov(v, from, c)
{ reveal(cov); }
/// `m` lies inside `r` or outside it
pub open spec fn atomic(m: Match, r: Match) -> bool { nonempty(m) ==> subr(m, r) || !overlap(m, r) }
/// where `m` comes from when `r` is added to `v`
pub open spec fn origin(m: Match, v: Seq<Match>, r: Match) -> bool {
    nonempty(m) ==> {
        ||| exists|i: int| 0 <= i < v.len() && subr(m, #[trigger] v[i])
        ||| subr(m, r) && forall|i: int| 0 <= i < v.len() ==> !overlap(m, #[trigger] v[i])
    }
}
/// the characters of `r` that are covered by `v` from position `from`
pub open spec fn shared(r: Match, v: Seq<Match>, from: int) -> Set<int> {
    vstd::set_lib::set_int_range(r.range.start as int, r.range.end as int).filter(|c: int| cov(v, from, c))
}
pub proof fn shared_finite(r: Match, v: Seq<Match>, from: int)
    ensures shared(r, v, from).finite()
{
    vstd::set_lib::lemma_int_range(r.range.start as int, if r.range.start <= r.range.end { r.range.end as int } else { r.range.start as int });
    if r.range.start > r.range.end {
        assert(vstd::set_lib::set_int_range(r.range.start as int, r.range.end as int) =~= Set::<int>::empty());
    }
}
pub proof fn shared_less(r1: Match, v1: Seq<Match>, f1: int, r2: Match, v2: Seq<Match>, f2: int, x: int)
    requires
        forall|c: int| inr(r1, c) && cov(v1, f1, c) ==> inr(r2, c) && cov(v2, f2, c),
        inr(r2, x), cov(v2, f2, x), !inr(r1, x),
    ensures shared(r1, v1, f1).len() < shared(r2, v2, f2).len()
{
    let a = shared(r1, v1, f1);
    let b = shared(r2, v2, f2);
    shared_finite(r1, v1, f1);
    shared_finite(r2, v2, f2);
    assert(b.contains(x));
    assert forall|c: int| a.contains(c) implies b.remove(x).contains(c) by {
        assert(inr(r1, c) && cov(v1, f1, c));
    }
    assert(a.subset_of(b.remove(x)));
    vstd::set_lib::lemma_len_subset(a, b.remove(x));
}
pub proof fn cov_upd(v: Seq<Match>, k: int, m: Match, w: Seq<Match>, c: int)
    requires 0 <= k < v.len(), w =~= v.update(k, m)
    ensures
        cov(v, 0, c) ==> cov(w, 0, c) || inr(v[k], c),
        cov(w, 0, c) ==> cov(v, 0, c) || inr(m, c),
        inr(m, c) ==> cov(w, 0, c),
        inr(v[k], c) ==> cov(v, 0, c),
{
    reveal(cov);
    if cov(v, 0, c) {
        let i = choose|i: int| 0 <= i < v.len() && inr(#[trigger] v[i], c);
        if i != k { assert(inr(w[i], c)); }
    }
    if cov(w, 0, c) {
        let i = choose|i: int| 0 <= i < w.len() && inr(#[trigger] w[i], c);
        if i != k { assert(inr(v[i], c)); }
    }
    if inr(m, c) { assert(inr(w[k], c)); }
}
pub proof fn cov_push(v: Seq<Match>, m: Match, w: Seq<Match>, c: int)
    requires w =~= v.push(m)
    ensures cov(w, 0, c) <==> cov(v, 0, c) || inr(m, c)
{
    reveal(cov);
    if cov(v, 0, c) {
        let i = choose|i: int| 0 <= i < v.len() && inr(#[trigger] v[i], c);
        assert(inr(w[i], c));
    }
    if cov(w, 0, c) {
        let i = choose|i: int| 0 <= i < w.len() && inr(#[trigger] w[i], c);
        if i < v.len() { assert(inr(v[i], c)); }
    }
    if inr(m, c) { assert(inr(w[v.len() as int], c)); }
}
pub open spec fn mx(a: u32, b: u32) -> u32 { if a >= b { a } else { b } }
pub open spec fn mn(a: u32, b: u32) -> u32 { if a <= b { a } else { b } }
/// Adding the three pieces of the overlap of `r` with `v[k]` one after the other.
pub proof fn origin_split(m: Match, v0: Seq<Match>, k: int, r: Match, low: Match, mid: Match, high: Match, v1: Seq<Match>, v2: Seq<Match>)
    requires
        0 <= k < v0.len(), overlap(v0[k], r), pairwise(v0),
        forall|i: int| 0 <= i < k ==> !overlap(#[trigger] v0[i], r),
        v1 == v0.update(k, mid),
        mid.range.start == mx(r.range.start, v0[k].range.start), mid.range.end == mn(r.range.end, v0[k].range.end),
        low.range.start == mn(r.range.start, v0[k].range.start), low.range.end == mid.range.start,
        high.range.start == mid.range.end, high.range.end == mx(r.range.end, v0[k].range.end),
        forall|j: int| 0 <= j < v2.len() ==> origin(#[trigger] v2[j], v1, low),
        forall|j: int| 0 <= j < v2.len() ==> atomic(#[trigger] v2[j], low),
        adds(v2, v1, low),
        origin(m, v2, high), atomic(m, high),
    ensures origin(m, v0, r), atomic(m, r)
{
    if nonempty(m) {
        if exists|i: int| 0 <= i < v2.len() && subr(m, #[trigger] v2[i]) {
            let i = choose|i: int| 0 <= i < v2.len() && subr(m, #[trigger] v2[i]);
            assert(origin(v2[i], v1, low) && atomic(v2[i], low));
            if exists|h: int| 0 <= h < v1.len() && subr(v2[i], #[trigger] v1[h]) {
                let h = choose|h: int| 0 <= h < v1.len() && subr(v2[i], #[trigger] v1[h]);
                assert(subr(m, v0[h]));
                if h < k { assert(!overlap(v0[h], v0[k])); }
                if h > k { assert(!overlap(v0[k], v0[h])); }
            } else {
                if subr(low, v0[k]) {
                    assert(subr(m, v0[k]));
                } else {
                    assert forall|h: int| 0 <= h < v0.len() implies !overlap(m, #[trigger] v0[h]) by {
                        if h != k { assert(v1[h] == v0[h]); }
                    }
                }
            }
        } else if subr(high, v0[k]) {
            assert(subr(m, v0[k]));
        } else {
            assert forall|h: int| 0 <= h < v0.len() implies !overlap(m, #[trigger] v0[h]) by {
                if h != k && overlap(m, v0[h]) {
                    let c = mx(m.range.start, v0[h].range.start) as int;
                    cov_of(v1, h, 0, c);
                    adds_at(v2, v1, low, c);
                    reveal(cov);
                    let i = choose|i: int| 0 <= i < v2.len() && inr(#[trigger] v2[i], c);
                    assert(overlap(m, v2[i]));
                }
            }
        }
    }
}
pub open spec fn pre(v: Seq<Match>, from: int, r: Match) -> bool {
    &&& 0 <= from <= v.len()
    &&& pairwise(v)
    &&& forall|i: int| 0 <= i < from ==> !overlap(#[trigger] v[i], r)
}
/// what adding `r` to `v` from position `from` gives
pub open spec fn added(w: Seq<Match>, v: Seq<Match>, r: Match, from: int) -> bool {
    &&& pairwise(w)
    &&& w.len() >= v.len()
    &&& forall|i: int| 0 <= i < from ==> #[trigger] w[i] == v[i]
    &&& adds(w, v, r)
    &&& forall|j: int| 0 <= j < w.len() ==> atomic(#[trigger] w[j], r)
    &&& forall|j: int| 0 <= j < w.len() ==> origin(#[trigger] w[j], v, r)
}
#[verifier::opaque]
pub open spec fn pre_o(v: Seq<Match>, from: int, r: Match) -> bool { pre(v, from, r) }
#[verifier::opaque]
pub open spec fn added_o(w: Seq<Match>, v: Seq<Match>, r: Match, from: int) -> bool { added(w, v, r, from) }
pub open spec fn measure(r: Match, v: Seq<Match>, from: int) -> nat { shared(r, v, from).len() }

pub open spec fn pieces(o: Match, r: Match, low: Match, mid: Match, high: Match) -> bool {
    &&& overlap(o, r)
    &&& mid.range.start == mx(r.range.start, o.range.start) && mid.range.end == mn(r.range.end, o.range.end)
    &&& low.range.start == mn(r.range.start, o.range.start) && low.range.end == mid.range.start
    &&& high.range.start == mid.range.end && high.range.end == mx(r.range.end, o.range.end)
}
/// position k is the first that overlaps r
pub open spec fn first_overlap(v: Seq<Match>, from: int, k: int, r: Match) -> bool {
    &&& from <= k < v.len() && overlap(v[k], r)
    &&& forall|i: int| from <= i < k ==> !overlap(#[trigger] v[i], r)
}
pub proof fn step_low(v0: Seq<Match>, from: int, k: int, r: Match, low: Match, mid: Match, high: Match, v1: Seq<Match>)
    requires pre_o(v0, from, r), first_overlap(v0, from, k, r), pieces(v0[k], r, low, mid, high), v1 =~= v0.update(k, mid),
    ensures pre_o(v1, k + 1, low), measure(low, v1, k + 1) < measure(r, v0, from),
{
    reveal(pre_o);
    assert forall|i: int, j: int| 0 <= i < j < v1.len() implies !overlap(#[trigger] v1[i], #[trigger] v1[j]) by {
        assert(!overlap(v0[i], v0[j]));
    }
    assert forall|i: int| 0 <= i < k + 1 implies !overlap(#[trigger] v1[i], low) by {
        if i < k { assert(!overlap(v0[i], v0[k])); assert(!overlap(v0[i], r)); }
    }
    assert forall|c: int| inr(low, c) && cov(v1, k + 1, c) implies inr(r, c) && cov(v0, from, c) by {
        reveal(cov);
        let q = choose|q: int| k + 1 <= q < v1.len() && inr(#[trigger] v1[q], c);
        assert(v1[q] == v0[q]);
        assert(!overlap(v0[k], v0[q]));
    }
    cov_of(v0, k, from, mid.range.start as int);
    shared_less(low, v1, k + 1, r, v0, from, mid.range.start as int);
}
pub proof fn step_high(v0: Seq<Match>, from: int, k: int, r: Match, low: Match, mid: Match, high: Match, v1: Seq<Match>, v2: Seq<Match>)
    requires
        pre_o(v0, from, r), first_overlap(v0, from, k, r), pieces(v0[k], r, low, mid, high), v1 == v0.update(k, mid),
        added_o(v2, v1, low, k + 1),
    ensures pre_o(v2, k + 1, high), v2.len() >= v1.len(), measure(high, v2, k + 1) < measure(r, v0, from),
{
    reveal(pre_o);
    reveal(added_o);
    assert forall|i: int| 0 <= i < k + 1 implies !overlap(#[trigger] v2[i], high) by {
        assert(v2[i] == v1[i]);
        if i < k { assert(!overlap(v0[i], v0[k])); assert(!overlap(v0[i], r)); }
    }
    assert forall|c: int| inr(high, c) && cov(v2, k + 1, c) implies inr(r, c) && cov(v0, from, c) by {
        reveal(cov);
        let q = choose|q: int| k + 1 <= q < v2.len() && inr(#[trigger] v2[q], c);
        cov_of(v2, q, 0, c);
        adds_at(v2, v1, low, c);
        let p = choose|p: int| 0 <= p < v1.len() && inr(#[trigger] v1[p], c);
        if p <= k { assert(v2[p] == v1[p]); assert(overlap(v2[p], v2[q])); }
        assert(v1[p] == v0[p]);
        assert(!overlap(v0[k], v0[p]));
    }
    cov_of(v0, k, from, mid.range.start as int);
    shared_less(high, v2, k + 1, r, v0, from, mid.range.start as int);
}
pub proof fn step_done(v0: Seq<Match>, from: int, k: int, r: Match, low: Match, mid: Match, high: Match, v1: Seq<Match>, v2: Seq<Match>, v3: Seq<Match>)
    requires
        pre_o(v0, from, r), first_overlap(v0, from, k, r), pieces(v0[k], r, low, mid, high), v1 == v0.update(k, mid),
        added_o(v2, v1, low, k + 1), added_o(v3, v2, high, k + 1),
    ensures added_o(v3, v0, r, from)
{
    reveal(pre_o);
    reveal(added_o);
    assert(adds(v3, v0, r)) by {
        reveal(adds);
        assert forall|c: int| #[trigger] cov(v3, 0, c) <==> cov(v0, 0, c) || inr(r, c) by {
            cov_upd(v0, k, mid, v1, c);
            adds_at(v2, v1, low, c);
            adds_at(v3, v2, high, c);
            assert(inr(low, c) || inr(mid, c) || inr(high, c) <==> inr(r, c) || inr(v0[k], c));
        }
    }
    assert forall|i: int| 0 <= i < k implies !overlap(#[trigger] v0[i], r) by {}
    assert forall|j: int| 0 <= j < v3.len() implies origin(#[trigger] v3[j], v0, r) && atomic(v3[j], r) by {
        origin_split(v3[j], v0, k, r, low, mid, high, v1, v2);
    }
    assert forall|i: int| 0 <= i < from implies #[trigger] v3[i] == v0[i] by { assert(v2[i] == v1[i]); }
}
pub proof fn step_same(v: Seq<Match>, from: int, k: int, r: Match)
    requires pre_o(v, from, r), !nonempty(r) || (0 <= k < v.len() && v[k] == r),
    ensures added_o(v, v, r, from)
{
    reveal(pre_o);
    reveal(added_o);
    reveal(adds);
    assert forall|c: int| #[trigger] cov(v, 0, c) <==> cov(v, 0, c) || inr(r, c) by { if inr(r, c) { cov_of(v, k, 0, c); } }
    assert forall|j: int| 0 <= j < v.len() implies origin(#[trigger] v[j], v, r) by { assert(subr(v[j], v[j])); }
    assert forall|j: int| 0 <= j < v.len() implies atomic(#[trigger] v[j], r) by {
        if nonempty(r) {
            if j < k { assert(!overlap(v[j], v[k])); }
            if j > k { assert(!overlap(v[k], v[j])); }
        }
    }
}
pub proof fn step_push(v: Seq<Match>, from: int, r: Match, w: Seq<Match>)
    requires pre_o(v, from, r), forall|i: int| from <= i < v.len() ==> !overlap(#[trigger] v[i], r), w =~= v.push(r),
    ensures added_o(w, v, r, from)
{
    reveal(pre_o);
    reveal(added_o);
    assert(adds(w, v, r)) by {
        reveal(adds);
        assert forall|c: int| #[trigger] cov(w, 0, c) <==> cov(v, 0, c) || inr(r, c) by { cov_push(v, r, w, c); }
    }
    assert forall|j: int| 0 <= j < w.len() implies origin(#[trigger] w[j], v, r) by {
        if j < v.len() { assert(subr(w[j], v[j])); }
    }
}
/// C03: `v` is the alphabet of `ranges`
pub open spec fn alphabet_of(v: Seq<Match>, ranges: Set<Match>) -> bool {
    &&& forall|j: int| 0 <= j < v.len() ==> nonempty(#[trigger] v[j])
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> !overlap(#[trigger] v[i], #[trigger] v[j])
    // together exactly the characters of the ranges
    &&& forall|c: int| #![trigger cov(v, 0, c)] cov(v, 0, c) <==> (exists|m: Match| #[trigger] ranges.contains(m) && inr(m, c))
    // and none lies partly inside a range
    &&& forall|j: int, m: Match| 0 <= j < v.len() && #[trigger] ranges.contains(m) ==> subr(#[trigger] v[j], m) || !overlap(v[j], m)
}
@fn add_range
@spec
    requires
        pre_o(old(disjoint_ranges)@, start_index as int, *range),
        start_index <= old(disjoint_ranges)@.len(),
    ensures
        added_o(final(disjoint_ranges)@, old(disjoint_ranges)@, *range, start_index as int),
    decreases measure(*range, old(disjoint_ranges)@, start_index as int),
@loop 1
invariant_except_break
    forall|m: int| 0 <= m < $i ==> !overlap(*#[trigger] $s[m], *range),
ensures
    $res matches Some(p) ==> 0 <= p < $s.len() && overlap(*$s[p as int], *range) && (forall|m: int| 0 <= m < p ==> !overlap(*#[trigger] $s[m], *range)),
    $res is None ==> forall|m: int| 0 <= m < $s.len() ==> !overlap(*#[trigger] $s[m], *range),
@hint start
    let ghost v0 = disjoint_ranges@;
    let ghost from0 = start_index as int;
    assert(disjoint_ranges.len() == v0.len());
    proof { if !nonempty(*range) { step_same(v0, from0, 0, *range); } }
@hint loop 1 after
    proof {
      assert(s1__.len() == v0.len() - start_index);
      assert forall|m: int| 0 <= m < s1__.len() implies *#[trigger] s1__[m] == v0[start_index + m] by {}
      match res1__ {
        Some(p) => {
            assert forall|m: int| start_index <= m < start_index + p implies !overlap(#[trigger] v0[m], *range) by { assert(*s1__[m - start_index] == v0[m]); }
            assert(first_overlap(v0, from0, start_index + p, *range));
        }
        None => { assert forall|m: int| start_index <= m < v0.len() implies !overlap(#[trigger] v0[m], *range) by { assert(*s1__[m - start_index] == v0[m]); } }
      }
    }
@hint after let overlapping_range 1
    let ghost k = index as int;
    proof { if overlapping_range == *range { step_same(v0, from0, k, *range); } }
@hint before call add_range 1
    assert(pieces(v0[k], *range, low_range, mid_range, max_range));
    let ghost v1 = disjoint_ranges@;
    proof { step_low(v0, from0, k, *range, low_range, mid_range, max_range, v1); }
@hint before call add_range 2
    let ghost v2 = disjoint_ranges@;
    proof { step_high(v0, from0, k, *range, low_range, mid_range, max_range, v1, v2); }
@hint after call add_range 2
    proof { step_done(v0, from0, k, *range, low_range, mid_range, max_range, v1, v2, disjoint_ranges@); }
@hint after call push 1
    proof { step_push(v0, from0, *range, disjoint_ranges@); }

@text
/// the alphabet of the first `n` ranges, empty ranges aside
#[verifier::opaque]
pub open spec fn split_upto<'a>(v: Seq<Match>, s: Seq<&'a Match>, n: int) -> bool {
    &&& pairwise(v)
    &&& forall|c: int| #[trigger] cov(v, 0, c) <==> (exists|i: int| 0 <= i < n && inr(*#[trigger] s[i], c))
    &&& forall|i: int, j: int| 0 <= i < n && 0 <= j < v.len() ==> atomic(#[trigger] v[j], *#[trigger] s[i])
}
pub proof fn split_none<'a>(s: Seq<&'a Match>)
    ensures split_upto(Seq::<Match>::empty(), s, 0)
{ reveal(split_upto); reveal(cov); }
pub proof fn split_pre<'a>(v: Seq<Match>, s: Seq<&'a Match>, n: int, r: Match)
    requires split_upto(v, s, n)
    ensures pre_o(v, 0, r)
{ reveal(split_upto); reveal(pre_o); }
pub proof fn split_step<'a>(v: Seq<Match>, s: Seq<&'a Match>, n: int, w: Seq<Match>)
    requires split_upto(v, s, n), 0 <= n < s.len(), added_o(w, v, *s[n], 0),
    ensures split_upto(w, s, n + 1)
{
    reveal(split_upto);
    reveal(added_o);
    let r = *s[n];
    assert forall|c: int| #[trigger] cov(w, 0, c) <==> (exists|i: int| 0 <= i < n + 1 && inr(*#[trigger] s[i], c)) by {
        adds_at(w, v, r, c);
        assert(cov(v, 0, c) <==> (exists|i: int| 0 <= i < n && inr(*#[trigger] s[i], c)));
        if inr(r, c) { assert(inr(*s[n], c)); }
    }
    assert forall|i: int, j: int| 0 <= i < n + 1 && 0 <= j < w.len() implies atomic(#[trigger] w[j], *#[trigger] s[i]) by {
        let m = w[j];
        if i < n && nonempty(m) {
            assert(origin(m, v, r));
            if exists|h: int| 0 <= h < v.len() && subr(m, #[trigger] v[h]) {
                let h = choose|h: int| 0 <= h < v.len() && subr(m, #[trigger] v[h]);
                assert(atomic(v[h], *s[i]));
            } else if overlap(m, *s[i]) {
                let c = mx(m.range.start, s[i].range.start) as int;
                assert(inr(*s[i], c));
                assert(cov(v, 0, c));
                reveal(cov);
                let h = choose|h: int| 0 <= h < v.len() && inr(#[trigger] v[h], c);
                assert(overlap(m, v[h]));
            }
        }
    }
}
pub open spec fn kept(w: Seq<Match>, v: Seq<Match>, n: int) -> bool {
    &&& pairwise(w)
    &&& forall|a: int| 0 <= a < w.len() ==> nonempty(#[trigger] w[a])
    &&& forall|a: int, m: int| 0 <= a < w.len() && n <= m < v.len() ==> !overlap(#[trigger] w[a], #[trigger] v[m])
    &&& forall|a: int| 0 <= a < w.len() ==> v.contains(#[trigger] w[a])
    &&& forall|m: int| 0 <= m < n && nonempty(v[m]) ==> w.contains(#[trigger] v[m])
}
pub proof fn kept_step(w: Seq<Match>, v: Seq<Match>, n: int, x: Seq<Match>)
    requires kept(w, v, n), pairwise(v), 0 <= n < v.len(), x == (if nonempty(v[n]) { w.push(v[n]) } else { w }),
    ensures kept(x, v, n + 1)
{
    assert forall|m: int| 0 <= m < n + 1 && nonempty(v[m]) implies x.contains(#[trigger] v[m]) by {
        if m == n { assert(x[w.len() as int] == v[n]); }
        else { assert(w.contains(v[m])); let a = choose|a: int| 0 <= a < w.len() && w[a] == v[m]; assert(x[a] == v[m]); }
    }
    assert forall|a: int| 0 <= a < x.len() implies v.contains(#[trigger] x[a]) by {
        if a < w.len() { assert(x[a] == w[a]); } else { assert(x[a] == v[n]); }
    }
    assert forall|a: int, m: int| 0 <= a < x.len() && n + 1 <= m < v.len() implies !overlap(#[trigger] x[a], #[trigger] v[m]) by {
        if a < w.len() { assert(x[a] == w[a]); } else { assert(!overlap(v[n], v[m])); }
    }
    assert forall|i: int, j: int| 0 <= i < j < x.len() implies !overlap(#[trigger] x[i], #[trigger] x[j]) by {
        assert(x[i] == w[i]);
        if j == w.len() { assert(x[j] == v[n]); assert(!overlap(w[i], v[n])); } else { assert(x[j] == w[j]); }
    }
}
pub proof fn alphabet_done<'a>(v: Seq<Match>, s: Seq<&'a Match>, w: Seq<Match>, ranges: Set<Match>)
    requires split_upto(v, s, s.len() as int), enum_refs(s, ranges), kept(w, v, v.len() as int),
    ensures alphabet_of(w, ranges)
{
    reveal(split_upto);
    reveal(cov);
    assert forall|c: int| #![trigger cov(w, 0, c)] cov(w, 0, c) <==> (exists|m: Match| #[trigger] ranges.contains(m) && inr(m, c)) by {
        if cov(w, 0, c) {
            let a = choose|a: int| 0 <= a < w.len() && inr(#[trigger] w[a], c);
            assert(v.contains(w[a]));
            let b = choose|b: int| 0 <= b < v.len() && v[b] == w[a];
            assert(inr(v[b], c));
            assert(cov(v, 0, c));
            let i = choose|i: int| 0 <= i < s.len() && inr(*#[trigger] s[i], c);
            assert(ranges.contains(*s[i]));
        }
        if exists|m: Match| #[trigger] ranges.contains(m) && inr(m, c) {
            let m = choose|m: Match| #[trigger] ranges.contains(m) && inr(m, c);
            let i = choose|i: int| 0 <= i < s.len() && *#[trigger] s[i] == m;
            assert(inr(*s[i], c));
            assert(cov(v, 0, c));
            let b = choose|b: int| 0 <= b < v.len() && inr(#[trigger] v[b], c);
            assert(w.contains(v[b]));
            let a = choose|a: int| 0 <= a < w.len() && w[a] == v[b];
            assert(inr(w[a], c));
        }
    }
    assert forall|j: int, m: Match| 0 <= j < w.len() && #[trigger] ranges.contains(m) implies subr(#[trigger] w[j], m) || !overlap(w[j], m) by {
        let i = choose|i: int| 0 <= i < s.len() && *#[trigger] s[i] == m;
        assert(v.contains(w[j]));
        let b = choose|b: int| 0 <= b < v.len() && v[b] == w[j];
        assert(atomic(v[b], *s[i]));
    }
}
@fn remove_overlap
@spec
    ensures alphabet_of(r@, ranges@),
@loop 1
invariant
    split_upto(disjoint_ranges@, $s, $i),
@hint loop 1 before
    proof { split_none($s); }
    assert(disjoint_ranges@ =~= Seq::<Match>::empty());
@hint loop 1 start
    let ghost v_old = disjoint_ranges@;
    proof { split_pre(v_old, $s, $i - 1, *range); }
@hint loop 1 end
    proof { split_step(v_old, $s, $i - 1, disjoint_ranges@); }
@hint loop 1 after
    let ghost v_all = disjoint_ranges@;
    let ghost rs = s1__;
    proof { reveal(split_upto); }
@loop 2
invariant
    $s == v_all, pairwise(v_all),
    kept(disjoint_ranges@, v_all, $i),
@hint loop 2 start
    let ghost w_old = disjoint_ranges@;
@hint loop 2 end
    proof { kept_step(w_old, v_all, $i - 1, disjoint_ranges@); }
@hint end
    proof { alphabet_done(v_all, rs, r__@, ranges@); }
