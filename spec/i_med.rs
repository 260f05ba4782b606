// The median of an odd number of integers, by counting.
verus! {
pub open spec fn sortedi(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j] }
/// m is the middle element of the sorted sequence
pub open spec fn is_median(ts: Seq<int>, m: int) -> bool {
    exists|s: Seq<int>| #[trigger] sortedi(s) && s.to_multiset() == ts.to_multiset() && s.len() == ts.len() && s[(s.len() / 2) as int] == m
}
pub open spec fn ltp(m: int) -> spec_fn(int) -> bool { |x: int| x < m }
pub open spec fn gtp(m: int) -> spec_fn(int) -> bool { |x: int| x > m }
pub open spec fn eqp(m: int) -> spec_fn(int) -> bool { |x: int| x == m }
pub open spec fn nlt(s: Seq<int>, m: int) -> int { s.to_multiset().filter(ltp(m)).len() as int }
pub open spec fn ngt(s: Seq<int>, m: int) -> int { s.to_multiset().filter(gtp(m)).len() as int }
pub open spec fn neq(s: Seq<int>, m: int) -> int { s.to_multiset().filter(eqp(m)).len() as int }
pub open spec fn all_fit(s: Seq<int>, n: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> fit(#[trigger] s[i], n) }
proof fn filter_push(s: Seq<int>, x: int, p: spec_fn(int) -> bool)
    ensures s.push(x).to_multiset().filter(p).len() == s.to_multiset().filter(p).len() + b2i(p(x)),
{
    broadcast use {vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    assert(s.push(x).to_multiset() =~= s.to_multiset().insert(x));
    let a = s.to_multiset().insert(x).filter(p); let b = s.to_multiset().filter(p);
    if p(x) { assert(a =~= b.insert(x)); } else { assert(a =~= b); }
}
pub proof fn counts_push(s: Seq<int>, x: int, m: int)
    ensures nlt(s.push(x), m) == nlt(s, m) + b2i(x < m), ngt(s.push(x), m) == ngt(s, m) + b2i(x > m), neq(s.push(x), m) == neq(s, m) + b2i(x == m),
{
    filter_push(s, x, ltp(m)); filter_push(s, x, gtp(m)); filter_push(s, x, eqp(m));
}
pub proof fn counts_empty(m: int)
    ensures nlt(seq![], m) == 0, ngt(seq![], m) == 0, neq(seq![], m) == 0,
{
    broadcast use {vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let e = Seq::<int>::empty();
    assert(e.to_multiset() =~= Multiset::empty());
    assert(e.to_multiset().filter(ltp(m)) =~= Multiset::empty());
    assert(e.to_multiset().filter(gtp(m)) =~= Multiset::empty());
    assert(e.to_multiset().filter(eqp(m)) =~= Multiset::empty());
    assert(e =~= seq![]);
}
pub proof fn counts_take(s: Seq<int>, i: int, m: int)
    requires 0 <= i < s.len(),
    ensures nlt(s.take(i + 1), m) == nlt(s.take(i), m) + b2i(s[i] < m), ngt(s.take(i + 1), m) == ngt(s.take(i), m) + b2i(s[i] > m), neq(s.take(i + 1), m) == neq(s.take(i), m) + b2i(s[i] == m),
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    counts_push(s.take(i), s[i], m);
}
pub proof fn counts_sum(s: Seq<int>, m: int)
    ensures nlt(s, m) + ngt(s, m) + neq(s, m) == s.len(),
    decreases s.len(),
{
    if s.len() == 0 { assert(s =~= seq![]); counts_empty(m); }
    else { let i = s.len() - 1; counts_sum(s.take(i), m); counts_take(s, i, m); assert(s.take(i + 1) =~= s); }
}
/// the elements before k are below m, or those from k on are not
proof fn cut(s: Seq<int>, m: int, k: int)
    requires 0 <= k <= s.len(),
    ensures (forall|j: int| 0 <= j < k ==> s[j] < m) ==> nlt(s, m) >= k,
        (forall|j: int| k <= j < s.len() ==> s[j] >= m) ==> nlt(s, m) <= k,
        (forall|j: int| k <= j < s.len() ==> s[j] > m) ==> ngt(s, m) >= s.len() - k,
        (forall|j: int| 0 <= j < k ==> s[j] <= m) ==> ngt(s, m) <= s.len() - k,
    decreases s.len(),
{
    if s.len() == 0 { assert(s =~= seq![]); counts_empty(m); }
    else {
        let i = s.len() - 1;
        let t = s.take(i);
        counts_take(s, i, m); assert(s.take(i + 1) =~= s);
        if k <= i { cut(t, m, k); } else { cut(t, m, i); }
        assert((forall|j: int| 0 <= j < k ==> s[j] < m) ==> (forall|j: int| 0 <= j < k && j < i ==> t[j] < m));
        assert((forall|j: int| 0 <= j < k ==> s[j] <= m) ==> (forall|j: int| 0 <= j < k && j < i ==> t[j] <= m));
        assert((forall|j: int| k <= j < s.len() ==> s[j] >= m) ==> (forall|j: int| k <= j < i ==> t[j] >= m));
        assert((forall|j: int| k <= j < s.len() ==> s[j] > m) ==> (forall|j: int| k <= j < i ==> t[j] > m));
    }
}
proof fn median_sorted(s: Seq<int>, m: int)
    requires sortedi(s), s.len() % 2 == 1,
    ensures (s[(s.len() / 2) as int] == m) == (nlt(s, m) <= s.len() / 2 && ngt(s, m) <= s.len() / 2),
{
    let h = (s.len() / 2) as int;
    assert(s.len() == 2 * h + 1);
    if s[h] == m { cut(s, m, h); cut(s, m, h + 1); }
    else if s[h] < m { cut(s, m, h + 1); }
    else { cut(s, m, h); }
}
/// it is the median if and only if it is more often there than the counts on its two sides differ
pub proof fn median_counts(ts: Seq<int>, m: int)
    requires ts.len() % 2 == 1,
    ensures is_median(ts, m) == ({ let d = nlt(ts, m) - ngt(ts, m); (if d < 0 { -d } else { d }) + 1 <= neq(ts, m) }),
{
    counts_sum(ts, m);
    let leq = |x: int, y: int| x <= y;
    let r = ts.sort_by(leq);
    assert(vstd::relations::total_ordering(leq));
    ts.lemma_sort_by_ensures(leq);
    assert forall|i: int, j: int| 0 <= i <= j < r.len() implies r[i] <= r[j] by { if i < j { assert(leq(r[i], r[j])); } }
    assert(sortedi(r));
    assert(r.to_multiset() =~= ts.to_multiset());
    broadcast use {vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    assert(r.len() == r.to_multiset().len() && ts.len() == ts.to_multiset().len());
    median_sorted(r, m);
    assert(nlt(r, m) == nlt(ts, m) && ngt(r, m) == ngt(ts, m));
    if is_median(ts, m) {
        let s = choose|s: Seq<int>| #[trigger] sortedi(s) && s.to_multiset() == ts.to_multiset() && s.len() == ts.len() && s[(s.len() / 2) as int] == m;
        median_sorted(s, m);
    }
}
} // verus!
