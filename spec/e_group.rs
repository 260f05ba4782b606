// Groups of limbs.
verus! {
/// k digits from the (g k)-th on, zero beyond the end
pub open spec fn chunk(s: Seq<int>, g: int, k: nat) -> Seq<int> { Seq::new(k, |j: int| at0(s, g * k + j)) }
pub open spec fn groups(s: Seq<int>, n: nat, k: nat, w: nat) -> Seq<int> { Seq::new(n, |g: int| ls(chunk(s, g, k), w)) }
pub open spec fn ones(k: nat) -> Seq<int> { Seq::new(k, |i: int| 1int) }
/// 1 + 2^w + ... + 2^(w (k-1))
pub open spec fn rep(w: nat, k: nat) -> int { ls(ones(k), w) }
pub open spec fn ngr(n: nat, k: nat) -> nat { if n > 0 && k > 0 { ((n - 1) / k as int + 1) as nat } else { 0 } }
pub proof fn ngr_enough(n: nat, k: nat)
    requires n > 0, k > 0,
    ensures ngr(n, k) * k >= n, ngr(n, k) >= 1, ngr(n, k) <= n, forall|i: int| 0 <= i < n ==> 0 <= #[trigger] (i / (k as int)) < ngr(n, k),
{
    lemma_fundamental_div_mod(n - 1, k as int);
    lemma_mod_bound(n - 1, k as int);
    let q = (n - 1) / k as int;
    lemma_div_pos_is_pos(n - 1, k as int);
    assert((q + 1) * k == k * q + k) by (nonlinear_arith);
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] (i / (k as int)) < ngr(n, k) by { lemma_div_is_ordered(i, n - 1, k as int); lemma_div_pos_is_pos(i, k as int); }
    lemma_div_nonincreasing(n - 1, k as int);
}
pub proof fn groups_ls(s: Seq<int>, n: nat, k: nat, w: nat)
    requires n * k >= s.len(), k > 0,
    ensures ls(groups(s, n, k, w), w * k) == ls(s, w), groups(s, n, k, w).len() == n,
{
    let c = Seq::new(n, |g: int| chunk(s, g, k));
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).len() == k && ls(c[i], w) == groups(s, n, k, w)[i] by {}
    ls_flat(c, groups(s, n, k, w), w, k);
    flat_len(c, k);
    assert(k * n == n * k) by (nonlinear_arith);
    let t = pad(s, k * n);
    assert forall|x: int| 0 <= x < k * n implies #[trigger] flat(c)[x] == t[x] by {
        split(x, k, n);
        let g = x / (k as int); let j = x % (k as int);
        flat_at(c, k, g, j);
        assert(c[g][j] == at0(s, g * k + j));
        assert(g * k == k * g) by (nonlinear_arith);
    }
    assert(flat(c) =~= t);
    ls_pad(s, k * n, w);
}
pub proof fn ls_upd(s: Seq<int>, j: int, x: int, w: nat)
    requires 0 <= j < s.len(),
    ensures ls(s.update(j, x), w) == ls(s, w) + (x - s[j]) * pow2(w * (j as nat)),
    decreases s.len(),
{
    let a = s.drop_last(); let t = s.update(j, x); let n = a.len();
    if j == n {
        assert(t.drop_last() =~= a);
        let p = pow2(w * n) as int; let y = s[j];
        assert(x * p == y * p + (x - y) * p) by (nonlinear_arith);
    } else {
        assert(t.drop_last() =~= a.update(j, x));
        assert(a[j] == s[j]);
        ls_upd(a, j, x, w);
        assert(t.last() == s.last());
    }
}
pub proof fn groups_step(s: Seq<int>, i: int, n: nat, k: nat, w: nat)
    requires 0 <= i < s.len(), s.len() <= n * k, k > 0,
    ensures 0 <= i / (k as int) < n, ({
        let g = i / (k as int); let old = groups(s.take(i), n, k, w);
        groups(s.take(i + 1), n, k, w) == old.update(g, old[g] + s[i] * pow2(w * ((i % (k as int)) as nat)))
    }),
{
    assert(n * k == k * n) by (nonlinear_arith);
    split(i, k, n);
    let g = i / (k as int); let j = i % (k as int);
    let a = s.take(i); let b = s.take(i + 1);
    let o = groups(a, n, k, w); let r = groups(b, n, k, w);
    assert forall|h: int| 0 <= h < n implies #[trigger] r[h] == o.update(g, o[g] + s[i] * pow2(w * (j as nat)))[h] by {
        let ca = chunk(a, h, k); let cb = chunk(b, h, k);
        if h == g {
            assert(g * k == k * g) by (nonlinear_arith);
            assert(cb =~= ca.update(j, s[i])) by { assert forall|x: int| 0 <= x < k implies #[trigger] cb[x] == ca.update(j, s[i])[x] by { assert(0 <= g * k) by (nonlinear_arith) requires g >= 0; if x < j { assert(b[g * k + x] == a[g * k + x]); } } }
            assert(ca[j] == 0) by { assert(g * k + j == i); }
            ls_upd(ca, j, s[i], w);
        } else {
            assert(ca =~= cb) by { assert forall|x: int| 0 <= x < k implies #[trigger] ca[x] == cb[x] by {
                let y = h * k + x;
                if y == i {
                    lemma_fundamental_div_mod_converse(i, k as int, h, x);
                    assert(h * k == k * h) by (nonlinear_arith);
                }
                if 0 <= y < i { assert(a[y] == b[y]); }
            } }
        }
    }
    assert(r =~= o.update(g, o[g] + s[i] * pow2(w * (j as nat))));
}
pub proof fn groups_zero(n: nat, k: nat, w: nat, s: Seq<int>)
    ensures forall|g: int| 0 <= g < n ==> #[trigger] groups(s.take(0), n, k, w)[g] == 0,
{
    assert forall|g: int| 0 <= g < n implies #[trigger] groups(s.take(0), n, k, w)[g] == 0 by {
        let c = chunk(s.take(0), g, k);
        assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] == 0 by {}
        ls_top0(c, w, 0);
        assert(c.take(0) =~= seq![]);
    }
}
pub proof fn groups_cong(s: Seq<int>, t: Seq<int>, n: nat, k: nat, w: nat)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> cong(#[trigger] s[i], t[i]),
    ensures forall|g: int| 0 <= g < n ==> cong(#[trigger] groups(s, n, k, w)[g], groups(t, n, k, w)[g]),
{
    assert forall|g: int| 0 <= g < n implies cong(#[trigger] groups(s, n, k, w)[g], groups(t, n, k, w)[g]) by {
        let a = chunk(s, g, k); let b = chunk(t, g, k);
        assert forall|i: int| 0 <= i < a.len() implies cong(#[trigger] a[i], b[i]) by { let x = g * k + i; c_refl(0); if 0 <= x < s.len() { assert(cong(s[x], t[x])); } }
        ls_cong(a, b, w);
    }
}
pub proof fn ls_le(s: Seq<int>, m: int, w: nat)
    requires all_le(s, m),
    ensures 0 <= ls(s, w) <= m * rep(w, s.len()),
    decreases s.len(),
{
    if s.len() == 0 { assert(m * 0 == 0) by (nonlinear_arith); assert(ones(0) =~= seq![]); } else {
        let a = s.drop_last(); let n = a.len();
        assert forall|i: int| 0 <= i < a.len() implies 0 <= #[trigger] a[i] <= m by { assert(0 <= s[i] <= m); }
        ls_le(a, m, w);
        assert(ones(s.len()).drop_last() =~= ones(n));
        let x = s[s.len() - 1]; let p = pow2(w * n) as int; lemma_pow2_pos(w * n);
        assert(0 <= x <= m);
        let r = rep(w, n);
        assert(0 <= x * p <= m * p && m * (r + 1 * p) == m * r + m * p) by (nonlinear_arith) requires 0 <= x <= m, p > 0;
    }
}
pub proof fn rep_step(w: nat, k: nat)
    requires w >= 1,
    ensures rep(w, k + 1) == rep(w, k) + pow2(w * k), 0 <= rep(w, k) < pow2(w * k), rep(w, 0) == 0, rep(w, 1) == 1,
{
    assert(ones(k + 1).drop_last() =~= ones(k));
    lemma_pow2_pos(w); p2_mono(1, w); lemma2_to64();
    ls_bound(ones(k), w);
    assert(ones(0) =~= seq![]);
    assert(ones(1).drop_last() =~= seq![]);
    assert(1 * pow2(w * k) == pow2(w * k)) by (nonlinear_arith);
    assert(w * 0 == 0) by (nonlinear_arith);
    assert(ones(1).last() == 1 && ones(1).len() == 1);
    assert(ls(ones(1), w) == ls(seq![], w) + 1 * pow2(w * 0));
    assert(ls(seq![], w) == 0);
}
pub proof fn rep_mul(w: nat, k: nat)
    requires w >= 1,
    ensures rep(w, k) * (pow2(w) - 1) == pow2(w * k) - 1,
    decreases k,
{
    rep_step(w, k);
    lemma2_to64();
    if k == 0 { assert(w * 0 == 0) by (nonlinear_arith); } else {
        let j = (k - 1) as nat;
        rep_step(w, j);
        rep_mul(w, j);
        assert(w * k == w * j + w) by (nonlinear_arith) requires k == j + 1;
        p2_add(w * j, w);
        let r = rep(w, j); let p = pow2(w * j) as int; let e = pow2(w) as int;
        assert((r + p) * (e - 1) == r * (e - 1) + p * e - p) by (nonlinear_arith);
        assert(p * e == pow2(w * k));
    }
}
pub proof fn groups_le(s: Seq<int>, m: int, n: nat, k: nat, w: nat)
    requires all_le(s, m), m >= 0,
    ensures all_le(groups(s, n, k, w), m * rep(w, k)),
{
    assert forall|g: int| 0 <= g < n implies 0 <= #[trigger] groups(s, n, k, w)[g] <= m * rep(w, k) by {
        let c = chunk(s, g, k);
        assert forall|i: int| 0 <= i < c.len() implies 0 <= #[trigger] c[i] <= m by { let x = g * k + i; if 0 <= x < s.len() { assert(0 <= s[x] <= m); } }
        ls_le(c, m, w);
    }
}
/// the remainder of a group's index
pub proof fn mod_next(i: int, k: int)
    requires i >= 0, k > 0,
    ensures (i + 1) % k == 0 || (i + 1) % k == i % k + 1, 0 <= i % k < k,
{
    lemma_fundamental_div_mod(i, k); lemma_mod_bound(i, k);
    let q = i / k; let r = i % k;
    if r + 1 < k { assert(i + 1 == q * k + (r + 1)) by (nonlinear_arith) requires i == k * q + r; lemma_fundamental_div_mod_converse(i + 1, k, q, r + 1); } else {
        assert(i + 1 == k * (q + 1)) by (nonlinear_arith) requires i == k * q + r, r + 1 == k;
        lemma_fundamental_div_mod_converse(i + 1, k, q + 1, 0);
    }
}
} // verus!
verus! {
pub proof fn c_dbl(f: int, i: nat)
    requires cong(f, pow2(i) as int),
    ensures cong((2 * f) % P(), pow2(i + 1) as int),
{
    p2(i); c_refl(2); c_mul(2, 2, f, pow2(i) as int); c_mod(2 * f); c_trans((2 * f) % P(), 2 * f, pow2(i + 1) as int);
}
pub proof fn g_step(sv: int, x: int, blk: int, w: nat, j: nat, o: int, t: int)
    requires cong(sv, pow2(w * j) as int), cong(blk, pow2(w) as int), cong(o, t),
    ensures cong((o + (sv * x) % P()) % P(), t + x * pow2(w * j)), cong(o + sv * x, t + x * pow2(w * j)), cong((sv * blk) % P(), pow2(w * (j + 1)) as int),
{
    let p = pow2(w * j) as int; let e = pow2(w) as int;
    c_refl(x); c_mul(sv, p, x, x);
    assert(p * x == x * p) by (nonlinear_arith);
    c_add(o, t, sv * x, x * p);
    c_mod(sv * x); c_refl(o); c_add(o, o, (sv * x) % P(), sv * x);
    c_trans(o + (sv * x) % P(), o + sv * x, t + x * p);
    c_mod(o + (sv * x) % P());
    c_trans((o + (sv * x) % P()) % P(), o + (sv * x) % P(), t + x * p);
    c_mul(sv, p, blk, e);
    assert(w * (j + 1) == w * j + w) by (nonlinear_arith);
    p2_add(w * j, w);
    c_mod(sv * blk); c_trans((sv * blk) % P(), sv * blk, p * e);
}
} // verus!
