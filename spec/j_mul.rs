verus! {
/// how many pairs of limbs meet in coefficient k
pub open spec fn cnt(k: int, n: int, m: int) -> int { let lo = if k - m + 1 > 0 { k - m + 1 } else { 0 }; let hi = if n < k + 1 { n } else { k + 1 }; if hi > lo { hi - lo } else { 0 } }
pub open spec fn mn(a: int, b: int) -> int { if a <= b { a } else { b } }
pub proof fn cv_bound(a: Seq<int>, b: Seq<int>, ma: int, mb: int, k: int)
    requires all_le(a, ma), all_le(b, mb), ma >= 0, mb >= 0,
    ensures 0 <= cv(a, b, k) <= cnt(k, a.len() as int, b.len() as int) * (ma * mb),
    decreases a.len(),
{
    assert(ma * mb >= 0) by (nonlinear_arith) requires ma >= 0, mb >= 0;
    let m = ma * mb;
    if a.len() == 0 { assert(0 * m == 0); } else {
        let a1 = a.drop_last(); let i = a.len() - 1;
        assert(all_le(a1, ma)) by { assert forall|j: int| 0 <= j < a1.len() implies 0 <= #[trigger] a1[j] <= ma by { assert(a1[j] == a[j]); } }
        cv_bound(a1, b, ma, mb, k);
        let x = a.last(); let y = at0(b, k - i);
        assert(0 <= x <= ma) by { assert(a[i] == x); }
        let c = cnt(k, i, b.len() as int);
        if 0 <= k - i < b.len() {
            assert(0 <= y <= mb) by { assert(b[k - i] == y); }
            assert(0 <= x * y <= m) by (nonlinear_arith) requires 0 <= x <= ma, 0 <= y <= mb, m == ma * mb;
            assert(cnt(k, i + 1, b.len() as int) == c + 1);
            assert((c + 1) * m == c * m + m) by (nonlinear_arith);
        } else {
            assert(x * 0 == 0);
            assert(cnt(k, i + 1, b.len() as int) == c);
        }
    }
}
/// the largest coefficient of a product
pub open spec fn prod_max(n: int, m: int, ma: int, mb: int) -> int { mn(n, m) * ma * mb }
pub proof fn cv_max(a: Seq<int>, b: Seq<int>, ma: int, mb: int, k: int)
    requires all_le(a, ma), all_le(b, mb), ma >= 0, mb >= 0,
    ensures 0 <= cv(a, b, k) <= prod_max(a.len() as int, b.len() as int, ma, mb), prod_max(a.len() as int, b.len() as int, ma, mb) >= 0,
{
    cv_bound(a, b, ma, mb, k);
    let n = a.len() as int; let m = b.len() as int; let c = cnt(k, n, m); let x = ma * mb;
    assert(x >= 0) by (nonlinear_arith) requires ma >= 0, mb >= 0, x == ma * mb;
    assert(c <= mn(n, m));
    assert(c * x <= mn(n, m) * x) by (nonlinear_arith) requires c <= mn(n, m), x >= 0;
    assert(mn(n, m) * x >= 0) by (nonlinear_arith) requires mn(n, m) >= 0, x >= 0;
    assert(mn(n, m) * ma * mb == mn(n, m) * (ma * mb)) by (nonlinear_arith);
}
pub proof fn prod_max_nn(n: int, m: int, ma: int, mb: int)
    requires n >= 0, m >= 0, ma >= 0, mb >= 0,
    ensures prod_max(n, m, ma, mb) >= 0,
{
    assert(mn(n, m) * ma >= 0) by (nonlinear_arith) requires mn(n, m) >= 0, ma >= 0;
    assert(mn(n, m) * ma * mb >= 0) by (nonlinear_arith) requires mn(n, m) * ma >= 0, mb >= 0;
}
/// the coefficients of a product, read as limbs, spell the product
pub proof fn conv_ls(a: Seq<int>, b: Seq<int>, w: nat)
    requires a.len() + b.len() >= 1,
    ensures ls(conv(a, b, (a.len() + b.len() - 1) as nat), w) == ls(a, w) * ls(b, w),
{
    let n = (a.len() + b.len() - 1) as nat;
    pe_conv(a, b, n, pow2(w) as int);
    ls_pe(a, w); ls_pe(b, w); ls_pe(conv(a, b, n), w);
}
/// coefficients congruent to the product's are the product's when the field has room
pub proof fn prod_sound(a: Seq<int>, b: Seq<int>, ca: Seq<int>, cb: Seq<int>, c: Seq<int>, ma: int, mb: int, w: nat)
    requires a == mods(ca), b == mods(cb), all_le(a, ma), all_le(b, mb), ma >= 0, mb >= 0, a.len() + b.len() >= 1, c.len() == a.len() + b.len() - 1,
        forall|k: int| 0 <= k < c.len() ==> cong(#[trigger] c[k], cv(ca, cb, k)), prod_max(a.len() as int, b.len() as int, ma, mb) < P(),
    ensures ls(mods(c), w) == ls(a, w) * ls(b, w), all_le(mods(c), prod_max(a.len() as int, b.len() as int, ma, mb)), mods(c) == conv(a, b, c.len()),
{
    ax_P();
    assert forall|i: int| 0 <= i < ca.len() implies cong(#[trigger] ca[i], a[i]) by { c_mod(ca[i]); c_sym(a[i], ca[i]); }
    assert forall|i: int| 0 <= i < cb.len() implies cong(#[trigger] cb[i], b[i]) by { c_mod(cb[i]); c_sym(b[i], cb[i]); }
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] mods(c)[k] == cv(a, b, k) by {
        cv_cong(ca, a, cb, b, k); cv_max(a, b, ma, mb, k);
        c_trans(c[k], cv(ca, cb, k), cv(a, b, k));
        c_mod(c[k]); c_trans(c[k] % P(), c[k], cv(a, b, k));
        c_eq(c[k] % P(), cv(a, b, k));
    }
    assert forall|k: int| 0 <= k < c.len() implies 0 <= #[trigger] mods(c)[k] <= prod_max(a.len() as int, b.len() as int, ma, mb) by { cv_max(a, b, ma, mb, k); }
    assert(mods(c) =~= conv(a, b, c.len()));
    conv_ls(a, b, w);
}
/// the same in the witness
pub proof fn prod_wit(a: Seq<int>, b: Seq<int>, c: Seq<int>, ma: int, mb: int, w: nat)
    requires all_le(a, ma), all_le(b, mb), ma >= 0, mb >= 0, a.len() + b.len() >= 1, c.len() == a.len() + b.len() - 1,
        forall|k: int| 0 <= k < c.len() ==> #[trigger] c[k] == cv(a, b, k) % P(), prod_max(a.len() as int, b.len() as int, ma, mb) < P(),
    ensures ls(c, w) == ls(a, w) * ls(b, w), all_le(c, prod_max(a.len() as int, b.len() as int, ma, mb)), c == conv(a, b, c.len()),
{
    ax_P();
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] c[k] == cv(a, b, k) && 0 <= c[k] <= prod_max(a.len() as int, b.len() as int, ma, mb) by {
        cv_max(a, b, ma, mb, k); lemma_small_mod(cv(a, b, k) as nat, P() as nat);
    }
    assert(c =~= conv(a, b, c.len()));
    conv_ls(a, b, w);
}
} // verus!
verus! {
/// sums of coefficients are the sums when the field has room
pub proof fn sum_sound(c: Seq<int>, d: Seq<int>, mc: int, md: int, w: nat)
    requires all_le(mods(c), mc), all_le(mods(d), md), mc >= 0, md >= 0, mc + md < P(),
    ensures mods(vadd(c, d)) == vadd(mods(c), mods(d)), all_le(mods(vadd(c, d)), mc + md), ls(mods(vadd(c, d)), w) == ls(mods(c), w) + ls(mods(d), w),
{
    ax_P();
    let x = mods(c); let y = mods(d); let z = vadd(c, d);
    assert forall|i: int| 0 <= i < z.len() implies #[trigger] mods(z)[i] == vadd(x, y)[i] && 0 <= mods(z)[i] <= mc + md by {
        let p = at0(c, i); let q = at0(d, i); let p2 = at0(x, i); let q2 = at0(y, i);
        assert(0 <= p2 <= mc) by { if 0 <= i < c.len() { assert(x[i] == c[i] % P()); } }
        assert(0 <= q2 <= md) by { if 0 <= i < d.len() { assert(y[i] == d[i] % P()); } }
        c_refl(0); c_mod(p); c_mod(q);
        assert(cong(p, p2)) by { if 0 <= i < c.len() { assert(x[i] == c[i] % P()); } }
        assert(cong(q, q2)) by { if 0 <= i < d.len() { assert(y[i] == d[i] % P()); } }
        c_add(p, p2, q, q2);
        assert(z[i] == p + q);
        c_mod(z[i]); c_trans(z[i] % P(), z[i], p2 + q2); c_eq(z[i] % P(), p2 + q2);
        assert(vadd(x, y)[i] == p2 + q2);
    }
    assert(mods(z) =~= vadd(x, y));
    ls_vadd(x, y, w);
}
pub proof fn mods_id(s: Seq<int>, m: int)
    requires all_le(s, m), m < P(),
    ensures mods(s) == s,
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] mods(s)[i] == s[i] by { lemma_small_mod(s[i] as nat, P() as nat); }
    assert(mods(s) =~= s);
}
/// the length of x
pub proof fn nbits_is(x: int, c: int)
    requires is_bits(x, c),
    ensures nbits(x) == c,
{
    assert(is_bits(x, (c as nat) as int));
    let d = nbits(x);
    bits_le(x, d as int, c as nat); bits_le(x, c, d);
    bits_le(x, c, c as nat); bits_le(x, d as int, d);
}
pub open spec fn sat0(x: int) -> int { if x >= 0 { x } else { 0 } }
/// the limbs of a quotient that has at most b bits
pub open spec fn qlimbs(b: int, w: nat) -> nat { (sat0(b - 1) / (w as int) + 1) as nat }
pub proof fn qlimbs_ok(b: int, w: nat)
    requires w >= 1,
    ensures qlimbs(b, w) >= 1, qlimbs(b, w) <= sat0(b - 1) + 1, b <= w * qlimbs(b, w), qlimbs(b, w) * w <= sat0(b - 1) + w,
{
    let x = sat0(b - 1);
    lemma_fundamental_div_mod(x, w as int); lemma_mod_bound(x, w as int); lemma_div_pos_is_pos(x, w as int);
    let q = x / (w as int);
    assert(q * w == w * q) by (nonlinear_arith);
    assert(w * (q + 1) == w * q + w) by (nonlinear_arith);
    assert((q + 1) * w == w * q + w) by (nonlinear_arith);
    assert(q <= x) by (nonlinear_arith) requires w >= 1, x >= 0, x == w * q + x % (w as int), 0 <= x % (w as int) < w;
}
/// x < 2^a and m >= 2^(b-1) give x / m < 2^(a - (b - 1))
pub proof fn quo_bits(x: int, a: int, m: int, b: int)
    requires 0 <= x < pow2(a as nat), a >= 0, m > 0, b > 0 ==> m >= pow2((b - 1) as nat),
    ensures 0 <= x / m < pow2(sat0(a - sat0(b - 1)) as nat),
{
    let k = sat0(b - 1) as nat; let d = sat0(a - k) as nat;
    lemma_fundamental_div_mod(x, m); lemma_mod_bound(x, m); lemma_div_pos_is_pos(x, m);
    lemma2_to64(); lemma_pow2_pos(k); lemma_pow2_pos(d);
    assert(m >= pow2(k));
    p2_add(k, d); p2_mono(a as nat, k + d);
    let q = x / m; let p = pow2(k) as int; let t = pow2(d) as int;
    assert(q < t) by (nonlinear_arith) requires x == m * q + x % m, 0 <= x % m, x < p * t, m >= p, p >= 1, q >= 0;
}
pub proof fn quo_rem_is(x: int, m: int, q: int, r: int)
    requires m > 0, x == q * m + r, 0 <= r < m,
    ensures q == x / m, r == x % m,
{ assert(q * m == m * q) by (nonlinear_arith); lemma_fundamental_div_mod_converse(x, m, q, r); }
} // verus!
