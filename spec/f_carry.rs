// Carries.
verus! {
pub open spec fn mx(a: int, b: int) -> int { if a <= b { b } else { a } }
/// the number of bits of a carry
pub open spec fn nbits(x: int) -> nat { choose|c: nat| #[trigger] is_bits(x, c as int) }
pub open spec fn cbits(m: int, w: nat) -> nat { nbits(tdiv_sp(m * 2 - 1, pow2(w) - 1)) }
pub proof fn cbits_is(m: int, w: nat, c: int)
    requires is_bits(tdiv_sp(m * 2 - 1, pow2(w) - 1), c),
    ensures cbits(m, w) == c,
{
    let x = tdiv_sp(m * 2 - 1, pow2(w) - 1);
    assert(is_bits(x, (c as nat) as int));
    let d = cbits(m, w);
    bits_le(x, d as int, c as nat); bits_le(x, c, d);
    bits_le(x, c, c as nat); bits_le(x, d as int, d);
}
pub proof fn carry_room(m: int, w: nat, c: int)
    requires m >= 0, w >= 1, is_bits(tdiv_sp(m * 2 - 1, pow2(w) - 1), c),
    ensures 2 * m + pow2(c as nat) <= pow2(c as nat) * pow2(w), pow2(w) >= 2, pow2(c as nat) >= 1,
{
    let d = pow2(w) - 1; let k = pow2(c as nat) as int;
    lemma2_to64(); p2_mono(1, w); lemma_pow2_pos(c as nat);
    assert(k * (d + 1) == k * d + k) by (nonlinear_arith);
    if m >= 1 {
        let q = (2 * m - 1) / d;
        lemma_fundamental_div_mod(2 * m - 1, d); lemma_mod_bound(2 * m - 1, d); lemma_div_pos_is_pos(2 * m - 1, d);
        assert(d * q <= d * (k - 1)) by (nonlinear_arith) requires q <= k - 1, d >= 1;
        assert(d * (k - 1) == k * d - d) by (nonlinear_arith);
    } else { assert(k * d >= 0) by (nonlinear_arith) requires k >= 1, d >= 1; }
}
pub proof fn carry_acc(m: int, b: int, k: int, x: int)
    requires 2 * m + k <= k * b, 0 <= x < k + 2 * m, b >= 2, k >= 1,
    ensures 0 <= x / b < k, 0 <= x % b < b, x == b * (x / b) + x % b,
{
    lemma_fundamental_div_mod(x, b); lemma_mod_bound(x, b); lemma_div_pos_is_pos(x, b);
    let q = x / b;
    assert(q < k) by (nonlinear_arith) requires x == b * q + x % b, x < k * b, x % b >= 0, b >= 2;
}
/// a carry in any satisfying assignment
pub proof fn carry_step(e: int, cn: int, dn: int, xn: int, yn: int, m: int, a: int, b: int, k: int)
    requires cong(0, e), e == cn + xn - yn + m - b * dn - (a + m) % b, 2 * m + k <= k * b, k * b < P(), b >= 2, k >= 1,
        0 <= cn % P() < k, 0 <= dn % P() < k, 0 <= xn % P() <= m, 0 <= yn % P() <= m, 0 <= a < k, m >= 0,
    ensures b * (dn % P() - (a + m) / b) == cn % P() - a + xn % P() - yn % P(),
{
    let c = cn % P(); let d = dn % P(); let x = xn % P(); let y = yn % P(); let r = (a + m) % b;
    carry_acc(m, b, k, a + m);
    c_mod(cn); c_mod(dn); c_mod(xn); c_mod(yn); c_refl(b); c_refl(m); c_refl(r);
    c_add(cn, c, xn, x); c_add(cn + xn, c + x, yn, y); c_add(cn + xn - yn, c + x - y, m, m);
    c_mul(b, b, dn, d); c_add(cn + xn - yn + m, c + x - y + m, b * dn, b * d);
    c_add(cn + xn - yn + m - b * dn, c + x - y + m - b * d, r, r);
    let f = c + x - y + m - b * d - r;
    c_trans(0, e, f);
    assert(0 <= b * d <= b * (k - 1)) by (nonlinear_arith) requires 0 <= d <= k - 1, b >= 2;
    assert(b * (k - 1) == k * b - b) by (nonlinear_arith);
    assert(f > -P() && f < P());
    c_sym(0, f);
    if f >= 0 { c_eq(f, 0); } else { c_flip(-f, 0); c_flip(0, f); assert(cong(-f, 0)) by { c_sym(0, f); c_refl(0); c_add(0, 0, f, 0); assert(0 - f == -f); } c_eq(-f, 0); }
    let q = (a + m) / b;
    assert(b * (d - q) == b * d - b * q) by (nonlinear_arith);
}
/// the carry the prover computes
pub proof fn carry_wit(c: int, x: Seq<int>, y: Seq<int>, i: int, m: int, a: int, w: nat, k: int)
    requires 0 <= i < x.len(), x.len() == y.len(), all_le(x, m), all_le(y, m), 0 <= c < k, 0 <= a < k, 2 * m + k <= k * pow2(w), k * pow2(w) < P(), pow2(w) >= 2, k >= 1,
    ensures 0 <= c + x[i] + m - y[i] < P(), 0 <= (c + x[i] + m - y[i]) / (pow2(w) as int) < k,
        ls(x, w) == ls(y, w) && pow2(w * (i as nat)) * (c - a) == ls(x.take(i), w) - ls(y.take(i), w)
            ==> pow2(w) * ((c + x[i] + m - y[i]) / (pow2(w) as int) - (a + m) / (pow2(w) as int)) == c - a + x[i] - y[i]
              && c + x[i] + m - y[i] - pow2(w) * ((c + x[i] + m - y[i]) / (pow2(w) as int)) == (a + m) % (pow2(w) as int),
{
    let b = pow2(w) as int; let n = c + x[i] + m - y[i];
    assert(0 <= x[i] <= m && 0 <= y[i] <= m);
    carry_acc(m, b, k, n); carry_acc(m, b, k, a + m);
    let p = pow2(w * (i as nat)) as int; lemma_pow2_pos(w * (i as nat));
    if ls(x, w) == ls(y, w) && p * (c - a) == ls(x.take(i), w) - ls(y.take(i), w) {
        ls_take(x, i, w); ls_take(y, i, w);
        assert(x =~= x.take(i + 1) + x.skip(i + 1)); assert(y =~= y.take(i + 1) + y.skip(i + 1));
        ls_cat(x.take(i + 1), x.skip(i + 1), w); ls_cat(y.take(i + 1), y.skip(i + 1), w);
        let s = ls(x.skip(i + 1), w); let t = ls(y.skip(i + 1), w);
        assert(w * ((i + 1) as nat) == w * (i as nat) + w) by (nonlinear_arith) requires i >= 0;
        p2_add(w * (i as nat), w);
        let u = x[i]; let v = y[i];
        assert(p * (c - a) + u * p - v * p == p * b * t - p * b * s);
        let z = c - a + u - v;
        assert(p * z == p * (b * (t - s))) by (nonlinear_arith) requires p * (c - a) + u * p - v * p == p * b * t - p * b * s, z == c - a + u - v;
        assert(z == b * (t - s)) by (nonlinear_arith) requires p * z == p * (b * (t - s)), p > 0;
        lemma_div_multiples_vanish_fancy2(a + m, t - s, b);
        assert(n == b * (t - s) + (a + m));
        let q = n / b; let o = (a + m) / b;
        assert(q == t - s + o);
        assert(b * (q - o) == z) by (nonlinear_arith) requires q == t - s + o, z == b * (t - s);
        assert(b * q == b * (t - s) + b * o) by (nonlinear_arith) requires q == t - s + o;
    }
}
pub proof fn carry_sum(c: int, a: int, d: int, e: int, x: Seq<int>, y: Seq<int>, i: int, w: nat)
    requires 0 <= i < x.len(), x.len() == y.len(), pow2(w * (i as nat)) * (c - a) == ls(x.take(i), w) - ls(y.take(i), w), pow2(w) * (d - e) == c - a + x[i] - y[i],
    ensures pow2(w * ((i + 1) as nat)) * (d - e) == ls(x.take(i + 1), w) - ls(y.take(i + 1), w),
{
    ls_take(x, i, w); ls_take(y, i, w);
    assert(w * ((i + 1) as nat) == w * (i as nat) + w) by (nonlinear_arith) requires i >= 0;
    p2_add(w * (i as nat), w);
    let p = pow2(w * (i as nat)) as int; let b = pow2(w) as int; let u = x[i]; let v = y[i]; let f = d - e; let g = c - a;
    assert((p * b) * f == p * g + u * p - v * p) by (nonlinear_arith) requires b * f == g + u - v;
}
pub proof fn rep_le(a: int, m: int, r: int)
    requires a <= m, r >= 0,
    ensures a * r <= m * r,
{ assert(a * r <= m * r) by (nonlinear_arith) requires a <= m, r >= 0; }
/// grouping leaves the carries as they are
pub proof fn carry_group(m: int, w: nat, c: int, g: nat)
    requires m >= 0, w >= 1, g >= 1, is_bits(tdiv_sp(m * 2 - 1, pow2(w) - 1), c),
    ensures cbits(m * rep(w, g), w * g) <= c, 2 * (m * rep(w, g)) < pow2(c as nat) * pow2(w * g),
{
    let b = pow2(w) - 1; let r = rep(w, g); let d = pow2(w * g) - 1; let k = pow2(c as nat) as int;
    lemma2_to64(); p2_mono(1, w); rep_mul(w, g); carry_room(m, w, c);
    let j = (g - 1) as nat; rep_step(w, j); lemma_pow2_pos(w * j);
    assert(r >= 1);
    let x = tdiv_sp(m * 2 - 1, b); let y = tdiv_sp((m * r) * 2 - 1, d);
    assert(d >= b) by (nonlinear_arith) requires r * b == d, r >= 1, b >= 1;
    bits_le(x, c, c as nat);
    if m >= 1 {
        assert((m * r) * 2 - 1 == r * (2 * m - 1) + (r - 1)) by (nonlinear_arith);
        assert((m * r) * 2 - 1 >= 1) by (nonlinear_arith) requires m >= 1, r >= 1;
        lemma_div_multiples_vanish_fancy(2 * m - 1, r - 1, r);
        div_div((m * r) * 2 - 1, r, b);
        assert(y == (2 * m - 1) / b);
        assert(y == x);
        cbits_is(m * r, w * g, c);
        assert(k * (b + 1) == k * b + k) by (nonlinear_arith);
        assert(2 * (m * r) <= r * (k * b)) by (nonlinear_arith) requires 2 * m <= k * b, r >= 1;
        assert(r * (k * b) == k * d) by (nonlinear_arith) requires r * b == d;
        assert(k * d < k * (d + 1)) by (nonlinear_arith) requires k >= 1;
    } else {
        assert(m * r == 0) by (nonlinear_arith) requires m == 0;
        assert(k * (d + 1) > 0) by (nonlinear_arith) requires k >= 1, d >= 1;
        lemma_div_is_ordered_by_denominator(1, b, d);
        assert(1int / b >= 0 && 1int / d >= 0) by { lemma_div_pos_is_pos(1, b); lemma_div_pos_is_pos(1, d); }
        assert(-pow2(c as nat) < y < pow2(c as nat));
        let e = if y == 0 { 0int } else { 1int };
        assert(1int / d <= 1) by { lemma_div_nonincreasing(1, d); }
        assert(is_bits(y, e));
        cbits_is(m * r, w * g, e);
        bits_le(y, e, c as nat);
    }
}
pub proof fn is_bits_ex(x: int) -> (b: nat)
    requires x >= 0,
    ensures is_bits(x, b as int),
    decreases x,
{
    lemma2_to64();
    if x == 0 { 0 } else {
        let c = is_bits_ex(x / 2);
        p2(c); if c > 0 { p2((c - 1) as nat); }
        (c + 1) as nat
    }
}
pub proof fn nbits_ok(x: int)
    ensures is_bits(x, nbits(x) as int),
{
    let c = is_bits_ex(if x < 0 { -x } else { x });
    assert(is_bits(x, c as int));
}
/// what room for the carries means
pub proof fn room_ok(m: int, w: nat)
    requires m >= 0, w >= 1, cbits(m, w) + w <= CAP(),
    ensures 2 * m < P(), 2 * pow2(w) <= P() || m < pow2(w), pow2(w) < P(), m < P(),
{
    ax_P();
    nbits_ok(tdiv_sp(m * 2 - 1, pow2(w) - 1));
    let c = cbits(m, w);
    carry_room(m, w, c as int);
    p2_add(c, w); p2_mono(c + w, CAP()); p2_mono(w, CAP());
    if c >= 1 { p2_mono(1, c); lemma2_to64(); let k = pow2(c) as int; let b = pow2(w) as int; assert(k * b >= 2 * b) by (nonlinear_arith) requires k >= 2, b >= 0; }
    else { lemma2_to64(); assert(1 * pow2(w) == pow2(w)); }
}
/// digits twice: two bits of carry
pub proof fn cbits_two(w: nat)
    requires w >= 1,
    ensures cbits(2 * (pow2(w) - 1), w) == 2,
{
    let d = pow2(w) - 1;
    lemma2_to64(); p2_mono(1, w);
    let x = 2 * d * 2 - 1;
    assert(x == 3 * d + (d - 1));
    lemma_div_multiples_vanish_fancy(3, d - 1, d);
    assert(x / d == 3);
    assert(is_bits(3, 2));
    cbits_is(2 * d, w, 2);
}
pub open spec fn vadd(s: Seq<int>, t: Seq<int>) -> Seq<int> { Seq::new(if s.len() < t.len() { t.len() } else { s.len() }, |i: int| at0(s, i) + at0(t, i)) }
pub proof fn ls_vadd(s: Seq<int>, t: Seq<int>, w: nat)
    ensures ls(vadd(s, t), w) == ls(s, w) + ls(t, w),
{
    let n = vadd(s, t).len();
    ls_pad(s, n, w); ls_pad(t, n, w);
    ls_sum(pad(s, n), pad(t, n), w);
    assert(vadd(pad(s, n), pad(t, n)) =~= vadd(s, t));
}
proof fn ls_sum(s: Seq<int>, t: Seq<int>, w: nat)
    requires s.len() == t.len(),
    ensures ls(vadd(s, t), w) == ls(s, w) + ls(t, w),
    decreases s.len(),
{
    if s.len() > 0 {
        let a = s.drop_last(); let b = t.drop_last();
        ls_sum(a, b, w);
        assert(vadd(s, t).drop_last() =~= vadd(a, b));
        let x = s.last(); let y = t.last(); let p = pow2(w * a.len()) as int;
        assert(vadd(s, t).last() == x + y);
        assert((x + y) * p == x * p + y * p) by (nonlinear_arith);
    }
}
pub open spec fn vscale(s: Seq<int>, c: int) -> Seq<int> { s.map_values(|x: int| c * x) }
pub proof fn ls_vscale(s: Seq<int>, c: int, w: nat)
    ensures ls(vscale(s, c), w) == c * ls(s, w),
    decreases s.len(),
{
    if s.len() == 0 { assert(c * 0 == 0) by (nonlinear_arith); } else {
        let a = s.drop_last();
        ls_vscale(a, c, w);
        assert(vscale(s, c).drop_last() =~= vscale(a, c));
        let x = s.last(); let p = pow2(w * a.len()) as int; let r = ls(a, w);
        assert(c * (r + x * p) == c * r + (c * x) * p) by (nonlinear_arith);
    }
}
pub proof fn wire_iv(s: Seq<int>, v: int)
    requires wire_bits(s, v), 0 <= v < pow2(s.len()),
    ensures ls(s, 1) == v,
{
    let n = s.len();
    ls_digs(v, n, 1); assert(1 * n == n); lemma_small_mod(v as nat, pow2(n)); lemma2_to64();
    assert forall|i: int| 0 <= i < n implies #[trigger] s[i] == digs(v, n, 1)[i] by { assert(1 * (i as nat) == i); lemma_mod_bound(v / (pow2(i as nat) as int), 2); }
    assert(s =~= digs(v, n, 1));
}
} // verus!
