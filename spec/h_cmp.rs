// Comparing two numbers by the sign of their difference.
verus! {
/// the difference as an integer, small in absolute value
pub open spec fn sdif(d: int, n: nat) -> int { let e = d % P(); if e < pow2(n + 1) { e } else { e - P() } }
/// it is within n + 1 bits and a sign
pub open spec fn near(d: int, n: nat) -> bool { sdif(d, n) >= -pow2(n + 1) }
/// fits in n bits
pub open spec fn fit(x: int, n: nat) -> bool { 0 <= x < pow2(n) }
pub proof fn sdif_is(d: int, e: int, n: nat)
    requires cong(d, e), -pow2(n + 1) <= e < pow2(n + 1), n + 2 <= CAP(),
    ensures near(d, n), sdif(d, n) == e,
{
    ax_P(); p2(n + 1); p2_mono(n + 2, CAP()); c_mod(d); lemma_pow2_pos(n + 1);
    let k = d % P();
    if e >= 0 { c_small(e); c_mod_eq(d, e); }
    else {
        k_c(e + P(), e, 1); c_sym(d, e); c_trans(e + P(), e, d); c_trans(e + P(), d, k);
        c_eq(e + P(), k);
    }
}
/// d is the difference of two numbers that fit
pub proof fn near_fit(x: int, y: int, n: nat)
    requires fit(x, n), fit(y, n), n + 2 <= CAP(),
    ensures near(x - y, n), sdif(x - y, n) == x - y, near(x - (y + 1), n), sdif(x - (y + 1), n) == x - y - 1, near(x - y - 1, n), sdif(x - y - 1, n) == x - y - 1,
{
    p2(n); c_refl(x - y); c_refl(x - y - 1);
    sdif_is(x - y, x - y, n); sdif_is(x - y - 1, x - y - 1, n);
}
pub proof fn sdif_cong(d: int, n: nat)
    ensures cong(d, sdif(d, n)),
{
    c_mod(d); let e = d % P();
    if !(e < pow2(n + 1)) { k_c(e, e - P(), 1); c_trans(d, e, e - P()); }
}
/// z = d + 2^(n+1), low its low n + 1 bits
pub proof fn cmp_z(d: int, z: int, s: int, n: nat)
    requires n + 2 <= CAP(), near(d, n), 0 <= z < P(), cong(z, d + s), cong(s, pow2(n + 1) as int),
    ensures z == sdif(d, n) + pow2(n + 1), 0 <= z < pow2(n + 2),
{
    ax_P(); p2(n + 1); p2_mono(n + 2, CAP()); c_mod(d);
    sdif_cong(d, n);
    let e = sdif(d, n);
    c_add(d, e, s, pow2(n + 1) as int);
    c_trans(z, d + s, e + pow2(n + 1));
    c_eq(z, e + pow2(n + 1));
}
pub proof fn cmp_sound(d: int, z: int, low: int, s: int, n: nat)
    requires n + 2 <= CAP(), near(d, n), 0 <= z < P(), cong(z, d + s), cong(s, pow2(n + 1) as int), 0 <= low < pow2(n + 1), cong((z - low) * (z - low - s), 0),
    ensures (z == low) == (sdif(d, n) < 0),
{
    cmp_z(d, z, s, n);
    ax_P(); p2(n + 1); p2_mono(n + 2, CAP());
    ax_prime(z - low, z - low - s);
    let e = sdif(d, n);
    let q = pow2(n + 1) as int;
    if cong(z - low, 0) { c_flip(z, low); c_eq(z, low); }
    else {
        c_flip(z - low, s); c_trans(z - low, s, q);
        if z == low { c_refl(0); }
        // z - low - q is a multiple of P inside (-P, P)
        c_k(z - low, q);
        let k = (z - low - q) / P();
        assert(-P() < z - low - q < P());
        assert(k == 0) by (nonlinear_arith) requires z - low - q == k * P(), -P() < z - low - q < P();
    }
}
pub proof fn cmp_complete(d: int, z: int, low: int, s: int, n: nat)
    requires n + 2 <= CAP(), near(d, n), 0 <= z < P(), cong(z, d + s), cong(s, pow2(n + 1) as int), low == z % (pow2(n + 1) as int),
    ensures cong((z - low) * (z - low - s), 0),
{
    cmp_z(d, z, s, n);
    p2(n + 1);
    let q = pow2(n + 1) as int;
    let x = z - low;
    lemma_fundamental_div_mod(z, q); lemma_mod_bound(z, q);
    let h = z / q;
    assert(x == q * h);
    assert(0 <= h <= 1) by (nonlinear_arith) requires z == q * h + low, 0 <= z < 2 * q, 0 <= low < q;
    c_refl(0);
    if h == 0 {
        assert(x == 0) by (nonlinear_arith) requires x == q * h, h == 0;
        assert(x * (x - s) == 0) by (nonlinear_arith) requires x == 0;
    } else {
        c_flip(s, q);
        c_refl(q);
        c_mul(q, q, q - s, 0);
        assert(h == 1);
        assert(x == q) by (nonlinear_arith) requires x == q * h, h == 1;
    }
}
/// the low bits, one more
pub proof fn low_step(z: int, i: nat)
    requires z >= 0,
    ensures z % (pow2(i + 1) as int) == z % (pow2(i) as int) + b2i(bit_at(z, i as int)) * pow2(i),
{
    p2(i);
    let q = pow2(i) as int;
    lemma_fundamental_div_mod(z, q); lemma_mod_bound(z, q);
    let h = z / q; let l = z % q;
    lemma_fundamental_div_mod(h, 2); lemma_mod_bound(h, 2);
    let b = h % 2; let g = h / 2;
    assert(z == (2 * q) * g + (q * b + l)) by (nonlinear_arith) requires z == q * h + l, h == 2 * g + b;
    assert(0 <= q * b + l < 2 * q) by (nonlinear_arith) requires 0 <= l < q, 0 <= b < 2;
    lemma_fundamental_div_mod_converse(z, 2 * q, g, q * b + l);
    assert(q * b == b2i(bit_at(z, i as int)) * q) by (nonlinear_arith) requires b == b2i(bit_at(z, i as int));
}
} // verus!
