#rs
/// two weeks of seconds
pub open spec fn two_weeks() -> int { 2016int * 10 * 60 }
/// the retargeting rule
pub open spec fn sum_ok(s: int) -> bool { two_weeks() < 4 * s && s < 4 * two_weeks() }
pub open spec fn retarget(t: int, p: int, s: int) -> bool { sum_ok(s) && t == p * s / two_weeks() }
/// the values the assignment gives the sum, the target and the previous target
pub open spec fn up_sum(o: Cs) -> int { gvar(o.nv()) }
pub open spec fn up_new(o: Cs) -> int { gvar(o.nv() + 132) + 0x1_0000_0000_0000_0000_0000_0000_0000_0000 * gvar(o.nv() + 131) }
pub open spec fn up_old(o: Cs) -> int { gvar(o.nv() + 134) + 0x1_0000_0000_0000_0000_0000_0000_0000_0000 * gvar(o.nv() + 133) }
/// room for the carries of a product of numbers with limbs of w bits
pub proof fn cbits_small(m: int, w: nat, a: nat)
    requires 0 <= m <= pow2(a), w >= 2, a >= w,
    ensures cbits(m, w) + w <= a + 3,
{
    let d = pow2(w) - 1; let x = tdiv_sp(m * 2 - 1, d);
    nbits_ok(x);
    let k = (a + 2 - w) as nat;
    p2((w - 1) as nat); lemma_pow2_pos((w - 1) as nat); lemma_pow2_pos(k); p2_add(k, (w - 1) as nat); p2(a); lemma2_to64(); p2_mono(1, (w - 1) as nat);
    assert(k + (w - 1) == a + 1);
    let h = pow2((w - 1) as nat) as int; let q = pow2(k) as int;
    assert(d >= h + 1 && d >= 2);
    if m > 0 {
        lemma_fundamental_div_mod(m * 2 - 1, d); lemma_mod_bound(m * 2 - 1, d); lemma_div_pos_is_pos(m * 2 - 1, d);
        assert(x < q) by (nonlinear_arith) requires m * 2 - 1 == d * x + (m * 2 - 1) % d, (m * 2 - 1) % d >= 0, m * 2 - 1 < 2 * pow2(a), q * h == 2 * pow2(a), d >= h + 1, x >= 0, q >= 1, h >= 1;
    } else {
        assert(1int / d == 0) by { lemma_small_mod(1, d as nat); lemma_fundamental_div_mod(1, d); assert(d * (1int / d) == 0); assert(1int / d == 0) by (nonlinear_arith) requires d * (1int / d) == 0, d >= 2; }
        assert(x == 0);
    }
    bits_le(x, nbits(x) as int, k);
}
/// the length of a number with limbs of one word
pub proof fn len_word(a: BigNat)
    requires a.shape(), a.params.max_word.v() == pow2(a.lw()) - 1,
    ensures len_of(a) == a.lw() * a.limbs@.len(),
{
    let w = a.lw(); let n = a.limbs@.len(); let k = w * n;
    rep_mul(w, n); lemma_pow2_pos(k); mul_ge(w, n);
    let x = a.params.max_word.v() * rep(w, n);
    assert(x == pow2(k) - 1) by (nonlinear_arith) requires x == a.params.max_word.v() * rep(w, n), a.params.max_word.v() == pow2(w) - 1, rep(w, n) * (pow2(w) - 1) == pow2(k) - 1;
    if k == 0 { lemma2_to64(); } else { p2((k - 1) as nat); lemma_pow2_pos((k - 1) as nat); }
    nbits_is(x, k as int);
}
pub proof fn up_pow()
    ensures pow2(64) == 0x1_0000_0000_0000_0000, pow2(128) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000, pow2(32) == 0x1_0000_0000, pow2(130) == 4 * pow2(128),
{
    lemma2_to64(); lemma2_to64_rest(); p2_add(64, 64); p2_add(2, 128);
    assert(0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000 == 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by (compute);
}
/// at most two limb products, each below 2^128, plus a limb
pub proof fn up_room(n: int, k: int, r: int)
    requires n >= 0, k >= 0, n <= 2 || k <= 2, 0 <= r <= pow2(64) - 1,
    ensures 0 <= prod_max(n, k, pow2(64) - 1, pow2(64) - 1) + r <= pow2(130),
{
    up_pow();
    let z = pow2(64) - 1; let c = mn(n, k);
    assert(z * z <= 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by (nonlinear_arith) requires z == 0x1_0000_0000_0000_0000 - 1;
    assert(z * z >= 0) by (nonlinear_arith);
    assert(c * z * z == c * (z * z)) by (nonlinear_arith);
    assert(0 <= c * (z * z) <= 2 * (z * z)) by (nonlinear_arith) requires 0 <= c <= 2, z * z >= 0;
}
#fn verify_difficulty_update
#requires
  CAP() >= 200,
#ensures
  kept(*old(cs), *final(cs)),
  // every satisfying assignment: the retargeting rule
  final(cs).sat() && fit(up_sum(*old(cs)), 32) ==> retarget(up_new(*old(cs)), up_old(*old(cs)), up_sum(*old(cs))),
  // the prover's are the ones given, and its assignment is accepted exactly when they follow the rule
  old(cs).w() && final(cs).honest() ==> up_sum(*old(cs)) == sum_timestamps
    && up_new(*old(cs)) == current_target_l + 0x1_0000_0000_0000_0000_0000_0000_0000_0000 * current_target_u
    && up_old(*old(cs)) == prev_target_l + 0x1_0000_0000_0000_0000_0000_0000_0000_0000 * prev_target_u,
  old(cs).w() && old(cs).sat() && final(cs).honest() && retarget(up_new(*old(cs)), up_old(*old(cs)), up_sum(*old(cs))) ==> final(cs).sat(),
#hook entry
  proof { ax_P(); up_pow(); lemma2_to64(); p2_mono(200, CAP()); p2_mono(130, CAP()); p2_mono(32, CAP()); p2_mono(128, 200); p2(64);
    c_small(sum_timestamps as int); c_small(current_target_l as int); c_small(current_target_u as int); c_small(prev_target_l as int); c_small(prev_target_u as int);
    c_small(302400); c_small(4838400); c_small(1209600); c_refl(1);
  }
#hook after let t_2016_10_60
  proof {
    len_word(prev_target); len_word(t_sum);
    assert(383int / 64 == 5);
    assert(nq_of(len_of(prev_target) + len_of(t_sum), t_2016_10_60, 64) == 6);
    up_room(4, 2, 0); up_room(6, 2, pow2(64) - 1);
    cbits_small(mx(max_left(prev_target, t_sum), max_right(6, t_2016_10_60, 64, pow2(64) - 1)), 64, 130);
    cbits_small(mx(pow2(64) - 1, pow2(64) + (pow2(64) - 1)), 64, 130);
    assert(t_2016_10_60.has() ==> t_2016_10_60.value->0.v() == two_weeks());
    assert(cs.sat() ==> t_2016_10_60.iv() == two_weeks());
    if cs.w() { let x = prev_target.value->0.v() * t_sum.value->0.v(); lemma_mod_bound(x, two_weeks()); p2_mono(64, 64 * t_2016_10_60.limbs@.len()); }
  }
#hook ret
  proof {
    if cs.sat() && fit(up_sum(*old(cs)), 32) {
      c_small(up_sum(*old(cs))); c_small(gvar(old(cs).nv() + 131)); c_small(gvar(old(cs).nv() + 132)); c_small(gvar(old(cs).nv() + 133)); c_small(gvar(old(cs).nv() + 134));
      assert(t_sum.iv() == up_sum(*old(cs)));
      assert(prev_target.iv() == up_old(*old(cs)));
      assert(target.iv() == up_new(*old(cs)));
      assert(target.iv() == t_new.iv());
    }
  }
#fn calculate_difficulty_update
#requires
  CAP() >= 200,
  old(cs).w() ==> prev_target.value() is Some && sum_timestamps.value() is Some && prev_target.value()->0.v() < pow2(256) && fit(sum_timestamps.value()->0.v(), 32),
#ensures
  kept(*old(cs), *final(cs)), res is Ok,
  ({
    let r = res->Ok_0; let p = prev_target.var().val(); let s = sum_timestamps.var().val();
    // every satisfying assignment: the sum is within the bounds and the result is the quotient
    &&& final(cs).sat() && fit(s, 32) ==> sum_ok(s) && r.iv() == p * s / two_weeks() && r.dgt()
    // the prover's
    &&& r.shape() && r.lw() == 64 && r.limbs@.len() == 5 && r.has() == old(cs).w()
    &&& old(cs).w() ==> r.wf() && r.value->0.v() == prev_target.value()->0.v() * sum_timestamps.value()->0.v() / two_weeks()
    &&& old(cs).w() && final(cs).honest() ==> r.hon()
    &&& old(cs).w() && old(cs).sat() && final(cs).honest() && prev_target.hon() && sum_timestamps.hon() && sum_ok(sum_timestamps.value()->0.v()) ==> final(cs).sat()
  }),
#hook entry
  proof { ax_P(); up_pow(); lemma2_to64(); p2_mono(200, CAP()); p2_mono(32, CAP()); p2_mono(128, 200); p2_mono(64, 128); p2_mono(32, 64);
    c_small(302400); c_small(4838400); c_small(1209600); c_refl(1);
  }
#hook after let t_2016_10_60
  proof {
    len_word(prev_targ); len_word(t_sum);
    assert(319int / 64 == 4);
    assert(nq_of(len_of(prev_targ) + len_of(t_sum), t_2016_10_60, 64) == 5);
    up_room(4, 1, 0); up_room(5, 1, pow2(64) - 1);
    cbits_small(mx(max_left(prev_targ, t_sum), max_right(5, t_2016_10_60, 64, pow2(64) - 1)), 64, 130);
    cbits_small(mx(pow2(64) - 1, pow2(64) + (pow2(64) - 1)), 64, 130);
    assert(t_2016_10_60.has() ==> t_2016_10_60.value->0.v() == two_weeks());
    assert(cs.sat() ==> t_2016_10_60.iv() == two_weeks());
    if cs.w() { let x = prev_targ.value->0.v() * t_sum.value->0.v(); lemma_mod_bound(x, two_weeks()); p2_mono(64, 64 * t_2016_10_60.limbs@.len()); }
  }
#hook ret
  proof {
    if cs.sat() && fit(sum_timestamps.var().val(), 32) {
      c_small(sum_timestamps.var().val()); c_small(prev_target.var().val());
      assert(t_sum.iv() == sum_timestamps.var().val());
      assert(prev_targ.iv() == prev_target.var().val());
    }
  }
