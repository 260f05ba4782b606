#fn zero_shift
#requires
  n_bits + 1 <= CAP(), n_bits <= 253,
#ensures
  cong(res.v(), pow2((n_bits + 1) as nat) as int),
#hook entry
  proof {
    lemma2_to64(); p2(n_bits as nat);
    p2_add(64, 63); p2_add(64, 64); lemma2_to64_rest();
    if n_bits <= 126 { p2_mono((n_bits + 1) as nat, 127); p2(127); lemma_small_mod(pow2((n_bits + 1) as nat), pow2(128)); c_mod(pow2((n_bits + 1) as nat) as int); }
    else {
      let k = (n_bits - 126) as nat;
      p2_mono(k, 127); p2(127); p2(126);
      lemma_small_mod(pow2(k), pow2(128)); lemma_small_mod(pow2(127), pow2(128));
      let x = pow2(k) as int; let y = pow2(127) as int;
      p2_add(k, 127); assert(k + 127 == n_bits + 1);
      c_mod(x); c_mod(y); c_mul(y % P(), y, x % P(), x); c_mod((y % P()) * (x % P()));
      c_trans(((y % P()) * (x % P())) % P(), (y % P()) * (x % P()), y * x);
    }
  }
#fn less_than
#requires
  n_bits + 2 <= CAP(), n_bits <= 253,
  old(cs).w() ==> a.value() is Some && b.value() is Some,
#ensures
  kept(*old(cs), *final(cs)), res is Ok,
  final(cs).nv() == old(cs).nv() + 6 + n_bits, final(cs).nc() == old(cs).nc() + 9 + n_bits,
  // every satisfying assignment: the flag is the comparison
  final(cs).sat() && fit(a.var().val(), n_bits as nat) && fit(b.var().val(), n_bits as nat) ==> res->Ok_0.bin() && res->Ok_0.tru() == (a.var().val() < b.var().val()),
  final(cs).sat() && near(a.var().val() - b.var().val(), n_bits as nat) ==> res->Ok_0.bin() && res->Ok_0.tru() == (sdif(a.var().val() - b.var().val(), n_bits as nat) < 0),
  // the witness flag is the comparison of the witnesses
  old(cs).w() && fit(a.value()->0.v(), n_bits as nat) && fit(b.value()->0.v(), n_bits as nat) ==> res->Ok_0.value() == Some(a.value()->0.v() < b.value()->0.v()),
  old(cs).w() && near(a.value()->0.v() - b.value()->0.v(), n_bits as nat) ==> res->Ok_0.value() == Some(sdif(a.value()->0.v() - b.value()->0.v(), n_bits as nat) < 0),
  old(cs).w() ==> res->Ok_0.value() is Some,
  !old(cs).w() ==> res->Ok_0.value() is None && final(cs).honest() == old(cs).honest(),
  old(cs).w() && final(cs).honest() ==> res->Ok_0.hon(),
  // the prover's assignment is accepted
  old(cs).w() && old(cs).sat() && final(cs).honest() && a.hon() && b.hon() && fit(a.value()->0.v(), n_bits as nat) && fit(b.value()->0.v(), n_bits as nat) ==> final(cs).sat(),
  old(cs).w() && old(cs).sat() && final(cs).honest() && a.hon() && b.hon() && near(a.value()->0.v() - b.value()->0.v(), n_bits as nat) ==> final(cs).sat(),
  !res->Ok_0.is_const(),
#hook entry
  let ghost n = n_bits as nat;
  proof {
    ax_P(); c_refl(0); c_refl(1); p2(n + 1); p2_mono(n + 2, CAP()); p2_mono(n + 1, CAP());
    if a.value() is Some && b.value() is Some && fit(a.value()->0.v(), n) && fit(b.value()->0.v(), n) { near_fit(a.value()->0.v(), b.value()->0.v(), n); }
    if fit(a.var().val(), n) && fit(b.var().val(), n) { near_fit(a.var().val(), b.var().val(), n); }
  }
#hook after let zero_shifted_cmp
  let ghost dv = a.value()->0.v() - b.value()->0.v();
  let ghost zv = zero_shifted_cmp.value()->0.v();
  proof {
    if cs.w() {
      assert(cong(zv, dv + zero_shift.v())) by {
        let bb = b.value()->0.v(); c_refl(bb);
        let t = a.value()->0.v() + zero_shift.v();
        c_mod(t);
        c_add(t % P(), t, bb, bb);
        c_mod(t % P() - bb);
        c_trans(zv, t % P() - bb, t - (bb));
        assert(t - (bb) == dv + zero_shift.v());
      }
      if near(dv, n) { cmp_z(dv, zv, zero_shift.v(), n); }
    }
  }
#hook loop 0 before
  proof { lemma2_to64(); c_refl(1); c_refl(0); c_small(2); c_mod(2); }
#hook loop 0 inv
  n0 == n_bits + 1, lo__0 == 0, n_bits + 2 <= CAP(), CAP() < 0x1000_0000, err__0 is None, sc_two.v() == 2, cmp == Some(zero_shifted_cmp.value()->0),
  cong(exponent.v(), pow2(i0 as nat) as int),
  cong(summ.v(), zero_shifted_cmp.value()->0.v() % (pow2(i0 as nat) as int)),
#hook loop 0 begin
  let ghost s0 = summ.v(); let ghost e0 = exponent.v();
#hook loop 0 end
  proof {
    let z = zero_shifted_cmp.value()->0.v();
    low_step(z, i0 as nat); p2(i0 as nat);
    let b = b2i(bit_at(z, i0 as int)); let q = pow2(i0 as nat) as int;
    c_refl(b); c_refl(2); c_mul(b, b, e0, q);
    c_mod(b * e0); c_trans((b * e0) % P(), b * e0, b * q);
    c_add(s0, z % q, (b * e0) % P(), b * q);
    c_mod(s0 + (b * e0) % P());
    assert(b * e0 == e0 * b) by (nonlinear_arith); ax_P(); c_small(2); c_small(0); c_small(e0); c_small(s0); assert(b == 0 || b == 1); assert(b * e0 == if b == 1 { e0 } else { 0 });
    c_trans(summ.v(), s0 + (b * e0) % P(), z % q + b * q);
    c_mul(e0, q, 2, 2); c_mod(e0 * 2); c_trans(exponent.v(), e0 * 2, q * 2);
  }
#hook loop 0 after
  proof {
    let z = zero_shifted_cmp.value()->0.v();
    lemma_mod_bound(z, pow2(n + 1) as int);
    c_eq(summ.v(), z % (pow2(n + 1) as int));
  }
#hook enforce 0 pre
  proof {
    let t = a.var().val() - b.var().val() + zero_shift.v();
    assert(ea__.val() * eb__.val() == t) by (nonlinear_arith) requires ea__.val() == t, eb__.val() == 1;
    c_flip(t, zero_shifted_cmp.var().val());
  }
#hook enforce 1 pre
  let ghost z = zero_shifted_cmp.var().val();
  let ghost low = n_bit_zero_cmp.var().val();
  let ghost s = zero_shift.v();
  let ghost d = a.var().val() - b.var().val();
  proof {
    assert(ea__.val() * eb__.val() == (z - low) * (z - low - s));
    if cs.sat() {
      assert(cong(z, d + s)) by { c_sym(d + s, z); }
      c_small(low);
      if near(d, n) && cong(ea__.val() * eb__.val(), 0) { cmp_sound(d, z, low, s, n); }
    }
    if old(cs).w() && cs.honest() {
      assert(z == zv && low == z % (pow2(n + 1) as int));
      if near(dv, n) && a.hon() && b.hon() { cmp_complete(dv, z, low, s, n); }
    }
  }
#hook ret
  proof {
    if old(cs).w() && near(dv, n) {
      lemma_fundamental_div_mod(zv, pow2(n + 1) as int); lemma_mod_bound(zv, pow2(n + 1) as int);
      if sdif(dv, n) < 0 { lemma_small_mod(zv as nat, pow2(n + 1)); }
    }
  }
#fn leq
#requires
  n_bits + 2 <= CAP(), n_bits <= 253,
  old(cs).w() ==> a.value() is Some && b.value() is Some,
#ensures
  kept(*old(cs), *final(cs)), res is Ok,
  final(cs).nv() == old(cs).nv() + 6 + n_bits, final(cs).nc() == old(cs).nc() + 9 + n_bits,
  // every satisfying assignment: the flag is the comparison
  final(cs).sat() && fit(a.var().val(), n_bits as nat) && fit(b.var().val(), n_bits as nat) ==> res->Ok_0.bin() && res->Ok_0.tru() == (a.var().val() <= b.var().val()),
  final(cs).sat() && near(a.var().val() - b.var().val() - 1, n_bits as nat) ==> res->Ok_0.bin() && res->Ok_0.tru() == (sdif(a.var().val() - b.var().val() - 1, n_bits as nat) < 0),
  // the witness flag is the comparison of the witnesses
  old(cs).w() && fit(a.value()->0.v(), n_bits as nat) && fit(b.value()->0.v(), n_bits as nat) ==> res->Ok_0.value() == Some(a.value()->0.v() <= b.value()->0.v()),
  old(cs).w() && near(a.value()->0.v() - b.value()->0.v() - 1, n_bits as nat) ==> res->Ok_0.value() == Some(sdif(a.value()->0.v() - b.value()->0.v() - 1, n_bits as nat) < 0),
  old(cs).w() ==> res->Ok_0.value() is Some,
  !old(cs).w() ==> res->Ok_0.value() is None && final(cs).honest() == old(cs).honest(),
  old(cs).w() && final(cs).honest() ==> res->Ok_0.hon(),
  // the prover's assignment is accepted
  old(cs).w() && old(cs).sat() && final(cs).honest() && a.hon() && b.hon() && fit(a.value()->0.v(), n_bits as nat) && fit(b.value()->0.v(), n_bits as nat) ==> final(cs).sat(),
  old(cs).w() && old(cs).sat() && final(cs).honest() && a.hon() && b.hon() && near(a.value()->0.v() - b.value()->0.v() - 1, n_bits as nat) ==> final(cs).sat(),
  !res->Ok_0.is_const(),
#hook entry
  let ghost n = n_bits as nat;
  proof {
    ax_P(); c_refl(0); c_refl(1); p2(n + 1); p2_mono(n + 2, CAP()); p2_mono(n + 1, CAP());
    if a.value() is Some && b.value() is Some && fit(a.value()->0.v(), n) && fit(b.value()->0.v(), n) { near_fit(a.value()->0.v(), b.value()->0.v(), n); }
    if fit(a.var().val(), n) && fit(b.var().val(), n) { near_fit(a.var().val(), b.var().val(), n); }
  }
#hook after let zero_shifted_cmp
  let ghost dv = a.value()->0.v() - b.value()->0.v() - 1;
  let ghost zv = zero_shifted_cmp.value()->0.v();
  proof {
    if cs.w() {
      assert(cong(zv, dv + zero_shift.v())) by {
        c_mod(b.value()->0.v() + 1); let bb = (b.value()->0.v() + 1) % P();
        let t = a.value()->0.v() + zero_shift.v();
        c_mod(t);
        c_add(t % P(), t, bb, b.value()->0.v() + 1);
        c_mod(t % P() - bb);
        c_trans(zv, t % P() - bb, t - (b.value()->0.v() + 1));
        assert(t - (b.value()->0.v() + 1) == dv + zero_shift.v());
      }
      if near(dv, n) { cmp_z(dv, zv, zero_shift.v(), n); }
    }
  }
#hook loop 0 before
  proof { lemma2_to64(); c_refl(1); c_refl(0); c_small(2); c_mod(2); }
#hook loop 0 inv
  n0 == n_bits + 1, lo__0 == 0, n_bits + 2 <= CAP(), CAP() < 0x1000_0000, err__0 is None, sc_two.v() == 2, cmp == Some(zero_shifted_cmp.value()->0),
  cong(exponent.v(), pow2(i0 as nat) as int),
  cong(summ.v(), zero_shifted_cmp.value()->0.v() % (pow2(i0 as nat) as int)),
#hook loop 0 begin
  let ghost s0 = summ.v(); let ghost e0 = exponent.v();
#hook loop 0 end
  proof {
    let z = zero_shifted_cmp.value()->0.v();
    low_step(z, i0 as nat); p2(i0 as nat);
    let b = b2i(bit_at(z, i0 as int)); let q = pow2(i0 as nat) as int;
    c_refl(b); c_refl(2); c_mul(b, b, e0, q);
    c_mod(b * e0); c_trans((b * e0) % P(), b * e0, b * q);
    c_add(s0, z % q, (b * e0) % P(), b * q);
    c_mod(s0 + (b * e0) % P());
    assert(b * e0 == e0 * b) by (nonlinear_arith); ax_P(); c_small(2); c_small(0); c_small(e0); c_small(s0); assert(b == 0 || b == 1); assert(b * e0 == if b == 1 { e0 } else { 0 });
    c_trans(summ.v(), s0 + (b * e0) % P(), z % q + b * q);
    c_mul(e0, q, 2, 2); c_mod(e0 * 2); c_trans(exponent.v(), e0 * 2, q * 2);
  }
#hook loop 0 after
  proof {
    let z = zero_shifted_cmp.value()->0.v();
    lemma_mod_bound(z, pow2(n + 1) as int);
    c_eq(summ.v(), z % (pow2(n + 1) as int));
  }
#hook enforce 0 pre
  proof {
    let t = a.var().val() - b.var().val() - 1 + zero_shift.v();
    assert(ea__.val() * eb__.val() == t) by (nonlinear_arith) requires ea__.val() == t, eb__.val() == 1;
    c_flip(t, zero_shifted_cmp.var().val());
  }
#hook enforce 1 pre
  let ghost z = zero_shifted_cmp.var().val();
  let ghost low = n_bit_zero_cmp.var().val();
  let ghost s = zero_shift.v();
  let ghost d = a.var().val() - b.var().val() - 1;
  proof {
    assert(ea__.val() * eb__.val() == (z - low) * (z - low - s));
    if cs.sat() {
      assert(cong(z, d + s)) by { c_sym(d + s, z); }
      c_small(low);
      if near(d, n) && cong(ea__.val() * eb__.val(), 0) { cmp_sound(d, z, low, s, n); }
    }
    if old(cs).w() && cs.honest() {
      assert(z == zv && low == z % (pow2(n + 1) as int));
      if near(dv, n) && a.hon() && b.hon() { cmp_complete(dv, z, low, s, n); }
    }
  }
#hook ret
  proof {
    if old(cs).w() && near(dv, n) {
      lemma_fundamental_div_mod(zv, pow2(n + 1) as int); lemma_mod_bound(zv, pow2(n + 1) as int);
      if sdif(dv, n) < 0 { lemma_small_mod(zv as nat, pow2(n + 1)); }
    }
  }
#fn alloc_constant
#ensures
  kept(*old(cs), *final(cs)), res is Ok,
  final(cs).nv() == old(cs).nv() + 1, final(cs).nc() == old(cs).nc() + 1,
  final(cs).sat() ==> res->Ok_0.var().val() == value as int % P(),
  old(cs).w() ==> res->Ok_0.value() is Some && res->Ok_0.value()->0.v() == value as int % P(),
  !old(cs).w() ==> res->Ok_0.value() is None && final(cs).honest() == old(cs).honest(),
  final(cs).honest() && old(cs).w() ==> res->Ok_0.hon(),
  old(cs).w() && old(cs).sat() && final(cs).honest() ==> final(cs).sat(),
#hook enforce 0 pre
  proof {
    let x = n.var().val(); let v = value as int % P();
    assert(ea__.val() * eb__.val() == x) by (nonlinear_arith) requires ea__.val() == x, eb__.val() == 1;
    ax_P(); c_mod(value as int);
    if cong(x, v) { c_eq(x, v); }
    c_refl(v);
  }
#fn compute_median_timestamp
#requires
  old(prev_timestamps)@.len() > 0,
#ensures
  // the middle element of the sorted list, which is left sorted
  sorted32(final(prev_timestamps)@), final(prev_timestamps)@.to_multiset() == old(prev_timestamps)@.to_multiset(),
  final(prev_timestamps)@.len() == old(prev_timestamps)@.len(),
  res == final(prev_timestamps)@[(old(prev_timestamps)@.len() / 2) as int],
#rs
/// the timestamps and the candidate allocated, in this assignment
pub open spec fn med_ts(o: Cs, n: int) -> Seq<int> { Seq::new(n as nat, |i: int| gvar(o.nv() + 1 + i)) }
pub open spec fn med_m(o: Cs) -> int { gvar(o.nv()) }
pub open spec fn ints32(s: Seq<u32>) -> Seq<int> { s.map_values(|x: u32| x as int) }
pub open spec fn anums(s: Seq<AllocatedNum>) -> Seq<int> { s.map_values(|x: AllocatedNum| x.var().val()) }
pub open spec fn med_fit(ts: Seq<int>, m: int) -> bool { fit(m, 32) && all_fit(ts, 32) }
pub open spec fn absi(x: int) -> int { if x < 0 { -x } else { x } }
/// cong((1 - eq)(1 - 2 lt), sign of the difference)
proof fn sign_step(m: int, t: int, e: int, l: int)
    requires cong(e, b2i(m == t)), cong(l, b2i(m < t)),
    ensures cong((1 - 1 * e) * (1 - 2 * l), b2i(t < m) - b2i(t > m)),
{
    let eb = b2i(m == t); let lb = b2i(m < t);
    c_refl(1); c_refl(2);
    c_mul(2, 2, l, lb); c_add(1, 1, 2 * l, 2 * lb); c_add(1, 1, e, eb);
    c_mul(1 - e, 1 - eb, 1 - 2 * l, 1 - 2 * lb);
    assert((1 - eb) * (1 - 2 * lb) == b2i(t < m) - b2i(t > m)) by (nonlinear_arith) requires eb == b2i(m == t), lb == b2i(m < t);
}
#fn verify_median_timestamp
#requires
  old(timestamp_array)@.len() < 0x8000_0000, CAP() >= 34,
#ensures
  kept(*old(cs), *final(cs)), res is Ok,
  // every satisfying assignment: true if and only if the candidate is the median of the timestamps
  final(cs).sat() && old(timestamp_array)@.len() % 2 == 1 && med_fit(med_ts(*old(cs), old(timestamp_array)@.len() as int), med_m(*old(cs))) ==>
    res->Ok_0.bin() && res->Ok_0.tru() == is_median(med_ts(*old(cs), old(timestamp_array)@.len() as int), med_m(*old(cs))),
  // the prover's are the ones given, and its assignment is accepted
  old(cs).w() && final(cs).honest() ==> med_m(*old(cs)) == median && med_ts(*old(cs), old(timestamp_array)@.len() as int) =~= ints32(old(timestamp_array)@),
  old(cs).w() && final(cs).honest() && old(cs).sat() ==> final(cs).sat(),
  old(cs).w() ==> res->Ok_0.value() is Some,
  old(cs).w() && final(cs).honest() ==> res->Ok_0.hon(),
  !old(cs).w() ==> res->Ok_0.value() is None && final(cs).honest() == old(cs).honest(),
  final(timestamp_array)@ == old(timestamp_array)@,
#hook entry
  let ghost len = old(timestamp_array)@.len() as int;
  let ghost ts = med_ts(*old(cs), len); let ghost m = med_m(*old(cs));
  let ghost arr = old(timestamp_array)@;
  let ghost fits = med_fit(ts, m);
  let ghost sg = nlt(ts, m) - ngt(ts, m);
  let ghost eqs = neq(ts, m);
  proof { ax_P(); lemma2_to64(); lemma2_to64_rest(); p2_mono(34, CAP()); c_refl(0); c_refl(1); p2(32); p2(33); c_small(median as int); c_small(0); c_small(1);
    assert(ts.take(0) =~= seq![]); counts_empty(m); }
#hook loop 0 inv
  n0 == arr.len(), s__0@ == arr, arr.len() == len, fe_timestamps@.len() == i0,
  kept(*old(cs), *cs), !cs.w() ==> cs.honest() == old(cs).honest(), cs.nv() == old(cs).nv() + 1 + i0, cs.sat() == old(cs).sat(), pow2(32) < P(), pow2(32) == 0x1_0000_0000,
  ts == med_ts(*old(cs), len), ts.len() == len,
  cs.w() && cs.honest() ==> m == median && fe_median.hon(), cs.w() ==> fe_median.value() is Some,
  med_vars(fe_timestamps@, ts, arr, cs.w(), cs.honest()),
#hook loop 0 begin
  let ghost ft0 = fe_timestamps@;
  proof { c_small(arr[i0 as int] as int); assert(med_vars(ft0, ts, arr, cs.w(), cs.honest())); }
#hook loop 1 before
  proof { assert(cs.w() && cs.honest() ==> fits) by {
      if cs.w() && cs.honest() { assert forall|i: int| 0 <= i < ts.len() implies fit(#[trigger] ts[i], 32) by { assert(fe_timestamps@[i].var().val() == ts[i]); } }
    } }
#hook loop 1 inv
  n1 == fe_timestamps@.len(), s__1 == fe_timestamps, fe_timestamps@.len() == len, arr.len() == len, ts.len() == len, len < 0x8000_0000, CAP() >= 34,
  kept(*old(cs), *cs), !cs.w() ==> cs.honest() == old(cs).honest(), pow2(32) < P(), pow2(32) == 0x1_0000_0000, P() > 2,
  fits == med_fit(ts, m), cs.w() && cs.honest() ==> fits,
  m == fe_median.var().val(), cs.w() && cs.honest() ==> m == median && fe_median.hon(), cs.w() ==> fe_median.value() is Some,
  med_vars(fe_timestamps@, ts, arr, cs.w(), cs.honest()),
  cs.sat() && fits ==> cong(sign_diff.var().val(), nlt(ts.take(i1 as int), m) - ngt(ts.take(i1 as int), m)) && cong(n_median_occurrences.lcv(), neq(ts.take(i1 as int), m)),
  cs.w() ==> sign_diff.value() is Some && n_median_occurrences.value() is Some,
  !cs.w() ==> sign_diff.value() is None,
  cs.w() && cs.honest() ==> sign_diff.hon() && cong(n_median_occurrences.lcv(), n_median_occurrences.value()->0.v()),
  cs.w() && cs.honest() && old(cs).sat() ==> cs.sat(),
#hook loop 1 begin
  let ghost cs0 = *cs; let ghost occ0 = n_median_occurrences; let ghost sd0 = sign_diff;
  let ghost t = ts[i1 as int];
  proof { assert(fe_timestamps@[i1 as int].var().val() == t); counts_take(ts, i1 as int, m); c_small(1); c_small(2); c_small(0); c_isb(); c_refl(0); c_refl(1); }
#hook after let delta_sign
  proof {
    if fits { near_fit(m, t, 32); }
    if cs.w() && cs.honest() {
      let eb = b2i(res_eq.value()->0); let lb = b2i(res_lt.value()->0);
      c_small(eb); c_small(lb);
      let dv = delta_sign.value()->0.v();
      let x = (1 - eb) % P(); let y0 = (1 - lb) % P(); let y = (y0 - lb) % P();
      c_mod(1 - eb); c_mod(1 - lb); c_mod(y0 - lb); c_refl(lb);
      c_add(y0, 1 - lb, lb, lb); c_trans(y, y0 - lb, 1 - lb - lb);
      c_mul(y, 1 - lb - lb, x, 1 - eb); c_mod(y * x); c_trans(dv, y * x, (1 - lb - lb) * (1 - eb));
      c_refl(1); c_refl(2);
      let e = res_eq.lcv(); let l = res_lt.lcv();
      c_mul(2, 2, l, lb); c_add(1, 1, 2 * l, 2 * lb); c_add(1, 1, e, eb);
      c_mul(1 - 2 * l, 1 - 2 * lb, 1 - e, 1 - eb);
      c_sym((1 - 2 * l) * (1 - e), (1 - 2 * lb) * (1 - eb));
      c_trans(dv, (1 - 2 * lb) * (1 - eb), (1 - 2 * l) * (1 - e));
      c_sym(dv, (1 - 2 * l) * (1 - e));
    }
  }
#hook enforce 0 pre
  proof {
    let e = res_eq.lcv(); let l = res_lt.lcv();
    assert(ea__.val() == 1 - 1 * e);
    assert(eb__.val() == 1 - 2 * l);
    assert((1 - 1 * e) * (1 - 2 * l) == (1 - 2 * l) * (1 - e)) by (nonlinear_arith);
    if cs.sat() && fits {
      near_fit(m, t, 32);
      if !res_eq.tru() { assert(cong(e, 0)); } 
      if !res_lt.tru() { assert(cong(l, 0)); }
      sign_step(m, t, e, l);
      c_sym((1 - 1 * e) * (1 - 2 * l), b2i(t < m) - b2i(t > m));
    }
  }
#hook loop 1 end
  proof {
    let dl = delta_sign.var().val(); let d = b2i(t < m) - b2i(t > m);
    let e = res_eq.lcv(); let l = res_lt.lcv();
    if cs.sat() && fits {
      c_trans(d, (1 - 1 * e) * (1 - 2 * l), dl); c_sym(d, dl);
      let a = nlt(ts.take(i1 as int), m) - ngt(ts.take(i1 as int), m);
      c_add(sd0.var().val(), a, dl, d);
      c_sym(sd0.var().val() + dl, sign_diff.var().val());
      c_trans(sign_diff.var().val(), sd0.var().val() + dl, a + d);
      c_add(occ0.lcv(), neq(ts.take(i1 as int), m), e, b2i(t == m));
    }
    if cs.w() && cs.honest() {
      let eb = b2i(res_eq.value()->0);
      let ov = occ0.value()->0.v();
      c_add(occ0.lcv(), ov, e, eb); c_mod(ov + eb); c_sym(n_median_occurrences.value()->0.v(), ov + eb);
      c_trans(n_median_occurrences.lcv(), ov + eb, n_median_occurrences.value()->0.v());
      let s = sd0.value()->0.v() + delta_sign.value()->0.v();
      c_mod(s);
    }
  }
#hook loop 1 after
  proof {
    if cs.w() && cs.honest() {
      assert forall|i: int| 0 <= i < ts.len() implies #[trigger] ts[i] == arr[i] by { assert(fe_timestamps@[i].var().val() == ts[i]); }
      assert(ts =~= ints32(arr));
    }
    assert(ts.take(len) =~= ts); counts_sum(ts, m); assert(-len <= sg <= len && 0 <= eqs <= len); }
#hook after let is_negative
  proof {
    if cs.sat() && fits { sdif_is(sign_diff.var().val() - const_0.var().val(), sg, 32); }
    if cs.w() && cs.honest() && old(cs).sat() { sdif_is(sign_diff.value()->0.v() - const_0.value()->0.v(), sg, 32); }
  }
#hook enforce 1 pre
  proof {
    let a = sign_diff.var().val(); let b = neg_sign_diff.var().val();
    assert(ea__.val() * eb__.val() == a + b) by (nonlinear_arith) requires ea__.val() == a + b, eb__.val() == 1;
    if cs.w() && cs.honest() { c_mod(0 - a); c_refl(a); c_add(a, a, b, -a); }
    if cong(a + b, 0) { c_refl(a); c_add(a + b, 0, a, a); if cs.sat() && fits { c_refl(0); c_add(0, 0, a, sg); c_trans(b, -a, -sg); } }
  }
#hook after let abs_sign_diff
  proof {
    let a = sign_diff.var().val(); let b = neg_sign_diff.var().val(); let c = is_negative.lcv(); let r = abs_sign_diff.var().val();
    if cs.sat() && fits {
      let k = b2i(sg < 0);
      assert(cong(c, k));
      c_refl(a - b); c_mul(a - b, a - b, c, k);
      c_sym((a - b) * c, a - r); c_trans(a - r, (a - b) * c, (a - b) * k);
      c_refl(a); c_add(a, a, a - r, (a - b) * k);
      assert(a - (a - b) * k == (if sg < 0 { b } else { a })) by (nonlinear_arith) requires k == b2i(sg < 0);
      c_trans(r, if sg < 0 { b } else { a }, absi(sg));
    }
    if cs.w() && cs.honest() && old(cs).sat() {
      // the prover's order is the flag's
      let vb = b2i(is_negative.value()->0);
      let wa = sign_diff.value()->0.v(); let wb = neg_sign_diff.value()->0.v();
      assert(wa == a && wb == b);
      assert(abs_sign_diff.hon());
      c_refl(a - b); c_mul(a - b, a - b, c, vb);
      let r2 = _dummy.var().val();
      assert((a - b) * vb == a - r && (b - a) * vb == b - r2) by (nonlinear_arith) requires vb == b2i(is_negative.value()->0), r == (if is_negative.value()->0 { b } else { a }), r2 == (if is_negative.value()->0 { a } else { b });
      c_refl(b - a); c_mul(b - a, b - a, c, vb);
    }
  }
#hook after let lhs
  proof {
    let r = abs_sign_diff.var().val(); let k = const_1.var().val();
    if cs.sat() && fits { c_add(r, absi(sg), k, 1); c_sym(r + k, lhs.var().val()); c_trans(lhs.var().val(), r + k, absi(sg) + 1); c_eq(lhs.var().val(), absi(sg) + 1); }
    if cs.w() && cs.honest() { c_mod(abs_sign_diff.value()->0.v() + const_1.value()->0.v()); }
  }
#hook enforce 2 pre
  proof {
    let o = n_median_occurrences.lcv(); let f = fe_median_occ.var().val();
    assert(ea__.val() * eb__.val() == o) by (nonlinear_arith) requires ea__.val() == 1 * o, eb__.val() == 1;
    if cs.sat() && fits && cong(o, f) { c_sym(o, f); c_trans(f, o, eqs); c_eq(f, eqs); }
    if len % 2 == 1 { median_counts(ts, m); }
  }
#rs
pub open spec fn med_vars(f: Seq<AllocatedNum>, ts: Seq<int>, arr: Seq<u32>, w: bool, h: bool) -> bool {
    forall|j: int| 0 <= j < f.len() ==> (#[trigger] f[j]).var().val() == ts[j] && (w ==> f[j].value() is Some) && (w && h ==> ts[j] == arr[j] && f[j].hon())
}
