#rs
/// the two sides' largest coefficients
pub open spec fn max_left(a: BigNat, b: BigNat) -> int { prod_max(a.limbs@.len() as int, b.limbs@.len() as int, a.params.max_word.v(), b.params.max_word.v()) }
pub open spec fn max_right(nq: int, m: BigNat, w: nat, mr: int) -> int { prod_max(nq, m.limbs@.len() as int, pow2(w) - 1, m.params.max_word.v()) + mr }
#fn BigNat::assert_product_mod
#requires
  self.shape(), other.shape(), modulus.shape(), remainder.shape(), self.limbs@.len() >= 1, other.limbs@.len() >= 1, modulus.limbs@.len() >= 1, self.params.limb_width < 0x1_0000_0000,
  self.limbs@.len() + other.limbs@.len() + modulus.limbs@.len() <= usize::MAX, self.limbs@.len() + other.limbs@.len() + modulus.limbs@.len() <= P(), (self.limbs@.len() + other.limbs@.len()) * self.lw() <= usize::MAX,
  old(cs).w() ==> self.has() && other.has() && modulus.has() && remainder.has() && self.wf() && other.wf() && modulus.wf() && remainder.wf() && modulus.value->0.v() > 0,
  // the carries leave room in the field
  cbits(mx(max_left(*self, *other), max_right((self.limbs@.len() + other.limbs@.len()) as int, *modulus, self.lw(), remainder.params.max_word.v())), self.lw()) + self.lw() <= CAP(),
#ensures
  kept(*old(cs), *final(cs)),
  !old(cs).w() ==> (res is Ok) == (self.lw() == other.lw() && self.lw() == modulus.lw() && self.lw() == remainder.lw()),
  old(cs).w() ==> (res is Ok) == (self.lw() == other.lw() && self.lw() == modulus.lw() && self.lw() == remainder.lw()
    && self.value->0.v() * other.value->0.v() / modulus.value->0.v() < pow2(self.lw() * (self.limbs@.len() + other.limbs@.len()))),
  res is Ok ==> ({
    let q = res->Ok_0;
    &&& q.shape() && q.limbs@.len() == self.limbs@.len() + other.limbs@.len() && q.lw() == self.lw() && q.params.max_word.v() == pow2(self.lw()) - 1 && q.params.min_bits == 0 && q.has() == old(cs).w()
    // every satisfying assignment: the equation over the integers, and the quotient's limbs are digits
    &&& final(cs).sat() ==> q.dgt() && q.bnd()
    &&& final(cs).sat() && self.bnd() && other.bnd() && modulus.bnd() && remainder.bnd() ==> self.iv() * other.iv() == q.iv() * modulus.iv() + remainder.iv()
    // the prover's
    &&& q.has() ==> q.value->0.v() == self.value->0.v() * other.value->0.v() / modulus.value->0.v() && q.wf()
    &&& old(cs).w() && final(cs).honest() ==> q.hon()
    &&& old(cs).w() && old(cs).sat() && final(cs).honest() && self.hon() && other.hon() && modulus.hon() && remainder.hon()
        && remainder.value->0.v() == self.value->0.v() * other.value->0.v() % modulus.value->0.v() ==> final(cs).sat()
  }),
#hook entry
  let ghost w = self.lw(); let ghost nq = (self.limbs@.len() + other.limbs@.len()) as nat; let ghost ma = self.params.max_word.v(); let ghost mb = other.params.max_word.v(); let ghost mm = modulus.params.max_word.v(); let ghost mr = remainder.params.max_word.v();
  let ghost x = self.value->0.v() * other.value->0.v(); let ghost m = modulus.value->0.v();
  let ghost pm = prod_max(nq as int, modulus.limbs@.len() as int, pow2(w) - 1, mm);
  proof {
    ax_P(); lv_range(*self); lv_range(*other); lv_range(*modulus); lv_range(*remainder); wv_nonneg(*self); wv_nonneg(*other); wv_nonneg(*modulus); wv_nonneg(*remainder); lemma_pow2_pos(w);
    prod_max_nn(self.limbs@.len() as int, other.limbs@.len() as int, ma, mb); prod_max_nn(nq as int, modulus.limbs@.len() as int, pow2(w) - 1, mm);
    room_ok(mx(max_left(*self, *other), max_right(nq as int, *modulus, w, mr)), w);
    assert(w * nq == nq * w) by (nonlinear_arith);
    lemma_pow2_pos(w * nq);
    if old(cs).w() { let s = self.value->0.v(); let t = other.value->0.v(); assert(s * t >= 0) by (nonlinear_arith) requires s >= 0, t >= 0; lemma_div_pos_is_pos(x, m); lemma_fundamental_div_mod(x, m); }
    assert forall|j: int| 0 <= j < nq implies 0 <= #[trigger] digs(x / m, nq, w)[j] < pow2(w) by { lemma_mod_bound((x / m) / (pow2(w * (j as nat)) as int), pow2(w) as int); }
  }
#hook after let left
  proof {
    if cs.sat() && self.bnd() && other.bnd() { prod_sound(self.lv(), other.lv(), lcs(self.limbs@), lcs(other.limbs@), left.cf(), ma, mb, w); }
    if left.has() && self.vbnd() && other.vbnd() { prod_wit(self.wv(), other.wv(), left.wv(), ma, mb, w); }
  }
#hook after let right_product
  let ghost rp = right_product;
  proof {
    lv_range(quotient);
    if cs.sat() && quotient.bnd() && modulus.bnd() { prod_sound(quotient.lv(), modulus.lv(), lcs(quotient.limbs@), lcs(modulus.limbs@), rp.cf(), pow2(w) - 1, mm, w); }
    if rp.has() && quotient.vbnd() && modulus.vbnd() { prod_wit(quotient.wv(), modulus.wv(), rp.wv(), pow2(w) - 1, mm, w); }
  }
#hook after let right
  proof {
    if cs.sat() && quotient.bnd() && modulus.bnd() && remainder.bnd() { sum_sound(rp.cf(), lcs(remainder.limbs@), pm, mr, w); }
    if right.has() && quotient.vbnd() && modulus.vbnd() && remainder.vbnd() {
      mods_id(rp.wv(), pm); mods_id(remainder.wv(), mr); sum_sound(rp.wv(), remainder.wv(), pm, mr, w);
    }
  }
#hook after let left_int
  proof { assert(left_int.limbs@.len() >= 1); }
#hook after let right_int
  proof { assert(right_int.limbs@.len() == right_int.limbs@.map_values(|x: Lc| x.val()).len()); assert(right_int.limbs@.len() >= 1); }
#hook after call equal_when_carried_regroup#0
  proof { assert((x / m) * m == m * (x / m)) by (nonlinear_arith); }
#rs
pub proof fn mul_ge(w: nat, n: nat) requires w >= 1, ensures w * n >= n, n * w >= n { assert(w * n >= n && n * w >= n) by (nonlinear_arith) requires w >= 1; }
/// the limbs of the quotient of a number of b bits by m
pub open spec fn nq_of(b: int, m: BigNat, w: nat) -> nat { qlimbs(sat0(b - sat0(m.params.min_bits - 1)), w) }
/// the length of the largest number the limbs can spell
pub open spec fn len_of(a: BigNat) -> int { nbits(a.params.max_word.v() * rep(a.lw(), a.limbs@.len())) as int }
/// that length is moderate when the field has room for the limbs
pub proof fn len_ok(a: BigNat, k: nat)
    requires a.shape(), a.params.max_word.v() < pow2(k), a.lw() * a.limbs@.len() <= u32::MAX,
    ensures 0 <= len_of(a) <= k + a.lw() * a.limbs@.len(),
{
    let w = a.lw(); let n = a.limbs@.len(); let m = a.params.max_word.v();
    rep_mul(w, n); lemma_pow2_pos(w * n); lemma2_to64(); p2_mono(1, w); rep_step(w, n);
    assert(rep(w, n) < pow2(w * n)) by (nonlinear_arith) requires rep(w, n) * (pow2(w) - 1) == pow2(w * n) - 1, pow2(w) >= 2, rep(w, n) >= 0;
    p2_add(k, w * n);
    let r = rep(w, n); let p = pow2(k) as int; let q = pow2(w * n) as int;
    assert(0 <= m * r < p * q) by (nonlinear_arith) requires 0 <= m < p, 0 <= r < q;
    nbits_ok(m * r);
    bits_le(m * r, nbits(m * r) as int, k + w * n);
}
#fn BigNat::mult_mod
#requires
  self.shape(), other.shape(), modulus.shape(), self.limbs@.len() >= 1, other.limbs@.len() >= 1, modulus.limbs@.len() >= 1, self.params.limb_width < 0x1_0000_0000,
  self.lw() * self.limbs@.len() <= u32::MAX, other.lw() * other.limbs@.len() <= u32::MAX, modulus.limbs@.len() * modulus.lw() <= u32::MAX, modulus.limbs@.len() * self.lw() <= u32::MAX,
  self.limbs@.len() + other.limbs@.len() <= P(), nq_of(len_of(*self) + len_of(*other), *modulus, self.lw()) + modulus.limbs@.len() <= P(),
  old(cs).w() ==> self.has() && other.has() && modulus.has() && self.wf() && other.wf() && modulus.wf() && modulus.value->0.v() > 0,
  // the carries leave room in the field
  self.params.max_word.v() < P(), other.params.max_word.v() < P(), 
  cbits(mx(max_left(*self, *other), max_right(nq_of(len_of(*self) + len_of(*other), *modulus, self.lw()) as int, *modulus, self.lw(), pow2(self.lw()) - 1)), self.lw()) + self.lw() <= CAP(),
  cbits(mx(modulus.params.max_word.v(), pow2(self.lw()) + (pow2(self.lw()) - 1)), self.lw()) + self.lw() <= CAP(),
#ensures
  kept(*old(cs), *final(cs)),
  !old(cs).w() ==> (res is Ok) == (self.lw() == other.lw() && self.lw() == modulus.lw()),
  // whatever the operands, only a remainder (or its distance to the modulus) that does not fit the modulus's limbs is refused
  old(cs).w() ==> (res is Ok) == (self.lw() == other.lw() && self.lw() == modulus.lw() && fits_mod(self.value->0.v() * other.value->0.v(), *modulus)),
  res is Ok ==> ({
    let (q, r) = res->Ok_0; let w = self.lw();
    &&& q.shape() && q.limbs@.len() == nq_of(len_of(*self) + len_of(*other), *modulus, w) && q.lw() == w && q.params.max_word.v() == pow2(w) - 1 && q.params.min_bits == 0 && q.has() == old(cs).w()
    &&& r.shape() && r.limbs@.len() == modulus.limbs@.len() && r.lw() == w && r.params.max_word.v() == pow2(w) - 1 && r.params.min_bits == 0 && r.has() == old(cs).w()
    // every satisfying assignment: the quotient and the remainder over the integers
    &&& final(cs).sat() ==> q.dgt() && q.bnd() && r.dgt() && r.bnd()
    &&& final(cs).sat() && self.bnd() && other.bnd() && modulus.bnd() ==> self.iv() * other.iv() == q.iv() * modulus.iv() + r.iv() && 0 <= r.iv() < modulus.iv()
        && q.iv() == (self.iv() * other.iv()) / modulus.iv() && r.iv() == (self.iv() * other.iv()) % modulus.iv()
    // the prover's
    &&& q.has() ==> q.value->0.v() == self.value->0.v() * other.value->0.v() / modulus.value->0.v() && q.wf()
    &&& r.has() ==> r.value->0.v() == self.value->0.v() * other.value->0.v() % modulus.value->0.v() && r.wf()
    &&& old(cs).w() && final(cs).honest() ==> q.hon() && r.hon()
    &&& old(cs).w() && old(cs).sat() && final(cs).honest() && self.hon() && other.hon() && modulus.hon() ==> final(cs).sat()
  }),
#hook entry
  let ghost w = self.lw(); let ghost ma = self.params.max_word.v(); let ghost mb = other.params.max_word.v(); let ghost mm = modulus.params.max_word.v(); let ghost mr = pow2(w) - 1;
  let ghost x = self.value->0.v() * other.value->0.v(); let ghost m = modulus.value->0.v();
  let ghost bb = len_of(*self) + len_of(*other); let ghost nq = nq_of(bb, *modulus, w); let ghost nm = modulus.limbs@.len();
  let ghost pm = prod_max(nq as int, nm as int, pow2(w) - 1, mm);
  proof {
    ax_P(); lv_range(*self); lv_range(*other); lv_range(*modulus); wv_nonneg(*self); wv_nonneg(*other); wv_nonneg(*modulus); lemma_pow2_pos(w);
    prod_max_nn(self.limbs@.len() as int, other.limbs@.len() as int, ma, mb); prod_max_nn(nq as int, nm as int, pow2(w) - 1, mm);
    room_ok(mx(max_left(*self, *other), max_right(nq as int, *modulus, w, mr)), w);
    room_ok(mx(mm, pow2(w) + mr), w);
    len_ok(*self, CAP() + 1); len_ok(*other, CAP() + 1);
    nbits_ok(ma * rep(self.lw(), self.limbs@.len())); nbits_ok(mb * rep(other.lw(), other.limbs@.len()));
    qlimbs_ok(sat0(bb - sat0(modulus.params.min_bits - 1)), w);
    assert(w * nq == nq * w && w * nm == nm * w) by (nonlinear_arith);
    lemma_pow2_pos(w * nq); lemma_pow2_pos(w * nm);
    p2_mono(w, CAP());
    mul_ge(w, self.limbs@.len()); mul_ge(other.lw(), other.limbs@.len()); mul_ge(w, nm);
    if old(cs).w() && self.lw() == other.lw() && self.lw() == modulus.lw() { mod_wit(x, *self, *other, *modulus, bb, w, nq); }
    assert forall|j: int| 0 <= j < nq implies 0 <= #[trigger] digs(x / m, nq, w)[j] < pow2(w) by { lemma_mod_bound((x / m) / (pow2(w * (j as nat)) as int), pow2(w) as int); }
    assert forall|j: int| 0 <= j < nm implies 0 <= #[trigger] digs(x % m, nm, w)[j] < pow2(w) by { lemma_mod_bound((x % m) / (pow2(w * (j as nat)) as int), pow2(w) as int); }
  }
#hook bind n_bits#0
  proof { nbits_is(ma * rep(self.lw(), self.limbs@.len()), b__ as int); }
#hook bind n_bits#1
  proof { nbits_is(mb * rep(other.lw(), other.limbs@.len()), b__ as int); }
#hook after let left
  proof {
    if cs.sat() && self.bnd() && other.bnd() { prod_sound(self.lv(), other.lv(), lcs(self.limbs@), lcs(other.limbs@), left.cf(), ma, mb, w); }
    if left.has() && self.vbnd() && other.vbnd() { prod_wit(self.wv(), other.wv(), left.wv(), ma, mb, w); }
  }
#hook after let right_product
  let ghost rp = right_product;
  proof {
    lv_range(quotient); lv_range(remainder);
    if cs.sat() && quotient.bnd() && modulus.bnd() { prod_sound(quotient.lv(), modulus.lv(), lcs(quotient.limbs@), lcs(modulus.limbs@), rp.cf(), pow2(w) - 1, mm, w); }
    if rp.has() && quotient.vbnd() && modulus.vbnd() { prod_wit(quotient.wv(), modulus.wv(), rp.wv(), pow2(w) - 1, mm, w); }
  }
#hook after let right
  proof {
    if cs.sat() && quotient.bnd() && modulus.bnd() && remainder.bnd() { sum_sound(rp.cf(), lcs(remainder.limbs@), pm, mr, w); }
    if right.has() && quotient.vbnd() && modulus.vbnd() && remainder.vbnd() {
      mods_id(rp.wv(), pm); mods_id(remainder.wv(), mr); sum_sound(rp.wv(), remainder.wv(), pm, mr, w);
    }
  }
#hook after let left_int
  proof { assert(left_int.limbs@.len() >= 1); }
#hook after let right_int
  proof { assert(right_int.limbs@.len() == right_int.limbs@.map_values(|x: Lc| x.val()).len()); assert(right_int.limbs@.len() >= 1); }
#hook ret
  proof {
    assert((x / m) * m == m * (x / m)) by (nonlinear_arith);
    if r__ is Ok && cs.sat() && self.bnd() && other.bnd() && modulus.bnd() { lv_nonneg(remainder); lv_nonneg(quotient); quo_rem_is(self.iv() * other.iv(), modulus.iv(), quotient.iv(), remainder.iv()); }
  }
#rs
/// the remainder and its distance to the modulus fit the modulus's limbs
pub open spec fn fits_mod(x: int, m: BigNat) -> bool { x % m.value->0.v() < pow2(m.lw() * m.limbs@.len()) && m.value->0.v() - x % m.value->0.v() - 1 < pow2(m.lw() * m.limbs@.len()) }
pub proof fn mod_wit(x: int, a: BigNat, b: BigNat, m: BigNat, bb: int, w: nat, nq: nat)
    requires a.wf(), b.wf(), m.wf(), a.has(), b.has(), m.has(), m.value->0.v() > 0, x == a.value->0.v() * b.value->0.v(), bb == len_of(a) + len_of(b), nq == nq_of(bb, m, w), w >= 1,
        a.params.limb_width == w, b.params.limb_width == w,
    ensures x >= 0, 0 <= x / m.value->0.v() < pow2(w * nq), 0 <= x % m.value->0.v() < m.value->0.v(), x == m.value->0.v() * (x / m.value->0.v()) + x % m.value->0.v(),
{
    wv_nonneg(a); wv_nonneg(b);
    let p = a.value->0.v(); let q = b.value->0.v(); let v = m.value->0.v();
    ls_le(a.wv(), a.params.max_word.v(), w); ls_le(b.wv(), b.params.max_word.v(), w);
    nbits_ok(a.params.max_word.v() * rep(w, a.limbs@.len())); nbits_ok(b.params.max_word.v() * rep(w, b.limbs@.len()));
    let i = len_of(a) as nat; let j = len_of(b) as nat;
    p2_add(i, j);
    let s = pow2(i) as int; let t = pow2(j) as int;
    assert(0 <= p * q < s * t) by (nonlinear_arith) requires 0 <= p < s, 0 <= q < t;
    quo_bits(x, bb, v, m.params.min_bits as int);
    qlimbs_ok(sat0(bb - sat0(m.params.min_bits - 1)), w);
    p2_mono(sat0(bb - sat0(m.params.min_bits - 1)) as nat, w * nq);
    lemma_fundamental_div_mod(x, v); lemma_mod_bound(x, v);
}
#fn BigNat::red_mod
#requires
  self.shape(), modulus.shape(), self.limbs@.len() >= 1, modulus.limbs@.len() >= 1, self.params.limb_width < 0x1_0000_0000,
  self.lw() * self.limbs@.len() <= u32::MAX, modulus.limbs@.len() * modulus.lw() <= u32::MAX, modulus.limbs@.len() * self.lw() <= u32::MAX,
  nq_of(len_of(*self), *modulus, self.lw()) + modulus.limbs@.len() <= P(),
  old(cs).w() ==> self.has() && modulus.has() && self.wf() && modulus.wf() && modulus.value->0.v() > 0,
  // the carries leave room in the field
  cbits(mx(self.params.max_word.v(), max_right(nq_of(len_of(*self), *modulus, self.lw()) as int, *modulus, self.lw(), pow2(self.lw()) - 1)), self.lw()) + self.lw() <= CAP(),
  cbits(mx(modulus.params.max_word.v(), pow2(self.lw()) + (pow2(self.lw()) - 1)), self.lw()) + self.lw() <= CAP(),
#ensures
  kept(*old(cs), *final(cs)),
  !old(cs).w() ==> (res is Ok) == (self.lw() == modulus.lw()),
  // only a remainder (or its distance to the modulus) that does not fit the modulus's limbs is refused
  old(cs).w() ==> (res is Ok) == (self.lw() == modulus.lw() && fits_mod(self.value->0.v(), *modulus)),
  res is Ok ==> ({
    let r = res->Ok_0; let w = self.lw();
    &&& r.shape() && r.limbs@.len() == modulus.limbs@.len() && r.lw() == w && r.params.max_word.v() == pow2(w) - 1 && r.params.min_bits == 0 && r.has() == old(cs).w()
    // every satisfying assignment: the remainder over the integers
    &&& final(cs).sat() ==> r.dgt() && r.bnd()
    &&& final(cs).sat() && self.bnd() && modulus.bnd() ==> 0 <= r.iv() < modulus.iv() && r.iv() == self.iv() % modulus.iv()
        && exists|q: int| 0 <= q && self.iv() == #[trigger] (q * modulus.iv()) + r.iv()
    // the prover's
    &&& r.has() ==> r.value->0.v() == self.value->0.v() % modulus.value->0.v() && r.wf()
    &&& old(cs).w() && final(cs).honest() ==> r.hon()
    &&& old(cs).w() && old(cs).sat() && final(cs).honest() && self.hon() && modulus.hon() ==> final(cs).sat()
  }),
#hook entry
  let ghost w = self.lw(); let ghost ma = self.params.max_word.v(); let ghost mm = modulus.params.max_word.v(); let ghost mr = pow2(w) - 1;
  let ghost x = self.value->0.v(); let ghost m = modulus.value->0.v();
  let ghost bb = len_of(*self); let ghost nq = nq_of(bb, *modulus, w); let ghost nm = modulus.limbs@.len();
  let ghost pm = prod_max(nq as int, nm as int, pow2(w) - 1, mm);
  proof {
    ax_P(); lv_range(*self); lv_range(*modulus); wv_nonneg(*self); wv_nonneg(*modulus); lemma_pow2_pos(w);
    prod_max_nn(nq as int, nm as int, pow2(w) - 1, mm);
    room_ok(mx(ma, max_right(nq as int, *modulus, w, mr)), w);
    room_ok(mx(mm, pow2(w) + mr), w);
    len_ok(*self, CAP() + 1);
    nbits_ok(ma * rep(self.lw(), self.limbs@.len()));
    qlimbs_ok(sat0(bb - sat0(modulus.params.min_bits - 1)), w);
    assert(w * nq == nq * w && w * nm == nm * w) by (nonlinear_arith);
    lemma_pow2_pos(w * nq); lemma_pow2_pos(w * nm);
    p2_mono(w, CAP());
    mul_ge(w, self.limbs@.len()); mul_ge(w, nm);
    if old(cs).w() && self.lw() == modulus.lw() { red_wit(x, *self, *modulus, bb, w, nq); }
    assert forall|j: int| 0 <= j < nq implies 0 <= #[trigger] digs(x / m, nq, w)[j] < pow2(w) by { lemma_mod_bound((x / m) / (pow2(w * (j as nat)) as int), pow2(w) as int); }
    assert forall|j: int| 0 <= j < nm implies 0 <= #[trigger] digs(x % m, nm, w)[j] < pow2(w) by { lemma_mod_bound((x % m) / (pow2(w * (j as nat)) as int), pow2(w) as int); }
  }
#hook bind n_bits#0
  proof { nbits_is(ma * rep(self.lw(), self.limbs@.len()), b__ as int); }
#hook after let right_product
  let ghost rp = right_product;
  proof {
    lv_range(quotient); lv_range(remainder);
    if cs.sat() && quotient.bnd() && modulus.bnd() { prod_sound(quotient.lv(), modulus.lv(), lcs(quotient.limbs@), lcs(modulus.limbs@), rp.cf(), pow2(w) - 1, mm, w); }
    if rp.has() && quotient.vbnd() && modulus.vbnd() { prod_wit(quotient.wv(), modulus.wv(), rp.wv(), pow2(w) - 1, mm, w); }
  }
#hook after let right
  proof {
    if cs.sat() && quotient.bnd() && modulus.bnd() && remainder.bnd() { sum_sound(rp.cf(), lcs(remainder.limbs@), pm, mr, w); }
    if right.has() && quotient.vbnd() && modulus.vbnd() && remainder.vbnd() {
      mods_id(rp.wv(), pm); mods_id(remainder.wv(), mr); sum_sound(rp.wv(), remainder.wv(), pm, mr, w);
    }
  }
#hook after let right_int
  proof { assert(right_int.limbs@.len() == right_int.limbs@.map_values(|x: Lc| x.val()).len()); assert(right_int.limbs@.len() >= 1); }
#hook ret
  proof {
    assert((x / m) * m == m * (x / m)) by (nonlinear_arith);
    if r__ is Ok && cs.sat() && self.bnd() && modulus.bnd() { lv_nonneg(remainder); lv_nonneg(quotient); quo_rem_is(self.iv(), modulus.iv(), quotient.iv(), remainder.iv()); assert(self.iv() == (quotient.iv() * modulus.iv()) + remainder.iv()); }
  }
#rs
pub proof fn red_wit(x: int, a: BigNat, m: BigNat, bb: int, w: nat, nq: nat)
    requires a.wf(), m.wf(), a.has(), m.has(), m.value->0.v() > 0, x == a.value->0.v(), bb == len_of(a), nq == nq_of(bb, m, w), w >= 1, a.params.limb_width == w,
    ensures x >= 0, 0 <= x / m.value->0.v() < pow2(w * nq), 0 <= x % m.value->0.v() < m.value->0.v(), x == m.value->0.v() * (x / m.value->0.v()) + x % m.value->0.v(),
{
    wv_nonneg(a);
    let v = m.value->0.v();
    ls_le(a.wv(), a.params.max_word.v(), w);
    nbits_ok(a.params.max_word.v() * rep(w, a.limbs@.len()));
    quo_bits(x, bb, v, m.params.min_bits as int);
    qlimbs_ok(sat0(bb - sat0(m.params.min_bits - 1)), w);
    p2_mono(sat0(bb - sat0(m.params.min_bits - 1)) as nat, w * nq);
    lemma_fundamental_div_mod(x, v); lemma_mod_bound(x, v);
}
