#fn BigNat::add
#requires
  self.shape(), other.shape(),
#ensures
  (res is Ok) == (self.lw() == other.lw()),
  res is Ok ==> ({
    let r = res->Ok_0; let w = self.lw();
    &&& r.shape() && r.lw() == w && r.params.max_word.v() == self.params.max_word.v() + other.params.max_word.v() && r.params.min_bits == (if self.params.min_bits <= other.params.min_bits { other.params.min_bits } else { self.params.min_bits })
    &&& r.has() == (self.has() && other.has()) && (r.has() ==> r.value->0.v() == self.value->0.v() + other.value->0.v())
    // the wires are the sums, whatever the bounds
    &&& lcs(r.limbs@) == vadd(lcs(self.limbs@), lcs(other.limbs@))
    &&& r.limbs@.len() == (if self.limbs@.len() <= other.limbs@.len() { other.limbs@.len() } else { self.limbs@.len() })
    &&& (self.hon() && other.hon() ==> r.hon())
    // with room in the field, the number is the sum and the declarations are true
    &&& r.params.max_word.v() < P() && self.bnd() && other.bnd() ==> r.iv() == self.iv() + other.iv() && r.bnd() && (self.mb() && other.mb() ==> r.mb())
    &&& r.params.max_word.v() < P() && self.wf() && other.wf() ==> r.wf()
    &&& r.params.max_word.v() < P() && r.has() && self.vbnd() && other.vbnd() ==> ls(r.wv(), w) == ls(self.wv(), w) + ls(other.wv(), w) && r.vbnd()
  }),
#hook entry
  let ghost A = lcs(self.limbs@); let ghost B = lcs(other.limbs@); let ghost a = self.wv(); let ghost b = other.wv();
  proof { ax_P(); lv_range(*self); lv_range(*other); }
#hook loop 0 inv
  n0 == n_limbs, lo__0 == 0, c0@.len() == i0, A == lcs(self.limbs@), B == lcs(other.limbs@), n_limbs == vadd(A, B).len(),
  forall|j: int| 0 <= j < i0 ==> #[trigger] lcs(c0@)[j] == vadd(A, B)[j],
#hook loop 0 begin
  let ghost c00 = c0@;
  proof { if i0 < A.len() { assert(A[i0 as int] == self.limbs@[i0 as int].val()); } if i0 < B.len() { assert(B[i0 as int] == other.limbs@[i0 as int].val()); } }
#hook loop 0 end
  proof { assert forall|j: int| 0 <= j < c0@.len() implies #[trigger] lcs(c0@)[j] == vadd(A, B)[j] by { if j < i0 { assert(lcs(c00)[j] == vadd(A, B)[j]); } } }
#hook loop 0 after
  proof { assert(lcs(c0@) =~= vadd(A, B)); }
#hook loop 1 inv
  n1 == n_limbs, lo__1 == 0, c1@.len() == i1, a == svals(x@), b == svals(y@), n_limbs == vadd(a, b).len(),
  forall|j: int| 0 <= j < i1 ==> #[trigger] svals(c1@)[j] == vadd(a, b)[j] % P(),
#hook loop 1 begin
  let ghost c10 = c1@;
  proof { if i1 < a.len() { assert(a[i1 as int] == x@[i1 as int].v()); c_small(a[i1 as int]); } if i1 < b.len() { assert(b[i1 as int] == y@[i1 as int].v()); c_small(b[i1 as int]); } }
#hook loop 1 end
  proof { assert forall|j: int| 0 <= j < c1@.len() implies #[trigger] svals(c1@)[j] == vadd(a, b)[j] % P() by { if j < i1 { assert(svals(c10)[j] == vadd(a, b)[j] % P()); } } }
#hook ret
  proof {
    if r__ is Ok {
      let r = r__->Ok_0; let w = self.lw(); let M = r.params.max_word.v();
      if self.hon() && other.hon() && r.has() {
        assert forall|i: int| 0 <= i < r.limbs@.len() implies cong(#[trigger] lcs(r.limbs@)[i], r.wv()[i]) by {
          c_refl(0);
          if i < A.len() { assert(cong(A[i], a[i])); } if i < B.len() { assert(cong(B[i], b[i])); }
          c_add(at0(A, i), at0(a, i), at0(B, i), at0(b, i));
          let s = at0(a, i) + at0(b, i); c_mod(s); c_trans(at0(A, i) + at0(B, i), s, s % P());
          assert(r.wv()[i] == vadd(a, b)[i] % P());
        }
      }
      if M < P() && self.bnd() && other.bnd() {
        let x = self.lv(); let y = other.lv();
        assert forall|i: int| 0 <= i < r.limbs@.len() implies #[trigger] r.lv()[i] == vadd(x, y)[i] && 0 <= vadd(x, y)[i] <= M by {
          c_refl(0);
          if i < A.len() { c_mod(A[i]); assert(x[i] == A[i] % P()); assert(0 <= x[i] <= self.params.max_word.v()); } if i < B.len() { c_mod(B[i]); assert(y[i] == B[i] % P()); assert(0 <= y[i] <= other.params.max_word.v()); }
          c_add(at0(A, i), at0(x, i), at0(B, i), at0(y, i)); c_mod_eq(at0(A, i) + at0(B, i), at0(x, i) + at0(y, i)); c_small(at0(x, i) + at0(y, i));
          assert(lcs(r.limbs@)[i] == at0(A, i) + at0(B, i));
        }
        assert(r.lv() =~= vadd(x, y));
        ls_vadd(x, y, w);
        ls_le(x, self.params.max_word.v(), w); ls_le(y, other.params.max_word.v(), w);
      }
      if M < P() && r.has() && self.vbnd() && other.vbnd() {
        assert forall|i: int| 0 <= i < r.limbs@.len() implies #[trigger] r.wv()[i] == vadd(a, b)[i] && 0 <= vadd(a, b)[i] <= M by {
          if i < a.len() { assert(0 <= a[i] <= self.params.max_word.v()); } if i < b.len() { assert(0 <= b[i] <= other.params.max_word.v()); }
          assert(r.wv()[i] == vadd(a, b)[i] % P()); c_small(vadd(a, b)[i]);
        }
        assert(r.wv() =~= vadd(a, b));
        ls_vadd(a, b, w);
        ls_le(a, self.params.max_word.v(), w); ls_le(b, other.params.max_word.v(), w);
      }
    }
  }
#fn BigNat::shift
#requires
  self.shape(), self.limbs@.len() >= 1, self.params.max_word.v() + constant.v() <= pow2(CAP()),
#ensures
  res.shape(), res.limbs@.len() == self.limbs@.len(), res.lw() == self.lw(), res.has() == self.has(), res.params.min_bits == self.params.min_bits,
  res.params.max_word.v() == self.params.max_word.v() + constant.v(), res.has() ==> res.value->0.v() == self.value->0.v() + constant.v(),
  self.hon() ==> res.hon(),
  // the number is the sum and the declarations are true
  self.bnd() ==> res.iv() == self.iv() + constant.v() && res.bnd() && (self.mb() ==> res.mb()),
  self.wf() ==> res.wf(),
#hook entry
  let ghost c = constant.v(); let ghost A = lcs(self.limbs@); let ghost a = self.wv();
  proof { ax_P(); lv_range(*self); assert(1 * pow2(CAP()) == pow2(CAP())); }
#hook ret
  proof {
    let w = self.lw(); let M = r__.params.max_word.v();
    assert(c * 1 == c);
    assert(lcs(r__.limbs@) =~= A.update(0, A[0] + c));
    if self.has() { assert(r__.wv() =~= a.update(0, (a[0] + c) % P())); }
    assert(w * 0 == 0) by (nonlinear_arith); lemma2_to64();
    if self.hon() && self.has() {
      assert forall|i: int| 0 <= i < r__.limbs@.len() implies cong(#[trigger] lcs(r__.limbs@)[i], r__.wv()[i]) by {
        assert(cong(A[i], a[i]));
        if i == 0 { c_refl(c); c_add(A[0], a[0], c, c); c_mod(a[0] + c); c_trans(A[0] + c, a[0] + c, (a[0] + c) % P()); }
      }
    }
    if self.bnd() {
      let x = self.lv();
      assert forall|i: int| 0 <= i < r__.limbs@.len() implies #[trigger] r__.lv()[i] == x.update(0, x[0] + c)[i] && 0 <= x.update(0, x[0] + c)[i] <= M by {
        assert(0 <= x[i] <= self.params.max_word.v());
        assert(r__.lv()[i] == lcs(r__.limbs@)[i] % P());
        assert(x[i] == A[i] % P());
        if i == 0 { c_mod(A[0]); c_refl(c); c_add(A[0], x[0], c, c); c_mod_eq(A[0] + c, x[0] + c); c_small(x[0] + c); }
      }
      assert(r__.lv() =~= x.update(0, x[0] + c));
      ls_upd(x, 0, x[0] + c, w);
    }
    if self.wf() && self.has() {
      assert forall|i: int| 0 <= i < r__.limbs@.len() implies #[trigger] r__.wv()[i] == a.update(0, a[0] + c)[i] && 0 <= a.update(0, a[0] + c)[i] <= M by {
        assert(0 <= a[i] <= self.params.max_word.v());
        if i == 0 { c_small(a[0] + c); }
      }
      assert(r__.wv() =~= a.update(0, a[0] + c));
      ls_upd(a, 0, a[0] + c, w);
    }
  }
#fn BigNat::scale
#requires
  self.shape(), self.params.max_word.v() * constant.v() <= pow2(CAP()),
#ensures
  res.shape(), res.limbs@.len() == self.limbs@.len(), res.lw() == self.lw(), res.has() == self.has(), res.params.min_bits == (if constant.v() == 0 { 0 } else { self.params.min_bits }),
  res.params.max_word.v() == self.params.max_word.v() * constant.v(), res.has() ==> res.value->0.v() == self.value->0.v() * constant.v(),
  self.hon() ==> res.hon(),
  // the number is the product and the declarations are true
  self.bnd() ==> res.iv() == constant.v() * self.iv() && res.bnd() && (self.mb() ==> res.mb()),
  self.wf() ==> res.wf(),
#hook entry
  let ghost c = constant.v(); let ghost A = lcs(self.limbs@); let ghost a = self.wv(); let ghost m = self.params.max_word.v();
  proof { ax_P(); lv_range(*self); assert(1 * pow2(CAP()) == pow2(CAP())); assert(m * c >= 0) by (nonlinear_arith) requires m >= 0, c >= 0; }
#hook loop 0 inv
  n0 == A.len(), new.limbs@.len() == A.len(), A == lcs(self.limbs@), c == constant.v(),
  new.limb_values == self.limb_values, new.value == self.value, new.params == self.params,
  forall|j: int| 0 <= j < A.len() ==> #[trigger] lcs(new.limbs@)[j] == (if j < i0 { c * A[j] } else { A[j] }),
#hook loop 0 begin
  let ghost l0 = new.limbs@;
  proof { assert(lcs(l0)[i0 as int] == A[i0 as int]); }
#hook loop 0 end
  proof { assert forall|j: int| 0 <= j < A.len() implies #[trigger] lcs(new.limbs@)[j] == (if j < i0 + 1 { c * A[j] } else { A[j] }) by { if j != i0 { assert(new.limbs@[j] == l0[j]); assert(lcs(l0)[j] == (if j < i0 { c * A[j] } else { A[j] })); } } }
#hook loop 1 inv
  n1 == a.len(), vs@.len() == a.len(), c == constant.v(),
  forall|j: int| 0 <= j < a.len() ==> #[trigger] svals(vs@)[j] == (if j < i1 { (a[j] * c) % P() } else { a[j] }),
#hook loop 1 begin
  let ghost l1 = vs@;
  proof { assert(svals(l1)[i1 as int] == a[i1 as int]); }
#hook loop 1 end
  proof { assert forall|j: int| 0 <= j < a.len() implies #[trigger] svals(vs@)[j] == (if j < i1 + 1 { (a[j] * c) % P() } else { a[j] }) by { if j != i1 { assert(vs@[j] == l1[j]); assert(svals(l1)[j] == (if j < i1 { (a[j] * c) % P() } else { a[j] })); } } }
#hook ret
  proof {
    let w = self.lw(); let M = r__.params.max_word.v();
    assert(lcs(r__.limbs@) =~= vscale(A, c));
    if self.hon() && self.has() {
      assert forall|i: int| 0 <= i < r__.limbs@.len() implies cong(#[trigger] lcs(r__.limbs@)[i], r__.wv()[i]) by {
        assert(cong(A[i], a[i])); c_refl(c); c_mul(c, c, A[i], a[i]); assert(c * a[i] == a[i] * c) by (nonlinear_arith); c_mod(a[i] * c); c_trans(c * A[i], a[i] * c, (a[i] * c) % P());
      }
    }
    if self.bnd() {
      let x = self.lv();
      assert forall|i: int| 0 <= i < r__.limbs@.len() implies #[trigger] r__.lv()[i] == vscale(x, c)[i] && 0 <= vscale(x, c)[i] <= M by {
        assert(0 <= x[i] <= m); let y = x[i]; assert(0 <= c * y <= m * c) by (nonlinear_arith) requires 0 <= y <= m, c >= 0;
        assert(lcs(r__.limbs@)[i] == c * A[i]);
        assert(x[i] == A[i] % P()); c_mod(A[i]); c_refl(c); c_mul(c, c, A[i], x[i]); c_mod_eq(c * A[i], c * x[i]); c_small(c * x[i]);
      }
      assert(r__.lv() =~= vscale(x, c));
      ls_vscale(x, c, w);
      let v = self.iv(); ls_le(x, m, w);
      if c >= 1 { assert(c * v >= v) by (nonlinear_arith) requires c >= 1, v >= 0; }
    }
    if self.wf() && self.has() {
      assert forall|i: int| 0 <= i < r__.limbs@.len() implies #[trigger] r__.wv()[i] == vscale(a, c)[i] && 0 <= vscale(a, c)[i] <= M by {
        assert(0 <= a[i] <= m); let y = a[i]; assert(0 <= c * y <= m * c && c * y == y * c) by (nonlinear_arith) requires 0 <= y <= m, c >= 0;
        c_small(a[i] * c);
      }
      assert(r__.wv() =~= vscale(a, c));
      ls_vscale(a, c, w);
      let v = self.value->0.v(); ls_le(a, m, w);
      assert(v * c == c * v) by (nonlinear_arith);
      if c >= 1 { assert(c * v >= v) by (nonlinear_arith) requires c >= 1, v >= 0; }
    }
  }
#fn BigNat::sub
#requires
  self.shape(), other.shape(), self.limbs@.len() >= 1, other.limbs@.len() >= 1, self.params.limb_width < 0x1_0000_0000, self.limbs@.len() * self.lw() <= usize::MAX,
  old(cs).w() ==> self.has() && other.has() && self.wf() && other.wf(),
  // the carries leave room in the field
  cbits(mx(self.params.max_word.v(), other.params.max_word.v() + (pow2(self.lw()) - 1)), self.lw()) + self.lw() <= CAP(),
#ensures
  kept(*old(cs), *final(cs)),
  !old(cs).w() ==> (res is Ok) == (self.lw() == other.lw()),
  // the difference must fit the limbs
  old(cs).w() ==> (res is Ok) == (self.lw() == other.lw() && -pow2(self.lw() * self.limbs@.len()) < self.value->0.v() - other.value->0.v() < pow2(self.lw() * self.limbs@.len())),
  res is Ok ==> ({
    let r = res->Ok_0;
    &&& r.shape() && r.limbs@.len() == self.limbs@.len() && r.lw() == self.lw() && r.params.min_bits == 0 && r.params.max_word.v() == pow2(self.lw()) - 1 && r.has() == old(cs).w()
    // every satisfying assignment: digits of the difference, which is not negative
    &&& final(cs).sat() && self.bnd() && other.bnd() ==> r.iv() == self.iv() - other.iv() && r.dgt() && r.bnd() && r.iv() >= 0
    // the prover's
    &&& r.has() ==> r.value->0.v() == self.value->0.v() - other.value->0.v() && (r.value->0.v() >= 0 ==> r.wf())
    &&& old(cs).w() && final(cs).honest() ==> r.hon()
    &&& old(cs).w() && old(cs).sat() && final(cs).honest() && self.hon() && other.hon() && r.value->0.v() >= 0 ==> final(cs).sat()
  }),
#hook entry
  let ghost w = self.lw(); let ghost n = self.limbs@.len(); let ghost d = self.value->0.v() - other.value->0.v();
  proof {
    ax_P(); lv_range(*self); lv_range(*other); lemma_pow2_pos(w);
    room_ok(mx(self.params.max_word.v(), other.params.max_word.v() + (pow2(w) - 1)), w);
    assert(w * n == n * w) by (nonlinear_arith);
    p2_mono(w, CAP());
    assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] digs(d, n, w)[j] < pow2(w) by { lemma_mod_bound(d / (pow2(w * (j as nat)) as int), pow2(w) as int); }
    assert(all_in(digs(d, n, w), P()));
  }
#hook bind assert_well_formed#0
  proof { if diff.has() { assert(diff.wv() == digs(d, n, w)); } }
#hook ret
  proof {
    if r__ is Ok {
      let r = r__->Ok_0;
      lv_range(r);
      if cs.sat() { assert(r.bnd()) by { assert forall|i: int| 0 <= i < r.lv().len() implies 0 <= #[trigger] r.lv()[i] <= pow2(w) - 1 by { assert(0 <= r.lv()[i] < pow2(w)); } } }
    }
  }
#fn BigNat::from_num
#requires
  1 <= limb_width, n_limbs >= 1, n_limbs * limb_width <= usize::MAX, limb_width * n_limbs <= CAP() || limb_width + 2 <= CAP(),
#ensures
  kept(*old(cs), *final(cs)),
  !old(cs).w() ==> res is Ok,
  res is Ok && limb_width * n_limbs <= CAP() ==> final(cs).nv() == old(cs).nv() + n_limbs + n_limbs * limb_width,
  // refused when it does not fit the limbs
  old(cs).w() ==> (res is Ok) == (n.value is Some && n.value->0.v() < pow2((limb_width * n_limbs) as nat)),
  res is Ok ==> ({
    let r = res->Ok_0;
    &&& r.shape() && r.limbs@.len() == n_limbs && r.lw() == limb_width && r.params.min_bits == 0 && r.params.max_word.v() == pow2(limb_width as nat) - 1 && r.has() == old(cs).w()
    // every satisfying assignment: the digits of the canonical representative
    &&& final(cs).sat() ==> r.iv() == n.v() && r.dgt()
    // the prover's
    &&& r.has() ==> r.value->0.v() == n.value->0.v() && r.wf()
    &&& old(cs).w() && final(cs).honest() ==> r.hon()
    &&& old(cs).w() && old(cs).sat() && final(cs).honest() && n.hon() ==> final(cs).sat()
  }),
#hook entry
  let ghost w = limb_width as nat; let ghost N = n_limbs as nat; let ghost v = n.value->0.v(); let ghost num = n;
  proof {
    ax_P();
    assert(w * N == N * w) by (nonlinear_arith);
    assert(w <= w * N) by (nonlinear_arith) requires N >= 1;
    p2_mono(w, CAP());
    if n.value is Some { dig_le(v, N, w); }
    dig_le(P() - 1, N, w);
    assert(-1int % P() == P() - 1) by { c_small(P() - 1); assert(-1 == -1 * P() + (P() - 1)); k_c(-1, P() - 1, -1); c_mod_eq(-1, P() - 1); }
  }
#hook bind is_equal#0
  proof {
    let t = lcs(bv.bits@);
    if cs.sat() {
      let x = bignat.iv(); c_mod(n.num.val()); c_sym(n.num.val(), n.v());
      c_trans(n.v(), n.num.val(), x);
      if w * N <= CAP() { p2_mono(w * N, CAP()); c_eq(n.v(), x); }
    }
    if old(cs).w() {
      assert(v < pow2(w * N));
      assert forall|i: int| 0 <= i < N implies 0 <= #[trigger] bignat.wv()[i] < pow2(w) by { lemma_mod_bound(v / (pow2(w * (i as nat)) as int), pow2(w) as int); }
      if cs.honest() { wire_iv(t, v); }
    }
    if w * N > CAP() { p2_mono(CAP() + 1, w * N); assert(P() - 1 < pow2(w * N)); }
  }
#hook bind sub#0
  proof {
    if cs.sat() { let x = bignat.iv(); assert(x <= P() - 1); c_eq(num.v(), x); }
  }
#hook ret
  proof {
    let r = r__->Ok_0;
    if cs.sat() { assert(r.iv() == num.v()); assert(r.dgt()); }
    if r.has() { assert(r.wf()); }
    if old(cs).w() && cs.honest() { assert(r.hon()); if old(cs).sat() && num.hon() { assert(cs.sat()); } }
  }
#hook loop 0 inv
  s__0@.len() == N, n0 == N, N == n_limbs, nums0__(c0).len() == i0, svals(s__0@) == digs(P() - 1, N, w),
  forall|i: int| 0 <= i < i0 ==> (#[trigger] nums0__(c0)[i]).value is Some && nums0__(c0)[i].value->0.v() == digs(P() - 1, N, w)[i] && nums0__(c0)[i].num.val() == digs(P() - 1, N, w)[i],
#hook loop 0 begin
  proof { assert(svals(s__0@)[i0 as int] == s__0@[i0 as int].v()); let q = s__0@[i0 as int].v(); assert(q * 1 == q); }
#hook loop 0 after
  proof {
    let D = digs(P() - 1, N, w);
    assert(nlcs(c0@) =~= D); assert(nvals(c0@) =~= D);
    assert forall|i: int| 0 <= i < c0@.len() implies (#[trigger] c0@[i]).hon() by { c_refl(D[i]); }
    assert(mods(D) =~= D) by { assert forall|i: int| 0 <= i < N implies #[trigger] mods(D)[i] == D[i] by { c_small(D[i]); } }
    p2_mono(CAP() + 1, w * N);
    ls_digs(P() - 1, N, w); lemma_small_mod((P() - 1) as nat, pow2(w * N));
    cbits_two(w);
    assert forall|i: int| 0 <= i < N implies 0 <= #[trigger] D[i] <= pow2(w) - 1 by { assert(0 <= D[i] < pow2(w)); }
  }
#rs
proof fn dig_le(v: int, n: nat, w: nat)
    requires 0 <= v < P(),
    ensures all_in(digs(v, n, w), P()),
{
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] digs(v, n, w)[i] < P() by {
        let p = pow2(w * (i as nat)) as int; let e = pow2(w) as int;
        lemma_pow2_pos(w * (i as nat)); lemma_pow2_pos(w);
        lemma_div_pos_is_pos(v, p); lemma_div_nonincreasing(v, p);
        lemma_mod_bound(v / p, e); lemma_mod_decreases((v / p) as nat, e as nat);
    }
}
pub open spec fn nums0__(c: Vec<Num>) -> Seq<Num> { c@ }
