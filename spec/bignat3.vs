#fn carry_bits
#requires
  1 <= limb_width < 0x1_0000_0000,
#ensures
  is_bits(tdiv_sp(max_word.v() * 2 - 1, pow2(limb_width as nat) - 1), res as int),
#hook entry
  proof { lemma2_to64(); p2_mono(1, limb_width as nat); }
#fn BigNat::with_n_limbs
#requires
  self.shape(), n_limbs >= self.params.n_limbs,
#ensures
  res.shape(), res.limbs@.len() == n_limbs, res.lw() == self.lw(), res.has() == self.has(), res.value == self.value,
  res.params.max_word == self.params.max_word, res.params.min_bits == self.params.min_bits,
  // zeroes above the number's limbs, on the wires and in the witness
  lcs(res.limbs@) == pad(lcs(self.limbs@), n_limbs as nat), res.has() ==> res.wv() == pad(self.wv(), n_limbs as nat),
  res.lv() == pad(self.lv(), n_limbs as nat),
  // so it is the same number and every declaration stays true
  res.iv() == self.iv(), res.has() ==> ls(res.wv(), res.lw()) == ls(self.wv(), self.lw()),
  self.hon() ==> res.hon(), self.agree() ==> res.agree(), self.vbnd() ==> res.vbnd(), self.bnd() ==> res.bnd(), self.dgt() ==> res.dgt(), self.wf() ==> res.wf(),
#hook entry
  let ghost L = lcs(self.limbs@); let ghost V = self.wv();
  proof { ax_P(); c_small(0); c_refl(0); lv_range(*self); assert(pad(L, L.len()) =~= L); assert(pad(self.lv(), L.len()) =~= self.lv()); if self.has() { assert(pad(V, V.len()) =~= V); } }
#hook loop 0 inv
  invariant vs@.len() <= n_limbs, V.len() <= vs@.len(), svals(vs@) == pad(V, vs@.len()),
  decreases n_limbs - vs@.len(),
#hook loop 0 begin
  let ghost v0 = vs@;
#hook loop 0 end
  proof { assert(svals(vs@) =~= pad(V, vs@.len())) by { assert(svals(v0) =~= pad(V, v0.len())); assert forall|i: int| 0 <= i < vs@.len() implies #[trigger] svals(vs@)[i] == pad(V, vs@.len())[i] by { if i < v0.len() { assert(svals(v0)[i] == pad(V, v0.len())[i]); } } } }
#hook loop 1 inv
  invariant new.limbs@.len() <= n_limbs, L.len() <= new.limbs@.len(), lcs(new.limbs@) == pad(L, new.limbs@.len()), L == lcs(self.limbs@), self.shape(), n_limbs > self.params.n_limbs,
    new.params.n_limbs == n_limbs, new.params.limb_width == self.params.limb_width, new.params.max_word == self.params.max_word, new.params.min_bits == self.params.min_bits, new.value == self.value,
    new.has() == self.has(), new.has() ==> new.wv() == pad(self.wv(), n_limbs as nat) && new.limb_values->0@.len() == n_limbs,
  decreases n_limbs - new.limbs@.len(),
#hook loop 1 begin
  let ghost l0 = new.limbs@;
#hook loop 1 end
  proof { assert forall|i: int| 0 <= i < new.limbs@.len() implies #[trigger] lcs(new.limbs@)[i] == pad(L, new.limbs@.len())[i] by { if i < l0.len() { assert(lcs(l0)[i] == pad(L, l0.len())[i]); } } assert(lcs(new.limbs@) =~= pad(L, new.limbs@.len())); }
#hook ret
  proof {
    let n = n_limbs as nat; let W = self.lv();
    if n == L.len() { if self.has() { assert(pad(self.wv(), n) =~= self.wv()); } }
    assert(r__.lv() =~= pad(W, n)) by { c_small(0); assert forall|i: int| 0 <= i < n implies #[trigger] r__.lv()[i] == pad(W, n)[i] by { assert(lcs(r__.limbs@)[i] == pad(L, n)[i]); } }
    ls_pad(W, n, self.lw()); if self.has() { ls_pad(self.wv(), n, self.lw()); }
    lemma_pow2_pos(self.lw());
    if self.hon() && self.has() { assert forall|i: int| 0 <= i < r__.limbs@.len() implies cong(#[trigger] lcs(r__.limbs@)[i], r__.wv()[i]) by { if i < L.len() { assert(cong(L[i], self.wv()[i])); } } }
  }
#fn BigNat::group_limbs
#requires
  self.shape(), self.limbs@.len() >= 1, limbs_per_group >= 1, self.lw() * limbs_per_group <= usize::MAX,
#ensures
  ({
    let k = limbs_per_group as nat; let w = self.lw(); let n = ngr(self.limbs@.len(), k);
    &&& res.shape() && res.limbs@.len() == n && res.lw() == w * k && res.has() == self.has() && res.value == self.value && res.params.min_bits == self.params.min_bits
    &&& res.params.max_word.v() == self.params.max_word.v() * rep(w, k)
    // the wires and the witness limbs are those of the groups
    &&& forall|g: int| 0 <= g < n ==> cong(#[trigger] lcs(res.limbs@)[g], groups(lcs(self.limbs@), n, k, w)[g])
    &&& res.has() ==> forall|g: int| 0 <= g < n ==> #[trigger] res.wv()[g] == groups(self.wv(), n, k, w)[g] % P()
    &&& cong(ls(lcs(res.limbs@), res.lw()), ls(lcs(self.limbs@), w))
    &&& self.hon() ==> res.hon()
    // with room in the field, the number is the same and the declared bounds are true
    &&& res.params.max_word.v() < P() && self.bnd() ==> res.iv() == self.iv() && res.bnd()
    &&& res.params.max_word.v() < P() && self.has() && self.vbnd() ==> ls(res.wv(), res.lw()) == ls(self.wv(), w) && res.vbnd()
    &&& res.params.max_word.v() < P() && self.wf() ==> res.wf()
  }),
#hook entry
  let ghost k = limbs_per_group as nat; let ghost w = self.lw(); let ghost n = ngr(self.limbs@.len(), k); let ghost L = lcs(self.limbs@); let ghost V = self.wv();
  proof { ax_P(); ngr_enough(self.limbs@.len(), k); groups_zero(n, k, w, L); groups_zero(n, k, w, V); c_refl(0); c_refl(1); lemma2_to64(); lv_range(*self); }
#hook loop 0 inv
  n0 == self.params.limb_width, lo__0 == 0, cong(f0.v(), pow2(i0 as nat) as int),
#hook loop 0 begin
  proof { c_dbl(f0.v(), i0 as nat); }
#hook loop 0 after
  proof { c_refl(0); assert(cong(f0.v(), pow2(w) as int)); }
#hook loop 1 inv
  n1 == self.limbs@.len(), s__1@ == self.limb_values->0@, self.has(), V == self.wv(), V.len() == n1, limbs_per_group == k, k >= 1, w == self.lw(), n == ngr(n1 as nat, k), n1 >= 1, n * k >= n1,
  forall|i: int| 0 <= i < n1 ==> 0 <= #[trigger] (i / (k as int)) < n,
  cong(limb_block.v(), pow2(w) as int), i1 as int % k as int != 0 ==> cong(shift.v(), pow2(w * ((i1 as int % k as int) as nat)) as int),
  values@.len() == n, forall|g: int| 0 <= g < n ==> cong((#[trigger] values@[g]).v(), groups(V.take(i1 as int), n, k, w)[g]),
#hook loop 1 begin
  let ghost v0 = values@; let ghost j = (i1 as int % k as int) as nat; let ghost sv = if j == 0 { 1int } else { shift.v() }; let ghost g = i1 as int / k as int; let ghost o = groups(V.take(i1 as int), n, k, w); let ghost x = V[i1 as int];
  proof {
    mod_next(i1 as int, k as int); groups_step(V, i1 as int, n, k, w); lemma2_to64(); c_refl(1); assert(w * 0 == 0) by (nonlinear_arith);
    assert(cong(v0[g].v(), o[g]));
    g_step(sv, x, limb_block.v(), w, j, v0[g].v(), o[g]);
    assert(s__1@[i1 as int].v() == V[i1 as int]);
  }
#hook loop 1 end
  proof {
    assert forall|h: int| 0 <= h < n implies cong((#[trigger] values@[h]).v(), groups(V.take(i1 + 1), n, k, w)[h]) by { if h != g { assert(values@[h] == v0[h]); assert(cong(v0[h].v(), o[h])); } }
  }
#hook loop 1 after
  proof {
    assert(V.take(V.len() as int) =~= V);
    assert forall|g: int| 0 <= g < n implies #[trigger] svals(values@)[g] == groups(V, n, k, w)[g] % P() by { let y = values@[g].v(); assert(cong(y, groups(V, n, k, w)[g])); c_mod_eq(y, groups(V, n, k, w)[g]); c_small(y); }
  }
#hook loop 2 inv
  n2 == self.params.limb_width, lo__2 == 0, cong(f2.v(), pow2(i2 as nat) as int),
#hook loop 2 begin
  proof { c_dbl(f2.v(), i2 as nat); }
#hook loop 3 inv
  n3 == self.limbs@.len(), s__3@ == self.limbs@, L == lcs(self.limbs@), L.len() == n3, limbs_per_group == k, k >= 1, w == self.lw(), n == ngr(n3 as nat, k), n3 >= 1, n * k >= n3,
  forall|i: int| 0 <= i < n3 ==> 0 <= #[trigger] (i / (k as int)) < n,
  cong(limb_block.v(), pow2(w) as int), i3 as int % k as int != 0 ==> cong(shift.v(), pow2(w * ((i3 as int % k as int) as nat)) as int),
  limbs@.len() == n, forall|g: int| 0 <= g < n ==> cong((#[trigger] limbs@[g]).val(), groups(L.take(i3 as int), n, k, w)[g]),
#hook loop 3 begin
  let ghost v0 = limbs@; let ghost j = (i3 as int % k as int) as nat; let ghost sv = if j == 0 { 1int } else { shift.v() }; let ghost g = i3 as int / k as int; let ghost o = groups(L.take(i3 as int), n, k, w); let ghost x = L[i3 as int];
  proof {
    mod_next(i3 as int, k as int); groups_step(L, i3 as int, n, k, w); lemma2_to64(); c_refl(1); assert(w * 0 == 0) by (nonlinear_arith);
    assert(cong(v0[g].val(), o[g]));
    g_step(sv, x, limb_block.v(), w, j, v0[g].val(), o[g]);
    assert(s__3@[i3 as int].val() == L[i3 as int]);
  }
#hook loop 3 end
  proof {
    assert forall|h: int| 0 <= h < n implies cong((#[trigger] limbs@[h]).val(), groups(L.take(i3 + 1), n, k, w)[h]) by { if h != g { assert(limbs@[h] == v0[h]); assert(cong(v0[h].val(), o[h])); } }
  }
#hook loop 3 after
  proof { assert(L.take(L.len() as int) =~= L); }
#hook loop 4 before
  proof { rep_step(w, 0); }
#hook loop 4 inv
  n4 == k, k == limbs_per_group, lo__4 == 0, w == self.params.limb_width, w >= 1, w * k <= usize::MAX, f4.v() == rep(w, i4 as nat),
#hook loop 4 begin
  proof {
    rep_step(w, i4 as nat);
    assert(i4 * w <= k * w && k * w == w * k && i4 * w == w * i4 && 0 <= i4 * w) by (nonlinear_arith) requires i4 < k, w >= 0;
    let p = pow2(w * (i4 as nat)) as int;
    lemma_basic_div(f4.v(), p);
  }
#hook ret
  proof {
    let m = self.params.max_word.v(); let r = rep(w, k); let M = r__.params.max_word.v();
    rep_step(w, k); rep_step(w, (k - 1) as nat); lemma_pow2_pos(w * ((k - 1) as nat));
    assert(r * m == m * r) by (nonlinear_arith);
    assert(m * r >= 0) by (nonlinear_arith) requires m >= 0, r >= 0;
    assert(w * k >= 1) by (nonlinear_arith) requires w >= 1, k >= 1;
    let G = groups(L, n, k, w);
    assert forall|g: int| 0 <= g < n implies cong(#[trigger] lcs(r__.limbs@)[g], G[g]) by { assert(lcs(r__.limbs@)[g] == r__.limbs@[g].val()); }
    groups_ls(L, n, k, w); if self.has() { groups_ls(V, n, k, w); }
    ls_cong(lcs(r__.limbs@), G, w * k);
    if self.has() { assert forall|g: int| 0 <= g < n implies #[trigger] r__.wv()[g] == groups(V, n, k, w)[g] % P() by {} }
    if self.hon() && self.has() {
      groups_cong(L, V, n, k, w);
      assert forall|g: int| 0 <= g < r__.limbs@.len() implies cong(#[trigger] lcs(r__.limbs@)[g], r__.wv()[g]) by {
        let a = groups(V, n, k, w)[g];
        assert(cong(G[g], a)); assert(cong(lcs(r__.limbs@)[g], G[g]));
        c_trans(lcs(r__.limbs@)[g], G[g], a); c_mod(a); c_trans(lcs(r__.limbs@)[g], a, a % P());
      }
    }
    if M < P() && self.bnd() {
      let W = self.lv(); let H = groups(W, n, k, w);
      groups_le(W, m, n, k, w);
      assert forall|i: int| 0 <= i < L.len() implies cong(#[trigger] L[i], W[i]) by { c_mod(L[i]); }
      groups_cong(L, W, n, k, w);
      assert forall|g: int| 0 <= g < n implies #[trigger] r__.lv()[g] == H[g] by {
        let y = lcs(r__.limbs@)[g];
        assert(cong(y, G[g])); assert(cong(G[g], H[g])); c_trans(y, G[g], H[g]); c_mod_eq(y, H[g]);
        assert(0 <= H[g] <= m * r); c_small(H[g]);
      }
      assert(r__.lv() =~= H);
      groups_ls(W, n, k, w);
    }
    if M < P() && self.has() && self.vbnd() {
      let H = groups(V, n, k, w);
      groups_le(V, m, n, k, w);
      assert forall|g: int| 0 <= g < n implies #[trigger] r__.wv()[g] == H[g] by { assert(0 <= H[g] <= m * r); c_small(H[g]); }
      assert(r__.wv() =~= H);
    }
  }
#fn BigNat::equal_when_carried
#requires
  self.shape(), other.shape(), self.params.limb_width < 0x1_0000_0000, old(cs).w() ==> self.has() && other.has() && self.vbnd() && other.vbnd(),
  // the carries leave room in the field
  cbits(mx(self.params.max_word.v(), other.params.max_word.v()), self.lw()) + self.lw() <= CAP(),
#ensures
  kept(*old(cs), *final(cs)), (res is Ok) == (self.lw() == other.lw()),
  // every satisfying assignment: the same integer
  res is Ok && final(cs).sat() && self.bnd() && other.bnd() ==> self.iv() == other.iv(),
  // the prover's assignment is accepted when they are the same integer
  res is Ok && old(cs).w() && old(cs).sat() && final(cs).honest() && self.hon() && other.hon() && ls(self.wv(), self.lw()) == ls(other.wv(), other.lw()) ==> final(cs).sat(),
#hook entry
  let ghost other0 = other;
  proof { ax_P(); c_refl(0); c_refl(1); c_small(0); lemma2_to64(); }
#hook loop 0 before
  let ghost w = self.lw(); let ghost b = pow2(w) as int; let ghost cb = carry_bits as nat; let ghost k = pow2(cb) as int; let ghost m = max_word.v();
  let ghost x = this.lv(); let ghost y = other.lv(); let ghost xw = this.wv(); let ghost yw = other.wv(); let ghost eqw = ls(xw, w) == ls(yw, w);
  let ghost both = self.bnd() && other0.bnd();
  proof {
    cbits_is(m, w, cb as int); carry_room(m, w, cb as int);
    p2_add(cb, w); p2_mono(cb + w, CAP());
    assert(1 * b == b);
    lv_range(this); lv_range(other); lv_range(*self); lv_range(*other0);
    assert(w * 0 == 0) by (nonlinear_arith);
    assert(x.take(0) =~= seq![]); assert(y.take(0) =~= seq![]); assert(xw.take(0) =~= seq![]); assert(yw.take(0) =~= seq![]);
    assert(pow2(0) * (0 - 0) == 0);
    assert(m <= k * b && b <= k * b) by (nonlinear_arith) requires 2 * m + k <= k * b, k >= 1, b >= 2, m >= 0;
    if both { assert forall|j: int| 0 <= j < x.len() implies 0 <= #[trigger] x[j] <= m by { assert(this.bnd()); } assert forall|j: int| 0 <= j < y.len() implies 0 <= #[trigger] y[j] <= m by { assert(other.bnd()); } }
    if old(cs).w() { assert(this.vbnd() && other.vbnd()); assert forall|j: int| 0 <= j < xw.len() implies 0 <= #[trigger] xw[j] <= m by {} assert forall|j: int| 0 <= j < yw.len() implies 0 <= #[trigger] yw[j] <= m by {} }
  }
#hook loop 0 inv
  n0 == n, lo__0 == 0, n == this.limbs@.len(), n == other.limbs@.len(), this.shape(), other.shape(), n == x.len(), n == y.len(), w == self.lw(), b == pow2(w), k == pow2(cb), cb == carry_bits, cb + w <= CAP(), CAP() < 0x1000_0000,
  target_base.v() == b, m == max_word.v(), m >= 0, 2 * m + k <= k * b, k * b < P(), b >= 2, k >= 1, m <= k * b, b <= k * b,
  x == this.lv(), y == other.lv(), xw == this.wv(), yw == other.wv(), eqw == (ls(xw, w) == ls(yw, w)),
  both ==> all_le(x, m) && all_le(y, m), cs.w() ==> this.has() && other.has() && all_le(xw, m) && all_le(yw, m),
  kept(*old(cs), *cs),
  0 <= accumulated_extra.v() < k, cs.w() ==> carry_in.value is Some && 0 <= carry_in.value->0.v() < k,
  // the carry so far is what the limbs so far differ by
  cs.sat() ==> 0 <= carry_in.v() < k,
  cs.sat() && both ==> pow2(w * (i0 as nat)) * (carry_in.v() - accumulated_extra.v()) == ls(x.take(i0 as int), w) - ls(y.take(i0 as int), w),
  cs.w() && eqw ==> pow2(w * (i0 as nat)) * (carry_in.value->0.v() - accumulated_extra.v()) == ls(xw.take(i0 as int), w) - ls(yw.take(i0 as int), w),
  cs.w() && old(cs).sat() && cs.honest() && this.hon() && other.hon() && eqw ==> cs.sat() && carry_in.hon(),
  // at the end it is the constant one
  cs.sat() && i0 == n && n > 0 ==> carry_in.v() == accumulated_extra.v(),
#hook loop 0 begin
  let ghost a = accumulated_extra.v(); let ghost ci = carry_in; let ghost mut ev: int = 0; let ghost mut okw: bool = true;
  proof {
    carry_acc(m, b, k, a + m);
    if cs.w() { carry_wit(ci.value->0.v(), xw, yw, i0 as int, m, a, w, k); assert(this.limb_values->0@[i0 as int].v() == xw[i0 as int]); assert(other.limb_values->0@[i0 as int].v() == yw[i0 as int]); }
  }
#hook enforce 0 pre
  proof {
    let d = carry.num.val(); let r = (a + m) % b; let X = this.limbs@[i as int].val(); let Y = other.limbs@[i as int].val(); let cn = ci.num.val();
    assert(ea__.val() * eb__.val() == 0) by (nonlinear_arith) requires ea__.val() == 0;
    ev = ec__.val();
    assert(m * 1 == m && r * 1 == r);
    assert(ev == cn + X - Y + m - b * d - r);
    assert(X == lcs(this.limbs@)[i as int] && Y == lcs(other.limbs@)[i as int]);
    if cs.w() && cs.honest() && this.hon() && other.hon() && eqw && ci.hon() && cs.sat() && pow2(w * (i0 as nat)) * (ci.value->0.v() - a) == ls(xw.take(i0 as int), w) - ls(yw.take(i0 as int), w) {
      let c = ci.value->0.v(); let wd = carry.value->0.v(); let u = xw[i as int]; let v = yw[i as int];
      assert(cong(lcs(this.limbs@)[i as int], xw[i as int])); assert(cong(lcs(other.limbs@)[i as int], yw[i as int]));
      assert(d == wd);
      c_add(cn, c, X, u); c_add(cn + X, c + u, Y, v); c_refl(m - b * d - r); c_add(cn + X - Y, c + u - v, m - b * d - r, m - b * d - r);
      assert(c + u - v + (m - b * d - r) == 0);
      c_sym(ev, 0);
    }
  }
#hook enforce 1 pre
  proof {
    let d = carry.num.val(); let e = accumulated_extra.v();
    assert(ea__.val() * eb__.val() == 0) by (nonlinear_arith) requires ea__.val() == 0;
    assert(e * 1 == e); c_flip(d, e);
    if cong(d, e) { c_mod_eq(d, e); c_small(e); }
    if cs.w() && eqw && pow2(w * (i0 as nat)) * (ci.value->0.v() - a) == ls(xw.take(i0 as int), w) - ls(yw.take(i0 as int), w) {
      let wd = carry.value->0.v();
      carry_sum(ci.value->0.v(), a, wd, e, xw, yw, i0 as int, w);
      assert(xw.take(n as int) =~= xw); assert(yw.take(n as int) =~= yw);
      let p = pow2(w * ((i0 + 1) as nat)) as int; lemma_pow2_pos(w * ((i0 + 1) as nat));
      assert(wd == e) by (nonlinear_arith) requires p * (wd - e) == 0, p > 0;
    }
  }
#hook loop 0 end
  proof {
    let d = carry_in.num.val(); let e = accumulated_extra.v();
    if cs.sat() {
      c_mod(d); c_mod(ci.num.val());
      if both {
        assert(x[i0 as int] == this.limbs@[i0 as int].val() % P()); assert(y[i0 as int] == other.limbs@[i0 as int].val() % P());
        carry_step(ev, ci.num.val(), d, this.limbs@[i0 as int].val(), other.limbs@[i0 as int].val(), m, a, b, k);
        carry_sum(ci.v(), a, carry_in.v(), e, x, y, i0 as int, w);
      }
    }
    if cs.w() && eqw { carry_sum(ci.value->0.v(), a, carry_in.value->0.v(), e, xw, yw, i0 as int, w); }
  }
#hook loop 0 after
  proof {
    assert(x.take(n as int) =~= x); assert(y.take(n as int) =~= y);
    if n == 0 { assert(x =~= y); }
    if cs.sat() && both && n > 0 { let p = pow2(w * (n as nat)) as int; assert(p * 0 == 0); }
  }
#fn BigNat::equal_when_carried_regroup
#requires
  self.shape(), other.shape(), self.limbs@.len() >= 1, other.limbs@.len() >= 1, self.params.limb_width < 0x1_0000_0000, old(cs).w() ==> self.has() && other.has() && self.vbnd() && other.vbnd(),
  cbits(mx(self.params.max_word.v(), other.params.max_word.v()), self.lw()) + self.lw() <= CAP(),
#ensures
  kept(*old(cs), *final(cs)), (res is Ok) == (self.lw() == other.lw()),
  // every satisfying assignment: the same integer
  res is Ok && final(cs).sat() && self.bnd() && other.bnd() ==> self.iv() == other.iv(),
  // the prover's assignment is accepted when they are the same integer
  res is Ok && old(cs).w() && old(cs).sat() && final(cs).honest() && self.hon() && other.hon() && ls(self.wv(), self.lw()) == ls(other.wv(), other.lw()) ==> final(cs).sat(),
#hook entry
  proof { ax_P(); lv_range(*self); lv_range(*other); }
#hook after let carry_bits
  proof { cbits_is(max_word.v(), self.lw(), carry_bits as int); }
#hook after let limbs_per_group
  let ghost w = self.lw(); let ghost g = limbs_per_group as nat; let ghost m = max_word.v(); let ghost cb = carry_bits as nat;
  proof {
    cbits_is(m, w, cb as int);
    lemma_fundamental_div_mod(CAP() - cb, w as int); lemma_mod_bound(CAP() - cb, w as int);
    assert(g >= 1) by (nonlinear_arith) requires CAP() - cb == w * g + (CAP() - cb) % (w as int), CAP() - cb >= w, (CAP() - cb) % (w as int) < w;
    carry_group(m, w, cb as int, g);
    assert(w * g + cb <= CAP());
    p2_add(cb, w * g); p2_mono(cb + w * g, CAP());
    rep_step(w, g); rep_le(self.params.max_word.v(), m, rep(w, g)); rep_le(other.params.max_word.v(), m, rep(w, g));
    ngr_enough(self.limbs@.len(), g); ngr_enough(other.limbs@.len(), g);
    assert(self.params.max_word.v() * rep(w, g) == m * rep(w, g) || other.params.max_word.v() * rep(w, g) == m * rep(w, g));
  }
#fn BigNat::recompose
#requires
  bv.inv(), bv.bits@.len() >= 1, limb_width >= 1,
#ensures
  res.shape(), res.lw() == limb_width, res.limbs@.len() == ngr(bv.bits@.len(), limb_width as nat), res.has() == (bv.values is Some), res.params.min_bits == 0,
  res.params.max_word.v() == pow2(limb_width as nat) - 1, res.wf() || limb_width > CAP(),
  // the wires are those of the bits: the same number, as digits
  cong(ls(lcs(res.limbs@), limb_width as nat), bv.iv()),
  bv.bin01() && limb_width <= CAP() ==> res.iv() == bv.iv() && res.dgt() && res.bnd(),
  // and the witness is theirs
  bv.values is Some ==> res.value->0.v() == ls(bools(bv.values->0@), 1),
  bv.values is Some ==> forall|v: int| 0 <= v < pow2(bv.bits@.len()) && #[trigger] bit_vals(bv.values->0@, v) ==> res.value->0.v() == v,
  bv.hon() ==> res.hon(),
#hook entry
  let ghost L = lcs(bv.bits@);
  proof { ax_P(); lemma2_to64(); c_refl(0); c_refl(1); assert(1 * limb_width == limb_width); rep_mul(1, limb_width as nat); if limb_width <= CAP() { p2_mono(limb_width as nat, CAP()); } }
#hook loop 0 inv
  n0 == bv.bits@.len(), s__0 == bv.bits, bv.inv(), c0@.len() == i0, nlcs(c0@) == L.take(i0 as int), L == lcs(bv.bits@),
  forall|i: int| 0 <= i < i0 ==> ((#[trigger] c0@[i]).value is Some) == (bv.values is Some),
  bv.values is Some ==> forall|i: int| 0 <= i < i0 ==> (#[trigger] c0@[i]).value->0.v() == b2i(bv.values->0@[i]),
#hook loop 0 begin
  let ghost c00 = c0@;
#hook loop 0 end
  proof { assert(nlcs(c0@) =~= nlcs(c00).push(L[i0 as int])); assert(L.take(i0 + 1) =~= L.take(i0 as int).push(L[i0 as int])); }
#hook loop 0 after
  proof {
    assert(L.take(L.len() as int) =~= L);
    if bv.values is Some {
      assert(nvals(c0@) =~= bools(bv.values->0@));
      if bv.hon() { assert forall|i: int| 0 <= i < c0@.len() implies (#[trigger] c0@[i]).hon() by { assert(nlcs(c0@)[i] == L[i]); assert(cong(bv.bits@[i].val(), b2i(bv.values->0@[i]))); } }
    } else { assert(c0@[0].value is None); assert forall|i: int| 0 <= i < c0@.len() implies (#[trigger] c0@[i]).hon() by {} }
  }
#hook after let nat_
  proof {
    assert(1 * limb_width == limb_width);
    let V = bools(bv.values->0@); let n = bv.bits@.len();
    assert(nat_.lw() == 1);
    assert(pow2(1) == 2);
    if bv.values is Some {
      assert(nat_.wv() == V);
      assert(all_le(V, 1)) by { assert forall|i: int| 0 <= i < V.len() implies 0 <= #[trigger] V[i] <= 1 by {} }
      assert forall|v: int| 0 <= v < pow2(bv.bits@.len()) && #[trigger] bit_vals(bv.values->0@, v) implies ls(V, 1) == v by {
        ls_digs(v, n, 1); assert(1 * n == n); lemma_small_mod(v as nat, pow2(n));
        assert forall|i: int| 0 <= i < n implies #[trigger] V[i] == digs(v, n, 1)[i] by { assert(1 * (i as nat) == i); assert(bv.values->0@[i] == bit_at(v, i)); lemma_mod_bound(v / (pow2(i as nat) as int), 2); }
        assert(V =~= digs(v, n, 1));
      }
    }
    if bv.bin01() {
      assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] nat_.lv()[i] <= 1 && nat_.lv()[i] == L[i] by { assert(0 <= L[i] < 2); c_small(L[i]); }
      assert(nat_.lv() =~= L);
    }
  }
#rs
pub open spec fn bools(s: Seq<bool>) -> Seq<int> { s.map_values(|b: bool| b2i(b)) }
