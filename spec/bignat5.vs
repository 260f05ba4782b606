#fn BigNat::concat
#requires
  self.shape(), other.shape(),
  self.params.n_limbs + other.params.n_limbs <= usize::MAX, other.lw() * other.params.n_limbs <= u32::MAX, self.params.min_bits + other.lw() * other.params.n_limbs <= usize::MAX,
#ensures
  (res is Ok) == (self.lw() == other.lw()),
  res is Ok ==> ({
    let r = res->Ok_0; let k = self.lw() * other.limbs@.len();
    &&& r.shape() && r.lw() == self.lw() && r.limbs@.len() == self.limbs@.len() + other.limbs@.len() && r.has() == (self.has() && other.has())
    // the other's limbs, then its own: on the wires, in the witness, and in every assignment
    &&& lcs(r.limbs@) == lcs(other.limbs@) + lcs(self.limbs@) && (r.has() ==> r.wv() == other.wv() + self.wv())
    &&& r.iv() == other.iv() + pow2(k) * self.iv()
    &&& (r.has() ==> r.value->0.v() == other.value->0.v() + pow2(k) * self.value->0.v())
    &&& (self.agree() && other.agree() ==> r.agree()) && (self.hon() && other.hon() ==> r.hon())
    // what was declared of both is true of it
    &&& (self.bnd() && other.bnd() ==> r.bnd()) && (self.vbnd() && other.vbnd() ==> r.vbnd()) && (self.dgt() && other.dgt() ==> r.dgt())
    &&& (self.mb() && other.mb() ==> r.mb())
    &&& (self.wf() && other.wf() ==> r.wf())
    &&& r.params.max_word.v() == mx(self.params.max_word.v(), other.params.max_word.v())
  }),
#hook loop 0 before
  proof { assert(lcs(self.limbs@).take(0) =~= seq![]); assert(lcs(limbs@) =~= lcs(other.limbs@) + lcs(self.limbs@).take(0)); }
#hook loop 0 inv
  n0 == self.limbs@.len(), s__0 == self.limbs, limbs@.len() == other.limbs@.len() + i0, lcs(limbs@) == lcs(other.limbs@) + lcs(self.limbs@).take(i0 as int),
#hook loop 0 begin
  let ghost l0 = limbs@;
#hook loop 0 end
  proof { let L = lcs(self.limbs@); assert(L.take(i0 + 1) =~= L.take(i0 as int).push(L[i0 as int])); assert(lcs(limbs@) =~= lcs(l0).push(L[i0 as int])); assert(lcs(limbs@) =~= lcs(other.limbs@) + L.take(i0 + 1)); }
#hook loop 0 after
  proof { assert(lcs(self.limbs@).take(self.limbs@.len() as int) =~= lcs(self.limbs@)); }
#hook loop 1 inv
  n__1 == s__1@.len(), n1 == s__1@.len() + s__1b@.len(), c1@.len() == i1, s__1 == x, s__1b == y,
  sc1__(c1) == (x@ + y@).take(i1 as int),
#hook loop 1 begin
  let ghost o1: Seq<Scalar> = sc1__(c1);
#hook loop 1 end
  proof { let t = x@ + y@; assert(t.take(i1 + 1) =~= t.take(i1 as int).push(t[i1 as int])); assert(sc1__(c1) =~= o1.push(t[i1 as int])); }
#hook ret
  proof {
    if r__ is Ok {
      let r = r__->Ok_0; let w = self.lw();
      assert(r.lv() =~= other.lv() + self.lv());
      ls_cat(other.lv(), self.lv(), w);
      lv_range(*self); lv_range(*other); lv_range(r);
      lv_nonneg(*self); lv_nonneg(*other);
      if r.has() {
        let k = (w * other.limbs@.len()) as nat; let a = pow2(k) as int; let v = self.value->0.v();
        assert(other.lw() * other.params.n_limbs == k); assert(a * v == v * a) by (nonlinear_arith);
        assert(r.value->0.v() == v * a + other.value->0.v());
        assert(r.wv() =~= other.wv() + self.wv()) by {
          let t = other.limb_values->0@ + self.limb_values->0@; assert(t.take(t.len() as int) =~= t); assert(sc1__(r.limb_values->0) == t);
        }
        ls_cat(other.wv(), self.wv(), w);
        wv_nonneg(*self); wv_nonneg(*other);
        if self.hon() && other.hon() {
          assert forall|i: int| 0 <= i < r.limbs@.len() implies cong(#[trigger] lcs(r.limbs@)[i], r.wv()[i]) by {
            let n = other.limbs@.len();
            if i < n { assert(cong(lcs(other.limbs@)[i], other.wv()[i])); } else { assert(cong(lcs(self.limbs@)[i - n], self.wv()[i - n])); }
          }
        }
      }
      if self.bnd() && other.bnd() { assert forall|i: int| 0 <= i < r.lv().len() implies 0 <= #[trigger] r.lv()[i] <= r.params.max_word.v() by {
        let n = other.limbs@.len(); if i < n { assert(r.lv()[i] == other.lv()[i]); } else { assert(r.lv()[i] == self.lv()[i - n]); } } }
      if r.has() && self.vbnd() && other.vbnd() { assert forall|i: int| 0 <= i < r.wv().len() implies 0 <= #[trigger] r.wv()[i] <= r.params.max_word.v() by {
        let n = other.limbs@.len(); if i < n { assert(r.wv()[i] == other.wv()[i]); } else { assert(r.wv()[i] == self.wv()[i - n]); } } }
      if self.dgt() && other.dgt() { assert forall|i: int| 0 <= i < r.lv().len() implies 0 <= #[trigger] r.lv()[i] < pow2(w) by {
        let n = other.limbs@.len(); if i < n { assert(r.lv()[i] == other.lv()[i]); } else { assert(r.lv()[i] == self.lv()[i - n]); } } }
      let k = w * other.limbs@.len();
      lemma_pow2_pos(k);
      if self.params.min_bits > 0 {
        let q = (self.params.min_bits - 1) as nat;
        p2_add(k, q);
        assert(k + q == r.params.min_bits - 1);
        let a = pow2(k) as int; let c = pow2(q) as int;
        if self.mb() { let b = self.iv(); assert(a * b >= a * c) by (nonlinear_arith) requires b >= c, a > 0; }
        if self.wf() && self.has() { let b = self.value->0.v(); assert(a * b >= a * c) by (nonlinear_arith) requires b >= c, a > 0; }
      }
      let a = pow2(k) as int;
      let b = self.iv(); assert(a * b >= 0) by (nonlinear_arith) requires b >= 0, a > 0;
      if self.wf() && self.has() { let b = self.value->0.v(); wv_nonneg(*self); assert(b == ls(self.wv(), w)); assert(a * b >= 0) by (nonlinear_arith) requires b >= 0, a > 0; }
    }
  }
#rs
pub open spec fn sc1__(c: Vec<Scalar>) -> Seq<Scalar> { c@ }
pub proof fn ls_nonneg(s: Seq<int>, w: nat)
    requires forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i],
    ensures ls(s, w) >= 0,
{ if s.len() > 0 { ls_ge(s, w, 0); } }
pub proof fn lv_nonneg(b: BigNat) ensures b.iv() >= 0 { lv_range(b); ls_nonneg(b.lv(), b.lw()); }
pub proof fn wv_nonneg(b: BigNat)
    ensures b.has() ==> all_in(b.wv(), P()) && ls(b.wv(), b.lw()) >= 0,
{
    if b.has() {
        assert forall|i: int| 0 <= i < b.wv().len() implies 0 <= #[trigger] b.wv()[i] < P() by { let s = b.limb_values->0@[i]; assert(0 <= s.v() < P()); }
        ls_nonneg(b.wv(), b.lw());
    }
}
#fn BigNat::truncate_limbs
#requires
  self.shape(), self.lw() * self.limbs@.len() <= u32::MAX,
#ensures
  n_limbs >= self.limbs@.len() ==> res == *self,
  n_limbs < self.limbs@.len() ==> ({
    let r = res;
    &&& r.shape() && r.lw() == self.lw() && r.limbs@.len() == n_limbs && r.has() == self.has() && r.params.min_bits == 0 && r.params.max_word == self.params.max_word
    // the low limbs: on the wires, in the witness, and in every assignment
    &&& lcs(r.limbs@) == lcs(self.limbs@).take(n_limbs as int) && r.lv() == self.lv().take(n_limbs as int) && (r.has() ==> r.wv() == self.wv().take(n_limbs as int))
    &&& (self.agree() ==> r.agree()) && (self.hon() ==> r.hon()) && (self.bnd() ==> r.bnd()) && (self.vbnd() ==> r.vbnd()) && (self.wf() ==> r.wf())
    // of digits, the number modulo the power of two above them
    &&& (self.dgt() ==> r.dgt() && r.iv() == self.iv() % (pow2(self.lw() * n_limbs as nat) as int))
  }),
#hook entry
  let ghost L = lcs(self.limbs@); let ghost V = self.wv();
  proof { assert(L.take(L.len() as int) =~= L); if self.has() { assert(V.take(V.len() as int) =~= V); } }
#hook loop 0 inv
  invariant n_limbs <= new.limbs@.len() <= self.limbs@.len(), self.shape(), L == lcs(self.limbs@), V == self.wv(), self.lw() * self.limbs@.len() <= u32::MAX,
    new.params == self.params, lcs(new.limbs@) == L.take(new.limbs@.len() as int), new.has() == self.has(), (new.value is Some) == (self.value is Some),
    new.has() ==> new.wv() == V.take(new.limbs@.len() as int) && new.limb_values->0@.len() == new.limbs@.len(),
    new.has() && self.agree() ==> new.value->0.v() == ls(new.wv(), self.lw()),
  decreases new.limbs@.len(),
#hook loop 0 begin
  let ghost o = new;
  proof { let m = new.limbs@.len() - 1; let l = self.limbs@.len(); let w = self.lw(); assert(0 <= m * w && m * w <= w * l && w * m == m * w) by (nonlinear_arith) requires 0 <= m < l, w >= 0; }
#hook loop 0 end
  proof {
    let n = new.limbs@.len() as int;
    assert(lcs(new.limbs@) =~= lcs(o.limbs@).take(n)); assert(L.take(n + 1).take(n) =~= L.take(n));
    if o.has() { assert(new.wv() =~= o.wv().take(n)); assert(V.take(n + 1).take(n) =~= V.take(n)); ls_take(V, n, self.lw()); assert(V[n] == o.wv()[n]); }
  }
#hook ret
  proof {
    if n_limbs < self.limbs@.len() {
      let n = n_limbs as int; let w = self.lw();
      assert(r__.lv() =~= self.lv().take(n));
      if self.dgt() {
        assert(self.lv().take(n) + self.lv().skip(n) =~= self.lv());
        ls_cat(self.lv().take(n), self.lv().skip(n), w);
        assert(all_in(self.lv().take(n), pow2(w) as int));
        ls_bound(self.lv().take(n), w);
        let q = pow2(w * n_limbs as nat) as int;
        let hi = ls(self.lv().skip(n), w);
        assert(self.iv() == q * hi + r__.iv());
        lemma_fundamental_div_mod_converse(self.iv(), q, hi, r__.iv());
      }
      if self.has() { assert forall|i: int| 0 <= i < n && self.hon() implies cong(#[trigger] lcs(r__.limbs@)[i], r__.wv()[i]) by { assert(cong(L[i], V[i])); } }
    }
  }
#fn BigNat::from_poly
#requires
  poly.shape(), 1 <= limb_width < 0x1_0000_0000, max_word.v() >= 0,
#ensures
  // its coefficients as limbs, its bound as given
  res.shape(), res.agree(), res.limbs == poly.coefficients, res.limb_values == poly.values, res.params.limb_width == limb_width, res.params.max_word == max_word, res.params.min_bits == 0,
  res.has() == poly.has(), poly.hon() ==> res.hon(),
#hook ret
  proof { assert(lcs(r__.limbs@) == poly.cf()); if poly.has() { assert(r__.wv() =~= poly.wv()); } }
#fn BigNat::one
#requires
  1 <= limb_width,
#ensures
  res.wf(), res.hon(), res.bnd(), res.mb(), res.dgt(), res.has(), res.iv() == 1, res.value->0.v() == 1, res.lw() == limb_width, res.limbs@.len() == 1, res.params.max_word.v() == 1, res.params.min_bits == 1,
#hook ret
  proof {
    ax_P(); c_small(1); c_refl(1); lemma2_to64(); p2_mono(1, limb_width as nat);
    assert(r__.lv() =~= seq![1int]); assert(r__.wv() =~= seq![1int]);
    ls_one(1, limb_width as nat);
  }
#rs
pub proof fn ls_one(x: int, w: nat) ensures ls(seq![x], w) == x { lemma2_to64(); assert(seq![x] =~= Seq::<int>::empty().push(x)); ls_push(seq![], x, w); assert(w * 0 == 0) by (nonlinear_arith); assert(x * 1 == x); }
#fn BigNat::n_bits
#requires
  self.shape(), self.limbs@.len() >= 1, self.lw() * self.limbs@.len() <= u32::MAX,
#ensures
  // the length of the largest number its limbs can spell
  is_bits(self.params.max_word.v() * rep(self.lw(), self.limbs@.len()), res as int),
  self.bnd() ==> self.iv() < pow2(res as nat),
  self.has() && self.vbnd() ==> ls(self.wv(), self.lw()) < pow2(res as nat),
#hook entry
  proof {
    let w = self.lw(); let n = self.limbs@.len(); let M = self.params.max_word.v();
    rep_mul(w, n); lemma2_to64(); p2_mono(1, w); rep_step(w, n);
    assert(w <= w * n) by (nonlinear_arith) requires n >= 1; assert(0 <= w * n);
    lemma_pow2_pos(w * n);
    lemma_div_multiples_vanish(rep(w, n), pow2(w) - 1);
    assert((pow2(w * n) - 1) / (pow2(w) - 1) == rep(w, n)) by { assert((pow2(w) - 1) * rep(w, n) == rep(w, n) * (pow2(w) - 1)) by (nonlinear_arith); }
    assert(M * rep(w, n) >= 0) by (nonlinear_arith) requires M >= 0, rep(w, n) >= 0;
    if self.bnd() { ls_le(self.lv(), M, w); }
    if self.has() && self.vbnd() { ls_le(self.wv(), M, w); }
  }
#fn BigNat::as_limbs
#requires
  self.shape(),
#ensures
  res@.len() == self.limbs@.len(), nlcs(res@) == lcs(self.limbs@),
  forall|i: int| 0 <= i < res@.len() ==> (#[trigger] res@[i]).num.val() == lcs(self.limbs@)[i] && (res@[i].value is Some) == self.has() && (self.has() ==> res@[i].value->0.v() == self.wv()[i]) && (self.hon() ==> res@[i].hon()),
#hook loop 0 inv
  n0 == self.limbs@.len(), s__0 == self.limbs, limbs@.len() == i0, self.shape(),
  forall|i: int| 0 <= i < i0 ==> (#[trigger] nums0__(limbs)[i]).num.val() == lcs(self.limbs@)[i] && (nums0__(limbs)[i].value is Some) == self.has() && (self.has() ==> nums0__(limbs)[i].value->0 == self.limb_values->0@[i]),
#hook loop 0 begin
  let ghost o0: Seq<Num> = nums0__(limbs);
#hook loop 0 end
  proof { let m = nums0__(limbs); assert(m =~= o0.push(m[i0 as int])); assert forall|i: int| 0 <= i < i0 implies #[trigger] m[i] == o0[i] by {} assert(lcs(self.limbs@)[i0 as int] == self.limbs@[i0 as int].val()); }
#hook ret
  proof { let m = nums0__(r__); assert(nlcs(r__@) =~= lcs(self.limbs@));
    assert forall|i: int| 0 <= i < r__@.len() && self.hon() implies (#[trigger] r__@[i]).hon() by { assert(m[i] == r__@[i]); if self.has() { assert(cong(lcs(self.limbs@)[i], self.wv()[i])); } } }
#fn BigNat::inputize
#requires
  self.shape(), old(cs).w() ==> self.has(),
#ensures
  res is Ok, kepti(*old(cs), *final(cs), lcs(self.limbs@).len() as int),
  // one public input for each wire, in order; the constraints make each equal to its wire, and nothing else
  final(cs).sat() == (old(cs).sat() && forall|i: int| 0 <= i < lcs(self.limbs@).len() ==> cong(#[trigger] newin(*old(cs), *final(cs))[i], lcs(self.limbs@)[i])),
  final(cs).sat() ==> newin(*old(cs), *final(cs)) == mods(lcs(self.limbs@)),
  // the prover's assignment is accepted, and its inputs are the values it knows
  old(cs).w() && final(cs).honest() ==> newin(*old(cs), *final(cs)) == self.wv(),
  old(cs).w() && old(cs).sat() && final(cs).honest() && self.hon() ==> final(cs).sat(),
#hook entry
  let ghost W = lcs(self.limbs@); let ghost O = *cs; let ghost N = W.len() as int;
  proof { ax_P(); c_refl(0); assert(O.inputs().take(O.inputs().len() as int) =~= O.inputs()); }
#hook loop 0 inv
  n0 == N, N == self.limbs@.len(), s__0 == self.limbs, kepti(O, *cs, i0 as int), O == *old(cs), W == lcs(self.limbs@), N == W.len(), cs.w() ==> self.has(), self.shape(),
  cs.sat() == (O.sat() && forall|i: int| 0 <= i < i0 ==> cong(#[trigger] newin(O, *cs)[i], W[i])),
  newin(O, *cs).len() == i0, forall|i: int| 0 <= i < i0 ==> 0 <= #[trigger] newin(O, *cs)[i] < P(),
  cs.w() && cs.honest() ==> newin(O, *cs) == self.wv().take(i0 as int),
#hook loop 0 begin
  let ghost C0 = *cs; let ghost L0 = newin(O, C0);
  proof { assert(W[i0 as int] == s__0@[i0 as int].val()); assert(cs.w() ==> self.wv()[i0 as int] == self.limb_values->0@[i0 as int].v()); }
#hook loop 0 end
  proof {
    let L1 = newin(O, *cs); let x = C0.inputs().len();
    assert(cs.inputs().take(O.inputs().len() as int) =~= C0.inputs().take(O.inputs().len() as int));
    let y = cs.inputs()[x as int];
    assert(L1 =~= L0.push(y)); c_flip(y, W[i0 as int]); assert(0int * 0 == 0);
    assert(forall|i: int| 0 <= i < i0 ==> L1[i] == L0[i]);
    assert(L1[i0 as int] == y);
    if cs.w() { assert(self.wv().take(i0 + 1) =~= self.wv().take(i0 as int).push(self.wv()[i0 as int])); }
  }
#hook ret
  proof {
    let X = newin(O, *cs);
    if cs.sat() { assert forall|i: int| 0 <= i < N implies #[trigger] X[i] == mods(W)[i] by { assert(cong(X[i], W[i])); c_mod_eq(X[i], W[i]);  c_small(X[i]); } assert(X =~= mods(W)); }
    if cs.w() && cs.honest() && self.hon() { assert forall|i: int| 0 <= i < N implies cong(#[trigger] X[i], W[i]) by { assert(self.wv().take(N)[i] == self.wv()[i]); assert(cong(W[i], self.wv()[i])); c_sym(W[i], self.wv()[i]); } }
    if cs.w() && cs.honest() { assert(self.wv().take(N) =~= self.wv()); assert(forall|i: int| 0 <= i < N ==> X[i] == self.wv()[i]); }
  }
#fn BigNat::verify_mult
#requires
  self.shape(), other.shape(), prod.shape(), self.limbs@.len() >= 1, other.limbs@.len() >= 1, prod.limbs@.len() >= 1, self.params.limb_width < 0x1_0000_0000,
  self.limbs@.len() + other.limbs@.len() <= usize::MAX, self.limbs@.len() + other.limbs@.len() <= P(),
  old(cs).w() ==> self.has() && other.has() && prod.has() && self.vbnd() && other.vbnd() && prod.vbnd(),
  // the carries leave room in the field
  cbits(mx(prod_max(self.limbs@.len() as int, other.limbs@.len() as int, self.params.max_word.v(), other.params.max_word.v()), prod.params.max_word.v()), self.lw()) + self.lw() <= CAP(),
#ensures
  kept(*old(cs), *final(cs)), (res is Ok) == (self.lw() == other.lw() && self.lw() == prod.lw()),
  // every satisfying assignment: the product over the integers
  res is Ok && final(cs).sat() && self.bnd() && other.bnd() && prod.bnd() ==> self.iv() * other.iv() == prod.iv(),
  // the prover's assignment is accepted when it is the product
  res is Ok && old(cs).w() && old(cs).sat() && final(cs).honest() && self.hon() && other.hon() && prod.hon() && ls(self.wv(), self.lw()) * ls(other.wv(), other.lw()) == ls(prod.wv(), prod.lw()) ==> final(cs).sat(),
#hook entry
  let ghost ma = self.params.max_word.v(); let ghost mb = other.params.max_word.v(); let ghost na = self.limbs@.len() as int; let ghost nb = other.limbs@.len() as int;
  let ghost m = prod_max(na, nb, ma, mb);
  proof {
    ax_P(); lv_range(*self); lv_range(*other);
    prod_max_nn(na, nb, ma, mb); room_ok(mx(m, prod.params.max_word.v()), self.lw());
  }
#hook after let poly_prod
  let ghost mid = *cs;
  proof {
    let w = self.lw();
    if cs.sat() && self.bnd() && other.bnd() { prod_sound(self.lv(), other.lv(), lcs(self.limbs@), lcs(other.limbs@), poly_prod.cf(), ma, mb, w); }
    if poly_prod.has() && self.vbnd() && other.vbnd() { prod_wit(self.wv(), other.wv(), poly_prod.wv(), ma, mb, w); }
  }
#fn BigNat::mult
#requires
  self.shape(), other.shape(), self.limbs@.len() >= 1, other.limbs@.len() >= 1, self.params.limb_width < 0x1_0000_0000,
  (self.limbs@.len() + other.limbs@.len()) * self.lw() <= usize::MAX, (self.limbs@.len() + other.limbs@.len()) * other.lw() <= usize::MAX, self.limbs@.len() + other.limbs@.len() <= P(), self.params.min_bits + other.params.min_bits <= usize::MAX,
  old(cs).w() ==> self.has() && other.has() && self.wf() && other.wf(),
  // the carries leave room in the field
  cbits(mx(prod_max(self.limbs@.len() as int, other.limbs@.len() as int, self.params.max_word.v(), other.params.max_word.v()), pow2(self.lw()) - 1), self.lw()) + self.lw() <= CAP(),
#ensures
  kept(*old(cs), *final(cs)),
  !old(cs).w() ==> (res is Ok) == (self.lw() == other.lw()),
  // the product must fit as many limbs as the operands have together
  old(cs).w() ==> (res is Ok) == (self.lw() == other.lw() && self.value->0.v() * other.value->0.v() < pow2(self.lw() * (self.limbs@.len() + other.limbs@.len()))),
  res is Ok ==> ({
    let r = res->Ok_0;
    &&& r.shape() && r.limbs@.len() == self.limbs@.len() + other.limbs@.len() && r.lw() == self.lw() && r.params.max_word.v() == pow2(self.lw()) - 1 && r.has() == old(cs).w()
    &&& r.params.min_bits == (if self.params.min_bits > 0 && other.params.min_bits > 0 { self.params.min_bits + other.params.min_bits - 1 } else { 0int })
    // every satisfying assignment: digits of the product
    &&& final(cs).sat() ==> r.dgt() && r.bnd()
    &&& final(cs).sat() && self.bnd() && other.bnd() ==> r.iv() == self.iv() * other.iv() && (self.mb() && other.mb() ==> r.mb())
    // the prover's
    &&& r.has() ==> r.value->0.v() == self.value->0.v() * other.value->0.v() && r.wf()
    &&& old(cs).w() && final(cs).honest() ==> r.hon()
    &&& old(cs).w() && old(cs).sat() && final(cs).honest() && self.hon() && other.hon() ==> final(cs).sat()
  }),
#hook entry
  let ghost w = self.lw(); let ghost n = (self.limbs@.len() + other.limbs@.len()) as nat; let ghost v = self.value->0.v() * other.value->0.v();
  proof {
    ax_P(); lv_range(*self); lv_range(*other); lv_nonneg(*self); lv_nonneg(*other); wv_nonneg(*self); wv_nonneg(*other); lemma_pow2_pos(w);
    prod_max_nn(self.limbs@.len() as int, other.limbs@.len() as int, self.params.max_word.v(), other.params.max_word.v());
    room_ok(mx(prod_max(self.limbs@.len() as int, other.limbs@.len() as int, self.params.max_word.v(), other.params.max_word.v()), pow2(w) - 1), w);
    assert(w * n == n * w) by (nonlinear_arith);
    assert(other.limbs@.len() + self.limbs@.len() == n); assert(n <= n * w) by (nonlinear_arith) requires w >= 1;
    lemma_pow2_pos(w * n);
    if old(cs).w() { let x = self.value->0.v(); let y = other.value->0.v(); assert(x * y >= 0) by (nonlinear_arith) requires x >= 0, y >= 0; }
    assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] digs(v, n, w)[j] < pow2(w) by { lemma_mod_bound(v / (pow2(w * (j as nat)) as int), pow2(w) as int); }
    if self.params.min_bits > 0 && other.params.min_bits > 0 {
      let p = (self.params.min_bits - 1) as nat; let q = (other.params.min_bits - 1) as nat;
      p2_add(p, q); lemma_pow2_pos(p); lemma_pow2_pos(q);
      let c = pow2(p) as int; let d = pow2(q) as int;
      if self.mb() && other.mb() { let x = self.iv(); let y = other.iv(); assert(x * y >= c * d) by (nonlinear_arith) requires x >= c, y >= d, c > 0, d > 0; }
      if old(cs).w() { let x = self.value->0.v(); let y = other.value->0.v(); assert(x * y >= c * d) by (nonlinear_arith) requires x >= c, y >= d, c > 0, d > 0; }
    }
  }
#fn BigNat::divides
#requires
  self.shape(), other.shape(), self.limbs@.len() >= 1, other.limbs@.len() >= 1, self.params.limb_width < 0x1_0000_0000,
  other.limbs@.len() * other.lw() <= usize::MAX, self.limbs@.len() + other.limbs@.len() <= usize::MAX, self.limbs@.len() + other.limbs@.len() <= P(),
  old(cs).w() ==> self.has() && other.has() && self.wf() && other.wf(),
  // the carries leave room in the field
  cbits(mx(prod_max(self.limbs@.len() as int, other.limbs@.len() as int, self.params.max_word.v(), pow2(self.lw()) - 1), other.params.max_word.v()), self.lw()) + self.lw() <= CAP(),
#ensures
  kept(*old(cs), *final(cs)),
  !old(cs).w() ==> (res is Ok) == (self.lw() == other.lw()),
  old(cs).w() ==> (res is Ok) == (self.lw() == other.lw() && dvd(self.value->0.v(), other.value->0.v()) && cof(self.value->0.v(), other.value->0.v()) < pow2(other.lw() * other.limbs@.len())),
  // every satisfying assignment: it divides, with a cofactor that fits the limbs of the multiple
  res is Ok && final(cs).sat() && self.bnd() && other.bnd() ==> exists|f: int| 0 <= f < pow2(other.lw() * other.limbs@.len()) && #[trigger] (self.iv() * f) == other.iv(),
  // the prover's assignment is accepted
  res is Ok && old(cs).w() && old(cs).sat() && final(cs).honest() && self.hon() && other.hon() ==> final(cs).sat(),
#hook entry
  let ghost w = self.lw(); let ghost n = other.limbs@.len(); let ghost x = self.value->0.v(); let ghost y = other.value->0.v(); let ghost v = cof(x, y);
  let ghost m = prod_max(self.limbs@.len() as int, n as int, self.params.max_word.v(), pow2(w) - 1);
  proof {
    ax_P(); lv_range(*self); lv_range(*other); lv_nonneg(*self); lv_nonneg(*other); wv_nonneg(*self); wv_nonneg(*other); lemma_pow2_pos(w);
    prod_max_nn(self.limbs@.len() as int, n as int, self.params.max_word.v(), pow2(w) - 1);
    room_ok(mx(m, other.params.max_word.v()), w);
    lemma_pow2_pos(other.lw() * n);
    assert(other.lw() * n == n * other.lw()) by (nonlinear_arith);
    if old(cs).w() && x > 0 { lemma_div_pos_is_pos(y, x); lemma_fundamental_div_mod(y, x); }
    assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] digs(v, n, w)[j] < pow2(w) by { lemma_mod_bound(v / (pow2(w * (j as nat)) as int), pow2(w) as int); }
  }
#hook after let factor
  proof { assert(x * 0 == 0); }
#hook ret
  proof {
    if r__ is Ok && cs.sat() && self.bnd() && other.bnd() {
      let f = factor.iv();
      assert(self.iv() * f == other.iv());
    }
  }
#rs
/// x divides y, and the cofactor the prover uses
pub open spec fn dvd(x: int, y: int) -> bool { if x == 0 { y == 0 } else { y % x == 0 } }
pub open spec fn cof(x: int, y: int) -> int { if x == 0 { 0 } else { y / x } }
#fn Polynomial as From<BigNat>::from
#impl impl TFrom<BigNat> for Polynomial
#as tfrom
#items
  open spec fn from_ok(a: BigNat) -> bool { true }
  open spec fn from_sp(a: BigNat, o: Polynomial) -> bool { o.coefficients == a.limbs && o.values == a.limb_values }
