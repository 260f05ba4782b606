#fn int_with_n_ones
#requires
  n < 0x1_0000_0000,
#ensures
  res.v() == pow2(n as nat) - 1,
#hook ret
  proof { assert(1 * pow2(n as nat) == pow2(n as nat)) by (nonlinear_arith); }
#fn BigNat::enforce_limb_width_agreement
#ensures
  (res is Ok) == (self.params.limb_width == other.params.limb_width), res is Ok ==> res->Ok_0 == self.params.limb_width,
#fn BigNat::assert_well_formed
#requires
  self.shape(), self.params.limb_width < 0x1_0000_0000, old(cs).w() ==> self.has(),
#ensures
  kept(*old(cs), *final(cs)),
  old(cs).w() && self.lw() <= CAP() + 1 ==> res is Ok,
  !old(cs).w() ==> res is Ok,
  res is Ok ==> final(cs).nv() == old(cs).nv() + self.limbs@.len() * (self.lw() - 1) && final(cs).nc() == old(cs).nc() + self.limbs@.len() * self.lw(),
  // every satisfying assignment: each limb is a digit, the one its place says
  res is Ok && final(cs).sat() ==> self.dgt() && 0 <= self.iv() < pow2(self.lw() * self.limbs@.len())
     && forall|i: int| 0 <= i < self.limbs@.len() ==> #[trigger] self.lv()[i] == dig(self.iv(), i as nat, self.lw()),
  // the prover's digits are accepted
  res is Ok && old(cs).w() && old(cs).sat() && final(cs).honest() && self.hon() && all_in(self.wv(), pow2(self.lw()) as int) ==> final(cs).sat(),
  !old(cs).w() && final(cs).sat() ==> old(cs).sat(),
#hook loop 0 before
  proof { lv_range(*self); assert(0 * (self.lw() - 1) == 0 && 0 * self.lw() == 0) by (nonlinear_arith); }
#hook loop 0 inv
  n0 == self.limbs@.len(), s__0 == self.limbs, lo__0 == 0, self.shape(), self.params.limb_width < 0x1_0000_0000, old(cs).w() ==> self.has(), self.lv().len() == n0,
  kept(*old(cs), *cs), cs.nv() == old(cs).nv() + i0 * (self.lw() - 1), cs.nc() == old(cs).nc() + i0 * self.lw(),
  cs.sat() ==> all_in(self.lv().take(i0 as int), pow2(self.lw()) as int),
  old(cs).w() && old(cs).sat() && cs.honest() && self.hon() && all_in(self.wv(), pow2(self.lw()) as int) ==> cs.sat(),
#hook loop 0 begin
  let ghost cs0 = *cs;
  proof { assert(self.has() ==> cong(lcs(self.limbs@)[i0 as int], self.wv()[i0 as int]) || !self.hon()); assert(self.has() ==> self.wv()[i0 as int] == self.limb_values->0@[i0 as int].v()); }
#hook loop 0 end
  proof {
    assert((i0 + 1) * (self.lw() - 1) == i0 * (self.lw() - 1) + self.lw() - 1) by (nonlinear_arith);
    assert((i0 + 1) * self.lw() == i0 * self.lw() + self.lw()) by (nonlinear_arith);
    if cs.sat() {
      let t = self.lv().take(i0 + 1);
      assert forall|j: int| 0 <= j < t.len() implies 0 <= #[trigger] t[j] < pow2(self.lw()) by { if j < i0 { assert(t[j] == self.lv().take(i0 as int)[j]); } }
    }
  }
#hook ret
  proof {
    assert(self.lv().take(self.limbs@.len() as int) =~= self.lv());
    if cs.sat() {
      ls_bound(self.lv(), self.lw());
      assert forall|i: int| 0 <= i < self.limbs@.len() implies #[trigger] self.lv()[i] == dig(self.iv(), i as nat, self.lw()) by { ls_dig(self.lv(), self.lw(), i); }
    }
  }
#fn BigNat::equals
#requires
  old(cs).w() ==> a.value() is Some && b.value() is Some,
#ensures
  kept(*old(cs), *final(cs)), res is Ok,
  final(cs).nv() == old(cs).nv() + 4, final(cs).nc() == old(cs).nc() + 6,
  // every satisfying assignment: true if and only if equal
  final(cs).sat() ==> res->Ok_0.bin() && res->Ok_0.tru() == (a.var().val() == b.var().val()),
  // the prover's assignment is accepted; the flag's witness is its variable's
  a.value() is Some && b.value() is Some ==> res->Ok_0.value() == Some(a.value()->0.v() == b.value()->0.v()),
  !(a.value() is Some && b.value() is Some) ==> res->Ok_0.value() is None,
  old(cs).w() && final(cs).honest() ==> res->Ok_0.hon(),
  !old(cs).w() ==> final(cs).honest() == old(cs).honest(),
  old(cs).w() && old(cs).sat() && final(cs).honest() && a.hon() && b.hon() ==> final(cs).sat(),
  !res->Ok_0.is_const(),
#hook entry
  proof { ax_P(); c_refl(0); c_refl(1); c_isb(); }
#hook enforce 4
  proof {
    let x = a.var().val() - b.var().val(); let d = delta.var().val(); let e = delta_inv.var().val(); let u = t.var().val(); let y = r.var().val();
    assert((1 - y) * y == y * (1 - y)) by (nonlinear_arith);
    assert(x * 1 == x);
    c_flip(a.var().val(), b.var().val());
    if cs.sat() {
      c_bool(y); c_small(y); c_small(u);
      if cong(x, 0) {
        c_eq(a.var().val(), b.var().val());
        assert(x * e == 0) by (nonlinear_arith) requires x == 0;
        c_flip(0, u); c_eq(u, 0);
        ax_prime(u - 1, y - 1);
        c_flip(y, 1); if cong(u - 1, 0) { c_flip(u, 1); c_eq(u, 1); }
      } else {
        ax_prime(x, y);
        if cong(y, 1) { c_flip(y, 0); c_eq(y, 1); c_eq(y, 0); }
      }
    }
    if old(cs).w() && cs.honest() && a.hon() && b.hon() {
      // d = x mod P, e is its inverse or one, u = d e
      c_mod(x);
      assert(d == x % P());
      if d == 0 {
        assert(a.var().val() == b.var().val()) by { c_from_mod(x, 0); c_small(0); c_eq(a.var().val(), b.var().val()); }
        assert(x == 0 && e == 1 && u == 0 && y == 1) by { c_small(0); }
        assert(x * e == 0 && x * (u - 1) == 0 && x * y == 0 && (u - 1) * (y - 1) == 0) by (nonlinear_arith) requires x == 0, y == 1;
      } else {
        if a.var().val() == b.var().val() { c_small(0); }
        c_flip(d, 0);
        if cong(d, 0) { c_eq(d, 0); }
        ax_inv(d);
        assert(e == inv(d));
        c_mod_eq(d * e, 1); c_small(1);
        assert(u == 1 && y == 0);
        c_refl(e); c_mul(x, d, e, e); c_trans(x * e, d * e, 1);
        assert(x * (u - 1) == 0 && x * y == 0 && (u - 1) * (y - 1) == 0) by (nonlinear_arith) requires u == 1, y == 0;
      }
    }
  }
#fn BigNat::is_equal
#requires
  self.shape(), other.shape(), old(cs).w() ==> self.has() && other.has(),
#ensures
  kept(*old(cs), *final(cs)),
  (res is Ok) == (self.limbs@.len() == other.limbs@.len() && self.lw() == other.lw()),
  res is Ok ==> final(cs).nv() >= old(cs).nv() + 6 * self.limbs@.len() && final(cs).nc() >= old(cs).nc() + 8 * self.limbs@.len(),
  // every satisfying assignment: true if and only if all limbs are equal
  res is Ok && final(cs).sat() ==> res->Ok_0.bin() && res->Ok_0.tru() == (self.lv() == other.lv()),
  // hence the numbers are, when the limbs are digits
  res is Ok && final(cs).sat() && self.dgt() && other.dgt() ==> res->Ok_0.tru() == (self.iv() == other.iv()),
  // the prover's assignment is accepted; the flag's witness is its variable's
  old(cs).w() && res is Ok ==> res->Ok_0.value() == Some(self.wv() == other.wv()) && (final(cs).honest() ==> res->Ok_0.hon()),
  old(cs).w() && res is Ok && old(cs).sat() && final(cs).honest() && self.hon() && other.hon() ==> final(cs).sat(),
#hook entry
  proof { ax_P(); c_refl(0); c_refl(1); lv_range(*self); lv_range(*other); }
#hook loop 0 inv
  n0 == self.limbs@.len(), n0 == other.limbs@.len(), lo__0 == 0, self.shape(), other.shape(), old(cs).w() ==> self.has() && other.has(),
  self.lv().len() == n0, other.lv().len() == n0, P() > 2,
  kept(*old(cs), *cs), cs.nv() >= old(cs).nv() + 6 * i0, cs.nc() >= old(cs).nc() + 8 * i0,
  cs.sat() ==> rolling.bin() && rolling.tru() == (self.lv().take(i0 as int) == other.lv().take(i0 as int)),
  old(cs).w() ==> rolling.value() == Some(self.wv().take(i0 as int) == other.wv().take(i0 as int)),
  old(cs).w() && cs.honest() ==> rolling.hon(),
  old(cs).w() && old(cs).sat() && cs.honest() && self.hon() && other.hon() ==> cs.sat(),
#hook loop 0 before
  proof { assert(self.lv().take(0) =~= other.lv().take(0)); assert(self.wv().take(0) =~= other.wv().take(0)); c_flip(0, 1); c_eq_not(1, 0); }
#hook loop 0 begin
  let ghost r0 = rolling; let ghost cs0 = *cs;
  proof {
    assert(self.lv()[i0 as int] == self.limbs@[i0 as int].val() % P()); assert(other.lv()[i0 as int] == other.limbs@[i0 as int].val() % P());
    assert(self.has() ==> self.wv()[i0 as int] == self.limb_values->0@[i0 as int].v()); assert(other.has() ==> other.wv()[i0 as int] == other.limb_values->0@[i0 as int].v());
    assert(self.hon() && self.has() ==> cong(lcs(self.limbs@)[i0 as int], self.wv()[i0 as int])); assert(other.hon() && other.has() ==> cong(lcs(other.limbs@)[i0 as int], other.wv()[i0 as int]));
  }
#hook enforce 0 pre
  proof { alloc_eq(self_limb.var().val(), self.limbs@[i0 as int].val()); assert(ea__.val() * eb__.val() == 0) by (nonlinear_arith) requires ea__.val() == 0; }
#hook enforce 1 pre
  proof { alloc_eq(other_limb.var().val(), other.limbs@[i0 as int].val()); assert(ea__.val() * eb__.val() == 0) by (nonlinear_arith) requires ea__.val() == 0; }
#hook after let b
  let ghost cs1 = *cs;
#hook loop 0 end
  proof {
    let s = self.lv(); let t = other.lv(); let i = i0 as int;
    assert(s.take(i + 1) =~= s.take(i).push(s[i])); assert(t.take(i + 1) =~= t.take(i).push(t[i]));
    if s.take(i + 1) == t.take(i + 1) { assert(s.take(i + 1).take(i) =~= s.take(i)); assert(t.take(i + 1).take(i) =~= t.take(i)); assert(s.take(i + 1)[i] == t.take(i + 1)[i]); }
    let p = self.wv(); let q = other.wv();
    if old(cs).w() {
      assert(p.take(i + 1) =~= p.take(i).push(p[i])); assert(q.take(i + 1) =~= q.take(i).push(q[i]));
      if p.take(i + 1) == q.take(i + 1) { assert(p.take(i + 1).take(i) =~= p.take(i)); assert(q.take(i + 1).take(i) =~= q.take(i)); assert(p.take(i + 1)[i] == q.take(i + 1)[i]); }
    }
    and_tru(b.lcv(), r0.lcv(), rolling.lcv());
    if old(cs).w() && cs.honest() && old(cs).sat() && self.hon() && other.hon() {
      assert(cs1.honest()); assert(cs0.honest()); assert(cs0.sat());
      assert(self_limb.hon() && other_limb.hon());
      assert(self_limb.var().val() == p[i]); assert(other_limb.var().val() == q[i]);
      c_sym(self.limbs@[i].val(), p[i]); c_sym(other.limbs@[i].val(), q[i]);
      assert(cong(self_limb.var().val(), self.limbs@[i].val()));
      assert(cs1.sat());
      and_hon(b, r0, rolling);
    }
  }
#hook ret
  proof {
    assert(self.lv().take(self.limbs@.len() as int) =~= self.lv()); assert(other.lv().take(self.limbs@.len() as int) =~= other.lv());
    if old(cs).w() { assert(self.wv().take(self.limbs@.len() as int) =~= self.wv()); assert(other.wv().take(self.limbs@.len() as int) =~= other.wv()); }
    if self.dgt() && other.dgt() && self.iv() == other.iv() { ls_inj(self.lv(), other.lv(), self.lw()); }
  }
#rs
/// 0 and 1 are different
pub proof fn c_eq_not(x: int, y: int)
    requires 0 <= x < P(), 0 <= y < P(), x != y,
    ensures !cong(x, y),
{ if cong(x, y) { c_eq(x, y); } }
/// an allocated copy v of x: 0 = -1 v + x
proof fn alloc_eq(v: int, x: int)
    requires 0 <= v < P(),
    ensures cong(0, 0 - 1 * v + x) == cong(v, x), cong(v, x) == (v == x % P()),
{
    c_flip(v, x);
    c_mod(x);
    if cong(v, x) { c_mod_eq(v, x); c_small(v); }
    if v == x % P() { c_sym(x, v); }
}
proof fn and_tru(a: int, b: int, r: int)
    requires P() > 2,
    ensures cong(a * b, r) && (cong(a, 0) || cong(a, 1)) && (cong(b, 0) || cong(b, 1)) ==> (cong(r, 0) || cong(r, 1)) && cong(r, 1) == (cong(a, 1) && cong(b, 1)),
{
    if cong(a * b, r) && (cong(a, 0) || cong(a, 1)) && (cong(b, 0) || cong(b, 1)) {
        let x = if cong(a, 1) { 1int } else { 0 }; let y = if cong(b, 1) { 1int } else { 0 };
        c_mul(a, x, b, y);
        c_sym(a * b, r);
        c_trans(r, a * b, x * y);
        c_eq_not(0, 1);
        if cong(r, 0) && cong(r, 1) { c_sym(r, 0); c_trans(0, r, 1); }
    }
}
proof fn and_hon(a: Boolean, b: Boolean, r: Boolean)
    requires a.hon(), b.hon(), r.hon(), a.value() is Some, b.value() is Some, r.value() == Some(a.value()->0 && b.value()->0),
    ensures cong(a.lcv() * b.lcv(), r.lcv()),
{
    c_mul(a.lcv(), b2i(a.value()->0), b.lcv(), b2i(b.value()->0));
    c_sym(r.lcv(), b2i(r.value()->0));
    assert(b2i(a.value()->0) * b2i(b.value()->0) == b2i(r.value()->0));
    c_trans(a.lcv() * b.lcv(), b2i(r.value()->0), r.lcv());
}
pub open spec fn same(a: BigNat, b: BigNat) -> bool { forall|i: int| 0 <= i < a.limbs@.len() || 0 <= i < b.limbs@.len() ==> #[trigger] at0(a.lv(), i) == at0(b.lv(), i) }
#fn BigNat::equal
#ensures
  kept(*old(cs), *final(cs)), final(cs).honest() == old(cs).honest(), final(cs).nv() == old(cs).nv(),
  (res is Ok) == (self.lw() == other.lw()),
  res is Ok ==> final(cs).nc() == old(cs).nc() + (if self.limbs@.len() < other.limbs@.len() { other.limbs@.len() } else { self.limbs@.len() }),
  // exactly the assignments in which all limbs are equal, the missing ones being zero
  res is Ok ==> final(cs).sat() == (old(cs).sat() && same(*self, *other)),
  // hence the numbers, when the limbs are digits
  res is Ok && self.dgt() && other.dgt() ==> final(cs).sat() == (old(cs).sat() && self.iv() == other.iv()),
  decreases (if self.limbs@.len() < other.limbs@.len() { 1int } else { 0 }),
#hook entry
  proof { lv_range(*self); lv_range(*other); if self.limbs@.len() >= other.limbs@.len() { same_iv(*self, *other); } same_sym(*self, *other); }
#hook loop 0 inv
  n0 == other.limbs@.len(), n == n0, lo__0 == 0, self.limbs@.len() >= other.limbs@.len(),
  self.lv().len() == self.limbs@.len(), other.lv().len() == other.limbs@.len(),
  kept(*old(cs), *cs), cs.honest() == old(cs).honest(), cs.nv() == old(cs).nv(), cs.nc() == old(cs).nc() + i0,
  cs.sat() == (old(cs).sat() && forall|i: int| 0 <= i < i0 ==> #[trigger] at0(self.lv(), i) == at0(other.lv(), i)),
#hook enforce 0 pre
  proof { let x = self.limbs@[i0 as int].val(); let y = other.limbs@[i0 as int].val(); c_flip(x, y); if cong(x, y) { c_mod_eq(x, y); } if x % P() == y % P() { c_from_mod(x, y); }
    assert(at0(self.lv(), i0 as int) == x % P() && at0(other.lv(), i0 as int) == y % P()); assert(ea__.val() * eb__.val() == 0) by (nonlinear_arith) requires ea__.val() == 0; }
#hook loop 1 inv
  self.limbs@.len() <= usize::MAX, n1 == self.limbs@.len() - other.limbs@.len(), n == other.limbs@.len(), lo__1 == n, self.limbs@.len() >= other.limbs@.len(),
  self.lv().len() == self.limbs@.len(), other.lv().len() == other.limbs@.len(),
  kept(*old(cs), *cs), cs.honest() == old(cs).honest(), cs.nv() == old(cs).nv(), cs.nc() == old(cs).nc() + n + i1,
  cs.sat() == (old(cs).sat() && forall|i: int| 0 <= i < n + i1 ==> #[trigger] at0(self.lv(), i) == at0(other.lv(), i)),
#hook enforce 1 pre
  proof { ax_P(); let x = self.limbs@[n + i1 as int].val(); c_flip(x, 0); c_small(0); if cong(x, 0) { c_mod_eq(x, 0); } if x % P() == 0 { c_from_mod(x, 0); } ax_P();
    assert(at0(self.lv(), n + i1) == x % P() && at0(other.lv(), n + i1) == 0); assert(ea__.val() * eb__.val() == 0) by (nonlinear_arith) requires ea__.val() == 0; }
#hook ret
  proof { assert((forall|i: int| 0 <= i < self.limbs@.len() ==> #[trigger] at0(self.lv(), i) == at0(other.lv(), i)) == same(*self, *other)); }
#rs
proof fn same_sym(a: BigNat, b: BigNat)
    ensures same(a, b) == same(b, a),
{
    if same(a, b) { assert forall|i: int| 0 <= i < a.limbs@.len() || 0 <= i < b.limbs@.len() implies #[trigger] at0(b.lv(), i) == at0(a.lv(), i) by { assert(at0(a.lv(), i) == at0(b.lv(), i)); } }
    if same(b, a) { assert forall|i: int| 0 <= i < a.limbs@.len() || 0 <= i < b.limbs@.len() implies #[trigger] at0(a.lv(), i) == at0(b.lv(), i) by { assert(at0(b.lv(), i) == at0(a.lv(), i)); } }
}
proof fn same_iv(a: BigNat, b: BigNat)
    requires a.limbs@.len() >= b.limbs@.len(), a.lv().len() == a.limbs@.len(), b.lv().len() == b.limbs@.len(),
    ensures same(a, b) && a.lw() == b.lw() ==> a.iv() == b.iv(), a.dgt() && b.dgt() && a.lw() == b.lw() && a.iv() == b.iv() ==> same(a, b),
{
    let n = a.limbs@.len();
    ls_pad(b.lv(), n, b.lw());
    let t = pad(b.lv(), n);
    if same(a, b) { assert forall|i: int| 0 <= i < n implies #[trigger] a.lv()[i] == t[i] by { assert(at0(a.lv(), i) == at0(b.lv(), i)); } assert(a.lv() =~= t); }
    if a.dgt() && b.dgt() && a.lw() == b.lw() && a.iv() == b.iv() {
        lemma_pow2_pos(a.lw());
        assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] t[i] < pow2(a.lw()) by { if i < b.lv().len() { assert(0 <= b.lv()[i] < pow2(a.lw())); } }
        ls_inj(a.lv(), t, a.lw());
        assert forall|i: int| 0 <= i < a.limbs@.len() || 0 <= i < b.limbs@.len() implies #[trigger] at0(a.lv(), i) == at0(b.lv(), i) by { assert(t[i] == at0(b.lv(), i)); }
    }
}
