#fn Polynomial::evaluate_at
#ensures
  (res is Some) == self.has(), self.has() ==> res->0.v() == pe(self.wv(), x.v()) % P(),
#hook loop 0 inv
  n0 == vs@.len(), s__0@ == vs@, cong(v.v(), pw(x.v(), i0 as nat)), cong(acc.v(), pe(svals(vs@).take(i0 as int), x.v())),
#hook loop 0 before
  proof { c_refl(1); c_refl(0); assert(svals(vs@).take(0) =~= seq![]); }
#hook loop 0 begin
  let ghost v0 = v.v(); let ghost a0 = acc.v();
#hook loop 0 end
  proof {
    let s = svals(vs@); let c = s[i0 as int]; let p = pw(x.v(), i0 as nat);
    pe_take(s, i0 as int, x.v());
    c_refl(c); c_mul(c, c, v0, p); c_mod(c * v0); c_trans((c * v0) % P(), c * v0, c * p);
    c_add(a0, pe(s.take(i0 as int), x.v()), (c * v0) % P(), c * p); c_mod(a0 + (c * v0) % P());
    c_trans(acc.v(), a0 + (c * v0) % P(), pe(s.take(i0 + 1), x.v()));
    c_refl(x.v()); c_mul(v0, p, x.v(), x.v()); c_mod(v0 * x.v()); c_trans(v.v(), v0 * x.v(), p * x.v());
  }
#hook loop 0 after
  proof { assert(svals(vs@).take(vs@.len() as int) =~= svals(vs@)); c_mod_eq(acc.v(), pe(svals(vs@), x.v())); c_small(acc.v()); }
#fn Polynomial::alloc_product
#requires
  self.shape(), other.shape(), 1 <= self.coefficients@.len() + other.coefficients@.len() <= usize::MAX,
  old(cs).w() ==> self.has() && other.has(),
#ensures
  kept(*old(cs), *final(cs)), res is Ok,
  ({
    let r = res->Ok_0; let n = self.coefficients@.len() + other.coefficients@.len() - 1;
    &&& r.shape() && r.coefficients@.len() == n && r.has() == (self.has() && other.has())
    // every satisfying assignment: the coefficients are the product's
    &&& final(cs).sat() && n < P() ==> forall|k: int| 0 <= k < n ==> cong(#[trigger] r.cf()[k], cv(self.cf(), other.cf(), k))
    // the prover's
    &&& r.has() ==> forall|k: int| 0 <= k < n ==> #[trigger] r.wv()[k] == cv(self.wv(), other.wv(), k) % P()
    &&& old(cs).w() && final(cs).honest() ==> r.hon()
    &&& old(cs).w() && old(cs).sat() && final(cs).honest() && self.hon() && other.hon() ==> final(cs).sat()
    // as many variables as coefficients, as many constraints
    &&& final(cs).nv() == old(cs).nv() + n && final(cs).nc() == old(cs).nc() + n
  }),
#hook entry
  let ghost A = self.cf(); let ghost B = other.cf(); let ghost a = self.wv(); let ghost b = other.wv(); let ghost N = A.len() + B.len() - 1; let ghost cs0 = *cs;
  let ghost mut C = A; let ghost mut cs1 = *cs;
  proof { ax_P(); }
#hook loop 0 inv
  n0 == N, c0@.len() == i0, forall|k: int| 0 <= k < i0 ==> #[trigger] svals(c0@)[k] == 0,
#hook loop 0 begin
  let ghost c00 = c0@;
#hook loop 0 end
  proof { assert forall|k: int| 0 <= k < i0 + 1 implies #[trigger] svals(c0@)[k] == 0 by { if k < i0 { assert(svals(c00)[k] == 0); } } }
#hook loop 1 inv
  n1 == a.len(), s__1@ == self_vs@, a == svals(self_vs@), b == svals(other_vs@), N == a.len() + b.len() - 1, values@.len() == N, N < usize::MAX,
  forall|k: int| 0 <= k < N ==> cong(#[trigger] svals(values@)[k], cv(a.take(i1 as int), b, k)),
#hook loop 1 before
  proof { assert(a.take(0) =~= seq![]); c_refl(0); }
#hook loop 2 inv
  n2 == b.len(), s__2@ == other_vs@, a == svals(self_vs@), b == svals(other_vs@), N == a.len() + b.len() - 1, values@.len() == N, self_v.v() == a[i1 as int], self_i == i1, i1 < a.len(), N < usize::MAX,
  forall|k: int| 0 <= k < N ==> cong(#[trigger] svals(values@)[k], cv(a.take(i1 as int), b, k) + a[i1 as int] * at0(b.take(i2 as int), k - i1)),
#hook loop 2 before
  proof { assert forall|k: int| 0 <= k < N implies cong(#[trigger] svals(values@)[k], cv(a.take(i1 as int), b, k) + a[i1 as int] * at0(b.take(0), k - i1)) by { assert(a[i1 as int] * 0 == 0) by (nonlinear_arith); } }
#hook loop 2 begin
  let ghost V0 = values@;
  proof { assert(b[i2 as int] == other_vs@[i2 as int].v()); }
#hook loop 2 end
  proof {
    let x = a[i1 as int]; let y = b[i2 as int];
    assert forall|k: int| 0 <= k < N implies cong(#[trigger] svals(values@)[k], cv(a.take(i1 as int), b, k) + x * at0(b.take(i2 + 1), k - i1)) by {
      let o = svals(V0)[k]; let t = cv(a.take(i1 as int), b, k);
      assert(cong(o, t + x * at0(b.take(i2 as int), k - i1)));
      let j = k - i1;
      if j == i2 {
        assert(x * 0 == 0) by (nonlinear_arith);
        assert(at0(b.take(i2 as int), j) == 0); assert(at0(b.take(i2 + 1), j) == y);
        c_mod(x * y); c_add(o, t, (x * y) % P(), x * y);
        c_mod(o + (x * y) % P()); c_trans((o + (x * y) % P()) % P(), o + (x * y) % P(), t + x * y);
        assert(values@[k].v() == (o + (x * y) % P()) % P());
      } else { assert(values@[k] == V0[k]); assert(at0(b.take(i2 as int), j) == at0(b.take(i2 + 1), j)); }
    }
  }
#hook loop 2 after
  proof {
    assert(b.take(b.len() as int) =~= b);
    assert forall|k: int| 0 <= k < N implies cong(#[trigger] svals(values@)[k], cv(a.take(i1 + 1), b, k)) by { cv_take(a, b, i1 as int, k); }
  }
#hook loop 1 after
  proof {
    assert(a.take(a.len() as int) =~= a);
    assert forall|k: int| 0 <= k < N implies #[trigger] svals(values@)[k] == cv(a, b, k) % P() by { c_mod_eq(svals(values@)[k], cv(a, b, k)); c_small(svals(values@)[k]); }
  }
#hook loop 3 inv
  n3 == N, lo__3 == 0, lcs0__(c3).len() == i3, kept(cs0, *cs), cs.sat() == cs0.sat(), cs.nv() == cs0.nv() + i3, cs.nc() == cs0.nc(),
  cs0.w() ==> values is Some, values is Some ==> values->0@.len() == N,
  cs0.w() && cs.honest() ==> forall|k: int| 0 <= k < i3 ==> cong(#[trigger] lcs0__(c3)[k].val(), values->0@[k].v()),
#hook loop 3 begin
  let ghost c30 = c3@;
#hook loop 3 end
  proof { if cs0.w() && cs.honest() { assert forall|k: int| 0 <= k < i3 + 1 implies cong(#[trigger] lcs0__(c3)[k].val(), values->0@[k].v()) by { if k < i3 { assert(c3@[k] == c30[k]); } else { c_refl(c3@[k].val()); } } } }
#hook loop 3 after
  proof { C = lcs(c3@); cs1 = *cs; }
#hook loop 4 inv
  n4 == N, lo__4 <= 1, one.v() == 1, N < usize::MAX, x.v() == i4 as int % P(), A == lcs(self.coefficients@), B == lcs(other.coefficients@), C == lcs(product.coefficients@), C.len() == N, A.len() + B.len() == N + 1,
  cs.w() == cs1.w(), cs.honest() == cs1.honest(), cs.inputs() == cs1.inputs(), cs.nv() == cs1.nv(), cs.nc() == cs1.nc() + i4,
  cs.sat() ==> cs1.sat(),
  cs.sat() && N < P() ==> forall|y: int| 1 <= y <= i4 ==> cong(pe(A, y) * pe(B, y), #[trigger] pe(C, y)),
  cs1.sat() && (forall|k: int| 0 <= k < N ==> cong(#[trigger] C[k], cv(A, B, k))) ==> cs.sat(),
#hook loop 4 before
  proof { c_small(0); }
#hook loop 4 begin
  proof { c_mod(i4 as int); c_refl(1); c_add(i4 as int % P(), i4 as int, 1, 1); c_mod_eq(i4 as int % P() + 1, i4 + 1); }
#hook loop 5 before
  proof { c_refl(0); c_refl(1); assert(A.take(0) =~= seq![]); }
#hook loop 5 inv
  n5 == A.len(), s__5@ == self.coefficients@, A == lcs(self.coefficients@), cong(i.v(), pw(x.v(), i5 as nat)), cong(flc__(f5), pe(A.take(i5 as int), x.v())),
#hook loop 5 begin
  let ghost q0 = i.v(); let ghost o0 = f5.val();
#hook loop 5 end
  proof { pe_step(A, i5 as int, x.v(), q0, o0); assert(f5.val() == o0 + q0 * A[i5 as int]); }
#hook loop 5 after
  proof { assert(A.take(A.len() as int) =~= A); }
#hook loop 6 before
  proof { c_refl(0); c_refl(1); assert(B.take(0) =~= seq![]); }
#hook loop 6 inv
  n6 == B.len(), s__6@ == other.coefficients@, B == lcs(other.coefficients@), cong(i.v(), pw(x.v(), i6 as nat)), cong(flc__(f6), pe(B.take(i6 as int), x.v())),
#hook loop 6 begin
  let ghost q0 = i.v(); let ghost o0 = f6.val();
#hook loop 6 end
  proof { pe_step(B, i6 as int, x.v(), q0, o0); assert(f6.val() == o0 + q0 * B[i6 as int]); }
#hook loop 6 after
  proof { assert(B.take(B.len() as int) =~= B); }
#hook loop 7 before
  proof { c_refl(0); c_refl(1); assert(C.take(0) =~= seq![]); }
#hook loop 7 inv
  n7 == C.len(), s__7@ == product.coefficients@, C == lcs(product.coefficients@), cong(i.v(), pw(x.v(), i7 as nat)), cong(flc__(f7), pe(C.take(i7 as int), x.v())),
#hook loop 7 begin
  let ghost q0 = i.v(); let ghost o0 = f7.val();
#hook loop 7 end
  proof { pe_step(C, i7 as int, x.v(), q0, o0); assert(f7.val() == o0 + q0 * C[i7 as int]); }
#hook loop 7 after
  proof { assert(C.take(C.len() as int) =~= C); }
#hook enforce 0 pre
  proof {
    let y = x.v(); let l = pe(A, y) * pe(B, y);
    c_mul(ea__.val(), pe(A, y), eb__.val(), pe(B, y));
    if cong(ea__.val() * eb__.val(), ec__.val()) { c_sym(ea__.val() * eb__.val(), l); c_trans(l, ea__.val() * eb__.val(), ec__.val()); c_trans(l, ec__.val(), pe(C, y)); }
    if cong(l, pe(C, y)) { c_trans(ea__.val() * eb__.val(), l, pe(C, y)); c_sym(ec__.val(), pe(C, y)); c_trans(ea__.val() * eb__.val(), pe(C, y), ec__.val()); }
    if N < P() { c_small(i4 + 1); assert(y == i4 + 1); }
    if forall|k: int| 0 <= k < N ==> cong(#[trigger] C[k], cv(A, B, k)) {
      pe_conv(A, B, N as nat, y);
      assert forall|k: int| 0 <= k < C.len() implies cong(#[trigger] C[k], conv(A, B, N as nat)[k]) by {}
      pe_cong(C, conv(A, B, N as nat), y);
      c_sym(pe(C, y), l);
    }
  }
#hook ret
  proof {
    let r = r__->Ok_0;
    if cs.sat() && N < P() {
      let V = conv(A, B, N as nat);
      assert forall|y: int| 1 <= y <= N implies cong(#[trigger] pe(C, y), pe(V, y)) by { pe_conv(A, B, N as nat, y); c_sym(pe(A, y) * pe(B, y), pe(C, y)); }
      interp(C, V, N as nat);
      assert forall|k: int| 0 <= k < N implies cong(#[trigger] r.cf()[k], cv(A, B, k)) by { assert(cong(C[k], V[k])); }
    }
    if cs0.w() && cs.honest() && self.hon() && other.hon() {
      assert forall|k: int| 0 <= k < N implies cong(#[trigger] C[k], cv(A, B, k)) by {
        cv_cong(A, a, B, b, k); c_sym(cv(A, B, k), cv(a, b, k));
        c_mod(cv(a, b, k)); assert(r.wv()[k] == cv(a, b, k) % P()); assert(C[k] == lcs0__(product.coefficients)[k].val());
        c_trans(C[k], cv(a, b, k) % P(), cv(a, b, k)); c_trans(C[k], cv(a, b, k), cv(A, B, k));
      }
    }
  }
#fn Polynomial::sum
#requires
  self.shape(), other.shape(),
#ensures
  res.shape(), res.cf() == vadd(self.cf(), other.cf()), res.has() == (self.has() && other.has()),
  res.has() ==> res.wv() == mods(vadd(self.wv(), other.wv())),
  self.hon() && other.hon() ==> res.hon(),
#hook entry
  let ghost A = self.cf(); let ghost B = other.cf(); let ghost a = self.wv(); let ghost b = other.wv();
  proof { ax_P(); }
#hook loop 0 inv
  n0 == n_coeffs, lo__0 == 0, c0@.len() == i0, a == svals(self_vs@), b == svals(other_vs@), n_coeffs == vadd(a, b).len(),
  forall|k: int| 0 <= k < i0 ==> #[trigger] svals(c0@)[k] == vadd(a, b)[k] % P(),
#hook loop 0 begin
  let ghost c00 = c0@;
  proof { c_small(0); if i0 < a.len() { assert(a[i0 as int] == self_vs@[i0 as int].v()); c_small(a[i0 as int]); } if i0 < b.len() { assert(b[i0 as int] == other_vs@[i0 as int].v()); c_small(b[i0 as int]); } }
#hook loop 0 end
  proof { assert forall|k: int| 0 <= k < i0 + 1 implies #[trigger] svals(c0@)[k] == vadd(a, b)[k] % P() by { if k < i0 { assert(svals(c00)[k] == vadd(a, b)[k] % P()); } } }
#hook loop 0 after
  proof { assert(svals(c0@) =~= mods(vadd(a, b))); }
#hook loop 1 inv
  n1 == n_coeffs, lo__1 == 0, c1@.len() == i1, A == lcs(self.coefficients@), B == lcs(other.coefficients@), n_coeffs == vadd(A, B).len(),
  forall|k: int| 0 <= k < i1 ==> #[trigger] lcs(c1@)[k] == vadd(A, B)[k],
#hook loop 1 begin
  let ghost c10 = c1@;
  proof { if i1 < A.len() { assert(A[i1 as int] == self.coefficients@[i1 as int].val()); } if i1 < B.len() { assert(B[i1 as int] == other.coefficients@[i1 as int].val()); } }
#hook loop 1 end
  proof { assert forall|k: int| 0 <= k < i1 + 1 implies #[trigger] lcs(c1@)[k] == vadd(A, B)[k] by { if k < i1 { assert(lcs(c10)[k] == vadd(A, B)[k]); } } }
#hook loop 1 after
  proof { assert(lcs(c1@) =~= vadd(A, B)); }
#hook ret
  proof {
    if r__.has() && self.hon() && other.hon() {
      assert forall|i: int| 0 <= i < r__.coefficients@.len() implies cong(#[trigger] r__.cf()[i], r__.wv()[i]) by {
        at0_cong(A, a, i); at0_cong(B, b, i); let s = at0(a, i) + at0(b, i);
        c_add(at0(A, i), at0(a, i), at0(B, i), at0(b, i)); c_mod(s); c_trans(at0(A, i) + at0(B, i), s, s % P());
        assert(r__.wv()[i] == vadd(a, b)[i] % P());
      }
    }
  }
#rs
pub open spec fn lcs0__(c: Vec<Lc>) -> Seq<Lc> { c@ }
pub open spec fn flc__(c: Lc) -> int { c.val() }
pub proof fn pe_step(s: Seq<int>, i: int, x: int, q: int, o: int)
    requires 0 <= i < s.len(), cong(q, pw(x, i as nat)), cong(o, pe(s.take(i), x)),
    ensures cong(o + q * s[i], pe(s.take(i + 1), x)), cong((q * x) % P(), pw(x, (i + 1) as nat)),
{
    let p = pw(x, i as nat); let c = s[i];
    pe_take(s, i, x);
    c_refl(c); c_mul(q, p, c, c); assert(p * c == c * p) by (nonlinear_arith);
    c_add(o, pe(s.take(i), x), q * c, c * p);
    c_refl(x); c_mul(q, p, x, x); c_mod(q * x); c_trans((q * x) % P(), q * x, p * x);
}
