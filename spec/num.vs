#rs
pub trait OptSp<T> { spec fn osp(&self) -> Option<T>; }
impl<T> OptSp<T> for Option<T> { open spec fn osp(&self) -> Option<T> { *self } }
pub trait OptionExt<T>: OptSp<T> {
    fn grab(&self) -> (r: Result<&T, SynthesisError>)
        ensures self.osp() is Some ==> r is Ok && *r->Ok_0 == self.osp()->0, self.osp() is None ==> r is Err;
}
pub open spec fn bit_at(v: int, i: int) -> bool { (v / (pow2(i as nat) as int)) % 2 == 1 }
impl Num {
    /// the prover's value is that of the wire
    pub open spec fn hon(self) -> bool { self.value is Some ==> cong(self.num.val(), self.value->0.v()) }
    pub open spec fn v(self) -> int { self.num.val() % P() }
}
proof fn le_byte(s: Seq<u8>, k: int)
    requires 0 <= k < s.len(),
    ensures le_bytes(s) / pow2((8 * k) as nat) as int == s[k] as int + 256 * le_bytes(s.skip(k + 1)),
    decreases k,
{
    lemma2_to64();
    le_nonneg(s.skip(1));
    if k == 0 {
        assert(le_bytes(s) / 1 == s[0] as int + 256 * le_bytes(s.skip(1)));
    } else {
        le_byte(s.skip(1), k - 1);
        assert(s.skip(1).skip(k) =~= s.skip(k + 1));
        let h = le_bytes(s.skip(k + 1));
        p2_add(8, (8 * (k - 1)) as nat);
        let t = le_bytes(s.skip(1));
        lemma_pow2_pos((8 * (k - 1)) as nat);
        lemma_div_denominator(le_bytes(s), 256, pow2((8 * (k - 1)) as nat) as int);
        assert((s[0] as int + 256 * t) / 256 == t);
        assert(8 + (8 * (k - 1)) as nat == (8 * k) as nat);
        assert(le_bytes(s) / pow2((8 * k) as nat) as int == s[k] as int + 256 * h);
    }
}
proof fn le_nonneg(s: Seq<u8>) ensures le_bytes(s) >= 0 decreases s.len() { if s.len() > 0 { le_nonneg(s.skip(1)); } }
proof fn le_bit(s: Seq<u8>, i: int)
    requires 0 <= i / 8 < s.len(), i >= 0,
    ensures bit_at(le_bytes(s), i) == ((s[i / 8] as int / pow2((i % 8) as nat) as int) % 2 == 1),
{
    let k = i / 8; let j = i % 8;
    le_byte(s, k);
    le_nonneg(s);
    let h = le_bytes(s.skip(k + 1)); le_nonneg(s.skip(k + 1));
    p2_add((8 * k) as nat, j as nat);
    lemma_pow2_pos((8 * k) as nat); lemma_pow2_pos(j as nat); lemma_pow2_pos((8 - j - 1) as nat);
    lemma_div_denominator(le_bytes(s), pow2((8 * k) as nat) as int, pow2(j as nat) as int);
    let q = pow2(j as nat) as int; let r = pow2((7 - j) as nat) as int;
    p2_add(j as nat, (7 - j) as nat);
    lemma2_to64();
    assert(q * r == 128);
    let b = s[k] as int;
    assert(b + 256 * h == q * (2 * r * h) + b) by (nonlinear_arith) requires q * r == 128;
    lemma_div_multiples_vanish_fancy(2 * r * h, b % q, q);
    lemma_fundamental_div_mod(b, q);
    lemma_mod_bound(b, q);
    assert(q * (2 * r * h) + b == q * (2 * r * h + b / q) + b % q) by (nonlinear_arith) requires b == q * (b / q) + b % q;
    lemma_div_multiples_vanish_fancy(2 * r * h + b / q, b % q, q);
    assert((b + 256 * h) / q == 2 * r * h + b / q);
    assert((2 * (r * h) + b / q) % 2 == (b / q) % 2);
    assert(2 * r * h == 2 * (r * h)) by (nonlinear_arith);
}
#fn Option as OptionExt<T>::grab
#impl impl<T> OptionExt<T> for Option<T>
#fn Scalar as BitAccess::get_bit
#impl impl Scalar
#requires
   i < 0x1_0000_0000,
#ensures
   i > CAP() ==> res is None,
   i <= CAP() ==> res == Some(bit_at(self.v(), i as int)),
#hook entry
proof { ax_P(); ax_repr(*self); if i <= CAP() { le_bit(self.le(), i as int); } }
#fn Num::new
#ensures
   res.value == value, res.num == num,
#rs
/// 2 (s0 + 2 s1 + ...)
pub open spec fn ls2(s: Seq<int>) -> int { 2 * ls(s, 1) }
proof fn bits_sound(num: int, s: Seq<int>, n: nat)
    requires s.len() + 1 == n, forall|j: int| 0 <= j < s.len() ==> isb(#[trigger] s[j]), isb(num - ls2(s)),
    ensures num % P() < pow2(n), 0 <= num % P(),
{
    ax_P();
    c_mod(num);
    let t = mods(s);
    ls_mods(s, 1);
    lemma2_to64();
    assert forall|j: int| 0 <= j < t.len() implies 0 <= #[trigger] t[j] < pow2(1) by { assert(isb(s[j])); c_bool(s[j]); }
    ls_bound(t, 1);
    p2(s.len());
    let x = num - ls2(s);
    c_bool(x);
    c_refl(2);
    c_mul(2, 2, ls(s, 1), ls(t, 1));
    let d = if cong(x, 0) { 0int } else { 1int };
    c_add(x, d, ls2(s), ls2(t));
    assert(cong(num, d + ls2(t)));
    if pow2(n) <= P() { c_mod_eq(num, d + ls2(t)); c_small(d + ls2(t)); }
}
proof fn bits_complete(num: int, v: int, s: Seq<int>, n: nat)
    requires s.len() + 1 == n, 0 <= v < pow2(n), cong(num, v), forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] == b2i(bit_at(v, j + 1)),
    ensures forall|j: int| 0 <= j < s.len() ==> isb(#[trigger] s[j]), isb(num - ls2(s)),
{
    ax_P();
    assert forall|j: int| 0 <= j < s.len() implies isb(#[trigger] s[j]) by { assert(s[j] == 0 || s[j] == 1); c_refl(0); }
    let h = v / 2;
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] == digs(h, s.len(), 1)[j] by {
        lemma2_to64();
        lemma_pow2_pos(j as nat);
        p2(j as nat);
        lemma_div_denominator(v, 2, pow2(j as nat) as int);
        assert(1 * (j as nat) == j);
        assert(2 * pow2(j as nat) == pow2((j + 1) as nat));
        assert(h / (pow2(j as nat) as int) == v / (pow2((j + 1) as nat) as int));
        let q = v / (pow2((j + 1) as nat) as int);
        lemma_mod_bound(q, 2);
    }
    assert(s =~= digs(h, s.len(), 1));
    ls_digs(h, s.len(), 1);
    p2(s.len());
    assert(1 * s.len() == s.len());
    lemma_small_mod(h as nat, pow2(s.len()));
    assert(ls2(s) == 2 * h);
    c_refl(ls2(s));
    c_add(num, v, ls2(s), ls2(s));
    c_bool_rev(num - ls2(s));
}
proof fn step2(f: int, s: Seq<int>, i: int)
    requires cong(f, pow2(i as nat) as int), 0 <= i < s.len(),
    ensures cong((2 * f) % P(), pow2((i + 1) as nat) as int), cong(((2 * f) % P()) * s[i], ls2(s.take(i + 1)) - ls2(s.take(i))),
{
    let g = (2 * f) % P();
    p2(i as nat);
    c_refl(2); c_mul(2, 2, f, pow2(i as nat) as int);
    c_mod(2 * f); c_trans(g, 2 * f, pow2((i + 1) as nat) as int);
    c_refl(s[i]); c_mul(g, pow2((i + 1) as nat) as int, s[i], s[i]);
    ls_take(s, i, 1);
    assert(pow2((i + 1) as nat) * s[i] == 2 * (s[i] * pow2(i as nat))) by (nonlinear_arith) requires pow2((i + 1) as nat) == 2 * pow2(i as nat);
}
#fn Num::fits_in_bits
#requires
  n_bits < 0x1_0000_0000, old(cs).w() ==> self.value is Some,
#ensures
  kept(*old(cs), *final(cs)),
  old(cs).w() && n_bits <= CAP() + 1 ==> res is Ok,
  !old(cs).w() ==> res is Ok && final(cs).honest() == old(cs).honest(),
  res is Ok ==> final(cs).nv() == old(cs).nv() + (if n_bits > 0 { n_bits - 1 } else { 0 }) && final(cs).nc() == old(cs).nc() + (if n_bits > 0 { n_bits as int } else { 1 }),
  // every satisfying assignment: the number fits
  res is Ok && final(cs).sat() ==> 0 <= self.v() < pow2(n_bits as nat),
  // a number that fits is accepted
  res is Ok && old(cs).w() && old(cs).sat() && final(cs).honest() && self.hon() && self.value->0.v() < pow2(n_bits as nat) ==> final(cs).sat(),
#hook entry
  proof { ax_P(); c_refl(0); c_refl(1); }
#hook enforce 0 pre
  proof {
    let x = self.num.val();
    assert(ea__.val() * eb__.val() == 0) by (nonlinear_arith) requires ea__.val() == 0;
    lemma2_to64();
    c_flip(x, 0); c_mod(x); c_small(0);
    if cong(x, 0) { c_mod_eq(x, 0); }
    if self.value is Some && self.hon() { c_mod_eq(x, self.value->0.v()); c_small(self.value->0.v()); }
    assert(n_bits as nat == 0);
  }
#hook loop 0 inv
  n0 == n_bits - 1, lo__0 == 1, v == self.value, c0@.len() == i0, n_bits < 0x1_0000_0000,
  old(cs).w() ==> self.value is Some, cs.w() == old(cs).w(), cs.sat() == old(cs).sat(), cs.inputs() == old(cs).inputs(),
  cs.nv() == old(cs).nv() + i0, cs.nc() == old(cs).nc(), cs.honest() ==> old(cs).honest(), !cs.w() ==> cs.honest() == old(cs).honest(),
  cs.w() && cs.honest() ==> forall|j: int| 0 <= j < i0 ==> #[trigger] vals(c0@)[j] == b2i(bit_at(self.value->0.v(), j + 1)),
#hook loop 0 begin
  let ghost h0 = cs.honest(); let ghost c00 = c0@;
#hook loop 0 end
  proof {
    if cs.w() && cs.honest() {
      assert forall|j: int| 0 <= j < i0 + 1 implies #[trigger] vals(c0@)[j] == b2i(bit_at(self.value->0.v(), j + 1)) by {
        if j < i0 { assert(vals(c00)[j] == b2i(bit_at(self.value->0.v(), j + 1))); }
      }
    }
  }
#hook loop 1 before
  proof { assert(cs.w() && cs.honest() ==> forall|j: int| 0 <= j < bits@.len() ==> #[trigger] bits@[j].val() == vals(bits@)[j]); }
#hook loop 1 inv
  n1 == bits@.len(), s__1 == bits, bits@.len() == n_bits - 1,
  cs.w() == old(cs).w(), cs.inputs() == old(cs).inputs(),
  cs.nv() == old(cs).nv() + n_bits - 1, cs.nc() == old(cs).nc() + i1, cs.honest() ==> old(cs).honest(), !cs.w() ==> cs.honest() == old(cs).honest(),
  cs.sat() == (old(cs).sat() && forall|j: int| 0 <= j < i1 ==> isb(#[trigger] bits@[j].val())),
  cs.w() && cs.honest() ==> forall|j: int| 0 <= j < bits@.len() ==> #[trigger] bits@[j].val() == b2i(bit_at(self.value->0.v(), j + 1)),
#hook enforce 1 pre
  assert(ea__.val() * eb__.val() == bits@[i1 as int].val() * (1 - bits@[i1 as int].val()));
  assert(ec__.val() == 0);
#hook loop 2 before
  proof { let s = vals(bits@); assert(s.take(0) =~= seq![]); assert(ls(s.take(0), 1) == 0); c_refl(lc.val()); lemma2_to64(); }
#hook loop 2 inv
  n2 == bits@.len(), s__2 == bits, cong(f.v(), pow2(i2 as nat) as int),
  cong(lc.val(), self.num.val() - ls2(vals(bits@).take(i2 as int))),
#hook loop 2 begin
  proof { step2(f.v(), vals(bits@), i2 as int); }
  let ghost lc0 = lc.val();
#hook loop 2 end
  proof { c_add(lc0, self.num.val() - ls2(vals(bits@).take(i2 as int)), f.v() * bits@[i2 as int].val(), ls2(vals(bits@).take(i2 + 1)) - ls2(vals(bits@).take(i2 as int))); }
#hook loop 3 before
  proof { c_refl(lc.val()); lemma2_to64(); }
#hook loop 3 inv
  n3 == bits@.len(), s__3 == bits, cong(f.v(), pow2(i3 as nat) as int),
  cong(lc.val(), 1 - self.num.val() + ls2(vals(bits@).take(i3 as int))),
#hook loop 3 begin
  proof { step2(f.v(), vals(bits@), i3 as int); }
  let ghost lc0 = lc.val();
#hook loop 3 end
  proof { c_add(lc0, 1 - self.num.val() + ls2(vals(bits@).take(i3 as int)), f.v() * bits@[i3 as int].val(), ls2(vals(bits@).take(i3 + 1)) - ls2(vals(bits@).take(i3 as int))); }
#hook enforce 2 pre
  let ghost cs1 = *cs;
  proof {
    let s = vals(bits@);
    assert(s.take(bits@.len() as int) =~= s);
    let x = self.num.val() - ls2(s);
    c_mul(ea__.val(), x, eb__.val(), 1 - x);
    if cong(ea__.val() * eb__.val(), 0) { c_sym(ea__.val() * eb__.val(), x * (1 - x)); c_trans(x * (1 - x), ea__.val() * eb__.val(), 0); }
    if isb(x) { c_trans(ea__.val() * eb__.val(), x * (1 - x), 0); }
    if cs.sat() && isb(x) {
      assert forall|j: int| 0 <= j < s.len() implies isb(#[trigger] s[j]) by { assert(isb(bits@[j].val())); }
      bits_sound(self.num.val(), s, n_bits as nat);
    }
    if old(cs).w() && old(cs).sat() && cs.honest() && self.hon() && self.value->0.v() < pow2(n_bits as nat) {
      bits_complete(self.num.val(), self.value->0.v(), s, n_bits as nat);
      assert forall|j: int| 0 <= j < bits@.len() implies isb(#[trigger] bits@[j].val()) by { assert(isb(s[j])); }
    }
  }
#fn Num::alloc
#requires
  old(cs).w() ==> value is Some,
#ensures
  kept(*old(cs), *final(cs)), final(cs).sat() == old(cs).sat(), final(cs).nc() == old(cs).nc(),
  res is Ok ==> final(cs).nv() == old(cs).nv() + 1 && 0 <= res->Ok_0.num.val() < P() && res->Ok_0.num.val() == gvar(old(cs).nv()),
  old(cs).w() && value->0 is Err ==> res is Err,
  old(cs).w() && value->0 is Ok ==> res is Ok && res->Ok_0.value == Some(value->0->Ok_0) && final(cs).honest() == (old(cs).honest() && res->Ok_0.num.val() == value->0->Ok_0.v()),
  old(cs).w() && value->0 is Ok && final(cs).honest() ==> res->Ok_0.hon(),
  !old(cs).w() ==> res is Ok && res->Ok_0.value is None && final(cs).honest() == old(cs).honest(),
#hook entry
#hook ret
  proof { if r__ is Ok { c_refl(r__->Ok_0.num.val()); } }
#fn Num::is_equal
#ensures
  kept(*old(cs), *final(cs)), res is Ok, final(cs).nv() == old(cs).nv(), final(cs).nc() == old(cs).nc() + 1, final(cs).honest() == old(cs).honest(),
  final(cs).sat() == (old(cs).sat() && cong(self.num.val(), ls(lcs(other.bits@), 1))),
#hook loop 0 before
  proof { assert(lcs(other.bits@).take(0) =~= seq![]); lemma2_to64(); c_refl(0); c_refl(1); }
#hook loop 0 inv
  n0 == other.bits@.len(), s__0 == other.bits, cong(f.v(), pow2(i0 as nat) as int), cong(f0.val(), ls(lcs(other.bits@).take(i0 as int), 1)),
#hook loop 0 begin
  let ghost l0 = f0.val();
  proof { step1(f.v(), lcs(other.bits@), i0 as int); c_add(l0, ls(lcs(other.bits@).take(i0 as int), 1), f.v() * other.bits@[i0 as int].val(), lcs(other.bits@)[i0 as int] * pow2(i0 as nat)); }
#hook enforce 0 pre
  proof { let s = lcs(other.bits@); assert(s.take(other.bits@.len() as int) =~= s); c_refl(self.num.val());
    c_add(self.num.val(), self.num.val(), sum.val(), ls(s, 1));
    assert(ea__.val() * eb__.val() == self.num.val() - sum.val()) by (nonlinear_arith) requires ea__.val() == self.num.val() - sum.val(), eb__.val() == 1;
    c_flip(self.num.val(), sum.val()); c_flip(self.num.val(), ls(s, 1)); c_flip(sum.val(), ls(s, 1));
    if cong(self.num.val(), sum.val()) { c_trans(self.num.val(), sum.val(), ls(s, 1)); }
    if cong(self.num.val(), ls(s, 1)) { c_trans(self.num.val(), ls(s, 1), sum.val()); }
  }
#rs
proof fn step1(f: int, s: Seq<int>, i: int)
    requires cong(f, pow2(i as nat) as int), 0 <= i < s.len(),
    ensures cong((2 * f) % P(), pow2((i + 1) as nat) as int), cong(f * s[i], s[i] * pow2(i as nat)), ls(s.take(i + 1), 1) == ls(s.take(i), 1) + s[i] * pow2(i as nat),
{
    p2(i as nat);
    c_refl(2); c_mul(2, 2, f, pow2(i as nat) as int);
    c_mod(2 * f); c_trans((2 * f) % P(), 2 * f, pow2((i + 1) as nat) as int);
    c_refl(s[i]); c_mul(f, pow2(i as nat) as int, s[i], s[i]);
    ls_take(s, i, 1);
    assert(1 * (i as nat) == i);
    assert(pow2(i as nat) * s[i] == s[i] * pow2(i as nat)) by (nonlinear_arith);
}
/// the digits of v in base 2 are its bits
proof fn digs_bits(v: int, s: Seq<int>)
    requires v >= 0, forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] == b2i(bit_at(v, j)),
    ensures ls(s, 1) == v % (pow2(s.len()) as int), all_in(s, 2),
{
    lemma2_to64();
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] == digs(v, s.len(), 1)[j] by {
        assert(1 * (j as nat) == j);
        lemma_mod_bound(v / (pow2(j as nat) as int), 2);
    }
    assert(s =~= digs(v, s.len(), 1));
    ls_digs(v, s.len(), 1);
    assert(1 * s.len() == s.len());
}
impl Bitvector {
    /// the number its bits spell in this assignment
    pub open spec fn iv(self) -> int { ls(lcs(self.bits@), 1) }
    /// each wire is 0 or 1, exactly
    pub open spec fn bin01(self) -> bool { all_in(lcs(self.bits@), 2) }
}
pub open spec fn bit_vals(vs: Seq<bool>, v: int) -> bool { forall|j: int| 0 <= j < vs.len() ==> #[trigger] vs[j] == bit_at(v, j) }
pub open spec fn wire_bits(s: Seq<int>, v: int) -> bool { forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] == b2i(bit_at(v, j)) }
#fn Num::decompose
#requires
  n_bits <= CAP() + 1, old(cs).w() ==> self.value is Some,
#ensures
  kept(*old(cs), *final(cs)), res is Ok,
  final(cs).nv() == old(cs).nv() + n_bits, final(cs).nc() == old(cs).nc() + n_bits + 1,
  !old(cs).w() ==> final(cs).honest() == old(cs).honest(),
  ({
    let r = res->Ok_0;
    // shape and witness values: the binary digits
    &&& r.inv() && r.bits@.len() == n_bits && r.allocations@.len() == n_bits && (r.values is Some) == (self.values_some())
    &&& (r.values is Some ==> bit_vals(r.values->0@, self.value->0.v()))
    // every satisfying assignment: bits that spell the number
    &&& (final(cs).sat() ==> r.bin01() && cong(self.num.val(), r.iv()) && 0 <= r.iv() < pow2(n_bits as nat))
    &&& (final(cs).sat() && n_bits <= CAP() ==> self.v() == r.iv())
    // the prover's bits
    &&& (old(cs).w() && final(cs).honest() ==> r.hon() && wire_bits(lcs(r.bits@), self.value->0.v()))
    &&& (old(cs).w() && final(cs).honest() && old(cs).sat() && self.hon() && self.value->0.v() < pow2(n_bits as nat) ==> final(cs).sat())
  }),
#hook entry
  proof { ax_P(); c_refl(0); c_refl(1); c_isb(); }
#hook loop 0 inv
  n0 == n_bits, lo__0 == 0, c0@.len() == i0, n_bits <= CAP() + 1, CAP() < 0x1000_0000, num == *v, bit_vals(c0@, v.v()),
#hook loop 1 inv
  n1 == n_bits, lo__1 == 0, c1@.len() == i1, n_bits <= CAP() + 1, (values is Some) == (self.value is Some), old(cs).w() ==> self.value is Some,
  values is Some ==> values->0@.len() == n_bits && bit_vals(values->0@, self.value->0.v()),
  kept(*old(cs), *cs), !cs.w() ==> cs.honest() == old(cs).honest(),
  cs.nv() == old(cs).nv() + i1, cs.nc() == old(cs).nc() + i1,
  cs.sat() ==> all_in(bitsv(c1@), 2),
  cs.w() && cs.honest() && old(cs).sat() ==> cs.sat(),
  cs.w() && cs.honest() ==> wire_bits(bitsv(c1@), self.value->0.v()),
#hook loop 1 begin
  let ghost c10 = c1@;
#hook loop 1 end
  proof {
    if cs.sat() { assert(all_in(bitsv(c10), 2)); assert forall|j: int| 0 <= j < c1@.len() implies 0 <= #[trigger] bitsv(c1@)[j] < 2 by { if j < i1 { assert(bitsv(c1@)[j] == bitsv(c10)[j]); } } }
    if cs.w() && cs.honest() {
      assert(wire_bits(bitsv(c10), self.value->0.v()));
      assert forall|j: int| 0 <= j < c1@.len() implies #[trigger] bitsv(c1@)[j] == b2i(bit_at(self.value->0.v(), j)) by { if j < i1 { assert(bitsv(c1@)[j] == bitsv(c10)[j]); } }
    }
  }
#hook loop 2 before
  let ghost al = bitsv(allocations@);
  proof { assert(al.take(0) =~= seq![]); lemma2_to64(); }
#hook loop 2 inv
  n2 == allocations@.len(), s__2 == allocations, al == bitsv(allocations@), cong(f.v(), pow2(i2 as nat) as int), cong(f2.val(), ls(al.take(i2 as int), 1)),
#hook loop 2 begin
  let ghost l0 = f2.val();
  proof { step1(f.v(), al, i2 as int); c_add(l0, ls(al.take(i2 as int), 1), f.v() * allocations@[i2 as int].bit.val(), al[i2 as int] * pow2(i2 as nat)); }
#hook enforce 0 pre
  let ghost al = bitsv(allocations@);
  proof { assert(al.take(allocations@.len() as int) =~= al); c_refl(self.num.val());
    c_add(self.num.val(), self.num.val(), sum.val(), ls(al, 1));
    assert(ea__.val() * eb__.val() == self.num.val() - sum.val()) by (nonlinear_arith) requires ea__.val() == self.num.val() - sum.val(), eb__.val() == 1;
    c_flip(self.num.val(), sum.val()); c_flip(self.num.val(), ls(al, 1)); c_flip(sum.val(), ls(al, 1));
    if cong(self.num.val(), sum.val()) { c_trans(self.num.val(), sum.val(), ls(al, 1)); }
    if cong(self.num.val(), ls(al, 1)) { c_trans(self.num.val(), ls(al, 1), sum.val()); }
    if cs.sat() { lemma2_to64(); ls_bound(al, 1); if n_bits <= CAP() { p2_mono(n_bits as nat, CAP()); if cong(self.num.val(), ls(al, 1)) { c_mod_eq(self.num.val(), ls(al, 1)); c_small(ls(al, 1)); } } }
    if cs.w() && cs.honest() {
      digs_bits(self.value->0.v(), al);
      if self.value->0.v() < pow2(n_bits as nat) { lemma_small_mod(self.value->0.v() as nat, pow2(n_bits as nat)); }
    }
  }
#hook enforce 0
  let ghost al = bitsv(allocations@);
#hook loop 3 inv
  n3 == allocations@.len(), s__3 == allocations, c3@.len() == i3, lcs(c3@) =~= bitsv(allocations@).take(i3 as int),
#hook ret
  proof {
    assert(lcs(bits@) =~= al);
    if old(cs).w() && cs.honest() {
      assert forall|i: int| 0 <= i < bits@.len() implies cong(#[trigger] bits@[i].val(), b2i(values->0@[i])) by { assert(lcs(bits@)[i] == al[i]); c_refl(al[i]); }
    }
  }
#rs
impl Num { pub open spec fn values_some(self) -> bool { self.value is Some } }
#fn Num::as_sapling_allocated_num
#requires
  old(cs).w() ==> self.value is Some,
#ensures
  kept(*old(cs), *final(cs)), res is Ok,
  final(cs).nv() == old(cs).nv() + 1, final(cs).nc() == old(cs).nc() + 1,
  // the new variable is the number, in exactly the assignments that satisfy the constraints
  final(cs).sat() == (old(cs).sat() && cong(res->Ok_0.var().val(), self.num.val())),
  final(cs).sat() ==> res->Ok_0.var().val() == self.v(),
  old(cs).w() ==> res->Ok_0.value() == self.value,
  !old(cs).w() ==> res->Ok_0.value() is None && final(cs).honest() == old(cs).honest(),
  final(cs).honest() ==> res->Ok_0.hon(),
  old(cs).w() && final(cs).honest() && old(cs).sat() && self.hon() ==> final(cs).sat(),
#hook entry
#hook enforce 0 pre
  proof { c_flip(new.var().val(), self.num.val()); assert(ea__.val() * eb__.val() == 0) by (nonlinear_arith) requires ea__.val() == 0;
    c_flip(self.num.val(), new.var().val());
    if cong(new.var().val(), self.num.val()) { c_mod_eq(new.var().val(), self.num.val()); c_small(new.var().val()); } }
#fn Num as From<AllocatedNum>::from
#impl impl TFrom<AllocatedNum> for Num
#as tfrom
#items
  open spec fn from_ok(a: AllocatedNum) -> bool { true }
  open spec fn from_sp(a: AllocatedNum, o: Num) -> bool { o.num.val() == a.var().val() && o.value == a.value() && (a.hon() ==> o.hon()) }
#hook entry
  proof { c_refl(a.var().val()); }
