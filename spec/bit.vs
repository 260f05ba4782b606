#rs
impl Bit {
    pub open spec fn hon(self) -> bool { self.value is Some ==> cong(self.bit.val(), b2i(self.value->0)) }
    /// 0 or 1 in this assignment
    pub open spec fn bin(self) -> bool { isb(self.bit.val()) }
}
pub open spec fn rev<T>(s: Seq<T>) -> Seq<T> { s.reverse() }
impl Bitvector {
    /// as many witness values as bits
    pub open spec fn inv(self) -> bool { self.values is Some ==> self.values->0@.len() == self.bits@.len() }
    pub open spec fn hon(self) -> bool { self.values is Some ==> forall|i: int| 0 <= i < self.bits@.len() ==> cong(#[trigger] self.bits@[i].val(), b2i(self.values->0@[i])) }
    pub open spec fn bin(self) -> bool { forall|i: int| 0 <= i < self.bits@.len() ==> isb(#[trigger] self.bits@[i].val()) }
}
pub open spec fn bitsv(s: Seq<Bit>) -> Seq<int> { s.map_values(|b: Bit| b.bit.val()) }
pub open spec fn all_vals(s: Seq<Bit>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).value is Some }
#fn Bit::new
#ensures
  res.bit == bit, res.value == value,
#fn Bit::alloc
#requires
  old(cs).w() ==> value is Some,
#ensures
  kept(*old(cs), *final(cs)), res is Ok,
  final(cs).nv() == old(cs).nv() + 1, final(cs).nc() == old(cs).nc() + 1,
  res->Ok_0.value == value,
  // it is boolean in every satisfying assignment
  final(cs).sat() == (old(cs).sat() && isb(res->Ok_0.bit.val())),
  final(cs).sat() ==> res->Ok_0.bin() && (res->Ok_0.bit.val() == 0 || res->Ok_0.bit.val() == 1),
  // the prover's bit is accepted, and is the value given
  old(cs).w() && final(cs).honest() ==> res->Ok_0.bit.val() == b2i(value->0),
  old(cs).w() && final(cs).honest() && old(cs).sat() ==> final(cs).sat(),
  final(cs).honest() && old(cs).w() ==> res->Ok_0.hon(),
  !old(cs).w() ==> final(cs).honest() == old(cs).honest(),
#hook entry
  proof { ax_P(); c_refl(0); c_refl(1); c_isb(); }
#hook enforce 0 pre
  proof {
    let x = var.val();
    if ea__.val() == 1 - x && eb__.val() == x { assert(ea__.val() * eb__.val() == x * (1 - x)) by (nonlinear_arith) requires ea__.val() == 1 - x, eb__.val() == x; }
    if isb(x) { c_bool(x); c_small(x); }
  }
#fn Bit::constrain_value
#ensures
  kept(*old(cs), *final(cs)), final(cs).honest() == old(cs).honest(), final(cs).nv() == old(cs).nv(), final(cs).nc() == old(cs).nc() + 1,
  // exactly the assignments that give it the value
  final(cs).sat() == (old(cs).sat() && cong(self.bit.val(), b2i(value))),
#hook enforce 0 pre
  proof { c_flip(self.bit.val(), b2i(value)); assert(ea__.val() * eb__.val() == 0) by (nonlinear_arith) requires ea__.val() == 0; }
#fn Bit::new_false
#ensures
  res.bit.val() == 0, res.value == Some(false), res.hon(), res.bin(),
#hook entry
  proof { c_refl(0); }
#fn Bit::new_true
#ensures
  res.bit.val() == 1, res.value == Some(true), res.hon(), res.bin(),
#hook entry
  proof { c_refl(0); c_refl(1); }
#fn Bit::new_value
#ensures
  res.bit.val() == b2i(v), res.value == Some(v), res.hon(), res.bin(),
#fn Bit::not
#ensures
  res.bit.val() == 1 - self.bit.val(),
  self.value is Some ==> res.value == Some(!self.value->0),
  self.value is None ==> res.value is None,
  self.hon() ==> res.hon(), self.bin() ==> res.bin(),
#hook entry
  proof {
    c_refl(1);
    if self.hon() && self.value is Some { c_add(1, 1, self.bit.val(), b2i(self.value->0)); }
    let x = self.bit.val();
    assert((1 - x) * (1 - (1 - x)) == x * (1 - x)) by (nonlinear_arith);
  }
#fn Bit::from_sapling
#ensures
  res.bit.val() == b.lcv(), res.value == b.value(), b.hon() ==> res.hon(),
#fn Bitvector::reversed
#requires
  self.inv(),
#ensures
  res.inv(), res.bits@ == self.bits@.reverse(), (res.values is Some) == (self.values is Some),
  self.values is Some ==> res.values->0@ == self.values->0@.reverse(),
#fn Bitvector::truncate
#requires
  self.inv(),
#ensures
  res.inv(), res.bits@ == (if n < self.bits@.len() { self.bits@.take(n as int) } else { self.bits@ }), (res.values is Some) == (self.values is Some),
  self.values is Some ==> res.values->0@ == (if n < self.bits@.len() { self.values->0@.take(n as int) } else { self.values->0@ }),
#fn Bitvector::get
#requires
  self.inv(),
#ensures
  (res is Some) == (i < self.bits@.len()),
  res is Some ==> res->0.bit == self.bits@[i as int] && (res->0.value is Some) == (self.values is Some),
  res is Some && self.values is Some ==> res->0.value->0 == self.values->0@[i as int],
#fn Bitvector::shr
#requires
  self.inv(), i <= self.bits@.len(),
#ensures
  res.inv(), res.bits@ == self.bits@.skip(i as int), (res.values is Some) == (self.values is Some),
  self.values is Some ==> res.values->0@ == self.values->0@.skip(i as int),
#hook ret
  proof { assert(self.bits@.take(0) + self.bits@.skip(i as int) =~= self.bits@.skip(i as int));
    if self.values is Some { assert(self.values->0@.take(0) + self.values->0@.skip(i as int) =~= self.values->0@.skip(i as int)); } }
#fn Bitvector::shl
#requires
  self.inv(), self.bits@.len() + i <= usize::MAX,
#ensures
  res.inv(), res.bits@.len() == i + self.bits@.len(), res.bits@.skip(i as int) == self.bits@, (res.values is Some) == (self.values is Some),
  forall|j: int| 0 <= j < i ==> #[trigger] res.bits@[j].val() == 0,
  self.values is Some ==> res.values->0@.skip(i as int) == self.values->0@ && (forall|j: int| 0 <= j < i ==> #[trigger] res.values->0@[j] == false),
#hook loop 0 inv
  n0 == i, c0@.len() == i0, c0@ =~= Seq::new(i0 as nat, |j: int| false),
#hook loop 1 inv
  n1 == i, c1@.len() == i1, zeros(c1@),
#hook ret
  proof { assert(r__.bits@.skip(i as int) =~= self.bits@);
     if self.values is Some { assert(r__.values->0@.skip(i as int) =~= self.values->0@); } }
#rs
pub open spec fn zeros(s: Seq<Lc>) -> bool { forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j].val() == 0 }
#fn Bitvector::pop
#requires
  old(self).inv(),
#ensures
  final(self).inv(), (res is None) == (old(self).bits@.len() == 0), res is None ==> *final(self) == *old(self),
  (final(self).values is Some) == (old(self).values is Some),
  res is Some ==> final(self).bits@ == old(self).bits@.drop_last() && res->0.bit == old(self).bits@.last(),
  res is Some && old(self).values is Some ==> res->0.value == Some(old(self).values->0@.last()) && final(self).values->0@ == old(self).values->0@.drop_last(),
  res is Some && old(self).values is None ==> res->0.value is None,
#fn Bitvector::push
#requires
  old(self).inv(),
#ensures
  final(self).inv(), final(self).bits@ == old(self).bits@.push(b.bit), (final(self).values is Some) == (old(self).values is Some && b.value is Some),
  final(self).values is Some ==> final(self).values->0@ == old(self).values->0@.push(b.value->0),
#fn Bitvector::insert
#requires
  old(self).inv(), i <= old(self).bits@.len(),
#ensures
  final(self).inv(), final(self).bits@ == old(self).bits@.insert(i as int, b.bit), (final(self).values is Some) == (old(self).values is Some && b.value is Some),
  final(self).values is Some ==> final(self).values->0@ == old(self).values->0@.insert(i as int, b.value->0),
#fn Bitvector::append
#requires
  old(self).inv(), other.inv(),
#ensures
  final(self).inv(), final(self).bits@ == old(self).bits@ + other.bits@, (final(self).values is Some) == (old(self).values is Some && other.values is Some),
  final(self).values is Some ==> final(self).values->0@ == old(self).values->0@ + other.values->0@,
#hook loop 0 inv
  n0 == s__0@.len(), s__0 == old_other.bits, self.bits@ == old(self).bits@ + s__0@.take(i0 as int), self.values == old(self).values,
#hook loop 0 before
  let ghost old_other = other;
#hook loop 1 inv
  n1 == s__1@.len(), vs@ == old(self).values->0@ + s__1@.take(i1 as int),
#hook loop 0 end
  proof { assert(s__0@.take(i0 + 1) =~= s__0@.take(i0 as int).push(s__0@[i0 as int])); }
#hook loop 1 end
  proof { assert(s__1@.take(i1 + 1) =~= s__1@.take(i1 as int).push(s__1@[i1 as int])); }
#hook loop 0 after
  proof { assert(s__0@.take(i0 as int) =~= s__0@); }
#hook loop 1 after
  proof { assert(s__1@.take(i1 as int) =~= s__1@); }
#fn Bitvector::into_bits
#requires
  self.inv(),
#ensures
  res@.len() == self.bits@.len(),
  forall|i: int| 0 <= i < res@.len() ==> (#[trigger] res@[i]).bit == self.bits@[i] && res@[i].value == (if self.values is Some { Some(self.values->0@[i]) } else { None }),
#hook loop 0 inv
  n0 == self.bits@.len(), s__0 == self.bits, vs == self.values, c0@.len() == i0, self.inv(), is_bits_of(c0@, self, i0 as int),
#rs
pub open spec fn is_bits_of(s: Seq<Bit>, b: Bitvector, n: int) -> bool {
    s.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).bit == b.bits@[i] && s[i].value == (if b.values is Some { Some(b.values->0@[i]) } else { None })
}
#fn Bitvector::from_bits
#ensures
  res.inv(), res.bits@.len() == bs@.len(), (res.values is Some) == all_vals(bs@), res.allocations == bs,
  forall|i: int| 0 <= i < bs@.len() ==> #[trigger] res.bits@[i] == bs@[i].bit,
  res.values is Some ==> forall|i: int| 0 <= i < bs@.len() ==> #[trigger] res.values->0@[i] == bs@[i].value->0,
#hook loop 0 inv
  n0 == bs@.len(), s__0 == bs, bits@.len() == i0, values is Some ==> values->0@.len() == i0,
  forall|i: int| 0 <= i < i0 ==> #[trigger] bits@[i] == bs@[i].bit,
  values is Some ==> forall|i: int| 0 <= i < i0 ==> #[trigger] values->0@[i] == bs@[i].value->0,
  (values is Some) == all_vals(bs@.take(i0 as int)),
#hook loop 0 end
  proof { let t = bs@.take(i0 + 1); assert(t[i0 as int] == bs@[i0 as int]); assert(forall|j: int| 0 <= j < i0 ==> t[j] == bs@.take(i0 as int)[j]);
    if all_vals(t) { assert forall|j: int| 0 <= j < i0 implies (#[trigger] bs@.take(i0 as int)[j]).value is Some by { assert(t[j].value is Some); } } }
#hook loop 0 after
  proof { assert(bs@.take(i0 as int) =~= bs@); }
