// What the abstract functions of spec/c_deps.rs are on bellpepper's types, and the contracts of
// the functions that the ones listed there call.
//= AllocatedNum::var self.variable
//= AllocatedNum::value self.value
//= AllocatedBit::var self.variable
//= AllocatedBit::value self.value
//= Boolean::lcv match self { Boolean::Is(b) => b.variable.val(), Boolean::Not(b) => 1 - b.variable.val(), Boolean::Constant(c) => b2i(c) }
//= Boolean::value match self { Boolean::Is(b) => b.value, Boolean::Not(b) => match b.value { Some(x) => Some(!x), None => None }, Boolean::Constant(c) => Some(c) }
//= Boolean::is_const self is Constant
//= BpNum::lcv self.lc.val()
//= BpNum::value self.value
#rs
impl TCmp for bool {
    open spec fn eq_sp(&self, o: &Self) -> bool { *self == *o }
    open spec fn lt_sp(&self, o: &Self) -> bool { !*self && *o }
    fn teq(&self, o: &Self) -> bool { *self == *o }
    fn tlt(&self, o: &Self) -> bool { !*self && *o }
    fn tle(&self, o: &Self) -> bool { !*self || *o }
    fn tcmp(&self, o: &Self) -> Ordering { if *self == *o { Ordering::Equal } else if *o { Ordering::Less } else { Ordering::Greater } }
}
impl TAnd<bool> for bool { type O = bool; open spec fn and_ok(self, r: bool) -> bool { true } open spec fn and_sp(self, r: bool, o: bool) -> bool { o == (self && r) } fn tand(self, r: bool) -> (o: bool) { self && r } }
proof fn p_bits()
    ensures forall|v: Var, b: bool| #[trigger] cong(v.val(), b2i(b)) == (v.val() == b2i(b)),
        forall|v: Var, b: bool| #[trigger] cong(1 - v.val(), b2i(b)) == (v.val() == 1 - b2i(b)),
{
    ax_P();
    assert forall|v: Var, b: bool| #[trigger] cong(v.val(), b2i(b)) == (v.val() == b2i(b)) by {
        c_refl(b2i(b)); if cong(v.val(), b2i(b)) { c_eq(v.val(), b2i(b)); }
    }
    assert forall|v: Var, b: bool| #[trigger] cong(1 - v.val(), b2i(b)) == (v.val() == 1 - b2i(b)) by {
        c_refl(1); c_refl(v.val()); c_refl(b2i(b));
        if cong(1 - v.val(), b2i(b)) { c_add(1, 1, 1 - v.val(), b2i(b)); c_eq(v.val(), 1 - b2i(b)); }
    }
}
proof fn p_and(a: int, b: int)
    ensures a == 0 || b == 0 ==> a * b == 0, a == 1 ==> a * b == b, b == 1 ==> a * b == a, a * b == b * a, cong(a, a), cong(b, b), cong(0, 0),
{
    c_refl(a); c_refl(b); c_refl(0);
    assert(a == 0 || b == 0 ==> a * b == 0) by (nonlinear_arith);
    assert(a == 1 ==> a * b == b) by (nonlinear_arith);
    assert(b == 1 ==> a * b == a) by (nonlinear_arith);
    assert(a * b == b * a) by (nonlinear_arith);
}
#fn Boolean::and
#hook entry
  proof { p_bits(); p_and(a.lcv(), b.lcv()); }
#fn Boolean::or
#hook entry
  proof { p_bits(); c_refl(0); c_refl(1);
    if a.hon() && a.value() is Some { c_add(1, 1, a.lcv(), b2i(a.value()->0)); }
    if b.hon() && b.value() is Some { c_add(1, 1, b.lcv(), b2i(b.value()->0)); } }
#hook ret
  proof { if r__ is Ok && r__->Ok_0.value() is Some { let x = r__->Ok_0.lcv(); let v = b2i(r__->Ok_0.value()->0);
    if cong(x, v) { c_add(1, 1, x, v); }
    if cong(1 - x, 1 - v) { c_add(1, 1, 1 - x, 1 - v); } } }
#fn Boolean::enforce_equal
#hook entry
  proof { c_refl(0); c_refl(1); c_flip(a.lcv(), b.lcv()); c_flip(b.lcv(), a.lcv()); c_flip(1, 0); p_and(0, 0);
    ax_P(); if cong(1, 0) { c_eq(1, 0); } if cong(0, 1) { c_eq(0, 1); } }
#fn Boolean::lc
#hook entry
  proof { let k = coeff.v(); let s = self.lcv();
    assert(s == 0 ==> k * s == 0) by (nonlinear_arith); assert(s == 1 ==> k * s == k) by (nonlinear_arith);
    assert(k * (1 - s) == k - k * s) by (nonlinear_arith); assert(k * (1 - (1 - s)) == k - k * (1 - s)) by (nonlinear_arith); }
#fn BpNum::lc
#hook entry
  proof { let k = coeff.v(); assert(k * 1 == k) by (nonlinear_arith); }
#fn BpNum::add_bool_with_coeff
#hook entry
  proof { if self.value is Some { c_small(self.value->0.v()); } }
#fn AllocatedBit::and
#ret r
#ensures
  kept(*old(cs), *final(cs)),
  r is Ok ==> final(cs).sat() == (old(cs).sat() && cong(a.var().val() * b.var().val(), r->Ok_0.var().val())),
  old(cs).w() && a.value() is Some && b.value() is Some ==> r is Ok && r->Ok_0.value() == Some(a.value()->0 && b.value()->0)
      && final(cs).honest() == (old(cs).honest() && r->Ok_0.var().val() == b2i(r->Ok_0.value()->0)),
  !old(cs).w() ==> r is Ok && r->Ok_0.value() is None && final(cs).honest() == old(cs).honest(),
#fn AllocatedBit::and_not
#ret r
#ensures
  kept(*old(cs), *final(cs)),
  r is Ok ==> final(cs).sat() == (old(cs).sat() && cong(a.var().val() * (1 - b.var().val()), r->Ok_0.var().val())),
  old(cs).w() && a.value() is Some && b.value() is Some ==> r is Ok && r->Ok_0.value() == Some(a.value()->0 && !b.value()->0)
      && final(cs).honest() == (old(cs).honest() && r->Ok_0.var().val() == b2i(r->Ok_0.value()->0)),
  !old(cs).w() ==> r is Ok && r->Ok_0.value() is None && final(cs).honest() == old(cs).honest(),
#fn AllocatedBit::nor
#ret r
#ensures
  kept(*old(cs), *final(cs)),
  r is Ok ==> final(cs).sat() == (old(cs).sat() && cong((1 - a.var().val()) * (1 - b.var().val()), r->Ok_0.var().val())),
  old(cs).w() && a.value() is Some && b.value() is Some ==> r is Ok && r->Ok_0.value() == Some(!a.value()->0 && !b.value()->0)
      && final(cs).honest() == (old(cs).honest() && r->Ok_0.var().val() == b2i(r->Ok_0.value()->0)),
  !old(cs).w() ==> r is Ok && r->Ok_0.value() is None && final(cs).honest() == old(cs).honest(),
#fn Boolean::not
#ret r
#ensures
  r.lcv() == 1 - self.lcv(), r.is_const() == self.is_const(),
  r.value() == (match self.value() { Some(b) => Some(!b), None => None }),
