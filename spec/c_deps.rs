// Contracts assumed of bellpepper's gadgets (trusted: read off their source).
verus! {
/// Nothing but constraints and variables was added.
pub open spec fn kept(o: Cs, n: Cs) -> bool {
    n.w() == o.w() && n.inputs() == o.inputs() && n.nv() >= o.nv() && n.nc() >= o.nc()
        && (n.honest() ==> o.honest()) && (n.sat() ==> o.sat())
}
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }

#[verifier::external_body]
pub struct AllocatedNum { x: u64 }
impl AllocatedNum {
    pub uninterp spec fn var(self) -> Var;
    pub uninterp spec fn value(self) -> Option<Scalar>;
    /// the value the prover knows is the variable's
    pub open spec fn hon(self) -> bool { self.value() is Some ==> self.var().val() == self.value()->0.v() }
    #[verifier::external_body]
    pub fn alloc(cs: &mut Cs, value: Option<Result<Scalar, SynthesisError>>) -> (r: Result<AllocatedNum, SynthesisError>)
        requires old(cs).w() ==> value is Some,
        ensures kept(*old(cs), *final(cs)), final(cs).sat() == old(cs).sat(), final(cs).nc() == old(cs).nc(),
            r is Ok ==> final(cs).nv() == old(cs).nv() + 1 && r->Ok_0.var().val() == gvar(old(cs).nv()),
            old(cs).w() && value->0 is Err ==> r is Err,
            old(cs).w() && value->0 is Ok ==> r is Ok && r->Ok_0.value() == Some(value->0->Ok_0) && final(cs).honest() == (old(cs).honest() && r->Ok_0.var().val() == value->0->Ok_0.v()),
            !old(cs).w() ==> r is Ok && r->Ok_0.value() is None && final(cs).honest() == old(cs).honest(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_value(&self) -> (r: Option<Scalar>) ensures r == self.value() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_variable(&self) -> (r: Var) ensures r == self.var() { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&self, cs: &mut Cs, other: &AllocatedNum) -> (r: Result<AllocatedNum, SynthesisError>)
        ensures kept(*old(cs), *final(cs)),
            r is Ok ==> final(cs).nv() == old(cs).nv() + 1 && final(cs).nc() == old(cs).nc() + 1,
            r is Ok ==> final(cs).sat() == (old(cs).sat() && cong(self.var().val() + other.var().val(), r->Ok_0.var().val())),
            old(cs).w() && self.value() is Some && other.value() is Some ==> r is Ok && r->Ok_0.value() is Some
                && r->Ok_0.value()->0.v() == (self.value()->0.v() + other.value()->0.v()) % P() && final(cs).honest() == (old(cs).honest() && r->Ok_0.var().val() == r->Ok_0.value()->0.v()),
            !old(cs).w() ==> r is Ok && r->Ok_0.value() is None && final(cs).honest() == old(cs).honest(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn conditionally_reverse(cs: &mut Cs, a: &AllocatedNum, b: &AllocatedNum, condition: &Boolean) -> (r: Result<(AllocatedNum, AllocatedNum), SynthesisError>)
        ensures kept(*old(cs), *final(cs)),
            r is Ok ==> final(cs).nv() == old(cs).nv() + 2 && final(cs).nc() == old(cs).nc() + 2,
            r is Ok ==> final(cs).sat() == (old(cs).sat() && cong((a.var().val() - b.var().val()) * condition.lcv(), a.var().val() - r->Ok_0.0.var().val())
                && cong((b.var().val() - a.var().val()) * condition.lcv(), b.var().val() - r->Ok_0.1.var().val())),
            old(cs).w() && a.value() is Some && b.value() is Some && condition.value() is Some ==> r is Ok
                && r->Ok_0.0.value() == (if condition.value()->0 { b.value() } else { a.value() }) && r->Ok_0.1.value() == (if condition.value()->0 { a.value() } else { b.value() })
                && final(cs).honest() == (old(cs).honest() && r->Ok_0.0.var().val() == r->Ok_0.0.value()->0.v() && r->Ok_0.1.var().val() == r->Ok_0.1.value()->0.v()),
            !old(cs).w() ==> r is Ok && r->Ok_0.0.value() is None && r->Ok_0.1.value() is None && final(cs).honest() == old(cs).honest(),
    { unimplemented!() }
}
impl Cl for AllocatedNum { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }

#[verifier::external_body]
pub struct AllocatedBit { x: u64 }
impl AllocatedBit {
    pub uninterp spec fn var(self) -> Var;
    pub uninterp spec fn value(self) -> Option<bool>;
    #[verifier::external_body]
    pub fn get_value(&self) -> (r: Option<bool>) ensures r == self.value() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_variable(&self) -> (r: Var) ensures r == self.var() { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc(cs: &mut Cs, value: Option<bool>) -> (r: Result<AllocatedBit, SynthesisError>)
        ensures kept(*old(cs), *final(cs)),
            r is Ok ==> final(cs).nv() == old(cs).nv() + 1 && final(cs).nc() == old(cs).nc() + 1 && r->Ok_0.value() == value,
            r is Ok ==> final(cs).sat() == (old(cs).sat() && cong((1 - r->Ok_0.var().val()) * r->Ok_0.var().val(), 0)),
            old(cs).w() && value is None ==> r is Err,
            old(cs).w() && value is Some ==> r is Ok && final(cs).honest() == (old(cs).honest() && r->Ok_0.var().val() == b2i(value->0)),
            !old(cs).w() ==> r is Ok && final(cs).honest() == old(cs).honest(),
    { unimplemented!() }
}
impl Cl for AllocatedBit { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
/// An allocated bit, its negation or a constant.
#[verifier::external_body]
pub struct Boolean { x: u64 }
impl Boolean {
    /// the value of its linear combination with coefficient one
    pub uninterp spec fn lcv(self) -> int;
    pub uninterp spec fn value(self) -> Option<bool>;
    pub uninterp spec fn is_const(self) -> bool;
    pub open spec fn hon(self) -> bool { self.value() is Some ==> cong(self.lcv(), b2i(self.value()->0)) }
    /// it is 0 or 1
    pub open spec fn bin(self) -> bool { cong(self.lcv(), 0) || cong(self.lcv(), 1) }
    /// true in this assignment
    pub open spec fn tru(self) -> bool { cong(self.lcv(), 1) }
    #[verifier::external_body]
    pub fn get_value(&self) -> (r: Option<bool>) ensures r == self.value() { unimplemented!() }
    #[verifier::external_body]
    pub fn lc(&self, one: Var, coeff: Scalar) -> (r: Lc) requires one.val() == 1 ensures r.val() == coeff.v() * self.lcv() { unimplemented!() }
    #[verifier::external_body]
    pub fn Constant(b: bool) -> (r: Boolean) ensures r.lcv() == b2i(b), r.value() == Some(b), r.is_const() { unimplemented!() }
    #[verifier::external_body]
    pub fn constant(b: bool) -> (r: Boolean) ensures r.lcv() == b2i(b), r.value() == Some(b), r.is_const() { unimplemented!() }
    #[verifier::external_body]
    pub fn and(cs: &mut Cs, a: &Boolean, b: &Boolean) -> (r: Result<Boolean, SynthesisError>)
        ensures kept(*old(cs), *final(cs)),
            r is Ok ==> final(cs).sat() == (old(cs).sat() && cong(a.lcv() * b.lcv(), r->Ok_0.lcv())),
            old(cs).w() && a.value() is Some && b.value() is Some ==> r is Ok && r->Ok_0.value() == Some(a.value()->0 && b.value()->0)
                && (a.hon() && b.hon() ==> final(cs).honest() == (old(cs).honest() && r->Ok_0.hon())),
            !old(cs).w() ==> r is Ok && (a.hon() && b.hon() && r->Ok_0.value() is Some ==> r->Ok_0.hon()) && final(cs).honest() == old(cs).honest(),
            !old(cs).w() && !a.is_const() && !b.is_const() ==> r->Ok_0.value() is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn or(cs: &mut Cs, a: &Boolean, b: &Boolean) -> (r: Result<Boolean, SynthesisError>)
        ensures kept(*old(cs), *final(cs)),
            r is Ok ==> final(cs).sat() == (old(cs).sat() && cong((1 - a.lcv()) * (1 - b.lcv()), 1 - r->Ok_0.lcv())),
            old(cs).w() && a.value() is Some && b.value() is Some ==> r is Ok && r->Ok_0.value() == Some(a.value()->0 || b.value()->0)
                && (a.hon() && b.hon() ==> final(cs).honest() == (old(cs).honest() && r->Ok_0.hon())),
            !old(cs).w() ==> r is Ok && final(cs).honest() == old(cs).honest(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enforce_equal(cs: &mut Cs, a: &Boolean, b: &Boolean) -> (r: Result<(), SynthesisError>)
        ensures kept(*old(cs), *final(cs)), final(cs).honest() == old(cs).honest(), final(cs).nv() == old(cs).nv(),
            r is Ok ==> final(cs).sat() == (old(cs).sat() && cong(a.lcv(), b.lcv())),
            !(a.is_const() && b.is_const()) ==> r is Ok,
            a.is_const() && b.is_const() ==> (r is Ok) == (a.value() == b.value()),
    { unimplemented!() }
}
impl Cl for Boolean { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
impl TFrom<AllocatedBit> for Boolean {
    open spec fn from_ok(a: AllocatedBit) -> bool { true }
    open spec fn from_sp(a: AllocatedBit, o: Boolean) -> bool { o.lcv() == a.var().val() && o.value() == a.value() && !o.is_const() }
    #[verifier::external_body]
    fn tfrom(b: AllocatedBit) -> Boolean { unimplemented!() }
}
/// bellpepper's Num
#[verifier::external_body]
pub struct BpNum { x: u64 }
impl BpNum {
    pub uninterp spec fn lcv(self) -> int;
    pub uninterp spec fn value(self) -> Option<Scalar>;
    #[verifier::external_body]
    pub fn zero() -> (r: BpNum) ensures r.lcv() == 0, r.value() is Some, r.value()->0.v() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn get_value(&self) -> (r: Option<Scalar>) ensures r == self.value() { unimplemented!() }
    #[verifier::external_body]
    pub fn lc(&self, coeff: Scalar) -> (r: Lc) ensures r.val() == coeff.v() * self.lcv() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_bool_with_coeff(self, one: Var, bit: &Boolean, coeff: Scalar) -> (r: BpNum) requires one.val() == 1
        ensures r.lcv() == self.lcv() + coeff.v() * bit.lcv(), (r.value() is Some) == (self.value() is Some && bit.value() is Some),
            r.value() is Some ==> r.value()->0.v() == (self.value()->0.v() + (if bit.value()->0 { coeff.v() } else { 0 })) % P(),
    { unimplemented!() }
}
impl TFrom<AllocatedNum> for BpNum {
    open spec fn from_ok(a: AllocatedNum) -> bool { true }
    open spec fn from_sp(a: AllocatedNum, o: BpNum) -> bool { o.lcv() == a.var().val() && o.value() == a.value() }
    #[verifier::external_body]
    fn tfrom(num: AllocatedNum) -> BpNum { unimplemented!() }
}
} // verus!
