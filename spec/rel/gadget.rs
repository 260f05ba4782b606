/// the bits that select in a multiplexer tree
#[verifier::external_body]
pub struct BitIter { x: u64 }
impl BitIter {
    pub uninterp spec fn shp(self) -> int;
    #[verifier::external_body]
    pub fn next<'b>(&mut self) -> (r: Option<&'b Bit>)
        ensures final(self).shp() == f1::<int, int>(90, old(self).shp()), r is Some <==> f1::<int, bool>(91, old(self).shp()), r is Some ==> r->0.bit == f1::<int, Lc>(92, old(self).shp()),
    { unimplemented!() }
}
impl Sh for BitIter { open spec fn sh(&self, o: &Self) -> bool { self.shp() == o.shp() } }
impl Cl for BitIter { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
/// the trait's contracts: what every implementation is checked against and every generic use relies on
pub trait Gadget: Sh + Cl + Sized {
    type Value;
    type Access: Sh + Cl;
    type Params: Sh;
    fn rf(&self) -> (r: &Self) ensures r == self;
    fn wires(&self) -> Vec<Lc>;
    fn wire_values(&self) -> Option<Vec<Scalar>>;
    fn value(&self) -> Option<&Self::Value>;
    fn access(&self) -> &Self::Access;
    fn params(&self) -> &Self::Params;
    fn rel_wires(me_L: &Self, me_R: &Self) -> (r: (Vec<Lc>, Vec<Lc>))
        requires same(*me_L, *me_R),
        ensures same(r.0, r.1);
    fn rel_access<'a>(me_L: &'a Self, me_R: &'a Self) -> (r: (&'a Self::Access, &'a Self::Access))
        requires same(*me_L, *me_R),
        ensures same(*r.0, *r.1);
    fn rel_params<'a>(me_L: &'a Self, me_R: &'a Self) -> (r: (&'a Self::Params, &'a Self::Params))
        requires same(*me_L, *me_R),
        ensures same(*r.0, *r.1);
    fn rel_alloc(cs_L: &mut Cs, cs_R: &mut Cs, value_L: Option<&Self::Value>, value_R: Option<&Self::Value>, access_L: Self::Access, access_R: Self::Access, params_L: &Self::Params, params_R: &Self::Params) -> (r: (Result<Self, SynthesisError>, Result<Self, SynthesisError>))
        requires both(*old(cs_L), *old(cs_R)), same(access_L, access_R), same(*params_L, *params_R),
        ensures r.0 is Ok && r.1 is Ok ==> both(*final(cs_L), *final(cs_R)) && same(r.0->Ok_0, r.1->Ok_0);
    fn rel_mux(cs_L: &mut Cs, cs_R: &mut Cs, s_L: &Bit, s_R: &Bit, i0_L: &Self, i0_R: &Self, i1_L: &Self, i1_R: &Self) -> (r: (Result<Self, SynthesisError>, Result<Self, SynthesisError>))
        requires both(*old(cs_L), *old(cs_R)), same(*s_L, *s_R), same(*i0_L, *i0_R), same(*i1_L, *i1_R),
        ensures r.0 is Ok && r.1 is Ok ==> both(*final(cs_L), *final(cs_R)) && same(r.0->Ok_0, r.1->Ok_0);
}
impl Gadget for BigNat {
    type Value = BigInt;
    type Access = ();
    type Params = BigNatParams;
    fn rf(&self) -> (r: &Self) { self }
    #[verifier::external_body] fn wires(&self) -> Vec<Lc> { unimplemented!() }
    #[verifier::external_body] fn wire_values(&self) -> Option<Vec<Scalar>> { unimplemented!() }
    #[verifier::external_body] fn value(&self) -> Option<&BigInt> { unimplemented!() }
    #[verifier::external_body] fn access(&self) -> &() { unimplemented!() }
    #[verifier::external_body] fn params(&self) -> &BigNatParams { unimplemented!() }
    fn rel_wires(me_L: &Self, me_R: &Self) -> (r: (Vec<Lc>, Vec<Lc>)) { rel__BigNat_as_Gadget__wires(me_L, me_R) }
    fn rel_access<'a>(me_L: &'a Self, me_R: &'a Self) -> (r: (&'a (), &'a ())) { rel__BigNat_as_Gadget__access(me_L, me_R) }
    fn rel_params<'a>(me_L: &'a Self, me_R: &'a Self) -> (r: (&'a BigNatParams, &'a BigNatParams)) { rel__BigNat_as_Gadget__params(me_L, me_R) }
    fn rel_alloc(cs_L: &mut Cs, cs_R: &mut Cs, value_L: Option<&BigInt>, value_R: Option<&BigInt>, access_L: (), access_R: (), params_L: &BigNatParams, params_R: &BigNatParams) -> (r: (Result<Self, SynthesisError>, Result<Self, SynthesisError>)) {
        rel__BigNat_as_Gadget__alloc(cs_L, cs_R, value_L, value_R, access_L, access_R, params_L, params_R)
    }
    fn rel_mux(cs_L: &mut Cs, cs_R: &mut Cs, s_L: &Bit, s_R: &Bit, i0_L: &Self, i0_R: &Self, i1_L: &Self, i1_R: &Self) -> (r: (Result<Self, SynthesisError>, Result<Self, SynthesisError>)) {
        rel__BigNat_as_Gadget__mux(cs_L, cs_R, s_L, s_R, i0_L, i0_R, i1_L, i1_R)
    }
}
impl TFrom<BigNat> for Polynomial {
    #[verifier::external_body] fn tfrom(a: BigNat) -> Polynomial { unimplemented!() }
    fn rel_tfrom(a: BigNat, b: BigNat) -> (Polynomial, Polynomial) { rel__Polynomial_as_FromBigNat__from(a, b) }
}
impl TFrom<AllocatedNum> for Num {
    #[verifier::external_body] fn tfrom(a: AllocatedNum) -> Num { unimplemented!() }
    fn rel_tfrom(a: AllocatedNum, b: AllocatedNum) -> (Num, Num) { rel__Num_as_FromAllocatedNum__from(a, b) }
}
impl TFrom<BigNat> for BigNat { fn tfrom(a: BigNat) -> BigNat { a } fn rel_tfrom(a: BigNat, b: BigNat) -> (BigNat, BigNat) { (a, b) } }
impl TFrom<Polynomial> for Polynomial { fn tfrom(a: Polynomial) -> Polynomial { a } fn rel_tfrom(a: Polynomial, b: Polynomial) -> (Polynomial, Polynomial) { (a, b) } }
impl TFrom<Num> for Num { fn tfrom(a: Num) -> Num { a } fn rel_tfrom(a: Num, b: Num) -> (Num, Num) { (a, b) } }
impl AllocatedNum { pub fn rf(&self) -> (r: &Self) ensures r == self { self } }
