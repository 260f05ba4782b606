#rs
/// the number of public inputs grew by k, and so did variables and constraints
pub open spec fn kepti(o: Cs, n: Cs, k: int) -> bool {
    &&& n.w() == o.w() && n.nv() == o.nv() + k && n.nc() == o.nc() + k && (n.honest() ==> o.honest()) && (n.sat() ==> o.sat())
    &&& n.inputs().len() == o.inputs().len() + k && n.inputs().take(o.inputs().len() as int) == o.inputs()
}
/// the new public inputs
pub open spec fn newin(o: Cs, n: Cs) -> Seq<int> { n.inputs().skip(o.inputs().len() as int) }
/// the values of the wires, and those the prover knows
pub struct Wires { pub ws: Seq<int>, pub wv: Option<Seq<int>> }
impl Wires {
    /// the wires carry the values the prover knows
    pub open spec fn hon(self) -> bool { self.wv is Some ==> self.wv->0.len() == self.ws.len() && forall|k: int| 0 <= k < self.ws.len() ==> cong(#[trigger] self.ws[k], self.wv->0[k]) }
    pub open spec fn has(self) -> bool { self.wv is Some }
}
/// the selector sv (the prover's bv) chose between a and b
pub open spec fn muxed(o: Cs, n: Cs, sv: int, bv: Option<bool>, a: Wires, b: Wires, r: Wires) -> bool {
    &&& r.has() == o.w()
    // every satisfying assignment: every wire is the selected one's
    &&& n.sat() && cong(sv, 0) ==> weq(r.ws, a.ws)
    &&& n.sat() && cong(sv, 1) ==> weq(r.ws, b.ws)
    // the prover's
    &&& o.w() ==> veq(r.wv->0, if bv->0 { b.wv->0 } else { a.wv->0 })
    &&& o.w() && n.honest() ==> r.hon()
}
/// What the trait promises.  The contracts of its provided methods rest on these of the required ones.
pub trait Gadget: Sized + Cl {
    type Value;
    type Access: Cl;
    type Params;
    spec fn wi(&self) -> Wires;
    spec fn gval(&self) -> Option<Self::Value>;
    spec fn gacc(&self) -> Self::Access;
    spec fn gpar(&self) -> Self::Params;
    /// well formed
    spec fn valid(&self) -> bool;
    /// what must agree to be selected between
    spec fn kind(&self) -> int;
    /// what allocating a value takes, the wires it gives, and whether the constraints take it
    spec fn alloc_pre(v: Option<Self::Value>, a: Self::Access, p: Self::Params) -> bool;
    spec fn enc(v: Self::Value, a: Self::Access, p: Self::Params) -> Seq<int>;
    spec fn fits(v: Self::Value, a: Self::Access, p: Self::Params) -> bool;
    /// what a multiplexer further keeps: of itself, and in every satisfying assignment
    spec fn mux_more(bv: Option<bool>, a: Self, b: Self, r: Self) -> bool;
    spec fn mux_sat(sv: int, a: Self, b: Self, r: Self) -> bool;
    fn wires(&self) -> (res: Vec<Lc>)
        requires self.valid(),
        ensures lcs(res@) == self.wi().ws;
    fn wire_values(&self) -> (res: Option<Vec<Scalar>>)
        requires self.valid(),
        ensures (res is Some) == (self.wi().wv is Some), res is Some ==> svals(res->0@) == self.wi().wv->0 && res->0@.len() == self.wi().ws.len();
    fn value(&self) -> (res: Option<&Self::Value>)
        ensures res == (match self.gval() { Some(x) => Some(&x), None => None });
    fn access(&self) -> (res: &Self::Access)
        ensures *res == self.gacc();
    fn params(&self) -> (res: &Self::Params)
        ensures *res == self.gpar();
    fn alloc(cs: &mut Cs, value: Option<&Self::Value>, access: Self::Access, params: &Self::Params) -> (res: Result<Self, SynthesisError>)
        requires Self::alloc_pre(match value { Some(x) => Some(*x), None => None }, access, *params),
        ensures kept(*old(cs), *final(cs)),
            res is Ok ==> res->Ok_0.valid() && (res->Ok_0.wi().wv is Some) == old(cs).w(),
            res is Ok && old(cs).w() ==> value is Some && res->Ok_0.wi().wv == Some(Self::enc(*value->0, access, *params)),
            res is Ok && old(cs).w() && final(cs).honest() ==> res->Ok_0.wi().hon(),
            res is Ok && old(cs).w() && old(cs).sat() && final(cs).honest() && Self::fits(*value->0, access, *params) ==> final(cs).sat();
    fn mux(cs: &mut Cs, s: &Bit, i0: &Self, i1: &Self) -> (res: Result<Self, SynthesisError>)
        requires i0.valid(), i1.valid(), old(cs).w() ==> s.value is Some && i0.wi().wv is Some && i1.wi().wv is Some,
        ensures kept(*old(cs), *final(cs)), (res is Ok) == (i0.kind() == i1.kind()),
            res is Ok ==> res->Ok_0.valid() && res->Ok_0.kind() == i0.kind() && muxed(*old(cs), *final(cs), s.bit.val(), s.value, i0.wi(), i1.wi(), res->Ok_0.wi())
                && Self::mux_more(s.value, *i0, *i1, res->Ok_0) && (final(cs).sat() ==> Self::mux_sat(s.bit.val(), *i0, *i1, res->Ok_0)),
            res is Ok && old(cs).w() && old(cs).sat() && final(cs).honest() && s.hon() && i0.wi().hon() && i1.wi().hon() ==> final(cs).sat();
}
// the specification functions of the implementation, also used by the contracts of its methods (a contract may not mention the implementation it is part of)
impl BigNat {
    pub open spec fn wi0(&self) -> Wires { Wires { ws: lcs(self.limbs@), wv: if self.has() { Some(self.wv()) } else { None } } }
    pub open spec fn ok0(&self) -> bool { self.shape() && self.limbs@.len() >= 1 && self.lw() < 0x1_0000_0000 }
}
pub open spec fn bn_alloc_pre(v: Option<BigInt>, a: (), p: BigNatParams) -> bool {
        1 <= p.limb_width < 0x1_0000_0000 && p.n_limbs >= 1 && p.n_limbs * p.limb_width <= usize::MAX && (v is Some ==> all_in(digs(v->0.v(), p.n_limbs as nat, p.limb_width as nat), P()))
}
pub open spec fn bn_mux_more(bv: Option<bool>, a: BigNat, b: BigNat, r: BigNat) -> bool {
        let n = mx(a.limbs@.len() as int, b.limbs@.len() as int);
        &&& r.shape() && r.lw() == a.lw() && r.limbs@.len() == n
        &&& r.params.max_word.v() == mx(a.params.max_word.v(), b.params.max_word.v()) && r.params.min_bits == mn(a.params.min_bits as int, b.params.min_bits as int)
        &&& r.has() && bv is Some ==> mux_wit(if bv->0 { b } else { a }, r)
}
pub open spec fn bn_mux_sat(sv: int, a: BigNat, b: BigNat, r: BigNat) -> bool { (cong(sv, 0) ==> mux_is(a, r)) && (cong(sv, 1) ==> mux_is(b, r)) }
impl Gadget for BigNat {
    type Value = BigInt;
    type Access = ();
    type Params = BigNatParams;
    open spec fn wi(&self) -> Wires { self.wi0() }
    open spec fn gval(&self) -> Option<BigInt> { self.value }
    open spec fn gacc(&self) -> () { () }
    open spec fn gpar(&self) -> BigNatParams { self.params }
    open spec fn valid(&self) -> bool { self.ok0() }
    open spec fn kind(&self) -> int { self.params.limb_width as int }
    open spec fn alloc_pre(v: Option<BigInt>, a: (), p: BigNatParams) -> bool { bn_alloc_pre(v, a, p) }
    open spec fn enc(v: BigInt, a: (), p: BigNatParams) -> Seq<int> { digs(v.v(), p.n_limbs as nat, p.limb_width as nat) }
    open spec fn fits(v: BigInt, a: (), p: BigNatParams) -> bool { true }
    /// the width and the declarations; whatever is declared of both is true of the selected one
    open spec fn mux_more(bv: Option<bool>, a: BigNat, b: BigNat, r: BigNat) -> bool { bn_mux_more(bv, a, b, r) }
    open spec fn mux_sat(sv: int, a: BigNat, b: BigNat, r: BigNat) -> bool { bn_mux_sat(sv, a, b, r) }
    // forwarded; that each keeps the trait's contract is what the functions after this implementation prove (they are apart from it so that the implementation does not depend on its own proof)
    #[verifier::external_body] fn wires(&self) -> (res: Vec<Lc>) { BigNat::wires(self) }
    #[verifier::external_body] fn wire_values(&self) -> (res: Option<Vec<Scalar>>) { BigNat::wire_values(self) }
    #[verifier::external_body] fn value(&self) -> (res: Option<&BigInt>) { BigNat::value(self) }
    #[verifier::external_body] fn access(&self) -> (res: &()) { BigNat::access(self) }
    #[verifier::external_body] fn params(&self) -> (res: &BigNatParams) { BigNat::params(self) }
    #[verifier::external_body] fn alloc(cs: &mut Cs, value: Option<&BigInt>, access: (), params: &BigNatParams) -> (res: Result<BigNat, SynthesisError>) { BigNat::alloc(cs, value, access, params) }
    #[verifier::external_body] fn mux(cs: &mut Cs, s: &Bit, i0: &BigNat, i1: &BigNat) -> (res: Result<BigNat, SynthesisError>) { BigNat::mux(cs, s, i0, i1) }
}
pub fn glue_wires__(b: &BigNat) -> (res: Vec<Lc>)
    requires b.valid(),
    ensures lcs(res@) == b.wi().ws,
{ BigNat::wires(b) }
pub fn glue_wire_values__(b: &BigNat) -> (res: Option<Vec<Scalar>>)
    requires b.valid(),
    ensures (res is Some) == (b.wi().wv is Some), res is Some ==> svals(res->0@) == b.wi().wv->0 && res->0@.len() == b.wi().ws.len(),
{ BigNat::wire_values(b) }
pub fn glue_value__(b: &BigNat) -> (res: Option<&BigInt>)
    ensures res == (match b.gval() { Some(x) => Some(&x), None => None }),
{ BigNat::value(b) }
pub fn glue_access__(b: &BigNat) -> (res: &())
    ensures *res == b.gacc(),
{ BigNat::access(b) }
pub fn glue_params__(b: &BigNat) -> (res: &BigNatParams)
    ensures *res == b.gpar(),
{ BigNat::params(b) }
pub fn glue_alloc__(cs: &mut Cs, value: Option<&BigInt>, access: (), params: &BigNatParams) -> (res: Result<BigNat, SynthesisError>)
        requires <BigNat as Gadget>::alloc_pre(match value { Some(x) => Some(*x), None => None }, access, *params),
        ensures kept(*old(cs), *final(cs)),
            res is Ok ==> res->Ok_0.valid() && (res->Ok_0.wi().wv is Some) == old(cs).w(),
            res is Ok && old(cs).w() ==> value is Some && res->Ok_0.wi().wv == Some(<BigNat as Gadget>::enc(*value->0, access, *params)),
            res is Ok && old(cs).w() && final(cs).honest() ==> res->Ok_0.wi().hon(),
            res is Ok && old(cs).w() && old(cs).sat() && final(cs).honest() && <BigNat as Gadget>::fits(*value->0, access, *params) ==> final(cs).sat(),
{ BigNat::alloc(cs, value, access, params) }
pub fn glue_mux__(cs: &mut Cs, s: &Bit, i0: &BigNat, i1: &BigNat) -> (res: Result<BigNat, SynthesisError>)
        requires i0.valid(), i1.valid(), old(cs).w() ==> s.value is Some && i0.wi().wv is Some && i1.wi().wv is Some,
        ensures kept(*old(cs), *final(cs)), (res is Ok) == (i0.kind() == i1.kind()),
            res is Ok ==> res->Ok_0.valid() && res->Ok_0.kind() == i0.kind() && muxed(*old(cs), *final(cs), s.bit.val(), s.value, i0.wi(), i1.wi(), res->Ok_0.wi())
                && <BigNat as Gadget>::mux_more(s.value, *i0, *i1, res->Ok_0) && (final(cs).sat() ==> <BigNat as Gadget>::mux_sat(s.bit.val(), *i0, *i1, res->Ok_0)),
            res is Ok && old(cs).w() && old(cs).sat() && final(cs).honest() && s.hon() && i0.wi().hon() && i1.wi().hon() ==> final(cs).sat(),
{ BigNat::mux(cs, s, i0, i1) }
#fn BigNat as Gadget::wires
#impl impl BigNat
#ensures
  lcs(res@) == lcs(self.limbs@), res == self.limbs,
#fn BigNat as Gadget::wire_values
#impl impl BigNat
#ensures
  res == self.limb_values,
#fn BigNat as Gadget::params
#impl impl BigNat
#ensures
  *res == self.params,
#fn BigNat as Gadget::access
#impl impl BigNat
#ensures
  *res == (),
#fn BigNat as Gadget::alloc
#impl impl BigNat
#requires
  bn_alloc_pre(match value { Some(x) => Some(*x), None => None }, _access, *params),
#ensures
  kept(*old(cs), *final(cs)), final(cs).sat() == old(cs).sat(), final(cs).nc() == old(cs).nc(), res is Ok ==> final(cs).nv() == old(cs).nv() + params.n_limbs,
  !old(cs).w() ==> res is Ok,
  // refused when there is no value or it does not fit the limbs
  old(cs).w() ==> (res is Ok) == (value is Some && -pow2((params.n_limbs * params.limb_width) as nat) < value->0.v() < pow2((params.n_limbs * params.limb_width) as nat)),
  res is Ok ==> ({
    let r = res->Ok_0;
    &&& r.ok0() && r.limbs@.len() == params.n_limbs && r.lw() == params.limb_width && r.params.max_word.v() == pow2(r.lw()) - 1 && r.params.min_bits == 0 && r.has() == old(cs).w()
    &&& r.has() ==> r.value->0.v() == value->0.v() && r.wv() == digs(value->0.v(), params.n_limbs as nat, params.limb_width as nat)
    &&& old(cs).w() && final(cs).honest() ==> r.hon()
  }),
#hook entry
  proof { assert(params.n_limbs * params.limb_width == params.limb_width * params.n_limbs) by (nonlinear_arith); }
#fn BigNat as Gadget::mux
#impl impl BigNat
#requires
  i0_.ok0(), i1_.ok0(), old(cs).w() ==> s.value is Some && i0_.has() && i1_.has(),
#ensures
  kept(*old(cs), *final(cs)), (res is Ok) == (i0_.params.limb_width == i1_.params.limb_width),
  res is Ok ==> res->Ok_0.ok0() && muxed(*old(cs), *final(cs), s.bit.val(), s.value, i0_.wi0(), i1_.wi0(), res->Ok_0.wi0())
    && bn_mux_more(s.value, *i0_, *i1_, res->Ok_0) && (final(cs).sat() ==> bn_mux_sat(s.bit.val(), *i0_, *i1_, res->Ok_0)),
  res is Ok && old(cs).w() && old(cs).sat() && final(cs).honest() && s.hon() && i0_.hon() && i1_.hon() ==> final(cs).sat(),
#hook entry
  let ghost sv = s.bit.val(); let ghost a = *i0_; let ghost b = *i1_; let ghost n = mx(a.limbs@.len() as int, b.limbs@.len() as int) as nat;
  let ghost wa = pad(lcs(a.limbs@), n); let ghost wb = pad(lcs(b.limbs@), n);
  proof { ax_P(); }
#hook loop 0 before
  let ghost cs0 = *cs; let ghost wo = lcs(out.limbs@);
  proof {
    assert(i0_wires@ == i0_.limbs@ && i1_wires@ == i1_.limbs@ && out_wires@ == out.limbs@);
    assert(lcs(i0_wires@) == wa && lcs(i1_wires@) == wb && wa.len() == n && wb.len() == n && wo.len() == n);
  }
#hook loop 0 inv
  n0 == n, s__0@.len() == n, s__0b@.len() == n, s__0c@.len() == n, lcs(s__0@) == wa, lcs(s__0b@) == wb, lcs(s__0c@) == wo, sv == s.bit.val(), wa.len() == n, wb.len() == n, wo.len() == n,
  cs.w() == cs0.w(), cs.honest() == cs0.honest(), cs.inputs() == cs0.inputs(), cs.nv() == cs0.nv(), cs.nc() == cs0.nc() + i0,
  cs.sat() == (cs0.sat() && mux_rows(sv, wa, wb, wo.take(i0 as int))),
#hook loop 0 begin
  proof { assert(lcs(s__0@)[i0 as int] == s__0@[i0 as int].val() && lcs(s__0b@)[i0 as int] == s__0b@[i0 as int].val() && lcs(s__0c@)[i0 as int] == s__0c@[i0 as int].val()); assert(wo.take(i0 + 1) =~= wo.take(i0 as int).push(wo[i0 as int]));
    mux_rows_push(sv, wa, wb, wo, i0 as int); }
#hook loop 0 after
  proof {
    assert(wo.take(n as int) =~= wo);
    mux_all(sv, wa, wb, wo); weq_pad(lcs(a.limbs@), n); weq_pad(lcs(b.limbs@), n); weq_ceq(wo, wa); weq_ceq(wo, wb);
    let g = out;
    if cs.sat() && cong(sv, 0) { mux_sel(a, g); weq_trans(wo, wa, lcs(a.limbs@)); }
    if cs.sat() && cong(sv, 1) { mux_sel(b, g); weq_trans(wo, wb, lcs(b.limbs@)); }
    if cs.w() {
      weq_pad(a.wv(), n); weq_pad(b.wv(), n);
      if s.value->0 { mux_wsel(b, g); } else { mux_wsel(a, g); }
      if cs.honest() && s.hon() && a.hon() && b.hon() {
        let q = if s.value->0 { i1_ } else { i0_ };
        assert(ceq(wo, lcs(q.limbs@))) by { assert forall|k: int| 0 <= k < n implies cong(#[trigger] wo[k], lcs(q.limbs@)[k]) by { assert(cong(wo[k], g.wv()[k])); assert(cong(lcs(q.limbs@)[k], q.wv()[k])); c_sym(lcs(q.limbs@)[k], q.wv()[k]); c_trans(wo[k], q.wv()[k], lcs(q.limbs@)[k]); } }
      }
    }
  }
#fn Gadget::mux
#as mux_default__<G: Gadget>
#requires
  i0_.valid(), i1_.valid(), old(cs).w() ==> s.value is Some && i0_.wi().wv is Some && i1_.wi().wv is Some,
  old(cs).w() ==> i0_.gval() is Some && i1_.gval() is Some,
  s.value is Some ==> G::alloc_pre(if s.value->0 { i1_.gval() } else { i0_.gval() }, i0_.gacc(), i0_.gpar()), s.value is None ==> G::alloc_pre(None, i0_.gacc(), i0_.gpar()),
#ensures
  kept(*old(cs), *final(cs)),
  // refused when the wires differ in number
  res is Ok ==> i0_.wi().ws.len() == i1_.wi().ws.len() && res->Ok_0.wi().ws.len() == i0_.wi().ws.len(),
  res is Ok ==> ({
    let r = res->Ok_0; let sel = if s.value->0 { *i1_ } else { *i0_ };
    &&& r.valid() && (r.wi().wv is Some) == old(cs).w()
    // every satisfying assignment: every wire is the selected one's
    &&& final(cs).sat() && cong(s.bit.val(), 0) ==> weq(r.wi().ws, i0_.wi().ws)
    &&& final(cs).sat() && cong(s.bit.val(), 1) ==> weq(r.wi().ws, i1_.wi().ws)
    // the prover's, when its wires are those its value spells under the first input's parameters
    &&& old(cs).w() && final(cs).honest() ==> r.wi().hon()
    &&& old(cs).w() && old(cs).sat() && final(cs).honest() && s.hon() && i0_.wi().hon() && i1_.wi().hon()
        && sel.wi().wv == Some(G::enc(sel.gval()->0, i0_.gacc(), i0_.gpar())) && G::fits(sel.gval()->0, i0_.gacc(), i0_.gpar()) ==> final(cs).sat()
  }),
#hook entry
  let ghost sv = s.bit.val(); let ghost wa = i0_.wi().ws; let ghost wb = i1_.wi().ws; let ghost N = wa.len() as int;
  proof { ax_P(); }
#hook loop 0 before
  let ghost cs0 = *cs; let ghost wo = out.wi().ws;
#hook loop 0 inv
  n0 == N, s__0@.len() == N, s__0b@.len() == N, s__0c@.len() == N, lcs(s__0@) == wa, lcs(s__0b@) == wb, lcs(s__0c@) == wo, sv == s.bit.val(), wa.len() == N, wb.len() == N, wo.len() == N,
  cs.w() == cs0.w(), cs.honest() == cs0.honest(), cs.inputs() == cs0.inputs(), cs.nv() == cs0.nv(), cs.nc() == cs0.nc() + i0,
  cs.sat() == (cs0.sat() && mux_rows(sv, wa, wb, wo.take(i0 as int))),
#hook loop 0 begin
  proof { assert(wa[i0 as int] == s__0@[i0 as int].val() && wb[i0 as int] == s__0b@[i0 as int].val() && wo[i0 as int] == s__0c@[i0 as int].val()); assert(wo.take(i0 + 1) =~= wo.take(i0 as int).push(wo[i0 as int]));
    mux_rows_push(sv, wa, wb, wo, i0 as int); }
#hook loop 0 after
  proof {
    assert(wo.take(N) =~= wo);
    mux_all(sv, wa, wb, wo); weq_ceq(wo, wa); weq_ceq(wo, wb);
    if cs.w() && cs.honest() && s.hon() && i0_.wi().hon() && i1_.wi().hon() {
      let q = if s.value->0 { i1_.wi() } else { i0_.wi() };
      if q.wv == out.wi().wv {
        assert(ceq(wo, q.ws)) by { assert forall|k: int| 0 <= k < N implies cong(#[trigger] wo[k], q.ws[k]) by { assert(cong(wo[k], out.wi().wv->0[k])); assert(cong(q.ws[k], q.wv->0[k])); c_sym(q.ws[k], q.wv->0[k]); c_trans(wo[k], q.wv->0[k], q.ws[k]); } }
      }
    }
  }
#fn Gadget::inputize
#as inputize__<G: Gadget>
#requires
  self__.valid(), old(cs).w() ==> self__.wi().wv is Some,
#ensures
  res is Ok, kepti(*old(cs), *final(cs), self__.wi().ws.len() as int),
  // one public input for each wire, in order; the constraints make each equal to its wire, and nothing else
  final(cs).sat() == (old(cs).sat() && forall|i: int| 0 <= i < self__.wi().ws.len() ==> cong(#[trigger] newin(*old(cs), *final(cs))[i], self__.wi().ws[i])),
  final(cs).sat() ==> newin(*old(cs), *final(cs)) == mods(self__.wi().ws),
  // the prover's assignment is accepted, and its inputs are the values it knows
  old(cs).w() && final(cs).honest() ==> newin(*old(cs), *final(cs)) == self__.wi().wv->0,
  old(cs).w() && old(cs).sat() && final(cs).honest() && self__.wi().hon() ==> final(cs).sat(),
#hook entry
  let ghost W = self__.wi().ws; let ghost O = *cs; let ghost N = W.len() as int;
  proof { ax_P(); c_refl(0); assert(O.inputs().take(O.inputs().len() as int) =~= O.inputs()); }
#hook loop 0 inv
  n0 == N, s__0@.len() == N, lcs(s__0@) == W, kepti(O, *cs, i0 as int), O == *old(cs), W == self__.wi().ws, N == W.len(), values is Some == (self__.wi().wv is Some), cs.w() ==> values is Some, values is Some ==> svals(values->0@) == self__.wi().wv->0 && values->0@.len() == N,
  cs.sat() == (O.sat() && forall|i: int| 0 <= i < i0 ==> cong(#[trigger] newin(O, *cs)[i], W[i])),
  newin(O, *cs).len() == i0, forall|i: int| 0 <= i < i0 ==> 0 <= #[trigger] newin(O, *cs)[i] < P(),
  cs.w() && cs.honest() ==> newin(O, *cs) == self__.wi().wv->0.take(i0 as int),
#hook loop 0 begin
  let ghost C0 = *cs; let ghost L0 = newin(O, C0);
  proof { assert(W[i0 as int] == s__0@[i0 as int].val()); assert(cs.w() ==> self__.wi().wv->0[i0 as int] == values->0@[i0 as int].v()); }
#hook loop 0 end
  proof {
    let L1 = newin(O, *cs); let x = C0.inputs().len();
    assert(cs.inputs().take(O.inputs().len() as int) =~= C0.inputs().take(O.inputs().len() as int));
    let y = cs.inputs()[x as int];
    assert(L1 =~= L0.push(y)); c_flip(y, W[i0 as int]); assert(0int * 0 == 0);
    assert(forall|i: int| 0 <= i < i0 ==> L1[i] == L0[i]);
    assert(L1[i0 as int] == y);
    if cs.w() { assert(self__.wi().wv->0.take(i0 + 1) =~= self__.wi().wv->0.take(i0 as int).push(self__.wi().wv->0[i0 as int])); }
  }
#hook ret
  proof {
    let X = newin(O, *cs);
    if cs.sat() { assert forall|i: int| 0 <= i < N implies #[trigger] X[i] == mods(W)[i] by { assert(cong(X[i], W[i])); c_mod_eq(X[i], W[i]);  c_small(X[i]); } assert(X =~= mods(W)); }
    if cs.w() && cs.honest() && self__.wi().hon() { assert forall|i: int| 0 <= i < N implies cong(#[trigger] X[i], W[i]) by { assert(self__.wi().wv->0.take(N)[i] == self__.wi().wv->0[i]); assert(cong(W[i], self__.wi().wv->0[i])); c_sym(W[i], self__.wi().wv->0[i]); } }
    if cs.w() && cs.honest() { assert(self__.wi().wv->0.take(N) =~= self__.wi().wv->0); assert(forall|i: int| 0 <= i < N ==> X[i] == self__.wi().wv->0[i]); }
  }
#fn Gadget::as_nums
#as as_nums__<G: Gadget>
#requires
  self__.valid(), old(cs).w() ==> self__.wi().wv is Some,
#ensures
  res is Ok, kept(*old(cs), *final(cs)), final(cs).nv() == old(cs).nv() + self__.wi().ws.len(), final(cs).nc() == old(cs).nc() + self__.wi().ws.len(),
  // one variable for each wire, in order; the constraints make each equal to its wire, and nothing else
  res->Ok_0@.len() == self__.wi().ws.len(),
  final(cs).sat() == (old(cs).sat() && forall|i: int| 0 <= i < self__.wi().ws.len() ==> cong(#[trigger] avals(res->Ok_0@)[i], self__.wi().ws[i])),
  final(cs).sat() ==> avals(res->Ok_0@) == mods(self__.wi().ws),
  // the prover's
  forall|i: int| 0 <= i < self__.wi().ws.len() ==> (old(cs).w() ==> (#[trigger] res->Ok_0@[i]).value() is Some && res->Ok_0@[i].value()->0.v() == self__.wi().wv->0[i]) && (final(cs).honest() ==> res->Ok_0@[i].hon()),
  old(cs).w() && old(cs).sat() && final(cs).honest() && self__.wi().hon() ==> final(cs).sat(),
#hook entry
  let ghost W = self__.wi().ws; let ghost O = *cs; let ghost N = W.len() as int; let ghost VS = self__.wi().wv->0;
  proof { ax_P(); c_refl(0); }
#hook loop 0 inv
  n0 == N, s__0@.len() == N, lcs(s__0@) == W, kept(O, *cs), W == self__.wi().ws, N == W.len(), VS == self__.wi().wv->0, cs.nv() == O.nv() + i0, cs.nc() == O.nc() + i0, an0__(c0).len() == i0, P() > 1,
  wire_values is Some == (self__.wi().wv is Some), cs.w() ==> wire_values is Some, wire_values is Some ==> svals(wire_values->0@) == VS && wire_values->0@.len() == N,
  cs.sat() == (O.sat() && forall|i: int| 0 <= i < i0 ==> cong(#[trigger] avals(an0__(c0))[i], W[i])),
  forall|i: int| 0 <= i < i0 ==> (cs.w() ==> (#[trigger] an0__(c0)[i]).value() is Some && an0__(c0)[i].value()->0.v() == VS[i]) && (cs.honest() ==> an0__(c0)[i].hon()),
#hook loop 0 begin
  let ghost A0 = an0__(c0);
  proof { assert(W[i0 as int] == s__0@[i0 as int].val()); assert(cs.w() ==> VS[i0 as int] == wire_values->0@[i0 as int].v()); }
#hook loop 0 end
  proof {
    let A1 = an0__(c0); let x = A1[i0 as int];
    assert(A1 =~= A0.push(x)); assert(avals(A1) =~= avals(A0).push(x.var().val()));
    c_flip(W[i0 as int], x.var().val()); c_flip(x.var().val(), W[i0 as int]); assert(0int * 0 == 0);
    assert(forall|i: int| 0 <= i < i0 ==> avals(A1)[i] == avals(A0)[i]); assert(avals(A1)[i0 as int] == x.var().val());
  }
#hook ret
  proof {
    let A = r__->Ok_0@; let X = avals(A);
    if cs.sat() { assert forall|i: int| 0 <= i < N implies #[trigger] X[i] == mods(W)[i] by { assert(cong(X[i], W[i])); c_mod_eq(X[i], W[i]); assert(X[i] == A[i].var().val()); c_small(X[i]); } assert(X =~= mods(W)); }
    if cs.w() && cs.honest() && self__.wi().hon() { assert forall|i: int| 0 <= i < N implies cong(#[trigger] X[i], W[i]) by { assert(A[i].hon()); assert(X[i] == VS[i]); assert(cong(W[i], VS[i])); c_sym(W[i], VS[i]); } }
  }
#fn Gadget::switch
#as switch__<G: Gadget>
#requires
  i0_.valid(), i1_.valid(), old(cs).w() ==> s.value is Some && i0_.wi().wv is Some && i1_.wi().wv is Some,
#ensures
  kept(*old(cs), *final(cs)), (res is Ok) == (i0_.kind() == i1_.kind()),
  // the first as chosen by the selector, the second the other one
  res is Ok ==> ({ let r = (res->Ok_0).0; r.valid() && muxed(*old(cs), *final(cs), s.bit.val(), s.value, i0_.wi(), i1_.wi(), r.wi()) && mux_kept(*final(cs), s.bit.val(), s.value, *i0_, *i1_, r) }),
  res is Ok ==> ({ let r = (res->Ok_0).1; r.valid() && muxed(*old(cs), *final(cs), s.bit.val(), s.value, i1_.wi(), i0_.wi(), r.wi()) && mux_kept(*final(cs), s.bit.val(), s.value, *i1_, *i0_, r) }),
  res is Ok && old(cs).w() && old(cs).sat() && final(cs).honest() && s.hon() && i0_.wi().hon() && i1_.wi().hon() ==> final(cs).sat(),
#hook entry
  proof { let x = s.bit.val(); ax_P(); c_flip(x, 0); c_flip(x, 1); c_flip(1 - x, 1); c_flip(1 - x, 0); assert(1 - x - 1 == 0 - x); assert(1 - (1 - x) == x); }
#rs
/// what a multiplexer keeps, chosen by the selector or by its complement
pub open spec fn mux_kept<G: Gadget>(n: Cs, sv: int, bv: Option<bool>, a: G, b: G, r: G) -> bool {
    let nb = match bv { Some(x) => Some(!x), None => None };
    &&& G::mux_more(bv, a, b, r) || G::mux_more(nb, b, a, r)
    &&& n.sat() ==> G::mux_sat(sv, a, b, r) || G::mux_sat(1 - sv, b, a, r)
}
#fn Gadget::assert_equal
#as assert_equal__<G: Gadget>
#requires
  i0_.valid(), i1_.valid(),
#ensures
  kept(*old(cs), *final(cs)), final(cs).honest() == old(cs).honest(), final(cs).nv() == old(cs).nv(),
  // refused when the wires differ in number
  (res is Ok) == (i0_.wi().ws.len() == i1_.wi().ws.len()),
  // satisfied exactly when they are equal wire by wire
  res is Ok ==> final(cs).nc() == old(cs).nc() + i0_.wi().ws.len() && final(cs).sat() == (old(cs).sat() && forall|i: int| 0 <= i < i0_.wi().ws.len() ==> cong(#[trigger] i1_.wi().ws[i], i0_.wi().ws[i])),
#hook loop 0 before
  let ghost a = i0_.wi().ws; let ghost b = i1_.wi().ws; let ghost N = a.len() as int; let ghost O = *cs;
#hook loop 0 inv
  n0 == N, s__0@.len() == N, s__0b@.len() == N, lcs(s__0@) == a, lcs(s__0b@) == b, a.len() == N, b.len() == N,
  cs.w() == O.w(), cs.honest() == O.honest(), cs.inputs() == O.inputs(), cs.nv() == O.nv(), cs.nc() == O.nc() + i0,
  cs.sat() == (O.sat() && forall|i: int| 0 <= i < i0 ==> cong(#[trigger] b[i], a[i])),
#hook loop 0 begin
  proof { assert(a[i0 as int] == s__0@[i0 as int].val() && b[i0 as int] == s__0b@[i0 as int].val()); c_flip(b[i0 as int], a[i0 as int]); assert(0int * 0 == 0); }
#rs
pub open spec fn an0__(c: Vec<AllocatedNum>) -> Seq<AllocatedNum> { c@ }
pub open spec fn avals(s: Seq<AllocatedNum>) -> Seq<int> { s.map_values(|x: AllocatedNum| x.var().val()) }
#rs
/// an iterator over bits: those still to come
#[verifier::external_body]
pub struct BitIter { x: u64 }
impl BitIter {
    pub uninterp spec fn rest(self) -> Seq<Bit>;
    #[verifier::external_body]
    pub fn next<'a>(&mut self) -> (r: Option<&'a Bit>)
        ensures (r is Some) == (old(self).rest().len() > 0), r is Some ==> *r->0 == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), r is None ==> *final(self) == *old(self),
    { unimplemented!() }
}
impl Cl for BitIter { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
/// the index the bits spell in this assignment, the first the highest
pub open spec fn bidx(b: Seq<Bit>) -> int decreases b.len() { if b.len() == 0 { 0 } else { (if cong(b[0].bit.val(), 1) { pow2((b.len() - 1) as nat) as int } else { 0 }) + bidx(b.skip(1)) } }
/// the index the prover's bits spell
pub open spec fn vidx(b: Seq<Bit>) -> int decreases b.len() { if b.len() == 0 { 0 } else { (if b[0].value == Some(true) { pow2((b.len() - 1) as nat) as int } else { 0 }) + vidx(b.skip(1)) } }
pub proof fn idx_in(b: Seq<Bit>)
    ensures 0 <= bidx(b) < pow2(b.len()), 0 <= vidx(b) < pow2(b.len()),
    decreases b.len(),
{
    if b.len() > 0 { idx_in(b.skip(1)); lemma_pow2_unfold(b.len()); } else { lemma2_to64(); }
}
pub open spec fn bits_has(b: Seq<Bit>) -> bool { forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k]).value is Some }
pub open spec fn bits_bin(b: Seq<Bit>) -> bool { forall|k: int| 0 <= k < b.len() ==> isb((#[trigger] b[k]).bit.val()) }
pub open spec fn bits_hon(b: Seq<Bit>) -> bool { forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k]).hon() }
pub open spec fn all_valid<G: Gadget>(s: Seq<G>) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).valid() }
pub open spec fn all_has<G: Gadget>(s: Seq<G>) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).wi().wv is Some }
pub open spec fn all_hon<G: Gadget>(s: Seq<G>) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).wi().hon() }
pub open spec fn same_kind<G: Gadget>(s: Seq<G>) -> bool { forall|k: int, l: int| 0 <= k < s.len() && 0 <= l < s.len() ==> (#[trigger] s[k]).kind() == (#[trigger] s[l]).kind() }
#fn Gadget::mux_tree
#as mux_tree__<G: Gadget>
#requires
  all_valid(inputs@), old(cs).w() ==> bits_has(select_bits.rest()) && all_has(inputs@),
#ensures
  kept(*old(cs), *final(cs)),
  // refused unless there is one input for each index the bits can spell
  (res is Ok) == (inputs@.len() == pow2(select_bits.rest().len()) && same_kind(inputs@)),
  res is Ok ==> ({
    let r = res->Ok_0; let b = select_bits.rest();
    &&& r.valid() && r.kind() == inputs@[0].kind() && 0 <= bidx(b) < inputs@.len() && 0 <= vidx(b) < inputs@.len()
    // every satisfying assignment: every wire is that of the input at the index the bits spell
    &&& final(cs).sat() && bits_bin(b) ==> weq(r.wi().ws, inputs@[bidx(b)].wi().ws)
    // the prover's
    &&& old(cs).w() ==> r.wi().wv is Some && veq(r.wi().wv->0, inputs@[vidx(b)].wi().wv->0)
    &&& old(cs).w() && final(cs).honest() && all_hon(inputs@) ==> r.wi().hon()
    &&& old(cs).w() && old(cs).sat() && final(cs).honest() && bits_hon(b) && all_hon(inputs@) ==> final(cs).sat()
  }),
  decreases select_bits.rest().len(),
#hook entry
  let ghost B = select_bits.rest(); let ghost S = inputs@; let ghost n = S.len() as int; let ghost mut gl: Option<G> = None; let ghost mut gr: Option<G> = None; let ghost mut c1 = *cs; let ghost O = *cs;
  let ghost lo = S.take(n / 2); let ghost hi = S.skip(n / 2); let ghost T = B.skip(1);
  proof {
    idx_in(B); ax_P(); lemma2_to64();
    if B.len() > 0 {
      lemma_pow2_unfold(B.len()); idx_in(T); lemma_pow2_pos(T.len());
      assert(forall|k: int| 0 <= k < lo.len() ==> lo[k] == S[k]); assert(forall|k: int| 0 <= k < hi.len() ==> hi[k] == S[n / 2 + k]);
      assert forall|k: int| 0 <= k < T.len() implies T[k] == B[k + 1] by {}
    }
  }
#hook after let left
  proof { gl = Some(left); c1 = *cs; }
#hook after let right
  proof { gr = Some(right);
    let m = n / 2;
    if same_kind(S) { assert(same_kind(lo)) by { assert forall|i: int, j: int| 0 <= i < lo.len() && 0 <= j < lo.len() implies (#[trigger] lo[i]).kind() == (#[trigger] lo[j]).kind() by { assert(S[i].kind() == S[j].kind()); } }
      assert(same_kind(hi)) by { assert forall|i: int, j: int| 0 <= i < hi.len() && 0 <= j < hi.len() implies (#[trigger] hi[i]).kind() == (#[trigger] hi[j]).kind() by { assert(S[m + i].kind() == S[m + j].kind()); } }
      assert(S[0].kind() == S[m].kind()); }
    if same_kind(lo) && same_kind(hi) && left.kind() == right.kind() {
      assert forall|i: int| 0 <= i < n implies (#[trigger] S[i]).kind() == left.kind() by { if i < m { assert(lo[i].kind() == lo[0].kind()); } else { assert(hi[i - m].kind() == hi[0].kind()); assert(S[i] == hi[i - m]); } }
    }
    assert(same_kind(S) == (same_kind(lo) && same_kind(hi) && left.kind() == right.kind())); }
#hook ret
  proof {
    if r__ is Ok && B.len() > 0 {
      let l = gl->0; let r = gr->0; let o = r__->Ok_0;
      assert(lo[bidx(T)] == S[bidx(T)] && hi[bidx(T)] == S[n / 2 + bidx(T)] && lo[vidx(T)] == S[vidx(T)] && hi[vidx(T)] == S[n / 2 + vidx(T)]);
      if cs.sat() && bits_bin(B) {
        assert(isb(B[0].bit.val())); c_bool(B[0].bit.val()); assert(bits_bin(T));
        if cong(B[0].bit.val(), 1) { weq_trans(o.wi().ws, r.wi().ws, S[n / 2 + bidx(T)].wi().ws); } else { weq_trans(o.wi().ws, l.wi().ws, S[bidx(T)].wi().ws); }
      }
      if O.w() { assert(B[0].value is Some); }
    } else if r__ is Ok { weq_refl(S[0].wi().ws); }
  }
#fn BigNat::min
#requires
  self.valid(), other.valid(), self.limbs@.len() * self.lw() <= usize::MAX, other.limbs@.len() * other.lw() <= usize::MAX,
  old(cs).w() ==> self.has() && other.has() && self.wf() && other.wf(),
  // the carries of the difference leave room in the field
  cbits(mx(self.params.max_word.v(), other.params.max_word.v()) + (pow2(self.lw()) - 1), self.lw()) + self.lw() <= CAP(),
#ensures
  kept(*old(cs), *final(cs)),
  !old(cs).w() ==> (res is Ok) == (self.lw() == other.lw()),
  // the difference must fit the limbs
  old(cs).w() && self.lw() != other.lw() ==> res is Err,
  old(cs).w() && self.lw() == other.lw() ==> (res is Ok) == ({ let d = self.value->0.v() - other.value->0.v(); (if d < 0 { -d } else { d }) < pow2(self.lw() * (mx(self.limbs@.len() as int, other.limbs@.len() as int) as nat)) }),
  res is Ok ==> ({
    let r = res->Ok_0;
    &&& r.valid() && r.limbs@.len() == mx(self.limbs@.len() as int, other.limbs@.len() as int) && r.lw() == self.lw()
    &&& r.params.max_word.v() == mx(self.params.max_word.v(), other.params.max_word.v()) && r.params.min_bits == mn(self.params.min_bits as int, other.params.min_bits as int) && r.has() == old(cs).w()
    // every satisfying assignment: the lesser of the two
    &&& final(cs).sat() && self.bnd() && other.bnd() ==> r.iv() == mn(self.iv(), other.iv()) && r.bnd()
    &&& final(cs).sat() && self.bnd() && other.bnd() && self.mb() && other.mb() ==> r.mb()
    // the prover's
    &&& r.has() ==> r.wf() && r.value->0.v() == mn(self.value->0.v(), other.value->0.v())
    &&& old(cs).w() && final(cs).honest() ==> r.hon()
    &&& old(cs).w() && old(cs).sat() && final(cs).honest() && self.hon() && other.hon() ==> final(cs).sat()
  }),
#hook entry
  let ghost O = *cs; let ghost M = mx(self.params.max_word.v(), other.params.max_word.v());
  proof { ax_P(); c_isb(); lemma_pow2_pos(self.lw()); assert(mx(M, M + (pow2(self.lw()) - 1)) == M + (pow2(self.lw()) - 1)); }
