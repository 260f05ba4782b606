// The trusted base: what the generated file assumes about the field, the constraint system and
// the libraries.  Every `external_body` and `uninterp` below is an assumption (see DESIGN.md).
#![allow(unused, non_snake_case, dead_code)]
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;

// ---------------------------------------------------------------- the field
/// The order of the scalar field.
pub uninterp spec fn P() -> int;
/// `PrimeField::CAPACITY`
pub uninterp spec fn CAP() -> nat;
/// the value the assignment gives the i-th variable allocated (there is one constraint system)
pub uninterp spec fn gvar(i: int) -> int;
pub open spec fn m(x: int) -> int { x % P() }
pub open spec fn cong(a: int, b: int) -> bool { (a - b) % P() == 0 }

/// P is a prime (an element p > 1 that divides a product only if it divides a factor),
/// and has CAP + 1 bits.
#[verifier::external_body]
pub proof fn ax_prime(a: int, b: int)
    requires cong(a * b, 0),
    ensures cong(a, 0) || cong(b, 0),
{}
#[verifier::external_body]
pub proof fn ax_P()
    ensures P() > 2, P() % 2 == 1, pow2(CAP()) < P(), P() < pow2(CAP() + 1), 0 < CAP() < 0x1000_0000,
{}
/// The inverse of a non-zero element.
pub uninterp spec fn inv(x: int) -> int;
#[verifier::external_body]
pub proof fn ax_inv(x: int)
    requires !cong(x, 0),
    ensures cong(x * inv(x), 1), 0 <= inv(x) < P(),
{}

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Scalar { x: u64 }
impl Scalar {
    /// the canonical representative
    pub uninterp spec fn v(self) -> int;
    #[verifier::external_body]
    pub fn one() -> (r: Scalar) ensures r.v() == 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: Scalar) ensures r.v() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity() -> (r: u32) ensures r == CAP() { unimplemented!() }
    #[verifier::external_body]
    pub fn num_bits() -> (r: u32) ensures r == CAP() + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_u64(x: u64) -> (r: Scalar) ensures r.v() == x as int % P() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_u128(x: u128) -> (r: Scalar) ensures r.v() == x as int % P() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_str_vartime(s: &Dec) -> (r: Option<Scalar>)
        ensures s.v() >= 0 ==> r is Some && r->0.v() == s.v() % P(), s.v() < 0 ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn double(&self) -> (r: Scalar) ensures r.v() == (2 * self.v()) % P() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: Choice) ensures r.b() == (self.v() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn invert(&self) -> (r: CtOption) ensures r.some() == (self.v() != 0), r.some() ==> r.s().v() == inv(self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_repr(&self) -> (r: Repr) ensures r.bytes() == self.le() { unimplemented!() }
    /// the little-endian bytes of the canonical representative
    pub uninterp spec fn le(self) -> Seq<u8>;
}
#[verifier::external_body]
pub broadcast proof fn ax_scalar(s: Scalar)
    ensures 0 <= #[trigger] s.v() < P(),
{}
/// Decimal digits of an integer
#[verifier::external_body]
pub struct Dec { x: u64 }
impl Dec { pub uninterp spec fn v(self) -> int; }
#[verifier::external_body]
pub fn dec__(n: &BigInt) -> (r: Dec) ensures r.v() == n.v() { unimplemented!() }
#[verifier::external_body]
pub struct Choice { x: u64 }
impl Choice {
    pub uninterp spec fn b(self) -> bool;
    #[verifier::external_body]
    pub fn unwrap_u8(&self) -> (r: u8) ensures r == (if self.b() { 1u8 } else { 0u8 }) { unimplemented!() }
}
#[verifier::external_body]
pub fn choice__(c: Choice) -> (r: bool) ensures r == c.b() { unimplemented!() }
#[verifier::external_body]
pub struct CtOption { x: u64 }
impl CtOption {
    pub uninterp spec fn some(self) -> bool;
    pub uninterp spec fn s(self) -> Scalar;
    #[verifier::external_body]
    pub fn unwrap(self) -> (r: Scalar) requires self.some() ensures r == self.s() { unimplemented!() }
}
/// The little-endian bytes of the canonical representative.
#[verifier::external_body]
pub struct Repr { x: u64 }
pub open spec fn le_bytes(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { s[0] as int + 256 * le_bytes(s.skip(1)) }
}
impl Repr {
    pub uninterp spec fn bytes(self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &Vec<u8>) ensures r@ == self.bytes() { unimplemented!() }
}
#[verifier::external_body]
pub proof fn ax_repr(s: Scalar)
    ensures le_bytes(s.le()) == s.v(), 8 * s.le().len() >= CAP() + 1, s.le().len() <= 0x1000_0000,
{}

// ---------------------------------------------------------------- the constraint system
/// A variable.  Its value is the one an assignment gives it, which the prover chooses.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Var { x: u64 }
impl Var { pub uninterp spec fn val(self) -> int; }
#[verifier::external_body]
pub broadcast proof fn ax_var(v: Var)
    ensures 0 <= #[trigger] v.val() < P(),
{}
/// A linear combination.  Its value is a representative of the sum of its terms.
#[verifier::external_body]
pub struct Lc { x: u64 }
impl Lc {
    pub uninterp spec fn val(self) -> int;
    #[verifier::external_body]
    pub fn zero() -> (r: Lc) ensures r.val() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_variable(v: Var) -> (r: Lc) ensures r.val() == v.val() { unimplemented!() }
}
#[verifier::external_body]
pub struct Cs { x: u64 }
impl Cs {
    /// the assignment satisfies every constraint so far
    pub uninterp spec fn sat(self) -> bool;
    /// the assignment gives every variable so far what the prover of the code gives it
    pub uninterp spec fn honest(self) -> bool;
    /// the system has witnesses
    pub uninterp spec fn w(self) -> bool;
    /// the values of the public inputs so far
    pub uninterp spec fn inputs(self) -> Seq<int>;
    /// the number of allocated variables and of constraints
    pub uninterp spec fn nv(self) -> int;
    pub uninterp spec fn nc(self) -> int;

    #[verifier::external_body]
    pub fn one() -> (r: Var) ensures r.val() == 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn wit(&self) -> (r: bool) ensures r == self.w() { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_w(&mut self, v: Scalar) -> (r: Result<Var, SynthesisError>)
        requires old(self).w(),
        ensures r is Ok, final(self).w(), final(self).sat() == old(self).sat(), final(self).inputs() == old(self).inputs(),
            final(self).honest() == (old(self).honest() && r->Ok_0.val() == v.v()), r->Ok_0.val() == gvar(old(self).nv()),
            final(self).nv() == old(self).nv() + 1, final(self).nc() == old(self).nc(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_s(&mut self) -> (r: Result<Var, SynthesisError>)
        requires !old(self).w(),
        ensures r is Ok, !final(self).w(), final(self).sat() == old(self).sat(), final(self).inputs() == old(self).inputs(),
            final(self).honest() == old(self).honest(), r->Ok_0.val() == gvar(old(self).nv()),
            final(self).nv() == old(self).nv() + 1, final(self).nc() == old(self).nc(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_input_w(&mut self, v: Scalar) -> (r: Result<Var, SynthesisError>)
        requires old(self).w(),
        ensures r is Ok, final(self).w(), final(self).sat() == old(self).sat(), final(self).inputs() == old(self).inputs().push(r->Ok_0.val()),
            final(self).honest() == (old(self).honest() && r->Ok_0.val() == v.v()), r->Ok_0.val() == gvar(old(self).nv()),
            final(self).nv() == old(self).nv() + 1, final(self).nc() == old(self).nc(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_input_s(&mut self) -> (r: Result<Var, SynthesisError>)
        requires !old(self).w(),
        ensures r is Ok, !final(self).w(), final(self).sat() == old(self).sat(), final(self).inputs() == old(self).inputs().push(r->Ok_0.val()),
            final(self).honest() == old(self).honest(), r->Ok_0.val() == gvar(old(self).nv()),
            final(self).nv() == old(self).nv() + 1, final(self).nc() == old(self).nc(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enforce(&mut self, a: Lc, b: Lc, c: Lc)
        ensures final(self).w() == old(self).w(), final(self).honest() == old(self).honest(), final(self).inputs() == old(self).inputs(),
            final(self).sat() == (old(self).sat() && cong(a.val() * b.val(), c.val())),
            final(self).nv() == old(self).nv(), final(self).nc() == old(self).nc() + 1,
    { unimplemented!() }
}
#[derive(Debug)]
pub enum SynthesisError { Unsatisfiable, AssignmentMissing, IoError }

// ---------------------------------------------------------------- integers
#[verifier::external_body]
pub struct BigInt { x: u64 }
pub open spec fn tdiv_sp(x: int, y: int) -> int {
    if x >= 0 { if y > 0 { x / y } else { -(x / (-y)) } } else { if y > 0 { -((-x) / y) } else { (-x) / (-y) } }
}
/// the number of bits of |x|
pub open spec fn is_bits(x: int, b: int) -> bool {
    let a = if x < 0 { -x } else { x };
    b >= 0 && a < pow2(b as nat) && (a > 0 ==> b >= 1 && pow2((b - 1) as nat) <= a) && (a == 0 ==> b == 0)
}
impl BigInt {
    pub uninterp spec fn v(self) -> int;
    #[verifier::external_body]
    pub fn bits(&self) -> (r: u64) ensures is_bits(self.v(), r as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_bit(&mut self, i: u64, b: bool)
        ensures b && old(self).v() >= 0 && (old(self).v() / pow2(i as nat) as int) % 2 == 0 ==> final(self).v() == old(self).v() + pow2(i as nat) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_multiple_of(&self, o: &BigInt) -> (r: bool)
        ensures o.v() == 0 ==> r == (self.v() == 0), o.v() != 0 ==> r == (self.v() % o.v() == 0) { unimplemented!() }
}
/// r is x & y (two's complement), when y + 1 is a power of two
pub open spec fn mask_sp(x: int, y: int, r: int) -> bool {
    forall|n: nat| y + 1 == #[trigger] pow2(n) ==> r == x % (pow2(n) as int)
}
pub enum Sign { Plus }
#[verifier::external_body]
pub fn bigint_from_bytes_le(s: Sign, b: &Vec<u8>) -> (r: BigInt) ensures r.v() == le_bytes(b@) { unimplemented!() }
pub trait ToBig: Sized { spec fn tb(self) -> int; fn to_big(self) -> (r: BigInt) ensures r.v() == self.tb(); }
impl ToBig for i32 { open spec fn tb(self) -> int { self as int } #[verifier::external_body] fn to_big(self) -> BigInt { unimplemented!() } }
impl ToBig for u8 { open spec fn tb(self) -> int { self as int } #[verifier::external_body] fn to_big(self) -> BigInt { unimplemented!() } }
impl ToBig for u32 { open spec fn tb(self) -> int { self as int } #[verifier::external_body] fn to_big(self) -> BigInt { unimplemented!() } }
impl ToBig for u64 { open spec fn tb(self) -> int { self as int } #[verifier::external_body] fn to_big(self) -> BigInt { unimplemented!() } }
impl ToBig for usize { open spec fn tb(self) -> int { self as int } #[verifier::external_body] fn to_big(self) -> BigInt { unimplemented!() } }
impl ToBig for BigInt { open spec fn tb(self) -> int { self.v() } fn to_big(self) -> BigInt { self } }

// ---------------------------------------------------------------- operators
pub trait TAdd<R>: Sized { type O; spec fn add_ok(self, r: R) -> bool; spec fn add_sp(self, r: R, o: Self::O) -> bool; fn tadd(self, r: R) -> (o: Self::O) requires self.add_ok(r) ensures self.add_sp(r, o); }
pub trait TSub<R>: Sized { type O; spec fn sub_ok(self, r: R) -> bool; spec fn sub_sp(self, r: R, o: Self::O) -> bool; fn tsub(self, r: R) -> (o: Self::O) requires self.sub_ok(r) ensures self.sub_sp(r, o); }
pub trait TMul<R>: Sized { type O; spec fn mul_ok(self, r: R) -> bool; spec fn mul_sp(self, r: R, o: Self::O) -> bool; fn tmul(self, r: R) -> (o: Self::O) requires self.mul_ok(r) ensures self.mul_sp(r, o); }
pub trait TDiv<R>: Sized { type O; spec fn div_ok(self, r: R) -> bool; spec fn div_sp(self, r: R, o: Self::O) -> bool; fn tdiv(self, r: R) -> (o: Self::O) requires self.div_ok(r) ensures self.div_sp(r, o); }
pub trait TRem<R>: Sized { type O; spec fn rem_ok(self, r: R) -> bool; spec fn rem_sp(self, r: R, o: Self::O) -> bool; fn trem(self, r: R) -> (o: Self::O) requires self.rem_ok(r) ensures self.rem_sp(r, o); }
pub trait TShl<R>: Sized { type O; spec fn shl_ok(self, r: R) -> bool; spec fn shl_sp(self, r: R, o: Self::O) -> bool; fn tshl(self, r: R) -> (o: Self::O) requires self.shl_ok(r) ensures self.shl_sp(r, o); }
pub trait TShr<R>: Sized { type O; spec fn shr_ok(self, r: R) -> bool; spec fn shr_sp(self, r: R, o: Self::O) -> bool; fn tshr(self, r: R) -> (o: Self::O) requires self.shr_ok(r) ensures self.shr_sp(r, o); }
pub trait TAnd<R>: Sized { type O; spec fn and_ok(self, r: R) -> bool; spec fn and_sp(self, r: R, o: Self::O) -> bool; fn tand(self, r: R) -> (o: Self::O) requires self.and_ok(r) ensures self.and_sp(r, o); }
pub trait TNeg: Sized { type O; spec fn neg_sp(self, o: Self::O) -> bool; fn tneg(self) -> (o: Self::O) ensures self.neg_sp(o); }
pub trait TAddA<R>: Sized { spec fn adda_ok(self, r: R) -> bool; spec fn adda_sp(self, r: R, o: Self) -> bool; fn tadda(&mut self, r: R) requires old(self).adda_ok(r) ensures old(self).adda_sp(r, *final(self)); }
pub trait TSubA<R>: Sized { spec fn suba_ok(self, r: R) -> bool; spec fn suba_sp(self, r: R, o: Self) -> bool; fn tsuba(&mut self, r: R) requires old(self).suba_ok(r) ensures old(self).suba_sp(r, *final(self)); }
pub trait TMulA<R>: Sized { spec fn mula_ok(self, r: R) -> bool; spec fn mula_sp(self, r: R, o: Self) -> bool; fn tmula(&mut self, r: R) requires old(self).mula_ok(r) ensures old(self).mula_sp(r, *final(self)); }
pub trait TDivA<R>: Sized { spec fn diva_ok(self, r: R) -> bool; spec fn diva_sp(self, r: R, o: Self) -> bool; fn tdiva(&mut self, r: R) requires old(self).diva_ok(r) ensures old(self).diva_sp(r, *final(self)); }
pub trait TRemA<R>: Sized { spec fn rema_ok(self, r: R) -> bool; spec fn rema_sp(self, r: R, o: Self) -> bool; fn trema(&mut self, r: R) requires old(self).rema_ok(r) ensures old(self).rema_sp(r, *final(self)); }
pub trait TShlA<R>: Sized { spec fn shla_ok(self, r: R) -> bool; spec fn shla_sp(self, r: R, o: Self) -> bool; fn tshla(&mut self, r: R) requires old(self).shla_ok(r) ensures old(self).shla_sp(r, *final(self)); }
pub trait TShrA<R>: Sized { spec fn shra_ok(self, r: R) -> bool; spec fn shra_sp(self, r: R, o: Self) -> bool; fn tshra(&mut self, r: R) requires old(self).shra_ok(r) ensures old(self).shra_sp(r, *final(self)); }
} // verus!

macro_rules! add { ($a:ty, $b:ty, $o:ty, $x:ident, $y:ident, $r:ident, $req:expr, $ens:expr) => { verus! { impl TAdd<$b> for $a { type O = $o;
  open spec fn add_ok(self, $y: $b) -> bool { let $x = self; $req } open spec fn add_sp(self, $y: $b, $r: $o) -> bool { let $x = self; $ens }
  #[verifier::external_body] fn tadd(self, r: $b) -> $o { unimplemented!() } } } } }
macro_rules! sub { ($a:ty, $b:ty, $o:ty, $x:ident, $y:ident, $r:ident, $req:expr, $ens:expr) => { verus! { impl TSub<$b> for $a { type O = $o;
  open spec fn sub_ok(self, $y: $b) -> bool { let $x = self; $req } open spec fn sub_sp(self, $y: $b, $r: $o) -> bool { let $x = self; $ens }
  #[verifier::external_body] fn tsub(self, r: $b) -> $o { unimplemented!() } } } } }
macro_rules! mul { ($a:ty, $b:ty, $o:ty, $x:ident, $y:ident, $r:ident, $req:expr, $ens:expr) => { verus! { impl TMul<$b> for $a { type O = $o;
  open spec fn mul_ok(self, $y: $b) -> bool { let $x = self; $req } open spec fn mul_sp(self, $y: $b, $r: $o) -> bool { let $x = self; $ens }
  #[verifier::external_body] fn tmul(self, r: $b) -> $o { unimplemented!() } } } } }
macro_rules! div { ($a:ty, $b:ty, $o:ty, $x:ident, $y:ident, $r:ident, $req:expr, $ens:expr) => { verus! { impl TDiv<$b> for $a { type O = $o;
  open spec fn div_ok(self, $y: $b) -> bool { let $x = self; $req } open spec fn div_sp(self, $y: $b, $r: $o) -> bool { let $x = self; $ens }
  #[verifier::external_body] fn tdiv(self, r: $b) -> $o { unimplemented!() } } } } }
macro_rules! rem { ($a:ty, $b:ty, $o:ty, $x:ident, $y:ident, $r:ident, $req:expr, $ens:expr) => { verus! { impl TRem<$b> for $a { type O = $o;
  open spec fn rem_ok(self, $y: $b) -> bool { let $x = self; $req } open spec fn rem_sp(self, $y: $b, $r: $o) -> bool { let $x = self; $ens }
  #[verifier::external_body] fn trem(self, r: $b) -> $o { unimplemented!() } } } } }
macro_rules! shl { ($a:ty, $b:ty, $o:ty, $x:ident, $y:ident, $r:ident, $req:expr, $ens:expr) => { verus! { impl TShl<$b> for $a { type O = $o;
  open spec fn shl_ok(self, $y: $b) -> bool { let $x = self; $req } open spec fn shl_sp(self, $y: $b, $r: $o) -> bool { let $x = self; $ens }
  #[verifier::external_body] fn tshl(self, r: $b) -> $o { unimplemented!() } } } } }
macro_rules! shr { ($a:ty, $b:ty, $o:ty, $x:ident, $y:ident, $r:ident, $req:expr, $ens:expr) => { verus! { impl TShr<$b> for $a { type O = $o;
  open spec fn shr_ok(self, $y: $b) -> bool { let $x = self; $req } open spec fn shr_sp(self, $y: $b, $r: $o) -> bool { let $x = self; $ens }
  #[verifier::external_body] fn tshr(self, r: $b) -> $o { unimplemented!() } } } } }
macro_rules! and { ($a:ty, $b:ty, $o:ty, $x:ident, $y:ident, $r:ident, $req:expr, $ens:expr) => { verus! { impl TAnd<$b> for $a { type O = $o;
  open spec fn and_ok(self, $y: $b) -> bool { let $x = self; $req } open spec fn and_sp(self, $y: $b, $r: $o) -> bool { let $x = self; $ens }
  #[verifier::external_body] fn tand(self, r: $b) -> $o { unimplemented!() } } } } }
macro_rules! adda { ($a:ty, $b:ty, $x:ident, $y:ident, $r:ident, $req:expr, $ens:expr) => { verus! { impl TAddA<$b> for $a {
  open spec fn adda_ok(self, $y: $b) -> bool { let $x = self; $req } open spec fn adda_sp(self, $y: $b, $r: Self) -> bool { let $x = self; $ens }
  #[verifier::external_body] fn tadda(&mut self, r: $b) { unimplemented!() } } } } }
macro_rules! suba { ($a:ty, $b:ty, $x:ident, $y:ident, $r:ident, $req:expr, $ens:expr) => { verus! { impl TSubA<$b> for $a {
  open spec fn suba_ok(self, $y: $b) -> bool { let $x = self; $req } open spec fn suba_sp(self, $y: $b, $r: Self) -> bool { let $x = self; $ens }
  #[verifier::external_body] fn tsuba(&mut self, r: $b) { unimplemented!() } } } } }
macro_rules! mula { ($a:ty, $b:ty, $x:ident, $y:ident, $r:ident, $req:expr, $ens:expr) => { verus! { impl TMulA<$b> for $a {
  open spec fn mula_ok(self, $y: $b) -> bool { let $x = self; $req } open spec fn mula_sp(self, $y: $b, $r: Self) -> bool { let $x = self; $ens }
  #[verifier::external_body] fn tmula(&mut self, r: $b) { unimplemented!() } } } } }
macro_rules! diva { ($a:ty, $b:ty, $x:ident, $y:ident, $r:ident, $req:expr, $ens:expr) => { verus! { impl TDivA<$b> for $a {
  open spec fn diva_ok(self, $y: $b) -> bool { let $x = self; $req } open spec fn diva_sp(self, $y: $b, $r: Self) -> bool { let $x = self; $ens }
  #[verifier::external_body] fn tdiva(&mut self, r: $b) { unimplemented!() } } } } }
macro_rules! rema { ($a:ty, $b:ty, $x:ident, $y:ident, $r:ident, $req:expr, $ens:expr) => { verus! { impl TRemA<$b> for $a {
  open spec fn rema_ok(self, $y: $b) -> bool { let $x = self; $req } open spec fn rema_sp(self, $y: $b, $r: Self) -> bool { let $x = self; $ens }
  #[verifier::external_body] fn trema(&mut self, r: $b) { unimplemented!() } } } } }
macro_rules! shla { ($a:ty, $b:ty, $x:ident, $y:ident, $r:ident, $req:expr, $ens:expr) => { verus! { impl TShlA<$b> for $a {
  open spec fn shla_ok(self, $y: $b) -> bool { let $x = self; $req } open spec fn shla_sp(self, $y: $b, $r: Self) -> bool { let $x = self; $ens }
  #[verifier::external_body] fn tshla(&mut self, r: $b) { unimplemented!() } } } } }
macro_rules! shra { ($a:ty, $b:ty, $x:ident, $y:ident, $r:ident, $req:expr, $ens:expr) => { verus! { impl TShrA<$b> for $a {
  open spec fn shra_ok(self, $y: $b) -> bool { let $x = self; $req } open spec fn shra_sp(self, $y: $b, $r: Self) -> bool { let $x = self; $ens }
  #[verifier::external_body] fn tshra(&mut self, r: $b) { unimplemented!() } } } } }

// linear combinations
add!(Lc, Var, Lc, x, y, r, true, r.val() == x.val() + y.val());
add!(Lc, &Lc, Lc, x, y, r, true, r.val() == x.val() + y.val());
add!(Lc, (Scalar, Var), Lc, x, y, r, true, r.val() == x.val() + y.0.v() * y.1.val() && (y.1.val() != 1 || r.val() == x.val() + y.0.v()));
add!(Lc, (Scalar, &Lc), Lc, x, y, r, true, r.val() == x.val() + y.0.v() * y.1.val());
sub!(Lc, Var, Lc, x, y, r, true, r.val() == x.val() - y.val());
sub!(Lc, &Lc, Lc, x, y, r, true, r.val() == x.val() - y.val());
sub!(Lc, (Scalar, Var), Lc, x, y, r, true, r.val() == x.val() - y.0.v() * y.1.val() && (y.1.val() != 1 || r.val() == x.val() - y.0.v()));
sub!(Lc, (Scalar, &Lc), Lc, x, y, r, true, r.val() == x.val() - y.0.v() * y.1.val());
// field elements
add!(Scalar, Scalar, Scalar, x, y, r, true, r.v() == (x.v() + y.v()) % P());
sub!(Scalar, Scalar, Scalar, x, y, r, true, r.v() == (x.v() - y.v()) % P());
mul!(Scalar, Scalar, Scalar, x, y, r, true, r.v() == (x.v() * y.v()) % P());
mul!(Scalar, &Scalar, Scalar, x, y, r, true, r.v() == (x.v() * y.v()) % P());
adda!(Scalar, Scalar, x, y, r, true, r.v() == (x.v() + y.v()) % P());
adda!(Scalar, &Scalar, x, y, r, true, r.v() == (x.v() + y.v()) % P());
suba!(Scalar, &Scalar, x, y, r, true, r.v() == (x.v() - y.v()) % P());
mula!(Scalar, &Scalar, x, y, r, true, r.v() == (x.v() * y.v()) % P());
// integers
add!(BigInt, BigInt, BigInt, x, y, r, true, r.v() == x.v() + y.v());
add!(BigInt, &BigInt, BigInt, x, y, r, true, r.v() == x.v() + y.v());
add!(&BigInt, &BigInt, BigInt, x, y, r, true, r.v() == x.v() + y.v());
sub!(BigInt, BigInt, BigInt, x, y, r, true, r.v() == x.v() - y.v());
sub!(BigInt, &BigInt, BigInt, x, y, r, true, r.v() == x.v() - y.v());
sub!(BigInt, i32, BigInt, x, y, r, true, r.v() == x.v() - y);
mul!(BigInt, BigInt, BigInt, x, y, r, true, r.v() == x.v() * y.v());
mul!(BigInt, &BigInt, BigInt, x, y, r, true, r.v() == x.v() * y.v());
mul!(&BigInt, BigInt, BigInt, x, y, r, true, r.v() == x.v() * y.v());
mul!(&BigInt, i32, BigInt, x, y, r, true, r.v() == x.v() * y);
div!(BigInt, BigInt, BigInt, x, y, r, y.v() != 0, r.v() == tdiv_sp(x.v(), y.v()));
div!(BigInt, &BigInt, BigInt, x, y, r, y.v() != 0, r.v() == tdiv_sp(x.v(), y.v()));
div!(&BigInt, &BigInt, BigInt, x, y, r, y.v() != 0, r.v() == tdiv_sp(x.v(), y.v()));
rem!(&BigInt, &BigInt, BigInt, x, y, r, y.v() != 0, r.v() == x.v() - y.v() * tdiv_sp(x.v(), y.v()));
shl!(BigInt, u32, BigInt, x, y, r, true, r.v() == x.v() * pow2(y as nat));
and!(&BigInt, &BigInt, BigInt, x, y, r, true, mask_sp(x.v(), y.v(), r.v()));
adda!(BigInt, BigInt, x, y, r, true, r.v() == x.v() + y.v());
adda!(BigInt, &BigInt, x, y, r, true, r.v() == x.v() + y.v());
suba!(BigInt, BigInt, x, y, r, true, r.v() == x.v() - y.v());
suba!(BigInt, &BigInt, x, y, r, true, r.v() == x.v() - y.v());
suba!(BigInt, i32, x, y, r, true, r.v() == x.v() - y);
mula!(BigInt, BigInt, x, y, r, true, r.v() == x.v() * y.v());
mula!(BigInt, &BigInt, x, y, r, true, r.v() == x.v() * y.v());
diva!(BigInt, &BigInt, x, y, r, y.v() != 0, r.v() == tdiv_sp(x.v(), y.v()));
rema!(BigInt, &BigInt, x, y, r, y.v() != 0, r.v() == x.v() - y.v() * tdiv_sp(x.v(), y.v()));
shla!(BigInt, u32, x, y, r, true, r.v() == x.v() * pow2(y as nat));
shra!(BigInt, u32, x, y, r, true, r.v() == x.v() / (pow2(y as nat) as int));
verus! {
impl TNeg for Scalar { type O = Scalar; open spec fn neg_sp(self, o: Scalar) -> bool { o.v() == (-self.v()) % P() } #[verifier::external_body] fn tneg(self) -> Scalar { unimplemented!() } }
// machine integers: overflow is an obligation
impl TAdd<usize> for usize { type O = usize; open spec fn add_ok(self, r: usize) -> bool { self + r <= usize::MAX } open spec fn add_sp(self, r: usize, o: usize) -> bool { o == self + r } fn tadd(self, r: usize) -> usize { self + r } }
impl TSub<usize> for usize { type O = usize; open spec fn sub_ok(self, r: usize) -> bool { self >= r } open spec fn sub_sp(self, r: usize, o: usize) -> bool { o == self - r } fn tsub(self, r: usize) -> usize { self - r } }
impl TMul<usize> for usize { type O = usize; open spec fn mul_ok(self, r: usize) -> bool { self * r <= usize::MAX } open spec fn mul_sp(self, r: usize, o: usize) -> bool { o == self * r } fn tmul(self, r: usize) -> usize { self * r } }
impl TDiv<usize> for usize { type O = usize; open spec fn div_ok(self, r: usize) -> bool { r != 0 } open spec fn div_sp(self, r: usize, o: usize) -> bool { o as int == self as int / r as int } fn tdiv(self, r: usize) -> usize { self / r } }
impl TRem<usize> for usize { type O = usize; open spec fn rem_ok(self, r: usize) -> bool { r != 0 } open spec fn rem_sp(self, r: usize, o: usize) -> bool { o as int == self as int % r as int } fn trem(self, r: usize) -> usize { self % r } }
impl TShl<usize> for u128 { type O = u128; open spec fn shl_ok(self, r: usize) -> bool { r < 128 } open spec fn shl_sp(self, r: usize, o: u128) -> bool { o as int == (self * pow2(r as nat)) % (pow2(128) as int) } #[verifier::external_body] fn tshl(self, r: usize) -> u128 { unimplemented!() } }
impl TShr<usize> for u8 { type O = u8; open spec fn shr_ok(self, r: usize) -> bool { r < 8 } open spec fn shr_sp(self, r: usize, o: u8) -> bool { o as int == self as int / pow2(r as nat) as int } #[verifier::external_body] fn tshr(self, r: usize) -> u8 { unimplemented!() } }
impl TAnd<u8> for u8 { type O = u8; open spec fn and_ok(self, r: u8) -> bool { true } open spec fn and_sp(self, r: u8, o: u8) -> bool { r == 1 ==> o as int == self as int % 2 } fn tand(self, r: u8) -> u8 { let o = self & r; assert(r == 1 ==> o == self % 2) by (bit_vector) requires o == self & r; o } }
impl TAnd<usize> for usize { type O = usize; open spec fn and_ok(self, r: usize) -> bool { true } open spec fn and_sp(self, r: usize, o: usize) -> bool { r == 1 ==> o as int == self as int % 2 } fn tand(self, r: usize) -> usize { let o = self & r; assert(r == 1 ==> o == self % 2) by (bit_vector) requires o == self & r; o } }

// ---------------------------------------------------------------- comparison
pub trait TCmp {
    spec fn eq_sp(&self, o: &Self) -> bool;
    spec fn lt_sp(&self, o: &Self) -> bool;
    fn teq(&self, o: &Self) -> (r: bool) ensures r == self.eq_sp(o);
    fn tlt(&self, o: &Self) -> (r: bool) ensures r == self.lt_sp(o);
    fn tle(&self, o: &Self) -> (r: bool) ensures r == (self.lt_sp(o) || self.eq_sp(o));
    fn tcmp(&self, o: &Self) -> (r: Ordering) ensures (r is Less) == self.lt_sp(o), (r is Equal) == self.eq_sp(o);
}
impl<T: TCmp> TCmp for &T {
    open spec fn eq_sp(&self, o: &Self) -> bool { (**self).eq_sp(*o) }
    open spec fn lt_sp(&self, o: &Self) -> bool { (**self).lt_sp(*o) }
    fn teq(&self, o: &Self) -> bool { (**self).teq(*o) }
    fn tlt(&self, o: &Self) -> bool { (**self).tlt(*o) }
    fn tle(&self, o: &Self) -> bool { (**self).tle(*o) }
    fn tcmp(&self, o: &Self) -> Ordering { (**self).tcmp(*o) }
}
} // verus!
macro_rules! cmpi { ($t:ty) => { verus! { impl TCmp for $t {
    open spec fn eq_sp(&self, o: &Self) -> bool { *self == *o }
    open spec fn lt_sp(&self, o: &Self) -> bool { *self < *o }
    fn teq(&self, o: &Self) -> bool { *self == *o }
    fn tlt(&self, o: &Self) -> bool { *self < *o }
    fn tle(&self, o: &Self) -> bool { *self <= *o }
    fn tcmp(&self, o: &Self) -> Ordering { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } }
} } } }
macro_rules! cmpx { ($t:ty) => { verus! { impl TCmp for $t {
    open spec fn eq_sp(&self, o: &Self) -> bool { self.v() == o.v() }
    open spec fn lt_sp(&self, o: &Self) -> bool { self.v() < o.v() }
    #[verifier::external_body] fn teq(&self, o: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn tlt(&self, o: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn tle(&self, o: &Self) -> bool { unimplemented!() }
    #[verifier::external_body] fn tcmp(&self, o: &Self) -> Ordering { unimplemented!() }
} } } }
cmpi!(usize); cmpi!(u8); cmpi!(u32); cmpi!(u64);
cmpx!(BigInt); cmpx!(Scalar);
verus! {
pub trait TMax: Sized {
    spec fn le_sp(self, o: Self) -> bool;
    fn tmax(self, o: Self) -> (r: Self) ensures r == (if self.le_sp(o) { o } else { self });
    fn tmin(self, o: Self) -> (r: Self) ensures r == (if self.le_sp(o) { self } else { o });
}
impl TMax for usize {
    open spec fn le_sp(self, o: Self) -> bool { self <= o }
    fn tmax(self, o: Self) -> Self { if self <= o { o } else { self } }
    fn tmin(self, o: Self) -> Self { if self <= o { self } else { o } }
}
impl TMax for BigInt {
    open spec fn le_sp(self, o: Self) -> bool { self.v() <= o.v() }
    fn tmax(self, o: Self) -> Self { if TCmp::tle(&self, &o) { o } else { self } }
    fn tmin(self, o: Self) -> Self { if TCmp::tle(&self, &o) { self } else { o } }
}
impl TMax for &BigInt {
    open spec fn le_sp(self, o: Self) -> bool { self.v() <= o.v() }
    fn tmax(self, o: Self) -> Self { if TCmp::tle(self, o) { o } else { self } }
    fn tmin(self, o: Self) -> Self { if TCmp::tle(self, o) { self } else { o } }
}

// ---------------------------------------------------------------- the standard library
pub trait Cl: Sized { fn cl(&self) -> (r: Self) ensures r == *self; }
impl Cl for () { fn cl(&self) -> Self { () } }
impl Cl for Scalar { fn cl(&self) -> Self { *self } }
impl Cl for Var { fn cl(&self) -> Self { *self } }
impl Cl for bool { fn cl(&self) -> Self { *self } }
impl Cl for usize { fn cl(&self) -> Self { *self } }
impl Cl for u32 { fn cl(&self) -> Self { *self } }
impl Cl for u64 { fn cl(&self) -> Self { *self } }
impl Cl for Lc { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
impl Cl for BigInt { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
impl<T: Cl> Cl for Vec<T> { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
impl<T: Cl> Cl for Option<T> { fn cl(&self) -> Self { match self { Some(x) => Some(x.cl()), None => None } } }

#[verifier::external_body]
pub fn mem_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { core::mem::replace(a, b) }
#[verifier::external_body]
pub fn vec_rep<T: Cl>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x { unimplemented!() }
/// an element moved out of a vector that is not used afterwards
#[verifier::external_body]
pub fn mv__<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub fn vref__<T>(v: &Vec<T>) -> (r: &Vec<T>) ensures r == v { v }
#[verifier::external_body]
pub fn slice__<T>(v: &[T], lo: usize, hi: usize) -> (r: &[T]) requires lo <= hi <= v@.len(), ensures r@ == v@.subrange(lo as int, hi as int) { &v[lo..hi] }
#[verifier::external_body]
pub fn slice_from__<T>(v: &[T], lo: usize) -> (r: &[T]) requires lo <= v@.len(), ensures r@ == v@.skip(lo as int) { &v[lo..] }
pub fn span__(lo: usize, hi: usize) -> (r: usize) ensures r == (if lo < hi { hi - lo } else { 0 }) { if lo < hi { hi - lo } else { 0 } }
pub fn vec_last<T>(v: &Vec<T>) -> (r: Option<&T>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r is Some && *r->0 == v@.last() { if v.len() == 0 { None } else { Some(&v[v.len() - 1]) } }
pub trait VecX<T>: Sized + View<V = Seq<T>> {
    fn vdrain(&mut self, lo: usize, hi: usize)
        requires lo <= hi <= old(self)@.len(), ensures final(self)@ == old(self)@.take(lo as int) + old(self)@.skip(hi as int);
    fn vsplice(&mut self, lo: usize, hi: usize, s: Vec<T>)
        requires lo <= hi <= old(self)@.len(), ensures final(self)@ == old(self)@.take(lo as int) + s@ + old(self)@.skip(hi as int);
    fn vreverse(&mut self) ensures final(self)@ == old(self)@.reverse();
    fn vtruncate(&mut self, n: usize) ensures final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ });
}
impl<T> VecX<T> for Vec<T> {
    #[verifier::external_body] fn vdrain(&mut self, lo: usize, hi: usize) { unimplemented!() }
    #[verifier::external_body] fn vsplice(&mut self, lo: usize, hi: usize, s: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vreverse(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vtruncate(&mut self, n: usize) { unimplemented!() }
}
pub open spec fn sorted32(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j] }
pub trait VecS: View<V = Seq<u32>> { fn vsort(&mut self) ensures sorted32(final(self)@), final(self)@.to_multiset() == old(self)@.to_multiset(), final(self)@.len() == old(self)@.len(); }
impl VecS for Vec<u32> { #[verifier::external_body] fn vsort(&mut self) { unimplemented!() } }
// ---- cells shared through Rc<RefCell<X>>: a heap of cells, each with the number of readers that still hold it
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct RcCell<X> { x: X }
impl<X> RcCell<X> {
    pub uninterp spec fn id(self) -> int;
    /// another handle of the same cell
    #[verifier::external_body]
    pub fn cl(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct Heap<X> { x: X }
impl<X> Heap<X> {
    pub uninterp spec fn has(self, id: int) -> bool;
    pub uninterp spec fn at(self, id: int) -> X;
    pub uninterp spec fn readers(self, id: int) -> nat;
    /// the others are as they were
    pub open spec fn same_but(self, o: Heap<X>, id: int) -> bool { forall|j: int| j != id ==> #[trigger] self.has(j) == o.has(j) && self.at(j) == o.at(j) && self.readers(j) == o.readers(j) }
    #[verifier::external_body]
    pub fn new_cell__(&mut self, x: X) -> (r: RcCell<X>)
        ensures !old(self).has(r.id()), final(self).has(r.id()), final(self).at(r.id()) == x, final(self).readers(r.id()) == 0, final(self).same_but(*old(self), r.id()),
    { unimplemented!() }
    /// `borrow_mut`: panics while there are readers
    #[verifier::external_body]
    pub fn borrow_mut__(&mut self, c: &RcCell<X>) -> (r: &mut X)
        requires old(self).readers(c.id()) == 0,
        ensures *r == old(self).at(c.id()), final(self).at(c.id()) == *final(r), final(self).has(c.id()) == old(self).has(c.id()), final(self).readers(c.id()) == 0, final(self).same_but(*old(self), c.id()),
    { unimplemented!() }
    /// `borrow` whose guard is dropped at once
    #[verifier::external_body]
    pub fn peek__(&self, c: &RcCell<X>) -> (r: &X) ensures *r == self.at(c.id()) { unimplemented!() }
    /// `borrow` whose guard is handed out
    #[verifier::external_body]
    pub fn reader__<'a>(&'a mut self, c: &RcCell<X>) -> (r: &'a X)
        ensures *r == old(self).at(c.id()), final(self).at(c.id()) == old(self).at(c.id()), final(self).has(c.id()) == old(self).has(c.id()), final(self).readers(c.id()) == old(self).readers(c.id()) + 1, final(self).same_but(*old(self), c.id()),
    { unimplemented!() }
}
pub fn guard__<X>(x: &X) {}
/// counts the initialisers run
#[verifier::external_body]
pub struct Runs { x: u64 }
impl Runs { pub uninterp spec fn n(self) -> nat; }
#[verifier::external_body]
pub fn run__<T, F: FnOnce() -> T>(f: F, k: &mut Runs) -> (r: T) requires f.requires(()), ensures f.ensures((), r), final(k).n() == old(k).n() + 1 { unimplemented!() }
#[verifier::external_body]
pub fn unreachable__<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
pub fn panic__<T>() -> (r: T) requires false { unimplemented!() }
pub fn assert__(b: bool) requires b {}
pub trait TFrom<A>: Sized { spec fn from_ok(a: A) -> bool; spec fn from_sp(a: A, o: Self) -> bool; fn tfrom(a: A) -> (o: Self) requires Self::from_ok(a) ensures Self::from_sp(a, o); }
} // verus!
