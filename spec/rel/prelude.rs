// The trusted base of the relational proof (C15): of every library operation it is assumed only
// that the result is a function of the arguments (the same in both runs); a run that panics is not compared.
#![allow(unused, non_snake_case, dead_code)]
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
pub uninterp spec fn f0<O>(op: int) -> O;
pub uninterp spec fn f1<A, O>(op: int, a: A) -> O;
pub uninterp spec fn f2<A, B, O>(op: int, a: A, b: B) -> O;
/// agree in everything but the witness
pub trait Sh {spec fn sh(&self, o: &Self) -> bool; }
pub open spec fn same<T: Sh>(a: T, b: T) -> bool { a.sh(&b) }
pub open spec fn same_s<T: Sh>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).sh(&b[i]) }
impl<T: Sh> Sh for &T { open spec fn sh(&self, o: &Self) -> bool { (**self).sh(*o) } }
impl<T: Sh> Sh for Vec<T> { open spec fn sh(&self, o: &Self) -> bool { self@.len() == o@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).sh(&o@[i]) } }
impl<T: Sh> Sh for [T] { open spec fn sh(&self, o: &Self) -> bool { self@.len() == o@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).sh(&o@[i]) } }
impl<T: Sh> Sh for Option<T> { open spec fn sh(&self, o: &Self) -> bool { match (*self, *o) { (Some(a), Some(b)) => a.sh(&b), (None, None) => true, _ => false } } }
impl<T: Sh, E> Sh for Result<T, E> { open spec fn sh(&self, o: &Self) -> bool { match (*self, *o) { (Ok(a), Ok(b)) => a.sh(&b), _ => true } } }
impl<A: Sh, B: Sh> Sh for (A, B) { open spec fn sh(&self, o: &Self) -> bool { self.0.sh(&o.0) && self.1.sh(&o.1) } }
impl Sh for () { open spec fn sh(&self, o: &Self) -> bool { true } }
pub enum SynthesisError { AssignmentMissing, Unsatisfiable, IoError, DivisionByZero, Other }
impl Sh for usize { open spec fn sh(&self, o: &Self) -> bool { *self == *o } }
impl Sh for u8 { open spec fn sh(&self, o: &Self) -> bool { *self == *o } }
impl Sh for u16 { open spec fn sh(&self, o: &Self) -> bool { *self == *o } }
impl Sh for u32 { open spec fn sh(&self, o: &Self) -> bool { *self == *o } }
impl Sh for u64 { open spec fn sh(&self, o: &Self) -> bool { *self == *o } }
impl Sh for u128 { open spec fn sh(&self, o: &Self) -> bool { *self == *o } }
impl Sh for i32 { open spec fn sh(&self, o: &Self) -> bool { *self == *o } }
impl Sh for bool { open spec fn sh(&self, o: &Self) -> bool { *self == *o } }
/// a value that is never given: the control flow of the two runs must not differ
pub fn must__(b: bool) requires b {}
pub fn diff__<T>() -> (r: T) requires false { unimplemented!() }
/// an index beyond the end panics
pub trait Ix { spec fn ilen(&self) -> nat; fn ix__(&self, i: usize) -> (r: usize) ensures r == i, i < self.ilen(); }
impl<T> Ix for Vec<T> { open spec fn ilen(&self) -> nat { self@.len() } #[verifier::external_body] fn ix__(&self, i: usize) -> usize { unimplemented!() } }
impl<T> Ix for [T] { open spec fn ilen(&self) -> nat { self@.len() } #[verifier::external_body] fn ix__(&self, i: usize) -> usize { unimplemented!() } }
pub trait Unw { type T; spec fn uok(self) -> bool; spec fn usp(self) -> Self::T; fn unw__(self) -> (r: Self::T) ensures self.uok(), r == self.usp(); }
impl<T> Unw for Option<T> { type T = T; open spec fn uok(self) -> bool { self is Some } open spec fn usp(self) -> T { self->0 } #[verifier::external_body] fn unw__(self) -> T { unimplemented!() } }
impl<T, E> Unw for Result<T, E> { type T = T; open spec fn uok(self) -> bool { self is Ok } open spec fn usp(self) -> T { self->Ok_0 } #[verifier::external_body] fn unw__(self) -> T { unimplemented!() } }
impl Unw for CtOption { type T = Scalar; open spec fn uok(self) -> bool { true } open spec fn usp(self) -> Scalar { f1(60, self) } #[verifier::external_body] fn unw__(self) -> Scalar { unimplemented!() } }
#[verifier::external_body]
pub fn unreachable__<T>() -> (r: T) ensures false { unimplemented!() }
#[verifier::external_body]
pub fn panic__<T>() -> (r: T) ensures false { unimplemented!() }
#[verifier::external_body]
pub fn assert__(b: bool) ensures b { unimplemented!() }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Scalar { x: u64 }
impl Sh for Scalar { open spec fn sh(&self, o: &Self) -> bool { *self == *o } }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Var { x: u64 }
impl Sh for Var { open spec fn sh(&self, o: &Self) -> bool { *self == *o } }
#[verifier::external_body]
pub struct Lc { x: u64 }
impl Sh for Lc { open spec fn sh(&self, o: &Self) -> bool { *self == *o } }
#[verifier::external_body]
pub struct BigInt { x: u64 }
impl Sh for BigInt { open spec fn sh(&self, o: &Self) -> bool { *self == *o } }
#[verifier::external_body]
pub struct Choice { x: u64 }
impl Sh for Choice { open spec fn sh(&self, o: &Self) -> bool { *self == *o } }
#[verifier::external_body]
pub struct CtOption { x: u64 }
impl Sh for CtOption { open spec fn sh(&self, o: &Self) -> bool { *self == *o } }
#[verifier::external_body]
pub struct Repr { x: u64 }
impl Sh for Repr { open spec fn sh(&self, o: &Self) -> bool { *self == *o } }
#[verifier::external_body]
pub struct Dec { x: u64 }
impl Sh for Dec { open spec fn sh(&self, o: &Self) -> bool { *self == *o } }
impl Scalar {
    #[verifier::external_body]
    pub fn one() -> (r: Scalar) ensures r == f0::<Scalar>(101) { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: Scalar) ensures r == f0::<Scalar>(102) { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity() -> (r: u32) ensures r == f0::<u32>(103) { unimplemented!() }
    #[verifier::external_body]
    pub fn num_bits() -> (r: u32) ensures r == f0::<u32>(104) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_u64(x: u64) -> (r: Scalar) ensures r == f1::<u64, Scalar>(105, x) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_u128(x: u128) -> (r: Scalar) ensures r == f1::<u128, Scalar>(106, x) { unimplemented!() }
    #[verifier::external_body]
    pub fn double(&self) -> (r: Scalar) ensures r == f1::<Scalar, Scalar>(107, *self) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: Choice) ensures r == f1::<Scalar, Choice>(108, *self) { unimplemented!() }
    #[verifier::external_body]
    pub fn invert(&self) -> (r: CtOption) ensures r == f1::<Scalar, CtOption>(109, *self) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_repr(&self) -> (r: Repr) ensures r == f1::<Scalar, Repr>(110, *self) { unimplemented!() }
    #[verifier::external_body]
    pub fn square(&self) -> (r: Scalar) ensures r == f1::<Scalar, Scalar>(111, *self) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_str_vartime(s: &Dec) -> (r: Option<Scalar>) ensures r == f1::<Dec, Option<Scalar>>(61, *s) { unimplemented!() }
}
#[verifier::external_body]
pub fn dec__(n: &BigInt) -> (r: Dec) ensures r == f1::<BigInt, Dec>(62, *n) { unimplemented!() }
impl Choice {
    #[verifier::external_body]
    pub fn unwrap_u8(&self) -> (r: u8) ensures r == f1::<Choice, u8>(63, *self) { unimplemented!() }
}
#[verifier::external_body]
pub fn choice__(c: Choice) -> (r: bool) ensures r == f1::<Choice, bool>(64, c) { unimplemented!() }
impl Repr {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &Vec<u8>) ensures *r == f1::<Repr, Vec<u8>>(65, *self) { unimplemented!() }
}
#[verifier::external_body]
pub fn write_be(f: &Scalar, w: &mut Vec<u8>) -> (r: Result<(), ()>) { unimplemented!() }
pub enum Sign { Plus, Minus, NoSign }
#[verifier::external_body]
pub fn bigint_from_bytes_le(s: Sign, b: &Vec<u8>) -> (r: BigInt) ensures r == f2::<Sign, Vec<u8>, BigInt>(66, s, *b) { unimplemented!() }
impl BigInt {
    #[verifier::external_body]
    pub fn bits(&self) -> (r: u64) ensures r == f1::<BigInt, u64>(67, *self) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_bit(&mut self, i: u64, b: bool) ensures *final(self) == f2::<(BigInt, u64), bool, BigInt>(68, (*old(self), i), b) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_multiple_of(&self, o: &BigInt) -> (r: bool) ensures r == f2::<BigInt, BigInt, bool>(69, *self, *o) { unimplemented!() }
}
pub trait ToBig: Sized { fn to_big(self) -> (r: BigInt) ensures r == f1::<Self, BigInt>(70, self); }
impl ToBig for i32 { #[verifier::external_body] fn to_big(self) -> BigInt { unimplemented!() } }
impl ToBig for u8 { #[verifier::external_body] fn to_big(self) -> BigInt { unimplemented!() } }
impl ToBig for u32 { #[verifier::external_body] fn to_big(self) -> BigInt { unimplemented!() } }
impl ToBig for u64 { #[verifier::external_body] fn to_big(self) -> BigInt { unimplemented!() } }
impl ToBig for usize { #[verifier::external_body] fn to_big(self) -> BigInt { unimplemented!() } }
impl ToBig for BigInt { #[verifier::external_body] fn to_big(self) -> BigInt { unimplemented!() } }
impl Lc {
    #[verifier::external_body]
    pub fn zero() -> (r: Lc) ensures r == f0::<Lc>(112) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_variable(v: Var) -> (r: Lc) ensures r == f1::<Var, Lc>(113, v) { unimplemented!() }
}
pub trait TAdd<R>: Sized { type O; fn tadd(self, r: R) -> (o: Self::O) ensures o == f2::<Self, R, Self::O>(1, self, r); }
pub trait TSub<R>: Sized { type O; fn tsub(self, r: R) -> (o: Self::O) ensures o == f2::<Self, R, Self::O>(2, self, r); }
pub trait TMul<R>: Sized { type O; fn tmul(self, r: R) -> (o: Self::O) ensures o == f2::<Self, R, Self::O>(3, self, r); }
pub trait TDiv<R>: Sized { type O; fn tdiv(self, r: R) -> (o: Self::O) ensures o == f2::<Self, R, Self::O>(4, self, r); }
pub trait TRem<R>: Sized { type O; fn trem(self, r: R) -> (o: Self::O) ensures o == f2::<Self, R, Self::O>(5, self, r); }
pub trait TShl<R>: Sized { type O; fn tshl(self, r: R) -> (o: Self::O) ensures o == f2::<Self, R, Self::O>(6, self, r); }
pub trait TShr<R>: Sized { type O; fn tshr(self, r: R) -> (o: Self::O) ensures o == f2::<Self, R, Self::O>(7, self, r); }
pub trait TAnd<R>: Sized { type O; fn tand(self, r: R) -> (o: Self::O) ensures o == f2::<Self, R, Self::O>(8, self, r); }
pub trait TNeg: Sized { type O; fn tneg(self) -> (o: Self::O) ensures o == f1::<Self, Self::O>(9, self); }
pub trait TAddA<R>: Sized { fn tadda(&mut self, r: R) ensures *final(self) == f2::<Self, R, Self>(1, *old(self), r); }
pub trait TSubA<R>: Sized { fn tsuba(&mut self, r: R) ensures *final(self) == f2::<Self, R, Self>(2, *old(self), r); }
pub trait TMulA<R>: Sized { fn tmula(&mut self, r: R) ensures *final(self) == f2::<Self, R, Self>(3, *old(self), r); }
pub trait TDivA<R>: Sized { fn tdiva(&mut self, r: R) ensures *final(self) == f2::<Self, R, Self>(4, *old(self), r); }
pub trait TRemA<R>: Sized { fn trema(&mut self, r: R) ensures *final(self) == f2::<Self, R, Self>(5, *old(self), r); }
pub trait TShlA<R>: Sized { fn tshla(&mut self, r: R) ensures *final(self) == f2::<Self, R, Self>(6, *old(self), r); }
pub trait TShrA<R>: Sized { fn tshra(&mut self, r: R) ensures *final(self) == f2::<Self, R, Self>(7, *old(self), r); }
impl TAdd<Var> for Lc { type O = Lc; #[verifier::external_body] fn tadd(self, r: Var) -> Lc { unimplemented!() } }
impl TAdd<&Lc> for Lc { type O = Lc; #[verifier::external_body] fn tadd(self, r: &Lc) -> Lc { unimplemented!() } }
impl TAdd<(Scalar, Var)> for Lc { type O = Lc; #[verifier::external_body] fn tadd(self, r: (Scalar, Var)) -> Lc { unimplemented!() } }
impl TAdd<(Scalar, &Lc)> for Lc { type O = Lc; #[verifier::external_body] fn tadd(self, r: (Scalar, &Lc)) -> Lc { unimplemented!() } }
impl TSub<Var> for Lc { type O = Lc; #[verifier::external_body] fn tsub(self, r: Var) -> Lc { unimplemented!() } }
impl TSub<&Lc> for Lc { type O = Lc; #[verifier::external_body] fn tsub(self, r: &Lc) -> Lc { unimplemented!() } }
impl TSub<(Scalar, Var)> for Lc { type O = Lc; #[verifier::external_body] fn tsub(self, r: (Scalar, Var)) -> Lc { unimplemented!() } }
impl TSub<(Scalar, &Lc)> for Lc { type O = Lc; #[verifier::external_body] fn tsub(self, r: (Scalar, &Lc)) -> Lc { unimplemented!() } }
impl TAdd<Scalar> for Scalar { type O = Scalar; #[verifier::external_body] fn tadd(self, r: Scalar) -> Scalar { unimplemented!() } }
impl TSub<Scalar> for Scalar { type O = Scalar; #[verifier::external_body] fn tsub(self, r: Scalar) -> Scalar { unimplemented!() } }
impl TMul<Scalar> for Scalar { type O = Scalar; #[verifier::external_body] fn tmul(self, r: Scalar) -> Scalar { unimplemented!() } }
impl TMul<&Scalar> for Scalar { type O = Scalar; #[verifier::external_body] fn tmul(self, r: &Scalar) -> Scalar { unimplemented!() } }
impl TAddA<Scalar> for Scalar { #[verifier::external_body] fn tadda(&mut self, r: Scalar) { unimplemented!() } }
impl TAddA<&Scalar> for Scalar { #[verifier::external_body] fn tadda(&mut self, r: &Scalar) { unimplemented!() } }
impl TSubA<&Scalar> for Scalar { #[verifier::external_body] fn tsuba(&mut self, r: &Scalar) { unimplemented!() } }
impl TMulA<&Scalar> for Scalar { #[verifier::external_body] fn tmula(&mut self, r: &Scalar) { unimplemented!() } }
impl TAdd<BigInt> for BigInt { type O = BigInt; #[verifier::external_body] fn tadd(self, r: BigInt) -> BigInt { unimplemented!() } }
impl TAdd<&BigInt> for BigInt { type O = BigInt; #[verifier::external_body] fn tadd(self, r: &BigInt) -> BigInt { unimplemented!() } }
impl TAdd<&BigInt> for &BigInt { type O = BigInt; #[verifier::external_body] fn tadd(self, r: &BigInt) -> BigInt { unimplemented!() } }
impl TSub<BigInt> for BigInt { type O = BigInt; #[verifier::external_body] fn tsub(self, r: BigInt) -> BigInt { unimplemented!() } }
impl TSub<&BigInt> for BigInt { type O = BigInt; #[verifier::external_body] fn tsub(self, r: &BigInt) -> BigInt { unimplemented!() } }
impl TSub<i32> for BigInt { type O = BigInt; #[verifier::external_body] fn tsub(self, r: i32) -> BigInt { unimplemented!() } }
impl TMul<BigInt> for BigInt { type O = BigInt; #[verifier::external_body] fn tmul(self, r: BigInt) -> BigInt { unimplemented!() } }
impl TMul<&BigInt> for BigInt { type O = BigInt; #[verifier::external_body] fn tmul(self, r: &BigInt) -> BigInt { unimplemented!() } }
impl TMul<BigInt> for &BigInt { type O = BigInt; #[verifier::external_body] fn tmul(self, r: BigInt) -> BigInt { unimplemented!() } }
impl TMul<i32> for &BigInt { type O = BigInt; #[verifier::external_body] fn tmul(self, r: i32) -> BigInt { unimplemented!() } }
impl TDiv<BigInt> for BigInt { type O = BigInt; #[verifier::external_body] fn tdiv(self, r: BigInt) -> BigInt { unimplemented!() } }
impl TDiv<&BigInt> for BigInt { type O = BigInt; #[verifier::external_body] fn tdiv(self, r: &BigInt) -> BigInt { unimplemented!() } }
impl TDiv<&BigInt> for &BigInt { type O = BigInt; #[verifier::external_body] fn tdiv(self, r: &BigInt) -> BigInt { unimplemented!() } }
impl TRem<&BigInt> for &BigInt { type O = BigInt; #[verifier::external_body] fn trem(self, r: &BigInt) -> BigInt { unimplemented!() } }
impl TShl<u32> for BigInt { type O = BigInt; #[verifier::external_body] fn tshl(self, r: u32) -> BigInt { unimplemented!() } }
impl TAnd<&BigInt> for &BigInt { type O = BigInt; #[verifier::external_body] fn tand(self, r: &BigInt) -> BigInt { unimplemented!() } }
impl TAddA<BigInt> for BigInt { #[verifier::external_body] fn tadda(&mut self, r: BigInt) { unimplemented!() } }
impl TAddA<&BigInt> for BigInt { #[verifier::external_body] fn tadda(&mut self, r: &BigInt) { unimplemented!() } }
impl TSubA<BigInt> for BigInt { #[verifier::external_body] fn tsuba(&mut self, r: BigInt) { unimplemented!() } }
impl TSubA<&BigInt> for BigInt { #[verifier::external_body] fn tsuba(&mut self, r: &BigInt) { unimplemented!() } }
impl TSubA<i32> for BigInt { #[verifier::external_body] fn tsuba(&mut self, r: i32) { unimplemented!() } }
impl TMulA<BigInt> for BigInt { #[verifier::external_body] fn tmula(&mut self, r: BigInt) { unimplemented!() } }
impl TMulA<&BigInt> for BigInt { #[verifier::external_body] fn tmula(&mut self, r: &BigInt) { unimplemented!() } }
impl TDivA<&BigInt> for BigInt { #[verifier::external_body] fn tdiva(&mut self, r: &BigInt) { unimplemented!() } }
impl TRemA<&BigInt> for BigInt { #[verifier::external_body] fn trema(&mut self, r: &BigInt) { unimplemented!() } }
impl TShlA<u32> for BigInt { #[verifier::external_body] fn tshla(&mut self, r: u32) { unimplemented!() } }
impl TShrA<u32> for BigInt { #[verifier::external_body] fn tshra(&mut self, r: u32) { unimplemented!() } }
impl TAdd<usize> for usize { type O = usize; #[verifier::external_body] fn tadd(self, r: usize) -> usize { unimplemented!() } }
impl TSub<usize> for usize { type O = usize; #[verifier::external_body] fn tsub(self, r: usize) -> usize { unimplemented!() } }
impl TMul<usize> for usize { type O = usize; #[verifier::external_body] fn tmul(self, r: usize) -> usize { unimplemented!() } }
impl TDiv<usize> for usize { type O = usize; #[verifier::external_body] fn tdiv(self, r: usize) -> usize { unimplemented!() } }
impl TRem<usize> for usize { type O = usize; #[verifier::external_body] fn trem(self, r: usize) -> usize { unimplemented!() } }
impl TShl<usize> for u128 { type O = u128; #[verifier::external_body] fn tshl(self, r: usize) -> u128 { unimplemented!() } }
impl TShr<usize> for u8 { type O = u8; #[verifier::external_body] fn tshr(self, r: usize) -> u8 { unimplemented!() } }
impl TAnd<u8> for u8 { type O = u8; #[verifier::external_body] fn tand(self, r: u8) -> u8 { unimplemented!() } }
impl TAnd<usize> for usize { type O = usize; #[verifier::external_body] fn tand(self, r: usize) -> usize { unimplemented!() } }
impl TNeg for Scalar { type O = Scalar; #[verifier::external_body] fn tneg(self) -> Scalar { unimplemented!() } }
pub trait TCmp {
    spec fn teq_sp(&self, o: &Self) -> bool;
    spec fn tlt_sp(&self, o: &Self) -> bool;
    spec fn tle_sp(&self, o: &Self) -> bool;
    spec fn tcmp_sp(&self, o: &Self) -> Ordering;
    fn teq(&self, o: &Self) -> (r: bool) ensures r == self.teq_sp(o);
    fn tlt(&self, o: &Self) -> (r: bool) ensures r == self.tlt_sp(o);
    fn tle(&self, o: &Self) -> (r: bool) ensures r == self.tle_sp(o);
    fn tcmp(&self, o: &Self) -> (r: Ordering) ensures r == self.tcmp_sp(o);
}
impl<T: TCmp> TCmp for &T {
    open spec fn teq_sp(&self, o: &Self) -> bool { (**self).teq_sp(*o) }
    #[verifier::external_body] fn teq(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tlt_sp(&self, o: &Self) -> bool { (**self).tlt_sp(*o) }
    #[verifier::external_body] fn tlt(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tle_sp(&self, o: &Self) -> bool { (**self).tle_sp(*o) }
    #[verifier::external_body] fn tle(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tcmp_sp(&self, o: &Self) -> Ordering { (**self).tcmp_sp(*o) }
    #[verifier::external_body] fn tcmp(&self, o: &Self) -> Ordering { unimplemented!() }
}
impl TCmp for usize {
    open spec fn teq_sp(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body] fn teq(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tlt_sp(&self, o: &Self) -> bool { *self < *o }
    #[verifier::external_body] fn tlt(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tle_sp(&self, o: &Self) -> bool { *self <= *o }
    #[verifier::external_body] fn tle(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tcmp_sp(&self, o: &Self) -> Ordering { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } }
    #[verifier::external_body] fn tcmp(&self, o: &Self) -> Ordering { unimplemented!() }
}
impl TCmp for u8 {
    open spec fn teq_sp(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body] fn teq(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tlt_sp(&self, o: &Self) -> bool { *self < *o }
    #[verifier::external_body] fn tlt(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tle_sp(&self, o: &Self) -> bool { *self <= *o }
    #[verifier::external_body] fn tle(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tcmp_sp(&self, o: &Self) -> Ordering { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } }
    #[verifier::external_body] fn tcmp(&self, o: &Self) -> Ordering { unimplemented!() }
}
impl TCmp for u32 {
    open spec fn teq_sp(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body] fn teq(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tlt_sp(&self, o: &Self) -> bool { *self < *o }
    #[verifier::external_body] fn tlt(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tle_sp(&self, o: &Self) -> bool { *self <= *o }
    #[verifier::external_body] fn tle(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tcmp_sp(&self, o: &Self) -> Ordering { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } }
    #[verifier::external_body] fn tcmp(&self, o: &Self) -> Ordering { unimplemented!() }
}
impl TCmp for u64 {
    open spec fn teq_sp(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body] fn teq(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tlt_sp(&self, o: &Self) -> bool { *self < *o }
    #[verifier::external_body] fn tlt(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tle_sp(&self, o: &Self) -> bool { *self <= *o }
    #[verifier::external_body] fn tle(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tcmp_sp(&self, o: &Self) -> Ordering { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } }
    #[verifier::external_body] fn tcmp(&self, o: &Self) -> Ordering { unimplemented!() }
}
impl TCmp for i32 {
    open spec fn teq_sp(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body] fn teq(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tlt_sp(&self, o: &Self) -> bool { *self < *o }
    #[verifier::external_body] fn tlt(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tle_sp(&self, o: &Self) -> bool { *self <= *o }
    #[verifier::external_body] fn tle(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tcmp_sp(&self, o: &Self) -> Ordering { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } }
    #[verifier::external_body] fn tcmp(&self, o: &Self) -> Ordering { unimplemented!() }
}
impl TCmp for BigInt {
    open spec fn teq_sp(&self, o: &Self) -> bool { f2::<BigInt, BigInt, bool>(71, *self, *o) }
    #[verifier::external_body] fn teq(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tlt_sp(&self, o: &Self) -> bool { f2::<BigInt, BigInt, bool>(72, *self, *o) }
    #[verifier::external_body] fn tlt(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tle_sp(&self, o: &Self) -> bool { f2::<BigInt, BigInt, bool>(73, *self, *o) }
    #[verifier::external_body] fn tle(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tcmp_sp(&self, o: &Self) -> Ordering { f2::<BigInt, BigInt, Ordering>(74, *self, *o) }
    #[verifier::external_body] fn tcmp(&self, o: &Self) -> Ordering { unimplemented!() }
}
impl TCmp for Scalar {
    open spec fn teq_sp(&self, o: &Self) -> bool { f2::<Scalar, Scalar, bool>(71, *self, *o) }
    #[verifier::external_body] fn teq(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tlt_sp(&self, o: &Self) -> bool { f2::<Scalar, Scalar, bool>(72, *self, *o) }
    #[verifier::external_body] fn tlt(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tle_sp(&self, o: &Self) -> bool { f2::<Scalar, Scalar, bool>(73, *self, *o) }
    #[verifier::external_body] fn tle(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tcmp_sp(&self, o: &Self) -> Ordering { f2::<Scalar, Scalar, Ordering>(74, *self, *o) }
    #[verifier::external_body] fn tcmp(&self, o: &Self) -> Ordering { unimplemented!() }
}
impl TCmp for bool {
    open spec fn teq_sp(&self, o: &Self) -> bool { f2::<bool, bool, bool>(71, *self, *o) }
    #[verifier::external_body] fn teq(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tlt_sp(&self, o: &Self) -> bool { f2::<bool, bool, bool>(72, *self, *o) }
    #[verifier::external_body] fn tlt(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tle_sp(&self, o: &Self) -> bool { f2::<bool, bool, bool>(73, *self, *o) }
    #[verifier::external_body] fn tle(&self, o: &Self) -> bool { unimplemented!() }
    open spec fn tcmp_sp(&self, o: &Self) -> Ordering { f2::<bool, bool, Ordering>(74, *self, *o) }
    #[verifier::external_body] fn tcmp(&self, o: &Self) -> Ordering { unimplemented!() }
}
pub trait TMax: Sized {
    spec fn max_sp(self, o: Self) -> Self;
    spec fn min_sp(self, o: Self) -> Self;
    fn tmax(self, o: Self) -> (r: Self) ensures r == self.max_sp(o);
    fn tmin(self, o: Self) -> (r: Self) ensures r == self.min_sp(o);
}
impl TMax for usize {
    open spec fn max_sp(self, o: Self) -> Self { if self <= o { o } else { self } }
    open spec fn min_sp(self, o: Self) -> Self { if self <= o { self } else { o } }
    fn tmax(self, o: Self) -> Self { if self <= o { o } else { self } }
    fn tmin(self, o: Self) -> Self { if self <= o { self } else { o } }
}
impl TMax for BigInt {
    open spec fn max_sp(self, o: Self) -> Self { f2(75, self, o) }
    open spec fn min_sp(self, o: Self) -> Self { f2(76, self, o) }
    #[verifier::external_body] fn tmax(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn tmin(self, o: Self) -> Self { unimplemented!() }
}
impl TMax for &BigInt {
    open spec fn max_sp(self, o: Self) -> Self { &f2(75, *self, *o) }
    open spec fn min_sp(self, o: Self) -> Self { &f2(76, *self, *o) }
    #[verifier::external_body] fn tmax(self, o: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn tmin(self, o: Self) -> Self { unimplemented!() }
}
pub trait Cl: Sized { fn cl(&self) -> (r: Self) ensures r == *self; }
impl<T: Cl> Cl for Vec<T> { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
impl<T: Cl> Cl for Option<T> { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
impl Cl for () { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
impl Cl for Scalar { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
impl Cl for Var { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
impl Cl for bool { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
impl Cl for usize { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
impl Cl for u8 { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
impl Cl for u32 { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
impl Cl for u64 { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
impl Cl for Lc { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
impl Cl for BigInt { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub fn mem_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { unimplemented!() }
#[verifier::external_body]
pub fn vec_rep<T: Cl>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x { unimplemented!() }
#[verifier::external_body]
pub fn mv__<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub fn vref__<T>(v: &Vec<T>) -> (r: &Vec<T>) ensures r == v { v }
#[verifier::external_body]
pub fn slice__<T>(v: &[T], lo: usize, hi: usize) -> (r: &[T]) ensures lo <= hi <= v@.len(), r@ == v@.subrange(lo as int, hi as int) { unimplemented!() }
#[verifier::external_body]
pub fn slice_from__<T>(v: &[T], lo: usize) -> (r: &[T]) ensures lo <= v@.len(), r@ == v@.skip(lo as int) { unimplemented!() }
pub fn span__(lo: usize, hi: usize) -> (r: usize) ensures r == (if lo < hi { hi - lo } else { 0 }) { if lo < hi { hi - lo } else { 0 } }
#[verifier::external_body]
pub fn vec_last<T>(v: &Vec<T>) -> (r: Option<&T>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r is Some && *r->0 == v@.last() { unimplemented!() }
pub trait VecX<T>: Sized + View<V = Seq<T>> {
    fn vdrain(&mut self, lo: usize, hi: usize) ensures lo <= hi <= old(self)@.len(), final(self)@ == old(self)@.take(lo as int) + old(self)@.skip(hi as int);
    fn vsplice(&mut self, lo: usize, hi: usize, s: Vec<T>) ensures lo <= hi <= old(self)@.len(), final(self)@ == old(self)@.take(lo as int) + s@ + old(self)@.skip(hi as int);
    fn vreverse(&mut self) ensures final(self)@ == old(self)@.reverse();
    fn vtruncate(&mut self, n: usize) ensures final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ });
    fn vinsert(&mut self, i: usize, x: T) ensures i <= old(self)@.len(), final(self)@ == old(self)@.insert(i as int, x);
}
impl<T> VecX<T> for Vec<T> {
    #[verifier::external_body] fn vdrain(&mut self, lo: usize, hi: usize) { unimplemented!() }
    #[verifier::external_body] fn vsplice(&mut self, lo: usize, hi: usize, s: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vreverse(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vtruncate(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn vinsert(&mut self, i: usize, x: T) { unimplemented!() }
}
pub trait VecS { fn vsort(&mut self); }
impl VecS for Vec<u32> { #[verifier::external_body] fn vsort(&mut self) { unimplemented!() } }
// the witness' own operations, used where nothing is compared
pub trait OptionExt<T> { fn grab(&self) -> Result<&T, SynthesisError>; }
impl<T> OptionExt<T> for Option<T> { #[verifier::external_body] fn grab(&self) -> Result<&T, SynthesisError> { unimplemented!() } }
impl Scalar { #[verifier::external_body] pub fn get_bit(&self, i: usize) -> Option<bool> { unimplemented!() } }
// ---- the constraint system: what was allocated and enforced, in order
#[verifier::external_body]
pub struct Cs { x: u64 }
pub uninterp spec fn ev_alloc(t: int) -> int;
pub uninterp spec fn ev_input(t: int) -> int;
pub uninterp spec fn ev_enforce(t: int, a: Lc, b: Lc, c: Lc) -> int;
pub uninterp spec fn var_of(t: int) -> Var;
impl Cs {
    /// the whole sequence of allocations and constraints so far
    pub uninterp spec fn tr(self) -> int;
    #[verifier::external_body]
    pub fn one() -> (r: Var) ensures r == f0::<Var>(80) { unimplemented!() }
    /// is there a witness: either answer, in each run
    #[verifier::external_body]
    pub fn wit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_w(&mut self, v: Scalar) -> (r: Result<Var, SynthesisError>) ensures r is Ok ==> final(self).tr() == ev_alloc(old(self).tr()) && r->Ok_0 == var_of(final(self).tr()) { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_s(&mut self) -> (r: Result<Var, SynthesisError>) ensures r is Ok ==> final(self).tr() == ev_alloc(old(self).tr()) && r->Ok_0 == var_of(final(self).tr()) { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_input_w(&mut self, v: Scalar) -> (r: Result<Var, SynthesisError>) ensures r is Ok ==> final(self).tr() == ev_input(old(self).tr()) && r->Ok_0 == var_of(final(self).tr()) { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_input_s(&mut self) -> (r: Result<Var, SynthesisError>) ensures r is Ok ==> final(self).tr() == ev_input(old(self).tr()) && r->Ok_0 == var_of(final(self).tr()) { unimplemented!() }
    #[verifier::external_body]
    pub fn enforce(&mut self, a: Lc, b: Lc, c: Lc) ensures final(self).tr() == ev_enforce(old(self).tr(), a, b, c) { unimplemented!() }
}
#[verifier::external_body]
pub struct AllocatedNum { x: u64 }
impl AllocatedNum { pub uninterp spec fn shp(self) -> int; }
impl Sh for AllocatedNum { open spec fn sh(&self, o: &Self) -> bool { self.shp() == o.shp() } }
impl Cl for AllocatedNum { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub struct AllocatedBit { x: u64 }
impl AllocatedBit { pub uninterp spec fn shp(self) -> int; }
impl Sh for AllocatedBit { open spec fn sh(&self, o: &Self) -> bool { self.shp() == o.shp() } }
impl Cl for AllocatedBit { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub struct Boolean { x: u64 }
impl Boolean { pub uninterp spec fn shp(self) -> int; }
impl Sh for Boolean { open spec fn sh(&self, o: &Self) -> bool { self.shp() == o.shp() } }
impl Cl for Boolean { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub struct BpNum { x: u64 }
impl BpNum { pub uninterp spec fn shp(self) -> int; }
impl Sh for BpNum { open spec fn sh(&self, o: &Self) -> bool { self.shp() == o.shp() } }
impl Cl for BpNum { #[verifier::external_body] fn cl(&self) -> Self { unimplemented!() } }
impl AllocatedNum {
    #[verifier::external_body]
    pub fn get_value(&self) -> Option<Scalar> { unimplemented!() }
    #[verifier::external_body]
    pub fn get_variable(&self) -> (r: Var) ensures r == f1::<int, Var>(81, self.shp()) { unimplemented!() }
}
impl AllocatedBit {
    #[verifier::external_body]
    pub fn get_value(&self) -> Option<bool> { unimplemented!() }
    #[verifier::external_body]
    pub fn get_variable(&self) -> (r: Var) ensures r == f1::<int, Var>(82, self.shp()) { unimplemented!() }
}
impl Boolean {
    #[verifier::external_body]
    pub fn get_value(&self) -> Option<bool> { unimplemented!() }
    #[verifier::external_body]
    pub fn lc(&self, one: Var, coeff: Scalar) -> (r: Lc) ensures r == f2::<(int, Var), Scalar, Lc>(83, (self.shp(), one), coeff) { unimplemented!() }
    #[verifier::external_body]
    pub fn Constant(b: bool) -> (r: Boolean) ensures r.shp() == f1::<bool, int>(84, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn constant(b: bool) -> (r: Boolean) ensures r.shp() == f1::<bool, int>(84, b) { unimplemented!() }
}
impl BpNum {
    #[verifier::external_body]
    pub fn zero() -> (r: BpNum) ensures r.shp() == f0::<int>(85) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_value(&self) -> Option<Scalar> { unimplemented!() }
    #[verifier::external_body]
    pub fn lc(&self, coeff: Scalar) -> (r: Lc) ensures r == f2::<int, Scalar, Lc>(86, self.shp(), coeff) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_bool_with_coeff(self, one: Var, bit: &Boolean, coeff: Scalar) -> (r: BpNum) ensures r.shp() == f2::<(int, Var), (int, Scalar), int>(87, (self.shp(), one), (bit.shp(), coeff)) { unimplemented!() }
}
// in both runs
pub open spec fn both(a: Cs, b: Cs) -> bool { a.tr() == b.tr() }
#[verifier::external_body]
pub fn rel__AllocatedNum__alloc(cs_L: &mut Cs, cs_R: &mut Cs, value_L: Option<Result<Scalar, SynthesisError>>, value_R: Option<Result<Scalar, SynthesisError>>) -> (r: (Result<AllocatedNum, SynthesisError>, Result<AllocatedNum, SynthesisError>))
    requires both(*old(cs_L), *old(cs_R)),
    ensures r.0 is Ok && r.1 is Ok ==> both(*final(cs_L), *final(cs_R)) && same(r.0->Ok_0, r.1->Ok_0),
{ unimplemented!() }
#[verifier::external_body]
pub fn rel__AllocatedNum__add(me_L: &AllocatedNum, me_R: &AllocatedNum, cs_L: &mut Cs, cs_R: &mut Cs, other_L: &AllocatedNum, other_R: &AllocatedNum) -> (r: (Result<AllocatedNum, SynthesisError>, Result<AllocatedNum, SynthesisError>))
    requires same(*me_L, *me_R), both(*old(cs_L), *old(cs_R)), same(*other_L, *other_R),
    ensures r.0 is Ok && r.1 is Ok ==> both(*final(cs_L), *final(cs_R)) && same(r.0->Ok_0, r.1->Ok_0),
{ unimplemented!() }
#[verifier::external_body]
pub fn rel__AllocatedNum__conditionally_reverse(cs_L: &mut Cs, cs_R: &mut Cs, a_L: &AllocatedNum, a_R: &AllocatedNum, b_L: &AllocatedNum, b_R: &AllocatedNum, condition_L: &Boolean, condition_R: &Boolean) -> (r: (Result<(AllocatedNum, AllocatedNum), SynthesisError>, Result<(AllocatedNum, AllocatedNum), SynthesisError>))
    requires both(*old(cs_L), *old(cs_R)), same(*a_L, *a_R), same(*b_L, *b_R), same(*condition_L, *condition_R),
    ensures r.0 is Ok && r.1 is Ok ==> both(*final(cs_L), *final(cs_R)) && same(r.0->Ok_0, r.1->Ok_0),
{ unimplemented!() }
#[verifier::external_body]
pub fn rel__AllocatedBit__alloc(cs_L: &mut Cs, cs_R: &mut Cs, value_L: Option<bool>, value_R: Option<bool>) -> (r: (Result<AllocatedBit, SynthesisError>, Result<AllocatedBit, SynthesisError>))
    requires both(*old(cs_L), *old(cs_R)),
    ensures r.0 is Ok && r.1 is Ok ==> both(*final(cs_L), *final(cs_R)) && same(r.0->Ok_0, r.1->Ok_0),
{ unimplemented!() }
#[verifier::external_body]
pub fn rel__Boolean__and(cs_L: &mut Cs, cs_R: &mut Cs, a_L: &Boolean, a_R: &Boolean, b_L: &Boolean, b_R: &Boolean) -> (r: (Result<Boolean, SynthesisError>, Result<Boolean, SynthesisError>))
    requires both(*old(cs_L), *old(cs_R)), same(*a_L, *a_R), same(*b_L, *b_R),
    ensures r.0 is Ok && r.1 is Ok ==> both(*final(cs_L), *final(cs_R)) && same(r.0->Ok_0, r.1->Ok_0),
{ unimplemented!() }
#[verifier::external_body]
pub fn rel__Boolean__or(cs_L: &mut Cs, cs_R: &mut Cs, a_L: &Boolean, a_R: &Boolean, b_L: &Boolean, b_R: &Boolean) -> (r: (Result<Boolean, SynthesisError>, Result<Boolean, SynthesisError>))
    requires both(*old(cs_L), *old(cs_R)), same(*a_L, *a_R), same(*b_L, *b_R),
    ensures r.0 is Ok && r.1 is Ok ==> both(*final(cs_L), *final(cs_R)) && same(r.0->Ok_0, r.1->Ok_0),
{ unimplemented!() }
#[verifier::external_body]
pub fn rel__Boolean__enforce_equal(cs_L: &mut Cs, cs_R: &mut Cs, a_L: &Boolean, a_R: &Boolean, b_L: &Boolean, b_R: &Boolean) -> (r: (Result<(), SynthesisError>, Result<(), SynthesisError>))
    requires both(*old(cs_L), *old(cs_R)), same(*a_L, *a_R), same(*b_L, *b_R),
    ensures r.0 is Ok && r.1 is Ok ==> both(*final(cs_L), *final(cs_R)) && same(r.0->Ok_0, r.1->Ok_0),
{ unimplemented!() }
pub trait TFrom<A: Sh>: Sized + Sh {
    fn tfrom(a: A) -> (o: Self);
    fn rel_tfrom(a: A, b: A) -> (r: (Self, Self)) requires same(a, b), ensures same(r.0, r.1);
}
impl TFrom<AllocatedBit> for Boolean {
    #[verifier::external_body] fn tfrom(a: AllocatedBit) -> Boolean { unimplemented!() }
    #[verifier::external_body] fn rel_tfrom(a: AllocatedBit, b: AllocatedBit) -> (Boolean, Boolean) { unimplemented!() }
}
impl TFrom<AllocatedNum> for BpNum {
    #[verifier::external_body] fn tfrom(a: AllocatedNum) -> BpNum { unimplemented!() }
    #[verifier::external_body] fn rel_tfrom(a: AllocatedNum, b: AllocatedNum) -> (BpNum, BpNum) { unimplemented!() }
}
} // verus!
