//! Small prime fields (so that every assignment of an auxiliary variable can be tried) and the
//! production fields.
macro_rules! fld { ($m:ident,$n:ident,$p:literal,$g:literal)=>{ pub mod $m {
#[derive(ff::PrimeField)]
#[PrimeFieldModulus = $p]
#[PrimeFieldGenerator = $g]
#[PrimeFieldReprEndianness = "little"]
pub struct $n([u64; 1]);
} pub use $m::$n; } }
fld!(f31, F31, "31", "3");
fld!(f127, F127, "127", "3");
fld!(f257, F257, "257", "3");
fld!(f1019, F1019, "1019", "2");
fld!(f8191, F8191, "8191", "17");
fld!(fm31, FM31, "2147483647", "7");
pub use validate_btc_header::util::scalar::Fr;
/// The scalar field of nova_snark's PallasEngine.
pub use pasta_curves::Fq as Fp;

use ff::PrimeField;
use num_bigint::{BigInt, Sign};

/// What the harness needs of a field.
pub trait Fld: PrimeField + Copy + Eq + Send + Sync + 'static {
    const NAME: &'static str;
}
impl Fld for F31 { const NAME: &'static str = "F31"; }
impl Fld for F127 { const NAME: &'static str = "F127"; }
impl Fld for F257 { const NAME: &'static str = "F257"; }
impl Fld for F1019 { const NAME: &'static str = "F1019"; }
impl Fld for F8191 { const NAME: &'static str = "F8191"; }
impl Fld for FM31 { const NAME: &'static str = "FM31"; }
impl Fld for Fr { const NAME: &'static str = "Fr"; }
impl Fld for Fp { const NAME: &'static str = "PallasScalar"; }

/// Independent of the code under test: the canonical integer of a field element.
pub fn to_int<F: PrimeField>(f: &F) -> BigInt {
    BigInt::from_bytes_le(Sign::Plus, f.to_repr().as_ref())
}
/// The integer modulo p, as a field element, by Horner over 32-bit digits.
pub fn from_int<F: PrimeField>(n: &BigInt) -> F {
    let (s, ds) = n.to_u32_digits();
    let b = F::from(1u64 << 32);
    let mut r = F::ZERO;
    for d in ds.iter().rev() {
        r = r * b + F::from(*d as u64);
    }
    if s == Sign::Minus { -r } else { r }
}
pub fn modulus<F: PrimeField>() -> BigInt {
    to_int(&(F::ZERO - F::ONE)) + 1
}
