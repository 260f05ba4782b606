//! One module per property; `fill` lists the cases of a property.
use crate::ctx::*;
use crate::fields::*;
use bellpepper_core::LinearCombination;
use num_bigint::BigInt;
use validate_btc_header::mp::bignat::{BigNat, BigNatParams};
use validate_btc_header::util::bit::{Bit, Bitvector};
use validate_btc_header::util::num::Num;

mod bits;
mod conv;
mod eqs;
mod order;
mod arith;
mod structural;
mod muxes;
mod median;
mod diff;
mod lazy;
mod shape;

pub fn fill(p: &str, c: &mut Ctx) -> bool {
    match p {
        "C01" => bits::range(c, ALL),
        "C02" => bits::decompose(c, ALL),
        "C03" => eqs::flags(c, ALL),
        "C04" => eqs::carried(c, ALL),
        "C05" => conv::fill(c),
        "C06" => arith::poly(c, ALL),
        "C07" => arith::mult(c, ALL),
        "C08" => arith::modular(c, ALL),
        "C09" => arith::linear(c, ALL),
        "C10" => structural::fill(c),
        "C11" => muxes::fill(c, ALL),
        "C12" => order::fill(c, ALL),
        "C13" => median::fill(c, ALL),
        "C14" => diff::fill(c, ALL),
        "C15" => shape::fill(c),
        "C16" => bits::vectors(c),
        "C17" => lazy::fill(c),
        "C18" => eqs::expose(c, ALL),
        "C19" => bits::bit(c, ALL),
        _ => return false,
    }
    true
}

pub fn b<T: Into<BigInt>>(x: T) -> BigInt {
    x.into()
}

/// A big number whose limbs are input variables.
pub fn nat<F: Fld>(ins: &[In<F>], w: usize, max_word: Option<BigInt>) -> BigNat<F> {
    let vals: Option<Vec<F>> = ins.iter().map(|i| i.value).collect();
    let value = vals.as_ref().map(|v| value_of(&v.iter().map(to_int).collect::<Vec<_>>(), w));
    BigNat {
        limbs: ins.iter().map(|i| i.lc()).collect(),
        limb_values: vals,
        value,
        params: BigNatParams {
            min_bits: 0,
            max_word: max_word.unwrap_or_else(|| (b(1) << w) - 1),
            limb_width: w,
            n_limbs: ins.len(),
        },
    }
}

pub fn value_of(limbs: &[BigInt], w: usize) -> BigInt {
    limbs.iter().rev().fold(b(0), |a, l| (a << w) + l)
}

/// Base-2^w digits of x (as many as n).
pub fn digits(x: &BigInt, w: usize, n: usize) -> Vec<BigInt> {
    let m: BigInt = (b(1) << w) - 1;
    (0..n).map(|i| (x >> (i * w)) & &m).collect()
}
pub fn fdigits<F: Fld>(x: &BigInt, w: usize, n: usize) -> Vec<F> {
    digits(x, w, n).iter().map(|d| from_int(d)).collect()
}

/// What every produced number must satisfy in an honest run: values, limbs and metadata agree.
pub fn wf<F: Fld>(cs: &crate::rec::Rec<F>, x: &BigNat<F>, what: &str) -> Vec<String> {
    let mut e = vec![];
    if x.params.n_limbs != x.limbs.len() {
        e.push(format!("{what}: n_limbs {} but {} limbs", x.params.n_limbs, x.limbs.len()));
    }
    if !cs.witness {
        return e;
    }
    let lv = match &x.limb_values {
        None => {
            if !x.limbs.is_empty() {
                e.push(format!("{what}: no limb values in a witness run"));
            }
            return e;
        }
        Some(l) => l,
    };
    if lv.len() != x.limbs.len() {
        e.push(format!("{what}: {} limb values for {} limbs", lv.len(), x.limbs.len()));
        return e;
    }
    let ints: Vec<BigInt> = lv.iter().map(to_int).collect();
    for (i, l) in x.limbs.iter().enumerate() {
        if cs.eval_lc(l) != Some(lv[i]) {
            e.push(format!("{what}: limb {i} reports {} but the circuit has {:?}", ints[i], cs.eval_lc(l).map(|x| to_int(&x))));
        }
        if ints[i] > x.params.max_word {
            e.push(format!("{what}: limb {i} = {} exceeds max_word {}", ints[i], x.params.max_word));
        }
    }
    let v = value_of(&ints, x.params.limb_width);
    match &x.value {
        None => e.push(format!("{what}: no value in a witness run")),
        Some(y) => {
            if *y != v {
                e.push(format!("{what}: value {y} but its limbs encode {v}"));
            }
        }
    }
    if x.params.min_bits > 0 && (v.bits() as usize) < x.params.min_bits {
        e.push(format!("{what}: min_bits {} but the value is {v}", x.params.min_bits));
    }
    if x.params.n_limbs > 0 && x.n_bits() < v.bits() as usize {
        e.push(format!("{what}: n_bits {} but the value {v} has {} bits", x.n_bits(), v.bits()));
    }
    e
}

pub fn lcs<F: Fld>(x: &BigNat<F>) -> Vec<LinearCombination<F>> {
    x.limbs.clone()
}
pub fn vals<F: Fld>(x: &BigNat<F>) -> Vec<Option<F>> {
    match &x.limb_values {
        None => vec![None; x.limbs.len()],
        Some(v) => v.iter().map(|v| Some(*v)).collect(),
    }
}
pub fn built<F: Fld>(cs: &crate::rec::Rec<F>, x: &BigNat<F>) -> Built<F> {
    let mut r = Built::with(lcs(x), vals(x));
    r.errs = wf(cs, x, "result");
    r
}
pub fn bit_in<F: Fld>(i: &In<F>) -> Bit<F> {
    Bit::new(i.lc(), i.value.map(|v| v == F::ONE))
}
pub fn bv_in<F: Fld>(ins: &[In<F>]) -> Bitvector<F> {
    Bitvector::from_bits(ins.iter().map(bit_in).collect())
}
pub fn num_of<F: Fld>(i: &In<F>) -> Num<F> {
    i.num()
}
pub fn show(v: &[BigInt]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
