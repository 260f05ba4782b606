use super::*;
use bellpepper_core::ConstraintSystem;
use validate_btc_header::btc_validation::difficulty_update::{calculate_difficulty_update, verify_difficulty_update};

const IDEAL: u64 = 2016 * 10 * 60;

fn calc<F: Fld>(c: &mut Ctx, opt: Opt, prev: BigInt, sum: u64) {
    let ok = sum > IDEAL / 4 && sum < IDEAL * 4;
    let want = (&prev * sum) / IDEAL;
    c.gadget::<F>(format!("calculate_difficulty_update prev={prev} sum={sum}"), opt, vec![from_int(&prev), F::from(sum)], move |cs, i| {
        let a = anum(cs, &i[0]);
        let s = anum(cs, &i[1]);
        let r = calculate_difficulty_update(cs.namespace(|| "d"), &a, &s)?;
        Ok(built(cs, &r))
    }, if ok { Expect::Sat } else { Expect::Reject }, move |o| {
        let v = value_of(o, 64);
        if v == want { Ok(()) } else { Err(format!("new target {v}, expected {want}")) }
    });
}

/// Wrong new targets, for a prover who may choose every auxiliary value.
fn attack<F: Fld>(c: &mut Ctx, prev: BigInt, sum: u64) {
    let q: BigInt = (&prev * sum) / IDEAL;
    let bads: Vec<Vec<BigInt>> = [&q - 1, &q + 1, &q * 2u32 + 1, b(0), &q ^ (b(1) << 64usize), (&prev * (sum + 1)) / IDEAL, ((&prev + crate::fields::modulus::<F>()) * sum) / IDEAL]
        .into_iter()
        .filter(|x| x >= &b(0) && x != &q)
        .map(|x| digits(&x, 64, 5))
        .collect();
    c.attack::<F>(format!("calculate_difficulty_update wrong targets prev={prev} sum={sum}"), 300, vec![from_int(&prev), F::from(sum)], move |cs, i| {
        let a = anum(cs, &i[0]);
        let s = anum(cs, &i[1]);
        let r = calculate_difficulty_update(cs.namespace(|| "d"), &a, &s)?;
        Ok(built(cs, &r))
    }, bads);
}

fn verify<F: Fld>(c: &mut Ctx, opt: Opt, cur: BigInt, prev: BigInt, sum: u32) {
    let s = sum as u64;
    let ok = s > IDEAL / 4 && s < IDEAL * 4 && cur == (&prev * s) / IDEAL;
    let m: BigInt = (b(1) << 128) - 1;
    let h = |x: &BigInt| -> (u128, u128) { (u128::try_from(x >> 128).unwrap(), u128::try_from(x & &m).unwrap()) };
    let (cu, cl) = h(&cur);
    let (pu, pl) = h(&prev);
    c.gadget::<F>(format!("verify_difficulty_update cur={cur} prev={prev} sum={sum}"), opt, vec![], move |cs, _| {
        verify_difficulty_update(cs.namespace(|| "d"), cu, cl, pu, pl, sum);
        Ok(Built::none())
    }, if ok { Expect::Sat } else { Expect::Reject }, |_| Ok(()));
}

pub fn fill(c: &mut Ctx, opt: Opt) {
    let honest = Opt { sound: false, ..opt };
    let sound = Opt { nodes: if c.thorough { 4000 } else { 400 }, ..opt };
    for k in 0..if c.thorough { 160 } else { 30 } {
        let sum = match c.below(8) {
            0 => IDEAL / 4 + 1,
            1 => IDEAL * 4 - 1,
            2 => IDEAL,
            3 => IDEAL / 4,
            4 => IDEAL * 4,
            5 => c.below(1 << 32),
            _ => IDEAL / 4 + 1 + c.below(IDEAL * 4 - IDEAL / 4 - 1),
        };
        let prev = match c.below(4) { 0 => c.rbig(64), 1 => c.rbig(128), _ => c.rbig(224) };
        let o = if k % 6 == 0 { sound } else { honest };
        calc::<Fr>(c, o, prev.clone(), sum);
        calc::<Fp>(c, honest, prev.clone(), sum);
        let sum = sum as u32;
        let cur = (&prev * sum) / IDEAL;
        let bad: BigInt = match c.below(4) { 0 => &cur + 1, 1 => (&cur - 1u32).max(b(1)), 2 => c.rbig(224), _ => &cur ^ (b(1) << (c.below(200) as usize)) };
        verify::<Fr>(c, honest, cur.clone(), prev.clone(), sum);
        verify::<Fr>(c, honest, bad.clone(), prev.clone(), sum);
        verify::<Fp>(c, honest, bad, prev.clone(), sum);
        verify::<Fp>(c, honest, cur, prev, sum);
    }
    // updates that need more than 256 bits equal no target, whatever their low bits are
    let all: BigInt = (b(1) << 256) - 1;
    for k in 0..if c.thorough { 60 } else { 10 } {
        let prev: BigInt = if k == 0 { all.clone() } else { &all - c.rbig(250) };
        let sum = (IDEAL + 2 + c.below(IDEAL * 3 - 2)) as u32;
        let new: BigInt = (&prev * sum) / IDEAL;
        let low: BigInt = new & &all;
        verify::<Fr>(c, honest, low.clone(), prev.clone(), sum);
        verify::<Fp>(c, honest, low, prev.clone(), sum);
        verify::<Fr>(c, honest, (&prev * (IDEAL / 2)) / IDEAL, prev, (IDEAL / 2) as u32);
    }
    for d in dict().to_vec() {
        for _ in 0..2 {
            let prev = c.rbig(224);
            if d < 1 << 32 {
                calc::<Fr>(c, honest, prev.clone(), d);
                verify::<Fr>(c, honest, (&prev * d) / IDEAL, prev.clone(), d as u32);
            }
            let sum = IDEAL / 4 + 1 + c.below(IDEAL * 4 - IDEAL / 4 - 1);
            for prev in [b(d), b(1) << (d % 250) as usize] {
                calc::<Fr>(c, honest, prev.clone(), sum);
                verify::<Fp>(c, honest, (&prev * sum) / IDEAL, prev.clone(), sum as u32);
            }
        }
    }
    let t224: BigInt = (b(1) << 224) - 1;
    let big: BigInt = b(1) << 251;
    for prev in [b(0), b(1), t224, big] {
        for sum in [IDEAL / 4 + 1, IDEAL, IDEAL * 4 - 1] { calc::<Fr>(c, honest, prev.clone(), sum); }
    }
    for k in 0..if c.thorough { 40 } else { 6 } {
        let prev: BigInt = match k { 0 => b(12345), 1 => b(1) << 200usize, _ => c.rbig(224) };
        let sum = if k < 2 { IDEAL } else { IDEAL / 4 + 1 + c.below(IDEAL * 4 - IDEAL / 4 - 1) };
        attack::<Fr>(c, prev.clone(), sum);
        attack::<Fp>(c, prev, sum);
    }
    calc::<Fr>(c, sound, b(1) << 200, IDEAL / 2);
    calc::<Fr>(c, sound, b(12345), IDEAL);
}
