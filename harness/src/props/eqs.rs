use super::*;
use bellpepper::gadgets::boolean::Boolean;
use bellpepper_core::ConstraintSystem;
use validate_btc_header::util::gadget::Gadget;

pub fn boolout<F: Fld>(x: &Boolean) -> Built<F> {
    use crate::rec::Rec;
    Built::with(vec![x.lc(Rec::<F>::one(), F::ONE)], vec![x.get_value().map(|v| if v { F::ONE } else { F::ZERO })])
}
pub fn want(o: &[BigInt], t: bool) -> Result<(), String> {
    if o[0] == b(t as u64) { Ok(()) } else { Err(format!("flag is {}, expected {}", o[0], t as u64)) }
}

fn eq1<F: Fld>(c: &mut Ctx, opt: Opt, x: BigInt, y: BigInt) {
    let t = x == y;
    c.gadget::<F>(format!("equals {x} {y}"), opt, vec![from_int(&x), from_int(&y)], move |cs, i| {
        let a = anum(cs, &i[0]);
        let bb = anum(cs, &i[1]);
        Ok(boolout(&BigNat::equals(cs.namespace(|| "e"), &a, &bb)?))
    }, Expect::Sat, move |o| want(o, t));
}

fn iseq<F: Fld>(c: &mut Ctx, opt: Opt, w: usize, x: Vec<BigInt>, y: Vec<BigInt>, w2: usize) {
    let t = x == y;
    let n = x.len();
    let e = if x.len() != y.len() || w != w2 { Expect::Err } else { Expect::Sat };
    let mut ins: Vec<F> = x.iter().map(from_int).collect();
    ins.extend(y.iter().map(from_int::<F>));
    c.gadget::<F>(format!("is_equal w={w}/{w2} {} = {}", show(&x), show(&y)), opt, ins, move |cs, i| {
        let a = nat(&i[..n], w, None);
        let bb = nat(&i[n..], w2, None);
        Ok(boolout(&a.is_equal(cs.namespace(|| "e"), &bb)?))
    }, e, move |o| want(o, t));
}

pub fn flags(c: &mut Ctx, opt: Opt) {
    for x in 0..31u64 {
        for y in 0..31u64 {
            if c.thorough || x == y || c.below(4) == 0 { eq1::<F31>(c, opt, b(x), b(y)); }
        }
    }
    for _ in 0..if c.thorough { 200 } else { 20 } {
        let (x, y) = (c.below(257), c.below(257));
        eq1::<F257>(c, opt, b(x), b(y));
        let x = c.rbig(253);
        let y = c.rbig(253);
        eq1::<Fr>(c, opt, x.clone(), y.clone());
        eq1::<Fr>(c, opt, x.clone(), x.clone());
        eq1::<Fp>(c, opt, x.clone(), x.clone() + 1);
        eq1::<Fp>(c, opt, y, x);
    }
    eq1::<Fr>(c, opt, b(0), modulus::<Fr>() - 1);
    for d in dict().iter().take(12) {
        for e in dict().iter().take(12) {
            eq1::<Fr>(c, opt, b(*d), b(*e));
            eq1::<Fp>(c, opt, b(*d), (b(1) << (*e as usize % 250)) + 1);
        }
        eq1::<Fr>(c, opt, b(1) << (*d as usize % 250), b(*d));
        eq1::<Fr>(c, opt, modulus::<Fr>() - (*d % 1000 + 1), b(*d));
    }
    for k in (0..=3usize).chain(c.hints(4, 40)) {
        for _ in 0..if c.thorough { 60 } else { 10 } {
            let w = 1 + c.below(3) as usize;
            let x: Vec<BigInt> = (0..k).map(|_| b(c.below(1 << w))).collect();
            let mut y = x.clone();
            if c.below(3) > 0 && k > 0 { let j = c.below(k as u64) as usize; y[j] = b(c.below(1 << w)); }
            iseq::<F31>(c, opt, w, x.clone(), y.clone(), w);
            iseq::<F257>(c, HONEST, w, x.clone(), y.clone(), w);
            iseq::<Fr>(c, HONEST, 64, x.clone(), y.clone(), 64);
            for w in c.hints(1, 250) { iseq::<Fr>(c, HONEST, w, x.iter().map(|v| v % (1u64 << w.min(60))).collect(), y.iter().map(|v| v % (1u64 << w.min(60))).collect(), w); }
            if k > 0 {
                iseq::<F31>(c, opt, w, x.clone(), y.clone(), w + 1);
                iseq::<F31>(c, opt, w, x[1..].to_vec(), y.clone(), w);
            }
        }
    }
}

fn equal1<F: Fld>(c: &mut Ctx, opt: Opt, w: usize, x: Vec<BigInt>, y: Vec<BigInt>, w2: usize) {
    let e = if w != w2 { Expect::Err } else if value_of(&x, w) == value_of(&y, w) { Expect::Sat } else { Expect::Reject };
    let n = x.len();
    let mut ins: Vec<F> = x.iter().map(from_int).collect();
    ins.extend(y.iter().map(from_int::<F>));
    c.gadget::<F>(format!("equal w={w}/{w2} {} = {}", show(&x), show(&y)), opt, ins, move |cs, i| {
        nat(&i[..n], w, None).equal(cs.namespace(|| "e"), &nat(&i[n..], w2, None))?;
        Ok(Built::none())
    }, e, |_| Ok(()));
}

/// Carry bits any correct implementation may need at most: the largest honest carry.
pub fn carry_bits(m: &BigInt, w: usize) -> usize {
    let base: BigInt = (b(1) << w) - 1;
    let q: BigInt = (m * 2) / base;
    q.bits() as usize
}

fn carried1<F: Fld>(c: &mut Ctx, opt: Opt, re: bool, w: usize, x: Vec<BigInt>, mx: BigInt, y: Vec<BigInt>, my: BigInt, w2: usize) {
    let m = mx.clone().max(my.clone());
    if carry_bits(&m, w) + w > F::CAPACITY as usize { return; }
    let e = if w != w2 { Expect::Err } else if value_of(&x, w) == value_of(&y, w) { Expect::Sat } else { Expect::Reject };
    let n = x.len();
    let mut ins: Vec<F> = x.iter().map(from_int).collect();
    ins.extend(y.iter().map(from_int::<F>));
    let nm = if re { "equal_when_carried_regroup" } else { "equal_when_carried" };
    c.gadget::<F>(format!("{nm} w={w}/{w2} {} (<={mx}) = {} (<={my})", show(&x), show(&y)), opt, ins, move |cs, i| {
        let a = nat(&i[..n], w, Some(mx.clone()));
        let bb = nat(&i[n..], w2, Some(my.clone()));
        if re { a.equal_when_carried_regroup(cs.namespace(|| "e"), &bb)?; } else { a.equal_when_carried(cs.namespace(|| "e"), &bb)?; }
        Ok(Built::none())
    }, e, |_| Ok(()));
}

/// A representation of v with n limbs each at most m, chosen at random (None when there is none).
pub fn repr(c: &mut Ctx, v: &BigInt, w: usize, n: usize, m: &BigInt) -> Option<Vec<BigInt>> {
    // choose limbs from the top down: limb i as large or small as the rest allows
    let ones = |k: usize| -> BigInt { (0..k).fold(b(0), |a, i| a + (b(1) << (w * i))) };
    let mut rest = v.clone();
    let mut out = vec![b(0); n];
    for i in (0..n).rev() {
        let below = ones(i) * m; // what the lower limbs can still carry
        let base = b(1) << (w * i);
        let mut lo: BigInt = if rest > below { (&rest - &below + &base - 1) / &base } else { b(0) };
        if lo < b(0) { lo = b(0); }
        let hi: BigInt = (&rest / &base).min(m.clone());
        if lo > hi { return None; }
        let span: BigInt = &hi - &lo + 1;
        let pick = match c.below(3) { 0 => lo.clone(), 1 => hi.clone(), _ => &lo + (BigInt::from(c.rnd()) % &span) };
        rest -= &pick * &base;
        out[i] = pick;
    }
    if rest == b(0) { Some(out) } else { None }
}

pub fn carried(c: &mut Ctx, opt: Opt) {
    for _ in 0..if c.thorough { 1500 } else { 200 } {
        let w = 1 + c.below(4) as usize;
        let (n, k) = (c.size(0, 4, 40), c.size(0, 4, 40));
        let x: Vec<BigInt> = (0..n).map(|_| b(c.below(1 << w))).collect();
        let mut y: Vec<BigInt> = if c.below(3) > 0 { let mut y = x.clone(); y.resize(k, b(0)); y } else { (0..k).map(|_| b(c.below(1 << w))).collect() };
        if c.below(4) == 0 && k > 0 { y[k - 1] = b(c.below(1 << w)); }
        equal1::<F31>(c, opt, w, x.clone(), y.clone(), w);
        equal1::<Fr>(c, opt, w, x.clone(), y.clone(), w);
        if c.below(8) == 0 { equal1::<F31>(c, opt, w, x, y, w + 1); }
    }
    let reps = if c.thorough { 6000 } else { 900 };
    for k in 0..reps {
        let re = k % 2 == 1;
        let w = 1 + c.below(4) as usize;
        let (n, l) = (1 + c.below(4) as usize, 1 + c.below(4) as usize);
        let top: u64 = 1u64 << (w + 1 + c.below(3) as usize);
        let mx = b(1 + c.below(top));
        let my = b(1 + c.below(top));
        let pick = |c: &mut Ctx, n: usize, m: &BigInt| -> Vec<BigInt> { (0..n).map(|_| { let e = c.below(4); if e == 0 { m.clone() } else if e == 1 { b(0) } else { b(c.below(u64::try_from(m).unwrap() + 1)) } }).collect() };
        let x = pick(c, n, &mx);
        let v = value_of(&x, w);
        let y = match c.below(4) {
            0 => pick(c, l, &my),
            1 => match repr(c, &(&v + 1u32), w, l, &my) { Some(y) => y, None => continue },
            _ => match repr(c, &v, w, l, &my) { Some(y) => y, None => continue },
        };
        match c.below(5) {
            0 => carried1::<F31>(c, opt, re, w, x, mx, y, my, w),
            1 => carried1::<F127>(c, opt, re, w, x, mx, y, my, w),
            2 => carried1::<F1019>(c, opt, re, w, x, mx, y, my, w),
            3 => { if c.below(10) == 0 { carried1::<F257>(c, opt, re, w, x, mx, y, my, w + 1) } else { carried1::<F8191>(c, opt, re, w, x, mx, y, my, w) } }
            _ => carried1::<F257>(c, opt, re, w, x, mx, y, my, w),
        }
    }
    // values that agree modulo the group base, or modulo p, but not as integers
    for k in 0..if c.thorough { 2000 } else { 300 } {
        let w = 1 + c.below(3) as usize;
        let n = 1 + c.below(4) as usize;
        let mx = b((1u64 << w) + c.below(6));
        let full: BigInt = value_of(&vec![mx.clone(); n], w);
        let v = BigInt::from(c.rnd()) % (&full + 1);
        let d = match c.below(3) { 0 => modulus::<F257>(), 1 => b(1) << (w * (1 + c.below(n as u64) as usize)), _ => modulus::<F127>() };
        let u = &v + d;
        if u > full { continue; }
        if let (Some(x), Some(y)) = (repr(c, &v, w, n, &mx), repr(c, &u, w, n, &mx)) {
            carried1::<F257>(c, opt, k % 2 == 0, w, x.clone(), mx.clone(), y.clone(), mx.clone(), w);
            carried1::<F127>(c, opt, k % 2 == 0, w, y, mx.clone(), x, mx, w);
        }
    }
    // long numbers that differ by a multiple of the field's order
    for k in 0..if c.thorough { 1500 } else { 300 } {
        let w = 1 + c.below(3) as usize;
        let n = c.size(4, 6, 24);
        let mx = b((1u64 << w) - 1);
        let full: BigInt = value_of(&vec![mx.clone(); n], w);
        let p = match k % 3 { 0 => modulus::<F31>(), 1 => modulus::<F127>(), _ => modulus::<F257>() };
        let d: BigInt = &p * (1 + c.below(3));
        if d > full { continue; }
        let v = BigInt::from(c.rnd()) % (&full - &d + 1);
        let (x, y) = (digits(&v, w, n), digits(&(&v + &d), w, n));
        let (x, y) = if c.below(2) == 0 { (x, y) } else { (y, x) };
        let re = c.below(2) == 0;
        match k % 3 {
            0 => carried1::<F31>(c, opt, re, w, x, mx.clone(), y, mx, w),
            1 => carried1::<F127>(c, opt, re, w, x, mx.clone(), y, mx, w),
            _ => carried1::<F257>(c, opt, re, w, x, mx.clone(), y, mx, w),
        }
    }
    // production fields
    for k in 0..if c.thorough { 300 } else { 60 } {
        let re = k % 2 == 1;
        let mut w = [16usize, 32, 64, 100][c.below(4) as usize];
        if c.below(3) == 0 { w = c.size(1, 100, 120); }
        let n = c.size(1, 6, 40);
        let l = (n as i64 + c.below(3) as i64 - 1).max(1) as usize;
        let eb = 2 * w.min(64);
        let mx: BigInt = c.rbig(eb) + 1;
        let my: BigInt = c.rbig(eb) + (b(1) << w);
        let x: Vec<BigInt> = (0..n).map(|_| c.rbig(eb) % (&mx + 1)).collect();
        let v = value_of(&x, w);
        if let Some(y) = repr(c, &v, w, l, &my) {
            carried1::<Fr>(c, HONEST, re, w, x.clone(), mx.clone(), y.clone(), my.clone(), w);
            carried1::<Fp>(c, HONEST, re, w, y, my, x, mx, w);
        }
    }
}

pub fn expose(c: &mut Ctx, opt: Opt) {
    fn go<F: Fld>(c: &mut Ctx, opt: Opt, w: usize, x: Vec<BigInt>) {
        let ins: Vec<F> = x.iter().map(from_int).collect();
        let n = x.len();
        for kind in 0..5 {
            let x2 = x.clone();
            let nm = ["BigNat::inputize", "Gadget::inputize", "as_nums", "as_limbs", "as_sapling_allocated_num"][kind];
            c.gadget::<F>(format!("{nm} w={w} {}", show(&x)), opt, ins.clone(), move |cs, i| {
                let a = nat(i, w, None);
                let before = cs.inputs.len();
                match kind {
                    0 | 1 => {
                        if kind == 0 { a.inputize(cs.namespace(|| "i"))?; } else { Gadget::inputize(&a, cs.namespace(|| "i"))?; }
                        if cs.inputs.len() != before + n { return Ok(Built::none().err(true, format!("{} public inputs for {n} limbs", cs.inputs.len() - before))); }
                        let outs = (0..n).map(|k| LinearCombination::zero() + bellpepper_core::Variable::new_unchecked(bellpepper_core::Index::Input(before + k))).collect();
                        Ok(Built::outs(outs))
                    }
                    2 => {
                        let ns = a.as_nums(cs.namespace(|| "n"))?;
                        Ok(Built::with(ns.iter().map(|n| LinearCombination::zero() + n.get_variable()).collect(), ns.iter().map(|n| n.get_value()).collect()))
                    }
                    3 => {
                        let ns = a.as_limbs::<crate::rec::Rec<F>>();
                        Ok(Built::with(ns.iter().map(|n| n.num.clone()).collect(), ns.iter().map(|n| n.value).collect()))
                    }
                    _ => {
                        let mut o = vec![];
                        let mut v = vec![];
                        for (k, l) in i.iter().enumerate() {
                            let s = l.num().as_sapling_allocated_num(cs.namespace(|| format!("{k}")))?;
                            let back = Num::from(s.clone());
                            o.push(LinearCombination::zero() + s.get_variable());
                            v.push(s.get_value());
                            o.push(back.num);
                            v.push(back.value);
                        }
                        Ok(Built::with(o, v))
                    }
                }
            }, Expect::Sat, move |o| {
                let e: Vec<BigInt> = if kind == 4 { x2.iter().flat_map(|x| [x.clone(), x.clone()]).collect() } else { x2.clone() };
                if o.len() == e.len() && o == &e[..] { Ok(()) } else { Err(format!("exposed {} instead", show(o))) }
            });
        }
    }
    for k in (0..=4usize).chain(c.hints(5, 70)) {
        for _ in 0..if c.thorough { 30 } else { 5 } {
            let w = 1 + c.below(4) as usize;
            let x: Vec<BigInt> = (0..k).map(|_| b(c.below(31))).collect();
            go::<F31>(c, opt, w, x);
            let x: Vec<BigInt> = (0..k).map(|_| b(c.below(257))).collect();
            go::<F257>(c, opt, w, x);
            let x: Vec<BigInt> = (0..k).map(|_| c.rbig(200)).collect();
            for w in c.hints(1, 253) { go::<Fr>(c, opt, w, x.clone()); }
            go::<Fr>(c, opt, 200, x.clone());
            go::<Fp>(c, opt, 200, x);
        }
    }
}
