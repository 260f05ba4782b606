use super::*;
use bellpepper_core::ConstraintSystem;

fn range1<F: Fld>(c: &mut Ctx, opt: Opt, n: usize, v: BigInt) {
    let fits = v < (b(1) << n);
    let e = if fits { Expect::Sat } else { Expect::Reject };
    c.gadget::<F>(format!("fits_in_bits n={n} v={v}"), opt, vec![from_int(&v)], move |cs, i| {
        i[0].num().fits_in_bits(cs.namespace(|| "r"), n)?;
        Ok(Built::none())
    }, e, |_| Ok(()));
}

fn wf1<F: Fld>(c: &mut Ctx, opt: Opt, w: usize, limbs: Vec<BigInt>, maxw: BigInt) {
    let ok = limbs.iter().all(|l| *l < (b(1) << w));
    let e = if ok { Expect::Sat } else { Expect::Reject };
    c.gadget::<F>(format!("assert_well_formed w={w} limbs={} max_word={maxw}", show(&limbs)), opt, limbs.iter().map(from_int).collect(), move |cs, i| {
        nat(i, w, Some(maxw.clone())).assert_well_formed(cs.namespace(|| "r"))?;
        Ok(Built::none())
    }, e, |_| Ok(()));
}

fn range_field<F: Fld>(c: &mut Ctx, opt: Opt, step: u64) {
    let p: u64 = u64::try_from(modulus::<F>()).unwrap();
    for n in 1..=(F::NUM_BITS as usize) {
        let mut v = 0;
        while v < p {
            range1::<F>(c, opt, n, b(v));
            v += if step == 1 { 1 } else { 1 + c.below(2 * step) };
        }
        for v in [(1u64 << n) - 1, 1 << n, (1 << n) + 1, p - 1, p - 2] {
            if v < p {
                range1::<F>(c, opt, n, b(v));
            }
        }
    }
}

pub fn range(c: &mut Ctx, opt: Opt) {
    range_field::<F31>(c, opt, 1);
    range_field::<F127>(c, opt, 1);
    range_field::<F257>(c, opt, if c.thorough { 1 } else { 3 });
    range_field::<F1019>(c, opt, if c.thorough { 2 } else { 40 });
    if c.thorough {
        range_field::<F8191>(c, opt, 200);
    }
    for w in 1..=4usize {
        for k in 0..3usize {
            for _ in 0..if c.thorough { 60 } else { 12 } {
                let limbs: Vec<BigInt> = (0..k).map(|_| b(c.below((2u64 << w).min(31)))).collect();
                wf1::<F31>(c, opt, w, limbs.clone(), b(30));
                wf1::<F127>(c, opt, w, limbs, b((1u64 << w) - 1));
            }
        }
    }
    // production fields: honest runs; a value that does not fit must not be satisfied by the
    // bits the prover code computes
    for n in [1usize, 2, 8, 31, 32, 63, 64, 65, 128, 192, 250, 253].into_iter().chain(c.hints(1, 253)) {
        for _ in 0..if c.thorough { 12 } else { 3 } {
            let v = c.rbig(n);
            range1::<Fr>(c, HONEST, n, v.clone());
            range1::<Fp>(c, HONEST, n, v);
        }
        for v in [(b(1) << n) - 1, b(0)] {
            range1::<Fr>(c, HONEST, n, v.clone());
            range1::<Fp>(c, HONEST, n, v);
        }
    }
    // wide checks: what does not fit has no satisfying assignment, each bit is looked at
    for n in [7usize, 8, 9, 16, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 200, 252].into_iter().chain(c.hints(1, 253)) {
        for v in [b(1) << n, (b(1) << n) + 1, b(1) << (n + 1), (b(1) << (n + 1)) - 1, c.rbig(253) | (b(1) << n)] {
            if v < modulus::<Fr>() {
                range1::<Fr>(c, opt, n, v.clone());
            }
            if v < modulus::<Fp>() {
                range1::<Fp>(c, opt, n, v);
            }
        }
    }
    for w in c.hints(1, 253) {
        for k in 1..=3usize {
            for _ in 0..3 {
                let limbs: Vec<BigInt> = (0..k).map(|_| c.rbig(w)).collect();
                let mut bad = limbs.clone();
                let j = c.below(k as u64) as usize;
                bad[j] = b(1) << w;
                wf1::<Fr>(c, opt, w, limbs, (b(1) << w) - 1);
                wf1::<Fr>(c, opt, w, bad, (b(1) << w) - 1);
            }
        }
    }
    for k in c.hints(3, 70) {
        for w in [1usize, 8, 32, 64] {
            let limbs: Vec<BigInt> = (0..k).map(|_| c.rbig(w)).collect();
            wf1::<Fr>(c, opt, w, limbs.clone(), (b(1) << w) - 1);
            for j in [0, k / 2, k - 1] {
                let mut bad = limbs.clone();
                bad[j] = b(1) << w;
                wf1::<Fr>(c, opt, w, bad, (b(1) << w) - 1);
            }
        }
    }
    for n in 1..=6 {
        for _ in 0..4 {
            let k = c.below(80);
            range1::<Fr>(c, opt, n, b(k));
        }
        // (p-1)/2-ish and other large values
        range1::<Fr>(c, opt, n, modulus::<Fr>() - 1);
        range1::<Fr>(c, opt, n, (modulus::<Fr>() + 1) / 2);
        range1::<Fp>(c, opt, n, modulus::<Fp>() - 2);
    }
}

fn bitsum(o: &[BigInt]) -> Result<BigInt, String> {
    for (i, x) in o.iter().enumerate() {
        if *x > b(1) {
            return Err(format!("bit {i} is {x}"));
        }
    }
    Ok(value_of(o, 1))
}

fn bvout<F: Fld>(bv: &Bitvector<F>, witness: bool) -> Built<F> {
    let mut r = Built::outs(bv.bits.clone());
    if witness {
        let n = bv.bits.len();
        match &bv.values {
            None => r = r.err(n > 0, "bit values missing"),
            Some(v) => {
                r.vals = Some(v.iter().map(|x| Some(if *x { F::ONE } else { F::ZERO })).collect());
                let l = v.len();
                r = r.err(l != n, format!("{l} bit values for {n} bits"));
            }
        }
    }
    r
}

fn dec1<F: Fld>(c: &mut Ctx, opt: Opt, n: usize, v: BigInt) {
    let e = if v < (b(1) << n) { Expect::Sat } else { Expect::Reject };
    let v2 = v.clone();
    c.gadget::<F>(format!("Num::decompose n={n} v={v}"), opt, vec![from_int(&v)], move |cs, i| {
        let bv = i[0].num().decompose(cs.namespace(|| "d"), n)?;
        if bv.bits.len() != n {
            return Ok(Built::none().err(true, "wrong number of bits"));
        }
        Ok(bvout(&bv, cs.witness))
    }, e, move |o| {
        let s = bitsum(o)?;
        if s == v2 { Ok(()) } else { Err(format!("bits of {s}, not of {v2}")) }
    });
}

fn iseq1<F: Fld>(c: &mut Ctx, opt: Opt, n: usize, v: u64, w: u64, shl: usize, mode: u8) {
    // the vector holds the bits of w; mode 0: as given, 1: shifted left by shl, 2: truncated, 3: reversed
    let mut bits: Vec<u64> = (0..n).map(|i| (w >> i) & 1).collect();
    let mut ins: Vec<F> = vec![F::from(v)];
    ins.extend(bits.iter().map(|x| F::from(*x)));
    match mode {
        1 => { for _ in 0..shl { bits.insert(0, 0); } }
        2 => bits.truncate(shl),
        3 => bits.reverse(),
        4 => { bits.drain(0..shl.min(n)); }
        _ => {}
    }
    let sum: u64 = bits.iter().enumerate().map(|(i, x)| x << i).sum();
    let e = if sum == v { Expect::Sat } else { Expect::Reject };
    c.gadget::<F>(format!("Num::is_equal n={n} v={v} bits={w} op={mode}/{shl}"), opt, ins, move |cs, i| {
        let mut bv = bv_in(&i[1..]);
        bv = match mode {
            1 => bv.shl(shl),
            2 => bv.truncate(shl),
            3 => bv.reversed(),
            4 => { let k = shl.min(bv.bits.len()); bv.shr(k) }
            _ => bv,
        };
        i[0].num().is_equal(cs.namespace(|| "e"), &bv)?;
        Ok(Built::none())
    }, e, |_| Ok(()));
}

fn natdec<F: Fld>(c: &mut Ctx, opt: Opt, w: usize, limbs: Vec<BigInt>) {
    let ok = limbs.iter().all(|l| *l < (b(1) << w));
    let l2 = limbs.clone();
    let n = limbs.len() * w;
    c.gadget::<F>(format!("BigNat::decompose w={w} limbs={}", show(&limbs)), opt, limbs.iter().map(from_int).collect(), move |cs, i| {
        let bv = nat(i, w, None).decompose(cs.namespace(|| "d"))?;
        let bad = bv.bits.len() != n;
        Ok(bvout(&bv, cs.witness).err(bad, "wrong number of bits"))
    }, if ok { Expect::Sat } else { Expect::Reject }, move |o| {
        let s = bitsum(o)?;
        if s == value_of(&l2, w) { Ok(()) } else { Err(format!("bits of {s}")) }
    });
    // decompose, recompose at another width
    for w2 in 1..=4usize {
        let l2 = limbs.clone();
        if w2 > F::CAPACITY as usize { continue; }
        c.gadget::<F>(format!("recompose w={w} to {w2} limbs={}", show(&limbs)), opt, limbs.iter().map(from_int).collect(), move |cs, i| {
            let bv = nat(i, w, None).decompose(cs.namespace(|| "d"))?;
            let r = BigNat::recompose(&bv, w2);
            let lw = r.params.limb_width;
            Ok(built(cs, &r).err(lw != w2, "limb width not the one asked for"))
        }, if ok { Expect::Sat } else { Expect::Reject }, move |o| {
            let v = value_of(&l2, w);
            let k = (l2.len() * w + w2 - 1) / w2;
            if o == &digits(&v, w2, k)[..] { Ok(()) } else { Err(format!("not the base-2^{w2} digits of {v}")) }
        });
    }
}

fn full<F: Fld>(c: &mut Ctx, opt: Opt, w: usize, limbs: Vec<BigInt>) {
    let top = limbs.last().unwrap().clone();
    let ok = top < (b(1) << w) && top >= (b(1) << (w - 1));
    let mx = limbs.iter().max().unwrap().clone().max((b(1) << w) - 1);
    c.gadget::<F>(format!("enforce_full_bits w={w} limbs={}", show(&limbs)), opt, limbs.iter().map(from_int).collect(), move |cs, i| {
        let mut n = nat(i, w, Some(mx.clone()));
        n.enforce_full_bits(cs.namespace(|| "d"))?;
        let m = n.params.min_bits != w * i.len();
        let mut r = built(cs, &n).err(m, "min_bits is not limb width times limbs");
        r.outs.clear();
        r.vals = None;
        Ok(r)
    }, if ok { Expect::Sat } else { Expect::Reject }, |_| Ok(()));
}

fn minb<F: Fld>(c: &mut Ctx, opt: Opt, w: usize, limbs: Vec<BigInt>, m: usize) {
    let v = value_of(&limbs, w);
    let ok = limbs.iter().all(|l| *l < (b(1) << w)) && v >= (b(1) << (m - 1));
    c.gadget::<F>(format!("enforce_min_bits {m} w={w} limbs={}", show(&limbs)), opt, limbs.iter().map(from_int).collect(), move |cs, i| {
        let mut n = nat(i, w, None);
        n.enforce_min_bits(cs.namespace(|| "d"), m)?;
        let bad = n.params.min_bits != m;
        let mut r = built(cs, &n).err(bad, "min_bits is not what was enforced");
        r.outs.clear();
        r.vals = None;
        Ok(r)
    }, if ok { Expect::Sat } else { Expect::Reject }, |_| Ok(()));
}

pub fn from_num1<F: Fld>(c: &mut Ctx, opt: Opt, w: usize, n: usize, v: BigInt) {
    let ok = v < (b(1) << (w * n));
    let v2 = v.clone();
    c.gadget::<F>(format!("from_num w={w} n={n} v={v}"), opt, vec![from_int(&v)], move |cs, i| {
        let x = BigNat::from_num(cs.namespace(|| "f"), i[0].num(), w, n)?;
        let bad = x.params.limb_width != w || x.params.n_limbs != n || x.params.max_word != (b(1) << w) - 1;
        Ok(built(cs, &x).err(bad, "parameters are not the requested ones"))
    }, if ok { Expect::Sat } else { Expect::Reject }, move |o| {
        if o == &digits(&v2, w, n)[..] { Ok(()) } else { Err(format!("not the digits of {v2}")) }
    });
}

fn c_mod<F: Fld>(x: &BigInt) -> BigInt {
    x % modulus::<F>()
}

pub fn decompose(c: &mut Ctx, opt: Opt) {
    for v in 0..31u64 {
        for n in 0..=4 { dec1::<F31>(c, opt, n, b(v)); }
    }
    for v in 0..127u64 {
        for n in [1usize, 2, 3, 5, 6] { if c.thorough || c.below(3) == 0 { dec1::<F127>(c, opt, n, b(v)); } }
    }
    for n in 1..=8usize {
        for _ in 0..if c.thorough { 80 } else { 12 } {
            let v = c.below(257);
            dec1::<F257>(c, opt, n, b(v));
            let v = c.below(1019);
            dec1::<F1019>(c, opt, n, b(v));
        }
        for v in [(1u64 << n) - 1, 1 << n, 256, 255] { if v < 257 { dec1::<F257>(c, opt, n, b(v)); } }
    }
    for n in c.hints(1, 253) {
        for v in [(b(1) << n) - 1, b(1) << n, (b(1) << (n - 1)) + 1, c.rbig(n), c.rbig(n)] {
            if v < modulus::<Fr>() { dec1::<Fr>(c, opt, n, v.clone()); }
            if v < modulus::<Fp>() { dec1::<Fp>(c, opt, n, v); }
        }
        for k in 1..=3usize {
            if n * k > 400 { continue; }
            for _ in 0..3 {
                let mut l: Vec<BigInt> = (0..k).map(|_| c.rbig(n)).collect();
                natdec::<Fr>(c, HONEST, n, l.clone());
                let m = 1 + c.below((n * k) as u64) as usize;
                minb::<Fr>(c, HONEST, n, l.clone(), m);
                full::<Fr>(c, opt, n, l.clone());
                if n < 253 { from_num1::<Fr>(c, opt, n, k, c_mod::<Fr>(&value_of(&l, n))); }
                let j = c.below(k as u64) as usize;
                l[j] = b(1) << n;
                full::<Fr>(c, opt, n, l.clone());
                minb::<Fr>(c, HONEST, n, l, m);
            }
        }
        for w in [1usize, 4, 8, 32, 64] {
            if n * w > 600 || n > 70 { continue; }
            let v = c.rbig((w * n).min(253));
            from_num1::<Fr>(c, HONEST, w, n, v.clone());
            from_num1::<Fr>(c, opt, w, n, v);
            let l: Vec<BigInt> = (0..n).map(|_| c.rbig(w)).collect();
            natdec::<Fr>(c, HONEST, w, l.clone());
            minb::<Fr>(c, HONEST, w, l.clone(), w * n / 2 + 1);
            minb::<Fr>(c, HONEST, w, l, n);
        }
    }
    for n in [1usize, 8, 9, 31, 32, 64, 100, 128, 200, 253] {
        for _ in 0..if c.thorough { 10 } else { 3 } {
            let v = c.rbig(n);
            dec1::<Fr>(c, HONEST, n, v.clone());
            dec1::<Fp>(c, HONEST, n, v);
        }
    }
    for _ in 0..if c.thorough { 4000 } else { 600 } {
        let n = c.below(5) as usize;
        let v = c.below(31);
        let mut w = c.below(1 << n);
        if c.below(2) == 0 { w = v & ((1 << n) - 1); }
        let mode = c.below(5) as u8;
        let s = c.below(4) as usize;
        if mode == 1 && n + s > 4 { continue; }
        iseq1::<F31>(c, opt, n, v, w, s, mode);
        iseq1::<F257>(c, opt, n, v, w, s, mode);
    }
    // big numbers
    for w in 1..=4usize {
        for k in 1..=3usize {
            for _ in 0..if c.thorough { 40 } else { 6 } {
                let limbs: Vec<BigInt> = (0..k).map(|_| b(c.below(1 << w))).collect();
                if w * k <= 8 { natdec::<F257>(c, opt, w, limbs.clone()); full::<F257>(c, opt, w, limbs.clone()); }
                if w < 4 { full::<F31>(c, opt, w, limbs.clone()); }
                let m = 1 + c.below((w * k) as u64) as usize;
                if w * k <= 8 { minb::<F257>(c, opt, w, limbs.clone(), m); minb::<F31>(c, opt, w, limbs.clone(), m); }
                let mut bad = limbs.clone();
                let j = c.below(k as u64) as usize;
                bad[j] = b((1 << w) + c.below(3));
                if w * k <= 8 { natdec::<F257>(c, opt, w, bad.clone()); minb::<F257>(c, opt, w, bad.clone(), m); }
                full::<F127>(c, opt, w, bad);
                // exact power of two at the boundary
                let x = b(1) << (m - 1);
                if w * k <= 8 {
                    minb::<F257>(c, opt, w, digits(&x, w, k), m);
                    minb::<F257>(c, opt, w, digits(&(x - 1), w, k), m);
                }
            }
        }
    }
    for (w, n) in [(1usize, 1usize), (1, 4), (2, 2), (4, 1), (3, 1), (1, 2), (2, 1)] {
        for v in 0..31u64 { if w * n <= 4 { from_num1::<F31>(c, opt, w, n, b(v)); } }
    }
    for (w, n) in [(2usize, 3usize), (4, 2), (8, 1), (1, 8), (3, 2)] {
        for _ in 0..if c.thorough { 100 } else { 12 } { let v = c.below(257); from_num1::<F257>(c, opt, w, n, b(v)); }
    }
    for (w, n) in [(64usize, 2usize), (64, 3), (32, 7), (128, 1), (100, 2), (250, 1), (16, 8)] {
        for _ in 0..if c.thorough { 10 } else { 3 } {
            let v = c.rbig(w * n);
            from_num1::<Fr>(c, HONEST, w, n, v.clone());
            from_num1::<Fp>(c, HONEST, w, n, v);
        }
    }
    for (w, n) in [(32usize, 2usize), (64, 2), (31, 4)] {
        for _ in 0..3 {
            let limbs: Vec<BigInt> = (0..n).map(|_| c.rbig(w)).collect();
            natdec::<Fr>(c, HONEST, w, limbs.clone());
            let mut t = limbs.clone();
            t[n - 1] = (b(1) << (w - 1)) + &t[n - 1] / 2;
            full::<Fr>(c, HONEST, w, t.clone());
            minb::<Fr>(c, HONEST, w, t, w * n);
        }
    }
}

pub fn bit(c: &mut Ctx, opt: Opt) {
    fn one<F: Fld>(c: &mut Ctx, opt: Opt) {
        for v in [false, true] {
            c.gadget::<F>(format!("Bit::alloc {v}"), opt, vec![if v { F::ONE } else { F::ZERO }], move |cs, i| {
                let x = Bit::alloc(cs.namespace(|| "b"), i[0].value.map(|x| x == F::ONE))?;
                let ok = !cs.witness || x.value == Some(v);
                Ok(Built::with(vec![x.bit.clone()], vec![x.value.map(|x| if x { F::ONE } else { F::ZERO })]).err(!ok, "value lost"))
            }, Expect::Sat, |o| if o[0] <= b(1) { Ok(()) } else { Err("an allocated bit is neither 0 nor 1".into()) });
            c.gadget::<F>(format!("Bit::not {v}"), opt, vec![if v { F::ONE } else { F::ZERO }], move |cs, i| {
                let x = bit_in(&i[0]).not::<crate::rec::Rec<F>>();
                let _ = cs;
                Ok(Built::with(vec![x.bit.clone()], vec![x.value.map(|x| if x { F::ONE } else { F::ZERO })]))
            }, Expect::Sat, move |o| if o[0] == b(!v as u64) { Ok(()) } else { Err(format!("not({v}) is {}", o[0])) });
            for k in [false, true] {
                c.gadget::<F>(format!("constrain_value {v} to {k}"), opt, vec![if v { F::ONE } else { F::ZERO }], move |cs, i| {
                    bit_in(&i[0]).constrain_value(cs.namespace(|| "c"), k);
                    Ok(Built::none())
                }, if v == k { Expect::Sat } else { Expect::Reject }, |_| Ok(()));
            }
            c.gadget::<F>(format!("Bit::new_value {v}"), opt, vec![], move |cs, _| {
                type R<F> = crate::rec::Rec<F>;
                let xs = [Bit::<F>::new_value::<R<F>>(v), if v { Bit::new_true::<R<F>>() } else { Bit::new_false::<R<F>>() }];
                let _ = cs;
                Ok(Built::with(xs.iter().map(|x| x.bit.clone()).collect(), xs.iter().map(|x| x.value.map(|x| if x { F::ONE } else { F::ZERO })).collect()))
            }, Expect::Sat, move |o| if o.iter().all(|x| *x == b(v as u64)) { Ok(()) } else { Err("constant bit has the wrong value".into()) });
            for kind in 0..4 {
                c.gadget::<F>(format!("Bit::from_sapling {v} kind {kind}"), opt, vec![if v { F::ONE } else { F::ZERO }], move |cs, i| {
                    use bellpepper_core::boolean::{AllocatedBit, Boolean};
                    let bv = i[0].value.map(|x| x == F::ONE);
                    let a = AllocatedBit::alloc(cs.namespace(|| "a"), bv)?;
                    let var = i[0].var;
                    cs.enforce(|| "", |lc| lc + a.get_variable() - var, |lc| lc + crate::rec::Rec::<F>::one(), |lc| lc);
                    let bo = match kind { 0 => Boolean::from(a), 1 => Boolean::from(a).not(), 2 => Boolean::constant(v), _ => Boolean::constant(v).not() };
                    let x = Bit::from_sapling::<crate::rec::Rec<F>>(bo);
                    Ok(Built::with(vec![x.bit.clone()], vec![x.value.map(|x| if x { F::ONE } else { F::ZERO })]))
                }, Expect::Sat, move |o| if o[0] == b((v ^ (kind % 2 == 1)) as u64) { Ok(()) } else { Err("wrong value".into()) });
            }
        }
        // nothing but 0 and 1 may satisfy an allocated bit
        let p = modulus::<F>();
        for k in 2..40u64 {
            if b(k) >= p { break; }
            c.gadget::<F>(format!("Bit::alloc forced to {k}"), opt, vec![F::from(k)], move |cs, i| {
                let x = Bit::alloc(cs.namespace(|| "b"), Some(false))?;
                let var = i[0].var;
                cs.enforce(|| "", |lc| lc + &x.bit - var, |lc| lc + crate::rec::Rec::<F>::one(), |lc| lc);
                Ok(Built::none())
            }, Expect::Reject, |_| Ok(()));
        }
    }
    one::<F31>(c, opt);
    one::<F257>(c, opt);
    one::<Fr>(c, opt);
    one::<Fp>(c, opt);
}

/// An argument of an operation: random, or a number of note.
fn arg(rnd: &mut dyn FnMut(u64) -> u64, n: u64) -> usize {
    if rnd(4) == 0 { if let Some(d) = crate::ctx::pick(rnd(1 << 30), 600) { return d; } }
    rnd(n) as usize
}

/// The reference for a bit vector: (label, value) pairs.
type Ref = Vec<(u32, bool)>;

fn check_bv(bv: &Bitvector<F257>, r: &Ref, vals: bool, what: &str) -> Result<(), String> {
    // labels are coefficients of the `one` variable
    let lab = |lc: &LinearCombination<F257>| -> u32 {
        crate::rec::flat(lc).first().map(|t| u32::try_from(to_int(&t.1)).unwrap()).unwrap_or(0)
    };
    if bv.bits.len() != r.len() {
        return Err(format!("{what}: {} bits, expected {}", bv.bits.len(), r.len()));
    }
    for (i, (l, _)) in r.iter().enumerate() {
        if lab(&bv.bits[i]) != *l {
            return Err(format!("{what}: bit {i} is not the expected one"));
        }
    }
    match (&bv.values, vals) {
        (Some(v), true) => {
            if v.len() != r.len() {
                return Err(format!("{what}: {} values for {} bits", v.len(), r.len()));
            }
            for (i, (_, x)) in r.iter().enumerate() {
                if v[i] != *x {
                    return Err(format!("{what}: value {i} is not the expected one"));
                }
            }
            Ok(())
        }
        (None, false) => Ok(()),
        (None, true) => Err(format!("{what}: values lost")),
        (Some(_), false) => Err(format!("{what}: values although some are unknown")),
    }
}

pub fn vectors(c: &mut Ctx) {
    use bellpepper_core::{Index, Variable};
    let n = if c.thorough { 40000 } else { 4000 };
    for k in 0..n {
        let seed = c.rnd();
        c.pred(format!("bit vector history {k} seed={seed}"), move || {
            let mut s = seed;
            let mut rnd = move |m: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % m };
            let one = Variable::new_unchecked(Index::Input(0));
            let mut next = 1u32;
            let mut mk = |rnd: &mut dyn FnMut(u64) -> u64, known: bool| {
                let l = next;
                next += 1;
                let v = rnd(2) == 1;
                (Bit::<F257>::new(LinearCombination::zero() + (F257::from(l as u64), one), if known { Some(v) } else { None }), (l, v))
            };
            let mut known = rnd(4) != 0;
            let len = if rnd(4) == 0 { crate::ctx::pick(rnd(1 << 30), 600).unwrap_or(3) } else { rnd(6) as usize };
            let mut bs = vec![];
            let mut r: Ref = vec![];
            for _ in 0..len { let (x, y) = mk(&mut rnd, known); bs.push(x); r.push(y); }
            if len == 0 { known = true; }
            let mut bv = Bitvector::from_bits(bs);
            check_bv(&bv, &r, known, "from_bits")?;
            for step in 0..(1 + rnd(8)) {
                let op = rnd(9);
                let name;
                match op {
                    0 => { bv = bv.reversed(); r.reverse(); name = "reversed".to_string(); }
                    1 => { let m = arg(&mut rnd, 8); bv = bv.truncate(m); r.truncate(m); name = format!("truncate {m}"); }
                    2 => { let m = arg(&mut rnd, r.len() as u64 + 1).min(r.len()); bv = bv.shr(m); r.drain(0..m); name = format!("shr {m}"); }
                    3 => { let m = arg(&mut rnd, 4); bv = bv.shl(m); for _ in 0..m { r.insert(0, (0, false)); } name = format!("shl {m}"); }
                    4 => {
                        let x = bv.pop();
                        let y = r.pop();
                        match (x, y) {
                            (None, None) => {}
                            (Some(x), Some(y)) => {
                                if x.value != if known { Some(y.1) } else { None } { return Err(format!("step {step}: pop returned the wrong value")); }
                                if crate::rec::flat(&x.bit).first().map(|t| to_int(&t.1)).unwrap_or_default() != b(y.0) { return Err(format!("step {step}: pop returned the wrong bit")); }
                            }
                            _ => return Err(format!("step {step}: pop disagrees about emptiness")),
                        }
                        name = "pop".into();
                    }
                    5 => { let kn = rnd(5) != 0; let (x, y) = mk(&mut rnd, kn); bv.push(x); r.push(y); known &= kn; name = "push".into(); }
                    6 => { let kn = rnd(5) != 0; let m = arg(&mut rnd, r.len() as u64 + 1).min(r.len()); let (x, y) = mk(&mut rnd, kn); bv.insert(m, x); r.insert(m, y); known &= kn; name = format!("insert {m}"); }
                    7 => {
                        let kn = rnd(5) != 0; let m = rnd(4);
                        let mut bs = vec![]; let mut rr = vec![];
                        for _ in 0..m { let (x, y) = mk(&mut rnd, kn); bs.push(x); rr.push(y); }
                        bv.append(Bitvector::from_bits(bs)); r.extend(rr);
                        if m > 0 { known &= kn; }
                        name = format!("append {m}");
                    }
                    _ => {
                        for i in 0..r.len() + 1 {
                            let g = bv.get(i);
                            match (g, r.get(i)) {
                                (None, None) => {}
                                (Some(g), Some(y)) => {
                                    if g.value != if known { Some(y.1) } else { None } { return Err(format!("step {step}: get {i} has the wrong value")); }
                                }
                                _ => return Err(format!("step {step}: get {i} disagrees about the length")),
                            }
                        }
                        let bits = bv.clone().into_bits();
                        if bits.len() != r.len() { return Err("into_bits: wrong length".into()); }
                        for (i, y) in r.iter().enumerate() {
                            if bits[i].value != if known { Some(y.1) } else { None } { return Err(format!("step {step}: into_bits {i} has the wrong value")); }
                        }
                        name = "get/into_bits".into();
                    }
                }
                check_bv(&bv, &r, known, &format!("step {step} {name}"))?;
            }
            Ok(())
        });
    }
}
