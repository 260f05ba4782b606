use super::*;
use validate_btc_header::mp::bignat::{limbs_to_nat, nat_to_limbs};
use validate_btc_header::util::convert::*;

fn one<F: Fld>(c: &mut Ctx, n: BigInt) {
    let p = modulus::<F>();
    c.pred(format!("nat_to_f {n} [{}]", F::NAME), move || {
        let r: Option<F> = nat_to_f(&n);
        let inside = n >= b(0) && n < p;
        match r {
            Some(f) if !inside => Err(format!("{n} is not in the field but was mapped to {}", to_int(&f))),
            None if inside => Err(format!("{n} is in the field but was refused")),
            Some(f) if to_int(&f) != n => Err(format!("{n} became {}", to_int(&f))),
            Some(f) if f_to_nat(&f) != n => Err(format!("f_to_nat gives {} for {n}", f_to_nat(&f))),
            _ => Ok(()),
        }
    });
}

fn back<F: Fld>(c: &mut Ctx, n: BigInt) {
    let f: F = from_int(&n);
    c.pred(format!("f_to_nat {n} [{}]", F::NAME), move || {
        let m = f_to_nat(&f);
        if m != to_int(&f) { return Err(format!("f_to_nat gives {m}")); }
        match nat_to_f::<F>(&m) { Some(g) if g == f => Ok(()), _ => Err("nat_to_f does not invert f_to_nat".into()) }
    });
}

fn limbs<F: Fld>(c: &mut Ctx, v: BigInt, w: usize, n: usize) {
    if w > F::CAPACITY as usize { return; }
    c.pred(format!("limbs v={v} w={w} n={n} [{}]", F::NAME), move || {
        let fits = (v.bits() as usize) <= w * n;
        let r = nat_to_limbs::<F>(&v, w, n);
        match r {
            Err(_) => if fits { Err(format!("{v} fits in {n} limbs of {w} bits but was refused")) } else { Ok(()) },
            Ok(l) => {
                if !fits { return Err(format!("{v} does not fit in {n} limbs of {w} bits but was encoded as {}", show(&l.iter().map(to_int).collect::<Vec<_>>()))); }
                let ints: Vec<BigInt> = l.iter().map(to_int).collect();
                if ints != digits(&v, w, n) { return Err(format!("encoded as {}", show(&ints))); }
                let back = limbs_to_nat::<F, _, _>(l.iter(), w);
                if back != v { return Err(format!("decodes to {back}")); }
                Ok(())
            }
        }
    });
}

fn decode<F: Fld>(c: &mut Ctx, l: Vec<BigInt>, w: usize) {
    let f: Vec<F> = l.iter().map(from_int).collect();
    c.pred(format!("limbs_to_nat w={w} {} [{}]", show(&l), F::NAME), move || {
        let ints: Vec<BigInt> = f.iter().map(to_int).collect();
        let v = limbs_to_nat::<F, _, _>(f.iter(), w);
        if v == value_of(&ints, w) { Ok(()) } else { Err(format!("gives {v}")) }
    });
}

fn small<F: Fld>(c: &mut Ctx, n: usize) {
    c.pred(format!("usize_to_f {n} [{}]", F::NAME), move || {
        let f: F = usize_to_f(n);
        if b(n) % modulus::<F>() == to_int(&f) { Ok(()) } else { Err(format!("{n} became {}", to_int(&f))) }
    });
    if n < 256 && b(n) < modulus::<F>() {
        c.pred(format!("f_to_usize {n} [{}]", F::NAME), move || {
            let f: F = from_int(&b(n));
            let m = f_to_usize(&f);
            if m == n { Ok(()) } else { Err(format!("{n} became {m}")) }
        });
    } else {
        c.pred(format!("f_to_usize large {n} [{}]", F::NAME), move || {
            let f: F = from_int(&b(n));
            let want = to_int(&f);
            match guarded(|| f_to_usize(&f)) {
                Ok(m) if b(m) != want => Err(format!("{n} became {m}")),
                _ => Ok(()),
            }
        });
    }
}

pub fn fill(c: &mut Ctx) {
    for n in 0..70u64 { one::<F31>(c, b(n)); back::<F31>(c, b(n)); }
    for n in 0..600u64 { one::<F257>(c, b(n)); back::<F257>(c, b(n)); }
    for n in [1u64, 2, 30, 31, 100] { one::<F31>(c, -b(n)); one::<Fr>(c, -b(n)); }
    for k in 0..if c.thorough { 400 } else { 60 } {
        let n = c.rbig(252);
        one::<Fr>(c, n.clone()); one::<Fp>(c, n.clone()); back::<Fr>(c, n.clone()); back::<Fp>(c, n);
        let n = modulus::<Fr>() + b(k) - 20; one::<Fr>(c, n);
        let n = modulus::<Fp>() + b(k) - 20; one::<Fp>(c, n);
        let n = c.rbig(400); one::<Fr>(c, n.clone()); one::<Fp>(c, n);
    }
    for _ in 0..if c.thorough { 20000 } else { 2500 } {
        let w = 1 + c.below(8) as usize;
        let n = c.below(5) as usize;
        let bits = (w * n + c.below(3) as usize).saturating_sub(c.below(3) as usize);
        let v = c.rbig(bits);
        limbs::<F257>(c, v.clone(), w, n);
        limbs::<F31>(c, v.clone(), w, n);
        limbs::<Fr>(c, v, w, n);
        let w = c.size(1, 253, 253);
        let n = c.size(n as u64, 1, 60);
        let v = { let (u, d) = (c.below(2) as usize, c.below(2) as usize); c.rbig((w * n + u).saturating_sub(d)) };
        limbs::<Fr>(c, v.clone(), w, n);
        limbs::<Fp>(c, v, w, n);
        let l: Vec<BigInt> = (0..n).map(|_| c.rbig(250)).collect();
        decode::<Fr>(c, l.clone(), w);
        decode::<F257>(c, l.iter().map(|x| x % 257).collect(), 1 + w % 9);
    }
    for w in 1..=4usize { for n in 1..=3usize { for v in 0..(1u64 << (w * n).min(8)) + 2 { limbs::<F31>(c, b(v), w, n); } } }
    for n in 0..300usize { small::<F257>(c, n); small::<Fr>(c, n); }
    for d in dict().to_vec() { small::<Fr>(c, d as usize); small::<Fp>(c, d as usize); }
    for _ in 0..50 { let n = c.rnd() as usize; small::<Fr>(c, n); small::<Fp>(c, n); small::<Fr>(c, n >> 40); }
}
