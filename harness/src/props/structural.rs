use super::*;
use crate::rec::Rec;
use bellpepper_core::{ConstraintSystem, SynthesisError};
use validate_btc_header::util::gadget::Gadget;

/// Outcome of an operation as the oracle sees it.
struct Want {
    value: BigInt,
    limbs: Vec<BigInt>,
    w: usize,
    max_word: Option<BigInt>,
}

fn same<F: Fld>(cs: &Rec<F>, x: &BigNat<F>, w: &Want, what: &str) -> Result<(), String> {
    if let Some(e) = wf(cs, x, what).first() { return Err(e.clone()); }
    let l: Vec<BigInt> = x.limbs.iter().map(|l| to_int(&cs.eval_lc(l).unwrap())).collect();
    if l != w.limbs { return Err(format!("{what}: limbs {} expected {}", show(&l), show(&w.limbs))); }
    if x.value.as_ref() != Some(&w.value) { return Err(format!("{what}: value {:?} expected {}", x.value, w.value)); }
    if x.params.limb_width != w.w { return Err(format!("{what}: limb width {} expected {}", x.params.limb_width, w.w)); }
    if let Some(m) = &w.max_word { if &x.params.max_word != m { return Err(format!("{what}: max_word {} expected {m}", x.params.max_word)); } }
    Ok(())
}

fn mk<F: Fld>(cs: &mut Rec<F>, l: &[BigInt], w: usize, m: &BigInt, mb: usize) -> BigNat<F> {
    let ins: Vec<In<F>> = l.iter().map(|v| { let f: F = from_int(v); In { var: cs.fixed(f), value: Some(f) } }).collect();
    let mut r = nat(&ins, w, Some(m.clone()));
    r.params.min_bits = mb;
    r
}

fn ops<F: Fld>(c: &mut Ctx, w: usize, x: Vec<BigInt>, mx: BigInt, y: Vec<BigInt>, my: BigInt, k: usize, mb: bool) {
    type R<F> = Rec<F>;
    let (xv, yv) = (value_of(&x, w), value_of(&y, w));
    let (bx, by) = if mb { (xv.bits() as usize, yv.bits() as usize) } else { (0, 0) };
    let id = format!("w={w} {} (<={mx}) {} (<={my}) k={k} min_bits={bx},{by} [{}]", show(&x), show(&y), F::NAME);
    let (x2, y2, mx2, my2) = (x.clone(), y.clone(), mx.clone(), my.clone());
    c.pred(format!("concat {id}"), move || {
        let mut cs = R::<F>::make(true);
        let a = mk(&mut cs, &x2, w, &mx2, bx);
        let d = mk(&mut cs, &y2, w, &my2, by);
        let r = a.concat(&d).map_err(|e| e.to_string())?;
        let mut l = y2.clone();
        l.extend(x2.clone());
        same(&cs, &r, &Want { value: value_of(&l, w), limbs: l, w, max_word: Some(mx2.clone().max(my2.clone())) }, "concat")?;
        if a.concat(&mk(&mut cs, &y2, w + 1, &my2, 0)).is_ok() { return Err("concat of different limb widths accepted".into()); }
        // unknown operands stay unknown
        let mut u = d.clone();
        u.value = None;
        u.limb_values = None;
        for (p, q) in [(&a, &u), (&u, &a), (&u, &u)] {
            let r = p.concat(q).map_err(|e| e.to_string())?;
            if r.limb_values.is_some() || r.value.is_some() { return Err("concat with an unknown operand claims values".into()); }
        }
        Ok(())
    });
    let (x2, mx2) = (x.clone(), mx.clone());
    c.pred(format!("truncate_limbs {id}"), move || {
        let mut cs = R::<F>::make(true);
        let a = mk(&mut cs, &x2, w, &mx2, bx);
        let r = a.truncate_limbs(k);
        let l = x2[..k.min(x2.len())].to_vec();
        same(&cs, &r, &Want { value: value_of(&l, w), limbs: l, w, max_word: Some(mx2.clone()) }, "truncate_limbs")
    });
    let (x2, mx2) = (x.clone(), mx.clone());
    if k >= 1 && !x.is_empty() {
        let kk = k.min(x.len());
        // the group's largest word must be a field element
        let gm: BigInt = (0..k).fold(b(0), |a, i| a + (b(1) << (w * i))) * &mx;
        if gm < modulus::<F>() {
            let _ = kk;
            c.pred(format!("group_limbs {id}"), move || {
                let mut cs = R::<F>::make(true);
                let a = mk(&mut cs, &x2, w, &mx2, bx);
                let r = a.group_limbs(k);
                let l: Vec<BigInt> = x2.chunks(k).map(|ch| value_of(ch, w)).collect();
                same(&cs, &r, &Want { value: value_of(&x2, w), limbs: l, w: w * k, max_word: Some(gm.clone()) }, "group_limbs")
            });
        }
    }
    let (x2, mx2) = (x.clone(), mx.clone());
    c.pred(format!("with_n_limbs {id}"), move || {
        let mut cs = R::<F>::make(true);
        let a = mk(&mut cs, &x2, w, &mx2, bx);
        if k < x2.len() {
            return match guarded(|| a.with_n_limbs::<R<F>>(k)) { Ok(_) => Err("dropped limbs".into()), Err(_) => Ok(()) };
        }
        let r = a.with_n_limbs::<R<F>>(k);
        let mut l = x2.clone();
        l.resize(k, b(0));
        same(&cs, &r, &Want { value: value_of(&x2, w), limbs: l, w, max_word: Some(mx2.clone()) }, "with_n_limbs")
    });
    let x2 = x.clone();
    let unit: BigInt = (b(1) << w) - 1;
    if x.iter().all(|l| *l <= unit) {
        c.pred(format!("from_limbs {id}"), move || {
            let mut cs = R::<F>::make(true);
            let a = mk(&mut cs, &x2, w, &unit, 0);
            let r = BigNat::from_limbs(a.as_limbs::<R<F>>(), w);
            same(&cs, &r, &Want { value: value_of(&x2, w), limbs: x2.clone(), w, max_word: Some(unit.clone()) }, "from_limbs")?;
            if !x2.is_empty() {
                let mut ns = a.as_limbs::<R<F>>();
                ns[0].value = None;
                let r = BigNat::from_limbs(ns, w);
                if r.value.is_some() || r.limb_values.is_some() { return Err("from_limbs invents values".into()); }
            }
            Ok(())
        });
    }
    let (x2, mx2) = (x.clone(), mx.clone());
    c.pred(format!("from_poly {id}"), move || {
        let mut cs = R::<F>::make(true);
        let a = mk(&mut cs, &x2, w, &mx2, 0);
        let r = BigNat::from_poly(a.into(), w, mx2.clone());
        same(&cs, &r, &Want { value: value_of(&x2, w), limbs: x2.clone(), w, max_word: Some(mx2.clone()) }, "from_poly")
    });
}

fn alloc<F: Fld>(c: &mut Ctx, w: usize, n: usize, v: BigInt) {
    type R<F> = Rec<F>;
    if w > F::CAPACITY as usize { return; }
    let fits = v >= b(0) && v < (b(1) << (w * n));
    for kind in 0..3 {
        let v2 = v.clone();
        let nm = ["alloc_from_nat", "Gadget::alloc", "alloc_from_limbs"][kind];
        if !fits && kind == 2 { continue; }
        c.pred(format!("{nm} w={w} n={n} v={v} [{}]", F::NAME), move || {
            let mut cs = R::<F>::make(true);
            let before = cs.aux.len();
            let mut calls = 0u32;
            let r = match kind {
                0 => BigNat::alloc_from_nat(cs.namespace(|| "a"), || { calls += 1; Ok(v2.clone()) }, w, n),
                1 => { calls = 1; Gadget::alloc(cs.namespace(|| "a"), Some(&v2), (), &BigNatParams::new(w, n)) }
                _ => BigNat::alloc_from_limbs(cs.namespace(|| "a"), || { calls += 1; Ok(fdigits::<F>(&v2, w, n)) }, None, w, n),
            };
            if n == 0 { return if r.is_ok() { Ok(()) } else { Err("no limbs: refused".into()) }; }
            if calls != 1 { return Err(format!("the value was computed {calls} times")); }
            match r {
                Err(_) => if fits { Err("refused a value that fits".into()) } else { Ok(()) },
                Ok(x) => {
                    if !fits { return Err("accepted a value that does not fit".into()); }
                    if cs.aux.len() != before + n { return Err(format!("{} variables for {n} limbs", cs.aux.len() - before)); }
                    same(&cs, &x, &Want { value: v2.clone(), limbs: digits(&v2, w, n), w, max_word: Some((b(1) << w) - 1) }, nm)
                }
            }
        });
    }
    let v2 = v.clone();
    if fits && n > 0 {
        c.pred(format!("alloc errors w={w} n={n} v={v} [{}]", F::NAME), move || {
            let mut cs = R::<F>::make(true);
            let r = BigNat::<F>::alloc_from_limbs(cs.namespace(|| "a"), || Ok(fdigits::<F>(&v2, w, n + 1)), None, w, n);
            if r.is_ok() { return Err("accepted the wrong number of limb values".into()); }
            let r = BigNat::<F>::alloc_from_nat(cs.namespace(|| "b"), || Err(SynthesisError::AssignmentMissing), w, n);
            if r.is_ok() { return Err("an error of the value closure was swallowed".into()); }
            let r = BigNat::<F>::alloc_from_limbs(cs.namespace(|| "c"), || Err(SynthesisError::AssignmentMissing), None, w, n);
            if r.is_ok() { return Err("an error of the value closure was swallowed".into()); }
            let r = Num::<F>::alloc(cs.namespace(|| "d"), || Err(SynthesisError::AssignmentMissing));
            if r.is_ok() { return Err("an error of the value closure was swallowed".into()); }
            let f: F = from_int(&v2);
            let r = Num::<F>::alloc(cs.namespace(|| "e"), || Ok(f)).map_err(|e| e.to_string())?;
            if r.value != Some(f) || cs.eval_lc(&r.num) != Some(f) { return Err("Num::alloc lost its value".into()); }
            let m = b(12345);
            let r = BigNat::<F>::alloc_from_limbs(cs.namespace(|| "f"), || Ok(fdigits::<F>(&v2, w, n)), Some(m.clone()), w, n).map_err(|e| e.to_string())?;
            if r.params.max_word != m { return Err("alloc_from_limbs ignores max_word".into()); }
            let one = BigNat::<F>::one::<R<F>>(w);
            same(&cs, &one, &Want { value: b(1), limbs: vec![b(1)], w, max_word: None }, "one")
        });
    }
}

pub fn fill(c: &mut Ctx) {
    for _ in 0..if c.thorough { 4000 } else { 500 } {
        let w = 1 + c.below(4) as usize;
        let (n, m) = (c.below(5) as usize, c.below(4) as usize);
        let k = c.below(7) as usize;
        let mx = b(1 + c.below(20));
        let my = b(1 + c.below(20));
        let x: Vec<BigInt> = (0..n).map(|_| b(c.rnd()) % (&mx + 1)).collect();
        let y: Vec<BigInt> = (0..m).map(|_| b(c.rnd()) % (&my + 1)).collect();
        let mb = c.below(2) == 0;
        ops::<F31>(c, w, x.clone(), mx.clone(), y.clone(), my.clone(), k, mb);
        ops::<F8191>(c, w, x, mx, y, my, k, mb);
        let mut w = [8usize, 32, 64, 100][c.below(4) as usize];
        if c.below(3) == 0 { w = c.size(w as u64, 1, 240); }
        let (n, m, k) = (c.size(n as u64, 1, 60), c.size(m as u64, 1, 60), c.size(k as u64, 1, 70));
        let mx: BigInt = c.rbig(w + 3) + 1;
        let my: BigInt = c.rbig(w) + 1;
        let x: Vec<BigInt> = (0..n).map(|_| c.rbig(w + 3) % (&mx + 1)).collect();
        let y: Vec<BigInt> = (0..m).map(|_| c.rbig(w) % (&my + 1)).collect();
        ops::<Fr>(c, w, x.clone(), mx.clone(), y.clone(), my.clone(), k, mb);
        ops::<Fp>(c, w, x, mx, y, my, k, mb);
    }
    for _ in 0..if c.thorough { 2000 } else { 400 } {
        let w = 1 + c.below(8) as usize;
        let n = c.below(5) as usize;
        let ex = if c.below(5) == 0 { 2 } else { 0 };
        let v = c.rbig(w * n + ex);
        alloc::<F31>(c, w, n, v.clone());
        alloc::<F257>(c, w, n, v);
        let w = c.size(1, 252, 252);
        let n = c.size(n as u64, 1, 40);
        let ex = if c.below(5) == 0 { 2 } else { 0 };
        let v = c.rbig(w * n + ex);
        alloc::<Fr>(c, w, n, v.clone());
        alloc::<Fp>(c, w, n, v);
    }
    // n_bits must bound the bits of any number with these parameters
    for _ in 0..if c.thorough { 5000 } else { 800 } {
        let w = 1 + c.below(6) as usize;
        let n = c.size(1, 5, 200);
        let m = b(1 + c.below(40)) + if c.below(5) == 0 { c.rbig(64) } else { b(0) };
        c.pred(format!("n_bits w={w} n={n} max_word={m}"), move || {
            let x: BigNat<Fr> = BigNat { limbs: vec![LinearCombination::zero(); n], limb_values: None, value: None, params: BigNatParams { min_bits: 0, max_word: m.clone(), limb_width: w, n_limbs: n } };
            let top = value_of(&vec![m.clone(); n], w);
            if x.n_bits() < top.bits() as usize { return Err(format!("n_bits {} but {top} has {}", x.n_bits(), top.bits())); }
            if x.n_bits() > w * (n - 1) + m.bits() as usize + 64 { return Err("absurd".into()); }
            Ok(())
        });
    }
}
