use super::*;
use bellpepper_core::{ConstraintSystem, SynthesisError};
use ff::PrimeField;
use validate_btc_header::util::gadget::Gadget;

/// A gadget that keeps every default method of the trait.
#[derive(Clone)]
pub struct Pair<F: PrimeField> {
    pub w: Vec<LinearCombination<F>>,
    pub v: Option<Vec<F>>,
    pub p: usize,
}
impl<F: PrimeField> Gadget for Pair<F> {
    type Scalar = F;
    type Value = Vec<F>;
    type Access = ();
    type Params = usize;
    fn alloc<CS: ConstraintSystem<F>>(mut cs: CS, value: Option<&Vec<F>>, _: (), p: &usize) -> Result<Self, SynthesisError> {
        let mut w = vec![];
        for i in 0..*p {
            let v = cs.alloc(|| format!("{i}"), || value.map(|v| v[i]).ok_or(SynthesisError::AssignmentMissing))?;
            w.push(LinearCombination::zero() + v);
        }
        Ok(Pair { w, v: value.cloned(), p: *p })
    }
    fn wires(&self) -> Vec<LinearCombination<F>> { self.w.clone() }
    fn wire_values(&self) -> Option<Vec<F>> { self.v.clone() }
    fn value(&self) -> Option<&Vec<F>> { self.v.as_ref() }
    fn access(&self) -> &() { &() }
    fn params(&self) -> &usize { &self.p }
}
fn pair<F: Fld>(i: &[In<F>]) -> Pair<F> {
    Pair { w: i.iter().map(|x| x.lc()).collect(), v: i.iter().map(|x| x.value).collect(), p: i.len() }
}
fn pout<F: Fld>(ps: &[Pair<F>]) -> Built<F> {
    Built::with(ps.iter().flat_map(|p| p.w.clone()).collect(), ps.iter().flat_map(|p| match &p.v { None => vec![None; p.w.len()], Some(v) => v.iter().map(|x| Some(*x)).collect() }).collect())
}

fn generic<F: Fld>(c: &mut Ctx, opt: Opt, s: bool, x: Vec<BigInt>, y: Vec<BigInt>) {
    let n = x.len();
    let mut ins: Vec<F> = vec![if s { F::ONE } else { F::ZERO }];
    ins.extend(x.iter().map(from_int::<F>));
    ins.extend(y.iter().map(from_int::<F>));
    let red = |v: &[BigInt]| v.iter().map(|t| to_int(&from_int::<F>(t))).collect::<Vec<_>>();
    let (x, y) = (red(&x), red(&y));
    let e = if x.len() == y.len() { Expect::Sat } else { Expect::Err };
    let (sel, oth) = if s { (y.clone(), x.clone()) } else { (x.clone(), y.clone()) };
    let id = format!("s={s} ({}) ({})", show(&x), show(&y));
    let s2 = sel.clone();
    c.gadget::<F>(format!("mux {id}"), opt, ins.clone(), move |cs, i| {
        Ok(pout(&[Gadget::mux(cs.namespace(|| "m"), &bit_in(&i[0]), &pair(&i[1..1 + n]), &pair(&i[1 + n..]))?]))
    }, e, move |o| if o == &s2[..] { Ok(()) } else { Err(format!("selected {} expected {}", show(o), show(&s2))) });
    let mut both = sel;
    both.extend(oth);
    c.gadget::<F>(format!("switch {id}"), opt, ins.clone(), move |cs, i| {
        let (p, q) = Gadget::switch(cs.namespace(|| "m"), &bit_in(&i[0]), &pair(&i[1..1 + n]), &pair(&i[1 + n..]))?;
        Ok(pout(&[p, q]))
    }, e, move |o| if o == &both[..] { Ok(()) } else { Err(format!("switched to {} expected {}", show(o), show(&both))) });
    let e = if x.len() != y.len() { Expect::Err } else if x == y { Expect::Sat } else { Expect::Reject };
    c.gadget::<F>(format!("assert_equal {id}"), opt, ins, move |cs, i| {
        Gadget::assert_equal(cs.namespace(|| "m"), &pair(&i[1..1 + n]), &pair(&i[1 + n..]))?;
        Ok(Built::none())
    }, e, |_| Ok(()));
}

fn tree<F: Fld>(c: &mut Ctx, opt: Opt, k: usize, sel: u64, xs: Vec<BigInt>) {
    // k select bits, first is the highest
    let mut ins: Vec<F> = (0..k).map(|i| F::from((sel >> (k - 1 - i)) & 1)).collect();
    ins.extend(xs.iter().map(from_int::<F>));
    let e = if xs.len() == 1 << k { Expect::Sat } else { Expect::Err };
    let w = xs.get(sel as usize).map(|t| to_int(&from_int::<F>(t))).unwrap_or_default();
    let xs2 = xs.len();
    c.gadget::<F>(format!("mux_tree bits={k} sel={sel} ({})", show(&xs)), opt, ins, move |cs, i| {
        let bits: Vec<_> = i[..k].iter().map(bit_in).collect();
        let ps: Vec<_> = (0..xs2).map(|j| pair(&i[k + j..k + j + 1])).collect();
        Ok(pout(&[Gadget::mux_tree(cs.namespace(|| "t"), bits.iter(), &ps)?]))
    }, e, move |o| if o[0] == w { Ok(()) } else { Err(format!("selected {} expected {w}", o[0])) });
}

fn natmux<F: Fld>(c: &mut Ctx, opt: Opt, s: bool, w: usize, x: Vec<BigInt>, mx: BigInt, y: Vec<BigInt>, my: BigInt, w2: usize, kind: usize) {
    let (n, m) = (x.len(), y.len());
    let mut ins: Vec<F> = vec![if s { F::ONE } else { F::ZERO }];
    ins.extend(x.iter().map(from_int::<F>));
    ins.extend(y.iter().map(from_int::<F>));
    let k = n.max(m);
    let pad = |v: &[BigInt]| { let mut v = v.to_vec(); v.resize(k, b(0)); v };
    let (sel, oth) = if s { (pad(&y), pad(&x)) } else { (pad(&x), pad(&y)) };
    let mut e = if w == w2 { Expect::Sat } else { Expect::Err };
    let id = format!("s={s} w={w}/{w2} {} (<={mx}) {} (<={my})", show(&x), show(&y));
    if kind == 2 {
        if n != m { e = Expect::Err; } else { e = if x == y { Expect::Sat } else { Expect::Reject }; }
        if w != w2 { return; }
    }
    let nm = ["BigNat mux", "BigNat switch", "BigNat assert_equal"][kind];
    let want = match kind { 0 => sel, 1 => { let mut s = sel; s.extend(oth); s } _ => vec![] };
    c.gadget::<F>(format!("{nm} {id}"), opt, ins, move |cs, i| {
        let a = nat(&i[1..1 + n], w, Some(mx.clone()));
        let d = nat(&i[1 + n..], w2, Some(my.clone()));
        let s = bit_in(&i[0]);
        match kind {
            0 => {
                let r = Gadget::mux(cs.namespace(|| "m"), &s, &a, &d)?;
                Ok(built(cs, &r))
            }
            1 => {
                let (p, q) = Gadget::switch(cs.namespace(|| "m"), &s, &a, &d)?;
                let mut bl = built(cs, &p);
                let b2 = built(cs, &q);
                bl.outs.extend(b2.outs);
                bl.vals.as_mut().unwrap().extend(b2.vals.unwrap());
                bl.errs.extend(b2.errs);
                Ok(bl)
            }
            _ => { Gadget::assert_equal(cs.namespace(|| "m"), &a, &d)?; Ok(Built::none()) }
        }
    }, e, move |o| if o == &want[..] { Ok(()) } else { Err(format!("selected {} expected {}", show(o), show(&want))) });
}

pub fn fill(c: &mut Ctx, opt: Opt) {
    for _ in 0..if c.thorough { 600 } else { 120 } {
        let n = c.size(0, 4, 40);
        let m = if c.below(8) == 0 { c.below(4) as usize } else { n };
        let s = c.below(2) == 1;
        let x: Vec<BigInt> = (0..n).map(|_| c.rbig(250)).collect();
        let mut y: Vec<BigInt> = (0..m).map(|_| c.rbig(250)).collect();
        if c.below(3) == 0 { y = x.clone(); if n > 0 && c.below(2) == 0 { y[n - 1] += 1; } }
        generic::<F31>(c, opt, s, x.clone(), y.clone());
        generic::<Fr>(c, opt, s, x.clone(), y.clone());
        generic::<Fp>(c, opt, s, x, y);
    }
    for k in (0..=3usize).chain(c.hints(4, 7)) {
        for sel in 0..(1u64 << k) {
            for _ in 0..2 {
                let xs: Vec<BigInt> = (0..1 << k).map(|_| c.rbig(100)).collect();
                tree::<F257>(c, opt, k, sel, xs.clone());
                tree::<Fr>(c, opt, k, sel, xs);
            }
        }
        for l in 0..(5 << k) { if l != 1 << k { let xs: Vec<BigInt> = (0..l).map(|_| c.rbig(100)).collect(); tree::<F257>(c, opt, k, 0, xs); } }
    }
    for _ in 0..if c.thorough { 1500 } else { 300 } {
        let w = 1 + c.below(3) as usize;
        let top = (1u64 << w) - 1;
        let (n, m) = (1 + c.below(3) as usize, 1 + c.below(3) as usize);
        let mx = if c.below(3) == 0 { top + c.below(9) } else { top };
        let my = if c.below(3) == 0 { top + c.below(9) } else { top };
        let x = super::arith::rl(c, n, mx);
        let mut y = super::arith::rl(c, m, my);
        let mut my = my;
        if c.below(4) == 0 { y = x.clone(); my = mx; }
        let s = c.below(2) == 1;
        let w2 = if c.below(15) == 0 { w + 1 } else { w };
        let kind = c.below(3) as usize;
        natmux::<F31>(c, opt, s, w, x.clone(), b(mx), y.clone(), b(my), w2, kind);
        natmux::<F257>(c, opt, s, w, x, b(mx), y, b(my), w2, kind);
        let w = c.size(64, 1, 250);
        let (n, m) = (c.size(n as u64, 1, 30), c.size(m as u64, 1, 30));
        let t: BigInt = (b(1) << w) - 1;
        let x: Vec<BigInt> = (0..n).map(|_| c.rbig(w)).collect();
        let y: Vec<BigInt> = (0..m).map(|_| c.rbig(w)).collect();
        natmux::<Fr>(c, opt, s, w, x, t.clone(), y, t, w, kind);
    }
}
