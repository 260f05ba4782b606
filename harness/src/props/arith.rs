use super::*;
use bellpepper_core::ConstraintSystem;

/// `Polynomial` lives in a private module of the crate: its name is not reachable from here, but
/// the type is, as the argument of `BigNat::from_poly`.
fn into_poly<F: Fld, P>(b: BigNat<F>, _: fn(P, usize, BigInt) -> BigNat<F>) -> P where BigNat<F>: Into<P> {
    b.into()
}
macro_rules! mkpoly { ($F:ty, $c:expr, $v:expr) => {
    into_poly::<$F, _>(BigNat { limbs: $c, limb_values: $v, value: None, params: BigNatParams { min_bits: 0, max_word: b(0), limb_width: 1, n_limbs: 0 } }, BigNat::<$F>::from_poly)
} }
macro_rules! poly_in { ($F:ty, $i:expr) => {
    mkpoly!($F, $i.iter().map(|x| x.lc()).collect(), $i.iter().map(|x| x.value).collect())
} }
fn conv<F: Fld>(x: &[F], y: &[F]) -> Vec<F> {
    let mut r = vec![F::ZERO; x.len() + y.len() - 1];
    for (i, a) in x.iter().enumerate() { for (j, d) in y.iter().enumerate() { r[i + j] += *a * d; } }
    r
}
fn polyout<F: Fld>(c: &[LinearCombination<F>], v: &Option<Vec<F>>) -> Built<F> {
    let v = match v { None => vec![None; c.len()], Some(v) => v.iter().map(|x| Some(*x)).collect() };
    Built::with(c.to_vec(), v)
}

fn poly1<F: Fld>(c: &mut Ctx, opt: Opt, x: Vec<F>, y: Vec<F>) {
    let n = x.len();
    let sx = show(&x.iter().map(to_int).collect::<Vec<_>>());
    let sy = show(&y.iter().map(to_int).collect::<Vec<_>>());
    let mut ins = x.clone();
    ins.extend(y.iter().cloned());
    if n > 0 && !y.is_empty() {
        let w: Vec<BigInt> = conv(&x, &y).iter().map(to_int).collect();
        c.gadget::<F>(format!("alloc_product ({sx})*({sy})"), opt, ins.clone(), move |cs, i| {
            let p = poly_in!(F, i[..n]).alloc_product(cs.namespace(|| "p"), &poly_in!(F, i[n..]))?;
            Ok(polyout(&p.coefficients, &p.values))
        }, Expect::Sat, move |o| if o == &w[..] { Ok(()) } else { Err(format!("product coefficients {} expected {}", show(o), show(&w))) });
    }
    let m = x.len().max(y.len());
    let w: Vec<BigInt> = (0..m).map(|k| to_int(&(*x.get(k).unwrap_or(&F::ZERO) + *y.get(k).unwrap_or(&F::ZERO)))).collect();
    c.gadget::<F>(format!("poly sum ({sx})+({sy})"), opt, ins, move |_, i| {
        let p = poly_in!(F, i[..n]).sum(&poly_in!(F, i[n..]));
        Ok(polyout(&p.coefficients, &p.values))
    }, Expect::Sat, move |o| if o == &w[..] { Ok(()) } else { Err(format!("sum {} expected {}", show(o), show(&w))) });
    let p = if y.is_empty() { F::from(3u64) } else { y[0] };
    c.pred(format!("evaluate_at ({sx}) at {} [{}]", to_int(&p), F::NAME), move || {
        let poly = mkpoly!(F, vec![], Some(x.clone()));
        let w = x.iter().rev().fold(F::ZERO, |a, k| a * p + k);
        match poly.evaluate_at(p) { Some(v) if v == w => Ok(()), v => Err(format!("{:?} expected {:?}", v, w)) }?;
        let poly = mkpoly!(F, vec![], None);
        match poly.evaluate_at(p) { None => Ok(()), Some(_) => Err("a value without coefficients' values".into()) }
    });
}

pub fn poly(c: &mut Ctx, opt: Opt) {
    for _ in 0..if c.thorough { 1500 } else { 250 } {
        let n = c.below(5) as usize;
        let m = c.below(5) as usize;
        let g = |c: &mut Ctx, p: u64, k: usize| -> Vec<u64> { (0..k).map(|_| match c.below(5) { 0 => 0, 1 => p - 1, 2 => 1, _ => c.below(p) }).collect() };
        let (x, y) = (g(c, 31, n), g(c, 31, m));
        poly1::<F31>(c, opt, x.iter().map(|v| F31::from(*v)).collect(), y.iter().map(|v| F31::from(*v)).collect());
        let (x, y) = (g(c, 257, n), g(c, 257, m));
        poly1::<F257>(c, opt, x.iter().map(|v| F257::from(*v)).collect(), y.iter().map(|v| F257::from(*v)).collect());
        let (n, m) = (c.size(n as u64, 1, 40), c.size(m as u64, 1, 40));
        let x: Vec<BigInt> = (0..n).map(|_| c.rbig(253)).collect();
        let y: Vec<BigInt> = (0..m).map(|_| c.rbig(253)).collect();
        poly1::<Fr>(c, opt, x.iter().map(from_int).collect(), y.iter().map(from_int).collect());
        poly1::<Fp>(c, opt, x.iter().map(from_int).collect(), y.iter().map(from_int).collect());
    }
}

/// Is there room in the field for a product check of these sizes?
fn room<F: Fld>(m: &BigInt, w: usize) -> bool {
    super::eqs::carry_bits(m, w) + w <= F::CAPACITY as usize
}

fn ins2<F: Fld>(v: &[&Vec<BigInt>]) -> Vec<F> {
    v.iter().flat_map(|x| x.iter().map(from_int)).collect()
}

fn mult1<F: Fld>(c: &mut Ctx, opt: Opt, w: usize, x: Vec<BigInt>, mx: BigInt, y: Vec<BigInt>, my: BigInt, minb: bool) {
    let k = x.len().min(y.len());
    let unit: BigInt = (b(1) << w) - 1;
    if !room::<F>(&(b(k) * &mx * &my).max(unit), w) { return; }
    let v = value_of(&x, w) * value_of(&y, w);
    let n = x.len();
    let tot = x.len() + y.len();
    let e = if v < (b(1) << (w * tot)) { Expect::Sat } else { Expect::Reject };
    let (bx, by) = if minb { (value_of(&x, w).bits() as usize, value_of(&y, w).bits() as usize) } else { (0, 0) };
    c.gadget::<F>(format!("mult w={w} {} (<={mx}) * {} (<={my}) min_bits={bx},{by}", show(&x), show(&y)), opt, ins2(&[&x, &y]), move |cs, i| {
        let mut a = nat(&i[..n], w, Some(mx.clone()));
        let mut d = nat(&i[n..], w, Some(my.clone()));
        a.params.min_bits = bx;
        d.params.min_bits = by;
        let p = a.mult(cs.namespace(|| "m"), &d)?;
        let bad = p.params.limb_width != w;
        Ok(built(cs, &p).err(bad, "limb width changed"))
    }, e, move |o| if o == &digits(&v, w, tot)[..] { Ok(()) } else { Err(format!("limbs {} of {}, but the product is {v}", show(o), value_of(o, w))) });
}

fn divides1<F: Fld>(c: &mut Ctx, opt: Opt, w: usize, x: Vec<BigInt>, y: Vec<BigInt>, w2: usize) {
    let k = x.len().min(y.len());
    let unit: BigInt = (b(1) << w) - 1;
    if !room::<F>(&(b(k) * &unit * &unit).max(unit.clone()), w) { return; }
    let (a, d) = (value_of(&x, w), value_of(&y, w));
    let e = if w != w2 { Expect::Err } else if if a == b(0) { d == b(0) } else { &d % &a == b(0) } { Expect::Sat } else { Expect::Reject };
    if a == b(0) && d != b(0) && opt.honest && !opt.sound { return; }
    let n = x.len();
    c.gadget::<F>(format!("divides w={w}/{w2} {} | {}", show(&x), show(&y)), opt, ins2(&[&x, &y]), move |cs, i| {
        nat(&i[..n], w, None).divides(cs.namespace(|| "d"), &nat(&i[n..], w2, None))?;
        Ok(Built::none())
    }, e, |_| Ok(()));
}

pub fn rl(c: &mut Ctx, n: usize, m: u64) -> Vec<BigInt> {
    (0..n).map(|_| match c.below(4) { 0 => b(m), 1 => b(0), _ => b(c.below(m + 1)) }).collect()
}

pub fn mult(c: &mut Ctx, opt: Opt) {
    for _ in 0..if c.thorough { 1200 } else { 240 } {
        let w = 1 + c.below(3) as usize;
        let (n, m) = (1 + c.below(3) as usize, 1 + c.below(2) as usize);
        let top = (1u64 << w) - 1;
        let mx = if c.below(3) == 0 { top + c.below(3) } else { top };
        let my = if c.below(4) == 0 { c.below(top) + 1 } else { top };
        let x = rl(c, n, mx);
        let y = rl(c, m, my);
        let mb = c.below(2) == 0;
        match c.below(4) {
            0 => mult1::<F257>(c, opt, w, x, b(mx), y, b(my), mb),
            1 => mult1::<F1019>(c, opt, w, x, b(mx), y, b(my), mb),
            2 => mult1::<F127>(c, opt, w, y, b(my), x, b(mx), mb),
            _ => mult1::<F8191>(c, opt, w, x, b(mx), y, b(my), mb),
        }
    }
    for _ in 0..if c.thorough { 800 } else { 200 } {
        let w = 1 + c.below(3) as usize;
        let (n, m) = (1 + c.below(2) as usize, 1 + c.below(3) as usize);
        let top = (1u64 << w) - 1;
        let x = rl(c, n, top);
        let mut y = rl(c, m, top);
        if c.below(2) == 0 {
            let a = value_of(&x, w);
            let f: BigInt = BigInt::from(c.rnd()) % (b(1) << (w * m));
            let z = &a * &f;
            if z < (b(1) << (w * m)) { y = digits(&z, w, m); }
        }
        let w2 = if c.below(12) == 0 { w + 1 } else { w };
        match c.below(3) {
            0 => divides1::<F257>(c, opt, w, x, y, w2),
            1 => divides1::<F1019>(c, opt, w, x, y, w2),
            _ => divides1::<F8191>(c, opt, w, x, y, w2),
        }
    }
    // zero divides zero and nothing else
    for (n, m) in [(1usize, 1usize), (1, 2), (2, 1)] {
        divides1::<F257>(c, opt, 1, vec![b(0); n], vec![b(0); m], 1);
        divides1::<F1019>(c, opt, 2, vec![b(0); n], vec![b(0); m], 2);
        divides1::<F1019>(c, opt, 2, vec![b(0); n], vec![b(1); m], 2);
    }
    for _ in 0..if c.thorough { 120 } else { 24 } {
        let mut w = [8usize, 16, 32, 64, 96][c.below(5) as usize];
        if c.below(3) == 0 { w = c.size(w as u64, 1, 120); }
        let (n, m) = (c.size(1, 5, 20), c.size(1, 5, 20));
        let x: Vec<BigInt> = (0..n).map(|_| c.rbig(w)).collect();
        let y: Vec<BigInt> = (0..m).map(|_| c.rbig(w)).collect();
        let t: BigInt = (b(1) << w) - 1;
        mult1::<Fr>(c, HONEST, w, x.clone(), t.clone(), y.clone(), t.clone(), true);
        mult1::<Fp>(c, HONEST, w, y.clone(), t.clone(), x.clone(), t.clone(), false);
        let (vx, vy) = (value_of(&x, w), value_of(&y, w));
        if vx > b(0) { divides1::<Fr>(c, HONEST, w, x, digits(&(vx * vy), w, n + m), w); }
    }
    // the largest operands
    for (w, n, m) in [(64usize, 2usize, 2usize), (64, 4, 1), (64, 4, 4), (32, 3, 5), (64, 1, 1), (100, 2, 1)] {
        let t: BigInt = (b(1) << w) - 1;
        mult1::<Fr>(c, HONEST, w, vec![t.clone(); n], t.clone(), vec![t.clone(); m], t.clone(), true);
    }
}

fn modmax(w: usize, ls: &[(usize, BigInt)]) -> BigInt {
    // largest limb of the two sides, sides given as (terms, per-term bound)
    ls.iter().map(|(k, m)| b(*k) * m).max().unwrap().max((b(1) << w) - 1)
}

#[derive(Clone, Copy, PartialEq)]
enum Mk { MultMod, RedMod }

fn mod1<F: Fld>(c: &mut Ctx, opt: Opt, mk: Mk, w: usize, x: Vec<BigInt>, mx: BigInt, y: Vec<BigInt>, m: Vec<BigInt>, full: bool, w2: usize) {
    let unit: BigInt = (b(1) << w) - 1;
    let mv = value_of(&m, w);
    let xv = value_of(&x, w);
    let yv = if mk == Mk::MultMod { value_of(&y, w) } else { b(1) };
    let nq = x.len() + y.len() + 4;
    let left = if mk == Mk::MultMod { (x.len().min(y.len()), &mx * &unit) } else { (1, mx.clone()) };
    let right = (nq.min(m.len()), &unit * &unit);
    let mm = modmax(w, &[left, (1, b(right.0) * right.1 + &unit)]);
    if !room::<F>(&mm, w) { return; }
    let mb = if full { mv.bits() as usize } else { 0 };
    let (nx, ny) = (x.len(), y.len());
    let e = if w2 != w { Expect::Err } else if mv == b(0) { Expect::Reject } else { Expect::Sat };
    if mv == b(0) && !opt.sound { return; }
    let ins = if mk == Mk::MultMod { ins2(&[&x, &y, &m]) } else { ins2(&[&x, &m]) };
    let nm = if mk == Mk::MultMod { "mult_mod" } else { "red_mod" };
    c.gadget::<F>(format!("{nm} w={w}/{w2} {} (<={mx}) * {} mod {} min_bits={mb}", show(&x), show(&y), show(&m)), opt, ins, move |cs, i| {
        let a = nat(&i[..nx], w, Some(mx.clone()));
        if mk == Mk::MultMod {
            let d = nat(&i[nx..nx + ny], w, None);
            let mut md = nat(&i[nx + ny..], w2, None);
            md.params.min_bits = mb;
            let (q, r) = a.mult_mod(cs.namespace(|| "m"), &d, &md)?;
            let mut o = lcs(&q);
            let nqq = o.len();
            o.extend(lcs(&r));
            let mut v = vals(&q);
            v.extend(vals(&r));
            let mut bl = Built::with(o, v);
            bl.errs = wf(cs, &q, "quotient");
            bl.errs.extend(wf(cs, &r, "remainder"));
            // tell the check where the remainder starts
            bl.outs.insert(0, LinearCombination::zero() + (F::from(nqq as u64), crate::rec::Rec::<F>::one()));
            bl.vals.as_mut().unwrap().insert(0, Some(F::from(nqq as u64)));
            Ok(bl)
        } else {
            let mut md = nat(&i[nx..], w2, None);
            md.params.min_bits = mb;
            let r = a.red_mod(cs.namespace(|| "m"), &md)?;
            Ok(built(cs, &r))
        }
    }, e, move |o| {
        let unit: BigInt = (b(1) << w) - 1;
        let prod = &xv * &yv;
        let (q, r) = if mk == Mk::MultMod {
            let nq = usize::try_from(&o[0]).unwrap();
            (Some(&o[1..1 + nq]), &o[1 + nq..])
        } else { (None, o) };
        for l in q.unwrap_or(&[]).iter().chain(r) { if *l > unit { return Err(format!("limb {l} out of range")); } }
        let rv = value_of(r, w);
        if let Some(q) = q {
            let qv = value_of(q, w);
            if &qv * &mv + &rv != prod { return Err(format!("{qv} * {mv} + {rv} is not {prod}")); }
        }
        if rv >= mv { return Err(format!("remainder {rv} is not below the modulus {mv}")); }
        if rv != &prod % &mv { return Err(format!("remainder {rv}, but {prod} mod {mv} is {}", &prod % &mv)); }
        Ok(())
    });
}

fn apm<F: Fld>(c: &mut Ctx, opt: Opt, w: usize, x: Vec<BigInt>, y: Vec<BigInt>, m: Vec<BigInt>, r: Vec<BigInt>, bad: usize) {
    let unit: BigInt = (b(1) << w) - 1;
    let k = x.len().min(y.len());
    let mm = modmax(w, &[(k, &unit * &unit), (1, b((x.len() + y.len()).min(m.len())) * &unit * &unit + &unit)]);
    if !room::<F>(&mm, w) { return; }
    let (xv, yv, mv, rv) = (value_of(&x, w), value_of(&y, w), value_of(&m, w), value_of(&r, w));
    let prod = &xv * &yv;
    let nq = x.len() + y.len();
    // satisfiable iff prod = q*m + r for some q that fits
    let sat = prod >= rv && {
        let d = &prod - &rv;
        if mv == b(0) { d == b(0) } else { &d % &mv == b(0) && &d / &mv < (b(1) << (w * nq)) }
    };
    let honest = mv > b(0) && sat && rv < mv;
    let e = if bad < 4 { Expect::Err } else if honest { Expect::Sat } else if sat { Expect::Either } else { Expect::Reject };
    let (a0, a1, a2) = (x.len(), x.len() + y.len(), x.len() + y.len() + m.len());
    c.gadget::<F>(format!("assert_product_mod w={w} {}*{} mod {} = {} bad={bad}", show(&x), show(&y), show(&m), show(&r)), opt, ins2(&[&x, &y, &m, &r]), move |cs, i| {
        let ww = |k: usize| if bad == k { w + 1 } else { w };
        let a = nat(&i[..a0], w, None);
        let d = nat(&i[a0..a1], ww(1), None);
        let md = nat(&i[a1..a2], ww(2), None);
        let rm = nat(&i[a2..], ww(3), None);
        let q = a.assert_product_mod(cs.namespace(|| "m"), &d, &md, &rm)?;
        Ok(built(cs, &q))
    }, e, move |o| {
        for l in o { if *l > unit { return Err(format!("limb {l} out of range")); } }
        let q = value_of(o, w);
        if &q * &mv + &rv == prod { Ok(()) } else { Err(format!("{q} * {mv} + {rv} is not {prod}")) }
    });
}

pub fn modular(c: &mut Ctx, opt: Opt) {
    for k in 0..if c.thorough { 1600 } else { 330 } {
        let mk = if k % 2 == 0 { Mk::MultMod } else { Mk::RedMod };
        let w = 1 + c.below(3) as usize;
        let top = (1u64 << w) - 1;
        let (nx, ny, nm) = (1 + c.below(2) as usize, 1, 1 + c.below(2) as usize);
        let mx = if mk == Mk::RedMod && c.below(2) == 0 { top + c.below(2 * top + 2) } else { top };
        let x = rl(c, nx + if mk == Mk::RedMod { 1 } else { 0 }, mx);
        let y = if mk == Mk::MultMod { rl(c, ny, top) } else { vec![] };
        let mut m = rl(c, nm, top);
        if c.below(5) == 0 { m = digits(&(b(1) << (c.below((w * nm) as u64) as usize)), w, nm); }
        let full = c.below(2) == 0;
        let w2 = if c.below(20) == 0 { w + 1 } else { w };
        match c.below(3) {
            0 => mod1::<F257>(c, opt, mk, w, x, b(mx), y, m, full, w2),
            1 => mod1::<F1019>(c, opt, mk, w, x, b(mx), y, m, full, w2),
            _ => mod1::<F8191>(c, opt, mk, w, x, b(mx), y, m, full, w2),
        }
    }
    for _ in 0..if c.thorough { 700 } else { 150 } {
        let w = 1 + c.below(2) as usize;
        let top = (1u64 << w) - 1;
        let nm = 1 + c.below(2) as usize;
        let nx = 1 + c.below(2) as usize;
        let x = rl(c, nx, top);
        let y = rl(c, 1, top);
        let m = rl(c, nm, top);
        let mv = value_of(&m, w);
        let prod = value_of(&x, w) * value_of(&y, w);
        let r = match c.below(4) {
            0 => rl(c, nm, top),
            1 if prod < (b(1) << (w * nm)) => digits(&prod, w, nm),
            _ => if mv > b(0) { digits(&(prod % mv), w, nm) } else { rl(c, nm, top) },
        };
        let bad = if c.below(15) == 0 { 1 + c.below(3) as usize } else { 4 };
        match c.below(3) {
            0 => apm::<F257>(c, opt, w, x, y, m, r, bad),
            1 => apm::<F1019>(c, opt, w, x, y, m, r, bad),
            _ => apm::<F8191>(c, opt, w, x, y, m, r, bad),
        }
    }
    for k in 0..if c.thorough { 120 } else { 30 } {
        let mut w = [8usize, 16, 32, 64][c.below(4) as usize];
        if c.below(3) == 0 { w = c.size(w as u64, 1, 110); }
        let (n, l, nm) = (c.size(1, 4, 16), c.size(1, 3, 16), c.size(1, 4, 16));
        let t: BigInt = (b(1) << w) - 1;
        let x: Vec<BigInt> = (0..n).map(|_| c.rbig(w)).collect();
        let y: Vec<BigInt> = (0..l).map(|_| c.rbig(w)).collect();
        let mut m: Vec<BigInt> = (0..nm).map(|_| c.rbig(w)).collect();
        if value_of(&m, w) == b(0) { m[0] = b(7); }
        let full = k % 3 == 0;
        mod1::<Fr>(c, HONEST, Mk::MultMod, w, x.clone(), t.clone(), y.clone(), m.clone(), full, w);
        mod1::<Fp>(c, HONEST, Mk::RedMod, w, x.clone(), t.clone(), vec![], m.clone(), full, w);
        let r = value_of(&x, w) * value_of(&y, w) % value_of(&m, w);
        apm::<Fr>(c, HONEST, w, x, y, m, digits(&r, w, nm), 4);
    }
    let t: BigInt = (b(1) << 64) - 1;
    mod1::<Fr>(c, HONEST, Mk::MultMod, 64, vec![t.clone(); 4], t.clone(), vec![t.clone()], vec![b(1209600)], false, 64);
    mod1::<Fr>(c, HONEST, Mk::MultMod, 64, vec![t.clone(); 4], t.clone(), vec![t.clone(); 4], vec![b(1), b(0), b(0), b(1) << 63], true, 64);
    mod1::<Fr>(c, HONEST, Mk::MultMod, 64, vec![t.clone(); 2], t.clone(), vec![t.clone(); 2], vec![b(0), b(1) << 63], true, 64);
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Lk { Add, Sub, Min, Shift, Scale }

fn lin1<F: Fld>(c: &mut Ctx, opt: Opt, k: Lk, w: usize, x: Vec<BigInt>, mx: BigInt, y: Vec<BigInt>, my: BigInt, con: BigInt, w2: usize, minb: bool) {
    let (xv, yv) = (value_of(&x, w), value_of(&y, w));
    let cap = F::CAPACITY as usize;
    let unit: BigInt = (b(1) << w) - 1;
    let lim: BigInt = b(1) << cap;
    let n = x.len();
    let mut e = if w != w2 && k != Lk::Shift && k != Lk::Scale { Expect::Err } else { Expect::Sat };
    match k {
        Lk::Add => { if &mx + &my > lim { return; } }
        Lk::Sub => {
            let m = mx.clone().max(&my + &unit);
            if !room::<F>(&m, w) { return; }
            if e == Expect::Sat && (xv < yv || &xv - &yv >= (b(1) << (w * n))) { e = Expect::Reject; }
        }
        Lk::Min => {
            let m = mx.clone().max(my.clone()) + &unit;
            if !room::<F>(&m, w) { return; }
            // the difference is held in limbs of the regular size
            let d = if xv > yv { &xv - &yv } else { &yv - &xv };
            if d >= (b(1) << (w * x.len().max(y.len()))) { return; }
        }
        Lk::Shift => { if &mx + &con > lim { return; } }
        Lk::Scale => { if &mx * &con > lim { return; } }
    }
    let (bx, by) = if minb { (xv.bits() as usize, yv.bits() as usize) } else { (0, 0) };
    let want = match k {
        Lk::Add => &xv + &yv,
        Lk::Sub => &xv - &yv,
        Lk::Min => xv.clone().min(yv.clone()),
        Lk::Shift => &xv + &con,
        Lk::Scale => &xv * &con,
    };
    let ins = ins2(&[&x, &y]);
    c.gadget::<F>(format!("{k:?} w={w}/{w2} {} (<={mx}), {} (<={my}), const {con} min_bits={bx},{by}", show(&x), show(&y)), opt, ins, move |cs, i| {
        let mut a = nat(&i[..n], w, Some(mx.clone()));
        let mut d = nat(&i[n..], w2, Some(my.clone()));
        a.params.min_bits = bx;
        d.params.min_bits = by;
        type R<F> = crate::rec::Rec<F>;
        let r = match k {
            Lk::Add => a.add::<R<F>>(&d)?,
            Lk::Sub => a.sub(cs.namespace(|| "s"), &d)?,
            Lk::Min => a.min(cs.namespace(|| "s"), &d)?,
            Lk::Shift => a.shift::<R<F>>(from_int(&con)),
            Lk::Scale => a.scale::<R<F>>(from_int(&con)),
        };
        let mw = r.params.max_word.clone();
        let mut bl = built(cs, &r);
        // the metadata must not depend on the witness
        bl.outs.push(LinearCombination::zero() + (from_int::<F>(&mw), R::<F>::one()));
        bl.vals.as_mut().unwrap().push(Some(from_int(&mw)));
        Ok(bl)
    }, e, move |o| {
        let (l, mw) = (&o[..o.len() - 1], &o[o.len() - 1]);
        let v = value_of(l, w);
        if v != want { return Err(format!("value {v} expected {want}")); }
        for x in l { if x > mw && *mw != b(0) { return Err(format!("limb {x} above the stated bound {mw}")); } }
        Ok(())
    });
}

pub fn linear(c: &mut Ctx, opt: Opt) {
    for _ in 0..if c.thorough { 8000 } else { 1200 } {
        let k = [Lk::Add, Lk::Sub, Lk::Min, Lk::Shift, Lk::Scale][c.below(5) as usize];
        let w = 1 + c.below(3) as usize;
        let top = (1u64 << w) - 1;
        let n = 1 + c.below(3) as usize;
        let m = if k == Lk::Min || c.below(3) == 0 { 1 + c.below(3) as usize } else { n };
        let mx = if c.below(3) == 0 { top + c.below(top + 3) } else { top };
        let my = if c.below(3) == 0 { top + c.below(top + 3) } else { top };
        let x = rl(c, n, mx);
        let mut y = rl(c, m, my);
        if c.below(6) == 0 { y = x.clone(); }
        let my = my.max(if y == x { mx } else { 0 });
        let con = b(match c.below(4) { 0 => 0, 1 => 1, _ => c.below(9) });
        let w2 = if c.below(25) == 0 { w + 1 } else { w };
        let mb = c.below(3) == 0;
        match c.below(4) {
            0 => lin1::<F257>(c, opt, k, w, x, b(mx), y, b(my), con, w2, mb),
            1 => lin1::<F1019>(c, opt, k, w, x, b(mx), y, b(my), con, w2, mb),
            2 => lin1::<F127>(c, opt, k, w, x, b(mx), y, b(my), con, w2, mb),
            _ => lin1::<F8191>(c, opt, k, w, x, b(mx), y, b(my), con, w2, mb),
        }
    }
    for _ in 0..if c.thorough { 400 } else { 80 } {
        let k = [Lk::Add, Lk::Sub, Lk::Min, Lk::Shift, Lk::Scale][c.below(5) as usize];
        let mut w = [16usize, 32, 64][c.below(3) as usize];
        if c.below(3) == 0 { w = c.size(w as u64, 1, 120); }
        let n = c.size(1, 5, 30);
        let t: BigInt = (b(1) << w) - 1;
        let x: Vec<BigInt> = (0..n).map(|_| c.rbig(w)).collect();
        let m = if c.below(3) == 0 { 1 + c.below(5) as usize } else { n };
        let y: Vec<BigInt> = (0..m).map(|_| c.rbig(w)).collect();
        let con = c.rbig(40);
        let (x, y) = if k == Lk::Sub && value_of(&x, w) < value_of(&y, w) && n == m { (y, x) } else { (x, y) };
        lin1::<Fr>(c, HONEST, k, w, x.clone(), t.clone(), y.clone(), t.clone(), con.clone(), w, true);
        lin1::<Fp>(c, HONEST, k, w, x, t.clone(), y, t, con, w, false);
    }
}
