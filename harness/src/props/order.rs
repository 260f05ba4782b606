use super::eqs::{boolout, want};
use super::*;
use bellpepper_core::ConstraintSystem;
use validate_btc_header::btc_validation::median::{leq, less_than};

fn cmp<F: Fld>(c: &mut Ctx, opt: Opt, n: usize, x: BigInt, y: BigInt) {
    for le in [false, true] {
        let t = if le { x <= y } else { x < y };
        let nm = if le { "leq" } else { "less_than" };
        c.gadget::<F>(format!("{nm} n_bits={n} {x} {y}"), opt, vec![from_int(&x), from_int(&y)], move |cs, i| {
            let a = anum(cs, &i[0]);
            let d = anum(cs, &i[1]);
            let r = if le { leq(cs.namespace(|| "c"), &a, &d, n)? } else { less_than(cs.namespace(|| "c"), &a, &d, n)? };
            Ok(boolout(&r))
        }, Expect::Sat, move |o| want(o, t));
    }
}

pub fn fill(c: &mut Ctx, opt: Opt) {
    for n in 1..=2usize { for x in 0..(1u64 << n) { for y in 0..(1u64 << n) { cmp::<F31>(c, opt, n, b(x), b(y)); } } }
    for n in 1..=4usize { for x in 0..(1u64 << n) { for y in 0..(1u64 << n) { if n < 4 || c.thorough || c.below(3) == 0 || x == y { cmp::<F127>(c, opt, n, b(x), b(y)); } } } }
    for n in [5usize, 6, 7] {
        for _ in 0..if c.thorough { 200 } else { 25 } {
            let (x, y) = (c.below(1 << n), c.below(1 << n));
            if n <= 6 { cmp::<F257>(c, opt, n, b(x), b(y)); }
            cmp::<F1019>(c, opt, n, b(x), b(y));
            cmp::<F1019>(c, opt, n, b(x), b(x));
            cmp::<F1019>(c, opt, n, b(x), b((x + 1) % (1 << n)));
        }
    }
    for n in [1usize, 8, 31, 32, 33, 63, 64, 100, 125, 126, 127, 128, 129, 160, 200, 224, 240, 250].into_iter().chain(c.hints(1, 250)) {
        let top: BigInt = (b(1) << n) - 1;
        for _ in 0..if c.thorough { 20 } else { 4 } {
            let x = c.rbig(n);
            let y = c.rbig(n);
            cmp::<Fr>(c, opt, n, x.clone(), y.clone());
            cmp::<Fp>(c, opt, n, y.clone(), x.clone());
            cmp::<Fr>(c, opt, n, x.clone(), x.clone());
            if x < top { cmp::<Fr>(c, opt, n, x.clone(), &x + 1); cmp::<Fp>(c, opt, n, &x + 1, x); }
        }
        cmp::<Fr>(c, opt, n, b(0), top.clone());
        cmp::<Fr>(c, opt, n, top.clone(), b(0));
        cmp::<Fp>(c, opt, n, top.clone(), top);
    }
}
