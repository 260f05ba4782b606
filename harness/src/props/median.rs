use super::eqs::{boolout, want};
use super::*;
use bellpepper_core::ConstraintSystem;
use validate_btc_header::btc_validation::median::{compute_median_timestamp, verify_median_timestamp};

/// The middle element, by counting: at most half are below it, at most half above.
fn is_median(v: &[u32], m: u32) -> bool {
    let l = v.iter().filter(|x| **x < m).count();
    let g = v.iter().filter(|x| **x > m).count();
    v.contains(&m) && 2 * l < v.len() && 2 * g < v.len()
}

fn one<F: Fld>(c: &mut Ctx, opt: Opt, v: Vec<u32>, m: u32) {
    let t = is_median(&v, m);
    let n = v.len();
    // the candidate and the timestamps are variables the gadget makes itself: pin them to the
    // numbers given, so that the adversary chooses everything else
    let pins: Vec<(String, F)> = std::iter::once(("median/num".to_string(), F::from(m as u64)))
        .chain(v.iter().enumerate().map(|(i, x)| (format!("timestamp {i}/num"), F::from(*x as u64))))
        .collect();
    c.gadget::<F>(format!("verify_median {v:?} candidate {m}"), opt, vec![], move |cs, _| {
        let mut w = v.clone();
        let start = cs.aux.len();
        let r = verify_median_timestamp(cs.namespace(|| "v"), &mut w, m)?;
        let mut bl = boolout(&r);
        let mut s = (w.clone(), v.clone());
        s.0.sort();
        s.1.sort();
        bl = bl.err(s.0 != s.1, "the timestamps were changed");
        let mut ok = true;
        let mut ids = vec![];
        for (k, (nm, val)) in pins.iter().enumerate() {
            let j = (start..cs.aux.len()).find(|j| cs.names[*j].ends_with(&format!("v/{nm}"))).unwrap_or(start + k);
            if cs.witness && cs.aux[j] != Some(*val) { ok = false; }
            ids.push((j, *val));
        }
        if ok { for (j, val) in ids { cs.pins.push((j, val)); } } else { cs.unpinned = true; }
        let _ = n;
        Ok(bl)
    }, Expect::Sat, move |o| want(o, t));
}

pub fn fill(c: &mut Ctx, opt: Opt) {
    for k in 0..if c.thorough { 4000 } else { 600 } {
        let mut n = [1usize, 3, 5, 7, 9, 11, 11, 11][c.below(8) as usize];
        if c.below(4) == 0 { n = c.size(n as u64, 1, 3000) | 1; }
        let m = [2u64, 4, 12, 1 << 32][c.below(4) as usize];
        let off = if m < 100 { c.below((1 << 32) - 100) } else { 0 };
        let v: Vec<u32> = (0..n).map(|_| (off + c.below(m)) as u32).collect();
        c.pred(format!("compute_median {k} {v:?}"), move || {
            let mut w = v.clone();
            let r = compute_median_timestamp(&mut w);
            let mut s = v.clone();
            s.sort();
            if r != s[s.len() / 2] { return Err(format!("{r} instead of {}", s[s.len() / 2])); }
            if !is_median(&v, r) { return Err(format!("{r} is not a median")); }
            w.sort();
            if w != s { return Err("timestamps changed".into()); }
            Ok(())
        });
    }
    for k in 0..if c.thorough { 220 } else { 36 } {
        let n = [1usize, 3, 5, 7, 9, 11, 11][c.below(7) as usize];
        let m = [3u64, 12, 40, 1 << 32][c.below(4) as usize];
        let off = if m < 100 { c.below((1 << 32) - 100) } else { 0 };
        let v: Vec<u32> = (0..n).map(|_| (off + c.below(m)) as u32).collect();
        let mut s = v.clone();
        s.sort();
        let r = c.below(n as u64) as usize;
        let cand = match c.below(5) { 0 => s[n / 2], 1 => s[n - 1], 2 => s[0], 3 => s[r], _ => (off + c.below(m)) as u32 };
        let o = if k % 3 == 0 || c.thorough { Opt { nodes: 20000, ..opt } } else { Opt { sound: false, ..opt } };
        one::<Fr>(c, o, v.clone(), cand);
        one::<Fp>(c, Opt { sound: false, ..opt }, v, cand);
    }
    // long lists
    for n in if c.thorough { vec![33u32, 65, 67, 129, 257, 301, 513, 1025] } else { vec![33, 65, 67, 129, 301] }.into_iter().chain(c.hints(3, 1100).into_iter().map(|n| n as u32 | 1)) {
        let v: Vec<u32> = (0..n).map(|k| k * 5 % n * 3 + 7).collect();
        let mut s = v.clone();
        s.sort();
        for j in [0, n / 2, n - 1, n / 2 + 1, n / 4] { one::<Fr>(c, Opt { sound: false, ..opt }, v.clone(), s[j as usize]); }
        one::<Fp>(c, Opt { sound: false, ..opt }, vec![9; n as usize], 9);
        one::<Fp>(c, Opt { sound: false, ..opt }, vec![9; n as usize], 8);
    }
    for d in dict().to_vec() {
        if d >= 1 << 32 { continue; }
        let d = d as u32;
        for v in [vec![d; 3], vec![d, d.wrapping_add(5), 7], vec![d, 1, u32::MAX, d ^ 1, 3]] {
            let mut s = v.clone();
            s.sort();
            for m in [d, d ^ 1, s[v.len() / 2], s[0]] { one::<Fr>(c, Opt { nodes: 20000, ..opt }, v.clone(), m); }
        }
    }
    // every candidate of one sorted window, and the ends
    let v: Vec<u32> = (1..=11).collect();
    for m in 0..=12u32 { one::<Fr>(c, Opt { sound: m % 4 == 3 || c.thorough, nodes: 20000, ..opt }, v.clone(), m); }
    for v in [vec![0u32; 11], vec![u32::MAX; 11]] { for m in [0u32, 1, u32::MAX] { one::<Fr>(c, Opt { sound: false, ..opt }, v.clone(), m); } }
    for v in [vec![5u32, 5, 9], vec![1u32, 9, 9], vec![3u32]] { for m in [5u32, 9, 1, 3] { one::<Fr>(c, Opt { nodes: 20000, ..opt }, v.clone(), m); } }
}
