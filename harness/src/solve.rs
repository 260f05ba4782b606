//! Enumerates every assignment of the auxiliary variables that satisfies an R1CS whose inputs are
//! fixed.  Unit propagation (linear and quadratic in one unknown), Gaussian elimination over the
//! constraints that are linear under the current partial assignment, and case splits on A*B=0.
use crate::fields::Fld;
use crate::rec::{Lin, Rec};
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    /// every satisfying assignment was visited
    Exhausted,
    /// node budget or sampling: some part of the space was not visited
    Partial,
    /// the callback asked to stop
    Stopped,
}

struct Cons<F> {
    a: Lin<F>,
    b: Lin<F>,
    c: Lin<F>,
}

pub struct Solver<'x, F: Fld> {
    cons: Vec<Cons<F>>,
    occ: Vec<Vec<u32>>,
    asg: Vec<Option<F>>,
    trail: Vec<u32>,
    outs: &'x [Lin<F>],
    pub nodes: u64,
    max_nodes: u64,
    partial: bool,
    p_small: Option<u64>,
    cb: &'x mut dyn FnMut(&[F], &[Option<F>]) -> bool,
    stopped: bool,
    isb: Vec<bool>,
    /// products A*B = 0 already split on (one of the factors is an added row)
    done: std::collections::HashSet<u32>,
    p: num_bigint::BigInt,
}

struct Res<F> {
    k: F,
    u: Lin<F>,
}

enum Step {
    Conflict,
    Ok,
}

fn axpy<F: Fld>(a: &Lin<F>, k: F, b: &Lin<F>) -> Lin<F> {
    // a + k*b, both sorted
    let mut out = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            out.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            let c = b[j].1 * k;
            if c != F::ZERO {
                out.push((b[j].0, c));
            }
            j += 1;
        } else {
            let c = a[i].1 + b[j].1 * k;
            if c != F::ZERO {
                out.push((a[i].0, c));
            }
            i += 1;
            j += 1;
        }
    }
    out
}

impl<'x, F: Fld> Solver<'x, F> {
    pub fn new(
        rec: &Rec<F>,
        outs: &'x [Lin<F>],
        max_nodes: u64,
        cb: &'x mut dyn FnMut(&[F], &[Option<F>]) -> bool,
    ) -> Self {
        let nv = 2 * rec.inputs.len().max(rec.aux.len()) + 2;
        let mut asg = vec![None; nv];
        for (i, v) in rec.inputs.iter().enumerate() {
            asg[2 * i] = *v;
        }
        let mut s = Solver {
            cons: vec![],
            occ: vec![vec![]; nv],
            asg,
            trail: vec![],
            outs,
            nodes: 0,
            max_nodes,
            partial: false,
            p_small: None,
            cb,
            stopped: false,
            isb: vec![false; nv],
            done: Default::default(),
            p: crate::fields::modulus::<F>(),
        };
        let p = crate::fields::modulus::<F>();
        if let Ok(q) = u64::try_from(p) {
            if q < 10000 {
                s.p_small = Some(q);
            }
        }
        for (a, b, c) in &rec.cons {
            s.mark_bool(a, b, c);
            s.add(a.clone(), b.clone(), c.clone());
        }
        s
    }
    /// (k1 x)(m0 + m1 x) = 0 with roots 0 and 1
    fn mark_bool(&mut self, a: &Lin<F>, b: &Lin<F>, c: &Lin<F>) {
        if !c.is_empty() {
            return;
        }
        let root = |l: &Lin<F>| -> Option<(u32, F)> {
            match l.len() {
                1 if l[0].0 != 0 => Some((l[0].0, F::ZERO)),
                2 if l[0].0 == 0 => Some((l[1].0, -l[0].1 * l[1].1.invert().unwrap())),
                _ => None,
            }
        };
        if let (Some((v, r)), Some((w, t))) = (root(a), root(b)) {
            if v == w && ((r == F::ZERO && t == F::ONE) || (r == F::ONE && t == F::ZERO)) {
                self.isb[v as usize] = true;
            }
        }
    }
    /// k + sum of c_i x_i = 0 over {0,1} unknowns whose coefficients are, up to a common factor,
    /// distinct powers of two: the possible assignments (None when the form does not apply).
    fn pow2(&self, l: &Res<F>) -> Option<Vec<Vec<bool>>> {
        use num_bigint::BigInt;
        if l.u.len() < 2 || !l.u.iter().all(|t| self.isb[t.0 as usize]) {
            return None;
        }
        let inv = l.u[0].1.invert().unwrap();
        let half = F::from(2u64).invert().unwrap();
        // find a scale under which all coefficients are powers of two: try the first coefficient
        // as the smallest, then as the largest
        for mode in 0..2 {
            let mut sc = inv;
            if mode == 1 {
                for _ in 0..l.u.len() - 1 {
                    sc = sc * half;
                }
                sc = (l.u[l.u.len() - 1].1).invert().unwrap();
            }
            let mut es: Vec<u64> = vec![];
            let mut ok = true;
            for (_, c) in &l.u {
                let n = crate::fields::to_int(&(*c * sc));
                if n.magnitude().count_ones() != 1 {
                    ok = false;
                    break;
                }
                es.push(n.bits() - 1);
            }
            if !ok {
                continue;
            }
            let mut s = es.clone();
            s.sort();
            s.dedup();
            if s.len() != es.len() {
                continue;
            }
            let full: BigInt = es.iter().map(|e| BigInt::from(1) << *e).sum();
            let mut k = crate::fields::to_int(&(-l.k * sc));
            let mut out = vec![];
            while k <= full {
                let mut rest = k.clone();
                let bits: Vec<bool> = es.iter().map(|e| k.bit(*e)).collect();
                for (e, b) in es.iter().zip(&bits) {
                    if *b {
                        rest -= BigInt::from(1) << *e;
                    }
                }
                if rest == BigInt::from(0) {
                    out.push(bits);
                }
                k += &self.p;
                if out.len() > 8 {
                    return None;
                }
            }
            return Some(out);
        }
        None
    }
    fn add(&mut self, a: Lin<F>, b: Lin<F>, c: Lin<F>) -> u32 {
        let id = self.cons.len() as u32;
        for l in [&a, &b, &c] {
            for (v, _) in l.iter() {
                let o = &mut self.occ[*v as usize];
                if o.last() != Some(&id) {
                    o.push(id);
                }
            }
        }
        self.cons.push(Cons { a, b, c });
        id
    }
    fn pop(&mut self) {
        let id = (self.cons.len() - 1) as u32;
        let c = self.cons.pop().unwrap();
        for l in [&c.a, &c.b, &c.c] {
            for (v, _) in l.iter() {
                let o = &mut self.occ[*v as usize];
                if o.last() == Some(&id) {
                    o.pop();
                }
            }
        }
    }
    fn res(&self, l: &Lin<F>) -> Res<F> {
        let mut k = F::ZERO;
        let mut u = vec![];
        for (v, c) in l {
            match self.asg[*v as usize] {
                Some(x) => k += x * c,
                None => u.push((*v, *c)),
            }
        }
        Res { k, u }
    }
    fn set(&mut self, v: u32, x: F) {
        debug_assert!(self.asg[v as usize].is_none());
        self.asg[v as usize] = Some(x);
        self.trail.push(v);
    }
    /// If constraint is linear under the assignment: (constant, unknown terms) with k + u = 0.
    fn linear(&self, ci: u32) -> Option<Res<F>> {
        let c = &self.cons[ci as usize];
        let a = self.res(&c.a);
        let b = self.res(&c.b);
        let cc = self.res(&c.c);
        self.linear_of(&a, &b, &cc)
    }
    fn linear_of(&self, a: &Res<F>, b: &Res<F>, c: &Res<F>) -> Option<Res<F>> {
        let (x, y) = if a.u.is_empty() {
            (a.k, b)
        } else if b.u.is_empty() {
            (b.k, a)
        } else {
            return None;
        };
        // x*y - c = 0
        let scaled: Lin<F> = if x == F::ZERO {
            vec![]
        } else {
            y.u.iter().map(|(v, k)| (*v, *k * x)).collect()
        };
        Some(Res { k: x * y.k - c.k, u: axpy(&scaled, -F::ONE, &c.u) })
    }
    /// Propagates; `queue` holds constraint ids to look at.
    fn propagate(&mut self, queue: &mut Vec<u32>) -> Step {
        while let Some(ci) = queue.pop() {
            let (a, b, c) = {
                let c = &self.cons[ci as usize];
                (self.res(&c.a), self.res(&c.b), self.res(&c.c))
            };
            if let Some(l) = self.linear_of(&a, &b, &c) {
                if l.u.is_empty() {
                    if l.k != F::ZERO {
                        return Step::Conflict;
                    }
                } else if l.u.len() == 1 {
                    let x = -l.k * l.u[0].1.invert().unwrap();
                    let v = l.u[0].0;
                    self.set(v, x);
                    queue.extend_from_slice(&self.occ[v as usize]);
                } else if let Some(cands) = self.pow2(&l) {
                    if cands.is_empty() {
                        return Step::Conflict;
                    }
                    if cands.len() == 1 {
                        for (t, bit) in l.u.iter().zip(&cands[0]) {
                            self.set(t.0, if *bit { F::ONE } else { F::ZERO });
                        }
                        for t in &l.u {
                            queue.extend_from_slice(&self.occ[t.0 as usize]);
                        }
                    }
                }
                continue;
            }
            // quadratic: is it in one unknown?
            let v = a.u[0].0;
            if a.u.len() == 1
                && b.u.len() == 1
                && b.u[0].0 == v
                && (c.u.is_empty() || (c.u.len() == 1 && c.u[0].0 == v))
            {
                let r = self.roots(&a, &b, &c);
                if r.is_empty() {
                    return Step::Conflict;
                }
                if r.len() == 1 {
                    self.set(v, r[0]);
                    queue.extend_from_slice(&self.occ[v as usize]);
                }
            }
        }
        Step::Ok
    }
    fn roots(&self, a: &Res<F>, b: &Res<F>, c: &Res<F>) -> Vec<F> {
        let (a1, b1) = (a.u[0].1, b.u[0].1);
        let c1 = c.u.first().map(|t| t.1).unwrap_or(F::ZERO);
        // (a1 x + a0)(b1 x + b0) - c1 x - c0
        let q2 = a1 * b1;
        let q1 = a1 * b.k + a.k * b1 - c1;
        let q0 = a.k * b.k - c.k;
        if c1 == F::ZERO && c.k == F::ZERO {
            let r1 = -a.k * a1.invert().unwrap();
            let r2 = -b.k * b1.invert().unwrap();
            return if r1 == r2 { vec![r1] } else { vec![r1, r2] };
        }
        let four = F::from(4u64);
        let d = q1 * q1 - four * q2 * q0;
        let s: Option<F> = d.sqrt().into();
        match s {
            None => vec![],
            Some(s) => {
                let i = (q2 + q2).invert().unwrap();
                let r1 = (-q1 + s) * i;
                let r2 = (-q1 - s) * i;
                if r1 == r2 { vec![r1] } else { vec![r1, r2] }
            }
        }
    }
    /// Gaussian elimination over the currently linear constraints.  Returns None on conflict,
    /// else the solved rows (pivot, constant, free terms): pivot = -k - u.
    fn gauss(&mut self, skip_bool: bool, bools: &HashMap<u32, [F; 2]>) -> Option<Vec<(u32, Res<F>)>> {
        let mut rows: Vec<(u32, Res<F>)> = vec![];
        for ci in 0..self.cons.len() as u32 {
            let mut l = match self.linear(ci) {
                Some(l) => l,
                None => continue,
            };
            if l.u.is_empty() {
                if l.k != F::ZERO {
                    return None;
                }
                continue;
            }
            if skip_bool && l.u.iter().all(|t| bools.contains_key(&t.0)) {
                continue;
            }
            // reduce by existing rows
            for (pv, r) in &rows {
                if let Some(t) = l.u.iter().find(|t| t.0 == *pv).copied() {
                    // pivot coefficient in r is 1
                    let f = -t.1;
                    let mut full = r.u.clone();
                    let pos = full.partition_point(|x| x.0 < *pv);
                    full.insert(pos, (*pv, F::ONE));
                    l = Res { k: l.k + f * r.k, u: axpy(&l.u, f, &full) };
                }
            }
            if l.u.is_empty() {
                if l.k != F::ZERO {
                    return None;
                }
                continue;
            }
            // prefer a non-boolean pivot
            let pi = l.u.iter().position(|t| !bools.contains_key(&t.0)).unwrap_or(0);
            let (pv, pc) = l.u[pi];
            let inv = pc.invert().unwrap();
            let mut u: Lin<F> = l.u.iter().map(|(v, c)| (*v, *c * inv)).collect();
            u.remove(pi);
            let row = Res { k: l.k * inv, u };
            // eliminate pv from earlier rows
            let mut full = row.u.clone();
            let pos = full.partition_point(|x| x.0 < pv);
            full.insert(pos, (pv, F::ONE));
            for (_, r) in rows.iter_mut() {
                if let Some(t) = r.u.iter().find(|t| t.0 == pv).copied() {
                    let f = -t.1;
                    r.k = r.k + f * row.k;
                    r.u = axpy(&r.u, f, &full);
                }
            }
            rows.push((pv, row));
        }
        Some(rows)
    }
    fn undo(&mut self, mark: usize) {
        while self.trail.len() > mark {
            let v = self.trail.pop().unwrap();
            self.asg[v as usize] = None;
        }
    }
    pub fn run(&mut self) -> Status {
        let mut q: Vec<u32> = (0..self.cons.len() as u32).rev().collect();
        if let Step::Ok = self.propagate(&mut q) {
            self.node();
        }
        if self.stopped {
            Status::Stopped
        } else if self.partial {
            Status::Partial
        } else {
            Status::Exhausted
        }
    }
    fn try_set(&mut self, v: u32, x: F) {
        let mark = self.trail.len();
        self.set(v, x);
        let mut q = self.occ[v as usize].clone();
        if let Step::Ok = self.propagate(&mut q) {
            self.node();
        }
        self.undo(mark);
    }
    fn node(&mut self) {
        if self.stopped {
            return;
        }
        self.nodes += 1;
        if self.nodes > self.max_nodes {
            self.partial = true;
            return;
        }
        let mark = self.trail.len();
        self.node_inner();
        self.undo(mark);
    }
    fn node_inner(&mut self) {
        loop {
            // classify
            let mut bools: HashMap<u32, [F; 2]> = HashMap::new();
            let mut quad: Vec<u32> = vec![];
            let mut nlin = 0usize;
            let mut lin_nonbool = false;
            let mut lins: Vec<(u32, Lin<F>)> = vec![];
            for ci in 0..self.cons.len() as u32 {
                let c = &self.cons[ci as usize];
                let (a, b, cc) = (self.res(&c.a), self.res(&c.b), self.res(&c.c));
                if let Some(l) = self.linear_of(&a, &b, &cc) {
                    if !l.u.is_empty() {
                        nlin += 1;
                        lins.push((ci, l.u));
                    }
                    continue;
                }
                let v = a.u[0].0;
                if a.u.len() == 1
                    && b.u.len() == 1
                    && b.u[0].0 == v
                    && (cc.u.is_empty() || (cc.u.len() == 1 && cc.u[0].0 == v))
                {
                    let r = self.roots(&a, &b, &cc);
                    bools.insert(v, [r[0], r[1]]);
                } else if !self.done.contains(&ci) {
                    quad.push(ci);
                }
            }
            for (_, l) in &lins {
                if l.iter().any(|t| !bools.contains_key(&t.0)) {
                    lin_nonbool = true;
                }
            }
            // Gaussian elimination, when it may say something propagation did not
            if nlin > 1 && lin_nonbool {
                let rows = match self.gauss(true, &bools) {
                    None => return,
                    Some(r) => r,
                };
                let mut progressed = false;
                let mut q = vec![];
                for (pv, r) in &rows {
                    if r.u.is_empty() && self.asg[*pv as usize].is_none() {
                        self.set(*pv, -r.k);
                        q.extend_from_slice(&self.occ[*pv as usize]);
                        progressed = true;
                    }
                }
                if progressed {
                    match self.propagate(&mut q) {
                        Step::Conflict => return,
                        Step::Ok => continue,
                    }
                }
            }
            // a sum of weighted bits with a few solutions
            for (ci, _) in &lins {
                if let Some(l) = self.linear(*ci) {
                    if let Some(cands) = self.pow2(&l) {
                        for cand in cands {
                            let mark = self.trail.len();
                            let mut q = vec![];
                            for (t, bit) in l.u.iter().zip(&cand) {
                                self.set(t.0, if *bit { F::ONE } else { F::ZERO });
                            }
                            for t in &l.u {
                                q.extend_from_slice(&self.occ[t.0 as usize]);
                            }
                            if let Step::Ok = self.propagate(&mut q) {
                                self.node();
                            }
                            self.undo(mark);
                        }
                        return;
                    }
                }
            }
            // A*B = 0 where both factors are sums of weighted bits: split before touching the bits
            for &ci in &quad {
                let c = &self.cons[ci as usize];
                let (a, b, cc) = (self.res(&c.a), self.res(&c.b), self.res(&c.c));
                if cc.u.is_empty() && cc.k == F::ZERO && self.pow2(&a).is_some() && self.pow2(&b).is_some() {
                    self.split(ci, a, b);
                    return;
                }
            }
            // branch on a two-root variable: one in the smallest linear constraint
            if !bools.is_empty() {
                let mut best: Option<(usize, u32)> = None;
                for (_, l) in &lins {
                    if let Some(t) = l.iter().rev().find(|t| bools.contains_key(&t.0)) {
                        let nb = l.iter().filter(|t| !bools.contains_key(&t.0)).count();
                        let k = l.len() + 1000 * nb;
                        if best.map(|b| k < b.0).unwrap_or(true) {
                            best = Some((k, t.0));
                        }
                    }
                }
                let v = match best {
                    Some((_, v)) => v,
                    None => *bools.keys().min().unwrap(),
                };
                let r = bools[&v];
                self.try_set(v, r[0]);
                self.try_set(v, r[1]);
                return;
            }
            // split A*B = 0
            for &ci in &quad {
                let c = &self.cons[ci as usize];
                let (a, b, cc) = (self.res(&c.a), self.res(&c.b), self.res(&c.c));
                if cc.u.is_empty() && cc.k == F::ZERO {
                    self.split(ci, a, b);
                    return;
                }
            }
            if let Some(&ci) = quad.first() {
                // brute force one unknown
                let c = &self.cons[ci as usize];
                let v = self.res(&c.a).u[0].0;
                self.brute(v);
                return;
            }
            // only linear constraints remain
            if nlin > 0 {
                let rows = match self.gauss(false, &bools) {
                    None => return,
                    Some(r) => r,
                };
                // are outputs determined?
                let mut free: Vec<u32> = vec![];
                for o in self.outs {
                    for (v, _) in o {
                        if self.asg[*v as usize].is_none() {
                            match rows.iter().find(|r| r.0 == *v) {
                                Some((_, r)) => free.extend(r.u.iter().map(|t| t.0)),
                                None => free.push(*v),
                            }
                        }
                    }
                }
                if let Some(v) = free.first().copied() {
                    self.brute(v);
                    return;
                }
                let mut q = vec![];
                for (_, r) in &rows {
                    for (v, _) in &r.u {
                        if self.asg[*v as usize].is_none() {
                            self.set(*v, F::ZERO);
                            q.extend_from_slice(&self.occ[*v as usize]);
                        }
                    }
                }
                for (pv, r) in &rows {
                    if self.asg[*pv as usize].is_none() {
                        let mut x = -r.k;
                        for (v, c) in &r.u {
                            x -= self.asg[*v as usize].unwrap() * c;
                        }
                        self.set(*pv, x);
                        q.extend_from_slice(&self.occ[*pv as usize]);
                    }
                }
                match self.propagate(&mut q) {
                    Step::Conflict => return,
                    Step::Ok => {}
                }
            }
            // every constraint is satisfied; outputs may still be free
            for o in self.outs {
                for (v, _) in o {
                    if self.asg[*v as usize].is_none() {
                        self.brute(*v);
                        return;
                    }
                }
            }
            let vals: Vec<F> = self
                .outs
                .iter()
                .map(|o| {
                    let r = self.res(o);
                    r.k
                })
                .collect();
            // double check the whole system under this assignment (free variables as zero)
            for c in &self.cons {
                let e = |l: &Lin<F>| {
                    l.iter().fold(F::ZERO, |s, (v, k)| s + self.asg[*v as usize].unwrap_or(F::ZERO) * k)
                };
                assert!(e(&c.a) * e(&c.b) == e(&c.c), "solver: bad solution");
            }
            if !(self.cb)(&vals, &self.asg) {
                self.stopped = true;
            }
            return;
        }
    }
    fn split(&mut self, ci: u32, a: Res<F>, b: Res<F>) {
        self.done.insert(ci);
        for r in [a, b] {
            let mut l = r.u;
            if r.k != F::ZERO {
                l.insert(0, (0, r.k));
            }
            let id = self.add(l, vec![(0, F::ONE)], vec![]);
            let mark = self.trail.len();
            let mut q = vec![id];
            if let Step::Ok = self.propagate(&mut q) {
                self.node();
            }
            self.undo(mark);
            self.pop();
        }
        self.done.remove(&ci);
    }
    fn brute(&mut self, v: u32) {
        match self.p_small {
            Some(p) => {
                let mut x = F::ZERO;
                for _ in 0..p {
                    self.try_set(v, x);
                    if self.stopped || self.nodes > self.max_nodes {
                        if self.nodes > self.max_nodes {
                            self.partial = true;
                        }
                        return;
                    }
                    x += F::ONE;
                }
            }
            None => {
                self.partial = true;
                let mut xs = vec![F::ZERO, F::ONE, -F::ONE, F::from(2u64), F::from(3u64)];
                xs.push(F::from(0x1234_5678_9abc_u64).square());
                xs.push(F::from(1u64 << 32));
                for x in xs {
                    self.try_set(v, x);
                    if self.stopped {
                        return;
                    }
                }
            }
        }
    }
}
