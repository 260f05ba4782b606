//! Cases, how one is run, and the parallel runner.
use crate::fields::{to_int, Fld};
use crate::rec::{flat, Lin, Rec};
use crate::solve::{Solver, Status};
use bellpepper::gadgets::num::AllocatedNum;
use bellpepper_core::{LinearCombination, SynthesisError, Variable};
use num_bigint::BigInt;
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use validate_btc_header::util::num::Num;

thread_local! { pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

#[derive(Default, Clone)]
pub struct CaseResult {
    pub viol: Option<String>,
    pub partial: bool,
    /// assignments / executions looked at
    pub evals: u64,
}

/// Numbers the current source mentions and the base did not: sizes and values worth trying.
pub static DICT: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
pub fn dict() -> &'static [u64] {
    DICT.get().map(|v| &v[..]).unwrap_or(&[])
}

/// Stop at the first violation?
pub static FIRST: AtomicBool = AtomicBool::new(false);
static HIT: AtomicBool = AtomicBool::new(false);

/// One of them, up to a maximum.
pub fn pick(r: u64, max: u64) -> Option<usize> {
    let v: Vec<u64> = dict().iter().filter(|d| **d <= max).cloned().collect();
    if v.is_empty() { None } else { Some(v[r as usize % v.len()] as usize) }
}

type CaseFn = Box<dyn Fn() -> CaseResult + Send + Sync>;

pub struct Ctx {
    pub thorough: bool,
    pub seed: u64,
    pub cases: Vec<(String, CaseFn)>,
    seen: HashSet<String>,
    rng: u64,
    /// only compare setup with proving
    pub shape_only: bool,
}

impl Ctx {
    pub fn new(thorough: bool, seed: u64) -> Self {
        Ctx { thorough, seed, cases: vec![], seen: HashSet::new(), shape_only: false, rng: seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03 }
    }
    pub fn rnd(&mut self) -> u64 {
        // splitmix64
        self.rng = self.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        let r = self.rnd();
        if !dict().is_empty() && r % 4 == 3 {
            let d = dict()[(r >> 8) as usize % dict().len()];
            if d < n {
                return d;
            }
        }
        r % n
    }
    /// The noteworthy numbers in a range, as sizes.
    pub fn hints(&self, lo: u64, hi: u64) -> Vec<usize> {
        dict().iter().filter(|d| **d >= lo && **d <= hi).map(|d| *d as usize).take(12).collect()
    }
    /// Random size lo..lo+span; with noteworthy numbers, one of those (up to max) now and then.
    pub fn size(&mut self, lo: u64, span: u64, max: u64) -> usize {
        let h = self.hints(lo, max);
        if !h.is_empty() && self.rnd() % 4 == 0 {
            return h[(self.rnd() % h.len() as u64) as usize];
        }
        (lo + self.below(span)) as usize
    }
    /// A random integer of exactly or at most `bits` bits, biased to the edges.
    pub fn rbig(&mut self, bits: usize) -> BigInt {
        if bits == 0 {
            return BigInt::from(0);
        }
        if !dict().is_empty() && self.rnd() % 4 == 0 {
            let d = dict()[self.rnd() as usize % dict().len()];
            let v = if d < 2000 && self.rnd() % 2 == 0 { (BigInt::from(1) << d as usize) + (self.rnd() % 3) - 1 } else { BigInt::from(d) };
            if v >= BigInt::from(0) && v < (BigInt::from(1) << bits) {
                return v;
            }
        }
        match self.below(8) {
            0 => BigInt::from(0),
            1 => (BigInt::from(1) << bits) - 1,
            2 => BigInt::from(1) << (self.below(bits as u64) as usize),
            3 => (BigInt::from(1) << (1 + self.below(bits as u64) as usize)) - 1,
            _ => {
                let mut r = BigInt::from(0);
                for _ in 0..(bits / 64 + 1) {
                    r = (r << 64) + BigInt::from(self.rnd());
                }
                r % (BigInt::from(1) << bits)
            }
        }
    }
    pub fn case(&mut self, id: String, f: impl Fn() -> CaseResult + Send + Sync + 'static) {
        if self.seen.insert(id.clone()) {
            self.cases.push((id, Box::new(f)));
        }
    }
    /// A plain predicate over an execution of the real code.
    pub fn pred(&mut self, id: String, f: impl Fn() -> Result<(), String> + Send + Sync + 'static) {
        self.case(id, move || {
            let r = guarded(&f);
            CaseResult {
                viol: match r {
                    Err(p) => Some(format!("panicked: {p}")),
                    Ok(Err(e)) => Some(e),
                    Ok(Ok(())) => None,
                },
                partial: false,
                evals: 1,
            }
        })
    }
}

/// One input variable, fixed by the harness to a value the code under test may see.
#[derive(Clone)]
pub struct In<F: Fld> {
    pub var: Variable,
    pub value: Option<F>,
}
impl<F: Fld> In<F> {
    pub fn lc(&self) -> LinearCombination<F> {
        LinearCombination::zero() + self.var
    }
    pub fn num(&self) -> Num<F> {
        Num::new(self.value, self.lc())
    }
}

/// An `AllocatedNum` tied to an input variable's value (an auxiliary variable with an equality).
pub fn anum<F: Fld>(cs: &mut Rec<F>, i: &In<F>) -> AllocatedNum<F> {
    use bellpepper_core::ConstraintSystem;
    let v = i.value;
    let n = AllocatedNum::alloc(&mut *cs, || v.ok_or(SynthesisError::AssignmentMissing)).unwrap();
    let var = i.var;
    cs.enforce(|| "", |lc| lc + n.get_variable() - var, |lc| lc + Rec::<F>::one(), |lc| lc);
    n
}

pub struct Built<F: Fld> {
    /// the gadget's outputs, as the circuit sees them
    pub outs: Vec<LinearCombination<F>>,
    /// the values the gadget reports for them
    pub vals: Option<Vec<Option<F>>>,
    /// further complaints about what the gadget reported in this (honest) run
    pub errs: Vec<String>,
}
impl<F: Fld> Built<F> {
    pub fn none() -> Self {
        Built { outs: vec![], vals: None, errs: vec![] }
    }
    pub fn outs(outs: Vec<LinearCombination<F>>) -> Self {
        Built { outs, vals: None, errs: vec![] }
    }
    pub fn with(outs: Vec<LinearCombination<F>>, vals: Vec<Option<F>>) -> Self {
        Built { outs, vals: Some(vals), errs: vec![] }
    }
    pub fn err(mut self, bad: bool, m: impl Into<String>) -> Self {
        if bad {
            self.errs.push(m.into());
        }
        self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Expect {
    /// the honest prover must succeed
    Sat,
    /// no assignment at all may satisfy the constraints
    Reject,
    /// only what satisfying assignments mean is checked
    Either,
    /// the gadget must refuse with an error (not a panic)
    Err,
}

#[derive(Clone, Copy)]
pub struct Opt {
    pub honest: bool,
    pub sound: bool,
    pub shape: bool,
    pub nodes: u64,
}
pub const ALL: Opt = Opt { honest: true, sound: true, shape: false, nodes: 200_000 };
pub const HONEST: Opt = Opt { honest: true, sound: false, shape: false, nodes: 0 };
pub const SHAPE: Opt = Opt { honest: false, sound: false, shape: true, nodes: 0 };

pub fn run_gadget<F: Fld>(
    opt: Opt,
    inputs: &[F],
    build: &dyn Fn(&mut Rec<F>, &[In<F>]) -> Result<Built<F>, SynthesisError>,
    expect: Expect,
    check: &dyn Fn(&[BigInt]) -> Result<(), String>,
) -> CaseResult {
    let mut res = CaseResult::default();
    let run = |wit: bool| {
        let mut cs = Rec::<F>::make(wit);
        let ins: Vec<In<F>> = inputs
            .iter()
            .map(|v| In { var: cs.fixed(*v), value: if wit { Some(*v) } else { None } })
            .collect();
        let r = guarded(|| build(&mut cs, &ins));
        (cs, r)
    };
    let (wcs, wr) = run(true);
    res.evals += 1;
    macro_rules! bad { ($($a:tt)*) => {{ res.viol = Some(format!($($a)*)); return res; }} }
    if expect == Expect::Err {
        match &wr {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => bad!("accepted arguments it must refuse"),
            Err(p) => bad!("panicked instead of returning an error: {p}"),
        }
        return res;
    }
    if opt.honest && expect == Expect::Sat {
        match &wr {
            Err(p) => bad!("honest run panicked: {p}"),
            Ok(Err(e)) => bad!("honest run returned an error: {e}"),
            Ok(Ok(b)) => {
                if let Some(i) = wcs.unsat() {
                    bad!("honest assignment violates constraint {i} of {}", wcs.cons.len());
                }
                if let Some(e) = b.errs.first() {
                    bad!("honest run: {e}");
                }
                let vs: Vec<F> = b.outs.iter().map(|o| wcs.eval_lc(o).unwrap()).collect();
                if let Some(cl) = &b.vals {
                    for (i, (c, v)) in cl.iter().zip(&vs).enumerate() {
                        if c != &Some(*v) {
                            bad!("output {i}: reported value {} but the circuit value is {}", c.map(|x| to_int(&x).to_string()).unwrap_or("none".into()), to_int(v));
                        }
                    }
                    if cl.len() != vs.len() {
                        bad!("{} reported values for {} outputs", cl.len(), vs.len());
                    }
                }
                if let Err(e) = check(&vs.iter().map(to_int).collect::<Vec<_>>()) {
                    bad!("honest outputs: {e}");
                }
            }
        }
    }
    if opt.honest && expect == Expect::Reject && matches!(wr, Ok(Ok(_))) && wcs.unsat().is_none() && !wcs.cons.is_empty() {
        bad!("the prover's own assignment satisfies every constraint, although it must not");
    }
    let need_setup = opt.shape || (opt.sound && !matches!(wr, Ok(Ok(_))));
    let setup = if need_setup { Some(run(false)) } else { None };
    if opt.shape {
        res.evals += 1;
        let (scs, sr) = setup.as_ref().unwrap();
        match (&wr, sr) {
            (_, Err(p)) => bad!("panicked in setup (no witness): {p}"),
            (Ok(Ok(_)), Ok(Err(e))) => bad!("setup (no witness) returned an error: {e}"),
            (Err(p), _) => {
                if expect == Expect::Sat {
                    bad!("honest run panicked: {p}")
                }
            }
            _ => {}
        }
        if matches!(wr, Ok(Ok(_))) {
            if scs.aux.len() != wcs.aux.len() || scs.inputs.len() != wcs.inputs.len() {
                bad!("setup allocates {}+{} variables, proving {}+{}", scs.inputs.len(), scs.aux.len(), wcs.inputs.len(), wcs.aux.len());
            }
            if scs.cons.len() != wcs.cons.len() {
                bad!("setup makes {} constraints, proving {}", scs.cons.len(), wcs.cons.len());
            }
            if let Some(i) = (0..scs.cons.len()).find(|i| scs.cons[*i] != wcs.cons[*i]) {
                bad!("constraint {i} differs between setup and proving");
            }
        }
        if wcs.ns != 0 || scs.ns != 0 {
            // a panic unwinds through namespaces; only balanced runs are compared
            if matches!(wr, Ok(Ok(_))) && matches!(sr, Ok(Ok(_))) {
                bad!("namespaces are not balanced");
            }
        }
    }
    if opt.sound {
        // the constraint system of the honest run, or of setup when that run did not finish
        let (cs, built) = match (wr, setup) {
            (Ok(Ok(b)), _) => (wcs, b),
            (_, Some((cs, Ok(Ok(b))))) => (cs, b),
            _ => {
                // refused in both modes: nothing can be proved about these inputs
                return res;
            }
        };
        let mut cs = cs;
        // inputs the gadget itself made are unknowns for the adversary
        let mine = 1 + inputs.len();
        let outs: Vec<Lin<F>> = built.outs.iter().map(flat).collect();
        for i in mine..cs.inputs.len() {
            cs.inputs[i] = None;
        }
        if cs.unpinned {
            res.partial = true;
            return res;
        }
        for (j, v) in cs.pins.clone() {
            cs.cons.push((vec![(2 * j as u32 + 1, F::ONE)], vec![(0, F::ONE)], if v == F::ZERO { vec![] } else { vec![(0, v)] }));
        }
        let mut viol: Option<String> = None;
        let mut sols = 0u64;
        let st;
        let nodes;
        {
            let mut cb = |vs: &[F], _: &[Option<F>]| {
                sols += 1;
                let ints: Vec<BigInt> = vs.iter().map(to_int).collect();
                if expect == Expect::Reject {
                    viol = Some(format!("a satisfying assignment exists with outputs {:?}", ints.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
                    return false;
                }
                if let Err(e) = check(&ints) {
                    viol = Some(format!("a satisfying assignment gives outputs {:?}: {e}", ints.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
                    return false;
                }
                true
            };
            let mut s = Solver::new(&cs, &outs, opt.nodes, &mut cb);
            st = s.run();
            nodes = s.nodes;
        }
        res.evals += nodes;
        res.partial = st == Status::Partial;
        if let Some(v) = viol {
            bad!("{v}");
        }
        if expect == Expect::Sat && sols == 0 && st == Status::Exhausted {
            bad!("no satisfying assignment exists");
        }
    }
    res
}

/// Asks for an assignment under which the outputs are exactly `bad` (which the property excludes).
pub fn run_attack<F: Fld>(
    nodes: u64,
    inputs: &[F],
    build: &dyn Fn(&mut Rec<F>, &[In<F>]) -> Result<Built<F>, SynthesisError>,
    bads: &[Vec<BigInt>],
) -> CaseResult {
    let mut res = CaseResult::default();
    for bad in bads {
        let mut cs = Rec::<F>::make(true);
        let ins: Vec<In<F>> = inputs.iter().map(|v| In { var: cs.fixed(*v), value: Some(*v) }).collect();
        let b = match guarded(|| build(&mut cs, &ins)) { Ok(Ok(b)) => b, _ => continue };
        res.evals += 1;
        if b.outs.len() != bad.len() {
            continue;
        }
        let outs: Vec<Lin<F>> = b.outs.iter().map(flat).collect();
        for i in 1 + inputs.len()..cs.inputs.len() {
            cs.inputs[i] = None;
        }
        for (o, v) in outs.iter().zip(bad) {
            let v: F = crate::fields::from_int(v);
            cs.cons.push((o.clone(), vec![(0, F::ONE)], if v == F::ZERO { vec![] } else { vec![(0, v)] }));
        }
        let mut found = false;
        let st;
        {
            let mut cb = |_: &[F], _: &[Option<F>]| {
                found = true;
                false
            };
            let mut s = Solver::new(&cs, &outs, nodes, &mut cb);
            st = s.run();
            res.evals += s.nodes;
        }
        res.partial |= st == Status::Partial;
        if found {
            res.viol = Some(format!("a satisfying assignment gives the wrong outputs {:?}", bad.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
            return res;
        }
    }
    res
}

impl Ctx {
    pub fn attack<F: Fld>(
        &mut self,
        id: String,
        nodes: u64,
        inputs: Vec<F>,
        build: impl Fn(&mut Rec<F>, &[In<F>]) -> Result<Built<F>, SynthesisError> + Send + Sync + 'static,
        bads: Vec<Vec<BigInt>>,
    ) {
        if self.shape_only {
            return;
        }
        let id = format!("{id} [{}]", F::NAME);
        self.case(id, move || run_attack(nodes, &inputs, &build, &bads));
    }
    pub fn gadget<F: Fld>(
        &mut self,
        id: String,
        opt: Opt,
        inputs: Vec<F>,
        build: impl Fn(&mut Rec<F>, &[In<F>]) -> Result<Built<F>, SynthesisError> + Send + Sync + 'static,
        expect: Expect,
        check: impl Fn(&[BigInt]) -> Result<(), String> + Send + Sync + 'static,
    ) {
        let id = format!("{id} [{}]", F::NAME);
        let opt = if self.shape_only { SHAPE } else { opt };
        self.case(id, move || run_gadget(opt, &inputs, &build, expect, &check));
    }
}

pub struct Report {
    pub evals: u64,
    pub cases: usize,
    pub skipped: usize,
    pub partial: usize,
    pub viol: Vec<(String, String)>,
    pub samples: Vec<String>,
    pub slow: Vec<(f64, String)>,
}

pub fn run_all(ctx: Ctx, budget_s: f64, only: Option<&str>) -> Report {
    let t0 = std::time::Instant::now();
    let cases: Vec<(String, CaseFn)> = ctx.cases.into_iter().filter(|c| only.map(|o| c.0 == o).unwrap_or(true)).collect();
    let n = cases.len();
    // spread: visit in a seeded order, so that a cut by time is not biased to the front
    let mut order: Vec<usize> = (0..n).collect();
    let mut s = ctx.seed | 1;
    for i in (1..n).rev() {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        order.swap(i, ((s >> 33) as usize) % (i + 1));
    }
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, CaseResult, f64)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(sc, || loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= n || (FIRST.load(Ordering::SeqCst) && HIT.load(Ordering::SeqCst)) || t0.elapsed().as_secs_f64() > budget_s {
                    break;
                }
                let i = order[k];
                let t = std::time::Instant::now();
                let r = guarded(|| (cases[i].1)()).unwrap_or_else(|p| CaseResult { viol: Some(format!("panicked: {p}")), partial: false, evals: 1 });
                HIT.fetch_or(r.viol.is_some(), Ordering::SeqCst);
                out.lock().unwrap().push((i, r, t.elapsed().as_secs_f64()));
            }).unwrap();
        }
    });
    let mut out = out.into_inner().unwrap();
    out.sort_by_key(|o| o.0);
    let done = out.len();
    let mut rep = Report { evals: 0, cases: done, skipped: n - done, partial: 0, viol: vec![], samples: vec![], slow: vec![] };
    for (i, r, t) in &out {
        rep.evals += r.evals;
        rep.partial += r.partial as usize;
        if let Some(v) = &r.viol {
            rep.viol.push((cases[*i].0.clone(), v.clone()));
        }
        rep.slow.push((*t, cases[*i].0.clone()));
    }
    rep.slow.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    rep.slow.truncate(5);
    for k in 0..5.min(done) {
        rep.samples.push(cases[out[k * done / 5.min(done)].0].0.clone());
    }
    rep
}
