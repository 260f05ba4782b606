//! A constraint system that records everything: the R1CS, the honest assignment and the way it
//! was driven (witness generation or setup).
use bellpepper_core::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::PrimeField;

pub type Term<F> = (u32, F);
pub type Lin<F> = Vec<Term<F>>;

pub fn vid(v: Variable) -> u32 {
    match v.get_unchecked() {
        Index::Input(i) => 2 * i as u32,
        Index::Aux(i) => 2 * i as u32 + 1,
    }
}

pub fn flat<F: PrimeField>(lc: &LinearCombination<F>) -> Lin<F> {
    let mut v: Lin<F> = lc.iter().map(|(v, c)| (vid(v), *c)).collect();
    v.sort_by_key(|t| t.0);
    let mut out: Lin<F> = Vec::with_capacity(v.len());
    for (i, c) in v {
        match out.last_mut() {
            Some(l) if l.0 == i => l.1 += c,
            _ => out.push((i, c)),
        }
    }
    out.retain(|t| t.1 != F::ZERO);
    out
}

#[derive(Clone)]
pub struct Rec<F: PrimeField> {
    pub witness: bool,
    pub inputs: Vec<Option<F>>,
    pub aux: Vec<Option<F>>,
    pub cons: Vec<(Lin<F>, Lin<F>, Lin<F>)>,
    pub ns: usize,
    /// annotation path of each auxiliary variable
    pub names: Vec<String>,
    pub path: Vec<String>,
    /// auxiliary variables that count as inputs of the gadget under test
    pub pins: Vec<(usize, F)>,
    /// a gadget's own inputs could not be identified: no search
    pub unpinned: bool,
}

impl<F: PrimeField> Rec<F> {
    pub fn make(witness: bool) -> Self {
        Rec { witness, inputs: vec![Some(F::ONE)], aux: vec![], cons: vec![], ns: 0, names: vec![], path: vec![], pins: vec![], unpinned: false }
    }
    /// An input variable fixed by the harness.
    pub fn fixed(&mut self, v: F) -> Variable {
        self.inputs.push(Some(v));
        Variable::new_unchecked(Index::Input(self.inputs.len() - 1))
    }
    pub fn val(&self, v: u32) -> Option<F> {
        if v % 2 == 0 { self.inputs[(v / 2) as usize] } else { self.aux[(v / 2) as usize] }
    }
    pub fn eval(&self, l: &Lin<F>) -> Option<F> {
        let mut s = F::ZERO;
        for (v, c) in l {
            s += self.val(*v)? * c;
        }
        Some(s)
    }
    pub fn eval_lc(&self, l: &LinearCombination<F>) -> Option<F> {
        self.eval(&flat(l))
    }
    /// Index of the first unsatisfied constraint, if any.
    pub fn unsat(&self) -> Option<usize> {
        for (i, (a, b, c)) in self.cons.iter().enumerate() {
            match (self.eval(a), self.eval(b), self.eval(c)) {
                (Some(a), Some(b), Some(c)) if a * b == c => {}
                _ => return Some(i),
            }
        }
        None
    }
}

impl<F: PrimeField> ConstraintSystem<F> for Rec<F> {
    type Root = Self;
    fn alloc<FN, A, AR>(&mut self, a: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.witness { Some(f()?) } else { None };
        self.aux.push(v);
        let nm: String = a().into();
        self.names.push(format!("{}/{nm}", self.path.join("/")));
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<FN, A, AR>(&mut self, _: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.witness { Some(f()?) } else { None };
        self.inputs.push(v);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        let z = LinearCombination::zero;
        self.cons.push((flat(&a(z())), flat(&b(z())), flat(&c(z()))));
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.path.push(n().into());
        self.ns += 1;
    }
    fn pop_namespace(&mut self) {
        self.path.pop();
        self.ns -= 1;
    }
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
}
