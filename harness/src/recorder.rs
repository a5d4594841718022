//! A constraint system of the harness' own that records what was declared (the specification side of P02/P08).
use ark_ff::Field;
use bulletproofs::r1cs::*;
use merlin::Transcript;
use std::marker::PhantomData;

pub struct Recorder<F: Field> {
    pub t: Transcript,
    pub gates: usize,
    pub pending: Option<usize>,
    pub cons: Vec<Vec<(Variable<F>, F)>>,
    pub chal: Option<F>,
    pub n_v: usize,
    pub vecs: Vec<usize>,
}
impl<F: Field> Recorder<F> {
    pub fn new() -> Self {
        Recorder { t: Transcript::new(b"rec"), gates: 0, pending: None, cons: vec![], chal: None, n_v: 0, vecs: vec![] }
    }
    pub fn commit(&mut self) -> Variable<F> {
        self.n_v += 1;
        Variable::Committed(self.n_v - 1)
    }
    pub fn commit_vec(&mut self, d: usize) -> Vec<Variable<F>> {
        self.vecs.push(d);
        let j = self.vecs.len() - 1;
        (0..d).map(|i| Variable::VectorCommit(j, i)).collect()
    }
    pub fn pad(&mut self) {
        let d = self.vecs.iter().copied().max().unwrap_or(0);
        self.gates = self.gates.max(d);
        self.pending = None;
    }
}
impl<F: Field> ConstraintSystem<F> for Recorder<F> {
    fn transcript(&mut self) -> &mut Transcript {
        &mut self.t
    }
    fn multiply(&mut self, left: LinearCombination<F>, right: LinearCombination<F>) -> (Variable<F>, Variable<F>, Variable<F>) {
        let i = self.gates;
        self.gates += 1;
        let (l, r, o) = (Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i));
        for (lc, v) in [(left, l), (right, r)] {
            let mut t = lc.verif_terms().to_vec();
            t.push((v, -F::one()));
            self.cons.push(t);
        }
        (l, r, o)
    }
    fn allocate(&mut self, _a: Option<F>) -> Result<Variable<F>, R1CSError> {
        Ok(match self.pending.take() {
            None => {
                self.pending = Some(self.gates);
                self.gates += 1;
                Variable::MultiplierLeft(self.gates - 1)
            }
            Some(i) => Variable::MultiplierRight(i),
        })
    }
    fn allocate_multiplier(&mut self, _a: Option<(F, F)>) -> Result<(Variable<F>, Variable<F>, Variable<F>), R1CSError> {
        let i = self.gates;
        self.gates += 1;
        Ok((Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i)))
    }
    fn metrics(&self) -> Metrics {
        unimplemented!()
    }
    fn constrain(&mut self, lc: LinearCombination<F>) {
        self.cons.push(lc.verif_terms().to_vec());
    }
}
impl<F: Field> RandomizedConstraintSystem<F> for Recorder<F> {
    fn challenge_scalar(&mut self, _l: &'static [u8]) -> F {
        self.chal.expect("challenge")
    }
}
pub fn one<F: Field>() -> Variable<F> {
    Variable::One(PhantomData)
}
