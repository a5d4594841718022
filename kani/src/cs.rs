//! A constraint system that compares the assigned values with the ones the recorded constraints require.
use crate::w::W;
use bulletproofs::r1cs::*;
use merlin::Transcript;

/// required value of a wire: constant + (bit k of v) * coefficient
pub type Want = (i8, i8, u32);

pub struct Cs {
    pub v: u64,
    pub want: &'static [(Want, Want)],
    pub gates: usize,
    pub pending: bool,
    pub unassigned: bool,
    pub bad: bool,
}
fn want(v: u64, w: Want) -> W {
    let bit = ((v >> w.2) & 1) as i8;
    W((w.0 + bit * w.1) as u8)
}
impl Cs {
    pub fn new(v: u64, want: &'static [(Want, Want)]) -> Self {
        Cs { v, want, gates: 0, pending: false, unassigned: false, bad: false }
    }
    fn left(&mut self, i: usize, a: W) {
        if i >= self.want.len() || a != want(self.v, self.want[i].0) {
            self.bad = true;
        }
    }
    fn right(&mut self, i: usize, a: W) {
        if i >= self.want.len() || a != want(self.v, self.want[i].1) {
            self.bad = true;
        }
    }
}
impl ConstraintSystem<W> for Cs {
    fn transcript(&mut self) -> &mut Transcript {
        unimplemented!()
    }
    fn multiply(&mut self, a: LinearCombination<W>, b: LinearCombination<W>) -> (Variable<W>, Variable<W>, Variable<W>) {
        std::mem::forget((a, b));
        let i = self.gates;
        self.gates += 1;
        (Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i))
    }
    fn allocate(&mut self, a: Option<W>) -> Result<Variable<W>, R1CSError> {
        let Some(a) = a else {
            self.unassigned = true;
            return Err(R1CSError::MissingAssignment);
        };
        if self.pending {
            self.pending = false;
            let i = self.gates - 1;
            self.right(i, a);
            Ok(Variable::MultiplierRight(i))
        } else {
            self.pending = true;
            let i = self.gates;
            self.gates += 1;
            self.left(i, a);
            Ok(Variable::MultiplierLeft(i))
        }
    }
    fn allocate_multiplier(&mut self, a: Option<(W, W)>) -> Result<(Variable<W>, Variable<W>, Variable<W>), R1CSError> {
        let Some((l, r)) = a else {
            self.unassigned = true;
            return Err(R1CSError::MissingAssignment);
        };
        let i = self.gates;
        self.gates += 1;
        self.left(i, l);
        self.right(i, r);
        Ok((Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i)))
    }
    fn metrics(&self) -> Metrics {
        unimplemented!()
    }
    fn constrain(&mut self, lc: LinearCombination<W>) {
        std::mem::forget(lc);
    }
}
