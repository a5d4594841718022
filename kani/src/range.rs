//! P09, honest side: for every v < 2^n `range_proof` assigns the values the constraints require.
use crate::cs::*;
use crate::w::W;
use bulletproofs::r1cs::*;

fn honest(n: usize, want: &'static [(Want, Want)]) {
    let v: u64 = kani::any();
    if n < 64 {
        kani::assume(v >> n == 0);
    }
    let mut cs = Cs::new(v, want);
    let lc: LinearCombination<W> = Variable::<W>::Committed(0).into();
    let r = relations::range_proof::range_proof(&mut cs, lc, Some(v), n);
    assert!(r.is_ok() && !cs.unassigned, "wires without assignment");
    assert!(!cs.bad && cs.gates == want.len(), "an honest value gets an assignment that violates the constraints");
    kani::cover!(true, "reached");
}
// the required values, written by `vh` from the constraints it recorded: proofs `range_honest_<n>`
include!(env!("KP_EXPECT"));
