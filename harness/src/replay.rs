//! Counterexamples against the real code: an adversarial prover that allocates the same wires with chosen
//! values and declares the constraints the real gadget declared on the real verifier.
use crate::common::*;
use bulletproofs::r1cs::*;
use merlin::Transcript;

/// Commit `scalars` and `vecs`, run `gadget` on a real verifier, prove with the given wire values and verify.
pub fn native_accepts<C: AffineRepr>(
    scalars: &[C::ScalarField],
    vecs: &[Vec<C::ScalarField>],
    wires: &[(C::ScalarField, C::ScalarField)],
    gadget: &mut dyn FnMut(
        &mut Verifier<Transcript, C>,
        &[Variable<C::ScalarField>],
        &[Vec<Variable<C::ScalarField>>],
    ),
) -> Result<bool, String> {
    use rand::SeedableRng;
    let mut rng = rand::rngs::StdRng::seed_from_u64(5);
    let pc = PedersenGens::<C>::default();
    let mut n = wires.len();
    for v in vecs {
        n = n.max(v.len());
    }
    let bp = BulletproofGens::<C>::new(n.next_power_of_two().max(1), 1);
    let mut prover = Prover::new(&pc, Transcript::new(b"replay"));
    let mut verifier = Verifier::new(Transcript::new(b"replay"));
    let (mut vs, mut vv) = (vec![], vec![]);
    use ark_ff::UniformRand;
    for s in scalars {
        let (c, _) = prover.commit(*s, C::ScalarField::rand(&mut rng));
        vs.push(verifier.commit(c));
    }
    for v in vecs {
        let (c, _) = prover.commit_vec(v, C::ScalarField::rand(&mut rng), &bp);
        vv.push(verifier.commit_vec(v.len(), c));
    }
    let before = verifier.transcript().log.len();
    gadget(&mut verifier, &vs, &vv);
    let msgs = verifier.transcript().log[before..].to_vec();
    for m in msgs {
        if let merlin::Event::Msg(l, b) = m {
            prover.transcript().append_message(l, &b);
        }
    }
    let cons = verifier.verif_constraints().to_vec();
    for (l, r) in wires {
        prover.allocate_multiplier(Some((*l, *r))).map_err(|e| format!("{:?}", e))?;
    }
    for c in cons {
        prover.constrain(c);
    }
    let proof = quiet(|| prover.prove(&bp)).map_err(|e| format!("prover panics: {}", e))?.map_err(|e| format!("{:?}", e))?;
    let v = quiet(|| verifier.verify(&proof, &pc, &bp)).map_err(|e| format!("verifier panics: {}", e))?;
    Ok(v.is_ok())
}

/// Run the gadget with the given witness on a real prover and verifier.
pub fn native_honest<C: AffineRepr>(
    scalars: &[C::ScalarField],
    vecs: &[Vec<C::ScalarField>],
    p: &mut dyn FnMut(&mut Prover<Transcript, C>, &[Variable<C::ScalarField>], &[Vec<Variable<C::ScalarField>>]),
    v: &mut dyn FnMut(&mut Verifier<Transcript, C>, &[Variable<C::ScalarField>], &[Vec<Variable<C::ScalarField>>]),
) -> Result<bool, String> {
    use ark_ff::UniformRand;
    use rand::SeedableRng;
    let mut rng = rand::rngs::StdRng::seed_from_u64(5);
    let pc = PedersenGens::<C>::default();
    let mut prover = Prover::new(&pc, Transcript::new(b"replay"));
    let mut verifier = Verifier::new(Transcript::new(b"replay"));
    let cap = vecs.iter().map(|v| v.len()).max().unwrap_or(1);
    let bp0 = BulletproofGens::<C>::new(cap.next_power_of_two().max(1), 1);
    let (mut vs, mut vv, mut ps, mut pv) = (vec![], vec![], vec![], vec![]);
    for s in scalars {
        let (c, x) = prover.commit(*s, C::ScalarField::rand(&mut rng));
        ps.push(x);
        vs.push(verifier.commit(c));
    }
    for w in vecs {
        let (c, x) = prover.commit_vec(w, C::ScalarField::rand(&mut rng), &bp0);
        pv.push(x);
        vv.push(verifier.commit_vec(w.len(), c));
    }
    quiet(|| v(&mut verifier, &vs, &vv)).map_err(|e| format!("verifier panics: {}", e))?;
    quiet(|| p(&mut prover, &ps, &pv)).map_err(|e| format!("prover panics: {}", e))?;
    let n = verifier.verif_num_vars().max(prover.verif_gates().0.len()).max(cap);
    let bp = BulletproofGens::<C>::new(n.next_power_of_two().max(1), 1);
    let proof = match quiet(|| prover.prove(&bp)) {
        Err(e) => return Err(format!("prover panics: {}", e)),
        Ok(Err(e)) => return Err(format!("prover fails: {:?}", e)),
        Ok(Ok(p)) => p,
    };
    let v = quiet(|| verifier.verify(&proof, &pc, &bp)).map_err(|e| format!("verifier panics: {}", e))?;
    Ok(v.is_ok())
}
