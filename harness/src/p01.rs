//! P01: completeness.
use crate::common::*;
use crate::explore::*;
use crate::sysrun::*;
use bulletproofs::r1cs::*;
use merlin::Transcript;

pub fn sym_src() -> Src<SQ> {
    memo_src(|n: &str| SQ::fresh(n))
}
pub fn shapes(th: bool) -> Vec<Spec> {
    let s = |m, vecs: &[usize], g1, mul, alloc, c1, stride| Spec { m, vecs: vecs.to_vec(), g1, mul, alloc, c1, stride, ..Default::default() };
    let mut v = vec![
        s(0, &[], 1, 0, 0, 0, 1),
        s(1, &[], 1, 0, 0, 2, 1),
        s(2, &[], 1, 1, 0, 2, 2),
        s(0, &[], 0, 0, 1, 1, 1),
        s(1, &[], 2, 0, 1, 3, 2),
        s(0, &[1], 1, 0, 0, 2, 1),
        s(1, &[2], 1, 0, 0, 2, 1),
        s(1, &[3], 1, 0, 0, 3, 2),
        s(0, &[1, 1], 1, 0, 0, 2, 1),
        s(1, &[2, 1], 2, 0, 0, 3, 2),
        s(1, &[1, 2, 1], 2, 0, 0, 3, 3),
        s(0, &[1, 1, 1, 1], 1, 0, 0, 3, 2),
        s(0, &[], 4, 0, 0, 2, 5),
        s(0, &[], 5, 0, 0, 1, 6),
        s(0, &[], 0, 0, 0, 0, 0),
    ];
    v.push(Spec { vec_first: true, ..s(1, &[2], 2, 0, 0, 2, 2) });
    v.push(Spec { phase2: true, g2: 0, c2: 1, ..s(1, &[], 1, 0, 0, 1, 1) });
    v.push(Spec { phase2: true, g2: 1, c2: 1, ..s(1, &[], 1, 0, 0, 1, 1) });
    v.push(Spec { phase2: true, g2: 1, c2: 2, ..s(1, &[], 2, 0, 0, 1, 3) });
    v.push(Spec { phase2: true, g2: 2, c2: 1, ..s(0, &[], 1, 0, 1, 1, 3) });
    v.push(Spec { phase2: true, g2: 0, c2: 2, ..s(1, &[2], 1, 0, 0, 1, 2) });
    v.push(Spec { phase2: true, g2: 2, c2: 1, ..s(0, &[], 0, 0, 0, 0, 2) });
    v.push(Spec { phase2: true, g2: 0, c2: 1, mul2: 1, alloc2: 1, ..s(0, &[], 0, 0, 1, 1, 2) });
    v.push(Spec { phase2: true, g2: 0, c2: 1, alloc2: 2, ..s(1, &[], 1, 0, 0, 1, 3) });
    v.push(Spec { zg: 1, ..s(1, &[], 0, 0, 0, 1, 1) });
    v.push(Spec { zg: 2, ..s(0, &[1], 1, 0, 0, 1, 1) });
    v.push(Spec { phase2: true, zg: 1, zg2: 2, ..s(1, &[], 0, 0, 0, 1, 1) });
    if th {
        v.push(Spec { phase2: true, g2: 1, c2: 1, mul2: 2, alloc2: 3, ..s(1, &[], 1, 0, 1, 1, 3) });
        v.push(s(2, &[4], 4, 0, 0, 3, 4));
        v.push(s(1, &[1, 1, 1, 1, 1], 1, 0, 0, 3, 3));
        v.push(s(0, &[2, 1, 1, 2, 1, 1], 2, 0, 0, 2, 4));
        v.push(s(1, &[], 7, 0, 0, 2, 7));
        v.push(s(0, &[], 8, 0, 0, 1, 9));
        v.push(Spec { phase2: true, g2: 3, c2: 2, ..s(1, &[], 2, 0, 0, 1, 4) });
        v.push(Spec { phase2: true, g2: 1, c2: 1, ..s(0, &[], 4, 0, 0, 1, 5) });
        v.push(Spec { phase2: true, g2: 4, c2: 1, ..s(0, &[], 1, 0, 0, 1, 5) });
    }
    v
}

/// Native replay of a shape: fresh concrete values, plain Pallas.
pub fn native_roundtrip(sp: &Spec, seed: u64, pins: &std::collections::HashMap<String, L4>) -> Result<(), String> {
    let (pc, bp) = native_gens(sp.padded());
    use ark_std::rand::SeedableRng;
    let mut rng = ark_std::rand::rngs::StdRng::seed_from_u64(seed);
    let pins = pins.clone();
    let src = memo_src(move |n: &str| match pins.get(n) {
        Some(l) => Fq::from_l4(l),
        None => <Fq as ark_ff::UniformRand>::rand(&mut rng),
    });
    let pr = quiet(|| prove::<NP>(sp, &src, pc, bp)).map_err(|e| format!("prover panicked: {}", e))?.map_err(|e| format!("prover: {:?}", e))?;
    let mut tr = Transcript::new(b"sys");
    let vf = verifier::<NP>(sp, &src, &pr.ks, &pr.v, &pr.vc, &mut tr);
    quiet(|| vf.verify(&pr.proof, pc, bp)).map_err(|e| format!("verifier panicked: {}", e))?.map_err(|e| format!("verifier: {:?}", e))
}

pub fn run(r: &mut Report) {
    r.explanation = "Symbolic execution of the real prover and verifier (generic code instantiated with a symbolic field and curve): all assignments, blindings, coefficients and challenges are symbols. The verifier's final multi-scalar multiplication must be the identity: for every generator, the solver shows that the contributions of the proof points cancel the verifier's own scalar for all values.".into();
    r.fns(&["Prover::{commit,commit_vec,multiply,allocate,allocate_multiplier,constrain,eval,specify_randomized_constraints,flattened_constraints,prove}", "Verifier::{commit,commit_vec,...,verification_scalars_and_points,verify}", "InnerProductProof::{create,verification_scalars}", "util::{VecPoly,Poly,exp_iter}", "op_splits"]);
    r.assume("challenges are symbols: what they are hashed from is P03's subject");
    r.assume("generators are independent basis points (P07 shows they are distinct)");
    let g = gens(16);
    for sp in shapes(r.thorough()) {
        r.cases += 1;
        explore(r, &sp.show(), 12, |r, pins| one(r, &sp, &g, pins));
    }
    r.bounds.push(format!("{} circuit shapes: up to 8 gates, 6 vector commitments of dimension up to 4, 2 scalar commitments, 3+2 constraints, both phases; every value in them symbolic", r.cases));
    r.outside.push("larger circuits".into());
}

fn one(r: &mut Report, sp: &Spec, g: &Gens, pins: &std::collections::HashMap<String, L4>) -> bool {
        let t0 = r.elapsed();
        let src = sym_src();
        let pr = match quiet(|| prove::<PA>(sp, &src, &g.pc, &g.bp)) {
            Ok(Ok(p)) => p,
            e => {
                let w = match e {
                    Ok(Err(e)) => format!("{:?}", e),
                    Err(e) => format!("panic {}", e),
                    _ => unreachable!(),
                };
                report_native(r, sp, pins, &format!("honest prover failed: {}", w));
                return false;
            }
        };
        let mut tr = Transcript::new(b"sys");
        let vf = verifier::<PA>(sp, &src, &pr.ks, &pr.v, &pr.vc, &mut tr);
        SymPallas::msm_log().lock().unwrap().clear();
        SymPallas::vanish_log().lock().unwrap().clear();
        let res = quiet(|| vf.verify(&pr.proof, &g.pc, &g.bp));
        let log = std::mem::take(&mut *SymPallas::msm_log().lock().unwrap());
        match res {
            Ok(Ok(())) => {}
            e => {
                report_native(r, sp, pins, &format!("honest proof rejected: {:?}", e));
                return false;
            }
        }
        let vanished = std::mem::take(&mut *SymPallas::vanish_log().lock().unwrap());
        if vanished.is_empty() {
            r.inconclusive(format!("no verification equation observed for {}", sp.show()));
            return false;
        }
        // per generator: what proof points contribute, and the verifier's own scalar
        let mut nm = Norm::<Fq>::new();
        let mut contrib: std::collections::BTreeMap<u32, (Poly<Fq>, Poly<Fq>)> = Default::default();
        let zero = || (Poly::zero(), Poly::zero());
        if let Some(rec) = log.last().filter(|l| l.is_zero && vanished.len() == 1) {
            for (b, s) in rec.bases.iter().zip(&rec.scalars) {
                let own = b.len() == 1 && b[0].1.id == 0 && b[0].1.v.is_one();
                let ps = nm.sym(s);
                for (a, c) in b {
                    let e = contrib.entry(*a).or_insert_with(zero);
                    let p = nm.sym(c).mul(&ps);
                    if own {
                        e.1.add_scaled(&p, -Fq::one());
                    } else {
                        e.0.add_scaled(&p, Fq::one());
                    }
                }
            }
        } else {
            // the equation is assembled differently: every combination that vanished must do so identically
            for (k, t) in vanished.iter().enumerate() {
                for (a, c) in t {
                    contrib.insert(a + 1_000_000 * k as u32, ((*nm.sym(c)).clone(), Poly::zero()));
                }
            }
        }
        let pairs: Vec<_> = contrib.values().cloned().collect();
        let mut z = Z3::new(60_000);
        let (v, bad) = identical(&mut z, &pairs);
        r.oblige(pairs.len(), v);
        // vacuity: the equation is not trivially zero
        let nz: Vec<_> = pairs.iter().filter(|p| !p.0.is_zero()).collect();
        if nz.is_empty() && log.last().map(|l| l.is_zero).unwrap_or(false) {
            r.inconclusive("vacuous equation".into());
        }
        if let Some(p) = nz.first() {
            z.push();
            let mut e = MonoEnc::default();
            let a = e.lin(&p.0);
            for d in &e.decls {
                z.raw(d);
            }
            z.raw(&format!("(assert (not (= {} 0)))", a));
            if z.check() == Verdict::Sat {
                r.vacuity_witnesses += 1;
            } else {
                r.inconclusive("vacuous equation".into());
            }
            z.pop();
        }
        r.absorb(&z);
        r.sample(format!("{}: {} generators, {} monomials, {:.2}s", sp.show(), pairs.len(), pairs.iter().map(|p| p.0.len()).sum::<usize>(), r.elapsed() - t0));
        if v != Verdict::Unsat {
            let names: Vec<String> = bad.iter().map(|i| atom_name::<SymPallas>(*contrib.keys().nth(*i).unwrap() % 1_000_000)).collect();
            if bad.is_empty() {
                r.inconclusive(format!("{}: solver gave {:?}", sp.show(), v));
            } else {
                report_native(r, sp, pins, &format!("verification equation of an honest proof does not cancel at {:?}", names));
            }
        }
        v == Verdict::Unsat
}
fn report_native(r: &mut Report, sp: &Spec, pins: &std::collections::HashMap<String, L4>, what: &str) {
    r.oblige(1, Verdict::Sat);
    r.replays += 1;
    for seed in 0..5 {
        if let Err(e) = native_roundtrip(sp, seed, pins) {
            r.violation(&sp.show(), &format!("{}\nnative replay on Pallas (seed {}, pinned {:?}): {}", what, seed, pins, e));
            return;
        }
    }
    r.inconclusive(format!("{}: {} (native replay accepts)", sp.show(), what));
}
