//! P05: batch verification.
use crate::common::*;
use crate::p02::{adversary, shape_of_honest, Adv};
use crate::sysrun::*;
use bulletproofs::r1cs::*;
use merlin::Transcript;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn specs() -> Vec<Spec> {
    let s = |m, vecs: &[usize], g1, c1, stride| Spec { m, vecs: vecs.to_vec(), g1, c1, stride, ..Default::default() };
    vec![
        s(1, &[], 1, 1, 1),
        s(1, &[], 2, 1, 2),
        s(0, &[3], 1, 2, 2),
        s(0, &[1, 1], 1, 1, 1),
        Spec { phase2: true, g2: 1, c2: 1, ..s(1, &[], 1, 1, 1) },
        s(2, &[], 7, 2, 5),
        s(0, &[], 0, 0, 0),
    ]
}
fn batches(th: bool) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![
        vec![],
        vec![0],
        vec![2],
        vec![0, 0],
        vec![0, 1],
        vec![1, 0],
        vec![2, 0],
        vec![0, 2],
        vec![3, 5, 0],
        vec![0, 4, 2],
        vec![5, 1, 0],
        vec![6, 5, 6],
        vec![0, 0, 0, 0],
    ];
    if th {
        for a in 0..7 {
            for b in 0..7 {
                v.push(vec![a, b]);
            }
        }
        for a in [0usize, 2, 5] {
            for b in [1usize, 3, 4] {
                for c in [0usize, 5, 6] {
                    v.push(vec![a, b, c]);
                }
            }
        }
        v.push(vec![0, 1, 2, 3, 4, 5, 6]);
        v.push(vec![6, 5, 4, 3, 2, 1, 0]);
        v.push(vec![5, 0, 5, 0, 5, 0, 5, 0]);
        v.push(vec![0; 10]);
    }
    v
}

struct Member {
    adv: Adv,
    tup: VerificationTuple<PA>,
    eq: Terms<Fq>,
    /// the equation of the single verifier, with its private coin renamed
    n: usize,
}
fn dup(t: &VerificationTuple<PA>) -> VerificationTuple<PA> {
    VerificationTuple {
        proof_dependent_points: t.proof_dependent_points.clone(),
        proof_dependent_scalars: t.proof_dependent_scalars.clone(),
        proof_independent_scalars: t.proof_independent_scalars.clone(),
    }
}
fn rnd_vars(ps: &[Poly<Fq>]) -> BTreeSet<u32> {
    let a = Fq::arena().lock().unwrap();
    ps.iter().flat_map(|p| p.vars()).filter(|v| node_name::<Fq>(&a, *v).starts_with("rnd")).collect()
}
fn polys(t: &Terms<Fq>) -> BTreeMap<u32, Poly<Fq>> {
    let mut nm = Norm::<Fq>::new();
    t.iter().map(|(a, s)| (*a, (*nm.sym(s)).clone())).collect()
}

fn member(r: &mut Report, sp: &Spec, g: &Gens) -> Option<Member> {
    let (tlen, tid, id6, lg) = match shape_of_honest(sp) {
        Ok(x) => x,
        Err(e) => {
            r.inconclusive(format!("{}: honest prover failed: {}", sp.show(), e));
            return None;
        }
    };
    let adv = adversary(sp, &id6, tlen, &tid, lg);
    let proof = R1CSProof::verif_from_parts(adv.parts.clone());
    let mut tr = Transcript::new(b"sys");
    let vf = verifier::<PA>(sp, &adv.src, &adv.ks, &adv.v, &adv.c, &mut tr);
    let tup = match quiet(|| vf.verification_scalars_and_points(&proof)) {
        Ok(Ok(t)) => t,
        _ => {
            r.inconclusive(format!("{}: no verification tuple", sp.show()));
            return None;
        }
    };
    let mut tr = Transcript::new(b"sys");
    let vf = verifier::<PA>(sp, &adv.src, &adv.ks, &adv.v, &adv.c, &mut tr);
    SymPallas::zero_log().lock().unwrap().clear();
    let _ = quiet(|| vf.verify(&proof, &g.pc, &g.bp));
    let single = SymPallas::zero_log().lock().unwrap().last().map(|x| x.0.clone()).unwrap_or_default();
    // the tuple read as an equation: points.scalars + (B, B~, G(n), H(n)).independent
    let n = (tup.proof_independent_scalars.len() - 2) / 2;
    let fixed: Vec<u32> = [g.b, g.bb].into_iter().chain(g.g[..n].iter().copied()).chain(g.h[..n].iter().copied()).collect();
    let mut eq: Terms<Fq> = vec![];
    for (p, s) in tup.proof_dependent_points.iter().zip(&tup.proof_dependent_scalars) {
        eq = terms_add(&eq, &terms_mul(&terms_of(p), s));
    }
    for (a, s) in fixed.iter().zip(&tup.proof_independent_scalars) {
        eq = terms_add(&eq, &vec![(*a, *s)]);
    }
    // same equation as the single verifier's, up to its private coin
    let (pe, ps) = (polys(&eq), polys(&single));
    let re: Vec<u32> = rnd_vars(&pe.values().cloned().collect::<Vec<_>>()).into_iter().collect();
    let rs: Vec<u32> = rnd_vars(&ps.values().cloned().collect::<Vec<_>>()).into_iter().collect();
    let ren: HashMap<u32, u32> = rs.iter().copied().zip(re.iter().copied()).collect();
    let keys: BTreeSet<u32> = pe.keys().chain(ps.keys()).copied().collect();
    let z0 = Poly::zero();
    let pairs: Vec<_> = keys.iter().map(|k| (pe.get(k).unwrap_or(&z0).clone(), ps.get(k).unwrap_or(&z0).subst(&|v| ren.get(&v).map(|w| Poly::var(*w))))).collect();
    let mut z = Z3::new(60_000);
    let (v, bad) = identical(&mut z, &pairs);
    r.oblige(pairs.len(), v);
    r.absorb(&z);
    if v != Verdict::Unsat || re.len() != rs.len() {
        r.inconclusive(format!("{}: the batch tuple is not the single equation ({} atoms differ)", sp.show(), bad.len()));
        return None;
    }
    Some(Member { adv, tup, eq, n })
}

pub fn run(r: &mut Report) {
    r.explanation = "Tuples are built by the real verifier from proofs whose elements are all symbols; batch_verify is executed on them symbolically. Its final equation is a polynomial in the verifier's coins: the solver shows that it equals sum_i c_i * E_i, where E_i is the equation member i would be checked with alone, and that the c_i are linearly independent polynomials in fresh coins (so one violated E_i makes the sum nonzero for all but a 1/|F| fraction of the coins). Counterexamples are replayed as concrete tuples on the unlifted batch verifier.".into();
    r.fns(&["batch_verify", "Verifier::{verification_scalars_and_points,verify}"]);
    r.assume("the verifier's coins are uniform and unknown to the prover (thread_rng)");
    let g = gens(16);
    let sps = specs();
    for b in batches(r.thorough()) {
        r.cases += 1;
        one(r, &b, &sps, &g);
    }
    generators(r, &sps);
    r.bounds.push(format!("{} batches of up to 10 members over 7 systems with padded sizes 1, 2, 4 and 8, in mixed orders; generator capacity below, at and above the need", r.cases));
}

fn key(b: &[usize]) -> String {
    format!("batch {:?}", b)
}

fn one(r: &mut Report, b: &[usize], sps: &[Spec], g: &Gens) {
    let mut ms = vec![];
    for i in b {
        match member(r, &sps[*i], g) {
            Some(m) => ms.push(m),
            None => return,
        }
    }
    SymPallas::zero_log().lock().unwrap().clear();
    let res = quiet(|| batch_verify(ms.iter().map(|m| dup(&m.tup)).collect(), &g.pc, &g.bp));
    let eq = SymPallas::zero_log().lock().unwrap().last().map(|x| x.0.clone());
    if b.is_empty() {
        let ok = matches!(res, Ok(Ok(())));
        r.oblige(1, if ok { Verdict::Unsat } else { Verdict::Sat });
        if !ok {
            native(r, b, sps, g, &[], "an empty batch is not accepted");
        }
        return;
    }
    match &res {
        Err(e) => return native(r, b, sps, g, &[], &format!("batch verification panics: {}", e)),
        Ok(Ok(())) => return native(r, b, sps, g, &vec![Poly::zero(); b.len()], "a batch of arbitrary proofs is accepted"),
        Ok(Err(R1CSError::VerificationError)) => {}
        Ok(Err(e)) => return native(r, b, sps, g, &[], &format!("batch verification fails with {:?}", e)),
    }
    let Some(eq) = eq else {
        return native(r, b, sps, g, &[], "no equation tested");
    };
    let t = polys(&eq);
    let es: Vec<BTreeMap<u32, Poly<Fq>>> = ms.iter().map(|m| polys(&m.eq)).collect();
    let own: BTreeSet<u32> = rnd_vars(&es.iter().flat_map(|e| e.values().cloned()).collect::<Vec<_>>());
    let coins: Vec<u32> = rnd_vars(&t.values().cloned().collect::<Vec<_>>()).difference(&own).copied().collect();
    // c_i from the member's own S1 point: its coefficient in E_i is a monomial
    let mut cs = vec![];
    let z0 = Poly::zero();
    for (i, m) in ms.iter().enumerate() {
        let at = atom_of::<SymPallas>(&shadow_pt(&m.adv.parts.points[2]), None).0;
        let Some(inv) = es[i].get(&at).and_then(|p| p.inv_mono()) else {
            return r.inconclusive(format!("{}: S1 coefficient of member {} is not a monomial", key(b), i));
        };
        cs.push(t.get(&at).unwrap_or(&z0).mul(&inv));
    }
    for (i, c) in cs.iter().enumerate() {
        if c.vars().iter().any(|v| !coins.contains(v)) {
            return native(r, b, sps, g, &cs, &format!("the weight of member {} depends on the proofs: {}", i, c.show()));
        }
    }
    let keys: BTreeSet<u32> = t.keys().chain(es.iter().flat_map(|e| e.keys())).copied().collect();
    let pairs: Vec<_> = keys
        .iter()
        .map(|k| {
            let mut s = Poly::zero();
            for (c, e) in cs.iter().zip(&es) {
                if let Some(p) = e.get(k) {
                    s.add_scaled(&c.mul(p), Fq::one());
                }
            }
            (t.get(k).unwrap_or(&z0).clone(), s)
        })
        .collect();
    let mut z = Z3::new(60_000);
    let (v, bad) = identical(&mut z, &pairs);
    r.oblige(pairs.len(), v);
    // linear independence: the only lambda with sum lambda_i c_i == 0 (as a polynomial) is zero
    let mut rows: BTreeMap<Mono, Vec<(usize, Fq)>> = BTreeMap::new();
    for (i, c) in cs.iter().enumerate() {
        for (m, k) in &c.t {
            rows.entry(m.clone()).or_default().push((i, *k));
        }
    }
    z.push();
    for i in 0..cs.len() {
        z.raw(&format!("(declare-const l{} Real)", i));
    }
    for row in rows.values() {
        z.raw(&format!("(assert (= 0 (+ 0 {})))", row.iter().map(|(i, k)| format!("(* {} l{})", lit(k), i)).collect::<Vec<_>>().join(" ")));
    }
    z.push();
    z.raw(&format!("(assert (or {}))", (0..cs.len()).map(|i| format!("(not (= l{} 0))", i)).collect::<Vec<_>>().join(" ")));
    let v2 = z.check();
    z.pop();
    z.pop();
    r.oblige(1, v2);
    r.vacuity_witnesses += 1;
    r.absorb(&z);
    if coins.len() > 0 {
        // the coins are not known before the batch is: a second verification draws others
        let first: Vec<Fq> = coins.iter().map(|v| SQ::from_node(*v).v).collect();
        let c0 = rnd_count();
        let _ = quiet(|| batch_verify(ms.iter().map(|m| dup(&m.tup)).collect(), &g.pc, &g.bp));
        let again = rnd_from(c0);
        let same = first.iter().any(|x| again.contains(x));
        r.oblige(1, if same { Verdict::Sat } else { Verdict::Unsat });
        if same {
            return predictable(r, b, sps, &cs);
        }
    }
    r.sample(format!("{}: coins {}, weights [{}], {} generators and points", key(b), coins.len(), cs.iter().map(|c| c.show()).collect::<Vec<_>>().join(", "), pairs.len()));
    if v != Verdict::Unsat {
        let names: Vec<String> = bad.iter().take(6).map(|i| atom_name::<SymPallas>(*keys.iter().nth(*i).unwrap())).collect();
        native(r, b, sps, g, &cs, &format!("the batch equation is not the weighted sum of the members' equations at {:?}", names));
    } else if v2 != Verdict::Unsat {
        native(r, b, sps, g, &cs, "the members' weights are linearly dependent");
    }
}

/// Concrete replays on the unlifted code.
fn native(r: &mut Report, b: &[usize], sps: &[Spec], _g: &Gens, cs: &[Poly<Fq>], what: &str) {
    r.oblige(1, Verdict::Sat);
    r.replays += 1;
    let (pc, bp) = native_gens(16);
    // 1. valid members only: must be accepted
    let mut tups = || -> Option<Vec<VerificationTuple<NP>>> {
        b.iter()
            .enumerate()
            .map(|(k, i)| {
                let sp = &sps[*i];
                let mut c = 17 * k as u64 + 5;
                let src = memo_src(move |_| {
                    c = c.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    Fq::from(c)
                });
                let pr = quiet(|| prove::<NP>(sp, &src, pc, bp)).ok()?.ok()?;
                let mut tr = Transcript::new(b"sys");
                let vf = verifier::<NP>(sp, &src, &pr.ks, &pr.v, &pr.vc, &mut tr);
                quiet(|| vf.verification_scalars_and_points(&pr.proof)).ok()?.ok()
            })
            .collect()
    };
    if let Some(t) = tups() {
        match quiet(|| batch_verify(t, pc, bp)) {
            Ok(Ok(())) => {}
            x => return r.violation(&key(b), &format!("{}\nnative replay: a batch of individually valid proofs gives {:?}", what, x)),
        }
    }
    // 2. one member spoilt in one coordinate: must be refused
    for k in 0..b.len() {
        let Some(t) = tups() else { break };
        let (np, ni) = (t[k].proof_dependent_scalars.len(), t[k].proof_independent_scalars.len());
        for j in 0..np + ni {
            let Some(mut t) = tups() else { break };
            if j < np {
                if t[k].proof_dependent_points[j].is_zero() {
                    continue;
                }
                t[k].proof_dependent_scalars[j] += Fq::one();
            } else {
                t[k].proof_independent_scalars[j - np] += Fq::one();
            }
            match quiet(|| batch_verify(t, pc, bp)) {
                Ok(Err(_)) => {}
                x => return r.violation(&key(b), &format!("{}\nnative replay: member {} made invalid (scalar {} shifted by one), batch gives {:?}", what, k, j, x)),
            }
        }
    }
    // 3. dependent weights: errors that cancel
    if cs.len() == b.len() && cs.iter().all(|c| c.as_const().is_some() || !c.is_zero()) {
        for i in 0..b.len() {
            for j in i + 1..b.len() {
                // errors e_i, e_j with e_i c_i + e_j c_j = 0 (proportional weights)
                let (Some((m, ki)), Some((m2, kj))) = (cs[i].as_mono(), cs[j].as_mono()) else { continue };
                if m != m2 {
                    continue;
                }
                let Some(mut t) = tups() else { continue };
                t[i].proof_independent_scalars[1] += *kj;
                t[j].proof_independent_scalars[1] -= *ki;
                let res = quiet(|| batch_verify(t, pc, bp));
                if matches!(res, Ok(Ok(()))) {
                    return r.violation(&key(b), &format!("{}\nnative replay: members {} and {} both made invalid by opposite errors on B_blinding, batch accepts", what, i, j));
                }
            }
        }
    }
    r.inconclusive(format!("{}: {} (not reproduced natively)", key(b), what));
}

/// The coins repeat: two members are made invalid by errors that cancel under the predicted coins.
fn predictable(r: &mut Report, b: &[usize], sps: &[Spec], cs: &[Poly<Fq>]) {
    r.replays += 1;
    let what = format!("{}: two verifications of a batch draw the same coins", key(b));
    let (pc, bp) = native_gens(16);
    let c: Vec<Fq> = cs.iter().map(|p| p.eval(&|v| SQ::from_node(v).v)).collect();
    for i in 0..b.len() {
        for j in i + 1..b.len() {
            let tups: Option<Vec<VerificationTuple<NP>>> = b
                .iter()
                .enumerate()
                .map(|(k, s)| {
                    let sp = &sps[*s];
                    let mut x = 17 * k as u64 + 5;
                    let src = memo_src(move |_| {
                        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        Fq::from(x)
                    });
                    let pr = quiet(|| prove::<NP>(sp, &src, pc, bp)).ok()?.ok()?;
                    let mut tr = Transcript::new(b"sys");
                    let vf = verifier::<NP>(sp, &src, &pr.ks, &pr.v, &pr.vc, &mut tr);
                    quiet(|| vf.verification_scalars_and_points(&pr.proof)).ok()?.ok()
                })
                .collect();
            let Some(mut t) = tups else { continue };
            t[i].proof_independent_scalars[1] += c[j];
            t[j].proof_independent_scalars[1] -= c[i];
            if matches!(quiet(|| batch_verify(t, pc, bp)), Ok(Ok(()))) {
                return r.violation(&key(b), &format!("{}\nnative replay: members {} and {} made invalid by errors that cancel under the coins {:?}; the batch accepts", what, i, j, c.iter().map(|x| show_f(*x)).collect::<Vec<_>>()));
            }
        }
    }
    if b.len() > 1 {
        r.inconclusive(format!("{} (not exploited natively)", what));
    }
}

/// Generator capacity: too small is an error, enough is enough.
fn generators(r: &mut Report, sps: &[Spec]) {
    for cap in [0usize, 1, 2, 3, 4, 5, 7, 8, 16] {
        let g = gens(cap);
        for i in 0..sps.len() {
            let Some(m) = member(r, &sps[i], &gens(16)) else { return };
            for two in [false, true] {
                let mut t = vec![dup(&m.tup)];
                if two {
                    t.push(dup(&m.tup));
                }
                let res = quiet(|| batch_verify(t, &g.pc, &g.bp));
                let ok = match &res {
                    Ok(Err(R1CSError::InvalidGeneratorsLength)) => cap < m.n,
                    Ok(Err(R1CSError::VerificationError)) => cap >= m.n,
                    _ => false,
                };
                r.oblige(1, if ok { Verdict::Unsat } else { Verdict::Sat });
                if !ok {
                    r.replays += 1;
                    // natively
                    let pc = PedersenGens::<NP>::default();
                    let bp = BulletproofGens::<NP>::new(cap, 1);
                    let t = VerificationTuple::<NP> { proof_dependent_points: vec![], proof_dependent_scalars: vec![], proof_independent_scalars: vec![Fq::one(); 2 + 2 * m.n] };
                    let nres = quiet(|| batch_verify(vec![t], &pc, &bp));
                    let nok = match &nres {
                        Ok(Err(R1CSError::InvalidGeneratorsLength)) => cap < m.n,
                        Ok(Err(R1CSError::VerificationError)) => cap >= m.n,
                        _ => false,
                    };
                    let d = format!("capacity {} for padded size {}: {:?}", cap, m.n, res);
                    if nok {
                        r.inconclusive(d);
                    } else {
                        r.violation(&format!("capacity {} size {}", cap, m.n), &format!("{}\nnative replay: {:?}", d, nres));
                    }
                    return;
                }
            }
        }
    }
}
