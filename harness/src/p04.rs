//! P04: malformed proofs are refused with an error; every element of a well-formed proof is bound.
use crate::common::*;
use crate::explore::*;
use crate::p02::{adversary, pos_of, pos_of_scalar, shape_of_honest, Adv};
use crate::sysrun::*;
use bulletproofs::r1cs::*;
use merlin::Transcript;
use std::collections::HashMap;

pub fn shapes(th: bool) -> Vec<Spec> {
    let s = |m, vecs: &[usize], g1, mul, alloc, c1, stride| Spec { m, vecs: vecs.to_vec(), g1, mul, alloc, c1, stride, ..Default::default() };
    let mut v = vec![
        s(0, &[], 0, 0, 0, 0, 0),
        s(1, &[], 1, 0, 0, 1, 1),
        s(1, &[], 3, 0, 0, 2, 3),
        s(0, &[1], 1, 0, 0, 1, 1),
        s(1, &[3, 1], 1, 0, 0, 2, 2),
        Spec { phase2: true, g2: 1, c2: 1, ..s(1, &[], 1, 0, 0, 1, 1) },
        Spec { phase2: true, g2: 2, c2: 1, ..s(0, &[], 0, 0, 0, 0, 0) },
        Spec { phase2: true, g2: 0, c2: 1, ..s(1, &[2], 1, 0, 0, 1, 2) },
    ];
    if th {
        v.push(s(1, &[2, 2, 2], 1, 0, 0, 2, 3));
        v.push(s(0, &[1, 1, 1, 1, 1], 1, 0, 0, 2, 3));
        v.push(s(1, &[], 8, 0, 0, 1, 5));
        v.push(s(0, &[5], 0, 0, 0, 1, 5));
        v.push(Spec { phase2: true, g2: 4, c2: 2, ..s(1, &[], 3, 0, 0, 1, 4) });
    }
    v
}

/// One way of deforming a proof.  `bad`: the verifier has to refuse it before looking at the equation.
#[derive(Clone, Debug)]
enum Mut {
    None,
    TLen(isize),
    LLen(isize),
    RLen(isize),
    LRLen(isize),
    LEmptyREmpty,
    /// identity at points[i]
    Pt(usize),
    AllPts,
    T(usize),
    L(usize),
    R(usize),
    /// a nontrivial point where an honest proof has the identity
    TOp,
    Phase2(usize),
}
impl Mut {
    fn apply<C: AffineRepr>(&self, p: &mut VerifProofParts<C>, mut pt: impl FnMut(String) -> C) {
        let mut resize = |v: &mut Vec<C>, d: isize, n: &str| {
            let l = (v.len() as isize + d).max(0) as usize;
            v.truncate(l);
            while v.len() < l {
                let x = pt(format!("{}x{}", n, v.len()));
                v.push(x);
            }
        };
        match self {
            Mut::None => {}
            Mut::TLen(d) => resize(&mut p.T, *d, "T"),
            Mut::LLen(d) => resize(&mut p.L, *d, "L"),
            Mut::RLen(d) => resize(&mut p.R, *d, "R"),
            Mut::LRLen(d) => {
                resize(&mut p.L, *d, "L");
                resize(&mut p.R, *d, "R")
            }
            Mut::LEmptyREmpty => {
                p.L.clear();
                p.R.clear()
            }
            Mut::Pt(i) => p.points[*i] = C::zero(),
            Mut::AllPts => p.points = [C::zero(); 6],
            Mut::T(d) => p.T[*d] = C::zero(),
            Mut::L(d) => p.L[*d] = C::zero(),
            Mut::R(d) => p.R[*d] = C::zero(),
            Mut::TOp => {
                for (d, t) in p.T.iter_mut().enumerate() {
                    if t.is_zero() {
                        *t = pt(format!("T{}", d));
                    }
                }
            }
            Mut::Phase2(k) => {
                for i in 3..6 {
                    if k >> (i - 3) & 1 == 1 {
                        p.points[i] = pt(format!("X{}", i));
                    }
                }
            }
        }
    }
}
/// (deformation, must be refused)
fn muts(sp: &Spec, tlen: usize, tid: &[usize], id6: &[bool; 6], lg: usize) -> Vec<(Mut, bool)> {
    let mut v = vec![(Mut::None, false)];
    for d in [-(tlen as isize), -2, -1, 1, 2, 9, 90] {
        v.push((Mut::TLen(d), true));
    }
    for d in [-1isize, 1, 2, 29, 33, 70] {
        if d < 0 && lg == 0 {
            continue;
        }
        v.push((Mut::LLen(d), true));
        v.push((Mut::RLen(d), true));
        v.push((Mut::LRLen(d), true));
    }
    if lg > 1 {
        v.push((Mut::LEmptyREmpty, true));
    }
    for i in 0..3 {
        v.push((Mut::Pt(i), true));
    }
    v.push((Mut::AllPts, true));
    for d in 0..tlen {
        if !tid.contains(&d) {
            v.push((Mut::T(d), true));
        }
    }
    for k in 0..lg {
        v.push((Mut::L(k), true));
        v.push((Mut::R(k), true));
    }
    if !tid.is_empty() {
        v.push((Mut::TOp, true));
    }
    for k in 1..8 {
        if (0..3).any(|i| k >> i & 1 == 1 && id6[3 + i]) {
            v.push((Mut::Phase2(k), !sp.vecs.is_empty()));
        }
    }
    v
}

fn lsrc(sp: &Spec) -> Src<SQ> {
    let _ = sp;
    crate::p01::sym_src()
}

/// A fresh verifier on which the proof is tried: `verify`, the tuple, and a batch of it.
struct Tried {
    verify: Result<Result<(), R1CSError>, String>,
    tuple: Result<Result<(usize, usize, usize), R1CSError>, String>,
    batch: Result<Result<(), R1CSError>, String>,
}
fn try_native(sp: &Spec, src: &Src<Fq>, pr: &Proved<NP>, parts: &VerifProofParts<NP>) -> Tried {
    let (pc, bp) = native_gens(sp.padded());
    let proof = R1CSProof::<NP>::verif_from_parts(parts.clone());
    let mut tr = Transcript::new(b"sys");
    let vf = verifier::<NP>(sp, src, &pr.ks, &pr.v, &pr.vc, &mut tr);
    let verify = quiet(|| vf.verify(&proof, pc, bp));
    let mut tr = Transcript::new(b"sys");
    let vf = verifier::<NP>(sp, src, &pr.ks, &pr.v, &pr.vc, &mut tr);
    let mut t = None;
    let tuple = quiet(|| {
        vf.verification_scalars_and_points(&proof).map(|x| {
            let s = (x.proof_dependent_points.len(), x.proof_dependent_scalars.len(), x.proof_independent_scalars.len());
            t = Some(x);
            s
        })
    });
    let batch = match t {
        Some(t) => quiet(|| batch_verify(vec![t], pc, bp)),
        None => Ok(Err(R1CSError::VerificationError)),
    };
    Tried { verify, tuple, batch }
}
fn honest_native(sp: &Spec, seed: u64, pins: &HashMap<String, L4>) -> Result<(Src<Fq>, Proved<NP>), String> {
    use ark_std::rand::SeedableRng;
    let mut rng = ark_std::rand::rngs::StdRng::seed_from_u64(seed);
    let pins = pins.clone();
    let src = memo_src(move |n: &str| match pins.get(n) {
        Some(l) => Fq::from_l4(l),
        None => <Fq as ark_ff::UniformRand>::rand(&mut rng),
    });
    let (pc, bp) = native_gens(sp.padded());
    let pr = quiet(|| prove::<NP>(sp, &src, pc, bp))?.map_err(|e| format!("{:?}", e))?;
    Ok((src, pr))
}
/// The deformed honest proof on the unlifted code; Some(reason) when the property is broken.
fn native_bad(sp: &Spec, m: &Mut, must_refuse: bool, pins: &HashMap<String, L4>) -> Option<String> {
    for seed in 0..2 {
        let (src, pr) = match honest_native(sp, 100 + seed, pins) {
            Ok(x) => x,
            Err(_) => continue,
        };
        let mut parts = pr.proof.verif_parts();
        let mut k = 1000u64;
        m.apply(&mut parts, |_| {
            k += 1;
            (ark_pallas::Projective::generator() * Fq::from(k)).into_affine()
        });
        let pinv = |n: &str, d: Fq| pins.get(n).map(Fq::from_l4).unwrap_or(d);
        parts.scalars = [pinv("t_x", parts.scalars[0]), pinv("t_x_blinding", parts.scalars[1]), pinv("e_blinding", parts.scalars[2])];
        parts.a = pinv("a", parts.a);
        parts.b = pinv("b", parts.b);
        let changed = !matches!(m, Mut::None) || ["t_x", "t_x_blinding", "e_blinding", "a", "b"].iter().any(|n| pins.contains_key(*n));
        let t = try_native(sp, &src, &pr, &parts);
        for (w, x) in [("verify", &t.verify), ("batch_verify", &t.batch)] {
            match x {
                Err(p) => return Some(format!("{} panics: {}", w, p)),
                Ok(Ok(())) if must_refuse || changed => return Some(format!("{} accepts", w)),
                _ => {}
            }
        }
        match &t.tuple {
            Err(p) => return Some(format!("verification_scalars_and_points panics: {}", p)),
            Ok(Ok((p, s, _))) if p != s => return Some(format!("verification_scalars_and_points pairs {} points with {} scalars", p, s)),
            Ok(Ok(_)) if must_refuse => return Some("verification_scalars_and_points does not refuse it".into()),
            _ => {}
        }
    }
    None
}

pub fn run(r: &mut Report) {
    r.explanation = "The real verifier is executed symbolically on proofs of every shape in the bounds: each count of T, L, R elements, each choice of identity points, phase-2 points and an extra coefficient point; all element values are symbols and branches on them are forked. Malformed shapes must yield Err on every path; for the others the solver shows that each element can influence the final equation and that it was absorbed by the transcript (or is one of the two final scalars). No path may panic. Findings are replayed on the unlifted verifier.".into();
    r.fns(&["Verifier::{verification_scalars_and_points,verify}", "batch_verify", "InnerProductProof::verification_scalars", "TranscriptProtocol::validate_and_append_point"]);
    r.assume("identity of a point is a shape attribute (enumerated), its coordinates otherwise symbolic");
    let g = gens(16);
    for sp in shapes(r.thorough()) {
        r.cases += 1;
        let (tlen, tid, id6, lg) = match shape_of_honest(&sp) {
            Ok(x) => x,
            Err(e) => {
                r.inconclusive(format!("{}: honest prover failed: {}", sp.show(), e));
                continue;
            }
        };
        for (m, bad) in muts(&sp, tlen, &tid, &id6, lg) {
            explore(r, &sp.show(), 8, |r, pins| one(r, &sp, &g, tlen, &tid, &id6, lg, &m, bad, pins));
        }
    }
    r.bounds.push(format!("{} systems (up to 8 gates, 5 vector commitments, both phases) x every deformation: T length off by -all..+90, L/R lengths off by -1..+70 together and apart, each identity point, each set of phase-2 points, nonzero T at the operand degree; two levels of forks on symbolic values", r.cases));
    r.outside.push("systems with more than 17 vector commitments (no transcript labels for their T points)".into());
}

#[allow(clippy::too_many_arguments)]
fn one(r: &mut Report, sp: &Spec, g: &Gens, tlen: usize, tid: &[usize], id6: &[bool; 6], lg: usize, m: &Mut, bad: bool, pins: &HashMap<String, L4>) -> bool {
    let key = format!("{} / {:?}", sp.show(), m);
    let mut adv = adversary(sp, id6, tlen, tid, lg);
    m.apply(&mut adv.parts, |n| sym_point::<SymPallas>(&n));
    adv.src = lsrc(sp);
    let proof = R1CSProof::verif_from_parts(adv.parts.clone());
    // tuple
    let mut tr = Transcript::new(b"sys");
    let vf = verifier::<PA>(sp, &adv.src, &adv.ks, &adv.v, &adv.c, &mut tr);
    let mut tup = None;
    let t = quiet(|| vf.verification_scalars_and_points(&proof).map(|x| tup = Some(x)));
    let log = tr.log.clone();
    let mut issue: Option<String> = None;
    match &t {
        Err(p) => issue = Some(format!("verification panics: {}", p)),
        Ok(Ok(())) if bad => issue = Some("malformed proof reaches the verification equation".into()),
        Ok(Ok(())) => {
            let x = tup.as_ref().unwrap();
            if x.proof_dependent_points.len() != x.proof_dependent_scalars.len() {
                issue = Some("points and scalars are paired off by one".into());
            }
        }
        Ok(Err(_)) if matches!(m, Mut::None) => {
            // a generic proof of the right shape must get as far as the equation
            if pins.is_empty() {
                r.inconclusive(format!("{}: well-formed proof refused {:?}", key, t));
            }
            return true;
        }
        _ => {}
    }
    // verify
    let mut tr = Transcript::new(b"sys");
    let vf = verifier::<PA>(sp, &adv.src, &adv.ks, &adv.v, &adv.c, &mut tr);
    SymPallas::zero_log().lock().unwrap().clear();
    let v = quiet(|| vf.verify(&proof, &g.pc, &g.bp));
    let tests = std::mem::take(&mut *SymPallas::zero_log().lock().unwrap());
    match &v {
        Err(p) => issue = issue.or(Some(format!("verification panics: {}", p))),
        Ok(Ok(())) => issue = issue.or(Some("accepted without the equation being satisfied".into())),
        _ => {}
    }
    if let Some(x) = tup {
        match quiet(|| batch_verify(vec![x], &g.pc, &g.bp)) {
            Err(p) => issue = issue.or(Some(format!("batch verification panics: {}", p))),
            Ok(Ok(())) => issue = issue.or(Some("batch accepted without the equation being satisfied".into())),
            _ => {}
        }
    }
    let ok = issue.is_none();
    r.oblige(1, if ok { Verdict::Unsat } else { Verdict::Sat });
    if let Some(i) = issue {
        r.replays += 1;
        match native_bad(sp, m, bad, pins) {
            Some(e) => r.violation(&key, &format!("{}\nnative replay on an honest proof deformed this way (pinned {:?}): {}", i, pins, e)),
            None => {
                // accepted/reached with arbitrary values: replay with the shadow values themselves
                r.inconclusive(format!("{}: {} (not reproduced natively)", key, i));
            }
        }
        return false;
    }
    if !bad && matches!(t, Ok(Ok(()))) && pins.is_empty() {
        return bound(r, sp, &key, &adv, &log, tests.last().map(|x| x.0.clone()).unwrap_or_default());
    }
    true
}

/// Every element absorbed, and able to influence the equation.
fn bound(r: &mut Report, sp: &Spec, key: &str, adv: &Adv, log: &[merlin::Event], eq: Terms<Fq>) -> bool {
    let p = &adv.parts;
    let mut nm = Norm::<Fq>::new();
    let mut z = Z3::new(60_000);
    let mut goals: Vec<(String, Vec<Poly<Fq>>, bool)> = vec![];
    let named: Vec<(String, PA)> = (0..6).map(|i| (["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2"][i].to_string(), p.points[i]))
        .chain(p.T.iter().enumerate().map(|(i, x)| (format!("T{}", i), *x)))
        .chain(p.L.iter().enumerate().map(|(i, x)| (format!("L{}", i), *x)))
        .chain(p.R.iter().enumerate().map(|(i, x)| (format!("R{}", i), *x)))
        .chain(adv.v.iter().enumerate().map(|(i, x)| (format!("V{}", i), *x)))
        .chain(adv.c.iter().enumerate().map(|(i, x)| (format!("C{}", i), *x)))
        .filter(|x| !x.1.is_zero())
        .collect();
    for (n, x) in &named {
        let at = atom_of::<SymPallas>(&shadow_pt(x), None).0;
        let c = eq.iter().find(|t| t.0 == at).map(|t| (*nm.sym(&t.1)).clone()).unwrap_or(Poly::zero());
        // commitments that no constraint mentions have no coefficient
        let needed = !n.starts_with('V') && !n.starts_with('C');
        goals.push((n.clone(), if needed { vec![c] } else { vec![] }, pos_of(log, x).is_some()));
    }
    for (n, s) in [("t_x", p.scalars[0]), ("t_x_blinding", p.scalars[1]), ("e_blinding", p.scalars[2]), ("a", p.a), ("b", p.b)] {
        let mut d = vec![];
        for (_, c) in &eq {
            let q = nm.sym(c);
            if q.vars().contains(&s.id) {
                d.push(q.split(&[s.id]).into_iter().filter(|(k, _)| k[0] != 0).fold(Poly::zero(), |a, (_, p)| a.add(&p)));
            }
        }
        let abs = n == "a" || n == "b" || pos_of_scalar(log, &s).is_some();
        goals.push((n.to_string(), if d.is_empty() { vec![Poly::zero()] } else { d }, abs));
    }
    let mut good = true;
    for (n, cs, abs) in goals {
        let mut inf = cs.is_empty();
        if !inf {
            let mut e = MonoEnc::default();
            let q: Vec<String> = cs.iter().map(|c| format!("(not (= {} 0))", e.lin(c))).collect();
            z.push();
            for d in &e.decls {
                z.raw(d);
            }
            z.raw(&format!("(assert (or {}))", q.join(" ")));
            inf = z.check() == Verdict::Sat;
            z.pop();
        }
        r.oblige(2, if inf && abs { Verdict::Unsat } else { Verdict::Sat });
        if inf && abs {
            r.vacuity_witnesses += 1;
            continue;
        }
        good = false;
        // native replay: alter the element of an honest proof
        r.replays += 1;
        match native_alter(sp, &n) {
            Some(e) => r.violation(&format!("{} / element {}", key, n), &format!("element {} {}\nnative replay: {}", n, if abs { "has no influence on the equation" } else { "is not absorbed by the transcript" }, e)),
            None => r.inconclusive(format!("{}: element {} unbound, not reproduced", key, n)),
        }
    }
    r.absorb(&z);
    good
}

/// Change one element of an honest proof: it has to be refused, and the transcript has to differ.
fn native_alter(sp: &Spec, n: &str) -> Option<String> {
    let (src, pr) = honest_native(sp, 7, &HashMap::new()).ok()?;
    let base = pr.proof.verif_parts();
    let mut p = base.clone();
    let q: NP = (ark_pallas::Projective::generator() * Fq::from(4242u64)).into_affine();
    let one = Fq::one();
    match n {
        "A_I1" => p.points[0] = q,
        "A_O1" => p.points[1] = q,
        "S1" => p.points[2] = q,
        "A_I2" | "X3" => p.points[3] = q,
        "A_O2" | "X4" => p.points[4] = q,
        "S2" | "X5" => p.points[5] = q,
        "t_x" => p.scalars[0] += one,
        "t_x_blinding" => p.scalars[1] += one,
        "e_blinding" => p.scalars[2] += one,
        "a" => p.a += one,
        "b" => p.b += one,
        _ => {
            let i: usize = n[1..].trim_start_matches('x').parse().ok()?;
            match &n[..1] {
                "T" => p.T[i] = q,
                "L" => p.L[i] = q,
                "R" => p.R[i] = q,
                _ => return None,
            }
        }
    }
    let t = try_native(sp, &src, &pr, &p);
    if matches!(t.verify, Ok(Ok(()))) {
        return Some(format!("the proof is still accepted after {} was replaced", n));
    }
    // transcripts
    let (pc, bp) = native_gens(sp.padded());
    let last = |parts: &VerifProofParts<NP>| -> [u8; 32] {
        let mut tr = Transcript::new(b"sys");
        let vf = verifier::<NP>(sp, &src, &pr.ks, &pr.v, &pr.vc, &mut tr);
        let _ = quiet(|| vf.verify(&R1CSProof::<NP>::verif_from_parts(parts.clone()), pc, bp));
        let mut b = [0; 32];
        tr.challenge_bytes(b"after", &mut b);
        b
    };
    if n != "a" && n != "b" && last(&base) == last(&p) {
        return Some(format!("all challenges stay the same when {} is replaced", n));
    }
    None
}
