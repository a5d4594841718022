//! P02: soundness of the verification equation in the algebraic group model.
use crate::common::*;
use crate::linsolve::solve;
use crate::p01::sym_src;
use crate::sysrun::*;
use bulletproofs::r1cs::*;
use merlin::Transcript;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub fn shapes(th: bool) -> Vec<Spec> {
    let s = |m, vecs: &[usize], g1, mul, alloc, c1, stride| Spec { m, vecs: vecs.to_vec(), g1, mul, alloc, c1, stride, ..Default::default() };
    let mut v = vec![
        s(0, &[], 1, 0, 0, 1, 1),
        s(1, &[], 1, 0, 0, 3, 1),
        s(2, &[], 1, 1, 0, 2, 2),
        s(0, &[], 0, 0, 1, 1, 1),
        s(1, &[], 3, 0, 0, 2, 3),
        s(1, &[], 4, 0, 0, 4, 4),
        s(0, &[1], 1, 0, 0, 2, 1),
        s(1, &[2], 1, 0, 0, 2, 1),
        s(1, &[3], 1, 0, 0, 2, 2),
        s(0, &[1, 1], 1, 0, 0, 2, 1),
        s(1, &[2, 1], 2, 0, 0, 2, 2),
        s(0, &[1, 1, 1], 1, 0, 0, 3, 2),
        s(0, &[1, 2, 2, 1], 1, 0, 0, 2, 2),
        Spec { vec_first: true, ..s(1, &[2], 2, 0, 0, 2, 2) },
        Spec { phase2: true, g2: 0, c2: 1, ..s(1, &[], 1, 0, 0, 1, 1) },
        Spec { phase2: true, g2: 1, c2: 1, ..s(1, &[], 1, 0, 0, 1, 1) },
        Spec { phase2: true, g2: 1, c2: 2, ..s(1, &[], 2, 0, 0, 1, 3) },
        Spec { phase2: true, g2: 2, c2: 1, ..s(0, &[], 1, 0, 1, 1, 3) },
        Spec { phase2: true, g2: 0, c2: 2, ..s(1, &[2], 1, 0, 0, 1, 2) },
        Spec { phase2: true, g2: 2, c2: 1, ..s(1, &[], 0, 0, 0, 0, 2) },
        Spec { phase2: true, c2: 1, mul2: 1, alloc2: 1, ..s(0, &[], 0, 0, 1, 1, 2) },
        Spec { zg: 1, ..s(1, &[], 0, 0, 0, 0, 1) },
        Spec { zg: 1, ..s(0, &[], 1, 0, 0, 1, 1) },
        Spec { zg: 2, ..s(0, &[1], 0, 0, 0, 1, 2) },
        Spec { phase2: true, zg2: 1, ..s(0, &[], 1, 0, 0, 1, 1) },
        Spec { phase2: true, zg: 1, zg2: 1, ..s(1, &[], 0, 0, 0, 1, 1) },
    ];
    if th {
        v.push(Spec { phase2: true, zg: 2, zg2: 2, ..s(1, &[2], 0, 0, 0, 1, 1) });
        v.push(s(2, &[2, 2, 2], 2, 0, 0, 3, 3));
        v.push(s(0, &[1, 1, 1, 1, 1], 1, 0, 0, 3, 3));
        v.push(s(0, &[1, 1, 1, 1, 1, 1], 1, 0, 0, 2, 4));
        v.push(s(0, &[2, 1, 2, 1, 2, 1, 2], 1, 0, 0, 2, 5));
        v.push(s(1, &[], 8, 0, 0, 3, 7));
        v.push(s(1, &[8], 4, 0, 0, 3, 7));
        v.push(s(1, &[4, 4], 4, 0, 0, 3, 6));
        v.push(s(1, &[], 1, 2, 0, 6, 3));
        v.push(Spec { phase2: true, g2: 3, c2: 2, ..s(1, &[], 2, 0, 0, 1, 4) });
        v.push(Spec { phase2: true, g2: 1, c2: 1, ..s(0, &[], 4, 0, 0, 1, 5) });
        v.push(Spec { phase2: true, g2: 4, c2: 1, ..s(0, &[], 1, 0, 0, 1, 5) });
        v.push(Spec { phase2: true, g2: 3, c2: 3, ..s(2, &[], 5, 0, 0, 3, 5) });
    }
    v
}

/// A proof whose points are independent symbols.
pub struct Adv {
    pub names: Vec<String>,
    pub parts: VerifProofParts<PA>,
    pub v: Vec<PA>,
    pub c: Vec<PA>,
    pub ks: Vec<SQ>,
    pub src: Src<SQ>,
    pub sc: HashMap<&'static str, SQ>,
}

pub fn shape_of_honest(sp: &Spec) -> Result<(usize, Vec<usize>, [bool; 6], usize), String> {
    let (pc, bp) = native_gens(sp.padded());
    let mut k = 0u64;
    let src = memo_src(move |_| {
        k += 1;
        Fq::from(k * 7919 + 13)
    });
    let p = quiet(|| prove::<NP>(sp, &src, pc, bp)).map_err(|e| e)?.map_err(|e| format!("{:?}", e))?;
    let q = p.proof.verif_parts();
    let tid = (0..q.T.len()).filter(|d| q.T[*d].is_zero()).collect();
    Ok((q.T.len(), tid, q.points.map(|p| p.is_zero()), q.L.len()))
}

pub fn adversary(sp: &Spec, id6: &[bool; 6], tlen: usize, tid: &[usize], lg: usize) -> Adv {
    let mut names = vec![];
    let mut pt = |n: String| {
        names.push(n.clone());
        sym_point::<SymPallas>(&n)
    };
    let v: Vec<PA> = (0..sp.m).map(|j| pt(format!("V{}", j))).collect();
    let c: Vec<PA> = (0..sp.vecs.len()).map(|j| pt(format!("C{}", j))).collect();
    let nm = ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2"];
    let points = [0, 1, 2, 3, 4, 5].map(|i| if id6[i] { PA::zero() } else { pt(nm[i].into()) });
    let T = (0..tlen).map(|d| if tid.contains(&d) { PA::zero() } else { pt(format!("T{}", d)) }).collect();
    let L = (0..lg).map(|k| pt(format!("L{}", k))).collect();
    let R = (0..lg).map(|k| pt(format!("R{}", k))).collect();
    let mut sc = HashMap::new();
    for n in ["t_x", "t_x_blinding", "e_blinding", "a", "b"] {
        sc.insert(n, SQ::fresh(n));
    }
    let parts = VerifProofParts { points, T, scalars: [sc["t_x"], sc["t_x_blinding"], sc["e_blinding"]], L, R, a: sc["a"], b: sc["b"] };
    let nk = sp.c1 + if sp.phase2 { 2 * sp.c2 } else { 0 };
    let ks = (0..nk).map(|q| SQ::fresh(&format!("k{}", q))).collect();
    Adv { names, parts, v, c, ks, src: sym_src(), sc }
}

pub struct VerRun {
    pub res: Result<Result<(), R1CSError>, String>,
    /// challenges drawn: (label, node, position in the transcript log)
    pub chals: Vec<(String, u32, usize)>,
    pub log: Vec<merlin::Event>,
    pub tests: Vec<(Terms<Fq>, bool)>,
}
pub fn lifted_verify(sp: &Spec, g: &Gens, src: &Src<SQ>, ks: &[SQ], v: &[PA], c: &[PA], parts: &VerifProofParts<PA>) -> VerRun {
    let mut tr = Transcript::new(b"sys");
    let proof = R1CSProof::verif_from_parts(parts.clone());
    CHALLENGES.lock().unwrap().clear();
    let vf = verifier::<PA>(sp, src, ks, v, c, &mut tr);
    SymPallas::zero_log().lock().unwrap().clear();
    let res = quiet(|| vf.verify(&proof, &g.pc, &g.bp));
    let tests = std::mem::take(&mut *SymPallas::zero_log().lock().unwrap());
    let chals = std::mem::take(&mut *CHALLENGES.lock().unwrap());
    VerRun { res, chals, log: tr.log.clone(), tests }
}
pub fn pos_of(log: &[merlin::Event], p: &PA) -> Option<usize> {
    use ark_serialize::CanonicalSerialize;
    let mut b = vec![];
    shadow_pt(p).serialize_compressed(&mut b).unwrap();
    log.iter().position(|e| matches!(e, merlin::Event::Msg(_, m) if *m == b))
}
pub fn pos_of_scalar(log: &[merlin::Event], s: &SQ) -> Option<usize> {
    use ark_serialize::CanonicalSerialize;
    let mut b = vec![];
    s.v.serialize_compressed(&mut b).unwrap();
    log.iter().position(|e| matches!(e, merlin::Event::Msg(_, m) if *m == b))
}

/// The algebra of the verification equation for one shape.
struct Analysis {
    adv: Adv,
    /// l_i, r_i over openings and challenges
    l: Vec<Poly<Fq>>,
    r: Vec<Poly<Fq>>,
    gf: Vec<Poly<Fq>>,
    hf: Vec<Poly<Fq>>,
    w: Poly<Fq>,
    /// D = 0 is what the adversary must achieve (t_x eliminated)
    d: Poly<Fq>,
    has_t: bool,
    /// equations at B_blinding: T half and IPP half
    tb_eq: Option<Poly<Fq>>,
    e_eq: Poly<Fq>,
    xch: Vec<u32>,
    ych: Vec<u32>,
    wch: Vec<u32>,
    uch: Vec<u32>,
    open: HashMap<(String, String), u32>,
    t_open: HashSet<u32>,
    chi: Option<SQ>,
    /// values of the verifier's private randomness
    rnd: Vec<Fq>,
}

fn analyse(sp: &Spec, g: &Gens, adv: Adv) -> Result<Analysis, String> {
    let run = lifted_verify(sp, g, &adv.src, &adv.ks, &adv.v, &adv.c, &adv.parts);
    match &run.res {
        Ok(Err(R1CSError::VerificationError)) => {}
        x => return Err(format!("verdict {:?}", x)),
    }
    let Some((terms, false)) = run.tests.last().cloned() else { return Err("no equation tested".into()) };
    if terms.len() < 3 {
        return Err("no equation tested".into());
    }
    let mut nm = Norm::<Fq>::new();
    let coef: HashMap<u32, Poly<Fq>> = terms.iter().map(|(a, s)| (*a, (*nm.sym(s)).clone())).collect();
    // stages
    let pos = |p: &PA| if p.is_zero() { None } else { pos_of(&run.log, p) };
    let p_a = adv.parts.points.iter().chain(&adv.v).chain(&adv.c).filter_map(pos).max().ok_or("A not absorbed")?;
    let p_t0 = adv.parts.T.iter().filter_map(pos).min();
    let p_t1 = adv.parts.T.iter().filter_map(pos).max();
    let p_s = pos_of_scalar(&run.log, &adv.sc["t_x"]).ok_or("t_x not absorbed")?;
    let p_l = adv.parts.L.iter().filter_map(pos).min().unwrap_or(usize::MAX);
    let (mut ych, mut xch, mut wch, mut uch) = (vec![], vec![], vec![], vec![]);
    let mut chi = None;
    for (lab, n, p) in &run.chals {
        if lab == "chi" {
            chi = Some(SQ::from_node(*n));
        } else if *p > p_l {
            uch.push(*n)
        } else if *p > p_s {
            wch.push(*n)
        } else if p_t1.map(|t| *p > t).unwrap_or(false) {
            xch.push(*n)
        } else if *p > p_a && p_t0.map(|t| *p < t).unwrap_or(true) {
            ych.push(*n)
        } else {
            return Err(format!("challenge {} drawn between proof elements of one stage", lab));
        }
    }
    // openings
    let mut open = HashMap::new();
    let n = g.g.len().min(sp.padded());
    let mut opening = |p: &str, gen: String| -> Poly<Fq> {
        let k = (p.to_string(), gen.clone());
        let v = *open.entry(k).or_insert_with(|| SQ::fresh(&format!("{}.{}", p, gen)).id);
        Poly::var(v)
    };
    let atoms: Vec<(String, u32)> = {
        let a = SymPallas::lc_arena().lock().unwrap();
        let mut v = vec![];
        let all: Vec<(String, PA)> = adv.names.iter().cloned().zip(
            adv.v.iter().chain(&adv.c).chain(adv.parts.points.iter().filter(|p| !p.is_zero())).chain(adv.parts.T.iter().filter(|p| !p.is_zero())).chain(&adv.parts.L).chain(&adv.parts.R).cloned()).collect();
        for (n, p) in all {
            let s = shadow_pt(&p);
            let i = a.atoms.iter().rposition(|x| x.1 == s).unwrap();
            v.push((n, i as u32));
        }
        v
    };
    // halves: powers of the verifier's private randomness
    let rnd: Vec<u32> = {
        let a = Fq::arena().lock().unwrap();
        let mut s = BTreeSet::new();
        for p in coef.values() {
            for v in p.vars() {
                if node_name::<Fq>(&a, v).starts_with("rnd") {
                    s.insert(v);
                }
            }
        }
        s.into_iter().collect()
    };
    let mut half: BTreeMap<Vec<i32>, HashMap<u32, Poly<Fq>>> = BTreeMap::new();
    for (a, p) in &coef {
        for (k, q) in p.split(&rnd) {
            half.entry(k).or_default().insert(*a, q);
        }
    }
    let (av, bv, tv) = (adv.sc["a"].id, adv.sc["b"].id, adv.sc["t_x"].id);
    let ipp_keys: Vec<_> = half.iter().filter(|(_, h)| h.values().any(|p| p.vars().contains(&av) || p.vars().contains(&bv))).map(|x| x.0.clone()).collect();
    if ipp_keys.len() != 1 {
        return Err(format!("{} randomized halves carry the inner product argument", ipp_keys.len()));
    }
    let ipp = half.remove(&ipp_keys[0]).unwrap();
    let rest: Vec<HashMap<u32, Poly<Fq>>> = half.into_values().collect();
    let zero = Poly::zero();
    let gp = |h: &HashMap<u32, Poly<Fq>>, a: u32| h.get(&a).cloned().unwrap_or(zero.clone());
    // shape of the folding scalars
    let lr: HashSet<&String> = adv.names.iter().filter(|n| n.starts_with('L') || n.starts_with('R')).collect();
    let lg = adv.parts.L.len();
    for k in 0..lg {
        let find = |s: String| atoms.iter().find(|x| x.0 == s).map(|x| gp(&ipp, x.1)).unwrap();
        let (a, b) = (find(format!("L{}", k)), find(format!("R{}", k)));
        let ok = |p: &Poly<Fq>| p.as_mono().and_then(|(m, _)| if m.len() == 1 && uch.get(k) == Some(&m[0].0) { Some(m[0].1) } else { None });
        match (ok(&a), ok(&b)) {
            (Some(2), Some(-2)) | (Some(-2), Some(2)) => {}
            _ => return Err(format!("round {}: L, R enter with {} and {}", k, a.show(), b.show())),
        }
    }
    let ab = {
        let s = gp(&ipp, g.b).split(&[av, bv]);
        if s.keys().any(|k| *k != vec![0, 0] && *k != vec![1, 1]) {
            return Err("a, b enter the B coefficient other than as a*b".into());
        }
        s.get(&vec![1, 1]).cloned().ok_or("a*b missing")?
    };
    let w = ab.neg();
    if w.as_mono().is_none() || !w.vars().iter().any(|v| wch.contains(v)) || w.vars().iter().any(|v| !wch.contains(v)) {
        return Err(format!("inner product enters with {}", w.show()));
    }
    let mut exps = vec![];
    let mut factor = |p: &Poly<Fq>, v: u32, sgn: i32| -> Result<(Poly<Fq>, Poly<Fq>), String> {
        let s = p.split(&[v]);
        if s.keys().any(|k| k[0] != 0 && k[0] != 1) {
            return Err("a/b enter nonlinearly".into());
        }
        let m = s.get(&vec![1]).cloned().ok_or("generator not covered by a/b")?.neg();
        let (mm, c) = m.as_mono().ok_or("folding scalar is not a monomial")?;
        let e: Vec<i32> = uch.iter().map(|u| sgn * mm.iter().find(|x| x.0 == *u).map(|x| x.1).unwrap_or(0)).collect();
        if e.iter().any(|x| x.abs() != 1) {
            return Err(format!("folding exponents {:?}", e));
        }
        let f: Vec<(u32, i32)> = mm.iter().filter(|x| !uch.contains(&x.0)).cloned().collect();
        let f = Poly::mono(f.into_boxed_slice(), *c);
        let pubp = s.get(&vec![0]).cloned().unwrap_or(Poly::zero());
        exps.push(e);
        Ok((f, pubp))
    };
    let (mut l, mut r, mut gf, mut hf) = (vec![], vec![], vec![], vec![]);
    let is_lr = |n: &String| lr.contains(n);
    for i in 0..n {
        for (side, at, v, sgn) in [(0, g.g[i], av, 1), (1, g.h[i], bv, -1)] {
            let (f, mut acc) = factor(&gp(&ipp, at), v, sgn)?;
            let gen = format!("{}{}", if side == 0 { "G" } else { "H" }, i);
            for (nme, a) in &atoms {
                if is_lr(nme) {
                    continue;
                }
                let k = gp(&ipp, *a);
                if !k.is_zero() {
                    acc.add_scaled(&k.mul(&opening(nme, gen.clone())), Fq::one());
                }
            }
            let acc = acc.mul(&f.inv_mono().unwrap());
            if side == 0 {
                gf.push(f);
                l.push(acc)
            } else {
                hf.push(f);
                r.push(acc)
            }
        }
    }
    // all exponent vectors of G distinct, and H_i's equal to G_i's (sign already accounted for)
    let ge: Vec<_> = exps.iter().step_by(2).cloned().collect();
    let he: Vec<_> = exps.iter().skip(1).step_by(2).cloned().collect();
    if ge != he || ge.iter().collect::<HashSet<_>>().len() != n || n != 1 << lg {
        return Err("folding exponents do not enumerate the generators".into());
    }
    for (what, h) in [("inner product", &ipp)].into_iter().chain(rest.iter().map(|h| ("polynomial", h))) {
        for (a, p) in h {
            if *a != g.b && p.vars().iter().any(|v| wch.contains(v)) {
                return Err(format!("{} half: late challenge multiplies {}", what, atom_name::<SymPallas>(*a)));
            }
        }
    }
    // equations at B
    let mut ip = Poly::zero();
    for i in 0..n {
        ip.add_scaled(&l[i].mul(&r[i]), Fq::one());
    }
    let mut xeqs = vec![];
    let mut tbs = vec![];
    let mut e_eq = Poly::zero();
    for (hi, h) in std::iter::once(&ipp).chain(rest.iter()).enumerate() {
        for (gen, name) in [(g.b, "B"), (g.bb, "B~")] {
            let mut acc = gp(h, gen);
            if hi == 0 && gen == g.b {
                // remove w*(t_x - a*b): the inner product argument forces <l,r> = t_x
                let tx = Poly::<Fq>::var(tv).sub(&Poly::var(av).mul(&Poly::var(bv)));
                acc = acc.sub(&w.mul(&tx));
            }
            for (nme, a) in &atoms {
                if is_lr(nme) {
                    continue;
                }
                let k = gp(h, *a);
                if !k.is_zero() {
                    acc.add_scaled(&k.mul(&opening(nme, name.into())), Fq::one());
                }
            }
            if gen == g.b {
                if acc.vars().contains(&tv) {
                    xeqs.push(acc);
                }
            } else if hi == 0 {
                e_eq = acc;
            } else {
                tbs.push(acc);
            }
        }
    }
    if xeqs.len() > 1 {
        return Err("several equations for t_x".into());
    }
    let has_t = !xeqs.is_empty();
    let d = match xeqs.pop() {
        Some(p) => {
            let s = p.split(&[tv]);
            if s.keys().any(|k| k[0] != 0 && k[0] != 1) || s[&vec![1]].as_const().is_none() {
                return Err("t_x enters nonlinearly".into());
            }
            let mut d = s.get(&vec![0]).cloned().unwrap_or(Poly::zero());
            d.add_scaled(&ip, s[&vec![1]].as_const().unwrap());
            d
        }
        None => Poly::zero(),
    };
    for v in d.vars() {
        if uch.contains(&v) || wch.contains(&v) || v == av || v == bv || v == adv.sc["t_x_blinding"].id || v == adv.sc["e_blinding"].id {
            return Err("late value in the polynomial identity".into());
        }
    }
    let t_open = open.iter().filter(|(k, _)| k.0.starts_with('T')).map(|x| *x.1).collect();
    Ok(Analysis { adv, l, r, gf, hf, w, d, has_t, tb_eq: tbs.pop(), e_eq, xch, ych, wch, uch, open, t_open, chi, rnd: rnd.iter().map(|v| SQ::from_node(*v).v).collect() })
}

/// (conditions free of T, all (x,u)-coefficients)
fn conditions(an: &Analysis) -> (Vec<Poly<Fq>>, Vec<Poly<Fq>>) {
    let xs = an.d.split(&an.xch);
    let mut cond = vec![];
    for p in xs.values() {
        if p.vars().iter().any(|v| an.t_open.contains(v)) {
            continue;
        }
        cond.extend(p.split(&an.ych).into_values());
    }
    (cond, xs.into_values().collect())
}

/// The witness the openings contain, and the residuals of the declared system on it.
fn goals(sp: &Spec, an: &mut Analysis) -> Vec<(String, Poly<Fq>)> {
    let rec = record::<SQ>(sp, &an.adv.src, &an.adv.ks, an.chi);
    let n1 = sp.n1();
    let open = &mut an.open;
    let ids = &an.adv.parts.points;
    let mut op = |p: &str, gen: String| -> Poly<Fq> {
        let k = (p.to_string(), gen.clone());
        let idx = ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2"].iter().position(|x| *x == p);
        if let Some(i) = idx {
            if ids[i].is_zero() {
                return Poly::zero();
            }
        }
        Poly::var(*open.entry(k).or_insert_with(|| SQ::fresh(&format!("{}.{}", p, gen)).id))
    };
    let mut wit = |v: &Variable<SQ>| -> Poly<Fq> {
        let ph = |i: &usize| if *i < n1 { "1" } else { "2" };
        match v {
            Variable::VectorCommit(j, i) => op(&format!("C{}", j), format!("G{}", i)),
            Variable::Committed(j) => op(&format!("V{}", j), "B".into()),
            Variable::MultiplierLeft(i) => op(&format!("A_I{}", ph(i)), format!("G{}", i)),
            Variable::MultiplierRight(i) => op(&format!("A_I{}", ph(i)), format!("H{}", i)),
            Variable::MultiplierOutput(i) => op(&format!("A_O{}", ph(i)), format!("G{}", i)),
            Variable::One(_) => Poly::cst(Fq::one()),
        }
    };
    let mut nm = Norm::<Fq>::new();
    let mut out = vec![];
    for i in 0..rec.gates {
        let p = wit(&Variable::MultiplierLeft(i)).mul(&wit(&Variable::MultiplierRight(i))).sub(&wit(&Variable::MultiplierOutput(i)));
        out.push((format!("gate {}", i), p));
    }
    for (q, c) in rec.cons.iter().enumerate() {
        let mut p = Poly::zero();
        for (v, k) in c {
            p.add_scaled(&nm.sym(k).mul(&wit(v)), Fq::one());
        }
        out.push((format!("constraint {}", q), p));
    }
    out
}

pub fn run(r: &mut Report) {
    r.explanation = "The real verifier is executed symbolically on a proof whose points are independent symbols. From its final equation the check reads off, for an adversary whose points are arbitrary combinations of the generators (openings are symbols, all of them: also 'junk' on generators an honest prover never uses), the vectors l, r and the polynomial identity in x, u that acceptance forces. Coefficients the T points cannot absorb must vanish for all y, z; the solver shows that these conditions force every gate and every declared constraint on the opened witness. A failed entailment is replayed by a forging prover against the unlifted verifier.".into();
    r.fns(&["Verifier::{commit,commit_vec,multiply,allocate,allocate_multiplier,constrain,flattened_constraints,create_randomized_constraints,verification_scalars_and_points,verify}", "InnerProductProof::verification_scalars", "op_splits", "util::exp_iter"]);
    r.assume("discrete logarithms between distinct generators are unknown to the prover; challenges are random and drawn after everything absorbed before them (P03)");
    r.assume("the inner product argument with folding scalars of the checked shape (u^2, u^-2, product of u^{+-1} enumerating the generators, a*b on w*B) is knowledge sound (Bulletproofs, Bootle et al.)");
    let g = gens(16);
    for sp in shapes(r.thorough()) {
        r.cases += 1;
        one(r, &sp, &g);
    }
    r.bounds.push(format!("{} circuit shapes (up to 8 gates, 7 vector commitments, 2 scalar commitments, both phases); constraint coefficients, constants and all openings symbolic", r.cases));
    r.outside.push("larger circuits; provers that know discrete-log relations between generators".into());
}

fn one(r: &mut Report, sp: &Spec, g: &Gens) {
    let t0 = r.elapsed();
    let (tlen, tid, id6, lg) = match shape_of_honest(sp) {
        Ok(x) => x,
        Err(e) => return r.inconclusive(format!("{}: honest prover failed: {}", sp.show(), e)),
    };
    // points that are the identity in honest proofs may be anything, unless the verifier refuses that
    let mut an = None;
    let mut variants = vec![[false; 6]];
    if id6 != [false; 6] {
        variants.push(id6);
    }
    let mut last = String::new();
    for ids in variants {
        let adv = adversary(sp, &ids, tlen, &tid, lg);
        match analyse(sp, g, adv) {
            Ok(a) => {
                an = Some(a);
                break;
            }
            Err(e) => last = e,
        }
        r.paths += 1;
    }
    let Some(mut an) = an else {
        r.oblige(1, Verdict::Unknown);
        if last.contains("verdict Ok(Ok") {
            r.violation(&sp.show(), "a proof made of arbitrary points and scalars is accepted");
        } else {
            r.inconclusive(format!("{}: {}", sp.show(), last));
        }
        return;
    };
    // the scalar that joins the two halves is not known to the prover: a second verification draws another
    let first: Vec<Fq> = an.rnd.clone();
    let c0 = rnd_count();
    let _ = lifted_verify(sp, g, &an.adv.src, &an.adv.ks, &an.adv.v, &an.adv.c, &an.adv.parts);
    let again = rnd_from(c0);
    let same = first.iter().any(|x| again.contains(x));
    r.oblige(1, if same { Verdict::Sat } else { Verdict::Unsat });
    if same {
        return predictable(r, sp, &first);
    }
    let (cond, _) = conditions(&an);
    let gs = goals(sp, &mut an);
    let gp: Vec<Poly<Fq>> = gs.iter().map(|x| x.1.clone()).collect();
    let mut z = Z3::new(120_000);
    let (v, bad) = lin_implies(&mut z, &cond, &gp);
    r.oblige(gp.len(), v);
    // vacuity: the conditions are satisfiable with a nonzero witness
    let nz: Vec<Poly<Fq>> = gp.iter().take(1).flat_map(|p| p.t.keys().filter(|m| !m.is_empty()).take(1).map(|m| Poly::mono(m.clone(), Fq::one()))).collect();
    if !nz.is_empty() {
        let (v2, _) = lin_implies(&mut z, &cond, &nz);
        if v2 == Verdict::Sat {
            r.vacuity_witnesses += 1;
        } else {
            r.inconclusive(format!("{}: conditions are contradictory", sp.show()));
        }
    }
    r.absorb(&z);
    r.sample(format!("{}: {} conditions, {} goals, identity of {} monomials, {:.2}s", sp.show(), cond.len(), gp.len(), an.d.len(), r.elapsed() - t0));
    if v != Verdict::Unsat {
        let mut why = vec![];
        for b in bad {
            r.replays += 1;
            match forge(sp, g, &an, &cond, &gp, b) {
                Ok(d) => {
                    r.violation(&format!("{} / {}", sp.show(), gs[b].0), &format!("{} is not enforced: {}", gs[b].0, d));
                    return;
                }
                Err(e) => why.push(format!("{}: {}", gs[b].0, e)),
            }
        }
        r.inconclusive(format!("{}: not entailed, no forgery found: {}", sp.show(), why.join("; ")));
    }
}

/// The joining scalar repeats: errors in the two halves cancel under it.
fn predictable(r: &mut Report, sp: &Spec, rnd: &[Fq]) {
    r.replays += 1;
    let what = "two verifications draw the same private scalar";
    let sp1 = Spec { g1: 1, ..Default::default() };
    let (pc, bp) = native_gens(1);
    let mut k = 0u64;
    let src = memo_src(move |_| {
        k += 1;
        Fq::from(k * 7919 + 13)
    });
    for x in rnd {
        for e in [*x, -*x, x.inverse().unwrap_or(Fq::one()), -x.inverse().unwrap_or(Fq::one())] {
            let Ok(Ok(p)) = quiet(|| prove::<NP>(&sp1, &src, pc, bp)) else { continue };
            let mut q = p.proof.verif_parts();
            q.scalars[1] += Fq::one();
            q.scalars[2] += e;
            let forged = R1CSProof::<NP>::verif_from_parts(q);
            let mut tr = Transcript::new(b"sys");
            let vf = verifier::<NP>(&sp1, &src, &p.ks, &p.v, &p.vc, &mut tr);
            if matches!(quiet(|| vf.verify(&forged, pc, bp)), Ok(Ok(()))) {
                return r.violation(&sp.show(), &format!("{}\nnative replay: t_x_blinding shifted by 1 and e_blinding by {} in a proof of one gate; the verifier accepts", what, show_f(e)));
            }
        }
    }
    r.inconclusive(format!("{}: {} (not exploited natively)", sp.show(), what));
}

/// Build a concrete proof of a false statement and run the unlifted verifier on it.
fn forge(sp: &Spec, g: &Gens, an: &Analysis, cond: &[Poly<Fq>], gp: &[Poly<Fq>], goal: usize) -> Result<String, String> {
    let sh = |v: u32| Fq::from_l4(&Fq::arena().lock().unwrap().shadow[v as usize]);
    let sys: Vec<Poly<Fq>> = cond.to_vec();
    let ks: Vec<u32> = an.adv.ks.iter().filter(|k| k.id != 0).map(|k| k.id).collect();
    let sel = |f: &dyn Fn(&str, &str) -> bool| -> Vec<u32> {
        let mut v: Vec<u32> = an.open.iter().filter(|(k, _)| !k.0.starts_with('T') && f(&k.0, &k.1)).map(|x| *x.1).collect();
        v.sort();
        v
    };
    let gsel = sel(&|_, g| g.starts_with('G'));
    let hsel = sel(&|_, g| g.starts_with('H'));
    let vsel = sel(&|p, g| p.starts_with('V') && g == "B");
    let osel = sel(&|p, g| p.starts_with("A_O") && g.starts_with('G'));
    let junk_g: HashSet<u32> = sel(&|p, g| p.starts_with('S') && g.starts_with('G') || p.starts_with('V') && g != "B").into_iter().collect();
    let mut found = None;
    let chsel = sel(&|p, g| p.starts_with('C') && g.starts_with('H'));
    let cgsel = sel(&|p, g| p.starts_with('C') && g.starts_with('G'));
    let ihsel = sel(&|p, g| p.starts_with("A_I") && g.starts_with('H'));
    let igsel = sel(&|p, g| p.starts_with("A_I") && g.starts_with('G'));
    let honest_id = shape_of_honest(sp)?.2;
    // "B" parts of everything but V are zero; S carries no information
    let b_junk: HashSet<u32> = sel(&|p, g| g == "B" && !p.starts_with('V')).into_iter().collect();
    let id_junk: HashSet<u32> = sel(&|p, _| ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2"].iter().position(|x| *x == p).map(|i| honest_id[i]).unwrap_or(false)).into_iter().collect();
    let legit: HashSet<u32> = sel(&|p, g| p.starts_with("A_I1") || p.starts_with("A_O1") && g.starts_with('G') || p.starts_with('C') && g.starts_with('G') || p.starts_with('V') && g == "B" || p.ends_with('2') && (g.starts_with('G') || p == "A_I2" && g.starts_with('H'))).into_iter().collect();
    let lin = [ks.clone(), vsel.clone()].concat();
    'o: for (unk, keep_id, keep) in [
        // (unknowns, may identity points be non-trivial, which other openings stay random)
        (osel.clone(), false, vec![]),
        (chsel.clone(), false, vec![]),
        (osel.clone(), false, chsel.clone()),
        (hsel.clone(), false, vec![]),
        (hsel.clone(), true, vec![]),
        (ihsel.clone(), false, chsel.clone()),
        (igsel.clone(), false, chsel.clone()),
        ([ihsel.clone(), osel.clone()].concat(), false, vec![]),
        ([igsel.clone(), osel.clone()].concat(), false, vec![]),
        ([ihsel.clone(), osel.clone(), cgsel.clone()].concat(), false, vec![]),
        (cgsel.clone(), false, chsel.clone()),
        (gsel.clone(), true, vec![]),
        (gsel.clone(), true, hsel.clone()),
        (gsel.clone(), false, hsel.clone()),
        (hsel.clone(), true, gsel.clone()),
        (hsel.clone(), false, gsel.clone()),
    ] {
        let unk = [lin.clone(), unk].concat();
        let us: HashSet<u32> = unk.iter().copied().collect();
        let keep: HashSet<u32> = keep.into_iter().collect();
        let all_open: HashSet<u32> = an.open.values().copied().collect();
        let zero = |v: u32| junk_g.contains(&v) || b_junk.contains(&v) || (!keep_id && id_junk.contains(&v)) || (all_open.contains(&v) && !legit.contains(&v) && !keep.contains(&v) && !us.contains(&v));
        let val = |v: u32| if zero(v) { Fq::zero() } else { sh(v) };
        let unk: Vec<u32> = unk.into_iter().filter(|v| !zero(*v)).collect();
        let mut c = 3u64;
        if let Some(s) = solve(&sys, &unk, &val, &mut || {
            c += 1;
            Fq::from(c)
        }) {
            let mut all: HashMap<u32, Fq> = HashMap::new();
            for (k, v) in &an.open {
                if !k.0.starts_with('T') {
                    all.insert(*v, s.get(v).copied().unwrap_or(val(*v)));
                }
            }
            for k in &ks {
                all.insert(*k, s.get(k).copied().unwrap_or(sh(*k)));
            }
            if gp[goal].eval(&|v| all.get(&v).copied().unwrap_or_else(|| val(v))).is_zero() {
                continue;
            }
            found = Some(all);
            break 'o;
        }
    }
    let mut vals = found.ok_or("no opening found")?;
    // concrete points
    let base = |n: &str| -> CA<SymPallas> {
        match n {
            "B" => shadow_pt(&g.pc.B),
            "B~" => shadow_pt(&g.pc.B_blinding),
            _ => {
                let i: usize = n[1..].parse().unwrap();
                let at = if n.starts_with('G') { g.g[i] } else { g.h[i] };
                SymPallas::lc_arena().lock().unwrap().atoms[at as usize].1
            }
        }
    };
    let mk = |name: &str, vals: &mut HashMap<u32, Fq>| -> NP {
        let mut acc = ark_pallas::Projective::zero();
        for (k, v) in &an.open {
            if k.0 == name && k.1 != "B~" {
                acc += base(&k.1) * vals.get(v).copied().unwrap_or(Fq::zero());
            }
        }
        let bl: Fq = rand_f();
        if let Some(v) = an.open.get(&(name.to_string(), "B~".to_string())) {
            vals.insert(*v, bl);
        }
        acc += base("B~") * bl;
        acc.into_affine()
    };
    let lift = |p: &NP| -> PA {
        if p.is_zero() {
            PA::zero()
        } else {
            PA::new_unchecked(Sym::cst(p.x), Sym::cst(p.y))
        }
    };
    let mut pts: HashMap<String, NP> = HashMap::new();
    for n in &an.adv.names {
        if !n.starts_with('T') && !n.starts_with('L') && !n.starts_with('R') {
            pts.insert(n.clone(), mk(n, &mut vals));
        }
    }
    let csrc = {
        let s = an.adv.src.clone();
        memo_src(move |n: &str| SQ::cst(get(&s, n).v))
    };
    let cks: Vec<SQ> = an.adv.ks.iter().map(|k| SQ::cst(vals.get(&k.id).copied().unwrap_or(k.v))).collect();
    let six = ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2"];
    let dummy: NP = (ark_pallas::Projective::generator() * Fq::from(77u64)).into_affine();
    let mut parts = VerifProofParts::<PA> {
        points: six.map(|n| pts.get(n).map(&lift).unwrap_or(PA::zero())),
        T: an.adv.parts.T.iter().map(|t| if t.is_zero() { PA::zero() } else { lift(&dummy) }).collect(),
        scalars: [SQ::cst(Fq::from(5u64)), SQ::cst(Fq::from(6u64)), SQ::cst(Fq::from(7u64))],
        L: an.adv.parts.L.iter().map(|_| lift(&dummy)).collect(),
        R: an.adv.parts.L.iter().map(|_| lift(&dummy)).collect(),
        a: SQ::cst(Fq::one()),
        b: SQ::cst(Fq::one()),
    };
    let vp: Vec<PA> = (0..sp.m).map(|j| lift(&pts[&format!("V{}", j)])).collect();
    let cp: Vec<PA> = (0..sp.vecs.len()).map(|j| lift(&pts[&format!("C{}", j)])).collect();
    let nch = an.xch.len() + an.ych.len() + an.wch.len() + an.uch.len();
    let off_y = an.chi.is_some() as usize;
    let chal = |parts: &VerifProofParts<PA>| -> Result<Vec<Fq>, String> {
        let run = lifted_verify(sp, g, &csrc, &cks, &vp, &cp, parts);
        if run.chals.len() != nch + off_y {
            return Err(format!("forging run drew {} challenges ({:?})", run.chals.len(), run.res));
        }
        Ok(run.chals.iter().map(|c| sh(c.1)).collect())
    };
    let order: Vec<u32> = an.chi.iter().map(|c| c.id).chain(an.ych.iter().chain(&an.xch).chain(&an.wch).chain(&an.uch).copied()).collect();
    let upto = |vals: &mut HashMap<u32, Fq>, c: &[Fq], k: usize| {
        for i in 0..k {
            vals.insert(order[i], c[i]);
        }
    };
    let look = |vals: &HashMap<u32, Fq>, v: u32| vals.get(&v).copied().unwrap_or_else(|| sh(v));
    // stage 1: y, z
    let ny = off_y + an.ych.len();
    let c = chal(&parts)?;
    upto(&mut vals, &c, ny);
    if an.has_t {
        let (_, xs) = conditions(an);
        let unk: Vec<u32> = {
            let mut v: Vec<u32> = an.open.iter().filter(|(k, _)| k.0.starts_with('T') && k.1 != "B~").map(|x| *x.1).collect();
            v.sort();
            v
        };
        let s = solve(&xs, &unk, &|v| look(&vals, v), &mut || Fq::zero()).ok_or("T cannot absorb")?;
        vals.extend(s);
    }
    for d in 0..parts.T.len() {
        if !an.adv.parts.T[d].is_zero() {
            parts.T[d] = lift(&mk(&format!("T{}", d), &mut vals));
        }
    }
    // stage 2: u, x
    let c = chal(&parts)?;
    let nx = ny + an.xch.len();
    upto(&mut vals, &c, nx);
    let lv: Vec<Fq> = an.l.iter().map(|p| p.eval(&|v| look(&vals, v))).collect();
    let rv: Vec<Fq> = an.r.iter().map(|p| p.eval(&|v| look(&vals, v))).collect();
    let tx: Fq = lv.iter().zip(&rv).map(|(a, b)| *a * b).sum();
    vals.insert(an.adv.sc["t_x"].id, tx);
    parts.scalars[0] = SQ::cst(tx);
    for (eq, name, i) in [(an.tb_eq.as_ref(), "t_x_blinding", 1), (Some(&an.e_eq), "e_blinding", 2)] {
        if let Some(eq) = eq {
            let id = an.adv.sc[name].id;
            if eq.vars().contains(&id) {
                let s = solve(&[eq.clone()], &[id], &|v| look(&vals, v), &mut || Fq::zero()).ok_or("blinding")?;
                vals.insert(id, s[&id]);
                parts.scalars[i] = SQ::cst(s[&id]);
            }
        }
    }
    // stage 3: w, folding
    let nw = nx + an.wch.len();
    let c = chal(&parts)?;
    upto(&mut vals, &c, nw);
    let wv = an.w.eval(&|v| look(&vals, v));
    let q = base("B") * wv;
    let n = lv.len();
    let mut gg: Vec<ark_pallas::Projective> = (0..n).map(|i| base(&format!("G{}", i)) * an.gf[i].eval(&|v| look(&vals, v))).collect();
    let mut hh: Vec<ark_pallas::Projective> = (0..n).map(|i| base(&format!("H{}", i)) * an.hf[i].eval(&|v| look(&vals, v))).collect();
    let (mut a, mut b) = (lv, rv);
    for k in 0..an.uch.len() {
        let m = a.len() / 2;
        let ip = |x: &[Fq], y: &[Fq]| -> Fq { x.iter().zip(y).map(|(a, b)| *a * b).sum() };
        let msm = |p: &[ark_pallas::Projective], s: &[Fq]| -> ark_pallas::Projective { p.iter().zip(s).map(|(p, s)| *p * s).sum() };
        let L = msm(&gg[m..], &a[..m]) + msm(&hh[..m], &b[m..]) + q * ip(&a[..m], &b[m..]);
        let R = msm(&gg[..m], &a[m..]) + msm(&hh[m..], &b[..m]) + q * ip(&a[m..], &b[..m]);
        parts.L[k] = lift(&L.into_affine());
        parts.R[k] = lift(&R.into_affine());
        let c = chal(&parts)?;
        let u = c[nw + k];
        let ui = u.inverse().unwrap();
        a = (0..m).map(|i| a[i] * u + a[m + i] * ui).collect();
        b = (0..m).map(|i| b[i] * ui + b[m + i] * u).collect();
        gg = (0..m).map(|i| gg[i] * ui + gg[m + i] * u).collect();
        hh = (0..m).map(|i| hh[i] * u + hh[m + i] * ui).collect();
    }
    parts.a = SQ::cst(a[0]);
    parts.b = SQ::cst(b[0]);
    // unlifted verdict
    let np = |p: &PA| shadow_pt(p);
    let nproof = R1CSProof::<NP>::verif_from_parts(VerifProofParts {
        points: parts.points.map(|p| np(&p)),
        T: parts.T.iter().map(np).collect(),
        scalars: parts.scalars.map(|s| s.v),
        L: parts.L.iter().map(np).collect(),
        R: parts.R.iter().map(np).collect(),
        a: parts.a.v,
        b: parts.b.v,
    });
    let (pc, bp) = native_gens(sp.padded());
    let nsrc = {
        let s = csrc.clone();
        memo_src(move |n: &str| get(&s, n).v)
    };
    let mut tr = Transcript::new(b"sys");
    let nks: Vec<Fq> = cks.iter().map(|k| k.v).collect();
    let vf = verifier::<NP>(sp, &nsrc, &nks, &vp.iter().map(np).collect::<Vec<_>>(), &cp.iter().map(np).collect::<Vec<_>>(), &mut tr);
    match quiet(|| vf.verify(&nproof, pc, bp)) {
        Ok(Ok(())) => {
            let op: Vec<String> = {
                let mut o: Vec<_> = an.open.iter().filter(|(k, _)| !k.0.starts_with('T') && k.1 != "B~").map(|(k, v)| format!("{}[{}]={}", k.0, k.1, show_f(look(&vals, *v)))).collect();
                o.sort();
                o
            };
            let mut bytes = vec![];
            use ark_serialize::CanonicalSerialize;
            nproof.serialize_compressed(&mut bytes).ok();
            Ok(format!(
                "the real verifier (Pallas) accepts a proof whose openings violate it.\nopenings: {}\nproof: {}",
                op.join(" "),
                bytes.iter().map(|b| format!("{:02x}", b)).collect::<String>()
            ))
        }
        x => Err(format!("forged proof refused: {:?}", x)),
    }
}
