//! P20: everything a proof publishes is masked by randomness drawn for it.  The real prover runs with witness, drawn
//! randomness and challenges as symbols; z3 decides that the points' blindings are linearly independent forms in the
//! drawn randomness, and that no linear relation of the published values is free of it and still depends on the witness.
use crate::common::*;
use crate::gadget::*;
use crate::path::*;
use crate::sysrun::{memo_src, prove, Proved, Spec, Src};
use ark_ec::short_weierstrass::Affine;
use ark_serialize::CanonicalDeserialize;
use bulletproofs::r1cs::*;
use merlin::Transcript;
use relations::curve_tree::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

const LAM: u32 = 0x8000_0000;
const ATOM: u32 = 0x4000_0000;

fn is_blind(n: &str) -> bool {
    n.starts_with("vb") || n.starts_with("wb")
}
fn is_wit(n: &str) -> bool {
    ["v", "w", "aL", "aR", "bL", "bR", "al", "tal"].iter().any(|p| n.starts_with(p)) && !is_blind(n)
}

struct Made {
    pr: Proved<PA>,
    /// drawn randomness and the caller's blindings
    masks: HashSet<u32>,
    wit: HashSet<u32>,
    chal: Vec<(String, u32)>,
}
/// Witness values by name; coefficients of the statement are constants.
type Names = Rc<RefCell<BTreeMap<String, SQ>>>;
fn source(names: &Names, blind_tag: &str) -> Src<SQ> {
    let (n2, tag) = (names.clone(), blind_tag.to_string());
    Rc::new(RefCell::new(move |n: &str| {
        let k = if is_blind(n) { format!("{}{}", n, tag) } else { n.to_string() };
        let mut m = n2.borrow_mut();
        let c = m.len() as u64;
        *m.entry(k.clone()).or_insert_with(|| if is_wit(n) || is_blind(n) { SQ::fresh(&k) } else { SQ::cst(Fq::from(3 + 2 * c)) })
    }))
}
fn make(sp: &Spec, g: &Gens, names: &Names, tag: &str) -> Result<Made, String> {
    let src = source(names, tag);
    CHALLENGES.lock().unwrap().clear();
    let c0 = rnd_count();
    let pr = quiet(|| prove::<PA>(sp, &src, &g.pc, &g.bp)).map_err(|e| format!("the prover panics: {}", e))?.map_err(|e| format!("the prover fails: {:?}", e))?;
    let c1 = rnd_count();
    let chal = CHALLENGES.lock().unwrap().iter().map(|c| (c.0.clone(), c.1)).collect();
    let drawn: HashSet<String> = (c0 + 1..=c1).map(|i| format!("rnd{}", i)).collect();
    let mut masks: HashSet<u32> = {
        let a = Fq::arena().lock().unwrap();
        a.vars.iter().filter(|v| drawn.contains(&v.name)).map(|v| v.node).collect()
    };
    let mut wit = HashSet::new();
    for (n, s) in names.borrow().iter() {
        if is_wit(n) {
            wit.insert(s.node());
        } else if is_blind(n) && n.ends_with(tag) {
            masks.insert(s.node());
        }
    }
    Ok(Made { pr, masks, wit, chal })
}

/// A published value: a point by atom, or a scalar (with the atoms it may be multiplied by).
struct Row {
    name: String,
    at: Vec<(u32, Poly<Fq>)>,
    point: bool,
}
fn rows(m: &Made, g: &Gens, nm: &mut Norm<Fq>) -> Vec<Row> {
    let p = m.pr.proof.verif_parts();
    let mut o = vec![];
    let mut pts: Vec<(String, PA)> = vec![];
    for (i, n) in ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2"].iter().enumerate() {
        pts.push((n.to_string(), p.points[i]));
    }
    pts.extend(p.T.iter().enumerate().map(|(i, x)| (format!("T{}", i), *x)));
    pts.extend(m.pr.v.iter().enumerate().map(|(i, x)| (format!("V{}", i), *x)));
    pts.extend(m.pr.vc.iter().enumerate().map(|(i, x)| (format!("C{}", i), *x)));
    for (n, x) in pts {
        let t = terms_of::<SymPallas>(&x);
        if t.is_empty() {
            continue;
        }
        let at = t.iter().map(|(a, _)| (*a, terms_poly(nm, &t, *a))).collect();
        o.push(Row { name: n, at, point: true });
    }
    let mut sc: Vec<(String, Poly<Fq>, Vec<u32>)> = vec![];
    for (n, s, a) in [("t_x", p.scalars[0], g.b), ("t_x_blinding", p.scalars[1], g.bb), ("e_blinding", p.scalars[2], g.bb)] {
        sc.push((n.into(), (*nm.sym(&s)).clone(), vec![a]));
    }
    if p.L.is_empty() {
        sc.push(("l0".into(), (*nm.sym(&p.a)).clone(), vec![g.g[0], g.b]));
        sc.push(("r0".into(), (*nm.sym(&p.b)).clone(), vec![g.h[0], g.b]));
    }
    for (n, x) in p.L.iter().take(1).map(|x| ("L0", x)).chain(p.R.iter().take(1).map(|x| ("R0", x))) {
        // at worst the first round reveals the vectors themselves
        let t = terms_of::<SymPallas>(x);
        for (a, _) in &t {
            if g.g.contains(a) || g.h.contains(a) {
                sc.push((format!("{}/{}", n, atom_name::<SymPallas>(*a)), terms_poly(nm, &t, *a), vec![]));
            }
        }
    }
    for (n, p, atoms) in sc {
        o.push(Row { name: n.clone(), at: vec![(u32::MAX, p.clone())], point: false });
        for a in atoms {
            o.push(Row { name: format!("{}*{}", n, atom_name::<SymPallas>(a)), at: vec![(a, p.clone())], point: false });
        }
    }
    o
}

fn has(m: &Mono, s: &HashSet<u32>) -> bool {
    m.iter().any(|x| s.contains(&x.0))
}

/// Exactly one drawn value: a blinding that is another one's square is not drawn for it.
fn linear(m: &Mono, s: &HashSet<u32>) -> bool {
    let v: Vec<i32> = m.iter().filter(|x| s.contains(&x.0)).map(|x| x.1).collect();
    v == [1]
}

/// Linear relations among `rows` with coefficients over `mult`: equations in the coefficients, one per monomial.
fn equations(rows: &[Row], mult: &[Mono]) -> BTreeMap<Mono, Poly<Fq>> {
    let mut eq: BTreeMap<Mono, Poly<Fq>> = BTreeMap::new();
    for (i, r) in rows.iter().enumerate() {
        for (j, f) in mult.iter().enumerate() {
            let lam = LAM + (i * mult.len() + j) as u32;
            for (a, p) in &r.at {
                let tag = mono_pow(ATOM + (a & 0x0fff_ffff), 1);
                for (m, c) in p.t.iter() {
                    let k = mono_mul(&mono_mul(m, f), &tag);
                    eq.entry(k).or_insert_with(Poly::zero).add_term(mono_pow(lam, 1), *c);
                }
            }
        }
    }
    eq.retain(|_, p| !p.is_zero());
    eq
}

/// A relation that the hypotheses allow and the goal refuses: coefficients over the field.
fn relation(hyps: &[Poly<Fq>], goal: &Poly<Fq>) -> Option<HashMap<u32, Fq>> {
    // eliminate the hypotheses, then pick values of the free coefficients with goal = 1
    let mut piv: BTreeMap<u32, BTreeMap<u32, Fq>> = BTreeMap::new();
    let row_of = |p: &Poly<Fq>| -> BTreeMap<u32, Fq> { p.t.iter().map(|(m, c)| (m[0].0, *c)).collect() };
    let reduce = |mut r: BTreeMap<u32, Fq>, piv: &BTreeMap<u32, BTreeMap<u32, Fq>>| {
        while let Some((k, c)) = r.iter().rev().find(|(k, _)| piv.contains_key(k)).map(|(k, c)| (*k, *c)) {
            for (j, d) in &piv[&k] {
                let e = r.entry(*j).or_insert(Fq::zero());
                *e -= c * d;
                if e.is_zero() {
                    r.remove(j);
                }
            }
        }
        r
    };
    for h in hyps {
        let r = reduce(row_of(h), &piv);
        if let Some((k, c)) = r.iter().next_back().map(|(k, c)| (*k, *c)) {
            let ci = c.inverse().unwrap();
            piv.insert(k, r.into_iter().map(|(j, d)| (j, d * ci)).collect());
        }
    }
    let g = reduce(row_of(goal), &piv);
    let (free, c) = g.iter().next().map(|(k, c)| (*k, *c))?;
    // free := 1/c, the other free ones 0; pivots in increasing order
    let mut v: HashMap<u32, Fq> = HashMap::new();
    v.insert(free, c.inverse().unwrap());
    for (k, r) in &piv {
        let s: Fq = r.iter().filter(|x| x.0 != k).map(|(j, d)| *v.get(j).unwrap_or(&Fq::zero()) * d).sum();
        v.insert(*k, -s);
    }
    v.retain(|_, x| !x.is_zero());
    Some(v)
}

/// The relation on the concrete values of a run: does its left side, computed from the published points and scalars,
/// come out as the expression that has no randomness in it?
fn concrete(m: &Made, rows: &[Row], mult: &[Mono], lam: &HashMap<u32, Fq>) -> bool {
    let a = Fq::arena().lock().unwrap();
    let sh = |v: u32| Fq::from_l4(&a.shadow[v as usize]);
    let mono = |f: &Mono| f.iter().fold(Fq::one(), |x, (v, e)| x * if *e >= 0 { sh(*v).pow([*e as u64]) } else { sh(*v).inverse().unwrap().pow([(-*e) as u64]) });
    let p = m.pr.proof.verif_parts();
    let mut named: HashMap<String, PA> = HashMap::new();
    for (i, n) in ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2"].iter().enumerate() {
        named.insert(n.to_string(), p.points[i]);
    }
    for (l, v) in [("T", &p.T), ("V", &m.pr.v), ("C", &m.pr.vc)] {
        for (i, x) in v.iter().enumerate() {
            named.insert(format!("{}{}", l, i), *x);
        }
    }
    let coef = |i: usize| -> Fq { mult.iter().enumerate().map(|(j, f)| *lam.get(&(LAM + (i * mult.len() + j) as u32)).unwrap_or(&Fq::zero()) * mono(f)).sum() };
    let at = |i: u32| -> NP {
        let l = SymPallas::lc_arena().lock().unwrap();
        l.atoms[i as usize].1
    };
    // published values
    let mut lhs = ark_pallas::Projective::zero();
    let mut lhs1 = Fq::zero();
    // their expression without the terms in the masks
    let mut rhs = ark_pallas::Projective::zero();
    let mut rhs1 = Fq::zero();
    for (i, r) in rows.iter().enumerate() {
        let c = coef(i);
        if c.is_zero() {
            continue;
        }
        for (at_, q) in &r.at {
            let mut v = Fq::zero();
            let mut w = Fq::zero();
            for (mo, k) in q.t.iter() {
                let x = *k * mono(mo);
                v += x;
                if !has(mo, &m.masks) {
                    w += x;
                }
            }
            if *at_ == u32::MAX {
                lhs1 += c * v;
                rhs1 += c * w;
            } else {
                rhs += at(*at_) * (c * w);
                if !r.point {
                    lhs += at(*at_) * (c * v);
                }
            }
        }
        if r.point {
            match named.get(&r.name) {
                Some(p) => lhs += shadow_pt::<SymPallas>(p) * c,
                None => return false,
            }
        }
    }
    lhs == rhs && lhs1 == rhs1
}

fn describe(rows: &[Row], mult: &[Mono], lam: &HashMap<u32, Fq>) -> String {
    let mut o: BTreeSet<String> = BTreeSet::new();
    for k in lam.keys() {
        let (i, j) = ((*k - LAM) as usize / mult.len(), (*k - LAM) as usize % mult.len());
        o.insert(format!("{}·({})", Poly::<Fq>::mono(mult[j].clone(), lam[k]).show(), rows[i].name));
    }
    let v: Vec<String> = o.into_iter().take(12).collect();
    v.join(" + ")
}

fn one(r: &mut Report, z: &mut Z3, sp: &Spec, g: &Gens, two: bool) -> Result<(), String> {
    let key = sp.show();
    let names: Names = Default::default();
    let m = make(sp, g, &names, ":1")?;
    let mut nm = Norm::<Fq>::new();
    let rs = rows(&m, g, &mut nm);
    // 1. independent blindings of the points
    let pts: Vec<&Row> = rs.iter().filter(|r| r.point).collect();
    let mut eq: BTreeMap<Mono, Poly<Fq>> = BTreeMap::new();
    for (i, p) in pts.iter().enumerate() {
        for (a, q) in &p.at {
            if *a != g.bb {
                continue;
            }
            for (mo, c) in q.t.iter() {
                if linear(mo, &m.masks) {
                    eq.entry(mo.clone()).or_insert_with(Poly::zero).add_term(mono_pow(LAM + i as u32, 1), *c);
                }
            }
        }
    }
    let hyps: Vec<Poly<Fq>> = eq.values().cloned().collect();
    let goals: Vec<Poly<Fq>> = (0..pts.len()).map(|i| Poly::var(LAM + i as u32)).collect();
    let (v, bad) = lin_implies(z, &hyps, &goals);
    r.oblige(pts.len(), v);
    match v {
        Verdict::Unsat => {}
        Verdict::Sat => {
            let used: HashSet<u32> = pts.iter().flat_map(|p| p.at.iter().filter(|x| x.0 == g.bb).flat_map(|x| x.1.vars())).filter(|v| m.masks.contains(v)).collect();
            if used.len() < pts.len() {
                r.replays += 1;
                let free: Vec<String> = bad.iter().map(|i| pts[*i].name.clone()).collect();
                r.violation(&format!("{} / blindings", key), &format!("{} points are blinded by functions of {} drawn values (dependent: {}; read off the concrete run)", pts.len(), used.len(), free.join(", ")));
                return Ok(());
            }
            let lam = goals.iter().find_map(|g| relation(&hyps, g)).ok_or("no relation found")?;
            let own: Vec<Row> = rs.into_iter().filter(|r| r.point).collect();
            // on B_blinding alone
            let only: Vec<Row> = own.iter().map(|p| Row { name: p.name.clone(), at: p.at.clone(), point: true }).collect();
            let names: Vec<String> = lam.keys().map(|k| only[(*k - LAM) as usize].name.clone()).collect();
            r.replays += 1;
            // concretely: subtract every part that is not on B_blinding; what is left shows no randomness
            let mut left = ark_pallas::Projective::zero();
            for (i, p) in only.iter().enumerate() {
                let c = *lam.get(&(LAM + i as u32)).unwrap_or(&Fq::zero());
                let a = Fq::arena().lock().unwrap();
                for (at, q) in &p.at {
                    if *at == g.bb {
                        let x = q.eval(&|v| Fq::from_l4(&a.shadow[v as usize]));
                        left += { SymPallas::lc_arena().lock().unwrap().atoms[*at as usize].1 } * (x * c);
                    }
                }
            }
            if !left.is_zero() && !native_same(sp) {
                // blinded by something that is not drawn
                r.inconclusive(format!("{}: the blindings of {:?} (of {:?}) are dependent up to a value that is not drawn", key, names, bad));
                return Ok(());
            }
            r.violation(&format!("{} / blindings", key), &format!("the blindings of {} are not independent: a combination of these points has no randomness on B_blinding (checked on the concrete points of a run)", names.join(", ")));
            return Ok(());
        }
        _ => return Err("z3 gives no answer on the blindings".into()),
    }
    // 2. relations
    let ch = |l: &str| m.chal.iter().find(|c| c.0 == l).map(|c| c.1);
    let mut mult: Vec<Mono> = vec![];
    // u is drawn for the phases and again for each round: the first one counts
    for e in 0..=(2 * (sp.vecs.len() as i32 + 1) + 1) {
        for zf in 0..2 {
            for uf in 0..if sp.phase2 { 2 } else { 1 } {
                let mut f: Mono = mono_pow(0, 0);
                if let Some(x) = ch("x") {
                    f = mono_mul(&f, &mono_pow(x, e));
                }
                if let Some(x) = ch("z") {
                    f = mono_mul(&f, &mono_pow(x, zf));
                }
                if let Some(x) = ch("u") {
                    f = mono_mul(&f, &mono_pow(x, uf));
                }
                if !mult.contains(&f) {
                    mult.push(f);
                }
            }
        }
    }
    let eq = equations(&rs, &mult);
    let (mut hyps, mut goals) = (vec![], vec![]);
    for (mo, p) in &eq {
        if has(mo, &m.masks) {
            hyps.push(p.clone());
        } else if has(mo, &m.wit) {
            goals.push(p.clone());
        }
    }
    let (v, bad) = lin_implies(z, &hyps, &goals);
    r.oblige(goals.len(), v);
    if std::env::var("VH_LOUD").is_ok() {
        println!("{}: {} rows, {} multipliers, {} hyps, {} goals: {:?} {}", key, rs.len(), mult.len(), hyps.len(), goals.len(), v, bad.len());
    }
    match v {
        Verdict::Unsat => {}
        Verdict::Sat => {
            let lam = bad.iter().find_map(|i| relation(&hyps, &goals[*i])).ok_or("no relation found")?;
            r.replays += 1;
            let what = describe(&rs, &mult, &lam);
            if concrete(&m, &rs, &mult, &lam) {
                r.violation(&format!("{} / relation", key), &format!("{} depends on the witness and on no randomness (confirmed on the concrete values of a run)", what));
            } else {
                r.inconclusive(format!("{}: {} (not reproduced)", key, what));
            }
            return Ok(());
        }
        _ => return Err("z3 gives no answer on the relations".into()),
    }
    // vacuity: without the draws of one point there is a relation
    if let Some(drop) = pts_mask(&rs, &m, g) {
        let mk: HashSet<u32> = m.masks.iter().copied().filter(|x| *x != drop).collect();
        let (mut h2, mut g2) = (vec![], vec![]);
        for (mo, p) in &eq {
            if has(mo, &mk) {
                h2.push(p.clone());
            } else if has(mo, &m.wit) {
                g2.push(p.clone());
            }
        }
        // the monomials of the dropped mask disappear
        let h2: Vec<Poly<Fq>> = h2.into_iter().collect();
        let (v, _) = lin_implies(z, &h2, &g2);
        r.oblige(1, if v == Verdict::Sat { Verdict::Unsat } else { Verdict::Sat });
        if v != Verdict::Sat {
            return Err("vacuous: a proof with one mask fewer passes".into());
        }
        r.vacuity_witnesses += 1;
    }
    // 3. a second proof of the same statement shares no mask
    if two {
        let m2 = make(sp, g, &names, ":2")?;
        let mut nm = Norm::<Fq>::new();
        let (a, b) = (rows(&m, g, &mut nm), rows(&m2, g, &mut nm));
        let used = |rs: &[Row]| -> HashSet<u32> { rs.iter().flat_map(|r| r.at.iter().flat_map(|x| x.1.vars())).collect() };
        let all: HashSet<u32> = m.masks.union(&m2.masks).copied().collect();
        let (ua, ub) = (used(&a), used(&b));
        let shared: Vec<u32> = ua.intersection(&ub).filter(|x| all.contains(x)).copied().collect();
        r.oblige(1, if shared.is_empty() { Verdict::Unsat } else { Verdict::Sat });
        if !shared.is_empty() || native_same(sp) {
            r.replays += 1;
            if native_same(sp) {
                r.violation(&format!("{} / twice", key), "two proofs of the same statement share randomness: elements of the two proofs agree on the real curve");
            } else {
                r.violation(&format!("{} / twice", key), &format!("two proofs of the same statement share {} drawn values (the run on concrete values has them in both proofs)", shared.len()));
            }
        }
    }
    r.sample(key);
    Ok(())
}
/// A mask of the first point's blinding.
fn pts_mask(rs: &[Row], m: &Made, g: &Gens) -> Option<u32> {
    let p = rs.iter().find(|r| r.name == "A_I1")?;
    let q = p.at.iter().find(|x| x.0 == g.bb)?;
    q.1.vars().into_iter().find(|v| m.masks.contains(v))
}

/// On the real curve: do two proofs of the same statement have a nonzero element in common?
fn native_same(sp: &Spec) -> bool {
    let (pc, bp) = native_gens(sp.padded());
    let run = || -> Option<(Vec<NP>, Vec<Fq>)> {
        let mut k = 0u64;
        let src = memo_src(move |_| {
            k += 1;
            Fq::from(k * 7919 + 13)
        });
        let pr = quiet(|| prove::<NP>(sp, &src, pc, bp)).ok()?.ok()?;
        let p = pr.proof.verif_parts();
        Some((p.points.iter().chain(&p.T).chain(&p.L).chain(&p.R).filter(|x| !x.is_zero()).copied().collect(), p.scalars.iter().copied().chain([p.a, p.b]).collect()))
    };
    let (Some(a), Some(b)) = (run(), run()) else { return false };
    a.0.iter().any(|x| b.0.contains(x)) || a.1.iter().any(|x| b.1.contains(x))
}

// ---------------------------------------------------------------- paths and coins

/// Variables drawn since `c`, on one of the two fields.
fn drawn<F: SymBase>(c: usize) -> HashSet<u32> {
    let a = F::arena().lock().unwrap();
    let names: HashSet<String> = (c + 1..=a.rnd_count).map(|i| format!("rnd{}", i)).collect();
    a.vars.iter().filter(|v| names.contains(&v.name)).map(|v| v.node).collect()
}
fn count<F: SymBase>() -> usize {
    F::arena().lock().unwrap().rnd_count
}
/// Are the coefficients of these points on the blinding generator independent forms in the drawn values?
/// The names of the points of a dependent combination otherwise.
fn independent<C: SymCurve>(r: &mut Report, z: &mut Z3, pts: &[(String, Affine<C>)], bb: &Affine<C>, masks: &HashSet<u32>) -> Result<Option<String>, String>
where
    C::SB: SymBase,
{
    let (ab, _) = atom_of::<C>(&shadow_pt::<C>(bb), None);
    let mut nm = Norm::<C::SB>::new();
    let mut eq: BTreeMap<Mono, Poly<C::SB>> = BTreeMap::new();
    for (i, (_, p)) in pts.iter().enumerate() {
        for (a, s) in terms_of::<C>(p) {
            if a == ab {
                for (m, c) in nm.sym(&s).t.iter() {
                    if linear(m, masks) {
                        eq.entry(m.clone()).or_insert_with(Poly::zero).add_term(mono_pow(LAM + i as u32, 1), *c);
                    }
                }
            }
        }
    }
    let hyps: Vec<Poly<C::SB>> = eq.into_values().collect();
    let goals: Vec<Poly<C::SB>> = (0..pts.len()).map(|i| Poly::var(LAM + i as u32)).collect();
    let (v, bad) = lin_implies(z, &hyps, &goals);
    r.oblige(pts.len(), v);
    match v {
        Verdict::Unsat => {
            // vacuity: nothing is blinded without the draws
            if !goals.is_empty() {
                let (v, _) = lin_implies(z, &[], &goals);
                r.oblige(1, if v == Verdict::Sat { Verdict::Unsat } else { Verdict::Sat });
                r.vacuity_witnesses += 1;
            }
            Ok(None)
        }
        Verdict::Sat => Ok(Some(bad.iter().map(|i| pts[*i].0.clone()).collect::<Vec<_>>().join(", "))),
        _ => Err("z3 gives no answer on the blindings of the path".into()),
    }
}

fn path_points<const L: usize, const M: usize>(ct: &CurveTree<L, M, SymPallas, SymVesta>, batched: bool, idx: &[usize], pr: &SelRerandParameters<SymPallas, SymVesta>, seed: u64) -> Result<(SymPath, HashSet<u32>, HashSet<u32>), String> {
    use rand::SeedableRng;
    let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
    let mut ep = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(b"even"));
    let mut op = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(b"odd"));
    let (c, d) = (count::<Fq>(), count::<Fp>());
    let (p, _) = quiet(|| gadget_p::<L, M, SymPallas, SymVesta, _>(ct, batched, idx, pr, &mut ep, &mut op, &mut rng)).map_err(|e| format!("the prover panics: {}", e))?;
    Ok((p, drawn::<Fq>(c), drawn::<Fp>(d)))
}
/// On the real curves: a point, or a difference of two, that is the same in two runs.
fn native_path<const L: usize, const M: usize>(leaves: &[NP], want: Option<usize>, batched: bool, idx: &[usize]) -> Option<String> {
    use rand::SeedableRng;
    let pr = NPr::new(L * M, L * M);
    let ct = CurveTree::<L, M, NPallas, NVesta>::from_set(leaves, &pr, want);
    let run = |seed| -> Option<NatPath> {
        let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
        let mut ep = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(b"even"));
        let mut op = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(b"odd"));
        quiet(|| gadget_p::<L, M, NPallas, NVesta, _>(&ct, batched, idx, &pr, &mut ep, &mut op, &mut rng)).ok().map(|x| x.0)
    };
    let (a, b) = (run(11)?, run(12)?);
    fn same<C: ark_ec::short_weierstrass::SWCurveConfig>(a: &[Affine<C>], b: &[Affine<C>], what: &str) -> Option<String> {
        for i in 0..a.len() {
            if a[i] == b[i] {
                return Some(format!("{} point {} of the path is the same whatever is drawn", what, i));
            }
            for j in 0..i {
                if a[i].into_group() - a[j] == b[i].into_group() - b[j] {
                    return Some(format!("the difference of {} points {} and {} of the path is the same whatever is drawn", what, i, j));
                }
            }
        }
        None
    }
    let ev = |p: &NatPath| p.even.iter().chain(&p.sel).copied().collect::<Vec<_>>();
    same(&ev(&a), &ev(&b), "even").or_else(|| same(&a.odd, &b.odd, "odd"))
}
fn paths<const L: usize, const M: usize>(r: &mut Report, z: &mut Z3, batched: bool, n: usize, want: Option<usize>, idx: &[usize]) {
    if r.violated() {
        return;
    }
    r.cases += 1;
    let pr = SelRerandParameters::<SymPallas, SymVesta>::new(L * M, L * M);
    let leaves: Vec<PA> = (0..n).map(|i| sym_point::<SymPallas>(&format!("leaf{}", i))).collect();
    let key = format!("L={} M={}{}: {} leaves, leaf {:?}", L, M, if batched { " batched" } else { "" }, n, idx);
    let ct = match quiet(|| CurveTree::<L, M, SymPallas, SymVesta>::from_set(&leaves, &pr, want)) {
        Ok(c) => c,
        Err(e) => return r.inconclusive(format!("{}: {}", key, e)),
    };
    let res = (|| -> Result<Option<String>, String> {
        // two paths of the same leaves
        let (mut ev, mut od) = (vec![], vec![]);
        let (mut me, mut mo) = (HashSet::new(), HashSet::new());
        for k in 0..2 {
            let (p, e, o) = path_points::<L, M>(&ct, batched, idx, &pr, 70 + k)?;
            ev.extend(p.even.iter().enumerate().map(|(i, x)| (format!("path {} even {}", k, i), *x)));
            ev.extend(p.sel.iter().enumerate().map(|(i, x)| (format!("path {} leaf {}", k, i), *x)));
            od.extend(p.odd.iter().enumerate().map(|(i, x)| (format!("path {} odd {}", k, i), *x)));
            me.extend(e);
            mo.extend(o);
        }
        if let Some(w) = independent::<SymPallas>(r, z, &ev, &pr.even_parameters.pc_gens.B_blinding, &me)? {
            return Ok(Some(w));
        }
        independent::<SymVesta>(r, z, &od, &pr.odd_parameters.pc_gens.B_blinding, &mo)
    })();
    match res {
        Ok(None) => r.sample(key),
        Ok(Some(w)) => {
            r.replays += 1;
            let nat: Vec<NP> = leaves.iter().map(shadow_pt::<SymPallas>).collect();
            match native_path::<L, M>(&nat, want, batched, idx) {
                Some(e) => r.violation(&key, &format!("the blindings of {} are not independent draws; on the real curves: {}", w, e)),
                None => r.inconclusive(format!("{}: the blindings of {} are not independent draws (not reproduced)", key, w)),
            }
        }
        Err(e) => {
            r.oblige(1, Verdict::Sat);
            r.inconclusive(format!("{}: {}", key, e));
        }
    }
}

/// Everything a payment publishes: both paths and the minted coins; and coins made outside a payment.
fn payment(r: &mut Report, z: &mut Z3) {
    use crate::p21::*;
    use rand::SeedableRng;
    use relations::coin::*;
    if r.violated() {
        return;
    }
    r.cases += 1;
    let key = "payment, L=2, 2 leaves".to_string();
    let mut rng = rand::rngs::StdRng::seed_from_u64(5);
    let ks = keys(&mut rng, 4);
    let mut cap = 1024;
    let res = (|| -> Result<Option<String>, String> {
        loop {
            let pr = SelRerandParameters::<SymPallas, SymVesta>::new(cap, cap);
            let (c, d) = (count::<Fq>(), count::<Fp>());
            // the same key twice
            let coins: Vec<_> = (0..2).map(|_| Coin::<SymPallas, Sg>::new(9, &ks.pk[0], &ks.par, &pr.even_parameters, &mut rng)).collect();
            if coins[0].0.pk_randomness == coins[1].0.pk_randomness || coins[0].0.pk_randomness.is_zero() {
                return Ok(Some("the keys of two coins".into()));
            }
            let mut ev: Vec<(String, PA)> = coins.iter().enumerate().map(|(i, c)| (format!("coin {}", i), c.1)).collect();
            let set: Vec<PA> = ev.iter().map(|x| x.1).collect();
            let ct = CurveTree::<2, 1, SymPallas, SymVesta>::from_set(&set, &pr, None);
            let info: Vec<_> = coins
                .into_iter()
                .enumerate()
                .map(|(k, c)| SpendingInfo { index: k, randomized_pk: Coin::<SymPallas, Sg>::rerandomized_pk(&ks.pk[0], &c.0.pk_randomness, &ks.par), coin_aux: c.0, sk: ks.sk[0].clone() })
                .collect();
            let ep = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(DOM));
            let op = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(DOM));
            let (tx, mut log) = recorded(|| prove_pour(ep, op, &pr, &ct, &info[0], &info[1], 11, ks.pk[2], 7, ks.pk[3], &ks.par, &mut rng));
            match tx {
                Ok(_) => {}
                Err(e) if e.contains("InvalidGeneratorsLength") && cap < 1 << 14 => {
                    cap *= 2;
                    continue;
                }
                Err(e) => return Err(format!("the payer panics: {}", e)),
            }
            let (me, mo) = (drawn::<Fq>(c), drawn::<Fp>(d));
            // what the proofs commit to is what the payment publishes
            let (e, o) = (seen::<PA>(&mut log, true), seen::<crate::windows::Aff<SymVesta>>(&mut log, true));
            if e.len() != 1 || o.len() != 1 {
                return Err(format!("{} even and {} odd proofs are made", e.len(), o.len()));
            }
            let com = |x: &[(SQ, Vec<SQ>)]| -> Vec<PA> {
                x.iter().map(|(b, v)| lin_comb::<SymPallas>(&std::iter::once((pr.even_parameters.pc_gens.B_blinding, *b)).chain(pr.even_parameters.bp_gens.share(0).G(v.len()).copied().zip(v.iter().copied())).collect::<Vec<_>>())).collect()
            };
            // an even root is committed to without blinding: it is public
            let root_even = matches!(ct, CurveTree::Even(_));
            let mut skipped = 0;
            for (i, p) in com(&e[0].vec_open).into_iter().enumerate() {
                if root_even && e[0].vec_open[i].0.is_const() {
                    skipped += 1;
                    continue;
                }
                ev.push((format!("even commitment {} of the payment", i), p));
            }
            if skipped > 2 {
                return Ok(Some("the payment".into()));
            }
            let mut od = vec![];
            for (i, (b, v)) in o[0].vec_open.iter().enumerate() {
                if !root_even && b.is_const() {
                    continue;
                }
                let p = lin_comb::<SymVesta>(&std::iter::once((pr.odd_parameters.pc_gens.B_blinding, *b)).chain(pr.odd_parameters.bp_gens.share(0).G(v.len()).copied().zip(v.iter().copied())).collect::<Vec<_>>());
                od.push((format!("odd commitment {} of the payment", i), p));
            }
            if let Some(w) = independent::<SymPallas>(r, z, &ev, &pr.even_parameters.pc_gens.B_blinding, &me)? {
                return Ok(Some(w));
            }
            return independent::<SymVesta>(r, z, &od, &pr.odd_parameters.pc_gens.B_blinding, &mo);
        }
    })();
    match res {
        Ok(None) => r.sample(key),
        Ok(Some(w)) => {
            r.replays += 1;
            match native_coins() {
                Some(e) => r.violation(&key, &format!("the blindings of {} are not independent draws; on the real curves: {}", w, e)),
                None => r.inconclusive(format!("{}: the blindings of {} are not independent draws (not reproduced)", key, w)),
            }
        }
        Err(e) => {
            r.oblige(1, Verdict::Sat);
            r.inconclusive(format!("{}: {}", key, e));
        }
    }
}
fn native_coins() -> Option<String> {
    use crate::p21::*;
    use rand::SeedableRng;
    use relations::coin::*;
    let mut rng = rand::rngs::StdRng::seed_from_u64(5);
    let ks = keys(&mut rng, 4);
    let pr = NPr::new(8, 8);
    let bb = pr.even_parameters.pc_gens.B_blinding;
    let gs: Vec<NP> = pr.even_parameters.bp_gens.share(0).G(2).cloned().collect();
    let c: Vec<_> = (0..2).map(|_| Coin::<NPallas, Sg>::new(9, &ks.pk[0], &ks.par, &pr.even_parameters, &mut rng)).collect();
    if c[0].0.pk_randomness == c[1].0.pk_randomness || c[0].0.pk_randomness.is_zero() {
        return Some("two coins for the same key have the same randomized key".into());
    }
    let left = |i: usize| c[i].1.into_group() - gs[0] * Fq::from(9u64) - gs[1] * c[i].0.tag;
    if c.iter().any(|x| x.0.blinding.is_zero()) || left(0) == left(1) || left(0).is_zero() {
        return Some("two coins have the same blinding".into());
    }
    let _ = bb;
    // both values of a coin from the same draws?
    struct Flip {
        a: rand::rngs::StdRng,
        b: rand::rngs::StdRng,
        left: usize,
    }
    impl rand::RngCore for Flip {
        fn next_u32(&mut self) -> u32 {
            self.next_u64() as u32
        }
        fn next_u64(&mut self) -> u64 {
            let (x, y) = (self.a.next_u64(), self.b.next_u64());
            self.left = self.left.saturating_sub(1);
            if self.left > 0 {
                x
            } else {
                y
            }
        }
        fn fill_bytes(&mut self, d: &mut [u8]) {
            rand_core_fill(self, d)
        }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
            self.fill_bytes(d);
            Ok(())
        }
    }
    fn rand_core_fill(f: &mut Flip, d: &mut [u8]) {
        use rand::RngCore;
        for c in d.chunks_mut(8) {
            let x = f.next_u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    let coin = |left: usize| {
        let mut f = Flip { a: rand::rngs::StdRng::seed_from_u64(1), b: rand::rngs::StdRng::seed_from_u64(2), left };
        Coin::<NPallas, Sg>::new(9, &ks.pk[0], &ks.par, &pr.even_parameters, &mut f).0
    };
    let full = coin(usize::MAX);
    for left in 1..400 {
        let c = coin(left);
        match (c.pk_randomness == full.pk_randomness, c.blinding == full.blinding) {
            (false, false) => {}
            (true, true) => return Some("the blinding and the key randomness of a coin come from the same draws".into()),
            _ => break,
        }
    }
    // minted coins of a payment
    let (pr, _, tx, _, _) = honest_tx::<2>(2, None, [0, 1], [9, 9], [11, 7], 3).ok()?;
    let pour = Pour::<2, NPallas, NVesta, Sg>::deserialize_compressed(&tx.pour_bytes[..]).ok()?;
    let gs: Vec<NP> = pr.even_parameters.bp_gens.share(0).G(2).cloned().collect();
    let tags = |p: &Pour<2, NPallas, NVesta, Sg>| -> Vec<ark_pallas::Projective> { vec![p.minted_coin_commitment_0.into_group() - gs[0] * Fq::from(11u64), p.minted_coin_commitment_1.into_group() - gs[0] * Fq::from(7u64)] };
    let _ = tags(&pour);
    let p = &pour;
    if p.randomized_path_0.odd_commitments.iter().any(|x| p.randomized_path_1.odd_commitments.contains(x)) {
        return Some("both paths of a payment share points".into());
    }
    None
}

fn shapes(th: bool) -> Vec<Spec> {
    let s = |m, vecs: &[usize], g1, mul, c1, stride| Spec { m, vecs: vecs.to_vec(), g1, mul, c1, stride, ..Default::default() };
    let mut v = vec![
        s(0, &[], 1, 0, 1, 1),
        s(1, &[], 1, 0, 1, 1),
        s(2, &[], 2, 0, 1, 3),
        s(1, &[], 3, 0, 1, 3),
        s(0, &[1], 1, 0, 1, 1),
        s(1, &[2], 1, 0, 1, 2),
        s(0, &[1, 2], 2, 0, 1, 2),
        s(1, &[], 1, 1, 1, 2),
        Spec { phase2: true, g2: 1, c2: 1, ..s(1, &[], 1, 0, 1, 2) },
        Spec { phase2: true, g2: 2, c2: 1, ..s(1, &[], 1, 0, 1, 3) },
        Spec { phase2: true, g2: 0, c2: 1, ..s(1, &[1], 1, 0, 0, 1) },
    ];
    if th {
        v.push(s(1, &[], 5, 0, 1, 5));
        v.push(s(0, &[1, 1, 1], 1, 0, 1, 2));
        v.push(Spec { phase2: true, g2: 3, c2: 1, ..s(1, &[], 2, 0, 1, 5) });
    }
    v
}

pub fn run(r: &mut Report) {
    r.fns(&["Prover::{commit,commit_vec,prove,prove_and_return_transcript}", "InnerProductProof::create", "PedersenGens::commit"]);
    r.explanation = "The real prover runs with the witness, every value it draws and every challenge as symbols. Its points come out as formal combinations of the generators, its scalars as polynomials. z3 decides (1) that the coefficients on B_blinding of all published points are linearly independent forms in the drawn values, for all challenges, and (2) that every linear relation among the published points, scalars times generators and the vectors entering the inner product argument (coefficients: polynomials in the challenges x, z, u up to the stated degrees) in which all terms with drawn values cancel has no term in the witness left. (3) Two proofs of one statement use disjoint draws. (4) The real path provers (single, batched) and `prove_pour` run on trees of symbolic leaves: the coefficients on the blinding generator of all path points, selected leaves and coins, over two runs, are independent forms in the drawn values.".into();
    let mut z = Z3::new(120_000);
    let g = gens(32);
    let th = r.thorough();
    for (i, sp) in shapes(th).into_iter().enumerate() {
        if r.violated() {
            break;
        }
        r.cases += 1;
        if let Err(e) = one(r, &mut z, &sp, &g, i % 3 == 1) {
            r.oblige(1, Verdict::Sat);
            r.inconclusive(format!("{}: {}", sp.show(), e));
        }
    }
    paths::<2, 1>(r, &mut z, false, 2, None, &[1]);
    paths::<2, 1>(r, &mut z, false, 4, None, &[2]);
    paths::<2, 1>(r, &mut z, false, 9, None, &[8]);
    paths::<3, 2>(r, &mut z, false, 4, None, &[3]);
    paths::<2, 2>(r, &mut z, true, 4, None, &[1, 2]);
    paths::<2, 2>(r, &mut z, true, 5, None, &[4, 0]);
    paths::<3, 3>(r, &mut z, true, 3, Some(3), &[0, 0, 2]);
    if th {
        paths::<2, 1>(r, &mut z, false, 17, None, &[3]);
        paths::<4, 4>(r, &mut z, true, 17, None, &[0, 3, 16, 7]);
    }
    payment(r, &mut z);
    r.absorb(&z);
    r.bounds.push(format!("all witnesses, draws and challenges for {} circuit shapes: up to 4 (thorough 8) gates, 2 (3) vector commitments, both phases; relations with coefficients of degree at most 2k+3 in x (k vector commitments), 1 in z and u", r.cases));
    r.assume("the values drawn from the generator handed in are uniform and independent; the caller's blindings of V and of vector commitments are such draws");
    r.assume("the inner product argument is charged with revealing its input vectors (an upper bound of what it publishes)");
}
