//! P03: every challenge is derived from everything sent before it.  The real verifier runs on a proof whose elements are
//! all symbols; what each transcript message is an encoding of is recorded, and z3 decides that the messages before a
//! challenge determine every element that has to precede it.
use crate::common::*;
use crate::p02::{adversary, shape_of_honest, Adv};
use crate::sysrun::*;
use ark_serialize::CanonicalSerialize;
use bulletproofs::r1cs::*;
use merlin::{Event, Transcript};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::Ordering;

/// One thing encoded in a message.
#[derive(Clone)]
enum Item {
    Point(Terms<Fq>),
    Scalar(u32),
}
type Enc = HashMap<Vec<u8>, Vec<Item>>;

fn record<T>(f: impl FnOnce() -> T) -> (T, Enc) {
    SymPallas::ser_log().lock().unwrap().clear();
    SER_SCALARS.lock().unwrap().clear();
    SER_ON.store(true, Ordering::SeqCst);
    let t = f();
    SER_ON.store(false, Ordering::SeqCst);
    let mut e: Enc = HashMap::new();
    for (b, t) in SymPallas::ser_log().lock().unwrap().drain(..) {
        e.entry(b).or_default().push(Item::Point(t));
    }
    for (b, n) in SER_SCALARS.lock().unwrap().drain(..) {
        e.entry(b).or_default().push(Item::Scalar(n));
    }
    (t, e)
}
/// A message as a row of encodings; None when it is something else.
fn parse<'a>(m: &[u8], e: &'a Enc) -> Option<Vec<&'a Vec<Item>>> {
    let lens: std::collections::BTreeSet<usize> = e.keys().map(|k| k.len()).collect();
    let mut at = 0;
    let mut out = vec![];
    while at < m.len() {
        let hit = lens.iter().rev().filter(|l| at + **l <= m.len()).find_map(|l| e.get(&m[at..at + l]).map(|x| (*l, x)))?;
        at += hit.0;
        out.push(hit.1);
    }
    if out.is_empty() {
        None
    } else {
        Some(out)
    }
}

/// Differences of two assignments to the elements, one unknown per element.
struct Unknowns {
    atoms: BTreeMap<u32, SQ>,
    nodes: BTreeMap<u32, SQ>,
}
impl Unknowns {
    fn atom(&mut self, a: u32) -> SQ {
        *self.atoms.entry(a).or_insert_with(|| Sym::fresh(&format!("d_{}", atom_name::<SymPallas>(a))))
    }
    fn node(&mut self, n: u32) -> SQ {
        *self.nodes.entry(n).or_insert_with(|| Sym::fresh(&format!("d_{}", n)))
    }
}
/// "The two assignments agree on this item", as a linear equation; None when it has no such form.
fn agree(i: &Item, u: &mut Unknowns, nm: &mut Norm<Fq>) -> Option<Poly<Fq>> {
    let mut s = SQ::zero();
    match i {
        Item::Point(t) => {
            for (a, c) in t {
                if !c.is_const() {
                    return None;
                }
                s = s + u.atom(*a) * *c;
            }
        }
        Item::Scalar(n) => {
            let p = (*nm.sym(&SQ::from_node(*n))).clone();
            for (m, c) in p.sorted() {
                match &m[..] {
                    [] => {}
                    [(v, 1)] => s = s + u.node(*v) * SQ::cst(c),
                    _ => return None,
                }
            }
        }
    }
    Some((*nm.sym(&s)).clone())
}

/// The challenges an expression depends on.
fn challenges_in(roots: &[u32], chal: &HashMap<u32, usize>) -> HashSet<usize> {
    let a = Fq::arena().lock().unwrap();
    let mut seen = HashSet::new();
    let mut out = HashSet::new();
    let mut work = roots.to_vec();
    while let Some(n) = work.pop() {
        if !seen.insert(n) {
            continue;
        }
        if let Some(i) = chal.get(&n) {
            out.insert(*i);
            continue;
        }
        match a.nodes.get(n as usize) {
            Some(Node::Add(x, y)) | Some(Node::Mul(x, y)) => work.extend([*x, *y]),
            Some(Node::Neg(x)) | Some(Node::Inv(x)) => work.push(*x),
            _ => {}
        }
    }
    out
}
fn nodes_of(p: &PA) -> Vec<u32> {
    terms_of::<SymPallas>(p).iter().map(|t| t.1.node()).collect()
}

/// Elements that are sent together.
fn groups(q: &VerifProofParts<PA>) -> Vec<(Vec<String>, Vec<u32>)> {
    let mut g = vec![];
    let pts = |v: &[(String, PA)]| -> (Vec<String>, Vec<u32>) { (v.iter().map(|x| x.0.clone()).collect(), v.iter().flat_map(|x| nodes_of(&x.1)).collect()) };
    g.push(pts(&q.T.iter().enumerate().map(|(i, p)| (format!("T{}", i), *p)).collect::<Vec<_>>()));
    for k in 0..q.L.len().min(q.R.len()) {
        g.push(pts(&[(format!("L{}", k), q.L[k]), (format!("R{}", k), q.R[k])]));
    }
    g.push((vec!["t_x".into(), "t_x_blinding".into(), "e_blinding".into()], q.scalars.iter().map(|s| s.node()).collect()));
    g
}

fn masked(log: &[Event], e: &Enc) -> Vec<String> {
    log.iter()
        .map(|x| match x {
            Event::Msg(l, b) => match parse(b, e) {
                Some(v) => format!("{}:{}", String::from_utf8_lossy(l), v.iter().map(|i| if matches!(i[0], Item::Point(_)) { "P" } else { "S" }).collect::<String>()),
                None => format!("{}={:?}", String::from_utf8_lossy(l), b),
            },
            Event::Chal(l, _) => format!("?{}", String::from_utf8_lossy(l)),
        })
        .collect()
}

/// What has to be absorbed before the i-th challenge: element names.
struct Plan {
    before: Vec<(String, usize)>,
    labels: Vec<String>,
}
fn plan(sp: &Spec, g: &Gens) -> Result<(Plan, Vec<Event>, Vec<Event>, Enc, Enc), String> {
    let src = crate::p01::sym_src();
    CHALLENGES.lock().unwrap().clear();
    let (pr, pe) = record(|| quiet(|| prove::<PA>(sp, &src, &g.pc, &g.bp)));
    let pr = pr.map_err(|e| format!("the prover panics: {}", e))?.map_err(|e| format!("the prover fails: {:?}", e))?;
    let ch: Vec<(String, u32, usize)> = std::mem::take(&mut *CHALLENGES.lock().unwrap());
    let plog = pr.transcript.log.clone();
    in_order(&ch, &plog)?;
    let idx: HashMap<u32, usize> = ch.iter().enumerate().map(|(i, c)| (c.1, i)).collect();
    let q = pr.proof.verif_parts();
    let mut before: Vec<(String, usize)> = vec![];
    let caller = ch.iter().take_while(|c| c.0.contains("chi")).count();
    for j in 0..sp.m {
        before.push((format!("V{}", j), 0));
    }
    for j in 0..sp.vecs.len() {
        before.push((format!("C{}", j), 0));
    }
    for n in ["A_I1", "A_O1", "S1"] {
        before.push((n.into(), 0));
    }
    // the second phase may use the caller's challenges
    for n in ["A_I2", "A_O2", "S2"] {
        before.push((n.into(), caller));
    }
    for (names, roots) in groups(&q) {
        let last = challenges_in(&roots, &idx).into_iter().max().map(|i| i + 1).unwrap_or(0);
        for n in names {
            before.push((n, last));
        }
    }
    // the verifier on the honest proof
    CHALLENGES.lock().unwrap().clear();
    let mut tr = Transcript::new(b"sys");
    let (v, ve) = record(|| {
        let vf = verifier::<PA>(sp, &src, &pr.ks, &pr.v, &pr.vc, &mut tr);
        quiet(|| vf.verify(&pr.proof, &g.pc, &g.bp))
    });
    let _ = v;
    let labels = ch.iter().map(|c| c.0.clone()).collect();
    Ok((Plan { before, labels }, plog, tr.log.clone(), pe, ve))
}
/// All challenges come from this transcript.
fn in_order(ch: &[(String, u32, usize)], log: &[Event]) -> Result<(), String> {
    let n = log.iter().filter(|e| matches!(e, Event::Chal(..))).count();
    if n != ch.len() {
        return Err(format!("{} challenges are used, the transcript yields {}", ch.len(), n));
    }
    for c in ch {
        match log.get(c.2) {
            Some(Event::Chal(l, _)) if String::from_utf8_lossy(l) == c.0 => {}
            _ => return Err(format!("challenge {} does not come from the transcript", c.0)),
        }
    }
    Ok(())
}

enum Out {
    Fine,
    /// element, index of the challenge, what
    Free(String, usize, String),
    Other(String),
}

fn one(r: &mut Report, z: &mut Z3, sp: &Spec, g: &Gens) -> Result<Out, String> {
    let (pl, plog, vlog, pe, ve) = plan(sp, g)?;
    // prover and verifier absorb the same: same messages, encodings of the same things for all values
    if plog != vlog {
        let at = (0..plog.len().max(vlog.len())).find(|i| plog.get(*i) != vlog.get(*i)).unwrap();
        let f = |l: &[Event], e: &Enc| masked(l, e).get(at).cloned().unwrap_or("nothing".into());
        return Ok(Out::Other(format!("prover and verifier transcripts differ at entry {}: {} and {}", at, f(&plog, &pe), f(&vlog, &ve))));
    }
    let mut nm = Norm::<Fq>::new();
    let mut rows: Vec<(Poly<Fq>, Poly<Fq>)> = vec![];
    for e in &plog {
        let Event::Msg(_, b) = e else { continue };
        let (Some(x), Some(y)) = (parse(b, &pe), parse(b, &ve)) else { continue };
        for (i, j) in x.iter().zip(&y) {
            for (i, j) in i.iter().flat_map(|i| j.iter().map(move |j| (i, j))) {
                match (i, j) {
                    (Item::Scalar(a), Item::Scalar(b)) => rows.push(((*nm.sym(&SQ::from_node(*a))).clone(), (*nm.sym(&SQ::from_node(*b))).clone())),
                    (Item::Point(a), Item::Point(b)) => {
                        for t in a.iter().chain(b).map(|t| t.0).collect::<std::collections::BTreeSet<_>>() {
                            rows.push((terms_poly(&mut nm, a, t), terms_poly(&mut nm, b, t)));
                        }
                    }
                    _ => return Ok(Out::Other("a point and a scalar have the same encoding".into())),
                }
            }
        }
    }
    let (v, bad) = identical(z, &rows);
    r.oblige(rows.len(), v);
    if v != Verdict::Unsat {
        return Ok(Out::Other(format!("prover and verifier absorb different values: {:?}", bad)));
    }
    // every element a symbol
    let (tlen, tid, id6, lg) = shape_of_honest(sp)?;
    let adv = adversary(sp, &id6, tlen, &tid, lg);
    let proof = R1CSProof::verif_from_parts(adv.parts.clone());
    CHALLENGES.lock().unwrap().clear();
    let mut tr = Transcript::new(b"sys");
    tr.append_message(b"caller", b"context");
    let prefix = tr.log.clone();
    let (t, enc) = record(|| {
        let vf = verifier::<PA>(sp, &adv.src, &adv.ks, &adv.v, &adv.c, &mut tr);
        quiet(|| vf.verification_scalars_and_points(&proof).map(|_| ()))
    });
    match t {
        Ok(Ok(())) => {}
        e => return Err(format!("a proof of the right shape is not looked at: {:?}", e)),
    }
    let ch: Vec<(String, u32, usize)> = std::mem::take(&mut *CHALLENGES.lock().unwrap());
    let log = tr.log.clone();
    if log.len() < prefix.len() || log[..prefix.len()] != prefix[..] {
        return Ok(Out::Other("the caller's part of the transcript is lost".into()));
    }
    if let Err(e) = in_order(&ch, &log) {
        return Ok(Out::Other(e));
    }
    let labels: Vec<String> = ch.iter().map(|c| c.0.clone()).collect();
    if labels != pl.labels {
        return Ok(Out::Other(format!("challenges {:?} of the prover and {:?} of the verifier", pl.labels, labels)));
    }
    let elems = elements(&adv);
    let mut u = Unknowns { atoms: BTreeMap::new(), nodes: BTreeMap::new() };
    let mut nm = Norm::<Fq>::new();
    let mut hyps: Vec<Poly<Fq>> = vec![];
    let mut at = 0;
    let mut asked = 0;
    for (k, c) in ch.iter().enumerate() {
        while at < c.2 {
            if let Event::Msg(_, b) = &log[at] {
                if let Some(row) = parse(b, &enc) {
                    for alts in row {
                        // several things with this encoding: they are one and the same when every pair agrees
                        let ps: Vec<_> = alts.iter().map(|i| agree(i, &mut u, &mut nm)).collect();
                        if let Some(Some(p)) = ps.first() {
                            if ps.iter().all(|q| q.as_ref().map(|q| q.sub(p).is_zero()).unwrap_or(false)) {
                                hyps.push(p.clone());
                            }
                        }
                    }
                }
            }
            at += 1;
        }
        for (n, _) in pl.before.iter().filter(|b| b.1 == k) {
            let Some(e) = elems.iter().find(|e| e.0 == *n) else { continue };
            let goal = match &e.1 {
                El::P(p) => {
                    let t = terms_of::<SymPallas>(p);
                    if t.is_empty() {
                        continue;
                    }
                    (*nm.sym(&u.atom(t[0].0))).clone()
                }
                El::S(s) => (*nm.sym(&u.node(s.id))).clone(),
            };
            let (v, _) = lin_implies(z, &hyps, &[goal]);
            r.oblige(1, v);
            asked += 1;
            match v {
                Verdict::Unsat => {}
                Verdict::Sat => return Ok(Out::Free(n.clone(), k, format!("{} is not determined by the transcript when challenge {} ({}) is drawn", n, k, c.0))),
                _ => return Err(format!("z3 gives no answer on {}", n)),
            }
        }
    }
    // vacuity: nothing is determined by nothing, and the last message is not implied by the others
    if asked > 0 && hyps.len() > 1 {
        let (v, _) = lin_implies(z, &hyps[..hyps.len() - 1], &hyps[hyps.len() - 1..]);
        r.oblige(1, if v == Verdict::Sat { Verdict::Unsat } else { Verdict::Sat });
        if v != Verdict::Sat {
            return Err("the transcript determines its last message".into());
        }
        r.vacuity_witnesses += 1;
    }
    for (n, k) in &pl.before {
        if *k >= ch.len() && elems.iter().any(|e| e.0 == *n) {
            return Ok(Out::Free(n.clone(), ch.len().saturating_sub(1), format!("no challenge is drawn after {}", n)));
        }
    }
    Ok(Out::Fine)
}

enum El {
    P(PA),
    S(SQ),
}
fn elements(adv: &Adv) -> Vec<(String, El)> {
    let p = &adv.parts;
    (0..6)
        .map(|i| (["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2"][i].to_string(), El::P(p.points[i])))
        .chain(p.T.iter().enumerate().map(|(i, x)| (format!("T{}", i), El::P(*x))))
        .chain(p.L.iter().enumerate().map(|(i, x)| (format!("L{}", i), El::P(*x))))
        .chain(p.R.iter().enumerate().map(|(i, x)| (format!("R{}", i), El::P(*x))))
        .chain(adv.v.iter().enumerate().map(|(i, x)| (format!("V{}", i), El::P(*x))))
        .chain(adv.c.iter().enumerate().map(|(i, x)| (format!("C{}", i), El::P(*x))))
        .chain(["t_x", "t_x_blinding", "e_blinding"].iter().enumerate().map(|(i, n)| (n.to_string(), El::S(p.scalars[i]))))
        .filter(|x| !matches!(&x.1, El::P(p) if p.is_zero()))
        .collect()
}

// ---------------------------------------------------------------- on the real curve

struct Nat {
    src: Src<Fq>,
    pr: Proved<NP>,
}
fn native(sp: &Spec) -> Result<Nat, String> {
    let mut k = 0u64;
    let src = memo_src(move |_| {
        k += 1;
        Fq::from(k * 7919 + 13)
    });
    let (pc, bp) = native_gens(sp.padded());
    let pr = quiet(|| prove::<NP>(sp, &src, pc, bp))?.map_err(|e| format!("{:?}", e))?;
    Ok(Nat { src, pr })
}
/// The challenges the real verifier draws.
fn drawn(sp: &Spec, n: &Nat, parts: &VerifProofParts<NP>, v: &[NP], vc: &[NP], ctx: &[u8]) -> Vec<Vec<u8>> {
    let (pc, bp) = native_gens(sp.padded());
    let mut tr = Transcript::new(b"sys");
    tr.append_message(b"caller", ctx);
    let vf = verifier::<NP>(sp, &n.src, &n.pr.ks, v, vc, &mut tr);
    let _ = quiet(|| vf.verify(&R1CSProof::<NP>::verif_from_parts(parts.clone()), pc, bp));
    tr.log.iter().filter_map(|e| if let Event::Chal(_, b) = e { Some(b.clone()) } else { None }).collect()
}
/// Replace the element (and possibly a second one to make up for it): does the challenge stay the same?
fn keeps(sp: &Spec, name: &str, k: usize) -> Option<String> {
    let n = native(sp).ok()?;
    let base = n.pr.proof.verif_parts();
    let honest = drawn(sp, &n, &base, &n.pr.v, &n.pr.vc, b"ctx");
    let q: NP = (ark_pallas::Projective::generator() * Fq::from(4242u64)).into_affine();
    type St = (VerifProofParts<NP>, Vec<NP>, Vec<NP>);
    fn point<'a>(s: &'a mut St, n: &str) -> Option<&'a mut NP> {
        let ix = ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2"].iter().position(|x| *x == n);
        if let Some(i) = ix {
            return s.0.points.get_mut(i);
        }
        let i: usize = n.get(1..)?.parse().ok()?;
        match &n[..1] {
            "T" => s.0.T.get_mut(i),
            "L" => s.0.L.get_mut(i),
            "R" => s.0.R.get_mut(i),
            "V" => s.1.get_mut(i),
            "C" => s.2.get_mut(i),
            _ => None,
        }
    }
    fn scalar<'a>(s: &'a mut St, n: &str) -> Option<&'a mut Fq> {
        let i = ["t_x", "t_x_blinding", "e_blinding"].iter().position(|x| *x == n)?;
        s.0.scalars.get_mut(i)
    }
    let start: St = (base.clone(), n.pr.v.clone(), n.pr.vc.clone());
    let mut tries: Vec<(String, St)> = vec![];
    let mut names: Vec<String> = ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2"].iter().map(|s| s.to_string()).collect();
    for (p, l) in [("T", base.T.len()), ("L", base.L.len()), ("R", base.R.len()), ("V", n.pr.v.len()), ("C", n.pr.vc.len())] {
        names.extend((0..l).map(|i| format!("{}{}", p, i)));
    }
    let mut s = start.clone();
    if let Some(p) = point(&mut s, name) {
        *p = q;
        tries.push((format!("{} is replaced", name), s.clone()));
        let mut s = start.clone();
        let p = point(&mut s, name)?;
        *p = -*p;
        tries.push((format!("{} is negated", name), s));
        for o in &names {
            for sign in [false, true] {
                let mut s = start.clone();
                let p = point(&mut s, name)?;
                *p = (*p + q).into_affine();
                if o == name {
                    continue;
                }
                if let Some(p) = point(&mut s, o) {
                    if !p.is_zero() {
                        *p = if sign { (*p + q).into_affine() } else { (*p - q).into_affine() };
                        tries.push((format!("{} and {} are shifted", name, o), s));
                    }
                }
            }
        }
    }
    for d in [1u128, 1 << 64, 1 << 127] {
        let mut s = start.clone();
        if let Some(x) = scalar(&mut s, name) {
            *x += Fq::from(d);
            tries.push((format!("{} is increased by {}", name, d), s));
            for o in ["t_x", "t_x_blinding", "e_blinding"] {
                let mut s = start.clone();
                *scalar(&mut s, name)? += Fq::from(d);
                if o != name {
                    *scalar(&mut s, o)? -= Fq::from(d);
                    tries.push((format!("{} and {} are shifted", name, o), s));
                }
            }
        }
    }
    for (w, s) in tries {
        let d = drawn(sp, &n, &s.0, &s.1, &s.2, b"ctx");
        if d.get(k).is_some() && d.get(k) == honest.get(k) {
            return Some(format!("challenge {} stays the same when {}", k, w));
        }
        if honest.len() <= k {
            return Some(format!("the verifier draws {} challenges only", honest.len()));
        }
    }
    None
}
/// Reasons not tied to one element.
fn general(sp: &Spec) -> Option<String> {
    let n = match native(sp) {
        Ok(n) => n,
        Err(e) => return Some(format!("the prover fails: {}", e)),
    };
    let base = n.pr.proof.verif_parts();
    let (pc, bp) = native_gens(sp.padded());
    let mut tr = Transcript::new(b"sys");
    let vf = verifier::<NP>(sp, &n.src, &n.pr.ks, &n.pr.v, &n.pr.vc, &mut tr);
    let ok = quiet(|| vf.verify(&n.pr.proof, pc, bp));
    if !matches!(ok, Ok(Ok(()))) {
        return Some(format!("an honest proof is refused ({:?})", ok));
    }
    if tr.log != n.pr.transcript.log {
        return Some("prover and verifier are left with different transcripts".into());
    }
    let a = drawn(sp, &n, &base, &n.pr.v, &n.pr.vc, b"ctx");
    let b = drawn(sp, &n, &base, &n.pr.v, &n.pr.vc, b"ctx2");
    if let Some(i) = a.iter().zip(&b).position(|(x, y)| x == y) {
        return Some(format!("challenge {} does not depend on what the caller appended", i));
    }
    for e in elements_native(&base, &n) {
        // the last challenge depends on everything
        if let Some(x) = keeps(sp, &e, a.len().saturating_sub(1)) {
            return Some(x);
        }
    }
    None
}
fn elements_native(p: &VerifProofParts<NP>, n: &Nat) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for (i, x) in ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2"].iter().enumerate() {
        if !p.points[i].is_zero() {
            v.push(x.to_string());
        }
    }
    v.extend((0..p.T.len()).filter(|i| !p.T[*i].is_zero()).map(|i| format!("T{}", i)));
    v.extend((0..n.pr.v.len()).map(|i| format!("V{}", i)));
    v.extend((0..n.pr.vc.len()).map(|i| format!("C{}", i)));
    v.extend(["t_x", "t_x_blinding", "e_blinding"].iter().map(|s| s.to_string()));
    v
}

// ---------------------------------------------------------------- markers

/// Messages up to the first challenge of the proof system, and up to the first one of the inner product argument, for all
/// element values.
fn markers(sp: &Spec) -> Result<(Vec<String>, Vec<String>), String> {
    let (tlen, tid, id6, lg) = shape_of_honest(sp)?;
    let adv = adversary(sp, &id6, tlen, &tid, lg);
    let proof = R1CSProof::verif_from_parts(adv.parts.clone());
    let mut tr = Transcript::new(b"sys");
    let (t, enc) = record(|| {
        let vf = verifier::<PA>(sp, &adv.src, &adv.ks, &adv.v, &adv.c, &mut tr);
        quiet(|| vf.verification_scalars_and_points(&proof).map(|_| ()))
    });
    match t {
        Ok(Ok(())) => {}
        e => return Err(format!("a proof of the right shape is not looked at: {:?}", e)),
    }
    let m = masked(&tr.log, &enc);
    let first = tr.log.iter().position(|e| matches!(e, Event::Chal(l, _) if *l != b"chi")).unwrap_or(m.len());
    // the first challenge after the last scalar message and its own challenge
    let lastp = m.iter().rposition(|x| x.contains(":S")).unwrap_or(0);
    let second = (lastp..m.len()).filter(|i| m[*i].starts_with('?')).nth(1).unwrap_or(m.len());
    // drawing a challenge is no marker
    let msgs = |m: &[String]| m.iter().filter(|x| !x.starts_with('?')).cloned().collect();
    Ok((msgs(&m[..first]), msgs(&m[..second])))
}
fn native_markers(sp: &Spec, upto: bool) -> Result<Vec<String>, String> {
    let n = native(sp)?;
    let (pc, bp) = native_gens(sp.padded());
    let mut tr = Transcript::new(b"sys");
    let vf = verifier::<NP>(sp, &n.src, &n.pr.ks, &n.pr.v, &n.pr.vc, &mut tr);
    let _ = quiet(|| vf.verify(&n.pr.proof, pc, bp));
    let mut el: Vec<Vec<u8>> = vec![];
    let p = n.pr.proof.verif_parts();
    for x in p.points.iter().chain(&p.T).chain(&p.L).chain(&p.R).chain(&n.pr.v).chain(&n.pr.vc) {
        for c in [true, false] {
            let mut b = vec![];
            if c {
                x.serialize_compressed(&mut b).unwrap();
            } else {
                x.serialize_uncompressed(&mut b).unwrap();
            }
            el.push(b);
        }
    }
    for x in &p.scalars {
        let mut b = vec![];
        x.serialize_compressed(&mut b).unwrap();
        el.push(b);
    }
    let all: Vec<String> = tr
        .log
        .iter()
        .map(|e| match e {
            Event::Msg(l, b) => format!("{}={}", String::from_utf8_lossy(l), if el.contains(b) { "element".to_string() } else { format!("{:?}", b) }),
            Event::Chal(l, _) => format!("?{}", String::from_utf8_lossy(l)),
        })
        .collect();
    let first = tr.log.iter().position(|e| matches!(e, Event::Chal(l, _) if *l != b"chi")).unwrap_or(all.len());
    let out = if upto { all } else { all[..first].to_vec() };
    Ok(out.into_iter().filter(|x| !x.starts_with('?')).collect())
}

fn shapes(th: bool) -> Vec<Spec> {
    let s = |m, vecs: &[usize], g1, mul, c1, stride| Spec { m, vecs: vecs.to_vec(), g1, mul, c1, stride, ..Default::default() };
    let mut v = vec![
        s(1, &[], 1, 0, 1, 1),
        s(2, &[], 3, 0, 2, 3),
        s(0, &[2], 1, 0, 1, 1),
        s(1, &[3, 1], 1, 0, 2, 2),
        s(1, &[2, 2, 2], 2, 0, 2, 3),
        s(1, &[1, 1, 1, 1, 1, 1], 1, 0, 2, 3),
        s(2, &[], 4, 1, 2, 2),
        Spec { vec_first: true, ..s(2, &[2], 1, 0, 1, 2) },
        Spec { phase2: true, g2: 1, c2: 1, ..s(1, &[], 1, 0, 1, 1) },
        Spec { phase2: true, g2: 3, c2: 2, ..s(2, &[], 2, 0, 1, 2) },
        Spec { phase2: true, g2: 0, c2: 1, ..s(1, &[2], 1, 0, 1, 2) },
    ];
    if th {
        v.push(s(3, &[4], 9, 2, 3, 5));
        v.push(s(1, &[], 16, 0, 1, 7));
        v.push(s(0, &[1; 9], 1, 0, 2, 3));
        v.push(Spec { phase2: true, g2: 9, c2: 2, ..s(2, &[], 8, 0, 1, 7) });
    }
    v
}

pub fn run(r: &mut Report) {
    r.fns(&[
        "bulletproofs::transcript::TranscriptProtocol (all)",
        "Verifier::{new,commit,commit_vec,verification_scalars_and_points,create_randomized_constraints}",
        "Prover::{new,commit,commit_vec,prove}",
        "InnerProductProof::{create,verification_scalars}",
    ]);
    r.explanation = "The real verifier runs on proofs whose commitments, points and scalars are all symbols; for each transcript message the formal value it encodes is recorded. For each challenge z3 decides that two runs with the same messages before it agree on every element that has to precede it (the messages' linear equations entail equality of the element). What has to precede a challenge is read off the honest prover's formal elements: an element not depending on a challenge, nor on a later one, must be determined before it. Prover and verifier transcripts are compared entry by entry, with the encoded values identical for all values. Challenges must come from the caller's transcript, and the messages of systems that differ in the number of commitments, phase or size must differ.".into();
    let mut z = Z3::new(60_000);
    let g = gens(32);
    let th = r.thorough();
    for sp in shapes(th) {
        if r.violated() {
            break;
        }
        r.cases += 1;
        let key = sp.show();
        match one(r, &mut z, &sp, &g) {
            Ok(Out::Fine) => r.sample(key),
            Ok(Out::Free(n, k, what)) => {
                r.replays += 1;
                match keeps(&sp, &n, k).or_else(|| general(&sp)) {
                    Some(e) => r.violation(&format!("{} / {}", key, n), &format!("{}; on the real curve: {}", what, e)),
                    None => r.inconclusive(format!("{}: {} (not reproduced)", key, what)),
                }
            }
            Ok(Out::Other(what)) | Err(what) => {
                r.oblige(1, Verdict::Sat);
                r.replays += 1;
                match general(&sp) {
                    Some(e) => r.violation(&key, &format!("{}; on the real curve: {}", what, e)),
                    None => r.inconclusive(format!("{}: {} (not reproduced)", key, what)),
                }
            }
        }
    }
    // markers
    let s = |m, vecs: &[usize], g1| Spec { m, vecs: vecs.to_vec(), g1, c1: 1, stride: 1, ..Default::default() };
    let p2 = |sp: Spec| Spec { phase2: true, g2: 0, c2: 1, ..sp };
    let mut fam: Vec<Spec> = vec![];
    for m in 0..4 {
        for v in 0..3 {
            for g1 in [1, 3] {
                fam.push(s(m, &vec![1; v], g1));
            }
        }
        fam.push(p2(s(m, &[], 1)));
    }
    fam.push(s(1, &[], 5));
    if th {
        for m in [255, 256, 257] {
            fam.push(s(m, &[], 1));
        }
    }
    let mut got = vec![];
    for sp in &fam {
        if r.violated() {
            break;
        }
        match markers(sp) {
            Ok(m) => got.push((sp, m)),
            Err(e) => r.inconclusive(format!("{}: {}", sp.show(), e)),
        }
    }
    for i in 0..got.len() {
        for j in 0..i {
            let (a, b) = (&got[i], &got[j]);
            let early = a.0.m != b.0.m || a.0.phase2 != b.0.phase2;
            let late = a.0.padded() != b.0.padded();
            let bad = (early && a.1 .0 == b.1 .0) || (late && a.1 .1 == b.1 .1);
            r.oblige((early || late) as usize, if bad { Verdict::Sat } else { Verdict::Unsat });
            if bad && !r.violated() {
                r.replays += 1;
                let key = format!("{} / {}", a.0.show(), b.0.show());
                let what = if early { "the number of commitments or the phase is not in the transcript before the first challenge" } else { "the size is not in the transcript" };
                match (native_markers(a.0, !early), native_markers(b.0, !early)) {
                    (Ok(x), Ok(y)) if x == y || !early => r.violation(&key, &format!("{}; messages on the real curve: {:?}", what, x)),
                    o => r.inconclusive(format!("{}: {} ({:?})", key, what, o)),
                }
            }
        }
    }
    // vacuity: some message differs between systems of the same kind only in its elements
    r.absorb(&z);
    r.bounds.push(format!("all values of commitments and proof elements for {} circuit shapes, markers over {} shapes: up to 16 gates, 6 (thorough 9) vector commitments, both phases", r.cases, fam.len()));
    r.assume("Merlin frames labels, lengths and data injectively and hashes them into challenges (STROBE as a random oracle)");
    r.assume("the encodings of points and scalars are injective");
}
