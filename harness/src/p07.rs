//! P07: generators.
use crate::common::*;
use crate::explore::*;
use crate::sysrun::{get, memo_src, Src};
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use bulletproofs::r1cs::*;
use merlin::Transcript;
use relations::curve_tree::SelRerandParameters;
use relations::single_level_select_and_rerandomize::SingleLayerParameters;
use std::collections::{BTreeMap, HashMap};

/// All generators of a parameter set, by role.
fn roles<P: SWCurveConfig + Copy>(sl: &SingleLayerParameters<P>, cap: usize, parties: usize) -> Vec<(String, Affine<P>)> {
    let mut v = vec![("B".to_string(), sl.pc_gens.B), ("B~".into(), sl.pc_gens.B_blinding), ("Delta".into(), sl.delta)];
    let bp = BulletproofGens::<Affine<P>>::new(cap, parties);
    let (g, h) = bp.verif_aggregated(cap, parties);
    for p in 0..parties {
        for i in 0..cap {
            v.push((format!("G[{}][{}]", p, i), g[p * cap + i]));
            v.push((format!("H[{}][{}]", p, i), h[p * cap + i]));
        }
    }
    for (i, p) in sl.bp_gens.share(0).G(cap).enumerate() {
        v.push((format!("tree G[{}]", i), *p));
    }
    for (i, p) in sl.bp_gens.verif_h(cap).iter().enumerate() {
        v.push((format!("tree H[{}]", i), *p));
    }
    v
}
/// "tree X" is the same role as party 0's X.
fn role_of(n: &str) -> String {
    match n.strip_prefix("tree ") {
        Some(r) => r.replacen('[', "[0][", 1),
        None => n.to_string(),
    }
}

/// Ground part: every role has its own point, unrelated by small combinations, stable under growth.
fn ground<P: SWCurveConfig + Copy>(r: &mut Report, curve: &str, sl: &SingleLayerParameters<P>, cap: usize, parties: usize) {
    let list = roles(sl, cap, parties);
    let mut ids: HashMap<Affine<P>, usize> = HashMap::new();
    let mut tab: BTreeMap<String, usize> = BTreeMap::new();
    let mut id = |p: &Affine<P>| {
        let n = ids.len();
        *ids.entry(*p).or_insert(n)
    };
    // observations: (role, point id); a role seen twice must have one id
    let mut obs: Vec<(String, usize)> = vec![];
    for (n, p) in &list {
        obs.push((role_of(n), id(p)));
        if p.is_zero() || !p.is_on_curve() || !p.is_in_correct_subgroup_assuming_on_curve() {
            r.violation(&format!("{} {}", curve, n), "generator is not a proper group element");
        }
    }
    // growth histories
    let caps: Vec<Vec<usize>> = {
        let mut v: Vec<Vec<usize>> = (0..=cap).map(|c| vec![c]).collect();
        for a in 0..=6usize {
            for b in 0..=8usize {
                v.push(vec![a, b]);
                v.push(vec![a, b, (a + 2 * b) % 11]);
            }
        }
        v.push(vec![1, 2, 4, 8, 16, 32]);
        v.push(vec![5, cap, 7]);
        v
    };
    for h in &caps {
        for np in [1, parties] {
            let mut bp = BulletproofGens::<Affine<P>>::new(h[0], np);
            for c in &h[1..] {
                bp.increase_capacity(*c);
            }
            let want = *h.iter().max().unwrap();
            let n = bp.gens_capacity;
            if n != want || bp.party_capacity != np {
                r.oblige(1, Verdict::Sat);
                r.violation(&format!("{} capacity {:?}", curve, h), &format!("capacity {} parties {} reported for history {:?}, {} parties", n, bp.party_capacity, h, np));
                return;
            }
            if want == 0 {
                continue;
            }
            let (g, hh) = match quiet(|| bp.verif_aggregated(want, np)) {
                Ok(x) => x,
                Err(e) => {
                    r.oblige(1, Verdict::Sat);
                    r.violation(&format!("{} capacity {:?}", curve, h), &format!("panic: {}", e));
                    return;
                }
            };
            for p in 0..np {
                for i in 0..want {
                    obs.push((format!("G[{}][{}]", p, i), id(&g[p * want + i])));
                    obs.push((format!("H[{}][{}]", p, i), id(&hh[p * want + i])));
                }
            }
        }
    }
    obs.sort();
    obs.dedup();
    // solver: is there a role with two points, or a point with two roles?
    let mut rid: BTreeMap<&str, usize> = BTreeMap::new();
    for (n, _) in &obs {
        let k = rid.len();
        rid.entry(n).or_insert(k);
    }
    let mut z = Z3::new(60_000);
    z.raw("(declare-const r1 Int)(declare-const r2 Int)(declare-const p1 Int)(declare-const p2 Int)");
    for k in 1..3 {
        let alts: Vec<String> = obs.iter().map(|(n, p)| format!("(and (= r{k} {}) (= p{k} {p}))", rid[n.as_str()])).collect();
        z.raw(&format!("(assert (or {}))", alts.join(" ")));
    }
    z.raw("(assert (not (= (= r1 r2) (= p1 p2))))");
    let v = z.check();
    r.oblige(rid.len(), v);
    if v == Verdict::Sat {
        let m = z.values(&["r1".into(), "r2".into(), "p1".into(), "p2".into()]);
        let nm = |s: &str| rid.iter().find(|(_, i)| i.to_string() == s).map(|x| x.0.to_string()).unwrap_or_default();
        r.replays += 1;
        r.violation(&format!("{} generators", curve), &format!("{} and {} (points {} and {}): two roles share a generator or one role has two", nm(&m[0]), nm(&m[1]), m[2], m[3]));
        r.absorb(&z);
        return;
    }
    if v != Verdict::Unsat {
        r.inconclusive("generator table".into());
    }
    r.absorb(&z);
    for (n, p) in &obs {
        tab.insert(n.clone(), *p);
    }
    // no generator is a small multiple, a sum or a difference of others
    let pts: Vec<(String, Affine<P>)> = list.iter().filter(|(n, _)| !n.starts_with("tree")).cloned().collect();
    let set: HashMap<Affine<P>, usize> = pts.iter().enumerate().map(|(i, x)| (x.1, i)).collect();
    let mut cand: Vec<(String, ark_ec::short_weierstrass::Projective<P>)> = vec![];
    for (i, (n, p)) in pts.iter().enumerate() {
        let mut q: ark_ec::short_weierstrass::Projective<P> = (*p).into();
        cand.push((format!("-{}", n), -q));
        for k in 2..9 {
            q += p;
            cand.push((format!("{}*{}", k, n), q));
            cand.push((format!("-{}*{}", k, n), -q));
        }
        for (m, s) in pts.iter().skip(i + 1).take(if r.thorough() { 1000 } else { 40 }) {
            cand.push((format!("{}+{}", n, m), (*p + *s).into()));
            cand.push((format!("{}-{}", n, m), (*p - *s).into()));
        }
    }
    let aff = ark_ec::short_weierstrass::Projective::<P>::normalize_batch(&cand.iter().map(|x| x.1).collect::<Vec<_>>());
    for (c, a) in cand.iter().zip(aff) {
        if let Some(i) = set.get(&a).filter(|i| !c.0.split(['+', '-', '*']).any(|w| w == pts[**i].0)) {
            r.oblige(1, Verdict::Sat);
            r.violation(&format!("{} generators", curve), &format!("{} = {}", pts[*i].0, c.0));
            return;
        }
    }
    r.extra.push((format!("related_pairs_tried_{}", curve), cand.len().to_string()));
}

struct Coef<C: SymCurve>(BTreeMap<u32, Poly<C::SB>>);
fn coefs<C: SymCurve>(nm: &mut Norm<C::SB>, p: &Affine<C>) -> Coef<C> {
    Coef(terms_of(p).iter().map(|(a, s)| (*a, (*nm.sym(s)).clone())).collect())
}

/// Symbolic part: what each commitment function computes.
fn commits<C: SymCurve + Copy, D: SymCurve + Copy>(r: &mut Report, curve: &str, sl: &SingleLayerParameters<C>, cap: usize, th: bool)
where
    C: SWCurveConfig,
{
    let at = |p: &Affine<C>| {
        let (a, neg) = atom_of::<C>(&shadow_pt(p), None);
        assert!(!neg);
        a
    };
    let bpg = &sl.bp_gens;
    let b = at(&sl.pc_gens.B);
    let bb = at(&sl.pc_gens.B_blinding);
    let g: Vec<u32> = bpg.share(0).G(cap).map(at).collect();
    let dims: Vec<usize> = if th { (1..=16).collect() } else { vec![1, 2, 3, 5, 8] };
    for d in dims {
        for idx in 0..3usize {
            if d * (idx + 1) > cap {
                continue;
            }
            r.cases += 1;
            let what = format!("{} commitment of dimension {} with generator set {}", curve, d, idx);
            explore(r, &what, 20, |r, pins| {
                let src: Src<Sym<C::SB>> = memo_src(|n: &str| Sym::<C::SB>::fresh(n));
                let v: Vec<Sym<C::SB>> = (0..d).map(|i| get(&src, &format!("v{}", i))).collect();
                let bl = get(&src, "b");
                let mut tr = Transcript::new(b"g");
                let mut p = Prover::<_, Affine<C>>::new(&sl.pc_gens, &mut tr);
                let res = quiet(|| {
                    let tree = sl.commit(&v, bl, idx);
                    let vec = if idx == 0 { Some(p.commit_vec(&v, bl, bpg).0) } else { None };
                    let sc = p.commit(v[0], bl).0;
                    let pc = sl.pc_gens.commit(v[0], bl);
                    (tree, vec, sc, pc)
                });
                let (tree, vec, sc, pc) = match res {
                    Ok(x) => x,
                    Err(e) => {
                        r.oblige(1, Verdict::Sat);
                        r.violation(&what, &format!("panic: {} (pinned {:?})", e, pins));
                        return false;
                    }
                };
                let mut nm = Norm::<C::SB>::new();
                let vp: Vec<Poly<C::SB>> = v.iter().map(|s| (*nm.sym(s)).clone()).collect();
                let bp_ = (*nm.sym(&bl)).clone();
                let mut want: BTreeMap<u32, Poly<C::SB>> = Default::default();
                want.insert(bb, bp_.clone());
                for i in 0..d {
                    want.insert(g[d * idx + i], vp[i].clone());
                }
                let mut wsc: BTreeMap<u32, Poly<C::SB>> = Default::default();
                wsc.insert(bb, bp_);
                wsc.insert(b, vp[0].clone());
                let mut ok = true;
                for (nme, c, w) in [("tree commitment", Some(tree), &want), ("Prover::commit_vec", vec, &want), ("Prover::commit", Some(sc), &wsc), ("PedersenGens::commit", Some(pc), &wsc)] {
                    let Some(c) = c else { continue };
                    let got = coefs::<C>(&mut nm, &c).0;
                    let mut keys: Vec<u32> = got.keys().chain(w.keys()).copied().collect();
                    keys.sort();
                    keys.dedup();
                    let z0 = Poly::zero();
                    let pairs: Vec<_> = keys.iter().map(|k| (got.get(k).unwrap_or(&z0).clone(), w.get(k).unwrap_or(&z0).clone())).collect();
                    let mut z = Z3::new(60_000);
                    let (vd, bad) = identical(&mut z, &pairs);
                    r.oblige(pairs.len(), vd);
                    r.vacuity_witnesses += 1;
                    if vd == Verdict::Unsat && pins.is_empty() {
                        // binding: two openings with the same coefficients are the same opening
                        binding(r, &mut z, &got.values().cloned().collect::<Vec<_>>());
                    }
                    r.absorb(&z);
                    if vd != Verdict::Unsat {
                        ok = false;
                        r.replays += 1;
                        let f = native_commit::<C>(sl, d, idx, pins);
                        let msg = format!("{}: coefficient of {} is {} instead of {}", nme, atom_name::<C>(keys[bad[0]]), pairs[bad[0]].0.show(), pairs[bad[0]].1.show());
                        match f {
                            Some(e) => r.violation(&what, &format!("{}\nconcrete replay: {}", msg, e)),
                            None => r.inconclusive(msg),
                        }
                    }
                }
                ok
            });
        }
    }
}
/// linear map injectivity over the reals' monomials
fn binding<F: SymBase>(r: &mut Report, z: &mut Z3, rows: &[Poly<F>]) {
    let mut vars: Vec<u32> = rows.iter().flat_map(|p| p.vars()).collect();
    vars.sort();
    vars.dedup();
    z.push();
    for v in &vars {
        z.raw(&format!("(declare-const x{v} Real)(declare-const y{v} Real)"));
    }
    for p in rows {
        let lin = |c: char| {
            let t: Vec<String> = p.sorted().iter().map(|(m, k)| if m.is_empty() { lit(k) } else { format!("(* {} {}{})", lit(k), c, m[0].0) }).collect();
            format!("(+ 0 {})", t.join(" "))
        };
        z.raw(&format!("(assert (= {} {}))", lin('x'), lin('y')));
    }
    let ne: Vec<String> = vars.iter().map(|v| format!("(not (= x{v} y{v}))")).collect();
    z.raw(&format!("(assert (or false {}))", ne.join(" ")));
    let v = z.check();
    z.pop();
    r.oblige(1, v);
    if v != Verdict::Unsat {
        r.inconclusive("commitment not injective".into());
    }
}
/// The same commitments with concrete scalars through the lifted curve's shadows.
fn native_commit<C: SymCurve + Copy>(sl: &SingleLayerParameters<C>, d: usize, idx: usize, pins: &HashMap<String, L4>) -> Option<String> {
    let val = |n: String| match pins.get(&n) {
        Some(l) => C::SB::from_l4(l),
        None => rand_f::<C::SB>(),
    };
    let v: Vec<C::SB> = (0..d).map(|i| val(format!("v{}", i))).collect();
    let b = val("b".into());
    let lv: Vec<Sym<C::SB>> = v.iter().map(|x| Sym::cst(*x)).collect();
    let got = quiet(|| sl.commit(&lv, Sym::cst(b), idx)).map(|p| shadow_pt(&p));
    let g: Vec<CA<C>> = sl.bp_gens.share(0).G(d * (idx + 1)).skip(d * idx).map(|p| shadow_pt(p)).collect();
    let bb = shadow_pt(&sl.pc_gens.B_blinding);
    let mut w = bb * b;
    for i in 0..d {
        w += g[i] * v[i];
    }
    let w = w.into_affine();
    let mut out = vec![];
    if got != Ok(w) {
        out.push(format!("SingleLayerParameters::commit gives {:?} instead of {}", got, w));
    }
    let mut tr = Transcript::new(b"g");
    let mut p = Prover::<_, Affine<C>>::new(&sl.pc_gens, &mut tr);
    if idx == 0 {
        let c = quiet(|| p.commit_vec(&lv, Sym::cst(b), &sl.bp_gens).0).map(|p| shadow_pt(&p));
        if c != Ok(w) {
            out.push(format!("Prover::commit_vec gives {:?} instead of {}", c, w));
        }
    }
    let ws = (shadow_pt(&sl.pc_gens.B) * v[0] + bb * b).into_affine();
    let c = quiet(|| p.commit(lv[0], Sym::cst(b)).0).map(|p| shadow_pt(&p));
    let c2 = quiet(|| sl.pc_gens.commit(lv[0], Sym::cst(b))).map(|p| shadow_pt(&p));
    if c != Ok(ws) || c2 != Ok(ws) {
        out.push(format!("scalar commitment gives {:?} / {:?} instead of {}", c, c2, ws));
    }
    if out.is_empty() {
        None
    } else {
        Some(out.join("; "))
    }
}

/// The generators the verifier attaches to vector commitment coordinates, constants and blindings.
fn sides(r: &mut Report) {
    // a vector commitment opened through the verifier: equality of the public generators on both sides
    let n = 8;
    let lifted = SelRerandParameters::<SymPallas, SymVesta>::new(n, n);
    let native = SelRerandParameters::<ark_pallas::PallasConfig, ark_vesta::VestaConfig>::new(n, n);
    let (pc, bp) = native_gens(n);
    let a: Vec<NP> = bp.share(0).G(n).copied().chain([pc.B, pc.B_blinding]).collect();
    let e = &native.even_parameters;
    let b: Vec<NP> = e.bp_gens.share(0).G(n).copied().chain([e.pc_gens.B, e.pc_gens.B_blinding]).collect();
    let l = &lifted.even_parameters;
    let c: Vec<NP> = l.bp_gens.share(0).G(n).chain([&l.pc_gens.B, &l.pc_gens.B_blinding]).map(|p| shadow_pt(p)).collect();
    let ok = a == b && a == c && e.delta == shadow_pt(&l.delta);
    r.oblige(1, if ok { Verdict::Unsat } else { Verdict::Sat });
    if !ok {
        r.violation("parameter sets", "two parameter sets of the same size have different generators");
    }
}

pub fn run(r: &mut Report) {
    r.explanation = "Every commitment function is executed on symbolic values; the coefficient of each generator in the result is extracted and the solver shows that it is exactly the intended coordinate (or blinding) for all values, and that the opening is determined by the coefficients. The generators' own points are ground data: a table role -> point built from all capacity histories in the bound is handed to the solver, which looks for two roles with one point or one role with two.".into();
    r.fns(&["PedersenGens::{default,commit}", "BulletproofGens::{new,increase_capacity,share,G,H}", "BulletproofGensShare::{G,H}", "Prover::{commit,commit_vec}", "SingleLayerParameters::{new,commit}", "SelRerandParameters::new", "util::affine_from_bytes_tai"]);
    r.assume("hash-derived generators have no unknown discrete-log relation beyond the small ones tried");
    let th = r.thorough();
    let (cap, parties) = if th { (48, 5) } else { (24, 3) };
    let nat = SelRerandParameters::<ark_pallas::PallasConfig, ark_vesta::VestaConfig>::new(cap, cap);
    ground(r, "pallas", &nat.even_parameters, cap, parties);
    ground(r, "vesta", &nat.odd_parameters, cap, parties);
    sides(r);
    let lif = SelRerandParameters::<SymPallas, SymVesta>::new(cap, cap);
    if !r.violated() {
        commits::<SymPallas, SymVesta>(r, "pallas", &lif.even_parameters, cap, th);
        commits::<SymVesta, SymPallas>(r, "vesta", &lif.odd_parameters, cap, th);
    }
    r.bounds.push(format!("generator capacities up to {} and {} parties, about 190 growth histories; commitments of up to {} coordinates with 3 generator sets, all values symbolic", cap, parties, if th { 16 } else { 8 }));
    r.outside.push("capacities beyond the bound".into());
}
