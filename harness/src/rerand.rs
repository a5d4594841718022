//! A gadget that ends in the re-randomization of a point: honest runs on formal points, then soundness of every
//! window, of the additions around the chain and of what the gadget says about its points.
use crate::common::*;
use crate::gadget::*;
use crate::windows::*;
use num_bigint::BigUint;
use relations::lookup::*;
use std::collections::{BTreeMap, HashMap, HashSet};

pub type G<C> = GCS<<C as SymCurve>::BB>;
pub type Pt<C> = [Poly<<C as SymCurve>::BB>; 2];

/// One honest run.
pub struct Honest<C: SymCurve> {
    pub cs: G<C>,
    /// additions made besides those of the chain: left + right = out
    pub adds: Vec<[Aff<C>; 3]>,
    pub on_curve: Vec<Aff<C>>,
    /// left + R_m = out
    pub left: Aff<C>,
    pub out: Aff<C>,
    /// the point the verifier is given
    pub public: Aff<C>,
}
/// A claim about the part of the constraints outside the windows.
pub struct Claim<B: SymBase> {
    pub name: String,
    pub alts: Vec<Vec<Poly<B>>>,
    /// a linear equation the constraints must contradict
    pub never: Option<Poly<B>>,
}
/// Where things are in the verifier's constraints.
pub struct Scene<C: SymCurve> {
    pub left: Pt<C>,
    pub out: Pt<C>,
    pub claims: Vec<Claim<C::BB>>,
    /// selected points, and their sums
    pub pts: Vec<Pt<C>>,
    pub sums: Vec<Pt<C>>,
    /// variables shared between parts
    pub cut: HashSet<u32>,
}
/// What a forgery may use.
pub struct Forge<'a, C: SymCurve> {
    pub what: String,
    pub g: &'a G<C>,
    pub sys: &'a Sys<C::BB>,
    pub scene: &'a Scene<C>,
    /// shadows of the parameters, except `out`
    pub base: HashMap<u32, C::BB>,
    /// the wires of the digits, those of window `drop` apart
    pub bits: HashMap<u32, C::BB>,
    pub drop: HashSet<u32>,
    /// the multiple of H the digits stand for, then those with the open window replaced
    pub sums: Vec<C::SB>,
    pub h: CA<C>,
    /// the failed claim
    pub claim: Option<usize>,
}
pub fn shadow_of<B: SymBase>(v: u32) -> B {
    B::from_l4(&B::arena().lock().unwrap().shadow[v as usize])
}
/// value of a polynomial at `p`, shadows elsewhere
pub fn value<B: SymBase>(q: &Poly<B>, p: &HashMap<u32, B>) -> B {
    q.subst(&|v| Some(Poly::cst(p.get(&v).copied().unwrap_or_else(|| shadow_of(v))))).as_const().unwrap_or(B::zero())
}
/// set the single variable of `q` (a variable or its negative) so that `q` is `x`
pub fn assign<B: SymBase>(f: &mut HashMap<u32, B>, q: &Poly<B>, x: B) {
    let vs = q.vars();
    if vs.len() != 1 {
        return;
    }
    let v = *vs.iter().next().unwrap();
    let one = q.subst(&|_| Some(Poly::cst(B::one()))).as_const();
    f.insert(v, if one == Some(B::one()) { x } else { -x });
}
pub fn on_curve<C: SymCurve>(x: C::BB, y: C::BB) -> bool {
    CA::<C>::new_unchecked(x, y).is_on_curve()
}
impl<'a, C: SymCurve> Forge<'a, C> {
    /// all wires, given some values; the output is solved for last
    pub fn solve(&self, fixed: &HashMap<u32, C::BB>, round: u64) -> Option<HashMap<u32, C::BB>> {
        let mut f = self.base.clone();
        for (v, x) in &self.bits {
            if round % 2 == 0 || !self.drop.contains(v) {
                f.insert(*v, *x);
            }
        }
        for (v, x) in fixed {
            f.insert(*v, *x);
        }
        let last: Vec<u32> = self.scene.out.iter().flat_map(|q| q.vars()).collect();
        solve_ordered(&self.sys.hyps(), &f, &last, 100 + round, 300)
    }
    pub fn wires(&self, p: &HashMap<u32, C::BB>) -> Vec<(C::BB, C::BB)> {
        let val = |s: &Sym<C::BB>| if s.id == 0 { s.v } else { p.get(&s.id).copied().unwrap_or(s.v) };
        self.g.gates.iter().map(|w| (val(&w[0]), val(&w[1]))).collect()
    }
    pub fn at(&self, q: &Pt<C>, p: &HashMap<u32, C::BB>) -> [C::BB; 2] {
        [value(&q[0], p), value(&q[1], p)]
    }
}

pub trait Host<C: Cycle> {
    fn name(&self) -> String;
    /// the verifier's run, wires fresh; with the public point of an honest run or a symbol
    fn verifier(&self, public: Option<&Aff<C>>) -> G<C>;
    /// the prover's run with multiple `k` and the variant-th choice
    fn prover(&self, k: C::SB, variant: usize) -> Result<Honest<C>, String>;
    fn native_honest(&self, k: C::SB, variant: usize) -> Result<bool, String>;
    fn scene(&self, nm: &mut Norm<C::BB>, g: &G<C>, run: &Honest<C>) -> Result<Scene<C>, String>;
    /// try to have the real verifier accept a false statement
    fn forge(&self, r: &mut Report, f: &Forge<C>) -> bool;
}

/// digit strings that cover every digit in every window
pub fn strings<C: SymCurve>(m: usize, runs: usize) -> Vec<Vec<usize>> {
    let q: BigUint = C::SB::MODULUS.into();
    let reduce = |d: Vec<usize>| -> Vec<usize> {
        let n = digits_int(&d) % &q;
        digits_of(&C::SB::from(n), m)
    };
    let mut o: Vec<Vec<usize>> = vec![];
    for j in 0..WINDOW_ELEMS {
        let mut d: Vec<usize> = (0..m).map(|i| if i + 2 < m { j } else { 0 }).collect();
        d[m - 2] = if j == 0 { 1 } else { j.min(3) };
        o.push(reduce(d));
    }
    for s in 0..runs {
        let mut d: Vec<usize> = (0..m).map(|i| (i * (2 * s + 3) + i / 8 + s) % 8).collect();
        d[m - 1] = 0;
        d[m - 2] = s % 4;
        o.push(reduce(d));
    }
    for f in [C::SB::one(), -C::SB::one(), C::SB::from(8u64), -C::SB::from(2u64).inverse().unwrap()] {
        o.push(digits_of(&f, m));
    }
    o
}

fn ppt<C: SymCurve>(nm: &mut Norm<C::BB>, p: &Aff<C>) -> Pt<C> {
    [(*nm.sym(&p.x)).clone(), (*nm.sym(&p.y)).clone()]
}
pub fn law_of<B: SymBase>(l: &[Poly<B>; 2], r: &[Poly<B>; 2], o: &[Poly<B>; 2]) -> Vec<Poly<B>> {
    law([&l[0], &l[1]], [&r[0], &r[1]], [&o[0], &o[1]])
}
/// y^2 - x^3 - a x - b of the curve
pub fn curve_eq<C: SymCurve>(p: &Pt<C>) -> Poly<C::BB> {
    use ark_ec::short_weierstrass::SWCurveConfig;
    let (a, b) = (<C::Conc as SWCurveConfig>::COEFF_A, <C::Conc as SWCurveConfig>::COEFF_B);
    p[1].mul(&p[1]).sub(&p[0].mul(&p[0]).mul(&p[0])).sub(&p[0].scale(a)).sub(&Poly::cst(b))
}

/// Does every constraint of an honest run follow from the group law of the additions made?
pub fn follows<C: SymCurve>(r: &mut Report, z: &mut Z3, h: &Honest<C>, ch: &Chain<C>, tabs: &[Tab<C>], d: &[usize]) -> Result<(), String> {
    let m = tabs.len();
    let mut nm = Norm::<C::BB>::new();
    let mut laws: Vec<Poly<C::BB>> = vec![];
    let accp: Vec<Pt<C>> = ch.pts.iter().map(|p| ppt::<C>(&mut nm, p)).collect();
    for i in 1..m {
        let e = ppt::<C>(&mut nm, &Aff::<C>::new_unchecked(tabs[i].elems[0][d[i]], tabs[i].elems[1][d[i]]));
        laws.extend(law_of(&accp[i - 1], &e, &accp[i]));
    }
    for a in &h.adds {
        let [x, y, o] = [0, 1, 2].map(|k| ppt::<C>(&mut nm, &a[k]));
        laws.extend(law_of(&x, &y, &o));
    }
    for p in &h.on_curve {
        let p = ppt::<C>(&mut nm, p);
        laws.push(curve_eq::<C>(&p));
    }
    let (l, o) = (ppt::<C>(&mut nm, &h.left), ppt::<C>(&mut nm, &h.out));
    laws.extend(law_of(&l, &accp[m - 1], &o));
    let cs: Vec<Poly<C::BB>> = h
        .cs
        .cons
        .iter()
        .map(|x| {
            let p = (*nm.sym(&h.cs.lc(x))).clone();
            nm.clear(&p)
        })
        .collect();
    let zero: Vec<_> = cs.iter().filter(|p| p.is_zero()).map(|p| (p.clone(), Poly::zero())).collect();
    let (v0, _) = identical(z, &zero);
    r.oblige(zero.len(), v0);
    if v0 != Verdict::Unsat {
        return Err("constraints do not vanish".into());
    }
    for o in cs.iter().filter(|p| !p.is_zero()) {
        let vs = o.vars();
        let hy: Vec<Poly<C::BB>> = laws.iter().filter(|l| l.vars().iter().all(|x| vs.contains(x))).cloned().collect();
        let (v, _) = lin_implies(z, &hy, &[o.clone()]);
        r.oblige(1, v);
        if v != Verdict::Unsat {
            return Err(format!("constraint {} does not follow from the group law", o.show()));
        }
    }
    Ok(())
}

/// The whole study.  `runs`: (digit string, variant) of the honest runs; the first run's wires are located.
pub fn study<C: Cycle, H: Host<C>>(r: &mut Report, z: &mut Z3, host: &H, h: &Aff<C>, tabs: &[Tab<C>], runs: &[(Vec<usize>, usize)]) {
    let hs = shadow_pt::<C>(h);
    let hatom = atom_of::<C>(&hs, None).0;
    let m = tabs.len();
    let scal = match table_scalars::<C>(tabs, hatom) {
        Ok(s) => s,
        Err(e) => {
            let k = rand_f::<C::SB>();
            r.replays += 1;
            match host.native_honest(k, 0) {
                Ok(true) => r.inconclusive(format!("tables: {}", e)),
                o => r.violation(&format!("{} tables", host.name()), &format!("{}; honest r = {} is refused ({:?})", e, k, o)),
            }
            return;
        }
    };
    let g = host.verifier(None);
    let mut first: Option<(Honest<C>, Chain<C>)> = None;
    let mut bits_of_window: BTreeMap<(usize, usize), HashMap<usize, [Option<C::BB>; 3]>> = BTreeMap::new();
    for (d, variant) in runs {
        r.cases += 1;
        let k: C::SB = C::SB::from(digits_int(d));
        let mut why = String::new();
        match host.prover(k, *variant) {
            Err(e) => why = e,
            Ok(run) => {
                let g = host.verifier(Some(&run.public));
                if run.cs.missing > 0 {
                    why = format!("{} wires without a value", run.cs.missing);
                } else if run.cs.cons != g.cons || run.cs.gates.len() != g.gates.len() {
                    why = "prover and verifier declare different constraints".into();
                } else if run.cs.t.log != g.t.log {
                    why = "prover and verifier bind different data".into();
                } else {
                    match chain::<C>(&run.cs, hatom, &scal, d) {
                        Err(i) => why = format!("no wires hold the sum of the first {} windows", i),
                        Ok(_) if d.iter().enumerate().fold(C::SB::zero(), |a, (i, j)| a + scal[i][*j]) != k => why = "the table entries of the digits do not sum to r".into(),
                        Ok(ch) => match follows::<C>(r, z, &run, &ch, tabs, d) {
                            Err(e) => why = e,
                            Ok(()) => {
                                for (w, dig) in d.iter().enumerate() {
                                    let e = bits_of_window.entry((w, *dig)).or_default();
                                    if e.is_empty() {
                                        for (i, x) in run.cs.gates.iter().enumerate() {
                                            let f = |s: &Sym<C::BB>| if s.id == 0 { Some(s.v) } else { None };
                                            let row = [f(&x[0]), f(&x[1]), f(&x[2])];
                                            if row.iter().any(|y| y.is_some()) {
                                                e.insert(i, row);
                                            }
                                        }
                                    }
                                }
                                match &first {
                                    None => first = Some((run, ch)),
                                    Some(f) if f.1.acc != ch.acc => why = "accumulators are held by different wires".into(),
                                    _ => {}
                                }
                            }
                        },
                    }
                }
            }
        }
        if !why.is_empty() {
            r.oblige(1, Verdict::Sat);
            r.replays += 1;
            match host.native_honest(k, *variant) {
                Ok(true) => r.inconclusive(format!("{} r={}: {}", host.name(), k, why)),
                o => r.violation(&format!("{} honest", host.name()), &format!("honest randomness r = {} (choice {}) is refused ({:?}): {}", k, variant, o, why)),
            }
            break;
        }
    }
    if r.violated() {
        return;
    }
    let covered = bits_of_window.len();
    r.sample(format!("{}: {} honest runs, {} (window, digit) pairs covered", host.name(), runs.len(), covered));
    let Some((run, ch)) = first else { return };
    let acc: Vec<[u32; 2]> = ch.acc.iter().map(|a| [g.gates[a[0].0][a[0].1].id, g.gates[a[1].0][a[1].1].id]).collect();

    // soundness, window by window
    let mut nm = Norm::<C::BB>::new();
    let sys = Sys::of(&mut nm, &g);
    let scene = match host.scene(&mut nm, &g, &run) {
        Ok(s) => s,
        Err(e) => {
            r.inconclusive(format!("{}: {}", host.name(), e));
            return;
        }
    };
    let wires: HashSet<u32> = g.gates.iter().flatten().map(|s| s.id).collect();
    let params: HashSet<u32> = sys.vars().into_iter().filter(|v| !wires.contains(v)).collect();
    let mut extra = scene.cut.clone();
    extra.extend(scene.left.iter().chain(scene.out.iter()).flat_map(|p| p.vars()));
    let pr = parts(&sys, &acc, &extra, &params);
    let empty = Sys { prods: vec![], lins: vec![], sub: vec![], dead: false };
    let outv: HashSet<u32> = scene.out.iter().flat_map(|p| p.vars()).collect();
    let base: HashMap<u32, C::BB> = params.iter().filter(|v| !outv.contains(v)).map(|v| (*v, shadow_of(*v))).collect();
    let window_vars = |i: usize| -> HashSet<u32> {
        let top = |k: usize| ch.acc[k].iter().map(|a| a.0).max().unwrap();
        let lo = if i == 0 { 0 } else { top(i - 1) + 1 };
        (lo..=top(i)).flat_map(|k| g.gates[k].iter().map(|s| s.id)).collect()
    };
    // all windows first: their branches tell which wires realise which digit
    let parted: Vec<_> = (0..m)
        .map(|i| {
            r.cases += 1;
            let s = pr.window.get(&i).unwrap_or(&empty);
            window::<C::BB>(r, z, s, if i == 0 { None } else { Some(acc[i - 1]) }, acc[i], &tabs[i], &mut nm, &params)
        })
        .collect();
    let bits = |d: &[usize]| -> HashMap<u32, C::BB> {
        let mut o = HashMap::new();
        for (w, j) in d.iter().enumerate() {
            if let Ok((_, m)) = &parted[w] {
                if let Some(m) = m.get(j) {
                    o.extend(m.iter().map(|(a, b)| (*a, *b)));
                    continue;
                }
            }
            // otherwise the constant wires of an honest run, among the gates made since the accumulator before
            let vs = window_vars(w);
            for (gi, row) in bits_of_window.get(&(w, *j)).into_iter().flatten() {
                for k in 0..3 {
                    if let (Some(x), true) = (row[k], vs.contains(&g.gates[*gi][k].id)) {
                        o.insert(g.gates[*gi][k].id, x);
                    }
                }
            }
        }
        o
    };
    let sums = |d: &[usize], w: Option<usize>| -> Vec<C::SB> {
        let mut o = vec![(0..m).fold(C::SB::zero(), |a, i| a + scal[i][d[i]])];
        if let Some(w) = w {
            for j in 0..WINDOW_ELEMS {
                o.push(o[0] - scal[w][d[w]] + scal[w][j]);
            }
        }
        o
    };
    let typical = runs.iter().map(|x| &x.0).find(|d| d.iter().any(|x| *x != d[0]) && d[m - 2] != 0).unwrap_or(&runs[0].0).clone();
    let req = |what: String, d: &[usize], w: Option<usize>, claim: Option<usize>| Forge {
        what,
        g: &g,
        sys: &sys,
        scene: &scene,
        base: base.clone(),
        bits: bits(d),
        drop: w.map(|w| window_vars(w)).unwrap_or_default(),
        sums: sums(d, w),
        h: hs,
        claim,
    };
    let mut kinds = vec![];
    for i in 0..m {
        match &parted[i] {
            Ok((k, _)) => kinds.push(*k),
            Err(_) => {
                let what = format!("{} window {}", host.name(), i + 1);
                if !host.forge(r, &req(what.clone(), &typical, Some(i), None)) {
                    r.inconclusive(format!("{}: accumulator not forced to a table entry's sum; no accepted forgery", what));
                }
                return;
            }
        }
    }
    // the last addition, the points and the additions before
    let v = Poly::<C::BB>::var;
    let cur = acc[m - 1];
    let curp = [v(cur[0]), v(cur[1])];
    let mut claims = vec![Claim { name: "last addition".into(), alts: vec![law_of(&scene.left, &curp, &scene.out)], never: Some(scene.left[0].sub(&curp[0])) }];
    claims.extend(scene.claims.iter().map(|c| Claim { name: c.name.clone(), alts: c.alts.clone(), never: c.never.clone() }));
    let mut cut: HashSet<u32> = extra.union(&params).copied().collect();
    cut.extend(acc.iter().flatten());
    let comps = pr.last.components(&cut);
    let rank = |x: u32| if cut.contains(&x) { None } else { Some(0) };
    let rank2 = |x: u32| if params.contains(&x) { None } else { Some(0) };
    for (ci, c) in claims.iter().enumerate() {
        r.cases += 1;
        let needed: HashSet<u32> = c.alts.iter().flatten().flat_map(|p| p.vars()).collect();
        // the part that speaks about the claim's wires; failing that, all of it
        let mut list: Vec<&Sys<C::BB>> = comps.iter().filter(|s| s.vars().iter().filter(|v| needed.contains(v) && !params.contains(v)).count() > 0).collect();
        list.sort_by_key(|s| s.prods.len() + s.lins.len());
        list.push(&pr.last);
        let goal = Goal { name: c.name.clone(), alts: c.alts.clone() };
        let mut ok = c.alts.is_empty();
        let by = |s: &Sys<C::BB>, z: &mut Z3| -> Option<usize> {
            for d in 1..=2 {
                let mut p = Prover3::new(z, &rank);
                p.max_leaves = 200;
                if p.prove(s, &goal, d).is_ok() {
                    return Some(p.leaves);
                }
            }
            None
        };
        if !ok {
            for s in &list {
                if let Some(n) = by(s, z) {
                    r.oblige(n, Verdict::Unsat);
                    ok = true;
                    break;
                }
            }
        }
        if let (true, Some(n)) = (ok, &c.never) {
            let goal = Goal { name: c.name.clone(), alts: vec![vec![Poly::cst(C::BB::one())]] };
            ok = list.iter().any(|s| {
                let mut s = (*s).clone();
                s.lins.push(n.clone());
                let mut p = Prover3::new(z, &rank2);
                p.max_leaves = 200;
                p.prove(&s, &goal, 1).is_ok()
            });
            if ok {
                r.oblige(1, Verdict::Unsat);
            }
        }
        if !ok {
            r.oblige(1, Verdict::Sat);
            let what = format!("{} {}", host.name(), c.name);
            if !host.forge(r, &req(what.clone(), &typical, None, Some(ci))) {
                r.inconclusive(format!("{}: not forced", what));
            }
            return;
        }
    }
    // no incomplete addition meets equal x-coordinates, for any digits
    for i in 1..m {
        if kinds[i] == Kind::Checked {
            continue;
        }
        match meets(z, &scal, i) {
            Ok(None) => r.oblige(1, Verdict::Unsat),
            Err(()) => r.inconclusive(format!("{} window {}: degenerate digits undecided", host.name(), i + 1)),
            Ok(Some(d)) => {
                r.oblige(1, Verdict::Sat);
                let mut full: Vec<usize> = d.clone();
                full.resize(m, 0);
                let what = format!("{} degenerate window {}", host.name(), i + 1);
                if !host.forge(r, &req(what.clone(), &full, None, None)) {
                    r.inconclusive(format!("{}: digits {:?} meet, no accepted forgery", what, d));
                }
                return;
            }
        }
    }
    r.sample(format!(
        "{}: {} windows: {} incomplete, {} checked",
        host.name(),
        m,
        kinds.iter().filter(|k| **k == Kind::Incomplete).count(),
        kinds.iter().filter(|k| **k == Kind::Checked).count()
    ));
}
