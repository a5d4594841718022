//! P14, P15: one level of select and re-randomize, single and batched.
use crate::common::*;
use crate::gadget::*;
use crate::replay::*;
use crate::rerand::*;
use crate::windows::*;
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use bulletproofs::r1cs::*;
use ark_serialize::CanonicalSerialize;
use merlin::{Event, Transcript};
use relations::single_level_select_and_rerandomize::*;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::Ordering;

/// Run the gadget; `m` None: the single one.
pub fn call<P: SWCurveConfig + Copy, Cs: ConstraintSystem<P::BaseField>>(
    m: Option<usize>,
    cs: &mut Cs,
    pr: &SingleLayerParameters<P>,
    out: &Affine<P>,
    children: Vec<LinearCombination<P::BaseField>>,
    wit: Option<(&[Affine<P>], P::ScalarField)>,
) where
    P::BaseField: PrimeField,
{
    let k = wit.map(|w| w.1);
    macro_rules! b {
        ($m:expr) => {{
            let w: Option<[Affine<P>; $m]> = wit.map(|w| w.0.to_vec().try_into().unwrap());
            single_level_batched_select_and_rerandomize::<P::ScalarField, P::BaseField, P, Cs, $m>(cs, pr, out, children, w.as_ref(), k)
        }};
    }
    match m {
        None => single_level_select_and_rerandomize::<P::ScalarField, P::BaseField, P, Cs>(cs, pr, out, children, wit.map(|w| w.0[0]), k),
        Some(1) => b!(1),
        Some(2) => b!(2),
        Some(3) => b!(3),
        Some(4) => b!(4),
        _ => unreachable!(),
    }
}

struct Level<C: Cycle + Copy> {
    m: Option<usize>,
    len: usize,
    par: SingleLayerParameters<C>,
    /// the children without delta, per parent
    kids: Vec<Vec<Aff<C>>>,
    /// child variables of the verifier
    vars: Vec<Sym<C::BB>>,
    r: Aff<C>,
}
impl<C: Cycle + Copy> Level<C>
where
    C::Conc: SWCurveConfig<BaseField = C::BB, ScalarField = C::SB> + Copy,
    Sym<C::SB>: PrimeField,
{
    fn n(&self) -> usize {
        self.m.unwrap_or(1)
    }
    fn sum(&self, pts: &[(Aff<C>, C::SB)]) -> Aff<C> {
        let mut t: Terms<C::SB> = vec![];
        for (p, k) in pts {
            t = terms_add(&t, &terms_mul(&terms_of::<C>(p), &Sym::cst(*k)));
        }
        point_of_terms::<C>(&t, terms_shadow::<C>(&t))
    }
    fn plus_delta(&self, p: &Aff<C>) -> Aff<C> {
        self.sum(&[(*p, C::SB::one()), (self.par.delta, C::SB::one())])
    }
    /// the selected child of every parent
    fn choice(&self, variant: usize) -> Vec<usize> {
        (0..self.n()).map(|i| (variant + i * (1 + variant / self.len)) % self.len).collect()
    }
    fn native(&self) -> SingleLayerParameters<C::Conc> {
        SingleLayerParameters::<C::Conc>::new::<C::Conc>(4)
    }
    /// cheating witnesses to try
    fn plans(&self, f: &Forge<C>, sel: &[Pt<C>], rm: &CA<C>, round: u64) -> Vec<(String, HashMap<u32, C::BB>)> {
        let pick = |s: u64| -> CA<C> { (C::Conc::GENERATOR * C::SB::from(s * s + 12345 * s + 77 + 1_000_003 * round)).into_affine() };
        let kid: Vec<Vec<CA<C>>> = (0..self.n()).map(|i| (0..self.len).map(|j| pick((10 * i + j) as u64)).collect()).collect();
        let mut xs0: HashMap<u32, C::BB> = HashMap::new();
        for i in 0..self.n() {
            for j in 0..self.len {
                xs0.insert(self.vars[i * self.len + j].id, kid[i][j].x);
            }
        }
        let set = |fx: &mut HashMap<u32, C::BB>, q: &Pt<C>, p: &CA<C>| {
            assign(fx, &q[0], p.x);
            assign(fx, &q[1], p.y);
        };
        let mut plans: Vec<(String, HashMap<u32, C::BB>)> = vec![];
        let n = self.n();
        let hon = |i: usize| kid[i][i % self.len];
        let honest = |skip: Option<usize>| {
            let mut fx = xs0.clone();
            for i in 0..n {
                if Some(i) != skip {
                    set(&mut fx, &sel[i], &hon(i));
                }
            }
            fx
        };
        plans.push(("an output other than the digits'".into(), honest(None)));
        for i in 0..n {
            let mut fx = honest(Some(i));
            set(&mut fx, &sel[i], &pick(1000 + i as u64));
            plans.push((format!("a point outside parent {}", i), fx));
            if n > 1 {
                let mut fx = honest(Some(i));
                set(&mut fx, &sel[i], &kid[(i + 1) % n][0]);
                plans.push((format!("selection {} from another parent", i), fx));
                // twice the same point, in two parents
                let j = (i + 1) % n;
                for p in [hon(j), -hon(j)] {
                    let mut fx = honest(Some(i));
                    set(&mut fx, &sel[i], &p);
                    fx.insert(self.vars[i * self.len].id, p.x);
                    plans.push((format!("selection {} equal to +-{}", i, j), fx));
                }
            }
            // an addition L + P = -L only fixes the slope through P's x: P need not be on the curve
            let mut fx = honest(Some(i));
            assign(&mut fx, &sel[i][0], kid[i][0].x);
            if n == 1 {
                set(&mut fx, &f.scene.out, &-*rm);
            } else if i == 0 {
                set(&mut fx, &f.scene.sums[1], &-hon(1));
            } else {
                let l = (0..i).fold(CA::<C>::identity().into_group(), |a, k| a + hon(k)).into_affine();
                set(&mut fx, &f.scene.sums[i], &-l);
            }
            plans.push((format!("child {} off the curve", i), fx));
        }
        if n == 1 {
            let mut fx = xs0.clone();
            fx.insert(self.vars[0].id, rm.x);
            set(&mut fx, &sel[0], rm);
            plans.push(("degenerate last addition".into(), fx));
        }
        plans
    }
    fn shift(&self) -> C::SB {
        C::SB::from(self.n() as u64)
    }
}
impl<C: Cycle + Copy> Host<C> for Level<C>
where
    C::Conc: SWCurveConfig<BaseField = C::BB, ScalarField = C::SB> + Copy,
    Sym<C::SB>: PrimeField,
{
    fn name(&self) -> String {
        match self.m {
            None => format!("{} level of {}", C::NAME, self.len),
            Some(m) => format!("{} {} levels of {}", C::NAME, m, self.len),
        }
    }
    fn verifier(&self, public: Option<&Aff<C>>) -> G<C> {
        let mut g = G::<C>::new(false);
        let v = g.commit_vec(&self.vars);
        call::<C, _>(self.m, &mut g, &self.par, public.unwrap_or(&self.r), v.into_iter().map(|x| x.into()).collect(), None);
        g
    }
    fn prover(&self, k: C::SB, variant: usize) -> Result<Honest<C>, String> {
        let ch = self.choice(variant);
        let one = C::SB::one();
        let sel: Vec<Aff<C>> = ch.iter().enumerate().map(|(i, j)| self.plus_delta(&self.kids[i][*j])).collect();
        let xs: Vec<Sym<C::BB>> = self.kids.iter().flatten().map(|p| self.plus_delta(p).x).collect();
        let mut items: Vec<(Aff<C>, C::SB)> = ch.iter().enumerate().map(|(i, j)| (self.kids[i][*j], one)).collect();
        items.push((self.par.pc_gens.B_blinding, k));
        let public = self.sum(&items);
        let out = self.sum(&[(public, one), (self.par.delta, self.shift())]);
        let mut cs = G::<C>::new(true);
        let v = cs.commit_vec(&xs);
        quiet(|| call::<C, _>(self.m, &mut cs, &self.par, &public, v.into_iter().map(|x| x.into()).collect(), Some((&sel, Sym::cst(k)))))
            .map_err(|e| format!("panics: {}", e))?;
        let mut adds = vec![];
        let mut acc = sel[0];
        for s in &sel[1..] {
            let o = self.sum(&[(acc, one), (*s, one)]);
            adds.push([acc, *s, o]);
            acc = o;
        }
        Ok(Honest { cs, adds, on_curve: sel, left: acc, out, public })
    }
    fn native_honest(&self, k: C::SB, variant: usize) -> Result<bool, String> {
        let par = self.native();
        let ch = self.choice(variant);
        let sel: Vec<CA<C>> = ch.iter().enumerate().map(|(i, j)| (shadow_pt(&self.kids[i][*j]) + par.delta).into_affine()).collect();
        let xs: Vec<C::BB> = self.kids.iter().flatten().map(|p| (shadow_pt(p) + par.delta).into_affine().x).collect();
        let mut out = par.pc_gens.B_blinding * k;
        for (i, j) in ch.iter().enumerate() {
            out += shadow_pt(&self.kids[i][*j]);
        }
        let out = out.into_affine();
        native_honest::<C::Other>(
            &[],
            &[xs],
            &mut |p, _, vv| call::<C::Conc, _>(self.m, p, &par, &out, vv[0].iter().map(|x| (*x).into()).collect(), Some((&sel, k))),
            &mut |v, _, vv| call::<C::Conc, _>(self.m, v, &par, &out, vv[0].iter().map(|x| (*x).into()).collect(), None),
        )
    }
    fn scene(&self, nm: &mut Norm<C::BB>, g: &G<C>, run: &Honest<C>) -> Result<Scene<C>, String> {
        let v = Poly::<C::BB>::var;
        let mut cut = HashSet::new();
        let mut find = |p: &Aff<C>, what: &str| -> Result<Pt<C>, String> {
            let (Some(x), Some(y)) = (wire_with(&run.cs, &p.x, 0), wire_with(&run.cs, &p.y, 0)) else { return Err(format!("no wires hold {}", what)) };
            let (x, y) = (g.gates[x.0][x.1].id, g.gates[y.0][y.1].id);
            cut.insert(x);
            cut.insert(y);
            Ok([v(x), v(y)])
        };
        let mut claims = vec![];
        let mut left: Option<Pt<C>> = None;
        let (mut pts, mut sums) = (vec![], vec![]);
        for (i, p) in run.on_curve.iter().enumerate() {
            let p = find(p, &format!("selected child {}", i))?;
            claims.push(Claim {
                name: format!("child {} among its parent's", i),
                alts: (0..self.len).map(|j| vec![(*nm.sym(&self.vars[i * self.len + j])).sub(&p[0])]).collect(),
                never: None,
            });
            claims.push(Claim { name: format!("child {} on the curve", i), alts: vec![vec![curve_eq::<C>(&p)]], never: None });
            pts.push(p.clone());
            left = Some(match left {
                None => p,
                Some(l) => {
                    let o = find(&run.adds[i - 1][2], &format!("the sum of {} children", i + 1))?;
                    claims.push(Claim { name: format!("sum of {} children", i + 1), alts: vec![law_of(&l, &p, &o)], never: Some(l[0].sub(&p[0])) });
                    o
                }
            });
            sums.extend(left.clone());
        }
        let t = self.sum(&[(self.r, C::SB::one()), (self.par.delta, self.shift())]);
        let out = [(*nm.sym(&t.x)).clone(), (*nm.sym(&t.y)).clone()];
        Ok(Scene { left: left.unwrap(), out, claims, pts, sums, cut })
    }
    fn forge(&self, r: &mut Report, f: &Forge<C>) -> bool {
        let par = self.native();
        let sel = &f.scene.pts;
        let rm = (f.h * f.sums[0]).into_affine();
        for (round, (what, fixed)) in (0..8u64).flat_map(|r| self.plans(f, sel, &rm, r).into_iter().map(move |p| (r, p))) {
            let Some(p) = f.solve(&fixed, round) else { continue };
            let [tx, ty] = f.at(&f.scene.out, &p);
            let t = CA::<C>::new_unchecked(tx, ty);
            // outputs on the curve first
            if !t.is_on_curve() && round < 6 {
                continue;
            }
            // is the statement true after all?
            let pts: Vec<CA<C>> = sel.iter().map(|q| f.at(q, &p)).map(|[x, y]| CA::<C>::new_unchecked(x, y)).collect();
            let vals: Vec<C::BB> = self.vars.iter().map(|v| value(&Poly::var(v.id), &p)).collect();
            let member = pts.iter().enumerate().all(|(i, q)| q.is_on_curve() && vals[i * self.len..(i + 1) * self.len].contains(&q.x));
            let mut s = CA::<C>::identity().into_group();
            for q in &pts {
                s += q;
            }
            if member && f.sums.iter().enumerate().any(|(k, w)| (k == 0 || round % 2 == 1) && (s + f.h * *w).into_affine() == t) {
                continue;
            }
            let out = (t.into_group() - par.delta * self.shift()).into_affine();
            r.replays += 1;
            let ok = native_accepts::<C::Other>(&[], &[vals], &f.wires(&p), &mut |v, _, vv| {
                call::<C::Conc, _>(self.m, v, &par, &out, vv[0].iter().map(|x| (*x).into()).collect(), None)
            });
            if ok == Ok(true) {
                r.violation(&f.what, &format!("the real verifier accepts the output ({}, {}) (on the curve: {}) for {}", out.x, out.y, t.is_on_curve(), what));
                return true;
            }
            if std::env::var("VH_LOUD").is_ok() {
                eprintln!("{} ({}): forged wires give {:?}", f.what, what, ok);
            }
        }
        false
    }
}

/// The public output must be in the transcript: what is appended determines it.
fn bound<C: Cycle + Copy>(r: &mut Report, z: &mut Z3, host: &Level<C>)
where
    C::Conc: SWCurveConfig<BaseField = C::BB, ScalarField = C::SB> + Copy,
    Sym<C::SB>: PrimeField,
{
    let one = C::SB::one();
    C::ser_log().lock().unwrap().clear();
    SER_ON.store(true, Ordering::SeqCst);
    let base = host.verifier(None).t.log;
    SER_ON.store(false, Ordering::SeqCst);
    let enc: Vec<(Vec<u8>, Terms<C::SB>)> = C::ser_log().lock().unwrap().drain(..).collect();
    // other outputs: any point, opposite ones, and ones that share a coordinate after a shift
    let mut others = vec![(sym_point::<C>("R'"), "another point".to_string())];
    let roots: Vec<C::SB> = {
        // cube roots of one act on these curves by multiplying x
        let e = (-C::SB::one()) / C::SB::from(3u64);
        let w = <C::SB as ark_ff::FftField>::GENERATOR.pow(e.into_bigint());
        vec![w, w * w]
    };
    for k in 0..=host.n() as u64 + 1 {
        let k = C::SB::from(k);
        for m in std::iter::once(-one).chain(roots.iter().cloned()).chain(roots.iter().map(|w| -*w)) {
            // m (R + k delta) - k delta
            others.push((host.sum(&[(host.r, m), (host.par.delta, m * k - k)]), format!("the point that is {} times it around the shift", if m == -one { "-1".into() } else { m.to_string() })));
        }
    }
    for (o, what) in &others {
        r.cases += 1;
        let log = host.verifier(Some(o)).t.log;
        if log != base {
            r.oblige(1, Verdict::Unsat);
            continue;
        }
        r.oblige(1, Verdict::Sat);
        let par = host.native();
        let run = |p: &CA<C>| {
            let mut v = Verifier::<Transcript, C::Other>::new(Transcript::new(b"x"));
            let vs: Vec<LinearCombination<C::BB>> = (0..host.n() * host.len).map(|_| LinearCombination::default()).collect();
            call::<C::Conc, _>(host.m, &mut v, &par, p, vs, None);
            let mut b = [0u8; 32];
            v.transcript().challenge_bytes(b"c", &mut b);
            b
        };
        r.replays += 1;
        if run(&shadow_pt(&host.r)) == run(&shadow_pt(o)) {
            r.violation(&format!("{} transcript", host.name()), &format!("the challenges after the gadget are the same for an output and {}: the output is not bound", what));
        } else {
            r.inconclusive(format!("{}: transcript logs agree, challenges do not", host.name()));
        }
        return;
    }
    // every output: two outputs with the same messages are the same
    let msgs: Vec<Vec<u8>> = base.iter().filter_map(|e| if let Event::Msg(_, m) = e { Some(m.clone()) } else { None }).collect();
    let holds = |b: &[u8]| msgs.iter().any(|m| m.windows(b.len()).any(|w| w == b));
    let atom = match &terms_of::<C>(&host.r)[..] {
        [(a, _)] => *a,
        _ => unreachable!(),
    };
    let mut nm = Norm::<C::SB>::new();
    let d = Sym::<C::SB>::fresh("d_R");
    let mut hyps = vec![];
    for (b, t) in enc.iter().filter(|(b, _)| holds(b)) {
        // the other points are the same in both
        let c = t.iter().filter(|x| x.0 == atom).fold(Sym::<C::SB>::zero(), |s, x| s + x.1);
        if t.iter().all(|x| x.1.is_const()) && b.len() >= 32 {
            hyps.push((*nm.sym(&(c * d))).clone());
        }
    }
    let goal = (*nm.sym(&d)).clone();
    let (v, _) = lin_implies(z, &hyps, std::slice::from_ref(&goal));
    let (w, _) = lin_implies(z, &[], std::slice::from_ref(&goal));
    if w == Verdict::Sat {
        r.vacuity_witnesses += 1;
    }
    let coords = || {
        (0..=host.n() as u64 + 1).any(|k| {
            let p = shadow_pt(&host.sum(&[(host.r, one), (host.par.delta, C::SB::from(k))]));
            [p.x, p.y].iter().all(|x| {
                let mut b = vec![];
                x.serialize_compressed(&mut b).unwrap();
                holds(&b)
            })
        })
    };
    if v == Verdict::Unsat || coords() {
        r.oblige(1, Verdict::Unsat);
    } else {
        r.oblige(1, v);
        r.inconclusive(format!("{}: the messages are no encoding that determines the output", host.name()));
    }
}

pub fn level<C: Cycle + Copy>(r: &mut Report, z: &mut Z3, m: Option<usize>, len: usize, extra: usize)
where
    C::Conc: SWCurveConfig<BaseField = C::BB, ScalarField = C::SB> + Copy,
    Sym<C::SB>: PrimeField,
{
    let n = m.unwrap_or(1);
    let par = SingleLayerParameters::<C>::new::<C>(4);
    let h = par.pc_gens.B_blinding;
    let host = Level::<C> {
        m,
        len,
        par,
        kids: (0..n).map(|i| (0..len).map(|j| sym_point::<C>(&format!("C{}_{}", i, j))).collect()).collect(),
        vars: (0..n * len).map(|i| Sym::fresh(&format!("child{}", i))).collect(),
        r: sym_point::<C>("R"),
    };
    bound(r, z, &host);
    if r.violated() {
        return;
    }
    let ds = strings::<C>(host.par.tabs().len(), extra);
    let runs: Vec<_> = ds.into_iter().enumerate().map(|(i, d)| (d, i % (len * len))).collect();
    study::<C, _>(r, z, &host, &h, &host.par.tables, &runs);
}
trait Tabs {
    type T;
    fn tabs(&self) -> &[Self::T];
}
impl<P: SWCurveConfig + Copy> Tabs for SingleLayerParameters<P> {
    type T = relations::lookup::Lookup3Bit<2, P::BaseField>;
    fn tabs(&self) -> &[Self::T] {
        &self.tables
    }
}

fn common(r: &mut Report) {
    r.fns(&[
        "relations::rerandomize::{build_tables,re_randomize}",
        "relations::lookup::{lookup,is_bit}",
        "relations::select::select",
        "relations::curve::{curve_check,incomplete_curve_addition,checked_curve_addition,checked_curve_addition_helper}",
        "relations::single_level_select_and_rerandomize::SingleLayerParameters::new",
    ]);
    r.assume("the affine chord formulas with distinct x-coordinates are the group law of the curve");
    r.assume("the blinding generator generates the group of prime order");
    r.outside.push("honest choices for which an addition is between points with equal x-coordinates (isolated randomness values such as 0; the same child for two parents)".into());
    r.explanation = "The gadget runs with the children variables and every wire fresh symbols and the output a formal point; cut at the wires of the selected points, their sums and the accumulators, z3 decides for each part of the constraints: the point's x-coordinate is one of the children, the point is on the curve, every addition is the group law between different x-coordinates, every window adds one table entry. Honest runs on formal points satisfy every constraint by the group law. The output is recorded by the transcript.".into();
}

pub fn run14(r: &mut Report) {
    common(r);
    r.fns(&["relations::single_level_select_and_rerandomize::single_level_select_and_rerandomize"]);
    let mut z = Z3::new(60_000);
    let lens: &[usize] = if r.thorough() { &[1, 2, 3, 5, 8, 16] } else { &[1, 3] };
    for l in lens {
        level::<SymPallas>(r, &mut z, None, *l, if r.thorough() { 8 } else { 1 });
        if r.violated() {
            break;
        }
        if r.thorough() || *l == 3 {
            level::<SymVesta>(r, &mut z, None, *l, 1);
        }
        if r.violated() {
            break;
        }
    }
    r.absorb(&z);
    r.bounds.push(format!("child lists of lengths {:?}; all children, outputs and witnesses; the honest prover for every child and the listed digit strings", lens));
}
pub fn run15(r: &mut Report) {
    common(r);
    r.fns(&["relations::single_level_select_and_rerandomize::single_level_batched_select_and_rerandomize"]);
    let mut z = Z3::new(60_000);
    let list: &[(usize, usize)] = if r.thorough() { &[(1, 2), (2, 1), (2, 2), (2, 4), (3, 2), (3, 3), (4, 2)] } else { &[(2, 2), (3, 2), (1, 1)] };
    for (m, l) in list {
        level::<SymPallas>(r, &mut z, Some(*m), *l, if r.thorough() { 8 } else { 1 });
        if r.violated() {
            break;
        }
        if r.thorough() || (*m, *l) == (2, 2) {
            level::<SymVesta>(r, &mut z, Some(*m), *l, 1);
        }
        if r.violated() {
            break;
        }
    }
    r.absorb(&z);
    r.bounds.push(format!("(parents, children each) {:?}; all children, outputs and witnesses; the honest prover for varying selections and the listed digit strings", list));
}
