//! P12: curve membership and addition constraints.
use crate::common::*;
use crate::gadget::*;
use crate::replay::*;
use ark_ec::short_weierstrass::Affine;
use bulletproofs::r1cs::*;
use relations::curve::*;
use std::collections::{HashMap, HashSet};

type B = Fp;
type SB = Sym<B>;
type VP = ark_vesta::Affine;

/// The way an argument is handed to a gadget.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Form {
    Var,
    /// 3*v - 2*v' where v' carries (3*v - value)/2
    Comb,
    Const,
}
/// committed values for an argument, and the combination that denotes it
fn lc_of<F: Field>(f: Form, v: &[Variable<F>], val: F) -> LinearCombination<F> {
    match f {
        Form::Var => v[0].into(),
        Form::Comb => v[0] * F::from(3u64) + v[1] - F::from(5u64),
        Form::Const => constant(val),
    }
}
fn second<F: Field>(f: Form, first: F, val: F) -> F {
    match f {
        Form::Comb => val - first * F::from(3u64) + F::from(5u64),
        _ => F::zero(),
    }
}

/// a numbered argument list committed in order (two values each)
struct Args {
    form: Vec<Form>,
    val: Vec<SB>,
    committed: Vec<SB>,
}
impl Args {
    fn new(form: &[Form], val: &[SB]) -> Self {
        let mut committed = vec![];
        for (i, (f, v)) in form.iter().zip(val).enumerate() {
            let first = if *f == Form::Var { *v } else { SB::fresh(&format!("c{}", i)) };
            committed.push(first);
            committed.push(second(*f, first, *v));
        }
        Args { form: form.to_vec(), val: val.to_vec(), committed }
    }
    fn lcs(&self, g: &mut GCS<B>) -> Vec<LinearCombination<SB>> {
        let vs: Vec<_> = self.committed.iter().map(|c| g.commit(*c)).collect();
        (0..self.val.len()).map(|i| lc_of(self.form[i], &vs[2 * i..], self.val[i])).collect()
    }
    fn nat(&self, f: &dyn Fn(&SB) -> B) -> Vec<B> {
        self.committed.iter().map(|s| f(s)).collect()
    }
}
fn nat_lcs<CS>(a: &Args, vs: &[Variable<B>], f: &dyn Fn(&SB) -> B, _c: std::marker::PhantomData<CS>) -> Vec<LinearCombination<B>> {
    (0..a.val.len()).map(|i| lc_of(a.form[i], &vs[2 * i..], f(&a.val[i]))).collect()
}
fn val_at<'a>(p: &'a HashMap<u32, B>) -> impl Fn(&SB) -> B + 'a {
    move |s: &SB| {
        if s.id == 0 {
            return s.v;
        }
        let m: HashMap<u32, B> = p.clone();
        Eval::<B>::new(&m).sym(s)
    }
}

/// Soundness of a gadget: goals follow from the constraints; otherwise concrete wires are forged.
#[allow(clippy::too_many_arguments)]
fn sound(
    r: &mut Report,
    z: &mut Z3,
    what: &str,
    args: &Args,
    extra: &[Poly<B>],
    run: &dyn Fn(&mut GCS<B>, &[LinearCombination<SB>]),
    goals: &dyn Fn(&mut Norm<B>, &GCS<B>) -> Vec<Poly<B>>,
    deg: usize,
    native: &dyn Fn(&[B], &[(B, B)], &dyn Fn(&SB) -> B) -> Result<bool, String>,
) -> bool {
    r.cases += 1;
    let mut g = GCS::<B>::new(false);
    let lcs = args.lcs(&mut g);
    run(&mut g, &lcs);
    let mut nm = Norm::<B>::new();
    let mut s = Sys::of(&mut nm, &g);
    s.lins.extend(extra.iter().cloned());
    let wires: HashSet<u32> = g.gates.iter().flatten().map(|s| s.id).collect();
    let rank = |v: u32| if wires.contains(&v) { Some(0) } else { None };
    let gs = goals(&mut nm, &g);
    let mut all = true;
    for (k, gp) in gs.iter().enumerate() {
        let goal = Goal { name: format!("{}", k), alts: vec![vec![gp.clone()]] };
        let mut res = Err(s.clone());
        for d in 1..=deg {
            let mut p = Prover3::new(z, &rank);
            res = p.prove(&s, &goal, d);
            if res.is_ok() {
                break;
            }
        }
        match res {
            Ok(()) => r.oblige(1, Verdict::Unsat),
            Err(open) => {
                all = false;
                r.oblige(1, Verdict::Sat);
                let mut hit = false;
                for round in 0..12 {
                    let mut eqs = open.hyps();
                    if round % 2 == 0 {
                        eqs.extend(open.sub.iter().map(|(v, e)| Poly::var(*v).sub(e)));
                    } else {
                        eqs = s.hyps();
                    }
                    let Some(p) = find_point(&eqs, &HashMap::new(), &Default::default(), 300) else { continue };
                    let f = val_at(&p);
                    if gp.eval(&|v| f(&SB::from_node(v))).is_zero() {
                        continue;
                    }
                    let w: Vec<(B, B)> = g.gates.iter().map(|q| (f(&q[0]), f(&q[1]))).collect();
                    r.replays += 1;
                    let o = native(&args.nat(&f), &w, &f);
                    if o == Ok(true) {
                        let vals: Vec<String> = args.val.iter().map(|s| f(s).to_string()).collect();
                        r.violation(what, &format!("goal {} ({}) fails, yet the real verifier accepts arguments {}", k, gp.show(), vals.join(", ")));
                        hit = true;
                        break;
                    }
                    eprintln!("{}: forged wires give {:?}", what, o);
                }
                if !hit {
                    r.inconclusive(format!("{}: goal {} not derived, no accepted forgery", what, k));
                }
                return false;
            }
        }
    }
    all
}

fn vanish(r: &mut Report, z: &mut Z3, h: &GCS<B>) -> bool {
    let mut nm = Norm::<B>::new();
    let pairs: Vec<(Poly<B>, Poly<B>)> = h
        .cons
        .iter()
        .map(|c| {
            let p = (*nm.sym(&h.lc(c))).clone();
            (nm.clear(&p), Poly::zero())
        })
        .collect();
    let (v, _) = identical(z, &pairs);
    r.oblige(pairs.len(), v);
    v == Verdict::Unsat
}

fn membership(r: &mut Report, z: &mut Z3, forms: &[Form]) {
    let (x, y, a, b) = (SB::fresh("x"), SB::fresh("y"), SB::fresh("a"), SB::fresh("b"));
    let args = Args::new(forms, &[x, y]);
    let eq = y * y - x * x * x - a * x - b;
    let nat = |c: &[B], w: &[(B, B)], f: &dyn Fn(&SB) -> B| {
        native_accepts::<VP>(c, &[], w, &mut |v, vs, _| {
            let l = nat_lcs::<()>(&args, vs, f, Default::default());
            curve_check(v, l[0].clone(), l[1].clone(), f(&a), f(&b))
        })
    };
    let ok = sound(
        r,
        z,
        &format!("curve_check {:?}", forms),
        &args,
        &[],
        &|g, l| curve_check(g, l[0].clone(), l[1].clone(), a, b),
        &|nm, _| vec![(*nm.sym(&eq)).clone()],
        3,
        &nat,
    );
    if !ok {
        return;
    }
    // converse: any point of the curve passes (b is determined by the other three)
    let b2 = y * y - x * x * x - a * x;
    let mut h = GCS::<B>::new(true);
    let l = args.lcs(&mut h);
    curve_check(&mut h, l[0].clone(), l[1].clone(), a, b2);
    r.cases += 1;
    if !vanish(r, z, &h) {
        r.replays += 1;
        let f = |s: &SB| s.v;
        let ok = native_honest::<VP>(
            &args.nat(&f),
            &[],
            &mut |p, vs, _| {
                let l = nat_lcs::<()>(&args, vs, &f, Default::default());
                curve_check(p, l[0].clone(), l[1].clone(), a.v, b2.v)
            },
            &mut |p, vs, _| {
                let l = nat_lcs::<()>(&args, vs, &f, Default::default());
                curve_check(p, l[0].clone(), l[1].clone(), a.v, b2.v)
            },
        );
        match ok {
            Ok(true) => r.inconclusive("curve_check: constraints not satisfied symbolically for points of the curve".into()),
            o => r.violation(
                &format!("curve_check honest {:?}", forms),
                &format!("({}, {}) on the curve with a={} b={} is refused ({:?})", x.v, y.v, a.v, b2.v, o),
            ),
        }
    }
}

fn add_goals(nm: &mut Norm<B>, c: &[SB]) -> Vec<Poly<B>> {
    let (xl, yl, xr, yr, xo, yo) = (c[0], c[1], c[2], c[3], c[4], c[5]);
    let d = xr - xl;
    let n = yr - yl;
    let mut f = |s: SB| (*nm.sym(&s)).clone();
    vec![
        // (xo, yo) is the sum wherever xr != xl, cleared of the denominator
        f(d * d * (xo + xl + xr) - n * n),
        f(d * (yo + yl) - n * (xl - xo)),
    ]
}

fn addition(r: &mut Report, z: &mut Z3, forms: &[Form], checked: bool) {
    let what = format!("{} {:?}", if checked { "checked_curve_addition" } else { "incomplete_curve_addition" }, forms);
    let vals: Vec<SB> = ["xl", "yl", "xr", "yr", "xo", "yo"].iter().map(|n| SB::fresh(n)).collect();
    let args = Args::new(forms, &vals);
    fn prm<F: Field>(l: &[LinearCombination<F>]) -> CurveAddition<F> {
        CurveAddition {
            x_l: l[0].clone(),
            y_l: l[1].clone(),
            x_r: l[2].clone(),
            y_r: l[3].clone(),
            x_o: l[4].clone(),
            y_o: l[5].clone(),
            delta: None,
        }
    }
    let run = |g: &mut GCS<B>, l: &[LinearCombination<SB>]| {
        if checked {
            checked_curve_addition(g, &prm(l), None)
        } else {
            incomplete_curve_addition(g, &prm(l))
        }
    };
    let nat = |c: &[B], w: &[(B, B)], f: &dyn Fn(&SB) -> B| {
        native_accepts::<VP>(c, &[], w, &mut |v, vs, _| {
            let l = nat_lcs::<()>(&args, vs, f, Default::default());
            if checked {
                checked_curve_addition(v, &prm(&l), None)
            } else {
                incomplete_curve_addition(v, &prm(&l))
            }
        })
    };
    if !sound(r, z, &what, &args, &[], &run, &|nm, _| add_goals(nm, &vals), 2, &nat) {
        return;
    }
    let mut nm = Norm::<B>::new();
    // the slope is not free where the x-coordinates agree: y must agree too (incomplete), impossible (checked)
    let deq = (*nm.sym(&(vals[2] - vals[0]))).clone();
    let goal = if checked { Poly::cst(B::one()) } else { (*nm.sym(&(vals[3] - vals[1]))).clone() };
    sound(r, z, &format!("{} equal x", what), &args, &[deq], &run, &|_, _| vec![goal.clone()], 2, &nat);
}

fn helper(r: &mut Report, z: &mut Z3, forms: &[Form], checked: bool) {
    let name = if checked { "checked_curve_addition_helper" } else { "incomplete_curve_addition_helper" };
    let what = format!("{} {:?}", name, forms);
    let vals: Vec<SB> = ["xl", "yl", "xr", "yr"].iter().map(|n| SB::fresh(n)).collect();
    let args = Args::new(forms, &vals);
    let rep = |l: &[LinearCombination<SB>], w: bool| {
        let p = |i: usize| PointRepresentation::<SB, Affine<FreePallas>> {
            x: l[i].clone(),
            y: l[i + 1].clone(),
            witness: if w { Some(Affine::new_unchecked(vals[i], vals[i + 1])) } else { None },
        };
        (p(0), p(2))
    };
    let call = |g: &mut GCS<B>, l: &[LinearCombination<SB>], w: bool| {
        let (a, b) = rep(l, w);
        if checked {
            checked_curve_addition_helper(g, a, b)
        } else {
            incomplete_curve_addition_helper(g, a, b)
        }
    };
    // what the output variables stand for
    let out = std::cell::RefCell::new(None);
    let run = |g: &mut GCS<B>, l: &[LinearCombination<SB>]| {
        let o = call(g, l, false);
        *out.borrow_mut() = Some((o.x, o.y));
    };
    // native replay: the output is bound to nothing else, so a violation shows as two different outputs; bind it
    let native_out = |w: &[(B, B)], c: &[B], f: &dyn Fn(&SB) -> B| {
        native_accepts::<VP>(c, &[], w, &mut |v, vs, _| {
            let l = nat_lcs::<()>(&args, vs, f, Default::default());
            let p = |i: usize| PointRepresentation::<B, ark_pallas::Affine> { x: l[i].clone(), y: l[i + 1].clone(), witness: None };
            if checked {
                checked_curve_addition_helper(v, p(0), p(2));
            } else {
                incomplete_curve_addition_helper(v, p(0), p(2));
            }
        })
    };
    let ok = sound(
        r,
        z,
        &what,
        &args,
        &[],
        &run,
        &|nm, g| {
            let (xo, yo) = out.borrow().clone().unwrap();
            let c = [vals[0], vals[1], vals[2], vals[3], g.eval(&xo), g.eval(&yo)];
            add_goals(nm, &c)
        },
        2,
        &|c, w, f| native_out(w, c, f),
    );
    if !ok {
        return;
    }
    let mut nm = Norm::<B>::new();
    let deq = (*nm.sym(&(vals[2] - vals[0]))).clone();
    let goal = if checked { Poly::cst(B::one()) } else { (*nm.sym(&(vals[3] - vals[1]))).clone() };
    if !sound(r, z, &format!("{} equal x", what), &args, &[deq], &run, &|_, _| vec![goal.clone()], 2, &|c, w, f| native_out(w, c, f)) {
        return;
    }
    // honest side on symbolic points, through the curve library's own addition
    let mut h = GCS::<B>::new(true);
    let l = args.lcs(&mut h);
    let o = call(&mut h, &l, true);
    r.cases += 1;
    let mut good = vanish(r, z, &h) && h.missing == 0;
    if let Some(w) = o.witness {
        let mut nm = Norm::<B>::new();
        let pairs: Vec<_> = [(h.eval(&o.x), w.x), (h.eval(&o.y), w.y)]
            .iter()
            .map(|(a, b)| {
                let p = nm.sym(a).sub(&nm.sym(b));
                (nm.clear(&p), Poly::zero())
            })
            .collect();
        let (v, _) = identical(z, &pairs);
        r.oblige(2, v);
        good &= v == Verdict::Unsat;
        // and the witness is the sum
        let gs: Vec<_> = add_goals(&mut nm, &[vals[0], vals[1], vals[2], vals[3], w.x, w.y]).iter().map(|p| (nm.clear(p), Poly::zero())).collect();
        let (v, _) = identical(z, &gs);
        r.oblige(2, v);
        good &= v == Verdict::Unsat;
    } else {
        good = false;
    }
    // both sides declare the same
    let mut g = GCS::<B>::new(false);
    let l2 = args.lcs(&mut g);
    let o2 = call(&mut g, &l2, false);
    good &= g.cons == h.cons && g.gates.len() == h.gates.len() && o2.x == o.x && o2.y == o.y && o2.witness.is_none();
    if !good {
        // real points
        let (p, q) = {
            use ark_ff::UniformRand;
            use rand::SeedableRng;
            let mut rng = rand::rngs::StdRng::seed_from_u64(9);
            (ark_pallas::Affine::rand(&mut rng), ark_pallas::Affine::rand(&mut rng))
        };
        let nv = [p.x, p.y, q.x, q.y];
        let s = (p + q).into_affine();
        let c: Vec<B> = (0..4)
            .flat_map(|i| {
                let first = if forms[i] == Form::Var { nv[i] } else { B::from(4u64) };
                [first, second(forms[i], first, nv[i])]
            })
            .chain([s.x, s.y])
            .collect();
        let go = |l: Vec<LinearCombination<B>>, w: bool| {
            let a = PointRepresentation { x: l[0].clone(), y: l[1].clone(), witness: if w { Some(p) } else { None } };
            let b = PointRepresentation { x: l[2].clone(), y: l[3].clone(), witness: if w { Some(q) } else { None } };
            (a, b)
        };
        fn fin<Cs: ConstraintSystem<B>>(cs: &mut Cs, ab: (PointRepresentation<B, ark_pallas::Affine>, PointRepresentation<B, ark_pallas::Affine>), checked: bool, vs: &[Variable<B>]) {
            let o = if checked { checked_curve_addition_helper(cs, ab.0, ab.1) } else { incomplete_curve_addition_helper(cs, ab.0, ab.1) };
            cs.constrain(o.x - vs[8]);
            cs.constrain(o.y - vs[9]);
        }
        let lcs = |vs: &[Variable<B>]| (0..4).map(|i| lc_of(forms[i], &vs[2 * i..], nv[i])).collect::<Vec<_>>();
        r.replays += 1;
        let ok = native_honest::<VP>(
            &c,
            &[],
            &mut |v, vs, _| fin(v, go(lcs(vs), true), checked, vs),
            &mut |v, vs, _| fin(v, go(lcs(vs), false), checked, vs),
        );
        match ok {
            Ok(true) => r.inconclusive(format!("{}: honest side differs symbolically", what)),
            o => r.violation(&format!("{} honest", what), &format!("the honest sum of {:?} and {:?} is refused ({:?})", p, q, o)),
        }
    }
}

pub fn run(r: &mut Report) {
    r.fns(&[
        "relations::curve::curve_check",
        "relations::curve::incomplete_curve_addition",
        "relations::curve::checked_curve_addition",
        "relations::curve::not_zero",
        "relations::curve::incomplete_curve_addition_helper",
        "relations::curve::checked_curve_addition_helper",
        "ark_ec short_weierstrass addition and normalisation (vendored copy, unlifted formulas)",
    ]);
    r.assume("the field is an integral domain of characteristic other than 2 and 3");
    let mut z = Z3::new(60_000);
    use Form::*;
    let f2: &[[Form; 2]] = &[[Var, Var], [Comb, Var], [Var, Comb], [Comb, Comb], [Const, Var], [Var, Const]];
    for f in f2 {
        if !r.violated() {
            membership(r, &mut z, f);
        }
    }
    let f6: &[[Form; 6]] = &[[Var; 6], [Var, Var, Var, Var, Const, Const], [Comb, Var, Var, Comb, Var, Comb], [Const, Const, Var, Var, Comb, Comb]];
    for f in f6 {
        for checked in [false, true] {
            if !r.violated() {
                addition(r, &mut z, f, checked);
            }
        }
    }
    let f4: &[[Form; 4]] = &[[Var; 4], [Comb, Var, Var, Comb], [Const, Const, Var, Var]];
    for f in f4 {
        for checked in [false, true] {
            if !r.violated() {
                helper(r, &mut z, f, checked);
            }
        }
    }
    r.absorb(&z);
    r.bounds.push("all coordinates, slopes, coefficients a and b; arguments handed in as variables, combinations or constants as listed".into());
    r.outside.push("the honest helpers on points with equal x-coordinates (a division by zero, outside the statement); that the affine formulas are the group law".into());
    r.explanation = "Each gadget runs on a recording constraint system with symbolic coordinates and every wire a fresh symbol. z3 decides, over linear arithmetic on monomials with the constraints times monomials up to degree 3 as hypotheses, that the curve equation / the cleared addition formulas follow and that equal x-coordinates contradict the checked constraints. Honest points run the curve library's addition on symbolic coordinates; every constraint is an identity after clearing denominators.".into();
}
