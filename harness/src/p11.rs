//! P11: selection constraint.
use crate::common::*;
use crate::gadget::*;
use crate::replay::*;
use bulletproofs::r1cs::*;
use relations::select::select;
use std::collections::HashMap;

type B = Fq;
type SB = Sym<B>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    /// members of a vector commitment
    Vec,
    /// public constants
    Const,
    /// mixed: constants, commitments, sums
    Mixed,
}
/// the members as linear combinations over committed values
fn members<F: Field>(form: Form, vars: &[Variable<F>], vals: &[F]) -> Vec<LinearCombination<F>> {
    vars.iter()
        .zip(vals)
        .enumerate()
        .map(|(i, (v, c))| match (form, i % 3) {
            (Form::Vec, _) | (Form::Mixed, 0) => (*v).into(),
            (Form::Const, _) | (Form::Mixed, 1) => constant(*c),
            (Form::Mixed, _) => *v * F::from(2u64) - *v,
        })
        .collect()
}

fn case(r: &mut Report, z: &mut Z3, n: usize, form: Form) {
    r.cases += 1;
    let xs: Vec<SB> = (0..n).map(|i| Sym::fresh(&format!("m{}", i))).collect();
    let x = SB::fresh("x");
    let mut g = GCS::<B>::new(false);
    let vars = g.commit_vec(&xs);
    let xv = g.commit(x);
    select(&mut g, xv.into(), members(form, &vars, &xs).into_iter());
    let mut nm = Norm::<B>::new();
    let s = Sys::of(&mut nm, &g);
    let keep: std::collections::HashSet<u32> = xs.iter().map(|s| s.id).collect();
    let rank = |v: u32| if keep.contains(&v) { Some(2) } else if v == x.id { Some(1) } else { Some(0) };
    let goal = Goal { name: "member".into(), alts: xs.iter().map(|m| vec![Poly::var(x.id).sub(&Poly::var(m.id))]).collect() };
    let mut p = Prover3::new(z, &rank);
    let res = p.prove(&s, &goal, 1);
    let (leaves, used) = (p.leaves, p.used.len());
    match res {
        Ok(()) => {
            r.oblige(leaves, Verdict::Unsat);
            r.vacuity_witnesses += used;
        }
        Err(open) => {
            r.oblige(1, Verdict::Sat);
            for round in 0..8 {
                let mut eqs = s.hyps();
                if round < 4 {
                    eqs.extend(open.sub.iter().map(|(v, e)| Poly::var(*v).sub(e)));
                }
                let mut fixed: HashMap<u32, B> = xs.iter().map(|s| (s.id, s.v)).collect();
                if round % 2 == 0 {
                    fixed.insert(x.id, x.v);
                }
                if round >= 6 {
                    // a member may have to take part
                    fixed.clear();
                }
                let Some(p) = find_point(&eqs, &fixed, &Default::default(), 200) else { continue };
                let v = |s: &SB| if s.id == 0 { s.v } else { p.get(&s.id).copied().unwrap_or(s.v) };
                let (nx, nxs) = (v(&x), xs.iter().map(|s| v(s)).collect::<Vec<_>>());
                if nxs.contains(&nx) {
                    continue;
                }
                let w: Vec<(B, B)> = g.gates.iter().map(|q| (v(&q[0]), v(&q[1]))).collect();
                r.replays += 1;
                if native_accepts::<NP>(&[nx], &[nxs.clone()], &w, &mut |c, vs, vv| select(c, vs[0].into(), members(form, &vv[0], &nxs).into_iter())) == Ok(true) {
                    r.violation(&format!("select n={} {:?}", n, form), &format!("the real verifier accepts x = {} which is none of the {} members", nx, n));
                    return;
                }
            }
            r.inconclusive(format!("select n={} {:?}: an open branch, no accepted forgery found", n, form));
            return;
        }
    }
    // honest, every position
    for j in 0..n {
        let mut h = GCS::<B>::new(true);
        let vars = h.commit_vec(&xs);
        let xv = h.commit(xs[j]);
        select(&mut h, xv.into(), members(form, &vars, &xs).into_iter());
        let mut nm = Norm::<B>::new();
        // the running product is kept unexpanded
        for g in &h.gates {
            if nm.sym(&g[0]).is_zero() || nm.sym(&g[1]).is_zero() {
                nm.set(g[2].id, Poly::zero());
            } else {
                nm.cut(&g[2]);
            }
        }
        let pairs: Vec<(Poly<B>, Poly<B>)> = h.cons.iter().map(|c| ((*nm.sym(&h.lc(c))).clone(), Poly::zero())).collect();
        let (v, bad) = identical(z, &pairs);
        r.oblige(pairs.len(), v);
        let same = h.cons == g.cons && h.gates.len() == g.gates.len() && h.missing == 0;
        if v != Verdict::Unsat || !same {
            let nxs: Vec<B> = xs.iter().map(|s| s.v).collect();
            r.replays += 1;
            let ok = native_honest::<NP>(
                &[nxs[j]],
                &[nxs.clone()],
                &mut |c, vs, vv| select(c, vs[0].into(), members(form, &vv[0], &nxs).into_iter()),
                &mut |c, vs, vv| select(c, vs[0].into(), members(form, &vv[0], &nxs).into_iter()),
            );
            match ok {
                Ok(true) => r.inconclusive(format!("select n={} position {}: constraints {:?} not satisfied symbolically", n, j, bad)),
                o => r.violation(&format!("select honest n={} position {}", n, j), &format!("the honest prover cannot select member {} of {} ({:?})", j, n, o)),
            }
            return;
        }
    }
}

pub fn run(r: &mut Report) {
    r.fns(&["relations::select::select"]);
    r.assume("the field is an integral domain (a vanishing product has a vanishing factor)");
    let mut z = Z3::new(60_000);
    let sizes: Vec<usize> = if r.thorough() { (1..=20).chain([31, 32, 33, 64, 128, 256]).collect() } else { vec![1, 2, 3, 4, 5, 8, 17, 32] };
    for n in &sizes {
        for form in [Form::Vec, Form::Const, Form::Mixed] {
            if !r.violated() {
                case(r, &mut z, *n, form);
            }
        }
    }
    r.absorb(&z);
    r.bounds.push(format!("{:?} members (vector commitment, constants, mixed combinations); every assignment; every honest position", sizes));
    r.outside.push("empty lists (the gadget panics, no statement exists); lists above the listed sizes".into());
    r.explanation = "The real gadget runs on a recording constraint system with every wire a fresh symbol. Branching on vanishing products (one branch per factor), z3 shows in every branch that the value equals one of the members. Honest values are substituted for every position.".into();
}
