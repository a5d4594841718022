//! P10: window lookup and bit constraint.
use crate::common::*;
use crate::gadget::*;
use crate::replay::*;
use bulletproofs::r1cs::*;
use relations::lookup::*;
use std::collections::HashMap;

type B = Fq;
type SB = Sym<B>;

fn table<const N: usize>() -> Lookup3Bit<N, SB> {
    let mut t = Lookup3Bit::<N, SB> { elems: [[SB::zero(); WINDOW_ELEMS]; N] };
    for c in 0..N {
        for j in 0..WINDOW_ELEMS {
            t.elems[c][j] = Sym::fresh(&format!("u{}_{}", c, j));
        }
    }
    t
}
fn ntable<const N: usize>(t: &Lookup3Bit<N, SB>, f: &dyn Fn(&SB) -> B) -> Lookup3Bit<N, B> {
    let mut o = Lookup3Bit::<N, B> { elems: [[B::zero(); WINDOW_ELEMS]; N] };
    for c in 0..N {
        for j in 0..WINDOW_ELEMS {
            o.elems[c][j] = f(&t.elems[c][j]);
        }
    }
    o
}
/// the outputs are bound to committed values, so that a forgery is visible
fn bind<F: Field, Cs: ConstraintSystem<F>>(cs: &mut Cs, out: &[LinearCombination<F>], to: &[Variable<F>]) {
    for (o, v) in out.iter().zip(to) {
        cs.constrain(o.clone() - *v);
    }
}

fn forge<const N: usize>(r: &mut Report, t: &Lookup3Bit<N, SB>, g: &GCS<B>, open: &Sys<B>, full: &Sys<B>, outs: &[SB], why: &str) {
    // concrete table, then solve for the wires
    let mut fixed: HashMap<u32, B> = HashMap::new();
    for c in 0..N {
        for j in 0..WINDOW_ELEMS {
            fixed.insert(t.elems[c][j].id, t.elems[c][j].v);
        }
    }
    for round in 0..6 {
        let mut eqs = full.hyps();
        if round < 4 {
            // stay inside the branch that could not be closed
            eqs.extend(open.sub.iter().map(|(v, e)| Poly::var(*v).sub(e)));
        }
        let Some(p) = find_point(&eqs, &fixed, &Default::default(), 400) else { continue };
        let val = |s: &SB| if s.id == 0 { s.v } else { p.get(&s.id).copied().unwrap_or(s.v) };
        let xs: Vec<B> = outs.iter().map(|o| val(o)).collect();
        let nt = ntable(t, &val);
        if (0..WINDOW_ELEMS).any(|j| (0..N).all(|c| nt.elems[c][j] == xs[c])) {
            continue;
        }
        let wires: Vec<(B, B)> = g.gates.iter().map(|w| (val(&w[0]), val(&w[1]))).collect();
        r.replays += 1;
        let ok = native_accepts::<NP>(&xs, &[], &wires, &mut |v, vs, _| {
            let o = lookup(v, &nt, None).unwrap();
            bind(v, &o, vs);
        });
        if ok == Ok(true) {
            r.violation(&format!("lookup N={}", N), &format!("{}: the real verifier accepts outputs {:?} that are no entry of the table", why, xs));
            return;
        }
    }
    r.inconclusive(format!("lookup N={}: {}; no accepted forgery found", N, why));
}

fn lookup_n<const N: usize>(r: &mut Report, z: &mut Z3) {
    let t = table::<N>();
    let params: std::collections::HashSet<u32> = t.elems.iter().flatten().map(|s| s.id).collect();
    let mut g = GCS::<B>::new(false);
    let outs: Vec<SB> = (0..N).map(|c| Sym::fresh(&format!("out{}", c))).collect();
    let ov: Vec<_> = outs.iter().map(|o| g.commit(*o)).collect();
    let lc = lookup(&mut g, &t, None).expect("lookup");
    let ncons = g.cons.len();
    bind(&mut g, &lc, &ov);
    let mut nm = Norm::<B>::new();
    let full = Sys::of(&mut nm, &g);
    let oid: Vec<u32> = outs.iter().map(|o| o.id).collect();
    let rank = |v: u32| if params.contains(&v) { None } else if oid.contains(&v) { Some(0) } else { Some(1) };
    let goal = Goal {
        name: "lookup".into(),
        alts: (0..WINDOW_ELEMS)
            .map(|j| (0..N).map(|c| Poly::var(oid[c]).sub(&Poly::var(t.elems[c][j].id))).collect())
            .collect(),
    };
    r.cases += 1;
    let mut p = Prover3::new(z, &rank);
    let res = p.prove(&full, &goal, 1);
    let (leaves, dead, used) = (p.leaves, p.dead_leaves, p.used.clone());
    match res {
        Ok(()) => r.oblige(leaves, Verdict::Unsat),
        Err(open) => {
            r.oblige(1, Verdict::Sat);
            forge::<N>(r, &t, &g, &open, &full, &outs, "outputs not forced to one entry");
            return;
        }
    }
    r.vacuity_witnesses += used.len();
    r.sample(format!("lookup N={}: {} live branches, {} dead, entries reached {:?}", N, leaves - dead, dead, used));
    // each entry reached by the honest prover, on the constraints as declared by the verifier
    for j in 0..WINDOW_ELEMS {
        let mut h = GCS::<B>::new(true);
        let hv: Vec<_> = (0..N).map(|c| h.commit(t.elems[c][j])).collect();
        let lc = lookup(&mut h, &t, Some(j)).expect("lookup");
        bind(&mut h, &lc, &hv);
        let mut nm = Norm::<B>::new();
        let pairs: Vec<(Poly<B>, Poly<B>)> = h.cons.iter().map(|c| ((*nm.sym(&h.lc(c))).clone(), Poly::zero())).collect();
        let (v, bad) = identical(z, &pairs);
        r.oblige(pairs.len(), v);
        r.cases += 1;
        let same = h.cons == g.cons && h.gates.len() == g.gates.len() && h.missing == 0;
        if v != Verdict::Unsat || !same {
            let nt = ntable(&t, &|s| s.v);
            let xs: Vec<B> = (0..N).map(|c| nt.elems[c][j]).collect();
            r.replays += 1;
            let ok = native_honest::<NP>(
                &xs,
                &[],
                &mut |p, vs, _| {
                    let o = lookup(p, &nt, Some(j)).unwrap();
                    bind(p, &o, vs);
                },
                &mut |v, vs, _| {
                    let o = lookup(v, &nt, None).unwrap();
                    bind(v, &o, vs);
                },
            );
            match ok {
                Ok(true) => r.inconclusive(format!("lookup N={} index {}: constraints {:?} not satisfied symbolically", N, j, bad)),
                o => r.violation(&format!("lookup honest N={} index {}", N, j), &format!("the honest prover cannot look up entry {} ({:?})", j, o)),
            }
            return;
        }
    }
    let _ = ncons;
}

fn bit(r: &mut Report, z: &mut Z3) {
    // is_bit on x and on a combination of variables
    for form in 0..3 {
        let mut g = GCS::<B>::new(false);
        let (xs, ys) = (SB::fresh("bx"), SB::fresh("by"));
        let (x, y) = (g.commit(xs), g.commit(ys));
        let arg = |x: Variable<SB>, y: Variable<SB>| -> (LinearCombination<SB>, SB) {
            match form {
                0 => (x.into(), xs),
                1 => (x - y, xs - ys),
                _ => (x * SB::from(3u64) + y + SB::from(7u64), xs * SB::from(3u64) + ys + SB::from(7u64)),
            }
        };
        let (lc, val) = arg(x, y);
        is_bit(&mut g, lc);
        let mut nm = Norm::<B>::new();
        let s = Sys::of(&mut nm, &g);
        let vp = (*nm.sym(&val)).clone();
        let keep = [xs.id, ys.id];
        let rank = |v: u32| Some(if keep.contains(&v) { 1 } else { 0 });
        r.cases += 1;
        let goal = Goal { name: "bit".into(), alts: vec![vec![vp.clone()], vec![vp.sub(&Poly::cst(B::one()))]] };
        let mut p = Prover3::new(z, &rank);
        let res = p.prove(&s, &goal, 1);
        let leaves = p.leaves;
        let used = p.used.len();
        match res {
            Ok(()) => {
                r.oblige(leaves, Verdict::Unsat);
                r.vacuity_witnesses += used;
            }
            Err(_) => {
                r.oblige(1, Verdict::Sat);
                let mut done = false;
                for _ in 0..10 {
                    let Some(p) = find_point(&s.hyps(), &HashMap::from([(xs.id, B::from(5u64)), (ys.id, B::from(9u64))]), &Default::default(), 200) else { continue };
                    let v = |s: &SB| if s.id == 0 { s.v } else { p.get(&s.id).copied().unwrap_or(s.v) };
                    let w: Vec<(B, B)> = g.gates.iter().map(|q| (v(&q[0]), v(&q[1]))).collect();
                    r.replays += 1;
                    if native_accepts::<NP>(&[B::from(5u64), B::from(9u64)], &[], &w, &mut |v, vs, _| {
                        let lc: LinearCombination<B> = match form {
                            0 => vs[0].into(),
                            1 => vs[0] - vs[1],
                            _ => vs[0] * B::from(3u64) + vs[1] + B::from(7u64),
                        };
                        is_bit(v, lc)
                    }) == Ok(true)
                    {
                        r.violation("is_bit", "the real verifier accepts an argument that is neither 0 nor 1");
                        done = true;
                        break;
                    }
                }
                if !done {
                    r.inconclusive("is_bit not forced".into());
                }
                return;
            }
        }
        // both bits satisfiable by the honest prover
        for b in 0..2u64 {
            let mut h = GCS::<B>::new(true);
            let y = SB::fresh("hy");
            let x = match form {
                0 => SB::from(b),
                1 => SB::from(b) + y,
                _ => (SB::from(b) - y - SB::from(7u64)) * SB::from(3u64).inverse().unwrap(),
            };
            let (xv, yv) = (h.commit(x), h.commit(y));
            let lc: LinearCombination<SB> = match form {
                0 => xv.into(),
                1 => xv - yv,
                _ => xv * SB::from(3u64) + yv + SB::from(7u64),
            };
            is_bit(&mut h, lc);
            let mut nm = Norm::<B>::new();
            let pairs: Vec<(Poly<B>, Poly<B>)> = h.cons.iter().map(|c| ((*nm.sym(&h.lc(c))).clone(), Poly::zero())).collect();
            let (v, _) = identical(z, &pairs);
            r.oblige(pairs.len(), v);
            r.cases += 1;
            if v != Verdict::Unsat {
                r.replays += 1;
                let f = |cs: &mut dyn FnMut(LinearCombination<B>), vs: &[Variable<B>]| cs(vs[0].into());
                let ok = native_honest::<NP>(&[B::from(b)], &[], &mut |p, vs, _| f(&mut |l| is_bit(p, l), vs), &mut |v, vs, _| f(&mut |l| is_bit(v, l), vs));
                match ok {
                    Ok(true) => r.inconclusive(format!("is_bit form {} bit {}: constraints not satisfied symbolically", form, b)),
                    o => r.violation("is_bit honest", &format!("the honest bit {} is refused ({:?})", b, o)),
                }
                return;
            }
        }
    }
}

pub fn run(r: &mut Report) {
    r.fns(&["relations::lookup::lookup", "relations::lookup::is_bit", "relations::lookup::bit", "relations::lookup::single_membership"]);
    r.assume("the field is an integral domain (a vanishing product has a vanishing factor)");
    let mut z = Z3::new(60_000);
    lookup_n::<1>(r, &mut z);
    if !r.violated() {
        lookup_n::<2>(r, &mut z);
    }
    if !r.violated() {
        lookup_n::<3>(r, &mut z);
    }
    if !r.violated() && r.thorough() {
        lookup_n::<4>(r, &mut z);
        lookup_n::<6>(r, &mut z);
    }
    if !r.violated() {
        bit(r, &mut z);
    }
    r.absorb(&z);
    r.bounds.push(format!("tables with {} columns of 8 symbolic entries; every assignment of the wires; all 8 indices of the honest prover", if r.thorough() { "1, 2, 3, 4, 6" } else { "1, 2, 3" }));
    r.outside.push("indices of 8 and more handed to the prover".into());
    r.explanation = "The real lookup runs on a recording constraint system with symbolic table entries; every wire is a fresh symbol. Branching on vanishing products, z3 shows in every branch that all output columns equal the entries of one index (linear arithmetic over monomials); open branches are solved to concrete wires and replayed with the real prover and verifier. The honest prover's values are substituted into the same constraints for every index.".into();
}
