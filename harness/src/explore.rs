//! Path exploration: re-runs a symbolic execution with input variables pinned so that a branch condition
//! that was generically false becomes true.
use crate::common::*;
use std::collections::{HashMap, HashSet};

fn is_env(name: &str) -> bool {
    name.starts_with("ch_") || name.starts_with("rnd")
}

/// What to pin so that the two nodes become equal; None when the condition involves no input variable.
fn pins<F: SymBase>(nm: &mut Norm<F>, c: &PathCond) -> Option<HashMap<String, L4>> {
    let d = if c.kind == "zero" { (*nm.node(c.a)).clone() } else { nm.node(c.a).sub(&nm.node(c.b)) };
    if d.is_zero() || d.len() > 200 {
        return None;
    }
    let (names, shadows): (HashMap<u32, String>, HashMap<u32, F>) = {
        let a = F::arena().lock().unwrap();
        let vs = d.vars();
        (
            vs.iter().map(|v| (*v, node_name::<F>(&a, *v))).collect(),
            vs.iter().map(|v| (*v, F::from_l4(&a.shadow[*v as usize]))).collect(),
        )
    };
    if names.values().any(|n| is_env(n)) || d.vars().iter().any(|v| !is_var::<F>(*v)) {
        return None;
    }
    let mut vs: Vec<u32> = d.vars().into_iter().collect();
    vs.sort();
    for v in vs {
        let sp = d.split(&[v]);
        if sp.keys().any(|k| k[0] != 0 && k[0] != 1) {
            continue;
        }
        let ev = |p: Option<&Poly<F>>| p.map(|p| p.eval(&|x| shadows[&x])).unwrap_or(F::zero());
        let (k0, k1) = (ev(sp.get(&vec![0])), ev(sp.get(&vec![1])));
        if k1.is_zero() {
            continue;
        }
        let mut out: HashMap<String, L4> = shadows.iter().filter(|(x, _)| **x != v).map(|(x, s)| (names[x].clone(), s.to_l4())).collect();
        out.insert(names[&v].clone(), (-k0 / k1).to_l4());
        return Some(out);
    }
    None
}
fn is_var<F: SymBase>(v: u32) -> bool {
    matches!(F::arena().lock().unwrap().nodes[v as usize], Node::Var(_))
}

/// Audit the branches of one run: equalities taken must be identities (under the pins, which are constants).
/// Returns pins for branches not taken.
fn drain<F: SymBase>(r: &mut Report, what: &str) -> Vec<HashMap<String, L4>> {
    let p = std::mem::take(&mut *F::path().lock().unwrap());
    r.forks += p.len();
    let mut seen = HashSet::new();
    let mut nm = Norm::<F>::new();
    let mut pairs = vec![];
    let mut out = vec![];
    for c in p {
        if !seen.insert(c.clone()) {
            continue;
        }
        match (c.kind, c.result) {
            ("eq", true) => pairs.push(((*nm.node(c.a)).clone(), (*nm.node(c.b)).clone())),
            ("zero", true) => pairs.push(((*nm.node(c.a)).clone(), Poly::zero())),
            ("eq", false) | ("zero", false) => {
                if let Some(p) = pins::<F>(&mut nm, &c) {
                    out.push(p);
                }
            }
            _ => {}
        }
    }
    if !pairs.is_empty() {
        let mut z = Z3::new(60_000);
        let (v, bad) = identical(&mut z, &pairs);
        r.oblige(pairs.len(), v);
        r.absorb(&z);
        if v != Verdict::Unsat {
            r.inconclusive(format!(
                "{}: branch taken on a non-identity: {}",
                what,
                bad.iter().take(3).map(|i| format!("{} == {}", pairs[*i].0.show(), pairs[*i].1.show())).collect::<Vec<_>>().join("; ")
            ));
        }
    }
    out
}

pub fn clear_paths() {
    Fq::path().lock().unwrap().clear();
    Fp::path().lock().unwrap().clear();
}

/// Run `body` on the generic path and on every path reachable by making one (or two) branch conditions true.
/// `body` returns false to stop exploring (violation found).
pub fn explore(r: &mut Report, what: &str, max_paths: usize, mut body: impl FnMut(&mut Report, &HashMap<String, L4>) -> bool) {
    type Pin = (HashMap<String, L4>, HashMap<String, L4>);
    let mut work: Vec<(Pin, usize)> = vec![(Default::default(), 0)];
    let mut done: HashSet<Vec<(String, L4)>> = HashSet::new();
    let mut n = 0;
    while let Some(((q, p), depth)) = work.pop() {
        let mut key: Vec<(String, L4)> = q.iter().chain(p.iter()).map(|(a, b)| (a.clone(), *b)).collect();
        key.sort();
        if !done.insert(key) {
            continue;
        }
        if n >= max_paths {
            r.extra.retain(|x| x.0 != "path_limit_reached");
            r.extra.push(("path_limit_reached".into(), "true".into()));
            break;
        }
        n += 1;
        clear_paths();
        *Fq::overrides().lock().unwrap() = q.clone();
        *Fp::overrides().lock().unwrap() = p.clone();
        let mut all = q.clone();
        all.extend(p.clone());
        let go = body(r, &all);
        r.paths += 1;
        Fq::overrides().lock().unwrap().clear();
        Fp::overrides().lock().unwrap().clear();
        let mut more: Vec<Pin> = vec![];
        for o in drain::<Fq>(r, what) {
            let mut q2 = q.clone();
            q2.extend(o);
            more.push((q2, p.clone()));
        }
        for o in drain::<Fp>(r, what) {
            let mut p2 = p.clone();
            p2.extend(o);
            more.push((q.clone(), p2));
        }
        if !go {
            break;
        }
        if depth < 2 {
            for m in more {
                work.insert(0, (m, depth + 1));
            }
        }
    }
    clear_paths();
}
