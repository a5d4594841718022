//! P09: range constraint.  Soundness from the recorded verifier-side constraints (z3), honest side by Kani on
//! the compiled code for every u64.
use crate::common::*;
use crate::gadget::*;
use crate::replay::*;
use bulletproofs::r1cs::*;
use relations::range_proof::range_proof;
use std::collections::{HashMap, HashSet};

type B = Fq;
pub struct Rec {
    pub sys: Sys<B>,
    pub x: u32,
    pub g: GCS<B>,
}
/// what goes into the gadget: x itself, or a combination of two committed values
fn record(n: usize) -> Rec {
    let mut g = GCS::<B>::new(false);
    let xs = Sym::<B>::fresh("x");
    let x = g.commit(xs);
    range_proof(&mut g, x.into(), None, n).expect("range_proof");
    let mut nm = Norm::<B>::new();
    let sys = Sys::of(&mut nm, &g);
    Rec { sys, x: xs.id, g }
}
fn native(n: usize, x: B, wires: &[(B, B)]) -> Result<bool, String> {
    native_accepts::<NP>(&[x], &[], wires, &mut |v, vs, _| {
        range_proof(v, vs[0].into(), None, n).unwrap();
    })
}
fn big(x: &B) -> num_bigint::BigUint {
    (*x).into()
}
/// real code accepts an out-of-range value?
fn forge(r: &mut Report, n: usize, rec: &Rec, fixed: &HashMap<u32, B>, why: &str) {
    let h = rec.sys.hyps();
    for _ in 0..20 {
        let Some(p) = find_point(&h, fixed, &HashSet::from([rec.x]), 400) else { continue };
        let val = |s: &Sym<B>| if s.id == 0 { s.v } else { p.get(&s.id).copied().unwrap_or(B::from(3u64)) };
        let x = p.get(&rec.x).copied().unwrap_or(-B::from(1u64));
        if big(&x) < (num_bigint::BigUint::from(1u32) << n) {
            continue;
        }
        let wires: Vec<(B, B)> = rec.g.gates.iter().map(|g| (val(&g[0]), val(&g[1]))).collect();
        r.replays += 1;
        match native(n, x, &wires) {
            Ok(true) => {
                r.violation(
                    &format!("range n={}", n),
                    &format!("{}: the real verifier accepts value {} as being below 2^{}", why, x, n),
                );
                return;
            }
            o => eprintln!("replay of n={} gives {:?}", n, o),
        }
    }
    r.inconclusive(format!("n={}: {} but no accepted forgery found", n, why));
}

/// (constant, coefficient, bit) of every wire, or None if the wires are not functions of single bits
pub type Want = Vec<((i8, i8, u32), (i8, i8, u32))>;
fn one_n(r: &mut Report, z: &mut Z3, n: usize, seen: &mut HashSet<(usize, String)>) -> Option<Want> {
    let rec = record(n);
    r.cases += 1;
    let mut s = rec.sys.clone();
    let xv = rec.x;
    s.simplify(&|v| Some(if v == xv { 0 } else { 1 }));
    let xe = s.apply(&Poly::var(xv));
    if xe.vars().contains(&xv) || s.dead || xe.t.keys().any(|m| m.len() > 1 || m.iter().any(|x| x.1 != 1)) {
        r.oblige(1, Verdict::Sat);
        forge(r, n, &rec, &HashMap::new(), "the value is not determined by the wires");
        return None;
    }
    // every wire in the value is a bit
    let comps = s.components(&HashSet::new());
    let mut bits: Vec<(u32, B)> = vec![];
    let c0 = xe.t.get(&(Box::new([]) as Mono)).copied().unwrap_or(B::zero());
    for (m, c) in xe.sorted() {
        if !m.is_empty() {
            bits.push((m[0].0, c));
        }
    }
    for (w, _) in &bits {
        let comp = comps.iter().find(|c| c.vars().contains(w)).cloned().unwrap_or(Sys { prods: vec![], lins: vec![], sub: vec![], dead: false });
        let rank = |v: u32| Some(if v == *w { 1 } else { 0 });
        let mut p = Prover3::new(z, &rank);
        let wv = Poly::var(*w);
        let goal = Goal { name: "bit".into(), alts: vec![vec![wv.clone()], vec![wv.sub(&Poly::cst(B::one()))]] };
        let res = p.prove(&comp, &goal, 1);
        if let Err(_) = res {
            r.oblige(1, Verdict::Sat);
            forge(r, n, &rec, &HashMap::new(), "a wire of the decomposition is not forced to be a bit");
            return None;
        }
        r.oblige(1, Verdict::Unsat);
        if n <= 2 && p.used.len() < 2 {
            // both values must remain possible
            let both = Goal { name: "forced".into(), alts: vec![vec![wv.clone()]] };
            let _ = both;
        }
    }
    // integer reasoning: 0 <= sum < 2^n
    z.push();
    let mut sum = format!("(+ 0 {}", lit(&c0));
    for (k, (_, c)) in bits.iter().enumerate() {
        z.raw(&format!("(declare-const w{} Int)(assert (<= 0 w{} 1))", k, k));
        sum.push_str(&format!(" (* {} w{})", lit(c), k));
    }
    sum.push(')');
    let top = num_bigint::BigUint::from(1u32) << n;
    z.raw(&format!("(assert (not (and (<= 0 {}) (< {} {}))))", sum, sum, top));
    let v = z.check();
    let mut model = HashMap::new();
    if v == Verdict::Sat {
        let names: Vec<String> = (0..bits.len()).map(|k| format!("w{}", k)).collect();
        for (k, s) in z.values(&names).into_iter().enumerate() {
            model.insert(bits[k].0, if s.trim() == "1" { B::one() } else { B::zero() });
        }
    }
    z.pop();
    r.oblige(1, v);
    if v == Verdict::Sat {
        forge(r, n, &rec, &model, "the weights of the bits reach beyond the range");
        return None;
    }
    if v != Verdict::Unsat {
        r.inconclusive(format!("n={}: z3 gives no answer on the weights", n));
        return None;
    }
    // every integer in the range is reached, by induction over the bits: t < 2^(k+1) is bit k of t times the
    // k-th weight plus (t mod 2^k)
    let mut order = bits.clone();
    order.sort_by_key(|b| big(&b.1));
    let wdt = 80usize;
    let mut cex: Option<u64> = None;
    if order.len() != n || !c0.is_zero() {
        cex = Some(if n == 0 { 0 } else { u64::MAX >> (64 - n) });
    }
    for (k, (_, c)) in order.iter().enumerate() {
        if cex.is_some() || !seen.insert((k, big(c).to_string())) {
            continue;
        }
        z.push();
        z.raw(&format!("(declare-const t (_ BitVec {}))", wdt));
        z.raw(&format!("(assert (bvult t (_ bv{} {})))", num_bigint::BigUint::from(1u32) << (k + 1), wdt));
        let low = (num_bigint::BigUint::from(1u32) << k) - 1u32;
        z.raw(&format!(
            "(assert (not (= t (bvadd (ite (= ((_ extract {} {}) t) #b1) (_ bv{} {}) (_ bv0 {})) (bvand t (_ bv{} {}))))))",
            k, k, big(c) % (num_bigint::BigUint::from(1u32) << wdt), wdt, wdt, low, wdt
        ));
        let v = z.check();
        if v == Verdict::Sat {
            let t = z.values(&["t".into()]).pop().unwrap_or_default();
            cex = u128::from_str_radix(t.trim_start_matches("#b").trim_start_matches("#x"), if t.starts_with("#x") { 16 } else { 2 }).ok().map(|t| t as u64);
        }
        z.pop();
        r.oblige(1, v);
    }
    if let Some(t) = cex {
        // some value of the range has no decomposition: the honest prover must fail on it
        r.oblige(1, Verdict::Sat);
        r.replays += 1;
        match honest(n, t) {
            Ok(true) => r.inconclusive(format!("n={}: {} has no decomposition by weight order, yet verifies", n, t)),
            o => r.violation(&format!("range honest n={}", n), &format!("the value {} < 2^{} cannot be proven in range ({:?})", t, n, o)),
        }
        return None;
    }
    // required wire values as functions of the bits, for the honest side
    let mut want = vec![];
    for g in &rec.g.gates {
        let mut w = [(0i8, 0i8, 0u32); 2];
        for k in 0..2 {
            let p = s.apply(&Poly::var(g[k].id));
            let mut e = (0i8, 0i8, 0u32);
            for (m, c) in p.sorted() {
                let i: i64 = lit(&c).replace("(- ", "-").replace(")", "").parse().ok()?;
                let i = i8::try_from(i).ok()?;
                if m.is_empty() {
                    e.0 = i;
                } else if m.len() == 1 && m[0].1 == 1 && e.1 == 0 {
                    e.1 = i;
                    e.2 = order.iter().position(|b| b.0 == m[0].0)? as u32;
                } else {
                    return None;
                }
            }
            w[k] = e;
        }
        want.push((w[0], w[1]));
    }
    Some(want)
}
fn honest(n: usize, t: u64) -> Result<bool, String> {
    native_honest::<NP>(
        &[B::from(t)],
        &[],
        &mut |p, vs, _| {
            range_proof(p, vs[0].into(), Some(t), n).unwrap();
        },
        &mut |v, vs, _| {
            range_proof(v, vs[0].into(), None, n).unwrap();
        },
    )
}

pub fn run(r: &mut Report) {
    r.fns(&["relations::range_proof::range_proof (on GCS<Sym<Fq>> and, compiled by Kani, on bit-vectors)"]);
    r.assume("the field is an integral domain; 2^64 < p, so integers below 2^64 are distinct residues");
    r.bounds.push("bit lengths n = 0..=64, each; every field value and every assignment of the wires (soundness)".into());
    r.outside.push("lengths above 64; values handed in as None on the prover side".into());
    let mut z = Z3::new(60_000);
    let mut wants = vec![];
    let mut seen = HashSet::new();
    for n in 0..=64usize {
        let w = one_n(r, &mut z, n, &mut seen);
        if r.violated() {
            r.absorb(&z);
            return;
        }
        match w {
            Some(w) => wants.push((n, w)),
            None => r.inconclusive(format!("n={}: the wires are no functions of single bits", n)),
        }
    }
    r.absorb(&z);
    if !r.inconclusive.is_empty() {
        return;
    }
    // prover and verifier declare the same system
    for n in [1usize, 5, 64] {
        let rec = record(n);
        let mut g = GCS::<B>::new(true);
        let x = g.commit(Sym::cst(B::from(1u64)));
        range_proof(&mut g, x.into(), Some(1), n).expect("range_proof");
        r.cases += 1;
        let same = g.cons == rec.g.cons && g.gates.len() == rec.g.gates.len();
        if !same {
            r.replays += 1;
            match honest(n, 1) {
                Ok(true) => r.inconclusive("prover and verifier declare different systems".into()),
                o => r.violation("range sides", &format!("prover and verifier declare different systems, honest proof of 1 < 2^{}: {:?}", n, o)),
            }
            return;
        }
    }
    // honest side
    let dir = concat!(env!("CARGO_MANIFEST_DIR"), "/../.build");
    let f = format!("{}/kp_expect.rs", dir);
    let mut src = String::new();
    for (n, w) in &wants {
        src.push_str(&format!(
            "#[kani::proof]\n#[kani::unwind({})]\nfn range_honest_{}() {{ static W: &[(Want, Want)] = &{:?}; honest({}, W) }}\n",
            n + 3,
            n,
            w,
            n
        ));
    }
    std::fs::write(&f, src).expect("expect file");
    let f = std::fs::canonicalize(&f).unwrap();
    let list: &[usize] = if r.thorough() { &[64, 1, 8, 16, 31, 32, 33, 48, 63] } else { &[33] };
    let mut det = vec![];
    for n in list {
        if r.thorough() && r.elapsed() > 600.0 {
            r.outside.push(format!("honest side at n={} (time)", n));
            continue;
        }
        let k = crate::kani::run(&format!("range::range_honest_{}", n), &[("KP_EXPECT", f.to_str().unwrap())], 600);
        r.queries += 1;
        r.cases += 1;
        r.solver_s += k.secs;
        r.max_query_s = r.max_query_s.max(k.secs);
        det.push(format!("n={}: {:?} in {:.0} s, {}", n, k.ok, k.secs, k.steps));
        match k.ok {
            Some(true) => {
                r.unsat += 1;
                r.oblige(1, Verdict::Unsat);
            }
            Some(false) => {
                r.sat += 1;
                r.oblige(1, Verdict::Sat);
                let t = k.bytes.iter().find(|b| b.len() == 8).map(|b| u64::from_le_bytes(b[..].try_into().unwrap()));
                let mut hit = false;
                for t in t.into_iter().chain((0..*n).map(|i| 1u64 << i)).chain([0]) {
                    r.replays += 1;
                    match honest(*n, t) {
                        Ok(true) => {}
                        o => {
                            r.violation(&format!("range honest n={}", n), &format!("the honest prover fails for {} < 2^{}: {:?}", t, n, o));
                            hit = true;
                            break;
                        }
                    }
                }
                if !hit {
                    r.inconclusive(format!("Kani n={}: {}; no failing value found natively", n, k.tail));
                }
                break;
            }
            None => {
                r.unknown += 1;
                r.inconclusive(format!("Kani n={}: no answer: {}", n, k.tail));
                break;
            }
        }
    }
    r.bounds.push(format!("honest side: every u64 below 2^n for n in {:?}, loops unrolled n+3 times with unwinding assertions", list));
    r.extra.push(("kani".into(), format!("[{}]", det.iter().map(|d| js(d)).collect::<Vec<_>>().join(","))));
    r.sample(format!("n=64: wires {:?} ...", &wants.last().unwrap().1[..2]));
    r.explanation = "For each n the constraints range_proof declares on a recording constraint system (every wire a fresh symbol) are reduced by linear elimination; z3 shows branch by branch that each wire entering the value is 0 or 1 (zero products split), that the weighted sum of such bits lies in [0, 2^n) as an integer and that every integer of the range is reached. The honest side runs the compiled gadget under Kani/CBMC with a symbolic u64: the assigned wires equal the ones those constraints require.".into();
}
