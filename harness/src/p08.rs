//! P08: prover, verifier and an independent interpreter build the same system from the same calls.
use crate::common::*;
use crate::explore::*;
use crate::sysrun::{get, memo_src, Src, Wit};
use ark_ec::AffineRepr;
use bulletproofs::r1cs::*;
use merlin::Transcript;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Commit,
    VecC(usize),
    Alloc,
    AllocMul,
    Mul(usize),
    Con(usize),
    Later(Vec<Op>),
}
use Op::*;

type Lc<F> = LinearCombination<F>;
type Map<F> = BTreeMap<String, (Variable<F>, F)>;

/// One way of building a linear combination through the public operators, next to its meaning.
fn put<F: Field>(m: &mut Map<F>, v: Variable<F>, c: F) {
    let e = m.entry(format!("{:?}", v)).or_insert((v, F::zero()));
    e.1 += c;
}
fn uni<F: Field>() -> Variable<F> {
    Variable::One(Default::default())
}
fn map_of<F: Field>(t: &[(Variable<F>, F)]) -> Map<F> {
    let mut m = Map::new();
    for (v, c) in t {
        put(&mut m, *v, *c);
    }
    m
}
fn scaled<F: Field>(m: &Map<F>, k: F) -> Map<F> {
    m.iter().map(|(a, (v, c))| (a.clone(), (*v, *c * k))).collect()
}
fn plus<F: Field>(a: &Map<F>, b: &Map<F>, k: F) -> Map<F> {
    let mut m = a.clone();
    for (v, c) in b.values() {
        put(&mut m, *v, *c * k);
    }
    m
}
pub const FORMS: usize = 26;
/// Build form `f` from atoms; `s` names fresh scalars.
fn form<F: Field>(f: usize, vars: &[Variable<F>], at: usize, s: &mut dyn FnMut() -> F) -> (Lc<F>, Map<F>) {
    form_d(f, 2, vars, at, s)
}
fn form_d<F: Field>(f: usize, depth: usize, vars: &[Variable<F>], at: usize, s: &mut dyn FnMut() -> F) -> (Lc<F>, Map<F>) {
    let x = *vars.get(at % vars.len().max(1)).unwrap_or(&uni());
    let y = *vars.get((at * 7 + 3) % vars.len().max(1)).unwrap_or(&uni());
    let mx = map_of(&[(x, F::one())]);
    let my = map_of(&[(y, F::one())]);
    let k = s();
    let one = |c: F| map_of(&[(uni(), c)]);
    match if depth == 0 { f % 13 } else { f % FORMS } {
        0 => (x.into(), mx),
        1 => (Lc::from(k), one(k)),
        2 => (Lc::default(), Map::new()),
        3 => (constant::<F, _>(k), one(k)),
        4 => (-x, scaled(&mx, -F::one())),
        5 => (x + y, plus(&mx, &my, F::one())),
        6 => (x - y, plus(&mx, &my, -F::one())),
        7 => (x * k, scaled(&mx, k)),
        8 => (x + k, plus(&mx, &one(k), F::one())),
        9 => (x - k, plus(&mx, &one(k), -F::one())),
        10 => {
            let t = [(x, k), (y, s()), (x, s()), (uni(), s())];
            (t.iter().cloned().collect(), map_of(&t))
        }
        11 => {
            let t = [(y, k), (x, s())];
            (t.iter().collect(), map_of(&t))
        }
        12 => {
            // x = 2^64 - 1 as an integer scale
            (x * 18446744073709551615u64, scaled(&mx, F::from(18446744073709551615u64)))
        }
        g => {
            let (a, ma) = form_d(g * 5 + 1, depth - 1, vars, at + 1, s);
            let (b, mb) = form_d(g * 3 + 7, depth - 1, vars, at + 2, s);
            match g {
                13 => (a + b, plus(&ma, &mb, F::one())),
                14 => (a - b, plus(&ma, &mb, -F::one())),
                15 => (-a, scaled(&ma, -F::one())),
                16 => (a * k, scaled(&ma, k)),
                17 => (a.scalar_mul(k), scaled(&ma, k)),
                18 => (a + x, plus(&ma, &mx, F::one())),
                19 => (a - x, plus(&ma, &mx, -F::one())),
                20 => (a + k, plus(&ma, &one(k), F::one())),
                21 => (a - k, plus(&ma, &one(k), -F::one())),
                22 => (x + a, plus(&mx, &ma, F::one())),
                23 => (x - a, plus(&mx, &ma, -F::one())),
                24 => ((a - b) * k, scaled(&plus(&ma, &mb, -F::one()), k)),
                _ => (-(a + b.clone()) - (x - b), scaled(&plus(&ma, &mx, F::one()), -F::one())),
            }
        }
    }
}

#[derive(Default)]
struct Log<F: Field> {
    vars: Vec<Variable<F>>,
    metrics: Vec<[usize; 4]>,
    /// meaning of every declared constraint, in order
    cons: Vec<Map<F>>,
    n_con: usize,
    gates: usize,
    pending: Option<usize>,
    expect: Vec<Variable<F>>,
    expect_m: Vec<[usize; 4]>,
    later: usize,
    wit: Wit<F>,
    nv: usize,
    nvec: Vec<usize>,
    bad: Vec<String>,
    ctr: usize,
    second: bool,
}
impl<F: Field> Log<F> {
    fn meter(&mut self, m: &Metrics, phase2: bool) {
        self.metrics.push([m.multipliers, m.constraints, m.phase_one_constraints, m.phase_two_constraints]);
        if !phase2 {
            self.expect_m.push([self.gates, self.n_con + self.later, self.n_con, self.later]);
        } else {
            let l = *self.metrics.last().unwrap();
            self.expect_m.push([self.gates, l[1], l[2], l[3]]);
        }
    }
}

fn step<F: Field, CS: ConstraintSystem<F>>(cs: &mut CS, op: &Op, src: &Src<F>, l: &mut Log<F>, prover: bool) {
    let c = l.ctr;
    l.ctr += 1;
    let some = |x: F| if prover { Some(x) } else { None };
    match op {
        Alloc => {
            let x = get(src, &format!("a{}", c));
            let v = cs.allocate(some(x)).unwrap();
            match l.pending.take() {
                None => {
                    l.pending = Some(l.gates);
                    l.expect.push(Variable::MultiplierLeft(l.gates));
                    l.gates += 1;
                    l.wit.l.push(x);
                    l.wit.r.push(F::zero());
                    l.wit.o.push(F::zero());
                }
                Some(i) => {
                    l.expect.push(Variable::MultiplierRight(i));
                    l.wit.r[i] = x;
                    l.wit.o[i] = l.wit.l[i] * x;
                }
            }
            l.vars.push(v);
        }
        AllocMul => {
            let (x, y) = (get(src, &format!("l{}", c)), get(src, &format!("r{}", c)));
            let (a, b, o) = cs.allocate_multiplier(if prover { Some((x, y)) } else { None }).unwrap();
            l.vars.extend([a, b, o]);
            let i = l.gates;
            l.gates += 1;
            l.expect.extend([Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i)]);
            l.wit.l.push(x);
            l.wit.r.push(y);
            l.wit.o.push(x * y);
        }
        Mul(f) => {
            let mut k = 0;
            let mut s = || {
                k += 1;
                get(src, &format!("m{}_{}", c, k))
            };
            let vs = l.vars.clone();
            let (a, ma) = form(*f, &vs, c, &mut s);
            let (b, mb) = form(f / FORMS + f + 5, &vs, c + 1, &mut s);
            let (x, y, o) = cs.multiply(a, b);
            l.vars.extend([x, y, o]);
            let i = l.gates;
            l.gates += 1;
            let (el, er) = (Variable::MultiplierLeft(i), Variable::MultiplierRight(i));
            l.expect.extend([el, er, Variable::MultiplierOutput(i)]);
            if prover {
                let val = |l: &Log<F>, m: &Map<F>| m.values().fold(F::zero(), |a, (v, c)| a + l.wit.val(v) * c);
                let (p, q) = (val(l, &ma), val(l, &mb));
                l.wit.l.push(p);
                l.wit.r.push(q);
                l.wit.o.push(p * q);
            } else {
                l.wit.l.push(F::zero());
                l.wit.r.push(F::zero());
                l.wit.o.push(F::zero());
            }
            for (m, v) in [(ma, el), (mb, er)] {
                l.n_con += 1;
                l.cons.push(plus(&m, &map_of(&[(v, F::one())]), -F::one()));
            }
        }
        Con(f) => {
            let mut k = 0;
            let mut s = || {
                k += 1;
                get(src, &format!("k{}_{}", c, k))
            };
            let vs = l.vars.clone();
            let (a, ma) = form(*f, &vs, c, &mut s);
            cs.constrain(a);
            l.n_con += 1;
            l.cons.push(ma);
        }
        _ => unreachable!(),
    }
}
fn later<F: Field, CS: RandomizedConstraintSystem<F>>(cs: &mut CS, ops: &[Op], src: &Src<F>, l: &Rc<RefCell<Log<F>>>, prover: bool, dim: usize) {
    let mut l = l.borrow_mut();
    // the second phase starts with whole gates, at least as many as the widest vector commitment
    if !std::mem::replace(&mut l.second, true) {
        l.pending = None;
    }
    l.gates = l.gates.max(dim);
    while l.wit.l.len() < l.gates {
        l.wit.l.push(F::zero());
        l.wit.r.push(F::zero());
        l.wit.o.push(F::zero());
    }
    let chi = cs.challenge_scalar(b"c");
    let _ = chi;
    for o in ops {
        step(cs, o, src, &mut l, prover);
        let m = cs.metrics();
        l.meter(&m, true);
    }
}

pub type Pairs<F> = Vec<(String, F, F)>;
fn cmp_maps<F: Field>(what: &str, got: &Map<F>, want: &Map<F>, out: &mut Pairs<F>) {
    let mut keys: Vec<&String> = got.keys().chain(want.keys()).collect();
    keys.sort();
    keys.dedup();
    for k in keys {
        let g = got.get(k).map(|x| x.1).unwrap_or(F::zero());
        let w = want.get(k).map(|x| x.1).unwrap_or(F::zero());
        out.push((format!("{} at {}", what, k), g, w));
    }
}

/// Runs a script on both sides; scalars that must be equal, or a structural difference.
pub fn run_script<C: AffineRepr>(
    ops: &[Op],
    src: &Src<C::ScalarField>,
    pc: &PedersenGens<C>,
    bp: &BulletproofGens<C>,
) -> Result<Pairs<C::ScalarField>, String> {
    let mut out: Pairs<C::ScalarField> = vec![];
    let (mut tp, mut tv) = (Transcript::new(b"s"), Transcript::new(b"s"));
    let mut p = Prover::<_, C>::new(pc, &mut tp);
    let mut v = Verifier::<_, C>::new(&mut tv);
    let lp = Rc::new(RefCell::new(Log::default()));
    let lv = Rc::new(RefCell::new(Log::default()));
    let dim = ops.iter().filter_map(|o| if let VecC(d) = o { Some(*d) } else { None }).max().unwrap_or(0);
    for (i, op) in ops.iter().enumerate() {
        match op {
            Commit => {
                let (x, b) = (get(src, &format!("v{}", i)), get(src, &format!("vb{}", i)));
                let (c, a) = p.commit(x, b);
                let b2 = v.commit(c);
                let mut l = lp.borrow_mut();
                let e = Variable::Committed(l.nv);
                l.nv += 1;
                l.expect.push(e);
                l.vars.push(a);
                l.wit.v.push(x);
                lv.borrow_mut().vars.push(b2);
                lv.borrow_mut().expect.push(e);
            }
            VecC(d) => {
                let xs: Vec<_> = (0..*d).map(|j| get(src, &format!("w{}_{}", i, j))).collect();
                let b = get(src, &format!("wb{}", i));
                let (c, a) = p.commit_vec(&xs, b, bp);
                let b2 = v.commit_vec(*d, c);
                let mut l = lp.borrow_mut();
                let n = l.nvec.len();
                l.nvec.push(*d);
                let e: Vec<_> = (0..*d).map(|j| Variable::VectorCommit(n, j)).collect();
                l.expect.extend(e.clone());
                l.vars.extend(a);
                l.wit.vc.push(xs);
                lv.borrow_mut().vars.extend(b2);
                lv.borrow_mut().expect.extend(e);
            }
            Later(ops2) => {
                for (l, pr) in [(&lp, true), (&lv, false)] {
                    let (s2, o2, l2) = (src.clone(), ops2.clone(), l.clone());
                    l.borrow_mut().later += 1;
                    if pr {
                        p.specify_randomized_constraints(move |cs| {
                            later(cs, &o2, &s2, &l2, true, dim);
                            Ok(())
                        })
                        .unwrap();
                    } else {
                        v.specify_randomized_constraints(move |cs| {
                            later(cs, &o2, &s2, &l2, false, dim);
                            Ok(())
                        })
                        .unwrap();
                    }
                }
            }
            o => {
                step(&mut p, o, src, &mut lp.borrow_mut(), true);
                step(&mut v, o, src, &mut lv.borrow_mut(), false);
            }
        }
        for (m, l) in [(p.metrics(), &lp), (v.metrics(), &lv)] {
            l.borrow_mut().meter(&m, false);
        }
        if p.size() != v.size() {
            return Err(format!("size {} (prover) != {} (verifier)", p.size(), v.size()));
        }
    }
    {
        let (l, w) = (lp.borrow(), lv.borrow());
        // declared constraints on both sides against their meaning
        for (who, cons, meaning) in [("prover", p.verif_constraints(), &l.cons), ("verifier", v.verif_constraints(), &w.cons)] {
            if cons.len() != meaning.len() {
                return Err(format!("{} holds {} constraints for {} declared", who, cons.len(), meaning.len()));
            }
            for (q, (a, b)) in cons.iter().zip(meaning).enumerate() {
                cmp_maps(&format!("{} constraint {}", who, q), &map_of(a.verif_terms()), b, &mut out);
            }
        }
        if v.verif_num_vars() != w.gates {
            return Err(format!("verifier counts {} gates for {}", v.verif_num_vars(), w.gates));
        }
        let (gl, gr, go) = p.verif_gates();
        if gl.len() != l.gates || gr.len() != l.gates || go.len() != l.gates {
            return Err(format!("prover holds {}/{}/{} gate values for {}", gl.len(), gr.len(), go.len(), l.gates));
        }
        for i in 0..gl.len() {
            out.push((format!("gate {} left*right=output", i), gl[i] * gr[i], go[i]));
            out.push((format!("gate {} left", i), gl[i], l.wit.l[i]));
            out.push((format!("gate {} right", i), gr[i], l.wit.r[i]));
        }
    }
    // the second phase runs inside prove / verify
    if ops.iter().any(|o| matches!(o, Later(_))) {
        let proof = p.prove(bp).map_err(|e| format!("prove: {:?}", e))?;
        let _ = v.verification_scalars_and_points(&proof);
    }
    let (l, w) = (lp.borrow(), lv.borrow());
    for (who, x) in [("prover", &l), ("verifier", &w)] {
        if x.vars != x.expect {
            return Err(format!("{} variables {:?} instead of {:?}", who, x.vars, x.expect));
        }
        if x.metrics != x.expect_m {
            return Err(format!("{} metrics {:?} instead of {:?}", who, x.metrics, x.expect_m));
        }
    }
    if l.metrics != w.metrics {
        return Err(format!("metrics differ: prover {:?} verifier {:?}", l.metrics, w.metrics));
    }
    Ok(out)
}

/// All operator forms against their meaning.
fn lc_pairs<F: Field>(src: &Src<F>) -> Pairs<F> {
    let vars = [
        Variable::Committed(0),
        Variable::VectorCommit(0, 0),
        Variable::VectorCommit(0, 1),
        Variable::MultiplierLeft(0),
        Variable::MultiplierRight(0),
        Variable::MultiplierOutput(0),
        Variable::MultiplierLeft(1),
        uni(),
    ];
    let mut out = vec![];
    for f in 0..FORMS {
        for at in 0..vars.len() {
            let mut k = 0;
            let mut s = || {
                k += 1;
                get(src, &format!("f{}", k))
            };
            let (a, m) = form(f, &vars, at, &mut s);
            cmp_maps(&format!("form {} on {}", f, at), &map_of(a.verif_terms()), &m, &mut out);
        }
    }
    out
}

fn scripts(th: bool) -> Vec<Vec<Op>> {
    let base = [Commit, VecC(2), Alloc, AllocMul, Mul(5), Con(10)];
    let mut v = vec![];
    // all sequences up to length 3 (4)
    let max = if th { 4 } else { 3 };
    let mut cur: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..max {
        let mut nx = vec![];
        for s in &cur {
            for o in &base {
                let mut t = s.clone();
                t.push(o.clone());
                nx.push(t);
            }
        }
        v.extend(nx.clone());
        cur = nx;
    }
    // longer mixed ones, every form used in a gate and in a constraint
    let mut seed = 12345u64;
    let mut rnd = |n: usize| {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((seed >> 33) as usize) % n
    };
    for i in 0..if th { 120 } else { 40 } {
        let len = 6 + rnd(8);
        // vector commitments exclude second-phase gates (asserted by the prover)
        let vecs = i % 4 != 0;
        let mut s = if vecs { vec![Commit, VecC(1 + rnd(3))] } else { vec![Commit] };
        for _ in 0..len {
            s.push(match rnd(7) {
                0 | 1 if !vecs => Commit,
                0 => Commit,
                1 if vecs => VecC(1 + rnd(3)),
                2 | 3 => Alloc,
                4 => AllocMul,
                5 => Mul(rnd(400)),
                _ => Con(rnd(FORMS)),
            });
        }
        if i % 2 == 0 {
            for _ in 0..1 + rnd(2) {
                let mut t = vec![];
                for _ in 0..1 + rnd(5) {
                    t.push(match if vecs { 3 } else { rnd(4) } {
                        0 => Alloc,
                        1 => AllocMul,
                        2 => Mul(rnd(400)),
                        _ => Con(rnd(FORMS)),
                    });
                }
                s.push(Later(t));
            }
        }
        v.push(s);
    }
    for f in 0..FORMS {
        v.push(vec![Commit, VecC(2), AllocMul, Mul(f), Mul(f + 7), Con(f)]);
    }
    // half-filled allocations around the phase border
    for pre in 0..3 {
        for post in 0..4 {
            let mut s = vec![Alloc; pre];
            s.push(Later(vec![Alloc; post]));
            s.push(Alloc);
            v.push(s.clone());
            if post == 0 {
                s.insert(0, VecC(4));
                v.push(s);
            }
        }
    }
    v
}

fn native_src(pins: &HashMap<String, L4>, seed: u64) -> Src<Fq> {
    use ark_std::rand::SeedableRng;
    let mut rng = ark_std::rand::rngs::StdRng::seed_from_u64(seed);
    let pins = pins.clone();
    memo_src(move |n: &str| match pins.get(n) {
        Some(l) => Fq::from_l4(l),
        None => <Fq as ark_ff::UniformRand>::rand(&mut rng),
    })
}
fn native_bad(ops: Option<&[Op]>, pins: &HashMap<String, L4>) -> Option<String> {
    for seed in 0..3 {
        let src = native_src(pins, seed);
        let res = match ops {
            Some(o) => {
                let (pc, bp) = native_gens(64);
                match quiet(|| run_script::<NP>(o, &src, pc, bp)) {
                    Ok(r) => r,
                    Err(e) => return Some(format!("panic: {}", e)),
                }
            }
            None => Ok(lc_pairs(&src)),
        };
        match res {
            Err(e) => return Some(e),
            Ok(p) => {
                if let Some((n, a, b)) = p.iter().find(|(_, a, b)| a != b) {
                    return Some(format!("{}: {} instead of {}", n, a, b));
                }
            }
        }
    }
    None
}

pub fn run(r: &mut Report) {
    r.explanation = "The same call script is executed on the real prover and the real verifier over symbolic scalars, next to an independent interpreter of the calls. Variables, constraint counts and metrics must agree step by step; each coefficient of each declared constraint (built through every public operator of linear combinations), each gate assignment and left*right=output are polynomials in the symbols, and the solver shows them equal for all values.".into();
    r.fns(&["Prover/Verifier::{new,commit,commit_vec,allocate,allocate_multiplier,multiply,constrain,metrics,size,specify_randomized_constraints}", "RandomizingProver/RandomizingVerifier (same methods)", "LinearCombination: From, FromIterator, Add, Sub, Neg, Mul, scalar_mul, constant; Variable operators"]);
    let g = gens(64);
    explore(r, "operators", 60, |r, pins| {
        let src = memo_src(|n: &str| SQ::fresh(n));
        judge(r, "linear combination operators", None, pins, &quiet(|| Ok(lc_pairs(&src))))
    });
    for ops in scripts(r.thorough()) {
        r.cases += 1;
        let nm = format!("{:?}", ops);
        explore(r, &nm, 6, |r, pins| {
            let src = memo_src(|n: &str| SQ::fresh(n));
            let res = quiet(|| run_script::<PA>(&ops, &src, &g.pc, &g.bp));
            judge(r, &nm, Some(&ops), pins, &res)
        });
        if r.violated() {
            break;
        }
    }
    missing(r);
    r.bounds.push(format!("{} call scripts: all sequences of up to {} of 6 calls, mixed scripts of up to 15 calls, callbacks; {} operator forms on 8 kinds of variables; all scalars symbolic", r.cases, if r.thorough() { 4 } else { 3 }, FORMS));
    r.outside.push("longer scripts; what second-phase constraints contribute to the equation is P01/P02's subject".into());
}

fn judge(r: &mut Report, nm: &str, ops: Option<&[Op]>, pins: &HashMap<String, L4>, res: &Result<Result<Pairs<SQ>, String>, String>) -> bool {
    let bad = match res {
        Err(e) => format!("panic: {}", e),
        Ok(Err(e)) => e.clone(),
        Ok(Ok(p)) => {
            let mut nm = Norm::<Fq>::new();
            let pairs: Vec<_> = p.iter().map(|(_, a, b)| ((*nm.sym(a)).clone(), (*nm.sym(b)).clone())).collect();
            let mut z = Z3::new(60_000);
            let (v, bad) = identical(&mut z, &pairs);
            r.oblige(pairs.len().max(1), v);
            r.absorb(&z);
            if v == Verdict::Unsat {
                if pairs.iter().any(|x| !x.1.is_zero()) {
                    r.vacuity_witnesses += 1;
                }
                return true;
            }
            bad.first().map(|i| format!("{}: {} instead of {}", p[*i].0, pairs[*i].0.show(), pairs[*i].1.show())).unwrap_or("solver gave no verdict".into())
        }
    };
    r.oblige(1, Verdict::Sat);
    r.replays += 1;
    match native_bad(ops, pins) {
        Some(e) => r.violation(nm, &format!("{}\nnative replay on Pallas (pinned {:?}): {}", bad, pins, e)),
        None => r.inconclusive(format!("{}: {}", nm, bad)),
    }
    false
}

/// A prover without an assignment gets an error and keeps its state.
fn missing(r: &mut Report) {
    let (pc, _) = native_gens(4);
    let mut t = Transcript::new(b"s");
    let mut p = Prover::<_, NP>::new(pc, &mut t);
    let a = quiet(|| p.allocate(None).is_err() && p.allocate_multiplier(None).is_err());
    let n = p.verif_gates().0.len();
    let ok = a == Ok(true) && n == 0;
    r.oblige(1, if ok { Verdict::Unsat } else { Verdict::Sat });
    if !ok {
        r.violation("missing assignment", &format!("allocation without assignment: errors={:?}, gates={}", a, n));
    }
}
