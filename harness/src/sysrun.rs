//! A family of constraint systems, declared through the public API on the real prover and verifier.
use ark_ec::AffineRepr;
use ark_ff::Field;
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use merlin::Transcript;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub m: usize,
    pub vecs: Vec<usize>,
    pub g1: usize,
    /// gates made by `multiply`
    pub mul: usize,
    /// single `allocate` calls
    pub alloc: usize,
    pub c1: usize,
    pub phase2: bool,
    pub g2: usize,
    pub c2: usize,
    /// second-phase `multiply` and `allocate` calls
    pub mul2: usize,
    pub alloc2: usize,
    /// gates with zero inputs, under constraints of one and two terms without a constant (per phase)
    pub zg: usize,
    pub zg2: usize,
    /// each constraint mentions every `stride`-th variable (0: no variable)
    pub stride: usize,
    /// scalar commitments after the vector commitments
    pub vec_first: bool,
}
impl Spec {
    pub fn n1(&self) -> usize {
        let g = self.g1 + self.mul + (self.alloc + 1) / 2 + self.zg;
        self.vecs.iter().copied().max().unwrap_or(0).max(g)
    }
    pub fn n(&self) -> usize {
        self.n1() + if self.phase2 { self.g2 + self.mul2 + (self.alloc2 + 1) / 2 + self.zg2 } else { 0 }
    }
    pub fn padded(&self) -> usize {
        self.n().next_power_of_two()
    }
    pub fn show(&self) -> String {
        format!(
            "V={} vec={:?} gates={}+{}mul+{}alloc cons={} phase2={} gates2={}+{}mul+{}alloc cons2={} stride={} vecfirst={} short={}+{}",
            self.m, self.vecs, self.g1, self.mul, self.alloc, self.c1, self.phase2, self.g2, self.mul2, self.alloc2, self.c2, self.stride, self.vec_first, self.zg, self.zg2
        )
    }
}

/// Named values, created on first use.
pub type Src<F> = Rc<RefCell<dyn FnMut(&str) -> F>>;
pub fn memo_src<F: Copy + 'static>(mut mk: impl FnMut(&str) -> F + 'static) -> Src<F> {
    let mut map: HashMap<String, F> = HashMap::new();
    Rc::new(RefCell::new(move |n: &str| {
        if let Some(v) = map.get(n) {
            return *v;
        }
        let v = mk(n);
        map.insert(n.to_string(), v);
        v
    }))
}
pub fn get<F>(s: &Src<F>, n: &str) -> F {
    (s.borrow_mut())(n)
}

/// The harness' own record of the assignment.
#[derive(Clone, Default)]
pub struct Wit<F> {
    pub l: Vec<F>,
    pub r: Vec<F>,
    pub o: Vec<F>,
    pub v: Vec<F>,
    pub vc: Vec<Vec<F>>,
}
impl<F: Field> Wit<F> {
    pub fn val(&self, v: &Variable<F>) -> F {
        match v {
            Variable::VectorCommit(j, i) => self.vc[*j][*i],
            Variable::Committed(i) => self.v[*i],
            Variable::MultiplierLeft(i) => self.l[*i],
            Variable::MultiplierRight(i) => self.r[*i],
            Variable::MultiplierOutput(i) => self.o[*i],
            Variable::One(_) => F::one(),
        }
    }
    pub fn lc(&self, t: &[(Variable<F>, F)]) -> F {
        t.iter().fold(F::zero(), |a, (v, c)| a + self.val(v) * c)
    }
}

fn mk_lc<F: Field>(t: &[(Variable<F>, F)]) -> LinearCombination<F> {
    t.iter().cloned().collect()
}

fn mul_alloc<F: Field, CS: ConstraintSystem<F>>(
    cs: &mut CS,
    (nmul, nalloc): (usize, usize),
    pre: &str,
    src: &Src<F>,
    mut wit: Option<&mut Wit<F>>,
    vars: &mut Vec<Variable<F>>,
) {
    for i in 0..nmul {
        let side = |s: &str| -> Vec<(Variable<F>, F)> {
            let mut t: Vec<_> = vars
                .iter()
                .enumerate()
                .filter(|(k, _)| (k + i) % 3 == if s == "l" { 0 } else { 1 })
                .map(|(k, v)| (*v, get(src, &format!("{}mul{}{}_{}", pre, i, s, k))))
                .collect();
            t.push((Variable::One(Default::default()), get(src, &format!("{}mul{}{}_one", pre, i, s))));
            t
        };
        let (a, b) = (side("l"), side("r"));
        if let Some(w) = wit.as_mut() {
            let (l, r) = (w.lc(&a), w.lc(&b));
            w.l.push(l);
            w.r.push(r);
            w.o.push(l * r);
        }
        let (l, r, o) = cs.multiply(mk_lc(&a), mk_lc(&b));
        vars.extend([l, r, o]);
    }
    for i in 0..nalloc {
        let asg = wit.as_mut().map(|w| {
            let x = get(src, &format!("{}al{}", pre, i));
            if i % 2 == 0 {
                w.l.push(x);
                w.r.push(F::zero());
                w.o.push(F::zero());
            } else {
                let k = w.l.len() - 1;
                w.r[k] = x;
                w.o[k] = w.l[k] * x;
            }
            x
        });
        vars.push(cs.allocate(asg).unwrap());
    }
}

/// Gates and constraints of phase one.  With a witness (prover) the constants make every constraint hold;
/// they are stored in the source under "k<q>" through `setk`, so that the verifier uses the same ones.
#[allow(clippy::too_many_arguments)]
fn phase1<F: Field, CS: ConstraintSystem<F>>(
    cs: &mut CS,
    sp: &Spec,
    src: &Src<F>,
    ks: &Rc<RefCell<Vec<F>>>,
    mut wit: Option<&mut Wit<F>>,
    vars: &mut Vec<Variable<F>>,
) {
    for i in 0..sp.g1 {
        let asg = wit.as_mut().map(|w| {
            let (l, r) = (get(src, &format!("aL{}", i)), get(src, &format!("aR{}", i)));
            w.l.push(l);
            w.r.push(r);
            w.o.push(l * r);
            (l, r)
        });
        let (l, r, o) = cs.allocate_multiplier(asg).unwrap();
        vars.extend([l, r, o]);
    }
    mul_alloc(cs, (sp.mul, sp.alloc), "", src, wit.as_deref_mut(), vars);
    for q in 0..sp.c1 {
        let mut t = pick(sp, src, q, vars, "c");
        let k = match wit.as_ref() {
            Some(w) => {
                let k = -w.lc(&t);
                ks.borrow_mut().push(k);
                k
            }
            None => ks.borrow()[q],
        };
        t.push((Variable::One(Default::default()), k));
        cs.constrain(mk_lc(&t));
    }
    short(cs, sp.zg, "", src, wit.as_deref_mut());
}
/// Constraints of few terms: single variables, a repeated variable, a pair; all on gates whose inputs are zero.
fn short<F: Field, CS: ConstraintSystem<F>>(cs: &mut CS, n: usize, p: &str, src: &Src<F>, mut wit: Option<&mut Wit<F>>) {
    let mut vs = vec![];
    for _ in 0..n {
        if let Some(w) = wit.as_mut() {
            w.l.push(F::zero());
            w.r.push(F::zero());
            w.o.push(F::zero());
        }
        let asg = wit.as_ref().map(|_| (F::zero(), F::zero()));
        vs.push(cs.allocate_multiplier(asg).unwrap());
    }
    for (i, (l, r, o)) in vs.iter().enumerate() {
        let k = |s: &str| get(src, &format!("{}z{}{}", p, i, s));
        if i % 2 == 0 {
            cs.constrain((*l).into());
            cs.constrain(mk_lc(&[(*r, k("r"))]));
            cs.constrain(mk_lc(&[(*o, k("o"))]));
        } else {
            cs.constrain(mk_lc(&[(*l, k("a")), (*r, k("b"))]));
            cs.constrain(mk_lc(&[(*r, k("c")), (*r, k("d"))]));
            cs.constrain(mk_lc(&[(*o, k("e")), (*l, k("f")), (*o, k("g"))]));
        }
    }
}
fn pick<F: Field>(sp: &Spec, src: &Src<F>, q: usize, vars: &[Variable<F>], p: &str) -> Vec<(Variable<F>, F)> {
    if sp.stride == 0 {
        return vec![];
    }
    vars.iter()
        .enumerate()
        .filter(|(k, _)| (k + q) % sp.stride == 0)
        .map(|(k, v)| (*v, get(src, &format!("{}{}_{}", p, q, k))))
        .collect()
}
fn phase2<F: Field, CS: RandomizedConstraintSystem<F>>(
    cs: &mut CS,
    sp: &Spec,
    src: &Src<F>,
    ks: &Rc<RefCell<Vec<F>>>,
    mut wit: Option<Wit<F>>,
    mut vars: Vec<Variable<F>>,
) -> Result<(), R1CSError> {
    let chi = cs.challenge_scalar(b"chi");
    for i in 0..sp.g2 {
        let asg = wit.as_mut().map(|w| {
            let (l, r) = (get(src, &format!("bL{}", i)), get(src, &format!("bR{}", i)));
            w.l.push(l);
            w.r.push(r);
            w.o.push(l * r);
            (l, r)
        });
        let (l, r, o) = cs.allocate_multiplier(asg)?;
        vars.extend([l, r, o]);
    }
    mul_alloc(cs, (sp.mul2, sp.alloc2), "t", src, wit.as_mut(), &mut vars);
    for q in 0..sp.c2 {
        let a = pick(sp, src, q, &vars, "d");
        let b = pick(sp, src, q + 1, &vars, "e");
        let (k0, k1) = match wit.as_ref() {
            Some(w) => {
                let k = (-w.lc(&a), -w.lc(&b));
                ks.borrow_mut().push(k.0);
                ks.borrow_mut().push(k.1);
                k
            }
            None => (ks.borrow()[sp.c1 + 2 * q], ks.borrow()[sp.c1 + 2 * q + 1]),
        };
        let mut t = a;
        t.extend(b.into_iter().map(|(v, c)| (v, c * chi)));
        t.push((Variable::One(Default::default()), k0 + chi * k1));
        cs.constrain(mk_lc(&t));
    }
    short(cs, sp.zg2, "t", src, wit.as_mut());
    Ok(())
}

pub struct Proved<C: AffineRepr> {
    pub proof: R1CSProof<C>,
    pub v: Vec<C>,
    pub vc: Vec<C>,
    pub ks: Vec<C::ScalarField>,
    pub transcript: Transcript,
}

pub fn prove<C: AffineRepr>(sp: &Spec, src: &Src<C::ScalarField>, pc: &PedersenGens<C>, bp: &BulletproofGens<C>) -> Result<Proved<C>, R1CSError> {
    let mut tr = Transcript::new(b"sys");
    let ks = Rc::new(RefCell::new(vec![]));
    let mut wit = Wit::default();
    let mut vars = vec![];
    let (mut vs, mut vcs) = (vec![], vec![]);
    let mut p = Prover::<_, C>::new(pc, &mut tr);
    for phase in 0..2 {
        if (phase == 0) != sp.vec_first {
            for j in 0..sp.m {
                let (v, b) = (get(src, &format!("v{}", j)), get(src, &format!("vb{}", j)));
                let (c, x) = p.commit(v, b);
                wit.v.push(v);
                vs.push(c);
                vars.push(x);
            }
        } else {
            for (j, d) in sp.vecs.iter().enumerate() {
                let v: Vec<_> = (0..*d).map(|i| get(src, &format!("w{}_{}", j, i))).collect();
                let b = get(src, &format!("wb{}", j));
                let (c, x) = p.commit_vec(&v, b, bp);
                wit.vc.push(v);
                vcs.push(c);
                vars.extend(x);
            }
        }
    }
    phase1(&mut p, sp, src, &ks, Some(&mut wit), &mut vars);
    if sp.phase2 {
        // padding happens before the second phase
        let mut w2 = wit.clone();
        while w2.l.len() < sp.n1() {
            w2.l.push(ark_ff::Zero::zero());
            w2.r.push(ark_ff::Zero::zero());
            w2.o.push(ark_ff::Zero::zero());
        }
        let (sp2, src2, ks2) = (sp.clone(), src.clone(), ks.clone());
        p.specify_randomized_constraints(move |cs| phase2(cs, &sp2, &src2, &ks2, Some(w2), vars))?;
    }
    let (proof, _) = p.prove_and_return_transcript(bp)?;
    let ks = ks.borrow().clone();
    Ok(Proved { proof, v: vs, vc: vcs, ks, transcript: tr })
}

/// Declare the same system on a verifier.
pub fn verifier<'t, C: AffineRepr>(
    sp: &Spec,
    src: &Src<C::ScalarField>,
    ks: &[C::ScalarField],
    v: &[C],
    vc: &[C],
    tr: &'t mut Transcript,
) -> Verifier<&'t mut Transcript, C> {
    let ks = Rc::new(RefCell::new(ks.to_vec()));
    let mut vars = vec![];
    let mut vf = Verifier::<_, C>::new(tr);
    for phase in 0..2 {
        if (phase == 0) != sp.vec_first {
            for c in v {
                vars.push(vf.commit(*c));
            }
        } else {
            for (j, d) in sp.vecs.iter().enumerate() {
                vars.extend(vf.commit_vec(*d, vc[j]));
            }
        }
    }
    phase1(&mut vf, sp, src, &ks, None, &mut vars);
    if sp.phase2 {
        let (sp2, src2, ks2) = (sp.clone(), src.clone(), ks.clone());
        vf.specify_randomized_constraints(move |cs| phase2(cs, &sp2, &src2, &ks2, None, vars)).unwrap();
    }
    vf
}

/// The declared system, recorded by the harness' own constraint system.
pub fn record<F: Field>(sp: &Spec, src: &Src<F>, ks: &[F], chi: Option<F>) -> crate::recorder::Recorder<F> {
    let ks = Rc::new(RefCell::new(ks.to_vec()));
    let mut vars = vec![];
    let mut rc = crate::recorder::Recorder::new();
    for phase in 0..2 {
        if (phase == 0) != sp.vec_first {
            for _ in 0..sp.m {
                vars.push(rc.commit());
            }
        } else {
            for d in &sp.vecs {
                vars.extend(rc.commit_vec(*d));
            }
        }
    }
    phase1(&mut rc, sp, src, &ks, None, &mut vars);
    rc.pad();
    if sp.phase2 {
        rc.chal = chi;
        phase2(&mut rc, sp, src, &ks, None, vars).unwrap();
    }
    rc
}
