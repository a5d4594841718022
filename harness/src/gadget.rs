//! Gadgets run on a constraint system of the harness' own, in two modes: `honest` evaluates the values the
//! gadget assigns, `adversarial` ignores them and gives every wire a fresh symbol.  The resulting system of
//! equations is decided branch by branch (zero products split, linear equations eliminated) with z3.
use crate::common::*;
use bulletproofs::r1cs::*;
use merlin::Transcript;
use std::collections::{BTreeSet, HashMap, HashSet};

pub type S<B> = Sym<B>;
pub struct GCS<B: SymBase> {
    pub t: Transcript,
    pub gates: Vec<[S<B>; 3]>,
    /// declared constraints, in order
    pub cons: Vec<Vec<(Variable<S<B>>, S<B>)>>,
    pub honest: bool,
    pub missing: usize,
    pub pending: Option<usize>,
    pub v: Vec<S<B>>,
    pub vc: Vec<Vec<S<B>>>,
    /// gates made by `multiply`
    pub mul: Vec<usize>,
}
impl<B: SymBase> GCS<B> {
    pub fn new(honest: bool) -> Self {
        GCS { t: Transcript::new(b"gadget"), gates: vec![], cons: vec![], honest, missing: 0, pending: None, v: vec![], vc: vec![], mul: vec![] }
    }
    pub fn commit(&mut self, x: S<B>) -> Variable<S<B>> {
        self.v.push(x);
        Variable::Committed(self.v.len() - 1)
    }
    pub fn commit_vec(&mut self, x: &[S<B>]) -> Vec<Variable<S<B>>> {
        self.vc.push(x.to_vec());
        let j = self.vc.len() - 1;
        (0..x.len()).map(|i| Variable::VectorCommit(j, i)).collect()
    }
    pub fn val(&self, v: &Variable<S<B>>) -> S<B> {
        match v {
            Variable::VectorCommit(j, i) => self.vc[*j][*i],
            Variable::Committed(i) => self.v[*i],
            Variable::MultiplierLeft(i) => self.gates[*i][0],
            Variable::MultiplierRight(i) => self.gates[*i][1],
            Variable::MultiplierOutput(i) => self.gates[*i][2],
            Variable::One(_) => S::one(),
        }
    }
    pub fn lc(&self, t: &[(Variable<S<B>>, S<B>)]) -> S<B> {
        t.iter().fold(S::zero(), |a, (v, c)| a + self.val(v) * *c)
    }
    pub fn eval(&self, l: &LinearCombination<S<B>>) -> S<B> {
        self.lc(l.verif_terms())
    }
    fn gate(&mut self, l: Option<S<B>>, r: Option<S<B>>) -> usize {
        let i = self.gates.len();
        let mk = |n: &str| Sym::<B>::fresh(&format!("{}{}", n, i));
        let g = if self.honest {
            if l.is_none() || r.is_none() {
                self.missing += 1;
            }
            let (l, r) = (l.unwrap_or(S::zero()), r.unwrap_or(S::zero()));
            [l, r, l * r]
        } else {
            [mk("l"), mk("r"), mk("o")]
        };
        self.gates.push(g);
        i
    }
}
fn gv<B: SymBase>(i: usize) -> (Variable<S<B>>, Variable<S<B>>, Variable<S<B>>) {
    (Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i))
}
impl<B: SymBase> ConstraintSystem<S<B>> for GCS<B> {
    fn transcript(&mut self) -> &mut Transcript {
        &mut self.t
    }
    fn multiply(
        &mut self,
        left: LinearCombination<S<B>>,
        right: LinearCombination<S<B>>,
    ) -> (Variable<S<B>>, Variable<S<B>>, Variable<S<B>>) {
        let (a, b) = (self.eval(&left), self.eval(&right));
        let i = self.gate(Some(a), Some(b));
        let (l, r, o) = gv(i);
        self.mul.push(i);
        for (lc, v) in [(left, l), (right, r)] {
            let mut t = lc.verif_terms().to_vec();
            t.push((v, -S::one()));
            self.cons.push(t);
        }
        (l, r, o)
    }
    fn allocate(&mut self, a: Option<S<B>>) -> Result<Variable<S<B>>, R1CSError> {
        if self.honest && a.is_none() {
            self.missing += 1;
        }
        match self.pending.take() {
            None => {
                let i = self.gate(a.or(Some(S::zero())), Some(S::zero()));
                self.pending = Some(i);
                Ok(Variable::MultiplierLeft(i))
            }
            Some(i) => {
                if self.honest {
                    let l = self.gates[i][0];
                    let r = a.unwrap_or(S::zero());
                    self.gates[i] = [l, r, l * r];
                }
                Ok(Variable::MultiplierRight(i))
            }
        }
    }
    fn allocate_multiplier(
        &mut self,
        a: Option<(S<B>, S<B>)>,
    ) -> Result<(Variable<S<B>>, Variable<S<B>>, Variable<S<B>>), R1CSError> {
        let i = self.gate(a.map(|x| x.0), a.map(|x| x.1));
        Ok(gv(i))
    }
    fn metrics(&self) -> Metrics {
        unimplemented!()
    }
    fn constrain(&mut self, lc: LinearCombination<S<B>>) {
        self.cons.push(lc.verif_terms().to_vec());
    }
}

/// The equations of one run: products l*r = o and linear constraints over the symbols of the wires.
#[derive(Clone)]
pub struct Sys<B: SymBase> {
    pub prods: Vec<(Poly<B>, Poly<B>, Poly<B>)>,
    pub lins: Vec<Poly<B>>,
    pub sub: Vec<(u32, Poly<B>)>,
    pub dead: bool,
}
impl<B: SymBase> Sys<B> {
    pub fn of(n: &mut Norm<B>, g: &GCS<B>) -> Self {
        let prods = g.gates.iter().map(|[l, r, o]| ((*n.sym(l)).clone(), (*n.sym(r)).clone(), (*n.sym(o)).clone())).collect();
        let lins = g.cons.iter().map(|c| (*n.sym(&g.lc(c))).clone()).collect();
        Sys { prods, lins, sub: vec![], dead: false }
    }
    pub fn apply(&self, p: &Poly<B>) -> Poly<B> {
        let mut p = p.clone();
        // the substitution list is in triangular order
        for (v, e) in &self.sub {
            if p.t.keys().any(|m| m.iter().any(|(x, _)| x == v)) {
                p = p.subst(&|x| if x == *v { Some(e.clone()) } else { None });
            }
        }
        p
    }
    fn substitute(&mut self, v: u32, e: Poly<B>) {
        let has = |p: &Poly<B>| p.t.keys().any(|m| m.iter().any(|(x, _)| *x == v));
        let f = |x: u32| if x == v { Some(e.clone()) } else { None };
        for (l, r, o) in self.prods.iter_mut() {
            for p in [l, r, o] {
                if has(p) {
                    *p = p.subst(&f);
                }
            }
        }
        for p in self.lins.iter_mut() {
            if has(p) {
                *p = p.subst(&f);
            }
        }
        self.sub.push((v, e));
    }
    /// Eliminate variables that occur linearly with a constant coefficient; `rank` orders candidates
    /// (None: never eliminate).
    pub fn simplify(&mut self, rank: &dyn Fn(u32) -> Option<u32>) {
        loop {
            let mut changed = false;
            // products that became linear
            let mut more = vec![];
            self.prods.retain(|(l, r, o)| {
                if let (Some(_), _) | (_, Some(_)) = (l.as_const(), r.as_const()) {
                    more.push(l.mul(r).sub(o));
                    false
                } else {
                    true
                }
            });
            self.lins.extend(more);
            self.lins.retain(|p| !p.is_zero());
            if self.lins.iter().any(|p| p.as_const().is_some()) {
                self.dead = true;
                return;
            }
            let mut best: Option<(u32, usize, u32)> = None;
            for (i, p) in self.lins.iter().enumerate() {
                let mut lin: HashMap<u32, usize> = HashMap::new();
                for m in p.t.keys() {
                    for (x, e) in m.iter() {
                        let w = if m.len() == 1 && *e == 1 { 1 } else { 100 };
                        *lin.entry(*x).or_default() += w;
                    }
                }
                for (v, w) in lin {
                    if w == 1 {
                        if let Some(k) = rank(v) {
                            if best.map(|b| (k, p.len() as u32, v) < (b.0, self.lins[b.1].len() as u32, b.2)).unwrap_or(true) {
                                best = Some((k, i, v));
                            }
                        }
                    }
                }
            }
            if let Some((_, i, v)) = best {
                let p = self.lins.swap_remove(i);
                let c = p.t[&mono_pow(v, 1)];
                let mut rest = p.clone();
                rest.t.remove(&mono_pow(v, 1));
                let e = rest.scale(-c.inverse().unwrap());
                self.substitute(v, e);
                changed = true;
            }
            if !changed {
                return;
            }
        }
    }
    /// products known to vanish
    pub fn splits(&self) -> Vec<usize> {
        (0..self.prods.len()).filter(|i| self.prods[*i].2.is_zero()).collect()
    }
    pub fn hyps(&self) -> Vec<Poly<B>> {
        let mut h: Vec<Poly<B>> = self.prods.iter().map(|(l, r, o)| l.mul(r).sub(o)).collect();
        h.extend(self.lins.iter().cloned());
        h.retain(|p| !p.is_zero());
        h
    }
    pub fn vars(&self) -> BTreeSet<u32> {
        let mut s = BTreeSet::new();
        for (l, r, o) in &self.prods {
            for p in [l, r, o] {
                s.extend(p.vars());
            }
        }
        for p in &self.lins {
            s.extend(p.vars());
        }
        s
    }
    /// Split into systems that share no variable outside `cut`.
    pub fn components(&self, cut: &HashSet<u32>) -> Vec<Sys<B>> {
        let ne = self.prods.len() + self.lins.len();
        let mut parent: Vec<usize> = (0..ne).collect();
        fn find(p: &mut Vec<usize>, i: usize) -> usize {
            if p[i] != i {
                let r = find(p, p[i]);
                p[i] = r;
            }
            p[i]
        }
        let mut owner: HashMap<u32, usize> = HashMap::new();
        for i in 0..ne {
            let vs: Vec<u32> = if i < self.prods.len() {
                let (l, r, o) = &self.prods[i];
                l.vars().into_iter().chain(r.vars()).chain(o.vars()).collect()
            } else {
                self.lins[i - self.prods.len()].vars().into_iter().collect()
            };
            for v in vs {
                if cut.contains(&v) {
                    continue;
                }
                match owner.get(&v) {
                    Some(j) => {
                        let (a, b) = (find(&mut parent, i), find(&mut parent, *j));
                        parent[a.max(b)] = a.min(b);
                    }
                    None => {
                        owner.insert(v, i);
                    }
                }
            }
        }
        let mut out: Vec<(usize, Sys<B>)> = vec![];
        for i in 0..ne {
            let r = find(&mut parent, i);
            let k = match out.iter().position(|x| x.0 == r) {
                Some(k) => k,
                None => {
                    out.push((r, Sys { prods: vec![], lins: vec![], sub: vec![], dead: false }));
                    out.len() - 1
                }
            };
            if i < self.prods.len() {
                out[k].1.prods.push(self.prods[i].clone());
            } else {
                out[k].1.lins.push(self.lins[i - self.prods.len()].clone());
            }
        }
        out.into_iter().map(|x| x.1).collect()
    }
}

/// A claim: one of the alternatives holds, each a conjunction of polynomials that vanish.
pub struct Goal<B: SymBase> {
    pub name: String,
    pub alts: Vec<Vec<Poly<B>>>,
}
pub struct Prover3<'a, B: SymBase> {
    pub z: &'a mut Z3,
    pub rank: &'a dyn Fn(u32) -> Option<u32>,
    /// known facts (= 0) besides the system
    pub facts: Vec<Poly<B>>,
    pub leaves: usize,
    pub dead_leaves: usize,
    pub queries: usize,
    pub max_leaves: usize,
    /// which alternatives were used at the leaves
    pub used: BTreeSet<usize>,
    /// skip alternatives that mention a variable no hypothesis mentions
    pub lazy: bool,
    /// (alternative, branch) at each live leaf
    pub leaf_log: Vec<(usize, Sys<B>)>,
}
impl<'a, B: SymBase> Prover3<'a, B> {
    pub fn new(z: &'a mut Z3, rank: &'a dyn Fn(u32) -> Option<u32>) -> Self {
        Prover3 { z, rank, facts: vec![], leaves: 0, dead_leaves: 0, queries: 0, max_leaves: 20_000, used: Default::default(), lazy: false, leaf_log: vec![] }
    }
    /// Do the equations force the goal?  Err: a branch where no alternative could be derived.
    pub fn prove(&mut self, s: &Sys<B>, goal: &Goal<B>, mult: usize) -> Result<(), Sys<B>> {
        let mut s = s.clone();
        s.simplify(self.rank);
        if s.dead {
            self.leaves += 1;
            self.dead_leaves += 1;
            return Ok(());
        }
        let sp = s.splits();
        // while products remain to be split, only an alternative that already vanishes is asked about
        if let Some(k) = self.leaf(&s, goal, mult, !sp.is_empty()) {
            self.leaves += 1;
            self.used.insert(k);
            self.leaf_log.push((k, s));
            return Ok(());
        }
        if self.leaves > self.max_leaves {
            return Err(s);
        }
        // prefer splits on short products
        match sp.into_iter().min_by_key(|i| s.prods[*i].0.len() + s.prods[*i].1.len()) {
            None => Err(s),
            Some(i) => {
                let (l, r, _) = s.prods[i].clone();
                for f in [l, r] {
                    let mut b = s.clone();
                    b.prods.remove(i);
                    b.lins.push(f);
                    self.prove(&b, goal, mult)?;
                }
                Ok(())
            }
        }
    }
    fn leaf(&mut self, s: &Sys<B>, goal: &Goal<B>, mult: usize, trivial_only: bool) -> Option<usize> {
        let gs: Vec<Vec<Poly<B>>> = goal.alts.iter().map(|a| a.iter().map(|p| s.apply(p)).collect()).collect();
        // only alternatives that could hold generically are worth a query
        let base = s.hyps();
        let hy: Vec<Poly<B>> = base.iter().cloned().chain(self.facts.iter().map(|p| s.apply(p))).filter(|p| !p.is_zero()).collect();
        let mut order: Vec<usize> = (0..gs.len()).collect();
        if self.lazy {
            let mut vs: HashSet<u32> = HashSet::new();
            for h in &hy {
                vs.extend(h.vars());
            }
            order.retain(|k| gs[*k].iter().all(|p| p.vars().iter().all(|v| vs.contains(v))));
        }
        order.sort_by_key(|k| !gs[*k].iter().all(|p| p.is_zero()));
        for k in order {
            let alt = &gs[k];
            // a constant can only be derived from contradictory hypotheses: asked when it is the only claim
            let constant = alt.iter().any(|p| p.as_const().map(|c| !c.is_zero()).unwrap_or(false));
            if constant && gs.len() > 1 {
                continue;
            }
            if trivial_only && !alt.iter().all(|p| p.is_zero()) {
                continue;
            }
            let hs = if alt.iter().all(|p| p.is_zero()) {
                vec![]
            } else if constant {
                multiply(&hy, &hy, mult)
            } else {
                multiply(&hy, alt, mult)
            };
            self.queries += 1;
            let (v, _) = lin_implies(self.z, &hs, alt);
            if v == Verdict::Unsat {
                return Some(k);
            }
        }
        None
    }
}
/// Hypotheses times monomials (of degree up to `deg` in the variables of the goals and hypotheses).
pub fn multiply<B: SymBase>(hy: &[Poly<B>], goals: &[Poly<B>], deg: usize) -> Vec<Poly<B>> {
    let mut out: Vec<Poly<B>> = hy.to_vec();
    if deg == 0 {
        return out;
    }
    let mut vs: BTreeSet<u32> = BTreeSet::new();
    for p in goals {
        vs.extend(p.vars());
    }
    // close under shared variables once
    for h in hy {
        let hv = h.vars();
        if hv.iter().any(|v| vs.contains(v)) {
            vs.extend(hv);
        }
    }
    let rel: Vec<&Poly<B>> = hy.iter().filter(|h| h.vars().iter().any(|v| vs.contains(v))).collect();
    let vs: Vec<u32> = vs.into_iter().collect();
    let mut monos: Vec<Mono> = vec![];
    let mut layer: Vec<Mono> = vec![Box::new([])];
    for _ in 0..deg {
        let mut next: BTreeSet<Mono> = BTreeSet::new();
        for m in &layer {
            for v in &vs {
                next.insert(mono_mul(m, &mono_pow(*v, 1)));
            }
        }
        layer = next.into_iter().collect();
        monos.extend(layer.iter().cloned());
    }
    for h in rel {
        for m in &monos {
            out.push(h.mul_mono(m, B::one()));
        }
    }
    out
}

/// Numbers satisfying all equations (values of `fixed` are kept), found by assigning and solving greedily.
pub fn find_point<B: SymBase>(eqs: &[Poly<B>], fixed: &HashMap<u32, B>, free_last: &HashSet<u32>, tries: usize) -> Option<HashMap<u32, B>> {
    use rand::{Rng, SeedableRng};
    let mut rng = rand::rngs::StdRng::seed_from_u64(77);
    'try_: for _ in 0..tries {
        let mut asg = fixed.clone();
        let mut elim: Vec<(u32, Poly<B>)> = vec![];
        let mut eqs: Vec<Poly<B>> = eqs.iter().map(|p| p.subst(&|v| asg.get(&v).map(|c| Poly::cst(*c)))).collect();
        loop {
            eqs.retain(|p| !p.is_zero());
            if eqs.iter().any(|p| p.as_const().is_some()) {
                continue 'try_;
            }
            if eqs.is_empty() {
                // eliminated variables, last first; whatever is still free is random
                let mut free: Vec<u32> = elim.iter().flat_map(|(_, e)| e.vars()).collect();
                free.retain(|v| !asg.contains_key(v) && !elim.iter().any(|e| e.0 == *v));
                free.sort();
                for v in free {
                    let x = B::rand(&mut rng);
                    asg.entry(v).or_insert(x);
                }
                for (v, e) in elim.iter().rev() {
                    let x = e.subst(&|y| asg.get(&y).map(|c| Poly::cst(*c))).as_const().unwrap_or(B::zero());
                    asg.insert(*v, x);
                }
                return Some(asg);
            }
            // a linear equation: eliminate one of its variables
            let mut lin: Option<(usize, u32)> = None;
            for (i, p) in eqs.iter().enumerate() {
                if p.t.keys().all(|m| m.is_empty() || (m.len() == 1 && m[0].1 == 1)) {
                    let vs = p.vars();
                    let v = vs.iter().copied().find(|v| free_last.contains(v)).or_else(|| vs.iter().copied().min());
                    if let Some(v) = v {
                        if lin.map(|(j, _)| eqs[j].len() > p.len()).unwrap_or(true) {
                            lin = Some((i, v));
                        }
                    }
                }
            }
            if let Some((i, v)) = lin {
                let p = eqs.swap_remove(i);
                let k = mono_pow(v, 1);
                let c = p.t[&k];
                let mut rest = p.clone();
                rest.t.remove(&k);
                let e = rest.scale(-c.inverse().unwrap());
                eqs = eqs.iter().map(|p| if p.vars().contains(&v) { p.subst(&|y| if y == v { Some(e.clone()) } else { None }) } else { p.clone() }).collect();
                elim.push((v, e));
                continue;
            }
            // solvable equation
            let mut set: Option<(u32, B)> = None;
            for p in &eqs {
                let vs = p.vars();
                if vs.len() == 1 {
                    let v = *vs.iter().next().unwrap();
                    let sp = p.split(&[v]);
                    let c = |k: i32| sp.get(&vec![k]).and_then(|q| q.as_const()).unwrap_or(B::zero());
                    let d = *sp.keys().map(|k| &k[0]).max().unwrap();
                    let x = match d {
                        1 => Some(-c(0) * c(1).inverse().unwrap()),
                        2 => {
                            let (a, b, e) = (c(2), c(1), c(0));
                            let disc = b * b - a * e * B::from(4u64);
                            disc.sqrt().map(|s| {
                                let s = if rng.gen() { s } else { -s };
                                (-b + s) * (a + a).inverse().unwrap()
                            })
                        }
                        _ => None,
                    };
                    match x {
                        Some(x) => {
                            set = Some((v, x));
                            break;
                        }
                        None => continue 'try_,
                    }
                }
            }
            let (v, x) = match set {
                Some(s) => s,
                None => {
                    // assign one unknown at random
                    let p = &eqs[rng.gen_range(0..eqs.len())];
                    let mut vs: Vec<u32> = p.vars().into_iter().collect();
                    vs.sort();
                    let pref: Vec<u32> = vs.iter().copied().filter(|v| !free_last.contains(v)).collect();
                    let vs = if pref.is_empty() { vs } else { pref };
                    let v = vs[rng.gen_range(0..vs.len())];
                    let x = match rng.gen_range(0..4) {
                        0 => B::from(rng.gen_range(0..3u64)),
                        _ => B::rand(&mut rng),
                    };
                    (v, x)
                }
            };
            asg.insert(v, x);
            eqs = eqs.iter().map(|p| if p.vars().contains(&v) { p.subst(&|y| if y == v { Some(Poly::cst(x)) } else { None }) } else { p.clone() }).collect();
        }
    }
    None
}
