//! Sparse Laurent polynomials over a lifted field's base field, and the normaliser
//! from expression DAG nodes to polynomials.
use crate::sym::*;
use ark_ff::{Field, One, Zero};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

/// sorted (variable node, nonzero exponent)
pub type Mono = Box<[(u32, i32)]>;

pub fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut o = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i].0 < b[j].0 {
            o.push(a[i]);
            i += 1;
        } else if a[i].0 > b[j].0 {
            o.push(b[j]);
            j += 1;
        } else {
            let e = a[i].1 + b[j].1;
            if e != 0 {
                o.push((a[i].0, e));
            }
            i += 1;
            j += 1;
        }
    }
    o.extend_from_slice(&a[i..]);
    o.extend_from_slice(&b[j..]);
    o.into_boxed_slice()
}
pub fn mono_pow(v: u32, e: i32) -> Mono {
    if e == 0 {
        Box::new([])
    } else {
        Box::new([(v, e)])
    }
}

#[derive(Clone, Debug)]
pub struct Poly<F> {
    pub t: FxMap<Mono, F>,
}
impl<F: SymBase> PartialEq for Poly<F> {
    fn eq(&self, o: &Self) -> bool {
        self.t == o.t
    }
}

impl<F: SymBase> Poly<F> {
    pub fn zero() -> Self {
        Poly { t: FxMap::default() }
    }
    pub fn cst(c: F) -> Self {
        let mut p = Self::zero();
        if !c.is_zero() {
            p.t.insert(Box::new([]), c);
        }
        p
    }
    pub fn var(v: u32) -> Self {
        Self::mono(mono_pow(v, 1), F::one())
    }
    pub fn mono(m: Mono, c: F) -> Self {
        let mut p = Self::zero();
        if !c.is_zero() {
            p.t.insert(m, c);
        }
        p
    }
    pub fn is_zero(&self) -> bool {
        self.t.is_empty()
    }
    pub fn len(&self) -> usize {
        self.t.len()
    }
    pub fn add_term(&mut self, m: Mono, c: F) {
        use std::collections::hash_map::Entry;
        match self.t.entry(m) {
            Entry::Occupied(mut e) => {
                let n = *e.get() + c;
                if n.is_zero() {
                    e.remove();
                } else {
                    *e.get_mut() = n;
                }
            }
            Entry::Vacant(e) => {
                if !c.is_zero() {
                    e.insert(c);
                }
            }
        }
    }
    pub fn add_scaled(&mut self, o: &Self, c: F) {
        for (m, k) in &o.t {
            self.add_term(m.clone(), *k * c);
        }
    }
    pub fn add(&self, o: &Self) -> Self {
        let mut r = self.clone();
        r.add_scaled(o, F::one());
        r
    }
    pub fn sub(&self, o: &Self) -> Self {
        let mut r = self.clone();
        r.add_scaled(o, -F::one());
        r
    }
    pub fn neg(&self) -> Self {
        let mut r = self.clone();
        for c in r.t.values_mut() {
            *c = -*c;
        }
        r
    }
    pub fn scale(&self, k: F) -> Self {
        let mut r = Self::zero();
        r.add_scaled(self, k);
        r
    }
    pub fn mul(&self, o: &Self) -> Self {
        let mut r = Self::zero();
        if self.len() * o.len() > 40_000_000 {
            panic!("polynomial too large");
        }
        r.t.reserve((self.len() * o.len()).min(1 << 16));
        for (m, c) in &self.t {
            for (n, d) in &o.t {
                r.add_term(mono_mul(m, n), *c * d);
            }
        }
        r
    }
    pub fn mul_mono(&self, m: &Mono, c: F) -> Self {
        let mut r = Self::zero();
        for (n, d) in &self.t {
            r.t.insert(mono_mul(m, n), *d * c);
        }
        r
    }
    pub fn as_mono(&self) -> Option<(&Mono, &F)> {
        if self.t.len() == 1 {
            self.t.iter().next()
        } else {
            None
        }
    }
    pub fn as_const(&self) -> Option<F> {
        if self.t.is_empty() {
            return Some(F::zero());
        }
        match self.as_mono() {
            Some((m, c)) if m.is_empty() => Some(*c),
            _ => None,
        }
    }
    /// Split by the exponents of the given variables: exponent vector -> remaining polynomial.
    pub fn split(&self, vars: &[u32]) -> BTreeMap<Vec<i32>, Poly<F>> {
        let mut out: BTreeMap<Vec<i32>, Poly<F>> = BTreeMap::new();
        for (m, c) in &self.t {
            let mut key = vec![0i32; vars.len()];
            let mut rest = Vec::with_capacity(m.len());
            for &(v, e) in m.iter() {
                if let Some(k) = vars.iter().position(|x| *x == v) {
                    key[k] = e;
                } else {
                    rest.push((v, e));
                }
            }
            out.entry(key).or_insert_with(Poly::zero).add_term(rest.into_boxed_slice(), *c);
        }
        out.retain(|_, p| !p.is_zero());
        out
    }
    pub fn vars(&self) -> HashSet<u32> {
        let mut s = HashSet::new();
        for m in self.t.keys() {
            for (v, _) in m.iter() {
                s.insert(*v);
            }
        }
        s
    }
    /// Substitute variables by polynomials (negative exponents only for monomial images).
    pub fn subst(&self, f: &dyn Fn(u32) -> Option<Poly<F>>) -> Poly<F> {
        let mut r = Poly::zero();
        let mut cache: HashMap<u32, Option<Poly<F>>> = HashMap::new();
        for (m, c) in &self.t {
            let mut acc = Poly::cst(*c);
            let mut rest = Vec::new();
            for &(v, e) in m.iter() {
                let s = cache.entry(v).or_insert_with(|| f(v)).clone();
                match s {
                    None => rest.push((v, e)),
                    Some(p) => {
                        let base = if e < 0 { p.inv_mono().expect("inverse of non-monomial") } else { p };
                        for _ in 0..e.abs() {
                            acc = acc.mul(&base);
                        }
                    }
                }
            }
            let acc = acc.mul_mono(&rest.into_boxed_slice(), F::one());
            r.add_scaled(&acc, F::one());
        }
        r
    }
    pub fn inv_mono(&self) -> Option<Poly<F>> {
        let (m, c) = self.as_mono()?;
        let inv: Mono = m.iter().map(|&(v, e)| (v, -e)).collect();
        Some(Poly::mono(inv, c.inverse()?))
    }
    /// Evaluate with a full assignment of variables.
    pub fn eval(&self, f: &dyn Fn(u32) -> F) -> F {
        let mut s = F::zero();
        for (m, c) in &self.t {
            let mut k = *c;
            for &(v, e) in m.iter() {
                let x = f(v);
                let x = if e < 0 { x.inverse().expect("nonzero") } else { x };
                for _ in 0..e.abs() {
                    k *= x;
                }
            }
            s += k;
        }
        s
    }
    /// deterministic listing
    pub fn sorted(&self) -> Vec<(Mono, F)> {
        let mut v: Vec<_> = self.t.iter().map(|(m, c)| (m.clone(), *c)).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v
    }
    pub fn show(&self) -> String {
        let a = F::arena().lock().unwrap();
        let nm = |v: u32| node_name::<F>(&a, v);
        let mut s = vec![];
        for (m, c) in self.sorted().iter().take(40) {
            let ms: Vec<String> = m.iter().map(|(v, e)| if *e == 1 { nm(*v) } else { format!("{}^{}", nm(*v), e) }).collect();
            s.push(format!("{}*{}", show_f(*c), ms.join("*")));
        }
        if self.len() > 40 {
            s.push(format!("... {} terms", self.len()));
        }
        if s.is_empty() {
            "0".into()
        } else {
            s.join(" + ")
        }
    }
}
pub fn show_f<F: SymBase>(c: F) -> String {
    let m = -c;
    if m.to_l4() < c.to_l4() || (m.to_l4()[3] < c.to_l4()[3]) {
        format!("-{}", m)
    } else {
        format!("{}", c)
    }
}
pub fn node_name<F: SymBase>(a: &Arena, v: u32) -> String {
    match a.nodes[v as usize] {
        Node::Var(i) => a.vars[i as usize].name.clone(),
        Node::PX(l) => format!("px{}", l),
        Node::PY(l) => format!("py{}", l),
        _ => format!("n{}", v),
    }
}

pub struct Norm<F: SymBase> {
    nodes: Vec<Node>,
    memo: HashMap<u32, Rc<Poly<F>>>,
    pub cuts: HashSet<u32>,
    /// inverses of non-monomials: node standing for the inverse, monic polynomial
    pub invs: Vec<(u32, Poly<F>)>,
    inv_of: HashMap<Vec<(Mono, L4)>, u32>,
}

impl<F: SymBase> Norm<F> {
    pub fn new() -> Self {
        Norm { nodes: F::arena().lock().unwrap().nodes.clone(), memo: HashMap::new(), cuts: HashSet::new(), invs: vec![], inv_of: HashMap::new() }
    }
    /// Treat a node as an atom.
    pub fn cut(&mut self, s: &Sym<F>) {
        if s.id != 0 {
            self.cuts.insert(s.id);
        }
    }
    /// Replace a node by a polynomial.
    pub fn set(&mut self, id: u32, p: Poly<F>) {
        self.memo.insert(id, Rc::new(p));
    }
    pub fn refresh(&mut self) {
        let a = F::arena().lock().unwrap();
        let n = self.nodes.len();
        self.nodes.extend_from_slice(&a.nodes[n..]);
    }
    pub fn sym(&mut self, s: &Sym<F>) -> Rc<Poly<F>> {
        if s.id == 0 {
            return Rc::new(Poly::cst(s.v));
        }
        if s.id as usize >= self.nodes.len() {
            self.refresh();
        }
        self.node(s.id)
    }
    pub fn node(&mut self, id: u32) -> Rc<Poly<F>> {
        if let Some(p) = self.memo.get(&id) {
            return p.clone();
        }
        let p = if self.cuts.contains(&id) {
            Rc::new(Poly::var(id))
        } else {
            match self.nodes[id as usize] {
                Node::Const(l) => Rc::new(Poly::cst(F::from_l4(&l))),
                Node::Var(_) | Node::PX(_) | Node::PY(_) => Rc::new(Poly::var(id)),
                Node::Mul(a, b) => {
                    let (p, q) = (self.node(a), self.node(b));
                    Rc::new(p.mul(&q))
                }
                Node::Inv(a) => {
                    let p = self.node(a);
                    match p.inv_mono() {
                        Some(i) => Rc::new(i),
                        None if p.is_zero() => Rc::new(Poly::var(id)),
                        None => {
                            // one variable per inverse of a monic polynomial
                            let lead = p.sorted()[0].1;
                            let li = lead.inverse().unwrap();
                            let q = p.scale(li);
                            let key: Vec<(Mono, L4)> = q.sorted().into_iter().map(|(m, c)| (m, c.to_l4())).collect();
                            let v = match self.inv_of.get(&key) {
                                Some(v) => *v,
                                None => {
                                    self.inv_of.insert(key, id);
                                    self.invs.push((id, q));
                                    id
                                }
                            };
                            Rc::new(Poly::var(v).scale(li))
                        }
                    }
                }
                Node::Neg(_) | Node::Add(_, _) => {
                    // flatten
                    let mut acc = Poly::zero();
                    let mut stack = vec![(id, F::one())];
                    while let Some((n, k)) = stack.pop() {
                        if n != id {
                            if let Some(p) = self.memo.get(&n) {
                                acc.add_scaled(p, k);
                                continue;
                            }
                            if self.cuts.contains(&n) {
                                acc.add_term(mono_pow(n, 1), k);
                                continue;
                            }
                        }
                        match self.nodes[n as usize] {
                            Node::Add(a, b) => {
                                stack.push((a, k));
                                stack.push((b, k));
                            }
                            Node::Neg(a) => stack.push((a, -k)),
                            _ => {
                                let p = self.node(n);
                                acc.add_scaled(&p, k);
                            }
                        }
                    }
                    Rc::new(acc)
                }
            }
        };
        self.memo.insert(id, p.clone());
        p
    }
}

impl<F: SymBase> Norm<F> {
    /// Multiply by the denominators: the result vanishes iff `p` does (wherever the inverses exist).
    pub fn clear(&self, p: &Poly<F>) -> Poly<F> {
        let mut p = p.clone();
        for (v, d) in self.invs.iter().rev() {
            let sp = p.split(&[*v]);
            let k = sp.keys().map(|k| k[0]).max().unwrap_or(0).max(0);
            let lo = sp.keys().map(|k| k[0]).min().unwrap_or(0);
            assert!(lo >= 0, "negative power of an inverse");
            if k == 0 {
                continue;
            }
            let mut pw = vec![Poly::cst(F::one())];
            for i in 0..k as usize {
                pw.push(pw[i].mul(d));
            }
            let mut o = Poly::zero();
            for (e, c) in &sp {
                o.add_scaled(&c.mul(&pw[(k - e[0]) as usize]), F::one());
            }
            p = o;
        }
        p
    }
}

/// Evaluate a node under an assignment of variable nodes.
pub struct Eval<F: SymBase> {
    nodes: Vec<Node>,
    memo: HashMap<u32, F>,
}
impl<F: SymBase> Eval<F> {
    pub fn new(assign: &HashMap<u32, F>) -> Self {
        Eval { nodes: F::arena().lock().unwrap().nodes.clone(), memo: assign.clone() }
    }
    pub fn sym(&mut self, s: &Sym<F>) -> F {
        if s.id == 0 {
            s.v
        } else {
            self.node(s.id)
        }
    }
    pub fn node(&mut self, id: u32) -> F {
        if let Some(p) = self.memo.get(&id) {
            return *p;
        }
        let r = match self.nodes[id as usize] {
            Node::Const(l) => F::from_l4(&l),
            Node::Var(_) | Node::PX(_) | Node::PY(_) => {
                F::from_l4(&F::arena().lock().unwrap().shadow[id as usize])
            }
            Node::Add(a, b) => self.node(a) + self.node(b),
            Node::Mul(a, b) => self.node(a) * self.node(b),
            Node::Neg(a) => -self.node(a),
            Node::Inv(a) => self.node(a).inverse().unwrap_or(F::zero()),
        };
        self.memo.insert(id, r);
        r
    }
}
#[allow(dead_code)]
pub fn one<F: One>() -> F {
    F::one()
}
