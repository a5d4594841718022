//! The windowed scalar multiplication of the re-randomization gadget, analysed window by window.
use crate::common::*;
use crate::gadget::*;
use bulletproofs::r1cs::*;
use num_bigint::{BigInt, BigUint};
use relations::lookup::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub type Tab<C> = Lookup3Bit<2, Sym<<C as SymCurve>::BB>>;
pub type Aff<C> = ark_ec::short_weierstrass::Affine<C>;

/// A curve of the cycle together with the curve whose scalars are its coordinates.
pub trait Cycle: SymCurve {
    type Other: AffineRepr<ScalarField = Self::BB>;
}
impl Cycle for SymPallas {
    type Other = ark_vesta::Affine;
}
impl Cycle for SymVesta {
    type Other = ark_pallas::Affine;
}

pub fn big<F: SymBase>(c: &F) -> BigUint {
    (*c).into()
}
pub fn balanced<F: SymBase>(c: &F) -> BigInt {
    let n = big(c);
    let p: BigUint = F::MODULUS.into();
    if &n * 2u32 > p {
        BigInt::from(n) - BigInt::from(p)
    } else {
        BigInt::from(n)
    }
}
fn ilit(n: &BigInt) -> String {
    if n.sign() == num_bigint::Sign::Minus {
        format!("(- {})", n.magnitude())
    } else {
        format!("{}", n)
    }
}

/// scalars of the table entries over the atom `h`
pub fn table_scalars<C: SymCurve>(tables: &[Tab<C>], h: u32) -> Result<Vec<[C::SB; WINDOW_ELEMS]>, String> {
    let mut out = vec![];
    for (i, t) in tables.iter().enumerate() {
        let mut row = [C::SB::zero(); WINDOW_ELEMS];
        for j in 0..WINDOW_ELEMS {
            let p = Aff::<C>::new_unchecked(t.elems[0][j], t.elems[1][j]);
            let tm = quiet(|| terms_of::<C>(&p)).map_err(|e| format!("window {} entry {}: {}", i + 1, j, e))?;
            match tm.as_slice() {
                [(a, s)] if *a == h && s.id == 0 => row[j] = s.v,
                _ => return Err(format!("window {} entry {} is not a multiple of H", i + 1, j)),
            }
        }
        out.push(row);
    }
    Ok(out)
}

/// the integer with the given 3-bit digits
pub fn digits_int(d: &[usize]) -> BigUint {
    d.iter().rev().fold(BigUint::from(0u32), |a, x| a * 8u32 + *x as u32)
}
pub fn digits_of<F: SymBase>(r: &F, m: usize) -> Vec<usize> {
    let mut n = big(r);
    let mut o = vec![];
    for _ in 0..m {
        o.push((&n % 8u32).to_u32_digits().first().copied().unwrap_or(0) as usize);
        n /= 8u32;
    }
    o
}

/// The accumulator wires of an honest run, by the multiples of H they must hold.
pub struct Chain<C: SymCurve> {
    /// variables holding (x, y) of the accumulator after window i+1
    pub acc: Vec<[(usize, usize); 2]>,
    pub pts: Vec<Aff<C>>,
    pub digits: Vec<usize>,
}
/// position of a wire holding exactly this symbol
pub fn wire_with<B: SymBase>(g: &GCS<B>, s: &Sym<B>, from: usize) -> Option<(usize, usize)> {
    for (i, w) in g.gates.iter().enumerate().skip(from) {
        for k in 0..3 {
            if w[k].id == s.id && (s.id != 0 || w[k].v == s.v) {
                return Some((i, k));
            }
        }
    }
    None
}
pub fn chain<C: SymCurve>(g: &GCS<C::BB>, h: u32, scal: &[[C::SB; WINDOW_ELEMS]], digits: &[usize]) -> Result<Chain<C>, usize> {
    let mut sum = C::SB::zero();
    let mut out = Chain { acc: vec![], pts: vec![], digits: digits.to_vec() };
    let mut from = 0;
    for i in 0..scal.len() {
        sum += scal[i][digits[i]];
        let t: Terms<C::SB> = vec![(h, Sym::cst(sum))];
        let p = point_of_terms::<C>(&t, terms_shadow::<C>(&t));
        let (Some(x), Some(y)) = (wire_with(g, &p.x, from), wire_with(g, &p.y, from)) else { return Err(i + 1) };
        from = x.0.min(y.0);
        out.acc.push([x, y]);
        out.pts.push(p);
    }
    Ok(out)
}

/// Polynomials that say (xo,yo) is the chord sum of (xl,yl), (xr,yr), cleared of the denominator.
pub fn law<B: SymBase>(l: [&Poly<B>; 2], r: [&Poly<B>; 2], o: [&Poly<B>; 2]) -> Vec<Poly<B>> {
    let d = r[0].sub(l[0]);
    let n = r[1].sub(l[1]);
    vec![
        d.mul(&d).mul(&o[0].add(l[0]).add(r[0])).sub(&n.mul(&n)),
        d.mul(&o[1].add(l[1])).sub(&n.mul(&l[0].sub(o[0]))),
    ]
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// equal x-coordinates contradict the constraints
    Checked,
    /// equal x-coordinates only force equal y-coordinates
    Incomplete,
    First,
}

/// digit -> wires that are constant in its branch
pub type DigitWires<B> = HashMap<usize, HashMap<u32, B>>;

/// One window: its part of the system forces acc_i = acc_{i-1} + (one table entry).
pub fn window<B: SymBase>(
    r: &mut Report,
    z: &mut Z3,
    sys: &Sys<B>,
    prev: Option<[u32; 2]>,
    cur: [u32; 2],
    table: &Lookup3Bit<2, Sym<B>>,
    nm: &mut Norm<B>,
    params: &HashSet<u32>,
) -> Result<(Kind, DigitWires<B>), Sys<B>> {
    let v = Poly::<B>::var;
    let t: Vec<[Poly<B>; 2]> = (0..WINDOW_ELEMS).map(|j| [(*nm.sym(&table.elems[0][j])).clone(), (*nm.sym(&table.elems[1][j])).clone()]).collect();
    let keep: HashSet<u32> = prev.iter().flatten().chain(cur.iter()).copied().collect();
    let rank = |x: u32| if params.contains(&x) { None } else if keep.contains(&x) { Some(1) } else { Some(0) };
    let alts: Vec<Vec<Poly<B>>> = match prev {
        None => t.iter().map(|e| vec![v(cur[0]).sub(&e[0]), v(cur[1]).sub(&e[1])]).collect(),
        Some(p) => t.iter().map(|e| law([&v(p[0]), &v(p[1])], [&e[0], &e[1]], [&v(cur[0]), &v(cur[1])])).collect(),
    };
    let goal = Goal { name: "window".into(), alts };
    let mut open = None;
    let mut wires = DigitWires::new();
    for d in 1..=2 {
        let mut p = Prover3::new(z, &rank);
        p.lazy = true;
        match p.prove(sys, &goal, d) {
            Ok(()) => {
                r.oblige(p.leaves, Verdict::Unsat);
                r.vacuity_witnesses += p.used.len();
                for (k, s) in &p.leaf_log {
                    let e = wires.entry(*k).or_default();
                    for (v, q) in &s.sub {
                        if let Some(c) = s.apply(q).as_const() {
                            e.insert(*v, c);
                        }
                    }
                }
                open = None;
                break;
            }
            Err(o) => open = Some(o),
        }
    }
    if let Some(o) = open {
        r.oblige(1, Verdict::Sat);
        return Err(o);
    }
    let Some(p) = prev else { return Ok((Kind::First, wires)) };
    // is a chord through equal x-coordinates excluded, for each entry?
    let mut all = true;
    for j in 0..WINDOW_ELEMS {
        let mut s = sys.clone();
        s.lins.push(v(p[0]).sub(&t[j][0]));
        let g = Goal {
            name: "excluded".into(),
            alts: (0..WINDOW_ELEMS)
                .filter(|k| *k != j)
                .map(|k| law([&t[j][0], &v(p[1])], [&t[k][0], &t[k][1]], [&v(cur[0]), &v(cur[1])]))
                .collect(),
        };
        let mut done = false;
        for d in 1..=2 {
            let mut q = Prover3::new(z, &rank);
            q.lazy = true;
            if q.prove(&s, &g, d).is_ok() {
                r.oblige(q.leaves, Verdict::Unsat);
                done = true;
                break;
            }
        }
        if !done {
            all = false;
            break;
        }
    }
    Ok((if all { Kind::Checked } else { Kind::Incomplete }, wires))
}

/// Digits for which the accumulator before window i meets +- the entry added there.  None: impossible.
/// Precise; `z3` decides over the integers.
pub fn meets<F: SymBase>(z: &mut Z3, scal: &[[F; WINDOW_ELEMS]], i: usize) -> Result<Option<Vec<usize>>, ()> {
    let q: BigUint = F::MODULUS.into();
    let q = BigInt::from(q);
    let s: Vec<Vec<BigInt>> = scal.iter().map(|r| r.iter().map(balanced).collect()).collect();
    let (mut lo, mut hi) = (BigInt::from(0), BigInt::from(0));
    for k in 0..i {
        lo += s[k].iter().min().unwrap();
        hi += s[k].iter().max().unwrap();
    }
    let decl = |z: &mut Z3, n: &str| z.raw(&format!("(declare-const {} Int)", n));
    let entry = |z: &mut Z3, k: usize| -> String {
        // linear in the digit where the entries are
        decl(z, &format!("d{}", k));
        z.raw(&format!("(assert (and (<= 0 d{}) (<= d{} {})))", k, k, WINDOW_ELEMS - 1));
        let step = &s[k][1] - &s[k][0];
        if (0..WINDOW_ELEMS).all(|j| s[k][j] == &s[k][0] + &step * BigInt::from(j)) {
            format!("(+ {} (* {} d{}))", ilit(&s[k][0]), ilit(&step), k)
        } else {
            let mut e = ilit(&s[k][0]);
            for j in 1..WINDOW_ELEMS {
                e = format!("(ite (= d{} {}) {} {})", k, j, ilit(&s[k][j]), e);
            }
            e
        }
    };
    // abstraction first: any accumulator in its range
    z.push();
    decl(z, "A");
    decl(z, "c");
    let t = entry(z, i);
    z.raw(&format!("(assert (and (<= {} A) (<= A {})))", ilit(&lo), ilit(&hi)));
    z.raw(&format!("(assert (or (= (- A {}) (* {} c)) (= (+ A {}) (* {} c))))", t, q, t, q));
    let v = z.check();
    z.pop();
    match v {
        Verdict::Unsat => return Ok(None),
        Verdict::Unknown => return Err(()),
        Verdict::Sat => {}
    }
    z.push();
    decl(z, "c");
    let t = entry(z, i);
    // entries base + 8^k digit: the digits are one integer below 8^i
    let mut pow = BigInt::from(1);
    let mut base = BigInt::from(0);
    let mut positional = true;
    for k in 0..i {
        positional &= (0..WINDOW_ELEMS).all(|j| ((&s[k][j] - &s[k][0] - &pow * BigInt::from(j)) % &q).sign() == num_bigint::Sign::NoSign);
        base += &s[k][0];
        pow *= 8;
    }
    if positional {
        decl(z, "L");
        z.raw(&format!("(assert (and (<= 0 L) (< L {})))", ilit(&pow)));
        z.raw(&format!("(assert (= (- (+ {} L) {}) (* {} c)))", ilit(&base), t, q));
        let v = z.check();
        let out = match v {
            Verdict::Unsat => Ok(None),
            Verdict::Unknown => Err(()),
            Verdict::Sat => {
                let vals = z.values(&["L".into(), format!("d{}", i)]);
                let mut l: BigUint = vals[0].trim().parse().unwrap_or(BigUint::from(0u32));
                let mut d = vec![];
                for _ in 0..i {
                    d.push((&l % 8u32).to_u32_digits().first().copied().unwrap_or(0) as usize);
                    l /= 8u32;
                }
                d.push(vals[1].trim().parse().unwrap_or(0));
                Ok(Some(d))
            }
        };
        z.pop();
        return out;
    }
    let es: Vec<String> = (0..i).map(|k| entry(z, k)).collect();
    let a = format!("(+ 0 {})", es.join(" "));
    z.raw(&format!("(assert (= (- {} {}) (* {} c)))", a, t, q));
    let v = z.check();
    let out = match v {
        Verdict::Unsat => Ok(None),
        Verdict::Unknown => Err(()),
        Verdict::Sat => {
            let names: Vec<String> = (0..=i).map(|k| format!("d{}", k)).collect();
            let vals = z.values(&names);
            Ok(Some(vals.iter().map(|x| x.trim().parse::<usize>().unwrap_or(0)).collect()))
        }
    };
    z.pop();
    out
}

/// Solve the equations with some values given: equations in one unknown first; when stuck, one of the earliest
/// unknowns at random (restarting from where guessing began).
pub fn solve_ordered<B: SymBase>(eqs: &[Poly<B>], fixed: &HashMap<u32, B>, last: &[u32], seed: u64, tries: usize) -> Option<HashMap<u32, B>> {
    use rand::SeedableRng;
    let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
    let base: Vec<Poly<B>> = eqs.iter().map(|p| p.subst(&|v| fixed.get(&v).map(|c| Poly::cst(*c)))).collect();
    if base.iter().any(|p| p.as_const().map(|c| !c.is_zero()).unwrap_or(false)) {
        return None;
    }
    let (rest, asg) = propagate(&base, fixed, last, None, &mut rng)?;
    if rest.is_empty() {
        return Some(asg);
    }
    // equal up to a factor and a shift: one unknown for both
    let mut subs: Vec<(u32, Poly<B>)> = vec![];
    let mut rest = rest;
    loop {
        let lin = |p: &Poly<B>| p.vars().len() == 2 && p.t.keys().all(|m| m.is_empty() || (m.len() == 1 && m[0].1 == 1));
        let Some(i) = rest.iter().position(|p| lin(p)) else { break };
        let p = rest.swap_remove(i);
        let v = *p.vars().iter().max_by_key(|v| (!last.contains(v), **v)).unwrap();
        let c = p.t[&mono_pow(v, 1)];
        let mut e = p.clone();
        e.t.remove(&mono_pow(v, 1));
        let e = e.scale(-c.inverse().unwrap());
        for q in rest.iter_mut() {
            if q.t.keys().any(|m| m.iter().any(|(x, _)| *x == v)) {
                *q = q.subst(&|x| if x == v { Some(e.clone()) } else { None });
            }
        }
        rest.retain(|q| !q.is_zero());
        subs.push((v, e));
    }
    let back = |mut asg: HashMap<u32, B>| {
        for (v, e) in subs.iter().rev() {
            let x = e.subst(&|y| Some(Poly::cst(asg.get(&y).copied().unwrap_or(B::zero())))).as_const().unwrap_or(B::zero());
            for y in e.vars() {
                asg.entry(y).or_insert(B::zero());
            }
            asg.insert(*v, x);
        }
        asg
    };
    if let Some((r, a)) = propagate(&rest, &asg, last, None, &mut rng) {
        if r.is_empty() {
            return Some(back(a));
        }
        return (0..tries).find_map(|t| propagate(&r, &a, last, Some(t), &mut rng).map(|x| back(x.1)));
    }
    None
}
fn propagate<B: SymBase>(base: &[Poly<B>], fixed: &HashMap<u32, B>, last: &[u32], guess: Option<usize>, rng: &mut rand::rngs::StdRng) -> Option<(Vec<Poly<B>>, HashMap<u32, B>)> {
    use rand::Rng;
    let mut eqs = base.to_vec();
    let mut asg = fixed.clone();
    let mut owner: HashMap<u32, Vec<usize>> = HashMap::new();
    let mut free: BTreeSet<u32> = BTreeSet::new();
    let mut ready: Vec<usize> = vec![];
    for (i, p) in eqs.iter().enumerate() {
        let vs = p.vars();
        for v in &vs {
            owner.entry(*v).or_default().push(i);
            free.insert(*v);
        }
        if vs.len() == 1 {
            ready.push(i);
        }
    }
    loop {
        let mut set = None;
        while let Some(i) = ready.pop() {
            let p = &eqs[i];
            let vs = p.vars();
            if vs.len() != 1 {
                continue;
            }
            let v = *vs.iter().next().unwrap();
            let sp = p.split(&[v]);
            let c = |k: i32| sp.get(&vec![k]).and_then(|q| q.as_const()).unwrap_or(B::zero());
            let x = match sp.keys().map(|k| k[0]).max().unwrap() {
                1 => -c(0) * c(1).inverse().unwrap(),
                2 => {
                    let (a, b, e) = (c(2), c(1), c(0));
                    let s = (b * b - a * e * B::from(4u64)).sqrt()?;
                    let s = if rng.gen() { s } else { -s };
                    (-b + s) * (a + a).inverse().unwrap()
                }
                _ => return None,
            };
            set = Some((v, x));
            break;
        }
        let (v, x) = match set {
            Some(s) => s,
            None if free.is_empty() => return Some((vec![], asg)),
            None => {
                let Some(t) = guess else {
                    eqs.retain(|p| !p.is_zero());
                    return Some((eqs, asg));
                };
                let near: Vec<u32> = free.iter().filter(|v| !last.contains(v)).take(if t % 2 == 0 { 1 } else { 12 }).copied().collect();
                let v = if near.is_empty() { *free.iter().next().unwrap() } else { near[rng.gen_range(0..near.len())] };
                (v, B::rand(rng))
            }
        };
        asg.insert(v, x);
        free.remove(&v);
        for i in owner.get(&v).cloned().unwrap_or_default() {
            let p = eqs[i].subst(&|y| if y == v { Some(Poly::cst(x)) } else { None });
            if p.as_const().map(|c| !c.is_zero()).unwrap_or(false) {
                return None;
            }
            if p.vars().len() == 1 {
                ready.push(i);
            }
            eqs[i] = p;
        }
    }
}

pub struct Parts<B: SymBase> {
    pub window: BTreeMap<usize, Sys<B>>,
    pub last: Sys<B>,
}
/// Group the components by the window they belong to; `m` marks the part touching anything beyond the chain.
pub fn parts<B: SymBase>(sys: &Sys<B>, acc: &[[u32; 2]], extra: &HashSet<u32>, params: &HashSet<u32>) -> Parts<B> {
    let mut cut: HashSet<u32> = extra.union(params).copied().collect();
    let mut idx: HashMap<u32, usize> = HashMap::new();
    for (i, a) in acc.iter().enumerate() {
        for v in a {
            cut.insert(*v);
            idx.insert(*v, i);
        }
    }
    let empty = || Sys { prods: vec![], lins: vec![], sub: vec![], dead: false };
    // a gate whose output occurs nowhere else says nothing (halves of allocations pair unrelated wires)
    let mut count: HashMap<u32, usize> = HashMap::new();
    for p in sys.prods.iter().flat_map(|(l, r, o)| [l, r, o]).chain(sys.lins.iter()) {
        for v in p.vars() {
            *count.entry(v).or_default() += 1;
        }
    }
    let mut sys = sys.clone();
    sys.prods.retain(|(_, _, o)| !(o.len() == 1 && o.vars().iter().any(|v| count[v] == 1 && !cut.contains(v))));
    let mut out = Parts { window: BTreeMap::new(), last: empty() };
    for c in sys.components(&cut) {
        let vs = c.vars();
        let own = vs.iter().filter_map(|v| idx.get(v)).max();
        let to = if vs.iter().any(|v| extra.contains(v)) || own.is_none() {
            &mut out.last
        } else {
            out.window.entry(*own.unwrap()).or_insert_with(empty)
        };
        to.prods.extend(c.prods);
        to.lins.extend(c.lins);
    }
    out
}
