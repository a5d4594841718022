//! z3 driver: one process, push/pop, every verdict counted and timed.
use crate::poly::*;
use crate::sym::*;
use ark_ff::Zero;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    pub queries: usize,
    pub sat: usize,
    pub unsat: usize,
    pub unknown: usize,
    pub time: f64,
    pub max_time: f64,
    pub timeout_ms: u64,
}

impl Z3 {
    pub fn new(timeout_ms: u64) -> Z3 {
        let bin = std::env::var("VH_Z3").unwrap_or("z3".into());
        let mut child = Command::new(bin)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("z3");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut z = Z3 { child, inp, out, queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, max_time: 0.0, timeout_ms };
        z.raw(&format!("(set-option :timeout {})", timeout_ms));
        z
    }
    pub fn raw(&mut self, s: &str) {
        writeln!(self.inp, "{}", s).unwrap();
    }
    pub fn push(&mut self) {
        self.raw("(push 1)");
    }
    pub fn pop(&mut self) {
        self.raw("(pop 1)");
    }
    pub fn check(&mut self) -> Verdict {
        let t = Instant::now();
        self.raw("(check-sat)");
        self.raw("(echo \"--done--\")");
        self.inp.flush().unwrap();
        let mut v = Verdict::Unknown;
        let mut err = false;
        loop {
            let mut l = String::new();
            if self.out.read_line(&mut l).unwrap_or(0) == 0 {
                err = true;
                break;
            }
            let l = l.trim();
            if l.contains("--done--") {
                break;
            }
            match l {
                "sat" => v = Verdict::Sat,
                "unsat" => v = Verdict::Unsat,
                "unknown" | "timeout" => v = Verdict::Unknown,
                _ => {
                    eprintln!("z3: {}", l);
                    err = true;
                }
            }
        }
        if err {
            v = Verdict::Unknown;
        }
        self.queries += 1;
        match v {
            Verdict::Sat => self.sat += 1,
            Verdict::Unsat => self.unsat += 1,
            Verdict::Unknown => self.unknown += 1,
        }
        let dt = t.elapsed().as_secs_f64();
        self.time += dt;
        self.max_time = self.max_time.max(dt);
        v
    }
    /// Values of the given terms after a sat verdict, as printed by z3.
    pub fn values(&mut self, terms: &[String]) -> Vec<String> {
        let mut res = vec![];
        for t in terms {
            self.raw(&format!("(get-value ({}))", t));
            self.raw("(echo \"--done--\")");
            self.inp.flush().unwrap();
            let mut s = String::new();
            loop {
                let mut l = String::new();
                if self.out.read_line(&mut l).unwrap_or(0) == 0 {
                    break;
                }
                if l.contains("--done--") {
                    break;
                }
                s.push_str(l.trim());
                s.push(' ');
            }
            // ((t v))
            let s = s.trim();
            let inner = &s[2..s.len() - 2];
            let v = inner[t.len()..].trim().to_string();
            res.push(v);
        }
        res
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        let _ = writeln!(self.inp, "(exit)");
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// balanced integer literal of a field element
pub fn lit<F: SymBase>(c: &F) -> String {
    let n: num_bigint::BigUint = (*c).into();
    let p: num_bigint::BigUint = F::MODULUS.into();
    if &n * 2u32 > p {
        format!("(- {})", p - n)
    } else {
        format!("{}", n)
    }
}

/// Encodes polynomials as linear terms over monomials; each monomial becomes one real variable.
#[derive(Default)]
pub struct MonoEnc {
    pub ids: HashMap<Mono, usize>,
    pub decls: Vec<String>,
}
impl MonoEnc {
    pub fn id(&mut self, m: &Mono) -> String {
        if m.is_empty() {
            return "1".into();
        }
        let n = self.ids.len();
        let e = self.ids.entry(m.clone()).or_insert(n);
        if *e == n {
            self.decls.push(format!("(declare-const m{} Real)", n));
        }
        format!("m{}", *e)
    }
    pub fn lin<F: SymBase>(&mut self, p: &Poly<F>) -> String {
        if p.is_zero() {
            return "0".into();
        }
        let mut s = String::from("(+ 0");
        for (m, c) in p.sorted() {
            s.push_str(&format!(" (* {} {})", lit(&c), self.id(&m)));
        }
        s.push(')');
        s
    }
}

/// Decide with z3: do the hypotheses (each = 0) force every goal (= 0), reasoning linearly over monomials?
/// z3 reasons over the rationals on balanced residues; as a rational certificate could have a denominator divisible
/// by the prime, an answer `unsat` only counts when the goals are combinations of the hypotheses in the field too.
/// When z3 finds no certificate the question is put again with monic polynomials (a field constant such as 1/x is
/// a large integer).  Returns the index of the goals that are not implied.
pub fn lin_implies<F: SymBase>(z: &mut Z3, hyps: &[Poly<F>], goals: &[Poly<F>]) -> (Verdict, Vec<usize>) {
    let (v, bad) = lin_implies_q(z, hyps, goals);
    let done = |v, bad| if v == Verdict::Unsat && !spanned(hyps, goals) { (Verdict::Unknown, (0..goals.len()).collect()) } else { (v, bad) };
    if v == Verdict::Unsat {
        return done(v, bad);
    }
    // the second question only makes sense when the answer can be yes
    if !spanned(hyps, goals) {
        return (v, bad);
    }
    let h2: Vec<Poly<F>> = hyps.iter().map(monic).collect();
    let g2: Vec<Poly<F>> = goals.iter().map(monic).collect();
    let (w, bad2) = lin_implies_q(z, &h2, &g2);
    if w == Verdict::Unsat {
        return done(w, bad2);
    }
    (v, bad)
}
fn monic<F: SymBase>(p: &Poly<F>) -> Poly<F> {
    match p.sorted().last() {
        Some((_, c)) => p.scale(c.inverse().unwrap()),
        None => p.clone(),
    }
}
/// Are the goals combinations of the hypotheses over the field (or the hypotheses contradictory)?
pub fn spanned<F: SymBase>(hyps: &[Poly<F>], goals: &[Poly<F>]) -> bool {
    if goals.iter().all(|g| g.is_zero()) {
        return true;
    }
    // hypotheses that share monomials, directly or not, with the goals
    let mut by: HashMap<&Mono, Vec<usize>> = HashMap::new();
    for (i, h) in hyps.iter().enumerate() {
        for m in h.t.keys() {
            by.entry(m).or_default().push(i);
        }
    }
    let run = |seeds: Vec<&Mono>| -> bool {
        let mut seen: HashSet<&Mono> = Default::default();
        let mut used = vec![false; hyps.len()];
        let mut rows: Vec<usize> = vec![];
        let mut todo = seeds;
        while let Some(m) = todo.pop() {
            if !seen.insert(m) {
                continue;
            }
            for i in by.get(m).into_iter().flatten() {
                if !used[*i] {
                    used[*i] = true;
                    rows.push(*i);
                    todo.extend(hyps[*i].t.keys());
                }
            }
        }
        rows.sort_by_key(|i| hyps[*i].len());
        let mut piv: HashMap<Mono, std::collections::BTreeMap<Mono, F>> = HashMap::new();
        let reduce = |p: &Poly<F>, piv: &HashMap<Mono, std::collections::BTreeMap<Mono, F>>| {
            let mut row: std::collections::BTreeMap<Mono, F> = p.t.iter().map(|(m, c)| (m.clone(), *c)).collect();
            let mut keep: std::collections::BTreeMap<Mono, F> = Default::default();
            // eliminate from the largest monomial down
            while let Some((m, c)) = row.pop_last() {
                if c.is_zero() {
                    continue;
                }
                match piv.get(&m) {
                    None => {
                        keep.insert(m, c);
                    }
                    Some(q) => {
                        for (n, d) in q {
                            if *n != m {
                                let e = row.entry(n.clone()).or_insert(F::zero());
                                *e -= c * d;
                            }
                        }
                    }
                }
            }
            keep
        };
        let one: Mono = Box::new([]);
        for i in rows {
            let mut k = reduce(&hyps[i], &piv);
            if let Some((m, c)) = k.iter().next_back().map(|(m, c)| (m.clone(), *c)) {
                let s = c.inverse().unwrap();
                for v in k.values_mut() {
                    *v *= s;
                }
                if m == one {
                    return true; // contradictory
                }
                piv.insert(m, k);
            }
        }
        goals.iter().all(|g| reduce(g, &piv).is_empty())
    };
    let one: Mono = Box::new([]);
    run(goals.iter().flat_map(|g| g.t.keys()).collect()) || (by.contains_key(&one) && run(hyps.iter().flat_map(|g| g.t.keys()).collect()))
}
fn lin_implies_q<F: SymBase>(z: &mut Z3, hyps: &[Poly<F>], goals: &[Poly<F>]) -> (Verdict, Vec<usize>) {
    let mut enc = MonoEnc::default();
    let hs: Vec<String> = hyps.iter().filter(|p| !p.is_zero()).map(|p| format!("(assert (= {} 0))", enc.lin(p))).collect();
    let gs: Vec<String> = goals.iter().map(|p| format!("(not (= {} 0))", enc.lin(p))).collect();
    z.push();
    for d in &enc.decls {
        z.raw(d);
    }
    for h in &hs {
        z.raw(h);
    }
    z.push();
    z.raw(&format!("(assert (or false {}))", gs.join(" ")));
    let v = z.check();
    z.pop();
    let mut bad = vec![];
    if v != Verdict::Unsat {
        for (i, g) in gs.iter().enumerate() {
            z.push();
            z.raw(&format!("(assert {})", g));
            if z.check() != Verdict::Unsat {
                bad.push(i);
            }
            z.pop();
        }
    }
    z.pop();
    (v, bad)
}

/// Identity a == b for all values of all variables.
pub fn identical<F: SymBase>(z: &mut Z3, pairs: &[(Poly<F>, Poly<F>)]) -> (Verdict, Vec<usize>) {
    let mut enc = MonoEnc::default();
    let qs: Vec<String> = pairs.iter().map(|(a, b)| format!("(not (= {} {}))", enc.lin(a), enc.lin(b))).collect();
    z.push();
    for d in &enc.decls {
        z.raw(d);
    }
    z.push();
    z.raw(&format!("(assert (or false {}))", qs.join(" ")));
    let v = z.check();
    z.pop();
    let mut bad = vec![];
    if v != Verdict::Unsat {
        for (i, (a, b)) in pairs.iter().enumerate() {
            if !a.sub(b).is_zero() {
                bad.push(i);
            }
        }
    }
    z.pop();
    (v, bad)
}
#[allow(dead_code)]
fn _z<F: SymBase>(f: F) -> bool {
    f.is_zero()
}
