//! Symbolic field: every element carries a concrete shadow value and the id of a node of a
//! hash-consed expression DAG (id 0: a constant, i.e. the shadow itself).
#![allow(clippy::all)]
use ark_ff::fields::{Field, FftField, LegendreSymbol, PrimeField, SqrtPrecomputation};
use ark_ff::{One, Zero, BigInteger};
use ark_serialize::*;
use ark_std::rand::{distributions::{Distribution, Standard}, Rng};
use num_bigint::BigUint;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::*;
use std::str::FromStr;
use std::sync::Mutex;
use zeroize::Zeroize;

pub type L4 = [u64; 4];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(L4),
    Var(u32),
    Add(u32, u32),
    Mul(u32, u32),
    Neg(u32),
    Inv(u32),
    /// coordinates of the point with linear-combination id
    PX(u32),
    PY(u32),
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    pub shadow: Vec<L4>,
    pub map: HashMap<Node, u32>,
    /// shadow -> first node id with that shadow
    pub by_shadow: HashMap<L4, u32>,
    pub vars: Vec<VarInfo>,
    pub rnd_count: usize,
    pub chal_by_shadow: HashMap<L4, u32>,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub node: u32,
}

impl Arena {
    pub fn intern(&mut self, n: Node, shadow: L4) -> u32 {
        if self.nodes.is_empty() {
            self.nodes.push(Node::Const([0; 4]));
            self.shadow.push([0; 4]);
        }
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        let id = self.nodes.len() as u32;
        self.nodes.push(n);
        self.shadow.push(shadow);
        self.map.insert(n, id);
        self.by_shadow.entry(shadow).or_insert(id);
        id
    }
}

/// Base (concrete) fields that can be lifted.
pub trait SymBase: PrimeField<BigInt = ark_ff::BigInteger256> {
    fn arena() -> &'static Mutex<Arena>;
    fn path() -> &'static Mutex<Vec<PathCond>>;
    /// input variables pinned to a value on the path being explored
    fn overrides() -> &'static Mutex<HashMap<String, L4>>;
    fn to_l4(&self) -> L4;
    fn from_l4(l: &L4) -> Self;
    const TAG: &'static str;
}

/// A comparison whose outcome was decided on the shadow values.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct PathCond {
    pub kind: &'static str,
    pub a: u32,
    pub b: u32,
    pub result: bool,
}

macro_rules! sym_base {
    ($f:ty, $tag:expr, $ar:ident, $pa:ident) => {
        static $pa: Mutex<Vec<PathCond>> = Mutex::new(Vec::new());
        impl SymBase for $f {
            const TAG: &'static str = $tag;
            fn arena() -> &'static Mutex<Arena> {
                static A: std::sync::OnceLock<Mutex<Arena>> = std::sync::OnceLock::new();
                A.get_or_init(|| Mutex::new(Arena::default()))
            }
            fn path() -> &'static Mutex<Vec<PathCond>> {
                &$pa
            }
            fn overrides() -> &'static Mutex<HashMap<String, L4>> {
                static A: std::sync::OnceLock<Mutex<HashMap<String, L4>>> = std::sync::OnceLock::new();
                A.get_or_init(|| Mutex::new(HashMap::new()))
            }
            fn to_l4(&self) -> L4 {
                let b = self.into_bigint();
                let mut o = [0u64; 4];
                for (i, l) in b.as_ref().iter().enumerate() {
                    o[i] = *l;
                }
                o
            }
            fn from_l4(l: &L4) -> Self {
                let mut b = <$f as PrimeField>::BigInt::default();
                let n = b.as_ref().len();
                b.as_mut().copy_from_slice(&l[..n]);
                Self::from_bigint(b).expect("limbs in range")
            }
        }
    };
}
sym_base!(ark_pallas::Fq, "p", ARENA_P, PATH_P);
sym_base!(ark_pallas::Fr, "q", ARENA_Q, PATH_Q);

pub struct T101Config;
impl ark_ff::MontConfig<4> for T101Config {
    const MODULUS: ark_ff::BigInteger256 = ark_ff::BigInt!("101");
    const GENERATOR: F101 = ark_ff::MontFp!("2");
    const TWO_ADIC_ROOT_OF_UNITY: F101 = ark_ff::MontFp!("10");
}
pub type F101 = ark_ff::Fp256<ark_ff::MontBackend<T101Config, 4>>;
sym_base!(F101, "t101", ARENA_T, PATH_T);

#[derive(Clone, Copy)]
pub struct Sym<F> {
    pub v: F,
    pub id: u32,
}

impl<F: SymBase> Sym<F> {
    pub const fn cst(v: F) -> Self {
        Sym { v, id: 0 }
    }
    /// A fresh named variable with the given shadow.
    pub fn var(name: &str, v: F) -> Self {
        let mut a = F::arena().lock().unwrap();
        let vi = a.vars.len() as u32;
        let id = a.intern(Node::Var(vi), v.to_l4());
        a.vars.push(VarInfo { name: name.to_string(), node: id });
        Sym { v, id }
    }
    /// A fresh named variable with a random shadow.
    pub fn fresh(name: &str) -> Self {
        if let Some(l) = F::overrides().lock().unwrap().get(name) {
            return Sym::cst(F::from_l4(l));
        }
        Self::var(name, rand_f::<F>())
    }
    pub fn from_node(id: u32) -> Self {
        if id == 0 {
            return Sym::cst(F::zero());
        }
        let a = F::arena().lock().unwrap();
        let v = F::from_l4(&a.shadow[id as usize]);
        if let Node::Const(_) = a.nodes[id as usize] {
            return Sym::cst(v);
        }
        Sym { v, id }
    }
    /// node id of this element, interning constants
    pub fn node(&self) -> u32 {
        if self.id != 0 {
            return self.id;
        }
        let l = self.v.to_l4();
        F::arena().lock().unwrap().intern(Node::Const(l), l)
    }
    pub fn is_const(&self) -> bool {
        self.id == 0
    }
    fn un(n: fn(u32) -> Node, x: &Self, v: F) -> Self {
        let id = F::arena().lock().unwrap().intern(n(x.id), v.to_l4());
        Sym { v, id }
    }
    fn bin(n: fn(u32, u32) -> Node, x: &Self, y: &Self, v: F) -> Self {
        let (mut a, mut b) = (x.node(), y.node());
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let id = F::arena().lock().unwrap().intern(n(a, b), v.to_l4());
        Sym { v, id }
    }
    fn s_add(x: &Self, y: &Self) -> Self {
        let v = x.v + y.v;
        if x.id == 0 && y.id == 0 {
            return Sym::cst(v);
        }
        if x.id == 0 && x.v.is_zero() {
            return *y;
        }
        if y.id == 0 && y.v.is_zero() {
            return *x;
        }
        if v.is_zero() && x.id != 0 && y.id != 0 {
            let a = F::arena().lock().unwrap();
            if a.nodes[x.id as usize] == Node::Neg(y.id) || a.nodes[y.id as usize] == Node::Neg(x.id) {
                return Sym::cst(v);
            }
        }
        Self::bin(Node::Add, x, y, v)
    }
    fn s_neg(x: &Self) -> Self {
        let v = -x.v;
        if x.id == 0 {
            return Sym::cst(v);
        }
        {
            let a = F::arena().lock().unwrap();
            if let Node::Neg(i) = a.nodes[x.id as usize] {
                return Sym { v, id: i };
            }
        }
        Self::un(Node::Neg, x, v)
    }
    fn s_sub(x: &Self, y: &Self) -> Self {
        if x.id != 0 && x.id == y.id {
            return Sym::cst(F::zero());
        }
        Self::s_add(x, &Self::s_neg(y))
    }
    fn s_mul(x: &Self, y: &Self) -> Self {
        let v = x.v * y.v;
        if x.id == 0 && y.id == 0 {
            return Sym::cst(v);
        }
        for (p, q) in [(x, y), (y, x)] {
            if p.id == 0 {
                if p.v.is_zero() {
                    return Sym::cst(F::zero());
                }
                if p.v.is_one() {
                    return *q;
                }
                if p.v == -F::one() {
                    return Self::s_neg(q);
                }
            }
        }
        Self::bin(Node::Mul, x, y, v)
    }
    fn s_inv(x: &Self) -> Option<Self> {
        if x.id == 0 {
            return x.v.inverse().map(Sym::cst);
        }
        match x.v.inverse() {
            None => {
                log_path::<F>("zero", x.id, 0, true);
                None
            }
            Some(v) => {
                log_path::<F>("zero", x.id, 0, false);
                {
                    let a = F::arena().lock().unwrap();
                    if let Node::Inv(i) = a.nodes[x.id as usize] {
                        return Some(Sym { v, id: i });
                    }
                }
                Some(Self::un(Node::Inv, x, v))
            }
        }
    }
}

pub fn log_path<F: SymBase>(kind: &'static str, a: u32, b: u32, result: bool) {
    let mut p = F::path().lock().unwrap();
    p.push(PathCond { kind, a, b, result });
}

thread_local! {
    static SHADOW_RNG: RefCell<Option<ark_std::rand::rngs::StdRng>> = RefCell::new(None);
}
/// sample constants instead of symbols (on every thread)
pub static CONST_RND: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn set_const_rnd(x: bool) {
    CONST_RND.store(x, std::sync::atomic::Ordering::SeqCst)
}
pub fn seed_shadow(seed: u64) {
    use ark_std::rand::SeedableRng;
    SHADOW_RNG.with(|r| *r.borrow_mut() = Some(ark_std::rand::rngs::StdRng::seed_from_u64(seed)));
}
pub fn rand_f<F: SymBase>() -> F {
    use ark_std::rand::SeedableRng;
    SHADOW_RNG.with(|r| {
        let mut r = r.borrow_mut();
        let rng = r.get_or_insert_with(|| ark_std::rand::rngs::StdRng::seed_from_u64(1));
        F::rand(rng)
    })
}

/// encoded scalars and their nodes, while recording is on
pub static SER_SCALARS: Mutex<Vec<(Vec<u8>, u32)>> = Mutex::new(Vec::new());

/// Comparisons of signature scalars decided by a plan instead of the values: (node, node) to outcome; and those met.
#[derive(Default)]
pub struct Force {
    pub plan: HashMap<(u32, u32), bool>,
    pub met: Vec<((u32, u32), bool)>,
}
pub static FORCING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub static FORCE: Mutex<Option<Force>> = Mutex::new(None);
fn forced<F: SymBase>(a: u32, b: u32, r: bool) -> bool {
    if !FORCING.load(std::sync::atomic::Ordering::SeqCst) || std::any::TypeId::of::<F>() != std::any::TypeId::of::<ark_pallas::Fr>() {
        return r;
    }
    let k = (a.min(b), a.max(b));
    match FORCE.lock().unwrap().as_mut() {
        Some(f) => {
            let r = f.plan.get(&k).copied().unwrap_or(r);
            if f.met.iter().all(|m| m.0 != k) {
                f.met.push((k, r));
            }
            r
        }
        None => r,
    }
}

impl<F: SymBase> PartialEq for Sym<F> {
    fn eq(&self, o: &Self) -> bool {
        let mut r = self.v == o.v;
        if (self.id != 0 || o.id != 0) && self.id != o.id {
            r = forced::<F>(self.node(), o.node(), r);
        }
        if (self.id != 0 || o.id != 0) && self.id != o.id {
            log_path::<F>("eq", self.node(), o.node(), r);
        }
        r
    }
}
impl<F: SymBase> Eq for Sym<F> {}
impl<F: SymBase> PartialOrd for Sym<F> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<F: SymBase> Ord for Sym<F> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        let r = self.v.cmp(&o.v);
        if (self.id != 0 || o.id != 0) && self.id != o.id {
            log_path::<F>("cmp", self.node(), o.node(), r == std::cmp::Ordering::Greater);
        }
        r
    }
}
impl<F: SymBase> Hash for Sym<F> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.v.hash(h)
    }
}
impl<F: SymBase> Default for Sym<F> {
    fn default() -> Self {
        Sym::cst(F::zero())
    }
}
impl<F: SymBase> fmt::Debug for Sym<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "#{}:{}", self.id, self.v)
    }
}
impl<F: SymBase> fmt::Display for Sym<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "#{}:{}", self.id, self.v)
    }
}
impl<F: SymBase> Zeroize for Sym<F> {
    fn zeroize(&mut self) {
        *self = Self::default();
    }
}
impl<F: SymBase> Zero for Sym<F> {
    fn zero() -> Self {
        Sym::cst(F::zero())
    }
    fn is_zero(&self) -> bool {
        let mut r = self.v.is_zero();
        if self.id != 0 {
            r = forced::<F>(self.id, Self::cst(F::zero()).node(), r);
            log_path::<F>("zero", self.id, 0, r);
        }
        r
    }
}
impl<F: SymBase> One for Sym<F> {
    fn one() -> Self {
        Sym::cst(F::one())
    }
    fn is_one(&self) -> bool {
        *self == Self::one()
    }
}
impl<F: SymBase> Neg for Sym<F> {
    type Output = Self;
    fn neg(self) -> Self {
        Self::s_neg(&self)
    }
}
macro_rules! ops {
    ($tr:ident, $m:ident, $tra:ident, $ma:ident, $f:expr) => {
        impl<F: SymBase> $tr<Sym<F>> for Sym<F> {
            type Output = Self;
            fn $m(self, o: Self) -> Self {
                $f(&self, &o)
            }
        }
        impl<'a, F: SymBase> $tr<&'a Sym<F>> for Sym<F> {
            type Output = Self;
            fn $m(self, o: &Self) -> Self {
                $f(&self, o)
            }
        }
        impl<'a, F: SymBase> $tr<&'a mut Sym<F>> for Sym<F> {
            type Output = Self;
            fn $m(self, o: &'a mut Self) -> Self {
                $f(&self, o)
            }
        }
        impl<'a, 'b, F: SymBase> $tr<&'b Sym<F>> for &'a Sym<F> {
            type Output = Sym<F>;
            fn $m(self, o: &Sym<F>) -> Sym<F> {
                $f(self, o)
            }
        }
        impl<F: SymBase> $tra<Sym<F>> for Sym<F> {
            fn $ma(&mut self, o: Self) {
                *self = $f(self, &o)
            }
        }
        impl<'a, F: SymBase> $tra<&'a Sym<F>> for Sym<F> {
            fn $ma(&mut self, o: &Self) {
                *self = $f(self, o)
            }
        }
        impl<'a, F: SymBase> $tra<&'a mut Sym<F>> for Sym<F> {
            fn $ma(&mut self, o: &'a mut Self) {
                *self = $f(self, o)
            }
        }
    };
}
ops!(Add, add, AddAssign, add_assign, Sym::s_add);
ops!(Sub, sub, SubAssign, sub_assign, Sym::s_sub);
ops!(Mul, mul, MulAssign, mul_assign, Sym::s_mul);
fn s_div<F: SymBase>(a: &Sym<F>, b: &Sym<F>) -> Sym<F> {
    Sym::s_mul(a, &Sym::s_inv(b).expect("division by zero"))
}
ops!(Div, div, DivAssign, div_assign, s_div);

impl<F: SymBase> std::iter::Sum<Self> for Sym<F> {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Self::zero(), |a, b| a + b)
    }
}
impl<'a, F: SymBase> std::iter::Sum<&'a Self> for Sym<F> {
    fn sum<I: Iterator<Item = &'a Self>>(it: I) -> Self {
        it.fold(Self::zero(), |a, b| a + b)
    }
}
impl<F: SymBase> std::iter::Product<Self> for Sym<F> {
    fn product<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Self::one(), |a, b| a * b)
    }
}
impl<'a, F: SymBase> std::iter::Product<&'a Self> for Sym<F> {
    fn product<I: Iterator<Item = &'a Self>>(it: I) -> Self {
        it.fold(Self::one(), |a, b| a * b)
    }
}
macro_rules! from_int {
    ($($t:ty),*) => {$(impl<F: SymBase> From<$t> for Sym<F> { fn from(x: $t) -> Self { Sym::cst(F::from(x)) } })*};
}
from_int!(u128, u64, u32, u16, u8, bool);
impl<F: SymBase> From<BigUint> for Sym<F> {
    fn from(x: BigUint) -> Self {
        Sym::cst(F::from(x))
    }
}
impl<F: SymBase> From<Sym<F>> for BigUint {
    fn from(x: Sym<F>) -> Self {
        log_conc(&x);
        x.v.into()
    }
}
impl<F: SymBase> FromStr for Sym<F> {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        F::from_str(s).map(Sym::cst).map_err(|_| ())
    }
}
fn log_conc<F: SymBase>(x: &Sym<F>) {
    if x.id != 0 {
        log_path::<F>("concretised", x.id, 0, true);
    }
}

impl<F: SymBase> Distribution<Sym<F>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Sym<F> {
        let v = F::rand(rng);
        if CONST_RND.load(std::sync::atomic::Ordering::SeqCst) {
            return Sym::cst(v);
        }
        let n = {
            let mut a = F::arena().lock().unwrap();
            a.rnd_count += 1;
            a.rnd_count
        };
        Sym::var(&format!("rnd{}", n), v)
    }
}

impl<F: SymBase> CanonicalSerializeWithFlags for Sym<F> {
    fn serialize_with_flags<W: Write, Fl: Flags>(&self, w: W, f: Fl) -> Result<(), SerializationError> {
        self.v.serialize_with_flags(w, f)
    }
    fn serialized_size_with_flags<Fl: Flags>(&self) -> usize {
        self.v.serialized_size_with_flags::<Fl>()
    }
}
impl<F: SymBase> CanonicalSerialize for Sym<F> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> {
        if crate::curve::SER_ON.load(std::sync::atomic::Ordering::SeqCst) && std::any::TypeId::of::<F>() == std::any::TypeId::of::<ark_pallas::Fr>() {
            let mut b = vec![];
            self.v.serialize_with_mode(&mut b, c)?;
            SER_SCALARS.lock().unwrap().push((b, self.node()));
        }
        self.v.serialize_with_mode(w, c)
    }
    fn serialized_size(&self, c: Compress) -> usize {
        self.v.serialized_size(c)
    }
}
impl<F: SymBase> Valid for Sym<F> {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
/// Look up a node with the given shadow (used when decoding bytes): symbol if known, else constant.
pub fn relift<F: SymBase>(v: F) -> Sym<F> {
    let a = F::arena().lock().unwrap();
    let l = v.to_l4();
    if l[1] == 0 && l[2] == 0 && l[3] == 0 && l[0] < 1 << 40 {
        return Sym::cst(v);
    }
    match a.by_shadow.get(&l) {
        Some(&id) if !matches!(a.nodes[id as usize], Node::Const(_)) => Sym { v, id },
        _ => Sym::cst(v),
    }
}
impl<F: SymBase> CanonicalDeserialize for Sym<F> {
    fn deserialize_with_mode<R: Read>(r: R, c: Compress, va: Validate) -> Result<Self, SerializationError> {
        F::deserialize_with_mode(r, c, va).map(relift)
    }
}
impl<F: SymBase> CanonicalDeserializeWithFlags for Sym<F> {
    fn deserialize_with_flags<R: Read, Fl: Flags>(r: R) -> Result<(Self, Fl), SerializationError> {
        F::deserialize_with_flags(r).map(|(v, f)| (relift(v), f))
    }
}

/// Challenge symbols: label, symbol, log position, in order of creation.
pub static CHALLENGES: Mutex<Vec<(String, u32, usize)>> = Mutex::new(Vec::new());

impl<F: SymBase> Field for Sym<F> {
    type BasePrimeField = Self;
    type BasePrimeFieldIter = std::iter::Once<Self>;
    const SQRT_PRECOMP: Option<SqrtPrecomputation<Self>> = None;
    const ZERO: Self = Sym { v: F::ZERO, id: 0 };
    const ONE: Self = Sym { v: F::ONE, id: 0 };
    fn characteristic() -> &'static [u64] {
        F::characteristic()
    }
    fn extension_degree() -> u64 {
        1
    }
    fn to_base_prime_field_elements(&self) -> Self::BasePrimeFieldIter {
        std::iter::once(*self)
    }
    fn from_base_prime_field_elems(e: &[Self]) -> Option<Self> {
        if e.len() == 1 {
            Some(e[0])
        } else {
            None
        }
    }
    fn from_base_prime_field(e: Self) -> Self {
        e
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn double_in_place(&mut self) -> &mut Self {
        *self = self.double();
        self
    }
    fn neg_in_place(&mut self) -> &mut Self {
        *self = -*self;
        self
    }
    fn from_random_bytes_with_flags<Fl: Flags>(b: &[u8]) -> Option<(Self, Fl)> {
        let (v, f) = F::from_random_bytes_with_flags::<Fl>(b)?;
        if Fl::BIT_SIZE == 0 {
            let pend = merlin::LAST_CHALLENGE.with(|l| l.borrow_mut().take());
            // or a leftover of something that was not lifted?
            let pend = pend.filter(|p| p.3 == merlin::EPOCH.load(std::sync::atomic::Ordering::SeqCst));
            if let Some((pos, label, _, _)) = pend {
                let l = v.to_l4();
                let known = F::arena().lock().unwrap().chal_by_shadow.get(&l).copied();
                let s = match known {
                    Some(id) => Sym { v, id },
                    None => {
                        let s = Sym::var(&format!("ch_{}", String::from_utf8_lossy(label)), v);
                        F::arena().lock().unwrap().chal_by_shadow.insert(l, s.id);
                        s
                    }
                };
                CHALLENGES.lock().unwrap().push((String::from_utf8_lossy(label).to_string(), s.id, pos));
                return Some((s, f));
            }
        }
        Some((Sym::cst(v), f))
    }
    fn legendre(&self) -> LegendreSymbol {
        if self.id != 0 {
            log_path::<F>("legendre", self.id, 0, true);
        }
        self.v.legendre()
    }
    fn sqrt(&self) -> Option<Self> {
        if self.id == 0 {
            return self.v.sqrt().map(Sym::cst);
        }
        log_path::<F>("sqrt", self.id, 0, true);
        let v = self.v.sqrt()?;
        Some(Sym::var(&format!("sqrt{}", self.id), v))
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = self.square();
        self
    }
    fn inverse(&self) -> Option<Self> {
        Self::s_inv(self)
    }
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        match Self::s_inv(self) {
            Some(x) => {
                *self = x;
                Some(self)
            }
            None => None,
        }
    }
    fn frobenius_map_in_place(&mut self, _p: usize) {}
}
impl<F: SymBase> FftField for Sym<F> {
    const GENERATOR: Self = Sym { v: F::GENERATOR, id: 0 };
    const TWO_ADICITY: u32 = F::TWO_ADICITY;
    const TWO_ADIC_ROOT_OF_UNITY: Self = Sym { v: F::TWO_ADIC_ROOT_OF_UNITY, id: 0 };
}
/// BigInt wrapper is not possible (From/Into conflicts), so use the base field's BigInt type.
impl<F: SymBase> From<ark_ff::BigInteger256> for Sym<F> {
    fn from(b: ark_ff::BigInteger256) -> Self {
        Sym::cst(F::from_bigint(b).unwrap())
    }
}
impl<F: SymBase> From<Sym<F>> for ark_ff::BigInteger256 {
    fn from(s: Sym<F>) -> Self {
        log_conc(&s);
        s.v.into_bigint()
    }
}
impl<F: SymBase> PrimeField for Sym<F>
{
    type BigInt = ark_ff::BigInteger256;
    const MODULUS: Self::BigInt = F::MODULUS;
    const MODULUS_MINUS_ONE_DIV_TWO: Self::BigInt = F::MODULUS_MINUS_ONE_DIV_TWO;
    const MODULUS_BIT_SIZE: u32 = F::MODULUS_BIT_SIZE;
    const TRACE: Self::BigInt = F::TRACE;
    const TRACE_MINUS_ONE_DIV_TWO: Self::BigInt = F::TRACE_MINUS_ONE_DIV_TWO;
    fn from_bigint(r: Self::BigInt) -> Option<Self> {
        F::from_bigint(r).map(Sym::cst)
    }
    fn into_bigint(self) -> Self::BigInt {
        log_conc(&self);
        self.v.into_bigint()
    }
}
#[allow(dead_code)]
pub fn bits_of(l: &L4) -> usize {
    ark_ff::BigInteger256::new(*l).num_bits() as usize
}
