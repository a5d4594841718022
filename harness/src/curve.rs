//! Lifted curve cycle: points are formal linear combinations of basis points with symbolic scalars.
use crate::poly::*;
use crate::sym::*;
use ark_ec::models::CurveConfig;
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup, Group};
use ark_ff::{Field, One, Zero};
use ark_serialize::*;
use std::collections::HashMap;
use std::sync::Mutex;

pub type Fp = ark_pallas::Fq; // base field of Pallas
pub type Fq = ark_pallas::Fr; // scalar field of Pallas
pub type SP = Sym<Fp>;
pub type SQ = Sym<Fq>;

/// sorted by atom; no structurally zero coefficient
pub type Terms<S> = Vec<(u32, Sym<S>)>;

#[derive(Clone)]
pub struct LcEntry<S> {
    pub terms: Terms<S>,
}

pub struct LcArena<S, C: SWCurveConfig> {
    pub lcs: Vec<LcEntry<S>>,
    pub shadow: Vec<Affine<C>>,
    pub by_terms: HashMap<Vec<(u32, u32)>, u32>,
    pub by_shadow: HashMap<(L4, L4), Vec<u32>>,
    /// atom -> (name, shadow)
    pub atoms: Vec<(String, Affine<C>)>,
    pub atom_by_shadow: HashMap<(L4, L4), u32>,
    pub merges: usize,
}
impl<S, C: SWCurveConfig> Default for LcArena<S, C> {
    fn default() -> Self {
        LcArena {
            lcs: vec![],
            shadow: vec![],
            by_terms: HashMap::new(),
            by_shadow: HashMap::new(),
            atoms: vec![],
            atom_by_shadow: HashMap::new(),
            merges: 0,
        }
    }
}

/// A concrete curve that can be lifted, with its lifted configuration.
pub trait SymCurve: SWCurveConfig<BaseField = Sym<Self::BB>, ScalarField = Sym<Self::SB>> {
    type BB: SymBase;
    type SB: SymBase;
    type Conc: SWCurveConfig<BaseField = Self::BB, ScalarField = Self::SB>;
    fn lc_arena() -> &'static Mutex<LcArena<Self::SB, Self::Conc>>;
    fn ser_log() -> &'static Mutex<Vec<(Vec<u8>, Terms<Self::SB>)>>;
    fn msm_log() -> &'static Mutex<Vec<MsmRec<Self::SB>>>;
    /// identity tests on points: (linear combination, outcome)
    fn zero_log() -> &'static Mutex<Vec<(Terms<Self::SB>, bool)>>;
    /// linear combinations whose shadow vanished
    fn vanish_log() -> &'static Mutex<Vec<Terms<Self::SB>>>;
    const NAME: &'static str;
}

/// A recorded multi-scalar multiplication.
#[derive(Clone)]
pub struct MsmRec<S> {
    pub bases: Vec<Terms<S>>,
    pub scalars: Vec<Sym<S>>,
    pub result: Terms<S>,
    pub is_zero: bool,
}

pub type CA<C> = Affine<<C as SymCurve>::Conc>;

fn key<C: SymCurve>(p: &CA<C>) -> (L4, L4) {
    (p.x.to_l4(), p.y.to_l4())
}
fn terms_key<S: SymBase>(t: &Terms<S>) -> Vec<(u32, u32)> {
    t.iter().map(|(a, s)| (*a, s.node())).collect()
}

pub fn shadow_pt<C: SymCurve>(p: &Affine<C>) -> CA<C> {
    if p.infinity {
        Affine::identity()
    } else {
        Affine::new_unchecked(p.x.v, p.y.v)
    }
}
pub fn atom_name<C: SymCurve>(a: u32) -> String {
    C::lc_arena().lock().unwrap().atoms[a as usize].0.clone()
}
/// Basis atom of a concrete point (registers it if new); returns (atom, negated).
pub fn atom_of<C: SymCurve>(p: &CA<C>, name: Option<&str>) -> (u32, bool) {
    let mut a = C::lc_arena().lock().unwrap();
    if let Some(i) = a.atom_by_shadow.get(&key::<C>(p)) {
        return (*i, false);
    }
    let n = -*p;
    if let Some(i) = a.atom_by_shadow.get(&key::<C>(&n)) {
        return (*i, true);
    }
    let i = a.atoms.len() as u32;
    let nm = name.map(|s| s.to_string()).unwrap_or(format!("P{}", i));
    a.atoms.push((nm, *p));
    a.atom_by_shadow.insert(key::<C>(p), i);
    (i, false)
}

pub fn terms_shadow<C: SymCurve>(t: &Terms<C::SB>) -> CA<C> {
    let a = C::lc_arena().lock().unwrap();
    let mut r = Projective::<C::Conc>::zero();
    for (i, s) in t {
        let p = a.atoms[*i as usize].1;
        if s.v.is_one() {
            r += p;
        } else {
            r += p * s.v;
        }
    }
    r.into_affine()
}

pub fn terms_add<S: SymBase>(a: &Terms<S>, b: &Terms<S>) -> Terms<S> {
    let mut o = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            o.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            o.push(b[j]);
            j += 1;
        } else {
            let s = a[i].1 + b[j].1;
            if !(s.id == 0 && s.v.is_zero()) {
                o.push((a[i].0, s));
            }
            i += 1;
            j += 1;
        }
    }
    o
}
pub fn terms_neg<S: SymBase>(a: &Terms<S>) -> Terms<S> {
    a.iter().map(|(i, s)| (*i, -*s)).collect()
}
pub fn terms_mul<S: SymBase>(a: &Terms<S>, k: &Sym<S>) -> Terms<S> {
    if k.id == 0 && k.v.is_zero() {
        return vec![];
    }
    a.iter().map(|(i, s)| (*i, *s * *k)).collect()
}

fn terms_equal<S: SymBase>(a: &Terms<S>, b: &Terms<S>) -> bool {
    let d = terms_add(a, &terms_neg(b));
    let mut n = Norm::<S>::new();
    d.iter().all(|(_, s)| n.sym(s).is_zero())
}

/// Build the lifted point for a linear combination whose shadow is known.
pub fn point_of_terms<C: SymCurve>(t: &Terms<C::SB>, shadow: CA<C>) -> Affine<C> {
    if shadow.infinity {
        if !t.is_empty() {
            C::vanish_log().lock().unwrap().push(t.clone());
        }
        return Affine::identity();
    }
    // canonical sign: smaller y
    let neg = (-shadow.y).to_l4_be() < shadow.y.to_l4_be();
    let (ct, cs) = if neg { (terms_neg(t), -shadow) } else { (t.clone(), shadow) };
    let tk = terms_key(&ct);
    let found = {
        let a = C::lc_arena().lock().unwrap();
        match a.by_terms.get(&tk) {
            Some(i) => Some(*i),
            None => None,
        }
    };
    let lc = match found {
        Some(i) => i,
        None => {
            let cands: Vec<(u32, Terms<C::SB>)> = {
                let a = C::lc_arena().lock().unwrap();
                a.by_shadow
                    .get(&key::<C>(&cs))
                    .map(|v| v.iter().map(|i| (*i, a.lcs[*i as usize].terms.clone())).collect())
                    .unwrap_or_default()
            };
            let mut hit = None;
            for (i, t2) in cands {
                if terms_equal(&ct, &t2) {
                    hit = Some(i);
                    break;
                }
            }
            let mut a = C::lc_arena().lock().unwrap();
            match hit {
                Some(i) => {
                    a.merges += 1;
                    a.by_terms.insert(tk, i);
                    i
                }
                None => {
                    let i = a.lcs.len() as u32;
                    a.lcs.push(LcEntry { terms: ct.clone() });
                    a.shadow.push(cs);
                    a.by_terms.insert(tk, i);
                    a.by_shadow.entry(key::<C>(&cs)).or_default().push(i);
                    i
                }
            }
        }
    };
    // a single basis atom with coefficient +-1 that is a public constant keeps constant coordinates
    if ct.len() == 1 && ct[0].1.id == 0 && ct[0].1.v.is_one() || ct.len() == 1 && ct[0].1.id == 0 && ct[0].1.v == -C::SB::one() {
        let at = ct[0].0;
        let is_const = !C::lc_arena().lock().unwrap().atoms[at as usize].0.starts_with('$');
        if is_const {
            return Affine::new_unchecked(Sym::cst(shadow.x), Sym::cst(shadow.y));
        }
    }
    let (x, y) = {
        let mut a = C::BB::arena().lock().unwrap();
        (a.intern(Node::PX(lc), cs.x.to_l4()), a.intern(Node::PY(lc), cs.y.to_l4()))
    };
    let y = Sym { v: cs.y, id: y };
    let y = if neg { -y } else { y };
    Affine::new_unchecked(Sym { v: cs.x, id: x }, y)
}

pub trait BeKey {
    fn to_l4_be(&self) -> [u64; 4];
}
impl<F: SymBase> BeKey for F {
    fn to_l4_be(&self) -> [u64; 4] {
        let l = self.to_l4();
        [l[3], l[2], l[1], l[0]]
    }
}

/// The linear combination of a lifted (or constant) point.
pub fn terms_of<C: SymCurve>(p: &Affine<C>) -> Terms<C::SB> {
    if p.infinity {
        return vec![];
    }
    if p.x.id == 0 && p.y.id == 0 {
        let (a, neg) = atom_of::<C>(&Affine::new_unchecked(p.x.v, p.y.v), None);
        let one = Sym::<C::SB>::one();
        return vec![(a, if neg { -one } else { one })];
    }
    let (nx, ny) = {
        let a = C::BB::arena().lock().unwrap();
        let ny = a.nodes[p.y.id as usize];
        let ny = match ny {
            Node::Neg(i) => (a.nodes[i as usize], true),
            n => (n, false),
        };
        (a.nodes[p.x.id as usize], ny)
    };
    match (nx, ny) {
        (Node::PX(l), (Node::PY(m), neg)) if l == m => {
            let t = C::lc_arena().lock().unwrap().lcs[l as usize].terms.clone();
            if neg {
                terms_neg(&t)
            } else {
                t
            }
        }
        _ => panic!("point with foreign coordinates {:?} {:?}", nx, ny),
    }
}
pub fn terms_of_proj<C: SymCurve>(p: &Projective<C>) -> Terms<C::SB> {
    if p.z.id == 0 && p.z.v.is_zero() {
        return vec![];
    }
    assert!(p.z.id == 0 && p.z.v.is_one(), "lifted point with Z != 1");
    terms_of::<C>(&Affine::new_unchecked(p.x, p.y))
}
fn mk<C: SymCurve>(t: Terms<C::SB>, shadow: CA<C>) -> Projective<C> {
    point_of_terms::<C>(&t, shadow).into()
}
fn sh<C: SymCurve>(p: &Projective<C>) -> CA<C> {
    if p.z.v.is_zero() {
        Affine::identity()
    } else {
        Affine::new_unchecked(p.x.v, p.y.v)
    }
}

/// A fresh opaque symbolic point (a basis atom of its own).  Names start with '$'.
pub fn sym_point<C: SymCurve>(name: &str) -> Affine<C> {
    let k = rand_f::<C::SB>();
    let shadow = (C::Conc::GENERATOR * k).into_affine();
    sym_point_sh::<C>(name, shadow)
}
pub fn sym_point_sh<C: SymCurve>(name: &str, shadow: CA<C>) -> Affine<C> {
    let (a, neg) = atom_of::<C>(&shadow, Some(&format!("${}", name)));
    assert!(!neg);
    point_of_terms::<C>(&vec![(a, Sym::one())], shadow)
}
/// Linear combination of concrete generators with symbolic coefficients.
pub fn lin_comb<C: SymCurve>(items: &[(Affine<C>, Sym<C::SB>)]) -> Affine<C> {
    let mut t: Terms<C::SB> = vec![];
    for (p, s) in items {
        t = terms_add(&t, &terms_mul(&terms_of(p), s));
    }
    let s = terms_shadow::<C>(&t);
    point_of_terms::<C>(&t, s)
}

/// record every encoded point
pub static SER_ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

macro_rules! sym_curve {
    ($name:ident, $conc:ty, $bb:ty, $sb:ty, $str:expr) => {
        #[derive(Copy, Clone, Default, PartialEq, Eq)]
        pub struct $name;
        impl CurveConfig for $name {
            type BaseField = Sym<$bb>;
            type ScalarField = Sym<$sb>;
            const COFACTOR: &'static [u64] = &[1];
            const COFACTOR_INV: Sym<$sb> = Sym::cst(<$sb>::ONE);
        }
        impl SymCurve for $name {
            type BB = $bb;
            type SB = $sb;
            type Conc = $conc;
            const NAME: &'static str = $str;
            fn lc_arena() -> &'static Mutex<LcArena<$sb, $conc>> {
                static A: std::sync::OnceLock<Mutex<LcArena<$sb, $conc>>> = std::sync::OnceLock::new();
                A.get_or_init(Default::default)
            }
            fn zero_log() -> &'static Mutex<Vec<(Terms<$sb>, bool)>> {
                static A: Mutex<Vec<(Terms<$sb>, bool)>> = Mutex::new(Vec::new());
                &A
            }
            fn vanish_log() -> &'static Mutex<Vec<Terms<$sb>>> {
                static A: Mutex<Vec<Terms<$sb>>> = Mutex::new(Vec::new());
                &A
            }
            fn ser_log() -> &'static Mutex<Vec<(Vec<u8>, Terms<$sb>)>> {
                static A: Mutex<Vec<(Vec<u8>, Terms<$sb>)>> = Mutex::new(Vec::new());
                &A
            }
            fn msm_log() -> &'static Mutex<Vec<MsmRec<$sb>>> {
                static A: Mutex<Vec<MsmRec<$sb>>> = Mutex::new(Vec::new());
                &A
            }
        }
        impl SWCurveConfig for $name {
            const COEFF_A: Sym<$bb> = Sym::cst(<$conc as SWCurveConfig>::COEFF_A);
            const COEFF_B: Sym<$bb> = Sym::cst(<$conc as SWCurveConfig>::COEFF_B);
            const GENERATOR: Affine<$name> = Affine::new_unchecked(
                Sym::cst(<$conc as SWCurveConfig>::GENERATOR.x),
                Sym::cst(<$conc as SWCurveConfig>::GENERATOR.y),
            );
            fn mul_projective(base: &Projective<Self>, scalar: &[u64]) -> Projective<Self> {
                let t = terms_of_proj(base);
                let s = sh(base);
                let r = s.mul_bigint(scalar).into_affine();
                let k = scalar.iter().rev().fold(<$sb>::zero(), |a, w| {
                    let mut x = a;
                    for _ in 0..64 {
                        x = x + x;
                    }
                    x + <$sb>::from(*w)
                });
                mk::<$name>(terms_mul(&t, &Sym::cst(k)), r)
            }
            fn mul_affine(base: &Affine<Self>, scalar: &[u64]) -> Projective<Self> {
                Self::mul_projective(&(*base).into(), scalar)
            }
            fn is_in_correct_subgroup_assuming_on_curve(_: &Affine<Self>) -> bool {
                true
            }
            fn lift_add(a: &Projective<Self>, b: &Projective<Self>) -> Option<Projective<Self>> {
                if a.z.v.is_zero() {
                    return Some(*b);
                }
                if b.z.v.is_zero() {
                    return Some(*a);
                }
                let t = terms_add(&terms_of_proj(a), &terms_of_proj(b));
                let s = (sh(a) + sh(b)).into_affine();
                Some(mk::<$name>(t, s))
            }
            fn lift_zero_test(a: &Projective<Self>) {
                if a.z.v.is_zero() {
                    Self::zero_log().lock().unwrap().push((vec![], true));
                } else if a.z.id == 0 && a.z.v.is_one() {
                    Self::zero_log().lock().unwrap().push((terms_of_proj(a), false));
                }
            }
            fn lift_neg(a: &Projective<Self>) -> Option<Projective<Self>> {
                if a.z.v.is_zero() {
                    return Some(*a);
                }
                Some(mk::<$name>(terms_neg(&terms_of_proj(a)), -sh(a)))
            }
            fn lift_mul(a: &Projective<Self>, k: &Sym<$sb>) -> Option<Projective<Self>> {
                if a.z.v.is_zero() {
                    return Some(*a);
                }
                let s = (sh(a) * k.v).into_affine();
                Some(mk::<$name>(terms_mul(&terms_of_proj(a), k), s))
            }
            fn lift_msm(bases: &[Affine<Self>], scalars: &[Sym<$sb>]) -> Option<Projective<Self>> {
                let n = bases.len().min(scalars.len());
                let mut acc: std::collections::BTreeMap<u32, Sym<$sb>> = Default::default();
                let mut bt = Vec::with_capacity(n);
                for i in 0..n {
                    let t = terms_of(&bases[i]);
                    for (at, c) in &t {
                        let v = *c * scalars[i];
                        let e = acc.entry(*at).or_insert(Sym::cst(<$sb>::zero()));
                        *e = *e + v;
                    }
                    bt.push(t);
                }
                let terms: Terms<$sb> = acc.into_iter().filter(|(_, s)| !(s.id == 0 && s.v.is_zero())).collect();
                let shb: Vec<_> = bases[..n].iter().map(|b| shadow_pt(b)).collect();
                let shs: Vec<$sb> = scalars[..n].iter().map(|s| s.v).collect();
                let s = if n == 0 {
                    Affine::<$conc>::identity()
                } else {
                    use ark_ec::VariableBaseMSM;
                    Projective::<$conc>::msm_unchecked(&shb, &shs).into_affine()
                };
                Self::msm_log().lock().unwrap().push(MsmRec {
                    bases: bt,
                    scalars: scalars[..n].to_vec(),
                    result: terms.clone(),
                    is_zero: s.infinity,
                });
                Some(mk::<$name>(terms, s))
            }
            fn lift_sample<R: ark_std::rand::Rng + ?Sized>(rng: &mut R) -> Option<Affine<Self>> {
                use ark_ff::UniformRand;
                let s = Projective::<$conc>::rand(rng).into_affine();
                let n = Self::lc_arena().lock().unwrap().atoms.len();
                Some(sym_point_sh::<$name>(&format!("rndpt{}", n), s))
            }
            fn serialize_with_mode<W: Write>(item: &Affine<Self>, w: W, c: Compress) -> Result<(), SerializationError> {
                if SER_ON.load(std::sync::atomic::Ordering::SeqCst) {
                    let mut b = vec![];
                    <$conc as SWCurveConfig>::serialize_with_mode(&shadow_pt(item), &mut b, c)?;
                    Self::ser_log().lock().unwrap().push((b, terms_of(item)));
                }
                <$conc as SWCurveConfig>::serialize_with_mode(&shadow_pt(item), w, c)
            }
            fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Affine<Self>, SerializationError> {
                let p = <$conc as SWCurveConfig>::deserialize_with_mode(r, c, v)?;
                Ok(relift_pt::<$name>(p))
            }
            fn serialized_size(c: Compress) -> usize {
                <$conc as SWCurveConfig>::serialized_size(c)
            }
        }
    };
}
sym_curve!(SymPallas, ark_pallas::PallasConfig, ark_pallas::Fq, ark_pallas::Fr, "pallas");
sym_curve!(SymVesta, ark_vesta::VestaConfig, ark_pallas::Fr, ark_pallas::Fq, "vesta");

/// The lifted point with a given shadow, if one was built before; otherwise a constant point.
pub fn relift_pt<C: SymCurve>(p: CA<C>) -> Affine<C> {
    if p.infinity {
        return Affine::identity();
    }
    let neg = (-p.y).to_l4_be() < p.y.to_l4_be();
    let cs = if neg { -p } else { p };
    let hit = {
        let a = C::lc_arena().lock().unwrap();
        a.by_shadow.get(&key::<C>(&cs)).and_then(|v| v.first().copied()).map(|i| a.lcs[i as usize].terms.clone())
    };
    match hit {
        Some(t) => {
            let t = if neg { terms_neg(&t) } else { t };
            point_of_terms::<C>(&t, p)
        }
        None => Affine::new_unchecked(Sym::cst(p.x), Sym::cst(p.y)),
    }
}
#[allow(dead_code)]
fn _unused<C: SymCurve>(p: Projective<C>) -> bool {
    p.into_affine().xy().is_some() && Projective::<C>::generator().is_zero()
}

pub type PA = Affine<SymPallas>;
pub type VA = Affine<SymVesta>;

/// The same curves with plain coordinates: points are pairs of field symbols and the library's own formulas run.
macro_rules! free_curve {
    ($name:ident, $conc:ty, $bb:ty, $sb:ty) => {
        #[derive(Copy, Clone, Default, PartialEq, Eq)]
        pub struct $name;
        impl CurveConfig for $name {
            type BaseField = Sym<$bb>;
            type ScalarField = Sym<$sb>;
            const COFACTOR: &'static [u64] = &[1];
            const COFACTOR_INV: Sym<$sb> = Sym::cst(<$sb>::ONE);
        }
        impl SWCurveConfig for $name {
            const COEFF_A: Sym<$bb> = Sym::cst(<$conc as SWCurveConfig>::COEFF_A);
            const COEFF_B: Sym<$bb> = Sym::cst(<$conc as SWCurveConfig>::COEFF_B);
            const GENERATOR: Affine<$name> = Affine::new_unchecked(
                Sym::cst(<$conc as SWCurveConfig>::GENERATOR.x),
                Sym::cst(<$conc as SWCurveConfig>::GENERATOR.y),
            );
        }
    };
}
free_curve!(FreePallas, ark_pallas::PallasConfig, ark_pallas::Fq, ark_pallas::Fr);
free_curve!(FreeVesta, ark_vesta::VestaConfig, ark_pallas::Fr, ark_pallas::Fq);
