//! Things shared by the checks.
pub use crate::curve::*;
pub use crate::poly::*;
pub use crate::report::*;
pub use crate::smt::*;
pub use crate::sym::*;
pub use ark_ec::{AffineRepr, CurveGroup, Group, VariableBaseMSM};
pub use ark_ff::{Field, One, PrimeField, Zero};
pub use bulletproofs::{BulletproofGens, PedersenGens};
use std::sync::OnceLock;

pub type NP = ark_pallas::Affine;

/// Public generators, lifted (constant coordinates), with readable basis names.
pub struct Gens {
    pub pc: PedersenGens<PA>,
    pub bp: BulletproofGens<PA>,
    /// atoms of B, B_blinding, G_i, H_i
    pub b: u32,
    pub bb: u32,
    pub g: Vec<u32>,
    pub h: Vec<u32>,
}
pub fn gens(cap: usize) -> Gens {
    let pc = PedersenGens::<PA>::default();
    let bp = BulletproofGens::<PA>::new(cap, 1);
    let at = |p: &PA, n: String| {
        let (a, neg) = atom_of::<SymPallas>(&shadow_pt(p), Some(&n));
        assert!(!neg);
        a
    };
    let b = at(&pc.B, "B".into());
    let bb = at(&pc.B_blinding, "B~".into());
    let g = bp.share(0).G(cap).enumerate().map(|(i, p)| at(p, format!("G{}", i))).collect();
    let h = h_gens(&bp, cap).iter().enumerate().map(|(i, p)| at(p, format!("H{}", i))).collect();
    Gens { pc, bp, b, bb, g, h }
}
/// The H generators are not public: commitments of the prover reveal them (the H part of its A_I1 bases).
pub fn h_gens<C: AffineRepr>(bp: &BulletproofGens<C>, cap: usize) -> Vec<C> {
    bp.verif_h(cap)
}
pub fn native_gens(cap: usize) -> &'static (PedersenGens<NP>, BulletproofGens<NP>) {
    static G: OnceLock<(PedersenGens<NP>, BulletproofGens<NP>)> = OnceLock::new();
    let g = G.get_or_init(|| (PedersenGens::default(), BulletproofGens::new(256, 1)));
    assert!(cap <= 256);
    g
}
pub fn terms_poly(n: &mut Norm<Fq>, t: &Terms<Fq>, a: u32) -> Poly<Fq> {
    match t.iter().find(|x| x.0 == a) {
        Some((_, s)) => (*n.sym(s)).clone(),
        None => Poly::zero(),
    }
}
/// Run with panics caught and silenced.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| *q.borrow_mut() += 1);
    SILENT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    merlin::EPOCH.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() -= 1);
    SILENT.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    merlin::EPOCH.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    r.map_err(|e| {
        e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
    })
}
/// some thread is inside `quiet`
static SILENT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
thread_local! {
    pub static QUIET: std::cell::RefCell<usize> = std::cell::RefCell::new(0);
    pub static LAST_PANIC: std::cell::RefCell<String> = Default::default();
}
pub fn install_hook() {
    let d = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let q = QUIET.try_with(|q| *q.borrow() > 0).unwrap_or(true) || (std::thread::current().name().is_none() && SILENT.load(std::sync::atomic::Ordering::SeqCst) > 0);
        if !q {
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = at);
        }
        if !q || std::env::var("VH_LOUD").is_ok() {
            d(i)
        }
    }));
}

/// Number of random scalars drawn so far, and the values drawn since.
pub fn rnd_count() -> usize {
    Fq::arena().lock().unwrap().rnd_count
}
pub fn rnd_from(c: usize) -> Vec<Fq> {
    let a = Fq::arena().lock().unwrap();
    let names: std::collections::HashSet<String> = (c + 1..=a.rnd_count).map(|i| format!("rnd{}", i)).collect();
    let ids: Vec<u32> = (0..a.shadow.len() as u32).filter(|i| names.contains(&node_name::<Fq>(&a, *i))).collect();
    ids.iter().map(|i| Fq::from_l4(&a.shadow[*i as usize])).collect()
}
