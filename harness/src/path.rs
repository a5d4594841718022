//! P17, P18, P19: whole membership paths.  The constraints of the real verifier are cut into the blocks the real
//! single-level gadgets produce; the blocks then form the chain of levels.
use crate::common::*;
use crate::gadget::*;
use crate::p14::call;
use crate::rerand::*;
use crate::windows::*;
use bulletproofs::r1cs::*;
use merlin::{Event, Transcript};
use relations::curve_tree::*;
use relations::lookup::WINDOW_ELEMS;
use relations::single_level_select_and_rerandomize::*;
use std::collections::BTreeMap;

/// The curve that commits, and the curve its children are on.
pub trait Side: SymCurve + Copy {
    type C: Cycle<BB = <Self as SymCurve>::SB, SB = <Self as SymCurve>::BB> + Copy;
    /// the real single-level gadget
    fn level(m: Option<usize>, cs: &mut Ver<Self>, par: &SingleLayerParameters<Self::C>, out: &Aff<Self::C>, children: Vec<LinearCombination<Fs<Self>>>);
}
macro_rules! side {
    ($d:ty, $c:ty) => {
        impl Side for $d {
            type C = $c;
            fn level(m: Option<usize>, cs: &mut Ver<Self>, par: &SingleLayerParameters<$c>, out: &Aff<$c>, children: Vec<LinearCombination<Fs<Self>>>) {
                call::<$c, _>(m, cs, par, out, children, None)
            }
        }
    };
}
side!(SymPallas, SymVesta);
side!(SymVesta, SymPallas);
pub type Fs<D> = Sym<<D as SymCurve>::SB>;
pub type Ver<D> = Verifier<Transcript, Aff<D>>;
pub type Vars<D> = [Vec<Variable<Fs<D>>>];

/// What a run of a gadget left behind.
pub struct View<D: Side> {
    pub cons: Vec<Vec<(Variable<Fs<D>>, Fs<D>)>>,
    pub gates: usize,
    pub coms: Vec<(Aff<D>, usize)>,
    pub log: Vec<Event>,
}
impl<D: Side> View<D> {
    pub fn of(v: &mut Ver<D>) -> Self {
        let log = v.transcript().log.clone();
        View { cons: v.verif_constraints().iter().map(|c| c.verif_terms().to_vec()).collect(), gates: v.verif_num_vars(), coms: v.verif_commitments().1.to_vec(), log }
    }
}
type Key = (u8, usize, usize);
fn vkey<F: Field>(v: &Variable<F>) -> Key {
    match v {
        Variable::Committed(i) => (0, *i, 0),
        Variable::VectorCommit(j, i) => (1, *j, *i),
        Variable::MultiplierLeft(i) => (2, *i, 0),
        Variable::MultiplierRight(i) => (3, *i, 0),
        Variable::MultiplierOutput(i) => (4, *i, 0),
        Variable::One(_) => (5, 0, 0),
    }
}
pub fn row<B: SymBase>(t: &[(Variable<Sym<B>>, Sym<B>)]) -> BTreeMap<Key, Sym<B>> {
    let mut o: BTreeMap<Key, Sym<B>> = BTreeMap::new();
    for (v, c) in t {
        let e = o.entry(vkey(v)).or_insert(Sym::cst(B::zero()));
        *e = *e + *c;
    }
    o.retain(|_, c| !(c.id == 0 && c.v.is_zero()));
    o
}
fn same<B: SymBase>(a: &[(Variable<Sym<B>>, Sym<B>)], b: &[(Variable<Sym<B>>, Sym<B>)], nm: &mut Norm<B>) -> bool {
    let (a, b) = (row(a), row(b));
    a.len() == b.len()
        && a.iter().zip(b.iter()).all(|((k, x), (l, y))| k == l && ((x.id == y.id && x.v == y.v) || (x.v == y.v && nm.sym(x).sub(&nm.sym(y)).is_zero())))
}
/// The coefficients of two lists of constraints, to be compared by z3.
pub fn coefficients<B: SymBase>(a: &[Vec<(Variable<Sym<B>>, Sym<B>)>], b: &[Vec<(Variable<Sym<B>>, Sym<B>)>]) -> Vec<(Poly<B>, Poly<B>)> {
    let mut nm = Norm::<B>::new();
    let mut o = vec![];
    for (x, y) in a.iter().zip(b) {
        let (x, y) = (row(x), row(y));
        for k in x.keys().chain(y.keys()).collect::<std::collections::BTreeSet<_>>() {
            let z = Sym::cst(B::zero());
            let (p, q) = (x.get(k).unwrap_or(&z), y.get(k).unwrap_or(&z));
            o.push(((*nm.sym(p)).clone(), (*nm.sym(q)).clone()));
        }
    }
    if a.len() != b.len() {
        o.push((Poly::zero(), Poly::cst(B::one())));
    }
    o
}

/// A block the verifier's constraints may consist of.
pub struct Cand<'a, D: Side> {
    pub tag: Tag,
    pub run: Box<dyn Fn(&mut Ver<D>, &Vars<D>) + 'a>,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Src {
    Root,
    Com(usize),
}
#[derive(Clone, PartialEq, Debug)]
pub enum Tag {
    /// `m`: number of parents (None: the single gadget), `chunk`: part of the source's values, `q`: the child point
    Level { m: Option<usize>, src: Src, chunk: usize, q: usize },
    /// the range proof of value `i` of commitment `j` with so many bits
    Range { j: usize, i: usize, bits: usize },
    /// a constraint on commitments only
    Plain,
}
/// Cut the constraints of `v` into candidate blocks, each with the ranges of its constraints and gates.
pub type Cut = Vec<(Tag, [usize; 4])>;
pub fn cut<D: Side>(v: &View<D>, cands: &[Cand<D>], plain: bool) -> Result<(Cut, Vec<Vec<(Variable<Fs<D>>, Fs<D>)>>), String> {
    let lc = |k: usize| v.cons[k].iter().fold(LinearCombination::<Fs<D>>::default(), |a, (x, c)| a + LinearCombination::from(*x) * *c);
    // what was done: a candidate, or a plain constraint (numbered from the end)
    let fresh = |done: &[usize]| -> (Ver<D>, Vec<Vec<Variable<Fs<D>>>>) {
        let mut r = Ver::<D>::new(Transcript::new(b"reference"));
        let vars: Vec<_> = v.coms.iter().map(|(c, n)| r.commit_vec(*n, *c)).collect();
        for i in done {
            match cands.get(*i) {
                Some(c) => (c.run)(&mut r, &vars),
                None => r.constrain(lc(usize::MAX - *i)),
            }
        }
        (r, vars)
    };
    let mut nm = Norm::<D::SB>::new();
    let mut done: Vec<usize> = vec![];
    let mut out: Cut = vec![];
    let (mut r, mut vars) = fresh(&done);
    loop {
        let (c0, g0) = (r.verif_constraints().len(), r.verif_num_vars());
        if c0 == v.cons.len() {
            break;
        }
        let mut hit = false;
        if plain && v.cons[c0].iter().all(|(x, _)| matches!(x, Variable::VectorCommit(..) | Variable::Committed(_) | Variable::One(_))) {
            r.constrain(lc(c0));
            out.push((Tag::Plain, [c0, c0 + 1, g0, g0]));
            done.push(usize::MAX - c0);
            continue;
        }
        let mut order: Vec<usize> = (0..cands.len()).filter(|i| !done.contains(i)).collect();
        order.extend(done.iter().copied().filter(|i| *i < cands.len()));
        for i in order {
            if quiet(|| (cands[i].run)(&mut r, &vars)).is_ok() {
                let n = r.verif_constraints();
                if n.len() > c0 && n.len() <= v.cons.len() && r.verif_num_vars() <= v.gates && (c0..n.len()).all(|k| same(n[k].verif_terms(), &v.cons[k], &mut nm)) {
                    out.push((cands[i].tag.clone(), [c0, n.len(), g0, r.verif_num_vars()]));
                    done.push(i);
                    hit = true;
                    break;
                }
            }
            (r, vars) = fresh(&done);
        }
        if !hit {
            return Err(format!("constraint {} of {} is in no level's block (after {:?})", c0, v.cons.len(), out.iter().map(|x| &x.0).collect::<Vec<_>>()));
        }
    }
    if r.verif_num_vars() != v.gates {
        return Err(format!("{} wires outside the levels", v.gates - r.verif_num_vars()));
    }
    let cons = r.verif_constraints().iter().map(|c| c.verif_terms().to_vec()).collect();
    Ok((out, cons))
}

/// Points of a path on one side of the cycle: name and point.
pub type Named<D> = Vec<(String, Aff<D>)>;
/// All single and batched levels between known sources and points.
pub fn levels<'a, D: Side>(par: &'a SingleLayerParameters<D::C>, l: usize, m: Option<usize>, root: Option<Vec<Fs<D>>>, v: &View<D>, pts: &'a Named<D::C>) -> Vec<Cand<'a, D>> {
    let mut o: Vec<Cand<'a, D>> = vec![];
    let mut srcs: Vec<Src> = if root.is_some() { vec![Src::Root] } else { vec![] };
    srcs.extend((0..v.coms.len()).map(Src::Com));
    for dq in 0..pts.len().max(1) {
        for (si, src) in srcs.iter().enumerate() {
            for chunk in 0..m.unwrap_or(1) + 1 {
                // the batched gadget first; then the single one on each part
                let (kind, part) = if m.is_some() && chunk == 0 { (m, None) } else { (None, Some(if m.is_some() { chunk - 1 } else { chunk })) };
                if part.map(|p| p >= m.unwrap_or(1)).unwrap_or(false) {
                    continue;
                }
                let q = (si + dq + if kind.is_none() { part.unwrap_or(0) } else { 0 }) % pts.len().max(1);
                if pts.is_empty() {
                    continue;
                }
                let (src2, root) = (src.clone(), root.clone());
                let point = pts[q].1;
                o.push(Cand {
                    tag: Tag::Level { m: kind, src: src.clone(), chunk: part.unwrap_or(0), q },
                    run: Box::new(move |cs, vars| {
                        let all: Vec<LinearCombination<Fs<D>>> = match &src2 {
                            Src::Root => root.as_ref().unwrap().iter().map(|c| constant(*c)).collect(),
                            Src::Com(k) => vars[*k].iter().map(|x| (*x).into()).collect(),
                        };
                        let ch = match part {
                            None => all,
                            Some(p) => all[p * l..(p + 1) * l].to_vec(),
                        };
                        D::level(kind, cs, par, &point, ch);
                    }),
                });
            }
        }
    }
    o
}

// ---------------------------------------------------------------- running the real gadgets

use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
#[derive(Clone)]
pub struct Path<P0: SWCurveConfig, P1: SWCurveConfig> {
    pub sel: Vec<Affine<P0>>,
    pub odd: Vec<Affine<P1>>,
    pub even: Vec<Affine<P0>>,
}
pub type SymPath = Path<SymPallas, SymVesta>;
pub type NPallas = ark_pallas::PallasConfig;
pub type NVesta = ark_vesta::VestaConfig;
pub type NatPath = Path<NPallas, NVesta>;

pub fn gadget_v<const L: usize, const M: usize, P0, P1>(
    ct: &CurveTree<L, M, P0, P1>,
    batched: bool,
    p: &Path<P0, P1>,
    pr: &SelRerandParameters<P0, P1>,
    ev: &mut Verifier<Transcript, Affine<P0>>,
    ov: &mut Verifier<Transcript, Affine<P1>>,
) -> Vec<Affine<P0>>
where
    P0: SWCurveConfig + Copy + Send,
    P1: SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField> + Copy + Send,
    P0::BaseField: PrimeField,
{
    if batched {
        let q = SelectAndRerandomizeMultiPath::<L, M, P0, P1> { selected_commitments: p.sel.clone().try_into().unwrap(), odd_commitments: p.odd.clone(), even_commitments: p.even.clone() };
        ct.batched_select_and_rerandomize_verifier_gadget(ev, ov, q, pr).to_vec()
    } else {
        let q = SelectAndRerandomizePath::<L, P0, P1> { selected_commitment: p.sel[0], odd_commitments: p.odd.clone(), even_commitments: p.even.clone() };
        vec![ct.select_and_rerandomize_verifier_gadget(ev, ov, q, pr)]
    }
}
#[allow(clippy::type_complexity)]
pub fn gadget_p<const L: usize, const M: usize, P0, P1, R: rand::Rng>(
    ct: &CurveTree<L, M, P0, P1>,
    batched: bool,
    idx: &[usize],
    pr: &SelRerandParameters<P0, P1>,
    ep: &mut Prover<Transcript, Affine<P0>>,
    op: &mut Prover<Transcript, Affine<P1>>,
    rng: &mut R,
) -> (Path<P0, P1>, Vec<P0::ScalarField>)
where
    P0: SWCurveConfig + Copy + Send,
    P1: SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField> + Copy + Send,
    P0::BaseField: PrimeField,
{
    if batched {
        let (q, s) = ct.batched_select_and_rerandomize_prover_gadget(idx.to_vec().try_into().unwrap(), ep, op, pr, rng);
        (Path { sel: q.selected_commitments.to_vec(), odd: q.odd_commitments, even: q.even_commitments }, s.to_vec())
    } else {
        let (q, s) = ct.select_and_rerandomize_prover_gadget(idx[0], 0, ep, op, pr, rng);
        (Path { sel: vec![q.selected_commitment], odd: q.odd_commitments, even: q.even_commitments }, vec![s])
    }
}

/// Number of points on a path below the root and above the leaf: (even, odd).
pub fn lens(h: usize) -> (usize, usize) {
    ((1..h).filter(|k| k % 2 == 0).count(), (1..h).filter(|k| k % 2 == 1).count())
}

/// x-coordinates of the children of the root, for the first `sets` generator sets.
pub fn root_children<const L: usize, const M: usize, P0, P1>(n: &CurveTreeNode<L, M, P0, P1>, delta: &Affine<P1>, sets: usize) -> Vec<P0::ScalarField>
where
    P0: SWCurveConfig + Copy,
    P1: crate::p16::Judge + SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField>,
{
    let CurveTreeNode::Branch { children, .. } = n else { return vec![] };
    (0..sets)
        .flat_map(|s| children.iter().map(move |c| (s, c)))
        .map(|(s, c)| match c {
            None => P0::ScalarField::zero(),
            Some(c) => P1::plus(&c.commitment(s), delta).x,
        })
        .collect()
}

/// Who a source or a child is: even point, odd point, selected point.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Who {
    Root,
    E(usize),
    O(usize),
    S(usize),
    Unknown,
}
#[derive(Clone, Debug)]
pub struct Edge {
    pub m: Option<usize>,
    pub src: Who,
    pub chunk: usize,
    pub to: Who,
    /// constraints of the odd verifier
    pub odd: bool,
    pub at: [usize; 4],
}
fn eqp<C: SymCurve>(a: &Aff<C>, b: &Aff<C>) -> bool {
    a.infinity == b.infinity && a.x.id == b.x.id && a.y.id == b.y.id && a.x.v == b.x.v && a.y.v == b.y.v
}
pub struct Studied {
    pub edges: Vec<Edge>,
    pub returned: Vec<Who>,
    /// which point every commitment is, per side
    pub coms: [Vec<Who>; 2],
}

/// Run the real verifier on a symbolic path and read off what is linked to what.
pub fn links<const L: usize, const M: usize>(
    r: &mut Report,
    z: &mut Z3,
    ct: &CurveTree<L, M, SymPallas, SymVesta>,
    batched: bool,
    path: &SymPath,
    pr: &SelRerandParameters<SymPallas, SymVesta>,
    got: &mut (View<SymPallas>, View<SymVesta>, Vec<PA>),
) -> Result<Studied, String> {
    let _ = ct;
    let m = if batched { Some(M) } else { None };
    let sets = if batched { M } else { 1 };
    let (er, or) = match ct {
        CurveTree::Even(n) => (Some(root_children::<L, M, SymPallas, SymVesta>(n, &pr.odd_parameters.delta, sets)), None),
        CurveTree::Odd(n) => (None, Some(root_children::<L, M, SymVesta, SymPallas>(n, &pr.even_parameters.delta, sets))),
    };
    let (ev, ov, ret) = (&got.0, &got.1, &got.2);
    let dims = |c: &[usize]| c.iter().all(|d| *d == L * sets);
    if !dims(&ev.coms.iter().map(|c| c.1).collect::<Vec<_>>()) || !dims(&ov.coms.iter().map(|c| c.1).collect::<Vec<_>>()) {
        return Err("a commitment is opened in another number of children".into());
    }
    let (mut s, _) = edges_of(r, z, (er, or), L, m, path, ev, ov, pr, vec![], false)?;
    s.returned = ret.iter().map(|p| ewho(path, p)).collect();
    Ok(s)
}
pub fn ewho(path: &SymPath, p: &PA) -> Who {
    if let Some(i) = path.sel.iter().position(|q| eqp::<SymPallas>(p, q)) {
        return Who::S(i);
    }
    path.even.iter().position(|q| eqp::<SymPallas>(p, q)).map(Who::E).unwrap_or(Who::Unknown)
}
/// Cut both sides' constraints into blocks and read off the links; also the even side's other blocks.
#[allow(clippy::too_many_arguments)]
pub fn edges_of(
    r: &mut Report,
    z: &mut Z3,
    roots: (Option<Vec<Fs<SymPallas>>>, Option<Vec<Fs<SymVesta>>>),
    l: usize,
    m: Option<usize>,
    path: &SymPath,
    ev: &View<SymPallas>,
    ov: &View<SymVesta>,
    pr: &SelRerandParameters<SymPallas, SymVesta>,
    extra: Vec<Cand<SymPallas>>,
    plain: bool,
) -> Result<(Studied, Cut), String> {
    let (er, or) = roots;
    let opts: Named<SymVesta> = path.odd.iter().enumerate().map(|(i, p)| (format!("O{}", i), *p)).collect();
    let mut epts: Named<SymPallas> = path.even.iter().enumerate().map(|(i, p)| (format!("E{}", i), *p)).collect();
    epts.extend(path.sel.iter().enumerate().map(|(i, p)| (format!("S{}", i), *p)));
    let mut ec: Vec<Cand<SymPallas>> = extra;
    ec.extend(levels::<SymPallas>(&pr.odd_parameters, l, m, er, ev, &opts));
    let oc = levels::<SymVesta>(&pr.even_parameters, l, m, or, ov, &epts);
    let (ecut, eref) = cut(ev, &ec, plain).map_err(|e| format!("even side: {}", e))?;
    let (ocut, oref) = cut(ov, &oc, plain).map_err(|e| format!("odd side: {}", e))?;
    for (a, v) in [identical(z, &coefficients(&ev.cons, &eref))].iter().map(|x| (ev.cons.len(), x.0)) {
        r.oblige(a, v);
        if v != Verdict::Unsat {
            return Err("even constraints differ from the levels'".into());
        }
    }
    let (v, _) = identical(z, &coefficients(&ov.cons, &oref));
    r.oblige(ov.cons.len(), v);
    if v != Verdict::Unsat {
        return Err("odd constraints differ from the levels'".into());
    }
    let owho = |p: &Aff<SymVesta>| path.odd.iter().position(|q| eqp::<SymVesta>(p, q)).map(Who::O).unwrap_or(Who::Unknown);
    let coms = [ev.coms.iter().map(|c| ewho(path, &c.0)).collect::<Vec<_>>(), ov.coms.iter().map(|c| owho(&c.0)).collect::<Vec<_>>()];
    let mut edges = vec![];
    let ne = path.even.len();
    for (side, list) in [(0, &ecut), (1, &ocut)] {
        for (t, at) in list {
            let Tag::Level { m, src, chunk, q } = t else { continue };
            let s = match src {
                Src::Root => Who::Root,
                Src::Com(k) => coms[side][*k],
            };
            let to = if side == 0 {
                Who::O(*q)
            } else if *q < ne {
                Who::E(*q)
            } else {
                Who::S(*q - ne)
            };
            edges.push(Edge { m: *m, src: s, chunk: *chunk, to, odd: side == 1, at: *at });
        }
    }
    let other = ecut.into_iter().filter(|x| !matches!(x.0, Tag::Level { .. })).collect();
    Ok((Studied { edges, returned: vec![], coms }, other))
}
/// Is there a chain from the root to every returned leaf, one link per level?
pub fn chained(s: &Studied, h: usize, m: Option<usize>) -> Result<(), String> {
    let mut cur = Who::Root;
    for k in (2..=h).rev() {
        match s.edges.iter().find(|e| e.src == cur && e.m.unwrap_or(1) == m.unwrap_or(1) && e.odd == (k % 2 == 1) && !matches!(e.to, Who::S(_))) {
            Some(e) => cur = e.to,
            None => return Err(format!("no link from {:?} at height {}", cur, k)),
        }
    }
    for (j, w) in s.returned.iter().enumerate() {
        if !matches!(w, Who::S(_)) {
            return Err(format!("returned point {} is {:?}", j, w));
        }
        if !s.edges.iter().any(|e| e.src == cur && e.m.unwrap_or(1) == 1 && e.odd && e.to == *w) {
            return Err(format!("no link from {:?} to the returned {:?}", cur, w));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- attacks on the real verifier

#[derive(Clone)]
enum Nd<const L: usize, const M: usize> {
    E(CurveTreeNode<L, M, NPallas, NVesta>),
    O(CurveTreeNode<L, M, NVesta, NPallas>),
}
pub type NTree<const L: usize, const M: usize> = CurveTree<L, M, NPallas, NVesta>;
pub type NPr = SelRerandParameters<NPallas, NVesta>;
impl<const L: usize, const M: usize> Nd<L, M> {
    fn of(t: &NTree<L, M>) -> Self {
        match t {
            CurveTree::Even(n) => Nd::E(n.clone()),
            CurveTree::Odd(n) => Nd::O(n.clone()),
        }
    }
    fn child(&self) -> Option<Self> {
        match self {
            Nd::E(CurveTreeNode::Branch { children, .. }) => children[0].clone().map(Nd::O),
            Nd::O(CurveTreeNode::Branch { children, .. }) => children[0].clone().map(Nd::E),
            _ => None,
        }
    }
    fn height(&self) -> usize {
        match self {
            Nd::E(n) => n.height(),
            Nd::O(n) => n.height(),
        }
    }
}
fn npt(i: u64) -> NP {
    (ark_pallas::Affine::generator() * Fq::from(i * 7919 + 17)).into_affine()
}
/// the opening of a node as the verifier reads it
fn opening<const L: usize, const M: usize, P0, P1>(n: &CurveTreeNode<L, M, P0, P1>, delta: &Affine<P1>, sets: usize) -> Vec<P0::ScalarField>
where
    P0: SWCurveConfig + Copy,
    P1: SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField> + Copy,
{
    let CurveTreeNode::Branch { children, .. } = n else { return vec![] };
    (0..sets).flat_map(|s| x_coordinates(children, delta, s).to_vec()).collect()
}
struct Adv<'a, P: SWCurveConfig + Copy> {
    pr: &'a SingleLayerParameters<P>,
    coms: Vec<(Vec<P::ScalarField>, P::ScalarField)>,
}
/// Prove with the wires of `blocks` against the constraints of `v`.
fn side_proof<P0, P1>(
    name: &'static [u8],
    adv: &Adv<P0>,
    cpar: &SingleLayerParameters<P1>,
    v: &Verifier<Transcript, Affine<P0>>,
    log: &[Event],
    blocks: &[(Option<usize>, Vec<P0::ScalarField>, Option<(usize, usize, usize)>, Affine<P1>, Vec<Affine<P1>>, P1::ScalarField)],
    bp: &BulletproofGens<Affine<P0>>,
) -> Result<R1CSProof<Affine<P0>>, String>
where
    P0: SWCurveConfig + Copy,
    P1: SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField> + Copy,
    P1::BaseField: PrimeField,
{
    // wires, from the real single-level gadget
    let mut d = Prover::new(&adv.pr.pc_gens, Transcript::new(name));
    let vars: Vec<Vec<Variable<P0::ScalarField>>> = adv.coms.iter().map(|(x, b)| d.commit_vec(x, *b, bp).1).collect();
    for (m, consts, com, q, kids, k) in blocks {
        let ch: Vec<LinearCombination<P0::ScalarField>> = match com {
            None => consts.iter().map(|c| constant(*c)).collect(),
            Some((i, from, to)) => vars[*i][*from..*to].iter().map(|x| (*x).into()).collect(),
        };
        let kd: Vec<Affine<P1>> = kids.iter().map(|c| (*c + cpar.delta).into_affine()).collect();
        quiet(|| call::<P1, _>(*m, &mut d, cpar, q, ch, Some((&kd, *k)))).map_err(|e| format!("witness: {}", e))?;
    }
    let (al, ar, _) = d.verif_gates();
    let wires: Vec<_> = al.iter().copied().zip(ar.iter().copied()).collect();
    let mut p = Prover::new(&adv.pr.pc_gens, Transcript::new(name));
    let mut next = 0;
    let start = p.transcript().log.len();
    for e in &log[start..] {
        if let Event::Msg(l, b) = e {
            if next < adv.coms.len() {
                use ark_serialize::CanonicalSerialize;
                let c = v.verif_commitments().1[next].0;
                let mut s = vec![];
                c.serialize_compressed(&mut s).unwrap();
                let mut s2 = vec![];
                c.serialize_uncompressed(&mut s2).unwrap();
                if *b == s || *b == s2 {
                    let (x, k) = &adv.coms[next];
                    if p.commit_vec(x, *k, bp).0 != c {
                        return Err("a commitment has another opening".into());
                    }
                    next += 1;
                    continue;
                }
            }
            p.transcript().append_message(l, b);
        }
    }
    for (l, r) in wires {
        p.allocate_multiplier(Some((l, r))).map_err(|e| format!("{:?}", e))?;
    }
    for c in v.verif_constraints().to_vec() {
        p.constrain(c);
    }
    quiet(|| p.prove(bp)).map_err(|e| format!("prover panics: {}", e))?.map_err(|e| format!("{:?}", e))
}

/// Try to have the real verifier accept a path that does not lead to a leaf.
pub fn attack<const L: usize, const M: usize>(batched: bool, n: usize, want: Option<usize>, ne: usize, no: usize, s: &Studied) -> Result<bool, String> {
    let sets = if batched { M } else { 1 };
    let pr = NPr::new(L * M, L * M);
    let fake = NTree::<L, M>::from_set(&[npt(900)], &pr, Some(6));
    // the fake nodes, by height
    let mut by_h: BTreeMap<usize, Nd<L, M>> = BTreeMap::new();
    let mut cur = Some(Nd::of(&fake));
    while let Some(c) = cur {
        cur = c.child();
        by_h.insert(c.height(), c);
    }
    // the first leaf is itself a commitment with a known opening
    let Nd::E(f4) = &by_h[&4] else { return Err("parity".into()) };
    let mut leaves: Vec<NP> = (0..n).map(|i| npt(i as u64)).collect();
    leaves[0] = f4.commitment(0);
    let ct = NTree::<L, M>::from_set(&leaves, &pr, want);
    // nodes below the root as long as links lead there
    let mut node: BTreeMap<Who, (Nd<L, M>, bool)> = BTreeMap::new();
    let mut todo = vec![(Who::Root, Nd::of(&ct))];
    while let Some((w, nd)) = todo.pop() {
        for e in s.edges.iter().filter(|e| e.src == w) {
            if node.contains_key(&e.to) {
                continue;
            }
            let c = match nd.child() {
                Some(c) => c,
                None => match by_h[&4].child() {
                    Some(c) => c,
                    None => return Err("link below the leaves".into()),
                },
            };
            node.insert(e.to, (c.clone(), true));
            todo.push((e.to, c));
        }
    }
    // the others are made up
    let mut all: Vec<Who> = (0..ne).map(Who::E).chain((0..no).map(Who::O)).chain((0..if batched { M } else { 1 }).map(Who::S)).collect();
    all.retain(|w| !node.contains_key(w));
    fn depth(s: &Studied, w: Who, fuel: usize) -> Option<usize> {
        if fuel == 0 {
            return None;
        }
        match s.edges.iter().find(|e| e.src == w) {
            Some(e) => depth(s, e.to, fuel - 1).map(|d| d + 1),
            None => Some(if matches!(w, Who::O(_)) { 1 } else { 0 }),
        }
    }
    for w in all {
        let d = depth(s, w, 9).ok_or("links form a circle")?;
        let nd = by_h.get(&d).ok_or("too deep")?;
        node.insert(w, (nd.clone(), false));
    }
    let blind = |w: Who| -> u64 {
        match w {
            Who::E(i) => 1_000_003 + 7 * i as u64,
            Who::O(i) => 2_000_003 + 11 * i as u64,
            Who::S(i) => 3_000_017 + 13 * i as u64,
            _ => 0,
        }
    };
    let bl0 = |w: Who| Fq::from(blind(w)).pow([5]);
    let bl1 = |w: Who| Fp::from(blind(w)).pow([5]);
    let ept = |w: Who, k: usize| -> Result<NP, String> {
        match &node.get(&w).ok_or("unknown point")?.0 {
            Nd::E(x) => {
                let mut t = pr.even_parameters.pc_gens.B_blinding * bl0(w);
                // a selected point is a child of one generator set
                let from = if let Who::S(_) = w { s.edges.iter().find(|e| e.to == w).map(|e| e.chunk).unwrap_or(0) } else { 0 };
                for i in from..from + k {
                    t += x.commitment(i);
                }
                Ok(t.into_affine())
            }
            _ => Err("a point on the wrong curve".into()),
        }
    };
    let opt = |w: Who, k: usize| -> Result<ark_vesta::Affine, String> {
        match &node.get(&w).ok_or("unknown point")?.0 {
            Nd::O(x) => {
                let mut t = pr.odd_parameters.pc_gens.B_blinding * bl1(w);
                for i in 0..k {
                    t += x.commitment(i);
                }
                Ok(t.into_affine())
            }
            _ => Err("a point on the wrong curve".into()),
        }
    };
    let path = NatPath {
        sel: (0..if batched { M } else { 1 }).map(|i| ept(Who::S(i), 1)).collect::<Result<_, _>>()?,
        even: (0..ne).map(|i| ept(Who::E(i), sets)).collect::<Result<_, _>>()?,
        odd: (0..no).map(|i| opt(Who::O(i), sets)).collect::<Result<_, _>>()?,
    };
    let mut ev = Verifier::new(Transcript::new(b"even"));
    let mut ov = Verifier::new(Transcript::new(b"odd"));
    let ret = quiet(|| gadget_v::<L, M, NPallas, NVesta>(&ct, batched, &path, &pr, &mut ev, &mut ov)).map_err(|e| format!("verifier panics: {}", e))?;
    let (el, ol) = (ev.transcript().log.clone(), ov.transcript().log.clone());
    let (de, dod) = (pr.even_parameters.delta, pr.odd_parameters.delta);
    let mut ea = Adv { pr: &pr.even_parameters, coms: vec![] };
    for w in &s.coms[0] {
        let Some((Nd::E(x), _)) = node.get(w) else { return Err("unknown commitment".into()) };
        // the first leaf is opened as the made-up node it is
        let x = if x.height() == 0 { f4 } else { x };
        ea.coms.push((opening(x, &dod, sets), bl0(*w)));
    }
    let mut oa = Adv { pr: &pr.odd_parameters, coms: vec![] };
    for w in &s.coms[1] {
        let Some((Nd::O(x), _)) = node.get(w) else { return Err("unknown commitment".into()) };
        oa.coms.push((opening(x, &de, sets), bl1(*w)));
    }
    let (mut eb, mut ob) = (vec![], vec![]);
    for e in &s.edges {
        let k = e.m.unwrap_or(1);
        let at = |coms: &[Who]| coms.iter().position(|w| *w == e.src).map(|i| if e.m.is_some() { (i, 0, L * sets) } else { (i, e.chunk * L, (e.chunk + 1) * L) });
        let root = |xs: Vec<_>| if e.m.is_some() { xs } else { xs[e.chunk * L..(e.chunk + 1) * L].to_vec() };
        if !e.odd {
            let consts = match (&e.src, Nd::of(&ct)) {
                (Who::Root, Nd::E(x)) => root(opening(&x, &dod, sets)),
                _ => vec![],
            };
            let Some((Nd::O(x), _)) = node.get(&e.to) else { return Err("unknown child".into()) };
            let kids: Vec<_> = (0..k).map(|i| x.commitment(if e.m.is_some() { i } else { e.chunk })).collect();
            eb.push((e.m, consts, at(&s.coms[0]), opt(e.to, sets)?, kids, bl1(e.to)));
        } else {
            let root = |xs: Vec<Fp>| if e.m.is_some() { xs } else { xs[e.chunk * L..(e.chunk + 1) * L].to_vec() };
            let consts = match (&e.src, Nd::of(&ct)) {
                (Who::Root, Nd::O(x)) => root(opening(&x, &de, sets)),
                _ => vec![],
            };
            let Some((Nd::E(x), _)) = node.get(&e.to) else { return Err("unknown child".into()) };
            let kids: Vec<_> = (0..k).map(|i| x.commitment(if e.m.is_some() { i } else { e.chunk })).collect();
            let q = if matches!(e.to, Who::S(_)) { ept(e.to, 1)? } else { ept(e.to, sets)? };
            ob.push((e.m, consts, at(&s.coms[1]), q, kids, bl0(e.to)));
        }
    }
    let size = |n: usize| n.max(L * M).next_power_of_two();
    let be = BulletproofGens::<NP>::new(size(ev.verif_num_vars()), 1);
    let bo = BulletproofGens::<ark_vesta::Affine>::new(size(ov.verif_num_vars()), 1);
    let pe = side_proof::<NPallas, NVesta>(b"even", &ea, &pr.odd_parameters, &ev, &el, &eb, &be)?;
    let po = side_proof::<NVesta, NPallas>(b"odd", &oa, &pr.even_parameters, &ov, &ol, &ob, &bo)?;
    let oke = quiet(|| ev.verify(&pe, &pr.even_parameters.pc_gens, &be)).map_err(|e| format!("verifier panics: {}", e))?;
    let oko = quiet(|| ov.verify(&po, &pr.odd_parameters.pc_gens, &bo)).map_err(|e| format!("verifier panics: {}", e))?;
    if std::env::var("VH_LOUD").is_ok() {
        eprintln!("attack: even {:?} odd {:?}", oke.is_ok(), oko.is_ok());
    }
    // is every returned point a re-randomized leaf after all?
    let member = ret.len() == path.sel.len()
        && ret.iter().enumerate().all(|(i, p)| {
            let b = pr.even_parameters.pc_gens.B_blinding * bl0(Who::S(i));
            *p == path.sel[i] && leaves.contains(&(p.into_group() - b).into_affine())
        });
    Ok(oke.is_ok() && oko.is_ok() && !member)
}

/// The honest protocol on the real curves: (accepted, returned leaves are right).
pub fn honest<const L: usize, const M: usize>(batched: bool, leaves: &[NP], want: Option<usize>, idx: &[usize], seed: u64) -> Result<bool, String> {
    use rand::SeedableRng;
    let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
    let pr = NPr::new(L * M, L * M);
    let ct = NTree::<L, M>::from_set(leaves, &pr, want);
    let mut ep = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(b"even"));
    let mut op = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(b"odd"));
    let (path, rs) = quiet(|| gadget_p::<L, M, NPallas, NVesta, _>(&ct, batched, idx, &pr, &mut ep, &mut op, &mut rng)).map_err(|e| format!("prover panics: {}", e))?;
    let mut ev = Verifier::new(Transcript::new(b"even"));
    let mut ov = Verifier::new(Transcript::new(b"odd"));
    let ret = quiet(|| gadget_v::<L, M, NPallas, NVesta>(&ct, batched, &path, &pr, &mut ev, &mut ov)).map_err(|e| format!("verifier panics: {}", e))?;
    for (j, p) in ret.iter().enumerate() {
        if *p != (leaves[idx[j]] + pr.even_parameters.pc_gens.B_blinding * rs[j]).into_affine() {
            return Err(format!("returned point {} is not the leaf plus the returned scalar times the blinding generator", j));
        }
    }
    let size = |n: usize| n.max(L * M).next_power_of_two();
    let be = BulletproofGens::<NP>::new(size(ev.verif_num_vars().max(ep.verif_gates().0.len())), 1);
    let bo = BulletproofGens::<ark_vesta::Affine>::new(size(ov.verif_num_vars().max(op.verif_gates().0.len())), 1);
    let pe = quiet(|| ep.prove(&be)).map_err(|e| format!("prover panics: {}", e))?.map_err(|e| format!("{:?}", e))?;
    let po = quiet(|| op.prove(&bo)).map_err(|e| format!("prover panics: {}", e))?.map_err(|e| format!("{:?}", e))?;
    let a = quiet(|| ev.verify(&pe, &pr.even_parameters.pc_gens, &be)).map_err(|e| format!("verifier panics: {}", e))?;
    let b = quiet(|| ov.verify(&po, &pr.odd_parameters.pc_gens, &bo)).map_err(|e| format!("verifier panics: {}", e))?;
    Ok(a.is_ok() && b.is_ok())
}

// ---------------------------------------------------------------- soundness: P18 and the second half of P19

fn view_v<const L: usize, const M: usize>(
    ct: &CurveTree<L, M, SymPallas, SymVesta>,
    batched: bool,
    path: &SymPath,
    pr: &SelRerandParameters<SymPallas, SymVesta>,
) -> Result<(View<SymPallas>, View<SymVesta>, Vec<PA>), String> {
    let mut ev = Ver::<SymPallas>::new(Transcript::new(b"even"));
    let mut ov = Ver::<SymVesta>::new(Transcript::new(b"odd"));
    let ret = quiet(|| gadget_v::<L, M, SymPallas, SymVesta>(ct, batched, path, pr, &mut ev, &mut ov))?;
    Ok((View::of(&mut ev), View::of(&mut ov), ret))
}

pub fn sound<const L: usize, const M: usize>(r: &mut Report, z: &mut Z3, batched: bool, n: usize, want: Option<usize>) {
    let pr = SelRerandParameters::<SymPallas, SymVesta>::new(L * M, L * M);
    let leaves: Vec<PA> = (0..n).map(|i| sym_point::<SymPallas>(&format!("leaf{}", i))).collect();
    let ct = CurveTree::<L, M, SymPallas, SymVesta>::from_set(&leaves, &pr, want);
    let h = ct.height();
    let m = if batched { Some(M) } else { None };
    let nsel = if batched { M } else { 1 };
    let right = lens(h);
    let top = h / 2 + 2;
    for ne in 0..=top {
        for no in 0..=top {
            r.cases += 1;
            let key = format!("L={} M={}{} {} leaves height {}, path of {} even and {} odd points", L, M, if batched { " batched" } else { "" }, n, h, ne, no);
            let path = SymPath {
                sel: (0..nsel).map(|i| sym_point::<SymPallas>(&format!("S{}", i))).collect(),
                even: (0..ne).map(|i| sym_point::<SymPallas>(&format!("E{}", i))).collect(),
                odd: (0..no).map(|i| sym_point::<SymVesta>(&format!("O{}", i))).collect(),
            };
            let got = view_v(&ct, batched, &path, &pr);
            let wrong = (ne, no) != right;
            let mut got = match got {
                Err(_) if wrong => {
                    r.oblige(1, Verdict::Unsat);
                    continue;
                }
                Err(e) => {
                    r.oblige(1, Verdict::Sat);
                    broken::<L, M>(r, &key, &format!("the verifier refuses: {}", e), batched, n, want, None, ne, no);
                    return;
                }
                Ok(g) => g,
            };
            let st = links(r, z, &ct, batched, &path, &pr, &mut got);
            let why = match &st {
                Err(e) => Some(e.clone()),
                Ok(s) => {
                    if std::env::var("VH_LOUD").is_ok() {
                        eprintln!("{}: {:?} -> {:?}", key, s.edges, s.returned);
                    }
                    if wrong {
                        Some("a path of the wrong length is not refused".into())
                    } else {
                        chained(s, h, m).err()
                    }
                }
            };
            match why {
                None => r.oblige(1, Verdict::Unsat),
                Some(e) => {
                    r.oblige(1, Verdict::Sat);
                    broken::<L, M>(r, &key, &e, batched, n, want, st.ok().as_ref(), ne, no);
                    return;
                }
            }
        }
    }
    r.sample(format!("L={} M={}{}: {} leaves, height {}, all path lengths up to {}", L, M, if batched { " batched" } else { "" }, n, h, top));
}
#[allow(clippy::too_many_arguments)]
fn broken<const L: usize, const M: usize>(r: &mut Report, key: &str, why: &str, batched: bool, n: usize, want: Option<usize>, s: Option<&Studied>, ne: usize, no: usize) {
    r.replays += 1;
    let mut said = String::new();
    if let Some(s) = s {
        match attack::<L, M>(batched, n, want, ne, no, s) {
            Ok(true) => {
                r.violation(key, &format!("{}; the real verifier accepts proofs for a path to a point that is no re-randomized leaf (links {:?}, returned {:?})", why, s.edges.iter().map(|e| (e.src, e.to)).collect::<Vec<_>>(), s.returned));
                return;
            }
            o => said = format!("{:?}", o),
        }
    }
    // a verifier that links something else refuses honest paths
    let leaves: Vec<NP> = (0..n).map(|i| npt(50 + i as u64)).collect();
    let idx: Vec<usize> = (0..M).map(|i| (n - 1 + i) % n).collect();
    match honest::<L, M>(batched, &leaves, want, &idx, 3) {
        Ok(true) => r.inconclusive(format!("{}: {} (attack: {}; honest proofs are accepted)", key, why, said)),
        o => r.violation(key, &format!("{}; an honest path is refused by the real verifier ({:?})", why, o)),
    }
}

// ---------------------------------------------------------------- completeness: P17 and the first half of P19

/// The nodes on the way to leaf `i`, from the root's child down, with a flag for even ones.
#[derive(Clone)]
enum Sn<const L: usize, const M: usize> {
    E(CurveTreeNode<L, M, SymPallas, SymVesta>),
    O(CurveTreeNode<L, M, SymVesta, SymPallas>),
}
fn way<const L: usize, const M: usize>(ct: &CurveTree<L, M, SymPallas, SymVesta>, i: usize) -> Vec<Sn<L, M>> {
    let mut cur = match ct {
        CurveTree::Even(n) => Sn::E(n.clone()),
        CurveTree::Odd(n) => Sn::O(n.clone()),
    };
    let mut o = vec![];
    loop {
        let h = match &cur {
            Sn::E(n) => n.height(),
            Sn::O(n) => n.height(),
        };
        if h == 0 {
            return o;
        }
        // by the shape of the tree, not by the code under check
        let j = (i / L.pow(h as u32 - 1)) % L;
        cur = match &cur {
            Sn::E(CurveTreeNode::Branch { children, .. }) => Sn::O(children[j].clone().unwrap()),
            Sn::O(CurveTreeNode::Branch { children, .. }) => Sn::E(children[j].clone().unwrap()),
            _ => return o,
        };
        o.push(cur.clone());
    }
}
pub struct Chains {
    h: [u32; 2],
    scal: (Vec<[Fp; WINDOW_ELEMS]>, Vec<[Fq; WINDOW_ELEMS]>),
}
/// scalar of B~ by which `p` differs from the sum of `nodes`
fn offset<C: SymCurve>(p: &Aff<C>, nodes: &[Aff<C>], h: u32) -> Option<C::SB> {
    let mut t = terms_of::<C>(p);
    for n in nodes {
        t = terms_add(&t, &terms_neg(&terms_of::<C>(n)));
    }
    let mut nm = Norm::<C::SB>::new();
    let mut k = C::SB::zero();
    for (a, s) in &t {
        let q = nm.sym(s);
        if *a == h {
            k = q.as_const()?;
        } else if !q.is_zero() {
            return None;
        }
    }
    Some(k)
}
/// Do the prover's wires satisfy every constraint of the block, by the group law?
#[allow(clippy::too_many_arguments)]
fn block<D: Side>(r: &mut Report, z: &mut Z3, par: &SingleLayerParameters<D::C>, all: &GCS<D::SB>, e: &Edge, q: &Aff<D::C>, nodes: &[Aff<D::C>], k: <D::C as SymCurve>::SB, h: u32, scal: &[[<D::C as SymCurve>::SB; WINDOW_ELEMS]]) -> Result<(), String> {
    let mut cs = GCS::<D::SB>::new(true);
    cs.gates = all.gates.clone();
    cs.vc = all.vc.clone();
    cs.cons = all.cons[e.at[0]..e.at[1]].to_vec();
    let sum = |v: &[(Aff<D::C>, u64)]| {
        let mut t: Terms<<D::C as SymCurve>::SB> = vec![];
        for (p, k) in v {
            t = terms_add(&t, &terms_mul(&terms_of::<D::C>(p), &Sym::cst(<D::C as SymCurve>::SB::from(*k))));
        }
        point_of_terms::<D::C>(&t, terms_shadow::<D::C>(&t))
    };
    let kids: Vec<Aff<D::C>> = nodes.iter().map(|n| sum(&[(*n, 1), (par.delta, 1)])).collect();
    let (mut adds, mut acc) = (vec![], kids[0]);
    for s in &kids[1..] {
        let o = sum(&[(acc, 1), (*s, 1)]);
        adds.push([acc, *s, o]);
        acc = o;
    }
    let out = sum(&[(*q, 1), (par.delta, kids.len() as u64)]);
    let d = digits_of(&k, par.tables.len());
    // the accumulators are looked for among the wires of this block
    let mut own = GCS::<D::SB>::new(true);
    own.gates = all.gates[e.at[2]..e.at[3]].to_vec();
    let ch = chain::<D::C>(&own, h, scal, &d).map_err(|i| format!("no wires hold the sum of the first {} windows", i))?;
    let hon = Honest::<D::C> { cs, adds, on_curve: kids, left: acc, out, public: *q };
    follows::<D::C>(r, z, &hon, &ch, &par.tables, &d)
}
fn system<D: Side>(p: &Prover<Transcript, Aff<D>>) -> GCS<D::SB> {
    let mut g = GCS::<D::SB>::new(true);
    let (l, r, o) = p.verif_gates();
    g.gates = (0..l.len()).map(|i| [l[i], r[i], o[i]]).collect();
    g.cons = p.verif_constraints().iter().map(|c| c.verif_terms().to_vec()).collect();
    g.vc = p.verif_openings().2.iter().map(|x| x.1.clone()).collect();
    g
}
/// Prover and verifier hold the same constraints and commitments and have bound the same data.
pub fn agree<D: Side>(r: &mut Report, z: &mut Z3, p: &mut Prover<Transcript, Aff<D>>, par: &SingleLayerParameters<D>, v: &View<D>, side: &str) -> Result<GCS<D::SB>, String>
where
    Sym<D::SB>: PrimeField,
{
    let g = system::<D>(p);
    let log = p.transcript().log.clone();
    let op = p.verif_openings().2.to_vec();
    agree_parts::<D>(r, z, g, &log, &op, par, v, side, false)
}
/// `short`: the verifier may expect more values (zeros) in a commitment.
#[allow(clippy::too_many_arguments)]
pub fn agree_parts<D: Side>(r: &mut Report, z: &mut Z3, g: GCS<D::SB>, log: &[Event], op: &[(Fs<D>, Vec<Fs<D>>)], par: &SingleLayerParameters<D>, v: &View<D>, side: &str, short: bool) -> Result<GCS<D::SB>, String>
where
    Sym<D::SB>: PrimeField,
{
    if g.gates.len() != v.gates {
        return Err(format!("{}: {} gates, the verifier has {}", side, g.gates.len(), v.gates));
    }
    let (w, _) = identical(z, &coefficients(&g.cons, &v.cons));
    r.oblige(g.cons.len(), w);
    if w != Verdict::Unsat {
        return Err(format!("{}: prover and verifier declare different constraints", side));
    }
    if log != v.log {
        return Err(format!("{}: prover and verifier bind different data", side));
    }
    if op.len() != v.coms.len() {
        return Err(format!("{}: {} commitments, the verifier has {}", side, op.len(), v.coms.len()));
    }
    let gs: Vec<Aff<D>> = par.bp_gens.share(0).G(op.iter().map(|x| x.1.len()).max().unwrap_or(0)).cloned().collect();
    for (i, ((b, x), (c, d))) in op.iter().zip(&v.coms).enumerate() {
        let mut want: Vec<(Aff<D>, Fs<D>)> = x.iter().enumerate().map(|(j, x)| (gs[j], *x)).collect();
        want.push((par.pc_gens.B_blinding, *b));
        if x.len() != *d && !(short && x.len() < *d) {
            return Err(format!("{}: commitment {} opened in {} values, the verifier expects {}", side, i, x.len(), d));
        }
        if let Some(e) = crate::p16::judge_sym::<D>(r, z, c, &want) {
            return Err(format!("{}: commitment {} is not the opening's: {}", side, i, e));
        }
    }
    let gates: Vec<(Poly<D::SB>, Poly<D::SB>)> = {
        let mut nm = Norm::<D::SB>::new();
        g.gates.iter().map(|w| ((*nm.sym(&(w[0] * w[1]))).clone(), (*nm.sym(&w[2])).clone())).collect()
    };
    let (w, bad) = identical(z, &gates);
    r.oblige(gates.len(), w);
    if w != Verdict::Unsat {
        return Err(format!("{}: gates {:?} do not multiply", side, bad));
    }
    Ok(g)
}
pub fn chains(pr: &SelRerandParameters<SymPallas, SymVesta>) -> Result<Chains, String> {
    let h = [
        atom_of::<SymPallas>(&shadow_pt::<SymPallas>(&pr.even_parameters.pc_gens.B_blinding), None).0,
        atom_of::<SymVesta>(&shadow_pt::<SymVesta>(&pr.odd_parameters.pc_gens.B_blinding), None).0,
    ];
    Ok(Chains { h, scal: (table_scalars::<SymVesta>(&pr.odd_parameters.tables, h[1])?, table_scalars::<SymPallas>(&pr.even_parameters.tables, h[0])?) })
}

/// One honest membership proof of the leaves `idx`, on formal points.
#[allow(clippy::too_many_arguments)]
fn run_honest<const L: usize, const M: usize>(
    r: &mut Report,
    z: &mut Z3,
    ct: &CurveTree<L, M, SymPallas, SymVesta>,
    leaves: &[PA],
    batched: bool,
    idx: &[usize],
    pr: &SelRerandParameters<SymPallas, SymVesta>,
    chs: &Chains,
    seed: u64,
) -> Result<(), String> {
    use rand::SeedableRng;
    let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
    let mut ep = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(b"even"));
    let mut op = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(b"odd"));
    set_const_rnd(true);
    let got = quiet(|| gadget_p::<L, M, SymPallas, SymVesta, _>(ct, batched, idx, pr, &mut ep, &mut op, &mut rng));
    set_const_rnd(false);
    let (path, rs) = got.map_err(|e| format!("the prover panics: {}", e))?;
    let mut got = view_v(ct, batched, &path, pr).map_err(|e| format!("the verifier refuses: {}", e))?;
    // the returned leaves
    if got.2.len() != rs.len() || got.2.len() != path.sel.len() {
        return Err("number of returned leaves".into());
    }
    for (j, p) in got.2.iter().enumerate() {
        let want = [(leaves[idx[j]], SQ::one()), (pr.even_parameters.pc_gens.B_blinding, rs[j])];
        for q in [p, &path.sel[j]] {
            if let Some(e) = crate::p16::judge_sym::<SymPallas>(r, z, q, &want) {
                return Err(format!("returned leaf {} is not the leaf plus the scalar times the blinding generator: {}", j, e));
            }
        }
    }
    let eg = agree::<SymPallas>(r, z, &mut ep, &pr.even_parameters, &got.0, "even side")?;
    let og = agree::<SymVesta>(r, z, &mut op, &pr.odd_parameters, &got.1, "odd side")?;
    let st = links(r, z, ct, batched, &path, pr, &mut got)?;
    gates_hold(r, z, ct, &path, idx, pr, chs, &st, &eg, &og)
}
/// Do the prover's wires satisfy the constraints of every link?
#[allow(clippy::too_many_arguments)]
pub fn gates_hold<const L: usize, const M: usize>(
    r: &mut Report,
    z: &mut Z3,
    ct: &CurveTree<L, M, SymPallas, SymVesta>,
    path: &SymPath,
    idx: &[usize],
    pr: &SelRerandParameters<SymPallas, SymVesta>,
    chs: &Chains,
    st: &Studied,
    eg: &GCS<Fq>,
    og: &GCS<Fp>,
) -> Result<(), String> {
    let h = ct.height();
    let ways: Vec<Vec<Sn<L, M>>> = idx.iter().map(|i| way(ct, *i)).collect();
    for e in &st.edges {
        let sets = e.m.unwrap_or(1);
        match e.to {
            Who::O(i) => {
                let mut hit = None;
                for k in 0..h {
                    let ns: Vec<Aff<SymVesta>> = (0..sets).filter_map(|s| if let Sn::O(n) = &ways[s][k] { Some(n.commitment(s)) } else { None }).collect();
                    if ns.len() == sets {
                        if let Some(c) = offset::<SymVesta>(&path.odd[i], &ns, chs.h[1]) {
                            hit = Some((ns, c));
                            break;
                        }
                    }
                }
                let (ns, c) = hit.ok_or(format!("odd point {} is no re-randomization of nodes on the way to the leaf", i))?;
                block::<SymPallas>(r, z, &pr.odd_parameters, eg, e, &path.odd[i], &ns, c, chs.h[1], &chs.scal.0).map_err(|x| format!("odd point {}: {}", i, x))?;
            }
            Who::E(_) | Who::S(_) => {
                let (q, name) = match e.to {
                    Who::E(i) => (path.even[i], format!("even point {}", i)),
                    Who::S(j) => (path.sel[j], format!("leaf {}", j)),
                    _ => unreachable!(),
                };
                let mut hit = None;
                for k in 0..h {
                    let of = |s: usize, w: usize| if let Sn::E(n) = &ways[w][k] { Some(n.commitment(s)) } else { None };
                    let ns: Vec<PA> = match e.to {
                        Who::S(j) => of(0, j).into_iter().collect(),
                        _ => (0..sets).filter_map(|s| of(s, s)).collect(),
                    };
                    if ns.len() == sets {
                        if let Some(c) = offset::<SymPallas>(&q, &ns, chs.h[0]) {
                            hit = Some((ns, c));
                            break;
                        }
                    }
                }
                let (ns, c) = hit.ok_or(format!("{} is no re-randomization of nodes on the way to the leaf", name))?;
                block::<SymVesta>(r, z, &pr.even_parameters, og, e, &q, &ns, c, chs.h[0], &chs.scal.1).map_err(|x| format!("{}: {}", name, x))?;
            }
            _ => return Err("a link to nothing".into()),
        }
    }
    r.oblige(1, Verdict::Unsat);
    Ok(())
}

pub fn complete<const L: usize, const M: usize>(r: &mut Report, z: &mut Z3, batched: bool, n: usize, want: Option<usize>, picks: &[Vec<usize>]) {
    if r.violated() {
        return;
    }
    let pr = SelRerandParameters::<SymPallas, SymVesta>::new(L * M, L * M);
    let leaves: Vec<PA> = (0..n).map(|i| sym_point::<SymPallas>(&format!("leaf{}", i))).collect();
    let nat: Vec<NP> = leaves.iter().map(shadow_pt::<SymPallas>).collect();
    let ct = match quiet(|| CurveTree::<L, M, SymPallas, SymVesta>::from_set(&leaves, &pr, want)) {
        Ok(t) => t,
        Err(e) => {
            r.violation(&format!("L={} M={} {} leaves", L, M, n), &format!("building the tree panics: {}", e));
            return;
        }
    };
    let chs = match chains(&pr) {
        Ok(c) => c,
        Err(e) => {
            r.inconclusive(e);
            return;
        }
    };
    for (i, idx) in picks.iter().enumerate() {
        r.cases += 1;
        let key = format!("L={} M={}{} {} leaves, height {}, leaf {:?}", L, M, if batched { " batched" } else { "" }, n, ct.height(), idx);
        if let Err(e) = run_honest::<L, M>(r, z, &ct, &leaves, batched, idx, &pr, &chs, 40 + i as u64) {
            r.oblige(1, Verdict::Sat);
            let mut res = vec![];
            for s in [40 + i as u64, 1, 2] {
                r.replays += 1;
                let x = honest::<L, M>(batched, &nat, want, idx, s);
                if x != Ok(true) {
                    r.violation(&key, &format!("{}; on the real curves (seed {}): {:?}", e, s, x));
                    return;
                }
                res.push(x);
            }
            r.inconclusive(format!("{}: {} (not reproduced)", key, e));
            return;
        }
    }
    r.sample(format!("L={} M={}{}: {} leaves, height {}: leaves {:?}", L, M, if batched { " batched" } else { "" }, n, ct.height(), picks));
}
