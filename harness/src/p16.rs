//! P16: a curve tree commits to exactly its list of leaves, in order.
use crate::common::*;
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use relations::curve_tree::*;
use relations::single_level_select_and_rerandomize::SingleLayerParameters;
use std::any::Any;
use std::collections::HashSet;

/// How a commitment is compared with the combination it should be.
pub trait Judge: SWCurveConfig + Copy {
    /// None: equal; Some(description) otherwise
    fn judge(r: &mut Report, z: &mut Z3, got: &Affine<Self>, want: &[(Affine<Self>, Self::ScalarField)]) -> Option<String>;
    fn plus(a: &Affine<Self>, b: &Affine<Self>) -> Affine<Self>;
}
pub fn judge_sym<C: SymCurve>(r: &mut Report, z: &mut Z3, got: &Affine<C>, want: &[(Affine<C>, Sym<C::SB>)]) -> Option<String> {
    let w = want.iter().fold(vec![], |t, (p, s)| terms_add(&t, &terms_mul(&terms_of::<C>(p), s)));
    let g = terms_of::<C>(got);
    let mut nm = Norm::<C::SB>::new();
    let mut pairs = vec![];
    let mut who = vec![];
    for a in g.iter().chain(w.iter()).map(|x| x.0).collect::<std::collections::BTreeSet<_>>() {
        let f = |t: &Terms<C::SB>, nm: &mut Norm<C::SB>| t.iter().find(|x| x.0 == a).map(|x| (*nm.sym(&x.1)).clone()).unwrap_or(Poly::zero());
        pairs.push((f(&g, &mut nm), f(&w, &mut nm)));
        who.push(atom_name::<C>(a));
    }
    let (v, bad) = identical(z, &pairs);
    r.oblige(pairs.len(), v);
    if v == Verdict::Unsat {
        return None;
    }
    Some(bad.iter().map(|i| format!("{} times {} instead of {}", pairs[*i].0.show(), who[*i], pairs[*i].1.show())).collect::<Vec<_>>().join("; "))
}
fn judge_native<P: SWCurveConfig + Copy>(got: &Affine<P>, want: &[(Affine<P>, P::ScalarField)]) -> Option<String> {
    let mut s = Affine::<P>::identity().into_group();
    for (p, k) in want {
        s += *p * *k;
    }
    if s.into_affine() == *got {
        None
    } else {
        Some("another commitment".into())
    }
}
macro_rules! judge {
    ($($s:ty, $n:ty);*) => {$(
        impl Judge for $s {
            fn judge(r: &mut Report, z: &mut Z3, got: &Affine<Self>, want: &[(Affine<Self>, Self::ScalarField)]) -> Option<String> {
                judge_sym::<$s>(r, z, got, want)
            }
            fn plus(a: &Affine<Self>, b: &Affine<Self>) -> Affine<Self> {
                lin_comb::<$s>(&[(*a, One::one()), (*b, One::one())])
            }
        }
        impl Judge for $n {
            fn judge(_: &mut Report, _: &mut Z3, got: &Affine<Self>, want: &[(Affine<Self>, Self::ScalarField)]) -> Option<String> {
                judge_native::<$n>(got, want)
            }
            fn plus(a: &Affine<Self>, b: &Affine<Self>) -> Affine<Self> {
                (*a + *b).into_affine()
            }
        }
    )*};
}
judge!(SymPallas, ark_pallas::PallasConfig; SymVesta, ark_vesta::VestaConfig);

/// The leaves [from, to) should be exactly what `node` of height `h` holds.
#[allow(clippy::too_many_arguments)]
fn walk<const L: usize, const M: usize, P0, P1>(
    r: &mut Report,
    z: &mut Z3,
    node: &CurveTreeNode<L, M, P0, P1>,
    leaves: &[&dyn Any],
    h: usize,
    par: &SingleLayerParameters<P0>,
    opar: &SingleLayerParameters<P1>,
    at: &str,
) -> Result<(), String>
where
    P0: Judge,
    P1: Judge + SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField>,
    P0::BaseField: PrimeField,
    P0::ScalarField: PrimeField,
{
    r.cases += 1;
    if node.height() != h {
        return Err(format!("{}: height {} instead of {}", at, node.height(), h));
    }
    if node.elements() != leaves.len() {
        return Err(format!("{}: {} elements instead of {}", at, node.elements(), leaves.len()));
    }
    match node {
        CurveTreeNode::Leaf(p) => {
            if h != 0 {
                return Err(format!("{}: a leaf at height {}", at, h));
            }
            match leaves[0].downcast_ref::<Affine<P0>>() {
                Some(q) if q == p && (0..M).all(|i| node.commitment(i) == *q) => Ok(()),
                _ => Err(format!("{}: another leaf", at)),
            }
        }
        CurveTreeNode::Branch { children, .. } => {
            if h == 0 {
                return Err(format!("{}: a branch at height 0", at));
            }
            let cap = L.pow(h as u32 - 1);
            for (j, c) in children.iter().enumerate() {
                let (a, b) = ((j * cap).min(leaves.len()), ((j + 1) * cap).min(leaves.len()));
                match c {
                    None if a < b => return Err(format!("{}: child {} is absent", at, j)),
                    Some(_) if a == b => return Err(format!("{}: child {} is present", at, j)),
                    None => {}
                    Some(c) => walk::<L, M, P1, P0>(r, z, c, &leaves[a..b], h - 1, opar, par, &format!("{}.{}", at, j))?,
                }
            }
            let gs: Vec<Affine<P0>> = par.bp_gens.share(0).G(L * M).cloned().collect();
            for t in 0..M {
                let mut want = vec![];
                for (j, c) in children.iter().enumerate() {
                    if let Some(c) = c {
                        want.push((gs[t * L + j], P1::plus(&c.commitment(t), &opar.delta).x));
                    }
                }
                if let Some(e) = P0::judge(r, z, &node.commitment(t), &want) {
                    return Err(format!("{}: commitment {}: {}", at, t, e));
                }
            }
            Ok(())
        }
    }
}
/// Follow `child_index` down to a leaf.
fn descend<const L: usize, const M: usize, P0, P1>(node: &CurveTreeNode<L, M, P0, P1>, i: usize) -> Result<&dyn Any, String>
where
    P0: SWCurveConfig + Copy,
    P1: SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField> + Copy,
{
    match node {
        CurveTreeNode::Leaf(p) => Ok(p),
        CurveTreeNode::Branch { children, .. } => {
            let j = node.child_index(i);
            match children.get(j) {
                Some(Some(c)) => descend::<L, M, P1, P0>(c, i),
                _ => Err(format!("index {} leads to an absent child", i)),
            }
        }
    }
}
fn same_leaf<P: SWCurveConfig>(a: &dyn Any, b: &Affine<P>) -> bool {
    a.downcast_ref::<Affine<P>>() == Some(b)
}

pub fn height_for(l: usize, n: usize, want: Option<usize>) -> usize {
    let (mut h, mut c) = (0, 1);
    while c < n {
        c *= l;
        h += 1;
    }
    h.max(want.unwrap_or(0))
}

fn whole<const L: usize, const M: usize, P0, P1>(
    r: &mut Report,
    z: &mut Z3,
    leaves: &[Affine<P0>],
    want: Option<usize>,
    pr: &SelRerandParameters<P0, P1>,
) -> Result<(), String>
where
    P0: Judge,
    P1: Judge + SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField>,
    P0::BaseField: PrimeField,
    P0::ScalarField: PrimeField,
{
    let t = quiet(|| CurveTree::<L, M, P0, P1>::from_set(leaves, pr, want)).map_err(|e| format!("building panics: {}", e))?;
    let h = height_for(L, leaves.len(), want);
    if t.height() != h {
        return Err(format!("height {} instead of {}", t.height(), h));
    }
    let ls: Vec<&dyn Any> = leaves.iter().map(|p| p as &dyn Any).collect();
    match &t {
        CurveTree::Even(n) => {
            if h % 2 == 1 {
                return Err("an even root at odd height".into());
            }
            walk::<L, M, P0, P1>(r, z, n, &ls, h, &pr.even_parameters, &pr.odd_parameters, "root")?;
        }
        CurveTree::Odd(n) => {
            if h % 2 == 0 {
                return Err("an odd root at even height".into());
            }
            walk::<L, M, P1, P0>(r, z, n, &ls, h, &pr.odd_parameters, &pr.even_parameters, "root")?;
        }
    }
    for (i, p) in leaves.iter().enumerate() {
        let got = quiet(|| match &t {
            CurveTree::Even(n) => descend(n, i).map(|q| same_leaf(q, p)),
            CurveTree::Odd(n) => descend(n, i).map(|q| same_leaf(q, p)),
        })
        .map_err(|e| format!("index {} panics: {}", i, e))??;
        if !got {
            return Err(format!("index {} leads to another leaf", i));
        }
    }
    Ok(())
}

/// All coefficient-variable pairs of two roots of trees of the same shape: equality forces equal children.
fn injective<const L: usize, const M: usize, P0, P1>(
    r: &mut Report,
    z: &mut Z3,
    a: &CurveTreeNode<L, M, P0, P1>,
    b: &CurveTreeNode<L, M, P0, P1>,
    opar: &SingleLayerParameters<P1>,
    par: &SingleLayerParameters<P0>,
) -> Result<(), String>
where
    P0: SymCurve + Judge,
    P1: SymCurve + Judge + SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField>,
    P0: SWCurveConfig<BaseField = Sym<<P0 as SymCurve>::BB>, ScalarField = Sym<<P0 as SymCurve>::SB>>,
    P1: SymCurve<BB = <P0 as SymCurve>::SB, SB = <P0 as SymCurve>::BB>,
    Sym<<P0 as SymCurve>::SB>: PrimeField,
    Sym<<P0 as SymCurve>::BB>: PrimeField,
{
    let (CurveTreeNode::Branch { children: ca, .. }, CurveTreeNode::Branch { children: cb, .. }) = (a, b) else { return Ok(()) };
    for t in 0..M {
        let mut nm = Norm::<P0::SB>::new();
        let (ta, tb) = (terms_of::<P0>(&a.commitment(t)), terms_of::<P0>(&b.commitment(t)));
        let hy: Vec<Poly<P0::SB>> = terms_add(&ta, &terms_neg(&tb)).iter().map(|x| (*nm.sym(&x.1)).clone()).collect();
        let mut goals = vec![];
        for j in 0..L {
            // an absent child counts as 0
            let mut f = |c: &Option<CurveTreeNode<L, M, P1, P0>>| match c {
                None => Poly::zero(),
                Some(c) => (*nm.sym(&<P1 as Judge>::plus(&c.commitment(t), &opar.delta).x)).clone(),
            };
            goals.push(f(&ca[j]).sub(&f(&cb[j])));
        }
        let (v, bad) = lin_implies(z, &hy, &goals);
        r.oblige(goals.len(), v);
        if v != Verdict::Unsat {
            return Err(format!("equal commitments {} allow different children {:?}", t, bad));
        }
        // and not for nothing: the equations can hold, and without them the children may differ
        if t == 0 {
            let (w, _) = lin_implies(z, &[], &goals);
            if w == Verdict::Sat {
                r.vacuity_witnesses += 1;
            }
        }
    }
    for j in 0..L {
        if let (Some(x), Some(y)) = (&ca[j], &cb[j]) {
            injective::<L, M, P1, P0>(r, z, x, y, par, opar)?;
        }
    }
    Ok(())
}

fn shape<const L: usize, const M: usize>(r: &mut Report, z: &mut Z3, ns: &[(usize, Option<usize>)]) {
    let pr = SelRerandParameters::<SymPallas, SymVesta>::new(L * M, L * M);
    let nat = SelRerandParameters::<ark_pallas::PallasConfig, ark_vesta::VestaConfig>::new(L * M, L * M);
    // the generators are distinct, so coefficients are read off unambiguously
    fn dist<C: SymCurve + Copy>(p: &SingleLayerParameters<C>, n: usize) -> bool
    where
        Sym<C::SB>: PrimeField,
    {
        let mut v: Vec<u32> = p.bp_gens.share(0).G(n).map(|g| atom_of::<C>(&shadow_pt::<C>(g), None).0).collect();
        v.push(atom_of::<C>(&shadow_pt::<C>(&p.pc_gens.B_blinding), None).0);
        v.iter().collect::<HashSet<_>>().len() == v.len()
    }
    if !dist::<SymPallas>(&pr.even_parameters, L * M) || !dist::<SymVesta>(&pr.odd_parameters, L * M) {
        r.violation(&format!("L={} M={} generators", L, M), "two generators coincide or are negatives: different children give the same commitment");
        return;
    }
    // is the tree of these leaves what it should be?
    let tree = |r: &mut Report, z: &mut Z3, leaves: &[PA], want: Option<usize>| -> bool {
        let key = format!("L={} M={} {} leaves, height {:?}", L, M, leaves.len(), want);
        if let Err(e) = whole::<L, M, SymPallas, SymVesta>(r, z, leaves, want, &pr) {
            r.oblige(1, Verdict::Sat);
            r.replays += 1;
            let nl: Vec<NP> = leaves.iter().map(shadow_pt::<SymPallas>).collect();
            match whole::<L, M, ark_pallas::PallasConfig, ark_vesta::VestaConfig>(&mut Report::new("replay"), z, &nl, want, &nat) {
                Err(f) => r.violation(&key, &format!("{}; on Pallas and Vesta: {}", e, f)),
                Ok(()) => r.inconclusive(format!("{}: {} (not reproduced)", key, e)),
            }
            return false;
        }
        r.oblige(1, Verdict::Unsat);
        true
    };
    for (n, want) in ns {
        let key = format!("L={} M={} {} leaves, height {:?}", L, M, n, want);
        let leaves: Vec<PA> = (0..*n).map(|i| sym_point::<SymPallas>(&format!("leaf{}", i))).collect();
        if !tree(r, z, &leaves, *want) {
            return;
        }
        // injectivity: against another list, and against each shorter list of the same height
        let h = height_for(L, *n, *want);
        let mut others = vec![*n];
        if *n <= 5 {
            others.extend((1..*n).filter(|m| height_for(L, *m, None) <= h));
        }
        for m in others {
            let other: Vec<PA> = (0..m).map(|i| sym_point::<SymPallas>(&format!("other{}", i))).collect();
            if m != *n && !tree(r, z, &other, Some(h)) {
                return;
            }
            let (a, b) = (
                CurveTree::<L, M, SymPallas, SymVesta>::from_set(&leaves, &pr, Some(h)),
                CurveTree::<L, M, SymPallas, SymVesta>::from_set(&other, &pr, Some(h)),
            );
            r.cases += 1;
            let e = match (&a, &b) {
                (CurveTree::Even(x), CurveTree::Even(y)) => injective::<L, M, SymPallas, SymVesta>(r, z, x, y, &pr.odd_parameters, &pr.even_parameters),
                (CurveTree::Odd(x), CurveTree::Odd(y)) => injective::<L, M, SymVesta, SymPallas>(r, z, x, y, &pr.even_parameters, &pr.odd_parameters),
                _ => Err("roots of different parity".into()),
            };
            if let Err(e) = e {
                r.inconclusive(format!("{} against {}: {}", key, m, e));
                return;
            }
        }
    }
    r.sample(format!("L={} M={}: (leaves, requested height) {:?}", L, M, ns));
}

pub fn run(r: &mut Report) {
    r.fns(&[
        "relations::curve_tree::CurveTree::{from_set,increase_height,height}",
        "relations::curve_tree::CurveTreeNode::{combine,commitment,height,elements,child_index}",
        "relations::curve_tree::x_coordinates",
        "relations::single_level_select_and_rerandomize::SingleLayerParameters::{new,commit}",
    ]);
    r.assume("a commitment determines its coefficients (discrete logarithms between the generators are unknown)");
    r.explanation = "The tree is built from symbolic leaves; every node's commitments are formal combinations of the generators whose coefficients are compared by z3 with the x-coordinates of the shifted children, recursively down to the leaves in order. For two trees of the same height z3 decides that equal commitments force equal x-coordinates of all children (0 for an absent one).".into();
    let mut z = Z3::new(60_000);
    // an absent child's 0 is not the x-coordinate of a point
    for (b, what) in [(ark_ff::LegendreSymbol::is_qnr(&<ark_pallas::PallasConfig as SWCurveConfig>::COEFF_B.legendre()), "Pallas"), (ark_ff::LegendreSymbol::is_qnr(&<ark_vesta::VestaConfig as SWCurveConfig>::COEFF_B.legendre()), "Vesta")] {
        r.oblige(1, if b { Verdict::Unsat } else { Verdict::Sat });
        if !b {
            r.inconclusive(format!("{} has a point with x = 0", what));
        }
    }
    let t = r.thorough();
    let ns = |max: usize| -> Vec<(usize, Option<usize>)> {
        let mut o: Vec<(usize, Option<usize>)> = (1..=max).map(|n| (n, None)).collect();
        o.extend([(1, Some(1)), (1, Some(2)), (2, Some(3)), (3, Some(1)), (3, Some(4)), (2, Some(0))]);
        o
    };
    let k = |q: usize, d: usize| if t { d } else { q };
    shape::<2, 1>(r, &mut z, &ns(k(17, 66)));
    shape::<2, 2>(r, &mut z, &ns(k(9, 33)));
    shape::<3, 1>(r, &mut z, &ns(k(28, 82)));
    shape::<3, 3>(r, &mut z, &ns(k(10, 30)));
    shape::<4, 2>(r, &mut z, &ns(k(18, 66)));
    if t {
        shape::<2, 4>(r, &mut z, &ns(9));
        shape::<5, 2>(r, &mut z, &ns(26));
        shape::<8, 1>(r, &mut z, &ns(66));
        shape::<8, 3>(r, &mut z, &ns(10));
        shape::<16, 1>(r, &mut z, &ns(18));
    }
    r.absorb(&z);
    r.bounds.push("all leaf values; branching factors, batch sizes, list lengths and requested heights listed in the samples".into());
    r.outside.push("a child equal to minus delta (its shifted point is the identity and it counts as absent)".into());
}
