//! P17, P18, P19: membership proofs, single and batched.
use crate::common::*;
use crate::path::*;

fn fns(r: &mut Report, batched: bool) {
    r.fns(&[
        "relations::curve_tree::{CurveTree::from_set,x_coordinates}",
        "relations::single_level_select_and_rerandomize::single_level_select_and_rerandomize",
        "relations::rerandomize::re_randomize",
    ]);
    if batched {
        r.fns(&[
            "relations::single_level_select_and_rerandomize::single_level_batched_select_and_rerandomize",
            "relations::batched_curve_tree_verifier::{batched_select_and_rerandomize_verifier_gadget,batched_select_and_rerandomize_verification_commitments,even_verifier_gadget,odd_verifier_gadget}",
        ]);
    } else {
        r.fns(&["relations::curve_tree_verifier::{select_and_rerandomize_verifier_gadget,select_and_rerandomize_verification_commitments,even_verifier_gadget,odd_verifier_gadget}"]);
    }
}

/// What a single level guarantees, as in P14 and P15.
fn one_level(r: &mut Report, batched: bool) {
    if std::env::var("SKIP14").is_ok() {
        return;
    }
    let e = r.explanation.clone();
    if batched {
        crate::p14::run15(r);
    } else {
        crate::p14::run14(r);
    }
    r.explanation = e;
}

pub fn run18(r: &mut Report) {
    fns(r, false);
    r.explanation = "The real verifier runs on a tree of symbolic leaves and a path of symbolic points; its constraints are cut into blocks of the real single-level gadget (z3 compares every coefficient), each with a source (the root's children as constants or a committed path point) and a child point. The blocks must form a chain from the root to the returned leaf with one link per level; for every other number of even and odd points the verifier must refuse. What a block guarantees is decided on the constraints of one level, with all wires symbols, as in P14.".into();
    let mut z = Z3::new(60_000);
    let t = r.thorough();
    sound::<2, 1>(r, &mut z, false, 2, None);
    sound::<2, 1>(r, &mut z, false, 3, None);
    sound::<2, 2>(r, &mut z, false, 5, None);
    sound::<2, 1>(r, &mut z, false, 9, None);
    sound::<3, 1>(r, &mut z, false, 4, None);
    sound::<3, 1>(r, &mut z, false, 1, Some(3));
    sound::<2, 1>(r, &mut z, false, 2, Some(5));
    sound::<2, 1>(r, &mut z, false, 3, Some(6));
    if t {
        sound::<2, 1>(r, &mut z, false, 3, Some(8));
        sound::<2, 1>(r, &mut z, false, 17, None);
        sound::<3, 3>(r, &mut z, false, 10, None);
        sound::<4, 1>(r, &mut z, false, 17, None);
        sound::<5, 1>(r, &mut z, false, 5, Some(6));
    }
    if !r.violated() {
        one_level(r, false);
    }
    r.absorb(&z);
    r.assume("the affine chord formulas with distinct x-coordinates are the group law of the curve");
    r.bounds.push("all leaves, path points and witnesses; trees listed in the samples, all numbers of even and odd points up to the listed one".into());
}

fn honest_text() -> String {
    "The real prover runs on a tree of symbolic leaves with constant randomness, so that every point is a formal combination and every wire an expression in coordinates of formal points. Prover and verifier must declare identical constraints (z3, coefficient by coefficient), bind identical data and hold the same commitments; every constraint must vanish identically or follow from the group law of the additions made (z3); the returned leaves must be, as formal combinations, the leaves plus the returned scalars times the blinding generator.".into()
}
fn limits(r: &mut Report) {
    r.assume("the affine chord formulas with distinct x-coordinates are the group law of the curve");
    r.assume("the blinding generator generates the group of prime order");
    r.outside.push("trees of height 0 (a single leaf, no level to prove)".into());
    r.outside.push("randomness for which an addition is degenerate (isolated values such as 0)".into());
}

pub fn run17(r: &mut Report) {
    fns(r, false);
    limits(r);
    r.fns(&[
        "relations::curve_tree_prover::{select_and_rerandomize_prover_witness,select_and_rerandomize_prover_gadget,single_level_select_and_rerandomize_prover_gadget,single_level_select_and_rerandomize_prover_gadget_helper,root_is_even}",
        "relations::curve_tree_verifier::select_and_rerandomize_verifier_gadget",
    ]);
    r.explanation = honest_text();
    let mut z = Z3::new(60_000);
    let t = r.thorough();
    let one = |n: usize| -> Vec<Vec<usize>> { (0..n).map(|i| vec![i]).collect() };
    let some = |v: &[usize]| -> Vec<Vec<usize>> { v.iter().map(|i| vec![*i]).collect() };
    for n in 2..=5 {
        complete::<2, 1>(r, &mut z, false, n, None, &one(n));
    }
    complete::<2, 1>(r, &mut z, false, 9, None, &if t { one(9) } else { some(&[0, 6, 8]) });
    complete::<2, 1>(r, &mut z, false, 1, Some(1), &one(1));
    complete::<2, 2>(r, &mut z, false, 3, Some(5), &some(&[0, 2]));
    complete::<3, 1>(r, &mut z, false, 4, None, &one(4));
    complete::<3, 2>(r, &mut z, false, 10, None, &if t { one(10) } else { some(&[1, 8, 9]) });
    complete::<4, 1>(r, &mut z, false, 6, None, &if t { one(6) } else { some(&[3, 4]) });
    complete::<2, 1>(r, &mut z, false, 2, Some(6), &some(&[1]));
    if t {
        complete::<2, 1>(r, &mut z, false, 17, None, &one(17));
        complete::<3, 1>(r, &mut z, false, 28, None, &one(28));
        complete::<5, 1>(r, &mut z, false, 26, None, &one(26));
        complete::<8, 1>(r, &mut z, false, 65, None, &some(&[0, 7, 8, 63, 64]));
        complete::<2, 1>(r, &mut z, false, 3, Some(8), &one(3));
    }
    if !r.violated() {
        one_level(r, false);
    }
    r.absorb(&z);
    r.bounds.push("all leaf values; trees and leaf indices listed in the samples; randomness: fixed values per run, and for one level the digit strings covering every digit of every window".into());
}

pub fn run19(r: &mut Report) {
    fns(r, true);
    limits(r);
    r.fns(&["relations::batched_curve_tree_prover::{batched_select_and_rerandomize_prover_gadget,select_and_rerandomize_prover_multi_witness,single_level_batched_select_and_rerandomize_prover_gadget,allocate_multi_node_variables,root_is_even}"]);
    r.explanation = format!("{} Soundness as in P18: the verifier's constraints on a path of symbolic points are cut into blocks of the real batched and single gadgets, which must form a chain from the children of its own root, for every generator set, to every returned leaf; every other number of points must be refused.", honest_text());
    let mut z = Z3::new(60_000);
    let t = r.thorough();
    // soundness
    sound::<2, 2>(r, &mut z, true, 2, None);
    sound::<2, 2>(r, &mut z, true, 3, None);
    sound::<2, 3>(r, &mut z, true, 5, None);
    sound::<3, 2>(r, &mut z, true, 2, Some(4));
    sound::<2, 1>(r, &mut z, true, 3, None);
    sound::<2, 2>(r, &mut z, true, 2, Some(5));
    sound::<2, 2>(r, &mut z, true, 3, Some(6));
    if t {
        sound::<4, 4>(r, &mut z, true, 17, None);
        sound::<3, 3>(r, &mut z, true, 10, None);
        sound::<2, 2>(r, &mut z, true, 2, Some(8));
    }
    // completeness
    complete::<2, 2>(r, &mut z, true, 2, None, &[vec![0, 1], vec![1, 1]]);
    complete::<2, 2>(r, &mut z, true, 3, None, &[vec![0, 2], vec![2, 0], vec![1, 1]]);
    complete::<3, 2>(r, &mut z, true, 5, None, &[vec![4, 1]]);
    complete::<2, 3>(r, &mut z, true, 5, None, &[vec![4, 0, 4]]);
    complete::<2, 1>(r, &mut z, true, 3, None, &[vec![1]]);
    complete::<2, 2>(r, &mut z, true, 2, Some(5), &[vec![1, 0]]);
    if t {
        let all = |n: usize| -> Vec<Vec<usize>> { (0..n * n).map(|i| vec![i / n, i % n]).collect() };
        complete::<2, 2>(r, &mut z, true, 5, None, &all(5));
        complete::<3, 2>(r, &mut z, true, 4, None, &all(4));
        complete::<3, 3>(r, &mut z, true, 10, None, &[vec![9, 3, 0], vec![9, 9, 9], vec![1, 2, 3]]);
        complete::<4, 4>(r, &mut z, true, 17, None, &[vec![16, 0, 7, 7]]);
        complete::<2, 2>(r, &mut z, true, 9, None, &[vec![8, 0], vec![3, 4]]);
    }
    if !r.violated() {
        one_level(r, true);
        if !t {
            one_level(r, false);
        }
    }
    r.absorb(&z);
    r.bounds.push("all leaf values; trees and leaf indices listed in the samples; randomness: fixed values per run, and for one level the digit strings covering every digit of every window".into());
}
