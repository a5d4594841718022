//! P13: re-randomization.
use crate::common::*;
use crate::gadget::*;
use crate::replay::*;
use crate::rerand::*;
use crate::windows::*;
use bulletproofs::r1cs::*;
use relations::curve::PointRepresentation;
use relations::rerandomize::*;
use std::collections::{HashMap, HashSet};

type L<C> = LinearCombination<Sym<<C as SymCurve>::BB>>;

struct Plain<C: Cycle> {
    h: CA<C>,
    tabs: Vec<Tab<C>>,
    c: Aff<C>,
    t: [Sym<C::BB>; 2],
}
impl<C: Cycle> Plain<C>
where
    C::Conc: ark_ec::short_weierstrass::SWCurveConfig<BaseField = C::BB, ScalarField = C::SB>,
    Sym<C::SB>: PrimeField,
{
    /// commit x, y, x~, y~ and run the gadget
    fn gadget(&self, g: &mut G<C>, t: [Sym<C::BB>; 2], wit: Option<C::SB>) {
        let v: Vec<L<C>> = [self.c.x, self.c.y, t[0], t[1]].iter().map(|s| g.commit(*s).into()).collect();
        re_randomize::<Sym<C::BB>, Sym<C::SB>, C, _>(
            g,
            &self.tabs,
            PointRepresentation { x: v[0].clone(), y: v[1].clone(), witness: wit.map(|_| self.c) },
            v[2].clone(),
            v[3].clone(),
            wit.map(|w| Sym::cst(w)),
        );
    }
    fn native<Cs: ConstraintSystem<C::BB>>(&self, cs: &mut Cs, vs: &[Variable<C::BB>], wit: Option<(CA<C>, C::SB)>) {
        let tabs = build_tables::<CA<C>>(self.h);
        re_randomize::<C::BB, C::SB, C::Conc, _>(
            cs,
            &tabs,
            PointRepresentation { x: vs[0].into(), y: vs[1].into(), witness: wit.map(|w| w.0) },
            vs[2].into(),
            vs[3].into(),
            wit.map(|w| w.1),
        );
    }
}
impl<C: Cycle> Host<C> for Plain<C>
where
    C::Conc: ark_ec::short_weierstrass::SWCurveConfig<BaseField = C::BB, ScalarField = C::SB>,
    Sym<C::SB>: PrimeField,
{
    fn name(&self) -> String {
        C::NAME.into()
    }
    fn verifier(&self, _: Option<&Aff<C>>) -> G<C> {
        let mut g = G::<C>::new(false);
        self.gadget(&mut g, self.t, None);
        g
    }
    fn prover(&self, k: C::SB, _: usize) -> Result<Honest<C>, String> {
        let h = sym_point_sh::<C>("H", self.h);
        let tt: Terms<C::SB> = terms_add(&terms_of::<C>(&self.c), &terms_mul(&terms_of::<C>(&h), &Sym::cst(k)));
        let out = point_of_terms::<C>(&tt, terms_shadow::<C>(&tt));
        let mut cs = G::<C>::new(true);
        quiet(|| self.gadget(&mut cs, [out.x, out.y], Some(k))).map_err(|e| format!("panics: {}", e))?;
        Ok(Honest { cs, adds: vec![], on_curve: vec![], left: self.c, out, public: out })
    }
    fn native_honest(&self, k: C::SB, _: usize) -> Result<bool, String> {
        let c = shadow_pt(&self.c);
        let t = (c + self.h * k).into_affine();
        native_honest::<C::Other>(
            &[c.x, c.y, t.x, t.y],
            &[],
            &mut |p, vs, _| self.native(p, vs, Some((c, k))),
            &mut |v, vs, _| self.native(v, vs, None),
        )
    }
    fn scene(&self, nm: &mut Norm<C::BB>, _: &G<C>, _: &Honest<C>) -> Result<Scene<C>, String> {
        let mut p = |s: &Sym<C::BB>| (*nm.sym(s)).clone();
        Ok(Scene { left: [p(&self.c.x), p(&self.c.y)], out: [p(&self.t[0]), p(&self.t[1])], claims: vec![], pts: vec![], sums: vec![], cut: HashSet::new() })
    }
    fn forge(&self, r: &mut Report, f: &Forge<C>) -> bool {
        for degenerate in [false, true] {
            let mut fixed = HashMap::new();
            if degenerate {
                // C = R_m
                let c = (self.h * f.sums[0]).into_affine();
                assign(&mut fixed, &f.scene.left[0], c.x);
                assign(&mut fixed, &f.scene.left[1], c.y);
            }
            for round in 0..6u64 {
                let Some(p) = f.solve(&fixed, round) else { continue };
                let [cx, cy] = f.at(&f.scene.left, &p);
                let [tx, ty] = f.at(&f.scene.out, &p);
                // none of the outputs the digits allow (in a window left open, all eight digits)
                let c = CA::<C>::new_unchecked(cx, cy);
                let honest = on_curve::<C>(cx, cy)
                    && f.sums.iter().enumerate().any(|(k, w)| {
                        let t = (c + self.h * *w).into_affine();
                        (k == 0 || round % 2 == 1) && t.x == tx && t.y == ty
                    });
                if honest {
                    continue;
                }
                r.replays += 1;
                let ok = native_accepts::<C::Other>(&[cx, cy, tx, ty], &[], &f.wires(&p), &mut |v, vs, _| self.native(v, vs, None));
                if ok == Ok(true) {
                    r.violation(&f.what, &format!("the real verifier accepts C = ({}, {}), C~ = ({}, {}) (on the curve: {}) which is not C + (sum of the digits) H", cx, cy, tx, ty, on_curve::<C>(tx, ty)));
                    return true;
                }
                eprintln!("{}: forged wires give {:?}", f.what, ok);
            }
        }
        false
    }
}

pub fn curve<C: Cycle>(r: &mut Report, z: &mut Z3, runs: usize)
where
    Sym<C::SB>: PrimeField,
    C::Conc: ark_ec::short_weierstrass::SWCurveConfig<BaseField = C::BB, ScalarField = C::SB>,
{
    let hs = (<C::Conc as ark_ec::short_weierstrass::SWCurveConfig>::GENERATOR * rand_f::<C::SB>()).into_affine();
    let h = sym_point_sh::<C>("H", hs);
    let tabs = build_tables::<Aff<C>>(h);
    let m = tabs.len();
    let host = Plain::<C> { h: hs, tabs, c: sym_point::<C>("C"), t: [Sym::fresh("tx"), Sym::fresh("ty")] };
    let s: Vec<_> = strings::<C>(m, runs).into_iter().map(|d| (d, 0)).collect();
    study::<C, _>(r, z, &host, &h, &host.tabs, &s);
}

pub fn run(r: &mut Report) {
    r.fns(&[
        "relations::rerandomize::build_tables",
        "relations::rerandomize::re_randomize",
        "relations::lookup::lookup",
        "relations::lookup::is_bit",
        "relations::curve::incomplete_curve_addition",
        "relations::curve::checked_curve_addition",
    ]);
    r.assume("the affine chord formulas with distinct x-coordinates are the group law of the curve");
    r.assume("the blinding generator generates the group of prime order");
    let mut z = Z3::new(60_000);
    let n = if r.thorough() { 24 } else { 2 };
    curve::<SymPallas>(r, &mut z, n);
    if r.thorough() && !r.violated() {
        curve::<SymVesta>(r, &mut z, n);
    }
    r.absorb(&z);
    r.bounds.push("every window of the real tables, every digit, every input point and witness; the honest prover on the listed digit strings, which cover every digit in every window".into());
    r.outside.push("honest randomness for which an addition of the chain is degenerate (isolated values such as 0); that the digits of r are cut out of r the same way for the strings not listed".into());
    r.explanation = "The gadget runs with symbolic table entries and every wire a fresh symbol; the constraints fall into one part per window once cut at the accumulator wires, and z3 decides for each part that it forces the addition of one single table entry. Over the integers z3 decides that no digits make an unchecked addition degenerate. Honest runs on formal points: every constraint follows from the group law of the additions made.".into();
}
