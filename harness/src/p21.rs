//! P21: payments.  The constraint systems that `prove_pour` and `Pour::verification_gadget` hand over are recorded and
//! cut into levels, range proofs and plain constraints on commitments.
use crate::common::*;
use crate::gadget::*;
use crate::path::*;
use crate::windows::Aff;
use ark_crypto_primitives::signature::schnorr::{Parameters, PublicKey, Schnorr, SecretKey};
use ark_crypto_primitives::signature::SignatureScheme;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use blake2::Blake2s256 as Blake2s;
use bulletproofs::r1cs::verif_log::{Seen, LOG, ON};
use bulletproofs::r1cs::*;
use merlin::{Event, Transcript};
use rand::SeedableRng;
use relations::coin::*;
use relations::curve_tree::*;
use relations::range_proof::range_proof;
use std::any::Any;
use std::sync::atomic::Ordering;

pub type Sg = ark_pallas::Projective;
type Sch = Schnorr<Sg, Blake2s>;
type Rng = rand::rngs::StdRng;
pub const DOM: &[u8] = b"payment";

/// Run with the recorder on.
pub fn recorded<T>(f: impl FnOnce() -> T) -> (Result<T, String>, Vec<Box<dyn Any + Send>>) {
    LOG.lock().unwrap().clear();
    ON.store(true, Ordering::SeqCst);
    let v = quiet(f);
    ON.store(false, Ordering::SeqCst);
    (v, std::mem::take(&mut *LOG.lock().unwrap()))
}
pub fn seen<C: AffineRepr>(log: &mut Vec<Box<dyn Any + Send>>, prover: bool) -> Vec<Seen<C>> {
    let mut o = vec![];
    let mut keep = vec![];
    for x in log.drain(..) {
        match x.downcast::<Seen<C>>() {
            Ok(s) if s.prover == prover => o.push(*s),
            Ok(s) => keep.push(s as Box<dyn Any + Send>),
            Err(x) => keep.push(x),
        }
    }
    *log = keep;
    o
}
fn view<D: Side>(s: &Seen<Aff<D>>) -> View<D> {
    View { cons: s.constraints.iter().map(|c| c.verif_terms().to_vec()).collect(), gates: s.num_vars, coms: s.vec_comms.clone(), log: s.transcript.log.clone() }
}
/// The spending tag of a key, as specified: SHA3-512 of its compressed encoding, little endian, reduced.
fn tag_of<F: PrimeField>(pk: &PublicKey<Sg>) -> F {
    use sha3::{Digest, Sha3_512};
    let mut b = vec![];
    pk.serialize_compressed(&mut b).unwrap();
    let mut h = Sha3_512::new();
    h.update(&b);
    let d = h.finalize();
    d.iter().rev().fold(F::zero(), |a, x| a * F::from(256u64) + F::from(*x as u64))
}

fn sym_tag(pk: &PublicKey<Sg>) -> SQ {
    SQ::cst(tag_of::<Fq>(pk))
}

pub fn no_proof<C: AffineRepr>() -> R1CSProof<C> {
    R1CSProof::verif_from_parts(VerifProofParts {
        points: [C::zero(); 6],
        T: vec![],
        scalars: [C::ScalarField::zero(); 3],
        L: vec![],
        R: vec![],
        a: C::ScalarField::zero(),
        b: C::ScalarField::zero(),
    })
}

// ---------------------------------------------------------------- soundness

/// What the verifier's constraints of a payment do not guarantee.
#[derive(Clone, Debug, PartialEq)]
enum Hole {
    Balance,
    /// minted amount, bits enforced for both amounts
    Range(usize, [usize; 2]),
    Tag(usize),
    Sign(usize),
    /// spent leaf
    Chain(usize),
    /// paths of another length
    Length,
}
struct Shape {
    n: usize,
    want: Option<usize>,
    /// per path: even and odd commitments more or less than the tree's height asks for
    off: [(i32, i32); 2],
}

#[allow(clippy::type_complexity)]
fn verifier<const L: usize>(r: &mut Report, z: &mut Z3, sh: &Shape) -> Result<Vec<(Hole, String)>, String> {
    let pr = SelRerandParameters::<SymPallas, SymVesta>::new(L, L);
    let leaves: Vec<PA> = (0..sh.n).map(|i| sym_point::<SymPallas>(&format!("leaf{}", i))).collect();
    let ct = CurveTree::<L, 1, SymPallas, SymVesta>::from_set(&leaves, &pr, sh.want);
    let h = ct.height();
    let (ne, no) = lens(h);
    if sh.off != [(0, 0); 2] {
        return lengths::<L>(r, sh, &pr, &ct, (ne, no));
    }
    let path = SymPath {
        sel: (0..2).map(|i| sym_point::<SymPallas>(&format!("S{}", i))).collect(),
        even: (0..2 * ne).map(|i| sym_point::<SymPallas>(&format!("E{}", i))).collect(),
        odd: (0..2 * no).map(|i| sym_point::<SymVesta>(&format!("O{}", i))).collect(),
    };
    let of = |k: usize| SelectAndRerandomizePath::<L, SymPallas, SymVesta> {
        selected_commitment: path.sel[k],
        odd_commitments: path.odd[k * no..(k + 1) * no].to_vec(),
        even_commitments: path.even[k * ne..(k + 1) * ne].to_vec(),
    };
    let minted = [sym_point::<SymPallas>("M0"), sym_point::<SymPallas>("M1")];
    let mut rng = Rng::seed_from_u64(5);
    let pk: Vec<PublicKey<Sg>> = (0..2).map(|_| Sg::generator().into_affine() * ark_pallas::Fr::from(rand::Rng::gen::<u64>(&mut rng))).map(|p| p.into_affine()).collect();
    let pour = Pour::<L, SymPallas, SymVesta, Sg> {
        even_proof: no_proof(),
        odd_proof: no_proof(),
        randomized_path_0: of(0),
        randomized_path_1: of(1),
        pk0: pk[0],
        pk1: pk[1],
        minted_coin_commitment_0: minted[0],
        minted_coin_commitment_1: minted[1],
    };
    let (_, mut log) = {
        let p = pour.clone();
        recorded(|| p.verification_gadget(DOM, &pr, &ct))
    };
    let mut es = seen::<PA>(&mut log, false);
    let mut os = seen::<Aff<SymVesta>>(&mut log, false);
    if os.is_empty() && es.len() == 1 {
        // one after the other: the first one's refusal hides the second
        let mut c: Vec<_> = (0..2).map(of).collect();
        for p in c.iter_mut() {
            ct.select_and_rerandomize_verification_commitments(p);
        }
        let (_, mut log) = recorded(|| pour.odd_verification_gadget(DOM, &pr, &c[0], &c[1], &ct));
        os = seen::<Aff<SymVesta>>(&mut log, false);
    }
    if es.len() != 1 || os.len() != 1 {
        return Err(format!("{} even and {} odd constraint systems are checked", es.len(), os.len()));
    }
    let (ev, ov) = (view::<SymPallas>(&es.remove(0)), view::<SymVesta>(&os.remove(0)));
    let mut extra: Vec<Cand<SymPallas>> = vec![];
    let mut bits: Vec<usize> = vec![64];
    bits.extend((1..64).rev());
    bits.extend(65..=128);
    for (j, (c, d)) in ev.coms.iter().enumerate() {
        if minted.iter().any(|m| terms_of::<SymPallas>(m) == terms_of::<SymPallas>(c)) {
            for b in [64] {
                for i in 0..*d {
                    extra.push(Cand { tag: Tag::Range { j, i, bits: b }, run: Box::new(move |cs, vars| range_proof(cs, vars[j][i].into(), None, b).unwrap()) });
                }
            }
        }
    }
    let roots = match &ct {
        CurveTree::Even(n) => (Some(root_children::<L, 1, SymPallas, SymVesta>(n, &pr.odd_parameters.delta, 1)), None),
        CurveTree::Odd(n) => (None, Some(root_children::<L, 1, SymVesta, SymPallas>(n, &pr.even_parameters.delta, 1))),
    };
    let first = edges_of(r, z, roots.clone(), L, None, &path, &ev, &ov, &pr, extra, true);
    let (mut st, other) = match first {
        Ok(x) => x,
        Err(e) => {
            // range proofs of another length?
            let mut extra: Vec<Cand<SymPallas>> = vec![];
            for b in bits {
                for j in 0..2 {
                    extra.push(Cand { tag: Tag::Range { j, i: 0, bits: b }, run: Box::new(move |cs, vars| range_proof(cs, vars[j][0].into(), None, b).unwrap()) });
                }
            }
            edges_of(r, z, roots, L, None, &path, &ev, &ov, &pr, extra, true).map_err(|_| e)?
        }
    };
    let mut holes = vec![];
    // the two membership proofs
    let owner = |w: &Who| match w {
        Who::Root => None,
        Who::E(i) => Some(i / ne.max(1)),
        Who::O(i) => Some(i / no.max(1)),
        Who::S(i) => Some(*i),
        Who::Unknown => Some(9),
    };
    for k in 0..2 {
        st.returned = vec![Who::S(k)];
        let part = Studied {
            edges: st.edges.iter().filter(|e| owner(&e.to) == Some(k) && (e.src == Who::Root || owner(&e.src) == Some(k))).cloned().collect(),
            returned: vec![Who::S(k)],
            coms: st.coms.clone(),
        };
        match chained(&part, h, None) {
            Ok(()) => r.oblige(1, Verdict::Unsat),
            Err(e) => {
                r.oblige(1, Verdict::Sat);
                holes.push((Hole::Chain(k), e))
            }
        }
    }
    // which commitment is which
    let com = |p: &PA| ev.coms.iter().position(|(c, _)| terms_of::<SymPallas>(c) == terms_of::<SymPallas>(p) && !c.infinity);
    let mut at = vec![];
    for (p, n) in minted.iter().chain(path.sel.iter()).zip(["minted 0", "minted 1", "spent 0", "spent 1"]) {
        match com(p) {
            Some(j) if ev.coms[j].1 >= 2 => at.push(j),
            Some(_) => return Err(format!("commitment {} is opened in less than two values", n)),
            None => return Err(format!("commitment {} is not opened", n)),
        }
    }
    // amounts in range
    let got = |k: usize| other.iter().filter_map(|(t, _)| if let Tag::Range { j, i: 0, bits } = t { Some((*j, *bits)) } else { None }).filter(|x| x.0 == at[k]).map(|x| x.1).min();
    for k in 0..2 {
        if got(k).map(|b| b <= 64).unwrap_or(false) {
            r.oblige(1, Verdict::Unsat);
        } else {
            r.oblige(1, Verdict::Sat);
            holes.push((Hole::Range(k, [got(0).unwrap_or(0), got(1).unwrap_or(0)]), format!("minted amount {} is in no range proof of 64 bits ({:?})", k, got(k))));
        }
    }
    // plain constraints
    let syms: Vec<Vec<SQ>> = ev.coms.iter().enumerate().map(|(j, c)| (0..c.1).map(|i| Sym::fresh(&format!("v{}_{}", j, i))).collect()).collect();
    let others: SQ = Sym::fresh("other");
    let sym = |j: usize, i: usize| syms[j][i];
    let val = |v: &Variable<SQ>| match v {
        Variable::VectorCommit(j, i) => sym(*j, *i),
        Variable::One(_) => SQ::one(),
        _ => others,
    };
    let mut nm = Norm::<Fq>::new();
    let plain: Vec<Poly<Fq>> = other
        .iter()
        .filter(|x| x.0 == Tag::Plain)
        .flat_map(|x| x.1[0]..x.1[1])
        .map(|k| (*nm.sym(&ev.cons[k].iter().fold(SQ::zero(), |a, (v, c)| a + val(v) * *c))).clone())
        .collect();
    let goals = [
        (Hole::Balance, sym(at[0], 0) + sym(at[1], 0) - sym(at[2], 0) - sym(at[3], 0), "the amounts minted and spent need not be equal"),
        (Hole::Tag(0), sym(at[2], 1) - sym_tag(&pk[0]), "the tag of spent coin 0 is not bound to the key"),
        (Hole::Tag(1), sym(at[3], 1) - sym_tag(&pk[1]), "the tag of spent coin 1 is not bound to the key"),
    ];
    for (hole, g, what) in goals {
        let g = (*nm.sym(&g)).clone();
        let (v, _) = lin_implies(z, &plain, std::slice::from_ref(&g));
        r.oblige(1, v);
        match v {
            Verdict::Unsat => {}
            Verdict::Sat => holes.push((hole, what.into())),
            _ => return Err(format!("z3 gives no answer on {:?}", hole)),
        }
    }
    // vacuity: the plain constraints have a solution with unequal amounts minted
    let (v, _) = lin_implies(z, &plain, &[(*nm.sym(&(sym(at[0], 0) - sym(at[1], 0)))).clone()]);
    r.oblige(1, if v == Verdict::Sat { Verdict::Unsat } else { Verdict::Sat });
    if v != Verdict::Sat {
        return Err("the constraints force the minted amounts to be equal".into());
    }
    Ok(holes)
}

/// A payment whose paths are too long or too short, any commitments: is it refused?
fn lengths<const L: usize>(r: &mut Report, sh: &Shape, pr: &SelRerandParameters<SymPallas, SymVesta>, ct: &CurveTree<L, 1, SymPallas, SymVesta>, (ne, no): (usize, usize)) -> Result<Vec<(Hole, String)>, String> {
    let path = |k: usize| {
        let (e, o) = sh.off[k];
        SelectAndRerandomizePath::<L, SymPallas, SymVesta> {
            selected_commitment: sym_point::<SymPallas>(&format!("S{}", k)),
            odd_commitments: (0..no as i32 + o).map(|i| sym_point::<SymVesta>(&format!("O{}_{}", k, i))).collect(),
            even_commitments: (0..ne as i32 + e).map(|i| sym_point::<SymPallas>(&format!("E{}_{}", k, i))).collect(),
        }
    };
    let pk = Sg::generator().into_affine();
    let pour = Pour::<L, SymPallas, SymVesta, Sg> {
        even_proof: no_proof(),
        odd_proof: no_proof(),
        randomized_path_0: path(0),
        randomized_path_1: path(1),
        pk0: pk,
        pk1: pk,
        minted_coin_commitment_0: sym_point::<SymPallas>("M0"),
        minted_coin_commitment_1: sym_point::<SymPallas>("M1"),
    };
    // both constraint systems handed over to be checked against the proofs
    let (_, mut log) = {
        let p = pour.clone();
        recorded(|| p.verification_gadget(DOM, pr, ct))
    };
    let e = !seen::<PA>(&mut log, false).is_empty();
    let mut o = !seen::<Aff<SymVesta>>(&mut log, false).is_empty();
    if e && !o {
        // one after the other: the missing proof of the first one hides the second
        let mut c = [path(0), path(1)];
        let (_, mut log) = recorded(|| {
            for p in c.iter_mut() {
                ct.select_and_rerandomize_verification_commitments(p);
            }
            pour.odd_verification_gadget(DOM, pr, &c[0], &c[1], ct)
        });
        o = !seen::<Aff<SymVesta>>(&mut log, false).is_empty();
    }
    let ok = e && o;
    r.oblige(1, if ok { Verdict::Sat } else { Verdict::Unsat });
    Ok(if ok { vec![(Hole::Length, format!("paths with {:?} surplus (even, odd) commitments are not refused", sh.off))] } else { vec![] })
}

// ---------------------------------------------------------------- native payments

pub struct Keys {
    pub par: Parameters<Sg, Blake2s>,
    pub pk: Vec<PublicKey<Sg>>,
    pub sk: Vec<SecretKey<Sg>>,
}
pub fn keys(rng: &mut Rng, n: usize) -> Keys {
    let par = Sch::setup(rng).unwrap();
    let (mut pk, mut sk) = (vec![], vec![]);
    for _ in 0..n {
        let (p, s) = Sch::keygen(&par, rng).unwrap();
        pk.push(p);
        sk.push(s);
    }
    Keys { par, pk, sk }
}
/// Is a coin's tag the digest of its key?
fn native_tag() -> bool {
    let mut rng = Rng::seed_from_u64(8);
    let pr = NPr::new(2, 2);
    (0..4).all(|_| {
        let ks = keys(&mut rng, 1);
        let (c, _) = Coin::<NPallas, Sg>::new(3, &ks.pk[0], &ks.par, &pr.even_parameters, &mut rng);
        c.tag == tag_of::<Fq>(&Coin::<NPallas, Sg>::rerandomized_pk(&ks.pk[0], &c.pk_randomness, &ks.par))
    })
}
fn size<const L: usize>(h: usize) -> usize {
    // about 1000 gates per level, two paths
    (2 * 1000 * (h + 1) / 2 + 256).max(L).next_power_of_two()
}
pub type Native<const L: usize> = (NPr, NTree<L, 1>, SignedTx<NPallas, NVesta, Sg>, Keys, Vec<(SecretKey<Sg>, Vec<u8>)>);
/// An honest payment on the real curves.
pub fn honest_tx<const L: usize>(n: usize, want: Option<usize>, idx: [usize; 2], spent: [u64; 2], minted: [u64; 2], seed: u64) -> Result<Native<L>, String> {
    let mut rng = Rng::seed_from_u64(seed);
    let ks = keys(&mut rng, 4);
    let mut cap = 4096;
    loop {
        let pr = NPr::new(cap, cap);
        let coins: Vec<_> = (0..2).map(|k| Coin::<NPallas, Sg>::new(spent[k], &ks.pk[k], &ks.par, &pr.even_parameters, &mut rng)).collect();
        let mut set: Vec<NP> = (0..n).map(|i| (NP::generator() * Fq::from(77 + i as u64)).into_affine()).collect();
        for k in 0..2 {
            set[idx[k]] = coins[k].1;
        }
        let ct = NTree::<L, 1>::from_set(&set, &pr, want);
        let mut coins = coins.into_iter();
        let info: Vec<_> = (0..2)
            .map(|k| {
                let c = coins.next().unwrap().0;
                SpendingInfo { index: idx[k], randomized_pk: Coin::<NPallas, Sg>::rerandomized_pk(&ks.pk[k], &c.pk_randomness, &ks.par), coin_aux: c, sk: ks.sk[k].clone() }
            })
            .collect();
        let sk: Vec<_> = info
            .iter()
            .map(|i| {
                let mut b = vec![];
                i.coin_aux.pk_randomness.serialize_compressed(&mut b).unwrap();
                (i.sk.clone(), b)
            })
            .collect();
        let ep = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(DOM));
        let op = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(DOM));
        let tx = match quiet(|| prove_pour(ep, op, &pr, &ct, &info[0], &info[1], minted[0], ks.pk[2], minted[1], ks.pk[3], &ks.par, &mut rng)) {
            Ok(t) => t,
            Err(e) if e.contains("InvalidGeneratorsLength") && cap < 1 << 15 => {
                cap *= 2;
                continue;
            }
            Err(e) => return Err(format!("the payer panics: {}", e)),
        };
        return Ok((pr, ct, tx, ks, sk));
    }
}
pub fn honest_native<const L: usize>(n: usize, want: Option<usize>, idx: [usize; 2], spent: [u64; 2], minted: [u64; 2], seed: u64) -> Result<bool, String> {
    let (pr, ct, tx, ks, _) = honest_tx::<L>(n, want, idx, spent, minted, seed)?;
    // over the wire
    let mut b = vec![];
    tx.serialize_compressed(&mut b).map_err(|e| format!("{:?}", e))?;
    let tx = SignedTx::<NPallas, NVesta, Sg>::deserialize_compressed(&b[..]).map_err(|e| format!("{:?}", e))?;
    accepted::<L>(tx, &pr, &ct, &ks.par)
}
pub fn accepted<const L: usize>(tx: SignedTx<NPallas, NVesta, Sg>, pr: &NPr, ct: &NTree<L, 1>, par: &Parameters<Sg, Blake2s>) -> Result<bool, String> {
    let (e, o) = quiet(|| tx.verification_gadget::<L>(DOM, pr, ct, par)).map_err(|e| format!("the verifier refuses: {}", e))?;
    let a = quiet(|| batch_verify(vec![e], &pr.even_parameters.pc_gens, &pr.even_parameters.bp_gens))?;
    let b = quiet(|| batch_verify(vec![o], &pr.odd_parameters.pc_gens, &pr.odd_parameters.bp_gens))?;
    Ok(a.is_ok() && b.is_ok())
}

/// Prove the verifier's constraints with the wires of `p`, replaying what the verifier binds.
fn cheat_proof<C: AffineRepr>(p: &Prover<Transcript, C>, pc: &PedersenGens<C>, v: &Seen<C>, patch: &dyn Fn(&mut Vec<(C::ScalarField, C::ScalarField)>, usize), open: &[(C::ScalarField, Vec<C::ScalarField>)], bp: &BulletproofGens<C>) -> Result<R1CSProof<C>, String> {
    let (al, ar, _) = p.verif_gates();
    let mut wires: Vec<_> = al.iter().copied().zip(ar.iter().copied()).collect();
    patch(&mut wires, v.num_vars);
    if wires.len() < v.num_vars {
        wires.resize(v.num_vars, (C::ScalarField::zero(), C::ScalarField::zero()));
    }
    wires.truncate(v.num_vars);
    let mut q = Prover::new(pc, Transcript::new(DOM));
    let start = q.transcript().log.len();
    let mut next = 0;
    for e in &v.transcript.log[start..] {
        if let Event::Msg(l, b) = e {
            if next < open.len() {
                let mut s = vec![];
                v.vec_comms[next].0.serialize_compressed(&mut s).unwrap();
                let mut s2 = vec![];
                v.vec_comms[next].0.serialize_uncompressed(&mut s2).unwrap();
                if *b == s || *b == s2 {
                    if q.commit_vec(&open[next].1, open[next].0, bp).0 != v.vec_comms[next].0 {
                        return Err("a commitment has another opening".into());
                    }
                    next += 1;
                    continue;
                }
            }
            q.transcript().append_message(l, b);
        }
    }
    for (l, r) in wires {
        q.allocate_multiplier(Some((l, r))).map_err(|e| format!("{:?}", e))?;
    }
    for c in v.constraints.iter() {
        q.constrain(c.clone());
    }
    quiet(|| q.prove(bp)).map_err(|e| format!("prover panics: {}", e))?.map_err(|e| format!("{:?}", e))
}

/// Try a payment that uses the hole.
fn attack<const L: usize>(sh: &Shape, hole: &Hole) -> Result<bool, String> {
    if *hole == Hole::Length {
        return long::<L>(sh);
    }
    let mut rng = Rng::seed_from_u64(99);
    let ks = keys(&mut rng, 5);
    let h = {
        let pr = NPr::new(L, L);
        NTree::<L, 1>::from_set(&vec![NP::generator(); sh.n], &pr, sh.want).height()
    };
    let cap = size::<L>(h) * 2;
    let pr = NPr::new(cap, cap);
    let spent = if let Hole::Range(..) = hole { [u64::MAX; 2] } else { [5u64, 7] };
    let mut minted = [4u64, 8];
    if *hole == Hole::Balance {
        minted = [1000, 1 << 40];
    }
    let coins: Vec<_> = (0..2).map(|k| Coin::<NPallas, Sg>::new(spent[k], &ks.pk[k], &ks.par, &pr.even_parameters, &mut rng)).collect();
    // the real tree, and one the payer made up
    let mut set: Vec<NP> = (0..sh.n).map(|i| (NP::generator() * Fq::from(77 + i as u64)).into_affine()).collect();
    let mut fake = set.clone();
    let last = sh.n - 1;
    for (k, i) in [0, last].into_iter().enumerate() {
        fake[i] = coins[k].1;
        if *hole != Hole::Chain(k) {
            set[i] = coins[k].1;
        }
    }
    let ct = NTree::<L, 1>::from_set(&set, &pr, sh.want);
    let ft = NTree::<L, 1>::from_set(&fake, &pr, sh.want);
    let mut ep = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(DOM));
    let mut op = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(DOM));
    let mut coms = vec![];
    for k in 0..2 {
        coms.push(Coin::<NPallas, Sg>::mint(minted[k], &ks.pk[2 + k], &ks.par, &pr.even_parameters, &mut rng, &mut ep).1);
    }
    let mut paths = vec![];
    for (k, i) in [0, last].into_iter().enumerate() {
        let t = if *hole == Hole::Chain(k) { &ft } else { &ct };
        paths.push(quiet(|| coins[k].0.prove_spend(i, &mut ep, &mut op, &pr, t)).map_err(|e| format!("payer panics: {}", e))?.0);
    }
    let mut pk: Vec<PublicKey<Sg>> = (0..2).map(|k| Coin::<NPallas, Sg>::rerandomized_pk(&ks.pk[k], &coins[k].0.pk_randomness, &ks.par)).collect();
    let mut sk: Vec<(SecretKey<Sg>, Vec<u8>)> = (0..2)
        .map(|k| {
            let mut b = vec![];
            coins[k].0.pk_randomness.serialize_compressed(&mut b).unwrap();
            (ks.sk[k].clone(), b)
        })
        .collect();
    if let Hole::Tag(k) = hole {
        // somebody else's key
        pk[*k] = ks.pk[4];
        sk[*k] = (ks.sk[4].clone(), vec![0u8]);
    }
    if let Hole::Sign(k) = hole {
        // the inverse of the key
        pk[*k] = -pk[*k];
        let mut m = vec![];
        (-coins[*k].0.pk_randomness).serialize_compressed(&mut m).unwrap();
        sk[*k] = (SecretKey(-ks.sk[*k].0), m);
    }
    let mut open = ep.verif_openings().2.to_vec();
    let mut patch: Box<dyn Fn(&mut Vec<(Fq, Fq)>, usize)> = Box::new(|_, _| {});
    if let Hole::Range(k, b) = hole {
        // one coin of 2^64, the other one makes up for it
        let two64 = Fq::from(1u128 << 64);
        let gs: Vec<NP> = pr.even_parameters.bp_gens.share(0).G(2).cloned().collect();
        for i in 0..2 {
            let j = i;
            open[j].1[0] = if i == *k { two64 } else { two64 - Fq::from(2u64) };
            coms[i] = (gs[0] * open[j].1[0] + gs[1] * open[j].1[1] + pr.even_parameters.pc_gens.B_blinding * open[j].0).into_affine();
        }
        let (k, b) = (*k, *b);
        patch = Box::new(move |w, n| {
            // as many as the payer made
            let had = (w.len() + b[0] + b[1]).saturating_sub(n).min(w.len());
            // the bits of the range proofs come first, minted coin 0 before minted coin 1
            let rest = w.split_off(had);
            w.clear();
            for i in 0..2 {
                let v: u128 = if i == k { 1 << 64 } else { (1 << 64) - 2 };
                for t in 0..b[i] {
                    let bit = if t < 128 { Fq::from(((v >> t) & 1) as u64) } else { Fq::zero() };
                    w.push((Fq::one() - bit, bit));
                }
            }
            w.extend(rest);
        });
    }
    let mut pour = Pour::<L, NPallas, NVesta, Sg> {
        even_proof: no_proof(),
        odd_proof: no_proof(),
        randomized_path_0: paths[0].clone(),
        randomized_path_1: paths[1].clone(),
        pk0: pk[0],
        pk1: pk[1],
        minted_coin_commitment_0: coms[0],
        minted_coin_commitment_1: coms[1],
    };
    let p = pour.clone();
    let (_, mut log) = recorded(|| p.verification_gadget(DOM, &pr, &ct));
    let (es, os) = (seen::<NP>(&mut log, false), seen::<ark_vesta::Affine>(&mut log, false));
    if es.len() != 1 || os.len() != 1 {
        return Err("the verifier's constraints were not recorded".into());
    }
    pour.even_proof = cheat_proof(&ep, &pr.even_parameters.pc_gens, &es[0], &*patch, &open, &pr.even_parameters.bp_gens).map_err(|e| format!("even: {}", e))?;
    let oo = op.verif_openings().2.to_vec();
    pour.odd_proof = cheat_proof(&op, &pr.odd_parameters.pc_gens, &os[0], &|_, _| {}, &oo, &pr.odd_parameters.bp_gens).map_err(|e| format!("odd: {}", e))?;
    let tx = sign::<L>(&pour, &sk, &ks.par, &mut rng);
    accepted::<L>(tx, &pr, &ct, &ks.par)
}
/// An honest payment with commitments added to or taken from its paths: is it handed on to be checked?
fn long<const L: usize>(sh: &Shape) -> Result<bool, String> {
    let pr = NPr::new(L, L);
    let ct = NTree::<L, 1>::from_set(&(0..sh.n).map(|i| (NP::generator() * Fq::from(77 + i as u64)).into_affine()).collect::<Vec<_>>(), &pr, sh.want);
    let (ne, no) = lens(ct.height());
    let path = |k: usize| SelectAndRerandomizePath::<L, NPallas, NVesta> {
        selected_commitment: NP::generator(),
        odd_commitments: vec![ark_vesta::Affine::generator(); (no as i32 + sh.off[k].1) as usize],
        even_commitments: vec![NP::generator(); (ne as i32 + sh.off[k].0) as usize],
    };
    let pk = Sg::generator().into_affine();
    let pour = Pour::<L, NPallas, NVesta, Sg> {
        even_proof: no_proof(),
        odd_proof: no_proof(),
        randomized_path_0: path(0),
        randomized_path_1: path(1),
        pk0: pk,
        pk1: pk,
        minted_coin_commitment_0: NP::generator(),
        minted_coin_commitment_1: NP::generator(),
    };
    let (_, mut log) = {
        let p = pour.clone();
        recorded(|| p.verification_gadget(DOM, &pr, &ct))
    };
    Ok(!seen::<NP>(&mut log, false).is_empty())
}
/// Sign and transmit.
pub fn sign<const L: usize>(pour: &Pour<L, NPallas, NVesta, Sg>, sk: &[(SecretKey<Sg>, Vec<u8>)], par: &Parameters<Sg, Blake2s>, rng: &mut Rng) -> SignedTx<NPallas, NVesta, Sg> {
    let mut bytes = vec![];
    pour.serialize_compressed(&mut bytes).unwrap();
    let mut out = vec![];
    for (s, b) in sk {
        let g = Sch::sign(par, s, &bytes, rng).unwrap();
        let g = Sch::randomize_signature(par, &g, b).unwrap();
        g.prover_response.serialize_compressed(&mut out).unwrap();
        g.verifier_challenge.serialize_compressed(&mut out).unwrap();
    }
    bytes.serialize_compressed(&mut out).unwrap();
    SignedTx::deserialize_compressed(&out[..]).unwrap()
}

// ---------------------------------------------------------------- completeness

#[allow(clippy::too_many_arguments)]
fn payment<const L: usize>(r: &mut Report, z: &mut Z3, n: usize, want: Option<usize>, idx: [usize; 2], spent: [u64; 2], minted: [u64; 2], seed: u64) -> Result<(), String> {
    let mut rng = Rng::seed_from_u64(seed);
    let ks = keys(&mut rng, 4);
    let mut cap = 1024;
    let (pr, ct, tx, mut log, set) = loop {
        let pr = SelRerandParameters::<SymPallas, SymVesta>::new(cap, cap);
        // coins with symbolic blinding
        let coins: Vec<_> = (0..2).map(|k| Coin::<SymPallas, Sg>::new(spent[k], &ks.pk[k], &ks.par, &pr.even_parameters, &mut rng)).collect();
        for k in 0..2 {
            let gs: Vec<PA> = pr.even_parameters.bp_gens.share(0).G(2).cloned().collect();
            let pk = Coin::<SymPallas, Sg>::rerandomized_pk(&ks.pk[k], &coins[k].0.pk_randomness, &ks.par);
            let want = [(gs[0], SQ::from(spent[k])), (gs[1], sym_tag(&pk)), (pr.even_parameters.pc_gens.B_blinding, coins[k].0.blinding)];
            if let Some(e) = crate::p16::judge_sym::<SymPallas>(r, z, &coins[k].1, &want) {
                return Err(format!("a new coin commits to something else than its amount and the hash of the key: {}", e));
            }
        }
        let mut set: Vec<PA> = (0..n).map(|i| sym_point::<SymPallas>(&format!("leaf{}", i))).collect();
        for k in 0..2 {
            set[idx[k]] = coins[k].1;
        }
        let ct = CurveTree::<L, 1, SymPallas, SymVesta>::from_set(&set, &pr, want);
        let mut coins = coins.into_iter();
        let info: Vec<_> = (0..2)
            .map(|k| {
                let c = coins.next().unwrap().0;
                SpendingInfo { index: idx[k], randomized_pk: Coin::<SymPallas, Sg>::rerandomized_pk(&ks.pk[k], &c.pk_randomness, &ks.par), coin_aux: c, sk: ks.sk[k].clone() }
            })
            .collect();
        let ep = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(DOM));
        let op = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(DOM));
        set_const_rnd(true);
        let (tx, log) = recorded(|| prove_pour(ep, op, &pr, &ct, &info[0], &info[1], minted[0], ks.pk[2], minted[1], ks.pk[3], &ks.par, &mut rng));
        set_const_rnd(false);
        match tx {
            Ok(t) => break (pr, ct, t, log, set),
            Err(e) if e.contains("InvalidGeneratorsLength") && cap < 1 << 14 => cap *= 2,
            Err(e) => return Err(format!("the payer panics: {}", e)),
        }
    };
    let _ = set;
    let (mut ep, mut op) = (seen::<PA>(&mut log, true), seen::<Aff<SymVesta>>(&mut log, true));
    if ep.len() != 1 || op.len() != 1 {
        return Err(format!("{} even and {} odd proofs are made", ep.len(), op.len()));
    }
    let (ep, op) = (ep.remove(0), op.remove(0));
    let pour = Pour::<L, SymPallas, SymVesta, Sg>::deserialize_compressed(&tx.pour_bytes[..]).map_err(|e| format!("the payment does not decode: {:?}", e))?;
    let bytes = tx.pour_bytes.clone();
    let (vt, mut log) = recorded(|| tx.verification_gadget::<L>(DOM, &pr, &ct, &ks.par));
    let mut b = vec![];
    pour.serialize_compressed(&mut b).unwrap();
    if b != bytes {
        return Err("the payment changes in transmission".into());
    }
    vt.map_err(|e| format!("the verifier refuses: {}", e))?;
    let (mut es, mut os) = (seen::<PA>(&mut log, false), seen::<Aff<SymVesta>>(&mut log, false));
    if es.len() != 1 || os.len() != 1 {
        return Err(format!("{} even and {} odd constraint systems are checked", es.len(), os.len()));
    }
    let (ev, ov) = (view::<SymPallas>(&es.remove(0)), view::<SymVesta>(&os.remove(0)));
    let mut eg = agree_parts::<SymPallas>(r, z, sys::<SymPallas>(&ep), &ep.transcript.log, &ep.vec_open, &pr.even_parameters, &ev, "even side", true)?;
    let mut og = agree_parts::<SymVesta>(r, z, sys::<SymVesta>(&op), &op.transcript.log, &op.vec_open, &pr.odd_parameters, &ov, "odd side", true)?;
    for (i, c) in ev.coms.iter().enumerate() {
        eg.vc[i].resize(c.1, Sym::cst(Fq::zero()));
    }
    for (i, c) in ov.coms.iter().enumerate() {
        og.vc[i].resize(c.1, Sym::cst(Fp::zero()));
    }
    // minted coins
    let gs: Vec<PA> = pr.even_parameters.bp_gens.share(0).G(2).cloned().collect();
    for (k, (c, o)) in [pour.minted_coin_commitment_0, pour.minted_coin_commitment_1].iter().zip(0..2).enumerate() {
        let (bl, x) = &ep.vec_open[o];
        let want = [(gs[0], SQ::from(minted[k])), (gs[1], x[1]), (pr.even_parameters.pc_gens.B_blinding, *bl)];
        if let Some(e) = crate::p16::judge_sym::<SymPallas>(r, z, c, &want) {
            return Err(format!("minted coin {} is not worth {}: {}", k, minted[k], e));
        }
    }
    // the plain and range constraints vanish on the prover's wires; the levels by the group law
    let (ne, no) = lens(ct.height());
    let path = SymPath {
        sel: vec![pour.randomized_path_0.selected_commitment, pour.randomized_path_1.selected_commitment],
        even: pour.randomized_path_0.even_commitments.iter().chain(&pour.randomized_path_1.even_commitments).cloned().collect(),
        odd: pour.randomized_path_0.odd_commitments.iter().chain(&pour.randomized_path_1.odd_commitments).cloned().collect(),
    };
    if (path.even.len(), path.odd.len()) != (2 * ne, 2 * no) {
        // the verifier completes even roots itself
        return Err("paths of another length".into());
    }
    let mut extra: Vec<Cand<SymPallas>> = vec![];
    for j in 0..2 {
        extra.push(Cand { tag: Tag::Range { j, i: 0, bits: 64 }, run: Box::new(move |cs, vars| range_proof(cs, vars[j][0].into(), None, 64).unwrap()) });
    }
    let roots = match &ct {
        CurveTree::Even(n) => (Some(root_children::<L, 1, SymPallas, SymVesta>(n, &pr.odd_parameters.delta, 1)), None),
        CurveTree::Odd(n) => (None, Some(root_children::<L, 1, SymVesta, SymPallas>(n, &pr.even_parameters.delta, 1))),
    };
    let (st, other) = edges_of(r, z, roots, L, None, &path, &ev, &ov, &pr, extra, true)?;
    let mut nm = Norm::<Fq>::new();
    let rows: Vec<(Poly<Fq>, Poly<Fq>)> = other.iter().flat_map(|x| x.1[0]..x.1[1]).map(|k| ((*nm.sym(&eg.lc(&eg.cons[k]))).clone(), Poly::zero())).collect();
    let (v, bad) = identical(z, &rows);
    r.oblige(rows.len(), v);
    if v != Verdict::Unsat {
        return Err(format!("constraints on amounts, ranges or tags are not satisfied: {:?}", bad));
    }
    let chs = chains(&pr)?;
    for k in 0..2 {
        let mine = |w: &Who| match w {
            Who::E(i) => i / ne.max(1) == k,
            Who::O(i) => i / no.max(1) == k,
            Who::S(i) => *i == k,
            _ => false,
        };
        let part = Studied { edges: st.edges.iter().filter(|e| mine(&e.to)).cloned().collect(), returned: vec![], coms: st.coms.clone() };
        gates_hold(r, z, &ct, &path, &[idx[k], idx[k]], &pr, &chs, &part, &eg, &og)?;
    }
    Ok(())
}
fn sys<D: Side>(p: &Seen<Aff<D>>) -> GCS<D::SB> {
    let mut g = GCS::<D::SB>::new(true);
    g.gates = (0..p.num_vars).map(|i| [p.gates[0][i], p.gates[1][i], p.gates[2][i]]).collect();
    g.cons = p.constraints.iter().map(|c| c.verif_terms().to_vec()).collect();
    g.vc = p.vec_open.iter().map(|x| x.1.clone()).collect();
    g
}

fn sound<const L: usize>(r: &mut Report, z: &mut Z3, n: usize, want: Option<usize>) {
    sound_off::<L>(r, z, n, want, [(0, 0); 2])
}
fn sound_off<const L: usize>(r: &mut Report, z: &mut Z3, n: usize, want: Option<usize>, off: [(i32, i32); 2]) {
    if r.violated() {
        return;
    }
    let sh = Shape { n, want, off };
    let key = format!("verifier, L={}, {} leaves, height {:?}{}", L, n, want, if off == [(0, 0); 2] { String::new() } else { format!(", path lengths off by {:?}", off) });
    r.cases += 1;
    match verifier::<L>(r, z, &sh) {
        Ok(h) if h.is_empty() => r.sample(key),
        Ok(h) => {
            for (hole, what) in &h {
                r.replays += 1;
                match attack::<L>(&sh, hole) {
                    Ok(true) => {
                        r.violation(&key, &format!("{}; the real verifier accepts such a payment ({:?})", what, hole));
                        return;
                    }
                    _ if matches!(hole, Hole::Tag(_)) && attack::<L>(&sh, &Hole::Sign(0)) == Ok(true) => {
                        r.violation(&key, &format!("{}; the real verifier accepts a payment with the inverse of the coin's key", what));
                        return;
                    }
                    _ if matches!(hole, Hole::Tag(_)) && !native_tag() => {
                        r.violation(&key, &format!("{}; a new coin's tag is not the SHA3-512 digest of its key", what));
                        return;
                    }
                    o => r.inconclusive(format!("{}: {} ({:?} not reproduced: {:?})", key, what, hole, o)),
                }
            }
        }
        Err(e) => {
            r.replays += 1;
            for hole in [Hole::Balance, Hole::Tag(0), Hole::Tag(1), Hole::Sign(0), Hole::Range(0, [0, 64]), Hole::Range(1, [64, 0]), Hole::Chain(0), Hole::Chain(1)] {
                let a = attack::<L>(&sh, &hole);
                if std::env::var("VH_LOUD").is_ok() {
                    eprintln!("attack {:?}: {:?}", hole, a);
                }
                if a == Ok(true) {
                    r.violation(&key, &format!("{}; the real verifier accepts a payment ({:?})", e, hole));
                    return;
                }
            }
            match honest_native::<L>(n, want, [0, n - 1], [5, 7], [4, 8], 3) {
                Ok(true) => r.inconclusive(format!("{}: {}", key, e)),
                o => r.violation(&key, &format!("{}; an honest payment is refused ({:?})", e, o)),
            }
        }
    }
}
fn complete<const L: usize>(r: &mut Report, z: &mut Z3, n: usize, want: Option<usize>, idx: [usize; 2], spent: [u64; 2], minted: [u64; 2]) {
    if r.violated() {
        return;
    }
    r.cases += 1;
    let key = format!("payment, L={}, {} leaves, height {:?}, coins {:?}, amounts {:?} to {:?}", L, n, want, idx, spent, minted);
    match payment::<L>(r, z, n, want, idx, spent, minted, 7) {
        Ok(()) => r.sample(key),
        Err(e) => {
            r.oblige(1, Verdict::Sat);
            r.replays += 1;
            match honest_native::<L>(n, want, idx, spent, minted, 7) {
                Ok(true) => r.inconclusive(format!("{}: {} (accepted on the real curves)", key, e)),
                o => r.violation(&key, &format!("{}; on the real curves: {:?}", e, o)),
            }
        }
    }
}

pub fn run(r: &mut Report) {
    r.fns(&[
        "relations::coin::{Coin::new,Coin::mint,Coin::prove_spend,Coin::rerandomized_pk,prove_pour}",
        "relations::coin::{verify_mint,verify_spend_even,verify_spend_odd}",
        "relations::coin::{Pour::verification_gadget,Pour::even_verification_gadget,Pour::odd_verification_gadget,SignedTx::verification_gadget}",
    ]);
    r.explanation = "The real payment verifier runs on symbolic commitments and paths; the constraint systems it hands over are recorded and cut into single-level gadgets, range proofs and plain constraints (z3 compares every coefficient). Each spent commitment must be the end of a chain of levels from the verifier's own root; each minted amount must be in a 64-bit range proof; z3 decides that the plain constraints entail the balance and bind each tag to the hash of its key. The real payer then runs on formal points: prover and verifier must hold identical constraints, commitments and bound data, and every constraint must vanish.".into();
    let mut z = Z3::new(60_000);
    let t = r.thorough();
    const MAX: u64 = u64::MAX;
    sound::<2>(r, &mut z, 2, None);
    sound::<2>(r, &mut z, 3, None);
    sound::<3>(r, &mut z, 4, None);
    sound::<2>(r, &mut z, 2, Some(4));
    if t {
        sound::<2>(r, &mut z, 5, None);
        sound::<4>(r, &mut z, 5, Some(5));
    }
    for (n, want) in [(2, None), (3, None), (2, Some(4))] {
        let h = want.unwrap_or(n - 1);
        let (ne, no) = lens(h);
        for (e, o) in [(1, 0), (0, 1), (1, 1), (-1, 0), (0, -1), (-1, -1)] {
            if ne as i32 + e < 0 || no as i32 + o < 0 {
                continue;
            }
            for off in [[(e, o), (0, 0)], [(0, 0), (e, o)], [(e, o); 2]] {
                sound_off::<2>(r, &mut z, n, want, off);
            }
        }
    }
    complete::<2>(r, &mut z, 2, None, [0, 1], [19, 23], [11, 31]);
    complete::<2>(r, &mut z, 3, None, [2, 0], [MAX, MAX], [MAX, MAX]);
    complete::<3>(r, &mut z, 2, None, [1, 0], [0, MAX], [MAX, 0]);
    if t {
        complete::<2>(r, &mut z, 5, None, [4, 1], [1 << 63, 1 << 32], [1 << 32, 1 << 63]);
        complete::<2>(r, &mut z, 2, Some(4), [1, 1], [0, 0], [0, 0]);
        complete::<4>(r, &mut z, 6, None, [5, 3], [1, 2], [3, 0]);
    }
    r.absorb(&z);
    r.bounds.push("all commitments, paths, tags and amounts for the verifier; trees listed in the samples; payer: the listed amounts, all coin blindings and other leaves".into());
    r.assume("what a single level and a range proof guarantee is P14, P18 and P09");
    r.assume("binding of the commitments");
}
