//! P06: the proof encoding, on the stand-in curve.
use crate::curve::*;
use crate::w::W;
use ark_serialize::*;
use bulletproofs::r1cs::*;

fn parts(phase2: u8, t: usize, l: usize, r: usize) -> VerifProofParts<P0> {
    VerifProofParts {
        points: [pt(), pt(), pt(), pt_is(phase2 & 1 == 0), pt_is(phase2 & 2 == 0), pt_is(phase2 & 4 == 0)],
        T: pts(t),
        scalars: [sc(), sc(), sc()],
        L: pts(l),
        R: pts(r),
        a: sc(),
        b: sc(),
    }
}
fn same(p: &VerifProofParts<P0>, q: &VerifProofParts<P0>) -> bool {
    eqs(&p.points, &q.points) & eqs(&p.T, &q.T) & (p.scalars == q.scalars) & eqs(&p.L, &q.L) & eqs(&p.R, &q.R) & (p.a == q.a) & (p.b == q.b)
}
const N: usize = 64;
/// Values of all elements are symbolic; the numbers of elements, which second-phase points are the identity
/// and the mode are fixed per harness.
fn round_trip(m: Compress, phase2: u8, t: usize, l: usize, r: usize) {
    let p = parts(phase2, t, l, r);
    let q = R1CSProof::<P0>::verif_from_parts(p.clone());
    let mut w = Buf::<N>::new();
    let ok = q.serialize_with_mode(&mut w, m).is_ok();
    assert!(ok, "a proof fails to encode");
    // proofs with different numbers of L and R are refused by every verifier; only their contents are compared
    assert!(l != r || w.n == q.serialized_size(m), "the announced size differs from the bytes written");
    match R1CSProof::<P0>::deserialize_with_mode(&mut w, m, Validate::No) {
        Ok(q) => {
            assert!(same(&p, &q.verif_parts()), "the decoded proof differs");
            assert!(w.pos == w.n, "decoding leaves bytes unread");
        }
        Err(_) => assert!(false, "an encoded proof fails to decode"),
    }
    kani::cover!(true, "reached");
}
/// The same through `to_bytes` and `from_bytes`.
fn bytes(phase2: u8, t: usize, l: usize) {
    let p = parts(phase2, t, l, l);
    let q = R1CSProof::<P0>::verif_from_parts(p.clone());
    match R1CSProof::<P0>::from_bytes(&q.to_bytes()) {
        Ok(q) => assert!(same(&p, &q.verif_parts()), "the decoded proof differs"),
        Err(_) => assert!(false, "an encoded proof fails to decode"),
    }
    kani::cover!(true, "reached");
}
/// The first k bytes of an encoding, for every k short of all, are refused.
fn prefix(m: Compress, phase2: u8, t: usize, l: usize, lo: usize, hi: usize) {
    let p = parts(phase2, t, l, l);
    let q = R1CSProof::<P0>::verif_from_parts(p);
    let mut w = Buf::<N>::new();
    let _ = q.serialize_with_mode(&mut w, m);
    let n = w.n;
    for k in lo..hi {
        if k < n {
            w.pos = 0;
            w.n = k;
            assert!(R1CSProof::<P0>::deserialize_with_mode(&mut w, m, Validate::No).is_err(), "a truncated encoding decodes");
        }
    }
    kani::cover!(true, "reached");
}
/// Any byte other than the two markers in the marker's place is refused.
fn marker(m: Compress, phase2: u8) {
    let p = parts(phase2, 0, 0, 0);
    let q = R1CSProof::<P0>::verif_from_parts(p);
    let mut w = Buf::<N>::new();
    let _ = q.serialize_with_mode(&mut w, m);
    let at = match m {
        Compress::Yes => 3,
        Compress::No => 6,
    };
    let f: u8 = kani::any();
    kani::assume(f > 1);
    w.b[at] = f;
    assert!(R1CSProof::<P0>::deserialize_with_mode(&mut w, m, Validate::No).is_err(), "an unknown phase marker decodes");
    kani::cover!(true, "reached");
}
macro_rules! h {
    ($($n:ident: $e:expr;)*) => { $( #[kani::proof] #[kani::unwind(12)] fn $n() { $e } )* };
}
use Compress::{No as U, Yes as C};
h! {
    pf_c0: round_trip(C, 0, 2, 1, 1);
    pf_c1: round_trip(C, 1, 2, 1, 1);
    pf_c2: round_trip(C, 2, 2, 1, 1);
    pf_c3: round_trip(C, 3, 2, 1, 1);
    pf_c4: round_trip(C, 4, 2, 1, 1);
    pf_c5: round_trip(C, 5, 2, 1, 1);
    pf_c6: round_trip(C, 6, 2, 1, 1);
    pf_c7: round_trip(C, 7, 2, 1, 1);
    pf_u0: round_trip(U, 0, 1, 1, 1);
    pf_u5: round_trip(U, 5, 1, 1, 1);
    pf_u7: round_trip(U, 7, 1, 1, 1);
    pf_c_none: round_trip(C, 0, 0, 0, 0);
    pf_c_long: round_trip(C, 7, 5, 2, 2);
    pf_c_odd: round_trip(C, 0, 1, 2, 1);
    pf_u_odd: round_trip(U, 7, 0, 0, 1);
    pf_cut_a0: prefix(C, 0, 1, 1, 0, 10);
    pf_cut_a1: prefix(C, 0, 1, 1, 10, 20);
    pf_cut_a2: prefix(C, 0, 1, 1, 20, 30);
    pf_cut_a3: prefix(C, 0, 1, 1, 30, 40);
    pf_cut_b0: prefix(C, 7, 1, 1, 0, 10);
    pf_cut_b1: prefix(C, 7, 1, 1, 10, 20);
    pf_cut_b2: prefix(C, 7, 1, 1, 20, 30);
    pf_cut_b3: prefix(C, 7, 1, 1, 30, 40);
    pf_bytes: bytes(7, 2, 1);
    pf_bytez: bytes(0, 1, 0);
    pf_mark_c: marker(C, 0);
    pf_mark_d: marker(C, 7);
    pf_mark_u: marker(U, 0);
}

// ---- P23: paths, payments, signed payments
use ark_ec::short_weierstrass::Projective;
use relations::coin::{Pour, SignedTx};
use relations::curve_tree::*;

fn size_and_back<T: CanonicalSerialize + CanonicalDeserialize, const M: usize>(x: &T, m: Compress, same: impl Fn(&T, &T) -> bool) {
    let mut w = Buf::<M>::new();
    assert!(x.serialize_with_mode(&mut w, m).is_ok(), "a value fails to encode");
    assert!(w.n == x.serialized_size(m), "the announced size differs from the bytes written");
    match T::deserialize_with_mode(&mut w, m, Validate::No) {
        Ok(y) => {
            assert!(same(x, &y), "the decoded value differs");
            assert!(w.pos == w.n, "decoding leaves bytes unread");
        }
        Err(_) => assert!(false, "an encoded value fails to decode"),
    }
    kani::cover!(true, "reached");
}
type Path = SelectAndRerandomizePath<2, K0, K1>;
fn a_path(odd: usize, even: usize) -> Path {
    Path { selected_commitment: pt(), odd_commitments: pts(odd), even_commitments: pts(even) }
}
fn same_path(p: &Path, q: &Path) -> bool {
    eq(&p.selected_commitment, &q.selected_commitment) & eqs(&p.odd_commitments, &q.odd_commitments) & eqs(&p.even_commitments, &q.even_commitments)
}
fn path(m: Compress, odd: usize, even: usize) {
    size_and_back::<_, 64>(&a_path(odd, even), m, same_path)
}
/// Batched paths have no decoder: the announced size is right and no two of one shape share an encoding.
fn multi<const M: usize>(m: Compress, odd: usize, even: usize) {
    let mk = || SelectAndRerandomizeMultiPath::<2, M, K0, K1> { selected_commitments: [(); M].map(|_| pt()), odd_commitments: pts(odd), even_commitments: pts(even) };
    let (p, q) = (mk(), mk());
    let (mut w, mut x) = (Buf::<N>::new(), Buf::<N>::new());
    assert!(p.serialize_with_mode(&mut w, m).is_ok() & q.serialize_with_mode(&mut x, m).is_ok(), "a value fails to encode");
    assert!(w.n == p.serialized_size(m), "the announced size differs from the bytes written");
    let same = eqs(&p.selected_commitments, &q.selected_commitments) & eqs(&p.odd_commitments, &q.odd_commitments) & eqs(&p.even_commitments, &q.even_commitments);
    let mut enc = w.n == x.n;
    for i in 0..N {
        enc = enc & (w.b[i] == x.b[i]);
    }
    assert!(same == enc, "two batched paths share an encoding");
    kani::cover!(same, "equal");
    kani::cover!(!same, "different");
}
fn parts_of<C: ark_ec::short_weierstrass::SWCurveConfig<BaseField = W, ScalarField = W>>(two: bool, t: usize, l: usize) -> VerifProofParts<ark_ec::short_weierstrass::Affine<C>> {
    VerifProofParts {
        points: [pt(), pt(), pt(), pt_is(!two), pt_is(!two), pt_is(!two)],
        T: pts(t),
        scalars: [sc(), sc(), sc()],
        L: pts(l),
        R: pts(l),
        a: sc(),
        b: sc(),
    }
}
fn same_parts<C: ark_ec::short_weierstrass::SWCurveConfig<BaseField = W, ScalarField = W>>(p: &VerifProofParts<ark_ec::short_weierstrass::Affine<C>>, q: &VerifProofParts<ark_ec::short_weierstrass::Affine<C>>) -> bool {
    eqs(&p.points, &q.points) & eqs(&p.T, &q.T) & (p.scalars == q.scalars) & eqs(&p.L, &q.L) & eqs(&p.R, &q.R) & (p.a == q.a) & (p.b == q.b)
}
type G = Projective<K0>;
type ThePour = Pour<2, K0, K1, G>;
fn pour(m: Compress, even: (bool, usize, usize), odd: (bool, usize, usize), p0: (usize, usize), p1: (usize, usize)) {
    let x = ThePour {
        even_proof: R1CSProof::verif_from_parts(parts_of(even.0, even.1, even.2)),
        odd_proof: R1CSProof::verif_from_parts(parts_of(odd.0, odd.1, odd.2)),
        randomized_path_0: a_path(p0.0, p0.1),
        randomized_path_1: a_path(p1.0, p1.1),
        pk0: pt(),
        pk1: pt(),
        minted_coin_commitment_0: pt(),
        minted_coin_commitment_1: pt(),
    };
    size_and_back::<_, 160>(&x, m, |x, y| {
        same_parts(&x.even_proof.verif_parts(), &y.even_proof.verif_parts())
            & same_parts(&x.odd_proof.verif_parts(), &y.odd_proof.verif_parts())
            & same_path(&x.randomized_path_0, &y.randomized_path_0)
            & same_path(&x.randomized_path_1, &y.randomized_path_1)
            & eq(&x.pk0, &y.pk0)
            & eq(&x.pk1, &y.pk1)
            & eq(&x.minted_coin_commitment_0, &y.minted_coin_commitment_0)
            & eq(&x.minted_coin_commitment_1, &y.minted_coin_commitment_1)
    })
}
type Tx = SignedTx<K0, K1, G>;
fn tx(m: Compress, n: usize) {
    // a private marker field: start from any decoded value
    let z = [0u8; 64];
    let mut x = match Tx::deserialize_with_mode(&z[..], m, Validate::No) {
        Ok(x) => x,
        Err(_) => {
            assert!(false, "zeros fail to decode");
            return;
        }
    };
    x.signature_prover_response_0 = sc();
    x.signature_verifier_challenge_0 = sc();
    x.signature_prover_response_1 = sc();
    x.signature_verifier_challenge_1 = sc();
    let mut b = Vec::new();
    for _ in 0..n {
        b.push(kani::any());
    }
    x.pour_bytes = b;
    size_and_back::<_, 64>(&x, m, |x, y| {
        let mut ok = x.pour_bytes.len() == y.pour_bytes.len();
        if ok {
            for i in 0..x.pour_bytes.len() {
                ok = ok & (x.pour_bytes[i] == y.pour_bytes[i]);
            }
        }
        ok & (x.signature_prover_response_0 == y.signature_prover_response_0)
            & (x.signature_verifier_challenge_0 == y.signature_verifier_challenge_0)
            & (x.signature_prover_response_1 == y.signature_prover_response_1)
            & (x.signature_verifier_challenge_1 == y.signature_verifier_challenge_1)
    })
}
h! {
    pa_c00: path(C, 0, 0);
    pa_c10: path(C, 1, 0);
    pa_c11: path(C, 1, 1);
    pa_c32: path(C, 3, 2);
    pa_u01: path(U, 0, 1);
    pa_u22: path(U, 2, 2);
}
macro_rules! h64 {
    ($($n:ident: $e:expr;)*) => { $( #[kani::proof] #[kani::unwind(66)] fn $n() { $e } )* };
}
h64! {
    mu_c1: multi::<1>(C, 1, 1);
    mu_c2: multi::<2>(C, 2, 1);
    mu_u3: multi::<3>(U, 1, 2);
    tx_c0: tx(C, 0);
    tx_c3: tx(C, 3);
    tx_c9: tx(C, 9);
    tx_u2: tx(U, 2);
}
h! {
    po_c: pour(C, (false, 1, 0), (true, 1, 1), (1, 0), (0, 1));
    po_d: pour(C, (true, 2, 1), (false, 1, 0), (1, 1), (1, 1));
    po_u: pour(U, (false, 0, 0), (false, 1, 0), (0, 0), (1, 0));
}
// thorough tier
h! {
    deep_pf_c9: round_trip(C, 7, 9, 4, 4);
    deep_pf_u4: round_trip(U, 3, 4, 2, 2);
    deep_pf_c4: round_trip(C, 0, 6, 3, 3);
    deep_pf_u1: round_trip(U, 1, 2, 1, 1);
    deep_pf_u2: round_trip(U, 2, 2, 1, 1);
    deep_pf_u6: round_trip(U, 6, 2, 1, 1);
    deep_pf_cut_u0: prefix(U, 0, 0, 0, 0, 10);
    deep_pf_cut_u1: prefix(U, 0, 0, 0, 10, 20);
    deep_pa_c65: path(C, 6, 5);
    deep_pa_u43: path(U, 4, 3);
    deep_po_c: pour(C, (true, 3, 2), (true, 2, 1), (2, 1), (1, 2));
    deep_po_u: pour(U, (true, 1, 0), (false, 1, 1), (1, 1), (1, 0));
}
