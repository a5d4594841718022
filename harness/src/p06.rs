//! P06, P23: encodings.  The compiled encoders and decoders are decided by Kani (CBMC) on a stand-in curve whose
//! points are bytes; the real curves are used for replay.
use crate::common::*;
use crate::kani::run_many;
use crate::sysrun::*;
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ff::UniformRand;
use ark_pallas::PallasConfig;
use ark_serialize::*;
use ark_vesta::VestaConfig;
use bulletproofs::r1cs::*;
use merlin::Transcript;
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use relations::coin::{Pour, SignedTx};
use relations::curve_tree::*;

fn solver(r: &mut Report, filters: &[&str], expect: usize, native: &mut dyn FnMut(&mut Report) -> Option<(String, String)>) {
    let m = run_many(filters, &[("KP_EXPECT", "/dev/null")], 800);
    r.cases += m.ok.len() + m.failed.len();
    r.oblige(m.ok.len(), Verdict::Unsat);
    r.unsat += m.ok.len();
    r.queries += m.ok.len() + m.failed.len();
    r.solver_s += m.solver_s;
    r.vacuity_witnesses += m.covers;
    r.sample(format!("Kani: {} harnesses hold, {} fail, {} reach their end; {:.0}s wall", m.ok.len(), m.failed.len(), m.covers, m.secs));
    for h in &m.ok {
        r.sample(h.clone());
    }
    let nat = native(r);
    if !m.failed.is_empty() {
        r.oblige(m.failed.len(), Verdict::Sat);
        r.sat += m.failed.len();
    }
    match (&nat, m.failed.is_empty()) {
        (Some((k, d)), _) => {
            let f: Vec<String> = m.failed.iter().map(|x| format!("{}: {}", x.0, x.1)).collect();
            r.violation(k, &format!("{}\nsolver: {}", d, if f.is_empty() { "no harness fails".into() } else { f.join(" | ") }));
        }
        (None, false) => r.inconclusive(format!("harnesses fail on the stand-in curve but not on the real one: {:?}", m.failed)),
        (None, true) => {
            if !m.complete || m.ok.len() != expect || m.covers != expect {
                r.inconclusive(format!("{} of {} harnesses decided ({} reach their end): {}", m.ok.len(), expect, m.covers, m.tail));
            }
        }
    }
}

fn pt<P: SWCurveConfig>(g: &mut StdRng) -> Affine<P> {
    Affine::<P>::rand(g)
}
fn parts<P: SWCurveConfig>(g: &mut StdRng, mask: u8, t: usize, l: usize, r: usize) -> VerifProofParts<Affine<P>> {
    let mut k = 0;
    let points = [(); 6].map(|_| {
        k += 1;
        if k > 3 && mask >> (k - 4) & 1 == 0 {
            Affine::zero()
        } else {
            pt(g)
        }
    });
    VerifProofParts {
        points,
        T: (0..t).map(|_| pt(g)).collect(),
        scalars: [(); 3].map(|_| P::ScalarField::rand(g)),
        L: (0..l).map(|_| pt(g)).collect(),
        R: (0..r).map(|_| pt(g)).collect(),
        a: P::ScalarField::rand(g),
        b: P::ScalarField::rand(g),
    }
}
fn same<P: SWCurveConfig>(p: &R1CSProof<Affine<P>>, q: &R1CSProof<Affine<P>>) -> bool {
    let (p, q) = (p.verif_parts(), q.verif_parts());
    p.points == q.points && p.T == q.T && p.scalars == q.scalars && p.L == q.L && p.R == q.R && p.a == q.a && p.b == q.b
}
/// Encode, compare the announced size, decode; `Err` names what fails.
fn back<T: CanonicalSerialize + CanonicalDeserialize>(x: &T, m: Compress, same: &dyn Fn(&T, &T) -> bool, sized: bool) -> Result<Vec<u8>, String> {
    let mut b = vec![];
    quiet(|| x.serialize_with_mode(&mut b, m)).map_err(|e| format!("encoding panics: {}", e))?.map_err(|e| format!("encoding fails: {:?}", e))?;
    if sized && b.len() != x.serialized_size(m) {
        return Err(format!("{} bytes are written, {} announced", b.len(), x.serialized_size(m)));
    }
    for v in [Validate::Yes, Validate::No] {
        let mut rd = &b[..];
        let y = quiet(|| T::deserialize_with_mode(&mut rd, m, v)).map_err(|e| format!("decoding panics: {}", e))?.map_err(|e| format!("decoding fails: {:?}", e))?;
        if !same(x, &y) {
            return Err("the decoded value differs".into());
        }
        if !rd.is_empty() {
            return Err(format!("{} bytes are left unread", rd.len()));
        }
    }
    Ok(b)
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn battery<P: SWCurveConfig>(curve: &str) -> Option<(String, String)> {
    let mut g = StdRng::seed_from_u64(11);
    for mask in 0..8u8 {
        for (t, l, rr) in [(0, 0, 0), (1, 1, 1), (2, 1, 2), (5, 3, 3), (4, 2, 1)] {
            for m in [Compress::Yes, Compress::No] {
                let q = R1CSProof::<Affine<P>>::verif_from_parts(parts::<P>(&mut g, mask, t, l, rr));
                let key = format!("{} second-phase points {:03b}, T {}, L {}, R {}, {}", curve, mask, t, l, rr, if let Compress::Yes = m { "compressed" } else { "uncompressed" });
                let b = match back(&q, m, &|p, q| same(p, q), l == rr) {
                    Ok(b) => b,
                    Err(e) => return Some((key, format!("native replay: {}", e))),
                };
                if t + l < 3 && (mask == 0 || mask == 7) {
                    for k in 0..b.len() {
                        if let Ok(Ok(_)) = quiet(|| R1CSProof::<Affine<P>>::deserialize_with_mode(&b[..k], m, Validate::Yes)) {
                            return Some((key, format!("native replay: the first {} of {} bytes decode: {}", k, b.len(), hex(&b))));
                        }
                    }
                    let at = 3 * Affine::<P>::generator().serialized_size(m);
                    for f in 2..=255u8 {
                        let mut c = b.clone();
                        c[at] = f;
                        if let Ok(Ok(_)) = quiet(|| R1CSProof::<Affine<P>>::deserialize_with_mode(&c[..], m, Validate::Yes)) {
                            return Some((key, format!("native replay: phase marker {} decodes: {}", f, hex(&c))));
                        }
                    }
                }
                let by = quiet(|| q.to_bytes());
                match by.and_then(|b| quiet(|| R1CSProof::<Affine<P>>::from_bytes(&b))) {
                    Ok(Ok(p)) if same(&p, &q) => {}
                    x => return Some((key, format!("native replay: to_bytes and from_bytes give {}", match x { Ok(Ok(_)) => "another proof".into(), Ok(Err(e)) => format!("{:?}", e), Err(e) => e }))),
                }
            }
        }
    }
    None
}

fn honest() -> Option<(String, String)> {
    let (pc, bp) = native_gens(16);
    let s = |m, vecs: &[usize], g1, c1, stride| Spec { m, vecs: vecs.to_vec(), g1, c1, stride, ..Default::default() };
    for sp in [s(1, &[], 1, 1, 1), s(0, &[3], 2, 2, 2), s(0, &[1, 1], 5, 1, 1), Spec { phase2: true, g2: 1, c2: 1, ..s(1, &[], 1, 1, 1) }, Spec { phase2: true, g2: 0, c2: 1, ..s(1, &[2], 1, 1, 1) }] {
        let mut c = 5u64;
        let src = memo_src(move |_| {
            c = c.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            Fq::from(c)
        });
        let Ok(Ok(p)) = quiet(|| prove::<NP>(&sp, &src, pc, bp)) else { continue };
        let Ok(Ok(q)) = quiet(|| R1CSProof::<NP>::from_bytes(&p.proof.to_bytes())) else {
            return Some((sp.show(), "native replay: the encoding of an honest proof is refused".into()));
        };
        let verdict = |q: &R1CSProof<NP>| {
            let mut tr = Transcript::new(b"sys");
            let vf = verifier::<NP>(&sp, &src, &p.ks, &p.v, &p.vc, &mut tr);
            matches!(quiet(|| vf.verify(q, pc, bp)), Ok(Ok(())))
        };
        if verdict(&p.proof) && !verdict(&q) {
            return Some((sp.show(), "native replay: a proof that verifies is refused after encoding and decoding".into()));
        }
    }
    None
}

pub fn run(r: &mut Report) {
    r.explanation = "The compiled encoder and decoder of R1CSProof (and of the inner product proof inside it) are executed symbolically by Kani/CBMC on a stand-in curve with byte-sized points and scalars: every point, scalar and marker byte is symbolic; the shape (which second-phase points are the identity, numbers of T, L, R, compressed or not) is fixed per harness. The solver shows that decoding returns exactly the encoded elements and reads exactly the bytes written, that the announced size is that number, that every strict prefix and every marker other than the two defined ones is refused. Decoding being the inverse, distinct proofs have distinct encodings. The same statements are exercised on Pallas and Vesta, where a failed harness must be reproduced to be reported.".into();
    r.fns(&["R1CSProof::{serialize_with_mode,serialized_size,deserialize_with_mode,to_bytes,from_bytes,missing_phase2_commitments}", "InnerProductProof::{serialize_with_mode,serialized_size,deserialize_with_mode}"]);
    r.assume("the encoding of one point or scalar (ark-ec, ark-ff) is injective, prefix-free per mode and decodes to itself; the code under check treats them as opaque");
    r.outside.push("longer vectors than those listed; the announced size of proofs with different numbers of L and R (no verifier accepts them)".into());
    r.bounds.push("all values of all elements; second-phase identity patterns: all 8; up to 5 T, 2 L and R (thorough: 9 and 4); both modes; all strict prefixes of two shapes; all 254 invalid markers".into());
    let mut f = vec!["enc::pf_"];
    let mut n = 28;
    if r.thorough() {
        f.push("enc::deep_pf_");
        n += 8;
    }
    solver(r, &f, n, &mut |r| {
        r.replays += 1;
        battery::<PallasConfig>("Pallas").or_else(|| battery::<VestaConfig>("Vesta")).or_else(honest)
    });
}

type Path = SelectAndRerandomizePath<4, PallasConfig, VestaConfig>;
type Multi<const M: usize> = SelectAndRerandomizeMultiPath<4, M, PallasConfig, VestaConfig>;
type G = ark_pallas::Projective;
type ThePour = Pour<4, PallasConfig, VestaConfig, G>;
type Tx = SignedTx<PallasConfig, VestaConfig, G>;
fn a_path(g: &mut StdRng, o: usize, e: usize) -> Path {
    Path { selected_commitment: pt(g), odd_commitments: (0..o).map(|_| pt(g)).collect(), even_commitments: (0..e).map(|_| pt(g)).collect() }
}
fn same_path(p: &Path, q: &Path) -> bool {
    p.selected_commitment == q.selected_commitment && p.odd_commitments == q.odd_commitments && p.even_commitments == q.even_commitments
}
fn multi<const M: usize>(g: &mut StdRng, o: usize, e: usize, m: Compress) -> Result<(), String> {
    let x = Multi::<M> { selected_commitments: [(); M].map(|_| pt(g)), odd_commitments: (0..o).map(|_| pt(g)).collect(), even_commitments: (0..e).map(|_| pt(g)).collect() };
    let enc = |x: &Multi<M>| -> Result<Vec<u8>, String> {
        let mut b = vec![];
        quiet(|| x.serialize_with_mode(&mut b, m)).map_err(|e| format!("encoding panics: {}", e))?.map_err(|e| format!("encoding fails: {:?}", e))?;
        Ok(b)
    };
    let b = enc(&x)?;
    if b.len() != x.serialized_size(m) {
        return Err(format!("{} bytes are written, {} announced", b.len(), x.serialized_size(m)));
    }
    for k in 0..M + o + e {
        let mut y = x.clone();
        if k < M {
            y.selected_commitments[k] = pt(g);
        } else if k < M + o {
            y.odd_commitments[k - M] = pt(g);
        } else {
            y.even_commitments[k - M - o] = pt(g);
        }
        if enc(&y)? == b {
            return Err(format!("element {} is not part of the encoding", k));
        }
    }
    Ok(())
}
fn battery23() -> Option<(String, String)> {
    let g = &mut StdRng::seed_from_u64(12);
    for m in [Compress::Yes, Compress::No] {
        let ms = if let Compress::Yes = m { "compressed" } else { "uncompressed" };
        for (o, e) in [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (2, 2), (3, 2)] {
            let x = a_path(g, o, e);
            if let Err(e2) = back(&x, m, &same_path, true) {
                return Some((format!("path {} odd {} even {}", o, e, ms), format!("native replay: {}", e2)));
            }
            for (k, res) in [multi::<1>(g, o, e, m), multi::<2>(g, o, e, m), multi::<3>(g, o, e, m)].into_iter().enumerate() {
                if let Err(e2) = res {
                    return Some((format!("path of {} leaves, {} odd {} even {}", k + 1, o, e, ms), format!("native replay: {}", e2)));
                }
            }
            for (ma, mb) in [(0, 0), (0, 7), (7, 0), (7, 7), (2, 5)] {
                let p = ThePour {
                    even_proof: R1CSProof::verif_from_parts(parts::<PallasConfig>(g, ma, 2, 1, 1)),
                    odd_proof: R1CSProof::verif_from_parts(parts::<VestaConfig>(g, mb, 1, 2, 2)),
                    randomized_path_0: x.clone(),
                    randomized_path_1: a_path(g, e, o),
                    pk0: pt(g),
                    pk1: pt(g),
                    minted_coin_commitment_0: pt(g),
                    minted_coin_commitment_1: pt(g),
                };
                let b = back(
                    &p,
                    m,
                    &|x, y| {
                        same(&x.even_proof, &y.even_proof)
                            && same(&x.odd_proof, &y.odd_proof)
                            && same_path(&x.randomized_path_0, &y.randomized_path_0)
                            && same_path(&x.randomized_path_1, &y.randomized_path_1)
                            && x.pk0 == y.pk0
                            && x.pk1 == y.pk1
                            && x.minted_coin_commitment_0 == y.minted_coin_commitment_0
                            && x.minted_coin_commitment_1 == y.minted_coin_commitment_1
                    },
                    true,
                );
                let b = match b {
                    Ok(b) => b,
                    Err(e2) => return Some((format!("payment, phases {} and {}, paths {} and {} {}", ma, mb, o, e, ms), format!("native replay: {}", e2))),
                };
                // a signed payment around it
                let z = [0u8; 4096];
                let Ok(Ok(mut t)) = quiet(|| Tx::deserialize_compressed(&z[..])) else { return Some(("zeros".into(), "native replay: a signed payment of zeros fails to decode".into())) };
                for bytes in [b.clone(), vec![], (0..9).map(|_| g.gen()).collect()] {
                    t.pour_bytes = bytes;
                    t.signature_prover_response_0 = UniformRand::rand(g);
                    t.signature_prover_response_1 = UniformRand::rand(g);
                    t.signature_verifier_challenge_0 = UniformRand::rand(g);
                    t.signature_verifier_challenge_1 = UniformRand::rand(g);
                    let res = back(
                        &t,
                        m,
                        &|x, y| {
                            x.pour_bytes == y.pour_bytes
                                && x.signature_prover_response_0 == y.signature_prover_response_0
                                && x.signature_prover_response_1 == y.signature_prover_response_1
                                && x.signature_verifier_challenge_0 == y.signature_verifier_challenge_0
                                && x.signature_verifier_challenge_1 == y.signature_verifier_challenge_1
                        },
                        true,
                    );
                    if let Err(e2) = res {
                        return Some((format!("signed payment of {} bytes {}", t.pour_bytes.len(), ms), format!("native replay: {}", e2)));
                    }
                }
            }
        }
    }
    None
}
pub fn run23(r: &mut Report) {
    r.explanation = "The compiled encoders and decoders of membership paths, payments and signed payments are executed symbolically by Kani/CBMC on a pair of stand-in curves with distinguishable byte-sized points: all points, scalars, keys and payload bytes are symbolic, the shape (path lengths, proof shapes, payload length, mode) is fixed per harness. The solver shows that decoding returns exactly the encoded contents, reads exactly the bytes written, and that the announced size is that number; for batched paths, which have no decoder, that equal encodings mean equal contents. Failed harnesses are reproduced on Pallas/Vesta.".into();
    r.fns(&["SelectAndRerandomizePath::{serialize_with_mode,serialized_size,deserialize_with_mode}", "SelectAndRerandomizeMultiPath::{serialize_with_mode,serialized_size}", "Pour::{serialize_with_mode,serialized_size,deserialize_with_mode}", "SignedTx::{serialize_with_mode,serialized_size,deserialize_with_mode}"]);
    r.assume("the encoding of one point or scalar (ark-ec, ark-ff) is injective, prefix-free per mode and decodes to itself; the code under check treats them as opaque");
    r.outside.push("longer paths, payloads and proofs than those listed".into());
    r.bounds.push("all values; paths of up to 3 odd and 2 even nodes, batched paths of 1 to 3 leaves, payments with one- and two-phase proofs and paths of 0 to 2 levels, payloads of up to 9 bytes; both modes".into());
    let mut f = vec!["enc::pa_", "enc::mu_", "enc::tx_", "enc::po_"];
    let mut n = 16;
    if r.thorough() {
        f.push("enc::deep_po_");
        f.push("enc::deep_pa_");
        n += 4;
    }
    solver(r, &f, n, &mut |r| {
        r.replays += 1;
        battery23()
    });
}
