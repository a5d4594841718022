//! P22: signatures on payments.  The signature scheme runs over a lifted curve: keys are formal points, responses and
//! challenges symbols; every comparison of signature scalars is decided both ways.
use crate::common::*;
use crate::gadget::*;
use crate::p21::*;
use crate::path::*;
use ark_crypto_primitives::signature::schnorr::{Parameters, PublicKey, Schnorr, SecretKey, Signature};
use ark_crypto_primitives::signature::SignatureScheme;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use blake2::{Blake2s256 as Blake2s, Digest};
use bulletproofs::r1cs::*;
use merlin::Transcript;
use rand::SeedableRng;
use relations::coin::*;
use std::collections::HashMap;
use std::sync::atomic::Ordering;

type SSg = ark_ec::short_weierstrass::Projective<SymPallas>;
type SSch = Schnorr<SSg, Blake2s>;
type Sch = Schnorr<Sg, Blake2s>;
type Rng = rand::rngs::StdRng;
type Cmp = (u32, u32);

/// A payment with symbolic keys and signatures.
struct Case {
    par: Parameters<SSg, Blake2s>,
    pk: [PA; 2],
    resp: [SQ; 2],
    chal: [SQ; 2],
    bytes: Vec<u8>,
}
impl Case {
    fn tx(&self) -> SignedTx<NPallas, NVesta, SSg> {
        let mut b = vec![];
        for k in 0..2 {
            self.resp[k].serialize_compressed(&mut b).unwrap();
            self.chal[k].serialize_compressed(&mut b).unwrap();
        }
        self.bytes.serialize_compressed(&mut b).unwrap();
        SignedTx::deserialize_compressed(&b[..]).unwrap()
    }
    fn claimed(&self, k: usize) -> [(PA, SQ); 2] {
        [(self.par.generator, self.resp[k]), (self.pk[k], self.chal[k])]
    }
    /// The challenge that makes signature k valid.
    fn digest(&self, k: usize) -> Option<Fq> {
        let mut h = vec![];
        self.par.salt.serialize_compressed(&mut h).unwrap();
        shadow_pt::<SymPallas>(&lin_comb::<SymPallas>(&self.claimed(k))).serialize_compressed(&mut h).unwrap();
        self.bytes.as_slice().serialize_compressed(&mut h).unwrap();
        Fq::from_random_bytes(&Blake2s::digest(&h))
    }
}
/// z3: is the encoded point this combination, whatever the values?
fn encoded_as(r: &mut Report, z: &mut Z3, log: &[(Vec<u8>, Terms<Fq>)], want: &[(PA, SQ)], least: usize) -> Result<(), String> {
    let sh = shadow_pt::<SymPallas>(&lin_comb::<SymPallas>(want));
    let mut b = vec![];
    sh.serialize_compressed(&mut b).unwrap();
    let hits: Vec<_> = log.iter().filter(|x| x.0 == b).collect();
    if hits.len() < least {
        return Err("the commitment of a signature is not encoded".into());
    }
    for h in hits {
        if let Some(e) = crate::p16::judge_sym::<SymPallas>(r, z, &point_of_terms::<SymPallas>(&h.1, sh), want) {
            return Err(format!("another point is hashed: {}", e));
        }
    }
    Ok(())
}

/// Outcome of the real verifier on every combination of outcomes of its comparisons.
#[allow(clippy::type_complexity)]
fn paths<const L: usize>(r: &mut Report, c: &Case, nat: &Native<L>) -> Result<(Vec<(Vec<(Cmp, bool)>, bool)>, Vec<(Vec<u8>, Terms<Fq>)>), String> {
    let mut work: Vec<Vec<(Cmp, bool)>> = vec![vec![]];
    let mut out = vec![];
    SymPallas::ser_log().lock().unwrap().clear();
    while let Some(plan) = work.pop() {
        if out.len() > 64 {
            return Err("more than 64 paths through the signature checks".into());
        }
        let tx = c.tx();
        *FORCE.lock().unwrap() = Some(Force { plan: plan.iter().copied().collect::<HashMap<_, _>>(), met: vec![] });
        FORCING.store(true, Ordering::SeqCst);
        SER_ON.store(true, Ordering::SeqCst);
        let v = quiet(|| tx.verification_gadget::<L>(DOM, &nat.0, &nat.1, &c.par));
        SER_ON.store(false, Ordering::SeqCst);
        FORCING.store(false, Ordering::SeqCst);
        let met = FORCE.lock().unwrap().take().unwrap().met;
        r.paths += 1;
        if std::env::var("VH_LOUD").is_ok() {
            eprintln!("path {:?} -> {:?}", met, v.as_ref().map(|_| ()));
        }
        for i in 0..met.len() {
            if plan.iter().any(|p| p.0 == met[i].0) {
                continue;
            }
            // decisions before this one stay
            let mut p: Vec<_> = met[..i].to_vec();
            p.push((met[i].0, !met[i].1));
            work.push(p);
        }
        out.push((met, v.is_ok()));
    }
    let log = std::mem::take(&mut *SymPallas::ser_log().lock().unwrap());
    Ok((out, log))
}

/// What acceptance means.
fn meaning<const L: usize>(r: &mut Report, z: &mut Z3, c: &Case, nat: &Native<L>, must: bool) -> Result<(), String> {
    let h: Vec<Fq> = (0..2).map(|k| c.digest(k).unwrap()).collect();
    let (ps, log) = paths::<L>(r, c, nat)?;
    let hashed: Vec<Result<(), String>> = (0..2).map(|k| encoded_as(r, z, &log, &c.claimed(k), 1)).collect();
    let mut nm = Norm::<Fq>::new();
    // challenge k equals what its own hash says
    let want: Vec<Poly<Fq>> = (0..2).map(|k| (*nm.sym(&(c.chal[k] - SQ::cst(h[k])))).clone()).collect();
    let mut names: Vec<Poly<Fq>> = want.clone();
    let mut lit = |x: &(Cmp, bool)| {
        let p = (*nm.sym(&(SQ::from_node(x.0 .0) - SQ::from_node(x.0 .1)))).clone();
        let n = if p.is_zero() {
            "true".into()
        } else if p.sorted().iter().all(|m| m.0.is_empty()) {
            "false".into()
        } else {
            let i = match names.iter().position(|q| q.sub(&p).is_zero() || q.sub(&p.scale(-Fq::one())).is_zero()) {
                Some(i) => i,
                None => {
                    names.push(p);
                    names.len() - 1
                }
            };
            format!("c{}", i)
        };
        if x.1 {
            n
        } else {
            format!("(not {})", n)
        }
    };
    let acc: Vec<String> = ps.iter().filter(|p| p.1).map(|p| format!("(and true {})", p.0.iter().map(&mut lit).collect::<Vec<_>>().join(" "))).collect();
    let f = format!("(or false {})", acc.join(" "));
    let n = names.len();
    let mut ask = |q: &str| {
        z.push();
        for i in 0..n {
            z.raw(&format!("(declare-const c{} Bool)", i));
        }
        z.raw(&format!("(assert {})", q));
        let v = z.check();
        z.pop();
        v
    };
    for k in 0..2 {
        let v = ask(&format!("(and {} (not c{}))", f, k));
        r.oblige(1, v);
        if v != Verdict::Unsat {
            return Err(format!("accepted although signature {} need not be valid", k));
        }
    }
    if must {
        let v = ask(&format!("(and c0 c1 (not {}))", f));
        r.oblige(1, v);
        if v != Verdict::Unsat {
            return Err("two valid signatures need not be accepted".into());
        }
        // vacuity
        let v = ask(&f);
        r.oblige(1, if v == Verdict::Sat { Verdict::Unsat } else { Verdict::Sat });
        if v != Verdict::Sat {
            return Err("nothing is accepted".into());
        }
    }
    if !acc.is_empty() {
        for x in hashed {
            x?;
        }
    }
    Ok(())
}

/// Symbolic keys and signatures on (a variant of) an honest payment.
fn case<const L: usize>(nat: &Native<L>, same_key: bool, tail: &[u8], seed: u64) -> Result<Case, String> {
    let pour = Pour::<L, NPallas, NVesta, Sg>::deserialize_compressed(&nat.2.pour_bytes[..]).map_err(|e| format!("the payment does not decode: {:?}", e))?;
    for t in 0..50 {
        seed_shadow(seed * 100 + t);
        let g = sym_point::<SymPallas>("g");
        let pk0 = sym_point::<SymPallas>("pk0");
        let pk1 = if same_key { pk0 } else { sym_point::<SymPallas>("pk1") };
        let p = Pour::<L, NPallas, NVesta, SSg> {
            even_proof: pour.even_proof.clone(),
            odd_proof: pour.odd_proof.clone(),
            randomized_path_0: pour.randomized_path_0.clone(),
            randomized_path_1: pour.randomized_path_1.clone(),
            pk0,
            pk1,
            minted_coin_commitment_0: pour.minted_coin_commitment_0,
            minted_coin_commitment_1: pour.minted_coin_commitment_1,
        };
        let mut bytes = vec![];
        p.serialize_compressed(&mut bytes).unwrap();
        bytes.extend_from_slice(tail);
        let mut par = SSch::setup(&mut Rng::seed_from_u64(seed)).unwrap();
        par.generator = g;
        let v = |n: &str| -> SQ { Sym::fresh(n) };
        let c = Case { par, pk: [pk0, pk1], resp: [v("resp0"), v("resp1")], chal: [v("chal0"), v("chal1")], bytes };
        if c.digest(0).is_some() && c.digest(1).is_some() {
            return Ok(c);
        }
    }
    Err("no digest in range".into())
}

// ---------------------------------------------------------------- on the real curves

/// Payments with something wrong about their signatures; which one is accepted?
fn attacks<const L: usize>(nat: &Native<L>) -> Result<Option<String>, String> {
    let (pr, ct, tx, ks, sk) = nat;
    let mut rng = Rng::seed_from_u64(31);
    let bytes = tx.pour_bytes.clone();
    let pour = Pour::<L, NPallas, NVesta, Sg>::deserialize_compressed(&bytes[..]).map_err(|e| format!("{:?}", e))?;
    type Sig = Signature<Sg>;
    let mut sign = |s: &(SecretKey<Sg>, Vec<u8>), m: &[u8]| -> Sig { Sch::randomize_signature(&ks.par, &Sch::sign(&ks.par, &s.0, m, &mut rng).unwrap(), &s.1).unwrap() };
    let good: Vec<Sig> = (0..2).map(|k| sign(&sk[k], &bytes)).collect();
    let mk = |s: [&Sig; 2], m: &[u8]| -> SignedTx<NPallas, NVesta, Sg> {
        let mut b = vec![];
        for x in s {
            x.prover_response.serialize_compressed(&mut b).unwrap();
            x.verifier_challenge.serialize_compressed(&mut b).unwrap();
        }
        m.to_vec().serialize_compressed(&mut b).unwrap();
        SignedTx::deserialize_compressed(&b[..]).unwrap()
    };
    let mut tried: Vec<(String, SignedTx<NPallas, NVesta, Sg>)> = vec![];
    let one = Fq::one();
    let zero = Sig { prover_response: Fq::zero(), verifier_challenge: Fq::zero() };
    let bump = |s: &Sig, r: bool| {
        let mut t = s.clone();
        if r {
            t.prover_response += one;
        } else {
            t.verifier_challenge += one;
        }
        t
    };
    // the same bytes but for one, or cut short, or extended
    let mut msgs: Vec<(String, Vec<u8>)> = vec![("none".into(), vec![]), ("a prefix".into(), bytes[..bytes.len() / 2].to_vec()), ("all but the last byte".into(), bytes[..bytes.len() - 1].to_vec()), ("all but the first byte".into(), bytes[1..].to_vec())];
    let n = bytes.len();
    for i in [0, 1, 31, 32, 33, 63, 64, n / 4, n / 2, 3 * n / 4, n - 67, n - 66, n - 34, n - 33, n - 32, n - 1] {
        let mut b = bytes.clone();
        b[i] ^= 1;
        msgs.push((format!("byte {} altered", i), b));
    }
    for k in 0..2 {
        let mut put = |what: String, s: &Sig| {
            let mut both = [&good[0], &good[1]];
            both[k] = s;
            tried.push((what, mk(both, &bytes)));
        };
        put(format!("signature {} has another response", k), &bump(&good[k], true));
        put(format!("signature {} has another challenge", k), &bump(&good[k], false));
        put(format!("signature {} is zero", k), &zero);
        put(format!("signature {} has no response", k), &Sig { prover_response: Fq::zero(), ..good[k].clone() });
        put(format!("signature {} has no challenge", k), &Sig { verifier_challenge: Fq::zero(), ..good[k].clone() });
        put(format!("signature {} is a copy of the other one", k), &good[1 - k]);
        put(format!("signature {} is made with the other key", k), &sign(&sk[1 - k], &bytes));
        put(format!("signature {} is made with the key before re-randomization", k), &Sch::sign(&ks.par, &sk[k].0, &bytes[..], &mut Rng::seed_from_u64(4)).unwrap());
        put(format!("signature {} is made with a stranger's key", k), &sign(&(ks.sk[2].clone(), vec![1]), &bytes));
        for (w, m) in &msgs {
            put(format!("signature {} is on other bytes ({})", k, w), &sign(&sk[k], m));
        }
        // on the rest of the payment only
        for (w, p) in [("keys exchanged", Pour { pk0: pour.pk1, pk1: pour.pk0, ..pour.clone() }), ("minted coins exchanged", Pour { minted_coin_commitment_0: pour.minted_coin_commitment_1, minted_coin_commitment_1: pour.minted_coin_commitment_0, ..pour.clone() })] {
            let mut m = vec![];
            p.serialize_compressed(&mut m).unwrap();
            put(format!("signature {} is on another payment ({})", k, w), &sign(&sk[k], &m));
        }
    }
    tried.push(("both signatures are zero".into(), mk([&zero, &zero], &bytes)));
    tried.push(("both signatures have another response".into(), mk([&bump(&good[0], true), &bump(&good[1], true)], &bytes)));
    tried.push(("signatures are exchanged".into(), mk([&good[1], &good[0]], &bytes)));
    // what is transmitted is not what was signed
    let mut long = bytes.clone();
    long.extend_from_slice(&[7; 3]);
    tried.push(("bytes are appended to the payment".into(), mk([&good[0], &good[1]], &long)));
    for (w, m) in &msgs {
        let s: Vec<Sig> = (0..2).map(|k| sign(&sk[k], m)).collect();
        tried.push((format!("both signatures are on other bytes ({})", w), mk([&s[0], &s[1]], &bytes)));
    }
    // the payer's own signatures, kept while the payment is altered
    let own = |m: &[u8]| {
        let mut t = tx.clone();
        t.pour_bytes = m.to_vec();
        t
    };
    for (w, p) in [
        ("minted coin 0", Pour { minted_coin_commitment_0: (pour.minted_coin_commitment_0 + NP::generator()).into_affine(), ..pour.clone() }),
        ("minted coin 1", Pour { minted_coin_commitment_1: (pour.minted_coin_commitment_1 + NP::generator()).into_affine(), ..pour.clone() }),
        ("the spent commitments", Pour { randomized_path_0: pour.randomized_path_1.clone(), randomized_path_1: pour.randomized_path_0.clone(), ..pour.clone() }),
    ] {
        let mut m = vec![];
        p.serialize_compressed(&mut m).unwrap();
        tried.push((format!("{} changed after signing", w), own(&m)));
    }
    for i in 0..n {
        let mut m = bytes.clone();
        m[i] ^= 1;
        if Pour::<L, NPallas, NVesta, Sg>::deserialize_compressed(&m[..]).map(|p| p.pk0 == pour.pk0 && p.pk1 == pour.pk1).unwrap_or(false) {
            let t = own(&m);
            if quiet(|| t.verify_signatures(&ks.par, &pour.pk0, &pour.pk1)).is_ok() {
                tried.push((format!("byte {} changed after signing", i), t));
            }
        }
    }
    for (what, t) in tried {
        // the proof is honest: only the signatures can refuse it
        if quiet(|| t.verification_gadget::<L>(DOM, pr, ct, &ks.par)).is_ok() {
            return Ok(Some(what));
        }
    }
    Ok(None)
}

// ---------------------------------------------------------------- honest signatures

fn honest<const L: usize>(r: &mut Report, z: &mut Z3, n: usize, seed: u64) -> Result<(), String> {
    let mut rng = Rng::seed_from_u64(seed);
    seed_shadow(seed + 900);
    let par = SSch::setup(&mut rng).unwrap();
    let (mut pk, mut sk) = (vec![], vec![]);
    for k in 0..2 {
        let s: SQ = Sym::fresh(&format!("sk{}", k));
        pk.push(lin_comb::<SymPallas>(&[(par.generator, s)]));
        sk.push(s);
    }
    let mut cap = 4096;
    let (pr, ct, tx, keys) = loop {
        let pr = NPr::new(cap, cap);
        let coins: Vec<_> = (0..2).map(|k| Coin::<NPallas, SSg>::new(5 + k as u64, &pk[k], &par, &pr.even_parameters, &mut rng)).collect();
        let mut set: Vec<NP> = (0..n).map(|i| (NP::generator() * Fq::from(77 + i as u64)).into_affine()).collect();
        let idx = [0, n - 1];
        for k in 0..2 {
            set[idx[k]] = coins[k].1;
        }
        let ct = NTree::<L, 1>::from_set(&set, &pr, None);
        let mut it = coins.into_iter();
        let mut keys = vec![];
        let info: Vec<_> = (0..2)
            .map(|k| {
                let c = it.next().unwrap().0;
                // the randomness enters as bytes, most significant bit of each byte first
                let mut b = vec![];
                c.pk_randomness.serialize_compressed(&mut b).unwrap();
                let f = b.iter().rev().fold(Fq::zero(), |a, x| a * Fq::from(256u64) + Fq::from(x.reverse_bits() as u64));
                keys.push(sk[k] + SQ::cst(f));
                SpendingInfo { index: idx[k], randomized_pk: Coin::<NPallas, SSg>::rerandomized_pk(&pk[k], &c.pk_randomness, &par), coin_aux: c, sk: SecretKey(sk[k]) }
            })
            .collect();
        for k in 0..2 {
            let w = [(par.generator, keys[k])];
            if let Some(e) = crate::p16::judge_sym::<SymPallas>(r, z, &info[k].randomized_pk, &w) {
                return Err(format!("the revealed key is not the re-randomized one: {}", e));
            }
        }
        let ep = Prover::new(&pr.even_parameters.pc_gens, Transcript::new(DOM));
        let op = Prover::new(&pr.odd_parameters.pc_gens, Transcript::new(DOM));
        SymPallas::ser_log().lock().unwrap().clear();
        SER_ON.store(true, Ordering::SeqCst);
        let tx = quiet(|| prove_pour(ep, op, &pr, &ct, &info[0], &info[1], 4, pk[0], 8, pk[1], &par, &mut rng));
        SER_ON.store(false, Ordering::SeqCst);
        match tx {
            Ok(t) => break (pr, ct, t, keys),
            Err(e) if e.contains("InvalidGeneratorsLength") && cap < 1 << 15 => cap *= 2,
            Err(e) => return Err(format!("the payer panics: {}", e)),
        }
    };
    // the responses are symbols: they must not change in transmission
    let mut b = vec![];
    tx.serialize_compressed(&mut b).unwrap();
    let tx = SignedTx::<NPallas, NVesta, SSg>::deserialize_compressed(&b[..]).map_err(|e| format!("{:?}", e))?;
    let pour = Pour::<L, NPallas, NVesta, SSg>::deserialize_compressed(&tx.pour_bytes[..]).map_err(|e| format!("the payment does not decode: {:?}", e))?;
    let resp = [tx.signature_prover_response_0, tx.signature_prover_response_1];
    let chal = [tx.signature_verifier_challenge_0, tx.signature_verifier_challenge_1];
    let c = Case { par: par.clone(), pk: [pour.pk0, pour.pk1], resp, chal, bytes: tx.pour_bytes.clone() };
    SER_ON.store(true, Ordering::SeqCst);
    let v = quiet(|| tx.verification_gadget::<L>(DOM, &pr, &ct, &par));
    SER_ON.store(false, Ordering::SeqCst);
    let log = std::mem::take(&mut *SymPallas::ser_log().lock().unwrap());
    v.map_err(|e| format!("the verifier refuses: {}", e))?;
    for k in 0..2 {
        if c.digest(k) != Some(chal[k].v) || !chal[k].is_const() {
            return Err(format!("the challenge of signature {} is not the hash", k));
        }
        // hashed by signer and verifier: the same point for all secret keys and nonces
        encoded_as(r, z, &log, &c.claimed(k), 2).map_err(|e| format!("signature {}: {}", k, e))?;
        let w = [(par.generator, keys[k])];
        if let Some(e) = crate::p16::judge_sym::<SymPallas>(r, z, &c.pk[k], &w) {
            return Err(format!("the revealed key {} is not the re-randomized one: {}", k, e));
        }
    }
    Ok(())
}
fn sound<const L: usize>(r: &mut Report, z: &mut Z3, nat: &Native<L>, n: usize, same: bool, tail: &[u8], seed: u64) {
    if r.violated() {
        return;
    }
    r.cases += 1;
    let key = format!("verifier, L={}, {} leaves{}{}", L, n, if same { ", one key" } else { "" }, if tail.is_empty() { String::new() } else { format!(", {} more bytes", tail.len()) });
    let out = case::<L>(nat, same, tail, seed).and_then(|c| meaning::<L>(r, z, &c, nat, tail.is_empty()));
    match out {
        Ok(()) => r.sample(key),
        Err(e) => {
            r.oblige(1, Verdict::Sat);
            r.replays += 1;
            match attacks::<L>(nat) {
                Ok(Some(w)) => r.violation(&key, &format!("{}; the real verifier accepts a payment where {}", e, w)),
                o => match honest_native::<L>(n, None, [0, n - 1], [5, 6], [4, 7], 3) {
                    Ok(true) => r.inconclusive(format!("{}: {} ({:?})", key, e, o)),
                    x => r.violation(&key, &format!("{}; an honest payment is refused ({:?})", e, x)),
                },
            }
        }
    }
}

pub fn run(r: &mut Report) {
    r.fns(&["relations::coin::SignedTx::{verification_gadget,verify_signatures}", "relations::coin::prove_pour (signing)", "relations::coin::Coin::rerandomized_pk", "ark_crypto_primitives::signature::schnorr::Schnorr::{sign,verify,randomize_signature,randomize_public_key}"]);
    r.explanation = "The real verification of a signed payment runs with formal keys and generator and symbolic responses and challenges; each comparison is taken both ways, and z3 decides that the union of the accepting paths is: challenge k equals the hash of the salt, the formal point g*response_k + key_k*challenge_k and exactly the transmitted bytes, for both k. The hashed points are compared with that combination as formal points. The real payer's signatures, with symbolic secret keys and nonces, are decided to open to the hashed commitments.".into();
    let mut z = Z3::new(60_000);
    macro_rules! all {
        ($l:expr, $n:expr, $seed:expr) => {
            match honest_tx::<$l>($n, None, [0, $n - 1], [5, 6], [4, 7], $seed) {
                Ok(nat) => {
                    sound::<$l>(r, &mut z, &nat, $n, false, &[], $seed);
                    sound::<$l>(r, &mut z, &nat, $n, true, &[], $seed + 1);
                    sound::<$l>(r, &mut z, &nat, $n, false, &[1, 2, 3], $seed + 2);
                }
                Err(e) => r.violation("payer", &format!("an honest payment panics: {}", e)),
            }
            if !r.violated() {
                r.cases += 1;
                let key = format!("payment, L={}, {} leaves", $l, $n);
                match honest::<$l>(r, &mut z, $n, $seed + 3) {
                    Ok(()) => r.sample(key),
                    Err(e) => {
                        r.oblige(1, Verdict::Sat);
                        r.replays += 1;
                        match honest_native::<$l>($n, None, [0, $n - 1], [5, 6], [4, 7], 3) {
                            Ok(true) => r.inconclusive(format!("{}: {} (accepted on the real curves)", key, e)),
                            o => r.violation(&key, &format!("{}; on the real curves: {:?}", e, o)),
                        }
                    }
                }
            }
        };
    }
    all!(2, 2, 10);
    all!(2, 3, 20);
    if r.thorough() {
        all!(3, 4, 30);
        all!(4, 5, 40);
        all!(2, 5, 50);
    }
    r.absorb(&z);
    r.bounds.push("all keys, generators, responses and challenges; the bytes of the listed payments, also with bytes appended; signer: all secret keys and nonces".into());
    r.assume("the hash is a random oracle of its input: signatures are valid exactly when the challenge is the hash");
    r.assume("unforgeability of Schnorr signatures");
}
