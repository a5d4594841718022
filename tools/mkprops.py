#!/usr/bin/env python3
# Regenerates properties.jsonl (the single source of the property texts).
import json
B="bulletproofs/src/"; R="relations/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))

p("P01","Honest proofs of satisfied constraint systems always verify",
 "Whenever a prover's assignment satisfies every multiplication gate and every linear constraint it declared, the proof it outputs is accepted by a verifier that declared the same constraint system, commitments and transcript prefix. This holds for one- and two-phase (randomized) systems, for any mix of scalar and vector commitments, and for sizes that are not powers of two.",
 ["inputs","programs","configurations"],
 "all field values of assignments, blindings, constraint coefficients and challenges; all constraint systems within the stated shape bounds",
 "Tests run a few concrete circuits with random field values; they never vary all coefficients/challenges and use few shapes.",
 [B+"r1cs/prover.rs",B+"r1cs/verifier.rs",B+"inner_product_proof.rs",B+"r1cs/mod.rs",B+"util.rs"],
 [("proving algorithm",B+"r1cs/prover.rs: prove_and_return_transcript"),("verification equation",B+"r1cs/verifier.rs: verification_scalars_and_points"),("inner product argument",B+"inner_product_proof.rs: create/verification_scalars")])
p("P02","A constraint-system proof cannot be accepted for a false statement",
 "If a proof is accepted, then (except with negligible probability over the challenges, for a prover that only knows its points as combinations of the public generators) the committed values satisfy every linear constraint and every multiplication gate the verifier declared. In particular no constraint, gate, constant term, commitment coordinate or inner-product round may be left unenforced or be cancelled against another, no matter how the prover forms its vector commitments and proof elements.",
 ["inputs","programs","configurations"],
 "all adversarial openings of all proof points and commitments over the generator basis, all scalars of the proof, all challenges; shapes within bounds",
 "Tests only check that honest provers with a wrong witness fail; soundness is a statement about every prover strategy and every challenge.",
 [B+"r1cs/verifier.rs",B+"r1cs/mod.rs",B+"inner_product_proof.rs"],
 [("constraint flattening with powers of a challenge",B+"r1cs/verifier.rs: flattened_constraints"),("degree layout of gates and commitments",B+"r1cs/mod.rs: op_splits"),("folding scalars",B+"inner_product_proof.rs: verification_scalars")])
p("P03","Every challenge depends on everything sent before it",
 "Each Fiat-Shamir challenge used in a proof is derived from a transcript that injectively contains, in order, the caller's prefix, every commitment, the number of scalar commitments, every proof element sent before that challenge and the phase and size markers. Prover and verifier absorb the same values and derive the same challenges, so altering any earlier element changes all later challenges.",
 ["inputs","histories","configurations"],
 "all values of commitments and proof elements (as symbols), each protocol variant (one/two phase, 0..k vector commitments)",
 "A missing absorption leaves every honest proof valid; tests cannot notice it without constructing a forgery.",
 [B+"transcript.rs",B+"r1cs/prover.rs",B+"r1cs/verifier.rs",B+"inner_product_proof.rs"],
 [("labelled appends",B+"transcript.rs"),("absorb order",B+"r1cs/verifier.rs: verification_scalars_and_points")])
p("P04","Malformed proofs are rejected with an error, never a panic or acceptance",
 "Verification of an arbitrary decodable proof returns a result: a proof whose element counts do not match the declared system, whose mandatory points are the identity, or that carries data not bound by the transcript is rejected with an error, in release as well as in debug builds. No decodable proof makes individual or batched verification panic or perform out-of-bounds access.",
 ["inputs","configurations"],
 "all combinations of element counts, identity points and phase-two elements within bounds, for several system shapes",
 "Tests only ever verify proofs produced by the matching prover.",
 [B+"r1cs/verifier.rs",B+"r1cs/proof.rs",B+"inner_product_proof.rs"],
 [("length and identity checks",B+"r1cs/verifier.rs: verification_scalars_and_points"),("round count check",B+"inner_product_proof.rs: verification_scalars")])
p("P05","Batch verification accepts exactly when every member would verify alone",
 "Verifying a batch of proofs accepts if each proof in it is individually valid, and rejects (except with negligible probability over the verifier's coins) if any single one is not, whatever the order and the mix of circuit sizes in the batch. A batch too large for the generators is reported as an error.",
 ["inputs","configurations"],
 "all residuals of the individual equations, all batch orders of mixed padded sizes within bounds, all random weights",
 "Tests batch only equal-sized valid proofs, so weights, alignment and truncation are never exercised.",
 [B+"r1cs/verifier.rs"],
 [("random linear combination of verification equations",B+"r1cs/verifier.rs: batch_verify")])
p("P06","Proof encoding round-trips exactly and is unambiguous",
 "Decoding the encoding of any proof yields a proof with identical elements, the announced encoded size equals the number of bytes written, and truncated encodings or invalid phase markers are refused. Distinct proofs have distinct encodings, so a proof that verified before encoding verifies after decoding.",
 ["inputs","configurations"],
 "all element values (symbolic), one- and two-phase forms, vectors of bounded length, every truncation point, every marker byte",
 "Tests round-trip a handful of honest proofs and never look at partial phase-two data, sizes or bad markers.",
 [B+"r1cs/proof.rs",B+"inner_product_proof.rs"],
 [("serialize/deserialize",B+"r1cs/proof.rs"),("inner product encoding",B+"inner_product_proof.rs")])
p("P07","Commitments are binding to position: distinct, stable generators",
 "Every coordinate of a scalar or vector commitment and every blinding factor is attached to its own generator, the same one on the prover and verifier side and in the tree's own commitments, and no generator is used for two roles. Generators depend only on their role and index: enlarging or creating a larger set never changes earlier ones.",
 ["inputs","configurations","histories"],
 "all committed values and blindings; all generator set sizes, growth sequences and positions within bounds",
 "Tests compare a few fixed sizes; a collision or shifted index leaves honest proofs valid.",
 [B+"generators.rs",B+"r1cs/prover.rs",R+"single_level_select_and_rerandomize.rs"],
 [("generator chain",B+"generators.rs: GeneratorsChain, increase_capacity"),("vector commitment",B+"r1cs/prover.rs: commit_vec"),("tree node commitment",R+"single_level_select_and_rerandomize.rs: commit")])
p("P08","Prover and verifier build the same constraint system from the same calls",
 "Any sequence of constraint-building calls (commitments, allocations, multiplications, linear constraints and linear-combination arithmetic) yields on the prover and the verifier the same variables, the same constraints and the same reported metrics, and linear-combination arithmetic means what it says for every value. Gates always satisfy left times right equals output for the prover, including half-filled allocations.",
 ["programs","inputs"],
 "all call sequences up to the stated length, all coefficient and assignment values",
 "Tests use a few gadget programs; odd interleavings of allocation calls and operator overloads are unexercised.",
 [B+"r1cs/prover.rs",B+"r1cs/verifier.rs",B+"r1cs/linear_combination.rs",B+"r1cs/constraint_system.rs"],
 [("linear combination operators",B+"r1cs/linear_combination.rs"),("allocation bookkeeping",B+"r1cs/prover.rs: allocate/multiply"),("allocation bookkeeping (verifier)",B+"r1cs/verifier.rs: allocate/multiply")])
p("P09","Range constraint holds exactly for values in [0, 2^n)",
 "For every bit length n up to 64, the range constraint on a value is satisfiable if and only if the value is an integer in [0, 2^n), and the honest prover with such a value always satisfies it.",
 ["inputs","configurations"],
 "all field values v and all witnesses; n = 1..64",
 "Tests try a few values and honest witnesses for a few n; out-of-range values with cheating witnesses are a universal statement.",
 [R+"range_proof.rs"],[("bit decomposition",R+"range_proof.rs: range_proof")])
p("P10","Window lookup returns exactly the indexed table entry",
 "The 3-bit lookup constraint forces its output variables to equal one single entry of the table, the same entry for all output columns, and each of the eight entries is reachable by the honest prover with the matching index; the bit constraint forces its argument to be zero or one.",
 ["inputs"],
 "all table contents, all witnesses, all eight indices",
 "Tests use random tables with honest witnesses only.",
 [R+"lookup.rs"],[("lookup gadget",R+"lookup.rs: lookup"),("bit gadget",R+"lookup.rs: bit/is_bit")])
p("P11","Selection constraint holds exactly when the value is a member",
 "The selection constraint is satisfiable if and only if the selected value equals at least one of the listed values; the honest prover satisfies it for every member position.",
 ["inputs","configurations"],
 "all list contents and witnesses, list lengths within bounds, all positions",
 "One test with one index of one list.",
 [R+"select.rs"],[("product of differences",R+"select.rs: select")])
p("P12","Curve membership and addition constraints encode the curve law",
 "The curve-membership constraint holds exactly for pairs satisfying y^2 = x^3 + a x + b for the given a and b; the addition constraint forces the output to be the sum of two points with distinct x-coordinates, the checked variant excludes equal x-coordinates, and honest provers satisfy both for every pair of distinct-x points.",
 ["inputs"],
 "all coordinates, all curve coefficients including a != 0, all witnesses (slope, inverse)",
 "Tests only use curves with a = 0 and honest witnesses.",
 [R+"curve.rs"],[("curve check",R+"curve.rs: curve_check"),("addition",R+"curve.rs: incomplete_curve_addition, checked_curve_addition")])
p("P13","Re-randomization constraint enforces the output is input plus a multiple of H",
 "The re-randomization constraint is satisfiable only if the output commitment equals the input commitment plus a multiple of the blinding generator, where that multiple is determined by the witnessed digits; no intermediate addition that lacks an inverse check can be degenerate for any digits, and the honest prover satisfies the constraint for every randomness scalar other than the isolated ones (such as 0) for which an addition on its way meets equal x-coordinates.",
 ["inputs"],
 "all digit choices, all input points, all randomness scalars; every window of the real 255-bit tables",
 "Tests run one random scalar; degenerate digit patterns and cheating witnesses are never visited.",
 [R+"rerandomize.rs",R+"lookup.rs",R+"curve.rs"],
 [("window tables",R+"rerandomize.rs: build_tables"),("accumulator chain",R+"rerandomize.rs: re_randomize")])
p("P14","Single-level select-and-rerandomize proves membership in the parent",
 "If the single-level constraints are satisfied, then the public output plus the public shift equals (up to the sign ambiguity of an x-coordinate) a point with x-coordinate among the parent's committed children plus a multiple of the blinding generator, and that point lies on the curve; the public output is bound into the transcript, and the honest prover satisfies the constraints for each child.",
 ["inputs","configurations"],
 "all children lists within bounds, all witnesses, all public outputs",
 "One honest random instance is tested.",
 [R+"single_level_select_and_rerandomize.rs"],[("composition of select, curve check and rerandomize",R+"single_level_select_and_rerandomize.rs: single_level_select_and_rerandomize")])
p("P15","Batched single-level selection picks one child per parent and sums them",
 "If the batched single-level constraints are satisfied, the public output plus the shift taken once per selection equals the sum of one curve point per parent, each with its x-coordinate among that parent's own children, plus a multiple of the blinding generator; the public output is bound into the transcript and the honest prover satisfies the constraints.",
 ["inputs","configurations"],
 "all children lists and selections within bounds (number of parents 1..3), all witnesses",
 "One honest random instance with two parents is tested.",
 [R+"single_level_select_and_rerandomize.rs"],[("batched composition",R+"single_level_select_and_rerandomize.rs: single_level_batched_select_and_rerandomize")])
p("P16","A curve tree commits to exactly its list of leaves, in order",
 "Building a tree from any list of leaf commitments gives, in every node, a commitment with zero blinding to the x-coordinates of its shifted children in order, with a zero for each absent child, one per generator set; the reported height is the one needed for the leaves, the element count equals the number of leaves, and each index leads to its own leaf. Different leaf lists of trees of the same height (up to sign) give different roots.",
 ["inputs","configurations"],
 "all leaf values; all leaf counts within bounds, several branching factors, requested heights and generator sets",
 "Tests build few trees, mostly full or single-leaf, and never compare node contents with a specification.",
 [R+"curve_tree.rs"],[("tree construction",R+"curve_tree.rs: from_set, combine"),("child indexing",R+"curve_tree.rs: child_index"),("x-coordinates",R+"curve_tree.rs: x_coordinates")])
p("P17","Honest membership proofs work for every leaf of every tree",
 "For every tree of height at least one and every leaf index in it, the prover obtains a path, satisfies all constraints the verifier builds for that path, and returns a re-randomized leaf that equals the leaf plus the returned scalar times the blinding generator, whatever the parity of the tree's height.",
 ["inputs","configurations"],
 "all leaf values and re-randomization scalars; all indices of trees within bounds, both parities",
 "Tests prove a few indices of a few trees.",
 [R+"curve_tree_prover.rs",R+"curve_tree_verifier.rs",R+"single_level_select_and_rerandomize.rs"],
 [("path witness",R+"curve_tree_prover.rs: select_and_rerandomize_prover_witness"),("prover gadget",R+"curve_tree_prover.rs: select_and_rerandomize_prover_gadget"),("verifier gadget",R+"curve_tree_verifier.rs")])
p("P18","A verified path leads from the verifier's own root to the returned leaf",
 "The constraints a verifier builds for a membership path start from the children of its own tree's root and link each level's commitment to the next one, once per level and on the right curve, ending in exactly the re-randomized leaf that is returned; paths whose number of levels differs from the tree's height are refused in every build profile.",
 ["inputs","configurations"],
 "all path contents and lengths within bounds, trees of both parities, all commitments",
 "Tests only verify honest paths of the right length in debug builds.",
 [R+"curve_tree_verifier.rs"],[("root insertion",R+"curve_tree_verifier.rs: select_and_rerandomize_verification_commitments"),("level gadgets",R+"curve_tree_verifier.rs: even_verifier_gadget, odd_verifier_gadget")])
p("P19","Batched membership proofs are complete and bound to root, height and leaves",
 "For every choice of leaf indices the batched prover satisfies the constraints the batched verifier builds and returns re-randomized leaves equal to leaf plus returned scalar times the blinding generator; the verifier's constraints start at its own root's children for each generator set, link level to level, end in exactly the returned leaves, and paths of the wrong number of levels are refused.",
 ["inputs","configurations"],
 "all leaf values, scalars and index tuples of trees within bounds, both parities, 1..3 parallel selections",
 "Tests cover one tree shape with honest paths.",
 [R+"batched_curve_tree_prover.rs",R+"batched_curve_tree_verifier.rs"],
 [("batched prover",R+"batched_curve_tree_prover.rs"),("batched verifier",R+"batched_curve_tree_verifier.rs")])
p("P20","Every published commitment and response is masked by fresh randomness",
 "Every point and every scalar of a proof, and every re-randomized node on a path, is masked by randomness drawn freshly for it and used in no other element in a way that cancels, so that published values alone determine no linear relation on the witness. Two proofs of the same statement share no masks.",
 ["inputs","histories"],
 "all witnesses and all values of the drawn randomness (symbolic), within shape bounds",
 "Reused or missing blinding leaves every proof valid and is invisible to tests.",
 [B+"r1cs/prover.rs",R+"curve_tree_prover.rs",R+"batched_curve_tree_prover.rs"],
 [("blinding draws",B+"r1cs/prover.rs: prove_and_return_transcript"),("path randomizers",R+"curve_tree_prover.rs")])
p("P21","A payment conserves value, limits minted amounts and binds the spent keys",
 "The constraints a verifier builds for a payment hold only if the sum of the two minted amounts equals the sum of the two spent amounts, each minted amount is in [0, 2^64), each spent commitment is the re-randomized leaf proven to be in the verifier's tree, and its tag is the hash of the revealed key; honest payments satisfy them.",
 ["inputs"],
 "all amounts, tags, commitments and witnesses; trees of both parities within bounds",
 "Tests make one honest payment.",
 [R+"coin.rs"],[("mint",R+"coin.rs: mint, verify_mint"),("spend",R+"coin.rs: prove_spend, verify_spend_even"),("balance constraint",R+"coin.rs: even_verification_gadget")])
p("P22","A payment is accepted only with valid signatures of both spenders",
 "A signed payment is accepted only if both signatures are valid on exactly the transmitted payment bytes under the keys revealed in that payment; honest signed payments are accepted.",
 ["inputs"],
 "all signature values (symbolic responses and challenges) and message bytes",
 "Tests only verify an honestly signed payment.",
 [R+"coin.rs"],[("signature verification",R+"coin.rs: verify_signatures"),("signing",R+"coin.rs: prove_pour")])
p("P23","Paths, payments and signed payments survive encoding unchanged",
 "Decoding the encoding of a membership path, a payment or a signed payment yields identical contents, and the announced size equals the number of bytes written.",
 ["inputs","configurations"],
 "all element values (symbolic), path lengths within bounds",
 "Tests decode one payment and never compare fields.",
 [R+"curve_tree.rs",R+"coin.rs"],[("path encoding",R+"curve_tree.rs"),("payment encoding",R+"coin.rs")])
import os
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
open(out,"w").write("".join(json.dumps(q)+"\n" for q in P))
