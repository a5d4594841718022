T = "symbolic execution of the real generic code over lifted fields/curves; "
CLAIMED = {
 "P01": (T + "verification equation of honest proofs reduced to zero modulo the gates and constraints; z3 (LRA over monomials) decides every coefficient",
         "other", "all witnesses, coefficients, blindings and challenges for the listed circuit shapes"),
 "P02": (T + "algebraic-group-model extraction of the verification equation; z3 decides that its coefficients entail every gate and constraint; forged proof as replay",
         "other", "all openings, coefficients and challenges for the listed circuit shapes; inner product argument's knowledge soundness assumed"),
 "P03": (T + "each transcript message read as an encoding of formal values; z3 decides that the messages before a challenge determine every element that has to precede it, and that prover and verifier absorb identical values",
         "other", "all commitments and proof elements for the listed circuit shapes"),
 "P04": (T + "path exploration of lifted verification over deformed proofs (counts, identities, unbound data); every path must end in Err or in the full equation; forged proof replayed natively",
         "other", "all element values for the listed shapes and deformations"),
 "P05": (T + "the batch equation extracted symbolically must be a combination of the members' own equations with independent fresh coins; z3 decides every coefficient",
         "other", "all elements and coins for the listed batches"),
 "P06": ("Kani/CBMC on the compiled encoders and decoders over a stand-in curve, every byte of every element symbolic; failures reproduced on the real curves",
         "other", "all element values and marker bytes for the listed proof shapes and both modes; all strict prefixes of two shapes"),
 "P07": (T + "commitments, generator tables and proofs read off as formal combinations of generator atoms; z3 decides equality of the coefficients and distinctness of the roles",
         "other", "all committed values; vector lengths and generator capacities listed in the evidence"),
 "P08": (T + "the same symbolic script of calls on prover and verifier, constraint matrices compared coefficientwise by z3; linear combinations compared with their meaning",
         "other", "all values and coefficients for the listed scripts and linear-combination forms"),
 "P09": (T + "every wire a fresh symbol; z3 decides branch by branch (one branch per zero product) that the range constraints force the value to a sum of its bits; the honest prover's bit extraction decided by Kani/CBMC on the real code",
         "other", "all n up to 64, all witnesses; Kani on the listed n for all 64-bit values"),
 "P10": (T + "every wire and table entry a symbol; z3 decides that each branch of the index bits yields one single table entry in every column",
         "other", "all table contents and witnesses"),
 "P11": (T + "every wire and list entry a symbol; z3 decides that the value equals one of the entries, and that each position is satisfiable",
         "other", "all list contents and witnesses; list lengths listed in the evidence"),
 "P12": (T + "every coordinate, slope and coefficient a symbol; z3 decides that the curve equation and the cleared addition formulas follow from the constraints, and that honest points satisfy them",
         "other", "all coordinates, coefficients and witnesses"),
 "P13": (T + "constraints cut at the accumulator wires; z3 decides per window that they force the addition of one table entry, that no digits make an unchecked addition degenerate, and that the output is input plus accumulator",
         "other", "all digits, inputs and witnesses; honest prover on digit strings covering every (window, digit) pair"),
 "P14": (T + "every wire and child a symbol, output a formal point; z3 decides per part of the constraints that the point is one of the children, lies on the curve, and that the output is it plus the accumulated windows; output recorded in the transcript",
         "other", "all children, outputs and witnesses; child-list lengths listed in the evidence"),
 "P15": (T + "as P14 for every parent, with the sums of the selected points decided to be the group law between different x-coordinates",
         "other", "all children, outputs and witnesses; (parents, children) pairs listed in the evidence"),
 "P16": (T + "trees built by the real code from formal leaves; z3 decides every coefficient of every node against the specified commitment, and the injectivity of each layer; index descent executed for every index",
         "other", "all leaf values; leaf counts, branching factors, heights and generator sets listed in the evidence"),
 "P17": (T + "honest prover run on formal trees: each level's constraints decided to vanish by z3 for all leaf values and scalars, prover and verifier constraint systems compared coefficientwise, returned leaf compared as formal point",
         "other", "all leaf values, digits from the digit cover; trees, both parities and indices listed in the evidence"),
 "P18": (T + "the verifier's constraints for symbolic paths cut into the gadget of each level; z3 decides that the blocks' coefficients are those of a chain from the root's children to the returned leaf; wrong-length paths explored; attacks replayed natively",
         "other", "all path contents and commitments; heights, parities and path lengths listed in the evidence"),
 "P19": (T + "as P17 and P18 for the batched gadgets, with every parallel selection and generator set",
         "other", "all path contents, commitments and leaf values; trees, parities and numbers of selections listed in the evidence"),
 "P20": (T + "published points and scalars as formal combinations of the drawn values; z3 decides that the points' blindings are independent forms and that every linear relation free of drawn values is free of the witness",
         "other", "all witnesses, draws and challenges for the listed circuit shapes; relations with bounded-degree coefficients in the challenges; trees and payments listed in the evidence"),
 "P21": (T + "the constraint systems handed over by the real payment verifier on symbolic payments cut into levels, range proofs and plain constraints; z3 decides that they entail the balance, the key tags and membership; the real payer run on formal points, constraints compared coefficientwise; forged payments as replay",
         "other", "all payments presented to the verifier; trees, path lengths and amounts of the honest payer listed in the evidence"),
 "P22": (T + "signature verification with formal keys and symbolic responses and challenges, every comparison taken both ways; z3 decides that the accepting paths are those where both challenges are the hash of the formal commitment and the transmitted bytes; tampered payments as replay",
         "other", "all keys, responses, challenges, secret keys and nonces; payment bytes of the listed payments"),
 "P23": ("Kani/CBMC on the compiled encoders and decoders of paths, payments and signed payments over stand-in curves, every byte symbolic; failures reproduced on the real curves",
         "other", "all contents for the listed path lengths, payment shapes and payload lengths, both modes"),
}
NOT_APPLICABLE = {}
