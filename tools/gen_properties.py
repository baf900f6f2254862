#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "Every honestly produced liability proof verifies",
  "After any sequence of liability insertions and updates with valid identifiers and amounts whose total stays below 2^63, "
  "the prover produces for every recorded identifier a proof that the verifier accepts against the current public root, "
  "and both the returned amount and the amount opened inside the proof equal the last amount recorded for that identifier. "
  "For an identifier that was never recorded the prover reports absence instead of producing a proof.",
  ["histories", "inputs", "configurations"],
  "all histories of Set (fresh ids, re-sets of the same id, ids sharing any path prefix, in any order), all amounts in [0,2^63) incl. 0 and the boundary, "
  "all supported fan-outs, depths, tree types, parallel or sequential proving, proofs requested between updates",
  "TestPolSparse/TestPolDense make one or two insertions of distinct random ids and prove once: no update of an existing id, no sibling leaves, no boundary amounts, one fan-out, one proof.",
  ["pol/pol.go", "verkle/tree.go", "sum/sa.go", "bp/range.go", "poe/poe.go", "pp/pointproofs.go"],
  [("path commitments refreshed bottom-up on every update", "verkle/tree.go:updateInnerLayer, updateLayerAboveLeaves; sparse/tree.go:Put"),
   ("proof assembly", "pol/pol.go:ProveLiability"), ("verification", "pol/pol.go:LiabilityProof.Verify")],
  ["pol.LiabilitySet.Set/ProveLiability/Root", "pol.LiabilityProof.Verify"])

p("C02", "The proven total is exactly the sum of current liabilities",
  "After any history the total proof carries exactly the sum of the latest amounts of all identifiers and is accepted against the current public root. "
  "No other claimed total, and no root other than the one it was made for, is accepted with it.",
  ["histories", "inputs"],
  "all histories of Set incl. overwrites, decreases and zeroes, interleaved with root reads and total proofs; all wrong totals (off by one, negated, shifted by powers of two) and stale or foreign roots",
  "TestProveTot makes two insertions of 50 and never checks the value of the total, never updates, never tries a wrong total or a stale root.",
  ["pol/pol.go", "verkle/tree.go", "pp/pointproofs.go"],
  [("running sum in every vertex", "verkle/tree.go:updateSum"), ("opening of the sum slot of the root", "pol/pol.go:ProveTot, TotalProof.Verify"),
   ("root caching", "pol/pol.go:DBMemorizeRoot")],
  ["pol.LiabilitySet.ProveTot/Root", "pol.TotalProof.Verify"])

p("C03", "An accepted liability proof is bound to its id, root, amount and contents",
  "A liability proof is accepted only for the identifier, public root and amount it was produced for. "
  "Replacing, swapping, dropping, duplicating or splicing in any commitment, scalar or sub-proof the verdict rests on makes verification fail.",
  ["inputs", "configurations"],
  "every component of every proof, every kind of alteration (perturbed value, identity element, component of another valid proof, permutation), every other id and root (stale, foreign, V/W exchanged), negated or shifted amounts; sequential and parallel verification",
  "No existing test ever expects a rejection: each calls Verify once on an untouched honest proof.",
  ["pol/pol.go", "pp/pointproofs.go", "sum/sa.go", "bp/range.go", "bp/innerprod.go", "bp/ir.go", "poe/poe.go"],
  [("root comparison, digest chain, aggregated opening, sum, equality, range and leaf-opening checks", "pol/pol.go:LiabilityProof.Verify")],
  ["pol.LiabilityProof.Verify"])

p("C04", "No prover can get proofs accepted that under-report its liabilities",
  "Whatever a malicious prover publishes and hands out, the amounts in proofs accepted under one root for distinct identifiers are all contained in the total that root opens to. "
  "In particular a proof is rejected when a level shows a subtree that is not the one its parent commits to, when a sum slot differs from the sum of its entries or from the parent's entry, when an amount or sum is negative or 2^63 or more, or when the amount is opened from a commitment outside the authenticated path.",
  ["inputs", "programs"],
  "malicious provers that know all secrets of the trees they build: substituted subtrees, forged sums, unequal parent/child sums, out-of-range entries, extra or missing levels, at every level of the path",
  "The tests only run the honest prover; soundness is a statement about every other prover.",
  ["pol/pol.go", "sum/sa.go", "bp/range.go", "poe/poe.go", "pp/pointproofs.go", "verkle/tree.go"],
  [("digest chain tied to the aggregated opening", "pol/pol.go:Verify + pp.VerifyAggregation"), ("sum argument over every level", "sum/sa.go:VerifyAggregated"),
   ("parent entry equals child sum", "poe/poe.go:Equalities.Verify"), ("range proof per level", "bp/range.go:VerifyRange")],
  ["pol.LiabilityProof.Verify", "pol.TotalProof.Verify"])

p("C05", "The liability set behaves like a map from identifiers to amounts",
  "Reading an identifier returns the amount of its most recent recording, and an identifier that was never recorded is reported absent, whatever was recorded under other identifiers in between. "
  "A negative amount is refused and leaves the set unchanged.",
  ["histories", "inputs"],
  "all histories of Set/Get over decimal and hexadecimal identifiers (incl. leading/trailing zeros, shared prefixes), all 63-bit amounts, all fan-outs",
  "The tests insert two to four hand-picked identifiers once each and read them back.",
  ["pol/pol.go", "verkle/tree.go", "sparse/tree.go"],
  [("tree walk along the id's path", "sparse/tree.go:Get, Put")],
  ["pol.LiabilitySet.Set/Get", "verkle.Tree.Put/Get", "sparse.Tree.Put/Get"])

p("C06", "The committed tree always mirrors the recorded liabilities",
  "After every update each stored tree vertex commits to exactly the amounts (or subtree sums) and digests of its current children, its sum is the sum of its entries, and the root sum is the sum of all liabilities. "
  "What the tree commits to depends only on the final identifier-to-amount map, not on the order or number of updates that led to it.",
  ["histories", "configurations"],
  "all update histories (orders, repeated updates, decreases to zero, sibling leaves), all fan-outs and depths, checked at every quiescent point for every vertex in the store",
  "The tests read amounts back from the tree but never recompute a commitment, digest or sum, and never update an existing entry.",
  ["verkle/tree.go", "sparse/tree.go"],
  [("leaf-parent layer update", "verkle/tree.go:updateLayerAboveLeaves"), ("inner layer update", "verkle/tree.go:updateInnerLayer")],
  ["verkle.DB contents (RawVertex records) after each Put", "pol.LiabilitySet.Root"],
  state=[("vertex record", "entries, digests, sum, blinding factor, commitments V and W", "verkle/tree.go:RawVertex")])

p("C07", "Identifiers map one-to-one to fixed-length tree paths",
  "For a given tree type and fan-out every valid identifier is mapped deterministically to a path of one fixed length whose steps are all below the fan-out, and different identifiers get different paths. "
  "Malformed identifiers and unsupported fan-outs are refused, in bounded time.",
  ["inputs", "configurations"],
  "all nine-digit decimal and 64-digit hexadecimal identifiers, all supported fan-outs; malformed identifiers of every shape",
  "TestHexPathIsInCorrectLength only looks at lengths for random hexadecimal ids; decimal paths, injectivity, ranges and refusals are not tested.",
  ["sparse/tree.go", "common/math.go", "pol/pol.go"],
  [("decimal mapping", "sparse/tree.go:DigitPath, DigitPathLen"), ("hexadecimal mapping", "sparse/tree.go:HexId2PathForFanOut"), ("fan-out validation", "common/math.go:IsPowerOfTwo")],
  ["sparse.DigitPath, sparse.HexId2PathForFanOut", "pol.GeneratePublicParams"])

p("C08", "Parallel proving and verification are race-free and schedule-independent",
  "With parallelism enabled, and with any number of callers proving and verifying (also the same proof) at the same time, there is no data race and every operation gives the verdict it gives when run alone and sequentially. "
  "In particular a verifier never returns acceptance before all of its concurrent checks have completed and succeeded, and no produced proof has missing parts.",
  ["schedules"],
  "all interleavings of the internal workers and of concurrent callers, for valid and invalid proofs, at any number of processors",
  "The tests run one proof and one verification at a time, of valid proofs only, without the race detector.",
  ["pol/pol.go", "bp/range.go", "bp/innerprod.go", "sum/sa.go", "poe/poe.go"],
  [("worker fan-out and join", "pol/pol.go:ProveLiability, Verify"), ("shared public parameters", "pol/pol.go:PublicParams")],
  ["pol.LiabilitySet.ProveLiability", "pol.LiabilityProof.Verify", "Go race detector"])

p("C09", "Vector commitments open exactly to the committed values",
  "For every vector and index the opening produced for a commitment verifies for the committed value at that index and for no other value, index or commitment; updating a commitment gives the same commitment as committing to the updated vector. "
  "An aggregated opening is accepted exactly when every claimed value is the committed one at its index.",
  ["inputs", "histories"],
  "all vector lengths from two, vectors (incl. zeros and repeated entries), indices, update sequences, numbers and orders of aggregated openings",
  "The tests check acceptance for random dense vectors, aggregate two openings at index 0, and never expect a rejection.",
  ["pp/pointproofs.go", "common/math.go"],
  [("commit/open/verify/update/aggregate", "pp/pointproofs.go")],
  ["pp.Commit, Open, Verify, Update, Aggregate, VerifyAggregation"])

p("C10", "The opening-equality argument accepts exactly equal openings",
  "For any two lists of committed vectors and index pairs whose addressed entries are equal pairwise the single and the aggregated argument verify. "
  "They are rejected when any addressed pair differs, and for any other commitments or indices than those proven.",
  ["inputs"],
  "all vector lengths, batch sizes that are powers of two, pairs of indices before the blinding entry (equal, swapped, first, last), values incl. zero; every single differing pair; every altered statement or proof component",
  "The tests prove true statements about random vectors only.",
  ["poe/poe.go", "pp/pointproofs.go", "bp/innerprod.go"],
  [("single argument", "poe/poe.go:Equality"), ("aggregated argument", "poe/poe.go:Equalities")],
  ["poe.Equality.Prove/Verify", "poe.Equalities.Prove/Verify"])

p("C11", "The sum argument accepts exactly vectors ending in their own sum",
  "A single or aggregated sum argument verifies for commitments to vectors whose last entry is the sum of the others, for any vector length that is a power of two and any number of aggregated vectors. "
  "It is rejected if any one of the committed vectors violates the sum relation, and for any commitments other than those proven.",
  ["inputs"],
  "all vectors (incl. zeros, sums wrapping the field), all batch sizes and positions of the offending vector, compensating errors across vectors, forgeries that exploit predictable challenges",
  "The tests prove true statements about random vectors only.",
  ["sum/sa.go", "bp/innerprod.go"],
  [("argument", "sum/sa.go:NewArgument, Verify"), ("aggregation", "sum/sa.go:NewAggregatedArgument, VerifyAggregated")],
  ["sum.NewArgument, Proof.Verify, NewAggregatedArgument, Proof.VerifyAggregated"])

p("C12", "The range proof accepts exactly vectors of 63-bit amounts",
  "A range proof for a commitment to a vector with all entries in [0,2^63) verifies. "
  "No accepted proof exists for a commitment with an entry outside that range (negative, 2^63 or larger), and a proof is rejected for any other commitment or when any part of it is altered.",
  ["inputs"],
  "all vectors incl. 0, 1, 2^62, 2^63-1 at every position; out-of-range entries at every position with every kind of fake bit decomposition; every altered component",
  "TestRangeProof proves one vector of eight times 100 and never expects a rejection.",
  ["bp/range.go", "bp/ir.go", "bp/innerprod.go"],
  [("range prover/verifier", "bp/range.go:ProveRange, VerifyRange")],
  ["bp.ProveRange", "bp.VerifyRange"])

p("C13", "Inner-product and reduction arguments accept exactly true claims",
  "The inner-product argument verifies for all vectors of every power-of-two length and is rejected when the claimed product is wrong, when commitment or proof is altered, or when the prover builds the commitment around the verifier's challenges. "
  "The iterated reduction verifies and yields exactly the challenge-weighted combination of the reduced vector, and is rejected for any other final value, commitment or altered step.",
  ["inputs"],
  "all power-of-two lengths (for the reduction from two), vectors incl. zeros, wrong products, adaptively chosen commitments, altered rounds",
  "The tests prove one random statement per argument; the reduction's verifier is commented out of its test.",
  ["bp/innerprod.go", "bp/ir.go"],
  [("argument", "bp/innerprod.go:Prove, Verify"), ("challenge derivation", "bp/innerprod.go:computeInstanceSpecificParams"), ("reduction", "bp/ir.go:IterativeReduce, IterativeVerify")],
  ["bp.InnerProdArgument.Prove", "bp.InnerProductProof.Verify", "bp.IterativeReduce", "bp.IterativeVerify"])

p("C14", "Reading, proving and verifying change nothing observable",
  "Reading amounts or roots, producing proofs and verifying them (accepted or rejected) leave public parameters, statements, proofs, stored vertices and recorded amounts byte-for-byte unchanged. "
  "Repeating a verification therefore always gives the same verdict, in any order and mixed with other operations.",
  ["histories", "inputs"],
  "all interleavings of reads, proofs and verifications, of valid and invalid proofs, on shared parameters and proofs",
  "The tests verify each proof once and compare nothing before and after.",
  ["pol/pol.go", "bp/innerprod.go", "bp/range.go", "sum/sa.go", "poe/poe.go", "pp/pointproofs.go", "common/math.go"],
  [("copy before in-place group arithmetic", "common/math.go and all Verify functions")],
  ["deep snapshots of parameters, proofs and store around every operation"])

p("C15", "Commitments and proofs are freshly blinded and reveal no occupancy",
  "Every commitment vertex has its own unpredictable blinding, every randomised component of every proof is drawn afresh so that two proofs of the same statement share none of them, and no published element equals its unblinded counterpart. "
  "In particular published commitments and proofs do not let their holder test guesses of other amounts or whether neighbouring positions are empty.",
  ["inputs", "histories"],
  "all trees and statements, repeated proofs of the same statement, proofs across trees and processes sharing parameters; guess-and-check by a client who knows its own amount",
  "The tests never compare two proofs or two trees; leakage does not affect verification.",
  ["verkle/tree.go", "sum/sa.go", "bp/range.go", "poe/poe.go", "common/math.go"],
  [("vertex blinding", "verkle/tree.go:BlindingFactor"), ("proof blinding", "common/math.go:RandVec; poe/poe.go; sum/sa.go; bp/range.go")],
  ["proof components over repeated proofs", "RawVertex records"])

p("C16", "Vertices and whole trees serialize without loss",
  "Decoding an encoded vertex gives back a vertex with the same entries, digests, sum, blinding factor and commitments, and re-encoding loses nothing. "
  "The serialized form of a tree contains every vertex exactly once, under its own path, length-prefixed, with the vertex's full encoding.",
  ["inputs", "histories"],
  "all vertices (leaf-parent and inner, sparse and full, zero and maximal entries), all trees",
  "TestSerializeVerkleTree only checks that serialization does not panic; nothing decodes the output.",
  ["verkle/tree.go", "sparse/tree.go"],
  [("vertex codec", "verkle/tree.go:Bytes, FromBytes"), ("tree stream", "sparse/tree.go:Vertex.Serialize; verkle/tree.go:Serialize")],
  ["verkle.Vertex.Bytes/FromBytes", "verkle.Tree.Serialize output"])

p("C17", "An update aborted by a storage failure can be retried without damage",
  "If the backing store fails at any point during an update, retrying that update once the store works again leaves the tree, all later amounts, totals and proofs exactly as if no failure had happened. "
  "Between the failure and the retry no proof is accepted for an amount that was not recorded.",
  ["fault_sequences", "crash_points", "histories"],
  "every store operation of every update failing (before or after taking effect), repeated failures, other updates in between, with the retried update last for its identifier",
  "The tests use a map that never fails.",
  ["verkle/tree.go", "sparse/tree.go", "pol/pol.go"],
  [("idempotent recomputation of a path", "verkle/tree.go:updateInnerLayer, updateLayerAboveLeaves; sparse/tree.go:Put")],
  ["fault-injecting verkle.DB", "LiabilitySet.Get/ProveTot/ProveLiability after recovery"])

p("C18", "Vector and field helpers agree with plain modular arithmetic",
  "Every scalar- and group-vector operation equals the corresponding operation on integers modulo the group order (in the exponent for group vectors), for every length and value, and leaves its operands unchanged. "
  "Generator derivation and hashing to scalars are deterministic, yield valid non-trivial elements below the group order, and differ for different hashed inputs.",
  ["inputs"],
  "all vector lengths, scalars incl. 0, 1, order-1, powers of two and unreduced representatives, group elements incl. the identity, operand aliasing; all 256-bit digests",
  "TestMath checks one random bit decomposition.",
  ["common/math.go", "poe/poe.go"],
  [("vector algebra", "common/math.go:Vec, G1v, G2v"), ("hash to scalar", "common/math.go:FieldElementFromBytes"), ("challenge expansion", "poe/poe.go:RO")],
  ["common.Vec/G1v/G2v methods, common.FieldElementFromBytes, common.RandGenVec, poe.RO"])

p("C19", "Structurally malformed proofs are rejected, never accepted or fatal",
  "A liability proof with missing, surplus or absent (nil) lists, commitments or sub-proofs, as far as the verdict rests on them, is answered with an error. "
  "Verification never accepts it, never crashes the verifying process and never hangs.",
  ["inputs"],
  "every list of the proof (and of its sub-proofs) shortened, emptied, extended; every reference missing; sequential and parallel verification",
  "The tests verify well-formed proofs only.",
  ["pol/pol.go", "bp/innerprod.go", "bp/ir.go", "bp/range.go", "poe/poe.go", "sum/sa.go"],
  [("shape checks", "pol/pol.go:LiabilityProof.Verify; bp: verify, IterativeVerify; poe: Equalities.Verify")],
  ["pol.LiabilityProof.Verify in a child process"])

p("C20", "Proofs and challenges are bound to the public parameters",
  "A proof produced under one set of public parameters is rejected under any other, including parameters that differ in a single element the verification uses. "
  "Every parameter digest that feeds challenges changes whenever any parameter it stands for changes.",
  ["inputs", "configurations"],
  "all pairs of independent set-ups, every single replaced, swapped or duplicated parameter element, every argument system and the full liability proof",
  "The tests prove and verify with one parameter object.",
  ["pol/pol.go", "pp/pointproofs.go", "poe/poe.go", "sum/sa.go", "bp/innerprod.go", "bp/range.go"],
  [("parameter digests", "bp.PP.RecomputeDigest, bp.RangeProofPublicParams.Digest, poe.PP.SetupDigest, pp.PP.SetupDigest"), ("trusted set-up", "pol/pol.go:GeneratePublicParams")],
  ["Verify functions under altered parameters", "digest fields and methods"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
