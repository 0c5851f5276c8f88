#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept in step with MANIFEST.json by hand through this one list).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Honest sigma proofs always verify",
  "For every true statement and matching witness, each prover (Schnorr/GSPFS, equivalence, disjunctive on either side, consistency, ABC on the side matching the value, inequality) returns a proof without error and the matching verifier accepts it with (true, no error), whatever the random source delivers. This holds for witnesses outside [0,N) taken modulo the group order, for zero values, for the point at infinity where the statement allows it, and for any curve, G and H the caller passes in.",
  ["inputs", "configurations"], "all witnesses, all statements, all random draws, all curve parameters",
  "The tests try a handful of fixed or random values on one curve with one random draw each; a wrong reduction or a swapped branch for one residue, one side or one draw passes them.",
  ["gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "inequality.go", "crypto.go"],
  [("NewGSPFSProofBase / Verify", "gspfs.go"), ("NewEquivalenceProof / Verify", "equivalence.go"), ("NewDisjunctiveProof / Verify", "disjunctive.go"), ("NewConsistencyProof / Verify", "consistency.go"), ("NewABCProof / Verify", "abc.go"), ("NewInequalityProof / Verify", "inequality.go")],
  ["return values of every prover and of Verify"])

p("C02", "Provers refuse statements that the witness does not satisfy",
  "A prover called with a witness that does not satisfy the statement (wrong discrete log, wrong opening, wrong token, wrong side, equal values for inequality, a value on the wrong ABC side, a secret key that is zero) never hands out a proof that verifies for that statement: the provers that can check the witness return an error, and no call panics. What is refused depends only on the values modulo the group order.",
  ["inputs", "configurations"], "all false (statement, witness) combinations, all sides, all random draws",
  "The tests try one or two wrong witnesses per prover; a dropped or weakened comparison (only one coordinate, only one of two equations, only one side) is visible only on particular combinations such as a negated point.",
  ["gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "inequality.go"],
  [("witness checks at the head of each New*Proof", "gspfs.go, equivalence.go, disjunctive.go, consistency.go"), ("side/value check", "abc.go NewABCProof"), ("a = b check", "inequality.go")],
  ["error result of every prover"])

p("C03", "Schnorr, equivalence and consistency verifiers accept exactly valid proofs",
  "The GSPFS, equivalence and consistency verifiers accept a proof with scalars in [0,N) if and only if the challenge in it equals the SHA-256 challenge of the whole statement and commitments and every verification equation holds in the group. Everything else, including any single altered field, swapped or negated point, a point that is not on the curve, or a proof made for another statement, is rejected with (false, error).",
  ["inputs", "configurations"], "all statements and all proofs, honest or not",
  "The tests show a few tampered proofs being rejected; soundness is about every adversarial proof, and a dropped equation is invisible to honest proofs.",
  ["gspfs.go", "equivalence.go", "consistency.go", "crypto.go"],
  [("GSPFSProof.Verify", "gspfs.go"), ("EquivalenceProof.Verify", "equivalence.go"), ("ConsistencyProof.Verify", "consistency.go"), ("GenerateChallenge", "crypto.go")],
  ["Verify results"])

p("C04", "Disjunctive, ABC and inequality verifiers accept exactly valid proofs",
  "The disjunctive, ABC and inequality verifiers accept a proof with scalars in [0,N) if and only if its challenges equal the SHA-256 challenges of the whole statement and commitments, the two disjunctive sub-challenges add up to the challenge modulo N, and every verification equation of both parts holds, the embedded disjunctive proof being checked against this commitment, token and the C of this proof. Everything else, including any point that is not on the curve, is rejected with (false, error).",
  ["inputs", "configurations"], "all statements and all proofs, honest or not",
  "Only a few tampered proofs are in the tests; a verifier that skips one of five equations, or one branch, still accepts every honest proof and rejects the tests' forgeries.",
  ["disjunctive.go", "abc.go", "inequality.go", "crypto.go"],
  [("DisjunctiveProof.Verify", "disjunctive.go"), ("ABCProof.Verify", "abc.go"), ("InequalityProof.Verify", "inequality.go")],
  ["Verify results"])

p("C05", "Range proofs are complete on [0, 2^40) and refuse everything else",
  "For every value in [0, 2^40) the range prover returns a proof and a blinding factor such that the commitment to the value with that factor is the one the proof verifies for, both before and after serialization. For every other value, negative or from 2^40 on, it returns an error and no proof.",
  ["inputs", "configurations"], "all values, all random draws, curve parameters with a matching table of powers",
  "The range tests are switched off by default or try one random value; a fault in one bit position or for one bit pattern is not reached.",
  ["rangeproof.go", "zksigma.go"],
  [("NewRangeProof, proofGenA, proofGenB", "rangeproof.go"), ("RangeProof.Verify", "rangeproof.go"), ("generateH2tothe", "zksigma.go")],
  ["proof, blinding factor and error of NewRangeProof; Verify"])

p("C06", "The range verifier accepts exactly valid range proofs",
  "The range verifier accepts a proof for a commitment if and only if the ring equation holds for every entry against that entry's power of two, the recomputed hash of all ring points equals the proof's challenge, and the entries add up to both the claimed aggregate and the commitment. Altered, swapped, dropped, duplicated or added entries, another commitment, a missing challenge, entries without point or scalar or with a point that is not on the curve, and over-long proofs are rejected with (false, error) and no panic, so no proof makes a commitment to a value outside [0, 2^n) acceptable, n being the number of powers of two in the parameters.",
  ["inputs"], "all proofs with up to the supported number of entries, all commitments",
  "Tests only show one wrong commitment being rejected; adversarial entry lists are unbounded.",
  ["rangeproof.go"],
  [("RangeProof.Verify, verifyGen", "rangeproof.go")],
  ["Verify results"])

p("C07", "Fiat-Shamir challenges bind the whole statement and all commitments",
  "The challenge of every proof is the SHA-256 hash, reduced modulo the group order, of the generators or bases, every public point of the statement and every commitment of the prover, in one fixed order. Changing any one of those inputs to a different point therefore changes the challenge, and proofs are interchangeable with an independent implementation of the same transcript in both directions.",
  ["inputs", "configurations"], "every component of every statement and proof, all points",
  "Prover and verifier share the hashing code, so a component left out on both sides keeps every test green while making proofs forgeable or replayable.",
  ["crypto.go", "gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go"],
  [("GenerateChallenge", "crypto.go"), ("its call in each New*Proof and Verify", "gspfs.go, equivalence.go, disjunctive.go, consistency.go, abc.go")],
  ["challenge fields of proofs; Verify on foreign transcripts"])

p("C08", "Proofs reveal neither the witness nor the side",
  "Taken over all outcomes of the random source, the proofs a prover produces for one statement have the same distribution for every valid witness and, for disjunctive proofs and (apart from the audit token) ABC proofs, for either side. Every response scalar is reduced to [0,N), every secret is masked by its own fresh uniform draw, and two runs with different draws use different nonces.",
  ["inputs", "configurations"], "all witnesses for one statement, all outcomes of the random source",
  "Hiding is a statement about distributions; tests look at single proofs and an unreduced or unmasked response verifies just as well.",
  ["gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "rangeproof.go"],
  [("random draws and reduced responses in each New*Proof", "gspfs.go, equivalence.go, disjunctive.go, consistency.go, abc.go, rangeproof.go")],
  ["proof fields under an enumerated random source"])

p("C09", "A failing random source yields an error, never a proof",
  "If the system's random source fails at any read, fully or after a short read, every randomized operation that can report errors (commitments, all provers, the range prover, key generation for encryption, encryption) returns an error, hands out no usable proof, commitment or ciphertext, and neither panics nor hangs nor leaks goroutines. After the source recovers, the next call succeeds.",
  ["fault_sequences", "schedules"], "every draw of every operation as the failing one, total and partial failures, single and repeated",
  "The tests never inject a fault; the failing draw may be any of up to eighty and run in a goroutine of its own.",
  ["crypto.go", "gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "rangeproof.go", "btcec/ciphering.go", "wire/common.go"],
  [("error returns after rand.Int", "all provers"), ("proverInternalData.errs", "rangeproof.go"), ("Encrypt", "btcec/ciphering.go"), ("RandomUint64", "wire/common.go")],
  ["error results"])

p("C10", "Serialized proofs decode to the same proof in the documented byte format",
  "For every proof of every type, including scalars that are zero, short or have their top bit set, and points at infinity or with short coordinates or with the long ones of larger curves, decoding its bytes gives a proof with the same contents, which encodes to the same bytes again and verifies for exactly the same statements. The bytes are the length-prefixed concatenation of the fields in declaration order, each point as two unsigned big-endian coordinates and each scalar as a sign byte and big-endian magnitude.",
  ["inputs"], "all proofs of all six types, all field contents",
  "Round-trip tests use one random proof per type, whose fields are always full-length.",
  ["crypto.go", "gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "rangeproof.go", "wire/common.go"],
  [("Bytes / New*ProofFromBytes", "each proof file"), ("WriteECPoint, ReadECPoint, WriteBigInt, ReadBigInt", "crypto.go")],
  ["bytes and decoded proofs"])

p("C11", "Decoding hostile bytes never panics, over-allocates or invents a proof",
  "For every byte string, each proof decoder returns either an error or a proof whose fields are all present; truncated input is always an error, a length field never makes it allocate more than the input justifies, and it never panics. A proof decoded from altered bytes never panics in the verifier and is accepted only if it is a valid proof.",
  ["inputs"], "all byte strings: all truncations, single-byte alterations, length-field values and splices of valid encodings",
  "Tests decode only bytes the library wrote itself.",
  ["crypto.go", "gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "rangeproof.go", "wire/common.go"],
  [("error checks in New*ProofFromBytes", "each proof file"), ("ReadVarBytes limit", "wire/common.go"), ("tuple count limit", "rangeproof.go")],
  ["decoder results; Verify on them"])

p("C12", "The variable-length integer and byte-string codec is exact and canonical",
  "Every 64-bit value is written in the shortest of the four encodings, the reported size equals the bytes written, reading returns the value and consumes exactly its bytes, and non-canonical encodings are rejected. Byte strings round-trip, lengths above the caller's limit are rejected before the contents are read, and every failing or truncated read and every failing write of the underlying stream, at any byte, surfaces as an error without a partial result.",
  ["inputs", "fault_sequences"], "all values and encodings (exhaustively around every boundary), all stream faults at every byte",
  "There are no tests of this package at all.",
  ["wire/common.go"],
  [("ReadVarInt, WriteVarInt, VarIntSerializeSize, ReadVarBytes, WriteVarBytes", "wire/common.go"), ("binaryFreeList", "wire/common.go")],
  ["written bytes, values read, bytes consumed, errors"])

p("C13", "Point operations obey the group laws on any curve parameters",
  "Addition, subtraction, negation, scalar multiplication, key generation and token commitment computed through the library's point API agree with the group of the curve for all points including the point at infinity, equal and opposite operands, and for all integer scalars taken modulo the order, whichever curve, G and H the parameters name. Equality of points is equality of both coordinates, and verifying a token accepts exactly the right scalar modulo the order.",
  ["inputs", "configurations"], "all pairs of points and all scalars of small groups; boundary scalars and tracked points on secp256k1; all roles of G and H",
  "The tests use random full-size scalars of one curve, where the exceptional cases never occur.",
  ["crypto.go", "zksigma.go"],
  [("Mult, Add, Sub, Neg, Equal, KeyGen, CommitR, VerifyR", "crypto.go")],
  ["returned points"])

p("C14", "Commitments and tokens add up over any history of transactions",
  "A Pedersen commitment is value*G + randomness*H modulo the order and opens for exactly the value and randomness congruent to those used. Along every sequence of transactions, summing or subtracting commitments and tokens gives the commitment and token of the summed values and randomness, so aggregate openings, consistency proofs, audit (discrete-log equality) proofs and inequality proofs on the totals succeed exactly when the claimed total is the true one.",
  ["histories", "inputs"], "all transaction sequences up to a depth over all values and randomness of small groups, boundary values on secp256k1",
  "The tests check single commitments and one fixed averaging history.",
  ["crypto.go", "consistency.go", "equivalence.go", "inequality.go"],
  [("PedCommit, PedCommitR, Open", "crypto.go"), ("NewConsistencyProof, NewEquivalenceProof", "consistency.go, equivalence.go")],
  ["points along the history, proof results on aggregates"])

p("C15", "No call changes its arguments, the parameters or earlier results",
  "No library call (point operations, commitments, provers, verifiers, encoders, decoders, key, signature and encryption functions) modifies the big integers, points, byte slices (including spare capacity) or proofs passed to it, the curve parameters and package-level constants, or any value returned by an earlier call. Calling the same verifier or encoder again therefore gives the same result, in any order of calls.",
  ["histories", "inputs"], "all single calls and all ordered pairs of calls over a pool of shared values",
  "Tests never look at an argument after a call; in-place big-integer arithmetic on a caller's value goes unnoticed until the value is used again.",
  ["crypto.go", "gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "inequality.go", "rangeproof.go", "btcec/signature.go", "btcec/ciphering.go", "btcec/btcec.go"],
  [("fresh big.Int for every result", "all files"), ("cached Zero, BigZero, TestCurve", "crypto.go, zksigma.go")],
  ["deep snapshots before and after each call"])

p("C16", "Range proving and verifying are correct under every goroutine schedule",
  "However the goroutines that the range prover and verifier start are interleaved, the call returns (no deadlock), leaves no goroutine behind, and gives a correct result: the prover a proof and blinding factor that verify, the verifier the same verdict as under any other schedule, for valid, invalid and malformed proofs.",
  ["schedules", "inputs"], "all schedules up to a delay bound at every curve operation and random draw, for several values, proofs and entry counts",
  "A test run sees one schedule; lost updates, unsynchronized results and blocked senders need a particular order.",
  ["rangeproof.go"],
  [("WaitGroup around proofGenA/proofGenB", "rangeproof.go NewRangeProof"), ("result channel", "rangeproof.go Verify")],
  ["results and remaining goroutines at the end of each schedule"])

p("C17", "Concurrent use of the library does not interfere",
  "Calls running concurrently on shared parameters and shared read-only values (proving, verifying, encoding, decoding, point arithmetic, signing) give each caller the result it would have got alone, under every interleaving and without data races. This includes the stream codec when a caller's reader or writer blocks in the middle of an item or fails.",
  ["schedules"], "all interleavings of pairs and triples of calls at stream, random-source and curve calls; all pairs of calls under the race detector",
  "The tests are sequential; shared scratch buffers or cached values are corrupted only when two calls overlap.",
  ["wire/common.go", "crypto.go", "btcec/btcec.go", "rangeproof.go"],
  [("binaryFreeList Borrow/Return", "wire/common.go"), ("S256 once", "btcec/btcec.go"), ("read-only globals", "crypto.go, zksigma.go")],
  ["each caller's results"])

p("C18", "secp256k1 point arithmetic and base tables are correct",
  "Addition, doubling, scalar multiplication, multiplication of both fixed bases and the on-curve test agree with the secp256k1 group for all points including infinity, equal and opposite points, and for all scalars given as big-endian bytes of any length, with leading zeros and above the order. Every entry of both pre-computed tables is the right multiple, the second base is the documented nothing-up-my-sleeve point, and the signed-digit form of a scalar has its value and no two adjacent non-zero digits.",
  ["inputs"], "all window entries of both tables, all small multiples, boundary scalars and all pairs of special points",
  "No test of this package touches point arithmetic at all (only field tests remain); random scalars never reach the exceptional branches.",
  ["btcec/btcec.go", "btcec/precompute.go", "btcec/secp256k1.go", "btcec/secp256k1H.go"],
  [("addJacobian and its cases, doubleJacobian", "btcec/btcec.go"), ("splitK, NAF, ScalarMult", "btcec/btcec.go"), ("ScalarBaseMult, ScalarBaseMultH, loadS256BytePoints", "btcec/btcec.go, btcec/precompute.go")],
  ["returned coordinates"])

p("C19", "Field arithmetic modulo the secp256k1 prime is exact",
  "Every field operation (set, normalize, add, add small, negate, multiply, multiply by small, square, invert, compare, zero and odd tests, text form) gives the value of the same operation on integers modulo the prime for all operands within the documented magnitude bounds, including values at and above the prime, and for every chain of such operations. In-place use, with the result also an operand, gives the same value.",
  ["inputs", "histories"], "all operands made of boundary limb patterns, all operand pairs, all operation chains up to a depth within the magnitude bounds",
  "The field tests are tables of a few dozen vectors; carries between ten limbs fail only for particular limb patterns.",
  ["btcec/field.go"],
  [("Normalize, Mul2, SquareVal, NegateVal, Inverse", "btcec/field.go")],
  ["string form of results; curve operations built on them"])

p("C20", "Key encodings round-trip and only valid keys parse",
  "Every public key survives each of its three encodings and every private key its 32-byte encoding, whatever leading zeros the coordinates have. Parsing accepts exactly the byte strings of the right length and format byte whose coordinates are below the prime, lie on the curve and match the parity the format states, and returns an error for everything else without panicking.",
  ["inputs"], "all format bytes, all lengths, boundary coordinates, all parities, on and off the curve",
  "There are no tests of keys in the repository.",
  ["btcec/pubkey.go", "btcec/privkey.go"],
  [("ParsePubKey, decompressPoint, Serialize*, paddedAppend", "btcec/pubkey.go"), ("PrivKeyFromBytes, Serialize", "btcec/privkey.go")],
  ["bytes and parsed keys"])

p("C21", "ECDSA signatures are deterministic, low-S and verify exactly",
  "For every private key and non-empty hash of any length, signing gives the RFC 6979 signature with S at most half the order, which verifies under the key's public key, and no other hash, key or altered signature pair verifies except the complementary S and the second key that a pair determines. The signature depends only on the key and the hash bits that count, and on nothing random.",
  ["inputs"], "all keys and hashes of a boundary alphabet, all hash lengths, all single alterations",
  "There are no tests of signing in the repository; nonce derivation faults (padding, hash truncation, retry) appear only for particular keys and hashes.",
  ["btcec/signature.go", "btcec/privkey.go"],
  [("signRFC6979, nonceRFC6979, hashToInt, bits2octets", "btcec/signature.go"), ("Signature.Verify", "btcec/signature.go")],
  ["R and S, verdicts"])

p("C22", "Signature encodings are exact and key recovery returns the signer",
  "Serialized signatures are canonical DER with low S and parse back to the same pair; the strict parser accepts exactly canonical DER with R and S in [1,N-1] (ignoring bytes behind the stated length), the lenient one in addition non-minimal or negative-looking integers, and neither panics on any bytes. Two signatures are equal exactly if both R and S are. A compact signature recovers exactly the signer's public key and compression flag, and recovery from any other bytes yields an error or a key for which the pair verifies.",
  ["inputs"], "all length bytes, all single-byte alterations and truncations, integers of all lengths, all recovery codes",
  "There are no tests of signature parsing in the repository; panics need particular length bytes.",
  ["btcec/signature.go"],
  [("parseSig, canonicalPadding, Serialize", "btcec/signature.go"), ("SignCompact, RecoverCompact, recoverKeyFromSignature", "btcec/signature.go")],
  ["bytes, parsed pairs, recovered keys"])

p("C23", "Encryption round-trips and rejects every altered ciphertext",
  "Decrypting an encryption of any byte string, empty or of any length, with the matching private key returns that byte string, and both sides of a key exchange derive the same secret. Any altered, truncated or extended ciphertext and any other private key gives an error without panicking, the ciphertext has the documented layout, and fresh randomness is used for every encryption.",
  ["inputs"], "all message lengths across block boundaries, all bit positions and truncations of ciphertexts, boundary keys",
  "There are no tests of encryption in the repository.",
  ["btcec/ciphering.go"],
  [("Encrypt, Decrypt, GenerateSharedSecret", "btcec/ciphering.go"), ("addPKCSPadding, removePKCSPadding", "btcec/ciphering.go")],
  ["plaintexts, ciphertext bytes, errors"])

p("C24", "An accepted proof means that its statement is true",
  "For parties who can compute with points and hashes but do not know the logarithm of H, no accepted proof is about a false statement: a GSPFS proof only for a multiple of its base, an equivalence proof only for equal logarithms, a disjunctive proof only if one of the two clauses holds, a consistency proof only if the token is the commitment's randomness times the key, an ABC proof only if its C commits to 0 for a zero value and to 1 otherwise, an inequality proof only for values that differ (both for well-formed tokens of non-zero randomness), a range proof only for a value in its range. This holds for whatever the provers return for any arguments, for proofs used in another role or put together from parts of others, and when the statement is chosen after the commitments.",
  ["inputs"], "all statements, commitments and responses of small alphabets in a group where openings are unique",
  "Tests check that honest proofs verify and a few altered ones do not; none asks whether an accepted proof can be about a false statement.",
  ["gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "inequality.go", "rangeproof.go"],
  [("Verify of every proof type", "*.go"), ("NewABCProof, NewInequalityProof", "abc.go, inequality.go")],
  ["verdicts against the openings of the statement's points"])

p("C25", "ABC proofs support exact counting audits over any history",
  "Every ABC proof the prover returns carries in C a commitment to 0 if the value is zero modulo the order and to 1 otherwise, and in CToken the matching token: the key times the randomness part of C. Along every sequence of transactions, added or removed, with the proofs as returned or after serialization, the sums of C and of CToken therefore let the holder of the key prove by an equivalence proof how many of the values are not zero, and the total in the same way, for exactly the true number and no other, and with no other key.",
  ["histories", "inputs"], "all transaction sequences up to a depth over zero and non-zero values; all values, keys and randomness of small groups",
  "The tests run one history of a hundred non-zero values; zero values, removals, other parameters and false counts never occur, and no verifier looks at CToken.",
  ["abc.go", "equivalence.go", "crypto.go", "disjunctive.go"],
  [("NewABCProof: C and CToken", "abc.go"), ("NewEquivalenceProof / Verify on the sums", "equivalence.go"), ("ABCProof.Bytes, NewABCProofFromBytes", "abc.go")],
  ["C and CToken of each proof, verdict on claimed counts"])

p("C26", "Regenerating the pre-computed tables reproduces them",
  "go generate in btcec runs on the tree as it is and writes both table files; the library built with the regenerated files computes the right multiple of G and of H for every entry of every window, so that regenerated and committed tables are interchangeable. The endomorphism vectors it prints are the short basis a + b*lambda = 0 (mod N) that the library is built with.",
  ["inputs"], "all entries of both generated tables",
  "The tests never build the generator: it sits behind a build tag, and the committed tables would go on working whatever becomes of it.",
  ["btcec/gensecp256k1.go", "btcec/genprecomps.go", "btcec/precompute.go", "btcec/secp256k1.go", "btcec/secp256k1H.go"],
  [("SerializedBytePoints, SerializedBytePointsH, EndomorphismVectors", "btcec/gensecp256k1.go"), ("main", "btcec/genprecomps.go")],
  ["points computed with the regenerated tables, printed vectors"])

p("C27", "Nothing but a complete proof is ever accepted",
  "Verifying a nil proof, an empty proof, or whatever a prover or decoder returned next to an error gives (false, error) without a panic, for every proof type, every statement and every parameter set; in particular a prover that refuses a statement does not hand out a proof that verifies for it. A proof with fields missing is never accepted. A caller who overlooks an error thus neither accepts anything nor crashes.",
  ["inputs"], "all refused calls of every prover over small groups, all truncations of encodings, all failing draws, all subsets of missing fields",
  "Tests check that an error is returned; none verifies what came with it, and none verifies nil.",
  ["gspfs.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "inequality.go", "rangeproof.go"],
  [("nil checks at the start of every Verify", "each proof file"), ("error returns of every New*Proof and New*ProofFromBytes", "each proof file")],
  ["what provers and decoders return next to an error; Verify on it"])

p("C28", "A ledger of verified transfers conserves value and can be audited",
  "Put together as in zkLedger - per account and transfer a commitment to the amount with its token, a second commitment with a range proof, consistency proofs for both, and a disjunctive proof that the second one holds the amount or, for the payer, what is left in the account - the proofs keep a ledger live and sound over every history. A transfer that the payer can afford gets proofs that all verify, directly and after serialization; a row that overdraws an account, takes from an account without its key, creates or destroys value, carries tokens for another key, or uses missing, exchanged or earlier proofs does not verify. After every history each holder can prove its true balance and its true number of non-zero entries and no others, and so can nobody else.",
  ["histories", "inputs"], "all histories of payments up to a depth from several opening balances, at the ends of the range too, with every cheating row of a list in every state",
  "The tests use each proof alone and once; the statements here are sums over histories, and the soundness of a row rests on four proofs and on what each of them binds.",
  ["crypto.go", "equivalence.go", "disjunctive.go", "consistency.go", "abc.go", "inequality.go", "rangeproof.go"],
  [("New*Proof, Verify, Bytes, New*ProofFromBytes of each proof type", "each proof file"), ("PedCommitR, CommitR, Add, Sub, Mult, Open, VerifyR", "crypto.go")],
  ["verdicts on rows and audit claims over histories"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
