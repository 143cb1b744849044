#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as the readable source of the property list).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
      "why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
      "observe_at":observe or [], "hook_needed":None}})
I=["inputs"]
p("P01","Honest sigma proofs always verify",
 "Whenever a prover of a Schnorr, equivalence, disjunctive (either side), consistency, ABC (zero or non-zero value) or inequality proof is given a witness that satisfies its public statement, it returns a proof without error, and verifying that proof against the same statement returns true with no error. This holds for every witness (also values outside [0,N), negative or larger than the group order), every set of base points, every nonce drawn and every hash output.",
 I,"all witnesses, base points, nonces and hash outputs",
 "The tests run a few random or small witnesses with the default generators; they do not reach boundary witnesses, coinciding points, or all nonce/challenge combinations.",
 ["gspfs.go","equivalence.go","disjunctive.go","consistency.go","abc.go","inequality.go","crypto.go"],
 [("prover algebra s = u +/- c*x mod N","New*Proof"),("verification equations","*.Verify")],["(bool, error) of Verify"])
p("P02","Provers refuse statements their witness does not satisfy",
 "A sigma-proof prover returns an error, and no usable proof, whenever the supplied secret does not satisfy the public statement: a Schnorr/equivalence secret that is not the discrete log of every result, a disjunctive secret wrong for the chosen side or an unknown side, a consistency value/randomness that does not open the commitment and token, an ABC side that contradicts the value (or, for the zero side, a token not matching the key), or an inequality proof for equal values.",
 I,"all statements and witnesses that do not satisfy them",
 "Tests try one or two wrong witnesses per prover; a refusal that is missing for particular points (for example points sharing one coordinate) is not sampled.",
 ["gspfs.go","equivalence.go","disjunctive.go","consistency.go","abc.go","inequality.go","crypto.go"],
 [("statement checks before proving","New*Proof"),("point equality","ECPoint.Equal")])
p("P03","Schnorr, equivalence and consistency verifiers are special sound",
 "If a Schnorr, equivalence or consistency verifier accepts two proofs whose Fiat-Shamir hash inputs are identical but whose challenges differ, then the witness computed from the two responses satisfies the verified statement: it is the discrete log to every base, respectively it opens the commitment and the token with the same randomness. This holds for arbitrary adversarial proofs and statements, including the choice of base point carried by a proof.",
 I,"all adversarial proofs and statements (points and scalars), all pairs of oracle answers",
 "Tests only mutate honest proofs in a few ways; soundness quantifies over every forged proof.",
 ["gspfs.go","equivalence.go","consistency.go","crypto.go"],
 [("challenge recomputation","GenerateChallenge"),("verification equations","Verify"),("point equality","ECPoint.Equal")])
p("P04","Disjunctive verification is special sound",
 "If the disjunctive verifier accepts two proofs with identical hash inputs but different challenges, the responses yield a discrete log of the first result to the first base or of the second result to the second base. This holds for arbitrary adversarial proofs and statements.",
 I,"all adversarial disjunctive proofs and statements, all pairs of oracle answers",
 "Tests mutate a handful of honest proofs.",
 ["disjunctive.go","crypto.go"],[("C1+C2=C check","DisjunctiveProof.Verify"),("branch equations","DisjunctiveProof.Verify")])
p("P05","ABC and inequality verification are special sound",
 "An ABC or inequality verifier accepts only proofs whose embedded disjunctive proof is valid for the same commitment, token and indicator commitment, and two accepted proofs with the same outer hash input and different challenges yield openings with which the indicator commitment equals the value times the inverse commitment and the value commitment opens under the token. This holds for arbitrary adversarial proofs and statements.",
 I,"all adversarial proofs and statements, all pairs of oracle answers",
 "Tests use one tampered proof per kind.",
 ["abc.go","inequality.go","disjunctive.go"],[("two product equations","ABCProof.Verify"),("embedded disjunctive proof","ABCProof.Verify")])
p("P06","A proof verifies only for the statement it was made for",
 "Every sigma-proof challenge is bound to the whole public statement and to every prover commitment the verifier uses: two verifications that query the hash with the same input have the same bases, results, commitments, tokens, keys and prover commitments (and the same proof base for Schnorr). A verifier whose recomputed challenge differs from the one in the proof returns false with an error.",
 I,"all pairs of statements and proofs with non-identity points",
 "A test can only show that some other statement is rejected, not that no other statement shares the hash input.",
 ["gspfs.go","equivalence.go","disjunctive.go","consistency.go","abc.go","crypto.go"],[("hash inputs","GenerateChallenge call sites"),("challenge comparison","Verify")])
p("P07","Proof responses are masked: transcripts do not depend on the witness",
 "Every scalar in an honestly generated sigma or range proof is a canonical residue in [0,N), and for a sigma proof with a fixed statement, hash answers and witness the map from prover nonces to the published scalars and commitments is injective and reaches the same transcripts for every valid witness and side. Hence published sigma proofs carry no information on the secret or the chosen side.",
 I,"all witnesses, nonces and challenges",
 "Leakage is a statement about the distribution over all nonces, not about any sampled proof.",
 ["gspfs.go","equivalence.go","disjunctive.go","consistency.go","abc.go","rangeproof.go"],[("nonce masking and reduction mod N","New*Proof")])
p("P08","Range proofs for every value in range verify",
 "For every value v with 0 <= v < 2^40, every nonce and every hash output, range proving succeeds and returns a blinding r such that the proof verifies against the commitment vG + rH, and against no other commitment.",
 I,"all 40-bit values, nonces and hash outputs",
 "Tests try four fixed values; 2^40 values and all bit patterns cannot be sampled.",
 ["rangeproof.go","zksigma.go"],[("bit commitments and ring equations","proofGenA/proofGenB/NewRangeProof"),("ring verification","RangeProof.Verify")])
p("P09","Range proving refuses values outside [0, 2^40)",
 "Range proving returns an error and no proof for every negative value and every value of at least 2^40; it never truncates the value.",
 I,"all integers","Tests use one negative and one too-large value, not the boundary.",
 ["rangeproof.go"],[("bound checks","NewRangeProof")])
p("P10","An accepted range proof bounds the committed value",
 "A range verifier that accepts has checked, for every bit commitment, the ring equation that forces it to commit to 0 or to its own power of two, that the ring challenge is the hash of all recomputed ring points, and that the bit commitments sum to both the announced aggregate and the verified commitment. Consequently no proof with more than 64 positions (the supported number), with tampered bit commitments, responses or aggregate, or for another commitment is accepted beyond hash collisions.",
 I,"all adversarial range proofs up to the stated number of positions and all commitments",
 "Tests tamper with nothing or a single field.",
 ["rangeproof.go"],[("verifyGen ring equation","rangeproof.go"),("aggregate checks","RangeProof.Verify")])
p("P11","Concurrent proving and verifying is deterministic and race free",
 "Range proving and range verification start goroutines whose scheduling never influences the result: for equal nonces and hash answers every interleaving yields the same proof, blinding and verdict, without data races, deadlocks, lost updates or goroutines left blocked.",
 ["schedules","inputs"],"all interleavings at synchronisation points of the goroutines, all nonces",
 "A test run samples one schedule.",
 ["rangeproof.go"],[("WaitGroup/channel coordination","NewRangeProof, RangeProof.Verify")])
p("P12","Pedersen commitments open exactly to what was committed, homomorphically",
 "A commitment to any integers (v, r) equals vG + rH with v and r taken modulo the group order; opening it succeeds for exactly the pairs (v', r') with v'G + r'H equal to the commitment; sums and differences of commitments commit to the sums and differences. Key commitments r*PK are verified exactly against that point.",
 I,"all integers v, r (negative, zero, beyond N) and all claimed commitments",
 "Tests check a few small pairs.",
 ["crypto.go"],[("reduction mod N and two-term sum","PedCommitR/Open/CommitR/VerifyR")])
p("P13","Point operations form the curve group, with correct equality and identity",
 "For all points of the curve (identity included) addition, subtraction, negation and scalar multiplication of the point API agree with the group law, whichever shortcut (generators, identity) applies. Two points compare equal exactly when both coordinates agree.",
 I,"all pairs of points and all integer scalars",
 "Tests use a few points; coinciding, opposite and identity operands are not all covered, and equality is tested on unrelated points only.",
 ["crypto.go"],[("Mult/Add/Sub/Neg/Equal","crypto.go")])
p("P14","Serialised proofs round-trip",
 "For every proof of every kind, decoding its serialisation gives back a proof equal in every field, and the same verdict on verification; points and integers (also zero, negative, identity and of up to 4095 bytes) written to a stream are read back unchanged and leave the stream at the following byte.",
 I,"all field values up to the stated byte lengths","Tests round-trip a few honest proofs.",
 ["crypto.go","gspfs.go","equivalence.go","disjunctive.go","consistency.go","abc.go","rangeproof.go","wire/common.go"],[("Bytes / New*FromBytes","each proof file"),("Write/ReadECPoint, Write/ReadBigInt","crypto.go")])
p("P15","Decoding untrusted proof bytes is total",
 "Decoding any byte string as any kind of proof, point or integer terminates without panicking or allocating more than a small multiple of the input size, and reports an error whenever the input is truncated or malformed rather than returning a proof with missing fields. Bytes after a complete proof are not looked at.",
 I,"all byte strings up to the stated length","Tests feed a few truncated inputs; the space of byte strings is unbounded.",
 ["crypto.go","gspfs.go","equivalence.go","disjunctive.go","consistency.go","abc.go","rangeproof.go","wire/common.go"],[("length limits and error propagation","ReadVarBytes, New*FromBytes")])
p("P16","Verifiers reject incomplete proofs instead of crashing",
 "Verifying a nil proof, or a proof with missing points, missing scalars, a missing embedded proof or an unexpected number of positions, returns false with an error and never panics, in the caller or in any goroutine.",
 I,"all subsets of missing fields, all tuple counts up to the bound","Tests cover nil receivers and a few fields.",
 ["gspfs.go","equivalence.go","disjunctive.go","consistency.go","abc.go","inequality.go","rangeproof.go"],[("nil checks","Verify")])
p("P17","Proving, verifying and committing never modify their inputs or globals",
 "No proving, verifying, committing, serialising or point operation of the package changes the integers and points passed to it, the curve parameters, or the package-level constants; results do not alias mutable state so that later operations on a returned value cannot change an input.",
 ["inputs","histories"],"all inputs and operations","Tests never compare arguments before and after.",
 ["crypto.go","abc.go","rangeproof.go","consistency.go","disjunctive.go"],[("fresh big.Int results","all operations")])
p("P18","Variable-length integers are canonical and round-trip",
 "Every 64-bit value is written as a variable-length integer in the minimal form whose length equals the predicted size, reads back to the same value consuming exactly those bytes, and every non-minimal or truncated encoding is rejected with an error.",
 I,"all 2^64 values and all byte strings up to 10 bytes","Only one value is exercised indirectly.",
 ["wire/common.go"],[("ReadVarInt/WriteVarInt/VarIntSerializeSize","wire/common.go")])
p("P19","Variable-length byte strings are bounded and round-trip",
 "A byte string written with a length prefix reads back identically; reading never returns or allocates more than the permitted maximum, and returns an error for longer declared lengths or for truncated data.",
 I,"all byte strings up to the bound, all declared 64-bit lengths, all limits","Never tested directly.",
 ["wire/common.go"],[("ReadVarBytes/WriteVarBytes","wire/common.go")])
p("P20","Field arithmetic is exact modulo the curve prime",
 "The 256-bit field implementation computes exactly modulo the curve prime: every operation (load, store, normalise, negate, add, integer and field multiplication, squaring, comparison, parity, zero test, inversion) yields the mathematically correct residue for all operands within its documented magnitude limits and free of aliasing where it is forbidden, without internal overflow.",
 I,"all operands within magnitude limits","Tests use fixed vectors; carry corner cases occur for a 2^-22 or smaller fraction of operands.",
 ["btcec/field.go"],[("10x26 limb arithmetic","field.go")])
p("P21","Curve addition and doubling follow the group law in every case",
 "Affine and projective addition and doubling return the correct group element for all operands, including the identity on either side, equal points, opposite points and operands with or without unit denominators; the on-curve test accepts exactly the curve points.",
 I,"all pairs of points in any representation","There is no test of point arithmetic beyond a few multiplications.",
 ["btcec/btcec.go"],[("addZ1AndZ2EqualsOne/addZ1EqualsZ2/addZ2EqualsOne/addGeneric/double*","btcec.go")])
p("P22","Scalar multiplication computes k*P for every scalar",
 "Multiplying any curve point by any byte-string scalar (zero, leading zeros, longer than 32 bytes, above the order) yields the group element k*P; the endomorphism split and signed-digit recoding it relies on are exact for every scalar.",
 I,"all scalars and points","Tests multiply by a few random scalars.",
 ["btcec/btcec.go"],[("splitK, NAF, moduloReduce, ScalarMult","btcec.go")])
p("P23","Base-point multiplications agree with general multiplication",
 "Multiplying either generator through its precomputed table gives the scalar multiple of that generator, for every byte-string scalar of any length, and leaves the scalar alone; every entry of both tables is the multiple it stands for, of one point on the curve (G for the first). Mult is the scalar multiple for G, for the H of the default parameters and for any other H; the powers-of-two points of the default parameters are 2^i times the base that committed values multiply.",
 I,"all scalars of the listed lengths up to 32 bytes, reduction of up to 64, edge values beyond; all 16384 table entries; all H","Tests compare a few scalars.",
 ["btcec/btcec.go","btcec/precompute.go","btcec/secp256k1.go","btcec/secp256k1H.go","zksigma.go","crypto.go"],[("ScalarBaseMult/ScalarBaseMultH tables","btcec.go"),("Mult","crypto.go"),("generateH2tothe, TestCurve","zksigma.go")])
p("P24","Public keys parse exactly when they encode a curve point",
 "Parsing a public key succeeds exactly for byte strings that are a valid compressed, uncompressed or hybrid encoding of a curve point with coordinates below the field prime and matching parity, and returns that point; serialising a key in each format and parsing it returns the same key. Malformed input yields an error, never a panic.",
 I,"all byte strings of length 0..66","There are no public-key tests in the repository.",
 ["btcec/pubkey.go"],[("ParsePubKey/decompressPoint/Serialize*","pubkey.go")])
p("P25","DER signatures round-trip and malformed signatures are rejected safely",
 "Serialising any signature with 1 <= r,s < N (s in its low form) gives an encoding that both parsers accept and map back to the same r and (low) s; parsing arbitrary bytes never panics and accepts only signatures with r and s in that range.",
 I,"all byte strings up to the stated length, all r and s","There are no signature tests in the repository.",
 ["btcec/signature.go"],[("parseSig/Serialize/canonicalizeInt","signature.go")])
p("P26","Signing, verification and key recovery agree",
 "A private key's signature (r, s) of a hash has r in [1,N) the x coordinate of kG modulo N and s in [1, N/2] with s = +/-(e + r d)/k, where e is the hash's first 32 bytes and k the nonce of RFC 6979 for key and hash, so that signing is deterministic and the signature verifies under the public key; verification is crypto/ecdsa's for the same key, hash, r and s. Recovering from the compact form of a signature returns the signing public key and the compression flag. Any other byte string given to recovery yields either the key Q with rQ = sR - eG for the point R the header selects, or an error exactly when the header, r, s or x are out of range, R does not exist or Q would be infinite; it never panics. Signatures whose nonce point has x = N are outside: nobody knows such a nonce.",
 I,"all keys, hashes, nonces and compact signatures","There are no signing tests in the repository.",
 ["btcec/signature.go","btcec/privkey.go","btcec/pubkey.go"],[("signRFC6979, nonceRFC6979, SignCompact, recoverKeyFromSignature","signature.go"),("decompressPoint","pubkey.go")])
p("P27","Encryption round-trips and tampered ciphertexts are rejected",
 "Decrypting an encrypted message with the matching private key returns the message, for every length and whatever the nonce, key and vector; the output is 16+70+padded length+32 bytes. Decrypt of any bytes does not panic, and it succeeds exactly when the length fits (at least 134, whole blocks), the curve and length markers are right, the point is on the curve, the authentication code over everything before it matches, and the last byte of the decrypted text is at most 16; it then returns the decrypted text without the padding. Neither function changes the caller's buffers, spare capacity included.",
 I,"all keys, messages of the listed lengths to 33 bytes, arbitrary ciphertexts of the listed lengths to 166 bytes","There are no encryption tests in the repository.",
 ["btcec/ciphering.go"],[("Encrypt/Decrypt/addPKCSPadding/removePKCSPadding","ciphering.go")])
p("P28","Randomness failures surface as errors",
 "If the system randomness source fails at any draw, proving, committing and random-number functions (those that return an error; KeyGen does not) report an error instead of returning a proof or commitment made with missing randomness, and do not crash or hang.",
 ["fault_sequences","inputs"],"a failure at any draw","Tests never inject randomness failures.",
 ["gspfs.go","equivalence.go","disjunctive.go","consistency.go","abc.go","rangeproof.go","crypto.go","wire/common.go"],[("error propagation","rand.Int call sites")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
