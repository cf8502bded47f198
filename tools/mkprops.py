"""Writes /verif/properties.jsonl."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or ["return values of the public API"],
            "hook_needed": None,
        },
    })


prop("C01", "Base-mode runs output exactly the PRF of the specification",
     "In the base mode, for every key, input, blinding factor and RNG, blinding, evaluating and finalizing give exactly the output that RFC 9497 defines for that key and input, and the server's own direct evaluation gives the same bytes. "
     "The blinded message is the hashed input times the blind, and the evaluated message is the blinded message times the key. The result does not depend on the blind.",
     ["inputs"], "all keys, inputs up to 65535 bytes, blinds, RNG outputs, and any evaluated element received by the client",
     "The tests run a handful of RFC vectors and a few random keys; they cannot cover every key, blind and input length.",
     ["src/oprf.rs", "src/common.rs"],
     [("OprfClient::blind / finalize", "src/oprf.rs"), ("OprfServer::blind_evaluate / evaluate", "src/oprf.rs"),
      ("server_evaluate_hash_input, deterministic_blind_unchecked", "src/common.rs")])
prop("C02", "Honest verifiable runs succeed, singly and in batches",
     "In the verifiable mode, an answer made by a server for a client's blinded elements always passes that client's verification against the server's public key, and every output is the one RFC 9497 defines for the key and that input. "
     "The i-th output of a batch belongs to the i-th input. The one-shot batch function and the two-step (prepare, finish) one give the same results, and the server's direct evaluation agrees.",
     ["inputs", "configurations"], "all keys, inputs, blinds, RNG outputs, batch contents; one-element, batch and two-step APIs",
     "Tests sample a few random batches of equal inputs; completeness has to hold for every key, blind, nonce and batch content.",
     ["src/voprf.rs", "src/common.rs"],
     [("generate_proof / verify_proof / compute_composites", "src/common.rs"),
      ("VoprfServer::batch_blind_evaluate*, VoprfClient::batch_finalize", "src/voprf.rs")])
prop("C03", "Honest partially oblivious runs succeed for every public info",
     "In the partially oblivious mode, an answer made by a server for any info always passes the client's verification with the same info, and every output is the one RFC 9497 defines for the key, that input and that info, unless the info tweaks the key to zero. "
     "An absent info means the same as an empty one everywhere. Batch, two-step and direct evaluation by the server agree with it.",
     ["inputs", "configurations"], "all keys, inputs, infos (also absent and empty), blinds, RNG outputs, batch contents",
     "Tests use one fixed info; no test uses an absent info with the direct evaluation, long infos, or infos that nearly cancel the key.",
     ["src/poprf.rs", "src/common.rs"],
     [("compute_tweak / compute_tweaked_key", "src/poprf.rs"), ("finalize_after_unblind", "src/poprf.rs"),
      ("generate_proof / verify_proof", "src/common.rs")])
prop("C04", "Verifiable mode: the client accepts exactly the valid proofs",
     "The client of the verifiable mode accepts a server's answer if and only if the proof verifies, by RFC 9497's VerifyProof, for the given public key and for exactly the elements it sent and received, in their order. "
     "Otherwise it fails with the proof verification error and yields no output. On acceptance each output is the hash of the input and of the unblinded received element.",
     ["inputs", "fault_sequences"], "all client states, public keys, received elements and proofs (honest, corrupted, forged), batches",
     "Tests try one wrong public key per suite; soundness is about every forged proof, element and key.",
     ["src/voprf.rs", "src/common.rs"],
     [("verify_proof", "src/common.rs"), ("compute_composites", "src/common.rs"), ("verifiable_unblind", "src/voprf.rs")])
prop("C05", "Partially oblivious mode: the client accepts exactly the valid proofs",
     "The client of the partially oblivious mode accepts a server's answer if and only if the proof verifies, by RFC 9497's VerifyProof, for the public key tweaked with the client's info and for exactly the elements it sent and received, in their order. "
     "Otherwise it fails with the proof verification error, or with the protocol error if the tweaked key is the identity, and yields no output. On acceptance each output is the hash of the input, the info and the unblinded received element.",
     ["inputs", "fault_sequences"], "all client states, public keys, infos, received elements and proofs, batches",
     "Tests try one wrong public key per suite, and never a wrong info; soundness is about every forgery.",
     ["src/poprf.rs", "src/common.rs"],
     [("compute_tweaked_key", "src/poprf.rs"), ("poprf_unblind", "src/poprf.rs"), ("verify_proof", "src/common.rs")])
prop("C06", "Batches of wrong shape are refused with the batch error, without panics",
     "Batch operations on the server and on the client fail with the batch error, never panic and never answer for a part of the batch, when the numbers of corresponding elements (client states and answers; blinded and prepared elements) differ or exceed 65535. "
     "Every batch of up to 65535 corresponding elements passes this check.",
     ["inputs", "configurations"], "all pairs of collection sizes, from zero to beyond 65535, in both verifiable modes, all batch entry points",
     "No test passes mismatching or oversized batches.",
     ["src/common.rs", "src/voprf.rs", "src/poprf.rs"],
     [("length checks in compute_composites", "src/common.rs"), ("length check in finalize_after_unblind", "src/poprf.rs")])
prop("C07", "Batch proofs bind every element to its position",
     "For every batch, the proof's weight of the i-th pair of elements is derived from the transcript of RFC 9497: the seed of the public key, the two-byte index i, and both elements, for every position up to the last one. "
     "Prover and verifier use the same weights and every pair enters the proof with its own weight.",
     ["inputs", "configurations"], "all positions in batches of hundreds of elements, crossing the one-byte boundary of the index; prover and verifier; both verifiable modes",
     "Test batches have at most 10 elements, with which the index never leaves its low byte, and prover and verifier can be wrong in the same way.",
     ["src/common.rs"], [("compute_composites", "src/common.rs")])
prop("C08", "Wire encodings are exact, canonical and totally decoded",
     "Every client state, server state, message and proof decodes to exactly the value that was encoded, and encodes to the concatenation of its fields' fixed-length encodings in the documented order and length. "
     "Decoding arbitrary bytes never panics; it fails with the deserialization error if the bytes are too short or any field is not a valid, canonical encoding, and otherwise re-encoding gives back the bytes that were read.",
     ["inputs"], "all byte strings (of any length around the encoded one), all values of the nine serializable types",
     "Proptest feeds random strings that are practically never valid; round trips are tested for one value each.",
     ["src/serialization.rs"], [("serialize / deserialize of the nine types, take_ext", "src/serialization.rs")])
prop("C09", "NIST curves: only canonical scalars and points are accepted",
     "For the P-256, P-384 and P-521 suites, decoding a scalar accepts exactly the fixed-length big-endian encodings of the integers from 1 to the group order minus 1. Decoding an element accepts exactly the compressed SEC1 encodings of points on the curve, never the identity, and re-encoding gives back the same bytes. "
     "Everything else fails with the deserialization error and nothing panics.",
     ["inputs"], "all byte strings of all lengths up to beyond the encoded length",
     "Tests check the identity and zero only, and random strings that are practically never near the boundaries.",
     ["src/group/elliptic_curve.rs"], [("deserialize_elem / deserialize_scalar / serialize_elem", "src/group/elliptic_curve.rs")])
prop("C10", "ristretto255: only canonical, non-zero scalars and elements are accepted",
     "For the ristretto255 suite, decoding a scalar accepts exactly the 32-byte little-endian encodings of the integers from 1 to the group order minus 1, and decoding an element accepts exactly the canonical 32-byte encodings of non-identity elements. "
     "Everything else, of any length, fails with the deserialization error; nothing panics, and encoding gives back the decoded bytes.",
     ["inputs"], "all byte strings of all lengths up to beyond 32",
     "Tests check the identity and zero only, and random strings.",
     ["src/group/ristretto.rs"], [("deserialize_elem / deserialize_scalar / serialize_*", "src/group/ristretto.rs")])
prop("C11", "Length limits are enforced exactly, before anything is sent",
     "Inputs of up to 65535 bytes are accepted by every operation that takes one and longer ones are refused with the input error, already when blinding. Infos of up to 65535 bytes are accepted and longer ones are refused with the info error (key derivation: its own error). "
     "No length is ever truncated in a hashed transcript.",
     ["inputs"], "all input and info lengths from 0 to beyond 65535, in all modes and operations",
     "No test uses an input or info longer than 64 bytes.",
     ["src/common.rs", "src/oprf.rs", "src/voprf.rs", "src/poprf.rs"], [("i2osp_2", "src/common.rs"), ("compute_tweak / compute_tweaked_key", "src/poprf.rs")])
prop("C12", "Keys are derived as specified, are never zero, and match the public key",
     "Deriving a key from a seed and info hashes the seed, the two-byte length of the info, the info and a one-byte counter from 0 under the mode's key derivation tag, and takes the first non-zero result, failing with the protocol error after 256 zeros. "
     "A server made from an RNG uses one fresh scalar-length seed and an empty info; one made from key bytes uses exactly that key. The public key is always the generator times the private key.",
     ["inputs", "fault_sequences"], "all seeds, infos, RNG outputs, key bytes, and any number of zero hash results up to 256",
     "A zero hash result never occurs in a test, and only one seed per suite is tested.",
     ["src/common.rs", "src/oprf.rs", "src/voprf.rs", "src/poprf.rs"],
     [("derive_key_internal / derive_keypair", "src/common.rs"), ("new / new_with_key / new_from_seed", "src/oprf.rs, src/voprf.rs, src/poprf.rs")])
prop("C13", "Blinds and proof nonces are fresh, uniform draws used only as specified",
     "Each blinding uses exactly one scalar drawn from the caller's RNG as the blind, and each proof, for a batch of any size, exactly one fresh scalar as the nonce; nothing else consumes or replaces randomness, and successive operations use successive draws. "
     "The response of a proof is the nonce minus the challenge times the key that evaluated the elements.",
     ["inputs", "histories"], "all RNG outputs, keys, elements, sequences of operations with one RNG",
     "Tests with a mock RNG fix its output and see only the final values of some vectors.",
     ["src/common.rs", "src/oprf.rs", "src/voprf.rs", "src/poprf.rs"], [("generate_proof", "src/common.rs"), ("blind", "src/oprf.rs, src/voprf.rs, src/poprf.rs")])
prop("C14", "Secrets are erased when dropped",
     "When a client state, server state, message, prepared value or proof is dropped, every field of it is overwritten with zeros, whatever its values and however it was made (also clones). "
     "The types are the client and server states of the three modes, blinded and evaluation elements, prepared evaluation elements and tweaks, and proofs.",
     ["inputs", "histories"], "all values of the eleven types holding group elements or scalars",
     "Tests look at one value of some of the types, and not at the prepared tweak and prepared elements.",
     ["src/common.rs", "src/oprf.rs", "src/voprf.rs", "src/poprf.rs"], [("ZeroizeOnDrop derives", "src/common.rs, src/oprf.rs, src/voprf.rs, src/poprf.rs")])
prop("C15", "Shipped suites hash to group and scalar as their RFC suites say",
     "The shipped suites map a message and a domain separation tag to a scalar and to an element exactly as the RFC 9380/9497 suites prescribe: expand_message_xmd over the suite's hash with the whole tag and message, with the prescribed output length, reduced or mapped by the prescribed function. "
     "Suite identifiers, hash functions and encoded lengths are the registered ones.",
     ["inputs", "configurations"], "all messages (in any split into parts) and tags within the bounds; ristretto255 and the three NIST curves",
     "Tests compare a handful of vectors with fixed tags.",
     ["src/group/ristretto.rs", "src/group/elliptic_curve.rs", "src/ciphersuite.rs"],
     [("hash_to_curve / hash_to_scalar", "src/group/ristretto.rs, src/group/elliptic_curve.rs"), ("CipherSuite", "src/ciphersuite.rs")])
prop("C16", "Degenerate values are refused instead of used",
     "An input that hashes to the identity element is refused with the input error by blinding and by direct evaluation, an info that tweaks the private key to zero is refused with the protocol error by every server operation, and one that tweaks the public key to the identity by the client. "
     "Zero is never inverted, and no degenerate value is refused wrongly.",
     ["inputs", "fault_sequences"], "all inputs and infos, with arbitrary hash results including identity, zero and the negated key",
     "Such hash values have negligible probability: no test can meet one.",
     ["src/common.rs", "src/oprf.rs", "src/voprf.rs", "src/poprf.rs"],
     [("identity checks of evaluate and blind", "src/oprf.rs, src/voprf.rs, src/poprf.rs, src/common.rs"), ("compute_tweak / compute_tweaked_key", "src/poprf.rs")])
prop("C17", "Serde (de)serialization round-trips and validates like the wire format",
     "With the serde feature, every serializable type round-trips through a serde data format, as a sequence or as a map of named fields, to an equal value whose fields are their fixed-length wire encodings. "
     "Deserializing never yields a value with a field that the wire format would refuse: invalid, non-canonical, identity, zero or wrongly sized fields are errors, not panics.",
     ["inputs", "configurations"], "all field bytes, all values of the eleven types, sequence and map representations",
     "Serde is not tested at all beyond compiling.",
     ["src/serialization.rs", "src/common.rs", "src/oprf.rs", "src/voprf.rs", "src/poprf.rs"],
     [("serde::Element, serde::Scalar", "src/serialization.rs"), ("derives", "src/common.rs, src/oprf.rs, src/voprf.rs, src/poprf.rs")])
prop("C18", "A blinded element reveals nothing about the input",
     "For any two inputs, every blinding factor for the one has exactly one counterpart for the other that leads to the same blinded message, so with a uniform blind the message is independent of the input. This holds in all three modes. "
     "The blinded message is a function of the input and one blind only.",
     ["inputs"], "all pairs of inputs and blinds, three modes",
     "A statement about the distribution over all blinds cannot be sampled.",
     ["src/common.rs", "src/oprf.rs", "src/voprf.rs", "src/poprf.rs"], [("deterministic_blind_unchecked", "src/common.rs")])
prop("C19", "Accepted proofs imply the key relation (special soundness)",
     "If the verifier accepts two answers that have the same first-message commitments but different challenges, then all received elements together satisfy the key relation with the public key (in partially oblivious mode, the tweaked one): a server cannot answer with another key except by guessing the challenge. "
     "In particular, for an element evaluated with another key at most one challenge value per commitment is accepted.",
     ["inputs", "fault_sequences"], "all public keys, elements, infos, pairs of proofs, hash values",
     "A statement about all pairs of forged proofs.",
     ["src/common.rs", "src/voprf.rs", "src/poprf.rs"], [("verify_proof", "src/common.rs")])
prop("C20", "Saving and restoring any state or message mid-protocol changes nothing",
     "A run in which every client state, server state, message and proof is encoded and decoded again between any two steps behaves exactly like the uninterrupted run: same messages, same outputs, same verdicts. "
     "Cloning likewise, and using a state twice gives the same result twice.",
     ["histories", "crash_points", "inputs"], "all keys, inputs, blinds, nonces; a save/restore point after each step, in the three modes",
     "Tests never restart a run from serialized states.",
     ["src/serialization.rs", "src/oprf.rs", "src/voprf.rs", "src/poprf.rs"], [("serialize / deserialize", "src/serialization.rs")])
prop("C21", "Modes, suites and purposes are domain-separated",
     "Every hash-to-group, hash-to-scalar and key derivation query carries the tag RFC 9497 prescribes: purpose label, protocol version, the byte of the mode (0, 1, 2) of the called API, a dash, and the full suite identifier. "
     "No two different purposes, modes or suites ever share a tag; the composite seed includes its own tag the same way.",
     ["configurations", "inputs"], "all operations of the three modes and two suites with identifiers of different lengths",
     "Vectors pin one suite at a time and do not isolate the tag of each query.",
     ["src/common.rs", "src/oprf.rs", "src/voprf.rs", "src/poprf.rs"], [("Dst", "src/common.rs"), ("Mode::to_u8", "src/common.rs")])
prop("C22", "Arbitrary bytes from a peer or from storage never crash either side",
     "Whatever bytes a client or server receives as messages, proofs, public keys or stored states, it either refuses them when decoding or completes the operation with a result or one of the documented errors, without panicking. "
     "This covers whole exchanges with a malicious peer in all three modes.",
     ["inputs", "fault_sequences"], "all byte strings in place of every received object, all modes",
     "The proptests decode random strings, which practically never decode, so later steps never see hostile values.",
     ["src/serialization.rs", "src/oprf.rs", "src/voprf.rs", "src/poprf.rs", "src/common.rs"],
     [("deserialize", "src/serialization.rs"), ("finalize, blind_evaluate", "src/oprf.rs, src/voprf.rs, src/poprf.rs")])
prop("C25", "Random scalars are non-zero draws from the caller's RNG",
     "A random scalar of a shipped group is never zero, and it is a function of the first draw of fresh RNG bytes that does not give zero: draws that give zero are discarded without a trace, nothing beyond the accepted draw is consumed, and no output of the RNG makes the call fail.",
     ["inputs", "fault_sequences"], "RNGs that first output zeros for any of the first two draws, and any accepted draw within the bounds; ristretto255 and the NIST curves",
     "An RNG never gives a zero scalar in a test: the retry has negligible probability.",
     ["src/group/ristretto.rs", "src/group/elliptic_curve.rs"], [("random_scalar", "src/group/ristretto.rs, src/group/elliptic_curve.rs")])
prop("C23", "Secret-dependent timing",
     "Operations on private keys, blinds and proof nonces take time and access memory independently of the values of these secrets.",
     ["inputs"], "all pairs of secret values for equal public values",
     "Tests do not measure or analyse timing.",
     ["src/common.rs", "src/group/mod.rs"], [("constant-time group operations, ct_eq", "src/group/mod.rs, src/common.rs")])
prop("C24", "Pseudorandomness and one-more unpredictability",
     "Without the key, outputs for inputs that were not evaluated are computationally indistinguishable from random, even after interacting with the server.",
     ["inputs", "histories"], "all efficient adversaries",
     "A computational statement over all adversaries.",
     ["src/common.rs"], [("protocol design", "src/common.rs")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
