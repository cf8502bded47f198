"""What check.py runs for each property."""

MODEL = [
    "The protocol code is generic over the ciphersuite; it is executed over a model ciphersuite: a cyclic group of prime "
    "order Q with elements represented by discrete logarithms, injective fixed-length encodings with arbitrary masks, hash "
    "functions as uninterpreted functions (equal queries get equal answers), arbitrary RNG output.",
    "A hashed string of any length is observed through its length and its byte at an arbitrary position.",
    "Soundness of rustc's MIR, Kani 0.68, CBMC 6.11 and CaDiCaL.",
]

CURVE = [
    "The wrappers of the shipped groups are executed with the real code of P-256, P-384, P-521 (elliptic-curve, crypto-bigint) "
    "where a solver can follow it; the NIST curves' generic code for elements and hashing runs on a model curve (the integers "
    "modulo P-256's order in disguise, with the compressed encodings and the decoding code of the sec1 crate).",
    "For ristretto255 the released curve25519-dalek is used, with a model of the arithmetic of elements (decompression, compression, "
    "Elligator) and of wide reduction: an element is represented by its encoding.",
    "A model hash function observes the length of what is hashed and its byte at an arbitrary position.",
    "Soundness of rustc's MIR, Kani 0.68, CBMC 6.11 and CaDiCaL.",
]

B = "group order Q = 7 (quick), 7 and 13 (thorough); loops unwound completely, checked by unwinding assertions; "


def p(crates, bounds, outside="", **kw):
    return dict(crates=crates, bounds=bounds, outside=outside, **kw)


CONF = {
    "assumptions": MODEL,
    "crates": {
        "vk": {"prepare": ["deps/arrays.py"], "env": {"quick": [{"VK_Q": "7"}], "thorough": [{"VK_Q": "7"}, {"VK_Q": "13"}]}},
        "vkc": {"prepare": ["deps/arrays.py", "deps/dalek.py"], "memory_gb": 24, "rustflags": '--cfg curve25519_dalek_backend="serial"'},
    },
    "properties": {
        "C01": p(["vk"], B + "every key, blind and RNG byte; inputs: all of 0-4 bytes, and constant bytes of every length 0-65535"),
        "C02": p(["vk"], B + "inputs as in C01; batches of 2 (quick), 3 (thorough) with 1-byte inputs"),
        "C03": p(["vk"], B + "inputs and info of 0-2 arbitrary bytes, and of constant bytes of every length 0-65535; batches of 2 (quick), 3 (thorough)"),
        "C04": p(["vk"], B + "every public key, proof, client state and evaluated element; batches of 0, 1, 2 (quick), 3 (thorough)"),
        "C05": p(["vk"], B + "every public key, proof, info of 0-2 bytes, client state and evaluated element; batches of 0, 1, 2 (quick), 3 (thorough)"),
        "C06": p(["vk"], "collections of every size from 0 to beyond 2^61 on both sides (sizes above 2: followed up to the verdict on the shape of the batch), group order Q = 7 (quick), 7 and 13 (thorough)",
                 "the elements are the same at every position of a collection; the one-shot functions are run with collections of 2 and 3 elements"),
        "C07": p(["vk"], B + "batches of 5 with an odd pair at every position; batches of 258 alike pairs and every index (VOPRF server; thorough: both modes and sides)",
                 "batches of 259 to 65535 elements"),
        "C08": p(["vk"], B + "every byte string of 0 to 7 bytes (encodings have 2 to 5), every pair of values"),
        "C09": p(["vkc"], "scalars of P-256 (with re-encoding), in thorough P-384 and P-521: every byte string of 0-35, 0-50, 0-68 bytes; elements and scalars of the model curve: every byte string of 0-67 and 0-70 bytes, every point; no loop bound is left open",
                 "the square roots of the real curves' decompression; re-encoding of P-384 and P-521 scalars (Montgomery arithmetic)", assumptions=CURVE),
        "C10": p(["vkc"], "every byte string of 0-35 bytes; the set of field elements that are encodings is arbitrary (by parity with any mask)",
                 "the square root that decides which field elements are encodings", assumptions=CURVE),
        "C11": p(["vk"], B + "every input and info length from 0 to 65836", "longer strings; the bytes of strings longer than 4 are constant"),
        "C12": p(["vk"], B + "every seed and info of 0-3 bytes, one of them of every length 0-65535 with constant bytes; 0, 1, 2, 255 or 256 zero values; every key string of 0-3 bytes (keys have 2)"),
        "C13": p(["vk"], B + "every RNG output; two successive operations; batches of 0, 2 and 3"),
        "C14": p(["vk"], B + "every value of the eleven types, made by the API or cloned", "copies of scalars and elements in registers, in lazily evaluated iterators and on the stack of moved-from values"),
        "C15": p(["vkc"], "messages of 3 parts of 0-2 bytes and of one part of every length 0-300; tags of 3 parts (3 bytes), and tags of 255 and 256 bytes; every hash output; hash functions of 48 or 64 bytes of output",
                 "the maps of the real curves from field elements to points, and the real hash functions (dependencies)", assumptions=CURVE),
        "C16": p(["vk"], B + "every hash value; inputs and infos of 0-2 bytes"),
        "C17": p(["vk"], B + "every value; fields of 0 to 4 arbitrary bytes; sequences, maps in both orders, missing fields; both settings of is_human_readable",
                 "formats that represent byte arrays otherwise than as a tuple of u8; unknown and duplicate fields (left to serde's derive)"),
        "C18": p(["vk"], B + "every pair of inputs of 0-3 bytes, every pair of blinds"),
        "C19": p(["vk"], B + "every public key, client state, received element and pair of proofs; batches of 1 and 2"),
        "C20": p(["vk"], B + "every key, blind, nonce and input byte; each state and message saved and restored, cloned or kept, at each step; batches of 2",
                 "proofs with a zero scalar, which have no encoding that is accepted (negligible probability)"),
        "C21": p(["vk"], "every query of every operation, two suites with identifiers of 5 and 11 bytes; group order Q = 7 (quick), 7 and 13 (thorough)",
                 "identifiers so long that the tag exceeds 255 bytes"),
        "C22": p(["vk"], B + "every byte string in place of each received or stored object of the encoded length (other lengths: C08); batches of 2"),
        "C25": p(["vkc"], "0 and 2 draws of zeros followed by one of zeros but for one arbitrary non-zero byte; ristretto255, P-256 and the model curve", "other draws; longer runs of zeros",
                 assumptions=CURVE),
    },
}

NOT_APPLICABLE = {
    "C23": "Timing depends on the machine code of the curve and hash dependencies and on the processor; a symbolic execution of MIR has no notion of time, and a two-run noninterference encoding of the real field arithmetic is out of a solver's reach.",
    "C24": "A computational statement over all efficient adversaries, by reduction to a Diffie-Hellman assumption: no assertion over the code's values expresses it.",
}
