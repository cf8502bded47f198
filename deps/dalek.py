#!/usr/bin/env python3
"""Copies the released curve25519-dalek to ./curve25519-dalek and replaces the arithmetic
that is out of a SAT solver's reach by a model (the functions below). The rest
of the crate, and all of its API, stays as it is."""
import os, shutil

from arrays import HERE, copy, install

VERSION = "4.1.3"


def body(text, head, new):
    """Replaces the body of the function that starts with `head`."""
    i = text.index(head)
    assert text.count(head) == 1, head
    i = text.index("{", i + len(head) - 1 if head.endswith("{") else i)
    depth, j = 0, i
    while True:
        depth += {"{": 1, "}": -1}.get(text[j], 0)
        j += 1
        if depth == 0:
            return text[:i] + "{\n" + new + "\n}" + text[j:]


def main():
    tmp = os.path.join(HERE, "curve25519-dalek.tmp")
    copy("curve25519-dalek", VERSION, tmp)
    c = os.path.join(tmp, "Cargo.toml")
    t = open(c).read()
    t = t[:t.index("[[bench]]")] + t[t.index("[dependencies.cfg-if]"):] if "[[bench]]" in t else t
    open(c, "w").write(t)

    f = os.path.join(tmp, "src/ristretto.rs")
    t = open(f).read()
    # An element is represented by its encoding, in the coordinate X. Which
    # canonical non-negative field elements are encodings is a parameter.
    t = t.replace("let (ok, t_is_negative, y_is_zero, res) = decompress::step_2(s);",
                  "let res = crate::model::elem(s);", 1)
    t = t.replace("if (!ok | t_is_negative | y_is_zero).into() {", "if !crate::model::is_encoding(self.as_bytes()) {", 1)
    assert t.count("crate::model::") == 2, t.count("crate::model::")
    t = body(t, "pub fn compress(&self) -> CompressedRistretto {", "CompressedRistretto(self.0.X.as_bytes())")
    t = body(t, "pub fn from_uniform_bytes(bytes: &[u8; 64]) -> RistrettoPoint {",
             "crate::model::elem(FieldElement::from_bytes(&crate::model::mix(bytes)))")
    t = body(t, "fn ct_eq(&self, other: &RistrettoPoint) -> Choice {", "self.0.X.ct_eq(&other.0.X)")
    open(f, "w").write(t)

    f = os.path.join(tmp, "src/scalar.rs")
    t = open(f).read()
    t = body(t, "    fn reduce(&self) -> Scalar {", "Scalar { bytes: crate::model::reduce(self.bytes) }")
    t = body(t, "pub fn from_bytes_mod_order_wide(input: &[u8; 64]) -> Scalar {",
             "Scalar { bytes: crate::model::reduce(crate::model::mix(input)) }")
    open(f, "w").write(t)

    f = os.path.join(tmp, "src/lib.rs")
    t = open(f).read()
    t += "\n/// Model of the arithmetic.\n#[allow(missing_docs, static_mut_refs)]\npub mod model;\n"
    open(f, "w").write(t)
    shutil.copy(os.path.join(HERE, "dalek_model.rs"), os.path.join(tmp, "src/model.rs"))

    install(tmp, os.path.join(HERE, "curve25519-dalek"))


if __name__ == "__main__":
    main()
