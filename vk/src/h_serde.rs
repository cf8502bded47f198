//! C17: serde. A small data format that represents structs as sequences or as
//! maps, in any order of the fields.

use core::fmt::Display;

use serde::de::{DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{Impossible, SerializeStruct, SerializeTuple, Serializer};
use serde::{forward_to_deserialize_any, Deserialize, Serialize};

use crate::mock::*;
use crate::nd;
use crate::util::*;
use voprf::*;

#[derive(Debug)]
pub struct Fail;

impl Display for Fail {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl serde::de::StdError for Fail {}
impl serde::ser::Error for Fail {
    fn custom<T: Display>(_: T) -> Self {
        Fail
    }
}
impl serde::de::Error for Fail {
    fn custom<T: Display>(_: T) -> Self {
        Fail
    }
    fn invalid_type(_: serde::de::Unexpected, _: &dyn serde::de::Expected) -> Self {
        Fail
    }
    fn invalid_length(_: usize, _: &dyn serde::de::Expected) -> Self {
        Fail
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
        Fail
    }
    fn missing_field(_: &'static str) -> Self {
        Fail
    }
    fn duplicate_field(_: &'static str) -> Self {
        Fail
    }
}

type R<T> = core::result::Result<T, Fail>;

const FMAX: usize = 2;
const LMAX: usize = 4;

/// A value as the format represents it: named fields of bytes.
#[derive(Clone, Copy)]
struct Doc {
    keys: [&'static str; FMAX],
    n: usize,
    bytes: [[u8; LMAX]; FMAX],
    len: [usize; FMAX],
    readable: bool,
    /// The fields to present, as a map or else as a sequence.
    map: bool,
    order: [usize; 3],
    fields: usize,
}

/////////////////
// Serializing //
/////////////////

struct Ser<'a>(&'a mut Doc);

macro_rules! not_ser {
    ($($f:ident($($t:ty),*);)*) => {
        $(fn $f(self, $(_: $t),*) -> R<()> { Err(Fail) })*
    };
}

impl<'a> Serializer for Ser<'a> {
    type Ok = ();
    type Error = Fail;
    type SerializeSeq = Impossible<(), Fail>;
    type SerializeTuple = Tup<'a>;
    type SerializeTupleStruct = Impossible<(), Fail>;
    type SerializeTupleVariant = Impossible<(), Fail>;
    type SerializeMap = Impossible<(), Fail>;
    type SerializeStruct = Str<'a>;
    type SerializeStructVariant = Impossible<(), Fail>;

    not_ser! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32);
        serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none();
        serialize_unit(); serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
    }
    fn serialize_u8(self, _: u8) -> R<()> {
        Err(Fail)
    }
    fn collect_str<T: ?Sized + Display>(self, _: &T) -> R<()> {
        Err(Fail)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> R<()> {
        Err(Fail)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R<()> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> R<()> {
        Err(Fail)
    }
    fn serialize_seq(self, _: Option<usize>) -> R<Self::SerializeSeq> {
        Err(Fail)
    }
    fn serialize_tuple(self, len: usize) -> R<Tup<'a>> {
        if len > LMAX {
            return Err(Fail);
        }
        Ok(Tup { d: self.0, f: 0, i: 0, len })
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> R<Self::SerializeTupleStruct> {
        Err(Fail)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<Self::SerializeTupleVariant> {
        Err(Fail)
    }
    fn serialize_map(self, _: Option<usize>) -> R<Self::SerializeMap> {
        Err(Fail)
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> R<Str<'a>> {
        Ok(Str { d: self.0, n })
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<Self::SerializeStructVariant> {
        Err(Fail)
    }
    fn is_human_readable(&self) -> bool {
        self.0.readable
    }
}

struct Tup<'a> {
    d: &'a mut Doc,
    f: usize,
    i: usize,
    len: usize,
}

impl<'a> SerializeTuple for Tup<'a> {
    type Ok = ();
    type Error = Fail;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> {
        if self.i == self.len {
            return Err(Fail);
        }
        let b = v.serialize(Byte)?;
        self.d.bytes[self.f][self.i] = b;
        self.i += 1;
        Ok(())
    }
    fn end(self) -> R<()> {
        if self.i != self.len {
            return Err(Fail);
        }
        self.d.len[self.f] = self.len;
        if self.d.n == self.f {
            self.d.n += 1;
        }
        Ok(())
    }
}

struct Str<'a> {
    d: &'a mut Doc,
    n: usize,
}

impl<'a> SerializeStruct for Str<'a> {
    type Ok = ();
    type Error = Fail;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> R<()> {
        let f = self.d.n;
        if f == self.n || f == FMAX {
            return Err(Fail);
        }
        self.d.keys[f] = k;
        v.serialize(Field { d: self.d, f })
    }
    fn end(self) -> R<()> {
        if self.d.n != self.n {
            return Err(Fail);
        }
        Ok(())
    }
}

/// Takes a field: bytes, possibly within newtypes.
struct Field<'a> {
    d: &'a mut Doc,
    f: usize,
}
/// Takes a byte.
struct Byte;

macro_rules! small_ser {
    ($t:ty, $ok:ty, $tup:ty, [$($g:tt)*], $u8:expr, |$self_:ident, $len:ident| $mk:expr) => {
        impl<$($g)*> Serializer for $t {
            type Ok = $ok;
            type Error = Fail;
            type SerializeSeq = Impossible<$ok, Fail>;
            type SerializeTuple = $tup;
            type SerializeTupleStruct = Impossible<$ok, Fail>;
            type SerializeTupleVariant = Impossible<$ok, Fail>;
            type SerializeMap = Impossible<$ok, Fail>;
            type SerializeStruct = Impossible<$ok, Fail>;
            type SerializeStructVariant = Impossible<$ok, Fail>;
            fn collect_str<T: ?Sized + Display>(self, _: &T) -> R<$ok> { Err(Fail) }
            fn serialize_bool(self, _: bool) -> R<$ok> { Err(Fail) }
            fn serialize_i8(self, _: i8) -> R<$ok> { Err(Fail) }
            fn serialize_i16(self, _: i16) -> R<$ok> { Err(Fail) }
            fn serialize_i32(self, _: i32) -> R<$ok> { Err(Fail) }
            fn serialize_i64(self, _: i64) -> R<$ok> { Err(Fail) }
            fn serialize_u8(self, v: u8) -> R<$ok> { ($u8)(v) }
            fn serialize_u16(self, _: u16) -> R<$ok> { Err(Fail) }
            fn serialize_u32(self, _: u32) -> R<$ok> { Err(Fail) }
            fn serialize_u64(self, _: u64) -> R<$ok> { Err(Fail) }
            fn serialize_f32(self, _: f32) -> R<$ok> { Err(Fail) }
            fn serialize_f64(self, _: f64) -> R<$ok> { Err(Fail) }
            fn serialize_char(self, _: char) -> R<$ok> { Err(Fail) }
            fn serialize_str(self, _: &str) -> R<$ok> { Err(Fail) }
            fn serialize_bytes(self, _: &[u8]) -> R<$ok> { Err(Fail) }
            fn serialize_none(self) -> R<$ok> { Err(Fail) }
            fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> R<$ok> { Err(Fail) }
            fn serialize_unit(self) -> R<$ok> { Err(Fail) }
            fn serialize_unit_struct(self, _: &'static str) -> R<$ok> { Err(Fail) }
            fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> R<$ok> { Err(Fail) }
            fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R<$ok> { v.serialize(self) }
            fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> R<$ok> { Err(Fail) }
            fn serialize_seq(self, _: Option<usize>) -> R<Self::SerializeSeq> { Err(Fail) }
            fn serialize_tuple($self_, $len: usize) -> R<$tup> { $mk }
            fn serialize_tuple_struct(self, _: &'static str, _: usize) -> R<Self::SerializeTupleStruct> { Err(Fail) }
            fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<Self::SerializeTupleVariant> { Err(Fail) }
            fn serialize_map(self, _: Option<usize>) -> R<Self::SerializeMap> { Err(Fail) }
            fn serialize_struct(self, _: &'static str, _: usize) -> R<Self::SerializeStruct> { Err(Fail) }
            fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<Self::SerializeStructVariant> { Err(Fail) }
        }
    };
}
small_ser!(Field<'a>, (), Tup<'a>, ['a], |_| Err(Fail), |self, len| {
    if len > LMAX {
        return Err(Fail);
    }
    Ok(Tup { d: self.d, f: self.f, i: 0, len })
});
small_ser!(Byte, u8, Impossible<u8, Fail>, [], Ok, |self, _len| Err(Fail));

///////////////////
// Deserializing //
///////////////////

#[derive(Clone, Copy)]
struct De<'a>(&'a Doc);

/// Field `f`.
#[derive(Clone, Copy)]
struct FieldDe<'a>(&'a Doc, usize);

struct Items<'a> {
    d: &'a Doc,
    i: usize,
}

struct Bytez<'a> {
    d: &'a Doc,
    f: usize,
    i: usize,
}

struct One(u8);
struct Key(&'static str);

impl<'a, 'de> Deserializer<'de> for De<'a> {
    type Error = Fail;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> R<V::Value> {
        Err(Fail)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> R<V::Value> {
        let i = Items { d: self.0, i: 0 };
        if self.0.map {
            v.visit_map(i)
        } else {
            v.visit_seq(i)
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> R<V::Value> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> R<V::Value> {
        FieldDe(self.0, 0).deserialize_tuple(n, v)
    }
    fn is_human_readable(&self) -> bool {
        self.0.readable
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        seq tuple_struct map enum identifier ignored_any
    }
}

impl<'a, 'de> Deserializer<'de> for FieldDe<'a> {
    type Error = Fail;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> R<V::Value> {
        Err(Fail)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> R<V::Value> {
        v.visit_newtype_struct(self)
    }
    /// Like self-describing formats, refuses when bytes are left.
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> R<V::Value> {
        let r = v.visit_seq(Bytez { d: self.0, f: self.1, i: 0 })?;
        if self.0.len[self.1] > n {
            return Err(Fail);
        }
        Ok(r)
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        v.visit_unit()
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        seq tuple_struct map struct enum identifier
    }
}

impl<'a, 'de> SeqAccess<'de> for Items<'a> {
    type Error = Fail;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> R<Option<T::Value>> {
        if self.i == self.d.fields {
            return Ok(None);
        }
        self.i += 1;
        seed.deserialize(FieldDe(self.d, self.d.order[self.i - 1])).map(Some)
    }
}

impl<'a, 'de> MapAccess<'de> for Items<'a> {
    type Error = Fail;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> R<Option<T::Value>> {
        if self.i == self.d.fields {
            return Ok(None);
        }
        seed.deserialize(Key(self.d.keys[self.d.order[self.i]])).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> R<T::Value> {
        self.i += 1;
        seed.deserialize(FieldDe(self.d, self.d.order[self.i - 1]))
    }
}

impl<'a, 'de> SeqAccess<'de> for Bytez<'a> {
    type Error = Fail;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> R<Option<T::Value>> {
        if self.i == LMAX || self.i == self.d.len[self.f] {
            return Ok(None);
        }
        self.i += 1;
        seed.deserialize(One(self.d.bytes[self.f][self.i - 1])).map(Some)
    }
}

impl<'de> Deserializer<'de> for One {
    type Error = Fail;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        v.visit_u8(self.0)
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

impl<'de> Deserializer<'de> for Key {
    type Error = Fail;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        v.visit_str(self.0)
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

///////////////
// Harnesses //
///////////////

const SC: bool = true;
const EL: bool = false;

fn empty(readable: bool) -> Doc {
    Doc {
        keys: [""; FMAX],
        n: 0,
        bytes: [[0; LMAX]; FMAX],
        len: [0; FMAX],
        readable,
        map: false,
        order: [0; 3],
        fields: 0,
    }
}

/// `v`, whose fields are encoded as `want`, is represented by these encodings.
fn doc<T: Serialize>(v: &T, fields: &[bool], want: &[u8]) -> Doc {
    let mut d = empty(nd::bool());
    assert!(v.serialize(Ser(&mut d)).is_ok());
    assert!(d.n == fields.len(), "number of fields");
    let mut at = 0;
    let mut f = 0;
    while f < fields.len() {
        let n = if fields[f] { SCAL } else { ELEM };
        assert!(d.len[f] == n, "length of a field");
        let mut i = 0;
        while i < n {
            assert!(d.bytes[f][i] == want[at + i], "encoding of a field");
            i += 1;
        }
        at += n;
        f += 1;
    }
    d
}

fn valid(d: &Doc, fields: &[bool]) -> bool {
    let mut ok = true;
    let mut f = 0;
    while f < fields.len() {
        ok &= if fields[f] {
            d.len[f] == SCAL && dec_s(&d.bytes[f][..SCAL]).is_some()
        } else {
            d.len[f] == ELEM && dec_e(&d.bytes[f][..ELEM]).is_some()
        };
        f += 1;
    }
    ok
}

fn read<T: for<'de> Deserialize<'de>>(d: &Doc, map: bool, order: &[usize]) -> Option<T> {
    let mut d = *d;
    d.map = map;
    d.fields = order.len();
    let mut i = 0;
    while i < order.len() {
        d.order[i] = order[i];
        i += 1;
    }
    T::deserialize(De(&d)).ok()
}

/// Round trip of `v`, and deserialization of arbitrary fields.
fn serde<T: Serialize + for<'de> Deserialize<'de> + PartialEq>(v: T, fields: &[bool], want: &[u8]) {
    let d = doc(&v, fields, want);
    let all = [0, 1];
    let all = &all[..fields.len()];
    assert!(read::<T>(&d, false, all) == Some(v), "round trip");
    // Arbitrary fields.
    let mut x = d;
    let mut f = 0;
    while f < fields.len() {
        x.bytes[f] = nd::arr();
        x.len[f] = nd::len(LMAX);
        f += 1;
    }
    let ok = valid(&x, fields);
    let r = read::<T>(&x, false, all);
    assert!(r.is_some() == ok, "validity of the fields");
    reach!(ok, "valid");
    reach!(!ok, "invalid");
    if let Some(r) = r {
        again(&r, &x, fields);
    }
    if fields.len() == 2 {
        // Fields are missing.
        assert!(read::<T>(&x, false, &[0]).is_none());
        assert!(read::<T>(&x, false, &[]).is_none());
    }
}

/// The same fields come out.
fn again<T: Serialize>(r: &T, x: &Doc, fields: &[bool]) {
    let mut want = [0; 2 * ELEM];
    let mut at = 0;
    let mut f = 0;
    while f < fields.len() {
        let n = if fields[f] { SCAL } else { ELEM };
        let mut i = 0;
        while i < n {
            want[at + i] = x.bytes[f][i];
            i += 1;
        }
        at += n;
        f += 1;
    }
    doc(r, fields, &want);
}

/// The same for the representation of structs as maps.
fn serde_map<T: Serialize + for<'de> Deserialize<'de> + PartialEq>(v: T, fields: &[bool], want: &[u8]) {
    let d = doc(&v, fields, want);
    let mut x = d;
    let mut f = 0;
    while f < fields.len() {
        x.bytes[f] = nd::arr();
        x.len[f] = nd::len(LMAX);
        f += 1;
    }
    let ok = valid(&x, fields);
    if fields.len() == 1 {
        assert!(read::<T>(&d, true, &[0]) == Some(v), "round trip");
        let r = read::<T>(&x, true, &[0]);
        assert!(r.is_some() == ok, "validity of the fields");
        if let Some(r) = r {
            again(&r, &x, fields);
        }
        assert!(read::<T>(&x, true, &[]).is_none(), "a missing field");
    } else {
        assert!(d.keys[0] != d.keys[1]);
        // In either order.
        assert!(read::<T>(&d, true, &[0, 1]) == Some(v), "round trip");
        let r = read::<T>(&x, true, &[1, 0]);
        assert!(r.is_some() == ok, "validity of the fields");
        if let Some(r) = r {
            again(&r, &x, fields);
        }
        assert!(read::<T>(&x, true, &[0]).is_none(), "a missing field");
        assert!(read::<T>(&x, true, &[1]).is_none(), "a missing field");
    }
    reach!(ok, "valid, as a map");
    reach!(!ok, "invalid, as a map");
}

macro_rules! both {
    ($v:expr, $f:expr, $w:expr) => {
        if nd::bool() {
            serde($v, $f, $w);
        } else {
            serde_map($v, $f, $w);
        }
    };
}

harnesses! {
    [24] fn c17_oprf_client() {
        setup();
        let s = any_nz();
        both!(oclient(s), &[SC], &enc_s(s));
    }

    [24] fn c17_oprf_server() {
        setup();
        let s = any_nz();
        both!(oserver(s), &[SC], &enc_s(s));
    }

    [24] fn c17_voprf_client() {
        setup();
        let (s, e) = (any_nz(), any_e_nz());
        both!(vclient(s, e), &[SC, EL], &se(s, e));
    }

    [24] fn c17_voprf_server() {
        setup();
        let s = any_nz();
        both!(vserver(s), &[SC, EL], &se(s, e_mul(E(1), s)));
    }

    [24] fn c17_poprf_client() {
        setup();
        let (s, e) = (any_nz(), any_e_nz());
        both!(pclient(s, e), &[SC, EL], &se(s, e));
    }

    [24] fn c17_poprf_server() {
        setup();
        let s = any_nz();
        both!(pserver(s), &[SC, EL], &se(s, e_mul(E(1), s)));
    }

    [24] fn c17_proof() {
        setup();
        let (c, s) = (any_nz(), any_nz());
        let w: [u8; 2 * SCAL] = cat(enc_s(c), enc_s(s));
        both!(proof(c, s), &[SC, SC], &w);
    }

    [24] fn c17_blinded() {
        setup();
        let e = any_e_nz();
        serde(blinded(e), &[EL], &enc_e(e));
    }

    [24] fn c17_evaluated() {
        setup();
        let e = any_e_nz();
        serde(evaluated(e), &[EL], &enc_e(e));
    }

    [24] fn c17_prepared() {
        setup();
        let (k, e) = (any_nz(), any_e_nz());
        let be = blinded(e);
        let p = vserver(k).batch_blind_evaluate_prepare(core::iter::once(&be)).next().unwrap();
        serde(p, &[EL], &enc_e(e_mul(e, k)));
    }

    [24] fn c17_tweak() {
        setup();
        st().w.on = true;
        st().w.val = nd::below(Q);
        let k = any_nz();
        let t = s_add(k, S(st().w.val));
        nd::assume(t != S(0));
        let be = blinded(any_e_nz());
        let p = pserver(k).batch_blind_evaluate_prepare(core::iter::once(&be), None).unwrap();
        serde(p.prepared_tweak, &[SC], &enc_s(t));
    }
}
