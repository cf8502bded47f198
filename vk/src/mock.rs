//! The model ciphersuite: an implementation of the public traits `Group` and
//! `CipherSuite` through which the real, generic protocol code of the crate is
//! executed.
//!
//! * Group: the cyclic group of prime order `Q`, elements represented by their
//!   discrete logarithm (every group of prime order is isomorphic to it).
//! * Encodings: fixed length, injective, with arbitrary (symbolic) masks.
//! * Hash to scalar / to group: uninterpreted functions of (message, DST),
//!   sampled lazily and kept consistent in a table. A message of any length is
//!   represented by its length and by the byte at an arbitrary (symbolic)
//!   probe position: a statement proved for every probe position is a statement
//!   about the whole message.
//! * Hash: likewise, digest = 3 bytes of length, 1 probed byte.
//! * RNG: arbitrary bytes.

use core::ops::{Add, Mul, Sub};

use digest::core_api::BlockSizeUser;
use digest::{FixedOutput, HashMarker, Output, OutputSizeUser, Update};
use generic_array::typenum::{IsLess, IsLessOrEqual, U2, U256, U3, U4, U8};
use generic_array::GenericArray;
use rand_core::{CryptoRng, RngCore};
use subtle::{Choice, ConstantTimeEq};
use voprf::{CipherSuite, Error, Group, InternalError, Result};
use zeroize::Zeroize;

use crate::nd;

const fn parse(s: &str) -> u8 {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = 0;
    while i < b.len() {
        v = v * 10 + (b[i] - b'0');
        i += 1;
    }
    v
}

/// Order of the model group: a prime below 128.
pub const Q: u8 = match option_env!("VK_Q") {
    Some(s) => parse(s),
    None => 7,
};

pub const ELEM: usize = 3;
pub const SCAL: usize = 2;
pub const HLEN: usize = 4;

/// Identifier of the model ciphersuite.
pub const ID: &str = "vk-Zq";

#[derive(Clone, Copy)]
pub struct Rec {
    kind: u8,
    len: u32,
    byte: u8,
    dlen: u32,
    dbyte: u8,
    val: u8,
}

pub const CAP: usize = 32;
pub const DRAWS: usize = 4;

pub struct St {
    pub tag: u64,
    /// Probe positions: hash transcripts, hash-to-X messages, DSTs.
    pub p_h: u32,
    pub p_m: u32,
    pub p_d: u32,
    /// Encoding masks.
    pub m_e: [u8; 3],
    pub m_s: [u8; 2],
    pub n: usize,
    pub rec: [Rec; CAP],
    /// Scalars drawn with `random_scalar`.
    pub draws: usize,
    pub draw: [u8; DRAWS],
    pub inversions_of_zero: u32,
    /// Messages of length `fix_len` have hash-to-scalar value `fix_val`.
    pub fix_len: u32,
    pub fix_val: u8,
    pub w: Watch,
    pub prog: Prog,
}

pub const PROG: usize = 36;

/// Queries of a length have an answer that is set, and are recorded in full.
pub struct Prog {
    pub on: bool,
    pub len: usize,
    pub val: u8,
    pub seen: usize,
    pub msg: [u8; PROG],
}

/// Mode in which the hash-to-scalar function is not sampled: its first `zeros`
/// values are 0, the others `val`. Records the query number `at`, the query of
/// length `clen` with the bytes `cidx` at offset `coff` (composites), and the
/// last query of length `xlen` (challenge).
pub struct Watch {
    pub on: bool,
    pub zeros: usize,
    pub val: u8,
    pub calls: usize,
    pub at: usize,
    pub m: Tr,
    pub d: Tr,
    pub clen: u32,
    pub coff: usize,
    pub cidx: [u8; 2],
    pub cfound: u32,
    pub cseen: u32,
    pub cm: Tr,
    /// Whether the bytes of the composites matter, and not just their index.
    pub cbytes: bool,
    pub xlen: u32,
    pub xm: Tr,
    pub xseen: u32,
}

const T0: Tr = Tr { p: 0, len: 0, byte: 0 };

/// Records the whole DST of the query number `at`.
pub struct DstLog {
    /// Kani shares one object between a constant and a `static mut` whose
    /// initial bytes are the same, so that writing the static changes the
    /// constant. The tag keeps the two apart: no constant has these bytes.
    pub tag: u64,
    pub on: bool,
    pub at: usize,
    pub calls: usize,
    pub kind: u8,
    pub n: usize,
    pub dst: [u8; 48],
}

static mut DLOG: DstLog = DstLog { tag: 0x6b1d_93a7_04c2_e85f, on: false, at: 0, calls: 0, kind: 0, n: 0, dst: [0; 48] };

pub fn dlog() -> &'static mut DstLog {
    unsafe { &mut *core::ptr::addr_of_mut!(DLOG) }
}

const R0: Rec = Rec { kind: 255, len: 0, byte: 0, dlen: 0, dbyte: 0, val: 0 };

static mut ST: St = St {
    tag: 0xf50e_7729_b3d8_461c, // see `DstLog`
    p_h: 0,
    p_m: 0,
    p_d: 0,
    m_e: [0; 3],
    m_s: [0; 2],
    n: 0,
    rec: [R0; CAP],
    draws: 0,
    draw: [0; DRAWS],
    inversions_of_zero: 0,
    fix_len: u32::MAX,
    fix_val: 0,
    w: Watch {
        on: false,
        zeros: 0,
        val: 1,
        calls: 0,
        at: 0,
        m: T0,
        d: T0,
        clen: 0,
        coff: 0,
        cidx: [0; 2],
        cfound: 0,
        cseen: 0,
        cm: T0,
        cbytes: true,
        xlen: 0,
        xm: T0,
        xseen: 0,
    },
    prog: Prog { on: false, len: 0, val: 0, seen: 0, msg: [0; PROG] },
};

pub fn st() -> &'static mut St {
    unsafe { &mut *core::ptr::addr_of_mut!(ST) }
}

/// Starts recording the DST of the query number `at` from now.
pub fn log_dst(at: usize) {
    let l = dlog();
    l.on = true;
    l.at = at;
    l.calls = 0;
    l.n = 0;
}

/// Makes every free parameter of the model arbitrary.
pub fn setup() {
    let s = st();
    s.p_h = nd::u32();
    s.p_m = nd::u32();
    s.p_d = nd::u32();
    s.m_e = nd::arr();
    s.m_s = nd::arr();
}

/////////////
// Scalars //
/////////////

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct S(pub u8);

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct E(pub u8);

/// Selection without branches keeps the symbolic execution on one path.
macro_rules! sel {
    ($c:expr, $a:expr, $b:expr) => {
        [$b, $a][($c) as usize]
    };
}

fn add(a: u8, b: u8) -> u8 {
    let s = a + b;
    sel!(s >= Q, s.wrapping_sub(Q), s)
}

const BITS: u32 = 8 - (Q - 1).leading_zeros();

fn mul(a: u8, b: u8) -> u8 {
    let mut r = 0;
    let mut i = BITS;
    while i > 0 {
        i -= 1;
        r = add(r, r);
        r = add(r, sel!((b >> i) & 1 == 1, a, 0));
    }
    r
}

const fn inverses() -> [u8; 128] {
    let mut t = [0; 128];
    let mut a = 1;
    while a < Q as usize {
        let mut b = 1;
        while b < Q as usize {
            if (a * b) % Q as usize == 1 {
                t[a] = b as u8;
            }
            b += 1;
        }
        a += 1;
    }
    t
}

static INV: [u8; 128] = inverses();

pub fn s_add(a: S, b: S) -> S {
    S(add(a.0, b.0))
}
pub fn s_sub(a: S, b: S) -> S {
    S(sel!(a.0 < b.0, a.0.wrapping_add(Q).wrapping_sub(b.0), a.0.wrapping_sub(b.0)))
}
pub fn s_mul(a: S, b: S) -> S {
    S(mul(a.0, b.0))
}
pub fn s_inv(a: S) -> S {
    S(INV[(a.0 & 127) as usize])
}
pub fn e_add(a: E, b: E) -> E {
    E(add(a.0, b.0))
}
pub fn e_mul(a: E, b: S) -> E {
    E(mul(a.0, b.0))
}

impl<'a> Add<&'a S> for S {
    type Output = S;
    fn add(self, o: &'a S) -> S {
        s_add(self, *o)
    }
}
impl<'a> Sub<&'a S> for S {
    type Output = S;
    fn sub(self, o: &'a S) -> S {
        s_sub(self, *o)
    }
}
impl<'a> Mul<&'a S> for S {
    type Output = S;
    fn mul(self, o: &'a S) -> S {
        s_mul(self, *o)
    }
}
impl<'a> Add<&'a E> for E {
    type Output = E;
    fn add(self, o: &'a E) -> E {
        e_add(self, *o)
    }
}
impl<'a> Mul<&'a S> for E {
    type Output = E;
    fn mul(self, o: &'a S) -> E {
        e_mul(self, *o)
    }
}
impl ConstantTimeEq for S {
    fn ct_eq(&self, o: &S) -> Choice {
        Choice::from((self.0 == o.0) as u8)
    }
}
impl ConstantTimeEq for E {
    fn ct_eq(&self, o: &E) -> Choice {
        Choice::from((self.0 == o.0) as u8)
    }
}
impl Zeroize for S {
    fn zeroize(&mut self) {
        self.0 = 0;
    }
}
impl Zeroize for E {
    fn zeroize(&mut self) {
        self.0 = 0;
    }
}

///////////////////////////
// Encodings (injective) //
///////////////////////////

pub fn enc_e(e: E) -> [u8; ELEM] {
    let m = st().m_e;
    [m[0], e.0 ^ m[1], e.0.wrapping_add(m[2])]
}
pub fn dec_e(b: &[u8]) -> Option<E> {
    if b.len() != ELEM {
        return None;
    }
    let e = E(b[1] ^ st().m_e[1]);
    let c = enc_e(e);
    if e.0 == 0 || e.0 >= Q || b[0] != c[0] || b[2] != c[2] {
        return None;
    }
    Some(e)
}
pub fn enc_s(s: S) -> [u8; SCAL] {
    let m = st().m_s;
    [s.0 ^ m[0], m[1]]
}
pub fn dec_s(b: &[u8]) -> Option<S> {
    if b.len() != SCAL {
        return None;
    }
    let s = S(b[0] ^ st().m_s[0]);
    if s.0 == 0 || s.0 >= Q || b[1] != st().m_s[1] {
        return None;
    }
    Some(s)
}

/////////////////////////////////////
// Transcripts and hash functions  //
/////////////////////////////////////

#[derive(Clone, Copy)]
pub struct Tr {
    pub p: u32,
    pub len: u32,
    pub byte: u8,
}

impl Tr {
    pub fn new(p: u32) -> Self {
        Tr { p, len: 0, byte: 0 }
    }
    pub fn add(&mut self, d: &[u8]) {
        let n = d.len() as u32;
        let o = self.p.wrapping_sub(self.len);
        if n <= 16 {
            // As below, without a read at a symbolic position, and unrolled by
            // hand, so that the bound for loops is about the crate's.
            macro_rules! step {
                ($i:literal $($rest:literal)*) => {
                    if $i < n {
                        self.byte = sel!(o == $i, d[$i], self.byte);
                        step!($($rest)*);
                    }
                };
                () => {};
            }
            step!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
        } else if o < n {
            self.byte = d[o as usize];
        }
        self.len += n;
    }
    /// Plain loops over indices: iterators over slices compare pointers, which
    /// takes the symbolic execution long.
    pub fn of(p: u32, parts: &[&[u8]]) -> Self {
        let mut t = Tr::new(p);
        let mut i = 0;
        while i < parts.len() {
            t.add(parts[i]);
            i += 1;
        }
        t
    }
    /// The byte at a (concrete) position.
    pub fn at(parts: &[&[u8]], mut p: usize) -> u8 {
        let mut i = 0;
        while i < parts.len() {
            if p < parts[i].len() {
                return parts[i][p];
            }
            p -= parts[i].len();
            i += 1;
        }
        0
    }
    pub fn digest(&self) -> [u8; HLEN] {
        [(self.len >> 16) as u8, (self.len >> 8) as u8, self.len as u8, self.byte]
    }
}

/// Lazily sampled uninterpreted function of (kind, message, DST) into Z_Q:
/// every query is recorded, and gets the value of an equal earlier one or an
/// arbitrary one.
fn query(kind: u8, m: &Tr, d: &Tr) -> u8 {
    let s = st();
    nd::limit(s.n < CAP);
    let mut val = nd::below(Q);
    // Unrolled by hand, so that the bound for loops is about the crate's.
    macro_rules! step {
        ($($i:literal)*) => {
            $(if $i < s.n {
                let r = &s.rec[$i];
                let same = (r.kind == kind)
                    & (r.len == m.len)
                    & (r.byte == m.byte)
                    & (r.dlen == d.len)
                    & (r.dbyte == d.byte);
                val = sel!(same, r.val, val);
            })*
        };
    }
    step!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
    s.rec[s.n] = Rec { kind, len: m.len, byte: m.byte, dlen: d.len, dbyte: d.byte, val };
    s.n += 1;
    val
}

fn total(parts: &[&[u8]]) -> u32 {
    let mut n = 0;
    let mut i = 0;
    while i < parts.len() {
        n += parts[i].len() as u32;
        i += 1;
    }
    n
}

pub const KIND_SCALAR: u8 = 1;
pub const KIND_ELEM: u8 = 2;

pub fn oracle(kind: u8, msg: &[&[u8]], dst: &[&[u8]]) -> u8 {
    if dlog().on {
        let l = dlog();
        if l.calls == l.at {
            l.kind = kind;
            l.n = 0;
            let mut i = 0;
            while i < dst.len() {
                let mut j = 0;
                while j < dst[i].len() {
                    nd::limit(l.n < l.dst.len());
                    l.dst[l.n] = dst[i][j];
                    l.n += 1;
                    j += 1;
                }
                i += 1;
            }
        }
        l.calls += 1;
    }
    if st().w.on && kind == KIND_SCALAR {
        let w = &mut st().w;
        let len = total(msg);
        if w.calls == w.at {
            w.m = Tr::of(st().p_m, msg);
            w.d = Tr::of(st().p_d, dst);
        }
        if w.clen != 0 && len == w.clen {
            let i = [Tr::at(msg, w.coff), Tr::at(msg, w.coff + 1)];
            w.cseen += 1;
            let hit = (i[0] == w.cidx[0]) & (i[1] == w.cidx[1]);
            w.cfound += hit as u32;
            if w.cbytes {
                let m = Tr::of(st().p_m, msg);
                w.cm.len = sel!(hit, m.len, w.cm.len);
                w.cm.byte = sel!(hit, m.byte, w.cm.byte);
            }
        }
        if w.xlen != 0 && len == w.xlen {
            w.xm = Tr::of(st().p_m, msg);
            w.xseen += 1;
        }
        w.calls += 1;
        return if w.calls <= w.zeros { 0 } else { w.val };
    }
    if st().prog.on && kind == KIND_SCALAR && total(msg) as usize == st().prog.len {
        let g = &mut st().prog;
        let mut n = 0;
        let mut i = 0;
        while i < msg.len() {
            let mut j = 0;
            while j < msg[i].len() {
                g.msg[n] = msg[i][j];
                n += 1;
                j += 1;
            }
            i += 1;
        }
        g.seen += 1;
        return g.val;
    }
    let m = Tr::of(st().p_m, msg);
    if kind == KIND_SCALAR && m.len == st().fix_len {
        return st().fix_val;
    }
    query(kind, &m, &Tr::of(st().p_d, dst))
}

#[derive(Clone)]
pub struct MH(Tr);

impl Default for MH {
    fn default() -> Self {
        MH(Tr::new(st().p_h))
    }
}
impl HashMarker for MH {}
impl OutputSizeUser for MH {
    type OutputSize = U4;
}
impl BlockSizeUser for MH {
    type BlockSize = U8;
}
impl Update for MH {
    fn update(&mut self, data: &[u8]) {
        self.0.add(data);
    }
}
impl FixedOutput for MH {
    fn finalize_into(self, out: &mut Output<Self>) {
        *out = self.0.digest().into();
    }
}

///////////
// Group //
///////////

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct M;

impl Group for M {
    type Elem = E;
    type ElemLen = U3;
    type Scalar = S;
    type ScalarLen = U2;

    fn hash_to_curve<H>(input: &[&[u8]], dst: &[&[u8]]) -> Result<E, InternalError>
    where
        H: BlockSizeUser + Default + FixedOutput + HashMarker,
        H::OutputSize: IsLess<U256> + IsLessOrEqual<H::BlockSize>,
    {
        Ok(E(oracle(KIND_ELEM, input, dst)))
    }

    fn hash_to_scalar<H>(input: &[&[u8]], dst: &[&[u8]]) -> Result<S, InternalError>
    where
        H: BlockSizeUser + Default + FixedOutput + HashMarker,
        H::OutputSize: IsLess<U256> + IsLessOrEqual<H::BlockSize>,
    {
        Ok(S(oracle(KIND_SCALAR, input, dst)))
    }

    fn base_elem() -> E {
        E(1)
    }
    fn identity_elem() -> E {
        E(0)
    }
    fn serialize_elem(elem: E) -> GenericArray<u8, U3> {
        enc_e(elem).into()
    }
    fn deserialize_elem(b: &[u8]) -> Result<E> {
        dec_e(b).ok_or(Error::Deserialization)
    }
    fn random_scalar<R: RngCore + CryptoRng>(rng: &mut R) -> S {
        let mut b = [0u8; 1];
        rng.fill_bytes(&mut b);
        let s = st();
        let v = 1 + b[0] % (Q - 1);
        s.draw[s.draws % DRAWS] = v;
        s.draws += 1;
        S(v)
    }
    fn invert_scalar(s: S) -> S {
        if s.0 == 0 {
            st().inversions_of_zero += 1;
        }
        s_inv(s)
    }
    fn is_zero_scalar(s: S) -> Choice {
        s.ct_eq(&S(0))
    }
    fn serialize_scalar(s: S) -> GenericArray<u8, U2> {
        enc_s(s).into()
    }
    fn deserialize_scalar(b: &[u8]) -> Result<S> {
        dec_s(b).ok_or(Error::Deserialization)
    }
}

impl CipherSuite for M {
    const ID: &'static str = ID;
    type Group = M;
    type Hash = MH;
}

/// A second ciphersuite, over the same group.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct M2;
pub const ID2: &str = "vk-Zq-other";

impl CipherSuite for M2 {
    const ID: &'static str = ID2;
    type Group = M;
    type Hash = MH;
}

/////////
// RNG //
/////////

pub const RNG_LOG: usize = 8;

/// Yields arbitrary bytes and records them.
pub struct Rng {
    pub n: usize,
    pub log: [u8; RNG_LOG],
}

impl Rng {
    pub fn new() -> Self {
        Rng { n: 0, log: [0; RNG_LOG] }
    }
}

impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest {
            *d = nd::u8();
            if self.n < RNG_LOG {
                self.log[self.n] = *d;
            }
            self.n += 1;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for Rng {}

/// An arbitrary non-zero scalar / non-identity element.
pub fn any_nz() -> S {
    let v = nd::below(Q);
    nd::assume(v != 0);
    S(v)
}
pub fn any_s() -> S {
    S(nd::below(Q))
}
pub fn any_e() -> E {
    E(nd::below(Q))
}
pub fn any_e_nz() -> E {
    E(any_nz().0)
}

/////////////////
// Long slices //
/////////////////

/// More than the longest input the protocols allow.
pub const BIG: usize = 65536 + 300;

static BIG_BUF: [u8; BIG] = [0xa5; BIG];

/// An arbitrary prefix of a long buffer.
pub fn long() -> &'static [u8] {
    let n = nd::usize();
    nd::assume(n <= BIG);
    &BIG_BUF[..n]
}

/// Short arbitrary byte strings.
pub struct Bytes<const N: usize> {
    buf: [u8; N],
    n: usize,
}

impl<const N: usize> Bytes<N> {
    pub fn any() -> Self {
        let buf = nd::arr();
        Bytes { buf, n: nd::len(N) }
    }
    pub fn get(&self) -> &[u8] {
        &self.buf[..self.n]
    }
}

/// An arbitrary `Option<&[u8]>`.
pub fn any_info<const N: usize>(b: &Bytes<N>) -> Option<&[u8]> {
    if nd::bool() {
        Some(b.get())
    } else {
        None
    }
}

/// A collection of `n` items: `b` at position `j`, `a` elsewhere.
pub struct Odd<'a, T> {
    pub a: &'a T,
    pub b: &'a T,
    pub j: usize,
    pub n: usize,
}

impl<'a, 'b, T> IntoIterator for &'b Odd<'a, T> {
    type Item = &'a T;
    type IntoIter = OddIter<'a, T>;
    fn into_iter(self) -> OddIter<'a, T> {
        OddIter { a: self.a, b: self.b, j: self.j, n: self.n, i: 0 }
    }
}

pub struct OddIter<'a, T> {
    a: &'a T,
    b: &'a T,
    j: usize,
    n: usize,
    i: usize,
}

impl<'a, T> Iterator for OddIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.i == self.n {
            return None;
        }
        let r = if self.i == self.j { self.b } else { self.a };
        self.i += 1;
        Some(r)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.n - self.i, Some(self.n - self.i))
    }
}
impl<'a, T> ExactSizeIterator for OddIter<'a, T> {}

/// A collection of `n` times the same item, `n` from nothing to huge, for
/// checks of the shape of batches. `fine` tells that the shape of the batch is
/// one to be accepted.
pub struct Shape<'a, T> {
    pub item: &'a T,
    pub n: usize,
    pub fine: bool,
}

impl<'a, 'b, T> IntoIterator for &'b Shape<'a, T> {
    type Item = &'a T;
    type IntoIter = ShapeIter<'a, T>;
    fn into_iter(self) -> ShapeIter<'a, T> {
        ShapeIter { item: self.item, n: self.n, big: self.n > SMALL, fine: self.fine, seen: 0 }
    }
}

pub struct ShapeIter<'a, T> {
    item: &'a T,
    n: usize,
    big: bool,
    fine: bool,
    seen: usize,
}

const SMALL: usize = 2;

/// Under the solver, a large batch is followed only up to here: if it is a good
/// one, it was not refused; if not, it should have been (and the native replay
/// decides whether it still is).
#[cfg(kani)]
fn large(fine: bool) {
    reach!(fine, "a large batch is accepted");
    nd::assume(!fine);
    assert!(false, "elements of a wrong batch are processed");
    nd::assume(false);
}
#[cfg(not(kani))]
fn large(_: bool) {}

impl<'a, T> Iterator for ShapeIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.big {
            large(self.fine);
        }
        // The bound on small batches, in terms the symbolic execution sees.
        let i = self.seen;
        self.seen += 1;
        if self.n == 0 || (!self.big && i == SMALL) {
            return None;
        }
        self.n -= 1;
        Some(self.item)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.n, Some(self.n))
    }
}
impl<'a, T> ExactSizeIterator for ShapeIter<'a, T> {}

/// A size of a batch: none, few, or around and beyond the limit.
pub fn any_size() -> usize {
    let n = nd::usize();
    nd::assume(n <= usize::MAX / 4);
    n
}

/// `n` times the same item.
pub struct RepIter<'a, T>(pub &'a T, pub usize);

impl<'a, T> Iterator for RepIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.1 == 0 {
            return None;
        }
        self.1 -= 1;
        Some(self.0)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, Some(self.1))
    }
}
impl<'a, T> ExactSizeIterator for RepIter<'a, T> {}

/// A slice as a (sized) collection.
pub struct Sl<'a, T>(pub &'a [T]);

impl<'a, 'b, T> IntoIterator for &'b Sl<'a, T> {
    type Item = &'a T;
    type IntoIter = core::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}

/// Long, but not too long.
pub fn long_ok() -> &'static [u8] {
    let l = long();
    nd::assume(l.len() <= 65535);
    l
}
