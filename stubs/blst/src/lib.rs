//! Stand-in for the `blst` curve arithmetic: signatures over the additive group of integers modulo a prime, with
//! the same algebra as BLS (`sig = sk * H(msg)`, `pk = sk`, verification `sig == sum pk_i * H(msg_i)`, aggregation
//! by addition) and the same encodings' lengths. Nothing in the simulator solves for another key's signature, so
//! what a real deployment gets from the hardness of the curve's discrete logarithm is an assumption here.
const P: u64 = (1 << 61) - 1;
fn mul(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % P as u128) as u64
}
fn add(a: u64, b: u64) -> u64 {
    (a + b) % P
}
fn fin(mut x: u64) -> u64 {
    x ^= x >> 32;
    x = x.wrapping_mul(0xd6e8feb86659fd93);
    x ^= x >> 32;
    x = x.wrapping_mul(0xd6e8feb86659fd93);
    x ^ (x >> 32)
}
fn h(parts: &[&[u8]]) -> u64 {
    let mut s = 0x9e3779b97f4a7c15u64;
    for p in parts {
        s = fin(s ^ p.len() as u64);
        for c in p.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            s = fin(s.rotate_left(23).wrapping_add(u64::from_le_bytes(b)));
        }
    }
    1 + s % (P - 1)
}
/// `out` becomes the only valid encoding of `v` under `tag`
fn enc(v: u64, tag: u8, out: &mut [u8]) {
    if v == 0 {
        out.fill(0);
        out[0] = 0x40 | tag;
        return;
    }
    out[0] = tag;
    out[1..9].copy_from_slice(&v.to_be_bytes());
    let mut s = v ^ tag as u64;
    for c in out[9..].chunks_mut(8) {
        s = fin(s.wrapping_add(0x9e3779b97f4a7c15));
        c.copy_from_slice(&s.to_le_bytes()[..c.len()]);
    }
}
fn dec(b: &[u8], tag: u8) -> Result<u64, BLST_ERROR> {
    let mut o = vec![0; b.len()];
    for v in [0, u64::from_be_bytes(b[1..9].try_into().unwrap())] {
        enc(v, tag, &mut o);
        if v < P && o == b {
            return Ok(v);
        }
    }
    Err(BLST_ERROR::BLST_BAD_ENCODING)
}

#[allow(non_camel_case_types)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BLST_ERROR {
    BLST_SUCCESS = 0,
    BLST_BAD_ENCODING = 1,
    BLST_POINT_NOT_ON_CURVE = 2,
    BLST_POINT_NOT_IN_GROUP = 3,
    BLST_AGGR_TYPE_MISMATCH = 4,
    BLST_VERIFY_FAIL = 5,
    BLST_PK_IS_INFINITY = 6,
    BLST_BAD_SCALAR = 7,
}

pub mod min_sig {
    use super::{BLST_ERROR::*, *};

    #[derive(Debug, Clone, Default)]
    pub struct SecretKey([u8; 32]);
    impl SecretKey {
        pub fn key_gen(ikm: &[u8], info: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 {
                return Err(BLST_BAD_ENCODING);
            }
            let mut b = [0; 32];
            for (i, c) in b.chunks_mut(8).enumerate() {
                c.copy_from_slice(&h(&[ikm, info, &[i as u8]]).to_be_bytes());
            }
            Ok(Self(b))
        }
        fn v(&self) -> u64 {
            1 + u64::from_be_bytes(self.0[..8].try_into().unwrap()) % (P - 1)
        }
        pub fn sk_to_pk(&self) -> PublicKey {
            PublicKey(self.v())
        }
        pub fn sign(&self, msg: &[u8], dst: &[u8], aug: &[u8]) -> Signature {
            Signature(mul(self.v(), h(&[dst, aug, msg])))
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
        pub fn serialize(&self) -> [u8; 32] {
            self.0
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let b: [u8; 32] = b.try_into().map_err(|_| BLST_BAD_ENCODING)?;
            if b == [0; 32] {
                return Err(BLST_BAD_SCALAR);
            }
            Ok(Self(b))
        }
        pub fn deserialize(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::from_bytes(b)
        }
    }

    #[derive(Debug, Clone, Copy, Default, PartialEq, Eq)]
    pub struct PublicKey(u64);
    impl PublicKey {
        pub fn validate(&self) -> Result<(), BLST_ERROR> {
            if self.0 == 0 {
                return Err(BLST_PK_IS_INFINITY);
            }
            Ok(())
        }
        pub fn key_validate(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let k = Self::from_bytes(b)?;
            k.validate()?;
            Ok(k)
        }
        pub fn to_bytes(&self) -> [u8; 96] {
            let mut b = [0; 96];
            enc(self.0, 0x80, &mut b);
            b
        }
        pub fn compress(&self) -> [u8; 96] {
            self.to_bytes()
        }
        pub fn serialize(&self) -> [u8; 192] {
            let mut b = [0; 192];
            enc(self.0, 0, &mut b);
            b
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            match b.len() {
                96 => dec(b, 0x80).map(Self),
                192 => dec(b, 0).map(Self),
                _ => Err(BLST_BAD_ENCODING),
            }
        }
        pub fn deserialize(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::from_bytes(b)
        }
        pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> {
            if b.len() != 96 {
                return Err(BLST_BAD_ENCODING);
            }
            Self::from_bytes(b)
        }
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Signature(u64);
    impl Signature {
        pub fn verify(&self, _groupcheck: bool, msg: &[u8], dst: &[u8], aug: &[u8], pk: &PublicKey, pk_validate: bool) -> BLST_ERROR {
            self.all(&[msg], dst, aug, &[pk], pk_validate)
        }
        fn all(&self, msgs: &[&[u8]], dst: &[u8], aug: &[u8], pks: &[&PublicKey], pk_validate: bool) -> BLST_ERROR {
            if msgs.is_empty() || msgs.len() != pks.len() {
                return BLST_VERIFY_FAIL;
            }
            let mut s = 0;
            for (m, k) in msgs.iter().zip(pks) {
                if pk_validate && k.0 == 0 {
                    return BLST_PK_IS_INFINITY;
                }
                s = add(s, mul(k.0, h(&[dst, aug, m])));
            }
            if s == self.0 { BLST_SUCCESS } else { BLST_VERIFY_FAIL }
        }
        pub fn aggregate_verify(&self, _groupcheck: bool, msgs: &[&[u8]], dst: &[u8], pks: &[&PublicKey], pk_validate: bool) -> BLST_ERROR {
            self.all(msgs, dst, &[], pks, pk_validate)
        }
        pub fn fast_aggregate_verify(&self, _groupcheck: bool, msg: &[u8], dst: &[u8], pks: &[&PublicKey]) -> BLST_ERROR {
            self.all(&vec![msg; pks.len()], dst, &[], pks, false)
        }
        pub fn validate(&self, infcheck: bool) -> Result<(), BLST_ERROR> {
            if infcheck && self.0 == 0 {
                return Err(BLST_PK_IS_INFINITY);
            }
            Ok(())
        }
        pub fn to_bytes(&self) -> [u8; 48] {
            let mut b = [0; 48];
            enc(self.0, 0x80, &mut b);
            b
        }
        pub fn compress(&self) -> [u8; 48] {
            self.to_bytes()
        }
        pub fn serialize(&self) -> [u8; 96] {
            let mut b = [0; 96];
            enc(self.0, 0, &mut b);
            b
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            match b.len() {
                48 => dec(b, 0x80).map(Self),
                96 => dec(b, 0).map(Self),
                _ => Err(BLST_BAD_ENCODING),
            }
        }
        pub fn deserialize(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::from_bytes(b)
        }
        pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> {
            if b.len() != 48 {
                return Err(BLST_BAD_ENCODING);
            }
            Self::from_bytes(b)
        }
        pub fn from_aggregate(a: &AggregateSignature) -> Self {
            a.to_signature()
        }
    }

    #[derive(Debug, Clone, Copy)]
    pub struct AggregateSignature(u64);
    impl AggregateSignature {
        pub fn from_signature(s: &Signature) -> Self {
            Self(s.0)
        }
        pub fn to_signature(&self) -> Signature {
            Signature(self.0)
        }
        pub fn aggregate(sigs: &[&Signature], _groupcheck: bool) -> Result<Self, BLST_ERROR> {
            if sigs.is_empty() {
                return Err(BLST_AGGR_TYPE_MISMATCH);
            }
            Ok(Self(sigs.iter().fold(0, |a, s| add(a, s.0))))
        }
        pub fn add_signature(&mut self, s: &Signature, _groupcheck: bool) -> Result<(), BLST_ERROR> {
            self.0 = add(self.0, s.0);
            Ok(())
        }
        pub fn add_aggregate(&mut self, s: &AggregateSignature) {
            self.0 = add(self.0, s.0);
        }
        pub fn validate(&self) -> Result<(), BLST_ERROR> {
            Ok(())
        }
    }
}
