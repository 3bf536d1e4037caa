//! Session parameters of the harness: ideal signatures, a strong small digest, a deterministic RNG.
use std::marker::PhantomData;

use digest::generic_array::typenum;
use manul::session::{SessionId, SessionParameters, WireFormat};
use rand_core::{CryptoRng, CryptoRngCore, RngCore};
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Id(pub u8);

#[derive(Debug, Clone, Copy)]
pub struct Signer(pub u8);

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Sig {
    by: u8,
    mac: (u64, u64),
    nonce: u64,
}

fn mac(id: u8, digest: &[u8], nonce: u64) -> (u64, u64) {
    let mut h = MixHash::default();
    h.feed(b"secret key of ");
    h.feed(&[id]);
    h.feed(&nonce.to_be_bytes());
    h.feed(digest);
    h.out()
}

impl signature::Keypair for Signer {
    type VerifyingKey = Id;
    fn verifying_key(&self) -> Id {
        Id(self.0)
    }
}

impl<D: digest::Digest> signature::RandomizedDigestSigner<D, Sig> for Signer {
    fn try_sign_digest_with_rng(&self, rng: &mut impl CryptoRngCore, digest: D) -> Result<Sig, signature::Error> {
        let nonce = rng.next_u64();
        Ok(Sig { by: self.0, mac: mac(self.0, &digest.finalize(), nonce), nonce })
    }
}

impl<D: digest::Digest> signature::DigestVerifier<D, Sig> for Id {
    fn verify_digest(&self, digest: D, sig: &Sig) -> Result<(), signature::Error> {
        if sig.by == self.0 && sig.mac == mac(self.0, &digest.finalize(), sig.nonce) {
            Ok(())
        } else {
            Err(signature::Error::new())
        }
    }
}

/// 128-bit non-cryptographic hash with full avalanche on every 8-byte block.
#[derive(Clone, Debug)]
pub struct MixHash {
    a: u64,
    b: u64,
    buf: [u8; 8],
    n: usize,
    len: u64,
    input: Option<Vec<u8>>,
}

impl Default for MixHash {
    fn default() -> Self {
        let input = logging().then(Vec::new);
        Self { a: 0x9E37_79B9_7F4A_7C15, b: 0xC2B2_AE3D_27D4_EB4F, buf: [0; 8], n: 0, len: 0, input }
    }
}

fn mix(mut x: u64) -> u64 {
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^ (x >> 32)
}

impl MixHash {
    fn block(&mut self, w: u64) {
        self.a = mix(self.a ^ w).wrapping_add(self.b.rotate_left(23));
        self.b = mix(self.b.wrapping_add(w).rotate_left(17) ^ self.a);
    }
    pub fn feed(&mut self, data: &[u8]) {
        if let Some(v) = &mut self.input {
            v.extend_from_slice(data);
        }
        self.len += data.len() as u64;
        let mut d = data;
        if self.n > 0 {
            while self.n < 8 && !d.is_empty() {
                self.buf[self.n] = d[0];
                self.n += 1;
                d = &d[1..];
            }
            if self.n < 8 {
                return;
            }
            let w = u64::from_le_bytes(self.buf);
            self.block(w);
            self.n = 0;
        }
        let mut it = d.chunks_exact(8);
        for c in &mut it {
            self.block(u64::from_le_bytes(c.try_into().unwrap()));
        }
        for x in it.remainder() {
            self.buf[self.n] = *x;
            self.n += 1;
        }
    }
    pub fn out(mut self) -> (u64, u64) {
        let mut last = [0u8; 8];
        last[..self.n].copy_from_slice(&self.buf[..self.n]);
        self.block(u64::from_le_bytes(last));
        let l = self.len;
        self.block(l ^ 0xABCD_EF01_2345_6789);
        self.block(1);
        (self.a, self.b)
    }
}

pub fn hash128(data: &[u8]) -> u128 {
    let mut h = MixHash::default();
    h.feed(data);
    let (a, b) = h.out();
    ((a as u128) << 64) | b as u128
}

impl digest::HashMarker for MixHash {}
impl digest::OutputSizeUser for MixHash {
    type OutputSize = typenum::U16;
}
impl digest::Update for MixHash {
    fn update(&mut self, data: &[u8]) {
        self.feed(data)
    }
}
impl digest::FixedOutput for MixHash {
    fn finalize_into(self, out: &mut digest::Output<Self>) {
        let input = self.input.clone();
        let (a, b) = self.out();
        out[..8].copy_from_slice(&a.to_be_bytes());
        out[8..].copy_from_slice(&b.to_be_bytes());
        if let Some(input) = input {
            HASHES.with(|h| {
                if let Some(v) = h.borrow_mut().as_mut() {
                    v.push((input, out.to_vec()));
                }
            });
        }
    }
}

thread_local! {
    static HASHES: std::cell::RefCell<Option<Vec<(Vec<u8>, Vec<u8>)>>> = const { std::cell::RefCell::new(None) };
}

/// Runs `f` and returns all (input, output) pairs of the hash function it evaluated.
pub fn with_hash_log<T>(f: impl FnOnce() -> T) -> (T, Vec<(Vec<u8>, Vec<u8>)>) {
    HASHES.with(|h| *h.borrow_mut() = Some(Vec::new()));
    let r = f();
    let log = HASHES.with(|h| h.borrow_mut().take().unwrap());
    (r, log)
}
fn logging() -> bool {
    HASHES.with(|h| h.borrow().is_some())
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct Sp<F>(PhantomData<F>);

impl<F: WireFormat> SessionParameters for Sp<F> {
    type Signer = Signer;
    type Verifier = Id;
    type Signature = Sig;
    type Digest = MixHash;
    type WireFormat = F;
}

pub type Json = manul::dev::HumanReadableFormat;
pub type Bin = manul::dev::BinaryFormat;

pub fn session_id(n: u8) -> SessionId {
    SessionId::from_seed::<Sp<Json>>(&[n])
}

/// Deterministic RNG: a counter mixed with a seed.
#[derive(Clone, Debug)]
pub struct DetRng {
    seed: u64,
    ctr: u64,
    flat: bool,
}

impl DetRng {
    pub fn new(parts: &[u64]) -> Self {
        let mut h = MixHash::default();
        for p in parts {
            h.feed(&p.to_be_bytes());
        }
        Self { seed: h.out().0, ctr: 0, flat: false }
    }
    /// Always returns the same.
    pub fn flat(parts: &[u64]) -> Self {
        Self { flat: true, ..Self::new(parts) }
    }
}

impl RngCore for DetRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        if !self.flat {
            self.ctr += 1;
        }
        mix(self.seed ^ mix(self.ctr))
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for DetRng {}
