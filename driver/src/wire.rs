//! Independent implementation of the documented wire format: it builds the messages of the
//! reference peer and parses what the crate emits. It shares no code with the crate under test
//! (AEAD is ring's, not the crate's own dependency).

use ring::aead::{Aad, LessSafeKey, Nonce, UnboundKey, CHACHA20_POLY1305};
use ring::agreement::{agree_ephemeral, EphemeralPrivateKey, UnparsedPublicKey, X25519};
use ring::digest::{digest, SHA256};
use ring::pbkdf2;
use ring::signature::Ed25519KeyPair;
use std::num::NonZeroU32;

pub const MAGIC: [u8; 4] = [0xE2, 0xC2, 0xE2, 0xD2];

pub fn sha(d: &[u8]) -> Vec<u8> {
    digest(&SHA256, d).as_ref().to_vec()
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

/// Ephemeral key of the reference peer
pub struct Eph {
    sk: EphemeralPrivateKey,
    pub pk: Vec<u8>,
}

impl Eph {
    pub fn new(seed: &[u8]) -> Eph {
        let rng = ring::test::rand::FixedSliceRandom { bytes: seed };
        let sk = EphemeralPrivateKey::generate(&X25519, &rng).expect("eph");
        let pk = sk.compute_public_key().expect("eph pub").as_ref().to_vec();
        Eph { sk, pk }
    }
    /// 48 bytes: key, nonce, aad
    pub fn session(&self, other: &[u8]) -> Option<Session> {
        // the private key is plain data without destructor; ring only offers a consuming agreement
        let sk = unsafe { std::ptr::read(&self.sk) };
        let salt = if self.pk.as_slice() > other { self.pk.clone() } else { other.to_vec() };
        agree_ephemeral(sk, &UnparsedPublicKey::new(&X25519, other), (), |m| {
            let mut out = [0u8; 48];
            pbkdf2::derive(
                pbkdf2::PBKDF2_HMAC_SHA384,
                NonZeroU32::new(3).expect("3"),
                &salt,
                m,
                &mut out,
            );
            Ok(Session(out))
        })
        .ok()
    }
}

#[derive(Clone)]
pub struct Session(pub [u8; 48]);

impl Session {
    fn parts(&self) -> (LessSafeKey, Nonce, Aad<[u8; 4]>) {
        let k = LessSafeKey::new(UnboundKey::new(&CHACHA20_POLY1305, &self.0[..32]).expect("key"));
        let mut n = [0u8; 12];
        n.copy_from_slice(&self.0[32..44]);
        let mut a = [0u8; 4];
        a.copy_from_slice(&self.0[44..48]);
        (k, Nonce::assume_unique_for_key(n), Aad::from(a))
    }
    pub fn seal(&self, p: &[u8]) -> Vec<u8> {
        let (k, n, a) = self.parts();
        let mut v = p.to_vec();
        k.seal_in_place_append_tag(n, a, &mut v).expect("seal");
        v
    }
    pub fn open(&self, c: &[u8]) -> Option<Vec<u8>> {
        if c.len() < 16 {
            return None;
        }
        let (k, n, a) = self.parts();
        let mut v = c.to_vec();
        k.open_in_place(n, a, &mut v).ok().map(|p| p.to_vec())
    }
}

fn frame(ty: u16, hdr: &[u8], body: &[u8]) -> Vec<u8> {
    let mut m = Vec::with_capacity(18 + hdr.len() + body.len() + 96);
    m.extend_from_slice(&MAGIC);
    m.extend_from_slice(&1u32.to_be_bytes());
    m.extend_from_slice(&((2 + hdr.len() + body.len()) as u64).to_be_bytes());
    m.extend_from_slice(&ty.to_be_bytes());
    m.extend_from_slice(hdr);
    m.extend_from_slice(body);
    m
}

pub fn connect(epk: &[u8], pk: &[u8], body: &[u8]) -> Vec<u8> {
    let mut h = epk.to_vec();
    h.extend_from_slice(&[0, 0, 0, 0]);
    h.extend_from_slice(pk);
    frame(1, &h, body)
}

pub fn ack(challenge: &[u8], body: &[u8]) -> Vec<u8> {
    frame(2, challenge, body)
}

pub fn user(nonce: u64, body: &[u8]) -> Vec<u8> {
    frame(0, &nonce.to_be_bytes(), body)
}

pub fn sign(kp: &Ed25519KeyPair, m: &mut Vec<u8>) {
    let s = kp.sign(m);
    m.extend_from_slice(s.as_ref());
}

pub fn add_hash(m: &mut Vec<u8>) {
    let h = sha(m);
    m.extend_from_slice(&h);
}

pub fn verify(pk: &[u8], m: &[u8], sig: &[u8]) -> bool {
    ring::signature::UnparsedPublicKey::new(&ring::signature::ED25519, pk)
        .verify(m, sig)
        .is_ok()
}

/// Strict inflate: Some(bytes) only for one complete deflate stream that spans all the input
pub fn inflate(z: &[u8]) -> Option<Vec<u8>> {
    use flate2::{Decompress, FlushDecompress, Status};
    let mut d = Decompress::new(false);
    let mut out = Vec::with_capacity(z.len() * 4 + 1024);
    loop {
        let done = d.total_in() as usize;
        let before = d.total_out();
        match d.decompress_vec(&z[done..], &mut out, FlushDecompress::None) {
            Ok(Status::StreamEnd) => {
                return if d.total_in() as usize == z.len() { Some(out) } else { None }
            }
            Ok(_) => {
                if out.len() < out.capacity() && d.total_out() == before {
                    return None;
                }
                if out.len() == out.capacity() {
                    let c = out.capacity();
                    out.reserve(c);
                }
            }
            Err(_) => return None,
        }
    }
}

pub fn deflate(b: &[u8], level: u32) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(b).expect("deflate");
    e.finish().expect("deflate")
}
