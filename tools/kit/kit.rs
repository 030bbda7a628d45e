//! A peer written from the documentation of the protocol, and helpers for the demonstrations.
#![allow(dead_code)]
use crate::wire::{self, Eph, Session};
use pkstl::{IncomingBinaryMessage as M, Result, SecureLayer, SecureLayerConfig, Seed32};
use ring::signature::{Ed25519KeyPair, KeyPair};
use std::io::{BufWriter, Write};

pub fn out<F: FnOnce(&mut BufWriter<Vec<u8>>) -> Result<()>>(f: F) -> Result<Vec<u8>> {
    let mut w = BufWriter::new(Vec::new());
    f(&mut w)?;
    w.flush().expect("flush");
    Ok(w.into_inner().expect("into_inner"))
}

pub struct Peer {
    pub kp: Ed25519KeyPair,
    pub pk: Vec<u8>,
    pub eph: Eph,
    pub their_epk: Vec<u8>,
    pub their_pk: Vec<u8>,
    pub sess: Option<Session>,
}

impl Peer {
    pub fn new(id: u8, eph: &[u8; 32]) -> Peer {
        let kp = Ed25519KeyPair::from_seed_unchecked(&[id; 32]).expect("kp");
        let pk = kp.public_key().as_ref().to_vec();
        Peer { kp, pk, eph: Eph::new(eph), their_epk: vec![], their_pk: vec![], sess: None }
    }
    pub fn sign(&self, mut m: Vec<u8>) -> Vec<u8> {
        wire::sign(&self.kp, &mut m);
        m
    }
    pub fn connect(&self, body: &[u8]) -> Vec<u8> {
        self.sign(wire::connect(&self.eph.pk, &self.pk, body))
    }
    /// learn the layer's ephemeral key from the CONNECT it issued
    pub fn hear(&mut self, connect: &[u8]) {
        self.their_epk = connect[18..50].to_vec();
        self.their_pk = connect[54..86].to_vec();
        self.sess = self.eph.session(&self.their_epk);
    }
    pub fn ack(&self, body: &[u8]) -> Vec<u8> {
        self.sign(wire::ack(&wire::sha(&self.their_epk), body))
    }
    pub fn seal(&self, clear: &[u8]) -> Vec<u8> {
        self.sess.as_ref().expect("session").seal(clear)
    }
    pub fn user(&self, n: u64, text: &[u8]) -> Vec<u8> {
        let mut m = wire::user(n, &wire::deflate(text, 0));
        wire::add_hash(&mut m);
        self.seal(&m)
    }
    /// number and content of a user message of the layer
    pub fn open(&self, c: &[u8]) -> Option<(u64, Vec<u8>)> {
        let m = self.sess.as_ref()?.open(c)?;
        if m.len() < 58 || m[..8] != [0xE2, 0xC2, 0xE2, 0xD2, 0, 0, 0, 1] || m[16..18] != [0, 0] {
            return None;
        }
        let mut l = [0u8; 8];
        l.copy_from_slice(&m[8..16]);
        let l = u64::from_be_bytes(l);
        if l != m.len() as u64 - 48 || wire::sha(&m[..m.len() - 32])[..] != m[m.len() - 32..] {
            return None;
        }
        let mut n = [0u8; 8];
        n.copy_from_slice(&m[18..26]);
        Some((u64::from_be_bytes(n), wire::inflate(&m[26..m.len() - 32])?))
    }
}

pub fn layer(pin: Option<Vec<u8>>) -> SecureLayer {
    SecureLayer::create(SecureLayerConfig::default(), Some(Seed32::new([1; 32])), pin).expect("create")
}
pub fn connect_of(l: &mut SecureLayer) -> Vec<u8> {
    out(|w| l.write_connect_msg_bin(None, w)).expect("connect")
}
pub fn ack_of(l: &mut SecureLayer) -> Vec<u8> {
    out(|w| l.write_ack_msg_bin(None, w)).expect("ack")
}
pub fn negotiated(pin: Option<Vec<u8>>) -> (SecureLayer, Peer) {
    let mut l = layer(pin);
    let mut p = Peer::new(2, &[7; 32]);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(&[])).expect("read connect");
    ack_of(&mut l);
    l.read_bin(&p.ack(&[])).expect("read ack");
    (l, p)
}
/// contents of the user messages of a read
pub fn datas(r: Result<Vec<M>>) -> Vec<Vec<u8>> {
    r.unwrap_or_default()
        .into_iter()
        .filter_map(|m| if let M::Message { data } = m { Some(data.unwrap_or_default()) } else { None })
        .collect()
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {}", what);
        std::process::exit(1);
    }
}
