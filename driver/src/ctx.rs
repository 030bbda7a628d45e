//! Execution of one scenario on the real crate, and projection of what happened onto the
//! vocabulary of the specification (spec/PkstlLayer.tla).

use crate::mem::{self, watched};
use crate::wire::{self, Eph, Rng, Session, MAGIC};
#[allow(unused_imports)]
use crate::stub::*;
use pkstl::*;
use ring::signature::{Ed25519KeyPair, KeyPair};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Obj = Map<String, Value>;
const BIG: u64 = 1 << 30;
const UNKNOWN_BASE: i64 = 900_000_000;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Typed {
    id: i64,
    name: String,
    list: Vec<u32>,
    opt: Option<Box<Typed>>,
}

pub fn typed(id: i64) -> Typed {
    let mut r = Rng(id as u64 ^ 0x7E57);
    let n = match id % 5 {
        0 => 0,
        1 => 3,
        2 => 40,
        3 => 700,
        _ => 3000,
    };
    Typed {
        id,
        name: format!("v{} \"é\\\u{1F600} {}", id, "x".repeat(n)),
        list: (0..n as u64 / 2).map(|_| r.next() as u32).collect(),
        opt: if id % 2 == 0 { None } else { Some(Box::new(Typed { id: -id, name: String::new(), list: vec![0, u32::max_value()], opt: None })) },
    }
}

enum Layer {
    Min(MinimalSecureLayer),
    Full(SecureLayer),
}

struct Handle {
    num: i64,
    layer: Box<Layer>,
    full: bool,
    me: i64,
    clone: bool,
    /// an ACK issued before the identity was known
    ack: Option<Vec<u8>>,
    epk_id: i64,
    epk: Option<Vec<u8>>,
    /// where in the layer the secret of its session is (what else is there was left by others, on the stack, and
    /// moved here with the gaps of the structure)
    spots: Vec<usize>,
}

enum Del {
    Nego(char, i64, i64),
    User(i64),
}

pub struct Ctx {
    seed: u64,
    handles: HashMap<String, Handle>,
    nh: i64,
    wires: HashMap<String, Vec<u8>>,
    issued: HashMap<Vec<u8>, i64>,
    next_epk: i64,
    epks: HashMap<Vec<u8>, i64>,
    ephs: HashMap<String, Eph>,
    sessions: HashMap<(String, Vec<u8>), Option<Session>>,
    contents: HashMap<Vec<u8>, i64>,
    pks: HashMap<Vec<u8>, i64>,
    ks: HashMap<Vec<u8>, i64>,
    bigs: HashMap<u64, i64>,
    unknown: i64,
    dead: bool,
    ty: i64,
    /// the secrets of sessions are looked for in memory
    er: bool,
    /// secret of mem -> the keys of its session
    known: HashMap<usize, (i64, i64)>,
    /// ephemeral keys of layers that were dropped
    gone: HashMap<String, Vec<u8>>,
}

/// identities of layers created without a seed: FRESH + number of the handle
const FRESH: i64 = 5000;

fn seed_bytes(id: i64) -> [u8; 32] {
    let mut s = [0x5A; 32];
    match id {
        7 => s = [0; 32],
        8 => s = [0xFF; 32],
        9..=12 => mem::unwatched(|| s.copy_from_slice(&Rng(0x1D5EED + id as u64).bytes(32))),
        _ => {
            s[0] = id as u8;
            s[1] = (id >> 8) as u8;
        }
    }
    s
}

pub fn identity(id: i64) -> Ed25519KeyPair {
    Ed25519KeyPair::from_seed_unchecked(&seed_bytes(id)).expect("identity")
}

/// the seed given to a layer, in one of the ways the type offers
fn id_seed(id: i64) -> Option<Seed32> {
    match id {
        0 => None,
        7 => Some(Seed32::default()),
        _ if id % 2 == 0 => {
            let mut s = Seed32::default();
            s.as_mut().copy_from_slice(&seed_bytes(id));
            Some(s)
        }
        _ if id % 3 == 0 => Some(Seed32::new(seed_bytes(id)).clone()),
        _ => Some(Seed32::new(seed_bytes(id))),
    }
}

fn ids() -> &'static [(i64, Vec<u8>)] {
    static IDS: std::sync::OnceLock<Vec<(i64, Vec<u8>)>> = std::sync::OnceLock::new();
    IDS.get_or_init(|| (1..=12).map(|i| (i, identity(i).public_key().as_ref().to_vec())).collect())
}

const LOW: [&str; 9] = [
    "0000000000000000000000000000000000000000000000000000000000000000",
    "0100000000000000000000000000000000000000000000000000000000000000",
    "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
    "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "0000000000000000000000000000000000000000000000000000000000000080",
    "0100000000000000000000000000000000000000000000000000000000000080",
];

/// a call of the crate
fn guarded<R>(f: impl FnOnce() -> R + std::panic::UnwindSafe) -> std::thread::Result<R> {
    watched(|| catch_unwind(f))
}

fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

pub fn err_name(e: &Error) -> String {
    let s = format!("{:?}", e);
    let s = s.trim_start_matches("RecvInvalidMsg(");
    if s.starts_with("SerdeError(") {
        let t = &s["SerdeError(".len()..];
        let end = t.find(|c: char| !c.is_alphanumeric() && c != '_').unwrap_or(t.len());
        return format!("SerdeError_{}", &t[..end]);
    }
    let end = s.find(|c: char| !c.is_alphanumeric() && c != '_').unwrap_or(s.len());
    s[..end].to_string()
}

/// Underlying writer with a script: n>0 accept at most n bytes, 0 accept nothing, -1 interrupted,
/// -2 error, -3 would block, -5 half, -6 all but one, -7 all; accepts everything once the script is exhausted.
struct Sink {
    got: Vec<u8>,
    script: Vec<i64>,
    pos: usize,
    faults: u32,
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        use std::io::{Error as E, ErrorKind as K};
        let s = if self.pos < self.script.len() { self.script[self.pos] } else { i64::max_value() };
        self.pos += 1;
        match s {
            -1 => Err(E::new(K::Interrupted, "interrupted")),
            -2 => {
                self.faults += 1;
                Err(E::new(K::Other, "fault"))
            }
            -3 => {
                self.faults += 1;
                Err(E::new(K::WouldBlock, "fault"))
            }
            n => {
                if n == 0 && !b.is_empty() {
                    self.faults += 1;
                }
                let n = match n {
                    -5 => (b.len() / 2).max(1),
                    -6 => b.len().saturating_sub(1).max(1),
                    -7 => b.len(),
                    n => n as usize,
                }
                .min(b.len());
                self.got.extend_from_slice(&b[..n]);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// other bytes that some careless comparison takes for the same: rearranged, or with differences that cancel out;
/// the letters are followed by a position
fn permute(b: &mut [u8], how: &str) {
    let at = how.find(|c: char| c.is_ascii_digit()).unwrap_or_else(|| how.len());
    let n = b.len();
    let i = how[at..].parse::<usize>().unwrap_or(0) % n.max(1);
    let old = b.to_vec();
    match &how[..at] {
        "rev" => b.reverse(),
        "rot" => b.rotate_left(i),
        "words" => {
            // exchange of the two halves of every group of 2i bytes
            for c in b.chunks_mut(2 * i.max(1)) {
                let h = c.len() / 2;
                c.rotate_left(h);
            }
        }
        // exchange with the next byte that differs
        "swap" => {
            if let Some(j) = (1..n).map(|k| (i + k) % n).find(|j| b[*j] != b[i]) {
                b.swap(i, j);
            }
        }
        // the same bit in two bytes
        "pair" => {
            b[i] ^= 1 << (i % 8);
            let j = (i + 1 + i % 7) % n;
            b[j] ^= 1 << (i % 8);
        }
        // one more here, one less there
        "sum" => {
            b[i] = b[i].wrapping_add(1);
            let j = (i + 3) % n;
            b[j] = b[j].wrapping_sub(1);
        }
        // everything but i bytes at the start, at the end, around a place
        "head" => b[i..].copy_from_slice(&old[i..].iter().map(|x| !x).collect::<Vec<u8>>()),
        "tail" => b[..n - i].copy_from_slice(&old[..n - i].iter().map(|x| !x).collect::<Vec<u8>>()),
        "hole" => b[i] = !b[i],
        "zero" => b[i..].iter_mut().for_each(|x| *x = 0),
        "fill" => b.iter_mut().for_each(|x| *x = i as u8),
        "case" => b.iter_mut().for_each(|x| {
            if x.is_ascii_alphabetic() {
                *x ^= 0x20
            }
        }),
        "sort" => b.sort(),
        "not" => b.iter_mut().for_each(|x| *x = !*x),
        "neg" => b[i] = b[i].wrapping_neg(),
        "top" => b.iter_mut().for_each(|x| *x ^= 0x80),
        _ => {}
    }
    if n > 0 && b[..] == old[..] {
        b[i] ^= 1;
    }
}

fn geti(o: &Value, k: &str, d: i64) -> i64 {
    o.get(k).and_then(|v| v.as_i64()).unwrap_or(d)
}
fn gets<'a>(o: &'a Value, k: &str) -> &'a str {
    o.get(k).and_then(|v| v.as_str()).unwrap_or("")
}

/// bytes fr..to of a message (counted from its end if negative)
fn part<'a>(c: &Value, m: &'a [u8]) -> &'a [u8] {
    let l = m.len() as i64;
    let at = |x: i64| if x < 0 { (l + x).max(0) } else { x.min(l) } as usize;
    let (fr, to) = (at(geti(c, "fr", 0)), at(geti(c, "to", l)));
    &m[fr.min(to)..to]
}

impl Ctx {
    pub fn new(seed: u64) -> Ctx {
        let mut c = Ctx {
            seed,
            handles: HashMap::new(),
            nh: 0,
            wires: HashMap::new(),
            issued: HashMap::new(),
            next_epk: 1,
            epks: HashMap::new(),
            ephs: HashMap::new(),
            sessions: HashMap::new(),
            contents: HashMap::new(),
            pks: HashMap::new(),
            ks: HashMap::new(),
            bigs: HashMap::new(),
            unknown: UNKNOWN_BASE,
            dead: false,
            ty: 0,
            er: false,
            known: HashMap::new(),
            gone: HashMap::new(),
        };
        c.contents.insert(vec![], 1);
        for (i, p) in ids() {
            c.pks.insert(p.clone(), *i);
        }
        c
    }

    fn pk_bytes(id: i64) -> Vec<u8> {
        ids().iter().find(|(i, _)| *i == id).map(|x| x.1.clone()).unwrap_or_else(|| identity(id).public_key().as_ref().to_vec())
    }

    fn pk_id(&mut self, b: &[u8]) -> i64 {
        let n = 100 + self.pks.len() as i64;
        *self.pks.entry(b.to_vec()).or_insert(n)
    }

    fn pin(&mut self, v: &Value) -> Option<Vec<u8>> {
        if let Some(i) = v.as_i64() {
            return if i == 0 { None } else { Some(Self::pk_bytes(i)) };
        }
        if v.is_null() {
            return None;
        }
        if let Some(h) = v.get("of").and_then(|x| x.as_str()) {
            // the identity of another layer, learnt from its CONNECT
            let me = self.handles.get(h)?.me;
            return self.pks.iter().find(|(_, i)| **i == me).map(|x| x.0.clone());
        }
        let mut b = Self::pk_bytes(geti(v, "pk", 1));
        if let Some(f) = v.get("flip").and_then(|x| x.as_i64()) {
            b[(f / 8) as usize] ^= 1 << (f % 8);
        }
        if let Some(k) = v.get("perm").and_then(|x| x.as_str()) {
            permute(&mut b, k);
        }
        if let Some(c) = v.get("cut").and_then(|x| x.as_i64()) {
            b.truncate(c as usize);
        }
        if let Some(e) = v.get("ext").and_then(|x| x.as_i64()) {
            b.extend(std::iter::repeat(0).take(e as usize));
        }
        Some(b)
    }

    /// bytes of a content reference: 0 absent, 1 empty, n unique short content, object: sized content
    fn content(&mut self, v: &Value) -> (i64, Option<Vec<u8>>) {
        let (id, b) = if let Some(i) = v.as_i64() {
            match i {
                0 => return (0, None),
                1 => return (1, Some(vec![])),
                _ => (i, format!("c{:010}", i).into_bytes()),
            }
        } else if v.is_null() {
            return (0, None);
        } else {
            let id = geti(v, "c", 2);
            let len = geti(v, "len", 0) as usize;
            let mut r = Rng(self.seed ^ (id as u64).wrapping_mul(0x1234_5678_9ABC_DEF1));
            let mut b = match gets(v, "kind") {
                "zero" => vec![0u8; len],
                "text" => (0..len).map(|i| b"the quick brown fox jumps over the lazy dog. "[i % 45]).collect(),
                "magic" => (0..len).map(|i| MAGIC[i % 4]).collect(),
                "hex" => hex(gets(v, "hex")),
                _ => r.bytes(len),
            };
            if len >= 24 && gets(v, "kind") != "hex" {
                // no two contents of a run are equal
                b[10..18].copy_from_slice(&(id as u64).to_be_bytes());
            }
            (id, b)
        };
        let id = *self.contents.entry(b.clone()).or_insert(id);
        (id, Some(b))
    }

    fn content_id(&mut self, b: &[u8]) -> i64 {
        if let Some(i) = self.contents.get(b) {
            return *i;
        }
        // "cNNNNNNNNNN" contents are known without having been registered
        if b.len() == 11 && b[0] == b'c' {
            if let Ok(s) = std::str::from_utf8(&b[1..]) {
                if let Ok(i) = s.parse::<i64>() {
                    return i;
                }
            }
        }
        self.unknown += 1;
        let u = self.unknown;
        self.contents.insert(b.to_vec(), u);
        u
    }

    fn eph(&mut self, name: &str) -> Vec<u8> {
        if !self.ephs.contains_key(name) {
            let mut h = self.seed;
            for b in name.bytes() {
                h = h.wrapping_mul(0x100_0000_01B3) ^ u64::from(b);
            }
            let mut s = Rng(h).bytes(32);
            // name ending in '<' or '>' : on that side of every handle key known so far, with '=' : and of the same first byte
            let e = loop {
                let e = Eph::new(&s);
                let ok = self.handles.values().all(|h| match &h.epk {
                    None => true,
                    Some(p) => {
                        if name.contains('=') && e.pk[0] != p[0] {
                            false
                        } else if name.ends_with('<') {
                            e.pk < *p
                        } else if name.ends_with('>') {
                            e.pk > *p
                        } else {
                            true
                        }
                    }
                });
                if ok {
                    break e;
                }
                h = h.wrapping_add(1);
                s = Rng(h).bytes(32);
            };
            let pk = e.pk.clone();
            self.ephs.insert(name.to_string(), e);
            if !self.epks.contains_key(&pk) {
                self.epks.insert(pk, self.next_epk);
                self.next_epk += 1;
            }
        }
        self.ephs[name].pk.clone()
    }

    fn epk_id(&mut self, b: &[u8]) -> i64 {
        if let Some(i) = self.epks.get(b) {
            return *i;
        }
        let low = LOW.iter().any(|l| hex(l) == b);
        // keys nobody is known to hold
        let i = if low { 100_000 + self.next_epk } else { 50_000 + self.next_epk };
        self.next_epk += 1;
        self.epks.insert(b.to_vec(), i);
        i
    }

    /// epk reference: "of:H" key of handle H, "lowN" low order point, "rand", other: key of the reference peer
    fn epk_ref(&mut self, s: &str) -> Option<Vec<u8>> {
        if s.starts_with("of:") {
            return self.handles.get(&s[3..]).and_then(|h| h.epk.clone()).or_else(|| self.gone.get(&s[3..]).cloned());
        }
        if s.starts_with("low") {
            return Some(hex(LOW[s[3..].parse::<usize>().unwrap_or(0)]));
        }
        if s == "rand" {
            return Some(Rng(self.seed ^ 0xABCD).bytes(32));
        }
        Some(self.eph(s))
    }

    fn session(&mut self, e: &str, other: &[u8]) -> Option<Session> {
        let key = (e.to_string(), other.to_vec());
        if let Some(s) = self.sessions.get(&key) {
            return s.clone();
        }
        self.eph(e);
        let s = self.ephs[e].session(other);
        self.sessions.insert(key, s.clone());
        s
    }

    fn nonce(&mut self, n: u64) -> i64 {
        if n < BIG {
            n as i64
        } else if n > u64::max_value() - 1000 {
            2_147_483_647 - (u64::max_value() - n) as i64
        } else {
            let k = self.bigs.len() as i64;
            *self.bigs.entry(n).or_insert(BIG as i64 + k)
        }
    }

    /// Abstract view of a byte string, by independent parsing and by trying every key the
    /// reference peer can compute.
    fn view(&mut self, b: &[u8], replayed: bool) -> Value {
        let clear = b.len() >= 4 && b[..4] == MAGIC;
        let f = if b.len() < 4 { 0 } else if clear { 1 } else { 2 };
        let mut k = (0i64, 0i64);
        let mut plain: Option<Vec<u8>> = None;
        if clear {
            plain = Some(b.to_vec());
        } else if f == 2 && b.len() >= 16 {
            let names: Vec<String> = self.ephs.keys().cloned().collect();
            let epks: Vec<(Vec<u8>, i64)> = self.epks.iter().filter(|x| *x.1 < 100_000).map(|(a, b)| (a.clone(), *b)).collect();
            'o: for n in names {
                let own = self.ephs[&n].pk.clone();
                let oi = self.epk_id(&own);
                for (p, pi) in &epks {
                    if let Some(s) = self.session(&n, p) {
                        if let Some(pt) = s.open(b) {
                            plain = Some(pt);
                            k = (oi.min(*pi), oi.max(*pi));
                            break 'o;
                        }
                    }
                }
            }
        }
        let wi = if replayed { self.issued.get(b).cloned().unwrap_or(0) } else { 0 };
        let w = if k.0 == 0 && f == 2 { wi } else { 0 };
        let p: &[u8] = match &plain {
            Some(p) => p,
            None => &[],
        };
        let pl = p.len();
        let be = |r: &[u8]| r.iter().fold(0u64, |a, x| (a << 8) | u64::from(*x));
        let cap = |v: u64| v.min(BIG) as i64;
        let mg = pl >= 4 && p[..4] == MAGIC;
        let vr = if pl >= 8 { cap(be(&p[4..8])) } else { -1 };
        let dc = if pl >= 16 { be(&p[8..16]) } else { 0 };
        let ty = if pl >= 18 { be(&p[16..18]) as i64 } else { -1 };
        let (mut ep, mut al, mut pk, mut ch, mut n, mut sg, mut hs) = (0i64, -1i64, 0i64, 0i64, 0i64, 0i64, false);
        let mut pkb: Vec<u8> = vec![];
        let mut hl = 2usize;
        let mut hdr = true;
        match ty {
            0 => {
                hl = 10;
                if pl >= 26 {
                    n = self.nonce(be(&p[18..26]));
                } else {
                    hdr = false;
                }
            }
            1 => {
                hl = 70;
                if pl >= 50 {
                    ep = self.epk_id(&p[18..50]);
                }
                if pl >= 54 {
                    al = cap(be(&p[50..54]));
                }
                if pl >= 86 {
                    pkb = p[54..86].to_vec();
                    pk = self.pk_id(&pkb);
                } else {
                    hdr = false;
                }
            }
            2 => {
                hl = 34;
                if pl >= 50 {
                    let c = p[18..50].to_vec();
                    let known: Vec<(Vec<u8>, i64)> = self.epks.iter().map(|(a, b)| (a.clone(), *b)).collect();
                    for (e, i) in known {
                        if wire::sha(&e) == c {
                            ch = i;
                        }
                    }
                } else {
                    hdr = false;
                }
            }
            _ => hdr = false,
        }
        let (mut bid, mut zb, mut bl, mut fm, mut tv) = (0i64, 0i64, 0usize, -1i64, -1i64);
        if hdr && pl >= 16 && dc >= hl as u64 && dc <= (pl - 16) as u64 {
            let end = 16 + dc as usize;
            let body = p[16 + hl..end].to_vec();
            let trail = p[end..].to_vec();
            bl = body.len();
            bid = if body.is_empty() { 0 } else { self.content_id(&body) };
            zb = 0;
            if !body.is_empty() {
                match wire::inflate(&body) {
                    Some(c) => {
                        zb = self.content_id(&c);
                        if c.len() >= 4 {
                            fm = cap(be(&c[..4]));
                            tv = decode_typed(self.ty, fm, &c[4..]);
                        }
                    }
                    None => zb = -1,
                }
            }
            match ty {
                0 => hs = trail == wire::sha(&p[..end]),
                1 => {
                    if wire::verify(&pkb, &p[..end], &trail) {
                        sg = pk;
                    }
                }
                _ => {
                    let all: Vec<(Vec<u8>, i64)> = self.pks.iter().map(|(a, b)| (a.clone(), *b)).collect();
                    for (q, i) in all {
                        if q.len() == 32 && wire::verify(&q, &p[..end], &trail) {
                            sg = i;
                            break;
                        }
                    }
                }
            }
        }
        // same order as in PkstlTrace!ViewOf
        json!([
            f, b.len(), k.0, k.1, w, wi, pl, mg as i64, vr, cap(dc), ty, n, ep, al, pk, ch, sg, hs as i64, bid, zb, bl,
            fm, tv
        ])
    }

    fn patch(b: &mut Vec<u8>, list: &Value, at: &str) {
        if let Some(l) = list.as_array() {
            for p in l {
                if gets(p, "at") != at {
                    continue;
                }
                let off = geti(p, "off", 0);
                let off = if off < 0 { (b.len() as i64 + off).max(0) as usize } else { off as usize };
                match gets(p, "k") {
                    "set" => {
                        for (i, v) in p["v"].as_array().cloned().unwrap_or_default().iter().enumerate() {
                            if off + i < b.len() {
                                b[off + i] = v.as_i64().unwrap_or(0) as u8;
                            }
                        }
                    }
                    "xor" => {
                        if off < b.len() {
                            b[off] ^= geti(p, "v", 1) as u8;
                        }
                    }
                    "trunc" => b.truncate(off),
                    "cuthead" => {
                        b.drain(..off.min(b.len()));
                    }
                    "app" => {
                        for v in p["v"].as_array().cloned().unwrap_or_default() {
                            b.push(v.as_i64().unwrap_or(0) as u8);
                        }
                    }
                    "ins" => {
                        if off <= b.len() {
                            b.insert(off, geti(p, "v", 0) as u8);
                        }
                    }
                    "del" => {
                        if off < b.len() {
                            b.remove(off);
                        }
                    }
                    "perm" => {
                        let end = (off + geti(p, "n", 0) as usize).min(b.len());
                        if off < end {
                            permute(&mut b[off..end], gets(p, "v"));
                        }
                    }
                    "swap" => {
                        let to = geti(p, "to", 0) as usize;
                        if off < b.len() && to < b.len() {
                            b.swap(off, to);
                        }
                    }
                    _ => {}
                }
            }
        }
    }

    fn body(&mut self, c: &Value, full: bool) -> Vec<u8> {
        if let Some(t) = c.get("tv") {
            // typed body: format header, then the value in that format
            let fm = geti(t, "fm", 2);
            let mut b = (fm as u32).to_be_bytes().to_vec();
            b.extend_from_slice(&encode_typed(geti(t, "enc", fm), geti(t, "t", 1)));
            Self::patch(&mut b, &t["p"], "body");
            return wire::deflate(&b, 1);
        }
        match self.content(&c["d"]).1 {
            None => vec![],
            Some(b) => {
                if full && c.get("raw").is_none() {
                    wire::deflate(&b, geti(c, "lv", 1) as u32)
                } else {
                    b
                }
            }
        }
    }

    fn craft(&mut self, c: &Value, full: bool) -> Option<Vec<u8>> {
        if let Some(r) = c.get("raw_bytes") {
            return Some(hex(r.as_str().unwrap_or("")));
        }
        if let Some(r) = c.get("rand") {
            let n = r.as_i64().unwrap_or(0) as usize;
            return Some(Rng(self.seed ^ geti(c, "rs", 1) as u64).bytes(n));
        }
        let body = self.body(c, full);
        let by = geti(c, "by", 3);
        let nul = Value::Null;
        let patches = c.get("p").unwrap_or(&nul).clone();
        match gets(c, "t") {
            "C" | "A" => {
                let mut m = if gets(c, "t") == "C" {
                    let epk = self.epk_ref(gets(c, "ep"))?;
                    let pk = Self::pk_bytes(geti(c, "pk", by));
                    wire::connect(&epk, &pk, &body)
                } else {
                    let mut ch = wire::sha(&self.epk_ref(gets(c, "ch"))?);
                    if let Some(x) = c.get("chx").and_then(|x| x.as_i64()) {
                        ch[(x / 8) as usize] ^= 1 << (x % 8);
                    }
                    wire::ack(&ch, &body)
                };
                Self::patch(&mut m, &patches, "pre");
                match gets(c, "sig") {
                    "none" => {}
                    "zero" => m.extend_from_slice(&[0; 64]),
                    "short" => m.extend_from_slice(&[7; 32]),
                    "part" => {
                        let s = identity(by).sign(part(c, &m));
                        m.extend_from_slice(s.as_ref());
                    }
                    "bad" => {
                        wire::sign(&identity(by), &mut m);
                        let l = m.len();
                        m[l - 33] ^= 1;
                    }
                    _ => wire::sign(&identity(by), &mut m),
                }
                Self::patch(&mut m, &patches, "post");
                if let Some(k) = c.get("enc") {
                    let other = self.epk_ref(k[1].as_str().unwrap_or(""))?;
                    m = self.session(k[0].as_str().unwrap_or(""), &other)?.seal(&m);
                }
                Self::patch(&mut m, &patches, "wire");
                Some(m)
            }
            _ => {
                let n = match c.get("n") {
                    Some(Value::String(s)) => s.parse::<u64>().unwrap_or(0),
                    Some(v) => v.as_u64().unwrap_or(0),
                    None => 0,
                };
                let mut m = wire::user(n, &body);
                Self::patch(&mut m, &patches, "pre");
                match gets(c, "hs") {
                    "bad" => {
                        wire::add_hash(&mut m);
                        let l = m.len();
                        m[l - 1 - geti(c, "hx", 0) as usize] ^= 1;
                    }
                    "none" => {}
                    "part" => {
                        let h = wire::sha(part(c, &m));
                        m.extend_from_slice(&h);
                    }
                    _ => wire::add_hash(&mut m),
                }
                Self::patch(&mut m, &patches, "post");
                if gets(c, "clear") != "y" {
                    let k = c["k"].clone();
                    let other = self.epk_ref(k[1].as_str().unwrap_or(""))?;
                    m = self.session(k[0].as_str().unwrap_or(""), &other)?.seal(&m);
                }
                Self::patch(&mut m, &patches, "wire");
                Some(m)
            }
        }
    }

    fn msg(&mut self, m: &Value, full: bool) -> Option<Vec<u8>> {
        let mut b = if let Some(w) = m.get("w") {
            self.wires.get(w.as_str().unwrap_or(""))?.clone()
        } else {
            self.craft(m, full)?
        };
        if m.get("w").is_some() {
            Self::patch(&mut b, m.get("p").unwrap_or(&Value::Null), "wire");
        }
        Some(b)
    }

    #[allow(unused_mut, unused_variables)]
    fn cfg(v: &Value) -> SecureLayerConfig {
        let mut c = SecureLayerConfig::default();
        #[cfg(feature = "zip")]
        {
            if let Some(l) = v.get("lv").and_then(|x| x.as_u64()) {
                c.compression = flate2::Compression::new(l as u32);
            }
            if let Some(m) = v.get("ms").and_then(|x| x.as_u64()) {
                c.compression_min_size = m as usize;
            }
        }
        #[cfg(feature = "ser")]
        {
            c.message_format = match gets(v, "fm") {
                "text" => MessageFormat::Utf8PlainText,
                #[cfg(feature = "json")]
                "json" => MessageFormat::Utf8Json,
                #[cfg(feature = "cbor")]
                "cbor" => MessageFormat::Cbor,
                #[cfg(feature = "bin")]
                "bin" => MessageFormat::Bincode,
                _ => MessageFormat::RawBinary,
            };
        }
        c
    }

    /// the secrets of every session that the harness can compute are looked for from now on
    fn arm(&mut self) {
        if !self.er {
            return;
        }
        let names: Vec<String> = self.ephs.keys().cloned().collect();
        let theirs: Vec<(i64, Vec<u8>)> = self.handles.values().filter_map(|h| h.epk.clone().map(|e| (h.epk_id, e))).collect();
        for n in &names {
            let own = self.eph(n);
            let own = self.epk_id(&own);
            for (id, e) in &theirs {
                if let Some(i) = self.session(n, e).and_then(|s| mem::secret(&s.0)) {
                    self.known.insert(i, (own.min(*id), own.max(*id)));
                }
            }
        }
        for id in 9..=12 {
            mem::secret(&seed_bytes(id));
        }
    }

    /// where a layer has the secret of its session
    fn spots(&self, hn: &str) -> Vec<usize> {
        match self.handles.get(hn) {
            Some(h) if self.er && !h.clone => {
                let own: Vec<usize> = self.known.iter().filter(|(_, k)| k.0 == h.epk_id || k.1 == h.epk_id).map(|(i, _)| *i).collect();
                mem::spots(&*h.layer as *const Layer as *const u8, std::mem::size_of::<Layer>(), &own)
            }
            Some(h) => h.spots.clone(),
            None => vec![],
        }
    }

    /// from now on secrets are looked for in the memory that the crate frees
    pub fn watch(&mut self) {
        self.er = true;
        mem::arm(true);
    }

    /// Runs one operation; None when it cannot be built in this run
    pub fn step(&mut self, op: &Value) -> Option<Obj> {
        let mut e = self.step_inner(op)?;
        if let (true, Some(n)) = (self.er && !e.contains_key("fr"), mem::freed()) {
            e.insert("fr".into(), json!(n));
        }
        Some(e)
    }

    fn step_inner(&mut self, op: &Value) -> Option<Obj> {
        if self.dead {
            return None;
        }
        let name = gets(op, "op");
        let hn = gets(op, "h").to_string();
        let mut ev = Obj::new();
        ev.insert("op".into(), json!(name));
        if name == "new" {
            let full = gets(op, "md") == "full";
            let pin = self.pin(&op["pin"]);
            let mut me = geti(op, "me", 1);
            let pid = match &pin {
                None => 0,
                Some(p) => {
                    let p = p.clone();
                    self.pk_id(&p)
                }
            };
            let cfg = Self::cfg(&op["cfg"]);
            let r = guarded(AssertUnwindSafe(|| -> Result<Layer> {
                Ok(if full {
                    Layer::Full(SecureLayer::create(cfg, id_seed(me), pin)?)
                } else {
                    Layer::Min(MinimalSecureLayer::create(cfg, pin)?)
                })
            }));
            let r = match r {
                Ok(Ok(layer)) => {
                    self.nh += 1;
                    if me == 0 {
                        me = FRESH + self.nh;
                    }
                    let epk_id = self.next_epk;
                    self.next_epk += 1;
                    let epk = shown_epk(&layer);
                    if let Some(e) = &epk {
                        self.epks.insert(e.clone(), epk_id);
                    }
                    self.handles.insert(hn, Handle { num: self.nh, layer: Box::new(layer), full, me, clone: false, ack: None, epk_id, epk, spots: vec![] });
                    ev.insert("h".into(), json!(self.nh));
                    ev.insert("ep".into(), json!(epk_id));
                    "ok".to_string()
                }
                Ok(Err(e)) => err_name(&e),
                Err(_) => "PANIC".into(),
            };
            ev.insert("pin".into(), json!(pid));
            ev.insert("me".into(), json!(me));
            ev.insert("md".into(), json!(if full { 1 } else { 0 }));
            ev.insert("fmt".into(), json!(fmt_code(gets(&op["cfg"], "fm"))));
            if r != "ok" {
                self.dead = true;
                ev.insert("h".into(), json!(0));
                ev.insert("ep".into(), json!(0));
            }
            ev.insert("r".into(), json!(r));
            return Some(ev);
        }
        if name == "seed" {
            return Some(seed_life(self.seed ^ geti(op, "k", 0) as u64, ev));
        }
        let full = self.handles.get(&hn)?.full;
        ev.insert("h".into(), json!(self.handles[&hn].num));
        match name {
            "con" | "ack" | "wr" | "tw" => self.write_op(op, &hn, ev),
            "rd" | "tr" => {
                self.ty = geti(op, "ty", 0);
                let bytes = self.msg(&op["m"], full)?;
                if gets(op, "save") != "" {
                    self.wires.insert(gets(op, "save").into(), bytes.clone());
                }
                let v = self.view(&bytes, op["m"].get("w").is_some());
                ev.insert("v".into(), v);
                self.read_op(&hn, ev, Some(bytes), name)
            }
            "tk" | "dr" => {
                if full {
                    return None;
                }
                self.read_op(&hn, ev, None, name)
            }
            "bulk" => self.bulk(op, &hn, ev),
            "bw" => self.bulk_write(op, &hn, ev),
            "br" => {
                let bytes = self.msg(&op["m"], full)?;
                let v = self.view(&bytes, op["m"].get("w").is_some());
                ev.insert("v".into(), v);
                self.bulk_same(op, &hn, ev, &bytes)
            }
            "cl" => {
                let to = gets(op, "to").to_string();
                self.arm();
                let spots = self.spots(&hn);
                let h = self.handles.get_mut(&hn)?;
                let (me, epk_id, epk) = (h.me, h.epk_id, h.epk.clone());
                let r = guarded(AssertUnwindSafe(|| match &mut *h.layer {
                    Layer::Min(l) => l.try_clone().map(Layer::Min),
                    Layer::Full(l) => l.try_clone().map(Layer::Full),
                }));
                ev.insert("to".into(), json!(0));
                let r = match r {
                    Ok(Ok(layer)) => {
                        self.nh += 1;
                        self.handles.insert(to, Handle { num: self.nh, layer: Box::new(layer), full, me, clone: true, ack: None, epk_id, epk, spots });
                        ev.insert("to".into(), json!(self.nh));
                        "ok".into()
                    }
                    Ok(Err(e)) => err_name(&e),
                    Err(_) => self.panicked(),
                };
                ev.insert("r".into(), json!(r));
                Some(ev)
            }
            "cfg" => {
                let cfg = Self::cfg(&op["cfg"]);
                let h = self.handles.get_mut(&hn)?;
                let r = guarded(AssertUnwindSafe(|| match &mut *h.layer {
                    Layer::Min(l) => l.change_config(cfg),
                    Layer::Full(l) => l.change_config(cfg),
                }));
                let r = match r {
                    Ok(Ok(())) => "ok".into(),
                    Ok(Err(e)) => err_name(&e),
                    Err(_) => self.panicked(),
                };
                ev.insert("fmt".into(), json!(fmt_code(gets(&op["cfg"], "fm"))));
                ev.insert("r".into(), json!(r));
                Some(ev)
            }
            "drop" => {
                self.arm();
                let spots = self.spots(&hn);
                let h = self.handles.remove(&hn)?;
                if let Some(e) = &h.epk {
                    self.gone.insert(hn, e.clone());
                }
                // the layer goes, the memory in which it stood remains for a moment
                let layer = Box::into_raw(h.layer);
                let r = guarded(AssertUnwindSafe(|| unsafe { std::ptr::drop_in_place(layer) }));
                if self.er {
                    let fr = mem::freed().unwrap_or(0) + mem::there(layer as *const u8, &spots);
                    ev.insert("fr".into(), json!(fr));
                }
                unsafe { std::alloc::dealloc(layer as *mut u8, std::alloc::Layout::new::<Layer>()) };
                if self.er {
                    let bits = mem::held();
                    let lv: Vec<Value> = self.known.iter().filter(|(i, _)| bits >> **i & 1 == 1).map(|(_, k)| json!([k.0, k.1])).collect();
                    ev.insert("lv".into(), Value::Array(lv));
                }
                let r = if r.is_ok() { "ok".into() } else { self.panicked() };
                ev.insert("r".into(), json!(r));
                Some(ev)
            }
            _ => None,
        }
    }

    fn panicked(&mut self) -> String {
        self.dead = true;
        "PANIC".into()
    }

    fn write_op(&mut self, op: &Value, hn: &str, mut ev: Obj) -> Option<Obj> {
        let name = gets(op, "op").to_string();
        let kind = match name.as_str() {
            "con" => 'C',
            "ack" => 'A',
            "wr" => 'U',
            _ => gets(op, "k").chars().next().unwrap_or('U'),
        };
        let (did, data) = if name == "tw" { (0, None) } else { self.content(&op["d"]) };
        let data = if kind == 'U' && data.is_none() && name != "tw" { Some(vec![]) } else { data };
        let did = if kind == 'U' && did == 0 { 1 } else { did };
        let tid = geti(op, "t", 0);
        self.ty = tid / 1000;
        let (cap, pre, script) = match op.get("sink") {
            Some(s) => (
                geti(s, "cap", 64) as usize,
                geti(s, "pre", 0) as usize,
                s["script"].as_array().map(|a| a.iter().filter_map(|x| x.as_i64()).collect()).unwrap_or_else(Vec::new),
            ),
            None => (8192, 0, vec![]),
        };
        let with_sink = op.get("sink").is_some();
        let prefix: Vec<u8> = (0..pre).map(|i| (i % 251) as u8).collect();
        let sink = Sink { got: vec![], script, pos: 0, faults: 0 };
        let mut w = BufWriter::with_capacity(cap, sink);
        if pre > 0 {
            // what the application had put in the buffer before
            let sc = std::mem::replace(&mut w.get_mut().script, vec![]);
            let _ = w.write_all(&prefix);
            w.get_mut().script = sc;
            w.get_mut().pos = 0;
        }
        self.arm();
        let h = self.handles.get_mut(hn)?;
        let me = h.me;
        let full = h.full;
        let mut flt = 0;
        let r = guarded(AssertUnwindSafe(|| -> std::result::Result<(), String> {
            let e = |x: Error| err_name(&x);
            let io = |x: std::io::Error| format!("HARNESS_{:?}", x.kind());
            match &mut *h.layer {
                Layer::Min(l) => match kind {
                    'C' => {
                        let pk = Self::pk_bytes(me);
                        let mut m = l.create_connect_message(&pk, data.as_ref().map(|x| &x[..])).map_err(e)?;
                        wire::sign(&identity(me), &mut m);
                        w.write_all(&m).map_err(io)
                    }
                    'A' => {
                        let mut m = l.create_ack_message(data.as_ref().map(|x| &x[..])).map_err(e)?;
                        wire::sign(&identity(me), &mut m);
                        w.write_all(&m).map_err(io)
                    }
                    _ => l.write_message(data.as_ref().map(|x| &x[..]).unwrap_or(&[]), &mut w).map_err(e),
                },
                Layer::Full(l) => {
                    if name == "tw" {
                        crate::with_type!(tid / 1000, T, write_typed::<T, _>(l, kind, tid, &mut w)).map_err(e)
                    } else {
                        match kind {
                            'C' => l.write_connect_msg_bin(data.as_ref().map(|x| &x[..]), &mut w).map_err(e),
                            'A' => l.write_ack_msg_bin(data.as_ref().map(|x| &x[..]), &mut w).map_err(e),
                            _ => l.write_bin(data.as_ref().map(|x| &x[..]).unwrap_or(&[]), &mut w).map_err(e),
                        }
                    }
                }
            }
        }));
        let r = match r {
            Ok(Ok(())) => "ok".to_string(),
            Ok(Err(e)) => e,
            Err(_) => self.panicked(),
        };
        flt += w.get_ref().faults;
        // final flush by the application
        let mut ffl = false;
        if r != "PANIC" && r == "ok" && w.flush().is_err() {
            ffl = true;
        }
        let out = w.get_ref().got.clone();
        let spill = r != "ok" && out.len() + w.buffer().len() > prefix.len();
        // what is left in the buffer must not reach the sink again on drop
        std::mem::forget(w);
        let clean = out.len() >= prefix.len() && out[..prefix.len()] == prefix[..];
        let out = if clean { out[prefix.len()..].to_vec() } else { out };
        if name == "tw" {
            ev.insert("k".into(), json!(kind.to_string()));
            ev.insert("t".into(), json!(tid));
        } else {
            ev.insert("d".into(), json!(did));
        }
        ev.insert("r".into(), json!(r));
        ev.insert("o".into(), json!(0));
        if r == "ok" && !out.is_empty() && !ffl {
            let next = self.issued.len() as i64 + 1;
            let id = *self.issued.entry(out.clone()).or_insert(next);
            ev.insert("o".into(), json!(id));
            if gets(op, "o") != "" {
                self.wires.insert(gets(op, "o").into(), out.clone());
            }
            // learn the ephemeral key of the handle from its CONNECT
            let known = self.handles[hn].epk.clone();
            if kind == 'C' && out.len() >= 50 && !self.handles[hn].clone && known.as_ref().map(|k| k[..] != out[18..50]).unwrap_or(true) {
                let e = out[18..50].to_vec();
                let eid = self.handles[hn].epk_id;
                if let Some(k) = known {
                    if !self.epks.contains_key(&e) {
                        self.epks.remove(&k);
                    }
                }
                self.epks.entry(e.clone()).or_insert(eid);
                if let Some(h) = self.handles.get_mut(hn) {
                    h.epk = Some(e);
                }
            }
            // an identity chosen by the layer is learnt from its CONNECT; an earlier ACK must be signed by it
            if me >= FRESH && kind == 'C' && out.len() >= 86 && !self.pks.values().any(|i| *i == me) {
                let pk = out[54..86].to_vec();
                let ok = match self.handles[hn].ack.as_ref() {
                    Some(a) => a.len() > 64 && wire::verify(&pk, &a[..a.len() - 64], &a[a.len() - 64..]),
                    None => true,
                };
                ev.insert("ia".into(), json!(ok as i64));
                self.pks.entry(pk).or_insert(me);
            }
            let early = me >= FRESH && kind == 'A' && !self.pks.values().any(|i| *i == me);
            if early {
                if let Some(h) = self.handles.get_mut(hn) {
                    h.ack = Some(out.clone());
                }
            }
            let mut v = self.view(&out, true);
            if early {
                v[16] = json!(me);
            }
            if kind == 'U' {
                let n = self.ks.len() as i64 + 1;
                let ks = out[..out.len().min(8)].to_vec();
                ev.insert("ks".into(), json!(*self.ks.entry(ks).or_insert(n)));
                ev.insert("lk".into(), json!(leaks(&data.clone().unwrap_or_default(), &out) as i64));
            }
            ev.insert("ov".into(), v);
        } else if spill {
            // output despite an error
            ev.insert("sp".into(), json!(1));
        }
        ev.insert("dl".into(), json!(data.as_ref().map(|x| x.len() as i64).unwrap_or(-1)));
        if with_sink {
            ev.insert("flt".into(), json!((flt > 0) as i64));
            ev.insert("ffl".into(), json!(ffl as i64));
            ev.insert("pfx".into(), json!(clean as i64));
            ev.insert("outlen".into(), json!(out.len()));
        }
        Some(ev)
    }

    fn conv(&mut self, m: Message) -> Del {
        let mut c = |d: Option<Vec<u8>>, s: &mut Self| match d {
            None => 0,
            Some(b) => {
                if b.is_empty() {
                    1
                } else {
                    s.content_id(&b)
                }
            }
        };
        match m {
            Message::Connect { sig_algo, sig_pubkey, custom_data } => {
                let pk = if sig_algo == SIG_ALGO_ED25519_ARRAY { self.pk_id(&sig_pubkey) } else { 999 };
                Del::Nego('C', pk, c(custom_data, self))
            }
            Message::Ack { custom_data } => Del::Nego('A', 0, c(custom_data, self)),
            Message::Message { custom_data } => Del::User(c(custom_data, self)),
        }
    }

    fn run_read(&mut self, hn: &str, bytes: Option<&[u8]>, name: &str) -> (String, Vec<Del>) {
        enum R {
            Min(Vec<Message>),
            Bin(Vec<IncomingBinaryMessage>),
            Typ(Vec<Ident>),
        }
        self.arm();
        let ty = self.ty;
        let h = match self.handles.get_mut(hn) {
            Some(h) => h,
            None => return ("HARNESS".into(), vec![]),
        };
        let r = guarded(AssertUnwindSafe(|| -> Result<R> {
            match &mut *h.layer {
                Layer::Min(l) => Ok(R::Min(match name {
                    "tk" => l.take_ack_msg_recv_too_early()?.into_iter().collect(),
                    "dr" => l.drain_tmp_stack_user_msgs()?,
                    _ => l.read(bytes.unwrap_or(&[]))?.into_iter().collect(),
                })),
                Layer::Full(l) => {
                    if name == "tr" {
                        Ok(R::Typ(crate::with_type!(ty, T, read_typed::<T>(l, bytes.unwrap_or(&[])))?))
                    } else {
                        Ok(R::Bin(l.read_bin(bytes.unwrap_or(&[]))?))
                    }
                }
            }
        }));
        match r {
            Err(_) => (self.panicked(), vec![]),
            Ok(Err(e)) => (err_name(&e), vec![]),
            Ok(Ok(R::Min(v))) => ("ok".into(), v.into_iter().map(|m| self.conv(m)).collect()),
            Ok(Ok(R::Bin(v))) => {
                let mut out = vec![];
                for m in v {
                    let mut c = |d: Option<Vec<u8>>| match d {
                        None => 0,
                        Some(b) => self.content_id(&b),
                    };
                    out.push(match m {
                        IncomingBinaryMessage::Connect { custom_data, peer_sig_public_key } => {
                            let d = c(custom_data);
                            Del::Nego('C', self.pk_id(&peer_sig_public_key), d)
                        }
                        IncomingBinaryMessage::Ack { custom_data } => Del::Nego('A', 0, c(custom_data)),
                        IncomingBinaryMessage::Message { data } => Del::User(c(data)),
                    });
                }
                ("ok".into(), out)
            }
            Ok(Ok(R::Typ(v))) => {
                let mut out = vec![];
                for m in v {
                    out.push(match m {
                        Ident::Connect(t, pk) => Del::Nego('C', self.pk_id(&pk), t),
                        Ident::Ack(t) => Del::Nego('A', 0, t),
                        Ident::Message(t) => Del::User(t),
                    });
                }
                ("ok".into(), out)
            }
        }
    }

    fn read_op(&mut self, hn: &str, mut ev: Obj, bytes: Option<Vec<u8>>, name: &str) -> Option<Obj> {
        let (r, del) = self.run_read(hn, bytes.as_ref().map(|x| &x[..]), name);
        ev.insert("r".into(), json!(r));
        let (mut dn, mut du, mut uo) = (vec![], vec![], true);
        for d in del {
            match d {
                Del::Nego(k, pk, d) => {
                    uo = uo && du.is_empty();
                    dn.push(json!({"k": k.to_string(), "pk": pk, "d": d}));
                }
                Del::User(d) => du.push(json!(d)),
            }
        }
        ev.insert("dn".into(), Value::Array(dn));
        ev.insert("du".into(), Value::Array(du));
        ev.insert("uo".into(), json!(uo));
        Some(ev)
    }

    /// the same bytes many times
    fn bulk_same(&mut self, op: &Value, hn: &str, mut ev: Obj, bytes: &[u8]) -> Option<Obj> {
        let mut outs: Vec<(String, i64)> = vec![];
        let c = geti(op, "c", 1);
        for _ in 0..c {
            let (r, _) = self.run_read(hn, Some(bytes), "rd");
            run_of(&mut outs, r);
            if self.dead {
                break;
            }
        }
        ev.insert("c".into(), json!(c));
        Some(self.ended(ev, outs))
    }

    /// many user messages written, opened by the reference peer; "ok": a message of the session, in documented
    /// form, numbered one above the one before, with the content given
    fn bulk_write(&mut self, op: &Value, hn: &str, mut ev: Obj) -> Option<Obj> {
        let k = op["k"].clone();
        let other = self.epk_ref(k[1].as_str().unwrap_or(""))?;
        let en = k[0].as_str().unwrap_or("").to_string();
        let s = self.session(&en, &other)?;
        let own = self.eph(&en);
        let (a, b) = (self.epk_id(&own), self.epk_id(&other));
        let full = self.handles.get(hn)?.full;
        let c = geti(op, "c", 1);
        let (mut outs, mut n0, mut last): (Vec<(String, i64)>, i64, i64) = (vec![], -1, -1);
        for i in 0..c {
            let d = format!("b{:06}", i).into_bytes();
            let h = self.handles.get_mut(hn)?;
            let mut w = BufWriter::with_capacity(256, vec![]);
            let r = guarded(AssertUnwindSafe(|| match &mut *h.layer {
                Layer::Min(l) => l.write_message(&d, &mut w),
                Layer::Full(l) => l.write_bin(&d, &mut w),
            }));
            let sym = match r {
                Err(_) => self.panicked(),
                Ok(Err(e)) => err_name(&e),
                Ok(Ok(())) => match w.into_inner().ok().and_then(|x| s.open(&x)) {
                    None => "unreadable".into(),
                    Some(m) => {
                        let n = if m.len() >= 26 { m[18..26].iter().fold(0u64, |a, x| (a << 8) | u64::from(*x)).min(BIG) as i64 } else { -1 };
                        let mut want = wire::user(n as u64, &if full { wire::inflate(m.get(26..m.len().max(58) - 32).unwrap_or(&[])).unwrap_or_default() } else { d.clone() });
                        let good = if full { want.len() > 26 && want[26..] == d[..] && m.len() > 58 && wire::sha(&m[..m.len() - 32])[..] == m[m.len() - 32..] } else {
                            wire::add_hash(&mut want);
                            m == want
                        };
                        if n0 < 0 {
                            n0 = n;
                        }
                        let next = last < 0 || n == last + 1;
                        last = n;
                        if !good { "altered".into() } else if !next { "misnumbered".into() } else { "ok".to_string() }
                    }
                },
            };
            run_of(&mut outs, sym);
            if self.dead {
                break;
            }
        }
        ev.insert("k".into(), json!([a.min(b), a.max(b)]));
        ev.insert("c".into(), json!(c));
        ev.insert("n0".into(), json!(n0));
        Some(self.ended(ev, outs))
    }

    fn ended(&mut self, mut ev: Obj, outs: Vec<(String, i64)>) -> Obj {
        ev.insert("r".into(), json!(if self.dead { "PANIC" } else { "ok" }));
        ev.insert("outs".into(), Value::Array(outs.into_iter().map(|(a, b)| json!({"s": a, "c": b})).collect()));
        ev
    }

    fn bulk(&mut self, op: &Value, hn: &str, mut ev: Obj) -> Option<Obj> {
        let full = self.handles.get(hn)?.full;
        let k = op["k"].clone();
        let other = self.epk_ref(k[1].as_str().unwrap_or(""))?;
        let en = k[0].as_str().unwrap_or("").to_string();
        let s = self.session(&en, &other)?;
        let own = self.eph(&en);
        let (a, b) = (self.epk_id(&own), self.epk_id(&other));
        let (lo, hi, st, cb) = (geti(op, "lo", 0), geti(op, "hi", 0), geti(op, "st", 1), geti(op, "cb", 1_000_000));
        let mut outs: Vec<(String, i64)> = vec![];
        let mut n = lo;
        while n <= hi {
            let c = format!("c{:010}", cb + n).into_bytes();
            let mut m = wire::user(n as u64, &if full { wire::deflate(&c, 0) } else { c });
            wire::add_hash(&mut m);
            let (r, del) = self.run_read(hn, Some(&s.seal(&m)), "rd");
            let sym = if r == "ok" {
                match (del.len(), del.get(0)) {
                    (0, _) => "held".to_string(),
                    (1, Some(Del::User(d))) if *d == cb + n => "del".into(),
                    _ => "odd".into(),
                }
            } else {
                r
            };
            run_of(&mut outs, sym);
            if self.dead {
                break;
            }
            n += st;
        }
        ev.insert("k".into(), json!([a.min(b), a.max(b)]));
        for (x, y) in &[("lo", lo), ("hi", lo + (hi - lo) / st * st), ("st", st), ("cb", cb)] {
            ev.insert((*x).into(), json!(y));
        }
        Some(self.ended(ev, outs))
    }
}

fn run_of(outs: &mut Vec<(String, i64)>, sym: String) {
    match outs.last_mut() {
        Some(l) if l.0 == sym => l.1 += 1,
        _ => outs.push((sym, 1)),
    }
}

fn fmt_code(s: &str) -> i64 {
    match s {
        "text" => 1,
        "json" => 2,
        "cbor" => 3,
        "bin" => 4,
        _ => 0,
    }
}

/// A type of values for the typed calls. Value identifiers are 1000 * K + j.
pub trait Tv: Serialize + serde::de::DeserializeOwned + std::fmt::Debug + PartialEq {
    const K: i64;
    fn make(j: i64) -> Self;
    fn id(&self) -> i64 {
        for j in 0..VARIANTS {
            if *self == Self::make(j) {
                return 1000 * Self::K + j;
            }
        }
        UNKNOWN_BASE
    }
}

const VARIANTS: i64 = 8;

impl Tv for Typed {
    const K: i64 = 0;
    fn make(j: i64) -> Self {
        typed(j)
    }
    fn id(&self) -> i64 {
        if *self == typed(self.id) {
            self.id
        } else {
            UNKNOWN_BASE
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Choice {
    Nothing,
    Num(u8),
    Pair { x: i32, y: Option<String> },
    Deep(Box<Choice>),
}

macro_rules! tv {
    ($t:ty, $k:expr, $j:ident, $e:expr) => {
        impl Tv for $t {
            const K: i64 = $k;
            fn make($j: i64) -> Self {
                $e
            }
        }
    };
}

tv!(String, 1, j, ["", "a", "\u{0}\u{1F600}\"\\", "null", "{}", "\u{FFFF}\n\r\t", " ", "0"][j as usize].repeat(if j == 1 { 300 } else { 1 }));
tv!(Vec<u8>, 2, j, match j {
    0 => vec![],
    1 => vec![0],
    2 => vec![0xFF; 255],
    3 => vec![0xE2, 0xC2, 0xE2, 0xD2],
    _ => (0..j as usize * 1000).map(|x| (x * 7) as u8).collect(),
});
tv!((), 3, _j, ());
tv!(i64, 4, j, [0, 1, -1, i64::min_value(), i64::max_value(), 1 << 31, -(1 << 31) - 1, 1 << 53][j as usize]);
tv!(u64, 5, j, [0, 1, u64::max_value(), 1 << 63, 1 << 32, 255, 256, 65536][j as usize]);
tv!(f64, 6, j, [0.0, 1.0, -0.5, 1e300, -1e-300, 65536.25, 1e15, 0.1][j as usize]);
tv!(Option<u32>, 7, j, if j == 0 { None } else { Some((j as u32 - 1) * 613_566_756) });
tv!(Choice, 8, j, match j {
    0 => Choice::Nothing,
    1 => Choice::Num(255),
    2 => Choice::Pair { x: -1, y: None },
    3 => Choice::Pair { x: i32::min_value(), y: Some(String::new()) },
    _ => Choice::Deep(Box::new(Choice::make(j - 4))),
});
tv!(BTreeMap<String, Vec<u32>>, 9, j, (0..j).map(|x| ("k".repeat(x as usize), (0..x as u32 * 10).collect())).collect());
tv!(char, 10, j, ['a', '\0', '"', '\\', '\u{E9}', '\u{FFFD}', '\u{1F600}', '\u{10FFFF}'][j as usize]);
tv!((u8, i16, bool), 11, j, (j as u8 * 36, (j as i16 - 4) * 8191, j % 2 == 0));
// the keys of a JSON object are strings: cannot be written in JSON unless it is empty
tv!(BTreeMap<(u8, u8), u8>, 12, j, (0..j as u8).map(|x| ((x, 255 - x), x)).collect());
tv!(Vec<Choice>, 13, j, (0..j).map(Choice::make).collect());

#[macro_export]
macro_rules! with_type {
    ($k:expr, $t:ident, $e:expr) => {
        match $k {
            1 => { type $t = String; $e }
            2 => { type $t = Vec<u8>; $e }
            3 => { type $t = (); $e }
            4 => { type $t = i64; $e }
            5 => { type $t = u64; $e }
            6 => { type $t = f64; $e }
            7 => { type $t = Option<u32>; $e }
            8 => { type $t = Choice; $e }
            9 => { type $t = BTreeMap<String, Vec<u32>>; $e }
            10 => { type $t = char; $e }
            11 => { type $t = (u8, i16, bool); $e }
            12 => { type $t = BTreeMap<(u8, u8), u8>; $e }
            13 => { type $t = Vec<Choice>; $e }
            _ => { type $t = Typed; $e }
        }
    };
}

fn decode_typed(ty: i64, fm: i64, b: &[u8]) -> i64 {
    fn go<T: Tv>(fm: i64, b: &[u8]) -> i64 {
        let v: Option<T> = match fm {
            2 => serde_json::from_slice(b).ok(),
            3 => serde_cbor::from_slice(b).ok(),
            4 => bincode::deserialize(b).ok(),
            _ => None,
        };
        v.map(|x| x.id()).unwrap_or(-1)
    }
    with_type!(ty, T, go::<T>(fm, b))
}

fn encode_typed(fm: i64, id: i64) -> Vec<u8> {
    fn go<T: Tv>(fm: i64, j: i64) -> Vec<u8> {
        let v = T::make(j);
        match fm {
            2 => serde_json::to_vec(&v).unwrap_or_else(|_| vec![1, 2, 3]),
            3 => serde_cbor::to_vec(&v).expect("cbor"),
            4 => bincode::serialize(&v).expect("bincode"),
            1 => b"plain text".to_vec(),
            _ => vec![1, 2, 3],
        }
    }
    with_type!(id / 1000, T, go::<T>(fm, id % 1000))
}

/// the three typed writes
fn write_typed<T: Tv, W: Write>(l: &mut SecureLayer, kind: char, id: i64, w: &mut BufWriter<W>) -> Result<()> {
    let v = T::make(id % 1000);
    match kind {
        'C' => l.write_connect_msg(if id == 0 { None } else { Some(&v) }, w),
        'A' => l.write_ack_msg(if id == 0 { None } else { Some(&v) }, w),
        _ => l.write(&v, w),
    }
}

/// messages with identifiers instead of values
enum Ident {
    Connect(i64, Vec<u8>),
    Ack(i64),
    Message(i64),
}

fn read_typed<T: Tv>(l: &mut SecureLayer, b: &[u8]) -> Result<Vec<Ident>> {
    let t = |d: Option<T>| d.map(|x| x.id()).unwrap_or(0);
    Ok(l.read::<T>(b)?
        .into_iter()
        .map(|m| match m {
            IncomingMessage::Connect { custom_data, peer_sig_public_key } => Ident::Connect(t(custom_data), peer_sig_public_key),
            IncomingMessage::Ack { custom_data } => Ident::Ack(t(custom_data)),
            IncomingMessage::Message { data } => Ident::Message(t(data)),
        })
        .collect())
}

/// true when some 8-byte window of the payload appears in the output
fn leaks(p: &[u8], out: &[u8]) -> bool {
    if p.len() < 8 {
        return false;
    }
    let n = p.len() - 7;
    let step = (n / if n > 1 << 20 { 6 } else { 64 }).max(1);
    let mut i = 0;
    while i < n {
        let w = &p[i..i + 8];
        if w.iter().any(|x| *x != w[0]) && out.windows(8).any(|o| o == w) {
            return true;
        }
        i += step;
    }
    false
}

/// The ephemeral public key that the debug output of a layer shows, so that messages can mention it
/// before the layer issues its CONNECT; None when it is not shown that way.
fn shown_epk(l: &Layer) -> Option<Vec<u8>> {
    let t = catch_unwind(AssertUnwindSafe(|| match l {
        Layer::Min(l) => format!("{:?}", l),
        Layer::Full(l) => format!("{:?}", l),
    }))
    .ok()?;
    let t = &t[t.find("ephemeral_pubkey: EphemeralPublicKey")?..];
    let t = &t[t.find('"')? + 1..];
    let t = &t[..t.find('"')?];
    if t.len() == 64 && t.bytes().all(|b| b.is_ascii_hexdigit()) {
        Some(hex(t))
    } else {
        None
    }
}

pub const REJECTS: [&str; 4] = ["UnexpectedRemoteSigPubKey", "InvalidHashOrSig", "InvalidChallenge", "InvalidNonce"];

/// The operations that the ones on handle `target` depend on: those before them on the same handle, the
/// creation of the handle, the calls that wrote the messages it reads, the keys these mention.
fn closure(ops: &[Value], target: &str) -> Vec<bool> {
    fn refs<'a>(v: &'a Value, out: &mut Vec<&'a str>) {
        match v {
            Value::String(s) if s.starts_with("of:") => out.push(&s[3..]),
            Value::Array(a) => a.iter().for_each(|x| refs(x, out)),
            Value::Object(o) => o.values().for_each(|x| refs(x, out)),
            _ => {}
        }
    }
    let mut on = vec![false; ops.len()];
    let mut todo: Vec<usize> = (0..ops.len()).filter(|i| gets(&ops[*i], "h") == target || gets(&ops[*i], "to") == target).collect();
    while let Some(i) = todo.pop() {
        if on[i] {
            continue;
        }
        on[i] = true;
        let h = gets(&ops[i], "h");
        let mut keys = vec![];
        refs(&ops[i], &mut keys);
        if let Some(k) = ops[i]["pin"].get("of").and_then(|x| x.as_str()) {
            keys.push(k);
        }
        let w = ops[i]["m"].get("w").and_then(|x| x.as_str());
        for j in 0..i {
            let o = &ops[j];
            let key = |x: &str| (gets(o, "h") == x && (o["op"] == "new" || o["op"] == "con" || o["k"] == "C")) || gets(o, "to") == x;
            if gets(o, "h") == h || gets(o, "to") == h || keys.iter().any(|x| key(x)) || w.map(|w| gets(o, "o") == w || gets(o, "save") == w).unwrap_or(false) {
                todo.push(j);
            }
        }
    }
    on
}

/// Every layer again with the operations it depends on only, all of them at once in threads of their own
fn solo(ops: &[Value], seed: u64, evs: &mut Vec<(usize, Obj)>) {
    let mut names: Vec<&str> = vec![];
    for o in ops {
        for n in &[gets(o, "h"), gets(o, "to")] {
            if !n.is_empty() && !names.contains(n) {
                names.push(n);
            }
        }
    }
    let sets: Vec<(&str, Vec<bool>)> = names.into_iter().map(|n| (n, closure(ops, n))).filter(|(_, c)| c.iter().any(|x| !x)).collect();
    let mut got: Vec<(usize, Obj)> = vec![];
    for part in sets.chunks(32) {
        got.extend(std::thread::scope(|sc| {
        let th: Vec<_> = part
            .iter()
            .map(|(n, c)| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut x = Ctx::new(seed);
                        let mut r = vec![];
                        for i in 0..ops.len() {
                            if c[i] {
                                if let Some(e) = x.step(&ops[i]) {
                                    if gets(&ops[i], "h") == *n {
                                        r.push((i, e));
                                    }
                                }
                            }
                        }
                        r
                    })
                    .expect("thread")
            })
            .collect();
        th.into_iter().flat_map(|t| t.join().expect("harness")).collect::<Vec<_>>()
        }));
    }
    let got: HashMap<usize, Obj> = got.into_iter().collect();
    for (i, e) in evs.iter_mut() {
        if let Some(t) = got.get(i) {
            e.insert("so".into(), outcome(t));
        }
    }
}

/// Everything again, every operation in a thread of its own
fn wander(ops: &[Value], seed: u64, evs: &mut Vec<(usize, Obj)>) {
    struct Carry(Ctx);
    // one thread at a time has it
    unsafe impl Send for Carry {}
    impl Carry {
        fn step(&mut self, op: &Value) -> Option<Obj> {
            self.0.step(op)
        }
    }
    let mut x = Carry(Ctx::new(seed));
    let mut got: HashMap<usize, Obj> = HashMap::new();
    for (i, op) in ops.iter().enumerate() {
        let y = &mut x;
        let e = std::thread::scope(|sc| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || y.step(op)).expect("thread").join().expect("harness"));
        if let Some(e) = e {
            got.insert(i, e);
        }
    }
    for (i, e) in evs.iter_mut() {
        if let Some(t) = got.get(i) {
            e.insert("wa".into(), outcome(t));
        }
    }
}

/// Every layer again with the operations it depends on only, each in a process of its own
fn isolated(ops: &[Value], seed: u64, evs: &mut Vec<(usize, Obj)>) {
    let mut names: Vec<&str> = vec![];
    for o in ops {
        for n in &[gets(o, "h"), gets(o, "to")] {
            if !n.is_empty() && !names.contains(n) {
                names.push(n);
            }
        }
    }
    let mut got: HashMap<usize, Value> = HashMap::new();
    for n in names {
        let c = closure(ops, n);
        let req: Vec<Value> = (0..ops.len()).filter(|i| c[*i]).map(|i| json!([i, ops[i]])).collect();
        let mut p = std::process::Command::new(std::env::current_exe().expect("exe"))
            .args(&["--alone", &seed.to_string(), n])
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .spawn()
            .expect("child");
        let mut inp = p.stdin.take().expect("stdin");
        inp.write_all(Value::Array(req).to_string().as_bytes()).expect("request");
        drop(inp);
        let out = p.wait_with_output().expect("child");
        assert!(out.status.success(), "child");
        let v: Value = serde_json::from_slice(&out.stdout).expect("answer");
        for x in v.as_array().cloned().unwrap_or_default() {
            got.insert(x[0].as_u64().expect("index") as usize, x[1].clone());
        }
    }
    for (i, e) in evs.iter_mut() {
        if let Some(t) = got.get(i) {
            e.insert("si".into(), t.clone());
        }
    }
}

/// the other side of `isolated`
pub fn alone(seed: u64, target: &str, req: &Value) -> Value {
    let mut x = Ctx::new(seed);
    let mut r = vec![];
    for o in req.as_array().expect("request") {
        if let Some(e) = x.step(&o[1]) {
            if gets(&o[1], "h") == target {
                r.push(json!([o[0], outcome(&e)]));
            }
        }
    }
    Value::Array(r)
}

/// Seeds made in every way the type offers, dropped where they stand
fn seed_life(k: u64, mut ev: Obj) -> Obj {
    let raw = Rng(k).bytes(32);
    let mut a = [0u8; 32];
    a.copy_from_slice(&raw);
    let mut hits = 0;
    let mut same = true;
    for way in 0..6 {
        mem::arm(true);
        let mut s = Box::new(match way {
            0 => Seed32::default(),
            1 => Seed32::random(),
            _ => Seed32::new(a),
        });
        match way {
            0 => (*s).as_mut().copy_from_slice(&raw),
            2 => s = Box::new((*s).clone()),
            3 => {
                let t = s.clone();
                same = same && t == s;
                *s = Seed32::new([1; 32]);
                s = t;
            }
            4 => same = same && SecureLayer::create(SecureLayerConfig::default(), Some((*s).clone()), None).is_ok(),
            _ => (),
        }
        same = same && (way == 1 || (*s).as_ref() == &raw[..]);
        mem::secret((*s).as_ref());
        let v = vec![*s];
        watched(|| drop(v));
        hits += mem::freed().unwrap_or(0);
    }
    mem::arm(false);
    ev.insert("h".into(), json!(0));
    ev.insert("fr".into(), json!(hits));
    ev.insert("r".into(), json!(if same { "ok" } else { "DIFFERENT" }));
    ev
}

/// what is compared between two runs
fn outcome(t: &Obj) -> Value {
    let mut m = Obj::new();
    for k in &["r", "dn", "du", "outs"] {
        if let Some(v) = t.get(*k) {
            m.insert((*k).into(), v.clone());
        }
    }
    if let Some(v) = t.get("ov") {
        m.insert("ov".into(), v.clone());
    }
    Value::Object(m)
}

/// Runs a scenario; with `twin`, runs it a second time without the messages that were rejected
/// without consequence and records both outcomes.
pub fn run(scn: &Value, seed: u64) -> Value {
    let ops = scn["ops"].as_array().cloned().unwrap_or_default();
    let mut c = Ctx::new(seed);
    if scn.get("er").is_some() {
        c.watch();
    }
    let mut evs: Vec<(usize, Obj)> = vec![];
    for (i, op) in ops.iter().enumerate() {
        if let Some(e) = c.step(op) {
            evs.push((i, e));
        }
    }
    mem::arm(false);
    drop(c);
    if scn.get("twin").is_some() {
        let skip: HashSet<usize> = evs
            .iter()
            .filter(|(i, e)| {
                (e["op"] == "br" && e["outs"].as_array().map(|a| a.iter().all(|o| REJECTS.iter().any(|x| o["s"] == *x))).unwrap_or(false))
                    || (e["op"] == "rd" || e["op"] == "tr")
                    && (REJECTS.iter().any(|x| e["r"] == *x) || (e["r"] != "ok" && e["r"] != "PANIC" && ops[*i].get("rej").is_some()))
            })
            .map(|(i, _)| *i)
            .collect();
        if !skip.is_empty() {
            let mut c = Ctx::new(seed);
            let mut tw: HashMap<usize, Obj> = HashMap::new();
            for (i, op) in ops.iter().enumerate() {
                if skip.contains(&i) {
                    continue;
                }
                if let Some(e) = c.step(op) {
                    tw.insert(i, e);
                }
            }
            for (i, e) in evs.iter_mut() {
                if let Some(t) = tw.get(i) {
                    e.insert("tn".into(), outcome(t));
                }
            }
        }
    }
    if scn.get("solo").is_some() && !evs.iter().any(|x| x.1["r"] == "PANIC") {
        solo(&ops, seed, &mut evs);
        wander(&ops, seed, &mut evs);
        if scn.get("iso").is_some() {
            isolated(&ops, seed, &mut evs);
        }
    }
    let mut t = json!({"id": scn["id"], "ev": evs.into_iter().map(|(_, e)| Value::Object(e)).collect::<Vec<_>>()});
    if let Some(f) = scn.get("ft") {
        t["ft"] = f.clone();
    }
    t
}
