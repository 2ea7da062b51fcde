//! Packet codec and packet cryptography written from the RFCs and the README, sharing no code with /repo.

use base64::Engine;
use chacha20poly1305::aead::AeadInPlace;
use chacha20poly1305::{KeyInit, XChaCha20Poly1305};
use std::collections::HashMap;
use x25519_dalek::{PublicKey, StaticSecret};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum P {
    Rrq { file: String, mode: String, opts: Vec<(String, String)> },
    Wrq { file: String, mode: String, opts: Vec<(String, String)> },
    Data { blk: u16, payload: Vec<u8> },
    Ack { blk: u16 },
    Err { code: u16, msg: String },
    Oack { opts: Vec<(String, String)> },
    Bad,
}

fn strings(b: &[u8]) -> Option<Vec<String>> {
    if b.is_empty() {
        return Some(vec![]);
    }
    if *b.last()? != 0 {
        return None;
    }
    b[..b.len() - 1].split(|c| *c == 0).map(|s| String::from_utf8(s.to_vec()).ok()).collect()
}

fn pairs(v: &[String]) -> Option<Vec<(String, String)>> {
    if v.len() % 2 != 0 {
        return None;
    }
    Some(v.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect())
}

pub fn parse(b: &[u8]) -> P {
    fn go(b: &[u8]) -> Option<P> {
        if b.len() < 2 {
            return None;
        }
        let op = u16::from_be_bytes([b[0], b[1]]);
        let r = &b[2..];
        Some(match op {
            1 | 2 => {
                let s = strings(r)?;
                if s.len() < 2 {
                    return None;
                }
                let opts = pairs(&s[2..])?;
                let (file, mode) = (s[0].clone(), s[1].clone());
                if op == 1 {
                    P::Rrq { file, mode, opts }
                } else {
                    P::Wrq { file, mode, opts }
                }
            }
            3 => {
                if r.len() < 2 {
                    return None;
                }
                P::Data { blk: u16::from_be_bytes([r[0], r[1]]), payload: r[2..].to_vec() }
            }
            4 => {
                if r.len() != 2 {
                    return None;
                }
                P::Ack { blk: u16::from_be_bytes([r[0], r[1]]) }
            }
            5 => {
                if r.len() < 3 {
                    return None;
                }
                let s = strings(&r[2..])?;
                if s.len() != 1 {
                    return None;
                }
                P::Err { code: u16::from_be_bytes([r[0], r[1]]), msg: s[0].clone() }
            }
            6 => P::Oack { opts: pairs(&strings(r)?)? },
            _ => return None,
        })
    }
    go(b).unwrap_or(P::Bad)
}

fn put(v: &mut Vec<u8>, s: &str) {
    v.extend_from_slice(s.as_bytes());
    v.push(0);
}

pub fn build(p: &P) -> Vec<u8> {
    let mut v = vec![];
    match p {
        P::Rrq { file, mode, opts } | P::Wrq { file, mode, opts } => {
            v.extend_from_slice(&(if matches!(p, P::Rrq { .. }) { 1u16 } else { 2 }).to_be_bytes());
            put(&mut v, file);
            put(&mut v, mode);
            for (k, x) in opts {
                put(&mut v, k);
                put(&mut v, x);
            }
        }
        P::Data { blk, payload } => {
            v.extend_from_slice(&3u16.to_be_bytes());
            v.extend_from_slice(&blk.to_be_bytes());
            v.extend_from_slice(payload);
        }
        P::Ack { blk } => {
            v.extend_from_slice(&4u16.to_be_bytes());
            v.extend_from_slice(&blk.to_be_bytes());
        }
        P::Err { code, msg } => {
            v.extend_from_slice(&5u16.to_be_bytes());
            v.extend_from_slice(&code.to_be_bytes());
            put(&mut v, msg);
        }
        P::Oack { opts } => {
            v.extend_from_slice(&6u16.to_be_bytes());
            for (k, x) in opts {
                put(&mut v, k);
                put(&mut v, x);
            }
        }
        P::Bad => {}
    }
    v
}

pub fn b64(b: &[u8]) -> String {
    base64::engine::general_purpose::STANDARD.encode(b)
}
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    base64::engine::general_purpose::STANDARD.decode(s).ok()
}

pub type Key = [u8; 32];

pub fn pubkey(secret: &Key) -> Key {
    PublicKey::from(&StaticSecret::from(*secret)).to_bytes()
}

pub fn shared(secret: &Key, public: &Key) -> Key {
    StaticSecret::from(*secret).diffie_hellman(&PublicKey::from(*public)).to_bytes()
}

/// the X25519 form of an Ed25519 key pair
pub fn mont_secret(sk: &ed25519_dalek::SigningKey) -> Key {
    sk.to_scalar_bytes()
}
pub fn mont_public(vk: &ed25519_dalek::VerifyingKey) -> Key {
    vk.to_montgomery().to_bytes()
}

pub fn seal(key: &Key, plain: &[u8], nonce: &[u8; 24]) -> Vec<u8> {
    let c = XChaCha20Poly1305::new(key.into());
    let mut b = plain.to_vec();
    let tag = c.encrypt_in_place_detached(nonce.into(), &[], &mut b).expect("seal");
    b.extend_from_slice(&tag);
    b.extend_from_slice(nonce);
    b
}

pub fn open(key: &Key, b: &[u8]) -> Option<Vec<u8>> {
    if b.len() < 40 {
        return None;
    }
    let (rest, nonce) = b.split_at(b.len() - 24);
    let (ct, tag) = rest.split_at(rest.len() - 16);
    let mut p = ct.to_vec();
    let c = XChaCha20Poly1305::new(key.into());
    c.decrypt_in_place_detached(nonce.into(), &[], &mut p, tag.into()).ok()?;
    Some(p)
}

pub fn unpad(b: &[u8]) -> Option<Vec<u8>> {
    let last = *b.last()?;
    if last != 0 && last != 0xff {
        return None;
    }
    let n = b.iter().rev().take_while(|x| **x == last).count();
    Some(b[..b.len() - n].to_vec())
}

/// pads with at least one byte, to `size` + 1 when that is larger
pub fn pad(b: &[u8], size: usize) -> Vec<u8> {
    let x = if b.last().copied().unwrap_or(0) & 1 == 1 { 0u8 } else { 0xff };
    let mut v = b.to_vec();
    v.push(x);
    while v.len() < size + 1 {
        v.push(x);
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    /// a packet in the clear
    Plain,
    /// whole packet encrypted
    Whole,
    /// data packet with an encrypted body
    Body,
    /// first packet, encrypted to the long-term key of the server
    Initial,
    Unknown,
}

impl Form {
    pub fn name(self) -> &'static str {
        match self {
            Form::Plain => "plain",
            Form::Whole => "whole",
            Form::Body => "body",
            Form::Initial => "initial",
            Form::Unknown => "unknown",
        }
    }
}

/// Reads packets of any session whose secrets the harness knows.
#[derive(Default)]
pub struct Oracle {
    pub secrets: Vec<Key>,
    pub publics: Vec<Key>,
    keys: Vec<(Key, usize)>,
    seen: std::collections::HashSet<(usize, Key)>,
    cache: HashMap<Vec<u8>, (Form, Vec<u8>, usize)>,
    pub use_cache: bool,
    /// the sessions of this run use encryption at all
    pub on: bool,
}

impl Oracle {
    pub fn add_secret(&mut self, s: Key) {
        if !self.secrets.contains(&s) {
            self.secrets.push(s);
            let p = pubkey(&s);
            self.publics.push(p);
            self.rekey();
        }
    }
    pub fn add_public(&mut self, p: Key) {
        if !self.publics.contains(&p) {
            self.publics.push(p);
            self.rekey();
        }
    }
    fn rekey(&mut self) {
        for (i, s) in self.secrets.iter().enumerate() {
            for p in &self.publics {
                if self.seen.insert((i, *p)) {
                    let k = shared(s, p);
                    if !self.keys.iter().any(|x| x.0 == k) {
                        let n = self.keys.len() + 1;
                        self.keys.push((k, n));
                    }
                }
            }
        }
    }

    fn try_all(&self, b: &[u8]) -> Option<(Vec<u8>, usize)> {
        // latest keys first: sessions come after handshakes
        self.keys.iter().rev().find_map(|(k, n)| open(k, b).map(|p| (p, *n)))
    }

    /// (form, plain bytes, key number)
    pub fn read(&mut self, b: &[u8]) -> (Form, Vec<u8>, usize) {
        if !self.on {
            return (Form::Plain, b.to_vec(), 0);
        }
        if self.use_cache {
            if let Some(x) = self.cache.get(b) {
                return x.clone();
            }
        }
        let r = self.read_uncached(b);
        if self.use_cache {
            self.cache.insert(b.to_vec(), r.clone());
        }
        r
    }

    fn read_uncached(&self, b: &[u8]) -> (Form, Vec<u8>, usize) {
        if let Some((p, k)) = self.try_all(b) {
            if let Some(p) = unpad(&p) {
                return (Form::Whole, p, k);
            }
        }
        if b.len() > 4 && b[0] == 0 && b[1] == 3 {
            if let Some((p, k)) = self.try_all(&b[4..]) {
                let mut v = b[..4].to_vec();
                v.extend(p);
                return (Form::Body, v, k);
            }
        }
        if b.len() > 72 {
            let (rest, pk) = b.split_at(b.len() - 32);
            let pk: Key = pk.try_into().unwrap();
            for s in &self.secrets {
                let k = shared(s, &pk);
                if let Some(p) = open(&k, rest).and_then(|p| unpad(&p)) {
                    return (Form::Initial, p, 0);
                }
            }
        }
        if parse(b) != P::Bad {
            (Form::Plain, b.to_vec(), 0)
        } else {
            (Form::Unknown, b.to_vec(), 0)
        }
    }
}

impl Oracle {
    /// the session key a packet was sealed with
    pub fn key_of(&mut self, b: &[u8]) -> Option<Key> {
        let n = self.read(b).2;
        self.keys.iter().find(|k| n > 0 && k.1 == n).map(|k| k.0)
    }
}
