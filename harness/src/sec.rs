//! Keys, levels and proofs: a scripted client against the real server, a scripted server against the
//! real client.  Cases come from the specification (SecGen).
use ed25519_dalek::{Signer, SigningKey};

use crate::rng::Rnd;
use crate::scripted::*;
use crate::sim::*;
use crate::transfer::*;
use crate::wire::{self, Key, P};

struct Quiet;
impl Net for Quiet {
    fn route(&mut self, p: &Pkt) -> Route {
        vec![(500_000, p.bytes.clone())]
    }
}

pub fn stranger_signing() -> SigningKey {
    SigningKey::from_bytes(&[0x3C; 32])
}

const SESSION: Key = [0x5A; 32];
const HANDSHAKE: Key = [0x6B; 32];
const OTHER: Key = [0x7C; 32];
/// a key nobody has: packets for it stay unread
const NOBODY: Key = [0x19; 32];

pub fn signing(id: i64) -> Option<SigningKey> {
    match id {
        1 => Some(server_signing()),
        2 => Some(client_signing()),
        3 => Some(stranger_signing()),
        _ => None,
    }
}

const GARBAGE: [&str; 4] = ["!!!!", "AAAA", "", "not base64 at all, but long enough for a key!!"];

/// The encryption options of a packet.
fn options(enc: i64, pk: i64, ak: i64, sg: i64, session: &Key, r: &mut Rnd) -> Vec<(String, String)> {
    let mut o: Vec<(String, String)> = vec![];
    match enc {
        -9 => {}
        -1 => o.push(("enclevel".into(), r.pick(&["strong", "", "DATA ", "6", "fulll"]).to_string())),
        n => o.push(("enclevel".into(), LEVELS[n as usize].into())),
    }
    let public = wire::pubkey(session);
    match pk {
        0 => {}
        1 => o.push(("spubk".into(), wire::b64(&public))),
        _ => o.push(("spubk".into(), r.pick(&GARBAGE).to_string())),
    }
    match ak {
        0 => {}
        4 => o.push(("apubk".into(), r.pick(&GARBAGE).to_string())),
        n => o.push(("apubk".into(), wire::b64(signing(n).unwrap().verifying_key().as_bytes()))),
    }
    let own = signing(ak).unwrap_or_else(client_signing);
    let sig = match sg {
        0 => None,
        1 => Some(own.sign(&public).to_bytes()),
        // by a key the peer has: the stranger's, or its own long-term key
        2 => Some((if ak == 3 { client_signing() } else { stranger_signing() }).sign(&public).to_bytes()),
        3 => Some(own.sign(&wire::pubkey(&OTHER)).to_bytes()),
        _ => None,
    };
    match (sg, sig) {
        (4, _) => o.push(("sig".into(), r.pick(&GARBAGE).to_string())),
        (_, Some(s)) => o.push(("sig".into(), wire::b64(&s))),
        _ => {}
    }
    for i in (1..o.len()).rev() {
        o.swap(i, r.below(i as u64 + 1) as usize);
    }
    o
}

fn option<'a>(o: &'a [(String, String)], k: &str) -> Option<&'a str> {
    o.iter().find(|x| x.0.eq_ignore_ascii_case(k)).map(|x| x.1.as_str())
}

fn sess_for(enc: Option<&str>, key: Key, bs: usize) -> (Sess, usize) {
    let (level, over) = match enc {
        Some("data") => ("data", 40),
        Some("protocol") => ("protocol", 41),
        Some("full") => ("full", 41),
        _ => ("none", 0),
    };
    let n = bs - over;
    (Sess { level: level.into(), key, pad: n + 4, nonces: 0 }, n)
}

pub fn case(suite: &str, line: &str, seed: u64, i: u64) -> Run {
    let w: Vec<String> = line.replace('"', "").split_whitespace().map(String::from).collect();
    let r = Rnd(seed.wrapping_mul(707_071).wrapping_add(i));
    let mut c = TCfg::default();
    c.id = format!("{suite}-{seed}-{i}");
    c.seed = seed.wrapping_mul(1_000_003).wrapping_add(i);
    c.fair = false;
    c.forms = true;
    c.upload = w[1] == "w";
    if w[0] == "S" {
        server_case(c, &w, r)
    } else {
        client_case(c, &w, r)
    }
}

fn oracle(c: &TCfg) -> crate::wire::Oracle {
    let mut c = c.clone();
    c.level = "data";
    c.s_key = true;
    let mut o = oracle_for(&c);
    for s in [SESSION, HANDSHAKE, OTHER] {
        o.add_secret(s);
    }
    // a key that is too short counts as one that ends in zeros
    o.add_public([0; 32]);
    o
}

fn server_case(mut c: TCfg, w: &[String], mut r: Rnd) -> Run {
    let n = |k: usize| w[k].parse::<i64>().unwrap();
    let (skey, auth, full, etao) = (n(2) == 1, n(3) == 1, n(4) == 1, n(5) == 1);
    let (form, enc, pk, ak, sg) = (w[6].as_str(), n(7), n(8), n(9), n(10));
    c.s_key = skey;
    c.size = *r.pick(&[0, 1, 300, 700, 1200]);
    c.port_change = r.chance(30);
    let (mut sim, sstore, _, src) = setup(&c);
    sim.net = Box::new(Quiet);
    let start = now();
    let mut config = server_config(&c);
    if auth {
        config.authorized_keys = Some([client_signing().verifying_key()].into_iter().collect());
    }
    config.require_full_encryption = full;
    config.error_to_authorized_only = etao;
    spawn_server(&mut sim, config, sstore);
    let mut a = Actor::new(&mut sim, caddr(1), 2, 0);
    let mut opts = options(enc, pk, ak, sg, &SESSION, &mut r);
    if r.chance(30) {
        opts.push(("windowsize".into(), "4".into()));
    }
    let win = if option(&opts, "windowsize").is_some() { 4 } else { 1 };
    let (file, mode) = ("remote".to_string(), "octet".to_string());
    let p = if c.upload { P::Wrq { file, mode, opts } } else { P::Rrq { file, mode, opts } };
    let plain = wire::build(&p);
    let hand = wire::shared(&HANDSHAKE, &wire::mont_public(&server_signing().verifying_key()));
    let bytes = match form {
        "plain" => plain,
        f => {
            let key = if f == "initial" { hand } else { wire::shared(&HANDSHAKE, &wire::pubkey(&NOBODY)) };
            let mut v = wire::seal(&key, &wire::pad(&plain, 400), &[0x42; 24]);
            v.extend_from_slice(&wire::pubkey(&HANDSHAKE));
            v
        }
    };
    a.send(&mut sim, saddr(), bytes);
    let mut ok = false;
    if let Some((peer, b)) = a.recv(&mut sim, 1_500 * MS) {
        let opened = wire::open(&hand, &b).and_then(|x| wire::unpad(&x));
        let first = wire::parse(opened.as_ref().unwrap_or(&b));
        let (mut sess, mut bs, mut w_) = (Sess::plain(), 512, 1);
        if let P::Oack { opts } = &first {
            let key = option(opts, "spubk")
                .and_then(wire::unb64)
                .and_then(|k| <Key>::try_from(k).ok())
                .map(|k| wire::shared(&SESSION, &k))
                .unwrap_or_default();
            (sess, bs) = sess_for(option(opts, "enclevel"), key, 512);
            if option(opts, "windowsize").is_some() {
                w_ = win;
            }
        }
        // somebody else speaks first: a block in the clear, from the client's address
        if c.upload && sess.level != "none" && r.chance(40) {
            let evil = P::Data { blk: 1, payload: vec![b'E'; *r.pick(&[bs, 512, 10])] };
            a.send(&mut sim, peer, wire::build(&evil));
        }
        let mut run = Run2::new(bs, w_, sess);
        match (&first, c.upload) {
            (P::Oack { .. }, true) | (P::Ack { blk: 0 }, true) => ok = send(&mut sim, &mut a, peer, &mut run, &src),
            (P::Oack { .. }, false) => ok = receive(&mut sim, &mut a, peer, &mut run, None),
            (P::Data { .. }, false) => ok = receive(&mut sim, &mut a, peer, &mut run, Some(b.clone())),
            _ => {}
        }
    }
    a.done(ok, if ok { c.size as u64 } else { 0 });
    sim.run_for(20 * MS);
    let steps = sim.steps;
    let ev = sim.finish();
    let extra = vec![
        ("role", "\"S\"".to_string()),
        ("skey", (skey as u8).to_string()),
        ("auth", (auth as u8).to_string()),
        ("full", (full as u8).to_string()),
        ("etao", (etao as u8).to_string()),
        ("fit", "1".to_string()),
    ];
    Run { oracle: oracle(&c), cfg: c, src, ev, steps, start, ended: true, extra }
}

fn client_case(mut c: TCfg, w: &[String], mut r: Rnd) -> Run {
    let n = |k: usize| w[k].parse::<i64>().unwrap();
    let (lv, ckey, pin) = (n(2), n(3) == 1, n(4) == 1);
    let (kind, dress, enc, pk, ak, sg) = (w[5].as_str(), w[6].as_str(), n(7), n(8), n(9), n(10));
    let clear = w[11] == "clear";
    c.level = LEVELS[lv as usize];
    c.c_key = ckey;
    c.pin = pin;
    c.size = *r.pick(&[1, 300, 700, 1200]);
    c.c_timeout_ms = 3_000;
    let (mut sim, _, cstore, src) = setup(&c);
    sim.net = Box::new(Quiet);
    let start = now();
    sim.set_next_node(2);
    let mut a = Actor::new(&mut sim, saddr(), 1, 1);
    let client = spawn_client(&mut sim, caddr(1), client_config(&c), conn_options(&c), c.upload, "local", "remote", cstore);
    let mut serve = || -> Option<()> {
        let (peer, b) = a.recv(&mut sim, 2_000 * MS)?;
        let mut hand = None;
        let mut plain = b.clone();
        if b.len() > 72 {
            let (rest, k) = b.split_at(b.len() - 32);
            let key = wire::shared(&wire::mont_secret(&server_signing()), &<Key>::try_from(k).unwrap());
            if let Some(x) = wire::open(&key, rest).and_then(|x| wire::unpad(&x)) {
                plain = x;
                hand = Some(key);
            }
        }
        let (P::Rrq { opts, .. } | P::Wrq { opts, .. }) = wire::parse(&plain) else { return None };
        record(Ev::ConnNew { t: now(), conn: 1, peer, local: saddr() });
        let key = option(&opts, "spubk")
            .and_then(wire::unb64)
            .and_then(|k| <Key>::try_from(k).ok())
            .map(|k| wire::shared(&SESSION, &k))
            .unwrap_or_default();
        let whole = |b: Vec<u8>| match (&hand, dress) {
            (Some(k), "whole") => wire::seal(k, &wire::pad(&b, 300), &[0x24; 24]),
            _ => b,
        };
        if kind == "err" {
            let p = wire::build(&P::Err { code: *r.pick(&[0, 4, 8]), msg: "no".into() });
            a.send(&mut sim, peer, whole(p));
            // a client that asks again, without options, is served in the clear
            let (_, b) = a.recv(&mut sim, 2_000 * MS)?;
            let (P::Rrq { .. } | P::Wrq { .. }) = wire::parse(&b) else { return None };
        }
        let mut sess = Sess::plain();
        let mut bs = 512;
        if kind == "oack" {
            let o = options(enc, pk, ak, sg, &SESSION, &mut r);
            if !clear {
                (sess, bs) = sess_for(option(&o, "enclevel"), key, 512);
            }
            let o = if o.is_empty() { vec![("x-nothing".to_string(), "1".to_string())] } else { o };
            a.send(&mut sim, peer, whole(wire::build(&P::Oack { opts: o })));
        }
        let mut run = Run2::new(bs, 1, sess);
        run.patience = 1_000 * MS;
        if c.upload {
            if kind != "oack" {
                a.send(&mut sim, peer, whole(wire::build(&P::Ack { blk: 0 })));
            }
            receive(&mut sim, &mut a, peer, &mut run, None);
        } else {
            if kind != "oack" && dress == "whole" {
                let p = wire::build(&P::Data { blk: 1, payload: src[..src.len().min(512)].to_vec() });
                a.send(&mut sim, peer, whole(p));
            }
            if kind == "oack" {
                // the acknowledgement of the options, or an error
                a.recv(&mut sim, 500 * MS);
            }
            send(&mut sim, &mut a, peer, &mut run, &src);
        }
        Some(())
    };
    let _ = serve();
    let ended = sim.run_until(&[client], 20_000 * MS, 1_000_000);
    sim.run_for(5 * MS);
    let steps = sim.steps;
    let ev = sim.finish();
    let extra = vec![
        ("role", "\"C\"".to_string()),
        ("level", lv.to_string()),
        ("ckey", (ckey as u8).to_string()),
        ("pin", (pin as u8).to_string()),
    ];
    Run { oracle: oracle(&c), cfg: c, src, ev, steps, start, ended, extra }
}
