//! Files encrypted at rest: stored by a transfer, changed as a stimulus of the specification (RestGen)
//! says, and fetched again.
use std::collections::HashSet;

use chacha20poly1305::aead::{Aead, KeyInit};
use chacha20poly1305::{XChaCha20Poly1305, XNonce};
use tftp_dus::client::{receive_file, send_file};
use tftp_dus::encryption::StreamEncryptor;
use tftp_dus::readers::encrypted_stream_reader::StreamReader;
use tftp_dus::std_compat::io;
use tftp_dus::types::FilePath;
use tftp_dus::writers::encrypted_stream_writer::StreamWriter;

use crate::rng::{DetRng, Rnd};
use crate::sim::*;
use crate::store::{content, Store};
use crate::suites::{payload_size, plan};
use crate::transfer::*;

pub const HEADER: usize = 21;
pub const TAG: usize = 16;

pub type Key = [u8; 32];

fn chunk_nonce(nonce: &[u8], ctr: u32, last: bool) -> XNonce {
    let mut v = nonce.to_vec();
    v.extend(ctr.to_be_bytes());
    v.push(last as u8);
    *XNonce::from_slice(&v)
}

pub fn open(key: &Key, nonce: &[u8], ctr: usize, last: bool, data: &[u8]) -> Option<Vec<u8>> {
    XChaCha20Poly1305::new(key.into()).decrypt(&chunk_nonce(nonce, ctr as u32, last), data).ok()
}

/// what is stored of a file, block by block
pub fn encode(key: &Key, nonce: &[u8; 19], b: usize, plain: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut at = 0;
    loop {
        let k = out.len();
        let cap = b - TAG - if k == 0 { HEADER } else { 0 };
        let n = cap.min(plain.len() - at);
        let mut v = vec![];
        if k == 0 {
            v.extend((b as u16).to_be_bytes());
            v.extend(nonce);
        }
        let c = XChaCha20Poly1305::new(key.into()).encrypt(&chunk_nonce(nonce, k as u32, n < cap), &plain[at..at + n]).unwrap();
        v.extend(c);
        out.push(v);
        at += n;
        if n < cap {
            return out;
        }
    }
}

/// the blocks a transfer cuts a file into
pub fn split(data: &[u8], b: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = data.chunks(b).map(|x| x.to_vec()).collect();
    if data.len() % b == 0 {
        v.push(vec![]);
    }
    v
}

pub struct Plan {
    pub b: usize,
    pub size: usize,
    pub edit: String,
    pub at: String,
    pub win: u16,
}

pub fn read_plan(line: &str, b: usize) -> Plan {
    let w: Vec<&str> = line.split_whitespace().map(|x| x.trim_matches('"')).collect();
    let cap = b.saturating_sub(TAG);
    let c0 = cap.saturating_sub(HEADER);
    let size = match w[0] {
        "0" => 0,
        "1" => 1,
        "c0-" => c0.saturating_sub(1),
        "c0" => c0,
        "c0+" => c0 + 1,
        "c1-" => (c0 + cap).saturating_sub(1),
        "c1" => c0 + cap,
        "c1+" => c0 + cap + 1,
        "c3" => c0 + 3 * cap,
        _ => c0 + 3 * cap + 1 + (cap / 2),
    };
    Plan { b, size, edit: w[1].into(), at: w[2].into(), win: w[3].parse().unwrap() }
}

/// what somebody makes of the stored bytes; whether another key is used; the block size of the download
pub fn change(p: &Plan, stored: &[u8], other: &[Vec<u8>], r: &mut Rnd) -> Vec<u8> {
    let mut v: Vec<Vec<u8>> = stored.chunks(p.b).map(|x| x.to_vec()).collect();
    let n = v.len();
    let i = match p.at.as_str() {
        "f" => 0,
        "s" => 1.min(n - 1),
        "m" => n / 2,
        _ => n - 1,
    };
    let body = if i == 0 { HEADER } else { 0 };
    match p.edit.as_str() {
        "drop" => {
            v.remove(i);
        }
        "swap" => v.swap(i, (i + 1) % n),
        "swapl" => v.swap(i, n - 1),
        "rep" => {
            let c = v[i].clone();
            v.insert(i, c);
        }
        "alt0" => v[i][body] ^= 1 << r.below(8),
        "altm" => {
            let k = v[i].len();
            v[i][(body + k) / 2] ^= 1 << r.below(8);
        }
        "altt" => *v[i].last_mut().unwrap() ^= 1 << r.below(8),
        "cutm" => {
            let k = 1 + r.below(v[i].len() as u64 - 1) as usize;
            v[i].truncate(k);
            v.truncate(i + 1);
        }
        "cuta" => v.truncate(i),
        "del" => {
            let k = r.below(v[i].len() as u64) as usize;
            v[i].remove(k);
        }
        "ins" => {
            let k = r.below(v[i].len() as u64) as usize;
            v[i].insert(k, r.next() as u8);
        }
        "spl" => {
            let o = &other[i.min(other.len() - 1)];
            let tail = if i == 0 { o[HEADER..].to_vec() } else { o.clone() };
            v[i].truncate(body);
            v[i].extend(tail);
        }
        "add1" => v.push(vec![r.next() as u8]),
        "addb" => v.push((0..p.b).map(|_| r.next() as u8).collect()),
        "addl" => {
            let c = v[n - 1].clone();
            v.push(c);
        }
        "oth" => v = other.to_vec(),
        "nonce" => v[0][2 + r.below(19) as usize] ^= 1 << r.below(8),
        "bs1" => {
            let x = (p.b as u16).wrapping_add(if r.chance(50) { 1 } else { u16::MAX });
            v[0][..2].copy_from_slice(&x.to_be_bytes());
        }
        "bs2" => {
            let x = *r.pick(&[0u16, 1, 21, 36, 37, 38, 1426, 65535]);
            v[0][..2].copy_from_slice(&x.to_be_bytes());
        }
        "bs3" => {
            // as many bytes as are left, and around
            let x = (stored.len() as u64 + r.below(3)).saturating_sub(1).min(65535) as u16;
            v[0][..2].copy_from_slice(&x.to_be_bytes());
        }
        "pre" => v.insert(0, vec![r.next() as u8]),
        "emp" => v.clear(),
        _ => {}
    }
    v.concat()
}

pub fn windows(plain: &[u8]) -> HashSet<Vec<u8>> {
    plain.windows(8).map(|w| w.to_vec()).collect()
}

pub fn leaks(marks: &HashSet<Vec<u8>>, data: &[u8]) -> bool {
    data.windows(8).any(|w| marks.contains(w))
}

/// which stored streams there are: their blocks and their plain bytes
pub struct Stream {
    pub blocks: Vec<Vec<u8>>,
    pub nonce: Vec<u8>,
    pub plain: Vec<u8>,
}

impl Stream {
    pub fn new(blocks: Vec<Vec<u8>>, plain: Vec<u8>) -> Stream {
        let nonce = blocks.first().and_then(|b| b.get(2..HEADER)).unwrap_or_default().to_vec();
        Stream { blocks, nonce, plain }
    }
}

/// the stored stream, as the specification reads it
pub fn stored_events(key: &Key, stored: &[u8], b: usize, plain: &[u8], ev: &mut Vec<String>) {
    let mut at = 0;
    let nonce = stored.get(2..HEADER).unwrap_or_default().to_vec();
    for (k, p) in stored.chunks(b.max(1)).enumerate() {
        let last = p.len() < b;
        let body = if k == 0 { p.get(HEADER..) } else { Some(p) };
        let got = body.filter(|_| nonce.len() == 19).and_then(|x| open(key, &nonce, k, last, x));
        let head = k > 0 || p.get(..2) == Some(&(b as u16).to_be_bytes()[..]);
        let (g, h) = match got {
            Some(x) if head && plain.len() >= at + x.len() && plain[at..at + x.len()] == x[..] => (1, x.len()),
            _ => (0, 0),
        };
        at += h;
        ev.push(format!("{{\"e\":\"st\",\"l\":{},\"g\":{g},\"h\":{h}}}", p.len()));
    }
}

/// the stream whose header the bytes begin with (0: none), the block size it says, and the blocks that are fetched
pub fn fetched_events(edited: &[u8], b2: usize, streams: &[Stream], right_key: bool, ev: &mut Vec<String>) -> (usize, usize) {
    let nonce = edited.get(2..HEADER).unwrap_or_default();
    let h = if right_key { streams.iter().position(|s| s.nonce == nonce).map(|x| x + 1).unwrap_or(0) } else { 0 };
    let hb = edited.get(..2).map(|x| u16::from_be_bytes([x[0], x[1]]) as usize).unwrap_or(0);
    for (i, p) in split(edited, b2).iter().enumerate() {
        let body = if i == 0 { p.get(HEADER..).unwrap_or_default() } else { &p[..] };
        let mut found = (0, 0, false);
        for (s, x) in streams.iter().enumerate() {
            for (k, c) in x.blocks.iter().enumerate() {
                let c = if k == 0 { &c[HEADER.min(c.len())..] } else { &c[..] };
                if c == body {
                    found = (s + 1, k, k + 1 == x.blocks.len());
                }
            }
        }
        ev.push(format!(
            "{{\"e\":\"pc\",\"s\":{},\"k\":{},\"la\":{},\"f\":{}}}",
            found.0,
            found.1,
            found.2 as u8,
            (p.len() < b2) as u8
        ));
    }
    (h, hb)
}

fn client(sim: &mut Sim, c: &TCfg, store: Store, key: Key, nonce: [u8; 19]) -> NodeId {
    let (config, options, upload) = (client_config(c), conn_options(c), c.upload);
    let refused = |k| tftp_dus::std_compat::io::Error::from(k);
    sim.spawn(move || {
        let socket = open_socket(caddr(1), 1);
        let mut config = config;
        config.encryption_key = Some(key);
        let r = if upload {
            send_file(
                config,
                path("local"),
                path("remote"),
                options,
                |p: &FilePath| match store.open_read(p.as_str()) {
                    Some((_, x)) => Ok((None, StreamReader::new(StreamEncryptor::new(&key, &nonce), x, nonce))),
                    None => Err(refused(io::ErrorKind::NotFound).into()),
                },
                socket,
                instant,
                DetRng,
            )
        } else {
            receive_file(
                config,
                path("local"),
                path("remote"),
                options,
                |p: &FilePath| match store.open_write(p.as_str()) {
                    Some(x) => Ok(StreamWriter::new(x, key)),
                    None => Err(refused(io::ErrorKind::AlreadyExists).into()),
                },
                socket,
                instant,
                DetRng,
            )
        };
        let ev = match r {
            Ok((total, key)) => Ev::Done { t: now(), node: current_node(), ok: true, total: total as u64, key: key.map(|k| k.to_bytes()), err: String::new() },
            Err(e) => Ev::Done { t: now(), node: current_node(), ok: false, total: 0, key: None, err: e.to_string() },
        };
        record(ev);
    })
}

struct Half {
    ok: bool,
    writes: Vec<Vec<u8>>,
    ev: Vec<Ev>,
    start: u64,
}

fn half(c: &TCfg, remote: Option<&[u8]>, key: Key, nonce: [u8; 19]) -> Half {
    let (mut sim, sstore, cstore, _) = setup(c);
    if let Some(x) = remote {
        sstore.put("remote", x.to_vec());
    }
    let start = now();
    spawn_server(&mut sim, server_config(c), sstore);
    let n = client(&mut sim, c, cstore, key, nonce);
    sim.run_until_stuck(&[n], 60_000 * MS, 5_000_000);
    sim.run_for(20 * MS);
    let ev = sim.finish();
    let mut h = Half { ok: false, writes: vec![], ev: vec![], start };
    let target = if c.upload { 1 } else { 2 };
    for e in &ev {
        match e {
            Ev::Wr { node, bytes, .. } if *node == target => h.writes.push(bytes.to_vec()),
            Ev::Done { node: 2, ok, .. } => h.ok = *ok,
            _ => {}
        }
    }
    h.ev = ev;
    h
}

pub struct Case {
    pub json: String,
    pub ev: Vec<Ev>,
    pub start: u64,
    pub cfg: TCfg,
}

pub fn case(suite: &str, line: &str, seed: u64, i: u64) -> Case {
    let mut r = Rnd(seed.wrapping_mul(1_300_021).wrapping_add(i));
    let mut c = TCfg::default();
    c.id = format!("{suite}-{seed}-{i}");
    c.seed = seed.wrapping_mul(1_000_003).wrapping_add(i);
    c.upload = true;
    c.level = *r.pick(&["none", "none", "none", "data", "protocol"]);
    c.s_key = c.level != "none";
    // smaller ones are not negotiated
    c.c_block = *r.pick(&[512, 512, 512, 513, 600, 1000, 1384, 1424, 1425]);
    c.s_block = *r.pick(&[512, 1424, 1425, 1425]);
    c.port_change = r.chance(20);
    let b = payload_size(&c);
    let p = read_plan(line, b);
    c.c_win = p.win;
    c.size = p.size;
    if r.chance(30) {
        let pct = *r.pick(&[10, 25]);
        c.plan_c = plan(&mut r, pct, 20);
        // an upload whose last acknowledgement is lost may fail although all is stored
        if r.chance(50) {
            c.plan_s = plan(&mut r, pct, 20);
            c.fair = false;
        }
    }
    let mut key = [0u8; 32];
    let mut nonce = [0u8; 19];
    for x in key.iter_mut().chain(nonce.iter_mut()) {
        *x = r.next() as u8;
    }
    let plain = content(c.seed, c.size);
    let up = half(&c, None, key, nonce);
    let stored = up.writes.concat();
    let mut ev = vec![];
    stored_events(&key, &stored, b, &plain, &mut ev);
    let marks = windows(&plain);
    if leaks(&marks, &stored) || up.ev.iter().any(|e| matches!(e, Ev::Tx { bytes, .. } if leaks(&marks, bytes))) {
        ev.push("{\"e\":\"leak\"}".into());
    }
    if up.ev.iter().any(|e| matches!(e, Ev::Panic { .. })) {
        ev.push("{\"e\":\"panic\"}".into());
    }
    ev.push(format!("{{\"e\":\"up\",\"k\":{}}}", up.ok as u8));
    let (mut h, mut hb, mut b2, mut same, mut ns) = (0, 0, b, 0, [p.size, 0]);
    let (mut all_ev, mut start) = (up.ev, up.start);
    let mut cfg = c.clone();
    if up.ok && !stored.is_empty() {
        let mut nonce2 = nonce;
        nonce2[r.below(19) as usize] ^= 1;
        let size2 = if r.chance(50) { p.size } else { r.below(4 * b as u64) as usize };
        let plain2 = content(c.seed ^ 0x77, size2);
        let other = encode(&key, &nonce2, b, &plain2);
        let edited = change(&p, &stored, &other, &mut r);
        let mut c2 = c.clone();
        c2.upload = false;
        c2.seed ^= 0x5eed;
        c2.s_seek = r.chance(30);
        c2.c_win = *r.pick(&[1, 4]);
        c2.plan_c = vec![];
        c2.plan_s = vec![];
        if r.chance(30) {
            let pct = *r.pick(&[10, 25]);
            c2.plan_c = plan(&mut r, pct, 20);
            c2.plan_s = plan(&mut r, pct, 20);
        }
        match p.edit.as_str() {
            "blk-" => c2.c_block = (c.c_block.min(c.s_block) - 1 - r.below(20) as u16).max(512),
            "blk+" => {
                c2.c_block = (c.c_block + 1 + r.below(300) as u16).min(1425);
                c2.s_block = 1425;
            }
            _ => {}
        }
        b2 = payload_size(&c2);
        let mut key2 = key;
        if p.edit == "key" {
            key2[r.below(32) as usize] ^= 1 << r.below(8);
        }
        let streams = [Stream::new(split_stored(&stored, b), plain.clone()), Stream::new(other, plain2.clone())];
        (h, hb) = fetched_events(&edited, b2, &streams, key2 == key, &mut ev);
        ns[1] = size2;
        same = (edited == stored && b2 == b && key2 == key) as u8;
        let down = half(&c2, Some(&edited), key2, nonce);
        let want = if h == 0 { &[][..] } else { &streams[h - 1].plain[..] };
        let mut at = 0;
        for w in &down.writes {
            let m = (want.get(at..at + w.len()) == Some(&w[..])) as u8;
            at += w.len();
            ev.push(format!("{{\"e\":\"wr\",\"l\":{},\"m\":{m}}}", w.len()));
        }
        if down.ev.iter().any(|e| matches!(e, Ev::Panic { .. })) {
            ev.push("{\"e\":\"panic\"}".into());
        }
        ev.push(format!("{{\"e\":\"done\",\"k\":{}}}", down.ok as u8));
        all_ev.extend(down.ev);
        start = start.min(down.start);
        cfg = c2;
    }
    let json = format!(
        "{{\"id\":{},\"b\":{b},\"b2\":{b2},\"n\":{},\"ns\":[{},{}],\"h\":{h},\"hb\":{hb},\"same\":{same},\"fair\":{},\"edit\":{},\"ev\":[{}]}}",
        crate::json::esc(&c.id),
        p.size,
        ns[0],
        ns[1],
        c.fair as u8,
        crate::json::esc(&p.edit),
        ev.join(",")
    );
    Case { json, ev: all_ev, start, cfg }
}

/// stored bytes as the blocks they were sent in
pub fn split_stored(stored: &[u8], b: usize) -> Vec<Vec<u8>> {
    stored.chunks(b).map(|x| x.to_vec()).collect()
}

/// The same with the real program, against a scripted server.
pub mod program {
    use super::*;
    use crate::served::{command, own_ip, scratch, UID};
    use crate::wire::{self, P};
    use std::net::{SocketAddr, UdpSocket};
    use std::path::PathBuf;
    use std::process::Child;
    use std::time::{Duration, Instant};

    pub struct Peer {
        pub sock: UdpSocket,
        pub addr: SocketAddr,
    }

    impl Peer {
        pub fn new() -> Peer {
            let sock = UdpSocket::bind(format!("{}:0", own_ip())).unwrap();
            let addr = sock.local_addr().unwrap();
            Peer { sock, addr }
        }

        pub fn recv(&self, ms: u64) -> Option<(SocketAddr, Vec<u8>)> {
            self.sock.set_read_timeout(Some(Duration::from_millis(ms.max(1)))).unwrap();
            let mut b = vec![0; 2000];
            let (n, a) = self.sock.recv_from(&mut b).ok()?;
            b.truncate(n);
            Some((a, b))
        }

        pub fn send(&self, to: SocketAddr, p: &P) {
            let _ = self.sock.send_to(&wire::build(p), to);
        }
    }

    /// block size and window that were asked for and are granted
    pub fn grant(opts: &[(String, String)]) -> (usize, usize, Vec<(String, String)>) {
        let keep: Vec<(String, String)> = opts.iter().filter(|o| o.0 == "blksize" || o.0 == "windowsize").cloned().collect();
        let get = |n: &str, d: usize| keep.iter().find(|o| o.0 == n).and_then(|o| o.1.parse().ok()).unwrap_or(d);
        (get("blksize", 512), get("windowsize", 1), keep)
    }

    pub struct Taken {
        pub bytes: Vec<u8>,
        pub b: usize,
        pub all: bool,
        pub seen: Vec<Vec<u8>>,
    }

    pub fn exited(c: &mut Child) -> Option<bool> {
        c.try_wait().ok().flatten().map(|s| s.success())
    }

    /// takes an upload; loses percent of the blocks once
    pub fn take(p: &Peer, c: &mut Child, loss: u64, r: &mut Rnd, mut each: impl FnMut(usize)) -> Taken {
        let mut t = Taken { bytes: vec![], b: 512, all: false, seen: vec![] };
        let end = Instant::now() + Duration::from_secs(12);
        let mut from = None;
        let (mut win, mut next, mut since) = (1, 1u16, 0);
        let mut lost = HashSet::new();
        while Instant::now() < end {
            let Some((a, b)) = p.recv(20) else {
                each(t.bytes.len());
                if exited(c).is_some() {
                    break;
                }
                continue;
            };
            t.seen.push(b.clone());
            match wire::parse(&b) {
                P::Wrq { opts, .. } if next == 1 => {
                    let (bs, w, keep) = grant(&opts);
                    t.b = bs;
                    win = w;
                    from = Some(a);
                    p.send(a, &if keep.is_empty() { P::Ack { blk: 0 } } else { P::Oack { opts: keep } });
                }
                P::Data { blk, payload } if Some(a) == from => {
                    if blk != next {
                        if blk == next.wrapping_sub(1) || since > 0 {
                            p.send(a, &P::Ack { blk: next.wrapping_sub(1) });
                            since = 0;
                        }
                    } else if !(r.chance(loss) && lost.insert(blk)) {
                        t.bytes.extend(&payload);
                        next = next.wrapping_add(1);
                        since += 1;
                        t.all = payload.len() < t.b;
                        if since >= win || t.all {
                            p.send(a, &P::Ack { blk });
                            since = 0;
                        }
                        if t.all {
                            break;
                        }
                    }
                    each(t.bytes.len());
                }
                P::Err { .. } => break,
                _ => {}
            }
        }
        t
    }

    /// sends a file to a download; true: all of it was acknowledged
    pub fn give(p: &Peer, c: &mut Child, data: &[u8], r: &mut Rnd) -> (usize, bool) {
        let end = Instant::now() + Duration::from_secs(12);
        let (mut b, mut win, mut from, mut ack) = (512, 1usize, None, 0usize);
        let mut blocks = vec![];
        let mut sent = 0;
        while Instant::now() < end {
            let got = p.recv(120);
            match got.as_ref().map(|(a, x)| (*a, wire::parse(x))) {
                Some((a, P::Rrq { opts, .. })) if from.is_none() => {
                    let (bs, w, keep) = grant(&opts);
                    b = bs;
                    win = w;
                    from = Some(a);
                    blocks = split(data, b);
                    if !keep.is_empty() {
                        p.send(a, &P::Oack { opts: keep });
                        continue;
                    }
                }
                Some((_, P::Ack { blk })) => {
                    let k = (blk as usize).min(blocks.len());
                    if k < ack || (k == ack && k > 0 && sent > ack) {
                        continue;
                    }
                    ack = k;
                    sent = ack;
                }
                Some((_, P::Err { .. })) => return (b, false),
                Some(_) => continue,
                None => {
                    if exited(c).is_some() {
                        return (b, ack == blocks.len() && from.is_some());
                    }
                    sent = ack;
                }
            }
            if ack == blocks.len() && from.is_some() {
                return (b, true);
            }
            if let Some(a) = from {
                for k in sent..(ack + win).min(blocks.len()) {
                    if !r.chance(3) {
                        p.send(a, &P::Data { blk: (k + 1) as u16, payload: blocks[k].clone() });
                    }
                }
                sent = (ack + win).min(blocks.len());
            }
        }
        (b, false)
    }

    pub fn wait(c: &mut Child, ms: u64) -> bool {
        let end = Instant::now() + Duration::from_millis(ms);
        while Instant::now() < end {
            if let Some(x) = exited(c) {
                return x;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        let _ = c.kill();
        let _ = c.wait();
        false
    }

    pub fn put(path: &PathBuf, data: &[u8]) {
        std::fs::write(path, data).unwrap();
        std::os::unix::fs::lchown(path, Some(UID), Some(UID)).unwrap();
    }

    pub struct World {
        base: PathBuf,
        nonces: HashSet<Vec<u8>>,
    }

    fn base64(k: &[u8]) -> String {
        use base64::engine::{Engine, general_purpose::STANDARD};
        STANDARD.encode(k)
    }

    impl World {
        pub fn new() -> Self {
            World { base: scratch(), nonces: HashSet::new() }
        }

        pub fn case(&mut self, suite: &str, line: &str, seed: u64, i: u64) -> String {
            let mut r = Rnd(seed.wrapping_mul(1_900_009).wrapping_add(i));
            let b = *r.pick(&[512, 512, 600, 1024, 1425]);
            let p = read_plan(line, b);
            let plain = content(seed.wrapping_mul(31).wrapping_add(i), p.size);
            let dir = self.base.join("r");
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(&dir).unwrap();
            std::os::unix::fs::lchown(&dir, Some(UID), Some(UID)).unwrap();
            put(&dir.join("local"), &plain);
            let mut key = [0u8; 32];
            for x in key.iter_mut() {
                *x = r.next() as u8;
            }
            let key_arg = |k: &Key, name: &str, file: bool| {
                let t = base64(k);
                if file {
                    put(&dir.join(name), format!("{t}\n").as_bytes());
                    format!("r/{name}")
                } else {
                    t
                }
            };
            let peer = Peer::new();
            let common = |c: &mut std::process::Command, win: u16, b: usize, key: String| {
                c.args(["--encryption-level", "none", "--request-timeout", "4000", "--retry-timeout", "80"]);
                c.args(["--window-size", &win.to_string(), "--block-size", &b.to_string(), "--encryption-key", &key]);
            };
            let mut c = command(&self.base);
            c.args(["send", &peer.addr.to_string(), "r/local", "--remote-path", "stored"]);
            common(&mut c, p.win, b, key_arg(&key, "k.1", r.chance(30)));
            if r.chance(40) {
                c.arg("--prefer-seek");
            }
            let mut child = c.spawn().expect("client");
            let loss = *r.pick(&[0, 0, 10, 30]);
            let t = take(&peer, &mut child, loss, &mut r, |_| ());
            let ok = wait(&mut child, 5000);
            let stored = t.bytes.clone();
            let mut ev = vec![];
            stored_events(&key, &stored, b, &plain, &mut ev);
            let marks = windows(&plain);
            if t.seen.iter().any(|x| leaks(&marks, x)) {
                ev.push("{\"e\":\"leak\"}".into());
            }
            // the nonce of a stream is never used again
            let nonce = stored.get(2..HEADER).unwrap_or_default().to_vec();
            if !nonce.is_empty() && !self.nonces.insert(nonce.clone()) {
                ev.push("{\"e\":\"again\"}".into());
            }
            ev.push(format!("{{\"e\":\"up\",\"k\":{}}}", ok as u8));
            let (mut h, mut hb, mut b2, mut same, mut ns) = (0, 0, b, 0, [p.size, 0]);
            if ok && nonce.len() == 19 {
                let mut nonce2 = [0; 19];
                nonce2.copy_from_slice(&nonce);
                nonce2[r.below(19) as usize] ^= 1;
                let size2 = if r.chance(50) { p.size } else { r.below(4 * b as u64) as usize };
                let plain2 = content(seed ^ 0x77 ^ i, size2);
                let other = encode(&key, &nonce2, b, &plain2);
                let edited = change(&p, &stored, &other, &mut r);
                match p.edit.as_str() {
                    "blk-" => b2 = (b - 1 - r.below(20) as usize).max(512),
                    "blk+" => b2 = (b + 1 + r.below(300) as usize).min(1425),
                    _ => {}
                }
                let mut key2 = key;
                if p.edit == "key" {
                    key2[r.below(32) as usize] ^= 1 << r.below(8);
                }
                let streams = [Stream::new(split_stored(&stored, b), plain.clone()), Stream::new(other, plain2.clone())];
                (h, hb) = fetched_events(&edited, b2, &streams, key2 == key, &mut ev);
                ns[1] = size2;
                same = (edited == stored && b2 == b && key2 == key) as u8;
                let peer = Peer::new();
                let mut c = command(&self.base);
                c.args(["receive", &peer.addr.to_string(), "stored", "--local-path", "r/out"]);
                common(&mut c, *r.pick(&[1, 4]), b2, key_arg(&key2, "k.2", r.chance(30)));
                let mut child = c.spawn().expect("client");
                give(&peer, &mut child, &edited, &mut r);
                let ok = wait(&mut child, 6000);
                let out = std::fs::read(dir.join("out")).unwrap_or_default();
                let want = if h == 0 { &[][..] } else { &streams[h - 1].plain[..] };
                if !out.is_empty() {
                    ev.push(format!("{{\"e\":\"wr\",\"l\":{},\"m\":{}}}", out.len(), (want.get(..out.len()) == Some(&out[..])) as u8));
                }
                ev.push(format!("{{\"e\":\"done\",\"k\":{}}}", ok as u8));
            }
            format!(
                "{{\"id\":\"{suite}-{seed}-{i}\",\"b\":{b},\"b2\":{b2},\"n\":{},\"ns\":[{},{}],\"h\":{h},\"hb\":{hb},\"same\":{same},\"fair\":1,\"edit\":{},\"ev\":[{}]}}",
                p.size,
                ns[0],
                ns[1],
                crate::json::esc(&p.edit),
                ev.join(",")
            )
        }
    }
}
