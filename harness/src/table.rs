//! Several scripted peers and strangers against the real server with few places, following a
//! sequence of actions from the specification (TableGen).
use std::collections::{BTreeMap, HashMap};
use std::net::SocketAddr;

use crate::rng::{self, Rnd};
use crate::scripted::*;
use crate::sim::*;
use crate::store::*;
use crate::transfer::*;
use crate::wire::{self, Oracle, P};

struct Quiet;
impl Net for Quiet {
    fn route(&mut self, p: &Pkt) -> Route {
        vec![(500_000, p.bytes.clone())]
    }
}

const PEERS: usize = 4;

/// 1 and 2 share the host, 2 and 3 the port, 4 comes at the end
fn addr(p: usize) -> SocketAddr {
    match p {
        1 => "10.0.1.1:10001",
        2 => "10.0.1.1:10002",
        3 => "10.0.1.3:10002",
        _ => "10.0.1.4:10004",
    }
    .parse()
    .unwrap()
}

/// strangers: the host of a peer with another port, another host with the port of a peer, the server's host
fn strange(p: usize, k: u64) -> SocketAddr {
    let a = addr(p);
    match k % 3 {
        0 => SocketAddr::new(a.ip(), 10099),
        1 => SocketAddr::new("10.0.9.9".parse().unwrap(), a.port()),
        _ => SocketAddr::new(saddr().ip(), a.port()),
    }
}

struct Xfer {
    up: bool,
    file: String,
    to: SocketAddr,
    bs: usize,
    win: usize,
    /// blocks received in order (download), acknowledged (upload)
    has: u64,
    acked: u64,
    n: u64,
    over: bool,
}

struct Pe {
    a: Actor,
    request: Vec<u8>,
    x: Option<Xfer>,
    count: u32,
}

struct Play {
    sim: Sim,
    store: Store,
    pe: Vec<Pe>,
    files: HashMap<String, Vec<u8>>,
    r: Rnd,
    rt: u64,
    port_change: bool,
}

fn drain(sim: &mut Sim, p: &mut Pe, files: &HashMap<String, Vec<u8>>, ns: u64) {
    sim.run_for(ns);
    while p.a.pending() {
        let Some((from, b)) = p.a.recv(sim, 0) else { break };
        let m = wire::parse(&b);
        let Some(x) = &mut p.x else { continue };
        let started = x.to.port() != 0;
        if !started {
            match &m {
                P::Oack { opts } => {
                    for (k, v) in opts {
                        match k.to_ascii_lowercase().as_str() {
                            "blksize" => x.bs = v.parse().unwrap_or(512),
                            "windowsize" => x.win = v.parse().unwrap_or(1),
                            _ => {}
                        }
                    }
                    x.to = from;
                }
                P::Data { .. } | P::Ack { .. } => {
                    x.bs = 512;
                    x.win = 1;
                    x.to = from;
                }
                _ => {
                    p.x = None;
                    continue;
                }
            }
            let n = files.get(&x.file).map(|f| f.len()).unwrap_or(0);
            x.n = (n / x.bs + 1) as u64;
        }
        if from != x.to {
            continue;
        }
        match m {
            P::Data { blk, payload } if !x.up => {
                if blk as u64 == x.has + 1 {
                    x.has += 1;
                    let _ = payload;
                }
            }
            P::Ack { blk } if x.up => {
                if (blk as u64) > x.acked {
                    x.acked = blk as u64;
                }
            }
            P::Err { .. } => p.x = None,
            _ => {}
        }
    }
}

impl Play {
    fn quick(&mut self) {
        for p in 1..=PEERS {
            let mut pe = std::mem::replace(&mut self.pe[p], dummy());
            drain(&mut self.sim, &mut pe, &self.files, if p == 1 { 4 * MS } else { 0 });
            self.pe[p] = pe;
        }
    }

    fn act(&mut self, a: &str) {
        let (k, p) = (a.as_bytes()[0], a[1..].parse::<usize>().unwrap_or(0));
        match k {
            b'W' => self.sim.run_for(self.rt / 2 - 30 * MS),
            b'L' => self.sim.run_for(self.rt + 3_200 * MS),
            b'R' => self.request(p),
            b'P' => self.progress(p),
            b'F' => {
                for _ in 0..60 {
                    if self.pe[p].x.as_ref().map(|x| x.over).unwrap_or(true) {
                        break;
                    }
                    self.progress(p);
                }
            }
            b'E' => {
                if let Some(x) = self.pe[p].x.take() {
                    let b = wire::build(&P::Err { code: *self.r.pick(&[0, 3, 8]), msg: "enough".into() });
                    self.pe[p].a.send(&mut self.sim, x.to, b);
                }
            }
            b'D' => self.dull(p),
            b'S' => self.strangers(p),
            _ => {}
        }
        self.quick();
    }

    fn request(&mut self, p: usize) {
        if self.pe[p].x.as_ref().map(|x| x.over).unwrap_or(true) {
            let up = self.r.chance(50);
            self.pe[p].count += 1;
            let file = format!("{}{}x{}", if up { "u" } else { "d" }, p, self.pe[p].count);
            let size = *self.r.pick(&[700, 1500, 2048, 2500, 3100, 5000]);
            let data = content(self.r.next(), size);
            if !up {
                self.store.put(&file, data.clone());
            }
            self.files.insert(file.clone(), data);
            let mut opts: Vec<(String, String)> = vec![];
            if self.r.chance(60) {
                opts.push(("windowsize".into(), self.r.pick(&["1", "2", "4"]).to_string()));
            }
            if self.r.chance(40) {
                opts.push(("blksize".into(), self.r.pick(&["512", "600", "1024"]).to_string()));
            }
            if self.r.chance(20) {
                opts.push(("tsize".into(), if up { size.to_string() } else { "0".into() }));
            }
            let mode = "octet".to_string();
            let m = if up { P::Wrq { file: file.clone(), mode, opts } } else { P::Rrq { file: file.clone(), mode, opts } };
            self.pe[p].request = wire::build(&m);
            self.pe[p].x = Some(Xfer { up, file, to: SocketAddr::new(saddr().ip(), 0), bs: 512, win: 1, has: 0, acked: 0, n: 0, over: false });
        }
        let b = self.pe[p].request.clone();
        self.pe[p].a.send(&mut self.sim, saddr(), b);
        self.quick();
        if let Some(x) = &self.pe[p].x {
            if x.to.port() == 0 {
                // nobody answered
                self.pe[p].x = None;
            }
        }
    }

    fn progress(&mut self, p: usize) {
        let Some(x) = &mut self.pe[p].x else { return };
        if x.over {
            return;
        }
        let to = x.to;
        let mut out = vec![];
        if x.up {
            let data = &self.files[&x.file];
            for k in x.acked + 1..=x.n.min(x.acked + x.win as u64) {
                let off = (k as usize - 1) * x.bs;
                out.push(wire::build(&P::Data { blk: k as u16, payload: data[off..data.len().min(off + x.bs)].to_vec() }));
            }
        } else {
            x.acked = x.has;
            out.push(wire::build(&P::Ack { blk: x.has as u16 }));
            x.over = x.has == x.n;
        }
        for b in out {
            self.pe[p].a.send(&mut self.sim, to, b);
        }
        self.quick();
        if let Some(x) = &mut self.pe[p].x {
            if x.up && x.acked == x.n {
                x.over = true;
            }
        }
    }

    /// packets that are no progress
    fn dull(&mut self, p: usize) {
        let Some(x) = &self.pe[p].x else { return };
        if x.over {
            return;
        }
        let to = x.to;
        let mut out = vec![];
        for _ in 0..1 + self.r.below(3) {
            let k = self.r.below(7);
            out.push(match k {
                0 => {
                    // the request once more, to the server's own port
                    let b = self.pe[p].request.clone();
                    self.pe[p].a.send(&mut self.sim, saddr(), b.clone());
                    b
                }
                1 => wire::build(&P::Oack { opts: vec![("blksize".into(), "512".into())] }),
                2 => vec![0, 9, 1, 2, 3],
                3 => vec![0],
                4 if x.up => wire::build(&P::Ack { blk: self.r.below(5) as u16 }),
                4 => wire::build(&P::Data { blk: 1 + self.r.below(3) as u16, payload: vec![b'D'; 512] }),
                _ if x.up && x.acked > 0 => {
                    let k = 1 + self.r.below(x.acked);
                    let off = (k as usize - 1) * x.bs;
                    wire::build(&P::Data { blk: k as u16, payload: self.files[&x.file][off..off + x.bs].to_vec() })
                }
                _ if x.up => wire::build(&P::Data { blk: (x.acked + 2 + self.r.below(50)) as u16, payload: vec![b'D'; x.bs] }),
                5 => wire::build(&P::Ack { blk: x.acked as u16 }),
                _ => wire::build(&P::Ack { blk: self.r.below(x.acked + 1) as u16 }),
            });
        }
        for b in out {
            self.pe[p].a.send(&mut self.sim, to, b);
        }
        self.quick();
    }

    fn strangers(&mut self, p: usize) {
        let Some(x) = &self.pe[p].x else { return };
        let (to, up, next, n, bs) = (x.to, x.up, if x.up { x.acked + 1 } else { x.has }, x.n, x.bs);
        for _ in 0..3 {
            let k = self.r.next();
            let from = strange(p, k);
            let m = match self.r.below(6) {
                0 => P::Err { code: 0, msg: "stop".into() },
                1 => P::Err { code: 3, msg: "stop".into() },
                2 => P::Ack { blk: n as u16 },
                _ if up && self.r.chance(50) => P::Data { blk: next as u16, payload: vec![b'X'; 100] },
                _ if up => P::Data { blk: next as u16, payload: vec![b'X'; bs] },
                _ => P::Ack { blk: next as u16 },
            };
            let b = std::sync::Arc::new(wire::build(&m));
            self.sim.inject_at(now() + 300_000, from, to, b.clone());
            if self.port_change {
                self.sim.inject_at(now() + 300_000, from, saddr(), b);
            }
            self.sim.run_for(2 * MS);
        }
    }
}

fn dummy() -> Pe {
    Pe { a: Actor::nobody(), request: vec![], x: None, count: 0 }
}

pub fn case(suite: &str, line: &str, seed: u64, i: u64) -> (String, Vec<Ev>, u64) {
    let line = line.replace('"', "");
    let w: Vec<&str> = line.split_whitespace().collect();
    let mut r = Rnd(seed.wrapping_mul(900_001).wrapping_add(i));
    let max: u16 = w[0].parse().unwrap();
    let mut c = TCfg::default();
    rng::reset(seed.wrapping_mul(1_000_003).wrapping_add(i));
    c.s_timeout_ms = *r.pick(&[3_000, 4_500, 6_000]);
    c.s_win = 8;
    c.s_block = 1400;
    c.s_seek = r.chance(30);
    c.s_key = false;
    c.port_change = r.chance(50);
    let store = Store::default();
    store.0.lock().unwrap().size_hint = true;
    let mut sim = Sim::new(Box::new(Quiet));
    let start = now();
    let mut config = server_config(&c);
    config.max_connections = max as _;
    let server = spawn_server(&mut sim, config, store.clone());
    let _ = server;
    let mut pe = vec![dummy()];
    for p in 1..=PEERS {
        pe.push(Pe { a: Actor::new(&mut sim, addr(p), 10 + p as u32, 0), request: vec![], x: None, count: 0 });
    }
    let rt = c.s_timeout_ms * MS;
    let mut play = Play { sim, store, pe, files: HashMap::new(), r, rt, port_change: c.port_change };
    // strangers of the same port have no socket of the peer's transfer to talk to but the listening one
    for a in &w[1..] {
        play.act(a);
    }
    // whatever happened: after a long silence there is room again
    play.act("L");
    play.act("R4");
    play.act("F4");
    play.act("L");
    let Play { sim, files, .. } = play;
    let ev = sim.finish();
    let id = format!("{suite}-{seed}-{i}");
    let json = json(&id, &ev, &files, max, c.s_timeout_ms, start);
    (json, ev, start)
}

fn json(id: &str, ev: &[Ev], files: &HashMap<String, Vec<u8>>, max: u16, rt: u64, start: u64) -> String {
    let who = |a: &SocketAddr| (1..=PEERS).find(|p| addr(*p) == *a).unwrap_or(0);
    let ms = |t: &u64| (*t - start) / MS;
    // file id -> path; connection -> path, block size
    let mut paths: HashMap<u64, String> = HashMap::new();
    let mut cur: BTreeMap<usize, String> = BTreeMap::new();
    let mut conn: HashMap<u64, (String, usize)> = HashMap::new();
    let mut asked: HashMap<usize, Vec<String>> = HashMap::new();
    let mut opened: Option<String> = None;
    let mut out = vec![];
    for e in ev {
        match e {
            Ev::Rx { t, node: 1, conn: c, from, bytes } => {
                let p = who(from);
                let (k, b, l, f) = match wire::parse(bytes) {
                    P::Rrq { file, .. } => ("rrq", 0, 0, {
                        cur.insert(p, file);
                        1
                    }),
                    P::Wrq { file, .. } => ("wrq", 0, 0, {
                        let seen = asked.entry(p).or_default();
                        let new = !seen.contains(&file);
                        if *c == 0 {
                            seen.push(file.clone());
                        }
                        cur.insert(p, file);
                        new as u8
                    }),
                    P::Data { blk, payload } => ("data", blk, payload.len(), 0),
                    P::Ack { blk } => ("ack", blk, 0, 0),
                    P::Err { .. } => ("err", 0, 0, 0),
                    P::Oack { .. } => ("oack", 0, 0, 0),
                    _ => ("bad", 0, 0, 0),
                };
                out.push(format!("{{\"e\":\"rx\",\"t\":{},\"c\":{c},\"p\":{p},\"k\":\"{k}\",\"b\":{b},\"l\":{l},\"x\":0,\"f\":{f}}}", ms(t)));
            }
            Ev::Tx { t, node: 1, conn: c, to, bytes, .. } => {
                let p = who(to);
                let (k, b, l, x) = match wire::parse(bytes) {
                    P::Data { blk, payload } => {
                        let (path, bs) = conn.get(c).cloned().unwrap_or_default();
                        let right = files.get(&path).map(|d| {
                            let off = (blk as usize).wrapping_sub(1).saturating_mul(bs);
                            off <= d.len() && payload == d[off..d.len().min(off + bs)]
                        });
                        ("data", blk as u64, payload.len(), right.unwrap_or(false) as u8)
                    }
                    P::Ack { blk } => ("ack", blk as u64, 0, 0),
                    P::Err { .. } => ("err", 0, 0, 0),
                    P::Oack { opts } => {
                        let get = |n: &str, d: usize| opts.iter().find(|o| o.0.eq_ignore_ascii_case(n)).and_then(|o| o.1.parse().ok()).unwrap_or(d);
                        let (bs, win) = (get("blksize", 512), get("windowsize", 1));
                        if let Some(x) = conn.get_mut(c) {
                            x.1 = bs;
                        }
                        ("oack", win as u64, bs, 0)
                    }
                    _ => ("bad", 0, 0, 0),
                };
                out.push(format!("{{\"e\":\"tx\",\"t\":{},\"c\":{c},\"p\":{p},\"k\":\"{k}\",\"b\":{b},\"l\":{l},\"x\":{x},\"f\":0}}", ms(t)));
            }
            Ev::Open { path, ok: true, file, .. } => {
                paths.insert(*file, path.clone());
                opened = Some(path.clone());
            }
            Ev::ConnNew { t, conn: c, peer, .. } => {
                let p = who(peer);
                let path = opened.take().unwrap_or_default();
                let size = files.get(&path).map(|d| d.len()).unwrap_or(0);
                conn.insert(*c, (path.clone(), 512));
                // a transfer of another file than the one asked for is nobody's
                let right = cur.get(&p).map(|x| path.ends_with(x.as_str())).unwrap_or(false) as u8;
                let up = path.contains('u') as u8;
                out.push(format!("{{\"e\":\"new\",\"t\":{},\"c\":{c},\"p\":{p},\"k\":\"{}\",\"b\":{size},\"l\":0,\"x\":{right},\"f\":0}}", ms(t), if up == 1 { "up" } else { "down" }));
            }
            Ev::ConnEnd { t, conn: c } => {
                out.push(format!("{{\"e\":\"end\",\"t\":{},\"c\":{c},\"p\":0,\"k\":\"\",\"b\":0,\"l\":0,\"x\":0,\"f\":0}}", ms(t)));
            }
            Ev::Wr { t, node: 1, file, off, bytes } => {
                let path = paths.get(file).cloned().unwrap_or_default();
                // the connection this file belongs to
                let c = conn.iter().filter(|x| x.1 .0 == path).map(|x| *x.0).max().unwrap_or(0);
                let off = *off as usize;
                let right = files.get(&path).map(|d| off + bytes.len() <= d.len() && bytes[..] == d[off..off + bytes.len()]).unwrap_or(false) as u8;
                out.push(format!("{{\"e\":\"wr\",\"t\":{},\"c\":{c},\"p\":0,\"k\":\"\",\"b\":{off},\"l\":{},\"x\":{right},\"f\":0}}", ms(t), bytes.len()));
            }
            Ev::Done { t, node: 1, .. } | Ev::Panic { t, .. } => {
                out.push(format!("{{\"e\":\"down\",\"t\":{},\"c\":0,\"p\":0,\"k\":\"\",\"b\":0,\"l\":0,\"x\":0,\"f\":0}}", ms(t)));
            }
            _ => {}
        }
    }
    format!("{{\"id\":\"{id}\",\"max\":{max},\"rt\":{rt},\"ev\":[{}]}}", out.join(","))
}

pub fn oracle() -> Oracle {
    oracle_for(&TCfg::default())
}
