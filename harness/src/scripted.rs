//! Peers the harness plays itself: a mailbox in the simulated network and straight-line code of the
//! director which sends, waits and answers.  They follow the RFCs, share no code with /repo, and are
//! recorded like any other node.
use std::collections::VecDeque;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

use crate::sim::*;
use crate::wire::{self, Key, P};

#[derive(Default)]
struct Box_ {
    q: VecDeque<(SocketAddr, Vec<u8>)>,
    deaf: bool,
}

struct Mailbox {
    addr: SocketAddr,
    node: NodeId,
    conn: u64,
    b: Arc<Mutex<Box_>>,
}

impl Peer for Mailbox {
    fn addr(&self) -> SocketAddr {
        self.addr
    }
    fn packet(&mut self, from: SocketAddr, bytes: &[u8], now: u64) -> Vec<(u64, SocketAddr, SocketAddr, Vec<u8>)> {
        let mut b = self.b.lock().unwrap();
        if !b.deaf {
            record(Ev::Rx { t: now, node: self.node, conn: self.conn, from, bytes: Arc::new(bytes.to_vec()) });
            b.q.push_back((from, bytes.to_vec()));
        }
        vec![]
    }
}

/// How a scripted peer dresses its packets.
#[derive(Clone, Debug, Default)]
pub struct Sess {
    /// "none", "data", "protocol", "full"
    pub level: String,
    pub key: Key,
    /// block size packets are padded to (levels protocol and full)
    pub pad: usize,
    pub nonces: u64,
}

impl Sess {
    pub fn plain() -> Sess {
        Sess { level: "none".into(), ..Default::default() }
    }

    fn nonce(&mut self) -> [u8; 24] {
        self.nonces += 1;
        let mut n = [0x77u8; 24];
        n[..8].copy_from_slice(&self.nonces.to_le_bytes());
        n
    }

    pub fn dress(&mut self, p: &P) -> Vec<u8> {
        let b = wire::build(p);
        let n = self.nonce();
        match (self.level.as_str(), p) {
            ("data", P::Data { .. }) => {
                let mut v = b[..4].to_vec();
                v.extend(wire::seal(&self.key, &b[4..], &n));
                v
            }
            ("protocol", _) | ("full", _) => wire::seal(&self.key, &wire::pad(&b, self.pad), &n),
            _ => b,
        }
    }

    pub fn read(&self, b: &[u8]) -> P {
        match self.level.as_str() {
            "data" => match wire::parse(b) {
                P::Data { blk, payload } => match wire::open(&self.key, &payload) {
                    Some(x) => P::Data { blk, payload: x },
                    None => P::Bad,
                },
                x => x,
            },
            "protocol" | "full" => wire::open(&self.key, b).and_then(|x| wire::unpad(&x)).map(|x| wire::parse(&x)).unwrap_or(P::Bad),
            _ => wire::parse(b),
        }
    }
}

pub struct Actor {
    pub addr: SocketAddr,
    pub node: NodeId,
    pub conn: u64,
    pub lat: u64,
    b: Arc<Mutex<Box_>>,
    file: u64,
    pub stored: u64,
}

impl Actor {
    /// stands for an actor that is elsewhere
    pub fn nobody() -> Actor {
        let b = Arc::new(Mutex::new(Box_::default()));
        Actor { addr: "0.0.0.0:0".parse().unwrap(), node: 0, conn: 0, lat: 0, b, file: 0, stored: 0 }
    }

    pub fn new(sim: &mut Sim, addr: SocketAddr, node: NodeId, conn: u64) -> Actor {
        let b = Arc::new(Mutex::new(Box_::default()));
        sim.peers.push(Box::new(Mailbox { addr, node, conn, b: b.clone() }));
        Actor { addr, node, conn, lat: 500_000, b, file: 1_000_000 + node as u64, stored: 0 }
    }

    pub fn deaf(&self, on: bool) {
        self.b.lock().unwrap().deaf = on;
    }

    pub fn send(&self, sim: &mut Sim, to: SocketAddr, bytes: Vec<u8>) {
        let bytes = Arc::new(bytes);
        record(Ev::Tx { t: now(), node: self.node, conn: self.conn, from: self.addr, to, bytes: bytes.clone() });
        let lat = self.lat;
        sim.inject_at(now() + lat, self.addr, to, bytes);
    }

    pub fn pending(&self) -> bool {
        !self.b.lock().unwrap().q.is_empty()
    }

    /// the next datagram, waiting at most so long
    pub fn recv(&self, sim: &mut Sim, ns: u64) -> Option<(SocketAddr, Vec<u8>)> {
        let end = now() + ns;
        let mut steps = 0u64;
        loop {
            if let Some(x) = self.b.lock().unwrap().q.pop_front() {
                return Some(x);
            }
            steps += 1;
            if sim.next_time() > end || steps > 2_000_000 || !sim.step() {
                if now() < end {
                    NOW.store(end, std::sync::atomic::Ordering::SeqCst);
                }
                return None;
            }
        }
    }

    pub fn store(&mut self, bytes: &[u8]) {
        record(Ev::Wr { t: now(), node: self.node, file: self.file, off: self.stored, bytes: Arc::new(bytes.to_vec()) });
        self.stored += bytes.len() as u64;
    }

    pub fn done(&self, ok: bool, total: u64) {
        record(Ev::Done { t: now(), node: self.node, ok, total, key: None, err: String::new() });
    }
}

/// What a scripted transfer runs with.
#[derive(Clone, Debug)]
pub struct Run2 {
    pub bs: usize,
    pub win: usize,
    pub sess: Sess,
    /// wait this long without a packet before the first acknowledgement
    pub quiet: u64,
    /// hear nothing for this long at the start
    pub deaf: u64,
    pub patience: u64,
}

impl Run2 {
    pub fn new(bs: usize, win: usize, sess: Sess) -> Run2 {
        Run2 { bs, win, sess, quiet: 0, deaf: 0, patience: 3_000 * MS }
    }
}

/// Receives a file from `peer`; `first`: a data packet that came already. True when complete.
pub fn receive(sim: &mut Sim, a: &mut Actor, peer: SocketAddr, r: &mut Run2, mut first: Option<Vec<u8>>) -> bool {
    let mut has = 0u64;
    let mut acked = 0u64;
    let mut started = false;
    if r.deaf > 0 {
        a.deaf(true);
        sim.run_for(r.deaf);
        a.deaf(false);
    }
    loop {
        let m = match first.take() {
            Some(b) => Some((peer, b)),
            None => a.recv(sim, r.patience),
        };
        let Some((from, b)) = m else { return false };
        if from != peer {
            continue;
        }
        match r.sess.read(&b) {
            P::Data { blk, payload } => {
                let next = blk == ((has + 1) & 0xffff) as u16;
                if next {
                    a.store(&payload);
                    has += 1;
                }
                let last = next && payload.len() < r.bs;
                if !next || last || has - acked >= r.win as u64 {
                    if !started && r.quiet > 0 {
                        started = true;
                        // whatever else the sender has to say comes now
                        sim.run_for(r.quiet);
                    }
                    let p = r.sess.dress(&P::Ack { blk: has as u16 });
                    a.send(sim, peer, p);
                    acked = has;
                }
                if last {
                    return true;
                }
            }
            P::Err { .. } => return false,
            _ => {}
        }
    }
}

/// Sends `src` to `peer`. True when the last block was acknowledged.
pub fn send(sim: &mut Sim, a: &mut Actor, peer: SocketAddr, r: &mut Run2, src: &[u8]) -> bool {
    let n = (src.len() / r.bs + 1) as u64;
    let mut acked = 0u64;
    let mut tries = 0;
    loop {
        let top = n.min(acked + r.win as u64);
        for k in acked + 1..=top {
            let off = (k as usize - 1) * r.bs;
            let p = r.sess.dress(&P::Data { blk: k as u16, payload: src[off..src.len().min(off + r.bs)].to_vec() });
            a.send(sim, peer, p);
        }
        let before = acked;
        let end = now() + 300 * MS;
        while now() < end {
            let Some((from, b)) = a.recv(sim, end - now()) else { break };
            if from != peer {
                continue;
            }
            match r.sess.read(&b) {
                P::Ack { blk } => {
                    let d = blk.wrapping_sub(acked as u16) as u64;
                    if d > 0 && acked + d <= top {
                        acked += d;
                    }
                    if acked == n {
                        return true;
                    }
                    if acked == top {
                        break;
                    }
                }
                P::Err { .. } => return false,
                _ => {}
            }
        }
        if acked == before {
            tries += 1;
            if tries > 12 {
                return false;
            }
        } else {
            tries = 0;
        }
    }
}
