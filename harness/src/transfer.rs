//! One client, one server, one file, a scripted network: the runs behind the Transfer specification.
use std::net::SocketAddr;
use std::sync::Arc;
use std::time::Duration;

use ed25519_dalek::{SigningKey, Verifier};
use tftp_dus::client::{receive_file, send_file, ClientConfig};
use tftp_dus::config::ConnectionOptions;
use tftp_dus::encryption::EncryptionLevel;
use tftp_dus::server::{server, ServerConfig};
use tftp_dus::types::FilePath;

use crate::rng::{self, DetRng, Rnd};
use crate::sim::*;
use crate::store::*;
use crate::wire::{self, Form, Oracle, P};

pub fn saddr() -> SocketAddr {
    "10.0.0.1:69".parse().unwrap()
}
pub fn caddr(n: u8) -> SocketAddr {
    format!("10.0.1.{n}:1000{}", n % 10).parse().unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Pass,
    Drop,
    Dup,
    /// arrives this many tenths of ms late
    Late(u32),
    /// arrives now and again later
    DupLate(u32),
}

#[derive(Clone, Debug)]
pub struct TCfg {
    pub id: String,
    pub upload: bool,
    pub size: usize,
    pub seed: u64,
    pub c_block: u16,
    pub c_win: u16,
    pub c_retry_ms: u64,
    pub c_timeout_ms: u64,
    pub c_seek: bool,
    pub level: &'static str,
    pub c_key: bool,
    pub s_key: bool,
    pub pin: bool,
    pub full: bool,
    pub port_change: bool,
    pub allow_change: bool,
    pub s_block: u16,
    pub s_win: u16,
    pub s_seek: bool,
    pub s_timeout_ms: u64,
    pub s_max: u64,
    pub c_max: u64,
    pub plan_c: Vec<Act>,
    pub plan_s: Vec<Act>,
    /// percent of packets lost in each direction; the same packet is lost at most three times in a row
    pub loss_c: u64,
    pub loss_s: u64,
    /// stretches of blocks in which packets are disturbed, with this percentage
    pub zones: Vec<(u64, u64)>,
    pub zone_pct: u64,
    /// percent of acknowledgements held back until the sender repeats itself
    pub hold_pct: u64,
    /// plans start with the request; otherwise after the first reply
    pub from_start: bool,
    pub lat_us: u64,
    pub wfault: WriteFault,
    pub rfault: Option<u64>,
    pub fair: bool,
    pub limit_ms: u64,
    /// events say in which form a packet travels
    pub forms: bool,
    /// percent of packets that make the attacker send some of its own
    pub forge_pct: u64,
    /// percent of packets that make strangers send some of their own
    pub stranger_pct: u64,
}

impl Default for TCfg {
    fn default() -> Self {
        TCfg {
            id: String::new(),
            upload: true,
            size: 1000,
            seed: 1,
            c_block: 512,
            c_win: 1,
            c_retry_ms: 80,
            c_timeout_ms: 15_000,
            c_seek: false,
            level: "none",
            c_key: false,
            s_key: false,
            pin: false,
            full: false,
            port_change: false,
            allow_change: true,
            s_block: 1424,
            s_win: 16,
            s_seek: false,
            s_timeout_ms: 15_000,
            s_max: u64::MAX / 4,
            c_max: u64::MAX / 4,
            plan_c: vec![],
            plan_s: vec![],
            loss_c: 0,
            loss_s: 0,
            zones: vec![],
            zone_pct: 0,
            hold_pct: 0,
            from_start: false,
            lat_us: 1000,
            wfault: WriteFault::default(),
            rfault: None,
            fair: true,
            limit_ms: 120_000,
            forms: false,
            forge_pct: 0,
            stranger_pct: 0,
        }
    }
}

pub struct PlanNet {
    pub plan_c: Vec<Act>,
    pub plan_s: Vec<Act>,
    ic: usize,
    is: usize,
    lat: u64,
    client_ip: std::net::IpAddr,
    seen_reply: bool,
    request_sent: bool,
    loss: [u64; 2],
    rnd: Rnd,
    lost: std::collections::HashMap<(bool, Vec<u8>), u32>,
    zones: Vec<(u64, u64)>,
    zone_pct: u64,
    /// highest block sent (unbounded)
    hi: u64,
    held: [Vec<(u64, Arc<Vec<u8>>)>; 2],
    upload: bool,
    hold_pct: u64,
    /// held acknowledgements, and how many repeated blocks release them
    waiting: Vec<(NodeAddr, Arc<Vec<u8>>)>,
    repeats: u64,
    release_after: u64,
}

type NodeAddr = (SocketAddr, SocketAddr);

impl PlanNet {
    pub fn new(c: &TCfg) -> PlanNet {
        PlanNet {
            plan_c: c.plan_c.clone(),
            plan_s: c.plan_s.clone(),
            ic: 0,
            is: 0,
            lat: c.lat_us * 1000,
            client_ip: caddr(1).ip(),
            seen_reply: c.from_start,
            request_sent: c.from_start,
            loss: [c.loss_c, c.loss_s],
            rnd: Rnd(c.seed ^ 0x10557),
            lost: Default::default(),
            zones: c.zones.clone(),
            zone_pct: c.zone_pct,
            hi: 0,
            held: [vec![], vec![]],
            upload: c.upload,
            hold_pct: c.hold_pct,
            waiting: vec![],
            repeats: 0,
            release_after: 1,
        }
    }

    /// Disturbs packets in the zones; copies may come thousands of blocks later.
    fn zone(&mut self, from_client: bool, p: &Pkt) -> Route {
        let b = &p.bytes;
        if b.len() >= 4 && b[0] == 0 && b[1] == 3 {
            let d = u16::from_be_bytes([b[2], b[3]]).wrapping_sub(self.hi as u16);
            if d < 0x8000 {
                self.hi += d as u64;
            }
        }
        let dir = from_client as usize;
        let mut out = vec![];
        let hi = self.hi;
        let lat = self.lat;
        self.held[dir].retain(|(at, b)| {
            if *at <= hi {
                out.push((lat, b.clone()));
            }
            *at > hi
        });
        let inside = self.zones.iter().any(|z| z.0 <= hi && hi <= z.1);
        if !inside || !self.rnd.chance(self.zone_pct) {
            out.push((lat, b.clone()));
            return out;
        }
        match self.rnd.below(8) {
            0..=2 => {
                // lost, but not for ever
                let n = self.lost.entry((from_client, b[..4.min(b.len())].to_vec())).or_insert(0);
                *n += 1;
                if *n > 3 {
                    *n = 0;
                    out.push((lat, b.clone()));
                }
            }
            3 => {
                out.push((lat, b.clone()));
                out.push((lat, b.clone()));
            }
            4 => out.push((lat + self.rnd.below(40) * MS / 10, b.clone())),
            5 => {
                out.push((lat, b.clone()));
                let far = self.rnd.below(60);
                self.held[dir].push((hi + far, b.clone()));
            }
            _ => {
                out.push((lat, b.clone()));
                // the displacement the numbering has to cope with
                let far = *self.rnd.pick(&[100, 2000, 5000, 9000, 9900]);
                self.held[dir].push((hi + far, b.clone()));
            }
        }
        out
    }

    fn lose(&mut self, from_client: bool, p: &Pkt) -> bool {
        let percent = self.loss[!from_client as usize];
        if percent == 0 || !self.rnd.chance(percent) {
            return false;
        }
        // opcode and block number name the packet
        let n = self.lost.entry((from_client, p.bytes[..p.bytes.len().min(4)].to_vec())).or_insert(0);
        *n += 1;
        if *n > 3 {
            *n = 0;
            return false;
        }
        true
    }
}

impl PlanNet {
    /// true: the packet is held until the sender repeats itself
    fn hold(&mut self, from_client: bool, p: &Pkt) -> bool {
        let b = &p.bytes;
        if b.len() < 4 {
            return false;
        }
        if from_client == self.upload {
            if b[1] == 3 {
                let d = u16::from_be_bytes([b[2], b[3]]).wrapping_sub(self.hi as u16);
                if d != 0 && d < 0x8000 {
                    self.hi += d as u64;
                } else if !self.waiting.is_empty() {
                    self.repeats += 1;
                }
            }
            return false;
        }
        if b[1] == 4 && (b[2] != 0 || b[3] != 0) && self.rnd.chance(self.hold_pct) {
            if self.waiting.is_empty() {
                self.repeats = 0;
                self.release_after = 1 + self.rnd.below(6);
            }
            self.waiting.push(((p.from, p.to), p.bytes.clone()));
            return true;
        }
        false
    }
}

impl Net for PlanNet {
    fn extra(&mut self) -> Vec<(u64, SocketAddr, SocketAddr, Arc<Vec<u8>>)> {
        if self.waiting.is_empty() || self.repeats < self.release_after {
            return vec![];
        }
        let w = std::mem::take(&mut self.waiting);
        let lat = self.rnd.below(60) * 1000;
        w.into_iter().map(|((f, t), b)| (lat, f, t, b)).collect()
    }

    fn route(&mut self, p: &Pkt) -> Route {
        let from_client = p.from.ip() == self.client_ip;
        let act = if from_client {
            if !self.request_sent || !self.seen_reply {
                self.request_sent = true;
                Act::Pass
            } else {
                self.ic += 1;
                self.plan_c.get(self.ic - 1).copied().unwrap_or(Act::Pass)
            }
        } else if !self.seen_reply {
            self.seen_reply = true;
            Act::Pass
        } else {
            self.is += 1;
            self.plan_s.get(self.is - 1).copied().unwrap_or(Act::Pass)
        };
        if !self.zones.is_empty() && self.ic + self.is > 1 {
            return self.zone(from_client, p);
        }
        let b = p.bytes.clone();
        if self.hold_pct > 0 && self.ic + self.is > 1 && self.hold(from_client, p) {
            return vec![];
        }
        if self.seen_reply && self.lose(from_client, p) && act == Act::Pass && (self.ic + self.is > 1) {
            return vec![];
        }
        match act {
            Act::Pass => vec![(self.lat, b)],
            Act::Drop => vec![],
            Act::Dup => vec![(self.lat, b.clone()), (self.lat, b)],
            Act::Late(d) => vec![(self.lat + d as u64 * 100_000, b)],
            Act::DupLate(d) => vec![(self.lat, b.clone()), (self.lat + d as u64 * 100_000, b)],
        }
    }
}

/// An attacker on the path of an encrypted transfer: it reads every packet and adds its own, with the
/// addresses of the two ends, but has none of their keys. It begins when the options are agreed.
pub struct ForgeNet {
    inner: PlanNet,
    rnd: Rnd,
    pct: u64,
    /// the level leaves headers, acknowledgements and errors unprotected: only file bytes are attacked
    body_only: bool,
    armed: bool,
    nonces: u64,
    out: Vec<(u64, SocketAddr, SocketAddr, Arc<Vec<u8>>)>,
}

impl ForgeNet {
    pub fn new(c: &TCfg) -> ForgeNet {
        ForgeNet {
            inner: PlanNet::new(c),
            rnd: Rnd(c.seed ^ 0xF0463),
            pct: c.forge_pct,
            body_only: c.level == "data",
            armed: false,
            nonces: 0,
            out: vec![],
        }
    }

    fn garbage(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.rnd.next() as u8).collect()
    }

    fn seal(&mut self, plain: &[u8]) -> Vec<u8> {
        self.nonces += 1;
        let mut nonce = [0xEE; 24];
        nonce[..8].copy_from_slice(&self.nonces.to_be_bytes());
        wire::seal(&wire::shared(&[0x66; 32], &wire::pubkey(&[0x67; 32])), plain, &nonce)
    }

    fn flip(&mut self, b: &[u8], from: usize) -> Vec<u8> {
        let mut v = b.to_vec();
        if v.len() > from {
            for _ in 0..1 + self.rnd.below(2) {
                let i = from + self.rnd.below((v.len() - from) as u64) as usize;
                v[i] ^= 1 << self.rnd.below(8);
            }
        }
        if v == b {
            v.push(0);
        }
        v
    }

    fn clear(&mut self) -> Vec<u8> {
        let blk = match self.rnd.below(3) {
            0 => self.rnd.below(4) as u16,
            1 => self.rnd.below(14) as u16,
            _ => self.rnd.next() as u16,
        };
        let n = self.rnd.below(600) as usize;
        wire::build(&match self.rnd.below(6) {
            0 | 1 => P::Data { blk, payload: self.garbage(n) },
            2 | 3 => P::Ack { blk },
            4 => P::Err { code: self.rnd.below(9) as u16, msg: "stop".into() },
            _ => P::Oack { opts: vec![("blksize".into(), "600".into())] },
        })
    }

    /// a data packet with a true header and a false body
    fn body(&mut self, b: &[u8]) -> Vec<u8> {
        let mut v = b[..4].to_vec();
        match self.rnd.below(5) {
            0 => return self.flip(b, 4),
            1 => {
                let n = 4 + self.rnd.below((b.len() - 4) as u64) as usize;
                return b[..n].to_vec();
            }
            2 => {
                let n = self.rnd.below(45) as usize;
                v.extend(self.garbage(n));
            }
            3 => {
                let n = self.rnd.below(512) as usize;
                let g = self.garbage(n);
                v.extend(self.seal(&g));
            }
            _ => {
                let n = self.rnd.below(1420) as usize;
                v.extend(self.garbage(n));
            }
        }
        v
    }

    fn forge(&mut self, p: &Pkt) -> (bool, Vec<u8>) {
        let b = p.bytes.clone();
        if self.body_only {
            return (false, self.body(&b));
        }
        // true: sent to the other end, as if from this one's peer
        match self.rnd.below(9) {
            0 => (false, self.flip(&b, 0)),
            1 => {
                let n = self.rnd.below(b.len() as u64) as usize;
                (false, b[..n].to_vec())
            }
            2 => {
                let n = 1 + self.rnd.below(80) as usize;
                let mut v = b.to_vec();
                v.extend(self.garbage(n));
                v.truncate(1500);
                (false, if v == *b { self.garbage(30) } else { v })
            }
            3 => {
                let n = 1 + self.rnd.below(if self.rnd.0 % 2 == 0 { 90 } else { 1499 }) as usize;
                (self.rnd.chance(50), self.garbage(n))
            }
            4 | 5 => (self.rnd.chance(50), self.clear()),
            6 => {
                let c = self.clear();
                let pad = self.rnd.below(300) as usize;
                let c = wire::pad(&c, pad);
                (self.rnd.chance(50), self.seal(&c))
            }
            // what an end has sent comes back to it
            7 => (true, b.to_vec()),
            _ => {
                let n = self.rnd.below(45) as usize;
                (self.rnd.chance(50), self.garbage(n))
            }
        }
    }
}

/// Hosts that are no part of the transfer and send packets to both ends, with their own addresses.
pub struct StrangerNet {
    inner: PlanNet,
    rnd: Rnd,
    pct: u64,
    armed: bool,
    out: Vec<(u64, SocketAddr, SocketAddr, Arc<Vec<u8>>)>,
}

impl StrangerNet {
    pub fn new(c: &TCfg) -> StrangerNet {
        StrangerNet { inner: PlanNet::new(c), rnd: Rnd(c.seed ^ 0x57A46E), pct: c.stranger_pct, armed: false, out: vec![] }
    }

    fn packet(&mut self, p: &Pkt, back: bool) -> Vec<u8> {
        let b = &p.bytes;
        let near = if b.len() >= 4 && (b[1] == 3 || b[1] == 4) { u16::from_be_bytes([b[2], b[3]]) } else { 0 };
        let blk = match self.rnd.below(4) {
            0 => near,
            1 => near.wrapping_add(1),
            2 => near.wrapping_add(self.rnd.below(6) as u16).wrapping_sub(2),
            _ => self.rnd.below(14) as u16,
        };
        let n = if self.rnd.chance(50) { 512 } else { self.rnd.below(1000) as usize };
        let junk: Vec<u8> = (0..n).map(|_| self.rnd.next() as u8).collect();
        match self.rnd.below(10) {
            // the very packet, from somewhere else
            0 | 1 if (self.armed || p.from.ip() != self.inner.client_ip) && !back => b.to_vec(),
            0..=3 => wire::build(&P::Data { blk, payload: junk }),
            4 | 5 => wire::build(&P::Ack { blk }),
            6 => wire::build(&P::Err { code: self.rnd.below(9) as u16, msg: "stop".into() }),
            7 => {
                let o = [("blksize", "600"), ("windowsize", "2"), ("tsize", "3"), ("timeout", "1")];
                let k = self.rnd.below(5) as usize;
                wire::build(&P::Oack { opts: o[..k].iter().map(|x| (x.0.to_string(), x.1.to_string())).collect() })
            }
            8 => wire::build(&P::Rrq { file: "nofile".into(), mode: "octet".into(), opts: vec![] }),
            _ => {
                let n = self.rnd.below(50) as usize;
                junk[..n.min(junk.len())].to_vec()
            }
        }
    }
}

impl Net for StrangerNet {
    fn extra(&mut self) -> Vec<(u64, SocketAddr, SocketAddr, Arc<Vec<u8>>)> {
        let mut v = self.inner.extra();
        v.append(&mut self.out);
        v
    }

    fn route(&mut self, p: &Pkt) -> Route {
        let reply = self.inner.seen_reply;
        let r = self.inner.route(p);
        self.armed |= reply && p.from.ip() == self.inner.client_ip;
        let theirs = p.from == caddr(1) || p.to == caddr(1);
        for _ in 0..3 {
            if !theirs || !self.rnd.chance(self.pct) {
                continue;
            }
            let back = self.rnd.chance(40);
            let bytes = self.packet(p, back);
            let (mut from, to) = if back { (p.to, p.from) } else { (p.from, p.to) };
            match self.rnd.below(4) {
                // another program of the same host
                0 | 1 if self.armed => from.set_port(from.port() ^ 0x15),
                // the same port of another host
                0 | 2 => from.set_ip("10.0.9.9".parse().unwrap()),
                _ => from = "10.0.9.8:4444".parse().unwrap(),
            }
            let lat = self.inner.lat / 2 + self.rnd.below(self.inner.lat * 2);
            self.out.push((lat, from, to, Arc::new(bytes)));
        }
        r
    }
}

impl Net for ForgeNet {
    fn extra(&mut self) -> Vec<(u64, SocketAddr, SocketAddr, Arc<Vec<u8>>)> {
        let mut v = self.inner.extra();
        v.append(&mut self.out);
        v
    }

    fn route(&mut self, p: &Pkt) -> Route {
        let reply = self.inner.seen_reply;
        let r = self.inner.route(p);
        self.armed |= reply && p.from.ip() == self.inner.client_ip;
        let data = p.bytes.len() > 44 && p.bytes[0] == 0 && p.bytes[1] == 3;
        if self.armed && (!self.body_only || data) {
            for _ in 0..3 {
                if !self.rnd.chance(self.pct) {
                    continue;
                }
                let (back, bytes) = self.forge(p);
                let (from, to) = if back { (p.to, p.from) } else { (p.from, p.to) };
                // before or after the true packet
                let lat = self.inner.lat / 2 + self.rnd.below(self.inner.lat * 2);
                self.out.push((lat, from, to, Arc::new(bytes)));
            }
        }
        r
    }
}

pub fn path(s: &str) -> FilePath {
    s.parse().expect("path")
}

pub fn level(s: &str) -> EncryptionLevel {
    s.parse().expect("level")
}

pub fn server_signing() -> SigningKey {
    SigningKey::from_bytes(&[0x51; 32])
}
pub fn client_signing() -> SigningKey {
    SigningKey::from_bytes(&[0xC1; 32])
}

pub fn server_config(c: &TCfg) -> ServerConfig {
    ServerConfig {
        listen: saddr(),
        directory: path("dir"),
        allow_overwrite: false,
        max_window_size: c.s_win,
        request_timeout: Duration::from_millis(c.s_timeout_ms),
        max_connections: 10,
        max_file_size: c.s_max,
        max_block_size: c.s_block,
        authorized_keys: None,
        private_key: c.s_key.then(server_signing),
        require_full_encryption: false,
        require_server_port_change: c.port_change,
        prefer_seek: c.s_seek,
        directory_list: None,
        max_directory_depth: 10,
        error_to_authorized_only: false,
    }
}

pub fn client_config(c: &TCfg) -> ClientConfig {
    ClientConfig {
        listen: caddr(1),
        endpoint: saddr(),
        request_timeout: Duration::from_millis(c.c_timeout_ms),
        max_file_size: c.c_max,
        private_key: c.c_key.then(client_signing),
        remote_public_key: c.pin.then(|| server_signing().verifying_key()),
        allow_server_port_change: c.allow_change,
        prefer_seek: c.c_seek,
        encryption_key: None,
    }
}

pub fn conn_options(c: &TCfg) -> ConnectionOptions {
    ConnectionOptions {
        block_size: c.c_block,
        retry_packet_after_timeout: Duration::from_millis(c.c_retry_ms),
        file_size: if c.upload { None } else { Some(0) },
        encryption_level: level(c.level),
        window_size: c.c_win,
    }
}

pub fn spawn_server(sim: &mut Sim, config: ServerConfig, store: Store) -> NodeId {
    sim.spawn(move || {
        let s2 = store.clone();
        let r = server(
            config,
            move |p: &FilePath, _c: &ServerConfig| match store.open_read(p.as_str()) {
                Some(x) => Ok(x),
                None => Err(tftp_dus::std_compat::io::Error::from(tftp_dus::std_compat::io::ErrorKind::NotFound).into()),
            },
            move |p: &FilePath, _c: &ServerConfig| match s2.open_write(p.as_str()) {
                Some(x) => Ok(x),
                None => Err(tftp_dus::std_compat::io::Error::from(tftp_dus::std_compat::io::ErrorKind::AlreadyExists).into()),
            },
            create_socket,
            create_bound_socket,
            instant,
            DetRng,
        );
        let err = r.err().map(|e| e.to_string()).unwrap_or_default();
        record(Ev::Done { t: now(), node: current_node(), ok: false, total: 0, key: None, err });
    })
}

pub fn spawn_client(
    sim: &mut Sim,
    addr: SocketAddr,
    config: ClientConfig,
    options: ConnectionOptions,
    upload: bool,
    local: &str,
    remote: &str,
    store: Store,
) -> NodeId {
    let (local, remote) = (path(local), path(remote));
    sim.spawn(move || {
        let socket = open_socket(addr, 1);
        let r = if upload {
            send_file(
                config,
                local,
                remote,
                options,
                |p: &FilePath| match store.open_read(p.as_str()) {
                    Some(x) => Ok(x),
                    None => Err(tftp_dus::std_compat::io::Error::from(tftp_dus::std_compat::io::ErrorKind::NotFound).into()),
                },
                socket,
                instant,
                DetRng,
            )
        } else {
            receive_file(
                config,
                local,
                remote,
                options,
                |p: &FilePath| match store.open_write(p.as_str()) {
                    Some(x) => Ok(x),
                    None => Err(tftp_dus::std_compat::io::Error::from(tftp_dus::std_compat::io::ErrorKind::AlreadyExists).into()),
                },
                socket,
                instant,
                DetRng,
            )
        };
        let ev = match r {
            Ok((total, key)) => Ev::Done { t: now(), node: current_node(), ok: true, total: total as u64, key: key.map(|k| k.to_bytes()), err: String::new() },
            Err(e) => Ev::Done { t: now(), node: current_node(), ok: false, total: 0, key: None, err: e.to_string() },
        };
        record(ev);
    })
}

/// What a run leaves behind.
pub struct Run {
    pub cfg: TCfg,
    pub src: Vec<u8>,
    pub ev: Vec<Ev>,
    pub steps: u64,
    pub start: u64,
    pub oracle: Oracle,
    pub ended: bool,
    /// further facts for the specification: name, JSON value
    pub extra: Vec<(&'static str, String)>,
}

/// The number an option value stands for: -1 when it is none, at most 2,000,000,000.
pub fn number(v: &str) -> i64 {
    if v.is_empty() || !v.bytes().all(|c| c.is_ascii_digit()) {
        return -1;
    }
    v.parse::<u64>().unwrap_or(u64::MAX).min(2_000_000_000) as i64
}

pub const LEVELS: [&str; 6] = ["none", "optional-data", "optional-protocol", "data", "protocol", "full"];

/// Options of a packet: -9 absent, -1 no number.
pub fn options_json(opts: &[(String, String)]) -> String {
    let (mut bs, mut win, mut to, mut ts, mut unk, mut enc) = (-9, -9, -9, -9, 0, -9);
    let (mut pk, mut ak, mut sg) = (0, 0, 0);
    let (mut session, mut auth, mut sig) = (None, None, None);
    for (k, v) in opts {
        match k.to_ascii_lowercase().as_str() {
            "blksize" => bs = number(v),
            "windowsize" => win = number(v),
            "timeout" => to = number(v),
            "tsize" => ts = number(v),
            "enclevel" => enc = LEVELS.iter().position(|x| x == v).map(|x| x as i64).unwrap_or(-1),
            "spubk" => {
                session = wire::unb64(v).filter(|k| k.len() == 32);
                pk = 2 - session.is_some() as i32
            }
            "apubk" => {
                let k = wire::unb64(v).and_then(|k| <[u8; 32]>::try_from(k).ok());
                let id = (1..4).find(|n| k == Some(crate::sec::signing(*n).unwrap().verifying_key().to_bytes()));
                ak = id.unwrap_or(4);
                auth = k.and_then(|k| ed25519_dalek::VerifyingKey::from_bytes(&k).ok());
            }
            "sig" => {
                sg = 2;
                sig = wire::unb64(v).and_then(|k| <[u8; 64]>::try_from(k).ok());
            }
            _ => unk += 1,
        }
    }
    if let (Some(s), Some(k), Some(m)) = (sig, auth, session) {
        if k.verify(&m, &ed25519_dalek::Signature::from_bytes(&s)).is_ok() {
            sg = 1;
        }
    }
    format!(
        "{{\"bs\":{bs},\"win\":{win},\"to\":{to},\"ts\":{ts},\"n\":{},\"unk\":{unk},\"enc\":{enc},\"pk\":{pk},\"ak\":{ak},\"sg\":{sg}}}",
        opts.len()
    )
}

pub fn oracle_for(c: &TCfg) -> Oracle {
    let mut o = Oracle::default();
    o.on = c.level != "none";
    if o.on {
        if c.s_key {
            o.add_secret(wire::mont_secret(&server_signing()));
        }
        for k in rng::keys() {
            o.add_secret(k);
        }
    }
    o
}

pub fn setup(c: &TCfg) -> (Sim, Store, Store, Vec<u8>) {
    rng::reset(c.seed);
    let src = content(c.seed, c.size);
    let sim = if c.forge_pct > 0 {
        Sim::new(Box::new(ForgeNet::new(c)))
    } else if c.stranger_pct > 0 {
        Sim::new(Box::new(StrangerNet::new(c)))
    } else { Sim::new(Box::new(PlanNet::new(c))) };
    let server_store = Store::default();
    let client_store = Store::default();
    if c.upload {
        client_store.put("local", src.clone());
    } else {
        server_store.put("remote", src.clone());
    }
    for s in [&server_store, &client_store] {
        let mut g = s.0.lock().unwrap();
        g.size_hint = true;
        g.write_fault = c.wfault.clone();
        g.read_error_at = c.rfault;
    }
    (sim, server_store, client_store, src)
}

const RUN_STEPS: u64 = 30_000_000;

pub fn run(c: &TCfg) -> Run {
    let (mut sim, sstore, cstore, src) = setup(c);
    let start = now();
    spawn_server(&mut sim, server_config(c), sstore);
    let client = spawn_client(&mut sim, caddr(1), client_config(c), conn_options(c), c.upload, "local", "remote", cstore);
    let ended = sim.run_until_stuck(&[client], c.limit_ms * MS, RUN_STEPS);
    // let the server see the last packets
    sim.run_for(20 * MS);
    let steps = sim.steps;
    let ev = sim.finish();
    Run { cfg: c.clone(), src, ev, steps, start, oracle: oracle_for(c), ended, extra: vec![] }
}

fn pool_at(sim: &Sim, o: &mut Oracle, data: bool, k: u16) -> Option<usize> {
    sim.pool.iter().position(|p| match wire::parse(&o.read(&p.bytes).1) {
        P::Data { blk, .. } => data && blk == k,
        P::Ack { blk } => !data && blk == k,
        _ => false,
    })
}

/// delivers what is no business of the schedule: requests, option acknowledgements, errors
fn pass_rest(sim: &mut Sim, o: &mut Oracle) {
    while let Some(i) = sim.pool.iter().position(|p| match wire::parse(&o.read(&p.bytes).1) {
        P::Data { .. } => false,
        P::Ack { .. } => false,
        _ => true,
    }) {
        sim.deliver_pool(i, false);
    }
}

/// Makes the code follow a behaviour of the model: packets move only as the schedule says; afterwards
/// the network is perfect. Returns the number of actions that could be followed.
pub fn run_schedule(c: &TCfg, actions: &[String]) -> (Run, usize) {
    let (mut sim, sstore, cstore, src) = setup(c);
    let start = now();
    sim.manual = true;
    spawn_server(&mut sim, server_config(c), sstore);
    let client = spawn_client(&mut sim, caddr(1), client_config(c), conn_options(c), c.upload, "local", "remote", cstore);
    let mut o = oracle_for(c);
    // the exchange of options
    let mut n = 0;
    let mut known = 0;
    while n < 5000 && !sim.ended(client) {
        n += 1;
        if sim.pool.is_empty() {
            sim.step();
            continue;
        }
        if rng::keys().len() != known {
            known = rng::keys().len();
            o = oracle_for(c);
        }
        if pool_at(&sim, &mut o, true, 1).is_some() {
            break;
        }
        sim.deliver_pool(0, false);
    }
    let mut followed = 0;
    for a in actions {
        let k: u16 = a[1..].parse().expect("action");
        let kind = a.as_bytes()[0];
        let data = matches!(kind, b's' | b'd' | b'D' | b'l' | b'f');
        pass_rest(&mut sim, &mut o);
        let end = now() + 2_000 * MS;
        let found = loop {
            if let Some(i) = pool_at(&sim, &mut o, data, k) {
                break Some(i);
            }
            if kind != b's' || now() >= end || sim.ended(client) {
                break None;
            }
            let before = sim.pool.len();
            while sim.pool.len() == before && now() < end && !sim.ended(client) {
                sim.step();
            }
            pass_rest(&mut sim, &mut o);
        };
        let Some(i) = found else { continue };
        followed += 1;
        match kind {
            b's' => {}
            b'd' | b'a' | b'f' => sim.deliver_pool(i, false),
            b'D' | b'A' => sim.deliver_pool(i, true),
            _ => {
                while let Some(i) = pool_at(&sim, &mut o, data, k) {
                    sim.pool.remove(i);
                }
            }
        }
    }
    // from here on nothing is lost; what is left arrives late, or never
    sim.manual = false;
    let rest = std::mem::take(&mut sim.pool);
    match c.seed % 3 {
        0 => {}
        1 => {
            for (j, p) in rest.into_iter().rev().enumerate() {
                sim.inject_at(now() + (j as u64 + 1) * MS, p.from, p.to, p.bytes);
            }
        }
        _ => {
            for (j, p) in rest.into_iter().enumerate() {
                sim.inject_at(now() + 90 * MS + j as u64 * MS, p.from, p.to, p.bytes);
            }
        }
    }
    let ended = sim.run_until_stuck(&[client], c.limit_ms * MS, RUN_STEPS);
    sim.run_for(20 * MS);
    let steps = sim.steps;
    let ev = sim.finish();
    (Run { cfg: c.clone(), src, ev, steps, start, oracle: oracle_for(c), ended, extra: vec![] }, followed)
}

pub struct Session {
    pub bs: usize,
    pub win: u32,
    pub level: String,
    pub full: bool,
}

/// The session parameters which the acknowledged options stand for.
pub fn session_of(opts: Option<&Vec<(String, String)>>, full: bool) -> Session {
    let mut bs = 512usize;
    let mut win = 1;
    let mut level = String::from("none");
    if let Some(o) = opts {
        for (k, v) in o {
            match k.to_ascii_lowercase().as_str() {
                "blksize" => bs = v.parse().unwrap_or(0),
                "windowsize" => win = v.parse().unwrap_or(0),
                "enclevel" => level = v.clone(),
                _ => {}
            }
        }
    }
    let over = match level.as_str() {
        "data" => 40,
        "protocol" | "full" => 41,
        _ => 0,
    };
    Session { bs: bs.saturating_sub(over), win, level, full }
}

/// The index whose bytes a data payload is, among the indexes with this 16-bit number; -1 when none.
pub fn locate(src: &[u8], bs: usize, blk: u16, payload: &[u8], near: u64) -> i64 {
    if bs == 0 {
        return -1;
    }
    let last = (src.len() / bs + 1) as u64;
    let mut k = blk as u64;
    let mut best: i64 = -1;
    while k <= last {
        if k >= 1 {
            let off = (k as usize - 1) * bs;
            if off <= src.len() && off + payload.len() <= src.len() && &src[off..off + payload.len()] == payload && (payload.len() == bs || off + payload.len() == src.len()) {
                let better = best < 0 || (k as i64 - near as i64).abs() < (best - near as i64).abs();
                if better {
                    best = k as i64;
                }
            }
        }
        k += 65536;
    }
    best
}

pub fn trace_json(r: &mut Run) -> String {
    use std::collections::HashSet;
    let c = &r.cfg;
    let o = &mut r.oracle;
    // session: the option acknowledgement of the first transfer
    let mut opts = None;
    let mut full = false;
    for e in &r.ev {
        if let Ev::Tx { bytes, from, .. } = e {
            let (form, plain, _) = o.read(bytes);
            if form == Form::Initial {
                full = true;
            }
            if from.ip() == saddr().ip() {
                if let P::Oack { opts: x } = wire::parse(&plain) {
                    opts = Some(x);
                    break;
                }
            }
        }
    }
    let s = session_of(opts.as_ref(), full);
    let mut out = String::new();
    let mut authentic: HashSet<(SocketAddr, Arc<Vec<u8>>)> = HashSet::new();
    let mut near = 0u64;
    let mut main_conn = 0u64;
    let q = std::cell::RefCell::new(String::new());
    let push = |out: &mut String, e: &str, n: &str, op: &str, b: i64, l: i64, x: i64, f: i64, t: u64| {
        if !out.is_empty() {
            out.push(',');
        }
        let q = std::mem::take(&mut *q.borrow_mut());
        out.push_str(&format!(
            "{{\"e\":\"{e}\",\"n\":\"{n}\",\"o\":\"{op}\",\"b\":{b},\"l\":{l},\"x\":{x},\"f\":{f},\"t\":{t}{q}}}"
        ));
    };
    let start = r.start;
    let ms = |t: u64| t.saturating_sub(start) / 1_000_000;
    let describe = |p: &P, src: &[u8], near: &mut u64| -> (&'static str, i64, i64, i64) {
        if let P::Rrq { opts, .. } | P::Wrq { opts, .. } | P::Oack { opts } = p {
            *q.borrow_mut() = format!(",\"q\":{}", options_json(opts));
        }
        match p {
            P::Rrq { .. } => ("rrq", 0, 0, 0),
            P::Wrq { .. } => ("wrq", 0, 0, 0),
            P::Data { blk, payload } => {
                let k = locate(src, s.bs, *blk, payload, *near);
                if k > 0 {
                    *near = k as u64;
                }
                ("data", *blk as i64, payload.len() as i64, k)
            }
            P::Ack { blk } => ("ack", *blk as i64, 0, 0),
            P::Err { code, .. } => ("err", *code as i64, 0, 0),
            P::Oack { .. } => ("oack", 0, 0, 0),
            P::Bad => ("bad", 0, 0, 0),
        }
    };
    for e in &r.ev {
        match e {
            Ev::Tx { t, conn, from, bytes, .. } => {
                authentic.insert((*from, bytes.clone()));
                let (form, plain, _) = o.read(bytes);
                let p = wire::parse(&plain);
                let (op, b, l, x) = describe(&p, &r.src, &mut near);
                let n = if from.ip() == caddr(1).ip() {
                    "C"
                } else if *conn == 0 {
                    "L"
                } else if *conn == main_conn {
                    "S"
                } else {
                    "X"
                };
                if c.forms {
                    q.borrow_mut().push_str(&format!(",\"m\":{}", form as u8));
                }
                push(&mut out, "tx", n, op, b, l, x, 1, ms(*t));
            }
            Ev::Rx { t, node, conn, from, bytes } => {
                let (form, plain, _) = o.read(bytes);
                let p = wire::parse(&plain);
                let (op, b, l, x) = describe(&p, &r.src, &mut near);
                if c.forms {
                    q.borrow_mut().push_str(&format!(",\"m\":{}", form as u8));
                }
                let n = if *node == 2 {
                    "C"
                } else if *conn == 0 {
                    "L"
                } else if *conn == main_conn {
                    "S"
                } else {
                    "X"
                };
                let f = authentic.contains(&(*from, bytes.clone())) as i64;
                push(&mut out, "rx", n, op, b, l, x, f, ms(*t));
            }
            Ev::Open { t, node, mode, ok, .. } => {
                push(&mut out, "open", if *node == 2 { "C" } else { "S" }, mode, *ok as i64, 0, 0, 0, ms(*t));
            }
            Ev::Wr { t, node, off, bytes, .. } => {
                let m = (*off as usize + bytes.len() <= r.src.len()
                    && r.src[*off as usize..*off as usize + bytes.len()] == bytes[..]) as i64;
                push(&mut out, "wr", if *node == 2 { "C" } else { "S" }, "", 0, bytes.len() as i64, *off as i64, m, ms(*t));
            }
            Ev::WrFail { t, node, .. } => {
                push(&mut out, "wf", if *node == 2 { "C" } else { "S" }, "", 0, 0, 0, 0, ms(*t));
            }
            Ev::Close { .. } => {}
            Ev::ConnNew { conn, .. } => {
                if main_conn == 0 {
                    main_conn = *conn;
                }
            }
            Ev::ConnEnd { t, conn } => {
                let n = if *conn == main_conn { "S" } else { "X" };
                push(&mut out, "end", n, "", 0, 0, 0, 0, ms(*t));
            }
            Ev::Done { t, node, ok, total, .. } => {
                push(&mut out, "done", if *node == 2 { "C" } else { "L" }, "", *ok as i64, *total as i64, 0, 0, ms(*t));
            }
            Ev::Panic { t, node, .. } => {
                push(&mut out, "panic", if *node == 2 { "C" } else { "S" }, "", 0, 0, 0, 0, ms(*t));
            }
            Ev::Note { .. } => {}
        }
    }
    if out.is_empty() {
        push(&mut out, "none", "C", "", 0, 0, 0, 0, 0);
    }
    let extra: String = r.extra.iter().map(|(k, v)| format!(",\"{k}\":{v}")).collect();
    format!(
        "{{\"id\":{},\"up\":{},\"size\":{},\"bs\":{},\"win\":{},\"rt\":{},\"fair\":{},\"ended\":{},\"nblk\":{}{extra},\"ev\":[{}]}}",
        crate::json::esc(&c.id),
        c.upload as u8,
        c.size,
        s.bs,
        s.win,
        if c.upload { c.c_timeout_ms } else { c.s_timeout_ms },
        c.fair as u8,
        r.ended as u8,
        if s.bs > 0 { c.size / s.bs + 1 } else { 0 },
        out
    )
}
