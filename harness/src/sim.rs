//! Deterministic discrete-event simulation of sockets and time for the real server and client code.
//!
//! Every system thread runs until it blocks in a socket receive. The director (the thread which owns
//! `Sim`) then decides which packet arrives next or which receive times out, and advances the virtual
//! clock. At most one system thread runs at any moment, so a run is a function of its inputs.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard, OnceLock};
use std::time::Duration;

use tftp_dus::error::BoxedResult;
use tftp_dus::socket::{BoundSocket, Socket, SocketRawFd, ToSocketId};
use tftp_dus::std_compat::io;
use tftp_dus::types::DataBuffer;

pub static NOW: AtomicU64 = AtomicU64::new(1_000_000_000);
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
/// what one non-blocking poll costs
pub const POLL_COST: u64 = 20_000;
pub const MS: u64 = 1_000_000;

/// set by the commands that run the real program in real time
pub static REAL: AtomicBool = AtomicBool::new(false);

/// The virtual clock: std's `Instant::now` in this process reads it.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_MONOTONIC && !REAL.load(Ordering::Relaxed) {
        let n = NOW.load(Ordering::SeqCst);
        (*ts).tv_sec = (n / 1_000_000_000) as _;
        (*ts).tv_nsec = (n % 1_000_000_000) as _;
        0
    } else {
        libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
    }
}

pub fn real_now() -> f64 {
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

#[cfg(feature = "mt")]
pub fn instant() -> tftp_dus::std_compat::time::Instant {
    std::time::Instant::now()
}
#[cfg(not(feature = "mt"))]
pub fn instant() -> tftp_dus::std_compat::time::Instant {
    fn micros() -> u64 {
        NOW.load(Ordering::SeqCst) / 1000
    }
    tftp_dus::std_compat::time::Instant::from_time(micros)
}

pub type NodeId = u32;

#[derive(Clone, Debug)]
pub enum Ev {
    /// a datagram left a node
    Tx { t: u64, node: NodeId, conn: u64, from: SocketAddr, to: SocketAddr, bytes: Arc<Vec<u8>> },
    /// a datagram was handed to a node
    Rx { t: u64, node: NodeId, conn: u64, from: SocketAddr, bytes: Arc<Vec<u8>> },
    /// a file was opened ("r"/"w"), or refused
    Open { t: u64, node: NodeId, mode: &'static str, path: String, ok: bool, file: u64 },
    /// bytes stored
    Wr { t: u64, node: NodeId, file: u64, off: u64, bytes: Arc<Vec<u8>> },
    /// a storage operation failed (what: "short", "err")
    WrFail { t: u64, node: NodeId, file: u64 },
    Close { t: u64, node: NodeId, file: u64 },
    /// a transfer socket was created for a peer / went away
    ConnNew { t: u64, conn: u64, peer: SocketAddr, local: SocketAddr },
    ConnEnd { t: u64, conn: u64 },
    /// a client call or the server returned
    Done { t: u64, node: NodeId, ok: bool, total: u64, key: Option<[u8; 32]>, err: String },
    Panic { t: u64, node: NodeId, msg: String },
    /// the network lost / injected / the scenario says something
    Note { t: u64, kind: String, val: i64 },
}

#[derive(Clone)]
pub struct Pkt {
    pub seq: u64,
    pub from: SocketAddr,
    pub to: SocketAddr,
    pub conn: u64,
    pub bytes: Arc<Vec<u8>>,
    pub t: u64,
}

struct Sock {
    open: bool,
    node: NodeId,
    local: SocketAddr,
    remote: Option<SocketAddr>,
    inbox: VecDeque<(Arc<Vec<u8>>, SocketAddr)>,
    waiting: Option<u64>,
    reply: Option<Reply>,
    /// the socket id the code gave it
    id: usize,
    conn: u64,
    /// single-threaded server: registered for readiness on the listening socket of the same node
    armed: bool,
    own_thread: bool,
}

enum Reply {
    Msg(Arc<Vec<u8>>, SocketAddr),
    WouldBlock,
    Fail,
}

#[derive(Default)]
struct Inner {
    running: i64,
    socks: Vec<Sock>,
    outbox: Vec<Pkt>,
    events: Vec<Ev>,
    stop: bool,
    seq: u64,
    next_port: u16,
    conns: u64,
    files: u64,
    notified: HashMap<(NodeId, usize), ()>,
    send_fail: HashMap<NodeId, u32>,
    bind_fail: u32,
    ended: Vec<NodeId>,
}

struct Shared {
    m: Mutex<Inner>,
    cv: Condvar,
}

fn shared() -> &'static Shared {
    static S: OnceLock<Shared> = OnceLock::new();
    S.get_or_init(|| Shared { m: Mutex::new(Inner::default()), cv: Condvar::new() })
}

fn lock() -> MutexGuard<'static, Inner> {
    match shared().m.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

pub fn now() -> u64 {
    NOW.load(Ordering::SeqCst)
}

thread_local! {
    static NODE: RefCell<NodeId> = const { RefCell::new(0) };
    static END: RefCell<Option<EndGuard>> = const { RefCell::new(None) };
}

/// Counts a connection thread out after its JoinHandle reports it as finished.
struct EndGuard;
impl Drop for EndGuard {
    fn drop(&mut self) {
        let mut g = lock();
        g.running -= 1;
        shared().cv.notify_all();
    }
}

pub fn current_node() -> NodeId {
    NODE.try_with(|n| *n.borrow()).unwrap_or(0)
}

pub fn record(ev: Ev) {
    lock().events.push(ev);
}

pub fn next_file_id() -> u64 {
    let mut g = lock();
    g.files += 1;
    g.files
}

pub fn note(kind: &str, val: i64) {
    record(Ev::Note { t: now(), kind: kind.into(), val });
}

#[derive(Debug)]
pub struct MockSocket {
    idx: usize,
    creator: std::thread::ThreadId,
}

impl MockSocket {
    fn recv_any(&mut self, buf: &mut DataBuffer, wait: Option<Duration>) -> io::Result<(usize, SocketAddr)> {
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        let mut g = lock();
        let (own_thread, node) = {
            let s = &g.socks[self.idx];
            (s.own_thread, s.node)
        };
        if own_thread && std::thread::current().id() != self.creator {
            NODE.with(|n| *n.borrow_mut() = node);
            END.with(|e| {
                let mut e = e.borrow_mut();
                if e.is_none() {
                    *e = Some(EndGuard);
                }
            });
        }
        if g.socks[self.idx].remote.is_some() && !own_thread {
            // transfer socket of the single-threaded server: never blocks
            return match g.socks[self.idx].inbox.pop_front() {
                Some((b, from)) => {
                    let (conn, node) = (g.socks[self.idx].conn, g.socks[self.idx].node);
                    Ok(deliver(&mut g, node, conn, buf, b, from))
                }
                None => Err(io::Error::from(io::ErrorKind::WouldBlock)),
            };
        }
        if g.stop {
            return Err(io::Error::from(io::ErrorKind::Other));
        }
        let deadline = match wait {
            Some(d) => now() + (d.as_nanos() as u64).max(POLL_COST),
            None => now() + POLL_COST,
        };
        g.socks[self.idx].waiting = Some(deadline);
        g.running -= 1;
        shared().cv.notify_all();
        while g.socks[self.idx].reply.is_none() {
            g = match shared().cv.wait(g) {
                Ok(g) => g,
                Err(p) => p.into_inner(),
            };
        }
        let reply = g.socks[self.idx].reply.take().expect("reply");
        match reply {
            Reply::Msg(b, from) => {
                let conn = g.socks[self.idx].conn;
                Ok(deliver(&mut g, node, conn, buf, b, from))
            }
            Reply::WouldBlock => Err(io::Error::from(io::ErrorKind::WouldBlock)),
            Reply::Fail => Err(io::Error::from(io::ErrorKind::Other)),
        }
    }

    fn send_any(&self, buf: &mut DataBuffer, to: SocketAddr) -> io::Result<usize> {
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        let mut g = lock();
        let (node, from, conn) = {
            let s = &g.socks[self.idx];
            (s.node, s.local, s.conn)
        };
        if let Some(n) = g.send_fail.get_mut(&node) {
            if *n > 0 {
                *n -= 1;
                return Err(io::Error::from(io::ErrorKind::WouldBlock));
            }
        }
        let bytes = Arc::new(buf.to_vec());
        g.seq += 1;
        let seq = g.seq;
        let t = now();
        g.events.push(Ev::Tx { t, node, conn, from, to, bytes: bytes.clone() });
        g.outbox.push(Pkt { seq, from, to, conn, bytes, t });
        Ok(buf.len())
    }
}

fn deliver(g: &mut Inner, node: NodeId, conn: u64, buf: &mut DataBuffer, b: Arc<Vec<u8>>, from: SocketAddr) -> (usize, SocketAddr) {
    let n = b.len().min(buf.len());
    buf[..n].copy_from_slice(&b[..n]);
    let bytes = if n < b.len() { Arc::new(b[..n].to_vec()) } else { b };
    g.events.push(Ev::Rx { t: now(), node, conn, from, bytes });
    (n, from)
}

impl Drop for MockSocket {
    fn drop(&mut self) {
        let mut g = lock();
        if g.socks.len() <= self.idx {
            return;
        }
        let (own, conn, node, id) = {
            let s = &mut g.socks[self.idx];
            s.open = false;
            s.armed = false;
            (s.own_thread, s.conn, s.node, s.id)
        };
        let _ = (node, id);
        if conn > 0 {
            g.events.push(Ev::ConnEnd { t: now(), conn });
        }
        if own {
            if std::thread::current().id() == self.creator {
                g.running -= 1;
                shared().cv.notify_all();
            } else {
                drop(g);
                let _ = END.try_with(|e| {
                    let mut e = e.borrow_mut();
                    if e.is_none() {
                        *e = Some(EndGuard);
                    }
                });
            }
        }
    }
}

impl Socket for MockSocket {
    fn recv_from(&mut self, buf: &mut DataBuffer, wait_for: Option<Duration>) -> io::Result<(usize, SocketAddr)> {
        self.recv_any(buf, wait_for)
    }
    fn send_to(&self, buf: &mut DataBuffer, addr: SocketAddr) -> io::Result<usize> {
        self.send_any(buf, addr)
    }
    fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(lock().socks[self.idx].local)
    }
    fn modify_interest(&mut self, socket_id: usize, raw_fd: SocketRawFd) -> io::Result<()> {
        // as the poller of the program: the next packet of this one socket is noticed, once
        let mut g = lock();
        let node = g.socks[self.idx].node;
        g.notified.remove(&(node, socket_id));
        if let Some(s) = g.socks.get_mut(raw_fd as usize) {
            if s.open && s.node == node && s.remote.is_some() {
                s.armed = true;
                s.id = socket_id;
            }
        }
        Ok(())
    }
    #[cfg(not(feature = "mt"))]
    fn notified(&self, to: &impl ToSocketId) -> bool {
        let id = to.socket_id();
        let g = lock();
        let node = g.socks[self.idx].node;
        g.notified.contains_key(&(node, id))
    }
    #[cfg(not(feature = "mt"))]
    fn add_interest(&self, to: &impl ToSocketId) -> io::Result<()> {
        let fd = to.as_raw_fd();
        let mut g = lock();
        let node = g.socks[self.idx].node;
        if let Some(s) = g.socks.get_mut(fd as usize) {
            if s.open && s.node == node && s.remote.is_some() {
                s.armed = true;
            }
        }
        Ok(())
    }
}

impl BoundSocket for MockSocket {
    fn recv(&mut self, buff: &mut DataBuffer, wait_for: Option<Duration>) -> io::Result<usize> {
        self.recv_any(buff, wait_for).map(|(n, _)| n)
    }
    fn send(&self, buff: &mut DataBuffer) -> io::Result<usize> {
        let to = lock().socks[self.idx].remote.expect("bound");
        self.send_any(buff, to)
    }
    fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(lock().socks[self.idx].local)
    }
}

impl ToSocketId for MockSocket {
    fn as_raw_fd(&self) -> SocketRawFd {
        self.idx as SocketRawFd
    }
    fn socket_id(&self) -> usize {
        lock().socks[self.idx].id
    }
}

/// A socket not bound to a peer: the listening socket of a server or the socket of a client.
pub fn open_socket(local: SocketAddr, id: usize) -> MockSocket {
    let node = current_node();
    let mut g = lock();
    let idx = g.socks.len();
    g.socks.push(Sock {
        open: true,
        node,
        local,
        remote: None,
        inbox: VecDeque::new(),
        waiting: None,
        reply: None,
        id,
        conn: 0,
        armed: false,
        own_thread: false,
    });
    MockSocket { idx, creator: std::thread::current().id() }
}

pub fn create_socket(local: SocketAddr, id: usize, _reuse: bool, _cap: usize) -> BoxedResult<MockSocket> {
    Ok(open_socket(local, id))
}

pub fn create_bound_socket(listen: SocketAddr, id: usize, peer: SocketAddr) -> BoxedResult<MockSocket> {
    let node = current_node();
    let mut g = lock();
    if g.bind_fail > 0 {
        g.bind_fail -= 1;
        return Err(io::Error::from(io::ErrorKind::AddrInUse).into());
    }
    let mut local = listen;
    if local.port() == 0 {
        g.next_port = if g.next_port < 40000 { 40000 } else { g.next_port + 1 };
        local.set_port(g.next_port);
    }
    g.conns += 1;
    let conn = g.conns;
    let own_thread = cfg!(feature = "mt");
    if own_thread {
        g.running += 1;
    }
    let idx = g.socks.len();
    g.socks.push(Sock {
        open: true,
        node,
        local,
        remote: Some(peer),
        inbox: VecDeque::new(),
        waiting: None,
        reply: None,
        id,
        conn,
        armed: false,
        own_thread,
    });
    g.events.push(Ev::ConnNew { t: now(), conn, peer, local });
    Ok(MockSocket { idx, creator: std::thread::current().id() })
}

/// What the network does with a datagram: one arrival per entry, at these delays, with these bytes.
pub type Route = Vec<(u64, Arc<Vec<u8>>)>;

pub trait Net {
    fn route(&mut self, p: &Pkt) -> Route;
    /// further datagrams the network sends now: (delay, from, to, bytes)
    fn extra(&mut self) -> Vec<(u64, SocketAddr, SocketAddr, Arc<Vec<u8>>)> {
        vec![]
    }
}

/// A peer played by the harness.
pub trait Peer {
    fn addr(&self) -> SocketAddr;
    /// returns datagrams to send, (delay, from, to, bytes)
    fn packet(&mut self, from: SocketAddr, bytes: &[u8], now: u64) -> Vec<(u64, SocketAddr, SocketAddr, Vec<u8>)>;
    fn timer(&mut self, _now: u64) -> Vec<(u64, SocketAddr, SocketAddr, Vec<u8>)> {
        vec![]
    }
    fn next_timer(&self) -> Option<u64> {
        None
    }
}

#[derive(Clone)]
enum Fl {
    Pkt { from: SocketAddr, to: SocketAddr, bytes: Arc<Vec<u8>> },
}

pub struct Sim {
    flights: BTreeMap<(u64, u64), Fl>,
    fseq: u64,
    pub net: Box<dyn Net>,
    pub peers: Vec<Box<dyn Peer>>,
    next_node: NodeId,
    handles: Vec<(NodeId, std::thread::JoinHandle<()>)>,
    pub steps: u64,
    /// packets held for explicit delivery when the net is manual
    pub pool: Vec<Pkt>,
    pub manual: bool,
    start: u64,
    idle: bool,
    /// system sockets that nothing was ever delivered to are not affected
    pub dropped_to_nowhere: u64,
}

impl Sim {
    pub fn new(net: Box<dyn Net>) -> Sim {
        let mut g = lock();
        *g = Inner::default();
        drop(g);
        Sim {
            flights: BTreeMap::new(),
            fseq: 0,
            net,
            peers: vec![],
            next_node: 1,
            handles: vec![],
            steps: 0,
            pool: vec![],
            manual: false,
            start: now(),
            idle: false,
            dropped_to_nowhere: 0,
        }
    }

    pub fn elapsed(&self) -> u64 {
        now() - self.start
    }

    /// Runs `f` as a system node on a thread of its own.
    pub fn spawn(&mut self, f: impl FnOnce() + Send + 'static) -> NodeId {
        let node = self.next_node;
        self.next_node += 1;
        lock().running += 1;
        let h = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                NODE.with(|n| *n.borrow_mut() = node);
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                let mut g = lock();
                g.ended.push(node);
                g.running -= 1;
                shared().cv.notify_all();
            })
            .expect("thread");
        self.handles.push((node, h));
        self.settle();
        node
    }

    fn settle(&mut self) {
        let mut g = lock();
        while g.running > 0 {
            g = match shared().cv.wait(g) {
                Ok(g) => g,
                Err(p) => p.into_inner(),
            };
        }
        let out: Vec<Pkt> = std::mem::take(&mut g.outbox);
        drop(g);
        for p in out {
            if self.manual {
                self.pool.push(p);
                continue;
            }
            for (d, b) in self.net.route(&p) {
                self.inject_at(p.t + d, p.from, p.to, b);
            }
            for (d, f, t, b) in self.net.extra() {
                self.inject_at(p.t + d, f, t, b);
            }
        }
    }

    pub fn ended(&self, node: NodeId) -> bool {
        lock().ended.contains(&node)
    }

    /// puts a datagram on its way
    pub fn inject_at(&mut self, at: u64, from: SocketAddr, to: SocketAddr, bytes: Arc<Vec<u8>>) {
        self.fseq += 1;
        self.flights.insert((at.max(now()), self.fseq), Fl::Pkt { from, to, bytes });
    }

    fn arrive(&mut self, from: SocketAddr, to: SocketAddr, bytes: Arc<Vec<u8>>) {
        if let Some(i) = self.peers.iter().position(|p| p.addr() == to) {
            let out = self.peers[i].packet(from, &bytes, now());
            for (d, f, t, b) in out {
                self.inject_at(now() + d, f, t, Arc::new(b));
            }
            return;
        }
        let mut g = lock();
        // connected sockets first, as the kernel does
        let mut best: Option<usize> = None;
        for (i, s) in g.socks.iter().enumerate() {
            if !s.open || s.local != to {
                continue;
            }
            match s.remote {
                Some(r) if r == from => {
                    best = Some(i);
                    break;
                }
                None if best.is_none() => best = Some(i),
                _ => {}
            }
        }
        let Some(i) = best else {
            drop(g);
            self.dropped_to_nowhere += 1;
            return;
        };
        if g.socks[i].inbox.len() < 100_000 {
            g.socks[i].inbox.push_back((bytes, from));
        }
        drop(g);
        self.serve(i);
    }

    /// hands a queued datagram to a waiting receive (or wakes the single-threaded server's poll)
    fn serve(&mut self, i: usize) {
        let mut g = lock();
        let (own_thread, bound, node, id) = {
            let s = &g.socks[i];
            (s.own_thread, s.remote.is_some(), s.node, s.id)
        };
        if bound && !own_thread {
            if !g.socks[i].armed {
                return;
            }
            let Some(main) = g.socks.iter().position(|s| s.open && s.node == node && s.remote.is_none()) else {
                return;
            };
            if g.socks[main].waiting.is_none() {
                return;
            }
            g.socks[i].armed = false;
            g.notified.insert((node, id), ());
            Self::poll_ready(&mut g, node);
            g.socks[main].waiting = None;
            let r = match g.socks[main].inbox.pop_front() {
                Some((b, f)) => Reply::Msg(b, f),
                None => Reply::WouldBlock,
            };
            g.socks[main].reply = Some(r);
        } else {
            if g.socks[i].waiting.is_none() {
                return;
            }
            let Some((b, f)) = g.socks[i].inbox.pop_front() else {
                return;
            };
            if !bound {
                Self::poll_ready(&mut g, node);
            }
            g.socks[i].waiting = None;
            g.socks[i].reply = Some(Reply::Msg(b, f));
        }
        g.running += 1;
        shared().cv.notify_all();
        drop(g);
        self.settle();
    }

    fn poll_ready(g: &mut Inner, node: NodeId) {
        let ready: Vec<usize> = g
            .socks
            .iter()
            .enumerate()
            .filter(|(_, s)| s.open && s.node == node && s.armed && !s.inbox.is_empty())
            .map(|(i, _)| i)
            .collect();
        for i in ready {
            g.socks[i].armed = false;
            let id = g.socks[i].id;
            g.notified.insert((node, id), ());
        }
    }

    /// Hands packet `i` of the pool to its destination (and leaves a copy there when `keep`).
    pub fn deliver_pool(&mut self, i: usize, keep: bool) {
        let p = if keep { self.pool[i].clone() } else { self.pool.remove(i) };
        self.arrive(p.from, p.to, p.bytes);
    }

    /// One event. Returns false when nothing can ever happen again.
    pub fn step(&mut self) -> bool {
        self.steps += 1;
        // a receive that can be served from its queue at once
        let ready = {
            let g = lock();
            g.socks
                .iter()
                .position(|s| {
                    s.open
                        && !s.inbox.is_empty()
                        && (s.waiting.is_some()
                            || (s.armed
                                && s.remote.is_some()
                                && !s.own_thread
                                && g.socks.iter().any(|m| m.open && m.node == s.node && m.remote.is_none() && m.waiting.is_some())))
                })
        };
        if let Some(i) = ready {
            self.serve(i);
            return true;
        }
        let flight = self.flights.keys().next().copied();
        let timer = {
            let g = lock();
            g.socks
                .iter()
                .enumerate()
                .filter(|(_, s)| s.waiting.is_some())
                .map(|(i, s)| (s.waiting.unwrap(), i))
                .min()
        };
        let peer = self
            .peers
            .iter()
            .enumerate()
            .filter_map(|(i, p)| p.next_timer().map(|t| (t, i)))
            .min();
        let tf = flight.map(|f| f.0).unwrap_or(u64::MAX);
        let tt = timer.map(|t| t.0).unwrap_or(u64::MAX);
        let tp = peer.map(|t| t.0).unwrap_or(u64::MAX);
        let t = tf.min(tt).min(tp);
        if t == u64::MAX {
            return false;
        }
        if t > now() {
            NOW.store(t, Ordering::SeqCst);
        }
        if tf == t {
            let f = self.flights.remove(&flight.unwrap()).unwrap();
            match f {
                Fl::Pkt { from, to, bytes } => self.arrive(from, to, bytes),
            }
        } else if tp == t {
            let i = peer.unwrap().1;
            let out = self.peers[i].timer(now());
            for (d, f, t, b) in out {
                self.inject_at(now() + d, f, t, Arc::new(b));
            }
        } else {
            let i = timer.unwrap().1;
            let mut g = lock();
            g.socks[i].waiting = None;
            g.socks[i].reply = Some(Reply::WouldBlock);
            g.running += 1;
            shared().cv.notify_all();
            drop(g);
            self.settle();
        }
        true
    }

    /// Runs until the virtual time `ns` from now has passed.
    pub fn run_for(&mut self, ns: u64) {
        let end = now() + ns;
        while self.next_time() <= end {
            if !self.step() {
                break;
            }
        }
        if now() < end {
            NOW.store(end, Ordering::SeqCst);
        }
    }

    pub fn set_next_node(&mut self, n: NodeId) {
        self.next_node = n;
    }

    pub fn next_time(&self) -> u64 {
        let f = self.flights.keys().next().map(|k| k.0).unwrap_or(u64::MAX);
        let g = lock();
        let mut t = f;
        for s in g.socks.iter() {
            if let Some(w) = s.waiting {
                t = t.min(w);
            }
            if s.open && !s.inbox.is_empty() && s.waiting.is_some() {
                t = t.min(now());
            }
        }
        drop(g);
        for p in &self.peers {
            if let Some(x) = p.next_timer() {
                t = t.min(x);
            }
        }
        t
    }

    /// Runs until all of `nodes` ended or `limit` ns of virtual time or `steps` events passed.
    pub fn run_until(&mut self, nodes: &[NodeId], limit: u64, steps: u64) -> bool {
        let end = now() + limit;
        let mut n = 0;
        loop {
            if nodes.iter().all(|x| self.ended(*x)) {
                return true;
            }
            if n < steps && (self.next_time() > end || !self.step()) {
                self.idle = true;
                return nodes.iter().all(|x| self.ended(*x));
            }
            if n >= steps {
                return nodes.iter().all(|x| self.ended(*x));
            }
            n += 1;
        }
    }

    /// As run_until, and gives up when the nodes exchange packets without end and store nothing.
    pub fn run_until_stuck(&mut self, nodes: &[NodeId], limit: u64, steps: u64) -> bool {
        let end = now() + limit;
        let (mut seen, mut mark, mut n) = (0, 0, 0);
        while n < steps && now() < end {
            n += 5_000;
            if self.run_until(nodes, end.saturating_sub(now()), 5_000) {
                return true;
            }
            let g = lock();
            if g.events[seen..].iter().any(|e| matches!(e, Ev::Wr { .. })) {
                mark = g.events.len();
            }
            seen = g.events.len();
            if seen - mark > 60_000 || self.idle {
                return false;
            }
        }
        false
    }

    /// how many transfer sockets are open
    pub fn open_conns(&self) -> usize {
        lock().socks.iter().filter(|s| s.open && s.conn > 0).count()
    }

    pub fn fail_sends(&self, node: NodeId, n: u32) {
        lock().send_fail.insert(node, n);
    }

    pub fn fail_binds(&self, n: u32) {
        lock().bind_fail = n;
    }

    pub fn event_count(&self) -> usize {
        lock().events.len()
    }

    /// Ends every node and returns the recorded history.
    pub fn finish(mut self) -> Vec<Ev> {
        let events = {
            let mut g = lock();
            g.stop = true;
            std::mem::take(&mut g.events)
        };
        loop {
            let mut g = lock();
            let mut woke = false;
            for s in g.socks.iter_mut() {
                if s.waiting.take().is_some() {
                    s.reply = Some(Reply::Fail);
                    woke = true;
                    break;
                }
            }
            if woke {
                g.running += 1;
                shared().cv.notify_all();
            }
            drop(g);
            if !woke {
                break;
            }
            let mut g = lock();
            while g.running > 0 {
                g = match shared().cv.wait(g) {
                    Ok(g) => g,
                    Err(p) => p.into_inner(),
                };
            }
            g.outbox.clear();
        }
        for (_, h) in self.handles.drain(..) {
            let _ = h.join();
        }
        events
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}").replace('\n', " ");
        let node = current_node();
        if node == 0 && std::env::var("VH_QUIET").is_err() {
            eprintln!("harness panic: {msg}");
        }
        // the panicking thread may hold no lock of ours: nothing of ours runs under the code's frames
        record(Ev::Panic { t: now(), node, msg });
    }));
}

/// Aborts the process when the code under test stops making progress (an endless loop).
pub fn start_watchdog(limit_s: u64, on_hang: fn()) {
    std::thread::spawn(move || {
        let mut last = PROGRESS.load(Ordering::Relaxed);
        let mut still = 0;
        loop {
            let ts = libc::timespec { tv_sec: 1, tv_nsec: 0 };
            unsafe { libc::syscall(libc::SYS_nanosleep, &ts, std::ptr::null_mut::<libc::timespec>()) };
            let p = PROGRESS.load(Ordering::Relaxed);
            if p == last {
                still += 1;
                if still >= limit_s {
                    on_hang();
                }
            } else {
                still = 0;
                last = p;
            }
        }
    });
}

pub fn events_snapshot() -> Vec<Ev> {
    match shared().m.try_lock() {
        Ok(g) => g.events.clone(),
        Err(_) => vec![],
    }
}

/// One event in words, for people.
pub fn describe(e: &Ev, base: u64, o: &mut crate::wire::Oracle) -> String {
    let ms = |t: &u64| (*t - base) as f64 / 1e6;
    match e {
        Ev::Tx { t, node, conn, from, to, bytes } => {
            let (f, p, _) = o.read(bytes);
            format!("{:10.3} tx  node {node} conn {conn} {from} -> {to} {} {}", ms(t), f.name(), packet(&p))
        }
        Ev::Rx { t, node, conn, from, bytes } => {
            let (f, p, _) = o.read(bytes);
            format!("{:10.3} rx  node {node} conn {conn} from {from} {} {}", ms(t), f.name(), packet(&p))
        }
        Ev::Wr { t, node, off, bytes, .. } => format!("{:10.3} wr  node {node} at {off} {} bytes", ms(t), bytes.len()),
        Ev::Done { t, node, ok, total, err, .. } => format!("{:10.3} done node {node} ok {ok} total {total} {err}", ms(t)),
        Ev::Open { t, node, mode, path, ok, .. } => format!("{:10.3} open node {node} {mode} {path} {ok}", ms(t)),
        other => format!("{other:?}"),
    }
}

fn packet(p: &[u8]) -> String {
    match crate::wire::parse(p) {
        crate::wire::P::Data { blk, payload } => format!("DATA {blk} ({})", payload.len()),
        x => format!("{x:?}"),
    }
}
