//! The real program sends a file while it is still written (sync --start-on-create), or a pipe.  Every
//! read of the program is held until the harness lets it go on, so that the writer's steps fall where a
//! stimulus of the specification (GrowGen) wants them.
use std::collections::{HashMap, HashSet};
use std::fs;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::PathBuf;
use std::process::{Child, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::rest;
use crate::rest::program::{exited, grant, Peer};
use crate::rng::Rnd;
use crate::served::{command, scratch, UID};
use crate::store::content;
use crate::wire::{self, P};

const KEY: [u8; 32] = [0x35; 32];

type Log = Arc<Mutex<Vec<String>>>;

fn log(l: &Log, s: String) {
    l.lock().unwrap().push(s);
}

struct Writer {
    path: PathBuf,
    file: Option<fs::File>,
    plain: Vec<u8>,
    at: usize,
    /// what is left to do: (append, up to this byte; none: close) and when
    todo: Vec<(Option<usize>, char)>,
    log: Log,
}

impl Writer {
    fn step(&mut self) {
        let (what, _) = self.todo.remove(0);
        match what {
            Some(to) => {
                let part = self.plain[self.at..to].to_vec();
                log(&self.log, format!("{{\"e\":\"ap\",\"l\":{}}}", part.len()));
                if self.file.as_mut().is_some_and(|f| f.write_all(&part).is_err()) {
                    // nobody reads any more
                    self.file = None;
                    self.todo.clear();
                }
                self.at = to;
            }
            None => {
                log(&self.log, "{\"e\":\"cl\"}".into());
                self.file = None;
            }
        }
    }

    /// does all that is due at once
    fn now(&mut self) -> bool {
        let mut closed = false;
        while self.todo.first().map(|x| x.1) == Some('0') {
            closed |= self.todo[0].0.is_none();
            self.step();
        }
        closed
    }
}

struct Sender {
    child: Child,
    peer: Peer,
    dir: PathBuf,
    conn: Option<(UnixStream, BufReader<UnixStream>)>,
    listen: UnixListener,
}

pub struct World {
    base: PathBuf,
    senders: HashMap<String, Sender>,
    /// the nonces of all streams so far
    nonces: HashSet<Vec<u8>>,
}

fn tokens(line: &str) -> Vec<String> {
    line.split(|c: char| c.is_whitespace() || c == '"').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
}

fn owned(p: &PathBuf) {
    std::os::unix::fs::lchown(p, Some(UID), Some(UID)).unwrap();
}

/// the sizes of the appends and the bytes of the file
fn plan(t: &[String], b: usize, first: usize, r: &mut Rnd, seed: u64) -> (Vec<u8>, Vec<(Option<usize>, char)>) {
    let mut at = 0;
    let mut todo = vec![];
    let mut t = t.to_vec();
    let close = t.iter().rposition(|x| x == "c").map(|k| {
        // "c" and its gap are separate words
        let g = t.get(k + 1).cloned().unwrap_or("0".into());
        t.truncate(k);
        g
    });
    for x in &t {
        // the first block holds less when the stream is encrypted
        let edge = if at < first { first - at } else { b - (at - first) % b };
        at += match &x[..1] {
            "p" => 1 + r.below(b as u64 - 1) as usize,
            "b" => b,
            "x" => b + 1 + r.below(2 * b as u64) as usize,
            _ => edge,
        };
        todo.push((Some(at), x.chars().last().unwrap()));
    }
    todo.push((None, close.unwrap_or("0".into()).chars().next().unwrap()));
    (content(seed, at), todo)
}

struct Got {
    from: Option<std::net::SocketAddr>,
    next: u16,
    since: usize,
    b: usize,
    win: usize,
    at: usize,
    nonce: Vec<u8>,
    ended: bool,
}

impl Got {
    fn new() -> Got {
        Got { from: None, next: 1, since: 0, b: 512, win: 1, at: 0, nonce: vec![], ended: false }
    }

    /// one packet of the program; what it brings is logged
    fn packet(&mut self, p: &Peer, a: std::net::SocketAddr, bytes: &[u8], name: &str, key: bool, plain: &[u8], l: &Log) {
        match wire::parse(bytes) {
            P::Wrq { file, opts, .. } if self.from.is_none() && file == name => {
                let (b, w, keep) = grant(&opts);
                self.b = b;
                self.win = w;
                self.from = Some(a);
                p.send(a, &if keep.is_empty() { P::Ack { blk: 0 } } else { P::Oack { opts: keep } });
            }
            P::Data { blk, payload } if Some(a) == self.from => {
                if blk != self.next {
                    p.send(a, &P::Ack { blk: self.next.wrapping_sub(1) });
                    self.since = 0;
                    return;
                }
                let k = (self.next - 1) as usize;
                let short = payload.len() < self.b;
                let bytes = if key {
                    if k == 0 {
                        self.nonce = payload.get(2..rest::HEADER).unwrap_or_default().to_vec();
                    }
                    let body = if k == 0 { payload.get(rest::HEADER..).unwrap_or_default() } else { &payload[..] };
                    if self.nonce.len() == 19 { rest::open(&KEY, &self.nonce, k, short, body) } else { None }
                } else {
                    Some(payload.clone())
                };
                let n = bytes.as_ref().map(|x| x.len()).unwrap_or(0);
                let m = bytes.is_some_and(|x| plain.get(self.at..self.at + x.len()) == Some(&x[..]));
                log(l, format!("{{\"e\":\"da\",\"l\":{n},\"m\":{},\"f\":{}}}", m as u8, short as u8));
                self.at += n;
                self.next = self.next.wrapping_add(1);
                self.since += 1;
                self.ended |= short;
                if self.since >= self.win || short {
                    p.send(a, &P::Ack { blk });
                    self.since = 0;
                }
            }
            _ => {}
        }
    }
}

impl World {
    pub fn new() -> World {
        let base = scratch();
        World { base, senders: HashMap::new(), nonces: HashSet::new() }
    }

    fn sender(&mut self, win: &str, key: bool, b: usize, early: bool) -> &mut Sender {
        let id = format!("g{win}{}{b}{}", key as u8, early as u8);
        let base = self.base.clone();
        if self.senders.get_mut(&id).is_some_and(|s| exited(&mut s.child).is_some()) {
            self.senders.remove(&id);
        }
        self.senders.entry(id.clone()).or_insert_with(|| {
            let dir = base.join(&id);
            let _ = fs::create_dir_all(&dir);
            fs::set_permissions(&dir, fs::Permissions::from_mode(0o755)).unwrap();
            owned(&dir);
            let sub = dir.join("sub");
            let _ = fs::create_dir_all(&sub);
            fs::set_permissions(&sub, fs::Permissions::from_mode(0o755)).unwrap();
            owned(&sub);
            let shim = base.join("shim.so");
            if !shim.exists() {
                fs::copy(std::env::var("SHIM").expect("SHIM"), &shim).expect("shim");
                fs::set_permissions(&shim, fs::Permissions::from_mode(0o755)).unwrap();
            }
            let sock = base.join(format!("{id}.sock"));
            let _ = fs::remove_file(&sock);
            let listen = UnixListener::bind(&sock).unwrap();
            fs::set_permissions(&sock, fs::Permissions::from_mode(0o777)).unwrap();
            listen.set_nonblocking(true).unwrap();
            let peer = Peer::new();
            let mut c = command(&base);
            c.env("LD_PRELOAD", &shim).env("SHIM_SOCK", &sock).env("SHIM_DIR", &dir).stderr(Stdio::piped());
            c.args(["-v", "info", "sync", &peer.addr.to_string(), dir.to_str().unwrap()]);
            if early {
                c.args(["--start-on-create", "--block-duration", "1"]);
            }
            c.args(["--encryption-level", "none", "--request-timeout", "8000", "--retry-timeout", "80"]);
            c.args(["--window-size", win, "--block-size", &b.to_string()]);
            if key {
                use base64::engine::{general_purpose::STANDARD, Engine};
                c.args(["--encryption-key", &STANDARD.encode(KEY)]);
            }
            let mut child = c.spawn().expect("sync");
            // it says when it watches
            let err = child.stderr.take().unwrap();
            let seen = Arc::new(Mutex::new(false));
            let s2 = seen.clone();
            std::thread::spawn(move || {
                for l in BufReader::new(err).lines() {
                    match l {
                        Ok(l) if l.contains("Watching") => *s2.lock().unwrap() = true,
                        Ok(_) => {}
                        Err(_) => break,
                    }
                }
            });
            let end = Instant::now() + Duration::from_secs(30);
            while Instant::now() < end && !*seen.lock().unwrap() {
                std::thread::sleep(Duration::from_millis(5));
            }
            std::thread::sleep(Duration::from_millis(20));
            Sender { child, peer, dir, conn: None, listen }
        })
    }

    pub fn case(&mut self, suite: &str, line: &str, seed: u64, i: u64) -> String {
        let mut r = Rnd(seed.wrapping_mul(1_400_017).wrapping_add(i));
        let t = tokens(line);
        let key = suite == "growkeys" || r.chance(25);
        let b = 512;
        // some of the programs wait for the close
        let early = !r.chance(15);
        let (first, size) = if key { (b - 37, b - 16) } else { (b, b) };
        let (plain, mut todo) = plan(&t[1..], size, first, &mut r, seed.wrapping_mul(77).wrapping_add(i));
        let name = format!("f{i}");
        let s = self.sender(&t[0], key, b, early);
        let l: Log = Default::default();
        let path = s.dir.join(&name);
        // another file of this name, in a directory of its own, that is closed after this one
        let beside = r.chance(30);
        let other_name = format!("sub/{name}");
        let other_plain = content(seed + 5, r.below(1200) as usize);
        let l2: Log = Default::default();
        let mut other = Writer { path: s.dir.join(&other_name), file: None, plain: other_plain.clone(), at: 0,
            todo: vec![(Some(other_plain.len() / 2), '0'), (Some(other_plain.len()), '0'), (None, '0')], log: l2.clone() };
        let mut other_got = Got::new();
        if beside {
            other.file = Some(fs::File::create(&other.path).unwrap());
            other.step();
        }
        if !early {
            todo.iter_mut().for_each(|x| x.1 = '0');
        }
        let mut w = Writer { path: path.clone(), file: None, plain: plain.clone(), at: 0, todo, log: l.clone() };
        let (mut reads, mut last) = (0usize, Instant::now());
        w.file = Some(fs::File::create(&path).unwrap());
        w.now();
        let mut got = Got::new();
        let deadline = Instant::now() + Duration::from_secs(10);
        let mut held: Vec<String> = vec![];
        s.peer.sock.set_nonblocking(true).unwrap();
        let mut quiet_since = None;
        while Instant::now() < deadline {
            let mut busy = false;
            // packets
            let mut buf = [0; 2000];
            while let Ok((n, a)) = s.peer.sock.recv_from(&mut buf) {
                busy = true;
                got.packet(&s.peer, a, &buf[..n], &name, key, &plain, &l);
                if beside {
                    other_got.packet(&s.peer, a, &buf[..n], &other_name, key, &other_plain, &l2);
                }
            }
            // reads of the program
            if s.conn.is_none() {
                if let Ok((c, _)) = s.listen.accept() {
                    c.set_nonblocking(true).unwrap();
                    s.conn = Some((c.try_clone().unwrap(), BufReader::new(c)));
                }
            }
            if let Some((c, rd)) = s.conn.as_mut() {
                let mut m = String::new();
                match rd.read_line(&mut m) {
                    Ok(n) if n > 0 => held.push(m),
                    _ => {}
                }
                for m in held.drain(..) {
                    busy = true;
                    let f: Vec<&str> = m.split_whitespace().collect();
                    if f.len() == 3 && f[2] == name {
                        if f[0] == "a" {
                            reads += 1;
                            last = Instant::now();
                            log(&l, format!("{{\"e\":\"rd\",\"l\":{}}}", f[1]));
                            if w.todo.first().is_some_and(|x| x.1 == 'm') {
                                let mut closed = w.todo[0].0.is_none();
                                w.step();
                                closed |= w.now();
                                if closed {
                                    // the program learns of the close before it knows what it has read
                                    std::thread::sleep(Duration::from_millis(20));
                                }
                            }
                        } else if reads > 0 && w.todo.first().is_some_and(|x| x.1 == '1') {
                            // the read before this one is over
                            w.step();
                            let closed = w.now();
                            if closed && r.chance(50) {
                                std::thread::sleep(Duration::from_millis(20));
                            }
                            reads = 0;
                        }
                    }
                    let _ = c.write_all(b"g");
                }
            }
            if !w.todo.is_empty() && last.elapsed() > Duration::from_millis(1200) {
                // no read comes any more
                w.step();
                w.now();
                last = Instant::now();
            }
            if got.ended && w.todo.is_empty() {
                // a repeated last block, or more
                let q = *quiet_since.get_or_insert(Instant::now());
                if q.elapsed() > Duration::from_millis(3) {
                    if !beside {
                        break;
                    }
                    other.now();
                    if other_got.ended && q.elapsed() > Duration::from_millis(8) {
                        break;
                    }
                }
            }
            if exited(&mut s.child).is_some() {
                log(&l, "{\"e\":\"quit\",\"k\":0}".into());
                break;
            }
            if !busy {
                std::thread::sleep(Duration::from_micros(300));
            }
        }
        // whatever is left of this file must not hold the program
        if !got.ended || !w.todo.is_empty() || (beside && !other_got.ended) {
            self.senders.retain(|_, s| {
                let _ = s.child.kill();
                let _ = s.child.wait();
                false
            });
        }
        let _ = fs::remove_file(&w.path);
        for (g, l) in [(&got, &l), (&other_got, &l2)] {
            if !g.nonce.is_empty() && !self.nonces.insert(g.nonce.clone()) {
                log(l, "{\"e\":\"again\"}".into());
            }
        }
        log(&l, "{\"e\":\"end\"}".into());
        let show = |l: &Log| format!("{{\"id\":\"{suite}-{seed}-{i}\",\"key\":{},\"ev\":[{}]}}", key as u8, l.lock().unwrap().join(","));
        let mut out = show(&l);
        if beside {
            let _ = fs::remove_file(&other.path);
            log(&l2, "{\"e\":\"end\"}".into());
            out = format!("{out}\n{}", show(&l2));
        }
        out
    }

    /// the same appends, through a pipe that `send` reads
    pub fn pipe(&mut self, suite: &str, line: &str, seed: u64, i: u64) -> String {
        let mut r = Rnd(seed.wrapping_mul(1_400_023).wrapping_add(i));
        let t = tokens(line);
        let key = r.chance(25);
        let b = *r.pick(&[512, 512, 700, 1425]);
        let (first, size) = if key { (b - 37, b - 16) } else { (b, b) };
        let (plain, todo) = plan(&t[1..], size, first, &mut r, seed.wrapping_mul(77).wrapping_add(i));
        let path = self.base.join("pipe");
        let _ = fs::remove_file(&path);
        let c = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
        unsafe {
            libc::mkfifo(c.as_ptr(), 0o644);
        }
        owned(&path);
        let l: Log = Default::default();
        let peer = Peer::new();
        let mut c = command(&self.base);
        c.args(["send", &peer.addr.to_string(), "pipe", "--remote-path", "f"]);
        c.args(["--encryption-level", "none", "--request-timeout", "4000", "--retry-timeout", "80"]);
        c.args(["--window-size", &t[0], "--block-size", &b.to_string()]);
        if key {
            use base64::engine::{general_purpose::STANDARD, Engine};
            c.args(["--encryption-key", &STANDARD.encode(KEY)]);
        }
        let mut child = c.spawn().expect("send");
        let (l2, plain2) = (l.clone(), plain.clone());
        let pauses = (1 + r.below(4), 8 + r.below(20));
        let writer = std::thread::spawn(move || {
            // waits until the program opens the pipe
            let end = Instant::now() + Duration::from_secs(5);
            let file = loop {
                use std::os::unix::fs::OpenOptionsExt;
                match fs::OpenOptions::new().write(true).custom_flags(libc::O_NONBLOCK).open(&path) {
                    Ok(f) => break Some(f),
                    Err(_) if Instant::now() > end => break None,
                    Err(_) => std::thread::sleep(Duration::from_millis(1)),
                }
            };
            let mut w = Writer { path, file, plain: plain2, at: 0, todo, log: l2 };
            while let Some(x) = w.todo.first() {
                std::thread::sleep(Duration::from_millis(match x.1 {
                    '0' => 0,
                    'm' => pauses.0,
                    _ => pauses.1,
                }));
                w.step();
            }
        });
        let mut got = Got::new();
        let deadline = Instant::now() + Duration::from_secs(8);
        let mut over = None;
        while Instant::now() < deadline && over.is_none() {
            match peer.recv(10) {
                Some((a, x)) => got.packet(&peer, a, &x, "f", key, &plain, &l),
                None => over = exited(&mut child),
            }
        }
        if over.is_none() {
            let _ = child.kill();
        }
        let _ = child.wait();
        writer.join().unwrap();
        log(&l, format!("{{\"e\":\"quit\",\"k\":{}}}", over.unwrap_or(false) as u8));
        let ev = l.lock().unwrap().join(",");
        format!("{{\"id\":\"{suite}-{seed}-{i}\",\"key\":{},\"ev\":[{ev}]}}", key as u8)
    }
}

impl Drop for Sender {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        if let Some((c, _)) = self.conn.as_mut() {
            let _ = c.read(&mut [0; 10]);
        }
    }
}
