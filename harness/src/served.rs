//! The real server program, run as an unprivileged user in a scratch directory of its own, and what
//! its requests do to the files in it and around it.  Requests come from the specification (ServedGen).
use std::collections::BTreeMap;
use std::fs;
use std::io::Write as _;
use std::net::{SocketAddr, UdpSocket};
use std::os::unix::fs::{lchown, symlink, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use crate::json::{esc, hex};
use crate::wire::{self, P};

pub const UID: u32 = 65534;

/// what a token of the specification stands for in a file name
fn token(t: &str) -> String {
    match t {
        "EMPTY" => "".into(),
        "SP" => " ".into(),
        "SPDD" => " ..".into(),
        "DDSP" => ".. ".into(),
        "BSL" => "..\\out".into(),
        "UML" => "\u{fc}\u{e4}".into(),
        _ if t.starts_with("LONG") => "n".repeat(t[4..].parse().unwrap()),
        _ => t.into(),
    }
}

fn untoken(s: &str) -> String {
    if s.len() > 20 && s.bytes().all(|b| b == b'n') {
        return format!("LONG{}", s.len());
    }
    for t in ["SP", "SPDD", "DDSP", "BSL", "UML"] {
        if token(t) == s {
            return t.into();
        }
    }
    s.into()
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Node {
    Dir,
    File(Vec<u8>),
    Link(String),
}

type Tree = BTreeMap<Vec<String>, Node>;

fn scan(root: &Path, at: &mut Vec<String>, out: &mut Tree) {
    let Ok(d) = fs::read_dir(root) else { return };
    for e in d.flatten() {
        at.push(e.file_name().to_string_lossy().to_string());
        let p = e.path();
        if let Ok(m) = fs::symlink_metadata(&p) {
            if m.file_type().is_symlink() {
                out.insert(at.clone(), Node::Link(fs::read_link(&p).unwrap().to_string_lossy().to_string()));
            } else if m.is_dir() {
                out.insert(at.clone(), Node::Dir);
                scan(&p, at, out);
            } else {
                out.insert(at.clone(), Node::File(fs::read(&p).unwrap_or_default()));
            }
        }
        at.pop();
    }
}

fn content(name: &str, n: usize) -> Vec<u8> {
    let mut v = format!("<{name}>").into_bytes();
    let mut x = n as u64 + 77;
    while v.len() < n {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.push((x >> 33) as u8);
    }
    v
}

/// (path, what) under the root; "d", a file size, or a link target ("/" at its start: from the root)
const LAYOUT: &[(&str, &str)] = &[
    ("srv", "d"),
    ("srv/a", "40"),
    ("srv/b", "1300"),
    ("srv/list", "33"),
    ("srv/sub", "d"),
    ("srv/sub/x", "512"),
    ("srv/sub/list", "20"),
    ("srv/sub/empty", "d"),
    ("srv/sub/deep", "d"),
    ("srv/sub/deep/y", "30"),
    ("srv/sub/deep/er", "d"),
    ("srv/sub/deep/er/w", "31"),
    ("srv/up", ">.."),
    ("srv/self", ">self"),
    ("srv/lin", ">sub/x"),
    ("srv/lout", ">../out/secret"),
    ("srv/labs", ">/out/secret"),
    ("srv/dout", ">../out"),
    ("srv/din", ">sub"),
    ("srv/dpre", ">../srv2"),
    ("srv/sub/upout", ">../../out"),
    ("srv/ldang", ">../out/new"),
    ("srv/ldin", ">sub/new"),
    ("srv/ddang", ">../out/newdir"),
    ("srv/two", ">din/deep"),
    ("srvl", ">srv"),
    ("out", "d"),
    ("out/secret", "60"),
    ("out/a", "50"),
    ("out/od", "d"),
    ("out/od/z", "45"),
    ("srv2", "d"),
    ("srv2/s", "47"),
    ("secret", "49"),
];

fn owned(p: &Path) {
    lchown(p, Some(UID), Some(UID)).expect("chown");
}

fn make(root: &Path, big: bool) {
    fs::create_dir_all(root).unwrap();
    owned(root);
    for (p, what) in LAYOUT {
        let at = root.join(p);
        if *what == "d" {
            fs::create_dir(&at).unwrap();
        } else if let Some(t) = what.strip_prefix('>') {
            let t = match t.strip_prefix('/') {
                Some(r) => root.join(r),
                None => PathBuf::from(t),
            };
            symlink(t, &at).unwrap();
        } else {
            fs::write(&at, content(p, what.parse().unwrap())).unwrap();
        }
        owned(&at);
    }
    if big {
        let d = root.join("srv/many");
        fs::create_dir(&d).unwrap();
        owned(&d);
        for k in 0..90 {
            let f = d.join(format!("entry-{k:03}"));
            if k % 7 == 0 {
                fs::create_dir(&f).unwrap();
            } else {
                fs::write(&f, b"").unwrap();
            }
            owned(&f);
        }
    }
}

pub struct Program {
    child: Child,
    pub addr: SocketAddr,
}

impl Drop for Program {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Program {
    pub fn alive(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }
}

/// the program as an unprivileged user; it ends with this process
pub fn command(cwd: &Path) -> Command {
    let mut c = Command::new(cwd.join("tftp-program"));
    c.current_dir(cwd).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).env_clear().uid(UID).gid(UID);
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c
}

/// a scratch directory with a copy of the program in it
pub fn scratch() -> PathBuf {
    let d = PathBuf::from(std::env::var("SCRATCH").expect("SCRATCH"));
    fs::create_dir_all(&d).unwrap();
    fs::set_permissions(&d, fs::Permissions::from_mode(0o755)).unwrap();
    owned(&d);
    let b = d.join("tftp-program");
    if !b.exists() {
        fs::copy(std::env::var("TFTPBIN").expect("TFTPBIN"), &b).expect("program");
        fs::set_permissions(&b, fs::Permissions::from_mode(0o755)).unwrap();
    }
    d
}

/// the build without heap has fixed sizes
pub fn kind_stack() -> bool {
    std::env::var("TFTPKIND").is_ok_and(|k| k == "bstack")
}

/// an address of the loopback network which no other process of the harness uses
pub fn own_ip() -> String {
    let p = std::process::id();
    format!("127.{}.{}.{}", 64 + (p >> 16) % 128, (p >> 8) & 255, 1 + (p & 255) % 250)
}

pub fn start_server(cwd: &Path, dir: &str, args: &[String]) -> Program {
    use std::sync::atomic::{AtomicU16, Ordering};
    static PORT: AtomicU16 = AtomicU16::new(7000);
    let ip = own_ip();
    for _ in 0..20 {
        let addr: SocketAddr = format!("{ip}:{}", PORT.fetch_add(1, Ordering::Relaxed)).parse().unwrap();
        let child = command(cwd).arg("-v").arg("error").arg("server").arg(addr.to_string()).arg(dir).args(args).spawn().expect("server");
        let mut p = Program { child, addr };
        for k in 0..200u32 {
            let s = UdpSocket::bind(format!("{ip}:0")).unwrap();
            s.set_read_timeout(Some(Duration::from_millis(20 + 5 * k as u64))).unwrap();
            let _ = s.send_to(&wire::build(&P::Rrq { file: "no/such/file/here".into(), mode: "octet".into(), opts: vec![] }), addr);
            let mut b = [0; 2000];
            if s.recv_from(&mut b).is_ok() {
                return p;
            }
            if !p.alive() {
                break;
            }
        }
    }
    panic!("the server does not start");
}

#[derive(Debug, Clone)]
pub enum Out {
    Data(Vec<u8>),
    Stored,
    Refused(u16),
    Nothing,
    Broken(String),
}

const WAIT: Duration = Duration::from_secs(8);

pub struct Peer {
    s: UdpSocket,
    to: SocketAddr,
}

impl Peer {
    pub fn new(server: SocketAddr) -> Self {
        let s = UdpSocket::bind(format!("{}:0", own_ip())).unwrap();
        Peer { s, to: server }
    }
    pub fn send(&self, p: &P) {
        let _ = self.s.send_to(&wire::build(p), self.to);
    }
    pub fn recv(&mut self, wait: Duration) -> Option<P> {
        self.s.set_read_timeout(Some(wait)).unwrap();
        let mut b = vec![0; 70000];
        match self.s.recv_from(&mut b) {
            Ok((n, from)) => {
                self.to = from;
                Some(wire::parse(&b[..n]))
            }
            Err(_) => None,
        }
    }
}

/// the first answer; a server whose places are taken for a moment ignores requests
fn ask(p: &mut Peer, request: &P) -> Option<P> {
    // names that do not fit are ignored by the build without heap
    let long = matches!(request, P::Rrq { file, .. } | P::Wrq { file, .. } if file.len() > 149);
    for _ in 0..if long { 2 } else { 6 } {
        p.send(request);
        if let Some(x) = p.recv(Duration::from_millis(1500)) {
            return Some(x);
        }
    }
    None
}

pub fn read(server: SocketAddr, name: &str, opts: &[(&str, &str)]) -> Out {
    let mut p = Peer::new(server);
    let request = P::Rrq { file: name.into(), mode: "octet".into(), opts: opts.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() };
    let mut first = ask(&mut p, &request);
    if first.is_none() {
        return Out::Nothing;
    }
    let (mut data, mut next, mut bs) = (vec![], 1u16, 512);
    let end = Instant::now() + WAIT;
    while Instant::now() < end {
        match first.take().or_else(|| p.recv(WAIT)) {
            None => return Out::Broken("stopped".into()),
            Some(P::Oack { opts }) => {
                bs = opts.iter().find(|o| o.0 == "blksize").map(|o| o.1.parse().unwrap_or(512)).unwrap_or(512);
                p.send(&P::Ack { blk: 0 });
            }
            Some(P::Data { blk, payload }) => {
                if blk == next {
                    data.extend_from_slice(&payload);
                    next = next.wrapping_add(1);
                    p.send(&P::Ack { blk });
                    if payload.len() < bs {
                        return Out::Data(data);
                    }
                } else {
                    p.send(&P::Ack { blk: next.wrapping_sub(1) });
                }
            }
            Some(P::Err { code, .. }) => return Out::Refused(code),
            Some(x) => return Out::Broken(format!("{x:?}")),
        }
    }
    Out::Broken("endless".into())
}

/// the first answer to an upload request: accepted or not
pub fn ask_write(server: SocketAddr, name: &str, opts: &[(&str, &str)]) -> (Peer, Option<P>) {
    let mut p = Peer::new(server);
    let request = P::Wrq { file: name.into(), mode: "octet".into(), opts: opts.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() };
    let a = ask(&mut p, &request);
    (p, a)
}

pub fn finish_write(mut p: Peer, first: Option<P>, bytes: &[u8]) -> Out {
    match first {
        None => return Out::Nothing,
        Some(P::Err { code, .. }) => return Out::Refused(code),
        Some(P::Ack { blk: 0 }) | Some(P::Oack { .. }) => {}
        Some(x) => return Out::Broken(format!("{x:?}")),
    }
    let n = bytes.len() / 512 + 1;
    for k in 1..=n {
        let part = &bytes[(k - 1) * 512..bytes.len().min(k * 512)];
        p.send(&P::Data { blk: k as u16, payload: part.to_vec() });
        loop {
            match p.recv(WAIT) {
                Some(P::Ack { blk }) if blk as usize == k => break,
                Some(P::Ack { .. }) => continue,
                Some(P::Err { code, .. }) => return Out::Refused(code),
                None => return Out::Broken("stopped".into()),
                Some(x) => return Out::Broken(format!("{x:?}")),
            }
        }
    }
    Out::Stored
}

fn ident(b: &[u8]) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    format!("{}-{:08x}", b.len(), (h ^ (h >> 32)) as u32)
}

fn path_json(p: &[String]) -> String {
    format!("[{}]", p.iter().map(|s| esc(&untoken(s))).collect::<Vec<_>>().join(","))
}

fn node_json(root: &Path, p: &[String], n: Option<&Node>) -> String {
    let (k, c, to, abs) = match n {
        None => ("-", "".into(), vec![], 0),
        Some(Node::Dir) => ("d", "".into(), vec![], 0),
        Some(Node::File(b)) => ("f", ident(b), vec![], 0),
        Some(Node::Link(t)) => {
            let (rel, abs) = match t.strip_prefix(root.to_str().unwrap()) {
                Some(r) => (r.to_string(), 1),
                None => (t.clone(), 0),
            };
            ("l", "".into(), rel.split('/').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(), abs)
        }
    };
    format!("{{\"p\":{},\"k\":\"{k}\",\"c\":\"{c}\",\"to\":{},\"abs\":{abs}}}", path_json(p), path_json(&to))
}

pub struct World {
    base: PathBuf,
    root: PathBuf,
    servers: BTreeMap<String, Program>,
    tree: Tree,
    pristine: Tree,
    big: bool,
    died: bool,
}

impl World {
    pub fn new() -> Self {
        let base = scratch();
        let root = base.join("w");
        World { base, root, servers: BTreeMap::new(), tree: Tree::new(), pristine: Tree::new(), big: false, died: false }
    }

    fn look(&self) -> Tree {
        let mut t = Tree::new();
        scan(&self.root, &mut vec![], &mut t);
        t
    }

    fn reset(&mut self, big: bool) {
        if !self.pristine.is_empty() && self.big == big && self.look() == self.pristine {
            self.tree = self.pristine.clone();
            return;
        }
        if self.root.exists() {
            fs::remove_dir_all(&self.root).expect("scratch");
        }
        make(&self.root, big);
        self.big = big;
        self.pristine = self.look();
        self.tree = self.pristine.clone();
    }

    fn server(&mut self, key: &str, dir: &str, args: Vec<String>) -> SocketAddr {
        if !self.servers.contains_key(key) {
            let p = start_server(&self.base, dir, &args);
            self.servers.insert(key.to_string(), p);
        }
        self.servers[key].addr
    }

    /// "OW DEPTH LIST DIR BIG op:tok/tok op:tok ..."
    pub fn case(&mut self, suite: &str, line: &str, seed: u64, i: u64) -> String {
        let f: Vec<&str> = line.split(' ').collect();
        let (ow, depth, list, dirkind, big) = (f[0] == "1", f[1], f[2], f[3], f[4] == "1");
        self.reset(big);
        let dir = match dirkind {
            "abs" => self.root.join("srv").to_string_lossy().to_string(),
            "rel" => "w/srv".into(),
            "link" => self.root.join("srvl").to_string_lossy().to_string(),
            "dots" => "w/out/../srv/sub/..".into(),
            x => panic!("{x}"),
        };
        let mut args: Vec<String> = vec!["--max-directory-depth".into(), depth.into(), "--max-file-size".into(), "5000".into(), "--request-timeout".into(), "20000".into()];
        if ow {
            args.push("--allow-overwrite".into());
        }
        if list != "-" {
            args.push("--directory-list".into());
            args.push(list.into());
        }
        let key = f[..4].join(" ");
        let addr = self.server(&key, &dir, args);
        let tree0 = self.tree.iter().map(|(p, n)| node_json(&self.root, p, Some(n))).collect::<Vec<_>>().join(",");
        let mut ev = vec![];
        for (k, a) in f[5..].iter().enumerate() {
            let (op, name) = a.split_once(':').unwrap();
            let toks: Vec<&str> = name.split('/').collect();
            let file = toks.iter().map(|t| token(t)).collect::<Vec<_>>().join("/");
            let long = content(&format!("up{}", (i + k as u64 + seed) % 1000), 700);
            let short = content(&format!("u{}", (i + k as u64 + seed) % 1000), 9);
            let mut sent: &[u8] = &[];
            let mut second = None;
            let out = match op {
                "r" => read(addr, &file, &[]),
                "R" => read(addr, &file, &[("tsize", "0"), ("blksize", "600")]),
                "w" => {
                    sent = &long;
                    let (p, a) = ask_write(addr, &file, &[]);
                    finish_write(p, a, sent)
                }
                "s" => {
                    sent = &short;
                    let (p, a) = ask_write(addr, &file, &[("tsize", "9")]);
                    finish_write(p, a, sent)
                }
                // refused for its size
                "t" => {
                    sent = &long;
                    let (p, a) = ask_write(addr, &file, &[("tsize", "6000")]);
                    finish_write(p, a, sent)
                }
                // two uploads of one name at the same time
                "c" => {
                    sent = &long;
                    let (p, a) = ask_write(addr, &file, &[]);
                    let (p2, a2) = ask_write(addr, &file, &[]);
                    let o2 = finish_write(p2, a2, &short);
                    second = Some(o2);
                    finish_write(p, a, sent)
                }
                x => panic!("{x}"),
            };
            let kind = |o: &Out| match o {
                Out::Data(_) => "data",
                Out::Stored => "stored",
                Out::Refused(_) => "refused",
                Out::Nothing => "nothing",
                Out::Broken(_) => "broken",
            };
            let (mut got, mut lines, mut text) = ("".to_string(), "".to_string(), 0);
            if let Out::Data(d) = &out {
                got = ident(d);
                if let Ok(t) = std::str::from_utf8(d) {
                    if list != "-" && toks.last() == Some(&list) && (t.is_empty() || t.ends_with('\n')) {
                        text = 1;
                        lines = t
                            .lines()
                            .map(|l| {
                                let (l, d) = l.strip_suffix('/').map(|x| (x, 1)).unwrap_or((l, 0));
                                format!("{{\"p\":{},\"d\":{d}}}", path_json(&l.split('/').map(|x| x.to_string()).collect::<Vec<_>>()))
                            })
                            .collect::<Vec<_>>()
                            .join(",");
                    }
                }
            }
            let now = self.look();
            let mut chg = vec![];
            for (p, n) in &now {
                if self.tree.get(p) != Some(n) {
                    chg.push(node_json(&self.root, p, Some(n)));
                }
            }
            for p in self.tree.keys() {
                if !now.contains_key(p) {
                    chg.push(node_json(&self.root, p, None));
                }
            }
            self.tree = now;
            let segs = toks.iter().map(|t| esc(if *t == "EMPTY" { "" } else { t })).collect::<Vec<_>>().join(",");
            let up = (op != "r" && op != "R") as u8;
            ev.push(format!(
                "{{\"e\":\"req\",\"up\":{up},\"op\":\"{op}\",\"name\":[{segs}],\"len\":{},\"out\":\"{}\",\"out2\":\"{}\",\"sent\":\"{}\",\"got\":\"{got}\",\"text\":{text},\"lines\":[{lines}],\"chg\":[{}]}}",
                file.len(),
                kind(&out),
                second.as_ref().map(kind).unwrap_or("-"),
                ident(sent),
                chg.join(",")
            ));
            if !self.servers.get_mut(&key).unwrap().alive() {
                ev.push("{\"e\":\"died\"}".into());
                self.servers.remove(&key);
                break;
            }
        }
        format!(
            "{{\"id\":\"{suite}-{seed}-{i}\",\"ow\":{},\"depth\":{depth},\"list\":{},\"stack\":{},\"tree\":[{tree0}],\"ev\":[{}]}}",
            ow as u8,
            esc(list),
            kind_stack() as u8,
            ev.join(",")
        )
    }
}
