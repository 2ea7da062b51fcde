//! Datagrams of the specification (WireGen) arrive at an idle server, at a running transfer or at a client;
//! then another client asks for a file.
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

use crate::codec;
use crate::rng::Rnd;
use crate::scripted::Actor;
use crate::sim::*;
use crate::store::content;
use crate::transfer::*;
use crate::wire;

const NAMES: [&str; 6] = ["remote", "a b.txt", "\u{dc}n\u{ef}\u{20ac}.bin", "x", "-", "%41%00"];

#[derive(Default)]
struct Plan {
    /// packets between client and server that pass first
    k: u64,
    passed: u64,
    to_client: bool,
    /// to the port requests go to, although a transfer is running
    to_listen: bool,
    sealed: u64,
    b: Vec<Vec<u8>>,
    /// where the server's transfer lives
    conn: Option<SocketAddr>,
    sent: Vec<Vec<u8>>,
    out: Vec<(u64, SocketAddr, SocketAddr, Arc<Vec<u8>>)>,
}

struct Hostile {
    c: TCfg,
    p: Arc<Mutex<Plan>>,
}

impl Net for Hostile {
    fn extra(&mut self) -> Vec<(u64, SocketAddr, SocketAddr, Arc<Vec<u8>>)> {
        std::mem::take(&mut self.p.lock().unwrap().out)
    }

    fn route(&mut self, p: &Pkt) -> Route {
        let mut g = self.p.lock().unwrap();
        if p.to == caddr(1) {
            g.conn = Some(p.from);
        }
        if p.from == caddr(1) || p.to == caddr(1) {
            g.passed += 1;
            if g.passed == g.k + 1 && !g.b.is_empty() {
                let server = if g.to_listen { saddr() } else { g.conn.unwrap_or(saddr()) };
                let (from, to) = if g.to_client { (g.conn.unwrap_or(saddr()), caddr(1)) } else { (caddr(1), server) };
                let mut o = oracle_for(&self.c);
                let key = if g.sealed > 0 { o.key_of(&p.bytes) } else { None };
                for (n, b) in std::mem::take(&mut g.b).into_iter().enumerate() {
                    let mut nonce = [0x33; 24];
                    nonce[0] = n as u8;
                    let b = match (key, g.sealed) {
                        (None, _) => b,
                        // by the peer itself: padded, not padded, body only, cut
                        (Some(k), 1) => wire::seal(&k, &wire::pad(&b, 40 + n), &nonce),
                        (Some(k), 2) => wire::seal(&k, &b, &nonce),
                        (Some(k), 3) => {
                            let mut v = p.bytes[..4.min(p.bytes.len())].to_vec();
                            v.extend(wire::seal(&k, &b, &nonce));
                            v
                        }
                        (Some(k), _) => {
                            let v = wire::seal(&k, &wire::pad(&b, 0), &nonce);
                            v[..v.len() - b.len().min(v.len())].to_vec()
                        }
                    };
                    g.sent.push(b.clone());
                    g.out.push((self.c.lat_us * 500 + n as u64 * 1000, from, to, Arc::new(b)));
                }
            }
        }
        vec![(self.c.lat_us * 1000, p.bytes.clone())]
    }
}

fn initial(b: &[u8], r: &mut Rnd) -> Vec<u8> {
    let mut sk = [0u8; 32];
    sk.iter_mut().for_each(|x| *x = r.next() as u8);
    let key = wire::shared(&sk, &wire::mont_public(&server_signing().verifying_key()));
    let n = *r.pick(&[0, 100, 512]);
    let plain = match r.below(4) {
        0 => b.to_vec(),
        1 => vec![*r.pick(&[0, 255]); r.below(60) as usize],
        _ => wire::pad(b, n),
    };
    let mut v = wire::seal(&key, &plain, &[0x21; 24]);
    v.extend_from_slice(&wire::pubkey(&sk));
    match r.below(5) {
        0 => v[r.below(v.len() as u64) as usize..].to_vec(),
        1 => v[..r.below(v.len() as u64) as usize].to_vec(),
        _ => v,
    }
}

fn nums(b: &[u8]) -> String {
    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

pub fn case(suite: &str, stim: &[String], seed: u64, i: u64) -> (String, Vec<Ev>, u64, TCfg) {
    let mut r = Rnd(seed.wrapping_mul(1_900_009).wrapping_add(i));
    let mut b = vec![codec::bytes(&stim[i as usize % stim.len()])];
    if r.chance(30) {
        for _ in 0..1 + r.below(3) {
            b.push(codec::bytes(&stim[r.below(stim.len() as u64) as usize]));
        }
    }
    let mut c = TCfg::default();
    c.id = format!("{suite}-{seed}-{i}");
    c.seed = seed.wrapping_mul(1_000_003).wrapping_add(i);
    c.fair = false;
    c.upload = r.chance(50);
    c.c_win = *r.pick(&[1, 1, 2, 4]);
    c.c_block = *r.pick(&[512, 512, 600, 8, 1024]);
    c.c_retry_ms = *r.pick(&[80, 80, 1000, 3000]);
    c.c_seek = r.chance(30);
    c.s_seek = r.chance(30);
    c.port_change = r.chance(30);
    c.c_timeout_ms = 6_000;
    c.s_timeout_ms = 6_000;
    let at = *r.pick(&["idle", "idle", "idle", "server", "server", "server", "listen", "client", "client", "client", "stray"]);
    if at == "idle" {
        c.s_key = r.chance(35);
    } else if r.chance(35) {
        c.level = *r.pick(&["data", "protocol", "full"]);
        c.s_key = c.level == "full" || r.chance(50);
        c.pin = c.level == "full";
        // full encryption needs packets smaller than the server's blocks
        c.c_block = 512;
    }
    c.size = c.c_block as usize * r.below(9) as usize + r.below(c.c_block as u64) as usize;
    let (mut sim, sstore, cstore, src) = setup(&c);
    let name = *r.pick(&NAMES);
    if !c.upload {
        sstore.put(name, src.clone());
    }
    sstore.put("dir/a.txt", content(7, 100));
    let probe_src = content(c.seed ^ 0x5a5a, r.below(1600) as usize);
    sstore.put("probe", probe_src.clone());
    let plan = Arc::new(Mutex::new(Plan {
        k: r.below(9),
        to_client: at == "client",
        to_listen: at == "listen",
        sealed: if c.level != "none" && r.chance(60) { 1 + r.below(4) } else { 0 },
        ..Default::default()
    }));
    sim.net = Box::new(Hostile { c: c.clone(), p: plan.clone() });
    let start = now();
    let server = spawn_server(&mut sim, server_config(&c), sstore);
    let mut client = 0;
    sim.set_next_node(2);
    if at == "idle" || at == "stray" {
        let mut a = Actor::new(&mut sim, "10.0.9.9:4321".parse().unwrap(), 9, 0);
        a.lat = 300_000;
        if at == "stray" {
            client = spawn_client(&mut sim, caddr(1), client_config(&c), conn_options(&c), c.upload, "local", name, cstore.clone());
            for _ in 0..r.below(12) {
                sim.step();
            }
        }
        // to the long-term key of the server, like a first packet of full encryption
        let first = at == "idle" && c.s_key;
        let to = if at == "idle" { saddr() } else { plan.lock().unwrap().conn.unwrap_or(saddr()) };
        for x in b {
            plan.lock().unwrap().sent.push(x.clone());
            let x = if first { initial(&x, &mut r) } else { x };
            a.send(&mut sim, to, x);
            if r.chance(50) {
                sim.run_for(2 * MS);
            }
        }
        sim.run_for(300 * MS);
    } else {
        plan.lock().unwrap().b = b;
        client = spawn_client(&mut sim, caddr(1), client_config(&c), conn_options(&c), c.upload, "local", name, cstore.clone());
    }
    let ended = client == 0 || sim.run_until_stuck(&[client], 40_000 * MS, 5_000_000);
    // another client
    let mut pc = TCfg { upload: false, level: "none", c_key: false, pin: false, ..c.clone() };
    pc.c_block = *r.pick(&[512, 600]);
    sim.set_next_node(3);
    let t0 = now();
    let probe = spawn_client(
        &mut sim,
        caddr(2),
        tftp_dus::client::ClientConfig { listen: caddr(2), ..client_config(&pc) },
        conn_options(&pc),
        false,
        "local2",
        "probe",
        cstore,
    );
    sim.run_until(&[probe], 40_000 * MS, 5_000_000);
    let alive = !sim.ended(server);
    sim.run_for(5 * MS);
    let ev = sim.finish();
    let g = plan.lock().unwrap();
    let first_sealed = at == "idle" && c.s_key;
    let at = if first_sealed { "sealed" } else { at };
    let opts = |c: &TCfg, size: Option<usize>| {
        let mut v = vec![];
        if c.c_block != 512 {
            v.push((1, c.c_block.to_string()));
        }
        if c.c_retry_ms >= 1000 && !(c.c_retry_ms == 80) {
            v.push((2, (c.c_retry_ms / 1000).to_string()));
        }
        v.push((3, size.unwrap_or(0).to_string()));
        if c.c_win != 1 {
            v.push((4, c.c_win.to_string()));
        }
        let v: Vec<String> = v.into_iter().map(|(n, x)| format!("[{n},{}]", nums(x.as_bytes()))).collect();
        format!("[{}]", v.join(","))
    };
    // a datagram that asks for encryption gets sealed answers
    let asks = g.sent.iter().any(|b| b.windows(5).any(|w| w.eq_ignore_ascii_case(b"spubk")));
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut files: HashMap<u64, Vec<u8>> = HashMap::new();
    let mut of_node: HashMap<u32, u64> = HashMap::new();
    for e in &ev {
        match e {
            Ev::Tx { node, to, from, bytes, t, .. } if *node != 9 => {
                let mut b = bytes.to_vec();
                // bodies of data packets are another property's business
                if b.len() > 4 && b[0] == 0 && b[1] == 3 {
                    b.truncate(4);
                }
                let n = if from.ip() == saddr().ip() { 1 } else if *from == caddr(2) { 3 } else { 2 };
                let to = if *to == caddr(1) { 2 } else if *to == caddr(2) { 3 } else if to.ip() == saddr().ip() { 1 } else { 9 };
                let sealed = asks && n == 1 && to != 3 && !(b.len() > 1 && b[0] == 0 && (5..=6).contains(&b[1]));
                // sealed packets have no layout of their own
                if !sealed && (n == 3 || to == 3 || (to == 9 && !first_sealed) || c.level == "none" && to != 9) && seen.insert((n, to, b.clone())) {
                    out.push(format!("{{\"e\":\"tx\",\"n\":{n},\"to\":{to},\"b\":{},\"pre\":{}}}", nums(&b), (*t < t0) as u8));
                }
            }
            Ev::Open { mode, t, node, file, .. } => {
                let n = if *node < 1000 && (*node == 2 || *node == 3) { *node } else { 1 };
                out.push(format!("{{\"e\":\"open\",\"n\":{n},\"to\":0,\"b\":[],\"pre\":{}}}", (*t < t0) as u8));
                if *mode == "w" {
                    of_node.insert(n as u32, *file);
                }
            }
            Ev::Wr { file, off, bytes, .. } => {
                let f = files.entry(*file).or_default();
                let end = *off as usize + bytes.len();
                if f.len() < end {
                    f.resize(end, 0);
                }
                f[*off as usize..end].copy_from_slice(bytes);
            }
            Ev::Panic { t, .. } => out.push(format!("{{\"e\":\"panic\",\"n\":0,\"to\":0,\"b\":[],\"pre\":{}}}", (*t < t0) as u8)),
            _ => {}
        }
    }
    let stored = |n: u32| of_node.get(&n).and_then(|f| files.get(f)).cloned().unwrap_or_default();
    let done = |n: NodeId| ev.iter().find_map(|e| match e {
        Ev::Done { node, ok, .. } if *node == n => Some(*ok),
        _ => None,
    });
    let ok = client != 0 && done(client) == Some(true);
    let right = if c.upload { stored(1) == src } else { stored(2) == src };
    let served = done(probe) == Some(true) && stored(3) == probe_src;
    let sent: Vec<String> = g.sent.iter().map(|b| nums(b)).collect();
    let up = (c.upload && client != 0) as u8;
    let json = format!(
        "{{\"id\":{},\"at\":\"{at}\",\"level\":\"{}\",\"up\":{up},\"sent\":[{}],\"alive\":{},\"ended\":{},\"ok\":{},\"right\":{},\"served\":{},\"file\":{},\"opts\":{},\"popts\":{},\"stack\":{},\"ev\":[{}]}}",
        crate::json::esc(&c.id),
        c.level,
        sent.join(","),
        alive as u8,
        ended as u8,
        ok as u8,
        right as u8,
        served as u8,
        nums(name.as_bytes()),
        opts(&c, c.upload.then_some(c.size)),
        opts(&pc, None),
        cfg!(not(feature = "alloc")) as u8,
        out.join(",")
    );
    drop(g);
    (json, ev, start, c)
}


/// The same with the program itself: a scratch directory, one datagram at a time.
pub mod program {
    use super::nums;
    use crate::codec;
    use crate::rng::Rnd;
    use crate::served::*;
    use crate::wire::{self, P};
    use std::collections::BTreeMap;
    use std::net::UdpSocket;
    use std::path::PathBuf;
    use std::time::Duration;

    pub struct World {
        dir: PathBuf,
        base: PathBuf,
        server: Option<Program>,
        before: BTreeMap<String, usize>,
    }

    fn files(d: &PathBuf) -> BTreeMap<String, usize> {
        let mut v = BTreeMap::new();
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let n = e.metadata().map(|m| m.len() as usize).unwrap_or(0);
            v.insert(e.file_name().to_string_lossy().to_string(), n);
            if e.path().is_dir() {
                v.extend(files(&e.path()).into_iter().map(|(k, n)| (format!("{}/{k}", e.file_name().to_string_lossy()), n)));
            }
        }
        v
    }

    impl World {
        pub fn new() -> Self {
            let base = scratch();
            let dir = base.join("h");
            let _ = std::fs::create_dir_all(dir.join("dir"));
            for (f, n) in [("a", 700), ("probe", 900), ("dir/a.txt", 30)] {
                std::fs::write(dir.join(f), vec![b'q'; n]).unwrap();
            }
            for f in ["", "a", "probe", "dir", "dir/a.txt"] {
                std::os::unix::fs::lchown(dir.join(f), Some(UID), Some(UID)).expect("chown");
            }
            let before = files(&dir);
            World { dir, base, server: None, before }
        }

        pub fn case(&mut self, suite: &str, stim: &[String], seed: u64, i: u64) -> String {
            let mut r = Rnd(seed.wrapping_mul(2_900_017).wrapping_add(i));
            let b = codec::bytes(&stim[i as usize % stim.len()]);
            if self.server.is_none() {
                let mut args: Vec<String> = ["--request-timeout", "1000", "--max-directory-depth", "3", "--directory-list", "list"].iter().map(|x| x.to_string()).collect();
                if r.chance(30) {
                    args.push("--allow-overwrite".into());
                }
                self.server = Some(start_server(&self.base, self.dir.to_str().unwrap(), &args));
            }
            let p = self.server.as_mut().unwrap();
            let s = UdpSocket::bind(format!("{}:0", own_ip())).unwrap();
            s.set_read_timeout(Some(Duration::from_millis(6))).unwrap();
            let _ = s.send_to(&b, p.addr);
            let mut out = vec![];
            let mut buf = vec![0; 2000];
            let asks = b.windows(5).any(|w| w.eq_ignore_ascii_case(b"spubk"));
            while let Ok((n, _)) = s.recv_from(&mut buf) {
                let n = if n > 4 && buf[1] == 3 { 4 } else { n };
                if asks && !(n > 1 && buf[0] == 0 && (5..=6).contains(&buf[1])) {
                    let _ = s.send_to(&wire::build(&P::Err { code: 0, msg: "enough".into() }), p.addr);
                    continue;
                }
                out.push(format!("{{\"e\":\"tx\",\"n\":1,\"to\":9,\"b\":{},\"pre\":1}}", nums(&buf[..n])));
                let _ = s.send_to(&wire::build(&P::Err { code: 0, msg: "enough".into() }), p.addr);
                if out.len() > 3 {
                    break;
                }
            }
            let mut served = true;
            if i % 8 == 0 || !p.alive() {
                let want = vec![b'q'; self.before["probe"]];
                served = matches!(read(p.addr, "probe", &[]), Out::Data(d) if d == want);
            }
            let now = files(&self.dir);
            if now != self.before {
                out.push("{\"e\":\"open\",\"n\":1,\"to\":0,\"b\":[],\"pre\":1}".into());
            }
            let alive = p.alive();
            if !alive || now != self.before {
                self.server = None;
                *self = World::new_clean(&self.dir);
            }
            format!(
                "{{\"id\":\"{suite}-{seed}-{i}\",\"at\":\"idle\",\"level\":\"none\",\"up\":0,\"sent\":[{}],\"alive\":{},\"ended\":1,\"ok\":0,\"right\":1,\"served\":{},\"file\":[],\"opts\":[],\"popts\":[],\"stack\":{},\"ev\":[{}]}}",
                nums(&b),
                alive as u8,
                served as u8,
                kind_stack() as u8,
                out.join(",")
            )
        }

        fn new_clean(d: &PathBuf) -> Self {
            std::fs::remove_dir_all(d).expect("scratch");
            World::new()
        }
    }
}
