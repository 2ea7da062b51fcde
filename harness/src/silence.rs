//! A transfer between the real client and the real server whose network dies at a point, and may then
//! deliver packets that are no progress, following a stimulus of the specification (SilenceGen).
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

use crate::rng::Rnd;
use crate::sim::*;
use crate::suites::payload_size;
use crate::transfer::*;
use crate::wire::{self, Form, Oracle, P};

#[derive(Default)]
struct Wires {
    delivered: u64,
    k: u64,
    cut: [bool; 2],
    dead: bool,
    /// packets that arrived, from the client and from the server
    seen: [Vec<(SocketAddr, SocketAddr, Arc<Vec<u8>>)>; 2],
    /// where the server's transfer lives
    conn: Option<SocketAddr>,
}

struct Hush {
    w: Arc<Mutex<Wires>>,
    lat: u64,
}

impl Net for Hush {
    fn route(&mut self, p: &Pkt) -> Route {
        let mut w = self.w.lock().unwrap();
        let d = (p.from.ip() == saddr().ip()) as usize;
        if d == 1 {
            w.conn = Some(p.from);
        }
        w.dead |= w.delivered >= w.k;
        if w.dead && w.cut[d] {
            return vec![];
        }
        if !w.dead {
            w.delivered += 1;
        }
        w.seen[d].push((p.from, p.to, p.bytes.clone()));
        vec![(self.lat, p.bytes.clone())]
    }
}

fn noise(w: &Wires, d: usize, kind: &str, up: bool, r: &mut Rnd) -> Option<(SocketAddr, SocketAddr, Arc<Vec<u8>>)> {
    let server = w.conn.unwrap_or(saddr());
    let (from, to) = if d == 0 { (caddr(1), server) } else { (server, caddr(1)) };
    let s = &w.seen[d];
    let make = |p: P| Some((from, to, Arc::new(wire::build(&p))));
    match kind {
        "d" => s.last().cloned(),
        "o" if s.is_empty() => None,
        "o" => Some(s[r.below(s.len() as u64) as usize].clone()),
        "g" => {
            let most = if r.chance(50) { 60 } else { 1400 };
            let n = 1 + r.below(most) as usize;
            let mut b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            // never an error by chance
            b[0] |= 0x10;
            Some((from, to, Arc::new(b)))
        }
        "r" => s.first().cloned(),
        // nothing a receiver of this kind listens to
        "e" => match (d == 0) == up {
            true => match r.below(3) {
                0 => make(P::Ack { blk: r.below(4) as u16 }),
                1 => make(P::Oack { opts: vec![("windowsize".into(), "1".into())] }),
                _ => make(P::Rrq { file: "other".into(), mode: "octet".into(), opts: vec![] }),
            },
            false => match r.below(3) {
                0 => make(P::Data { blk: 1 + r.below(4) as u16, payload: vec![b'w'; 512] }),
                1 => make(P::Wrq { file: "other".into(), mode: "octet".into(), opts: vec![] }),
                _ => make(P::Oack { opts: vec![("blksize".into(), "512".into())] }),
            },
        },
        _ => None,
    }
}

pub fn case(suite: &str, line: &str, seed: u64, i: u64) -> (String, Vec<Ev>, u64, TCfg) {
    let w: Vec<&str> = line.split_whitespace().map(|x| x.trim_matches('"')).collect();
    let mut r = Rnd(seed.wrapping_mul(1_500_007).wrapping_add(i));
    let mut c = TCfg::default();
    c.id = format!("{suite}-{seed}-{i}");
    c.seed = seed.wrapping_mul(1_000_003).wrapping_add(i);
    c.upload = w[0] == "u";
    c.c_win = w[1].parse().unwrap();
    c.level = LEVELS.iter().copied().find(|x| *x == w[5]).unwrap();
    c.s_key = c.level != "none" && (c.level == "full" || r.chance(30));
    c.pin = c.level == "full";
    c.c_key = c.s_key && r.chance(50);
    c.c_seek = r.chance(30);
    c.s_seek = r.chance(30);
    c.port_change = r.chance(30);
    c.c_retry_ms = *r.pick(&[80, 80, 300, 1000]);
    c.c_timeout_ms = *r.pick(&[2_000, 3_000, 5_500]);
    c.s_timeout_ms = *r.pick(&[2_000, 3_000, 5_500]);
    c.fair = false;
    // more blocks than get through
    let bs = payload_size(&c);
    c.size = bs * (*r.pick(&[3, 7, 12])) + r.below(bs as u64) as usize;

    let (mut sim, sstore, cstore, src) = setup(&c);
    let wires = Arc::new(Mutex::new(Wires { k: w[2].parse().unwrap(), cut: [w[3] != "s", w[3] != "c"], ..Default::default() }));
    sim.net = Box::new(Hush { w: wires.clone(), lat: c.lat_us * 1000 });
    let start = now();
    spawn_server(&mut sim, server_config(&c), sstore);
    let client = spawn_client(&mut sim, caddr(1), client_config(&c), conn_options(&c), c.upload, "local", "remote", cstore);
    let long = c.c_timeout_ms.max(c.s_timeout_ms) * MS + 4_000 * MS;
    let step = *r.pick(&[150, 400, 900]);
    let mut died = None;
    loop {
        sim.run_for(step * MS);
        let g = wires.lock().unwrap();
        if g.dead && died.is_none() {
            died = Some(now());
        }
        let since = died.map(|t| now() - t).unwrap_or(0);
        if sim.ended(client) && sim.open_conns() == 0 || since > 2 * long || now() - start > 60_000 * MS {
            break;
        }
        if g.dead && since < long && w[4] != "n" {
            for d in 0..2 {
                if g.cut[d] {
                    if let Some((f, t, b)) = noise(&g, d, w[4], c.upload, &mut r) {
                        sim.inject_at(now() + 200_000, f, t, b);
                    }
                }
            }
        }
    }
    let end = now();
    let ev = sim.finish();
    let mut o = oracle_for(&c);
    let json = json(&c, &ev, &src, &mut o, start, end, w[4]);
    (json, ev, start, c)
}

fn json(c: &TCfg, ev: &[Ev], src: &[u8], o: &mut Oracle, start: u64, end: u64, noise: &str) -> String {
    let ms = |t: &u64| (*t - start) / MS;
    let mut opts = None;
    for e in ev {
        if let Ev::Tx { bytes, from, .. } = e {
            if from.ip() == saddr().ip() {
                if let P::Oack { opts: x } = wire::parse(&o.read(bytes).1) {
                    opts = Some(x);
                    break;
                }
            }
        }
    }
    let s = session_of(opts.as_ref(), false);
    let nblk = src.len() / s.bs.max(1) + 1;
    let mut out = vec![];
    let mut put = |e: &str, t: u64, n: &str, k: &str, c: u64, b: i64| {
        out.push(format!("{{\"e\":\"{e}\",\"t\":{t},\"n\":\"{n}\",\"k\":\"{k}\",\"c\":{c},\"b\":{b}}}"));
    };
    let kind = |o: &mut Oracle, b: &[u8]| match wire::parse(&o.read(b).1) {
        P::Rrq { .. } => ("rrq", 0),
        P::Wrq { .. } => ("wrq", 0),
        P::Data { blk, .. } => ("data", blk as i64),
        P::Ack { blk } => ("ack", blk as i64),
        P::Err { .. } => ("err", 0),
        P::Oack { .. } => ("oack", 0),
        P::Bad => ("bad", 0),
    };
    for e in ev {
        match e {
            Ev::Tx { t, conn, from, bytes, .. } => {
                let (k, b) = kind(o, bytes);
                let n = if from.ip() == saddr().ip() { "S" } else { "C" };
                put("tx", ms(t), n, k, *conn, b);
            }
            Ev::Rx { t, node, conn, bytes, .. } => {
                let (mut k, b) = kind(o, bytes);
                // a session that is encrypted as a whole knows no packets in the clear
                if *conn > 0 && matches!(s.level.as_str(), "protocol" | "full") && o.read(bytes).0 == Form::Plain {
                    k = "bad";
                }
                put("rx", ms(t), if *node == 2 { "C" } else { "S" }, k, *conn, b);
            }
            Ev::Wr { t, node, bytes, .. } => put("wr", ms(t), if *node == 2 { "C" } else { "S" }, "", 0, bytes.len() as i64),
            Ev::ConnNew { t, conn, .. } => put("new", ms(t), "S", "", *conn, 0),
            Ev::ConnEnd { t, conn } => put("end", ms(t), "S", "", *conn, 0),
            Ev::Done { t, node, ok, .. } => put("done", ms(t), if *node == 2 { "C" } else { "S" }, "", 0, *ok as i64),
            Ev::Panic { t, node, .. } => put("panic", ms(t), if *node == 2 { "C" } else { "S" }, "", 0, 0),
            _ => {}
        }
    }
    put("over", (end - start) / MS, "", "", 0, 0);
    format!(
        "{{\"id\":{},\"up\":{},\"rtc\":{},\"rts\":{},\"nblk\":{nblk},\"size\":{},\"quiet\":{},\"ev\":[{}]}}",
        crate::json::esc(&c.id),
        c.upload as u8,
        c.c_timeout_ms,
        c.s_timeout_ms,
        src.len(),
        (noise == "n") as u8,
        out.join(",")
    )
}
