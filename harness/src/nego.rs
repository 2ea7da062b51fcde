//! The exchange of options: a scripted client against the real server, a scripted server against the
//! real client.  Cases come from the specification (NegoGen).
use crate::rng::{self, Rnd};
use crate::scripted::*;
use crate::sim::*;
use crate::transfer::*;
use crate::wire::{self, P};

struct Quiet;
impl Net for Quiet {
    fn route(&mut self, p: &Pkt) -> Route {
        vec![(500_000, p.bytes.clone())]
    }
}

const GARBAGE: [&str; 6] = ["abc", "", "-5", "12x", "0x200", "5.0"];

fn value(tok: &str, size: usize, r: &mut Rnd) -> Option<String> {
    match tok {
        "-9" => None,
        "-1" => Some(r.pick(&GARBAGE).to_string()),
        "a" => Some(size.to_string()),
        "b" => Some((size + 1).to_string()),
        x => Some(x.to_string()),
    }
}

fn shuffle<T>(v: &mut [T], r: &mut Rnd) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
}

fn spelled(k: &str, r: &mut Rnd) -> String {
    if r.chance(25) {
        k.to_ascii_uppercase()
    } else {
        k.into()
    }
}

/// The session an option acknowledgement stands for.
fn session(opts: Option<&[(String, String)]>) -> (usize, usize, u64) {
    let (mut bs, mut win, mut to) = (512usize, 1usize, 0u64);
    for (k, v) in opts.unwrap_or(&[]) {
        let n = v.parse::<u64>().unwrap_or(0);
        match k.to_ascii_lowercase().as_str() {
            "blksize" => bs = n as usize,
            "windowsize" => win = n as usize,
            "timeout" => to = n,
            _ => {}
        }
    }
    (bs.clamp(1, 70_000), win.clamp(1, 70_000), to)
}

pub fn case(suite: &str, line: &str, seed: u64, i: u64) -> Run {
    let w: Vec<String> = line.replace('"', "").split_whitespace().map(String::from).collect();
    let mut r = Rnd(seed.wrapping_mul(909_091).wrapping_add(i));
    let mut c = TCfg::default();
    c.id = format!("{suite}-{seed}-{i}");
    c.seed = seed.wrapping_mul(1_000_003).wrapping_add(i);
    c.fair = false;
    c.upload = w[1] == "w";
    c.c_seek = r.chance(30);
    c.s_seek = r.chance(30);
    c.port_change = r.chance(20);
    if w[0] == "S" {
        server_case(c, &w, r)
    } else {
        client_case(c, &w, r)
    }
}

fn size_for(bs: usize, win: usize, r: &mut Rnd) -> usize {
    let n = r.below(2 * win.min(16) as u64 + 2) as usize;
    n * bs + *r.pick(&[0, 1, bs - 1, bs / 2])
}

fn server_case(mut c: TCfg, w: &[String], mut r: Rnd) -> Run {
    let n = |k: usize| w[k].parse::<i64>().unwrap();
    let (mb, mw, rt) = (n(7), n(8), n(9));
    c.s_block = mb as u16;
    c.s_win = mw as u16;
    c.s_timeout_ms = rt as u64 * 1000;
    c.s_max = 200_000;
    let eb = if n(2) >= 512 && n(2) <= 65535 { n(2).min(mb) as usize } else { 512 };
    let ew = if n(3) >= 1 && n(3) <= 65535 { n(3).min(mw) as usize } else { 1 };
    c.size = size_for(eb, ew, &mut r);
    let (mut sim, sstore, _, src) = setup(&c);
    sim.net = Box::new(Quiet);
    let start = now();
    spawn_server(&mut sim, server_config(&c), sstore);
    let mut a = Actor::new(&mut sim, caddr(1), 2, 0);

    let mut opts = vec![];
    for (k, tok) in [("blksize", &w[2]), ("windowsize", &w[3]), ("timeout", &w[4]), ("tsize", &w[5])] {
        if let Some(v) = value(tok, c.size, &mut r) {
            opts.push((spelled(k, &mut r), v));
        }
    }
    if w[6] == "1" || r.chance(15) {
        opts.push(("multicast".into(), "".into()));
        opts.push(("x-unknown".into(), "1".into()));
    }
    shuffle(&mut opts, &mut r);
    let (file, mode) = ("remote".to_string(), "octet".to_string());
    let p = if c.upload { P::Wrq { file, mode, opts } } else { P::Rrq { file, mode, opts } };
    a.send(&mut sim, saddr(), wire::build(&p));

    let mut ok = false;
    let mut quiet = 0;
    if let Some((peer, b)) = a.recv(&mut sim, 3_000 * MS) {
        let first = wire::parse(&b);
        let oack = match &first {
            P::Oack { opts } => Some(opts.clone()),
            _ => None,
        };
        let (bs, win, to) = session(oack.as_deref());
        let mut run = Run2::new(bs, win, Sess::plain());
        match (&first, c.upload) {
            (P::Oack { .. }, true) | (P::Ack { blk: 0 }, true) => ok = send(&mut sim, &mut a, peer, &mut run, &src),
            (P::Oack { .. }, false) | (P::Data { .. }, false) => {
                let mut data = Some(b.clone());
                if oack.is_some() {
                    data = None;
                    if r.chance(50) {
                        let p = wire::build(&P::Ack { blk: 0 });
                        a.send(&mut sim, peer, p);
                    }
                }
                if to > 0 && 2 * to as i64 + 1 <= rt && oack.is_some() && r.chance(60) {
                    run.deaf = to * 1000 * MS - 300 * MS;
                    run.patience = to * 1000 * MS + 2_000 * MS;
                } else {
                    run.quiet = 60 * MS;
                    quiet = 1;
                }
                ok = receive(&mut sim, &mut a, peer, &mut run, data);
            }
            _ => {}
        }
    }
    let total = if ok { c.size as u64 } else { 0 };
    a.done(ok, total);
    sim.run_for(20 * MS);
    let steps = sim.steps;
    let ev = sim.finish();
    let extra = vec![
        ("role", "\"S\"".to_string()),
        ("mb", mb.to_string()),
        ("mw", mw.to_string()),
        ("lrt", rt.to_string()),
        ("mf", "200000".to_string()),
        ("quiet", quiet.to_string()),
    ];
    Run { oracle: oracle_for(&c), cfg: c, src, ev, steps, start, ended: true, extra }
}

fn client_case(mut c: TCfg, w: &[String], mut r: Rnd) -> Run {
    let n = |k: usize| w[k].parse::<i64>().unwrap();
    c.c_block = n(2) as u16;
    c.c_win = n(3) as u16;
    c.c_retry_ms = if n(4) == 0 { 80 } else { n(4) as u64 * 1000 };
    c.c_timeout_ms = 15_000;
    // an error before the transfer is no business of the transfer's specification
    let kind = if c.id.starts_with("negot") && w[5].starts_with("err") { "plain" } else { w[5].as_str() };
    c.size = size_for(512, c.c_win as usize, &mut r);
    let (mut sim, _, cstore, src) = setup(&c);
    sim.net = Box::new(Quiet);
    let start = now();
    sim.set_next_node(2);
    let mut a = Actor::new(&mut sim, saddr(), 1, 1);
    let client = spawn_client(&mut sim, caddr(1), client_config(&c), conn_options(&c), c.upload, "local", "remote", cstore);
    let mut quiet = 0;
    let mut serve = || -> Option<()> {
        let (peer, b) = a.recv(&mut sim, 3_000 * MS)?;
        let (P::Rrq { .. } | P::Wrq { .. }) = wire::parse(&b) else { return None };
        record(Ev::ConnNew { t: now(), conn: 1, peer, local: saddr() });
        if kind.starts_with("err") {
            let p = wire::build(&P::Err { code: *r.pick(&[0, 4, 8]), msg: "no options".into() });
            a.send(&mut sim, peer, p);
            a.recv(&mut sim, 3_000 * MS)?;
        }
        let mut opts = vec![];
        if kind == "oack" || kind == "erroack" {
            for (k, tok) in [("blksize", &w[6]), ("windowsize", &w[7]), ("timeout", &w[8]), ("tsize", &w[9])] {
                if let Some(v) = value(tok, c.size, &mut r) {
                    opts.push((spelled(k, &mut r), v));
                }
            }
            shuffle(&mut opts, &mut r);
            if opts.is_empty() {
                opts.push(("x-unknown".into(), "1".into()));
            }
        }
        if kind == "unknown" {
            opts.push(("x-unknown".into(), "1".into()));
        }
        let oack = !opts.is_empty();
        let (bs, win, to) = session(oack.then_some(&opts[..]));
        let mut run = Run2::new(bs, win, Sess::plain());
        if oack {
            let p = wire::build(&P::Oack { opts });
            a.send(&mut sim, peer, p);
        }
        if c.upload {
            if !oack {
                let p = wire::build(&P::Ack { blk: 0 });
                a.send(&mut sim, peer, p);
            }
            if to > 0 && to <= 4 && r.chance(50) {
                run.deaf = to * 1000 * MS - 300 * MS;
                run.patience = to * 1000 * MS + 2_000 * MS;
            } else {
                run.quiet = 60 * MS;
                quiet = 1;
            }
            receive(&mut sim, &mut a, peer, &mut run, None);
        } else {
            if oack {
                // the acknowledgement of the options
                let (_, b) = a.recv(&mut sim, 3_000 * MS)?;
                if wire::parse(&b) != (P::Ack { blk: 0 }) {
                    return None;
                }
            }
            send(&mut sim, &mut a, peer, &mut run, &src);
        }
        Some(())
    };
    let _ = serve();
    let ended = sim.run_until(&[client], 20_000 * MS, 1_000_000);
    sim.run_for(5 * MS);
    let steps = sim.steps;
    let ev = sim.finish();
    let extra = vec![
        ("role", "\"C\"".to_string()),
        ("mb", "0".into()),
        ("mw", "0".into()),
        ("lrt", "0".into()),
        ("mf", "0".into()),
        ("quiet", quiet.to_string()),
    ];
    let _ = rng::keys();
    Run { oracle: oracle_for(&c), cfg: c, src, ev, steps, start, ended, extra }
}
