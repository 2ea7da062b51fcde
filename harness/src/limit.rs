//! Transfers around a size limit, following a stimulus of the specification (LimitGen).
use crate::rng::Rnd;
use crate::scripted::*;
use crate::sim::*;
use crate::suites::{payload_size, plan};
use crate::transfer::*;
use crate::wire::{self, P};

pub fn case(suite: &str, line: &str, seed: u64, i: u64) -> Run {
    let w: Vec<&str> = line.split_whitespace().map(|x| x.trim_matches('"')).collect();
    let mut r = Rnd(seed.wrapping_mul(1_700_021).wrapping_add(i));
    let mut c = TCfg::default();
    c.id = format!("{suite}-{seed}-{i}");
    c.seed = seed.wrapping_mul(1_000_003).wrapping_add(i);
    c.upload = w[0] == "u";
    c.c_win = w[5].parse().unwrap();
    c.c_block = *r.pick(&[512, 512, 600, 1024]);
    c.s_block = *r.pick(&[512, 1424]);
    c.c_seek = r.chance(30);
    c.s_seek = r.chance(30);
    c.port_change = r.chance(20);
    c.fair = false;
    let scripted = w[1] == "s";
    if !scripted {
        c.level = *r.pick(&["none", "none", "data", "protocol"]);
    }
    let bs = payload_size(&c);
    let limit = match w[2] {
        "one" => 1,
        "three" => 3 * bs,
        _ => 3 * bs + 1 + r.below(bs as u64 - 1) as usize,
    };
    c.size = match w[3] {
        "-b" => limit.saturating_sub(bs),
        "-1" => limit - 1,
        "0" => limit,
        "1" => limit + 1,
        "b" => limit + bs,
        _ => limit + 2 * bs + 1,
    };
    if w[6] == "lossy" {
        let p = *r.pick(&[10, 25]);
        c.plan_c = plan(&mut r, p, 20);
        c.plan_s = plan(&mut r, p, 20);
    }
    let ann = match w[4] {
        "t" => Some(c.size.to_string()),
        "n" => None,
        "x" => Some(r.pick(&["x", "", "-1", "1 "]).to_string()),
        "l" => Some(limit.to_string()),
        "m" => Some((limit + 1).to_string()),
        "z" => Some("0".into()),
        _ => Some(r.pick(&["2000000000", "4294967296", "9223372036854775807", "18446744073709551615"]).to_string()),
    };
    if c.upload {
        c.s_max = limit as u64;
    } else {
        c.c_max = limit as u64;
    }
    let extra = vec![("limit", limit.to_string())];
    let (mut sim, sstore, cstore, src) = setup(&c);
    let start = now();
    let client;
    if !scripted {
        if w[4] == "n" {
            for s in [&sstore, &cstore] {
                s.0.lock().unwrap().size_hint = false;
            }
        }
        spawn_server(&mut sim, server_config(&c), sstore);
        client = spawn_client(&mut sim, caddr(1), client_config(&c), conn_options(&c), c.upload, "local", "remote", cstore);
    } else if c.upload {
        client = 0;
        spawn_server(&mut sim, server_config(&c), sstore);
        let mut a = Actor::new(&mut sim, caddr(1), 2, 0);
        let mut opts = vec![];
        if c.c_block != 512 {
            opts.push(("blksize".to_string(), c.c_block.to_string()));
        }
        if c.c_win != 1 {
            opts.push(("windowsize".to_string(), c.c_win.to_string()));
        }
        if let Some(v) = ann {
            opts.push(("tsize".to_string(), v));
        }
        if r.chance(50) {
            opts.reverse();
        }
        a.send(&mut sim, saddr(), wire::build(&P::Wrq { file: "remote".into(), mode: "octet".into(), opts }));
        let mut ok = false;
        if let Some((peer, b)) = a.recv(&mut sim, 3_000 * MS) {
            let go = match wire::parse(&b) {
                P::Oack { opts } => Some(Some(opts)),
                P::Ack { blk: 0 } => Some(None),
                // a client that does not listen sends all the same
                _ if r.chance(50) => Some(None),
                _ => None,
            };
            if let Some(o) = go {
                let s = session_of(o.as_ref(), false);
                let mut run = Run2::new(s.bs, s.win as usize, Sess::plain());
                ok = send(&mut sim, &mut a, peer, &mut run, &src);
            }
        }
        a.done(ok, c.size as u64);
    } else {
        sim.set_next_node(2);
        let mut a = Actor::new(&mut sim, saddr(), 1, 1);
        client = spawn_client(&mut sim, caddr(1), client_config(&c), conn_options(&c), c.upload, "local", "remote", cstore);
        if let Some((peer, b)) = a.recv(&mut sim, 3_000 * MS) {
            record(Ev::ConnNew { t: now(), conn: 1, peer, local: saddr() });
            let asked = match wire::parse(&b) {
                P::Rrq { opts, .. } => opts,
                _ => vec![],
            };
            let mut opts: Vec<(String, String)> = asked.into_iter().filter(|o| o.0 == "blksize" || o.0 == "windowsize").collect();
            if let Some(v) = ann {
                opts.push(("tsize".to_string(), v));
            } else if r.chance(30) {
                // a server that knows no options
                opts.clear();
            }
            let s = session_of((!opts.is_empty()).then_some(&opts), false);
            let mut run = Run2::new(s.bs, s.win as usize, Sess::plain());
            let mut go = true;
            if !opts.is_empty() {
                let p = wire::build(&P::Oack { opts });
                for _ in 0..4 {
                    a.send(&mut sim, peer, p.clone());
                    let m = a.recv(&mut sim, 400 * MS).map(|(_, b)| wire::parse(&b));
                    go = m == Some(P::Ack { blk: 0 });
                    if go || matches!(m, Some(P::Err { .. })) {
                        break;
                    }
                }
                // a server that does not listen sends all the same
                go |= r.chance(50);
            }
            if go {
                send(&mut sim, &mut a, peer, &mut run, &src);
            }
        }
    }
    let ended = client == 0 || sim.run_until_stuck(&[client], 30_000 * MS, 5_000_000);
    sim.run_for(20 * MS);
    let steps = sim.steps;
    let ev = sim.finish();
    Run { oracle: oracle_for(&c), cfg: c, src, ev, steps, start, ended, extra }
}
