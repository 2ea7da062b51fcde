//! The scenario families.  Every scenario is a function of (suite, seed, index), so an id replays.
use crate::rng::Rnd;
use crate::store::WriteFault;
use crate::transfer::*;

pub const SMALL_WIN: [u16; 8] = [1, 1, 2, 3, 4, 5, 8, 16];

fn act(r: &mut Rnd) -> Act {
    match r.below(10) {
        0..=4 => Act::Drop,
        5..=6 => Act::Dup,
        7..=8 => Act::Late(r.below(3000) as u32),
        _ => Act::DupLate(r.below(3000) as u32),
    }
}

pub fn plan(r: &mut Rnd, percent: u64, len: usize) -> Vec<Act> {
    (0..len).map(|_| if r.chance(percent) { act(r) } else { Act::Pass }).collect()
}

fn base(r: &mut Rnd, suite: &str, seed: u64, i: u64) -> TCfg {
    let mut c = TCfg::default();
    c.id = format!("{suite}-{seed}-{i}");
    c.seed = seed.wrapping_mul(1_000_003).wrapping_add(i);
    c.upload = r.chance(50);
    c.c_block = *r.pick(&[512, 512, 513, 600, 1000, 1425]);
    c.s_block = *r.pick(&[512, 700, 1424, 1425]);
    c.c_win = *r.pick(&SMALL_WIN);
    c.s_win = *r.pick(&[16, 16, 8, 3, 2, 1]);
    c.c_retry_ms = *r.pick(&[80, 80, 80, 1000]);
    c.c_seek = r.chance(30);
    c.s_seek = r.chance(30);
    c.port_change = r.chance(30);
    c.lat_us = *r.pick(&[100, 1000, 20_000]);
    match r.below(10) {
        0..=4 => {}
        5..=6 => c.level = "data",
        7 => c.level = "protocol",
        8 => {
            c.level = "protocol";
            c.c_key = true;
            c.s_key = true;
            c.pin = r.chance(50);
        }
        _ => {
            c.level = "full";
            c.c_key = r.chance(50);
            c.s_key = true;
            c.pin = true;
        }
    }
    if c.level == "full" || c.c_key && c.pin {
        // the first packet is padded to the client's block size: larger ones do not fit the server's buffer
        c.c_block = c.c_block.min(c.s_block);
    }
    let bs = payload_size(&c);
    let blocks = r.below(12) as usize;
    c.size = blocks * bs
        + match r.below(5) {
            0 => 0,
            1 => 1,
            2 => bs - 1,
            _ => r.below(bs as u64) as usize,
        };
    c
}

/// Bytes in a full block of the session this configuration leads to (an estimate for sizing files).
pub fn payload_size(c: &TCfg) -> usize {
    let b = c.c_block.min(c.s_block) as usize;
    b - match c.level {
        "data" => 40,
        "protocol" | "full" => 41,
        _ => 0,
    }
}

/// Random transfers over a lossy network that eventually delivers.
fn mix(seed: u64, i: u64) -> TCfg {
    let mut r = Rnd(seed.wrapping_mul(77_777_777).wrapping_add(i));
    let mut c = base(&mut r, "mix", seed, i);
    let p = *r.pick(&[0, 5, 15, 30, 50]);
    c.plan_c = plan(&mut r, p, 40);
    c.plan_s = plan(&mut r, p, 40);
    c
}

/// Encrypted transfers with an attacker on the path that adds packets of its own.
fn forge(seed: u64, i: u64) -> TCfg {
    let mut r = Rnd(seed.wrapping_mul(11_111_119).wrapping_add(i));
    let mut c = base(&mut r, "forge", seed, i);
    if c.level == "none" {
        c.level = *r.pick(&["data", "protocol", "protocol"]);
        let bs = payload_size(&c);
        c.size = bs * r.below(12) as usize + r.below(bs as u64) as usize;
    }
    c.forge_pct = *r.pick(&[5, 20, 40, 60]);
    let p = *r.pick(&[0, 0, 5, 15]);
    c.plan_c = plan(&mut r, p, 40);
    c.plan_s = plan(&mut r, p, 40);
    c
}

/// Transfers among strangers that send packets to both ends.
fn strangers(seed: u64, i: u64) -> TCfg {
    let mut r = Rnd(seed.wrapping_mul(12_121_213).wrapping_add(i));
    let mut c = base(&mut r, "strangers", seed, i);
    c.stranger_pct = *r.pick(&[5, 20, 40, 60]);
    let p = *r.pick(&[0, 0, 5, 15]);
    c.plan_c = plan(&mut r, p, 40);
    c.plan_s = plan(&mut r, p, 40);
    c
}

/// Storage that fails, at the receiver or the sender.
fn faults(seed: u64, i: u64) -> TCfg {
    let mut r = Rnd(seed.wrapping_mul(99_999_937).wrapping_add(i));
    let mut c = base(&mut r, "faults", seed, i);
    let p = *r.pick(&[0, 0, 10]);
    c.plan_c = plan(&mut r, p, 20);
    c.plan_s = plan(&mut r, p, 20);
    c.fair = false;
    let bs = payload_size(&c) as u64;
    let at = match r.below(3) {
        0 => r.below(c.size as u64 + 1),
        1 => r.below(c.size as u64 / bs + 1) * bs,
        _ => (c.size as u64).saturating_sub(1 + r.below(bs)),
    };
    if r.chance(75) {
        c.wfault = WriteFault { room: Some(at), error: r.chance(50) };
    } else {
        c.rfault = Some(at);
    }
    c
}

/// Every placement of one fault, and seeded pairs, on small transfers.
fn grid(seed: u64, i: u64) -> TCfg {
    let mut c = TCfg::default();
    c.id = format!("grid-{seed}-{i}");
    c.seed = i + 1;
    let mut k = i;
    let mut take = |n: u64| {
        let v = k % n;
        k /= n;
        v
    };
    c.upload = take(2) == 0;
    let win = [1u16, 2, 4][take(3) as usize];
    c.c_win = win;
    let blocks = take(5);
    let short = take(2);
    c.size = (blocks * 512 + short * 100) as usize;
    let pos = take(8) as usize;
    let dir = take(2);
    let a = [Act::Drop, Act::Dup, Act::Late(900), Act::DupLate(1500)][take(4) as usize];
    let round = k;
    let mut p = vec![Act::Pass; 20];
    p[pos] = a;
    let mut q = vec![Act::Pass; 20];
    if round > 0 {
        let mut r = Rnd(seed.wrapping_mul(31).wrapping_add(i));
        for _ in 0..round {
            let j = r.below(12) as usize;
            if r.chance(50) {
                p[j] = act(&mut r);
            } else {
                q[j] = act(&mut r);
            }
        }
        c.c_seek = r.chance(30);
        c.s_seek = r.chance(30);
    }
    if dir == 0 {
        c.plan_c = p;
        c.plan_s = q;
    } else {
        c.plan_s = p;
        c.plan_c = q;
    }
    c
}

/// Long silences: many losses in a row, then delivery.
fn bursts(seed: u64, i: u64) -> TCfg {
    let mut r = Rnd(seed.wrapping_mul(55_555_567).wrapping_add(i));
    let mut c = base(&mut r, "bursts", seed, i);
    c.c_retry_ms = 80;
    let mut p = vec![Act::Pass; 60];
    let a = r.below(6) as usize;
    let n = 1 + r.below(7) as usize;
    for x in p.iter_mut().skip(a).take(n) {
        *x = Act::Drop;
    }
    // a second burst
    if r.chance(50) {
        let a = r.below(40) as usize;
        let n = 1 + r.below(5) as usize;
        for x in p.iter_mut().skip(a).take(n) {
            *x = Act::Drop;
        }
    }
    if r.chance(50) {
        c.plan_c = p;
    } else {
        c.plan_s = p;
    }
    c
}

/// The exchange of request and reply is disturbed too.
fn handshake(seed: u64, i: u64) -> TCfg {
    let mut r = Rnd(seed.wrapping_mul(22_222_223).wrapping_add(i));
    let mut c = base(&mut r, "handshake", seed, i);
    c.from_start = true;
    c.fair = false;
    c.c_timeout_ms = 3000;
    c.s_timeout_ms = 3000;
    let early = *r.pick(&[20, 40, 60]);
    c.plan_c = plan(&mut r, early, 5);
    c.plan_s = plan(&mut r, early, 6);
    let p = *r.pick(&[0, 0, 10]);
    let (a, b) = (plan(&mut r, p, 15), plan(&mut r, p, 15));
    c.plan_c.extend(a);
    c.plan_s.extend(b);
    c
}

/// Acknowledgements that come only when the sender has begun to repeat itself.
fn late(seed: u64, i: u64) -> TCfg {
    let mut r = Rnd(seed.wrapping_mul(33_333_347).wrapping_add(i));
    let mut c = base(&mut r, "late", seed, i);
    c.c_retry_ms = 80;
    c.lat_us = *r.pick(&[25, 45, 100]);
    c.c_win = *r.pick(&[2, 3, 4, 5, 8, 8, 16, 16]);
    c.s_win = 16;
    c.c_seek = r.chance(50);
    c.s_seek = r.chance(50);
    if c.level != "none" {
        c.level = "data";
        c.full = false;
    }
    let bs = payload_size(&c);
    c.size = bs * (c.c_win as usize * (1 + r.below(4) as usize) + r.below(5) as usize) + r.below(bs as u64) as usize;
    c.hold_pct = *r.pick(&[30, 60, 100]);
    let p = *r.pick(&[0, 0, 5]);
    c.plan_c = plan(&mut r, p, 60);
    c.plan_s = plan(&mut r, p, 60);
    c
}

/// A transfer that loses one packet in a few for all of its length.
fn steady(seed: u64, i: u64) -> TCfg {
    let mut r = Rnd(seed.wrapping_mul(44_444_467).wrapping_add(i));
    let mut c = base(&mut r, "steady", seed, i);
    c.c_retry_ms = 80;
    let bs = payload_size(&c);
    c.size = bs * (100 + r.below(300) as usize) + r.below(bs as u64) as usize;
    // the packets must be recognisable by their headers
    if c.level != "none" {
        c.level = "data";
        c.full = false;
    }
    let p = 20 + r.below(31);
    match r.below(4) {
        0 | 1 => c.loss_c = p,
        2 => c.loss_s = p,
        _ => {
            c.loss_c = p / 2;
            c.loss_s = p / 2;
        }
    }
    c.limit_ms = 1_200_000;
    c
}

/// Transfers past the end of the block numbers, disturbed where the numbering changes its mind.
fn wrap(seed: u64, i: u64) -> TCfg {
    let mut r = Rnd(seed.wrapping_mul(66_666_667).wrapping_add(i));
    let mut c = TCfg::default();
    c.id = format!("wrap-{seed}-{i}");
    c.seed = seed.wrapping_mul(1_000_003).wrapping_add(i);
    c.upload = i % 2 == 0;
    let stack = !cfg!(feature = "alloc");
    let wide = i % 5 > 2 && !stack;
    c.c_win = match (i / 2) % 3 {
        _ if wide => *r.pick(&[130, 230, 350, 500, 777, 1000]),
        0 => *r.pick(&[8, 16]),
        1 if !stack => *r.pick(&[40, 64]),
        1 => 5,
        _ => *r.pick(&[2, 4]),
    };
    c.s_win = if stack { 16 } else if wide { 1000 } else { 64 };
    c.c_seek = r.chance(50);
    c.s_seek = r.chance(50);
    c.lat_us = *r.pick(&[50, 100]);
    let wraps = if r.chance(25) { 2 } else { 1 };
    // full blocks before the last, short one
    let blocks = 65536 * wraps
        + match r.below(6) {
            0 => 0,
            1 => 1,
            _ if wide => 11_000,
            2 => r.below(40),
            _ => 10_100 + r.below(300),
        }
        - r.below(2);
    c.size = blocks as usize * 512 + *r.pick(&[0, 1, 511]);
    for w in 1..=wraps {
        let b = w * 65536;
        c.zones.push((b - 10_010, b - 9_990));
        c.zones.push((b - 9_950, b - 9_930));
        c.zones.push((b - 2050, b - 2030));
        c.zones.push((b - 60, b + 60));
        c.zones.push((b + 9_960, b + 10_040));
        c.zones.push((b - 65536 + 19_990, b - 65536 + 20_010));
    }
    c.zone_pct = *r.pick(&[10, 25, 40]);
    c.limit_ms = 3_600_000;
    c
}

/// One behaviour of the model per case: "N Win Storage action action ...".
pub fn schedule_case(suite: &str, line: &str, seed: u64, i: u64) -> (TCfg, Vec<String>) {
    let mut w = line.split_whitespace();
    let n: usize = w.next().expect("N").parse().expect("N");
    let win: u16 = w.next().expect("Win").parse().expect("Win");
    let storage = w.next().expect("Storage");
    let actions: Vec<String> = w.map(String::from).collect();
    let mut r = Rnd(seed.wrapping_mul(12_345_701).wrapping_add(i));
    let mut c = TCfg::default();
    c.id = format!("{suite}-{seed}-{i}");
    c.seed = seed.wrapping_mul(1_000_003).wrapping_add(i);
    c.upload = i % 2 == 0;
    c.c_win = win;
    c.c_seek = r.chance(40);
    c.s_seek = r.chance(40);
    c.level = *r.pick(&["none", "none", "none", "data", "protocol"]);
    c.port_change = r.chance(20);
    let bs = payload_size(&c);
    c.size = (n - 1) * bs + *r.pick(&[0, 1, 100, bs - 1]);
    if storage == "fails" {
        c.fair = false;
        if let Some(f) = actions.iter().find(|a| a.starts_with('f')) {
            let k: usize = f[1..].parse().unwrap();
            let len = bs.min(c.size - (k - 1) * bs);
            let at = (k - 1) * bs + if len > 1 { r.below(len as u64) as usize } else { 0 };
            c.wfault = WriteFault { room: Some(at as u64), error: r.chance(50) };
        }
    }
    (c, actions)
}

pub fn transfer_case(suite: &str, seed: u64, i: u64) -> TCfg {
    match suite {
        "mix" => mix(seed, i),
        "faults" => faults(seed, i),
        "strangers" => strangers(seed, i),
        "forge" => forge(seed, i),
        "grid" => grid(seed, i),
        "bursts" => bursts(seed, i),
        "steady" => steady(seed, i),
        "wrap" => wrap(seed, i),
        "late" => late(seed, i),
        "handshake" => handshake(seed, i),
        _ => panic!("no suite {suite}"),
    }
}
