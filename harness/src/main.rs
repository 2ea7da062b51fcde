#![allow(dead_code, clippy::all)]
//! vharness transfers SUITE SEED FROM TO   one history per line on stdout
mod codec;
mod grow;
mod hostile;
mod json;
mod limit;
mod nego;
mod rest;
mod rng;
mod scripted;
mod sec;
mod served;
mod silence;
mod sim;
mod store;
mod suites;
mod table;
mod transfer;
mod wire;

use std::io::Write;

use transfer::*;

fn stimuli() -> Vec<String> {
    let p = std::env::var("STIM").expect("STIM");
    std::fs::read_to_string(p).expect("stimuli").lines().map(|l| l.trim_matches('"').to_string()).collect()
}

fn main() {
    sim::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    // commands that run the real program in real time
    if a[1].ends_with("served") {
        sim::REAL.store(true, std::sync::atomic::Ordering::SeqCst);
    } else {
        sim::start_watchdog(60, || std::process::exit(77));
    }
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    match a[1].as_str() {
        "transfers" => {
            let step = a.get(6).map(|x| x.parse::<usize>().unwrap()).unwrap_or(1);
            for i in (n(4)..n(5)).step_by(step) {
                let mut r = run(&suites::transfer_case(&a[2], n(3), i));
                writeln!(out, "{}", trace_json(&mut r)).unwrap();
            }
        }
        "schedules" => {
            let stim = stimuli();
            let step = a.get(6).map(|x| x.parse::<usize>().unwrap()).unwrap_or(1);
            for i in (n(4)..n(5)).step_by(step) {
                let (c, actions) = suites::schedule_case(&a[2], &stim[(i / 2) as usize], n(3), i);
                let (mut r, followed) = run_schedule(&c, &actions);
                let mut t = trace_json(&mut r);
                t.pop();
                writeln!(out, "{t},\"acts\":{},\"followed\":{followed}}}", actions.len()).unwrap();
            }
        }
        "nego" => {
            let stim = stimuli();
            let step = a.get(6).map(|x| x.parse::<usize>().unwrap()).unwrap_or(1);
            for i in (n(4)..n(5)).step_by(step) {
                let mut r = nego::case(&a[2], &stim[i as usize], n(3), i);
                writeln!(out, "{}", trace_json(&mut r)).unwrap();
            }
        }
        "sec" => {
            let stim = stimuli();
            let step = a.get(6).map(|x| x.parse::<usize>().unwrap()).unwrap_or(1);
            for i in (n(4)..n(5)).step_by(step) {
                let mut r = sec::case(&a[2], &stim[i as usize], n(3), i);
                writeln!(out, "{}", trace_json(&mut r)).unwrap();
            }
        }
        "table" => {
            let stim = stimuli();
            let step = a.get(6).map(|x| x.parse::<usize>().unwrap()).unwrap_or(1);
            for i in (n(4)..n(5)).step_by(step) {
                writeln!(out, "{}", table::case(&a[2], &stim[i as usize], n(3), i).0).unwrap();
            }
        }
        "limit" => {
            let stim = stimuli();
            let step = a.get(6).map(|x| x.parse::<usize>().unwrap()).unwrap_or(1);
            for i in (n(4)..n(5)).step_by(step) {
                let mut r = limit::case(&a[2], &stim[i as usize], n(3), i);
                writeln!(out, "{}", trace_json(&mut r)).unwrap();
            }
        }
        "silence" => {
            let stim = stimuli();
            let step = a.get(6).map(|x| x.parse::<usize>().unwrap()).unwrap_or(1);
            for i in (n(4)..n(5)).step_by(step) {
                writeln!(out, "{}", silence::case(&a[2], &stim[i as usize], n(3), i).0).unwrap();
            }
        }
        "served" => {
            let stim = stimuli();
            let step = a.get(6).map(|x| x.parse::<usize>().unwrap()).unwrap_or(1);
            let mut w = served::World::new();
            for i in (n(4)..n(5)).step_by(step) {
                writeln!(out, "{}", w.case(&a[2], &stim[i as usize], n(3), i)).unwrap();
            }
        }
        "codec" => {
            let stim = stimuli();
            let step = a.get(6).map(|x| x.parse::<usize>().unwrap()).unwrap_or(1);
            for i in (n(4)..n(5)).step_by(step) {
                writeln!(out, "{}", codec::case(&a[2], &stim[i as usize], n(3), i)).unwrap();
            }
        }
        "hostile" => {
            let stim = stimuli();
            let step = a.get(6).map(|x| x.parse::<usize>().unwrap()).unwrap_or(1);
            for i in (n(4)..n(5)).step_by(step) {
                writeln!(out, "{}", hostile::case(&a[2], &stim, n(3), i).0).unwrap();
            }
        }
        "hostileserved" | "show-hostileserved" => {
            let stim = stimuli();
            let mut w = hostile::program::World::new();
            if a[1].starts_with("show") {
                writeln!(out, "{}", w.case(&a[2], &stim, n(3), n(4))).unwrap();
            } else {
                let step = a.get(6).map(|x| x.parse::<usize>().unwrap()).unwrap_or(1);
                for i in (n(4)..n(5)).step_by(step) {
                    writeln!(out, "{}", w.case(&a[2], &stim, n(3), i)).unwrap();
                }
            }
        }
        "rest" => {
            let stim = stimuli();
            let step = a.get(6).map(|x| x.parse::<usize>().unwrap()).unwrap_or(1);
            for i in (n(4)..n(5)).step_by(step) {
                writeln!(out, "{}", rest::case(&a[2], &stim[i as usize % stim.len()], n(3), i).json).unwrap();
            }
        }
        "restserved" | "show-restserved" => {
            let stim = stimuli();
            let mut w = rest::program::World::new();
            let step = a.get(6).map(|x| x.parse::<usize>().unwrap()).unwrap_or(1);
            let to = if a[1].starts_with("show") { n(4) + 1 } else { n(5) };
            for i in (n(4)..to).step_by(step) {
                writeln!(out, "{}", w.case(&a[2], &stim[i as usize % stim.len()], n(3), i)).unwrap();
            }
        }
        "growserved" | "show-growserved" | "pipeserved" | "show-pipeserved" => {
            let stim = stimuli();
            let mut w = grow::World::new();
            let step = a.get(6).map(|x| x.parse::<usize>().unwrap()).unwrap_or(1);
            let to = if a[1].starts_with("show") { n(4) + 1 } else { n(5) };
            for i in (n(4)..to).step_by(step) {
                let line = &stim[i as usize % stim.len()];
                let t = if a[1].contains("pipe") { w.pipe(&a[2], line, n(3), i) } else { w.case(&a[2], line, n(3), i) };
                writeln!(out, "{t}").unwrap();
            }
        }
        "show-rest" => {
            let stim = stimuli();
            let line = &stim[n(4) as usize % stim.len()];
            let r = rest::case(&a[2], line, n(3), n(4));
            let mut o = oracle_for(&r.cfg);
            writeln!(out, "{line}\n{:?}", r.cfg).unwrap();
            for e in r.ev {
                writeln!(out, "{}", sim::describe(&e, r.start, &mut o)).unwrap();
            }
            writeln!(out, "{}", r.json).unwrap();
        }
        "show-hostile" => {
            let stim = stimuli();
            let (json, ev, start, c) = hostile::case(&a[2], &stim, n(3), n(4));
            let mut o = oracle_for(&c);
            writeln!(out, "{}\n{c:?}", stim[n(4) as usize % stim.len()]).unwrap();
            for e in ev {
                writeln!(out, "{}", sim::describe(&e, start, &mut o)).unwrap();
            }
            writeln!(out, "{json}").unwrap();
        }
        "show-codec" => {
            let line = stimuli()[n(4) as usize].clone();
            writeln!(out, "{line}\n{}", codec::case(&a[2], &line, n(3), n(4))).unwrap();
        }
        "show-served" => {
            let line = stimuli()[n(4) as usize].clone();
            writeln!(out, "{line}\n{}", served::World::new().case(&a[2], &line, n(3), n(4))).unwrap();
        }
        "show-silence" => {
            let line = stimuli()[n(4) as usize].clone();
            let (json, ev, start, c) = silence::case(&a[2], &line, n(3), n(4));
            let mut o = oracle_for(&c);
            writeln!(out, "{line}\n{c:?}").unwrap();
            for e in ev {
                writeln!(out, "{}", sim::describe(&e, start, &mut o)).unwrap();
            }
            writeln!(out, "{json}").unwrap();
        }
        "show-table" => {
            let line = stimuli()[n(4) as usize].clone();
            let (json, ev, start) = table::case(&a[2], &line, n(3), n(4));
            let mut o = table::oracle();
            writeln!(out, "{line}").unwrap();
            for e in ev {
                writeln!(out, "{}", sim::describe(&e, start, &mut o)).unwrap();
            }
            writeln!(out, "{json}").unwrap();
        }
        "show-transfers" | "show-schedules" | "show-nego" | "show-sec" | "show-limit" => {
            let mut r = if a[1] == "show-limit" {
                let line = stimuli()[n(4) as usize].clone();
                eprintln!("{line}");
                limit::case(&a[2], &line, n(3), n(4))
            } else if a[1] == "show-sec" {
                let line = stimuli()[n(4) as usize].clone();
                eprintln!("{line}");
                sec::case(&a[2], &line, n(3), n(4))
            } else if a[1] == "show-nego" {
                let line = stimuli()[n(4) as usize].clone();
                eprintln!("{line}");
                nego::case(&a[2], &line, n(3), n(4))
            } else if a[1] == "show-transfers" {
                let c = suites::transfer_case(&a[2], n(3), n(4));
                eprintln!("{c:?}");
                run(&c)
            } else {
                let line = stimuli()[(n(4) / 2) as usize].clone();
                let (c, actions) = suites::schedule_case(&a[2], &line, n(3), n(4));
                eprintln!("{c:?}\n{line}");
                run_schedule(&c, &actions).0
            };
            let base = r.start;
            for e in r.ev.clone() {
                writeln!(out, "{}", sim::describe(&e, base, &mut r.oracle)).unwrap();
            }
            writeln!(out, "{}", trace_json(&mut r)).unwrap();
        }
        x => panic!("unknown command {x}"),
    }
    out.flush().unwrap();
}
