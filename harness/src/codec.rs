//! Datagrams of the specification (WireGen) given to the packet codec of the library.
use std::panic::{catch_unwind, AssertUnwindSafe};

use tftp_dus::packet::{ByteConverter, Packet};

use crate::wire::{self, P};

const NAMES: [&str; 8] = ["blksize", "timeout", "tsize", "windowsize", "enclevel", "spubk", "apubk", "sig"];

#[derive(Default)]
struct F {
    k: &'static str,
    file: Vec<u8>,
    opts: Vec<(usize, Vec<u8>)>,
    blk: u16,
    payload: Vec<u8>,
    code: u16,
    msg: Vec<u8>,
}

fn nums(b: &[u8]) -> String {
    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

impl F {
    fn json(&self) -> String {
        let o: Vec<String> = self.opts.iter().map(|(n, v)| format!("[{n},{}]", nums(v))).collect();
        format!(
            "{{\"k\":\"{}\",\"file\":{},\"opts\":[{}],\"blk\":{},\"payload\":{},\"code\":{},\"msg\":{}}}",
            self.k,
            nums(&self.file),
            o.join(","),
            self.blk,
            nums(&self.payload),
            self.code,
            nums(&self.msg)
        )
    }
}

fn index(n: &str) -> usize {
    NAMES.iter().position(|x| n.eq_ignore_ascii_case(x)).map_or(0, |p| p + 1)
}

fn of_code(p: &Packet) -> F {
    let opts = |e: &tftp_dus::packet::PacketExtensions| e.iter().map(|(k, v)| (index(k.as_str()), v.as_bytes().to_vec())).collect();
    match p {
        Packet::Read(r) => F { k: "rrq", file: r.file_name.as_bytes().to_vec(), opts: opts(&r.extensions), ..F::default() },
        Packet::Write(r) => F { k: "wrq", file: r.file_name.as_bytes().to_vec(), opts: opts(&r.extensions), ..F::default() },
        Packet::Data(d) => F { k: "data", blk: d.block, payload: d.data.to_vec(), ..F::default() },
        Packet::Ack(a) => F { k: "ack", blk: a.block, ..F::default() },
        Packet::Error(e) => F { k: "err", code: e.code as u16, msg: e.message.as_bytes().to_vec(), ..F::default() },
        Packet::OptionalAck(o) => F { k: "oack", opts: opts(&o.extensions), ..F::default() },
    }
}

/// the codec of the harness, so that it is checked as well
fn of_oracle(b: &[u8]) -> F {
    let opts = |o: Vec<(String, String)>| {
        let mut v: Vec<(usize, Vec<u8>)> = vec![];
        for (n, x) in o {
            let n = index(&n);
            if n > 0 {
                v.retain(|y| y.0 != n);
                v.push((n, x.into_bytes()));
            }
        }
        v
    };
    let bad = || F { k: "bad", ..F::default() };
    match wire::parse(b) {
        P::Rrq { mode, .. } | P::Wrq { mode, .. } if !mode.eq_ignore_ascii_case("octet") => bad(),
        P::Rrq { file, opts: o, .. } => F { k: "rrq", file: file.into_bytes(), opts: opts(o), ..F::default() },
        P::Wrq { file, opts: o, .. } => F { k: "wrq", file: file.into_bytes(), opts: opts(o), ..F::default() },
        P::Data { blk, payload } => F { k: "data", blk, payload, ..F::default() },
        P::Ack { blk } => F { k: "ack", blk, ..F::default() },
        P::Err { code, msg } => F { k: "err", code, msg: msg.into_bytes(), ..F::default() },
        P::Oack { opts: o } => F { k: "oack", opts: opts(o), ..F::default() },
        P::Bad => bad(),
    }
}

fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn bytes(line: &str) -> Vec<u8> {
    line.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().expect("byte")).collect()
}

pub fn case(suite: &str, line: &str, seed: u64, i: u64) -> String {
    let b = bytes(line);
    let mut again = vec![];
    let (mut fit, mut tight) = (-1, -1);
    let read = quiet(|| Packet::from_bytes(&b).ok().map(|p| of_code(&p)));
    let f = match read {
        None => F { k: "panic", ..F::default() },
        Some(None) => F { k: "bad", ..F::default() },
        Some(Some(f)) => {
            again = quiet(|| Packet::from_bytes(&b).unwrap().to_bytes().to_vec()).unwrap_or_default();
            let mut buf = vec![0xa5u8; again.len()];
            let n = quiet(|| Packet::from_bytes(&b).unwrap().to_buffer(&mut buf));
            fit = (n == Some(Some(again.len())) && buf == again) as i32;
            if !again.is_empty() {
                let mut buf = vec![0u8; again.len() - 1];
                tight = (quiet(|| Packet::from_bytes(&b).unwrap().to_buffer(&mut buf)) == Some(None)) as i32;
            }
            f
        }
    };
    format!(
        "{{\"id\":\"{suite}-{seed}-{i}\",\"stack\":{},\"b\":{},\"r\":{},\"again\":{},\"fit\":{fit},\"tight\":{tight},\"ora\":{}}}",
        cfg!(not(feature = "alloc")) as u8,
        nums(&b),
        f.json(),
        nums(&again),
        of_oracle(&b).json()
    )
}
