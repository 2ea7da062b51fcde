//! In-memory files with scripted faults; every write is recorded.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

use tftp_dus::std_compat::io;

use crate::sim::{current_node, next_file_id, now, record, Ev};

#[derive(Clone, Default, Debug)]
pub struct WriteFault {
    /// total bytes accepted before the storage is full
    pub room: Option<u64>,
    /// when full: true reports an error, false accepts what fits and then nothing
    pub error: bool,
}

#[derive(Clone, Default)]
pub struct Store(pub Arc<Mutex<Inner>>);

#[derive(Default)]
pub struct Inner {
    pub files: HashMap<String, Arc<Vec<u8>>>,
    pub write_fault: WriteFault,
    /// read at most so many bytes at once (0: no limit)
    pub read_error_at: Option<u64>,
    pub allow_overwrite: bool,
    pub deny_write: bool,
    pub size_hint: bool,
}

pub struct MemReader {
    data: Arc<Vec<u8>>,
    pos: u64,
    error_at: Option<u64>,
}

impl MemReader {
    pub fn new(data: Arc<Vec<u8>>) -> MemReader {
        MemReader { data, pos: 0, error_at: None }
    }
}

impl io::Read for MemReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(e) = self.error_at {
            if self.pos >= e {
                return Err(io::Error::from(io::ErrorKind::PermissionDenied));
            }
        }
        let p = (self.pos as usize).min(self.data.len());
        let n = buf.len().min(self.data.len() - p);
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl io::Seek for MemReader {
    fn seek(&mut self, pos: io::SeekFrom) -> io::Result<u64> {
        self.pos = match pos {
            io::SeekFrom::Start(p) => p,
            io::SeekFrom::Current(d) => (self.pos as i64 + d) as u64,
            io::SeekFrom::End(d) => (self.data.len() as i64 + d) as u64,
        };
        Ok(self.pos)
    }
}

pub struct MemWriter {
    pub file: u64,
    off: u64,
    fault: WriteFault,
}

impl MemWriter {
    pub fn new(file: u64, fault: WriteFault) -> MemWriter {
        MemWriter { file, off: 0, fault }
    }
}

impl io::Write for MemWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len();
        if let Some(room) = self.fault.room {
            let left = room.saturating_sub(self.off) as usize;
            if n > left {
                record(Ev::WrFail { t: now(), node: current_node(), file: self.file });
                if left == 0 || self.fault.error {
                    if self.fault.error || left == 0 {
                        return if self.fault.error {
                            Err(io::Error::from(io::ErrorKind::Other))
                        } else {
                            Ok(0)
                        };
                    }
                }
                n = left;
            }
        }
        record(Ev::Wr { t: now(), node: current_node(), file: self.file, off: self.off, bytes: Arc::new(buf[..n].to_vec()) });
        self.off += n as u64;
        Ok(n)
    }
    fn write_fmt(&mut self, _fmt: core::fmt::Arguments<'_>) -> io::Result<()> {
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Drop for MemWriter {
    fn drop(&mut self) {
        record(Ev::Close { t: now(), node: current_node(), file: self.file });
    }
}

impl Store {
    pub fn put(&self, name: &str, data: Vec<u8>) {
        self.0.lock().unwrap().files.insert(name.into(), Arc::new(data));
    }

    pub fn open_read(&self, path: &str) -> Option<(Option<u64>, MemReader)> {
        let g = self.0.lock().unwrap();
        let data = g.files.get(path).cloned();
        let (ea, hint) = (g.read_error_at, g.size_hint);
        drop(g);
        let ok = data.is_some();
        let id = next_file_id();
        record(Ev::Open { t: now(), node: current_node(), mode: "r", path: path.into(), ok, file: id });
        let data = data?;
        let n = data.len() as u64;
        let mut r = MemReader::new(data);
        r.error_at = ea;
        Some((if hint { Some(n) } else { None }, r))
    }

    pub fn open_write(&self, path: &str) -> Option<MemWriter> {
        let mut g = self.0.lock().unwrap();
        let exists = g.files.contains_key(path);
        let ok = !g.deny_write && (!exists || g.allow_overwrite);
        let fault = g.write_fault.clone();
        if ok {
            g.files.insert(path.into(), Arc::new(vec![]));
        }
        drop(g);
        let id = next_file_id();
        record(Ev::Open { t: now(), node: current_node(), mode: "w", path: path.into(), ok, file: id });
        ok.then(|| MemWriter::new(id, fault))
    }
}

/// File content in which every block is different; `tail` shapes the last byte of every block, where
/// padding and short blocks are decided.
pub fn content(seed: u64, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len + 8);
    let mut x = seed.wrapping_mul(0xD6E8FEB86659FD93) ^ 0x1234567;
    while v.len() < len {
        v.extend_from_slice(&crate::rng::mix(&mut x).to_le_bytes());
    }
    v.truncate(len);
    let tails: [u8; 6] = [0x00, 0xff, 0x01, 0x80, 0x7f, 0xfe];
    if len > 0 {
        v[len - 1] = tails[(seed % 6) as usize];
    }
    if len > 20 && seed % 3 == 0 {
        for b in &mut v[len - 3..len - 1] {
            *b = tails[(seed % 6) as usize];
        }
    }
    v
}
