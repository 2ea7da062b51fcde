//! Deterministic random numbers which remember what they handed out (so that the harness can read
//! encrypted traffic).
use std::sync::Mutex;

use rand::{CryptoRng, RngCore};

pub struct State {
    x: u64,
    pub keys: Vec<[u8; 32]>,
}

pub static STATE: Mutex<State> = Mutex::new(State { x: 1, keys: vec![] });

pub fn reset(seed: u64) {
    let mut s = STATE.lock().unwrap_or_else(|e| e.into_inner());
    s.x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    s.keys.clear();
}

pub fn mix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

#[derive(Clone, Copy, Default)]
pub struct DetRng;

impl RngCore for DetRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        mix(&mut STATE.lock().unwrap_or_else(|e| e.into_inner()).x)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let mut s = STATE.lock().unwrap_or_else(|e| e.into_inner());
        for c in dest.chunks_mut(8) {
            let v = mix(&mut s.x).to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&v[..n]);
        }
        if dest.len() == 32 {
            let k: [u8; 32] = dest.try_into().unwrap();
            s.keys.push(k);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for DetRng {}

pub fn keys() -> Vec<[u8; 32]> {
    STATE.lock().unwrap_or_else(|e| e.into_inner()).keys.clone()
}

/// Small generator for the scenarios themselves.
#[derive(Clone)]
pub struct Rnd(pub u64);
impl Rnd {
    pub fn next(&mut self) -> u64 {
        mix(&mut self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn chance(&mut self, percent: u64) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}
