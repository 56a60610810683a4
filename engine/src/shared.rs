//! state shared by all path processes
use crate::sys;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicU8, Ordering::*};
pub const NOTES: usize = 512;
pub const NLEN: usize = 480;
pub const COV: usize = 1 << 16;
pub const CACHE: usize = 1 << 18;
#[repr(C)]
pub struct Shared {
    pub instrs: AtomicU64, pub queries: AtomicU64, pub solver_ns: AtomicU64, pub unknowns: AtomicU64, pub max_path_instrs: AtomicU64,
    pub paths_ok: AtomicU64, pub paths_assume: AtomicU64, pub paths_panic: AtomicU64, pub paths_mem: AtomicU64, pub paths_limit: AtomicU64, pub paths_inconclusive: AtomicU64,
    pub forks: AtomicU64, pub pending: AtomicU64, pub crashed: AtomicU64, pub truncated: AtomicU64, pub deadline: AtomicU64, pub viols: AtomicU64,
    pub or_calls: AtomicU64, pub or_queries: AtomicU64, pub or_cached: AtomicU64, pub or_ns: AtomicU64, pub or_checks: AtomicU64,
    tokens: AtomicI64,
    lock: AtomicU32,
    nnotes: AtomicU64,
    notes: [[u8; NLEN]; NOTES],
    ncount: [AtomicU64; NOTES],
    cov: [AtomicU8; COV],
    cache: [AtomicU64; CACHE],
}
pub static mut SH: *mut Shared = std::ptr::null_mut();
pub fn init(jobs: i64, secs: u64) {
    unsafe {
        let p = sys::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), sys::PROT_RW, sys::MAP_SHARED | sys::MAP_ANON, -1, 0) as *mut Shared;
        SH = p;
        (*p).tokens.store(jobs, SeqCst);
        (*p).deadline.store((*p).now() + secs * 1000, SeqCst);
    }
}
impl Shared {
    pub fn now(&self) -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64 }
    pub fn wait(&self) {
        loop {
            let t = self.tokens.load(SeqCst);
            if t > 0 && self.tokens.compare_exchange(t, t - 1, SeqCst, SeqCst).is_ok() { return }
            unsafe { sys::usleep(2000); }
        }
    }
    pub fn post(&self) { self.tokens.fetch_add(1, SeqCst); }
    pub fn cover(&self, i: usize) { if i < COV { self.cov[i].store(1, Relaxed) } }
    pub fn covered(&self, i: usize) -> bool { i < COV && self.cov[i].load(Relaxed) != 0 }
    pub fn note(&self, s: &str) {
        let mut s = s.as_bytes();
        if s.len() > NLEN - 1 { s = &s[..NLEN - 1] }
        while self.lock.compare_exchange(0, 1, SeqCst, SeqCst).is_err() { unsafe { sys::usleep(50); } }
        let n = self.nnotes.load(SeqCst) as usize;
        let mut hit = false;
        for i in 0..n { let l = self.notes[i].iter().position(|c| *c == 0).unwrap(); if &self.notes[i][..l] == s { self.ncount[i].fetch_add(1, SeqCst); hit = true; break } }
        if !hit && n < NOTES {
            unsafe { let p = self.notes[n].as_ptr() as *mut u8; std::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len()); *p.add(s.len()) = 0; }
            self.ncount[n].store(1, SeqCst);
            self.nnotes.store(n as u64 + 1, SeqCst);
        }
        self.lock.store(0, SeqCst);
    }
    pub fn all_notes(&self) -> Vec<(String, u64)> {
        (0..self.nnotes.load(SeqCst) as usize).map(|i| { let l = self.notes[i].iter().position(|c| *c == 0).unwrap(); (String::from_utf8_lossy(&self.notes[i][..l]).into_owned(), self.ncount[i].load(SeqCst)) }).collect()
    }
    /// set of 62-bit keys of queries already discharged; value bit tells the verdict
    pub fn cache_get(&self, h: u64) -> Option<bool> {
        let k = (h | 2) & !1;
        let mut i = (h >> 20) as usize % CACHE;
        for _ in 0..64 { let v = self.cache[i].load(SeqCst); if v == 0 { return None } if v & !1 == k { return Some(v & 1 == 1) } i = (i + 1) % CACHE }
        None
    }
    pub fn cache_put(&self, h: u64, b: bool) {
        let k = ((h | 2) & !1) | b as u64;
        let mut i = (h >> 20) as usize % CACHE;
        for _ in 0..64 { if self.cache[i].compare_exchange(0, k, SeqCst, SeqCst).is_ok() { return } i = (i + 1) % CACHE }
    }
}
