//! Symbolic interpreter for LLVM IR.  One OS process per path: a symbolic branch forks.
use crate::fx::Map;
use crate::ir::*;
use crate::shared::{Shared, SH};
use crate::smt::{Solver, R};
use crate::sys;
use crate::term::{mask, mask128, Op, Terms, T};
use std::rc::Rc;
use std::sync::atomic::Ordering::*;

#[derive(Clone, Debug)]
pub enum V { C(u64), W(u64, u64), T(T), A(Rc<Vec<V>>) }
pub const ARENA: u64 = 0x1000_0000_0000;
pub const ASIZE: u64 = 24 << 30;
pub const SHOFF: u64 = 0x0800_0000_0000;
pub const FBASE: u64 = ARENA + (1 << 20);
pub const GBASE: u64 = ARENA + (64 << 20);
pub const STACK: u64 = ARENA + (2 << 30);
pub const STACK_END: u64 = ARENA + (3 << 30);
pub const HEAP: u64 = ARENA + (3 << 30);

pub struct Func { pub name: String, pub params: Vec<(u32, TyId)>, pub nregs: u32, pub blocks: Vec<Block>, pub defidx: usize }
pub type Stub = fn(&mut M, &[(TyId, V)], TyId) -> V;
#[derive(Clone, Copy)]
pub enum FnState { Unparsed(usize), Ready(&'static Func), Ext(Stub), Unknown }
pub struct FnEntry { pub name: String, pub st: FnState }
pub struct Frame { pub f: &'static Func, pub base: usize, pub blk: u32, pub ip: usize, pub sp: u64, pub dst: u32, pub next: u32 }

pub struct M {
    pub ts: Types,
    pub md: Module,
    pub tm: Terms,
    pub sol: Solver,
    pub regs: Vec<V>,
    pub frames: Vec<Frame>,
    pub fns: Vec<FnEntry>,
    pub fnidx: Map<String, u32>,
    pub gaddr: Map<String, u64>,
    pub gnext: u64,
    pub ginit: Vec<(String, u64)>,
    pub sp: u64,
    pub heap: u64,
    pub allocs: Map<u64, u64>,
    pub sym: Map<u64, T>,
    pub env: crate::stubs::Env,
    pub bits: Vec<u32>,
    pub instrs: u64,
    pub max_instrs: u64,
    pub inputs: Vec<(String, u32, T)>,
    pub children: Vec<i32>,
    pub has_sym: bool,
    pub trace: bool,
    pub pc: Vec<T>,
    pub defidx: Map<String, usize>,
    pub istart: u64,
    pub known: Map<T, bool>,
    /// thread-local globals in use: address, size
    pub tls: Vec<(String, u64, u64)>,
}

macro_rules! sh { () => { unsafe { &*SH } } }

impl M {
    pub fn new(text: &'static [u8], max_instrs: u64) -> Self {
        let mut ts = Types::new();
        let md = index(text, &mut ts);
        unsafe {
            for b in [ARENA, ARENA + SHOFF] {
                let r = sys::mmap(b as *mut _, ASIZE as usize, sys::PROT_RW, sys::MAP_PRIVATE | sys::MAP_ANON | sys::MAP_NORESERVE | sys::MAP_FIXED, -1, 0);
                assert_eq!(r as u64, b);
            }
        }
        let defidx = md.order.iter().enumerate().map(|(i, n)| (n.clone(), i)).collect();
        M { ts, md, tm: Terms::new(), sol: Solver::new(200_000_000), regs: vec![], frames: vec![], fns: vec![], fnidx: Default::default(), gaddr: Default::default(), gnext: GBASE, ginit: vec![], sp: STACK, heap: HEAP, allocs: Default::default(), sym: Default::default(), env: Default::default(), bits: vec![], instrs: 0, max_instrs, inputs: vec![], children: vec![], has_sym: false, trace: false, pc: vec![], defidx, istart: 0, known: Default::default(), tls: vec![] }
    }
    // ---------- path management ----------
    pub fn end(&mut self, kind: &str, msg: &str) -> ! {
        let s: &Shared = sh!();
        s.instrs.fetch_add(self.instrs - self.istart, SeqCst);
        s.queries.fetch_add(self.sol.queries, SeqCst);
        s.solver_ns.fetch_add(self.sol.nanos, SeqCst);
        s.unknowns.fetch_add(self.sol.unknowns, SeqCst);
        s.max_path_instrs.fetch_max(self.instrs, SeqCst);
        match kind {
            "ok" => { s.paths_ok.fetch_add(1, SeqCst); }
            "assume" => { s.paths_assume.fetch_add(1, SeqCst); }
            "panic" => { s.paths_panic.fetch_add(1, SeqCst); if !self.env.panic_ok { let m = format!("panic: {}", self.env.last_stderr()); self.violation("panic", &m); } else { let k = format!("panic: {}", self.env.last_stderr().lines().take(2).collect::<Vec<_>>().join(" ")); s.note(&k) } }
            "fail" => { s.paths_ok.fetch_add(1, SeqCst); self.violation("assert", msg) }
            "mem" => { s.paths_mem.fetch_add(1, SeqCst); let m = format!("{msg} in {}", self.backtrace()); self.violation("memory", &m) }
            "limit" => { s.paths_limit.fetch_add(1, SeqCst); if self.env.limit_viol { let m = format!("{msg} in {}", self.backtrace()); self.violation("nontermination", &m) } else { s.note(&format!("limit: {msg} in {}", self.backtrace())) } }
            _ => { s.paths_inconclusive.fetch_add(1, SeqCst); s.note(&format!("inconclusive: {msg} in {}", self.backtrace())) }
        }
        self.finish()
    }
    pub fn finish(&mut self) -> ! {
        sh!().post();
        let mut bad = 0;
        for c in &self.children { let mut st = 0; unsafe { sys::waitpid(*c, &mut st, 0); } if st != 0 { bad += 1 } }
        if bad > 0 { sh!().crashed.fetch_add(bad, SeqCst); }
        unsafe { sys::_exit(0) }
    }
    pub fn backtrace(&self) -> String {
        self.frames.iter().rev().take(6).map(|f| demangle(&f.f.name)).collect::<Vec<_>>().join(" < ")
    }
    pub fn input_lines(&mut self) -> String {
        let mut r = String::new();
        for (n, _, t) in self.inputs.clone() { let v = self.tm.eval(t); r += &format!("{n} {v}\n") }
        r
    }
    pub fn violation(&mut self, kind: &str, msg: &str) {
        let n = sh!().viols.fetch_add(1, SeqCst);
        if n < 400 {
            let body = format!("kind {kind}\nmsg {}\n--inputs\n{}", msg.replace('\n', "\\n"), self.input_lines());
            let _ = std::fs::write(format!("{}/viol-{n}.txt", self.env.outdir), body);
        }
    }
    pub fn inc(&mut self, msg: &str) -> ! { let m = msg.to_string(); self.end("inconclusive", &m) }
    pub fn memerr(&mut self, msg: &str) -> ! { let m = msg.to_string(); self.end("mem", &m) }
    fn assert_pc(&mut self, t: T) { self.sol.assert(&self.tm, t); self.pc.push(t); self.learn(t) }
    fn learn(&mut self, t: T) { self.known.insert(t, true); let n = self.tm.not(t); self.known.insert(n, false); }
    /// fork; returns true in the child
    pub fn fork(&mut self) -> bool {
        let s: &Shared = sh!();
        s.forks.fetch_add(1, SeqCst);
        if s.now() > s.deadline.load(SeqCst) { s.truncated.fetch_add(1, SeqCst); self.finish() }
        // reap
        let mut k = 0;
        while k < self.children.len() { let mut st = 0; let r = unsafe { sys::waitpid(self.children[k], &mut st, 1) }; if r == self.children[k] { if st != 0 { s.crashed.fetch_add(1, SeqCst); } self.children.swap_remove(k); } else { k += 1 } }
        let pend = s.pending.fetch_add(1, SeqCst);
        let pid = unsafe { sys::fork() };
        if pid < 0 { s.crashed.fetch_add(1, SeqCst); s.note("fork failed"); self.finish() }
        if pid == 0 {
            self.children.clear();
            self.sol.queries = 0; self.sol.nanos = 0; self.sol.unknowns = 0; self.instrs_base();
            s.wait();
            s.pending.fetch_sub(1, SeqCst);
            return true;
        }
        if pend > 48 {
            s.post();
            let mut st = 0;
            unsafe { sys::waitpid(pid, &mut st, 0); }
            if st != 0 { s.crashed.fetch_add(1, SeqCst); }
            s.wait();
        } else { self.children.push(pid) }
        false
    }
    fn instrs_base(&mut self) { self.istart = self.instrs }
    pub fn branch(&mut self, c: T) -> bool {
        if let Some(k) = self.tm.konst(c) { return k == 1 }
        if let Some(k) = self.known.get(&c) { return *k }
        let e = self.tm.eval(c) == 1;
        let neg = self.tm.not(c);
        let (same, other) = if e { (c, neg) } else { (neg, c) };
        let old = self.tm.model.clone();
        match self.sol.check(&mut self.tm, Some(other)) {
            R::Unsat => { self.learn(same); e }
            R::Unknown => { sh!().note("solver unknown on branch"); self.inc("solver unknown") }
            R::Sat => {
                if self.fork() {
                    self.tm.model = old;
                    self.tm.new_model();
                    self.assert_pc(same);
                    e
                } else {
                    self.assert_pc(other);
                    !e
                }
            }
        }
    }
    pub fn assume(&mut self, c: T) {
        if self.tm.konst(c) == Some(1) { return }
        if self.tm.konst(c) == Some(0) { self.end("assume", "") }
        if self.tm.eval(c) != 1 {
            match self.sol.check(&mut self.tm, Some(c)) { R::Sat => {}, R::Unsat => self.end("assume", ""), R::Unknown => self.inc("solver unknown") }
        }
        self.assert_pc(c);
    }
    /// concretise by forking over the feasible values
    pub fn concretize(&mut self, t: T) -> u64 {
        loop {
            if let Some(k) = self.tm.konst(t) { return k }
            let v = self.tm.eval(t) as u64;
            let w = self.tm.w(t);
            let k = self.tm.k(w, v);
            let eq = self.tm.bin(Op::Eq, t, k);
            let ne = self.tm.not(eq);
            if self.known.get(&eq) == Some(&true) { return v }
            let old = self.tm.model.clone();
            match self.sol.check(&mut self.tm, Some(ne)) {
                R::Unsat => { self.learn(eq); return v }
                R::Unknown => self.inc("solver unknown"),
                R::Sat => {
                    if self.fork() { self.tm.model = old; self.tm.new_model(); self.assert_pc(eq); return v }
                    self.assert_pc(ne);
                }
            }
        }
    }
    /// all feasible values (at most `max`), without constraining the path
    pub fn feasible(&mut self, t: T, max: usize) -> Option<Vec<u64>> {
        let old = self.tm.model.clone();
        let mut vals = vec![self.tm.eval(t) as u64];
        let w = self.tm.w(t);
        let mut cond = self.tm.k(1, 1);
        let r = loop {
            let v = *vals.last().unwrap();
            let k = self.tm.k(w, v);
            let eq = self.tm.bin(Op::Eq, t, k);
            let ne = self.tm.not(eq);
            cond = self.tm.bin(Op::And, cond, ne);
            match self.sol.check(&mut self.tm, Some(cond)) {
                R::Unsat => break Some(vals),
                R::Unknown => break None,
                R::Sat => { if vals.len() >= max { break None } vals.push(self.tm.eval(t) as u64) }
            }
        };
        self.tm.model = old;
        self.tm.new_model();
        r
    }
    pub fn conc(&mut self, v: &V) -> u64 {
        match v { V::C(k) => *k, V::T(t) => self.concretize(*t), V::W(l, _) => *l, V::A(_) => panic!("conc of aggregate") }
    }
    // ---------- values ----------
    pub fn term(&mut self, v: &V, w: u32) -> T {
        match v { V::C(k) => self.tm.k128(w, *k as u128), V::W(l, h) => self.tm.k128(w, (*h as u128) << 64 | *l as u128), V::T(t) => { debug_assert_eq!(self.tm.w(*t), w); *t } V::A(_) => panic!("term of aggregate") }
    }
    pub fn from_term(&self, t: T) -> V {
        match self.tm.konst128(t) { Some(k) => Self::kv(self.tm.w(t), k), None => V::T(t) }
    }
    pub fn kv(w: u32, k: u128) -> V { if w <= 64 { V::C(k as u64 & mask(w)) } else { let k = k & mask128(w); V::W(k as u64, (k >> 64) as u64) } }
    pub fn k128(v: &V) -> Option<u128> { match v { V::C(k) => Some(*k as u128), V::W(l, h) => Some((*h as u128) << 64 | *l as u128), _ => None } }
    pub fn zero(&mut self, t: TyId) -> V {
        match self.ts.ty(t).clone() {
            Ty::Int(w) => Self::kv(w, 0),
            Ty::Ptr | Ty::F32 | Ty::F64 => V::C(0),
            Ty::Vec(n, e) => { let z = self.zero(e); V::A(Rc::new(vec![z; n as usize])) }
            Ty::Arr(n, e) => { let z = self.zero(e); V::A(Rc::new(vec![z; n as usize])) }
            Ty::St(fs, _) => { let v = fs.iter().map(|f| self.zero(*f)).collect(); V::A(Rc::new(v)) }
            _ => V::C(0),
        }
    }
    pub fn con(&mut self, ty: TyId, c: &Con) -> V {
        match c {
            Con::Int(k) => { let w = self.ts.bits(ty); Self::kv(w, *k) }
            Con::Null => V::C(0),
            Con::Zero | Con::Undef => self.zero(ty),
            Con::Glob(g) => V::C(self.addr_of(g)),
            Con::Str(s) => V::A(Rc::new(s.iter().map(|b| V::C(*b as u64)).collect())),
            Con::Agg(v) => { let r = v.iter().map(|(t, k)| self.con(*t, k)).collect(); V::A(Rc::new(r)) }
            Con::Splat(t, k) => { let n = match self.ts.ty(ty) { Ty::Vec(n, _) => *n, _ => panic!() }; let z = self.con(*t, k); V::A(Rc::new(vec![z; n as usize])) }
            Con::Gep(st, b, ix) => {
                let mut a = match self.con(PTR, b) { V::C(a) => a, _ => panic!() };
                let mut ty = *st;
                for (n, (t, k)) in ix.iter().enumerate() {
                    let w = self.ts.bits(*t);
                    let k = match self.con(*t, k) { V::C(k) => crate::term::sext64(k, w), _ => panic!() };
                    if n == 0 { a = a.wrapping_add((k as u64).wrapping_mul(self.ts.size(ty))); continue }
                    match self.ts.ty(ty).clone() {
                        Ty::Arr(_, e) | Ty::Vec(_, e) => { a = a.wrapping_add((k as u64).wrapping_mul(self.ts.size(e))); ty = e }
                        Ty::St(fs, _) => { a += self.ts.t[ty as usize].offs[k as usize]; ty = fs[k as usize] }
                        _ => panic!(),
                    }
                }
                V::C(a)
            }
            Con::Cast(k, t, v, t2) => { let x = self.con(*t, v); if *k == "trunc" { let w = self.ts.bits(*t2); Self::kv(w, Self::k128(&x).unwrap()) } else { x } }
            Con::Bin(k, t, a, b) => {
                let w = self.ts.bits(*t);
                let (a, b) = (Self::k128(&self.con(*t, a)).unwrap(), Self::k128(&self.con(*t, b)).unwrap());
                Self::kv(w, match *k { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), _ => a ^ b })
            }
        }
    }
    pub fn fn_addr(&mut self, n: &str) -> u64 {
        if let Some(i) = self.fnidx.get(n) { return FBASE + 16 * *i as u64 }
        let i = self.fns.len() as u32;
        let st = match crate::stubs::lookup(n) { Some(s) => FnState::Ext(s), None => match self.md.defs.get(n) { Some(o) => FnState::Unparsed(*o), None => FnState::Unknown } };
        self.fns.push(FnEntry { name: n.to_string(), st });
        self.fnidx.insert(n.to_string(), i);
        FBASE + 16 * i as u64
    }
    pub fn addr_of(&mut self, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(n) { return *a }
        if let Some(g) = self.md.globals.get(n) {
            let (off, ext, align) = (g.init_off, g.ext, g.align.max(1));
            let mut p = P { b: self.md.text, i: off };
            let ty = p.ty(&mut self.ts);
            let size = self.ts.size(ty).max(1);
            let a = self.gnext.next_multiple_of(align.max(16));
            self.gnext = a + size + 16;
            assert!(self.gnext < STACK);
            self.gaddr.insert(n.to_string(), a);
            self.shadow(a, size, 1);
            if self.md.globals[n].tls { self.tls.push((n.to_string(), a, size)) }
            if ext { return a }
            self.ginit.push((n.to_string(), a));
            if self.ginit.len() == 1 {
                while let Some((n, a)) = self.ginit.last().cloned() {
                    let off = self.md.globals[&n].init_off;
                    let mut p = P { b: self.md.text, i: off };
                    let ty = p.ty(&mut self.ts);
                    let c = p.con(&mut self.ts, ty);
                    let k = self.ginit.len() - 1;
                    self.init_mem(a, ty, &c);
                    self.ginit.remove(k);
                }
            }
            return a;
        }
        self.fn_addr(n)
    }
    /// gives the thread-local globals their initial values
    pub fn reset_tls(&mut self) {
        for (n, a, size) in self.tls.clone() {
            unsafe { std::ptr::write_bytes(a as *mut u8, 0, size as usize) }
            self.shadow(a, size, 1);
            let off = self.md.globals[&n].init_off;
            let mut p = P { b: self.md.text, i: off };
            let ty = p.ty(&mut self.ts);
            let c = p.con(&mut self.ts, ty);
            self.init_mem(a, ty, &c);
        }
    }
    fn init_mem(&mut self, a: u64, ty: TyId, c: &Con) {
        match c {
            Con::Zero | Con::Undef => {}
            Con::Str(s) => unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), a as *mut u8, s.len()) },
            Con::Agg(v) => match self.ts.ty(ty).clone() {
                Ty::Arr(_, e) => { let s = self.ts.size(e); for (i, (_, k)) in v.iter().enumerate() { self.init_mem(a + i as u64 * s, e, k) } }
                Ty::St(fs, _) => { for (i, (_, k)) in v.iter().enumerate() { let o = self.ts.t[ty as usize].offs[i]; self.init_mem(a + o, fs[i], k) } }
                _ => { let v = self.con(ty, c); self.store(a, ty, &v) }
            },
            _ => { let v = self.con(ty, c); self.store(a, ty, &v) }
        }
    }
    // ---------- memory ----------
    #[inline] pub fn shadow(&mut self, a: u64, n: u64, v: u8) { unsafe { std::ptr::write_bytes((a + SHOFF) as *mut u8, v, n as usize) } }
    #[inline] fn inb(a: u64, n: u64) -> bool { a >= ARENA && a.wrapping_add(n) <= ARENA + ASIZE && a.wrapping_add(n) >= a }
    /// 1 if fully concrete, 2 if some byte symbolic; diverges on invalid access
    pub fn check(&mut self, a: u64, n: u64, what: &str) -> u8 {
        if n == 0 { return 1 }
        if !Self::inb(a, n) { self.memerr(&format!("{what} of {n} bytes at invalid address {a:#x}")) }
        let s = unsafe { std::slice::from_raw_parts((a + SHOFF) as *const u8, n as usize) };
        let mut r = 1;
        if n == 8 { let x = u64::from_le_bytes(s.try_into().unwrap()); if x == 0x0101010101010101 { return 1 } }
        for b in s { if *b == 0 { self.memerr(&format!("{what} of {n} bytes at unallocated or freed address {a:#x}")) } if *b == 2 { r = 2 } }
        r
    }
    pub fn byte_term(&mut self, a: u64) -> T {
        unsafe { if *((a + SHOFF) as *const u8) == 2 { self.sym[&a] } else { let b = *(a as *const u8); self.tm.k(8, b as u64) } }
    }
    fn load_scalar(&mut self, a: u64, w: u32) -> V {
        let n = ((w + 7) / 8) as u64;
        if self.check(a, n, "load") == 1 {
            unsafe {
                return match n {
                    8 => { let v = (a as *const u64).read_unaligned(); V::C(if w == 64 { v } else { v & mask(w) }) }
                    4 => V::C((a as *const u32).read_unaligned() as u64 & mask(w)),
                    1 => V::C(*(a as *const u8) as u64 & mask(w)),
                    2 => V::C((a as *const u16).read_unaligned() as u64 & mask(w)),
                    16 => V::W((a as *const u64).read_unaligned(), (a as *const u64).add(1).read_unaligned()),
                    n => { let mut v = 0u128; for i in 0..n { v |= (*((a + i) as *const u8) as u128) << (8 * i) } Self::kv(w, v & mask128(w)) }
                };
            }
        }
        let mut t = self.byte_term(a);
        for i in 1..n { let b = self.byte_term(a + i); t = self.tm.concat(b, t) }
        if w % 8 != 0 { t = self.tm.extract(t, w - 1, 0) }
        self.from_term(t)
    }
    pub fn load(&mut self, a: u64, ty: TyId) -> V {
        match self.ts.ty(ty) {
            Ty::Int(w) => { let w = *w; self.load_scalar(a, w) }
            Ty::Ptr | Ty::F64 => self.load_scalar(a, 64),
            Ty::F32 => self.load_scalar(a, 32),
            Ty::Vec(n, e) => {
                let (n, e) = (*n, *e);
                let w = self.ts.bits(e);
                if w % 8 == 0 { let v = (0..n).map(|i| self.load_scalar(a + (i * w / 8) as u64, w)).collect(); V::A(Rc::new(v)) }
                else { let x = self.load_scalar(a, n * w); self.int_to_vec(&x, n, w) }
            }
            Ty::Arr(n, e) => { let (n, e) = (*n, *e); let s = self.ts.size(e); let v = (0..n).map(|i| self.load(a + i * s, e)).collect(); V::A(Rc::new(v)) }
            Ty::St(fs, _) => { let fs = fs.clone(); let v = fs.iter().enumerate().map(|(i, f)| { let o = self.ts.t[ty as usize].offs[i]; self.load(a + o, *f) }).collect(); V::A(Rc::new(v)) }
            _ => V::C(0),
        }
    }
    fn store_scalar(&mut self, a: u64, w: u32, v: &V) {
        let n = ((w + 7) / 8) as u64;
        let sh = self.check(a, n, "store");
        match v {
            V::C(k) => unsafe {
                match n { 8 => (a as *mut u64).write_unaligned(*k), 4 => (a as *mut u32).write_unaligned(*k as u32), 1 => *(a as *mut u8) = *k as u8, 2 => (a as *mut u16).write_unaligned(*k as u16), n => for i in 0..n { *((a + i) as *mut u8) = if i < 8 { (*k >> (8 * i)) as u8 } else { 0 } } }
                if sh == 2 { self.shadow(a, n, 1) }
            },
            V::W(l, h) => unsafe {
                for i in 0..n { *((a + i) as *mut u8) = if i < 8 { (*l >> (8 * i)) as u8 } else { (*h >> (8 * (i - 8))) as u8 } }
                if sh == 2 { self.shadow(a, n, 1) }
            },
            V::T(t) => {
                let t = if w % 8 != 0 { self.tm.zext(*t, n as u32 * 8) } else { *t };
                for i in 0..n {
                    let b = self.tm.extract(t, i as u32 * 8 + 7, i as u32 * 8);
                    self.store_byte(a + i, b);
                }
            }
            V::A(_) => panic!("store scalar aggregate"),
        }
    }
    pub fn store_byte(&mut self, a: u64, b: T) {
        unsafe {
            match self.tm.konst(b) {
                Some(k) => { *(a as *mut u8) = k as u8; *((a + SHOFF) as *mut u8) = 1 }
                None => { self.sym.insert(a, b); *((a + SHOFF) as *mut u8) = 2 }
            }
        }
    }
    pub fn store(&mut self, a: u64, ty: TyId, v: &V) {
        match self.ts.ty(ty) {
            Ty::Int(w) => { let w = *w; self.store_scalar(a, w, v) }
            Ty::Ptr | Ty::F64 => self.store_scalar(a, 64, v),
            Ty::F32 => self.store_scalar(a, 32, v),
            Ty::Vec(n, e) => {
                let (n, e) = (*n, *e);
                let w = self.ts.bits(e);
                let vs = match v { V::A(vs) => vs.clone(), _ => panic!() };
                if w % 8 == 0 { for i in 0..n { self.store_scalar(a + (i * w / 8) as u64, w, &vs[i as usize]) } }
                else { let x = self.vec_to_int(&vs, w); self.store_scalar(a, n * w, &x) }
            }
            Ty::Arr(_, e) => { let e = *e; let s = self.ts.size(e); if let V::A(vs) = v { for (i, x) in vs.iter().enumerate() { self.store(a + i as u64 * s, e, x) } } }
            Ty::St(fs, _) => { let fs = fs.clone(); if let V::A(vs) = v { for (i, x) in vs.iter().enumerate() { let o = self.ts.t[ty as usize].offs[i]; self.store(a + o, fs[i], x) } } }
            _ => {}
        }
    }
    fn vec_to_int(&mut self, vs: &[V], w: u32) -> V {
        if vs.iter().all(|v| matches!(v, V::C(_))) && w as usize * vs.len() <= 128 {
            let mut r = 0u128;
            for (i, v) in vs.iter().enumerate() { if let V::C(k) = v { r |= (*k as u128) << (i as u32 * w) } }
            return Self::kv(w * vs.len() as u32, r);
        }
        if w as usize * vs.len() > 128 { self.inc("wide vector bitcast") }
        let mut t = self.term(&vs[0], w);
        for v in &vs[1..] { let b = self.term(v, w); t = self.tm.concat(b, t) }
        self.from_term(t)
    }
    fn int_to_vec(&mut self, x: &V, n: u32, w: u32) -> V {
        let r = match Self::k128(x) {
            Some(k) => (0..n).map(|i| Self::kv(w, (k >> (i * w)) & mask128(w))).collect(),
            None => { let t = self.term(x, n * w); (0..n).map(|i| { let e = self.tm.extract(t, i * w + w - 1, i * w); self.from_term(e) }).collect() }
        };
        V::A(Rc::new(r))
    }
    pub fn malloc(&mut self, n: u64, align: u64) -> u64 {
        if n > 1 << 32 { return 0 }
        let a = self.heap.next_multiple_of(align.max(16));
        self.heap = a + n.max(1).next_multiple_of(16) + 16;
        if self.heap >= ARENA + ASIZE { self.inc("heap exhausted") }
        self.shadow(a, n, 1);
        self.allocs.insert(a, n);
        a
    }
    pub fn free(&mut self, a: u64) {
        if a == 0 { return }
        match self.allocs.remove(&a) { Some(n) => self.shadow(a, n, 0), None => self.memerr(&format!("free of invalid or already freed pointer {a:#x}")) }
    }
    pub fn memmove(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 { return }
        let a = self.check(s, n, "memcpy read");
        let b = self.check(d, n, "memcpy write");
        if a == 1 {
            unsafe { std::ptr::copy(s as *const u8, d as *mut u8, n as usize) }
            if b == 2 { self.shadow(d, n, 1) }
        } else {
            let bytes: Vec<T> = (0..n).map(|i| self.byte_term(s + i)).collect();
            for (i, t) in bytes.into_iter().enumerate() { self.store_byte(d + i as u64, t) }
        }
    }
    /// resolve a pointer for a load: concrete, or ite over feasible addresses
    fn load_at(&mut self, p: &V, ty: TyId) -> V {
        match p {
            V::C(a) => self.load(*a, ty),
            V::T(t) => {
                if self.ts.is_scalar(ty) {
                    if let Some(vals) = self.feasible(*t, 64) {
                        let w = self.ts.bits(ty);
                        let mut r: Option<T> = None;
                        for v in vals {
                            let x = self.load(v, ty);
                            let x = self.term(&x, w);
                            r = Some(match r { None => x, Some(r) => { let k = self.tm.k(64, v); let c = self.tm.bin(Op::Eq, *t, k); self.tm.ite(c, x, r) } });
                        }
                        return self.from_term(r.unwrap());
                    }
                }
                let a = self.concretize(*t);
                self.load(a, ty)
            }
            _ => panic!(),
        }
    }
    // ---------- arithmetic ----------
    fn bin(&mut self, op: Op, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            return V::C(match op {
                Op::Add => x.wrapping_add(y) & m, Op::Sub => x.wrapping_sub(y) & m, Op::Mul => x.wrapping_mul(y) & m,
                Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
                Op::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
                Op::LShr => if y >= w as u64 { 0 } else { x >> y },
                Op::UDiv | Op::URem | Op::SDiv | Op::SRem if y == 0 => self.memerr("division by zero"),
                _ => Terms::fold(op, w, x as u128, y as u128) as u64,
            });
        }
        if let (Some(x), Some(y)) = (Self::k128(a), Self::k128(b)) { return Self::kv(w, Terms::fold(op, w, x, y)) }
        if let V::A(_) = a { panic!() }
        let (x, y) = (self.term(a, w), self.term(b, w));
        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
            let z = self.tm.k128(w, 0);
            let c = self.tm.bin(Op::Eq, y, z);
            if self.branch(c) { self.memerr("division by zero") }
        }
        let t = self.tm.bin(op, x, y);
        self.from_term(t)
    }
    pub fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = 64 - w;
            let (sx, sy) = (((x << s) as i64) >> s, ((y << s) as i64) >> s);
            return V::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy } as u64);
        }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let tm = &mut self.tm;
        let t = match p {
            Pred::Eq => tm.bin(Op::Eq, x, y), Pred::Ne => { let e = tm.bin(Op::Eq, x, y); tm.not(e) }
            Pred::Ugt => tm.bin(Op::Ult, y, x), Pred::Uge => tm.bin(Op::Ule, y, x), Pred::Ult => tm.bin(Op::Ult, x, y), Pred::Ule => tm.bin(Op::Ule, x, y),
            Pred::Sgt => tm.bin(Op::Slt, y, x), Pred::Sge => tm.bin(Op::Sle, y, x), Pred::Slt => tm.bin(Op::Slt, x, y), Pred::Sle => tm.bin(Op::Sle, x, y),
        };
        self.from_term(t)
    }
    pub fn ite(&mut self, c: T, w: u32, a: &V, b: &V) -> V { let (x, y) = (self.term(a, w), self.term(b, w)); let t = self.tm.ite(c, x, y); self.from_term(t) }
    fn select(&mut self, c: T, ty: TyId, a: &V, b: &V) -> V {
        match self.ts.ty(ty).clone() {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => { let w = self.ts.bits(ty); self.ite(c, w, a, b) }
            Ty::Vec(_, e) | Ty::Arr(_, e) => { if let (V::A(x), V::A(y)) = (a, b) { let v = x.iter().zip(y.iter()).map(|(p, q)| self.select(c, e, p, q)).collect(); V::A(Rc::new(v)) } else { panic!() } }
            Ty::St(fs, _) => { if let (V::A(x), V::A(y)) = (a, b) { let v = x.iter().zip(y.iter()).zip(fs).map(|((p, q), e)| self.select(c, e, p, q)).collect(); V::A(Rc::new(v)) } else { panic!() } }
            _ => a.clone(),
        }
    }
    fn cast(&mut self, k: Cast, t: TyId, t2: TyId, v: &V) -> V {
        if let (Ty::Vec(n, e), Ty::Vec(n2, e2)) = (self.ts.ty(t).clone(), self.ts.ty(t2).clone()) {
            let vs = match v { V::A(v) => v.clone(), _ => panic!() };
            if k == Cast::Bitcast {
                let (w, w2) = (self.ts.bits(e), self.ts.bits(e2));
                if w * n > 128 {
                    // via bytes
                    let x = self.vec_bytes(&vs, w);
                    return self.bytes_vec(&x, n2, w2);
                }
                let x = self.vec_to_int(&vs, w);
                return self.int_to_vec(&x, n2, w2);
            }
            let r = vs.iter().map(|v| self.cast(k, e, e2, v)).collect();
            return V::A(Rc::new(r));
        }
        match k {
            Cast::Bitcast => match (self.ts.ty(t).clone(), self.ts.ty(t2).clone()) {
                (Ty::Vec(_, e), _) => { let w = self.ts.bits(e); let vs = match v { V::A(v) => v.clone(), _ => panic!() }; self.vec_to_int(&vs, w) }
                (_, Ty::Vec(n, e)) => { let w = self.ts.bits(e); self.int_to_vec(v, n, w) }
                _ => v.clone(),
            },
            Cast::PtrToInt | Cast::IntToPtr | Cast::Trunc | Cast::ZExt | Cast::SExt => {
                let (w, w2) = (self.ts.bits(t), self.ts.bits(t2));
                if let Some(x) = Self::k128(v) {
                    let x = if k == Cast::SExt && w < 128 && x >> (w - 1) & 1 == 1 { x | (mask128(128) << w) } else { x };
                    return Self::kv(w2, x & mask128(w2));
                }
                let x = self.term(v, w);
                let r = if w2 < w { self.tm.extract(x, w2 - 1, 0) } else if k == Cast::SExt { self.tm.sext(x, w2) } else { self.tm.zext(x, w2) };
                self.from_term(r)
            }
            _ => {
                let x = self.conc(v);
                let (w, f32in, f32out) = (self.ts.bits(t), *self.ts.ty(t) == Ty::F32, *self.ts.ty(t2) == Ty::F32);
                let fin = if f32in { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let out = |f: f64| V::C(if f32out { (f as f32).to_bits() as u64 } else { f.to_bits() });
                match k {
                    Cast::UiToFp => if f32out { V::C((x as f32).to_bits() as u64) } else { out(x as f64) },
                    Cast::SiToFp => out(crate::term::sext64(x, w) as f64),
                    Cast::FpToUi => { let w2 = self.ts.bits(t2); V::C(fin as u64 & mask(w2)) }
                    Cast::FpToSi => { let w2 = self.ts.bits(t2); V::C(fin as i64 as u64 & mask(w2)) }
                    _ => out(fin),
                }
            }
        }
    }
    fn vec_bytes(&mut self, vs: &[V], w: u32) -> Vec<V> {
        let mut r = vec![];
        for v in vs { for i in 0..w / 8 { r.push(match v { V::C(k) => V::C((k >> (8 * i)) & 255), _ => { let t = self.term(v, w); let e = self.tm.extract(t, i * 8 + 7, i * 8); self.from_term(e) } }) } }
        r
    }
    fn bytes_vec(&mut self, b: &[V], n: u32, w: u32) -> V {
        let k = (w / 8) as usize;
        let r = (0..n as usize).map(|i| self.vec_to_int(&b[i * k..(i + 1) * k], 8)).collect();
        V::A(Rc::new(r))
    }
    // ---------- functions ----------
    fn fix(&mut self, o: &mut Opn, ty: TyId) { if let Opn::K(c) = o { let c = c.clone(); *o = Opn::V(self.con(ty, &c)) } }
    fn compile(&mut self, name: &str, off: usize) -> &'static Func {
        let mut r = parse_func(&self.md, &mut self.ts, off);
        for b in &mut r.blocks {
            for (_, t, v) in &mut b.phis { for (o, _) in v { self.fix(o, *t) } }
            for i in &mut b.ins {
                match i {
                    Ins::Bin(_, t, _, a, b) | Ins::FBin(_, t, _, a, b) | Ins::ICmp(_, t, _, a, b) | Ins::FCmp(_, t, _, a, b) => { self.fix(a, *t); self.fix(b, *t) }
                    Ins::FNeg(t, _, a) | Ins::Copy(t, _, a) | Ins::Cast(_, t, _, _, a) => self.fix(a, *t),
                    Ins::Load(_, _, a) => self.fix(a, PTR),
                    Ins::Store(t, v, a) => { self.fix(v, *t); self.fix(a, PTR) }
                    Ins::Gep(_, b, s) => { self.fix(b, PTR); for (t, o, _) in s { self.fix(o, *t) } }
                    Ins::Select(ct, t, _, c, a, b) => { self.fix(c, *ct); self.fix(a, *t); self.fix(b, *t) }
                    Ins::Call(_, _, c, args, _) => { self.fix(c, PTR); for (t, o) in args { self.fix(o, *t) } }
                    Ins::Asm(_, _, _, args) => for (t, o) in args { self.fix(o, *t) },
                    Ins::CondBr(c, _, _) => self.fix(c, I1),
                    Ins::Switch(t, v, _, _) => self.fix(v, *t),
                    Ins::Ret(Some((t, o))) => self.fix(o, *t),
                    Ins::Extract(_, t, a, _) => self.fix(a, *t),
                    Ins::Insert(_, t, a, et, e, _) => { self.fix(a, *t); self.fix(e, *et) }
                    Ins::Rmw(_, _, t, a, v) => { self.fix(a, PTR); self.fix(v, *t) }
                    Ins::CmpXchg(_, t, a, c, n) => { self.fix(a, PTR); self.fix(c, *t); self.fix(n, *t) }
                    Ins::ExtractElt(_, t, a, it, i) => { self.fix(a, *t); self.fix(i, *it) }
                    Ins::InsertElt(_, t, a, e, it, i) => { let et = match self.ts.ty(*t) { Ty::Vec(_, e) => *e, _ => panic!() }; self.fix(a, *t); self.fix(e, et); self.fix(i, *it) }
                    Ins::Shuffle(_, t, a, b, _) => { self.fix(a, *t); self.fix(b, *t) }
                    _ => {}
                }
            }
        }
        while self.bits.len() < self.ts.t.len() { let t = self.bits.len() as TyId; self.bits.push(if self.ts.is_scalar(t) { self.ts.bits(t) } else { 0 }) }
        let di = self.defidx.get(name).copied().unwrap_or(0);
        Box::leak(Box::new(Func { name: name.to_string(), params: r.params, nregs: r.nregs, blocks: r.blocks, defidx: di }))
    }
    pub fn push_frame(&mut self, f: &'static Func, args: &[(TyId, V)], dst: u32, next: u32) {
        sh!().cover(f.defidx);
        if self.frames.len() > 20000 { self.end("limit", "stack overflow") }
        let base = self.regs.len();
        self.regs.resize(base + f.nregs as usize, V::C(0));
        for (i, (r, _)) in f.params.iter().enumerate() { if let Some(a) = args.get(i) { self.regs[base + *r as usize] = a.1.clone() } }
        self.frames.push(Frame { f, base, blk: 0, ip: 0, sp: self.sp, dst, next });
        if self.trace { eprintln!("{:>w$}-> {}", "", demangle(&f.name), w = self.frames.len()) }
    }
    pub fn call_named(&mut self, name: &str, args: &[(TyId, V)]) -> Option<V> {
        let a = self.fn_addr(name);
        let depth = self.frames.len();
        match self.enter(a, args, VOID, u32::MAX, u32::MAX) { Some(v) => Some(v), None => self.run(depth) }
    }
    pub fn call_addr(&mut self, a: u64, args: &[(TyId, V)]) -> Option<V> {
        let depth = self.frames.len();
        match self.enter(a, args, VOID, u32::MAX, u32::MAX) { Some(v) => Some(v), None => self.run(depth) }
    }
    /// Some(v): external returned; None: frame pushed
    fn enter(&mut self, addr: u64, args: &[(TyId, V)], rt: TyId, dst: u32, next: u32) -> Option<V> {
        let i = (addr.wrapping_sub(FBASE) / 16) as usize;
        if addr < FBASE || i >= self.fns.len() || addr % 16 != 0 { self.memerr(&format!("call of invalid function address {addr:#x}")) }
        match self.fns[i].st {
            FnState::Ready(f) => { self.push_frame(f, args, dst, next); None }
            FnState::Ext(s) => Some(s(self, args, rt)),
            FnState::Unparsed(o) => { let n = self.fns[i].name.clone(); let f = self.compile(&n, o); self.fns[i].st = FnState::Ready(f); self.push_frame(f, args, dst, next); None }
            FnState::Unknown => { let n = self.fns[i].name.clone(); match crate::stubs::generic(self, &n, args, rt) { Some(v) => Some(v), None => self.inc(&format!("unmodelled external {n}")) } }
        }
    }
    #[inline] fn get(&self, base: usize, o: &Opn) -> V {
        match o { Opn::R(r) => self.regs[base + *r as usize].clone(), Opn::V(v) => v.clone(), Opn::K(_) => unreachable!() }
    }
    fn goto(&mut self, to: u32) {
        let fr = self.frames.last_mut().unwrap();
        let from = fr.blk;
        fr.blk = to;
        fr.ip = 0;
        let (f, base) = (fr.f, fr.base);
        let phis = &f.blocks[to as usize].phis;
        match phis.len() {
            0 => {}
            1 => { let v = self.phi(base, &phis[0].2, from); self.regs[base + phis[0].0 as usize] = v }
            _ => {
                let mut tmp: Vec<V> = Vec::with_capacity(phis.len());
                for p in phis { tmp.push(self.phi(base, &p.2, from)) }
                for (p, v) in phis.iter().zip(tmp) { self.regs[base + p.0 as usize] = v }
            }
        }
    }
    #[inline] fn phi(&self, base: usize, v: &[(Opn, u32)], from: u32) -> V { for (o, l) in v { if *l == from { return self.get(base, o) } } panic!("phi") }
    fn addr(&mut self, v: &V) -> u64 { match v { V::C(a) => *a, V::T(t) => self.concretize(*t), _ => panic!() } }

    pub fn run(&mut self, depth: usize) -> Option<V> {
        loop {
            let fr = self.frames.last_mut().unwrap();
            let (f, base) = (fr.f, fr.base);
            let ins = &f.blocks[fr.blk as usize].ins[fr.ip];
            fr.ip += 1;
            self.instrs += 1;
            if self.instrs > self.max_instrs { self.end("limit", "instruction limit") }
            match ins {
                Ins::Bin(op, t, d, a, b) => {
                    let (a, b) = (self.get(base, a), self.get(base, b));
                    let w = self.bits[*t as usize];
                    let r = if w != 0 { self.bin(*op, w, &a, &b) } else {
                        let e = match self.ts.ty(*t) { Ty::Vec(_, e) => *e, _ => panic!() };
                        let w = self.bits_of(e);
                        if let (V::A(x), V::A(y)) = (&a, &b) { let v = x.iter().zip(y.iter()).map(|(p, q)| self.bin(*op, w, p, q)).collect(); V::A(Rc::new(v)) } else { panic!() }
                    };
                    self.regs[base + *d as usize] = r;
                }
                Ins::ICmp(p, t, d, a, b) => {
                    let (a, b) = (self.get(base, a), self.get(base, b));
                    let w = self.bits[*t as usize];
                    let r = if w != 0 { self.icmp(*p, w, &a, &b) } else {
                        let e = match self.ts.ty(*t) { Ty::Vec(_, e) => *e, _ => panic!() };
                        let w = self.bits_of(e);
                        if let (V::A(x), V::A(y)) = (&a, &b) { let v = x.iter().zip(y.iter()).map(|(q, r)| self.icmp(*p, w, q, r)).collect(); V::A(Rc::new(v)) } else { panic!() }
                    };
                    self.regs[base + *d as usize] = r;
                }
                Ins::Load(d, t, a) => { let p = self.get(base, a); let v = self.load_at(&p, *t); self.regs[base + *d as usize] = v }
                Ins::Store(t, v, a) => { let (v, p) = (self.get(base, v), self.get(base, a)); let a = self.addr(&p); self.store(a, *t, &v) }
                Ins::Gep(d, b, steps) => {
                    let mut p = self.get(base, b);
                    for (t, o, s) in steps {
                        match s {
                            GepStep::Field(o) => p = match p { V::C(a) => V::C(a.wrapping_add(*o)), x => self.bin(Op::Add, 64, &x, &V::C(*o)) },
                            GepStep::Scale(s) => {
                                let i = self.get(base, o);
                                let w = self.bits_of(*t);
                                match (&p, &i) {
                                    (V::C(a), V::C(k)) => p = V::C(a.wrapping_add((crate::term::sext64(*k, w) as u64).wrapping_mul(*s))),
                                    _ => {
                                        let it = self.term(&i, w);
                                        let it = if w < 64 { self.tm.sext(it, 64) } else { it };
                                        let sc = self.tm.k(64, *s);
                                        let m = self.tm.bin(Op::Mul, it, sc);
                                        let pt = self.term(&p, 64);
                                        let r = self.tm.bin(Op::Add, pt, m);
                                        p = self.from_term(r);
                                    }
                                }
                            }
                        }
                    }
                    self.regs[base + *d as usize] = p;
                }
                Ins::Cast(k, t, t2, d, a) => { let a = self.get(base, a); let r = self.cast(*k, *t, *t2, &a); self.regs[base + *d as usize] = r }
                Ins::Select(ct, t, d, c, a, b) => {
                    let c = self.get(base, c);
                    let r = match &c {
                        V::C(0) => self.get(base, b),
                        V::C(_) => self.get(base, a),
                        V::T(c) => { let (a, b) = (self.get(base, a), self.get(base, b)); self.select(*c, *t, &a, &b) }
                        V::A(cs) => {
                            let _ = ct;
                            let e = match self.ts.ty(*t) { Ty::Vec(_, e) => *e, _ => panic!() };
                            let (a, b) = (self.get(base, a), self.get(base, b));
                            if let (V::A(x), V::A(y)) = (&a, &b) {
                                let mut v = vec![];
                                for i in 0..cs.len() { v.push(match &cs[i] { V::C(0) => y[i].clone(), V::C(_) => x[i].clone(), V::T(c) => self.select(*c, e, &x[i], &y[i]), _ => panic!() }) }
                                V::A(Rc::new(v))
                            } else { panic!() }
                        }
                        _ => panic!(),
                    };
                    self.regs[base + *d as usize] = r;
                }
                Ins::Br(l) => self.goto(*l),
                Ins::CondBr(c, a, b) => {
                    let c = self.get(base, c);
                    let t = match c { V::C(k) => k != 0, V::T(t) => self.branch(t), _ => panic!() };
                    self.goto(if t { *a } else { *b });
                }
                Ins::Switch(t, v, d, cs) => {
                    let v = self.get(base, v);
                    let mut to = *d;
                    match Self::k128(&v) {
                        Some(k) => for (c, l) in cs { if *c == k { to = *l; break } },
                        None => {
                            // group cases by target, branch per target
                            let w = self.bits_of(*t);
                            let x = self.term(&v, w);
                            let mut groups: Vec<(u32, T)> = vec![];
                            for (c, l) in cs {
                                let k = self.tm.k128(w, *c);
                                let e = self.tm.bin(Op::Eq, x, k);
                                if let Some(g) = groups.iter_mut().find(|g| g.0 == *l) { g.1 = self.tm.bin(Op::Or, g.1, e) } else { groups.push((*l, e)) }
                            }
                            for (l, c) in groups { if l == *d { continue } if self.branch(c) { to = l; break } }
                        }
                    }
                    self.goto(to);
                }
                Ins::Call(d, rt, c, args, next) => {
                    let mut av: Vec<(TyId, V)> = Vec::with_capacity(args.len());
                    for (t, o) in args { av.push((*t, self.get(base, o))) }
                    let c = self.get(base, c);
                    let a = self.addr(&c);
                    let (dd, nn) = (d.unwrap_or(u32::MAX), next.unwrap_or(u32::MAX));
                    if let Some(v) = self.enter(a, &av, *rt, dd, nn) {
                        if dd != u32::MAX { self.regs[base + dd as usize] = v }
                        if nn != u32::MAX { self.goto(nn) }
                    }
                }
                Ins::Ret(v) => {
                    let v = match v { Some((_, o)) => self.get(base, o), None => V::C(0) };
                    if self.trace { eprintln!("{:>w$}<- {:?}", "", v, w = self.frames.len()) }
                    let fr = self.frames.pop().unwrap();
                    if self.sp > fr.sp { let n = self.sp - fr.sp; self.shadow(fr.sp, n, 0); self.sp = fr.sp }
                    self.regs.truncate(fr.base);
                    if self.frames.len() == depth { return Some(v) }
                    let b = self.frames.last().unwrap().base;
                    if fr.dst != u32::MAX { self.regs[b + fr.dst as usize] = v }
                    if fr.next != u32::MAX { self.goto(fr.next) }
                }
                Ins::Unreachable => self.memerr("unreachable executed"),
                Ins::Alloca(d, t, n, al) => {
                    let sz = self.ts.size(*t) * n;
                    let a = self.sp.next_multiple_of((*al).max(16));
                    self.sp = a + sz.next_multiple_of(16) + 16;
                    if self.sp >= STACK_END { self.end("limit", "stack overflow") }
                    self.shadow(a, sz, 1);
                    self.regs[base + *d as usize] = V::C(a);
                }
                Ins::Extract(d, _, a, ix) => { let mut v = self.get(base, a); for i in ix { v = match &v { V::A(x) => x[*i as usize].clone(), _ => panic!("extract") } } self.regs[base + *d as usize] = v }
                Ins::Insert(d, _, a, _, e, ix) => {
                    let (a, e) = (self.get(base, a), self.get(base, e));
                    fn ins(a: &V, ix: &[u32], e: V) -> V { if ix.is_empty() { return e } match a { V::A(x) => { let mut y = (**x).clone(); y[ix[0] as usize] = ins(&x[ix[0] as usize], &ix[1..], e); V::A(Rc::new(y)) } _ => panic!() } }
                    let r = ins(&a, ix, e);
                    self.regs[base + *d as usize] = r;
                }
                Ins::Rmw(o, d, t, a, v) => {
                    let (p, v) = (self.get(base, a), self.get(base, v));
                    let a = self.addr(&p);
                    let old = self.load(a, *t);
                    let w = self.bits_of(*t);
                    let n = match o.as_str() {
                        "xchg" => v, "add" => self.bin(Op::Add, w, &old, &v), "sub" => self.bin(Op::Sub, w, &old, &v), "and" => self.bin(Op::And, w, &old, &v), "or" => self.bin(Op::Or, w, &old, &v), "xor" => self.bin(Op::Xor, w, &old, &v),
                        "umax" => { let c = self.icmp(Pred::Ugt, w, &old, &v); let c = self.term(&c, 1); self.ite(c, w, &old, &v) }
                        x => self.inc(&format!("atomicrmw {x}")),
                    };
                    self.store(a, *t, &n);
                    self.regs[base + *d as usize] = old;
                }
                Ins::CmpXchg(d, t, a, c, n) => {
                    let (p, c, n) = (self.get(base, a), self.get(base, c), self.get(base, n));
                    let a = self.addr(&p);
                    let old = self.load(a, *t);
                    let w = self.bits_of(*t);
                    let e = self.icmp(Pred::Eq, w, &old, &c);
                    let ok = match e { V::C(k) => k != 0, V::T(t) => self.branch(t), _ => panic!() };
                    if ok { self.store(a, *t, &n) }
                    self.regs[base + *d as usize] = V::A(Rc::new(vec![old, V::C(ok as u64)]));
                }
                Ins::Fence => {}
                Ins::Copy(_, d, a) => { let v = self.get(base, a); self.regs[base + *d as usize] = v }
                Ins::ExtractElt(d, _, a, _, i) => { let (a, i) = (self.get(base, a), self.get(base, i)); let i = self.conc(&i); if let V::A(x) = a { self.regs[base + *d as usize] = x[i as usize].clone() } }
                Ins::InsertElt(d, _, a, e, _, i) => { let (a, e, i) = (self.get(base, a), self.get(base, e), self.get(base, i)); let i = self.conc(&i); if let V::A(x) = a { let mut y = (*x).clone(); y[i as usize] = e; self.regs[base + *d as usize] = V::A(Rc::new(y)) } }
                Ins::Shuffle(d, t, a, b, m) => {
                    let (a, b) = (self.get(base, a), self.get(base, b));
                    if let (V::A(x), V::A(y)) = (a, b) {
                        let e = match self.ts.ty(*t) { Ty::Vec(_, e) => *e, _ => panic!() };
                        let z = self.zero(e);
                        let v = m.iter().map(|i| if *i < 0 { z.clone() } else if (*i as usize) < x.len() { x[*i as usize].clone() } else { y[*i as usize - x.len()].clone() }).collect();
                        self.regs[base + *d as usize] = V::A(Rc::new(v));
                    }
                }
                Ins::FBin(k, t, d, a, b) => {
                    let (a, b) = (self.get(base, a), self.get(base, b));
                    let (a, b) = (self.conc(&a), self.conc(&b));
                    let r = if *self.ts.ty(*t) == Ty::F32 {
                        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                        (match k { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, _ => x % y }).to_bits() as u64
                    } else {
                        let (x, y) = (f64::from_bits(a), f64::from_bits(b));
                        (match k { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, _ => x % y }).to_bits()
                    };
                    self.regs[base + *d as usize] = V::C(r);
                }
                Ins::FNeg(t, d, a) => { let a = self.get(base, a); let a = self.conc(&a); let r = if *self.ts.ty(*t) == Ty::F32 { (-f32::from_bits(a as u32)).to_bits() as u64 } else { (-f64::from_bits(a)).to_bits() }; self.regs[base + *d as usize] = V::C(r) }
                Ins::FCmp(p, t, d, a, b) => {
                    let (a, b) = (self.get(base, a), self.get(base, b));
                    let (a, b) = (self.conc(&a), self.conc(&b));
                    let (x, y) = if *self.ts.ty(*t) == Ty::F32 { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) } else { (f64::from_bits(a), f64::from_bits(b)) };
                    let un = x.is_nan() || y.is_nan();
                    let r = match p.as_str() { "oeq" => x == y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "one" => !un && x != y, "ord" => !un, "uno" => un, "ueq" => un || x == y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y, "une" => x != y, _ => false };
                    self.regs[base + *d as usize] = V::C(r as u64);
                }
                Ins::Asm(d, rt, s, args) => {
                    let av: Vec<(TyId, V)> = args.iter().map(|(t, o)| (*t, self.get(base, o))).collect();
                    let v = crate::stubs::asm(self, s, &av, *rt);
                    if let Some(d) = d { self.regs[base + *d as usize] = v }
                }
                Ins::Trap(m) => self.inc(m),
            }
        }
    }
    #[inline] pub fn bits_of(&mut self, t: TyId) -> u32 { self.ts.bits(t) }
    pub fn pub_bin(&mut self, op: Op, w: u32, a: &V, b: &V) -> V { self.bin(op, w, a, b) }
    pub fn read_bytes(&mut self, a: u64, n: u64) -> Vec<u8> {
        if n == 0 { return vec![] }
        if self.check(a, n, "read") == 2 {
            let mut v = vec![];
            for i in 0..n { let t = self.byte_term(a + i); let k = self.concretize(t); v.push(k as u8) }
            return v;
        }
        unsafe { std::slice::from_raw_parts(a as *const u8, n as usize).to_vec() }
    }
    pub fn write_bytes(&mut self, a: u64, b: &[u8]) {
        if b.is_empty() { return }
        self.check(a, b.len() as u64, "write");
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), a as *mut u8, b.len()) }
        self.shadow(a, b.len() as u64, 1);
    }
    pub fn cstr(&mut self, a: u64) -> String {
        let mut v = vec![];
        let mut p = a;
        loop { let b = self.read_bytes(p, 1)[0]; if b == 0 { break } v.push(b); p += 1 }
        String::from_utf8_lossy(&v).into_owned()
    }
    pub fn new_cstr(&mut self, s: &str) -> u64 { let a = self.malloc(s.len() as u64 + 1, 1); self.write_bytes(a, s.as_bytes()); self.write_bytes(a + s.len() as u64, &[0]); a }
}
pub fn demangle(n: &str) -> String {
    // compact readable form of a v0 mangled name: the identifiers in it
    if !n.starts_with("_R") { return n.to_string() }
    let b = n.as_bytes();
    let mut i = 2;
    let mut ids: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut k = 0usize;
            while i < b.len() && b[i].is_ascii_digit() { k = k * 10 + (b[i] - b'0') as usize; i += 1 }
            if i < b.len() && b[i] == b'_' { i += 1 }
            if i + k <= b.len() && k > 0 { ids.push(n[i..i + k].to_string()); i += k }
        } else if b[i] == b's' || b[i] == b'C' {
            if b[i] == b's' { i += 1; while i < b.len() && b[i].is_ascii_alphanumeric() && b[i] != b'_' { i += 1 } i += 1 } else { i += 1 }
        } else { i += 1 }
    }
    if ids.len() > 6 { ids.truncate(6) }
    ids.join("::")
}
