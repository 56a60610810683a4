//! models of the external functions (libc, intrinsics) and of the harness API
use crate::fx::Map;
use crate::interp::*;
use crate::ir::*;
use crate::shared::SH;
use crate::term::{mask, Op, T};
use std::rc::Rc;

pub struct Fd { pub path: String, pub pos: u64, pub append: bool, pub kind: u8 }
#[derive(Default)]
pub struct Env {
    pub outdir: String,
    pub panic_ok: bool,
    pub limit_viol: bool,
    pub files: Map<String, Vec<u8>>,
    pub dirs: Vec<String>,
    pub fds: Map<i32, Fd>,
    pub next_fd: i32,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub errno: u64,
    pub rnd: u64,
    pub clock: u64,
    pub tls_keys: Map<u64, u64>,
    pub next_key: u64,
    pub tls_dtors: Vec<(u64, u64)>,
    pub vars: Map<String, String>,
    pub names: Map<String, u32>,
    pub tid: u64,
    pub threads: u64,
    /// threads created and not run yet: id, start, argument
    pub pending: Vec<(u64, u64, u64)>,
    /// descriptors a child gets: file actions -> (descriptor, as)
    pub actions: Map<u64, Vec<(i32, i32)>>,
    pub procs: Vec<Proc>,
    pub progs: Map<String, (Vec<String>, usize)>,
    /// what is read from a pipe whose content is symbolic
    pub sympipes: Map<String, Vec<T>>,
}
/// a child process: a program of the harness, its exit status and whether it was waited for
pub struct Proc { pub status: T, pub gone: bool }
impl Env { pub fn last_stderr(&self) -> String { String::from_utf8_lossy(&self.err).trim().to_string() } }

type A<'a> = &'a [(TyId, V)];
fn c(m: &mut M, a: A, i: usize) -> u64 { let v = a[i].1.clone(); m.conc(&v) }
fn ec(m: &mut M, e: i32) { let p = errno_ptr(m); m.write_bytes(p, &e.to_le_bytes()) }
fn errno_ptr(m: &mut M) -> u64 { if m.env.errno == 0 { m.env.errno = m.malloc(8, 8); } m.env.errno }
fn neg1(m: &mut M, rt: TyId, e: i32) -> V { ec(m, e); V::C(mask(m.ts.bits(rt))) }
fn ret0(_: &mut M, _: A, _: TyId) -> V { V::C(0) }
fn ret_neg(m: &mut M, _: A, rt: TyId) -> V { neg1(m, rt, 38) }

fn memcpy(m: &mut M, a: A, _: TyId) -> V { let (d, s, n) = (c(m, a, 0), c(m, a, 1), c(m, a, 2)); m.memmove(d, s, n); V::C(d) }
fn memset(m: &mut M, a: A, _: TyId) -> V {
    let (d, n) = (c(m, a, 0), c(m, a, 2));
    m.check(d, n, "memset");
    match a[1].1 { V::C(k) => { unsafe { std::ptr::write_bytes(d as *mut u8, k as u8, n as usize) } m.shadow(d, n, 1) } V::T(t) => { let b = m.tm.extract(t, 7, 0); for i in 0..n { m.store_byte(d + i, b) } } _ => {} }
    V::C(d)
}
fn cmpx(m: &mut M, a: A, ordered: bool) -> V {
    let (x, y, n) = (c(m, a, 0), c(m, a, 1), c(m, a, 2));
    if n == 0 { return V::C(0) }
    if m.check(x, n, "memcmp") == 1 && m.check(y, n, "memcmp") == 1 {
        let (p, q) = unsafe { (std::slice::from_raw_parts(x as *const u8, n as usize), std::slice::from_raw_parts(y as *const u8, n as usize)) };
        return V::C(match p.cmp(q) { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, _ => 1 });
    }
    let mut r = m.tm.k(32, 0);
    for i in (0..n).rev() {
        let (p, q) = (m.byte_term(x + i), m.byte_term(y + i));
        let e = m.tm.bin(Op::Eq, p, q);
        let one = m.tm.k(32, 1);
        let ne = if ordered { let l = m.tm.bin(Op::Ult, p, q); let mi = m.tm.k(32, 0xffff_ffff); m.tm.ite(l, mi, one) } else { one };
        r = m.tm.ite(e, r, ne);
    }
    m.from_term(r)
}
fn memcmp(m: &mut M, a: A, _: TyId) -> V { cmpx(m, a, true) }
fn bcmp(m: &mut M, a: A, _: TyId) -> V { cmpx(m, a, false) }
fn strlen(m: &mut M, a: A, _: TyId) -> V { let p = c(m, a, 0); V::C(m.cstr(p).len() as u64) }
fn malloc(m: &mut M, a: A, _: TyId) -> V { let n = c(m, a, 0); V::C(m.malloc(n, 16)) }
fn calloc(m: &mut M, a: A, _: TyId) -> V { let n = c(m, a, 0) * c(m, a, 1); V::C(m.malloc(n, 16)) }
fn realloc(m: &mut M, a: A, _: TyId) -> V {
    let (p, n) = (c(m, a, 0), c(m, a, 1));
    let q = m.malloc(n, 16);
    if p != 0 { let o = match m.allocs.get(&p) { Some(o) => *o, None => m.memerr("realloc of invalid pointer") }; m.memmove(q, p, o.min(n)); m.free(p) }
    V::C(q)
}
fn free(m: &mut M, a: A, _: TyId) -> V { let p = c(m, a, 0); m.free(p); V::C(0) }
fn posix_memalign(m: &mut M, a: A, _: TyId) -> V { let (o, al, n) = (c(m, a, 0), c(m, a, 1), c(m, a, 2)); let p = m.malloc(n, al); m.write_bytes(o, &p.to_le_bytes()); V::C(0) }
fn aligned_alloc(m: &mut M, a: A, _: TyId) -> V { let (al, n) = (c(m, a, 0), c(m, a, 1)); V::C(m.malloc(n, al)) }
fn abort(m: &mut M, _: A, _: TyId) -> V { m.end("panic", "abort") }
fn exit(m: &mut M, a: A, _: TyId) -> V {
    let k = c(m, a, 0);
    unsafe { (*SH).note(&format!("exit:{k}")) }
    if m.env.vars.contains_key("__exit_is_panic") { m.end("panic", "exit") }
    m.end("ok", "")
}
fn getenv(m: &mut M, a: A, _: TyId) -> V { let p = c(m, a, 0); let n = m.cstr(p); match m.env.vars.get(&n).cloned() { Some(v) => V::C(m.new_cstr(&v)), None => V::C(0) } }
fn getrandom(m: &mut M, a: A, _: TyId) -> V {
    let (p, n) = (c(m, a, 0), c(m, a, 1));
    let mut b = vec![];
    for _ in 0..n { m.env.rnd = m.env.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); b.push((m.env.rnd >> 40) as u8) }
    m.write_bytes(p, &b);
    V::C(n)
}
fn errno_location(m: &mut M, _: A, _: TyId) -> V { V::C(errno_ptr(m)) }
fn clock(m: &mut M, a: A, _: TyId) -> V { let p = c(m, a, 1); m.env.clock += 1000; let t = m.env.clock; m.write_bytes(p, &(1_700_000_000 + t / 1_000_000_000).to_le_bytes()); m.write_bytes(p + 8, &(t % 1_000_000_000).to_le_bytes()); V::C(0) }
fn getpid(_: &mut M, _: A, _: TyId) -> V { V::C(4242) }
fn pthread_self(m: &mut M, _: A, _: TyId) -> V { V::C(0x7000 + 64 * m.env.tid) }
// --- threads: each runs to its end, when it is created or when another one waits; which of the two, and in which order, is symbolic ---
/// an input of the environment's; the harness may have introduced it already
fn env_var(m: &mut M, name: String, w: u32) -> T {
    m.has_sym = true;
    if let Some(x) = m.inputs.iter().find(|x| x.1 == w && x.0 == name) { return x.2 }
    let t = m.tm.var(&name, w);
    m.inputs.push((name, w, t));
    t
}
fn sched(m: &mut M, n: u64) -> u64 {
    let name = format!("sched{}", m.env.threads);
    m.env.threads += 1;
    let t = env_var(m, name, 64);
    for k in 0..n - 1 { let e = m.tm.k(64, k); let e = m.tm.bin(Op::Eq, t, e); if m.branch(e) { return k } }
    let e = m.tm.k(64, n - 1);
    let e = m.tm.bin(Op::Eq, t, e);
    m.assume(e);
    n - 1
}
fn run_thread(m: &mut M, (id, start, arg): (u64, u64, u64)) {
    let me = std::mem::replace(&mut m.env.tid, id);
    let keys = std::mem::take(&mut m.env.tls_keys);
    let errno = std::mem::take(&mut m.env.errno);
    let saved: Vec<(u64, u64, u64)> = m.tls.clone().into_iter().map(|(_, a, n)| { let b = m.malloc(n, 16); m.memmove(b, a, n); (a, b, n) }).collect();
    m.reset_tls();
    m.call_addr(start, &[(PTR, V::C(arg))]);
    m.reset_tls();
    for (a, b, n) in saved { m.memmove(a, b, n); m.free(b) }
    m.env.errno = errno;
    m.env.tls_keys = keys;
    m.env.tid = me;
}
fn pthread_create(m: &mut M, a: A, _: TyId) -> V {
    let (p, start, arg) = (c(m, a, 0), c(m, a, 2), c(m, a, 3));
    m.env.threads += 1;
    let t = (m.env.threads, start, arg);
    m.write_bytes(p, &(0x7000 + 64 * t.0).to_le_bytes());
    if sched(m, 2) == 1 { run_thread(m, t) } else { m.env.pending.push(t) }
    V::C(0)
}
/// the running thread waits: another one goes on
fn block(m: &mut M) {
    match m.env.pending.len() as u64 {
        0 => m.inc("a thread waits and no other can run"),
        n => { let k = if n == 1 { 0 } else { sched(m, n) }; let t = m.env.pending.remove(k as usize); run_thread(m, t) }
    }
}
fn pthread_join(m: &mut M, a: A, _: TyId) -> V {
    let id = (c(m, a, 0) - 0x7000) / 64;
    if let Some(k) = m.env.pending.iter().position(|t| t.0 == id) { let t = m.env.pending.remove(k); run_thread(m, t) }
    V::C(0)
}
// --- processes: a program of the harness writes its output and ends, with any exit status or by a signal ---
fn pipe2(m: &mut M, a: A, _: TyId) -> V {
    let p = c(m, a, 0);
    m.env.next_fd += 2;
    let fd = m.env.next_fd + 10;
    let path = format!("pipe:{fd}");
    m.env.files.insert(path.clone(), vec![]);
    for k in [fd - 1, fd] { m.env.fds.insert(k, Fd { path: path.clone(), pos: 0, append: false, kind: 1 }); }
    m.write_bytes(p, &(fd - 1).to_le_bytes());
    m.write_bytes(p + 4, &fd.to_le_bytes());
    V::C(0)
}
fn spawn_dup2(m: &mut M, a: A, _: TyId) -> V { let (f, x, y) = (c(m, a, 0), c(m, a, 1) as i32, c(m, a, 2) as i32); m.env.actions.entry(f).or_default().push((x, y)); V::C(0) }
fn spawn(m: &mut M, a: A, _: TyId) -> V {
    let (pp, prog, fa, argv) = (c(m, a, 0), c(m, a, 1), c(m, a, 2), c(m, a, 4));
    let prog = norm(&m.cstr(prog));
    let mut args = vec![];
    loop { let q = m.read_bytes(argv + 8 * args.len() as u64, 8); let q = u64::from_le_bytes(q.try_into().unwrap()); if q == 0 { break } args.push(m.cstr(q)) }
    let Some((outs, n)) = m.env.progs.get_mut(&prog).map(|(o, n)| { *n += 1; (o.clone(), *n - 1) }) else { return V::C(2) };
    let out = m.env.actions.get(&fa).and_then(|v| v.iter().rev().find(|x| x.1 == 1)).map(|x| x.0).and_then(|fd| m.env.fds.get(&fd)).map(|f| f.path.clone());
    // an answer of so many arbitrary ASCII characters
    if let (Some(f), Some(k)) = (&out, outs.get(n).or(outs.last()).and_then(|o| o.strip_prefix("\u{1}")).and_then(|k| k.parse::<usize>().ok())) {
        let p = prog.rsplit('/').next().unwrap();
        let ts: Vec<T> = (0..k).map(|i| { let name = format!("status-{p}-{n}-{i}"); let t = m.tm.var(&name, 8); m.inputs.push((name, 8, t)); t }).collect();
        for t in &ts { let b = m.tm.extract(*t, 7, 7); let z = m.tm.k(1, 0); let e = m.tm.bin(Op::Eq, b, z); m.assume(e) }
        m.env.sympipes.insert(f.clone(), ts);
        m.has_sym = true;
    } else if let Some(f) = out { m.env.files.insert(f, outs.get(n).or(outs.last()).cloned().unwrap_or_default().into_bytes()); }
    // what it was given
    if let Some(f) = args.last() { let b = m.env.files.get(&norm(f)).cloned().unwrap_or_default(); m.env.files.insert(format!("{prog}.in{n}"), b); }
    m.env.files.insert(format!("{prog}.args{n}"), args.join("\n").into_bytes());
    let name = format!("status-{}-{n}", prog.rsplit('/').next().unwrap());
    let t = env_var(m, name, 16);
    // an exit status, or the signal 9
    let (lo, hi) = (m.tm.extract(t, 7, 0), m.tm.extract(t, 15, 8));
    let (z, nine) = (m.tm.k(8, 0), m.tm.k(8, 9));
    let (l0, l9, h0) = (m.tm.bin(Op::Eq, lo, z), m.tm.bin(Op::Eq, lo, nine), m.tm.bin(Op::Eq, hi, z));
    let k = m.tm.bin(Op::And, l9, h0);
    let ok = m.tm.bin(Op::Or, l0, k);
    m.assume(ok);
    m.env.procs.push(Proc { status: t, gone: false });
    let pid = 5000 + m.env.procs.len() as u32;
    m.write_bytes(pp, &pid.to_le_bytes());
    V::C(0)
}
fn proc_of(m: &mut M, pid: u64) -> Option<usize> { let k = (pid as u32).wrapping_sub(5001) as usize; (k < m.env.procs.len() && !m.env.procs[k].gone).then_some(k) }
fn waitpid(m: &mut M, a: A, rt: TyId) -> V {
    let (pid, st) = (c(m, a, 0), c(m, a, 1));
    let Some(k) = proc_of(m, pid) else { return neg1(m, rt, 10) };
    m.env.procs[k].gone = true;
    if st != 0 {
        let t = m.env.procs[k].status;
        let (lo, hi, z) = (m.tm.extract(t, 7, 0), m.tm.extract(t, 15, 8), m.tm.k(8, 0));
        for (i, b) in [lo, hi, z, z].into_iter().enumerate() { m.store_byte(st + i as u64, b) }
    }
    V::C(pid)
}
fn waitid(m: &mut M, a: A, rt: TyId) -> V {
    let (ty, pid, info) = (c(m, a, 0), c(m, a, 1), c(m, a, 2));
    if ty != 1 { m.inc("waitid of something else than a process") }
    if proc_of(m, pid).is_none() { return neg1(m, rt, 10) }
    if info != 0 { m.write_bytes(info + 12, &(pid as u32).to_le_bytes()) }
    V::C(0)
}
fn kill(m: &mut M, a: A, rt: TyId) -> V { let pid = c(m, a, 0); if proc_of(m, pid).is_some() { V::C(0) } else { neg1(m, rt, 3) } }
fn libc_version(m: &mut M, _: A, _: TyId) -> V { V::C(m.new_cstr("2.39")) }
fn access(m: &mut M, a: A, rt: TyId) -> V { let p = c(m, a, a.len().min(4) / 4); let n = norm(&m.cstr(p)); if look(m, &n).is_some() { V::C(0) } else { neg1(m, rt, 2) } }
fn sysconf(m: &mut M, a: A, _: TyId) -> V { match c(m, a, 0) { 30 => V::C(4096), 84 => V::C(1), _ => V::C(u64::MAX) } }
fn key_create(m: &mut M, a: A, _: TyId) -> V { let p = c(m, a, 0); m.env.next_key += 1; let k = m.env.next_key as u32; m.write_bytes(p, &k.to_le_bytes()); V::C(0) }
fn getspecific(m: &mut M, a: A, _: TyId) -> V { let k = c(m, a, 0); V::C(*m.env.tls_keys.get(&k).unwrap_or(&0)) }
fn setspecific(m: &mut M, a: A, _: TyId) -> V { let (k, v) = (c(m, a, 0), c(m, a, 1)); m.env.tls_keys.insert(k, v); V::C(0) }
fn atexit(_: &mut M, _: A, _: TyId) -> V { V::C(0) }
// --- files ---
fn norm(p: &str) -> String { let mut v: Vec<&str> = vec![]; for c in p.split('/') { match c { "" | "." => {} ".." => { v.pop(); } c => v.push(c) } } format!("/{}", v.join("/")) }
fn open(m: &mut M, a: A, rt: TyId) -> V {
    let (p, fl) = (c(m, a, 0), c(m, a, 1));
    let p = m.cstr(p);
    let n = norm(&p);
    if m.env.vars.contains_key("__fs_trace") { unsafe { (*SH).note(&format!("open:{n}:{fl:#x}")) } }
    let (creat, excl, trunc, app) = (fl & 0o100 != 0, fl & 0o200 != 0, fl & 0o1000 != 0, fl & 0o2000 != 0);
    let exists = m.env.files.contains_key(&n);
    let isdir = n == "/" || n == "/tmp" || m.env.dirs.contains(&n);
    if isdir && fl & 3 != 0 { return neg1(m, rt, 21) }
    if exists && creat && excl { return neg1(m, rt, 17) }
    if !exists {
        if !creat { return neg1(m, rt, 2) }
        let par = norm(&n[..n.rfind('/').unwrap().max(1)]);
        if par != "/tmp" && par != "/" && !m.env.dirs.contains(&par) && !par.starts_with("/tmp/symvfs") { return neg1(m, rt, 2) }
        m.env.files.insert(n.clone(), vec![]);
    } else if trunc { m.env.files.insert(n.clone(), vec![]); }
    m.env.next_fd += 1;
    let fd = m.env.next_fd + 10;
    m.env.fds.insert(fd, Fd { path: n, pos: 0, append: app, kind: 0 });
    V::C(fd as u64)
}
fn do_write(m: &mut M, fd: i32, b: &[u8]) -> i64 {
    match fd {
        1 => { m.env.out.extend_from_slice(b); b.len() as i64 }
        2 => { if m.env.err.len() < 1 << 20 { m.env.err.extend_from_slice(b); } b.len() as i64 }
        _ => {
            let Some(f) = m.env.fds.get_mut(&fd) else { return -9 };
            let file = m.env.files.entry(f.path.clone()).or_default();
            if f.append { f.pos = file.len() as u64 }
            let e = f.pos as usize + b.len();
            if file.len() < e { file.resize(e, 0) }
            file[f.pos as usize..e].copy_from_slice(b);
            f.pos = e as u64;
            b.len() as i64
        }
    }
}
fn wr(m: &mut M, r: i64, rt: TyId) -> V { if r < 0 { neg1(m, rt, -r as i32) } else { V::C(r as u64) } }
fn write(m: &mut M, a: A, rt: TyId) -> V { let (fd, p, n) = (c(m, a, 0), c(m, a, 1), c(m, a, 2)); let b = m.read_bytes(p, n); let r = do_write(m, fd as i32, &b); wr(m, r, rt) }
fn writev(m: &mut M, a: A, rt: TyId) -> V {
    let (fd, p, n) = (c(m, a, 0), c(m, a, 1), c(m, a, 2));
    let mut tot = 0;
    for i in 0..n { let h = m.read_bytes(p + 16 * i, 16); let (q, l) = (u64::from_le_bytes(h[..8].try_into().unwrap()), u64::from_le_bytes(h[8..].try_into().unwrap())); let b = m.read_bytes(q, l); let r = do_write(m, fd as i32, &b); if r < 0 { return wr(m, r, rt) } tot += r }
    V::C(tot as u64)
}
fn read(m: &mut M, a: A, rt: TyId) -> V {
    let (fd, p, n) = (c(m, a, 0) as i32, c(m, a, 1), c(m, a, 2));
    let Some(f) = m.env.fds.get_mut(&fd) else { if fd == 0 { return V::C(0) } return neg1(m, rt, 9) };
    if let Some(ts) = m.env.sympipes.get(&f.path) {
        let s = (f.pos as usize).min(ts.len());
        let e = (s + n as usize).min(ts.len());
        f.pos = e as u64;
        let ts = ts[s..e].to_vec();
        for (i, t) in ts.iter().enumerate() { m.store_byte(p + i as u64, *t) }
        return V::C(ts.len() as u64);
    }
    let file = m.env.files.get(&f.path).cloned().unwrap_or_default();
    let s = (f.pos as usize).min(file.len());
    let e = (s + n as usize).min(file.len());
    f.pos = e as u64;
    m.write_bytes(p, &file[s..e]);
    V::C((e - s) as u64)
}
fn lseek(m: &mut M, a: A, rt: TyId) -> V {
    let (fd, o, w) = (c(m, a, 0) as i32, c(m, a, 1), c(m, a, 2));
    let Some(f) = m.env.fds.get_mut(&fd) else { return neg1(m, rt, 9) };
    let len = m.env.files.get(&f.path).map(|x| x.len() as u64).unwrap_or(0);
    f.pos = match w { 0 => o, 1 => f.pos.wrapping_add(o), _ => len.wrapping_add(o) };
    V::C(f.pos)
}
fn close(m: &mut M, a: A, _: TyId) -> V { let fd = c(m, a, 0) as i32; m.env.fds.remove(&fd); V::C(0) }
fn fill_stat(m: &mut M, p: u64, mode: u32, size: u64) { m.write_bytes(p, &[0u8; 144]); m.write_bytes(p + 24, &mode.to_le_bytes()); m.write_bytes(p + 48, &size.to_le_bytes()); m.write_bytes(p + 16, &1u64.to_le_bytes()); }
fn look(m: &M, n: &str) -> Option<(u32, u64)> { if let Some(f) = m.env.files.get(n) { return Some((0o100644, f.len() as u64)) } if n == "/" || n == "/tmp" || m.env.dirs.contains(&n.to_string()) { return Some((0o040755, 4096)) } None }
fn fstat(m: &mut M, a: A, rt: TyId) -> V { let (fd, p) = (c(m, a, 0) as i32, c(m, a, 1)); match m.env.fds.get(&fd).map(|f| f.path.clone()) { Some(n) => { let (mo, s) = look(m, &n).unwrap_or((0o100644, 0)); fill_stat(m, p, mo, s); V::C(0) } None => if fd < 3 { fill_stat(m, p, 0o020620, 0); V::C(0) } else { neg1(m, rt, 9) } } }
fn stat(m: &mut M, a: A, rt: TyId) -> V { let (n, p) = (c(m, a, 0), c(m, a, 1)); let n = norm(&m.cstr(n)); match look(m, &n) { Some((mo, s)) => { fill_stat(m, p, mo, s); V::C(0) } None => neg1(m, rt, 2) } }
fn statx(m: &mut M, a: A, rt: TyId) -> V {
    let (fd, pn, p) = (c(m, a, 0) as i32, c(m, a, 1), c(m, a, 4));
    if pn == 0 { return neg1(m, rt, 14) }
    let name = m.cstr(pn);
    let n = if name.is_empty() { m.env.fds.get(&fd).map(|f| f.path.clone()).unwrap_or_default() } else { norm(&name) };
    match look(m, &n) {
        Some((mo, s)) => { m.write_bytes(p, &[0u8; 256]); m.write_bytes(p, &0x7ffu32.to_le_bytes()); m.write_bytes(p + 28, &(mo as u16).to_le_bytes()); m.write_bytes(p + 40, &s.to_le_bytes()); V::C(0) }
        None => neg1(m, rt, 2),
    }
}
fn mkdir(m: &mut M, a: A, rt: TyId) -> V { let p = c(m, a, 0); let n = norm(&m.cstr(p)); if look(m, &n).is_some() { return neg1(m, rt, 17) } m.env.dirs.push(n); V::C(0) }
fn unlink(m: &mut M, a: A, rt: TyId) -> V { let p = c(m, a, 0); let n = norm(&m.cstr(p)); if m.env.files.remove(&n).is_some() { V::C(0) } else { neg1(m, rt, 2) } }
fn getcwd(m: &mut M, a: A, _: TyId) -> V { let p = c(m, a, 0); m.write_bytes(p, b"/tmp\0"); V::C(p) }
fn isatty_ioctl(m: &mut M, _: A, rt: TyId) -> V { neg1(m, rt, 25) }
fn syscall(m: &mut M, a: A, rt: TyId) -> V {
    match c(m, a, 0) {
        202 => { if c(m, a, 2) & 127 == 1 || c(m, a, 2) & 127 == 10 { return V::C(0) } block(m); V::C(0) }
        318 => { let v = a[1..].to_vec(); getrandom(m, &v, rt) }
        186 => V::C(4242),
        332 => { let v = a[1..].to_vec(); statx(m, &v, rt) }
        k => m.inc(&format!("syscall {k}")),
    }
}
fn dlsym(_: &mut M, _: A, _: TyId) -> V { V::C(0) }
fn mmap(m: &mut M, a: A, _: TyId) -> V { let n = c(m, a, 1); V::C(m.malloc(n, 4096)) }
fn strerror_r(m: &mut M, a: A, _: TyId) -> V { let (e, p) = (c(m, a, 0), c(m, a, 1)); let s = format!("os error {e}\0"); m.write_bytes(p, s.as_bytes()); V::C(0) }
// --- harness API ---
fn str2(m: &mut M, a: A, i: usize) -> String { let (p, n) = (c(m, a, i), c(m, a, i + 1)); String::from_utf8_lossy(&m.read_bytes(p, n)).into_owned() }
fn sym_u64(m: &mut M, a: A, _: TyId) -> V {
    let n = str2(m, a, 0);
    let w = c(m, a, 2) as u32;
    // an input the environment made: a status, a schedule
    if let Some(x) = m.inputs.iter().find(|x| x.0 == n && x.1 == w && (n.starts_with("status-") || n.starts_with("sched"))) { let z = x.2; let z = m.tm.zext(z, 64); return m.from_term(z) }
    let t = m.tm.var(&n, w);
    m.inputs.push((n, w, t));
    m.has_sym = true;
    let z = m.tm.zext(t, 64);
    V::T(z)
}
fn sym_assume(m: &mut M, a: A, _: TyId) -> V {
    match a[0].1 { V::C(k) => { if k & 1 == 0 { m.end("assume", "") } } V::T(t) => { let z = m.tm.k(32, 0); let e = m.tm.bin(Op::Eq, t, z); let n = m.tm.not(e); m.assume(n) } _ => {} }
    V::C(0)
}
fn sym_fail(m: &mut M, a: A, _: TyId) -> V { let s = str2(m, a, 0); m.end("fail", &s) }
fn sym_reach(m: &mut M, a: A, _: TyId) -> V { let s = str2(m, a, 0); unsafe { (*SH).note(&format!("reach:{s}")) } V::C(0) }
fn sym_conc(m: &mut M, a: A, _: TyId) -> V { V::C(c(m, a, 0)) }
fn sym_is(_: &mut M, _: A, _: TyId) -> V { V::C(1) }
fn sym_note(m: &mut M, a: A, _: TyId) -> V {
    let (k, v) = (str2(m, a, 0), str2(m, a, 2));
    match k.as_str() {
        "panic_ok" => m.env.panic_ok = v == "1",
        "limit_viol" => m.env.limit_viol = v == "1",
        "trace" => m.trace = v == "1",
        "env" => { if let Some((a, b)) = v.split_once('=') { m.env.vars.insert(a.into(), b.into()); } }
        "file" => { if let Some((a, b)) = v.split_once('\n') { m.env.files.insert(norm(a), b.as_bytes().to_vec()); } }
        "prog" => { if let Some((a, b)) = v.split_once('\n') { let a = norm(a); m.env.files.insert(a.clone(), vec![]); m.env.progs.entry(a).or_default().0.push(b.into()); } }
        "dir" => { m.env.dirs.push(norm(&v)) }
        "print" => eprintln!("{v}"),
        _ => unsafe { (*SH).note(&format!("{k}: {v}")) },
    }
    V::C(0)
}
fn sym_oracle(m: &mut M, a: A, _: TyId) -> V {
    use std::hash::Hasher;
    let (k, s, o) = (str2(m, a, 0), str2(m, a, 2), str2(m, a, 4));
    unsafe { (*SH).or_calls.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for x in [&k, &s, &o] { h.write(x.as_bytes()); h.write_u8(255) }
    let b = format!("{}/or/{:016x}", m.env.outdir, h.finish());
    if std::fs::OpenOptions::new().write(true).create_new(true).open(format!("{b}.kind")).map(|mut f| std::io::Write::write_all(&mut f, k.as_bytes())).is_ok() {
        let i = m.input_lines();
        for (e, x) in [("src", &s), ("out", &o), ("inputs", &i)] { std::fs::write(format!("{b}.{e}"), x).unwrap() }
    }
    V::C(0)
}
/// the interval/equality query on the whole domain without forking: does the path condition imply `c`?
fn sym_implied(m: &mut M, a: A, _: TyId) -> V {
    match a[0].1 { V::C(k) => V::C(k & 1), V::T(t) => { let z = m.tm.k(32, 0); let e = m.tm.bin(Op::Eq, t, z); if m.branch(e) { V::C(0) } else { V::C(1) } } _ => V::C(0) }
}
// --- intrinsics ---
fn elementwise(m: &mut M, a: A, rt: TyId, f: fn(&mut M, u32, &[V]) -> V) -> V {
    if let Ty::Vec(n, e) = *m.ts.ty(rt) {
        let w = m.ts.bits(e);
        let r = (0..n as usize).map(|i| { let args: Vec<V> = a.iter().map(|(_, v)| match v { V::A(x) => x[i].clone(), v => v.clone() }).collect(); f(m, w, &args) }).collect();
        return V::A(Rc::new(r));
    }
    let t = a[0].0;
    let w = m.ts.bits(t);
    let args: Vec<V> = a.iter().map(|x| x.1.clone()).collect();
    f(m, w, &args)
}
fn minmax(m: &mut M, w: u32, a: &[V], p: Pred) -> V { match m.icmp(p, w, &a[0], &a[1]) { V::C(0) => a[1].clone(), V::C(_) => a[0].clone(), V::T(c) => m.ite(c, w, &a[0], &a[1]), _ => panic!() } }
fn umax(m: &mut M, a: A, rt: TyId) -> V { elementwise(m, a, rt, |m, w, a| minmax(m, w, a, Pred::Ugt)) }
fn umin(m: &mut M, a: A, rt: TyId) -> V { elementwise(m, a, rt, |m, w, a| minmax(m, w, a, Pred::Ult)) }
fn smax(m: &mut M, a: A, rt: TyId) -> V { elementwise(m, a, rt, |m, w, a| minmax(m, w, a, Pred::Sgt)) }
fn smin(m: &mut M, a: A, rt: TyId) -> V { elementwise(m, a, rt, |m, w, a| minmax(m, w, a, Pred::Slt)) }
fn bit_term(m: &mut M, x: T, i: u32) -> T { m.tm.extract(x, i, i) }
fn ctlz(m: &mut M, a: A, rt: TyId) -> V { elementwise(m, a, rt, |m, w, a| match &a[0] { V::C(k) => V::C(if *k == 0 { w as u64 } else { (k.leading_zeros() - (64 - w)) as u64 }), V::W(l, h) => { let k = (*h as u128) << 64 | *l as u128; M::kv(w, (k.leading_zeros() - (128 - w)) as u128) } V::T(t) => { let mut r = m.tm.k128(w, w as u128); for i in 0..w { let b = bit_term(m, *t, i); let k = m.tm.k128(w, (w - 1 - i) as u128); r = m.tm.ite(b, k, r) } m.from_term(r) } _ => panic!() }) }
fn cttz(m: &mut M, a: A, rt: TyId) -> V { elementwise(m, a, rt, |m, w, a| match &a[0] { V::C(k) => V::C(if *k == 0 { w as u64 } else { k.trailing_zeros() as u64 }), V::W(l, h) => { let k = (*h as u128) << 64 | *l as u128; M::kv(w, k.trailing_zeros().min(w) as u128) } V::T(t) => { let mut r = m.tm.k128(w, w as u128); for i in (0..w).rev() { let b = bit_term(m, *t, i); let k = m.tm.k128(w, i as u128); r = m.tm.ite(b, k, r) } m.from_term(r) } _ => panic!() }) }
fn ctpop(m: &mut M, a: A, rt: TyId) -> V { elementwise(m, a, rt, |m, w, a| match &a[0] { V::C(k) => V::C(k.count_ones() as u64), V::T(t) => { let mut r = m.tm.k(w, 0); for i in 0..w { let b = bit_term(m, *t, i); let b = m.tm.zext(b, w); r = m.tm.bin(Op::Add, r, b) } m.from_term(r) } _ => panic!() }) }
fn bitreverse(m: &mut M, a: A, rt: TyId) -> V { elementwise(m, a, rt, |m, w, a| { let k = m.conc(&a[0]); V::C(k.reverse_bits() >> (64 - w)) }) }
fn bswap(m: &mut M, a: A, rt: TyId) -> V { elementwise(m, a, rt, |m, w, a| match &a[0] { V::C(k) => V::C(k.swap_bytes() >> (64 - w)), v => { let t = m.term(v, w); let mut r = m.tm.extract(t, 7, 0); for i in 1..w / 8 { let b = m.tm.extract(t, i * 8 + 7, i * 8); r = m.tm.concat(r, b) } m.from_term(r) } }) }
fn usub_sat(m: &mut M, a: A, rt: TyId) -> V { elementwise(m, a, rt, |m, w, a| { let d = m.pub_bin(Op::Sub, w, &a[0], &a[1]); match m.icmp(Pred::Ult, w, &a[0], &a[1]) { V::C(0) => d, V::C(_) => M::kv(w, 0), V::T(c) => m.ite(c, w, &M::kv(w, 0), &d), _ => panic!() } }) }
fn uadd_sat(m: &mut M, a: A, rt: TyId) -> V { elementwise(m, a, rt, |m, w, a| { let d = m.pub_bin(Op::Add, w, &a[0], &a[1]); let mx = M::kv(w, !0u128); match m.icmp(Pred::Ult, w, &d, &a[0]) { V::C(0) => d, V::C(_) => mx, V::T(c) => m.ite(c, w, &mx, &d), _ => panic!() } }) }
fn sadd_sat(m: &mut M, a: A, rt: TyId) -> V { elementwise(m, a, rt, |m, w, a| { let (x, y) = (m.conc(&a[0]), m.conc(&a[1])); let (x, y) = (crate::term::sext64(x, w) as i128, crate::term::sext64(y, w) as i128); let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1); V::C((x + y).clamp(lo, hi) as u64 & mask(w)) }) }
fn ovf(m: &mut M, a: A, signed: bool, op: Op) -> V {
    let w = m.ts.bits(a[0].0);
    let (x, y) = (a[0].1.clone(), a[1].1.clone());
    let r = m.pub_bin(op, w, &x, &y);
    if let (V::C(p), V::C(q)) = (&x, &y) {
        let o = if signed {
            let (p, q) = (crate::term::sext64(*p, w) as i128, crate::term::sext64(*q, w) as i128);
            let t = match op { Op::Add => p + q, Op::Sub => p - q, _ => p * q };
            t < -(1i128 << (w - 1)) || t > (1i128 << (w - 1)) - 1
        } else {
            let (p, q) = (*p as u128, *q as u128);
            match op { Op::Add => p + q > mask(w) as u128, Op::Sub => p < q, _ => p * q > mask(w) as u128 }
        };
        return V::A(Rc::new(vec![r, V::C(o as u64)]));
    }
    let e = match op { Op::Mul => 2 * w, _ => w + 1 };
    if e > 128 { m.inc("overflow width") }
    let (p, q) = (m.term(&x, w), m.term(&y, w));
    let (p, q) = if signed { (m.tm.sext(p, e), m.tm.sext(q, e)) } else { (m.tm.zext(p, e), m.tm.zext(q, e)) };
    let full = m.tm.bin(op, p, q);
    let lo = m.tm.extract(full, w - 1, 0);
    let back = if signed { m.tm.sext(lo, e) } else { m.tm.zext(lo, e) };
    let eq = m.tm.bin(Op::Eq, full, back);
    let ne = m.tm.not(eq);
    let o = m.from_term(ne);
    V::A(Rc::new(vec![r, o]))
}
fn uaddo(m: &mut M, a: A, _: TyId) -> V { ovf(m, a, false, Op::Add) }
fn usubo(m: &mut M, a: A, _: TyId) -> V { ovf(m, a, false, Op::Sub) }
fn umulo(m: &mut M, a: A, _: TyId) -> V { ovf(m, a, false, Op::Mul) }
fn saddo(m: &mut M, a: A, _: TyId) -> V { ovf(m, a, true, Op::Add) }
fn ssubo(m: &mut M, a: A, _: TyId) -> V { ovf(m, a, true, Op::Sub) }
fn smulo(m: &mut M, a: A, _: TyId) -> V { ovf(m, a, true, Op::Mul) }
fn cmp3(m: &mut M, a: A, rt: TyId, p: Pred) -> V {
    let w = m.ts.bits(a[0].0);
    let rw = m.ts.bits(rt);
    let (x, y) = (a[0].1.clone(), a[1].1.clone());
    let lt = m.icmp(p, w, &x, &y);
    let gt = m.icmp(p, w, &y, &x);
    let (lt, gt) = (m.term(&lt, 1), m.term(&gt, 1));
    let (z, o, n) = (m.tm.k(rw, 0), m.tm.k(rw, 1), m.tm.k(rw, !0));
    let r = m.tm.ite(gt, o, z);
    let r = m.tm.ite(lt, n, r);
    m.from_term(r)
}
fn scmp(m: &mut M, a: A, rt: TyId) -> V { cmp3(m, a, rt, Pred::Slt) }
fn ucmp(m: &mut M, a: A, rt: TyId) -> V { cmp3(m, a, rt, Pred::Ult) }
fn fshl(m: &mut M, a: A, rt: TyId) -> V { elementwise(m, a, rt, |m, w, a| { let s = m.conc(&a[2]) % w as u64; if s == 0 { return a[0].clone() } let x = m.pub_bin(Op::Shl, w, &a[0], &V::C(s)); let y = m.pub_bin(Op::LShr, w, &a[1], &V::C(w as u64 - s)); m.pub_bin(Op::Or, w, &x, &y) }) }
fn fshr(m: &mut M, a: A, rt: TyId) -> V { elementwise(m, a, rt, |m, w, a| { let s = m.conc(&a[2]) % w as u64; if s == 0 { return a[1].clone() } let x = m.pub_bin(Op::Shl, w, &a[0], &V::C(w as u64 - s)); let y = m.pub_bin(Op::LShr, w, &a[1], &V::C(s)); m.pub_bin(Op::Or, w, &x, &y) }) }
fn abs(m: &mut M, a: A, _: TyId) -> V { let w = m.ts.bits(a[0].0); let z = M::kv(w, 0); let n = m.pub_bin(Op::Sub, w, &z, &a[0].1); match m.icmp(Pred::Slt, w, &a[0].1, &z) { V::C(0) => a[0].1.clone(), V::C(_) => n, V::T(c) => m.ite(c, w, &n, &a[0].1), _ => panic!() } }
fn ident(_: &mut M, a: A, _: TyId) -> V { a[0].1.clone() }
fn load_relative(m: &mut M, a: A, _: TyId) -> V { let (p, o) = (c(m, a, 0), c(m, a, 1)); let b = m.read_bytes(p.wrapping_add(o), 4); V::C(p.wrapping_add(i32::from_le_bytes(b.try_into().unwrap()) as i64 as u64)) }
fn trap(m: &mut M, _: A, _: TyId) -> V { m.end("panic", "trap") }
fn pshufb(m: &mut M, a: A, _: TyId) -> V {
    let (x, y) = match (&a[0].1, &a[1].1) { (V::A(x), V::A(y)) => (x.clone(), y.clone()), _ => panic!() };
    let r = (0..x.len()).map(|i| { let k = m.conc(&y[i]); if k & 0x80 != 0 { V::C(0) } else { x[(i & !15) + (k & 15) as usize].clone() } }).collect();
    V::A(Rc::new(r))
}
pub fn asm(m: &mut M, s: &str, a: A, rt: TyId) -> V {
    if s.starts_with('|') { return if a.is_empty() { V::C(0) } else if rt == VOID { V::C(0) } else { a[0].1.clone() } }
    if s.contains("cpuid") { return m.zero(rt) }
    if s.contains("syscall") {
        let n = c(m, a, 0);
        if n != 21 { return m.inc(&format!("raw syscall {n}")) }
        let p = c(m, a, 1);
        let f = norm(&m.cstr(p));
        let r = if look(m, &f).is_some() { 0 } else { -2i64 as u64 };
        return if rt == I64 { V::C(r) } else { V::A(Rc::new(vec![V::C(r), V::C(0), V::C(0)])) };
    }
    m.inc(&format!("inline asm {s}"))
}
pub fn lookup(n: &str) -> Option<Stub> {
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |x: &str| r.starts_with(x);
        let f: Stub = if p("memcpy") || p("memmove") { memcpy } else if p("memset") { memset } else if p("umax") { umax } else if p("umin") { umin } else if p("smax") { smax } else if p("smin") { smin }
            else if p("ctlz") { ctlz } else if p("cttz") { cttz } else if p("ctpop") { ctpop } else if p("bitreverse") { bitreverse } else if p("bswap") { bswap }
            else if p("usub.sat") { usub_sat } else if p("uadd.sat") { uadd_sat } else if p("sadd.sat") { sadd_sat }
            else if p("uadd.with") { uaddo } else if p("usub.with") { usubo } else if p("umul.with") { umulo } else if p("sadd.with") { saddo } else if p("ssub.with") { ssubo } else if p("smul.with") { smulo }
            else if p("scmp") { scmp } else if p("ucmp") { ucmp } else if p("fshl") { fshl } else if p("fshr") { fshr } else if p("abs") { abs }
            else if p("is.constant") { ret0 } else if p("threadlocal") || p("expect") { ident } else if p("load.relative") { load_relative } else if p("trap") || p("ubsan") { trap }
            else if p("x86.avx2.pshuf.b") || p("x86.ssse3.pshuf.b") { pshufb } else if p("x86.sse2.pause") || p("prefetch") || p("assume") || p("lifetime") || p("experimental.noalias") || p("x86.xgetbv") { ret0 } else { return None };
        return Some(f);
    }
    Some(match n {
        "memcpy" | "memmove" => memcpy, "memset" => memset, "memcmp" => memcmp, "bcmp" => bcmp, "strlen" => strlen,
        "malloc" => malloc, "calloc" => calloc, "realloc" => realloc, "free" => free, "posix_memalign" => posix_memalign, "aligned_alloc" => aligned_alloc,
        "abort" => abort, "exit" | "_exit" => exit, "getenv" => getenv, "getrandom" => getrandom, "__errno_location" => errno_location,
        "clock_gettime" => clock, "getpid" | "gettid" => getpid, "pthread_self" => pthread_self, "sysconf" => sysconf,
        "pthread_key_create" => key_create, "pthread_getspecific" => getspecific, "pthread_setspecific" => setspecific, "pthread_key_delete" => ret0, "__cxa_thread_atexit_impl" => atexit,
        "open64" | "open" => open, "write" => write, "writev" => writev, "read" => read, "lseek64" | "lseek" => lseek, "close" => close, "fstat64" => fstat, "stat64" | "lstat64" => stat, "statx" => statx, "mkdir" => mkdir, "unlink" => unlink, "getcwd" => getcwd,
        "ioctl" => isatty_ioctl, "isatty" => ret0, "syscall" => syscall, "dlsym" => dlsym, "mmap64" | "mmap" => mmap, "munmap" | "mprotect" | "sigaltstack" | "sigaction" | "signal" | "sched_yield" | "fcntl" => ret0,
        "realpath" | "readlink" | "clock_nanosleep" => if n == "clock_nanosleep" { ret0 } else { ret_neg }, "__xpg_strerror_r" => strerror_r, "getauxval" => ret0,
        "gnu_get_libc_version" => libc_version, "pthread_create" => pthread_create, "pthread_join" => pthread_join, "pipe2" => pipe2, "posix_spawn_file_actions_adddup2" => spawn_dup2, "posix_spawnp" | "posix_spawn" => spawn, "waitpid" => waitpid, "waitid" => waitid, "kill" => kill, "access" | "faccessat" => access,
        "pthread_attr_init" | "pthread_attr_setstacksize" | "pthread_attr_destroy" | "pthread_detach" | "posix_spawnattr_init" | "posix_spawnattr_setflags" | "posix_spawnattr_setsigmask" | "posix_spawnattr_setsigdefault" | "posix_spawnattr_destroy" | "posix_spawn_file_actions_init" | "posix_spawn_file_actions_destroy" | "sigemptyset" | "sigaddset" => ret0,
        "dl_iterate_phdr" | "_Unwind_Backtrace" => ret0, "pthread_setname_np" => ret0,
        "__sym_u64" => sym_u64, "__sym_assume" => sym_assume, "__sym_fail" => sym_fail, "__sym_reach" => sym_reach, "__sym_concretize" => sym_conc, "__sym_is_symbolic" => sym_is, "__sym_note" => sym_note, "__sym_oracle" => sym_oracle, "__sym_implied" => sym_implied,
        _ => return None,
    })
}
pub fn generic(_m: &mut M, _n: &str, _a: A, _rt: TyId) -> Option<V> { None }
