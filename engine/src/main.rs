mod fx; mod ir; mod term; mod smt; mod sys; mod shared; mod interp; mod stubs; mod oracle;
use interp::*;
use std::sync::atomic::Ordering::*;
fn esc(s: &str) -> String { let mut r = String::from("\""); for c in s.chars() { match c { '"' => r += "\\\"", '\\' => r += "\\\\", '\n' => r += "\\n", '\t' => r += "\\t", c if (c as u32) < 32 => r += &format!("\\u{:04x}", c as u32), c => r.push(c) } } r.push('"'); r }
fn mapfile(p: &str) -> &'static [u8] {
    use std::os::fd::AsRawFd;
    let f = std::fs::File::open(p).expect("open ll");
    let n = f.metadata().unwrap().len() as usize;
    unsafe { let r = sys::mmap(std::ptr::null_mut(), n, 1, sys::MAP_SHARED, f.as_raw_fd(), 0); assert!(r as isize != -1); std::slice::from_raw_parts(r as *const u8, n) }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let ll = opt("--ll").unwrap();
            let entry = opt("--entry").unwrap();
            let out = opt("--out").unwrap();
            let jobs: i64 = opt("--jobs").map(|x| x.parse().unwrap()).unwrap_or(8);
            let secs: u64 = opt("--secs").map(|x| x.parse().unwrap()).unwrap_or(600);
            let maxi: u64 = opt("--max-instrs").map(|x| x.parse().unwrap()).unwrap_or(2_000_000_000);
            let _ = std::fs::remove_dir_all(&out);
            std::fs::create_dir_all(format!("{out}/or")).unwrap();
            let t0 = std::time::Instant::now();
            shared::init(jobs, secs);
            let pid = unsafe { sys::fork() };
            if pid == 0 {
                let mut m = M::new(mapfile(&ll), maxi);
                m.env.outdir = out.clone();
                m.trace = a.iter().any(|x| x == "--trace");
                unsafe { (*shared::SH).wait() }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    boot(&mut m);
                    m.call_named(&entry, &[]);
                }));
                if r.is_err() { m.end("engine", "the engine gave up") }
                m.end("ok", "");
            }
            let mut st = 0;
            unsafe { sys::waitpid(pid, &mut st, 0); }
            let s = unsafe { &*shared::SH };
            if st != 0 { s.crashed.fetch_add(1, SeqCst); }
            let ores = oracle::batch(&out, jobs as usize, opt("--oracle-secs").map(|x| x.parse().unwrap()).unwrap_or(120), s);
            let g = |x: &std::sync::atomic::AtomicU64| x.load(SeqCst);
            let mut ts = ir::Types::new();
            let md = ir::index(mapfile(&ll), &mut ts);
            let covered: Vec<String> = md.order.iter().enumerate().filter(|(i, _)| s.covered(*i)).map(|(_, n)| demangle(n)).collect();
            let mut cv: Vec<String> = covered.iter().filter(|n| n.contains("cryptovampire") || n.contains("indistinguishability") || n.contains("utils")).cloned().collect();
            cv.sort(); cv.dedup();
            let notes = s.all_notes();
            let js = format!("{{\"entry\":{},\"paths_ok\":{},\"paths_assume\":{},\"paths_panic\":{},\"paths_mem\":{},\"paths_limit\":{},\"paths_inconclusive\":{},\"forks\":{},\"crashed\":{},\"truncated\":{},\"violations\":{},\"instructions\":{},\"max_path_instructions\":{},\"branch_queries\":{},\"branch_solver_s\":{:.3},\"unknowns\":{},\"oracle_calls\":{},\"oracle_queries\":{},\"oracle_problems\":{},\"oracle_checks\":{},\"oracle_solver_s\":{:.3},\"oracle_cover\":{{{}}},\"oracle_errors\":[{}],\"functions_executed\":{},\"functions\":[{}],\"notes\":{{{}}},\"wall_s\":{:.2},\"z3\":{}}}",
                esc(&entry), g(&s.paths_ok), g(&s.paths_assume), g(&s.paths_panic), g(&s.paths_mem), g(&s.paths_limit), g(&s.paths_inconclusive), g(&s.forks), g(&s.crashed), g(&s.truncated), g(&s.viols), g(&s.instrs), g(&s.max_path_instrs), g(&s.queries), g(&s.solver_ns) as f64 / 1e9, g(&s.unknowns), g(&s.or_calls), g(&s.or_queries), g(&s.or_cached), g(&s.or_checks), g(&s.or_ns) as f64 / 1e9, ores.0.iter().map(|(n, c)| format!("{}:{}", esc(n), c)).collect::<Vec<_>>().join(","), ores.1.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","), covered.len(), cv.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","), notes.iter().map(|(n, c)| format!("{}:{}", esc(n), c)).collect::<Vec<_>>().join(","), t0.elapsed().as_secs_f64(), esc(&smt::version()));
            std::fs::write(format!("{out}/summary.json"), &js).unwrap();
            if a.iter().any(|x| x == "--print") { println!("{js}") }
        }
        Some("oracle") => {
            shared::init(1, 100000);
            let r = |i: usize| std::fs::read_to_string(&a[i]).unwrap();
            let vs = oracle::run(&r(2), &r(3), &r(4));
            for v in &vs { println!("ORACLE-VIOLATION: {}", v.replace('\n', "\\n")) }
            for (n, c) in unsafe { (*shared::SH).all_notes() } { println!("note {n} x{c}") }
            std::process::exit(if vs.is_empty() { 0 } else { 1 });
        }
        Some("oracle1") => { shared::init(1, 100000); oracle::one(&a[2]) }
        _ => std::process::exit(2),
    }
}
fn boot(m: &mut M) {
    // static constructors: .init_array.*
    let mut v: Vec<(String, String)> = m.md.globals.iter().filter_map(|(n, g)| g.section.as_ref().filter(|s| s.starts_with(".init_array")).map(|s| (s.clone(), n.clone()))).collect();
    v.sort();
    let argv0 = m.new_cstr("cv");
    let argv = m.malloc(16, 8);
    m.write_bytes(argv, &argv0.to_le_bytes());
    let envp = m.malloc(8, 8);
    for (_, n) in v {
        let a = m.addr_of(&n);
        let f = u64::from_le_bytes(m.read_bytes(a, 8).try_into().unwrap());
        m.call_addr(f, &[(ir::I32, V::C(1)), (ir::PTR, V::C(argv)), (ir::PTR, V::C(envp))]);
    }
}
