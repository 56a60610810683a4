//! Running the solvers (C01): what the tool concludes from their answers.
use crate::fam::{ENC, HSH, PRE, SGN};
use crate::sym::*;
use crate::*;
use cryptovampire::Return;
/// a solver: its answer to each call; each call ends with any status or by a signal
struct Solver { name: &'static str, outs: Vec<String> }
impl Solver {
    /// the answer to the k-th call; "\u{1}n": any n ASCII characters
    fn out(&self, k: usize) -> String {
        let o = self.outs.get(k).or(self.outs.last()).unwrap();
        match o.strip_prefix('\u{1}') {
            Some(n) => String::from_utf8((0..n.parse().unwrap()).map(|i: usize| sym(&format!("status-{}-{k}-{i}", self.name), 8) as u8).collect()).unwrap(),
            None => o.clone(),
        }
    }
}
fn dir() -> String { if is_symbolic() { "/tmp/symvfs/bin".into() } else { format!("{}/bin", outdir()) } }
fn path(n: &str) -> String { format!("{}/{n}", dir()) }
fn status(n: &str, k: usize) -> u64 { sym(&format!("status-{n}-{k}"), 16) }
fn calls(n: &str) -> usize { (0..).take_while(|k| std::fs::metadata(format!("{}.args{k}", path(n))).is_ok()).count() }
/// natively: scripts that answer the same, in the order of the schedule
fn install(s: &[Solver], tries: usize) {
    if is_symbolic() {
        note("dir", &dir());
        for x in s { for o in &x.outs { note("prog", &format!("{}\n{o}", path(x.name))) } }
        return;
    }
    use std::os::unix::fs::PermissionsExt;
    let _ = std::fs::remove_dir_all(dir());
    std::fs::create_dir_all(dir()).unwrap();
    let mut late = vec![vec![false; tries]; s.len()];
    let mut t = 0;
    for k in 0..tries {
        if s.len() < 2 { break }
        let sc = |n: u64| sym(&format!("sched{n}"), 64);
        if sc(t + 1) == 1 { late[1][k] = true; t += 4 } else if sc(t + 3) == 1 { late[0][k] = true; t += 4 } else { late[1 - sc(t + 4) as usize % 2][k] = true; t += 5 }
    }
    for (x, l) in s.iter().zip(&late) {
        let p = path(x.name);
        let mut sh = format!("#!/bin/sh\nn=0; while [ -e {p}.args$n ]; do n=$((n+1)); done\nprintf '%s\\n' \"$@\" > {p}.args$n\nfor f; do :; done\ncp \"$f\" {p}.in$n\ncase $n in\n");
        for k in 0..tries {
            let o = x.out(k);
            std::fs::write(format!("{p}.out{k}"), o).unwrap();
            let st = status(x.name, k);
            sh += &format!("{k}) {} cat {p}.out{k}; {} ;;\n", if l[k] { "sleep 0.5;" } else { "" }, if st & 0xff == 0 { format!("exit {}", st >> 8) } else { "kill -9 $$".into() });
        }
        std::fs::write(&p, sh + "esac\n").unwrap();
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
    }
}
#[derive(PartialEq, Clone, Copy)]
enum Says { Unsat, Sat, Nothing, Error }
/// what one call of a solver says, by the solver's own conventions
fn says(n: &str, st: u64, out: &str) -> Says {
    if st & 0xff != 0 { return Says::Nothing }
    let rc = st >> 8;
    if n == "z3" {
        if rc != 0 { return Says::Error }
        return match out.lines().last().map(str::trim) {
            Some("unsat") => Says::Unsat,
            Some("sat") => Says::Sat,
            None => Says::Error,
            _ => Says::Nothing,
        };
    }
    match rc {
        0 if out.contains("Satisfiable") || out.contains("CounterSatisfiable") => Says::Sat,
        0 => Says::Unsat,
        1 => Says::Nothing,
        _ => Says::Error,
    }
}
fn auto(src: &str, s: &[Solver], tries: usize, extra: &[&str]) -> Result<Vec<u32>, String> { auto_pre(src, s, tries, extra, &[]) }
fn auto_pre(src: &str, s: &[Solver], tries: usize, extra: &[&str], pre: &[&str]) -> Result<Vec<u32>, String> {
    install(s, tries);
    let (v, z, n) = (path("vampire"), path("z3"), tries.to_string());
    let mut argv = vec!["cryptovampire"];
    argv.extend(pre.iter().filter(|x| !x.is_empty()));
    argv.extend(["auto", "--vampire-location", &v, "--z3-location", &z, "--num-of-retry", &n, "--disable-cvc5"]);
    if !s.iter().any(|x| x.name == "vampire") { argv.push("--disable-vampire") }
    if !s.iter().any(|x| x.name == "z3") { argv.push("--disable-z3") }
    argv.extend(extra.iter().filter(|x| !x.is_empty()));
    let a = match Args::try_parse_from(&argv) {
        Ok(a) => a,
        Err(e) => fail(&format!("the command line is rejected: {e}")),
    };
    match run_from_cv(a, src) {
        Ok(Return::AutoRun(v)) => { reach("proved"); Ok(v.iter().map(|x| x.num_tries()).collect()) }
        Ok(_) => fail("auto does something else"),
        Err(_) => { reach("notproved"); Err("no".into()) }
    }
}
/// what the calls made say together against what was concluded
fn judge(r: &Result<Vec<u32>, String>, s: &[Solver], problems: usize) {
    let mut all: Vec<(Says, String)> = vec![];
    for x in s {
        for k in 0..calls(x.name) {
            let o = x.out(k);
            all.push((says(x.name, status(x.name, k), &o), format!("{} call {k}", x.name)));
        }
    }
    if all.is_empty() { fail("no solver was called") }
    let unsat = all.iter().filter(|x| x.0 == Says::Unsat).count();
    match r {
        Ok(v) => {
            if v.len() != problems { fail("another number of problems is reported") }
            if unsat < problems { fail(&format!("{problems} problems are reported proved, {unsat} times a solver said so")) }
        }
        Err(_) => {
            if unsat >= problems && all.iter().all(|x| matches!(x.0, Says::Unsat | Says::Nothing)) { fail("a problem proved by a solver is reported as not proved") }
        }
    }
}
const Z: [&str; 8] = ["unsat\n", "sat\n", "timeout\n", "unknown\n", "", "unsat\nsat\n", "sat\n  unsat  \n", "(error \"x\")\nunsat\nunknown\n"];
const V: [&str; 4] = ["% SZS status Theorem for x\n% Termination reason: Refutation\n", "% SZS status CounterSatisfiable for x\n% Termination reason: Satisfiable\n", "% Termination reason: Time limit\n", ""];
fn src(extra: &str) -> String { format!("{PRE}{HSH}step T(i:index) {{ p(in) }} {{ hash(in,k(i)) }}\nstep R(i:index) {{ verify(snd(in),fst(in),k(i)) }} {{ ok }}\n{extra}query forall (i:index) {{ (cond!(R(i)) => exists (l:index) {{lt(T(l),R(i))}}) }}\nassert-crypto uf-cma hash verify\n") }
/// the two solvers at once, every order of their ends, every exit status
#[no_mangle]
pub extern "C" fn h_run() {
    let s = [
        Solver { name: "vampire", outs: vec![V[below("v", 4) as usize].into()] },
        Solver { name: "z3", outs: vec![Z[below("z", 8) as usize].into()] },
    ];
    let r = auto(&src(""), &s, 1, &[]);
    judge(&r, &s, 1);
}
/// one solver whose answer is any text of up to seven characters: no text but `unsat` on its last line is a proof
#[no_mangle]
pub extern "C" fn h_runz() {
    let s = [Solver { name: "z3", outs: vec![format!("\u{1}{}", 4 + below("len", 5))] }];
    let r = auto(&src(""), &s, 1, &[]);
    judge(&r, &s, 1);
}
/// what a solver was given
fn given(n: &str, k: usize) -> Option<String> { std::fs::read(format!("{}.in{k}", path(n))).ok().map(|x| String::from_utf8_lossy(&x).into_owned()) }
/// the files the two solvers get mean what the source says
#[no_mangle]
pub extern "C" fn h_runf() {
    let m = pick("mode", &["", "--symbolic", "--no-preprocessing", "--crypto-rewrite", "--eval-rewrite", "--vampire-subterm", "--skolemnise"]);
    let e = pick("more", &["", "assert forall (x:Message) {(p(x) => (fst(x) == ok))}\n", "step S { (in == ko) } { ok }\norder forall (i:index) { S < T(i) }\n"]);
    let s = [Solver { name: "vampire", outs: vec![V[2].into()] }, Solver { name: "z3", outs: vec![Z[2].into()] }];
    assume(sym("sched1", 64) == 1);
    let src = src(e);
    assume(status("vampire", 0) == 0x100);
    assume(status("z3", 0) == 0);
    auto_pre(&src, &s, 1, &[], &[m]).ok();
    for x in &s {
        let Some(f) = given(x.name, 0) else { fail("a solver was not given its problem") };
        let ext = x.name == "vampire";
        let r = if m.ends_with("rewrite") { "+declare-rewrite" } else { "" };
        oracle(&if ext { format!("wf,query,user,order,cma,k=1,ext=assert-not+assert-theory{r}{}", if m == "--vampire-subterm" { "+declare-subterm-relation" } else { "" }) } else { format!("wf,ext={r},query,user,order,cma,k=1") }, &src, &f);
    }
}
/// two problems, a lemma and the query: both must be proved
#[no_mangle]
pub extern "C" fn h_runl() {
    let a = |n: &str| Z[below(n, 5) as usize].to_string();
    let s = [Solver { name: "z3", outs: vec![a("z0"), a("z1")] }];
    let src = src("lemma forall (i:index) {(happens(T(i)) => cond!(T(i)))}\n");
    let r = auto(&src, &s, 2, &["--lemmas"]);
    judge(&r, &s, 2);
}
const L: [&str; 14] = [
    "verify(snd(X0),fst(X1),'cast$Message$name'(k(X2)))",
    "~verify(X0,X0,X0)",
    "(hash(X0,'cast$Message$name'(k(X1))) = X2)",
    "evaluate_cond(verify(msg(X0),X1,'cast$Message$name'(k(X2))))",
    "(evaluate_msg(hash(ok,sK3)) != evaluate_msg(X0))",
    "verify(X0,ok)",
    "(hash(X0,X1) != hash(X1,'cast$Message$name'(k(X0))))",
    "($true = verify(X0,X1,X2))",
    "hash",
    "(((verify",
    "(k(X0) = hash(X0,X0))",
    "verify(tpl(hash(ok,'cast$Message$name'(k(X0))),ko),fst(input('T'(X0))),'cast$Message$name'(k(X0)))",
    "'eval$verify'('eval$hash'(X0,X1),X2,evaluate_msg(X3))",
    "msg(hash(X0,X1))",
];
const LS: [&str; 8] = [
    "checksign(snd(X0),fst(X1),pk('cast$Message$name'(k(X2))))",
    "~checksign(X0,X0,X0)",
    "(sign(X0,'cast$Message$name'(k(X1))) = X2)",
    "evaluate_cond(checksign(msg(X0),X1,pk('cast$Message$name'(k(X2)))))",
    "checksign(X0,X1,pk(X2))",
    "(checksign(sign(ok,X0),ok,X1) = $true)",
    "checksign(sign(ok,'cast$Message$name'(k(X0))),X1,pk('cast$Message$name'(k(X0))))",
    "checksign(sK1(X0),X1,pk('cast$Message$name'(k(X2))))",
];
const LE: [&str; 8] = [
    "(dec(snd(X0),'cast$Message$name'(k(X2))) = X1)",
    "(dec(X0,X1) != bot)",
    "evaluate_cond('ta$='(dec(msg(X0),'cast$Message$name'(k(X2))),bot))",
    "(evaluate_msg(dec(X0,'cast$Message$name'(k(X1)))) != evaluate_msg(bot))",
    "p(dec(enc(X0,X1,'cast$Message$name'(k(X2))),'cast$Message$name'(k(X2))))",
    "dec",
    "(bot = dec(input('T'(X0)),'cast$Message$name'(k(X1))))",
    "p(dec(X0))",
];
/// what a vampire that timed out has printed is looked for terms of interest: the next problem is as sound as the first
#[no_mangle]
pub extern "C" fn h_disc() {
    let (a, b) = (L[below("a", 14) as usize], L[below("b", 14) as usize]);
    let two = below("two", 2) == 1;
    disc(&src(""), "cma", if two { format!("[SA] new: 7. {a} [input]\n% 12\n[SA] new: 12. ~p(X4) | {b} <- (~3) [resolution 1,2]\n") } else { format!("[SA] new: 12. {a} | {b} [resolution 1,2]\n") });
}
/// the same for signatures and encryptions
#[no_mangle]
pub extern "C" fn h_discs() {
    let (l, src, kind) = if flag("sign") {
        (LS, format!("{PRE}{SGN}step T(i:index) {{ p(in) }} {{ sign(in,k(i)) }}\nstep R(i:index) {{ checksign(snd(in),fst(in),pk(k(i))) }} {{ ok }}\nquery forall (i:index) {{ (cond!(R(i)) => exists (l:index) {{lt(T(l),R(i))}}) }}\nassert-crypto euf-cma sign checksign pk\n"), "cma")
    } else {
        (LE, format!("{PRE}{ENC}step T(i:index) {{ p(in) }} {{ enc(in,r(i,i),k(i)) }}\nstep R(i:index) {{ (dec(in,k(i)) != bot) }} {{ ok }}\nquery forall (i:index) {{ (cond!(R(i)) => exists (l:index) {{lt(T(l),R(i))}}) }}\nassert-crypto int-ctxt enc dec bot\n"), "ctxt")
    };
    let (a, b) = (l[below("a", 8) as usize], l[below("b", 8) as usize]);
    disc(&src, kind, format!("[SA] new: 12. {a} | {b} [resolution 1,2]\n"));
}
fn disc(src: &str, kind: &str, out: String) {
    let m = pick("mode", &["", "--symbolic", "--no-preprocessing"]);
    let s = [Solver { name: "vampire", outs: vec![out, V[2].into()] }];
    for k in 0..2 { assume(status("vampire", k) == 0x100) }
    for k in 1..8 { assume(sym(&format!("sched{k}"), 64) == 1) }
    let r = auto_pre(src, &s, 2, &[], &[m]);
    if r.is_ok() { fail("nothing was proved") }
    if given("vampire", 0).is_none() { fail("vampire was not given a problem") }
    if let Some(f) = given("vampire", 1) { reach("again"); oracle(&format!("wf,query,user,order,{kind},k=1"), src, &f) }
}
