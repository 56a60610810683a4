//! Lemma sequencing (C02).
use crate::fam::{HSH, PRE, STEPS};
use crate::sym::*;
use crate::*;
const L: [&str; 6] = [
    "forall (i:index) {(happens(A(i)) => cond!(A(i)))}",
    "forall (x:Message) {(p(x) => p(fst(x)))}",
    "exists (i:index, j:index) {(na(i) == nb(j))}",
    "(ok == ko)",
    "forall (i:index, j:index) {(msg!(A(i)) == input(B(i,j)))}",
    "(p(ok) => p(ko) => p(tpl(ok,ko)))",
];
/// the lemmas of the source, in order
fn lemmas(n: u64) -> Vec<&'static str> { (0..n).map(|i| L[below(["l0", "l1", "l2"][i as usize], if n < 3 { L.len() as u64 } else { 3 }) as usize]).collect() }
pub fn run_dir(src: &str, pre: &[&str], post: &[&str]) -> bool {
    let out = format!("{}/outd", outdir());
    if !is_symbolic() { let _ = std::fs::remove_dir_all(&out); }
    let mut argv = vec!["cryptovampire"];
    argv.extend(pre.iter().filter(|x| !x.is_empty()));
    argv.extend(["to-file", "--lemmas", "-o", &out]);
    argv.extend(post.iter().filter(|x| !x.is_empty()));
    match Args::try_parse_from(&argv) {
        Ok(a) => run_from_cv(a, src).is_ok(),
        Err(_) => fail("the command line is rejected"),
    }
}
/// one file per lemma, then the query: each has the earlier lemmas among its axioms and nothing else
#[no_mangle]
pub extern "C" fn h_lemma() {
    let n = below("n", 4);
    let l = lemmas(n);
    let at = below("at", 3);
    let mode = if n == 2 { pick("mode", &["", "--symbolic"]) } else { "" };
    let post = if n == 1 { pick("post", &["", "--cvc5", "--assert-theory"]) } else { "" };
    let q = "query forall (i:index) { (happens(A(i)) => p(msg!(A(i)))) }\n";
    let a = "assert forall (x:Message) {(p(x) => (fst(x) == ok))}\n";
    let mut src = format!("{PRE}{STEPS}");
    if at == 0 { src += q }
    if at == 1 { src += a }
    for (i, x) in l.iter().enumerate() {
        if at == 2 && i == 1 { src += a; src += q }
        src += &format!("lemma {x}\n");
    }
    if at == 0 || (at == 2 && n < 2) { src += a }
    if at == 1 || (at == 2 && n < 2) { src += q }
    src += "assert-crypto nonce;\nassert-crypto unfolding\n";
    if !run_dir(&src, &[mode], &[post]) { fail("a valid protocol with lemmas is rejected") }
    reach("translated");
    for i in 0..=n {
        let Ok(o) = std::fs::read(format!("{}/outd/{i}.smt", outdir())) else { fail(&format!("no file for lemma {i}")) };
        oracle(&format!("query,user,nonce,unfold,lemmas,lemma={i},goal={i},k=1"), &src, &String::from_utf8_lossy(&o));
    }
    if std::fs::metadata(format!("{}/outd/{}.smt", outdir(), n + 1)).is_ok() { fail("a file for a lemma that does not exist") }
}
/// without --lemmas a lemma is neither used nor proved
#[no_mangle]
pub extern "C" fn h_nolemma() {
    let n = 1 + below("n", 2);
    let l = lemmas(n);
    let at = flag("first");
    let mode = pick("mode", &["", "--symbolic"]);
    let q = "query forall (i:index) { (happens(A(i)) => p(msg!(A(i)))) }\nassert forall (x:Message) {(p(x) => (fst(x) == ok))}\n";
    let mut src = format!("{PRE}{STEPS}");
    if at { src += q }
    for x in &l { src += &format!("lemma {x}\n") }
    if !at { src += q }
    case("query,user,k=1", &src, &[mode]);
}
/// lemmas of a protocol with a keyed hash, a cell and names: each problem's axioms are those of its own goal and assumptions
#[no_mangle]
pub extern "C" fn h_lemmac() {
    let l = [
        "forall (i:index) {(cond!(R(i)) => exists (l:index) {lt(T(l),R(i))})}",
        "forall (i:index) {(verify(hash(na(i),k(i)),na(i),k(i)) => p(na(i)))}",
        "forall (i:index) {(msg!(T(i)) != na(i))}",
        "forall (i:index) {(c(i,T(i)) == tpl(input(T(i)),nb(i)))}",
        "exists (i:index) {verify(k(i),ok,k(i))}",
        "forall (i:index, j:index) {(c(i,R(j)) == c(i,pred(R(j))))}",
    ];
    let mt = pick("msgT", &["hash(in,k(i))", "c(i,pred(T(i)))", "if (in == na(i)) {hash(na(i),k(i))} else {snd(in)}"]);
    let l0 = l[below("l0", 6) as usize];
    let l1 = l[below("l1", 6) as usize];
    let m = pick("mode", &["", "--symbolic", "--no-preprocessing"]);
    let src = format!("{PRE}{HSH}cell c(index):Message\nstep T(i:index) {{ p(in) }} {{ {mt} }} {{ c(i) <- tpl(in,nb(i)) }}\nstep R(i:index) {{ verify(snd(in),fst(in),k(i)) }} {{ ok }}\nassert-crypto memory_cell c;\nassert-crypto nonce;\nassert-crypto unfolding;\nlemma {l0}\nlemma {l1}\nquery forall (i:index) {{ (cond!(R(i)) => p(c(i,R(i)))) }}\nassert-crypto uf-cma hash verify\n");
    if !run_dir(&src, &[m], &["--cvc5"]) { fail("a valid protocol with lemmas is rejected") }
    reach("translated");
    for i in 0..3 {
        let Ok(o) = std::fs::read(format!("{}/outd/{i}.smt", outdir())) else { fail(&format!("no file for lemma {i}")) };
        oracle(&format!("wf,std,query,user,order,nonce,cma,cell,unfold,lemmas,lemma={i},goal={i},k=1"), &src, &String::from_utf8_lossy(&o));
    }
    if std::fs::metadata(format!("{}/outd/3.smt", outdir())).is_ok() { fail("a file for a lemma that does not exist") }
}
