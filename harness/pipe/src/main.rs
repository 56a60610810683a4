//! Harnesses that drive the whole translation through its command-line entry points.
#[path = "../../sym/sym.rs"]
mod sym;
mod fam;
mod fam2;
mod run;
mod sq;
use clap::Parser;
use cryptovampire::{cli::Args, run_from_cv};
use sym::*;
pub const OUT: &str = "/tmp/symvfs/out";
/// where the produced files go natively
pub fn outdir() -> String { if is_symbolic() { "/tmp/symvfs".into() } else { std::env::var("SYM_SCRATCH").unwrap_or("/tmp/symvfs".into()) } }
/// translate `src` with the given flags; None if it was rejected
pub fn translate(src: &str, flags: &[&str]) -> Option<String> {
    let out = format!("{}/out", outdir());
    let mut argv = vec!["cryptovampire"];
    let (pre, post): (Vec<&str>, Vec<&str>) = flags.iter().filter(|f| !f.is_empty()).partition(|f| !f.starts_with('+'));
    argv.extend(pre);
    argv.extend(["to-file", "-o", &out]);
    let post: Vec<String> = post.iter().map(|f| format!("--{}", &f[1..])).collect();
    argv.extend(post.iter().map(|x| x.as_str()));
    let args = match Args::try_parse_from(&argv) {
        Ok(a) => a,
        Err(_) => fail("the command line is rejected"),
    };
    match run_from_cv(args, src) {
        Ok(_) => {
            reach("translated");
            match std::fs::read(&out) {
                Ok(o) => Some(String::from_utf8_lossy(&o).into_owned()),
                Err(_) => fail("the translation reports success but writes no file"),
            }
        }
        Err(e) => {
            reach("rejected");
            note("rejected", &format!("{e}"));
            None
        }
    }
}
/// translate a source that is valid and hand the result to the oracle
pub fn case(kind: &str, src: &str, flags: &[&str]) {
    match translate(src, flags) {
        Some(o) => oracle(kind, src, &o),
        None => fail("a valid protocol is rejected"),
    }
}
/// a source that must be turned down
pub fn reject(src: &str, flags: &[&str], why: &str) {
    if translate(src, flags).is_some() {
        fail(why)
    }
}
fn main() {
    let n = std::env::args().nth(1).unwrap_or_default();
    match fam::ALL.iter().find(|x| x.0 == n) {
        Some(x) => (x.1)(),
        None => std::process::exit(2),
    }
}
