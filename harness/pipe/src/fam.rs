//! families of protocols: templates whose holes are symbolic
use crate::{case, sym::*};
pub const ALL: &[(&str, extern "C" fn())] = &[
    ("h_ord", h_ord), ("h_unf", h_unf), ("h_unf2", h_unf2), ("h_qry", h_qry), ("h_asrt", h_asrt), ("h_let", h_let), ("h_macro", h_macro), ("h_bind", h_bind),
    ("h_nonce", h_nonce), ("h_nonce2", h_nonce2), ("h_nonce3", h_nonce3), ("h_mac3", h_mac3), ("h_mac", h_mac), ("h_mac2", h_mac2), ("h_sign", h_sign), ("h_ctxt", h_ctxt), ("h_cell", h_cell), ("h_cell2", h_cell2),
    ("h_noncex", h_noncex), ("h_macx", h_macx), ("h_signx", h_signx), ("h_ctxtx", h_ctxtx), ("h_noncey", h_noncey), ("h_macy", h_macy),
    ("h_eval", h_eval), ("h_evals", h_evals), ("h_wf", h_wf), ("h_lemma", crate::fam2::h_lemma), ("h_nolemma", crate::fam2::h_nolemma), ("h_lemmac", crate::fam2::h_lemmac), ("h_run", crate::run::h_run), ("h_runz", crate::run::h_runz), ("h_runf", crate::run::h_runf), ("h_runl", crate::run::h_runl), ("h_disc", crate::run::h_disc), ("h_discs", crate::run::h_discs), ("h_sq", crate::sq::h_sq), ("h_sqo", crate::sq::h_sqo), ("h_sqd", crate::sq::h_sqd), ("h_sqc", crate::sq::h_sqc),
];
pub const PRE: &str = "type index\nfun tpl(Message,Message):Message\nfun fst(Message):Message\nfun snd(Message):Message\nfun p(Message):Bool\nfun ok:Message\nfun ko:Message\nfun na(index):Name\nfun nb(index):Name\n";
pub const STEPS: &str = "step A(i:index) { p(in) } { na(i) }\nstep B(i:index, j:index) { (p(tpl(in,nb(j))) || (in == na(i))) } { tpl(in, nb(i)) }\nstep C { true } { ok }\n";
fn mode() -> &'static str { pick("mode", &["", "--symbolic"]) }
/// timestamps: every kind of `order` declaration
#[no_mangle]
pub extern "C" fn h_ord() {
    let op = pick("op", &["<", ">", "<>"]);
    let q = pick("quant", &["forall", "exists"]);
    let g = pick("guard", &["", "(i == j) =>", "(i != j) =>", "p(na(i)) =>"]);
    let (a, b) = match below("terms", 5) {
        0 => ("A(i)", "B(j)"),
        1 => ("B(j)", "A(i)"),
        2 => ("A(i)", "C"),
        3 => ("A(i)", "A(j)"),
        _ => ("B(i)", "pred(A(j))"),
    };
    let m = mode();
    let src = format!("{PRE}step A(i:index) {{ true }} {{ na(i) }}\nstep B(i:index) {{ p(in) }} {{ ok }}\nstep C {{ true }} {{ in }}\norder {q} (i:index, j:index) {{ {g} {a} {op} {b} }}\norder forall (i:index) {{ A(i) < B(i) }}\nquery forall (i:index) {{ (happens(B(i)) => lt(A(i),B(i))) }}\n");
    case("order,query", &src, &[m, "+cvc5"]);
}
/// step contents and the unfolding of msg, cond and exec
#[no_mangle]
pub extern "C" fn h_unf() {
    let opt = pick("opt", &["", "[direct]", "[recurisve]", "[recurisve direct]"]);
    let ca = pick("condA", &["true", "p(in)", "not(p(in))", "exists (j:index) {(in == nb(j))}", "forall (j:index) {(p(tpl(in,nb(j))) || (in == nb(i)))}", "(p(in) && (fst(in) == na(i)))"]);
    let mb = pick("msgB", &["ok", "tpl(in, nb(i))", "if (in == na(j)) {ok} else {ko}", "try find (k:index) such that {(fst(in) == na(k))} then {tpl(na(k),snd(in))} else {ko}", "let x:Message = fst(in) in tpl(x,x)"]);
    let src = format!("{PRE}step A(i:index) {{ {ca} }} {{ na(i) }}\nstep B(i:index, j:index) {{ p(in) }} {{ {mb} }}\nquery forall (i:index, j:index) {{ (happens(B(i,j)) => (exec(B(i,j)) => (cond!(A(i)) && (msg!(B(i,j)) == input(B(j,i)))))) }}\nassert-crypto unfolding {opt}\n");
    case("unfold,query", &src, &["", "+cvc5"]);
}
/// unfolding together with cells, and in symbolic mode
#[no_mangle]
pub extern "C" fn h_unf2() {
    let opt = pick("opt", &["", "[direct]", "[recurisve direct]"]);
    let ma = pick("msgA", &["c(i,pred(A(i)))", "tpl(c(i,A(i)), in)", "if (in == c(i,pred(A(i)))) {ok} else {na(i)}"]);
    let mb = pick("msgB", &["ok", "try find (k:index, l:index) such that {((fst(in) == na(k)) && (snd(in) == nb(l)))} then {tpl(na(k),nb(l))} else {nb(i)}", "if exists (k:index) {(in == na(k))} {in} else {nb(j)}"]);
    let m = mode();
    let src = format!("{PRE}cell c(index):Message\nstep A(i:index) {{ p(in) }} {{ {ma} }} {{ c(i) <- in }}\nstep B(i:index, j:index) {{ (in == na(i)) }} {{ {mb} }}\nassert-crypto memory_cell c;\nquery forall (i:index, j:index) {{ (happens(B(i,j)) => (exec(B(i,j)) => (msg!(A(i)) == msg!(B(i,j))))) }}\nassert-crypto unfolding {opt}\n");
    case("unfold,query", &src, &[m, "+cvc5"]);
}
fn atom(n: &str) -> &'static str {
    pick(n, &["happens(A(i))", "cond!(B(i,j))", "(msg!(A(i)) == in0)", "(input(B(j,i)) != ok)", "lt(A(i),B(j,i))", "exec(pred(B(i,j)))", "p(x)", "(i == j)"])
}
/// the query, operator by operator
#[no_mangle]
pub extern "C" fn h_qry() {
    let op = pick("op", &["&&", "||", "=>", "<=>", "==", "<>"]);
    let a = atom("l");
    let b = atom("r");
    let (a, b) = (a.replace("in0", "x"), b.replace("in0", "x"));
    let q = pick("quant", &["forall", "exists"]);
    let src = format!("{PRE}{STEPS}query forall (i:index) {{ {q} (j:index, x:Message) {{ (not({a}) {op} ({b} || {a})) }} }}\n");
    case("query", &src, &["", "+cvc5"]);
}
/// assertions, nested operators and term constructs
#[no_mangle]
pub extern "C" fn h_asrt() {
    let t = pick("t", &[
        "forall (x:Message) {((p(x) => p(fst(x))) && (fst(tpl(x,x)) == x))}",
        "forall (x:Message, y:Message) {((fst(tpl(x,y)) == x) && (snd(tpl(x,y)) == y) && (tpl(x,y) != ok))}",
        "forall (x:Message) {(p(x) || p(fst(x)) || p(snd(x)))}",
        "forall (x:Message) {(p(if p(x) {fst(x)} else {snd(x)}) <=> p(x))}",
        "exists (x:Message) {forall (j:index) {(tpl(x,na(j)) == na(j))}}",
        "forall (i:index, j:index) {((na(i) == na(j)) => (i == j))}",
        "forall (i:index) {(happens(A(i)) => (cond!(A(i)) && exec(A(i))))}",
        "forall (i:index, j:index) {(lt(A(i),B(i,j)) || gt(A(i),B(i,j)) || (A(i) == B(i,j)) || not(happens(A(i))) || not(happens(B(i,j))))}",
        "forall (x:Message) {let y:Message = fst(x) in (y == snd(tpl(y,x)))}",
        "(forall (x:Message) {p(x)} => exists (x:Message) {p(fst(x))})",
        "(p(ok) => p(ko) => p(tpl(ok,ko)))",
        "forall (i:index) {(msg!(A(i)) == (try find (j:index) such that {(na(j) == input(A(i)))} then {nb(j)} else {ok}))}",
        "(happens(init) && exec(init) && (pred(init) == init))",
    ]);
    let m = mode();
    let f = pick("file", &["+cvc5", ""]);
    let t = t.replace("(try find", "try find").replace("else {ok}))}", "else {ok})}");
    let src = format!("{PRE}{STEPS}assert {t}\nassert forall (x:Message) {{(p(x) => (fst(x) == ok))}}\nquery forall (i:index) {{ cond!(A(i)) }}\n");
    case("user,query", &src, &[m, f]);
}
/// let, quantifier and find bindings that shadow one another
#[no_mangle]
pub extern "C" fn h_let() {
    let a = pick("a", &["x", "y", "i0"]);
    let b = pick("b", &["x", "y", "z"]);
    let t = pick("shape", &[
        "let @a:Message = fst(in) in let @b:Message = snd(@a) in tpl(@a,@b)",
        "let @a:Message = let @b:Message = fst(in) in tpl(@b,@b) in tpl(@a,ok)",
        "if let @a:Message = fst(in) in p(@a) {let @b:Message = in in @b} else {let @a:Message = snd(in) in @a}",
        "let @a:Message = fst(in) in if exists (@b:index) {(in == na(@b))} {let @b:Message = @a in @b} else {@a}",
        "try find (@b:index) such that {let @a:Message = na(@b) in (@a == in)} then {na(@b)} else {ok}",
        "let @a:Message = in in tpl(let @b:Message = fst(@a) in @b, @a)",
        "try find (@a:index) such that {(in == na(@a))} then {try find (@b:index) such that {(in == nb(@b))} then {tpl(na(@b),in)} else {na(@a)}} else {ok}",
    ]);
    let t = t.replace("@a", a).replace("@b", b);
    // the shadowing inner let of the fourth shape would hide the name it uses
    assume(!(t.contains(" in if exists") && a == b));
    let src = format!("{PRE}step A(i:index, j:index) {{ true }} {{ {t} }}\nstep B(j:index, i:index) {{ true }} {{ na(i) }}\nquery forall (j:index, i:index) {{ (msg!(A(i,j)) == msg!(B(i,j))) }}\nassert-crypto unfolding [direct]\n");
    note("t", &t);
    case("unfold,query", &src, &["", "+cvc5"]);
}
/// user macros: arguments that clash with the bound variables of the body
#[no_mangle]
pub extern "C" fn h_macro() {
    let body = pick("body", &[
        "exists (j:index) {((x == na(j)) && (i != j))}",
        "forall (k:index) {exists (i0:index) {((x == tpl(na(k),nb(i0))) || (i == k))}}",
        "let y:Message = fst(x) in ((y == na(i)) => p(x))",
        "(if p(x) {na(i)} else {x} == x)",
        "(cond!(B(i,i)) && (msg!(A(i)) == x))",
    ]);
    let arg = pick("arg", &["na(i)", "na(j)", "input(A(j))", "y", "tpl(y,na(k))"]);
    let ix = pick("ix", &["i", "j", "k"]);
    let q = pick("quant", &["forall (i:index, j:index, k:index, y:Message)", "exists (k:index, j:index, y:Message, i:index)"]);
    let src = format!("{PRE}{STEPS}let m!(i:index, x:Message) = {body}\nlet mm!(j:index, x:Message) = (m!(j, x) || m!(j, fst(x)))\nquery {q} {{ (m!({ix},{arg}) => mm!({ix}, {arg})) }}\n");
    case("query", &src, &["", "+cvc5"]);
}
/// variables of the query used as step arguments, under quantifiers inside steps
#[no_mangle]
pub extern "C" fn h_bind() {
    let c = pick("cond", &[
        "exists (k:index) {(in == na(k))}",
        "forall (k:index) {exists (l:index) {(in == tpl(na(k),nb(l)))}}",
        "exists (k:index) {((in == nb(i)) && p(nb(k)))}",
        "not(exists (k:index, l:index) {(in == tpl(nb(l), tpl(nb(j),na(k))))})",
    ]);
    let (q, s) = match below("args", 4) {
        0 => ("forall (i:index, j:index)", "A(i,j)"),
        1 => ("forall (j:index, i:index)", "A(i,j)"),
        2 => ("forall (a:index, b:index, k:index)", "A(k,b)"),
        _ => ("forall (a:index, b:index, d:index, k:index, l:index)", "A(l,k)"),
    };
    let t = pick("use", &["cond!(S)", "(cond!(S) => exec(S))", "exists (x:index) {(cond!(S) && p(na(x)))}"]).replace("S", s);
    let m = mode();
    let src = format!("{PRE}step A(i:index, j:index) {{ {c} }} {{ ok }}\nquery {q} {{ {t} }}\nassert-crypto unfolding {}\n", pick("opt", &["", "[direct]"]));
    case("unfold,query", &src, &[m, "+cvc5"]);
}
/// names: which terms can hold one
#[no_mangle]
pub extern "C" fn h_nonce() {
    let ma = pick("msgA", &["na(i)", "in", "tpl(in,nb(i))", "if (in == na(i)) {ok} else {ko}", "try find (k:index) such that {(in == na(k))} then {ok} else {nb(i)}", "if exists (k:index) {(in == nb(k))} {ok} else {in}"]);
    let cb = pick("condB", &["true", "(in == na(j))", "exists (k:index) {(fst(in) == nb(k))}"]);
    let q = pick("q", &["(input(B(i,j)) != na(i))", "(msg!(A(i)) != nb(j))", "(na(i) != nb(j))"]);
    let m = mode();
    let src = format!("{PRE}step A(i:index) {{ p(in) }} {{ {ma} }}\nstep B(i:index, j:index) {{ {cb} }} {{ ok }}\nquery forall (i:index, j:index) {{ {q} }}\nassert-crypto nonce\n");
    case("nonce", &src, &[m, "+cvc5"]);
}
/// names reached through cells, lets, macros and exec
#[no_mangle]
pub extern "C" fn h_nonce2() {
    let init = pick("asg", &["c(i) <- na(i)", "c(i) <- tpl(c(i,pred(A(i))),in)", "(j:index) c(j) <- tpl(nb(j),na(i))", "c(i) <- if (in == nb(i)) {in} else {ok}"]);
    let mb = pick("msgB", &["c(i,B(i))", "c(i,pred(B(i)))", "ok", "if (c(i,B(i)) == in) {ok} else {ko}"]);
    let cb = pick("condB", &["true", "p(c(i,pred(B(i))))", "(in == nb(i))"]);
    let m = mode();
    let src = format!("{PRE}cell c(index):Message\nstep A(i:index) {{ true }} {{ ok }} {{ {init} }}\nstep B(i:index) {{ {cb} }} {{ {mb} }}\nassert-crypto memory_cell c;\nassert-crypto nonce;\nquery forall (i:index) {{ (msg!(B(i)) != na(i)) }}\n");
    case("nonce", &src, &[m, "+cvc5"]);
}
/// two cells and the input feeding each other
#[no_mangle]
pub extern "C" fn h_nonce3() {
    let ad = pick("d", &["d(i) <- na(i)", "(l:index) d(l) <- tpl(nb(l),in)", "d(i) <- c(i,pred(A(i)))"]);
    let ac = pick("c", &["c(i) <- in", "c(i) <- tpl(ok,d(i,pred(C(i))))", "(l:index) c(l) <- if (in == ok) {d(l,pred(C(i)))} else {ko}"]);
    let mb = pick("msgB", &["d(i,B(i))", "c(i,pred(B(i)))", "if (d(i,B(i)) == ok) {ok} else {na(i)}"]);
    let cb = pick("condB", &["true", "p(d(i,B(i)))", "exists (l:index) {(c(l,pred(B(i))) == nb(i))}"]);
    let q = pick("q", &["(msg!(D(i)) != na(i))", "(c(i,C(i)) != na(i))", "(cond!(B(i)) => (fst(msg!(B(i))) != nb(i)))"]);
    let m = mode();
    let src = format!("{PRE}cell c(index):Message\ncell d(index):Message\nstep A(i:index) {{ true }} {{ ok }} {{ {ad} }}\nstep B(i:index) {{ {cb} }} {{ {mb} }}\nstep C(i:index) {{ true }} {{ ok }} {{ {ac} }}\nstep D(i:index) {{ true }} {{ c(i,pred(D(i))) }}\nassert-crypto memory_cell c;\nassert-crypto memory_cell d;\nassert-crypto nonce;\nquery forall (i:index) {{ {q} }}\n");
    case("nonce,depth=3", &src, &[m, "+cvc5"]);
}
/// the same for what a mac key and the tagged messages go through
#[no_mangle]
pub extern "C" fn h_mac3() {
    let ad = pick("d", &["d(i) <- hash(in,k(i))", "(l:index) d(l) <- k(l)", "d(i) <- c(i,pred(A(i)))"]);
    let ac = pick("c", &["c(i) <- in", "c(i) <- hash(d(i,pred(C(i))),k(i))", "c(i) <- d(i,pred(C(i)))"]);
    let mb = pick("msgB", &["d(i,B(i))", "c(i,pred(B(i)))", "ok"]);
    let cr = pick("condR", &["verify(in,c(i,pred(R(i))),k(i))", "verify(c(i,pred(R(i))),ok,k(i))", "verify(snd(in),fst(in),k(i))"]);
    let m = pick("mode", &["", "--symbolic"]);
    let src = format!("{PRE}{HSH}cell c(index):Message\ncell d(index):Message\nstep A(i:index) {{ true }} {{ ok }} {{ {ad} }}\nstep B(i:index) {{ true }} {{ {mb} }}\nstep C(i:index) {{ true }} {{ ok }} {{ {ac} }}\nstep R(i:index) {{ {cr} }} {{ ok }}\nassert-crypto memory_cell c;\nassert-crypto memory_cell d;\nquery forall (i:index) {{ (cond!(R(i)) => exists (l:index) {{ lt(A(l),R(i)) }}) }}\nassert-crypto uf-cma hash verify\n");
    case("cma,depth=3", &src, &[m, "+cvc5"]);
}
pub const ENC: &str = "fun enc(Message,Message,Message):Message\nfun dec(Message,Message):Message\nfun bot:Message\nfun k(index):Name\nfun k2:Name\nfun r(index,index):Name\n";
pub const HSH: &str = "fun hash(Message,Message):Message\nfun verify(Message,Message,Message):Bool\nfun k(index):Name\nfun k2:Name\n";
/// unforgeability of the keyed hash
#[no_mangle]
pub extern "C" fn h_mac() {
    let cr = pick("cond", &["verify(snd(in),fst(in),k(j))", "(snd(in) == hash(fst(in),k(j)))", "exists (l:index) {(hash(tpl(na(i),fst(in)),k(l)) == snd(in))}", "verify(in,na(j),k2)"]);
    let mt = pick("msgT", &["tpl(na(i),hash(na(i),k(j)))", "hash(tpl(in,na(i)),k(j))", "if (hash(in,k(j)) == hash(na(i),k(i))) {ok} else {ko}", "try find (l:index) such that {(in == na(l))} then {hash(in,k(l))} else {hash(na(i),k2)}"]);
    let opt = pick("opt", &["", "[hmac]"]);
    let key = pick("leak", &["ok", "k(i)"]);
    let src = format!("{PRE}{HSH}step R(i:index, j:index) {{ {cr} }} {{ ok }}\nstep T(i:index, j:index) {{ true }} {{ {mt} }}\nstep L(i:index) {{ p(in) }} {{ {key} }}\nquery forall (i:index, j:index) {{ (cond!(R(i,j)) => exists (l:index) {{ lt(T(l,j),R(i,j)) }}) }}\nassert-crypto uf-cma hash verify {opt}\n");
    case("cma", &src, &["", "+cvc5"]);
}
/// the same with cells, symbolic mode and without preprocessing
#[no_mangle]
pub extern "C" fn h_mac2() {
    let cr = pick("cond", &["verify(snd(in),fst(in),k(j))", "verify(c(j,pred(R(i,j))),in,k(j))"]);
    let asg = pick("asg", &["c(j) <- hash(in,k(j))", "c(j) <- in", "(l:index) c(l) <- tpl(k(l),in)"]);
    let mt = pick("msgT", &["ok", "c(i,pred(T(i,j)))", "hash(c(i,T(i,j)),k(j))"]);
    let f = pick("flags", &["", "--symbolic", "--symbolic --no-preprocessing"]);
    let fl: Vec<&str> = f.split(' ').chain(["+cvc5"]).collect();
    let src = format!("{PRE}{HSH}cell c(index):Message\nstep R(i:index, j:index) {{ {cr} }} {{ ok }}\nstep T(i:index, j:index) {{ true }} {{ {mt} }} {{ {asg} }}\nassert-crypto memory_cell c;\nquery forall (i:index, j:index) {{ (cond!(R(i,j)) => exists (l:index) {{ lt(T(l,j),R(i,j)) }}) }}\nassert-crypto uf-cma hash verify\n");
    case("cma", &src, &fl);
}
pub const SGN: &str = "fun sign(Message,Message):Message\nfun checksign(Message,Message,Message):Bool\nfun pk(Message):Message\nfun k(index):Name\nfun k2:Name\n";
/// unforgeability of signatures
#[no_mangle]
pub extern "C" fn h_sign() {
    let cr = pick("cond", &["checksign(snd(in),fst(in),pk(k(j)))", "exists (l:index) {checksign(in,tpl(na(i),na(l)),pk(k(l)))}", "checksign(in,na(j),pk(k2))"]);
    let mt = pick("msgT", &["tpl(pk(k(j)),sign(na(i),k(j)))", "sign(tpl(in,na(i)),k(j))", "if checksign(in,ok,pk(k(j))) {sign(in,k2)} else {pk(k2)}", "try find (l:index) such that {(in == na(l))} then {sign(in,k(l))} else {sign(na(i),k2)}"]);
    let key = pick("leak", &["ok", "k(i)", "sign(k2,k(i))"]);
    let f = pick("flags", &["", "--symbolic"]);
    let src = format!("{PRE}{SGN}step R(i:index, j:index) {{ {cr} }} {{ ok }}\nstep T(i:index, j:index) {{ true }} {{ {mt} }}\nstep L(i:index) {{ p(in) }} {{ {key} }}\nquery forall (i:index, j:index) {{ (cond!(R(i,j)) => exists (l:index) {{ lt(T(l,j),R(i,j)) }}) }}\nassert-crypto euf-cma sign checksign pk\n");
    case("cma", &src, &[f, "+cvc5"]);
}
/// integrity of ciphertexts
#[no_mangle]
pub extern "C" fn h_ctxt() {
    let cr = pick("cond", &["(dec(in,k(j)) != bot)", "exists (l:index) {((dec(fst(in),k(l)) != bot) && p(in))}", "(dec(snd(in),k2) == na(i))"]);
    let mt = pick("msgT", &["enc(na(i),r(i,j),k(j))", "tpl(enc(in,r(i,j),k(j)),na(i))", "if (dec(in,k(j)) != bot) {enc(na(i),r(i,j),k2)} else {ok}", "try find (l:index) such that {(in == na(l))} then {enc(in,r(l,i),k(l))} else {ok}"]);
    let ml = pick("leak", &["ok", "k(i)", "enc(ok,r(i,i),k(i))", "r(i,i)"]);
    let f = pick("flags", &["", "--symbolic"]);
    let src = format!("{PRE}fun enc(Message,Message,Message):Message\nfun dec(Message,Message):Message\nfun bot:Message\nfun k(index):Name\nfun k2:Name\nfun r(index,index):Name\nstep R(i:index, j:index) {{ {cr} }} {{ ok }}\nstep T(i:index, j:index) {{ true }} {{ {mt} }}\nstep L(i:index) {{ p(in) }} {{ {ml} }}\nquery forall (i:index, j:index) {{ (cond!(R(i,j)) => exists (l:index) {{ lt(T(l,j),R(i,j)) }}) }}\nassert-crypto int-ctxt enc dec bot\n");
    case(if f.is_empty() { "ctxt" } else { "ctxt,k=1" }, &src, &[f, "+cvc5"]);
}
/// where a payload can sit in a message
const CTX: &[&str] = &[
    "@", "tpl(in,@)", "fst(tpl(@,in))", "if p(in) {@} else {ok}", "if p(in) {ok} else {tpl(@,ko)}", "if (@ == in) {ok} else {ko}", "if not((p(in) && p(@))) {ok} else {ko}",
    "try find (z:index) such that {(in == na(z))} then {@} else {ok}", "try find (z:index, y:index) such that {(in == tpl(na(z),nb(y)))} then {ok} else {@}", "try find (z:index) such that {(tpl(@,na(z)) == in)} then {na(z)} else {ok}",
    "let y:Message = @ in tpl(y,y)", "if exists (z:index) {(tpl(@,nb(z)) == in)} {ok} else {ko}", "if forall (z:index) {((in == na(z)) => p(@))} {ok} else {ko}",
];
/// where that message is: step T and what R depends on; returns the steps and the term R sees
fn place(t: &str, n: &str) -> (String, String) {
    place_n(t, below(n, 6))
}
fn place_n(t: &str, n: u64) -> (String, String) {
    match n {
        0 => (format!("step T(i:index) {{ true }} {{ {t} }}\n"), "in".into()),
        1 => (format!("step T(i:index) {{ p({t}) }} {{ ok }}\n"), "in".into()),
        2 => (format!("step T(i:index) {{ true }} {{ ok }} {{ c(i) <- {t} }}\nstep U(i:index) {{ true }} {{ c(i,U(i)) }}\n"), "in".into()),
        3 => (format!("step T(i:index) {{ true }} {{ ok }} {{ (l:index) c(l) <- {} }}\n", t.replace("(i)", "(l)").replace("(i,i)", "(l,i)")), "c(i,pred(R(i)))".into()),
        4 => ("step T(i:index) { true } { ok }\n".into(), t.into()),
        _ => (format!("let mm!(i:index, x:Message) = {}\nstep T(i:index) {{ true }} {{ mm!(i,in) }}\n", words(t, "in", "x")), "in".into()),
    }
}
#[no_mangle]
pub extern "C" fn h_noncex() {
    let t = pick("ctx", CTX).replace('@', "na(i)");
    let (st, see) = place(&t, "place");
    let q = pick("q", &["(msg!(R(i)) != na(i))", "(msg!(R(i)) != nb(i))", "forall (j:index) {(c(i,R(j)) != na(i))}", "(na(i) == snd(input(R(i))))"]);
    let m = mode();
    let src = format!("{PRE}cell c(index):Message\n{st}step R(i:index) {{ true }} {{ {see} }}\nassert-crypto memory_cell c;\nassert-crypto nonce;\nquery forall (i:index) {{ {q} }}\n");
    case("nonce", &src, &[m, "+cvc5"]);
}
/// what a term depends on through the context of a read of a cell or of an input: the steps and what R sees
fn chain() -> (String, String) {
    let u = pick("ctx", CTX).replace('@', pick("via", &["d(i,pred(U(i)))", "in"]));
    match below("where", 4) {
        0 => (format!("step U(i:index) {{ true }} {{ ok }} {{ c(i) <- {u} }}\n"), "c(i,pred(R(i)))".into()),
        1 => (format!("step U(i:index) {{ true }} {{ ok }} {{ c(i) <- {u} }}\nstep V(i:index) {{ true }} {{ c(i,V(i)) }}\n"), "in".into()),
        2 => (format!("step U(i:index) {{ true }} {{ ok }} {{ c(i) <- {u} }}\nstep V(i:index) {{ p(c(i,pred(V(i)))) }} {{ ok }} {{ e <- c(i,pred(V(i))) }}\n"), "e(R(i))".into()),
        _ => (format!("step U(i:index) {{ p({u}) }} {{ ok }} {{ e <- in }}\n"), "e(R(i))".into()),
    }
}
const CELLS: &str = "cell c(index):Message\ncell d(index):Message\ncell e:Message\n";
#[no_mangle]
pub extern "C" fn h_noncey() {
    let (st, see) = chain();
    let t = pick("from", &["{ na(i) }", "{ ok } { d(i) <- na(i) }"]);
    let m = mode();
    let src = format!("{PRE}{CELLS}step T(i:index) {{ true }} {t}\n{st}step R(i:index) {{ true }} {{ {see} }}\nassert-crypto memory_cell c;\nassert-crypto nonce;\nquery forall (i:index) {{ (msg!(R(i)) != na(i)) }}\n");
    case("nonce,k=1,depth=5", &src, &[m, "+cvc5"]);
}
#[no_mangle]
pub extern "C" fn h_macy() {
    let (st, see) = chain();
    let t = pick("from", &["{ hash(ok,k(i)) }", "{ ok } { d(i) <- hash(ok,k(i)) }"]);
    let m = mode();
    let src = format!("{PRE}{HSH}{CELLS}step T(i:index) {{ true }} {t}\n{st}step R(i:index) {{ verify({see},ok,k(i)) }} {{ ok }}\nassert-crypto memory_cell c;\nassert-crypto uf-cma hash verify;\nquery forall (i:index) {{ (cond!(R(i)) => exists (l:index) {{ lt(T(l),R(i)) }}) }}\n");
    case("cma,k=1,depth=5", &src, &[m, "+cvc5"]);
}
/// replaces a whole word
fn words(t: &str, w: &str, by: &str) -> String {
    let mut r = String::new();
    let mut k = String::new();
    // not the keyword of a let
    for ch in t.replace(" in tpl(y,y)", " IN tpl(y,y)").chars().chain([' ']) {
        if ch.is_ascii_alphanumeric() {
            k.push(ch)
        } else {
            r.push_str(if k == w { by } else { &k });
            k.clear();
            r.push(ch)
        }
    }
    r.replace(" IN ", " in ")
}
/// a use `r` of what is seen, in the condition of a step, the query or an assertion
fn crypto(t: &str, rs: &[&str], decl: &str, step: &str, ass: &str, kind: &str) {
    let n = below("place", 8);
    // what is seen of an input does not matter, which argument it is does otherwise
    let r = if matches!(n, 0 | 1 | 2 | 5) { rs[0] } else { pick("r", rs) };
    // nothing but what is seen: all it is compared with is a constant
    let t = &if r.contains("(@,ok,") { t.replace("na(i)", "ok") } else { t.to_string() };
    let (st, see) = if n < 6 { place_n(t, n) } else { place_n(t, 4) };
    let r = r.replace('@', &see);
    let m = mode();
    let inp = words(&r, "in", "input(R(i))");
    let (c, q, a) = match n {
        6 => ("true", format!("({inp} => lt(T(i),R(i)))"), String::new()),
        7 => ("true", "lt(T(i),R(i))".into(), format!("assert forall (i:index) {{ {inp} }}\n")),
        _ => (r.as_str(), "(cond!(R(i)) => exists (l:index) { lt(T(l),R(i)) })".into(), String::new()),
    };
    let src = format!("{PRE}{decl}cell c(index):Message\n{st}{step}step R(i:index) {{ {c} }} {{ ok }}\nassert-crypto {ass};\nassert-crypto memory_cell c;\n{a}query forall (i:index) {{ {q} }}\n");
    case(kind, &src, &[m, "+cvc5"]);
}
#[no_mangle]
pub extern "C" fn h_macx() {
    let c = pick("ctx", &[CTX, &["hash(@,k2)", "hash(tpl(ok,@),k(i))", "if verify(@,in,k(i)) {ok} else {ko}", "if verify(hash(@,k(i)),in,k(i)) {ok} else {ko}", "if verify(hash(@,k(i)),in,k2) {ok} else {ko}", "if verify(in,@,k(i)) {ok} else {ko}", "if (hash(@,k(i)) == in) {ok} else {ko}"]].concat());
    let t = c.replace('@', pick("pay", &["k(i)", "hash(na(i),k(i))"]));
    let ass = format!("uf-cma hash verify {}", pick("opt", &["", "[hmac]"]));
    crypto(&t, &["verify(@,fst(in),k(i))", "verify(in,@,k(i))", "verify(@,ok,k(i))"], HSH, "", &ass, "cma");
}
#[no_mangle]
pub extern "C" fn h_signx() {
    let c = pick("ctx", &[CTX, &["pk(@)", "sign(@,k2)", "sign(tpl(ok,@),k(i))", "if checksign(@,in,pk(k(i))) {ok} else {ko}", "if checksign(sign(@,k(i)),in,pk(k(i))) {ok} else {ko}", "if checksign(in,@,pk(k(i))) {ok} else {ko}", "if checksign(in,ok,@) {ok} else {ko}"]].concat());
    let t = c.replace('@', pick("pay", &["k(i)", "sign(na(i),k(i))"]));
    crypto(&t, &["checksign(@,fst(in),pk(k(i)))", "checksign(in,@,pk(k(i)))", "checksign(@,ok,pk(k(i)))"], SGN, "", "euf-cma sign checksign pk", "cma");
}
#[no_mangle]
pub extern "C" fn h_ctxtx() {
    let c = pick("ctx", &[CTX, &["enc(@,r(i,i),k2)", "enc(ok,@,k2)", "enc(ok,@,k(i))", "enc(ok,r(i,i),@)", "if (dec(@,k(i)) != bot) {ok} else {ko}", "dec(in,@)"]].concat());
    let t = c.replace('@', pick("pay", &["k(i)", "r(i,i)", "enc(na(i),r(i,i),k(i))"]));
    crypto(&t, &["(dec(@,k(i)) != bot)"], "fun enc(Message,Message,Message):Message\nfun dec(Message,Message):Message\nfun bot:Message\nfun k(index):Name\nfun k2:Name\nfun r(index,index):Name\n", "step E(i:index) { true } { enc(ok,r(i,i),k(i)) }\n", "int-ctxt enc dec bot", "ctxt,k=1");
}
/// memory cells
#[no_mangle]
pub extern "C" fn h_cell() {
    let asg = pick("asgA", &["c(i) <- na(i)", "c(i) <- tpl(c(i,pred(A(i))),in)", "(j:index) c(j) <- tpl(na(i),nb(j))", "c(i) <- na(i), d <- in", "c(i) <- d(pred(A(i))), d <- c(i,pred(A(i)))"]);
    let asb = pick("asgB", &["c(i) <- ok", "c(j) <- in", "d <- nb(i)", "(l:index) c(l) <- c(i,pred(B(i,j)))"]);
    let dir = pick("decl", &["c d", "c"]);
    let q = pick("q", &["(c(i,A(i)) == c(i,B(i,j)))", "(d(B(i,j)) == d(pred(B(i,j))))"]);
    let src = format!("{PRE}cell c(index):Message\ncell d:Message\nstep A(i:index) {{ true }} {{ ok }} {{ {asg} }}\nstep B(i:index, j:index) {{ p(in) }} {{ ok }} {{ {asb} }}\nquery forall (i:index, j:index) {{ {q} }}\n{}", dir.split(' ').map(|c| format!("assert-crypto memory_cell {c}\n")).collect::<String>());
    case("cell,query", &src, &["", "+cvc5"]);
}
/// cells with two indices, several assignments of one step, symbolic mode
#[no_mangle]
pub extern "C" fn h_cell2() {
    let a1 = pick("a1", &["c(i,j) <- na(i)", "(l:index) c(i,l) <- nb(l)", "(l:index) c(l,l) <- in", "(l:index, m:index) c(l,m) <- tpl(na(l),nb(m))"]);
    let a2 = pick("a2", &["", ", c(j,i) <- ok", ", d(i) <- c(i,j,pred(A(i,j)))", ", (l:index) d(l) <- na(l)"]);
    let cb = pick("cond", &["p(c(i,i,pred(B(i))))", "(d(i,B(i)) == in)"]);
    // two assignments of the same cell in one step must not overlap
    assume(!(a2.contains("c(j,i)") && !a1.contains("c(i,j)")));
    assume(!a2.contains("c(j,i)"));
    let m = mode();
    let src = format!("{PRE}cell c(index,index):Message\ncell d(index):Message\nstep A(i:index, j:index) {{ true }} {{ ok }} {{ {a1}{a2} }}\nstep B(i:index) {{ {cb} }} {{ d(i,pred(B(i))) }}\nquery forall (i:index, j:index) {{ (c(i,j,A(i,j)) == d(i,B(i))) }}\nassert-crypto memory_cell c;\nassert-crypto memory_cell d\n");
    case("cell,query", &src, &[m, "+cvc5"]);
}
/// evaluation in symbolic mode
#[no_mangle]
pub extern "C" fn h_evals() {
    let c = pick("cond", &["p(in)", "(in == na(i))", "not((in == na(i)))", "(p(in) && (in == ok))", "(p(in) || (in == ok))", "(p(in) => (in == ok))", "(p(in) <=> (in == ok))", "(p(in) => (in == ok) => p(fst(in)))", "(p(in) <=> (in == ok) <=> p(fst(in)))", "(in == ok == fst(in))", "(p(in) && (in == ok) && p(ko))", "exists (k:index) {(in == na(k))}", "forall (k:index) {(p(tpl(in,na(k))) || (in == ok))}"]);
    let t = pick("msg", &["ok", "if p(in) {na(i)} else {in}", "try find (k:index, j:index) such that {((in == na(k)) && p(nb(j)))} then {tpl(na(k),nb(j))} else {ok}"]);
    let l = pick("legacy", &["", "--legacy-evaluate"]);
    let f = pick("file", &["+cvc5", ""]);
    let src = format!("{PRE}fun s(index):Message\nfun t(Message,Message,index):Message\nstep A(i:index) {{ {c} }} {{ {t} }}\nassert-crypto unfolding;\nquery forall (i:index) {{ (cond!(A(i)) => (msg!(A(i)) == ok)) }}\n");
    case("eval,unfold,query", &src, &["--symbolic", l, f]);
}
/// evaluation: user types and functions over them
#[no_mangle]
pub extern "C" fn h_eval() {
    let sg = pick("sig", &["(Message):Message", "(Message,index):Message", "(index,index):Message", "(Message):Bool", "(Bool):Message", "(Bool,Message):Bool", "(Name):Message"]);
    let m = pick("flags", &["", "--symbolic", "--symbolic --legacy-evaluate", "--symbolic --no-bitstring"]);
    let q = pick("q", &["(cond!(A(i)) => (msg!(A(i)) == ok))", "cond!(A(i))"]);
    let fl: Vec<&str> = m.split(' ').chain(["+cvc5"]).collect();
    let src = format!("{PRE}fun g{sg}\nstep A(i:index) {{ p(in) }} {{ ok }}\nquery forall (i:index) {{ {q} }}\n");
    note("q", q);
    case("wf,eval,query", &src, &fl);
}
/// every combination of options gives a well-formed file
#[no_mangle]
pub extern "C" fn h_wf() {
    let mut fl: Vec<&str> = vec![];
    for f in ["--symbolic", "--eval-rewrite", "--crypto-rewrite", "--vampire-subterm", "--no-preprocessing"] {
        if flag(f) { fl.push(f) }
    }
    fl.push(pick("more", &["", "--legacy-evaluate", "--no-bitstring", "--skolemnise"]));
    fl.push(pick("file", &["+cvc5", "", "+assert-theory", "+assert-ground"]));
    let src = format!("{PRE}{HSH}cell c(index):Message\nstep A(i:index) {{ verify(snd(in),fst(in),k(i)) }} {{ na(i) }} {{ c(i) <- in }}\nstep B(i:index, j:index) {{ exists (l:index) {{(in == nb(l))}} }} {{ try find (l:index, m:index) such that {{((in == na(l)) && p(nb(m)))}} then {{hash(na(m),k(l))}} else {{c(i,pred(B(i,j)))}} }}\norder forall (i:index, j:index) {{ (i != j) => A(i) <> B(i,j) }}\nassert forall (x:Message) {{ (fst(tpl(x,x)) == x) }}\nquery forall (i:index, j:index) {{ (cond!(A(i)) => (msg!(B(i,j)) == if p(na(i)) {{ok}} else {{input(A(i))}})) }}\nassert-crypto uf-cma hash verify;\nassert-crypto nonce;\nassert-crypto memory_cell c;\nassert-crypto unfolding [direct]\n");
    // the commands outside the standard that the options ask for
    let mut ext = vec!["wf,ext="];
    for f in &fl {
        match *f {
            "+assert-theory" => ext.push("+assert-theory"),
            "+assert-ground" => ext.push("+assert-ground"),
            "--vampire-subterm" if fl.last() != Some(&"+cvc5") => ext.push("+declare-subterm-relation"),
            f if f.ends_with("rewrite") => ext.push("+declare-rewrite"),
            _ => (),
        }
    }
    case(&ext.concat(), &src, &fl);
}
