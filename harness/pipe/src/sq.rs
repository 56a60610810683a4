//! Problems in Squirrel's JSON format (C14): what is translated is what the dump says.
use crate::{sym::*, *};
use cryptovampire::squirrel::run_from_json;
type J = String;
fn s(x: &str) -> J { format!("\"{x}\"") }
fn arr(v: &[J]) -> J { format!("[{}]", v.join(",")) }
fn path(n: &str) -> J { format!("{{\"npath\":{{\"npath\":[],\"id\":0}},\"symb\":{},\"id\":1}}", s(n)) }
const M: &str = "\"Message\"";
const B: &str = "\"Boolean\"";
const I: &str = "\"Index\"";
const T: &str = "\"Timestamp\"";
fn bind(n: &str, ty: &str) -> J { format!("{{\"id\":{{\"name\":{},\"tag\":7}},\"ty\":{ty}}}", s(n)) }
fn v(n: &str, ty: &str) -> J { format!("{{\"Var\":{}}}", bind(n, ty)) }
fn fun(f: &str) -> J { format!("{{\"Fun\":{{\"symb\":{}}}}}", path(f)) }
fn app(f: &str, a: &[J]) -> J { format!("{{\"App\":{{\"f\":{},\"args\":{}}}}}", fun(f), arr(a)) }
fn isymb(n: &str) -> J { format!("{{\"s_symb\":{},\"s_typ\":{M}}}", path(n)) }
fn name(n: &str, a: &[J]) -> J { format!("{{\"Name\":{{\"symb\":{},\"args\":{}}}}}", isymb(n), arr(a)) }
fn mac(n: &str, a: &[J], t: J) -> J { format!("{{\"Macro\":{{\"symb\":{},\"args\":{},\"timestamp\":{t}}}}}", isymb(n), arr(a)) }
fn act(n: &str, a: &[J]) -> J { format!("{{\"Action\":{{\"symb\":{},\"args\":{}}}}}", path(n), arr(a)) }
fn tup(a: &[J]) -> J { format!("{{\"Tuple\":{{\"elements\":{}}}}}", arr(a)) }
fn proj(i: u8, b: J) -> J { format!("{{\"Proj\":{{\"id\":{i},\"body\":{b}}}}}") }
fn quant(q: &str, vs: &[J], b: J) -> J { format!("{{\"Quant\":{{\"quantificator\":\"{q}\",\"vars\":{},\"body\":{b}}}}}", arr(vs)) }
fn find(vs: &[J], c: J, t: J, e: J) -> J { format!("{{\"Find\":{{\"vars\":{},\"condition\":{c},\"success\":{t},\"faillure\":{e}}}}}", arr(vs)) }
fn diff(a: (&str, J), b: (&str, J)) -> J { format!("{{\"Diff\":{{\"terms\":[{{\"proj\":{},\"term\":{}}},{{\"proj\":{},\"term\":{}}}]}}}}", s(a.0), a.1, s(b.0), b.1) }
fn fty(a: &[&str], o: &str) -> J { format!("{{\"vars\":[],\"args\":[{}],\"out\":{o}}}", a.join(",")) }
fn content(n: &str, d: J) -> J { format!("{{\"symb\":{},\"data\":{d}}}", path(n)) }
fn def(n: &str, a: &[&str], o: &str, d: &str, assoc: &[&str]) -> J { content(n, format!("{{\"type\":{},\"def\":{{\"abstract_def\":{d},\"associated_fun\":{}}}}}", fty(a, o), arr(&assoc.iter().map(|x| path(x)).collect::<Vec<_>>()))) }
fn op(n: &str, a: &[&str], o: &str) -> J { def(n, a, o, "{\"Abstract\":\"Prefix\"}", &[]) }
fn conc(n: &str, a: &[(&str, &str)], o: &str, b: J) -> J {
    let t: Vec<&str> = a.iter().map(|x| x.1).collect();
    let p: Vec<J> = a.iter().map(|x| bind(x.0, x.1)).collect();
    content(n, format!("{{\"type\":{},\"def\":{{\"name\":{},\"type_variables\":[],\"args\":{},\"out_type\":{o},\"body\":{b}}}}}", fty(&t, o), s(n), arr(&p)))
}
fn global(n: &str, shape: &str, inputs: &[&str], idx: &[&str], b: J) -> J {
    let f = |v: &[&str], t: &str| arr(&v.iter().map(|x| bind(x, t)).collect::<Vec<_>>());
    content(n, format!("{{\"Global\":{{\"arity\":{},\"type\":{M},\"data\":{{\"action\":{{\"kind\":\"Strict\",\"shape\":{shape}}},\"inputs\":{},\"indices\":{},\"ts\":{},\"ty\":{M},\"body\":{b}}}}}}}", idx.len(), f(inputs, M), f(idx, I), bind("tau", T)))
}
fn state(n: &str, idx: &[&str]) -> J { content(n, format!("{{\"State\":{{\"arity\":{},\"type\":{M},\"init\":{{\"vars\":{},\"init\":{}}}}}}}", idx.len(), arr(&idx.iter().map(|x| bind(x, I)).collect::<Vec<_>>()), fun("empty"))) }
/// one item of an action's path
fn item(p: (u32, &[&str]), c: (u32, &[&str])) -> J {
    let f = |v: &[&str]| arr(&v.iter().map(|x| bind(x, I)).collect::<Vec<_>>());
    format!("{{\"par_choice\":[{},{}],\"sum_choice\":[{},{}]}}", p.0, f(p.1), c.0, f(c.1))
}
struct Step { name: &'static str, path: Vec<J>, idx: Vec<&'static str>, cond: J, msg: J, upd: Vec<J>, globals: Vec<&'static str> }
fn step(x: &Step) -> J {
    format!("{{\"name\":{},\"action\":{},\"input\":{},\"indices\":{},\"condition\":{{\"vars\":[],\"term\":{}}},\"updates\":{},\"output\":{{\"channel\":{},\"term\":{}}},\"globals\":{}}}",
        path(x.name), arr(&x.path), path("c"), arr(&x.idx.iter().map(|i| bind(i, I)).collect::<Vec<_>>()), x.cond, arr(&x.upd), path("c"), x.msg, arr(&x.globals.iter().map(|g| path(g)).collect::<Vec<_>>()))
}
fn set(c: &str, a: &[J], b: J) -> J { format!("{{\"symb\":{},\"args\":{},\"body\":{b}}}", path(c), arr(a)) }
struct Dump { query: J, hyps: Vec<J>, vars: Vec<J>, steps: Vec<Step>, names: Vec<J>, ops: Vec<J>, macros: Vec<J> }
fn dump(d: &Dump) -> J {
    let mut ops = d.ops.clone();
    for b in ["&&", "||", "=>", "<=>"] { ops.push(op(b, &[B, B], B)) }
    ops.extend([op("not", &[B], B), op("true", &[], B), op("false", &[], B), op("empty", &[], M), op("happens", &[T], B), op("pred", &[T], T), op("pair", &[M, M], M), op("fst", &[M], M), op("snd", &[M], M), op("p", &[M], B), op("ok", &[], M)]);
    let mut ms = d.macros.clone();
    for (n, g) in [("output", "Output"), ("cond", "Cond")] { ms.push(content(n, format!("{{\"General\":\"{g}\"}}"))) }
    for n in ["input", "exec"] {
        ms.push(content(n, format!("{{\"General\":{{\"name\":{},\"default\":{},\"tinit\":{},\"body\":{{\"body\":{},\"var\":{}}},\"rec_ty\":{T},\"ty\":{M}}}}}", path(n), fun("empty"), fun("empty"), fun("empty"), bind("t", T))));
    }
    let init = Step { name: "init", path: vec![], idx: vec![], cond: fun("true"), msg: fun("empty"), upd: vec![], globals: vec![] };
    let mut st = vec![step(&init)];
    st.extend(d.steps.iter().map(step));
    format!("{{\"parameters\":{{\"num_retry\":1,\"timeout\":1}},\"context\":{{\"query\":{},\"hypotheses\":{},\"variables\":{},\"actions\":{},\"names\":{},\"operators\":{},\"macros\":{},\"types\":[]}}}}",
        d.query, arr(&d.hyps), arr(&d.vars), arr(&st), arr(&d.names), arr(&ops), arr(&ms))
}
/// translate the dump and judge each of the files against one source
fn run(kind: &str, d: &Dump, flags: &[&str], src: &[String]) {
    let out = format!("{}/sq", outdir());
    if !is_symbolic() { let _ = std::fs::remove_dir_all(&out); }
    let mut argv = vec!["cryptovampire", "--input-format", "squirrel-json"];
    argv.extend(flags.iter().filter(|f| !f.is_empty()));
    argv.extend(["to-file", "-o", &out]);
    let args = match Args::try_parse_from(&argv) {
        Ok(a) => a,
        Err(_) => fail("the command line is rejected"),
    };
    let j = dump(d);
    if std::env::var("SQ_DUMP").is_ok() { println!("{j}\n=====\n{}", src.join("\n=====\n")) }
    match run_from_json(args, &j) {
        Ok(r) => {
            reach("translated");
            if r.len() != src.len() { fail("another number of problems is reported") }
        }
        Err(e) => {
            note("rejected", &format!("{e}"));
            fail("a valid problem is rejected")
        }
    }
    for (i, x) in src.iter().enumerate() {
        match std::fs::read(format!("{out}/{i}")) {
            Ok(o) => oracle(kind, x, &String::from_utf8_lossy(&o)),
            Err(_) => fail("a problem has no file"),
        }
    }
}
const PRE: &str = "type index\nfun pair(Message,Message):Message\nfun fst(Message):Message\nfun snd(Message):Message\nfun fun_p(Message):Bool\nfun fun_ok:Message\nfun name_n(index):Name\nfun name_m:Name\n";
const POST: &str = "assert forall (x:Message,y:Message) { (fst(pair(x,y)) == x) }\nassert forall (x:Message,y:Message) { (snd(pair(x,y)) == y) }\nassert-crypto nonce;\nassert-crypto memory-cell;\nassert-crypto unfolding;\n";
fn names() -> Vec<J> { vec![content("n", fty(&[I], M)), content("m", fty(&[], M))] }
fn i() -> J { v("i", I) }
fn a_i() -> J { act("A", &[i()]) }
fn b_i() -> J { act("B", &[i()]) }
fn input(t: J) -> J { mac("input", &[], t) }
fn eq(a: J, b: J) -> J { app("=", &[a, b]) }
fn n(x: J) -> J { name("n", &[x]) }
/// terms of every kind in messages and conditions
#[no_mangle]
pub extern "C" fn h_sq() {
    let g = below("macro", 2) == 1;
    // (JSON, the same in the language)
    let (wa, wc) = (below("msg", 11), below("cond", 11));
    let (ja, ra) = match wa {
        0 => (tup(&[input(a_i()), n(i()), fun("ok")]), "pair(in,pair(name_n(i),pair(fun_ok,empty)))"),
        1 => (proj(1, tup(&[input(a_i()), fun("ok")])), "fst(pair(in,pair(fun_ok,empty)))"),
        2 => (tup(&[proj(2, input(a_i())), proj(3, input(a_i()))]), "pair(fst(snd(in)),pair(fst(snd(snd(in))),empty))"),
        3 => (app("if", &[app("p", &[input(a_i())]), n(i()), mac("cell", &[i()], app("pred", &[a_i()]))]), "if fun_p(in) {name_n(i)} else {fun_cell(i,pred(A(i)))}"),
        4 => (find(&[v("j", I)], eq(input(a_i()), n(v("j", I))), tup(&[n(v("j", I)), n(i())]), fun("empty")), "try find (j:index) such that {(in == name_n(j))} then {pair(name_n(j),pair(name_n(i),empty))} else {empty}"),
        5 => (app("sw", &[input(a_i()), n(i())]), "pair(name_n(i),in)"),
        6 => (app("sw", &[app("sw", &[fun("ok"), input(a_i())]), n(i())]), "pair(name_n(i),pair(in,fun_ok))"),
        7 => (mac("ga", &[i()], a_i()), "pair(in,name_n(i))"),
        8 => (app("hh", &[tup(&[input(a_i()), name("m", &[])])]), "fun_hh(in,name_m)"),
        9 => (app("_w'y", &[input(a_i())]), "fun__base64_X3cneQ(in)"),
        _ => (app("snd", &[mac("cell", &[i()], a_i())]), "snd(fun_cell(i,A(i)))"),
    };
    let (jc, rc) = match wc {
        0 => (eq(proj(2, input(b_i())), n(i())), "(fst(snd(in)) == name_n(i))"),
        1 => (quant("Exists", &[v("j", I)], app("&&", &[app("p", &[n(v("j", I))]), eq(input(b_i()), n(v("j", I)))])), "exists (j:index) {(fun_p(name_n(j)) && (in == name_n(j)))}"),
        2 => (quant("ForAll", &[v("i", I)], app("||", &[app("p", &[n(i())]), app("<>", &[input(b_i()), n(i())])])), "forall (j:index) {(fun_p(name_n(j)) || (in != name_n(j)))}"),
        3 => (app("p", &[mac("gb", &[i()], b_i())]), "fun_p(pair(in,pair(input(A(i)),name_n(i))))"),
        4 => (app("not", &[app("=>", &[app("p", &[input(b_i())]), fun("false")])]), "not((fun_p(in) => false))"),
        5 => (app("<=>", &[app("p", &[input(b_i())]), app("p", &[n(i())])]), "(fun_p(in) <=> fun_p(name_n(i)))"),
        6 => (app("||", &[app("not", &[app("p", &[mac("cell", &[i()], app("pred", &[b_i()]))])]), fun("false")]), "(not(fun_p(fun_cell(i,pred(B(i))))) || false)"),
        7 => (app("pp", &[tup(&[input(b_i()), fun("ok")])]), "fun_p(pair(in,pair(fun_ok,empty)))"),
        8 => (app("p", &[mac("ga", &[i()], b_i())]), "fun_p(pair(input(A(i)),name_n(i)))"),
        9 => (app("p", &[mac("gd", &[i()], b_i())]), "fun_p(pair(in,name_n(i)))"),
        _ => (fun("true"), "true"),
    };
    let (jq, rq) = match (wa + wc + g as u64) % 4 {
        0 => (app("happens", &[a_i()]), "happens(step_A(i))"),
        1 => (app("<=>", &[mac("cond", &[], b_i()), mac("exec", &[], app("pred", &[v("t", T)]))]), "(cond(step_B(i)) <=> exec(pred(t)))"),
        2 => (app("&&", &[app("<>", &[input(v("t", T)), app("sw", &[n(i()), fun("ok")])]), app("not", &[app("<=", &[v("t", T), a_i()])])]), "((input(t) != pair(fun_ok,name_n(i))) && not(leq(t,step_A(i))))"),
        _ => (quant("Exists", &[v("t", T)], app("||", &[eq(v("t", T), b_i()), app("<", &[v("t", T), app("pred", &[a_i()])])])), "exists (t2:Step) {((t2 == step_B(i)) || lt(t2,pred(step_A(i))))}"),
    };
    let ct = |x: &str| x.replace("A(", "step_A(").replace("B(", "step_B(");
    let d = Dump {
        query: quant("ForAll", &[i(), v("t", T)], app("=>", &[jq, eq(proj(2, mac("output", &[], a_i())), mac("cell", &[v("x", I)], v("t", T)))])),
        hyps: vec![app("<", &[act("A", &[v("x", I)]), act("B", &[v("x", I)])]), app("<=", &[v("u", T), act("B", &[v("x", I)])])],
        vars: vec![bind("x", I), bind("u", T)],
        steps: vec![
            Step { name: "A", path: vec![item((0, &["i"]), (0, &[]))], idx: vec!["i"], cond: app("p", &[input(a_i())]), msg: ja, upd: if g { vec![set("cell", &[v("k", I)], mac("ga", &[i()], a_i()))] } else { vec![set("cell", &[i()], tup(&[input(a_i()), fun("ok")]))] }, globals: vec!["ga"] },
            Step { name: "B", path: vec![item((0, &["i"]), (0, &[])), item((0, &[]), (0, &[]))], idx: vec!["i"], cond: jc, msg: fun("ok"), upd: vec![], globals: vec!["ga", "gd", "gb"] },
        ],
        names: names(),
        ops: vec![op("_w'y", &[M], M), op("hh", &[&format!("{{\"Tuple\":{{\"elements\":[{M},{M}]}}}}")], M), conc("sw", &[("x", M), ("i", M)], M, app("pair", &[v("i", M), v("x", M)])), conc("pp", &[("i", M)], B, app("p", &[v("i", M)]))],
        macros: vec![state("cell", &["i"]), global("gd", "[{\"par_choice\":[0,1],\"sum_choice\":[0,0]}]", &["last", "$dummy"], &["i"], app("pair", &[v("last", M), n(i())])), global("ga", "[]", &["first"], &["i"], app("pair", &[v("first", M), n(i())])), global("gb", &format!("[{}]", "{\"par_choice\":[0,1],\"sum_choice\":[0,0]}"), &["last", "first"], &["i"], app("pair", &[v("last", M), app("pair", &[v("first", M), n(i())])]))],
    };
    let asg = if g { "(k:index) fun_cell(k) <- pair(in,name_n(i))" } else { "fun_cell(i) <- pair(in,pair(fun_ok,empty))" };
    let src = format!("{PRE}fun fun__base64_X3cneQ(Message):Message\nfun fun_hh(Message,Message):Message\ncell fun_cell(index):Message\nstep init {{ true }} {{ empty }}\nstep step_A(i:index) {{ fun_p(in) }} {{ {} }} {{ {asg} }}\nstep step_B(i:index) {{ {} }} {{ fun_ok }}\norder forall (i:index) {{ step_A(i) < step_B(i) }}\nquery forall (x:index, u:Step) {{ ((lt(step_A(x),step_B(x)) && leq(u,step_B(x))) => forall (i:index, t:Step) {{ ({rq} => (fst(snd(msg(step_A(i)))) == fun_cell(x,t))) }}) }}\n{POST}", ct(ra), ct(rc));
    run("wf,query,user,order,unfold,cell,k=1", &d, &[pick("mode", &["", "--symbolic"])], &[src]);
}
/// the order of the actions: one after the other, one or the other, or independent
#[no_mangle]
pub extern "C" fn h_sqo() {
    // paths: two levels; at each a parallel and a choice, with or without an index of their own
    type L = (u32, bool, u32, bool);
    const P: [&[L]; 9] = [&[(0, true, 0, false)], &[(0, true, 1, false)], &[(1, true, 0, false)], &[(0, true, 0, false), (0, false, 0, false)], &[(0, true, 0, false), (0, false, 1, true)], &[(0, true, 0, false), (1, false, 0, false)], &[(0, true, 0, false), (0, true, 0, false)], &[(0, true, 1, false), (0, true, 0, false)], &[(0, true, 2, true)]];
    let (a, b, c) = (below("a", 9) as usize, below("b", 9) as usize, below("c", 9) as usize);
    // every ordered pair, with some third ones
    assume(a != b && b != c && a != c && (a + 2 * b + c) % 3 == 0);
    let (a, b, c) = (P[a], P[b], P[c]);
    let ps = [("A", a), ("B", b), ("D", c)];
    let (pn, sn) = (["i", "j"], ["k", "l"]);
    let idx = |p: &[L]| p.iter().enumerate().flat_map(|(l, x)| [x.1.then_some(pn[l]), x.3.then_some(sn[l])]).flatten().collect::<Vec<_>>();
    let steps = ps.iter().map(|(n, p)| Step { name: n, path: p.iter().enumerate().map(|(l, x)| item((x.0, if x.1 { &pn[l..=l] } else { &[] }), (x.2, if x.3 { &sn[l..=l] } else { &[] }))).collect(), idx: idx(p), cond: fun("true"), msg: fun("ok"), upd: vec![], globals: vec![] }).collect();
    let mut src = PRE.to_string();
    src += "step init { true } { empty }\n";
    let bs = |v: &[&str]| v.iter().map(|x| format!("{x}:index")).collect::<Vec<_>>().join(", ");
    for (n, p) in &ps { src += &format!("step step_{n}({}) {{ true }} {{ fun_ok }}\n", bs(&idx(p))) }
    for x in 0..3 {
        for y in 0..3 {
            let ((n, p), (m, q)) = (ps[x], ps[y]);
            if p.len() < q.len() && q[..p.len()] == *p {
                src += &format!("order forall ({}) {{ step_{n}({}) < step_{m}({}) }}\n", bs(&idx(q)), idx(p).join(","), idx(q).join(","));
            }
            // the first level they differ at is a choice
            if x < y {
                if let Some(l) = (0..p.len().min(q.len())).find(|l| p[*l] != q[*l]) {
                    if (p[l].0, p[l].1) == (q[l].0, q[l].1) {
                        let common = p[..l].iter().map(|x| x.1 as usize + x.3 as usize).sum::<usize>() + p[l].1 as usize;
                        let (ip, iq) = (idx(p), idx(q));
                        let iq2: Vec<String> = iq.iter().enumerate().map(|(k, x)| if k < common { x.to_string() } else { format!("{x}2") }).collect();
                        let all: Vec<&str> = ip.iter().copied().chain(iq2[common.min(iq2.len())..].iter().map(|x| x.as_str())).collect();
                        src += &format!("order forall ({}) {{ step_{n}({}) <> step_{m}({}) }}\n", bs(&all), ip.join(","), iq2.join(","));
                    }
                }
            }
        }
    }
    src += &format!("query true\n{POST}");
    let d = Dump { query: fun("true"), hyps: vec![], vars: vec![], steps, names: names(), ops: vec![], macros: vec![] };
    run("wf,query,order,k=2", &d, &[], &[src.replace("()", "")]);
}
/// two protocols at once: one problem for each
#[no_mangle]
pub extern "C" fn h_sqd() {
    let swap = flag("swap");
    let two = |x: J, y: J| if swap { diff(("right", y), ("left", x)) } else { diff(("left", x), ("right", y)) };
    let w = below("where", 5);
    let (l, r) = (n(i()), tup(&[input(a_i()), fun("ok")]));
    let (rl, rr) = ("name_n(i)", "pair(in,pair(fun_ok,empty))");
    let (msg, m) = match w {
        0 => (two(l, r), [rl.to_string(), rr.to_string()]),
        1 => (app("pair", &[two(l, r), input(a_i())]), [rl, rr].map(|x| format!("pair({x},in)"))),
        2 => (app("pair", &[two(l.clone(), r.clone()), two(r, l)]), [format!("pair({rl},{rr})"), format!("pair({rr},{rl})")]),
        3 => (app("if", &[app("p", &[two(l, r)]), two(fun("ok"), fun("empty")), fun("ok")]), [format!("if fun_p({rl}) {{fun_ok}} else {{fun_ok}}"), format!("if fun_p({rr}) {{empty}} else {{fun_ok}}")]),
        _ => (fun("ok"), ["fun_ok"; 2].map(|x| x.to_string())),
    };
    let q = below("query", 3);
    let (jq, rq) = match q {
        0 => (app("p", &[mac("output", &[], a_i())]), ["fun_p(msg(step_A(i)))"; 2]),
        1 => (app("p", &[two(mac("output", &[], a_i()), fun("ok"))]), ["fun_p(msg(step_A(i)))", "fun_p(fun_ok)"]),
        _ => (two(fun("true"), app("happens", &[a_i()])), ["true", "happens(step_A(i))"]),
    };
    assume(w < 4 || q > 0);
    let d = Dump { query: quant("ForAll", &[i()], jq), hyps: vec![], vars: vec![], steps: vec![Step { name: "A", path: vec![item((0, &["i"]), (0, &[]))], idx: vec!["i"], cond: fun("true"), msg, upd: vec![], globals: vec![] }], names: names(), ops: vec![], macros: vec![] };
    let src: Vec<String> = (0..2).map(|k| format!("{PRE}step init {{ true }} {{ empty }}\nstep step_A(i:index) {{ true }} {{ {} }}\nquery forall (i:index) {{ {} }}\n{POST}", m[k], rq[k])).collect();
    run("wf,query,user,unfold,nonce,has=nonce,k=1", &d, &[pick("mode", &["", "--symbolic"])], &src);
}
/// the primitives: hashes, signatures, encryptions
#[no_mangle]
pub extern "C" fn h_sqc() {
    let t2: &str = &format!("{{\"Tuple\":{{\"elements\":[{M},{M}]}}}}");
    let t3: &str = &format!("{{\"Tuple\":{{\"elements\":[{M},{M},{M}]}}}}");
    let k = || name("k", &[i()]);
    let pay = below("pay", 3);
    let (jp, rp) = match pay {
        0 => (input(a_i()), "in"),
        1 => (tup(&[n(i()), input(a_i())]), "pair(name_n(i),pair(in,empty))"),
        _ => (k(), "name_k(i)"),
    };
    let (ops, ja, ra, jb, rb, decl, kind) = match below("prim", 3) {
        0 => (vec![def("h", &[t2], M, "\"Hash\"", &[])],
            app("h", &[tup(&[jp, k()])]), format!("fun_h({rp},name_k(i))"),
            eq(proj(2, input(b_i())), app("h", &[tup(&[proj(1, input(b_i())), k()])])), "(fst(snd(in)) == fun_h(fst(in),name_k(i)))",
            "fun fun_h(Message,Message):Message\nfun verify_fun_h(Message,Message,Message):Bool\nassert-crypto euf-cma fun_h verify_fun_h [hmac];\n", "cma"),
        1 => (vec![def("sign", &[t2], M, "\"Sign\"", &["checksign", "pk"]), def("pk", &[M], M, "\"PublicKey\"", &["sign", "checksign"]), def("checksign", &[t3], B, "\"CheckSign\"", &["sign", "pk"])],
            app("sign", &[tup(&[jp, k()])]), format!("fun_sign({rp},name_k(i))"),
            app("checksign", &[tup(&[proj(2, input(b_i())), proj(1, input(b_i())), app("pk", &[k()])])]), "fun_checksign(fst(snd(in)),fst(in),fun_pk(name_k(i)))",
            "fun fun_sign(Message,Message):Message\nfun fun_pk(Message):Message\nfun fun_checksign(Message,Message,Message):Bool\nassert-crypto euf-cma fun_sign fun_checksign fun_pk;\n", "cma"),
        _ => (vec![def("enc", &[t3], M, "\"SEnc\"", &["dec"]), def("dec", &[t2], M, "\"SDec\"", &["enc"]), op("fail", &[], M)],
            app("enc", &[tup(&[jp, name("r", &[i()]), k()])]), format!("fun_enc({rp},name_r(i),name_k(i))"),
            app("<>", &[app("dec", &[tup(&[input(b_i()), k()])]), fun("fail")]), "(fun_dec(in,name_k(i)) != fail)",
            "fun fun_enc(Message,Message,Message):Message\nfun fun_dec(Message,Message):Message\nfun fail:Message\nassert-crypto int-ctxt fun_enc fun_dec fail;\n", "ctxt"),
    };
    let mut nm = names();
    nm.extend(["k", "r"].map(|x| content(x, fty(&[I], M))));
    let at = |n: &'static str, p: u32, c: J, m: J| Step { name: n, path: vec![item((p, &["i"]), (0, &[]))], idx: vec!["i"], cond: c, msg: m, upd: vec![], globals: vec![] };
    let d = Dump { query: quant("ForAll", &[i()], app("=>", &[mac("cond", &[], b_i()), fun("false")])), hyps: vec![], vars: vec![], steps: vec![at("A", 0, fun("true"), ja), at("B", 1, jb, fun("ok"))], names: nm, ops, macros: vec![] };
    let src = format!("{PRE}fun name_k(index):Name\nfun name_r(index):Name\nstep init {{ true }} {{ empty }}\nstep step_A(i:index) {{ true }} {{ {ra} }}\nstep step_B(i:index) {{ {rb} }} {{ fun_ok }}\nquery forall (i:index) {{ (cond(step_B(i)) => false) }}\n{decl}{POST}");
    // with its key given away a verification says nothing
    let has = if pay == 2 { "nonce".to_string() } else { format!("{kind}+nonce") };
    run(&format!("wf,query,user,{kind},has={has},k=1"), &d, &[pick("mode", &["", "--symbolic"])], &[src]);
}
