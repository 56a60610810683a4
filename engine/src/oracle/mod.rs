//! Judges an emitted SMT problem against its source protocol.
pub mod ptcl;
pub mod refsem;
pub mod sx;
pub mod z;
use refsem::Ref;
use std::collections::HashSet;
use sx::SmtFile;

pub struct Verdict {
    pub viol: Vec<String>,
    pub errs: Vec<String>,
    pub queries: u64,
    pub secs: f64,
    pub checks: u64,
    pub cover: Vec<String>,
}
fn class(section: &str, f: &sx::Sx) -> &'static str {
    let has = |p: &str| f.mentions(&|s| s.contains(p));
    match section {
        "ordering" => "order",
        "evaluate" => "eval",
        "uf-cma" | "euf-cma sign" => "cma",
        "int ctxt" => "ctxt",
        "nonce" => "nonce",
        "cells" => "cell",
        "unfolding" => "unfold",
        "user asserts" => "user",
        "query" => "query",
        _ if has("cma_") => "cma",
        _ if has("ctxt_") => "ctxt",
        _ if has("subterm_nonce") => "nonce",
        _ => "other",
    }
}
fn short(s: String) -> String {
    if s.len() > 1500 {
        format!("{}…", s.chars().take(1500).collect::<String>())
    } else {
        s
    }
}
/// `kind`: comma separated: what to judge, and k=<n> depth=<n>
pub fn judge(kind: &str, src: &str, out: &str) -> Verdict {
    let mut v = Verdict { viol: vec![], errs: vec![], queries: 0, secs: 0.0, checks: 0, cover: vec![] };
    let ks: HashSet<&str> = kind.trim().split(',').collect();
    let opt = |n: &str, d: usize| ks.iter().find_map(|x| x.strip_prefix(n)).and_then(|x| x.parse().ok()).unwrap_or(d);
    let want = |c: &str| ks.contains(c) || ks.contains("all");
    let f = SmtFile::load(out);
    v.checks += f.axioms.len() as u64;
    if !f.errors.is_empty() {
        if want("wf") {
            for e in &f.errors {
                v.viol.push(short(format!("wf: {e}")));
            }
        } else {
            v.errs.push(format!("the file is not well formed: {}", f.errors[0]));
        }
        return v;
    }
    if want("wf") {
        v.cover.push("wf".into());
    }
    let allowed: Option<Vec<&str>> = ks.iter().find_map(|x| x.strip_prefix("ext=")).map(|x| x.split('+').collect()).or(ks.contains("std").then(Vec::new));
    if let Some(x) = allowed.and_then(|a| f.ext.iter().find(|x| !a.contains(&x.as_str()))) {
        v.viol.push(format!("wf: the non-standard command {x} is used though no option asks for it"));
    }
    if ks.iter().all(|x| *x == "wf" || *x == "std" || x.contains('=')) {
        return v;
    }
    let p = match ptcl::parse(src) {
        Ok(p) => p,
        Err(e) => {
            v.errs.push(format!("reference parser: {e}"));
            return v;
        }
    };
    let mut r = match Ref::new(&f, &p, opt("k=", 2), opt("depth=", 2), false) {
        Ok(r) => r,
        Err(e) if e.starts_with("DEFECT: ") => {
            if want("eval") {
                v.viol.push(short(format!("eval: {}", &e[8..])));
            }
            return v;
        }
        Err(e) => {
            v.errs.push(format!("reference semantics: {e}"));
            return v;
        }
    };
    if r.sat() != z::Res::Sat {
        v.errs.push("the reference semantics has no model".into());
        return v;
    }
    let el = ptcl::Elab::new(&p);
    let mut user: Vec<(String, Result<sx::Sx, String>, bool)> = vec![];
    for a in &p.asserts {
        user.push(("assert".into(), el.closed(a), false));
    }
    for a in &p.orders {
        user.push(("order".into(), el.order(a), false));
    }
    let orders: Vec<sx::Sx> = user.iter().filter(|u| u.0 == "order").filter_map(|u| u.1.clone().ok()).collect();
    let mut lem: Vec<(sx::Sx, bool)> = vec![];
    for a in &p.lemmas {
        if let Ok(x) = el.closed(a) {
            lem.push((x, false))
        }
    }
    let lemmode = ks.contains("lemmas");
    if let Some(i) = ks.iter().find_map(|x| x.strip_prefix("lemma=")).and_then(|x| x.parse::<usize>().ok()) {
        lem.truncate(i);
    }
    let goal = match ks.iter().find_map(|x| x.strip_prefix("goal=")).and_then(|x| x.parse::<usize>().ok()) {
        Some(i) => p.lemmas.get(i).or(p.queries.first()),
        None => p.queries.first(),
    };
    for ax in &f.axioms {
        let c = class(&ax.section, &ax.f);
        if ax.query {
            if want("query") {
                let Some(q) = goal else {
                    v.errs.push("no query in the source".into());
                    continue;
                };
                match el.closed(q).and_then(|q| r.equivalent(&ax.f, &q)) {
                    Ok(None) => v.cover.push("query".into()),
                    Ok(Some(t)) => v.viol.push(short(format!("query: {t}; emitted goal: {}", ax.f))),
                    Err(e) => v.errs.push(short(format!("query: {e}"))),
                }
            }
            continue;
        }
        let relevant = want(c) || c == "other" || (c == "user" && want("query")) || (c == "order" && want("query"));
        if !relevant {
            continue;
        }
        v.cover.push(c.into());
        let t0 = std::time::Instant::now();
        let mut judged = Err(String::new());
        if c != "user" {
            judged = r.valid(&ax.f, c == "nonce", if c == "order" { &[] } else { &orders });
        }
        if std::env::var("ORACLE_TIMES").is_ok() && t0.elapsed().as_secs_f64() > 0.5 {
            eprintln!("axiom {} ({c}) {:.2}s", ax.idx, t0.elapsed().as_secs_f64());
        }
        if matches!(judged, Ok(None)) {
            continue;
        }
        let mut hit = false;
        let mut err2 = String::new();
        if matches!(c, "user" | "order" | "other") {
            for u in user.iter_mut() {
                match &u.1 {
                    Ok(x) if !u.2 => match r.equivalent(&ax.f, x) {
                        Ok(None) => {
                            u.2 = true;
                            hit = true;
                            break;
                        }
                        Ok(Some(_)) => {}
                        Err(e) => err2 = e,
                    },
                    _ => {}
                }
            }
            if !hit {
                for l in lem.iter_mut() {
                    if !l.1 && matches!(r.equivalent(&ax.f, &l.0), Ok(None)) {
                        l.1 = true;
                        hit = true;
                        break;
                    }
                }
            }
        }
        // assuming what is true anyway assumes nothing
        if hit || (c == "user" && matches!(r.equivalent(&ax.f, &sx::atom("true")), Ok(None))) {
            continue;
        }
        match judged {
            Err(e) if c != "user" => v.errs.push(short(format!("{c} axiom {}: {e}: {}", ax.idx, ax.f))),
            Err(_) if !err2.is_empty() => v.errs.push(short(format!("user axiom {}: {err2}: {}", ax.idx, ax.f))),
            Err(_) => v.viol.push(short(format!("user: axiom {} is none of the source's assertions: {}", ax.idx, ax.f))),
            Ok(t) => v.viol.push(short(format!("{c}: axiom {} does not follow from the protocol; it fails on the trace {}: {}", ax.idx, t.unwrap(), ax.f))),
        }
    }
    for (w, x, h) in &user {
        let rel = (w == "assert" && (want("user") || want("query"))) || (w == "order" && want("order"));
        if rel && !h {
            match x {
                Ok(x) => {
                    // a statement that is already true needs no axiom
                    if matches!(r.equivalent(&sx::atom("true"), x), Ok(None)) {
                        continue;
                    }
                    v.viol.push(short(format!("user: no emitted axiom says what this {w} of the source says: {x}")))
                }
                Err(e) => v.errs.push(format!("source {w}: {e}")),
            }
        }
    }
    // the other direction: what the axioms of a class say together
    let wl: Vec<&str> = ["unfold", "cell"].into_iter().filter(|c| want(c) && (*c != "cell" || p.crypto.iter().any(|x| x.0.replace('_', "-") == "memory-cell"))).collect();
    if !wl.is_empty() {
        match Ref::new(&f, &p, opt("k=", 2), 1, true) {
            Err(e) => v.errs.push(format!("reference semantics: {e}")),
            Ok(mut l) => {
                for c in wl {
                    let axs: Vec<&sx::Sx> = f.axioms.iter().filter(|a| !a.query && class(&a.section, &a.f) == c).map(|a| &a.f).collect();
                    match l.gives(c, &axs) {
                        Ok(None) => v.cover.push(format!("{c}-all")),
                        Ok(Some(t)) => v.viol.push(short(format!("{c}: the axioms do not fix the {t}"))),
                        Err(e) => v.errs.push(short(format!("{c}: {e}"))),
                    }
                }
                v.queries += l.z.queries;
                v.secs += l.z.secs;
            }
        }
    }
    for c in ks.iter().filter_map(|x| x.strip_prefix("has=")).flat_map(|x| x.split('+')) {
        if !f.axioms.iter().any(|a| !a.query && class(&a.section, &a.f) == c) {
            v.viol.push(format!("{c}: the assumption has no axiom"));
        }
    }
    for c in ["order", "eval"] {
        if ks.contains(c) {
            entails(&f, &p, c, &mut v);
        }
    }
    if lemmode {
        for (x, h) in &lem {
            if !h {
                v.viol.push(short(format!("lemma: an earlier lemma is missing from the axioms: {x}")));
            }
        }
    } else if want("user") && lem.iter().any(|l| l.1) {
        v.viol.push("lemma: a lemma that was not proved is among the axioms".into());
    }
    v.queries += r.z.queries;
    v.secs += r.z.secs;
    v
}
/// first-order entailment of laws by the axioms of a section: the ordering of timestamps, the evaluation of terms
fn entails(f: &SmtFile, p: &ptcl::Ptcl, c: &str, v: &mut Verdict) {
    let sort = |s: &str| match s { "Bool" => "Bool".to_string(), _ => format!("|{s}|") };
    let mut laws: Vec<(String, String)> = vec![];
    let mut allowed: HashSet<String> = ["leq", "lt", "gt", "happens", "pred", "init"].iter().map(|x| x.to_string()).collect();
    let all: Vec<&sx::Axiom> = f.axioms.iter().filter(|a| !a.query && class(&a.section, &a.f) == c).collect();
    let syms = |e: &sx::Sx| {
        let mut o = HashSet::new();
        fn go(e: &sx::Sx, f: &SmtFile, o: &mut HashSet<String>) {
            match e {
                sx::Sx::A(a) => {
                    if f.funs.contains_key(&**a) {
                        o.insert(a.to_string());
                    }
                }
                sx::Sx::L(l) => l.iter().for_each(|x| go(x, f, o)),
            }
        }
        go(e, f, &mut o);
        o
    };
    if c == "order" {
        let s = "((a Step) (b Step) (c Step))";
        for (n, l) in [
            ("lt is irreflexive", "(not (lt a a))"), ("lt is transitive", "(=> (and (lt a b) (lt b c)) (lt a c))"),
            ("timestamps that happen are ordered", "(=> (and (happens a) (happens b)) (or (= a b) (lt a b) (lt b a)))"),
            ("only timestamps that happen are ordered", "(=> (leq a b) (and (happens a) (happens b)))"),
            ("leq", "(= (leq a b) (or (lt a b) (and (= a b) (happens a))))"), ("gt", "(= (gt a b) (lt b a))"),
            ("init is the first", "(and (happens init) (=> (happens a) (leq init a)))"),
            ("pred is before", "(=> (and (happens a) (not (= a init))) (and (happens (pred a)) (lt (pred a) a)))"),
            ("nothing between pred and a timestamp", "(=> (and (happens a) (not (= a init))) (not (and (lt (pred a) b) (lt b a))))"),
            ("init has no predecessor", "(not (happens (pred init)))"),
        ] {
            laws.push((n.into(), format!("(forall {s} {l})")));
        }
        let mut st: Vec<(String, Vec<String>)> = vec![("init".into(), vec![])];
        st.extend(p.steps.iter().filter(|s| s.name != "init").map(|s| (s.name.clone(), s.params.iter().map(|x| x.1.clone()).collect())));
        let call = |n: &str, k: usize, x: &str| if k == 0 { format!("|{n}|") } else { format!("(|{n}|{})", (0..k).map(|i| format!(" {x}{i}")).collect::<String>()) };
        let bind = |t: &[String], x: &str| t.iter().enumerate().map(|(i, s)| format!("({x}{i} {}) ", sort(s))).collect::<String>();
        let q = |w: &str, b: String, e: String| if b.is_empty() { e } else { format!("({w} ({b}) {e})") };
        for (i, (n, t)) in st.iter().enumerate() {
            if !f.funs.contains_key(n) {
                v.viol.push(format!("order: step {n} is not declared"));
                return;
            }
            allowed.insert(n.clone());
            let me = call(n, t.len(), "x");
            for (j, (m, u)) in st.iter().enumerate() {
                let other = call(m, u.len(), "y");
                if i != j {
                    laws.push((format!("{n} is not {m}"), q("forall", bind(t, "x") + &bind(u, "y"), format!("(=> (happens {me}) (not (= {me} {other})))"))));
                } else if !t.is_empty() {
                    let eq: String = (0..t.len()).map(|k| format!(" (= x{k} y{k})")).collect();
                    laws.push((format!("{n} is injective"), q("forall", bind(t, "x") + &bind(u, "y"), format!("(=> (and (happens {me}) (= {me} {other})) (and{eq}))"))));
                }
            }
        }
        let ex: String = st.iter().map(|(n, t)| format!(" {}", q("exists", bind(t, "x"), format!("(= a {})", call(n, t.len(), "x"))))).collect();
        laws.push(("every timestamp is a step's".into(), format!("(forall ((a Step)) (=> (happens a) (or{ex})))")));
    } else {
        // without symbolic terms a term is its evaluation
        let same = f.alias.contains_key("Condition");
        let ev = |s: &str, x: &str| match s { "Condition" if !same => format!("(evaluate_cond {x})"), "Message" if !same => format!("(evaluate_msg {x})"), _ => x.to_string() };
        let mut fs: Vec<(&String, &(Vec<String>, String))> = f.funs.iter().collect();
        fs.sort();
        for (n, (dom, _)) in fs {
            let args: Vec<String> = dom.iter().enumerate().map(|(i, s)| ev(s, &format!("x{i}"))).collect();
            let op = match n.as_str() {
                "ta$and" => "and".into(), "ta$or" => "or".into(), "ta$implies" => "=>".into(), "ta$iff" | "ta$=" => "=".into(),
                "ta$not" => "not".into(), "ta$ite" => "ite".into(), "ta$true" => "true".into(), "ta$false" => "false".into(),
                _ if f.funs.contains_key(&format!("eval${n}")) => format!("|eval${n}|"),
                _ => continue,
            };
            let b: String = dom.iter().enumerate().map(|(i, s)| format!("(x{i} {}) ", sort(s))).collect();
            let vs: String = (0..dom.len()).map(|i| format!(" x{i}")).collect();
            let (l, r) = if dom.is_empty() { (format!("|{n}|"), op) } else { (format!("(|{n}|{vs})"), format!("({op} {})", args.join(" "))) };
            let e = format!("(= {} {r})", ev(&f.funs[n].1, &l));
            laws.push((format!("the evaluation of {n}"), if b.is_empty() { e } else { format!("(forall ({b}) {e})") }));
        }
        for a in &all {
            let (vs, b) = refsem::strip_forall(&a.f);
            if b.head() == "=>" && b.args().len() == 2 {
                let x = &b.args()[0];
                let y = if x.head().starts_with("evaluate_") && !x.is_atom() { &x.args()[0] } else { x };
                if ["ta$exists$", "ta$forall$"].iter().any(|p| y.head().starts_with(p)) && y.args().iter().all(|z| vs.iter().any(|w| w.0 == z.head())) {
                    let bs: String = vs.iter().map(|w| format!("({} {}) ", w.0, sort(&w.1))).collect();
                    let e = format!("(= {x} {})", b.args()[1]);
                    laws.push((format!("the evaluation of {}", y.head()), if bs.is_empty() { e } else { format!("(forall ({bs}) {e})") }));
                }
            }
        }
        allowed.extend(f.funs.keys().cloned());
    }
    let axs: Vec<(&sx::Axiom, HashSet<String>)> = all.into_iter().map(|a| (a, syms(&a.f))).filter(|x| x.1.iter().all(|s| allowed.contains(s))).collect();
    for (n, l) in &laws {
        // the axioms about what the law mentions
        let about: Option<&str> = n.strip_prefix("the evaluation of ");
        let mut used: HashSet<String> = HashSet::new();
        let mut body = String::new();
        for (a, s) in &axs {
            if about.is_none_or(|x| s.contains(x) || (a.f.head() == "forall" && s.iter().all(|y| y.starts_with("evaluate_")))) {
                body += &format!("(assert {})\n", a.f);
                used.extend(s.iter().cloned());
            }
        }
        used.extend(f.funs.keys().filter(|k| l.contains(k.as_str())).cloned());
        let mut sorts: HashSet<String> = HashSet::new();
        let mut decl = String::new();
        let mut us: Vec<&String> = used.iter().collect();
        us.sort();
        // evaluation is judged over all terms: constructors are just functions
        for u in us {
            let (d, r) = &f.funs[u];
            decl += &format!("(declare-fun |{u}| ({}) {})\n", d.iter().map(|x| sort(x)).collect::<Vec<_>>().join(" "), sort(r));
            sorts.extend(d.iter().chain([r]).cloned());
        }
        for s in ["Step", "Message", "Condition", "Bitstring"] {
            sorts.insert(s.into());
        }
        sorts.extend(p.steps.iter().flat_map(|s| s.params.iter().map(|x| x.1.clone())));
        let mut head = String::new();
        let mut ss: Vec<&String> = sorts.iter().filter(|s| *s != "Bool").collect();
        ss.sort();
        for s in ss.iter().filter(|s| !f.alias.contains_key(s.as_str())) {
            head += &format!("(declare-sort |{s}| 0)\n");
        }
        for s in ss.iter().filter(|s| f.alias.contains_key(s.as_str())) {
            head += &format!("(define-sort |{s}| () {})\n", sort(&f.resolve(s)));
        }
        let (r, t) = z::Z::text(&format!("{head}{decl}{body}(assert (not {l}))\n"), 10_000);
        v.queries += 1;
        v.secs += t;
        match r {
            z::Res::Unsat => {}
            z::Res::Sat => v.viol.push(short(format!("{c}: the axioms do not give: {n}: {l}"))),
            z::Res::Unknown => v.errs.push(short(format!("{c}: no answer whether the axioms give: {n}"))),
        }
    }
    v.cover.push(format!("{c}-all"));
}
pub fn run(k: &str, s: &str, o: &str) -> Vec<String> {
    let v = judge(k, s, o);
    for e in &v.errs {
        eprintln!("ORACLE-ERROR: {e}");
    }
    v.viol
}

/// judge every dumped problem of `dir`/or, one process each
pub fn batch(dir: &str, jobs: usize, secs: u64, sh: &crate::shared::Shared) -> (std::collections::BTreeMap<String, u64>, Vec<String>) {
    use std::sync::atomic::Ordering::SeqCst;
    let mut items: Vec<String> = std::fs::read_dir(format!("{dir}/or")).map(|d| d.filter_map(|e| e.ok()?.path().to_str()?.strip_suffix(".inputs").map(|x| x.to_string())).collect()).unwrap_or_default();
    items.sort();
    let todo = std::sync::Mutex::new(items.clone());
    let exe = std::env::current_exe().unwrap();
    std::thread::scope(|sc| {
        for _ in 0..jobs {
            sc.spawn(|| loop {
                let Some(b) = todo.lock().unwrap().pop() else { return };
                let r = std::process::Command::new("timeout").args(["-k", "2", &secs.to_string()]).arg(&exe).args(["oracle1", &b]).status();
                if !std::path::Path::new(&format!("{b}.res")).exists() {
                    let _ = std::fs::write(format!("{b}.res"), format!("E oracle gave no answer ({r:?})\n"));
                }
            });
        }
    });
    let mut cover = std::collections::BTreeMap::new();
    let mut errs = vec![];
    for b in items {
        for l in std::fs::read_to_string(format!("{b}.res")).unwrap_or_default().lines() {
            match l.split_at(2.min(l.len())) {
                ("V ", m) => {
                    let n = sh.viols.fetch_add(1, SeqCst);
                    if n < 400 {
                        let i = std::fs::read_to_string(format!("{b}.inputs")).unwrap_or_default();
                        let _ = std::fs::write(format!("{dir}/viol-{n}.txt"), format!("kind oracle\nmsg {m}\n--inputs\n{i}"));
                    }
                }
                ("E ", m) => errs.push(format!("{} [{}]", m, b.rsplit('/').next().unwrap())),
                ("C ", m) => *cover.entry(m.to_string()).or_insert(0) += 1,
                ("S ", m) => {
                    let x: Vec<f64> = m.split(' ').map(|y| y.parse().unwrap_or(0.0)).collect();
                    sh.or_queries.fetch_add(x[0] as u64, SeqCst);
                    sh.or_ns.fetch_add((x[1] * 1e9) as u64, SeqCst);
                    sh.or_checks.fetch_add(x[2] as u64, SeqCst);
                    sh.or_cached.fetch_add(1, SeqCst);
                }
                _ => {}
            }
        }
    }
    (cover, errs)
}
pub fn one(b: &str) {
    let r = |e: &str| std::fs::read_to_string(format!("{b}.{e}")).unwrap();
    let v = judge(&r("kind"), &r("src"), &r("out"));
    let mut o = String::new();
    for x in &v.viol { o += &format!("V {}\n", x.replace('\n', "\\n")) }
    for x in &v.errs { o += &format!("E {}\n", x.replace('\n', "\\n")) }
    for x in &v.cover { o += &format!("C {x}\n") }
    o += &format!("S {} {} {}\n", v.queries, v.secs, v.checks);
    std::fs::write(format!("{b}.tmp"), o).unwrap();
    std::fs::rename(format!("{b}.tmp"), format!("{b}.res")).unwrap();
}
