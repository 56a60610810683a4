//! Reference semantics of a protocol, and the judgement of every emitted axiom against it.
//!
//! Every index sort has `k` elements, so the timestamps and names are finite sets; messages, inputs, the
//! values of all functions, which timestamps happen and in which order are symbolic (decided by z3).
use super::ptcl::{Elab, Ptcl, Step};
use super::sx::{app, atom, list, SmtFile, Sx};
use super::z::{Res, A, Z};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub type Gp = Rc<G>;
type R<T> = Result<T, String>;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum S {
    B,
    M,
    C,
    T,
    N,
    St,
    Ix,
}
pub enum K {
    App(String, Vec<Gp>),
    Sk,
    Many(Vec<Gp>),
    /// a comparison: hashes on top of one are not computed by anyone when the hash is an hmac
    Eq(Vec<Gp>),
    El(Vec<(A, usize)>),
}
pub struct G {
    pub s: S,
    pub k: K,
    pub v: A,
    pub y: Option<A>,
}
#[derive(Clone, Debug)]
enum Cr {
    Mac { mac: String, ver: String, hmac: bool },
    Sign { sign: String, ver: String, pk: String },
    Enc { enc: String, dec: String, fail: String },
}
type Env = Vec<(String, Gp)>;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Mode {
    All,
    Key(usize),
    Rand(usize),
}
#[derive(Clone)]
struct SkDef {
    params: Vec<String>,
    ys: Vec<(String, String)>,
    c: Sx,
    pos: usize,
}
pub struct Ref<'a> {
    pub z: Z,
    f: &'a SmtFile,
    p: &'a Ptcl,
    el: Elab<'a>,
    pub symbolic: bool,
    k: usize,
    depth: usize,
    insts: Vec<(String, Vec<usize>)>,
    names: Vec<(String, Vec<usize>)>,
    hap: Vec<A>,
    ord: Vec<Vec<A>>,
    stepv: Vec<A>,
    ixv: Vec<A>,
    namev: Vec<A>,
    namey: Vec<A>,
    sorts: HashMap<S, A>,
    syn: HashMap<S, A>,
    cm: Vec<Option<Gp>>,
    cc: Vec<Option<Gp>>,
    asg: Vec<Vec<(String, Vec<usize>, Gp)>>,
    crypto: Vec<Cr>,
    nonce: bool,
    defs: HashMap<String, (Vec<String>, Sx)>,
    sks: HashMap<String, SkDef>,
    splits: HashMap<String, (String, Sx)>,
    arena: Vec<Gp>,
    omemo: HashMap<(*const G, Mode, usize), Rc<Vec<A>>>,
    cmemo: HashMap<(*const G, usize, usize), Rc<Vec<(A, Gp)>>>,
    pool: Vec<Gp>,
    facts: Vec<A>,
    track: bool,
    approx: bool,
    cands: Vec<Gp>,
    openc: Vec<[Option<Gp>; 3]>,
    evmemo: HashSet<A>,
    flags: HashSet<String>,
    in_def: usize,
    preds: Vec<Vec<(A, usize)>>,
    /// the laws the emitted axioms must give are collected, not assumed
    loose: bool,
    laws: Vec<(&'static str, String, A)>,
}
const TA: [&str; 9] = ["ta$and", "ta$or", "ta$not", "ta$implies", "ta$iff", "ta$true", "ta$false", "ta$=", "ta$ite"];

fn tuples(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut r = vec![vec![]];
    for _ in 0..n {
        r = r.into_iter().flat_map(|t| (0..k).map(move |i| { let mut t = t.clone(); t.push(i); t })).collect();
    }
    r
}
pub fn strip_forall(e: &Sx) -> (Vec<(String, String)>, &Sx) {
    let mut v = vec![];
    let mut e = e;
    while e.head() == "forall" {
        for b in e.args()[0].items() {
            v.push((b.head().to_string(), b.args()[0].head().to_string()));
        }
        e = &e.args()[1];
    }
    (v, e)
}
fn flat<'x>(e: &'x Sx, op: &str, out: &mut Vec<&'x Sx>) {
    if e.head() == op && !e.is_atom() {
        for a in e.args() {
            flat(a, op, out)
        }
    } else {
        out.push(e)
    }
}
impl<'a> Ref<'a> {
    pub fn new(f: &'a SmtFile, p: &'a Ptcl, k: usize, depth: usize, loose: bool) -> R<Ref<'a>> {
        let mut z = Z::new(20_000);
        let symbolic = f.datatypes.contains_key("Message");
        let mut sorts = HashMap::new();
        let vm = z.sort("Bits");
        let stp = z.sort("Time");
        let ix = z.sort("Ix");
        let nm = z.sort("Nm");
        for (s, a) in [(S::B, z.bool_), (S::C, z.bool_), (S::M, vm), (S::T, vm), (S::St, stp), (S::Ix, ix), (S::N, nm)] {
            sorts.insert(s, a);
        }
        let mut syn = HashMap::new();
        if symbolic {
            let ns: Vec<String> = vec!["Condition".into(), "Message".into()];
            let mut cs = vec![];
            for n in &ns {
                let mut v = vec![];
                for c in f.datatypes.get(n).ok_or("no datatype for terms")? {
                    let mut fs = vec![];
                    for s in &f.funs[c].0 {
                        fs.push(match f.resolve(s).as_str() {
                            "Condition" => Err(0),
                            "Message" => Err(1),
                            "Name" => Ok(nm),
                            "Step" => Ok(stp),
                            "Bool" => Ok(z.bool_),
                            "Bitstring" => Ok(vm),
                            _ => Ok(ix),
                        });
                    }
                    v.push((c.clone(), fs));
                }
                cs.push(v);
            }
            let d = z.datatypes(&ns, &cs);
            syn.insert(S::C, d[0]);
            syn.insert(S::M, d[1]);
        }
        let mut insts = vec![("?undef".to_string(), vec![]), ("init".to_string(), vec![])];
        for s in &p.steps {
            if s.name == "init" {
                continue;
            }
            for t in tuples(s.params.len(), k) {
                insts.push((s.name.clone(), t));
            }
        }
        if insts.len() > 40 {
            return Err(format!("too many step instances ({})", insts.len()));
        }
        let mut names = vec![];
        let mut nf: Vec<_> = p.funs.iter().filter(|(_, (_, r))| r == "Name").collect();
        nf.sort();
        for (n, (a, _)) in nf {
            for t in tuples(a.len(), k) {
                names.push((n.clone(), t));
            }
        }
        let n = insts.len();
        let mut hap = vec![z.fls, z.tru];
        for i in 2..n {
            hap.push(z.cst(&format!("happens {}{:?}", insts[i].0, insts[i].1), z.bool_));
        }
        let mut ord = vec![vec![z.fls; n]; n];
        for i in 1..n {
            for j in i + 1..n {
                let a = if i == 1 { z.tru } else { z.cst(&format!("{}{:?} before {}{:?}", insts[i].0, insts[i].1, insts[j].0, insts[j].1), z.bool_) };
                ord[i][j] = a;
                ord[j][i] = z.not(a);
            }
        }
        for a in 2..n {
            for b in 2..n {
                for c in 2..n {
                    if a != b && b != c && a != c && (a < b || a < c) {
                        let h = z.and(&[ord[a][b], ord[b][c]]);
                        z.assert(z.imp(h, ord[a][c]));
                    }
                }
            }
        }
        let stepv: Vec<A> = (0..n).map(|i| z.cst(&format!("step{i}"), stp)).collect();
        let ixv: Vec<A> = (0..k).map(|i| z.cst(&format!("ix{i}"), ix)).collect();
        let namey: Vec<A> = (0..names.len()).map(|i| z.cst(&format!("name{i}"), nm)).collect();
        let namev: Vec<A> = (0..names.len()).map(|i| z.cst(&format!("nameval {}{:?}", names[i].0, names[i].1), vm)).collect();
        for v in [&stepv, &ixv, &namey] {
            z.assert(z.distinct(v));
        }
        let mut crypto = vec![];
        let mut nonce = false;
        for (n, fs, op) in &p.crypto {
            match (n.replace('_', "-").as_str(), fs.len()) {
                ("nonce", _) => nonce = true,
                ("euf-cma" | "uf-cma", 2) => crypto.push(Cr::Mac { mac: fs[0].clone(), ver: fs[1].clone(), hmac: op.iter().any(|x| x == "hmac") }),
                ("euf-cma" | "uf-cma", 3) => crypto.push(Cr::Sign { sign: fs[0].clone(), ver: fs[1].clone(), pk: fs[2].clone() }),
                ("int-ctxt", 3) => crypto.push(Cr::Enc { enc: fs[0].clone(), dec: fs[1].clone(), fail: fs[2].clone() }),
                _ => {}
            }
        }
        if nonce {
            z.assert(z.distinct(&namev));
        }
        let mut r = Ref { z, f, p, el: Elab::new(p), symbolic, k, depth, insts, names, hap, ord, stepv, ixv, namev, namey, sorts, syn, cm: vec![None; n], cc: vec![None; n], asg: vec![vec![]; n], crypto, nonce, defs: HashMap::new(), sks: HashMap::new(), splits: HashMap::new(), arena: vec![], omemo: HashMap::new(), cmemo: HashMap::new(), pool: vec![], facts: vec![], track: false, approx: false, cands: vec![], openc: vec![], evmemo: HashSet::new(), flags: HashSet::new(), in_def: 0, preds: vec![], loose, laws: vec![] };
        r.def_preds();
        r.contents()?;
        r.find_defs()?;
        Ok(r)
    }
    pub fn flag(&self, s: &str) -> bool {
        self.flags.contains(s)
    }
    pub fn set_flag(&mut self, s: &str) {
        self.flags.insert(s.into());
    }
    // ---------- T_ref
    fn contents(&mut self) -> R<()> {
        for e in 1..self.insts.len() {
            let (sn, t) = self.insts[e].clone();
            let user = self.p.steps.iter().find(|s| s.name == sn).cloned();
            let (m, c) = match &user {
                None => (atom("empty"), atom("true")),
                Some(_) => {
                    let a: Vec<Sx> = t.iter().map(|i| atom(&format!("#{i}"))).collect();
                    (self.content(&sn, &user, &a, true)?, self.content(&sn, &user, &a, false)?)
                }
            };
            let m = self.t(&m, &mut vec![], true, 0)?;
            let c = self.t(&c, &mut vec![], true, 0)?;
            self.cm[e] = Some(m.clone());
            self.cc[e] = Some(c.clone());
            if let Some(st) = &user {
                let a: Vec<Sx> = t.iter().map(|i| atom(&format!("#{i}"))).collect();
                for asg in st.asg.clone() {
                    let (bs, ca, val) = self.el.assignment(st, &asg, &a)?;
                    let vars: Vec<String> = bs.items().iter().map(|x| x.head().to_string()).collect();
                    for tp in tuples(vars.len(), self.k) {
                        let mut env: Env = vec![];
                        for (v, i) in vars.iter().zip(&tp) {
                            let g = self.ix(*i);
                            env.push((v.clone(), g));
                        }
                        let mut ci = vec![];
                        for x in &ca {
                            let g = self.t(x, &mut env, true, 0)?;
                            let K::El(al) = &g.k else { return Err("cell argument".into()) };
                            if al.len() != 1 {
                                return Err("cell argument is not a plain index".into());
                            }
                            ci.push(al[0].1);
                        }
                        let g = self.t(&val, &mut env, true, 0)?;
                        self.asg[e].push((asg.cell.clone(), ci, g));
                    }
                }
            }
        }
        for e in 1..self.insts.len() {
            let h = self.hap[e];
            let (m, c) = (self.cm[e].clone().unwrap(), self.cc[e].clone().unwrap());
            let (mv, cv, xv) = (self.macro_val("msg", S::M, e), self.macro_val("cond", S::C, e), self.macro_val("exec", S::C, e));
            let l = (self.z.imp(h, self.z.eq(mv, m.v)), self.z.imp(h, self.z.eq(cv, c.v)));
            self.law("unfold", "message", e, l.0);
            self.law("unfold", "condition", e, l.1);
            let mut all = vec![];
            for e2 in 1..self.insts.len() {
                let c2 = self.macro_val("cond", S::C, e2);
                all.push(self.z.imp(self.leq(e2, e), c2));
            }
            let x = self.z.and(&all);
            let l = self.z.imp(h, self.z.eq(xv, x));
            self.law("unfold", "exec", e, l);
            // memory
            let mut cells: Vec<_> = self.p.cells.iter().collect();
            cells.sort();
            for (c, (a, _)) in cells {
                for t in tuples(a.len(), self.k) {
                    let here = self.cell_val(c, &t, self.stepv[e]);
                    let w: Vec<Gp> = self.asg[e].iter().filter(|x| x.0 == *c && x.1 == t).map(|x| x.2.clone()).collect();
                    let want = match w.first() {
                        Some(g) => {
                            if w.len() > 1 {
                                return Err("two assignments to one cell in one step".into());
                            }
                            g.v
                        }
                        // before the trace starts a cell holds what it holds at init
                        None if e == 1 => self.cell_val(c, &t, self.stepv[0]),
                        None => {
                            let pr = self.predv(e);
                            self.cell_val(c, &t, pr)
                        }
                    };
                    let l = self.z.imp(h, self.z.eq(here, want));
                    self.law("cell", &format!("{c}{t:?}"), e, l);
                }
            }
        }
        Ok(())
    }
    fn law(&mut self, class: &'static str, what: &str, e: usize, a: A) {
        if self.loose {
            self.laws.push((class, format!("{what} at {}{:?}", self.insts[e].0, self.insts[e].1), a));
        } else {
            self.z.assert(a)
        }
    }
    /// do the emitted axioms `axs` of a class give all its laws? Ok(Some(law)): that one is not given
    pub fn gives(&mut self, class: &str, axs: &[&Sx]) -> R<Option<String>> {
        self.z.push();
        self.track = false;
        for a in axs {
            match self.t(a, &mut vec![], false, 1) {
                Ok(g) => self.z.assert(g.v),
                Err(e) => {
                    self.z.pop();
                    return Err(e);
                }
            }
        }
        let ls: Vec<(String, A)> = self.laws.iter().filter(|l| l.0 == class).map(|l| (l.1.clone(), l.2)).collect();
        let v: Vec<A> = ls.iter().map(|l| l.1).collect();
        let g = self.z.and(&v);
        self.z.assert(self.z.not(g));
        let r = match self.z.check() {
            Res::Unsat => Ok(None),
            Res::Unknown => Err("solver gave no answer".into()),
            Res::Sat => {
                let t = self.z.truth(&v);
                let bad = t.iter().position(|x| !x).map(|i| ls[i].0.clone()).unwrap_or_default();
                Ok(Some(format!("{bad} on the trace {}", self.explain())))
            }
        };
        self.z.pop();
        r
    }
    fn content(&self, sn: &str, user: &Option<Step>, a: &[Sx], msg: bool) -> R<Sx> {
        if sn == "init" {
            let st = user.as_ref().unwrap();
            return self.el.closed(if msg { &st.msg } else { &st.cond });
        }
        self.el.step_content(sn, a, msg)
    }
    fn macro_val(&mut self, m: &str, s: S, e: usize) -> A {
        let (d, r, v) = (self.sorts[&S::St], self.sorts[&s], self.stepv[e]);
        self.z.app(&format!("v:{m}"), &[d], r, &[v])
    }
    fn cell_val(&mut self, c: &str, t: &[usize], st: A) -> A {
        let mut d = vec![self.sorts[&S::Ix]; t.len()];
        d.push(self.sorts[&S::St]);
        let mut a: Vec<A> = t.iter().map(|i| self.ixv[*i]).collect();
        a.push(st);
        let r = self.sorts[&self.msort(&self.p.cells[c].1)];
        self.z.app(&format!("v:{c}"), &d, r, &a)
    }
    fn lt(&self, a: usize, b: usize) -> A {
        if a == 0 || b == 0 || a == b {
            return self.z.fls;
        }
        self.z.and(&[self.hap[a], self.hap[b], self.ord[a][b]])
    }
    fn leq(&self, a: usize, b: usize) -> A {
        if a == b {
            return self.hap[a];
        }
        self.lt(a, b)
    }
    fn pred_alts(&self, e: usize) -> Vec<(A, usize)> {
        if e == 0 || e == 1 {
            return vec![(self.z.tru, 0)];
        }
        self.preds[e].clone()
    }
    /// atoms "p is the timestamp just before e", defined by the order; a non-initial one always has some
    fn def_preds(&mut self) {
        let n = self.insts.len();
        self.preds = vec![vec![]; n];
        for e in 2..n {
            let mut v = vec![];
            for p in 1..n {
                if p == e {
                    continue;
                }
                let mut c = vec![self.lt(p, e)];
                for q in 1..n {
                    if q != p && q != e {
                        c.push(self.z.not(self.z.and(&[self.lt(p, q), self.lt(q, e)])));
                    }
                }
                let x = self.z.cst(&format!("just before {p} {e}"), self.z.bool_);
                self.z.assert(self.z.eq(x, self.z.and(&c)));
                v.push((x, p));
            }
            let any: Vec<A> = v.iter().map(|x| x.0).collect();
            self.z.assert(self.z.imp(self.hap[e], self.z.or(&any)));
            v.push((self.z.not(self.hap[e]), e));
            self.preds[e] = v;
        }
    }
    fn predv(&self, e: usize) -> A {
        self.altv(&self.pred_alts(e), &self.stepv)
    }
    fn altv(&self, al: &[(A, usize)], vs: &[A]) -> A {
        let mut it = al.iter().rev();
        let Some((_, l)) = it.next() else { return vs[0] };
        let mut r = vs[*l];
        for (g, e) in it {
            r = self.z.ite(*g, vs[*e], r);
        }
        r
    }
    fn msort(&self, s: &str) -> S {
        match s {
            "Bool" | "Condition" => S::C,
            "Message" => S::M,
            "Name" => S::N,
            "Step" => S::St,
            "Bitstring" => S::T,
            _ => S::Ix,
        }
    }
    // ---------- definitions the file itself gives to its own auxiliary symbols
    fn find_defs(&mut self) -> R<()> {
        let is_sk = |s: &str| s.contains("$sk_");
        for a in &self.f.axioms {
            let (vs, b) = strip_forall(&a.f);
            let vn: HashSet<&str> = vs.iter().map(|x| x.0.as_str()).collect();
            let head_of = |e: &Sx| -> Option<(String, Vec<String>)> {
                let e = if e.head() == "evaluate_cond" || e.head() == "evaluate_msg" { &e.args()[0] } else { e };
                let h = e.head();
                if ["ta$exists$", "ta$forall$", "ta$find_such_that$"].iter().any(|p| h.starts_with(p)) && e.args().iter().all(|x| vn.contains(x.head())) {
                    Some((h.to_string(), e.args().iter().map(|x| x.head().to_string()).collect()))
                } else {
                    None
                }
            };
            if a.section == "evaluate" && (b.head() == "=>" || b.head() == "=") && b.args().len() == 2 {
                if let Some((h, ps)) = head_of(&b.args()[0]) {
                    self.defs.insert(h, (ps, b.args()[1].clone()));
                    continue;
                }
            }
            if a.section == "evaluate" && b.mentions(&is_sk) {
                let mut d = vec![];
                flat(b, "or", &mut d);
                let fa: Vec<&&Sx> = d.iter().filter(|x| x.head() == "forall").collect();
                let rest: Vec<&&Sx> = d.iter().filter(|x| x.mentions(&is_sk)).collect();
                let bad = || format!("DEFECT: the choice made by a 'try find' is not constrained as a choice: {}", a.f);
                if fa.len() != 1 || rest.len() != 1 || d.len() != 2 {
                    return Err(bad());
                }
                let (ys, nc) = strip_forall(fa[0]);
                if nc.head() != "not" {
                    return Err(bad());
                }
                let mut m: HashMap<String, Sx> = HashMap::new();
                if !match_sk(&nc.args()[0], rest[0], &ys.iter().map(|x| x.0.clone()).collect(), &mut m) {
                    return Err(bad());
                }
                for (i, (y, _)) in ys.iter().enumerate() {
                    if let Some(s) = m.get(y) {
                        let ps = s.args().iter().map(|x| x.head().to_string()).collect();
                        self.sks.insert(s.head().to_string(), SkDef { params: ps, ys: ys.clone(), c: nc.args()[0].clone(), pos: i });
                    }
                }
            }
            if b.head() == "=>" && b.args()[0].head().ends_with("$split") {
                self.splits.insert(b.args()[0].head().to_string(), (b.args()[0].args()[0].head().to_string(), b.args()[1].clone()));
            }
        }
        Ok(())
    }
    // ---------- terms
    fn mk(&mut self, s: S, k: K, v: A, y: Option<A>) -> Gp {
        let g = Rc::new(G { s, k, v, y });
        self.arena.push(g.clone());
        if self.track && self.in_def == 0 && (s == S::M || s == S::C) {
            self.pool.push(g.clone());
        }
        g
    }
    fn b(&mut self, v: A, ch: Vec<Gp>) -> Gp {
        self.mk(S::B, K::Many(ch), v, None)
    }
    fn ix(&mut self, i: usize) -> Gp {
        let v = self.ixv[i];
        self.mk(S::Ix, K::El(vec![(self.z.tru, i)]), v, Some(v))
    }
    fn stp(&mut self, al: Vec<(A, usize)>) -> Gp {
        let v = self.altv(&al, &self.stepv);
        self.mk(S::St, K::El(al), v, Some(v))
    }
    fn nam(&mut self, al: Vec<(A, usize)>) -> Gp {
        let v = self.altv(&al, &self.namey);
        self.mk(S::N, K::El(al), v, Some(v))
    }
    fn inst(&mut self, e: usize) -> Gp {
        let h = self.hap[e];
        if h == self.z.tru {
            return self.stp(vec![(h, e)]);
        }
        self.stp(vec![(h, e), (self.z.not(h), 0)])
    }
    fn alts(g: &Gp) -> R<Vec<(A, usize)>> {
        match &g.k {
            K::El(v) => Ok(v.clone()),
            _ => Err("expected an element".into()),
        }
    }
    fn domain(&mut self, sort: &str) -> Option<Vec<(A, Gp)>> {
        match self.f.resolve(sort).as_str() {
            "Bool" | "Message" | "Condition" | "Bitstring" => None,
            "Step" => {
                let mut v = vec![];
                for e in 0..self.insts.len() {
                    let g = self.stp(vec![(self.z.tru, e)]);
                    v.push((if e == 0 { self.z.tru } else { self.hap[e] }, g));
                }
                Some(v)
            }
            "Name" => Some((0..self.names.len()).map(|i| (self.z.tru, self.nam(vec![(self.z.tru, i)]))).collect()),
            _ => Some((0..self.k).map(|i| (self.z.tru, self.ix(i))).collect()),
        }
    }
    fn skolem(&mut self, sort: &str, rf: bool) -> Gp {
        let s = match (sort, self.symbolic) {
            ("Bool", false) => S::B,
            ("Bool", true) => S::B,
            ("Message", _) => S::M,
            ("Condition", _) => S::C,
            _ => S::T,
        };
        let _ = rf;
        let so = self.sorts[&s];
        if self.symbolic && (s == S::M || s == S::C) {
            let y = self.z.fresh("sk", self.syn[&s]);
            let v = self.ev(s, y);
            let g = self.mk(s, K::Sk, v, Some(y));
            self.cands.push(g.clone());
            g
        } else {
            let v = self.z.fresh("sk", so);
            let g = self.mk(s, K::Sk, v, None);
            self.cands.push(g.clone());
            g
        }
    }
    fn ev(&mut self, s: S, y: A) -> A {
        let (d, r) = (self.syn[&s], self.sorts[&s]);
        self.z.app(if s == S::M { "ev:m" } else { "ev:c" }, &[d], r, &[y])
    }
    /// a term built by function `h` of the term algebra
    fn tapp(&mut self, h: &str, args: Vec<Gp>, s: S, v: A) -> R<Gp> {
        let mut y = None;
        if self.symbolic && self.z.has_fn(&format!("s:{h}")) && args.iter().all(|a| a.y.is_some()) {
            let a: Vec<A> = args.iter().map(|a| a.y.unwrap()).collect();
            let t = self.z.papp(&format!("s:{h}"), &a);
            if self.evmemo.insert(t) {
                let e = self.ev(s, t);
                self.z.assert(self.z.eq(e, v));
            }
            y = Some(t);
        }
        Ok(self.mk(s, K::App(h.to_string(), args), v, y))
    }
    /// reference fact about a user function application
    fn uapp(&mut self, h: &str, args: Vec<Gp>, dom: &[String], ret: &str) -> R<Gp> {
        let s = self.msort(ret);
        if dom.len() != args.len() {
            return Err(format!("{h}: arity"));
        }
        if s == S::Ix || s == S::St {
            return Err(format!("function {h} returns an index or a timestamp"));
        }
        let d: Vec<A> = args.iter().map(|a| self.sorts[&a.s]).collect();
        let v: Vec<A> = args.iter().map(|a| a.v).collect();
        let r = self.sorts[&s];
        let v = self.z.app(&format!("v:{h}"), &d, r, &v);
        let g = self.tapp(h, args, s, v)?;
        if self.track && self.in_def == 0 {
            self.crypto_fact(&g)?;
        }
        Ok(g)
    }
    // ---------- evaluation of formulas and terms; `rf`: the expression is from the reference (source) side
    pub fn t(&mut self, e: &Sx, env: &mut Env, rf: bool, pol: i8) -> R<Gp> {
        let h = e.head();
        let a = e.args();
        if e.is_atom() {
            if let Some((_, g)) = env.iter().rev().find(|(n, _)| n == h) {
                return Ok(g.clone());
            }
            if let Some(i) = h.strip_prefix('#') {
                let i = i.parse().map_err(|_| "bad index")?;
                return Ok(self.ix(i));
            }
        }
        match h {
            "true" => return Ok(self.b(self.z.tru, vec![])),
            "false" => return Ok(self.b(self.z.fls, vec![])),
            "and" | "or" => {
                let g = a.iter().map(|x| self.t(x, env, rf, pol)).collect::<R<Vec<_>>>()?;
                let v: Vec<A> = g.iter().map(|x| x.v).collect();
                let v = if h == "and" { self.z.and(&v) } else { self.z.or(&v) };
                return Ok(self.b(v, g));
            }
            "not" => {
                let g = self.t(&a[0], env, rf, -pol)?;
                let v = self.z.not(g.v);
                return Ok(self.b(v, vec![g]));
            }
            "=>" => {
                if a.len() > 2 {
                    let r = app("=>", vec![a[0].clone(), app("=>", a[1..].to_vec())]);
                    return self.t(&r, env, rf, pol);
                }
                let x = self.t(&a[0], env, rf, -pol)?;
                let y = self.t(&a[1], env, rf, pol)?;
                let v = self.z.imp(x.v, y.v);
                return Ok(self.b(v, vec![x, y]));
            }
            "=" | "distinct" | "xor" => {
                let neg = h != "=";
                if h == "=" && a.len() > 2 {
                    let ps = a.windows(2).map(|w| app("=", w.to_vec())).collect();
                    return self.t(&app("and", ps), env, rf, pol);
                }
                if a.len() != 2 {
                    return Err(format!("{h} on {} arguments", a.len()));
                }
                let q = |x: &Sx| x.mentions(&|s| s == "forall" || s == "exists");
                if pol != 0 && (q(&a[0]) || q(&a[1])) {
                    let p = if neg { -pol } else { pol };
                    let ap = self.t(&a[0], env, rf, p)?;
                    if self.z.sort_of(ap.v) != self.z.bool_ {
                        let x = self.t(&a[0], env, rf, 0)?;
                        let y = self.t(&a[1], env, rf, 0)?;
                        let v = self.eqv(&x, &y, rf)?;
                        let v = if neg { self.z.not(v) } else { v };
                        return Ok(self.mk(S::B, K::Eq(vec![x, y]), v, None));
                    }
                    let an = self.t(&a[0], env, rf, -p)?;
                    let (bp, bn) = (self.t(&a[1], env, rf, p)?, self.t(&a[1], env, rf, -p)?);
                    let mut v = self.z.and(&[self.z.imp(an.v, bp.v), self.z.imp(bn.v, ap.v)]);
                    if neg {
                        v = self.z.not(v)
                    }
                    return Ok(self.b(v, vec![ap, bp]));
                }
                let x = self.t(&a[0], env, rf, 0)?;
                let y = self.t(&a[1], env, rf, 0)?;
                let mut v = self.eqv(&x, &y, rf)?;
                if neg {
                    v = self.z.not(v)
                }
                return Ok(self.mk(S::B, K::Eq(vec![x, y]), v, None));
            }
            "ite" => {
                let c = self.t(&a[0], env, rf, 0)?;
                let x = self.t(&a[1], env, rf, pol)?;
                let y = self.t(&a[2], env, rf, pol)?;
                let v = self.z.ite(c.v, x.v, y.v);
                let s = x.s;
                return Ok(self.mk(s, K::Many(vec![c, x, y]), v, None));
            }
            "find" => {
                let bs: Vec<(String, String)> = a[0].items().iter().map(|b| (b.head().to_string(), b.args()[0].head().to_string())).collect();
                let e = self.t(&a[3], env, rf, 0)?;
                let n = env.len();
                let mut alts = vec![];
                let mut ch = vec![e.clone()];
                for (g, vals) in self.assignments(&bs)? {
                    for (x, b) in vals.into_iter().zip(&bs) {
                        env.push((b.0.clone(), x));
                    }
                    let c = self.t(&a[1], env, rf, 0)?;
                    let t = self.t(&a[2], env, rf, 0)?;
                    env.truncate(n);
                    alts.push((self.z.and(&[g, c.v]), t.v));
                    ch.push(c);
                    ch.push(t);
                }
                let mut v = e.v;
                for (c, t) in alts.into_iter().rev() {
                    v = self.z.ite(c, t, v);
                }
                return Ok(self.mk(S::M, K::Many(ch), v, None));
            }
            "forall" | "exists" => return self.quant(e, 0, env, rf, pol),
            "happens" => {
                let g = self.t(&a[0], env, rf, 0)?;
                let v: Vec<A> = Self::alts(&g)?.iter().map(|(c, e)| self.z.and(&[*c, self.hap[*e]])).collect();
                let v = self.z.or(&v);
                return Ok(self.b(v, vec![]));
            }
            "lt" | "leq" | "gt" => {
                let x = self.t(&a[0], env, rf, 0)?;
                let y = self.t(&a[1], env, rf, 0)?;
                let mut v = vec![];
                for (c, i) in Self::alts(&x)? {
                    for (d, j) in Self::alts(&y)? {
                        let o = match h {
                            "lt" => self.lt(i, j),
                            "leq" => self.leq(i, j),
                            _ => self.lt(j, i),
                        };
                        v.push(self.z.and(&[c, d, o]));
                    }
                }
                let v = self.z.or(&v);
                return Ok(self.b(v, vec![]));
            }
            "pred" => {
                let x = self.t(&a[0], env, rf, 0)?;
                let mut v: Vec<(A, usize)> = vec![];
                for (c, i) in Self::alts(&x)? {
                    for (d, j) in self.pred_alts(i) {
                        let g = self.z.and(&[c, d]);
                        if g == self.z.fls {
                            continue;
                        }
                        match v.iter_mut().find(|x| x.1 == j) {
                            Some(x) => x.0 = self.z.or(&[x.0, g]),
                            None => v.push((g, j)),
                        }
                    }
                }
                return Ok(self.stp(v));
            }
            "cast$Message$name" => {
                let n = self.t(&a[0], env, rf, 0)?;
                let v = self.altv(&Self::alts(&n)?, &self.namev.clone());
                return self.tapp(h, vec![n], S::M, v);
            }
            "evaluate_msg" | "evaluate_cond" => {
                let x = self.t(&a[0], env, rf, pol)?;
                let s = if h == "evaluate_msg" { S::T } else { S::B };
                return Ok(self.mk(s, K::Many(vec![x.clone()]), x.v, None));
            }
            "msg" | "cond" | "exec" | "input" if a.len() == 1 => {
                let g = self.t(&a[0], env, rf, 0)?;
                let s = if h == "msg" || h == "input" { S::M } else { S::C };
                let (d, r) = (self.sorts[&S::St], self.sorts[&s]);
                let v = self.z.app(&format!("v:{h}"), &[d], r, &[g.v]);
                return self.tapp(h, vec![g], s, v);
            }
            "empty" if a.is_empty() => {
                let v = self.z.cst("v:empty", self.sorts[&S::M]);
                return self.tapp(h, vec![], S::M, v);
            }
            _ => {}
        }
        if h == "init" || self.p.steps.iter().any(|s| s.name == h) {
            let args = a.iter().map(|x| self.t(x, env, rf, 0)).collect::<R<Vec<_>>>()?;
            let mut v = vec![];
            for (g, t) in self.cross(&args)? {
                let e = self.insts.iter().position(|x| x.0 == h && x.1 == t).ok_or_else(|| format!("no step {h}"))?;
                v.push((g, e));
            }
            if v.len() == 1 {
                return Ok(self.inst(v[0].1));
            }
            let mut al = vec![];
            for (g, e) in v {
                al.push((self.z.and(&[g, self.hap[e]]), e));
            }
            let rest: Vec<A> = al.iter().map(|x| self.z.not(x.0)).collect();
            al.push((self.z.and(&rest), 0));
            return Ok(self.stp(al));
        }
        if TA.contains(&h) {
            let g = a.iter().map(|x| self.t(x, env, rf, 0)).collect::<R<Vec<_>>>()?;
            let v: Vec<A> = g.iter().map(|x| x.v).collect();
            let z = &self.z;
            let (s, v) = match h {
                "ta$and" => (S::C, z.and(&v)),
                "ta$or" => (S::C, z.or(&v)),
                "ta$not" => (S::C, z.not(v[0])),
                "ta$implies" => (S::C, z.imp(v[0], v[1])),
                "ta$iff" | "ta$=" => (S::C, z.eq(v[0], v[1])),
                "ta$true" => (S::C, z.tru),
                "ta$false" => (S::C, z.fls),
                _ => (S::M, z.ite(v[0], v[1], v[2])),
            };
            return self.tapp(h, g, s, v);
        }
        if h.contains("$subterm_") {
            let x = self.t(&a[0], env, rf, 0)?;
            let y = self.t(&a[1], env, rf, 0)?;
            let v = self.subterm(h, &x, &y)?;
            return Ok(self.b(v, vec![]));
        }
        if h.ends_with("$split") {
            let x = self.t(&a[0], env, rf, 0)?;
            let (p, b) = self.splits.get(h).cloned().ok_or("split without definition")?;
            let g = self.t(&b, &mut vec![(p, x)], false, 0)?;
            return Ok(g);
        }
        if h.contains("$sk_") {
            return self.skfun(h, a, env);
        }
        if h.starts_with("ta$exists$") || h.starts_with("ta$forall$") || h.starts_with("ta$find_such_that$") {
            let g = a.iter().map(|x| self.t(x, env, rf, 0)).collect::<R<Vec<_>>>()?;
            let Some((ps, body)) = self.defs.get(h).cloned() else { return Err(format!("{h} has no definition in the file")) };
            if ps.len() != g.len() {
                return Err(format!("{h}: arity"));
            }
            let mut e2: Env = ps.into_iter().zip(g.iter().cloned()).collect();
            self.in_def += 1;
            let d = self.t(&body, &mut e2, false, 0);
            self.in_def -= 1;
            let d = d?;
            let s = if h.starts_with("ta$find") { S::M } else { S::C };
            // occurrences: the arguments and the definition
            let mut ch = g.clone();
            ch.push(d.clone());
            let mut y = None;
            if self.symbolic && self.z.has_fn(&format!("s:{h}")) {
                let aa: Option<Vec<A>> = g.iter().map(|a| a.y).collect();
                if let Some(aa) = aa {
                    let t = self.z.papp(&format!("s:{h}"), &aa);
                    if self.evmemo.insert(t) {
                        let e = self.ev(s, t);
                        self.z.assert(self.z.eq(e, d.v));
                    }
                    y = Some(t);
                }
            }
            return Ok(self.mk(s, K::Many(ch), d.v, y));
        }
        let args = a.iter().map(|x| self.t(x, env, rf, 0)).collect::<R<Vec<_>>>()?;
        if let Some(fb) = h.strip_prefix("eval$") {
            let Some((_, r)) = self.p.funs.get(fb) else {
                if fb == "empty" {
                    let v = self.z.cst("v:empty", self.sorts[&S::M]);
                    return Ok(self.mk(S::T, K::Many(vec![]), v, None));
                }
                return Err(format!("unknown evaluation function {h}"));
            };
            let s = self.msort(r);
            let d: Vec<A> = args.iter().map(|a| self.sorts[&a.s]).collect();
            let v: Vec<A> = args.iter().map(|a| a.v).collect();
            let r = self.sorts[&s];
            let v = self.z.app(&format!("v:{fb}"), &d, r, &v);
            return Ok(self.mk(if s == S::M { S::T } else { S::B }, K::Many(args), v, None));
        }
        if let Some((dom, r)) = self.p.funs.get(h) {
            if r == "Name" {
                let mut v = vec![];
                for (g, t) in self.cross(&args)? {
                    let e = self.names.iter().position(|x| x.0 == h && x.1 == t).ok_or_else(|| format!("no name {h}"))?;
                    v.push((g, e));
                }
                return Ok(self.nam(v));
            }
            let (dom, r) = (dom.clone(), r.clone());
            return self.uapp(h, args, &dom, &r);
        }
        if let Some((dom, r)) = self.p.cells.get(h) {
            let (dom, r) = (dom.clone(), r.clone());
            if args.len() != dom.len() + 1 {
                return Err(format!("cell {h} read with {} arguments", args.len()));
            }
            let d: Vec<A> = args.iter().map(|a| self.sorts[&a.s]).collect();
            let v: Vec<A> = args.iter().map(|a| a.v).collect();
            let s = self.msort(&r);
            let ro = self.sorts[&s];
            let v = self.z.app(&format!("v:{h}"), &d, ro, &v);
            return self.tapp(h, args, s, v);
        }
        Err(format!("symbol {h} has no reference meaning"))
    }
    fn eqv(&mut self, x: &Gp, y: &Gp, rf: bool) -> R<A> {
        if let (K::El(p), K::El(q)) = (&x.k, &y.k) {
            if x.s != y.s {
                return Err("equality between different sorts".into());
            }
            let mut v = vec![];
            for (c, i) in p {
                for (d, j) in q {
                    if i == j {
                        v.push(self.z.and(&[*c, *d]));
                    }
                }
            }
            return Ok(self.z.or(&v));
        }
        if self.symbolic && !rf && (x.s == S::M || x.s == S::C) && x.s == y.s {
            let (Some(p), Some(q)) = (x.y, y.y) else { return Err("syntactic equality on a term without syntax".into()) };
            return Ok(self.z.eq(p, q));
        }
        if self.track && self.in_def == 0 {
            self.hmac_fact(x, y)?;
            self.hmac_fact(y, x)?;
        }
        Ok(self.z.eq(x.v, y.v))
    }
    fn cross(&self, args: &[Gp]) -> R<Vec<(A, Vec<usize>)>> {
        let mut r = vec![(self.z.tru, vec![])];
        for g in args {
            let al = Self::alts(g)?;
            let mut n = vec![];
            for (c, t) in &r {
                for (d, i) in &al {
                    let mut t: Vec<usize> = t.clone();
                    t.push(*i);
                    n.push((self.z.and(&[*c, *d]), t));
                }
            }
            r = n;
        }
        Ok(r)
    }
    fn assignments(&mut self, bs: &[(String, String)]) -> R<Vec<(A, Vec<Gp>)>> {
        let mut r = vec![(self.z.tru, vec![])];
        for (_, s) in bs {
            let d = self.domain(s).ok_or("choice over messages")?;
            let mut n = vec![];
            for (c, t) in &r {
                for (g, x) in &d {
                    let mut t: Vec<Gp> = t.clone();
                    t.push(x.clone());
                    n.push((self.z.and(&[*c, *g]), t));
                }
            }
            r = n;
        }
        Ok(r)
    }
    fn skfun(&mut self, h: &str, a: &[Sx], env: &mut Env) -> R<Gp> {
        let args = a.iter().map(|x| self.t(x, env, false, 0)).collect::<R<Vec<_>>>()?;
        let Some(d) = self.sks.get(h).cloned() else {
            return Ok(self.ix(0));
        };
        if d.ys.iter().any(|y| matches!(self.msort(&y.1), S::St | S::N | S::M | S::C)) {
            return Err("choice over something else than indices".into());
        }
        let mut e2: Env = d.params.iter().cloned().zip(args).collect();
        let n = e2.len();
        let mut alts: Vec<(A, usize)> = vec![];
        let mut none = vec![];
        self.in_def += 1;
        for t in tuples(d.ys.len(), self.k) {
            for (y, i) in d.ys.iter().zip(&t) {
                let g = self.ix(*i);
                e2.push((y.0.clone(), g));
            }
            let c = self.t(&d.c, &mut e2, false, 0)?;
            e2.truncate(n);
            let mut g = none.clone();
            g.push(c.v);
            let g = self.z.and(&g);
            none.push(self.z.not(c.v));
            match alts.iter_mut().find(|x| x.1 == t[d.pos]) {
                Some(x) => x.0 = self.z.or(&[x.0, g]),
                None => alts.push((g, t[d.pos])),
            }
        }
        self.in_def -= 1;
        let g = self.z.and(&none);
        match alts.iter_mut().find(|x| x.1 == 0) {
            Some(x) => x.0 = self.z.or(&[x.0, g]),
            None => alts.push((g, 0)),
        }
        let v = self.altv(&alts, &self.ixv.clone());
        Ok(self.mk(S::Ix, K::El(alts), v, Some(v)))
    }
    fn quant(&mut self, e: &Sx, from: usize, env: &mut Env, rf: bool, pol: i8) -> R<Gp> {
        let fa = e.head() == "forall";
        let bs = e.args()[0].items();
        if from == bs.len() {
            return self.t(&e.args()[1], env, rf, pol);
        }
        if from == 0 {
            // exists over a disjunction, forall over a conjunction
            let body = &e.args()[1];
            if body.head() == if fa { "and" } else { "or" } && !body.args().is_empty() {
                let mut vs = vec![];
                let mut ch = vec![];
                for b in body.args() {
                    let r = self.quant(&app(e.head(), vec![e.args()[0].clone(), b.clone()]), 0, env, rf, pol)?;
                    vs.push(r.v);
                    ch.push(r);
                }
                let v = if fa { self.z.and(&vs) } else { self.z.or(&vs) };
                return Ok(self.b(v, ch));
            }
        }
        let (v, s) = (bs[from].head().to_string(), bs[from].args()[0].head().to_string());
        let n = env.len();
        if let Some(d) = self.domain(&s) {
            if !e.args()[1].mentions(&|y| y == v) && d.iter().any(|x| x.0 == self.z.tru) {
                let x = d.into_iter().find(|x| x.0 == self.z.tru).unwrap();
                env.push((v, x.1));
                let r = self.quant(e, from + 1, env, rf, pol);
                env.truncate(n);
                return r;
            }
            let mut vs = vec![];
            let mut ch = vec![];
            for (g, x) in d {
                env.push((v.clone(), x));
                let r = self.quant(e, from + 1, env, rf, pol);
                env.truncate(n);
                let r = r?;
                vs.push(if fa { self.z.imp(g, r.v) } else { self.z.and(&[g, r.v]) });
                ch.push(r);
            }
            let v = if fa { self.z.and(&vs) } else { self.z.or(&vs) };
            return Ok(self.b(v, ch));
        }
        let s = self.f.resolve(&s);
        if pol == 0 {
            return Err("a quantifier over messages in a place without polarity".into());
        }
        if (fa && pol < 0) || (!fa && pol > 0) {
            let g = self.skolem(&s, rf);
            env.push((v, g));
            let r = self.quant(e, from + 1, env, rf, pol);
            env.truncate(n);
            return r;
        }
        self.approx = true;
        let mut c: Vec<Gp> = vec![];
        let so = match s.as_str() {
            "Message" => S::M,
            "Condition" => S::C,
            "Bool" => S::B,
            _ => S::T,
        };
        self.one_point(&v, so, &e.args()[1], env, rf, &mut c, &bs[from + 1..])?;
        for x in self.cands.clone() {
            if x.s == so || (so == S::B && x.s == S::C) {
                c.push(x)
            }
        }
        if so == S::M && c.is_empty() {
            c.push(self.skolem("Message", rf));
        }
        if so == S::B || (so == S::C && !self.symbolic) {
            for b in [self.z.tru, self.z.fls] {
                c.push(self.mk(so, K::Sk, b, None));
            }
        }
        let mut seen = HashSet::new();
        let mut vs = vec![];
        let mut ch = vec![];
        for x in c {
            if !seen.insert((x.v, x.y)) {
                continue;
            }
            env.push((v.clone(), x));
            let r = self.quant(e, from + 1, env, rf, pol);
            env.truncate(n);
            let r = r?;
            vs.push(r.v);
            ch.push(r);
        }
        let v = if fa { self.z.and(&vs) } else { self.z.or(&vs) };
        Ok(self.b(v, ch))
    }
    /// ground instances of the terms the variable is equated with
    fn one_point(&mut self, x: &str, s: S, e: &Sx, env: &mut Env, rf: bool, out: &mut Vec<Gp>, later: &[Sx]) -> R<()> {
        if e.is_atom() || !e.mentions(&|y| y == x) {
            return Ok(());
        }
        let n = env.len();
        if !later.is_empty() {
            // binders of the same quantifier after x: only finite ones are expanded
            let b = &later[0];
            let (v, so) = (b.head().to_string(), b.args()[0].head().to_string());
            if let Some(d) = self.domain(&so) {
                for (_, g) in d {
                    env.push((v.clone(), g));
                    self.one_point(x, s, e, env, rf, out, &later[1..])?;
                    env.truncate(n);
                }
                return Ok(());
            }
            return self.one_point(x, s, e, env, rf, out, &later[1..]);
        }
        match e.head() {
            "forall" | "exists" => {
                let bs: Vec<Sx> = e.args()[0].items().to_vec();
                if bs.iter().any(|b| b.head() == x) {
                    return Ok(());
                }
                let body = e.args()[1].clone();
                self.one_point(x, s, &body, env, rf, out, &bs)?;
            }
            "=" => {
                let a = e.args();
                for (l, r) in [(&a[0], &a[1]), (&a[1], &a[0])] {
                    let strip = |q: &Sx| -> Sx { if q.head() == "evaluate_msg" || q.head() == "evaluate_cond" { q.args()[0].clone() } else { q.clone() } };
                    let (l, r) = (strip(l), strip(r));
                    if l.is_atom() && l.head() == x && !r.mentions(&|y| y == x) {
                        let tr = self.track;
                        let save = self.facts.len();
                        if let Ok(g) = self.t(&r, env, rf, 0) {
                            if g.s == s {
                                out.push(g)
                            }
                        }
                        let _ = (tr, save);
                    }
                }
                for y in a {
                    self.one_point(x, s, y, env, rf, out, &[])?;
                }
            }
            h if h.contains("$subterm_") && h.contains("_main") => {
                // honest computations reachable in the second argument, by the position of x in the first
                let tg = e.args()[1].clone();
                let pos = if e.args()[0].is_atom() { None } else { e.args()[0].args().iter().position(|y| y.is_atom() && y.head() == x) };
                let hd = if e.args()[0].is_atom() { String::new() } else { e.args()[0].head().to_string() };
                if let Ok(g) = self.t(&tg, env, rf, 0) {
                    for c in 0..self.crypto.len() {
                        for (_, m) in self.honest(&g, c, self.depth).iter() {
                            if let K::App(mf, a) = &m.k {
                                for (p, y) in a.iter().enumerate() {
                                    if y.s == s && (pos.is_none() || (pos == Some(p) && *mf == hd)) {
                                        out.push(y.clone())
                                    }
                                }
                            }
                        }
                    }
                    for a in &self.openc {
                        for (p, y) in a.iter().enumerate() {
                            if let Some(y) = y {
                                if y.s == s && (pos.is_none() || pos == Some(p)) {
                                    out.push(y.clone())
                                }
                            }
                        }
                    }
                }
            }
            _ => {
                for y in e.args() {
                    self.one_point(x, s, y, env, rf, out, &[])?;
                }
            }
        }
        Ok(())
    }
    // ---------- occurrences
    fn key_pos(&self, mode: Mode, f: &str, i: usize, arg: &Gp) -> bool {
        let named = matches!(&arg.k, K::App(h, _) if h == "cast$Message$name");
        if !named {
            return false;
        }
        match mode {
            Mode::All => false,
            Mode::Key(c) => match &self.crypto[c] {
                Cr::Mac { mac, ver, .. } => (f == mac && i == 1) || (f == ver && i == 2),
                Cr::Sign { sign, pk, .. } => (f == sign && i == 1) || (f == pk && i == 0),
                Cr::Enc { enc, dec, .. } => (f == enc && i == 2) || (f == dec && i == 1),
            },
            Mode::Rand(c) => match &self.crypto[c] {
                Cr::Enc { enc, .. } => f == enc && i == 1,
                _ => false,
            },
        }
    }
    fn occ(&mut self, g: &Gp, mode: Mode, d: usize) -> Rc<Vec<A>> {
        let key = (Rc::as_ptr(g), mode, d);
        if let Some(r) = self.omemo.get(&key) {
            return r.clone();
        }
        let n = self.names.len();
        let mut r = vec![vec![]; n];
        let add = |r: &mut Vec<Vec<A>>, z: &Z, c: A, o: &[A]| {
            for i in 0..n {
                let x = z.and(&[c, o[i]]);
                if x != z.fls {
                    r[i].push(x)
                }
            }
        };
        match &g.k {
            K::El(al) => {
                if g.s == S::N {
                    for (c, i) in al {
                        r[*i].push(*c)
                    }
                }
            }
            K::Many(ch) | K::Eq(ch) => {
                for c in ch {
                    let o = self.occ(c, mode, d);
                    add(&mut r, &self.z, self.z.tru, &o);
                }
            }
            K::Sk => {
                if g.s == S::M || g.s == S::C {
                    let so = g.y.map(|_| self.syn[&g.s]).unwrap_or(self.sorts[&g.s]);
                    let dom = [self.sorts[&S::N], so];
                    let b = self.z.bool_;
                    for i in 0..n {
                        let a = [self.namey[i], g.y.unwrap_or(g.v)];
                        let x = self.z.app(&format!("occ:{mode:?}:{:?}", g.s), &dom, b, &a);
                        r[i].push(x)
                    }
                }
            }
            K::App(f, args) => {
                let cell = self.p.cells.contains_key(f);
                if f == "msg" || f == "cond" || f == "input" || f == "exec" || cell {
                    if d > 0 {
                        let al = Self::alts(args.last().unwrap()).unwrap();
                        for (c, e) in al {
                            if e == 0 {
                                continue;
                            }
                            for (gd, t) in self.unfold(f, args, e) {
                                let cg = self.z.and(&[c, gd]);
                                if cg == self.z.fls {
                                    continue;
                                }
                                let o = self.occ(&t, mode, d - 1);
                                add(&mut r, &self.z, cg, &o);
                            }
                        }
                    }
                } else {
                    for (i, a) in args.iter().enumerate() {
                        if self.key_pos(mode, f, i, a) {
                            continue;
                        }
                        let o = self.occ(a, mode, d);
                        add(&mut r, &self.z, self.z.tru, &o);
                    }
                }
            }
        }
        let r: Vec<A> = r.into_iter().map(|v| self.z.or(&v)).collect();
        let r = Rc::new(r);
        self.omemo.insert(key, r.clone());
        r
    }
    /// what a macro at timestamp `e` is computed from
    fn unfold(&mut self, f: &str, args: &[Gp], e: usize) -> Vec<(A, Gp)> {
        let mut v = vec![];
        let n = self.insts.len();
        match f {
            "msg" => v.push((self.hap[e], self.cm[e].clone().unwrap())),
            "cond" => v.push((self.hap[e], self.cc[e].clone().unwrap())),
            "input" => {
                for e2 in 1..n {
                    let g = self.lt(e2, e);
                    if g != self.z.fls {
                        v.push((g, self.cm[e2].clone().unwrap()));
                        v.push((g, self.cc[e2].clone().unwrap()));
                    }
                }
            }
            "exec" => {
                for e2 in 1..n {
                    let g = self.leq(e2, e);
                    v.push((g, self.cc[e2].clone().unwrap()));
                }
            }
            c => {
                let ix = self.cross(&args[..args.len() - 1]).unwrap();
                for e2 in 1..n {
                    let g = self.leq(e2, e);
                    for (cn, t, val) in self.asg[e2].clone() {
                        if cn == *c {
                            for (gd, t2) in &ix {
                                if *t2 == t {
                                    v.push((self.z.and(&[g, *gd]), val.clone()));
                                }
                            }
                        }
                    }
                }
            }
        }
        v
    }
    /// honest applications of the protected primitive that a term is computed from
    fn honest(&mut self, g: &Gp, c: usize, d: usize) -> Rc<Vec<(A, Gp)>> {
        let key = (Rc::as_ptr(g), c, d);
        if let Some(r) = self.cmemo.get(&key) {
            return r.clone();
        }
        let prim = match &self.crypto[c] {
            Cr::Mac { mac, .. } => mac.clone(),
            Cr::Sign { sign, .. } => sign.clone(),
            Cr::Enc { enc, .. } => enc.clone(),
        };
        let mut r: Vec<(A, Gp)> = vec![];
        match &g.k {
            K::Many(ch) => {
                for x in ch {
                    r.extend(self.honest(x, c, d).iter().cloned())
                }
            }
            K::Eq(ch) => self.honest_eq(ch, c, d, &prim, &mut r),
            K::App(f, ch) if f == "ta$=" => self.honest_eq(ch, c, d, &prim, &mut r),
            K::App(f, args) => {
                let cell = self.p.cells.contains_key(f);
                if f == "msg" || f == "cond" || f == "input" || f == "exec" || cell {
                    if d > 0 {
                        let al = Self::alts(args.last().unwrap()).unwrap();
                        for (cg, e) in al {
                            if e == 0 {
                                continue;
                            }
                            for (gd, t) in self.unfold(f, args, e) {
                                let cg = self.z.and(&[cg, gd]);
                                if cg == self.z.fls {
                                    continue;
                                }
                                for (h, m) in self.honest(&t, c, d - 1).iter() {
                                    r.push((self.z.and(&[cg, *h]), m.clone()));
                                }
                            }
                        }
                    }
                } else {
                    if *f == prim {
                        r.push((self.z.tru, g.clone()));
                    }
                    // verifying a hash under its own key amounts to comparing the messages: nobody computes it
                    let mut rest: &[Gp] = args;
                    if let (Cr::Mac { ver, hmac, .. }, Some(K::App(h, ma))) = (self.crypto[c].clone(), args.first().map(|x| &x.k)) {
                        if *f == ver && *h == prim {
                            rest = &args[1..];
                            for a in ma {
                                r.extend(self.honest(a, c, d).iter().cloned())
                            }
                            let same = match (Self::name_arg(&ma[1]), Self::name_arg(&args[2])) {
                                _ if hmac => self.z.tru,
                                (Some(a), Some(b)) => self.same(&a, &b),
                                _ => self.z.fls,
                            };
                            let other = self.z.not(same);
                            r.push((other, args[0].clone()));
                        }
                    }
                    for a in rest {
                        r.extend(self.honest(a, c, d).iter().cloned())
                    }
                }
            }
            _ => {}
        }
        let mut seen = HashSet::new();
        r.retain(|(a, m)| *a != self.z.fls && seen.insert((*a, Rc::as_ptr(m))));
        let r = Rc::new(r);
        self.cmemo.insert(key, r.clone());
        r
    }
    /// hashes on top of a comparison are not computed by anyone when the hash is an hmac
    fn honest_eq(&mut self, ch: &[Gp], c: usize, d: usize, prim: &str, r: &mut Vec<(A, Gp)>) {
        let hmac = matches!(&self.crypto[c], Cr::Mac { hmac: true, .. });
        for x in ch {
            let mut y = x;
            while let (K::Many(v), S::T) = (&y.k, y.s) {
                if v.len() != 1 {
                    break;
                }
                y = &v[0];
            }
            match &y.k {
                K::App(f, args) if hmac && f == prim => {
                    for a in args {
                        r.extend(self.honest(a, c, d).iter().cloned())
                    }
                }
                _ => r.extend(self.honest(x, c, d).iter().cloned()),
            }
        }
    }
    /// messages without structure inside a term
    fn opaque(&self, g: &Gp, out: &mut Vec<Gp>) {
        match &g.k {
            K::Sk => {
                if g.s == S::M || g.s == S::C {
                    out.push(g.clone())
                }
            }
            K::App(_, a) | K::Many(a) | K::Eq(a) => {
                for x in a {
                    self.opaque(x, out)
                }
            }
            _ => {}
        }
    }
    fn subterm(&mut self, h: &str, x: &Gp, y: &Gp) -> R<A> {
        let (sort, kind) = h.split_once('$').ok_or("subterm name")?;
        let kind = kind.split_once("$subterm_").ok_or("subterm name")?.1;
        if !["Message", "Condition", "Name"].contains(&sort) {
            return Ok(self.z.fls);
        }
        let find = |s: &Self, p: &dyn Fn(&Cr) -> bool| s.crypto.iter().position(|c| p(c));
        let c = if kind.starts_with("uf_cma") {
            find(self, &|c| matches!(c, Cr::Mac { .. }))
        } else if kind.starts_with("euf_cma") {
            find(self, &|c| matches!(c, Cr::Sign { .. }))
        } else if kind.starts_with("int_ctxt") {
            find(self, &|c| matches!(c, Cr::Enc { .. }))
        } else {
            None
        };
        let mode = if kind == "nonce" {
            Mode::All
        } else {
            let c = c.ok_or_else(|| format!("{h}: no such assumption"))?;
            if kind.ends_with("_key") {
                Mode::Key(c)
            } else if kind.ends_with("_rand") {
                Mode::Rand(c)
            } else if kind.ends_with("_main") {
                return self.main_sub(c, x, y);
            } else {
                return Err(format!("unknown subterm relation {h}"));
            }
        };
        if let K::El(al) = &x.k {
            // the keys of authentication schemes are looked for in the whole protocol by
            // `split`, and outside macros by this relation
            let direct = matches!(mode, Mode::Key(c) if !matches!(self.crypto[c], Cr::Enc { .. }));
            let o = self.occ(y, mode, if direct { 0 } else { self.depth });
            let v: Vec<A> = al.iter().map(|(g, i)| self.z.and(&[*g, o[*i]])).collect();
            return Ok(self.z.or(&v));
        }
        Err("subterm relation on a non-name".into())
    }
    /// membership of an honest application in a term, by syntax
    fn main_sub(&mut self, c: usize, x: &Gp, y: &Gp) -> R<A> {
        let hs = self.honest(y, c, self.depth);
        let mut v = vec![];
        for (g, m) in hs.iter() {
            let e = match (x.y, m.y) {
                (Some(p), Some(q)) => self.z.eq(p, q),
                _ => self.z.eq(x.v, m.v),
            };
            v.push(self.z.and(&[*g, e]));
        }
        let mut op = vec![];
        self.opaque(y, &mut op);
        for o in op {
            let (xs, os) = match (x.y, o.y) {
                (Some(p), Some(q)) => ((p, self.syn[&x.s]), (q, self.syn[&o.s])),
                _ => ((x.v, self.sorts[&x.s]), (o.v, self.sorts[&o.s])),
            };
            let b = self.z.bool_;
            v.push(self.z.app(&format!("mem:{c}:{:?}", o.s), &[xs.1, os.1], b, &[xs.0, os.0]));
        }
        Ok(self.z.or(&v))
    }
    // ---------- cryptographic facts
    fn name_arg(g: &Gp) -> Option<Vec<(A, usize)>> {
        match &g.k {
            K::App(h, a) if h == "cast$Message$name" => Self::alts(&a[0]).ok(),
            _ => None,
        }
    }
    fn crypto_fact(&mut self, g: &Gp) -> R<()> {
        let K::App(h, args) = &g.k else { return Ok(()) };
        for c in 0..self.crypto.len() {
            match self.crypto[c].clone() {
                Cr::Mac { mac, ver, .. } if *h == ver => {
                    let m = self.prim(&mac, &[args[1].v, args[2].v]);
                    let f = self.z.imp(self.z.eq(args[0].v, m), g.v);
                    self.facts.push(f);
                    if let Some(al) = Self::name_arg(&args[2]) {
                        let w = self.unforge(c, &args[1].clone(), &al, &[args[0].clone(), args[1].clone()]);
                        self.facts.push(self.z.imp(g.v, w));
                    }
                }
                Cr::Sign { ver, pk, .. } if *h == ver => {
                    if let K::App(p, pa) = &args[2].k {
                        if *p == pk {
                            if let Some(al) = Self::name_arg(&pa[0]) {
                                let w = self.unforge(c, &args[1].clone(), &al, &[args[0].clone(), args[1].clone()]);
                                self.facts.push(self.z.imp(g.v, w));
                            }
                        }
                    }
                }
                Cr::Enc { enc, dec, fail } if *h == dec => {
                    if let K::App(e, ea) = &args[0].k {
                        if *e == enc {
                            let f = self.z.imp(self.z.eq(ea[2].v, args[1].v), self.z.eq(g.v, ea[0].v));
                            self.facts.push(f);
                        }
                    }
                    if let Some(al) = Self::name_arg(&args[1]) {
                        let fv = self.z.cst(&format!("v:{fail}"), self.sorts[&S::M]);
                        let mut w = vec![self.z.eq(g.v, fv)];
                        let ct = args[0].clone();
                        for (gd, m) in self.honest(&ct, c, self.depth).iter() {
                            let K::App(_, ea) = &m.k else { continue };
                            if let Some(kl) = Self::name_arg(&ea[2]) {
                                w.push(self.z.and(&[*gd, self.same(&kl, &al), self.z.eq(ct.v, m.v)]));
                            }
                        }
                        let mut op = vec![];
                        self.opaque(&ct, &mut op);
                        for o in op {
                            let ky = args[1].clone();
                            w.push(self.opaque_enc(c, &o, &ct, &ky));
                        }
                        w.push(self.leak(Mode::Key(c), &al, &[ct.clone()]));
                        w.push(self.rand_leak(c, &ct, &al));
                        self.facts.push(self.z.or(&w));
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }
    /// the randomness of an honest encryption in `g` under that key is used for something else in it
    fn rand_leak(&mut self, c: usize, g: &Gp, al: &[(A, usize)]) -> A {
        let mut w = vec![];
        let hs = self.honest(g, c, self.depth);
        let o = self.occ(g, Mode::Rand(c), self.depth);
        for (gd, m) in hs.iter() {
            let K::App(_, ea) = &m.k else { continue };
            let gk = match Self::name_arg(&ea[2]) {
                Some(kl) => self.same(&kl, al),
                None => self.z.tru,
            };
            let gd = self.z.and(&[*gd, gk]);
            if gd == self.z.fls {
                continue;
            }
            match Self::name_arg(&ea[1]) {
                Some(rl) => {
                    for (a, i) in &rl {
                        w.push(self.z.and(&[gd, *a, o[*i]]));
                    }
                    // or for another encryption
                    for (gd2, m2) in hs.iter() {
                        let K::App(_, eb) = &m2.k else { continue };
                        let Some(rl2) = Self::name_arg(&eb[1]) else { continue };
                        let sm = self.same(&rl, &rl2);
                        if Rc::ptr_eq(m, m2) || sm == self.z.fls {
                            continue;
                        }
                        let eq = self.z.and(&[self.z.eq(ea[0].v, eb[0].v), self.z.eq(ea[2].v, eb[2].v)]);
                        let ne = self.z.not(eq);
                        w.push(self.z.and(&[gd, *gd2, sm, ne]));
                    }
                }
                None => w.push(gd),
            }
        }
        self.z.or(&w)
    }
    /// the message is an honest encryption held by the opaque `o`, or `o` misuses the randomness of one
    fn opaque_enc(&mut self, c: usize, o: &Gp, ct: &Gp, key: &Gp) -> A {
        let (Some(oy), Some(ky), true) = (o.y, key.y, self.symbolic) else { return self.z.fresh("witness", self.z.bool_) };
        let Cr::Enc { enc, .. } = self.crypto[c].clone() else { return self.z.fls };
        let (sm, so, b) = (self.syn[&S::M], self.syn[&o.s], self.z.bool_);
        let memf = format!("mem:{c}:{:?}", o.s);
        let n = self.names.len();
        let mut w = vec![];
        let nc = self.cands.len();
        let u = self.skolem("Message", false);
        for i in 0..n {
            let r = self.z.papp("s:cast$Message$name", &[self.namey[i]]);
            let e = self.z.papp(&format!("s:{enc}"), &[u.y.unwrap(), r, ky]);
            let mem = self.z.app(&memf, &[sm, so], b, &[e, oy]);
            let v = self.prim(&enc, &[u.v, self.namev[i], key.v]);
            w.push(self.z.and(&[mem, self.z.eq(ct.v, v)]));
        }
        let m2 = self.skolem("Message", false);
        let r2 = self.skolem("Message", false);
        let m3 = self.skolem("Message", false);
        let k3 = self.skolem("Message", false);
        let e2 = self.z.papp(&format!("s:{enc}"), &[m2.y.unwrap(), r2.y.unwrap(), ky]);
        let mem2 = self.z.app(&memf, &[sm, so], b, &[e2, oy]);
        let mut mis = vec![];
        let mut other = vec![];
        for i in 0..n {
            let r = self.z.papp("s:cast$Message$name", &[self.namey[i]]);
            let is = self.z.eq(r2.y.unwrap(), r);
            other.push(self.z.not(is));
            let dom = [self.sorts[&S::N], so];
            let oc = self.z.app(&format!("occ:{:?}:{:?}", Mode::Rand(c), o.s), &dom, b, &[self.namey[i], oy]);
            mis.push(self.z.and(&[is, oc]));
        }
        mis.push(self.z.and(&other));
        let e3 = self.z.papp(&format!("s:{enc}"), &[m3.y.unwrap(), r2.y.unwrap(), k3.y.unwrap()]);
        let mem3 = self.z.app(&memf, &[sm, so], b, &[e3, oy]);
        let same = self.z.and(&[self.z.eq(m3.y.unwrap(), m2.y.unwrap()), self.z.eq(k3.y.unwrap(), ky)]);
        mis.push(self.z.and(&[mem3, self.z.not(same)]));
        w.push(self.z.and(&[mem2, self.z.or(&mis)]));
        self.cands.truncate(nc);
        self.openc.push([Some(u), None, Some(key.clone())]);
        self.openc.push([Some(m2), Some(r2.clone()), Some(key.clone())]);
        self.openc.push([Some(m3), Some(r2), Some(k3)]);
        self.z.or(&w)
    }
    fn same(&self, a: &[(A, usize)], b: &[(A, usize)]) -> A {
        let mut v = vec![];
        for (c, i) in a {
            for (d, j) in b {
                if i == j {
                    v.push(self.z.and(&[*c, *d]))
                }
            }
        }
        self.z.or(&v)
    }
    fn leak(&mut self, m: Mode, al: &[(A, usize)], ts: &[Gp]) -> A {
        let mut w = vec![];
        for t in ts {
            let o = self.occ(t, m, self.depth);
            for (g, i) in al {
                w.push(self.z.and(&[*g, o[*i]]));
            }
        }
        self.z.or(&w)
    }
    fn prim(&mut self, f: &str, v: &[A]) -> A {
        let m = self.sorts[&S::M];
        let d = vec![m; v.len()];
        self.z.app(&format!("v:{f}"), &d, m, v)
    }
    /// the verified message was honestly authenticated under that key within `ts`, or the key is not kept
    fn unforge(&mut self, c: usize, m: &Gp, al: &[(A, usize)], ts: &[Gp]) -> A {
        let mut w = vec![];
        for t in ts {
            for (g, h) in self.honest(t, c, self.depth).iter() {
                let K::App(_, a) = &h.k else { continue };
                if let Some(kl) = Self::name_arg(&a[1]) {
                    w.push(self.z.and(&[*g, self.same(&kl, al), self.z.eq(a[0].v, m.v)]));
                }
            }
            let mut op = vec![];
            self.opaque(t, &mut op);
            for o in op {
                w.push(self.opaque_auth(c, &o, m, al));
            }
        }
        w.push(self.leak(Mode::Key(c), al, ts));
        self.z.or(&w)
    }
    fn opaque_auth(&mut self, c: usize, o: &Gp, m: &Gp, al: &[(A, usize)]) -> A {
        // a new message u0 with the same value, authenticated inside the opaque message
        let prim = match &self.crypto[c] {
            Cr::Mac { mac, .. } => mac.clone(),
            Cr::Sign { sign, .. } => sign.clone(),
            Cr::Enc { enc, .. } => enc.clone(),
        };
        let b = self.z.bool_;
        if let (Some(oy), true) = (o.y, self.symbolic) {
            let u = self.skolem("Message", false);
            let key = {
                let mut k = self.z.papp("s:cast$Message$name", &[self.namey[al[0].1]]);
                for (g, i) in al.iter().skip(1) {
                    let x = self.z.papp("s:cast$Message$name", &[self.namey[*i]]);
                    k = self.z.ite(*g, x, k);
                }
                k
            };
            let mt = self.z.papp(&format!("s:{prim}"), &[u.y.unwrap(), key]);
            let (sm, so) = (self.syn[&S::M], self.syn[&o.s]);
            let mem = self.z.app(&format!("mem:{c}:{:?}", o.s), &[sm, so], b, &[mt, oy]);
            self.z.and(&[mem, self.z.eq(u.v, m.v)])
        } else {
            let k = self.altv(al, &self.namev.clone());
            let mt = self.prim(&prim, &[m.v, k]);
            let (sm, so) = (self.sorts[&S::M], self.sorts[&o.s]);
            self.z.app(&format!("mem:{c}:{:?}", o.s), &[sm, so], b, &[mt, o.v])
        }
    }
    fn hmac_fact(&mut self, x: &Gp, y: &Gp) -> R<()> {
        let mut y = y;
        while let (K::Many(v), S::T) = (&y.k, y.s) {
            if v.len() != 1 {
                break;
            }
            y = &v[0];
        }
        let K::App(h, a) = &y.k else { return Ok(()) };
        for c in 0..self.crypto.len() {
            let Cr::Mac { mac, hmac: true, .. } = self.crypto[c].clone() else { continue };
            if *h == mac {
                if let Some(al) = Self::name_arg(&a[1]) {
                    let w = self.unforge(c, &a[0].clone(), &al, &[x.clone(), a[0].clone()]);
                    let e = self.z.eq(x.v, y.v);
                    self.facts.push(self.z.imp(e, w));
                }
            }
        }
        Ok(())
    }
    fn nonce_facts(&mut self) {
        if !self.nonce {
            return;
        }
        let pool = self.pool.clone();
        let mut seen = HashSet::new();
        for g in pool {
            if g.s != S::M || matches!(&g.k, K::App(h, _) if h == "cast$Message$name") || !seen.insert(Rc::as_ptr(&g)) {
                continue;
            }
            let o = self.occ(&g, Mode::All, self.depth);
            for i in 0..self.names.len() {
                let e = self.z.eq(self.namev[i], g.v);
                self.facts.push(self.z.imp(e, o[i]));
            }
        }
    }
    fn begin(&mut self) {
        self.pool.clear();
        self.facts.clear();
        self.cands.clear();
            self.openc.clear();
        self.track = true;
        self.approx = false;
        self.z.push();
        self.evmemo.clear();
    }
    fn finish(&mut self) -> Res {
        self.track = false;
        for f in self.facts.clone() {
            self.z.assert(f)
        }
        self.z.check()
    }
    fn explain(&self) -> String {
        let n = self.insts.len();
        let h = self.z.truth(&self.hap);
        let mut es: Vec<usize> = (1..n).filter(|i| h[*i]).collect();
        let mut o = vec![vec![false; n]; n];
        for i in 1..n {
            let r = self.z.truth(&self.ord[i]);
            o[i] = r;
        }
        es.sort_by(|a, b| if a == b { std::cmp::Ordering::Equal } else if o[*a][*b] { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater });
        es.iter().map(|e| if self.insts[*e].1.is_empty() { self.insts[*e].0.clone() } else { format!("{}{:?}", self.insts[*e].0, self.insts[*e].1) }).collect::<Vec<_>>().join(" < ")
    }
    pub fn sat(&mut self) -> Res {
        self.z.check()
    }
    fn label(&self, g: &Gp) -> String {
        let nm = |x: &(String, Vec<usize>)| if x.1.is_empty() { x.0.clone() } else { format!("{}{:?}", x.0, x.1) };
        match (&g.k, g.s) {
            (K::El(a), S::St) => nm(&self.insts[a[0].1]),
            (K::El(a), S::N) => nm(&self.names[a[0].1]),
            (K::El(a), _) => a[0].1.to_string(),
            _ => "_".into(),
        }
    }
    /// instances of the outer universal quantifier, for explanations
    fn instances(&mut self, e: &Sx) -> R<Vec<(String, A)>> {
        let (vs, body) = strip_forall(e);
        let mut r: Vec<(String, Env, A)> = vec![(String::new(), vec![], self.z.tru)];
        for (v, s) in &vs {
            let mut n = vec![];
            match self.domain(s) {
                Some(d) => {
                    for (l, env, g) in r {
                        for (h, x) in &d {
                            let mut env = env.clone();
                            env.push((v.clone(), x.clone()));
                            n.push((format!("{l} {v}={}", self.label(x)), env, self.z.and(&[g, *h])));
                        }
                    }
                }
                None => {
                    let so = self.f.resolve(s);
                    for (l, mut env, g) in r {
                        let x = self.skolem(&so, false);
                        env.push((v.clone(), x));
                        n.push((l, env, g));
                    }
                }
            }
            r = n;
        }
        let mut out = vec![];
        for (l, mut env, g) in r {
            let t = self.t(body, &mut env, false, -1)?;
            out.push((l, self.z.imp(g, t.v)));
        }
        Ok(out)
    }
    /// Ok(None): valid in the reference semantics; Ok(Some(trace)): refuted
    pub fn valid(&mut self, e: &Sx, nonce: bool, orders: &[Sx]) -> R<Option<String>> {
        self.z.push();
        self.track = false;
        for o in orders {
            match self.t(o, &mut vec![], true, 1) {
                Ok(g) => self.z.assert(g.v),
                Err(e) => {
                    self.z.pop();
                    return Err(e);
                }
            }
        }
        let r = self.valid1(e, nonce);
        self.z.pop();
        r
    }
    fn valid1(&mut self, e: &Sx, nonce: bool) -> R<Option<String>> {
        self.begin();
        let inst = match self.instances(e) {
            Ok(g) => g,
            Err(e) => {
                self.z.pop();
                self.track = false;
                return Err(e);
            }
        };
        let all: Vec<A> = inst.iter().map(|x| x.1).collect();
        let g = self.z.and(&all);
        self.z.assert(self.z.not(g));
        if nonce {
            self.nonce_facts();
        }
        let r = if g == self.z.tru { Res::Unsat } else { self.finish() };
        self.track = false;
        let out = match r {
            Res::Unsat => Ok(None),
            Res::Sat => {
                let t = self.z.truth(&all);
                let bad = t.iter().position(|x| !x).map(|i| inst[i].0.clone()).unwrap_or_default();
                Ok(Some(format!("{} with{}", self.explain(), bad)))
            }
            Res::Unknown => Err("solver gave no answer".into()),
        };
        self.z.pop();
        out
    }
    /// do the emitted formula and the reference formula mean the same?
    pub fn equivalent(&mut self, out: &Sx, rf: &Sx) -> R<Option<String>> {
        for dir in [true, false] {
            self.z.push();
            self.evmemo.clear();
            self.cands.clear();
            self.openc.clear();
            self.approx = false;
            let r = (|| -> R<(Gp, Gp)> {
                // the refuted side first, so that its witnesses are candidates for the other side
                if dir {
                    let b = self.t(rf, &mut vec![], true, -1)?;
                    let a = self.t(out, &mut vec![], false, 1)?;
                    let b2 = if self.approx && !self.cands.is_empty() { self.t(rf, &mut vec![], true, -1)? } else { b.clone() };
                    let b = self.b(self.z.or(&[b.v, b2.v]), vec![]);
                    Ok((a, b))
                } else {
                    let b = self.t(out, &mut vec![], false, -1)?;
                    let a = self.t(rf, &mut vec![], true, 1)?;
                    let b2 = if self.approx && !self.cands.is_empty() { self.t(out, &mut vec![], false, -1)? } else { b.clone() };
                    let b = self.b(self.z.or(&[b.v, b2.v]), vec![]);
                    Ok((a, b))
                }
            })();
            let (a, b) = match r {
                Ok(x) => x,
                Err(e) => {
                    self.z.pop();
                    return Err(e);
                }
            };
            self.z.assert(a.v);
            self.z.assert(self.z.not(b.v));
            let r = self.z.check();
            let ex = if r == Res::Sat { Some(self.explain()) } else { None };
            self.z.pop();
            match r {
                Res::Unsat => {}
                Res::Sat => return Ok(Some(format!("{} on the trace {}", if dir { "emitted formula holds but the source formula does not" } else { "source formula holds but the emitted formula does not" }, ex.unwrap()))),
                Res::Unknown => return Err("solver gave no answer".into()),
            }
        }
        Ok(None)
    }
}
fn match_sk(c: &Sx, d: &Sx, ys: &Vec<String>, m: &mut HashMap<String, Sx>) -> bool {
    if c.is_atom() && ys.iter().any(|y| y == c.head()) {
        if !d.head().contains("$sk_") {
            return false;
        }
        return match m.get(c.head()) {
            Some(x) => x == d,
            None => {
                m.insert(c.head().to_string(), d.clone());
                true
            }
        };
    }
    match (c, d) {
        (Sx::A(a), Sx::A(b)) => a == b,
        (Sx::L(a), Sx::L(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| match_sk(x, y, ys, m)),
        _ => false,
    }
}
#[allow(unused)]
fn _u() -> Sx {
    list(vec![app("x", vec![])])
}
