//! An independent reader for .ptcl protocol files.
use super::sx::{app, atom, list, Sx};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum Tm {
    App(String, Vec<Tm>),
    Mac(String, Vec<Tm>),
    Ite(Box<Tm>, Box<Tm>, Box<Tm>),
    Find(Vec<(String, String)>, Box<Tm>, Box<Tm>, Box<Tm>),
    Q(bool, Vec<(String, String)>, Box<Tm>),
    Op(String, Vec<Tm>),
    Let(String, String, Box<Tm>, Box<Tm>),
}
#[derive(Clone, Debug)]
pub struct Step {
    pub name: String,
    pub params: Vec<(String, String)>,
    pub cond: Tm,
    pub msg: Tm,
    pub asg: Vec<Asg>,
}
#[derive(Clone, Debug)]
pub struct Asg {
    pub fresh: Vec<(String, String)>,
    pub cell: String,
    pub args: Vec<Tm>,
    pub val: Tm,
}
#[derive(Clone, Debug)]
pub struct Order {
    pub forall: bool,
    pub vars: Vec<(String, String)>,
    pub guard: Option<Tm>,
    pub a: Tm,
    pub b: Tm,
    pub op: String,
}
#[derive(Clone, Debug, Default)]
pub struct Ptcl {
    pub types: Vec<String>,
    pub funs: HashMap<String, (Vec<String>, String)>,
    pub cells: HashMap<String, (Vec<String>, String)>,
    pub steps: Vec<Step>,
    pub macros: HashMap<String, (Vec<(String, String)>, Tm)>,
    pub asserts: Vec<Tm>,
    pub lemmas: Vec<Tm>,
    pub queries: Vec<Tm>,
    pub orders: Vec<Order>,
    pub crypto: Vec<(String, Vec<String>, Vec<String>)>,
}
type R<T> = Result<T, String>;
struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
                self.i += 1
            }
            let r = &self.s[self.i..];
            let close: &[u8] = if r.starts_with(b"/*") {
                b"*/"
            } else if r.starts_with(b"(*") {
                b"*)"
            } else {
                return;
            };
            let mut j = self.i + 2;
            while j + 2 <= self.s.len() && &self.s[j..j + 2] != close {
                j += 1
            }
            self.i = (j + 2).min(self.s.len());
        }
    }
    fn at(&mut self, t: &str) -> bool {
        self.ws();
        self.s[self.i..].starts_with(t.as_bytes())
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.at(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected '{t}' at byte {}: {}", self.i, String::from_utf8_lossy(&self.s[self.i..(self.i + 30).min(self.s.len())])))
        }
    }
    fn idc(c: u8, first: bool) -> bool {
        c.is_ascii_alphabetic() || (!first && (c.is_ascii_digit() || c == b'_' || c == b'-' || c == b'\''))
    }
    fn peek_ident(&mut self) -> Option<String> {
        self.ws();
        let mut j = self.i;
        if j < self.s.len() && self.s[j] == b'_' {
            j += 1
        }
        let k = j;
        while j < self.s.len() && Self::idc(self.s[j], j == k) {
            j += 1
        }
        (j > k).then(|| String::from_utf8_lossy(&self.s[self.i..j]).into_owned())
    }
    fn ident(&mut self) -> R<String> {
        let r = self.peek_ident().ok_or_else(|| format!("expected an identifier at byte {}", self.i))?;
        self.i += r.len();
        Ok(r)
    }
    fn kw(&mut self, k: &str) -> bool {
        if self.peek_ident().as_deref() == Some(k) {
            self.i += k.len();
            true
        } else {
            false
        }
    }
    fn bindings(&mut self) -> R<Vec<(String, String)>> {
        let mut v = vec![];
        if self.eat("(") {
            while !self.eat(")") {
                let n = self.ident()?;
                self.exp(":")?;
                let t = self.ident()?;
                v.push((n, t));
                if !self.eat(",") {
                    self.exp(")")?;
                    break;
                }
            }
        }
        Ok(v)
    }
    fn types(&mut self) -> R<Vec<String>> {
        let mut v = vec![];
        if self.eat("(") {
            while !self.eat(")") {
                v.push(self.ident()?);
                if !self.eat(",") {
                    self.exp(")")?;
                    break;
                }
            }
        }
        Ok(v)
    }
    fn options(&mut self) -> R<Vec<String>> {
        let mut v = vec![];
        if self.eat("[") {
            while !self.eat("]") {
                v.push(self.ident()?)
            }
        }
        Ok(v)
    }
    fn braced(&mut self) -> R<Tm> {
        self.exp("{")?;
        let t = self.term()?;
        self.exp("}")?;
        Ok(t)
    }
    fn app_args(&mut self) -> R<Vec<Tm>> {
        let mut v = vec![];
        let close = if self.eat("(") {
            ")"
        } else if self.at("[") {
            // could be an option list after the term: options hold bare identifiers without commas
            self.eat("[");
            "]"
        } else {
            return Ok(v);
        };
        while !self.eat(close) {
            v.push(self.term()?);
            if !self.eat(",") {
                self.exp(close)?;
                break;
            }
        }
        Ok(v)
    }
    fn quant(&mut self) -> Option<bool> {
        if self.kw("forall") || self.eat("∀") {
            Some(true)
        } else if self.kw("exists") || self.eat("∃") {
            Some(false)
        } else {
            None
        }
    }
    fn term(&mut self) -> R<Tm> {
        self.ws();
        if self.at("(") {
            self.eat("(");
            let mut v = vec![self.term()?];
            let mut op: Option<String> = None;
            loop {
                let o = ["==", "!=", "<>", "||", "&&", "=>", "<=>"].iter().find(|o| self.eat(o)).ok_or_else(|| format!("expected an operator at byte {}", self.i))?;
                let o = if *o == "<>" { "!=" } else { *o };
                if op.get_or_insert(o.to_string()) != o {
                    return Err("mixed operators".into());
                }
                v.push(self.term()?);
                if self.eat(")") {
                    break;
                }
            }
            return Ok(Tm::Op(op.unwrap(), v));
        }
        if self.kw("let") {
            let n = self.ident()?;
            self.exp(":")?;
            let t = self.ident()?;
            self.exp("=")?;
            let a = self.term()?;
            if !self.kw("in") {
                return Err("expected 'in'".into());
            }
            let b = self.term()?;
            return Ok(Tm::Let(n, t, a.into(), b.into()));
        }
        if self.kw("if") {
            let c = self.term()?;
            let a = self.braced()?;
            if !self.kw("else") {
                return Err("expected 'else'".into());
            }
            let b = self.braced()?;
            return Ok(Tm::Ite(c.into(), a.into(), b.into()));
        }
        if self.peek_ident().as_deref() == Some("try") {
            self.kw("try");
            for k in ["find"] {
                if !self.kw(k) {
                    return Err("expected 'find'".into());
                }
            }
            let v = self.bindings()?;
            if !(self.kw("such") && self.kw("that")) {
                return Err("expected 'such that'".into());
            }
            let c = self.braced()?;
            if !self.kw("then") {
                return Err("expected 'then'".into());
            }
            let a = self.braced()?;
            if !self.kw("else") {
                return Err("expected 'else'".into());
            }
            let b = self.braced()?;
            return Ok(Tm::Find(v, c.into(), a.into(), b.into()));
        }
        if let Some(fa) = self.quant() {
            let v = self.bindings()?;
            let b = self.braced()?;
            return Ok(Tm::Q(fa, v, b.into()));
        }
        let n = self.ident()?;
        if self.i < self.s.len() && self.s[self.i] == b'!' && self.s.get(self.i + 1) != Some(&b'=') {
            self.i += 1;
            let a = self.app_args()?;
            return Ok(Tm::Mac(n, a));
        }
        let a = self.app_args()?;
        Ok(Tm::App(n, a))
    }
}
pub fn parse(src: &str) -> R<Ptcl> {
    let mut p = P { s: src.as_bytes(), i: 0 };
    let mut o = Ptcl::default();
    loop {
        p.ws();
        while p.eat(";") {}
        p.ws();
        if p.i >= p.s.len() {
            break;
        }
        let k = p.ident()?;
        match k.as_str() {
            "type" => {
                let n = p.ident()?;
                p.options()?;
                o.types.push(n)
            }
            "fun" | "cell" => {
                let n = p.ident()?;
                let a = p.types()?;
                p.exp(":")?;
                let r = p.ident()?;
                p.options()?;
                if k == "fun" { &mut o.funs } else { &mut o.cells }.insert(n, (a, r));
            }
            "step" => {
                let name = p.ident()?;
                let params = p.bindings()?;
                let cond = p.braced()?;
                let msg = p.braced()?;
                let mut asg = vec![];
                if p.eat("{") {
                    while !p.eat("}") {
                        let fresh = p.bindings()?;
                        let Tm::App(cell, args) = p.term()? else { return Err("bad assignment".into()) };
                        p.exp("<-")?;
                        let val = p.term()?;
                        asg.push(Asg { fresh, cell, args, val });
                        if !p.eat(",") {
                            p.exp("}")?;
                            break;
                        }
                    }
                }
                p.options()?;
                o.steps.push(Step { name, params, cond, msg, asg })
            }
            "assert" => {
                let t = p.term()?;
                p.options()?;
                o.asserts.push(t)
            }
            "query" => {
                let t = p.term()?;
                p.options()?;
                o.queries.push(t)
            }
            "lemma" => {
                let t = p.term()?;
                p.options()?;
                o.lemmas.push(t)
            }
            "assert-crypto" => {
                let n = p.ident()?;
                let mut fs = vec![];
                loop {
                    p.ws();
                    match p.peek_ident() {
                        Some(f) if o.funs.contains_key(&f) || !["type", "fun", "cell", "step", "assert", "query", "lemma", "assert-crypto", "order", "let"].contains(&f.as_str()) => {
                            p.ident()?;
                            fs.push(f)
                        }
                        _ => break,
                    }
                }
                let op = p.options()?;
                o.crypto.push((n, fs, op))
            }
            "order" => {
                let forall = p.quant().ok_or("expected a quantifier")?;
                let vars = p.bindings()?;
                let br = p.eat("{");
                let mut a = p.term()?;
                let mut guard = None;
                if p.eat("=>") {
                    guard = Some(a);
                    a = p.term()?;
                }
                let op = ["<>", "<", ">"].iter().find(|x| p.eat(x)).ok_or("expected an ordering operator")?.to_string();
                let b = p.term()?;
                if br {
                    p.exp("}")?
                }
                p.options()?;
                o.orders.push(Order { forall, vars, guard, a, b, op })
            }
            "let" => {
                let n = p.ident()?;
                p.exp("!")?;
                let v = p.bindings()?;
                p.exp("=")?;
                let t = p.term()?;
                p.options()?;
                o.macros.insert(n, (v, t));
            }
            k => return Err(format!("unknown item {k}")),
        }
    }
    Ok(o)
}

pub struct Elab<'a> {
    pub p: &'a Ptcl,
    pub fresh: std::cell::Cell<usize>,
}
type Scope = Vec<(String, Sx)>;
impl<'a> Elab<'a> {
    pub fn new(p: &'a Ptcl) -> Self {
        Elab { p, fresh: Default::default() }
    }
    fn bind(&self, v: &[(String, String)], sc: &mut Scope) -> Sx {
        let mut b = vec![];
        for (n, s) in v {
            let k = self.fresh.get();
            self.fresh.set(k + 1);
            let x = format!("?{k}");
            b.push(list(vec![atom(&x), atom(s)]));
            sc.push((n.clone(), atom(&x)));
        }
        list(b)
    }
    pub fn step(&self, n: &str) -> Option<&Step> {
        self.p.steps.iter().find(|s| s.name == n)
    }
    /// reference meaning of a source term, with every macro expanded, binders unique
    pub fn term(&self, t: &Tm, sc: &mut Scope) -> R<Sx> {
        Ok(match t {
            Tm::App(f, a) => {
                if a.is_empty() {
                    if let Some((_, x)) = sc.iter().rev().find(|(n, _)| n == f) {
                        return Ok(x.clone());
                    }
                }
                let args: Vec<Sx> = a.iter().map(|x| self.term(x, sc)).collect::<R<_>>()?;
                if let Some((_, r)) = self.p.funs.get(f) {
                    let e = app(f, args);
                    return Ok(if r == "Name" { app("cast$Message$name", vec![e]) } else { e });
                }
                match f.as_str() {
                    "and" | "or" | "not" | "true" | "false" => app(f, args),
                    "eq" => app("=", args),
                    "implies" => app("=>", args),
                    "iff" => app("=", args),
                    "input" | "msg" | "cond" | "exec" | "happens" | "lt" | "leq" | "gt" | "pred" | "init" | "empty" => app(f, args),
                    _ if self.p.cells.contains_key(f) || self.step(f).is_some() => app(f, args),
                    _ => return Err(format!("unknown function {f}")),
                }
            }
            Tm::Mac(m, a) => {
                if (m == "msg" || m == "cond") && a.len() == 1 {
                    let Tm::App(sn, sa) = &a[0] else { return Err("macro on a non step".into()) };
                    let args: Vec<Sx> = sa.iter().map(|x| self.term(x, sc)).collect::<R<_>>()?;
                    return self.step_content(sn, &args, m == "msg");
                }
                let (v, b) = self.p.macros.get(m).ok_or_else(|| format!("unknown macro {m}"))?;
                if v.len() != a.len() {
                    return Err("macro arity".into());
                }
                let mut ns: Scope = vec![];
                for ((n, _), x) in v.iter().zip(a) {
                    ns.push((n.clone(), self.term(x, sc)?));
                }
                self.term(b, &mut ns)?
            }
            Tm::Ite(c, a, b) => app("ite", vec![self.term(c, sc)?, self.term(a, sc)?, self.term(b, sc)?]),
            Tm::Find(v, c, a, b) => {
                let e = self.term(b, sc)?;
                let n = sc.len();
                let bs = self.bind(v, sc);
                let c = self.term(c, sc)?;
                let a = self.term(a, sc)?;
                sc.truncate(n);
                app("find", vec![bs, c, a, e])
            }
            Tm::Q(fa, v, b) => {
                let n = sc.len();
                let bs = self.bind(v, sc);
                let b = self.term(b, sc)?;
                sc.truncate(n);
                if v.is_empty() {
                    return Ok(b);
                }
                app(if *fa { "forall" } else { "exists" }, vec![bs, b])
            }
            Tm::Let(n, _, a, b) => {
                let a = self.term(a, sc)?;
                sc.push((n.clone(), a));
                let r = self.term(b, sc);
                sc.pop();
                r?
            }
            Tm::Op(o, v) => {
                let a: Vec<Sx> = v.iter().map(|x| self.term(x, sc)).collect::<R<_>>()?;
                match o.as_str() {
                    "==" | "<=>" => app("=", a),
                    "!=" => app("not", vec![app("=", a)]),
                    "&&" => app("and", a),
                    "||" => app("or", a),
                    "=>" => app("=>", a),
                    _ => unreachable!(),
                }
            }
        })
    }
    pub fn step_content(&self, sn: &str, args: &[Sx], msg: bool) -> R<Sx> {
        if sn == "init" {
            return Ok(atom(if msg { "empty" } else { "true" }));
        }
        let st = self.step(sn).ok_or_else(|| format!("unknown step {sn}"))?;
        if st.params.len() != args.len() {
            return Err("step arity".into());
        }
        let mut ns: Scope = st.params.iter().map(|x| x.0.clone()).zip(args.iter().cloned()).collect();
        ns.insert(0, ("in".into(), app("input", vec![app(sn, args.to_vec())])));
        self.term(if msg { &st.msg } else { &st.cond }, &mut ns)
    }
    /// (fresh vars with unique names, cell args, value)
    pub fn assignment(&self, st: &Step, a: &Asg, args: &[Sx]) -> R<(Sx, Vec<Sx>, Sx)> {
        let mut ns: Scope = st.params.iter().map(|x| x.0.clone()).zip(args.iter().cloned()).collect();
        ns.insert(0, ("in".into(), app("input", vec![app(&st.name, args.to_vec())])));
        let bs = self.bind(&a.fresh, &mut ns);
        let ca = a.args.iter().map(|x| self.term(x, &mut ns)).collect::<R<_>>()?;
        let v = self.term(&a.val, &mut ns)?;
        Ok((bs, ca, v))
    }
    pub fn closed(&self, t: &Tm) -> R<Sx> {
        self.term(t, &mut vec![])
    }
    pub fn order(&self, o: &Order) -> R<Sx> {
        let mut sc = vec![];
        let bs = self.bind(&o.vars, &mut sc);
        let a = self.term(&o.a, &mut sc)?;
        let b = self.term(&o.b, &mut sc)?;
        let h = |x: &Sx| app("happens", vec![x.clone()]);
        let body = match o.op.as_str() {
            "<" => app("=>", vec![h(&b), app("leq", vec![a, b])]),
            ">" => app("=>", vec![h(&a), app("leq", vec![b, a])]),
            _ => app("not", vec![app("and", vec![h(&a), h(&b)])]),
        };
        let body = match &o.guard {
            Some(g) => app("=>", vec![self.term(g, &mut sc)?, body]),
            None => body,
        };
        if o.vars.is_empty() {
            return Ok(body);
        }
        Ok(app(if o.forall { "forall" } else { "exists" }, vec![bs, body]))
    }
}
