//! S-expressions, and the emitted SMT file as a checked object.
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Sx {
    A(Rc<str>),
    L(Rc<[Sx]>),
}
pub fn atom(s: &str) -> Sx {
    Sx::A(Rc::from(s))
}
pub fn list(v: Vec<Sx>) -> Sx {
    Sx::L(Rc::from(v))
}
pub fn app(f: &str, mut a: Vec<Sx>) -> Sx {
    if a.is_empty() {
        return atom(f);
    }
    a.insert(0, atom(f));
    list(a)
}
impl Sx {
    pub fn head(&self) -> &str {
        match self {
            Sx::A(s) => s,
            Sx::L(l) => match l.first() {
                Some(Sx::A(s)) => s,
                _ => "",
            },
        }
    }
    pub fn args(&self) -> &[Sx] {
        match self {
            Sx::A(_) => &[],
            Sx::L(l) => {
                if l.is_empty() {
                    &[]
                } else {
                    &l[1..]
                }
            }
        }
    }
    pub fn items(&self) -> &[Sx] {
        match self {
            Sx::A(_) => &[],
            Sx::L(l) => l,
        }
    }
    pub fn is_atom(&self) -> bool {
        matches!(self, Sx::A(_))
    }
    pub fn subst(&self, m: &HashMap<String, Sx>) -> Sx {
        match self {
            Sx::A(s) => m.get(&**s).cloned().unwrap_or_else(|| self.clone()),
            Sx::L(l) => list(l.iter().map(|x| x.subst(m)).collect()),
        }
    }
    pub fn mentions(&self, f: &dyn Fn(&str) -> bool) -> bool {
        match self {
            Sx::A(s) => f(s),
            Sx::L(l) => l.iter().any(|x| x.mentions(f)),
        }
    }
}
impl std::fmt::Display for Sx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Sx::A(s) => write!(f, "{s}"),
            Sx::L(l) => {
                write!(f, "(")?;
                for (i, x) in l.iter().enumerate() {
                    if i > 0 {
                        write!(f, " ")?
                    }
                    write!(f, "{x}")?
                }
                write!(f, ")")
            }
        }
    }
}
/// top-level items; comments kept as atoms starting with ';'
pub fn parse(s: &str) -> Result<Vec<Sx>, String> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut st: Vec<Vec<Sx>> = vec![vec![]];
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == ';' {
            let j = (i..b.len()).find(|&j| b[j] == '\n').unwrap_or(b.len());
            if st.len() == 1 {
                let t: String = b[i..j].iter().collect();
                st[0].push(atom(t.trim()));
            }
            i = j;
        } else if c == '(' {
            st.push(vec![]);
            i += 1;
        } else if c == ')' {
            let l = st.pop().unwrap();
            match st.last_mut() {
                Some(p) => p.push(list(l)),
                None => return Err("unbalanced ')'".into()),
            }
            i += 1;
        } else if c == '|' {
            let j = (i + 1..b.len()).find(|&j| b[j] == '|').ok_or("unterminated |")?;
            let t: String = b[i..=j].iter().collect();
            st.last_mut().unwrap().push(atom(&t));
            i = j + 1;
        } else {
            let j = (i..b.len()).find(|&j| b[j].is_whitespace() || "();".contains(b[j])).unwrap_or(b.len());
            let t: String = b[i..j].iter().collect();
            if !t.chars().all(|c| c.is_ascii_alphanumeric() || "~!@$%^&*_-+=<>.?/:".contains(c)) {
                return Err(format!("'{t}' is not an SMT-LIB symbol"));
            }
            st.last_mut().unwrap().push(atom(&t));
            i = j;
        }
    }
    if st.len() != 1 {
        return Err("unbalanced '('".into());
    }
    Ok(st.pop().unwrap())
}

#[derive(Clone, Debug)]
pub struct Axiom {
    pub section: String,
    pub f: Sx,
    pub query: bool,
    pub idx: usize,
}
#[derive(Default, Debug)]
pub struct SmtFile {
    pub sorts: HashSet<String>,
    pub alias: HashMap<String, String>,
    pub datatypes: HashMap<String, Vec<String>>,
    pub funs: HashMap<String, (Vec<String>, String)>,
    pub ctors: HashSet<String>,
    pub axioms: Vec<Axiom>,
    pub errors: Vec<String>,
    /// relations of vampire's own subterm declaration
    pub rels: HashSet<String>,
    /// commands outside the standard
    pub ext: Vec<String>,
}
impl SmtFile {
    pub fn resolve(&self, s: &str) -> String {
        let mut s = s.to_string();
        let mut n = 0;
        while let Some(t) = self.alias.get(&s) {
            s = t.clone();
            n += 1;
            if n > 20 {
                break;
            }
        }
        s
    }
    fn sort_ok(&self, s: &str) -> bool {
        let r = self.resolve(s);
        r == "Bool" || r == "Int" || self.sorts.contains(&r) || self.datatypes.contains_key(&r)
    }
    fn declare(&mut self, n: &str, a: Vec<String>, r: String) {
        const RES: [&str; 14] = ["and", "or", "not", "=>", "=", "ite", "true", "false", "forall", "exists", "let", "distinct", "xor", "!"];
        if RES.contains(&n) {
            self.errors.push(format!("declares the reserved symbol {n}"));
        }
        for s in a.iter().chain([&r]) {
            if !self.sort_ok(s) {
                self.errors.push(format!("declaration of {n} uses the undeclared sort {s}"));
            }
        }
        if self.funs.insert(n.to_string(), (a, r)).is_some() {
            self.errors.push(format!("symbol {n} declared twice"));
        }
    }
    pub fn load(text: &str) -> SmtFile {
        let mut f = SmtFile::default();
        let items = match parse(text) {
            Ok(i) => i,
            Err(e) => {
                f.errors.push(e);
                return f;
            }
        };
        let mut section = String::new();
        let mut checks = 0;
        let mut queries = 0;
        let mut idx = 0;
        let last = items.iter().rposition(|x| x.head().starts_with("assert") && !x.is_atom());
        for (pos, it) in items.iter().enumerate() {
            let a = it.args();
            if it.is_atom() {
                let h = it.head();
                if let Some(c) = h.strip_prefix(';') {
                    let c = c.trim();
                    if !c.is_empty() && c.parse::<u32>().is_err() {
                        section = c.to_string();
                    }
                } else {
                    f.errors.push(format!("stray token {h} at top level"));
                }
                continue;
            }
            if checks > 0 && !matches!(it.head(), "get-proof" | "exit" | "get-model" | "get-info") {
                f.errors.push(format!("command {} after check-sat", it.head()));
            }
            if ["declare-subterm-relation", "declare-rewrite", "assert-theory", "assert-not", "assert-ground"].contains(&it.head()) {
                f.ext.push(it.head().to_string());
            }
            match it.head() {
                "set-option" | "set-logic" | "set-info" => {}
                "declare-sort" => {
                    let n = a[0].head().to_string();
                    if f.sort_ok(&n) {
                        f.errors.push(format!("sort {n} declared twice"));
                    }
                    f.sorts.insert(n);
                }
                "define-sort" => {
                    let n = a[0].head().to_string();
                    if f.sort_ok(&n) {
                        f.errors.push(format!("sort {n} declared twice"));
                    }
                    let t = a[2].head().to_string();
                    if !f.sort_ok(&t) {
                        f.errors.push(format!("sort alias {n} to the undeclared sort {t}"));
                    }
                    f.alias.insert(n, t);
                }
                "declare-datatypes" => {
                    let names: Vec<String> = a[0].items().iter().map(|x| x.head().to_string()).collect();
                    for n in &names {
                        if f.sort_ok(n) {
                            f.errors.push(format!("sort {n} declared twice"));
                        }
                        f.datatypes.insert(n.clone(), vec![]);
                    }
                    if names.len() != a[1].items().len() {
                        f.errors.push("datatype declaration has mismatched lengths".into());
                    }
                    for (n, cs) in names.iter().zip(a[1].items()) {
                        if cs.items().is_empty() {
                            f.errors.push(format!("datatype {n} has no constructor"));
                        }
                        for c in cs.items() {
                            let cn = c.head().to_string();
                            let mut args = vec![];
                            for d in c.args() {
                                let s = d.args()[0].head().to_string();
                                f.declare(d.head(), vec![n.clone()], s.clone());
                                args.push(s);
                            }
                            f.declare(&cn, args, n.clone());
                            f.ctors.insert(cn.clone());
                            f.datatypes.get_mut(n).unwrap().push(cn);
                        }
                    }
                }
                "declare-fun" => {
                    let args = a[1].items().iter().map(|x| x.head().to_string()).collect();
                    f.declare(a[0].head(), args, a[2].head().to_string());
                }
                "declare-const" => f.declare(a[0].head(), vec![], a[1].head().to_string()),
                "assert" | "assert-theory" | "assert-not" | "assert-ground" => {
                    let mut e = a[0].clone();
                    if it.head() == "assert-ground" {
                        e = a.last().unwrap().clone();
                    }
                    let q = Some(pos) == last;
                    if q {
                        queries += 1;
                        if it.head() == "assert" {
                            if e.head() == "not" && e.args().len() == 1 {
                                e = e.args()[0].clone();
                            } else {
                                f.errors.push("the goal is asserted without negation".into());
                            }
                        } else if it.head() != "assert-not" {
                            f.errors.push("the goal is not asserted negated".into());
                        }
                    } else if it.head() == "assert-not" {
                        f.errors.push("a second goal in the file".into());
                        e = app("not", vec![e]);
                    }
                    idx += 1;
                    let mut sc = vec![];
                    match f.sort_of(&e, &mut sc) {
                        Ok(s) if s == "Bool" => {}
                        Ok(s) => f.errors.push(format!("axiom {idx} has sort {s}")),
                        Err(m) => f.errors.push(format!("axiom {idx} (section '{section}'): {m}")),
                    }
                    f.axioms.push(Axiom { section: section.clone(), f: e, query: q, idx });
                }
                "declare-subterm-relation" => {
                    let n = a[0].head().to_string();
                    for x in &a[1..] {
                        if !f.funs.contains_key(x.head()) {
                            f.errors.push(format!("subterm relation {n} over the undeclared function {}", x.head()))
                        }
                    }
                    if f.funs.contains_key(&n) || !f.rels.insert(n.clone()) {
                        f.errors.push(format!("symbol {n} declared twice"))
                    }
                }
                "declare-rewrite" => {
                    idx += 1;
                    let mut sc = vec![];
                    let mut e = &a[0];
                    if e.head() == "forall" {
                        e = &e.args()[1]
                    }
                    if a.len() != 1 || e.args().len() != 2 {
                        f.errors.push("malformed rewrite rule".into());
                    }
                    let empty = a[0].head() == "forall" && a[0].args().first().is_some_and(|b| b.items().is_empty());
                    match f.sort_of(if empty { e } else { &a[0] }, &mut sc) {
                        Ok(s) if s == "Bool" => {}
                        Ok(s) => f.errors.push(format!("rewrite rule {idx} has sort {s}")),
                        Err(m) => f.errors.push(format!("rewrite rule {idx} (section '{section}'): {m}")),
                    }
                    // read as the equality it stands for
                    let mut g = a[0].clone();
                    if g.head() == "forall" && g.args().len() == 2 && g.args()[1].args().len() == 2 {
                        let r = g.args()[1].args().to_vec();
                        g = if empty { app("=", r) } else { app("forall", vec![g.args()[0].clone(), app("=", r)]) };
                    }
                    f.axioms.push(Axiom { section: section.clone(), f: g, query: false, idx });
                }
                "check-sat" => checks += 1,
                "get-proof" | "exit" | "get-model" | "get-info" => {}
                h => f.errors.push(format!("unknown command {h}")),
            }
        }
        if checks != 1 {
            f.errors.push(format!("{checks} check-sat commands"));
        }
        if queries != 1 {
            f.errors.push(format!("{queries} goals in the file"));
        }
        f
    }
    pub fn sort_of(&self, e: &Sx, sc: &mut Vec<(String, String)>) -> Result<String, String> {
        match e {
            Sx::A(s) => {
                if let Some((_, t)) = sc.iter().rev().find(|(n, _)| **n == **s) {
                    return Ok(t.clone());
                }
                if &**s == "true" || &**s == "false" {
                    return Ok("Bool".into());
                }
                match self.funs.get(&**s) {
                    Some((a, r)) if a.is_empty() => Ok(self.resolve(r)),
                    Some(_) => Err(format!("{s} used without arguments")),
                    None => Err(format!("unbound symbol {s}")),
                }
            }
            Sx::L(l) => {
                if l.is_empty() {
                    return Err("empty expression".into());
                }
                let h = e.head();
                let a = e.args();
                match h {
                    "forall" | "exists" => {
                        if a.len() != 2 {
                            return Err(format!("malformed {h}"));
                        }
                        if a[0].items().is_empty() {
                            return Err(format!("{h} without variables"));
                        }
                        let n = sc.len();
                        for b in a[0].items() {
                            let (v, s) = (b.head().to_string(), b.args().first().map(|x| x.head().to_string()).unwrap_or_default());
                            if !self.sort_ok(&s) {
                                return Err(format!("variable {v} has the undeclared sort {s}"));
                            }
                            if sc[n..].iter().any(|(w, _)| *w == v) {
                                return Err(format!("variable {v} bound twice by one quantifier"));
                            }
                            sc.push((v, self.resolve(&s)));
                        }
                        let r = self.sort_of(&a[1], sc)?;
                        sc.truncate(n);
                        if r != "Bool" {
                            return Err(format!("quantified body has sort {r}"));
                        }
                        Ok(r)
                    }
                    "subterm" if a.len() == 3 && self.rels.contains(a[0].head()) => {
                        self.sort_of(&a[1], sc)?;
                        self.sort_of(&a[2], sc)?;
                        Ok("Bool".into())
                    }
                    "and" | "or" | "=>" | "not" | "xor" => {
                        for x in a {
                            let s = self.sort_of(x, sc)?;
                            if s != "Bool" {
                                return Err(format!("argument of {h} has sort {s}"));
                            }
                        }
                        let ok = match h {
                            "not" => a.len() == 1,
                            "=>" | "xor" => a.len() >= 2,
                            _ => !a.is_empty(),
                        };
                        if !ok {
                            return Err(format!("{h} applied to {} arguments", a.len()));
                        }
                        Ok("Bool".into())
                    }
                    "=" | "distinct" => {
                        let mut t: Option<String> = None;
                        for x in a {
                            let s = self.sort_of(x, sc)?;
                            if let Some(t) = &t {
                                if *t != s {
                                    return Err(format!("{h} between sorts {t} and {s}"));
                                }
                            }
                            t = Some(s);
                        }
                        if a.len() < 2 {
                            return Err(format!("{h} applied to {} arguments", a.len()));
                        }
                        Ok("Bool".into())
                    }
                    "ite" => {
                        if a.len() != 3 {
                            return Err("malformed ite".into());
                        }
                        let c = self.sort_of(&a[0], sc)?;
                        let x = self.sort_of(&a[1], sc)?;
                        let y = self.sort_of(&a[2], sc)?;
                        if c != "Bool" || x != y {
                            return Err(format!("ite over sorts {c} {x} {y}"));
                        }
                        Ok(x)
                    }
                    _ => {
                        if sc.iter().any(|(n, _)| n == h) {
                            return Err(format!("variable {h} applied to arguments"));
                        }
                        let (fa, r) = self.funs.get(h).ok_or_else(|| format!("unbound symbol {h}"))?;
                        if fa.len() != a.len() {
                            return Err(format!("{h} takes {} arguments but is given {}", fa.len(), a.len()));
                        }
                        for (x, s) in a.iter().zip(fa) {
                            let t = self.sort_of(x, sc)?;
                            if t != self.resolve(s) {
                                return Err(format!("{h} expects sort {s} but is given {t}"));
                            }
                        }
                        Ok(self.resolve(r))
                    }
                }
            }
        }
    }
}
