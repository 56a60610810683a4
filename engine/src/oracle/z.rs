//! small z3 wrapper used by the reference semantics (one context per judged output)
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
pub type A = *mut c_void;
type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_from_string(c: P, s: P, t: *const c_char);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, mc: bool, v: *mut P) -> bool;
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_get_sort(c: P, a: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_uninterpreted_sort(c: P, s: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, d: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, f: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_distinct(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_constructor(c: P, n: P, r: P, k: c_uint, fnm: *const P, s: *const P, refs: *const c_uint) -> P;
    fn Z3_mk_constructor_list(c: P, n: c_uint, k: *const P) -> P;
    fn Z3_mk_datatypes(c: P, n: c_uint, names: *const P, sorts: *mut P, cl: *mut P);
    fn Z3_query_constructor(c: P, k: P, n: c_uint, cons: *mut P, test: *mut P, acc: *mut P);
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().into_owned() };
    eprintln!("z3 error: {m}");
    std::process::exit(70)
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}
pub struct Z {
    c: P,
    s: P,
    pub tru: A,
    pub fls: A,
    pub bool_: A,
    fns: HashMap<String, P>,
    n: usize,
    pub queries: u64,
    pub secs: f64,
}
impl Drop for Z {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}
impl Z {
    pub fn new(timeout_ms: u32) -> Z {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, on_err);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z { c, s, tru: Z3_mk_true(c), fls: Z3_mk_false(c), bool_: Z3_mk_bool_sort(c), fns: HashMap::new(), n: 0, queries: 0, secs: 0.0 }
        }
    }
    fn sym(&self, s: &str) -> P {
        let k = CString::new(s).unwrap();
        unsafe { Z3_mk_string_symbol(self.c, k.as_ptr()) }
    }
    pub fn sort_of(&self, a: A) -> A {
        unsafe { Z3_get_sort(self.c, a) }
    }
    pub fn sort(&self, s: &str) -> A {
        unsafe { Z3_mk_uninterpreted_sort(self.c, self.sym(s)) }
    }
    pub fn int(&self) -> A {
        unsafe { Z3_mk_int_sort(self.c) }
    }
    pub fn bv(&self, w: u32) -> A {
        unsafe { Z3_mk_bv_sort(self.c, w) }
    }
    pub fn num(&self, v: i64, s: A) -> A {
        let k = CString::new(v.to_string()).unwrap();
        unsafe { Z3_mk_numeral(self.c, k.as_ptr(), s) }
    }
    pub fn cst(&self, n: &str, s: A) -> A {
        unsafe { Z3_mk_const(self.c, self.sym(n), s) }
    }
    pub fn fresh(&mut self, n: &str, s: A) -> A {
        self.n += 1;
        let n = format!("{n}!{}", self.n);
        self.cst(&n, s)
    }
    pub fn app(&mut self, f: &str, dom: &[A], r: A, a: &[A]) -> A {
        if a.is_empty() {
            return self.cst(f, r);
        }
        let d = match self.fns.get(f) {
            Some(d) => *d,
            None => {
                let d = unsafe { Z3_mk_func_decl(self.c, self.sym(f), dom.len() as u32, dom.as_ptr(), r) };
                self.fns.insert(f.to_string(), d);
                d
            }
        };
        unsafe { Z3_mk_app(self.c, d, a.len() as u32, a.as_ptr()) }
    }
    pub fn has_fn(&self, f: &str) -> bool {
        self.fns.contains_key(f)
    }
    /// mutually recursive datatypes; constructors registered under "s:<ctor>"; field sorts: Ok(sort) or Err(index of datatype)
    pub fn datatypes(&mut self, names: &[String], ctors: &[Vec<(String, Vec<Result<A, usize>>)>]) -> Vec<A> {
        unsafe {
            let mut lists = vec![];
            let mut all = vec![];
            for cs in ctors {
                let mut ks = vec![];
                for (n, fs) in cs {
                    let fnm: Vec<P> = (0..fs.len()).map(|i| self.sym(&format!("{n}!f{i}"))).collect();
                    let so: Vec<P> = fs.iter().map(|x| x.unwrap_or(std::ptr::null_mut())).collect();
                    let rf: Vec<c_uint> = fs.iter().map(|x| x.err().unwrap_or(0) as c_uint).collect();
                    let k = Z3_mk_constructor(self.c, self.sym(n), self.sym(&format!("is-{n}")), fs.len() as u32, fnm.as_ptr(), so.as_ptr(), rf.as_ptr());
                    ks.push(k);
                    all.push((n.clone(), k, fs.len()));
                }
                lists.push(Z3_mk_constructor_list(self.c, ks.len() as u32, ks.as_ptr()));
            }
            let nm: Vec<P> = names.iter().map(|n| self.sym(n)).collect();
            let mut out = vec![std::ptr::null_mut(); names.len()];
            Z3_mk_datatypes(self.c, names.len() as u32, nm.as_ptr(), out.as_mut_ptr(), lists.as_mut_ptr());
            for (n, k, ar) in all {
                let (mut c, mut t) = (std::ptr::null_mut(), std::ptr::null_mut());
                let mut acc = vec![std::ptr::null_mut(); ar.max(1)];
                Z3_query_constructor(self.c, k, ar as u32, &mut c, &mut t, acc.as_mut_ptr());
                self.fns.insert(format!("s:{n}"), c);
            }
            out
        }
    }
    /// application (also nullary) of a registered declaration
    pub fn papp(&self, f: &str, a: &[A]) -> A {
        unsafe { Z3_mk_app(self.c, self.fns[f], a.len() as u32, a.as_ptr()) }
    }
    pub fn not(&self, a: A) -> A {
        if a == self.tru {
            self.fls
        } else if a == self.fls {
            self.tru
        } else {
            unsafe { Z3_mk_not(self.c, a) }
        }
    }
    pub fn and(&self, v: &[A]) -> A {
        let mut w: Vec<A> = vec![];
        for &x in v {
            if x == self.fls {
                return x;
            }
            if x != self.tru && !w.contains(&x) {
                w.push(x)
            }
        }
        match w.len() {
            0 => self.tru,
            1 => w[0],
            _ => unsafe { Z3_mk_and(self.c, w.len() as u32, w.as_ptr()) },
        }
    }
    pub fn or(&self, v: &[A]) -> A {
        let mut w: Vec<A> = vec![];
        let mut seen = std::collections::HashSet::new();
        for &x in v {
            if x == self.tru {
                return x;
            }
            if x != self.fls && seen.insert(x) {
                w.push(x)
            }
        }
        match w.len() {
            0 => self.fls,
            1 => w[0],
            _ => unsafe { Z3_mk_or(self.c, w.len() as u32, w.as_ptr()) },
        }
    }
    pub fn imp(&self, a: A, b: A) -> A {
        self.or(&[self.not(a), b])
    }
    pub fn eq(&self, a: A, b: A) -> A {
        if a == b {
            return self.tru;
        }
        if a == self.tru {
            return b;
        }
        if b == self.tru {
            return a;
        }
        if a == self.fls {
            return self.not(b);
        }
        if b == self.fls {
            return self.not(a);
        }
        unsafe { Z3_mk_eq(self.c, a, b) }
    }
    pub fn ite(&self, c: A, a: A, b: A) -> A {
        if c == self.tru || a == b {
            a
        } else if c == self.fls {
            b
        } else {
            unsafe { Z3_mk_ite(self.c, c, a, b) }
        }
    }
    pub fn distinct(&self, v: &[A]) -> A {
        if v.len() < 2 {
            return self.tru;
        }
        unsafe { Z3_mk_distinct(self.c, v.len() as u32, v.as_ptr()) }
    }
    pub fn assert(&self, a: A) {
        unsafe { Z3_solver_assert(self.c, self.s, a) }
    }
    /// is the SMT-LIB text unsatisfiable?
    pub fn text(t: &str, ms: u32) -> (Res, f64) {
        let mut z = Z::new(ms);
        let k = CString::new(t).unwrap();
        unsafe { Z3_solver_from_string(z.c, z.s, k.as_ptr()) };
        (z.check(), z.secs)
    }
    pub fn push(&self) {
        unsafe { Z3_solver_push(self.c, self.s) }
    }
    pub fn pop(&self) {
        unsafe { Z3_solver_pop(self.c, self.s, 1) }
    }
    pub fn check(&mut self) -> Res {
        let t = std::time::Instant::now();
        let r = unsafe { Z3_solver_check(self.c, self.s) };
        self.queries += 1;
        self.secs += t.elapsed().as_secs_f64();
        match r {
            1 => Res::Sat,
            -1 => Res::Unsat,
            _ => Res::Unknown,
        }
    }
    pub fn truth(&self, xs: &[A]) -> Vec<bool> {
        unsafe {
            let m = Z3_solver_get_model(self.c, self.s);
            Z3_model_inc_ref(self.c, m);
            xs.iter()
                .map(|&x| {
                    let mut v = std::ptr::null_mut();
                    Z3_model_eval(self.c, m, x, true, &mut v) && v == self.tru
                })
                .collect()
        }
    }
    #[allow(dead_code)]
    pub fn show(&self, a: A) -> String {
        unsafe { CStr::from_ptr(Z3_ast_to_string(self.c, a)).to_string_lossy().into_owned() }
    }
    #[allow(dead_code)]
    pub fn dump(&self) -> String {
        unsafe { CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned() }
    }
}
