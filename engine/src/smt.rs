//! z3 through its C API
use crate::term::{Op, Terms, T};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, mc: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_eval_smtlib2_string(c: P, s: *const c_char) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
}
extern "C" fn on_err(_c: P, e: c_int) { eprintln!("z3 error {e}"); unsafe { crate::sys::_exit(70) } }
extern "C" fn on_err_quiet(_c: P, _e: c_int) {}

pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

/// evaluate an SMT-LIB script in a fresh context; returns z3's textual answer
pub fn eval_script(s: &str) -> String {
    unsafe {
        let cfg = Z3_mk_config();
        let ctx = Z3_mk_context(cfg);
        Z3_set_error_handler(ctx, on_err_quiet);
        let cs = CString::new(s).unwrap();
        let r = CStr::from_ptr(Z3_eval_smtlib2_string(ctx, cs.as_ptr())).to_string_lossy().into_owned();
        Z3_del_context(ctx);
        r
    }
}

pub struct Solver {
    c: P,
    s: P,
    bv: Vec<P>,   // term -> bv ast
    bl: Vec<P>,   // term -> bool ast (width 1)
    pub queries: u64,
    pub nanos: u64,
    pub unknowns: u64,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum R { Sat, Unsat, Unknown }

impl Solver {
    pub fn new(rlimit: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            for (k, v) in [("model", "true"), ("auto_config", "true")] {
                let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap());
                Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            }
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_err);
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            if rlimit > 0 {
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let k = CString::new("rlimit").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), rlimit);
                Z3_solver_set_params(c, s, p);
            }
            Solver { c, s, bv: vec![], bl: vec![], queries: 0, nanos: 0, unknowns: 0 }
        }
    }
    fn grow(&mut self, n: usize) {
        if self.bv.len() < n { self.bv.resize(n, std::ptr::null_mut()); self.bl.resize(n, std::ptr::null_mut()) }
    }
    fn is_boolop(op: Op, w: u32) -> bool {
        w == 1 && !matches!(op, Op::Var | Op::Extract)
    }
    pub fn boolean(&mut self, ts: &Terms, t: T) -> P {
        self.grow(ts.n.len());
        self.build(ts, t);
        self.as_bool(t, ts)
    }
    fn as_bool(&mut self, t: T, ts: &Terms) -> P {
        let c = self.c;
        if self.bl[t as usize].is_null() {
            debug_assert_eq!(ts.w(t), 1);
            unsafe {
                let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                let r = Z3_mk_eq(c, self.bv[t as usize], one);
                Z3_inc_ref(c, r);
                self.bl[t as usize] = r;
            }
        }
        self.bl[t as usize]
    }
    fn as_bv(&mut self, t: T, _ts: &Terms) -> P {
        let c = self.c;
        if self.bv[t as usize].is_null() {
            unsafe {
                let s = Z3_mk_bv_sort(c, 1);
                let one = Z3_mk_unsigned_int64(c, 1, s);
                let zero = Z3_mk_unsigned_int64(c, 0, s);
                let r = Z3_mk_ite(c, self.bl[t as usize], one, zero);
                Z3_inc_ref(c, r);
                self.bv[t as usize] = r;
            }
        }
        self.bv[t as usize]
    }
    fn built(&self, t: T) -> bool { !self.bv[t as usize].is_null() || !self.bl[t as usize].is_null() }
    fn build(&mut self, ts: &Terms, t: T) {
        let c = self.c;
        let mut stack = vec![t];
        while let Some(&t) = stack.last() {
            if self.built(t) { stack.pop(); continue }
            let n = ts.n[t as usize];
            let kids: &[T] = match n.op {
                Op::Const | Op::Var => &[],
                Op::ZExt | Op::SExt | Op::Extract => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            let mut ready = true;
            for k in kids { if !self.built(*k) { stack.push(*k); ready = false } }
            if !ready { continue }
            unsafe {
                let r;
                let mut isb = Self::is_boolop(n.op, n.w);
                match n.op {
                    Op::Const => { isb = false; r = Z3_mk_unsigned_int64(c, n.k, Z3_mk_bv_sort(c, n.w)) }
                    Op::Var => {
                        let nm = CString::new(format!("v{}", n.k)).unwrap();
                        r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, n.w));
                    }
                    Op::ZExt => { let a = self.as_bv(n.a, ts); r = Z3_mk_zero_ext(c, n.w - ts.w(n.a), a) }
                    Op::SExt => { let a = self.as_bv(n.a, ts); r = Z3_mk_sign_ext(c, n.w - ts.w(n.a), a) }
                    Op::Extract => { let a = self.as_bv(n.a, ts); r = Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, a) }
                    Op::Concat => { let (a, b) = (self.as_bv(n.a, ts), self.as_bv(n.b, ts)); r = Z3_mk_concat(c, a, b); isb = false }
                    Op::Ite => {
                        let cc = self.as_bool(n.a, ts);
                        let (x, y) = if n.w == 1 { (self.as_bool(n.b, ts), self.as_bool(n.c, ts)) } else { (self.as_bv(n.b, ts), self.as_bv(n.c, ts)) };
                        r = Z3_mk_ite(c, cc, x, y);
                    }
                    Op::And | Op::Or | Op::Xor if n.w == 1 => {
                        let (x, y) = (self.as_bool(n.a, ts), self.as_bool(n.b, ts));
                        let xs = [x, y];
                        r = match n.op {
                            Op::And => Z3_mk_and(c, 2, xs.as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, xs.as_ptr()),
                            _ => if ts.konst(n.b) == Some(1) { Z3_mk_not(c, x) } else { Z3_mk_xor(c, x, y) },
                        };
                    }
                    op => {
                        let (a, b) = (self.as_bv(n.a, ts), self.as_bv(n.b, ts));
                        r = match op {
                            Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                            Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                            Op::Eq => Z3_mk_eq(c, a, b), Op::Ult => Z3_mk_bvult(c, a, b), Op::Ule => Z3_mk_bvule(c, a, b),
                            Op::Slt => Z3_mk_bvslt(c, a, b), Op::Sle => Z3_mk_bvsle(c, a, b),
                            _ => unreachable!(),
                        };
                        isb = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
                    }
                }
                Z3_inc_ref(c, r);
                if isb { self.bl[t as usize] = r } else { self.bv[t as usize] = r }
            }
            stack.pop();
        }
    }
    pub fn assert(&mut self, ts: &Terms, t: T) {
        let b = self.boolean(ts, t);
        unsafe { Z3_solver_assert(self.c, self.s, b) }
    }
    /// check path condition ∧ t; on Sat loads the model into `ts.model`
    pub fn check(&mut self, ts: &mut Terms, t: Option<T>) -> R {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let lits: Vec<P> = t.map(|t| self.boolean(ts, t)).into_iter().collect();
        let r = unsafe { Z3_solver_check_assumptions(self.c, self.s, lits.len() as u32, lits.as_ptr()) };
        let r = match r { 1 => R::Sat, -1 => R::Unsat, _ => R::Unknown };
        if r == R::Sat {
            unsafe {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                for i in 0..ts.vars.len() {
                    let tt = ts.vars[i].2;
                    self.grow(ts.n.len());
                    if !self.built(tt) { continue }
                    let a = self.as_bv(tt, ts);
                    let mut v: P = std::ptr::null_mut();
                    let mut x = 0u64;
                    if Z3_model_eval(self.c, m, a, true, &mut v) && Z3_get_numeral_uint64(self.c, v, &mut x) { ts.model[i] = x }
                }
                Z3_model_dec_ref(self.c, m);
            }
            ts.new_model();
        }
        if r == R::Unknown { self.unknowns += 1 }
        self.nanos += t0.elapsed().as_nanos() as u64;
        r
    }
}
