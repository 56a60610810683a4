//! LLVM IR (textual) front end: module index, types, lazily parsed functions
use crate::fx::Map;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Vec(u32, TyId), Arr(u64, TyId), St(Vec<TyId>, bool), Meta, Label, Opaque }
pub struct TyInfo { pub ty: Ty, pub size: u64, pub align: u64, pub offs: Vec<u64> }

pub const VOID: TyId = 0;
pub const PTR: TyId = 1;
pub const I1: TyId = 2;
pub const I8: TyId = 3;
pub const I32: TyId = 4;
pub const I64: TyId = 5;

pub struct Types { pub t: Vec<TyInfo>, map: Map<Ty, TyId>, pub named: Map<String, TyId> }
impl Types {
    pub fn new() -> Self {
        let mut s = Types { t: vec![], map: Default::default(), named: Default::default() };
        for t in [Ty::Void, Ty::Ptr, Ty::Int(1), Ty::Int(8), Ty::Int(32), Ty::Int(64)] { s.mk(t); }
        s
    }
    pub fn mk(&mut self, ty: Ty) -> TyId {
        if let Some(t) = self.map.get(&ty) { return *t }
        let mut offs = vec![];
        let (size, align) = match &ty {
            Ty::Void | Ty::Meta | Ty::Label | Ty::Opaque => (0, 1),
            Ty::Ptr | Ty::F64 => (8, 8),
            Ty::F32 => (4, 4),
            Ty::Int(w) => { let b = ((*w + 7) / 8) as u64; let a = b.next_power_of_two().min(16); (b.next_multiple_of(a), a) }
            Ty::Vec(n, e) => {
                let bits = match self.t[*e as usize].ty { Ty::Int(w) => w as u64 * *n as u64, _ => self.t[*e as usize].size * 8 * *n as u64 };
                let b = (bits + 7) / 8; let a = b.next_power_of_two(); (b.next_multiple_of(a), a)
            }
            Ty::Arr(n, e) => { let i = &self.t[*e as usize]; (i.size * n, i.align) }
            Ty::St(fs, packed) => {
                let (mut o, mut al) = (0u64, 1u64);
                for f in fs {
                    let i = &self.t[*f as usize];
                    let a = if *packed { 1 } else { i.align };
                    o = o.next_multiple_of(a);
                    offs.push(o);
                    o += i.size;
                    al = al.max(a);
                }
                (o.next_multiple_of(al), al)
            }
        };
        let id = self.t.len() as TyId;
        self.map.insert(ty.clone(), id);
        self.t.push(TyInfo { ty, size, align, offs });
        id
    }
    pub fn int(&mut self, w: u32) -> TyId { self.mk(Ty::Int(w)) }
    #[inline] pub fn size(&self, t: TyId) -> u64 { self.t[t as usize].size }
    #[inline] pub fn ty(&self, t: TyId) -> &Ty { &self.t[t as usize].ty }
    /// scalar bit width
    pub fn bits(&self, t: TyId) -> u32 { match self.ty(t) { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, x => panic!("bits of {x:?}") } }
    pub fn is_scalar(&self, t: TyId) -> bool { matches!(self.ty(t), Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) }
}

#[derive(Clone, Debug)]
pub enum Con { Int(u128), Null, Zero, Undef, Glob(String), Str(Vec<u8>), Agg(Vec<(TyId, Con)>), Splat(TyId, Box<Con>), Gep(TyId, Box<Con>, Vec<(TyId, Con)>), Cast(&'static str, TyId, Box<Con>, TyId), Bin(&'static str, TyId, Box<Con>, Box<Con>) }

#[derive(Clone, Debug)]
pub enum Opn { R(u32), K(Con), V(crate::interp::V) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast, UiToFp, SiToFp, FpToUi, FpToSi, FpExt, FpTrunc }
#[derive(Clone, Debug)]
pub enum Ins {
    Bin(crate::term::Op, TyId, u32, Opn, Opn),
    FBin(u8, TyId, u32, Opn, Opn),
    FNeg(TyId, u32, Opn),
    ICmp(Pred, TyId, u32, Opn, Opn),
    FCmp(String, TyId, u32, Opn, Opn),
    Load(u32, TyId, Opn),
    Store(TyId, Opn, Opn),
    Gep(u32, Opn, Vec<(TyId, Opn, GepStep)>),
    Cast(Cast, TyId, TyId, u32, Opn),
    Select(TyId, TyId, u32, Opn, Opn, Opn),
    Call(Option<u32>, TyId, Opn, Vec<(TyId, Opn)>, Option<u32>),
    Asm(Option<u32>, TyId, String, Vec<(TyId, Opn)>),
    Br(u32), CondBr(Opn, u32, u32), Switch(TyId, Opn, u32, Vec<(u128, u32)>),
    Ret(Option<(TyId, Opn)>), Unreachable,
    Alloca(u32, TyId, u64, u64),
    Extract(u32, TyId, Opn, Vec<u32>),
    Insert(u32, TyId, Opn, TyId, Opn, Vec<u32>),
    Rmw(String, u32, TyId, Opn, Opn),
    CmpXchg(u32, TyId, Opn, Opn, Opn),
    Fence, Copy(TyId, u32, Opn),
    ExtractElt(u32, TyId, Opn, TyId, Opn),
    InsertElt(u32, TyId, Opn, Opn, TyId, Opn),
    Shuffle(u32, TyId, Opn, Opn, Vec<i32>),
    Trap(&'static str),
}
#[derive(Clone, Debug)]
pub enum GepStep { Scale(u64), Field(u64) }

pub struct Block { pub phis: Vec<(u32, TyId, Vec<(Opn, u32)>)>, pub ins: Vec<Ins> }
pub struct RawFunc { pub params: Vec<(u32, TyId)>, pub nregs: u32, pub blocks: Vec<Block> }

pub struct GlobalDef { pub init_off: usize, pub ext: bool, pub tls: bool, pub section: Option<String>, pub align: u64 }
pub struct Module {
    pub text: &'static [u8],
    pub defs: Map<String, usize>,
    pub globals: Map<String, GlobalDef>,
    pub order: Vec<String>,
    pub decls: Map<String, ()>,
}

pub struct P<'a> { pub b: &'a [u8], pub i: usize }
fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }
impl<'a> P<'a> {
    pub fn ws(&mut self) {
        loop {
            while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') { self.i += 1 }
            if self.i < self.b.len() && self.b[self.i] == b';' { self.eol() } else { return }
        }
    }
    pub fn end_ins(&mut self) { while self.i > 0 && matches!(self.b[self.i - 1], b' ' | b'\n' | b'\t') { self.i -= 1 } self.eol() }
    pub fn eol(&mut self) { while self.i < self.b.len() && self.b[self.i] != b'\n' { self.i += 1 } }
    pub fn peek(&mut self) -> u8 { self.ws(); if self.i < self.b.len() { self.b[self.i] } else { 0 } }
    pub fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    pub fn need(&mut self, c: u8) { if !self.eat(c) { self.die(&format!("expected '{}'", c as char)) } }
    pub fn die(&self, m: &str) -> ! {
        let s = self.i.saturating_sub(80);
        let e = (self.i + 120).min(self.b.len());
        panic!("IR parse: {m} near <<{}>>HERE<<{}>>", String::from_utf8_lossy(&self.b[s..self.i]), String::from_utf8_lossy(&self.b[self.i..e]))
    }
    pub fn peek_word(&mut self) -> &'a [u8] {
        self.ws();
        let mut j = self.i;
        while j < self.b.len() && idc(self.b[j]) { j += 1 }
        &self.b[self.i..j]
    }
    pub fn word(&mut self) -> &'a [u8] { let w = self.peek_word(); self.i += w.len(); w }
    pub fn kw(&mut self, k: &str) -> bool { if self.peek_word() == k.as_bytes() { self.i += k.len(); true } else { false } }
    pub fn name(&mut self) -> String {
        // after % or @
        if self.b[self.i] == b'"' {
            self.i += 1;
            let s = self.i;
            while self.b[self.i] != b'"' { self.i += 1 }
            let r = String::from_utf8_lossy(&self.b[s..self.i]).into_owned();
            self.i += 1;
            r
        } else { String::from_utf8_lossy(self.word()).into_owned() }
    }
    pub fn num(&mut self) -> i128 {
        self.ws();
        let neg = self.b[self.i] == b'-';
        if neg { self.i += 1 }
        let s = self.i;
        let mut v: i128 = 0;
        while self.i < self.b.len() && self.b[self.i].is_ascii_digit() { v = v.wrapping_mul(10).wrapping_add((self.b[self.i] - b'0') as i128); self.i += 1 }
        if s == self.i { self.die("number") }
        if neg { v.wrapping_neg() } else { v }
    }
    fn skip_paren(&mut self) {
        let mut d = 0;
        loop {
            match self.b[self.i] { b'(' => d += 1, b')' => { d -= 1; if d == 0 { self.i += 1; return } }, b'"' => { self.i += 1; while self.b[self.i] != b'"' { self.i += 1 } }, _ => {} }
            self.i += 1;
        }
    }
    pub fn string(&mut self) -> Vec<u8> {
        self.need(b'"');
        let mut v = vec![];
        loop {
            let c = self.b[self.i];
            self.i += 1;
            match c {
                b'"' => return v,
                b'\\' => {
                    let h = |c: u8| (c as char).to_digit(16);
                    if let (Some(a), Some(b)) = (h(self.b[self.i]), h(self.b[self.i + 1])) { v.push((a * 16 + b) as u8); self.i += 2 } else { v.push(b'\\'); if self.b[self.i] == b'\\' { self.i += 1 } }
                }
                c => v.push(c),
            }
        }
    }
    pub fn ty(&mut self, ts: &mut Types) -> TyId {
        let c = self.peek();
        match c {
            b'[' => { self.i += 1; let n = self.num() as u64; if !self.kw("x") { self.die("x") } let e = self.ty(ts); self.need(b']'); ts.mk(Ty::Arr(n, e)) }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { let t = self.st(ts, true); self.need(b'>'); return t }
                let n = self.num() as u32; if !self.kw("x") { self.die("x") } let e = self.ty(ts); self.need(b'>'); ts.mk(Ty::Vec(n, e))
            }
            b'{' => self.st(ts, false),
            b'%' => { self.i += 1; let n = self.name(); *ts.named.get(&n).unwrap_or_else(|| panic!("type {n}")) }
            _ => {
                let w = self.word();
                match w {
                    b"void" => VOID, b"ptr" => { if self.peek_word() == b"addrspace" { self.word(); self.skip_paren() } PTR }
                    b"float" => ts.mk(Ty::F32), b"double" => ts.mk(Ty::F64), b"metadata" => ts.mk(Ty::Meta), b"label" => ts.mk(Ty::Label), b"opaque" => ts.mk(Ty::Opaque),
                    _ if w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()) => ts.int(std::str::from_utf8(&w[1..]).unwrap().parse().unwrap()),
                    _ => { self.i -= w.len(); self.die("type") }
                }
            }
        }
    }
    fn st(&mut self, ts: &mut Types, packed: bool) -> TyId {
        self.need(b'{');
        let mut v = vec![];
        while !self.eat(b'}') { v.push(self.ty(ts)); self.eat(b','); }
        ts.mk(Ty::St(v, packed))
    }
    /// skip attribute words (between a type and a value, or before a return type)
    pub fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'#' { self.i += 1; self.word(); continue }
            if c == b'"' { self.string(); if self.eat(b'=') { self.string(); } continue }
            let w = self.peek_word();
            if w.is_empty() || !w[0].is_ascii_lowercase() { return }
            match w {
                b"true" | b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"splat" | b"getelementptr" | b"inttoptr" | b"ptrtoint" | b"ptrtoaddr" | b"add" | b"sub" | b"xor" | b"trunc" | b"bitcast" | b"c" | b"asm"
                | b"void" | b"ptr" | b"float" | b"double" | b"metadata" => return,
                _ if w[0] == b'i' && w.len() > 1 && w[1..].iter().all(|c| c.is_ascii_digit()) => return,
                _ if w[0] == b'f' && w.starts_with(b"f0x") => return,
                b"align" => { self.word(); if self.peek() == b'(' { self.skip_paren() } else { self.num(); } }
                b"to" | b"unwind" => return,
                _ => { self.word(); if self.i < self.b.len() && self.b[self.i] == b'(' { self.skip_paren() } }
            }
        }
    }
    pub fn con(&mut self, ts: &mut Types, ty: TyId) -> Con {
        let c = self.peek();
        match c {
            b'@' => { self.i += 1; Con::Glob(self.name()) }
            b'[' => { self.i += 1; self.agg(ts, b']') }
            b'{' => { self.i += 1; self.agg(ts, b'}') }
            b'<' => { self.i += 1; if self.peek() == b'{' { self.i += 1; let r = self.agg(ts, b'}'); self.need(b'>'); r } else { self.agg(ts, b'>') } }
            b'0'..=b'9' | b'-' | b'+' => {
                match ts.ty(ty) {
                    Ty::F64 | Ty::F32 => {
                        let s = self.i;
                        while matches!(self.b[self.i], b'0'..=b'9' | b'+' | b'-' | b'.' | b'e' | b'E' | b'x' | b'A'..=b'D' | b'F' | b'a'..=b'd' | b'f' | b'i' | b'n' | b'q') { self.i += 1 }
                        let t = std::str::from_utf8(&self.b[s..self.i]).unwrap();
                        let f64v = if let Some(h) = t.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { match t.trim_start_matches(['+', '-']) { "qnan" | "nan" => f64::NAN, _ => t.parse().unwrap_or_else(|_| panic!("float {t}")) } };
                        if *ts.ty(ty) == Ty::F32 { Con::Int((f64v as f32).to_bits() as u128) } else { Con::Int(f64v.to_bits() as u128) }
                    }
                    _ => { let v = self.num(); let w = ts.bits(ty); Con::Int(v as u128 & crate::term::mask128(w)) }
                }
            }
            _ => {
                let w = self.word();
                match w {
                    b"true" => Con::Int(1), b"false" => Con::Int(0), b"null" | b"none" => Con::Null,
                    b"undef" | b"poison" => Con::Undef, b"zeroinitializer" => Con::Zero,
                    b"c" => Con::Str(self.string()),
                    b"splat" => { self.need(b'('); let t = self.ty(ts); let k = self.con(ts, t); self.need(b')'); Con::Splat(t, Box::new(k)) }
                    b"getelementptr" => {
                        while self.peek() != b'(' { self.word(); if self.b[self.i] == b'(' && self.b[self.i - 1] == b'e' { self.skip_paren() } }
                        self.need(b'(');
                        let st = self.ty(ts); self.need(b',');
                        let pt = self.ty(ts); self.attrs(); let b = self.con(ts, pt);
                        let mut ix = vec![];
                        while self.eat(b',') { let t = self.ty(ts); let k = self.con(ts, t); ix.push((t, k)) }
                        self.need(b')');
                        Con::Gep(st, Box::new(b), ix)
                    }
                    b"inttoptr" | b"ptrtoint" | b"trunc" | b"bitcast" | b"ptrtoaddr" => {
                        self.need(b'('); let t = self.ty(ts); let k = self.con(ts, t);
                        if !self.kw("to") { self.die("to") }
                        let t2 = self.ty(ts); self.need(b')');
                        Con::Cast(if w == b"trunc" { "trunc" } else { "cast" }, t, Box::new(k), t2)
                    }
                    b"add" | b"sub" | b"xor" => {
                        while self.peek() != b'(' { self.word(); }
                        self.need(b'('); let t = self.ty(ts); let a = self.con(ts, t); self.need(b',');
                        let t2 = self.ty(ts); let b = self.con(ts, t2); self.need(b')');
                        Con::Bin(match w { b"add" => "add", b"sub" => "sub", _ => "xor" }, t, Box::new(a), Box::new(b))
                    }
                    _ if w.starts_with(b"f0x") => Con::Int(u64::from_str_radix(std::str::from_utf8(&w[3..]).unwrap(), 16).unwrap() as u128),
                    _ => { self.i -= w.len(); self.die("constant") }
                }
            }
        }
    }
    fn agg(&mut self, ts: &mut Types, end: u8) -> Con {
        let mut v = vec![];
        while !self.eat(end) { let t = self.ty(ts); let k = self.con(ts, t); v.push((t, k)); self.eat(b','); }
        Con::Agg(v)
    }
}

pub fn index(text: &'static [u8], ts: &mut Types) -> Module {
    let mut m = Module { text, defs: Default::default(), globals: Default::default(), order: vec![], decls: Default::default() };
    let mut i = 0;
    let mut named: Vec<(String, usize)> = vec![];
    while i < text.len() {
        match text[i] {
            b'd' if text[i..].starts_with(b"define") || text[i..].starts_with(b"declare") => {
                let e = memchr(b'\n', text, i);
                let at = memchr(b'@', text, i);
                assert!(at < e);
                let mut p = P { b: text, i: at + 1 };
                let n = p.name();
                if text[i + 2] == b'f' { m.defs.insert(n.clone(), i); } else { m.decls.insert(n.clone(), ()); }
                m.order.push(n);
                i = e;
            }
            b'@' => {
                let mut p = P { b: text, i: i + 1 };
                let n = p.name();
                p.need(b'=');
                let mut ext = false;
                let mut tls = false;
                loop {
                    let w = p.peek_word();
                    match w {
                        b"global" | b"constant" => { p.word(); break }
                        b"external" | b"extern_weak" => { ext = true; p.word(); }
                        b"alias" => p.die("alias"),
                        b"thread_local" => { tls = true; p.word(); if p.b[p.i] == b'(' { p.skip_paren() } }
                        b"unnamed_addr" | b"private" | b"internal" => { p.word(); if p.b[p.i] == b'(' { p.skip_paren() } }
                        _ => { p.word(); if p.b[p.i] == b'(' { p.skip_paren() } if w.is_empty() { p.die("global") } }
                    }
                }
                let off = p.i;
                let e = memchr(b'\n', text, i);
                let line = &text[off..e];
                let section = find(line, b", section \"").map(|k| { let s = k + 11; let q = memchr(b'"', line, s); String::from_utf8_lossy(&line[s..q]).into_owned() });
                let align = rfind(line, b", align ").map(|k| { let mut p = P { b: line, i: k + 8 }; p.num() as u64 }).unwrap_or(16);
                m.globals.insert(n, GlobalDef { init_off: off, ext, tls, section, align });
                i = e;
            }
            b'%' => {
                let mut p = P { b: text, i: i + 1 };
                let n = p.name();
                p.need(b'=');
                p.kw("type");
                named.push((n, p.i));
                i = memchr(b'\n', text, i);
            }
            _ => {}
        }
        i = memchr(b'\n', text, i) + 1;
    }
    for (n, o) in named { let mut p = P { b: text, i: o }; let t = p.ty(ts); ts.named.insert(n, t); }
    m
}
pub fn memchr(c: u8, b: &[u8], from: usize) -> usize { b[from..].iter().position(|x| *x == c).map(|k| k + from).unwrap_or(b.len()) }
fn find(b: &[u8], n: &[u8]) -> Option<usize> { if b.len() > 100000 { return None } b.windows(n.len()).position(|w| w == n) }
fn rfind(b: &[u8], n: &[u8]) -> Option<usize> { let s = b.len().saturating_sub(400); b[s..].windows(n.len()).rposition(|w| w == n).map(|k| k + s) }

struct F<'a> { p: P<'a>, regs: Map<&'a [u8], u32>, n: u32, labels: Map<Vec<u8>, u32>, nblocks: u32 }
impl<'a> F<'a> {
    fn reg(&mut self, n: &'a [u8]) -> u32 { if let Some(r) = self.regs.get(n) { return *r } let r = self.n; self.n += 1; self.regs.insert(n, r); r }
    fn label(&mut self, n: &[u8]) -> u32 { if let Some(r) = self.labels.get(n) { return *r } let r = self.nblocks; self.nblocks += 1; self.labels.insert(n.to_vec(), r); r }
    fn lname(&mut self) -> &'a [u8] {
        // after %
        if self.p.b[self.p.i] == b'"' { let s = self.p.i; self.p.i += 1; while self.p.b[self.p.i] != b'"' { self.p.i += 1 } self.p.i += 1; &self.p.b[s + 1..self.p.i - 1] } else { self.p.word() }
    }
    fn op(&mut self, ts: &mut Types, t: TyId) -> Opn {
        if self.p.peek() == b'%' { self.p.i += 1; let n = self.lname(); Opn::R(self.reg(n)) } else { Opn::K(self.p.con(ts, t)) }
    }
    fn top(&mut self, ts: &mut Types) -> (TyId, Opn) { let t = self.p.ty(ts); self.p.attrs(); let o = self.op(ts, t); (t, o) }
    fn lab(&mut self) -> u32 { if !self.p.kw("label") { self.p.die("label") } self.p.need(b'%'); let n = self.lname(); self.label(n) }
    fn flags(&mut self) {
        loop {
            let w = self.p.peek_word();
            match w { b"nuw" | b"nsw" | b"exact" | b"disjoint" | b"inbounds" | b"nusw" | b"nneg" | b"samesign" | b"fast" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc" | b"volatile" | b"atomic" | b"weak" | b"inrange" => { self.p.word(); if self.p.b[self.p.i] == b'(' { self.p.skip_paren() } } _ => return }
        }
    }
}
pub fn parse_func(m: &Module, ts: &mut Types, off: usize) -> RawFunc {
    use crate::term::Op;
    let mut p = P { b: m.text, i: off };
    p.kw("define");
    // skip to '@'
    p.i = memchr(b'@', m.text, p.i) + 1;
    p.name();
    let mut f = F { p, regs: Default::default(), n: 0, labels: Default::default(), nblocks: 0 };
    f.p.need(b'(');
    let mut params = vec![];
    let mut unnamed = 0;
    while !f.p.eat(b')') {
        if f.p.peek() == b'.' { f.p.i += 3; continue }
        let t = f.p.ty(ts);
        f.p.attrs();
        if f.p.eat(b'%') { let n = f.lname(); if n.iter().all(|c| c.is_ascii_digit()) { unnamed += 1 } let r = f.reg(n); params.push((r, t)) } else { unnamed += 1; let r = f.n; f.n += 1; params.push((r, t)) }
        f.p.eat(b',');
    }
    // to body
    while f.p.b[f.p.i] != b'\n' { f.p.i += 1 }
    // (the '{' ends the define line)
    let mut blocks: Vec<(u32, Block)> = vec![];
    let mut cur: Option<(u32, Block)> = None;
    loop {
        let c = f.p.peek();
        if c == b'}' { break }
        // label?
        {
            let s = f.p.i;
            let is_label;
            let nm: Vec<u8>;
            if c == b'"' { let v = f.p.string(); is_label = f.p.b[f.p.i] == b':'; nm = v }
            else if idc(c) { let w = f.p.word(); is_label = f.p.b[f.p.i] == b':'; nm = w.to_vec() }
            else { is_label = false; nm = vec![] }
            if is_label {
                f.p.eol();
                if let Some(b) = cur.take() { blocks.push(b) }
                let l = f.label(&nm);
                cur = Some((l, Block { phis: vec![], ins: vec![] }));
                continue;
            }
            f.p.i = s;
        }
        if cur.is_none() {
            // unnamed entry block
            let nm = unnamed.to_string();
            let l = f.label(nm.as_bytes());
            cur = Some((l, Block { phis: vec![], ins: vec![] }));
        }
        let mut dst: Option<u32> = None;
        if c == b'%' { f.p.i += 1; let n = f.lname(); dst = Some(f.reg(n)); f.p.need(b'=') }
        let blk = &mut cur.as_mut().unwrap().1;
        let w = f.p.word();
        if c == b'#' { f.p.eol(); continue } // debug records
        let d = dst.unwrap_or(u32::MAX);
        let ins = match w {
            b"add" | b"sub" | b"mul" | b"udiv" | b"urem" | b"sdiv" | b"srem" | b"shl" | b"lshr" | b"ashr" | b"and" | b"or" | b"xor" => {
                let o = match w { b"add" => Op::Add, b"sub" => Op::Sub, b"mul" => Op::Mul, b"udiv" => Op::UDiv, b"urem" => Op::URem, b"sdiv" => Op::SDiv, b"srem" => Op::SRem, b"shl" => Op::Shl, b"lshr" => Op::LShr, b"ashr" => Op::AShr, b"and" => Op::And, b"or" => Op::Or, _ => Op::Xor };
                f.flags();
                let t = f.p.ty(ts); let a = f.op(ts, t); f.p.need(b','); let b = f.op(ts, t);
                Ins::Bin(o, t, d, a, b)
            }
            b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => { let k = match w { b"fadd" => 0, b"fsub" => 1, b"fmul" => 2, b"fdiv" => 3, _ => 4 }; f.flags(); let t = f.p.ty(ts); let a = f.op(ts, t); f.p.need(b','); let b = f.op(ts, t); Ins::FBin(k, t, d, a, b) }
            b"fneg" => { f.flags(); let (t, a) = f.top(ts); Ins::FNeg(t, d, a) }
            b"icmp" => {
                f.flags();
                let pr = match f.p.word() { b"eq" => Pred::Eq, b"ne" => Pred::Ne, b"ugt" => Pred::Ugt, b"uge" => Pred::Uge, b"ult" => Pred::Ult, b"ule" => Pred::Ule, b"sgt" => Pred::Sgt, b"sge" => Pred::Sge, b"slt" => Pred::Slt, b"sle" => Pred::Sle, _ => f.p.die("pred") };
                let t = f.p.ty(ts); let a = f.op(ts, t); f.p.need(b','); let b = f.op(ts, t);
                Ins::ICmp(pr, t, d, a, b)
            }
            b"fcmp" => { f.flags(); let pr = String::from_utf8_lossy(f.p.word()).into_owned(); let t = f.p.ty(ts); let a = f.op(ts, t); f.p.need(b','); let b = f.op(ts, t); Ins::FCmp(pr, t, d, a, b) }
            b"load" => { f.flags(); let t = f.p.ty(ts); f.p.need(b','); let (_, a) = f.top(ts); Ins::Load(d, t, a) }
            b"store" => { f.flags(); let (t, v) = f.top(ts); f.p.need(b','); let (_, a) = f.top(ts); Ins::Store(t, v, a) }
            b"getelementptr" => {
                f.flags();
                let st = f.p.ty(ts); f.p.need(b',');
                let (bt, b) = f.top(ts);
                if !matches!(ts.ty(bt), Ty::Ptr) { f.p.die("vector gep") }
                let mut steps = vec![];
                let mut ty = st;
                let mut first = true;
                while { let s = f.p.i; if f.p.eat(b',') { if f.p.peek() == b'!' { f.p.i = s; false } else { true } } else { false } } {
                    let (it, io) = f.top(ts);
                    if first { steps.push((it, io, GepStep::Scale(ts.size(st)))); first = false; continue }
                    match ts.ty(ty).clone() {
                        Ty::Arr(_, e) | Ty::Vec(_, e) => { steps.push((it, io, GepStep::Scale(ts.size(e)))); ty = e }
                        Ty::St(fs, _) => { let k = match &io { Opn::K(Con::Int(k)) => *k as usize, Opn::K(Con::Zero) => 0, _ => f.p.die("gep field") }; let o = ts.t[ty as usize].offs[k]; steps.push((it, io, GepStep::Field(o))); ty = fs[k] }
                        _ => f.p.die("gep type"),
                    }
                }
                Ins::Gep(d, b, steps)
            }
            b"trunc" | b"zext" | b"sext" | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"uitofp" | b"sitofp" | b"fptoui" | b"fptosi" | b"fpext" | b"fptrunc" | b"ptrtoaddr" => {
                let k = match w { b"trunc" => Cast::Trunc, b"zext" => Cast::ZExt, b"sext" => Cast::SExt, b"ptrtoint" | b"ptrtoaddr" => Cast::PtrToInt, b"inttoptr" => Cast::IntToPtr, b"bitcast" => Cast::Bitcast, b"uitofp" => Cast::UiToFp, b"sitofp" => Cast::SiToFp, b"fptoui" => Cast::FpToUi, b"fptosi" => Cast::FpToSi, b"fpext" => Cast::FpExt, _ => Cast::FpTrunc };
                f.flags();
                let (t, a) = f.top(ts);
                if !f.p.kw("to") { f.p.die("to") }
                let t2 = f.p.ty(ts);
                Ins::Cast(k, t, t2, d, a)
            }
            b"select" => { f.flags(); let (ct, c) = f.top(ts); f.p.need(b','); let (t, a) = f.top(ts); f.p.need(b','); let (_, b) = f.top(ts); Ins::Select(ct, t, d, c, a, b) }
            b"freeze" => { let (t, a) = f.top(ts); Ins::Copy(t, d, a) }
            b"phi" => {
                f.flags();
                let t = f.p.ty(ts);
                let mut v = vec![];
                loop {
                    f.p.need(b'['); let o = f.op(ts, t); f.p.need(b','); f.p.need(b'%'); let n = f.lname(); let l = f.label(n); f.p.need(b']');
                    v.push((o, l));
                    let s = f.p.i;
                    if !f.p.eat(b',') { break }
                    if f.p.peek() != b'[' { f.p.i = s; break }
                }
                blk.phis.push((d, t, v));
                f.p.end_ins();
                continue;
            }
            b"br" => {
                if f.p.peek_word() == b"label" { let l = f.lab(); Ins::Br(l) } else {
                    let (_, c) = f.top(ts); f.p.need(b','); let a = f.lab(); f.p.need(b','); let b = f.lab();
                    Ins::CondBr(c, a, b)
                }
            }
            b"switch" => {
                let (t, v) = f.top(ts); f.p.need(b','); let dl = f.lab(); f.p.need(b'[');
                let mut cs = vec![];
                while !f.p.eat(b']') { let ct = f.p.ty(ts); let k = match f.p.con(ts, ct) { Con::Int(k) => k, Con::Zero | Con::Null => 0, _ => f.p.die("case") }; f.p.need(b','); let l = f.lab(); cs.push((k, l)) }
                Ins::Switch(t, v, dl, cs)
            }
            b"ret" => { let t = f.p.ty(ts); if t == VOID { Ins::Ret(None) } else { f.p.attrs(); let o = f.op(ts, t); Ins::Ret(Some((t, o))) } }
            b"unreachable" => Ins::Unreachable,
            b"alloca" => {
                let t = f.p.ty(ts);
                let mut n = 1; let mut al = 16;
                while f.p.peek() == b',' {
                    f.p.i += 1;
                    if f.p.kw("align") { al = f.p.num() as u64 } else if f.p.peek() == b'!' { break } else { let (_, k) = f.top(ts); match k { Opn::K(Con::Int(k)) => n = k as u64, _ => f.p.die("dynamic alloca") } }
                }
                Ins::Alloca(d, t, n, al)
            }
            b"extractvalue" => { let (t, a) = f.top(ts); let mut ix = vec![]; while { let s = f.p.i; if f.p.eat(b',') { if f.p.peek() == b'!' { f.p.i = s; false } else { true } } else { false } } { ix.push(f.p.num() as u32) } Ins::Extract(d, t, a, ix) }
            b"insertvalue" => { let (t, a) = f.top(ts); f.p.need(b','); let (et, e) = f.top(ts); let mut ix = vec![]; while { let s = f.p.i; if f.p.eat(b',') { if f.p.peek() == b'!' { f.p.i = s; false } else { true } } else { false } } { ix.push(f.p.num() as u32) } Ins::Insert(d, t, a, et, e, ix) }
            b"extractelement" => { let (t, a) = f.top(ts); f.p.need(b','); let (it, i) = f.top(ts); Ins::ExtractElt(d, t, a, it, i) }
            b"insertelement" => { let (t, a) = f.top(ts); f.p.need(b','); let (_, e) = f.top(ts); f.p.need(b','); let (it, i) = f.top(ts); Ins::InsertElt(d, t, a, e, it, i) }
            b"shufflevector" => {
                let (t, a) = f.top(ts); f.p.need(b','); let (_, b) = f.top(ts); f.p.need(b',');
                let mt = f.p.ty(ts); let k = f.p.con(ts, mt);
                let n = match ts.ty(mt) { Ty::Vec(n, _) => *n, _ => f.p.die("mask") };
                let mk = match k { Con::Zero => vec![0; n as usize], Con::Undef => vec![-1; n as usize], Con::Splat(_, k) => match *k { Con::Int(k) => vec![k as i32; n as usize], _ => vec![-1; n as usize] }, Con::Agg(v) => v.iter().map(|(_, k)| match k { Con::Int(k) => *k as i32, Con::Zero => 0, _ => -1 }).collect(), _ => f.p.die("mask") };
                Ins::Shuffle(d, t, a, b, mk)
            }
            b"atomicrmw" => { f.flags(); let o = String::from_utf8_lossy(f.p.word()).into_owned(); let (_, a) = f.top(ts); f.p.need(b','); let (t, v) = f.top(ts); Ins::Rmw(o, d, t, a, v) }
            b"cmpxchg" => { f.flags(); let (_, a) = f.top(ts); f.p.need(b','); let (t, c) = f.top(ts); f.p.need(b','); let (_, n) = f.top(ts); Ins::CmpXchg(d, t, a, c, n) }
            b"fence" => Ins::Fence,
            b"landingpad" => { f.p.eol(); loop { match f.p.peek_word() { b"cleanup" | b"catch" | b"filter" => f.p.eol(), _ => break } } blk.ins.push(Ins::Trap("landingpad")); continue }
            b"resume" => Ins::Trap("resume"),
            b"call" | b"tail" | b"musttail" | b"notail" | b"invoke" => {
                if w != b"call" && w != b"invoke" { f.p.word(); }
                f.flags();
                f.p.attrs();
                let rt = f.p.ty(ts);
                f.p.attrs();
                if f.p.peek() == b'(' { f.p.skip_paren() }
                if f.p.kw("asm") {
                    loop { match f.p.peek_word() { b"sideeffect" | b"alignstack" | b"inteldialect" | b"unwind" => { f.p.word(); } _ => break } }
                    let s = String::from_utf8_lossy(&f.p.string()).into_owned(); f.p.need(b','); let cons = String::from_utf8_lossy(&f.p.string()).into_owned();
                    f.p.need(b'(');
                    let mut args = vec![];
                    while !f.p.eat(b')') { args.push(f.top(ts)); f.p.eat(b','); }
                    Ins::Asm(dst, rt, format!("{s}|{cons}"), args)
                } else {
                    let callee = f.op(ts, PTR);
                    f.p.need(b'(');
                    let mut args = vec![];
                    while !f.p.eat(b')') {
                        let t = f.p.ty(ts);
                        if *ts.ty(t) == Ty::Meta { // skip metadata operand
                            let mut dep = 0; loop { let c = f.p.b[f.p.i]; if (c == b',' || c == b')') && dep == 0 { break } if c == b'(' { dep += 1 } if c == b')' { dep -= 1 } f.p.i += 1 }
                        } else { f.p.attrs(); let o = f.op(ts, t); args.push((t, o)); }
                        f.p.eat(b',');
                    }
                    let mut next = None;
                    if w == b"invoke" {
                        while f.p.peek_word() != b"to" { if f.p.peek() == b'#' { f.p.i += 1; f.p.word(); } else if f.p.peek() == b'[' { f.p.i = memchr(b']', f.p.b, f.p.i) + 1 } else { f.p.word(); if f.p.b[f.p.i] == b'(' { f.p.skip_paren() } } }
                        f.p.kw("to");
                        next = Some(f.lab());
                        if !f.p.kw("unwind") { f.p.die("unwind") }
                        f.lab();
                    }
                    let skip = match &callee { Opn::K(Con::Glob(g)) => g.starts_with("llvm.lifetime") || g.starts_with("llvm.experimental.noalias") || g == "llvm.assume" || g.starts_with("llvm.dbg"), _ => false };
                    if skip { f.p.end_ins(); continue }
                    Ins::Call(dst, rt, callee, args, next)
                }
            }
            _ => { f.p.i -= w.len(); f.p.die("instruction") }
        };
        blk.ins.push(ins);
        f.p.end_ins();
    }
    if let Some(b) = cur.take() { blocks.push(b) }
    // renumber: entry block first, in file order
    let mut remap = vec![u32::MAX; f.nblocks as usize];
    for (k, (l, _)) in blocks.iter().enumerate() { remap[*l as usize] = k as u32 }
    let mut out = vec![];
    for (_, mut b) in blocks {
        for ph in &mut b.phis { for x in &mut ph.2 { x.1 = remap[x.1 as usize] } }
        for i in &mut b.ins {
            match i {
                Ins::Br(a) => *a = remap[*a as usize],
                Ins::CondBr(_, a, b) => { *a = remap[*a as usize]; *b = remap[*b as usize] }
                Ins::Switch(_, _, d, cs) => { *d = remap[*d as usize]; for c in cs { c.1 = remap[c.1 as usize] } }
                Ins::Call(_, _, _, _, Some(n)) => *n = remap[*n as usize],
                _ => {}
            }
        }
        out.push(b);
    }
    RawFunc { params, nregs: f.n, blocks: out }
}
#[allow(dead_code)]
pub type RcFunc = Rc<RawFunc>;
