//! Parser for the textual LLVM IR that rustc emits (function bodies are parsed on first use).

use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Struct(Arc<Vec<Ty>>, bool),
    Array(u64, Arc<Ty>),
    Vec(u32, Arc<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64 / 8).min(16),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Array(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            _ => 1,
        }
    }
    /// Bytes written by a store.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) | Ty::Float(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => match **t { Ty::Int(w) => (*n as u64 * w as u64 + 7) / 8, _ => *n as u64 * t.store_size() },
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(_) | Ty::Float(_) | Ty::Vec(..) => { let s = self.store_size(); let a = self.align(); (s + a - 1) / a * a }
            Ty::Ptr => 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(..) => { let (_, s) = self.layout(); s }
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        if let Ty::Struct(f, packed) = self {
            let mut off = 0;
            let mut offs = vec![];
            for t in f.iter() {
                if !packed { let a = t.align(); off = (off + a - 1) / a * a }
                offs.push(off);
                off += t.size();
            }
            if !packed { let a = self.align(); off = (off + a - 1) / a * a }
            (offs, off)
        } else { panic!("layout of non struct") }
    }
    pub fn elem(&self, i: u64) -> Option<(Ty, u64)> {
        match self {
            Ty::Struct(f, _) => f.get(i as usize).map(|t| (t.clone(), self.layout().0[i as usize])),
            Ty::Array(_, t) | Ty::Vec(_, t) => Some(((**t).clone(), i * t.size())),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    Local(u32),
    Int(u128, u32),
    Global(u32),
    /// undef, poison.
    Undef(Ty),
    Zero(Ty),
    Agg(Ty, Arc<Vec<Opd>>),
    Bytes(Arc<Vec<u8>>),
    Cast(Box<Opd>, u32),
    /// Constant GEP: base + offset.
    Gep(Box<Opd>, i64),
    BinC(Bin, Box<Opd>, Box<Opd>),
    Bad,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin { Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, Bit }

pub type Slot = u32;

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Bin, Ty, Opd, Opd, Slot),
    Icmp(Pred, Ty, Opd, Opd, Slot),
    Cast(Cast, Ty, Ty, Opd, Slot),
    Load(Ty, Opd, Slot),
    Store(Ty, Opd, Opd),
    Gep { base: Opd, off: i64, terms: Vec<(Opd, u32, u64)>, dst: Slot },
    Alloca(Ty, Opd, u64, Slot),
    Call { callee: Opd, args: Vec<(Ty, Opd)>, ret: Ty, dst: Option<Slot>, normal: Option<u32> },
    Select(Ty, Opd, Opd, Opd, Opd, bool, Slot),
    Extract(Opd, Vec<u32>, Ty, Slot),
    Insert(Ty, Opd, Ty, Opd, Vec<u32>, Slot),
    Freeze(Opd, Ty, Slot),
    AtomicRmw(String, Ty, Opd, Opd, Slot),
    CmpXchg(Ty, Opd, Opd, Opd, Slot),
    ExtractElem(Ty, Opd, Opd, Slot),
    InsertElem(Ty, Opd, Opd, Opd, Slot),
    Shuffle(Ty, Opd, Opd, Vec<Option<u32>>, Slot),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Nop,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(Slot, Ty, Vec<(u32, Opd)>)>,
    pub ins: Vec<Ins>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(Ty, Slot)>,
    /// Size and alignment of byval parameters (they are copied by the callee).
    pub byval: Vec<Option<Ty>>,
    pub ret: Ty,
    pub nslots: u32,
    pub blocks: Vec<Block>,
}

pub struct GlobalVar { pub name: String, pub ty: Ty, pub init: Option<Opd>, pub constant: bool, pub align: u64 }

pub enum Sym { Func { name: String, body: Option<(usize, usize)>, parsed: OnceLock<Arc<Func>> }, Var(GlobalVar), Unknown(String) }

pub struct Module {
    pub text: String,
    pub syms: Vec<Sym>,
    pub by_name: HashMap<String, u32>,
    pub types: HashMap<String, Ty>,
}

struct P<'a> { s: &'a [u8], i: usize, m: &'a ModCtx }

/// Name resolution used by the parser.
pub struct ModCtx { pub by_name: HashMap<String, u32>, pub types: HashMap<String, Ty> }

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' { self.i += 1 }
            else { break }
        }
    }
    fn peek(&mut self) -> u8 { self.ws(); *self.s.get(self.i).unwrap_or(&0) }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn need(&mut self, c: u8) -> R<()> { if self.eat(c) { Ok(()) } else { Err(format!("expected '{}' at: {}", c as char, self.ctx())) } }
    fn ctx(&self) -> String { String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..(self.i + 60).min(self.s.len())]).to_string() }
    fn peek_ident(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || matches!(self.s[j], b'_' | b'.' | b'-' | b'$')) { j += 1 }
        std::str::from_utf8(&self.s[self.i..j]).unwrap()
    }
    fn ident(&mut self) -> &'a str { let r = self.peek_ident(); self.i += r.len(); r }
    fn eat_kw(&mut self, k: &str) -> bool { if self.peek_ident() == k { self.i += k.len(); true } else { false } }
    fn skip_parens(&mut self) -> R<()> {
        self.need(b'(')?;
        let mut d = 1;
        while d > 0 {
            if self.i >= self.s.len() { return Err("unbalanced".into()) }
            match self.s[self.i] {
                b'(' => d += 1, b')' => d -= 1,
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1 } }
                _ => {}
            }
            self.i += 1;
        }
        Ok(())
    }
    /// Name after '%' or '@'.
    fn name(&mut self) -> R<String> {
        if self.s.get(self.i) == Some(&b'"') {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' { j += 1 }
            self.i = j + 1;
            Ok(String::from_utf8_lossy(&self.s[st..j]).to_string())
        } else {
            let id = { let mut j = self.i; while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || matches!(self.s[j], b'_' | b'.' | b'-' | b'$')) { j += 1 } let r = &self.s[self.i..j]; self.i = j; r };
            if id.is_empty() { return Err(format!("name expected at {}", self.ctx())) }
            Ok(String::from_utf8_lossy(id).to_string())
        }
    }
    fn is_type_start(&mut self) -> bool {
        match self.peek() {
            b'{' | b'<' | b'[' | b'%' => true,
            b'i' => { let id = self.peek_ident(); id.len() > 1 && id[1..].bytes().all(|c| c.is_ascii_digit()) }
            _ => matches!(self.peek_ident(), "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "metadata" | "label" | "token" | "opaque"),
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.peek() {
            b'{' => { self.i += 1; let f = self.ty_list(b'}')?; Ty::Struct(Arc::new(f), false) }
            b'[' => { self.i += 1; let n = self.num()?; if !self.eat_kw("x") { return Err("array type".into()) } let t = self.ty()?; self.need(b']')?; Ty::Array(n as u64, Arc::new(t)) }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') { let f = self.ty_list(b'}')?; self.need(b'>')?; Ty::Struct(Arc::new(f), true) }
                else { let n = self.num()?; if !self.eat_kw("x") { return Err("vector type".into()) } let t = self.ty()?; self.need(b'>')?; Ty::Vec(n as u32, Arc::new(t)) }
            }
            b'%' => { self.i += 1; let n = self.name()?; self.m.types.get(&n).cloned().unwrap_or(Ty::Other) }
            _ => {
                let id = self.ident();
                match id {
                    "ptr" => { if self.eat_kw("addrspace") { self.skip_parens()? } Ty::Ptr }
                    "void" => Ty::Void,
                    "float" => Ty::Float(32), "double" => Ty::Float(64), "half" => Ty::Float(16), "fp128" => Ty::Float(128), "x86_fp80" => Ty::Float(80),
                    "metadata" | "label" | "token" | "opaque" => Ty::Other,
                    _ if id.starts_with('i') => Ty::Int(id[1..].parse().map_err(|_| format!("type {id}"))?),
                    _ => return Err(format!("type expected, got {id} {}", self.ctx())),
                }
            }
        };
        Ok(t)
    }
    fn ty_list(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut f = vec![];
        if self.eat(end) { return Ok(f) }
        loop { f.push(self.ty()?); if self.eat(b',') { continue } self.need(end)?; return Ok(f) }
    }
    fn num(&mut self) -> R<i128> {
        self.ws();
        let st = self.i;
        if self.s.get(self.i) == Some(&b'-') { self.i += 1 }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1 }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        t.parse::<i128>().or_else(|_| t.parse::<u128>().map(|v| v as i128)).map_err(|_| format!("number at {}", self.ctx()))
    }
    /// Skips parameter/return/function attribute words.
    fn skip_attrs(&mut self) -> R<Option<Ty>> {
        let mut byval = None;
        loop {
            if self.is_type_start() { break }
            let c = self.peek();
            if !(c.is_ascii_alphabetic()) && c != b'"' { break }
            if c == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1 } self.i += 1; if self.eat(b'=') { self.need(b'"')?; while self.s[self.i] != b'"' { self.i += 1 } self.i += 1 } continue }
            let save = self.i;
            let id = self.ident();
            if matches!(id, "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "none" | "c" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "add" | "sub" | "trunc" | "mul" | "xor" | "bitcast" | "asm" | "blockaddress" | "addrspacecast") { self.i = save; break }
            if id == "byval" { self.need(b'(')?; byval = Some(self.ty()?); self.need(b')')?; continue }
            if id == "align" { if self.peek() == b'(' { self.skip_parens()? } else { self.num()?; } continue }
            if self.i < self.s.len() && self.s[self.i] == b'(' { self.skip_parens()? }
        }
        Ok(byval)
    }
    fn value(&mut self, t: &Ty, f: Option<&mut FnCtx>) -> R<Opd> {
        match self.peek() {
            b'%' => { self.i += 1; let n = self.name()?; let f = f.ok_or("local in constant")?; Ok(Opd::Local(f.slot(&n))) }
            b'@' => { self.i += 1; let n = self.name()?; Ok(match self.m.by_name.get(&n) { Some(&g) => Opd::Global(g), None => return Err(format!("unknown global @{n}")) }) }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let mut v = vec![];
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' {
                        if self.s[self.i + 1] == b'\\' { v.push(b'\\'); self.i += 2; continue }
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                        self.i += 3;
                    } else { v.push(self.s[self.i]); self.i += 1 }
                }
                self.i += 1;
                Ok(Opd::Bytes(Arc::new(v)))
            }
            b'{' => { self.i += 1; self.agg(t, b'}') }
            b'[' => { self.i += 1; self.agg(t, b']') }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') { let r = self.agg(t, b'}')?; self.need(b'>')?; Ok(r) } else { self.agg(t, b'>') }
            }
            c if c == b'-' || c.is_ascii_digit() => {
                match t {
                    Ty::Int(w) => { let v = self.num()?; Ok(Opd::Int(v as u128 & crate::expr::mask(*w), *w)) }
                    _ => { // floating point constants
                        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'.' | b'+' | b'-')) { self.i += 1 }
                        Ok(Opd::Bad)
                    }
                }
            }
            _ => {
                let id = self.ident();
                match id {
                    "true" => Ok(Opd::Int(1, 1)),
                    "false" => Ok(Opd::Int(0, 1)),
                    "null" => Ok(Opd::Int(0, 64)),
                    "undef" | "poison" => Ok(Opd::Undef(t.clone())),
                    "zeroinitializer" | "none" => Ok(Opd::Zero(t.clone())),
                    "splat" => {
                        self.need(b'(')?; let et = self.ty()?; let v = self.value(&et, None)?; self.need(b')')?;
                        if let Ty::Vec(n, _) = t { Ok(Opd::Agg(t.clone(), Arc::new(vec![v; *n as usize]))) } else { Err("splat".into()) }
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' { self.ident(); if self.peek() == b'(' { break } }
                        // inrange(...) attributes
                        self.need(b'(')?;
                        // `getelementptr inrange(a, b) (ty, ...)`
                        if !self.is_type_start() { while !self.eat(b')') { self.i += 1 } self.need(b'(')?; }
                        let bt = self.ty()?; self.need(b',')?;
                        let pt = self.ty()?; let base = self.value(&pt, None)?;
                        let mut off = 0i64; let mut first = true; let mut cur = bt;
                        while self.eat(b',') {
                            let it = self.ty()?; let v = self.value(&it, None)?;
                            let Opd::Int(k, w) = v else { return Err("non constant gep".into()) };
                            let k = crate::expr::sx(k, w) as i64;
                            if first { off += k * cur.size() as i64; first = false }
                            else { let (t2, o) = cur.elem(k as u64).ok_or("gep elem")?; off += o as i64; cur = t2 }
                        }
                        self.need(b')')?;
                        Ok(Opd::Gep(Box::new(base), off))
                    }
                    "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "addrspacecast" => {
                        self.need(b'(')?; let ft = self.ty()?; let v = self.value(&ft, None)?;
                        if !self.eat_kw("to") { return Err("const cast".into()) }
                        let tt = self.ty()?; self.need(b')')?;
                        let w = match tt { Ty::Int(w) => w, Ty::Ptr => 64, _ => return Ok(Opd::Bad) };
                        Ok(Opd::Cast(Box::new(v), w))
                    }
                    "sub" | "add" | "xor" | "mul" => {
                        while self.peek() != b'(' { self.ident(); }
                        self.need(b'(')?;
                        let t1 = self.ty()?; let a = self.value(&t1, None)?; self.need(b',')?;
                        let t2 = self.ty()?; let b = self.value(&t2, None)?; self.need(b')')?;
                        let op = match id { "sub" => Bin::Sub, "add" => Bin::Add, "xor" => Bin::Xor, _ => Bin::Mul };
                        Ok(Opd::BinC(op, Box::new(a), Box::new(b)))
                    }
                    _ => Err(format!("value expected: {id} {}", self.ctx())),
                }
            }
        }
    }
    fn agg(&mut self, t: &Ty, end: u8) -> R<Opd> {
        let mut v = vec![];
        if self.eat(end) { return Ok(Opd::Agg(t.clone(), Arc::new(v))) }
        loop {
            let et = self.ty()?;
            v.push(self.value(&et, None)?);
            if self.eat(b',') { continue }
            self.need(end)?;
            return Ok(Opd::Agg(t.clone(), Arc::new(v)));
        }
    }
    fn tyval(&mut self, f: &mut FnCtx) -> R<(Ty, Opd)> { let t = self.ty()?; self.skip_attrs()?; let v = self.value(&t, Some(f))?; Ok((t, v)) }
    fn label(&mut self, f: &mut FnCtx) -> R<u32> { if !self.eat_kw("label") { return Err(format!("label at {}", self.ctx())) } self.need(b'%')?; let n = self.name()?; Ok(f.block(&n)) }
}

#[derive(Default)]
struct FnCtx { slots: HashMap<String, u32>, blocks: HashMap<String, u32>, nblocks: u32 }
impl FnCtx {
    fn slot(&mut self, n: &str) -> u32 { let k = self.slots.len() as u32; *self.slots.entry(n.to_string()).or_insert(k) }
    fn block(&mut self, n: &str) -> u32 { if let Some(&b) = self.blocks.get(n) { return b } let k = self.nblocks; self.nblocks += 1; self.blocks.insert(n.to_string(), k); k }
}

impl Module {
    pub fn load(text: String) -> R<(Module, ModCtx)> {
        let mut mc = ModCtx { by_name: HashMap::new(), types: HashMap::new() };
        let mut syms: Vec<Sym> = vec![];
        // Pass 1: names.
        let mut gl: Vec<(u32, usize, usize)> = vec![];
        let mut pos = 0;
        let b = text.as_bytes();
        let mut tdefs: Vec<(String, usize, usize)> = vec![];
        while pos < b.len() {
            let end = b[pos..].iter().position(|&c| c == b'\n').map_or(b.len(), |k| pos + k);
            let line = &b[pos..end];
            if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                let dm = ModCtx { by_name: HashMap::new(), types: HashMap::new() };
                // The function name is the first '@' outside of parentheses.
                let mut k = 0; let mut d = 0;
                while k < line.len() { match line[k] { b'(' => d += 1, b')' => d -= 1, b'@' if d == 0 => break, _ => {} } k += 1 }
                if k < line.len() {
                    let mut p = P { s: line, i: k + 1, m: &dm };
                    let n = p.name()?;
                    let id = syms.len() as u32;
                    if line.starts_with(b"define ") {
                        let close = find_close(b, end);
                        syms.push(Sym::Func { name: n.clone(), body: Some((pos, close)), parsed: OnceLock::new() });
                        mc.by_name.insert(n, id);
                        pos = close + 1;
                        continue;
                    }
                    syms.push(Sym::Func { name: n.clone(), body: None, parsed: OnceLock::new() });
                    mc.by_name.insert(n, id);
                }
            } else if line.starts_with(b"@") {
                let dm = ModCtx { by_name: HashMap::new(), types: HashMap::new() };
                let mut p = P { s: line, i: 1, m: &dm };
                let n = p.name()?;
                let id = syms.len() as u32;
                syms.push(Sym::Unknown(n.clone()));
                mc.by_name.insert(n, id);
                gl.push((id, pos + p.i, end));
            } else if line.starts_with(b"%") {
                let dm = ModCtx { by_name: HashMap::new(), types: HashMap::new() };
                let mut p = P { s: line, i: 1, m: &dm };
                let n = p.name()?;
                tdefs.push((n, pos + p.i, end));
            }
            pos = end + 1;
        }
        for (n, s, e) in tdefs {
            let t = { let mut p = P { s: &b[s..e], i: 0, m: &mc }; p.need(b'=')?; p.eat_kw("type"); p.ty().unwrap_or(Ty::Other) };
            mc.types.insert(n, t);
        }
        for (id, s, e) in gl {
            let Sym::Unknown(name) = &syms[id as usize] else { unreachable!() };
            let name = name.clone();
            let mut p = P { s: &b[s..e], i: 0, m: &mc };
            p.need(b'=')?;
            let mut constant = false; let mut ext = false; let mut alias = false;
            loop {
                if p.is_type_start() { break }
                let k = p.ident();
                match k { "constant" => constant = true, "external" | "extern_weak" => ext = true, "alias" | "ifunc" => alias = true, "" => break, _ => {} }
                if p.peek() == b'(' { p.skip_parens()? }
                if matches!(k, "constant" | "global") { break }
            }
            if alias { continue }
            let Ok(ty) = p.ty() else { continue };
            let init = if ext { None } else { match p.value(&ty, None) { Ok(v) => Some(v), Err(_) => Some(Opd::Bad) } };
            let rest = p.ctx();
            let align = rest.find("align ").and_then(|k| rest[k + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().ok()).unwrap_or(16u64);
            syms[id as usize] = Sym::Var(GlobalVar { name, ty, init, constant, align });
        }
        let by_name = mc.by_name.clone();
        let types = mc.types.clone();
        Ok((Module { text, syms, by_name, types }, mc))
    }

    pub fn sym_name(&self, s: u32) -> &str {
        match &self.syms[s as usize] { Sym::Func { name, .. } => name, Sym::Var(g) => &g.name, Sym::Unknown(n) => n }
    }

    pub fn func(&self, mc: &ModCtx, s: u32) -> R<Arc<Func>> {
        let Sym::Func { name, body, parsed } = &self.syms[s as usize] else { return Err(format!("call of non function {}", self.sym_name(s))) };
        if let Some(f) = parsed.get() { return Ok(f.clone()) }
        let Some((a, b)) = body else { return Err(format!("external function {name}")) };
        let f = Arc::new(parse_func(&self.text[*a..*b], mc, name).map_err(|e| format!("parsing {name}: {e}"))?);
        let _ = parsed.set(f.clone());
        Ok(parsed.get().unwrap().clone())
    }
}

fn find_close(b: &[u8], from: usize) -> usize {
    let mut i = from;
    while i + 1 < b.len() { if b[i] == b'\n' && b[i + 1] == b'}' { return i + 1 } i += 1 }
    b.len()
}

fn parse_func(text: &str, mc: &ModCtx, name: &str) -> R<Func> {
    let b = text.as_bytes();
    let nl = b.iter().position(|&c| c == b'\n').ok_or("no body")?;
    let mut f = FnCtx::default();
    let mut p = P { s: &b[..nl], i: 7, m: mc };
    p.skip_attrs()?;
    let ret = p.ty()?;
    p.need(b'@')?;
    p.name()?;
    p.need(b'(')?;
    let mut params = vec![]; let mut byval = vec![]; let mut unnamed = 0;
    if !p.eat(b')') {
        loop {
            if p.peek() == b'.' { return Err("varargs".into()) }
            let t = p.ty()?;
            let bv = p.skip_attrs()?;
            let slot = if p.peek() == b'%' { p.i += 1; let n = p.name()?; if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1 } f.slot(&n) } else { let n = format!("{unnamed}"); unnamed += 1; f.slot(&n) };
            params.push((t, slot)); byval.push(bv);
            if p.eat(b',') { continue }
            p.need(b')')?;
            break;
        }
    }
    // Logical lines.
    let body = &text[nl + 1..];
    let mut blocks: Vec<Option<Block>> = vec![];
    let mut cur: Option<(u32, Block)> = None;
    let mut lines = body.lines().peekable();
    let mut first = true;
    while let Some(l) = lines.next() {
        let t = l.trim_end();
        if t.trim().is_empty() || t.trim_start().starts_with(';') { continue }
        if !t.starts_with(' ') {
            // label
            let lab = if t.starts_with('"') { t[1..].split('"').next().unwrap() } else { t.split(':').next().unwrap() };
            if let Some((k, blk)) = cur.take() { put(&mut blocks, k, blk) }
            // The entry block is always block 0.
            let k = f.block(lab);
            cur = Some((k, Block { phis: vec![], ins: vec![] }));
            first = false;
            continue;
        }
        if first {
            // Unnamed entry block: numbered after the parameters.
            let n = format!("{}", unnamed);
            let k = f.block(&n);
            cur = Some((k, Block { phis: vec![], ins: vec![] }));
            first = false;
        }
        let mut s = t.trim_start().to_string();
        if s.starts_with("#dbg") { continue }
        if s.starts_with("switch ") { while !s.contains(']') { s.push(' '); s.push_str(lines.next().ok_or("eof")?.trim()) } }
        if s.contains("invoke ") && lines.peek().map_or(false, |n| n.trim_start().starts_with("to label")) { s.push(' '); s.push_str(lines.next().unwrap().trim()) }
        if matches!(s.split(' ').next().unwrap(), "cleanup" | "catch" | "filter" | "cleanup,") { continue }
        let blk = &mut cur.as_mut().unwrap().1;
        match parse_ins(&s, mc, &mut f, blk) {
            Ok(()) => {}
            Err(e) => blk.ins.push(Ins::Unsupported(format!("{e}: {s}"))),
        }
    }
    if let Some((k, blk)) = cur.take() { put(&mut blocks, k, blk) }
    let n = f.nblocks as usize;
    while blocks.len() < n { blocks.push(None) }
    let blocks = blocks.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], ins: vec![Ins::Unsupported("missing block".into())] })).collect();
    Ok(Func { name: name.to_string(), params, byval, ret, nslots: f.slots.len() as u32, blocks })
}

fn put(v: &mut Vec<Option<Block>>, k: u32, b: Block) { while v.len() <= k as usize { v.push(None) } v[k as usize] = Some(b) }

fn parse_ins(s: &str, mc: &ModCtx, f: &mut FnCtx, blk: &mut Block) -> R<()> {
    let mut p = P { s: s.as_bytes(), i: 0, m: mc };
    let mut dst: Option<u32> = None;
    if p.peek() == b'%' {
        p.i += 1;
        let n = p.name()?;
        p.need(b'=')?;
        dst = Some(f.slot(&n));
    }
    let mut op = p.ident();
    while matches!(op, "tail" | "musttail" | "notail") { op = p.ident() }
    let bin = match op {
        "add" => Some(Bin::Add), "sub" => Some(Bin::Sub), "mul" => Some(Bin::Mul), "udiv" => Some(Bin::UDiv), "urem" => Some(Bin::URem),
        "sdiv" => Some(Bin::SDiv), "srem" => Some(Bin::SRem), "and" => Some(Bin::And), "or" => Some(Bin::Or), "xor" => Some(Bin::Xor),
        "shl" => Some(Bin::Shl), "lshr" => Some(Bin::LShr), "ashr" => Some(Bin::AShr), _ => None,
    };
    let d = || dst.ok_or_else(|| "no destination".to_string());
    if let Some(bop) = bin {
        while matches!(p.peek_ident(), "nuw" | "nsw" | "exact" | "disjoint") { p.ident(); }
        let t = p.ty()?;
        let a = p.value(&t, Some(f))?; p.need(b',')?; let b = p.value(&t, Some(f))?;
        blk.ins.push(Ins::Bin(bop, t, a, b, d()?));
        return Ok(());
    }
    match op {
        "icmp" => {
            p.eat_kw("samesign");
            let pr = match p.ident() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, x => return Err(format!("pred {x}")) };
            let t = p.ty()?;
            let a = p.value(&t, Some(f))?; p.need(b',')?; let b = p.value(&t, Some(f))?;
            blk.ins.push(Ins::Icmp(pr, t, a, b, d()?));
        }
        "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
            while matches!(p.peek_ident(), "nuw" | "nsw" | "nneg") { p.ident(); }
            let ft = p.ty()?; let a = p.value(&ft, Some(f))?;
            if !p.eat_kw("to") { return Err("cast".into()) }
            let tt = p.ty()?;
            let k = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, _ => Cast::Bit };
            blk.ins.push(Ins::Cast(k, ft, tt, a, d()?));
        }
        "freeze" => { let (t, a) = p.tyval(f)?; blk.ins.push(Ins::Freeze(a, t, d()?)) }
        "load" => { p.eat_kw("atomic"); p.eat_kw("volatile"); let t = p.ty()?; p.need(b',')?; let (_, a) = p.tyval(f)?; blk.ins.push(Ins::Load(t, a, d()?)) }
        "store" => { p.eat_kw("atomic"); p.eat_kw("volatile"); let (t, v) = p.tyval(f)?; p.need(b',')?; let (_, a) = p.tyval(f)?; blk.ins.push(Ins::Store(t, v, a)) }
        "getelementptr" => {
            while matches!(p.peek_ident(), "inbounds" | "nuw" | "nusw" | "inrange") { p.ident(); if p.peek() == b'(' { p.skip_parens()? } }
            let bt = p.ty()?; p.need(b',')?;
            let (pt, base) = p.tyval(f)?;
            if !matches!(pt, Ty::Ptr) { return Err("vector gep".into()) }
            let mut off = 0i64; let mut terms = vec![]; let mut first = true; let mut cur = bt;
            while p.peek() == b',' {
                p.i += 1;
                if p.peek() == b'!' { break }
                let (it, v) = p.tyval(f)?;
                let Ty::Int(w) = it else { return Err("gep index type".into()) };
                let (sz, next) = if first { (cur.size(), cur.clone()) } else {
                    match &cur {
                        Ty::Array(_, t) | Ty::Vec(_, t) => (t.size(), (**t).clone()),
                        Ty::Struct(..) => {
                            let Opd::Int(k, _) = v else { return Err("struct index".into()) };
                            let (t2, o) = cur.elem(k as u64).ok_or("gep elem")?;
                            off += o as i64; cur = t2; continue;
                        }
                        _ => return Err("gep type".into()),
                    }
                };
                first = false;
                match v { Opd::Int(k, w) => off += crate::expr::sx(k, w) as i64 * sz as i64, v => terms.push((v, w, sz)) }
                cur = next;
            }
            blk.ins.push(Ins::Gep { base, off, terms, dst: d()? });
        }
        "alloca" => {
            p.eat_kw("inalloca");
            let t = p.ty()?;
            let mut n = Opd::Int(1, 64); let mut al = t.align();
            while p.peek() == b',' { p.i += 1; if p.peek() == b'!' { break } if p.eat_kw("align") { al = p.num()? as u64 } else { n = p.tyval(f)?.1 } }
            blk.ins.push(Ins::Alloca(t, n, al, d()?));
        }
        "phi" => {
            let t = p.ty()?;
            let mut v = vec![];
            while p.peek() == b'[' {
                p.i += 1;
                let x = p.value(&t, Some(f))?; p.need(b',')?; p.need(b'%')?; let n = p.name()?; p.need(b']')?;
                v.push((f.block(&n), x));
                if !p.eat(b',') { break }
                if p.peek() == b'!' { break }
            }
            blk.phis.push((d()?, t, v));
        }
        "select" => {
            while matches!(p.peek_ident(), "fast" | "nnan" | "nsz") { p.ident(); }
            let (ct, c) = p.tyval(f)?; p.need(b',')?; let (t, a) = p.tyval(f)?; p.need(b',')?; let (_, b) = p.tyval(f)?;
            blk.ins.push(Ins::Select(t, c, a, b, Opd::Bad, matches!(ct, Ty::Vec(..)), d()?));
        }
        "extractvalue" => {
            let (t, a) = p.tyval(f)?;
            let mut path = vec![];
            while p.peek() == b',' { p.i += 1; if p.peek() == b'!' { break } path.push(p.num()? as u32) }
            blk.ins.push(Ins::Extract(a, path, t, d()?));
        }
        "insertvalue" => {
            let (t, a) = p.tyval(f)?; p.need(b',')?; let (t2, b) = p.tyval(f)?;
            let mut path = vec![];
            while p.peek() == b',' { p.i += 1; if p.peek() == b'!' { break } path.push(p.num()? as u32) }
            blk.ins.push(Ins::Insert(t, a, t2, b, path, d()?));
        }
        "extractelement" => { let (t, a) = p.tyval(f)?; p.need(b',')?; let (_, i) = p.tyval(f)?; blk.ins.push(Ins::ExtractElem(t, a, i, d()?)) }
        "insertelement" => { let (t, a) = p.tyval(f)?; p.need(b',')?; let (_, v) = p.tyval(f)?; p.need(b',')?; let (_, i) = p.tyval(f)?; blk.ins.push(Ins::InsertElem(t, a, v, i, d()?)) }
        "shufflevector" => {
            let (t, a) = p.tyval(f)?; p.need(b',')?; let (_, b) = p.tyval(f)?; p.need(b',')?; let (mt, m) = p.tyval(f)?;
            let Ty::Vec(n, _) = mt else { return Err("mask".into()) };
            let mv: Vec<Option<u32>> = match m {
                Opd::Zero(_) => vec![Some(0); n as usize],
                Opd::Undef(_) => vec![None; n as usize],
                Opd::Agg(_, v) => v.iter().map(|o| if let Opd::Int(k, _) = o { Some(*k as u32) } else { None }).collect(),
                _ => return Err("mask".into()),
            };
            blk.ins.push(Ins::Shuffle(t, a, b, mv, d()?));
        }
        "br" => {
            if p.peek_ident() == "label" { let l = p.label(f)?; blk.ins.push(Ins::Br(l)) }
            else { let (_, c) = p.tyval(f)?; p.need(b',')?; let a = p.label(f)?; p.need(b',')?; let b = p.label(f)?; blk.ins.push(Ins::CondBr(c, a, b)) }
        }
        "switch" => {
            let (t, v) = p.tyval(f)?; p.need(b',')?; let def = p.label(f)?; p.need(b'[')?;
            let Ty::Int(w) = t else { return Err("switch type".into()) };
            let mut cs = vec![];
            while !p.eat(b']') { let (_, k) = p.tyval(f)?; p.need(b',')?; let l = p.label(f)?; let Opd::Int(k, _) = k else { return Err("switch case".into()) }; cs.push((k, l)) }
            blk.ins.push(Ins::Switch(v, w, def, cs));
        }
        "ret" => {
            if p.peek_ident() == "void" { blk.ins.push(Ins::Ret(None)) } else { let (t, v) = p.tyval(f)?; blk.ins.push(Ins::Ret(Some((t, v)))) }
        }
        "unreachable" => blk.ins.push(Ins::Unreachable),
        "fence" => blk.ins.push(Ins::Nop),
        "atomicrmw" => {
            p.eat_kw("volatile");
            let k = p.ident().to_string();
            let (_, a) = p.tyval(f)?; p.need(b',')?; let (t, v) = p.tyval(f)?;
            blk.ins.push(Ins::AtomicRmw(k, t, a, v, d()?));
        }
        "cmpxchg" => {
            p.eat_kw("weak"); p.eat_kw("volatile");
            let (_, a) = p.tyval(f)?; p.need(b',')?; let (t, c) = p.tyval(f)?; p.need(b',')?; let (_, n) = p.tyval(f)?;
            blk.ins.push(Ins::CmpXchg(t, a, c, n, d()?));
        }
        "call" | "invoke" => {
            p.skip_attrs()?;
            let ret = p.ty()?;
            // skip a function type
            if p.peek() == b'(' { p.skip_parens()? }
            if p.peek_ident() == "asm" { return Err("inline asm".into()) }
            let callee = p.value(&Ty::Ptr, Some(f))?;
            p.need(b'(')?;
            let mut args = vec![];
            if !p.eat(b')') {
                loop {
                    let t = p.ty()?;
                    if t == Ty::Other {
                        // metadata argument: skip to the end of the argument
                        let mut dd = 0;
                        while p.i < p.s.len() { match p.s[p.i] { b'(' => dd += 1, b')' if dd == 0 => break, b')' => dd -= 1, b',' if dd == 0 => break, _ => {} } p.i += 1 }
                        args.push((t, Opd::Bad));
                    } else {
                        p.skip_attrs()?;
                        let v = p.value(&t, Some(f))?;
                        args.push((t, v));
                    }
                    if p.eat(b',') { continue }
                    p.need(b')')?;
                    break;
                }
            }
            let mut normal = None;
            if op == "invoke" {
                let rest = std::str::from_utf8(&p.s[p.i..]).unwrap();
                let k = rest.find("to label %").ok_or("invoke")?;
                p.i += k + 3;
                normal = Some(p.label(f)?);
            }
            blk.ins.push(Ins::Call { callee, args, ret: ret.clone(), dst: if ret == Ty::Void { None } else { dst }, normal });
        }
        "landingpad" | "resume" => blk.ins.push(Ins::Unsupported(format!("unwinding: {op}"))),
        _ => return Err(format!("unknown instruction {op}")),
    }
    Ok(())
}
