//! Parser for the textual LLVM IR that rustc emits (the subset that occurs in it).
//! Produces a pre-lowered form for the symbolic executor in `exec.rs`.

use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Store size in bytes, padded to alignment (alloc size).
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(..) => {
                let (offs, sz) = self.layout();
                let _ = offs;
                sz
            }
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        if let Ty::Struct(fs, packed) = self {
            let mut o = 0u64;
            let mut offs = vec![];
            for f in fs {
                if !*packed {
                    let a = f.align();
                    o = (o + a - 1) / a * a;
                }
                offs.push(o);
                o += f.size();
            }
            if !*packed {
                let a = self.align();
                o = (o + a - 1) / a * a;
            }
            (offs, o)
        } else {
            (vec![], self.size())
        }
    }
    /// Width in bits of a scalar.
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
}

#[derive(Debug, Clone)]
pub enum Const {
    Int(u128, u32),
    Undef(Ty),
    Zero(Ty),
    Null,
    Global(String, i64),
    Agg(Vec<Const>, Ty),
    Bytes(Vec<u8>),
    /// (op, args) where it could not be folded at parse time
    Expr(String, Vec<Const>),
}

#[derive(Debug, Clone)]
pub enum Opnd {
    Reg(u32),
    K(Const),
    /// index in the function's resolved constant pool (filled in by lowering)
    Pool(u32),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Pred {
    Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CastOp {
    Trunc, ZExt, SExt, Bitcast, PtrToInt, IntToPtr, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc,
}

#[derive(Debug, Clone)]
pub enum Gep {
    Const(i64),
    Idx(Opnd, i64, u32), // operand, scale, index width
}

#[derive(Debug, Clone)]
pub enum Callee {
    Direct(u32),       // defined function index
    Ext(String),       // declared function / intrinsic
    Indirect(Opnd),
    Asm(String),
}

#[derive(Debug, Clone)]
pub enum Ins {
    Bin(u32, BinOp, Ty, Opnd, Opnd),
    ICmp(u32, Pred, Ty, Opnd, Opnd),
    FCmp(u32, String, Ty, Opnd, Opnd),
    FNeg(u32, Ty, Opnd),
    Load(u32, Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(u32, Opnd, Vec<Gep>),
    Alloca(u32, u64, u64),
    Select(u32, Ty, Opnd, Opnd, Opnd, bool),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Vec<(u128, u32)>),
    Call { dst: Option<u32>, rty: Ty, callee: Callee, args: Vec<(Ty, Opnd)>, normal: Option<u32> },
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    Resume,
    LandingPad(u32),
    ExtractValue(u32, Opnd, Vec<u32>),
    InsertValue(u32, Ty, Opnd, Opnd, Vec<u32>),
    ExtractElem(u32, Opnd, Opnd),
    InsertElem(u32, Ty, Opnd, Opnd, Opnd),
    Shuffle(u32, Opnd, Opnd, Opnd),
    Cast(u32, CastOp, Ty, Opnd, Ty),
    Freeze(u32, Opnd),
    AtomicRmw(u32, String, Ty, Opnd, Opnd),
    CmpXchg(u32, Ty, Opnd, Opnd, Opnd),
    Nop,
    Unsupported(String),
}

#[derive(Debug, Clone, Default)]
pub struct Block {
    /// (dst, type, [(pred block, value)])
    pub phis: Vec<(u32, Ty, Vec<(u32, Opnd)>)>,
    pub ins: Vec<Ins>,
}

#[derive(Debug, Clone)]
pub struct Func {
    pub name: String,
    pub pretty: String,
    pub params: Vec<(u32, Ty)>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub pool: Vec<Const>,
    pub frame_size: u64,
}

#[derive(Debug, Clone)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub constant: bool,
    pub align: u64,
}

#[derive(Default)]
pub struct Module {
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub aliases: HashMap<String, Const>,
    pub decls: Vec<String>,
    pub named: HashMap<String, Ty>,
}

// ---------------------------------------------------------------- lexer

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Word(String),   // keywords, types, numbers, labels
    Local(String),  // %x
    Global(String), // @x
    Str(Vec<u8>, bool), // "..." ; bool: preceded by c
    Meta,           // !...
    P(char),
    Attr,           // #n
    Ellipsis,
}

struct Lexer<'a> {
    s: &'a [u8],
    p: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}

impl<'a> Lexer<'a> {
    fn string(&mut self) -> Vec<u8> {
        // at opening quote
        self.p += 1;
        let mut v = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    v.push(b'\\');
                    self.p += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.p += 3;
                }
            } else {
                v.push(self.s[self.p]);
                self.p += 1;
            }
        }
        self.p += 1;
        v
    }
    fn ident(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            return String::from_utf8_lossy(&self.string()).into_owned();
        }
        let st = self.p;
        while self.p < self.s.len() && is_id(self.s[self.p]) {
            self.p += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
    }
    fn next(&mut self) -> Option<Tok> {
        loop {
            if self.p >= self.s.len() {
                return None;
            }
            let c = self.s[self.p];
            if c.is_ascii_whitespace() {
                self.p += 1;
                continue;
            }
            if c == b';' {
                while self.p < self.s.len() && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
                continue;
            }
            break;
        }
        let c = self.s[self.p];
        Some(match c {
            b'%' => {
                self.p += 1;
                Tok::Local(self.ident())
            }
            b'@' => {
                self.p += 1;
                Tok::Global(self.ident())
            }
            b'"' => Tok::Str(self.string(), false),
            b'c' if self.s.get(self.p + 1) == Some(&b'"') => {
                self.p += 1;
                Tok::Str(self.string(), true)
            }
            b'!' => {
                self.p += 1;
                // consume identifier if any
                while self.p < self.s.len() && (is_id(self.s[self.p]) || self.s[self.p] == b'!') {
                    self.p += 1;
                }
                Tok::Meta
            }
            b'#' => {
                self.p += 1;
                while self.p < self.s.len() && is_id(self.s[self.p]) {
                    self.p += 1;
                }
                Tok::Attr
            }
            b'.' if self.s[self.p..].starts_with(b"...") => {
                self.p += 3;
                Tok::Ellipsis
            }
            _ if is_id(c) || c == b'+' => {
                let st = self.p;
                self.p += 1;
                while self.p < self.s.len() && (is_id(self.s[self.p]) || self.s[self.p] == b'+') {
                    self.p += 1;
                }
                Tok::Word(String::from_utf8_lossy(&self.s[st..self.p]).into_owned())
            }
            _ => {
                self.p += 1;
                Tok::P(c as char)
            }
        })
    }
}

struct Parser<'m> {
    t: Vec<Tok>,
    p: usize,
    named: &'m HashMap<String, Ty>,
    fidx: &'m HashMap<String, u32>,
    regs: HashMap<String, u32>,
}

type R<T> = Result<T, String>;

fn lex(s: &str) -> Vec<Tok> {
    let mut l = Lexer { s: s.as_bytes(), p: 0 };
    let mut v = vec![];
    while let Some(t) = l.next() {
        v.push(t);
    }
    v
}

const PARAM_ATTRS_PAREN: &[&str] = &[
    "sret", "dereferenceable", "dereferenceable_or_null", "range", "captures", "initializes",
    "byval", "align", "memory", "nofpclass", "elementtype", "allocsize", "inalloca", "byref", "preallocated",
];

impl<'m> Parser<'m> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.p)
    }
    fn peekw(&self) -> &str {
        match self.peek() {
            Some(Tok::Word(w)) => w,
            _ => "",
        }
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.p).cloned().ok_or("unexpected end")?;
        self.p += 1;
        Ok(t)
    }
    fn isp(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {c} got {:?} at {}", self.peek(), self.p))
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.peekw() == w {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> R<String> {
        match self.next()? {
            Tok::Word(w) => Ok(w),
            t => Err(format!("expected word got {t:?}")),
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        // at '('
        self.expect('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn ty(&mut self) -> R<Ty> {
        let t = self.next()?;
        Ok(match t {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.peekw() == "addrspace" {
                        self.p += 1;
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80" => Ty::Other,
                _ if w.starts_with('i') && w[1..].chars().all(|c| c.is_ascii_digit()) => {
                    Ty::Int(w[1..].parse().unwrap())
                }
                _ => return Err(format!("bad type {w}")),
            },
            Tok::Local(n) => self.named.get(&n).cloned().ok_or(format!("unknown type {n}"))?,
            Tok::P('[') => {
                let n: u64 = self.word()?.parse().map_err(|_| "arr len")?;
                if !self.eatw("x") {
                    return Err("x".into());
                }
                let t = self.ty()?;
                self.expect(']')?;
                Ty::Arr(n, Box::new(t))
            }
            Tok::P('<') => {
                if self.isp('{') {
                    self.p += 1;
                    let fs = self.fields()?;
                    self.expect('>')?;
                    Ty::Struct(fs, true)
                } else {
                    let n: u64 = self.word()?.parse().map_err(|_| "vec len")?;
                    if !self.eatw("x") {
                        return Err("x".into());
                    }
                    let t = self.ty()?;
                    self.expect('>')?;
                    Ty::Vec(n, Box::new(t))
                }
            }
            Tok::P('{') => Ty::Struct(self.fields()?, false),
            t => return Err(format!("bad type token {t:?}")),
        })
    }
    fn fields(&mut self) -> R<Vec<Ty>> {
        let mut fs = vec![];
        if self.eat('}') {
            return Ok(fs);
        }
        loop {
            fs.push(self.ty()?);
            if self.eat('}') {
                return Ok(fs);
            }
            self.expect(',')?;
        }
    }
    fn float(&self, w: &str, ty: &Ty) -> R<Const> {
        // LLVM prints floats as decimal (exact) or 0x hex of a double; newer: f0x raw bits
        let bits64 = if let Some(h) = w.strip_prefix("0x") {
            u64::from_str_radix(h, 16).map_err(|e| e.to_string())?
        } else if let Some(h) = w.strip_prefix("f0x") {
            let raw = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
            return Ok(match ty {
                Ty::F32 => Const::Int(raw as u128, 32),
                _ => Const::Int(raw as u128, 64),
            });
        } else {
            match w {
                "inf" | "+inf" => f64::INFINITY.to_bits(),
                "-inf" => f64::NEG_INFINITY.to_bits(),
                "qnan" | "+qnan" => f64::NAN.to_bits(),
                _ => w.parse::<f64>().map_err(|e| format!("float {w}: {e}"))?.to_bits(),
            }
        };
        Ok(match ty {
            Ty::F32 => Const::Int((f64::from_bits(bits64) as f32).to_bits() as u128, 32),
            _ => Const::Int(bits64 as u128, 64),
        })
    }
    fn konst(&mut self, ty: &Ty) -> R<Const> {
        match self.peek().cloned().ok_or("eof")? {
            Tok::Word(w) => {
                self.p += 1;
                match w.as_str() {
                    "true" => Ok(Const::Int(1, 1)),
                    "false" => Ok(Const::Int(0, 1)),
                    "null" => Ok(Const::Null),
                    "undef" | "poison" => Ok(Const::Undef(ty.clone())),
                    "zeroinitializer" => Ok(Const::Zero(ty.clone())),
                    "none" => Ok(Const::Undef(ty.clone())),
                    "splat" => {
                        self.expect('(')?;
                        let t = self.ty()?;
                        let c = self.konst(&t)?;
                        self.expect(')')?;
                        let n = match ty {
                            Ty::Vec(n, _) => *n,
                            _ => return Err("splat".into()),
                        };
                        Ok(Const::Agg(vec![c; n as usize], ty.clone()))
                    }
                    "getelementptr" => {
                        while matches!(self.peekw(), "inbounds" | "nuw" | "nusw" | "inrange") {
                            self.p += 1;
                            if self.isp('(') && matches!(&self.t[self.p - 1], Tok::Word(w) if w == "inrange") {
                                self.skip_parens()?;
                            }
                        }
                        self.expect('(')?;
                        let ety = self.ty()?;
                        self.expect(',')?;
                        let pt = self.ty()?;
                        let base = self.konst(&pt)?;
                        let mut off = 0i64;
                        let mut cur = ety.clone();
                        let mut first = true;
                        while self.eat(',') {
                            let it = self.ty()?;
                            let ic = self.konst(&it)?;
                            let iv = match ic {
                                Const::Int(v, w) => sext(v, w),
                                _ => return Err("gep const idx".into()),
                            };
                            if first {
                                off += iv * cur.size() as i64;
                                first = false;
                            } else {
                                let (o, n) = step(&cur, iv)?;
                                off += o;
                                cur = n;
                            }
                        }
                        self.expect(')')?;
                        match base {
                            Const::Global(g, o) => Ok(Const::Global(g, o + off)),
                            Const::Null => Ok(Const::Int(off as u64 as u128, 64)),
                            Const::Int(v, w) => Ok(Const::Int((v as u64).wrapping_add(off as u64) as u128, w)),
                            b => Ok(Const::Expr("add".into(), vec![b, Const::Int(off as u64 as u128, 64)])),
                        }
                    }
                    "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc" => {
                        self.expect('(')?;
                        let t = self.ty()?;
                        let c = self.konst(&t)?;
                        if !self.eatw("to") {
                            return Err("to".into());
                        }
                        let t2 = self.ty()?;
                        self.expect(')')?;
                        if w == "trunc" {
                            return Ok(Const::Expr("trunc".into(), vec![c, Const::Int(t2.bits() as u128, 32)]));
                        }
                        Ok(c)
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        while matches!(self.peekw(), "nuw" | "nsw") {
                            self.p += 1;
                        }
                        self.expect('(')?;
                        let t = self.ty()?;
                        let a = self.konst(&t)?;
                        self.expect(',')?;
                        let t = self.ty()?;
                        let b = self.konst(&t)?;
                        self.expect(')')?;
                        Ok(Const::Expr(w, vec![a, b]))
                    }
                    _ => match ty {
                        Ty::Int(n) => {
                            let v = if let Some(r) = w.strip_prefix('-') {
                                (r.parse::<u128>().map_err(|e| format!("{w}: {e}"))?).wrapping_neg()
                            } else {
                                w.parse::<u128>().map_err(|e| format!("int {w}: {e}"))?
                            };
                            Ok(Const::Int(mask(v, *n), *n))
                        }
                        Ty::F32 | Ty::F64 => self.float(&w, ty),
                        _ => Err(format!("const {w} of {ty:?}")),
                    },
                }
            }
            Tok::Global(g) => {
                self.p += 1;
                Ok(Const::Global(g, 0))
            }
            Tok::Str(b, true) => {
                self.p += 1;
                Ok(Const::Bytes(b))
            }
            Tok::P('[') => {
                self.p += 1;
                let v = self.consts(']')?;
                Ok(Const::Agg(v, ty.clone()))
            }
            Tok::P('{') => {
                self.p += 1;
                let v = self.consts('}')?;
                Ok(Const::Agg(v, ty.clone()))
            }
            Tok::P('<') => {
                self.p += 1;
                if self.eat('{') {
                    let v = self.consts('}')?;
                    self.expect('>')?;
                    Ok(Const::Agg(v, ty.clone()))
                } else {
                    let v = self.consts('>')?;
                    Ok(Const::Agg(v, ty.clone()))
                }
            }
            t => Err(format!("bad const {t:?}")),
        }
    }
    fn consts(&mut self, end: char) -> R<Vec<Const>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            v.push(self.konst(&t)?);
            if self.eat(end) {
                return Ok(v);
            }
            self.expect(',')?;
        }
    }
    fn val(&mut self, ty: &Ty) -> R<Opnd> {
        if let Some(Tok::Local(n)) = self.peek().cloned() {
            self.p += 1;
            return Ok(Opnd::Reg(self.reg(&n)));
        }
        Ok(Opnd::K(self.konst(ty)?))
    }
    fn tval(&mut self) -> R<(Ty, Opnd)> {
        let t = self.ty()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
    /// skips parameter / return attributes
    fn attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    let w = w.clone();
                    let is_type = w == "void"
                        || w == "ptr"
                        || w == "float"
                        || w == "double"
                        || w == "metadata"
                        || w == "half"
                        || (w.starts_with('i') && w.len() > 1 && w[1..].chars().all(|c| c.is_ascii_digit()));
                    if is_type {
                        return Ok(());
                    }
                    if matches!(w.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "splat" | "asm" | "none") {
                        return Ok(());
                    }
                    if w.starts_with('-') || w.starts_with(|c: char| c.is_ascii_digit()) || w == "ptrtoaddr" {
                        return Ok(());
                    }
                    if w == "f0x" {
                        return Ok(());
                    }
                    self.p += 1;
                    if w == "align" && !self.isp('(') {
                        self.p += 1;
                        continue;
                    }
                    if self.isp('(') && PARAM_ATTRS_PAREN.contains(&w.as_str()) {
                        self.skip_parens()?;
                    }
                }
                Some(Tok::Str(_, false)) => {
                    self.p += 1;
                    if self.eat('=') {
                        self.p += 1;
                    }
                }
                Some(Tok::Attr) => {
                    self.p += 1;
                }
                _ => return Ok(()),
            }
        }
    }
    fn label(&mut self, labels: &mut dyn FnMut(&str) -> u32) -> R<u32> {
        if !self.eatw("label") {
            return Err(format!("label expected, {:?}", self.peek()));
        }
        match self.next()? {
            Tok::Local(n) => Ok(labels(&n)),
            t => Err(format!("label {t:?}")),
        }
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext(v: u128, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        let s = 64 - w;
        ((v as i64) << s) >> s
    }
}
fn step(t: &Ty, i: i64) -> R<(i64, Ty)> {
    match t {
        Ty::Arr(_, e) => Ok((i * e.size() as i64, (**e).clone())),
        Ty::Vec(_, e) => Ok((i * e.size() as i64, (**e).clone())),
        Ty::Struct(fs, _) => {
            let (o, _) = t.layout();
            Ok((o[i as usize] as i64, fs[i as usize].clone()))
        }
        _ => Err("gep step".into()),
    }
}

fn demangle_hint(s: &str) -> String {
    s.to_string()
}

pub fn parse(src: &str) -> Result<Module, String> {
    let mut m = Module::default();
    let lines: Vec<&str> = src.lines().collect();
    // pass 1: names of defined functions, named types
    let mut last_comment = "";
    let mut defs: Vec<(usize, usize, String, String)> = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("define ") {
            let st = i;
            while lines[i] != "}" {
                i += 1;
            }
            let name = global_name_in(l)?;
            m.fidx.insert(name.clone(), defs.len() as u32);
            let pretty = if last_comment.is_empty() { name.clone() } else { demangle_hint(last_comment) };
            defs.push((st, i, name, pretty));
            last_comment = "";
        } else if l.starts_with('%') && l.contains("= type") {
            let toks = lex(l);
            let empty = HashMap::new();
            let mut p = Parser { t: toks, p: 0, named: &m.named, fidx: &empty, regs: HashMap::new() };
            if let Tok::Local(n) = p.next()? {
                p.p += 2; // = type
                if let Ok(t) = p.ty() {
                    m.named.insert(n, t);
                }
            }
        } else if l.starts_with("declare ") {
            m.decls.push(global_name_in(l)?);
        } else if let Some(c) = l.strip_prefix("; ") {
            if !c.starts_with("Function Attrs") {
                last_comment = c;
            }
        } else if !l.is_empty() {
            last_comment = "";
        }
        i += 1;
    }
    // globals
    for l in &lines {
        if !l.starts_with('@') {
            continue;
        }
        let toks = lex(l);
        let mut p = Parser { t: toks, p: 0, named: &m.named, fidx: &m.fidx, regs: HashMap::new() };
        let name = match p.next()? {
            Tok::Global(n) => n,
            _ => continue,
        };
        p.expect('=')?;
        let mut external = false;
        let mut alias = false;
        let constant;
        loop {
            match p.next()? {
                Tok::Word(w) => match w.as_str() {
                    "external" | "extern_weak" => external = true,
                    "global" => {
                        constant = false;
                        break;
                    }
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "alias" => {
                        alias = true;
                        constant = true;
                        break;
                    }
                    "thread_local" | "addrspace" => {
                        if p.isp('(') {
                            p.skip_parens()?;
                        }
                    }
                    _ => {}
                },
                _ => {}
            }
        }
        let ty = p.ty().map_err(|e| format!("global {name}: {e}"))?;
        if alias {
            if p.isp('(') {
                p.skip_parens()?;
            }
            p.expect(',')?;
            let t = p.ty()?;
            let c = p.konst(&t)?;
            m.aliases.insert(name, c);
            continue;
        }
        let init = if external { None } else { Some(p.konst(&ty).map_err(|e| format!("global {name}: {e}"))?) };
        let mut align = ty.align();
        while let Some(t) = p.peek().cloned() {
            p.p += 1;
            if t == Tok::Word("align".into()) {
                if let Ok(w) = p.word() {
                    align = w.parse().unwrap_or(1);
                }
            }
        }
        m.gidx.insert(name.clone(), m.globals.len() as u32);
        m.globals.push(Global { name, ty, init, constant, align });
    }
    // functions merged with others
    for (n, c) in &m.aliases {
        if let Const::Global(g, 0) = c {
            if let Some(f) = m.fidx.get(g).copied() {
                m.fidx.insert(n.clone(), f);
            }
        }
    }
    // functions
    for (st, en, name, pretty) in &defs {
        let f = parse_func(&m, &lines[*st..*en], name, pretty).map_err(|e| format!("in {name}: {e}"))?;
        m.funcs.push(f);
    }
    Ok(m)
}

fn global_name_in(l: &str) -> R<String> {
    let at = l.find('@').ok_or("no @")?;
    let mut lx = Lexer { s: l.as_bytes(), p: at + 1 };
    Ok(lx.ident())
}

fn parse_func(m: &Module, lines: &[&str], name: &str, pretty: &str) -> R<Func> {
    let head = lex(lines[0]);
    let mut p = Parser { t: head, p: 0, named: &m.named, fidx: &m.fidx, regs: HashMap::new() };
    p.p = 1; // define
    // skip linkage etc. until a type; attrs() stops at types but also at '{','[','<','%'
    p.attrs()?;
    let ret = p.ty()?;
    p.next()?; // name
    p.expect('(')?;
    let mut params = vec![];
    if !p.eat(')') {
        loop {
            if p.peek() == Some(&Tok::Ellipsis) {
                p.p += 1;
            } else {
                let t = p.ty()?;
                p.attrs()?;
                if let Some(Tok::Local(n)) = p.peek().cloned() {
                    p.p += 1;
                    let r = p.reg(&n);
                    params.push((r, t));
                } else {
                    let k = params.len();
                    let r = p.reg(&format!("{k}"));
                    params.push((r, t));
                }
            }
            if p.eat(')') {
                break;
            }
            p.expect(',')?;
        }
    }
    let mut regs = std::mem::take(&mut p.regs);
    let mut labels: HashMap<String, u32> = HashMap::new();
    // collect labels in order
    let mut order: Vec<String> = vec![];
    let mut body: Vec<(u32, String)> = vec![];
    let mut cur: i64 = -1;
    let mut k = 1;
    while k < lines.len() {
        let l = lines[k];
        k += 1;
        if l.trim().is_empty() || l.starts_with(';') {
            continue;
        }
        if !l.starts_with(' ') && !l.starts_with('\t') {
            // label
            let lab = if l.starts_with('"') {
                let mut lx = Lexer { s: l.as_bytes(), p: 0 };
                String::from_utf8_lossy(&lx.string()).into_owned()
            } else {
                l[..l.find(':').ok_or(format!("label? {l}"))?].to_string()
            };
            labels.insert(lab.clone(), order.len() as u32);
            order.push(lab);
            cur += 1;
            continue;
        }
        if cur < 0 {
            // implicit entry label: number of unnamed params
            let unnamed = regs.keys().filter(|k| k.chars().all(|c| c.is_ascii_digit())).count();
            let lab = format!("{unnamed}");
            labels.insert(lab.clone(), 0);
            order.push(lab);
            cur = 0;
        }
        let mut s = l.trim().to_string();
        if s.starts_with("switch") || s.contains(" switch ") {
            if s.ends_with('[') {
                while !lines[k].trim_start().starts_with(']') {
                    s.push(' ');
                    s.push_str(lines[k].trim());
                    k += 1;
                }
                s.push_str(" ]");
                k += 1;
            }
        } else if s.starts_with("invoke") || s.contains("= invoke") {
            s.push(' ');
            s.push_str(lines[k].trim());
            k += 1;
        } else if s.contains("= landingpad") {
            while k < lines.len() {
                let t = lines[k].trim();
                if t.starts_with("cleanup") || t.starts_with("catch") || t.starts_with("filter") {
                    k += 1;
                } else {
                    break;
                }
            }
        }
        if s.starts_with('#') {
            continue; // debug records
        }
        body.push((cur as u32, s));
    }
    let mut f = Func {
        name: name.to_string(),
        pretty: pretty.to_string(),
        params,
        ret,
        nregs: 0,
        blocks: vec![Block::default(); order.len()],
        pool: vec![],
        frame_size: 0,
    };
    for (b, s) in body {
        let toks = lex(&s);
        let mut p = Parser { t: toks, p: 0, named: &m.named, fidx: &m.fidx, regs };
        let lab = labels.clone();
        let mut lf = |n: &str| -> u32 { *lab.get(n).unwrap_or(&u32::MAX) };
        match parse_ins(&mut p, &mut f, b, &mut lf) {
            Ok(()) => {}
            Err(e) => {
                if std::env::var("SYMEX_PARSE_DEBUG").is_ok() {
                    eprintln!("unsupported in {name}: {e}: {s}");
                }
                f.blocks[b as usize].ins.push(Ins::Unsupported(format!("{e}: {s}")));
            }
        }
        regs = p.regs;
    }
    f.nregs = regs.len() as u32;
    pool(&mut f);
    Ok(f)
}

/// moves constants into the pool
fn pool(f: &mut Func) {
    let mut pool = vec![];
    fn fix(o: &mut Opnd, pool: &mut Vec<Const>) {
        if let Opnd::K(c) = o {
            let i = pool.len() as u32;
            pool.push(c.clone());
            *o = Opnd::Pool(i);
        }
    }
    for b in f.blocks.iter_mut() {
        for (_, _, v) in b.phis.iter_mut() {
            for (_, o) in v.iter_mut() {
                fix(o, &mut pool);
            }
        }
        for i in b.ins.iter_mut() {
            match i {
                Ins::Bin(_, _, _, a, c) | Ins::ICmp(_, _, _, a, c) | Ins::FCmp(_, _, _, a, c) => {
                    fix(a, &mut pool);
                    fix(c, &mut pool);
                }
                Ins::FNeg(_, _, a) | Ins::Load(_, _, a) | Ins::Freeze(_, a) | Ins::ExtractValue(_, a, _) | Ins::Cast(_, _, _, a, _) => {
                    fix(a, &mut pool)
                }
                Ins::Store(_, a, c) | Ins::AtomicRmw(_, _, _, a, c) | Ins::InsertValue(_, _, a, c, _) | Ins::ExtractElem(_, a, c) => {
                    fix(a, &mut pool);
                    fix(c, &mut pool);
                }
                Ins::Gep(_, a, v) => {
                    fix(a, &mut pool);
                    for g in v {
                        if let Gep::Idx(o, _, _) = g {
                            fix(o, &mut pool);
                        }
                    }
                }
                Ins::Select(_, _, a, c, d, _) | Ins::InsertElem(_, _, a, c, d) | Ins::Shuffle(_, a, c, d) | Ins::CmpXchg(_, _, a, c, d) => {
                    fix(a, &mut pool);
                    fix(c, &mut pool);
                    fix(d, &mut pool);
                }
                Ins::CondBr(a, _, _) | Ins::Switch(_, a, _, _) => fix(a, &mut pool),
                Ins::Call { callee, args, .. } => {
                    if let Callee::Indirect(o) = callee {
                        fix(o, &mut pool);
                    }
                    for (_, a) in args {
                        fix(a, &mut pool);
                    }
                }
                Ins::Ret(Some((_, a))) => fix(a, &mut pool),
                _ => {}
            }
        }
    }
    f.pool = pool;
}

fn binop(w: &str) -> Option<BinOp> {
    Some(match w {
        "add" => BinOp::Add,
        "sub" => BinOp::Sub,
        "mul" => BinOp::Mul,
        "udiv" => BinOp::UDiv,
        "sdiv" => BinOp::SDiv,
        "urem" => BinOp::URem,
        "srem" => BinOp::SRem,
        "shl" => BinOp::Shl,
        "lshr" => BinOp::LShr,
        "ashr" => BinOp::AShr,
        "and" => BinOp::And,
        "or" => BinOp::Or,
        "xor" => BinOp::Xor,
        "fadd" => BinOp::FAdd,
        "fsub" => BinOp::FSub,
        "fmul" => BinOp::FMul,
        "fdiv" => BinOp::FDiv,
        "frem" => BinOp::FRem,
        _ => return None,
    })
}

fn castop(w: &str) -> Option<CastOp> {
    Some(match w {
        "trunc" => CastOp::Trunc,
        "zext" => CastOp::ZExt,
        "sext" => CastOp::SExt,
        "bitcast" | "addrspacecast" => CastOp::Bitcast,
        "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
        "inttoptr" => CastOp::IntToPtr,
        "fptoui" => CastOp::FpToUi,
        "fptosi" => CastOp::FpToSi,
        "uitofp" => CastOp::UiToFp,
        "sitofp" => CastOp::SiToFp,
        "fpext" => CastOp::FpExt,
        "fptrunc" => CastOp::FpTrunc,
        _ => return None,
    })
}

const FLAGS: &[&str] = &[
    "nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "fast", "nnan", "ninf", "nsz", "arcp",
    "contract", "afn", "reassoc", "volatile", "atomic", "weak",
];

fn parse_ins(p: &mut Parser, f: &mut Func, b: u32, lf: &mut dyn FnMut(&str) -> u32) -> R<()> {
    let mut dst: Option<u32> = None;
    if let Some(Tok::Local(n)) = p.peek().cloned() {
        if p.t.get(p.p + 1) == Some(&Tok::P('=')) {
            p.p += 2;
            dst = Some(p.reg(&n));
        }
    }
    let mut op = p.word()?;
    if matches!(op.as_str(), "tail" | "musttail" | "notail") {
        op = p.word()?;
    }
    let d = dst.unwrap_or(u32::MAX);
    let flags = |p: &mut Parser| {
        while FLAGS.contains(&p.peekw()) {
            p.p += 1;
        }
    };
    let blk = b as usize;
    if let Some(bo) = binop(&op) {
        flags(p);
        let t = p.ty()?;
        let a = p.val(&t)?;
        p.expect(',')?;
        let c = p.val(&t)?;
        f.blocks[blk].ins.push(Ins::Bin(d, bo, t, a, c));
        return Ok(());
    }
    if let Some(co) = castop(&op) {
        flags(p);
        let (t, v) = p.tval()?;
        if !p.eatw("to") {
            return Err("cast to".into());
        }
        let t2 = p.ty()?;
        f.blocks[blk].ins.push(Ins::Cast(d, co, t, v, t2));
        return Ok(());
    }
    let ins = match op.as_str() {
        "icmp" => {
            flags(p);
            let pr = match p.word()?.as_str() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                w => return Err(format!("pred {w}")),
            };
            let t = p.ty()?;
            let a = p.val(&t)?;
            p.expect(',')?;
            let c = p.val(&t)?;
            Ins::ICmp(d, pr, t, a, c)
        }
        "fcmp" => {
            flags(p);
            let pr = p.word()?;
            let t = p.ty()?;
            let a = p.val(&t)?;
            p.expect(',')?;
            let c = p.val(&t)?;
            Ins::FCmp(d, pr, t, a, c)
        }
        "fneg" => {
            flags(p);
            let (t, v) = p.tval()?;
            Ins::FNeg(d, t, v)
        }
        "load" => {
            flags(p);
            let t = p.ty()?;
            p.expect(',')?;
            let (_, v) = p.tval()?;
            Ins::Load(d, t, v)
        }
        "store" => {
            flags(p);
            let (t, v) = p.tval()?;
            p.expect(',')?;
            let (_, a) = p.tval()?;
            Ins::Store(t, v, a)
        }
        "getelementptr" => {
            flags(p);
            let ety = p.ty()?;
            p.expect(',')?;
            let (_, base) = p.tval()?;
            let mut cur = ety;
            let mut first = true;
            let mut out: Vec<Gep> = vec![];
            let mut koff = 0i64;
            while p.eat(',') {
                if p.peek() == Some(&Tok::Meta) {
                    break;
                }
                let (it, iv) = p.tval()?;
                let w = it.bits();
                if first {
                    first = false;
                    let sc = cur.size() as i64;
                    match &iv {
                        Opnd::K(Const::Int(v, w)) => koff += sext(*v, *w) * sc,
                        _ => out.push(Gep::Idx(iv, sc, w)),
                    }
                } else {
                    match (&cur, &iv) {
                        (_, Opnd::K(Const::Int(v, w))) => {
                            let (o, n) = step(&cur, sext(*v, *w))?;
                            koff += o;
                            cur = n;
                        }
                        (Ty::Arr(_, e) | Ty::Vec(_, e), _) => {
                            let sc = e.size() as i64;
                            let n = (**e).clone();
                            out.push(Gep::Idx(iv, sc, w));
                            cur = n;
                        }
                        _ => return Err("gep".into()),
                    }
                }
            }
            if koff != 0 || out.is_empty() {
                out.insert(0, Gep::Const(koff));
            }
            Ins::Gep(d, base, out)
        }
        "alloca" => {
            if p.eatw("inalloca") {}
            let t = p.ty()?;
            let mut n = 1u64;
            let mut al = t.align();
            while p.eat(',') {
                if p.peek() == Some(&Tok::Meta) {
                    break;
                }
                if p.eatw("align") {
                    al = p.word()?.parse().map_err(|_| "align")?;
                } else if p.eatw("addrspace") {
                    p.skip_parens()?;
                } else {
                    let (_, c) = p.tval()?;
                    match c {
                        Opnd::K(Const::Int(v, _)) => n = v as u64,
                        _ => return Err("dynamic alloca".into()),
                    }
                }
            }
            let sz = t.size() * n;
            let al = al.max(1);
            // leave a guard gap between allocas so that overruns are noticed
            f.frame_size = (f.frame_size + 16 + al - 1) / al * al;
            let off = f.frame_size;
            f.frame_size += sz;
            Ins::Alloca(d, off, sz)
        }
        "phi" => {
            flags(p);
            let t = p.ty()?;
            let mut v = vec![];
            loop {
                p.expect('[')?;
                let x = p.val(&t)?;
                p.expect(',')?;
                let l = match p.next()? {
                    Tok::Local(n) => lf(&n),
                    t => return Err(format!("phi {t:?}")),
                };
                p.expect(']')?;
                v.push((l, x));
                if !p.eat(',') || p.peek() == Some(&Tok::Meta) {
                    break;
                }
            }
            f.blocks[blk].phis.push((d, t, v));
            return Ok(());
        }
        "select" => {
            flags(p);
            let (ct, c) = p.tval()?;
            p.expect(',')?;
            let (t, x) = p.tval()?;
            p.expect(',')?;
            let (_, y) = p.tval()?;
            Ins::Select(d, t, c, x, y, matches!(ct, Ty::Vec(..)))
        }
        "br" => {
            if p.peekw() == "label" {
                Ins::Br(p.label(lf)?)
            } else {
                let (_, c) = p.tval()?;
                p.expect(',')?;
                let a = p.label(lf)?;
                p.expect(',')?;
                let e = p.label(lf)?;
                Ins::CondBr(c, a, e)
            }
        }
        "switch" => {
            let (t, v) = p.tval()?;
            p.expect(',')?;
            let def = p.label(lf)?;
            p.expect('[')?;
            let mut cs = vec![];
            while !p.eat(']') {
                let ct = p.ty()?;
                let c = match p.konst(&ct)? {
                    Const::Int(v, _) => v,
                    _ => return Err("switch const".into()),
                };
                p.expect(',')?;
                cs.push((c, p.label(lf)?));
            }
            Ins::Switch(t, v, def, cs)
        }
        "call" | "invoke" => {
            p.attrs()?; // cc, fast-math, return attributes
            let rty = p.ty()?;
            // optional function type
            if p.isp('(') {
                p.skip_parens()?;
            }
            let callee = match p.next()? {
                Tok::Global(g) => match p.fidx.get(&g) {
                    Some(i) => Callee::Direct(*i),
                    None => Callee::Ext(g),
                },
                Tok::Local(n) => Callee::Indirect(Opnd::Reg(p.reg(&n))),
                Tok::Word(w) if w == "asm" => {
                    let mut s = String::new();
                    loop {
                        match p.next()? {
                            Tok::Word(_) => {}
                            Tok::Str(b, _) => {
                                s.push_str(&String::from_utf8_lossy(&b));
                                s.push('|');
                            }
                            Tok::P(',') => {}
                            Tok::P('(') => {
                                p.p -= 1;
                                break;
                            }
                            t => return Err(format!("asm {t:?}")),
                        }
                    }
                    Callee::Asm(s)
                }
                Tok::Word(w) if w == "inttoptr" => {
                    p.p -= 1;
                    let c = p.konst(&Ty::Ptr)?;
                    Callee::Indirect(Opnd::K(c))
                }
                t => return Err(format!("callee {t:?}")),
            };
            p.expect('(')?;
            let mut args = vec![];
            if !p.eat(')') {
                loop {
                    let t = p.ty()?;
                    if t == Ty::Other {
                        // metadata argument: skip to , or )
                        let mut dep = 0;
                        loop {
                            match p.peek() {
                                Some(Tok::P('(')) => dep += 1,
                                Some(Tok::P(')')) if dep == 0 => break,
                                Some(Tok::P(')')) => dep -= 1,
                                Some(Tok::P(',')) if dep == 0 => break,
                                None => return Err("eof".into()),
                                _ => {}
                            }
                            p.p += 1;
                        }
                        args.push((t, Opnd::K(Const::Int(0, 1))));
                    } else {
                        p.attrs()?;
                        let v = p.val(&t)?;
                        args.push((t, v));
                    }
                    if p.eat(')') {
                        break;
                    }
                    p.expect(',')?;
                }
            }
            let mut normal = None;
            if op == "invoke" {
                while p.peekw() != "to" {
                    p.p += 1;
                    if p.p >= p.t.len() {
                        return Err("invoke".into());
                    }
                }
                p.p += 1;
                normal = Some(p.label(lf)?);
            }
            Ins::Call { dst: if rty == Ty::Void { None } else { dst }, rty, callee, args, normal }
        }
        "ret" => {
            if p.peekw() == "void" {
                Ins::Ret(None)
            } else {
                let (t, v) = p.tval()?;
                Ins::Ret(Some((t, v)))
            }
        }
        "unreachable" => Ins::Unreachable,
        "resume" => Ins::Resume,
        "landingpad" => Ins::LandingPad(d),
        "extractvalue" => {
            let (_, v) = p.tval()?;
            let mut ix = vec![];
            while p.eat(',') {
                if p.peek() == Some(&Tok::Meta) {
                    break;
                }
                ix.push(p.word()?.parse().map_err(|_| "ix")?);
            }
            Ins::ExtractValue(d, v, ix)
        }
        "insertvalue" => {
            let (t, v) = p.tval()?;
            p.expect(',')?;
            let (_, x) = p.tval()?;
            let mut ix = vec![];
            while p.eat(',') {
                if p.peek() == Some(&Tok::Meta) {
                    break;
                }
                ix.push(p.word()?.parse().map_err(|_| "ix")?);
            }
            Ins::InsertValue(d, t, v, x, ix)
        }
        "extractelement" => {
            let (_, v) = p.tval()?;
            p.expect(',')?;
            let (_, i) = p.tval()?;
            Ins::ExtractElem(d, v, i)
        }
        "insertelement" => {
            let (t, v) = p.tval()?;
            p.expect(',')?;
            let (_, x) = p.tval()?;
            p.expect(',')?;
            let (_, i) = p.tval()?;
            Ins::InsertElem(d, t, v, x, i)
        }
        "shufflevector" => {
            let (_, v) = p.tval()?;
            p.expect(',')?;
            let (_, x) = p.tval()?;
            p.expect(',')?;
            let (_, mk) = p.tval()?;
            Ins::Shuffle(d, v, x, mk)
        }
        "freeze" => {
            let (_, v) = p.tval()?;
            Ins::Freeze(d, v)
        }
        "atomicrmw" => {
            flags(p);
            let o = p.word()?;
            let (_, a) = p.tval()?;
            p.expect(',')?;
            let (t, v) = p.tval()?;
            Ins::AtomicRmw(d, o, t, a, v)
        }
        "cmpxchg" => {
            flags(p);
            let (_, a) = p.tval()?;
            p.expect(',')?;
            let (t, c) = p.tval()?;
            p.expect(',')?;
            let (_, n) = p.tval()?;
            Ins::CmpXchg(d, t, a, c, n)
        }
        "fence" => Ins::Nop,
        _ => return Err(format!("opcode {op}")),
    };
    f.blocks[blk].ins.push(ins);
    Ok(())
}
