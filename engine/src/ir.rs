//! Parser for the textual LLVM IR produced by `opt -S` from the whole program.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, TyId),
    Vector(u64, TyId),
    Struct(Vec<TyId>, bool),
    Meta,
}

#[derive(Default)]
pub struct Types {
    pub tys: Vec<Ty>,
    pub map: HashMap<Ty, TyId>,
    pub size: Vec<u64>,
    pub align: Vec<u64>,
}

impl Types {
    pub fn get(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let (s, a) = self.layout(&t);
        let id = self.tys.len() as u32;
        self.tys.push(t.clone());
        self.map.insert(t, id);
        self.size.push(s);
        self.align.push(a);
        id
    }
    fn layout(&self, t: &Ty) -> (u64, u64) {
        match t {
            Ty::Void | Ty::Meta => (0, 1),
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = if b >= 16 { 16 } else { b.next_power_of_two() };
                ((b + a - 1) / a * a, a)
            }
            Ty::Ptr => (8, 8),
            Ty::Float(w) => ((*w / 8) as u64, (*w / 8) as u64),
            Ty::Array(n, e) => (n * self.size[*e as usize], self.align[*e as usize]),
            Ty::Vector(n, e) => {
                let bits = match &self.tys[*e as usize] {
                    Ty::Int(w) => *w as u64 * n,
                    Ty::Ptr => 64 * n,
                    Ty::Float(w) => *w as u64 * n,
                    _ => panic!("vector elem"),
                };
                let b = (bits + 7) / 8;
                (b, b.next_power_of_two())
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                let mut al = 1u64;
                for f in fs {
                    let a = if *packed { 1 } else { self.align[*f as usize] };
                    al = al.max(a);
                    off = (off + a - 1) / a * a;
                    off += self.size[*f as usize];
                }
                ((off + al - 1) / al * al, al)
            }
        }
    }
    pub fn field_off(&self, t: TyId, idx: usize) -> u64 {
        match &self.tys[t as usize] {
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                for (i, f) in fs.iter().enumerate() {
                    let a = if *packed { 1 } else { self.align[*f as usize] };
                    off = (off + a - 1) / a * a;
                    if i == idx {
                        return off;
                    }
                    off += self.size[*f as usize];
                }
                panic!("field idx")
            }
            _ => panic!("field_off on non-struct"),
        }
    }
    /// Store size in bytes (no tail padding for ints).
    pub fn store_size(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            _ => self.size[t as usize],
        }
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match &self.tys[t as usize] {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            x => panic!("bits of {:?}", x),
        }
    }
}

/// Constants as written in the IR; globals are resolved by the engine.
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Zero,
    Undef,
    Global(String),
    Bytes(Vec<u8>),
    Agg(Vec<(TyId, Const)>),
    Splat(TyId, Box<Const>),
    /// base + constant offset
    Gep(Box<Const>, i64),
    Cast(Box<Const>),
    Sub(Box<Const>, Box<Const>),
    Add(Box<Const>, Box<Const>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    Const(TyId, Const),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
    Freeze,
}

#[derive(Clone, Debug)]
pub enum GepIdx<O> {
    Const(u64),
    /// operand * scale, index width
    Scaled(O, u32, u64),
}

#[derive(Clone, Debug)]
pub enum Inst<O> {
    Bin(u32, BinOp, TyId, O, O),
    ICmp(u32, Pred, TyId, O, O),
    /// Floating arithmetic on known values: operation (fadd, olt, uitofp, ...), operand type, result type.
    Fp(u32, String, TyId, TyId, O, Option<O>),
    Cast(u32, CastOp, TyId, TyId, O),
    Select(u32, TyId, TyId, O, O, O),
    Load(u32, TyId, O),
    Store(TyId, O, O),
    Alloca(u32, TyId, O),
    Gep(u32, O, Vec<GepIdx<O>>),
    ExtractValue(u32, O, Vec<u32>),
    InsertValue(u32, TyId, O, O, Vec<u32>),
    ExtractElement(u32, O, O),
    InsertElement(u32, TyId, O, O, O),
    Shuffle(u32, TyId, O, O, Vec<i64>),
    Phi(u32, TyId, Vec<(u32, O)>),
    Call { dst: Option<u32>, ret: TyId, callee: O, args: Vec<(TyId, O)>, normal: Option<u32> },
    AtomicRmw(u32, String, TyId, O, O),
    CmpXchg(u32, TyId, O, O, O),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(TyId, O, u32, Vec<(u128, u32)>),
    Ret(Option<(TyId, O)>),
    Unreachable,
    Nop,
    Unsupported(String),
}

impl<O> Inst<O> {
    pub fn map<T>(&self, f: &mut dyn FnMut(&O) -> T) -> Inst<T> {
        use Inst::*;
        match self {
            Bin(d, o, t, a, b) => Bin(*d, *o, *t, f(a), f(b)),
            ICmp(d, o, t, a, b) => ICmp(*d, *o, *t, f(a), f(b)),
            Fp(d, o, t, u, a, b) => Fp(*d, o.clone(), *t, *u, f(a), b.as_ref().map(|b| f(b))),
            Cast(d, o, t, u, a) => Cast(*d, *o, *t, *u, f(a)),
            Select(d, t, u, a, b, c) => Select(*d, *t, *u, f(a), f(b), f(c)),
            Load(d, t, a) => Load(*d, *t, f(a)),
            Store(t, a, b) => Store(*t, f(a), f(b)),
            Alloca(d, t, a) => Alloca(*d, *t, f(a)),
            Gep(d, a, ix) => {
                let a = f(a);
                Gep(
                    *d,
                    a,
                    ix.iter()
                        .map(|i| match i {
                            GepIdx::Const(k) => GepIdx::Const(*k),
                            GepIdx::Scaled(o, w, s) => GepIdx::Scaled(f(o), *w, *s),
                        })
                        .collect(),
                )
            }
            ExtractValue(d, a, ix) => ExtractValue(*d, f(a), ix.clone()),
            InsertValue(d, t, a, b, ix) => InsertValue(*d, *t, f(a), f(b), ix.clone()),
            ExtractElement(d, a, b) => ExtractElement(*d, f(a), f(b)),
            InsertElement(d, t, a, b, c) => InsertElement(*d, *t, f(a), f(b), f(c)),
            Shuffle(d, t, a, b, m) => Shuffle(*d, *t, f(a), f(b), m.clone()),
            Phi(d, t, v) => Phi(*d, *t, v.iter().map(|(b, o)| (*b, f(o))).collect()),
            Call { dst, ret, callee, args, normal } => Call {
                dst: *dst,
                ret: *ret,
                callee: f(callee),
                args: args.iter().map(|(t, o)| (*t, f(o))).collect(),
                normal: *normal,
            },
            AtomicRmw(d, s, t, a, b) => AtomicRmw(*d, s.clone(), *t, f(a), f(b)),
            CmpXchg(d, t, a, b, c) => CmpXchg(*d, *t, f(a), f(b), f(c)),
            Br(b) => Br(*b),
            CondBr(c, a, b) => CondBr(f(c), *a, *b),
            Switch(t, o, d, c) => Switch(*t, f(o), *d, c.clone()),
            Ret(x) => Ret(x.as_ref().map(|(t, o)| (*t, f(o)))),
            Unreachable => Unreachable,
            Nop => Nop,
            Unsupported(s) => Unsupported(s.clone()),
        }
    }
}

pub struct Block {
    pub name: String,
    pub insts: Vec<Inst<Opnd>>,
    /// number of leading phis
    pub nphi: usize,
}

pub struct Func {
    pub name: String,
    pub params: Vec<(TyId, u32)>,
    pub ret: TyId,
    pub blocks: Vec<Block>,
    pub nregs: u32,
}

pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: Option<Const>,
    pub is_const: bool,
    pub align: u64,
}

pub struct Module {
    pub types: Types,
    pub funcs: Vec<Func>,
    pub func_ix: HashMap<String, usize>,
    pub decls: Vec<String>,
    pub globals: Vec<Global>,
    pub global_ix: HashMap<String, usize>,
    pub aliases: HashMap<String, Const>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Local(String),
    Glob(String),
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(char),
    Meta,
    Attr,
    NL,
    Ellipsis,
}

fn lex(src: &[u8]) -> Vec<Tok> {
    let mut v = Vec::with_capacity(src.len() / 5);
    let n = src.len();
    let mut i = 0;
    fn is_id(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
    }
    fn qstr(src: &[u8], i: &mut usize) -> Vec<u8> {
        // src[*i] == '"'
        *i += 1;
        let mut out = Vec::new();
        while src[*i] != b'"' {
            if src[*i] == b'\\' {
                if src[*i + 1] == b'\\' {
                    out.push(b'\\');
                    *i += 2;
                } else {
                    let h = std::str::from_utf8(&src[*i + 1..*i + 3]).unwrap();
                    out.push(u8::from_str_radix(h, 16).unwrap());
                    *i += 3;
                }
            } else {
                out.push(src[*i]);
                *i += 1;
            }
        }
        *i += 1;
        out
    }
    while i < n {
        let c = src[i];
        match c {
            b'\n' => {
                v.push(Tok::NL);
                i += 1;
            }
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => {
                while i < n && src[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let s;
                if src[i + 1] == b'"' {
                    i += 1;
                    s = String::from_utf8_lossy(&qstr(src, &mut i)).into_owned();
                } else {
                    let st = i + 1;
                    i += 1;
                    while i < n && is_id(src[i]) {
                        i += 1;
                    }
                    s = String::from_utf8_lossy(&src[st..i]).into_owned();
                }
                v.push(if c == b'%' { Tok::Local(s) } else { Tok::Glob(s) });
            }
            b'!' => {
                i += 1;
                if i < n && src[i] == b'"' {
                    qstr(src, &mut i);
                } else {
                    while i < n && is_id(src[i]) {
                        i += 1;
                    }
                }
                v.push(Tok::Meta);
            }
            b'#' => {
                i += 1;
                while i < n && is_id(src[i]) {
                    i += 1;
                }
                v.push(Tok::Attr);
            }
            b'"' => {
                let s = qstr(src, &mut i);
                v.push(Tok::Str(s));
            }
            b'c' if i + 1 < n && src[i + 1] == b'"' => {
                i += 1;
                let s = qstr(src, &mut i);
                v.push(Tok::CStr(s));
            }
            b'.' if src[i..].starts_with(b"...") => {
                i += 3;
                v.push(Tok::Ellipsis);
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < n && (is_id(src[i]) || (src[i] == b'+' && src[i - 1] == b'e')) {
                    i += 1;
                }
                v.push(Tok::Num(String::from_utf8_lossy(&src[st..i]).into_owned()));
            }
            _ if is_id(c) => {
                let st = i;
                while i < n && is_id(src[i]) {
                    i += 1;
                }
                v.push(Tok::Id(String::from_utf8_lossy(&src[st..i]).into_owned()));
            }
            _ => {
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v
}

struct P {
    t: Vec<Tok>,
    i: usize,
    types: Types,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl P {
    fn peek(&self) -> &Tok {
        &self.t[self.i]
    }
    fn peek_at(&self, k: usize) -> &Tok {
        &self.t[self.i + k]
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.t.get(self.i), Some(Tok::P(x)) if *x == c)
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.t.get(self.i), Some(Tok::Id(x)) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat_p(c) {
            self.fail(&format!("expected {:?}", c));
        }
    }
    fn fail(&self, m: &str) -> ! {
        let lo = self.i.saturating_sub(20);
        let hi = (self.i + 10).min(self.t.len());
        panic!("IR parse: {}: ... {:?} <<HERE>> {:?}", m, &self.t[lo..self.i], &self.t[self.i..hi]);
    }
    fn skip_line(&mut self) {
        while self.i < self.t.len() && self.t[self.i] != Tok::NL {
            self.i += 1;
        }
        if self.i < self.t.len() {
            self.i += 1;
        }
    }
    fn skip_nl(&mut self) {
        while self.i < self.t.len() && self.t[self.i] == Tok::NL {
            self.i += 1;
        }
    }
    fn skip_group(&mut self) {
        // at opening bracket
        let mut depth = 0;
        loop {
            match self.next() {
                Tok::P('(') | Tok::P('[') | Tok::P('{') => depth += 1,
                Tok::P(')') | Tok::P(']') | Tok::P('}') => {
                    depth -= 1;
                    if depth == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            Tok::Num(s) => s.parse::<i128>().unwrap_or_else(|_| panic!("num {}", s)),
            t => {
                self.i -= 1;
                self.fail(&format!("expected number got {:?}", t))
            }
        }
    }
    fn ty(&mut self) -> TyId {
        let t = match self.next() {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.is_id("addrspace") {
                        self.i += 1;
                        self.skip_group();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" => Ty::Float(16),
                "bfloat" => Ty::Float(16),
                "fp128" => Ty::Float(128),
                "x86_fp80" => Ty::Float(128),
                "metadata" | "label" | "token" => Ty::Meta,
                _ if s.starts_with('i') && s[1..].chars().all(|c| c.is_ascii_digit()) => {
                    Ty::Int(s[1..].parse().unwrap())
                }
                _ => {
                    self.i -= 1;
                    self.fail("type")
                }
            },
            Tok::P('[') => {
                let n = self.num() as u64;
                if !self.eat_id("x") {
                    self.fail("x")
                }
                let e = self.ty();
                self.expect(']');
                Ty::Array(n, e)
            }
            Tok::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let mut fs = vec![];
                    while !self.is_p('}') {
                        fs.push(self.ty());
                        self.eat_p(',');
                    }
                    self.expect('}');
                    self.expect('>');
                    Ty::Struct(fs, true)
                } else {
                    let n = self.num() as u64;
                    if !self.eat_id("x") {
                        self.fail("x")
                    }
                    let e = self.ty();
                    self.expect('>');
                    Ty::Vector(n, e)
                }
            }
            Tok::P('{') => {
                let mut fs = vec![];
                while !self.is_p('}') {
                    fs.push(self.ty());
                    self.eat_p(',');
                }
                self.expect('}');
                Ty::Struct(fs, false)
            }
            _ => {
                self.i -= 1;
                self.fail("type")
            }
        };
        self.types.get(t)
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.blocks.get(n) {
            return r;
        }
        let r = self.blocks.len() as u32;
        self.blocks.insert(n.to_string(), r);
        r
    }
    fn opnd(&mut self, ty: TyId) -> Opnd {
        if let Tok::Local(n) = self.peek().clone() {
            self.i += 1;
            return Opnd::Reg(self.reg(&n));
        }
        let c = self.cst(ty);
        Opnd::Const(ty, c)
    }
    fn cst(&mut self, ty: TyId) -> Const {
        if self.is_p('+') {
            self.i += 1;
            let Tok::Id(s) = self.next() else { self.fail("float") };
            return match (s.as_str(), self.types.tys[ty as usize].clone()) {
                ("inf", Ty::Float(32)) => Const::Int(f32::INFINITY.to_bits() as u128),
                ("inf", Ty::Float(64)) => Const::Int(f64::INFINITY.to_bits() as u128),
                ("qnan", Ty::Float(64)) => Const::Int(f64::NAN.to_bits() as u128),
                _ => Const::Undef,
            };
        }
        match self.next() {
            Tok::Num(s) => {
                let w = match self.types.tys[ty as usize] {
                    Ty::Int(w) => w,
                    Ty::Float(w @ (32 | 64)) => {
                        let x = match s.strip_prefix("0x") {
                            Some(h) => u64::from_str_radix(h, 16).ok().map(f64::from_bits),
                            None => s.parse::<f64>().ok(),
                        };
                        return match x {
                            Some(x) if w == 64 => Const::Int(x.to_bits() as u128),
                            Some(x) => Const::Int((x as f32).to_bits() as u128),
                            None => Const::Undef,
                        };
                    }
                    _ => {
                        return Const::Undef; // other floating constants: not modelled
                    }
                };
                let v: i128 = s.parse::<i128>().unwrap_or_else(|_| s.parse::<u128>().map(|x| x as i128).unwrap_or_else(|_| panic!("int const {}", s)));
                let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                Const::Int((v as u128) & m)
            }
            Tok::Id(s) if s.starts_with("f0x") => match self.types.tys[ty as usize] {
                Ty::Float(_) => u64::from_str_radix(&s[3..], 16).map(|b| Const::Int(b as u128)).unwrap_or(Const::Undef),
                _ => Const::Undef,
            },
            Tok::Id(s) => match s.as_str() {
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "null" | "zeroinitializer" => Const::Zero,
                "none" => Const::Zero,
                "undef" | "poison" => Const::Undef,
                "splat" => {
                    self.expect('(');
                    let t = self.ty();
                    let c = self.cst(t);
                    self.expect(')');
                    Const::Splat(t, Box::new(c))
                }
                "getelementptr" => {
                    loop {
                        match self.peek().clone() {
                            Tok::Id(_) => {
                                self.i += 1;
                                if self.is_p('(') && self.t[self.i - 1] == Tok::Id("inrange".into()) {
                                    self.skip_group();
                                }
                            }
                            _ => break,
                        }
                    }
                    self.expect('(');
                    let t = self.ty();
                    self.expect(',');
                    let pt = self.ty();
                    let base = self.cst(pt);
                    let mut off = 0i64;
                    let mut cur = t;
                    let mut first = true;
                    while self.eat_p(',') {
                        let it = self.ty();
                        let c = self.cst(it);
                        let v = match c {
                            Const::Int(v) => {
                                let w = self.types.bits(it);
                                let sh = 128 - w;
                                (((v << sh) as i128) >> sh) as i64
                            }
                            Const::Zero => 0,
                            _ => self.fail("gep const index"),
                        };
                        if first {
                            off += v * self.types.size[cur as usize] as i64;
                            first = false;
                        } else {
                            match self.types.tys[cur as usize].clone() {
                                Ty::Array(_, e) | Ty::Vector(_, e) => {
                                    off += v * self.types.size[e as usize] as i64;
                                    cur = e;
                                }
                                Ty::Struct(fs, _) => {
                                    off += self.types.field_off(cur, v as usize) as i64;
                                    cur = fs[v as usize];
                                }
                                _ => self.fail("gep"),
                            }
                        }
                    }
                    self.expect(')');
                    Const::Gep(Box::new(base), off)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "trunc" | "ptrtoaddr" => {
                    self.expect('(');
                    let t = self.ty();
                    let c = self.cst(t);
                    if !self.eat_id("to") {
                        self.fail("to")
                    }
                    let _ = self.ty();
                    self.expect(')');
                    Const::Cast(Box::new(c))
                }
                "sub" | "add" => {
                    while let Tok::Id(_) = self.peek() {
                        self.i += 1;
                    }
                    self.expect('(');
                    let t = self.ty();
                    let a = self.cst(t);
                    self.expect(',');
                    let t = self.ty();
                    let b = self.cst(t);
                    self.expect(')');
                    if s == "sub" {
                        Const::Sub(Box::new(a), Box::new(b))
                    } else {
                        Const::Add(Box::new(a), Box::new(b))
                    }
                }
                _ => {
                    // floating hex constants such as 0x... lex as Num; others unsupported
                    self.i -= 1;
                    self.fail("constant")
                }
            },
            Tok::Glob(n) => Const::Global(n),
            Tok::CStr(b) => Const::Bytes(b),
            Tok::P('[') => {
                let mut v = vec![];
                while !self.is_p(']') {
                    let t = self.ty();
                    let c = self.cst(t);
                    v.push((t, c));
                    self.eat_p(',');
                }
                self.expect(']');
                Const::Agg(v)
            }
            Tok::P('<') => {
                let st = self.is_p('{');
                if st {
                    self.i += 1;
                }
                let mut v = vec![];
                while !self.is_p('}') && !self.is_p('>') {
                    let t = self.ty();
                    let c = self.cst(t);
                    v.push((t, c));
                    self.eat_p(',');
                }
                if st {
                    self.expect('}');
                }
                self.expect('>');
                Const::Agg(v)
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.is_p('}') {
                    let t = self.ty();
                    let c = self.cst(t);
                    v.push((t, c));
                    self.eat_p(',');
                }
                self.expect('}');
                Const::Agg(v)
            }
            _ => {
                self.i -= 1;
                self.fail("constant")
            }
        }
    }
    /// Skip parameter/return attributes.
    fn attrs(&mut self) {
        loop {
            match self.peek().clone() {
                Tok::Id(s) => {
                    match s.as_str() {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr"
                        | "inttoptr" | "ptrtoint" | "void" | "ptr" | "float" | "double" | "metadata" | "none" | "sub" | "add" | "trunc" | "ptrtoaddr" => return,
                        _ => {}
                    }
                    if s.starts_with('i') && s.len() > 1 && s[1..].chars().all(|c| c.is_ascii_digit()) {
                        return;
                    }
                    self.i += 1;
                    if s == "align" {
                        if let Tok::Num(_) = self.peek() {
                            self.i += 1;
                            continue;
                        }
                    }
                    if self.is_p('(') {
                        self.skip_group();
                    }
                }
                Tok::Str(_) => {
                    self.i += 1;
                    if self.is_p('=') {
                        self.i += 2;
                    }
                }
                _ => return,
            }
        }
    }
    fn label(&mut self) -> u32 {
        if !self.eat_id("label") {
            self.fail("label");
        }
        match self.next() {
            Tok::Local(n) => self.blk(&n),
            _ => self.fail("label name"),
        }
    }
    fn ty_opnd(&mut self) -> (TyId, Opnd) {
        let t = self.ty();
        let o = self.opnd(t);
        (t, o)
    }
    fn flags(&mut self) {
        while let Tok::Id(s) = self.peek() {
            match s.as_str() {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign" | "volatile" | "fast"
                | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "weak" | "atomic" | "inalloca" => {
                    self.i += 1
                }
                "syncscope" => {
                    self.i += 1;
                    self.skip_group();
                }
                _ => break,
            }
        }
    }

    fn inst(&mut self) -> Inst<Opnd> {
        let mut dst = None;
        if let Tok::Local(n) = self.peek().clone() {
            if self.peek_at(1) == &Tok::P('=') {
                self.i += 2;
                dst = Some(self.reg(&n));
            }
        }
        let d = dst.unwrap_or(u32::MAX);
        let op = match self.next() {
            Tok::Id(s) => s,
            _ => {
                self.i -= 1;
                self.fail("instruction")
            }
        };
        let bin = |s: &str| -> Option<BinOp> {
            Some(match s {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                _ => return None,
            })
        };
        if let Some(b) = bin(&op) {
            self.flags();
            let t = self.ty();
            let a = self.opnd(t);
            self.expect(',');
            let c = self.opnd(t);
            self.skip_line();
            return Inst::Bin(d, b, t, a, c);
        }
        let r = match op.as_str() {
            "icmp" => {
                self.flags();
                let p = match self.next() {
                    Tok::Id(s) => match s.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => self.fail("pred"),
                    },
                    _ => self.fail("pred"),
                };
                let t = self.ty();
                let a = self.opnd(t);
                self.expect(',');
                let b = self.opnd(t);
                Inst::ICmp(d, p, t, a, b)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags();
                let t = self.ty();
                let a = self.opnd(t);
                self.expect(',');
                let b = self.opnd(t);
                Inst::Fp(d, op, t, t, a, Some(b))
            }
            "fneg" => {
                self.flags();
                let (t, a) = self.ty_opnd();
                Inst::Fp(d, op, t, t, a, None)
            }
            "fcmp" => {
                self.flags();
                let Tok::Id(p) = self.next() else { self.fail("pred") };
                let t = self.ty();
                let a = self.opnd(t);
                self.expect(',');
                let b = self.opnd(t);
                Inst::Fp(d, p, t, t, a, Some(b))
            }
            "uitofp" | "sitofp" | "fptoui" | "fptosi" => {
                self.flags();
                let (t, a) = self.ty_opnd();
                if !self.eat_id("to") {
                    self.fail("to");
                }
                let u = self.ty();
                Inst::Fp(d, op, t, u, a, None)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                self.flags();
                let (t, o) = self.ty_opnd();
                if !self.eat_id("to") {
                    self.fail("to");
                }
                let t2 = self.ty();
                let c = match op.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                    "inttoptr" => CastOp::IntToPtr,
                    _ => CastOp::Bitcast,
                };
                Inst::Cast(d, c, t, t2, o)
            }
            "freeze" => {
                let (t, o) = self.ty_opnd();
                Inst::Cast(d, CastOp::Freeze, t, t, o)
            }
            "select" => {
                self.flags();
                let (ct, c) = self.ty_opnd();
                self.expect(',');
                let (t, a) = self.ty_opnd();
                self.expect(',');
                let (_, b) = self.ty_opnd();
                Inst::Select(d, ct, t, c, a, b)
            }
            "load" => {
                self.flags();
                let t = self.ty();
                self.expect(',');
                let (_, p) = self.ty_opnd();
                Inst::Load(d, t, p)
            }
            "store" => {
                self.flags();
                let (t, v) = self.ty_opnd();
                self.expect(',');
                let (_, p) = self.ty_opnd();
                Inst::Store(t, v, p)
            }
            "alloca" => {
                self.flags();
                let t = self.ty();
                let i64t = self.types.get(Ty::Int(64));
                let mut n = Opnd::Const(i64t, Const::Int(1));
                if self.is_p(',') {
                    if let Tok::Id(s) = self.peek_at(1).clone() {
                        if s.starts_with('i') {
                            self.i += 1;
                            n = self.ty_opnd().1;
                        }
                    }
                }
                Inst::Alloca(d, t, n)
            }
            "getelementptr" => {
                self.flags();
                while let Tok::Id(s) = self.peek() {
                    if s == "inrange" {
                        self.i += 1;
                        self.skip_group();
                    } else {
                        break;
                    }
                }
                let t = self.ty();
                self.expect(',');
                let pt = self.ty();
                let base = self.opnd(pt);
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                while self.is_p(',') {
                    if let Tok::Meta = self.peek_at(1) {
                        break;
                    }
                    self.i += 1;
                    let it = self.ty();
                    let o = self.opnd(it);
                    if let (false, Ty::Struct(fs, _)) = (first, self.types.tys[cur as usize].clone()) {
                        let k = match &o {
                            Opnd::Const(_, Const::Int(v)) => *v as usize,
                            Opnd::Const(_, Const::Zero) => 0,
                            _ => self.fail("struct idx"),
                        };
                        let off = self.types.field_off(cur, k);
                        if off != 0 {
                            idx.push(GepIdx::Const(off));
                        }
                        cur = fs[k];
                        continue;
                    }
                    if !first {
                        cur = match self.types.tys[cur as usize] {
                            Ty::Array(_, e) | Ty::Vector(_, e) => e,
                            _ => self.fail("gep elem"),
                        };
                    }
                    first = false;
                    let sz = self.types.size[cur as usize];
                    let w = self.types.bits(it);
                    match &o {
                        Opnd::Const(_, Const::Int(v)) => {
                            let sh = 128 - w;
                            let sv = (((*v << sh) as i128) >> sh) as i64;
                            let off = (sv as u64).wrapping_mul(sz);
                            if off != 0 {
                                idx.push(GepIdx::Const(off));
                            }
                        }
                        Opnd::Const(_, Const::Zero) => {}
                        _ => idx.push(GepIdx::Scaled(o, w, sz)),
                    }
                }
                Inst::Gep(d, base, idx)
            }
            "extractvalue" => {
                let (_, o) = self.ty_opnd();
                let mut ix = vec![];
                while self.is_p(',') && matches!(self.peek_at(1), Tok::Num(_)) {
                    self.i += 1;
                    ix.push(self.num() as u32);
                }
                Inst::ExtractValue(d, o, ix)
            }
            "insertvalue" => {
                let (t, o) = self.ty_opnd();
                self.expect(',');
                let (_, v) = self.ty_opnd();
                let mut ix = vec![];
                while self.is_p(',') && matches!(self.peek_at(1), Tok::Num(_)) {
                    self.i += 1;
                    ix.push(self.num() as u32);
                }
                Inst::InsertValue(d, t, o, v, ix)
            }
            "extractelement" => {
                let (_, o) = self.ty_opnd();
                self.expect(',');
                let (_, i) = self.ty_opnd();
                Inst::ExtractElement(d, o, i)
            }
            "insertelement" => {
                let (t, o) = self.ty_opnd();
                self.expect(',');
                let (_, v) = self.ty_opnd();
                self.expect(',');
                let (_, i) = self.ty_opnd();
                Inst::InsertElement(d, t, o, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.ty_opnd();
                self.expect(',');
                let (_, b) = self.ty_opnd();
                self.expect(',');
                let mt = self.ty();
                let n = match self.types.tys[mt as usize] {
                    Ty::Vector(n, _) => n,
                    _ => self.fail("mask"),
                };
                let c = self.cst(mt);
                let mask = match c {
                    Const::Zero => vec![0; n as usize],
                    Const::Undef => vec![-1; n as usize],
                    Const::Splat(_, c) => {
                        let k = match *c {
                            Const::Int(v) => v as i64,
                            _ => 0,
                        };
                        vec![k; n as usize]
                    }
                    Const::Agg(v) => v
                        .iter()
                        .map(|(_, c)| match c {
                            Const::Int(v) => *v as i64,
                            Const::Zero => 0,
                            _ => -1,
                        })
                        .collect(),
                    _ => self.fail("mask"),
                };
                Inst::Shuffle(d, t, a, b, mask)
            }
            "phi" => {
                self.flags();
                let t = self.ty();
                let mut v = vec![];
                loop {
                    self.expect('[');
                    let o = self.opnd(t);
                    self.expect(',');
                    let b = match self.next() {
                        Tok::Local(n) => self.blk(&n),
                        _ => self.fail("phi block"),
                    };
                    self.expect(']');
                    v.push((b, o));
                    if self.is_p(',') && self.peek_at(1) == &Tok::P('[') {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                Inst::Phi(d, t, v)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let inv = op == "invoke";
                if op != "call" && op != "invoke" {
                    self.i += 1; // 'call'
                }
                self.flags();
                // calling convention & return attributes
                loop {
                    match self.peek().clone() {
                        Tok::Id(s)
                            if s.ends_with("cc") || s == "coldcc" || s == "fastcc" || s == "ccc" =>
                        {
                            self.i += 1;
                        }
                        _ => break,
                    }
                }
                self.attrs();
                let ret = self.ty();
                if self.is_p('(') {
                    // full function type (varargs)
                    self.skip_group();
                }
                let pt = self.types.get(Ty::Ptr);
                if self.is_id("asm") {
                    self.skip_line();
                    return Inst::Nop;
                }
                let callee = self.opnd(pt);
                self.expect('(');
                let mut args = vec![];
                while !self.is_p(')') {
                    let t = self.ty();
                    if self.types.tys[t as usize] == Ty::Meta {
                        // metadata argument
                        let mut depth = 0;
                        loop {
                            match self.peek() {
                                Tok::P('(') => depth += 1,
                                Tok::P(')') if depth == 0 => break,
                                Tok::P(')') => depth -= 1,
                                Tok::P(',') if depth == 0 => break,
                                _ => {}
                            }
                            self.i += 1;
                        }
                        self.eat_p(',');
                        continue;
                    }
                    self.attrs();
                    let o = self.opnd(t);
                    args.push((t, o));
                    self.eat_p(',');
                }
                self.expect(')');
                let mut normal = None;
                if inv {
                    while !self.is_id("to") {
                        self.i += 1;
                    }
                    self.i += 1;
                    normal = Some(self.label());
                    self.skip_nl();
                    if !self.eat_id("unwind") {
                        self.fail("unwind");
                    }
                    let _ = self.label();
                }
                Inst::Call { dst, ret, callee, args, normal }
            }
            "atomicrmw" => {
                self.flags();
                let o = match self.next() {
                    Tok::Id(s) => s,
                    _ => self.fail("rmw"),
                };
                let (_, p) = self.ty_opnd();
                self.expect(',');
                let (t, v) = self.ty_opnd();
                Inst::AtomicRmw(d, o, t, p, v)
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.ty_opnd();
                self.expect(',');
                let (t, a) = self.ty_opnd();
                self.expect(',');
                let (_, b) = self.ty_opnd();
                Inst::CmpXchg(d, t, p, a, b)
            }
            "br" => {
                if self.is_id("label") {
                    let b = self.label();
                    Inst::Br(b)
                } else {
                    let (_, c) = self.ty_opnd();
                    self.expect(',');
                    let a = self.label();
                    self.expect(',');
                    let b = self.label();
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, o) = self.ty_opnd();
                self.expect(',');
                let dflt = self.label();
                self.expect('[');
                self.skip_nl();
                let mut cases = vec![];
                while !self.is_p(']') {
                    let ct = self.ty();
                    let c = match self.cst(ct) {
                        Const::Int(v) => v,
                        Const::Zero => 0,
                        _ => self.fail("case"),
                    };
                    self.expect(',');
                    let b = self.label();
                    cases.push((c, b));
                    self.skip_nl();
                }
                Inst::Switch(t, o, dflt, cases)
            }
            "ret" => {
                if self.is_id("void") {
                    Inst::Ret(None)
                } else {
                    let x = self.ty_opnd();
                    Inst::Ret(Some(x))
                }
            }
            "unreachable" => Inst::Unreachable,
            "fence" => Inst::Nop,
            "landingpad" => {
                self.skip_line();
                while self.is_id("cleanup") || self.is_id("catch") || self.is_id("filter") {
                    self.skip_line();
                }
                return Inst::Unsupported("landingpad".into());
            }
            _ => Inst::Unsupported(op.clone()),
        };
        self.skip_line();
        r
    }
}

pub fn parse(src: &[u8]) -> Module {
    let toks = lex(src);
    let mut p = P { t: toks, i: 0, types: Types::default(), regs: HashMap::new(), blocks: HashMap::new() };
    let mut m = Module {
        types: Types::default(),
        funcs: vec![],
        func_ix: HashMap::new(),
        decls: vec![],
        globals: vec![],
        global_ix: HashMap::new(),
        aliases: HashMap::new(),
    };
    while p.i < p.t.len() {
        match p.peek().clone() {
            Tok::NL => p.i += 1,
            Tok::Id(s) if s == "define" => {
                p.i += 1;
                let f = parse_func(&mut p);
                m.func_ix.insert(f.name.clone(), m.funcs.len());
                m.funcs.push(f);
            }
            Tok::Id(s) if s == "declare" => {
                while !matches!(p.peek(), Tok::Glob(_)) {
                    p.i += 1;
                }
                if let Tok::Glob(n) = p.next() {
                    m.decls.push(n);
                }
                p.skip_line();
            }
            Tok::Glob(n) => {
                p.i += 1;
                p.expect('=');
                let mut external = false;
                let mut kind = String::new();
                loop {
                    match p.next() {
                        Tok::Id(s) => match s.as_str() {
                            "global" | "constant" | "alias" => {
                                kind = s;
                                break;
                            }
                            "external" | "extern_weak" => external = true,
                            "thread_local" | "addrspace" => {
                                if p.is_p('(') {
                                    p.skip_group();
                                }
                            }
                            _ => {}
                        },
                        Tok::NL => break,
                        _ => {}
                    }
                }
                if kind.is_empty() {
                    continue;
                }
                let ty = p.ty();
                if kind == "alias" {
                    p.expect(',');
                    let t = p.ty();
                    let c = p.cst(t);
                    m.aliases.insert(n, c);
                    p.skip_line();
                    continue;
                }
                let init = if external { None } else { Some(p.cst(ty)) };
                let mut align = 1;
                while p.i < p.t.len() && p.t[p.i] != Tok::NL {
                    if p.is_id("align") {
                        p.i += 1;
                        align = p.num() as u64;
                    } else {
                        p.i += 1;
                    }
                }
                m.global_ix.insert(n.clone(), m.globals.len());
                m.globals.push(Global { name: n, ty, init, is_const: kind == "constant", align });
            }
            _ => p.skip_line(),
        }
    }
    m.types = std::mem::take(&mut p.types);
    m
}

fn parse_func(p: &mut P) -> Func {
    p.regs.clear();
    p.blocks.clear();
    // skip linkage etc. until return type
    loop {
        match p.peek().clone() {
            Tok::Id(s) => match s.as_str() {
                "internal" | "private" | "hidden" | "dso_local" | "linkonce_odr" | "weak_odr" | "weak" | "protected"
                | "linkonce" | "available_externally" | "local_unnamed_addr" | "unnamed_addr" | "fastcc" | "coldcc" | "ccc"
                | "external" | "preserve_nonecc" | "preserve_mostcc" => p.i += 1,
                _ => break,
            },
            _ => break,
        }
    }
    p.attrs();
    let ret = p.ty();
    let name = match p.next() {
        Tok::Glob(n) => n,
        _ => p.fail("func name"),
    };
    p.expect('(');
    let mut params = vec![];
    let mut k = 0;
    let mut unnamed = 0;
    while !p.is_p(')') {
        if p.peek() == &Tok::Ellipsis {
            p.i += 1;
            continue;
        }
        let t = p.ty();
        p.attrs();
        let n = match p.peek().clone() {
            Tok::Local(n) => {
                p.i += 1;
                n
            }
            _ => format!("{}", k),
        };
        k += 1;
        if n.chars().all(|c| c.is_ascii_digit()) {
            unnamed += 1;
        }
        let r = p.reg(&n);
        params.push((t, r));
        p.eat_p(',');
    }
    p.skip_line(); // ") attrs {"
    let mut blocks: Vec<(u32, Block)> = vec![];
    let mut cur: Option<(u32, Vec<Inst<Opnd>>, String)> = None;
    // Name of an implicit entry block: number of unnamed params.
    loop {
        p.skip_nl();
        if p.is_p('}') {
            p.i += 1;
            break;
        }
        // label?
        let lab = match (p.peek().clone(), p.peek_at(1).clone()) {
            (Tok::Id(s), Tok::P(':')) => Some(s),
            (Tok::Num(s), Tok::P(':')) => Some(s),
            (Tok::Str(s), Tok::P(':')) => Some(String::from_utf8_lossy(&s).into_owned()),
            _ => None,
        };
        if let Some(l) = lab {
            if let Some((id, insts, nm)) = cur.take() {
                blocks.push((id, mkblock(insts, nm)));
            }
            p.skip_line();
            let id = p.blk(&l);
            cur = Some((id, vec![], l));
            continue;
        }
        if cur.is_none() {
            // implicit entry block
            let nm = format!("{}", unnamed);
            let id = p.blk(&nm);
            cur = Some((id, vec![], nm));
        }
        let inst = p.inst();
        if !matches!(inst, Inst::Nop) {
            cur.as_mut().unwrap().1.push(inst);
        }
    }
    if let Some((id, insts, nm)) = cur.take() {
        blocks.push((id, mkblock(insts, nm)));
    }
    let entry = blocks[0].0;
    let nb = p.blocks.len();
    let mut out: Vec<Option<Block>> = (0..nb).map(|_| None).collect();
    for (id, b) in blocks {
        out[id as usize] = Some(b);
    }
    // ensure that the entry block is index 0
    let mut remap: Vec<u32> = (0..nb as u32).collect();
    if entry != 0 {
        remap.swap(0, entry as usize);
        out.swap(0, entry as usize);
    }
    let mut blocks: Vec<Block> = out
        .into_iter()
        .map(|b| b.unwrap_or(Block { name: "?".into(), insts: vec![Inst::Unreachable], nphi: 0 }))
        .collect();
    if entry != 0 {
        for b in &mut blocks {
            for i in &mut b.insts {
                match i {
                    Inst::Br(x) => *x = remap[*x as usize],
                    Inst::CondBr(_, x, y) => {
                        *x = remap[*x as usize];
                        *y = remap[*y as usize];
                    }
                    Inst::Switch(_, _, d, cs) => {
                        *d = remap[*d as usize];
                        for c in cs {
                            c.1 = remap[c.1 as usize];
                        }
                    }
                    Inst::Phi(_, _, v) => {
                        for c in v {
                            c.0 = remap[c.0 as usize];
                        }
                    }
                    Inst::Call { normal: Some(x), .. } => *x = remap[*x as usize],
                    _ => {}
                }
            }
        }
    }
    let nregs = p.regs.len() as u32;
    Func { name, params, ret, blocks, nregs }
}

fn mkblock(insts: Vec<Inst<Opnd>>, name: String) -> Block {
    let nphi = insts.iter().take_while(|i| matches!(i, Inst::Phi(..))).count();
    Block { name, insts, nphi }
}

pub fn load(path: &str) -> Rc<Module> {
    let s = std::fs::read(path).unwrap_or_else(|e| panic!("read {}: {}", path, e));
    Rc::new(parse(&s))
}
