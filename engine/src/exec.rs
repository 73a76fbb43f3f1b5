//! Symbolic executor for the lowered IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    S(E),
    W(Rc<u128>),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(V),
}

pub struct DBlock {
    pub insts: Vec<Inst<O>>,
    pub nphi: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hook {
    None,
    SipWrite,
    SipFinish,
}

pub struct DFunc {
    pub name: String,
    pub dem: String,
    pub params: Vec<u32>,
    pub blocks: Vec<DBlock>,
    pub nregs: u32,
    pub hook: Hook,
}

pub const FBASE: u64 = 0x7000_0000_0000_0000;

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub block: u32,
    pub prev: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct InputRec {
    pub name: String,
    pub first: u32,
    pub len: u32,
}

#[derive(Clone)]
pub struct VFile {
    pub name: String,
    /// object id holding the contents
    pub obj: u32,
    pub size: u64,
}
#[derive(Clone)]
pub struct Fd {
    pub file: usize,
    pub pos: u64,
    pub writable: bool,
}
#[derive(Clone, Default)]
pub struct Vfs {
    pub files: Vec<VFile>,
    pub fds: BTreeMap<i32, Fd>,
    pub next_fd: i32,
    pub errno_obj: u32,
    /// frame depths of active vx_catch calls
    pub catch: Vec<usize>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub objs: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub pc: Vec<E>,
    pub facts: FxMap<E, u128>,
    pub model: Rc<Model>,
    pub steps: u64,
    pub nvars: u32,
    pub inputs: Vec<InputRec>,
    pub fhash: u64,
    pub fdepth: u32,
    pub vfs: Vfs,
    /// harness-visible trace: reach marks and noted values
    pub notes: Vec<(Rc<str>, V)>,
}

#[derive(Clone, Debug)]
pub enum End {
    Ok,
    AssumeFail,
    Violation { kind: String, msg: String },
    Error(String),
}

pub enum Stop {
    Fork(Vec<State>),
    End(End),
}
type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Cfg {
    pub entry: String,
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub time_limit: f64,
    pub hash_const: bool,
    pub ite_limit: usize,
    pub enum_cap: usize,
    pub shard: (u64, u64),
    pub shard_depth: u32,
    pub max_viol: usize,
    pub trace: bool,
    /// merge the two sides of a branch when they only compute registers
    pub merge: bool,
    pub merge_limit: usize,
    /// number of completed paths whose model is reported for native re-execution
    pub samples: usize,
}

pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub stack: Vec<String>,
    pub notes: Vec<String>,
}

pub struct Engine {
    pub types: Types,
    pub funcs: Vec<DFunc>,
    pub exts: Vec<String>,
    pub fmap: HashMap<String, usize>,
    pub consts: Vec<Rc<Obj>>,
    pub gaddr: HashMap<String, u64>,
    pub init_objs: Vec<Option<Rc<Obj>>>,
    pub solver: Solver,
    pub cfg: Cfg,
    pub executed: Vec<bool>,
    pub paths_ok: u64,
    pub paths_assume: u64,
    pub paths_viol: u64,
    pub forks: u64,
    pub merges: u64,
    pub ipdom: Vec<Option<Vec<Option<u32>>>>,
    /// per function: immediate dominators, and the block and (for phis) the type of every register
    pub dom: Vec<Option<Rc<Doms>>>,
    pub asserts_static: u64,
    pub asserts_solver: u64,
    pub total_steps: u64,
    pub max_path_steps: u64,
    pub reach: BTreeMap<u64, u64>,
    pub viols: Vec<Viol>,
    pub samples: Vec<Viol>,
    pub errors: Vec<String>,
    pub ext_used: BTreeSet<String>,
    pub fork_sites: HashMap<(u32, u32), u64>,
    pub max_inputs: u32,
    pub sym_bytes: u32,
}

macro_rules! fp_arith {
    ($f:ident, $op:expr, $x:expr, $y:expr) => {{
        let (x, y) = ($f::from_bits($x as _), $f::from_bits($y as _));
        let un = x.is_nan() || y.is_nan();
        match $op {
            "fneg" => (-x).to_bits() as u64,
            "fadd" => (x + y).to_bits() as u64,
            "fsub" => (x - y).to_bits() as u64,
            "fmul" => (x * y).to_bits() as u64,
            "fdiv" => (x / y).to_bits() as u64,
            "oeq" => (x == y) as u64,
            "ogt" => (x > y) as u64,
            "oge" => (x >= y) as u64,
            "olt" => (x < y) as u64,
            "ole" => (x <= y) as u64,
            "one" => (!un && x != y) as u64,
            "ord" => !un as u64,
            "uno" => un as u64,
            "ueq" => (un || x == y) as u64,
            "ugt" => (un || x > y) as u64,
            "uge" => (un || x >= y) as u64,
            "ult" => (un || x < y) as u64,
            "ule" => (un || x <= y) as u64,
            "une" => (x != y) as u64,
            _ => return None,
        }
    }};
}
/// Floating-point operations on known values (none of the checked code's own values is a float).
fn fp_op(ty: &Types, op: &str, t: TyId, u: TyId, a: &V, b: &Option<V>) -> Option<u64> {
    let V::I(x) = *a else { return None };
    if op == "uitofp" || op == "sitofp" {
        let w = match ty.tys[t as usize] {
            Ty::Int(w) if w <= 64 => w,
            _ => return None,
        };
        let i = ((x << (64 - w)) as i64) >> (64 - w);
        return match (&ty.tys[u as usize], op) {
            (Ty::Float(64), "uitofp") => Some((x as f64).to_bits()),
            (Ty::Float(64), _) => Some((i as f64).to_bits()),
            (Ty::Float(32), "uitofp") => Some((x as f32).to_bits() as u64),
            (Ty::Float(32), _) => Some((i as f32).to_bits() as u64),
            _ => None,
        };
    }
    let y = match *b {
        Some(V::I(y)) => y,
        None => 0,
        _ => return None,
    };
    Some(match ty.tys[t as usize] {
        Ty::Float(64) => fp_arith!(f64, op, x, y),
        Ty::Float(32) => fp_arith!(f32, op, x, y),
        _ => return None,
    })
}

fn tyw(t: &Types, ty: TyId) -> u32 {
    t.bits(ty)
}

#[inline]
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn s64(v: u64, w: u32) -> i64 {
    let s = 64 - w;
    ((v << s) as i64) >> s
}

pub fn to_e(v: &V, w: u32) -> E {
    match v {
        V::I(k) => cx().cst(w, *k as u128 & mask(w)),
        V::S(e) => *e,
        V::W(k) => cx().cst(w, **k & mask(w)),
        V::A(_) => panic!("aggregate as scalar"),
    }
}
pub fn from_e(e: E) -> V {
    let n = cx().n(e);
    if n.op == Op::Const {
        mkc(n.k, n.w)
    } else {
        V::S(e)
    }
}
pub fn mkc(k: u128, w: u32) -> V {
    if w <= 64 {
        V::I(k as u64)
    } else {
        V::W(Rc::new(k))
    }
}
fn conc(v: &V) -> Option<u128> {
    match v {
        V::I(k) => Some(*k as u128),
        V::W(k) => Some(**k),
        _ => None,
    }
}

pub fn vbin(op: BinOp, w: u32, a: &V, b: &V) -> V {
    if let (V::I(x), V::I(y)) = (a, b) {
        if w <= 64 {
            let m = m64(w);
            let (x, y) = (*x, *y);
            return V::I(match op {
                BinOp::Add => x.wrapping_add(y) & m,
                BinOp::Sub => x.wrapping_sub(y) & m,
                BinOp::Mul => x.wrapping_mul(y) & m,
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        (x << y) & m
                    }
                }
                BinOp::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                BinOp::AShr => ((s64(x, w) >> y.min(w as u64 - 1)) as u64) & m,
                BinOp::UDiv => {
                    if y == 0 {
                        m
                    } else {
                        x / y
                    }
                }
                BinOp::URem => {
                    if y == 0 {
                        x
                    } else {
                        x % y
                    }
                }
                BinOp::SDiv => {
                    if y == 0 {
                        0
                    } else {
                        (s64(x, w).wrapping_div(s64(y, w)) as u64) & m
                    }
                }
                BinOp::SRem => {
                    if y == 0 {
                        0
                    } else {
                        (s64(x, w).wrapping_rem(s64(y, w)) as u64) & m
                    }
                }
            });
        }
    }
    let c = cx();
    let (x, y) = (to_e(a, w), to_e(b, w));
    from_e(match op {
        BinOp::Add => c.bin(Op::Add, x, y),
        BinOp::Sub => c.sub(x, y),
        BinOp::Mul => c.bin(Op::Mul, x, y),
        BinOp::UDiv => c.bin(Op::UDiv, x, y),
        BinOp::SDiv => c.bin(Op::SDiv, x, y),
        BinOp::URem => c.bin(Op::URem, x, y),
        BinOp::SRem => c.bin(Op::SRem, x, y),
        BinOp::And => c.bin(Op::And, x, y),
        BinOp::Or => c.bin(Op::Or, x, y),
        BinOp::Xor => c.bin(Op::Xor, x, y),
        BinOp::Shl => c.bin(Op::Shl, x, y),
        BinOp::LShr => c.bin(Op::LShr, x, y),
        BinOp::AShr => c.bin(Op::AShr, x, y),
    })
}

pub fn vcmp(p: Pred, w: u32, a: &V, b: &V) -> V {
    if let (V::I(x), V::I(y)) = (a, b) {
        if w <= 64 {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => s64(x, w) < s64(y, w),
                Pred::Sle => s64(x, w) <= s64(y, w),
                Pred::Sgt => s64(x, w) > s64(y, w),
                Pred::Sge => s64(x, w) >= s64(y, w),
            };
            return V::I(r as u64);
        }
    }
    let c = cx();
    let (x, y) = (to_e(a, w), to_e(b, w));
    from_e(match p {
        Pred::Eq => c.bin(Op::Eq, x, y),
        Pred::Ne => c.ne(x, y),
        Pred::Ult => c.bin(Op::Ult, x, y),
        Pred::Ugt => c.bin(Op::Ult, y, x),
        Pred::Ule => {
            let e = c.bin(Op::Ult, y, x);
            c.not(e)
        }
        Pred::Uge => {
            let e = c.bin(Op::Ult, x, y);
            c.not(e)
        }
        Pred::Slt => c.bin(Op::Slt, x, y),
        Pred::Sgt => c.bin(Op::Slt, y, x),
        Pred::Sle => {
            let e = c.bin(Op::Slt, y, x);
            c.not(e)
        }
        Pred::Sge => {
            let e = c.bin(Op::Slt, x, y);
            c.not(e)
        }
    })
}

pub fn vzext(v: &V, from: u32, to: u32) -> V {
    match v {
        V::I(k) if to <= 64 => V::I(*k),
        _ => {
            let e = to_e(v, from);
            from_e(cx().zext(e, to))
        }
    }
}
pub fn vsext(v: &V, from: u32, to: u32) -> V {
    match v {
        V::I(k) if to <= 64 => V::I(s64(*k, from) as u64 & m64(to)),
        _ => {
            let e = to_e(v, from);
            from_e(cx().sext(e, to))
        }
    }
}
pub fn vtrunc(v: &V, from: u32, to: u32) -> V {
    match v {
        V::I(k) => V::I(*k & m64(to)),
        _ => {
            let e = to_e(v, from);
            from_e(cx().extract(e, 0, to))
        }
    }
}

/// Possible values of `e` (over-approximation), if there are at most `limit`.
pub fn cands(e: E, limit: usize) -> Option<Vec<u128>> {
    fn go(e: E, limit: usize, memo: &mut HashMap<E, Option<Vec<u128>>>) -> Option<Vec<u128>> {
        if let Some(r) = memo.get(&e) {
            return r.clone();
        }
        let c = cx();
        let n = c.n(e);
        let m = mask(n.w);
        let norm = |mut v: Vec<u128>| -> Option<Vec<u128>> {
            v.sort_unstable();
            v.dedup();
            if v.len() > limit {
                None
            } else {
                Some(v)
            }
        };
        let r = match n.op {
            Op::Const => Some(vec![n.k]),
            Op::Ite => match (go(n.b, limit, memo), go(n.c, limit, memo)) {
                (Some(mut a), Some(b)) => {
                    a.extend(b);
                    norm(a)
                }
                _ => None,
            },
            Op::ZExt => go(n.a, limit, memo),
            Op::SExt => go(n.a, limit, memo).map(|v| v.into_iter().map(|x| sx(x, c.w(n.a)) as u128 & m).collect()),
            Op::Add | Op::Mul | Op::Concat => match (go(n.a, limit, memo), go(n.b, limit, memo)) {
                (Some(a), Some(b)) if a.len() * b.len() <= limit * 4 => {
                    let lw = c.w(n.b);
                    let mut v = vec![];
                    for x in &a {
                        for y in &b {
                            v.push(match n.op {
                                Op::Add => x.wrapping_add(*y) & m,
                                Op::Mul => x.wrapping_mul(*y) & m,
                                _ => (x << lw) | y,
                            });
                        }
                    }
                    norm(v)
                }
                _ => None,
            },
            Op::Extract => go(n.a, limit, memo).and_then(|v| norm(v.into_iter().map(|x| (x >> n.b) & m).collect())),
            _ => None,
        };
        let r = r.or_else(|| {
            let (lo, hi) = (c.lo[e as usize], c.hi[e as usize]);
            if hi - lo < limit as u128 {
                Some((lo..=hi).collect())
            } else {
                None
            }
        });
        memo.insert(e, r.clone());
        r
    }
    go(e, limit, &mut HashMap::new())
}

impl Engine {
    pub fn new(m: Module, dem: HashMap<String, String>, cfg: Cfg, solver: Solver) -> Engine {
        let Module { types, funcs, func_ix, decls, globals, global_ix: _, aliases } = m;
        let mut gaddr: HashMap<String, u64> = HashMap::new();
        let mut fmap = HashMap::new();
        for (n, i) in &func_ix {
            gaddr.insert(n.clone(), FBASE + 16 * *i as u64);
            fmap.insert(n.clone(), *i);
        }
        let nf = funcs.len();
        let mut exts = vec![];
        for d in &decls {
            if !gaddr.contains_key(d) {
                gaddr.insert(d.clone(), FBASE + 16 * (nf + exts.len()) as u64);
                exts.push(d.clone());
            }
        }
        // ids: constants first, then mutable globals
        let mut cid = 1u64;
        let mut cl = vec![];
        let mut ml = vec![];
        for (i, g) in globals.iter().enumerate() {
            if g.is_const {
                gaddr.insert(g.name.clone(), cid << 32);
                cid += 1;
                cl.push(i);
            } else {
                ml.push(i);
            }
        }
        let nc = cl.len() as u64;
        for (k, &i) in ml.iter().enumerate() {
            gaddr.insert(globals[i].name.clone(), (nc + 1 + k as u64) << 32);
        }
        for (n, c) in &aliases {
            if let Const::Global(t) = c {
                if let Some(&a) = gaddr.get(t) {
                    gaddr.insert(n.clone(), a);
                    if let Some(&i) = fmap.get(t) {
                        fmap.insert(n.clone(), i);
                    }
                }
            }
        }
        let mut eng = Engine {
            types,
            funcs: vec![],
            exts,
            fmap,
            consts: vec![],
            gaddr,
            init_objs: vec![],
            solver,
            cfg,
            executed: vec![false; nf],
            paths_ok: 0,
            paths_assume: 0,
            paths_viol: 0,
            forks: 0,
            merges: 0,
            ipdom: vec![None; nf],
            dom: vec![None; nf],
            asserts_static: 0,
            asserts_solver: 0,
            total_steps: 0,
            max_path_steps: 0,
            reach: BTreeMap::new(),
            viols: vec![],
            samples: vec![],
            errors: vec![],
            ext_used: BTreeSet::new(),
            fork_sites: HashMap::new(),
            max_inputs: 0,
            sym_bytes: 0,
        };
        for &i in cl.iter().chain(ml.iter()) {
            let g = &globals[i];
            let size = eng.types.size[g.ty as usize];
            let mut o = Obj::new(size, false);
            if let Some(c) = &g.init {
                eng.init_const(&mut o, 0, g.ty, c);
            }
            if g.is_const {
                o.writable = false;
                eng.consts.push(Rc::new(o));
            } else {
                eng.init_objs.push(Some(Rc::new(o)));
            }
        }
        let mut dfs = vec![];
        for f in &funcs {
            let d = dem.get(&f.name).cloned().unwrap_or_else(|| f.name.clone());
            let hook = if d.contains("core::hash::sip::Hasher<core::hash::sip::Sip13Rounds> as core::hash::Hasher>::write") && d.ends_with("::write") {
                Hook::SipWrite
            } else if d.contains("core::hash::sip::Hasher<core::hash::sip::Sip13Rounds> as core::hash::Hasher>::finish") && d.ends_with("::finish") {
                Hook::SipFinish
            } else {
                Hook::None
            };
            let blocks = f
                .blocks
                .iter()
                .map(|b| DBlock {
                    insts: b
                        .insts
                        .iter()
                        .map(|i| {
                            i.map(&mut |o: &Opnd| match o {
                                Opnd::Reg(r) => O::R(*r),
                                Opnd::Const(t, c) => O::K(eng.const_v(*t, c)),
                            })
                        })
                        .collect(),
                    nphi: b.nphi,
                })
                .collect();
            dfs.push(DFunc { name: f.name.clone(), dem: d, params: f.params.iter().map(|p| p.1).collect(), blocks, nregs: f.nregs, hook });
        }
        eng.funcs = dfs;
        eng
    }
    fn zero_v(&self, t: TyId) -> V {
        match &self.types.tys[t as usize] {
            Ty::Int(w) if *w > 64 => V::W(Rc::new(0)),
            Ty::Array(n, e) | Ty::Vector(n, e) => V::A(Rc::new(vec![self.zero_v(*e); *n as usize])),
            Ty::Struct(fs, _) => V::A(Rc::new(fs.iter().map(|f| self.zero_v(*f)).collect())),
            _ => V::I(0),
        }
    }
    fn const_v(&self, t: TyId, c: &Const) -> V {
        match c {
            Const::Int(k) => {
                let w = match self.types.tys[t as usize] {
                    Ty::Int(w) => w,
                    _ => 64,
                };
                mkc(*k, w)
            }
            Const::Zero | Const::Undef => self.zero_v(t),
            Const::Global(g) => V::I(*self.gaddr.get(g).unwrap_or(&0)),
            Const::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::I(*x as u64)).collect())),
            Const::Agg(v) => V::A(Rc::new(v.iter().map(|(t, c)| self.const_v(*t, c)).collect())),
            Const::Splat(et, c) => {
                let n = match self.types.tys[t as usize] {
                    Ty::Vector(n, _) => n,
                    _ => panic!("splat"),
                };
                V::A(Rc::new(vec![self.const_v(*et, c); n as usize]))
            }
            Const::Gep(b, off) => match self.const_v(t, b) {
                V::I(a) => V::I(a.wrapping_add(*off as u64)),
                _ => panic!("gep const"),
            },
            Const::Cast(b) => {
                // width adaptation happens through masking
                let v = match &**b {
                    Const::Int(k) => mkc(*k, 64),
                    x => self.const_v(t, x),
                };
                v
            }
            Const::Sub(a, b) => match (self.const_v(t, a), self.const_v(t, b)) {
                (V::I(a), V::I(b)) => V::I(a.wrapping_sub(b)),
                _ => panic!("const sub"),
            },
            Const::Add(a, b) => match (self.const_v(t, a), self.const_v(t, b)) {
                (V::I(a), V::I(b)) => V::I(a.wrapping_add(b)),
                _ => panic!("const add"),
            },
        }
    }
    fn init_const(&self, o: &mut Obj, off: u64, t: TyId, c: &Const) {
        match c {
            Const::Zero | Const::Undef => {}
            Const::Bytes(b) => {
                for (i, x) in b.iter().enumerate() {
                    o.set(off + i as u64, Ok(*x));
                }
            }
            Const::Agg(v) => match self.types.tys[t as usize].clone() {
                Ty::Array(_, e) | Ty::Vector(_, e) => {
                    let s = self.types.size[e as usize];
                    for (i, (et, c)) in v.iter().enumerate() {
                        self.init_const(o, off + s * i as u64, *et, c);
                    }
                }
                Ty::Struct(..) => {
                    for (i, (et, c)) in v.iter().enumerate() {
                        self.init_const(o, off + self.types.field_off(t, i), *et, c);
                    }
                }
                _ => panic!("agg init"),
            },
            Const::Splat(et, c) => {
                if let Ty::Vector(n, _) = self.types.tys[t as usize] {
                    let s = self.types.size[*et as usize];
                    for i in 0..n {
                        self.init_const(o, off + s * i, *et, c);
                    }
                }
            }
            _ => {
                let v = self.const_v(t, c);
                let n = self.types.store_size(t);
                let k = match v {
                    V::I(k) => k as u128,
                    V::W(k) => *k,
                    _ => panic!("init"),
                };
                for i in 0..n {
                    o.set(off + i, Ok((k >> (8 * i)) as u8));
                }
            }
        }
    }

    // ---------------------------------------------------------------- memory
    fn nconst(&self) -> u64 {
        self.consts.len() as u64
    }
    pub fn obj<'a>(&'a self, st: &'a State, id: u64) -> Option<&'a Obj> {
        if id == 0 {
            return None;
        }
        let nc = self.consts.len() as u64;
        if id <= nc {
            return Some(&self.consts[id as usize - 1]);
        }
        st.objs.get((id - nc - 1) as usize).and_then(|o| o.as_deref())
    }
    pub fn obj_mut<'a>(&self, st: &'a mut State, id: u64) -> Option<&'a mut Obj> {
        let nc = self.consts.len() as u64;
        if id <= nc {
            return None;
        }
        st.objs.get_mut((id - nc - 1) as usize).and_then(|o| o.as_mut()).map(Rc::make_mut)
    }
    pub fn alloc(&self, st: &mut State, size: u64, heap: bool) -> u64 {
        let o = Some(Rc::new(Obj::new(size, heap)));
        let ix = if let Some(i) = st.free.pop() {
            st.objs[i as usize] = o;
            i as u64
        } else {
            st.objs.push(o);
            st.objs.len() as u64 - 1
        };
        (ix + self.nconst() + 1) << 32
    }
    fn dealloc(&self, st: &mut State, addr: u64) {
        let ix = (addr >> 32) - self.nconst() - 1;
        st.objs[ix as usize] = None;
        st.free.push(ix as u32);
    }
    fn viol<T>(&self, kind: &str, msg: String) -> R<T> {
        Err(Stop::End(End::Violation { kind: kind.into(), msg }))
    }
    fn err<T>(&self, msg: String) -> R<T> {
        Err(Stop::End(End::Error(msg)))
    }
    fn check(&self, st: &State, addr: u64, n: u64, write: bool) -> R<(u64, u64)> {
        let (id, off) = (addr >> 32, addr & 0xffff_ffff);
        match self.obj(st, id) {
            Some(o) => {
                if off + n > o.size {
                    return self.viol("memory", format!("out-of-bounds access of {} bytes at offset {} of {}-byte object", n, off, o.size));
                }
                if write && !o.writable {
                    return self.viol("readonly-store", format!("store of {} bytes to read-only memory at offset {}", n, off));
                }
                Ok((id, off))
            }
            None => self.viol("memory", format!("access of {} bytes at invalid address {:#x}", n, addr)),
        }
    }
    #[inline]
    fn subst(st: &State, e: E) -> Result<u8, E> {
        if let Some(k) = st.facts.get(&e) {
            return Ok(*k as u8);
        }
        Err(e)
    }
    /// Load an integer of `w` bits from a concrete address.
    fn load_int(&self, st: &State, addr: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as u64;
        let (id, off) = self.check(st, addr, n, false)?;
        let o = self.obj(st, id).unwrap();
        if n <= 8 {
            if let Some(v) = o.read_fast(off, n as usize) {
                return Ok(V::I(v & m64(w)));
            }
        }
        let mut bs: Vec<Result<u8, E>> = Vec::with_capacity(n as usize);
        for i in 0..n {
            bs.push(match o.byte(off + i) {
                Ok(b) => Ok(b),
                Err(e) => Self::subst(st, e),
            });
        }
        Ok(Self::join(&bs, w))
    }
    fn join(bs: &[Result<u8, E>], w: u32) -> V {
        if bs.iter().all(|b| b.is_ok()) {
            let mut k = 0u128;
            for (i, b) in bs.iter().enumerate() {
                k |= (*b.as_ref().unwrap() as u128) << (8 * i);
            }
            return mkc(k & mask(w), w);
        }
        let c = cx();
        let mut e: Option<E> = None;
        for b in bs.iter().rev() {
            let x = match b {
                Ok(k) => c.cst(8, *k as u128),
                Err(e) => *e,
            };
            e = Some(match e {
                None => x,
                Some(h) => c.concat(h, x),
            });
        }
        let e = e.unwrap();
        let e = if c.w(e) > w { c.extract(e, 0, w) } else { e };
        from_e(e)
    }
    fn split(v: &V, w: u32) -> Vec<Result<u8, E>> {
        let n = (w + 7) / 8;
        match conc(v) {
            Some(k) => (0..n).map(|i| Ok((k >> (8 * i)) as u8)).collect(),
            None => {
                let c = cx();
                let mut e = to_e(v, w);
                if w % 8 != 0 {
                    e = c.zext(e, n * 8);
                }
                (0..n)
                    .map(|i| {
                        let b = c.extract(e, i * 8, 8);
                        match c.k(b) {
                            Some(k) => Ok(k as u8),
                            None => Err(b),
                        }
                    })
                    .collect()
            }
        }
    }
    fn store_int(&self, st: &mut State, addr: u64, w: u32, v: &V) -> R<()> {
        let n = ((w + 7) / 8) as u64;
        let (id, off) = self.check(st, addr, n, true)?;
        if let V::I(k) = v {
            if n <= 8 {
                let o = self.obj_mut(st, id).unwrap();
                if o.write_fast(off, n as usize, *k) {
                    return Ok(());
                }
            }
        }
        let bs = Self::split(v, w);
        let o = self.obj_mut(st, id).unwrap();
        for (i, b) in bs.into_iter().enumerate() {
            o.set(off + i as u64, b);
        }
        Ok(())
    }

    /// Constrain a state; `m` must satisfy the old path condition and `e`.
    pub fn assume(st: &mut State, e: E, m: Option<Rc<Model>>) {
        if let Some(m) = m {
            st.model = m;
        }
        let c = cx();
        let mut todo = vec![e];
        while let Some(e) = todo.pop() {
            if e == 1 || st.facts.get(&e) == Some(&1) {
                continue;
            }
            let n = c.n(e);
            if n.op == Op::And {
                todo.push(n.a);
                todo.push(n.b);
                continue;
            }
            if n.op == Op::Xor && c.k(n.b) == Some(1) {
                let x = c.n(n.a);
                if x.op == Op::Or {
                    let p = c.not(x.a);
                    let q = c.not(x.b);
                    todo.push(p);
                    todo.push(q);
                    continue;
                }
                st.facts.insert(n.a, 0);
            }
            if n.op == Op::Eq {
                if let Some(k) = c.k(n.b) {
                    st.facts.insert(n.a, k);
                }
            }
            st.facts.insert(e, 1);
            st.pc.push(e);
        }
    }
    fn fork_mark(&mut self, st: &mut State, label: u64) {
        st.fdepth += 1;
        st.fhash = (st.fhash ^ label).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23) ^ (st.fhash >> 7);
    }
    fn site(&mut self, st: &State) {
        let f = st.frames.last().unwrap();
        *self.fork_sites.entry((f.f, f.block)).or_insert(0) += 1;
        self.forks += 1;
    }
    /// Feasible truth values of a condition: (true model, false model).
    fn both(&mut self, st: &State, e: E) -> R<(Option<Rc<Model>>, Option<Rc<Model>>)> {
        self.both_with(st, e, true)
    }
    fn both_with(&mut self, st: &State, e: E, cases: bool) -> R<(Option<Rc<Model>>, Option<Rc<Model>>)> {
        if e == 1 {
            return Ok((Some(st.model.clone()), None));
        }
        if e == 0 {
            return Ok((None, Some(st.model.clone())));
        }
        if let Some(k) = st.facts.get(&e) {
            return Ok(if *k == 1 { (Some(st.model.clone()), None) } else { (None, Some(st.model.clone())) });
        }
        let c = cx();
        let v = st.model.eval(e);
        if v == 1 {
            let ne = c.not(e);
            match self.solver.check_with(&st.pc, ne, &st.model, cases) {
                Res::Sat(m) => Ok((Some(st.model.clone()), Some(m))),
                Res::Unsat => Ok((Some(st.model.clone()), None)),
                Res::Unknown => self.err("solver returned unknown".into()),
            }
        } else {
            match self.solver.check_with(&st.pc, e, &st.model, cases) {
                Res::Sat(m) => Ok((Some(m), Some(st.model.clone()))),
                Res::Unsat => Ok((None, Some(st.model.clone()))),
                Res::Unknown => self.err("solver returned unknown".into()),
            }
        }
    }
    /// Make a value concrete, forking over every feasible value.
    pub fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> R<u128> {
        match v {
            V::I(k) => Ok(*k as u128),
            V::W(k) => Ok(**k),
            V::A(_) => self.err("concretize aggregate".into()),
            V::S(e) => self.concretize_e(st, *e, w),
        }
    }
    fn concretize_e(&mut self, st: &mut State, e: E, w: u32) -> R<u128> {
        if let Some(k) = cx().k(e) {
            return Ok(k);
        }
        if let Some(k) = st.facts.get(&e) {
            return Ok(*k);
        }
        let _ = w;
        let mut vals: Vec<(u128, Rc<Model>)> = vec![];
        let c = cx();
        let mut m = st.model.clone();
        let mut excl = 1;
        loop {
            let k = m.eval(e);
            vals.push((k, m.clone()));
            if vals.len() > self.cfg.enum_cap {
                return self.err(format!("too many values when concretising {}", show(e, 4)));
            }
            if vals.len() == 8 {
                // Many values over a tiny domain (at most two input bytes, including every
                // related path constraint): decide by evaluating the whole domain.
                if let Some(all) = self.small_domain(st, e) {
                    vals = all;
                    break;
                }
            }
            let ke = c.cst(c.w(e), k);
            let ne = c.ne(e, ke);
            excl = c.and1(excl, ne);
            match self.solver.check(&st.pc, excl, &st.model) {
                Res::Sat(m2) => m = m2,
                Res::Unsat => break,
                Res::Unknown => return self.err("solver returned unknown".into()),
            }
        }
        if vals.len() == 1 {
            st.facts.insert(e, vals[0].0);
            return Ok(vals[0].0);
        }
        vals.sort_by_key(|x| x.0);
        self.site(st);
        let mut out = vec![];
        for (k, m) in vals {
            let mut s = st.clone();
            let ke = c.cst(c.w(e), k);
            let eq = c.bin(Op::Eq, e, ke);
            Self::assume(&mut s, eq, Some(m));
            s.facts.insert(e, k);
            self.fork_mark(&mut s, k as u64 + 2);
            out.push(s);
        }
        Err(Stop::Fork(out))
    }
    fn small_domain(&self, st: &State, e: E) -> Option<Vec<(u128, Rc<Model>)>> {
        let c = cx();
        let mut vars: Vec<u32> = c.vars(e).to_vec();
        let mut used: Vec<E> = vec![];
        loop {
            if vars.len() > 2 {
                return None;
            }
            let mut grew = false;
            for p in &st.pc {
                if used.contains(p) {
                    continue;
                }
                let pv = c.vars(*p);
                if pv.iter().any(|v| vars.contains(v)) {
                    used.push(*p);
                    for v in pv.iter() {
                        if !vars.contains(v) {
                            vars.push(*v);
                        }
                    }
                    grew = true;
                }
            }
            if !grew {
                break;
            }
        }
        if vars.len() > 2 || vars.is_empty() {
            return None;
        }
        let mut out: BTreeMap<u128, Rc<Model>> = BTreeMap::new();
        let n = 1u32 << (8 * vars.len());
        let mut base = st.model.vals.clone();
        let need = *vars.iter().max().unwrap() as usize + 1;
        if base.len() < need {
            base.resize(need, 0);
        }
        for x in 0..n {
            for (i, v) in vars.iter().enumerate() {
                base[*v as usize] = (x >> (8 * i)) as u8;
            }
            let m = Model::new(base.clone());
            if used.iter().all(|p| m.eval(*p) == 1) {
                let k = m.eval(e);
                out.entry(k).or_insert(m);
                if out.len() > self.cfg.enum_cap {
                    return None;
                }
            }
        }
        Some(out.into_iter().collect())
    }
    /// Resolve a symbolic address into candidate concrete addresses within one object.
    fn resolve(&mut self, st: &mut State, a: E, n: u64, write: bool) -> R<Vec<u64>> {
        let c = cx();
        if let Some(k) = st.facts.get(&a) {
            return Ok(vec![*k as u64]);
        }
        let (lo, hi) = (c.lo[a as usize] as u64, c.hi[a as usize] as u64);
        let mut ok = None;
        if lo >> 32 == hi >> 32 {
            if let Some(o) = self.obj(st, lo >> 32) {
                if (hi & 0xffff_ffff) + n <= o.size {
                    ok = Some((lo >> 32, o.size));
                }
            }
        }
        if ok.is_none() {
            let mut found: Vec<(u64, E, Rc<Model>, u64)> = vec![];
            let mut m = st.model.clone();
            let mut excl = 1;
            loop {
                let k = m.eval(a) as u64;
                let id = k >> 32;
                let (base, size) = match self.obj(st, id) {
                    Some(o) if o.size >= n && (k & 0xffff_ffff) + n <= o.size => (id << 32, o.size),
                    _ => {
                        st.model = m;
                        let msg = format!("out-of-bounds access of {} bytes at address {:#x}", n, k);
                        return self.viol("memory", msg);
                    }
                };
                let b = c.cst(64, base as u128);
                let t = c.cst(64, (base + size - n) as u128);
                let x = c.bin(Op::Ult, a, b);
                let x = c.not(x);
                let y = c.bin(Op::Ult, t, a);
                let y = c.not(y);
                let inn = c.and1(x, y);
                found.push((id, inn, m.clone(), size));
                let nin = c.not(inn);
                excl = c.and1(excl, nin);
                match self.solver.check(&st.pc, excl, &st.model) {
                    Res::Sat(m2) => m = m2,
                    Res::Unsat => break,
                    Res::Unknown => return self.err("solver returned unknown".into()),
                }
            }
            if found.len() > 1 {
                found.sort_by_key(|f| f.0);
                self.site(st);
                let mut out = vec![];
                for (id, inn, m, _) in found {
                    let mut s = st.clone();
                    Self::assume(&mut s, inn, Some(m));
                    self.fork_mark(&mut s, id + 2);
                    out.push(s);
                }
                return Err(Stop::Fork(out));
            }
            ok = Some((found[0].0, found[0].3));
        }
        let (id, size) = ok.unwrap();
        let lim = if write { self.cfg.ite_limit.min(320) } else { self.cfg.ite_limit };
        let base = id << 32;
        if let Some(v) = cands(a, lim * 4) {
            let v: Vec<u64> = v.into_iter().map(|x| x as u64).filter(|x| *x >= base && *x + n <= base + size).collect();
            if v.len() <= lim && !v.is_empty() {
                return Ok(v);
            }
        }
        if size - n + 1 <= lim as u64 {
            return Ok((base..=base + size - n).collect());
        }
        let k = self.concretize_e(st, a, 64)?;
        Ok(vec![k as u64])
    }
    fn load_scalar(&mut self, st: &mut State, p: &V, w: u32) -> R<V> {
        match p {
            V::I(a) => self.load_int(st, *a, w),
            V::S(e) => {
                let n = ((w + 7) / 8) as u64;
                let cs = self.resolve(st, *e, n, false)?;
                if cs.len() == 1 {
                    return self.load_int(st, cs[0], w);
                }
                let c = cx();
                // group equal values
                let mut groups: Vec<(E, E)> = vec![]; // (value, cond)
                let mut ix: HashMap<E, usize> = HashMap::new();
                for a in cs {
                    let v = self.load_int(st, a, w)?;
                    let ve = to_e(&v, w);
                    let ke = c.cst(64, a as u128);
                    let eq = c.bin(Op::Eq, *e, ke);
                    if eq == 0 {
                        continue;
                    }
                    match ix.get(&ve) {
                        Some(&i) => groups[i].1 = c.or1(groups[i].1, eq),
                        None => {
                            ix.insert(ve, groups.len());
                            groups.push((ve, eq));
                        }
                    }
                }
                let mut acc = groups[groups.len() - 1].0;
                for (v, cnd) in groups[..groups.len() - 1].iter().rev() {
                    acc = c.ite(*cnd, *v, acc);
                }
                Ok(from_e(acc))
            }
            _ => self.err("bad pointer".into()),
        }
    }
    fn store_scalar(&mut self, st: &mut State, p: &V, w: u32, v: &V) -> R<()> {
        match p {
            V::I(a) => self.store_int(st, *a, w, v),
            V::S(e) => {
                let n = ((w + 7) / 8) as u64;
                let cs = self.resolve(st, *e, n, true)?;
                if cs.len() == 1 {
                    return self.store_int(st, cs[0], w, v);
                }
                let c = cx();
                let nv = to_e(v, w);
                let mut upd = vec![];
                for a in cs {
                    let old = self.load_int(st, a, w)?;
                    let ke = c.cst(64, a as u128);
                    let eq = c.bin(Op::Eq, *e, ke);
                    if eq == 0 {
                        continue;
                    }
                    let oe = to_e(&old, w);
                    upd.push((a, from_e(c.ite(eq, nv, oe))));
                    // overlapping candidates must see earlier updates
                    let (a, v) = upd.last().unwrap().clone();
                    self.store_int(st, a, w, &v)?;
                }
                Ok(())
            }
            _ => self.err("bad pointer".into()),
        }
    }
    fn padd(&self, p: &V, k: u64) -> V {
        vbin(BinOp::Add, 64, p, &V::I(k))
    }
    fn load(&mut self, st: &mut State, p: &V, t: TyId) -> R<V> {
        match self.types.tys[t as usize].clone() {
            Ty::Int(w) => self.load_scalar(st, p, w),
            Ty::Ptr => self.load_scalar(st, p, 64),
            Ty::Float(w) => self.load_scalar(st, p, w),
            Ty::Array(n, e) | Ty::Vector(n, e) => {
                let s = self.types.size[e as usize];
                let mut v = vec![];
                for i in 0..n {
                    let q = self.padd(p, i * s);
                    v.push(self.load(st, &q, e)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(fs, _) => {
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() {
                    let q = self.padd(p, self.types.field_off(t, i));
                    v.push(self.load(st, &q, *f)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => self.err("load type".into()),
        }
    }
    fn store(&mut self, st: &mut State, p: &V, t: TyId, v: &V) -> R<()> {
        match self.types.tys[t as usize].clone() {
            Ty::Int(w) => self.store_scalar(st, p, w, v),
            Ty::Ptr => self.store_scalar(st, p, 64, v),
            Ty::Float(w) => self.store_scalar(st, p, w, v),
            Ty::Array(_, e) | Ty::Vector(_, e) => {
                let s = self.types.size[e as usize];
                if let V::A(a) = v {
                    for (i, x) in a.iter().enumerate() {
                        let q = self.padd(p, i as u64 * s);
                        self.store(st, &q, e, x)?;
                    }
                }
                Ok(())
            }
            Ty::Struct(fs, _) => {
                if let V::A(a) = v {
                    for (i, f) in fs.iter().enumerate() {
                        let q = self.padd(p, self.types.field_off(t, i));
                        self.store(st, &q, *f, &a[i])?;
                    }
                }
                Ok(())
            }
            _ => self.err("store type".into()),
        }
    }

    // ------------------------------------------------------------- execution
    fn val(&self, st: &State, o: &O) -> V {
        match o {
            O::K(v) => v.clone(),
            O::R(r) => {
                let v = &st.frames.last().unwrap().regs[*r as usize];
                if let V::S(e) = v {
                    if let Some(k) = st.facts.get(e) {
                        return mkc(*k, cx().w(*e));
                    }
                }
                v.clone()
            }
        }
    }
    fn set(&self, st: &mut State, d: u32, v: V) {
        let f = st.frames.last_mut().unwrap();
        f.regs[d as usize] = v;
    }
    fn jump(&self, st: &mut State, b: u32) {
        let f = st.frames.last_mut().unwrap();
        f.prev = f.block;
        f.block = b;
        f.ip = 0;
        // phis
        let blk = &self.funcs[f.f as usize].blocks[b as usize];
        if blk.nphi > 0 {
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(blk.nphi);
            for i in &blk.insts[..blk.nphi] {
                if let Inst::Phi(d, _, srcs) = i {
                    let o = &srcs.iter().find(|s| s.0 == f.prev).expect("phi edge").1;
                    let v = match o {
                        O::K(v) => v.clone(),
                        O::R(r) => f.regs[*r as usize].clone(),
                    };
                    vals.push((*d, v));
                }
            }
            for (d, v) in vals {
                f.regs[d as usize] = v;
            }
            f.ip = blk.nphi as u32;
        }
    }
    fn push_frame(&mut self, st: &mut State, fi: usize, args: Vec<V>, dst: Option<u32>, normal: Option<u32>) -> R<()> {
        if st.frames.len() > 400 {
            return self.viol("stack-overflow", "call depth exceeds 400".into());
        }
        self.executed[fi] = true;
        let f = &self.funcs[fi];
        let mut regs = vec![V::I(0); f.nregs as usize];
        for (p, a) in f.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        st.frames.push(Frame { f: fi as u32, block: 0, prev: 0, ip: 0, regs, allocas: vec![], dst, normal });
        Ok(())
    }

    pub fn initial(&mut self) -> State {
        let mut st = State {
            frames: vec![],
            objs: self.init_objs.clone(),
            free: vec![],
            pc: vec![],
            facts: FxMap::default(),
            model: Model::new(vec![]),
            steps: 0,
            nvars: 0,
            inputs: vec![],
            fhash: 0x1234567,
            fdepth: 0,
            vfs: Vfs { next_fd: 3, ..Default::default() },
            notes: vec![],
        };
        let a = self.alloc(&mut st, 4, false);
        st.vfs.errno_obj = (a >> 32) as u32;
        let fi = *self.fmap.get(&self.cfg.entry).unwrap_or_else(|| panic!("no entry {}", self.cfg.entry));
        let _ = self.push_frame(&mut st, fi, vec![], None, None);
        st
    }

    pub fn run(&mut self) -> bool {
        let t0 = Instant::now();
        let mut work = vec![self.initial()];
        let mut iters = 0u64;
        while let Some(mut st) = work.pop() {
            if self.viols.len() >= self.cfg.max_viol {
                return true;
            }
            let s0 = st.steps;
            let stop = loop {
                match self.step(&mut st) {
                    Ok(()) => {
                        st.steps += 1;
                        if st.steps > self.cfg.max_steps {
                            break Stop::End(End::Violation {
                                kind: "hang".into(),
                                msg: format!("no termination within {} instructions", self.cfg.max_steps),
                            });
                        }
                        iters += 1;
                        if iters & 0xfff == 0 && t0.elapsed().as_secs_f64() > self.cfg.time_limit {
                            self.errors.push(format!("time limit of {} s reached with {} states pending", self.cfg.time_limit, work.len() + 1));
                            return false;
                        }
                    }
                    Err(s) => break s,
                }
            };
            self.total_steps += st.steps - s0;
            self.max_path_steps = self.max_path_steps.max(st.steps);
            match stop {
                Stop::Fork(v) => {
                    for s in v {
                        let (i, n) = self.cfg.shard;
                        if n > 1 && s.fdepth == self.cfg.shard_depth && (s.fhash >> 11) % n != i {
                            continue;
                        }
                        work.push(s);
                    }
                    if t0.elapsed().as_secs_f64() > self.cfg.time_limit {
                        self.errors.push(format!("time limit of {} s reached with {} states pending", self.cfg.time_limit, work.len()));
                        return false;
                    }
                }
                Stop::End(e) => {
                    let (i, n) = self.cfg.shard;
                    let mine = n <= 1 || st.fdepth >= self.cfg.shard_depth || (st.fhash >> 11) % n == i;
                    match e {
                        End::Ok => {
                            if mine {
                                self.paths_ok += 1;
                                if self.samples.len() < self.cfg.samples && (self.paths_ok <= 4 || self.paths_ok.is_power_of_two()) {
                                    let v = self.witness(&st, "ok".into(), String::new());
                                    self.samples.push(v);
                                }
                                self.max_inputs = self.max_inputs.max(st.nvars);
                            }
                        }
                        End::AssumeFail => {
                            if mine {
                                self.paths_assume += 1
                            }
                        }
                        End::Violation { kind, msg } => {
                            self.paths_viol += 1;
                            self.record(&st, kind, msg);
                        }
                        End::Error(m) => {
                            let s = self.stack(&st);
                            self.errors.push(format!("{} at {}", m, s.first().cloned().unwrap_or_default()));
                            if self.cfg.trace {
                                eprintln!("ERROR {} stack {:#?}", m, s);
                            }
                            if self.errors.len() > 20 {
                                return false;
                            }
                        }
                    }
                }
            }
        }
        self.errors.is_empty()
    }
    pub fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| self.funcs[f.f as usize].dem.clone()).collect()
    }
    fn record(&mut self, st: &State, kind: String, msg: String) {
        let v = self.witness(st, kind, msg);
        self.viols.push(v);
    }
    fn witness(&self, st: &State, kind: String, msg: String) -> Viol {
        let inputs = st
            .inputs
            .iter()
            .map(|i| {
                let v = (i.first..i.first + i.len).map(|k| st.model.vals.get(k as usize).copied().unwrap_or(0)).collect();
                (i.name.clone(), v)
            })
            .collect();
        let stack = self.stack(st);
        let notes = st
            .notes
            .iter()
            .map(|(n, v)| {
                let k = match v {
                    V::I(k) => *k as u128,
                    V::S(e) => st.model.eval(*e),
                    _ => 0,
                };
                format!("{}={}", n, k)
            })
            .collect();
        Viol { kind, msg, inputs, stack, notes }
    }

    fn elems(&self, t: TyId) -> Option<(usize, TyId)> {
        match self.types.tys[t as usize] {
            Ty::Vector(n, e) => Some((n as usize, e)),
            _ => None,
        }
    }
    fn vlift1(&self, t: TyId, a: &V, f: &dyn Fn(u32, &V) -> V) -> V {
        match (self.elems(t), a) {
            (Some((_, e)), V::A(x)) => {
                let w = tyw(&self.types, e);
                V::A(Rc::new(x.iter().map(|a| f(w, a)).collect()))
            }
            (Some((n, e)), _) => {
                let w = tyw(&self.types, e);
                V::A(Rc::new((0..n).map(|_| f(w, &V::I(0))).collect()))
            }
            _ => f(tyw(&self.types, t), a),
        }
    }
    fn vlift2(&self, t: TyId, a: &V, b: &V, f: &dyn Fn(u32, &V, &V) -> V) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let (_, e) = self.elems(t).expect("vector");
                let w = tyw(&self.types, e);
                V::A(Rc::new(x.iter().zip(y.iter()).map(|(a, b)| f(w, a, b)).collect()))
            }
            _ => f(tyw(&self.types, t), a, b),
        }
    }
    fn vselect(c: &V, a: &V, b: &V, w: &dyn Fn() -> u32) -> V {
        match c {
            V::I(k) => {
                if *k & 1 == 1 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            V::S(e) => match (a, b) {
                (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| {
                    let ww = match (p, q) {
                        (V::S(s), _) | (_, V::S(s)) => cx().w(*s),
                        _ => 64,
                    };
                    Self::vselect(c, p, q, &|| ww)
                }).collect())),
                _ => {
                    let w = match (a, b) {
                        (V::S(s), _) | (_, V::S(s)) => cx().w(*s),
                        _ => w(),
                    };
                    let (x, y) = (to_e(a, w), to_e(b, w));
                    from_e(cx().ite(*e, x, y))
                }
            },
            V::A(cs) => match (a, b) {
                (V::A(x), V::A(y)) => V::A(Rc::new(
                    cs.iter().zip(x.iter().zip(y.iter())).map(|(c, (p, q))| Self::vselect(c, p, q, w)).collect(),
                )),
                _ => panic!("vselect"),
            },
            _ => panic!("vselect cond"),
        }
    }
    fn bitcast(&self, from: TyId, to: TyId, v: &V) -> V {
        // flatten to one integer, then split
        let flat = |t: TyId, v: &V| -> (V, u32) {
            match (self.elems(t), v) {
                (Some((_, e)), V::A(x)) => {
                    let w = tyw(&self.types, e);
                    let tot = w * x.len() as u32;
                    if x.iter().all(|y| conc(y).is_some()) {
                        let mut k = 0u128;
                        for (i, y) in x.iter().enumerate() {
                            k |= conc(y).unwrap() << (w * i as u32);
                        }
                        (mkc(k, tot), tot)
                    } else {
                        let c = cx();
                        let mut acc: Option<E> = None;
                        for y in x.iter().rev() {
                            let e = to_e(y, w);
                            acc = Some(match acc {
                                None => e,
                                Some(h) => c.concat(h, e),
                            });
                        }
                        (from_e(acc.unwrap()), tot)
                    }
                }
                _ => (v.clone(), tyw(&self.types, t)),
            }
        };
        let (x, w) = flat(from, v);
        match self.elems(to) {
            Some((n, e)) => {
                let ew = tyw(&self.types, e);
                let mut out = vec![];
                for i in 0..n as u32 {
                    out.push(match conc(&x) {
                        Some(k) => mkc((k >> (ew * i)) & mask(ew), ew),
                        None => {
                            let xe = to_e(&x, w);
                            from_e(cx().extract(xe, ew * i, ew))
                        }
                    });
                }
                V::A(Rc::new(out))
            }
            None => x,
        }
    }

    fn branch(&mut self, st: &mut State, c: &V, a: u32, b: u32) -> R<()> {
        match c {
            V::I(k) => {
                self.jump(st, if *k & 1 == 1 { a } else { b });
                Ok(())
            }
            V::S(e) => {
                let (t, f) = self.both(st, *e)?;
                match (t, f) {
                    (Some(_), None) => {
                        st.facts.insert(*e, 1);
                        self.jump(st, a)
                    }
                    (None, Some(_)) => {
                        st.facts.insert(*e, 0);
                        self.jump(st, b)
                    }
                    (Some(mt), Some(mf)) => {
                        if a == b {
                            self.jump(st, a);
                            return Ok(());
                        }
                        let j = if self.cfg.merge { self.join_block(st) } else { None };
                        let c = cx();
                        let ne = c.not(*e);
                        let mut s1 = st.clone();
                        Self::assume(&mut s1, *e, Some(mt));
                        s1.facts.insert(*e, 1);
                        let mut s2 = st.clone();
                        Self::assume(&mut s2, ne, Some(mf));
                        s2.facts.insert(*e, 0);
                        if let Some(j) = j {
                            if let Some(m) = self.try_merge(st, &s1, &s2, *e, a, b, j) {
                                self.merges += 1;
                                *st.frames.last_mut().unwrap() = m;
                                return Ok(());
                            }
                        }
                        self.site(st);
                        self.fork_mark(&mut s1, 1);
                        self.jump(&mut s1, a);
                        self.fork_mark(&mut s2, 0);
                        self.jump(&mut s2, b);
                        return Err(Stop::Fork(vec![s1, s2]));
                    }
                    _ => return self.err("infeasible state".into()),
                }
                Ok(())
            }
            _ => self.err("branch".into()),
        }
    }

    /// The block where the two sides of the current block's branch meet again (immediate post-dominator,
    /// ignoring blocks from which the function cannot return).
    fn join_block(&mut self, st: &State) -> Option<u32> {
        let fr = st.frames.last().unwrap();
        let fi = fr.f as usize;
        if self.ipdom[fi].is_none() {
            self.ipdom[fi] = Some(ipdoms(&self.funcs[fi]));
        }
        self.ipdom[fi].as_ref().unwrap()[fr.block as usize]
    }
    /// Instructions that may be executed on both sides of a branch before merging: they only define registers.
    fn mergeable(&self, st: &State) -> bool {
        let fr = st.frames.last().unwrap();
        match &self.funcs[fr.f as usize].blocks[fr.block as usize].insts[fr.ip as usize] {
            Inst::Bin(..) | Inst::ICmp(..) | Inst::Cast(..) | Inst::Select(..) | Inst::Gep(..) | Inst::ExtractValue(..)
            | Inst::InsertValue(..) | Inst::Br(..) | Inst::CondBr(..) | Inst::Nop | Inst::Load(..) => true,
            Inst::Call { callee: O::K(V::I(k)), normal: None, .. } if *k >= FBASE => {
                let fi = ((*k - FBASE) / 16) as usize;
                fi >= self.funcs.len() && {
                    let n = &self.exts[fi - self.funcs.len()];
                    n.starts_with("llvm.")
                        && (n.contains(".with.overflow")
                            || ["llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax", "llvm.ctpop", "llvm.usub.sat", "llvm.uadd.sat", "llvm.assume"]
                                .iter()
                                .any(|p| n.starts_with(p)))
                }
            }
            _ => false,
        }
    }
    fn side(&mut self, s: &State, to: u32, j: u32) -> Option<Frame> {
        let mut s = s.clone();
        let depth = s.frames.len();
        self.jump(&mut s, to);
        for _ in 0..self.cfg.merge_limit {
            let fr = s.frames.last().unwrap();
            if s.frames.len() == depth && fr.block == j && fr.ip as usize == self.funcs[fr.f as usize].blocks[j as usize].nphi {
                return s.frames.pop();
            }
            if !self.mergeable(&s) {
                return None;
            }
            match self.step(&mut s) {
                Ok(()) => {}
                Err(_) => return None,
            }
            self.total_steps += 1;
        }
        None
    }
    fn try_merge(&mut self, st: &State, s1: &State, s2: &State, e: E, a: u32, b: u32, j: u32) -> Option<Frame> {
        let f1 = self.side(s1, a, j)?;
        let f2 = self.side(s2, b, j)?;
        // A side may have passed the head of a loop and redefined registers that are still in use at the
        // join: those whose definition dominates it. All others are dead there unless they are its phis.
        let mut m = f1.clone();
        let fi = m.f as usize;
        if self.dom[fi].is_none() {
            self.dom[fi] = Some(Rc::new(doms(&self.funcs[fi])));
        }
        let dom = self.dom[fi].clone().unwrap();
        let nphi = self.funcs[fi].blocks[j as usize].nphi;
        let mut ndiff = 0;
        for d in 0..m.regs.len() {
            let (x, y) = (&f1.regs[d], &f2.regs[d]);
            let same = match (x, y) {
                (V::I(p), V::I(q)) => p == q,
                (V::S(p), V::S(q)) => p == q,
                (V::W(p), V::W(q)) => p == q,
                (V::A(p), V::A(q)) => Rc::ptr_eq(p, q),
                _ => false,
            };
            if same {
                continue;
            }
            let Some((db, dt)) = dom.defs[d] else { return None };
            let is_phi = db == j && self.funcs[fi].blocks[j as usize].insts[..nphi].iter().any(|i| matches!(i, Inst::Phi(r, ..) if *r as usize == d));
            if !is_phi && !dom.strictly(db, j) {
                continue;
            }
            ndiff += 1;
            let w = match dt.map(|t| &self.types.tys[t as usize]) {
                Some(Ty::Int(w)) if *w <= 64 => *w,
                _ => return None,
            };
            let c = cx();
            let (x, y) = (to_e(x, w), to_e(y, w));
            m.regs[d] = from_e(c.ite(e, x, y));
        }
        if ndiff > 4 {
            return None;
        }
        m.prev = f1.prev;
        m.block = j;
        m.ip = nphi as u32;
        Some(m)
    }

    pub fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        // The instruction outlives this call: functions are never mutated after construction.
        let inst: &Inst<O> =
            unsafe { &*(&self.funcs[fr.f as usize].blocks[fr.block as usize].insts[fr.ip as usize] as *const Inst<O>) };
        match inst {
            Inst::Bin(d, op, t, a, b) => {
                let (a, b) = (self.val(st, a), self.val(st, b));
                let r = if let (V::I(_), V::I(_)) = (&a, &b) {
                    vbin(*op, tyw(&self.types, *t), &a, &b)
                } else {
                    self.vlift2(*t, &a, &b, &|w, x, y| vbin(*op, w, x, y))
                };
                self.set(st, *d, r);
            }
            Inst::ICmp(d, p, t, a, b) => {
                let (a, b) = (self.val(st, a), self.val(st, b));
                let r = self.vlift2(*t, &a, &b, &|w, x, y| vcmp(*p, w, x, y));
                self.set(st, *d, r);
            }
            Inst::Fp(d, op, t, u, a, b) => {
                let (a, b) = (self.val(st, a), b.as_ref().map(|b| self.val(st, b)));
                let Some(r) = fp_op(&self.types, op, *t, *u, &a, &b) else {
                    return self.err(format!("unsupported floating-point operation {}", op));
                };
                self.set(st, *d, V::I(r));
            }
            Inst::Cast(d, op, t, u, a) => {
                let a = self.val(st, a);
                let r = match op {
                    CastOp::Freeze => a,
                    CastOp::Bitcast => {
                        if self.elems(*t).is_some() || self.elems(*u).is_some() {
                            self.bitcast(*t, *u, &a)
                        } else {
                            a
                        }
                    }
                    _ => {
                        let tw = match self.elems(*u) {
                            Some((_, e)) => tyw(&self.types, e),
                            None => tyw(&self.types, *u),
                        };
                        self.vlift1(*t, &a, &|w, x| match op {
                            CastOp::ZExt => vzext(x, w, tw),
                            CastOp::SExt => vsext(x, w, tw),
                            CastOp::Trunc => vtrunc(x, w, tw),
                            _ => {
                                if tw < w {
                                    vtrunc(x, w, tw)
                                } else {
                                    vzext(x, w, tw)
                                }
                            }
                        })
                    }
                };
                self.set(st, *d, r);
            }
            Inst::Select(d, _, t, c, a, b) => {
                let c = self.val(st, c);
                let (a, b) = (self.val(st, a), self.val(st, b));
                let ty = self.types.tys[*t as usize].clone();
                let w = match ty {
                    Ty::Vector(_, e) => tyw(&self.types, e),
                    Ty::Int(_) | Ty::Ptr | Ty::Float(_) => tyw(&self.types, *t),
                    _ => 64,
                };
                let r = match (&ty, &c) {
                    (Ty::Struct(fs, _), V::S(e)) => {
                        // per-field widths
                        let (V::A(x), V::A(y)) = (&a, &b) else { return self.err("select".into()) };
                        let mut out = vec![];
                        for (i, f) in fs.iter().enumerate() {
                            let w = tyw(&self.types, *f);
                            let (p, q) = (to_e(&x[i], w), to_e(&y[i], w));
                            out.push(from_e(cx().ite(*e, p, q)));
                        }
                        V::A(Rc::new(out))
                    }
                    _ => Self::vselect(&c, &a, &b, &|| w),
                };
                self.set(st, *d, r);
            }
            Inst::Load(d, t, p) => {
                let p = self.val(st, p);
                let v = self.load(st, &p, *t)?;
                self.set(st, *d, v);
            }
            Inst::Store(t, v, p) => {
                let v = self.val(st, v);
                let p = self.val(st, p);
                self.store(st, &p, *t, &v)?;
            }
            Inst::Alloca(d, t, n) => {
                let n = match self.val(st, n) {
                    V::I(n) => n,
                    _ => return self.err("alloca count".into()),
                };
                let a = self.alloc(st, self.types.size[*t as usize] * n, false);
                let ix = (a >> 32) - self.nconst() - 1;
                st.frames.last_mut().unwrap().allocas.push(ix as u32);
                self.set(st, *d, V::I(a));
            }
            Inst::Gep(d, b, ix) => {
                let mut p = self.val(st, b);
                for i in ix {
                    match i {
                        GepIdx::Const(k) => p = self.padd(&p, *k),
                        GepIdx::Scaled(o, w, s) => {
                            let v = self.val(st, o);
                            let v = if *w < 64 { vsext(&v, *w, 64) } else { v };
                            let off = vbin(BinOp::Mul, 64, &v, &V::I(*s));
                            p = vbin(BinOp::Add, 64, &p, &off);
                        }
                    }
                }
                self.set(st, *d, p);
            }
            Inst::ExtractValue(d, a, ix) => {
                let mut v = self.val(st, a);
                for i in ix {
                    v = match &v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => return self.err("extractvalue".into()),
                    };
                }
                if let V::S(e) = &v {
                    if let Some(k) = st.facts.get(e) {
                        v = mkc(*k, cx().w(*e));
                    }
                }
                self.set(st, *d, v);
            }
            Inst::InsertValue(d, t, a, b, ix) => {
                let mut v = self.val(st, a);
                let x = self.val(st, b);
                if !matches!(v, V::A(_)) {
                    v = self.zero_v(*t);
                }
                fn ins(v: &mut V, ix: &[u32], x: V) {
                    if let V::A(a) = v {
                        let a = Rc::make_mut(a);
                        if ix.len() == 1 {
                            a[ix[0] as usize] = x;
                        } else {
                            ins(&mut a[ix[0] as usize], &ix[1..], x);
                        }
                    }
                }
                ins(&mut v, ix, x);
                self.set(st, *d, v);
            }
            Inst::ExtractElement(d, a, i) => {
                let v = self.val(st, a);
                let i = self.val(st, i);
                let i = self.concretize(st, &i, 64)? as usize;
                let r = match v {
                    V::A(x) => x[i].clone(),
                    _ => return self.err("extractelement".into()),
                };
                self.set(st, *d, r);
            }
            Inst::InsertElement(d, t, a, b, i) => {
                let v = self.val(st, a);
                let x = self.val(st, b);
                let i = self.val(st, i);
                let i = self.concretize(st, &i, 64)? as usize;
                let mut v = if matches!(v, V::A(_)) { v } else { self.zero_v(*t) };
                if let V::A(a) = &mut v {
                    Rc::make_mut(a)[i] = x;
                }
                self.set(st, *d, v);
            }
            Inst::Shuffle(d, _, a, b, m) => {
                let (a, b) = (self.val(st, a), self.val(st, b));
                let (V::A(x), V::A(y)) = (a, b) else { return self.err("shuffle".into()) };
                let n = x.len() as i64;
                let z = match &x[0] {
                    V::W(_) => V::W(Rc::new(0)),
                    _ => V::I(0),
                };
                let out = m
                    .iter()
                    .map(|&k| {
                        if k < 0 {
                            z.clone()
                        } else if k < n {
                            x[k as usize].clone()
                        } else {
                            y[(k - n) as usize].clone()
                        }
                    })
                    .collect();
                self.set(st, *d, V::A(Rc::new(out)));
            }
            Inst::Phi(..) => return self.err("phi executed".into()),
            Inst::Br(b) => {
                self.jump(st, *b);
                return Ok(());
            }
            Inst::CondBr(c, a, b) => {
                let c = self.val(st, c);
                return self.branch(st, &c, *a, *b);
            }
            Inst::Switch(t, o, dflt, cases) => {
                let v = self.val(st, o);
                match &v {
                    V::I(k) => {
                        let b = cases.iter().find(|c| c.0 == *k as u128).map(|c| c.1).unwrap_or(*dflt);
                        self.jump(st, b);
                        return Ok(());
                    }
                    V::S(e) => {
                        let w = tyw(&self.types, *t);
                        let c = cx();
                        let mut groups: Vec<(u32, E)> = vec![];
                        let mut any = 0;
                        for (k, b) in cases {
                            let ke = c.cst(w, *k);
                            let eq = c.bin(Op::Eq, *e, ke);
                            any = c.or1(any, eq);
                            match groups.iter_mut().find(|g| g.0 == *b) {
                                Some(g) => g.1 = c.or1(g.1, eq),
                                None => groups.push((*b, eq)),
                            }
                        }
                        let nany = c.not(any);
                        match groups.iter_mut().find(|g| g.0 == *dflt) {
                            Some(g) => g.1 = c.or1(g.1, nany),
                            None => groups.push((*dflt, nany)),
                        }
                        let mut out = vec![];
                        for (b, cond) in groups {
                            if cond == 0 {
                                continue;
                            }
                            if st.facts.get(&cond) == Some(&0) {
                                continue;
                            }
                            let m = if cond == 1 || st.model.eval(cond) == 1 {
                                Some(st.model.clone())
                            } else {
                                match self.solver.feasible(&st.pc, cond, &st.model) {
                                    Res::Sat(m) => Some(m),
                                    Res::Unsat => None,
                                    Res::Unknown => return self.err("solver returned unknown".into()),
                                }
                            };
                            if let Some(m) = m {
                                out.push((b, cond, m));
                            }
                        }
                        if out.len() == 1 {
                            let b = out[0].0;
                            self.jump(st, b);
                            return Ok(());
                        }
                        self.site(st);
                        let mut v = vec![];
                        for (b, cond, m) in out {
                            let mut s = st.clone();
                            Self::assume(&mut s, cond, Some(m));
                            self.fork_mark(&mut s, b as u64 + 2);
                            self.jump(&mut s, b);
                            v.push(s);
                        }
                        return Err(Stop::Fork(v));
                    }
                    _ => return self.err("switch".into()),
                }
            }
            Inst::Ret(v) => {
                let v = v.as_ref().map(|(_, o)| self.val(st, o));
                let f = st.frames.pop().unwrap();
                for a in f.allocas {
                    st.objs[a as usize] = None;
                    st.free.push(a);
                }
                if st.frames.is_empty() {
                    return Err(Stop::End(End::Ok));
                }
                if st.vfs.catch.last() == Some(&st.frames.len()) {
                    st.vfs.catch.pop();
                }
                if let (Some(d), Some(v)) = (f.dst, v) {
                    self.set(st, d, v);
                }
                match f.normal {
                    Some(b) => self.jump(st, b),
                    None => st.frames.last_mut().unwrap().ip += 1,
                }
                return Ok(());
            }
            Inst::Unreachable => return self.viol("unreachable", "unreachable code executed".into()),
            Inst::Nop => {}
            Inst::Unsupported(s) => return self.err(format!("unsupported instruction {}", s)),
            Inst::AtomicRmw(d, op, t, p, v) => {
                let p = self.val(st, p);
                let v = self.val(st, v);
                let old = self.load(st, &p, *t)?;
                let w = tyw(&self.types, *t);
                let nv = match op.as_str() {
                    "xchg" => v,
                    "add" => vbin(BinOp::Add, w, &old, &v),
                    "sub" => vbin(BinOp::Sub, w, &old, &v),
                    "and" => vbin(BinOp::And, w, &old, &v),
                    "or" => vbin(BinOp::Or, w, &old, &v),
                    "xor" => vbin(BinOp::Xor, w, &old, &v),
                    _ => return self.err(format!("atomicrmw {}", op)),
                };
                self.store(st, &p, *t, &nv)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg(d, t, p, a, b) => {
                let p = self.val(st, p);
                let a = self.val(st, a);
                let b = self.val(st, b);
                let old = self.load(st, &p, *t)?;
                let w = tyw(&self.types, *t);
                let eq = vcmp(Pred::Eq, w, &old, &a);
                let V::I(k) = eq else { return self.err("symbolic cmpxchg".into()) };
                if k == 1 {
                    self.store(st, &p, *t, &b)?;
                }
                self.set(st, *d, V::A(Rc::new(vec![old, V::I(k)])));
            }
            Inst::Call { dst, ret, callee, args, normal } => {
                let c = self.val(st, callee);
                let c = self.concretize(st, &c, 64)? as u64;
                if c < FBASE {
                    return self.viol("memory", format!("call through invalid pointer {:#x}", c));
                }
                let fi = ((c - FBASE) / 16) as usize;
                let mut av: Vec<V> = Vec::with_capacity(args.len());
                for (_, o) in args {
                    av.push(self.val(st, o));
                }
                if fi < self.funcs.len() {
                    match self.funcs[fi].hook {
                        Hook::None => return self.push_frame(st, fi, av, *dst, *normal),
                        Hook::SipWrite => {
                            if !self.cfg.hash_const {
                                // make the hashed bytes concrete and mix them into the first word of the state
                                // (HashMap behaves the same for every hash function)
                                self.ext_used.insert("SipHasher13 (replaced by another hash function)".into());
                                let h = self.concretize(st, &av[0], 64)? as u64;
                                let p = self.concretize(st, &av[1], 64)? as u64;
                                let n = self.concretize(st, &av[2], 64)? as u64;
                                let hv = self.load_int(st, h, 64)?;
                                let mut acc = self.concretize(st, &hv, 64)? as u64;
                                for i in 0..n {
                                    let b = self.load_int(st, p + i, 8)?;
                                    let k = self.concretize(st, &b, 8)? as u64;
                                    if let V::S(_) = b {
                                        self.store_int(st, p + i, 8, &V::I(k))?;
                                    }
                                    acc = (acc ^ k).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
                                }
                                self.store_int(st, h, 64, &V::I(acc))?;
                            } else {
                            self.ext_used.insert("SipHasher13::write (constant hash)".into());
                            }
                        }
                        Hook::SipFinish => {
                            let mut r = 0;
                            if !self.cfg.hash_const {
                                let h = self.concretize(st, &av[0], 64)? as u64;
                                let hv = self.load_int(st, h, 64)?;
                                r = self.concretize(st, &hv, 64)? as u64;
                                r = (r ^ (r >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                                r ^= r >> 32;
                            }
                            if let Some(d) = dst {
                                self.set(st, *d, V::I(r));
                            }
                        }
                    }
                } else {
                    let name: &String = unsafe { &*(&self.exts[fi - self.funcs.len()] as *const String) };
                    if name == "vx_catch" {
                        // run a program: its standard streams are files, exit() ends it
                        let c = self.concretize(st, &av[0], 64)? as u64;
                        let fi = ((c - FBASE) / 16) as usize;
                        for (fd, n) in [(0, "vx_stdin"), (1, "vx_stdout"), (2, "vx_stderr")] {
                            let ix = st.vfs.files.iter().position(|f| f.name == n);
                            let ix = match ix {
                                Some(i) => i,
                                None => {
                                    let a = self.alloc(st, 0, false);
                                    st.vfs.files.push(VFile { name: n.into(), obj: (a >> 32) as u32, size: 0 });
                                    st.vfs.files.len() - 1
                                }
                            };
                            if fd > 0 {
                                self.resize_file(st, ix, 0);
                            }
                            st.vfs.fds.insert(fd, Fd { file: ix, pos: 0, writable: fd > 0 });
                        }
                        st.vfs.catch.push(st.frames.len());
                        return self.push_frame(st, fi, vec![], *dst, *normal);
                    }
                    if name == "exit" && !st.vfs.catch.is_empty() {
                        let d = st.vfs.catch.pop().unwrap();
                        let v = av.swap_remove(0);
                        let mut last = None;
                        while st.frames.len() > d {
                            let f = st.frames.pop().unwrap();
                            for a in &f.allocas {
                                st.objs[*a as usize] = None;
                                st.free.push(*a);
                            }
                            last = Some(f);
                        }
                        let f = last.unwrap();
                        if let Some(d) = f.dst {
                            self.set(st, d, v);
                        }
                        match f.normal {
                            Some(b) => self.jump(st, b),
                            None => st.frames.last_mut().unwrap().ip += 1,
                        }
                        return Ok(());
                    }
                    let tys: Vec<TyId> = args.iter().map(|a| a.0).collect();
                    let r = self.external(st, name, *ret, &tys, av)?;
                    if let (Some(d), Some(v)) = (dst, r) {
                        self.set(st, *d, v);
                    }
                }
                match normal {
                    Some(b) => {
                        let b = *b;
                        self.jump(st, b);
                        return Ok(());
                    }
                    None => {}
                }
            }
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    fn str_at(&self, st: &State, p: u64, n: u64) -> String {
        let mut out = vec![];
        for i in 0..n {
            match self.load_int(st, p + i, 8) {
                Ok(V::I(b)) => out.push(b as u8),
                _ => out.push(b'?'),
            }
        }
        String::from_utf8_lossy(&out).into_owned()
    }
    fn cstr_at(&self, st: &State, p: u64) -> String {
        let mut out = vec![];
        for i in 0..4096 {
            match self.load_int(st, p + i, 8) {
                Ok(V::I(0)) => break,
                Ok(V::I(b)) => out.push(b as u8),
                _ => break,
            }
        }
        String::from_utf8_lossy(&out).into_owned()
    }
    fn panic_loc(&self, st: &State, v: Option<&V>) -> String {
        if let Some(V::I(p)) = v {
            let f = |o: u64, w: u32| match self.load_int(st, p + o, w) {
                Ok(V::I(k)) => Some(k),
                _ => None,
            };
            if let (Some(fp), Some(fl), Some(l), Some(c)) = (f(0, 64), f(8, 64), f(16, 32), f(20, 32)) {
                if fl < 300 {
                    return format!("{}:{}:{}", self.str_at(st, fp, fl), l, c);
                }
            }
        }
        "?".into()
    }

    fn mem_copy(&mut self, st: &mut State, d: &V, s: &V, n: &V) -> R<()> {
        let n = self.concretize(st, n, 64)? as u64;
        if n == 0 {
            return Ok(());
        }
        if let V::I(sa) = s {
            if let V::I(da) = d {
                let (sid, so) = self.check(st, *sa, n, false)?;
                let (did, dof) = self.check(st, *da, n, true)?;
                if sid != did {
                    // distinct objects: the source is not touched by the mutable borrow
                    let src: *const Obj = self.obj(st, sid).unwrap();
                    let o = self.obj_mut(st, did).unwrap();
                    o.copy_from(dof, unsafe { &*src }, so, n);
                    return Ok(());
                }
                let src: Obj = self.obj(st, sid).unwrap().clone();
                let o = self.obj_mut(st, did).unwrap();
                o.copy_from(dof, &src, so, n);
                return Ok(());
            }
        }
        // symbolic pointers: byte-wise with conditional values if few candidates, else concretise
        if n <= 64 {
            let mut vals = vec![];
            let sp = if let V::S(e) = s {
                if cands(*e, 64).is_some() {
                    s.clone()
                } else {
                    V::I(self.concretize(st, s, 64)? as u64)
                }
            } else {
                s.clone()
            };
            let dp = V::I(self.concretize(st, d, 64)? as u64);
            for i in 0..n {
                let q = self.padd(&sp, i);
                vals.push(self.load_scalar(st, &q, 8)?);
            }
            for (i, v) in vals.iter().enumerate() {
                let q = self.padd(&dp, i as u64);
                self.store_scalar(st, &q, 8, v)?;
            }
            return Ok(());
        }
        let da = self.concretize(st, d, 64)? as u64;
        let sa = self.concretize(st, s, 64)? as u64;
        self.mem_copy(st, &V::I(da), &V::I(sa), &V::I(n))
    }

    fn get_byte(&mut self, st: &mut State, p: &V, i: u64) -> R<V> {
        let q = self.padd(p, i);
        self.load_scalar(st, &q, 8)
    }

    fn external(&mut self, st: &mut State, name: &str, ret: TyId, tys: &[TyId], av: Vec<V>) -> R<Option<V>> {
        if let Some(l) = name.strip_prefix("llvm.") {
            return self.llvm(st, l, ret, tys, av);
        }
        if !name.starts_with("vx_") {
            self.ext_used.insert(name.to_string());
        }
        match name {
            // ---- harness interface
            "vx_bytes" => {
                // (ptr, len, name, name_len)
                let p = self.concretize(st, &av[0], 64)? as u64;
                let n = self.concretize(st, &av[1], 64)? as u64;
                let (V::I(np), V::I(nl)) = (&av[2], &av[3]) else { return self.err("vx_bytes name".into()) };
                let nm = self.str_at(st, *np, *nl);
                let (id, off) = self.check(st, p, n.max(1), true)?;
                let first = st.nvars;
                for i in 0..n {
                    let e = cx().var_ix(st.nvars);
                    st.nvars += 1;
                    self.obj_mut(st, id).unwrap().set(off + i, Err(e));
                }
                self.sym_bytes = self.sym_bytes.max(st.nvars);
                st.inputs.push(InputRec { name: nm, first, len: n as u32 });
                Ok(None)
            }
            "vx_assume" => {
                match &av[0] {
                    V::I(k) => {
                        if *k & 1 == 0 {
                            return Err(Stop::End(End::AssumeFail));
                        }
                    }
                    v => {
                        let e = to_e(v, 1);
                        if let Some(k) = st.facts.get(&e) {
                            if *k == 0 {
                                return Err(Stop::End(End::AssumeFail));
                            }
                            return Ok(None);
                        }
                        if st.model.eval(e) == 1 {
                            Self::assume(st, e, None);
                        } else {
                            match self.solver.check(&st.pc, e, &st.model) {
                                Res::Sat(m) => Self::assume(st, e, Some(m)),
                                Res::Unsat => return Err(Stop::End(End::AssumeFail)),
                                Res::Unknown => return self.err("solver returned unknown".into()),
                            }
                        }
                    }
                }
                Ok(None)
            }
            "vx_assert" => {
                let (V::I(np), V::I(nl)) = (&av[1], &av[2]) else { return self.err("vx_assert msg".into()) };
                let msg = self.str_at(st, *np, *nl);
                match &av[0] {
                    V::I(k) => {
                        self.asserts_static += 1;
                        if *k & 1 == 0 {
                            return self.viol("assert", msg);
                        }
                    }
                    v => {
                        let e = to_e(v, 1);
                        self.asserts_solver += 1;
                        let (_t, f) = self.both_with(st, e, false)?;
                        if let Some(m) = f {
                            st.model = m;
                            return self.viol("assert", msg);
                        }
                        st.facts.insert(e, 1);
                    }
                }
                Ok(None)
            }
            "vx_reach" => {
                let k = self.concretize(st, &av[0], 64)? as u64;
                *self.reach.entry(k).or_insert(0) += 1;
                st.notes.push(("reach".into(), V::I(k)));
                Ok(None)
            }
            "vx_concretize" => {
                let k = self.concretize(st, &av[0], 64)?;
                Ok(Some(V::I(k as u64)))
            }
            "vx_param" => {
                let k = self.concretize(st, &av[0], 64)? as usize;
                let v = self.cfg.params.get(k).copied().unwrap_or(0);
                Ok(Some(V::I(v)))
            }
            "vx_note" => {
                let (V::I(np), V::I(nl)) = (&av[0], &av[1]) else { return self.err("vx_note".into()) };
                let msg = self.str_at(st, *np, *nl);
                if self.cfg.trace {
                    match &av[2] {
                        V::I(k) => eprintln!("NOTE {}={}", msg, k),
                        V::S(e) => eprintln!("NOTE {}~{} ({})", msg, st.model.eval(*e), show(*e, 3)),
                        _ => {}
                    }
                }
                st.notes.push((msg.into(), av[2].clone()));
                Ok(None)
            }
            // ---- allocator
            "malloc" => {
                let n = self.concretize(st, &av[0], 64)? as u64;
                let a = self.alloc(st, n, true);
                Ok(Some(V::I(a)))
            }
            "calloc" => {
                let n = self.concretize(st, &av[0], 64)? as u64;
                let k = self.concretize(st, &av[1], 64)? as u64;
                let a = self.alloc(st, n * k, true);
                Ok(Some(V::I(a)))
            }
            "posix_memalign" => {
                let n = self.concretize(st, &av[2], 64)? as u64;
                let a = self.alloc(st, n, true);
                self.store_scalar(st, &av[0], 64, &V::I(a))?;
                Ok(Some(V::I(0)))
            }
            "aligned_alloc" => {
                let n = self.concretize(st, &av[1], 64)? as u64;
                let a = self.alloc(st, n, true);
                Ok(Some(V::I(a)))
            }
            "realloc" => {
                let p = self.concretize(st, &av[0], 64)? as u64;
                let n = self.concretize(st, &av[1], 64)? as u64;
                let a = self.alloc(st, n, true);
                let (id, off) = self.check(st, p, 0, false)?;
                let src = self.obj(st, id).unwrap().clone();
                if off != 0 || !src.heap {
                    return self.viol("memory", "realloc of a non-heap pointer".into());
                }
                let k = src.size.min(n);
                self.obj_mut(st, a >> 32).unwrap().copy_from(0, &src, 0, k);
                self.dealloc(st, p);
                Ok(Some(V::I(a)))
            }
            "free" => {
                let p = self.concretize(st, &av[0], 64)? as u64;
                if p != 0 {
                    let (id, off) = self.check(st, p, 0, false)?;
                    if off != 0 || !self.obj(st, id).unwrap().heap {
                        return self.viol("memory", "free of a non-heap pointer".into());
                    }
                    self.dealloc(st, p);
                }
                Ok(None)
            }
            // ---- memory functions
            "memcpy" | "memmove" => {
                self.mem_copy(st, &av[0].clone(), &av[1].clone(), &av[2].clone())?;
                Ok(Some(av[0].clone()))
            }
            "bcmp" | "memcmp" => {
                let n = self.concretize(st, &av[2], 64)? as u64;
                let c = cx();
                if name == "bcmp" {
                    if let (V::I(pa), V::I(pb), true) = (&av[0], &av[1], n >= 16) {
                        let (ia, oa) = self.check(st, *pa, n, false)?;
                        let (ib, ob) = self.check(st, *pb, n, false)?;
                        let (xa, xb) = (self.obj(st, ia).unwrap(), self.obj(st, ib).unwrap());
                        let mut acc = 1;
                        let mut i = 0u64;
                        while i < n {
                            let (a, b) = ((oa + i) as usize, (ob + i) as usize);
                            let (qa, qb) = (&xa.pages[a / PG], &xb.pages[b / PG]);
                            let (ja, jb) = (a % PG, b % PG);
                            let k = (qa.b.len() - ja).min(qb.b.len() - jb).min((n - i) as usize);
                            i += k as u64;
                            if ja == jb && Rc::ptr_eq(qa, qb) {
                                continue;
                            }
                            if qa.s.is_none() && qb.s.is_none() {
                                if qa.b[ja..ja + k] != qb.b[jb..jb + k] {
                                    acc = 0;
                                    break;
                                }
                                continue;
                            }
                            for m in 0..k {
                                let sa = qa.s.as_ref().map_or(0, |s| s[ja + m]);
                                let sb = qb.s.as_ref().map_or(0, |s| s[jb + m]);
                                if sa == 0 && sb == 0 {
                                    if qa.b[ja + m] != qb.b[jb + m] {
                                        acc = 0;
                                    }
                                } else if sa != sb {
                                    let ea = if sa == 0 { c.cst(8, qa.b[ja + m] as u128) } else { sa };
                                    let eb = if sb == 0 { c.cst(8, qb.b[jb + m] as u128) } else { sb };
                                    let eq = c.bin(Op::Eq, ea, eb);
                                    acc = c.and1(acc, eq);
                                }
                                if acc == 0 {
                                    break;
                                }
                            }
                            if acc == 0 {
                                break;
                            }
                        }
                        let ne = c.not(acc);
                        return Ok(Some(from_e(c.zext(ne, 32))));
                    }
                    let mut acc = 1;
                    for i in 0..n {
                        let x = self.get_byte(st, &av[0], i)?;
                        let y = self.get_byte(st, &av[1], i)?;
                        let eq = vcmp(Pred::Eq, 8, &x, &y);
                        acc = c.and1(acc, to_e(&eq, 1));
                        if acc == 0 {
                            break;
                        }
                    }
                    let ne = c.not(acc);
                    return Ok(Some(from_e(c.zext(ne, 32))));
                }
                let mut r = c.cst(32, 0);
                for i in (0..n).rev() {
                    let x = self.get_byte(st, &av[0], i)?;
                    let y = self.get_byte(st, &av[1], i)?;
                    let eq = to_e(&vcmp(Pred::Eq, 8, &x, &y), 1);
                    let lt = to_e(&vcmp(Pred::Ult, 8, &x, &y), 1);
                    let m1 = c.cst(32, 0xffff_ffff);
                    let p1 = c.cst(32, 1);
                    let d = c.ite(lt, m1, p1);
                    r = c.ite(eq, r, d);
                }
                Ok(Some(from_e(r)))
            }
            "memset" => {
                let n = self.concretize(st, &av[2], 64)? as u64;
                let p = self.concretize(st, &av[0], 64)? as u64;
                if n > 0 {
                    let (id, off) = self.check(st, p, n, true)?;
                    let v = vtrunc(&av[1], 32, 8);
                    let b = match v {
                        V::I(k) => Ok(k as u8),
                        V::S(e) => Err(e),
                        _ => return self.err("memset".into()),
                    };
                    self.obj_mut(st, id).unwrap().fill(off, n, b);
                }
                Ok(Some(av[0].clone()))
            }
            "__xpg_strerror_r" | "strerror_r" => {
                let e = self.concretize(st, &av[0], 32)? as u32;
                let b = self.concretize(st, &av[1], 64)? as u64;
                let n = self.concretize(st, &av[2], 64)? as u64;
                let text = match e {
                    2 => "No such file or directory".to_string(),
                    9 => "Bad file descriptor".to_string(),
                    13 => "Permission denied".to_string(),
                    17 => "File exists".to_string(),
                    22 => "Invalid argument".to_string(),
                    _ => format!("error {}", e),
                };
                if text.len() as u64 >= n {
                    return self.err("strerror_r: buffer".into());
                }
                for (i, c) in text.bytes().chain([0]).enumerate() {
                    self.store_int(st, b + i as u64, 8, &V::I(c as u64))?;
                }
                Ok(Some(V::I(0)))
            }
            "strlen" => {
                let p = self.concretize(st, &av[0], 64)? as u64;
                let mut n = 0;
                loop {
                    let b = self.load_int(st, p + n, 8)?;
                    let k = self.concretize(st, &b, 8)?;
                    if k == 0 {
                        break;
                    }
                    n += 1;
                }
                Ok(Some(V::I(n)))
            }
            "memchr" => {
                let n = self.concretize(st, &av[2], 64)? as u64;
                let p = self.concretize(st, &av[0], 64)? as u64;
                let c = cx();
                let k = vtrunc(&av[1], 32, 8);
                let mut r = c.cst(64, 0);
                for i in (0..n).rev() {
                    let b = self.load_int(st, p + i, 8)?;
                    let eq = to_e(&vcmp(Pred::Eq, 8, &b, &k), 1);
                    let a = c.cst(64, (p + i) as u128);
                    r = c.ite(eq, a, r);
                }
                Ok(Some(from_e(r)))
            }
            // ---- environment
            "getrandom" => {
                let p = self.concretize(st, &av[0], 64)? as u64;
                let n = self.concretize(st, &av[1], 64)? as u64;
                for i in 0..n {
                    self.store_int(st, p + i, 8, &V::I((i * 37 + 11) & 0xff))?;
                }
                Ok(Some(V::I(n)))
            }
            "__errno_location" => Ok(Some(V::I((st.vfs.errno_obj as u64) << 32))),
            "isatty" => Ok(Some(V::I(0))),
            "sysconf" => Ok(Some(V::I(4096))),
            "gettid" => Ok(Some(V::I(1))),
            "__cxa_thread_atexit_impl" => Ok(Some(V::I(0))),
            "getenv" => Ok(Some(V::I(0))),
            "abort" | "_exit" | "exit" => self.viol("abort", format!("process {}", name)),
            _ => self.posix(st, name, ret, tys, av),
        }
    }

    fn set_errno(&self, st: &mut State, k: u64) {
        let a = (st.vfs.errno_obj as u64) << 32;
        let _ = self.store_int(st, a, 32, &V::I(k));
    }

    /// Virtual file system used by the image-file harnesses.
    fn posix(&mut self, st: &mut State, name: &str, _ret: TyId, _tys: &[TyId], av: Vec<V>) -> R<Option<V>> {
        let neg1 = Ok(Some(V::I(0xffff_ffff)));
        macro_rules! k {
            ($i:expr) => {
                self.concretize(st, &av[$i], 64)? as u64
            };
        }
        match name {
            "vxf" => Ok(None),
            "open64" | "open" => {
                let p = k!(0);
                let flags = k!(1);
                let nm = self.cstr_at(st, p);
                let acc = flags & 3;
                let creat = flags & 0o100 != 0;
                let excl = flags & 0o200 != 0;
                let trunc = flags & 0o1000 != 0;
                let ix = st.vfs.files.iter().position(|f| f.name == nm);
                let ix = match ix {
                    Some(_) if creat && excl => {
                        self.set_errno(st, 17);
                        return neg1;
                    }
                    Some(i) => i,
                    None if creat => {
                        let a = self.alloc(st, 0, false);
                        st.vfs.files.push(VFile { name: nm, obj: (a >> 32) as u32, size: 0 });
                        st.vfs.files.len() - 1
                    }
                    None => {
                        self.set_errno(st, 2);
                        return neg1;
                    }
                };
                if trunc {
                    self.resize_file(st, ix, 0);
                }
                let fd = st.vfs.next_fd;
                st.vfs.next_fd += 1;
                st.vfs.fds.insert(fd, Fd { file: ix, pos: 0, writable: acc != 0 });
                Ok(Some(V::I(fd as u64)))
            }
            "fcntl" | "fcntl64" if matches!(k!(1), 1 | 2) => {
                // F_GETFD, F_SETFD
                let fd = k!(0) as i32;
                if fd <= 2 || st.vfs.fds.contains_key(&fd) {
                    return Ok(Some(V::I(0)));
                }
                self.set_errno(st, 9);
                neg1
            }
            "close" => {
                let fd = k!(0) as i32;
                st.vfs.fds.remove(&fd);
                Ok(Some(V::I(0)))
            }
            "ftruncate64" | "ftruncate" => {
                let fd = k!(0) as i32;
                let n = k!(1);
                let Some(f) = st.vfs.fds.get(&fd).cloned() else {
                    self.set_errno(st, 9);
                    return neg1;
                };
                if !f.writable {
                    self.set_errno(st, 22);
                    return neg1;
                }
                self.resize_file(st, f.file, n);
                Ok(Some(V::I(0)))
            }
            "write" => {
                let fd = k!(0) as i32;
                let p = k!(1);
                let n = k!(2);
                if (fd == 1 || fd == 2) && !st.vfs.fds.contains_key(&fd) {
                    return Ok(Some(V::I(n)));
                }
                let Some(f) = st.vfs.fds.get(&fd).cloned() else {
                    self.set_errno(st, 9);
                    return Ok(Some(V::I(u64::MAX)));
                };
                if !f.writable {
                    self.set_errno(st, 9);
                    return Ok(Some(V::I(u64::MAX)));
                }
                let end = f.pos + n;
                if end > st.vfs.files[f.file].size {
                    self.resize_file(st, f.file, end);
                }
                let dst = ((st.vfs.files[f.file].obj as u64) << 32) + f.pos;
                self.mem_copy(st, &V::I(dst), &V::I(p), &V::I(n))?;
                st.vfs.fds.get_mut(&fd).unwrap().pos = end;
                Ok(Some(V::I(n)))
            }
            "read" => {
                let fd = k!(0) as i32;
                let p = k!(1);
                let n = k!(2);
                let Some(f) = st.vfs.fds.get(&fd).cloned() else {
                    self.set_errno(st, 9);
                    return Ok(Some(V::I(u64::MAX)));
                };
                let size = st.vfs.files[f.file].size;
                let n = n.min(size.saturating_sub(f.pos));
                let src = ((st.vfs.files[f.file].obj as u64) << 32) + f.pos;
                self.mem_copy(st, &V::I(p), &V::I(src), &V::I(n))?;
                st.vfs.fds.get_mut(&fd).unwrap().pos += n;
                Ok(Some(V::I(n)))
            }
            "lseek64" => {
                let fd = k!(0) as i32;
                let off = k!(1) as i64;
                let wh = k!(2);
                let Some(f) = st.vfs.fds.get(&fd).cloned() else {
                    self.set_errno(st, 9);
                    return Ok(Some(V::I(u64::MAX)));
                };
                let size = st.vfs.files[f.file].size as i64;
                let np = match wh {
                    0 => off,
                    1 => f.pos as i64 + off,
                    _ => size + off,
                };
                st.vfs.fds.get_mut(&fd).unwrap().pos = np as u64;
                Ok(Some(V::I(np as u64)))
            }
            "statx" => {
                // report ENOSYS so that the portable fstat path is taken
                self.set_errno(st, 38);
                neg1
            }
            "fstat64" | "fstat" | "stat64" | "stat" | "lstat64" => {
                let ix = if name.starts_with("fstat") {
                    let fd = k!(0) as i32;
                    st.vfs.fds.get(&fd).map(|f| f.file)
                } else {
                    let p = k!(0);
                    let nm = self.cstr_at(st, p);
                    st.vfs.files.iter().position(|f| f.name == nm)
                };
                let Some(ix) = ix else {
                    self.set_errno(st, 2);
                    return neg1;
                };
                let b = k!(1);
                let size = st.vfs.files[ix].size;
                let (id, off) = self.check(st, b, 144, true)?;
                self.obj_mut(st, id).unwrap().fill(off, 144, Ok(0));
                self.store_int(st, b + 24, 32, &V::I(0o100644))?;
                self.store_int(st, b + 48, 64, &V::I(size))?;
                Ok(Some(V::I(0)))
            }
            "mmap64" | "mmap" => {
                let len = k!(1);
                let prot = k!(2);
                let flags = k!(3);
                let fd = k!(4) as u32 as i32;
                let Some(f) = st.vfs.fds.get(&fd).cloned() else {
                    self.set_errno(st, 9);
                    return Ok(Some(V::I(u64::MAX)));
                };
                let wr = prot & 2 != 0;
                if wr && flags & 1 != 0 && !f.writable {
                    self.set_errno(st, 13);
                    return Ok(Some(V::I(u64::MAX)));
                }
                let fo = st.vfs.files[f.file].obj as u64;
                if flags & 1 == 0 || !wr {
                    // private or read-only mapping: a separate view
                    let mut o = self.obj(st, fo).unwrap().clone();
                    if o.size < len {
                        return self.viol("memory", "mapping beyond the end of the file".into());
                    }
                    o.writable = wr;
                    o.heap = false;
                    let a = self.alloc(st, 0, false);
                    let ix = (a >> 32) - self.nconst() - 1;
                    st.objs[ix as usize] = Some(Rc::new(o));
                    return Ok(Some(V::I(a)));
                }
                Ok(Some(V::I(fo << 32)))
            }
            "munmap" | "msync" | "fsync" | "fdatasync" => Ok(Some(V::I(0))),
            "syscall" => {
                self.set_errno(st, 38);
                Ok(Some(V::I(u64::MAX)))
            }
            // ---- harness access to the virtual file system
            "vx_file_make" => {
                // (name, name_len, data, len)
                let (np, nl, p, n) = (k!(0), k!(1), k!(2), k!(3));
                let nm = self.str_at(st, np, nl);
                let a = self.alloc(st, n, false);
                self.mem_copy(st, &V::I(a), &V::I(p), &V::I(n))?;
                st.vfs.files.retain(|f| f.name != nm);
                st.vfs.files.push(VFile { name: nm, obj: (a >> 32) as u32, size: n });
                Ok(None)
            }
            "vx_file_read" => {
                // (name, name_len, buf, cap) -> size or u64::MAX
                let (np, nl, p, n) = (k!(0), k!(1), k!(2), k!(3));
                let nm = self.str_at(st, np, nl);
                let Some(f) = st.vfs.files.iter().find(|f| f.name == nm).cloned() else {
                    return Ok(Some(V::I(u64::MAX)));
                };
                let c = n.min(f.size);
                self.mem_copy(st, &V::I(p), &V::I((f.obj as u64) << 32), &V::I(c))?;
                Ok(Some(V::I(f.size)))
            }
            _ => {
                let d = name.to_string();
                if d.contains("handle_alloc_error") || (d.contains("process") && d.contains("abort")) {
                    return self.viol("abort", format!("{}", d));
                }
                if d.contains("panic") {
                    let loc = self.panic_loc(st, av.last());
                    return self.viol("panic", format!("panic at {}", loc));
                }
                self.err(format!("unmodelled external function {}", name))
            }
        }
    }
    fn resize_file(&mut self, st: &mut State, ix: usize, n: u64) {
        let id = st.vfs.files[ix].obj as u64;
        let old = self.obj(st, id).unwrap().clone();
        let mut o = Obj::new(n, false);
        o.copy_from(0, &old, 0, n.min(old.size));
        let k = (id - self.nconst() - 1) as usize;
        st.objs[k] = Some(Rc::new(o));
        st.vfs.files[ix].size = n;
    }

    fn llvm(&mut self, st: &mut State, l: &str, ret: TyId, tys: &[TyId], av: Vec<V>) -> R<Option<V>> {
        let op = l.split('.').next().unwrap();
        match op {
            "lifetime" | "assume" | "experimental" | "dbg" | "prefetch" | "donothing" | "invariant" => {
                return Ok(None);
            }
            "expect" | "threadlocal" => return Ok(Some(av[0].clone())),
            "x86" => return Ok(None),
            "trap" => return self.viol("abort", "trap".into()),
            "memcpy" | "memmove" => {
                self.mem_copy(st, &av[0].clone(), &av[1].clone(), &av[2].clone())?;
                return Ok(None);
            }
            "memset" => {
                let n = self.concretize(st, &av[2], 64)? as u64;
                if n > 0 {
                    let p = self.concretize(st, &av[0], 64)? as u64;
                    let (id, off) = self.check(st, p, n, true)?;
                    let b = match &av[1] {
                        V::I(k) => Ok(*k as u8),
                        V::S(e) => Err(*e),
                        _ => return self.err("memset".into()),
                    };
                    self.obj_mut(st, id).unwrap().fill(off, n, b);
                }
                return Ok(None);
            }
            "is" => return Ok(Some(V::I(0))), // is.constant
            "objectsize" => return Ok(Some(V::I(u64::MAX))),
            _ => {}
        }
        // uadd.with.overflow etc.
        if l.contains(".with.overflow") {
            let w = tyw(&self.types, tys[0]);
            let c = cx();
            if let (V::I(a), V::I(b)) = (&av[0], &av[1]) {
                if w <= 64 {
                    let (a, b) = (*a as u128, *b as u128);
                    let (sa, sb) = (sx(a, w), sx(b, w));
                    let m = mask(w);
                    let (r, o) = match op {
                        "uadd" => (a + b, a + b > m),
                        "usub" => (a.wrapping_sub(b), a < b),
                        "umul" => (a * b, a * b > m),
                        "sadd" => ((sa + sb) as u128, sx((sa + sb) as u128 & m, w) != sa + sb),
                        "ssub" => ((sa - sb) as u128, sx((sa - sb) as u128 & m, w) != sa - sb),
                        "smul" => ((sa * sb) as u128, sx((sa * sb) as u128 & m, w) != sa * sb),
                        _ => return self.err(l.to_string()),
                    };
                    return Ok(Some(V::A(Rc::new(vec![mkc(r & m, w), V::I(o as u64)]))));
                }
            }
            let (a, b) = (to_e(&av[0], w), to_e(&av[1], w));
            let (r, o) = match op {
                "uadd" => {
                    let (x, y) = (c.zext(a, w + 1), c.zext(b, w + 1));
                    let s = c.bin(Op::Add, x, y);
                    (c.extract(s, 0, w), c.extract(s, w, 1))
                }
                "usub" => (c.sub(a, b), c.bin(Op::Ult, a, b)),
                "umul" => {
                    let (x, y) = (c.zext(a, 2 * w), c.zext(b, 2 * w));
                    let s = c.bin(Op::Mul, x, y);
                    let h = c.extract(s, w, w);
                    let z = c.cst(w, 0);
                    (c.extract(s, 0, w), c.ne(h, z))
                }
                "sadd" | "ssub" | "smul" => {
                    let ww = if op == "smul" { 2 * w } else { w + 1 };
                    let (x, y) = (c.sext(a, ww), c.sext(b, ww));
                    let s = match op {
                        "sadd" => c.bin(Op::Add, x, y),
                        "ssub" => c.sub(x, y),
                        _ => c.bin(Op::Mul, x, y),
                    };
                    let r = c.extract(s, 0, w);
                    let back = c.sext(r, ww);
                    (r, c.ne(back, s))
                }
                _ => return self.err(l.to_string()),
            };
            return Ok(Some(V::A(Rc::new(vec![from_e(r), from_e(o)]))));
        }
        let sat = l.contains(".sat.");
        let ty = tys[0];
        let r = match op {
            "umin" | "umax" | "smin" | "smax" => {
                let p = match op {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                self.vlift2(ty, &av[0], &av[1], &|w, a, b| {
                    let c = vcmp(p, w, a, b);
                    Self::vselect(&c, a, b, &|| w)
                })
            }
            "abs" => self.vlift1(ty, &av[0], &|w, a| {
                let z = mkc(0, w);
                let n = vbin(BinOp::Sub, w, &z, a);
                let c = vcmp(Pred::Slt, w, a, &z);
                Self::vselect(&c, &n, a, &|| w)
            }),
            "usub" if sat => self.vlift2(ty, &av[0], &av[1], &|w, a, b| {
                let c = vcmp(Pred::Ult, w, a, b);
                let d = vbin(BinOp::Sub, w, a, b);
                Self::vselect(&c, &mkc(0, w), &d, &|| w)
            }),
            "uadd" if sat => self.vlift2(ty, &av[0], &av[1], &|w, a, b| {
                let d = vbin(BinOp::Add, w, a, b);
                let c = vcmp(Pred::Ult, w, &d, a);
                Self::vselect(&c, &mkc(mask(w), w), &d, &|| w)
            }),
            "ctpop" => self.vlift1(ty, &av[0], &|w, a| match conc(a) {
                Some(k) => mkc(k.count_ones() as u128, w),
                None => from_e(cx().popcnt(to_e(a, w))),
            }),
            "cttz" => self.vlift1(ty, &av[0], &|w, a| match conc(a) {
                Some(k) => mkc(if k == 0 { w as u128 } else { k.trailing_zeros() as u128 }, w),
                None => from_e(cx().ctz(to_e(a, w))),
            }),
            "ctlz" => self.vlift1(ty, &av[0], &|w, a| match conc(a) {
                Some(k) => mkc((k.leading_zeros() - (128 - w)) as u128, w),
                None => from_e(cx().clz(to_e(a, w))),
            }),
            "bswap" => {
                let w = tyw(&self.types, ty);
                let mut bs = Self::split(&av[0], w);
                bs.reverse();
                Self::join(&bs, w)
            }
            "bitreverse" => self.vlift1(ty, &av[0], &|w, a| match conc(a) {
                Some(k) => mkc(k.reverse_bits() >> (128 - w), w),
                None => {
                    let c = cx();
                    let e = to_e(a, w);
                    let mut acc = c.extract(e, 0, 1);
                    for i in 1..w {
                        let b = c.extract(e, i, 1);
                        acc = c.concat(acc, b);
                    }
                    from_e(acc)
                }
            }),
            "fshl" | "fshr" => {
                let w = tyw(&self.types, ty);
                let s = self.concretize(st, &av[2], w)? as u32 % w;
                if let (V::I(a), V::I(b), true) = (&av[0], &av[1], w <= 64) {
                    let sh = if op == "fshl" { s } else { (w - s) % w };
                    let r = if s == 0 {
                        if op == "fshl" { *a } else { *b }
                    } else {
                        (((*a as u128) << sh | (*b as u128) >> (w - sh)) & mask(w)) as u64
                    };
                    return Ok(Some(V::I(r)));
                }
                let c = cx();
                let (a, b) = (to_e(&av[0], w), to_e(&av[1], w));
                if s == 0 {
                    if op == "fshl" {
                        av[0].clone()
                    } else {
                        av[1].clone()
                    }
                } else {
                    let sh = if op == "fshl" { s } else { w - s };
                    let hi = c.extract(a, 0, w - sh);
                    let lo = c.extract(b, w - sh, sh);
                    from_e(c.concat(hi, lo))
                }
            }
            "ucmp" | "scmp" => {
                let w = tyw(&self.types, ty);
                let rw = tyw(&self.types, ret);
                let (lt, gt) = if op == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = vcmp(lt, w, &av[0], &av[1]);
                let g = vcmp(gt, w, &av[0], &av[1]);
                let inner = Self::vselect(&g, &mkc(1, rw), &mkc(0, rw), &|| rw);
                Self::vselect(&l, &mkc(mask(rw), rw), &inner, &|| rw)
            }
            "vector" => {
                // vector.reduce.*
                let kind = l.split('.').nth(2).unwrap_or("");
                let V::A(x) = &av[0] else { return self.err(l.to_string()) };
                let w = match self.elems(ty) {
                    Some((_, e)) => tyw(&self.types, e),
                    None => return self.err(l.to_string()),
                };
                let o = match kind {
                    "add" => BinOp::Add,
                    "or" => BinOp::Or,
                    "and" => BinOp::And,
                    "xor" => BinOp::Xor,
                    _ => return self.err(l.to_string()),
                };
                let mut acc = x[0].clone();
                for y in &x[1..] {
                    acc = vbin(o, w, &acc, y);
                }
                acc
            }
            _ => return self.err(format!("unmodelled intrinsic llvm.{}", l)),
        };
        Ok(Some(r))
    }
    pub fn hot_sites(&self) -> Vec<(String, u64)> {
        let mut v: Vec<_> = self.fork_sites.iter().map(|((f, b), n)| (format!("{}#bb{}", self.funcs[*f as usize].dem, b), *n)).collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1));
        v.truncate(25);
        v
    }
    #[allow(dead_code)]
    fn _unused(_: HashSet<u8>) {}
}

pub struct Doms {
    idom: Vec<Option<u32>>,
    pub defs: Vec<Option<(u32, Option<TyId>)>>,
}
impl Doms {
    /// Every path to `b` passes `a`, which is another block.
    fn strictly(&self, a: u32, b: u32) -> bool {
        let mut x = b;
        loop {
            match self.idom[x as usize] {
                Some(y) if y != x => x = y,
                // the entry; or a block not reached, about which nothing is known
                Some(_) => return false,
                None => return true,
            }
            if x == a {
                return true;
            }
        }
    }
}
/// Dominators (Cooper/Harvey/Kennedy) and register definitions.
fn doms(f: &DFunc) -> Doms {
    let n = f.blocks.len();
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n];
    let mut nregs = 0;
    let mut defs: Vec<(u32, u32, Option<TyId>)> = vec![];
    for (i, b) in f.blocks.iter().enumerate() {
        for ins in &b.insts {
            match ins {
                Inst::Br(t) => succ[i].push(*t as usize),
                Inst::CondBr(_, x, y) => succ[i].extend([*x as usize, *y as usize]),
                Inst::Switch(_, _, d, cs) => {
                    succ[i].push(*d as usize);
                    succ[i].extend(cs.iter().map(|c| c.1 as usize));
                }
                Inst::Call { normal: Some(t), .. } => succ[i].push(*t as usize),
                _ => {}
            }
            let def = match ins {
                Inst::Bin(d, _, t, ..) | Inst::Phi(d, t, _) | Inst::Load(d, t, _) => Some((*d, Some(*t))),
                Inst::Cast(d, _, _, u, _) => Some((*d, Some(*u))),
                Inst::ICmp(d, ..) | Inst::Fp(d, ..) | Inst::Select(d, ..) | Inst::Alloca(d, ..) | Inst::Gep(d, ..) | Inst::ExtractValue(d, ..)
                | Inst::InsertValue(d, ..) | Inst::ExtractElement(d, ..) | Inst::InsertElement(d, ..) | Inst::Shuffle(d, ..) | Inst::AtomicRmw(d, ..)
                | Inst::CmpXchg(d, ..) => Some((*d, None)),
                Inst::Call { dst, .. } => dst.map(|d| (d, None)),
                _ => None,
            };
            if let Some((d, t)) = def {
                nregs = nregs.max(d as usize + 1);
                defs.push((d, i as u32, t));
            }
        }
    }
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n];
    for i in 0..n {
        for s in &succ[i] {
            pred[*s].push(i);
        }
    }
    let mut post = vec![usize::MAX; n];
    let mut order = vec![];
    let mut seen = vec![false; n];
    let mut stack = vec![(0usize, 0usize)];
    seen[0] = true;
    while let Some((x, k)) = stack.pop() {
        if k < succ[x].len() {
            stack.push((x, k + 1));
            let s = succ[x][k];
            if !seen[s] {
                seen[s] = true;
                stack.push((s, 0));
            }
        } else {
            post[x] = order.len();
            order.push(x);
        }
    }
    let mut idom: Vec<Option<usize>> = vec![None; n];
    idom[0] = Some(0);
    loop {
        let mut ch = false;
        for &b in order.iter().rev() {
            if b == 0 {
                continue;
            }
            let mut cur: Option<usize> = None;
            for &p in &pred[b] {
                if idom[p].is_none() {
                    continue;
                }
                cur = Some(match cur {
                    None => p,
                    Some(mut x) => {
                        let mut y = p;
                        while x != y {
                            while post[x] < post[y] {
                                x = idom[x].unwrap();
                            }
                            while post[y] < post[x] {
                                y = idom[y].unwrap();
                            }
                        }
                        x
                    }
                });
            }
            if cur != idom[b] {
                idom[b] = cur;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let mut v = vec![None; f.nregs.max(nregs as _) as usize];
    for (d, b, t) in defs {
        v[d as usize] = Some((b, t));
    }
    Doms { idom: idom.into_iter().map(|x| x.map(|x| x as u32)).collect(), defs: v }
}

/// Immediate post-dominators (None: none, or unknown).
fn ipdoms(f: &DFunc) -> Vec<Option<u32>> {
    let n = f.blocks.len();
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n];
    let mut ret = vec![false; n];
    for (i, b) in f.blocks.iter().enumerate() {
        for ins in &b.insts {
            match ins {
                Inst::Br(t) => succ[i].push(*t as usize),
                Inst::CondBr(_, x, y) => succ[i].extend([*x as usize, *y as usize]),
                Inst::Switch(_, _, d, cs) => {
                    succ[i].push(*d as usize);
                    succ[i].extend(cs.iter().map(|c| c.1 as usize));
                }
                Inst::Call { normal: Some(t), .. } => succ[i].push(*t as usize),
                Inst::Ret(_) => ret[i] = true,
                _ => {}
            }
        }
    }
    // blocks that can return
    let mut live = ret.clone();
    loop {
        let mut ch = false;
        for i in 0..n {
            if !live[i] && succ[i].iter().any(|s| live[*s]) {
                live[i] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    // dominators of the reversed graph (Cooper/Harvey/Kennedy), virtual exit = n
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
    let mut rsucc: Vec<Vec<usize>> = succ.iter().map(|v| v.iter().cloned().filter(|s| live[*s]).collect()).collect();
    for i in 0..n {
        if ret[i] {
            rsucc[i].push(n);
        }
        if live[i] {
            for s in rsucc[i].clone() {
                pred[s].push(i);
            }
        }
    }
    let mut post = vec![usize::MAX; n + 1];
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut stack = vec![(n, 0usize)];
    seen[n] = true;
    while let Some((x, k)) = stack.pop() {
        if k < pred[x].len() {
            stack.push((x, k + 1));
            let s = pred[x][k];
            if !seen[s] {
                seen[s] = true;
                stack.push((s, 0));
            }
        } else {
            post[x] = order.len();
            order.push(x);
        }
    }
    let mut idom: Vec<Option<usize>> = vec![None; n + 1];
    idom[n] = Some(n);
    loop {
        let mut ch = false;
        for &b in order.iter().rev() {
            if b == n {
                continue;
            }
            let mut cur: Option<usize> = None;
            for &s in &rsucc[b] {
                if idom[s].is_none() {
                    continue;
                }
                cur = Some(match cur {
                    None => s,
                    Some(c) => {
                        let (mut x, mut y) = (c, s);
                        while x != y {
                            while post[x] < post[y] {
                                x = idom[x].unwrap();
                            }
                            while post[y] < post[x] {
                                y = idom[y].unwrap();
                            }
                        }
                        x
                    }
                });
            }
            if cur.is_some() && idom[b] != cur {
                idom[b] = cur;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    (0..n).map(|i| idom[i].filter(|x| *x != n).map(|x| x as u32)).collect()
}
