//! Hash-consed bit-vector expressions with aggressive local simplification.
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op {
    Const,
    Var, // a = variable index, width 8
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    ZExt,
    SExt,
    Extract, // b = low bit
    Concat,  // a = high part, b = low part
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    tzs: Vec<u32>,
    xmemo: FxMap<(E, u32, u32), E>,
    map: HashMap<Node, E, std::hash::BuildHasherDefault<Fx>>,
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    /// variable sets (sorted), lazily computed
    vars: Vec<Option<Rc<Vec<u32>>>>,
    pub nvars: u32,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<Fx>>;

thread_local! {
    static CTX: UnsafeCell<Ctx> = UnsafeCell::new(Ctx::new());
}
/// The engine is single-threaded; this accessor hands out the unique context.
pub fn cx() -> &'static mut Ctx {
    CTX.with(|c| unsafe { &mut *c.get() })
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sx(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    // w: operand width for comparisons, result width otherwise
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sx(a, w);
            if b >= w as u128 {
                (if x < 0 { -1i128 } else { 0 }) as u128 & m
            } else {
                ((x >> b) as u128) & m
            }
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        _ => unreachable!(),
    }
}

impl Ctx {
    fn new() -> Ctx {
        let mut c = Ctx { nodes: vec![], map: HashMap::default(), lo: vec![], hi: vec![], tzs: vec![], xmemo: HashMap::default(), vars: vec![], nvars: 0 };
        c.raw(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 }); // id 0: false
        c.raw(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 1 }); // id 1: true
        c
    }
    fn raw(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let (lo, hi) = self.range_of(&n);
        if lo == hi && n.op != Op::Const {
            let e = self.cst(n.w, lo);
            self.map.insert(n, e);
            return e;
        }
        let e = self.nodes.len() as E;
        let tz = self.tz_of(&n);
        self.tzs.push(tz);
        self.nodes.push(n);
        self.map.insert(n, e);
        self.lo.push(lo);
        self.hi.push(hi);
        self.vars.push(None);
        e
    }
    fn range_of(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let r = |e: E| (self.lo[e as usize], self.hi[e as usize]);
        match n.op {
            Op::Const => (n.k, n.k),
            Op::Add => {
                let (a, b) = (r(n.a), r(n.b));
                // allow a negative constant
                match (a.1.checked_add(b.1), a.0.checked_add(b.0)) {
                    (Some(h), Some(l)) if h <= m => (l, h),
                    (Some(h), Some(l)) if l > m && h <= m.wrapping_add(m) => (l & m, h & m),
                    _ => (0, m),
                }
            }
            Op::Mul => {
                let (a, b) = (r(n.a), r(n.b));
                match a.1.checked_mul(b.1) {
                    Some(h) if h <= m => (a.0 * b.0, h),
                    _ => (0, m),
                }
            }
            Op::UDiv => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 {
                    (a.0 / b.1, a.1 / b.0)
                } else {
                    (0, m)
                }
            }
            Op::URem => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 {
                    if a.1 < b.0 {
                        a
                    } else {
                        (0, (b.1 - 1).min(a.1))
                    }
                } else {
                    (0, m)
                }
            }
            Op::And => {
                let (a, b) = (r(n.a), r(n.b));
                (0, a.1.min(b.1))
            }
            Op::Or => {
                let (a, b) = (r(n.a), r(n.b));
                let x = a.1 | b.1;
                let bits = 128 - x.leading_zeros();
                (a.0.max(b.0), mask(bits))
            }
            Op::Xor => {
                let (a, b) = (r(n.a), r(n.b));
                let x = a.1 | b.1;
                let bits = 128 - x.leading_zeros();
                (0, mask(bits))
            }
            Op::LShr => {
                let (a, b) = (r(n.a), r(n.b));
                (0, if b.0 >= n.w as u128 { 0 } else { a.1 >> b.0 })
            }
            Op::Ite => {
                let (a, b) = (r(n.b), r(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::ZExt => r(n.a),
            Op::Concat => {
                let (a, b) = (r(n.a), r(n.b));
                let lw = self.nodes[n.b as usize].w;
                ((a.0 << lw) | b.0, (a.1 << lw) | b.1)
            }
            Op::Extract => {
                let a = r(n.a);
                if n.b == 0 && a.1 <= m {
                    a
                } else if n.b > 0 && (a.1 >> n.b) <= m {
                    (a.0 >> n.b, a.1 >> n.b)
                } else {
                    (0, m)
                }
            }
            Op::Eq => {
                let (a, b) = (r(n.a), r(n.b));
                if a.1 < b.0 || b.1 < a.0 {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::Ult => {
                let (a, b) = (r(n.a), r(n.b));
                if a.1 < b.0 {
                    (1, 1)
                } else if a.0 >= b.1 {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::Slt => {
                let (a, b) = (r(n.a), r(n.b));
                let w = self.nodes[n.a as usize].w;
                let sgn = 1u128 << (w - 1);
                // both in the same sign half
                let fa = if a.1 < sgn { 0 } else if a.0 >= sgn { 1 } else { 2 };
                let fb = if b.1 < sgn { 0 } else if b.0 >= sgn { 1 } else { 2 };
                if fa == 2 || fb == 2 {
                    return (0, 1);
                }
                if fa != fb {
                    let v = (fa == 1) as u128;
                    return (v, v);
                }
                if a.1 < b.0 {
                    (1, 1)
                } else if a.0 >= b.1 {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            _ => (0, m),
        }
    }
    pub fn cst(&mut self, w: u32, k: u128) -> E {
        debug_assert!(k <= mask(w));
        self.raw(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k })
    }
    pub fn var(&mut self) -> E {
        let i = self.nvars;
        self.nvars += 1;
        self.raw(Node { op: Op::Var, w: 8, a: i, b: 0, c: 0, k: 0 })
    }
    pub fn var_ix(&mut self, i: u32) -> E {
        if i >= self.nvars {
            self.nvars = i + 1;
        }
        self.raw(Node { op: Op::Var, w: 8, a: i, b: 0, c: 0, k: 0 })
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn k(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        self.raw(Node { op, w, a, b, c: 0, k: 0 })
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let k = self.cst(w, mask(w));
        self.bin(Op::Xor, a, k)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.cst(w, 0);
        }
        if let Some(k) = self.k(b) {
            let nk = self.cst(w, k.wrapping_neg() & mask(w));
            return self.bin(Op::Add, a, nk);
        }
        // a - b = a + (~b) + 1 ; keep as Add(a, Mul(b,-1))
        let m1 = self.cst(w, mask(w));
        let nb = self.bin(Op::Mul, b, m1);
        self.bin(Op::Add, a, nb)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.bin(Op::Eq, a, b);
        self.not(e)
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let ow = na.w;
        debug_assert_eq!(na.w, nb.w, "{:?} {:?} {:?}", op, na, nb);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Slt => 1,
            _ => ow,
        };
        if na.op == Op::Const && nb.op == Op::Const {
            let v = fold(op, ow, na.k, nb.k);
            return self.cst(rw, v);
        }
        // canonical operand order
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if na.op == Op::Const || (nb.op != Op::Const && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        let m = mask(ow);
        let kb = if nb.op == Op::Const { Some(nb.k) } else { None };
        match op {
            Op::Add => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if na.op == Op::Add {
                        if let Some(k2) = self.k(na.b) {
                            let c = self.cst(ow, k.wrapping_add(k2) & m);
                            return self.bin(Op::Add, na.a, c);
                        }
                    }
                    if na.op == Op::Ite && self.k(na.b).is_some() && self.k(na.c).is_some() {
                        let x = self.bin(Op::Add, na.b, b);
                        let y = self.bin(Op::Add, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                } else {
                    // float constants outward
                    if na.op == Op::Add {
                        if self.k(na.b).is_some() {
                            let t = self.bin(Op::Add, na.a, b);
                            return self.bin(Op::Add, t, na.b);
                        }
                    }
                    if nb.op == Op::Add {
                        if self.k(nb.b).is_some() {
                            let t = self.bin(Op::Add, a, nb.a);
                            return self.bin(Op::Add, t, nb.b);
                        }
                    }
                    // x + (-1*x) = 0
                    if nb.op == Op::Mul && nb.a == a && self.k(nb.b) == Some(m) {
                        return self.cst(ow, 0);
                    }
                    if na.op == Op::Mul && na.a == b && self.k(na.b) == Some(m) {
                        return self.cst(ow, 0);
                    }
                    // (x + y) + (-1*y)
                    let try_cancel = |s: &mut Ctx, x: Node, y: Node| -> Option<E> {
                        if x.op == Op::Add && y.op == Op::Mul && s.k(y.b) == Some(m) {
                            if x.a == y.a {
                                return Some(x.b);
                            }
                            if x.b == y.a {
                                return Some(x.a);
                            }
                        }
                        None
                    };
                    if let Some(e) = try_cancel(self, na, nb) {
                        return e;
                    }
                    if let Some(e) = try_cancel(self, nb, na) {
                        return e;
                    }
                }
                if ow == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                // disjoint bits: x + y == x | y handled only for concat-with-zero forms
                if let Some(e) = self.disjoint_or(a, b) {
                    return e;
                }
            }
            Op::Mul => {
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.cst(ow, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                    if na.op == Op::Mul {
                        if let Some(k2) = self.k(na.b) {
                            let c = self.cst(ow, k.wrapping_mul(k2) & m);
                            return self.bin(Op::Mul, na.a, c);
                        }
                    }
                    if na.op == Op::Add {
                        if let Some(k2) = self.k(na.b) {
                            let x = self.bin(Op::Mul, na.a, b);
                            let c = self.cst(ow, k.wrapping_mul(k2) & m);
                            return self.bin(Op::Add, x, c);
                        }
                    }
                    if na.op == Op::Ite && self.k(na.b).is_some() && self.k(na.c).is_some() {
                        let x = self.bin(Op::Mul, na.b, b);
                        let y = self.bin(Op::Mul, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if ow == 1 {
                    return self.bin(Op::And, a, b);
                }
            }
            Op::UDiv => {
                if let Some(k) = kb {
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.cst(ow, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                    if let Some(r) = self.narrow_divrem(op, a, k) {
                        return r;
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let c = self.cst(ow, k - 1);
                        return self.bin(Op::And, a, c);
                    }
                    if k != 0 && self.hi[a as usize] < k {
                        return a;
                    }
                    if let Some(r) = self.narrow_divrem(op, a, k) {
                        return r;
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    // low mask
                    if (k & (k + 1)) == 0 {
                        let bits = 128 - k.leading_zeros();
                        let x = self.extract(a, 0, bits);
                        return self.zext(x, ow);
                    }
                    // contiguous mask with shift: concat form
                    let tz = k.trailing_zeros();
                    let kk = k >> tz;
                    if (kk & (kk + 1)) == 0 && tz > 0 {
                        let bits = 128 - kk.leading_zeros();
                        let x = self.extract(a, tz, bits);
                        let z = self.cst(tz, 0);
                        let c = self.concat(x, z);
                        return self.zext(c, ow);
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.k(na.b) {
                            let c = self.cst(ow, k & k2);
                            return self.bin(Op::And, na.a, c);
                        }
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let c = self.cst(iw, k & mask(iw));
                        let x = self.bin(Op::And, na.a, c);
                        return self.zext(x, ow);
                    }
                    if na.op == Op::Concat {
                        let lw = self.w(na.b);
                        let ch = self.cst(ow - lw, k >> lw);
                        let cl = self.cst(lw, k & mask(lw));
                        let h = self.bin(Op::And, na.a, ch);
                        let l = self.bin(Op::And, na.b, cl);
                        return self.concat(h, l);
                    }
                    if na.op == Op::Ite && self.k(na.b).is_some() && self.k(na.c).is_some() {
                        let x = self.bin(Op::And, na.b, b);
                        let y = self.bin(Op::And, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if ow == 1 {
                    if self.is_not_of(a, b) {
                        return 0;
                    }
                    // absorption: a & (a & x) ; a & (a | x)
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return b;
                    }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return a;
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt {
                    let (x, y) = (na.a, nb.a);
                    let (wx, wy) = (self.w(x), self.w(y));
                    let w = wx.min(wy);
                    let x = self.extract(x, 0, w);
                    let y = self.extract(y, 0, w);
                    let r = self.bin(Op::And, x, y);
                    return self.zext(r, ow);
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                    if na.op == Op::Or {
                        if let Some(k2) = self.k(na.b) {
                            let c = self.cst(ow, k | k2);
                            return self.bin(Op::Or, na.a, c);
                        }
                    }
                    if na.op == Op::Ite && self.k(na.b).is_some() && self.k(na.c).is_some() {
                        let x = self.bin(Op::Or, na.b, b);
                        let y = self.bin(Op::Or, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if ow == 1 {
                    if self.is_not_of(a, b) {
                        return 1;
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return b;
                    }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return a;
                    }
                }
                if let Some(e) = self.disjoint_or(a, b) {
                    return e;
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    let r = self.bin(Op::Or, na.a, nb.a);
                    return self.zext(r, ow);
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(ow, 0);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if na.op == Op::Xor {
                        if let Some(k2) = self.k(na.b) {
                            let c = self.cst(ow, k ^ k2);
                            return self.bin(Op::Xor, na.a, c);
                        }
                    }
                    if na.op == Op::Ite && self.k(na.b).is_some() && self.k(na.c).is_some() {
                        let x = self.bin(Op::Xor, na.b, b);
                        let y = self.bin(Op::Xor, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                    if na.op == Op::ZExt && k <= mask(self.w(na.a)) {
                        let iw = self.w(na.a);
                        let c = self.cst(iw, k);
                        let x = self.bin(Op::Xor, na.a, c);
                        return self.zext(x, ow);
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    let r = self.bin(Op::Xor, na.a, nb.a);
                    return self.zext(r, ow);
                }
            }
            Op::Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= ow as u128 {
                        return self.cst(ow, 0);
                    }
                    let k = k as u32;
                    let x = self.extract(a, 0, ow - k);
                    let z = self.cst(k, 0);
                    return self.concat(x, z);
                }
                if na.op == Op::Const && na.k == 0 {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= ow as u128 {
                        return self.cst(ow, 0);
                    }
                    let k = k as u32;
                    let x = self.extract(a, k, ow - k);
                    return self.zext(x, ow);
                }
                if na.op == Op::Const && na.k == 0 {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = (k.min(ow as u128 - 1)) as u32;
                    let x = self.extract(a, k, ow - k);
                    return self.sext(x, ow);
                }
            }
            Op::Eq => {
                if a == b {
                    return 1;
                }
                if let Some(k) = kb {
                    if ow == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        Op::Add => {
                            if let Some(k2) = self.k(na.b) {
                                let c = self.cst(ow, k.wrapping_sub(k2) & m);
                                return self.bin(Op::Eq, na.a, c);
                            }
                            // x + (-1*y) == 0  ->  x == y
                            if k == 0 {
                                let nbb = self.n(na.b);
                                if nbb.op == Op::Mul && self.k(nbb.b) == Some(m) {
                                    return self.bin(Op::Eq, na.a, nbb.a);
                                }
                                let naa = self.n(na.a);
                                if naa.op == Op::Mul && self.k(naa.b) == Some(m) {
                                    return self.bin(Op::Eq, na.b, naa.a);
                                }
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.k(na.b) {
                                let c = self.cst(ow, k ^ k2);
                                return self.bin(Op::Eq, na.a, c);
                            }
                            if k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return 0;
                            }
                            let c = self.cst(iw, k);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let t = k & mask(iw);
                            if (sx(t, iw) as u128 & m) != k {
                                return 0;
                            }
                            let c = self.cst(iw, t);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let ch = self.cst(ow - lw, k >> lw);
                            let cl = self.cst(lw, k & mask(lw));
                            let h = self.bin(Op::Eq, na.a, ch);
                            if h == 0 {
                                return 0;
                            }
                            let l = self.bin(Op::Eq, na.b, cl);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Ite => {
                            let (x, y) = (self.n(na.b), self.n(na.c));
                            if x.op == Op::Const || y.op == Op::Const {
                                let ex = self.bin(Op::Eq, na.b, b);
                                let ey = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, ex, ey);
                            }
                        }
                        Op::Or if k == 0 => {
                            let z = b;
                            let x = self.bin(Op::Eq, na.a, z);
                            let y = self.bin(Op::Eq, na.b, z);
                            return self.bin(Op::And, x, y);
                        }
                        _ => {}
                    }
                } else {
                    if ow == 1 {
                        let x = self.bin(Op::Xor, a, b);
                        return self.not(x);
                    }
                    if na.op == Op::ZExt && nb.op == Op::ZExt {
                        let (wa, wb) = (self.w(na.a), self.w(nb.a));
                        let w = wa.max(wb);
                        let x = self.zext(na.a, w);
                        let y = self.zext(nb.a, w);
                        return self.bin(Op::Eq, x, y);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let h = self.bin(Op::Eq, na.a, nb.a);
                        if h == 0 {
                            return 0;
                        }
                        let l = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, h, l);
                    }
                    if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return 0;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return 0;
                    }
                    if k == 1 {
                        let z = self.cst(ow, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k > mask(iw) {
                            return 1;
                        }
                        let c = self.cst(iw, k);
                        return self.bin(Op::Ult, na.a, c);
                    }
                    if k == m {
                        let e = self.bin(Op::Eq, a, b);
                        return self.not(e);
                    }
                    if na.op == Op::Ite && self.k(na.b).is_some() && self.k(na.c).is_some() {
                        let x = self.bin(Op::Ult, na.b, b);
                        let y = self.bin(Op::Ult, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if na.op == Op::Const {
                    if na.k == m {
                        return 0;
                    }
                    if na.k == 0 {
                        let e = self.bin(Op::Eq, b, a);
                        return self.not(e);
                    }
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        if na.k >= mask(iw) {
                            return 0;
                        }
                        let c = self.cst(iw, na.k);
                        return self.bin(Op::Ult, c, nb.a);
                    }
                    if na.k == m - 1 {
                        let c = self.cst(ow, m);
                        return self.bin(Op::Eq, b, c);
                    }
                    if nb.op == Op::Ite && self.k(nb.b).is_some() && self.k(nb.c).is_some() {
                        let x = self.bin(Op::Ult, a, nb.b);
                        let y = self.bin(Op::Ult, a, nb.c);
                        return self.ite(nb.a, x, y);
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt {
                    let (wa, wb) = (self.w(na.a), self.w(nb.a));
                    let w = wa.max(wb);
                    let x = self.zext(na.a, w);
                    let y = self.zext(nb.a, w);
                    return self.bin(Op::Ult, x, y);
                }
                // sums that cannot wrap: x + y < x is false; x + y < x + z is y < z
                let nowrap = |s: &Self, n: &Node| {
                    n.op == Op::Add && s.hi[n.a as usize].checked_add(s.hi[n.b as usize]).map_or(false, |h| h <= m)
                };
                if nowrap(self, &na) {
                    if na.a == b || na.b == b {
                        return 0;
                    }
                    if nowrap(self, &nb) {
                        for (x, y) in [(na.a, na.b), (na.b, na.a)] {
                            for (z, t) in [(nb.a, nb.b), (nb.b, nb.a)] {
                                if x == z {
                                    return self.bin(Op::Ult, y, t);
                                }
                            }
                        }
                    }
                }
            }
            Op::Slt => {
                if a == b {
                    return 0;
                }
                // both non-negative by range: use unsigned
                let sgn = 1u128 << (ow - 1);
                if self.hi[a as usize] < sgn && self.hi[b as usize] < sgn {
                    return self.bin(Op::Ult, a, b);
                }
            }
            _ => {}
        }
        self.mk(op, rw, a, b)
    }

    fn narrow_divrem(&mut self, op: Op, a: E, k: u128) -> Option<E> {
        let w = self.w(a);
        let hi = self.hi[a as usize];
        let need = (128 - hi.leading_zeros()).max(128 - k.leading_zeros()).max(1);
        if need < w {
            let x = self.extract(a, 0, need);
            let c = self.cst(need, k);
            let r = self.bin(op, x, c);
            return Some(self.zext(r, w));
        }
        None
    }

    fn is_not_of(&self, a: E, b: E) -> bool {
        let (na, nb) = (self.n(a), self.n(b));
        (na.op == Op::Xor && na.a == b && self.k(na.b) == Some(mask(na.w)))
            || (nb.op == Op::Xor && nb.a == a && self.k(nb.b) == Some(mask(nb.w)))
    }

    /// If `a` has only zero bits where b may be set (concat-with-zero forms), build a concat.
    fn disjoint_or(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        for (x, y) in [(a, b), (b, a)] {
            // x has low `tz` zero bits, y < 2^tz
            let nx = self.n(x);
            let tz = self.tz(x);
            if tz == 0 || tz >= w {
                continue;
            }
            let hy = self.hi[y as usize];
            if hy <= mask(tz) && nx.op != Op::Const {
                let hi = self.extract(x, tz, w - tz);
                let lo = self.extract(y, 0, tz);
                return Some(self.concat(hi, lo));
            }
            if hy <= mask(tz) && nx.op == Op::Const {
                let hi = self.cst(w - tz, nx.k >> tz);
                let lo = self.extract(y, 0, tz);
                // Keep constants as Add offsets (pointers): only use for Or-like small constants
                if nx.k < (1 << 20) {
                    return Some(self.concat(hi, lo));
                }
            }
        }
        None
    }
    /// Known trailing zero bits.
    pub fn tz(&self, e: E) -> u32 {
        self.tzs[e as usize]
    }
    fn tz_of(&self, n: &Node) -> u32 {
        match n.op {
            Op::Const => {
                if n.k == 0 {
                    n.w
                } else {
                    n.k.trailing_zeros()
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                let t = self.tz(n.b);
                if t >= lw {
                    lw + self.tz(n.a)
                } else {
                    t
                }
            }
            Op::ZExt => {
                let t = self.tz(n.a);
                if t >= self.w(n.a) {
                    n.w
                } else {
                    t
                }
            }
            Op::Add | Op::Or => self.tz(n.a).min(self.tz(n.b)),
            Op::Mul => (self.tz(n.a) + self.tz(n.b)).min(n.w),
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            Op::And => self.tz(n.a).max(self.tz(n.b)),
            _ => 0,
        }
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        debug_assert!(w >= n.w);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.cst(w, n.k),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.k(n.b).is_some() && self.k(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                self.ite(n.a, x, y)
            }
            Op::Concat if self.k(n.a) == Some(0) => self.zext(n.b, w),
            _ => self.raw(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => {
                let v = sx(n.k, n.w) as u128 & mask(w);
                self.cst(w, v)
            }
            Op::ZExt => self.zext(n.a, w),
            Op::SExt => self.sext(n.a, w),
            _ if n.w > 1 && self.hi[a as usize] < (1u128 << (n.w - 1)) => self.zext(a, w),
            Op::Ite if self.k(n.b).is_some() && self.k(n.c).is_some() => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ if n.w == 1 => {
                let x = self.cst(w, mask(w));
                let y = self.cst(w, 0);
                self.ite(a, x, y)
            }
            _ => self.raw(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n(a);
        debug_assert!(lo + w <= n.w);
        if lo == 0 && w == n.w {
            return a;
        }
        if !matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul | Op::Ite | Op::Concat) {
            return self.extract0(n, a, lo, w);
        }
        if let Some(&e) = self.xmemo.get(&(a, lo, w)) {
            return e;
        }
        let e = self.extract0(n, a, lo, w);
        self.xmemo.insert((a, lo, w), e);
        e
    }
    fn extract0(&mut self, n: Node, a: E, lo: u32, w: u32) -> E {
        match n.op {
            Op::Const => self.cst(w, (n.k >> lo) & mask(w)),
            Op::Extract => self.extract(n.a, n.b + lo, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                self.zext(x, w)
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a, iw - 1, 1);
                self.sext(x, w)
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                self.concat(h, l)
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Op::Add | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(n.op, x, y)
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                self.ite(n.a, x, y)
            }
            Op::URem | Op::UDiv if lo == 0 && self.hi[a as usize] <= mask(w) && self.k(n.b).is_some() => {
                self.raw(Node { op: Op::Extract, w, a, b: lo, c: 0, k: 0 })
            }
            _ => {
                if self.hi[a as usize] >> lo == 0 {
                    return self.cst(w, 0);
                }
                self.raw(Node { op: Op::Extract, w, a, b: lo, c: 0, k: 0 })
            }
        }
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w + nb.w;
        if na.op == Op::Const && nb.op == Op::Const {
            return self.cst(w, (na.k << nb.w) | nb.k);
        }
        if na.op == Op::Const && na.k == 0 {
            return self.zext(b, w);
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.b == nb.b + nb.w {
            return self.extract(na.a, nb.b, w);
        }
        // (x ++ ext) ++ ext'
        if na.op == Op::Concat {
            let l = self.n(na.b);
            if l.op == Op::Extract && nb.op == Op::Extract && l.a == nb.a && l.b == nb.b + nb.w {
                let x = self.extract(l.a, nb.b, l.w + nb.w);
                return self.concat(na.a, x);
            }
            if l.op == Op::Const && nb.op == Op::Const {
                let c = self.cst(l.w + nb.w, (l.k << nb.w) | nb.k);
                return self.concat(na.a, c);
            }
        }
        if na.op == Op::ZExt {
            let x = self.concat(na.a, b);
            return self.zext(x, w);
        }
        // ite lifting when both share the condition
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let x = self.concat(na.b, nb.b);
            let y = self.concat(na.c, nb.c);
            return self.ite(na.a, x, y);
        }
        if na.op == Op::Ite && nb.op == Op::Const && self.k(na.b).is_some() && self.k(na.c).is_some() {
            let x = self.concat(na.b, b);
            let y = self.concat(na.c, b);
            return self.ite(na.a, x, y);
        }
        self.raw(Node { op: Op::Concat, w, a, b, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == 1 {
            return a;
        }
        if c == 0 {
            return b;
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let nc = self.n(c);
        if nc.op == Op::Xor && self.k(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            if a == 1 {
                return self.bin(Op::Or, c, b);
            }
            if a == 0 {
                let n = self.not(c);
                return self.bin(Op::And, n, b);
            }
            if b == 0 {
                return self.bin(Op::And, c, a);
            }
            if b == 1 {
                let n = self.not(c);
                return self.bin(Op::Or, n, a);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == Op::Ite && nb.b == a {
            let cc = self.bin(Op::Or, c, nb.a);
            return self.ite(cc, a, nb.c);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.ite(c, na.a, nb.a);
            return self.zext(x, w);
        }
        self.raw(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn popcnt(&mut self, a: E) -> E {
        let w = self.w(a);
        let mut bits: Vec<E> = (0..w).map(|i| self.extract(a, i, 1)).collect();
        // balanced tree with minimal widths
        bits.retain(|&b| b != 0);
        if bits.is_empty() {
            return self.cst(w, 0);
        }
        while bits.len() > 1 {
            let mut nx = vec![];
            for ch in bits.chunks(2) {
                if ch.len() == 2 {
                    let ww = self.w(ch[0]).max(self.w(ch[1])) + 1;
                    let x = self.zext(ch[0], ww);
                    let y = self.zext(ch[1], ww);
                    nx.push(self.bin(Op::Add, x, y));
                } else {
                    nx.push(ch[0]);
                }
            }
            bits = nx;
        }
        let r = bits[0];
        let rw = self.w(r);
        if rw > w {
            self.extract(r, 0, w)
        } else {
            self.zext(r, w)
        }
    }
    pub fn ctz(&mut self, a: E) -> E {
        let w = self.w(a);
        let mut r = self.cst(w, w as u128);
        for i in (0..w).rev() {
            let b = self.extract(a, i, 1);
            let k = self.cst(w, i as u128);
            r = self.ite(b, k, r);
        }
        r
    }
    pub fn clz(&mut self, a: E) -> E {
        let w = self.w(a);
        let mut r = self.cst(w, w as u128);
        for i in 0..w {
            let b = self.extract(a, i, 1);
            let k = self.cst(w, (w - 1 - i) as u128);
            r = self.ite(b, k, r);
        }
        r
    }
    pub fn vars(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = &self.vars[e as usize] {
            return v.clone();
        }
        // iterative post-order
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.vars[x as usize].is_some() {
                continue;
            }
            let n = self.n(x);
            let kids: Vec<E> = kids(&n);
            if !done && !kids.is_empty() {
                st.push((x, true));
                for k in kids {
                    if self.vars[k as usize].is_none() {
                        st.push((k, false));
                    }
                }
                continue;
            }
            let r = match n.op {
                Op::Const => Rc::new(vec![]),
                Op::Var => Rc::new(vec![n.a]),
                _ => {
                    let mut acc: Option<Rc<Vec<u32>>> = None;
                    for k in kids {
                        let v = self.vars[k as usize].clone().unwrap();
                        acc = Some(match acc {
                            None => v,
                            Some(a) => {
                                if v.is_empty() || Rc::ptr_eq(&a, &v) {
                                    a
                                } else if a.is_empty() {
                                    v
                                } else {
                                    let mut m = Vec::with_capacity(a.len() + v.len());
                                    let (mut i, mut j) = (0, 0);
                                    while i < a.len() || j < v.len() {
                                        if j >= v.len() || (i < a.len() && a[i] < v[j]) {
                                            m.push(a[i]);
                                            i += 1;
                                        } else if i >= a.len() || v[j] < a[i] {
                                            m.push(v[j]);
                                            j += 1;
                                        } else {
                                            m.push(a[i]);
                                            i += 1;
                                            j += 1;
                                        }
                                    }
                                    if m.len() == a.len() {
                                        a
                                    } else if m.len() == v.len() {
                                        v
                                    } else {
                                        Rc::new(m)
                                    }
                                }
                            }
                        });
                    }
                    acc.unwrap_or_default()
                }
            };
            self.vars[x as usize] = Some(r);
        }
        self.vars[e as usize].clone().unwrap()
    }
}

pub fn kids(n: &Node) -> Vec<E> {
    match n.op {
        Op::Const | Op::Var => vec![],
        Op::ZExt | Op::SExt | Op::Extract => vec![n.a],
        Op::Ite => vec![n.a, n.b, n.c],
        _ => vec![n.a, n.b],
    }
}

/// A total assignment of the symbolic bytes (missing = 0) with an evaluation cache.
pub struct Model {
    pub vals: Vec<u8>,
    cache: UnsafeCell<FxMap<E, u128>>,
}
impl Model {
    pub fn new(vals: Vec<u8>) -> Rc<Model> {
        Rc::new(Model { vals, cache: UnsafeCell::new(FxMap::default()) })
    }
    pub fn eval(&self, e: E) -> u128 {
        let c = cx();
        let n = c.n(e);
        match n.op {
            Op::Const => return n.k,
            Op::Var => return self.vals.get(n.a as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        let cache = unsafe { &mut *self.cache.get() };
        if let Some(v) = cache.get(&e) {
            return *v;
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if cache.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = c.n(x);
            let get = |k: E, cache: &FxMap<E, u128>| -> Option<u128> {
                let n = c.n(k);
                match n.op {
                    Op::Const => Some(n.k),
                    Op::Var => Some(self.vals.get(n.a as usize).copied().unwrap_or(0) as u128),
                    _ => cache.get(&k).copied(),
                }
            };
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => self.vals.get(n.a as usize).copied().unwrap_or(0) as u128,
                Op::Ite => {
                    let Some(cv) = get(n.a, cache) else {
                        st.push(n.a);
                        continue;
                    };
                    let k = if cv == 1 { n.b } else { n.c };
                    let Some(v) = get(k, cache) else {
                        st.push(k);
                        continue;
                    };
                    v
                }
                Op::ZExt | Op::SExt | Op::Extract => {
                    let Some(a) = get(n.a, cache) else {
                        st.push(n.a);
                        continue;
                    };
                    match n.op {
                        Op::ZExt => a,
                        Op::SExt => sx(a, c.w(n.a)) as u128 & mask(n.w),
                        _ => (a >> n.b) & mask(n.w),
                    }
                }
                _ => {
                    let (ga, gb) = (get(n.a, cache), get(n.b, cache));
                    match (ga, gb) {
                        (Some(a), Some(b)) => {
                            if n.op == Op::Concat {
                                (a << c.w(n.b)) | b
                            } else {
                                fold(n.op, c.w(n.a), a, b)
                            }
                        }
                        (x, y) => {
                            if x.is_none() {
                                st.push(n.a);
                            }
                            if y.is_none() {
                                st.push(n.b);
                            }
                            continue;
                        }
                    }
                }
            };
            cache.insert(x, v);
            st.pop();
        }
        cache[&e]
    }
}

pub fn show(e: E, depth: u32) -> String {
    let c = cx();
    let n = c.n(e);
    match n.op {
        Op::Const => format!("{:#x}:{}", n.k, n.w),
        Op::Var => format!("v{}", n.a),
        _ if depth == 0 => "..".into(),
        Op::Extract => format!("{}[{}+:{}]", show(n.a, depth - 1), n.b, n.w),
        _ => {
            let ks: Vec<String> = kids(&n).into_iter().map(|k| show(k, depth - 1)).collect();
            format!("({:?}:{} {})", n.op, n.w, ks.join(" "))
        }
    }
}
