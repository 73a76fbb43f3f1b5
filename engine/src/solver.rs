//! SMT back end: z3 through its C API, assumption-literal incremental solving,
//! independent-constraint slicing and a query cache.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;
use std::time::{Duration, Instant};

type A = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> A;
    fn Z3_set_param_value(c: A, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: A) -> A;
    fn Z3_del_config(c: A);
    fn Z3_del_context(c: A);
    fn Z3_mk_solver_for_logic(c: A, l: A) -> A;
    fn Z3_solver_inc_ref(c: A, s: A);
    fn Z3_solver_dec_ref(c: A, s: A);
    fn Z3_mk_string_symbol(c: A, s: *const c_char) -> A;
    fn Z3_mk_int_symbol(c: A, i: c_int) -> A;
    fn Z3_mk_bv_sort(c: A, w: c_uint) -> A;
    fn Z3_mk_bool_sort(c: A) -> A;
    fn Z3_mk_const(c: A, s: A, t: A) -> A;
    fn Z3_mk_unsigned_int64(c: A, v: u64, t: A) -> A;
    fn Z3_mk_true(c: A) -> A;
    fn Z3_mk_false(c: A) -> A;
    fn Z3_mk_eq(c: A, a: A, b: A) -> A;
    fn Z3_mk_not(c: A, a: A) -> A;
    fn Z3_mk_ite(c: A, a: A, b: A, d: A) -> A;
    fn Z3_mk_xor(c: A, a: A, b: A) -> A;
    fn Z3_mk_implies(c: A, a: A, b: A) -> A;
    fn Z3_mk_and(c: A, n: c_uint, a: *const A) -> A;
    fn Z3_mk_or(c: A, n: c_uint, a: *const A) -> A;
    fn Z3_mk_bvadd(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvmul(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvudiv(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvurem(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvsdiv(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvsrem(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvand(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvor(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvxor(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvshl(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvlshr(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvashr(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvult(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvslt(c: A, a: A, b: A) -> A;
    fn Z3_mk_zero_ext(c: A, n: c_uint, a: A) -> A;
    fn Z3_mk_sign_ext(c: A, n: c_uint, a: A) -> A;
    fn Z3_mk_extract(c: A, hi: c_uint, lo: c_uint, a: A) -> A;
    fn Z3_mk_concat(c: A, a: A, b: A) -> A;
    fn Z3_solver_assert(c: A, s: A, a: A);
    fn Z3_solver_check_assumptions(c: A, s: A, n: c_uint, a: *const A) -> c_int;
    fn Z3_solver_get_model(c: A, s: A) -> A;
    fn Z3_model_inc_ref(c: A, m: A);
    fn Z3_model_dec_ref(c: A, m: A);
    fn Z3_model_eval(c: A, m: A, t: A, compl: bool, out: *mut A) -> bool;
    fn Z3_get_numeral_uint64(c: A, a: A, out: *mut u64) -> bool;
    fn Z3_set_error_handler(c: A, h: Option<extern "C" fn(A, c_int)>);
    fn Z3_mk_params(c: A) -> A;
    fn Z3_params_inc_ref(c: A, p: A);
    fn Z3_params_set_uint(c: A, p: A, k: A, v: c_uint);
    fn Z3_solver_set_params(c: A, s: A, p: A);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: A, code: c_int) {
    eprintln!("z3 error {}", code);
    std::process::exit(3);
}

pub enum Res {
    Sat(Rc<Model>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: A,
    s: A,
    memo: FxMap<E, A>,
    lits: FxMap<E, A>,
    nlit: i32,
    size: usize,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub time: Duration,
    pub max_query: Duration,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u8)>>>,
    /// values of expressions with one input byte known: (input, value) -> expression -> value, if determined
    part: HashMap<(u32, u8), FxMap<E, Option<u128>>>,
    part_size: usize,
    /// feasibility queries decided by case analysis over one input byte
    pub cases: u64,
    recent: Duration,
    nrecent: u32,
    pub timeout_ms: u32,
    pub seed: u32,
    pub dump: Option<(String, u64, u64)>,
}

fn patched(base: &Rc<Model>, delta: &[(u32, u8)]) -> Rc<Model> {
    let mut v = base.vals.clone();
    for (i, b) in delta {
        if v.len() <= *i as usize {
            v.resize(*i as usize + 1, 0);
        }
        v[*i as usize] = *b;
    }
    Model::new(v)
}

impl Solver {
    pub fn new(timeout_ms: u32, seed: u32) -> Solver {
        let mut s = Solver {
            ctx: std::ptr::null_mut(),
            s: std::ptr::null_mut(),
            memo: FxMap::default(),
            lits: FxMap::default(),
            nlit: 0,
            size: 0,
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            cache_hits: 0,
            time: Duration::ZERO,
            max_query: Duration::ZERO,
            cache: HashMap::new(),
            part: HashMap::new(),
            part_size: 0,
            cases: 0,
            recent: Duration::ZERO,
            nrecent: 0,
            timeout_ms,
            seed,
            dump: None,
        };
        s.reset();
        s
    }
    pub fn version() -> String {
        unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    fn reset(&mut self) {
        unsafe {
            if !self.ctx.is_null() {
                Z3_solver_dec_ref(self.ctx, self.s);
                Z3_del_context(self.ctx);
            }
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let sym = Z3_mk_string_symbol(self.ctx, l.as_ptr());
            self.s = Z3_mk_solver_for_logic(self.ctx, sym);
            Z3_solver_inc_ref(self.ctx, self.s);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            for (k, v) in [("timeout", self.timeout_ms), ("random_seed", self.seed)] {
                let k = CString::new(k).unwrap();
                let ks = Z3_mk_string_symbol(self.ctx, k.as_ptr());
                Z3_params_set_uint(self.ctx, p, ks, v);
            }
            Z3_solver_set_params(self.ctx, self.s, p);
        }
        self.memo.clear();
        self.lits.clear();
        self.size = 0;
    }

    fn tr(&mut self, e: E) -> A {
        if let Some(&a) = self.memo.get(&e) {
            return a;
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.memo.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = cx().n(x);
            let ks = kids(&n);
            let mut ready = true;
            for k in &ks {
                if !self.memo.contains_key(k) {
                    st.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let a = self.build(&n);
            self.memo.insert(x, a);
            self.size += 1;
            st.pop();
        }
        self.memo[&e]
    }
    fn build(&mut self, n: &Node) -> A {
        let c = self.ctx;
        let g = |s: &Solver, e: E| s.memo[&e];
        unsafe {
            let b1 = |a: A| {
                // Bool -> BitVec 1
                let t = Z3_mk_bv_sort(c, 1);
                Z3_mk_ite(c, a, Z3_mk_unsigned_int64(c, 1, t), Z3_mk_unsigned_int64(c, 0, t))
            };
            let is1 = |e: E| cx().w(e) == 1;
            match n.op {
                Op::Const => {
                    if n.w == 1 {
                        if n.k == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else if n.w <= 64 {
                        Z3_mk_unsigned_int64(c, n.k as u64, Z3_mk_bv_sort(c, n.w))
                    } else {
                        let hi = Z3_mk_unsigned_int64(c, (n.k >> 64) as u64, Z3_mk_bv_sort(c, n.w - 64));
                        let lo = Z3_mk_unsigned_int64(c, n.k as u64, Z3_mk_bv_sort(c, 64));
                        Z3_mk_concat(c, hi, lo)
                    }
                }
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), Z3_mk_bv_sort(c, 8)),
                Op::ZExt => {
                    let a = g(self, n.a);
                    if is1(n.a) {
                        let t = Z3_mk_bv_sort(c, n.w);
                        Z3_mk_ite(c, a, Z3_mk_unsigned_int64(c, 1, t), Z3_mk_unsigned_int64(c, 0, t))
                    } else {
                        Z3_mk_zero_ext(c, n.w - cx().w(n.a), a)
                    }
                }
                Op::SExt => {
                    let mut a = g(self, n.a);
                    if is1(n.a) {
                        a = b1(a);
                    }
                    Z3_mk_sign_ext(c, n.w - cx().w(n.a), a)
                }
                Op::Extract => {
                    let a = g(self, n.a);
                    let x = Z3_mk_extract(c, n.b + n.w - 1, n.b, a);
                    if n.w == 1 {
                        Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                    } else {
                        x
                    }
                }
                Op::Concat => {
                    let mut a = g(self, n.a);
                    let mut b = g(self, n.b);
                    if is1(n.a) {
                        a = b1(a);
                    }
                    if is1(n.b) {
                        b = b1(b);
                    }
                    Z3_mk_concat(c, a, b)
                }
                Op::Ite => Z3_mk_ite(c, g(self, n.a), g(self, n.b), g(self, n.c)),
                Op::Eq => Z3_mk_eq(c, g(self, n.a), g(self, n.b)),
                Op::And if n.w == 1 => {
                    let v = [g(self, n.a), g(self, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or if n.w == 1 => {
                    let v = [g(self, n.a), g(self, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor if n.w == 1 => {
                    if n.b == 1 {
                        Z3_mk_not(c, g(self, n.a))
                    } else {
                        Z3_mk_xor(c, g(self, n.a), g(self, n.b))
                    }
                }
                _ => {
                    let mut a = g(self, n.a);
                    let mut b = g(self, n.b);
                    let one = is1(n.a);
                    if one {
                        a = b1(a);
                        b = b1(b);
                    }
                    let r = match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Ult => return Z3_mk_bvult(c, a, b),
                        Op::Slt => return Z3_mk_bvslt(c, a, b),
                        _ => unreachable!(),
                    };
                    if n.w == 1 {
                        Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                    } else {
                        r
                    }
                }
            }
        }
    }
    fn lit(&mut self, e: E) -> A {
        if let Some(&l) = self.lits.get(&e) {
            return l;
        }
        let a = self.tr(e);
        unsafe {
            self.nlit += 1;
            let name = CString::new(format!("p{}", self.nlit)).unwrap();
            let sym = Z3_mk_string_symbol(self.ctx, name.as_ptr());
            let p = Z3_mk_const(self.ctx, sym, Z3_mk_bool_sort(self.ctx));
            Z3_solver_assert(self.ctx, self.s, Z3_mk_implies(self.ctx, p, a));
            self.lits.insert(e, p);
            p
        }
    }

    /// The value of an expression once one input byte is known, if that determines it.
    fn partial(&mut self, e: E, var: u32, val: u8) -> Option<u128> {
        let c = cx();
        let cache = self.part.entry((var, val)).or_default();
        let before = cache.len();
        let get = |k: E, cache: &FxMap<E, Option<u128>>| -> Option<Option<u128>> {
            let n = c.n(k);
            match n.op {
                Op::Const => Some(Some(n.k)),
                Op::Var => Some(if n.a == var { Some(val as u128) } else { None }),
                _ => cache.get(&k).copied(),
            }
        };
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if get(x, cache).is_some() {
                st.pop();
                continue;
            }
            let n = c.n(x);
            let v = match n.op {
                Op::Const | Op::Var => unreachable!(),
                Op::Ite => {
                    let Some(cv) = get(n.a, cache) else {
                        st.push(n.a);
                        continue;
                    };
                    match cv {
                        Some(cv) => {
                            let k = if cv == 1 { n.b } else { n.c };
                            let Some(v) = get(k, cache) else {
                                st.push(k);
                                continue;
                            };
                            v
                        }
                        None => match (get(n.b, cache), get(n.c, cache)) {
                            (Some(a), Some(b)) => if a == b { a } else { None },
                            (Some(None), None) | (None, Some(None)) => None,
                            (a, b) => {
                                if a.is_none() {
                                    st.push(n.b);
                                }
                                if b.is_none() {
                                    st.push(n.c);
                                }
                                continue;
                            }
                        },
                    }
                }
                Op::ZExt | Op::SExt | Op::Extract => {
                    let Some(a) = get(n.a, cache) else {
                        st.push(n.a);
                        continue;
                    };
                    a.map(|a| match n.op {
                        Op::ZExt => a,
                        Op::SExt => sx(a, c.w(n.a)) as u128 & mask(n.w),
                        _ => (a >> n.b) & mask(n.w),
                    })
                }
                _ => {
                    let (ga, gb) = (get(n.a, cache), get(n.b, cache));
                    let zero = Some(Some(0));
                    let ones = Some(Some(mask(n.w)));
                    match (ga, gb) {
                        _ if n.op == Op::And && (ga == zero || gb == zero) => Some(0),
                        _ if n.op == Op::Or && (ga == ones || gb == ones) => Some(mask(n.w)),
                        (Some(Some(a)), Some(Some(b))) => Some(if n.op == Op::Concat {
                            (a << c.w(n.b)) | b
                        } else {
                            fold(n.op, c.w(n.a), a, b)
                        }),
                        (Some(_), Some(_)) => None,
                        (x, y) => {
                            if x.is_none() {
                                st.push(n.a);
                            }
                            if y.is_none() {
                                st.push(n.b);
                            }
                            continue;
                        }
                    }
                }
            };
            cache.insert(x, v);
            st.pop();
        }
        let r = get(e, cache).unwrap();
        self.part_size += cache.len() - before;
        r
    }

    /// Decide a query by cases over the value of one input byte, where each case is settled by evaluation alone.
    fn by_cases(&mut self, sel: &[E], cond: E, base: &Rc<Model>) -> Option<Res> {
        let c = cx();
        if self.part_size > 8_000_000 {
            self.part.clear();
            self.part_size = 0;
        }
        for var in c.vars(cond).iter().copied() {
            let mut open = 0;
            'val: for val in 0..=255u8 {
                for &e in sel {
                    if self.partial(e, var, val) == Some(0) {
                        continue 'val;
                    }
                }
                // not excluded
                let mut v = base.vals.clone();
                if v.len() <= var as usize {
                    v.resize(var as usize + 1, 0);
                }
                v[var as usize] = val;
                let m = Model::new(v);
                if sel.iter().all(|&e| m.eval(e) == 1) {
                    return Some(Res::Sat(m));
                }
                open += 1;
                if open == 3 {
                    break;
                }
            }
            if open == 0 {
                return Some(Res::Unsat);
            }
        }
        None
    }

    /// As `check`, for the feasibility of a branch.
    pub fn feasible(&mut self, pc: &[E], cond: E, base: &Rc<Model>) -> Res {
        self.check_with(pc, cond, base, true)
    }
    pub fn check(&mut self, pc: &[E], cond: E, base: &Rc<Model>) -> Res {
        self.check_with(pc, cond, base, false)
    }

    /// Is (conjunction of pc) && cond satisfiable?  `base` satisfies pc.
    pub fn check_with(&mut self, pc: &[E], cond: E, base: &Rc<Model>, cases: bool) -> Res {
        if cond == 0 {
            return Res::Unsat;
        }
        // slice
        let c = cx();
        let cv = c.vars(cond);
        let mut seen: HashSet<u32> = cv.iter().copied().collect();
        let mut used = vec![false; pc.len()];
        let mut sel = vec![];
        loop {
            let mut ch = false;
            for (i, &p) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let v = c.vars(p);
                if v.iter().any(|x| seen.contains(x)) {
                    used[i] = true;
                    ch = true;
                    sel.push(p);
                    for x in v.iter() {
                        seen.insert(*x);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        sel.push(cond);
        sel.sort_unstable();
        sel.dedup();
        if let Some(r) = self.cache.get(&sel) {
            self.cache_hits += 1;
            return match r {
                None => Res::Unsat,
                Some(d) => Res::Sat(patched(base, d)),
            };
        }
        if cases && seen.len() <= 8 && cv.len() <= 3 {
            if let Some(r) = self.by_cases(&sel, cond, base) {
                self.cases += 1;
                // every so often the solver confirms it
                if self.cases % 64 != 0 {
                    return r;
                }
                let sat = matches!(r, Res::Sat(_));
                let z = self.ask(&sel, &seen, cond, base);
                if !matches!((&z, sat), (Res::Sat(_), true) | (Res::Unsat, false) | (Res::Unknown, _)) {
                    eprintln!("FATAL: case analysis and solver disagree on {}", show(cond, 6));
                    std::process::exit(3);
                }
                return r;
            }
        }
        self.ask(&sel, &seen, cond, base)
    }

    fn ask(&mut self, sel: &[E], seen: &HashSet<u32>, cond: E, base: &Rc<Model>) -> Res {
        let c = cx();
        // The shared context slows down as it grows: start afresh when it has.
        let slow = self.nrecent >= 50 && self.recent.as_micros() > 2_000 * self.nrecent as u128;
        if self.size > 60_000 || (slow && self.size > 500) {
            self.reset();
        }
        if self.nrecent >= 50 {
            self.nrecent = 0;
            self.recent = Duration::ZERO;
        }
        let nsel = sel.len();
        let t0 = Instant::now();
        let mut tries = 0;
        let r = loop {
            let lits: Vec<A> = sel.iter().map(|&e| self.lit(e)).collect();
            let r = unsafe { Z3_solver_check_assumptions(self.ctx, self.s, lits.len() as c_uint, lits.as_ptr()) };
            if r == 0 && tries == 0 {
                // unknown in the shared context: retry once in a fresh one
                tries = 1;
                self.reset();
                continue;
            }
            break r;
        };
        self.queries += 1;
        let res = match r {
            1 => {
                self.sat += 1;
                let mut d = vec![];
                unsafe {
                    let m = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, m);
                    for &v in seen.iter() {
                        let ve = c.var_ix(v);
                        let a = self.tr(ve);
                        let mut out: A = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, m, a, true, &mut out);
                        let mut k = 0u64;
                        Z3_get_numeral_uint64(self.ctx, out, &mut k);
                        d.push((v, k as u8));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                }
                let model = patched(base, &d);
                // independent validation of the model by our own evaluator
                for &e in sel {
                    if model.eval(e) != 1 {
                        eprintln!("FATAL: solver model does not satisfy constraint {}", show(e, 6));
                        std::process::exit(3);
                    }
                }
                self.cache.insert(sel.to_vec(), Some(d));
                Res::Sat(model)
            }
            -1 => {
                self.unsat += 1;
                if let Some((dir, every, cap)) = self.dump.clone() {
                    if self.unsat % every == 0 && self.unsat / every <= cap {
                        self.dump_smt2(&dir, sel);
                    }
                }
                self.cache.insert(sel.to_vec(), None);
                Res::Unsat
            }
            _ => {
                self.unknown += 1;
                Res::Unknown
            }
        };
        let dt = t0.elapsed();
        self.recent += dt;
        self.nrecent += 1;
        self.time += dt;
        if dt.as_secs() >= 2 && std::env::var_os("SYMX_SLOW").is_some() {
            eprintln!("slow query {:?}: {} conjuncts, {} vars, cond {}", dt, nsel, seen.len(), show(cond, 5));
        }
        if dt > self.max_query {
            self.max_query = dt;
        }
        res
    }

    /// Write an unsat query as SMT-LIB2 so that a second solver can confirm it.
    fn dump_smt2(&self, dir: &str, sel: &[E]) {
        let c = cx();
        let mut out = String::from("(set-logic QF_BV)\n");
        let mut done: HashSet<E> = HashSet::new();
        let mut vars: Vec<u32> = vec![];
        for &e in sel {
            for v in c.vars(e).iter() {
                vars.push(*v);
            }
        }
        vars.sort_unstable();
        vars.dedup();
        for v in vars {
            out += &format!("(declare-const v{} (_ BitVec 8))\n", v);
        }
        let nm = |e: E| -> String {
            let n = c.n(e);
            match n.op {
                Op::Const => format!("(_ bv{} {})", n.k, n.w),
                Op::Var => format!("v{}", n.a),
                _ => format!("e{}", e),
            }
        };
        for &e in sel {
            let mut st = vec![e];
            while let Some(&x) = st.last() {
                let n = c.n(x);
                if done.contains(&x) || matches!(n.op, Op::Const | Op::Var) {
                    st.pop();
                    continue;
                }
                let ks = kids(&n);
                let pend: Vec<E> = ks
                    .iter()
                    .copied()
                    .filter(|k| !done.contains(k) && !matches!(c.n(*k).op, Op::Const | Op::Var))
                    .collect();
                if !pend.is_empty() {
                    st.extend(pend);
                    continue;
                }
                // every value, including width 1, is a bit-vector here
                let b = |s: String| format!("(ite {} #b1 #b0)", s);
                let (x0, x1) = (nm(n.a), nm(n.b));
                let r = match n.op {
                    Op::Add => format!("(bvadd {} {})", x0, x1),
                    Op::Mul => format!("(bvmul {} {})", x0, x1),
                    Op::UDiv => format!("(bvudiv {} {})", x0, x1),
                    Op::URem => format!("(bvurem {} {})", x0, x1),
                    Op::SDiv => format!("(bvsdiv {} {})", x0, x1),
                    Op::SRem => format!("(bvsrem {} {})", x0, x1),
                    Op::And => format!("(bvand {} {})", x0, x1),
                    Op::Or => format!("(bvor {} {})", x0, x1),
                    Op::Xor => format!("(bvxor {} {})", x0, x1),
                    Op::Shl => format!("(bvshl {} {})", x0, x1),
                    Op::LShr => format!("(bvlshr {} {})", x0, x1),
                    Op::AShr => format!("(bvashr {} {})", x0, x1),
                    Op::Eq => b(format!("(= {} {})", x0, x1)),
                    Op::Ult => b(format!("(bvult {} {})", x0, x1)),
                    Op::Slt => b(format!("(bvslt {} {})", x0, x1)),
                    Op::Ite => format!("(ite (= {} #b1) {} {})", x0, x1, nm(n.c)),
                    Op::ZExt => format!("((_ zero_extend {}) {})", n.w - c.w(n.a), x0),
                    Op::SExt => format!("((_ sign_extend {}) {})", n.w - c.w(n.a), x0),
                    Op::Extract => format!("((_ extract {} {}) {})", n.b + n.w - 1, n.b, x0),
                    Op::Concat => format!("(concat {} {})", x0, x1),
                    Op::Const | Op::Var => unreachable!(),
                };
                out += &format!("(define-fun e{} () (_ BitVec {}) {})\n", x, n.w, r);
                done.insert(x);
                st.pop();
            }
            out += &format!("(assert (= {} #b1))\n", nm(e));
        }
        out += "(check-sat)\n";
        let _ = std::fs::create_dir_all(dir);
        let _ = std::fs::write(format!("{}/q{}.smt2", dir, self.unsat), out);
    }
}
