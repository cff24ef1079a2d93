//! Z3 back end: translation of expressions, constraint slicing, caching.

use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, n: c_uint) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_get_error_code(c: P) -> c_int;
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("z3 error {e}");
    std::process::exit(3);
}

#[derive(Debug, Clone)]
pub enum Res {
    Sat(Rc<Vec<(u32, u128)>>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    memo: HashMap<E, P>,
    /// translation of wrap-free arithmetic to integers (Some(None): impossible)
    imemo: HashMap<E, Option<P>>,
    pub linear: bool,
    pub linear_queries: u64,
    tabmemo: HashMap<(u32, E), P>,
    cache: HashMap<Vec<E>, Res>,
    nq_ctx: u64,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub timeout_ms: u32,
    /// when set, every n-th decided query is dumped as SMT-LIB for cross-checking
    pub dump: Option<(String, u64, u64)>,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        Solver {
            ctx: Self::mkctx(),
            memo: HashMap::new(),
            imemo: HashMap::new(),
            linear: false,
            linear_queries: 0,
            tabmemo: HashMap::new(),
            cache: HashMap::new(),
            nq_ctx: 0,
            queries: 0,
            cache_hits: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            time: 0.0,
            max_time: 0.0,
            timeout_ms,
            dump: None,
        }
    }
    fn mkctx() -> P {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_error));
            c
        }
    }
    /// booleans (width 1) are translated to Bool, everything else to bit-vectors
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, t.as_ptr(), s)
            }
        }
    }
    fn bv(&self, cx: &Ctx, e: E, a: P) -> P {
        if cx.width(e) == 1 {
            unsafe { Z3_mk_ite(self.ctx, a, self.num(1, 1), self.num(0, 1)) }
        } else {
            a
        }
    }
    fn tr(&mut self, cx: &Ctx, root: E) -> P {
        let mut st = vec![root];
        while let Some(&e) = st.last() {
            if self.memo.contains_key(&e) {
                st.pop();
                continue;
            }
            let node = cx.nodes[e as usize].clone();
            let kids: Vec<E> = match &node {
                Node::Const(_) | Node::Var(_) => vec![],
                Node::Ext(a, _) | Node::Not(a) | Node::Tab(_, a) => vec![*a],
                Node::Cat(p) => p.to_vec(),
                Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Fp(_, a, b) => vec![*a, *b],
                Node::Ite(a, b, c) => vec![*a, *b, *c],
            };
            let mut ok = true;
            for k in &kids {
                if !self.memo.contains_key(k) {
                    st.push(*k);
                    ok = false;
                }
            }
            if !ok {
                continue;
            }
            let w = cx.width(e);
            let c = self.ctx;
            let g = |k: &E| self.memo[k];
            let r = unsafe {
                match &node {
                    Node::Const(v) => {
                        if w == 1 {
                            if *v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) }
                        } else {
                            self.num(*v, w)
                        }
                    }
                    Node::Var(i) => {
                        let s = Z3_mk_int_symbol(c, *i as c_int);
                        let t = if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w) };
                        Z3_mk_const(c, s, t)
                    }
                    Node::Ext(a, lo) => {
                        let x = Z3_mk_extract(c, lo + w - 1, *lo, g(a));
                        if w == 1 { Z3_mk_eq(c, x, self.num(1, 1)) } else { x }
                    }
                    Node::Cat(ps) => {
                        let mut acc = self.bv(cx, ps[0], g(&ps[0]));
                        for p in &ps[1..] {
                            acc = Z3_mk_concat(c, self.bv(cx, *p, g(p)), acc);
                        }
                        acc
                    }
                    Node::Not(a) => {
                        if w == 1 { Z3_mk_not(c, g(a)) } else { Z3_mk_bvnot(c, g(a)) }
                    }
                    Node::Ite(a, b, d) => Z3_mk_ite(c, g(a), g(b), g(d)),
                    Node::Bin(op, a, b) => {
                        let (x, y) = (g(a), g(b));
                        if w == 1 {
                            match op {
                                Op::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                                Op::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                                Op::Xor => Z3_mk_xor(c, x, y),
                                Op::Mul => Z3_mk_and(c, 2, [x, y].as_ptr()),
                                Op::Add | Op::Sub => Z3_mk_xor(c, x, y),
                                _ => panic!("1-bit {op:?}"),
                            }
                        } else {
                            match op {
                                Op::Add => Z3_mk_bvadd(c, x, y),
                                Op::Sub => Z3_mk_bvsub(c, x, y),
                                Op::Mul => Z3_mk_bvmul(c, x, y),
                                Op::UDiv => Z3_mk_bvudiv(c, x, y),
                                Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                                Op::URem => Z3_mk_bvurem(c, x, y),
                                Op::SRem => Z3_mk_bvsrem(c, x, y),
                                Op::Shl => Z3_mk_bvshl(c, x, y),
                                Op::LShr => Z3_mk_bvlshr(c, x, y),
                                Op::AShr => Z3_mk_bvashr(c, x, y),
                                Op::And => Z3_mk_bvand(c, x, y),
                                Op::Or => Z3_mk_bvor(c, x, y),
                                Op::Xor => Z3_mk_bvxor(c, x, y),
                            }
                        }
                    }
                    Node::Cmp(op, a, b) => {
                        let (x, y) = (g(a), g(b));
                        match op {
                            Cmp::Eq => Z3_mk_eq(c, x, y),
                            Cmp::Ult => Z3_mk_bvult(c, x, y),
                            Cmp::Slt => Z3_mk_bvslt(c, x, y),
                        }
                    }
                    Node::Tab(t, i) => {
                        let tab = cx.tables[*t as usize].clone();
                        let iw = cx.width(*i);
                        let idx = self.bv(cx, *i, g(i));
                        let bits: Vec<P> = (0..iw)
                            .map(|k| {
                                let x = Z3_mk_extract(c, k, k, idx);
                                Z3_mk_eq(c, x, self.num(1, 1))
                            })
                            .collect();
                        let hi = cx.hi(*i).min(tab.len() as u128 - 1) as usize;
                        let _ = &self.tabmemo;
                        self.tabtree(&tab[..=hi], &bits, w, 0)
                    }
                    Node::Fp(op, a, b) => {
                        let wa = cx.width(*a);
                        let sort = |w: u32| if w == 64 { Z3_mk_fpa_sort_64(c) } else { Z3_mk_fpa_sort_32(c) };
                        let fl = |x: P, w: u32| Z3_mk_fpa_to_fp_bv(c, x, sort(w));
                        let rne = Z3_mk_fpa_rne(c);
                        let (x, y) = (g(a), g(b));
                        match op {
                            FOp::Add => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, rne, fl(x, wa), fl(y, wa))),
                            FOp::Sub => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, rne, fl(x, wa), fl(y, wa))),
                            FOp::Mul => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, rne, fl(x, wa), fl(y, wa))),
                            FOp::Div => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, rne, fl(x, wa), fl(y, wa))),
                            FOp::Lt => Z3_mk_fpa_lt(c, fl(x, wa), fl(y, wa)),
                            FOp::Le => Z3_mk_fpa_leq(c, fl(x, wa), fl(y, wa)),
                            FOp::Eq => Z3_mk_fpa_eq(c, fl(x, wa), fl(y, wa)),
                            FOp::ToF64 => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne, fl(x, 32), sort(64))),
                            FOp::ToF32 => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne, fl(x, 64), sort(32))),
                            FOp::FromU => {
                                let x = self.bv(cx, *a, x);
                                Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rne, x, sort(w)))
                            }
                            FOp::FromS => {
                                let x = self.bv(cx, *a, x);
                                Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rne, x, sort(w)))
                            }
                            FOp::ToUSat | FOp::ToSSat => {
                                // only reached when the engine already knows the value is in range
                                Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), fl(x, wa), w)
                            }
                        }
                    }
                }
            };
            self.memo.insert(e, r);
            st.pop();
        }
        self.memo[&root]
    }
    fn inum(&self, v: u128) -> P {
        unsafe {
            let t = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.ctx, t.as_ptr(), Z3_mk_int_sort(self.ctx))
        }
    }
    /// The unsigned value of a bit-vector expression as an integer term, when the expression
    /// is made of operations that provably do not wrap around; booleans stay booleans.
    fn int(&mut self, cx: &Ctx, e: E) -> Option<P> {
        if let Some(r) = self.imemo.get(&e) {
            return *r;
        }
        let r = self.int0(cx, e);
        if r.is_none() && std::env::var("SYMEX_DEBUG").is_ok() {
            eprintln!("not linear: {} = {:?} w{} hi {:x}; {:?}", e, cx.nodes[e as usize], cx.width(e), cx.hi(e), match &cx.nodes[e as usize] { Node::Ext(a, _) | Node::Cmp(_, a, _) => (*a, cx.nodes[*a as usize].clone(), cx.hi(*a)), _ => (0, Node::Const(0), 0) });
        }
        self.imemo.insert(e, r);
        r
    }
    fn int0(&mut self, cx: &Ctx, e: E) -> Option<P> {
        let w = cx.width(e);
        let c = self.ctx;
        let max = crate::expr::ones(w);
        let node = cx.nodes[e as usize].clone();
        unsafe {
            Some(match &node {
                Node::Const(v) if w == 1 => {
                    if *v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) }
                }
                Node::Const(v) => self.inum(*v),
                Node::Var(i) => Z3_mk_const(c, Z3_mk_int_symbol(c, *i as c_int), if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_int_sort(c) }),
                // the low part of a value that fits in it
                Node::Ext(a, 0) if w > 1 && cx.hi(*a) <= max => self.int(cx, *a)?,
                Node::Cat(ps) => {
                    let mut sh = 0;
                    let mut t = vec![];
                    for p in ps.iter() {
                        let pw = cx.width(*p);
                        if cx.as_const(*p) != Some(0) {
                            let mut x = self.int(cx, *p)?;
                            if pw == 1 {
                                x = Z3_mk_ite(c, x, self.inum(1), self.inum(0));
                            }
                            t.push(if sh == 0 { x } else { Z3_mk_mul(c, 2, [self.inum(1 << sh), x].as_ptr()) });
                        }
                        sh += pw;
                    }
                    if t.is_empty() {
                        self.inum(0)
                    } else {
                        Z3_mk_add(c, t.len() as c_uint, t.as_ptr())
                    }
                }
                Node::Not(a) if w == 1 => Z3_mk_not(c, self.int(cx, *a)?),
                Node::Ite(a, b, d) => Z3_mk_ite(c, self.int(cx, *a)?, self.int(cx, *b)?, self.int(cx, *d)?),
                Node::Bin(op, a, b) if w == 1 => {
                    let (x, y) = (self.int(cx, *a)?, self.int(cx, *b)?);
                    match op {
                        Op::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                        Op::Xor => Z3_mk_xor(c, x, y),
                        _ => return None,
                    }
                }
                Node::Bin(Op::Add, a, b) if cx.hi(*a).checked_add(cx.hi(*b)).is_some_and(|s| s <= max) => {
                    Z3_mk_add(c, 2, [self.int(cx, *a)?, self.int(cx, *b)?].as_ptr())
                }
                Node::Bin(Op::Mul, a, b)
                    if (cx.as_const(*a).is_some() || cx.as_const(*b).is_some()) && cx.hi(*a).checked_mul(cx.hi(*b)).is_some_and(|s| s <= max) =>
                {
                    Z3_mk_mul(c, 2, [self.int(cx, *a)?, self.int(cx, *b)?].as_ptr())
                }
                Node::Bin(Op::Sub, a, b) if cx.lo(*a) >= cx.hi(*b) => Z3_mk_sub(c, 2, [self.int(cx, *a)?, self.int(cx, *b)?].as_ptr()),
                // wrapping around
                Node::Bin(Op::Sub, a, b) if w > 1 => {
                    let (x, y) = (self.int(cx, *a)?, self.int(cx, *b)?);
                    let wrap = Z3_mk_ite(c, Z3_mk_lt(c, x, y), self.inum(max + 1), self.inum(0));
                    Z3_mk_add(c, 2, [Z3_mk_sub(c, 2, [x, y].as_ptr()), wrap].as_ptr())
                }
                Node::Bin(Op::Add, a, b) if w > 1 && w < 128 => {
                    let x = Z3_mk_add(c, 2, [self.int(cx, *a)?, self.int(cx, *b)?].as_ptr());
                    let wrap = Z3_mk_ite(c, Z3_mk_lt(c, self.inum(max), x), self.inum(max + 1), self.inum(0));
                    Z3_mk_sub(c, 2, [x, wrap].as_ptr())
                }
                Node::Ext(a, lo) if cx.width(*a) > 1 => {
                    let mut x = self.int(cx, *a)?;
                    if *lo > 0 {
                        x = Z3_mk_div(c, x, self.inum(1 << lo));
                    }
                    if lo + w < cx.width(*a) {
                        x = Z3_mk_mod(c, x, self.inum(1 << w));
                    }
                    if w == 1 { Z3_mk_eq(c, x, self.inum(1)) } else { x }
                }
                Node::Cmp(op, a, b) => {
                    let wa = cx.width(*a);
                    let (x, y) = (self.int(cx, *a)?, self.int(cx, *b)?);
                    let pos = |e: &E| cx.hi(*e) <= crate::expr::ones(wa) >> 1;
                    match op {
                        Cmp::Eq => Z3_mk_eq(c, x, y),
                        Cmp::Ult if wa > 1 => Z3_mk_lt(c, x, y),
                        Cmp::Slt if wa > 1 && pos(a) && pos(b) => Z3_mk_lt(c, x, y),
                        _ => return None,
                    }
                }
                _ => return None,
            })
        }
    }
    /// value tree of a table, selecting by index bits (most significant first in the recursion)
    fn tabtree(&self, t: &[u128], bits: &[P], w: u32, depth: usize) -> P {
        let c = self.ctx;
        let _ = depth;
        unsafe {
            if t.iter().all(|x| *x == t[0]) {
                return if w == 1 {
                    if t[0] == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) }
                } else {
                    self.num(t[0], w)
                };
            }
            // split on the highest bit that matters
            let need = (usize::BITS - (t.len() - 1).leading_zeros()) as usize;
            let k = need - 1;
            let h = 1usize << k;
            let lo = self.tabtree(&t[..h], &bits[..k], w, 0);
            let hi = self.tabtree(&t[h..], &bits[..k], w, 0);
            Z3_mk_ite(c, bits[k], hi, lo)
        }
    }

    /// constraints of `pc` that (transitively) share variables with `extra`
    pub fn slice(cx: &mut Ctx, pc: &[E], extra: &[E]) -> Vec<E> {
        let mut vars: HashSet<u32> = HashSet::new();
        for e in extra {
            vars.extend(cx.support(*e).iter());
        }
        let sups: Vec<Rc<Vec<u32>>> = pc.iter().map(|e| cx.support(*e)).collect();
        let mut taken = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !taken[i] && sups[i].iter().any(|v| vars.contains(v)) {
                    taken[i] = true;
                    ch = true;
                    vars.extend(sups[i].iter());
                }
            }
            if !ch {
                break;
            }
        }
        pc.iter().zip(&taken).filter(|(_, t)| **t).map(|(e, _)| *e).collect()
    }

    /// Is `pc /\ extra` satisfiable? `pc` alone is known to be. A model covers the
    /// variables of the relevant slice only.
    pub fn check(&mut self, cx: &mut Ctx, pc: &[E], extra: &[E]) -> Res {
        for e in extra {
            if cx.as_const(*e) == Some(0) {
                return Res::Unsat;
            }
        }
        let extra: Vec<E> = extra.iter().copied().filter(|e| cx.as_const(*e).is_none()).collect();
        if extra.is_empty() {
            return Res::Sat(Rc::new(vec![]));
        }
        let mut key = Self::slice(cx, pc, &extra);
        key.extend(extra.iter());
        key.sort();
        key.dedup();
        // constraint together with its negation?
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return r.clone();
        }
        let r = self.solve(cx, &key);
        if self.cache.len() > 400_000 {
            self.cache.clear();
        }
        self.cache.insert(key, r.clone());
        r
    }
    fn solve(&mut self, cx: &mut Ctx, cs: &[E]) -> Res {
        self.queries += 1;
        self.nq_ctx += 1;
        if self.nq_ctx > 4000 {
            unsafe { Z3_del_context(self.ctx) };
            self.ctx = Self::mkctx();
            self.memo.clear();
            self.imemo.clear();
            self.nq_ctx = 0;
        }
        let t0 = Instant::now();
        let mut ints: Option<Vec<P>> = if self.linear { cs.iter().map(|e| self.int(cx, *e)).collect() } else { None };
        let linear = ints.is_some();
        let asts: Vec<P> = match &ints {
            Some(v) => v.clone(),
            None => cs.iter().map(|e| self.tr(cx, *e)).collect(),
        };
        let mut vars: Vec<u32> = vec![];
        for e in cs {
            vars.extend(cx.support(*e).iter());
        }
        vars.sort();
        vars.dedup();
        if let Some(a) = &mut ints {
            self.linear_queries += 1;
            for v in &vars {
                let (e, w) = cx.var_node(*v);
                if w > 1 {
                    let x = self.int(cx, e).unwrap();
                    unsafe {
                        a.push(Z3_mk_le(self.ctx, self.inum(0), x));
                        a.push(Z3_mk_le(self.ctx, x, self.inum(crate::expr::ones(w))));
                    }
                }
            }
        }
        let asts = ints.unwrap_or(asts);
        let mut res = Res::Unknown;
        unsafe {
            for attempt in 0..2 {
                let s = if attempt == 0 { Z3_mk_simple_solver(self.ctx) } else { Z3_mk_solver(self.ctx) };
                Z3_solver_inc_ref(self.ctx, s);
                let p = Z3_mk_params(self.ctx);
                Z3_params_inc_ref(self.ctx, p);
                let k = CString::new("timeout").unwrap();
                let to = if attempt == 0 { (self.timeout_ms / 4).max(1000) } else { self.timeout_ms };
                Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), to);
                Z3_solver_set_params(self.ctx, s, p);
                for a in &asts {
                    Z3_solver_assert(self.ctx, s, *a);
                }
                let r = Z3_solver_check(self.ctx, s);
                if r == 1 {
                    let m = Z3_solver_get_model(self.ctx, s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for v in &vars {
                        // find the node of this variable through the memo of constants
                        let (e, w) = cx.var_node(*v);
                        let ast = if linear { self.int(cx, e).unwrap() } else { self.tr(cx, e) };
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.ctx, m, ast, true, &mut o) {
                            let val = if w == 1 {
                                (Z3_get_bool_value(self.ctx, o) == 1) as u128
                            } else {
                                CStr::from_ptr(Z3_get_numeral_string(self.ctx, o)).to_str().unwrap().parse::<u128>().unwrap()
                            };
                            out.push((*v, val));
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    res = Res::Sat(Rc::new(out));
                } else if r == -1 {
                    res = Res::Unsat;
                }
                if r != 0 {
                    if let Some((dir, every, n)) = &mut self.dump {
                        *n += 1;
                        if *n % *every == 0 {
                            let txt = CStr::from_ptr(Z3_solver_to_string(self.ctx, s)).to_string_lossy();
                            let body = format!(
                                "(set-logic ALL)\n(set-info :status {})\n{}\n(check-sat)\n",
                                if r == 1 { "sat" } else { "unsat" },
                                txt
                            );
                            let _ = std::fs::write(format!("{dir}/{}_{n}.smt2", std::process::id()), body);
                        }
                    }
                }
                let _ = Z3_get_error_code(self.ctx);
                Z3_solver_dec_ref(self.ctx, s);
                if r != 0 {
                    break;
                }
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        match &res {
            Res::Sat(_) => {
                self.sat += 1;
            }
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        res
    }
}
