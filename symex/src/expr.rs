//! Hash-consed bit-vector expressions (1..=128 bits) with a normal form based on
//! concatenations of slices, so that packing and unpacking of bits cancels out syntactically.

use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Op { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Cmp { Eq, Ult, Slt }
/// Floating point operations on the raw bit patterns of an f32 or f64 (round to nearest even).
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum FOp { Add, Sub, Mul, Div, Lt, Le, Eq, ToF64, ToF32, FromU, FromS, ToUSat, ToSSat }

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Node {
    Const(u128),
    Var(u32),
    Ext(E, u32),
    /// least significant part first
    Cat(Box<[E]>),
    Bin(Op, E, E),
    Not(E),
    Ite(E, E, E),
    Cmp(Cmp, E, E),
    Tab(u32, E),
    Fp(FOp, E, E),
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 { v } else { v & ((1u128 << w) - 1) }
}
pub fn ones(w: u32) -> u128 {
    mask(u128::MAX, w)
}
pub fn sx(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub w: Vec<u32>,
    iv: Vec<(u128, u128)>,
    map: HashMap<(Node, u32), E>,
    pub tables: Vec<Rc<Vec<u128>>>,
    tmap: HashMap<Rc<Vec<u128>>, u32>,
    pub var_names: Vec<String>,
    pub var_nodes: Vec<E>,
    sup: HashMap<E, Rc<Vec<u32>>>,
    bsup: HashMap<E, Rc<Vec<(u32, u128)>>>,
    ev_val: Vec<u128>,
    ev_stamp: Vec<u64>,
    ev_model: u64,
}

pub struct Model {
    pub id: u64,
    pub v: HashMap<u32, u128>,
}

impl Model {
    pub fn new(id: u64) -> Self {
        Model { id, v: HashMap::new() }
    }
}

pub fn bin_const(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { u128::MAX } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x < 0 { 1 } else { u128::MAX } } else { x.wrapping_div(y) as u128 }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let x = sx(a, w);
            (if b >= w as u128 { x >> 127 } else { x >> b }) as u128
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
    };
    mask(r, w)
}

pub fn fp_const(op: FOp, a: u128, b: u128, wa: u32, w: u32) -> u128 {
    let d = |x: u128| -> f64 { f64::from_bits(x as u64) };
    let s = |x: u128| -> f32 { f32::from_bits(x as u32) };
    let r64 = |x: f64| x.to_bits() as u128;
    let r32 = |x: f32| x.to_bits() as u128;
    match op {
        FOp::Add => if w == 64 { r64(d(a) + d(b)) } else { r32(s(a) + s(b)) },
        FOp::Sub => if w == 64 { r64(d(a) - d(b)) } else { r32(s(a) - s(b)) },
        FOp::Mul => if w == 64 { r64(d(a) * d(b)) } else { r32(s(a) * s(b)) },
        FOp::Div => if w == 64 { r64(d(a) / d(b)) } else { r32(s(a) / s(b)) },
        FOp::Lt => if wa == 64 { (d(a) < d(b)) as u128 } else { (s(a) < s(b)) as u128 },
        FOp::Le => if wa == 64 { (d(a) <= d(b)) as u128 } else { (s(a) <= s(b)) as u128 },
        FOp::Eq => if wa == 64 { (d(a) == d(b)) as u128 } else { (s(a) == s(b)) as u128 },
        FOp::ToF64 => r64(s(a) as f64),
        FOp::ToF32 => r32(d(a) as f32),
        FOp::FromU => if w == 64 { r64(a as f64) } else { r32(a as f32) },
        FOp::FromS => if w == 64 { r64(sx(a, wa) as f64) } else { r32(sx(a, wa) as f32) },
        FOp::ToUSat => {
            let f = if wa == 64 { d(a) } else { s(a) as f64 };
            let u = f as u128; // saturating, NaN -> 0
            u.min(ones(w))
        }
        FOp::ToSSat => {
            let f = if wa == 64 { d(a) } else { s(a) as f64 };
            let i = f as i128;
            let mx = (ones(w) >> 1) as i128;
            mask(i.clamp(-mx - 1, mx) as u128, w)
        }
    }
}

impl Ctx {
    pub fn new() -> Self {
        Ctx {
            nodes: vec![Node::Const(0)],
            w: vec![1],
            iv: vec![(0, 0)],
            map: HashMap::new(),
            tables: vec![],
            tmap: HashMap::new(),
            var_names: vec![],
            var_nodes: vec![],
            sup: HashMap::new(),
            bsup: HashMap::new(),
            ev_val: vec![],
            ev_stamp: vec![],
            ev_model: 0,
        }
    }
    fn mk(&mut self, n: Node, w: u32) -> E {
        debug_assert!(w >= 1 && w <= 128, "{n:?} {w}");
        let key = (n, w);
        if let Some(e) = self.map.get(&key) {
            return *e;
        }
        let iv = self.interval(&key.0, w);
        let id = self.nodes.len() as E;
        self.nodes.push(key.0.clone());
        self.w.push(w);
        self.iv.push(iv);
        self.map.insert(key, id);
        id
    }
    pub fn width(&self, e: E) -> u32 {
        self.w[e as usize]
    }
    pub fn lo(&self, e: E) -> u128 {
        self.iv[e as usize].0
    }
    pub fn hi(&self, e: E) -> u128 {
        self.iv[e as usize].1
    }
    fn interval(&self, n: &Node, w: u32) -> (u128, u128) {
        let full = (0, ones(w));
        let iv = |e: &E| self.iv[*e as usize];
        match n {
            Node::Const(v) => (*v, *v),
            Node::Var(_) => full,
            Node::Ext(b, lo) => {
                let (l, h) = iv(b);
                if h >> lo <= ones(w) { (l >> lo, h >> lo) } else { full }
            }
            Node::Cat(ps) => {
                let (mut l, mut h, mut o) = (0u128, 0u128, 0);
                for p in ps.iter() {
                    let (a, b) = iv(p);
                    l |= a << o;
                    h |= b << o;
                    o += self.width(*p);
                }
                (l, h)
            }
            Node::Bin(op, a, b) => {
                let ((al, ah), (bl, bh)) = (iv(a), iv(b));
                match op {
                    Op::Add => match ah.checked_add(bh) {
                        Some(h) if h <= ones(w) => (al + bl, h),
                        _ => full,
                    },
                    Op::Sub => if al >= bh { (al - bh, ah - bl) } else { full },
                    Op::Mul => match ah.checked_mul(bh) {
                        Some(h) if h <= ones(w) => (al * bl, h),
                        _ => full,
                    },
                    Op::UDiv => if bl > 0 { (al / bh, ah / bl) } else { full },
                    Op::URem => if bl > 0 { (0, ah.min(bh - 1)) } else { (0, ah) },
                    Op::And => (0, ah.min(bh)),
                    Op::Or => (al.max(bl), up(ah | bh)),
                    Op::Xor => (0, up(ah | bh)),
                    Op::LShr => (0, ah),
                    _ => full,
                }
            }
            Node::Not(a) => {
                let (l, h) = iv(a);
                (ones(w) - h, ones(w) - l)
            }
            Node::Ite(_, a, b) => {
                let ((al, ah), (bl, bh)) = (iv(a), iv(b));
                (al.min(bl), ah.max(bh))
            }
            Node::Cmp(..) => (0, 1),
            Node::Tab(t, i) => {
                let t = &self.tables[*t as usize];
                let (l, h) = iv(i);
                let l = l.min(t.len() as u128 - 1) as usize;
                let h = h.min(t.len() as u128 - 1) as usize;
                let s = &t[l..=h];
                (*s.iter().min().unwrap(), *s.iter().max().unwrap())
            }
            Node::Fp(..) => full,
        }
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.mk(Node::Const(mask(v, w)), w)
    }
    pub fn var(&mut self, name: String, w: u32) -> E {
        let id = self.var_names.len() as u32;
        self.var_names.push(name);
        let e = self.mk(Node::Var(id), w);
        self.var_nodes.push(e);
        e
    }
    pub fn var_node(&self, v: u32) -> (E, u32) {
        let e = self.var_nodes[v as usize];
        (e, self.width(e))
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize] {
            Node::Const(v) => Some(v),
            _ => None,
        }
    }
    fn n(&self, e: E) -> Node {
        self.nodes[e as usize].clone()
    }

    // ------------------------------------------------------------ structure

    pub fn ext(&mut self, e: E, lo: u32, w: u32) -> E {
        let ew = self.width(e);
        debug_assert!(lo + w <= ew);
        if lo == 0 && w == ew {
            return e;
        }
        match self.n(e) {
            Node::Const(v) => self.c(v >> lo, w),
            Node::Ext(b, l) => self.ext(b, l + lo, w),
            Node::Cat(ps) => {
                let mut out = vec![];
                let mut o = 0;
                for p in ps.iter() {
                    let pw = self.width(*p);
                    let s = lo.max(o);
                    let t = (lo + w).min(o + pw);
                    if s < t {
                        let x = self.ext(*p, s - o, t - s);
                        out.push(x);
                    }
                    o += pw;
                }
                self.cat(out)
            }
            Node::Not(a) => {
                let x = self.ext(a, lo, w);
                self.not(x)
            }
            Node::Ite(c, a, b) => {
                let x = self.ext(a, lo, w);
                let y = self.ext(b, lo, w);
                self.ite(c, x, y)
            }
            _ => {
                if self.hi(e) >> lo == 0 {
                    return self.c(0, w);
                }
                self.mk(Node::Ext(e, lo), w)
            }
        }
    }
    fn try_merge(&mut self, a: E, b: E) -> Option<E> {
        // a below b
        let (wa, wb) = (self.width(a), self.width(b));
        let full = |s: &Self, e: E| -> (E, u32) {
            match s.nodes[e as usize] {
                Node::Ext(x, l) => (x, l),
                _ => (e, 0),
            }
        };
        match (&self.nodes[a as usize], &self.nodes[b as usize]) {
            (Node::Const(x), Node::Const(y)) => {
                let v = x | (y << wa);
                Some(self.c(v, wa + wb))
            }
            (Node::Ite(c1, a1, b1), Node::Ite(c2, a2, b2)) if c1 == c2 && wa > 1 && wb > 1 => {
                let (c, a1, b1, a2, b2) = (*c1, *a1, *b1, *a2, *b2);
                let x = self.cat(vec![a1, a2]);
                let y = self.cat(vec![b1, b2]);
                // avoid endless re-normalisation: build the node directly
                Some(self.mk(Node::Ite(c, x, y), wa + wb))
            }
            (Node::Not(x), Node::Not(y)) if wa > 1 || wb > 1 || true => {
                let (x, y) = (*x, *y);
                let m = self.try_merge(x, y)?;
                Some(self.mk(Node::Not(m), wa + wb))
            }
            _ => {
                let (ba, la) = full(self, a);
                let (bb, lb) = full(self, b);
                if ba == bb && la + wa == lb && a != ba && b != bb {
                    Some(self.ext(ba, la, wa + wb))
                } else {
                    None
                }
            }
        }
    }
    /// least significant first
    pub fn cat(&mut self, parts: Vec<E>) -> E {
        let mut out: Vec<E> = Vec::with_capacity(parts.len());
        let mut stack: Vec<E> = parts.into_iter().rev().collect();
        while let Some(p) = stack.pop() {
            if let Node::Cat(ps) = &self.nodes[p as usize] {
                for q in ps.iter().rev() {
                    stack.push(*q);
                }
                continue;
            }
            if let Some(&l) = out.last() {
                if let Some(m) = self.try_merge(l, p) {
                    out.pop();
                    if let Node::Cat(ps) = &self.nodes[m as usize] {
                        out.extend(ps.iter());
                    } else {
                        out.push(m);
                    }
                    continue;
                }
            }
            out.push(p);
        }
        if out.len() == 1 {
            return out[0];
        }
        let w = out.iter().map(|p| self.width(*p)).sum();
        self.mk(Node::Cat(out.into_boxed_slice()), w)
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let ew = self.width(e);
        if w == ew {
            return e;
        }
        let z = self.c(0, w - ew);
        self.cat(vec![e, z])
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let ew = self.width(e);
        if w == ew {
            return e;
        }
        let t = self.ext(e, ew - 1, 1);
        let o = self.c(u128::MAX, w - ew);
        let z = self.c(0, w - ew);
        let s = self.ite(t, o, z);
        self.cat(vec![e, s])
    }
    pub fn trunc(&mut self, e: E, w: u32) -> E {
        self.ext(e, 0, w)
    }
    fn bounds(&self, e: E, out: &mut Vec<u32>) {
        match &self.nodes[e as usize] {
            Node::Cat(ps) => {
                let mut o = 0;
                for p in ps.iter() {
                    o += self.width(*p);
                    out.push(o);
                }
            }
            _ => out.push(self.width(e)),
        }
    }
    fn const_runs(v: u128, w: u32, out: &mut Vec<u32>) {
        for i in 1..w {
            if (v >> i) & 1 != (v >> (i - 1)) & 1 {
                out.push(i);
            }
        }
        out.push(w);
    }

    // ------------------------------------------------------------ bitwise

    pub fn not(&mut self, a: E) -> E {
        let w = self.width(a);
        match self.n(a) {
            Node::Const(v) => self.c(!v, w),
            Node::Not(x) => x,
            Node::Cat(ps) => {
                let mut v = vec![];
                for p in ps.iter() {
                    let x = self.not(*p);
                    v.push(x);
                }
                self.cat(v)
            }
            Node::Ite(c, x, y) if self.as_const(x).is_some() || self.as_const(y).is_some() => {
                let x = self.not(x);
                let y = self.not(y);
                self.ite(c, x, y)
            }
            _ => self.mk(Node::Not(a), w),
        }
    }
    pub fn bitw(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c(bin_const(op, x, y, w), w);
        }
        if a == b {
            return match op {
                Op::Xor => self.c(0, w),
                _ => a,
            };
        }
        if ca.is_some() {
            return self.bitw(op, b, a);
        }
        if let Some(k) = cb {
            if k == 0 {
                return match op { Op::And => b, _ => a };
            }
            if k == ones(w) {
                return match op { Op::And => a, Op::Or => b, _ => self.not(a) };
            }
        }
        let is_cat = |s: &Self, e: E| matches!(s.nodes[e as usize], Node::Cat(_));
        if is_cat(self, a) || is_cat(self, b) || cb.is_some() {
            let mut bs = vec![];
            self.bounds(a, &mut bs);
            match cb {
                Some(k) => Self::const_runs(k, w, &mut bs),
                None => {
                    self.bounds(b, &mut bs);
                    // constant parts inside b or a: also split into runs
                    for e in [a, b] {
                        if let Node::Cat(ps) = self.n(e) {
                            let mut o = 0;
                            for p in ps.iter() {
                                if let Some(v) = self.as_const(*p) {
                                    let mut r = vec![];
                                    Self::const_runs(v, self.width(*p), &mut r);
                                    bs.extend(r.into_iter().map(|x| x + o));
                                }
                                o += self.width(*p);
                            }
                        }
                    }
                }
            }
            if cb.is_some() {
                if let Node::Cat(ps) = self.n(a) {
                    let mut o = 0;
                    for p in ps.iter() {
                        if let Some(v) = self.as_const(*p) {
                            let mut r = vec![];
                            Self::const_runs(v, self.width(*p), &mut r);
                            bs.extend(r.into_iter().map(|x| x + o));
                        }
                        o += self.width(*p);
                    }
                }
            }
            bs.sort();
            bs.dedup();
            let mut o = 0;
            let mut out = vec![];
            for e in bs {
                let x = self.ext(a, o, e - o);
                let y = self.ext(b, o, e - o);
                let r = self.bitw_seg(op, x, y);
                out.push(r);
                o = e;
            }
            return self.cat(out);
        }
        self.bitw_seg(op, a, b)
    }
    fn bitw_seg(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.width(a);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c(bin_const(op, x, y, w), w);
        }
        if ca.is_some() {
            return self.bitw_seg(op, b, a);
        }
        if let Some(k) = cb {
            if k == 0 {
                return match op { Op::And => b, _ => a };
            }
            if k == ones(w) {
                return match op { Op::And => a, Op::Or => b, _ => self.not(a) };
            }
        }
        if a == b {
            return match op { Op::Xor => self.c(0, w), _ => a };
        }
        // complement
        let na = match self.nodes[a as usize] { Node::Not(x) => Some(x), _ => None };
        let nb = match self.nodes[b as usize] { Node::Not(x) => Some(x), _ => None };
        if na == Some(b) || nb == Some(a) {
            return match op { Op::And => self.c(0, w), _ => self.c(u128::MAX, w) };
        }
        if op == Op::Xor {
            match (na, nb) {
                (Some(x), Some(y)) => return self.bitw(Op::Xor, x, y),
                (Some(x), None) => {
                    let r = self.bitw(Op::Xor, x, b);
                    return self.not(r);
                }
                (None, Some(y)) => {
                    let r = self.bitw(Op::Xor, a, y);
                    return self.not(r);
                }
                _ => {}
            }
            // x ^ (x ^ y) = y
            for (p, q) in [(a, b), (b, a)] {
                if let Node::Bin(Op::Xor, x, y) = self.nodes[q as usize] {
                    if x == p { return y; }
                    if y == p { return x; }
                }
            }
        } else {
            // absorption: a & (a & b), a & (a | b)
            for (p, q) in [(a, b), (b, a)] {
                if let Node::Bin(o2, x, y) = self.nodes[q as usize] {
                    if x == p || y == p {
                        if o2 == op { return q; }
                        if matches!(o2, Op::And | Op::Or) { return p; }
                    }
                    // a & (~a & b) = 0 etc. for booleans
                    if w == 1 && o2 == op {
                        let np = self.not(p);
                        if x == np || y == np {
                            return match op { Op::And => self.c(0, 1), _ => self.c(1, 1) };
                        }
                    }
                }
            }
        }
        let (x, y) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Node::Bin(op, x, y), w)
    }
    pub fn and(&mut self, a: E, b: E) -> E { self.bitw(Op::And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bitw(Op::Or, a, b) }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        debug_assert_eq!(self.width(c), 1);
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Node::Not(x) = self.nodes[c as usize] {
            return self.ite(x, b, a);
        }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        // nested ite with the same condition
        let a = match self.nodes[a as usize] { Node::Ite(c2, x, _) if c2 == c => x, _ => a };
        let b = match self.nodes[b as usize] { Node::Ite(c2, _, y) if c2 == c => y, _ => b };
        if a == b {
            return a;
        }
        let is_cat = |s: &Self, e: E| matches!(s.nodes[e as usize], Node::Cat(_));
        if is_cat(self, a) || is_cat(self, b) {
            let mut bs = vec![];
            self.bounds(a, &mut bs);
            self.bounds(b, &mut bs);
            bs.sort();
            bs.dedup();
            if bs.len() > 1 {
                // merge adjacent segments that differ back into one
                let mut o = 0;
                let mut out = vec![];
                let mut pend: Option<(Vec<E>, Vec<E>)> = None;
                for e in bs {
                    let x = self.ext(a, o, e - o);
                    let y = self.ext(b, o, e - o);
                    o = e;
                    if x == y {
                        if let Some((p, q)) = pend.take() {
                            let p = self.cat(p);
                            let q = self.cat(q);
                            let r = self.ite_node(c, p, q);
                            out.push(r);
                        }
                        out.push(x);
                    } else {
                        let pp = pend.get_or_insert((vec![], vec![]));
                        pp.0.push(x);
                        pp.1.push(y);
                    }
                }
                if let Some((p, q)) = pend.take() {
                    let p = self.cat(p);
                    let q = self.cat(q);
                    let r = self.ite_node(c, p, q);
                    out.push(r);
                }
                return self.cat(out);
            }
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            // trim common high and low bits
            let d = x ^ y;
            let lo = d.trailing_zeros();
            let hi = 128 - d.leading_zeros();
            if lo > 0 || hi < w {
                let mut parts = vec![];
                if lo > 0 {
                    let p = self.c(x, lo);
                    parts.push(p);
                }
                let p = self.c(x >> lo, hi - lo);
                let q = self.c(y >> lo, hi - lo);
                let m = self.ite(c, p, q);
                parts.push(m);
                if hi < w {
                    let p = self.c(x >> hi, w - hi);
                    parts.push(p);
                }
                return self.cat(parts);
            }
        }
        self.ite_node(c, a, b)
    }
    fn ite_node(&mut self, c: E, a: E, b: E) -> E {
        let w = self.width(a);
        if w == 1 {
            if self.as_const(a).is_some() || self.as_const(b).is_some() {
                return self.ite(c, a, b);
            }
        }
        self.mk(Node::Ite(c, a, b), w)
    }

    // ------------------------------------------------------------ arithmetic

    /// bits known to be zero
    fn zeros(&self, e: E) -> u128 {
        let w = self.width(e);
        match &self.nodes[e as usize] {
            Node::Const(v) => mask(!v, w),
            Node::Cat(ps) => {
                let mut o = 0;
                let mut z = 0;
                for p in ps.iter() {
                    z |= self.zeros(*p) << o;
                    o += self.width(*p);
                }
                z
            }
            _ => {
                let h = self.hi(e);
                mask(!up(h), w)
            }
        }
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b), "{op:?}");
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.c(bin_const(op, x, y, w), w);
        }
        let cb = self.as_const(b);
        match op {
            Op::And | Op::Or | Op::Xor => self.bitw(op, a, b),
            Op::Add => {
                if self.as_const(a).is_some() {
                    return self.bin(Op::Add, b, a);
                }
                if w == 1 {
                    return self.bitw(Op::Xor, a, b);
                }
                if cb == Some(0) {
                    return a;
                }
                if self.zeros(a) | self.zeros(b) == ones(w) {
                    return self.bitw(Op::Or, a, b);
                }
                if let Some(k) = cb {
                    match self.n(a) {
                        Node::Bin(Op::Add, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                let s = self.c(k.wrapping_add(k2), w);
                                return self.bin(Op::Add, x, s);
                            }
                        }
                        Node::Ite(c, x, y) if self.as_const(x).is_some() && self.as_const(y).is_some() => {
                            let x = self.bin(Op::Add, x, b);
                            let y = self.bin(Op::Add, y, b);
                            return self.ite(c, x, y);
                        }
                        _ => {}
                    }
                }
                // narrowing
                if let Some(h) = self.hi(a).checked_add(self.hi(b)) {
                    let k = 128 - h.leading_zeros();
                    if k < w && k > 0 {
                        let x = self.ext(a, 0, k);
                        let y = self.ext(b, 0, k);
                        let r = self.bin(Op::Add, x, y);
                        return self.zext(r, w);
                    }
                }
                let (x, y) = if cb.is_some() || a <= b { (a, b) } else { (b, a) };
                self.mk(Node::Bin(Op::Add, x, y), w)
            }
            Op::Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(k) = cb {
                    let nk = self.c(k.wrapping_neg(), w);
                    // keep x - k as an addition of -k
                    return self.bin(Op::Add, a, nk);
                }
                if w == 1 {
                    return self.bitw(Op::Xor, a, b);
                }
                if let Node::Bin(Op::Add, x, y) = self.n(a) {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                }
                self.mk(Node::Bin(Op::Sub, a, b), w)
            }
            Op::Mul => {
                if self.as_const(a).is_some() {
                    return self.bin(Op::Mul, b, a);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
                if let Some(h) = self.hi(a).checked_mul(self.hi(b)) {
                    let k = 128 - h.leading_zeros();
                    if k < w && k > 0 {
                        let x = self.ext(a, 0, k);
                        let y = self.ext(b, 0, k);
                        let r = self.bin(Op::Mul, x, y);
                        return self.zext(r, w);
                    }
                }
                let (x, y) = if cb.is_some() || a <= b { (a, b) } else { (b, a) };
                self.mk(Node::Bin(Op::Mul, x, y), w)
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128) as u32;
                    return match op {
                        Op::Shl => {
                            if k >= w {
                                return self.c(0, w);
                            }
                            let z = self.c(0, k);
                            let x = self.ext(a, 0, w - k);
                            self.cat(vec![z, x])
                        }
                        Op::LShr => {
                            if k >= w {
                                return self.c(0, w);
                            }
                            let x = self.ext(a, k, w - k);
                            self.zext(x, w)
                        }
                        _ => {
                            let k = k.min(w - 1);
                            let x = self.ext(a, k, w - k);
                            self.sext(x, w)
                        }
                    };
                }
                if self.as_const(a) == Some(0) {
                    return a;
                }
                self.mk(Node::Bin(op, a, b), w)
            }
            Op::UDiv => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                    if k != 0 && self.hi(a) < k {
                        return self.c(0, w);
                    }
                }
                if let Some(r) = self.narrow_div(op, a, b) {
                    return r;
                }
                self.mk(Node::Bin(op, a, b), w)
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let m = self.c(k - 1, w);
                        return self.and(a, m);
                    }
                    if k != 0 && self.hi(a) < k {
                        return a;
                    }
                }
                if let Some(r) = self.narrow_div(op, a, b) {
                    return r;
                }
                self.mk(Node::Bin(op, a, b), w)
            }
            Op::SDiv | Op::SRem => {
                let top = 1u128 << (w - 1);
                if self.hi(a) < top && self.hi(b) < top {
                    return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
                }
                self.mk(Node::Bin(op, a, b), w)
            }
        }
    }
    fn narrow_div(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.width(a);
        if self.lo(b) == 0 {
            return None;
        }
        let h = self.hi(a).max(self.hi(b));
        let k = 128 - h.leading_zeros();
        if k < w && k > 0 {
            let x = self.ext(a, 0, k);
            let y = self.ext(b, 0, k);
            let r = self.bin(op, x, y);
            Some(self.zext(r, w))
        } else {
            None
        }
    }

    // ------------------------------------------------------------ comparisons

    pub fn eq(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if a == b {
            return self.c(1, 1);
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if ca.is_some() && cb.is_some() {
            return self.c(0, 1);
        }
        if ca.is_some() {
            return self.eq(b, a);
        }
        if self.hi(a) < self.lo(b) || self.hi(b) < self.lo(a) {
            return self.c(0, 1);
        }
        if w == 1 {
            return match cb {
                Some(1) => a,
                Some(_) => self.not(a),
                None => {
                    let x = self.bitw(Op::Xor, a, b);
                    self.not(x)
                }
            };
        }
        let is_cat = |s: &Self, e: E| matches!(s.nodes[e as usize], Node::Cat(_));
        if is_cat(self, a) || is_cat(self, b) {
            let mut bs = vec![];
            self.bounds(a, &mut bs);
            self.bounds(b, &mut bs);
            bs.sort();
            bs.dedup();
            let mut o = 0;
            let mut segs = vec![];
            for e in bs {
                let x = self.ext(a, o, e - o);
                let y = self.ext(b, o, e - o);
                if let (Some(p), Some(q)) = (self.as_const(x), self.as_const(y)) {
                    if p != q {
                        return self.c(0, 1);
                    }
                }
                segs.push((x, y));
                o = e;
            }
            let mut r = self.c(1, 1);
            for (x, y) in segs {
                let s = self.eq(x, y);
                r = self.and(r, s);
                if self.as_const(r) == Some(0) {
                    return r;
                }
            }
            return r;
        }
        if let Some(k) = cb {
            match self.n(a) {
                Node::Bin(Op::Add, x, y) => {
                    if let Some(k2) = self.as_const(y) {
                        let d = self.c(k.wrapping_sub(k2), w);
                        return self.eq(x, d);
                    }
                }
                Node::Bin(Op::Sub, x, y) if k == 0 => return self.eq(x, y),
                Node::Bin(Op::Xor, x, y) if k == 0 => return self.eq(x, y),
                Node::Not(x) => {
                    let d = self.c(!k, w);
                    return self.eq(x, d);
                }
                Node::Ite(c, x, y) => {
                    let p = self.eq(x, b);
                    let q = self.eq(y, b);
                    if self.as_const(p).is_some() || self.as_const(q).is_some() {
                        return self.ite(c, p, q);
                    }
                }
                _ => {}
            }
        } else if let (Node::Bin(Op::Add, x, y), Node::Bin(Op::Add, x2, y2)) = (self.n(a), self.n(b)) {
            if y == y2 {
                return self.eq(x, x2);
            }
            if x == x2 {
                return self.eq(y, y2);
            }
        }
        let (x, y) = if cb.is_some() || a <= b { (a, b) } else { (b, a) };
        self.mk(Node::Cmp(Cmp::Eq, x, y), 1)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if a == b || self.lo(a) >= self.hi(b) {
            return self.c(0, 1);
        }
        if self.hi(a) < self.lo(b) {
            return self.c(1, 1);
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        // narrow
        let h = self.hi(a).max(self.hi(b));
        let k = (128 - h.leading_zeros()).max(1);
        if k < w {
            let x = self.ext(a, 0, k);
            let y = self.ext(b, 0, k);
            return self.ult(x, y);
        }
        if self.as_const(b) == Some(1) {
            let z = self.c(0, w);
            return self.eq(a, z);
        }
        if self.as_const(a) == Some(0) {
            let e = self.eq(b, a);
            return self.not(e);
        }
        if let Some(k) = self.as_const(b) {
            match self.n(a) {
                Node::Cat(ps) => {
                    let w0 = self.width(ps[0]);
                    if mask(k, w0) == 0 {
                        let x = self.ext(a, w0, w - w0);
                        let y = self.c(k >> w0, w - w0);
                        return self.ult(x, y);
                    }
                }
                Node::Ite(c, x, y) => {
                    let p = self.ult(x, b);
                    let q = self.ult(y, b);
                    if self.as_const(p).is_some() || self.as_const(q).is_some() {
                        return self.ite(c, p, q);
                    }
                }
                _ => {}
            }
        }
        if self.as_const(a).is_some() {
            if let Node::Ite(c, x, y) = self.n(b) {
                let p = self.ult(a, x);
                let q = self.ult(a, y);
                if self.as_const(p).is_some() || self.as_const(q).is_some() {
                    return self.ite(c, p, q);
                }
            }
        }
        self.mk(Node::Cmp(Cmp::Ult, a, b), 1)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.width(a);
        if a == b {
            return self.c(0, 1);
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.c((sx(x, w) < sx(y, w)) as u128, 1);
        }
        let top = 1u128 << (w - 1);
        if self.hi(a) < top && self.hi(b) < top {
            return self.ult(a, b);
        }
        if self.as_const(b) == Some(0) {
            return self.ext(a, w - 1, 1);
        }
        if self.as_const(a) == Some(ones(w)) {
            let t = self.ext(b, w - 1, 1);
            return self.not(t);
        }
        // both tops known?
        let ta = self.ext(a, w - 1, 1);
        let tb = self.ext(b, w - 1, 1);
        match (self.as_const(ta), self.as_const(tb)) {
            (Some(1), Some(0)) => return self.c(1, 1),
            (Some(0), Some(1)) => return self.c(0, 1),
            (Some(x), Some(y)) if x == y => return self.ult(a, b),
            _ => {}
        }
        self.mk(Node::Cmp(Cmp::Slt, a, b), 1)
    }
    pub fn tab(&mut self, t: Vec<u128>, w: u32, idx: E) -> E {
        if let Some(i) = self.as_const(idx) {
            let v = t[(i as usize).min(t.len() - 1)];
            return self.c(v, w);
        }
        if t.iter().all(|x| *x == t[0]) {
            return self.c(t[0], w);
        }
        // identity table
        if t.iter().enumerate().all(|(i, x)| *x == i as u128) {
            let iw = self.width(idx);
            if iw <= w {
                return self.zext(idx, w);
            }
        }
        let rc = Rc::new(t);
        let id = match self.tmap.get(&rc) {
            Some(i) => *i,
            None => {
                let i = self.tables.len() as u32;
                self.tables.push(rc.clone());
                self.tmap.insert(rc, i);
                i
            }
        };
        self.mk(Node::Tab(id, idx), w)
    }
    /// the float of `w` bits equal to the unsigned integer `e` < 2^24 (always exact)
    pub fn from_small(&mut self, e: E, w: u32) -> E {
        if self.as_const(e).is_some() {
            return self.fp(FOp::FromU, e, e, w);
        }
        let mut m = if self.width(e) < 24 { self.zext(e, 24) } else { self.trunc(e, 24) };
        let z24 = self.c(0, 24);
        let zero = self.eq(m, z24);
        let (eb, fb, bias) = if w == 64 { (11, 52, 1023) } else { (8, 23, 127) };
        let mut ex = self.c(bias + 23, eb);
        for k in [16u32, 8, 4, 2, 1] {
            let top = self.ext(m, 24 - k, k);
            let z = self.c(0, k);
            let small = self.eq(top, z);
            let kk = self.c(k as u128, 24);
            let sh = self.bin(Op::Shl, m, kk);
            m = self.ite(small, sh, m);
            let ke = self.c(k as u128, eb);
            let ns = self.bin(Op::Sub, ex, ke);
            ex = self.ite(small, ns, ex);
        }
        let z = self.c(0, eb);
        let ex = self.ite(zero, z, ex);
        let frac = self.ext(m, 0, 23);
        let low = self.c(0, fb - 23);
        let sign = self.c(0, 1);
        let parts = if fb == 23 { vec![frac, ex, sign] } else { vec![low, frac, ex, sign] };
        self.cat(parts)
    }
    pub fn fp(&mut self, op: FOp, a: E, b: E, w: u32) -> E {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let wa = self.width(a);
            return self.c(fp_const(op, x, y, wa, w), w);
        }
        self.mk(Node::Fp(op, a, b), w)
    }

    // ------------------------------------------------------------ evaluation

    pub fn eval(&mut self, e: E, m: &Model) -> u128 {
        if let Node::Const(v) = self.nodes[e as usize] {
            return v;
        }
        if self.ev_val.len() < self.nodes.len() {
            self.ev_val.resize(self.nodes.len() + 1024, 0);
            self.ev_stamp.resize(self.nodes.len() + 1024, 0);
        }
        self.ev_model = m.id;
        self.eval_rec(e, m)
    }
    fn eval_rec(&mut self, root: E, m: &Model) -> u128 {
        let mut st = vec![root];
        let id = m.id;
        while let Some(&e) = st.last() {
            if self.ev_stamp[e as usize] == id {
                st.pop();
                continue;
            }
            let w = self.w[e as usize];
            macro_rules! need { ($($x:expr),*) => {{ let mut ok = true; $( if self.ev_stamp[*$x as usize] != id { st.push(*$x); ok = false; } )* if !ok { continue; } }} }
            let ev = |s: &Self, x: E| s.ev_val[x as usize];
            // borrow trouble: clone small nodes
            let v = match &self.nodes[e as usize] {
                Node::Const(v) => *v,
                Node::Var(i) => mask(m.v.get(i).copied().unwrap_or(0), w),
                Node::Ext(a, lo) => {
                    need!(a);
                    mask(ev(self, *a) >> lo, w)
                }
                Node::Cat(ps) => {
                    let mut ok = true;
                    for p in ps.iter() {
                        if self.ev_stamp[*p as usize] != id {
                            st.push(*p);
                            ok = false;
                        }
                    }
                    if !ok {
                        continue;
                    }
                    let mut o = 0;
                    let mut v = 0;
                    for p in ps.iter() {
                        v |= ev(self, *p) << o;
                        o += self.w[*p as usize];
                    }
                    v
                }
                Node::Bin(op, a, b) => {
                    need!(a, b);
                    bin_const(*op, ev(self, *a), ev(self, *b), w)
                }
                Node::Not(a) => {
                    need!(a);
                    mask(!ev(self, *a), w)
                }
                Node::Ite(c, a, b) => {
                    need!(c, a, b);
                    if ev(self, *c) == 1 { ev(self, *a) } else { ev(self, *b) }
                }
                Node::Cmp(op, a, b) => {
                    need!(a, b);
                    let (x, y) = (ev(self, *a), ev(self, *b));
                    let aw = self.w[*a as usize];
                    (match op {
                        Cmp::Eq => x == y,
                        Cmp::Ult => x < y,
                        Cmp::Slt => sx(x, aw) < sx(y, aw),
                    }) as u128
                }
                Node::Tab(t, i) => {
                    need!(i);
                    let t = &self.tables[*t as usize];
                    t[(ev(self, *i) as usize).min(t.len() - 1)]
                }
                Node::Fp(op, a, b) => {
                    need!(a, b);
                    fp_const(*op, ev(self, *a), ev(self, *b), self.w[*a as usize], w)
                }
            };
            self.ev_val[e as usize] = v;
            self.ev_stamp[e as usize] = id;
            st.pop();
        }
        self.ev_val[root as usize]
    }

    /// the bits of variables that an expression mentions
    pub fn bits(&mut self, e: E) -> Rc<Vec<(u32, u128)>> {
        if let Some(s) = self.bsup.get(&e) {
            return s.clone();
        }
        let w = self.width(e);
        let one = |v: u32, m: u128| Rc::new(vec![(v, m)]);
        let full = |w: u32| if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
        let kids: Vec<E> = match &self.nodes[e as usize] {
            Node::Const(_) => vec![],
            Node::Var(i) => {
                let r = one(*i, full(w));
                self.bsup.insert(e, r.clone());
                return r;
            }
            Node::Ext(a, lo) => match self.nodes[*a as usize] {
                Node::Var(i) => {
                    let r = one(i, full(w) << lo);
                    self.bsup.insert(e, r.clone());
                    return r;
                }
                _ => vec![*a],
            },
            Node::Not(a) | Node::Tab(_, a) => vec![*a],
            Node::Cat(p) => p.to_vec(),
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Fp(_, a, b) => vec![*a, *b],
            Node::Ite(a, b, c) => vec![*a, *b, *c],
        };
        let mut all: std::collections::BTreeMap<u32, u128> = Default::default();
        for k in kids {
            for (v, m) in self.bits(k).iter() {
                *all.entry(*v).or_insert(0) |= m;
            }
        }
        let r = Rc::new(all.into_iter().collect::<Vec<_>>());
        self.bsup.insert(e, r.clone());
        r
    }
    /// variables an expression depends on (sorted)
    pub fn support(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(s) = self.sup.get(&e) {
            return s.clone();
        }
        let kids: Vec<E> = match &self.nodes[e as usize] {
            Node::Const(_) => vec![],
            Node::Var(i) => {
                let r = Rc::new(vec![*i]);
                self.sup.insert(e, r.clone());
                return r;
            }
            Node::Ext(a, _) | Node::Not(a) | Node::Tab(_, a) => vec![*a],
            Node::Cat(p) => p.to_vec(),
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Fp(_, a, b) => vec![*a, *b],
            Node::Ite(a, b, c) => vec![*a, *b, *c],
        };
        // depth is bounded by the expression depth; grow the stack if needed
        let mut all: Vec<u32> = vec![];
        for k in kids {
            let s = self.support(k);
            if all.is_empty() {
                all = s.to_vec();
            } else if !s.is_empty() {
                all.extend(s.iter());
            }
        }
        all.sort();
        all.dedup();
        let r = Rc::new(all);
        self.sup.insert(e, r.clone());
        r
    }
}

/// smallest 2^k - 1 >= v
pub fn up(v: u128) -> u128 {
    if v == 0 { 0 } else { u128::MAX >> v.leading_zeros() }
}
