//! Symbolic interpreter.

use crate::expr::*;
use crate::ll::{self, BinOp, Callee, CastOp, Const, Func, Gep, Ins, Module, Opnd, Pred, Ty};
use crate::solver::{Res, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Debug, Clone)]
pub enum Val {
    U,
    C(u64),
    E(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// 0 = concrete byte
    pub sym: Option<Vec<E>>,
    pub writable: bool,
}

impl Obj {
    fn new(n: usize) -> Self {
        Obj { data: vec![0; n], sym: None, writable: true }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub obj: u32,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
    pub rw: u32,
}

#[derive(Clone)]
pub enum Input {
    Sym(E, String),
    Choice(u64, String),
}

pub struct State {
    pub objs: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub frames: Vec<Frame>,
    pub pc: Vec<E>,
    pub known: Rc<HashMap<E, u64>>,
    /// bits of variables that the path condition fixes: (which, value)
    pub fix: Rc<HashMap<u32, (u128, u128)>>,
    /// bits that constraints other than on single bits mention
    pub cons: Rc<HashMap<u32, u128>>,
    pub fixid: u64,
    pub model: Rc<Model>,
    pub inputs: Vec<Input>,
    pub obs: Vec<Val>,
    pub insns: u64,
    pub forks: u32,
    pub choice_override: Option<(u64, u64)>,
    /// global variables of the process that a call to `sym_process_begin` left
    pub left: Vec<Option<Rc<Obj>>>,
}

impl State {
    fn fork(&self) -> State {
        State {
            objs: self.objs.clone(),
            free: self.free.clone(),
            frames: self.frames.clone(),
            pc: self.pc.clone(),
            known: self.known.clone(),
            fix: self.fix.clone(),
            cons: self.cons.clone(),
            fixid: self.fixid,
            model: self.model.clone(),
            inputs: self.inputs.clone(),
            obs: self.obs.clone(),
            insns: self.insns,
            forks: self.forks + 1,
            choice_override: None,
            left: self.left.clone(),
        }
    }
}

#[derive(Debug, Clone)]
pub enum End {
    Done,
    Assumed,
    Panic(String),
    Assert(String),
    Error(String),
}

/// control flow out of an instruction
enum Flow {
    Next,
    Jumped,
    End(End),
    /// state was pushed for later and this one must be retried or abandoned
    Retry,
}
type X<T> = Result<T, Flow>;

pub struct Cfg {
    pub max_insns: u64,
    pub max_paths: u64,
    pub max_secs: f64,
    pub max_viol: usize,
    pub out: String,
    pub sample_every: u64,
    pub max_alloc: u64,
    pub verbose: bool,
    pub entry: String,
    pub params: Vec<u64>,
    pub deadline: Option<Instant>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub done: u64,
    pub assumed: u64,
    pub panics: u64,
    pub asserts: u64,
    pub errors: u64,
    pub insns: u64,
    pub forks: u64,
    pub free: u64,
    pub asserts_checked: u64,
    pub covers: BTreeMap<String, u64>,
    pub assert_ids: BTreeMap<String, u64>,
    pub error_msgs: BTreeMap<String, u64>,
    pub viol: Vec<(String, String)>, // (kind:id, file)
    pub samples: u64,
    pub dropped: u64,
    /// failures that are not listed as known
    pub hard: u64,
    pub max_inputs: usize,
}

pub struct Engine {
    pub m: Module,
    pub cx: Ctx,
    pub solver: Solver,
    pub cfg: Cfg,
    pub st: Stats,
    pub work: Vec<State>,
    pub cg: Vec<Option<Rc<Obj>>>,
    nglob: u32,
    init_objs: Vec<Option<Rc<Obj>>>,
    gaddr: Vec<u64>,
    pools: Vec<Vec<Val>>,
    kinds: Vec<Kind>,
    pub touched: Vec<bool>,
    model_ctr: u64,
    fix_ctr: u64,
    smemo: HashMap<(u64, E), E>,
    viol_seen: HashMap<String, u32>,
    pub t0: Instant,
    pub bfs: bool,
    regpool: Vec<Vec<Val>>,
    os: HashMap<String, u32>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Normal,
    Panic,
    HashKeys,
}

const FUNC_TAG: u64 = 0xF000_0000_0000_0000;
fn oid(addr: u64) -> u32 {
    (addr >> 32) as u32
}
fn base(id: u32) -> u64 {
    (id as u64) << 32
}

impl Engine {
    pub fn new(m: Module, cfg: Cfg, solver: Solver) -> Result<Self, String> {
        let mut e = Engine {
            cx: Ctx::new(),
            solver,
            cfg,
            st: Stats::default(),
            work: vec![],
            cg: vec![],
            nglob: 0,
            init_objs: vec![],
            gaddr: vec![],
            pools: vec![],
            kinds: vec![],
            touched: vec![false; m.funcs.len()],
            model_ctr: 1,
            fix_ctr: 1,
            smemo: HashMap::new(),
            viol_seen: HashMap::new(),
            t0: Instant::now(),
            bfs: false,
            regpool: vec![],
            os: HashMap::new(),
            m,
        };
        e.init()?;
        Ok(e)
    }

    fn init(&mut self) -> Result<(), String> {
        for f in &self.m.funcs {
            let n = &f.name;
            let k = if n.contains("9panicking9panic_fmt")
                || n.contains("9panicking18panic_nounwind_fmt")
                || n.contains("17rust_begin_unwind")
                || n.contains("26panic_nounwind_nobacktrace")
                || n.contains("19panic_cannot_unwind")
            {
                Kind::Panic
            } else if n.contains("19hashmap_random_keys") {
                Kind::HashKeys
            } else {
                Kind::Normal
            };
            self.kinds.push(k);
        }
        // the harness's model of the operating system
        for (n, f) in &self.m.fidx {
            if let Some(n) = n.strip_prefix("os_") {
                self.os.insert(n.to_string(), *f);
            }
        }
        // constant globals first, then mutable ones: ids 1..
        let n = self.m.globals.len();
        self.gaddr = vec![0; n];
        let mut id = 1u32;
        let mut corder = vec![];
        let mut morder = vec![];
        for i in 0..n {
            if self.m.globals[i].constant { corder.push(i) } else { morder.push(i) }
        }
        for &i in corder.iter().chain(morder.iter()) {
            self.gaddr[i] = base(id);
            id += 1;
        }
        self.nglob = corder.len() as u32 + 1;
        self.cg = vec![None; self.nglob as usize];
        for (k, &i) in corder.iter().enumerate() {
            let mut o = self.mkglobal(i)?;
            o.writable = false;
            self.cg[k + 1] = Some(Rc::new(o));
        }
        for &i in &morder {
            let o = self.mkglobal(i)?;
            self.init_objs.push(Some(Rc::new(o)));
        }
        // constant pools
        for fi in 0..self.m.funcs.len() {
            let pool = self.m.funcs[fi].pool.clone();
            let mut v = Vec::with_capacity(pool.len());
            for c in &pool {
                v.push(self.constval(c)?);
            }
            self.pools.push(v);
        }
        Ok(())
    }
    fn mkglobal(&mut self, i: usize) -> Result<Obj, String> {
        let g = self.m.globals[i].clone();
        let mut o = Obj::new(g.ty.size() as usize);
        if let Some(c) = &g.init {
            self.fill(&mut o.data, 0, &g.ty, c)?;
        }
        Ok(o)
    }
    fn symaddr(&self, n: &str) -> Result<u64, String> {
        if let Some(f) = self.m.fidx.get(n) {
            return Ok(FUNC_TAG | ((*f as u64) << 4));
        }
        if let Some(g) = self.m.gidx.get(n) {
            return Ok(self.gaddr[*g as usize]);
        }
        if let Some(Const::Global(g, o)) = self.m.aliases.get(n) {
            return Ok(self.symaddr(g)?.wrapping_add(*o as u64));
        }
        if let Some(i) = self.m.decls.iter().position(|d| d == n) {
            return Ok(FUNC_TAG | ((self.m.funcs.len() as u64 + i as u64) << 4));
        }
        Err(format!("unknown symbol {n}"))
    }
    fn cint(&self, c: &Const) -> Result<(u128, u32), String> {
        Ok(match c {
            Const::Int(v, w) => (*v, *w),
            Const::Null => (0, 64),
            Const::Global(g, o) => (self.symaddr(g)?.wrapping_add(*o as u64) as u128, 64),
            Const::Undef(t) | Const::Zero(t) => (0, t.bits()),
            Const::Expr(op, a) => {
                let (x, w) = self.cint(&a[0])?;
                let (y, _) = self.cint(&a[1])?;
                if op == "trunc" {
                    return Ok((mask(x, y as u32), y as u32));
                }
                let r = match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "xor" => x ^ y,
                    "mul" => x.wrapping_mul(y),
                    _ => return Err(format!("const expr {op}")),
                };
                (mask(r, w), w)
            }
            _ => return Err("not an int const".into()),
        })
    }
    fn fill(&mut self, d: &mut [u8], off: usize, ty: &Ty, c: &Const) -> Result<(), String> {
        match (ty, c) {
            (_, Const::Zero(_) | Const::Undef(_)) => {}
            (_, Const::Bytes(b)) => d[off..off + b.len()].copy_from_slice(b),
            (Ty::Arr(_, t) | Ty::Vec(_, t), Const::Agg(v, _)) => {
                for (i, x) in v.iter().enumerate() {
                    self.fill(d, off + i * t.size() as usize, t, x)?;
                }
            }
            (Ty::Struct(fs, _), Const::Agg(v, _)) => {
                let (offs, _) = ty.layout();
                for (i, x) in v.iter().enumerate() {
                    self.fill(d, off + offs[i] as usize, &fs[i], x)?;
                }
            }
            _ => {
                let (v, _) = self.cint(c)?;
                let n = ((ty.bits() + 7) / 8) as usize;
                for i in 0..n {
                    d[off + i] = (v >> (8 * i)) as u8;
                }
            }
        }
        Ok(())
    }
    fn constval(&mut self, c: &Const) -> Result<Val, String> {
        Ok(match c {
            Const::Undef(t) | Const::Zero(t) => self.zero(t),
            Const::Agg(v, _) => {
                let mut o = vec![];
                for x in v {
                    o.push(self.constval(x)?);
                }
                Val::A(Rc::new(o))
            }
            Const::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u64)).collect())),
            _ => {
                let (v, w) = self.cint(c)?;
                self.ci(v, w)
            }
        })
    }
    fn zero(&mut self, t: &Ty) -> Val {
        match t {
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let z = self.zero(t);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(fs, _) => {
                let v = fs.iter().map(|f| self.zero(f)).collect();
                Val::A(Rc::new(v))
            }
            Ty::Int(w) if *w > 64 => Val::E(self.cx.c(0, *w)),
            _ => Val::C(0),
        }
    }
    fn ci(&mut self, v: u128, w: u32) -> Val {
        if w <= 64 { Val::C(mask(v, w) as u64) } else { Val::E(self.cx.c(v, w)) }
    }
    fn ve(&mut self, e: E) -> Val {
        if self.cx.width(e) <= 64 {
            if let Some(v) = self.cx.as_const(e) {
                return Val::C(v as u64);
            }
        }
        Val::E(e)
    }
    fn te(&mut self, v: &Val, w: u32) -> X<E> {
        match v {
            Val::C(x) => Ok(self.cx.c(*x as u128, w)),
            Val::E(e) => {
                if self.cx.width(*e) != w {
                    return Err(self.err(format!("width mismatch {} vs {w}", self.cx.width(*e))));
                }
                Ok(*e)
            }
            Val::U => Err(self.err("use of unset register".into())),
            Val::A(_) => Err(self.err("aggregate used as scalar".into())),
        }
    }
    fn err(&self, s: String) -> Flow {
        Flow::End(End::Error(s))
    }

    pub fn initial(&mut self) -> Result<State, String> {
        let f = *self.m.fidx.get(&self.cfg.entry).ok_or(format!("no function {}", self.cfg.entry))?;
        let mut s = State {
            objs: self.init_objs.clone(),
            free: vec![],
            frames: vec![],
            pc: vec![],
            known: Rc::new(HashMap::new()),
            fix: Rc::new(HashMap::new()),
            cons: Rc::new(HashMap::new()),
            fixid: 0,
            model: Rc::new(Model::new(1)),
            inputs: vec![],
            obs: vec![],
            insns: 0,
            forks: 0,
            choice_override: None,
            left: vec![],
        };
        self.model_ctr = 2;
        self.push_frame(&mut s, f, vec![], None, None);
        Ok(s)
    }
    fn push_frame(&mut self, s: &mut State, f: u32, args: Vec<Val>, dst: Option<u32>, normal: Option<u32>) {
        self.touched[f as usize] = true;
        let (nregs, fsz) = {
            let fun = &self.m.funcs[f as usize];
            (fun.nregs as usize, fun.frame_size)
        };
        let mut regs = self.regpool.pop().unwrap_or_default();
        regs.clear();
        regs.resize(nregs, Val::U);
        for (i, a) in args.into_iter().enumerate() {
            if let Some((r, _)) = self.m.funcs[f as usize].params.get(i) {
                regs[*r as usize] = a;
            }
        }
        let obj = if fsz > 0 { self.alloc(s, fsz + 16) } else { 0 };
        s.frames.push(Frame { f, blk: 0, ip: 0, regs, obj, dst, normal, rw: 0 });
    }
    fn alloc(&mut self, s: &mut State, n: u64) -> u32 {
        let o = Some(Rc::new(Obj::new(n as usize)));
        if let Some(i) = s.free.pop() {
            s.objs[(i - self.nglob) as usize] = o;
            i
        } else {
            s.objs.push(o);
            self.nglob + s.objs.len() as u32 - 1
        }
    }
    fn free_obj(&mut self, s: &mut State, id: u32) {
        s.objs[(id - self.nglob) as usize] = None;
        s.free.push(id);
    }
    fn obj<'a>(&'a self, s: &'a State, id: u32) -> Option<&'a Rc<Obj>> {
        if id < self.nglob {
            self.cg.get(id as usize)?.as_ref()
        } else {
            s.objs.get((id - self.nglob) as usize)?.as_ref()
        }
    }
    fn obj_mut<'a>(&self, s: &'a mut State, id: u32) -> Option<&'a mut Obj> {
        if id < self.nglob {
            return None;
        }
        let o = s.objs.get_mut((id - self.nglob) as usize)?.as_mut()?;
        Some(Rc::make_mut(o))
    }

    // ------------------------------------------------------------ solver glue

    fn eval(&mut self, s: &State, e: E) -> u128 {
        let m = s.model.clone();
        self.cx.eval(e, &m)
    }
    fn merged_model(&mut self, s: &State, upd: &[(u32, u128)]) -> Rc<Model> {
        let mut m = Model::new(self.model_ctr);
        self.model_ctr += 1;
        m.v = s.model.v.clone();
        for (k, v) in upd {
            m.v.insert(*k, *v);
        }
        Rc::new(m)
    }
    fn add_pc(&mut self, s: &mut State, e: E) {
        if self.cx.as_const(e).is_some() {
            return;
        }
        // split conjunctions
        if let Node::Bin(Op::And, a, b) = self.cx.nodes[e as usize] {
            if self.cx.width(e) == 1 {
                self.add_pc(s, a);
                self.add_pc(s, b);
                let k = Rc::make_mut(&mut s.known);
                k.insert(e, 1);
                return;
            }
        }
        if s.known.get(&e) == Some(&1) {
            return;
        }
        s.pc.push(e);
        if self.literal(e).is_none() {
            for (x, m) in self.cx.bits(e).iter() {
                *Rc::make_mut(&mut s.cons).entry(*x).or_insert(0) |= m;
            }
        }
        self.learn(s, e, 1);
        let n = self.cx.not(e);
        let eqc = match self.cx.nodes[e as usize] {
            Node::Cmp(Cmp::Eq, x, y) => self.cx.as_const(y).map(|v| (x, v)),
            _ => None,
        };
        let k = Rc::make_mut(&mut s.known);
        k.insert(e, 1);
        k.insert(n, 0);
        if let Some((x, v)) = eqc {
            k.insert(x, v as u64);
        }
    }
    /// `e` with the bits put in that the path condition fixes
    fn simp(&mut self, s: &State, e: E) -> E {
        if s.fix.is_empty() || self.cx.as_const(e).is_some() {
            return e;
        }
        if let Some(r) = self.smemo.get(&(s.fixid, e)) {
            return *r;
        }
        if !self.cx.support(e).iter().any(|v| s.fix.contains_key(v)) {
            return e;
        }
        if self.smemo.len() > 2_000_000 {
            self.smemo.clear();
        }
        let fix = s.fix.clone();
        self.subst(s.fixid, &fix, e)
    }
    fn subst(&mut self, id: u64, fix: &HashMap<u32, (u128, u128)>, e: E) -> E {
        if let Some(r) = self.smemo.get(&(id, e)) {
            return *r;
        }
        if !self.cx.support(e).iter().any(|v| fix.contains_key(v)) {
            return e;
        }
        let w = self.cx.width(e);
        let r = match self.cx.nodes[e as usize].clone() {
            Node::Const(_) => e,
            Node::Var(v) => match fix.get(&v) {
                Some((m, x)) if *m == ones(w) => self.cx.c(*x, w),
                Some((m, x)) => {
                    let (m, x) = (*m, *x);
                    let mut parts = vec![];
                    let mut i = 0;
                    while i < w {
                        let b = m >> i & 1;
                        let mut j = i + 1;
                        while j < w && m >> j & 1 == b {
                            j += 1;
                        }
                        parts.push(if b == 1 { self.cx.c(x >> i, j - i) } else { self.cx.ext(e, i, j - i) });
                        i = j;
                    }
                    self.cx.cat(parts)
                }
                None => e,
            },
            Node::Ext(a, lo) => {
                let a = self.subst(id, fix, a);
                self.cx.ext(a, lo, w)
            }
            Node::Cat(ps) => {
                let v: Vec<E> = ps.iter().map(|p| self.subst(id, fix, *p)).collect();
                self.cx.cat(v)
            }
            Node::Bin(op, a, b) => {
                let (a, b) = (self.subst(id, fix, a), self.subst(id, fix, b));
                self.cx.bin(op, a, b)
            }
            Node::Not(a) => {
                let a = self.subst(id, fix, a);
                self.cx.not(a)
            }
            Node::Ite(c, a, b) => {
                let c = self.subst(id, fix, c);
                match self.cx.as_const(c) {
                    Some(1) => self.subst(id, fix, a),
                    Some(_) => self.subst(id, fix, b),
                    None => {
                        let (a, b) = (self.subst(id, fix, a), self.subst(id, fix, b));
                        self.cx.ite(c, a, b)
                    }
                }
            }
            Node::Cmp(op, a, b) => {
                let (a, b) = (self.subst(id, fix, a), self.subst(id, fix, b));
                match op {
                    Cmp::Eq => self.cx.eq(a, b),
                    Cmp::Ult => self.cx.ult(a, b),
                    Cmp::Slt => self.cx.slt(a, b),
                }
            }
            Node::Tab(t, a) => {
                let a = self.subst(id, fix, a);
                let t = self.cx.tables[t as usize].to_vec();
                self.cx.tab(t, w, a)
            }
            Node::Fp(op, a, b) => {
                let (a, b) = (self.subst(id, fix, a), self.subst(id, fix, b));
                self.cx.fp(op, a, b, w)
            }
        };
        self.smemo.insert((id, e), r);
        r
    }
    /// takes note that `e` equals `v` on this path
    fn learn(&mut self, s: &mut State, e: E, v: u128) {
        let w = self.cx.width(e);
        let v = mask(v, w);
        match self.cx.nodes[e as usize].clone() {
            Node::Var(x) => self.learn_bits(s, x, ones(w), v),
            Node::Ext(a, lo) => {
                if let Node::Var(x) = self.cx.nodes[a as usize] {
                    self.learn_bits(s, x, ones(w) << lo, v << lo)
                }
            }
            Node::Cat(ps) => {
                let mut o = 0;
                for p in ps.iter() {
                    self.learn(s, *p, v >> o);
                    o += self.cx.width(*p);
                }
            }
            Node::Not(a) => self.learn(s, a, !v),
            Node::Bin(Op::And, a, b) if w == 1 && v == 1 => {
                self.learn(s, a, 1);
                self.learn(s, b, 1);
            }
            Node::Bin(Op::Or, a, b) if w == 1 && v == 0 => {
                self.learn(s, a, 0);
                self.learn(s, b, 0);
            }
            Node::Bin(Op::Add, a, b) => {
                if let Some(k) = self.cx.as_const(b) {
                    self.learn(s, a, v.wrapping_sub(k));
                }
            }
            Node::Cmp(Cmp::Eq, a, b) => {
                if let Some(k) = self.cx.as_const(b) {
                    if v == 1 {
                        self.learn(s, a, k);
                    } else if self.cx.width(a) == 1 {
                        self.learn(s, a, !k);
                    }
                }
            }
            _ => (),
        }
    }
    fn learn_bits(&mut self, s: &mut State, x: u32, m: u128, v: u128) {
        let o = s.fix.get(&x).copied().unwrap_or((0, 0));
        if o.0 | m != o.0 {
            Rc::make_mut(&mut s.fix).insert(x, (o.0 | m, o.1 | v));
            s.fixid = self.fix_ctr;
            self.fix_ctr += 1;
        }
    }
    /// number of symbolic bits if `e` is made of pieces of variables and constants only
    fn pieces(&self, e: E) -> Option<u32> {
        match &self.cx.nodes[e as usize] {
            Node::Const(_) => Some(0),
            Node::Var(_) => Some(self.cx.width(e)),
            Node::Ext(a, _) if matches!(self.cx.nodes[*a as usize], Node::Var(_)) => Some(self.cx.width(e)),
            Node::Cat(ps) => ps.iter().try_fold(0, |n, p| Some(n + self.pieces(*p)?)),
            _ => None,
        }
    }
    /// the variable and bit if `e` is a single bit of a variable or its negation
    fn literal(&self, e: E) -> Option<(u32, u32)> {
        if self.cx.width(e) != 1 {
            return None;
        }
        match &self.cx.nodes[e as usize] {
            Node::Var(x) => Some((*x, 0)),
            Node::Ext(a, lo) => match self.cx.nodes[*a as usize] {
                Node::Var(x) => Some((x, *lo)),
                _ => None,
            },
            Node::Not(a) => self.literal(*a),
            _ => None,
        }
    }
    /// true if pc /\ e is satisfiable (with a model installed by the caller)
    fn query(&mut self, s: &State, e: E) -> X<Option<Rc<Vec<(u32, u128)>>>> {
        match self.solver.check(&mut self.cx, &s.pc, &[e]) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Flow::End(End::Error("solver gave no answer".into()))),
        }
    }
    /// decides a boolean; may fork (the other side is queued, to be continued by `other`)
    fn decide(&mut self, s: &mut State, c: E) -> X<(bool, Option<State>)> {
        if let Some(v) = self.cx.as_const(c) {
            return Ok((v == 1, None));
        }
        if let Some(v) = s.known.get(&c) {
            return Ok((*v == 1, None));
        }
        let c = self.simp(s, c);
        if let Some(v) = self.cx.as_const(c) {
            return Ok((v == 1, None));
        }
        if let Some(v) = s.known.get(&c) {
            return Ok((*v == 1, None));
        }
        let v = self.eval(s, c) == 1;
        let nc = self.cx.not(c);
        let (here, there) = if v { (c, nc) } else { (nc, c) };
        // a bit that the path condition does not mention: both values are possible
        if let Some((x, i)) = self.literal(c) {
            if s.cons.get(&x).map_or(true, |m| m >> i & 1 == 0) {
                let old = s.model.v.get(&x).copied().unwrap_or(0);
                let mut o = s.fork();
                o.model = self.merged_model(s, &[(x, old ^ 1 << i)]);
                self.add_pc(&mut o, there);
                self.add_pc(s, here);
                self.st.forks += 1;
                self.st.free += 1;
                return Ok((v, Some(o)));
            }
        }
        match self.query(s, there)? {
            None => {
                let k = Rc::make_mut(&mut s.known);
                k.insert(here, 1);
                k.insert(there, 0);
                self.learn(s, here, 1);
                Ok((v, None))
            }
            Some(m) => {
                let mut o = s.fork();
                o.model = self.merged_model(s, &m);
                self.add_pc(&mut o, there);
                self.add_pc(s, here);
                self.st.forks += 1;
                Ok((v, Some(o)))
            }
        }
    }
    /// makes a value concrete, queueing a state (that repeats the instruction) for the other values
    fn conc(&mut self, s: &mut State, v: &Val) -> X<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::E(e) => {
                let e = *e;
                if let Some(v) = self.cx.as_const(e) {
                    return Ok(v as u64);
                }
                if let Some(v) = s.known.get(&e) {
                    return Ok(*v);
                }
                let e = self.simp(s, e);
                if let Some(v) = self.cx.as_const(e) {
                    return Ok(v as u64);
                }
                if let Some(v) = s.known.get(&e) {
                    return Ok(*v);
                }
                // few unknown bits: decide them one by one, the highest first
                if self.pieces(e).map_or(false, |n| n <= 16) {
                    let (mut e, w) = (e, self.cx.width(e));
                    for i in (0..w).rev() {
                        let b = self.cx.ext(e, i, 1);
                        if self.cx.as_const(b).is_none() {
                            if let (_, Some(o)) = self.decide(s, b)? {
                                self.work.push(o);
                            }
                            e = self.simp(s, e);
                        }
                    }
                    if let Some(v) = self.cx.as_const(e) {
                        return Ok(v as u64);
                    }
                    return Err(self.err("bits not decided".into()));
                }
                let v = self.eval(s, e);
                let w = self.cx.width(e);
                let k = self.cx.c(v, w);
                let eq = self.cx.eq(e, k);
                let ne = self.cx.not(eq);
                match self.query(s, ne)? {
                    None => {
                        Rc::make_mut(&mut s.known).insert(e, v as u64);
                        self.learn(s, e, v);
                    }
                    Some(m) => {
                        let mut o = s.fork();
                        o.model = self.merged_model(s, &m);
                        self.add_pc(&mut o, ne);
                        self.add_pc(s, eq);
                        Rc::make_mut(&mut s.known).insert(e, v as u64);
                        self.st.forks += 1;
                        self.work.push(o);
                    }
                }
                Ok(v as u64)
            }
            _ => Err(self.err("concretise".into())),
        }
    }

    // ------------------------------------------------------------ memory

    fn fault(&self, s: &State, addr: u64, n: usize, what: &str) -> Flow {
        let id = oid(addr);
        let sz = self.obj(s, id).map(|o| o.data.len() as i64).unwrap_or(-1);
        Flow::End(End::Error(format!("memory fault: {what} {n} bytes at object {id}+{} (size {sz}) in {}", addr as u32, self.where_(s))))
    }
    fn load_bytes(&mut self, s: &State, addr: u64, n: usize) -> X<Val> {
        // n <= 16
        let id = oid(addr);
        let off = addr as u32 as usize;
        let o = match self.obj(s, id) {
            Some(o) if off + n <= o.data.len() => o.clone(),
            _ => return Err(self.fault(s, addr, n, "load")),
        };
        if let Some(sy) = &o.sym {
            if sy[off..off + n].iter().any(|x| *x != 0) {
                let mut parts = Vec::with_capacity(n);
                for i in 0..n {
                    let p = if sy[off + i] != 0 { sy[off + i] } else { self.cx.c(o.data[off + i] as u128, 8) };
                    parts.push(p);
                }
                let e = self.cx.cat(parts);
                let e = self.simp(s, e);
                return Ok(self.ve(e));
            }
        }
        let mut v = 0u128;
        for i in 0..n {
            v |= (o.data[off + i] as u128) << (8 * i);
        }
        Ok(self.ci(v, n as u32 * 8))
    }
    fn load_scalar(&mut self, s: &State, addr: u64, bits: u32) -> X<Val> {
        let n = ((bits + 7) / 8) as usize;
        let v = self.load_bytes(s, addr, n)?;
        if bits == n as u32 * 8 {
            return Ok(v);
        }
        Ok(match v {
            Val::C(x) => Val::C(mask(x as u128, bits) as u64),
            Val::E(e) => {
                let t = self.cx.trunc(e, bits);
                self.ve(t)
            }
            v => v,
        })
    }
    fn load(&mut self, s: &mut State, ty: &Ty, av: &Val) -> X<Val> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let bits = ty.bits();
                if let Val::E(e) = av {
                    if let Some(v) = s.known.get(e) {
                        let v = *v;
                        return self.load_scalar(s, v, bits);
                    }
                    if let Some(v) = self.load_sym(s, *e, bits)? {
                        return Ok(v);
                    }
                }
                let a = self.conc(s, av)?;
                self.load_scalar(s, a, bits)
            }
            Ty::Vec(n, t) => {
                let a = self.conc(s, av)?;
                let tb = t.bits();
                if tb % 8 != 0 {
                    return Err(self.err("sub-byte vector load".into()));
                }
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_scalar(s, a + i * (tb as u64 / 8), tb)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(n, t) => {
                let a = self.conc(s, av)?;
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(s, t, &Val::C(a + i * t.size()))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(fs, _) => {
                let a = self.conc(s, av)?;
                let (o, _) = ty.layout();
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() {
                    v.push(self.load(s, f, &Val::C(a + o[i]))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(self.err("load type".into())),
        }
    }
    /// load through a symbolic address as a table lookup where that is cheap
    fn load_sym(&mut self, s: &mut State, e: E, bits: u32) -> X<Option<Val>> {
        let n = ((bits + 7) / 8) as usize;
        let (lo, hi) = (self.cx.lo(e) as u64, self.cx.hi(e) as u64);
        if hi - lo > 70000 || oid(lo) != oid(hi) {
            return Ok(None);
        }
        let ob = match self.obj(s, oid(lo)) {
            Some(o) => o.clone(),
            None => return Ok(None),
        };
        // index = e - lo, drop constant zero low bits
        let k = self.cx.c(lo as u128, 64);
        let idx = self.cx.bin(Op::Sub, e, k);
        let ib = 64 - ((hi - lo).leading_zeros());
        let idx = self.cx.ext(idx, 0, ib.max(1));
        let mut sh = 0;
        while sh < ib.saturating_sub(1) {
            let b = self.cx.ext(idx, 0, sh + 1);
            if self.cx.as_const(b) == Some(0) { sh += 1 } else { break }
        }
        let iw = self.cx.width(idx);
        let idx = self.cx.ext(idx, sh, iw - sh);
        let off0 = lo as u32 as usize;
        let size = ob.data.len();
        if off0 + n > size {
            return Ok(None);
        }
        let want = ((hi - lo) >> sh) as usize + 1;
        let fit = (size - n - off0) / (1usize << sh) + 1;
        let cnt = want.min(fit);
        let symbolic = match &ob.sym {
            Some(sy) => {
                let end = (off0 + ((cnt - 1) << sh) + n).min(size);
                sy[off0..end].iter().any(|x| *x != 0)
            }
            None => false,
        };
        if symbolic && cnt > 64 {
            return Ok(None);
        }
        if bits > 64 {
            return Ok(None);
        }
        // pointers read from memory are better handled by forking
        if want > fit {
            let lim = self.cx.c(cnt as u128 - 1, self.cx.width(idx));
            let oob = self.cx.ult(lim, idx);
            if self.query(s, oob)?.is_some() {
                return Ok(None);
            }
        }
        if !symbolic {
            let mut t = Vec::with_capacity(cnt);
            for i in 0..cnt {
                let o = off0 + (i << sh);
                let mut v = 0u128;
                for b in 0..n {
                    v |= (ob.data[o + b] as u128) << (8 * b);
                }
                t.push(mask(v, bits));
            }
            let r = self.cx.tab(t, bits, idx);
            return Ok(Some(self.ve(r)));
        }
        let mut vals = vec![];
        for i in 0..cnt {
            let v = self.load_scalar(s, lo + ((i as u64) << sh), bits)?;
            vals.push(self.te(&v, bits)?);
        }
        let w = self.cx.width(idx);
        let mut r = vals[cnt - 1];
        for i in (0..cnt - 1).rev() {
            let k = self.cx.c(i as u128, w);
            let c = self.cx.eq(idx, k);
            r = self.cx.ite(c, vals[i], r);
        }
        Ok(Some(self.ve(r)))
    }
    fn store_scalar(&mut self, s: &mut State, addr: u64, v: &Val, bits: u32) -> X<()> {
        let n = ((bits + 7) / 8) as usize;
        let id = oid(addr);
        let off = addr as u32 as usize;
        match self.obj(s, id) {
            Some(o) if off + n <= o.data.len() && o.writable => {}
            _ => return Err(self.fault(s, addr, n, "store")),
        }
        match v {
            Val::C(x) => {
                let o = self.obj_mut(s, id).unwrap();
                for i in 0..n {
                    o.data[off + i] = if i < 8 { (x >> (8 * i)) as u8 } else { 0 };
                }
                if let Some(sy) = &mut o.sym {
                    for i in 0..n {
                        sy[off + i] = 0;
                    }
                }
            }
            Val::E(e) => {
                let mut e = *e;
                if bits as usize != n * 8 {
                    e = self.cx.zext(e, n as u32 * 8);
                }
                let mut parts = Vec::with_capacity(n);
                for i in 0..n {
                    let p = self.cx.ext(e, 8 * i as u32, 8);
                    parts.push((p, self.cx.as_const(p)));
                }
                let o = self.obj_mut(s, id).unwrap();
                let len = o.data.len();
                let sy = o.sym.get_or_insert_with(|| vec![0; len]);
                for (i, (p, c)) in parts.into_iter().enumerate() {
                    match c {
                        Some(v) => {
                            o.data[off + i] = v as u8;
                            sy[off + i] = 0;
                        }
                        None => sy[off + i] = p,
                    }
                }
            }
            _ => return Err(self.err(format!("store of unset value in {}", self.where_(s)))),
        }
        Ok(())
    }
    fn store(&mut self, s: &mut State, ty: &Ty, v: &Val, a: u64) -> X<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.store_scalar(s, a, v, ty.bits()),
            Ty::Vec(n, t) | Ty::Arr(n, t) => {
                let av = match v {
                    Val::A(x) => x.clone(),
                    _ => return Err(self.err("store agg".into())),
                };
                let step = t.size();
                for i in 0..*n {
                    self.store(s, t, &av[i as usize], a + i * step)?;
                }
                Ok(())
            }
            Ty::Struct(fs, _) => {
                let av = match v {
                    Val::A(x) => x.clone(),
                    _ => return Err(self.err("store agg".into())),
                };
                let (o, _) = ty.layout();
                for (i, f) in fs.iter().enumerate() {
                    self.store(s, f, &av[i], a + o[i])?;
                }
                Ok(())
            }
            _ => Err(self.err("store type".into())),
        }
    }
    fn copy(&mut self, s: &mut State, dst: u64, src: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let n = n as usize;
        let (so, doff) = (src as u32 as usize, dst as u32 as usize);
        let (data, sy) = {
            let o = match self.obj(s, oid(src)) {
                Some(o) if so + n <= o.data.len() => o,
                _ => return Err(self.fault(s, src, n, "copy from")),
            };
            (
                o.data[so..so + n].to_vec(),
                o.sym.as_ref().map(|v| v[so..so + n].to_vec()).filter(|v| v.iter().any(|x| *x != 0)),
            )
        };
        match self.obj(s, oid(dst)) {
            Some(o) if doff + n <= o.data.len() && o.writable => {}
            _ => return Err(self.fault(s, dst, n, "copy to")),
        }
        let o = self.obj_mut(s, oid(dst)).unwrap();
        o.data[doff..doff + n].copy_from_slice(&data);
        let len = o.data.len();
        match sy {
            Some(v) => {
                let d = o.sym.get_or_insert_with(|| vec![0; len]);
                d[doff..doff + n].copy_from_slice(&v);
            }
            None => {
                if let Some(d) = &mut o.sym {
                    d[doff..doff + n].iter_mut().for_each(|x| *x = 0);
                }
            }
        }
        Ok(())
    }
    fn byte_e(&mut self, s: &State, addr: u64) -> X<E> {
        let v = self.load_bytes(s, addr, 1)?;
        self.te(&v, 8)
    }
    fn cstr(&mut self, s: &State, p: u64, n: u64) -> String {
        let off = p as u32 as usize;
        match self.obj(s, oid(p)) {
            Some(o) if off + n as usize <= o.data.len() => String::from_utf8_lossy(&o.data[off..off + n as usize]).into_owned(),
            _ => "?".into(),
        }
    }

    // ------------------------------------------------------------ running

    fn where_(&self, s: &State) -> String {
        let mut v = vec![];
        for f in s.frames.iter().rev().take(6) {
            v.push(self.m.funcs[f.f as usize].pretty.clone());
        }
        v.join(" < ")
    }

    /// runs a state until the path ends (or, in breadth-first mode, until it forks)
    pub fn run(&mut self, mut s: State) {
        loop {
            let before = self.work.len();
            match self.step(&mut s) {
                Flow::Next => {}
                Flow::Jumped => {}
                Flow::Retry => {}
                Flow::End(e) => {
                    self.finish(s, e);
                    return;
                }
            }
            if self.bfs && self.work.len() > before {
                self.work.push(s);
                return;
            }
            if s.insns % 4096 == 0 {
                if s.insns > self.cfg.max_insns {
                    self.finish(s, End::Error("instruction limit (possible endless loop)".into()));
                    return;
                }
                if self.t0.elapsed().as_secs_f64() > self.cfg.max_secs {
                    self.st.dropped += 1;
                    return;
                }
            }
        }
    }

    fn inputs_of(&mut self, s: &State, m: &Model) -> Vec<(u64, String)> {
        let ins = s.inputs.clone();
        ins.iter()
            .map(|i| match i {
                Input::Sym(e, n) => (self.cx.eval(*e, m) as u64, n.clone()),
                Input::Choice(v, n) => (*v, n.clone()),
            })
            .collect()
    }

    fn record(&mut self, s: &State, model: &Model, kind: &str, id: &str, extra: &str) {
        let key = format!("{kind}:{id}");
        if !id.starts_with("known:") {
            self.st.hard += 1;
        }
        let c = self.viol_seen.entry(key.clone()).or_insert(0);
        *c += 1;
        if *c > 2 || self.st.viol.len() >= self.cfg.max_viol {
            return;
        }
        let ins = self.inputs_of(s, model);
        let file = format!("{}/viol_{}_{}.txt", self.cfg.out, std::process::id(), self.st.viol.len());
        let pr: Vec<String> = self.cfg.params.iter().map(|p| p.to_string()).collect();
        let mut t = format!("entry {}\nparams {}\nkind {kind}\nid {id}\ninfo {}\nstack {}\n", self.cfg.entry, pr.join(" "), extra.replace('\n', " "), self.where_(s));
        for (v, n) in ins {
            t.push_str(&format!("in {v} {n}\n"));
        }
        let _ = std::fs::write(&file, t);
        self.st.viol.push((key, file));
    }

    fn finish(&mut self, s: State, e: End) {
        self.st.insns += s.insns;
        self.st.max_inputs = self.st.max_inputs.max(s.inputs.len());
        if self.cfg.verbose {
            eprintln!("path end {e:?} insns {} pc {} forks {} work {}", s.insns, s.pc.len(), s.forks, self.work.len());
        }
        match &e {
            End::Done => {
                self.st.done += 1;
                let n = self.st.done;
                if self.cfg.sample_every > 0 && n % self.cfg.sample_every == 1 % self.cfg.sample_every && self.st.samples < 40 {
                    self.st.samples += 1;
                    let m = s.model.clone();
                    let ins = self.inputs_of(&s, &m);
                    let pr: Vec<String> = self.cfg.params.iter().map(|p| p.to_string()).collect();
                    let mut t = format!("entry {}\nparams {}\n", self.cfg.entry, pr.join(" "));
                    for (v, n) in ins {
                        t.push_str(&format!("in {v} {n}\n"));
                    }
                    let obs = s.obs.clone();
                    for o in obs {
                        let v = match o {
                            Val::C(x) => x,
                            Val::E(e) => self.cx.eval(e, &m) as u64,
                            _ => 0,
                        };
                        t.push_str(&format!("obs {v}\n"));
                    }
                    let file = format!("{}/sample_{}_{}.txt", self.cfg.out, std::process::id(), self.st.samples);
                    let _ = std::fs::write(&file, t);
                }
            }
            End::Assumed => self.st.assumed += 1,
            End::Panic(loc) => {
                self.st.panics += 1;
                let m = s.model.clone();
                self.record(&s, &m, "panic", loc, "");
            }
            End::Assert(id) => {
                self.st.asserts += 1;
                let m = s.model.clone();
                self.record(&s, &m, "assert", id, "");
            }
            End::Error(msg) => {
                self.st.errors += 1;
                *self.st.error_msgs.entry(msg.clone()).or_insert(0) += 1;
                let m = s.model.clone();
                if msg.starts_with("instruction limit") {
                    self.record(&s, &m, "hang", "instruction limit", "");
                }
                // keep an input that leads to the error, for diagnosis
                if self.st.error_msgs.len() < 4 {
                    let msg2: String = msg.chars().take(200).collect();
                    let ins = self.inputs_of(&s, &m);
                    let pr: Vec<String> = self.cfg.params.iter().map(|p| p.to_string()).collect();
                    let mut t = format!("entry {}\nparams {}\nerror {}\nstack {}\n", self.cfg.entry, pr.join(" "), msg2, self.where_(&s));
                    for (v, n) in ins {
                        t.push_str(&format!("in {v} {n}\n"));
                    }
                    let _ = std::fs::write(format!("{}/error_{}_{}.txt", self.cfg.out, std::process::id(), self.st.error_msgs.len()), t);
                }
            }
        }
        for f in s.frames {
            if self.regpool.len() < 64 {
                self.regpool.push(f.regs);
            }
        }
    }

    #[inline]
    fn get(&self, s: &State, o: &Opnd) -> Val {
        let f = s.frames.last().unwrap();
        match o {
            Opnd::Reg(r) => f.regs[*r as usize].clone(),
            Opnd::Pool(i) => self.pools[f.f as usize][*i as usize].clone(),
            Opnd::K(_) => unreachable!(),
        }
    }
    #[inline]
    fn set(&self, s: &mut State, r: u32, v: Val) {
        s.frames.last_mut().unwrap().regs[r as usize] = v;
    }

    fn jump(&mut self, s: &mut State, to: u32) -> X<()> {
        let (fi, from) = {
            let f = s.frames.last().unwrap();
            (f.f, f.blk)
        };
        let fun: *const Func = &self.m.funcs[fi as usize];
        // the module is never mutated while running
        let fun: &Func = unsafe { &*fun };
        let b = match fun.blocks.get(to as usize) {
            Some(b) => b,
            None => return Err(self.err("jump to unknown block".into())),
        };
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for (d, _, inc) in &b.phis {
                match inc.iter().find(|(p, _)| *p == from) {
                    Some((_, o)) => vals.push((*d, self.get(s, o))),
                    None => return Err(self.err("phi without incoming edge".into())),
                }
            }
            let f = s.frames.last_mut().unwrap();
            for (d, v) in vals {
                f.regs[d as usize] = v;
            }
        }
        let f = s.frames.last_mut().unwrap();
        f.blk = to;
        f.ip = 0;
        Ok(())
    }

    pub fn step(&mut self, s: &mut State) -> Flow {
        s.insns += 1;
        let (fi, blk, ip) = {
            let f = s.frames.last().unwrap();
            (f.f, f.blk, f.ip)
        };
        let fun: *const Func = &self.m.funcs[fi as usize];
        let fun: &Func = unsafe { &*fun };
        let ins = &fun.blocks[blk as usize].ins[ip as usize];
        match self.exec(s, ins) {
            Ok(Flow::Next) => {
                s.frames.last_mut().unwrap().ip += 1;
                Flow::Next
            }
            Ok(f) => f,
            Err(Flow::Retry) => Flow::Retry,
            Err(f) => f,
        }
    }

    fn exec(&mut self, s: &mut State, ins: &Ins) -> X<Flow> {
        match ins {
            Ins::Bin(d, op, ty, a, b) => {
                let (x, y) = (self.get(s, a), self.get(s, b));
                let v = self.binop(s, *op, ty, &x, &y)?;
                self.set(s, *d, v);
            }
            Ins::ICmp(d, p, ty, a, b) => {
                let (x, y) = (self.get(s, a), self.get(s, b));
                let v = self.icmp(*p, ty, &x, &y)?;
                self.set(s, *d, v);
            }
            Ins::FCmp(d, p, ty, a, b) => {
                let (x, y) = (self.get(s, a), self.get(s, b));
                let v = self.fcmp(p, ty, &x, &y)?;
                self.set(s, *d, v);
            }
            Ins::FNeg(d, ty, a) => {
                let w = ty.bits();
                let x = self.get(s, a);
                let x = self.te(&x, w)?;
                let k = self.cx.c(1u128 << (w - 1), w);
                let r = self.cx.bitw(Op::Xor, x, k);
                let v = self.ve(r);
                self.set(s, *d, v);
            }
            Ins::Load(d, ty, a) => {
                let av = self.get(s, a);
                let v = if let Val::C(addr) = av {
                    if ty.is_scalar() { self.load_scalar(s, addr, ty.bits())? } else { self.load(s, ty, &av)? }
                } else {
                    self.load(s, ty, &av)?
                };
                self.set(s, *d, v);
            }
            Ins::Store(ty, v, a) => {
                let v = self.get(s, v);
                let a = self.get(s, a);
                let a = self.conc(s, &a)?;
                self.store(s, ty, &v, a)?;
            }
            Ins::Gep(d, b, idx) => {
                let mut v = self.get(s, b);
                for g in idx {
                    match g {
                        Gep::Const(k) => v = self.add_off(&v, *k as u64)?,
                        Gep::Idx(o, sc, w) => {
                            let i = self.get(s, o);
                            match i {
                                Val::C(x) => {
                                    let x = ll::sext(x as u128, *w);
                                    v = self.add_off(&v, x.wrapping_mul(*sc) as u64)?;
                                }
                                _ => {
                                    let e = self.te(&i, *w)?;
                                    let e = self.cx.sext(e, 64);
                                    let k = self.cx.c(*sc as u64 as u128, 64);
                                    let e = self.cx.bin(Op::Mul, e, k);
                                    let b = self.te(&v, 64)?;
                                    let r = self.cx.bin(Op::Add, b, e);
                                    v = self.ve(r);
                                }
                            }
                        }
                    }
                }
                self.set(s, *d, v);
            }
            Ins::Alloca(d, off, _) => {
                let o = s.frames.last().unwrap().obj;
                self.set(s, *d, Val::C(base(o) + off));
            }
            Ins::Select(d, ty, c, a, b, vec) => {
                let c = self.get(s, c);
                let (x, y) = (self.get(s, a), self.get(s, b));
                let v = if *vec {
                    let (c, x, y) = match (&c, &x, &y) {
                        (Val::A(c), Val::A(x), Val::A(y)) => (c.clone(), x.clone(), y.clone()),
                        _ => return Err(self.err("vector select".into())),
                    };
                    let et = match ty {
                        Ty::Vec(_, t) => (**t).clone(),
                        _ => Ty::Other,
                    };
                    let mut out = vec![];
                    for i in 0..c.len() {
                        out.push(self.select(&c[i], &x[i], &y[i], &et)?);
                    }
                    Val::A(Rc::new(out))
                } else {
                    self.select(&c, &x, &y, ty)?
                };
                self.set(s, *d, v);
            }
            Ins::Br(t) => {
                self.jump(s, *t)?;
                return Ok(Flow::Jumped);
            }
            Ins::CondBr(c, a, b) => {
                let cv = self.get(s, c);
                let t = match cv {
                    Val::C(x) => x == 1,
                    Val::E(e) => {
                        let (t, other) = self.decide(s, e)?;
                        if let Some(mut o) = other {
                            let tgt = if t { *b } else { *a };
                            self.jump(&mut o, tgt)?;
                            self.work.push(o);
                        }
                        t
                    }
                    _ => return Err(self.err("branch on unset".into())),
                };
                self.jump(s, if t { *a } else { *b })?;
                return Ok(Flow::Jumped);
            }
            Ins::Switch(ty, v, def, cs) => {
                let w = ty.bits();
                let v = self.get(s, v);
                match v {
                    Val::C(x) => {
                        let t = cs.iter().find(|(k, _)| *k as u64 == x).map(|(_, t)| *t).unwrap_or(*def);
                        self.jump(s, t)?;
                    }
                    Val::E(e) => {
                        let e = self.simp(s, e);
                        if let Some(x) = self.cx.as_const(e).map(|x| x as u64).or_else(|| s.known.get(&e).copied()) {
                            let t = cs.iter().find(|(k, _)| *k as u64 == x).map(|(_, t)| *t).unwrap_or(*def);
                            self.jump(s, t)?;
                            return Ok(Flow::Jumped);
                        }
                        // explore every feasible target; `s` takes the one of its model
                        let x = self.eval(s, e);
                        let mut none = self.cx.c(1, 1);
                        let mut groups: Vec<(u32, E)> = vec![];
                        for (k, t) in cs {
                            let kc = self.cx.c(*k, w);
                            let q = self.cx.eq(e, kc);
                            let nq = self.cx.not(q);
                            none = self.cx.and(none, nq);
                            if let Some(g) = groups.iter_mut().find(|(gt, _)| gt == t) {
                                g.1 = self.cx.or(g.1, q);
                            } else {
                                groups.push((*t, q));
                            }
                        }
                        groups.push((*def, none));
                        let mine = cs.iter().find(|(k, _)| *k == x).map(|(_, t)| *t);
                        let mi = match mine {
                            Some(t) => groups.iter().position(|(g, _)| *g == t).unwrap(),
                            None => groups.len() - 1,
                        };
                        for i in 0..groups.len() {
                            if i == mi || self.cx.as_const(groups[i].1) == Some(0) {
                                continue;
                            }
                            if let Some(m) = self.query(s, groups[i].1)? {
                                let mut o = s.fork();
                                o.model = self.merged_model(s, &m);
                                self.add_pc(&mut o, groups[i].1);
                                self.st.forks += 1;
                                self.jump(&mut o, groups[i].0)?;
                                self.work.push(o);
                            }
                        }
                        self.add_pc(s, groups[mi].1);
                        self.jump(s, groups[mi].0)?;
                    }
                    _ => return Err(self.err("switch on unset".into())),
                }
                return Ok(Flow::Jumped);
            }
            Ins::Call { dst, rty, callee, args, normal } => return self.call(s, *dst, rty, callee, args, *normal),
            Ins::Ret(v) => {
                let v = v.as_ref().map(|(_, o)| self.get(s, o));
                let f = s.frames.pop().unwrap();
                if f.obj != 0 {
                    self.free_obj(s, f.obj);
                }
                if self.regpool.len() < 64 {
                    self.regpool.push(f.regs);
                }
                if s.frames.is_empty() {
                    return Ok(Flow::End(End::Done));
                }
                if let (Some(d), Some(v)) = (f.dst, v) {
                    self.set(s, d, v);
                }
                match f.normal {
                    Some(b) => self.jump(s, b)?,
                    None => s.frames.last_mut().unwrap().ip += 1,
                }
                return Ok(Flow::Jumped);
            }
            Ins::Unreachable => return Ok(Flow::End(End::Error(format!("reached `unreachable` in {}", self.where_(s))))),
            Ins::Resume | Ins::LandingPad(_) => return Ok(Flow::End(End::Error("unwinding reached".into()))),
            Ins::ExtractValue(d, v, ix) => {
                let mut v = self.get(s, v);
                for i in ix {
                    v = match &v {
                        Val::A(a) => a[*i as usize].clone(),
                        _ => return Err(self.err("extractvalue".into())),
                    };
                }
                self.set(s, *d, v);
            }
            Ins::InsertValue(d, _, v, x, ix) => {
                let v = self.get(s, v);
                let x = self.get(s, x);
                let r = self.insert(&v, x, ix)?;
                self.set(s, *d, r);
            }
            Ins::ExtractElem(d, v, i) => {
                let v = self.get(s, v);
                let i = self.get(s, i);
                let i = self.conc(s, &i)?;
                match &v {
                    Val::A(a) => {
                        let x = a[i as usize].clone();
                        self.set(s, *d, x)
                    }
                    _ => return Err(self.err("extractelement".into())),
                }
            }
            Ins::InsertElem(d, _, v, x, i) => {
                let v = self.get(s, v);
                let x = self.get(s, x);
                let i = self.get(s, i);
                let i = self.conc(s, &i)?;
                match v {
                    Val::A(mut a) => {
                        Rc::make_mut(&mut a)[i as usize] = x;
                        self.set(s, *d, Val::A(a));
                    }
                    _ => return Err(self.err("insertelement".into())),
                }
            }
            Ins::Shuffle(d, a, b, mk) => {
                let (a, b, mk) = (self.get(s, a), self.get(s, b), self.get(s, mk));
                match (a, b, mk) {
                    (Val::A(a), Val::A(b), Val::A(mk)) => {
                        let mut o = vec![];
                        for i in mk.iter() {
                            let i = match i {
                                Val::C(x) => *x as usize,
                                _ => return Err(self.err("shuffle mask".into())),
                            };
                            o.push(if i < a.len() { a[i].clone() } else { b[i - a.len()].clone() });
                        }
                        self.set(s, *d, Val::A(Rc::new(o)));
                    }
                    _ => return Err(self.err("shufflevector".into())),
                }
            }
            Ins::Cast(d, op, from, v, to) => {
                let v = self.get(s, v);
                let r = self.cast(s, *op, from, &v, to)?;
                self.set(s, *d, r);
            }
            Ins::Freeze(d, v) => {
                let v = self.get(s, v);
                self.set(s, *d, v);
            }
            Ins::AtomicRmw(d, op, ty, a, v) => {
                let a = self.get(s, a);
                let a = self.conc(s, &a)?;
                let v = self.get(s, v);
                let w = ty.bits();
                let old = self.load_scalar(s, a, w)?;
                let (x, y) = (self.te(&old, w)?, self.te(&v, w)?);
                let r = match op.as_str() {
                    "xchg" => y,
                    "add" => self.cx.bin(Op::Add, x, y),
                    "sub" => self.cx.bin(Op::Sub, x, y),
                    "and" => self.cx.bin(Op::And, x, y),
                    "or" => self.cx.bin(Op::Or, x, y),
                    "xor" => self.cx.bin(Op::Xor, x, y),
                    _ => return Err(self.err(format!("atomicrmw {op}"))),
                };
                let r = self.ve(r);
                self.store_scalar(s, a, &r, w)?;
                self.set(s, *d, old);
            }
            Ins::CmpXchg(d, ty, a, c, n) => {
                let a = self.get(s, a);
                let a = self.conc(s, &a)?;
                let c = self.get(s, c);
                let n = self.get(s, n);
                let w = ty.bits();
                let old = self.load_scalar(s, a, w)?;
                let (x, y, z) = (self.te(&old, w)?, self.te(&c, w)?, self.te(&n, w)?);
                let eq = self.cx.eq(x, y);
                let r = self.cx.ite(eq, z, x);
                let r = self.ve(r);
                self.store_scalar(s, a, &r, w)?;
                let eq = self.ve(eq);
                self.set(s, *d, Val::A(Rc::new(vec![old, eq])));
            }
            Ins::Nop => {}
            Ins::Unsupported(t) => return Ok(Flow::End(End::Error(format!("unsupported instruction: {t}")))),
        }
        Ok(Flow::Next)
    }

    fn add_off(&mut self, v: &Val, k: u64) -> X<Val> {
        match v {
            Val::C(x) => Ok(Val::C(x.wrapping_add(k))),
            Val::E(e) => {
                let kc = self.cx.c(k as u128, 64);
                let r = self.cx.bin(Op::Add, *e, kc);
                Ok(self.ve(r))
            }
            _ => Err(self.err("gep base".into())),
        }
    }
    fn insert(&mut self, v: &Val, x: Val, ix: &[u32]) -> X<Val> {
        if ix.is_empty() {
            return Ok(x);
        }
        match v {
            Val::A(a) => {
                let inner = self.insert(&a[ix[0] as usize], x, &ix[1..])?;
                let mut a = a.clone();
                Rc::make_mut(&mut a)[ix[0] as usize] = inner;
                Ok(Val::A(a))
            }
            _ => Err(self.err("insertvalue".into())),
        }
    }
    fn select(&mut self, c: &Val, x: &Val, y: &Val, ty: &Ty) -> X<Val> {
        match c {
            Val::C(1) => return Ok(x.clone()),
            Val::C(_) => return Ok(y.clone()),
            Val::E(_) => {}
            _ => return Err(self.err("select on unset".into())),
        }
        let ce = self.te(c, 1)?;
        match (x, y) {
            (Val::A(a), Val::A(b)) => {
                let mut o = vec![];
                for i in 0..a.len() {
                    let et = match ty {
                        Ty::Struct(f, _) => f[i].clone(),
                        Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
                        _ => Ty::Other,
                    };
                    o.push(self.select(c, &a[i], &b[i], &et)?);
                }
                Ok(Val::A(Rc::new(o)))
            }
            _ => {
                let w = ty.bits();
                let (a, b) = (self.te(x, w)?, self.te(y, w)?);
                let r = self.cx.ite(ce, a, b);
                Ok(self.ve(r))
            }
        }
    }
    fn binop(&mut self, s: &mut State, op: BinOp, ty: &Ty, x: &Val, y: &Val) -> X<Val> {
        if let Ty::Vec(_, t) = ty {
            return match (x, y) {
                (Val::A(a), Val::A(b)) => {
                    let (a, b) = (a.clone(), b.clone());
                    let mut o = vec![];
                    for i in 0..a.len() {
                        o.push(self.binop(s, op, t, &a[i], &b[i])?);
                    }
                    Ok(Val::A(Rc::new(o)))
                }
                _ => Err(self.err("vector op".into())),
            };
        }
        let w = ty.bits();
        let fop = match op {
            BinOp::FAdd => Some(FOp::Add),
            BinOp::FSub => Some(FOp::Sub),
            BinOp::FMul => Some(FOp::Mul),
            BinOp::FDiv => Some(FOp::Div),
            _ => None,
        };
        if let Some(f) = fop {
            let (a, b) = (self.te(x, w)?, self.te(y, w)?);
            let r = match f {
                FOp::Mul => self.fmul(s, a, b, w)?,
                _ => self.cx.fp(f, a, b, w),
            };
            return Ok(self.ve(r));
        }
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            _ => return Err(self.err("float op".into())),
        };
        if let (Val::C(a), Val::C(b)) = (x, y) {
            if w <= 64 {
                return Ok(Val::C(bin64(o, *a, *b, w)));
            }
        }
        let a = self.te(x, w)?;
        let mut b = self.te(y, w)?;
        if matches!(o, Op::Shl | Op::LShr | Op::AShr) && self.cx.as_const(b).is_none() {
            // symbolic shift amounts: one path per amount
            let v = self.conc(s, &Val::E(b))?;
            b = self.cx.c(v as u128, w);
        }
        let r = self.cx.bin(o, a, b);
        Ok(self.ve(r))
    }
    fn icmp(&mut self, p: Pred, ty: &Ty, x: &Val, y: &Val) -> X<Val> {
        if let Ty::Vec(_, t) = ty {
            return match (x, y) {
                (Val::A(a), Val::A(b)) => {
                    let (a, b) = (a.clone(), b.clone());
                    let mut o = vec![];
                    for i in 0..a.len() {
                        o.push(self.icmp(p, t, &a[i], &b[i])?);
                    }
                    Ok(Val::A(Rc::new(o)))
                }
                _ => Err(self.err("vector cmp".into())),
            };
        }
        let w = ty.bits();
        if let (Val::C(a), Val::C(b)) = (x, y) {
            let (sa, sb) = (ll::sext(*a as u128, w), ll::sext(*b as u128, w));
            let r = match p {
                Pred::Eq => a == b,
                Pred::Ne => a != b,
                Pred::Ult => a < b,
                Pred::Ule => a <= b,
                Pred::Ugt => a > b,
                Pred::Uge => a >= b,
                Pred::Slt => sa < sb,
                Pred::Sle => sa <= sb,
                Pred::Sgt => sa > sb,
                Pred::Sge => sa >= sb,
            };
            return Ok(Val::C(r as u64));
        }
        let (a, b) = (self.te(x, w)?, self.te(y, w)?);
        let r = match p {
            Pred::Eq => self.cx.eq(a, b),
            Pred::Ne => {
                let e = self.cx.eq(a, b);
                self.cx.not(e)
            }
            Pred::Ult => self.cx.ult(a, b),
            Pred::Ugt => self.cx.ult(b, a),
            Pred::Ule => {
                let e = self.cx.ult(b, a);
                self.cx.not(e)
            }
            Pred::Uge => {
                let e = self.cx.ult(a, b);
                self.cx.not(e)
            }
            Pred::Slt => self.cx.slt(a, b),
            Pred::Sgt => self.cx.slt(b, a),
            Pred::Sle => {
                let e = self.cx.slt(b, a);
                self.cx.not(e)
            }
            Pred::Sge => {
                let e = self.cx.slt(a, b);
                self.cx.not(e)
            }
        };
        Ok(self.ve(r))
    }
    fn fcmp(&mut self, p: &str, ty: &Ty, x: &Val, y: &Val) -> X<Val> {
        let w = ty.bits();
        let (a, b) = (self.te(x, w)?, self.te(y, w)?);
        let cx = &mut self.cx;
        let lt = cx.fp(FOp::Lt, a, b, 1);
        let gt = cx.fp(FOp::Lt, b, a, 1);
        let eq = cx.fp(FOp::Eq, a, b, 1);
        let aa = cx.fp(FOp::Eq, a, a, 1);
        let bb = cx.fp(FOp::Eq, b, b, 1);
        let ord = cx.and(aa, bb);
        let uno = cx.not(ord);
        let base = match &p[1..] {
            "lt" => lt,
            "gt" => gt,
            "eq" => eq,
            "le" => cx.or(lt, eq),
            "ge" => cx.or(gt, eq),
            "ne" => cx.or(lt, gt),
            _ => match p {
                "ord" => return Ok(self.ve(ord)),
                "uno" => return Ok(self.ve(uno)),
                "true" => return Ok(Val::C(1)),
                "false" => return Ok(Val::C(0)),
                _ => return Err(self.err(format!("fcmp {p}"))),
            },
        };
        let r = if p == "ord" {
            ord
        } else if p == "uno" {
            uno
        } else if p.starts_with('u') {
            cx.or(base, uno)
        } else {
            base
        };
        Ok(self.ve(r))
    }
    fn cast(&mut self, s: &mut State, op: CastOp, from: &Ty, v: &Val, to: &Ty) -> X<Val> {
        if let (Ty::Vec(_, ft), Val::A(a)) = (from, v) {
            if op == CastOp::Bitcast {
                if let Ty::Vec(..) = to {
                    if from == to {
                        return Ok(v.clone());
                    }
                }
                let fb = ft.bits();
                let a = a.clone();
                let total = fb * a.len() as u32;
                if total > 128 {
                    return Err(self.err("wide bitcast".into()));
                }
                let mut parts = vec![];
                for x in a.iter() {
                    parts.push(self.te(x, fb)?);
                }
                let e = self.cx.cat(parts);
                if let Ty::Vec(n, t) = to {
                    let mut o = vec![];
                    for i in 0..*n {
                        let p = self.cx.ext(e, i as u32 * t.bits(), t.bits());
                        o.push(self.ve(p));
                    }
                    return Ok(Val::A(Rc::new(o)));
                }
                return Ok(self.ve(e));
            }
            if let Ty::Vec(_, tt) = to {
                let a = a.clone();
                let mut o = vec![];
                for x in a.iter() {
                    o.push(self.cast(s, op, ft, x, tt)?);
                }
                return Ok(Val::A(Rc::new(o)));
            }
        }
        let (fw, tw) = (from.bits(), to.bits());
        if op == CastOp::Bitcast {
            if let Ty::Vec(n, t) = to {
                let e = self.te(v, fw)?;
                let mut o = vec![];
                for i in 0..*n {
                    let p = self.cx.ext(e, i as u32 * t.bits(), t.bits());
                    o.push(self.ve(p));
                }
                return Ok(Val::A(Rc::new(o)));
            }
            return Ok(v.clone());
        }
        match op {
            CastOp::Trunc | CastOp::ZExt | CastOp::SExt | CastOp::PtrToInt | CastOp::IntToPtr => {
                if let Val::C(x) = v {
                    if tw <= 64 {
                        return Ok(Val::C(match op {
                            CastOp::SExt => mask(ll::sext(*x as u128, fw) as u128, tw) as u64,
                            _ => mask(*x as u128, tw) as u64,
                        }));
                    }
                }
                let e = self.te(v, fw)?;
                let r = if tw < fw {
                    self.cx.trunc(e, tw)
                } else if op == CastOp::SExt {
                    self.cx.sext(e, tw)
                } else {
                    self.cx.zext(e, tw)
                };
                Ok(self.ve(r))
            }
            CastOp::FpExt | CastOp::FpTrunc | CastOp::UiToFp | CastOp::SiToFp => {
                let e = self.te(v, fw)?;
                let f = match op {
                    CastOp::FpExt => FOp::ToF64,
                    CastOp::FpTrunc => FOp::ToF32,
                    CastOp::UiToFp => FOp::FromU,
                    _ => FOp::FromS,
                };
                let r = match f {
                    FOp::ToF64 if fw == 32 => self.fpext(s, e)?,
                    FOp::FromU if self.cx.hi(e) < 1 << 24 => self.cx.from_small(e, tw),
                    _ => self.cx.fp(f, e, e, tw),
                };
                Ok(self.ve(r))
            }
            CastOp::FpToUi | CastOp::FpToSi => {
                let e = self.te(v, fw)?;
                if self.cx.as_const(e).is_none() {
                    return Err(self.err("symbolic float to int".into()));
                }
                let f = if op == CastOp::FpToUi { FOp::ToUSat } else { FOp::ToSSat };
                let r = self.cx.fp(f, e, e, tw);
                Ok(self.ve(r))
            }
            CastOp::Bitcast => unreachable!(),
        }
    }

    // ------------------------------------------------------------ calls

    fn call(&mut self, s: &mut State, dst: Option<u32>, rty: &Ty, callee: &Callee, args: &[(Ty, Opnd)], normal: Option<u32>) -> X<Flow> {
        let mut target: Option<u32> = None;
        let mut ext: Option<&str> = None;
        let tmp;
        match callee {
            Callee::Direct(f) => target = Some(*f),
            Callee::Ext(n) => ext = Some(n),
            Callee::Indirect(o) => {
                let v = self.get(s, o);
                let a = self.conc(s, &v)?;
                if a & FUNC_TAG != FUNC_TAG {
                    return Err(self.err(format!("call through bad pointer {a:#x}")));
                }
                let i = ((a & !FUNC_TAG) >> 4) as usize;
                if i < self.m.funcs.len() {
                    target = Some(i as u32);
                } else {
                    tmp = self.m.decls[i - self.m.funcs.len()].clone();
                    ext = Some(&tmp);
                    return self.ext_call(s, dst, rty, &tmp.clone(), args, normal);
                }
            }
            Callee::Asm(t) => {
                // only empty assembly (black_box) can be accepted
                if t.starts_with('|') {
                    return self.after(s, dst, None, normal);
                }
                return Err(self.err(format!("inline assembly {t}")));
            }
        }
        if let Some(f) = target {
            match self.kinds[f as usize] {
                Kind::Normal => {
                    let vals: Vec<Val> = args.iter().map(|(_, a)| self.get(s, a)).collect();
                    if s.frames.len() > 400 {
                        return Err(self.err("call depth".into()));
                    }
                    self.push_frame(s, f, vals, dst, normal);
                    return Ok(Flow::Jumped);
                }
                Kind::Panic => {
                    let loc = self.panic_loc(s, f, args);
                    return Ok(Flow::End(End::Panic(loc)));
                }
                Kind::HashKeys => {
                    let v = Val::A(Rc::new(vec![Val::C(0x0123456789abcdef), Val::C(0xfedcba9876543210)]));
                    return self.after(s, dst, Some(v), normal);
                }
            }
        }
        let n = ext.unwrap().to_string();
        self.ext_call(s, dst, rty, &n, args, normal)
    }

    fn panic_loc(&mut self, s: &State, f: u32, args: &[(Ty, Opnd)]) -> String {
        let _ = f;
        if let Some((Ty::Ptr, o)) = args.last() {
            if let Val::C(p) = self.get(s, o) {
                if let (Ok(Val::C(fp)), Ok(Val::C(n)), Ok(Val::C(line))) =
                    (self.load_scalar(s, p, 64), self.load_scalar(s, p + 8, 64), self.load_scalar(s, p + 16, 32))
                {
                    if n < 400 && self.obj(s, oid(fp)).is_some() {
                        let file = self.cstr(s, fp, n);
                        let file = file.trim_end_matches('\0').to_string();
                        let short = file.rsplit("packages/").next().unwrap_or(&file).to_string();
                        return format!("{short}:{line}");
                    }
                }
            }
        }
        self.where_(s)
    }

    /// a C string without its terminator; its bytes must be concrete
    fn zstr(&mut self, s: &mut State, p: u64) -> X<Vec<u8>> {
        let mut v = vec![];
        loop {
            let e = self.byte_e(s, p + v.len() as u64)?;
            let z = self.ve(e);
            match z {
                Val::C(0) => return Ok(v),
                Val::C(b) => v.push(b as u8),
                _ => return Err(self.err("symbolic C string".into())),
            }
        }
    }
    fn fresh(&mut self, s: &mut State, w: u32, tag: &str) -> Val {
        // variables are shared between paths by position in the input sequence, so that
        // constraint caching works across paths
        let k = s.inputs.len();
        let name = format!("{tag}#{k}#{w}");
        let e = match self.cx.var_names.iter().position(|n| *n == name) {
            Some(i) => self.cx.var_nodes[i],
            None => self.cx.var(name, w),
        };
        s.inputs.push(Input::Sym(e, tag.to_string()));
        self.ve(e)
    }

    fn after(&mut self, s: &mut State, dst: Option<u32>, v: Option<Val>, normal: Option<u32>) -> X<Flow> {
        if let (Some(d), Some(v)) = (dst, v) {
            self.set(s, d, v);
        }
        match normal {
            Some(b) => {
                self.jump(s, b)?;
                Ok(Flow::Jumped)
            }
            None => Ok(Flow::Next),
        }
    }

    fn ext_call(&mut self, s: &mut State, dst: Option<u32>, rty: &Ty, name: &str, args: &[(Ty, Opnd)], normal: Option<u32>) -> X<Flow> {
        let a: Vec<Val> = args.iter().map(|(_, o)| self.get(s, o)).collect();
        if name == "sym_args" {
            // what the loader does: std keeps the arguments
            let f = self.m.fidx.iter().find(|(n, _)| n.contains("ARGV_INIT_ARRAY") && n.contains("init_wrapper")).map(|x| *x.1);
            return match f {
                Some(f) => {
                    let mut a = a;
                    a.push(Val::C(0));
                    self.push_frame(s, f, a, None, normal);
                    Ok(Flow::Jumped)
                }
                None => Err(self.err("no program arguments in this module".into())),
            };
        }
        if let Some(f) = self.os.get(name) {
            let f = *f;
            self.push_frame(s, f, a, dst, normal);
            return Ok(Flow::Jumped);
        }
        let r: Option<Val> = if let Some(n) = name.strip_prefix("llvm.") {
            self.intrinsic(s, n, rty, args, &a)?
        } else {
            match self.libcall(s, name, rty, &a)? {
                Ok(v) => v,
                Err(end) => return Ok(Flow::End(end)),
            }
        };
        self.after(s, dst, r, normal)
    }

    fn libcall(&mut self, s: &mut State, name: &str, rty: &Ty, a: &[Val]) -> X<Result<Option<Val>, End>> {
        let r = match name {
            "sym_bits" => {
                let w = self.conc(s, &a[0])? as u32;
                let t = self.conc(s, &a[1])?;
                let n = self.conc(s, &a[2])?;
                let tag = self.cstr(s, t, n);
                let v = self.fresh(s, w, &tag);
                let e = self.te(&v, w)?;
                let e = self.cx.zext(e, 64);
                Some(self.ve(e))
            }
            "sym_param" => {
                let i = self.conc(s, &a[0])? as usize;
                Some(Val::C(self.cfg.params.get(i).copied().unwrap_or(0)))
            }
            "sym_choice" => {
                let n = self.conc(s, &a[0])?;
                let t = self.conc(s, &a[1])?;
                let l = self.conc(s, &a[2])?;
                let tag = self.cstr(s, t, l);
                let (mine, mut end) = s.choice_override.take().unwrap_or((0, n));
                if n == 0 {
                    return Ok(Err(End::Error("empty choice".into())));
                }
                while end - mine > 1 {
                    let mid = mine + (end - mine) / 2;
                    let mut o = s.fork();
                    o.choice_override = Some((mid, end));
                    self.st.forks += 1;
                    self.work.push(o);
                    end = mid;
                }
                s.inputs.push(Input::Choice(mine, tag));
                Some(Val::C(mine))
            }
            "sym_assume" => {
                let c = self.truth(&a[0])?;
                match self.cx.as_const(c) {
                    Some(1) => None,
                    Some(_) => return Ok(Err(End::Assumed)),
                    None => {
                        if self.eval(s, c) == 1 {
                            self.add_pc(s, c);
                        } else {
                            match self.query(s, c)? {
                                Some(m) => {
                                    s.model = self.merged_model(s, &m);
                                    self.add_pc(s, c);
                                }
                                None => return Ok(Err(End::Assumed)),
                            }
                        }
                        None
                    }
                }
            }
            "sym_assert" => {
                let c = self.truth(&a[0])?;
                let t = self.conc(s, &a[1])?;
                let l = self.conc(s, &a[2])?;
                let id = self.cstr(s, t, l);
                self.st.asserts_checked += 1;
                *self.st.assert_ids.entry(id.clone()).or_insert(0) += 1;
                let c = self.simp(s, c);
                match self.cx.as_const(c) {
                    Some(1) => None,
                    Some(_) => return Ok(Err(End::Assert(id))),
                    None => {
                        let nc = self.cx.not(c);
                        let here = self.eval(s, c) == 1;
                        if !here {
                            let m = s.model.clone();
                            self.st.asserts += 1;
                            self.record(s, &m, "assert", &id, "");
                            // continue with the other side, if there is one
                            match self.query(s, c)? {
                                Some(m) => {
                                    s.model = self.merged_model(s, &m);
                                    self.add_pc(s, c);
                                }
                                None => return Ok(Err(End::Assumed)),
                            }
                        } else {
                            if let Some(m) = self.query(s, nc)? {
                                let m = self.merged_model(s, &m);
                                self.st.asserts += 1;
                                self.record(s, &m, "assert", &id, "");
                                self.add_pc(s, c);
                            } else {
                                Rc::make_mut(&mut s.known).insert(c, 1);
                            }
                        }
                        None
                    }
                }
            }
            "sym_cover" => {
                let t = self.conc(s, &a[0])?;
                let l = self.conc(s, &a[1])?;
                let id = self.cstr(s, t, l);
                *self.st.covers.entry(id).or_insert(0) += 1;
                None
            }
            "sym_observe" => {
                s.obs.push(a[0].clone());
                None
            }
            "sym_stop" => return Ok(Err(End::Done)),
            "sym_process_begin" => {
                s.left = s.objs[..self.init_objs.len()].to_vec();
                Some(Val::C(1))
            }
            "sym_process_end" => {
                for (i, o) in std::mem::take(&mut s.left).into_iter().enumerate() {
                    s.objs[i] = o;
                }
                None
            }
            "sym_process_result" => Some(Val::C(0)),
            "sym_concretize" => Some(Val::C(self.conc(s, &a[0])?)),
            "sym_memeq" | "bcmp" => {
                let (p, q) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                let n = self.conc(s, &a[2])?;
                let mut r = self.cx.c(1, 1);
                for i in 0..n {
                    let x = self.byte_e(s, p + i)?;
                    let y = self.byte_e(s, q + i)?;
                    let e = self.cx.eq(x, y);
                    r = self.cx.and(r, e);
                    if self.cx.as_const(r) == Some(0) {
                        break;
                    }
                }
                let r = if name == "bcmp" { self.cx.not(r) } else { r };
                let w = rty.bits();
                let e = self.cx.zext(r, w);
                Some(self.ve(e))
            }
            "memcmp" => {
                let (p, q) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                let n = self.conc(s, &a[2])?;
                let mut r = self.cx.c(0, 32);
                let (one, m1) = (self.cx.c(1, 32), self.cx.c(u128::MAX, 32));
                for i in (0..n).rev() {
                    let x = self.byte_e(s, p + i)?;
                    let y = self.byte_e(s, q + i)?;
                    let e = self.cx.eq(x, y);
                    let l = self.cx.ult(x, y);
                    let d = self.cx.ite(l, m1, one);
                    r = self.cx.ite(e, r, d);
                }
                Some(self.ve(r))
            }
            "strlen" => {
                let p = self.conc(s, &a[0])?;
                let mut n = 0;
                loop {
                    let v = self.load_scalar(s, p + n, 8)?;
                    if !matches!(v, Val::C(_)) {
                        let c = self.truth(&v)?;
                        if self.must(s, c)? {
                            n += 1;
                            continue;
                        }
                    }
                    if self.conc(s, &v)? == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::C(n))
            }
            "malloc" | "__rust_alloc" => {
                let n = self.conc(s, &a[0])?;
                if n > self.cfg.max_alloc {
                    return Ok(Err(End::Error(format!("allocation of {n} bytes exceeds the engine limit"))));
                }
                Some(Val::C(base(self.alloc(s, n))))
            }
            "calloc" => {
                let n = self.conc(s, &a[0])?.wrapping_mul(self.conc(s, &a[1])?);
                if n > self.cfg.max_alloc {
                    return Ok(Err(End::Error(format!("allocation of {n} bytes exceeds the engine limit"))));
                }
                Some(Val::C(base(self.alloc(s, n))))
            }
            "posix_memalign" => {
                let p = self.conc(s, &a[0])?;
                let n = self.conc(s, &a[2])?;
                if n > self.cfg.max_alloc {
                    return Ok(Err(End::Error(format!("allocation of {n} bytes exceeds the engine limit"))));
                }
                let id = self.alloc(s, n);
                self.store_scalar(s, p, &Val::C(base(id)), 64)?;
                Some(Val::C(0))
            }
            "realloc" => {
                let p = self.conc(s, &a[0])?;
                let n = self.conc(s, &a[1])?;
                if n > self.cfg.max_alloc {
                    return Ok(Err(End::Error(format!("allocation of {n} bytes exceeds the engine limit"))));
                }
                let id = self.alloc(s, n);
                let old = self.obj(s, oid(p)).map(|o| o.data.len() as u64).unwrap_or(0);
                self.copy(s, base(id), p, old.min(n))?;
                if p != 0 {
                    self.free_obj(s, oid(p));
                }
                Some(Val::C(base(id)))
            }
            "free" => {
                let p = self.conc(s, &a[0])?;
                if p != 0 {
                    let id = oid(p);
                    if p as u32 != 0 || self.obj(s, id).is_none() {
                        return Ok(Err(End::Error("invalid free".into())));
                    }
                    self.free_obj(s, id);
                }
                None
            }
            "dlsym" => {
                let p = self.conc(s, &a[1])?;
                let n = self.zstr(s, p)?;
                match n.as_slice() {
                    b"getrandom" => Some(Val::C(self.symaddr("getrandom").unwrap_or(0))),
                    _ => Some(Val::C(0)),
                }
            }
            "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_delete" | "close" => Some(Val::C(0)),
            "pthread_key_create" => {
                let p = self.conc(s, &a[0])?;
                self.store_scalar(s, p, &Val::C(1), 32)?;
                Some(Val::C(0))
            }
            "write" => Some(a[2].clone()),
            "abort" => return Ok(Err(End::Panic(format!("abort in {}", self.where_(s))))),
            "ldexp" => {
                let x = self.te(&a[0], 64)?;
                let k = self.conc(s, &a[1])? as u32 as i32;
                return self.ldexp(x, k).map(|v| Ok(Some(v)));
            }
            "exp2" | "pow" | "floor" | "powf" | "exp2f" => {
                let mut c = vec![];
                for x in a {
                    match x {
                        Val::C(v) => c.push(*v),
                        _ => return Err(self.err(format!("symbolic {name}"))),
                    }
                }
                let f = |i: usize| f64::from_bits(c[i]);
                let g = |i: usize| f32::from_bits(c[i] as u32);
                Some(match name {
                    "exp2" => Val::C(f(0).exp2().to_bits()),
                    "pow" => Val::C(f(0).powf(f(1)).to_bits()),
                    "floor" => Val::C(f(0).floor().to_bits()),
                    "powf" => Val::C(g(0).powf(g(1)).to_bits() as u64),
                    _ => Val::C(g(0).exp2().to_bits() as u64),
                })
            }
            _ => return Ok(Err(End::Error(format!("call of unmodelled external function {name}")))),
        };
        Ok(Ok(r))
    }

    fn ldexp(&mut self, x: E, k: i32) -> X<Val> {
        // exact for a power of two factor that is itself a normal number
        if (-1022..=1023).contains(&k) {
            let f = ((k + 1023) as u64) << 52;
            let fe = self.cx.c(f as u128, 64);
            let r = self.cx.fp(FOp::Mul, x, fe, 64);
            return Ok(self.ve(r));
        }
        Err(self.err("ldexp range".into()))
    }

    /// holds on every continuation of this path
    fn must(&mut self, s: &State, c: E) -> X<bool> {
        let c = self.simp(s, c);
        if let Some(v) = self.cx.as_const(c) {
            return Ok(v == 1);
        }
        if self.eval(s, c) == 0 {
            return Ok(false);
        }
        let n = self.cx.not(c);
        Ok(self.query(s, n)?.is_none())
    }
    /// float to double; bit-vector form when the operand is a normal number or zero
    fn fpext(&mut self, s: &State, a: E) -> X<E> {
        if self.cx.as_const(a).is_none() {
            let e = self.cx.ext(a, 23, 8);
            let rest = self.cx.ext(a, 0, 31);
            let z = self.cx.c(0, 31);
            let zero = self.cx.eq(rest, z);
            let one = self.cx.c(1, 8);
            let em = self.cx.bin(Op::Sub, e, one);
            let lim = self.cx.c(254, 8);
            let normal = self.cx.ult(em, lim);
            let ok = self.cx.or(zero, normal);
            if self.must(s, ok)? {
                let sign = self.cx.ext(a, 31, 1);
                let e11 = self.cx.zext(e, 11);
                let k = self.cx.c(1023 - 127, 11);
                let e11 = self.cx.bin(Op::Add, e11, k);
                let frac = self.cx.ext(a, 0, 23);
                let low = self.cx.c(0, 29);
                let z11 = self.cx.c(0, 11);
                let ee = self.cx.ite(zero, z11, e11);
                return Ok(self.cx.cat(vec![low, frac, ee, sign]));
            }
        }
        Ok(self.cx.fp(FOp::ToF64, a, a, 64))
    }
    /// product; bit-vector form when one operand is a power of two and the result needs no rounding
    fn fmul(&mut self, s: &State, a: E, b: E, w: u32) -> X<E> {
        if w == 64 {
            for (x, p) in [(a, b), (b, a)] {
                if let (None, Some(c)) = (self.cx.as_const(x), self.cx.as_const(p)) {
                    let k = ((c >> 52) & 0x7ff) as i64 - 1023;
                    if c & ((1 << 52) - 1) != 0 || c >> 63 != 0 || !(-1022..=1023).contains(&k) {
                        continue;
                    }
                    let e = self.cx.ext(x, 52, 11);
                    let rest = self.cx.ext(x, 0, 63);
                    let z = self.cx.c(0, 63);
                    let zero = self.cx.eq(rest, z);
                    // normal operand and normal result
                    let (lo, hi) = (1.max(1 - k), 2046.min(2046 - k));
                    let lo_e = self.cx.c(lo as u128, 11);
                    let d = self.cx.bin(Op::Sub, e, lo_e);
                    let n = self.cx.c((hi - lo + 1) as u128, 11);
                    let normal = self.cx.ult(d, n);
                    let ok = self.cx.or(zero, normal);
                    if self.must(s, ok)? {
                        let ke = self.cx.c((k as u128) & 0x7ff, 11);
                        let ne = self.cx.bin(Op::Add, e, ke);
                        let z11 = self.cx.c(0, 11);
                        let ne = self.cx.ite(zero, z11, ne);
                        let frac = self.cx.ext(x, 0, 52);
                        let sign = self.cx.ext(x, 63, 1);
                        return Ok(self.cx.cat(vec![frac, ne, sign]));
                    }
                }
            }
        }
        Ok(self.cx.fp(FOp::Mul, a, b, w))
    }

    fn truth(&mut self, v: &Val) -> X<E> {
        match v {
            Val::C(x) => Ok(self.cx.c((*x != 0) as u128, 1)),
            Val::E(e) => {
                let w = self.cx.width(*e);
                if w == 1 {
                    return Ok(*e);
                }
                let z = self.cx.c(0, w);
                let q = self.cx.eq(*e, z);
                Ok(self.cx.not(q))
            }
            _ => Err(self.err("truth of unset".into())),
        }
    }

    fn intrinsic(&mut self, s: &mut State, n: &str, rty: &Ty, args: &[(Ty, Opnd)], a: &[Val]) -> X<Option<Val>> {
        let root = n.split('.').next().unwrap();
        match root {
            "lifetime" | "assume" | "experimental" | "dbg" | "prefetch" | "donothing" | "invariant" => return Ok(None),
            "memcpy" | "memmove" => {
                let d = self.conc(s, &a[0])?;
                let p = self.conc(s, &a[1])?;
                let k = self.conc(s, &a[2])?;
                self.copy(s, d, p, k)?;
                return Ok(None);
            }
            "memset" => {
                let d = self.conc(s, &a[0])?;
                let k = self.conc(s, &a[2])? as usize;
                if k == 0 {
                    return Ok(None);
                }
                let off = d as u32 as usize;
                match self.obj(s, oid(d)) {
                    Some(o) if off + k <= o.data.len() && o.writable => {}
                    _ => return Err(self.fault(s, d, k, "memset")),
                }
                match &a[1] {
                    Val::C(v) => {
                        let o = self.obj_mut(s, oid(d)).unwrap();
                        o.data[off..off + k].iter_mut().for_each(|x| *x = *v as u8);
                        if let Some(sy) = &mut o.sym {
                            sy[off..off + k].iter_mut().for_each(|x| *x = 0);
                        }
                    }
                    v => {
                        for i in 0..k {
                            self.store_scalar(s, d + i as u64, v, 8)?;
                        }
                    }
                }
                return Ok(None);
            }
            "trap" | "debugtrap" => return Err(Flow::End(End::Panic(format!("trap in {}", self.where_(s))))),
            "threadlocal" | "expect" | "launder" | "strip" => return Ok(Some(a[0].clone())),
            "is" => return Ok(Some(Val::C(0))),
            "x86" => return Ok(None),
            "objectsize" => return Ok(Some(Val::C(u64::MAX))),
            _ => {}
        }
        if let Ty::Vec(cnt, et) = rty {
            // element-wise
            let mut out = vec![];
            for i in 0..*cnt as usize {
                let ai: Vec<Val> = a
                    .iter()
                    .map(|v| match v {
                        Val::A(x) => x[i].clone(),
                        v => v.clone(),
                    })
                    .collect();
                match self.int_intrinsic(s, n, et, et, &ai)? {
                    Some(v) => out.push(v),
                    None => return Err(self.err(format!("vector intrinsic {n}"))),
                }
            }
            return Ok(Some(Val::A(Rc::new(out))));
        }
        let at = args.first().map(|x| x.0.clone()).unwrap_or(Ty::Void);
        match self.int_intrinsic(s, n, &at, rty, a)? {
            Some(v) => Ok(Some(v)),
            None => Err(self.err(format!("intrinsic {n}"))),
        }
    }

    fn int_intrinsic(&mut self, s: &mut State, n: &str, ty: &Ty, rty: &Ty, a: &[Val]) -> X<Option<Val>> {
        let w = ty.bits();
        let parts: Vec<&str> = n.split('.').collect();
        let r = match parts[0] {
            "umin" | "umax" | "smin" | "smax" => {
                let (x, y) = (self.te(&a[0], w)?, self.te(&a[1], w)?);
                let c = if parts[0].starts_with('u') { self.cx.ult(x, y) } else { self.cx.slt(x, y) };
                if parts[0].ends_with("min") { self.cx.ite(c, x, y) } else { self.cx.ite(c, y, x) }
            }
            "abs" => {
                let x = self.te(&a[0], w)?;
                let z = self.cx.c(0, w);
                let neg = self.cx.bin(Op::Sub, z, x);
                let c = self.cx.slt(x, z);
                self.cx.ite(c, neg, x)
            }
            "ucmp" | "scmp" => {
                let (x, y) = (self.te(&a[0], w)?, self.te(&a[1], w)?);
                let rw = rty.bits();
                let lt = if parts[0] == "ucmp" { self.cx.ult(x, y) } else { self.cx.slt(x, y) };
                let eq = self.cx.eq(x, y);
                let (m1, z, one) = (self.cx.c(u128::MAX, rw), self.cx.c(0, rw), self.cx.c(1, rw));
                let r = self.cx.ite(eq, z, one);
                self.cx.ite(lt, m1, r)
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if parts[1] == "with" => {
                let op = match &parts[0][1..] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let signed = parts[0].starts_with('s');
                let (v, o) = self.overflow(op, signed, &a[0], &a[1], w)?;
                return Ok(Some(Val::A(Rc::new(vec![v, o]))));
            }
            "uadd" | "usub" | "sadd" | "ssub" if parts[1] == "sat" => {
                let op = if &parts[0][1..] == "add" { Op::Add } else { Op::Sub };
                let signed = parts[0].starts_with('s');
                let (v, o) = self.overflow(op, signed, &a[0], &a[1], w)?;
                let (v, o) = (self.te(&v, w)?, self.te(&o, 1)?);
                let sat = if signed {
                    let x = self.te(&a[0], w)?;
                    let t = self.cx.ext(x, w - 1, 1);
                    let mn = self.cx.c(1u128 << (w - 1), w);
                    let mx = self.cx.c((1u128 << (w - 1)) - 1, w);
                    self.cx.ite(t, mn, mx)
                } else if op == Op::Add {
                    self.cx.c(u128::MAX, w)
                } else {
                    self.cx.c(0, w)
                };
                self.cx.ite(o, sat, v)
            }
            "ctpop" => {
                let x = self.te(&a[0], w)?;
                let mut r = self.cx.c(0, w);
                for i in 0..w {
                    let b = self.cx.ext(x, i, 1);
                    let b = if w > 1 { self.cx.zext(b, w) } else { b };
                    r = self.cx.bin(Op::Add, r, b);
                }
                r
            }
            "ctlz" | "cttz" => {
                let x = self.te(&a[0], w)?;
                let mut r = self.cx.c(w as u128, w);
                for j in 0..w {
                    // last assignment wins
                    let i = if parts[0] == "ctlz" { j } else { w - 1 - j };
                    let b = self.cx.ext(x, i, 1);
                    let k = if parts[0] == "ctlz" { w - 1 - i } else { i };
                    let k = self.cx.c(k as u128, w);
                    r = self.cx.ite(b, k, r);
                }
                r
            }
            "bswap" => {
                let x = self.te(&a[0], w)?;
                let mut p = vec![];
                for i in (0..w / 8).rev() {
                    p.push(self.cx.ext(x, i * 8, 8));
                }
                self.cx.cat(p)
            }
            "bitreverse" => {
                let x = self.te(&a[0], w)?;
                let mut p = vec![];
                for i in (0..w).rev() {
                    p.push(self.cx.ext(x, i, 1));
                }
                self.cx.cat(p)
            }
            "fshl" | "fshr" => {
                let (x, y) = (self.te(&a[0], w)?, self.te(&a[1], w)?);
                let k = (self.conc(s, &a[2])? % w as u64) as u32;
                if k == 0 {
                    if parts[0] == "fshl" { x } else { y }
                } else {
                    // concat x:y, take the window
                    let lo = if parts[0] == "fshl" { w - k } else { k };
                    let hi = self.cx.ext(x, 0, lo);
                    let low = self.cx.ext(y, lo, w - lo);
                    self.cx.cat(vec![low, hi])
                }
            }
            "fabs" => {
                let x = self.te(&a[0], w)?;
                let m = self.cx.c(ones(w) >> 1, w);
                self.cx.and(x, m)
            }
            "fptoui" | "fptosi" => {
                let x = self.te(&a[0], w)?;
                if self.cx.as_const(x).is_none() {
                    return Err(self.err("symbolic float to int".into()));
                }
                let f = if parts[0] == "fptoui" { FOp::ToUSat } else { FOp::ToSSat };
                self.cx.fp(f, x, x, rty.bits())
            }
            "pow" | "powi" | "exp2" | "floor" | "sqrt" | "log2" | "ceil" | "trunc" | "copysign" => {
                let mut c = vec![];
                for x in a {
                    match x {
                        Val::C(v) => c.push(*v),
                        _ => return Err(self.err(format!("symbolic {n}"))),
                    }
                }
                let v = if w == 64 {
                    let f = |i: usize| f64::from_bits(c[i]);
                    let r = match parts[0] {
                        "pow" => f(0).powf(f(1)),
                        "powi" => f(0).powi(c[1] as u32 as i32),
                        "exp2" => f(0).exp2(),
                        "floor" => f(0).floor(),
                        "sqrt" => f(0).sqrt(),
                        "log2" => f(0).log2(),
                        "ceil" => f(0).ceil(),
                        "trunc" => f(0).trunc(),
                        _ => f(0).copysign(f(1)),
                    };
                    r.to_bits()
                } else {
                    let f = |i: usize| f32::from_bits(c[i] as u32);
                    let r = match parts[0] {
                        "pow" => f(0).powf(f(1)),
                        "powi" => f(0).powi(c[1] as u32 as i32),
                        "exp2" => f(0).exp2(),
                        "floor" => f(0).floor(),
                        "sqrt" => f(0).sqrt(),
                        "log2" => f(0).log2(),
                        "ceil" => f(0).ceil(),
                        "trunc" => f(0).trunc(),
                        _ => f(0).copysign(f(1)),
                    };
                    r.to_bits() as u64
                };
                return Ok(Some(Val::C(v)));
            }
            "ldexp" => {
                let x = self.te(&a[0], 64)?;
                let k = self.conc(s, &a[1])? as u32 as i32;
                return self.ldexp(x, k).map(Some);
            }
            _ => return Ok(None),
        };
        Ok(Some(self.ve(r)))
    }

    fn overflow(&mut self, op: Op, signed: bool, x: &Val, y: &Val, w: u32) -> X<(Val, Val)> {
        let (a, b) = (self.te(x, w)?, self.te(y, w)?);
        if w > 64 {
            // concrete only
            let (p, q) = match (self.cx.as_const(a), self.cx.as_const(b)) {
                (Some(p), Some(q)) => (p, q),
                _ => return Err(self.err("symbolic wide overflow arithmetic".into())),
            };
            let (r, o) = if signed {
                let (r, o) = match op {
                    Op::Add => (p as i128).overflowing_add(q as i128),
                    Op::Sub => (p as i128).overflowing_sub(q as i128),
                    _ => (p as i128).overflowing_mul(q as i128),
                };
                (r as u128, o)
            } else {
                match op {
                    Op::Add => p.overflowing_add(q),
                    Op::Sub => p.overflowing_sub(q),
                    _ => p.overflowing_mul(q),
                }
            };
            return Ok((self.ci(r, w), Val::C(o as u64)));
        }
        let ww = if op == Op::Mul { 2 * w } else { w + 1 };
        let r = self.cx.bin(op, a, b);
        let o = if signed {
            let (p, q) = (self.cx.sext(a, ww), self.cx.sext(b, ww));
            let wide = self.cx.bin(op, p, q);
            let back = self.cx.sext(r, ww);
            let e = self.cx.eq(wide, back);
            self.cx.not(e)
        } else if op == Op::Sub {
            self.cx.ult(a, b)
        } else {
            let (p, q) = (self.cx.zext(a, ww), self.cx.zext(b, ww));
            let wide = self.cx.bin(op, p, q);
            let top = self.cx.ext(wide, w, ww - w);
            let z = self.cx.c(0, ww - w);
            let e = self.cx.eq(top, z);
            self.cx.not(e)
        };
        Ok((self.ve(r), self.ve(o)))
    }

    pub fn touched_names(&self) -> BTreeSet<String> {
        self.m
            .funcs
            .iter()
            .zip(&self.touched)
            .filter(|(_, t)| **t)
            .map(|(f, _)| f.pretty.clone())
            .collect()
    }
}

fn bin64(op: Op, a: u64, b: u64, w: u32) -> u64 {
    let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    let sa = ll::sext(a as u128, w);
    let sb = ll::sext(b as u128, w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => if b == 0 { m } else { sa.wrapping_div(sb) as u64 },
        Op::SRem => if b == 0 { a } else { sa.wrapping_rem(sb) as u64 },
        Op::Shl => if b >= w as u64 { 0 } else { a << b },
        Op::LShr => if b >= w as u64 { 0 } else { a >> b },
        Op::AShr => if b >= w as u64 { (sa >> 63) as u64 } else { (sa >> b) as u64 },
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
    }) & m
}
