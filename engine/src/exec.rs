//! Symbolic execution of LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Val {
    I(u16, u128),
    S(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: Vec<E>,
    pub ro: bool,
    pub kind: u8, // 0 heap 1 stack 2 global
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<Val>,
    pub blk: u32,
    pub prev: u32,
    pub ip: usize,
    pub allocas: Vec<u64>,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct InputRec {
    pub name: String,
    pub syms: Vec<u32>, // little-endian, each 8 bits or one wide symbol
    pub n: usize,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: BTreeMap<u64, Rc<Obj>>,
    pub next: u64,
    pub pc: Vec<E>,
    pub conc: HashMap<E, u128>,
    pub model: Rc<HashMap<u32, BigUint>>,
    pub inputs: Vec<InputRec>,
    pub ufs: Vec<usize>,
    pub obs: Vec<(String, Val)>,
    pub tags: Vec<String>,
    pub allow_panic: bool,
    pub steps: u64,
    pub notes: Vec<String>,
}

pub enum Stop {
    /// the path is over (assumption failed, panic allowed, ...)
    End(&'static str),
    /// cannot be decided
    Fail(String),
    /// a violation was recorded; the path ends
    Bug,
}
type R<T> = Result<T, Stop>;

#[derive(Default, Clone)]
pub struct CheckStat {
    pub evals: u64,
    pub proved_by_solver: u64,
    pub concrete: u64,
}

pub struct Violation {
    pub kind: String,
    pub name: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, String)>,
    pub ufs: Vec<(String, String, String)>,
    pub notes: Vec<String>,
}

pub struct Sample {
    pub inputs: Vec<(String, String)>,
    pub ufs: Vec<(String, String, String)>,
    pub obs: Vec<(String, String)>,
    pub tags: Vec<String>,
    pub end: String,
}

pub struct Engine {
    pub m: Module,
    pub ctx: Ctx,
    pub solver: Solver,
    pub globals: BTreeMap<u64, Rc<Obj>>,
    gaddr: HashMap<String, u64>,
    gnext: u64,
    faddr: HashMap<String, u64>,
    fname: HashMap<u64, String>,
    fnext: u64,
    pub work: Vec<State>,
    pub params: Vec<u64>,
    input_map: HashMap<(usize, String, usize, u8), Vec<u32>>,
    pub checks: BTreeMap<String, CheckStat>,
    pub expected: BTreeSet<String>,
    pub reached: BTreeMap<String, Vec<(String, String)>>,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    pub samples: Vec<Sample>,
    pub max_samples: usize,
    pub paths: u64,
    pub ends: BTreeMap<String, u64>,
    pub steps: u64,
    pub forks: u64,
    pub max_steps_path: u64,
    pub deadline: Instant,
    pub max_paths: u64,
    pub funcs: BTreeMap<String, u64>,
    pub dbgs: HashSet<u32>,
    pub max_violations: usize,
    pub conc_limit: usize,
    /// decide conditional moves on wide values like branches
    pub fork_select: bool,
    pub trace: bool,
    pub itrace: bool,
    cst_cache: HashMap<*const Cst, Val>,
    pub branch_stats: HashMap<String, u64>,
}

fn m128(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
fn sx(w: u16, v: u128) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn demangle(n: &str) -> String {
    // legacy mangling: _ZN <len><name>... 17h<hash>E
    let s = match n.strip_prefix("_ZN") {
        Some(s) => s,
        None => return n.to_string(),
    };
    let b = s.as_bytes();
    let mut i = 0;
    let mut parts: Vec<String> = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut k = 0usize;
        while i < b.len() && b[i].is_ascii_digit() {
            k = k * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + k > b.len() {
            break;
        }
        parts.push(s[i..i + k].to_string());
        i += k;
    }
    if let Some(l) = parts.last() {
        if l.len() == 17 && l.starts_with('h') {
            parts.pop();
        }
    }
    parts
        .join("::")
        .replace("$LT$", "<")
        .replace("$GT$", ">")
        .replace("$u20$", " ")
        .replace("$RF$", "&")
        .replace("$C$", ",")
        .replace("$BP$", "*")
        .replace("$u7b$", "{")
        .replace("$u7d$", "}")
        .replace("$u5b$", "[")
        .replace("$u5d$", "]")
        .replace("$LP$", "(")
        .replace("$RP$", ")")
        .replace("..", "::")
}

fn is_panic(n: &str) -> bool {
    if n == "abort" || n == "rust_panic" || n == "rust_begin_unwind" || n == "__rust_start_panic" {
        return true;
    }
    if n.contains("9panicking") && !n.contains("panic_count") && !n.contains("9panicking8panicking") && !n.contains("9panicking3try") {
        return true;
    }
    const P: &[&str] = &[
        "4core6option13expect_failed",
        "4core6result13unwrap_failed",
        "handle_alloc_error",
        "capacity_overflow",
        "slice_index_order_fail",
        "slice_start_index_len_fail",
        "slice_end_index_len_fail",
        "slice_error_fail",
        "len_mismatch_fail",
        "panic_bounds_check",
        "begin_panic",
        "panic_already_borrowed",
        "assert_failed",
        "copy_from_slice17len_mismatch",
        "unwrap_failed",
        "str_index_overflow_fail",
        "slice_start_index_overflow_fail",
        "slice_end_index_overflow_fail",
        "rust_panic_with_hook",
        "__rg_oom",
        "rust_oom",
    ];
    P.iter().any(|p| n.contains(p))
}

impl Engine {
    pub fn new(m: Module) -> Self {
        Engine {
            m,
            ctx: Ctx::new(),
            solver: Solver::new(),
            globals: BTreeMap::new(),
            gaddr: HashMap::new(),
            gnext: 0x1000_0000,
            faddr: HashMap::new(),
            fname: HashMap::new(),
            fnext: 0x7000_0000_0000,
            work: vec![],
            params: vec![],
            input_map: HashMap::new(),
            checks: BTreeMap::new(),
            expected: BTreeSet::new(),
            reached: BTreeMap::new(),
            violations: vec![],
            inconclusive: vec![],
            samples: vec![],
            max_samples: 8,
            paths: 0,
            ends: BTreeMap::new(),
            steps: 0,
            forks: 0,
            max_steps_path: 40_000_000,
            deadline: Instant::now() + Duration::from_secs(600),
            max_paths: 2_000_000,
            funcs: BTreeMap::new(),
            dbgs: HashSet::new(),
            max_violations: 1,
            conc_limit: 600,
            fork_select: false,
            trace: false,
            itrace: std::env::var("SYMX_ITRACE").is_ok(),
            cst_cache: HashMap::new(),
            branch_stats: HashMap::new(),
        }
    }

    // ---------------------------------------------------------------- constants and globals
    fn func_addr(&mut self, n: &str) -> u64 {
        if let Some(a) = self.faddr.get(n) {
            return *a;
        }
        let a = self.fnext;
        self.fnext += 16;
        self.faddr.insert(n.to_string(), a);
        self.fname.insert(a, n.to_string());
        a
    }
    fn global_addr(&mut self, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(n) {
            return *a;
        }
        if self.m.fpos.contains_key(n) || self.m.decls.contains_key(n) {
            return self.func_addr(n);
        }
        let g = match self.m.global(n) {
            Some(g) => g,
            None => panic!("unknown global {}", n),
        };
        if g.align == 0 {
            // alias
            let v = self.cst_val(&g.ty, g.init.as_ref().unwrap());
            if let Val::I(_, a) = v {
                self.gaddr.insert(n.to_string(), a as u64);
                return a as u64;
            }
            panic!("alias");
        }
        let size = g.ty.size();
        let a = align_up(self.gnext, g.align.max(16));
        self.gnext = a + size + 32;
        self.gaddr.insert(n.to_string(), a);
        let mut o = Obj { size, data: vec![0; size as usize], sym: vec![], ro: g.constant, kind: 2 };
        if let Some(c) = &g.init {
            self.init_bytes(&mut o.data, 0, &g.ty, c);
        }
        self.globals.insert(a, Rc::new(o));
        a
    }
    fn init_bytes(&mut self, d: &mut [u8], off: u64, ty: &Ty, c: &Cst) {
        match c {
            Cst::Zero | Cst::Undef | Cst::Null => {}
            Cst::Bytes(b) => d[off as usize..off as usize + b.len()].copy_from_slice(b),
            Cst::Agg(l) => match &**ty {
                T::Arr(_, t) | T::Vec(_, t) => {
                    let s = t.size();
                    for (i, (et, e)) in l.iter().enumerate() {
                        self.init_bytes(d, off + i as u64 * s, et, e);
                    }
                }
                T::Struct(..) => {
                    for (i, (et, e)) in l.iter().enumerate() {
                        let o = ty.field_off(i);
                        self.init_bytes(d, off + o, et, e);
                    }
                }
                _ => panic!("init agg"),
            },
            _ => {
                let v = self.cst_val(ty, c);
                match v {
                    Val::I(_, x) => {
                        let n = ty.store_size() as usize;
                        for k in 0..n.min(16) {
                            d[off as usize + k] = (x >> (8 * k)) as u8;
                        }
                    }
                    Val::S(e) => {
                        let b = self.ctx.cval(e).unwrap().to_bytes_le();
                        d[off as usize..off as usize + b.len()].copy_from_slice(&b);
                    }
                    _ => panic!("init"),
                }
            }
        }
    }
    fn zero_of(&mut self, ty: &Ty) -> Val {
        match &**ty {
            T::Int(w) if *w > 128 => {
                let e = self.ctx.cst(*w, BigUint::zero());
                Val::S(e)
            }
            T::Int(w) => Val::I(*w, 0),
            T::Ptr => Val::I(64, 0),
            T::F32 => Val::I(32, 0),
            T::F64 => Val::I(64, 0),
            T::Struct(f, _) => Val::A(Rc::new(f.iter().map(|t| self.zero_of(t)).collect())),
            T::Arr(n, t) | T::Vec(n, t) => {
                let z = self.zero_of(t);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            _ => Val::I(1, 0),
        }
    }
    fn cst_val(&mut self, ty: &Ty, c: &Cst) -> Val {
        match c {
            Cst::Int(w, v) => Val::I(*w, *v),
            Cst::Big(w, v) => Val::S(self.ctx.cst(*w, v.clone())),
            Cst::F(v) => Val::I(if matches!(**ty, T::F32) { 32 } else { 64 }, *v as u128),
            Cst::Null => Val::I(64, 0),
            Cst::Undef | Cst::Zero => self.zero_of(ty),
            Cst::Global(n) => Val::I(64, self.global_addr(n) as u128),
            Cst::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::I(8, *x as u128)).collect())),
            Cst::Agg(l) => {
                let v = l.iter().map(|(t, c)| self.cst_val(t, c)).collect();
                Val::A(Rc::new(v))
            }
            Cst::Gep(t, b, ix) => {
                let pt: Ty = Rc::new(T::Ptr);
                let base = match self.cst_val(&pt, b) {
                    Val::I(_, a) => a as u64,
                    _ => panic!("gep"),
                };
                let mut off: i64 = 0;
                let mut cur = t.clone();
                for (k, (it, iv)) in ix.iter().enumerate() {
                    let i = match self.cst_val(it, iv) {
                        Val::I(w, v) => sx(w, v) as i64,
                        _ => panic!(),
                    };
                    if k == 0 {
                        off += i * cur.size() as i64;
                    } else {
                        let nt = match &*cur {
                            T::Struct(f, _) => {
                                off += cur.field_off(i as usize) as i64;
                                f[i as usize].clone()
                            }
                            T::Arr(_, e) | T::Vec(_, e) => {
                                off += i * e.size() as i64;
                                e.clone()
                            }
                            _ => panic!(),
                        };
                        cur = nt;
                    }
                }
                Val::I(64, base.wrapping_add(off as u64) as u128)
            }
            Cst::Cast(op, t, c, t2) => {
                let v = self.cst_val(t, c);
                let w2 = t2.bits() as u16;
                match v {
                    Val::I(w, x) => match op.as_str() {
                        "sext" => Val::I(w2, sx(w, x) as u128 & m128(w2)),
                        _ => Val::I(w2, x & m128(w2)),
                    },
                    _ => panic!("const cast"),
                }
            }
            Cst::Bin(op, t, a, b) => {
                let (x, y) = (self.cst_val(t, a), self.cst_val(t, b));
                if let (Val::I(w, x), Val::I(_, y)) = (x, y) {
                    let m = m128(w);
                    let r = match op.as_str() {
                        "add" => x.wrapping_add(y),
                        "sub" => x.wrapping_sub(y),
                        "mul" => x.wrapping_mul(y),
                        "xor" => x ^ y,
                        "and" => x & y,
                        "or" => x | y,
                        "shl" => x << y,
                        _ => x >> y,
                    };
                    Val::I(w, r & m)
                } else {
                    panic!("const bin")
                }
            }
        }
    }

    // ---------------------------------------------------------------- values
    fn e(&mut self, v: &Val) -> E {
        match v {
            Val::I(w, x) => self.ctx.c128(*w, *x),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate used as scalar"),
        }
    }
    fn norm(&self, e: E) -> Val {
        let w = self.ctx.w(e);
        if w <= 128 {
            if let Some(v) = self.ctx.cu128(e) {
                return Val::I(w, v);
            }
        }
        Val::S(e)
    }
    fn simp(&self, st: &State, v: Val) -> Val {
        if let Val::S(e) = v {
            if let Some(x) = st.conc.get(&e) {
                return Val::I(self.ctx.w(e), *x);
            }
        }
        v
    }
    fn op(&mut self, st: &State, o: &Op, ty: &Ty) -> Val {
        match o {
            Op::R(r) => {
                let v = st.frames.last().unwrap().regs[*r as usize].clone();
                self.simp(st, v)
            }
            Op::C(c) => match &**c {
                Cst::Int(w, v) => Val::I(*w, *v),
                Cst::Null => Val::I(64, 0),
                _ => {
                    let k = Rc::as_ptr(c);
                    if let Some(v) = self.cst_cache.get(&k) {
                        return v.clone();
                    }
                    let v = self.cst_val(ty, c);
                    self.cst_cache.insert(k, v.clone());
                    v
                }
            },
        }
    }
    fn set(&mut self, st: &mut State, dst: Option<u32>, v: Val) {
        if let Some(d) = dst {
            let v = match v {
                Val::S(e) => self.norm(e),
                v => v,
            };
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }

    // ---------------------------------------------------------------- models and queries
    pub fn mval(model: &HashMap<u32, BigUint>, i: u32) -> BigUint {
        model.get(&i).cloned().unwrap_or_else(BigUint::zero)
    }
    fn meval(&self, st: &State, e: E) -> BigUint {
        let mut memo = HashMap::new();
        let m = st.model.clone();
        self.ctx.eval(e, &|i| Self::mval(&m, i), &mut memo)
    }
    fn slice(&mut self, st: &State, extra: &[E]) -> Vec<E> {
        let mut syms: HashSet<u32> = HashSet::new();
        for e in extra {
            syms.extend(self.ctx.symset(*e).iter());
        }
        let sets: Vec<Rc<Vec<u32>>> = st.pc.iter().map(|c| self.ctx.symset(*c)).collect();
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for i in 0..st.pc.len() {
                if !used[i] && sets[i].iter().any(|s| syms.contains(s)) {
                    used[i] = true;
                    ch = true;
                    syms.extend(sets[i].iter());
                }
            }
            if !ch {
                break;
            }
        }
        let mut v: Vec<E> = (0..st.pc.len()).filter(|i| used[*i]).map(|i| st.pc[i]).collect();
        v.extend_from_slice(extra);
        v
    }
    fn query(&mut self, st: &State, extra: &[E], what: &str) -> Res {
        let cs = self.slice(st, extra);
        self.solver.check(&self.ctx, &cs, what)
    }
    fn merge_model(&mut self, st: &State, m: HashMap<u32, BigUint>) -> Rc<HashMap<u32, BigUint>> {
        let mut n = (*st.model).clone();
        n.extend(m);
        Rc::new(n)
    }
    fn assume(&mut self, st: &mut State, c: E) {
        if c == self.ctx.t {
            return;
        }
        if let N::And(a, b) = *self.ctx.node(c) {
            self.assume(st, a);
            self.assume(st, b);
            return;
        }
        if st.conc.get(&c) == Some(&1) {
            return;
        }
        st.pc.push(c);
        self.learn(st, c);
    }
    fn learn(&mut self, st: &mut State, c: E) {
        st.conc.insert(c, 1);
        let n = self.ctx.not(c);
        st.conc.insert(n, 0);
        match *self.ctx.node(c) {
            N::Eq(a, b) => {
                if let Some(v) = self.ctx.cu128(b) {
                    if self.ctx.w(a) <= 128 {
                        st.conc.insert(a, v);
                    }
                }
            }
            _ => {}
        }
    }
    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| demangle(&f.f.name)).collect()
    }
    /// Bytes of the inputs under a model; repairs hash outputs to the real function where possible.
    fn concrete_inputs(&mut self, st: &State, model: &HashMap<u32, BigUint>) -> (Vec<(String, String)>, Vec<(String, String, String)>) {
        let mut ins = vec![];
        for i in &st.inputs {
            let mut bytes = vec![];
            for s in &i.syms {
                let w = self.ctx.syms[*s as usize].w as usize;
                let mut b = Self::mval(model, *s).to_bytes_le();
                b.resize((w + 7) / 8, 0);
                bytes.extend(b);
            }
            bytes.truncate(i.n);
            ins.push((i.name.clone(), hexs(&bytes)));
        }
        let mut ufs = vec![];
        for k in &st.ufs {
            let (f, inp, out) = {
                let u = &self.ctx.ufs[*k];
                (u.f.clone(), u.input, u.out)
            };
            let mut memo = HashMap::new();
            let iv = self.ctx.eval(inp, &|i| Self::mval(model, i), &mut memo);
            let ov = self.ctx.eval(out, &|i| Self::mval(model, i), &mut memo);
            let conv = |v: BigUint, w: u16| {
                let mut b = v.to_bytes_le();
                b.resize((w as usize + 7) / 8, 0);
                hexs(&b)
            };
            let (iw, ow) = (self.ctx.w(inp), self.ctx.w(out));
            ufs.push((f, conv(iv, iw), conv(ov, ow)));
        }
        (ins, ufs)
    }
    /// Tries to make hash outputs in the model real.
    fn realize(&mut self, st: &State, extra: &[E], model: &HashMap<u32, BigUint>) -> HashMap<u32, BigUint> {
        if st.ufs.is_empty() {
            return model.clone();
        }
        let mut m = model.clone();
        for _ in 0..st.ufs.len() + 1 {
            for k in &st.ufs {
                let u = &self.ctx.ufs[*k];
                if u.sym == u32::MAX {
                    continue;
                }
                let mut memo = HashMap::new();
                let iv = self.ctx.eval(u.input, &|i| Self::mval(&m, i), &mut memo);
                if let Some(o) = real_uf(&u.f, &iv, self.ctx.w(u.input)) {
                    m.insert(u.sym, o);
                }
            }
        }
        let mut memo = HashMap::new();
        for c in st.pc.iter().chain(extra.iter()) {
            if self.ctx.eval(*c, &|i| Self::mval(&m, i), &mut memo).is_zero() {
                return model.clone();
            }
        }
        m
    }
    fn violation(&mut self, st: &State, kind: &str, name: &str, model: Rc<HashMap<u32, BigUint>>, extra: &[E]) {
        let m = self.realize(st, extra, &model);
        let (inputs, ufs) = self.concrete_inputs(st, &m);
        self.violations.push(Violation {
            kind: kind.to_string(),
            name: name.to_string(),
            stack: self.stack(st),
            inputs,
            ufs,
            notes: st.notes.clone(),
        });
    }
    fn sample(&mut self, st: &State, end: &str) {
        if self.samples.len() >= self.max_samples {
            // reservoir by path number: replace deterministically spread samples
            let k = self.paths as usize;
            if k.count_ones() != 1 {
                return;
            }
        }
        let m = self.realize(st, &[], &st.model.clone());
        let (inputs, ufs) = self.concrete_inputs(st, &m);
        let mut obs = vec![];
        for (n, v) in st.obs.clone() {
            let e = self.e(&v);
            let mut memo = HashMap::new();
            let x = self.ctx.eval(e, &|i| Self::mval(&m, i), &mut memo);
            obs.push((n, x.to_string()));
        }
        self.samples.push(Sample { inputs, ufs, obs, tags: st.tags.clone(), end: end.to_string() });
    }

    /// Decides a boolean; forks when both outcomes are possible.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if c == self.ctx.t {
            return Ok(true);
        }
        if c == self.ctx.f {
            return Ok(false);
        }
        if let Some(v) = st.conc.get(&c) {
            return Ok(*v == 1);
        }
        let b = !self.meval(st, c).is_zero();
        let nc = self.ctx.not(c);
        let (mine, other) = if b { (c, nc) } else { (nc, c) };
        let what = if self.solver.stats.queries > 0 { st.frames.last().map(|f| f.f.name.to_string()).unwrap_or_default() } else { String::new() };
        match self.query(st, &[other], &what) {
            Res::Unsat => {
                self.learn(st, mine);
                Ok(b)
            }
            Res::Sat(m) => {
                let mut o = st.clone();
                o.model = self.merge_model(st, m);
                self.assume(&mut o, other);
                self.work.push(o);
                self.forks += 1;
                if self.trace {
                    let k = format!("{}:{}", demangle(&st.frames.last().unwrap().f.name), st.frames.last().unwrap().blk);
                    *self.branch_stats.entry(k).or_insert(0) += 1;
                }
                self.assume(st, mine);
                Ok(b)
            }
            Res::Unknown => {
                let s = self.stack(st).join(" < ");
                self.inconclusive.push(format!("solver gave no answer on a branch in {}", s));
                self.assume(st, mine);
                Ok(b)
            }
        }
    }
    /// All feasible values of e with a witness each; none if more than the limit.
    fn enumerate(&mut self, st: &State, e: E, limit: usize) -> R<Vec<(u128, Rc<HashMap<u32, BigUint>>)>> {
        let v0 = self.meval(st, e).to_u128().unwrap();
        let mut vals = vec![(v0, st.model.clone())];
        let w = self.ctx.w(e);
        let mut extra = vec![];
        loop {
            let last = self.ctx.c128(w, vals.last().unwrap().0);
            let ne = self.ctx.ne(e, last);
            extra.push(ne);
            match self.query(st, &extra, "enumerate") {
                Res::Unsat => return Ok(vals),
                Res::Unknown => return Err(Stop::Fail("solver gave no answer while enumerating".into())),
                Res::Sat(m) => {
                    let mm = self.merge_model(st, m);
                    let mut memo = HashMap::new();
                    let v = self.ctx.eval(e, &|i| Self::mval(&mm, i), &mut memo).to_u128().unwrap();
                    vals.push((v, mm));
                    if vals.len() > limit {
                        return Err(Stop::Fail(format!("more than {} values for {} in {}", limit, self.ctx.show(e, 4), self.stack(st).join(" < "))));
                    }
                }
            }
        }
    }
    fn concretize(&mut self, st: &mut State, v: &Val) -> R<u128> {
        let e = match v {
            Val::I(_, x) => return Ok(*x),
            Val::S(e) => *e,
            _ => panic!(),
        };
        if let Some(v) = self.ctx.cu128(e) {
            return Ok(v);
        }
        if let Some(v) = st.conc.get(&e) {
            return Ok(*v);
        }
        let vals = self.enumerate(st, e, self.conc_limit)?;
        let w = self.ctx.w(e);
        for (v, m) in vals.iter().skip(1).rev() {
            let mut o = st.clone();
            o.model = m.clone();
            let c = self.ctx.c128(w, *v);
            let q = self.ctx.eq(e, c);
            o.conc.insert(e, *v);
            self.assume(&mut o, q);
            self.work.push(o);
            self.forks += 1;
        }
        let c = self.ctx.c128(w, vals[0].0);
        let q = self.ctx.eq(e, c);
        self.assume(st, q);
        st.conc.insert(e, vals[0].0);
        Ok(vals[0].0)
    }

    // ---------------------------------------------------------------- memory
    fn find(&self, st: &State, a: u64, n: u64) -> Option<(u64, Rc<Obj>)> {
        if let Some((b, o)) = st.mem.range(..=a).next_back() {
            if a - b + n <= o.size {
                return Some((*b, o.clone()));
            }
        }
        if let Some((b, o)) = self.globals.range(..=a).next_back() {
            if a - b + n <= o.size {
                return Some((*b, o.clone()));
            }
        }
        None
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: u8) -> R<u64> {
        if size > 64 << 20 {
            return Err(Stop::Fail(format!("allocation of {} bytes in {}", size, self.stack(st).join(" < "))));
        }
        let a = align_up(st.next, align.max(16));
        st.next = a + size + 32;
        st.mem.insert(a, Rc::new(Obj { size, data: vec![0; size as usize], sym: vec![], ro: false, kind }));
        Ok(a)
    }
    fn bad_access(&mut self, st: &State, what: &str, a: u64) -> Stop {
        let m = st.model.clone();
        self.violation(st, "memory", &format!("{} at {:#x}", what, a), m, &[]);
        Stop::Bug
    }
    fn rd(&mut self, st: &State, a: u64, n: u64) -> R<(Rc<Obj>, u64)> {
        match self.find(st, a, n) {
            Some((b, o)) => Ok((o, a - b)),
            None => Err(self.bad_access(st, &format!("invalid read of {} bytes", n), a)),
        }
    }
    fn wr<'a>(&mut self, st: &'a mut State, a: u64, n: u64) -> R<(&'a mut Obj, u64)> {
        let (b, o) = match self.find(st, a, n) {
            Some(x) => x,
            None => return Err(self.bad_access(st, &format!("invalid write of {} bytes", n), a)),
        };
        if o.ro {
            return Err(self.bad_access(st, "write to constant memory", a));
        }
        if !st.mem.contains_key(&b) {
            st.mem.insert(b, o);
        } else {
            drop(o);
        }
        let r = st.mem.get_mut(&b).unwrap();
        Ok((Rc::make_mut(r), a - b))
    }
    fn load_at(&mut self, st: &State, a: u64, ty: &Ty) -> R<Val> {
        match &**ty {
            T::Struct(f, _) => {
                let mut v = vec![];
                for (i, t) in f.iter().enumerate() {
                    let t = t.clone();
                    v.push(self.load_at(st, a + ty.field_off(i), &t)?);
                }
                return Ok(Val::A(Rc::new(v)));
            }
            T::Arr(n, t) | T::Vec(n, t) => {
                if t.bits() % 8 != 0 {
                    return Err(Stop::Fail("load of a bit vector".into()));
                }
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_at(st, a + i * t.size(), t)?);
                }
                return Ok(Val::A(Rc::new(v)));
            }
            _ => {}
        }
        let n = ty.store_size();
        let w = ty.bits() as u16;
        let (o, off) = self.rd(st, a, n)?;
        let off = off as usize;
        let n = n as usize;
        let mut anysym = false;
        if !o.sym.is_empty() {
            anysym = o.sym[off..off + n].iter().any(|e| *e != 0);
        }
        if !anysym && n <= 16 {
            let mut x = 0u128;
            for k in 0..n {
                x |= (o.data[off + k] as u128) << (8 * k);
            }
            return Ok(Val::I(w, x & m128(w)));
        }
        let mut r: Option<E> = None;
        for k in 0..n {
            let mut b = if anysym && o.sym[off + k] != 0 { o.sym[off + k] } else { self.ctx.c128(8, o.data[off + k] as u128) };
            if let Some(v) = st.conc.get(&b) {
                b = self.ctx.c128(8, *v);
            }
            r = Some(match r {
                None => b,
                Some(l) => self.ctx.cat(b, l),
            });
        }
        let mut r = r.unwrap();
        if self.ctx.w(r) > w {
            r = self.ctx.ext(w - 1, 0, r);
        }
        if let Some(v) = st.conc.get(&r) {
            return Ok(Val::I(w, *v));
        }
        Ok(self.norm(r))
    }
    fn store_at(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        if let Val::A(l) = v {
            match &**ty {
                T::Struct(f, _) => {
                    for (i, t) in f.iter().enumerate() {
                        let t = t.clone();
                        self.store_at(st, a + ty.field_off(i), &t, &l[i])?;
                    }
                }
                T::Arr(_, t) | T::Vec(_, t) => {
                    if t.bits() % 8 != 0 {
                        return Err(Stop::Fail("store of a bit vector".into()));
                    }
                    for (i, x) in l.iter().enumerate() {
                        self.store_at(st, a + i as u64 * t.size(), t, x)?;
                    }
                }
                _ => panic!("store agg"),
            }
            return Ok(());
        }
        let n = ty.store_size();
        match v {
            Val::I(_, x) => {
                let x = *x;
                let (o, off) = self.wr(st, a, n)?;
                let off = off as usize;
                for k in 0..n as usize {
                    o.data[off + k] = if k < 16 { (x >> (8 * k)) as u8 } else { 0 };
                    if !o.sym.is_empty() {
                        o.sym[off + k] = 0;
                    }
                }
            }
            Val::S(e) => {
                let mut e = *e;
                let fullw = (n * 8) as u16;
                if self.ctx.w(e) < fullw {
                    e = self.ctx.zext(e, fullw);
                }
                let mut bytes = Vec::with_capacity(n as usize);
                for k in 0..n as u16 {
                    let b = self.ctx.ext(8 * k + 7, 8 * k, e);
                    bytes.push(match self.ctx.cu128(b) {
                        Some(v) => (0, v as u8),
                        None => (b, 0),
                    });
                }
                self.store_bytes(st, a, &bytes)?;
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    fn store_bytes(&mut self, st: &mut State, a: u64, bytes: &[(E, u8)]) -> R<()> {
        if bytes.is_empty() {
            return Ok(());
        }
        let (o, off) = self.wr(st, a, bytes.len() as u64)?;
        let off = off as usize;
        if o.sym.is_empty() && bytes.iter().any(|b| b.0 != 0) {
            o.sym = vec![0; o.size as usize];
        }
        for (k, (e, v)) in bytes.iter().enumerate() {
            o.data[off + k] = *v;
            if !o.sym.is_empty() {
                o.sym[off + k] = *e;
            }
        }
        Ok(())
    }
    fn read_bytes(&mut self, st: &State, a: u64, n: u64) -> R<Vec<(E, u8)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.rd(st, a, n)?;
        let mut v = Vec::with_capacity(n as usize);
        for k in 0..n as usize {
            let off = off as usize + k;
            let e = if o.sym.is_empty() { 0 } else { o.sym[off] };
            if e != 0 {
                if let Some(c) = st.conc.get(&e) {
                    v.push((0, *c as u8));
                    continue;
                }
            }
            v.push((e, if e == 0 { o.data[off] } else { 0 }));
        }
        Ok(v)
    }
    fn bytes_expr(&mut self, b: &[(E, u8)]) -> E {
        let mut r: Option<E> = None;
        for (e, v) in b {
            let x = if *e != 0 { *e } else { self.ctx.c128(8, *v as u128) };
            r = Some(match r {
                None => x,
                Some(l) => self.ctx.cat(x, l),
            });
        }
        r.unwrap()
    }
    fn expr_bytes(&mut self, e: E) -> Vec<(E, u8)> {
        let n = self.ctx.w(e) / 8;
        (0..n)
            .map(|k| {
                let b = self.ctx.ext(8 * k + 7, 8 * k, e);
                match self.ctx.cu128(b) {
                    Some(v) => (0, v as u8),
                    None => (b, 0),
                }
            })
            .collect()
    }
    fn load(&mut self, st: &mut State, p: &Val, ty: &Ty) -> R<Val> {
        match p {
            Val::I(_, a) => self.load_at(st, *a as u64, ty),
            Val::S(e) => {
                if matches!(**ty, T::Struct(..) | T::Arr(..) | T::Vec(..)) {
                    let a = self.concretize(st, p)?;
                    return self.load_at(st, a as u64, ty);
                }
                let vals = self.enumerate(st, *e, self.conc_limit)?;
                let mut r: Option<E> = None;
                for (a, _) in &vals {
                    let v = self.load_at(st, *a as u64, ty)?;
                    let x = self.e(&v);
                    r = Some(match r {
                        None => x,
                        Some(o) => {
                            let c = self.ctx.c128(64, *a);
                            let c = self.ctx.eq(*e, c);
                            self.ctx.ite(c, x, o)
                        }
                    });
                }
                Ok(self.norm(r.unwrap()))
            }
            _ => panic!(),
        }
    }
    fn store(&mut self, st: &mut State, p: &Val, ty: &Ty, v: &Val) -> R<()> {
        match p {
            Val::I(_, a) => self.store_at(st, *a as u64, ty, v),
            Val::S(e) => {
                if matches!(**ty, T::Struct(..) | T::Arr(..) | T::Vec(..)) {
                    let a = self.concretize(st, p)?;
                    return self.store_at(st, a as u64, ty, v);
                }
                let vals = self.enumerate(st, *e, self.conc_limit)?;
                let x = self.e(v);
                for (a, _) in &vals {
                    let old = self.load_at(st, *a as u64, ty)?;
                    let old = self.e(&old);
                    let c = self.ctx.c128(64, *a);
                    let c = self.ctx.eq(*e, c);
                    let n = self.ctx.ite(c, x, old);
                    let n = self.norm(n);
                    self.store_at(st, *a as u64, ty, &n)?;
                }
                Ok(())
            }
            _ => panic!(),
        }
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let b = self.read_bytes(st, s, n)?;
        self.store_bytes(st, d, &b)
    }

    // ---------------------------------------------------------------- arithmetic
    fn bin(&mut self, op: &str, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let mut v = vec![];
            for i in 0..x.len() {
                v.push(self.bin(op, w, &x[i], &y[i])?);
            }
            return Ok(Val::A(Rc::new(v)));
        }
        if let (Val::I(_, x), Val::I(_, y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m128(w);
            let r = match op {
                "add" => x.wrapping_add(y),
                "sub" => x.wrapping_sub(y),
                "mul" => x.wrapping_mul(y),
                "and" => x & y,
                "or" => x | y,
                "xor" => x ^ y,
                "udiv" => {
                    if y == 0 {
                        return Err(Stop::Fail("division by zero in IR".into()));
                    }
                    x / y
                }
                "urem" => {
                    if y == 0 {
                        return Err(Stop::Fail("division by zero in IR".into()));
                    }
                    x % y
                }
                "sdiv" => {
                    if y == 0 {
                        return Err(Stop::Fail("division by zero in IR".into()));
                    }
                    sx(w, x).wrapping_div(sx(w, y)) as u128
                }
                "srem" => {
                    if y == 0 {
                        return Err(Stop::Fail("division by zero in IR".into()));
                    }
                    sx(w, x).wrapping_rem(sx(w, y)) as u128
                }
                "shl" => {
                    if y >= w as u128 {
                        0
                    } else {
                        x << y
                    }
                }
                "lshr" => {
                    if y >= w as u128 {
                        0
                    } else {
                        x >> y
                    }
                }
                "ashr" => (sx(w, x) >> y.min(127)) as u128,
                _ => panic!("{}", op),
            };
            return Ok(Val::I(w, r & m));
        }
        let (x, y) = (self.e(a), self.e(b));
        let c = &mut self.ctx;
        let r = match op {
            "add" => c.add(x, y),
            "sub" => c.sub(x, y),
            "mul" => c.mul(x, y),
            "and" => c.and(x, y),
            "or" => c.or(x, y),
            "xor" => c.xor(x, y),
            "udiv" => c.bin_div(0, x, y),
            "urem" => c.bin_div(1, x, y),
            "sdiv" => c.bin_div(2, x, y),
            "srem" => c.bin_div(3, x, y),
            "shl" => c.shl(x, y),
            "lshr" => c.lshr(x, y),
            "ashr" => c.ashr(x, y),
            _ => panic!("{}", op),
        };
        Ok(self.norm(r))
    }
    fn icmp(&mut self, op: &str, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let v = (0..x.len()).map(|i| self.icmp(op, w, &x[i], &y[i])).collect();
            return Val::A(Rc::new(v));
        }
        if let (Val::I(_, x), Val::I(_, y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                "eq" => x == y,
                "ne" => x != y,
                "ult" => x < y,
                "ule" => x <= y,
                "ugt" => x > y,
                "uge" => x >= y,
                "slt" => sx(w, x) < sx(w, y),
                "sle" => sx(w, x) <= sx(w, y),
                "sgt" => sx(w, x) > sx(w, y),
                _ => sx(w, x) >= sx(w, y),
            };
            return Val::I(1, r as u128);
        }
        let (x, y) = (self.e(a), self.e(b));
        let c = &mut self.ctx;
        let r = match op {
            "eq" => c.eq(x, y),
            "ne" => c.ne(x, y),
            "ult" => c.ult(x, y),
            "ule" => c.ule(x, y),
            "ugt" => c.ult(y, x),
            "uge" => c.ule(y, x),
            "slt" => c.slt(x, y),
            "sle" => c.sle(x, y),
            "sgt" => c.slt(y, x),
            _ => c.sle(y, x),
        };
        self.norm(r)
    }
    fn pack(&mut self, v: &Val, ew: u16) -> E {
        match v {
            Val::A(l) => {
                let mut r: Option<E> = None;
                for x in l.iter() {
                    let e = self.e(x);
                    let e = if self.ctx.w(e) == ew { e } else { e };
                    r = Some(match r {
                        None => e,
                        Some(o) => self.ctx.cat(e, o),
                    });
                }
                r.unwrap()
            }
            v => self.e(v),
        }
    }
    fn cast(&mut self, st: &State, op: &str, t: &Ty, v: &Val, t2: &Ty) -> R<Val> {
        if op == "bitcast" {
            let ew = match &**t {
                T::Vec(_, e) => e.bits() as u16,
                _ => t.bits() as u16,
            };
            match (&**t, &**t2) {
                (_, T::Vec(n, e2)) => {
                    let p = self.pack(v, ew);
                    let k = e2.bits() as u16;
                    let mut out = vec![];
                    for i in 0..*n as u16 {
                        let x = self.ctx.ext(k * i + k - 1, k * i, p);
                        out.push(self.norm(x));
                    }
                    return Ok(Val::A(Rc::new(out)));
                }
                (T::Vec(..), _) => {
                    let p = self.pack(v, ew);
                    return Ok(self.norm(p));
                }
                _ => return Ok(v.clone()),
            }
        }
        if let Val::A(l) = v {
            let (e1, e2) = match (&**t, &**t2) {
                (T::Vec(_, a), T::Vec(_, b)) => (a.clone(), b.clone()),
                _ => return Err(Stop::Fail("cast of aggregate".into())),
            };
            let mut out = vec![];
            for x in l.iter() {
                out.push(self.cast(st, op, &e1, x, &e2)?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        let (w, w2) = (t.bits() as u16, t2.bits() as u16);
        match op {
            "trunc" | "zext" | "ptrtoint" | "inttoptr" | "sext" => {
                if let Val::I(_, x) = v {
                    if w2 <= 128 {
                        return Ok(match op {
                            "sext" => Val::I(w2, sx(w, *x) as u128 & m128(w2)),
                            _ => Val::I(w2, *x & m128(w2)),
                        });
                    }
                }
                let e = self.e(v);
                let r = if w2 < w {
                    self.ctx.ext(w2 - 1, 0, e)
                } else if op == "sext" {
                    self.ctx.sext(e, w2)
                } else {
                    self.ctx.zext(e, w2)
                };
                Ok(self.norm(r))
            }
            _ => {
                let x = match v {
                    Val::I(_, x) => *x,
                    _ => return Err(Stop::Fail(format!("symbolic {} in {}", op, self.stack(st).join(" < ")))),
                };
                let fl = |b: u128, t: &Ty| if matches!(**t, T::F32) { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b as u64) };
                let enc = |f: f64, t: &Ty| if matches!(**t, T::F32) { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 };
                Ok(match op {
                    "uitofp" => Val::I(w2, enc(x as f64, t2)),
                    "sitofp" => Val::I(w2, enc(sx(w, x) as f64, t2)),
                    "fptoui" => Val::I(w2, (fl(x, t) as u128) & m128(w2)),
                    "fptosi" => Val::I(w2, (fl(x, t) as i128 as u128) & m128(w2)),
                    _ => Val::I(w2, enc(fl(x, t), t2)),
                })
            }
        }
    }

    // ---------------------------------------------------------------- running
    pub fn start(&mut self, entry: &str) {
        let f = self.m.func(entry).unwrap_or_else(|| panic!("no function {}", entry));
        let st = State {
            frames: vec![Frame {
                regs: vec![Val::I(1, 0); f.nregs],
                f,
                blk: 0,
                prev: 0,
                ip: 0,
                allocas: vec![],
                dst: None,
                normal: None,
            }],
            mem: BTreeMap::new(),
            next: 0x4000_0000_0000,
            pc: vec![],
            conc: HashMap::new(),
            model: Rc::new(HashMap::new()),
            inputs: vec![],
            ufs: vec![],
            obs: vec![],
            tags: vec![],
            allow_panic: false,
            steps: 0,
            notes: vec![],
        };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if Instant::now() > self.deadline {
                self.inconclusive.push(format!("time limit reached with {} paths open", self.work.len() + 1));
                break;
            }
            if self.paths >= self.max_paths {
                self.inconclusive.push("path limit reached".into());
                break;
            }
            let r = self.run(&mut st);
            self.paths += 1;
            let end = match r {
                Ok(()) => "return",
                Err(Stop::End(s)) => s,
                Err(Stop::Bug) => "violation",
                Err(Stop::Fail(s)) => {
                    self.inconclusive.push(s);
                    "inconclusive"
                }
            };
            if end == "return" || end == "panic" {
                self.sample(&st, end);
            }
            *self.ends.entry(end.to_string()).or_insert(0) += 1;
            if self.violations.len() >= self.max_violations {
                break;
            }
        }
        for t in self.expected.clone() {
            if !self.reached.contains_key(&t) && self.violations.is_empty() {
                self.inconclusive.push(format!("vacuous: no path reaches '{}'", t));
            }
        }
    }
    fn run(&mut self, st: &mut State) -> R<()> {
        loop {
            st.steps += 1;
            self.steps += 1;
            if st.steps > self.max_steps_path {
                return Err(Stop::Fail(format!("path step limit in {}", self.stack(st).join(" < "))));
            }
            if self.steps & 0xffff == 0 && Instant::now() > self.deadline {
                return Err(Stop::Fail(format!("time limit reached in {}", self.stack(st).join(" < "))));
            }
            let (f, blk, ip) = {
                let fr = st.frames.last().unwrap();
                (fr.f.clone(), fr.blk as usize, fr.ip)
            };
            let ins = &f.blocks[blk][ip];
            if ins.dbg != 0 {
                self.dbgs.insert(ins.dbg);
            }
            let fin = self.step(st, &f, ins)?;
            if self.itrace {
                if let Some(d) = ins.dst {
                    let v = st.frames.last().and_then(|f| f.regs.get(d as usize).cloned());
                    let t = format!("{:?}", ins.i);
                    eprintln!("{} b{} r{} = {:?}   {}", demangle(&f.name), blk, d, v, &t[..t.len().min(160)]);
                }
            }
            if fin {
                return Ok(());
            }
        }
    }
    fn goto(&mut self, st: &mut State, b: u32) {
        let fr = st.frames.last_mut().unwrap();
        fr.prev = fr.blk;
        fr.blk = b;
        fr.ip = 0;
        // phis in parallel
        let f = fr.f.clone();
        let prev = fr.prev;
        let mut vals = vec![];
        let mut k = 0;
        for ins in &f.blocks[b as usize] {
            if let I::Phi(t, l) = &ins.i {
                let o = l.iter().find(|x| x.1 == prev).expect("phi pred");
                let v = self.op(st, &o.0, t);
                vals.push((ins.dst.unwrap(), v));
                k += 1;
            } else {
                break;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.ip = k;
    }
    /// true when the entry function returned
    fn step(&mut self, st: &mut State, f: &Rc<Func>, ins: &Ins) -> R<bool> {
        let _ = f;
        macro_rules! next {
            () => {
                st.frames.last_mut().unwrap().ip += 1
            };
        }
        match &ins.i {
            I::Bin(op, t, a, b) => {
                let (x, y) = (self.op(st, a, t), self.op(st, b, t));
                let w = match &**t {
                    T::Vec(_, e) => e.bits() as u16,
                    _ => t.bits() as u16,
                };
                let v = self.bin(op, w, &x, &y)?;
                self.set(st, ins.dst, v);
                next!();
            }
            I::ICmp(op, t, a, b) => {
                let (x, y) = (self.op(st, a, t), self.op(st, b, t));
                let w = match &**t {
                    T::Vec(_, e) => e.bits() as u16,
                    _ => t.bits() as u16,
                };
                let v = self.icmp(op, w, &x, &y);
                let v = self.simp(st, v);
                self.set(st, ins.dst, v);
                next!();
            }
            I::Cast(op, t, a, t2) => {
                let x = self.op(st, a, t);
                let v = self.cast(st, op, t, &x, t2)?;
                self.set(st, ins.dst, v);
                next!();
            }
            I::Freeze(t, a) => {
                let x = self.op(st, a, t);
                self.set(st, ins.dst, x);
                next!();
            }
            I::Select(ct, c, t, a, b) => {
                let cv = self.op(st, c, ct);
                let (x, y) = (self.op(st, a, t), self.op(st, b, t));
                let v = self.select(st, &cv, &x, &y)?;
                self.set(st, ins.dst, v);
                next!();
            }
            I::Alloca(t, n, al) => {
                let cnt = match n {
                    None => 1,
                    Some((nt, o)) => {
                        let v = self.op(st, o, nt);
                        self.concretize(st, &v)? as u64
                    }
                };
                let a = self.alloc(st, t.size() * cnt, *al, 1)?;
                st.frames.last_mut().unwrap().allocas.push(a);
                self.set(st, ins.dst, Val::I(64, a as u128));
                next!();
            }
            I::Load(t, a) => {
                let pt: Ty = PTR.with(|p| p.clone());
                let p = self.op(st, a, &pt);
                let v = self.load(st, &p, t)?;
                self.set(st, ins.dst, v);
                next!();
            }
            I::Store(t, v, a) => {
                let pt: Ty = PTR.with(|p| p.clone());
                let x = self.op(st, v, t);
                let p = self.op(st, a, &pt);
                self.store(st, &p, t, &x)?;
                next!();
            }
            I::Gep(t, b, ix) => {
                let pt: Ty = PTR.with(|p| p.clone());
                let mut cur = t.clone();
                let mut v = self.op(st, b, &pt);
                for (k, (it, o)) in ix.iter().enumerate() {
                    let i = self.op(st, o, it);
                    let scale;
                    if k == 0 {
                        scale = cur.size();
                    } else {
                        let nt = match &*cur {
                            T::Struct(fl, _) => {
                                let n = match i {
                                    Val::I(_, n) => n as usize,
                                    _ => panic!(),
                                };
                                let off = cur.field_off(n);
                                v = self.bin("add", 64, &v, &Val::I(64, off as u128))?;
                                cur = fl[n].clone();
                                continue;
                            }
                            T::Arr(_, e) | T::Vec(_, e) => e.clone(),
                            _ => panic!("gep into scalar"),
                        };
                        scale = nt.size();
                        cur = nt;
                    }
                    let iw = it.bits() as u16;
                    let i64v = match &i {
                        Val::I(_, x) => Val::I(64, sx(iw, *x) as u128 & m128(64)),
                        Val::S(e) => {
                            let e = if iw < 64 { self.ctx.sext(*e, 64) } else { *e };
                            Val::S(e)
                        }
                        _ => panic!(),
                    };
                    let off = self.bin("mul", 64, &i64v, &Val::I(64, scale as u128))?;
                    v = self.bin("add", 64, &v, &off)?;
                }
                self.set(st, ins.dst, v);
                next!();
            }
            I::Phi(..) => {
                // only reached when entered without goto
                panic!("phi");
            }
            I::Br(b) => self.goto(st, *b),
            I::CBr(c, a, b) => {
                let bt: Ty = Rc::new(T::Int(1));
                let v = self.op(st, c, &bt);
                let d = match v {
                    Val::I(_, x) => x == 1,
                    Val::S(e) => self.decide(st, e)?,
                    _ => panic!(),
                };
                self.goto(st, if d { *a } else { *b });
            }
            I::Switch(t, v, d, cases) => {
                let x = self.op(st, v, t);
                match x {
                    Val::I(_, x) => {
                        let b = cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*d);
                        self.goto(st, b);
                    }
                    Val::S(e) => {
                        // one decision per target block
                        let w = self.ctx.w(e);
                        let mut targets: Vec<(u32, E)> = vec![];
                        let mut any = self.ctx.f;
                        for (cv, l) in cases {
                            let k = self.ctx.c128(w, *cv);
                            let q = self.ctx.eq(e, k);
                            any = self.ctx.or(any, q);
                            if let Some(x) = targets.iter_mut().find(|x| x.0 == *l) {
                                x.1 = self.ctx.or(x.1, q);
                            } else {
                                targets.push((*l, q));
                            }
                        }
                        let nd = self.ctx.not(any);
                        if let Some(x) = targets.iter_mut().find(|x| x.0 == *d) {
                            x.1 = self.ctx.or(x.1, nd);
                        } else {
                            targets.push((*d, nd));
                        }
                        // the block of the current model
                        let mut mine = None;
                        for (k, (_, q)) in targets.iter().enumerate() {
                            if !self.meval(st, *q).is_zero() {
                                mine = Some(k);
                            }
                        }
                        let mine = mine.expect("switch");
                        let mut feas = 1;
                        for (k, (l, q)) in targets.clone().into_iter().enumerate() {
                            if k == mine || q == self.ctx.f {
                                continue;
                            }
                            match self.query(st, &[q], "switch") {
                                Res::Unsat => {}
                                Res::Sat(m) => {
                                    feas += 1;
                                    let mut o = st.clone();
                                    o.model = self.merge_model(st, m);
                                    self.assume(&mut o, q);
                                    self.goto(&mut o, l);
                                    self.work.push(o);
                                    self.forks += 1;
                                }
                                Res::Unknown => {
                                    self.inconclusive.push(format!("solver gave no answer on a switch in {}", self.stack(st).join(" < ")));
                                }
                            }
                        }
                        let q = targets[mine].1;
                        if feas > 1 {
                            self.assume(st, q);
                        } else {
                            self.learn(st, q);
                        }
                        self.goto(st, targets[mine].0);
                    }
                    _ => panic!(),
                }
            }
            I::Ret(v) => {
                let x = match v {
                    None => None,
                    Some((t, o)) => Some(self.op(st, o, t)),
                };
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.mem.remove(a);
                }
                if st.frames.is_empty() {
                    return Ok(true);
                }
                if let Some(x) = x {
                    self.set(st, fr.dst, x);
                }
                match fr.normal {
                    Some(b) => self.goto(st, b),
                    None => next!(),
                }
            }
            I::Unreachable => {
                // reached only after a diverging call that returned: report
                let m = st.model.clone();
                self.violation(st, "unreachable", "unreachable code executed", m, &[]);
                return Err(Stop::Bug);
            }
            I::ExtractValue(t, a, ix) | I::InsertValue(t, a, _, _, ix) if matches!(ins.i, I::ExtractValue(..)) => {
                let mut v = self.op(st, a, t);
                for i in ix {
                    v = match v {
                        Val::A(l) => l[*i].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                self.set(st, ins.dst, v);
                next!();
            }
            I::ExtractValue(..) => unreachable!(),
            I::InsertValue(t, a, t2, b, ix) => {
                let v = self.op(st, a, t);
                let x = self.op(st, b, t2);
                fn ins_at(v: Val, ix: &[usize], x: Val) -> Val {
                    if ix.is_empty() {
                        return x;
                    }
                    match v {
                        Val::A(mut l) => {
                            let li = Rc::make_mut(&mut l);
                            let old = li[ix[0]].clone();
                            li[ix[0]] = ins_at(old, &ix[1..], x);
                            Val::A(l)
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let r = ins_at(v, ix, x);
                self.set(st, ins.dst, r);
                next!();
            }
            I::ExtractElem(t, a, t2, b) => {
                let v = self.op(st, a, t);
                let i = self.op(st, b, t2);
                let i = self.concretize(st, &i)? as usize;
                let r = match v {
                    Val::A(l) => l[i].clone(),
                    _ => panic!(),
                };
                self.set(st, ins.dst, r);
                next!();
            }
            I::InsertElem(t, a, e, t2, b) => {
                let v = self.op(st, a, t);
                let i = self.op(st, b, t2);
                let i = self.concretize(st, &i)? as usize;
                let et = match &**t {
                    T::Vec(_, e) => e.clone(),
                    _ => panic!(),
                };
                let x = self.op(st, e, &et);
                let r = match v {
                    Val::A(mut l) => {
                        Rc::make_mut(&mut l)[i] = x;
                        Val::A(l)
                    }
                    _ => panic!(),
                };
                self.set(st, ins.dst, r);
                next!();
            }
            I::Shuffle(t, a, b, t2, mk) => {
                let (x, y) = (self.op(st, a, t), self.op(st, b, t));
                let m = self.op(st, mk, t2);
                let r = match (x, y, m) {
                    (Val::A(x), Val::A(y), Val::A(m)) => {
                        let n = x.len();
                        let v = m
                            .iter()
                            .map(|k| {
                                let k = match k {
                                    Val::I(_, k) => *k as usize,
                                    _ => panic!(),
                                };
                                if k < n {
                                    x[k].clone()
                                } else {
                                    y[(k - n).min(n - 1)].clone()
                                }
                            })
                            .collect();
                        Val::A(Rc::new(v))
                    }
                    _ => panic!(),
                };
                self.set(st, ins.dst, r);
                next!();
            }
            I::AtomicRmw(op, t, a, v) => {
                let pt: Ty = PTR.with(|p| p.clone());
                let p = self.op(st, a, &pt);
                let x = self.op(st, v, t);
                let a = self.concretize(st, &p)? as u64;
                let old = self.load_at(st, a, t)?;
                let w = t.bits() as u16;
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" | "sub" | "and" | "or" | "xor" => self.bin(op, w, &old, &x)?,
                    _ => return Err(Stop::Fail(format!("atomicrmw {}", op))),
                };
                self.store_at(st, a, t, &new)?;
                self.set(st, ins.dst, old);
                next!();
            }
            I::CmpXchg(t, a, c, n) => {
                let pt: Ty = PTR.with(|p| p.clone());
                let p = self.op(st, a, &pt);
                let a = self.concretize(st, &p)? as u64;
                let (cv, nv) = (self.op(st, c, t), self.op(st, n, t));
                let old = self.load_at(st, a, t)?;
                let w = t.bits() as u16;
                let q = self.icmp("eq", w, &old, &cv);
                let d = match q {
                    Val::I(_, x) => x == 1,
                    Val::S(e) => self.decide(st, e)?,
                    _ => panic!(),
                };
                if d {
                    self.store_at(st, a, t, &nv)?;
                }
                self.set(st, ins.dst, Val::A(Rc::new(vec![old, Val::I(1, d as u128)])));
                next!();
            }
            I::Nop => {
                next!();
            }
            I::LandingPad | I::Resume => return Err(Stop::Fail("unwinding".into())),
            I::FBin(op, t, a, b) => {
                let (x, y) = (self.op(st, a, t), self.op(st, b, t));
                let v = match (x, y) {
                    (Val::I(w, x), Val::I(_, y)) => {
                        let fl = |b: u128| if w == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b as u64) };
                        let (x, y) = (fl(x), fl(y));
                        let r = match *op {
                            "fadd" => x + y,
                            "fsub" => x - y,
                            "fmul" => x * y,
                            "fdiv" => x / y,
                            _ => x % y,
                        };
                        Val::I(w, if w == 32 { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 })
                    }
                    _ => return Err(Stop::Fail(format!("symbolic floating point in {}", self.stack(st).join(" < ")))),
                };
                self.set(st, ins.dst, v);
                next!();
            }
            I::FNeg(t, a) => {
                let x = self.op(st, a, t);
                let v = match x {
                    Val::I(w, x) => Val::I(w, x ^ (1u128 << (w - 1))),
                    _ => return Err(Stop::Fail("symbolic floating point".into())),
                };
                self.set(st, ins.dst, v);
                next!();
            }
            I::FCmp(c, t, a, b) => {
                let (x, y) = (self.op(st, a, t), self.op(st, b, t));
                let v = match (x, y) {
                    (Val::I(w, x), Val::I(_, y)) => {
                        let fl = |b: u128| if w == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b as u64) };
                        let (x, y) = (fl(x), fl(y));
                        let un = x.is_nan() || y.is_nan();
                        let r = match c.as_str() {
                            "oeq" => x == y,
                            "one" => !un && x != y,
                            "olt" => x < y,
                            "ole" => x <= y,
                            "ogt" => x > y,
                            "oge" => x >= y,
                            "ord" => !un,
                            "uno" => un,
                            "ueq" => un || x == y,
                            "une" => un || x != y,
                            "ult" => un || x < y,
                            "ule" => un || x <= y,
                            "ugt" => un || x > y,
                            "uge" => un || x >= y,
                            "true" => true,
                            _ => false,
                        };
                        Val::I(1, r as u128)
                    }
                    _ => return Err(Stop::Fail(format!("symbolic floating point in {}", self.stack(st).join(" < ")))),
                };
                self.set(st, ins.dst, v);
                next!();
            }
            I::Call { ret, callee, name, args, normal } => {
                let n: Rc<str> = match name {
                    Some(n) => n.clone(),
                    None => {
                        let pt: Ty = PTR.with(|p| p.clone());
                        let p = self.op(st, callee, &pt);
                        let a = self.concretize(st, &p)? as u64;
                        match self.fname.get(&a) {
                            Some(s) => Rc::from(s.as_str()),
                            None => return Err(self.bad_access(st, "call of a non-function", a)),
                        }
                    }
                };
                if n.starts_with("llvm.") {
                    let mut av = vec![];
                    for (t, o) in args {
                        if matches!(**t, T::Other) {
                            av.push(Val::I(1, 0));
                        } else {
                            av.push(self.op(st, o, t));
                        }
                    }
                    let v = self.intrinsic(st, &n, args, av, ret)?;
                    if let Some(v) = v {
                        self.set(st, ins.dst, v);
                    }
                    match normal {
                        Some(b) => self.goto(st, *b),
                        None => next!(),
                    }
                    return Ok(false);
                }
                if is_panic(&n) {
                    return Err(self.panicked(st, &n, args));
                }
                let mut av = Vec::with_capacity(args.len());
                for (t, o) in args {
                    av.push(self.op(st, o, t));
                }
                if let Some(v) = self.external(st, &n, &av)? {
                    match v {
                        Some(v) => self.set(st, ins.dst, v),
                        None => {}
                    }
                    match normal {
                        Some(b) => self.goto(st, *b),
                        None => next!(),
                    }
                    return Ok(false);
                }
                let callee = match self.m.func(&n) {
                    Some(f) => f,
                    None => return Err(Stop::Fail(format!("call of external function {} from {}", n, self.stack(st).join(" < ")))),
                };
                *self.funcs.entry(callee.name.to_string()).or_insert(0) += 1;
                if st.frames.len() > 400 {
                    return Err(Stop::Fail("call depth".into()));
                }
                let mut regs = vec![Val::I(1, 0); callee.nregs];
                for (k, (_, r)) in callee.params.iter().enumerate() {
                    regs[*r as usize] = av[k].clone();
                }
                st.frames.push(Frame { f: callee, regs, blk: 0, prev: 0, ip: 0, allocas: vec![], dst: ins.dst, normal: *normal });
            }
        }
        Ok(false)
    }
    fn select(&mut self, st: &mut State, c: &Val, x: &Val, y: &Val) -> R<Val> {
        match c {
            Val::I(_, b) => Ok(if *b == 1 { x.clone() } else { y.clone() }),
            Val::A(cs) => {
                let (xs, ys) = match (x, y) {
                    (Val::A(a), Val::A(b)) => (a.clone(), b.clone()),
                    _ => panic!(),
                };
                let mut v = vec![];
                for i in 0..cs.len() {
                    v.push(self.select(st, &cs[i], &xs[i], &ys[i])?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Val::S(e) => {
                if let (Val::A(a), Val::A(b)) = (x, y) {
                    let mut v = vec![];
                    for i in 0..a.len() {
                        v.push(self.select(st, c, &a[i], &b[i])?);
                    }
                    return Ok(Val::A(Rc::new(v)));
                }
                let (a, b) = (self.e(x), self.e(y));
                if self.fork_select && a != b && self.ctx.w(a) > 1 {
                    return Ok(if self.decide(st, *e)? { x.clone() } else { y.clone() });
                }
                let r = self.ctx.ite(*e, a, b);
                Ok(self.norm(r))
            }
        }
    }
    fn panicked(&mut self, st: &mut State, n: &str, args: &[(Ty, Op)]) -> Stop {
        if st.allow_panic {
            st.tags.push("panic".into());
            return Stop::End("panic");
        }
        let mut msg = demangle(n);
        // core::panicking::panic(&str)
        if args.len() >= 2 {
            let (a, b) = (self.op(st, &args[0].1, &args[0].0), self.op(st, &args[1].1, &args[1].0));
            if let (Val::I(_, p), Val::I(_, l)) = (a, b) {
                if l < 300 && matches!(*args[0].0, T::Ptr) {
                    if let Some((base, o)) = self.find(st, p as u64, l as u64) {
                        let off = (p as u64 - base) as usize;
                        if o.sym.is_empty() {
                            msg = format!("{}: {}", msg, String::from_utf8_lossy(&o.data[off..off + l as usize]));
                        }
                    }
                }
            }
        }
        let m = st.model.clone();
        self.violation(st, "panic", &msg, m, &[]);
        Stop::Bug
    }

    // ---------------------------------------------------------------- intrinsics
    fn ovf(&mut self, op: &str, w: u16, a: &Val, b: &Val) -> R<(Val, Val)> {
        // returns value, overflow
        if let (Val::I(_, x), Val::I(_, y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (bx, by) = (BigUint::from(x), BigUint::from(y));
            let max = mask(w);
            let (o, v) = match op {
                "uadd" => (bx + by > max, x.wrapping_add(y)),
                "usub" => (x < y, x.wrapping_sub(y)),
                "umul" => (bx * by > max, x.wrapping_mul(y)),
                _ => {
                    use num_bigint::BigInt;
                    let (sa, sb) = (BigInt::from(sx(w, x)), BigInt::from(sx(w, y)));
                    let r = match op {
                        "sadd" => sa + sb,
                        "ssub" => sa - sb,
                        _ => sa * sb,
                    };
                    let lim = BigInt::from(1) << (w as usize - 1);
                    let o = r >= lim || r < -lim.clone();
                    let v = match op {
                        "sadd" => x.wrapping_add(y),
                        "ssub" => x.wrapping_sub(y),
                        _ => x.wrapping_mul(y),
                    };
                    (o, v)
                }
            };
            return Ok((Val::I(w, v & m128(w)), Val::I(1, o as u128)));
        }
        let (x, y) = (self.e(a), self.e(b));
        let c = &mut self.ctx;
        let (v, o) = match op {
            "uadd" => {
                let (zx, zy) = (c.zext(x, w + 1), c.zext(y, w + 1));
                let s = c.add(zx, zy);
                let m = c.cst(w + 1, mask(w));
                let o = c.ult(m, s);
                (c.add(x, y), o)
            }
            "usub" => (c.sub(x, y), c.ult(x, y)),
            "umul" => {
                let (zx, zy) = (c.zext(x, 2 * w), c.zext(y, 2 * w));
                let p = c.mul(zx, zy);
                let m = c.cst(2 * w, mask(w));
                let o = c.ult(m, p);
                (c.ext(w - 1, 0, p), o)
            }
            "sadd" | "ssub" => {
                let (zx, zy) = (c.sext(x, w + 1), c.sext(y, w + 1));
                let s = if op == "sadd" { c.add(zx, zy) } else { c.sub(zx, zy) };
                let v = if op == "sadd" { c.add(x, y) } else { c.sub(x, y) };
                let b = c.sext(v, w + 1);
                let o = c.ne(b, s);
                (v, o)
            }
            _ => {
                let (zx, zy) = (c.sext(x, 2 * w), c.sext(y, 2 * w));
                let p = c.mul(zx, zy);
                let v = c.ext(w - 1, 0, p);
                let b = c.sext(v, 2 * w);
                let o = c.ne(b, p);
                (v, o)
            }
        };
        Ok((self.norm(v), self.norm(o)))
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, args: &[(Ty, Op)], av: Vec<Val>, ret: &Ty) -> R<Option<Val>> {
        let base = n.trim_start_matches("llvm.");
        let w = if args.is_empty() {
            0
        } else {
            match &*args[0].0 {
                T::Vec(_, e) => e.bits() as u16,
                t => t.bits() as u16,
            }
        };
        let starts = |p: &str| base.starts_with(p);
        if starts("lifetime.") || starts("assume") || starts("dbg.") || starts("experimental.noalias") || starts("invariant.") || starts("prefetch")
            || starts("x86.sse2.pause") || starts("donothing") || starts("var.annotation")
        {
            return Ok(Some(Val::I(64, 0)));
        }
        if starts("expect") || starts("launder") || starts("strip") || starts("threadlocal.address") {
            return Ok(Some(av[0].clone()));
        }
        if starts("memcpy") || starts("memmove") {
            let n = self.concretize(st, &av[2])? as u64;
            if n == 0 {
                return Ok(None);
            }
            let d = self.concretize(st, &av[0])? as u64;
            let s = self.concretize(st, &av[1])? as u64;
            self.memcpy(st, d, s, n)?;
            return Ok(None);
        }
        if starts("memset") {
            let n = self.concretize(st, &av[2])? as u64;
            if n == 0 {
                return Ok(None);
            }
            let d = self.concretize(st, &av[0])? as u64;
            let b = match &av[1] {
                Val::I(_, x) => (0, *x as u8),
                Val::S(e) => (*e, 0),
                _ => panic!(),
            };
            let v = vec![b; n as usize];
            self.store_bytes(st, d, &v)?;
            return Ok(None);
        }
        for op in ["uadd", "usub", "umul", "sadd", "ssub", "smul"] {
            if starts(op) && base[op.len()..].starts_with(".with.overflow") {
                let (v, o) = self.ovf(op, w, &av[0], &av[1])?;
                return Ok(Some(Val::A(Rc::new(vec![v, o]))));
            }
            if starts(op) && base[op.len()..].starts_with(".sat") {
                if let (Val::A(x), Val::A(y)) = (&av[0], &av[1]) {
                    if op == "uadd" || op == "usub" {
                        let mut out = vec![];
                        for i in 0..x.len() {
                            let (v, o) = self.ovf(op, w, &x[i], &y[i])?;
                            let lim = if op == "usub" { Val::I(w, 0) } else { Val::I(w, m128(w)) };
                            out.push(self.select(st, &o, &lim, &v)?);
                        }
                        return Ok(Some(Val::A(Rc::new(out))));
                    }
                    return Err(Stop::Fail(n.to_string()));
                }
                let (v, o) = self.ovf(op, w, &av[0], &av[1])?;
                let lim = match op {
                    "usub" => Val::I(w, 0),
                    "uadd" => Val::I(w, m128(w)),
                    _ => {
                        // sign of the exact result: for add, the sign of a; for sub, the sign of a
                        let neg = self.icmp("slt", w, &av[0], &Val::I(w, 0));
                        let mn = Val::I(w, 1u128 << (w - 1));
                        let mx = Val::I(w, (1u128 << (w - 1)) - 1);
                        self.select(st, &neg, &mn, &mx)?
                    }
                };
                let r = self.select(st, &o, &lim, &v)?;
                return Ok(Some(r));
            }
        }
        for (op, c) in [("umax", "ugt"), ("umin", "ult"), ("smax", "sgt"), ("smin", "slt")] {
            if starts(op) {
                let q = self.icmp(c, w, &av[0], &av[1]);
                let r = self.select(st, &q, &av[0], &av[1])?;
                return Ok(Some(r));
            }
        }
        if starts("abs.") {
            let neg = self.icmp("slt", w, &av[0], &Val::I(w, 0));
            let m = self.bin("sub", w, &Val::I(w, 0), &av[0])?;
            let r = self.select(st, &neg, &m, &av[0])?;
            return Ok(Some(r));
        }
        if starts("bswap") {
            if let Val::A(l) = &av[0] {
                let mut out = vec![];
                for x in l.iter() {
                    let e = self.e(x);
                    let r = self.bswap(e);
                    out.push(self.norm(r));
                }
                return Ok(Some(Val::A(Rc::new(out))));
            }
            let e = self.e(&av[0]);
            let r = self.bswap(e);
            return Ok(Some(self.norm(r)));
        }
        if starts("bitreverse") {
            let e = self.e(&av[0]);
            let mut r: Option<E> = None;
            for k in 0..w {
                let b = self.ctx.ext(k, k, e);
                r = Some(match r {
                    None => b,
                    Some(o) => self.ctx.cat(o, b),
                });
            }
            return Ok(Some(self.norm(r.unwrap())));
        }
        if starts("fshl") || starts("fshr") {
            let l = starts("fshl");
            if matches!(av[0], Val::A(_)) {
                let (x, y, z) = match (&av[0], &av[1], &av[2]) {
                    (Val::A(a), Val::A(b), Val::A(c)) => (a.clone(), b.clone(), c.clone()),
                    _ => panic!(),
                };
                let mut out = vec![];
                for i in 0..x.len() {
                    out.push(self.fsh(w, l, &x[i], &y[i], &z[i])?);
                }
                return Ok(Some(Val::A(Rc::new(out))));
            }
            let r = self.fsh(w, l, &av[0], &av[1], &av[2])?;
            return Ok(Some(r));
        }
        if starts("ctlz") || starts("cttz") || starts("ctpop") {
            let k = &base[..4];
            if let Val::I(_, x) = av[0] {
                let v = match k {
                    "ctlz" => {
                        if x == 0 {
                            w as u32
                        } else {
                            x.leading_zeros() - (128 - w as u32)
                        }
                    }
                    "cttz" => {
                        if x == 0 {
                            w as u32
                        } else {
                            x.trailing_zeros()
                        }
                    }
                    _ => x.count_ones(),
                };
                return Ok(Some(Val::I(w, v as u128)));
            }
            let e = self.e(&av[0]);
            let mut r;
            if k == "ctpo" {
                r = self.ctx.c128(w, 0);
                for i in 0..w {
                    let b = self.ctx.ext(i, i, e);
                    let z = self.ctx.zext(b, w);
                    r = self.ctx.add(r, z);
                }
            } else {
                r = self.ctx.c128(w, w as u128);
                for i in 0..w {
                    // cttz: the lowest set bit wins -> build from high to low; ctlz the other way
                    let (bit, val) = if k == "cttz" { (w - 1 - i, w - 1 - i) } else { (i, w - 1 - i) };
                    let b = self.ctx.ext(bit, bit, e);
                    let v = self.ctx.c128(w, val as u128);
                    r = self.ctx.ite(b, v, r);
                }
            }
            return Ok(Some(self.norm(r)));
        }
        if starts("vector.reduce.") {
            let op = base["vector.reduce.".len()..].split('.').next().unwrap();
            let l = match &av[0] {
                Val::A(l) => l.clone(),
                _ => panic!(),
            };
            let mut r = l[0].clone();
            for x in l.iter().skip(1) {
                r = match op {
                    "add" | "mul" | "and" | "or" | "xor" => self.bin(op, w, &r, x)?,
                    "umax" | "umin" => {
                        let q = self.icmp(if op == "umax" { "ugt" } else { "ult" }, w, &r, x);
                        self.select(st, &q, &r, x)?
                    }
                    _ => return Err(Stop::Fail(n.to_string())),
                };
            }
            return Ok(Some(r));
        }
        if starts("trap") || starts("debugtrap") || starts("ubsantrap") {
            return Err(self.panicked(st, "llvm.trap", &[]));
        }
        if starts("x86.sse2.pmovmskb.128") {
            if let Val::A(l) = &av[0] {
                let mut r = self.ctx.c128(32, 0);
                for (i, x) in l.iter().enumerate() {
                    let e = self.e(x);
                    let b = self.ctx.ext(7, 7, e);
                    let z = self.ctx.zext(b, 32);
                    let k = self.ctx.c128(32, i as u128);
                    let s = self.ctx.shl(z, k);
                    r = self.ctx.or(r, s);
                }
                return Ok(Some(self.norm(r)));
            }
        }
        if starts("fabs") || starts("floor") || starts("ceil") || starts("trunc.") || starts("sqrt") || starts("pow") || starts("log") || starts("round") {
            if let Val::I(64, x) = av[0] {
                let f = f64::from_bits(x as u64);
                let r = if starts("fabs") {
                    f.abs()
                } else if starts("floor") {
                    f.floor()
                } else if starts("ceil") {
                    f.ceil()
                } else if starts("sqrt") {
                    f.sqrt()
                } else if starts("round") {
                    f.round()
                } else if starts("trunc.") {
                    f.trunc()
                } else {
                    return Err(Stop::Fail(n.to_string()));
                };
                return Ok(Some(Val::I(64, r.to_bits() as u128)));
            }
        }
        if starts("is.constant") {
            return Ok(Some(Val::I(1, 0)));
        }
        if starts("fptoui.sat") || starts("fptosi.sat") {
            if let Val::I(64, x) = av[0] {
                let f = f64::from_bits(x as u64);
                let w2 = ret.bits() as u16;
                let v = if starts("fptoui") { f as u128 } else { f as i128 as u128 };
                return Ok(Some(Val::I(w2, v.min(m128(w2)))));
            }
        }
        Err(Stop::Fail(format!("intrinsic {} in {}", n, self.stack(st).join(" < "))))
    }
    fn bswap(&mut self, e: E) -> E {
        let n = self.ctx.w(e) / 8;
        let mut r: Option<E> = None;
        for k in 0..n {
            let b = self.ctx.ext(8 * k + 7, 8 * k, e);
            r = Some(match r {
                None => b,
                Some(o) => self.ctx.cat(o, b),
            });
        }
        r.unwrap()
    }
    fn fsh(&mut self, w: u16, left: bool, a: &Val, b: &Val, s: &Val) -> R<Val> {
        let (x, y, z) = (self.e(a), self.e(b), self.e(s));
        let cat = self.ctx.cat(x, y);
        let m = self.ctx.c128(w, (w - 1) as u128);
        let sh = if w.is_power_of_two() { self.ctx.and(z, m) } else { let k = self.ctx.c128(w, w as u128); self.ctx.urem(z, k) };
        let sh2 = self.ctx.zext(sh, 2 * w);
        let r = if left {
            let t = self.ctx.shl(cat, sh2);
            self.ctx.ext(2 * w - 1, w, t)
        } else {
            let t = self.ctx.lshr(cat, sh2);
            self.ctx.ext(w - 1, 0, t)
        };
        Ok(self.norm(r))
    }

    // ---------------------------------------------------------------- externals
    fn cstr(&mut self, st: &mut State, p: &Val, l: &Val) -> R<String> {
        let a = self.concretize(st, p)? as u64;
        let n = self.concretize(st, l)? as u64;
        let b = self.read_bytes(st, a, n)?;
        Ok(String::from_utf8_lossy(&b.iter().map(|x| x.1).collect::<Vec<_>>()).to_string())
    }
    fn add_fact(&mut self, st: &mut State, c: E) -> R<()> {
        if c == self.ctx.t {
            return Ok(());
        }
        if self.meval(st, c).is_zero() {
            match self.query(st, &[c], "fact") {
                Res::Sat(m) => st.model = self.merge_model(st, m),
                Res::Unsat => return Err(Stop::End("infeasible")),
                Res::Unknown => return Err(Stop::Fail("solver gave no answer on an axiom or assumption".into())),
            }
        }
        self.assume(st, c);
        Ok(())
    }
    /// The integer square root: the s with s*s <= n < (s+1)*(s+1).
    fn isqrt(&mut self, st: &mut State, n: E) -> R<E> {
        if let Some(v) = self.ctx.cval(n).cloned() {
            return Ok(self.ctx.cst(256, v.sqrt()));
        }
        let key = ("isqrt".to_string(), n);
        let sym = match self.ctx.uf_map.get(&key) {
            Some(i) => *i,
            None => {
                let name = format!("isqrt#{}", self.ctx.uf_map.len());
                let (_, sym) = self.ctx.fresh(&name, 128, false);
                self.ctx.uf_map.insert(key, sym);
                sym
            }
        };
        let s = self.ctx.sym_node(sym, 128);
        let v = self.meval(st, n).sqrt();
        let mut m = (*st.model).clone();
        m.insert(sym, v);
        st.model = Rc::new(m);
        let c = &mut self.ctx;
        let (s, x) = (c.zext(s, 260), c.zext(n, 260));
        let one = c.c128(260, 1);
        let t = c.add(s, one);
        let (lo, hi) = (c.mul(s, s), c.mul(t, t));
        let (a, b) = (c.ule(lo, x), c.ult(x, hi));
        self.add_fact(st, a)?;
        self.add_fact(st, b)?;
        let s = self.ctx.sym_node(sym, 128);
        Ok(self.ctx.zext(s, 256))
    }
    /// Application of an uninterpreted, collision-free function.
    pub fn uf(&mut self, st: &mut State, f: &str, input: E, ow: u16) -> R<E> {
        let key = (f.to_string(), input);
        let idx = match self.ctx.uf_map.get(&key) {
            Some(i) => *i as usize,
            None => {
                let iw = self.ctx.w(input);
                let (out, sym) = match self.ctx.cval(input).cloned() {
                    Some(v) if real_uf(f, &v, iw).is_some() => {
                        let o = real_uf(f, &v, iw).unwrap();
                        (self.ctx.cst(ow, o), u32::MAX)
                    }
                    _ => self.ctx.fresh(&format!("{}#{}", f, self.ctx.ufs.len()), ow, false),
                };
                let i = self.ctx.ufs.len();
                self.ctx.ufs.push(UfApp { f: f.to_string(), input, out, sym });
                if sym != u32::MAX {
                    self.ctx.uf_of_sym.insert(sym, i);
                }
                self.ctx.uf_map.insert(key, i as u32);
                i
            }
        };
        if st.ufs.contains(&idx) {
            return Ok(self.ctx.ufs[idx].out);
        }
        // witness value: the real function where there is one
        let (out, sym) = (self.ctx.ufs[idx].out, self.ctx.ufs[idx].sym);
        if sym != u32::MAX {
            let iv = self.meval(st, input);
            let v = real_uf(f, &iv, self.ctx.w(input)).unwrap_or_else(|| {
                let mut k = b"uf".to_vec();
                k.extend(f.as_bytes());
                k.extend(iv.to_bytes_le());
                BigUint::from_bytes_le(&crate::sha::sha256(&k)) & mask(ow)
            });
            let mut m = (*st.model).clone();
            m.insert(sym, v);
            st.model = Rc::new(m);
        }
        let family = |s: &str| s.split('/').next().unwrap().to_string();
        let prev = st.ufs.clone();
        st.ufs.push(idx);
        for j in prev {
            let (pf, pin, pout) = {
                let u = &self.ctx.ufs[j];
                (u.f.clone(), u.input, u.out)
            };
            if family(&pf) != family(f) {
                continue;
            }
            if pf == f && self.ctx.w(pin) == self.ctx.w(input) {
                let (a, b) = (self.ctx.eq(pin, input), self.ctx.eq(pout, out));
                if self.ctx.w(a) == 1 {
                    let x = self.ctx.eq(a, b);
                    self.add_fact(st, x)?;
                }
            } else if self.ctx.w(pout) == ow {
                let b = self.ctx.ne(pout, out);
                self.add_fact(st, b)?;
            }
        }
        Ok(out)
    }
    /// Some(result) if handled here.
    fn external(&mut self, st: &mut State, n: &str, a: &[Val]) -> R<Option<Option<Val>>> {
        let p64 = |v: u64| Val::I(64, v as u128);
        match n {
            "malloc" => {
                let s = self.concretize(st, &a[0])? as u64;
                let r = self.alloc(st, s, 16, 0)?;
                Ok(Some(Some(p64(r))))
            }
            "calloc" => {
                let s = self.concretize(st, &a[0])? as u64;
                let k = self.concretize(st, &a[1])? as u64;
                let r = self.alloc(st, s * k, 16, 0)?;
                Ok(Some(Some(p64(r))))
            }
            "posix_memalign" => {
                let al = self.concretize(st, &a[1])? as u64;
                let s = self.concretize(st, &a[2])? as u64;
                let r = self.alloc(st, s, al, 0)?;
                let pt: Ty = PTR.with(|p| p.clone());
                self.store(st, &a[0], &pt, &p64(r))?;
                Ok(Some(Some(Val::I(32, 0))))
            }
            "realloc" => {
                let s = self.concretize(st, &a[1])? as u64;
                let o = self.concretize(st, &a[0])? as u64;
                let r = self.alloc(st, s, 16, 0)?;
                if o != 0 {
                    let old = match st.mem.get(&o) {
                        Some(x) if x.kind == 0 => x.size,
                        _ => return Err(self.bad_access(st, "realloc of a bad pointer", o)),
                    };
                    self.memcpy(st, r, o, old.min(s))?;
                    st.mem.remove(&o);
                }
                Ok(Some(Some(p64(r))))
            }
            "free" => {
                let o = self.concretize(st, &a[0])? as u64;
                if o != 0 {
                    match st.mem.get(&o) {
                        Some(x) if x.kind == 0 => {}
                        _ => return Err(self.bad_access(st, "free of a bad pointer", o)),
                    }
                    st.mem.remove(&o);
                }
                Ok(Some(None))
            }
            "bcmp" | "memcmp" => {
                let k = self.concretize(st, &a[2])? as u64;
                if k == 0 {
                    return Ok(Some(Some(Val::I(32, 0))));
                }
                let x = self.concretize(st, &a[0])? as u64;
                let y = self.concretize(st, &a[1])? as u64;
                let (bx, by) = (self.read_bytes(st, x, k)?, self.read_bytes(st, y, k)?);
                if n == "bcmp" {
                    let mut ne = self.ctx.f;
                    // compare wide chunks so that rejoined symbols stay whole
                    let (ex, ey) = (self.bytes_expr(&bx), self.bytes_expr(&by));
                    let q = self.ctx.ne(ex, ey);
                    ne = self.ctx.or(ne, q);
                    let r = self.ctx.zext(ne, 32);
                    return Ok(Some(Some(self.norm(r))));
                }
                let mut r = self.ctx.c128(32, 0);
                for i in (0..k as usize).rev() {
                    let ex = if bx[i].0 != 0 { bx[i].0 } else { self.ctx.c128(8, bx[i].1 as u128) };
                    let ey = if by[i].0 != 0 { by[i].0 } else { self.ctx.c128(8, by[i].1 as u128) };
                    let eq = self.ctx.eq(ex, ey);
                    let lt = self.ctx.ult(ex, ey);
                    let (m1, p1) = (self.ctx.c128(32, 0xffff_ffff), self.ctx.c128(32, 1));
                    let d = self.ctx.ite(lt, m1, p1);
                    r = self.ctx.ite(eq, r, d);
                }
                Ok(Some(Some(self.norm(r))))
            }
            "strlen" => {
                let x = self.concretize(st, &a[0])? as u64;
                let mut k = 0;
                loop {
                    let b = self.read_bytes(st, x + k, 1)?;
                    if b[0].0 != 0 {
                        return Err(Stop::Fail("symbolic strlen".into()));
                    }
                    if b[0].1 == 0 {
                        break;
                    }
                    k += 1;
                }
                Ok(Some(Some(p64(k))))
            }
            "getenv" => Ok(Some(Some(p64(0)))),
            "write" | "writev" => Ok(Some(Some(a[2].clone()))),
            "__errno_location" => Err(Stop::Fail("errno".into())),
            _ if n.starts_with("__sym_") => self.sym_call(st, n, a).map(Some),
            _ => Ok(None),
        }
    }
    fn sym_call(&mut self, st: &mut State, n: &str, a: &[Val]) -> R<Option<Val>> {
        match n {
            "__sym_input" => {
                // (ptr, n, kind, name, namelen)
                let p = self.concretize(st, &a[0])? as u64;
                let k = self.concretize(st, &a[1])? as usize;
                let kind = self.concretize(st, &a[2])? as u8;
                let name = self.cstr(st, &a[3], &a[4])?;
                let key = (st.inputs.len(), name.clone(), k, kind);
                let syms = match self.input_map.get(&key) {
                    Some(s) => s.clone(),
                    None => {
                        let s: Vec<u32> = if kind == 0 {
                            (0..k).map(|i| self.ctx.fresh(&format!("{}[{}]", name, i), 8, true).1).collect()
                        } else {
                            vec![self.ctx.fresh(&name, (k * 8) as u16, true).1]
                        };
                        self.input_map.insert(key, s.clone());
                        s
                    }
                };
                let mut bytes = vec![];
                for s in &syms {
                    let w = self.ctx.syms[*s as usize].w;
                    let e = self.sym_expr(*s, w);
                    bytes.extend(self.expr_bytes(e));
                }
                st.inputs.push(InputRec { name, syms, n: k });
                self.store_bytes(st, p, &bytes)?;
                Ok(None)
            }
            "__sym_assume" => {
                match &a[0] {
                    Val::I(_, x) => {
                        if *x & 1 == 0 {
                            return Err(Stop::End("assume"));
                        }
                    }
                    Val::S(e) => {
                        let e = *e;
                        let e = if self.ctx.w(e) > 1 { self.ctx.ext(0, 0, e) } else { e };
                        if let Some(v) = st.conc.get(&e) {
                            if *v == 0 {
                                return Err(Stop::End("assume"));
                            }
                            return Ok(None);
                        }
                        match self.add_fact(st, e) {
                            Err(Stop::End(_)) => return Err(Stop::End("assume")),
                            r => r?,
                        }
                    }
                    _ => panic!(),
                }
                Ok(None)
            }
            "__sym_check" => {
                let name = self.cstr(st, &a[1], &a[2])?;
                let c = self.checks.entry(name.clone()).or_default();
                c.evals += 1;
                match &a[0] {
                    Val::I(_, x) => {
                        c.concrete += 1;
                        if *x & 1 == 0 {
                            let m = st.model.clone();
                            self.violation(st, "check", &name, m, &[]);
                            return Err(Stop::Bug);
                        }
                    }
                    Val::S(e) => {
                        let e = if self.ctx.w(*e) > 1 { self.ctx.ext(0, 0, *e) } else { *e };
                        if st.conc.get(&e) == Some(&1) {
                            self.checks.get_mut(&name).unwrap().concrete += 1;
                            return Ok(None);
                        }
                        let ne = self.ctx.not(e);
                        if self.meval(st, e).is_zero() {
                            let m = st.model.clone();
                            self.violation(st, "check", &name, m, &[ne]);
                            return Err(Stop::Bug);
                        }
                        match self.query(st, &[ne], &name) {
                            Res::Unsat => {
                                self.checks.get_mut(&name).unwrap().proved_by_solver += 1;
                            }
                            Res::Sat(m) => {
                                let m = self.merge_model(st, m);
                                self.violation(st, "check", &name, m, &[ne]);
                                return Err(Stop::Bug);
                            }
                            Res::Unknown => {
                                self.inconclusive.push(format!("solver gave no answer on check '{}'", name));
                            }
                        }
                    }
                    _ => panic!(),
                }
                Ok(None)
            }
            "__sym_reach" => {
                let name = self.cstr(st, &a[0], &a[1])?;
                if !self.reached.contains_key(&name) {
                    let m = self.realize(st, &[], &st.model.clone());
                    let (i, _) = self.concrete_inputs(st, &m);
                    self.reached.insert(name.clone(), i);
                }
                st.tags.push(name);
                Ok(None)
            }
            "__sym_expect" => {
                let name = self.cstr(st, &a[0], &a[1])?;
                self.expected.insert(name);
                Ok(None)
            }
            "__sym_observe" => {
                let name = self.cstr(st, &a[1], &a[2])?;
                st.obs.push((name, a[0].clone()));
                Ok(None)
            }
            "__sym_concretize" => {
                let v = self.concretize(st, &a[0])?;
                Ok(Some(Val::I(64, v)))
            }
            "__sym_param" => {
                let i = self.concretize(st, &a[0])? as usize;
                let v = self.params.get(i).copied().unwrap_or(0);
                Ok(Some(Val::I(64, v as u128)))
            }
            "__sym_allow_panic" => {
                let v = self.concretize(st, &a[0])?;
                st.allow_panic = v & 1 == 1;
                Ok(None)
            }
            "__sym_end" => Err(Stop::End("end")),
            "__sym_uf" => {
                // (name, namelen, in, n, out, m)
                let name = self.cstr(st, &a[0], &a[1])?;
                let ip = self.concretize(st, &a[2])? as u64;
                let k = self.concretize(st, &a[3])? as u64;
                let op = self.concretize(st, &a[4])? as u64;
                let m = self.concretize(st, &a[5])? as u64;
                let b = self.read_bytes(st, ip, k)?;
                let input = if k == 0 { self.ctx.c128(1, 0) } else { self.bytes_expr(&b) };
                let out = self.uf(st, &format!("{}/{}", name, k), input, (m * 8) as u16)?;
                let ob = self.expr_bytes(out);
                self.store_bytes(st, op, &ob)?;
                Ok(None)
            }
            "__sym_muldiv" => {
                // (a*, b*, c*, rounding, out*) -> bool ; rounding 0 down 1 up 2 nearest-prefer-down 3 nearest-prefer-up(major)
                let mut v = vec![];
                for k in 0..3 {
                    let p = self.concretize(st, &a[k])? as u64;
                    let b = self.read_bytes(st, p, 16)?;
                    let e = self.bytes_expr(&b);
                    let e = match self.simp(st, Val::S(e)) {
                        Val::I(w, x) => self.ctx.c128(w, x),
                        Val::S(e) => e,
                        _ => e,
                    };
                    v.push(e);
                }
                let rnd = self.concretize(st, &a[3])? as u8;
                let op = self.concretize(st, &a[4])? as u64;
                let z = self.ctx.c128(128, 0);
                let cz = self.ctx.eq(v[2], z);
                if self.decide(st, cz)? {
                    return Ok(Some(Val::I(1, 0)));
                }
                let c = &mut self.ctx;
                let (x, y, d) = (c.zext(v[0], 257), c.zext(v[1], 257), c.zext(v[2], 257));
                let p = c.mul(x, y);
                // c != 0 on this path
                let q = c.udiv(p, d);
                let one = c.c128(257, 1);
                let r = c.urem(p, d);
                let z = c.c128(257, 0);
                let up = match rnd {
                    0 => c.f,
                    1 => c.ne(r, z),
                    _ => {
                        let r2 = c.add(r, r);
                        if rnd == 2 {
                            // nearest, ties down
                            c.ult(d, r2)
                        } else {
                            c.ule(d, r2)
                        }
                    }
                };
                let q1 = c.add(q, one);
                let res = c.ite(up, q1, q);
                let m = c.cst(257, mask(128));
                let ok = c.ule(res, m);
                let low = c.ext(127, 0, res);
                let good = self.decide(st, ok)?;
                if good {
                    let b = self.expr_bytes(low);
                    self.store_bytes(st, op, &b)?;
                }
                Ok(Some(Val::I(1, good as u128)))
            }
            "__sym_u256" => {
                // (op, a*, b*, out*) -> overflow flag ; op 0 mul 1 div 2 rem 3 add 4 sub 5 square root of a
                let opn = self.concretize(st, &a[0])?;
                let mut v = vec![];
                for k in 1..3 {
                    let p = self.concretize(st, &a[k])? as u64;
                    let b = self.read_bytes(st, p, 32)?;
                    v.push(self.bytes_expr(&b));
                }
                let op = self.concretize(st, &a[3])? as u64;
                let c = &mut self.ctx;
                let (r, o) = match opn {
                    0 => {
                        let (x, y) = (c.zext(v[0], 512), c.zext(v[1], 512));
                        let p = c.mul(x, y);
                        let m = c.cst(512, mask(256));
                        (c.ext(255, 0, p), c.ult(m, p))
                    }
                    1 | 2 => {
                        let z = c.c128(256, 0);
                        let q = c.eq(v[1], z);
                        if self.decide(st, q)? {
                            return Ok(Some(Val::I(1, 1)));
                        }
                        let c = &mut self.ctx;
                        (if opn == 1 { c.udiv(v[0], v[1]) } else { c.urem(v[0], v[1]) }, c.f)
                    }
                    3 => {
                        let (x, y) = (c.zext(v[0], 257), c.zext(v[1], 257));
                        let p = c.add(x, y);
                        let m = c.cst(257, mask(256));
                        (c.add(v[0], v[1]), c.ult(m, p))
                    }
                    5 => (self.isqrt(st, v[0])?, self.ctx.f),
                    _ => (c.sub(v[0], v[1]), c.ult(v[0], v[1])),
                };
                let b = self.expr_bytes(r);
                self.store_bytes(st, op, &b)?;
                Ok(Some(self.norm(o)))
            }
            _ => Err(Stop::Fail(format!("unknown {}", n))),
        }
    }
    fn sym_expr(&mut self, s: u32, w: u16) -> E {
        self.ctx.sym_node(s, w)
    }
    pub fn source_lines(&mut self) -> BTreeMap<String, BTreeSet<String>> {
        // from debug metadata: functions by file
        let mut out: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        fn field<'a>(t: &'a str, k: &str) -> Option<&'a str> {
            let p = t.find(k)? + k.len();
            let r = &t[p..];
            let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
            Some(r[..e].trim())
        }
        let mdid = |s: &str| s.trim_start_matches('!').parse::<u32>().ok();
        let ids: Vec<u32> = self.dbgs.iter().copied().collect();
        let mut seen = HashSet::new();
        for d in ids {
            let mut cur = Some(d);
            while let Some(l) = cur {
                if !seen.insert(l) {
                    break;
                }
                let t = match self.m.mdtext(l) {
                    Some(t) => t,
                    None => break,
                };
                // scope chain up to a subprogram
                let mut sc = field(t, "scope: ").and_then(mdid);
                let mut guard = 0;
                while let Some(s) = sc {
                    guard += 1;
                    if guard > 50 {
                        break;
                    }
                    let st = match self.m.mdtext(s) {
                        Some(t) => t,
                        None => break,
                    };
                    if st.contains("DISubprogram(") {
                        if seen.insert(s) {
                            let name = field(st, "name: ").unwrap_or("?").trim_matches('"').to_string();
                            if let Some(f) = field(st, "file: ").and_then(mdid).and_then(|f| self.m.mdtext(f)) {
                                let file = field(f, "filename: ").unwrap_or("?").trim_matches('"').to_string();
                                out.entry(file).or_default().insert(name);
                            }
                        }
                        break;
                    }
                    sc = field(st, "scope: ").and_then(mdid);
                }
                cur = field(t, "inlinedAt: ").and_then(mdid);
            }
        }
        out
    }
}

thread_local! {
    static PTR: Ty = Rc::new(T::Ptr);
}

/// The real function behind a name, if there is one.
pub fn real_uf(f: &str, input: &BigUint, iw: u16) -> Option<BigUint> {
    let mut b = input.to_bytes_le();
    let n: usize = f.rsplit('/').next()?.parse().ok()?;
    let _ = iw;
    b.resize(n, 0);
    match f.split('/').next()? {
        "sha256" => Some(BigUint::from_bytes_le(&crate::sha::sha256(&b))),
        "sha256d" => Some(BigUint::from_bytes_le(&crate::sha::sha256(&crate::sha::sha256(&b)))),
        "ident" => Some(input & (BigUint::one() << 256usize) - 1u32),
        _ => None,
    }
}
