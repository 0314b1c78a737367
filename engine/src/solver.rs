//! SMT back ends: bit-vector and integer encodings, persistent and portfolio solving.
use crate::expr::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub type Model = Rc<HashMap<u32, BigUint>>;

#[derive(Clone, Debug)]
pub enum Res {
    Sat(HashMap<u32, BigUint>),
    Unsat,
    Unknown,
}

pub struct Proc {
    child: Child,
    out: BufReader<std::process::ChildStdout>,
}

pub struct Stats {
    pub queries: u64,
    pub cached: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: Duration,
    pub by: HashMap<String, u64>,
    pub slow: Vec<(f64, String)>,
}

pub struct Solver {
    proc: Option<Proc>,
    pub stats: Stats,
    cache: HashMap<Vec<E>, Res>,
    pub quick_ms: u64,
    pub hard_ms: u64,
    pub dump: Option<String>,
    pub cross: bool,
    pub prefer_int: bool,
    pub poly: bool,
    recent: Vec<HashMap<u32, BigUint>>,
    rng: u64,
}

fn spawn(cmd: &[String]) -> std::io::Result<Child> {
    Command::new(&cmd[0])
        .args(&cmd[1..])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
}

fn flat(ctx: &Ctx, e: E, out: &mut Vec<E>) {
    if let N::And(a, b) = *ctx.node(e) {
        if ctx.w(e) == 1 {
            flat(ctx, a, out);
            flat(ctx, b, out);
            return;
        }
    }
    out.push(e);
}

fn topo(ctx: &Ctx, roots: &[E]) -> (Vec<E>, HashMap<E, u32>) {
    let mut order = vec![];
    let mut seen: HashSet<E> = HashSet::new();
    let mut uses: HashMap<E, u32> = HashMap::new();
    for r in roots {
        *uses.entry(*r).or_insert(0) += 1;
        let mut st = vec![(*r, false)];
        while let Some((x, done)) = st.pop() {
            if done {
                order.push(x);
                continue;
            }
            if !seen.insert(x) {
                continue;
            }
            st.push((x, true));
            let (ch, k) = ctx.children(x);
            for c in &ch[..k] {
                *uses.entry(*c).or_insert(0) += 1;
                if !seen.contains(c) {
                    st.push((*c, false));
                }
            }
        }
    }
    (order, uses)
}

pub struct Text {
    pub body: String,
    pub syms: Vec<u32>,
    pub int: bool,
}

pub fn has_nonlin(ctx: &Ctx, order: &[E]) -> bool {
    order.iter().any(|e| match *ctx.node(*e) {
        N::Mul(a, b) | N::UDiv(a, b) | N::URem(a, b) | N::SDiv(a, b) | N::SRem(a, b) => {
            let w = ctx.w(*e);
            (ctx.cval(a).is_none() && ctx.cval(b).is_none() && w >= 16) || w >= 64
        }
        _ => false,
    })
}

pub fn bv_text(ctx: &Ctx, cs: &[E]) -> Text {
    let (order, uses) = topo(ctx, cs);
    let mut s = String::new();
    let mut name: HashMap<E, String> = HashMap::new();
    let mut syms = vec![];
    for &e in &order {
        let w = ctx.w(e);
        let g = |name: &HashMap<E, String>, x: E| name[&x].clone();
        let isb = w == 1;
        // operand as bit-vector even if width one
        let bvarg = |name: &HashMap<E, String>, x: E| {
            if ctx.w(x) == 1 {
                format!("(ite {} #b1 #b0)", name[&x])
            } else {
                name[&x].clone()
            }
        };
        let b2 = |op: &str, name: &HashMap<E, String>, a: E, b: E| format!("({} {} {})", op, bvarg(name, a), bvarg(name, b));
        let tob = |t: String| if isb { format!("(= {} #b1)", t) } else { t };
        let t = match *ctx.node(e) {
            N::Nil => continue,
            N::C(ref v) => {
                if isb {
                    (if v.is_one() { "true" } else { "false" }).to_string()
                } else {
                    format!("(_ bv{} {})", v, w)
                }
            }
            N::Sym(i) => {
                syms.push(i);
                let n = format!("s{}", i);
                if isb {
                    let _ = writeln!(s, "(declare-const {} Bool)", n);
                } else {
                    let _ = writeln!(s, "(declare-const {} (_ BitVec {}))", n, w);
                }
                n
            }
            N::Add(a, b) => b2("bvadd", &name, a, b),
            N::Sub(a, b) => b2("bvsub", &name, a, b),
            N::Mul(a, b) => b2("bvmul", &name, a, b),
            N::UDiv(a, b) => b2("bvudiv", &name, a, b),
            N::URem(a, b) => b2("bvurem", &name, a, b),
            N::SDiv(a, b) => b2("bvsdiv", &name, a, b),
            N::SRem(a, b) => b2("bvsrem", &name, a, b),
            N::And(a, b) => {
                if isb {
                    format!("(and {} {})", g(&name, a), g(&name, b))
                } else {
                    b2("bvand", &name, a, b)
                }
            }
            N::Or(a, b) => {
                if isb {
                    format!("(or {} {})", g(&name, a), g(&name, b))
                } else {
                    b2("bvor", &name, a, b)
                }
            }
            N::Xor(a, b) => {
                if isb {
                    format!("(xor {} {})", g(&name, a), g(&name, b))
                } else {
                    b2("bvxor", &name, a, b)
                }
            }
            N::Not(a) => {
                if isb {
                    format!("(not {})", g(&name, a))
                } else {
                    format!("(bvnot {})", g(&name, a))
                }
            }
            N::Shl(a, b) => tob(b2("bvshl", &name, a, b)),
            N::LShr(a, b) => tob(b2("bvlshr", &name, a, b)),
            N::AShr(a, b) => tob(b2("bvashr", &name, a, b)),
            N::Eq(a, b) => format!("(= {} {})", g(&name, a), g(&name, b)),
            N::Ult(a, b) => b2("bvult", &name, a, b),
            N::Ule(a, b) => b2("bvule", &name, a, b),
            N::Slt(a, b) => b2("bvslt", &name, a, b),
            N::Sle(a, b) => b2("bvsle", &name, a, b),
            N::Ite(c, a, b) => format!("(ite {} {} {})", g(&name, c), g(&name, a), g(&name, b)),
            N::Ext(h, l, a) => tob(format!("((_ extract {} {}) {})", h, l, g(&name, a))),
            N::Cat(a, b) => b2("concat", &name, a, b),
            N::ZExt(a) => format!("((_ zero_extend {}) {})", w - ctx.w(a), bvarg(&name, a)),
            N::SExt(a) => format!("((_ sign_extend {}) {})", w - ctx.w(a), bvarg(&name, a)),
        };
        let leaf = matches!(ctx.node(e), N::C(_) | N::Sym(_));
        if !leaf && uses[&e] > 1 {
            let n = format!("n{}", e);
            let sort = if isb { "Bool".to_string() } else { format!("(_ BitVec {})", w) };
            let _ = writeln!(s, "(define-fun {} () {} {})", n, sort, t);
            name.insert(e, n);
        } else {
            name.insert(e, t);
        }
    }
    for c in cs {
        let _ = writeln!(s, "(assert {})", name[c]);
    }
    Text { body: s, syms, int: false }
}

/// Integer encoding: every bit-vector node is an Int in [0, 2^w). None if some node has no encoding.
pub fn int_text(ctx: &Ctx, cs: &[E]) -> Option<Text> {
    let (order, uses) = topo(ctx, cs);
    // refinements from the conjuncts
    let mut lo: HashMap<E, BigUint> = HashMap::new();
    let mut hi: HashMap<E, BigUint> = HashMap::new();
    let mut le: HashSet<(E, E)> = HashSet::new();
    let mut eqs: Vec<(E, E)> = vec![];
    for &c in cs {
        match *ctx.node(c) {
            N::Ult(a, b) | N::Ule(a, b) => {
                le.insert((a, b));
            }
            N::Eq(a, b) => {
                le.insert((a, b));
                le.insert((b, a));
                eqs.push((a, b));
            }
            _ => {}
        }
    }
    let mut rl: HashMap<E, BigUint> = HashMap::new();
    let mut rh: HashMap<E, BigUint> = HashMap::new();
    for pass in 0..3 {
        rl.clear();
        rh.clear();
        for &e in &order {
            let w = ctx.w(e);
            let m = mask(w);
            let gl = |x: E| rl[&x].clone();
            let gh = |x: E| rh[&x].clone();
            let (mut l, mut h) = match *ctx.node(e) {
                N::Add(a, b) if gh(a) + gh(b) <= m => (gl(a) + gl(b), gh(a) + gh(b)),
                N::Sub(a, b) if gl(a) >= gh(b) && gh(a) >= gl(b) => (gl(a) - gh(b), gh(a) - gl(b)),
                N::Sub(a, b) if le.contains(&(b, a)) && gh(a) >= gl(b) => (BigUint::zero(), gh(a) - gl(b)),
                N::Mul(a, b) if gh(a) * gh(b) <= m => (gl(a) * gl(b), gh(a) * gh(b)),
                N::UDiv(a, b) if !gl(b).is_zero() => (gl(a) / gh(b), gh(a) / gl(b)),
                N::URem(a, b) if !gh(b).is_zero() && !gl(b).is_zero() => (BigUint::zero(), (gh(b) - 1u32).min(gh(a))),
                N::ZExt(a) => (gl(a), gh(a)),
                N::Ext(hh, ll, a) if gh(a).bits() <= hh as u64 + 1 => (gl(a) >> (ll as usize), gh(a) >> (ll as usize)),
                N::Cat(a, b) => {
                    let k = ctx.w(b) as usize;
                    ((gl(a) << k) + gl(b), (gh(a) << k) + gh(b))
                }
                N::Ite(_, a, b) => (gl(a).min(gl(b)), gh(a).max(gh(b))),
                _ => ((*ctx.lb[e as usize]).clone(), (*ctx.ub[e as usize]).clone()),
            };
            if let Some(x) = lo.get(&e) {
                if *x > l {
                    l = x.clone();
                }
            }
            if let Some(x) = hi.get(&e) {
                if *x < h {
                    h = x.clone();
                }
            }
            if (*ctx.lb[e as usize]) > l {
                l = (*ctx.lb[e as usize]).clone();
            }
            if (*ctx.ub[e as usize]) < h {
                h = (*ctx.ub[e as usize]).clone();
            }
            if l > h {
                h = l.clone();
            }
            rl.insert(e, l);
            rh.insert(e, h);
        }
        if pass == 2 {
            break;
        }
        for &c in cs {
            let mut upd = |a: E, b: E, strict: bool| {
                // a <= b (or a < b)
                let mut ub = rh[&b].clone();
                let mut lb = rl[&a].clone();
                if strict {
                    if ub.is_zero() {
                        return;
                    }
                    ub -= 1u32;
                    lb += 1u32;
                }
                let e = hi.entry(a).or_insert_with(|| rh[&a].clone());
                if ub < *e {
                    *e = ub;
                }
                let e = lo.entry(b).or_insert_with(|| rl[&b].clone());
                if lb > *e {
                    *e = lb;
                }
            };
            match *ctx.node(c) {
                N::Ult(a, b) => upd(a, b, true),
                N::Ule(a, b) => upd(a, b, false),
                N::Eq(a, b) if ctx.w(a) > 1 => {
                    upd(a, b, false);
                    upd(b, a, false);
                }
                N::Not(x) => {
                    // x != 0
                    if let N::Eq(a, b) = *ctx.node(x) {
                        if ctx.w(a) > 1 && ctx.is0(b) {
                            let e = lo.entry(a).or_insert_with(BigUint::zero);
                            if e.is_zero() {
                                *e = BigUint::one();
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let mut s = String::new();
    let mut name: HashMap<E, String> = HashMap::new();
    let mut syms = vec![];
    let mut divs: HashMap<(E, E), (String, String)> = HashMap::new();
    let p2 = |k: u16| (BigUint::one() << (k as usize)).to_string();
    for &e in &order {
        let w = ctx.w(e);
        let isb = w == 1;
        let g = |x: E| name[&x].clone();
        let gi = |x: E| {
            if ctx.w(x) == 1 {
                format!("(ite {} 1 0)", name[&x])
            } else {
                name[&x].clone()
            }
        };
        let m = mask(w);
        let signed = |x: E| {
            let ww = ctx.w(x);
            let half = BigUint::one() << (ww as usize - 1);
            if rh[&x] < half {
                gi(x)
            } else {
                format!("(ite (>= {} {}) (- {} {}) {})", gi(x), half, gi(x), p2(ww), gi(x))
            }
        };
        let t = match *ctx.node(e) {
            N::Nil => continue,
            N::C(ref v) => {
                if isb {
                    (if v.is_one() { "true" } else { "false" }).to_string()
                } else {
                    v.to_string()
                }
            }
            N::Sym(i) => {
                syms.push(i);
                let n = format!("s{}", i);
                if isb {
                    let _ = writeln!(s, "(declare-const {} Bool)", n);
                } else {
                    let _ = writeln!(s, "(declare-const {} Int)\n(assert (and (<= 0 {}) (<= {} {})))", n, n, n, m);
                }
                n
            }
            N::Add(a, b) => {
                let t = format!("(+ {} {})", gi(a), gi(b));
                if &rh[&a] + &rh[&b] <= m || (hi.get(&e).is_some() && false) {
                    t
                } else {
                    format!("(ite (< {} {}) {} (- {} {}))", t, p2(w), t, t, p2(w))
                }
            }
            N::Sub(a, b) => {
                let t = format!("(- {} {})", gi(a), gi(b));
                if rl[&a] >= rh[&b] || le.contains(&(b, a)) {
                    t
                } else {
                    format!("(ite (>= {} {}) {} (+ {} {}))", gi(a), gi(b), t, t, p2(w))
                }
            }
            N::Mul(a, b) => {
                let t = format!("(* {} {})", gi(a), gi(b));
                if &rh[&a] * &rh[&b] <= m {
                    t
                } else {
                    format!("(mod {} {})", t, p2(w))
                }
            }
            N::UDiv(a, b) | N::URem(a, b) => {
                let isdiv = matches!(ctx.node(e), N::UDiv(..));
                if ctx.cval(b).is_some() && !ctx.is0(b) {
                    format!("({} {} {})", if isdiv { "div" } else { "mod" }, gi(a), gi(b))
                } else if !rl[&b].is_zero() {
                    let (q, r) = match divs.get(&(a, b)) {
                        Some(x) => x.clone(),
                        None => {
                            let q = format!("q{}", e);
                            let r = format!("r{}", e);
                            let _ = writeln!(s, "(declare-const {} Int)\n(declare-const {} Int)", q, r);
                            let _ = writeln!(s, "(assert (= {} (+ (* {} {}) {})))", gi(a), q, gi(b), r);
                            let _ = writeln!(s, "(assert (and (<= 0 {}) (< {} {}) (<= 0 {}) (<= {} {})))", r, r, gi(b), q, q, gi(a));
                            divs.insert((a, b), (q.clone(), r.clone()));
                            (q, r)
                        }
                    };
                    if isdiv {
                        q
                    } else {
                        r
                    }
                } else if isdiv {
                    format!("(ite (= {} 0) {} (div {} {}))", gi(b), m, gi(a), gi(b))
                } else {
                    format!("(ite (= {} 0) {} (mod {} {}))", gi(b), gi(a), gi(a), gi(b))
                }
            }
            N::And(a, b) | N::Or(a, b) | N::Xor(a, b) => {
                if !isb {
                    return None;
                }
                let op = match ctx.node(e) {
                    N::And(..) => "and",
                    N::Or(..) => "or",
                    _ => "xor",
                };
                format!("({} {} {})", op, g(a), g(b))
            }
            N::Not(a) => {
                if isb {
                    format!("(not {})", g(a))
                } else {
                    format!("(- {} {})", m, gi(a))
                }
            }
            N::Eq(a, b) => format!("(= {} {})", g(a), g(b)),
            N::Ult(a, b) => format!("(< {} {})", gi(a), gi(b)),
            N::Ule(a, b) => format!("(<= {} {})", gi(a), gi(b)),
            N::Slt(a, b) => format!("(< {} {})", signed(a), signed(b)),
            N::Sle(a, b) => format!("(<= {} {})", signed(a), signed(b)),
            N::Ite(c, a, b) => format!("(ite {} {} {})", g(c), g(a), g(b)),
            N::Ext(h, l, a) => {
                let mut t = gi(a);
                if l > 0 {
                    t = format!("(div {} {})", t, p2(l));
                }
                if rh[&a].bits() > h as u64 + 1 {
                    t = format!("(mod {} {})", t, p2(h - l + 1));
                }
                if isb {
                    format!("(= {} 1)", t)
                } else {
                    t
                }
            }
            N::Cat(a, b) => format!("(+ (* {} {}) {})", gi(a), p2(ctx.w(b)), gi(b)),
            N::ZExt(a) => gi(a),
            N::SExt(a) => {
                let ww = ctx.w(a);
                let half = BigUint::one() << (ww as usize - 1);
                let add = mask(w) ^ mask(ww);
                format!("(ite (>= {} {}) (+ {} {}) {})", gi(a), half, gi(a), add, gi(a))
            }
            _ => return None,
        };
        let leaf = matches!(ctx.node(e), N::C(_) | N::Sym(_)) || t.len() < 12;
        if !leaf && (uses[&e] > 1 || t.len() > 200) {
            let n = format!("n{}", e);
            let _ = writeln!(s, "(define-fun {} () {} {})", n, if isb { "Bool" } else { "Int" }, t);
            name.insert(e, n);
        } else {
            name.insert(e, t);
        }
    }
    for c in cs {
        let _ = writeln!(s, "(assert {})", name[c]);
    }
    // the refined bounds used above, stated explicitly (they follow from the conjuncts)
    for (e, h) in &hi {
        if *h < *ctx.ub[*e as usize] && ctx.w(*e) > 1 {
            if let Some(n) = name.get(e) {
                let _ = writeln!(s, "(assert (<= {} {}))", n, h);
            }
        }
    }
    Some(Text { body: s, syms, int: true })
}

fn parse_values(text: &str) -> Option<HashMap<u32, BigUint>> {
    // ((s0 #x..) (s1 12) (s2 true) ...)
    let mut m = HashMap::new();
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    for ch in text.chars() {
        match ch {
            '(' | ')' => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
                toks.push(ch.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    let mut i = 0;
    while i < toks.len() {
        if toks[i].starts_with('s') && toks[i].len() > 1 && toks[i][1..].chars().all(|c| c.is_ascii_digit()) {
            let id: u32 = toks[i][1..].parse().ok()?;
            let v = toks.get(i + 1)?;
            let val = if v == "true" {
                BigUint::one()
            } else if v == "false" {
                BigUint::zero()
            } else if let Some(h) = v.strip_prefix("#x") {
                BigUint::parse_bytes(h.as_bytes(), 16)?
            } else if let Some(h) = v.strip_prefix("#b") {
                BigUint::parse_bytes(h.as_bytes(), 2)?
            } else if v == "(" {
                // (_ bvN w)
                let b = toks.get(i + 3)?;
                BigUint::parse_bytes(b.strip_prefix("bv")?.as_bytes(), 10)?
            } else {
                BigUint::parse_bytes(v.as_bytes(), 10)?
            };
            m.insert(id, val);
            i += 2;
        } else {
            i += 1;
        }
    }
    Some(m)
}

impl Solver {
    pub fn new() -> Self {
        Solver {
            proc: None,
            stats: Stats {
                queries: 0,
                cached: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: Duration::ZERO,
                by: HashMap::new(),
                slow: vec![],
            },
            cache: HashMap::new(),
            quick_ms: 3000,
            hard_ms: 60000,
            dump: None,
            cross: false,
            prefer_int: false,
            poly: false,
            recent: vec![],
            rng: 88172645463325252,
        }
    }
    fn quick(&mut self, t: &Text, ms: u64) -> Res {
        for attempt in 0..2 {
            if self.proc.is_none() {
                match spawn(&["z3-new".to_string(), "-in".to_string(), "-memory:4000".to_string()]) {
                    Ok(mut c) => {
                        let out = BufReader::new(c.stdout.take().unwrap());
                        self.proc = Some(Proc { child: c, out });
                    }
                    Err(_) => return Res::Unknown,
                }
            }
            let r = self.quick1(t, ms);
            match r {
                Some(r) => return r,
                None => {
                    if let Some(mut p) = self.proc.take() {
                        let _ = p.child.kill();
                        let _ = p.child.wait();
                    }
                    if attempt == 1 {
                        return Res::Unknown;
                    }
                }
            }
        }
        Res::Unknown
    }
    fn quick1(&mut self, t: &Text, ms: u64) -> Option<Res> {
        let p = self.proc.as_mut().unwrap();
        let mut q = String::with_capacity(t.body.len() + 200);
        let _ = write!(q, "(reset)\n(set-option :timeout {})\n", ms);
        q.push_str(if t.int { "" } else { "(set-logic QF_BV)\n" });
        q.push_str(&t.body);
        q.push_str("(check-sat)\n(echo \"@@\")\n");
        let sin = p.child.stdin.as_mut()?;
        sin.write_all(q.as_bytes()).ok()?;
        sin.flush().ok()?;
        let mut ans = String::new();
        loop {
            let mut l = String::new();
            if p.out.read_line(&mut l).ok()? == 0 {
                return None;
            }
            if l.trim() == "@@" {
                break;
            }
            ans.push_str(&l);
        }
        if ans.contains("(error") {
            eprintln!("solver error: {}", ans);
            return Some(Res::Unknown);
        }
        match ans.trim() {
            "unsat" => Some(Res::Unsat),
            "sat" => {
                if t.syms.is_empty() {
                    return Some(Res::Sat(HashMap::new()));
                }
                let names: Vec<String> = t.syms.iter().map(|i| format!("s{}", i)).collect();
                let q = format!("(get-value ({}))\n(echo \"@@\")\n", names.join(" "));
                let sin = p.child.stdin.as_mut()?;
                sin.write_all(q.as_bytes()).ok()?;
                sin.flush().ok()?;
                let mut v = String::new();
                loop {
                    let mut l = String::new();
                    if p.out.read_line(&mut l).ok()? == 0 {
                        return None;
                    }
                    if l.trim() == "@@" {
                        break;
                    }
                    v.push_str(&l);
                }
                if v.contains("(error") {
                    return Some(Res::Unknown);
                }
                Some(parse_values(&v).map(Res::Sat).unwrap_or(Res::Unknown))
            }
            _ => Some(Res::Unknown),
        }
    }
    /// Runs several solvers one-shot in parallel; the first definite answer wins.
    /// Whether one of the (relaxed) texts is refuted in time.
    fn refuted(&mut self, texts: &[(&str, String)], ms: u64) -> bool {
        let (tx, rx) = std::sync::mpsc::channel::<(usize, bool)>();
        let mut kids = vec![];
        for (i, (kind, body)) in texts.iter().enumerate() {
            let cmd: Vec<String> = if kind.starts_with("cvc5") {
                vec!["cvc5".into(), "--lang=smt2".into(), format!("--tlimit={}", ms)]
            } else {
                vec!["z3-new".into(), "-in".into(), format!("-T:{}", ms / 1000 + 1), "-memory:3000".into()]
            };
            let q = format!("(set-logic {})\n{}(check-sat)\n(exit)\n", kind.split('/').nth(1).unwrap(), body);
            if let Ok(mut c) = spawn(&cmd) {
                let (mut sin, mut out) = (c.stdin.take().unwrap(), c.stdout.take().unwrap());
                kids.push(c);
                let tx = tx.clone();
                std::thread::spawn(move || {
                    let _ = sin.write_all(q.as_bytes());
                    drop(sin);
                    let mut s = String::new();
                    let _ = out.read_to_string(&mut s);
                    let _ = tx.send((i, s.trim() == "unsat"));
                });
            }
        }
        let dl = Instant::now() + Duration::from_millis(ms + 500);
        let mut res = false;
        for _ in 0..kids.len() {
            let now = Instant::now();
            if now >= dl {
                break;
            }
            match rx.recv_timeout(dl - now) {
                Ok((i, true)) => {
                    *self.stats.by.entry(texts[i].0.to_string()).or_insert(0) += 1;
                    res = true;
                    break;
                }
                Ok(_) => {}
                Err(_) => break,
            }
        }
        for mut c in kids {
            let _ = c.kill();
            let _ = c.wait();
        }
        res
    }
    fn by_poly_hard(&mut self, ctx: &Ctx, cs: &[E]) -> Res {
        let mut v: Vec<(&str, String)> = vec![];
        for level in 1..3 {
            match crate::poly::relax(ctx, cs, level) {
                None => {}
                Some(crate::poly::Out::Unsat) => return Res::Unsat,
                Some(crate::poly::Out::Text(body, _)) => {
                    if let Some(d) = &self.dump {
                        let _ = std::fs::write(format!("{}/q{}.lia{}.smt2", d, self.stats.queries, level), format!("{}(check-sat)\n", body));
                    }
                    if level == 1 {
                        v.push(("z3new/QF_LIA", body));
                    } else {
                        v.push(("z3new/QF_LRA", body.clone()));
                        v.push(("cvc5/QF_LRA", body));
                    }
                }
            }
        }
        if self.refuted(&v, self.quick_ms * 8) {
            Res::Unsat
        } else {
            Res::Unknown
        }
    }
    fn portfolio(&mut self, texts: &[(&str, &Text)], ms: u64) -> Res {
        let dl = Instant::now() + Duration::from_millis(ms);
        let (tx, rx) = std::sync::mpsc::channel::<(String, Option<String>)>();
        let kids: std::sync::Arc<std::sync::Mutex<Vec<Child>>> = Default::default();
        let mut n = 0;
        for (kind, t) in texts {
            let secs = ms / 1000 + 1;
            let cmd: Vec<String> = match *kind {
                "z3new" => vec!["z3-new".into(), "-in".into(), format!("-T:{}", secs), "-memory:6000".into()],
                "z3old" => vec!["z3".into(), "-in".into(), format!("-T:{}", secs), "-memory:6000".into()],
                "cvc5" => vec!["cvc5".into(), "--lang=smt2".into(), "--produce-models".into(), format!("--tlimit={}", ms)],
                "cvc5nl" => vec![
                    "cvc5".into(),
                    "--lang=smt2".into(),
                    "--produce-models".into(),
                    "--nl-ext-tplanes".into(),
                    format!("--tlimit={}", ms),
                ],
                "cvc5int" => vec![
                    "cvc5".into(),
                    "--lang=smt2".into(),
                    "--produce-models".into(),
                    "--solve-bv-as-int=sum".into(),
                    format!("--tlimit={}", ms),
                ],
                _ => unreachable!(),
            };
            let mut q = String::new();
            if t.int {
                q.push_str("(set-logic QF_NIA)\n");
            } else {
                q.push_str("(set-logic QF_BV)\n");
            }
            q.push_str(&t.body);
            q.push_str("(check-sat)\n");
            if !t.syms.is_empty() {
                let names: Vec<String> = t.syms.iter().map(|i| format!("s{}", i)).collect();
                q.push_str(&format!("(get-value ({}))\n", names.join(" ")));
            }
            q.push_str("(exit)\n");
            let mut c = match spawn(&cmd) {
                Ok(c) => c,
                Err(_) => continue,
            };
            let mut sin = c.stdin.take().unwrap();
            let mut out = c.stdout.take().unwrap();
            kids.lock().unwrap().push(c);
            let tx = tx.clone();
            let k = format!("{}{}", kind, if t.int { "/int" } else { "/bv" });
            n += 1;
            std::thread::spawn(move || {
                let _ = sin.write_all(q.as_bytes());
                drop(sin);
                let mut s = String::new();
                let _ = out.read_to_string(&mut s);
                let _ = tx.send((k, Some(s)));
            });
        }
        let mut res = Res::Unknown;
        let mut got = 0;
        while got < n {
            let now = Instant::now();
            if now >= dl {
                break;
            }
            match rx.recv_timeout(dl - now) {
                Ok((k, Some(s))) => {
                    got += 1;
                    let first = s.lines().next().unwrap_or("").trim().to_string();
                    if first == "unsat" {
                        *self.stats.by.entry(k).or_insert(0) += 1;
                        res = Res::Unsat;
                        break;
                    }
                    if first == "sat" {
                        let rest: String = s.lines().skip(1).collect::<Vec<_>>().join("\n");
                        if rest.contains("(error") {
                            continue;
                        }
                        if let Some(m) = parse_values(&rest) {
                            *self.stats.by.entry(k).or_insert(0) += 1;
                            res = Res::Sat(m);
                            break;
                        }
                    }
                }
                Ok(_) => got += 1,
                Err(_) => break,
            }
        }
        for c in kids.lock().unwrap().iter_mut() {
            let _ = c.kill();
            let _ = c.wait();
        }
        res
    }
    fn holds(ctx: &Ctx, cs: &[E], m: &HashMap<u32, BigUint>) -> bool {
        let f = |i: u32| m.get(&i).cloned().unwrap_or_else(BigUint::zero);
        let mut memo = HashMap::new();
        cs.iter().all(|c| !ctx.eval(*c, &f, &mut memo).is_zero())
    }
    fn by_poly(&mut self, ctx: &Ctx, cs: &[E], cand: &mut Vec<HashMap<u32, BigUint>>, lia: &mut Option<Text>, level: u32) -> Res {
        match crate::poly::relax(ctx, cs, level) {
            None => Res::Unknown,
            Some(crate::poly::Out::Unsat) => {
                *self.stats.by.entry("interval".into()).or_insert(0) += 1;
                Res::Unsat
            }
            Some(crate::poly::Out::Text(body, syms)) => {
                let t = Text { body, syms, int: true };
                if let Some(d) = &self.dump {
                    let _ = std::fs::write(format!("{}/q{}.lia{}.smt2", d, self.stats.queries, level), format!("{}(check-sat)\n", t.body));
                }
                let ms = if level == 0 { self.quick_ms } else { self.quick_ms * 4 };
                let r = self.quick(&t, ms);
                *lia = Some(t);
                match r {
                    Res::Unsat => {
                        *self.stats.by.entry("z3new/lia".into()).or_insert(0) += 1;
                        Res::Unsat
                    }
                    Res::Sat(m) => {
                        if Self::holds(ctx, cs, &m) {
                            *self.stats.by.entry("z3new/lia".into()).or_insert(0) += 1;
                            return Res::Sat(m);
                        }
                        cand.push(m);
                        Res::Unknown
                    }
                    _ => Res::Unknown,
                }
            }
        }
    }
    /// Looks for a model near known assignments: some symbols are fixed, the solver chooses the rest.
    fn search(&mut self, ctx: &Ctx, cs: &[E], it: &Text, cand: &[HashMap<u32, BigUint>]) -> Res {
        let mut base: Vec<HashMap<u32, BigUint>> = cand.to_vec();
        base.extend(self.recent.iter().rev().take(3).cloned());
        for m in &base {
            if Self::holds(ctx, cs, m) {
                *self.stats.by.entry("candidate".into()).or_insert(0) += 1;
                return Res::Sat(m.clone());
            }
        }
        let mut rnd = || {
            self.rng ^= self.rng << 13;
            self.rng ^= self.rng >> 7;
            self.rng ^= self.rng << 17;
            self.rng
        };
        let mut texts = vec![];
        for k in 0..10usize {
            let m = &base[k % base.len().max(1)..];
            let m = match m.first() {
                Some(m) => m,
                None => break,
            };
            let mut body = it.body.clone();
            let mut n = 0;
            for s in &it.syms {
                if rnd() % 10 < 6 + (k as u64 % 3) {
                    continue;
                }
                let z = BigUint::zero();
                let v = m.get(s).unwrap_or(&z);
                n += 1;
                if ctx.syms[*s as usize].w == 1 {
                    let _ = writeln!(body, "(assert (= s{} {}))", s, !v.is_zero());
                } else {
                    let _ = writeln!(body, "(assert (= s{} {}))", s, v);
                }
            }
            if n > 0 {
                texts.push(Text { body, syms: it.syms.clone(), int: true });
            }
        }
        for t in texts {
            if let Res::Sat(m) = self.quick(&t, 500) {
                if Self::holds(ctx, cs, &m) {
                    *self.stats.by.entry("z3new/int-fixed".into()).or_insert(0) += 1;
                    return Res::Sat(m);
                }
            }
        }
        Res::Unknown
    }
    pub fn check(&mut self, ctx: &Ctx, cs0: &[E], what: &str) -> Res {
        let mut cs = vec![];
        for c in cs0 {
            flat(ctx, *c, &mut cs);
        }
        cs.sort_unstable();
        cs.dedup();
        cs.retain(|c| *c != ctx.t);
        if cs.contains(&ctx.f) {
            return Res::Unsat;
        }
        if cs.is_empty() {
            return Res::Sat(HashMap::new());
        }
        for c in &cs {
            if let N::Not(x) = *ctx.node(*c) {
                if cs.binary_search(&x).is_ok() {
                    return Res::Unsat;
                }
            }
        }
        if let Some(r) = self.cache.get(&cs) {
            self.stats.cached += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        self.stats.queries += 1;
        let (order, _) = topo(ctx, &cs);
        let nonlin = has_nonlin(ctx, &order) || self.prefer_int;
        let bv = bv_text(ctx, &cs);
        let it = if nonlin { int_text(ctx, &cs) } else { None };
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{}/q{}.bv.smt2", d, self.stats.queries), format!("{}(check-sat)\n", bv.body));
            if let Some(i) = &it {
                let _ = std::fs::write(format!("{}/q{}.int.smt2", d, self.stats.queries), format!("{}(check-sat)\n", i.body));
            }
        }
        let mut cand: Vec<HashMap<u32, BigUint>> = vec![];
        let mut lia = None;
        let mut r = Res::Unknown;
        if nonlin && self.poly {
            r = self.by_poly(ctx, &cs, &mut cand, &mut lia, 0);
        }
        if matches!(r, Res::Unknown) {
        r = match &it {
            Some(i) => {
                let r = self.quick(i, self.quick_ms);
                if !matches!(r, Res::Unknown) {
                    *self.stats.by.entry("z3new/int".into()).or_insert(0) += 1;
                }
                r
            }
            None => {
                let r = self.quick(&bv, self.quick_ms);
                if !matches!(r, Res::Unknown) {
                    *self.stats.by.entry("z3new/bv".into()).or_insert(0) += 1;
                }
                r
            }
        };
        }
        if matches!(r, Res::Unknown) && nonlin && self.poly {
            if let Some(i) = &it {
                r = self.search(ctx, &cs, i, &cand);
            }
            if matches!(r, Res::Unknown) {
                r = self.by_poly_hard(ctx, &cs);
            }
        }
        if matches!(r, Res::Unknown) {
            let it2 = if it.is_none() { int_text(ctx, &cs) } else { None };
            let i = it.as_ref().or(it2.as_ref());
            let mut v: Vec<(&str, &Text)> = vec![("z3new", &bv), ("cvc5", &bv)];
            if let Some(i) = i {
                if nonlin {
                    v = vec![("z3new", i), ("cvc5nl", i), ("z3old", i), ("cvc5int", &bv), ("z3new", &bv)];
                } else {
                    v.push(("z3new", i));
                    v.push(("cvc5nl", i));
                }
            } else {
                v.push(("z3old", &bv));
                v.push(("cvc5int", &bv));
            }
            let ms = if self.poly && nonlin { self.hard_ms / 4 } else { self.hard_ms };
            r = self.portfolio(&v, ms);
        }
        // a model must satisfy the constraints under the bit-vector semantics of the engine
        if let Res::Sat(m) = &r {
            let f = |i: u32| m.get(&i).cloned().unwrap_or_else(BigUint::zero);
            let mut memo = HashMap::new();
            for c in &cs {
                if ctx.eval(*c, &f, &mut memo).is_zero() {
                    eprintln!("model does not satisfy the query ({}): {}", what, ctx.show(*c, 6));
                    r = Res::Unknown;
                    break;
                }
            }
        }
        let dt = t0.elapsed();
        self.stats.time += dt;
        if dt.as_secs_f64() > 2.0 {
            self.stats.slow.push((dt.as_secs_f64(), what.to_string()));
            if std::env::var("SYMX_SLOW").is_ok() {
                let _ = std::fs::create_dir_all("/tmp/symx_slow");
                let _ = std::fs::write(format!("/tmp/symx_slow/{}_{}.bv.smt2", std::process::id(), self.stats.queries), format!("{}(check-sat)\n", bv.body));
                if let Some(i) = &it {
                    let _ = std::fs::write(format!("/tmp/symx_slow/{}_{}.int.smt2", std::process::id(), self.stats.queries), format!("{}(check-sat)\n", i.body));
                }
                eprintln!("slow query {:.1}s {} -> {:?} [{}]", dt.as_secs_f64(), what, match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" }, self.stats.queries);
            }
        }
        match &r {
            Res::Sat(m) => {
                self.stats.sat += 1;
                if self.poly {
                    if self.recent.len() >= 12 {
                        self.recent.remove(0);
                    }
                    self.recent.push(m.clone());
                }
            }
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        self.cache.insert(cs, r.clone());
        r
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        if let Some(mut p) = self.proc.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
}
