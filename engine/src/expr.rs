//! Hash-consed bit-vector expressions with simplification and unsigned ranges.
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Nil,
    C(BigUint),
    Sym(u32),
    Add(E, E),
    Sub(E, E),
    Mul(E, E),
    UDiv(E, E),
    URem(E, E),
    SDiv(E, E),
    SRem(E, E),
    And(E, E),
    Or(E, E),
    Xor(E, E),
    Not(E),
    Shl(E, E),
    LShr(E, E),
    AShr(E, E),
    Eq(E, E),
    Ult(E, E),
    Ule(E, E),
    Slt(E, E),
    Sle(E, E),
    Ite(E, E, E),
    Ext(u16, u16, E),
    Cat(E, E),
    ZExt(E),
    SExt(E),
}

pub struct SymInfo {
    pub name: String,
    pub w: u16,
    pub input: bool,
}

pub struct UfApp {
    pub f: String,
    pub input: E,
    pub out: E, // a Sym
    pub sym: u32,
}

pub struct Ctx {
    pub nodes: Vec<N>,
    pub width: Vec<u16>,
    pub lb: Vec<Rc<BigUint>>,
    pub ub: Vec<Rc<BigUint>>,
    map: HashMap<(N, u16), E>,
    pub syms: Vec<SymInfo>,
    pub ufs: Vec<UfApp>,
    pub uf_of_sym: HashMap<u32, usize>,
    pub uf_map: HashMap<(String, E), E>,
    symsets: HashMap<E, Rc<Vec<u32>>>,
    masks: HashMap<u16, Rc<BigUint>>,
    zero: Rc<BigUint>,
    pub t: E,
    pub f: E,
    pub arith: bool,
}

pub fn mask(w: u16) -> BigUint {
    (BigUint::one() << (w as usize)) - 1u32
}
fn truncb(v: BigUint, w: u16) -> BigUint {
    if v.bits() <= w as u64 {
        v
    } else {
        v & mask(w)
    }
}
fn sign(v: &BigUint, w: u16) -> bool {
    v.bit(w as u64 - 1)
}
fn neg(v: &BigUint, w: u16) -> BigUint {
    truncb((BigUint::one() << (w as usize)) - v, w)
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![],
            width: vec![],
            lb: vec![],
            ub: vec![],
            map: HashMap::new(),
            syms: vec![],
            ufs: vec![],
            uf_of_sym: HashMap::new(),
            uf_map: HashMap::new(),
            symsets: HashMap::new(),
            masks: HashMap::new(),
            zero: Rc::new(BigUint::zero()),
            t: 0,
            f: 0,
            arith: false,
        };
        c.nodes.push(N::Nil);
        c.width.push(0);
        c.lb.push(c.zero.clone());
        c.ub.push(c.zero.clone());
        c.t = c.cst(1, BigUint::one());
        c.f = c.cst(1, BigUint::zero());
        c
    }
    pub fn maskrc(&mut self, w: u16) -> Rc<BigUint> {
        self.masks.entry(w).or_insert_with(|| Rc::new(mask(w))).clone()
    }
    fn mk(&mut self, n: N, w: u16) -> E {
        let key = (n, w);
        if let Some(e) = self.map.get(&key) {
            return *e;
        }
        let (l, u) = self.range(&key.0, w);
        let id = self.nodes.len() as E;
        self.nodes.push(key.0.clone());
        self.width.push(w);
        self.lb.push(l);
        self.ub.push(u);
        self.map.insert(key, id);
        id
    }
    fn range(&mut self, n: &N, w: u16) -> (Rc<BigUint>, Rc<BigUint>) {
        let full = (self.zero.clone(), self.maskrc(w));
        let m = full.1.clone();
        let l = |s: &Self, e: &E| s.lb[*e as usize].clone();
        let u = |s: &Self, e: &E| s.ub[*e as usize].clone();
        match n {
            N::C(v) => {
                let r = Rc::new(v.clone());
                (r.clone(), r)
            }
            N::Add(a, b) => {
                let uu = &*u(self, a) + &*u(self, b);
                if uu <= *m {
                    (Rc::new(&*l(self, a) + &*l(self, b)), Rc::new(uu))
                } else {
                    full
                }
            }
            N::Sub(a, b) => {
                let (la, ub) = (l(self, a), u(self, b));
                if *la >= *ub {
                    (Rc::new(&*la - &*ub), Rc::new(&*u(self, a) - &*l(self, b)))
                } else {
                    full
                }
            }
            N::Mul(a, b) => {
                let uu = &*u(self, a) * &*u(self, b);
                if uu <= *m {
                    (Rc::new(&*l(self, a) * &*l(self, b)), Rc::new(uu))
                } else {
                    full
                }
            }
            N::UDiv(a, b) => {
                let lb = l(self, b);
                if lb.is_zero() {
                    full
                } else {
                    (Rc::new(&*l(self, a) / &*u(self, b)), Rc::new(&*u(self, a) / &*lb))
                }
            }
            N::URem(a, b) => {
                let lb = l(self, b);
                if lb.is_zero() {
                    (self.zero.clone(), u(self, a))
                } else {
                    let x = &*u(self, b) - 1u32;
                    let y = u(self, a);
                    (self.zero.clone(), if x < *y { Rc::new(x) } else { y })
                }
            }
            N::And(a, b) => {
                let (x, y) = (u(self, a), u(self, b));
                (self.zero.clone(), if *x < *y { x } else { y })
            }
            N::Or(a, b) | N::Xor(a, b) => {
                let x = u(self, a).bits().max(u(self, b).bits()) as u16;
                let lo = if matches!(n, N::Or(..)) {
                    std::cmp::max(l(self, a), l(self, b))
                } else {
                    self.zero.clone()
                };
                (lo, self.maskrc(x))
            }
            N::LShr(a, _) => (self.zero.clone(), u(self, a)),
            N::ZExt(a) => (l(self, a), u(self, a)),
            N::Ite(_, a, b) => (
                std::cmp::min(l(self, a), l(self, b)),
                std::cmp::max(u(self, a), u(self, b)),
            ),
            N::Cat(a, b) => {
                let k = self.width[*b as usize] as usize;
                (
                    Rc::new((&*l(self, a) << k) + &*l(self, b)),
                    Rc::new((&*u(self, a) << k) + &*u(self, b)),
                )
            }
            N::Ext(hi, lo, a) => {
                let uu = u(self, a);
                if uu.bits() <= *hi as u64 + 1 {
                    (Rc::new(&*l(self, a) >> (*lo as usize)), Rc::new(&*uu >> (*lo as usize)))
                } else {
                    full
                }
            }
            _ => full,
        }
    }
    pub fn w(&self, e: E) -> u16 {
        self.width[e as usize]
    }
    pub fn cst(&mut self, w: u16, v: BigUint) -> E {
        self.mk(N::C(v), w)
    }
    pub fn c128(&mut self, w: u16, v: u128) -> E {
        self.mk(N::C(BigUint::from(v)), w)
    }
    pub fn cval(&self, e: E) -> Option<&BigUint> {
        if let N::C(v) = &self.nodes[e as usize] {
            Some(v)
        } else {
            None
        }
    }
    pub fn cu128(&self, e: E) -> Option<u128> {
        self.cval(e).and_then(|v| v.to_u128())
    }
    pub fn is0(&self, e: E) -> bool {
        self.cval(e).map_or(false, |v| v.is_zero())
    }
    pub fn node(&self, e: E) -> &N {
        &self.nodes[e as usize]
    }
    pub fn fresh(&mut self, name: &str, w: u16, input: bool) -> (E, u32) {
        let id = self.syms.len() as u32;
        self.syms.push(SymInfo { name: name.to_string(), w, input });
        (self.mk(N::Sym(id), w), id)
    }
    pub fn bool(&self, b: bool) -> E {
        if b {
            self.t
        } else {
            self.f
        }
    }

    // ---- evaluation of one operator on constants
    pub fn evalop(n: &N, w: u16, a: &BigUint, b: &BigUint, wa: u16) -> BigUint {
        let one = |x: bool| if x { BigUint::one() } else { BigUint::zero() };
        match n {
            N::Add(..) => truncb(a + b, w),
            N::Sub(..) => truncb(a + neg(b, w), w),
            N::Mul(..) => truncb(a * b, w),
            N::UDiv(..) => {
                if b.is_zero() {
                    mask(w)
                } else {
                    a / b
                }
            }
            N::URem(..) => {
                if b.is_zero() {
                    a.clone()
                } else {
                    a % b
                }
            }
            N::SDiv(..) => {
                if b.is_zero() {
                    return if sign(a, w) { BigUint::one() } else { mask(w) };
                }
                let (na, nb) = (sign(a, w), sign(b, w));
                let x = if na { neg(a, w) } else { a.clone() };
                let y = if nb { neg(b, w) } else { b.clone() };
                let q = truncb(x / y, w);
                if na != nb {
                    neg(&q, w)
                } else {
                    q
                }
            }
            N::SRem(..) => {
                if b.is_zero() {
                    return a.clone();
                }
                let (na, nb) = (sign(a, w), sign(b, w));
                let x = if na { neg(a, w) } else { a.clone() };
                let y = if nb { neg(b, w) } else { b.clone() };
                let q = truncb(x % y, w);
                if na {
                    neg(&q, w)
                } else {
                    q
                }
            }
            N::And(..) => a & b,
            N::Or(..) => a | b,
            N::Xor(..) => a ^ b,
            N::Shl(..) => match b.to_u64() {
                Some(s) if s < w as u64 => truncb(a << (s as usize), w),
                _ => BigUint::zero(),
            },
            N::LShr(..) => match b.to_u64() {
                Some(s) if s < w as u64 => a >> (s as usize),
                _ => BigUint::zero(),
            },
            N::AShr(..) => {
                let sg = sign(a, w);
                match b.to_u64() {
                    Some(s) if s < w as u64 => {
                        let r = a >> (s as usize);
                        if sg {
                            r | (mask(w) ^ mask(w - s as u16))
                        } else {
                            r
                        }
                    }
                    _ => {
                        if sg {
                            mask(w)
                        } else {
                            BigUint::zero()
                        }
                    }
                }
            }
            N::Eq(..) => one(a == b),
            N::Ult(..) => one(a < b),
            N::Ule(..) => one(a <= b),
            N::Slt(..) | N::Sle(..) => {
                let top = BigUint::one() << (wa as usize - 1);
                let (x, y) = (a ^ &top, b ^ &top);
                one(if matches!(n, N::Slt(..)) { x < y } else { x <= y })
            }
            _ => unreachable!(),
        }
    }

    // ---- smart constructors
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            return self.xor(a, b);
        }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(bv) = self.cval(b).cloned() {
            if bv.is_zero() {
                return a;
            }
            if let Some(av) = self.cval(a).cloned() {
                return self.cst(w, truncb(av + bv, w));
            }
            match self.node(a).clone() {
                N::Add(x, y) => {
                    if let Some(yv) = self.cval(y).cloned() {
                        let c = self.cst(w, truncb(yv + bv, w));
                        return self.add(x, c);
                    }
                }
                N::Sub(x, y) => {
                    if let Some(yv) = self.cval(y).cloned() {
                        let c = self.cst(w, truncb(bv + neg(&yv, w), w));
                        return self.add(x, c);
                    }
                }
                N::Ite(c, x, y) if self.cval(x).is_some() && self.cval(y).is_some() => {
                    let (p, q) = (self.add(x, b), self.add(y, b));
                    return self.ite(c, p, q);
                }
                _ => {}
            }
            if sign(&bv, w) {
                let c = self.cst(w, neg(&bv, w));
                return self.mk(N::Sub(a, c), w);
            }
            return self.mk(N::Add(a, b), w);
        }
        // (x - b) + b
        if let N::Sub(x, y) = *self.node(a) {
            if y == b {
                return x;
            }
        }
        if let N::Sub(x, y) = *self.node(b) {
            if y == a {
                return x;
            }
        }
        if let Some(r) = self.disjoint_merge(a, b) {
            return r;
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(N::Add(a, b), w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.c128(w, 0);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if let Some(bv) = self.cval(b).cloned() {
            let c = self.cst(w, neg(&bv, w));
            return self.add(a, c);
        }
        match *self.node(a) {
            N::Add(x, y) if y == b => return x,
            N::Add(x, y) if x == b => return y,
            _ => {}
        }
        self.mk(N::Sub(a, b), w)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if w == 1 {
            return self.and(a, b);
        }
        if let Some(bv) = self.cval(b).cloned() {
            if bv.is_zero() {
                return b;
            }
            if bv.is_one() {
                return a;
            }
            if let Some(av) = self.cval(a).cloned() {
                return self.cst(w, truncb(av * bv, w));
            }
            if let N::Ite(c, x, y) = *self.node(a) {
                if self.cval(x).is_some() && self.cval(y).is_some() {
                    let (p, q) = (self.mul(x, b), self.mul(y, b));
                    return self.ite(c, p, q);
                }
            }
            return self.mk(N::Mul(a, b), w);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(N::Mul(a, b), w)
    }
    pub fn bin_div(&mut self, k: u8, a: E, b: E) -> E {
        let w = self.w(a);
        let n = match k {
            0 => N::UDiv(a, b),
            1 => N::URem(a, b),
            2 => N::SDiv(a, b),
            _ => N::SRem(a, b),
        };
        if let (Some(x), Some(y)) = (self.cval(a).cloned(), self.cval(b).cloned()) {
            return self.cst(w, Self::evalop(&n, w, &x, &y, w));
        }
        if let Some(y) = self.cval(b).cloned() {
            if k <= 1 && !y.is_zero() {
                if y.is_one() {
                    return if k == 0 { a } else { self.c128(w, 0) };
                }
                let tz = y.trailing_zeros().unwrap();
                if y.bits() == tz + 1 {
                    let s = self.c128(w, tz as u128);
                    if k == 0 {
                        return self.lshr(a, s);
                    }
                    let m = self.cst(w, mask(tz as u16));
                    return self.and(a, m);
                }
                if *self.ub[a as usize] < y {
                    return if k == 0 { self.c128(w, 0) } else { a };
                }
            }
        }
        if k <= 1 && *self.ub[a as usize] < *self.lb[b as usize] {
            return if k == 0 { self.c128(w, 0) } else { a };
        }
        // narrow zero-extended operands
        if k <= 1 {
            let bits = self.ub[a as usize].bits().max(self.ub[b as usize].bits()) as u16;
            if let (Some(x), Some(y)) = (self.unzext(a), self.unzext(b)) {
                let nw = self.w(x).max(self.w(y)).max(bits);
                if nw < w {
                    let (x, y) = (self.zext(x, nw), self.zext(y, nw));
                    // division by zero yields all-ones at the width, so only narrow when b != 0
                    if !self.lb[b as usize].is_zero() {
                        let r = self.bin_div(k, x, y);
                        return self.zext(r, w);
                    }
                }
            }
        }
        self.mk(n, w)
    }
    fn unzext(&mut self, e: E) -> Option<E> {
        match self.node(e).clone() {
            N::ZExt(x) => Some(x),
            N::C(v) => {
                let b = (v.bits() as u16).max(1);
                Some(self.cst(b, v))
            }
            _ => None,
        }
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        self.bin_div(0, a, b)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        self.bin_div(1, a, b)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        match self.node(a).clone() {
            N::C(v) => return self.cst(w, mask(w) ^ v),
            N::Not(x) => return x,
            N::Ult(x, y) => return self.ule(y, x),
            N::Ule(x, y) => return self.ult(y, x),
            N::Slt(x, y) => return self.mk(N::Sle(y, x), 1),
            N::Sle(x, y) => return self.mk(N::Slt(y, x), 1),
            N::Ite(c, x, y) if self.cval(x).is_some() || self.cval(y).is_some() => {
                let (p, q) = (self.not(x), self.not(y));
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.mk(N::Not(a), w)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(bv) = self.cval(b).cloned() {
            if let Some(av) = self.cval(a).cloned() {
                return self.cst(w, av & bv);
            }
            if bv.is_zero() {
                return b;
            }
            let m = mask(w);
            if bv == m {
                return a;
            }
            // contiguous masks
            let tz = bv.trailing_zeros().unwrap() as u16;
            let nb = bv.bits() as u16;
            if mask(nb) ^ mask(tz) == bv {
                let x = self.ext(nb - 1, tz, a);
                let x = if tz > 0 {
                    let z = self.c128(tz, 0);
                    self.cat(x, z)
                } else {
                    x
                };
                return self.zext(x, w);
            }
            if let N::And(x, y) = self.node(a).clone() {
                if let Some(yv) = self.cval(y).cloned() {
                    let c = self.cst(w, yv & bv);
                    return self.and(x, c);
                }
            }
            if let N::Ite(c, x, y) = self.node(a).clone() {
                if self.cval(x).is_some() && self.cval(y).is_some() {
                    let (p, q) = (self.and(x, b), self.and(y, b));
                    return self.ite(c, p, q);
                }
            }
            // piecewise over segments (a mask over a concatenation)
            let segs = self.segs(a);
            if segs.len() > 1 {
                let mut out: Option<E> = None;
                let mut lo = 0u16;
                for s in segs {
                    let sw = self.w(s);
                    let mv = truncb(&bv >> (lo as usize), sw);
                    let mc = self.cst(sw, mv);
                    let p = self.and(s, mc);
                    out = Some(match out {
                        None => p,
                        Some(o) => self.cat(p, o),
                    });
                    lo += sw;
                }
                return out.unwrap();
            }
            return self.mk(N::And(a, b), w);
        }
        if w == 1 {
            let na = self.not(a);
            if na == b {
                return self.f;
            }
            // absorb
            if let N::And(x, y) = *self.node(a) {
                if x == b || y == b {
                    return a;
                }
            }
            if let N::And(x, y) = *self.node(b) {
                if x == a || y == a {
                    return b;
                }
            }
        } else if let Some(r) = self.piecewise(a, b, 0) {
            return r;
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(N::And(a, b), w)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(bv) = self.cval(b).cloned() {
            if let Some(av) = self.cval(a).cloned() {
                return self.cst(w, av | bv);
            }
            if bv.is_zero() {
                return a;
            }
            if bv == mask(w) {
                return b;
            }
        }
        if w == 1 {
            let na = self.not(a);
            if na == b {
                return self.t;
            }
            let nb = self.not(b);
            let x = self.and(na, nb);
            return self.not(x);
        }
        if let Some(r) = self.piecewise(a, b, 1) {
            return r;
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(N::Or(a, b), w)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.c128(w, 0);
        }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(bv) = self.cval(b).cloned() {
            if let Some(av) = self.cval(a).cloned() {
                return self.cst(w, av ^ bv);
            }
            if bv.is_zero() {
                return a;
            }
            if bv == mask(w) {
                return self.not(a);
            }
            if let N::Ite(c, x, y) = self.node(a).clone() {
                if self.cval(x).is_some() && self.cval(y).is_some() {
                    let (p, q) = (self.xor(x, b), self.xor(y, b));
                    return self.ite(c, p, q);
                }
            }
        }
        if w > 1 {
            if let Some(r) = self.piecewise(a, b, 2) {
                return r;
            }
        } else {
            if let N::Not(x) = *self.node(a) {
                let r = self.xor(x, b);
                return self.not(r);
            }
            if let N::Not(x) = *self.node(b) {
                let r = self.xor(a, x);
                return self.not(r);
            }
            // boolean xor with comparison: keep as eq-negation
            let (a, b) = if a <= b { (a, b) } else { (b, a) };
            let e = self.mk(N::Eq(a, b), 1);
            return self.mk(N::Not(e), 1);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(N::Xor(a, b), w)
    }
    /// Segments, least significant first.
    fn segs(&mut self, e: E) -> Vec<E> {
        let mut out = vec![];
        self.segs_into(e, &mut out);
        out
    }
    fn segs_into(&mut self, e: E, out: &mut Vec<E>) {
        match self.node(e).clone() {
            N::Cat(a, b) => {
                self.segs_into(b, out);
                self.segs_into(a, out);
            }
            N::ZExt(x) => {
                let k = self.w(e) - self.w(x);
                self.segs_into(x, out);
                let z = self.c128(k, 0);
                out.push(z);
            }
            _ => out.push(e),
        }
    }
    /// op: 0 and, 1 or, 2 xor. Only when at least one aligned piece is a constant 0 (or both are).
    fn piecewise(&mut self, a: E, b: E, op: u8) -> Option<E> {
        let (sa, sb) = (self.segs(a), self.segs(b));
        if sa.len() == 1 && sb.len() == 1 {
            return None;
        }
        if sa.len() + sb.len() > 140 {
            return None;
        }
        let consts = sa.iter().chain(sb.iter()).filter(|e| self.cval(**e).is_some()).count();
        if consts == 0 && op != 0 {
            return None;
        }
        let (pa, pb) = self.align(sa, sb);
        let mut useful = false;
        for i in 0..pa.len() {
            if self.cval(pa[i]).is_some() || self.cval(pb[i]).is_some() {
                useful = true;
            }
        }
        if !useful {
            return None;
        }
        let mut out: Option<E> = None;
        for i in 0..pa.len() {
            let p = match op {
                0 => self.and(pa[i], pb[i]),
                1 => self.or(pa[i], pb[i]),
                _ => self.xor(pa[i], pb[i]),
            };
            out = Some(match out {
                None => p,
                Some(o) => self.cat(p, o),
            });
        }
        out
    }
    fn align(&mut self, sa: Vec<E>, sb: Vec<E>) -> (Vec<E>, Vec<E>) {
        let (mut pa, mut pb) = (vec![], vec![]);
        let mut ia = sa.into_iter();
        let mut ib = sb.into_iter();
        let (mut ca, mut cb) = (ia.next(), ib.next());
        while let (Some(x), Some(y)) = (ca, cb) {
            let (wx, wy) = (self.w(x), self.w(y));
            if wx == wy {
                pa.push(x);
                pb.push(y);
                ca = ia.next();
                cb = ib.next();
            } else if wx < wy {
                pa.push(x);
                let l = self.ext(wx - 1, 0, y);
                pb.push(l);
                cb = Some(self.ext(wy - 1, wx, y));
                ca = ia.next();
            } else {
                pb.push(y);
                let l = self.ext(wy - 1, 0, x);
                pa.push(l);
                ca = Some(self.ext(wx - 1, wy, x));
                cb = ib.next();
            }
        }
        (pa, pb)
    }
    fn disjoint_merge(&mut self, a: E, b: E) -> Option<E> {
        let (sa, sb) = (self.segs(a), self.segs(b));
        if sa.len() == 1 && sb.len() == 1 || sa.len() + sb.len() > 140 {
            return None;
        }
        let (pa, pb) = self.align(sa, sb);
        for i in 0..pa.len() {
            if !self.is0(pa[i]) && !self.is0(pb[i]) {
                return None;
            }
        }
        let mut out: Option<E> = None;
        for i in 0..pa.len() {
            let p = if self.is0(pa[i]) { pb[i] } else { pa[i] };
            out = Some(match out {
                None => p,
                Some(o) => self.cat(p, o),
            });
        }
        out
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(bv) = self.cval(b).cloned() {
            let s = match bv.to_u64() {
                Some(s) if s < w as u64 => s as u16,
                _ => return self.c128(w, 0),
            };
            if s == 0 {
                return a;
            }
            let x = self.ext(w - 1 - s, 0, a);
            let z = self.c128(s, 0);
            return self.cat(x, z);
        }
        self.mk(N::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(bv) = self.cval(b).cloned() {
            let s = match bv.to_u64() {
                Some(s) if s < w as u64 => s as u16,
                _ => return self.c128(w, 0),
            };
            if s == 0 {
                return a;
            }
            let x = self.ext(w - 1, s, a);
            return self.zext(x, w);
        }
        self.mk(N::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(bv) = self.cval(b).cloned() {
            let s = match bv.to_u64() {
                Some(s) if s < w as u64 => s as u16,
                _ => w - 1,
            };
            if s == 0 {
                return a;
            }
            let x = self.ext(w - 1, s, a);
            return self.sext(x, w);
        }
        self.mk(N::AShr(a, b), w)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.t;
        }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if w == 1 {
            if let Some(bv) = self.cval(b) {
                return if bv.is_one() { a } else { self.not(a) };
            }
            let na = self.not(a);
            if na == b {
                return self.f;
            }
        }
        if *self.ub[a as usize] < *self.lb[b as usize] || *self.ub[b as usize] < *self.lb[a as usize] {
            return self.f;
        }
        if let Some(bv) = self.cval(b).cloned() {
            if self.cval(a).is_some() {
                return self.f;
            }
            match self.node(a).clone() {
                N::ZExt(x) => {
                    let c = self.cst(self.w(x), bv);
                    return self.eq(x, c);
                }
                N::SExt(x) => {
                    let xw = self.w(x);
                    let t = truncb(bv.clone(), xw);
                    let c = self.cst(xw, t);
                    let back = self.sext(c, w);
                    if back != b {
                        return self.f;
                    }
                    return self.eq(x, c);
                }
                N::Cat(x, y) => {
                    let yw = self.w(y);
                    let c1 = self.cst(yw, truncb(bv.clone(), yw));
                    let c2 = self.cst(self.w(x), bv >> (yw as usize));
                    let p = self.eq(y, c1);
                    if p == self.f {
                        return p;
                    }
                    let q = self.eq(x, c2);
                    return self.and(p, q);
                }
                N::Ite(c, x, y) => {
                    if self.cval(x).is_some() || self.cval(y).is_some() {
                        let (p, q) = (self.eq(x, b), self.eq(y, b));
                        return self.ite(c, p, q);
                    }
                }
                N::Add(x, y) => {
                    if let Some(yv) = self.cval(y).cloned() {
                        let c = self.cst(w, truncb(bv + neg(&yv, w), w));
                        return self.eq(x, c);
                    }
                }
                N::Sub(x, y) => {
                    if let Some(yv) = self.cval(y).cloned() {
                        let c = self.cst(w, truncb(bv + yv, w));
                        return self.eq(x, c);
                    }
                    if bv.is_zero() {
                        return self.eq(x, y);
                    }
                }
                N::Not(x) => {
                    let c = self.cst(w, mask(w) ^ bv);
                    return self.eq(x, c);
                }
                N::Xor(x, y) => {
                    if bv.is_zero() {
                        return self.eq(x, y);
                    }
                    if let Some(yv) = self.cval(y).cloned() {
                        let c = self.cst(w, bv ^ yv);
                        return self.eq(x, c);
                    }
                }
                N::Or(x, y) if bv.is_zero() => {
                    let (p, q) = (self.eq(x, b), self.eq(y, b));
                    return self.and(p, q);
                }
                _ => {}
            }
        } else {
            // aligned concatenations compare piecewise
            if let (N::ZExt(x), N::ZExt(y)) = (self.node(a).clone(), self.node(b).clone()) {
                let m = self.w(x).max(self.w(y));
                let (x, y) = (self.zext(x, m), self.zext(y, m));
                return self.eq(x, y);
            }
            let ca = matches!(self.node(a), N::Cat(..) | N::ZExt(..));
            let cb = matches!(self.node(b), N::Cat(..) | N::ZExt(..));
            if w > 1 && ca && cb {
                let (sa, sb) = (self.segs(a), self.segs(b));
                if sa.len() + sb.len() <= 300 {
                    let (pa, pb) = self.align(sa, sb);
                    if pa.len() > 1 {
                        let mut r = self.t;
                        for i in 0..pa.len() {
                            let p = self.eq(pa[i], pb[i]);
                            r = self.and(r, p);
                        }
                        return r;
                    }
                }
            }
            // piecewise-concat against the whole symbol: rejoin
        }
        let (a, b) = if self.cval(b).is_some() || a <= b { (a, b) } else { (b, a) };
        self.mk(N::Eq(a, b), 1)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        debug_assert_eq!(self.w(a), self.w(b));
        if a == b {
            return self.f;
        }
        if *self.ub[a as usize] < *self.lb[b as usize] {
            return self.t;
        }
        if *self.lb[a as usize] >= *self.ub[b as usize] {
            return self.f;
        }
        if self.w(a) == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if let (Some(x), Some(y)) = (self.unzext(a), self.unzext(b)) {
            let nw = self.w(x).max(self.w(y));
            if nw < self.w(a) {
                let (x, y) = (self.zext(x, nw), self.zext(y, nw));
                return self.ult(x, y);
            }
        }
        // x < 1  <=> x == 0
        if self.cval(b).map_or(false, |v| v.is_one()) {
            let z = self.c128(self.w(a), 0);
            return self.eq(a, z);
        }
        if self.is0(a) {
            return self.ne(b, a);
        }
        if let N::Ite(c, x, y) = *self.node(a) {
            if self.cval(b).is_some() && (self.cval(x).is_some() || self.cval(y).is_some()) {
                let (p, q) = (self.ult(x, b), self.ult(y, b));
                return self.ite(c, p, q);
            }
        }
        if let N::Ite(c, x, y) = *self.node(b) {
            if self.cval(a).is_some() && (self.cval(x).is_some() || self.cval(y).is_some()) {
                let (p, q) = (self.ult(a, x), self.ult(a, y));
                return self.ite(c, p, q);
            }
        }
        self.mk(N::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.t;
        }
        if *self.ub[a as usize] <= *self.lb[b as usize] {
            return self.t;
        }
        if *self.lb[a as usize] > *self.ub[b as usize] {
            return self.f;
        }
        if self.w(a) == 1 {
            let na = self.not(a);
            return self.or(na, b);
        }
        // canonical form with constants: a <= c  -> a < c+1 ; c <= b -> c-1 < b
        let w = self.w(a);
        if let Some(bv) = self.cval(b).cloned() {
            let c = self.cst(w, bv + 1u32);
            return self.ult(a, c);
        }
        if let Some(av) = self.cval(a).cloned() {
            let c = self.cst(w, av - 1u32);
            return self.ult(c, b);
        }
        if let (Some(x), Some(y)) = (self.unzext(a), self.unzext(b)) {
            let nw = self.w(x).max(self.w(y));
            if nw < w {
                let (x, y) = (self.zext(x, nw), self.zext(y, nw));
                return self.ule(x, y);
            }
        }
        self.mk(N::Ule(a, b), 1)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.f;
        }
        if let (Some(x), Some(y)) = (self.cval(a).cloned(), self.cval(b).cloned()) {
            let v = Self::evalop(&N::Slt(a, b), 1, &x, &y, w);
            return self.cst(1, v);
        }
        let top = BigUint::one() << (w as usize - 1);
        let nonneg = |s: &Self, e: E| *s.ub[e as usize] < top;
        if nonneg(self, a) && nonneg(self, b) {
            return self.ult(a, b);
        }
        // sign tests
        if self.is0(b) {
            let r = self.ext(w - 1, w - 1, a);
            return r;
        }
        if self.cval(a) == Some(&mask(w)) {
            let r = self.ext(w - 1, w - 1, b);
            return self.not(r);
        }
        self.mk(N::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if c == self.t {
            return a;
        }
        if c == self.f {
            return b;
        }
        if let N::Not(x) = *self.node(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            if a == self.t {
                return self.or(c, b);
            }
            if a == self.f {
                let n = self.not(c);
                return self.and(n, b);
            }
            if b == self.t {
                let n = self.not(c);
                return self.or(n, a);
            }
            if b == self.f {
                return self.and(c, a);
            }
        }
        if let N::Ite(c2, x, _) = *self.node(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let N::Ite(c2, _, y) = *self.node(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.mk(N::Ite(c, a, b), w)
    }
    pub fn ext(&mut self, hi: u16, lo: u16, a: E) -> E {
        let w = self.w(a);
        debug_assert!(hi < w && lo <= hi, "ext {} {} of {}", hi, lo, w);
        if lo == 0 && hi == w - 1 {
            return a;
        }
        let nw = hi - lo + 1;
        if self.ub[a as usize].bits() <= lo as u64 {
            return self.c128(nw, 0);
        }
        match self.node(a).clone() {
            N::C(v) => return self.cst(nw, truncb(v >> (lo as usize), nw)),
            N::Ext(_, l2, x) => return self.ext(hi + l2, lo + l2, x),
            N::Cat(x, y) => {
                let yw = self.w(y);
                if hi < yw {
                    return self.ext(hi, lo, y);
                }
                if lo >= yw {
                    return self.ext(hi - yw, lo - yw, x);
                }
                let p = self.ext(yw - 1, lo, y);
                let q = self.ext(hi - yw, 0, x);
                return self.cat(q, p);
            }
            N::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    return self.c128(nw, 0);
                }
                if hi < xw {
                    return self.ext(hi, lo, x);
                }
                let p = self.ext(xw - 1, lo, x);
                return self.zext(p, nw);
            }
            N::SExt(x) => {
                let xw = self.w(x);
                if hi < xw {
                    return self.ext(hi, lo, x);
                }
                if lo < xw {
                    let p = self.ext(xw - 1, lo, x);
                    return self.sext(p, nw);
                }
            }
            N::Ite(c, x, y) => {
                if self.cval(x).is_some() || self.cval(y).is_some() {
                    let (p, q) = (self.ext(hi, lo, x), self.ext(hi, lo, y));
                    return self.ite(c, p, q);
                }
            }
            N::And(x, y) => {
                let (p, q) = (self.ext(hi, lo, x), self.ext(hi, lo, y));
                return self.and(p, q);
            }
            N::Or(x, y) => {
                let (p, q) = (self.ext(hi, lo, x), self.ext(hi, lo, y));
                return self.or(p, q);
            }
            N::Xor(x, y) => {
                let (p, q) = (self.ext(hi, lo, x), self.ext(hi, lo, y));
                return self.xor(p, q);
            }
            N::Not(x) => {
                let p = self.ext(hi, lo, x);
                return self.not(p);
            }
            N::Add(x, y) | N::Sub(x, y) | N::Mul(x, y) if lo == 0 => {
                let n = self.node(a).clone();
                let fits = |s: &mut Self, e: E| s.unzext(e).map_or(false, |z| s.w(z) <= nw);
                if fits(self, x) && fits(self, y) {
                    let (p, q) = (self.ext(hi, 0, x), self.ext(hi, 0, y));
                    return match n {
                        N::Add(..) => self.add(p, q),
                        N::Sub(..) => self.sub(p, q),
                        _ => self.mul(p, q),
                    };
                }
            }
            _ => {}
        }
        self.mk(N::Ext(hi, lo, a), nw)
    }
    /// `a` is the high part.
    pub fn cat(&mut self, a: E, b: E) -> E {
        let w = self.w(a) + self.w(b);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let v = (x << (self.w(b) as usize)) + y;
            return self.cst(w, v);
        }
        if self.is0(a) {
            return self.zext(b, w);
        }
        // join adjacent extracts
        if let N::Ext(h1, l1, x) = *self.node(a) {
            match *self.node(b) {
                N::Ext(h2, l2, y) if y == x && l1 == h2 + 1 => return self.ext(h1, l2, x),
                N::Cat(p, q) => {
                    if let N::Ext(h2, l2, y) = *self.node(p) {
                        if y == x && l1 == h2 + 1 {
                            let j = self.ext(h1, l2, x);
                            return self.cat(j, q);
                        }
                    }
                }
                _ => {}
            }
            // Ext(h1,l1,x) . x  where l1 == w(x)?  cannot happen
        }
        // join selects on the same condition
        if self.arith {
            if let N::Ite(c, x, y) = *self.node(a) {
                match *self.node(b) {
                    N::Ite(c2, x2, y2) if c2 == c => {
                        let p = self.cat(x, x2);
                        let q = self.cat(y, y2);
                        return self.ite(c, p, q);
                    }
                    N::Cat(p, q) => {
                        if let N::Ite(c2, x2, y2) = *self.node(p) {
                            if c2 == c {
                                let u = self.cat(x, x2);
                                let v = self.cat(y, y2);
                                let j = self.ite(c, u, v);
                                return self.cat(j, q);
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        // a extract whose low part is the full node below cannot occur; keep right-nested: Cat(Cat(p,q),b) -> Cat(p,Cat(q,b))
        if let N::Cat(p, q) = *self.node(a) {
            let r = self.cat(q, b);
            return self.cat(p, r);
        }
        if let N::ZExt(x) = *self.node(a) {
            let r = self.cat(x, b);
            return self.zext(r, w);
        }
        // join constants: Cat(c1, Cat(c2, q))
        if let N::Cat(p, q) = *self.node(b) {
            if self.cval(a).is_some() && self.cval(p).is_some() {
                let j = self.cat(a, p);
                return self.cat(j, q);
            }
        }
        self.mk(N::Cat(a, b), w)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        debug_assert!(w >= aw);
        if w == aw {
            return a;
        }
        match self.node(a).clone() {
            N::C(v) => return self.cst(w, v),
            N::ZExt(x) => return self.mk(N::ZExt(x), w),
            N::Ite(c, x, y) if aw > 1 && self.cval(x).is_some() && self.cval(y).is_some() => {
                let (p, q) = (self.zext(x, w), self.zext(y, w));
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.mk(N::ZExt(a), w)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if w == aw {
            return a;
        }
        if let Some(v) = self.cval(a).cloned() {
            let r = if sign(&v, aw) { v | (mask(w) ^ mask(aw)) } else { v };
            return self.cst(w, r);
        }
        if *self.ub[a as usize] < (BigUint::one() << (aw as usize - 1)) {
            return self.zext(a, w);
        }
        if let N::SExt(x) = *self.node(a) {
            return self.mk(N::SExt(x), w);
        }
        self.mk(N::SExt(a), w)
    }
    pub fn implies(&mut self, a: E, b: E) -> E {
        let n = self.not(a);
        self.or(n, b)
    }

    // ---- symbols of an expression
    pub fn children(&self, e: E) -> ([E; 3], usize) {
        match *self.node(e) {
            N::Nil | N::C(_) | N::Sym(_) => ([0; 3], 0),
            N::Add(a, b)
            | N::Sub(a, b)
            | N::Mul(a, b)
            | N::UDiv(a, b)
            | N::URem(a, b)
            | N::SDiv(a, b)
            | N::SRem(a, b)
            | N::And(a, b)
            | N::Or(a, b)
            | N::Xor(a, b)
            | N::Shl(a, b)
            | N::LShr(a, b)
            | N::AShr(a, b)
            | N::Eq(a, b)
            | N::Ult(a, b)
            | N::Ule(a, b)
            | N::Slt(a, b)
            | N::Sle(a, b)
            | N::Cat(a, b) => ([a, b, 0], 2),
            N::Ite(a, b, c) => ([a, b, c], 3),
            N::Not(a) | N::Ext(_, _, a) | N::ZExt(a) | N::SExt(a) => ([a, 0, 0], 1),
        }
    }
    pub fn symset(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(s) = self.symsets.get(&e) {
            return s.clone();
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.symsets.contains_key(&x) {
                stack.pop();
                continue;
            }
            let (ch, n) = self.children(x);
            let mut ready = true;
            for c in &ch[..n] {
                if !self.symsets.contains_key(c) {
                    stack.push(*c);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let s = match *self.node(x) {
                N::Sym(i) => Rc::new(vec![i]),
                _ => {
                    if n == 1 {
                        self.symsets[&ch[0]].clone()
                    } else {
                        let mut v: Vec<u32> = vec![];
                        for c in &ch[..n] {
                            v.extend(self.symsets[c].iter());
                        }
                        v.sort_unstable();
                        v.dedup();
                        Rc::new(v)
                    }
                }
            };
            self.symsets.insert(x, s);
        }
        self.symsets[&e].clone()
    }

    // ---- evaluation under a model
    pub fn eval(&self, e: E, model: &dyn Fn(u32) -> BigUint, memo: &mut HashMap<E, BigUint>) -> BigUint {
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let w = self.w(x);
            let v = match self.node(x) {
                N::Nil => BigUint::zero(),
                N::C(v) => v.clone(),
                N::Sym(i) => model(*i),
                N::Ite(c, a, b) => {
                    let cv = match memo.get(c) {
                        None => {
                            stack.push(*c);
                            continue;
                        }
                        Some(v) => !v.is_zero(),
                    };
                    let t = if cv { a } else { b };
                    match memo.get(t) {
                        None => {
                            stack.push(*t);
                            continue;
                        }
                        Some(v) => v.clone(),
                    }
                }
                n => {
                    let (ch, k) = self.children(x);
                    let mut ready = true;
                    for c in &ch[..k] {
                        if !memo.contains_key(c) {
                            stack.push(*c);
                            ready = false;
                        }
                    }
                    if !ready {
                        continue;
                    }
                    let a = &memo[&ch[0]];
                    match n {
                        N::Not(_) => mask(w) ^ a,
                        N::Ext(_, lo, _) => truncb(a >> (*lo as usize), w),
                        N::ZExt(_) => a.clone(),
                        N::SExt(y) => {
                            let aw = self.w(*y);
                            if sign(a, aw) {
                                a | (mask(w) ^ mask(aw))
                            } else {
                                a.clone()
                            }
                        }
                        N::Cat(_, y) => (a << (self.w(*y) as usize)) + &memo[&ch[1]],
                        _ => Self::evalop(n, w, a, &memo[&ch[1]], self.w(ch[0])),
                    }
                }
            };
            memo.insert(x, v);
            stack.pop();
        }
        memo[&e].clone()
    }
    pub fn show(&self, e: E, depth: usize) -> String {
        let w = self.w(e);
        if depth == 0 {
            return format!("#{}", e);
        }
        match self.node(e) {
            N::C(v) => format!("{}:{}", v, w),
            N::Sym(i) => format!("{}", self.syms[*i as usize].name),
            N::Ext(h, l, x) => format!("{}[{}:{}]", self.show(*x, depth - 1), h, l),
            n => {
                let d = format!("{:?}", n);
                let op = d.split('(').next().unwrap().to_string();
                let (ch, k) = self.children(e);
                let a: Vec<String> = ch[..k].iter().map(|c| self.show(*c, depth - 1)).collect();
                format!("{}{}({})", op, w, a.join(", "))
            }
        }
    }
}
impl Ctx {
    pub fn sym_node(&mut self, s: u32, w: u16) -> E {
        self.mk(N::Sym(s), w)
    }
}
