//! Linear relaxation of non-linear queries: every bit-vector node becomes an integer polynomial over
//! non-negative atoms, products become linear variables constrained by sound lemmas, and the result is
//! decided as linear integer arithmetic. Only the answer "unsat" of the relaxation is conclusive; a model
//! of it is a candidate that the caller evaluates under the bit-vector semantics.
use crate::expr::*;
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{One, Signed, Zero};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::rc::Rc;

type Mono = Vec<u32>;
const NONE: u32 = u32::MAX;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Poly(Vec<(Mono, BigInt)>);

fn big(u: &BigUint) -> BigInt {
    BigInt::from_biguint(Sign::Plus, u.clone())
}
fn pow2(k: u16) -> BigInt {
    BigInt::one() << (k as usize)
}
fn floor_div(a: &BigInt, b: &BigInt) -> BigInt {
    // b > 0
    let q = a / b;
    if (a - &q * b).is_negative() {
        q - 1
    } else {
        q
    }
}
fn ceil_div(a: &BigInt, b: &BigInt) -> BigInt {
    -floor_div(&-a, b)
}

impl Poly {
    fn c(v: BigInt) -> Poly {
        if v.is_zero() {
            Poly(vec![])
        } else {
            Poly(vec![(vec![], v)])
        }
    }
    fn atom(a: u32) -> Poly {
        Poly(vec![(vec![a], BigInt::one())])
    }
    fn mono(m: Mono) -> Poly {
        Poly(vec![(m, BigInt::one())])
    }
    fn from_map(m: BTreeMap<Mono, BigInt>) -> Poly {
        Poly(m.into_iter().filter(|(_, c)| !c.is_zero()).collect())
    }
    fn add_scaled(&self, o: &Poly, k: &BigInt) -> Poly {
        let mut m: BTreeMap<Mono, BigInt> = self.0.iter().cloned().collect();
        for (mm, c) in &o.0 {
            *m.entry(mm.clone()).or_insert_with(BigInt::zero) += c * k;
        }
        Poly::from_map(m)
    }
    fn add(&self, o: &Poly) -> Poly {
        self.add_scaled(o, &BigInt::one())
    }
    fn sub(&self, o: &Poly) -> Poly {
        self.add_scaled(o, &-BigInt::one())
    }
    fn scale(&self, k: &BigInt) -> Poly {
        if k.is_zero() {
            return Poly(vec![]);
        }
        Poly(self.0.iter().map(|(m, c)| (m.clone(), c * k)).collect())
    }
    fn addc(&self, k: &BigInt) -> Poly {
        self.add(&Poly::c(k.clone()))
    }
    fn mul(&self, o: &Poly) -> Option<Poly> {
        if self.0.len() * o.0.len() > 400 {
            return None;
        }
        let mut m: BTreeMap<Mono, BigInt> = BTreeMap::new();
        for (a, x) in &self.0 {
            for (b, y) in &o.0 {
                let mut k = a.clone();
                k.extend_from_slice(b);
                k.sort_unstable();
                if k.len() > 6 {
                    return None;
                }
                *m.entry(k).or_insert_with(BigInt::zero) += x * y;
            }
        }
        Some(Poly::from_map(m))
    }
    fn cval(&self) -> Option<BigInt> {
        match self.0.len() {
            0 => Some(BigInt::zero()),
            1 if self.0[0].0.is_empty() => Some(self.0[0].1.clone()),
            _ => None,
        }
    }
    fn konst(&self) -> BigInt {
        match self.0.first() {
            Some((m, c)) if m.is_empty() => c.clone(),
            _ => BigInt::zero(),
        }
    }
    fn deg(&self) -> usize {
        self.0.iter().map(|x| x.0.len()).max().unwrap_or(0)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Key {
    Sym(u32),
    Div(Poly, Poly),
    Node(E),
    Big(Poly),
    Shift(E, BigInt),
}

struct Atom {
    lo: BigInt,
    hi: BigInt,
    name: String,
}

#[derive(Clone, Debug)]
enum F {
    B(bool),
    Ge(Poly),
    Eq(Poly),
    Sym(u32),
    Free(E),
    Not(Rc<F>),
    And(Rc<F>, Rc<F>),
    Or(Rc<F>, Rc<F>),
    Iff(Rc<F>, Rc<F>),
    Ite(Rc<F>, Rc<F>, Rc<F>),
}

pub enum Out {
    Unsat,
    Text(String, Vec<u32>),
}

struct B<'a> {
    ctx: &'a Ctx,
    atoms: Vec<Atom>,
    key: HashMap<Key, u32>,
    live: HashSet<u32>,
    syms: BTreeSet<u32>,
    frees: BTreeSet<E>,
    memo: HashMap<E, Rc<Poly>>,
    bmemo: HashMap<E, Rc<F>>,
    truth: HashMap<E, bool>,
    subst: HashMap<u32, Poly>,
    inputs: HashSet<u32>,
    mono_iv: HashMap<Mono, (BigInt, BigInt)>,
    poly_iv: HashMap<Poly, (BigInt, BigInt)>,
    defs: Vec<(u32, F)>,
    facts: Vec<(u32, Poly)>,
    empty: bool,
    fail: bool,
    root: u8,
}

fn prod_iv(a: &(BigInt, BigInt), b: &(BigInt, BigInt)) -> (BigInt, BigInt) {
    let v = [&a.0 * &b.0, &a.0 * &b.1, &a.1 * &b.0, &a.1 * &b.1];
    (v.iter().min().unwrap().clone(), v.iter().max().unwrap().clone())
}

impl<'a> B<'a> {
    fn mono_int(&self, m: &Mono) -> (BigInt, BigInt) {
        let mut r = (BigInt::one(), BigInt::one());
        for a in m {
            let x = &self.atoms[*a as usize];
            r = prod_iv(&r, &(x.lo.clone(), x.hi.clone()));
        }
        if let Some((l, h)) = self.mono_iv.get(m) {
            if *l > r.0 {
                r.0 = l.clone();
            }
            if *h < r.1 {
                r.1 = h.clone();
            }
        }
        r
    }
    fn iv(&self, p: &Poly) -> (BigInt, BigInt) {
        let mut lo = BigInt::zero();
        let mut hi = BigInt::zero();
        for (m, c) in &p.0 {
            let (l, h) = self.mono_int(m);
            if c.is_positive() {
                lo += &l * c;
                hi += &h * c;
            } else {
                lo += &h * c;
                hi += &l * c;
            }
        }
        if let Some((l, h)) = self.poly_iv.get(p) {
            if *l > lo {
                lo = l.clone();
            }
            if *h < hi {
                hi = h.clone();
            }
        }
        // the same polynomial up to factor and constant may carry a fact
        if p.0.len() > 1 {
            let (q, k, g) = strip(p);
            if let Some((l, h)) = self.poly_iv.get(&q) {
                let (l, h) = if g.is_positive() { (l * &g + &k, h * &g + &k) } else { (h * &g + &k, l * &g + &k) };
                if l > lo {
                    lo = l;
                }
                if h < hi {
                    hi = h;
                }
            }
        }
        (lo, hi)
    }
    fn note(&mut self, p: &Poly, lo: Option<BigInt>, hi: Option<BigInt>) {
        // lo <= p <= hi holds; recorded on the normal form
        if p.cval().is_some() {
            return;
        }
        let (q, k, g) = strip(p);
        let cur = self.iv(&q);
        let mut n = cur.clone();
        // lo <= g*q + k <= hi
        let (l, h) = if g.is_positive() {
            (lo.map(|x| ceil_div(&(x - &k), &g)), hi.map(|x| floor_div(&(x - &k), &g)))
        } else {
            let m = -&g;
            (hi.map(|x| ceil_div(&(&k - x), &m)), lo.map(|x| floor_div(&(&k - x), &m)))
        };
        if let Some(l) = l {
            if l > n.0 {
                n.0 = l;
            }
        }
        if let Some(h) = h {
            if h < n.1 {
                n.1 = h;
            }
        }
        if n != cur {
            if n.0 > n.1 {
                self.empty = true;
            }
            self.poly_iv.insert(q, n);
        }
    }
    fn atom(&mut self, k: Key, lo: BigInt, hi: BigInt) -> (u32, bool) {
        if let Some(a) = self.key.get(&k).copied() {
            let x = &mut self.atoms[a as usize];
            if lo > x.lo {
                x.lo = lo;
            }
            if hi < x.hi {
                x.hi = hi;
            }
            return (a, self.live.insert(a));
        }
        let a = self.atoms.len() as u32;
        let name = match &k {
            Key::Sym(i) => format!("s{}", i),
            _ => format!("a{}", a),
        };
        self.atoms.push(Atom { lo, hi, name });
        self.key.insert(k, a);
        self.live.insert(a);
        (a, true)
    }
    fn apoly(&self, a: u32) -> Poly {
        let x = &self.atoms[a as usize];
        if let Some(p) = self.subst.get(&a) {
            return p.clone();
        }
        if x.lo == x.hi {
            Poly::c(x.lo.clone())
        } else {
            Poly::atom(a)
        }
    }
    /// floor(p / c) for a constant c > 0
    fn divc(&mut self, p: &Poly, c: &BigInt) -> Poly {
        if c.is_one() {
            return p.clone();
        }
        // split off the part whose coefficients are divisible
        let mut whole = BTreeMap::new();
        let mut rest = BTreeMap::new();
        for (m, k) in &p.0 {
            let q = floor_div(k, c);
            let r = k - &q * c;
            if m.is_empty() || r.is_zero() {
                whole.insert(m.clone(), q);
                rest.insert(m.clone(), r);
            } else {
                rest.insert(m.clone(), k.clone());
            }
        }
        let whole = Poly::from_map(whole);
        let rest = Poly::from_map(rest);
        let (lo, hi) = self.iv(&rest);
        let (ql, qh) = (floor_div(&lo, c), floor_div(&hi, c));
        if ql == qh {
            return whole.addc(&ql);
        }
        // floor(floor(x/a)/c) = floor(x/(ac))
        if rest.0.len() == 1 && rest.0[0].1.is_one() && rest.0[0].0.len() == 1 {
            let a = rest.0[0].0[0];
            let k = self.key.iter().find(|(_, v)| **v == a).map(|(k, _)| k.clone());
            if let Some(Key::Div(q, d)) = k {
                if let Some(dc) = d.cval() {
                    let r = self.divc(&q, &(dc * c));
                    return whole.add(&r);
                }
            }
        }
        // shift so that the atom is non-negative; the shift is part of the key
        let sh = rest.addc(&-(&ql * c));
        let (a, new) = self.atom(Key::Div(sh.clone(), Poly::c(c.clone())), BigInt::zero(), &qh - &ql);
        let ap = self.apoly(a);
        if new {
            let r = sh.add_scaled(&ap, &-c);
            self.fact(a, r.clone());
            self.fact(a, r.scale(&-BigInt::one()).addc(&(c - 1)));
        }
        whole.add(&ap).addc(&ql)
    }
    fn fact(&mut self, of: u32, p: Poly) {
        if let Some(c) = p.cval() {
            if c.is_negative() {
                self.empty = true;
            }
            return;
        }
        self.note(&p, Some(BigInt::zero()), None);
        self.defs.push((of, F::Ge(p.clone())));
        self.facts.push((of, p));
    }
    fn reduce(&self, p: &Poly, w: u16) -> Poly {
        let m = pow2(w);
        let h = pow2(w - 1);
        let mut out = vec![];
        for (mm, c) in &p.0 {
            let mut r = c - floor_div(c, &m) * &m;
            if r >= h && !(mm.is_empty() && p.0.len() == 1) {
                // keep the sign the coefficient had when it is exactly half
                if r == h && c.is_positive() {
                } else {
                    r -= &m;
                }
            }
            if !r.is_zero() {
                out.push((mm.clone(), r));
            }
        }
        Poly(out)
    }
    /// the unsigned value of a width-w vector congruent to p
    fn uval(&mut self, p: &Poly, w: u16) -> Poly {
        let m = pow2(w);
        let (lo, hi) = self.iv(p);
        if !lo.is_negative() && hi < m {
            return p.clone();
        }
        let p = self.reduce(p, w);
        let d = self.divc(&p, &m);
        p.add_scaled(&d, &-m)
    }
    fn sval(&mut self, p: &Poly, w: u16) -> Poly {
        let m = pow2(w);
        let h = pow2(w - 1);
        let (lo, hi) = self.iv(p);
        if lo >= -h.clone() && hi < h {
            return p.clone();
        }
        let p = self.reduce(p, w);
        let d = self.divc(&p.addc(&h), &m);
        p.add_scaled(&d, &-m)
    }
    fn u(&mut self, e: E) -> Poly {
        let p = self.raw(e);
        let w = self.ctx.w(e);
        let r = self.uval(&p, w);
        let (l, h) = (big(&self.ctx.lb[e as usize]), big(&self.ctx.ub[e as usize]));
        if r.cval().is_none() {
            let iv = self.iv(&r);
            if l > iv.0 || h < iv.1 {
                self.note(&r, Some(l), Some(h));
            }
        }
        r
    }
    fn s(&mut self, e: E) -> Poly {
        let p = self.raw(e);
        let w = self.ctx.w(e);
        self.sval(&p, w)
    }
    /// an integer polynomial congruent to the vector modulo 2^w
    fn raw(&mut self, e: E) -> Rc<Poly> {
        if let Some(p) = self.memo.get(&e) {
            return p.clone();
        }
        let p = self.raw1(e);
        let p = if p.0.len() > 60 {
            // too large to carry around: name it
            let (lo, hi) = self.iv(&p);
            let sh = p.addc(&-&lo);
            let (a, new) = self.atom(Key::Big(sh.clone()), BigInt::zero(), &hi - &lo);
            if new {
                let x = self.apoly(a).sub(&sh);
                self.defs.push((a, F::Eq(x)));
            }
            self.apoly(a).addc(&lo)
        } else {
            p
        };
        let r = Rc::new(p);
        self.memo.insert(e, r.clone());
        r
    }
    fn other(&mut self, e: E) -> Poly {
        let (l, h) = (big(&self.ctx.lb[e as usize]), big(&self.ctx.ub[e as usize]));
        let (a, _) = self.atom(Key::Node(e), l, h);
        self.apoly(a)
    }
    fn raw1(&mut self, e: E) -> Poly {
        let ctx = self.ctx;
        let w = ctx.w(e);
        if w == 1 {
            let f = self.b(e);
            if let F::B(x) = &*f {
                return Poly::c(BigInt::from(*x as u8));
            }
            let (a, new) = self.atom(Key::Node(e), BigInt::zero(), BigInt::one());
            let p = self.apoly(a);
            if new {
                let g = F::Iff(f, Rc::new(F::Ge(p.addc(&-BigInt::one()))));
                self.defs.push((a, g));
            }
            return p;
        }
        match *ctx.node(e) {
            N::C(ref v) => {
                let v = big(v);
                if v >= pow2(w - 1) {
                    v - pow2(w)
                } else {
                    v
                }
                .into_poly()
            }
            N::Sym(i) => {
                self.syms.insert(i);
                let (a, _) = self.atom(Key::Sym(i), BigInt::zero(), big(&mask(w)));
                self.inputs.insert(a);
                self.apoly(a)
            }
            N::Add(a, b) => {
                let (x, y) = (self.raw(a), self.raw(b));
                let r = x.add(&y);
                self.fit(e, r, w)
            }
            N::Sub(a, b) => {
                let (x, y) = (self.raw(a), self.raw(b));
                let r = x.sub(&y);
                self.fit(e, r, w)
            }
            N::Mul(a, b) => {
                let (x, y) = (self.raw(a), self.raw(b));
                // multiply the smaller representatives
                let x = if x.cval().is_some() { (*x).clone() } else { self.u(a) };
                let y = if y.cval().is_some() { (*y).clone() } else { self.u(b) };
                match x.mul(&y) {
                    Some(p) => {
                        // as a value when it fits, as a residue otherwise
                        self.fit(e, p, w)
                    }
                    None => self.other(e),
                }
            }
            N::UDiv(a, b) => {
                let x = self.u(a);
                let y = self.u(b);
                self.quot(e, &x, &y, w).0
            }
            N::URem(a, b) => {
                let x = self.u(a);
                let y = self.u(b);
                match self.quot(e, &x, &y, w).1 {
                    Some(r) => r,
                    None => self.other(e),
                }
            }
            N::ZExt(a) => self.u(a),
            N::SExt(a) => self.s(a),
            N::Ext(h, l, a) => {
                let p = self.raw(a);
                let p = if l == 0 {
                    (*p).clone()
                } else {
                    let v = self.u(a);
                    self.divc(&v, &pow2(l))
                };
                let _ = h;
                self.fit(e, p, w)
            }
            N::Cat(a, b) => {
                let x = self.u(a);
                let y = self.u(b);
                x.scale(&pow2(ctx.w(b))).add(&y)
            }
            N::Not(a) => {
                let x = self.raw(a);
                x.scale(&-BigInt::one()).addc(&-BigInt::one())
            }
            N::Shl(a, b) if ctx.cu128(b).map_or(false, |k| k < w as u128) => {
                let x = self.raw(a);
                let r = x.scale(&pow2(ctx.cu128(b).unwrap() as u16));
                self.fit(e, r, w)
            }
            N::LShr(a, b) if ctx.cu128(b).map_or(false, |k| k < w as u128) => {
                let x = self.u(a);
                self.divc(&x, &pow2(ctx.cu128(b).unwrap() as u16))
            }
            N::AShr(a, b) if ctx.cu128(b).map_or(false, |k| k < w as u128) => {
                let x = self.s(a);
                self.divc(&x, &pow2(ctx.cu128(b).unwrap() as u16))
            }
            N::SDiv(a, b) | N::SRem(a, b) => {
                let x = self.s(a);
                let y = self.s(b);
                let (ix, iy) = (self.iv(&x), self.iv(&y));
                if !ix.0.is_negative() && iy.0.is_positive() {
                    let (q, r) = self.quot(e, &x, &y, w);
                    if matches!(ctx.node(e), N::SDiv(..)) {
                        q
                    } else {
                        match r {
                            Some(r) => r,
                            None => self.other(e),
                        }
                    }
                } else if let (N::SDiv(..), Some(c)) = (ctx.node(e), y.cval()) {
                    if c.is_positive() {
                        // truncation: for x < 0 the quotient is -((-x)/c)
                        let qp = self.divc(&x, &c);
                        let nx = x.scale(&-BigInt::one());
                        let qn = self.divc(&nx, &c).scale(&-BigInt::one());
                        let lo = self.iv(&qp).0.min(self.iv(&qn).0);
                        let hi = self.iv(&qp).1.max(self.iv(&qn).1);
                        let (a, new) = self.atom(Key::Shift(e, lo.clone()), BigInt::zero(), &hi - &lo);
                        let v = self.apoly(a).addc(&lo);
                        if new {
                            let c = Rc::new(F::Ge(x.clone()));
                            self.defs.push((a, F::Ite(c, Rc::new(F::Eq(v.sub(&qp))), Rc::new(F::Eq(v.sub(&qn))))));
                        }
                        v
                    } else {
                        self.other(e)
                    }
                } else {
                    self.other(e)
                }
            }
            N::Ite(c, a, b) => {
                let f = self.b(c);
                if let F::B(x) = &*f {
                    let x = *x;
                    return (*self.raw(if x { a } else { b })).clone();
                }
                let rx = self.raw(a);
                let ry = self.raw(b);
                let h = pow2(w - 1);
                let sg = |i: &(BigInt, BigInt)| i.0 >= -&h && i.1 < h;
                let (x, y) = if sg(&self.iv(&rx)) && sg(&self.iv(&ry)) {
                    ((*rx).clone(), (*ry).clone())
                } else {
                    (self.u(a), self.u(b))
                };
                if x == y {
                    return x;
                }
                let (ix, iy) = (self.iv(&x), self.iv(&y));
                let mut lo = ix.0.clone().min(iy.0.clone());
                let mut hi = ix.1.clone().max(iy.1.clone());
                // max and min
                let (mut mx, mut mn) = (false, false);
                if let F::Ge(p) = &*f {
                    let d = x.sub(&y);
                    let one = BigInt::one();
                    mx = d.sub(p).cval().map_or(false, |k| k.is_zero() || k == one);
                    mn = d.add(p).cval().map_or(false, |k| k.is_zero() || k == -&one);
                    if mx {
                        lo = ix.0.max(iy.0);
                    } else if mn {
                        hi = ix.1.min(iy.1);
                    }
                }
                let (va, new) = if lo.is_negative() {
                    self.atom(Key::Shift(e, lo.clone()), BigInt::zero(), &hi - &lo)
                } else {
                    self.atom(Key::Node(e), lo.clone(), hi)
                };
                let v = self.apoly(va);
                let v = if lo.is_negative() { v.addc(&lo) } else { v };
                if new {
                    self.defs.push((va, F::Ite(
                        f.clone(),
                        Rc::new(F::Eq(v.sub(&x))),
                        Rc::new(F::Eq(v.sub(&y))),
                    )));
                    if mx {
                        self.fact(va, v.sub(&x));
                        self.fact(va, v.sub(&y));
                    } else if mn {
                        self.fact(va, x.sub(&v));
                        self.fact(va, y.sub(&v));
                    }
                }
                v
            }
            _ => self.other(e),
        }
    }
    /// keep a representative: the unsigned value if it is known not to wrap, the residue otherwise
    fn fit(&mut self, e: E, p: Poly, w: u16) -> Poly {
        let (lo, hi) = self.iv(&p);
        if !lo.is_negative() && hi < pow2(w) {
            return p;
        }
        let _ = e;
        self.reduce(&p, w)
    }
    fn quot(&mut self, _e: E, x: &Poly, y: &Poly, w: u16) -> (Poly, Option<Poly>) {
        if let Some(c) = y.cval() {
            if c.is_zero() {
                return (Poly::c(pow2(w) - 1), Some(x.clone()));
            }
            let q = self.divc(x, &c);
            let r = x.add_scaled(&q, &-c);
            return (q, Some(r));
        }
        let g = content(x, y);
        if !g.is_one() && !g.is_zero() {
            let cut = |p: &Poly| Poly(p.0.iter().map(|(m, c)| (m.clone(), c / &g)).collect());
            let (x2, y2) = (cut(x), cut(y));
            // only when a zero divisor cannot change the value
            if self.iv(&y2).0.is_positive() {
                let (q, r) = self.quot(_e, &x2, &y2, w);
                return (q, r.map(|r| r.scale(&g)));
            }
        }
        let (xl, xh) = self.iv(x);
        let (yl, yh) = self.iv(y);
        let pos = yl.is_positive();
        let hi = if pos { floor_div(&xh, &yl) } else { pow2(w) - 1 };
        let lo = if xl.is_positive() && yh.is_positive() { floor_div(&xl, &yh) } else { BigInt::zero() };
        if xh < yl {
            return (Poly::c(BigInt::zero()), Some(x.clone()));
        }
        let (a, new) = self.atom(Key::Div(x.clone(), y.clone()), lo, hi);
        let q = self.apoly(a);
        let qy = match q.mul(y) {
            Some(p) => p,
            None => {
                self.fail = true;
                return (q, None);
            }
        };
        let r = x.sub(&qy);
        let r2 = y.sub(&r).addc(&-BigInt::one());
        if new {
            if pos {
                self.fact(a, r.clone());
                self.fact(a, r2);
            } else {
                let nz = Rc::new(F::Ge(y.addc(&-BigInt::one())));
                let ax = F::And(Rc::new(F::Ge(r.clone())), Rc::new(F::Ge(r2)));
                let top: BigInt = pow2(w) - BigInt::one();
                let z = F::Ge(q.addc(&-top));
                self.defs.push((a, F::Ite(nz, Rc::new(ax), Rc::new(z))));
            }
        }
        (q, if pos { Some(r) } else { None })
    }
    fn ge(&self, p: Poly, rt: bool, rf: bool) -> F {
        let (lo, hi) = self.iv(&p);
        if !lo.is_negative() && !(rt && p.cval().is_none()) {
            F::B(true)
        } else if hi.is_negative() && !(rf && p.cval().is_none()) {
            F::B(false)
        } else {
            F::Ge(p)
        }
    }
    fn b(&mut self, e: E) -> Rc<F> {
        if let Some(t) = self.truth.get(&e) {
            return Rc::new(F::B(*t));
        }
        if let Some(f) = self.bmemo.get(&e) {
            return f.clone();
        }
        let f = Rc::new(self.b1(e));
        self.bmemo.insert(e, f.clone());
        f
    }
    fn b1(&mut self, e: E) -> F {
        let ctx = self.ctx;
        let (rt, rf) = match std::mem::take(&mut self.root) {
            0 => (false, false),
            1 => (true, false),
            _ => (false, true),
        };
        match *ctx.node(e) {
            N::C(ref v) => F::B(v.is_one()),
            N::Sym(i) => {
                self.syms.insert(i);
                F::Sym(i)
            }
            N::Eq(a, b) => {
                if ctx.w(a) == 1 {
                    let (x, y) = (self.b(a), self.b(b));
                    return iff(x, y);
                }
                let (x, y) = (self.u(a), self.u(b));
                let d = x.sub(&y);
                if let Some(c) = d.cval() {
                    return F::B(c.is_zero());
                }
                let (lo, hi) = self.iv(&d);
                if (lo.is_positive() || hi.is_negative()) && !rf {
                    return F::B(false);
                }
                F::Eq(d)
            }
            N::Ult(a, b) => {
                let (x, y) = (self.u(a), self.u(b));
                self.ge(y.sub(&x).addc(&-BigInt::one()), rt, rf)
            }
            N::Ule(a, b) => {
                let (x, y) = (self.u(a), self.u(b));
                self.ge(y.sub(&x), rt, rf)
            }
            N::Slt(a, b) => {
                let (x, y) = (self.s(a), self.s(b));
                self.ge(y.sub(&x).addc(&-BigInt::one()), rt, rf)
            }
            N::Sle(a, b) => {
                let (x, y) = (self.s(a), self.s(b));
                self.ge(y.sub(&x), rt, rf)
            }
            N::Not(a) => not(self.b(a)),
            N::And(a, b) => {
                let (x, y) = (self.b(a), self.b(b));
                and(x, y)
            }
            N::Or(a, b) => {
                let (x, y) = (self.b(a), self.b(b));
                let (x, y) = (Rc::new(not(x)), Rc::new(not(y)));
                not(Rc::new(and(x, y)))
            }
            N::Xor(a, b) => {
                let (x, y) = (self.b(a), self.b(b));
                not(Rc::new(iff(x, y)))
            }
            N::Ite(c, a, b) => {
                let c = self.b(c);
                if let F::B(x) = &*c {
                    return (*self.b(if *x { a } else { b })).clone();
                }
                let (x, y) = (self.b(a), self.b(b));
                F::Ite(c, x, y)
            }
            N::Ext(h, l, a) if h == l => {
                let v = self.u(a);
                let x = self.divc(&v, &pow2(l));
                let y = self.divc(&v, &pow2(l + 1));
                let bit = x.add_scaled(&y, &BigInt::from(-2));
                self.ge(bit.addc(&-BigInt::one()), rt, rf)
            }
            _ => {
                self.frees.insert(e);
                F::Free(e)
            }
        }
    }
    fn learn(&mut self, f: &F) {
        match f {
            F::Ge(p) => {
                self.note(p, Some(BigInt::zero()), None);
                self.facts.push((NONE, p.clone()));
            }
            F::Eq(p) => {
                self.note(p, Some(BigInt::zero()), Some(BigInt::zero()));
                self.facts.push((NONE, p.clone()));
                self.facts.push((NONE, p.scale(&-BigInt::one())));
            }
            F::And(a, b) => {
                self.learn(a);
                self.learn(b);
            }
            F::Not(x) => match &**x {
                F::Ge(p) => {
                    let n = p.scale(&-BigInt::one()).addc(&-BigInt::one());
                    self.note(&n, Some(BigInt::zero()), None);
                    self.facts.push((NONE, n));
                }
                F::Eq(p) => {
                    // p != 0
                    let (lo, hi) = self.iv(p);
                    if lo.is_zero() {
                        self.note(p, Some(BigInt::one()), None);
                        self.facts.push((NONE, p.addc(&-BigInt::one())));
                    } else if hi.is_zero() {
                        self.note(p, None, Some(-BigInt::one()));
                        self.facts.push((NONE, p.scale(&-BigInt::one()).addc(&-BigInt::one())));
                    }
                }
                _ => {}
            },
            F::B(false) => self.empty = true,
            _ => {}
        }
    }
    /// interval propagation over the facts; true if something was tightened
    fn propagate(&mut self) -> bool {
        let mut changed = false;
        let facts = self.facts.clone();
        for (_, p) in &facts {
            // sum >= 0: for each term c*m >= -(max of the others)
            let ivs: Vec<(BigInt, BigInt)> = p
                .0
                .iter()
                .map(|(m, c)| {
                    let (l, h) = self.mono_int(m);
                    if c.is_positive() {
                        (l * c, h * c)
                    } else {
                        (h * c, l * c)
                    }
                })
                .collect();
            let max: BigInt = ivs.iter().map(|x| x.1.clone()).sum();
            if max.is_negative() {
                self.empty = true;
                return false;
            }
            for (i, (m, c)) in p.0.iter().enumerate() {
                if m.is_empty() {
                    continue;
                }
                let others = &max - &ivs[i].1;
                // c*m >= -others
                let (nl, nh) = if c.is_positive() {
                    (Some(ceil_div(&-&others, c)), None)
                } else {
                    (None, Some(floor_div(&others, &-c)))
                };
                changed |= self.tighten(m, nl, nh);
                if self.empty {
                    return false;
                }
            }
        }
        changed
    }
    fn tighten(&mut self, m: &Mono, nl: Option<BigInt>, nh: Option<BigInt>) -> bool {
        let (l, h) = self.mono_int(m);
        let nl = nl.filter(|x| *x > l);
        let nh = nh.filter(|x| *x < h);
        if nl.is_none() && nh.is_none() {
            return false;
        }
        let l2 = nl.unwrap_or(l);
        let h2 = nh.unwrap_or(h);
        if l2 > h2 {
            self.empty = true;
            return true;
        }
        if m.len() == 1 {
            let a = &mut self.atoms[m[0] as usize];
            a.lo = l2;
            a.hi = h2;
            return true;
        }
        self.mono_iv.insert(m.clone(), (l2.clone(), h2.clone()));
        // x*rest <= h2 and rest >= r > 0  =>  x <= h2/r
        for i in 0..m.len() {
            let mut rest = m.clone();
            let x = rest.remove(i);
            let (rl, rh) = self.mono_int(&rest);
            let a = &mut self.atoms[x as usize];
            if rl.is_positive() {
                let b = floor_div(&h2, &rl);
                if b < a.hi {
                    a.hi = b;
                }
            }
            if rh.is_positive() && l2.is_positive() {
                let b = ceil_div(&l2, &rh);
                if b > a.lo {
                    a.lo = b;
                }
            }
            if a.lo > a.hi {
                self.empty = true;
                return true;
            }
        }
        true
    }
}

/// normal form without constant, content and sign: p = g*q + k
fn strip(p: &Poly) -> (Poly, BigInt, BigInt) {
    let k = p.konst();
    let q: Vec<(Mono, BigInt)> = p.0.iter().filter(|x| !x.0.is_empty()).cloned().collect();
    let q = Poly(q);
    let mut g = content(&q, &Poly(vec![]));
    if q.0.last().map_or(false, |x| x.1.is_negative()) {
        g = -g;
    }
    if g.is_zero() {
        return (q, k, BigInt::one());
    }
    (Poly(q.0.into_iter().map(|(m, c)| (m, c / &g)).collect()), k, g)
}

trait IntoPoly {
    fn into_poly(self) -> Poly;
}
impl IntoPoly for BigInt {
    fn into_poly(self) -> Poly {
        Poly::c(self)
    }
}

fn gcd(a: &BigInt, b: &BigInt) -> BigInt {
    let (mut a, mut b) = (a.abs(), b.abs());
    while !b.is_zero() {
        let r = &a % &b;
        a = b;
        b = r;
    }
    a
}
fn content(x: &Poly, y: &Poly) -> BigInt {
    let mut g = BigInt::zero();
    for (_, c) in x.0.iter().chain(y.0.iter()) {
        g = gcd(&g, c);
        if g.is_one() {
            break;
        }
    }
    g
}
fn not(f: Rc<F>) -> F {
    match &*f {
        F::B(x) => F::B(!x),
        F::Not(g) => (**g).clone(),
        F::Ge(p) => F::Ge(p.scale(&-BigInt::one()).addc(&-BigInt::one())),
        _ => F::Not(f),
    }
}
fn and(x: Rc<F>, y: Rc<F>) -> F {
    match (&*x, &*y) {
        (F::B(false), _) | (_, F::B(false)) => F::B(false),
        (F::B(true), _) => (*y).clone(),
        (_, F::B(true)) => (*x).clone(),
        _ => F::And(x, y),
    }
}
fn iff(x: Rc<F>, y: Rc<F>) -> F {
    match (&*x, &*y) {
        (F::B(a), F::B(b)) => F::B(a == b),
        (F::B(true), _) => (*y).clone(),
        (_, F::B(true)) => (*x).clone(),
        (F::B(false), _) => not(y),
        (_, F::B(false)) => not(x),
        _ => F::Iff(x, y),
    }
}

fn num(v: &BigInt) -> String {
    if v.is_negative() {
        format!("(- {})", -v)
    } else {
        v.to_string()
    }
}

struct Emit<'a> {
    atoms: &'a [Atom],
    monos: BTreeMap<Mono, String>,
}
impl<'a> Emit<'a> {
    fn m(&mut self, m: &Mono) -> String {
        if m.len() == 1 {
            return self.atoms[m[0] as usize].name.clone();
        }
        let n = self.monos.len();
        self.monos.entry(m.clone()).or_insert_with(|| format!("m{}", n)).clone()
    }
    /// p >= 0, written as positive part >= negative part
    fn sum(&mut self, t: &[(Mono, BigInt)]) -> String {
        let mut v = vec![];
        for (m, c) in t {
            if m.is_empty() {
                v.push(num(c));
            } else {
                let n = self.m(m);
                v.push(if c.is_one() { n } else { format!("(* {} {})", c, n) });
            }
        }
        match v.len() {
            0 => "0".into(),
            1 => v.pop().unwrap(),
            _ => format!("(+ {})", v.join(" ")),
        }
    }
    fn cmp(&mut self, op: &str, p: &Poly) -> String {
        let pos: Vec<_> = p.0.iter().filter(|x| x.1.is_positive()).cloned().collect();
        let neg: Vec<_> = p.0.iter().filter(|x| x.1.is_negative()).map(|x| (x.0.clone(), -&x.1)).collect();
        let a = self.sum(&pos);
        let b = self.sum(&neg);
        format!("({} {} {})", op, a, b)
    }
    fn f(&mut self, f: &F) -> String {
        match f {
            F::B(x) => x.to_string(),
            F::Ge(p) => self.cmp(">=", p),
            F::Eq(p) => self.cmp("=", p),
            F::Sym(i) => format!("s{}", i),
            F::Free(e) => format!("f{}", e),
            F::Not(x) => format!("(not {})", self.f(x)),
            F::And(x, y) => format!("(and {} {})", self.f(x), self.f(y)),
            F::Or(x, y) => format!("(or {} {})", self.f(x), self.f(y)),
            F::Iff(x, y) => format!("(= {} {})", self.f(x), self.f(y)),
            F::Ite(c, x, y) => format!("(ite {} {} {})", self.f(c), self.f(x), self.f(y)),
        }
    }
}

fn eqs_of(f: &F, o: &mut Vec<Poly>) {
    match f {
        F::Eq(p) => o.push(p.clone()),
        F::And(x, y) => {
            eqs_of(x, o);
            eqs_of(y, o)
        }
        _ => {}
    }
}

fn atoms_of(f: &F, o: &mut BTreeSet<u32>) {
    match f {
        F::Ge(p) | F::Eq(p) => p.0.iter().for_each(|x| o.extend(x.0.iter().copied())),
        F::Not(x) => atoms_of(x, o),
        F::And(x, y) | F::Or(x, y) | F::Iff(x, y) => {
            atoms_of(x, o);
            atoms_of(y, o)
        }
        F::Ite(c, x, y) => {
            atoms_of(c, o);
            atoms_of(x, o);
            atoms_of(y, o)
        }
        _ => {}
    }
}

fn collect(f: &F, out: &mut BTreeSet<Mono>) {
    match f {
        F::Ge(p) | F::Eq(p) => {
            for (m, _) in &p.0 {
                if m.len() > 1 {
                    out.insert(m.clone());
                }
            }
        }
        F::Not(x) => collect(x, out),
        F::And(x, y) | F::Or(x, y) | F::Iff(x, y) => {
            collect(x, out);
            collect(y, out)
        }
        F::Ite(c, x, y) => {
            collect(c, out);
            collect(x, out);
            collect(y, out)
        }
        _ => {}
    }
}

fn contains(big: &Mono, small: &Mono) -> Option<Mono> {
    // big / small as multisets
    let mut r = big.clone();
    for x in small {
        let i = r.iter().position(|y| y == x)?;
        r.remove(i);
    }
    Some(r)
}

/// The relaxation of the conjunction. None if it has no encoding.
pub fn relax(ctx: &Ctx, cs: &[E], level: u32) -> Option<Out> {
    let mut b = B {
        ctx,
        atoms: vec![],
        key: HashMap::new(),
        live: HashSet::new(),
        syms: BTreeSet::new(),
        frees: BTreeSet::new(),
        memo: HashMap::new(),
        bmemo: HashMap::new(),
        truth: HashMap::new(),
        subst: HashMap::new(),
        inputs: HashSet::new(),
        mono_iv: HashMap::new(),
        poly_iv: HashMap::new(),
        defs: vec![],
        facts: vec![],
        empty: false,
        fail: false,
        root: 0,
    };
    for &c in cs {
        b.truth.insert(c, true);
        if let N::Not(x) = *ctx.node(c) {
            b.truth.insert(x, false);
        }
    }
    let mut top: Vec<Rc<F>> = vec![];
    for pass in 0..8 {
        let (otop, odefs, ofacts) = (top.clone(), b.defs.clone(), b.facts.clone());
        let mut kept = false;
        b.live.clear();
        b.memo.clear();
        b.bmemo.clear();
        b.defs.clear();
        b.facts.clear();
        b.syms.clear();
        b.frees.clear();
        top.clear();
        for (ci, &c) in cs.iter().enumerate() {
            // the conjunct itself, not its known truth
            let f = if let N::Not(x) = *ctx.node(c) {
                let old = b.truth.remove(&x);
                b.truth.remove(&c);
                b.root = 2;
                let f = Rc::new(b.b1(x));
                b.root = 0;
                if let Some(o) = old {
                    b.truth.insert(x, o);
                }
                b.truth.insert(c, true);
                Rc::new(not(f))
            } else {
                b.truth.remove(&c);
                b.root = 1;
                let f = Rc::new(b.b1(c));
                b.root = 0;
                b.truth.insert(c, true);
                f
            };
            b.learn(&f);
            // a conjunct that follows from what was learned from it is still stated
            let f = match (&*f, otop.get(ci)) {
                (F::B(true), Some(o)) if !matches!(**o, F::B(_)) => {
                    kept = true;
                    b.learn(o);
                    o.clone()
                }
                _ => f,
            };
            top.push(f);
            if b.fail {
                return None;
            }
            if b.empty {
                return Some(Out::Unsat);
            }
        }
        if kept {
            b.defs.extend(odefs);
            b.facts.extend(ofacts);
        }
        if pass == 7 {
            break;
        }
        let mut any = false;
        for _ in 0..6 {
            let ch = b.propagate();
            if b.empty {
                return Some(Out::Unsat);
            }
            any |= ch;
            if !ch {
                break;
            }
        }
        // equalities that define an atom in terms of inputs
        let mut eqs = vec![];
        for f in &top {
            eqs_of(f, &mut eqs);
        }
        let mut sub = false;
        for p in eqs {
            let mut best: Option<(u32, Poly)> = None;
            for (m, c) in p.0.iter().rev() {
                if m.len() != 1 || p.0.iter().any(|(m2, _)| m2 != m && m2.contains(&m[0])) {
                    continue;
                }
                let rest = Poly(p.0.iter().filter(|x| x.0 != *m).cloned().collect());
                if rest.0.iter().any(|(_, k)| !(k % c).is_zero()) || rest.0.len() > 6 || rest.deg() > 2 {
                    continue;
                }
                if !rest.0.iter().all(|(m2, _)| m2.iter().all(|a| b.inputs.contains(a) && !b.subst.contains_key(a))) {
                    continue;
                }
                best = Some((m[0], Poly(rest.0.iter().map(|(m2, k)| (m2.clone(), -(k / c))).collect())));
                break;
            }
            if let Some((a, q)) = best {
                // substitutions stay in solved form
                if b.subst.contains_key(&a) || b.subst.values().any(|v| v.0.iter().any(|(m, _)| m.contains(&a))) {
                    continue;
                }
                b.subst.insert(a, q);
                sub = true;
            }
        }
        if !any && !sub && pass > 0 {
            break;
        }
    }
    for (a, q) in b.subst.clone() {
        let (l, h) = (b.atoms[a as usize].lo.clone(), b.atoms[a as usize].hi.clone());
        for p in [q.addc(&-l), q.scale(&-BigInt::one()).addc(&h)] {
            if p.cval().map_or(false, |c| c.is_negative()) {
                return Some(Out::Unsat);
            }
            if p.cval().is_none() {
                b.facts.push((NONE, p.clone()));
                top.push(Rc::new(F::Ge(p)));
            }
        }
    }
    // atoms that the conjuncts depend on
    let mut need: BTreeSet<u32> = BTreeSet::new();
    for f in &top {
        atoms_of(f, &mut need);
    }
    let mut by: HashMap<u32, Vec<usize>> = HashMap::new();
    for (i, (a, _)) in b.defs.iter().enumerate() {
        by.entry(*a).or_default().push(i);
    }
    let mut todo: Vec<u32> = need.iter().copied().collect();
    while let Some(a) = todo.pop() {
        for i in by.get(&a).map(|x| x.as_slice()).unwrap_or(&[]) {
            let mut s = BTreeSet::new();
            atoms_of(&b.defs[*i].1, &mut s);
            for x in s {
                if need.insert(x) {
                    todo.push(x);
                }
            }
        }
    }
    b.facts.retain(|(a, p)| (*a == NONE || need.contains(a)) && p.0.iter().all(|(m, _)| m.iter().all(|x| need.contains(x))));
    // facts decided by interval reasoning still have to be stated: intervals are emitted below, and the
    // polynomial intervals that do not follow from atom intervals come from facts that are emitted
    let mut all: Vec<F> = b.defs.iter().filter(|(a, _)| need.contains(a)).map(|x| x.1.clone()).collect();
    all.extend(top.iter().map(|x| (**x).clone()));
    all.extend(b.facts.iter().map(|p| F::Ge(p.1.clone())));
    for (q, (l, h)) in &b.poly_iv {
        let known = q.0.iter().all(|(m, _)| m.iter().all(|a| need.contains(a)));
        if known && q.0.iter().all(|(m, _)| m.len() == 1 || b.mono_iv.contains_key(m)) {
            all.push(F::Ge(q.addc(&-l)));
            all.push(F::Ge(q.scale(&-BigInt::one()).addc(h)));
        }
    }
    let mut m0: BTreeSet<Mono> = BTreeSet::new();
    for f in &all {
        collect(f, &mut m0);
    }
    let mut mm = m0.clone();
    if m0.len() > 1500 {
        return None;
    }
    // products of facts with factors of monomials that occur
    let mut lem: Vec<Poly> = vec![];
    let mut seen: HashSet<Poly> = b.facts.iter().map(|x| x.1.clone()).collect();
    let mut facts: Vec<Poly> = seen.iter().cloned().collect();
    facts.sort();
    // level 2 trades integrality and conditional lemmas for many products
    let cap = [500, 1000, 6000][level as usize];
    let rounds = if level < 2 { 3 } else { 4 };
    let orig = facts.clone();
    let mut frontier: Vec<Poly> = vec![];
    'outer: for round in 0..rounds {
        let monos: Vec<Mono> = mm.iter().cloned().collect();
        let mut fresh = vec![];
        let allow = match (level, round) {
            (0, 0) | (1, 0) => 1,
            (0, _) => 0,
            (1, 1) => 2,
            (1, _) => 0,
            (_, 0) | (_, 1) => 2,
            (_, 2) => 1,
            _ => 0,
        };
        for p in orig.iter().chain(frontier.iter()) {
            if p.0.len() > 10 {
                continue;
            }
            let mut cof: BTreeSet<Mono> = BTreeSet::new();
            for (m, _) in &p.0 {
                if m.is_empty() {
                    continue;
                }
                for big in &monos {
                    if big.len() <= m.len() {
                        continue;
                    }
                    if let Some(r) = contains(big, m) {
                        cof.insert(r);
                    }
                }
            }
            for c in cof {
                let q = match p.mul(&Poly::mono(c)) {
                    Some(q) => q,
                    None => continue,
                };
                if q.deg() > 4 || seen.contains(&q) {
                    continue;
                }
                let new = q.0.iter().filter(|x| x.0.len() > 1 && !mm.contains(&x.0)).count();
                if new <= allow {
                    seen.insert(q.clone());
                    fresh.push(q);
                    if fresh.len() + lem.len() > cap {
                        lem.extend(fresh.clone());
                        for q in &fresh {
                            for (m, _) in &q.0 {
                                if m.len() > 1 {
                                    mm.insert(m.clone());
                                }
                            }
                        }
                        break 'outer;
                    }
                }
            }
        }
        if fresh.is_empty() {
            break;
        }
        for q in &fresh {
            for (m, _) in &q.0 {
                if m.len() > 1 {
                    mm.insert(m.clone());
                }
            }
        }
        frontier.extend(fresh.iter().cloned());
        lem.extend(fresh);
    }
    let mut out: Vec<F> = vec![];
    // bounds of monomials
    let mut work: Vec<Mono> = mm.iter().cloned().collect();
    let mut done: BTreeSet<Mono> = BTreeSet::new();
    while let Some(m) = work.pop() {
        if !done.insert(m.clone()) {
            continue;
        }
        let mp = Poly::mono(m.clone());
        let mut used = BTreeSet::new();
        for i in 0..m.len() {
            if !used.insert(m[i]) {
                continue;
            }
            let mut rest = m.clone();
            let x = rest.remove(i);
            let a = &b.atoms[x as usize];
            let rp = Poly::mono(rest.clone());
            // (x - lo)*rest >= 0, (hi - x)*rest >= 0
            out.push(F::Ge(mp.add_scaled(&rp, &-&a.lo)));
            out.push(F::Ge(rp.scale(&a.hi).sub(&mp)));
            // tangents with the other factor's bounds
            let (rl, rh) = b.mono_int(&rest);
            let xp = Poly::atom(x);
            out.push(F::Ge(mp.add_scaled(&rp, &-&a.hi).add_scaled(&xp, &-&rh).addc(&(&a.hi * &rh))));
            out.push(F::Ge(mp.add_scaled(&rp, &-&a.lo).add_scaled(&xp, &-&rl).addc(&(&a.lo * &rl))));
            if rest.len() > 1 {
                work.push(rest);
            }
        }
    }
    // monotonicity between products that share a factor
    let pool: Vec<Mono> = if level == 0 { m0.iter().cloned().collect() } else { mm.iter().cloned().collect() };
    let mut cnt = 0;
    let mcap = if level < 2 { 300 } else { 0 };
    'o: for i in 0..pool.len() {
        for j in i + 1..pool.len() {
            if cnt >= mcap {
                break 'o;
            }
            let (p, q) = (&pool[i], &pool[j]);
            // common part
            let mut common = vec![];
            let mut rest = q.clone();
            for x in p {
                if let Some(k) = rest.iter().position(|y| y == x) {
                    rest.remove(k);
                    common.push(*x);
                }
            }
            if common.is_empty() || rest.is_empty() {
                continue;
            }
            let pr = contains(p, &common).unwrap();
            if pr.is_empty() || pr.len() > 2 || rest.len() > 2 || (pr.len() == 2 && !mm.contains(&pr)) || (rest.len() == 2 && !mm.contains(&rest)) {
                continue;
            }
            let (x, y) = (Poly::mono(pr), Poly::mono(rest));
            let c = Poly::mono(common.clone());
            if common.len() > 1 && !mm.contains(&common) {
                continue;
            }
            let (mp, mq) = (Poly::mono(p.clone()), Poly::mono(q.clone()));
            // x <= y: mp <= mq ; x < y: mp + c <= mq ; and the converse
            let lt = Rc::new(F::Ge(y.sub(&x).addc(&-BigInt::one())));
            let gt = Rc::new(F::Ge(x.sub(&y).addc(&-BigInt::one())));
            let a1 = Rc::new(F::Ge(mq.sub(&mp).sub(&c)));
            let a2 = Rc::new(F::Ge(mp.sub(&mq).sub(&c)));
            let a3 = Rc::new(F::Eq(mp.sub(&mq)));
            out.push(F::Ite(lt, a1, Rc::new(F::Ite(gt, a2, a3))));
            cnt += 1;
        }
    }
    all.extend(lem.into_iter().map(F::Ge));
    all.extend(out);
    let mut em = Emit { atoms: &b.atoms, monos: BTreeMap::new() };
    let mut body = String::new();
    let mut dedup = HashSet::new();
    for f in &all {
        let t = em.f(f);
        if t != "true" && dedup.insert(t.clone()) {
            let _ = writeln!(body, "(assert {})", t);
        }
    }
    let mut head = String::new();
    let mut used: BTreeSet<u32> = BTreeSet::new();
    for m in em.monos.keys() {
        used.extend(m.iter().copied());
    }
    for f in &all {
        atoms_of(f, &mut used);
    }
    let mut syms = vec![];
    let sort = if level < 2 { "Int" } else { "Real" };
    for a in &used {
        let x = &b.atoms[*a as usize];
        let _ = writeln!(head, "(declare-const {} {})\n(assert (and (<= {} {}) (<= {} {})))", x.name, sort, num(&x.lo), x.name, x.name, num(&x.hi));
    }
    for (k, a) in &b.key {
        if let Key::Sym(i) = k {
            if used.contains(a) {
                syms.push(*i);
            }
        }
    }
    for i in &b.syms {
        if ctx.syms[*i as usize].w == 1 {
            let _ = writeln!(head, "(declare-const s{} Bool)", i);
            syms.push(*i);
        }
    }
    for e in &b.frees {
        let _ = writeln!(head, "(declare-const f{} Bool)", e);
    }
    for (m, n) in &em.monos {
        let (l, h) = b.mono_int(m);
        let _ = writeln!(head, "(declare-const {} {})\n(assert (and (<= {} {}) (<= {} {})))", n, sort, num(&l), n, n, num(&h));
    }
    for (k, a) in &b.key {
        if let (Key::Sym(i), Some(q)) = (k, b.subst.get(a)) {
            if used.contains(a) || q.0.iter().any(|(m, _)| m.len() > 1 || m.iter().any(|x| !used.contains(x))) {
                continue;
            }
            let t = em.sum(&q.0);
            let _ = writeln!(head, "(define-fun s{} () {} {})", i, sort, t);
            syms.push(*i);
        }
    }
    syms.sort_unstable();
    syms.dedup();
    Some(Out::Text(head + &body, syms))
}
