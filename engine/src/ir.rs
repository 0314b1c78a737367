//! LLVM 16 textual IR: types, globals, lazily parsed functions.
use std::collections::HashMap;
use std::rc::Rc;

pub type Ty = Rc<T>;
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Void,
    Int(u16),
    F32,
    F64,
    Ptr,
    Arr(u64, Ty),
    Struct(Vec<Ty>, bool),
    Vec(u64, Ty),
    Other,
}

pub fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}
impl T {
    pub fn align(&self) -> u64 {
        match self {
            T::Void | T::Other => 1,
            T::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                _ => 8,
            },
            T::F32 => 4,
            T::F64 | T::Ptr => 8,
            T::Arr(_, t) => t.align(),
            T::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            T::Vec(..) => self.store_size().next_power_of_two(),
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            T::Void | T::Other => 0,
            T::Int(w) => (*w as u64 + 7) / 8,
            T::F32 => 4,
            T::F64 | T::Ptr => 8,
            T::Arr(n, t) => n * t.size(),
            T::Struct(..) => self.size(),
            T::Vec(n, t) => (n * t.bits() + 7) / 8,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            T::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if !packed {
                    o = align_up(o, self.align());
                }
                o
            }
            T::Arr(n, t) => n * t.size(),
            _ => align_up(self.store_size(), self.align()),
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            T::Int(w) => *w as u64,
            T::Vec(n, t) => n * t.bits(),
            _ => self.store_size() * 8,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        if let T::Struct(f, packed) = self {
            let mut o = 0;
            for (k, t) in f.iter().enumerate() {
                if !packed {
                    o = align_up(o, t.align());
                }
                if k == i {
                    return o;
                }
                o += t.size();
            }
        }
        panic!("field_off")
    }
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u16, u128),
    Big(u16, num_bigint::BigUint),
    Null,
    Undef,
    Zero,
    Global(String),
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Cst)>),
    Gep(Ty, Box<Cst>, Vec<(Ty, Cst)>),
    Cast(String, Ty, Box<Cst>, Ty),
    Bin(String, Ty, Box<Cst>, Box<Cst>),
    F(u64),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(Rc<Cst>),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(&'static str, Ty, Op, Op),
    FBin(&'static str, Ty, Op, Op),
    ICmp(&'static str, Ty, Op, Op),
    FCmp(String, Ty, Op, Op),
    Cast(&'static str, Ty, Op, Ty),
    Select(Ty, Op, Ty, Op, Op),
    Alloca(Ty, Option<(Ty, Op)>, u64),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Gep(Ty, Op, Vec<(Ty, Op)>),
    Phi(Ty, Vec<(Op, u32)>),
    Call { ret: Ty, callee: Op, name: Option<Rc<str>>, args: Vec<(Ty, Op)>, normal: Option<u32> },
    Br(u32),
    CBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    ExtractValue(Ty, Op, Vec<usize>),
    InsertValue(Ty, Op, Ty, Op, Vec<usize>),
    ExtractElem(Ty, Op, Ty, Op),
    InsertElem(Ty, Op, Op, Ty, Op),
    Shuffle(Ty, Op, Op, Ty, Op),
    AtomicRmw(String, Ty, Op, Op),
    CmpXchg(Ty, Op, Op, Op),
    Nop,
    LandingPad,
    Resume,
    Freeze(Ty, Op),
    FNeg(Ty, Op),
}

pub struct Ins {
    pub dst: Option<u32>,
    pub i: I,
    pub dbg: u32,
}
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub nregs: usize,
    pub blocks: Vec<Vec<Ins>>,
}

pub struct GlobalDef {
    pub ty: Ty,
    pub init: Option<Cst>,
    pub constant: bool,
    pub align: u64,
}

pub struct Module {
    src: &'static str,
    types: HashMap<String, (usize, usize)>,
    tcache: HashMap<String, Ty>,
    pub gpos: HashMap<String, (usize, usize)>,
    pub fpos: HashMap<String, (usize, usize)>,
    pub decls: HashMap<String, usize>,
    fcache: HashMap<String, Rc<Func>>,
    pub md: HashMap<u32, (usize, usize)>,
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn new(s: &'a str) -> Self {
        P { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
                self.i += 1;
            } else if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected '{}'", c as char));
        }
    }
    fn fail(&self, m: &str) -> ! {
        let a = self.i.saturating_sub(60);
        let b = (self.i + 80).min(self.s.len());
        panic!("IR parse: {} at ...{}<<HERE>>{}", m, String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..b]));
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peekw(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        let w = self.word();
        self.i = st;
        w
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.peekw() == w {
            self.word();
            true
        } else {
            false
        }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // after the opening quote
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    v.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                v.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    /// Name after a sigil (% @ !).
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            self.i += 1;
            String::from_utf8_lossy(&self.quoted()).to_string()
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1;
            }
            std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string()
        }
    }
    fn parens(&mut self) {
        // skip a balanced (...) group
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    self.quoted();
                    continue;
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            let w = self.peekw();
            match w {
                "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "writeonly" | "readnone" | "zeroext" | "signext" | "inreg"
                | "nofree" | "nest" | "returned" | "swiftself" | "immarg" | "allocptr" | "allocalign" | "nounwind" | "noreturn" | "cold"
                | "unnamed_addr" | "local_unnamed_addr" | "internal" | "private" | "external" | "hidden" | "dso_local" | "linkonce_odr"
                | "weak" | "weak_odr" | "protected" | "fastcc" | "coldcc" | "ccc" | "available_externally" | "extern_weak" | "linkonce"
                | "thread_local" | "externally_initialized" | "tailcc" | "x86_intrcc" => {
                    self.word();
                    if w == "thread_local" && self.peek() == b'(' {
                        self.parens();
                    }
                }
                "align" => {
                    self.word();
                    if self.peek() == b'(' {
                        self.parens();
                    } else {
                        self.word();
                    }
                }
                "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "byref" | "elementtype" | "range" | "memory" | "inalloca"
                | "allocsize" | "vscale_range" | "captures" | "initializes" => {
                    self.word();
                    if self.peek() == b'(' {
                        self.parens();
                    }
                }
                _ => return,
            }
        }
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("read ll");
        let src: &'static str = Box::leak(text.into_boxed_str());
        let mut m = Module {
            src,
            types: HashMap::new(),
            tcache: HashMap::new(),
            gpos: HashMap::new(),
            fpos: HashMap::new(),
            decls: HashMap::new(),
            fcache: HashMap::new(),
            md: HashMap::new(),
        };
        let mut pos = 0usize;
        let bytes = src.as_bytes();
        let mut infn: Option<(String, usize)> = None;
        while pos < bytes.len() {
            let end = src[pos..].find('\n').map(|k| pos + k).unwrap_or(bytes.len());
            let line = &src[pos..end];
            if let Some((n, st)) = &infn {
                if line == "}" {
                    m.fpos.insert(n.clone(), (*st, end));
                    infn = None;
                }
                pos = end + 1;
                continue;
            }
            if line.starts_with("define ") {
                let at = line.find('@').unwrap();
                let mut p = P::new(line);
                p.i = at + 1;
                let n = p.name();
                infn = Some((n, pos));
            } else if line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let mut p = P::new(line);
                p.i = at + 1;
                let n = p.name();
                m.decls.insert(n, pos);
            } else if line.starts_with('@') {
                let mut p = P::new(line);
                p.i = 1;
                let n = p.name();
                let off = p.i;
                m.gpos.insert(n, (pos + off, end));
            } else if line.starts_with('%') {
                let mut p = P::new(line);
                p.i = 1;
                let n = p.name();
                let k = line[p.i..].find("type").unwrap() + p.i + 4;
                m.types.insert(n, (pos + k, end));
            } else if line.starts_with('!') {
                if let Some(k) = line.find(" = ") {
                    if let Ok(id) = line[1..k].parse::<u32>() {
                        m.md.insert(id, (pos + k + 3, end));
                    }
                }
            }
            pos = end + 1;
        }
        m
    }
    pub fn named(&mut self, n: &str) -> Ty {
        if let Some(t) = self.tcache.get(n) {
            return t.clone();
        }
        let (a, b) = *self.types.get(n).unwrap_or_else(|| panic!("type {}", n));
        let s = self.src;
        let mut p = P::new(&s[a..b]);
        let t = if p.eatw("opaque") { Rc::new(T::Other) } else { self.ty(&mut p) };
        self.tcache.insert(n.to_string(), t.clone());
        t
    }
    fn ty(&mut self, p: &mut P) -> Ty {
        let c = p.peek();
        match c {
            b'%' => {
                p.i += 1;
                let n = p.name();
                self.named(&n)
            }
            b'[' => {
                p.i += 1;
                let n: u64 = p.word().parse().unwrap();
                p.word(); // x
                let t = self.ty(p);
                p.expect(b']');
                Rc::new(T::Arr(n, t))
            }
            b'{' => {
                p.i += 1;
                let f = self.tylist(p, b'}');
                Rc::new(T::Struct(f, false))
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    p.i += 1;
                    let f = self.tylist(p, b'}');
                    p.expect(b'>');
                    Rc::new(T::Struct(f, true))
                } else {
                    let n: u64 = p.word().parse().unwrap_or_else(|_| p.fail("vec"));
                    p.word();
                    let t = self.ty(p);
                    p.expect(b'>');
                    Rc::new(T::Vec(n, t))
                }
            }
            _ => {
                let w = p.word();
                match w {
                    "void" => Rc::new(T::Void),
                    "ptr" => Rc::new(T::Ptr),
                    "float" => Rc::new(T::F32),
                    "double" => Rc::new(T::F64),
                    "metadata" | "label" | "token" | "x86_mmx" | "half" | "x86_fp80" => Rc::new(T::Other),
                    _ if w.starts_with('i') => Rc::new(T::Int(w[1..].parse().unwrap_or_else(|_| p.fail("int type")))),
                    _ => p.fail(&format!("type '{}'", w)),
                }
            }
        }
    }
    fn tylist(&mut self, p: &mut P, close: u8) -> Vec<Ty> {
        let mut f = vec![];
        if p.eat(close) {
            return f;
        }
        loop {
            f.push(self.ty(p));
            if p.eat(close) {
                return f;
            }
            p.expect(b',');
        }
    }
    fn int_cst(w: u16, s: &str) -> Cst {
        let (neg, d) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        let v = num_bigint::BigUint::parse_bytes(d.as_bytes(), 10).unwrap_or_else(|| panic!("int '{}'", s));
        let m = (num_bigint::BigUint::from(1u32) << (w as usize)) - 1u32;
        let v = if neg { ((&m + 1u32) - v) & &m } else { v & &m };
        use num_traits::ToPrimitive;
        if w <= 128 {
            Cst::Int(w, v.to_u128().unwrap())
        } else {
            Cst::Big(w, v)
        }
    }
    fn cst(&mut self, p: &mut P, ty: &Ty) -> Cst {
        let c = p.peek();
        match c {
            b'@' => {
                p.i += 1;
                return Cst::Global(p.name());
            }
            b'[' => {
                p.i += 1;
                return Cst::Agg(self.cstlist(p, b']'));
            }
            b'{' => {
                p.i += 1;
                return Cst::Agg(self.cstlist(p, b'}'));
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    p.i += 1;
                    let l = self.cstlist(p, b'}');
                    p.expect(b'>');
                    return Cst::Agg(l);
                }
                return Cst::Agg(self.cstlist(p, b'>'));
            }
            _ => {}
        }
        let w = p.word();
        match w {
            "true" => Cst::Int(1, 1),
            "false" => Cst::Int(1, 0),
            "null" => Cst::Null,
            "undef" | "poison" => Cst::Undef,
            "zeroinitializer" => Cst::Zero,
            "c" => {
                p.i += 1;
                Cst::Bytes(p.quoted())
            }
            "getelementptr" => {
                p.eatw("inbounds");
                p.expect(b'(');
                let t = self.ty(p);
                p.expect(b',');
                let pt = self.ty(p);
                let base = self.cst(p, &pt);
                let mut idx = vec![];
                while p.eat(b',') {
                    p.eatw("inrange");
                    let t = self.ty(p);
                    let v = self.cst(p, &t);
                    idx.push((t, v));
                }
                p.expect(b')');
                Cst::Gep(t, Box::new(base), idx)
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                let op = w.to_string();
                p.expect(b'(');
                let t = self.ty(p);
                let v = self.cst(p, &t);
                p.eatw("to");
                let t2 = self.ty(p);
                p.expect(b')');
                Cst::Cast(op, t, Box::new(v), t2)
            }
            "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                let op = w.to_string();
                while ["nuw", "nsw", "exact"].contains(&p.peekw()) {
                    p.word();
                }
                p.expect(b'(');
                let t = self.ty(p);
                let a = self.cst(p, &t);
                p.expect(b',');
                let t2 = self.ty(p);
                let b = self.cst(p, &t2);
                p.expect(b')');
                Cst::Bin(op, t, Box::new(a), Box::new(b))
            }
            _ => match &**ty {
                T::Int(bw) => Self::int_cst(*bw, w),
                T::F64 | T::F32 => {
                    if let Some(h) = w.strip_prefix("0x") {
                        let b = u64::from_str_radix(h, 16).unwrap_or(0);
                        if matches!(**ty, T::F32) {
                            Cst::F((f64::from_bits(b) as f32).to_bits() as u64)
                        } else {
                            Cst::F(b)
                        }
                    } else {
                        // 1.0e+00 : the '+' is not an id character
                        let mut t = w.to_string();
                        if p.i < p.s.len() && p.s[p.i] == b'+' {
                            p.i += 1;
                            t.push('+');
                            t.push_str(p.word());
                        }
                        let f: f64 = t.parse().unwrap_or_else(|_| p.fail("float"));
                        if matches!(**ty, T::F32) {
                            Cst::F((f as f32).to_bits() as u64)
                        } else {
                            Cst::F(f.to_bits())
                        }
                    }
                }
                _ => p.fail(&format!("constant '{}'", w)),
            },
        }
    }
    fn cstlist(&mut self, p: &mut P, close: u8) -> Vec<(Ty, Cst)> {
        let mut f = vec![];
        if p.eat(close) {
            return f;
        }
        loop {
            let t = self.ty(p);
            let c = self.cst(p, &t);
            f.push((t, c));
            if p.eat(close) {
                return f;
            }
            p.expect(b',');
        }
    }
    pub fn global(&mut self, n: &str) -> Option<GlobalDef> {
        let (a, b) = *self.gpos.get(n)?;
        let s = self.src;
        let mut p = P::new(&s[a..b]);
        p.expect(b'=');
        let mut external = false;
        let mut constant = false;
        loop {
            let w = p.peekw();
            if w == "external" || w == "extern_weak" {
                external = true;
            }
            let i0 = p.i;
            p.attrs();
            let w = p.peekw();
            if w == "global" {
                p.word();
                break;
            }
            if w == "constant" {
                p.word();
                constant = true;
                break;
            }
            if w == "alias" {
                p.word();
                let t = self.ty(&mut p);
                p.expect(b',');
                let t2 = self.ty(&mut p);
                let c = self.cst(&mut p, &t2);
                return Some(GlobalDef { ty: t, init: Some(c), constant: true, align: 0 });
            }
            if p.i == i0 {
                p.word();
            }
            if p.i >= p.s.len() {
                panic!("global {}", n);
            }
        }
        let t = self.ty(&mut p);
        let init = if external { None } else { Some(self.cst(&mut p, &t)) };
        let mut align = t.align();
        if let Some(k) = s[a + p.i..b].find("align ") {
            let x: String = s[a + p.i + k + 6..b].chars().take_while(|c| c.is_ascii_digit()).collect();
            if let Ok(x) = x.parse() {
                align = x;
            }
        }
        Some(GlobalDef { ty: t, init, constant, align })
    }
    pub fn mdtext(&self, id: u32) -> Option<&'static str> {
        self.md.get(&id).map(|(a, b)| &self.src[*a..*b])
    }
    pub fn func(&mut self, n: &str) -> Option<Rc<Func>> {
        if let Some(f) = self.fcache.get(n) {
            return Some(f.clone());
        }
        let (a, b) = *self.fpos.get(n)?;
        let f = Rc::new(self.parse_func(n, a, b));
        self.fcache.insert(n.to_string(), f.clone());
        Some(f)
    }
    fn parse_func(&mut self, n: &str, a: usize, b: usize) -> Func {
        let s = self.src;
        let mut p = P::new(&s[a..b]);
        p.word(); // define
        p.attrs();
        let ret = self.ty(&mut p);
        if p.peek() != b'@' {
            p.fail("function name");
        }
        p.i += 1;
        p.name();
        p.expect(b'(');
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut params = vec![];
        let mut unnamed = 0;
        if !p.eat(b')') {
            loop {
                if p.peek() == b'.' {
                    p.i += 3;
                    p.expect(b')');
                    break;
                }
                let t = self.ty(&mut p);
                p.attrs();
                let nm = if p.peek() == b'%' {
                    p.i += 1;
                    let x = p.name();
                    if x.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    x
                } else {
                    let x = unnamed.to_string();
                    unnamed += 1;
                    x
                };
                let id = regs.len() as u32;
                regs.insert(nm, id);
                params.push((t, id));
                if p.eat(b')') {
                    break;
                }
                p.expect(b',');
            }
        }
        // skip to '{' at end of line
        while p.s[p.i] != b'\n' {
            p.i += 1;
        }
        let body_start = a + p.i + 1;
        // first pass: block labels
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut first = true;
        for line in s[body_start..b].lines() {
            if line.is_empty() || line.starts_with(' ') || line.starts_with(';') || line.starts_with('}') {
                if first && line.starts_with(' ') {
                    // implicit entry label: numbered after the parameters
                    labels.insert(format!("{}", unnamed), 0);
                    first = false;
                }
                continue;
            }
            first = false;
            let mut q = P::new(line);
            let nm = q.name();
            let id = labels.len() as u32;
            labels.insert(nm, id);
        }
        let mut f = FP { m: self, regs, labels };
        let mut blocks: Vec<Vec<Ins>> = vec![];
        let mut p = P::new(&s[body_start..b]);
        loop {
            p.ws();
            if p.i >= p.s.len() || p.s[p.i] == b'}' {
                break;
            }
            // label? (at beginning of line)
            let bol = p.i == 0 || p.s[p.i - 1] == b'\n';
            if bol {
                p.name();
                p.expect(b':');
                blocks.push(vec![]);
                continue;
            }
            if blocks.is_empty() {
                blocks.push(vec![]);
            }
            // one instruction: ends at end of line (switch and landingpad continue)
            let ins = f.ins(&mut p, n);
            blocks.last_mut().unwrap().push(ins);
        }
        let nregs = f.regs.len();
        Func { name: n.into(), params, ret, nregs, blocks }
    }
}

struct FP<'m> {
    m: &'m mut Module,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

impl<'m> FP<'m> {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn op(&mut self, p: &mut P, t: &Ty) -> Op {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            Op::R(self.reg(n))
        } else {
            Op::C(Rc::new(self.m.cst(p, t)))
        }
    }
    fn tyop(&mut self, p: &mut P) -> (Ty, Op) {
        let t = self.m.ty(p);
        let o = self.op(p, &t);
        (t, o)
    }
    fn label(&mut self, p: &mut P) -> u32 {
        p.eatw("label");
        p.expect(b'%');
        let n = p.name();
        *self.labels.get(&n).unwrap_or_else(|| panic!("label {}", n))
    }
    fn rest(&mut self, p: &mut P) -> u32 {
        // skip to end of line; pick up !dbg
        let mut dbg = 0;
        // a look-ahead may have run past the end of the line
        while p.i > 0 && matches!(p.s[p.i - 1], b' ' | b'\t' | b'\r' | b'\n') {
            p.i -= 1;
        }
        let st = p.i;
        while p.i < p.s.len() && p.s[p.i] != b'\n' {
            p.i += 1;
        }
        let r = std::str::from_utf8(&p.s[st..p.i]).unwrap_or("");
        if let Some(k) = r.find("!dbg !") {
            let d: String = r[k + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
            dbg = d.parse().unwrap_or(0);
        }
        dbg
    }
    fn ins(&mut self, p: &mut P, fname: &str) -> Ins {
        let mut dst = None;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            p.expect(b'=');
            dst = Some(self.reg(n));
        }
        let mut w = p.word();
        while w == "tail" || w == "musttail" || w == "notail" {
            w = p.word();
        }
        macro_rules! flags {
            ($($x:expr),*) => { while [$($x),*].contains(&p.peekw()) { p.word(); } };
        }
        let i = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                let op = match w {
                    "add" => "add",
                    "sub" => "sub",
                    "mul" => "mul",
                    "udiv" => "udiv",
                    "sdiv" => "sdiv",
                    "urem" => "urem",
                    "srem" => "srem",
                    "shl" => "shl",
                    "lshr" => "lshr",
                    "ashr" => "ashr",
                    "and" => "and",
                    "or" => "or",
                    _ => "xor",
                };
                flags!("nuw", "nsw", "exact", "disjoint");
                let (t, a) = self.tyop(p);
                p.expect(b',');
                let b = self.op(p, &t);
                I::Bin(op, t, a, b)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let op = match w {
                    "fadd" => "fadd",
                    "fsub" => "fsub",
                    "fmul" => "fmul",
                    "fdiv" => "fdiv",
                    _ => "frem",
                };
                flags!("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc");
                let (t, a) = self.tyop(p);
                p.expect(b',');
                let b = self.op(p, &t);
                I::FBin(op, t, a, b)
            }
            "fneg" => {
                let (t, a) = self.tyop(p);
                I::FNeg(t, a)
            }
            "icmp" => {
                let c = match p.word() {
                    "eq" => "eq",
                    "ne" => "ne",
                    "ult" => "ult",
                    "ule" => "ule",
                    "ugt" => "ugt",
                    "uge" => "uge",
                    "slt" => "slt",
                    "sle" => "sle",
                    "sgt" => "sgt",
                    "sge" => "sge",
                    x => panic!("icmp {}", x),
                };
                let (t, a) = self.tyop(p);
                p.expect(b',');
                let b = self.op(p, &t);
                I::ICmp(c, t, a, b)
            }
            "fcmp" => {
                flags!("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc");
                let c = p.word().to_string();
                let (t, a) = self.tyop(p);
                p.expect(b',');
                let b = self.op(p, &t);
                I::FCmp(c, t, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext"
            | "fptrunc" => {
                let op = match w {
                    "trunc" => "trunc",
                    "zext" => "zext",
                    "sext" => "sext",
                    "ptrtoint" => "ptrtoint",
                    "inttoptr" => "inttoptr",
                    "bitcast" => "bitcast",
                    "fptoui" => "fptoui",
                    "fptosi" => "fptosi",
                    "uitofp" => "uitofp",
                    "sitofp" => "sitofp",
                    "fpext" => "fpext",
                    _ => "fptrunc",
                };
                let (t, a) = self.tyop(p);
                p.eatw("to");
                let t2 = self.m.ty(p);
                I::Cast(op, t, a, t2)
            }
            "select" => {
                let (ct, c) = self.tyop(p);
                p.expect(b',');
                let (t, a) = self.tyop(p);
                p.expect(b',');
                let (_, b) = self.tyop(p);
                I::Select(ct, c, t, a, b)
            }
            "freeze" => {
                let (t, a) = self.tyop(p);
                I::Freeze(t, a)
            }
            "alloca" => {
                p.eatw("inalloca");
                let t = self.m.ty(p);
                let mut n = None;
                let mut al = t.align();
                while p.peek() == b',' {
                    let save = p.i;
                    p.i += 1;
                    if p.eatw("align") {
                        al = p.word().parse().unwrap();
                    } else if p.peek() == b'!' {
                        p.i = save;
                        break;
                    } else {
                        n = Some(self.tyop(p));
                    }
                }
                I::Alloca(t, n, al)
            }
            "load" => {
                flags!("atomic", "volatile");
                let t = self.m.ty(p);
                p.expect(b',');
                let (_, a) = self.tyop(p);
                I::Load(t, a)
            }
            "store" => {
                flags!("atomic", "volatile");
                let (t, v) = self.tyop(p);
                p.expect(b',');
                let (_, a) = self.tyop(p);
                I::Store(t, v, a)
            }
            "getelementptr" => {
                flags!("inbounds", "nuw", "nusw");
                let t = self.m.ty(p);
                p.expect(b',');
                let (bt, base) = self.tyop(p);
                let mut idx = vec![];
                while p.peek() == b',' {
                    let save = p.i;
                    p.i += 1;
                    if p.peek() == b'!' {
                        p.i = save;
                        break;
                    }
                    idx.push(self.tyop(p));
                }
                if !matches!(*bt, T::Ptr) {
                    panic!("vector gep");
                }
                I::Gep(t, base, idx)
            }
            "phi" => {
                let t = self.m.ty(p);
                let mut v = vec![];
                loop {
                    p.expect(b'[');
                    let o = self.op(p, &t);
                    p.expect(b',');
                    let l = self.label(p);
                    p.expect(b']');
                    v.push((o, l));
                    let save = p.i;
                    if p.eat(b',') {
                        if p.peek() != b'[' {
                            p.i = save;
                            break;
                        }
                    } else {
                        break;
                    }
                }
                I::Phi(t, v)
            }
            "call" | "invoke" => {
                flags!("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc");
                p.attrs();
                let mut ret = self.m.ty(p);
                // optional function type: ret (args...)
                if p.peek() == b'(' {
                    p.parens();
                    if p.peek() == b'*' {
                        p.i += 1;
                    }
                }
                if p.peekw() == "asm" {
                    // inline assembly: treated as a no-op returning undef (black_box, fences)
                    let _ = self.rest(p);
                    ret = Rc::new(T::Void);
                    let _ = ret;
                    return Ins { dst, i: I::Nop, dbg: 0 };
                }
                let pt: Ty = Rc::new(T::Ptr);
                let callee = self.op(p, &pt);
                p.expect(b'(');
                let mut args = vec![];
                if !p.eat(b')') {
                    loop {
                        let t = self.m.ty(p);
                        p.attrs();
                        if matches!(*t, T::Other) {
                            // metadata argument: skip to , or )
                            let mut d = 0;
                            loop {
                                let c = p.s[p.i];
                                if c == b'(' || c == b'{' {
                                    d += 1;
                                }
                                if c == b')' || c == b'}' {
                                    if d == 0 {
                                        break;
                                    }
                                    d -= 1;
                                }
                                if c == b',' && d == 0 {
                                    break;
                                }
                                p.i += 1;
                            }
                            args.push((t, Op::C(Rc::new(Cst::Undef))));
                        } else {
                            let o = self.op(p, &t);
                            args.push((t, o));
                        }
                        if p.eat(b')') {
                            break;
                        }
                        p.expect(b',');
                    }
                }
                let mut normal = None;
                let mut dbg0 = 0;
                if w == "invoke" {
                    // attributes, then "to label %x unwind label %y" on the next line
                    loop {
                        p.ws();
                        if p.peekw() == "to" {
                            p.word();
                            normal = Some(self.label(p));
                            p.eatw("unwind");
                            self.label(p);
                            break;
                        }
                        if p.s[p.i] == b'#' {
                            p.i += 1;
                            p.word();
                        } else if p.s[p.i] == b'[' {
                            while p.s[p.i] != b']' {
                                p.i += 1;
                            }
                            p.i += 1;
                        } else {
                            let i0 = p.i;
                            p.attrs();
                            if p.i == i0 {
                                p.i += 1;
                            }
                        }
                    }
                } else {
                    dbg0 = self.rest(p);
                }
                let name = match &callee {
                    Op::C(c) => match &**c {
                        Cst::Global(n) => Some(Rc::from(n.as_str())),
                        _ => None,
                    },
                    _ => None,
                };
                let dbg = if w == "invoke" { self.rest(p) } else { dbg0 };
                return Ins { dst, i: I::Call { ret, callee, name, args, normal }, dbg };
            }
            "br" => {
                if p.peekw() == "label" {
                    I::Br(self.label(p))
                } else {
                    let (_, c) = self.tyop(p);
                    p.expect(b',');
                    let a = self.label(p);
                    p.expect(b',');
                    let b = self.label(p);
                    I::CBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyop(p);
                p.expect(b',');
                let d = self.label(p);
                p.expect(b'[');
                let mut cases = vec![];
                while !p.eat(b']') {
                    let ct = self.m.ty(p);
                    let c = self.m.cst(p, &ct);
                    p.expect(b',');
                    let l = self.label(p);
                    if let Cst::Int(_, v) = c {
                        cases.push((v, l));
                    } else {
                        panic!("switch case");
                    }
                }
                I::Switch(t, v, d, cases)
            }
            "ret" => {
                let t = self.m.ty(p);
                if matches!(*t, T::Void) {
                    I::Ret(None)
                } else {
                    let o = self.op(p, &t);
                    I::Ret(Some((t, o)))
                }
            }
            "unreachable" => I::Unreachable,
            "fence" => I::Nop,
            "extractvalue" => {
                let (t, a) = self.tyop(p);
                let mut ix = vec![];
                while p.peek() == b',' {
                    let save = p.i;
                    p.i += 1;
                    if p.peek() == b'!' {
                        p.i = save;
                        break;
                    }
                    ix.push(p.word().parse().unwrap());
                }
                I::ExtractValue(t, a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tyop(p);
                p.expect(b',');
                let (t2, b) = self.tyop(p);
                let mut ix = vec![];
                while p.peek() == b',' {
                    let save = p.i;
                    p.i += 1;
                    if p.peek() == b'!' {
                        p.i = save;
                        break;
                    }
                    ix.push(p.word().parse().unwrap());
                }
                I::InsertValue(t, a, t2, b, ix)
            }
            "extractelement" => {
                let (t, a) = self.tyop(p);
                p.expect(b',');
                let (t2, b) = self.tyop(p);
                I::ExtractElem(t, a, t2, b)
            }
            "insertelement" => {
                let (t, a) = self.tyop(p);
                p.expect(b',');
                let (_, e) = self.tyop(p);
                p.expect(b',');
                let (t2, b) = self.tyop(p);
                I::InsertElem(t, a, e, t2, b)
            }
            "shufflevector" => {
                let (t, a) = self.tyop(p);
                p.expect(b',');
                let (_, b) = self.tyop(p);
                p.expect(b',');
                let (t2, c) = self.tyop(p);
                I::Shuffle(t, a, b, t2, c)
            }
            "atomicrmw" => {
                p.eatw("volatile");
                let op = p.word().to_string();
                let (_, a) = self.tyop(p);
                p.expect(b',');
                let (t, v) = self.tyop(p);
                I::AtomicRmw(op, t, a, v)
            }
            "cmpxchg" => {
                flags!("weak", "volatile");
                let (_, a) = self.tyop(p);
                p.expect(b',');
                let (t, c) = self.tyop(p);
                p.expect(b',');
                let (_, n) = self.tyop(p);
                I::CmpXchg(t, a, c, n)
            }
            "landingpad" => {
                self.m.ty(p);
                loop {
                    match p.peekw() {
                        "cleanup" => {
                            p.word();
                        }
                        "catch" | "filter" => {
                            let _ = self.rest(p);
                        }
                        _ => break,
                    }
                }
                return Ins { dst, i: I::LandingPad, dbg: 0 };
            }
            "resume" => I::Resume,
            x => panic!("instruction '{}' in {}", x, fname),
        };
        let dbg = self.rest(p);
        Ins { dst, i, dbg }
    }
}
