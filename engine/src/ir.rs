//! Textual LLVM IR reader: types, constants, globals and functions of one linked module.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Float(u32),
    Ptr,
    Arr(u64, TyId),
    Vec(u64, TyId),
    Struct(Vec<TyId>, bool),
    Meta,
    Opaque,
}

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(u32),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(O),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(u32, crate::expr::Op, u32, u32, O, O), // dst op w lanes(0=scalar) a b
    Icmp(u32, Pred, u32, u32, O, O),
    Cast(u32, CastK, u32, u32, u32, O), // dst kind from to lanes a
    Bitcast(u32, TyId, TyId, O),
    Select(u32, bool, TyId, u32, O, O, O), // dst, is pointer-like, ty, lanes of cond, c a b
    Load(u32, TyId, O),
    Store(TyId, O, O),
    Alloca(u32, u64, u64),
    Gep(u32, O, i64, Vec<(u64, u32, O)>), // base, const offset, (scale, width, index)
    Call(u32, Callee, Vec<O>, Vec<TyId>, TyId),
    Extract(u32, O, Vec<u32>),
    Insert(u32, O, O, Vec<u32>),
    ExtElem(u32, O, O),
    InsElem(u32, O, O, O),
    Shuffle(u32, O, O, Vec<u32>, u64),
    Copy(u32, O),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(u32, O, u32, Rc<Vec<(u128, u32)>>),
    Ret(Option<O>),
    Unreachable,
    Unsup(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
    pub ins: Vec<I>,
}

pub struct Func {
    pub name: String,
    pub params: Vec<(u32, TyId)>,
    pub ret: TyId,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub addr: u64,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub init: Vec<u8>,
    pub external: bool,
}

pub struct Module {
    pub types: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    pub fnidx: HashMap<String, u32>,
    pub addr_of: HashMap<String, u64>,
    pub fn_by_addr: HashMap<u64, u32>,
}

pub const FN_BASE: u64 = 0x0040_0000;
pub const GLOB_BASE: u64 = 0x0100_0000;

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        self.types.push(t.clone());
        let i = self.types.len() as u32 - 1;
        self.tymap.insert(t, i);
        i
    }
    pub fn align(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Float(w) => (*w as u64 / 8).next_power_of_two(),
            Ty::Ptr => 8,
            Ty::Arr(_, e) => self.align(*e),
            Ty::Vec(..) => self.size(t).next_power_of_two(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|x| self.align(*x)).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => {
                let s = (*w as u64 + 7) / 8;
                let a = self.align(t);
                (s + a - 1) / a * a
            }
            Ty::Float(w) => *w as u64 / 8,
            Ty::Ptr => 8,
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Vec(n, e) => match self.types[*e as usize] {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * self.size(*e),
            },
            Ty::Struct(f, p) => {
                let mut o = 0;
                let mut al = 1;
                for x in f {
                    let a = if *p { 1 } else { self.align(*x) };
                    al = al.max(a);
                    o = (o + a - 1) / a * a + self.size(*x);
                }
                (o + al - 1) / al * al
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, t: TyId, i: usize) -> (u64, TyId) {
        match &self.types[t as usize] {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, x) in f.iter().enumerate() {
                    let a = if *p { 1 } else { self.align(*x) };
                    o = (o + a - 1) / a * a;
                    if k == i {
                        return (o, *x);
                    }
                    o += self.size(*x);
                }
                panic!("field")
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => (i as u64 * self.size(*e), *e),
            x => panic!("field_off {:?}", x),
        }
    }
    /// bit width of a scalar type (0 for aggregates)
    pub fn width(&self, t: TyId) -> u32 {
        match self.types[t as usize] {
            Ty::Int(w) | Ty::Float(w) => w,
            Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn zero(&self, t: TyId) -> V {
        match &self.types[t as usize] {
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|x| self.zero(*x)).collect())),
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let z = self.zero(*e);
                V::A(Rc::new(vec![z; *n as usize]))
            }
            _ => V::C(0),
        }
    }
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn new(s: &'a str) -> Self {
        P { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b'\t') {
            self.i += 1
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' at: {}", c as char, self.rest(120));
        }
    }
    fn rest(&self, n: usize) -> String {
        String::from_utf8_lossy(&self.s[self.i..(self.i + n).min(self.s.len())]).into()
    }
    fn iswc(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$'
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        let mut j = st;
        while j < self.s.len() && Self::iswc(self.s[j]) {
            j += 1
        }
        std::str::from_utf8(&self.s[st..j]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    /// name after % or @
    fn name(&mut self) -> String {
        self.i += 1;
        if self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && Self::iswc(self.s[self.i]) {
                self.i += 1
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into()
        }
    }
    fn skip_paren(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
}

fn is_int_ty(w: &str) -> bool {
    w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit())
}
fn is_ty_word(w: &str) -> bool {
    is_int_ty(w) || matches!(w, "ptr" | "void" | "half" | "float" | "double" | "metadata" | "label" | "token" | "fp128" | "x86_fp80")
}
fn is_val_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "c" | "splat" | "none" | "sub" | "add" | "xor" | "trunc" | "dso_local_equivalent" | "addrspacecast" | "blockaddress"
    )
}

struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    nlabels: u32,
}
impl FnCtx {
    fn reg(&mut self, n: String) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn label(&mut self, n: String) -> u32 {
        if let Some(x) = self.labels.get(&n) {
            return *x;
        }
        self.labels.insert(n, self.nlabels);
        self.nlabels += 1;
        self.nlabels - 1
    }
}

impl Module {
    fn ptype(&mut self, p: &mut P) -> TyId {
        let c = p.peek();
        let t = match c {
            b'{' => {
                p.i += 1;
                let f = self.ptypes(p, b'}');
                self.ty(Ty::Struct(f, false))
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    p.i += 1;
                    let f = self.ptypes(p, b'}');
                    p.expect(b'>');
                    self.ty(Ty::Struct(f, true))
                } else {
                    let n: u64 = p.word().parse().unwrap();
                    assert!(p.eatw("x"));
                    let e = self.ptype(p);
                    p.expect(b'>');
                    self.ty(Ty::Vec(n, e))
                }
            }
            b'[' => {
                p.i += 1;
                let n: u64 = p.word().parse().unwrap();
                assert!(p.eatw("x"));
                let e = self.ptype(p);
                p.expect(b']');
                self.ty(Ty::Arr(n, e))
            }
            b'%' => {
                let n = p.name();
                match self.named.get(&n) {
                    Some(t) => *t,
                    None => self.ty(Ty::Opaque),
                }
            }
            _ => {
                let w = p.word();
                if is_int_ty(w) {
                    let n = w[1..].parse().unwrap();
                    self.ty(Ty::Int(n))
                } else {
                    match w {
                        "ptr" => {
                            if p.peek_word() == "addrspace" {
                                p.word();
                                p.skip_paren();
                            }
                            self.ty(Ty::Ptr)
                        }
                        "void" => self.ty(Ty::Void),
                        "half" => self.ty(Ty::Float(16)),
                        "float" => self.ty(Ty::Float(32)),
                        "double" => self.ty(Ty::Float(64)),
                        "fp128" => self.ty(Ty::Float(128)),
                        "x86_fp80" => self.ty(Ty::Float(80)),
                        "metadata" => self.ty(Ty::Meta),
                        "label" | "token" => self.ty(Ty::Opaque),
                        _ => panic!("type? '{}' {}", w, p.rest(100)),
                    }
                }
            }
        };
        t
    }
    fn ptypes(&mut self, p: &mut P, end: u8) -> Vec<TyId> {
        let mut r = vec![];
        loop {
            if p.eat(end) {
                return r;
            }
            r.push(self.ptype(p));
            p.eat(b',');
        }
    }
    fn skip_attrs_to_type(&mut self, p: &mut P) {
        loop {
            let c = p.peek();
            if matches!(c, b'{' | b'[' | b'<' | b'%') {
                return;
            }
            if c == b'"' {
                p.i += 1;
                while p.s[p.i] != b'"' {
                    p.i += 1
                }
                p.i += 1;
                if p.peek() == b'=' {
                    p.i += 1;
                    p.expect(b'"');
                    while p.s[p.i] != b'"' {
                        p.i += 1
                    }
                    p.i += 1;
                }
                continue;
            }
            let w = p.peek_word();
            if w.is_empty() {
                panic!("attrs: {}", p.rest(100));
            }
            if is_ty_word(w) {
                return;
            }
            p.word();
            if w == "align" || w == "cc" {
                if p.peek() != b'(' {
                    p.word();
                }
            }
            if p.peek() == b'(' {
                p.skip_paren();
            }
        }
    }
    fn skip_attrs_to_val(&mut self, p: &mut P) {
        loop {
            let c = p.peek();
            if matches!(c, b'{' | b'[' | b'<' | b'%' | b'@' | b',' | b')' | b'!' | 0) || c == b'-' || c.is_ascii_digit() {
                return;
            }
            let w = p.peek_word();
            if w.is_empty() {
                panic!("attrs2: {}", p.rest(100));
            }
            if is_val_word(w) {
                return;
            }
            p.word();
            if w == "align" && p.peek() != b'(' {
                p.word();
            } else if p.peek() == b'(' {
                p.skip_paren();
            }
        }
    }
    fn gaddr(&self, n: &str) -> u64 {
        match self.addr_of.get(n) {
            Some(a) => *a,
            None => panic!("unknown global @{}", n),
        }
    }
    fn pconst(&mut self, p: &mut P, t: TyId) -> V {
        match self.pval(p, t, &mut None) {
            O::K(v) => v,
            _ => panic!("const expected"),
        }
    }
    fn pval(&mut self, p: &mut P, t: TyId, cx: &mut Option<&mut FnCtx>) -> O {
        let c = p.peek();
        let w = self.width(t);
        match c {
            b'%' => {
                let n = p.name();
                return O::R(cx.as_mut().expect("reg in const").reg(n));
            }
            b'@' => {
                let n = p.name();
                return O::K(V::C(self.gaddr(&n) as u128));
            }
            b'{' | b'[' => {
                p.i += 1;
                let end = if c == b'{' { b'}' } else { b']' };
                let mut v = vec![];
                while !p.eat(end) {
                    let et = self.ptype(p);
                    v.push(self.pconst(p, et));
                    p.eat(b',');
                }
                return O::K(V::A(Rc::new(v)));
            }
            b'<' => {
                p.i += 1;
                let st = p.peek() == b'{';
                if st {
                    p.i += 1;
                }
                let mut v = vec![];
                loop {
                    if st && p.eat(b'}') {
                        p.expect(b'>');
                        break;
                    }
                    if !st && p.eat(b'>') {
                        break;
                    }
                    let et = self.ptype(p);
                    v.push(self.pconst(p, et));
                    p.eat(b',');
                }
                return O::K(V::A(Rc::new(v)));
            }
            b'!' => {
                // metadata operand
                p.i = p.s.len().min(p.i + 1);
                while p.i < p.s.len() && p.s[p.i] != b',' && p.s[p.i] != b')' {
                    p.i += 1;
                }
                return O::K(V::C(0));
            }
            _ => {}
        }
        let wd = p.word();
        let m = crate::expr::mask(w);
        match wd {
            "true" => O::K(V::C(1)),
            "false" => O::K(V::C(0)),
            "null" | "none" => O::K(V::C(0)),
            "undef" | "poison" | "zeroinitializer" => O::K(self.zero(t)),
            "c" => {
                // c"...."
                p.expect(b'"');
                let mut v = vec![];
                loop {
                    let ch = p.s[p.i];
                    p.i += 1;
                    if ch == b'"' {
                        break;
                    }
                    if ch == b'\\' {
                        if p.s[p.i] == b'\\' {
                            v.push(V::C(b'\\' as u128));
                            p.i += 1;
                        } else {
                            let h = std::str::from_utf8(&p.s[p.i..p.i + 2]).unwrap();
                            v.push(V::C(u8::from_str_radix(h, 16).unwrap() as u128));
                            p.i += 2;
                        }
                    } else {
                        v.push(V::C(ch as u128));
                    }
                }
                O::K(V::A(Rc::new(v)))
            }
            "splat" => {
                p.expect(b'(');
                let et = self.ptype(p);
                let v = self.pconst(p, et);
                p.expect(b')');
                let n = match self.types[t as usize] {
                    Ty::Vec(n, _) | Ty::Arr(n, _) => n,
                    _ => 1,
                };
                O::K(V::A(Rc::new(vec![v; n as usize])))
            }
            "getelementptr" => {
                while p.peek() != b'(' {
                    p.word();
                    if p.peek() == b'(' && p.s[p.i - 1] != b' ' {
                        // inrange(...)
                    }
                }
                p.expect(b'(');
                let bt = self.ptype(p);
                p.expect(b',');
                let pt = self.ptype(p);
                let base = self.cint(p, pt);
                let mut off: i128 = 0;
                let mut cur = bt;
                let mut first = true;
                while p.eat(b',') {
                    p.eatw("inrange");
                    let it = self.ptype(p);
                    let iw = self.width(it);
                    let k = crate::expr::sx(self.cint(p, it), iw);
                    if first {
                        off += k * self.size(cur) as i128;
                        first = false;
                    } else {
                        match &self.types[cur as usize] {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                cur = *e;
                                off += k * self.size(cur) as i128;
                            }
                            _ => {
                                let (o, t2) = self.field_off(cur, k as usize);
                                off += o as i128;
                                cur = t2;
                            }
                        }
                    }
                }
                p.expect(b')');
                O::K(V::C(base.wrapping_add(off as u128) & crate::expr::mask(64)))
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" => {
                p.expect(b'(');
                let ft = self.ptype(p);
                let v = self.cint(p, ft);
                assert!(p.eatw("to"));
                let tt = self.ptype(p);
                p.expect(b')');
                O::K(V::C(v & crate::expr::mask(self.width(tt))))
            }
            "sub" | "add" | "xor" => {
                while p.peek() != b'(' {
                    p.word();
                }
                p.expect(b'(');
                let t1 = self.ptype(p);
                let a = self.cint(p, t1);
                p.expect(b',');
                let t2 = self.ptype(p);
                let b = self.cint(p, t2);
                p.expect(b')');
                let r = match wd {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    _ => a ^ b,
                };
                O::K(V::C(r & m))
            }
            _ => {
                if let Some(h) = wd.strip_prefix("0x") {
                    return O::K(V::C(u128::from_str_radix(h, 16).unwrap_or(0)));
                }
                if let Some(r) = wd.strip_prefix('-') {
                    if let Ok(x) = r.parse::<u128>() {
                        return O::K(V::C(x.wrapping_neg() & m));
                    }
                }
                if let Ok(x) = wd.parse::<u128>() {
                    return O::K(V::C(x & m));
                }
                if matches!(self.types[t as usize], Ty::Float(_)) {
                    // decimal float constant
                    let s = wd.to_string();
                    let mut full = s;
                    while p.i < p.s.len() && (p.s[p.i] == b'+') {
                        full.push('+');
                        p.i += 1;
                        full.push_str(p.word());
                    }
                    let f: f64 = full.parse().unwrap_or(0.0);
                    let bits = if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 };
                    return O::K(V::C(bits));
                }
                panic!("value? '{}' {}", wd, p.rest(100))
            }
        }
    }
    fn cint(&mut self, p: &mut P, t: TyId) -> u128 {
        match self.pconst(p, t) {
            V::C(k) => k,
            _ => panic!("cint"),
        }
    }
    fn emit(&self, t: TyId, v: &V, out: &mut [u8]) {
        match v {
            V::C(k) => {
                let n = match self.types[t as usize] {
                    Ty::Int(w) => ((w + 7) / 8) as usize,
                    _ => self.size(t) as usize,
                };
                for i in 0..n.min(16) {
                    out[i] = (k >> (8 * i)) as u8;
                }
            }
            V::A(a) => {
                for (i, x) in a.iter().enumerate() {
                    let (o, et) = self.field_off(t, i);
                    self.emit(et, x, &mut out[o as usize..]);
                }
            }
            V::S(_) => unreachable!(),
        }
    }

    pub fn parse(text: &str) -> Module {
        let mut m = Module {
            types: vec![],
            tymap: HashMap::new(),
            named: HashMap::new(),
            globals: vec![],
            funcs: vec![],
            fnidx: HashMap::new(),
            addr_of: HashMap::new(),
            fn_by_addr: HashMap::new(),
        };
        let lines: Vec<&str> = text.lines().collect();
        // pass 0: named types
        for _ in 0..4 {
            for l in &lines {
                if l.starts_with('%') {
                    let mut p = P::new(l);
                    let n = p.name();
                    p.expect(b'=');
                    if p.eatw("type") && !p.eatw("opaque") {
                        let t = m.ptype(&mut p);
                        m.named.insert(n, t);
                    }
                }
            }
        }
        // pass 1: addresses
        let mut ginit: Vec<(usize, &str, usize, TyId)> = vec![];
        let mut aliases: Vec<(String, &str)> = vec![];
        let mut next = GLOB_BASE;
        let mut body: Vec<(u32, usize)> = vec![];
        for (li, l) in lines.iter().enumerate() {
            if l.starts_with('@') {
                let mut p = P::new(l);
                let n = p.name();
                p.expect(b'=');
                let mut external = false;
                let constant;
                loop {
                    let w = p.peek_word();
                    match w {
                        "global" => {
                            p.word();
                            constant = false;
                            break;
                        }
                        "constant" => {
                            p.word();
                            constant = true;
                            break;
                        }
                        "alias" => {
                            constant = true;
                            break;
                        }
                        "external" | "extern_weak" => {
                            external = true;
                            p.word();
                        }
                        "" => panic!("global? {}", l),
                        _ => {
                            p.word();
                            if p.peek() == b'(' {
                                p.skip_paren();
                            }
                        }
                    }
                }
                if p.peek_word() == "alias" {
                    aliases.push((n, l));
                    continue;
                }
                let t = m.ptype(&mut p);
                let size = m.size(t);
                let mut al = m.align(t).max(1);
                if let Some(ix) = l.rfind(", align ") {
                    let s: String = l[ix + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    al = al.max(s.parse().unwrap_or(1));
                }
                al = al.max(16);
                next = (next + al - 1) / al * al;
                m.addr_of.insert(n.clone(), next);
                m.globals.push(Global { name: n, addr: next, size, constant, init: vec![0; size as usize], external });
                if !external {
                    ginit.push((m.globals.len() - 1, l, p.i, t));
                }
                next += size + 32;
            } else if l.starts_with("define") || l.starts_with("declare") {
                let at = l.find('@').unwrap();
                let mut p = P::new(l);
                p.i = at;
                let n = p.name();
                let idx = m.funcs.len() as u32;
                let addr = FN_BASE + idx as u64 * 32;
                let void = m.ty(Ty::Void);
                m.funcs.push(Func { name: n.clone(), params: vec![], ret: void, nregs: 0, blocks: vec![], defined: l.starts_with("define"), addr });
                m.addr_of.insert(n.clone(), addr);
                m.fn_by_addr.insert(addr, idx);
                m.fnidx.insert(n, idx);
                body.push((idx, li));
            }
        }
        for (n, l) in aliases {
            let at = l.rfind(" @").or_else(|| l.rfind("(@")).unwrap();
            let mut p = P::new(l);
            p.i = at + 1;
            let tgt = p.name();
            let a = m.gaddr(&tgt);
            m.addr_of.insert(n.clone(), a);
            if let Some(f) = m.fnidx.get(&tgt).copied() {
                m.fnidx.insert(n, f);
            }
        }
        // pass 2: initializers
        for (gi, l, off, t) in ginit {
            let mut p = P::new(l);
            p.i = off;
            let v = m.pconst(&mut p, t);
            let mut buf = vec![0u8; m.globals[gi].size as usize];
            m.emit(t, &v, &mut buf);
            m.globals[gi].init = buf;
        }
        // pass 3: functions
        for (idx, li) in body {
            m.pfunc(idx, &lines, li);
        }
        m
    }

    fn pfunc(&mut self, idx: u32, lines: &[&str], li: usize) {
        let l = lines[li];
        let mut p = P::new(l);
        p.word();
        self.skip_attrs_to_type(&mut p);
        let ret = self.ptype(&mut p);
        self.funcs[idx as usize].ret = ret;
        p.ws();
        p.name();
        p.expect(b'(');
        let mut cx = FnCtx { regs: HashMap::new(), labels: HashMap::new(), nlabels: 0 };
        let mut params = vec![];
        let mut unnamed = 0;
        loop {
            if p.eat(b')') {
                break;
            }
            if p.eatw("...") {
                continue;
            }
            let t = self.ptype(&mut p);
            self.skip_attrs_to_val(&mut p);
            if p.peek() == b'%' {
                let n = p.name();
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                let r = cx.reg(n);
                params.push((r, t));
            }
            p.eat(b',');
        }
        self.funcs[idx as usize].params = params;
        if !self.funcs[idx as usize].defined {
            return;
        }
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<u32> = None;
        let mut i = li + 1;
        let put = |blocks: &mut Vec<Option<Block>>, b: u32| {
            while blocks.len() <= b as usize {
                blocks.push(None);
            }
            blocks[b as usize] = Some(Block { phis: vec![], ins: vec![] });
        };
        while lines[i] != "}" {
            let l = lines[i];
            if l.is_empty() {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let mut p = P::new(l);
                let n = if l.starts_with('"') {
                    p.i = 0;
                    let e = l[1..].find('"').unwrap();
                    l[1..1 + e].to_string()
                } else {
                    p.word().to_string()
                };
                let b = cx.label(n);
                put(&mut blocks, b);
                cur = Some(b);
                i += 1;
                continue;
            }
            if cur.is_none() {
                let b = cx.label(format!("{}", unnamed));
                put(&mut blocks, b);
                cur = Some(b);
            }
            // gather multi-line switch
            let mut text = l.to_string();
            if l.trim_start().starts_with("switch") && !l.contains(']') {
                loop {
                    i += 1;
                    text.push(' ');
                    text.push_str(lines[i]);
                    if lines[i].trim_start().starts_with(']') {
                        break;
                    }
                }
            }
            let b = cur.unwrap() as usize;
            self.pinstr(&text, &mut cx, &mut blocks, b);
            i += 1;
        }
        let f = &mut self.funcs[idx as usize];
        f.blocks = blocks.into_iter().map(|b| b.expect("undefined block")).collect();
        f.nregs = cx.regs.len() as u32;
    }

    fn lanes(&self, t: TyId) -> (u32, u32) {
        match self.types[t as usize] {
            Ty::Vec(n, e) => (n as u32, self.width(e)),
            _ => (0, self.width(t)),
        }
    }

    fn plabel(&mut self, p: &mut P, cx: &mut FnCtx) -> u32 {
        assert!(p.eatw("label"));
        p.ws();
        let n = p.name();
        cx.label(n)
    }

    fn pinstr(&mut self, l: &str, cx: &mut FnCtx, blocks: &mut Vec<Option<Block>>, b: usize) {
        let mut p = P::new(l);
        let mut dst = u32::MAX;
        if p.peek() == b'%' {
            let n = p.name();
            dst = cx.reg(n);
            p.expect(b'=');
        }
        let mut op = p.word().to_string();
        if matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = p.word().to_string();
        }
        use crate::expr::Op::*;
        macro_rules! val {
            ($t:expr) => {
                self.pval(&mut p, $t, &mut Some(cx))
            };
        }
        let ins = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while matches!(p.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                    p.word();
                }
                let t = self.ptype(&mut p);
                let a = val!(t);
                p.expect(b',');
                let c = val!(t);
                let (n, w) = self.lanes(t);
                let o = match op.as_str() {
                    "add" => Add,
                    "sub" => Sub,
                    "mul" => Mul,
                    "udiv" => UDiv,
                    "sdiv" => SDiv,
                    "urem" => URem,
                    "srem" => SRem,
                    "and" => And,
                    "or" => Or,
                    "xor" => Xor,
                    "shl" => Shl,
                    "lshr" => LShr,
                    _ => AShr,
                };
                I::Bin(dst, o, w, n, a, c)
            }
            "icmp" => {
                let mut w = p.word();
                if w == "samesign" {
                    w = p.word();
                }
                let pr = match w {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => panic!("pred {}", l),
                };
                let t = self.ptype(&mut p);
                let a = val!(t);
                p.expect(b',');
                let c = val!(t);
                let (n, w) = self.lanes(t);
                I::Icmp(dst, pr, w, n, a, c)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                while matches!(p.peek_word(), "nuw" | "nsw" | "nneg") {
                    p.word();
                }
                let ft = self.ptype(&mut p);
                let a = val!(ft);
                assert!(p.eatw("to"));
                let tt = self.ptype(&mut p);
                let (n, fw) = self.lanes(ft);
                let (_, tw) = self.lanes(tt);
                let k = match op.as_str() {
                    "sext" => CastK::SExt,
                    _ if tw >= fw => CastK::ZExt,
                    _ => CastK::Trunc,
                };
                I::Cast(dst, k, fw, tw, n, a)
            }
            "bitcast" => {
                let ft = self.ptype(&mut p);
                let a = val!(ft);
                assert!(p.eatw("to"));
                let tt = self.ptype(&mut p);
                I::Bitcast(dst, ft, tt, a)
            }
            "freeze" => {
                let t = self.ptype(&mut p);
                I::Copy(dst, val!(t))
            }
            "select" => {
                while matches!(p.peek_word(), "nnan" | "ninf" | "nsz" | "fast") {
                    p.word();
                }
                let ct = self.ptype(&mut p);
                let c = val!(ct);
                p.expect(b',');
                let t = self.ptype(&mut p);
                let a = val!(t);
                p.expect(b',');
                let t2 = self.ptype(&mut p);
                let d = val!(t2);
                let (n, _) = self.lanes(ct);
                let isp = n == 0 && !matches!(self.types[t as usize], Ty::Int(_) | Ty::Float(_));
                I::Select(dst, isp, t, n, c, a, d)
            }
            "load" => {
                while matches!(p.peek_word(), "volatile" | "atomic") {
                    p.word();
                }
                let t = self.ptype(&mut p);
                p.expect(b',');
                let pt = self.ptype(&mut p);
                I::Load(dst, t, val!(pt))
            }
            "store" => {
                while matches!(p.peek_word(), "volatile" | "atomic") {
                    p.word();
                }
                let t = self.ptype(&mut p);
                let v = val!(t);
                p.expect(b',');
                let pt = self.ptype(&mut p);
                I::Store(t, v, val!(pt))
            }
            "alloca" => {
                p.eatw("inalloca");
                let t = self.ptype(&mut p);
                let mut n = 1u64;
                let mut al = self.align(t).max(1);
                while p.eat(b',') {
                    if p.eatw("align") {
                        al = p.word().parse().unwrap();
                    } else {
                        let it = self.ptype(&mut p);
                        match val!(it) {
                            O::K(V::C(k)) => n = k as u64,
                            _ => {
                                blocks[b].as_mut().unwrap().ins.push(I::Unsup("dynamic alloca".into()));
                                return;
                            }
                        }
                    }
                }
                I::Alloca(dst, self.size(t) * n, al)
            }
            "getelementptr" => {
                while matches!(p.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                    p.word();
                }
                let bt = self.ptype(&mut p);
                p.expect(b',');
                let pt = self.ptype(&mut p);
                let base = val!(pt);
                let mut off: i128 = 0;
                let mut terms = vec![];
                let mut cur = bt;
                let mut first = true;
                while p.eat(b',') {
                    let it = self.ptype(&mut p);
                    let iw = self.width(it);
                    let ix = val!(it);
                    let (scale, nt, konst) = if first {
                        (self.size(cur), cur, None)
                    } else {
                        match &self.types[cur as usize] {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (self.size(*e), *e, None),
                            _ => {
                                let k = match &ix {
                                    O::K(V::C(k)) => *k as usize,
                                    _ => panic!("gep struct idx"),
                                };
                                let (o, t2) = self.field_off(cur, k);
                                (0, t2, Some(o))
                            }
                        }
                    };
                    first = false;
                    cur = nt;
                    if let Some(o) = konst {
                        off += o as i128;
                    } else if let O::K(V::C(k)) = &ix {
                        off += crate::expr::sx(*k, iw) * scale as i128;
                    } else {
                        terms.push((scale, iw, ix));
                    }
                }
                I::Gep(dst, base, off as i64, terms)
            }
            "call" => {
                self.skip_attrs_to_type(&mut p);
                let rt = self.ptype(&mut p);
                if p.peek() == b'(' {
                    p.skip_paren();
                }
                if p.peek_word() == "asm" {
                    I::Unsup(format!("inline asm: {}", l))
                } else {
                    let pt = self.ty(Ty::Ptr);
                    let callee = if p.peek() == b'@' {
                        let n = p.name();
                        match self.fnidx.get(&n) {
                            Some(i) => Callee::Fn(*i),
                            None => Callee::Ind(O::K(V::C(self.gaddr(&n) as u128))),
                        }
                    } else {
                        Callee::Ind(val!(pt))
                    };
                    p.expect(b'(');
                    let mut args = vec![];
                    let mut tys = vec![];
                    loop {
                        if p.eat(b')') {
                            break;
                        }
                        let t = self.ptype(&mut p);
                        if matches!(self.types[t as usize], Ty::Meta) {
                            // skip to the next top-level comma or paren
                            let mut d = 0;
                            loop {
                                let c = p.peek();
                                if c == b'(' {
                                    d += 1;
                                }
                                if c == b')' {
                                    if d == 0 {
                                        break;
                                    }
                                    d -= 1;
                                }
                                if c == b',' && d == 0 {
                                    break;
                                }
                                p.i += 1;
                            }
                        } else {
                            self.skip_attrs_to_val(&mut p);
                            let v = val!(t);
                            args.push(v);
                            tys.push(t);
                        }
                        p.eat(b',');
                    }
                    I::Call(dst, callee, args, tys, rt)
                }
            }
            "extractvalue" => {
                let t = self.ptype(&mut p);
                let a = val!(t);
                let mut ix = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.word().parse().unwrap());
                }
                I::Extract(dst, a, ix)
            }
            "insertvalue" => {
                let t = self.ptype(&mut p);
                let a = val!(t);
                p.expect(b',');
                let t2 = self.ptype(&mut p);
                let v = val!(t2);
                let mut ix = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.word().parse().unwrap());
                }
                I::Insert(dst, a, v, ix)
            }
            "extractelement" => {
                let t = self.ptype(&mut p);
                let a = val!(t);
                p.expect(b',');
                let t2 = self.ptype(&mut p);
                I::ExtElem(dst, a, val!(t2))
            }
            "insertelement" => {
                let t = self.ptype(&mut p);
                let a = val!(t);
                p.expect(b',');
                let t2 = self.ptype(&mut p);
                let v = val!(t2);
                p.expect(b',');
                let t3 = self.ptype(&mut p);
                I::InsElem(dst, a, v, val!(t3))
            }
            "shufflevector" => {
                let t = self.ptype(&mut p);
                let a = val!(t);
                p.expect(b',');
                let t2 = self.ptype(&mut p);
                let c = val!(t2);
                p.expect(b',');
                let t3 = self.ptype(&mut p);
                let mk = self.pconst(&mut p, t3);
                let ix = match mk {
                    V::A(v) => v
                        .iter()
                        .map(|x| match x {
                            V::C(k) => *k as u32,
                            _ => 0,
                        })
                        .collect(),
                    _ => panic!("shuffle mask"),
                };
                let n = match self.types[t as usize] {
                    Ty::Vec(n, _) => n,
                    _ => 0,
                };
                I::Shuffle(dst, a, c, ix, n)
            }
            "phi" => {
                let t = self.ptype(&mut p);
                let mut inc = vec![];
                loop {
                    p.expect(b'[');
                    let v = val!(t);
                    p.expect(b',');
                    p.ws();
                    let n = p.name();
                    let lb = cx.label(n);
                    p.expect(b']');
                    inc.push((lb, v));
                    if !p.eat(b',') || p.peek() != b'[' {
                        break;
                    }
                }
                blocks[b].as_mut().unwrap().phis.push((dst, inc));
                return;
            }
            "br" => {
                if p.peek_word() == "label" {
                    let t = self.plabel(&mut p, cx);
                    I::Br(t)
                } else {
                    let t = self.ptype(&mut p);
                    let c = val!(t);
                    p.expect(b',');
                    let x = self.plabel(&mut p, cx);
                    p.expect(b',');
                    let y = self.plabel(&mut p, cx);
                    I::CondBr(c, x, y)
                }
            }
            "switch" => {
                let t = self.ptype(&mut p);
                let v = val!(t);
                p.expect(b',');
                let d = self.plabel(&mut p, cx);
                p.expect(b'[');
                let mut cases = vec![];
                while !p.eat(b']') {
                    let ct = self.ptype(&mut p);
                    let k = self.cint(&mut p, ct);
                    p.expect(b',');
                    let lb = self.plabel(&mut p, cx);
                    cases.push((k, lb));
                }
                I::Switch(self.width(t), v, d, Rc::new(cases))
            }
            "ret" => {
                let t = self.ptype(&mut p);
                if matches!(self.types[t as usize], Ty::Void) {
                    I::Ret(None)
                } else {
                    I::Ret(Some(val!(t)))
                }
            }
            "unreachable" => I::Unreachable,
            _ => I::Unsup(l.trim().to_string()),
        };
        blocks[b].as_mut().unwrap().ins.push(ins);
    }
}

/// Crude v0 demangling: the identifiers of the path joined with "::".
pub fn short(name: &str) -> String {
    if !name.starts_with("_R") {
        return name.to_string();
    }
    let b = name.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let n: usize = name[i..j].parse().unwrap_or(0);
            let mut st = j;
            if st < b.len() && b[st] == b'_' {
                st += 1;
            }
            if n > 0 && st + n <= b.len() && n < 200 {
                let id = &name[st..st + n];
                out.push(id.to_string());
                i = st + n;
                continue;
            }
            i = j;
        } else if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            // crate root with disambiguator: Cs<base62>_
            let mut j = i + 2;
            while j < b.len() && b[j] != b'_' {
                j += 1;
            }
            i = j + 1;
        } else if b[i] == b's' || b[i] == b'B' {
            // disambiguator s<base62>_ / backref
            let mut j = i + 1;
            while j < b.len() && b[j] != b'_' && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            i = if j < b.len() && b[j] == b'_' { j + 1 } else { i + 1 };
        } else {
            i += 1;
        }
    }
    out.join("::")
}
