//! Hash-consed bit-vector expressions with a light simplifier.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var, // a = var index
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Concat,  // a high, b low
    Extract, // a, lo = b   (width w)
    ZExt,
    SExt,
    Ite,
    Not, // width 1 only
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub type VarSet = [u64; 8];

pub struct Arena {
    pub nodes: Vec<Node>,
    pub umax: Vec<u128>,
    pub vars: Vec<VarSet>,
    map: HashMap<Node, E, BuildFx>,
    pub evmemo: Vec<(u64, u128)>,
    pub epoch: u64,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.write_u64(v as u64)
    }
}
pub type BuildFx = std::hash::BuildHasherDefault<Fx>;

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

/// Concrete semantics, shared by the interpreter, the simplifier and model evaluation.
pub fn conc(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            if b == 0 {
                if sx(a, w) < 0 {
                    1
                } else {
                    m
                }
            } else {
                (sx(a, w).wrapping_div(sx(b, w)) as u128) & m
            }
        }
        Op::SRem => {
            if b == 0 {
                a
            } else {
                (sx(a, w).wrapping_rem(sx(b, w)) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sx(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        _ => panic!("conc {:?}", op),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            umax: vec![],
            vars: vec![],
            map: Default::default(),
            evmemo: vec![],
            epoch: 1,
        };
        a.cst(1, 0);
        a.cst(1, 1);
        a
    }
    pub const FALSE: E = 0;
    pub const TRUE: E = 1;

    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let id = self.nodes.len() as E;
        let m = mask(n.w as u32);
        let um = match n.op {
            Op::Const => n.k,
            Op::ZExt => self.umax[n.a as usize],
            Op::And => self.umax[n.a as usize].min(self.umax[n.b as usize]),
            Op::Ite => self.umax[n.b as usize].max(self.umax[n.c as usize]),
            Op::Add => {
                let s = self.umax[n.a as usize].checked_add(self.umax[n.b as usize]);
                match s {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            Op::Mul => {
                let s = self.umax[n.a as usize].checked_mul(self.umax[n.b as usize]);
                match s {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            Op::Or | Op::Xor => {
                let x = self.umax[n.a as usize] | self.umax[n.b as usize];
                if x == 0 {
                    0
                } else {
                    mask(128 - x.leading_zeros())
                }
            }
            Op::Concat => {
                let lw = self.nodes[n.b as usize].w as u32;
                (self.umax[n.a as usize] << lw) | mask(lw).min(self.umax[n.b as usize] | mask(lw))
            }
            Op::UDiv if self.nodes[n.b as usize].op == Op::Const && self.nodes[n.b as usize].k > 0 => {
                self.umax[n.a as usize] / self.nodes[n.b as usize].k
            }
            Op::URem if self.nodes[n.b as usize].op == Op::Const && self.nodes[n.b as usize].k > 0 => {
                (self.nodes[n.b as usize].k - 1).min(self.umax[n.a as usize])
            }
            Op::LShr => self.umax[n.a as usize],
            _ => m,
        };
        let vs = match n.op {
            Op::Const => [0u64; 8],
            Op::Var => {
                let mut v = [0u64; 8];
                let i = (n.a % 512) as usize;
                v[i / 64] |= 1 << (i % 64);
                v
            }
            _ => {
                let mut v = self.vars[n.a as usize];
                let two = !matches!(n.op, Op::Extract | Op::ZExt | Op::SExt | Op::Not);
                if two {
                    for i in 0..8 {
                        v[i] |= self.vars[n.b as usize][i];
                    }
                }
                if n.op == Op::Ite {
                    for i in 0..8 {
                        v[i] |= self.vars[n.c as usize][i];
                    }
                }
                v
            }
        };
        self.nodes.push(n);
        self.umax.push(um);
        self.vars.push(vs);
        self.evmemo.push((0, 0));
        self.map.insert(n, id);
        id
    }
    fn n(&mut self, op: Op, w: u32, a: E, b: E, c: E) -> E {
        self.intern(Node { op, w: w as u16, a, b, c, k: 0 })
    }
    pub fn cst(&mut self, w: u32, k: u128) -> E {
        self.intern(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, idx: u32, w: u32) -> E {
        self.intern(Node { op: Op::Var, w: w as u16, a: idx, b: 0, c: 0, k: 0 })
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn k(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn nd(&self, e: E) -> Node {
        self.nodes[e as usize]
    }

    pub fn not(&mut self, a: E) -> E {
        let n = self.nd(a);
        debug_assert!(n.w == 1);
        match n.op {
            Op::Const => {
                if n.k == 0 {
                    Self::TRUE
                } else {
                    Self::FALSE
                }
            }
            Op::Not => n.a,
            _ => self.n(Op::Not, 1, a, 0, 0),
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.k(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let cn = self.nd(c);
        if cn.op == Op::Not {
            return self.ite(cn.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            if a == Self::TRUE && b == Self::FALSE {
                return c;
            }
            if a == Self::FALSE && b == Self::TRUE {
                return self.not(c);
            }
            if a == Self::TRUE {
                return self.bin(Op::Or, c, b);
            }
            if b == Self::FALSE {
                return self.bin(Op::And, c, a);
            }
            if a == Self::FALSE {
                let nc = self.not(c);
                return self.bin(Op::And, nc, b);
            }
            if b == Self::TRUE {
                let nc = self.not(c);
                return self.bin(Op::Or, nc, a);
            }
        }
        let an = self.nd(a);
        if an.op == Op::Ite && an.a == c {
            return self.ite(c, an.b, b);
        }
        let bn = self.nd(b);
        if bn.op == Op::Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        self.n(Op::Ite, w, c, a, b)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.nd(a);
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Op::Const => self.cst(w, n.k),
            Op::ZExt => self.zext(n.a, w),
            _ => self.n(Op::ZExt, w, a, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.nd(a);
        if n.w as u32 == w {
            return a;
        }
        if let Op::Const = n.op {
            return self.cst(w, sx(n.k, n.w as u32) as u128);
        }
        if self.umax[a as usize] <= mask(n.w as u32 - 1) {
            return self.zext(a, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.n(Op::SExt, w, a, 0, 0)
    }
    pub fn extract(&mut self, a: E, hi: u32, lo: u32) -> E {
        let n = self.nd(a);
        let w = hi - lo + 1;
        debug_assert!(hi < n.w as u32);
        if w == n.w as u32 {
            return a;
        }
        match n.op {
            Op::Const => return self.cst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, hi + n.b, lo + n.b),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, hi - lw, lo - lw);
                }
                if hi < lw {
                    return self.extract(n.b, hi, lo);
                }
                let h = self.extract(n.a, hi - lw, 0);
                let l = self.extract(n.b, lw - 1, lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(w, 0);
                }
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                let l = self.extract(n.a, iw - 1, lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                if lo < iw {
                    let l = self.extract(n.a, iw - 1, lo);
                    return self.sext(l, w);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, hi, 0);
                let y = self.extract(n.b, hi, 0);
                return self.bin(n.op, x, y);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let bk = self.k(n.b).is_some();
                let ck = self.k(n.c).is_some();
                if bk || ck {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        if self.umax[a as usize] >> lo == 0 {
            return self.cst(w, 0);
        }
        self.n(Op::Extract, w, a, lo, 0)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let hn = self.nd(h);
        let ln = self.nd(l);
        let w = hn.w as u32 + ln.w as u32;
        if hn.op == Op::Const {
            if ln.op == Op::Const {
                return self.cst(w, (hn.k << ln.w) | ln.k);
            }
            if hn.k == 0 {
                return self.zext(l, w);
            }
            // const ++ (const ++ x)
            if ln.op == Op::Concat {
                if let Some(k2) = self.k(ln.a) {
                    let aw = self.w(ln.a);
                    let kk = self.cst(hn.w as u32 + aw, (hn.k << aw) | k2);
                    return self.concat(kk, ln.b);
                }
            }
        }
        if hn.op == Op::Extract {
            if ln.op == Op::Extract && ln.a == hn.a && ln.b + ln.w as u32 == hn.b {
                return self.extract(hn.a, hn.b + hn.w as u32 - 1, ln.b);
            }
            if ln.op == Op::Concat {
                let la = self.nd(ln.a);
                if la.op == Op::Extract && la.a == hn.a && la.b + la.w as u32 == hn.b {
                    let m = self.extract(hn.a, hn.b + hn.w as u32 - 1, la.b);
                    return self.concat(m, ln.b);
                }
                // low part is a whole narrower value ending at hn.b
                if ln.a == hn.a && hn.b == self.w(ln.a) {}
            }
        }
        // zext(x) ++ l  -> zext(x ++ l)
        if hn.op == Op::ZExt {
            let c = self.concat(hn.a, l);
            return self.zext(c, w);
        }
        // ite with the same condition on both sides
        if hn.op == Op::Ite && ln.op == Op::Ite && hn.a == ln.a {
            let x = self.concat(hn.b, ln.b);
            let y = self.concat(hn.c, ln.c);
            return self.ite(hn.a, x, y);
        }
        self.n(Op::Concat, w, h, l, 0)
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let mut a = a;
        let mut b = b;
        let w = self.w(a);
        debug_assert!(w == self.w(b), "{:?} {} {}", op, w, self.w(b));
        let m = mask(w);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            let r = conc(op, w, x, y);
            let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
            return self.cst(rw, r);
        }
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if self.k(a).is_some() || (self.k(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let kb = self.k(b);
        let an = self.nd(a);
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if an.op == Op::Add {
                        if let Some(k2) = self.k(an.b) {
                            let c = self.cst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, an.a, c);
                        }
                    }
                } else if an.op == Op::Add {
                    if let Some(_) = self.k(an.b) {
                        let s = self.bin(Op::Add, an.a, b);
                        return self.bin(Op::Add, s, an.b);
                    }
                } else {
                    let bn = self.nd(b);
                    if bn.op == Op::Add {
                        if let Some(_) = self.k(bn.b) {
                            let s = self.bin(Op::Add, a, bn.a);
                            return self.bin(Op::Add, s, bn.b);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(k) = kb {
                    let c = self.cst(w, (0u128).wrapping_sub(k));
                    return self.bin(Op::Add, a, c);
                }
                if an.op == Op::Add {
                    if an.a == b {
                        return an.b;
                    }
                    if an.b == b {
                        return an.a;
                    }
                    if self.k(an.b).is_some() {
                        let bn = self.nd(b);
                        if bn.op == Op::Add && bn.a == an.a && self.k(bn.b).is_some() {
                            return self.bin(Op::Sub, an.b, bn.b);
                        }
                    }
                }
                let bn = self.nd(b);
                if bn.op == Op::Add && bn.a == a {
                    let z = self.cst(w, 0);
                    return self.bin(Op::Sub, z, bn.b);
                }
            }
            Op::Mul => {
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let c = self.cst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, c);
                    }
                }
            }
            Op::UDiv => {
                if let Some(k) = kb {
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let c = self.cst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, c);
                    }
                    if k != 0 && self.umax[a as usize] < k {
                        return self.cst(w, 0);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let c = self.cst(w, k - 1);
                        return self.bin(Op::And, a, c);
                    }
                    if k != 0 && self.umax[a as usize] < k {
                        return a;
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    if (k & (k + 1)) == 0 {
                        let bits = 128 - k.leading_zeros();
                        let x = self.extract(a, bits - 1, 0);
                        return self.zext(x, w);
                    }
                    // single contiguous high/any mask: keep pieces exact
                    if k.is_power_of_two() {
                        let p = k.trailing_zeros();
                        let x = self.extract(a, p, p);
                        let z = self.zext(x, w);
                        let c = self.cst(w, p as u128);
                        return self.bin(Op::Shl, z, c);
                    }
                    if an.op == Op::And {
                        if let Some(k2) = self.k(an.b) {
                            let c = self.cst(w, k & k2);
                            return self.bin(Op::And, an.a, c);
                        }
                    }
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return Self::FALSE;
                    }
                    let bn = self.nd(b);
                    if bn.op == Op::And && (bn.a == a || bn.b == a) {
                        return b;
                    }
                    if an.op == Op::And && (an.a == b || an.b == b) {
                        return a;
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return Self::TRUE;
                    }
                } else if kb.is_none() {
                    // disjoint pieces: (x ++ 0s) | zext(y)
                    for (p, q) in [(a, b), (b, a)] {
                        let pn = self.nd(p);
                        if pn.op == Op::Concat && self.k(pn.b) == Some(0) {
                            let lw = self.w(pn.b);
                            if self.umax[q as usize] <= mask(lw) {
                                let l = self.extract(q, lw - 1, 0);
                                return self.concat(pn.a, l);
                            }
                        }
                        if pn.op == Op::ZExt {
                            let inner = self.nd(pn.a);
                            if inner.op == Op::Concat && self.k(inner.b) == Some(0) {
                                let lw = self.w(inner.b);
                                if self.umax[q as usize] <= mask(lw) {
                                    let l = self.extract(q, lw - 1, 0);
                                    let c = self.concat(inner.a, l);
                                    return self.zext(c, w);
                                }
                            }
                        }
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if kb == Some(0) {
                    return a;
                }
                if w == 1 && kb == Some(1) {
                    return self.not(a);
                }
                if kb.is_some() && an.op == Op::Xor {
                    if let Some(k2) = self.k(an.b) {
                        let c = self.cst(w, kb.unwrap() ^ k2);
                        return self.bin(Op::Xor, an.a, c);
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let k = k as u32;
                    let l = self.cst(k, 0);
                    let h = self.extract(a, w - 1 - k, 0);
                    return self.concat(h, l);
                }
            }
            Op::LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let h = self.extract(a, w - 1, k as u32);
                    return self.zext(h, w);
                }
            }
            Op::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = (k as u32).min(w - 1);
                    let h = self.extract(a, w - 1, k);
                    return self.sext(h, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return Self::TRUE;
                }
                if let Some(k) = kb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    if k > self.umax[a as usize] {
                        return Self::FALSE;
                    }
                    match an.op {
                        Op::ZExt => {
                            let iw = self.w(an.a);
                            if k > mask(iw) {
                                return Self::FALSE;
                            }
                            let c = self.cst(iw, k);
                            return self.bin(Op::Eq, an.a, c);
                        }
                        Op::SExt => {
                            let iw = self.w(an.a);
                            let t = k & mask(iw);
                            if (sx(t, iw) as u128) & m != k {
                                return Self::FALSE;
                            }
                            let c = self.cst(iw, t);
                            return self.bin(Op::Eq, an.a, c);
                        }
                        Op::Concat => {
                            let lw = self.w(an.b);
                            let hc = self.cst(w - lw, k >> lw);
                            let lc = self.cst(lw, k);
                            let x = self.bin(Op::Eq, an.a, hc);
                            let y = self.bin(Op::Eq, an.b, lc);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Add => {
                            if let Some(k2) = self.k(an.b) {
                                let c = self.cst(w, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, an.a, c);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.k(an.b) {
                                let c = self.cst(w, k ^ k2);
                                return self.bin(Op::Eq, an.a, c);
                            }
                        }
                        Op::Ite => {
                            if self.k(an.b).is_some() || self.k(an.c).is_some() {
                                let x = self.bin(Op::Eq, an.b, b);
                                let y = self.bin(Op::Eq, an.c, b);
                                return self.ite(an.a, x, y);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let bn = self.nd(b);
                    if an.op == Op::ZExt && bn.op == Op::ZExt {
                        let wa = self.w(an.a);
                        let wb = self.w(bn.a);
                        let mw = wa.max(wb);
                        let x = self.zext(an.a, mw);
                        let y = self.zext(bn.a, mw);
                        return self.bin(Op::Eq, x, y);
                    }
                    if an.op == Op::Concat && bn.op == Op::Concat && self.w(an.b) == self.w(bn.b) {
                        let x = self.bin(Op::Eq, an.a, bn.a);
                        let y = self.bin(Op::Eq, an.b, bn.b);
                        return self.bin(Op::And, x, y);
                    }
                    if an.op == Op::Add && bn.op == Op::Add && an.b == bn.b {
                        return self.bin(Op::Eq, an.a, bn.a);
                    }
                    if w == 1 {
                        let x = self.bin(Op::Xor, a, b);
                        return self.not(x);
                    }
                }
                return self.n(Op::Eq, 1, a, b, 0);
            }
            Op::Ult => {
                if a == b {
                    return Self::FALSE;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return Self::FALSE;
                    }
                    if self.umax[a as usize] < k {
                        return Self::TRUE;
                    }
                    if k == 1 {
                        let z = self.cst(w, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                    if an.op == Op::ZExt {
                        let iw = self.w(an.a);
                        let c = self.cst(iw, k); // k <= mask(iw) because umax >= k
                        return self.bin(Op::Ult, an.a, c);
                    }
                    if an.op == Op::Ite && self.k(an.b).is_some() && self.k(an.c).is_some() {
                        let x = self.bin(Op::Ult, an.b, b);
                        let y = self.bin(Op::Ult, an.c, b);
                        return self.ite(an.a, x, y);
                    }
                    if an.op == Op::Concat {
                        let lw = self.w(an.b);
                        if k & mask(lw) == 0 {
                            let c = self.cst(w - lw, k >> lw);
                            return self.bin(Op::Ult, an.a, c);
                        }
                    }
                }
                if let Some(k) = self.k(a) {
                    if k == m || self.umax[b as usize] <= k {
                        return Self::FALSE;
                    }
                    let bn = self.nd(b);
                    if k == 0 {
                        let e = self.bin(Op::Eq, b, a);
                        return self.not(e);
                    }
                    if bn.op == Op::ZExt {
                        let iw = self.w(bn.a);
                        let c = self.cst(iw, k);
                        return self.bin(Op::Ult, c, bn.a);
                    }
                    if bn.op == Op::Ite && self.k(bn.b).is_some() && self.k(bn.c).is_some() {
                        let x = self.bin(Op::Ult, a, bn.b);
                        let y = self.bin(Op::Ult, a, bn.c);
                        return self.ite(bn.a, x, y);
                    }
                }
                let bn = self.nd(b);
                if an.op == Op::ZExt && bn.op == Op::ZExt {
                    let mw = self.w(an.a).max(self.w(bn.a));
                    if mw < w {
                        let x = self.zext(an.a, mw);
                        let y = self.zext(bn.a, mw);
                        return self.bin(Op::Ult, x, y);
                    }
                }
                return self.n(Op::Ult, 1, a, b, 0);
            }
            Op::Slt => {
                if a == b {
                    return Self::FALSE;
                }
                let h = mask(w - 1);
                if w > 1 && self.umax[a as usize] <= h && self.umax[b as usize] <= h {
                    return self.bin(Op::Ult, a, b);
                }
                if kb == Some(0) {
                    return self.extract(a, w - 1, w - 1);
                }
                if self.k(a) == Some(m) {
                    // -1 < b  <=>  b >= 0
                    let s = self.extract(b, w - 1, w - 1);
                    return self.not(s);
                }
                return self.n(Op::Slt, 1, a, b, 0);
            }
            _ => {}
        }
        self.n(op, w, a, b, 0)
    }

    /// number of low bits known to be zero
    pub fn low_zeros(&self, e: E) -> u32 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => {
                if n.k == 0 {
                    n.w as u32
                } else {
                    n.k.trailing_zeros()
                }
            }
            Op::ZExt | Op::SExt => self.low_zeros(n.a),
            Op::Concat => {
                let l = self.low_zeros(n.b);
                if l == self.w(n.b) {
                    l + self.low_zeros(n.a)
                } else {
                    l
                }
            }
            Op::Add | Op::Sub | Op::Or => self.low_zeros(n.a).min(self.low_zeros(n.b)),
            Op::Mul => self.low_zeros(n.a) + self.low_zeros(n.b),
            Op::Ite => self.low_zeros(n.b).min(self.low_zeros(n.c)),
            _ => 0,
        }
    }

    /// Balanced multiplexer: value of vals[idx]; idx assumed < vals.len().
    pub fn mux(&mut self, idx: E, vals: &[E]) -> E {
        if vals.len() == 1 || vals.iter().all(|v| *v == vals[0]) {
            return vals[0];
        }
        let bits = 128 - ((vals.len() - 1) as u128).leading_zeros();
        let b = bits - 1;
        let half = 1usize << b;
        let (lo, hi) = vals.split_at(half.min(vals.len()));
        let l = self.mux(idx, lo);
        let h = self.mux(idx, hi);
        if b >= self.w(idx) {
            return l;
        }
        let c = self.extract(idx, b, b);
        self.ite(c, h, l)
    }

    pub fn eval(&mut self, e: E, m: &dyn Fn(u32) -> u128) -> u128 {
        self.epoch += 1;
        self.ev(e, m)
    }
    /// evaluation within the current memo epoch
    pub fn ev_pub(&mut self, e: E, m: &dyn Fn(u32) -> u128) -> u128 {
        self.ev(e, m)
    }
    fn ev(&mut self, e: E, m: &dyn Fn(u32) -> u128) -> u128 {
        let n = self.nodes[e as usize];
        if n.op == Op::Const {
            return n.k;
        }
        let (ep, v) = self.evmemo[e as usize];
        if ep == self.epoch {
            return v;
        }
        let r = match n.op {
            Op::Const => n.k,
            Op::Var => m(n.a) & mask(n.w as u32),
            Op::Not => 1 - self.ev(n.a, m),
            Op::ZExt => self.ev(n.a, m),
            Op::SExt => {
                let iw = self.w(n.a);
                (sx(self.ev(n.a, m), iw) as u128) & mask(n.w as u32)
            }
            Op::Extract => (self.ev(n.a, m) >> n.b) & mask(n.w as u32),
            Op::Concat => {
                let lw = self.w(n.b);
                let h = self.ev(n.a, m);
                let l = self.ev(n.b, m);
                (h << lw) | l
            }
            Op::Ite => {
                if self.ev(n.a, m) != 0 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            op => {
                let w = self.w(n.a);
                let x = self.ev(n.a, m);
                let y = self.ev(n.b, m);
                conc(op, w, x, y)
            }
        };
        self.evmemo[e as usize] = (self.epoch, r);
        r
    }
}
