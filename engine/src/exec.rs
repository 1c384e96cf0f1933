//! Path-wise symbolic execution of linked LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    Nop,
    Zero,
    Panic,
    Trap,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Umin,
    Umax,
    Smin,
    Smax,
    Abs,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    Fshl,
    Fshr,
    Ucmp,
    Scmp,
    Ident,
    Assume,
    LoadRel,
    FmtWrite,
    RandKeys,
    SymU,
    SymBytes,
    SymChoice,
    SymConc,
    SymAssume,
    SymCheck,
    Unavailable,
    SymCover,
    SymObserve,
    SymFail,
    SymStepLimit,
    Unsup,
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub blk: u32,
    pub ip: u32,
    pub dst: u32, // destination register in the caller
    pub regs: Vec<V>,
    pub allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub known: Rc<HashMap<E, u128, BuildFx>>,
    pub model: Rc<Vec<u128>>,
    pub widths: Rc<Vec<u8>>,
    pub inputs: Rc<Vec<(u32, V)>>,
    pub obs: Rc<Vec<V>>,
    pub covers: Rc<BTreeSet<u64>>,
    pub steps: u64,
    pub limit: u64,
    pub depth: u32,
}

pub enum End {
    Done,
    Infeasible,
    Violation(String, String),
    Unsup(String),
    Unknown,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(u32, u128)>,
    pub obs: Vec<u128>,
    pub count: u64,
}

#[derive(Default)]
pub struct Out {
    pub done: u64,
    pub infeasible: u64,
    pub violating: u64,
    pub branches: u64,
    pub forks: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub complete: bool,
    pub why_incomplete: BTreeMap<String, u64>,
    pub viols: BTreeMap<String, Viol>,
    pub covers: BTreeMap<u64, u64>,
    pub samples: Vec<(Vec<(u32, u128)>, Vec<u128>)>,
    pub seen_samples: u64,
    pub checks: u64,
    pub symchecks: u64,
}

pub struct Cfg {
    pub nofmt: bool,
    pub step_limit: u64,
    pub max_samples: usize,
    pub mux_limit: u64,
    pub trace: bool,
}

pub struct Engine {
    pub m: Rc<Module>,
    pub ar: Arena,
    pub sv: Solver,
    pub builtin: Vec<Option<B>>,
    pub globs: BTreeMap<u64, Rc<Obj>>,
    pub work: Vec<State>,
    pub out: Out,
    pub cfg: Cfg,
    pub fcount: Vec<u64>,
    pub bcov: Vec<Vec<bool>>,
    pub deadline: Instant,
}

type R<T> = Result<T, End>;

fn classify(name: &str, cfg: &Cfg, defined: bool) -> Option<B> {
    let s = name;
    if let Some(r) = s.strip_prefix("llvm.") {
        let b = if r.starts_with("memcpy") || r.starts_with("memmove") {
            B::Memcpy
        } else if r.starts_with("memset") {
            B::Memset
        } else if r.starts_with("assume") {
            B::Assume
        } else if r.starts_with("lifetime") || r.starts_with("experimental.noalias") || r.starts_with("dbg") || r.starts_with("x86.sse2.pause") || r.starts_with("prefetch") || r.starts_with("invariant") || r.starts_with("donothing") || r.starts_with("sideeffect") || r.starts_with("pseudoprobe") {
            B::Nop
        } else if r.starts_with("is.constant") || r.starts_with("frameaddress") || r.starts_with("returnaddress") {
            B::Zero
        } else if r.starts_with("expect") || r.starts_with("threadlocal.address") || r.starts_with("launder") || r.starts_with("strip.invariant") || r.starts_with("ssa.copy") {
            B::Ident
        } else if r.starts_with("trap") || r.starts_with("ubsantrap") || r.starts_with("debugtrap") {
            B::Trap
        } else if r.starts_with("ctlz") {
            B::Ctlz
        } else if r.starts_with("cttz") {
            B::Cttz
        } else if r.starts_with("ctpop") {
            B::Ctpop
        } else if r.starts_with("bswap") {
            B::Bswap
        } else if r.starts_with("bitreverse") {
            B::Bitrev
        } else if r.starts_with("umin") {
            B::Umin
        } else if r.starts_with("umax") {
            B::Umax
        } else if r.starts_with("smin") {
            B::Smin
        } else if r.starts_with("smax") {
            B::Smax
        } else if r.starts_with("abs") {
            B::Abs
        } else if r.starts_with("uadd.sat") {
            B::UaddSat
        } else if r.starts_with("usub.sat") {
            B::UsubSat
        } else if r.starts_with("sadd.sat") {
            B::SaddSat
        } else if r.starts_with("ssub.sat") {
            B::SsubSat
        } else if r.starts_with("uadd.with") {
            B::UaddO
        } else if r.starts_with("usub.with") {
            B::UsubO
        } else if r.starts_with("umul.with") {
            B::UmulO
        } else if r.starts_with("sadd.with") {
            B::SaddO
        } else if r.starts_with("ssub.with") {
            B::SsubO
        } else if r.starts_with("smul.with") {
            B::SmulO
        } else if r.starts_with("fshl") {
            B::Fshl
        } else if r.starts_with("fshr") {
            B::Fshr
        } else if r.starts_with("ucmp") {
            B::Ucmp
        } else if r.starts_with("scmp") {
            B::Scmp
        } else if r.starts_with("load.relative") {
            B::LoadRel
        } else {
            B::Unsup
        };
        return Some(b);
    }
    let b = match s {
        "memcpy" | "memmove" => B::Memcpy,
        "memset" => B::Memset,
        "memcmp" => B::Memcmp,
        "bcmp" => B::Bcmp,
        "strlen" => B::Strlen,
        "getenv" => B::Zero,
        "gettid" | "getpid" => B::Zero,
        "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" => B::Zero,
        "abort" => B::Trap,
        "sym_u8" | "sym_u16" | "sym_u32" | "sym_u64" | "sym_bool" => B::SymU,
        "sym_bytes" => B::SymBytes,
        "sym_choice" => B::SymChoice,
        "sym_concretize" => B::SymConc,
        "sym_assume" => B::SymAssume,
        "sym_check" => B::SymCheck,
        "ruq_verif_unavailable" => B::Unavailable,
        "sym_cover" => B::SymCover,
        "sym_observe" => B::SymObserve,
        "sym_fail" => B::SymFail,
        "sym_step_limit" => B::SymStepLimit,
        _ => {
            if s.contains("4core9panicking") {
                B::Panic
            } else if s.ends_with("12___rust_alloc") {
                B::Alloc
            } else if s.ends_with("19___rust_alloc_zeroed") {
                B::AllocZ
            } else if s.ends_with("14___rust_dealloc") {
                B::Dealloc
            } else if s.ends_with("14___rust_realloc") {
                B::Realloc
            } else if s.contains("___rust_no_alloc_shim_is_unstable") {
                B::Nop
            } else if s.contains("hashmap_random_keys") {
                B::RandKeys
            } else if s.contains("17rust_begin_unwind") || s.contains("20rust_panic_with_hook") || s.contains("18___rust_start_panic") {
                B::Panic
            } else if cfg.nofmt && s.starts_with("_RNvNt") && s.ends_with("4core3fmt5write") {
                B::FmtWrite
            } else if !defined {
                B::Unsup
            } else {
                return None;
            }
        }
    };
    Some(b)
}

impl Engine {
    pub fn new(m: Module, cfg: Cfg, deadline: Instant) -> Engine {
        let builtin = m.funcs.iter().map(|f| classify(&f.name, &cfg, f.defined)).collect();
        let mut globs = BTreeMap::new();
        for g in &m.globals {
            if g.size > 0 {
                globs.insert(g.addr, Rc::new(Obj::from_bytes(g.addr, &g.init, g.constant)));
            }
        }
        let fcount = vec![0; m.funcs.len()];
        let bcov = m.funcs.iter().map(|f| vec![false; f.blocks.len()]).collect();
        Engine { m: Rc::new(m), ar: Arena::new(), sv: Solver::new(), builtin, globs, work: vec![], out: Out { complete: true, ..Default::default() }, cfg, fcount, bcov, deadline }
    }

    pub fn init(&mut self, entry: &str) -> State {
        let f = *self.m.fnidx.get(entry).unwrap_or_else(|| {
            eprintln!("symir: no entry {}", entry);
            std::process::exit(3)
        });
        let top = self.frame(f, vec![], u32::MAX);
        State {
            top,
            stack: vec![],
            mem: Mem::new(),
            pc: vec![],
            known: Default::default(),
            model: Default::default(),
            widths: Default::default(),
            inputs: Default::default(),
            obs: Default::default(),
            covers: Default::default(),
            steps: 0,
            limit: self.cfg.step_limit,
            depth: 0,
        }
    }
    fn frame(&mut self, f: u32, args: Vec<V>, dst: u32) -> Frame {
        let fun = &self.m.funcs[f as usize];
        self.fcount[f as usize] += 1;
        self.bcov[f as usize][0] = true;
        let mut regs = vec![V::C(0); fun.nregs as usize];
        for (v, (r, _)) in args.into_iter().zip(fun.params.iter()) {
            regs[*r as usize] = v;
        }
        Frame { f, blk: 0, ip: 0, dst, regs, allocas: vec![] }
    }

    // ---- expressions -------------------------------------------------------
    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(k) => self.ar.cst(w, *k),
            V::S(e) => *e,
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> V {
        match self.ar.k(e) {
            Some(k) => V::C(k),
            None => V::S(e),
        }
    }
    fn bin(&mut self, op: Op, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(conc(op, w, *x, *y));
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = self.ar.bin(op, x, y);
        self.v(r)
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        let (op, sw, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ult, false, true),
            Pred::Ule => (Op::Ult, true, true),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Slt, false, true),
            Pred::Sle => (Op::Slt, true, true),
        };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(conc(op, w, *x, *y) ^ neg as u128);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let mut r = self.ar.bin(op, x, y);
        if neg {
            r = self.ar.not(r);
        }
        self.v(r)
    }
    fn cast(&mut self, k: CastK, fw: u32, tw: u32, a: &V) -> V {
        match a {
            V::C(x) => V::C(match k {
                CastK::Trunc => *x & mask(tw),
                CastK::ZExt => *x,
                CastK::SExt => (sx(*x, fw) as u128) & mask(tw),
            }),
            V::S(e) => {
                let r = match k {
                    CastK::Trunc => self.ar.extract(*e, tw - 1, 0),
                    CastK::ZExt => self.ar.zext(*e, tw),
                    CastK::SExt => self.ar.sext(*e, tw),
                };
                self.v(r)
            }
            _ => panic!("cast agg"),
        }
    }
    fn lanes(v: &V) -> Rc<Vec<V>> {
        match v {
            V::A(x) => x.clone(),
            _ => panic!("vector expected"),
        }
    }
    fn eval(&mut self, st: &State, e: E) -> u128 {
        let m = st.model.clone();
        self.ar.eval(e, &|i| *m.get(i as usize).unwrap_or(&0))
    }
    pub fn evalv(&mut self, st: &State, v: &V) -> u128 {
        match v {
            V::C(k) => *k,
            V::S(e) => self.eval(st, *e),
            V::A(_) => 0,
        }
    }

    // ---- path constraints --------------------------------------------------
    fn add(&mut self, st: &mut State, c: E) {
        if c == Arena::TRUE {
            return;
        }
        let n = self.ar.nodes[c as usize];
        match n.op {
            Op::And => {
                self.add(st, n.a);
                self.add(st, n.b);
                return;
            }
            Op::Not => {
                let i = self.ar.nodes[n.a as usize];
                if i.op == Op::Or {
                    let x = self.ar.not(i.a);
                    let y = self.ar.not(i.b);
                    self.add(st, x);
                    self.add(st, y);
                    return;
                }
            }
            _ => {}
        }
        if st.known.get(&c) == Some(&1) {
            return;
        }
        let kn = Rc::make_mut(&mut st.known);
        kn.insert(c, 1);
        let nc = self.ar.not(c);
        kn.insert(nc, 0);
        if n.op == Op::Eq {
            if let Some(k) = self.ar.k(n.b) {
                kn.insert(n.a, k);
            } else if let Some(k) = self.ar.k(n.a) {
                kn.insert(n.b, k);
            }
        }
        st.pc.push(c);
    }
    fn overlay(&self, st: &State, vals: &[(u32, u128)]) -> Rc<Vec<u128>> {
        let mut m = (*st.model).clone();
        for (i, v) in vals {
            while m.len() <= *i as usize {
                m.push(0);
            }
            m[*i as usize] = *v;
        }
        Rc::new(m)
    }
    fn sat(&mut self, st: &State, q: E) -> Res {
        let w = st.widths.clone();
        let m = st.model.clone();
        self.sv.check(&mut self.ar, &st.pc, q, &w, &m)
    }
    fn push(&mut self, mut alt: State, c: E, vals: &[(u32, u128)]) {
        alt.model = self.overlay(&alt, vals);
        self.add(&mut alt, c);
        self.out.forks += 1;
        self.work.push(alt);
    }
    /// Decide a branch; the other feasible side is queued and will re-execute the current instruction.
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.ar.k(c) {
            return Ok(k != 0);
        }
        if let Some(k) = st.known.get(&c) {
            return Ok(*k != 0);
        }
        self.out.branches += 1;
        let side = self.eval(st, c) != 0;
        let (this, other) = if side { (c, self.ar.not(c)) } else { (self.ar.not(c), c) };
        match self.sat(st, other) {
            Res::Unsat => {
                let kn = Rc::make_mut(&mut st.known);
                kn.insert(this, 1);
                kn.insert(other, 0);
            }
            Res::Sat(vals) => {
                let alt = st.clone();
                self.push(alt, other, &vals);
                self.add(st, this);
            }
            Res::Unknown => return Err(End::Unknown),
        }
        Ok(side)
    }
    fn branchv(&mut self, st: &mut State, v: &V) -> R<bool> {
        match v {
            V::C(k) => Ok(*k != 0),
            V::S(e) => self.branch(st, *e),
            _ => panic!("branch agg"),
        }
    }
    /// Pick one value for an expression, queueing a state for the remaining ones.
    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> R<u128> {
        let e = match v {
            V::C(k) => return Ok(*k),
            V::S(e) => *e,
            _ => panic!("conc agg"),
        };
        if let Some(k) = st.known.get(&e) {
            return Ok(*k);
        }
        let k = self.eval(st, e);
        let kc = self.ar.cst(w, k);
        let eq = self.ar.bin(Op::Eq, e, kc);
        if eq == Arena::TRUE {
            return Ok(k);
        }
        // the current model satisfies eq, so branch() takes that side
        let b = self.branch(st, eq)?;
        debug_assert!(b);
        let kn = Rc::make_mut(&mut st.known);
        kn.insert(e, k);
        Ok(k)
    }

    // ---- memory ------------------------------------------------------------
    /// The size of a new block, or an upper bound and the expression for a size of many possible values; None: no memory.
    fn alloc_size(&mut self, st: &mut State, v: &V) -> R<Option<(u64, E)>> {
        const MANY: u128 = 48;
        const MAX: u128 = 1 << 30;
        if let V::S(e) = v {
            let k = self.ar.cst(64, MANY - 1);
            let many = self.ar.bin(Op::Ult, k, *e);
            if !st.known.contains_key(e) && self.ar.umax[*e as usize] >= MANY {
                let can = self.eval(st, many) != 0
                    || match self.sat(st, many) {
                        Res::Sat(_) => true,
                        Res::Unsat => false,
                        Res::Unknown => return Err(End::Unknown),
                    };
                if can {
                    let mx = self.ar.cst(64, MAX + 1);
                    let fits = self.ar.bin(Op::Ult, *e, mx);
                    if !self.branch(st, fits)? {
                        return Ok(None);
                    }
                    if !st.known.contains_key(e) {
                        return Ok(Some((self.ar.umax[*e as usize].min(MAX) as u64, *e)));
                    }
                }
            }
        }
        let n = self.conc(st, v, 64)? as u64;
        if n as u128 > MAX {
            return Ok(None);
        }
        Ok(Some((n, 0)))
    }
    fn find(&self, st: &State, a: u64) -> Option<Rc<Obj>> {
        if let Some(o) = st.mem.find(a) {
            return Some(o.clone());
        }
        if a < 0x1_0000_0000 {
            let (_, o) = self.globs.range(..=a).next_back()?;
            if a - o.base < o.size {
                return Some(o.clone());
            }
        }
        None
    }
    fn oob(&self, what: &str, a: u64, n: u64) -> End {
        End::Violation("memory".into(), format!("{} of {} bytes outside any live object (address {:#x})", what, n, a))
    }
    fn obj_r(&mut self, st: &mut State, a: u64, n: u64, what: &str) -> R<Rc<Obj>> {
        match self.find(st, a) {
            Some(o) if a - o.base + n <= o.size => {
                if o.sym != 0 && a - o.base + n > o.lo {
                    self.sym_size(st, &o, a, n, what)?;
                }
                Ok(o)
            }
            _ => Err(self.oob(what, a, n)),
        }
    }
    /// an access to an object of symbolic size: always within it?
    fn sym_size(&mut self, st: &mut State, o: &Rc<Obj>, a: u64, n: u64, what: &str) -> R<()> {
        let end = a - o.base + n;
        let k = self.ar.cst(64, end as u128);
        let short = self.ar.bin(Op::Ult, o.sym, k);
        if self.branch(st, short)? {
            return Err(self.oob(what, a, n));
        }
        if let Some(o) = st.mem.find_mut(a) {
            o.lo = end;
        }
        Ok(())
    }
    fn obj_w<'a>(&mut self, st: &'a mut State, a: u64, n: u64) -> R<&'a mut Obj> {
        if a < 0x1_0000_0000 && st.mem.find(a).is_none() {
            match self.find(st, a) {
                Some(o) if !o.ro => st.mem.insert((*o).clone()),
                Some(_) => return Err(End::Violation("memory".into(), "write to constant memory".into())),
                None => return Err(self.oob("write", a, n)),
            }
        }
        let sym = match st.mem.find(a) {
            Some(o) if a - o.base + n <= o.size => {
                if o.sym != 0 && a - o.base + n > o.lo {
                    Some(o.clone())
                } else {
                    None
                }
            }
            _ => return Err(self.oob("write", a, n)),
        };
        if let Some(o) = sym {
            self.sym_size(st, &o, a, n, "write")?;
        }
        Ok(st.mem.find_mut(a).unwrap())
    }
    fn addr(&mut self, st: &mut State, v: &V) -> R<u64> {
        Ok(self.conc(st, v, 64)? as u64)
    }
    fn read_int(&mut self, o: &Obj, off: usize, w: u32) -> V {
        let n = ((w + 7) / 8) as usize;
        if let Some(k) = o.fast(off, n) {
            return V::C(k & mask(w));
        }
        let mut r: Option<E> = None;
        for k in 0..n {
            let (d, s) = o.byte(off + k);
            let b = if s != 0 { s } else { self.ar.cst(8, d as u128) };
            r = Some(match r {
                None => b,
                Some(l) => self.ar.concat(b, l),
            });
        }
        let mut r = r.unwrap();
        if (n * 8) as u32 != w {
            r = self.ar.extract(r, w - 1, 0);
        }
        self.v(r)
    }
    fn subst(&self, st: &State, v: V) -> V {
        if let V::S(e) = v {
            if let Some(k) = st.known.get(&e) {
                return V::C(*k);
            }
        }
        v
    }
    fn load(&mut self, st: &mut State, t: TyId, p: &V) -> R<V> {
        let m = self.m.clone();
        match &m.types[t as usize] {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = m.width(t);
                let n = ((w + 7) / 8) as u64;
                if let V::S(pe) = p {
                    if !st.known.contains_key(pe) {
                        return self.load_sym(st, *pe, w, n);
                    }
                }
                let a = self.addr(st, p)?;
                let o = self.obj_r(st, a, n, "read")?;
                let v = self.read_int(&o, (a - o.base) as usize, w);
                Ok(self.subst(st, v))
            }
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let a = self.addr(st, p)?;
                let n = match &m.types[t as usize] {
                    Ty::Struct(f, _) => f.len(),
                    Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
                    _ => 0,
                };
                if let Ty::Vec(_, et) = &m.types[t as usize] {
                    if m.width(*et) % 8 != 0 {
                        return Err(End::Unsup("load of sub-byte vector".into()));
                    }
                }
                let mut r = vec![];
                for i in 0..n {
                    let (o, et) = m.field_off(t, i);
                    r.push(self.load(st, et, &V::C((a + o) as u128))?);
                }
                Ok(V::A(Rc::new(r)))
            }
            x => Err(End::Unsup(format!("load of {:?}", x))),
        }
    }
    fn load_sym(&mut self, st: &mut State, pe: E, w: u32, n: u64) -> R<V> {
        let a = self.eval(st, pe) as u64;
        let o = self.obj_r(st, a, n, "read")?;
        if o.sym != 0 {
            let a = self.addr(st, &V::S(pe))?;
            let o = self.obj_r(st, a, n, "read")?;
            let v = self.read_int(&o, (a - o.base) as usize, w);
            return Ok(self.subst(st, v));
        }
        // is the whole access always inside this object?
        let base = self.ar.cst(64, o.base as u128);
        let off = self.ar.bin(Op::Sub, pe, base);
        let lim = self.ar.cst(64, (o.size - n + 1) as u128);
        let inb = self.ar.bin(Op::Ult, off, lim);
        if !self.branch(st, inb)? {
            return Err(self.oob("read", a, n));
        }
        let lz = self.ar.low_zeros(off).min(20);
        let stride = 1u64 << lz;
        let mx = (self.ar.umax[off as usize].min((o.size - n) as u128)) as u64;
        let cnt = mx / stride + 1;
        if cnt > self.cfg.mux_limit {
            let a = self.addr(st, &V::S(pe))?;
            let o = self.obj_r(st, a, n, "read")?;
            let v = self.read_int(&o, (a - o.base) as usize, w);
            return Ok(self.subst(st, v));
        }
        let mut vals = vec![];
        for i in 0..cnt {
            let v = self.read_int(&o, (i * stride) as usize, w);
            vals.push(self.e(&v, w));
        }
        let idx = if lz > 0 { self.ar.extract(off, 63, lz) } else { off };
        let r = self.ar.mux(idx, &vals);
        let v = self.v(r);
        Ok(self.subst(st, v))
    }
    fn store(&mut self, st: &mut State, t: TyId, v: &V, a: u64) -> R<()> {
        let m = self.m.clone();
        match v {
            V::A(x) => {
                if let Ty::Vec(_, et) = &m.types[t as usize] {
                    if m.width(*et) % 8 != 0 {
                        return Err(End::Unsup("store of sub-byte vector".into()));
                    }
                }
                for (i, y) in x.iter().enumerate() {
                    let (o, et) = m.field_off(t, i);
                    self.store(st, et, y, a + o)?;
                }
                Ok(())
            }
            V::C(k) => {
                let n = ((m.width(t) + 7) / 8) as usize;
                let o = self.obj_w(st, a, n as u64)?;
                let off = (a - o.base) as usize;
                o.write_conc(off, *k, n);
                Ok(())
            }
            V::S(e) => {
                let w = m.width(t);
                let n = ((w + 7) / 8) as usize;
                let e = self.ar.zext(*e, n as u32 * 8);
                let mut bs = vec![];
                for k in 0..n {
                    let b = self.ar.extract(e, k as u32 * 8 + 7, k as u32 * 8);
                    bs.push(match self.ar.k(b) {
                        Some(c) => (c as u8, 0),
                        None => (0, b),
                    });
                }
                let o = self.obj_w(st, a, n as u64)?;
                let off = (a - o.base) as usize;
                for (k, (d, s)) in bs.into_iter().enumerate() {
                    o.set(off + k, d, s);
                }
                Ok(())
            }
        }
    }

    // ---- main loop ---------------------------------------------------------
    fn stackv(&self, st: &State) -> Vec<String> {
        let mut v = vec![self.m.funcs[st.top.f as usize].name.clone()];
        for f in st.stack.iter().rev() {
            v.push(self.m.funcs[f.f as usize].name.clone());
        }
        v
    }
    fn inputs_of(&mut self, st: &State) -> Vec<(u32, u128)> {
        let ins = st.inputs.clone();
        ins.iter().map(|(w, v)| (*w, self.evalv(st, v))).collect()
    }
    pub fn record_violation(&mut self, st: &State, kind: &str, msg: &str) {
        let key = format!("{}|{}", kind, msg);
        self.out.violating += 1;
        if let Some(v) = self.out.viols.get_mut(&key) {
            v.count += 1;
            return;
        }
        let inputs = self.inputs_of(st);
        let obsv = st.obs.clone();
        let obs = obsv.iter().map(|v| self.evalv(st, v)).collect();
        let stack = self.stackv(st);
        self.out.viols.insert(key, Viol { kind: kind.into(), msg: msg.into(), stack, inputs, obs, count: 1 });
    }
    pub fn finish(&mut self, st: State, end: End) {
        self.out.steps += st.steps;
        self.out.max_steps = self.out.max_steps.max(st.steps);
        match end {
            End::Done => {
                self.out.done += 1;
                for c in st.covers.iter() {
                    *self.out.covers.entry(*c).or_insert(0) += 1;
                }
                let fresh = st.covers.iter().any(|c| self.out.covers[c] == 1);
                self.out.seen_samples += 1;
                let n = self.out.seen_samples;
                let keep = fresh || n.is_power_of_two() || n % 997 == 0;
                if keep && self.out.samples.len() < self.cfg.max_samples {
                    let pcs = st.pc.clone();
                    for c in pcs {
                        if self.eval(&st, c) != 1 {
                            eprintln!("symir: internal error: model violates the path condition");
                            std::process::exit(3);
                        }
                    }
                    let i = self.inputs_of(&st);
                    let ob = st.obs.clone();
                    let o = ob.iter().map(|v| self.evalv(&st, v)).collect();
                    self.out.samples.push((i, o));
                }
            }
            End::Infeasible => self.out.infeasible += 1,
            End::Violation(k, m) => {
                for c in st.covers.iter() {
                    *self.out.covers.entry(*c).or_insert(0) += 1;
                }
                self.record_violation(&st, &k, &m)
            }
            End::Unsup(m) => {
                let s = self.stackv(&st);
                self.out.complete = false;
                *self.out.why_incomplete.entry(format!("unsupported: {} in {}", m, s.iter().take(4).cloned().collect::<Vec<_>>().join(" < "))).or_insert(0) += 1;
            }
            End::Unknown => {
                self.out.complete = false;
                *self.out.why_incomplete.entry("solver returned unknown".into()).or_insert(0) += 1;
            }
        }
    }
    /// Run a state to the end of its path.
    pub fn run(&mut self, mut st: State) {
        let m = self.m.clone();
        let r = loop {
            if st.steps & 0xfff == 0xfff && Instant::now() > self.deadline {
                self.out.complete = false;
                *self.out.why_incomplete.entry("time limit".into()).or_insert(0) += 1;
                return;
            }
            if st.steps > st.limit {
                break End::Violation("hang".into(), format!("no progress: more than {} instructions on one path", st.limit));
            }
            match self.step(&m, &mut st) {
                Ok(true) => {}
                Ok(false) => break End::Done,
                Err(e) => break e,
            }
        };
        self.finish(st, r);
    }

    #[inline]
    fn opv(&self, st: &State, o: &O) -> V {
        match o {
            O::R(r) => st.top.regs[*r as usize].clone(),
            O::K(v) => v.clone(),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, r: u32, v: V) {
        if r != u32::MAX {
            st.top.regs[r as usize] = v;
        }
    }
    fn jump(&mut self, m: &Module, st: &mut State, to: u32) {
        let from = st.top.blk;
        let f = &m.funcs[st.top.f as usize];
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = &inc.iter().find(|x| x.0 == from).expect("phi edge").1;
                vals.push((*d, self.opv(st, o)));
            }
            for (d, v) in vals {
                st.top.regs[d as usize] = v;
            }
        }
        st.top.blk = to;
        st.top.ip = 0;
        self.bcov[st.top.f as usize][to as usize] = true;
    }

    fn step(&mut self, m: &Rc<Module>, st: &mut State) -> R<bool> {
        st.steps += 1;
        let ins = &m.funcs[st.top.f as usize].blocks[st.top.blk as usize].ins[st.top.ip as usize];
        match ins {
            I::Bin(d, op, w, n, a, b) => {
                let a = self.opv(st, a);
                let b = self.opv(st, b);
                if *n == 0 {
                    if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                        let z = self.icmp(Pred::Eq, *w, &b, &V::C(0));
                        if self.branchv(st, &z)? {
                            return Err(End::Violation("ub".into(), "division by zero".into()));
                        }
                    }
                    let r = self.bin(*op, *w, &a, &b);
                    self.set(st, *d, r);
                } else {
                    let (x, y) = (Self::lanes(&a), Self::lanes(&b));
                    let r = x.iter().zip(y.iter()).map(|(p, q)| self.bin(*op, *w, p, q)).collect();
                    self.set(st, *d, V::A(Rc::new(r)));
                }
            }
            I::Icmp(d, p, w, n, a, b) => {
                let a = self.opv(st, a);
                let b = self.opv(st, b);
                if *n == 0 {
                    let r = self.icmp(*p, *w, &a, &b);
                    self.set(st, *d, r);
                } else {
                    let (x, y) = (Self::lanes(&a), Self::lanes(&b));
                    let r = x.iter().zip(y.iter()).map(|(u, q)| self.icmp(*p, *w, u, q)).collect();
                    self.set(st, *d, V::A(Rc::new(r)));
                }
            }
            I::Cast(d, k, fw, tw, n, a) => {
                let a = self.opv(st, a);
                if *n == 0 {
                    let r = self.cast(*k, *fw, *tw, &a);
                    self.set(st, *d, r);
                } else {
                    let r = Self::lanes(&a).iter().map(|x| self.cast(*k, *fw, *tw, x)).collect();
                    self.set(st, *d, V::A(Rc::new(r)));
                }
            }
            I::Bitcast(d, ft, tt, a) => {
                let a = self.opv(st, a);
                let r = self.bitcast(m, *ft, *tt, &a)?;
                self.set(st, *d, r);
            }
            I::Select(d, isp, t, n, c, a, b) => {
                let c = self.opv(st, c);
                if *n > 0 {
                    let (c, a, b) = (Self::lanes(&c), Self::lanes(&self.opv(st, a)), Self::lanes(&self.opv(st, b)));
                    let w = match m.types[*t as usize] {
                        Ty::Vec(_, e) => m.width(e),
                        _ => 0,
                    };
                    let mut r = vec![];
                    for i in 0..c.len() {
                        let ce = self.e(&c[i], 1);
                        let x = self.e(&a[i], w);
                        let y = self.e(&b[i], w);
                        let q = self.ar.ite(ce, x, y);
                        r.push(self.v(q));
                    }
                    self.set(st, *d, V::A(Rc::new(r)));
                } else {
                    let r = match &c {
                        V::C(k) => self.opv(st, if *k != 0 { a } else { b }),
                        V::S(ce) => {
                            let known = st.known.get(ce).copied();
                            if let Some(k) = known {
                                self.opv(st, if k != 0 { a } else { b })
                            } else {
                                let x = self.opv(st, a);
                                let y = self.opv(st, b);
                                let agg = matches!(x, V::A(_)) || matches!(y, V::A(_));
                                if *isp || agg {
                                    if self.branch(st, *ce)? {
                                        x
                                    } else {
                                        y
                                    }
                                } else {
                                    let w = m.width(*t);
                                    let x = self.e(&x, w);
                                    let y = self.e(&y, w);
                                    let r = self.ar.ite(*ce, x, y);
                                    self.v(r)
                                }
                            }
                        }
                        _ => panic!("select"),
                    };
                    self.set(st, *d, r);
                }
            }
            I::Load(d, t, p) => {
                let p = self.opv(st, p);
                let v = self.load(st, *t, &p)?;
                self.set(st, *d, v);
            }
            I::Store(t, v, p) => {
                let v = self.opv(st, v);
                let p = self.opv(st, p);
                let a = self.addr(st, &p)?;
                self.store(st, *t, &v, a)?;
            }
            I::Alloca(d, size, al) => {
                let a = if *size == 0 { *al as u64 * 16 } else { st.mem.alloc(*size, *al, 0xA5, false) };
                if *size > 0 {
                    st.top.allocas.push(a);
                }
                self.set(st, *d, V::C(a as u128));
            }
            I::Gep(d, base, off, terms) => {
                let b = self.opv(st, base);
                let mut acc = self.bin(Op::Add, 64, &b, &V::C(*off as u64 as u128));
                for (scale, w, ix) in terms {
                    let v = self.opv(st, ix);
                    let v = if *w < 64 { self.cast(CastK::SExt, *w, 64, &v) } else { v };
                    let s = self.bin(Op::Mul, 64, &v, &V::C(*scale as u128));
                    acc = self.bin(Op::Add, 64, &acc, &s);
                }
                self.set(st, *d, acc);
            }
            I::Extract(d, a, ix) => {
                let mut v = self.opv(st, a);
                for i in ix {
                    v = match v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                self.set(st, *d, v);
            }
            I::Insert(d, a, v, ix) => {
                let a = self.opv(st, a);
                let v = self.opv(st, v);
                fn ins(a: V, v: V, ix: &[u32]) -> V {
                    match a {
                        V::A(mut x) => {
                            let xs = Rc::make_mut(&mut x);
                            let i = ix[0] as usize;
                            xs[i] = if ix.len() == 1 { v } else { ins(xs[i].clone(), v, &ix[1..]) };
                            V::A(x)
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let r = ins(a, v, ix);
                self.set(st, *d, r);
            }
            I::ExtElem(d, a, i) => {
                let a = self.opv(st, a);
                let i = self.opv(st, i);
                let k = self.conc(st, &i, 64)? as usize;
                let v = Self::lanes(&a)[k].clone();
                self.set(st, *d, v);
            }
            I::InsElem(d, a, v, i) => {
                let a = self.opv(st, a);
                let v = self.opv(st, v);
                let i = self.opv(st, i);
                let k = self.conc(st, &i, 64)? as usize;
                let mut x = Self::lanes(&a);
                Rc::make_mut(&mut x)[k] = v;
                self.set(st, *d, V::A(x));
            }
            I::Shuffle(d, a, b, ix, n) => {
                let a = Self::lanes(&self.opv(st, a));
                let b = Self::lanes(&self.opv(st, b));
                let r = ix.iter().map(|i| if (*i as u64) < *n { a[*i as usize].clone() } else { b[*i as usize - *n as usize].clone() }).collect();
                self.set(st, *d, V::A(Rc::new(r)));
            }
            I::Copy(d, a) => {
                let v = self.opv(st, a);
                self.set(st, *d, v);
            }
            I::Br(t) => {
                self.jump(m, st, *t);
                return Ok(true);
            }
            I::CondBr(c, t, e) => {
                let c = self.opv(st, c);
                let b = self.branchv(st, &c)?;
                self.jump(m, st, if b { *t } else { *e });
                return Ok(true);
            }
            I::Switch(w, v, def, cases) => {
                let v = self.opv(st, v);
                let v = self.subst(st, v);
                let t = match &v {
                    V::C(k) => cases.iter().find(|c| c.0 == *k).map(|c| c.1).unwrap_or(*def),
                    V::S(e) => {
                        let k = self.eval(st, *e);
                        let tgt = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        // condition of reaching tgt
                        let mut c = Arena::FALSE;
                        if tgt == *def {
                            for (ck, t) in cases.iter() {
                                if *t != tgt {
                                    let kc = self.ar.cst(*w, *ck);
                                    let q = self.ar.bin(Op::Eq, *e, kc);
                                    c = self.ar.bin(Op::Or, c, q);
                                }
                            }
                            c = self.ar.not(c);
                        } else {
                            for (ck, t) in cases.iter() {
                                if *t == tgt {
                                    let kc = self.ar.cst(*w, *ck);
                                    let q = self.ar.bin(Op::Eq, *e, kc);
                                    c = self.ar.bin(Op::Or, c, q);
                                }
                            }
                        }
                        self.branch(st, c)?;
                        tgt
                    }
                    _ => panic!("switch"),
                };
                self.jump(m, st, t);
                return Ok(true);
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|v| self.opv(st, v));
                for a in std::mem::take(&mut st.top.allocas) {
                    st.mem.remove(a);
                }
                match st.stack.pop() {
                    None => return Ok(false),
                    Some(f) => {
                        let d = st.top.dst;
                        st.top = Rc::try_unwrap(f).unwrap_or_else(|f| (*f).clone());
                        if let Some(v) = v {
                            self.set(st, d, v);
                        }
                    }
                }
                return Ok(true);
            }
            I::Unreachable => return Err(End::Violation("ub".into(), format!("reached unreachable code in {}", short(&m.funcs[st.top.f as usize].name)))),
            I::Unsup(s) => return Err(End::Unsup(s.clone())),
            I::Call(d, callee, args, tys, rt) => {
                let fi = match callee {
                    Callee::Fn(i) => *i,
                    Callee::Ind(o) => {
                        let p = self.opv(st, o);
                        let a = self.addr(st, &p)?;
                        match m.fn_by_addr.get(&a) {
                            Some(i) => *i,
                            None => return Err(End::Violation("memory".into(), format!("call through invalid function pointer {:#x}", a))),
                        }
                    }
                };
                let av: Vec<V> = args.iter().map(|o| self.opv(st, o)).collect();
                if let Some(b) = self.builtin[fi as usize] {
                    let r = self.builtin_call(m, st, fi, b, av, tys, *rt)?;
                    self.set(st, *d, r);
                } else {
                    if st.stack.len() > 3000 {
                        return Err(End::Violation("hang".into(), "call depth over 3000".into()));
                    }
                    let fr = self.frame(fi, av, *d);
                    st.top.ip += 1;
                    let old = std::mem::replace(&mut st.top, fr);
                    st.stack.push(Rc::new(old));
                    return Ok(true);
                }
            }
        }
        st.top.ip += 1;
        Ok(true)
    }

    fn bitcast(&mut self, m: &Module, ft: TyId, tt: TyId, a: &V) -> R<V> {
        let tw = |t: TyId| match m.types[t as usize] {
            Ty::Vec(n, e) => (n as u32, m.width(e)),
            _ => (0, m.width(t)),
        };
        let (fnn, fw) = tw(ft);
        let (tn, tww) = tw(tt);
        if fnn == 0 && tn == 0 {
            return Ok(a.clone());
        }
        // flatten to one expression
        let e = if fnn > 0 {
            let l = Self::lanes(a);
            let mut r = self.e(&l[0], fw);
            for x in l.iter().skip(1) {
                let h = self.e(x, fw);
                r = self.ar.concat(h, r);
            }
            r
        } else {
            self.e(a, fw)
        };
        if tn == 0 {
            return Ok(self.v(e));
        }
        let mut r = vec![];
        for i in 0..tn {
            let x = self.ar.extract(e, (i + 1) * tww - 1, i * tww);
            r.push(self.v(x));
        }
        Ok(V::A(Rc::new(r)))
    }

    fn free(&mut self, st: &mut State, p: u64) -> R<Rc<Obj>> {
        match st.mem.find(p) {
            Some(o) if o.base == p && o.heap => {}
            _ => return Err(End::Violation("memory".into(), "free of a pointer that is not a live heap block".into())),
        }
        Ok(st.mem.remove(p).unwrap())
    }

    fn location(&mut self, st: &mut State, args: &[V]) -> String {
        // the caller location is the last pointer argument: { ptr, len, line, col }
        for v in args.iter().rev() {
            let a = match v {
                V::C(k) => *k as u64,
                _ => continue,
            };
            let o = match self.find(st, a) {
                Some(o) => o,
                None => continue,
            };
            let off = (a - o.base) as usize;
            if off + 24 > o.size as usize {
                continue;
            }
            let (p, l, line, col) = match (o.fast(off, 8), o.fast(off + 8, 8), o.fast(off + 16, 4), o.fast(off + 20, 4)) {
                (Some(p), Some(l), Some(a), Some(b)) => (p as u64, l as usize, a, b),
                _ => continue,
            };
            if l == 0 || l > 400 {
                continue;
            }
            if let Some(s) = self.find(st, p) {
                let so = (p - s.base) as usize;
                if so + l <= s.size as usize {
                    let (d, _) = s.read_range(so, l);
                    if let Ok(t) = String::from_utf8(d) {
                        let t = t.trim_end_matches('\0').to_string();
                        if t.contains(".rs") {
                            return format!("{}:{}:{}", t, line, col);
                        }
                    }
                }
            }
        }
        String::new()
    }

    fn builtin_call(&mut self, m: &Rc<Module>, st: &mut State, fi: u32, b: B, a: Vec<V>, tys: &[TyId], rt: TyId) -> R<V> {
        let rw = match m.types[rt as usize] {
            Ty::Vec(_, e) => m.width(e),
            _ => m.width(rt),
        };
        // lane-wise application of unary/binary integer intrinsics
        if let Ty::Vec(n, _) = m.types[rt as usize] {
            if !matches!(b, B::Zero | B::Nop | B::Ident) {
                let et = match m.types[rt as usize] {
                    Ty::Vec(_, e) => e,
                    _ => unreachable!(),
                };
                let mut r = vec![];
                for i in 0..n as usize {
                    let la: Vec<V> = a
                        .iter()
                        .map(|v| match v {
                            V::A(x) => x[i].clone(),
                            x => x.clone(),
                        })
                        .collect();
                    let lt: Vec<TyId> = tys
                        .iter()
                        .map(|t| match m.types[*t as usize] {
                            Ty::Vec(_, e) => e,
                            _ => *t,
                        })
                        .collect();
                    r.push(self.builtin_call(m, st, fi, b, la, &lt, et)?);
                }
                return Ok(V::A(Rc::new(r)));
            }
        }
        macro_rules! bin {
            ($op:expr, $w:expr, $x:expr, $y:expr) => {
                self.bin($op, $w, $x, $y)
            };
        }
        let sel = |s: &mut Self, c: V, x: V, y: V, w: u32| -> V {
            match c {
                V::C(k) => {
                    if k != 0 {
                        x
                    } else {
                        y
                    }
                }
                V::S(e) => {
                    let x = s.e(&x, w);
                    let y = s.e(&y, w);
                    let r = s.ar.ite(e, x, y);
                    s.v(r)
                }
                _ => panic!(),
            }
        };
        let pair = |x: V, y: V| V::A(Rc::new(vec![x, y]));
        match b {
            B::Nop => Ok(V::C(0)),
            B::Zero => Ok(m.zero(rt)),
            B::Ident => Ok(a[0].clone()),
            B::Assume => {
                if let V::C(0) = a[0] {
                    return Err(End::Violation("ub".into(), format!("llvm.assume(false) in {}", short(&m.funcs[st.top.f as usize].name))));
                }
                if let V::S(e) = a[0] {
                    if !self.branch(st, e)? {
                        return Err(End::Violation("ub".into(), format!("llvm.assume violated in {}", short(&m.funcs[st.top.f as usize].name))));
                    }
                }
                Ok(V::C(0))
            }
            B::Panic => {
                let loc = self.location(st, &a);
                let f = short(&m.funcs[fi as usize].name);
                Err(End::Violation("panic".into(), format!("{} at {}", f.rsplit("::").next().unwrap_or(""), loc)))
            }
            B::Trap => Err(End::Violation("panic".into(), format!("abort/trap in {}", short(&m.funcs[st.top.f as usize].name)))),
            B::Unsup => Err(End::Unsup(format!("call to {}", m.funcs[fi as usize].name))),
            B::Memcpy => {
                let n = self.conc(st, &a[2], 64)? as u64;
                if n == 0 {
                    return Ok(a[0].clone());
                }
                let d = self.addr(st, &a[0])?;
                let s = self.addr(st, &a[1])?;
                let so = self.obj_r(st, s, n, "read")?;
                let (dat, sy) = so.read_range((s - so.base) as usize, n as usize);
                let o = self.obj_w(st, d, n)?;
                let off = (d - o.base) as usize;
                o.write_range(off, &dat, sy.as_deref());
                Ok(a[0].clone())
            }
            B::Memset => {
                let n = self.conc(st, &a[2], 64)? as u64;
                if n == 0 {
                    return Ok(a[0].clone());
                }
                let d = self.addr(st, &a[0])?;
                let (k, s) = match &a[1] {
                    V::C(k) => (*k as u8, 0),
                    V::S(e) => {
                        let e = self.ar.extract(*e, 7, 0);
                        match self.ar.k(e) {
                            Some(k) => (k as u8, 0),
                            None => (0, e),
                        }
                    }
                    _ => panic!(),
                };
                let o = self.obj_w(st, d, n)?;
                let off = (d - o.base) as usize;
                let dat = vec![k; n as usize];
                let sy = if s != 0 { Some(vec![s; n as usize]) } else { None };
                o.write_range(off, &dat, sy.as_deref());
                Ok(a[0].clone())
            }
            B::Memcmp | B::Bcmp => {
                let n = self.conc(st, &a[2], 64)? as u64;
                if n == 0 {
                    return Ok(V::C(0));
                }
                let p = self.addr(st, &a[0])?;
                let q = self.addr(st, &a[1])?;
                let po = self.obj_r(st, p, n, "read")?;
                let qo = self.obj_r(st, q, n, "read")?;
                let mut r = self.ar.cst(32, 0);
                let mut eq = Arena::TRUE;
                for i in (0..n as usize).rev() {
                    let x = self.read_int(&po, (p - po.base) as usize + i, 8);
                    let y = self.read_int(&qo, (q - qo.base) as usize + i, 8);
                    let x = self.e(&x, 8);
                    let y = self.e(&y, 8);
                    let e = self.ar.bin(Op::Eq, x, y);
                    if b == B::Bcmp {
                        eq = self.ar.bin(Op::And, e, eq);
                        if eq == Arena::FALSE {
                            return Ok(V::C(1));
                        }
                    } else {
                        let lt = self.ar.bin(Op::Ult, x, y);
                        let m1 = self.ar.cst(32, 0xffff_ffff);
                        let p1 = self.ar.cst(32, 1);
                        let d = self.ar.ite(lt, m1, p1);
                        r = self.ar.ite(e, r, d);
                    }
                }
                if b == B::Bcmp {
                    let ne = self.ar.not(eq);
                    r = self.ar.zext(ne, 32);
                }
                Ok(self.v(r))
            }
            B::Strlen => {
                let p = self.addr(st, &a[0])?;
                let mut n = 0;
                loop {
                    let o = self.obj_r(st, p + n, 1, "read")?;
                    let v = self.read_int(&o, (p + n - o.base) as usize, 8);
                    if self.conc(st, &v, 8)? == 0 {
                        return Ok(V::C(n as u128));
                    }
                    n += 1;
                }
            }
            B::Alloc | B::AllocZ => {
                let Some((n, sym)) = self.alloc_size(st, &a[0])? else { return Ok(V::C(0)) };
                let al = self.conc(st, &a[1], 64)? as u64;
                let p = st.mem.alloc(n, al, if b == B::Alloc { 0xA5 } else { 0 }, true);
                if sym != 0 {
                    st.mem.find_mut(p).unwrap().sym = sym;
                }
                Ok(V::C(p as u128))
            }
            B::Dealloc => {
                let p = self.addr(st, &a[0])?;
                if let Some(sym) = st.mem.find(p).map(|o| o.sym).filter(|s| *s != 0) {
                    let e = self.e(&a[1], 64);
                    let eq = self.ar.bin(Op::Eq, e, sym);
                    if !self.branch(st, eq)? {
                        return Err(End::Violation("memory".into(), "dealloc with another size than the block's".into()));
                    }
                    self.free(st, p)?;
                    return Ok(V::C(0));
                }
                let n = self.conc(st, &a[1], 64)? as u64;
                if n == 0 {
                    return Ok(V::C(0));
                }
                let o = self.free(st, p)?;
                if o.size != n {
                    return Err(End::Violation("memory".into(), format!("dealloc with size {} of a block of {}", n, o.size)));
                }
                Ok(V::C(0))
            }
            B::Realloc => {
                let p = self.addr(st, &a[0])?;
                let al = self.conc(st, &a[2], 64)? as u64;
                let Some((n, sym)) = self.alloc_size(st, &a[3])? else { return Ok(V::C(0)) };
                let o = self.free(st, p)?;
                let q = st.mem.alloc(n, al, 0xA5, true);
                if sym != 0 {
                    st.mem.find_mut(q).unwrap().sym = sym;
                }
                let k = (o.size.min(n) as usize).min(o.pages.len() * crate::mem::PAGE);
                let (d, s) = o.read_range(0, k);
                st.mem.find_mut(q).unwrap().write_range(0, &d, s.as_deref());
                Ok(V::C(q as u128))
            }
            B::Ctlz | B::Cttz => {
                let w = rw;
                if let V::C(k) = a[0] {
                    let r = if b == B::Ctlz { (k.leading_zeros()) - (128 - w) } else { k.trailing_zeros().min(w) };
                    return Ok(V::C(r as u128));
                }
                let e = self.e(&a[0], w);
                let mut r = self.ar.cst(w, w as u128);
                for i in 0..w {
                    let bit = if b == B::Ctlz { i } else { w - 1 - i };
                    let c = self.ar.extract(e, bit, bit);
                    let k = if b == B::Ctlz { w - 1 - bit } else { bit };
                    let kc = self.ar.cst(w, k as u128);
                    r = self.ar.ite(c, kc, r);
                }
                Ok(self.v(r))
            }
            B::Ctpop => {
                let w = rw;
                let e = self.e(&a[0], w);
                let mut r = self.ar.cst(w, 0);
                for i in 0..w {
                    let c = self.ar.extract(e, i, i);
                    let z = self.ar.zext(c, w);
                    r = self.ar.bin(Op::Add, r, z);
                }
                Ok(self.v(r))
            }
            B::Bswap => {
                let e = self.e(&a[0], rw);
                let mut r = self.ar.extract(e, 7, 0);
                for i in 1..rw / 8 {
                    let l = self.ar.extract(e, i * 8 + 7, i * 8);
                    r = self.ar.concat(r, l);
                }
                Ok(self.v(r))
            }
            B::Bitrev => {
                let e = self.e(&a[0], rw);
                let mut r = self.ar.extract(e, 0, 0);
                for i in 1..rw {
                    let l = self.ar.extract(e, i, i);
                    r = self.ar.concat(r, l);
                }
                Ok(self.v(r))
            }
            B::Umin | B::Umax | B::Smin | B::Smax => {
                let p = match b {
                    B::Umin => Pred::Ult,
                    B::Umax => Pred::Ugt,
                    B::Smin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.icmp(p, rw, &a[0], &a[1]);
                Ok(sel(self, c, a[0].clone(), a[1].clone(), rw))
            }
            B::Abs => {
                let c = self.icmp(Pred::Slt, rw, &a[0], &V::C(0));
                let n = bin!(Op::Sub, rw, &V::C(0), &a[0]);
                Ok(sel(self, c, n, a[0].clone(), rw))
            }
            B::UaddSat => {
                let s = bin!(Op::Add, rw, &a[0], &a[1]);
                let c = self.icmp(Pred::Ult, rw, &s, &a[0]);
                Ok(sel(self, c, V::C(mask(rw)), s, rw))
            }
            B::UsubSat => {
                let s = bin!(Op::Sub, rw, &a[0], &a[1]);
                let c = self.icmp(Pred::Ult, rw, &a[0], &a[1]);
                Ok(sel(self, c, V::C(0), s, rw))
            }
            B::SaddSat | B::SsubSat => {
                let x = self.cast(CastK::SExt, rw, rw + 1, &a[0]);
                let y = self.cast(CastK::SExt, rw, rw + 1, &a[1]);
                let s = self.bin(if b == B::SaddSat { Op::Add } else { Op::Sub }, rw + 1, &x, &y);
                let mx = mask(rw - 1);
                let mn = (!mx) & mask(rw + 1);
                let hi = self.icmp(Pred::Sgt, rw + 1, &s, &V::C(mx));
                let lo = self.icmp(Pred::Slt, rw + 1, &s, &V::C(mn));
                let t = self.cast(CastK::Trunc, rw + 1, rw, &s);
                let r = sel(self, hi, V::C(mx), t, rw);
                Ok(sel(self, lo, V::C(mn & mask(rw)), r, rw))
            }
            B::UaddO | B::UsubO | B::UmulO | B::SaddO | B::SsubO | B::SmulO => {
                let w = m.width(tys[0]);
                let (x, y) = (&a[0], &a[1]);
                match b {
                    B::UaddO => {
                        let s = bin!(Op::Add, w, x, y);
                        let mut c = self.icmp(Pred::Ult, w, &s, x);
                        if let (V::S(_), _) | (_, V::S(_)) = (x, y) {
                            let xe = self.e(x, w);
                            let ye = self.e(y, w);
                            if let Some(t) = self.ar.umax[xe as usize].checked_add(self.ar.umax[ye as usize]) {
                                if t <= mask(w) {
                                    c = V::C(0);
                                }
                            }
                        }
                        Ok(pair(s, c))
                    }
                    B::UsubO => {
                        let s = bin!(Op::Sub, w, x, y);
                        let c = self.icmp(Pred::Ult, w, x, y);
                        Ok(pair(s, c))
                    }
                    B::UmulO => {
                        let s = bin!(Op::Mul, w, x, y);
                        let c = match (x, y) {
                            (V::C(p), V::C(q)) => V::C(match p.checked_mul(*q) {
                                Some(t) => (t > mask(w)) as u128,
                                None => 1,
                            }),
                            _ => {
                                let xe = self.e(x, w);
                                let ye = self.e(y, w);
                                let t = self.ar.umax[xe as usize].checked_mul(self.ar.umax[ye as usize]);
                                if matches!(t, Some(t) if t <= mask(w)) {
                                    V::C(0)
                                } else if w <= 64 {
                                    let xx = self.ar.zext(xe, 2 * w);
                                    let yy = self.ar.zext(ye, 2 * w);
                                    let p = self.ar.bin(Op::Mul, xx, yy);
                                    let h = self.ar.extract(p, 2 * w - 1, w);
                                    let z = self.ar.cst(w, 0);
                                    let q = self.ar.bin(Op::Eq, h, z);
                                    let r = self.ar.not(q);
                                    self.v(r)
                                } else {
                                    return Err(End::Unsup("symbolic 128-bit umul overflow".into()));
                                }
                            }
                        };
                        Ok(pair(s, c))
                    }
                    _ => {
                        let ew = if b == B::SmulO { 2 * w } else { w + 1 };
                        if ew > 128 {
                            return Err(End::Unsup("wide signed overflow op".into()));
                        }
                        let p = self.cast(CastK::SExt, w, ew, x);
                        let q = self.cast(CastK::SExt, w, ew, y);
                        let op = match b {
                            B::SaddO => Op::Add,
                            B::SsubO => Op::Sub,
                            _ => Op::Mul,
                        };
                        let s = self.bin(op, ew, &p, &q);
                        let t = self.cast(CastK::Trunc, ew, w, &s);
                        let back = self.cast(CastK::SExt, w, ew, &t);
                        let c = self.icmp(Pred::Ne, ew, &s, &back);
                        Ok(pair(t, c))
                    }
                }
            }
            B::Fshl | B::Fshr => {
                let s = self.conc(st, &a[2], rw)? % rw as u128;
                let h = self.e(&a[0], rw);
                let l = self.e(&a[1], rw);
                if rw > 64 {
                    return Err(End::Unsup("wide funnel shift".into()));
                }
                let c = self.ar.concat(h, l);
                let s = s as u32;
                let r = if b == B::Fshl { self.ar.extract(c, 2 * rw - 1 - s, rw - s) } else { self.ar.extract(c, rw - 1 + s, s) };
                Ok(self.v(r))
            }
            B::Ucmp | B::Scmp => {
                let w = m.width(tys[0]);
                let lt = self.icmp(if b == B::Ucmp { Pred::Ult } else { Pred::Slt }, w, &a[0], &a[1]);
                let eq = self.icmp(Pred::Eq, w, &a[0], &a[1]);
                let r = sel(self, eq, V::C(0), V::C(1), rw);
                Ok(sel(self, lt, V::C(mask(rw)), r, rw))
            }
            B::LoadRel => {
                let base = self.addr(st, &a[0])?;
                let w = m.width(tys[1]);
                let off = if w < 64 { self.cast(CastK::SExt, w, 64, &a[1]) } else { a[1].clone() };
                let p = bin!(Op::Add, 64, &V::C(base as u128), &off);
                let p = self.addr(st, &p)?;
                let o = self.obj_r(st, p, 4, "read")?;
                let v = self.read_int(&o, (p - o.base) as usize, 32);
                let v = self.cast(CastK::SExt, 32, 64, &v);
                Ok(bin!(Op::Add, 64, &V::C(base as u128), &v))
            }
            B::FmtWrite => Ok(V::C(0)),
            B::RandKeys => Ok(match &m.types[rt as usize] {
                Ty::Struct(..) => pair(V::C(0x1234_5678), V::C(0x9abc_def0)),
                _ => return Err(End::Unsup("hashmap_random_keys shape".into())),
            }),
            // ---- harness interface ----
            B::SymU => {
                let r = self.new_var(st, rw);
                Ok(V::S(r))
            }
            B::SymBytes => {
                let p = self.addr(st, &a[0])?;
                let n = self.conc(st, &a[1], 64)? as u64;
                for i in 0..n {
                    let e = self.new_var(st, 8);
                    let o = self.obj_w(st, p + i, 1)?;
                    let off = (p + i - o.base) as usize;
                    o.set(off, 0, e);
                }
                Ok(V::C(0))
            }
            B::SymChoice => {
                // first execution creates the variable; the pending input is looked up on re-execution
                let n = self.conc(st, &a[0], 32)?;
                if n <= 1 {
                    return Ok(V::C(0));
                }
                let e = self.new_var(st, 32);
                let lim = self.ar.cst(32, n);
                let c = self.ar.bin(Op::Ult, e, lim);
                // value 0 satisfies the bound and new variables default to 0 in the model
                self.add(st, c);
                // one state per value
                let mut k = n - 1;
                while k > 0 {
                    let kc = self.ar.cst(32, k);
                    let q = self.ar.bin(Op::Eq, e, kc);
                    let mut alt = st.clone();
                    let idx = st.widths.len() as u32 - 1;
                    alt.model = self.overlay(&alt, &[(idx, k)]);
                    self.add(&mut alt, q);
                    alt.top.ip += 1;
                    let d = match &m.funcs[alt.top.f as usize].blocks[alt.top.blk as usize].ins[st.top.ip as usize] {
                        I::Call(d, ..) => *d,
                        _ => unreachable!(),
                    };
                    self.set(&mut alt, d, V::C(k));
                    self.out.forks += 1;
                    self.out.branches += 1;
                    self.work.push(alt);
                    k -= 1;
                }
                let z = self.ar.cst(32, 0);
                let q = self.ar.bin(Op::Eq, e, z);
                self.add(st, q);
                Ok(V::C(0))
            }
            B::SymConc => {
                let w = m.width(tys[0]);
                Ok(V::C(self.conc(st, &a[0], w)?))
            }
            B::SymAssume => {
                let w = m.width(tys[0]);
                let c = self.icmp(Pred::Ne, w, &a[0], &V::C(0));
                match c {
                    V::C(0) => Err(End::Infeasible),
                    V::C(_) => Ok(V::C(0)),
                    V::S(e) => {
                        if let Some(k) = st.known.get(&e) {
                            return if *k != 0 { Ok(V::C(0)) } else { Err(End::Infeasible) };
                        }
                        if self.eval(st, e) != 0 {
                            self.add(st, e);
                            return Ok(V::C(0));
                        }
                        match self.sat(st, e) {
                            Res::Unsat => Err(End::Infeasible),
                            Res::Unknown => Err(End::Unknown),
                            Res::Sat(v) => {
                                st.model = self.overlay(st, &v);
                                self.add(st, e);
                                Ok(V::C(0))
                            }
                        }
                    }
                    _ => panic!(),
                }
            }
            B::SymCheck => {
                let w = m.width(tys[0]);
                self.out.checks += 1;
                let id = self.evalv(st, &a[1]);
                let c = self.icmp(Pred::Ne, w, &a[0], &V::C(0));
                match c {
                    V::C(0) => Err(End::Violation("check".into(), format!("check {}", id))),
                    V::C(_) => Ok(V::C(0)),
                    V::S(e) => {
                        self.out.symchecks += 1;
                        if !self.branch(st, e)? {
                            return Err(End::Violation("check".into(), format!("check {}", id)));
                        }
                        Ok(V::C(0))
                    }
                    _ => panic!(),
                }
            }
            B::Unavailable => Err(End::Violation("unavailable".into(), "a part of the hook does not compile".into())),
            B::SymFail => {
                let id = self.evalv(st, &a[0]);
                Err(End::Violation("check".into(), format!("check {}", id)))
            }
            B::SymCover => {
                let id = self.evalv(st, &a[0]) as u64;
                Rc::make_mut(&mut st.covers).insert(id);
                Ok(V::C(0))
            }
            B::SymObserve => {
                Rc::make_mut(&mut st.obs).push(a[0].clone());
                Ok(V::C(0))
            }
            B::SymStepLimit => {
                st.limit = self.evalv(st, &a[0]) as u64 + st.steps;
                Ok(V::C(0))
            }
        }
    }
    fn new_var(&mut self, st: &mut State, w: u32) -> E {
        let idx = st.widths.len() as u32;
        Rc::make_mut(&mut st.widths).push(w as u8);
        let e = self.ar.var(idx, w);
        Rc::make_mut(&mut st.inputs).push((w, V::S(e)));
        let md = Rc::make_mut(&mut st.model);
        while md.len() <= idx as usize {
            md.push(0);
        }
        md[idx as usize] = 0;
        e
    }
}
