//! Path-by-path symbolic execution of the parsed IR.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub body: Rc<Body>,
    pub blk: u32,
    pub pc: usize,
    pub regs: Vec<Val>,
    pub dst: Option<u32>,
    pub next: Option<u32>,
    pub allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: Vec<u8>,
    pub memo: HashMap<E, u128>,
    pub steps: u64,
    pub logs: Vec<Val>,
    pub covers: Vec<u32>,
    pub picks: u32,
    pub forks: u32,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: String,
    pub input: Vec<u8>,
    pub stack: Vec<String>,
    pub loc: String,
    pub count: u64,
}

pub struct Sample {
    pub input: Vec<u8>,
    pub logs: Vec<u64>,
}

pub enum Stop {
    /// path ended normally (or was cut by an assumption)
    End,
    Infeasible,
    Viol(String, String),
    Limit(String),
    Error(String),
}
type X<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hook {
    None,
    Sym,
    Assume,
    Assert,
    Cover,
    Log,
    Pick,
    Crc,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Nop,
    Bcmp,
    Memcmp,
    Strlen,
    MemCpy,
    MemSet,
    Panic,
    Abort,
    Intr,
    RandKeys,
}

pub struct Exec {
    pub m: Module,
    pub pool: Pool,
    pub solver: Solver,
    bodies: Vec<Option<Rc<Body>>>,
    hooks: Vec<Hook>,
    pub executed: Vec<bool>,
    pub cov: Vec<bool>,
    pub work: Vec<State>,
    pub violations: BTreeMap<String, Violation>,
    pub samples: Vec<Sample>,
    pub covers: BTreeMap<u32, u64>,
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub instrs: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub problems: BTreeMap<String, (u64, Vec<u8>)>,
    pub max_steps: u64,
    pub max_samples: usize,
    pub max_violations: usize,
    pub forced_picks: HashMap<u32, u8>,
    pub deadline: Option<Instant>,
    pub max_paths: u64,
    rng: u64,
}

fn c(v: u128) -> Val {
    Val::C(v)
}

impl Exec {
    pub fn new(m: Module, timeout_ms: u32) -> Exec {
        let nf = m.funcs.len();
        let nm = m.meta.keys().copied().max().unwrap_or(0) as usize + 1;
        let mut hooks = Vec::with_capacity(nf);
        for f in &m.funcs {
            hooks.push(Self::hook_of(&f.name));
        }
        Exec {
            m,
            pool: Pool::new(),
            solver: Solver::new(timeout_ms),
            bodies: (0..nf).map(|_| None).collect(),
            hooks,
            executed: vec![false; nf],
            cov: vec![false; nm],
            work: Vec::new(),
            violations: BTreeMap::new(),
            samples: Vec::new(),
            covers: BTreeMap::new(),
            paths: 0,
            infeasible: 0,
            forks: 0,
            instrs: 0,
            asserts: 0,
            assert_queries: 0,
            problems: BTreeMap::new(),
            max_steps: 50_000_000,
            max_samples: 32,
            max_violations: 64,
            forced_picks: HashMap::new(),
            deadline: None,
            max_paths: u64::MAX,
            rng: 0x9E3779B97F4A7C15,
        }
    }

    pub fn reseed(&mut self, seed: u64) {
        self.rng = 0x9E3779B97F4A7C15u64.wrapping_mul(seed.wrapping_mul(2).wrapping_add(1)) | 1;
    }

    fn hook_of(n: &str) -> Hook {
        match n {
            "bv_sym" => return Hook::Sym,
            "bv_assume" => return Hook::Assume,
            "bv_assert" => return Hook::Assert,
            "bv_cover" => return Hook::Cover,
            "bv_log" => return Hook::Log,
            "bv_pick" => return Hook::Pick,
            "bv_crc32" => return Hook::Crc,
            "bcmp" => return Hook::Bcmp,
            "memcmp" => return Hook::Memcmp,
            "strlen" => return Hook::Strlen,
            "memcpy" | "memmove" => return Hook::MemCpy,
            "memset" => return Hook::MemSet,
            "abort" => return Hook::Abort,
            _ => {}
        }
        if n.starts_with("llvm.") {
            return Hook::Intr;
        }
        if n.contains("___rust_alloc_zeroed") {
            return Hook::AllocZ;
        }
        if n.contains("no_alloc_shim_is_unstable") {
            return Hook::Nop;
        }
        if n.contains("___rust_alloc") && !n.contains("error") {
            return Hook::Alloc;
        }
        if n.contains("___rust_dealloc") {
            return Hook::Dealloc;
        }
        if n.contains("___rust_realloc") {
            return Hook::Realloc;
        }
        if n.contains("hashmap_random_keys") {
            return Hook::RandKeys;
        }
        if n.contains("4core9panicking")
            || n.contains("rust_begin_unwind")
            || n.contains("handle_alloc_error")
            || n.contains("begin_panic")
            || n.contains("rust_panic_with_hook")
        {
            return Hook::Panic;
        }
        Hook::None
    }

    fn body(&mut self, f: u32) -> X<Rc<Body>> {
        if let Some(b) = &self.bodies[f as usize] {
            return Ok(b.clone());
        }
        let b = self
            .m
            .parse_body(f)
            .map_err(|e| Stop::Error(format!("function {}: {e}", self.m.funcs[f as usize].name)))?;
        let b = Rc::new(b);
        self.bodies[f as usize] = Some(b.clone());
        Ok(b)
    }

    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let f = *self.m.fidx.get(entry).ok_or(format!("no entry function {entry}"))?;
        let mut mem = Mem::new();
        let inits = std::mem::take(&mut self.m.inits);
        for (i, g) in self.m.globals.iter().enumerate() {
            let a = mem.alloc(g.ty.size(), 0, g.constant, false);
            assert_eq!(a, ((i + 1) as u64) << SHIFT);
        }
        for (addr, v) in &inits {
            if let Some(v) = v {
                let idx = (addr >> SHIFT) as usize;
                let ty = self.m.globals[idx - 1].ty.clone();
                let o = mem.obj_mut(idx).unwrap();
                init_bytes(o, 0, &ty, v);
            }
        }
        self.m.inits = inits;
        let mut st = State {
            frames: Vec::new(),
            mem,
            pc: Vec::new(),
            model: Vec::new(),
            memo: HashMap::new(),
            steps: 0,
            logs: Vec::new(),
            covers: Vec::new(),
            picks: 0,
            forks: 0,
        };
        self.push_frame(&mut st, f, Vec::new(), None, None).map_err(|_| "entry".to_string())?;
        self.work.push(st);
        Ok(())
    }

    fn push_frame(&mut self, st: &mut State, f: u32, args: Vec<Val>, dst: Option<u32>, next: Option<u32>) -> X<()> {
        if st.frames.len() > 2000 {
            return Err(Stop::Viol("stack".into(), "call depth over 2000".into()));
        }
        let body = self.body(f)?;
        self.executed[f as usize] = true;
        let mut regs = vec![Val::C(0); body.nregs as usize];
        for (p, a) in body.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        st.frames.push(Frame { f, body, blk: 0, pc: 0, regs, dst, next, allocas: Vec::new() });
        Ok(())
    }

    pub fn run(&mut self) {
        while let Some(mut st) = self.work.pop() {
            if self.paths >= self.max_paths {
                self.problem("path limit".into(), &st);
                break;
            }
            let r = self.run_state(&mut st);
            match r {
                Stop::End => {
                    self.paths += 1;
                    for cv in &st.covers {
                        *self.covers.entry(*cv).or_insert(0) += 1;
                    }
                    self.sample(&mut st);
                }
                Stop::Infeasible => self.infeasible += 1,
                Stop::Viol(kind, id) => {
                    self.paths += 1;
                    self.violation(&mut st, kind, id, None);
                }
                Stop::Limit(w) => {
                    self.paths += 1;
                    let time = w == "time limit";
                    self.problem(w, &st);
                    if time {
                        break;
                    }
                }
                Stop::Error(e) => {
                    let tr = self.trace(&st);
                    self.problem(format!("{e} [{}]", tr.first().cloned().unwrap_or_default()), &st)
                }
            }
            if self.violations.len() >= self.max_violations {
                self.problem("violation limit".into(), &st);
                break;
            }
        }
    }

    fn problem(&mut self, w: String, st: &State) {
        let e = self.problems.entry(w).or_insert((0, st.model.clone()));
        e.0 += 1;
    }

    fn sample(&mut self, st: &mut State) {
        if self.max_samples == 0 {
            return;
        }
        let slot = if self.samples.len() < self.max_samples {
            None
        } else {
            self.rng ^= self.rng << 13;
            self.rng ^= self.rng >> 7;
            self.rng ^= self.rng << 17;
            let k = (self.rng % self.paths.max(1)) as usize;
            if k >= self.max_samples {
                return;
            }
            Some(k)
        };
        let logs: Vec<u64> = st
            .logs
            .clone()
            .iter()
            .map(|v| match v {
                Val::C(x) => *x as u64,
                Val::S(e) => self.eval(st, *e) as u64,
                _ => 0,
            })
            .collect();
        let s = Sample { input: st.model.clone(), logs };
        match slot {
            None => self.samples.push(s),
            Some(k) => self.samples[k] = s,
        }
    }

    fn trace(&self, st: &State) -> Vec<String> {
        let mut v = Vec::new();
        for fr in st.frames.iter().rev() {
            let pc = if v.is_empty() { fr.pc } else { fr.pc.saturating_sub(1) };
            let d = fr.body.blocks[fr.blk as usize].dbg.get(pc).copied().unwrap_or(0);
            let loc = match self.m.dbg_loc(d) {
                Some((f, l, _)) => format!(" at {f}:{l}"),
                None => String::new(),
            };
            v.push(format!("{}{}", self.m.funcs[fr.f as usize].name, loc));
        }
        v
    }

    fn violation(&mut self, st: &mut State, kind: String, id: String, model: Option<Vec<u8>>) {
        let stack = self.trace(st);
        let loc = stack.first().cloned().unwrap_or_default();
        let key = format!("{kind}|{id}");
        let input = model.unwrap_or_else(|| st.model.clone());
        let v = self.violations.entry(key).or_insert(Violation { kind, id, input, stack, loc, count: 0 });
        v.count += 1;
    }

    fn eval(&mut self, st: &mut State, e: E) -> u128 {
        self.pool.eval_m(e, &st.model, &mut st.memo)
    }

    fn overlay(st: &State, vars: &[(u32, u8)]) -> Vec<u8> {
        let mut m = st.model.clone();
        for (v, b) in vars {
            if (*v as usize) < m.len() {
                m[*v as usize] = *b;
            }
        }
        m
    }

    fn sibling(&mut self, st: &State, cond: E, vars: &[(u32, u8)]) {
        let model = Self::overlay(st, vars);
        let mut s = st.clone();
        s.model = model;
        s.memo = HashMap::new();
        s.pc.push(cond);
        s.forks += 1;
        self.forks += 1;
        self.work.push(s);
    }

    /// Decide a one-bit condition; the other outcome, if feasible, is queued re-executing the
    /// current instruction.
    fn decide(&mut self, st: &mut State, e: E) -> X<bool> {
        let v = self.eval(st, e) == 1;
        let (same, other) = {
            let ne = self.pool.not(e);
            if v {
                (e, ne)
            } else {
                (ne, e)
            }
        };
        if st.pc.contains(&same) {
            return Ok(v);
        }
        if self.late() {
            return Err(Stop::Limit("time limit".into()));
        }
        match self.solver.check(&mut self.pool, &st.pc, other) {
            Res::Sat(vars) => {
                self.sibling(st, other, &vars);
                st.pc.push(same);
            }
            Res::Unsat => {}
            Res::Unknown => {
                self.problem("solver gave no answer".into(), st);
                st.pc.push(same);
            }
        }
        Ok(v)
    }

    fn concretize(&mut self, st: &mut State, e: E) -> X<u128> {
        if let Some(k) = self.pool.as_const(e) {
            return Ok(k);
        }
        let v = self.eval(st, e);
        let k = self.pool.c(v, self.pool.w(e));
        let eq = self.pool.cmp(CmpOp::Eq, e, k);
        if self.pool.as_const(eq) == Some(1) {
            return Ok(v);
        }
        self.decide(st, eq)?;
        Ok(v)
    }

    fn assume(&mut self, st: &mut State, e: E) -> X<()> {
        if let Some(k) = self.pool.as_const(e) {
            return if k == 1 { Ok(()) } else { Err(Stop::Infeasible) };
        }
        if self.eval(st, e) == 1 {
            st.pc.push(e);
            return Ok(());
        }
        match self.solver.check(&mut self.pool, &st.pc, e) {
            Res::Sat(vars) => {
                st.model = Self::overlay(st, &vars);
                st.memo.clear();
                st.pc.push(e);
                Ok(())
            }
            Res::Unsat => Err(Stop::Infeasible),
            Res::Unknown => Err(Stop::Limit("solver gave no answer".into())),
        }
    }

    #[inline]
    fn val(&self, fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }

    fn ex(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(k) => self.pool.c(*k, w),
            Val::S(e) => *e,
            Val::Agg(_) => panic!("aggregate used as scalar"),
        }
    }
    fn wrap(&self, e: E) -> Val {
        match self.pool.as_const(e) {
            Some(k) => Val::C(k),
            None => Val::S(e),
        }
    }

    fn conc(&mut self, st: &mut State, v: &Val) -> X<u128> {
        match v {
            Val::C(k) => Ok(*k),
            Val::S(e) => self.concretize(st, *e),
            Val::Agg(_) => Err(Stop::Error("aggregate as scalar".into())),
        }
    }

    fn bin(&mut self, op: BinOp, ty: &Ty, a: &Val, b: &Val) -> X<Val> {
        if let (Val::Agg(x), Val::Agg(y)) = (a, b) {
            let (_, et) = ty.field(0);
            let mut out = Vec::with_capacity(x.len());
            for (p, q) in x.iter().zip(y.iter()) {
                out.push(self.bin(op, &et, p, q)?);
            }
            return Ok(Val::Agg(Rc::new(out)));
        }
        let w = ty.width();
        if matches!(ty, Ty::Flt(_)) {
            return Err(Stop::Error("floating point arithmetic".into()));
        }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return match fold_bin(op, *x, *y, w) {
                Some(r) => Ok(Val::C(r)),
                None => Err(Stop::Viol("div0".into(), "division by zero".into())),
            };
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = self.pool.bin(op, x, y);
        Ok(self.wrap(r))
    }

    fn icmp(&mut self, p: Pred, ty: &Ty, a: &Val, b: &Val) -> Val {
        if let (Val::Agg(x), Val::Agg(y)) = (a, b) {
            let (_, et) = ty.field(0);
            let out: Vec<Val> = x.iter().zip(y.iter()).map(|(u, v)| self.icmp(p, &et, u, v)).collect();
            return Val::Agg(Rc::new(out));
        }
        let w = ty.width();
        let (op, sw, neg) = match p {
            Pred::Eq => (CmpOp::Eq, false, false),
            Pred::Ne => (CmpOp::Eq, false, true),
            Pred::Ult => (CmpOp::Ult, false, false),
            Pred::Ule => (CmpOp::Ule, false, false),
            Pred::Ugt => (CmpOp::Ult, true, false),
            Pred::Uge => (CmpOp::Ule, true, false),
            Pred::Slt => (CmpOp::Slt, false, false),
            Pred::Sle => (CmpOp::Sle, false, false),
            Pred::Sgt => (CmpOp::Slt, true, false),
            Pred::Sge => (CmpOp::Sle, true, false),
        };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C((fold_cmp(op, *x, *y, w) ^ neg) as u128);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let mut r = self.pool.cmp(op, x, y);
        if neg {
            r = self.pool.not(r);
        }
        self.wrap(r)
    }

    fn select(&mut self, ty: &Ty, cnd: E, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => {
                let out: Vec<Val> = (0..x.len())
                    .map(|i| {
                        let (_, t) = ty.field(i);
                        self.select(&t, cnd, &x[i], &y[i])
                    })
                    .collect();
                Val::Agg(Rc::new(out))
            }
            _ => {
                let w = ty.width();
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let r = self.pool.ite(cnd, x, y);
                self.wrap(r)
            }
        }
    }

    // ---------------------------------------------------------------- memory

    /// Check `[addr, addr+n)` lies in a live object.
    fn access(&mut self, st: &mut State, addr: u64, n: u64, write: bool) -> X<(usize, usize)> {
        let idx = (addr >> SHIFT) as usize;
        let off = addr & ((1 << SHIFT) - 1);
        let (size, ssize, ro) = match st.mem.obj(idx) {
            Some(o) => (o.size, o.ssize, o.readonly),
            None => {
                return Err(Stop::Viol(
                    "memory".into(),
                    format!("access of {n} bytes through an invalid or freed pointer {addr:#x}"),
                ))
            }
        };
        if off + n > size {
            return Err(Stop::Viol("memory".into(), format!("out-of-bounds access: offset {off} + {n} > {size}")));
        }
        if write && ro {
            return Err(Stop::Viol("memory".into(), "write to constant data".into()));
        }
        if ssize != 0 {
            let k = self.pool.c((off + n) as u128, 64);
            let bad = self.pool.cmp(CmpOp::Ult, ssize, k);
            match self.solver.check(&mut self.pool, &st.pc, bad) {
                Res::Sat(vars) => {
                    let m = Self::overlay(st, &vars);
                    self.violation(
                        st,
                        "memory".into(),
                        "out-of-bounds access into an input-sized allocation".into(),
                        Some(m),
                    );
                    let nb = self.pool.not(bad);
                    self.assume(st, nb)?;
                }
                Res::Unsat => {}
                Res::Unknown => return Err(Stop::Limit("solver gave no answer".into())),
            }
        }
        Ok((idx, off as usize))
    }

    fn load_at(&mut self, st: &mut State, addr: u64, ty: &Ty) -> X<Val> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) => {
                let mut out = Vec::with_capacity(ty.elems());
                for i in 0..ty.elems() {
                    let (o, t) = ty.field(i);
                    out.push(self.load_at(st, addr + o, &t)?);
                }
                Ok(Val::Agg(Rc::new(out)))
            }
            Ty::Vec(n, et) => {
                let ew = et.width();
                if ew % 8 != 0 {
                    return Err(Stop::Error("load of a bit vector".into()));
                }
                let mut out = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    out.push(self.load_at(st, addr + i * (ew as u64 / 8), et)?);
                }
                Ok(Val::Agg(Rc::new(out)))
            }
            _ => {
                let w = ty.width();
                let n = ((w + 7) / 8) as usize;
                let (idx, off) = self.access(st, addr, n as u64, false)?;
                let o = st.mem.obj(idx).unwrap().clone();
                let r = self.read_obj(&o, off, n);
                Ok(match r {
                    Val::C(k) => Val::C(k & mask(w)),
                    Val::S(e) => {
                        let e = self.pool.extract(e, 0, w);
                        self.wrap(e)
                    }
                    v => v,
                })
            }
        }
    }

    fn read_obj(&mut self, o: &Obj, off: usize, n: usize) -> Val {
        let has_sym = !o.sym.is_empty() && (off..(off + n).min(o.sym.len())).any(|i| o.sym[i] != 0);
        if !has_sym {
            let mut k = 0u128;
            let end = (off + n).min(o.data.len());
            if off < end {
                for i in (off..end).rev() {
                    k = (k << 8) | o.data[i] as u128;
                }
            }
            return Val::C(k);
        }
        let mut r: Option<E> = None;
        for i in (0..n).rev() {
            let (d, s) = o.byte(off + i);
            let e = if s != 0 { s } else { self.pool.c(d as u128, 8) };
            r = Some(match r {
                None => e,
                Some(h) => self.pool.concat(h, e),
            });
        }
        self.wrap(r.unwrap())
    }

    fn store_at(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> X<()> {
        match (ty, v) {
            (Ty::Struct(..) | Ty::Arr(..), Val::Agg(xs)) => {
                for (i, x) in xs.clone().iter().enumerate() {
                    let (o, t) = ty.field(i);
                    self.store_at(st, addr + o, &t, x)?;
                }
                Ok(())
            }
            (Ty::Vec(_, et), Val::Agg(xs)) => {
                let ew = et.width();
                if ew % 8 != 0 {
                    return Err(Stop::Error("store of a bit vector".into()));
                }
                for (i, x) in xs.clone().iter().enumerate() {
                    self.store_at(st, addr + i as u64 * (ew as u64 / 8), et, x)?;
                }
                Ok(())
            }
            _ => {
                let w = ty.width();
                let n = ((w + 7) / 8) as usize;
                let (idx, off) = self.access(st, addr, n as u64, true)?;
                match v {
                    Val::C(k) => {
                        let o = st.mem.obj_mut(idx).unwrap();
                        o.ensure(off + n);
                        let mut k = *k;
                        for i in 0..n {
                            o.data[off + i] = k as u8;
                            k >>= 8;
                        }
                        if !o.sym.is_empty() {
                            for i in 0..n {
                                o.sym[off + i] = 0;
                            }
                        }
                    }
                    Val::S(e) => {
                        let e = if w as usize != n * 8 { self.pool.zext(*e, n as u32 * 8) } else { *e };
                        for i in 0..n {
                            let b = self.pool.extract(e, i as u32 * 8, 8);
                            let o = st.mem.obj_mut(idx).unwrap();
                            match self.pool.as_const(b) {
                                Some(k) => o.set(off + i, k as u8, 0),
                                None => o.set(off + i, 0, b),
                            }
                        }
                    }
                    Val::Agg(_) => return Err(Stop::Error("aggregate store".into())),
                }
                Ok(())
            }
        }
    }

    /// Load through a symbolic pointer: a read from a small object becomes an if-then-else over
    /// its offsets, anything else enumerates the feasible addresses.
    fn load_sym(&mut self, st: &mut State, p: E, ty: &Ty) -> X<Val> {
        let w = ty.width();
        if w == 0 {
            let a = self.concretize(st, p)? as u64;
            return self.load_at(st, a, ty);
        }
        let n = ((w + 7) / 8) as usize;
        let a = self.eval(st, p) as u64;
        let idx = (a >> SHIFT) as usize;
        let ok = match st.mem.obj(idx) {
            Some(o) => o.size as usize <= 1024 && o.size as usize >= n && o.ssize == 0,
            None => false,
        };
        if !ok {
            let a = self.concretize(st, p)? as u64;
            return self.load_at(st, a, ty);
        }
        let o = st.mem.obj(idx).unwrap().clone();
        let base = self.pool.c(((idx as u64) << SHIFT) as u128, 64);
        let off = self.pool.bin(BinOp::Sub, p, base);
        let lim = self.pool.c((o.size as usize - n) as u128, 64);
        let inb = self.pool.cmp(CmpOp::Ule, off, lim);
        if self.pool.as_const(inb) != Some(1) {
            // the model satisfies it; the other side (if feasible) re-executes with a model
            // outside the object and is judged there
            self.decide(st, inb)?;
        }
        // feasible offsets
        let mut cases: Vec<(u128, Val)> = Vec::new();
        for k in 0..=(o.size as usize - n) {
            let kc = self.pool.c(k as u128, 64);
            let eq = self.pool.cmp(CmpOp::Eq, off, kc);
            if self.pool.as_const(eq) == Some(0) {
                continue;
            }
            let v = self.read_obj(&o, k, n);
            cases.push((k as u128, v));
        }
        if cases.is_empty() {
            return Err(Stop::Infeasible);
        }
        // most frequent constant value becomes the default
        let mut freq: HashMap<u128, usize> = HashMap::new();
        for (_, v) in &cases {
            if let Val::C(k) = v {
                *freq.entry(*k).or_insert(0) += 1;
            }
        }
        let mut def: Option<u128> = None;
        let mut best = 0;
        for (k, n) in &freq {
            if *n > best || (*n == best && def.map_or(true, |d| *k < d)) {
                best = *n;
                def = Some(*k);
            }
        }
        let nw = n as u32 * 8;
        let mut r = match def {
            Some(k) => self.pool.c(k, nw),
            None => self.ex(&cases[0].1.clone(), nw),
        };
        // group runs of equal values
        let mut i = 0;
        while i < cases.len() {
            let mut j = i + 1;
            while j < cases.len() && cases[j].0 == cases[j - 1].0 + 1 && same(&cases[j].1, &cases[i].1) {
                j += 1;
            }
            let skip = matches!((&cases[i].1, def), (Val::C(a), Some(b)) if *a == b);
            if !skip {
                let cond = if j == i + 1 {
                    let kc = self.pool.c(cases[i].0, 64);
                    self.pool.cmp(CmpOp::Eq, off, kc)
                } else {
                    let lo = self.pool.c(cases[i].0, 64);
                    let hi = self.pool.c(cases[j - 1].0, 64);
                    let a = self.pool.cmp(CmpOp::Ule, lo, off);
                    let b = self.pool.cmp(CmpOp::Ule, off, hi);
                    self.pool.bin(BinOp::And, a, b)
                };
                let v = self.ex(&cases[i].1.clone(), nw);
                r = self.pool.ite(cond, v, r);
            }
            i = j;
        }
        let r = self.pool.extract(r, 0, w);
        Ok(self.wrap(r))
    }

    fn bytes_of(&mut self, st: &mut State, addr: u64, n: u64) -> X<Vec<E>> {
        if n == 0 {
            return Ok(Vec::new());
        }
        let (idx, off) = self.access(st, addr, n, false)?;
        let o = st.mem.obj(idx).unwrap().clone();
        Ok((0..n as usize)
            .map(|i| {
                let (d, s) = o.byte(off + i);
                if s != 0 {
                    s
                } else {
                    self.pool.c(d as u128, 8)
                }
            })
            .collect())
    }

    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.access(st, src, n, false)?;
        let (di, dof) = self.access(st, dst, n, true)?;
        let n = n as usize;
        let s = st.mem.obj(si).unwrap().clone();
        let have = s.data.len().saturating_sub(so).min(n);
        let has_sym = s.sym.len() > so && s.sym[so..(so + n).min(s.sym.len())].iter().any(|x| *x != 0);
        let d = st.mem.obj_mut(di).unwrap();
        d.ensure(dof + n);
        if have > 0 {
            d.data[dof..dof + have].copy_from_slice(&s.data[so..so + have]);
        }
        for b in &mut d.data[dof + have..dof + n] {
            *b = 0;
        }
        if has_sym {
            if d.sym.is_empty() {
                d.sym = vec![0; d.data.len()];
            }
            for i in 0..n {
                d.sym[dof + i] = s.sym.get(so + i).copied().unwrap_or(0);
            }
        } else if !d.sym.is_empty() {
            for i in 0..n {
                d.sym[dof + i] = 0;
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- control

    fn jump(&mut self, st: &mut State, target: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let body = fr.body.clone();
        let b = &body.blocks[target as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let o = p
                    .inc
                    .iter()
                    .find(|(l, _)| *l == from)
                    .map(|(_, o)| o)
                    .unwrap_or_else(|| panic!("phi without an entry for block {from}"));
                vals.push(match o {
                    Opd::R(r) => fr.regs[*r as usize].clone(),
                    Opd::K(v) => v.clone(),
                });
            }
            for (p, v) in b.phis.iter().zip(vals) {
                fr.regs[p.dst as usize] = v;
            }
        }
        fr.blk = target;
        fr.pc = 0;
    }

    fn do_ret(&mut self, st: &mut State, v: Option<Val>) -> X<()> {
        let fr = st.frames.pop().unwrap();
        for a in &fr.allocas {
            st.mem.free(*a as usize);
        }
        if st.frames.is_empty() {
            return Err(Stop::End);
        }
        if let (Some(d), Some(v)) = (fr.dst, v) {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
        if let Some(n) = fr.next {
            self.jump(st, n);
        }
        Ok(())
    }

    fn run_state(&mut self, st: &mut State) -> Stop {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xFFF == 0 {
                if st.steps > self.max_steps {
                    return Stop::Limit("step limit on one path".into());
                }
                if let Some(d) = self.deadline {
                    if Instant::now() > d {
                        return Stop::Limit("time limit".into());
                    }
                }
            }
            st.steps += 1;
            self.instrs += 1;
            if let Err(s) = self.step(st) {
                return s;
            }
        }
    }

    fn set(&mut self, st: &mut State, d: u32, v: Val) {
        let fr = st.frames.last_mut().unwrap();
        fr.regs[d as usize] = v;
        fr.pc += 1;
    }

    fn step(&mut self, st: &mut State) -> X<()> {
        let fr = st.frames.last().unwrap();
        let body = fr.body.clone();
        let blk = &body.blocks[fr.blk as usize];
        if fr.pc >= blk.ins.len() { return Err(Stop::Error(format!("fell off block {} last {:?}", fr.blk, blk.ins.last()))); }
        let ins = &blk.ins[fr.pc];
        let dbg = blk.dbg[fr.pc] as usize;
        if dbg < self.cov.len() {
            self.cov[dbg] = true;
        }
        match ins {
            Ins::Bin(d, op, ty, a, b) => {
                let (x, y) = (self.val(fr, a), self.val(fr, b));
                let v = self.bin(*op, ty, &x, &y)?;
                self.set(st, *d, v);
            }
            Ins::Icmp(d, p, ty, a, b) => {
                let (x, y) = (self.val(fr, a), self.val(fr, b));
                let v = self.icmp(*p, ty, &x, &y);
                self.set(st, *d, v);
            }
            Ins::Load(d, ty, p) => {
                let v = match self.val(fr, p) {
                    Val::C(a) => self.load_at(st, a as u64, ty)?,
                    Val::S(e) => self.load_sym(st, e, ty)?,
                    _ => return Err(Stop::Error("load through aggregate".into())),
                };
                self.set(st, *d, v);
            }
            Ins::Store(ty, v, p) => {
                let (v, p) = (self.val(fr, v), self.val(fr, p));
                let a = self.conc(st, &p)? as u64;
                self.store_at(st, a, ty, &v)?;
                st.frames.last_mut().unwrap().pc += 1;
            }
            Ins::Gep(d, base, off, dynv) => {
                let mut r = self.val(fr, base);
                if *off != 0 {
                    r = match r {
                        Val::C(a) => Val::C(((a as u64).wrapping_add(*off)) as u128),
                        Val::S(e) => {
                            let k = self.pool.c(*off as u128, 64);
                            let e = self.pool.bin(BinOp::Add, e, k);
                            self.wrap(e)
                        }
                        v => v,
                    };
                }
                for (o, w, scale) in dynv {
                    let fr = st.frames.last().unwrap();
                    let i = self.val(fr, o);
                    r = match (&r, &i) {
                        (Val::C(a), Val::C(i)) => {
                            let s = sext_to_i128(*i, *w) as i64 as u64;
                            Val::C(((*a as u64).wrapping_add(s.wrapping_mul(*scale))) as u128)
                        }
                        _ => {
                            let a = self.ex(&r, 64);
                            let mut i = self.ex(&i, *w);
                            if *w < 64 {
                                i = self.pool.sext(i, 64);
                            } else if *w > 64 {
                                i = self.pool.extract(i, 0, 64);
                            }
                            let s = self.pool.c(*scale as u128, 64);
                            let m = self.pool.bin(BinOp::Mul, i, s);
                            let e = self.pool.bin(BinOp::Add, a, m);
                            self.wrap(e)
                        }
                    };
                }
                self.set(st, *d, r);
            }
            Ins::Alloca(d, size, cnt) => {
                let mut size = *size;
                if let Some((o, _)) = cnt {
                    let v = self.val(fr, o);
                    size *= self.conc(st, &v)? as u64;
                }
                let a = st.mem.alloc(size, 0, false, false);
                st.frames.last_mut().unwrap().allocas.push((a >> SHIFT) as u32);
                self.set(st, *d, c(a as u128));
            }
            Ins::Cast(d, k, ft, tt, o) => {
                let v = self.val(fr, o);
                let r = self.cast(*k, ft, tt, &v)?;
                self.set(st, *d, r);
            }
            Ins::Select(d, ty, cnd, a, b, vec) => {
                let (cv, x, y) = (self.val(fr, cnd), self.val(fr, a), self.val(fr, b));
                let r = match &cv {
                    Val::C(k) => {
                        if *k == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    Val::S(e) => self.select(ty, *e, &x, &y),
                    Val::Agg(cs) if *vec => {
                        let (Val::Agg(xs), Val::Agg(ys)) = (&x, &y) else {
                            return Err(Stop::Error("vector select".into()));
                        };
                        let (_, et) = ty.field(0);
                        let mut out = Vec::new();
                        for i in 0..cs.len() {
                            out.push(match &cs[i] {
                                Val::C(1) => xs[i].clone(),
                                Val::C(_) => ys[i].clone(),
                                Val::S(e) => self.select(&et, *e, &xs[i], &ys[i]),
                                _ => return Err(Stop::Error("vector select".into())),
                            });
                        }
                        Val::Agg(Rc::new(out))
                    }
                    _ => return Err(Stop::Error("vector select".into())),
                };
                self.set(st, *d, r);
            }
            Ins::Br(t) => self.jump(st, *t),
            Ins::CondBr(o, a, b) => {
                let t = match self.val(fr, o) {
                    Val::C(k) => k == 1,
                    Val::S(e) => self.decide(st, e)?,
                    _ => return Err(Stop::Error("branch on aggregate".into())),
                };
                self.jump(st, if t { *a } else { *b });
            }
            Ins::Switch(o, w, def, cs) => {
                let v = self.val(fr, o);
                let t = match v {
                    Val::C(k) => cs.iter().find(|(x, _)| *x == k).map(|(_, l)| *l).unwrap_or(*def),
                    Val::S(e) => {
                        // decide the target, not the value
                        let cur = self.eval(st, e);
                        let tgt = cs.iter().find(|(x, _)| *x == cur).map(|(_, l)| *l).unwrap_or(*def);
                        let cond = {
                            let mut acc: Option<E> = None;
                            if tgt == *def {
                                // not any case that leads elsewhere
                                let mut r = self.pool.c(1, 1);
                                for (x, l) in cs {
                                    if *l != tgt {
                                        let k = self.pool.c(*x, *w);
                                        let eq = self.pool.cmp(CmpOp::Eq, e, k);
                                        let ne = self.pool.not(eq);
                                        r = self.pool.bin(BinOp::And, r, ne);
                                    }
                                }
                                acc = Some(r);
                            } else {
                                for (x, l) in cs {
                                    if *l == tgt {
                                        let k = self.pool.c(*x, *w);
                                        let eq = self.pool.cmp(CmpOp::Eq, e, k);
                                        acc = Some(match acc {
                                            None => eq,
                                            Some(r) => self.pool.bin(BinOp::Or, r, eq),
                                        });
                                    }
                                }
                            }
                            acc.unwrap()
                        };
                        if self.pool.as_const(cond).is_none() {
                            self.decide(st, cond)?;
                        }
                        tgt
                    }
                    _ => return Err(Stop::Error("switch on aggregate".into())),
                };
                self.jump(st, t);
            }
            Ins::Ret(v) => {
                let v = v.as_ref().map(|(_, o)| self.val(fr, o));
                self.do_ret(st, v)?;
            }
            Ins::Unreachable => {
                return Err(Stop::Viol("unreachable".into(), "reached `unreachable` (undefined behaviour)".into()))
            }
            Ins::Call(call) => return self.call(st, call),
            Ins::Extract(d, o, ix) => {
                let mut v = self.val(fr, o);
                for i in ix {
                    v = match v {
                        Val::Agg(a) => a[*i as usize].clone(),
                        _ => return Err(Stop::Error("extractvalue of scalar".into())),
                    };
                }
                self.set(st, *d, v);
            }
            Ins::Insert(d, _ty, o, x, ix) => {
                let v = self.val(fr, o);
                let x = self.val(fr, x);
                let r = insert(&v, ix, x);
                self.set(st, *d, r);
            }
            Ins::Rmw(d, op, ty, p, v) => {
                let (p, v) = (self.val(fr, p), self.val(fr, v));
                let a = self.conc(st, &p)? as u64;
                let old = self.load_at(st, a, ty)?;
                let new = match op {
                    Rmw::Xchg => v,
                    Rmw::Bin(b) => self.bin(*b, ty, &old, &v)?,
                    Rmw::UMax | Rmw::UMin | Rmw::Max | Rmw::Min => {
                        let (x, y) = (self.conc(st, &old)?, self.conc(st, &v)?);
                        let w = ty.width();
                        Val::C(match op {
                            Rmw::UMax => x.max(y),
                            Rmw::UMin => x.min(y),
                            Rmw::Max => {
                                if sext_to_i128(x, w) > sext_to_i128(y, w) {
                                    x
                                } else {
                                    y
                                }
                            }
                            _ => {
                                if sext_to_i128(x, w) < sext_to_i128(y, w) {
                                    x
                                } else {
                                    y
                                }
                            }
                        })
                    }
                    Rmw::Nand => return Err(Stop::Error("nand".into())),
                };
                self.store_at(st, a, ty, &new)?;
                self.set(st, *d, old);
            }
            Ins::CmpXchg(d, ty, p, a, b) => {
                let (p, a, b) = (self.val(fr, p), self.val(fr, a), self.val(fr, b));
                let ad = self.conc(st, &p)? as u64;
                let old = self.load_at(st, ad, ty)?;
                let eq = self.icmp(Pred::Eq, ty, &old, &a);
                let ok = match eq {
                    Val::C(k) => k == 1,
                    Val::S(e) => self.decide(st, e)?,
                    _ => false,
                };
                if ok {
                    self.store_at(st, ad, ty, &b)?;
                }
                let r = Val::Agg(Rc::new(vec![old, c(ok as u128)]));
                self.set(st, *d, r);
            }
            Ins::Fence => st.frames.last_mut().unwrap().pc += 1,
            Ins::Freeze(d, o) => {
                let v = self.val(fr, o);
                self.set(st, *d, v);
            }
            Ins::InsElem(d, _ty, v, x, ix) => {
                let (v, x, ix) = (self.val(fr, v), self.val(fr, x), self.val(fr, ix));
                let i = self.conc(st, &ix)? as u32;
                let r = insert(&v, &[i], x);
                self.set(st, *d, r);
            }
            Ins::ExtElem(d, v, ix) => {
                let (v, ix) = (self.val(fr, v), self.val(fr, ix));
                let i = self.conc(st, &ix)? as usize;
                let r = match v {
                    Val::Agg(a) => a[i].clone(),
                    _ => return Err(Stop::Error("extractelement".into())),
                };
                self.set(st, *d, r);
            }
            Ins::Shuffle(d, a, b, n, mk) => {
                let (a, b) = (self.val(fr, a), self.val(fr, b));
                let (Val::Agg(x), Val::Agg(y)) = (a, b) else {
                    return Err(Stop::Error("shufflevector".into()));
                };
                let out: Vec<Val> = mk
                    .iter()
                    .map(|i| match i {
                        None => Val::C(0),
                        Some(i) if (*i as u64) < *n => x[*i as usize].clone(),
                        Some(i) => y[(*i as u64 - *n) as usize].clone(),
                    })
                    .collect();
                self.set(st, *d, Val::Agg(Rc::new(out)));
            }
            Ins::Unsupported(e) => return Err(Stop::Error(format!("unsupported: {e}"))),
        }
        Ok(())
    }

    fn cast(&mut self, k: CastK, ft: &Ty, tt: &Ty, v: &Val) -> X<Val> {
        if let (Val::Agg(xs), Ty::Vec(..), Ty::Vec(..)) = (v, ft, tt) {
            if k != CastK::Bits || ft.elems() == tt.elems() {
                let (_, fe) = ft.field(0);
                let (_, te) = tt.field(0);
                let mut out = Vec::new();
                for x in xs.iter() {
                    out.push(self.cast(k, &fe, &te, x)?);
                }
                return Ok(Val::Agg(Rc::new(out)));
            }
        }
        let tw = tt.width();
        match k {
            CastK::Trunc => Ok(match v {
                Val::C(x) => Val::C(x & mask(tw)),
                Val::S(e) => {
                    let r = self.pool.extract(*e, 0, tw);
                    self.wrap(r)
                }
                _ => return Err(Stop::Error("cast".into())),
            }),
            CastK::Zext => Ok(match v {
                Val::C(x) => Val::C(*x),
                Val::S(e) => {
                    let r = self.pool.zext(*e, tw);
                    self.wrap(r)
                }
                _ => return Err(Stop::Error("cast".into())),
            }),
            CastK::Sext => Ok(match v {
                Val::C(x) => Val::C(sext_to_i128(*x, ft.width()) as u128 & mask(tw)),
                Val::S(e) => {
                    let r = self.pool.sext(*e, tw);
                    self.wrap(r)
                }
                _ => return Err(Stop::Error("cast".into())),
            }),
            CastK::Same => Ok(v.clone()),
            CastK::Bits => match (v, ft, tt) {
                (Val::Agg(xs), Ty::Vec(_, et), _) => {
                    let ew = et.width();
                    let mut r: Option<E> = None;
                    for x in xs.iter().rev() {
                        let e = self.ex(x, ew);
                        r = Some(match r {
                            None => e,
                            Some(h) => self.pool.concat(h, e),
                        });
                    }
                    let r = r.unwrap();
                    match tt {
                        Ty::Vec(n, te) => {
                            let tw = te.width();
                            let mut out = Vec::new();
                            for i in 0..*n {
                                let e = self.pool.extract(r, i as u32 * tw, tw);
                                out.push(self.wrap(e));
                            }
                            Ok(Val::Agg(Rc::new(out)))
                        }
                        _ => Ok(self.wrap(r)),
                    }
                }
                (v, _, Ty::Vec(n, te)) => {
                    let tw = te.width();
                    let e = self.ex(v, ft.width());
                    let mut out = Vec::new();
                    for i in 0..*n {
                        let x = self.pool.extract(e, i as u32 * tw, tw);
                        out.push(self.wrap(x));
                    }
                    Ok(Val::Agg(Rc::new(out)))
                }
                (v, _, _) => Ok(v.clone()),
            },
        }
    }

    fn call(&mut self, st: &mut State, call: &Call) -> X<()> {
        let fr = st.frames.last().unwrap();
        let f = match &call.callee {
            Callee::F(f) => *f,
            Callee::Ind(o) => {
                let v = self.val(fr, o);
                let a = self.conc(st, &v)? as u64;
                if a < FUNC_BASE || (a - FUNC_BASE) % 16 != 0 || (a - FUNC_BASE) / 16 >= self.m.funcs.len() as u64 {
                    return Err(Stop::Viol("memory".into(), format!("call through an invalid pointer {a:#x}")));
                }
                ((a - FUNC_BASE) / 16) as u32
            }
        };
        let fr = st.frames.last().unwrap();
        let args: Vec<Val> = call.args.iter().map(|(_, o)| self.val(fr, o)).collect();
        let h = self.hooks[f as usize];
        if h == Hook::None {
            if self.m.funcs[f as usize].range.is_none() {
                return Err(Stop::Error(format!("call of external function {}", self.m.funcs[f as usize].name)));
            }
            st.frames.last_mut().unwrap().pc += 1;
            return self.push_frame(st, f, args, call.dst, call.next);
        }
        let r = self.hook(st, h, f, &args, call)?;
        st.frames.last_mut().unwrap().pc += 1;
        if let (Some(d), Some(v)) = (call.dst, r) {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
        if let Some(n) = call.next {
            self.jump(st, n);
        }
        Ok(())
    }

    fn alloc(&mut self, st: &mut State, size: &Val) -> X<Val> {
        const LIM: u64 = 1 << SHIFT;
        match size {
            Val::C(n) => {
                if *n as u64 >= LIM {
                    return Ok(c(0));
                }
                Ok(c(st.mem.alloc(*n as u64, 0, false, true) as u128))
            }
            Val::S(e) => {
                let lim = self.pool.c(LIM as u128, 64);
                let fits = self.pool.cmp(CmpOp::Ult, *e, lim);
                let fits = match self.pool.as_const(fits) {
                    Some(k) => k == 1,
                    None => {
                        // the allocation that cannot succeed goes first: what is read into one of
                        // symbolic size takes long
                        if !st.pc.contains(&fits) && self.eval(st, fits) == 1 {
                            let ne = self.pool.not(fits);
                            if let Res::Sat(vars) = self.solver.check(&mut self.pool, &st.pc, ne) {
                                self.sibling(st, fits, &[]);
                                st.model = Self::overlay(st, &vars);
                                st.memo = HashMap::new();
                                st.pc.push(ne);
                                return Ok(c(0));
                            }
                        }
                        self.decide(st, fits)?
                    }
                };
                if !fits {
                    return Ok(c(0));
                }
                // the object may be as large as its symbolic size allows
                Ok(c(st.mem.alloc(LIM - 1, *e, false, true) as u128))
            }
            _ => Err(Stop::Error("alloc size".into())),
        }
    }

    fn free(&mut self, st: &mut State, a: u64) -> X<()> {
        let idx = (a >> SHIFT) as usize;
        match st.mem.obj(idx) {
            Some(o) if o.heap && a & ((1 << SHIFT) - 1) == 0 => {
                st.mem.free(idx);
                Ok(())
            }
            _ => Err(Stop::Viol("memory".into(), format!("invalid or double free of {a:#x}"))),
        }
    }

    fn hook(&mut self, st: &mut State, h: Hook, f: u32, a: &[Val], call: &Call) -> X<Option<Val>> {
        match h {
            Hook::Nop => Ok(Some(c(0))),
            Hook::Sym => {
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as u64;
                if n > 0 {
                    let (idx, off) = self.access(st, p, n, true)?;
                    for i in 0..n as usize {
                        let v = st.model.len() as u32;
                        st.model.push(0);
                        let e = self.pool.var(v);
                        st.mem.obj_mut(idx).unwrap().set(off + i, 0, e);
                    }
                }
                Ok(None)
            }
            Hook::Pick => {
                let n = self.conc(st, &a[0])?;
                // one input byte, constrained below n and enumerated
                let v = st.model.len() as u32;
                let k = st.picks;
                if let Some(&x) = self.forced_picks.get(&k) {
                    if x as u128 >= n {
                        return Err(Stop::Infeasible);
                    }
                    st.picks += 1;
                    st.model.push(x);
                    let e = self.pool.var(v);
                    let kc = self.pool.c(x as u128, 8);
                    let eq = self.pool.cmp(CmpOp::Eq, e, kc);
                    st.pc.push(eq);
                    return Ok(Some(c(x as u128)));
                }
                st.picks += 1;
                let e = self.pool.var(v);
                for x in (1..n).rev() {
                    let mut s = st.clone();
                    s.model.push(x as u8);
                    s.memo = HashMap::new();
                    let kc = self.pool.c(x, 8);
                    let eq = self.pool.cmp(CmpOp::Eq, e, kc);
                    s.pc.push(eq);
                    // finish the call in the sibling
                    let fr = s.frames.last_mut().unwrap();
                    fr.pc += 1;
                    if let Some(d) = call.dst {
                        fr.regs[d as usize] = c(x);
                    }
                    if let Some(nx) = call.next {
                        self.jump(&mut s, nx);
                    }
                    s.forks += 1;
                    self.forks += 1;
                    self.work.push(s);
                }
                st.model.push(0);
                let kc = self.pool.c(0, 8);
                let eq = self.pool.cmp(CmpOp::Eq, e, kc);
                st.pc.push(eq);
                Ok(Some(c(0)))
            }
            Hook::Assume => {
                let e = self.ex(&a[0], 1);
                self.assume(st, e)?;
                Ok(None)
            }
            Hook::Assert => {
                self.asserts += 1;
                let id = self.conc(st, &a[1])?;
                match &a[0] {
                    Val::C(1) => Ok(None),
                    Val::C(_) => Err(Stop::Viol("assert".into(), format!("{id}"))),
                    Val::S(e) => {
                        let e = *e;
                        let ne = self.pool.not(e);
                        self.assert_queries += 1;
                        match self.solver.check(&mut self.pool, &st.pc, ne) {
                            Res::Sat(vars) => {
                                let m = Self::overlay(st, &vars);
                                self.violation(st, "assert".into(), format!("{id}"), Some(m));
                                self.assume(st, e)?;
                                Ok(None)
                            }
                            Res::Unsat => Ok(None),
                            Res::Unknown => {
                                self.problem("solver gave no answer to an assertion".into(), st);
                                self.assume(st, e)?;
                                Ok(None)
                            }
                        }
                    }
                    _ => Err(Stop::Error("assert".into())),
                }
            }
            Hook::Cover => {
                let id = self.conc(st, &a[0])? as u32;
                if !st.covers.contains(&id) {
                    st.covers.push(id);
                }
                Ok(None)
            }
            Hook::Log => {
                st.logs.push(a[0].clone());
                Ok(None)
            }
            Hook::Crc => {
                let p = self.conc(st, &a[1])? as u64;
                let n = self.conc(st, &a[2])? as u64;
                let bytes = self.bytes_of(st, p, n)?;
                let state = self.ex(&a[0], 32);
                let r = self.crc(state, &bytes)?;
                Ok(Some(self.wrap(r)))
            }
            Hook::Alloc | Hook::AllocZ => Ok(Some(self.alloc(st, &a[0])?)),
            Hook::Dealloc => {
                let p = self.conc(st, &a[0])? as u64;
                self.free(st, p)?;
                Ok(None)
            }
            Hook::Realloc => {
                // (ptr, old_size, align, new_size)
                let p = self.conc(st, &a[0])? as u64;
                let old = self.conc(st, &a[1])? as u64;
                let np = self.alloc(st, &a[3])?;
                let Val::C(np) = np else { unreachable!() };
                if np == 0 {
                    return Ok(Some(c(0)));
                }
                let idx = (p >> SHIFT) as usize;
                let used = match st.mem.obj(idx) {
                    Some(o) if o.heap => o.data.len() as u64,
                    _ => return Err(Stop::Viol("memory".into(), "realloc of an invalid pointer".into())),
                };
                let mut n = used.min(old);
                if let Val::C(ns) = a[3] {
                    n = n.min(ns as u64);
                }
                self.copy(st, np as u64, p, n)?;
                self.free(st, p)?;
                Ok(Some(c(np)))
            }
            Hook::Bcmp | Hook::Memcmp => {
                let n = self.conc(st, &a[2])? as u64;
                if n == 0 {
                    return Ok(Some(c(0)));
                }
                let p = self.conc(st, &a[0])? as u64;
                let q = self.conc(st, &a[1])? as u64;
                let x = self.bytes_of(st, p, n)?;
                let y = self.bytes_of(st, q, n)?;
                if h == Hook::Bcmp {
                    let mut eq = self.pool.c(1, 1);
                    for (u, v) in x.iter().zip(&y) {
                        let e = self.pool.cmp(CmpOp::Eq, *u, *v);
                        eq = self.pool.bin(BinOp::And, eq, e);
                    }
                    let ne = self.pool.not(eq);
                    let r = self.pool.zext(ne, 32);
                    Ok(Some(self.wrap(r)))
                } else {
                    let mut r = self.pool.c(0, 32);
                    let m1 = self.pool.c(0xFFFF_FFFF, 32);
                    let p1 = self.pool.c(1, 32);
                    for (u, v) in x.iter().zip(&y).rev() {
                        let e = self.pool.cmp(CmpOp::Eq, *u, *v);
                        let l = self.pool.cmp(CmpOp::Ult, *u, *v);
                        let d = self.pool.ite(l, m1, p1);
                        r = self.pool.ite(e, r, d);
                    }
                    Ok(Some(self.wrap(r)))
                }
            }
            Hook::Strlen => {
                let p = self.conc(st, &a[0])? as u64;
                let mut n = 0u64;
                loop {
                    let b = self.load_at(st, p + n, &Ty::Int(8))?;
                    let b = self.conc(st, &b)?;
                    if b == 0 {
                        return Ok(Some(c(n as u128)));
                    }
                    n += 1;
                }
            }
            Hook::MemCpy => {
                let n = self.conc(st, &a[2])? as u64;
                let d = self.conc(st, &a[0])? as u64;
                let s = self.conc(st, &a[1])? as u64;
                self.copy(st, d, s, n)?;
                Ok(Some(c(d as u128)))
            }
            Hook::MemSet => {
                self.memset(st, a)?;
                Ok(Some(a[0].clone()))
            }
            Hook::Panic => {
                let loc = self.panic_loc(st, a);
                Err(Stop::Viol("panic".into(), loc))
            }
            Hook::Abort => Err(Stop::Viol("panic".into(), "abort".into())),
            Hook::RandKeys => Ok(Some(Val::Agg(Rc::new(vec![c(0x0123456789abcdef), c(0xfedcba9876543210)])))),
            Hook::Intr => self.intrinsic(st, f, a, call),
            Hook::None => unreachable!(),
        }
    }

    fn memset(&mut self, st: &mut State, a: &[Val]) -> X<()> {
        let n = self.conc(st, &a[2])? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = self.conc(st, &a[0])? as u64;
        let (idx, off) = self.access(st, d, n, true)?;
        let n = n as usize;
        match &a[1] {
            Val::C(k) => {
                let o = st.mem.obj_mut(idx).unwrap();
                if *k == 0 && off >= o.data.len() {
                    // already zero
                    return Ok(());
                }
                o.ensure(off + n);
                for b in &mut o.data[off..off + n] {
                    *b = *k as u8;
                }
                if !o.sym.is_empty() {
                    for s in &mut o.sym[off..off + n] {
                        *s = 0;
                    }
                }
            }
            Val::S(e) => {
                let e = *e;
                let o = st.mem.obj_mut(idx).unwrap();
                for i in 0..n {
                    o.set(off + i, 0, e);
                }
            }
            _ => return Err(Stop::Error("memset".into())),
        }
        Ok(())
    }

    /// A panic hook's last pointer argument is normally the `&Location`.
    fn panic_loc(&mut self, st: &mut State, a: &[Val]) -> String {
        for v in a.iter().rev() {
            let Val::C(p) = v else { continue };
            let p = *p as u64;
            let idx = (p >> SHIFT) as usize;
            let off = (p & ((1 << SHIFT) - 1)) as usize;
            let Some(o) = st.mem.obj(idx) else { continue };
            if o.size as usize != 24 || off != 0 {
                continue;
            }
            let o = o.clone();
            let rd = |o: &Obj, at: usize, n: usize| -> u64 {
                let mut k = 0u64;
                for i in (0..n).rev() {
                    k = (k << 8) | o.byte(at + i).0 as u64;
                }
                k
            };
            let (fp, fl) = (rd(&o, 0, 8), rd(&o, 8, 8));
            let (line, col) = (rd(&o, 16, 4), rd(&o, 20, 4));
            let fi = (fp >> SHIFT) as usize;
            if let Some(fo) = st.mem.obj(fi) {
                if fl <= fo.size && fl < 4096 {
                    let s: Vec<u8> = (0..fl as usize).map(|i| fo.byte(i).0).collect();
                    if let Ok(s) = String::from_utf8(s) {
                        return format!("{s}:{line}:{col}");
                    }
                }
            }
        }
        // fall back on the innermost frame with a known source position
        let t = self.trace(st);
        t.first().cloned().unwrap_or_default()
    }

    fn late(&self) -> bool {
        self.deadline.is_some_and(|d| Instant::now() > d)
    }

    fn crc(&mut self, state: E, bytes: &[E]) -> X<E> {
        let conc: Option<Vec<u8>> = bytes.iter().map(|b| self.pool.as_const(*b).map(|k| k as u8)).collect();
        if let (Some(k), Some(bs)) = (self.pool.as_const(state), &conc) {
            let mut s = k as u32;
            for b in bs {
                s ^= *b as u32;
                for _ in 0..8 {
                    s = if s & 1 == 1 { (s >> 1) ^ 0xEDB8_8320 } else { s >> 1 };
                }
            }
            return Ok(self.pool.c(s as u128, 32));
        }
        // the state is an exclusive-or of a constant and of forms over symbolic bits; runs of
        // constant bytes advance the forms by a power of the step matrix
        let step = |mut s: u32| {
            for _ in 0..8 {
                s = if s & 1 == 1 { (s >> 1) ^ 0xEDB8_8320 } else { s >> 1 };
            }
            s
        };
        let mut konst = 0u32;
        let mut bits: Vec<Vec<E>> = Vec::with_capacity(32);
        for i in 0..32 {
            let e = self.pool.extract(state, i, 1);
            let (x, k) = self.pool.lin_of(e);
            bits.push(x);
            konst |= (k as u32) << i;
        }
        let mut wait = 0usize;
        for b in bytes {
            if let Some(k) = self.pool.as_const(*b) {
                konst = step(konst ^ k as u32);
                wait += 1;
                continue;
            }
            if self.late() {
                return Err(Stop::Limit("time limit".into()));
            }
            crc_advance(&mut bits, wait);
            for i in 0..8 {
                let e = self.pool.extract(*b, i as u32, 1);
                let (x, k) = self.pool.lin_of(e);
                bits[i] = Pool::sym_diff(&bits[i], &x);
                konst ^= (k as u32) << i;
            }
            konst = step(konst);
            wait = 1;
        }
        crc_advance(&mut bits, wait);
        let bits = bits.into_iter().enumerate().map(|(i, v)| (v, konst >> i & 1 == 1));
        let es: Vec<E> = bits.map(|(v, k)| self.pool.mk_lin(v, k)).collect();
        Ok(self.pool.from_bits(&es))
    }

    fn intrinsic(&mut self, st: &mut State, f: u32, a: &[Val], call: &Call) -> X<Option<Val>> {
        let name = self.m.funcs[f as usize].name.clone();
        let n = &name[5..];
        let w = call.args.first().map_or(0, |x| x.0.width());
        if n.starts_with("lifetime")
            || n.starts_with("assume")
            || n.starts_with("experimental.noalias")
            || n.starts_with("dbg.")
            || n.starts_with("x86.sse2.pause")
            || n.starts_with("invariant")
            || n.starts_with("prefetch")
            || n.starts_with("sideeffect")
            || n.starts_with("donothing")
        {
            return Ok(None);
        }
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let k = self.conc(st, &a[2])? as u64;
            if k == 0 {
                return Ok(None);
            }
            let d = self.conc(st, &a[0])? as u64;
            let s = self.conc(st, &a[1])? as u64;
            self.copy(st, d, s, k)?;
            return Ok(None);
        }
        if n.starts_with("memset") {
            self.memset(st, a)?;
            return Ok(None);
        }
        if n.starts_with("trap") || n.starts_with("ubsantrap") {
            return Err(Stop::Viol("panic".into(), "trap".into()));
        }
        if n.starts_with("threadlocal.address") || n.starts_with("expect") || n.starts_with("launder") || n.starts_with("ptrmask.none") {
            return Ok(Some(a[0].clone()));
        }
        if n.starts_with("is.constant") {
            return Ok(Some(c(0)));
        }
        if n.starts_with("objectsize") {
            return Ok(Some(c(mask(call.ret.width()))));
        }
        if w == 0 {
            return Err(Stop::Error(format!("vector intrinsic {name}")));
        }
        let ty = Ty::Int(w);
        let minmax = |s: &mut Self, p: Pred| {
            let cnd = s.icmp(p, &ty, &a[0], &a[1]);
            match cnd {
                Val::C(1) => a[0].clone(),
                Val::C(_) => a[1].clone(),
                Val::S(e) => s.select(&ty, e, &a[0], &a[1]),
                _ => unreachable!(),
            }
        };
        if n.starts_with("umin") {
            return Ok(Some(minmax(self, Pred::Ult)));
        }
        if n.starts_with("umax") {
            return Ok(Some(minmax(self, Pred::Ugt)));
        }
        if n.starts_with("smin") {
            return Ok(Some(minmax(self, Pred::Slt)));
        }
        if n.starts_with("smax") {
            return Ok(Some(minmax(self, Pred::Sgt)));
        }
        if n.starts_with("abs.") {
            let z = c(0);
            let neg = self.bin(BinOp::Sub, &ty, &z, &a[0])?;
            let lt = self.icmp(Pred::Slt, &ty, &a[0], &z);
            let e = self.ex(&lt, 1);
            return Ok(Some(self.select(&ty, e, &neg, &a[0])));
        }
        if n.starts_with("uadd.sat") {
            let s = self.bin(BinOp::Add, &ty, &a[0], &a[1])?;
            let ov = self.icmp(Pred::Ult, &ty, &s, &a[0]);
            let e = self.ex(&ov, 1);
            return Ok(Some(self.select(&ty, e, &c(mask(w)), &s)));
        }
        if n.starts_with("usub.sat") {
            let s = self.bin(BinOp::Sub, &ty, &a[0], &a[1])?;
            let ov = self.icmp(Pred::Ult, &ty, &a[0], &a[1]);
            let e = self.ex(&ov, 1);
            return Ok(Some(self.select(&ty, e, &c(0), &s)));
        }
        if n.contains(".with.overflow") {
            let signed = n.starts_with('s');
            let op = match &n[1..4] {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                _ => BinOp::Mul,
            };
            let ww = if op == BinOp::Mul { 2 * w } else { w + 1 };
            if ww > 128 && !(matches!(a[0], Val::C(_)) && matches!(a[1], Val::C(_))) {
                return Err(Stop::Error(format!("{name} on symbolic 128-bit values")));
            }
            if ww > 128 {
                // concrete 128-bit
                let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) else { unreachable!() };
                let (r, o) = match (op, signed) {
                    (BinOp::Add, false) => x.overflowing_add(*y),
                    (BinOp::Sub, false) => x.overflowing_sub(*y),
                    (BinOp::Mul, false) => x.overflowing_mul(*y),
                    (BinOp::Add, true) => {
                        let (r, o) = (*x as i128).overflowing_add(*y as i128);
                        (r as u128, o)
                    }
                    (BinOp::Sub, true) => {
                        let (r, o) = (*x as i128).overflowing_sub(*y as i128);
                        (r as u128, o)
                    }
                    (_, _) => {
                        let (r, o) = (*x as i128).overflowing_mul(*y as i128);
                        (r as u128, o)
                    }
                };
                return Ok(Some(Val::Agg(Rc::new(vec![c(r), c(o as u128)]))));
            }
            let wt = Ty::Int(ww);
            let k = if signed { CastK::Sext } else { CastK::Zext };
            let x = self.cast(k, &ty, &wt, &a[0])?;
            let y = self.cast(k, &ty, &wt, &a[1])?;
            let full = self.bin(op, &wt, &x, &y)?;
            let r = self.cast(CastK::Trunc, &wt, &ty, &full)?;
            let back = self.cast(k, &ty, &wt, &r)?;
            let ov = self.icmp(Pred::Ne, &wt, &back, &full);
            return Ok(Some(Val::Agg(Rc::new(vec![r, ov]))));
        }
        if n.starts_with("bswap") {
            return Ok(Some(match &a[0] {
                Val::C(x) => {
                    let mut r = 0u128;
                    for i in 0..w / 8 {
                        r |= ((x >> (8 * i)) & 0xFF) << (w - 8 - 8 * i);
                    }
                    c(r)
                }
                v => {
                    let e = self.ex(v, w);
                    let mut r = self.pool.extract(e, 0, 8);
                    for i in 1..w / 8 {
                        let b = self.pool.extract(e, 8 * i, 8);
                        r = self.pool.concat(r, b);
                    }
                    self.wrap(r)
                }
            }));
        }
        if n.starts_with("fshl") || n.starts_with("fshr") {
            let left = n.starts_with("fshl");
            let s = match &a[2] {
                Val::C(s) => (*s % w as u128) as u32,
                v => (self.conc(st, v)? % w as u128) as u32,
            };
            if s == 0 {
                return Ok(Some(a[if left { 0 } else { 1 }].clone()));
            }
            let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
            let s = if left { s } else { w - s };
            // (x << s) | (y >> (w-s))
            let hi = self.pool.extract(x, 0, w - s);
            let lo = self.pool.extract(y, w - s, s);
            let r = self.pool.concat(hi, lo);
            return Ok(Some(self.wrap(r)));
        }
        if n.starts_with("ucmp") || n.starts_with("scmp") {
            let sg = n.starts_with('s');
            let lt = self.icmp(if sg { Pred::Slt } else { Pred::Ult }, &ty, &a[0], &a[1]);
            let gt = self.icmp(if sg { Pred::Sgt } else { Pred::Ugt }, &ty, &a[0], &a[1]);
            let rt = call.ret.clone();
            let rw = rt.width();
            let (l, g) = (self.ex(&lt, 1), self.ex(&gt, 1));
            let inner = self.select(&rt, g, &c(1), &c(0));
            return Ok(Some(self.select(&rt, l, &c(mask(rw)), &inner)));
        }
        if n.starts_with("ctpop") || n.starts_with("cttz") || n.starts_with("ctlz") || n.starts_with("bitreverse") {
            if let Val::C(x) = &a[0] {
                let x = *x;
                let r = if n.starts_with("ctpop") {
                    x.count_ones() as u128
                } else if n.starts_with("cttz") {
                    (x.trailing_zeros()).min(w) as u128
                } else if n.starts_with("ctlz") {
                    (x.leading_zeros() - (128 - w)) as u128
                } else {
                    x.reverse_bits() >> (128 - w)
                };
                return Ok(Some(c(r)));
            }
            let e = self.ex(&a[0], w);
            let r = if n.starts_with("ctpop") {
                let mut acc = self.pool.c(0, w);
                for i in 0..w {
                    let b = self.pool.extract(e, i, 1);
                    let z = self.pool.zext(b, w);
                    acc = self.pool.bin(BinOp::Add, acc, z);
                }
                acc
            } else if n.starts_with("bitreverse") {
                let mut r = self.pool.extract(e, 0, 1);
                for i in 1..w {
                    let b = self.pool.extract(e, i, 1);
                    r = self.pool.concat(r, b);
                }
                r
            } else {
                let tz = n.starts_with("cttz");
                let mut r = self.pool.c(w as u128, w);
                for k in 0..w {
                    // lowest priority first
                    let i = if tz { w - 1 - k } else { k };
                    let cnt = if tz { i } else { w - 1 - i };
                    let b = self.pool.extract(e, i, 1);
                    let kc = self.pool.c(cnt as u128, w);
                    r = self.pool.ite(b, kc, r);
                }
                r
            };
            return Ok(Some(self.wrap(r)));
        }
        Err(Stop::Error(format!("intrinsic {name}")))
    }
}

fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::C(x), Val::C(y)) => x == y,
        (Val::S(x), Val::S(y)) => x == y,
        _ => false,
    }
}

fn insert(v: &Val, ix: &[u32], x: Val) -> Val {
    if ix.is_empty() {
        return x;
    }
    match v {
        Val::Agg(a) => {
            let mut b = (**a).clone();
            let k = ix[0] as usize;
            b[k] = insert(&b[k].clone(), &ix[1..], x);
            Val::Agg(Rc::new(b))
        }
        _ => panic!("insertvalue into scalar"),
    }
}

fn init_bytes(o: &mut Obj, off: usize, ty: &Ty, v: &Val) {
    match (ty, v) {
        (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), Val::Agg(xs)) => {
            for (i, x) in xs.iter().enumerate() {
                let (fo, ft) = ty.field(i);
                init_bytes(o, off + fo as usize, &ft, x);
            }
        }
        (_, Val::C(k)) => {
            let n = ((ty.width() + 7) / 8) as usize;
            for i in 0..n {
                o.set(off + i, (*k >> (8 * i)) as u8, 0);
            }
        }
        _ => panic!("initialiser"),
    }
}

/// The forms of a CRC state after `n` zero bytes.
fn crc_advance(bits: &mut Vec<Vec<E>>, n: usize) {
    if n == 0 || bits.iter().all(|b| b.is_empty()) {
        return;
    }
    // column j of a matrix: the image of bit j
    let mut m: [u32; 32] = std::array::from_fn(|j| {
        let mut s = 1u32 << j;
        for _ in 0..8 {
            s = if s & 1 == 1 { (s >> 1) ^ 0xEDB8_8320 } else { s >> 1 };
        }
        s
    });
    let apply = |m: &[u32; 32], v: u32| (0..32).filter(|j| v >> j & 1 == 1).fold(0, |a, j| a ^ m[j]);
    let mut p: [u32; 32] = std::array::from_fn(|j| 1u32 << j);
    let mut k = n;
    while k > 0 {
        if k & 1 == 1 {
            p = std::array::from_fn(|j| apply(&m, p[j]));
        }
        m = std::array::from_fn(|j| apply(&m, m[j]));
        k >>= 1;
    }
    let mut out: Vec<Vec<E>> = vec![Vec::new(); 32];
    for (i, o) in out.iter_mut().enumerate() {
        for (j, b) in bits.iter().enumerate() {
            if p[j] >> i & 1 == 1 && !b.is_empty() {
                *o = Pool::sym_diff(o, b);
            }
        }
    }
    *bits = out;
}
