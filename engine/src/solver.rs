//! Z3 (C API) as the decision procedure, with constraint slicing and a query cache.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    logic: P,
    params: P,
    bv: HashMap<E, usize>,
    bo: HashMap<E, usize>,
    cache: HashMap<Vec<E>, Res>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub fallbacks: u64,
    pub reduced: u64,
    hard_timeout_ms: u32,
    pub time: f64,
    pub max_query: f64,
    pub dump: Option<String>,
    dumped: u32,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            let l = CString::new("QF_BV").unwrap();
            let logic = Z3_mk_string_symbol(ctx, l.as_ptr());
            let params = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, params);
            let t = CString::new("timeout").unwrap();
            let ts = Z3_mk_string_symbol(ctx, t.as_ptr());
            Z3_params_set_uint(ctx, params, ts, timeout_ms.min(2000));
            Solver {
                ctx,
                logic,
                params,
                bv: HashMap::new(),
                bo: HashMap::new(),
                cache: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                cached: 0,
                fallbacks: 0,
                reduced: 0,
                hard_timeout_ms: timeout_ms,
                time: 0.0,
                max_query: 0.0,
                dump: None,
                dumped: 0,
            }
        }
    }
    pub fn version() -> String {
        let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
        unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
        format!("{a}.{b}.{c}")
    }

    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.ctx, a) };
        a
    }

    fn order(p: &Pool, e: E, done: &dyn Fn(E) -> bool) -> Vec<E> {
        // post-order of not yet translated nodes
        let mut out = Vec::new();
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![(e, false)];
        while let Some((x, ex)) = st.pop() {
            if ex {
                out.push(x);
                continue;
            }
            if done(x) || !seen.insert(x) {
                continue;
            }
            st.push((x, true));
            match p.n(x) {
                Node::Const(_) | Node::Var(_) => {}
                Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => {
                    st.push((a, false));
                    st.push((b, false));
                }
                Node::Ite(a, b, c) => {
                    st.push((a, false));
                    st.push((b, false));
                    st.push((c, false));
                }
                Node::Extract(a, _) | Node::Zext(a) | Node::Sext(a) => st.push((a, false)),
                Node::Lin(i) => {
                    for &a in p.lins[i as usize].iter() {
                        st.push((a, false));
                    }
                }
            }
        }
        out
    }

    fn bvt(&mut self, p: &Pool, e: E) -> P {
        if let Some(&a) = self.bv.get(&e) {
            return a as P;
        }
        // width-1 values live as booleans
        let c = self.ctx;
        let r = unsafe {
            let b = self.bo[&e] as P;
            let s = Z3_mk_bv_sort(c, 1);
            let one = Z3_mk_unsigned_int64(c, 1, s);
            Z3_inc_ref(c, one);
            let zero = Z3_mk_unsigned_int64(c, 0, s);
            Z3_inc_ref(c, zero);
            Z3_mk_ite(c, b, one, zero)
        };
        let _ = p;
        let r = self.keep(r);
        self.bv.insert(e, r as usize);
        r
    }
    fn bot(&mut self, e: E) -> P {
        self.bo[&e] as P
    }

    fn translate(&mut self, p: &Pool, e: E) {
        let todo = {
            let bv = &self.bv;
            let bo = &self.bo;
            Self::order(p, e, &|x| bo.contains_key(&x) || bv.contains_key(&x))
        };
        let c = self.ctx;
        for x in todo {
            let w = p.w(x);
            unsafe {
                if w == 1 {
                    let r = match p.n(x) {
                        Node::Const(0) => Z3_mk_false(c),
                        Node::Const(_) => Z3_mk_true(c),
                        Node::Var(_) => unreachable!(),
                        Node::Bin(op, a, b) => {
                            let (pa, pb) = (self.bot(a), self.bot(b));
                            match op {
                                BinOp::And | BinOp::Mul => Z3_mk_and(c, 2, [pa, pb].as_ptr()),
                                BinOp::Or => Z3_mk_or(c, 2, [pa, pb].as_ptr()),
                                BinOp::Xor | BinOp::Add | BinOp::Sub => Z3_mk_xor(c, pa, pb),
                                _ => {
                                    let (pa, pb) = (self.bvt(p, a), self.bvt(p, b));
                                    let r = bvop(c, op, pa, pb);
                                    Z3_inc_ref(c, r);
                                    let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                                    Z3_inc_ref(c, one);
                                    Z3_mk_eq(c, r, one)
                                }
                            }
                        }
                        Node::Cmp(op, a, b) => {
                            if p.w(a) == 1 && op == CmpOp::Eq {
                                let (pa, pb) = (self.bot(a), self.bot(b));
                                Z3_mk_eq(c, pa, pb)
                            } else {
                                let (pa, pb) = (self.bvt(p, a), self.bvt(p, b));
                                match op {
                                    CmpOp::Eq => Z3_mk_eq(c, pa, pb),
                                    CmpOp::Ult => Z3_mk_bvult(c, pa, pb),
                                    CmpOp::Ule => Z3_mk_bvule(c, pa, pb),
                                    CmpOp::Slt => Z3_mk_bvslt(c, pa, pb),
                                    CmpOp::Sle => Z3_mk_bvsle(c, pa, pb),
                                }
                            }
                        }
                        Node::Ite(a, b, d) => {
                            let (pa, pb, pd) = (self.bot(a), self.bot(b), self.bot(d));
                            Z3_mk_ite(c, pa, pb, pd)
                        }
                        Node::Extract(a, lo) => {
                            let pa = self.bvt(p, a);
                            let ex = Z3_mk_extract(c, lo, lo, pa);
                            Z3_inc_ref(c, ex);
                            let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                            Z3_inc_ref(c, one);
                            Z3_mk_eq(c, ex, one)
                        }
                        Node::Lin(i) => {
                            let at: Vec<P> = p.lins[i as usize].iter().map(|&a| self.bot(a)).collect();
                            let mut r = at[0];
                            for &a in &at[1..] {
                                r = Z3_mk_xor(c, r, a);
                                Z3_inc_ref(c, r);
                            }
                            r
                        }
                        Node::Concat(..) | Node::Zext(_) | Node::Sext(_) => unreachable!(),
                    };
                    let r = self.keep(r);
                    self.bo.insert(x, r as usize);
                } else {
                    let s = Z3_mk_bv_sort(c, w);
                    let r = match p.n(x) {
                        Node::Const(v) => {
                            if w <= 64 {
                                Z3_mk_unsigned_int64(c, v as u64, s)
                            } else {
                                let t = CString::new(format!("{v}")).unwrap();
                                Z3_mk_numeral(c, t.as_ptr(), s)
                            }
                        }
                        Node::Var(i) => Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), s),
                        Node::Bin(op, a, b) => {
                            let (pa, pb) = (self.bvt(p, a), self.bvt(p, b));
                            bvop(c, op, pa, pb)
                        }
                        Node::Cmp(..) | Node::Lin(_) => unreachable!(),
                        Node::Ite(a, b, d) => {
                            let pa = self.bot(a);
                            let (pb, pd) = (self.bvt(p, b), self.bvt(p, d));
                            Z3_mk_ite(c, pa, pb, pd)
                        }
                        Node::Extract(a, lo) => {
                            let pa = self.bvt(p, a);
                            Z3_mk_extract(c, lo + w - 1, lo, pa)
                        }
                        Node::Concat(a, b) => {
                            let (pa, pb) = (self.bvt(p, a), self.bvt(p, b));
                            Z3_mk_concat(c, pa, pb)
                        }
                        Node::Zext(a) => {
                            let pa = self.bvt(p, a);
                            Z3_mk_zero_ext(c, w - p.w(a), pa)
                        }
                        Node::Sext(a) => {
                            let pa = self.bvt(p, a);
                            Z3_mk_sign_ext(c, w - p.w(a), pa)
                        }
                    };
                    let r = self.keep(r);
                    self.bv.insert(x, r as usize);
                }
            }
        }
    }

    /// Constraints of `pc` that share (transitively) an input variable with `q`.
    fn slice(&mut self, p: &mut Pool, pc: &[E], q: E) -> Vec<E> {
        let mut vars: std::collections::HashSet<u32> = p.vars(q).iter().copied().collect();
        let mut used = vec![false; pc.len()];
        let mut out = vec![q];
        loop {
            let mut grown = false;
            for (i, &c) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = p.vars(c);
                if vs.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    grown = true;
                    out.push(c);
                    vars.extend(vs.iter().copied());
                }
            }
            if !grown {
                break;
            }
        }
        out.sort_unstable();
        out.dedup();
        out
    }

    /// Is `pc /\ q` satisfiable? On success returns values for the variables involved.
    pub fn check(&mut self, p: &mut Pool, pc: &[E], q: E) -> Res {
        if let Some(k) = p.as_const(q) {
            return if k == 1 { Res::Sat(Vec::new()) } else { Res::Unsat };
        }
        let set = self.slice(p, pc, q);
        if let Some(r) = self.cache.get(&set) {
            self.cached += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let mut vars: Vec<u32> = Vec::new();
        for &e in &set {
            vars.extend(p.vars(e).iter().copied());
        }
        let mut was_reduced = false;
        let reduced = match gauss(p, &set) {
            Some(r) => {
                was_reduced = true;
                self.reduced += 1;
                r
            }
            None => set.clone(),
        };
        for &e in &reduced {
            self.translate(p, e);
        }
        vars.sort_unstable();
        vars.dedup();
        let c = self.ctx;
        let r = unsafe {
            let s = Z3_mk_solver_for_logic(c, self.logic);
            Z3_solver_inc_ref(c, s);
            Z3_solver_set_params(c, s, self.params);
            for &e in &reduced {
                let a = self.bot(e);
                Z3_solver_assert(c, s, a);
            }
            if let Some(d) = &self.dump {
                let st = std::ffi::CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().to_string();
                self.dumped += 1;
                let _ = std::fs::write(
                    format!("{d}/q{:06}.smt2", self.dumped),
                    format!("(set-logic QF_BV)\n{st}\n(check-sat)\n"),
                );
            }
            let mut verdict = Z3_solver_check(c, s);
            let mut external = None;
            if verdict == 0 {
                // the same query in fresh processes, in the order of their usual success
                let text = std::ffi::CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().to_string();
                self.fallbacks += 1;
                if let Some((v, m)) = fallback(&text, &vars, self.hard_timeout_ms) {
                    verdict = v;
                    external = Some(m);
                }
            }
            let r = match verdict {
                1 if external.is_some() => {
                    self.sat += 1;
                    Res::Sat(external.unwrap())
                }
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = Vec::new();
                    for v in vars {
                        let ve = p.var(v);
                        self.translate(p, ve);
                        let pv = self.bvt(p, ve);
                        let mut res: P = std::ptr::null_mut();
                        if Z3_model_eval(c, m, pv, true, &mut res) {
                            let mut u = 0u64;
                            Z3_get_numeral_uint64(c, res, &mut u);
                            out.push((v, u as u8));
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    self.sat += 1;
                    Res::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            Z3_solver_dec_ref(c, s);
            r
        };
        // a model of the reduced query must be one of the query itself
        let r = match r {
            Res::Sat(m) if was_reduced && !holds(p, &set, &m) => {
                self.sat -= 1;
                self.unknown += 1;
                Res::Unknown
            }
            r => r,
        };
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1;
        self.time += dt;
        if dt > self.max_query {
            self.max_query = dt;
        }
        self.cache.insert(set, r.clone());
        r
    }
}

fn holds(p: &Pool, set: &[E], m: &[(u32, u8)]) -> bool {
    let top = m.iter().map(|x| x.0).max().unwrap_or(0) as usize;
    let mut model = vec![0u8; top + 1];
    for &(v, x) in m {
        model[v as usize] = x;
    }
    let mut memo = HashMap::new();
    set.iter().all(|&e| p.eval_m(e, &model, &mut memo) == 1)
}

/// Replaces the exclusive-or equations among the conjuncts (checksums) by their reduced row echelon
/// form: an equivalent set, far easier on the solver. None when there is nothing to gain.
fn gauss(p: &mut Pool, set: &[E]) -> Option<Vec<E>> {
    let mut rest = Vec::new();
    let mut eqs: Vec<(Vec<E>, bool)> = Vec::new();
    let mut long = 0;
    let mut st: Vec<E> = set.to_vec();
    while let Some(e) = st.pop() {
        match p.n(e) {
            Node::Bin(BinOp::And, a, b) => {
                st.push(a);
                st.push(b);
            }
            Node::Lin(_) | Node::Bin(BinOp::Xor, ..) => {
                let (atoms, k) = p.lin_of(e);
                let plain = |&x: &E| matches!(p.n(x), Node::Extract(..) | Node::Cmp(..));
                if !atoms.iter().all(plain) {
                    rest.push(e);
                } else {
                    if atoms.len() > 1 {
                        long += 1;
                    }
                    eqs.push((atoms, !k)); // xor of the atoms == !k
                }
            }
            Node::Cmp(CmpOp::Eq, a, b) => {
                rest.push(e);
                if let (Node::Var(_), Some(k)) = (p.n(a), p.as_const(b)) {
                    for i in 0..8 {
                        let x = p.extract(a, i, 1);
                        eqs.push((vec![x], (k >> i) & 1 == 1));
                    }
                }
            }
            Node::Extract(..) => eqs.push((vec![e], true)),
            _ => rest.push(e),
        }
    }
    if long < 2 {
        return None;
    }
    let mut atoms: Vec<E> = eqs.iter().flat_map(|(a, _)| a.iter().copied()).collect();
    atoms.sort_unstable();
    atoms.dedup();
    // solve for bits that nothing else speaks about
    let mut busy: std::collections::HashSet<u32> = Default::default();
    for &e in &rest {
        busy.extend(p.vars(e).iter().copied());
    }
    let mut order: Vec<usize> = (0..atoms.len()).collect();
    order.sort_by_key(|&i| p.vars(atoms[i]).iter().any(|v| busy.contains(v)));
    let n = atoms.len();
    let words = n / 64 + 1;
    let mut rows: Vec<Vec<u64>> = eqs
        .iter()
        .map(|(a, k)| {
            let mut r = vec![0u64; words];
            for x in a {
                let i = atoms.binary_search(x).unwrap();
                r[i / 64] ^= 1 << (i % 64);
            }
            if *k {
                r[n / 64] ^= 1 << (n % 64);
            }
            r
        })
        .collect();
    let bit = |r: &Vec<u64>, i: usize| (r[i / 64] >> (i % 64)) & 1 == 1;
    let mut rank = 0;
    let mut pivots = Vec::new();
    for col in order {
        let Some(pv) = (rank..rows.len()).find(|&r| bit(&rows[r], col)) else { continue };
        rows.swap(rank, pv);
        let piv = rows[rank].clone();
        for (i, r) in rows.iter_mut().enumerate() {
            if i != rank && bit(r, col) {
                for (x, y) in r.iter_mut().zip(&piv) {
                    *x ^= *y;
                }
            }
        }
        pivots.push(col);
        rank += 1;
    }
    for r in &rows[rank..] {
        if bit(r, n) {
            return Some(vec![p.c(0, 1)]); // 0 == 1
        }
    }
    let mut out = Vec::new();
    let mut sub: HashMap<E, (Vec<E>, bool)> = HashMap::new(); // pivot -> the others, constant
    for (k, r) in rows[..rank].iter().enumerate() {
        let a: Vec<E> = (0..n).filter(|&i| bit(r, i)).map(|i| atoms[i]).collect();
        let others = a.iter().copied().filter(|&x| x != atoms[pivots[k]]).collect();
        sub.insert(atoms[pivots[k]], (others, bit(r, n)));
        let e = p.mk_lin(a, !bit(r, n));
        out.push(e);
    }
    // what the other conjuncts say, for use inside of a conjunct
    let mut facts: HashMap<E, E> = HashMap::new();
    let (zero, one) = (p.c(0, 1), p.c(1, 1));
    for &e in &rest {
        match p.n(e) {
            Node::Bin(BinOp::Xor, a, b) if p.as_const(b) == Some(1) => facts.insert(a, zero),
            Node::Cmp(CmpOp::Eq, a, b) if matches!(p.n(a), Node::Var(_)) && p.as_const(b).is_some() => {
                facts.insert(e, one);
                facts.insert(a, b)
            }
            _ => facts.insert(e, one),
        };
    }
    let mut memo = HashMap::new();
    for e in rest {
        let e = match p.n(e) {
            Node::Cmp(CmpOp::Eq, a, b) if matches!(p.n(a), Node::Var(_)) && p.as_const(b).is_some() => e,
            Node::Bin(BinOp::Xor, a, b) if p.as_const(b) == Some(1) => {
                let a = rebuild(p, a, &sub, &facts, &mut memo);
                p.bin(BinOp::Xor, a, b)
            }
            _ => rebuild(p, e, &sub, &facts, &mut memo),
        };
        match p.as_const(e) {
            Some(0) => return Some(vec![e]),
            Some(_) => {}
            None => out.push(e),
        }
    }
    if out.is_empty() {
        out.push(one);
    }
    Some(out)
}

type Sub = HashMap<E, (Vec<E>, bool)>;
/// `e` with pivots and facts replaced by what they are equal to.
fn modulo(p: &mut Pool, e: E, sub: &Sub, facts: &HashMap<E, E>, memo: &mut HashMap<E, E>) -> E {
    if let Some(&r) = facts.get(&e) {
        return r;
    }
    if let Some(&r) = memo.get(&e) {
        return r;
    }
    let r = rebuild(p, e, sub, facts, memo);
    memo.insert(e, r);
    r
}
/// The same, but `e` itself is not replaced by a fact.
fn rebuild(p: &mut Pool, e: E, sub: &Sub, facts: &HashMap<E, E>, memo: &mut HashMap<E, E>) -> E {
    let w = p.w(e);
    let lin = w == 1 && matches!(p.n(e), Node::Lin(_) | Node::Extract(..) | Node::Bin(BinOp::Xor, ..));
    if lin {
        let (atoms, mut k) = p.lin_of(e);
        let mut lin: Vec<E> = Vec::new();
        for a in atoms {
            match sub.get(&a) {
                Some((o, c)) => {
                    lin = Pool::sym_diff(&lin, o);
                    k ^= *c;
                }
                None => {
                    let m = match p.n(a) {
                        Node::Extract(x, lo) => match p.n(x) {
                            Node::Var(_) => match facts.get(&x) {
                                Some(&c) => p.extract(c, lo, 1),
                                None => a,
                            },
                            _ => {
                                let y = modulo(p, x, sub, facts, memo);
                                p.extract(y, lo, 1)
                            }
                        },
                        Node::Lin(_) => a,
                        _ if a == e => return e,
                        _ => modulo(p, a, sub, facts, memo),
                    };
                    let (o, c) = p.lin_of(m);
                    lin = Pool::sym_diff(&lin, &o);
                    k ^= c;
                }
            }
        }
        return p.mk_lin(lin, k);
    }
    match p.n(e) {
        Node::Const(_) | Node::Var(_) | Node::Lin(_) => e,
        Node::Bin(op, a, b) => {
            let x = modulo(p, a, sub, facts, memo);
            let y = modulo(p, b, sub, facts, memo);
            if (x, y) == (a, b) { e } else { p.bin(op, x, y) }
        }
        Node::Cmp(op, a, b) => {
            let x = modulo(p, a, sub, facts, memo);
            let y = modulo(p, b, sub, facts, memo);
            if (x, y) == (a, b) { e } else { p.cmp(op, x, y) }
        }
        Node::Concat(a, b) => {
            let x = modulo(p, a, sub, facts, memo);
            let y = modulo(p, b, sub, facts, memo);
            if (x, y) == (a, b) { e } else { p.concat(x, y) }
        }
        Node::Ite(c, a, b) => {
            let c2 = modulo(p, c, sub, facts, memo);
            match p.as_const(c2) {
                Some(1) => modulo(p, a, sub, facts, memo),
                Some(_) => modulo(p, b, sub, facts, memo),
                None => {
                    let x = modulo(p, a, sub, facts, memo);
                    let y = modulo(p, b, sub, facts, memo);
                    p.ite(c2, x, y)
                }
            }
        }
        Node::Extract(a, lo) => {
            let x = modulo(p, a, sub, facts, memo);
            if x == a { e } else { p.extract(x, lo, w) }
        }
        Node::Zext(a) => {
            let x = modulo(p, a, sub, facts, memo);
            p.zext(x, w)
        }
        Node::Sext(a) => {
            let x = modulo(p, a, sub, facts, memo);
            p.sext(x, w)
        }
    }
}

/// Decides an SMT-LIB query with the command line solvers.
fn fallback(text: &str, vars: &[u32], timeout_ms: u32) -> Option<(c_int, Vec<(u32, u8)>)> {
    use std::io::Write;
    let secs = (timeout_ms / 1000).max(1);
    let mut q = format!("(set-logic QF_BV)\n(set-option :produce-models true)\n{text}\n(check-sat)\n");
    // variables the query does not mention are free
    let names: Vec<u32> = vars.iter().copied().filter(|v| text.contains(&format!("k!{v} ")) || text.contains(&format!("k!{v})"))).collect();
    if !names.is_empty() {
        let l: Vec<String> = names.iter().map(|v| format!("k!{v}")).collect();
        q.push_str(&format!("(get-value ({}))\n", l.join(" ")));
    }
    let tools: [(&str, Vec<String>); 3] = [
        ("z3-new", vec!["-in".into(), format!("-T:{}", secs.min(20))]),
        ("cvc5", vec!["--lang=smt2".into(), format!("--tlimit={timeout_ms}"), "-".into()]),
        ("z3", vec!["-in".into(), format!("-T:{secs}")]),
    ];
    for (cmd, args) in tools {
        let Ok(mut ch) = std::process::Command::new(cmd)
            .args(&args)
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()
        else {
            continue;
        };
        if let Some(mut i) = ch.stdin.take() {
            let _ = i.write_all(q.as_bytes());
        }
        let Ok(o) = ch.wait_with_output() else { continue };
        let o = String::from_utf8_lossy(&o.stdout).to_string();
        if o.starts_with("unsat") {
            return Some((-1, Vec::new()));
        }
        if o.starts_with("sat") {
            let mut m = Vec::new();
            let toks: Vec<&str> = o.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|t| !t.is_empty()).collect();
            let mut i = 0;
            while i + 1 < toks.len() {
                if let Some(v) = toks[i].strip_prefix("k!").and_then(|n| n.parse::<u32>().ok()) {
                    let val = if let Some(h) = toks[i + 1].strip_prefix("#x") {
                        u8::from_str_radix(h, 16).ok()
                    } else if let Some(b) = toks[i + 1].strip_prefix("#b") {
                        u8::from_str_radix(b, 2).ok()
                    } else {
                        None
                    };
                    if let Some(x) = val {
                        m.push((v, x));
                    }
                }
                i += 1;
            }
            if m.len() == names.len() {
                return Some((1, m));
            }
        }
    }
    None
}

unsafe fn bvop(c: P, op: BinOp, a: P, b: P) -> P {
    match op {
        BinOp::Add => Z3_mk_bvadd(c, a, b),
        BinOp::Sub => Z3_mk_bvsub(c, a, b),
        BinOp::Mul => Z3_mk_bvmul(c, a, b),
        BinOp::UDiv => Z3_mk_bvudiv(c, a, b),
        BinOp::SDiv => Z3_mk_bvsdiv(c, a, b),
        BinOp::URem => Z3_mk_bvurem(c, a, b),
        BinOp::SRem => Z3_mk_bvsrem(c, a, b),
        BinOp::And => Z3_mk_bvand(c, a, b),
        BinOp::Or => Z3_mk_bvor(c, a, b),
        BinOp::Xor => Z3_mk_bvxor(c, a, b),
        BinOp::Shl => Z3_mk_bvshl(c, a, b),
        BinOp::LShr => Z3_mk_bvlshr(c, a, b),
        BinOp::AShr => Z3_mk_bvashr(c, a, b),
    }
}

#[allow(dead_code)]
unsafe fn _unused(c: P, a: P) -> P {
    Z3_mk_not(c, a)
}
