//! Hash-consed bit-vector terms with a local simplifier.

use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum CmpOp {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Bin(BinOp, E, E),
    Cmp(CmpOp, E, E),
    Ite(E, E, E),
    Extract(E, u32),
    Concat(E, E),
    Zext(E),
    Sext(E),
    /// exclusive-or of several one-bit terms (interned in `Pool::lins`)
    Lin(u32),
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext_to_i128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

/// Concrete semantics; `None` for division by zero and the like.
pub fn fold_bin(op: BinOp, a: u128, b: u128, w: u32) -> Option<u128> {
    let m = mask(w);
    let r = match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        BinOp::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        BinOp::SDiv => {
            let (x, y) = (sext_to_i128(a, w), sext_to_i128(b, w));
            if y == 0 {
                return None;
            }
            x.wrapping_div(y) as u128
        }
        BinOp::SRem => {
            let (x, y) = (sext_to_i128(a, w), sext_to_i128(b, w));
            if y == 0 {
                return None;
            }
            x.wrapping_rem(y) as u128
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext_to_i128(a, w) >> s) as u128
        }
    };
    Some(r & m)
}

pub fn fold_cmp(op: CmpOp, a: u128, b: u128, w: u32) -> bool {
    match op {
        CmpOp::Eq => a == b,
        CmpOp::Ult => a < b,
        CmpOp::Ule => a <= b,
        CmpOp::Slt => sext_to_i128(a, w) < sext_to_i128(b, w),
        CmpOp::Sle => sext_to_i128(a, w) <= sext_to_i128(b, w),
    }
}

pub struct Pool {
    pub nodes: Vec<Node>,
    pub width: Vec<u32>,
    map: HashMap<(Node, u32), E>,
    varsets: HashMap<E, std::rc::Rc<Vec<u32>>>,
    pub lins: Vec<std::rc::Rc<Vec<E>>>,
    linmap: HashMap<std::rc::Rc<Vec<E>>, u32>,
}

impl Pool {
    pub fn new() -> Self {
        let mut p = Pool {
            nodes: Vec::new(),
            width: Vec::new(),
            map: HashMap::new(),
            varsets: HashMap::new(),
            lins: Vec::new(),
            linmap: HashMap::new(),
        };
        // id 0 is reserved ("no expression")
        p.nodes.push(Node::Const(0));
        p.width.push(0);
        p
    }
    fn mk(&mut self, n: Node, w: u32) -> E {
        if let Some(&e) = self.map.get(&(n, w)) {
            return e;
        }
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        self.width.push(w);
        self.map.insert((n, w), id);
        id
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.width[e as usize]
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.mk(Node::Const(v & mask(w)), w)
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        match self.n(e) {
            Node::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn var(&mut self, id: u32) -> E {
        self.mk(Node::Var(id), 8)
    }

    /// A one-bit term as an exclusive-or of atoms and a constant.
    pub fn lin_of(&self, e: E) -> (Vec<E>, bool) {
        match self.n(e) {
            Node::Const(v) => (Vec::new(), v == 1),
            Node::Lin(i) => (self.lins[i as usize].to_vec(), false),
            Node::Bin(BinOp::Xor, a, b) => {
                let (x, c) = self.lin_of(a);
                let (y, d) = self.lin_of(b);
                (Self::sym_diff(&x, &y), c ^ d)
            }
            _ => (vec![e], false),
        }
    }
    pub fn sym_diff(a: &[E], b: &[E]) -> Vec<E> {
        let mut out = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            if a[i] == b[j] {
                i += 1;
                j += 1;
            } else if a[i] < b[j] {
                out.push(a[i]);
                i += 1;
            } else {
                out.push(b[j]);
                j += 1;
            }
        }
        out.extend_from_slice(&a[i..]);
        out.extend_from_slice(&b[j..]);
        out
    }
    pub fn mk_lin(&mut self, atoms: Vec<E>, c: bool) -> E {
        let base = match atoms.len() {
            0 => return self.c(c as u128, 1),
            1 => atoms[0],
            _ => {
                let rc = std::rc::Rc::new(atoms);
                let id = match self.linmap.get(&rc) {
                    Some(&i) => i,
                    None => {
                        let i = self.lins.len() as u32;
                        self.lins.push(rc.clone());
                        self.linmap.insert(rc, i);
                        i
                    }
                };
                self.mk(Node::Lin(id), 1)
            }
        };
        if c {
            self.not(base)
        } else {
            base
        }
    }
    fn is_lin(&self, e: E) -> bool {
        match self.n(e) {
            Node::Lin(_) => true,
            Node::Bin(BinOp::Xor, a, b) => self.w(e) == 1 && (self.is_lin(a) || self.is_lin(b)),
            _ => false,
        }
    }
    /// A concatenation of checksum bits.
    fn has_lin(&self, e: E) -> bool {
        let mut x = e;
        while let Node::Concat(h, l) = self.n(x) {
            if self.is_lin(h) {
                return true;
            }
            x = l;
        }
        x != e && self.is_lin(x)
    }
    pub fn from_bits(&mut self, bits: &[E]) -> E {
        let mut r = bits[0];
        for &b in &bits[1..] {
            r = self.concat(b, r);
        }
        r
    }

    pub fn bin(&mut self, op: BinOp, a: E, b: E) -> E {
        use BinOp::*;
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = fold_bin(op, x, y, w) {
                return self.c(r, w);
            }
        }
        // constants to the right for commutative operators
        let (a, b, ca, cb) = match op {
            Add | Mul | And | Or | Xor if ca.is_some() => (b, a, cb, ca),
            Add | Mul | And | Or | Xor if cb.is_none() && a > b => (b, a, ca, cb),
            _ => (a, b, ca, cb),
        };
        let _ = ca;
        match op {
            Add => {
                if cb == Some(0) {
                    return a;
                }
                if let (Some(k), Node::Bin(Add, x, y)) = (cb, self.n(a)) {
                    if let Some(k2) = self.as_const(y) {
                        let k3 = self.c(k.wrapping_add(k2), w);
                        return self.bin(Add, x, k3);
                    }
                }
            }
            Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.c(0, w);
                }
                if let Some(k) = cb {
                    let k2 = self.c(0u128.wrapping_sub(k), w);
                    return self.bin(Add, a, k2);
                }
            }
            Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(Shl, a, s);
                    }
                }
            }
            UDiv => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(LShr, a, s);
                    }
                }
            }
            URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let m = self.c(k - 1, w);
                        return self.bin(And, a, m);
                    }
                }
            }
            And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(mask(w)) || a == b {
                    return a;
                }
                if let Some(k) = cb {
                    // low mask -> zext(extract)
                    if (k & (k + 1)) == 0 {
                        let bits = k.count_ones();
                        let lo = self.extract(a, 0, bits);
                        return self.zext(lo, w);
                    }
                    if let Node::Zext(x) = self.n(a) {
                        let xw = self.w(x);
                        let kx = self.c(k, xw);
                        let r = self.bin(And, x, kx);
                        return self.zext(r, w);
                    }
                }
                if w == 1 {
                    if let Some(r) = self.complement(a, b) {
                        let _ = r;
                        return self.c(0, 1);
                    }
                }
            }
            Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(mask(w)) {
                    return b;
                }
                if w == 1 && self.complement(a, b).is_some() {
                    return self.c(1, 1);
                }
                if let Some(r) = self.or_disjoint(a, b) {
                    return r;
                }
                if let Some(r) = self.or_disjoint(b, a) {
                    return r;
                }
            }
            Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.c(0, w);
                }
                if w == 1 && cb.is_none() && (self.is_lin(a) || self.is_lin(b)) {
                    let (x, c) = self.lin_of(a);
                    let (y, d) = self.lin_of(b);
                    let s = Self::sym_diff(&x, &y);
                    return self.mk_lin(s, c ^ d);
                }
                if w > 1 && (self.has_lin(a) || self.has_lin(b)) {
                    let mut bits = Vec::with_capacity(w as usize);
                    for i in 0..w {
                        let x = self.extract(a, i, 1);
                        let y = self.extract(b, i, 1);
                        bits.push(self.bin(Xor, x, y));
                    }
                    return self.from_bits(&bits);
                }
                if let (Some(k), Node::Bin(Xor, x, y)) = (cb, self.n(a)) {
                    if let Some(k2) = self.as_const(y) {
                        let k3 = self.c(k ^ k2, w);
                        return self.bin(Xor, x, k3);
                    }
                }
                if w == 1 && cb == Some(1) {
                    // not
                    match self.n(a) {
                        Node::Cmp(CmpOp::Ult, x, y) => return self.cmp(CmpOp::Ule, y, x),
                        Node::Cmp(CmpOp::Ule, x, y) => return self.cmp(CmpOp::Ult, y, x),
                        Node::Cmp(CmpOp::Slt, x, y) => return self.cmp(CmpOp::Sle, y, x),
                        Node::Cmp(CmpOp::Sle, x, y) => return self.cmp(CmpOp::Slt, y, x),
                        _ => {}
                    }
                }
            }
            Shl => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u32;
                    let hi = self.extract(a, 0, w - k);
                    let z = self.c(0, k);
                    return self.concat(hi, z);
                }
            }
            LShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u32;
                    let hi = self.extract(a, k, w - k);
                    return self.zext(hi, w);
                }
            }
            AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    let k = if k >= w as u128 { w - 1 } else { k as u32 };
                    let hi = self.extract(a, k, w - k);
                    return self.sext(hi, w);
                }
            }
            _ => {}
        }
        self.mk(Node::Bin(op, a, b), w)
    }

    fn complement(&mut self, a: E, b: E) -> Option<()> {
        let na = self.not(a);
        if na == b {
            Some(())
        } else {
            None
        }
    }

    /// `or` of a value whose low `k` bits are zero with one that only has low `k` bits.
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if let Node::Concat(hi, lo) = self.n(a) {
            if self.as_const(lo) == Some(0) {
                let k = self.w(lo);
                let fits = match self.n(b) {
                    Node::Zext(x) => self.w(x) <= k,
                    Node::Const(v) => v <= mask(k),
                    _ => false,
                };
                if fits {
                    let low = self.extract(b, 0, k);
                    let r = self.concat(hi, low);
                    debug_assert_eq!(self.w(r), w);
                    return Some(r);
                }
            }
        }
        if let (Node::Zext(x), Node::Zext(y)) = (self.n(a), self.n(b)) {
            // both small: work at the smaller width
            let ww = self.w(x).max(self.w(y));
            if ww < w {
                let xa = self.zext(x, ww);
                let ya = self.zext(y, ww);
                let r = self.bin(BinOp::Or, xa, ya);
                return Some(self.zext(r, w));
            }
        }
        None
    }

    pub fn not(&mut self, a: E) -> E {
        debug_assert_eq!(self.w(a), 1);
        let one = self.c(1, 1);
        self.bin(BinOp::Xor, a, one)
    }

    pub fn cmp(&mut self, op: CmpOp, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c(fold_cmp(op, x, y, w) as u128, 1);
        }
        if a == b {
            return self.c(matches!(op, CmpOp::Eq | CmpOp::Ule | CmpOp::Sle) as u128, 1);
        }
        match op {
            CmpOp::Eq => {
                let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
                if w == 1 && cb.is_none() && (self.is_lin(a) || self.is_lin(b)) {
                    let x = self.bin(BinOp::Xor, a, b);
                    return self.not(x);
                }
                if w > 1 && (self.has_lin(a) || self.has_lin(b)) {
                    let mut r = self.c(1, 1);
                    for i in 0..w {
                        let x = self.extract(a, i, 1);
                        let y = self.extract(b, i, 1);
                        let e = self.cmp(CmpOp::Eq, x, y);
                        if self.as_const(e) == Some(0) {
                            return e;
                        }
                        r = self.bin(BinOp::And, r, e);
                    }
                    return r;
                }
                if let Some(k) = cb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match self.n(a) {
                        Node::Zext(x) => {
                            let xw = self.w(x);
                            if k > mask(xw) {
                                return self.c(0, 1);
                            }
                            let kx = self.c(k, xw);
                            return self.cmp(CmpOp::Eq, x, kx);
                        }
                        Node::Sext(x) => {
                            let xw = self.w(x);
                            let kx = k & mask(xw);
                            if (sext_to_i128(kx, xw) as u128) & mask(w) != k {
                                return self.c(0, 1);
                            }
                            let kx = self.c(kx, xw);
                            return self.cmp(CmpOp::Eq, x, kx);
                        }
                        Node::Concat(h, l) => {
                            let lw = self.w(l);
                            let hw = self.w(h);
                            let kh = self.c(k >> lw, hw);
                            let kl = self.c(k & mask(lw), lw);
                            let e1 = self.cmp(CmpOp::Eq, h, kh);
                            if self.as_const(e1) == Some(0) {
                                return e1;
                            }
                            let e2 = self.cmp(CmpOp::Eq, l, kl);
                            return self.bin(BinOp::And, e1, e2);
                        }
                        Node::Ite(c, x, y) => {
                            let (cx, cy) = (self.as_const(x), self.as_const(y));
                            if cx.is_some() || cy.is_some() {
                                let ex = self.cmp(CmpOp::Eq, x, b);
                                let ey = self.cmp(CmpOp::Eq, y, b);
                                return self.ite(c, ex, ey);
                            }
                        }
                        Node::Bin(BinOp::Xor, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                let kk = self.c(k ^ k2, w);
                                return self.cmp(CmpOp::Eq, x, kk);
                            }
                            if k == 0 {
                                return self.cmp(CmpOp::Eq, x, y);
                            }
                        }
                        Node::Bin(BinOp::Add, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                let kk = self.c(k.wrapping_sub(k2), w);
                                return self.cmp(CmpOp::Eq, x, kk);
                            }
                        }
                        _ => {}
                    }
                } else {
                    if let (Node::Concat(h1, l1), Node::Concat(h2, l2)) = (self.n(a), self.n(b)) {
                        if self.w(l1) == self.w(l2) {
                            let e1 = self.cmp(CmpOp::Eq, h1, h2);
                            let e2 = self.cmp(CmpOp::Eq, l1, l2);
                            return self.bin(BinOp::And, e1, e2);
                        }
                    }
                    if let (Node::Zext(x), Node::Zext(y)) = (self.n(a), self.n(b)) {
                        if self.w(x) == self.w(y) {
                            return self.cmp(CmpOp::Eq, x, y);
                        }
                    }
                }
                let (a, b) = if a > b && cb.is_none() { (b, a) } else { (a, b) };
                return self.mk(Node::Cmp(CmpOp::Eq, a, b), 1);
            }
            CmpOp::Ult => {
                if cb == Some(0) {
                    return self.c(0, 1);
                }
                if cb == Some(1) {
                    let z = self.c(0, w);
                    return self.cmp(CmpOp::Eq, a, z);
                }
                if ca == Some(mask(w)) {
                    return self.c(0, 1);
                }
                if ca == Some(0) {
                    let z = self.c(0, w);
                    let e = self.cmp(CmpOp::Eq, b, z);
                    return self.not(e);
                }
            }
            CmpOp::Ule => {
                if ca == Some(0) || cb == Some(mask(w)) {
                    return self.c(1, 1);
                }
                if cb == Some(0) {
                    return self.cmp(CmpOp::Eq, a, b);
                }
            }
            _ => {}
        }
        // comparisons over zero-extended operands
        if matches!(op, CmpOp::Ult | CmpOp::Ule) {
            if let (Node::Zext(x), Some(k)) = (self.n(a), cb) {
                let xw = self.w(x);
                if k > mask(xw) {
                    return self.c(1, 1);
                }
                let kx = self.c(k, xw);
                return self.cmp(op, x, kx);
            }
            if let (Some(k), Node::Zext(y)) = (ca, self.n(b)) {
                let yw = self.w(y);
                if k > mask(yw) {
                    return self.c(0, 1);
                }
                let ky = self.c(k, yw);
                return self.cmp(op, ky, y);
            }
            if let (Node::Zext(x), Node::Zext(y)) = (self.n(a), self.n(b)) {
                let ww = self.w(x).max(self.w(y));
                let xa = self.zext(x, ww);
                let ya = self.zext(y, ww);
                return self.cmp(op, xa, ya);
            }
        }
        if matches!(op, CmpOp::Slt | CmpOp::Sle) {
            // both non-negative by construction
            let nonneg = |p: &Pool, e: E| match p.n(e) {
                Node::Zext(_) => true,
                Node::Const(v) => v >> (p.w(e) - 1) == 0,
                _ => false,
            };
            if nonneg(self, a) && nonneg(self, b) {
                let op = if op == CmpOp::Slt { CmpOp::Ult } else { CmpOp::Ule };
                return self.cmp(op, a, b);
            }
        }
        self.mk(Node::Cmp(op, a, b), 1)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(BinOp::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(BinOp::And, nc, b);
                }
                (None, Some(0)) => return self.bin(BinOp::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(BinOp::Or, nc, a);
                }
                _ => {}
            }
        }
        if let Node::Bin(BinOp::Xor, x, y) = self.n(c) {
            if self.as_const(y) == Some(1) {
                return self.ite(x, b, a);
            }
        }
        self.mk(Node::Ite(c, a, b), w)
    }

    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let ew = self.w(e);
        debug_assert!(lo + w <= ew && w > 0);
        if lo == 0 && w == ew {
            return e;
        }
        match self.n(e) {
            Node::Const(v) => return self.c(v >> lo, w),
            Node::Extract(x, l2) => return self.extract(x, lo + l2, w),
            Node::Concat(h, l) => {
                let lw = self.w(l);
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                let hi = self.extract(h, 0, lo + w - lw);
                let low = self.extract(l, lo, lw - lo);
                return self.concat(hi, low);
            }
            Node::Zext(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    return self.c(0, w);
                }
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                let part = self.extract(x, lo, xw - lo);
                return self.zext(part, w);
            }
            Node::Sext(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                if lo < xw {
                    let part = self.extract(x, lo, xw - lo);
                    return self.sext(part, w);
                }
            }
            Node::Ite(c, a, b) => {
                if self.as_const(a).is_some() || self.as_const(b).is_some() {
                    let x = self.extract(a, lo, w);
                    let y = self.extract(b, lo, w);
                    return self.ite(c, x, y);
                }
            }
            Node::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), a, b) => {
                let x = self.extract(a, lo, w);
                let y = self.extract(b, lo, w);
                return self.bin(op, x, y);
            }
            Node::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul), a, b) if lo == 0 => {
                let x = self.extract(a, 0, w);
                let y = self.extract(b, 0, w);
                return self.bin(op, x, y);
            }
            _ => {}
        }
        self.mk(Node::Extract(e, lo), w)
    }

    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(a), Some(b)) = (self.as_const(h), self.as_const(l)) {
            return self.c((a << lw) | b, w);
        }
        if self.as_const(h) == Some(0) {
            return self.zext(l, w);
        }
        if let (Node::Extract(x, xl), Node::Extract(y, yl)) = (self.n(h), self.n(l)) {
            if x == y && xl == yl + lw {
                return self.extract(x, yl, w);
            }
        }
        // (extract hi of x) ++ x-low-part when x itself is the low part is covered above because
        // a full-width extract is x; handle concat chains: h ++ (m ++ l) with h,m adjacent
        if let Node::Concat(m, l2) = self.n(l) {
            if let (Node::Extract(x, xl), Node::Extract(y, yl)) = (self.n(h), self.n(m)) {
                if x == y && xl == yl + self.w(m) {
                    let mw = self.w(m);
                    let hm = self.extract(x, yl, mw + hw);
                    return self.concat(hm, l2);
                }
            }
            if let (Some(a), Some(b)) = (self.as_const(h), self.as_const(m)) {
                let mw = self.w(m);
                let hm = self.c((a << mw) | b, hw + mw);
                return self.concat(hm, l2);
            }
        }
        if let Node::Zext(x) = self.n(h) {
            // zext(x) ++ l  ==  zext(x ++ l)
            let r = self.concat(x, l);
            return self.zext(r, w);
        }
        self.mk(Node::Concat(h, l), w)
    }

    pub fn zext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        match self.n(e) {
            Node::Const(v) => return self.c(v, w),
            Node::Zext(x) => return self.zext(x, w),
            _ => {}
        }
        self.mk(Node::Zext(e), w)
    }

    pub fn sext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        match self.n(e) {
            Node::Const(v) => return self.c(sext_to_i128(v, ew) as u128, w),
            Node::Zext(x) => return self.zext(x, w),
            Node::Sext(x) => return self.sext(x, w),
            _ => {}
        }
        self.mk(Node::Sext(e), w)
    }

    /// Children of a node.
    fn kids(n: Node) -> [E; 3] {
        match n {
            Node::Const(_) | Node::Var(_) => [0, 0, 0],
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => [a, b, 0],
            Node::Ite(a, b, c) => [a, b, c],
            Node::Extract(a, _) | Node::Zext(a) | Node::Sext(a) => [a, 0, 0],
            Node::Lin(_) => [0, 0, 0],
        }
    }

    /// Sorted list of input variables an expression depends on.
    pub fn vars(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.varsets.get(&e) {
            return v.clone();
        }
        let mut seen = std::collections::HashSet::new();
        let mut out = Vec::new();
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if x == 0 || !seen.insert(x) {
                continue;
            }
            if let Node::Var(v) = self.n(x) {
                out.push(v);
                continue;
            }
            if let Node::Lin(i) = self.n(x) {
                st.extend(self.lins[i as usize].iter().copied());
                continue;
            }
            for k in Self::kids(self.n(x)) {
                if k != 0 {
                    st.push(k);
                }
            }
        }
        out.sort_unstable();
        let r = std::rc::Rc::new(out);
        self.varsets.insert(e, r.clone());
        r
    }

    /// Value of an expression under an assignment of the input bytes (missing ones are 0).
    pub fn eval(&self, e: E, model: &[u8]) -> u128 {
        let mut memo: HashMap<E, u128> = HashMap::new();
        self.eval_m(e, model, &mut memo)
    }
    pub fn eval_m(&self, e: E, model: &[u8], memo: &mut HashMap<E, u128>) -> u128 {
        if let Node::Const(v) = self.n(e) {
            return v;
        }
        // explicit stack: expressions can be deep
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if memo.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = self.n(x);
            let mut ready = true;
            for k in Self::kids(n) {
                if k != 0 && !memo.contains_key(&k) {
                    if let Node::Const(v) = self.n(k) {
                        memo.insert(k, v);
                    } else {
                        st.push(k);
                        ready = false;
                    }
                }
            }
            if let Node::Lin(i) = n {
                for &k in self.lins[i as usize].iter() {
                    if !memo.contains_key(&k) {
                        st.push(k);
                        ready = false;
                    }
                }
            }
            if !ready {
                continue;
            }
            let w = self.w(x);
            let g = |k: E| memo[&k];
            let v = match n {
                Node::Const(v) => v,
                Node::Var(i) => model.get(i as usize).copied().unwrap_or(0) as u128,
                Node::Bin(op, a, b) => match fold_bin(op, g(a), g(b), w) {
                    Some(v) => v,
                    // SMT-LIB semantics of division by zero
                    None => match op {
                        BinOp::UDiv => mask(w),
                        BinOp::URem | BinOp::SRem => g(a),
                        BinOp::SDiv => {
                            if sext_to_i128(g(a), w) < 0 {
                                1
                            } else {
                                mask(w)
                            }
                        }
                        _ => unreachable!(),
                    },
                },
                Node::Cmp(op, a, b) => fold_cmp(op, g(a), g(b), self.w(a)) as u128,
                Node::Ite(c, a, b) => {
                    if g(c) == 1 {
                        g(a)
                    } else {
                        g(b)
                    }
                }
                Node::Extract(a, lo) => (g(a) >> lo) & mask(w),
                Node::Concat(a, b) => ((g(a) << self.w(b)) | g(b)) & mask(w),
                Node::Zext(a) => g(a),
                Node::Sext(a) => (sext_to_i128(g(a), self.w(a)) as u128) & mask(w),
                Node::Lin(i) => self.lins[i as usize].iter().fold(0, |s, &k| s ^ g(k)),
            };
            memo.insert(x, v);
            st.pop();
        }
        memo[&e]
    }
}
