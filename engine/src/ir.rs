//! Parser for the textual LLVM IR the compiler emits. Function bodies are parsed on first use.

use crate::expr::{mask, BinOp};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Flt(u32),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 1,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Flt(w) => (*w as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().min(16),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
        }
    }
    /// Allocation size (stride).
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Flt(w) => (*w as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs.iter() {
                    if !*packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                if !*packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, f.clone());
                    }
                    o += f.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field of scalar"),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) | Ty::Flt(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn elems(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(u32),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    Zext,
    Sext,
    Same,
    Bits,
}

#[derive(Clone, Copy, Debug)]
pub enum Rmw {
    Xchg,
    Bin(BinOp),
    UMax,
    UMin,
    Nand,
    Max,
    Min,
}

#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    Ind(Opd),
}

#[derive(Clone, Debug)]
pub struct Call {
    pub dst: Option<u32>,
    pub callee: Callee,
    pub args: Vec<(Ty, Opd)>,
    pub ret: Ty,
    pub next: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(u32, BinOp, Ty, Opd, Opd),
    Icmp(u32, Pred, Ty, Opd, Opd),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, u64, Vec<(Opd, u32, u64)>),
    Alloca(u32, u64, Option<(Opd, u32)>),
    Cast(u32, CastK, Ty, Ty, Opd),
    Select(u32, Ty, Opd, Opd, Opd, bool),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Call(Box<Call>),
    Extract(u32, Opd, Vec<u32>),
    Insert(u32, Ty, Opd, Opd, Vec<u32>),
    Rmw(u32, Rmw, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Fence,
    Freeze(u32, Opd),
    InsElem(u32, Ty, Opd, Opd, Opd),
    ExtElem(u32, Opd, Opd),
    Shuffle(u32, Opd, Opd, u64, Vec<Option<u32>>),
    Unsupported(String),
}

pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Opd)>,
}

#[derive(Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<Ins>,
    pub dbg: Vec<u32>,
}

pub struct Body {
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub params: Vec<u32>,
}

pub struct FuncDef {
    pub name: String,
    /// byte range of header line start .. end of body; `None` for declarations
    pub range: Option<(usize, usize)>,
    pub weak: bool,
}

pub struct GlobalDef {
    pub name: String,
    pub line: (usize, usize),
    pub ty: Ty,
    pub constant: bool,
}

pub const FUNC_BASE: u64 = 1 << 62;
pub const OBJ_SHIFT: u32 = 36;

pub struct Module {
    pub text: String,
    pub funcs: Vec<FuncDef>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<GlobalDef>,
    pub gaddr: HashMap<String, u64>,
    pub types: HashMap<String, Ty>,
    pub meta: HashMap<u32, (usize, usize)>,
    pub inits: Vec<(u64, Option<Val>)>,
    pub aliases: Vec<(String, String)>,
}

pub struct Cur<'a> {
    s: &'a str,
    p: usize,
}

type R<T> = Result<T, String>;

impl<'a> Cur<'a> {
    pub fn new(s: &'a str) -> Self {
        Cur { s, p: 0 }
    }
    fn b(&self) -> u8 {
        *self.s.as_bytes().get(self.p).unwrap_or(&0)
    }
    fn ws(&mut self) {
        while matches!(self.b(), b' ' | b'\t' | b'\n') {
            self.p += 1;
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.p..].starts_with(t) {
            self.p += t.len();
            true
        } else {
            false
        }
    }
    fn need(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected `{t}` at `{}`", &self.s[self.p..self.s.len().min(self.p + 60)]))
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.b()
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while matches!(self.b(), b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'.' | b'-') {
            self.p += 1;
        }
        &self.s[st..self.p]
    }
    fn peek_word(&mut self) -> &'a str {
        let p0 = self.p;
        let w = self.word();
        self.p = p0;
        w
    }
    /// a `%`/`@`/`!`-less name: bare or quoted
    fn name(&mut self) -> String {
        if self.b() == b'"' {
            self.p += 1;
            let st = self.p;
            while self.b() != b'"' {
                self.p += 1;
            }
            let r = self.s[st..self.p].to_string();
            self.p += 1;
            r
        } else {
            let st = self.p;
            while matches!(self.b(), b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'.' | b'-' | b'$') {
                self.p += 1;
            }
            self.s[st..self.p].to_string()
        }
    }
    fn balanced(&mut self) {
        // at '(' : skip to the matching ')'
        let mut d = 0;
        loop {
            match self.b() {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                0 => return,
                b'"' => {
                    self.p += 1;
                    while self.b() != b'"' && self.b() != 0 {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn int(&mut self) -> R<i128> {
        self.ws();
        let w = self.word();
        w.parse::<i128>()
            .or_else(|_| w.parse::<u128>().map(|v| v as i128))
            .map_err(|_| format!("int `{w}`"))
    }
    fn is_type_start(&mut self) -> bool {
        match self.peek() {
            b'{' | b'<' | b'[' | b'%' => true,
            _ => {
                let w = self.peek_word();
                is_type_word(w)
            }
        }
    }
    /// skip parameter / return attributes
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'#' {
                self.p += 1;
                self.word();
                continue;
            }
            if !c.is_ascii_lowercase() && c != b'"' {
                return;
            }
            if c == b'"' {
                // string attribute
                self.name();
                if self.eat("=") {
                    self.ws();
                    self.name();
                }
                continue;
            }
            let p0 = self.p;
            let w = self.word();
            if is_type_word(w) || is_value_word(w) || (w == "c" && self.b() == b'"') {
                self.p = p0;
                return;
            }
            if self.b() == b'(' {
                self.balanced();
            } else if w == "align" || w == "addrspace" || w == "dereferenceable" {
                self.int().ok();
            }
        }
    }
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "metadata" | "label" | "x86_fp80" | "fp128" | "token")
        || (w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()))
}
fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true"
            | "false"
            | "null"
            | "undef"
            | "poison"
            | "zeroinitializer"
            | "none"
            | "getelementptr"
            | "inttoptr"
            | "ptrtoint"
            | "ptrtoaddr"
            | "add"
            | "sub"
            | "mul"
            | "xor"
            | "and"
            | "or"
            | "shl"
            | "trunc"
            | "bitcast"
            | "addrspacecast"
            | "splat"
            | "icmp"
            | "select"
            | "blockaddress"
            | "dso_local_equivalent"
    )
}

fn zero(t: &Ty) -> Val {
    match t {
        Ty::Struct(fs, _) => Val::Agg(Rc::new(fs.iter().map(zero).collect())),
        Ty::Arr(n, e) | Ty::Vec(n, e) => {
            let z = zero(e);
            Val::Agg(Rc::new(vec![z; *n as usize]))
        }
        _ => Val::C(0),
    }
}
pub fn zero_of(t: &Ty) -> Val {
    zero(t)
}

struct Names {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

impl Names {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
}

impl Module {
    pub fn load(text: String) -> R<Module> {
        let mut m = Module {
            text,
            funcs: Vec::new(),
            fidx: HashMap::new(),
            globals: Vec::new(),
            gaddr: HashMap::new(),
            types: HashMap::new(),
            meta: HashMap::new(),
            inits: Vec::new(),
            aliases: Vec::new(),
        };
        let bytes = m.text.as_bytes();
        let mut pos = 0;
        let n = bytes.len();
        let mut glines = Vec::new();
        let mut tlines = Vec::new();
        while pos < n {
            let end = memchr(bytes, pos, b'\n');
            let line = &m.text[pos..end];
            let mut next = end + 1;
            if line.starts_with("define ") {
                let name = fn_name(line);
                // body ends at a line "}"
                let mut p = end + 1;
                loop {
                    let e = memchr(bytes, p, b'\n');
                    if &bytes[p..e] == b"}" {
                        next = e + 1;
                        break;
                    }
                    p = e + 1;
                    if p >= n {
                        return Err("unterminated function".into());
                    }
                }
                let i = m.funcs.len() as u32;
                m.fidx.insert(name.clone(), i);
                m.funcs.push(FuncDef { name, range: Some((pos, next)), weak: false });
            } else if line.starts_with("declare ") {
                let name = fn_name(line);
                let i = m.funcs.len() as u32;
                m.fidx.insert(name.clone(), i);
                m.funcs.push(FuncDef { name, range: None, weak: line.contains("extern_weak") });
            } else if line.starts_with('@') {
                glines.push((pos, end));
            } else if line.starts_with('%') {
                tlines.push((pos, end));
            } else if line.starts_with('!') && line.as_bytes().get(1).map_or(false, |c| c.is_ascii_digit()) {
                let mut k = 1;
                let lb = line.as_bytes();
                let mut v = 0u32;
                while lb[k].is_ascii_digit() {
                    v = v * 10 + (lb[k] - b'0') as u32;
                    k += 1;
                }
                m.meta.insert(v, (pos, end));
            }
            pos = next;
        }
        for (a, b) in tlines {
            let l = m.text[a..b].to_string();
            let mut c = Cur::new(&l);
            c.need("%")?;
            let nm = c.name();
            c.need("=")?;
            c.need("type")?;
            if c.peek_word() == "opaque" {
                continue;
            }
            let t = m.ty(&mut c)?;
            m.types.insert(nm, t);
        }
        // pass 1: addresses
        let mut later = Vec::new();
        for (a, b) in glines {
            let l = m.text[a..b].to_string();
            let mut c = Cur::new(&l);
            c.need("@")?;
            let name = c.name();
            c.need("=")?;
            let mut external = false;
            let mut constant = false;
            let mut alias = false;
            loop {
                c.ws();
                let w = c.word().to_string();
                if w.is_empty() {
                    return Err(format!("global `{}`", &l[..l.len().min(80)]));
                }
                if c.b() == b'(' {
                    c.balanced();
                }
                match w.as_str() {
                    "external" | "extern_weak" => external = true,
                    "global" => break,
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "alias" => {
                        alias = true;
                        break;
                    }
                    _ => {}
                }
            }
            if alias {
                let _ = m.ty(&mut c)?;
                c.need(",")?;
                c.need("ptr")?;
                c.need("@")?;
                let target = c.name();
                m.aliases.push((name, target));
                continue;
            }
            let ty = m.ty(&mut c)?;
            if external {
                // weak/unknown data symbols resolve to null
                m.gaddr.insert(name, 0);
                continue;
            }
            let idx = m.globals.len() as u64 + 1;
            m.gaddr.insert(name.clone(), idx << OBJ_SHIFT);
            later.push((m.globals.len(), a + c.p, b));
            m.globals.push(GlobalDef { name, line: (a, b), ty, constant });
        }
        for (n, t) in m.aliases.clone() {
            if let Some(&f) = m.fidx.get(&t) {
                m.fidx.insert(n, f);
            } else if let Some(&g) = m.gaddr.get(&t) {
                m.gaddr.insert(n, g);
            }
        }
        // pass 2: initialisers
        for (gi, a, b) in later {
            let l = m.text[a..b].to_string();
            let ty = m.globals[gi].ty.clone();
            let v = if l.trim_start().starts_with("zeroinitializer") {
                None
            } else {
                let mut c = Cur::new(&l);
                Some(m.konst(&mut c, &ty)?)
            };
            m.inits.push(((gi as u64 + 1) << OBJ_SHIFT, v));
        }
        Ok(m)
    }

    pub fn func_addr(i: u32) -> u64 {
        FUNC_BASE + (i as u64) * 16
    }

    fn ty(&self, c: &mut Cur) -> R<Ty> {
        match c.peek() {
            b'{' => {
                c.need("{")?;
                let mut v = Vec::new();
                if !c.eat("}") {
                    loop {
                        v.push(self.ty(c)?);
                        if c.eat("}") {
                            break;
                        }
                        c.need(",")?;
                    }
                }
                Ok(Ty::Struct(Rc::new(v), false))
            }
            b'<' => {
                c.need("<")?;
                if c.peek() == b'{' {
                    let t = self.ty(c)?;
                    c.need(">")?;
                    match t {
                        Ty::Struct(v, _) => Ok(Ty::Struct(v, true)),
                        _ => unreachable!(),
                    }
                } else {
                    let n = c.int()? as u64;
                    c.need("x")?;
                    let t = self.ty(c)?;
                    c.need(">")?;
                    Ok(Ty::Vec(n, Rc::new(t)))
                }
            }
            b'[' => {
                c.need("[")?;
                let n = c.int()? as u64;
                c.need("x")?;
                let t = self.ty(c)?;
                c.need("]")?;
                Ok(Ty::Arr(n, Rc::new(t)))
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                self.types.get(&n).cloned().ok_or(format!("type %{n}"))
            }
            _ => {
                let w = c.word();
                Ok(match w {
                    "void" | "label" | "token" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::Flt(32),
                    "double" => Ty::Flt(64),
                    "half" => Ty::Flt(16),
                    "fp128" | "x86_fp80" => Ty::Flt(128),
                    "metadata" => Ty::Meta,
                    _ => {
                        if is_type_word(w) {
                            Ty::Int(w[1..].parse().unwrap())
                        } else {
                            return Err(format!("type `{w}` at `{}`", &c.s[c.p..c.s.len().min(c.p + 40)]));
                        }
                    }
                })
            }
        }
    }

    fn konst(&self, c: &mut Cur, t: &Ty) -> R<Val> {
        match self.opd(c, t, &mut None)? {
            Opd::K(v) => Ok(v),
            _ => Err("constant expected".into()),
        }
    }

    fn opd(&self, c: &mut Cur, t: &Ty, nm: &mut Option<&mut Names>) -> R<Opd> {
        let k = |v: u128| Ok(Opd::K(Val::C(v)));
        match c.peek() {
            b'%' => {
                c.p += 1;
                let n = c.name();
                match nm {
                    Some(x) => Ok(Opd::R(x.reg(n))),
                    None => Err("register in constant".into()),
                }
            }
            b'@' => {
                c.p += 1;
                let n = c.name();
                if let Some(&g) = self.gaddr.get(&n) {
                    return k(g as u128);
                }
                if let Some(&f) = self.fidx.get(&n) {
                    if self.funcs[f as usize].weak {
                        return k(0);
                    }
                    return k(Self::func_addr(f) as u128);
                }
                Err(format!("unknown global @{n}"))
            }
            b'{' | b'[' | b'<' => {
                let open = c.peek();
                let packed = c.s[c.p..].starts_with("<{");
                let close = if packed {
                    "}>"
                } else {
                    match open {
                        b'{' => "}",
                        b'[' => "]",
                        _ => ">",
                    }
                };
                c.p += if packed { 2 } else { 1 };
                let mut v = Vec::new();
                if !c.eat(close) {
                    loop {
                        let et = self.ty(c)?;
                        v.push(self.konst(c, &et)?);
                        if c.eat(close) {
                            break;
                        }
                        c.need(",")?;
                    }
                }
                Ok(Opd::K(Val::Agg(Rc::new(v))))
            }
            b'!' => {
                // metadata operand: rest of the argument is irrelevant
                c.p += 1;
                if c.b() == b'{' || c.b() == b'"' {
                    while c.b() != b'}' && c.b() != b'"' && c.b() != 0 {
                        c.p += 1;
                    }
                }
                c.word();
                k(0)
            }
            _ => {
                let p0 = c.p;
                let w = c.word().to_string();
                if w == "c" && c.b() == b'"' {
                    c.p += 1;
                    let mut v = Vec::new();
                    let b = c.s.as_bytes();
                    while b[c.p] != b'"' {
                        if b[c.p] == b'\\' && b[c.p + 1] == b'\\' {
                            v.push(Val::C(b'\\' as u128));
                            c.p += 2;
                        } else if b[c.p] == b'\\' {
                            let h = u8::from_str_radix(&c.s[c.p + 1..c.p + 3], 16).map_err(|e| e.to_string())?;
                            v.push(Val::C(h as u128));
                            c.p += 3;
                        } else {
                            v.push(Val::C(b[c.p] as u128));
                            c.p += 1;
                        }
                    }
                    c.p += 1;
                    return Ok(Opd::K(Val::Agg(Rc::new(v))));
                }
                match w.as_str() {
                    "true" => k(1),
                    "false" | "null" | "none" => k(0),
                    "undef" | "poison" | "zeroinitializer" => Ok(Opd::K(zero(t))),
                    "splat" => {
                        c.need("(")?;
                        let et = self.ty(c)?;
                        let v = self.konst(c, &et)?;
                        c.need(")")?;
                        Ok(Opd::K(Val::Agg(Rc::new(vec![v; t.elems()]))))
                    }
                    "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "addrspacecast" => {
                        c.need("(")?;
                        let ft = self.ty(c)?;
                        let v = self.konst(c, &ft)?;
                        c.need("to")?;
                        let tt = self.ty(c)?;
                        c.need(")")?;
                        match v {
                            Val::C(x) => k(x & mask(tt.width())),
                            v => Ok(Opd::K(v)),
                        }
                    }
                    "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                        while c.peek() != b'(' {
                            c.word();
                        }
                        c.need("(")?;
                        let at = self.ty(c)?;
                        let a = self.konst(c, &at)?;
                        c.need(",")?;
                        let bt = self.ty(c)?;
                        let b = self.konst(c, &bt)?;
                        c.need(")")?;
                        match (a, b) {
                            (Val::C(a), Val::C(b)) => {
                                let op = binop(&w).unwrap();
                                k(crate::expr::fold_bin(op, a, b, at.width()).unwrap_or(0))
                            }
                            _ => Err("constant vector expression".into()),
                        }
                    }
                    "getelementptr" => {
                        while c.peek() != b'(' {
                            c.word();
                            if c.peek() == b'(' && c.s[..c.p].trim_end().ends_with("inrange") {
                                c.balanced();
                            }
                        }
                        c.need("(")?;
                        let st = self.ty(c)?;
                        c.need(",")?;
                        let bt = self.ty(c)?;
                        let base = match self.konst(c, &bt)? {
                            Val::C(v) => v as u64,
                            _ => return Err("gep base".into()),
                        };
                        let mut idx = Vec::new();
                        while c.eat(",") {
                            let it = self.ty(c)?;
                            match self.konst(c, &it)? {
                                Val::C(v) => idx.push(crate::expr::sext_to_i128(v, it.width()) as i64),
                                _ => return Err("gep idx".into()),
                            }
                        }
                        c.need(")")?;
                        let mut off = 0i64;
                        let mut cur = st.clone();
                        for (i, x) in idx.iter().enumerate() {
                            if i == 0 {
                                off += x * st.size() as i64;
                            } else {
                                match &cur {
                                    Ty::Struct(..) => {
                                        let (o, t2) = cur.field(*x as usize);
                                        off += o as i64;
                                        cur = t2;
                                    }
                                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                        off += x * e.size() as i64;
                                        let e2 = (**e).clone();
                                        cur = e2;
                                    }
                                    _ => return Err("gep into scalar".into()),
                                }
                            }
                        }
                        k((base.wrapping_add(off as u64)) as u128)
                    }
                    _ => {
                        if let Some(h) = w.strip_prefix("0x") {
                            // float constant as bits
                            if let Ok(v) = u64::from_str_radix(h, 16) {
                                if matches!(t, Ty::Flt(32)) {
                                    return k((f64::from_bits(v) as f32).to_bits() as u128);
                                }
                                return k(v as u128);
                            }
                        }
                        if let Ok(v) = w.parse::<i128>() {
                            return k((v as u128) & mask(t.width().max(1)));
                        }
                        if let Ok(v) = w.parse::<u128>() {
                            return k(v & mask(t.width().max(1)));
                        }
                        if matches!(t, Ty::Flt(_)) {
                            if let Ok(v) = w.replace("e+", "e").parse::<f64>() {
                                return if t.width() == 32 {
                                    k((v as f32).to_bits() as u128)
                                } else {
                                    k(v.to_bits() as u128)
                                };
                            }
                        }
                        c.p = p0;
                        Err(format!("operand at `{}`", &c.s[p0..c.s.len().min(p0 + 60)]))
                    }
                }
            }
        }
    }

    pub fn parse_body(&self, f: u32) -> R<Body> {
        let (a, b) = self.funcs[f as usize].range.ok_or("no body")?;
        let text = &self.text[a..b];
        let mut lines = text.split('\n');
        let head = lines.next().unwrap();
        let mut nm = Names { regs: HashMap::new(), labels: HashMap::new() };
        // parameters
        let mut params = Vec::new();
        {
            let at = head.find('@').unwrap();
            let mut c = Cur::new(head);
            c.p = at + 1;
            c.name();
            c.need("(")?;
            let mut unnamed = 0;
            if !c.eat(")") {
                loop {
                    if c.eat("...") {
                        c.need(")")?;
                        break;
                    }
                    let _t = self.ty(&mut c)?;
                    c.attrs();
                    if c.peek() == b'%' {
                        c.p += 1;
                        let n = c.name();
                        params.push(nm.reg(n));
                    } else {
                        params.push(nm.reg(format!("{unnamed}")));
                    }
                    unnamed += 1;
                    if c.eat(")") {
                        break;
                    }
                    c.need(",")?;
                }
            }
        }
        // join lines, collect labels
        let mut items: Vec<(Option<String>, String)> = Vec::new(); // (label, instr)
        let mut pending: Option<String> = None;
        for l in lines {
            if l == "}" || l.is_empty() || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                if let Some(colon) = l.find(':') {
                    let mut c = Cur::new(&l[..colon]);
                    let n = c.name();
                    items.push((Some(n), String::new()));
                }
                continue;
            }
            let t = l.trim();
            if let Some(p) = pending.take() {
                let j = format!("{p} {t}");
                if j.contains("switch ") && !t.starts_with(']') {
                    pending = Some(j);
                } else {
                    items.push((None, j));
                }
                continue;
            }
            if t.starts_with("switch ") && !t.contains(']') {
                pending = Some(t.to_string());
            } else if (t.starts_with("invoke ") || t.contains(" = invoke ")) && !t.contains(" unwind label ") {
                pending = Some(t.to_string());
            } else if t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") {
            } else if t.starts_with(';') || t.starts_with("#dbg_") {
            } else {
                items.push((None, t.to_string()));
            }
        }
        let mut nb = 0;
        if items.first().map_or(true, |x| x.0.is_none()) {
            nb = 1;
        }
        for (l, _) in &items {
            if let Some(l) = l {
                nm.labels.insert(l.clone(), nb);
                nb += 1;
            }
        }
        let mut blocks: Vec<Block> = Vec::new();
        for (l, t) in items {
            if l.is_some() {
                blocks.push(Block::default());
                continue;
            }
            if blocks.is_empty() {
                blocks.push(Block::default());
            }
            let bl = blocks.last_mut().unwrap();
            let dbg = t
                .rfind("!dbg !")
                .map(|i| {
                    let r = &t[i + 6..];
                    let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
                    r[..e].parse().unwrap_or(0)
                })
                .unwrap_or(0);
            match self.instr(&t, &mut nm) {
                Ok(Parsed::Phi(p)) => bl.phis.push(p),
                Ok(Parsed::I(i)) => {
                    bl.ins.push(i);
                    bl.dbg.push(dbg);
                }
                Err(e) => {
                    bl.ins.push(Ins::Unsupported(format!("{e} in `{t}`")));
                    bl.dbg.push(dbg);
                }
            }
        }
        Ok(Body { blocks, nregs: nm.regs.len() as u32, params })
    }

    fn label(&self, c: &mut Cur, nm: &Names) -> R<u32> {
        c.need("%")?;
        let n = c.name();
        // an undefined label is the unlabelled entry block
        Ok(nm.labels.get(&n).copied().unwrap_or(0))
    }

    fn tv(&self, c: &mut Cur, nm: &mut Names) -> R<(Ty, Opd)> {
        let t = self.ty(c)?;
        c.attrs();
        let o = self.opd(c, &t, &mut Some(nm))?;
        Ok((t, o))
    }

    fn instr(&self, t: &str, nm: &mut Names) -> R<Parsed> {
        let mut c = Cur::new(t);
        let mut dst = None;
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            dst = Some(nm.reg(n));
            c.need("=")?;
        }
        let mut w = c.word().to_string();
        if w == "tail" || w == "musttail" || w == "notail" {
            w = c.word().to_string();
        }
        let d = || dst.ok_or("no destination".to_string());
        let i = match w.as_str() {
            "br" => {
                if c.peek_word() == "label" {
                    c.word();
                    Ins::Br(self.label(&mut c, nm)?)
                } else {
                    let (_, o) = self.tv(&mut c, nm)?;
                    c.need(",")?;
                    c.need("label")?;
                    let a = self.label(&mut c, nm)?;
                    c.need(",")?;
                    c.need("label")?;
                    let b = self.label(&mut c, nm)?;
                    Ins::CondBr(o, a, b)
                }
            }
            "switch" => {
                let (ty, o) = self.tv(&mut c, nm)?;
                c.need(",")?;
                c.need("label")?;
                let def = self.label(&mut c, nm)?;
                c.need("[")?;
                let mut cs = Vec::new();
                while !c.eat("]") {
                    let t2 = self.ty(&mut c)?;
                    let v = self.konst(&mut c, &t2)?;
                    c.need(",")?;
                    c.need("label")?;
                    let l = self.label(&mut c, nm)?;
                    if let Val::C(v) = v {
                        cs.push((v, l));
                    }
                }
                Ins::Switch(o, ty.width(), def, cs)
            }
            "ret" => {
                let ty = self.ty(&mut c)?;
                if ty == Ty::Void {
                    Ins::Ret(None)
                } else {
                    let o = self.opd(&mut c, &ty, &mut Some(nm))?;
                    Ins::Ret(Some((ty, o)))
                }
            }
            "unreachable" => Ins::Unreachable,
            "resume" => Ins::Unsupported("resume".into()),
            "landingpad" => Ins::Unsupported("landingpad".into()),
            "phi" => {
                let ty = self.ty(&mut c)?;
                let mut inc = Vec::new();
                loop {
                    c.need("[")?;
                    let o = self.opd(&mut c, &ty, &mut Some(nm))?;
                    c.need(",")?;
                    let l = self.label(&mut c, nm)?;
                    c.need("]")?;
                    inc.push((l, o));
                    if !c.eat(",") {
                        break;
                    }
                    if c.peek() != b'[' {
                        break;
                    }
                }
                return Ok(Parsed::Phi(Phi { dst: d()?, inc }));
            }
            "load" => {
                c.eat("atomic");
                c.eat("volatile");
                let ty = self.ty(&mut c)?;
                c.need(",")?;
                let (_, p) = self.tv(&mut c, nm)?;
                Ins::Load(d()?, ty, p)
            }
            "store" => {
                c.eat("atomic");
                c.eat("volatile");
                let (ty, v) = self.tv(&mut c, nm)?;
                c.need(",")?;
                let (_, p) = self.tv(&mut c, nm)?;
                Ins::Store(ty, v, p)
            }
            "alloca" => {
                c.eat("inalloca");
                let ty = self.ty(&mut c)?;
                let mut cnt = None;
                if c.eat(",") && c.is_type_start() {
                    let (t2, o) = self.tv(&mut c, nm)?;
                    cnt = Some((o, t2.width()));
                }
                Ins::Alloca(d()?, ty.size(), cnt)
            }
            "getelementptr" => {
                while !c.is_type_start() {
                    let w = c.word();
                    if w.is_empty() {
                        return Err("gep".into());
                    }
                    if c.b() == b'(' {
                        c.balanced();
                    }
                }
                let st = self.ty(&mut c)?;
                c.need(",")?;
                let (bt, base) = self.tv(&mut c, nm)?;
                if bt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off = 0u64;
                let mut dynv = Vec::new();
                let mut cur = st.clone();
                let mut first = true;
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    let (it, io) = self.tv(&mut c, nm)?;
                    let scale;
                    if first {
                        scale = st.size();
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::Struct(..) => {
                                if let Opd::K(Val::C(v)) = io {
                                    let (o, t2) = cur.field(v as usize);
                                    off = off.wrapping_add(o);
                                    cur = t2;
                                    continue;
                                }
                                return Err("gep struct index".into());
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = e.size();
                                cur = (*e).clone();
                            }
                            _ => return Err("gep into scalar".into()),
                        }
                    }
                    match io {
                        Opd::K(Val::C(v)) => {
                            let s = crate::expr::sext_to_i128(v, it.width()) as i64;
                            off = off.wrapping_add((s as u64).wrapping_mul(scale));
                        }
                        o => dynv.push((o, it.width(), scale)),
                    }
                }
                Ins::Gep(d()?, base, off, dynv)
            }
            "icmp" => {
                let mut p = c.word().to_string();
                if p == "samesign" {
                    p = c.word().to_string();
                }
                let pred = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return Err(format!("icmp {p}")),
                };
                let (ty, a) = self.tv(&mut c, nm)?;
                c.need(",")?;
                let b = self.opd(&mut c, &ty, &mut Some(nm))?;
                Ins::Icmp(d()?, pred, ty, a, b)
            }
            "select" => {
                let (ct, cond) = self.tv(&mut c, nm)?;
                c.need(",")?;
                let (ty, a) = self.tv(&mut c, nm)?;
                c.need(",")?;
                let (_, b) = self.tv(&mut c, nm)?;
                Ins::Select(d()?, ty, cond, a, b, matches!(ct, Ty::Vec(..)))
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                while !c.is_type_start() {
                    let x = c.word();
                    if x.is_empty() {
                        return Err("cast".into());
                    }
                }
                let (ft, o) = self.tv(&mut c, nm)?;
                c.need("to")?;
                let tt = self.ty(&mut c)?;
                let k = match w.as_str() {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::Zext,
                    "sext" => CastK::Sext,
                    "bitcast" => CastK::Bits,
                    _ => {
                        if ft.width() == tt.width() {
                            CastK::Same
                        } else if ft.width() > tt.width() {
                            CastK::Trunc
                        } else {
                            CastK::Zext
                        }
                    }
                };
                Ins::Cast(d()?, k, ft, tt, o)
            }
            "extractvalue" => {
                let (_, o) = self.tv(&mut c, nm)?;
                let mut ix = Vec::new();
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    ix.push(c.int()? as u32);
                }
                Ins::Extract(d()?, o, ix)
            }
            "insertvalue" => {
                let (ty, o) = self.tv(&mut c, nm)?;
                c.need(",")?;
                let (_, v) = self.tv(&mut c, nm)?;
                let mut ix = Vec::new();
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    ix.push(c.int()? as u32);
                }
                Ins::Insert(d()?, ty, o, v, ix)
            }
            "freeze" => {
                let (_, o) = self.tv(&mut c, nm)?;
                Ins::Freeze(d()?, o)
            }
            "fence" => Ins::Fence,
            "atomicrmw" => {
                c.eat("volatile");
                let op = c.word().to_string();
                let r = match op.as_str() {
                    "xchg" => Rmw::Xchg,
                    "umax" => Rmw::UMax,
                    "umin" => Rmw::UMin,
                    "max" => Rmw::Max,
                    "min" => Rmw::Min,
                    "nand" => Rmw::Nand,
                    o => Rmw::Bin(binop(o).ok_or(format!("atomicrmw {o}"))?),
                };
                let (_, p) = self.tv(&mut c, nm)?;
                c.need(",")?;
                let (ty, v) = self.tv(&mut c, nm)?;
                Ins::Rmw(d()?, r, ty, p, v)
            }
            "cmpxchg" => {
                c.eat("weak");
                c.eat("volatile");
                let (_, p) = self.tv(&mut c, nm)?;
                c.need(",")?;
                let (ty, a) = self.tv(&mut c, nm)?;
                c.need(",")?;
                let (_, b) = self.tv(&mut c, nm)?;
                Ins::CmpXchg(d()?, ty, p, a, b)
            }
            "insertelement" => {
                let (ty, v) = self.tv(&mut c, nm)?;
                c.need(",")?;
                let (_, x) = self.tv(&mut c, nm)?;
                c.need(",")?;
                let (_, ix) = self.tv(&mut c, nm)?;
                Ins::InsElem(d()?, ty, v, x, ix)
            }
            "extractelement" => {
                let (_, v) = self.tv(&mut c, nm)?;
                c.need(",")?;
                let (_, ix) = self.tv(&mut c, nm)?;
                Ins::ExtElem(d()?, v, ix)
            }
            "shufflevector" => {
                let (ty, a) = self.tv(&mut c, nm)?;
                c.need(",")?;
                let (_, b) = self.tv(&mut c, nm)?;
                c.need(",")?;
                let mt = self.ty(&mut c)?;
                let mut mk = Vec::new();
                if c.peek() == b'<' {
                    c.need("<")?;
                    loop {
                        self.ty(&mut c)?;
                        let x = c.word();
                        mk.push(x.parse::<u32>().ok());
                        if c.eat(">") {
                            break;
                        }
                        c.need(",")?;
                    }
                } else {
                    let wd = c.word();
                    let v = if wd == "zeroinitializer" { Some(0) } else { None };
                    mk = vec![v; mt.elems()];
                }
                Ins::Shuffle(d()?, a, b, ty.elems() as u64, mk)
            }
            "call" | "invoke" => {
                // fast-math flags, calling convention, return attributes
                loop {
                    if c.is_type_start() {
                        break;
                    }
                    let x = c.word().to_string();
                    if x.is_empty() {
                        return Err("call".into());
                    }
                    if c.b() == b'(' {
                        c.balanced();
                    } else if x == "align" {
                        c.int()?;
                    }
                }
                let ret = self.ty(&mut c)?;
                if c.peek() == b'(' {
                    c.balanced();
                }
                let callee = match c.peek() {
                    b'@' => {
                        c.p += 1;
                        let n = c.name();
                        Callee::F(*self.fidx.get(&n).ok_or(format!("callee {n}"))?)
                    }
                    b'%' => {
                        c.p += 1;
                        let n = c.name();
                        Callee::Ind(Opd::R(nm.reg(n)))
                    }
                    _ => {
                        if c.peek_word() == "asm" {
                            // inline assembly: only barriers (no outputs) can be skipped
                            if ret == Ty::Void {
                                return Ok(Parsed::I(Ins::Fence));
                            }
                            return Err("inline asm".into());
                        }
                        let o = self.opd(&mut c, &Ty::Ptr, &mut Some(nm))?;
                        Callee::Ind(o)
                    }
                };
                c.need("(")?;
                let mut args = Vec::new();
                if !c.eat(")") {
                    loop {
                        let t2 = self.ty(&mut c)?;
                        if t2 == Ty::Meta {
                            // skip to the end of this argument
                            let mut dpt = 0;
                            loop {
                                match c.b() {
                                    b'(' | b'{' => dpt += 1,
                                    b')' | b'}' if dpt > 0 => dpt -= 1,
                                    b')' | b',' if dpt == 0 => break,
                                    0 => break,
                                    _ => {}
                                }
                                c.p += 1;
                            }
                            args.push((Ty::Meta, Opd::K(Val::C(0))));
                        } else {
                            c.attrs();
                            let o = self.opd(&mut c, &t2, &mut Some(nm))?;
                            args.push((t2, o));
                        }
                        if c.eat(")") {
                            break;
                        }
                        c.need(",")?;
                    }
                }
                let mut next = None;
                if w == "invoke" {
                    let rest = &c.s[c.p..];
                    let k = rest.find("to label ").ok_or("invoke target")?;
                    let mut c2 = Cur::new(rest);
                    c2.p = k + 9;
                    next = Some(self.label(&mut c2, nm)?);
                }
                Ins::Call(Box::new(Call { dst, callee, args, ret, next }))
            }
            o => {
                if let Some(op) = binop(o) {
                    while !c.is_type_start() {
                        let x = c.word();
                        if x.is_empty() {
                            return Err("bin".into());
                        }
                    }
                    let (ty, a) = self.tv(&mut c, nm)?;
                    c.need(",")?;
                    let b = self.opd(&mut c, &ty, &mut Some(nm))?;
                    Ins::Bin(d()?, op, ty, a, b)
                } else {
                    return Err(format!("unsupported instruction {o}"));
                }
            }
        };
        Ok(Parsed::I(i))
    }

    /// (file, line, function) of a debug location, outermost-inlined chain collapsed to the
    /// innermost scope.
    pub fn dbg_loc(&self, id: u32) -> Option<(String, u32, String)> {
        let (a, b) = *self.meta.get(&id)?;
        let l = &self.text[a..b];
        if !l.contains("DILocation(") {
            return None;
        }
        let line = field_num(l, "line: ").unwrap_or(0);
        let mut scope = field_ref(l, "scope: ")?;
        let mut file = None;
        let mut func = String::new();
        for _ in 0..64 {
            let (a, b) = *self.meta.get(&scope)?;
            let l = &self.text[a..b];
            if file.is_none() {
                if let Some(f) = field_ref(l, "file: ") {
                    file = Some(f);
                }
            }
            if l.contains("DISubprogram(") {
                func = field_str(l, "linkageName: ").or_else(|| field_str(l, "name: ")).unwrap_or_default();
                break;
            }
            scope = field_ref(l, "scope: ")?;
        }
        let (a, b) = *self.meta.get(&file?)?;
        let l = &self.text[a..b];
        let mut fname = field_str(l, "filename: ")?;
        if !fname.starts_with('/') {
            if let Some(d) = field_str(l, "directory: ") {
                fname = format!("{d}/{fname}");
            }
        }
        Some((fname, line, func))
    }
}

fn field_num(l: &str, k: &str) -> Option<u32> {
    let i = l.find(k)? + k.len();
    let r = &l[i..];
    let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
    r[..e].parse().ok()
}
fn field_ref(l: &str, k: &str) -> Option<u32> {
    let i = l.find(k)? + k.len();
    let r = &l[i..];
    let r = r.strip_prefix('!')?;
    let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
    r[..e].parse().ok()
}
fn field_str(l: &str, k: &str) -> Option<String> {
    let i = l.find(k)? + k.len();
    let r = l[i..].strip_prefix('"')?;
    let e = r.find('"')?;
    Some(r[..e].to_string())
}

enum Parsed {
    Phi(Phi),
    I(Ins),
}

pub fn binop(w: &str) -> Option<BinOp> {
    Some(match w {
        "add" => BinOp::Add,
        "sub" => BinOp::Sub,
        "mul" => BinOp::Mul,
        "udiv" => BinOp::UDiv,
        "sdiv" => BinOp::SDiv,
        "urem" => BinOp::URem,
        "srem" => BinOp::SRem,
        "and" => BinOp::And,
        "or" => BinOp::Or,
        "xor" => BinOp::Xor,
        "shl" => BinOp::Shl,
        "lshr" => BinOp::LShr,
        "ashr" => BinOp::AShr,
        _ => return None,
    })
}

fn memchr(b: &[u8], from: usize, c: u8) -> usize {
    b[from..].iter().position(|x| *x == c).map(|i| i + from).unwrap_or(b.len())
}

fn fn_name(line: &str) -> String {
    let at = line.find('@').unwrap();
    let mut c = Cur::new(line);
    c.p = at + 1;
    c.name()
}
