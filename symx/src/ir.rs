//! Textual LLVM IR: indexing of a module and on-demand parsing of functions.
use crate::term::{FxMap, T};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
    Label,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (*w as u64 + 7) / 8 {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vector(n, t) => (n * t.bits()).div_ceil(8).next_power_of_two(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Bits of a scalar.
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Ptr => 64,
            Ty::Float(w) => *w as u64,
            _ => self.size() * 8,
        }
    }
    /// Allocation size in bytes.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => align_up((*w as u64).div_ceil(8), self.align()),
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vector(n, t) => (n * t.bits()).div_ceil(8),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts.iter() {
                    if !*packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                align_up(o, self.align())
            }
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: u64) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !*packed {
                        o = align_up(o, t.align());
                    }
                    if k as u64 == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => i * t.size(),
            Ty::Vector(_, t) => i * t.size(),
            _ => panic!("field of scalar"),
        }
    }
    pub fn field(&self, i: u64) -> Ty {
        match self {
            Ty::Struct(ts, _) => ts[i as usize].clone(),
            Ty::Arr(_, t) | Ty::Vector(_, t) => (**t).clone(),
            _ => panic!("field of scalar"),
        }
    }
}

/// A runtime value. Integers of at most 64 bits that are known are `C`.
#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    T(T),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(u64),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Same,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ext(Rc<str>),
    Ptr(Op),
    Asm,
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca { d: u32, size: u64, n: Option<(Op, u32)> },
    Load { d: u32, ty: Ty, p: Op },
    Store { ty: Ty, v: Op, p: Op },
    Gep { d: u32, base: Op, off: u64, idx: Vec<(Op, u32, u64)> },
    Bin { d: u32, op: BinOp, w: u32, lanes: u64, a: Op, b: Op },
    Icmp { d: u32, p: Pred, w: u32, lanes: u64, a: Op, b: Op },
    Cast { d: u32, k: Cast, from: Ty, to: Ty, a: Op },
    Select { d: u32, cty: Ty, c: Op, ty: Ty, a: Op, b: Op },
    Call { d: Option<u32>, callee: Callee, args: Vec<(Ty, Op)>, ret: Ty, normal: Option<u32> },
    ExtractValue { d: u32, a: Op, path: Vec<u64> },
    InsertValue { d: u32, aty: Ty, a: Op, v: Op, path: Vec<u64> },
    ExtractElem { d: u32, a: Op, i: Op, ity: Ty },
    InsertElem { d: u32, aty: Ty, a: Op, v: Op, i: Op, ity: Ty },
    Shuffle { d: u32, a: Op, b: Op, n: u64, m: Vec<Option<u64>> },
    Mov { d: u32, a: Op },
    Br { t: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { w: u32, v: Op, cases: Vec<(u64, u32)>, def: u32 },
    Ret { v: Option<Op> },
    Unreachable,
    Nop,
    AtomicRmw { d: u32, op: Rc<str>, w: u32, p: Op, v: Op },
    CmpXchg { d: u32, ty: Ty, p: Op, c: Op, n: Op },
    Unsupported(Rc<str>),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub insts: Vec<I>,
    pub dbg: Vec<u32>,
}

pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub dbg: u32,
}

pub struct FnDecl {
    pub name: Rc<str>,
    /// Line range of the body in the module text (define), or none (declare).
    pub body: Option<(usize, usize)>,
    pub parsed: Option<Rc<Func>>,
}

pub struct GDecl {
    pub name: Rc<str>,
    pub line: usize,
    pub constant: bool,
    pub external: bool,
    pub alias: bool,
}

pub const FN_BASE: u64 = 0x6000_0000;
pub const GL_BASE: u64 = 0x4000_0000;

pub struct Module {
    pub lines: Vec<&'static str>,
    pub fns: Vec<FnDecl>,
    pub fn_ix: HashMap<Rc<str>, u32>,
    pub gl: Vec<GDecl>,
    pub gl_ix: HashMap<Rc<str>, u32>,
    pub types: HashMap<String, Ty>,
    pub meta: FxMap<u32, &'static str>,
    /// Differences of addresses that a 32-bit constant of a table of relative
    /// pointers stands for.
    pub relative: std::cell::RefCell<Vec<u64>>,
}

/// What the constants of such a table have in their upper bits.
pub const RELATIVE: u64 = 0x5a00_0000;

/// Byte-level initial contents of a global: bytes, plus pointer-sized values
/// are already resolved to addresses.
pub type Bytes = Vec<u8>;

fn ident_end(b: &[u8], mut i: usize) -> usize {
    if i < b.len() && b[i] == b'"' {
        i += 1;
        while b[i] != b'"' {
            i += 1;
        }
        return i + 1;
    }
    while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) {
        i += 1;
    }
    i
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("cannot read {}: {}", path, e));
        let text: &'static str = Box::leak(text.into_boxed_str());
        let lines: Vec<&'static str> = text.lines().collect();
        let mut m = Module {
            lines: vec![],
            fns: vec![],
            fn_ix: HashMap::new(),
            gl: vec![],
            gl_ix: HashMap::new(),
            types: HashMap::new(),
            meta: Default::default(),
            relative: Default::default(),
        };
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with("define ") || l.starts_with("declare ") {
                let at = l.find(" @").expect("function name") + 2;
                let e = ident_end(l.as_bytes(), at);
                let name: Rc<str> = l[at..e].trim_matches('"').into();
                let body = if l.starts_with("define ") {
                    let mut j = i + 1;
                    while lines[j] != "}" {
                        j += 1;
                    }
                    let r = (i, j);
                    i = j;
                    Some(r)
                } else {
                    None
                };
                m.fn_ix.insert(name.clone(), m.fns.len() as u32);
                m.fns.push(FnDecl { name, body, parsed: None });
            } else if l.starts_with('@') {
                let e = ident_end(l.as_bytes(), 1);
                let name: Rc<str> = l[1..e].trim_matches('"').into();
                let rest = &l[e..];
                let alias = rest.contains(" alias ") && !rest.contains(" constant ") && !rest.contains(" global ");
                let constant = match (rest.find(" constant "), rest.find(" global ")) {
                    (Some(c), Some(g)) => c < g,
                    (Some(_), None) => true,
                    _ => false,
                };
                let head = rest.split(" global ").next().unwrap().split(" constant ").next().unwrap();
                let external = head.contains(" external") || head.contains(" extern_weak");
                m.gl_ix.insert(name.clone(), m.gl.len() as u32);
                m.gl.push(GDecl { name, line: i, constant, external, alias });
            } else if l.starts_with('%') {
                let e = ident_end(l.as_bytes(), 1);
                if let Some(p) = l.find(" = type ") {
                    let ty = &l[p + 8..];
                    let t = P::new(&m, ty).ty();
                    m.types.insert(l[1..e].to_string(), t);
                }
            } else if l.starts_with('!') {
                if let Some(p) = l.find(" = ") {
                    if let Ok(n) = l[1..p].parse::<u32>() {
                        m.meta.insert(n, &l[p + 3..]);
                    }
                }
            }
            i += 1;
        }
        m.lines = lines;
        m
    }

    pub fn fn_addr(&self, i: u32) -> u64 {
        (FN_BASE + i as u64) << 32
    }
    pub fn gl_addr(&self, i: u32) -> u64 {
        (GL_BASE + i as u64) << 32
    }
    pub fn sym_addr(&self, name: &str) -> Option<u64> {
        if let Some(i) = self.fn_ix.get(name) {
            return Some(self.fn_addr(*i));
        }
        if let Some(i) = self.gl_ix.get(name) {
            let g = &self.gl[*i as usize];
            if g.alias {
                let l = self.lines[g.line];
                let p = l.find(" alias ").unwrap() + 7;
                let mut ps = P::new(self, &l[p..]);
                ps.ty();
                ps.expect(",");
                let t = ps.ty();
                return match ps.konst(&t) {
                    Val::C(c) => Some(c),
                    _ => None,
                };
            }
            if self.lines[g.line].contains(" extern_weak ") {
                return Some(0);
            }
            return Some(self.gl_addr(*i));
        }
        None
    }

    /// Initial bytes of global i.
    pub fn global_bytes(&self, i: u32) -> Bytes {
        let g = &self.gl[i as usize];
        let l = self.lines[g.line];
        let p = if g.constant {
            l.find(" constant ").unwrap() + 10
        } else {
            l.find(" global ").unwrap() + 8
        };
        let mut ps = P::new(self, &l[p..]);
        let ty = ps.ty();
        let mut out = vec![0u8; ty.size() as usize];
        if !g.external {
            let v = ps.konst(&ty);
            write_const(&mut out, 0, &ty, &v, &ps);
        }
        out
    }

    pub fn func(&mut self, i: u32) -> Rc<Func> {
        if let Some(f) = &self.fns[i as usize].parsed {
            return f.clone();
        }
        let f = Rc::new(parse_fn(self, i));
        self.fns[i as usize].parsed = Some(f.clone());
        f
    }
}

fn write_const(out: &mut [u8], at: u64, ty: &Ty, v: &Val, ps: &P) {
    match (ty, v) {
        (Ty::Arr(n, t), Val::A(xs)) => {
            for k in 0..*n {
                write_const(out, at + k * t.size(), t, &xs[k as usize], ps);
            }
        }
        (Ty::Vector(n, t), Val::A(xs)) => {
            for k in 0..*n {
                write_const(out, at + k * t.size(), t, &xs[k as usize], ps);
            }
        }
        (Ty::Struct(ts, _), Val::A(xs)) => {
            for (k, t) in ts.iter().enumerate() {
                write_const(out, at + ty.field_offset(k as u64), t, &xs[k], ps);
            }
        }
        (_, Val::C(c)) => {
            let b = (*c as u128).to_le_bytes();
            let n = (ty.bits().div_ceil(8)) as usize;
            for (k, x) in b.iter().enumerate().take(n.min(16)) {
                out[at as usize + k] = *x;
            }
        }
        (_, Val::T(t)) => {
            let c = ps.wide[t.0 as usize];
            let b = c.to_le_bytes();
            let n = (ty.bits().div_ceil(8)) as usize;
            out[at as usize..at as usize + n].copy_from_slice(&b[..n]);
        }
        _ => panic!("constant shape"),
    }
}

/// Cursor over a piece of IR text.
pub struct P<'m> {
    m: &'m Module,
    s: &'m str,
    b: &'m [u8],
    i: usize,
    /// Wide constants met (Val::T indexes this table until the executor
    /// interns them).
    pub wide: Vec<u128>,
}

impl<'m> P<'m> {
    pub fn new(m: &'m Module, s: &'m str) -> Self {
        P { m, s, b: s.as_bytes(), i: 0, wide: vec![] }
    }
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.b.len() {
            self.b[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t) {
            let last = t.as_bytes()[t.len() - 1];
            let e = self.i + t.len();
            if last.is_ascii_alphanumeric() && e < self.b.len() && (self.b[e].is_ascii_alphanumeric() || self.b[e] == b'_') {
                return false;
            }
            self.i = e;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            panic!("expected {:?} at {:?} in {:?}", t, &self.s[self.i..], self.s);
        }
    }
    fn word(&mut self) -> &'m str {
        self.ws();
        let e = ident_end(self.b, self.i);
        let w = &self.s[self.i..e];
        self.i = e;
        w
    }
    fn peek_word(&mut self) -> &'m str {
        self.ws();
        let e = ident_end(self.b, self.i);
        &self.s[self.i..e]
    }
    fn number(&mut self) -> u64 {
        let w = self.word();
        w.parse().unwrap_or_else(|_| panic!("number {:?} in {:?}", w, self.s))
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.b[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.b[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    pub fn ty(&mut self) -> Ty {
        let c = self.peek();
        let t = match c {
            b'[' => {
                self.i += 1;
                let n = self.number();
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let ts = self.ty_list();
                    self.expect(">");
                    Ty::Struct(Rc::new(ts), true)
                } else {
                    let n = self.number();
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vector(n, Rc::new(t))
                }
            }
            b'{' => {
                self.i += 1;
                let ts = self.ty_list();
                Ty::Struct(Rc::new(ts), false)
            }
            b'%' => {
                self.i += 1;
                let w = self.word();
                self.m.types.get(w).cloned().unwrap_or_else(|| panic!("type %{}", w))
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.eat("addrspace") {
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "metadata" => Ty::Meta,
                    "label" => Ty::Label,
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "half" => Ty::Float(16),
                    "x86_fp80" => Ty::Float(80),
                    "fp128" => Ty::Float(128),
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {:?} in {:?}", w, self.s))),
                    _ => panic!("type {:?} in {:?}", w, self.s),
                }
            }
        };
        t
    }
    fn ty_list(&mut self) -> Vec<Ty> {
        let mut v = vec![];
        if self.peek() == b'}' {
            self.i += 1;
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(",") {
                continue;
            }
            self.expect("}");
            return v;
        }
    }
    fn zero(&mut self, ty: &Ty) -> Val {
        match ty {
            Ty::Arr(n, t) | Ty::Vector(n, t) => {
                let z = self.zero(t);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(ts, _) => {
                let v = ts.iter().map(|t| self.zero(t)).collect();
                Val::A(Rc::new(v))
            }
            _ if ty.bits() > 64 => self.wide_const(0),
            _ => Val::C(0),
        }
    }
    fn wide_const(&mut self, v: u128) -> Val {
        self.wide.push(v);
        Val::T(T(self.wide.len() as u32 - 1))
    }
    /// A constant of the given type (the type has already been consumed).
    pub fn konst(&mut self, ty: &Ty) -> Val {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                let w = self.word().trim_matches('"');
                match self.m.sym_addr(w) {
                    Some(a) => Val::C(a),
                    None => panic!("unknown symbol @{}", w),
                }
            }
            b'-' | b'0'..=b'9' => {
                let neg = c == b'-';
                if neg {
                    self.i += 1;
                }
                let w = self.word();
                if let Ty::Float(_) = ty {
                    return Val::C(w.trim_start_matches("0x").parse::<u64>().unwrap_or(0));
                }
                let v: u128 = w.parse().unwrap_or_else(|_| panic!("int {:?} in {:?}", w, self.s));
                let v = if neg { 0u128.wrapping_sub(v) } else { v };
                let v = v & crate::term::mask(ty.bits() as u32);
                if ty.bits() > 64 {
                    self.wide_const(v)
                } else {
                    Val::C(v as u64)
                }
            }
            b'[' | b'{' => {
                self.i += 1;
                let close = if c == b'[' { "]" } else { "}" };
                let mut v = vec![];
                if self.eat(close) {
                    return Val::A(Rc::new(v));
                }
                loop {
                    let t = self.ty();
                    v.push(self.konst(&t));
                    if self.eat(",") {
                        continue;
                    }
                    self.expect(close);
                    return Val::A(Rc::new(v));
                }
            }
            b'<' => {
                self.i += 1;
                let packed = self.eat("{");
                let mut v = vec![];
                if packed && self.eat("}") {
                    self.expect(">");
                    return Val::A(Rc::new(v));
                }
                loop {
                    let t = self.ty();
                    v.push(self.konst(&t));
                    if self.eat(",") {
                        continue;
                    }
                    if packed {
                        self.expect("}");
                    }
                    self.expect(">");
                    return Val::A(Rc::new(v));
                }
            }
            b'c' if self.b.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let mut v = vec![];
                while self.b[self.i] != b'"' {
                    if self.b[self.i] == b'\\' && self.b[self.i + 1] == b'\\' {
                        v.push(Val::C(b'\\' as u64));
                        self.i += 2;
                    } else if self.b[self.i] == b'\\' {
                        let h = &self.s[self.i + 1..self.i + 3];
                        v.push(Val::C(u64::from_str_radix(h, 16).unwrap()));
                        self.i += 3;
                    } else {
                        v.push(Val::C(self.b[self.i] as u64));
                        self.i += 1;
                    }
                }
                self.i += 1;
                Val::A(Rc::new(v))
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Val::C(1),
                    "false" => Val::C(0),
                    "null" | "undef" | "poison" | "zeroinitializer" | "none" => self.zero(ty),
                    "splat" => {
                        self.expect("(");
                        let t = self.ty();
                        let v = self.konst(&t);
                        self.expect(")");
                        match ty {
                            Ty::Vector(n, _) => Val::A(Rc::new(vec![v; *n as usize])),
                            _ => v,
                        }
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' {
                            let w = self.word();
                            if w == "inrange" {
                                self.ws();
                                self.skip_parens();
                            }
                        }
                        self.expect("(");
                        let base_ty = self.ty();
                        self.expect(",");
                        let pt = self.ty();
                        let base = match self.konst(&pt) {
                            Val::C(c) => c,
                            _ => panic!("gep base"),
                        };
                        let mut off = 0u64;
                        let mut cur = base_ty;
                        let mut first = true;
                        while self.eat(",") {
                            self.eat("inrange");
                            let it = self.ty();
                            let ix = match self.konst(&it) {
                                Val::C(c) => crate::term::sx(c as u128, it.bits() as u32) as i64 as u64,
                                _ => panic!("gep index"),
                            };
                            if first {
                                off = off.wrapping_add(ix.wrapping_mul(cur.size()));
                                first = false;
                            } else {
                                off = off.wrapping_add(cur.field_offset(ix));
                                cur = cur.field(ix);
                            }
                        }
                        self.expect(")");
                        Val::C(base.wrapping_add(off))
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "ptrtoaddr" | "trunc" => {
                        self.expect("(");
                        let t = self.ty();
                        let v = self.konst(&t);
                        self.expect("to");
                        let t2 = self.ty();
                        self.expect(")");
                        match v {
                            // Addresses of different objects differ in the upper half.
                            Val::C(c) if w == "trunc" && t2.bits() == 32 && c >> 32 != 0 => {
                                let mut relative = self.m.relative.borrow_mut();
                                relative.push(c);
                                assert!(relative.len() < 1 << 24);
                                Val::C(RELATIVE + relative.len() as u64 - 1)
                            }
                            Val::C(c) => Val::C(c & crate::term::mask(t2.bits().min(64) as u32) as u64),
                            v => v,
                        }
                    }
                    "sub" | "add" | "xor" => {
                        while matches!(self.peek_word(), "nuw" | "nsw") {
                            self.word();
                        }
                        self.expect("(");
                        let t = self.ty();
                        let a = self.konst(&t);
                        self.expect(",");
                        let t2 = self.ty();
                        let b = self.konst(&t2);
                        self.expect(")");
                        match (a, b) {
                            (Val::C(a), Val::C(b)) => Val::C(
                                (match w {
                                    "sub" => a.wrapping_sub(b),
                                    "add" => a.wrapping_add(b),
                                    _ => a ^ b,
                                }) & crate::term::mask(t.bits() as u32) as u64,
                            ),
                            _ => panic!("const expr"),
                        }
                    }
                    "blockaddress" | "dso_local_equivalent" | "no_cfi" => panic!("unsupported constant {}", w),
                    _ => panic!("constant {:?} in {:?}", w, self.s),
                }
            }
        }
    }
}

struct FnP<'m, 'k> {
    p: P<'m>,
    regs: &'k mut HashMap<&'m str, u32>,
    blocks: &'k HashMap<&'m str, u32>,
    konst: &'k mut dyn FnMut(u128, u32) -> T,
}

impl<'m, 'k> FnP<'m, 'k> {
    fn reg(&mut self, name: &'m str) -> u32 {
        let n = self.regs.len() as u32;
        *self.regs.entry(name).or_insert(n)
    }
    fn fix(&mut self, v: Val, ty: &Ty) -> Val {
        match v {
            Val::T(t) => Val::T((self.konst)(self.p.wide[t.0 as usize], ty.bits() as u32)),
            Val::A(xs) => {
                let ys = xs
                    .iter()
                    .enumerate()
                    .map(|(k, x)| {
                        let ft = ty.field(k as u64);
                        self.fix(x.clone(), &ft)
                    })
                    .collect();
                Val::A(Rc::new(ys))
            }
            v => v,
        }
    }
    fn op(&mut self, ty: &Ty) -> Op {
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let w = self.p.word();
            return Op::R(self.reg(w));
        }
        if let Ty::Meta = ty {
            // metadata operand: skip to the next , or ) at depth 0
            let mut d = 0;
            loop {
                let c = self.p.b[self.p.i];
                match c {
                    b'(' | b'{' => d += 1,
                    b')' | b'}' if d == 0 => break,
                    b')' | b'}' => d -= 1,
                    b',' if d == 0 => break,
                    _ => {}
                }
                self.p.i += 1;
            }
            return Op::C(0);
        }
        let v = self.p.konst(ty);
        match self.fix(v, ty) {
            Val::C(c) => Op::C(c),
            v => Op::K(v),
        }
    }
    fn tyop(&mut self) -> (Ty, Op) {
        let t = self.p.ty();
        self.attrs();
        let o = self.op(&t);
        (t, o)
    }
    /// Skip parameter/return attributes.
    fn attrs(&mut self) {
        loop {
            let c = self.p.peek();
            if !(c.is_ascii_alphabetic()) {
                if c == b'"' {
                    // string attribute
                    self.p.word();
                    if self.p.eat("=") {
                        self.p.word();
                    }
                    continue;
                }
                return;
            }
            let w = self.p.peek_word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr"
                | "ptrtoint" | "ptrtoaddr" | "none" | "splat" | "sub" | "add" | "xor" | "bitcast" | "trunc" | "asm" | "blockaddress"
                | "addrspacecast" => return,
                "c" => return,
                "align" => {
                    self.p.word();
                    self.p.ws();
                    if self.p.peek() == b'(' {
                        self.p.skip_parens();
                    } else {
                        self.p.word();
                    }
                }
                _ => {
                    self.p.word();
                    if self.p.i < self.p.b.len() && self.p.b[self.p.i] == b'(' {
                        self.p.skip_parens();
                    }
                }
            }
        }
    }
    fn block(&mut self) -> u32 {
        self.p.expect("label");
        self.p.expect("%");
        let w = self.p.word();
        *self.blocks.get(w).unwrap_or_else(|| panic!("block %{} in {:?}", w, self.p.s))
    }
    fn flags(&mut self) {
        loop {
            match self.p.peek_word() {
                "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "nneg" | "samesign" | "fast" | "nnan"
                | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" => {
                    self.p.word();
                }
                "inrange" => {
                    self.p.word();
                    self.p.ws();
                    self.p.skip_parens();
                }
                _ => return,
            }
        }
    }
    fn int_lanes(t: &Ty) -> (u32, u64) {
        match t {
            Ty::Vector(n, e) => (e.bits() as u32, *n),
            t => (t.bits() as u32, 0),
        }
    }
}

fn dbg_of(l: &str) -> u32 {
    if let Some(p) = l.rfind("!dbg !") {
        let s = &l[p + 6..];
        let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
        return s[..e].parse().unwrap_or(0);
    }
    0
}

thread_local! {
    pub static KONST: std::cell::RefCell<Option<Box<dyn FnMut(u128, u32) -> T>>> = const { std::cell::RefCell::new(None) };
}

fn parse_fn(m: &Module, ix: u32) -> Func {
    let (s, e) = m.fns[ix as usize].body.expect("body");
    let mut regs: HashMap<&str, u32> = HashMap::new();
    let mut blocks: HashMap<&str, u32> = HashMap::new();
    let mut konst = |v: u128, w: u32| KONST.with(|k| (k.borrow_mut().as_mut().unwrap())(v, w));
    // Block labels first. The entry block may be unlabelled (numbered).
    let mut order: Vec<&str> = vec![];
    let mut body: Vec<usize> = vec![];
    let mut implicit = false;
    for k in s + 1..e {
        let l = m.lines[k];
        if l.is_empty() || l.starts_with(';') {
            continue;
        }
        if !l.starts_with(' ') {
            let b = l.as_bytes();
            let en = ident_end(b, 0);
            assert!(b[en] == b':', "label line {:?}", l);
            let name = &l[..en];
            blocks.insert(name, order.len() as u32);
            order.push(name);
            body.push(usize::MAX);
        } else {
            if order.is_empty() {
                // Unlabelled entry block: its implicit name is the number
                // after the unnamed parameters (filled in below).
                order.push("");
                body.push(usize::MAX);
                implicit = true;
            }
            body.push(k);
        }
    }
    // parameters
    let head = m.lines[s];
    let at = head.find(" @").unwrap() + 2;
    let pstart = ident_end(head.as_bytes(), at);
    let mut params = vec![];
    {
        let mut fp = FnP { p: P::new(m, head), regs: &mut regs, blocks: &blocks, konst: &mut konst };
        fp.p.i = pstart;
        fp.p.expect("(");
        let mut n = 0;
        if !fp.p.eat(")") {
            loop {
                if fp.p.eat("...") {
                    fp.p.expect(")");
                    break;
                }
                fp.p.ty();
                fp.attrs();
                if fp.p.peek() == b'%' {
                    fp.p.i += 1;
                    let w = fp.p.word();
                    params.push(fp.reg(w));
                } else {
                    let nm: &'static str = Box::leak(format!("{}", n).into_boxed_str());
                    params.push(fp.reg(nm));
                }
                n += 1;
                if fp.p.eat(",") {
                    continue;
                }
                fp.p.expect(")");
                break;
            }
        }
    }
    let mut out: Vec<Block> = vec![];
    let mut k = 0;
    if implicit {
        let n = params.iter().filter(|r| regs.iter().any(|(k, v)| v == *r && k.bytes().all(|c| c.is_ascii_digit()))).count();
        let nm: &'static str = Box::leak(format!("{}", n).into_boxed_str());
        blocks.insert(nm, 0);
    }
    while k < body.len() {
        if body[k] == usize::MAX {
            out.push(Block { phis: vec![], insts: vec![], dbg: vec![] });
            k += 1;
            continue;
        }
        let l = m.lines[body[k]];
        let t = l.trim_start();
        // Multi-line constructs: switch tables, landing pads, invoke targets.
        let mut line: &str = l;
        let starts = |w: &str| t.starts_with(w) || t.split_once(" = ").map(|x| x.1.starts_with(w)).unwrap_or(false);
        if starts("switch ") && !l.contains(']') {
            let mut j = k;
            let mut s = String::from(l);
            loop {
                j += 1;
                s.push(' ');
                s.push_str(m.lines[body[j]]);
                if m.lines[body[j]].trim_start().starts_with(']') {
                    break;
                }
            }
            k = j;
            line = Box::leak(s.into_boxed_str());
        } else if starts("invoke ") && !l.contains(" unwind label ") {
            let s = format!("{} {}", l, m.lines[body[k + 1]]);
            k += 1;
            line = Box::leak(s.into_boxed_str());
        } else if starts("landingpad ") {
            while k + 1 < body.len()
                && body[k + 1] != usize::MAX
                && matches!(m.lines[body[k + 1]].split_whitespace().next(), Some("cleanup" | "filter" | "catch"))
            {
                k += 1;
            }
        }
        k += 1;
        let mut fp = FnP { p: P::new(m, line), regs: &mut regs, blocks: &blocks, konst: &mut konst };
        let b = out.last_mut().unwrap();
        if let Some(i) = parse_inst(&mut fp, b, m) {
            b.dbg.push(dbg_of(line));
            b.insts.push(i);
        }
    }
    Func {
        name: m.fns[ix as usize].name.clone(),
        params,
        nregs: regs.len() as u32,
        blocks: out,
        dbg: dbg_of(head),
    }
}

fn parse_inst<'m>(f: &mut FnP<'m, '_>, b: &mut Block, m: &'m Module) -> Option<I> {
    let mut d = u32::MAX;
    if f.p.peek() == b'%' {
        f.p.i += 1;
        let w = f.p.word();
        d = f.reg(w);
        f.p.expect("=");
    }
    if f.p.peek() == b'#' {
        return None; // debug record
    }
    let mut w = f.p.word();
    while matches!(w, "tail" | "musttail" | "notail") {
        w = f.p.word();
    }
    let bin = match w {
        "add" => Some(BinOp::Add),
        "sub" => Some(BinOp::Sub),
        "mul" => Some(BinOp::Mul),
        "udiv" => Some(BinOp::UDiv),
        "sdiv" => Some(BinOp::SDiv),
        "urem" => Some(BinOp::URem),
        "srem" => Some(BinOp::SRem),
        "shl" => Some(BinOp::Shl),
        "lshr" => Some(BinOp::LShr),
        "ashr" => Some(BinOp::AShr),
        "and" => Some(BinOp::And),
        "or" => Some(BinOp::Or),
        "xor" => Some(BinOp::Xor),
        _ => None,
    };
    if let Some(op) = bin {
        f.flags();
        let t = f.p.ty();
        let a = f.op(&t);
        f.p.expect(",");
        let c = f.op(&t);
        let (w, lanes) = FnP::int_lanes(&t);
        return Some(I::Bin { d, op, w, lanes, a, b: c });
    }
    Some(match w {
        "phi" => {
            f.flags();
            let t = f.p.ty();
            let mut v = vec![];
            loop {
                f.p.expect("[");
                let o = f.op(&t);
                f.p.expect(",");
                f.p.expect("%");
                let w = f.p.word();
                let bl = *f.blocks.get(w).expect("phi block");
                f.p.expect("]");
                v.push((bl, o));
                if !f.p.eat(",") {
                    break;
                }
                if f.p.peek() != b'[' {
                    break;
                }
            }
            b.phis.push((d, v));
            return None;
        }
        "alloca" => {
            f.p.eat("inalloca");
            let t = f.p.ty();
            let mut n = None;
            if f.p.eat(",") && f.p.peek() == b'i' {
                let (t2, o) = f.tyop();
                n = Some((o, t2.bits() as u32));
            }
            I::Alloca { d, size: t.size(), n }
        }
        "load" => {
            f.flags();
            let ty = f.p.ty();
            f.p.expect(",");
            let (_, p) = f.tyop();
            I::Load { d, ty, p }
        }
        "store" => {
            f.flags();
            let (ty, v) = f.tyop();
            f.p.expect(",");
            let (_, p) = f.tyop();
            I::Store { ty, v, p }
        }
        "getelementptr" => {
            f.flags();
            let mut cur = f.p.ty();
            f.p.expect(",");
            let (_, base) = f.tyop();
            let mut off = 0u64;
            let mut idx = vec![];
            let mut first = true;
            while f.p.eat(",") {
                if f.p.peek() == b'!' {
                    break;
                }
                let (it, o) = f.tyop();
                let scale_const = |c: u64| crate::term::sx(c as u128, it.bits() as u32) as i64 as u64;
                if first {
                    first = false;
                    let sz = cur.size();
                    match o {
                        Op::C(c) => off = off.wrapping_add(scale_const(c).wrapping_mul(sz)),
                        o => idx.push((o, it.bits() as u32, sz)),
                    }
                } else {
                    match (&cur, o) {
                        (_, Op::C(c)) => {
                            let c = scale_const(c);
                            off = off.wrapping_add(cur.field_offset(c));
                            cur = cur.field(c);
                        }
                        (Ty::Arr(_, e), o) | (Ty::Vector(_, e), o) => {
                            idx.push((o, it.bits() as u32, e.size()));
                            cur = (**e).clone();
                        }
                        _ => panic!("struct gep with a variable index"),
                    }
                }
            }
            I::Gep { d, base, off, idx }
        }
        "icmp" => {
            f.flags();
            let p = match f.p.word() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                x => panic!("predicate {}", x),
            };
            let t = f.p.ty();
            let a = f.op(&t);
            f.p.expect(",");
            let c = f.op(&t);
            let (w, lanes) = FnP::int_lanes(&t);
            I::Icmp { d, p, w, lanes, a, b: c }
        }
        "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
            f.flags();
            let (from, a) = f.tyop();
            f.p.expect("to");
            let to = f.p.ty();
            let k = match w {
                "trunc" => Cast::Trunc,
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "bitcast" => Cast::Bit,
                _ => {
                    if from.bits() == to.bits() {
                        Cast::Same
                    } else if from.bits() > to.bits() {
                        Cast::Trunc
                    } else {
                        Cast::ZExt
                    }
                }
            };
            I::Cast { d, k, from, to, a }
        }
        "freeze" => {
            let (_, a) = f.tyop();
            I::Mov { d, a }
        }
        "select" => {
            f.flags();
            let (cty, c) = f.tyop();
            f.p.expect(",");
            let (ty, a) = f.tyop();
            f.p.expect(",");
            let (_, b2) = f.tyop();
            I::Select { d, cty, c, ty, a, b: b2 }
        }
        "call" | "invoke" => {
            let line = f.p.s;
            let r = (|| -> Result<I, String> {
                f.flags();
                // calling convention
                loop {
                    match f.p.peek_word() {
                        "fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "preserve_allcc" | "swiftcc" | "tailcc"
                        | "x86_64_sysvcc" | "preserve_nonecc" => {
                            f.p.word();
                        }
                        "cc" => {
                            f.p.word();
                            f.p.word();
                        }
                        _ => break,
                    }
                }
                // return attributes (before the type)
                loop {
                    let w = f.p.peek_word();
                    let is_ty = w.is_empty()
                        || w == "void"
                        || w == "ptr"
                        || w == "float"
                        || w == "double"
                        || w == "half"
                        || w == "fp128"
                        || w == "x86_fp80"
                        || (w.starts_with('i') && w[1..].chars().all(|c| c.is_ascii_digit()) && w.len() > 1);
                    if is_ty {
                        break;
                    }
                    f.p.word();
                    if w == "align" {
                        f.p.word();
                    } else if f.p.i < f.p.b.len() && f.p.b[f.p.i] == b'(' {
                        f.p.skip_parens();
                    }
                }
                let ret = f.p.ty();
                if f.p.peek() == b'(' {
                    f.p.skip_parens();
                }
                let callee = match f.p.peek() {
                    b'@' => {
                        f.p.i += 1;
                        let n = f.p.word().trim_matches('"');
                        match m.fn_ix.get(n) {
                            Some(ix) if m.fns[*ix as usize].body.is_some() => Callee::Fn(*ix),
                            Some(_) => Callee::Ext(n.into()),
                            None => match m.sym_addr(n) {
                                Some(a) => Callee::Ptr(Op::C(a)),
                                None => Callee::Ext(n.into()),
                            },
                        }
                    }
                    b'%' => {
                        f.p.i += 1;
                        let n = f.p.word();
                        Callee::Ptr(Op::R(f.reg(n)))
                    }
                    _ => {
                        let w = f.p.peek_word();
                        if w == "asm" {
                            while f.p.peek() != b'(' {
                                f.p.word();
                                if f.p.peek() == b',' {
                                    f.p.i += 1;
                                }
                            }
                            Callee::Asm
                        } else {
                            Callee::Ptr(f.op(&Ty::Ptr))
                        }
                    }
                };
                f.p.expect("(");
                let mut args = vec![];
                if !f.p.eat(")") {
                    loop {
                        let (t, o) = f.tyop();
                        args.push((t, o));
                        if f.p.eat(",") {
                            continue;
                        }
                        f.p.expect(")");
                        break;
                    }
                }
                let normal = if w == "invoke" {
                    let p = f.p.s[f.p.i..].find(" to label %").ok_or("invoke target")?;
                    f.p.i += p;
                    f.p.expect("to");
                    Some(f.block())
                } else {
                    None
                };
                let d = if d == u32::MAX { None } else { Some(d) };
                Ok(I::Call { d, callee, args, ret, normal })
            })();
            match r {
                Ok(i) => i,
                Err(e) => I::Unsupported(format!("{}: {}", e, line).into()),
            }
        }
        "extractvalue" => {
            let (_, a) = f.tyop();
            let mut path = vec![];
            while f.p.eat(",") {
                if f.p.peek() == b'!' {
                    break;
                }
                path.push(f.p.number());
            }
            I::ExtractValue { d, a, path }
        }
        "insertvalue" => {
            let (aty, a) = f.tyop();
            f.p.expect(",");
            let (_, v) = f.tyop();
            let mut path = vec![];
            while f.p.eat(",") {
                if f.p.peek() == b'!' {
                    break;
                }
                path.push(f.p.number());
            }
            I::InsertValue { d, aty, a, v, path }
        }
        "extractelement" => {
            let (_, a) = f.tyop();
            f.p.expect(",");
            let (ity, i) = f.tyop();
            I::ExtractElem { d, a, i, ity }
        }
        "insertelement" => {
            let (aty, a) = f.tyop();
            f.p.expect(",");
            let (_, v) = f.tyop();
            f.p.expect(",");
            let (ity, i) = f.tyop();
            I::InsertElem { d, aty, a, v, i, ity }
        }
        "shufflevector" => {
            let (t, a) = f.tyop();
            f.p.expect(",");
            let (_, c) = f.tyop();
            f.p.expect(",");
            let mt = f.p.ty();
            let n = match t {
                Ty::Vector(n, _) => n,
                _ => panic!("shuffle"),
            };
            let m = match &mt {
                Ty::Vector(k, _) => {
                    let rest = f.p.s[f.p.i..].trim_start();
                    if rest.starts_with("poison") || rest.starts_with("undef") {
                        vec![None; *k as usize]
                    } else {
                        let v = f.p.konst(&mt);
                        match v {
                            Val::A(xs) => xs
                                .iter()
                                .map(|x| match x {
                                    Val::C(c) => Some(*c & 0xffff_ffff),
                                    _ => None,
                                })
                                .collect(),
                            _ => panic!("mask"),
                        }
                    }
                }
                _ => panic!("mask type"),
            };
            I::Shuffle { d, a, b: c, n, m }
        }
        "br" => {
            if f.p.peek_word() == "label" {
                I::Br { t: f.block() }
            } else {
                let (_, c) = f.tyop();
                f.p.expect(",");
                let t = f.block();
                f.p.expect(",");
                let e = f.block();
                I::CondBr { c, t, f: e }
            }
        }
        "switch" => {
            let (t, v) = f.tyop();
            f.p.expect(",");
            let def = f.block();
            f.p.expect("[");
            let mut cases = vec![];
            while !f.p.eat("]") {
                let (_, o) = f.tyop();
                f.p.expect(",");
                let bl = f.block();
                match o {
                    Op::C(c) => cases.push((c, bl)),
                    _ => return Some(I::Unsupported("wide switch".into())),
                }
            }
            I::Switch { w: t.bits() as u32, v, cases, def }
        }
        "ret" => {
            let t = f.p.ty();
            if let Ty::Void = t {
                I::Ret { v: None }
            } else {
                let o = f.op(&t);
                I::Ret { v: Some(o) }
            }
        }
        "unreachable" => I::Unreachable,
        "fence" => I::Nop,
        "landingpad" | "resume" => I::Unsupported("unwinding".into()),
        "atomicrmw" => {
            f.flags();
            let op: Rc<str> = f.p.word().into();
            let (_, p) = f.tyop();
            f.p.expect(",");
            let (t, v) = f.tyop();
            I::AtomicRmw { d, op, w: t.bits() as u32, p, v }
        }
        "cmpxchg" => {
            f.flags();
            let (_, p) = f.tyop();
            f.p.expect(",");
            let (ty, c) = f.tyop();
            f.p.expect(",");
            let (_, n) = f.tyop();
            I::CmpXchg { d, ty, p, c, n }
        }
        _ => I::Unsupported(f.p.s.into()),
    })
}
