//! Hash-consed bit-vector terms with local simplification.
//! Width-1 terms double as booleans.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct T(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

impl B {
    pub fn is_cmp(self) -> bool {
        matches!(self, B::Eq | B::Ult | B::Ule | B::Slt | B::Sle)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    Not(T),
    Bin(B, T, T),
    Ite(T, T, T),
    ZExt(T),
    SExt(T),
    Extract(u32, T),
    Concat(T, T),
}

#[derive(Clone, Copy)]
pub struct Node {
    pub k: K,
    pub w: u32,
    /// Which input variables occur (bit 127 stands for every index >= 127).
    pub mask: u128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

/// Concrete semantics of the binary operators (the single definition used by
/// constant folding and by model evaluation). Division by zero follows
/// SMT-LIB; the executor treats it as a violation before it gets here.
pub fn binop(op: B, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    let a = a & m;
    let b = b & m;
    match op {
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Add => a.wrapping_add(b) & m,
        B::Sub => a.wrapping_sub(b) & m,
        B::Mul => a.wrapping_mul(b) & m,
        B::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        B::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sx(a, w) >> s) as u128) & m
        }
        B::Eq => (a == b) as u128,
        B::Ult => (a < b) as u128,
        B::Ule => (a <= b) as u128,
        B::Slt => (sx(a, w) < sx(b, w)) as u128,
        B::Sle => (sx(a, w) <= sx(b, w)) as u128,
    }
}

pub struct Terms {
    pub nodes: Vec<Node>,
    map: FxMap<(K, u32), T>,
}

impl Terms {
    pub fn new() -> Self {
        Terms {
            nodes: vec![],
            map: Default::default(),
        }
    }
    fn intern(&mut self, k: K, w: u32) -> T {
        if let Some(t) = self.map.get(&(k, w)) {
            return *t;
        }
        let mk = match k {
            K::Const(_) => 0,
            K::Var(i) => 1u128 << i.min(127),
            K::Not(a) | K::ZExt(a) | K::SExt(a) | K::Extract(_, a) => self.nodes[a.0 as usize].mask,
            K::Bin(_, a, b) | K::Concat(a, b) => {
                self.nodes[a.0 as usize].mask | self.nodes[b.0 as usize].mask
            }
            K::Ite(a, b, c) => {
                self.nodes[a.0 as usize].mask
                    | self.nodes[b.0 as usize].mask
                    | self.nodes[c.0 as usize].mask
            }
        };
        let t = T(self.nodes.len() as u32);
        self.nodes.push(Node { k, w, mask: mk });
        self.map.insert((k, w), t);
        t
    }
    #[inline]
    pub fn node(&self, t: T) -> Node {
        self.nodes[t.0 as usize]
    }
    #[inline]
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t.0 as usize].w
    }
    pub fn konst(&mut self, v: u128, w: u32) -> T {
        self.intern(K::Const(v & mask(w)), w)
    }
    pub fn var(&mut self, i: u32, w: u32) -> T {
        self.intern(K::Var(i), w)
    }
    pub fn as_const(&self, t: T) -> Option<u128> {
        if let K::Const(c) = self.node(t).k {
            Some(c)
        } else {
            None
        }
    }
    pub fn tru(&mut self) -> T {
        self.konst(1, 1)
    }
    pub fn not(&mut self, a: T) -> T {
        let n = self.node(a);
        match n.k {
            K::Const(c) => self.konst(!c, n.w),
            K::Not(b) => b,
            K::Bin(B::Ult, x, y) => self.bin(B::Ule, y, x),
            K::Bin(B::Ule, x, y) => self.bin(B::Ult, y, x),
            K::Bin(B::Slt, x, y) => self.bin(B::Sle, y, x),
            K::Bin(B::Sle, x, y) => self.bin(B::Slt, y, x),
            _ => self.intern(K::Not(a), n.w),
        }
    }
    /// Greatest value the term can take by its structure alone.
    fn umax(&self, t: T) -> u128 {
        let n = self.node(t);
        match n.k {
            K::Const(c) => c,
            K::ZExt(a) => self.umax(a),
            K::Ite(_, a, b) => match (self.as_const(a), self.as_const(b)) {
                (Some(x), Some(y)) => x.max(y),
                _ => mask(n.w),
            },
            K::Bin(B::And, a, b) => match (self.as_const(a), self.as_const(b)) {
                (Some(c), _) | (_, Some(c)) => c,
                _ => mask(n.w),
            },
            _ => mask(n.w),
        }
    }
    pub fn bin(&mut self, op: B, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let rw = if op.is_cmp() { 1 } else { w };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(binop(op, x, y, w), rw);
        }
        let m = mask(w);
        // Constants go right for commutative operators.
        let (a, b, ca, cb) = match op {
            B::And | B::Or | B::Xor | B::Add | B::Mul | B::Eq => {
                if ca.is_some() || (cb.is_none() && a.0 > b.0) {
                    (b, a, cb, ca)
                } else {
                    (a, b, ca, cb)
                }
            }
            _ => (a, b, ca, cb),
        };
        if w == 1 {
            // Boolean layer.
            match op {
                B::Add | B::Sub => return self.bin(B::Xor, a, b),
                B::Mul => return self.bin(B::And, a, b),
                B::Ult => {
                    let na = self.not(a);
                    return self.bin(B::And, na, b);
                }
                B::Ule => {
                    let na = self.not(a);
                    return self.bin(B::Or, na, b);
                }
                B::Slt => {
                    let nb = self.not(b);
                    return self.bin(B::And, a, nb);
                }
                B::Sle => {
                    let nb = self.not(b);
                    return self.bin(B::Or, a, nb);
                }
                _ => {}
            }
        }
        match op {
            B::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) || a == b {
                    return a;
                }
                if self.complement(a, b) {
                    return self.konst(0, w);
                }
                if let Some(c) = cb {
                    // Low mask: extract + zext.
                    if c.count_ones() == c.trailing_ones() {
                        let k = c.trailing_ones();
                        let e = self.extract(a, 0, k);
                        return self.zext(e, w);
                    }
                }
            }
            B::Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if self.complement(a, b) {
                    return self.konst(m, w);
                }
                if let Some(t) = self.or_concat(a, b, w) {
                    return t;
                }
            }
            B::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(0, w);
                }
                if cb == Some(m) {
                    return self.not(a);
                }
            }
            B::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let (Some(c), K::Bin(B::Add, x, y)) = (cb, self.node(a).k) {
                    if let Some(d) = self.as_const(y) {
                        let k = self.konst(c.wrapping_add(d), w);
                        return self.bin(B::Add, x, k);
                    }
                }
            }
            B::Sub => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(c) = cb {
                    let k = self.konst(0u128.wrapping_sub(c), w);
                    return self.bin(B::Add, a, k);
                }
            }
            B::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(c) = cb {
                    if c.count_ones() == 1 {
                        let k = self.konst(c.trailing_zeros() as u128, w);
                        return self.bin(B::Shl, a, k);
                    }
                }
            }
            B::UDiv => {
                if let Some(c) = cb {
                    if c.count_ones() == 1 {
                        let k = self.konst(c.trailing_zeros() as u128, w);
                        return self.bin(B::LShr, a, k);
                    }
                }
            }
            B::URem => {
                if let Some(c) = cb {
                    if c.count_ones() == 1 {
                        let k = self.konst(c - 1, w);
                        return self.bin(B::And, a, k);
                    }
                }
            }
            B::Shl => {
                if let Some(s) = cb {
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.konst(0, w);
                    }
                    let s = s as u32;
                    let lo = self.extract(a, 0, w - s);
                    let z = self.konst(0, s);
                    return self.concat(lo, z);
                }
            }
            B::LShr => {
                if let Some(s) = cb {
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.konst(0, w);
                    }
                    let s = s as u32;
                    let hi = self.extract(a, s, w - s);
                    return self.zext(hi, w);
                }
            }
            B::AShr => {
                if let Some(s) = cb {
                    if s == 0 {
                        return a;
                    }
                    let s = s.min(w as u128 - 1) as u32;
                    let hi = self.extract(a, s, w - s);
                    return self.sext(hi, w);
                }
            }
            B::Eq => {
                if a == b {
                    return self.tru();
                }
                if w == 1 {
                    if cb == Some(1) {
                        return a;
                    }
                    if cb == Some(0) {
                        return self.not(a);
                    }
                    if self.complement(a, b) {
                        return self.konst(0, 1);
                    }
                }
                if let Some(c) = cb {
                    if c > self.umax(a) {
                        return self.konst(0, 1);
                    }
                    match self.node(a).k {
                        K::ZExt(x) => {
                            let k = self.konst(c, self.w(x));
                            return self.bin(B::Eq, x, k);
                        }
                        K::SExt(x) => {
                            let xw = self.w(x);
                            if (sx(c & mask(xw), xw) as u128) & m != c {
                                return self.konst(0, 1);
                            }
                            let k = self.konst(c, xw);
                            return self.bin(B::Eq, x, k);
                        }
                        K::Ite(i, x, y) => {
                            let (cx, cy) = (self.as_const(x), self.as_const(y));
                            if let (Some(cx), Some(cy)) = (cx, cy) {
                                return match (cx == c, cy == c) {
                                    (true, true) => self.tru(),
                                    (true, false) => i,
                                    (false, true) => self.not(i),
                                    (false, false) => self.konst(0, 1),
                                };
                            }
                            if cx.is_some() || cy.is_some() {
                                let ex = self.bin(B::Eq, x, b);
                                let ey = self.bin(B::Eq, y, b);
                                return self.ite(i, ex, ey);
                            }
                        }
                        K::Bin(B::Add, x, y) => {
                            if let Some(d) = self.as_const(y) {
                                let k = self.konst(c.wrapping_sub(d), w);
                                return self.bin(B::Eq, x, k);
                            }
                        }
                        K::Bin(B::Xor, x, y) => {
                            if let Some(d) = self.as_const(y) {
                                let k = self.konst(c ^ d, w);
                                return self.bin(B::Eq, x, k);
                            }
                        }
                        K::Not(x) => {
                            let k = self.konst(!c, w);
                            return self.bin(B::Eq, x, k);
                        }
                        K::Concat(h, l) => {
                            let lw = self.w(l);
                            let hw = self.w(h);
                            let kh = self.konst(c >> lw, hw);
                            let kl = self.konst(c, lw);
                            let eh = self.bin(B::Eq, h, kh);
                            let el = self.bin(B::Eq, l, kl);
                            return self.bin(B::And, eh, el);
                        }
                        _ => {}
                    }
                } else if let (K::ZExt(x), K::ZExt(y)) = (self.node(a).k, self.node(b).k) {
                    if self.w(x) == self.w(y) {
                        return self.bin(B::Eq, x, y);
                    }
                }
            }
            B::Ult | B::Ule => {
                if a == b {
                    return self.konst((op == B::Ule) as u128, 1);
                }
                if let Some(c) = cb {
                    if op == B::Ult && c == 0 {
                        return self.konst(0, 1);
                    }
                    if op == B::Ult && c == 1 {
                        let z = self.konst(0, w);
                        return self.bin(B::Eq, a, z);
                    }
                    if op == B::Ule && c == 0 {
                        return self.bin(B::Eq, a, b);
                    }
                    let um = self.umax(a);
                    if (op == B::Ult && um < c) || (op == B::Ule && um <= c) {
                        return self.tru();
                    }
                    if let K::ZExt(x) = self.node(a).k {
                        let k = self.konst(c, self.w(x));
                        return self.bin(op, x, k);
                    }
                    if let K::Ite(i, x, y) = self.node(a).k {
                        if self.as_const(x).is_some() || self.as_const(y).is_some() {
                            let ex = self.bin(op, x, b);
                            let ey = self.bin(op, y, b);
                            return self.ite(i, ex, ey);
                        }
                    }
                }
                if let Some(c) = ca {
                    if op == B::Ult && c == 0 {
                        let z = self.konst(0, w);
                        let e = self.bin(B::Eq, b, z);
                        return self.not(e);
                    }
                    if op == B::Ule && c == 0 {
                        return self.tru();
                    }
                    let um = self.umax(b);
                    if (op == B::Ult && c >= um) || (op == B::Ule && c > um) {
                        return self.konst(0, 1);
                    }
                    if let K::ZExt(x) = self.node(b).k {
                        let k = self.konst(c, self.w(x));
                        return self.bin(op, k, x);
                    }
                    if let K::Ite(i, x, y) = self.node(b).k {
                        if self.as_const(x).is_some() || self.as_const(y).is_some() {
                            let ex = self.bin(op, a, x);
                            let ey = self.bin(op, a, y);
                            return self.ite(i, ex, ey);
                        }
                    }
                }
                if let (K::ZExt(x), K::ZExt(y)) = (self.node(a).k, self.node(b).k) {
                    if self.w(x) == self.w(y) {
                        return self.bin(op, x, y);
                    }
                }
            }
            B::Slt | B::Sle => {
                if a == b {
                    return self.konst((op == B::Sle) as u128, 1);
                }
                // Both operands known non-negative: unsigned comparison.
                let half = mask(w) >> 1;
                if self.umax(a) <= half && self.umax(b) <= half {
                    let u = if op == B::Slt { B::Ult } else { B::Ule };
                    return self.bin(u, a, b);
                }
                if self.umax(a) <= half {
                    if let Some(c) = cb {
                        if c > half {
                            return self.konst(0, 1);
                        }
                    }
                }
                if self.umax(b) <= half {
                    if let Some(c) = ca {
                        if c > half {
                            return self.tru();
                        }
                    }
                }
            }
            _ => {}
        }
        self.intern(K::Bin(op, a, b), rw)
    }
    fn complement(&self, a: T, b: T) -> bool {
        matches!(self.node(a).k, K::Not(x) if x == b) || matches!(self.node(b).k, K::Not(x) if x == a)
    }
    /// or of a value shifted left by whole constant bits and a value that fits
    /// below: a concatenation.
    fn or_concat(&mut self, a: T, b: T, w: u32) -> Option<T> {
        for (x, y) in [(a, b), (b, a)] {
            if let K::Concat(h, l) = self.node(x).k {
                if self.as_const(l) == Some(0) {
                    let lw = self.w(l);
                    if self.umax(y) <= mask(lw) {
                        let lo = self.extract(y, 0, lw);
                        return Some(self.concat(h, lo));
                    }
                }
            }
            if let K::ZExt(z) = self.node(x).k {
                if let K::Concat(h, l) = self.node(z).k {
                    if self.as_const(l) == Some(0) {
                        let lw = self.w(l);
                        if self.umax(y) <= mask(lw) {
                            let lo = self.extract(y, 0, lw);
                            let c = self.concat(h, lo);
                            return Some(self.zext(c, w));
                        }
                    }
                }
            }
        }
        None
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if let K::Not(x) = self.node(c).k {
            return self.ite(x, b, a);
        }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(B::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(B::And, n, b);
                }
                (None, Some(0)) => return self.bin(B::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(B::Or, n, a);
                }
                _ => {}
            }
        }
        self.intern(K::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let n = self.node(a);
        if n.w == w {
            return a;
        }
        match n.k {
            K::Const(c) => self.konst(c, w),
            K::ZExt(x) => self.zext(x, w),
            _ => self.intern(K::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let n = self.node(a);
        if n.w == w {
            return a;
        }
        match n.k {
            K::Const(c) => self.konst(sx(c, n.w) as u128, w),
            K::SExt(x) => self.sext(x, w),
            K::ZExt(x) => self.zext(x, w),
            _ => self.intern(K::SExt(a), w),
        }
    }
    pub fn extract(&mut self, a: T, lo: u32, w: u32) -> T {
        let n = self.node(a);
        if lo == 0 && w == n.w {
            return a;
        }
        match n.k {
            K::Const(c) => self.konst(c >> lo, w),
            K::Extract(l2, x) => self.extract(x, lo + l2, w),
            K::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    self.konst(0, w)
                } else if lo + w <= xw {
                    self.extract(x, lo, w)
                } else {
                    let e = self.extract(x, lo, xw - lo);
                    self.zext(e, w)
                }
            }
            K::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    self.extract(x, lo, w)
                } else if lo < xw {
                    let e = self.extract(x, lo, xw - lo);
                    self.sext(e, w)
                } else {
                    self.intern(K::Extract(lo, a), w)
                }
            }
            K::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    self.extract(h, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(l, lo, w)
                } else {
                    let hi = self.extract(h, 0, lo + w - lw);
                    let low = self.extract(l, lo, lw - lo);
                    self.concat(hi, low)
                }
            }
            K::Ite(c, x, y) => {
                if self.as_const(x).is_some() || self.as_const(y).is_some() {
                    let ex = self.extract(x, lo, w);
                    let ey = self.extract(y, lo, w);
                    self.ite(c, ex, ey)
                } else {
                    self.intern(K::Extract(lo, a), w)
                }
            }
            K::Not(x) => {
                let e = self.extract(x, lo, w);
                self.not(e)
            }
            K::Bin(op @ (B::And | B::Or | B::Xor), x, y) => {
                let ex = self.extract(x, lo, w);
                let ey = self.extract(y, lo, w);
                self.bin(op, ex, ey)
            }
            K::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => {
                let ex = self.extract(x, 0, w);
                let ey = self.extract(y, 0, w);
                self.bin(op, ex, ey)
            }
            _ => self.intern(K::Extract(lo, a), w),
        }
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (hn, ln) = (self.node(h), self.node(l));
        let w = hn.w + ln.w;
        match (hn.k, ln.k) {
            (K::Const(a), K::Const(b)) => return self.konst((a << ln.w) | b, w),
            (K::Const(0), _) => return self.zext(l, w),
            (K::Extract(lo1, x), K::Extract(lo2, y)) if x == y && lo1 == lo2 + ln.w => {
                return self.extract(x, lo2, w)
            }
            (K::Extract(lo1, x), _) if x == l && lo1 == ln.w => return self.extract(x, 0, w),
            // hi byte of x over (extract of x) zero-extended pieces
            (_, K::Concat(h2, l2)) => {
                // Re-associate when the two upper parts merge.
                if let (K::Extract(lo1, x), K::Extract(lo2, y)) = (hn.k, self.node(h2).k) {
                    if x == y && lo1 == lo2 + self.w(h2) {
                        let hh = self.extract(x, lo2, hn.w + self.w(h2));
                        return self.concat(hh, l2);
                    }
                }
                if let (Some(a), Some(b)) = (self.as_const(h), self.as_const(h2)) {
                    let h2w = self.w(h2);
                    let hh = self.konst((a << h2w) | b, hn.w + h2w);
                    return self.concat(hh, l2);
                }
            }
            (K::ZExt(x), _) => {
                let c = self.concat(x, l);
                return self.zext(c, w);
            }
            _ => {}
        }
        self.intern(K::Concat(h, l), w)
    }
    /// Evaluate under a model (missing variables read 0).
    pub fn eval(&self, t: T, model: &[u64]) -> u128 {
        let mut memo: FxMap<T, u128> = Default::default();
        self.eval_m(t, model, &mut memo)
    }
    pub fn eval_m(&self, t: T, model: &[u64], memo: &mut FxMap<T, u128>) -> u128 {
        let n = self.node(t);
        match n.k {
            K::Const(c) => return c,
            K::Var(i) => return model.get(i as usize).copied().unwrap_or(0) as u128 & mask(n.w),
            _ => {}
        }
        if let Some(v) = memo.get(&t) {
            return *v;
        }
        let v = match n.k {
            K::Not(a) => !self.eval_m(a, model, memo) & mask(n.w),
            K::Bin(op, a, b) => {
                let w = self.w(a);
                let x = self.eval_m(a, model, memo);
                let y = self.eval_m(b, model, memo);
                binop(op, x, y, w)
            }
            K::Ite(c, a, b) => {
                if self.eval_m(c, model, memo) != 0 {
                    self.eval_m(a, model, memo)
                } else {
                    self.eval_m(b, model, memo)
                }
            }
            K::ZExt(a) => self.eval_m(a, model, memo),
            K::SExt(a) => sx(self.eval_m(a, model, memo), self.w(a)) as u128 & mask(n.w),
            K::Extract(lo, a) => (self.eval_m(a, model, memo) >> lo) & mask(n.w),
            K::Concat(h, l) => {
                (self.eval_m(h, model, memo) << self.w(l)) | self.eval_m(l, model, memo)
            }
            K::Const(_) | K::Var(_) => unreachable!(),
        };
        memo.insert(t, v);
        v
    }
    pub fn show(&self, t: T, depth: u32) -> String {
        let n = self.node(t);
        if depth == 0 {
            return "..".into();
        }
        match n.k {
            K::Const(c) => format!("{}:{}", c, n.w),
            K::Var(i) => format!("v{}", i),
            K::Not(a) => format!("!{}", self.show(a, depth - 1)),
            K::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(a, depth - 1), self.show(b, depth - 1)),
            K::Ite(c, a, b) => format!(
                "(ite {} {} {})",
                self.show(c, depth - 1),
                self.show(a, depth - 1),
                self.show(b, depth - 1)
            ),
            K::ZExt(a) => format!("(zx{} {})", n.w, self.show(a, depth - 1)),
            K::SExt(a) => format!("(sx{} {})", n.w, self.show(a, depth - 1)),
            K::Extract(l, a) => format!("{}[{}+{}]", self.show(a, depth - 1), l, n.w),
            K::Concat(a, b) => format!("({} . {})", self.show(a, depth - 1), self.show(b, depth - 1)),
        }
    }
}
