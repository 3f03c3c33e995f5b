//! Symbolic execution of LLVM IR: every branch on symbolic data is decided by
//! the solver and both feasible sides are explored.
use crate::ir::*;
use crate::term::{mask, sx, FxMap, Terms, B, K, T};
use crate::z3::{Res, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: BTreeMap<u32, T>,
    pub heap: bool,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub fix: u32,
    pub block: u32,
    pub ip: u32,
    pub regs: Rc<Vec<Val>>,
    pub allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: FxMap<u32, Rc<Obj>>,
    pub next_id: u32,
    pub pc: Vec<T>,
    pub model: Vec<u64>,
    /// Input terms in creation order (one per symbolic input).
    pub inputs: Vec<T>,
    pub obs: Vec<T>,
    pub steps: u64,
    pub forks: u32,
    /// The path has to end in a panic (assertion code).
    pub refuse: Option<u64>,
}

pub enum Stop {
    /// The entry function returned.
    Done,
    /// An assumption cannot be met (or the path was cut deliberately).
    Cut,
    /// Property violation candidate.
    Bad { kind: &'static str, code: u64, msg: String },
    /// The engine cannot execute something.
    Unsupported(String),
}

type R<V> = Result<V, Stop>;

pub struct Violation {
    pub kind: String,
    pub code: u64,
    pub msg: String,
    pub inputs: Vec<u64>,
    pub trace: Vec<String>,
}

pub struct Sample {
    pub inputs: Vec<u64>,
    pub obs: Vec<u64>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Special {
    Normal,
    Panic,
    Abort,
}

pub struct Exec {
    pub m: Module,
    pub ts: Rc<std::cell::RefCell<Terms>>,
    pub z: Solver,
    pub work: Vec<State>,
    special: Vec<Special>,
    gconst: FxMap<u32, Rc<Obj>>,
    pub step_cap: u64,
    pub depth_cap: usize,
    pub deadline: Option<Instant>,
    pub max_viol: usize,
    pub sample_every: u64,
    // statistics
    pub paths_done: u64,
    pub paths_cut: u64,
    pub paths_bad: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub max_path_steps: u64,
    pub max_inputs: usize,
    pub covers: BTreeMap<u64, u64>,
    pub violations: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub unsupported: BTreeMap<String, u64>,
    pub dbg_seen: Vec<u8>,
    pub fn_seen: BTreeSet<u32>,
    pub incomplete: bool,
    pub unknown: u64,
}

fn lo(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}
fn s64(v: u64, w: u32) -> i64 {
    sx(v as u128, w) as i64
}

fn bop(op: BinOp) -> B {
    match op {
        BinOp::Add => B::Add,
        BinOp::Sub => B::Sub,
        BinOp::Mul => B::Mul,
        BinOp::UDiv => B::UDiv,
        BinOp::SDiv => B::SDiv,
        BinOp::URem => B::URem,
        BinOp::SRem => B::SRem,
        BinOp::Shl => B::Shl,
        BinOp::LShr => B::LShr,
        BinOp::AShr => B::AShr,
        BinOp::And => B::And,
        BinOp::Or => B::Or,
        BinOp::Xor => B::Xor,
    }
}

enum Flow {
    Next,
    Jump(u32),
    /// Frame stack changed; reload.
    Reload,
}

impl Exec {
    pub fn new(m: Module, z: Solver) -> Self {
        let ts = Rc::new(std::cell::RefCell::new(Terms::new()));
        let t2 = ts.clone();
        KONST.with(|k| *k.borrow_mut() = Some(Box::new(move |v, w| t2.borrow_mut().konst(v, w))));
        let special = m
            .fns
            .iter()
            .map(|f| {
                let n = &*f.name;
                if n.starts_with("_R") {
                    let panic = [
                        "4core9panicking",
                        "3std9panicking",
                        "5alloc7raw_vec12handle_error",
                        "5alloc7raw_vec17capacity_overflow",
                        "5alloc5alloc18handle_alloc_error",
                        "4core6option13unwrap_failed",
                        "4core6option13expect_failed",
                        "4core6result13unwrap_failed",
                        "4core5slice5index16slice_index_fail",
                    ];
                    if panic.iter().any(|p| n.contains(p)) && !n.contains("panic_count") && !n.contains("9panicking9panicking")
                        && !n.contains("8panicking3try")
                    {
                        Special::Panic
                    } else {
                        Special::Normal
                    }
                } else if n == "abort" || n == "llvm.trap" {
                    Special::Abort
                } else {
                    Special::Normal
                }
            })
            .collect();
        let nd = m.meta.keys().max().copied().unwrap_or(0) as usize + 2;
        Exec {
            m,
            ts,
            z,
            work: vec![],
            special,
            gconst: Default::default(),
            step_cap: 3_000_000,
            depth_cap: 3000,
            deadline: None,
            max_viol: 6,
            sample_every: 64,
            paths_done: 0,
            paths_cut: 0,
            paths_bad: 0,
            forks: 0,
            steps: 0,
            asserts: 0,
            assert_queries: 0,
            max_path_steps: 0,
            max_inputs: 0,
            covers: Default::default(),
            violations: vec![],
            samples: vec![],
            unsupported: Default::default(),
            dbg_seen: vec![0; nd],
            fn_seen: Default::default(),
            incomplete: false,
            unknown: 0,
        }
    }

    pub fn start(&mut self, entry: &str) -> State {
        let ix = *self.m.fn_ix.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let f = self.m.func(ix);
        assert!(f.params.is_empty());
        let n = f.nregs as usize;
        State {
            frames: vec![Frame { f, fix: ix, block: 0, ip: 0, regs: Rc::new(vec![Val::C(0); n]), allocas: vec![] }],
            mem: Default::default(),
            next_id: 16,
            pc: vec![],
            model: vec![],
            inputs: vec![],
            obs: vec![],
            steps: 0,
            forks: 0,
            refuse: None,
        }
    }

    /// Explore everything in the worklist (depth first).
    pub fn run(&mut self) {
        while let Some(st) = self.work.pop() {
            if let Some(d) = self.deadline {
                if Instant::now() > d {
                    self.incomplete = true;
                    return;
                }
            }
            if self.violations.len() >= self.max_viol {
                self.incomplete = true;
                return;
            }
            self.run_path(st);
        }
    }

    /// Run the least advanced path to its next fork until `n` are pending.
    pub fn seed(&mut self, n: usize) {
        let mut seq = 0u64;
        let mut q: std::collections::BTreeMap<(u64, u64), State> = Default::default();
        for st in std::mem::take(&mut self.work) {
            q.insert((st.steps, seq), st);
            seq += 1;
        }
        while q.len() < n {
            let Some((_, st)) = q.pop_first() else { break };
            // Run until the first fork only: the rest of the path goes back.
            if let Some(rest) = self.run_until_fork(st) {
                q.insert((rest.steps, seq), rest);
                seq += 1;
            }
            for st in std::mem::take(&mut self.work) {
                q.insert((st.steps, seq), st);
                seq += 1;
            }
        }
        self.work = q.into_values().collect();
    }

    fn run_until_fork(&mut self, mut st: State) -> Option<State> {
        let f0 = self.forks;
        loop {
            match self.exec(&mut st, Some(f0)) {
                Ok(true) => return Some(st),
                Ok(false) => unreachable!(),
                Err(s) => {
                    self.finish(st, s);
                    return None;
                }
            }
        }
    }

    fn run_path(&mut self, mut st: State) {
        match self.exec(&mut st, None) {
            Ok(_) => unreachable!(),
            Err(s) => self.finish(st, s),
        }
    }

    fn trace(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .rev()
            .take(24)
            .map(|f| {
                let d = f.f.blocks[f.block as usize].dbg.get(f.ip as usize).copied().unwrap_or(0);
                let chain = self.loc_chain(d);
                if chain.is_empty() {
                    f.f.name.to_string()
                } else {
                    chain.iter().map(|(file, line, name)| format!("{}:{} {}", file, line, name)).collect::<Vec<_>>().join(" < ")
                }
            })
            .collect()
    }

    fn finish(&mut self, st: State, s: Stop) {
        let s = match (s, st.refuse) {
            (Stop::Done, Some(code)) => Stop::Bad { kind: "assert", code, msg: String::new() },
            (Stop::Bad { kind: "panic", .. }, Some(code)) => {
                *self.covers.entry(code).or_insert(0) += 1;
                self.paths_done += 1;
                return;
            }
            (s, _) => s,
        };
        self.max_path_steps = self.max_path_steps.max(st.steps);
        self.max_inputs = self.max_inputs.max(st.inputs.len());
        match s {
            Stop::Done => {
                self.paths_done += 1;
                if self.sample_every != 0 && (self.paths_done - 1) % self.sample_every == 0 && self.samples.len() < 4000 {
                    let ts = self.ts.borrow();
                    let inputs = st.inputs.iter().map(|t| ts.eval(*t, &st.model) as u64).collect();
                    let obs = st.obs.iter().map(|t| ts.eval(*t, &st.model) as u64).collect();
                    self.samples.push(Sample { inputs, obs });
                }
            }
            Stop::Cut => self.paths_cut += 1,
            Stop::Bad { kind, code, msg } => {
                self.paths_bad += 1;
                if self.violations.iter().any(|v| v.kind == kind && v.code == code && v.msg == msg) {
                    return;
                }
                let trace = self.trace(&st);
                let ts = self.ts.borrow();
                let inputs = st.inputs.iter().map(|t| ts.eval(*t, &st.model) as u64).collect();
                self.violations.push(Violation { kind: kind.into(), code, msg, inputs, trace });
            }
            Stop::Unsupported(m) => {
                let tr = self.trace(&st);
                *self.unsupported.entry(format!("{} [{}]", m, tr.into_iter().take(4).collect::<Vec<_>>().join(" <- "))).or_insert(0) += 1;
            }
        }
    }

    // ---- values -----------------------------------------------------------

    fn t_of(&self, v: &Val, w: u32) -> T {
        match v {
            Val::C(c) => self.ts.borrow_mut().konst(*c as u128, w),
            Val::T(t) => *t,
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v_of(&self, t: T) -> Val {
        let ts = self.ts.borrow();
        if ts.w(t) <= 64 {
            if let Some(c) = ts.as_const(t) {
                return Val::C(c as u64);
            }
        }
        Val::T(t)
    }
    fn bit(&self, v: &Val) -> T {
        self.t_of(v, 1)
    }

    // ---- solver -----------------------------------------------------------

    /// Constraints of the path that share inputs (transitively) with t.
    fn slice(&self, st: &State, t: T) -> Vec<T> {
        let ts = self.ts.borrow();
        let mut m = ts.node(t).mask;
        let mut out = vec![t];
        let mut rest: Vec<T> = st.pc.clone();
        loop {
            let before = rest.len();
            let mut keep = Vec::with_capacity(rest.len());
            for c in rest {
                let cm = ts.node(c).mask;
                if cm & m != 0 {
                    m |= cm;
                    out.push(c);
                } else {
                    keep.push(c);
                }
            }
            rest = keep;
            if rest.len() == before {
                return out;
            }
        }
    }

    /// Model extending the path condition with t, if there is one.
    fn sat(&mut self, st: &State, t: T) -> R<Option<Vec<u64>>> {
        match self.ts.borrow().as_const(t) {
            Some(1) => return Ok(Some(st.model.clone())),
            Some(_) => return Ok(None),
            None => {}
        }
        let nt = self.ts.borrow_mut().not(t);
        if st.pc.contains(&nt) {
            return Ok(None);
        }
        let q = self.slice(st, t);
        match self.z.check(&self.ts.borrow(), q) {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let mut v = st.model.clone();
                for (i, x) in m {
                    if (i as usize) < v.len() {
                        v[i as usize] = x;
                    }
                }
                Ok(Some(v))
            }
            Res::Unknown => {
                self.unknown += 1;
                Err(Stop::Unsupported("solver returned unknown".into()))
            }
        }
    }

    fn conj(&self, t: T, out: &mut Vec<T>) {
        let n = self.ts.borrow().node(t);
        if let K::Bin(B::And, a, b) = n.k {
            if n.w == 1 {
                self.conj(a, out);
                self.conj(b, out);
                return;
            }
        }
        if self.ts.borrow().as_const(t).is_none() {
            out.push(t);
        }
    }
    fn assume(&self, st: &mut State, t: T) {
        let mut v = vec![];
        self.conj(t, &mut v);
        for c in v {
            if !st.pc.contains(&c) {
                st.pc.push(c);
            }
        }
    }

    /// Decide a condition; the other feasible side is queued, positioned to
    /// execute the current instruction again.
    fn branch(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(v) = self.ts.borrow().as_const(c) {
            return Ok(v == 1);
        }
        let nc = self.ts.borrow_mut().not(c);
        if st.pc.contains(&c) {
            return Ok(true);
        }
        if st.pc.contains(&nc) {
            return Ok(false);
        }
        let cur = self.ts.borrow().eval(c, &st.model) == 1;
        let (mine, other) = if cur { (c, nc) } else { (nc, c) };
        if let Some(model) = self.sat(st, other)? {
            let mut o = st.clone();
            o.model = model;
            o.forks += 1;
            self.assume(&mut o, other);
            self.work.push(o);
            self.forks += 1;
            st.forks += 1;
            self.assume(st, mine);
        }
        Ok(cur)
    }

    fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::A(_) => Err(Stop::Unsupported("aggregate address".into())),
            Val::T(t) => {
                if let Some(c) = self.ts.borrow().as_const(*t) {
                    return Ok(c as u64);
                }
                let x = self.ts.borrow().eval(*t, &st.model);
                let e = {
                    let mut ts = self.ts.borrow_mut();
                    let k = ts.konst(x, w);
                    ts.bin(B::Eq, *t, k)
                };
                let r = self.branch(st, e)?;
                debug_assert!(r);
                Ok(x as u64)
            }
        }
    }

    // ---- memory -----------------------------------------------------------

    fn bad<V>(&self, kind: &'static str, code: u64, msg: String) -> R<V> {
        Err(Stop::Bad { kind, code, msg })
    }

    fn global(&mut self, id: u32) -> Rc<Obj> {
        if let Some(o) = self.gconst.get(&id) {
            return o.clone();
        }
        let b = self.m.global_bytes(id - GL_BASE as u32);
        let o = Rc::new(Obj { data: b, sym: BTreeMap::new(), heap: false });
        self.gconst.insert(id, o.clone());
        o
    }

    fn is_global(id: u32) -> bool {
        (id as u64) >= GL_BASE && (id as u64) < FN_BASE
    }

    fn obj_ro(&mut self, st: &State, addr: u64, n: u64, what: &str) -> R<(Rc<Obj>, u32)> {
        let id = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        let o = match st.mem.get(&id) {
            Some(o) => o.clone(),
            None if Self::is_global(id) && ((id as u64 - GL_BASE) as usize) < self.m.gl.len() => self.global(id),
            None => {
                return self.bad("memory", 0, format!("{} of {} bytes at invalid or freed address {:#x}", what, n, addr));
            }
        };
        if off + n > o.data.len() as u64 {
            return self.bad("memory", 0, format!("{} of {} bytes out of bounds at {:#x} (object of {} bytes)", what, n, addr, o.data.len()));
        }
        Ok((o, off as u32))
    }

    fn obj_rw<'s>(&mut self, st: &'s mut State, addr: u64, n: u64) -> R<(&'s mut Obj, u32)> {
        let id = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        if !st.mem.contains_key(&id) {
            if Self::is_global(id) && ((id as u64 - GL_BASE) as usize) < self.m.gl.len() {
                if self.m.gl[(id as u64 - GL_BASE) as usize].constant {
                    return self.bad("memory", 0, format!("store to a constant at {:#x}", addr));
                }
                let o = self.global(id);
                st.mem.insert(id, o);
            } else {
                return self.bad("memory", 0, format!("store of {} bytes at invalid or freed address {:#x}", n, addr));
            }
        }
        let o = st.mem.get_mut(&id).unwrap();
        if off + n > o.data.len() as u64 {
            return Err(Stop::Bad { kind: "memory", code: 0, msg: format!("store of {} bytes out of bounds at {:#x}", n, addr) });
        }
        Ok((Rc::make_mut(o), off as u32))
    }

    /// The number of bytes asked for is one that may be had. What is certain
    /// to fail is reported rather than what may fail.
    fn fits(&mut self, st: &mut State, v: Val, w: u32) -> R<()> {
        for limit in [1u128 << 46, 1 << 28] {
            let z = self.icmp(Pred::Ugt, w, &v, &Val::C(limit as _));
            let t = self.bit(&z);
            if let Some(m) = self.sat(st, t)? {
                st.model = m;
                return self.bad("memory", 0, "allocation of more bytes than there are".into());
            }
        }
        Ok(())
    }

    fn alloc(&mut self, st: &mut State, size: u64, heap: bool, fill: u8) -> u64 {
        let id = st.next_id;
        st.next_id += 1;
        st.mem.insert(id, Rc::new(Obj { data: vec![fill; size as usize], sym: BTreeMap::new(), heap }));
        (id as u64) << 32
    }

    fn load_bytes_t(&mut self, o: &Obj, off: u32, n: u32) -> T {
        let mut ts = self.ts.borrow_mut();
        let mut acc: Option<T> = None;
        for k in 0..n {
            let b = match o.sym.get(&(off + k)) {
                Some(t) => *t,
                None => ts.konst(o.data[(off + k) as usize] as u128, 8),
            };
            acc = Some(match acc {
                None => b,
                Some(l) => ts.concat(b, l),
            });
        }
        acc.unwrap()
    }

    fn load_scalar(&mut self, o: &Obj, off: u32, bits: u32) -> Val {
        let n = bits.div_ceil(8);
        let any_sym = !o.sym.is_empty() && o.sym.range(off..off + n).next().is_some();
        if !any_sym && bits <= 64 {
            let mut v = 0u64;
            for k in (0..n).rev() {
                v = (v << 8) | o.data[(off + k) as usize] as u64;
            }
            return Val::C(lo(v, bits));
        }
        let t = self.load_bytes_t(o, off, n);
        let t = if n * 8 != bits { self.ts.borrow_mut().extract(t, 0, bits) } else { t };
        self.v_of(t)
    }

    fn load_ty(&mut self, o: &Obj, off: u32, ty: &Ty) -> Val {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => self.load_scalar(o, off, ty.bits() as u32),
            Ty::Vector(n, e) if e.bits() % 8 == 0 => {
                let s = (e.bits() / 8) as u32;
                let v = (0..*n).map(|k| self.load_ty(o, off + k as u32 * s, e)).collect();
                Val::A(Rc::new(v))
            }
            Ty::Vector(n, e) => {
                let w = (*n * e.bits()) as u32;
                let v = self.load_scalar(o, off, w);
                self.unpack(&v, *n, e.bits() as u32)
            }
            Ty::Arr(n, e) => {
                let s = e.size() as u32;
                Val::A(Rc::new((0..*n).map(|k| self.load_ty(o, off + k as u32 * s, e)).collect()))
            }
            Ty::Struct(ts, _) => Val::A(Rc::new(
                (0..ts.len()).map(|k| self.load_ty(o, off + ty.field_offset(k as u64) as u32, &ts[k])).collect(),
            )),
            _ => panic!("load type"),
        }
    }

    /// Split an integer into n lanes of w bits.
    fn unpack(&mut self, v: &Val, n: u64, w: u32) -> Val {
        let t = self.t_of(v, n as u32 * w);
        let xs = (0..n)
            .map(|k| {
                let e = self.ts.borrow_mut().extract(t, k as u32 * w, w);
                self.v_of(e)
            })
            .collect();
        Val::A(Rc::new(xs))
    }
    fn pack(&mut self, v: &Val, w: u32) -> Val {
        let Val::A(xs) = v else { panic!("pack") };
        let mut acc: Option<T> = None;
        for x in xs.iter() {
            let t = self.t_of(x, w);
            acc = Some(match acc {
                None => t,
                Some(l) => self.ts.borrow_mut().concat(t, l),
            });
        }
        self.v_of(acc.unwrap())
    }

    fn store_scalar(ts: &std::cell::RefCell<Terms>, o: &mut Obj, off: u32, bits: u32, v: &Val) {
        let n = bits.div_ceil(8);
        match v {
            Val::C(c) => {
                if !o.sym.is_empty() {
                    for k in 0..n {
                        o.sym.remove(&(off + k));
                    }
                }
                let mut c = lo(*c, bits);
                for k in 0..n {
                    o.data[(off + k) as usize] = c as u8;
                    c >>= 8;
                }
            }
            Val::T(t) => {
                let mut ts = ts.borrow_mut();
                let t = if n * 8 != bits { ts.zext(*t, n * 8) } else { *t };
                for k in 0..n {
                    let b = ts.extract(t, k * 8, 8);
                    match ts.as_const(b) {
                        Some(c) => {
                            o.sym.remove(&(off + k));
                            o.data[(off + k) as usize] = c as u8;
                        }
                        None => {
                            o.sym.insert(off + k, b);
                        }
                    }
                }
            }
            Val::A(_) => panic!("store shape"),
        }
    }

    fn store_ty(ts: &std::cell::RefCell<Terms>, o: &mut Obj, off: u32, ty: &Ty, v: &Val) {
        match (ty, v) {
            (Ty::Int(_) | Ty::Ptr | Ty::Float(_), v) => Self::store_scalar(ts, o, off, ty.bits() as u32, v),
            (Ty::Vector(n, e), Val::A(xs)) if e.bits() % 8 == 0 => {
                let s = (e.bits() / 8) as u32;
                for k in 0..*n {
                    Self::store_ty(ts, o, off + k as u32 * s, e, &xs[k as usize]);
                }
            }
            (Ty::Arr(n, e), Val::A(xs)) => {
                let s = e.size() as u32;
                for k in 0..*n {
                    Self::store_ty(ts, o, off + k as u32 * s, e, &xs[k as usize]);
                }
            }
            (Ty::Struct(tys, _), Val::A(xs)) => {
                for (k, t) in tys.iter().enumerate() {
                    Self::store_ty(ts, o, off + ty.field_offset(k as u64) as u32, t, &xs[k]);
                }
            }
            _ => panic!("store type"),
        }
    }

    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> R<Val> {
        let n = match ty {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            _ => ty.size(),
        };
        if n == 0 {
            let o = Obj { data: vec![], sym: BTreeMap::new(), heap: false };
            return Ok(self.load_ty(&o, 0, ty));
        }
        let (o, off) = self.obj_ro(st, addr, n, "load")?;
        Ok(self.load_ty(&o, off, ty))
    }

    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> R<()> {
        let n = match ty {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            _ => ty.size(),
        };
        if n == 0 {
            return Ok(());
        }
        let v = match (ty, v) {
            (Ty::Vector(_, e), Val::A(_)) if e.bits() % 8 != 0 => {
                let p = self.pack(v, e.bits() as u32);
                let ty = Ty::Int(ty.bits() as u32);
                return self.store(st, addr, &ty, &p);
            }
            _ => v,
        };
        let tsr = self.ts.clone();
        let (o, off) = self.obj_rw(st, addr, n)?;
        Self::store_ty(&tsr, o, off, ty, v);
        Ok(())
    }

    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, so) = self.obj_ro(st, s, n, "copy")?;
        let bytes: Vec<u8> = o.data[so as usize..(so as u64 + n) as usize].to_vec();
        let syms: Vec<(u32, T)> = if o.sym.is_empty() {
            vec![]
        } else {
            o.sym.range(so..so + n as u32).map(|(k, t)| (*k - so, *t)).collect()
        };
        drop(o);
        let (o, off) = self.obj_rw(st, d, n)?;
        o.data[off as usize..off as usize + n as usize].copy_from_slice(&bytes);
        if !o.sym.is_empty() {
            let ks: Vec<u32> = o.sym.range(off..off + n as u32).map(|x| *x.0).collect();
            for k in ks {
                o.sym.remove(&k);
            }
        }
        for (k, t) in syms {
            o.sym.insert(off + k, t);
        }
        Ok(())
    }

    fn memset(&mut self, st: &mut State, d: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let tsr = self.ts.clone();
        let (o, off) = self.obj_rw(st, d, n)?;
        for k in 0..n as u32 {
            Self::store_scalar(&tsr, o, off + k, 8, v);
        }
        Ok(())
    }

    fn cstr(&mut self, st: &State, p: u64, n: u64) -> String {
        match self.obj_ro(st, p, n, "read") {
            Ok((o, off)) => String::from_utf8_lossy(&o.data[off as usize..(off as u64 + n) as usize]).into_owned(),
            Err(_) => "?".into(),
        }
    }

    // ---- arithmetic --------------------------------------------------------

    fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                BinOp::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        lo(x, w) >> y
                    }
                }
                BinOp::AShr => (s64(x, w) >> y.min(63)) as u64,
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                    if y == 0 {
                        return self.bad("ub", 0, "division by zero".into());
                    }
                    match op {
                        BinOp::UDiv => x / y,
                        BinOp::URem => x % y,
                        BinOp::SDiv => s64(x, w).wrapping_div(s64(y, w)) as u64,
                        _ => s64(x, w).wrapping_rem(s64(y, w)) as u64,
                    }
                }
            };
            return Ok(Val::C(lo(r, w)));
        }
        let (x, y) = (self.t_of(a, w), self.t_of(b, w));
        let t = self.ts.borrow_mut().bin(bop(op), x, y);
        Ok(self.v_of(t))
    }

    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (i, j) = (s64(x, w), s64(y, w));
            return Val::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => i > j,
                Pred::Sge => i >= j,
                Pred::Slt => i < j,
                Pred::Sle => i <= j,
            } as u64);
        }
        let (x, y) = (self.t_of(a, w), self.t_of(b, w));
        let t = {
            let mut ts = self.ts.borrow_mut();
            match p {
                Pred::Eq => ts.bin(B::Eq, x, y),
                Pred::Ne => {
                    let e = ts.bin(B::Eq, x, y);
                    ts.not(e)
                }
                Pred::Ugt => ts.bin(B::Ult, y, x),
                Pred::Uge => ts.bin(B::Ule, y, x),
                Pred::Ult => ts.bin(B::Ult, x, y),
                Pred::Ule => ts.bin(B::Ule, x, y),
                Pred::Sgt => ts.bin(B::Slt, y, x),
                Pred::Sge => ts.bin(B::Sle, y, x),
                Pred::Slt => ts.bin(B::Slt, x, y),
                Pred::Sle => ts.bin(B::Sle, x, y),
            }
        };
        self.v_of(t)
    }

    fn cast1(&mut self, k: Cast, fw: u32, tw: u32, a: &Val) -> Val {
        match k {
            Cast::Same => a.clone(),
            Cast::Bit => a.clone(),
            Cast::Trunc | Cast::ZExt | Cast::SExt => {
                if let Val::C(c) = a {
                    if tw <= 64 {
                        return Val::C(match k {
                            Cast::Trunc | Cast::ZExt => lo(*c, tw),
                            _ => lo(s64(*c, fw) as u64, tw),
                        });
                    }
                }
                let t = self.t_of(a, fw);
                let r = {
                    let mut ts = self.ts.borrow_mut();
                    match k {
                        Cast::Trunc => ts.extract(t, 0, tw),
                        Cast::ZExt => ts.zext(t, tw),
                        _ => ts.sext(t, tw),
                    }
                };
                self.v_of(r)
            }
        }
    }

    fn select1(&mut self, c: &Val, ty: &Ty, a: &Val, b: &Val) -> Val {
        match c {
            Val::C(x) => {
                if *x & 1 == 1 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            Val::T(t) => match (a, b) {
                (Val::A(x), Val::A(y)) => {
                    let v = (0..x.len()).map(|k| self.select1(c, &ty.field(k as u64), &x[k], &y[k])).collect();
                    Val::A(Rc::new(v))
                }
                _ => {
                    let w = ty.bits() as u32;
                    let (x, y) = (self.t_of(a, w), self.t_of(b, w));
                    let r = self.ts.borrow_mut().ite(*t, x, y);
                    self.v_of(r)
                }
            },
            Val::A(cs) => {
                let (Val::A(x), Val::A(y)) = (a, b) else { panic!("vector select") };
                let v = (0..x.len()).map(|k| self.select1(&cs[k], &ty.field(k as u64), &x[k], &y[k])).collect();
                Val::A(Rc::new(v))
            }
        }
    }

    // ---- the interpreter loop ----------------------------------------------

    fn opv(fr: &Frame, o: &Op) -> Val {
        match o {
            Op::R(r) => fr.regs[*r as usize].clone(),
            Op::C(c) => Val::C(*c),
            Op::K(v) => v.clone(),
        }
    }

    fn setr(st: &mut State, d: u32, v: Val) {
        let fr = st.frames.last_mut().unwrap();
        Rc::make_mut(&mut fr.regs)[d as usize] = v;
    }

    fn get(st: &State, o: &Op) -> Val {
        Self::opv(st.frames.last().unwrap(), o)
    }

    /// Operand as a concrete address (forking over its values if symbolic).
    fn addr(&mut self, st: &mut State, o: &Op) -> R<u64> {
        let v = Self::get(st, o);
        if let Val::C(c) = v {
            return Ok(c);
        }
        let c = self.concretize(st, &v, 64)?;
        if let Op::R(r) = o {
            Self::setr(st, *r, Val::C(c));
        }
        Ok(c)
    }

    fn jump(st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.block;
        let f = fr.f.clone();
        let phis = &f.blocks[to as usize].phis;
        if !phis.is_empty() {
            let vals: Vec<(u32, Val)> = phis
                .iter()
                .map(|(d, ins)| {
                    let o = &ins.iter().find(|(b, _)| *b == from).expect("phi edge").1;
                    (*d, Self::opv(fr, o))
                })
                .collect();
            let regs = Rc::make_mut(&mut fr.regs);
            for (d, v) in vals {
                regs[d as usize] = v;
            }
        }
        fr.block = to;
        fr.ip = 0;
    }

    /// Runs one path. With `until` set, returns Ok(true) once the global fork
    /// counter exceeds it.
    fn exec(&mut self, st: &mut State, until: Option<u64>) -> R<bool> {
        loop {
            let f = st.frames.last().unwrap().f.clone();
            loop {
                if let Some(u) = until {
                    if self.forks > u {
                        return Ok(true);
                    }
                }
                let fr = st.frames.last().unwrap();
                let blk = &f.blocks[fr.block as usize];
                let inst = &blk.insts[fr.ip as usize];
                let d = blk.dbg[fr.ip as usize] as usize;
                if d < self.dbg_seen.len() {
                    self.dbg_seen[d] = 1;
                }
                st.steps += 1;
                self.steps += 1;
                if st.steps > self.step_cap {
                    return self.bad("nontermination", 0, format!("no end within {} steps", self.step_cap));
                }
                if st.steps & 0xffff == 0 {
                    if let Some(d) = self.deadline {
                        if Instant::now() > d {
                            self.incomplete = true;
                            return Err(Stop::Cut);
                        }
                    }
                }
                match self.inst(st, inst)? {
                    Flow::Next => {
                        st.frames.last_mut().unwrap().ip += 1;
                    }
                    Flow::Jump(b) => Self::jump(st, b),
                    Flow::Reload => break,
                }
            }
        }
    }

    fn inst(&mut self, st: &mut State, i: &I) -> R<Flow> {
        match i {
            I::Bin { d, op, w, lanes, a, b } => {
                let fr = st.frames.last().unwrap();
                let (x, y) = (Self::opv(fr, a), Self::opv(fr, b));
                let r = if *lanes == 0 {
                    self.bin(*op, *w, &x, &y)?
                } else {
                    let (Val::A(x), Val::A(y)) = (&x, &y) else { panic!("vector op") };
                    let mut v = Vec::with_capacity(x.len());
                    for k in 0..x.len() {
                        v.push(self.bin(*op, *w, &x[k], &y[k])?);
                    }
                    Val::A(Rc::new(v))
                };
                Self::setr(st, *d, r);
            }
            I::Icmp { d, p, w, lanes, a, b } => {
                let fr = st.frames.last().unwrap();
                let (x, y) = (Self::opv(fr, a), Self::opv(fr, b));
                let r = if *lanes == 0 {
                    self.icmp(*p, *w, &x, &y)
                } else {
                    let (Val::A(x), Val::A(y)) = (&x, &y) else { panic!("vector op") };
                    Val::A(Rc::new((0..x.len()).map(|k| self.icmp(*p, *w, &x[k], &y[k])).collect()))
                };
                Self::setr(st, *d, r);
            }
            I::Load { d, ty, p } => {
                let a = self.addr(st, p)?;
                let v = self.load(st, a, ty)?;
                Self::setr(st, *d, v);
            }
            I::Store { ty, v, p } => {
                let a = self.addr(st, p)?;
                let v = Self::get(st, v);
                self.store(st, a, ty, &v)?;
            }
            I::Gep { d, base, off, idx } => {
                let b = Self::get(st, base);
                let mut acc = match b {
                    Val::C(c) => Val::C(c.wrapping_add(*off)),
                    b => self.bin(BinOp::Add, 64, &b, &Val::C(*off))?,
                };
                for (o, w, s) in idx {
                    let v = Self::get(st, o);
                    let v = if *w < 64 { self.cast1(Cast::SExt, *w, 64, &v) } else { v };
                    let m = self.bin(BinOp::Mul, 64, &v, &Val::C(*s))?;
                    acc = self.bin(BinOp::Add, 64, &acc, &m)?;
                }
                Self::setr(st, *d, acc);
            }
            I::Cast { d, k, from, to, a } => {
                let v = Self::get(st, a);
                let r = match (from, to) {
                    (Ty::Vector(n, fe), Ty::Vector(n2, te)) if n == n2 && *k != Cast::Bit => {
                        let Val::A(xs) = &v else { panic!("vector cast") };
                        let (fw, tw) = (fe.bits() as u32, te.bits() as u32);
                        Val::A(Rc::new(xs.iter().map(|x| self.cast1(*k, fw, tw, x)).collect()))
                    }
                    (Ty::Vector(_, fe), Ty::Vector(n2, te)) => {
                        let p = self.pack(&v, fe.bits() as u32);
                        self.unpack(&p, *n2, te.bits() as u32)
                    }
                    (Ty::Vector(_, fe), _) => self.pack(&v, fe.bits() as u32),
                    (_, Ty::Vector(n, te)) => self.unpack(&v, *n, te.bits() as u32),
                    _ => self.cast1(*k, from.bits() as u32, to.bits() as u32, &v),
                };
                Self::setr(st, *d, r);
            }
            I::Select { d, c, ty, a, b, .. } => {
                let fr = st.frames.last().unwrap();
                let (c, a, b) = (Self::opv(fr, c), Self::opv(fr, a), Self::opv(fr, b));
                let r = self.select1(&c, ty, &a, &b);
                Self::setr(st, *d, r);
            }
            I::Mov { d, a } => {
                let v = Self::get(st, a);
                Self::setr(st, *d, v);
            }
            I::Br { t } => return Ok(Flow::Jump(*t)),
            I::CondBr { c, t, f } => {
                let v = Self::get(st, c);
                let b = match v {
                    Val::C(c) => c & 1 == 1,
                    v => {
                        let x = self.bit(&v);
                        self.branch(st, x)?
                    }
                };
                return Ok(Flow::Jump(if b { *t } else { *f }));
            }
            I::Switch { w, v, cases, def } => {
                let x = Self::get(st, v);
                if let Val::C(c) = x {
                    for (k, b) in cases {
                        if *k == c {
                            return Ok(Flow::Jump(*b));
                        }
                    }
                    return Ok(Flow::Jump(*def));
                }
                let t = self.t_of(&x, *w);
                // One decision per distinct target.
                let mut targets: Vec<u32> = vec![];
                for (_, b) in cases {
                    if b != def && !targets.contains(b) {
                        targets.push(*b);
                    }
                }
                for tg in targets {
                    let mut c: Option<T> = None;
                    for (k, b) in cases {
                        if *b == tg {
                            let mut ts = self.ts.borrow_mut();
                            let kt = ts.konst(*k as u128, *w);
                            let e = ts.bin(B::Eq, t, kt);
                            c = Some(match c {
                                None => e,
                                Some(x) => ts.bin(B::Or, x, e),
                            });
                        }
                    }
                    if self.branch(st, c.unwrap())? {
                        return Ok(Flow::Jump(tg));
                    }
                }
                return Ok(Flow::Jump(*def));
            }
            I::Alloca { d, size, n } => {
                let k = match n {
                    None => 1,
                    Some((o, w)) => {
                        let v = Self::get(st, o);
                        self.concretize(st, &v, *w)?
                    }
                };
                let a = self.alloc(st, size * k, false, 0xaa);
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push((a >> 32) as u32);
                Self::setr(st, *d, Val::C(a));
            }
            I::ExtractValue { d, a, path } => {
                let mut v = Self::get(st, a);
                for p in path {
                    v = match &v {
                        Val::A(xs) => xs[*p as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                Self::setr(st, *d, v);
            }
            I::InsertValue { d, a, v, path, .. } => {
                let agg = Self::get(st, a);
                let v = Self::get(st, v);
                fn ins(agg: &Val, path: &[u64], v: Val) -> Val {
                    if path.is_empty() {
                        return v;
                    }
                    let Val::A(xs) = agg else { panic!("insertvalue") };
                    let mut ys = (**xs).clone();
                    ys[path[0] as usize] = ins(&xs[path[0] as usize], &path[1..], v);
                    Val::A(Rc::new(ys))
                }
                let r = ins(&agg, path, v);
                Self::setr(st, *d, r);
            }
            I::ExtractElem { d, a, i, ity } => {
                let iv = Self::get(st, i);
                let k = self.concretize(st, &iv, ity.bits() as u32)?;
                let Val::A(xs) = Self::get(st, a) else { panic!("extractelement") };
                let v = xs[k as usize].clone();
                Self::setr(st, *d, v);
            }
            I::InsertElem { d, a, v, i, ity, .. } => {
                let iv = Self::get(st, i);
                let k = self.concretize(st, &iv, ity.bits() as u32)?;
                let Val::A(xs) = Self::get(st, a) else { panic!("insertelement") };
                let mut ys = (*xs).clone();
                ys[k as usize] = Self::get(st, v);
                Self::setr(st, *d, Val::A(Rc::new(ys)));
            }
            I::Shuffle { d, a, b, n, m } => {
                let (Val::A(x), Val::A(y)) = (Self::get(st, a), Self::get(st, b)) else { panic!("shuffle") };
                let v = m
                    .iter()
                    .map(|k| match k {
                        Some(k) if *k < *n => x[*k as usize].clone(),
                        Some(k) if ((*k - *n) as usize) < y.len() => y[(*k - *n) as usize].clone(),
                        _ => x[0].clone(),
                    })
                    .collect();
                Self::setr(st, *d, Val::A(Rc::new(v)));
            }
            I::Ret { v } => {
                let v = v.as_ref().map(|o| Self::get(st, o));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas {
                    st.mem.remove(&a);
                }
                if st.frames.is_empty() {
                    st.frames.push(Frame { allocas: vec![], ..Frame { f: fr.f, fix: fr.fix, block: fr.block, ip: fr.ip, regs: fr.regs, allocas: vec![] } });
                    return Err(Stop::Done);
                }
                let caller = st.frames.last().unwrap();
                let cf = caller.f.clone();
                let I::Call { d, normal, .. } = &cf.blocks[caller.block as usize].insts[caller.ip as usize] else {
                    panic!("return to a non-call")
                };
                if let (Some(d), Some(v)) = (d, v) {
                    Self::setr(st, *d, v);
                }
                match normal {
                    Some(b) => Self::jump(st, *b),
                    None => st.frames.last_mut().unwrap().ip += 1,
                }
                return Ok(Flow::Reload);
            }
            I::Unreachable => return self.bad("ub", 0, "unreachable code reached".into()),
            I::Nop => {}
            I::Call { d, callee, args, ret, normal } => return self.call(st, *d, callee, args, ret, *normal),
            I::AtomicRmw { d, op, w, p, v } => {
                let a = self.addr(st, p)?;
                let ty = Ty::Int(*w);
                let old = self.load(st, a, &ty)?;
                let x = Self::get(st, v);
                let new = match &**op {
                    "xchg" => x,
                    "add" => self.bin(BinOp::Add, *w, &old, &x)?,
                    "sub" => self.bin(BinOp::Sub, *w, &old, &x)?,
                    "and" => self.bin(BinOp::And, *w, &old, &x)?,
                    "or" => self.bin(BinOp::Or, *w, &old, &x)?,
                    "xor" => self.bin(BinOp::Xor, *w, &old, &x)?,
                    o => return Err(Stop::Unsupported(format!("atomicrmw {}", o))),
                };
                self.store(st, a, &ty, &new)?;
                Self::setr(st, *d, old);
            }
            I::CmpXchg { d, ty, p, c, n } => {
                let a = self.addr(st, p)?;
                let old = self.load(st, a, ty)?;
                let (cv, nv) = (Self::get(st, c), Self::get(st, n));
                let e = self.icmp(Pred::Eq, ty.bits() as u32, &old, &cv);
                let eb = self.bit(&e);
                let ok = self.branch(st, eb)?;
                if ok {
                    self.store(st, a, ty, &nv)?;
                }
                Self::setr(st, *d, Val::A(Rc::new(vec![old, Val::C(ok as u64)])));
            }
            I::Unsupported(s) => return Err(Stop::Unsupported(format!("instruction {}", s))),
        }
        Ok(Flow::Next)
    }

    // ---- calls -------------------------------------------------------------

    fn fn_at(&self, a: u64) -> Option<u32> {
        let id = a >> 32;
        if a & 0xffff_ffff == 0 && id >= FN_BASE && ((id - FN_BASE) as usize) < self.m.fns.len() {
            Some((id - FN_BASE) as u32)
        } else {
            None
        }
    }

    fn call(
        &mut self,
        st: &mut State,
        d: Option<u32>,
        callee: &Callee,
        args: &[(Ty, Op)],
        ret: &Ty,
        normal: Option<u32>,
    ) -> R<Flow> {
        let ix = match callee {
            Callee::Fn(i) => *i,
            Callee::Ptr(o) => {
                let a = self.addr(st, o)?;
                match self.fn_at(a) {
                    Some(i) => i,
                    None => return self.bad("memory", 0, format!("call of a non-function {:#x}", a)),
                }
            }
            Callee::Ext(n) => return self.ext(st, d, &n.clone(), args, ret, normal),
            Callee::Asm => {
                // Empty or barrier-only inline assembly.
                return self.after(st, d, Some(Val::C(0)), ret, normal);
            }
        };
        let sp = self.special[ix as usize];
        if sp == Special::Panic {
            return self.panic(st, ix, args);
        }
        if self.m.fns[ix as usize].body.is_none() {
            let n = self.m.fns[ix as usize].name.clone();
            return self.ext(st, d, &n, args, ret, normal);
        }
        if st.frames.len() >= self.depth_cap {
            return self.bad("stack", 0, format!("call depth exceeds {}", self.depth_cap));
        }
        let f = self.m.func(ix);
        self.fn_seen.insert(ix);
        let mut regs = vec![Val::C(0); f.nregs as usize];
        {
            let fr = st.frames.last().unwrap();
            for (k, p) in f.params.iter().enumerate() {
                if let Some((_, o)) = args.get(k) {
                    regs[*p as usize] = Self::opv(fr, o);
                }
            }
        }
        st.frames.push(Frame { f, fix: ix, block: 0, ip: 0, regs: Rc::new(regs), allocas: vec![] });
        Ok(Flow::Reload)
    }

    fn panic(&mut self, st: &mut State, ix: u32, args: &[(Ty, Op)]) -> R<Flow> {
        let name = crate::demangle(&self.m.fns[ix as usize].name);
        // Look for a `&Location` among the pointer arguments.
        let mut at = String::new();
        for (t, o) in args.iter().rev() {
            if *t != Ty::Ptr {
                continue;
            }
            if let Val::C(a) = Self::get(st, o) {
                if Self::is_global((a >> 32) as u32) {
                    if let Ok((o, off)) = self.obj_ro(st, a, 24, "read") {
                        let g = |k: usize, n: usize| {
                            let mut b = [0u8; 8];
                            b[..n].copy_from_slice(&o.data[off as usize + k..off as usize + k + n]);
                            u64::from_le_bytes(b)
                        };
                        let (p, n, l, c) = (g(0, 8), g(8, 8), g(16, 4), g(20, 4));
                        if n > 3 && n < 300 && l > 0 && l < 100000 {
                            let s = self.cstr(st, p, n.saturating_sub(0));
                            let s = s.trim_end_matches('\0').to_string();
                            if s.contains(".rs") {
                                at = format!(" at {}:{}:{}", s, l, c);
                                break;
                            }
                        }
                    }
                }
            }
        }
        self.bad("panic", 0, format!("{}{}", name, at))
    }

    fn after(&mut self, st: &mut State, d: Option<u32>, v: Option<Val>, ret: &Ty, normal: Option<u32>) -> R<Flow> {
        if let (Some(d), Some(v)) = (d, v) {
            if *ret != Ty::Void {
                Self::setr(st, d, v);
            }
        }
        match normal {
            Some(b) => Ok(Flow::Jump(b)),
            None => Ok(Flow::Next),
        }
    }

    fn fresh(&mut self, st: &mut State, hi: u64) -> T {
        // hi: inclusive upper bound
        let w = (64 - hi.leading_zeros()).max(1);
        let i = st.model.len() as u32;
        st.model.push(0);
        let t = self.ts.borrow_mut().var(i, w);
        st.inputs.push(t);
        if hi as u128 != mask(w) {
            let c = {
                let mut ts = self.ts.borrow_mut();
                let k = ts.konst(hi as u128, w);
                ts.bin(B::Ule, t, k)
            };
            st.pc.push(c);
        }
        t
    }

    fn zx64(&self, t: T) -> Val {
        let t = {
            let mut ts = self.ts.borrow_mut();
            let w = ts.w(t);
            if w < 64 {
                ts.zext(t, 64)
            } else {
                t
            }
        };
        self.v_of(t)
    }

    fn ext(&mut self, st: &mut State, d: Option<u32>, name: &Rc<str>, args: &[(Ty, Op)], ret: &Ty, normal: Option<u32>) -> R<Flow> {
        let arg = |st: &State, k: usize| Self::get(st, &args[k].1);
        let n: &str = name;
        if n.starts_with("llvm.") {
            let v = self.intrinsic(st, n, args, ret)?;
            return self.after(st, d, v, ret, normal);
        }
        macro_rules! conc {
            ($k:expr) => {{
                let v = arg(st, $k);
                let w = args[$k].0.bits() as u32;
                self.concretize(st, &v, w)?
            }};
        }
        let v: Option<Val> = match n {
            // ---- harness interface
            "sx_var" => {
                let hi = conc!(0);
                let t = self.fresh(st, hi);
                Some(self.zx64(t))
            }
            "sx_u64" => {
                let t = self.fresh(st, u64::MAX);
                Some(self.zx64(t))
            }
            "sx_pick" => {
                let k = conc!(0);
                if k == 0 {
                    return Err(Stop::Cut);
                }
                if k == 1 {
                    Some(Val::C(0))
                } else {
                    let t = self.fresh(st, k - 1);
                    let w = self.ts.borrow().w(t);
                    for x in (0..k).rev() {
                        let e = {
                            let mut ts = self.ts.borrow_mut();
                            let kt = ts.konst(x as u128, w);
                            ts.bin(B::Eq, t, kt)
                        };
                        if x > 0 {
                            let mut o = st.clone();
                            *o.model.last_mut().unwrap() = x;
                            o.pc.push(e);
                            o.forks += 1;
                            match self.after(&mut o, d, Some(Val::C(x)), ret, normal)? {
                                Flow::Next => o.frames.last_mut().unwrap().ip += 1,
                                Flow::Jump(b) => Self::jump(&mut o, b),
                                Flow::Reload => unreachable!(),
                            }
                            self.work.push(o);
                            self.forks += 1;
                        } else {
                            st.pc.push(e);
                            st.forks += 1;
                        }
                    }
                    Some(Val::C(0))
                }
            }
            "sx_concrete" => Some(Val::C(conc!(0))),
            "sx_assume" => {
                let v = arg(st, 0);
                let w = args[0].0.bits() as u32;
                let z = self.icmp(Pred::Ne, w, &v, &Val::C(0));
                let t = self.bit(&z);
                if self.ts.borrow().eval(t, &st.model) == 1 {
                    self.assume(st, t);
                } else {
                    match self.sat(st, t)? {
                        None => return Err(Stop::Cut),
                        Some(m) => {
                            st.model = m;
                            self.assume(st, t);
                        }
                    }
                }
                None
            }
            "sx_assert" => {
                let v = arg(st, 0);
                let code = conc!(1);
                let w = args[0].0.bits() as u32;
                let z = self.icmp(Pred::Ne, w, &v, &Val::C(0));
                let t = self.bit(&z);
                self.asserts += 1;
                if self.ts.borrow().eval(t, &st.model) != 1 {
                    return self.bad("assert", code, String::new());
                }
                if self.ts.borrow().as_const(t).is_none() {
                    let nt = self.ts.borrow_mut().not(t);
                    self.assert_queries += 1;
                    if let Some(m) = self.sat(st, nt)? {
                        st.model = m;
                        return self.bad("assert", code, String::new());
                    }
                    // Implied by the path condition: no need to record it.
                }
                None
            }
            "sx_cover" => {
                let code = conc!(0);
                *self.covers.entry(code).or_insert(0) += 1;
                None
            }
            "sx_refuse" => {
                st.refuse = Some(conc!(0));
                None
            }
            "sx_observe" => {
                let v = arg(st, 0);
                let t = self.t_of(&v, 64);
                st.obs.push(t);
                None
            }
            // ---- libc
            "malloc" => {
                self.fits(st, arg(st, 0), args[0].0.bits() as u32)?;
                let s = conc!(0);
                Some(Val::C(self.alloc(st, s, true, 0xaa)))
            }
            "calloc" => {
                self.fits(st, arg(st, 0), args[0].0.bits() as u32)?;
                self.fits(st, arg(st, 1), args[1].0.bits() as u32)?;
                let s = conc!(0);
                let k = conc!(1);
                Some(Val::C(self.alloc(st, s * k, true, 0)))
            }
            "posix_memalign" => {
                self.fits(st, arg(st, 2), args[2].0.bits() as u32)?;
                let p = conc!(0);
                let s = conc!(2);
                let a = self.alloc(st, s, true, 0xaa);
                self.store(st, p, &Ty::Ptr, &Val::C(a))?;
                Some(Val::C(0))
            }
            "aligned_alloc" => {
                self.fits(st, arg(st, 1), args[1].0.bits() as u32)?;
                let s = conc!(1);
                Some(Val::C(self.alloc(st, s, true, 0xaa)))
            }
            "realloc" => {
                self.fits(st, arg(st, 1), args[1].0.bits() as u32)?;
                let p = conc!(0);
                let s = conc!(1);
                let id = (p >> 32) as u32;
                let old = match st.mem.get(&id) {
                    Some(o) if o.heap && p & 0xffff_ffff == 0 => o.data.len() as u64,
                    _ => return self.bad("memory", 0, "realloc of an invalid pointer".into()),
                };
                let a = self.alloc(st, s, true, 0xaa);
                self.memcpy(st, a, p, old.min(s))?;
                st.mem.remove(&id);
                Some(Val::C(a))
            }
            "free" => {
                let p = conc!(0);
                if p != 0 {
                    let id = (p >> 32) as u32;
                    match st.mem.get(&id) {
                        Some(o) if o.heap && p & 0xffff_ffff == 0 => {}
                        _ => return self.bad("memory", 0, "free of an invalid pointer".into()),
                    }
                    st.mem.remove(&id);
                }
                None
            }
            "memcpy" | "memmove" => {
                let (a, b, k) = (conc!(0), conc!(1), conc!(2));
                self.memcpy(st, a, b, k)?;
                Some(Val::C(a))
            }
            "memset" => {
                let (a, k) = (conc!(0), conc!(2));
                let v = arg(st, 1);
                let b = self.cast1(Cast::Trunc, 32, 8, &v);
                self.memset(st, a, &b, k)?;
                Some(Val::C(a))
            }
            "bcmp" | "memcmp" => {
                let (a, b, k) = (conc!(0), conc!(1), conc!(2));
                let mut acc = Val::C(0);
                if k > 0 {
                    let (x, xo) = self.obj_ro(st, a, k, "compare")?;
                    let (y, yo) = self.obj_ro(st, b, k, "compare")?;
                    for j in (0..k as u32).rev() {
                        let p = self.load_scalar(&x, xo + j, 8);
                        let q = self.load_scalar(&y, yo + j, 8);
                        let eq = self.icmp(Pred::Eq, 8, &p, &q);
                        let lt = self.icmp(Pred::Ult, 8, &p, &q);
                        let ne = self.select1(&lt, &Ty::Int(32), &Val::C(0xffff_ffff), &Val::C(1));
                        acc = self.select1(&eq, &Ty::Int(32), &acc, &ne);
                    }
                }
                Some(acc)
            }
            "strlen" => {
                let a = conc!(0);
                let mut k = 0;
                loop {
                    match self.load(st, a + k, &Ty::Int(8))? {
                        Val::C(0) => break,
                        Val::C(_) => k += 1,
                        _ => return Err(Stop::Unsupported("strlen of symbolic data".into())),
                    }
                }
                Some(Val::C(k))
            }
            "getrandom" => {
                let (a, k) = (conc!(0), conc!(1));
                self.memset(st, a, &Val::C(0x5a), k)?;
                Some(Val::C(k))
            }
            "getenv" => Some(Val::C(0)),
            "write" => Some(Val::C(conc!(2))),
            "pthread_key_create" | "pthread_setspecific" | "__cxa_thread_atexit_impl" => Some(Val::C(0)),
            "pthread_getspecific" => Some(Val::C(0)),
            "abort" | "exit" | "_exit" => return self.bad("panic", 0, format!("{} called", n)),
            _ => return Err(Stop::Unsupported(format!("external function {}", n))),
        };
        self.after(st, d, v, ret, normal)
    }

    fn lanewise(&mut self, ty: &Ty, xs: &[Val], f: &mut dyn FnMut(&mut Self, u32, &[Val]) -> R<Val>) -> R<Val> {
        match ty {
            Ty::Vector(n, e) => {
                let w = e.bits() as u32;
                let mut out = vec![];
                for k in 0..*n as usize {
                    let l: Vec<Val> = xs
                        .iter()
                        .map(|x| match x {
                            Val::A(v) => v[k].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    out.push(f(self, w, &l)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            _ => f(self, ty.bits() as u32, xs),
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, args: &[(Ty, Op)], ret: &Ty) -> R<Option<Val>> {
        let arg = |st: &State, k: usize| Self::get(st, &args[k].1);
        let base = &n[5..];
        macro_rules! conc {
            ($k:expr) => {{
                let v = arg(st, $k);
                let w = args[$k].0.bits() as u32;
                self.concretize(st, &v, w)?
            }};
        }
        let is = |p: &str| base.starts_with(p);
        if is("memcpy.") || is("memmove.") {
            let (a, b, k) = (conc!(0), conc!(1), conc!(2));
            self.memcpy(st, a, b, k)?;
            return Ok(None);
        }
        if is("memset.") {
            let (a, k) = (conc!(0), conc!(2));
            let v = arg(st, 1);
            self.memset(st, a, &v, k)?;
            return Ok(None);
        }
        if is("lifetime.") || is("assume") || is("experimental.noalias") || is("dbg.") || is("donothing") || is("prefetch") || is("stackrestore") || is("invariant.end") || is("sideeffect") || is("va_") {
            return Ok(None);
        }
        if is("invariant.start") || is("stacksave") {
            return Ok(Some(Val::C(0)));
        }
        if is("trap") || is("ubsantrap") {
            return self.bad("panic", 0, "trap".into());
        }
        if is("expect") || is("ssa.copy") || is("threadlocal.address") || is("launder.") || is("strip.") || is("freeze") {
            return Ok(Some(arg(st, 0)));
        }
        if is("is.constant") {
            return Ok(Some(Val::C(0)));
        }
        if is("load.relative") {
            let a = conc!(0);
            let o = conc!(1);
            let v = self.load(st, a.wrapping_add(o), &Ty::Int(32))?;
            let v = self.concretize(st, &v, 32)?;
            let known = self.m.relative.borrow();
            return match known.get(v.wrapping_sub(RELATIVE) as usize) {
                Some(x) => Ok(Some(Val::C(a.wrapping_add(*x)))),
                None => Err(Stop::Unsupported("relative pointer".into())),
            };
        }
        if is("objectsize") {
            let m = conc!(1);
            return Ok(Some(Val::C(if m != 0 { 0 } else { u64::MAX })));
        }
        if is("ptrmask") {
            let (a, b) = (arg(st, 0), arg(st, 1));
            return Ok(Some(self.bin(BinOp::And, 64, &a, &b)?));
        }
        let ty0 = args.first().map(|a| a.0.clone()).unwrap_or(Ty::Void);
        let xs: Vec<Val> = (0..args.len()).map(|k| arg(st, k)).collect();
        let pred = |p: &str| -> Option<Pred> {
            Some(match p {
                "umin" => Pred::Ult,
                "umax" => Pred::Ugt,
                "smin" => Pred::Slt,
                "smax" => Pred::Sgt,
                _ => return None,
            })
        };
        let head = base.split('.').next().unwrap();
        if let Some(p) = pred(head) {
            let r = self.lanewise(&ty0, &xs, &mut |s, w, l| {
                let c = s.icmp(p, w, &l[0], &l[1]);
                Ok(s.select1(&c, &Ty::Int(w), &l[0], &l[1]))
            })?;
            return Ok(Some(r));
        }
        if base.contains(".with.overflow.") {
            let w = ty0.bits() as u32;
            let signed = base.starts_with('s');
            let op = match &base[1..4] {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                _ => return Err(Stop::Unsupported(n.into())),
            };
            if w > 64 {
                return Err(Stop::Unsupported(n.into()));
            }
            let k = if signed { Cast::SExt } else { Cast::ZExt };
            let ww = if op == BinOp::Mul { w * 2 } else { w + 1 };
            let r = self.bin(op, w, &xs[0], &xs[1])?;
            let ov = if let (Val::C(a), Val::C(b)) = (&xs[0], &xs[1]) {
                let (x, y) = if signed { (s64(*a, w) as i128, s64(*b, w) as i128) } else { (*a as i128, *b as i128) };
                let e = match op {
                    BinOp::Add => x.checked_add(y),
                    BinOp::Sub => x.checked_sub(y),
                    _ => x.checked_mul(y),
                };
                let Val::C(rc) = r else { unreachable!() };
                let rr = if signed { s64(rc, w) as i128 } else { rc as i128 };
                Val::C((e != Some(rr)) as u64)
            } else if !signed && op == BinOp::Add {
                self.icmp(Pred::Ult, w, &r, &xs[0])
            } else if !signed && op == BinOp::Sub {
                self.icmp(Pred::Ult, w, &xs[0], &xs[1])
            } else {
                let a = self.cast1(k, w, ww, &xs[0]);
                let b = self.cast1(k, w, ww, &xs[1]);
                let e = self.bin(op, ww, &a, &b)?;
                let rx = self.cast1(k, w, ww, &r);
                self.icmp(Pred::Ne, ww, &e, &rx)
            };
            return Ok(Some(Val::A(Rc::new(vec![r, ov]))));
        }
        if is("uadd.sat") || is("usub.sat") {
            let add = is("uadd");
            let r = self.lanewise(&ty0, &xs, &mut |s, w, l| {
                if add {
                    let r = s.bin(BinOp::Add, w, &l[0], &l[1])?;
                    let o = s.icmp(Pred::Ult, w, &r, &l[0]);
                    Ok(s.select1(&o, &Ty::Int(w), &Val::C(lo(u64::MAX, w)), &r))
                } else {
                    let r = s.bin(BinOp::Sub, w, &l[0], &l[1])?;
                    let o = s.icmp(Pred::Ult, w, &l[0], &l[1]);
                    Ok(s.select1(&o, &Ty::Int(w), &Val::C(0), &r))
                }
            })?;
            return Ok(Some(r));
        }
        if head == "abs" {
            let r = self.lanewise(&ty0, &xs[..1], &mut |s, w, l| {
                let neg = s.bin(BinOp::Sub, w, &Val::C(0), &l[0])?;
                let c = s.icmp(Pred::Slt, w, &l[0], &Val::C(0));
                Ok(s.select1(&c, &Ty::Int(w), &neg, &l[0]))
            })?;
            return Ok(Some(r));
        }
        if head == "ucmp" || head == "scmp" {
            let rw = ret.bits() as u32;
            let w = ty0.bits() as u32;
            let p = if head == "ucmp" { Pred::Ult } else { Pred::Slt };
            let l = self.icmp(p, w, &xs[0], &xs[1]);
            let e = self.icmp(Pred::Eq, w, &xs[0], &xs[1]);
            let ty = Ty::Int(rw);
            let r = self.select1(&e, &ty, &Val::C(0), &Val::C(1));
            return Ok(Some(self.select1(&l, &ty, &Val::C(lo(u64::MAX, rw)), &r)));
        }
        if matches!(head, "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse") {
            let h = head.to_string();
            let r = self.lanewise(&ty0, &xs[..1], &mut |s, w, l| {
                if let Val::C(c) = l[0] {
                    let r = match &*h {
                        "ctpop" => c.count_ones() as u64,
                        "ctlz" => {
                            if c == 0 {
                                w as u64
                            } else {
                                (c.leading_zeros() - (64 - w)) as u64
                            }
                        }
                        "cttz" => {
                            if c == 0 {
                                w as u64
                            } else {
                                c.trailing_zeros() as u64
                            }
                        }
                        "bswap" => c.swap_bytes() >> (64 - w),
                        _ => c.reverse_bits() >> (64 - w),
                    };
                    return Ok(Val::C(r));
                }
                let t = s.t_of(&l[0], w);
                let r = {
                    let mut ts = s.ts.borrow_mut();
                    match &*h {
                        "ctpop" => {
                            let mut acc = ts.konst(0, w);
                            for k in 0..w {
                                let b = ts.extract(t, k, 1);
                                let b = ts.zext(b, w);
                                acc = ts.bin(B::Add, acc, b);
                            }
                            acc
                        }
                        "cttz" | "ctlz" => {
                            let mut acc = ts.konst(w as u128, w);
                            for k in 0..w {
                                // lowest priority first
                                let pos = if h == "cttz" { w - 1 - k } else { k };
                                let b = ts.extract(t, pos, 1);
                                let val = if h == "cttz" { pos } else { w - 1 - pos };
                                let v = ts.konst(val as u128, w);
                                acc = ts.ite(b, v, acc);
                            }
                            acc
                        }
                        "bswap" => {
                            let mut acc: Option<T> = None;
                            for k in 0..w / 8 {
                                let b = ts.extract(t, k * 8, 8);
                                acc = Some(match acc {
                                    None => b,
                                    Some(a) => ts.concat(a, b),
                                });
                            }
                            acc.unwrap()
                        }
                        _ => {
                            let mut acc: Option<T> = None;
                            for k in 0..w {
                                let b = ts.extract(t, k, 1);
                                acc = Some(match acc {
                                    None => b,
                                    Some(a) => ts.concat(a, b),
                                });
                            }
                            acc.unwrap()
                        }
                    }
                };
                Ok(s.v_of(r))
            })?;
            return Ok(Some(r));
        }
        if head == "fshl" || head == "fshr" {
            let right = head == "fshr";
            let r = self.lanewise(&ty0, &xs, &mut |s, w, l| {
                let (Val::C(sh),) = (l[2].clone(),) else {
                    return Err(Stop::Unsupported("symbolic funnel shift".into()));
                };
                let sh = (sh % w as u64) as u32;
                let (a, b) = (s.t_of(&l[0], w), s.t_of(&l[1], w));
                let r = {
                    let mut ts = s.ts.borrow_mut();
                    let c = ts.concat(a, b);
                    let lo = if right { sh } else { w - sh };
                    ts.extract(c, lo, w)
                };
                Ok(s.v_of(r))
            })?;
            return Ok(Some(r));
        }
        if let Some(r) = base.strip_prefix("vector.reduce.") {
            let op = r.split('.').next().unwrap();
            let Ty::Vector(_, e) = &ty0 else { return Err(Stop::Unsupported(n.into())) };
            let w = e.bits() as u32;
            let Val::A(v) = &xs[0] else { panic!("reduce") };
            let mut acc = v[0].clone();
            for x in v.iter().skip(1) {
                acc = match op {
                    "or" => self.bin(BinOp::Or, w, &acc, x)?,
                    "and" => self.bin(BinOp::And, w, &acc, x)?,
                    "xor" => self.bin(BinOp::Xor, w, &acc, x)?,
                    "add" => self.bin(BinOp::Add, w, &acc, x)?,
                    "mul" => self.bin(BinOp::Mul, w, &acc, x)?,
                    o => match pred(o) {
                        Some(p) => {
                            let c = self.icmp(p, w, &acc, x);
                            self.select1(&c, &Ty::Int(w), &acc, x)
                        }
                        None => return Err(Stop::Unsupported(n.into())),
                    },
                };
            }
            return Ok(Some(acc));
        }
        if base.starts_with("x86.sse2.pmovmskb") {
            let Val::A(v) = &xs[0] else { panic!("pmovmskb") };
            let mut acc: Option<T> = None;
            for x in v.iter() {
                let t = self.t_of(x, 8);
                let mut ts = self.ts.borrow_mut();
                let b = ts.extract(t, 7, 1);
                acc = Some(match acc {
                    None => b,
                    Some(l) => ts.concat(b, l),
                });
            }
            let r = self.ts.borrow_mut().zext(acc.unwrap(), 32);
            return Ok(Some(self.v_of(r)));
        }
        Err(Stop::Unsupported(format!("intrinsic {}", n)))
    }

    // ---- debug information -------------------------------------------------

    fn meta_field<'a>(s: &'a str, key: &str) -> Option<&'a str> {
        let pat = format!("{}: ", key);
        let mut from = 0;
        while let Some(p) = s[from..].find(&pat) {
            let at = from + p;
            let prev = s.as_bytes()[at - 1];
            if prev == b'(' || prev == b' ' {
                let v = &s[at + pat.len()..];
                if let Some(q) = v.strip_prefix('"') {
                    return Some(&q[..q.find('"').unwrap_or(q.len())]);
                }
                let e = v.find([',', ')']).unwrap_or(v.len());
                return Some(&v[..e]);
            }
            from = at + pat.len();
        }
        None
    }
    fn meta_ref(s: &str, key: &str) -> Option<u32> {
        Self::meta_field(s, key)?.strip_prefix('!')?.parse().ok()
    }
    /// (file, line, subprogram) innermost first, following inlinedAt.
    pub fn loc_chain(&self, d: u32) -> Vec<(String, u32, String)> {
        let mut out = vec![];
        let mut cur = d;
        for _ in 0..64 {
            let Some(l) = self.m.meta.get(&cur) else { break };
            if !l.contains("DILocation(") {
                break;
            }
            let line = Self::meta_field(l, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
            let mut sc = Self::meta_ref(l, "scope");
            let mut name = String::new();
            let mut file = String::new();
            for _ in 0..64 {
                let Some(s) = sc.and_then(|s| self.m.meta.get(&s)) else { break };
                if file.is_empty() {
                    if let Some(f) = Self::meta_ref(s, "file").and_then(|f| self.m.meta.get(&f)) {
                        let fname = Self::meta_field(f, "filename").unwrap_or("");
                        let dir = Self::meta_field(f, "directory").unwrap_or("");
                        file = if fname.starts_with('/') { fname.to_string() } else { format!("{}/{}", dir, fname) };
                        if let Some(p) = file.find("/@/") {
                            file.truncate(p);
                        }
                    }
                }
                if s.contains("DISubprogram(") {
                    name = Self::meta_field(s, "linkageName").or(Self::meta_field(s, "name")).unwrap_or("").to_string();
                    break;
                }
                sc = Self::meta_ref(s, "scope");
            }
            out.push((file, line, name));
            match Self::meta_ref(l, "inlinedAt") {
                Some(n) => cur = n,
                None => break,
            }
        }
        out
    }
}

#[allow(dead_code)]
pub type Names = HashMap<String, String>;
