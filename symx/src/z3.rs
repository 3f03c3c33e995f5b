//! Minimal binding to the system libz3 (C API) plus a query cache.
use crate::term::*;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, so: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, so: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

#[derive(Clone)]
pub enum Res {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    s: P,
    ast: Vec<P>,
    cache: FxMap<Vec<T>, Res>,
    one: P,
    zero: P,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub max_secs: f64,
    /// Every n-th query is kept as SMT-LIB text for a second solver.
    pub dump_every: u64,
    pub dumped: Vec<(String, bool)>,
}

fn cs(s: &str) -> std::ffi::CString {
    std::ffi::CString::new(s).unwrap()
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(timeout_ms: u32, dump_every: u64) -> Self {
        unsafe {
            Z3_global_param_set(cs("memory_max_size").as_ptr(), cs("6000").as_ptr());
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            let s = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, cs("timeout").as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            let so = Z3_mk_bv_sort(ctx, 1);
            Z3_inc_ref(ctx, so);
            let one = Z3_mk_numeral(ctx, cs("1").as_ptr(), so);
            Z3_inc_ref(ctx, one);
            let zero = Z3_mk_numeral(ctx, cs("0").as_ptr(), so);
            Z3_inc_ref(ctx, zero);
            Solver {
                ctx,
                s,
                ast: vec![],
                cache: Default::default(),
                one,
                zero,
                queries: 0,
                cache_hits: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                secs: 0.0,
                max_secs: 0.0,
                dump_every,
                dumped: vec![],
            }
        }
    }
    unsafe fn keep(&self, a: P) -> P {
        Z3_inc_ref(self.ctx, a);
        a
    }
    fn b2v(&self, c: P) -> P {
        unsafe {
            self.keep(c);
            Z3_mk_ite(self.ctx, c, self.one, self.zero)
        }
    }
    fn tr(&mut self, ts: &Terms, t: T) -> P {
        if self.ast.len() < ts.nodes.len() {
            self.ast.resize(ts.nodes.len(), std::ptr::null_mut());
        }
        if !self.ast[t.0 as usize].is_null() {
            return self.ast[t.0 as usize];
        }
        let n = ts.node(t);
        let c = self.ctx;
        unsafe {
            let r = match n.k {
                K::Const(v) => Z3_mk_numeral(c, cs(&v.to_string()).as_ptr(), Z3_mk_bv_sort(c, n.w)),
                K::Var(i) => Z3_mk_const(
                    c,
                    Z3_mk_string_symbol(c, cs(&format!("v{}_{}", i, n.w)).as_ptr()),
                    Z3_mk_bv_sort(c, n.w),
                ),
                K::Not(a) => {
                    let a = self.tr(ts, a);
                    Z3_mk_bvnot(c, a)
                }
                K::Bin(op, a, b) => {
                    let a = self.tr(ts, a);
                    let b = self.tr(ts, b);
                    match op {
                        B::And => Z3_mk_bvand(c, a, b),
                        B::Or => Z3_mk_bvor(c, a, b),
                        B::Xor => Z3_mk_bvxor(c, a, b),
                        B::Add => Z3_mk_bvadd(c, a, b),
                        B::Sub => Z3_mk_bvsub(c, a, b),
                        B::Mul => Z3_mk_bvmul(c, a, b),
                        B::UDiv => Z3_mk_bvudiv(c, a, b),
                        B::URem => Z3_mk_bvurem(c, a, b),
                        B::SDiv => Z3_mk_bvsdiv(c, a, b),
                        B::SRem => Z3_mk_bvsrem(c, a, b),
                        B::Shl => Z3_mk_bvshl(c, a, b),
                        B::LShr => Z3_mk_bvlshr(c, a, b),
                        B::AShr => Z3_mk_bvashr(c, a, b),
                        B::Eq => self.b2v(Z3_mk_eq(c, a, b)),
                        B::Ult => self.b2v(Z3_mk_bvult(c, a, b)),
                        B::Ule => self.b2v(Z3_mk_bvule(c, a, b)),
                        B::Slt => self.b2v(Z3_mk_bvslt(c, a, b)),
                        B::Sle => self.b2v(Z3_mk_bvsle(c, a, b)),
                    }
                }
                K::Ite(i, a, b) => {
                    let i = self.tr(ts, i);
                    let a = self.tr(ts, a);
                    let b = self.tr(ts, b);
                    let cond = self.keep(Z3_mk_eq(c, i, self.one));
                    Z3_mk_ite(c, cond, a, b)
                }
                K::ZExt(a) => {
                    let d = n.w - ts.w(a);
                    let a = self.tr(ts, a);
                    Z3_mk_zero_ext(c, d, a)
                }
                K::SExt(a) => {
                    let d = n.w - ts.w(a);
                    let a = self.tr(ts, a);
                    Z3_mk_sign_ext(c, d, a)
                }
                K::Extract(lo, a) => {
                    let a = self.tr(ts, a);
                    Z3_mk_extract(c, lo + n.w - 1, lo, a)
                }
                K::Concat(a, b) => {
                    let a = self.tr(ts, a);
                    let b = self.tr(ts, b);
                    Z3_mk_concat(c, a, b)
                }
            };
            self.keep(r);
            self.ast[t.0 as usize] = r;
            r
        }
    }
    fn vars(ts: &Terms, roots: &[T]) -> Vec<(u32, T)> {
        let mut seen: FxMap<T, ()> = Default::default();
        let mut st = roots.to_vec();
        let mut out = vec![];
        while let Some(t) = st.pop() {
            if seen.insert(t, ()).is_some() {
                continue;
            }
            match ts.node(t).k {
                K::Const(_) => {}
                K::Var(i) => out.push((i, t)),
                K::Not(a) | K::ZExt(a) | K::SExt(a) | K::Extract(_, a) => st.push(a),
                K::Bin(_, a, b) | K::Concat(a, b) => {
                    st.push(a);
                    st.push(b)
                }
                K::Ite(a, b, c) => {
                    st.push(a);
                    st.push(b);
                    st.push(c)
                }
            }
        }
        out
    }
    /// Is the conjunction satisfiable? `q` need not be sorted.
    pub fn check(&mut self, ts: &Terms, mut q: Vec<T>) -> Res {
        q.sort();
        q.dedup();
        if let Some(r) = self.cache.get(&q) {
            self.cache_hits += 1;
            return r.clone();
        }
        self.queries += 1;
        let t0 = Instant::now();
        let r = unsafe {
            Z3_solver_push(self.ctx, self.s);
            for t in &q {
                let a = self.tr(ts, *t);
                let e = Z3_mk_eq(self.ctx, a, self.one);
                Z3_solver_assert(self.ctx, self.s, e);
            }
            let dump = self.dump_every != 0 && self.queries % self.dump_every == 1 && self.dumped.len() < 400;
            let text = if dump {
                std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)).to_string_lossy().into_owned()
            } else {
                String::new()
            };
            let res = match Z3_solver_check(self.ctx, self.s) {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for (i, vt) in Self::vars(ts, &q) {
                        let a = self.tr(ts, vt);
                        let mut o: P = std::ptr::null_mut();
                        let mut v = 0u64;
                        if Z3_model_eval(self.ctx, m, a, true, &mut o)
                            && Z3_get_numeral_uint64(self.ctx, o, &mut v)
                        {
                            out.push((i, v));
                        } else {
                            panic!("model evaluation failed");
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    self.sat += 1;
                    Res::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            Z3_solver_pop(self.ctx, self.s, 1);
            if dump {
                match res {
                    Res::Sat(_) => self.dumped.push((text, true)),
                    Res::Unsat => self.dumped.push((text, false)),
                    _ => {}
                }
            }
            res
        };
        let dt = t0.elapsed().as_secs_f64();
        self.secs += dt;
        if dt > self.max_secs {
            self.max_secs = dt;
        }
        // A model must satisfy the query under the engine's own evaluator.
        if let Res::Sat(m) = &r {
            let mut v = vec![];
            for (i, x) in m {
                if v.len() <= *i as usize {
                    v.resize(*i as usize + 1, 0);
                }
                v[*i as usize] = *x;
            }
            for t in &q {
                assert!(ts.eval(*t, &v) == 1, "solver model does not satisfy {}", ts.show(*t, 8));
            }
        }
        self.cache.insert(q, r.clone());
        r
    }
}
