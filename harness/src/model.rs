//! Building blocks shared by the harnesses: an observable error type, token
//! sources, and "any well-behaved parser" as a symbolic child.
use crate::sx;
use ppoc::error::{At, Error, Fallback};
use ppoc::location;
use ppoc::parser::{Parser, Result as PR};
use ppoc::stream::Stream;
use std::cell::{Cell, RefCell};
use std::ops::Range;
use std::rc::Rc;

/// What an error says. `kind` tells which constructor made it.
#[derive(Clone, PartialEq, Debug)]
pub struct Er {
    pub kind: u8,
    /// Identity of errors made by symbolic children/strategies; 0 otherwise.
    pub tag: u64,
    /// Expected set: bit t for token t, bit 63 for EOF.
    pub exp: u64,
    /// Found token + 1, or 0 for EOF.
    pub found: u64,
    pub at: At<usize, Range<usize>>,
    /// Second position/token of the delimiter errors.
    pub tok2: u64,
    pub span2: Range<usize>,
    /// How often something was merged into this error.
    pub merges: u64,
}

pub const EXPECTED: u8 = 1;
pub const CUSTOM: u8 = 2;
pub const LEFT: u8 = 3;
pub const RIGHT: u8 = 4;
pub const TYPE: u8 = 5;
pub const SIMPLE: u8 = 6;
pub const CHILD: u8 = 7;

impl Er {
    pub fn child(tag: u64) -> Er {
        Er { kind: CHILD, tag, exp: 0, found: 0, at: At::None, tok2: 0, span2: 0..0, merges: 0 }
    }
    pub fn blank(kind: u8, at: At<usize, Range<usize>>) -> Er {
        Er { kind, tag: 0, exp: 0, found: 0, at, tok2: 0, span2: 0..0, merges: 0 }
    }
}

/// Token of the harnesses: anything that can name itself with a small number.
pub trait Num {
    fn num(&self) -> u64;
}
impl Num for u8 {
    fn num(&self) -> u64 {
        *self as u64
    }
}
impl<'a> Num for &'a u8 {
    fn num(&self) -> u64 {
        **self as u64
    }
}
/// Characters: distinct for those the harnesses use.
impl Num for char {
    fn num(&self) -> u64 {
        *self as u64 % 32
    }
}

impl Fallback for Er {
    fn simple<M: ToString>(_msg: M) -> Self {
        Er::blank(SIMPLE, At::None)
    }
}
impl<'i, I: Num + 'i> Error<'i, I> for Er {
    type LocationTracker = location::Simple;
    fn expected_found<J: IntoIterator<Item = Option<I>>>(e: J, f: Option<I>, at: At<usize, Range<usize>>) -> Self {
        let mut r = Er::blank(EXPECTED, at);
        for x in e {
            r.exp |= match x {
                Some(t) => 1u64 << t.num(),
                None => 1 << 63,
            };
        }
        r.found = match f {
            Some(t) => t.num() + 1,
            None => 0,
        };
        r
    }
    fn merge_expected_found(&mut self, o: &Self) {
        self.exp |= o.exp;
        self.merges += 1;
    }
    fn is_expected_found(&self) -> bool {
        self.kind == EXPECTED
    }
    fn location(&self) -> At<&usize, &Range<usize>> {
        self.at.as_ref()
    }
    fn unmatched_left_delimiter(t: I, s: Range<usize>, b: At<usize, Range<usize>>) -> Self {
        let mut r = Er::blank(LEFT, b);
        r.found = t.num() + 1;
        r.span2 = s;
        r
    }
    fn unmatched_right_delimiter(t: I, s: Range<usize>, b: At<usize, Range<usize>>) -> Self {
        let mut r = Er::blank(RIGHT, b);
        r.found = t.num() + 1;
        r.span2 = s;
        r
    }
    fn unmatched_delimiter_type(t: I, s: Range<usize>, t2: I, s2: Range<usize>) -> Self {
        let mut r = Er::blank(TYPE, At::Span(s2));
        r.found = t.num() + 1;
        r.span2 = s;
        r.tok2 = t2.num() + 1;
        r
    }
    fn custom<M: ToString>(_m: M, at: At<usize, Range<usize>>) -> Self {
        Er::blank(CUSTOM, at)
    }
}

/// Field-by-field equality without early exit, so that one query decides it.
pub fn same_at(a: &At<usize, Range<usize>>, b: &At<usize, Range<usize>>) -> bool {
    match (a, b) {
        (At::None, At::None) => true,
        (At::Location(x), At::Location(y)) => x == y,
        (At::Span(x), At::Span(y)) => (x.start == y.start) & (x.end == y.end),
        _ => false,
    }
}
pub fn same_er(a: &Er, b: &Er) -> bool {
    (a.kind == b.kind)
        & (a.tag == b.tag)
        & (a.exp == b.exp)
        & (a.found == b.found)
        & same_at(&a.at, &b.at)
        & (a.tok2 == b.tok2)
        & (a.span2.start == b.span2.start)
        & (a.span2.end == b.span2.end)
}
pub fn same_ers(a: &[Er], b: &[Er]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for k in 0..a.len() {
        r &= same_er(&a[k], &b[k]);
    }
    r
}

/// Token source that counts how often it is polled and notices polling after
/// it has ended.
pub struct Src {
    pub toks: Rc<Vec<u8>>,
    pub i: usize,
    pub n: usize,
    pub polls: Rc<Cell<usize>>,
    pub ended: Rc<Cell<usize>>,
}
impl Iterator for Src {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        if self.i < self.n {
            self.polls.set(self.polls.get() + 1);
            let r = self.toks[self.i];
            self.i += 1;
            Some(r)
        } else {
            self.ended.set(self.ended.get() + 1);
            None
        }
    }
}
pub struct Input {
    pub toks: Rc<Vec<u8>>,
    pub n: usize,
    pub polls: Rc<Cell<usize>>,
    pub ended: Rc<Cell<usize>>,
}
impl Input {
    pub fn new(toks: Vec<u8>, n: usize) -> Input {
        Input { toks: Rc::new(toks), n, polls: Default::default(), ended: Default::default() }
    }
    /// Tokens 0, 1, 2, ... so that a token names its own position.
    pub fn positions(n: usize) -> Input {
        Input::new((0..n).map(|x| x as u8).collect(), n)
    }
    /// Symbolic tokens in 0..=hi, of symbolic number 0..=max.
    pub fn symbolic(max: usize, hi: u8) -> Input {
        let n = sx::upto(max);
        Input::new((0..max).map(|_| sx::tok(hi)).collect(), n)
    }
    pub fn src(&self) -> Src {
        Src { toks: self.toks.clone(), i: 0, n: self.n, polls: self.polls.clone(), ended: self.ended.clone() }
    }
    pub fn stream<'i>(&self) -> Stream<'i, u8, location::Simple> {
        Stream::new(self.src())
    }
    /// The remaining tokens of the stream must be exactly those of the input
    /// from the stream's index on.
    pub fn check_rest(&self, s: &mut Stream<'_, u8, location::Simple>) -> bool {
        let mut p = s.index();
        if p > self.n {
            return false;
        }
        let mut ok = true;
        while p < self.n {
            match s.token() {
                Some(t) => ok &= *t == self.toks[p],
                None => return false,
            }
            if !s.advance() {
                return false;
            }
            p += 1;
            if s.index() != p {
                return false;
            }
        }
        ok & s.token().is_none() & (self.ended.get() <= 1)
    }
}

/// Outcome of a symbolic child at one position.
#[derive(Clone)]
pub struct Outcome {
    pub ok: bool,
    pub len: usize,
    pub idx: usize,
    pub errs: Vec<Er>,
    /// With recovery enabled, a failing child may recover.
    pub rec: Option<(usize, Vec<Er>)>,
    /// Output values: a plain one, and one for recovery.
    pub out: u64,
}
pub struct Cfg {
    /// Longest match.
    pub maxlen: usize,
    pub minlen: usize,
    /// Longest error list.
    pub maxerr: usize,
    /// Errors may be expected-found errors with a symbolic location and set.
    pub merge: bool,
    /// Whether children may recover at all.
    pub recover: bool,
    /// Largest failure index offset (relative to the position); failures may
    /// also report index 0.
    pub maxidx: usize,
    /// How far a failing child looks before it comes back.
    pub lookahead: usize,
    /// Failures may report index 0 ("nothing matched").
    pub zero: bool,
    /// Children (a mask of ids) that may match nothing although minlen is 1.
    pub empty: u64,
    /// Children are symbolic at this position only; elsewhere they do this.
    pub only: Option<(usize, Else)>,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Else {
    Match,
    /// On the spot.
    Fail,
    /// With two errors; fail with one where recovery is off.
    Recover,
}
impl Cfg {
    pub const BASE: Cfg = Cfg { maxlen: 2, minlen: 0, maxerr: 1, merge: false, recover: true, maxidx: 2, lookahead: 1, zero: false, empty: 0, only: None };
}
pub struct World {
    pub cfg: Cfg,
    pub n: usize,
    pub toks: Rc<Vec<u8>>,
    pub memo: RefCell<Vec<((u64, usize), Rc<Outcome>)>>,
    pub verdicts: RefCell<Vec<((u64, u64), u64)>>,
    /// Every call made to a child: (child, position, recovery).
    pub calls: RefCell<Vec<(u64, usize, bool)>>,
    /// Set when a child saw a stream that disagreed with the input.
    pub broken: Cell<bool>,
    /// Called once, by child 1 when it is first run afterwards.
    pub hook: RefCell<Option<Box<dyn Fn()>>>,
}
fn hit(mask: u64, id: u64) -> bool {
    (mask >> (id & 63)) & 1 != 0
}
pub fn tag(id: u64, pos: usize, rec: bool, k: usize) -> u64 {
    (((id * 256 + pos as u64) * 2 + rec as u64) * 64) + k as u64 + 1
}
impl World {
    pub fn new(cfg: Cfg, input: &Input) -> Rc<World> {
        Rc::new(World {
            cfg,
            n: input.n,
            toks: input.toks.clone(),
            memo: Default::default(),
            verdicts: Default::default(),
            calls: Default::default(),
            broken: Cell::new(false),
            hook: Default::default(),
        })
    }
    /// Verdict (0..=2) of a fallible mapping on an output.
    pub fn verdict(&self, id: u64, o: u64) -> u64 {
        for (k, v) in self.verdicts.borrow().iter() {
            if k.0 == id && k.1 == o {
                return *v;
            }
        }
        let v = sx::var(2);
        self.verdicts.borrow_mut().push(((id, o), v));
        v
    }
    fn errs(&self, id: u64, pos: usize, rec: bool) -> Vec<Er> {
        let c = 1 + if self.cfg.maxerr > 1 { sx::upto(self.cfg.maxerr - 1) } else { 0 };
        let mut v = Vec::with_capacity(self.cfg.maxerr);
        for k in 0..c {
            let mut e = Er::child(tag(id, pos, rec, k));
            if self.cfg.merge && !rec {
                if sx::flag() {
                    e.kind = EXPECTED;
                    e.exp = 1 << sx::upto(3);
                }
                e.at = if sx::flag() { At::Location(pos + sx::upto(1)) } else { At::Span(pos..pos + sx::upto(1)) };
            }
            v.push(e);
        }
        v
    }
    pub fn outcome(&self, id: u64, pos: usize) -> Rc<Outcome> {
        if let Some((p, other)) = self.cfg.only {
            if p != pos {
                let len = self.cfg.maxlen;
                let fits = self.n - pos >= len;
                let e = |rec, k| Er::child(tag(id, pos, rec, k));
                return Rc::new(Outcome {
                    ok: fits && other == Else::Match,
                    len,
                    idx: pos,
                    errs: vec![e(false, 0)],
                    rec: if fits && other == Else::Recover { Some((len, vec![e(true, 0), e(true, 1)])) } else { None },
                    out: tag(id, pos, false, 0),
                });
            }
        }
        for (k, o) in self.memo.borrow().iter() {
            if k.0 == id && k.1 == pos {
                return o.clone();
            }
        }
        let left = self.n - pos;
        let ok = sx::flag();
        let mut o = Outcome { ok, len: 0, idx: 0, errs: vec![], rec: None, out: tag(id, pos, false, 0) };
        if ok {
            o.len = sx::range(if hit(self.cfg.empty, id) { 0 } else { self.cfg.minlen }, self.cfg.maxlen);
            sx::assume(o.len <= left);
        } else {
            o.idx = if self.cfg.maxidx == 0 { pos } else { pos + sx::upto(self.cfg.maxidx) };
            sx::assume(o.idx <= self.n);
            if self.cfg.zero {
                // Where strategies go from there depends on it: split cases.
                o.idx = sx::concrete(o.idx);
            }
            if self.cfg.zero && pos > 0 && sx::flag() {
                o.idx = 0;
            }
            o.errs = self.errs(id, pos, false);
            if self.cfg.recover && sx::flag() {
                let len = sx::range(if hit(self.cfg.empty, id) { 0 } else { self.cfg.minlen }, self.cfg.maxlen);
                sx::assume(len <= left);
                o.rec = Some((len, self.errs(id, pos, true)));
            }
        }
        let o = Rc::new(o);
        self.memo.borrow_mut().push(((id, pos), o.clone()));
        o
    }
    /// The result a child gives, as the specification sees it.
    pub fn result(&self, id: u64, pos: usize, recovery: bool) -> Res<u64> {
        let o = self.outcome(id, pos);
        if o.ok {
            Res { end: pos + o.len, r: PR::Success(o.out) }
        } else {
            match (&o.rec, recovery) {
                (Some((len, es)), true) => Res { end: pos + len, r: PR::Recovered(o.out + 1, es.clone()) },
                _ => Res { end: pos, r: PR::Failed(o.idx, o.errs.clone()) },
            }
        }
    }
}
/// Expected result: what is returned and where the cursor ends up.
#[derive(Clone)]
pub struct Res<O> {
    pub end: usize,
    pub r: PR<O, Er>,
}

/// A symbolic child: any deterministic parser that keeps the documented
/// contract.
#[derive(Clone)]
pub struct Sym {
    pub id: u64,
    pub w: Rc<World>,
}
pub fn sym(w: &Rc<World>, id: u64) -> Sym {
    Sym { id, w: w.clone() }
}
impl Sym {
    fn walk<'i>(&self, s: &mut Stream<'i, u8, location::Simple>, len: usize) {
        for _ in 0..len {
            let p = s.index();
            let ok = match s.token() {
                Some(t) => p < self.w.n && *t == self.w.toks[p],
                None => false,
            };
            if !ok || !s.advance() {
                self.w.broken.set(true);
                return;
            }
        }
    }
}
impl<'i> Parser<'i, u8> for Sym {
    type Output = u64;
    type Error = Er;
    fn parse_internal(&self, s: &mut Stream<'i, u8, location::Simple>, recovery: bool) -> PR<u64, Er> {
        let pos = s.index();
        if self.id == 1 {
            let hook = self.w.hook.borrow_mut().take();
            if let Some(f) = hook {
                f();
            }
        }
        self.w.calls.borrow_mut().push((self.id, pos, recovery));
        if pos > self.w.n {
            self.w.broken.set(true);
            return PR::Failed(pos, vec![Er::child(0)]);
        }
        let r = self.w.result(self.id, pos, recovery);
        if let PR::Failed(_, _) = r.r {
            // Look ahead a little, then come back.
            let st = s.save();
            let la = self.w.cfg.lookahead.min(self.w.n - pos);
            self.walk(s, la);
            s.restore(&st);
        } else {
            self.walk(s, r.end - pos);
        }
        r.r
    }
}

/// Comparison of a parser's result with the specified one.
pub fn same_result<O, W>(got: &PR<O, Er>, want: &PR<W, Er>, eq: impl Fn(&O, &W) -> bool) -> bool {
    match (got, want) {
        (PR::Success(a), PR::Success(b)) => eq(a, b),
        (PR::Recovered(a, x), PR::Recovered(b, y)) => eq(a, b) & same_ers(x, y),
        (PR::Failed(i, x), PR::Failed(j, y)) => (i == j) & same_ers(x, y),
        _ => false,
    }
}
pub fn same_kind<A, B>(a: &PR<A, Er>, b: &PR<B, Er>) -> bool {
    kind(a) == kind(b)
}
pub fn kind<A, E>(a: &PR<A, E>) -> u64 {
    match a {
        PR::Success(_) => 0,
        PR::Recovered(_, _) => 1,
        PR::Failed(_, _) => 2,
    }
}
/// Make the outcome visible to translation validation.
pub fn observe<O>(r: &PR<O, Er>, end: usize, f: impl Fn(&O) -> u64) {
    sx::observe(kind(r));
    sx::observe(end as u64);
    match r {
        PR::Success(o) => sx::observe(f(o)),
        PR::Recovered(o, es) => {
            sx::observe(f(o));
            observe_ers(es)
        }
        PR::Failed(i, es) => {
            sx::observe(*i as u64);
            observe_ers(es)
        }
    }
}
pub fn observe_ers(es: &[Er]) {
    sx::observe(es.len() as u64);
    for e in es {
        sx::observe(e.tag);
        sx::observe(e.exp);
        sx::observe(e.found);
    }
}
pub fn vec_eq(a: &Vec<u64>, b: &Vec<u64>) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for k in 0..a.len() {
        r &= a[k] == b[k];
    }
    r
}
