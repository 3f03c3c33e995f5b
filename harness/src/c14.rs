//! Entry points: parse, parse_with_recovery, both with a location, stream,
//! stream_with_location, and the rest of a stream.
//!
//! Any child (matching 0 to 2 tokens, failing anywhere, recovering, 1 or 2
//! errors) on inputs of 0 to 4 (thorough: 5) tokens with up to 4 (5) streaming
//! steps; every single combinator around such children on 3 tokens; a tracker
//! that depends on every token, from any start location; inputs of 48 (96)
//! tokens for what is kept in memory while streaming.
use crate::ast::*;
use crate::model::*;
use crate::sx;
use ppoc::error::{At, Error, Fallback};
use ppoc::location::Tracker;
use ppoc::parser::{Parser, Result as PR};
use ppoc::primitive::*;
use std::cell::Cell;
use std::rc::Rc;

const DEEP: usize = cfg!(feature = "deep") as usize;
const C: Cfg = Cfg { maxlen: 2, minlen: 0, maxerr: 2, maxidx: 1, ..Cfg::BASE };

fn eq<O>(a: &Result<u64, Er>, b: &PR<O, Er>, same: impl Fn(&u64, &O) -> bool) -> bool {
    match (a, b) {
        (Ok(x), PR::Success(y)) => same(x, y),
        (Err(e), PR::Recovered(_, es)) | (Err(e), PR::Failed(_, es)) => same_er(e, &es[0]),
        _ => false,
    }
}
fn show(r: &PR<u64, Er>) {
    observe(r, 0, |x| *x)
}
/// One-shot entry points give what the child gives at the start.
// @sx shards=4
#[no_mangle]
pub extern "C" fn h_parse() {
    let input = Input::symbolic(3 + DEEP, 255);
    let w = World::new(C, &input);
    let p = sym(&w, 1);
    let want = w.result(1, 0, true).r;
    match kind(&want) {
        0 => cover!(),
        1 => cover!(),
        _ => cover!(),
    }
    match sx::concrete(sx::upto(3)) {
        0 => {
            let r = p.parse_with_recovery(input.src());
            check!(same_result(&r, &want, |a, b| a == b));
            show(&r);
        }
        1 => {
            let r = p.parse_with_recovery_and_location(input.src(), Default::default());
            check!(same_result(&r, &want, |a, b| a == b));
        }
        2 => check!(eq(&p.parse(input.src()), &want, |a, b| a == b)),
        _ => check!(eq(&p.parse_with_location(input.src(), Default::default()), &want, |a, b| a == b)),
    }
    check!(!w.broken.get());
    check!(input.ended.get() <= 1);
}
/// The same for combinators: what parse_internal does on a fresh stream.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_parse_combinators() {
    let p = spine(1, OPS, &mut 0);
    let input = Input::new((0..3).map(|_| sx::tok(1)).collect(), 3);
    let w = World::new(Cfg { maxlen: 1, minlen: 1 - DEEP, maxidx: 1, lookahead: 0, ..Cfg::BASE }, &input);
    let (want, end, _) = run(&w, &input, &p, 0, true);
    let q = build(&w, &p);
    let again = || Input::new(input.toks.to_vec(), input.n);
    check!(same_result(&q.parse_with_recovery(again().src()), &want, |a, b| a == b));
    check!(same_result(&q.parse_with_recovery_and_location(again().src(), Default::default()), &want, |a, b| a == b));
    check!(eq(&q.parse(again().src()), &want, |a, b| a == b));
    check!(eq(&q.parse_with_location(again().src(), Default::default()), &want, |a, b| a == b));
    let mut s = q.stream(again().src());
    match s.next() {
        Some(r) => check!(same_result(&r, &want, |a, b| a == b)),
        None => check!(false),
    }
    let mut t = s.tail();
    for k in end..3 {
        check!(t.next() == Some(input.toks[k]));
    }
    check!(t.next().is_none());
    cover!();
}
/// Streaming, piece by piece, then the rest.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_stream() {
    let n = 4 + DEEP;
    let input = Input::symbolic(n, 255);
    let w = World::new(Cfg { maxerr: 1, ..C }, &input);
    let p = sym(&w, 1);
    let mut s = if sx::flag() { p.stream(input.src()) } else { p.stream_with_location(input.src(), Default::default()) };
    let steps = sx::concrete(sx::upto(n));
    let mut pos = 0;
    let mut seen = 0;
    for _ in 0..steps {
        let got = s.next();
        seen = seen.max(pos);
        if pos == input.n {
            check!(got.is_none());
            continue;
        }
        let want = w.result(1, pos, true);
        match got {
            Some(r) => {
                check!(same_result(&r, &want.r, |a, b| a == b));
                show(&r);
            }
            None => check!(false),
        }
        pos = want.end;
    }
    check!(!w.broken.get());
    // What has not been parsed is all still there.
    let mut t = s.tail();
    while pos < input.n {
        match t.next() {
            Some(x) => check!(x == input.toks[pos]),
            None => check!(false),
        }
        pos += 1;
        check!(input.polls.get() <= input.n);
    }
    check!(t.next().is_none());
    check!(t.next().is_none());
    check!(input.ended.get() <= 1);
    cover!();
}
/// A streamed parser that matches something every time runs to the end.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_drain() {
    let n = 4 + DEEP;
    let input = Input::symbolic(n, 255);
    let w = World::new(Cfg { minlen: 1, maxerr: 1, maxidx: 0, ..C }, &input);
    let p = sym(&w, 1);
    let mut pos = 0;
    let mut failed = false;
    for r in p.stream(input.src()) {
        let want = w.result(1, pos, true);
        check!(pos < input.n);
        check!(same_result(&r, &want.r, |a, b| a == b));
        pos = want.end;
        if kind(&r) == 2 {
            failed = true;
            break;
        }
    }
    check!(failed | (pos == input.n));
    check!(input.ended.get() <= 1);
    sx::observe(pos as u64);
    cover!();
}
/// tail() as an ordinary iterator, from any point.
#[no_mangle]
pub extern "C" fn h_tail() {
    let input = Input::symbolic(6 + 6 * DEEP, 255);
    let n = sx::concrete(input.n);
    let k = sx::concrete(sx::upto(n));
    let p = filter::<u8, _, Er>(|_| true);
    let mut s = p.stream(input.src());
    for i in 0..k {
        match s.next() {
            Some(PR::Success(t)) => check!(t == input.toks[i]),
            _ => check!(false),
        }
    }
    let rest: Vec<u8> = s.tail().collect();
    check!(rest.len() == n - k);
    for i in 0..rest.len() {
        check!(rest[i] == input.toks[k + i]);
    }
    cover!();
}

// A start location that matters.

#[derive(Clone, PartialEq)]
struct Tr {
    h: u64,
}
#[derive(Clone, PartialEq)]
struct Spn(usize, u64, usize, u64);
impl Tracker<u8> for Tr {
    type Location = (usize, u64);
    type Span = Spn;
    fn advance(&mut self, t: &u8) {
        self.h = (self.h << 5) ^ (self.h >> 59) ^ (*t as u64 + 1);
    }
    fn location(&self, i: usize) -> (usize, u64) {
        (i, self.h)
    }
    fn spanning_to(&self, a: usize, to: &Self, b: usize) -> Spn {
        Spn(a, self.h, b, to.h)
    }
}
impl Default for Tr {
    fn default() -> Tr {
        Tr { h: 7 }
    }
}
#[derive(Clone)]
struct Le(At<(usize, u64), Spn>);
impl Fallback for Le {
    fn simple<M: ToString>(_: M) -> Self {
        Le(At::None)
    }
}
type A = At<(usize, u64), Spn>;
impl<'i> Error<'i, u8> for Le {
    type LocationTracker = Tr;
    fn expected_found<J: IntoIterator<Item = Option<u8>>>(_: J, _: Option<u8>, at: A) -> Self {
        Le(at)
    }
    fn merge_expected_found(&mut self, _: &Self) {}
    fn is_expected_found(&self) -> bool {
        true
    }
    fn location(&self) -> At<&(usize, u64), &Spn> {
        self.0.as_ref()
    }
    fn unmatched_left_delimiter(_: u8, s: Spn, _: A) -> Self {
        Le(At::Span(s))
    }
    fn unmatched_right_delimiter(_: u8, s: Spn, _: A) -> Self {
        Le(At::Span(s))
    }
    fn unmatched_delimiter_type(_: u8, s: Spn, _: u8, _: Spn) -> Self {
        Le(At::Span(s))
    }
    fn custom<M: ToString>(_: M, at: A) -> Self {
        Le(at)
    }
}
#[no_mangle]
pub extern "C" fn h_located() {
    let n = sx::concrete(sx::range(1, 3));
    let toks: Vec<u8> = (0..n).map(|_| sx::tok(3)).collect();
    let custom = sx::flag();
    let start = if custom { Tr { h: sx::var(255) } } else { Tr::default() };
    let mut at = vec![start.clone()];
    for t in &toks {
        let mut x = at[at.len() - 1].clone();
        x.advance(t);
        at.push(x);
    }
    let span = |s: &Spn, a: usize, b: usize| (s.0 == a) & (s.1 == at[a].h) & (s.2 == b) & (s.3 == at[b].h);
    let p = just::<u8, Le>(0).map_with_span(|_, s| s);
    let hit = toks[0] == 0;
    let err = |e: &Le| match &e.0 {
        At::Span(s) => span(s, 0, 1),
        At::Location(l) => (l.0 == 0) & (l.1 == at[0].h),
        At::None => false,
    };
    let mode = sx::concrete(sx::upto(2));
    if mode == 0 {
        let r = if custom { p.parse_with_location(toks.clone(), start) } else { p.parse(toks.clone()) };
        match r {
            Ok(s) => check!(hit & span(&s, 0, 1)),
            Err(e) => check!(!hit & err(&e)),
        }
    } else if mode == 1 {
        let r = if custom { p.parse_with_recovery_and_location(toks.clone(), start) } else { p.parse_with_recovery(toks.clone()) };
        match r {
            PR::Success(s) => check!(hit & span(&s, 0, 1)),
            PR::Failed(_, es) => check!(!hit & (es.len() == 1) && err(&es[0])),
            _ => check!(false),
        }
    } else {
        let mut s = if custom { p.stream_with_location(toks.clone(), start) } else { p.stream(toks.clone()) };
        for i in 0..n {
            if toks[i] != 0 {
                break;
            }
            match s.next() {
                Some(PR::Success(s)) => check!(span(&s, i, i + 1)),
                _ => check!(false),
            }
        }
    }
    cover!();
}

// Streaming does not need the whole input in memory.

struct Thing(Rc<Cell<usize>>, u8);
impl Clone for Thing {
    fn clone(&self) -> Self {
        self.0.set(self.0.get() + 1);
        Thing(self.0.clone(), self.1)
    }
}
impl Drop for Thing {
    fn drop(&mut self) {
        self.0.set(self.0.get() - 1);
    }
}
#[no_mangle]
pub extern "C" fn h_memory() {
    let n = 48 + 48 * DEEP;
    let alive: Rc<Cell<usize>> = Default::default();
    let a = alive.clone();
    let src = (0..n).map(move |i| {
        a.set(a.get() + 1);
        Thing(a.clone(), i as u8)
    });
    let k = sx::concrete(sx::range(1, 3));
    let one = || filter::<Thing, _, ppoc::error::Void<Thing>>(|_| true).map(|t| t.1 as usize);
    let p = one().repeated().exactly(k).map(|v| v[0]);
    let mut s = p.stream(src);
    let mut max = 0;
    for i in 0..n / k {
        match s.next() {
            Some(PR::Success(x)) => check!(x == i * k),
            _ => check!(false),
        }
        max = max.max(alive.get());
    }
    // Some slack for the buffer's own growth.
    check!(max <= 20);
    drop(s);
    check!(alive.get() == 0);
    cover!();
}
