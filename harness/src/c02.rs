//! Laziness: how far the source is read, and how much of it is kept.
//!
//! Inputs of up to 6 symbolic tokens for combinators with symbolic children
//! and for primitives; up to 40 tokens (thorough: 80) for buffering.
use crate::ast::*;
use crate::model::*;
use crate::sx;
use ppoc::location;
use ppoc::parser::Parser;
use ppoc::primitive::*;
use ppoc::stream::Stream;
use std::cell::Cell;
use std::rc::Rc;

const DEEP: usize = cfg!(feature = "deep") as usize;

/// Histories of the stream itself: the source is asked for exactly as much as
/// was looked at, and never again once it has ended.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_stream() {
    let input = Input::symbolic(5, 255);
    let mut s = input.stream();
    let mut seen = 0;
    let mut slot = None;
    let mut saved = 0;
    for _ in 0..4 + DEEP {
        match sx::upto(10) {
            0 => {
                let p = s.index();
                s.token();
                seen = seen.max(p + 1);
            }
            1 => {
                if s.advance() {
                    seen = seen.max(s.index())
                } else {
                    seen = seen.max(s.index() + 1)
                }
            }
            2 => {
                saved = s.index();
                slot = Some(s.save());
            }
            3 => {
                if let Some(x) = &slot {
                    s.restore(x)
                }
            }
            4 => {
                let k = sx::concrete(sx::range(1, 3));
                let p = s.index();
                s.advance_to(p + k);
                seen = seen.max(p + k);
            }
            5 => {
                s.location();
                s.index();
                if let Some(x) = &slot {
                    s.location_at(x);
                    s.index_at(x);
                }
            }
            6 => {
                let p = s.index();
                s.span();
                seen = seen.max(p + 1);
            }
            7 => {
                if let Some(x) = &slot {
                    s.spanning_back_to(x);
                }
            }
            8 => {
                if let Some(x) = &slot {
                    s.token_at(x);
                    seen = seen.max(saved + 1);
                }
            }
            9 => {
                let k = sx::concrete(sx::upto(2));
                let p = s.index();
                sx::assume(p + k <= input.n);
                let x = s.save_at(p + k);
                seen = seen.max(p + k);
                saved = s.index_at(&x);
                slot = Some(x);
            }
            _ => slot = None,
        }
        check!(input.polls.get() <= seen);
        check!(input.ended.get() <= 1);
        check!((input.ended.get() == 0) | (seen > input.n));
    }
    cover!();
    sx::observe(input.polls.get() as u64);
}

/// Combinators do not look further than their children do.
fn lazily(n: usize, cfg: Cfg, p: P) {
    let input = Input::positions(n);
    let w = World::new(cfg, &input);
    let q = build(&w, &p);
    let mut st = input.stream();
    let start = sx::upto(1);
    for _ in 0..start {
        st.advance();
    }
    let r = q.parse_internal(&mut st, sx::flag());
    let end = st.index();
    // The furthest any child got to, whether it succeeded or looked ahead.
    let mut far = start;
    for (id, pos, rec) in w.calls.borrow().iter() {
        let r = w.result(*id, *pos, *rec);
        let e = match r.r {
            ppoc::parser::Result::Failed(..) => *pos + w.cfg.lookahead.min(n - *pos),
            _ => r.end,
        };
        far = far.max(e);
    }
    check!(input.polls.get() <= far);
    check!(input.ended.get() == 0);
    check!(end <= far);
    observe(&r, end, |v| *v);
}
fn small() -> Cfg {
    Cfg { maxlen: 1, maxidx: 1, ..Cfg::BASE }
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_combinators() {
    let p = match sx::upto(13) {
        0 => P::Then(b(s(1)), b(s(2))),
        1 => P::ThenIgnore(b(s(1)), b(s(2))),
        2 => P::IgnoreThen(b(s(1)), b(s(2))),
        3 => P::Delim(b(s(1)), b(s(2)), b(s(3))),
        4 => P::Pad(b(s(1)), b(s(2))),
        5 => P::Chain(vec![s(1), s(2), s(3)]),
        6 => P::Or(b(s(1)), b(s(2))),
        7 => P::Alters(vec![s(1), s(2), s(3)]),
        8 => P::OrNot(b(s(1))),
        9 => P::Map(b(s(1))),
        10 => P::Span(b(s(1))),
        11 => P::Try(b(s(1)), 1),
        12 => P::MapErr(b(s(1))),
        _ => P::Recover(b(s(1)), vec![], Fin::WithSpan(9)),
    };
    cover!();
    lazily(5, small(), p);
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_repetition() {
    let min = sx::upto(2);
    let max = if sx::flag() { None } else { Some(min.max(1) + sx::upto(1)) };
    let cfg = Cfg { minlen: 1, lookahead: 0, ..small() };
    cover!();
    let (sep, lead, trail) = if sx::flag() { (Some(b(s(2))), sx::flag(), sx::flag()) } else { (None, false, false) };
    lazily(5, cfg, P::Rep(b(s(1)), sep, Rep { min, max, lead, trail, via: 0 }));
}

/// Primitives look at one token, a sequence at no more than one token past
/// what matched.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_primitives() {
    let input = Input::symbolic(4, 3);
    let mut st = input.stream();
    let pre = sx::upto(1);
    for _ in 0..pre {
        st.advance();
    }
    let start = st.index();
    let before = input.polls.get();
    let ended = input.ended.get();
    let x = sx::tok(3);
    let rec = sx::flag();
    let mut look = 1;
    match sx::upto(9) {
        0 => {
            look = 0;
            empty::<u8, Er>().parse_internal(&mut st, rec);
        }
        1 => {
            look = 0;
            none::<u8, u8, Er>().parse_internal(&mut st, rec);
        }
        2 => {
            end::<u8, Er>().parse_internal(&mut st, rec);
        }
        3 => {
            just::<u8, Er>(x).parse_internal(&mut st, rec);
        }
        4 => {
            filter::<u8, _, Er>(move |t| *t == x).parse_internal(&mut st, rec);
        }
        5 => {
            filter_map::<u8, _, u8, Er>(move |t| if *t == x { Some(1) } else { None }).parse_internal(&mut st, rec);
        }
        6 => {
            one_of::<u8, _, Er>([x, 1]).parse_internal(&mut st, rec);
        }
        7 => {
            none_of::<u8, _, Er>([x, 1]).parse_internal(&mut st, rec);
        }
        8 => {
            // A repetition of single tokens reads one token past the last.
            let r = just::<u8, Er>(x).repeated().parse_internal(&mut st, rec);
            look = st.index() - start + 1;
            check!(r.is_ok());
        }
        _ => {
            let r = seq::<u8, _, Er>([x, 1, 2]).parse_internal(&mut st, rec);
            look = match r {
                ppoc::parser::Result::Failed(i, _) => i - start + 1,
                _ => 3,
            };
        }
    }
    cover!();
    check!(input.polls.get() <= before.max(start + look));
    check!((input.ended.get() == ended) | (start + look > input.n));
    check!(input.ended.get() <= 1);
    sx::observe(input.polls.get() as u64);
}

/// Recovery strategies look at no token past the one they stop at.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_strategies() {
    let n = 5;
    let input = Input::new((0..n).map(|_| sx::tok(1)).collect(), n);
    let w = World::new(Cfg { maxlen: 1, minlen: 1, maxidx: 1, lookahead: 0, recover: false, ..Cfg::BASE }, &input);
    let m = 1;
    let steps = match sx::upto(9) {
        0 => vec![],
        1 => vec![Step::Skip],
        2 => vec![Step::SkipIf(m)],
        3 => vec![Step::Find(m)],
        4 => vec![Step::Find(m), Step::Skip],
        5 => vec![Step::Seek],
        6 => vec![Step::Skip, Step::Restart],
        7 => vec![Step::WhileNot(m, vec![])],
        8 => vec![Step::Skip, Step::PushHere(1), Step::PushUpTo(2)],
        _ => vec![Step::Maybe(vec![Step::Skip])],
    };
    // One past the furthest position the steps can get to.
    let mut far = 1;
    if let [Step::Find(_), ..] | [Step::WhileNot(..), ..] = &steps[..] {
        while far <= n && input.toks[far - 1] != 0 {
            far += 1;
        }
    }
    far += 1;
    let p = P::Recover(b(s(1)), steps, Fin::Return(5));
    let q = build(&w, &p);
    let mut st = input.stream();
    let r = q.parse_internal(&mut st, true);
    cover!();
    check!(input.polls.get() <= far.max(st.index() + 1).min(n));
    check!(input.ended.get() <= 1);
    check!((input.ended.get() == 0) | (far >= n));
    observe(&r, st.index(), |v| *v);
}

/// Streaming asks for no more than what it hands out needs, and neither does
/// reading the rest token by token.
// @sx shards=4
#[no_mangle]
pub extern "C" fn h_pieces() {
    let n = 5 + DEEP;
    let input = Input::symbolic(n, 255);
    let w = World::new(Cfg { maxlen: 2, minlen: 0, maxidx: 1, maxerr: 1, ..Cfg::BASE }, &input);
    let p = sym(&w, 1);
    let mut it = p.stream(input.src());
    let mut pos = 0;
    let mut far = 0;
    for _ in 0..sx::concrete(sx::upto(3 + DEEP)) {
        // One token to see whether there is anything left.
        far = far.max(pos + 1);
        if it.next().is_none() {
            check!(pos == input.n);
            break;
        }
        let r = w.result(1, pos, true);
        far = far.max(match r.r {
            ppoc::parser::Result::Failed(..) => pos + w.cfg.lookahead.min(input.n - pos),
            _ => r.end,
        });
        pos = r.end;
        check!(input.polls.get() <= far);
        check!(input.ended.get() <= (far > input.n) as usize);
    }
    let mut t = it.tail();
    check!(input.polls.get() <= far);
    for _ in 0..n + 1 {
        far = far.max(pos + 1);
        let x = t.next();
        check!(x.is_some() == (pos < input.n));
        if x.is_some() {
            pos += 1;
        }
        check!(input.polls.get() <= far);
        check!(input.ended.get() <= (far > input.n) as usize);
    }
    cover!();
    sx::observe(input.polls.get() as u64);
}

/// Tokens that know how many of them are alive.
pub struct Live(Rc<Cell<usize>>, pub u8);
impl Live {
    fn new(c: &Rc<Cell<usize>>, v: u8) -> Live {
        c.set(c.get() + 1);
        Live(c.clone(), v)
    }
}
impl Clone for Live {
    fn clone(&self) -> Live {
        Live::new(&self.0, self.1)
    }
}
impl Drop for Live {
    fn drop(&mut self) {
        self.0.set(self.0.get() - 1);
    }
}
impl Num for Live {
    fn num(&self) -> u64 {
        self.1 as u64
    }
}
fn live_stream(c: &Rc<Cell<usize>>, n: usize) -> Stream<'static, Live, location::Simple> {
    let c = c.clone();
    Stream::new((0..n).map(move |k| Live::new(&c, k as u8)))
}
/// Without saved states, reading any amount keeps only a constant amount; with
/// one, only what lies between it and the cursor counts (with slack for the
/// growth policy).
// @sx shards=4
#[no_mangle]
pub extern "C" fn h_buffer() {
    let n = 40 + 40 * DEEP;
    let c = Rc::new(Cell::new(0));
    let mut st = live_stream(&c, n);
    let hold_at = sx::concrete(sx::upto(n));
    let hold_for = sx::concrete(sx::upto(12));
    let mut held = None;
    let mut window = 0;
    for p in 0..n {
        if p == hold_at {
            held = Some(st.save());
        }
        if p == hold_at + hold_for {
            held = None;
        }
        if p >= hold_at && p <= hold_at + hold_for {
            window = p - hold_at;
        }
        check!(st.advance());
        check!(c.get() <= 4 * window + 16);
    }
    drop(held);
    cover!();
    sx::observe(c.get() as u64);
}
/// The incremental interface: item after item, forever, in constant memory.
// @sx shards=4
#[no_mangle]
pub extern "C" fn h_incremental() {
    let n = 40 + 40 * DEEP;
    let c = Rc::new(Cell::new(0));
    let one = filter::<Live, _, Er>(|_| true).map(|t: Live| t.1 as u64);
    let src: Vec<Live> = vec![];
    drop(src);
    let c2 = c.clone();
    let source = (0..n).map(move |k| Live::new(&c2, k as u8));
    let kind = sx::upto(2);
    let mut count = 0;
    let mut go = |v: Option<ppoc::parser::Result<u64, Er>>| match v {
        Some(r) => {
            check!(r.is_ok());
            count += 1;
            check!(c.get() <= 24);
            true
        }
        None => false,
    };
    match kind {
        0 => {
            let p = one;
            let mut it = p.stream(source);
            while go(it.next()) {}
        }
        1 => {
            let p = filter::<Live, _, Er>(|t: &Live| t.1 == 200).map(|_| 0).or(one.clone());
            let mut it = p.stream(source);
            while go(it.next()) {}
        }
        _ => {
            let p = one.clone().then(one).map(|(a, b)| a + b);
            let mut it = p.stream(source);
            while go(it.next()) {}
        }
    }
    cover!();
    check!(count == if kind == 2 { n / 2 } else { n });
    sx::observe(count as u64);
}
