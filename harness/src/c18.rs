//! Reused, shared, copied, interleaved and re-entered parsers against fresh
//! ones.
//!
//! 35 parsers covering every primitive, combinator and recovery strategy, with
//! every Clone implementation: run before on another input of 0 to 2 symbolic
//! tokens, in between another parse, through copies, after a prefix of 1 to 2
//! symbolic tokens, on inputs of 0 to 3 symbolic tokens (thorough: one more of
//! each), recovery on and off for every run; 18 combinators with symbolic
//! children (thorough: nested two deep) run three times (thorough: twice) at
//! any two positions of one or several streams, or re-entered from inside a
//! child; every sequence of 4 (thorough: 5) repetition settings and of 3 retry
//! settings.
use crate::ast::{self, decide_in, op, s, spec, spine, Rep, OPS, P};
use crate::model::*;
use crate::sx;
use ppoc::combinator::{Boxed, TryMapResult};
use ppoc::error::At;
use ppoc::location;
use ppoc::parser::{Parser, Result as PR};
use ppoc::primitive::*;
use ppoc::recovery::{self, IncompleteStrategy};
use ppoc::recursive::{recursive, Recursive};
use ppoc::scanner::nested_delimiters;
use ppoc::stream::Stream;
use std::ops::Range;
use std::rc::Rc;

const DEEP: usize = cfg!(feature = "deep") as usize;
type BP = Boxed<'static, u8, u64, Er>;
type St = Stream<'static, u8, location::Simple>;

/// Outputs as numbers.
trait V {
    fn v(&self) -> u64;
}
impl V for u64 {
    fn v(&self) -> u64 {
        *self
    }
}
impl V for u8 {
    fn v(&self) -> u64 {
        *self as u64
    }
}
impl V for () {
    fn v(&self) -> u64 {
        1
    }
}
impl<T: V> V for Option<T> {
    fn v(&self) -> u64 {
        self.as_ref().map(|x| x.v() * 8 + 1).unwrap_or(0)
    }
}
impl<T: V> V for Vec<T> {
    fn v(&self) -> u64 {
        self.iter().fold(1, |a, x| a * 64 + x.v())
    }
}
impl V for [u8; 2] {
    fn v(&self) -> u64 {
        self[0] as u64 * 8 + self[1] as u64
    }
}
impl<A: V, B: V> V for (A, B) {
    fn v(&self) -> u64 {
        self.0.v() * 64 + self.1.v()
    }
}

/// What a run gives, relative to where it started.
struct Out {
    r: PR<u64, Er>,
    len: usize,
}
fn back(a: At<usize, Range<usize>>, d: usize) -> At<usize, Range<usize>> {
    match a {
        At::None => At::None,
        At::Location(l) => At::Location(l.wrapping_sub(d)),
        At::Span(s) => At::Span(s.start.wrapping_sub(d)..s.end.wrapping_sub(d)),
    }
}
fn on<P: Parser<'static, u8, Error = Er>>(p: &P, st: &mut St, rec: bool) -> Out
where
    P::Output: V,
{
    let d = st.index();
    let r = p.parse_internal(st, rec);
    let shift = |mut e: Er| {
        e.at = back(e.at, d);
        if e.kind == LEFT || e.kind == RIGHT || e.kind == TYPE {
            e.span2 = e.span2.start.wrapping_sub(d)..e.span2.end.wrapping_sub(d);
        }
        e
    };
    let len = st.index().wrapping_sub(d);
    let r = match r.map(|o| o.v()).map_err(shift) {
        PR::Failed(i, e) => PR::Failed(i.max(d) - d, e),
        r => r,
    };
    Out { r, len }
}
fn same(a: &Out, b: &Out) -> bool {
    (a.len == b.len) & same_result(&a.r, &b.r, |x, y| x == y)
}
fn toks(n: usize) -> Vec<u8> {
    (0..n).map(|_| sx::tok(3)).collect()
}
fn open(v: &[u8]) -> St {
    Stream::new(v.to_vec())
}
/// One parser, however it is used.
fn uses<P: Parser<'static, u8, Error = Er> + Clone>(make: impl Fn() -> P)
where
    P::Output: V,
{
    let n = sx::concrete(sx::upto(3 + DEEP));
    let b = toks(n);
    let rec = sx::flag();
    let want = on(&make(), &mut open(&b), rec);
    let p = make();
    match sx::concrete(sx::upto(3)) {
        0 => {
            // Used before, and copied.
            let a = toks(sx::concrete(sx::upto(2 + DEEP)));
            let early = p.clone();
            on(&p, &mut open(&a), sx::flag());
            check!(same(&on(&p, &mut open(&b), rec), &want));
            check!(same(&on(&early, &mut open(&b), rec), &want));
            check!(same(&on(&p.clone(), &mut open(&b), rec), &want));
            cover!();
        }
        1 => {
            // Again and again.
            let first = p.clone();
            check!(same(&on(&p, &mut open(&b), rec), &want));
            check!(same(&on(&p, &mut open(&b), rec), &want));
            on(&p, &mut open(&b), !rec);
            drop(p);
            check!(same(&on(&first, &mut open(&b), rec), &want));
            cover!();
        }
        2 => {
            // In the middle of something else, on the same stream.
            let k = 1 + sx::concrete(sx::upto(1 + DEEP));
            let mut v = toks(k);
            v.extend(&b);
            let mut st = open(&v);
            let start = st.save();
            for _ in 0..k {
                st.advance();
            }
            check!(same(&on(&p, &mut st, rec), &want));
            // Back to the beginning and there again.
            st.restore(&start);
            on(&p, &mut st, sx::flag());
            st.restore(&start);
            for _ in 0..k {
                st.advance();
            }
            check!(same(&on(&p, &mut st, rec), &want));
            cover!();
        }
        _ => {
            // Two streams in turns.
            let (mut x, mut y, mut z) = (open(&b), open(&b), open(&b));
            check!(same(&on(&p, &mut x, rec), &want));
            let q = make();
            on(&q, &mut y, rec);
            check!(same(&on(&p, &mut z, rec), &want));
            check!(same(&on(&p, &mut x, rec), &on(&q, &mut y, rec)));
            cover!();
        }
    }
    observe(&want.r, want.len, |x| *x);
}

fn j(t: u8) -> Just<u8, Er> {
    just(t)
}
fn ch(k: u64) -> impl Fn(usize) -> Er + Clone {
    move |_| Er::child(k)
}
const PAIRS: [(u8, u8); 1] = [(0, 1)];
const BOTH: [(u8, u8); 2] = [(0, 1), (2, 3)];

// @sx shards=8
#[no_mangle]
pub extern "C" fn h_primitives() {
    match sx::concrete(sx::upto(9)) {
        0 => uses(|| empty::<u8, Er>()),
        1 => uses(|| none::<u8, u64, Er>()),
        2 => uses(|| end::<u8, Er>()),
        3 => uses(|| j(1)),
        4 => uses(|| filter::<u8, _, Er>(|t: &u8| *t < 2)),
        5 => uses(|| filter_map::<u8, _, _, Er>(|t: &u8| if *t > 1 { Some(*t as u64) } else { None })),
        6 => uses(|| seq::<u8, _, Er>([1u8, 2])),
        7 => uses(|| seq::<u8, _, Er>(vec![1u8, 2])),
        8 => uses(|| one_of::<u8, _, Er>([1u8, 3])),
        _ => uses(|| none_of::<u8, _, Er>(vec![0u8, 2])),
    }
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_combinators() {
    match sx::concrete(sx::upto(14)) {
        0 => uses(|| j(0).then(j(1))),
        1 => uses(|| j(0).then_ignore(j(1)).or(j(0).ignore_then(j(2)))),
        2 => uses(|| j(2).delimited_by(j(0), j(1))),
        3 => uses(|| j(2).or_not().padded_by(j(0))),
        4 => uses(|| j(0).chain(j(1)).and(j(2))),
        5 => uses(|| j(0).alters(j(1)).and(j(2)).boxed().then(end::<u8, Er>())),
        6 => uses(|| j(0).repeated().at_least(1).at_most(2)),
        7 => uses(|| j(0).separated_by(j(1)).allow_leading().allow_trailing()),
        8 => uses(|| j(0).separated_by(j(1)).exactly(2)),
        9 => uses(|| j(0).or(j(1)).to(7u64).some()),
        10 => uses(|| j(0).then(j(1)).map(|(a, b)| a as u64 * 8 + b as u64).map_err(|mut e: Er| {
            e.tag += 1;
            e
        })),
        11 => uses(|| j(0).repeated().map_with_span(|v: Vec<u8>, s: Range<usize>| v.len() as u64 * 8 + (s.end - s.start) as u64)),
        12 => uses(|| {
            j(0).or(j(1)).repeated().at_least(1).try_map(|v: Vec<u8>, s: Range<usize>| match v[0] {
                0 => TryMapResult::Ok((s.end - s.start) as u64),
                _ if v.len() > 1 => TryMapResult::Recovered(9u64, vec![Er::blank(CUSTOM, At::Span(s))]),
                _ => TryMapResult::Err(vec![Er::blank(CUSTOM, At::Span(s))]),
            })
            .boxed()
        }),
        13 => uses(|| {
            recursive(|r: &Recursive<'static, u8, u64, Er>| {
                r.clone().or_not().delimited_by(j(0), j(1)).map(|o: Option<u64>| o.unwrap_or(0) + 1).or(j(2).map(|_| 50))
            })
        }),
        _ => uses(|| j(0).with_error::<Er>().map_err_with_span(|mut e: Er, s: Range<usize>| {
            e.tag = (s.end - s.start) as u64;
            e
        })),
    }
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_recovery() {
    let two = || j(0).then(j(1));
    match sx::concrete(sx::upto(9)) {
        0 => uses(|| j(2).to_recover(recovery::skip().and_return(9u8))),
        1 => uses(|| two().to_recover(recovery::find(|t: &u8| *t == 0).retry().or_fail())),
        2 => uses(|| two().to_recover(recovery::while_not(|t: &u8| *t == 3, recovery::retry()).and_return_with(|| (5u8, 6u8)))),
        3 => uses(|| two().to_recover(recovery::scan(nested_delimiters(&PAIRS)).skip().and_return((5u8, 6u8)))),
        4 => uses(|| two().to_recover(recovery::scan(nested_delimiters(&BOTH)).skip_if(|t: &u8| *t > 1).retry().exactly().or_fail())),
        5 => uses(|| two().to_recover(recovery::seek_to_failed().skip().restart().seek_to_failed().and_return_with_span(|s: Range<usize>| ((s.end - s.start) as u8, 0u8)))),
        6 => uses(|| two().to_recover(recovery::maybe(recovery::skip().retry().silently()).try_to_parse(j(2).then(j(3))).exactly().and_return((0u8, 7u8)))),
        7 => uses(|| {
            two().to_recover(
                recovery::push_error_here(ch(1))
                    .skip()
                    .push_error_up_to_here(|s: Range<usize>| Er::blank(CUSTOM, At::Span(s)))
                    .push_error(|| Er::child(3))
                    .push_error_for_token(|t: Option<&u8>, s: Range<usize>| {
                        let mut e = Er::blank(CUSTOM, At::Span(s));
                        e.tag = t.map(|x| *x as u64).unwrap_or(77);
                        e
                    })
                    .retry()
                    .or_fail(),
            )
        }),
        8 => uses(|| {
            two().to_recover(
                recovery::skip()
                    .update_errors(|es: &mut Vec<Er>| es.reverse())
                    .update_errors_here(|es: &mut Vec<Er>, l: usize| es.push(Er::blank(CUSTOM, At::Location(l))))
                    .update_errors_up_to_here(|es: &mut Vec<Er>, s: Range<usize>| es.push(Er::blank(CUSTOM, At::Span(s))))
                    .update_errors_for_token(|es: &mut Vec<Er>, t: Option<&u8>, s: Range<usize>| {
                        let mut e = Er::blank(CUSTOM, At::Span(s));
                        e.tag = t.map(|x| *x as u64).unwrap_or(77);
                        es.push(e)
                    })
                    .do_nothing()
                    .and_return((1u8, 1u8)),
            )
        }),
        _ => uses(|| two().to_recover(recovery::skip().retry().or_fail()).repeated().at_least(2)),
    }
}

/// Copies taken while a parser is being put together are not affected by what
/// happens to the original, and shared parts are as good as separate ones.
// @sx shards=4
#[no_mangle]
pub extern "C" fn h_copies() {
    let n = sx::concrete(sx::upto(3 + DEEP));
    let v = toks(n);
    let rec = sx::flag();
    let run = |p: &dyn Fn(&mut St) -> Out| p(&mut open(&v));
    macro_rules! agree {
        ($a:expr, $b:expr) => {{
            let (a, b) = ($a, $b);
            let (x, y) = (run(&|s| on(&a, s, rec)), run(&|s| on(&b, s, rec)));
            check!(same(&x, &y));
        }};
    }
    match sx::concrete(sx::upto(5)) {
        0 => {
            let base = j(0).chain(j(1));
            let longer = base.clone().and(j(2));
            agree!(base, j(0).chain(j(1)));
            agree!(longer.clone(), j(0).chain(j(1)).and(j(2)));
            agree!(longer.clone().and(j(3)), j(0).chain(j(1)).and(j(2)).and(j(3)));
            agree!(longer, j(0).chain(j(1)).and(j(2)));
        }
        1 => {
            let base = j(0).alters(j(1));
            let longer = base.clone().and(j(2));
            agree!(base, j(0).alters(j(1)));
            agree!(longer.clone(), j(0).alters(j(1)).and(j(2)));
            agree!(longer.clone().and(j(3)), j(0).alters(j(1)).and(j(2)).and(j(3)));
            agree!(longer, j(0).alters(j(1)).and(j(2)));
        }
        2 => {
            let base = j(0).separated_by(j(1));
            let more = base.clone().at_least(2).allow_leading();
            let less = base.clone().at_most(1).allow_trailing().with_separator(j(2));
            agree!(base, j(0).separated_by(j(1)));
            agree!(more, j(0).separated_by(j(1)).at_least(2).allow_leading());
            agree!(less, j(0).separated_by(j(2)).at_most(1).allow_trailing());
        }
        3 => {
            let base = recovery::skip().retry();
            let c = base.clone();
            let x = base.exactly();
            let y = x.clone().silently();
            agree!(
                j(0).then(j(1)).to_recover(c.or_fail()),
                j(0).then(j(1)).to_recover(recovery::skip().retry().or_fail())
            );
            agree!(
                j(0).then(j(1)).to_recover(y.or_fail()),
                j(0).then(j(1)).to_recover(recovery::skip().retry().exactly_and_silently().or_fail())
            );
            agree!(
                j(0).then(j(1)).to_recover(x.or_fail()),
                j(0).then(j(1)).to_recover(recovery::skip().retry().exactly().or_fail())
            );
        }
        4 => {
            let mk = || j(0).or(j(1)).to_recover(recovery::skip().and_return(7u8)).boxed();
            let x = mk();
            agree!(
                x.clone().then(x.clone().or_not()).then(x.repeated().at_most(1)),
                mk().then(mk().or_not()).then(mk().repeated().at_most(1))
            );
        }
        _ => {
            // One strategy for several parsers.
            let st = || recovery::Boxed::clone(&IncompleteStrategy::boxed(recovery::find(|t: &u8| *t == 1).skip()));
            let x = st();
            agree!(
                j(0).to_recover(x.clone().and_return(8u8)).then(j(2).to_recover(x.and_return(9u8))),
                j(0).to_recover(st().and_return(8u8)).then(j(2).to_recover(st().and_return(9u8)))
            );
        }
    }
    cover!();
}

const C: Cfg = Cfg { maxlen: 1, minlen: 1, maxidx: 0, lookahead: 0, ..Cfg::BASE };
/// One object, three runs at any positions, on one stream or several.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_reused() {
    let n = 2;
    let input = Input::new((0..n).map(|_| sx::tok(1)).collect(), n);
    let w = World::new(C, &input);
    let e = spine(1 + DEEP, OPS, &mut 0);
    let p = ast::build(&w, &e);
    let mut shared = input.stream();
    let origin = shared.save();
    let together = sx::flag();
    for _ in 0..3 - DEEP {
        let (start, rec) = (sx::concrete(sx::upto(1)), sx::flag());
        let again = Input { toks: input.toks.clone(), n, polls: Default::default(), ended: Default::default() };
        let mut own = again.stream();
        let st = if together { &mut shared } else { &mut own };
        if together {
            st.restore(&origin);
        }
        for _ in 0..start {
            st.advance();
        }
        let got = p.parse_internal(st, rec);
        let want = spec(&w, &e, start, rec);
        check!(same_result(&got, &want.r, |x, y| x == y));
        check!(st.index() == want.end);
    }
    check!(!w.broken.get());
    cover!();
}
/// A parser run from inside itself, on another stream.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_reentered() {
    let n = 2;
    let input = Input::new((0..n).map(|_| sx::tok(1)).collect(), n);
    let w = World::new(C, &input);
    let e = spine(1 + DEEP, OPS, &mut 0);
    let p = ast::build(&w, &e);
    let (q, v, e2, w2) = (p.clone(), input.toks.clone(), e.clone(), w.clone());
    let (start, rec) = (sx::concrete(sx::upto(1)), sx::flag());
    *w.hook.borrow_mut() = Some(Box::new(move || {
        let mut st: St = Stream::new(v.to_vec());
        for _ in 0..start {
            st.advance();
        }
        let got = q.parse_internal(&mut st, rec);
        let want = spec(&w2, &e2, start, rec);
        check!(same_result(&got, &want.r, |x, y| x == y));
        check!(st.index() == want.end);
        cover!();
    }));
    let rec = sx::flag();
    let mut st: St = Stream::new(input.toks.to_vec());
    let got = p.parse_internal(&mut st, rec);
    let want = spec(&w, &e, 0, rec);
    check!(same_result(&got, &want.r, |x, y| x == y));
    check!(st.index() == want.end);
    check!(!w.broken.get());
    w.hook.borrow_mut().take();
}
/// Settings in any order, the last one of a kind winning.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_settings() {
    let n = 2 + DEEP;
    let input = Input::positions(n);
    let w = World::new(Cfg { recover: DEEP > 0, ..C }, &input);
    let plain = sx::flag();
    let mut c = if plain { sym(&w, 1).repeated() } else { sym(&w, 1).separated_by(sym(&w, 2)) };
    let mut r = Rep { min: 0, max: None, lead: false, trail: false, via: 0 };
    let mut sep = if plain { None } else { Some(2) };
    for _ in 0..4 + DEEP {
        match sx::concrete(sx::upto(6)) {
            0 => {
                r.min = sx::upto(2);
                c = c.at_least(r.min);
            }
            1 => {
                let m = sx::range(1, 2);
                r.max = Some(m);
                c = c.at_most(m);
            }
            2 => {
                let m = sx::range(1, 2);
                r.min = m;
                r.max = Some(m);
                c = c.exactly(m);
            }
            3 => {
                r.lead = true;
                c = c.allow_leading();
            }
            4 => {
                r.trail = true;
                c = c.allow_trailing();
            }
            5 => {
                sep = Some(3);
                c = c.with_separator(sym(&w, 3));
            }
            _ => c = c.clone(),
        }
    }
    // What a minimum above the maximum means is not documented.
    sx::assume(r.max.map(|m| m >= r.min).unwrap_or(true));
    let e = P::Rep(ast::b(s(1)), sep.map(|k| ast::b(s(k))), r);
    let rec = sx::flag();
    let mut st = input.stream();
    let got = c.parse_internal(&mut st, rec);
    let want = spec(&w, &e, 0, rec);
    check!(kind(&got) == kind(&want.r));
    check!(st.index() == want.end);
    match (&got, &want.r) {
        (PR::Success(v), _) | (PR::Recovered(v, _), _) => {
            let mut p = 0;
            let mut items = 0;
            // The items are those of child 1, in order.
            for o in v {
                while p <= n && !(*o == tag(1, p, false, 0) || *o == tag(1, p, false, 0) + 1) {
                    p += 1;
                }
                check!(p <= n);
                p += 1;
                items += 1;
            }
            check!(items >= r_min(&e) && r_max(&e).map(|m| items <= m).unwrap_or(true));
        }
        (PR::Failed(i, a), PR::Failed(k, b)) => check!((i == k) & same_ers(a, b)),
        _ => {}
    }
    cover!();
}
fn r_min(e: &P) -> usize {
    match e {
        P::Rep(_, _, r) => r.min,
        _ => 0,
    }
}
fn r_max(e: &P) -> Option<usize> {
    match e {
        P::Rep(_, _, r) => r.max,
        _ => None,
    }
}
/// exactly() and silently() in any order and number.
// @sx shards=4
#[no_mangle]
pub extern "C" fn h_flags() {
    let n = 2;
    let input = Input::positions(n);
    let w = World::new(Cfg { maxerr: 1 + DEEP, ..C }, &input);
    let (mut exact, mut silent) = (false, false);
    let other = sx::flag();
    let rec = sx::flag();
    macro_rules! set {
        ($s:expr) => {{
            let mut s = $s;
            for _ in 0..3 {
                s = match sx::concrete(sx::upto(3)) {
                    0 => {
                        exact = true;
                        s.exactly()
                    }
                    1 => {
                        silent = true;
                        s.silently()
                    }
                    2 => {
                        exact = true;
                        silent = true;
                        s.exactly_and_silently()
                    }
                    _ => s.clone(),
                };
            }
            s
        }};
    }
    let p: BP = if other {
        sym(&w, 1).to_recover(set!(recovery::skip().try_to_parse(sym(&w, 2))).and_return(9u64)).boxed()
    } else {
        sym(&w, 1).to_recover(set!(recovery::skip().retry()).and_return(9u64)).boxed()
    };
    let step = if other { ast::Step::Parse(2, exact, silent) } else { ast::Step::Retry(exact, silent) };
    let e = P::Recover(ast::b(s(1)), vec![ast::Step::Skip, step], ast::Fin::Return(9));
    let mut st = input.stream();
    let got = p.parse_internal(&mut st, rec);
    let want = spec(&w, &e, 0, rec);
    check!(same_result(&got, &want.r, |x, y| x == y));
    check!(st.index() == want.end);
    cover!();
}
