//! Mapping combinators: the child's result with only the mapped part changed,
//! spans that reach from where the parse started to where it ended.
//!
//! Any child (matching 0 to 2 tokens, failing anywhere, recovering, with 1 to
//! 3 errors) on inputs of 4 tokens, started anywhere; direct types and clones;
//! the fallible mapping with each verdict and 1 to 3 errors of its own; every
//! nesting of two mapping combinators.
use crate::ast::*;
use crate::model::*;
use crate::sx;
use ppoc::combinator::TryMapResult;
use ppoc::error::{At, Error, Fallback};
use ppoc::location;
use ppoc::parser::{Parser, Result as PR};
use std::ops::Range;
use std::rc::Rc;

const DEEP: usize = cfg!(feature = "deep") as usize;
const C: Cfg = Cfg { maxlen: 2, minlen: 0, maxerr: 3, maxidx: 2, ..Cfg::BASE };

/// A second error type, to be mapped to.
#[derive(Clone)]
pub struct Other(Er, Range<usize>);
impl Fallback for Other {
    fn simple<M: ToString>(m: M) -> Self {
        Other(Er::simple(m), 0..0)
    }
}
type A = At<usize, Range<usize>>;
impl<'i, I: Num + 'i> Error<'i, I> for Other {
    type LocationTracker = location::Simple;
    fn expected_found<J: IntoIterator<Item = Option<I>>>(e: J, f: Option<I>, at: A) -> Self {
        Other(Er::expected_found(e, f, at), 0..0)
    }
    fn merge_expected_found(&mut self, _: &Self) {}
    fn is_expected_found(&self) -> bool {
        false
    }
    fn location(&self) -> At<&usize, &Range<usize>> {
        At::None
    }
    fn unmatched_left_delimiter(t: I, s: Range<usize>, b: A) -> Self {
        Other(Er::unmatched_left_delimiter(t, s, b), 0..0)
    }
    fn unmatched_right_delimiter(t: I, s: Range<usize>, b: A) -> Self {
        Other(Er::unmatched_right_delimiter(t, s, b), 0..0)
    }
    fn unmatched_delimiter_type(t: I, s: Range<usize>, t2: I, s2: Range<usize>) -> Self {
        Other(Er::unmatched_delimiter_type(t, s, t2, s2), 0..0)
    }
    fn custom<M: ToString>(_: M, at: A) -> Self {
        Other(Er::blank(CUSTOM, at), 0..0)
    }
}

struct Case {
    input: Input,
    w: Rc<World>,
    start: usize,
    rec: bool,
    /// What the child does here.
    child: Res<u64>,
}
fn case(n: usize, cfg: Cfg) -> Case {
    let input = Input::positions(n);
    let w = World::new(cfg, &input);
    let start = sx::concrete(sx::upto(2));
    let rec = sx::flag();
    let child = w.result(1, start, rec);
    Case { input, w, start, rec, child }
}
impl Case {
    fn go<P: Parser<'static, u8>>(&self, p: P, mut see: impl FnMut(PR<P::Output, P::Error>, usize))
    where
        P::Error: Error<'static, u8, LocationTracker = location::Simple>,
    {
        let mut st = self.input.stream();
        for _ in 0..self.start {
            st.advance();
        }
        let r = p.parse_internal(&mut st, self.rec);
        let end = st.index();
        see(r, end);
        check!(!self.w.broken.get());
        check!(self.input.check_rest(&mut st));
    }
    /// The child's outcome unchanged, except for the output.
    fn same<P: Parser<'static, u8, Error = Er>>(&self, p: P, ok: impl Fn(u64, &P::Output) -> bool) {
        self.go(p, |r, end| {
            check!(same_result(&self.child.r, &r, |x, o| ok(*x, o)));
            check!(end == self.child.end);
            sx::observe(kind(&r));
        });
    }
}

// @sx shards=4
#[no_mangle]
pub extern "C" fn h_outputs() {
    let c = case(4, C);
    let p = sym(&c.w, 1);
    cover!();
    match sx::concrete(sx::upto(6)) {
        0 => c.same(p.to(77u64).clone(), |_, o| *o == 77),
        1 => c.same(p.ignored::<()>().clone(), |_, _| true),
        2 => c.same(p.some().clone(), |x, o| *o == Some(x)),
        3 => c.same(p.map(|x| (x, x ^ 5)).clone(), |x, o| *o == (x, x ^ 5)),
        4 => {
            let (s, e) = (c.start, c.child.end);
            c.same(p.map_with_span(|x, sp: Range<usize>| (x, sp)).clone(), |x, o| (o.0 == x) & (o.1.start == s) & (o.1.end == e))
        }
        5 => c.same(p.boxed().clone(), |x, o| *o == x),
        _ => c.same(p.with_error::<Er>().clone(), |x, o| *o == x),
    }
}
fn errors_of(r: &PR<u64, Er>) -> &[Er] {
    match r {
        PR::Success(_) => &[],
        PR::Recovered(_, es) | PR::Failed(_, es) => es,
    }
}
/// Errors mapped one by one, in order; everything else stays.
// @sx shards=4
#[no_mangle]
pub extern "C" fn h_errors() {
    let c = case(4, C);
    let p = sym(&c.w, 1);
    let spanned = sx::flag();
    let see = |r: PR<u64, Other>, end: usize| {
        check!(end == c.child.end);
        check!(kind(&r) == kind(&c.child.r));
        let got: &[Other] = match &r {
            PR::Success(o) => {
                check!(c.child.r == PR::Success(*o));
                &[]
            }
            PR::Recovered(o, es) => {
                check!(match &c.child.r {
                    PR::Recovered(x, _) => x == o,
                    _ => false,
                });
                es
            }
            PR::Failed(i, es) => {
                check!(match &c.child.r {
                    PR::Failed(x, _) => x == i,
                    _ => false,
                });
                es
            }
        };
        let want = errors_of(&c.child.r);
        check!(got.len() == want.len());
        for k in 0..got.len() {
            check!(same_er(&got[k].0, &want[k]));
            let (x, y) = if spanned { (c.start, c.child.end) } else { (7, 8) };
            check!((got[k].1.start == x) & (got[k].1.end == y));
        }
        sx::observe(got.len() as u64);
    };
    cover!();
    if spanned {
        c.go(p.map_err_with_span(|e, sp| Other(e, sp)).clone(), see);
    } else {
        c.go(p.map_err(|e| Other(e, 7..8)).clone(), see);
    }
}
/// The fallible mapping.
// @sx shards=4
#[no_mangle]
pub extern "C" fn h_try() {
    let c = case(4, Cfg { maxerr: 2, ..C });
    let p = sym(&c.w, 1);
    let verdict = sx::concrete(sx::upto(2));
    let k = sx::concrete(sx::range(1, 3));
    let own = move |sp: &Range<usize>| -> Vec<Er> {
        (0..k)
            .map(|j| {
                let mut e = Er::blank(CUSTOM, At::Span(sp.clone()));
                e.tag = 900 + j as u64;
                e
            })
            .collect()
    };
    let q = p.try_map(move |o, sp: Range<usize>| {
        let es = own(&sp);
        match verdict {
            0 => TryMapResult::Ok((o, sp)),
            1 => TryMapResult::Err(es),
            _ => TryMapResult::Recovered((o ^ 3, sp), es),
        }
    });
    let (start, end) = (c.start, c.child.end);
    let sp = start..end;
    let want: Res<(u64, Range<usize>)> = match c.child.r.clone() {
        PR::Failed(i, es) => Res { end: start, r: PR::Failed(i, es) },
        other => {
            let (o, had) = match other {
                PR::Recovered(o, es) => (o, Some(es)),
                PR::Success(o) => (o, None),
                _ => unreachable!(),
            };
            let mut es = had.clone().unwrap_or_default();
            if verdict > 0 {
                es.extend(own(&sp));
            }
            match verdict {
                0 => match had {
                    None => Res { end, r: PR::Success((o, sp)) },
                    Some(es) => Res { end, r: PR::Recovered((o, sp), es) },
                },
                2 if c.rec => Res { end, r: PR::Recovered((o ^ 3, sp), es) },
                _ => Res { end: start, r: PR::Failed(start, es) },
            }
        }
    };
    cover!();
    c.go(q, |r, e| {
        check!(same_result(&r, &want.r, |x, y| (x.0 == y.0) & (x.1.start == y.1.start) & (x.1.end == y.1.end)));
        check!(e == want.end);
        sx::observe(kind(&r));
    });
}
/// Two mappings around each other, and around a sequence.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_nested() {
    let one = |p: P, id: u64| match sx::concrete(sx::upto(3)) {
        0 => P::Map(b(p)),
        1 => P::Span(b(p)),
        2 => P::Try(b(p), id),
        _ => P::MapErr(b(p)),
    };
    let inner = match sx::concrete(sx::upto(2)) {
        0 => s(1),
        1 => P::Then(b(s(1)), b(s(2))),
        _ => P::Rep(b(s(1)), None, Rep { min: 1, max: Some(2), lead: false, trail: false, via: 0 }),
    };
    let p = one(inner, 1);
    let p = one(p, 2);
    cover!();
    decide(3 + DEEP, Cfg { maxlen: 1, minlen: 0, maxidx: 1, ..C }, p);
}
/// A fallible mapping that rejects does so before the next parser looks.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_rejecting() {
    let t = P::Try(b(s(1)), 1);
    let p = match sx::concrete(sx::upto(4)) {
        0 => P::Or(b(t), b(s(2))),
        1 => P::Then(b(t), b(s(2))),
        2 => P::Rep(b(t), Some(b(s(2))), Rep { min: 1, max: Some(2), lead: false, trail: false, via: 0 }),
        3 => P::OrNot(b(t)),
        _ => P::Recover(b(t), vec![Step::Skip, Step::Retry(true, false)], Fin::WithSpan(5)),
    };
    cover!();
    decide(3, Cfg { maxlen: 1, minlen: 1, maxidx: 1, maxerr: 1 + DEEP, ..C }, p);
}
