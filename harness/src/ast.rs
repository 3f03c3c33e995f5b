//! A small language of parser expressions with two readings: `build` makes
//! the parser with the library's combinators, `spec` says what it has to do.
use crate::model::*;
use crate::sx;
use ppoc::combinator::{Boxed, TryMapResult};
use ppoc::error::At;
use ppoc::parser::{Parser, Result as PR};
use ppoc::recovery::{self, IncompleteStrategy};
use ppoc::scanner::Scanner;
use std::ops::Range;
use std::rc::Rc;

#[derive(Clone)]
pub struct Rep {
    pub min: usize,
    pub max: Option<usize>,
    pub lead: bool,
    pub trail: bool,
    /// Which of the equivalent ways to ask for this is used.
    pub via: usize,
}

#[derive(Clone)]
pub enum P {
    /// Symbolic child.
    S(u64),
    Then(Box<P>, Box<P>),
    ThenIgnore(Box<P>, Box<P>),
    IgnoreThen(Box<P>, Box<P>),
    Delim(Box<P>, Box<P>, Box<P>),
    Pad(Box<P>, Box<P>),
    Chain(Vec<P>),
    Or(Box<P>, Box<P>),
    Alters(Vec<P>),
    OrNot(Box<P>),
    Rep(Box<P>, Option<Box<P>>, Rep),
    Map(Box<P>),
    /// Span in the output.
    Span(Box<P>),
    /// Three-way verdict chosen by a symbolic value per (id, position).
    Try(Box<P>, u64),
    MapErr(Box<P>),
    /// Something that passes on or replaces the output and nothing else.
    Wrap(Box<P>, usize),
    Recover(Box<P>, Vec<Step>, Fin),
}
#[derive(Clone)]
pub enum Step {
    Restart,
    Seek,
    Skip,
    SkipIf(u64),
    Find(u64),
    Scan(u64),
    Maybe(Vec<Step>),
    WhileNot(u64, Vec<Step>),
    Retry(bool, bool),
    Parse(u64, bool, bool),
    Push(u64),
    PushHere(u64),
    PushUpTo(u64),
    PushToken(u64),
    Upd(u64),
    UpdHere(u64),
    UpdUpTo(u64),
    UpdToken(u64),
    Nothing,
}
#[derive(Clone)]
pub enum Fin {
    Return(u64),
    With(u64),
    WithSpan(u64),
    Fail,
}

pub fn s(id: u64) -> P {
    P::S(id)
}
pub fn b(p: P) -> Box<P> {
    Box::new(p)
}

fn mix(a: u64, b: u64) -> u64 {
    (a ^ (a >> 29)).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(b).wrapping_add(0x1234_5678_9ABC_DEF1)
}
fn mixv(v: &[u64]) -> u64 {
    let mut r = v.len() as u64;
    for x in v {
        r = mix(r, *x);
    }
    r
}
fn mixopt(o: Option<u64>) -> u64 {
    match o {
        Some(x) => mix(77, x),
        None => 78,
    }
}
fn mixspan(o: u64, s: &Range<usize>) -> u64 {
    mix(mix(o, s.start as u64), s.end as u64)
}
fn at_err(tag: u64, found: u64, at: At<usize, Range<usize>>) -> Er {
    let mut e = Er::blank(CUSTOM, at);
    e.tag = tag;
    e.found = found;
    e
}
fn hit(mask: u64, t: u8) -> bool {
    (mask >> t) & 1 != 0
}
fn shuffle(es: &mut Vec<Er>) {
    // Something that depends on the whole list and changes all of it.
    es.reverse();
    for e in es.iter_mut() {
        e.tag = e.tag.wrapping_add(1000);
    }
}
fn verdict_err(id: u64, k: u64, at: At<usize, Range<usize>>) -> Er {
    at_err(5000 + id * 10 + k, 0, at)
}

/// Scanner that stops at the tokens of a mask and comments on every token; it
/// counts the tokens itself so that stale state would show.
struct Scan1 {
    mask: u64,
    seen: u64,
}
impl Scanner<'static, u8, Er> for Scan1 {
    fn scan(&mut self, t: u8, span: Range<usize>, errors: &mut Vec<Er>) -> bool {
        self.seen += 1;
        errors.push(at_err(7000 + self.seen, t as u64 + 1, At::Span(span)));
        hit(self.mask, t)
    }
    fn eof(&mut self, l: usize, errors: &mut Vec<Er>) {
        errors.push(at_err(7100 + self.seen, 0, At::Location(l)));
    }
}

pub type BP = Boxed<'static, u8, u64, Er>;
type BS = recovery::Boxed<'static, u8, BP>;

fn start() -> recovery::AttemptTo<u8, BP> {
    recovery::attempt_to()
}

/// The first step comes from the functions that start a strategy, the others
/// from the methods.
fn strategy(w: &Rc<World>, steps: &[Step]) -> BS {
    let mut cur: Option<BS> = None;
    for st in steps {
        macro_rules! on {
            ($name:ident($($a:expr),*) $($m:ident)*) => {
                match cur {
                    Some(c) => IncompleteStrategy::boxed(c.$name($($a),*)$(.$m())*),
                    None => IncompleteStrategy::boxed(recovery::$name($($a),*)$(.$m())*),
                }
            };
        }
        cur = Some(match st.clone() {
            Step::Nothing => match cur {
                Some(c) => c.do_nothing(),
                None => IncompleteStrategy::boxed(start().do_nothing()),
            },
            Step::Restart => match cur {
                Some(c) => IncompleteStrategy::boxed(c.restart()),
                None => IncompleteStrategy::boxed(start().restart()),
            },
            Step::Seek => on!(seek_to_failed()),
            Step::Skip => on!(skip()),
            Step::SkipIf(m) => on!(skip_if(move |t: &u8| hit(m, *t))),
            Step::Find(m) => on!(find(move |t: &u8| hit(m, *t))),
            Step::Scan(m) => on!(scan(move || Scan1 { mask: m, seen: 0 })),
            Step::Maybe(v) => on!(maybe(strategy(w, &v))),
            Step::WhileNot(m, v) => on!(while_not(move |t: &u8| hit(m, *t), strategy(w, &v))),
            Step::Retry(false, false) => on!(retry()),
            Step::Retry(true, false) => on!(retry() exactly),
            Step::Retry(false, true) => on!(retry() silently),
            Step::Retry(true, true) => match sx::concrete(sx::upto(2)) {
                0 => on!(retry() exactly_and_silently),
                1 => on!(retry() exactly silently),
                _ => on!(retry() silently exactly),
            },
            Step::Parse(id, false, false) => on!(try_to_parse(sym(w, id))),
            Step::Parse(id, true, false) => on!(try_to_parse(sym(w, id)) exactly),
            Step::Parse(id, false, true) => on!(try_to_parse(sym(w, id)) silently),
            Step::Parse(id, true, true) => match sx::concrete(sx::upto(2)) {
                0 => on!(try_to_parse(sym(w, id)) exactly_and_silently),
                1 => on!(try_to_parse(sym(w, id)) exactly silently),
                _ => on!(try_to_parse(sym(w, id)) silently exactly),
            },
            Step::Push(t) => on!(push_error(move || at_err(t, 0, At::None))),
            Step::PushHere(t) => on!(push_error_here(move |l: usize| at_err(t, 0, At::Location(l)))),
            Step::PushUpTo(t) => on!(push_error_up_to_here(move |sp: Range<usize>| at_err(t, 0, At::Span(sp)))),
            Step::PushToken(t) => {
                on!(push_error_for_token(move |k: Option<&u8>, sp: Range<usize>| at_err(t, k.map(|x| *x as u64 + 1).unwrap_or(0), At::Span(sp))))
            }
            Step::Upd(t) => on!(update_errors(move |es: &mut Vec<Er>| {
                shuffle(es);
                es.push(at_err(t, 0, At::None))
            })),
            Step::UpdHere(t) => on!(update_errors_here(move |es: &mut Vec<Er>, l: usize| {
                shuffle(es);
                es.push(at_err(t, 0, At::Location(l)))
            })),
            Step::UpdUpTo(t) => on!(update_errors_up_to_here(move |es: &mut Vec<Er>, sp: Range<usize>| {
                shuffle(es);
                es.push(at_err(t, 0, At::Span(sp)))
            })),
            Step::UpdToken(t) => on!(update_errors_for_token(move |es: &mut Vec<Er>, k: Option<&u8>, sp: Range<usize>| {
                shuffle(es);
                es.push(at_err(t, k.map(|x| *x as u64 + 1).unwrap_or(0), At::Span(sp)))
            })),
        });
    }
    cur.unwrap_or_else(|| IncompleteStrategy::boxed(start()))
}

/// The parser an expression stands for.
pub fn build(w: &Rc<World>, p: &P) -> BP {
    let q = |x: &P| build(w, x);
    match p {
        P::S(id) => sym(w, *id).boxed(),
        P::Then(x, y) => q(x).then(q(y)).map(|(x, y)| mix(x, y)).boxed(),
        P::ThenIgnore(x, y) => q(x).then_ignore(q(y)).boxed(),
        P::IgnoreThen(x, y) => q(x).ignore_then(q(y)).boxed(),
        P::Delim(l, m, r) => q(m).delimited_by(q(l), q(r)).boxed(),
        P::Pad(x, m) => q(m).padded_by(q(x)).boxed(),
        P::Chain(v) => {
            let mut c = q(&v[0]).chain(q(&v[1]));
            for x in &v[2..] {
                c = c.and(q(x));
            }
            c.map(|v| mixv(&v)).boxed()
        }
        P::Or(x, y) => q(x).or(q(y)).boxed(),
        P::Alters(v) => {
            let mut c = q(&v[0]).alters(q(&v[1]));
            for x in &v[2..] {
                c = c.and(q(x));
            }
            c.boxed()
        }
        P::OrNot(x) => q(x).or_not().map(mixopt).boxed(),
        P::Rep(item, sep, r) => {
            let r = r.clone();
            let c = match (sep, r.via) {
                (None, _) => q(item).repeated(),
                (Some(sp), 2) => q(item).repeated().with_separator(q(sp)),
                (Some(sp), _) => q(item).separated_by(q(sp)),
            };
            let c = match (r.via, r.max) {
                (0, Some(m)) => c.at_least(r.min).at_most(m),
                (_, Some(m)) if m == r.min => c.exactly(m),
                (_, Some(m)) => c.at_most(m).at_least(r.min),
                (_, None) => c.at_least(r.min),
            };
            let c = match (r.lead, r.trail) {
                (false, false) => c,
                (true, false) => c.allow_leading(),
                (false, true) => c.allow_trailing(),
                (true, true) => c.allow_trailing().allow_leading(),
            };
            c.map(|v| mixv(&v)).boxed()
        }
        P::Map(x) => q(x).map(|o| mix(o, 3)).boxed(),
        P::Span(x) => q(x).map_with_span(|o, sp| mixspan(o, &sp)).boxed(),
        P::Try(x, id) => {
            let (w, id) = (w.clone(), *id);
            q(x).try_map(move |o, sp: Range<usize>| match w.verdict(id, o) {
                0 => TryMapResult::Ok(mixspan(o, &sp)),
                1 => TryMapResult::Err(vec![verdict_err(id, 1, At::Span(sp))]),
                _ => TryMapResult::Recovered(mixspan(o + 1, &sp), vec![verdict_err(id, 2, At::Span(sp.clone())), verdict_err(id, 3, At::None)]),
            })
            .boxed()
        }
        P::MapErr(x) => q(x)
            .map_err(|mut e| {
                e.tag = e.tag.wrapping_add(100_000);
                e
            })
            .boxed(),
        P::Wrap(x, k) => match *k {
            0 => q(x).with_error::<Er>().boxed(),
            1 => {
                let x = q(x);
                ppoc::recursive::recursive(move |_| x).boxed()
            }
            2 => q(x).to(42u64).boxed(),
            3 => q(x).some().map(mixopt).boxed(),
            _ => q(x).ignored::<()>().map(|()| 43u64).boxed(),
        },
        P::Recover(x, steps, fin) => {
            let st = strategy(w, steps);
            let c = q(x);
            match *fin {
                Fin::Return(o) if steps.is_empty() => c.to_recover(recovery::just_return(o)).boxed(),
                Fin::With(o) if steps.is_empty() => c.to_recover(recovery::just_return_with(move || o)).boxed(),
                Fin::WithSpan(o) if steps.is_empty() => c.to_recover(recovery::just_return_with_span(move |sp: Range<usize>| mixspan(o, &sp))).boxed(),
                Fin::Return(o) => c.to_recover(st.and_return(o)).boxed(),
                Fin::With(o) => c.to_recover(st.and_return_with(move || o)).boxed(),
                Fin::WithSpan(o) => c.to_recover(st.and_return_with_span(move |sp: Range<usize>| mixspan(o, &sp))).boxed(),
                Fin::Fail => c.to_recover(st.or_fail()).boxed(),
            }
        }
    }
}

fn fail(start: usize, i: usize, es: Vec<Er>) -> Res<u64> {
    Res { end: start, r: PR::Failed(i, es) }
}
fn done(end: usize, o: u64, es: Option<Vec<Er>>) -> Res<u64> {
    Res { end, r: match es {
        None => PR::Success(o),
        Some(es) => PR::Recovered(o, es),
    } }
}
fn more(acc: &mut Option<Vec<Er>>, es: Vec<Er>) {
    match acc {
        Some(v) => v.extend(es),
        None => *acc = Some(es),
    }
}

/// Children one after the other.
fn seq(w: &World, ps: &[&P], start: usize, rec: bool) -> Result<(usize, Vec<u64>, Option<Vec<Er>>), Res<u64>> {
    let mut pos = start;
    let mut outs = vec![];
    let mut errs = None;
    for p in ps {
        let r = spec(w, p, pos, rec);
        match r.r {
            PR::Success(o) => outs.push(o),
            PR::Recovered(o, es) => {
                outs.push(o);
                more(&mut errs, es);
            }
            PR::Failed(i, es) => return Err(fail(start, i, es)),
        }
        pos = r.end;
    }
    Ok((pos, outs, errs))
}

/// First alternative that matches; otherwise recovery, deepest failure first;
/// otherwise the deepest failure, with expected sets merged.
fn alt(w: &World, ps: &[&P], start: usize, rec: bool) -> Res<u64> {
    let mut fails: Vec<(usize, Vec<Er>, usize)> = vec![];
    for (k, p) in ps.iter().enumerate() {
        let r = spec(w, p, start, false);
        match r.r {
            PR::Success(_) => return r,
            PR::Failed(i, es) => fails.push((i, es, k)),
            PR::Recovered(..) => {
                w.broken.set(true);
                return r;
            }
        }
    }
    // Selection sort, so that it is obviously stable.
    let mut order: Vec<usize> = vec![];
    while order.len() < fails.len() {
        let mut best = usize::MAX;
        for k in 0..fails.len() {
            if order.contains(&k) {
                continue;
            }
            if best == usize::MAX || fails[k].0 > fails[best].0 {
                best = k;
            }
        }
        order.push(best);
    }
    if rec {
        for k in &order {
            let r = spec(w, ps[fails[*k].2], start, true);
            if let PR::Recovered(..) = r.r {
                return r;
            }
        }
    }
    let first = order[0];
    let (i, mut es) = (fails[first].0, fails[first].1.clone());
    if es.len() == 1 && es[0].kind == EXPECTED {
        for k in &order[1..] {
            for e in &fails[*k].1 {
                if e.kind == EXPECTED && same_at(&e.at, &es[0].at) {
                    es[0].exp |= e.exp;
                }
            }
        }
    }
    fail(start, i, es)
}

fn rep(w: &World, item: &P, sep: Option<&P>, r: &Rep, start: usize, rec: bool) -> Res<u64> {
    let mut pos = start;
    let mut outs: Vec<u64> = vec![];
    let mut errs = None;
    loop {
        let n = outs.len();
        let full = r.max == Some(n);
        let need = n < r.min;
        if full && !(r.trail && n > 0) {
            break;
        }
        let before = pos;
        if let Some(sp) = sep {
            if n > 0 || r.lead {
                let q = spec(w, sp, pos, rec && need && n > 0);
                match q.r {
                    PR::Success(_) => pos = q.end,
                    PR::Recovered(_, es) => {
                        pos = q.end;
                        more(&mut errs, es);
                    }
                    PR::Failed(i, es) => {
                        if n > 0 {
                            if need {
                                return fail(start, i, es);
                            }
                            break;
                        }
                    }
                }
            }
        }
        if full {
            break;
        }
        let q = spec(w, item, pos, rec && need);
        match q.r {
            PR::Success(o) => {
                outs.push(o);
                pos = q.end;
            }
            PR::Recovered(o, es) => {
                outs.push(o);
                pos = q.end;
                more(&mut errs, es);
            }
            PR::Failed(i, es) => {
                if need {
                    return fail(start, i, es);
                }
                // A separator without an item after it only counts as a
                // leading or a trailing one.
                let keep = if n == 0 { r.lead } else { r.trail };
                if !keep {
                    pos = before;
                }
                break;
            }
        }
    }
    done(pos, mixv(&outs), errs)
}

struct Rs {
    start: usize,
    pos: usize,
    failed: usize,
    errs: Vec<Er>,
}
fn steps(w: &World, c: &P, st: &mut Rs, v: &[Step]) -> Option<u64> {
    for x in v {
        let here = st.pos;
        let tok = if here < w.n { w.toks[here] as u64 + 1 } else { 0 };
        let tspan = here..if here < w.n { here + 1 } else { here };
        match x {
            Step::Nothing => {}
            Step::Restart => st.pos = st.start,
            Step::Seek => st.pos = st.failed,
            Step::Skip => st.pos = (here + 1).min(w.n),
            Step::SkipIf(m) => {
                if here < w.n && hit(*m, w.toks[here]) {
                    st.pos += 1
                }
            }
            Step::Find(m) => {
                while st.pos < w.n && !hit(*m, w.toks[st.pos]) {
                    st.pos += 1
                }
            }
            Step::Scan(m) => {
                let mut k = 0;
                loop {
                    if st.pos == w.n {
                        st.errs.push(at_err(7100 + k, 0, At::Location(st.pos)));
                        break;
                    }
                    k += 1;
                    st.errs.push(at_err(7000 + k, w.toks[st.pos] as u64 + 1, At::Span(st.pos..st.pos + 1)));
                    if hit(*m, w.toks[st.pos]) {
                        break;
                    }
                    st.pos += 1;
                }
            }
            Step::Maybe(v) => {
                if let Some(o) = steps(w, c, st, v) {
                    return Some(o);
                }
                st.pos = here;
            }
            Step::WhileNot(m, v) => {
                while st.pos < w.n && !hit(*m, w.toks[st.pos]) {
                    if let Some(o) = steps(w, c, st, v) {
                        return Some(o);
                    }
                    st.pos = (st.pos + 1).min(w.n);
                }
            }
            Step::Retry(exact, silent) | Step::Parse(_, exact, silent) => {
                let q = match x {
                    Step::Parse(id, _, _) => w.result(*id, here, !*exact),
                    _ => spec(w, c, here, !*exact),
                };
                match q.r {
                    PR::Success(o) => {
                        st.pos = q.end;
                        return Some(o);
                    }
                    PR::Recovered(o, es) => {
                        st.pos = q.end;
                        if !*silent {
                            st.errs.extend(es);
                        }
                        return Some(o);
                    }
                    PR::Failed(i, es) => {
                        if !*silent {
                            st.errs.extend(es);
                        }
                        st.failed = i.max(here);
                    }
                }
            }
            Step::Push(t) => st.errs.push(at_err(*t, 0, At::None)),
            Step::PushHere(t) => st.errs.push(at_err(*t, 0, At::Location(here))),
            Step::PushUpTo(t) => st.errs.push(at_err(*t, 0, At::Span(st.start..here))),
            Step::PushToken(t) => st.errs.push(at_err(*t, tok, At::Span(tspan))),
            Step::Upd(t) => {
                shuffle(&mut st.errs);
                st.errs.push(at_err(*t, 0, At::None))
            }
            Step::UpdHere(t) => {
                shuffle(&mut st.errs);
                st.errs.push(at_err(*t, 0, At::Location(here)))
            }
            Step::UpdUpTo(t) => {
                shuffle(&mut st.errs);
                st.errs.push(at_err(*t, 0, At::Span(st.start..here)))
            }
            Step::UpdToken(t) => {
                shuffle(&mut st.errs);
                st.errs.push(at_err(*t, tok, At::Span(tspan)))
            }
        }
    }
    None
}

/// What an expression has to do at a position.
pub fn spec(w: &World, p: &P, start: usize, rec: bool) -> Res<u64> {
    match p {
        P::S(id) => w.result(*id, start, rec),
        P::Then(x, y) => match seq(w, &[x, y], start, rec) {
            Ok((end, o, es)) => done(end, mix(o[0], o[1]), es),
            Err(r) => r,
        },
        P::ThenIgnore(x, y) => match seq(w, &[x, y], start, rec) {
            Ok((end, o, es)) => done(end, o[0], es),
            Err(r) => r,
        },
        P::IgnoreThen(x, y) => match seq(w, &[x, y], start, rec) {
            Ok((end, o, es)) => done(end, o[1], es),
            Err(r) => r,
        },
        P::Delim(l, m, r) => match seq(w, &[l, m, r], start, rec) {
            Ok((end, o, es)) => done(end, o[1], es),
            Err(r) => r,
        },
        P::Pad(x, m) => match seq(w, &[x, m, x], start, rec) {
            Ok((end, o, es)) => done(end, o[1], es),
            Err(r) => r,
        },
        P::Chain(v) => match seq(w, &v.iter().collect::<Vec<_>>(), start, rec) {
            Ok((end, o, es)) => done(end, mixv(&o), es),
            Err(r) => r,
        },
        P::Or(x, y) => alt(w, &[x, y], start, rec),
        P::Alters(v) => alt(w, &v.iter().collect::<Vec<_>>(), start, rec),
        P::OrNot(x) => {
            let r = spec(w, x, start, false);
            match r.r {
                PR::Success(o) => done(r.end, mixopt(Some(o)), None),
                _ => done(start, mixopt(None), None),
            }
        }
        P::Rep(item, sep, r) => rep(w, item, sep.as_ref().map(|x| &**x), r, start, rec),
        P::Map(x) => {
            let r = spec(w, x, start, rec);
            Res { end: r.end, r: r.r.map(|o| mix(o, 3)) }
        }
        P::Span(x) => {
            let r = spec(w, x, start, rec);
            let e = r.end;
            Res { end: e, r: r.r.map(|o| mixspan(o, &(start..e))) }
        }
        P::Try(x, id) => {
            let r = spec(w, x, start, rec);
            let sp = start..r.end;
            let (o, had) = match r.r {
                PR::Success(o) => (o, None),
                PR::Recovered(o, es) => (o, Some(es)),
                PR::Failed(..) => return r,
            };
            match w.verdict(*id, o) {
                0 => done(r.end, mixspan(o, &sp), had),
                1 => {
                    let mut es = had.unwrap_or_default();
                    es.push(verdict_err(*id, 1, At::Span(sp)));
                    fail(start, start, es)
                }
                _ => {
                    let mut es = had.unwrap_or_default();
                    es.push(verdict_err(*id, 2, At::Span(sp.clone())));
                    es.push(verdict_err(*id, 3, At::None));
                    if rec {
                        done(r.end, mixspan(o + 1, &sp), Some(es))
                    } else {
                        fail(start, start, es)
                    }
                }
            }
        }
        P::MapErr(x) => {
            let r = spec(w, x, start, rec);
            let f = |es: Vec<Er>| {
                es.into_iter()
                    .map(|mut e| {
                        e.tag = e.tag.wrapping_add(100_000);
                        e
                    })
                    .collect::<Vec<_>>()
            };
            Res { end: r.end, r: match r.r {
                PR::Success(o) => PR::Success(o),
                PR::Recovered(o, es) => PR::Recovered(o, f(es)),
                PR::Failed(i, es) => PR::Failed(i, f(es)),
            } }
        }
        P::Wrap(x, k) => {
            let r = spec(w, x, start, rec);
            Res { end: r.end, r: r.r.map(|o| match *k {
                0 | 1 => o,
                2 => 42,
                3 => mixopt(Some(o)),
                _ => 43,
            }) }
        }
        P::Recover(x, v, fin) => {
            let r = spec(w, x, start, rec);
            match r.r {
                PR::Failed(i, es) if rec => {
                    let mut st = Rs { start, pos: start, failed: i.max(start), errs: es };
                    let out = match steps(w, x, &mut st, v) {
                        Some(o) => Some(o),
                        None => match fin {
                            Fin::Return(o) | Fin::With(o) => Some(*o),
                            Fin::WithSpan(o) => Some(mixspan(*o, &(start..st.pos))),
                            Fin::Fail => None,
                        },
                    };
                    match out {
                        Some(o) => done(st.pos, o, Some(st.errs)),
                        None => fail(start, i, st.errs),
                    }
                }
                _ => r,
            }
        }
    }
}

/// What to compare.
#[derive(Clone, Copy)]
pub struct See {
    pub errors: bool,
    pub output: bool,
}
// Assertions of this file are numbered from 10000.
macro_rules! check {
    ($c:expr $(,)?) => {
        $crate::sx::assert_code($c, 10_000 + line!() as u64)
    };
}
pub const ALL: See = See { errors: true, output: true };

pub struct Ran {
    pub input: Input,
    pub w: Rc<World>,
    pub start: usize,
    pub recovery: bool,
    pub got: PR<u64, Er>,
    pub end: usize,
}

/// Run an expression on the real parser; give back what happened. The stream
/// starts at a symbolic position and is read to its end afterwards.
pub fn run(w: &Rc<World>, input: &Input, p: &P, start: usize, recovery: bool) -> (PR<u64, Er>, usize, bool) {
    let q = build(w, p);
    let mut st = input.stream();
    for _ in 0..start {
        st.advance();
    }
    let got = q.parse_internal(&mut st, recovery);
    let end = st.index();
    let rest = input.check_rest(&mut st);
    (got, end, rest)
}
pub fn decide(n: usize, cfg: Cfg, p: P) {
    let input = Input::positions(n);
    let w = World::new(cfg, &input);
    decide_in(&w, &input, p, sx::upto(1), sx::flag());
}
pub fn decide_in(w: &Rc<World>, input: &Input, p: P, start: usize, recovery: bool) {
    let (got, end, rest) = run(w, input, &p, start, recovery);
    let want = spec(w, &p, start, recovery);
    check!(same_result(&got, &want.r, |x, y| x == y));
    check!(end == want.end);
    check!(!w.broken.get());
    observe(&got, end, |v| *v);
    check!(rest);
}

/// Number of operators `op` knows.
pub const OPS: usize = 19;
/// Operator number k; `c` makes its children, in order.
pub fn op(k: usize, c: &mut dyn FnMut() -> P) -> P {
    match k {
        0 => P::Then(b(c()), b(c())),
        1 => P::Or(b(c()), b(c())),
        2 => P::Rep(b(c()), None, Rep { min: sx::upto(1), max: Some(2), lead: false, trail: false, via: 0 }),
        3 => {
            let (lead, trail) = (sx::flag(), sx::flag());
            P::Rep(b(c()), Some(b(c())), Rep { min: sx::upto(2), max: Some(2), lead, trail, via: 1 })
        }
        4 => P::OrNot(b(c())),
        5 => P::Recover(b(c()), vec![Step::WhileNot(1, vec![Step::Retry(sx::flag(), false)])], Fin::Fail),
        6 => P::Recover(b(c()), vec![Step::Seek], Fin::WithSpan(9)),
        7 => P::Try(b(c()), 1),
        8 => P::Span(b(c())),
        9 => P::MapErr(b(c())),
        10 => P::Delim(b(c()), b(c()), b(c())),
        11 => P::Alters(vec![c(), c(), c()]),
        12 => P::Chain(vec![c(), c(), c()]),
        13 => P::ThenIgnore(b(c()), b(c())),
        14 => P::IgnoreThen(b(c()), b(c())),
        15 => P::Pad(b(c()), b(c())),
        16 => P::Recover(b(c()), vec![Step::Find(1), Step::Skip, Step::Parse(8, sx::flag(), sx::flag())], Fin::Return(9)),
        17 => P::Map(b(c())),
        _ => P::Wrap(b(c()), sx::concrete(sx::upto(4))),
    }
}
/// How many children operator k has.
pub fn arity(k: usize) -> usize {
    match k {
        0 | 1 | 3 | 13 | 14 | 15 => 2,
        10 | 11 | 12 => 3,
        _ => 1,
    }
}
/// Operators nested `depth` deep, any of them, in any argument place; the
/// other arguments are symbolic children.
pub fn spine(depth: usize, ops: usize, next: &mut u64) -> P {
    if depth == 0 {
        *next += 1;
        return s(*next);
    }
    let k = sx::concrete(sx::upto(ops - 1));
    let place = if arity(k) == 1 { 0 } else { sx::concrete(sx::upto(arity(k) - 1)) };
    let mut i = 0;
    op(k, &mut || {
        i += 1;
        if i == place + 1 {
            spine(depth - 1, ops, next)
        } else {
            *next += 1;
            s(*next)
        }
    })
}
