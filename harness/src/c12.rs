//! Nested delimiters: where the scan stops and what it reports.
//!
//! Three kinds of delimiters, one of them with equal left and right token;
//! every input of up to 7 (thorough: 9) symbolic tokens, whatever it starts with; up to 36 (thorough:
//! 72) open delimiters, the right tokens of which follow, one of these replaced
//! by any token.
use crate::model::*;
use crate::sx;
use ppoc::error::At;
use ppoc::parser::{Parser, Result as PR};
use ppoc::primitive::*;
use ppoc::recovery::{self, IncompleteStrategy};
use ppoc::scanner::{nested_delimiters, Scanner};
use std::ops::Range;

const DEEP: usize = cfg!(feature = "deep") as usize;
const PAIRS: [(u8, u8); 3] = [(0, 1), (2, 2), (3, 4)];

fn left(t: u8) -> Option<usize> {
    match t {
        0 => Some(0),
        2 => Some(1),
        3 => Some(2),
        _ => None,
    }
}
fn right(t: u8) -> Option<usize> {
    match t {
        1 => Some(0),
        2 => Some(1),
        4 => Some(2),
        _ => None,
    }
}

/// Where a scan from `start` ends, and the errors it gives.
pub fn scan(toks: &[u8], start: usize) -> (usize, Vec<Er>) {
    let mut open: Vec<(usize, usize)> = vec![];
    let mut es = vec![];
    let mut p = start;
    loop {
        if p == toks.len() {
            while let Some((_, at)) = open.pop() {
                let mut e = Er::blank(LEFT, At::Location(p));
                e.found = toks[at] as u64 + 1;
                e.span2 = at..at + 1;
                es.push(e);
            }
            return (p, es);
        }
        let t = toks[p];
        let top = open.last().map(|x| x.0);
        if let (Some(k), true) = (right(t), top.is_some() && top == right(t)) {
            // The innermost one is closed.
            let _ = k;
            open.pop();
        } else if let Some(k) = left(t) {
            open.push((k, p));
        } else if let Some(k) = right(t) {
            if open.iter().any(|x| x.0 == k) {
                // Those inside it were never closed.
                loop {
                    let (j, at) = open.pop().unwrap();
                    if j == k {
                        break;
                    }
                    let mut e = Er::blank(LEFT, At::Span(p..p + 1));
                    e.found = toks[at] as u64 + 1;
                    e.span2 = at..at + 1;
                    es.push(e);
                }
            } else if let Some((_, at)) = open.pop() {
                let mut e = Er::blank(TYPE, At::Span(p..p + 1));
                e.found = toks[at] as u64 + 1;
                e.span2 = at..at + 1;
                e.tok2 = t as u64 + 1;
                es.push(e);
            } else {
                let mut e = Er::blank(RIGHT, At::None);
                e.found = t as u64 + 1;
                e.span2 = p..p + 1;
                es.push(e);
            }
        }
        if open.is_empty() {
            return (p, es);
        }
        p += 1;
    }
}
fn toks(max: usize) -> Input {
    let n = sx::concrete(sx::upto(max));
    // Six kinds of tokens: the delimiters and something else.
    Input::new((0..n).map(|_| sx::tok(5)).collect(), n)
}

/// The scan as a recovery strategy.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_scan() {
    let input = toks(7 + 2 * DEEP);
    let n = input.n;
    let skip = sx::flag();
    let p = filter::<u8, _, Er>(|_| false).map(|_| 0..0).map_err(|_| Er::child(1));
    let st = recovery::scan::<u8, _, _, _>(nested_delimiters(&PAIRS));
    let mut s = input.stream();
    let (at, mut want) = scan(&input.toks, 0);
    let (r, end) = if skip {
        let q = p.to_recover(st.skip().and_return_with_span(|sp: Range<usize>| sp));
        let r = q.parse_internal(&mut s, true);
        (r, (at + 1).min(n))
    } else {
        let q = p.to_recover(st.and_return_with_span(|sp: Range<usize>| sp));
        let r = q.parse_internal(&mut s, true);
        (r, at)
    };
    want.insert(0, Er::child(1));
    match &r {
        PR::Recovered(sp, es) => {
            check!((sp.start == 0) & (sp.end == end));
            check!(same_ers(es, &want));
            sx::observe(es.len() as u64);
        }
        _ => check!(false),
    }
    check!(s.index() == end);
    cover!();
    check!(input.check_rest(&mut s));
}
/// The recipe of the documentation: find the opening one, scan, skip; and the
/// strategy object is used twice, so nothing may be left over.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_recipe() {
    let input = toks(6 + DEEP);
    let n = input.n;
    let item = none_of::<u8, _, Er>([0, 1, 2, 3, 4]).map(|_| 0..0).map_err(|_| Er::child(1));
    let p = item.to_recover(
        recovery::find::<u8, _, _>(|t: &u8| left(*t).is_some()).scan(nested_delimiters(&PAIRS)).skip().and_return_with_span(|sp: Range<usize>| sp),
    );
    let mut s = input.stream();
    let mut pos = 0;
    for _ in 0..2 {
        if pos < n && input.toks[pos] == 5 {
            check!(p.parse_internal(&mut s, true) == PR::Success(0..0));
            pos += 1;
        } else {
            let mut at = pos;
            while at < n && left(input.toks[at]).is_none() {
                at += 1;
            }
            let (to, mut want) = scan(&input.toks, at);
            want.insert(0, Er::child(1));
            let to = (to + 1).min(n);
            let r = p.parse_internal(&mut s, true);
            match &r {
                PR::Recovered(sp, es) => {
                    check!((sp.start == pos) & (sp.end == to));
                    check!(same_ers(es, &want));
                }
                _ => check!(false),
            }
            pos = to;
        }
        check!(s.index() == pos);
        cover!();
    }
    sx::observe(pos as u64);
    check!(input.check_rest(&mut s));
}
/// The scanner on its own: deep nesting and long flat inputs over two kinds.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_deep() {
    let n = 8 + 2 * DEEP;
    let t: Vec<u8> = (0..n).map(|k| if k == 0 { 0 } else { sx::tok(4) }).collect();
    let (end, want) = scan(&t, 0);
    let mut sc = nested_delimiters::<u8, Range<usize>>(&PAIRS)();
    let mut es: Vec<Er> = vec![];
    let mut stopped = n;
    for p in 0..n {
        if Scanner::<'static, u8, Er>::scan(&mut sc, t[p], p..p + 1, &mut es) {
            stopped = p;
            break;
        }
    }
    if stopped == n {
        Scanner::<'static, u8, Er>::eof(&mut sc, n, &mut es);
    }
    check!(stopped == end);
    check!(same_ers(&es, &want));
    sx::observe(es.len() as u64);
    cover!();
}
/// Deep nesting: many are opened, then closed again, save for one token.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_many() {
    let d = 2 + sx::concrete(sx::upto(34 + 36 * DEEP));
    // Which kinds are opened: one, or two in turn.
    let two = sx::flag();
    let kind = |k: usize| if two && k % 2 == 1 { 3 } else { 0 };
    let mut t: Vec<u8> = (0..d).map(kind).collect();
    t.extend((0..d).rev().map(|k| kind(k) + 1));
    t.push(5);
    // The odd one out: among the first, in the middle, or among the last.
    let odd = match sx::concrete(sx::upto(4)) {
        0 => d - 1,
        1 => d,
        2 => d + d / 2,
        3 => 2 * d - 1,
        _ => 1,
    };
    t[odd] = sx::concrete(sx::upto(5)) as u8;
    let n = t.len();
    let input = Input::new(t, n);
    let p = filter::<u8, _, Er>(|_| false).map(|_| 0..0).map_err(|_| Er::child(1));
    let q = p.to_recover(recovery::scan::<u8, _, _, _>(nested_delimiters(&PAIRS)).and_return_with_span(|sp: Range<usize>| sp));
    let mut s = input.stream();
    let (at, mut want) = scan(&input.toks, 0);
    want.insert(0, Er::child(1));
    match &q.parse_internal(&mut s, true) {
        PR::Recovered(sp, es) => {
            check!((sp.start == 0) & (sp.end == at));
            check!(same_ers(es, &want));
        }
        _ => check!(false),
    }
    check!(s.index() == at);
    cover!();
    check!(input.check_rest(&mut s));
}
