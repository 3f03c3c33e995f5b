//! Recovery only turns failures into results with errors: the same parser on
//! the same input, with and without recovery.
//!
//! As in C03: every combinator, every nesting of two of them, inputs of 3 or 4
//! tokens. Sequences and repetitions of up to 5 (thorough: 7) parts of which
//! any may recover, with 1 or 2 errors each, or of 36 (72) parts of which all
//! recover but one, which may do anything: exactly those errors are reported.
use crate::ast::*;
use crate::model::*;
use crate::sx;
use ppoc::parser::{Parser, Result as PR};

const DEEP: usize = cfg!(feature = "deep") as usize;

fn go(n: usize, cfg: Cfg, p: P) {
    let input = Input::new((0..n).map(|_| sx::tok(1)).collect(), n);
    let w = World::new(cfg, &input);
    let start = sx::upto(1);
    let (off, off_end, rest) = run(&w, &input, &p, start, false);
    check!(rest);
    let again = Input::new(input.toks.to_vec(), input.n);
    let (on, on_end, rest) = run(&w, &again, &p, start, true);
    check!(rest);
    check!(!w.broken.get());
    match (&off, &on) {
        (PR::Success(a), PR::Success(b)) => {
            check!((a == b) & (off_end == on_end));
            cover!();
        }
        (PR::Failed(_, es), PR::Recovered(_, fs)) => {
            check!(!es.is_empty() & !fs.is_empty());
            check!(off_end == start);
            cover!();
        }
        (PR::Failed(_, es), PR::Failed(_, fs)) => {
            check!(!es.is_empty() & !fs.is_empty());
            check!((off_end == start) & (on_end == start));
            cover!();
        }
        // Anything else: recovered although that was off, or a success that
        // depends on the switch.
        _ => check!(false),
    }
    observe(&on, on_end, |v| *v);
}
const C: Cfg = Cfg { maxlen: 1, minlen: 0, maxidx: 1, lookahead: 0, ..Cfg::BASE };

// @sx shards=8
#[no_mangle]
pub extern "C" fn h_one() {
    let p = spine(1, OPS, &mut 0);
    go(4, C, p);
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_two() {
    let p = spine(2, OPS, &mut 0);
    go(3, Cfg { minlen: 1, maxidx: 0, ..C }, p);
}
/// Many parts, each of which may need recovery: all of it is reported.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_lists() {
    let long = 5 + 2 * DEEP;
    let p = match sx::concrete(sx::upto(5)) {
        0 => P::Rep(b(s(1)), None, Rep { min: long, max: None, lead: false, trail: false, via: 0 }),
        1 => P::Rep(b(s(1)), None, Rep { min: 2, max: Some(long), lead: false, trail: false, via: 0 }),
        2 => P::Rep(b(s(1)), Some(b(s(2))), Rep { min: long / 2 + 1, max: None, lead: true, trail: true, via: 1 }),
        3 => P::Chain((1..=long as u64).map(s).collect()),
        4 => P::Delim(b(P::Then(b(s(1)), b(s(2)))), b(s(3)), b(P::Then(b(s(4)), b(s(5))))),
        _ => P::Pad(b(P::Rep(b(s(1)), None, Rep { min: 2, max: Some(2), lead: false, trail: false, via: 0 })), b(s(2))),
    };
    let input = Input::positions(long);
    let w = World::new(Cfg { minlen: 1, maxerr: 2, ..C }, &input);
    cover!();
    decide_in(&w, &input, p, 0, true);
}
/// Very many errors.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_many() {
    let long = 36 + 36 * DEEP;
    let at = sx::concrete(sx::upto(long));
    let p = match sx::concrete(sx::upto(2)) {
        0 => P::Rep(b(s(1)), None, Rep { min: long - 2, max: None, lead: false, trail: false, via: 0 }),
        1 => P::Rep(b(s(1)), Some(b(s(2))), Rep { min: long / 2, max: None, lead: false, trail: true, via: 1 }),
        _ => P::Chain((1..=long as u64).map(s).collect()),
    };
    let input = Input::positions(long);
    let w = World::new(Cfg { minlen: 1, only: Some((at, Else::Recover)), ..C }, &input);
    cover!();
    decide_in(&w, &input, p, 0, true);
}
