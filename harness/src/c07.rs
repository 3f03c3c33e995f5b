//! Repetition: repeated, separated_by, with_separator, at_least, at_most,
//! exactly, allow_leading, allow_trailing; symbolic bounds and flags, symbolic
//! items and separators.
//!
//! Minimum 0 to 3, maximum up to 2 more or none, on inputs of 5 (thorough: 6)
//! tokens; items of 0 to 2 tokens, separators of 0 to 2; long runs of single
//! tokens on inputs of up to 9 (11) with limits up to 4 to 6, and with
//! recovery on inputs of 7 (8) with minimums of 3 to 7; minimums of 100 up to
//! any number on inputs of 2 (3); 40 (72) items and 20 (36)
//! separated ones, of which any one can do anything, with limits around 16, 32
//! (and 64).
use crate::ast::*;
use crate::model::*;
use crate::sx;

fn go(n: usize, cfg: Cfg, item: P, sep: Option<P>, max_min: usize, extra: usize, unlimited: bool) {
    let min = sx::upto(max_min);
    let max = if unlimited && sx::flag() { None } else { Some(min.max(1) + sx::upto(extra)) };
    let (lead, trail) = if sep.is_some() { (sx::flag(), sx::flag()) } else { (false, false) };
    let via = sx::upto(if sep.is_some() { 2 } else { 1 });
    match (min, max) {
        (_, None) => cover!(),
        (0, _) => cover!(),
        (a, Some(b)) if a == b => cover!(),
        _ => cover!(),
    }
    decide(n, cfg, P::Rep(b(item), sep.map(b), Rep { min, max, lead, trail, via }));
}
const ONE: Cfg = Cfg { minlen: 1, maxlen: 1, maxidx: 1, lookahead: 0, ..Cfg::BASE };
const DEEP: usize = cfg!(feature = "deep") as usize;

/// Items of one or two tokens.
// @sx shards=4
#[no_mangle]
pub extern "C" fn h_repeated() {
    go(5 + DEEP, Cfg { minlen: 1, maxlen: 2, maxidx: 1, ..Cfg::BASE }, s(1), None, 3, 2, true);
}
/// Items that may match nothing (only bounded repetition makes sense then).
// @sx shards=4
#[no_mangle]
pub extern "C" fn h_repeated_empty() {
    go(3 + DEEP, Cfg { maxlen: 1, maxidx: 1, ..Cfg::BASE }, s(1), None, 2, 2, false);
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_separated() {
    go(5 + DEEP, ONE, s(1), Some(s(2)), 2, 1, true);
}
/// Separators that may match nothing, items of up to two tokens.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_separated_wide() {
    go(4 + DEEP, Cfg { maxlen: 2, empty: 1 << 2, ..ONE }, s(1), Some(s(2)), 2, 1, true);
}
/// Several errors per failure.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_separated_errors() {
    go(3 + DEEP, Cfg { maxerr: 2, ..ONE }, s(1), Some(s(2)), 2, 1, true);
}
/// Long repetitions without recovery.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_separated_long() {
    go(9 + 2 * DEEP, Cfg { recover: false, maxidx: 0, ..ONE }, s(1), Some(s(2)), 4, 2, true);
}
/// Long repetitions with recovery.
// @sx shards=4
#[no_mangle]
pub extern "C" fn h_repeated_recovering() {
    let min = 3 + sx::concrete(sx::upto(4));
    decide(7 + DEEP, Cfg { maxidx: 0, ..ONE }, P::Rep(b(s(1)), None, Rep { min, max: None, lead: false, trail: false, via: 0 }));
}
/// Minimums that no input reaches.
// @sx shards=2
#[no_mangle]
pub extern "C" fn h_unreachable() {
    let more = sx::var(u64::MAX >> 1) as usize;
    // Multiples and roundings of sizes, and any other number.
    let min = match sx::concrete(sx::upto(4)) {
        0 => usize::MAX,
        1 => isize::MAX as usize,
        2 => isize::MAX as usize / 8 + 1,
        3 => usize::MAX - more,
        _ => 100 + more,
    };
    let max = if sx::flag() { Some(min) } else { None };
    let sep = if sx::flag() { Some(b(s(2))) } else { None };
    let trail = sep.is_some() && sx::flag();
    cover!();
    decide(2 + DEEP, ONE, P::Rep(b(s(1)), sep, Rep { min, max, lead: false, trail, via: 0 }));
}
/// Many items, one of which (or one separator) may do anything.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_many() {
    let n = 40 + 32 * DEEP;
    let at = sx::concrete(sx::upto(n));
    let sep = if sx::flag() { Some(b(s(2))) } else { None };
    let most = if sep.is_some() { n / 2 } else { n };
    let (min, max) = match sx::concrete(sx::upto(3)) {
        0 => (0, None),
        1 => (most - 4, Some(most - 3)),
        2 => (most - 8, Some(most - 8)),
        _ => (17, None),
    };
    let trail = sep.is_some() && sx::flag();
    cover!();
    let cfg = Cfg { only: Some((at, Else::Match)), ..ONE };
    let input = Input::positions(n);
    let w = World::new(cfg, &input);
    decide_in(&w, &input, P::Rep(b(s(1)), sep, Rep { min, max, lead: false, trail, via: 0 }), 0, sx::flag());
}
