//! Error accounting while recovering: the list starts with what the parser
//! reported, every step adds exactly what it says in order, silent attempts
//! add nothing, updaters see the whole list with the right place and token.
//!
//! Strategies of up to 3 steps; inputs of 2 to 4 tokens of two classes; one or
//! two errors per failure.
use crate::ast::*;
use crate::model::*;
use crate::sx;

const DEEP: usize = cfg!(feature = "deep") as usize;
const C: Cfg = Cfg { maxlen: 1, minlen: 1, maxidx: 1, lookahead: 0, zero: true, ..Cfg::BASE };

fn say(t: u64) -> Step {
    match sx::concrete(sx::upto(7)) {
        0 => Step::Push(t),
        1 => Step::PushHere(t),
        2 => Step::PushUpTo(t),
        3 => Step::PushToken(t),
        4 => Step::Upd(t),
        5 => Step::UpdHere(t),
        6 => Step::UpdUpTo(t),
        _ => Step::UpdToken(t),
    }
}
fn mv() -> Step {
    match sx::concrete(sx::upto(7)) {
        0 => Step::Nothing,
        1 => Step::Skip,
        2 => Step::Find(1),
        3 => Step::Retry(sx::flag(), sx::flag()),
        4 => Step::Parse(8, sx::flag(), sx::flag()),
        5 => Step::Scan(1),
        6 => Step::Seek,
        _ => Step::Restart,
    }
}
fn fin() -> Fin {
    if sx::flag() {
        Fin::Return(21)
    } else {
        Fin::Fail
    }
}
fn go(n: usize, cfg: Cfg, item: P, steps: Vec<Step>, fin: Fin) {
    let input = Input::new((0..n).map(|_| sx::tok(1)).collect(), n);
    let w = World::new(cfg, &input);
    cover!();
    decide_in(&w, &input, P::Recover(b(item), steps, fin), sx::upto(1), true);
}
/// Move, comment.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_comment() {
    let m = mv();
    let e = say(31);
    go(3, Cfg { maxerr: 2, ..C }, s(1), vec![m, e], fin());
}
/// Comment, move, comment.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_comment_twice() {
    let a = say(31);
    let m = mv();
    let c = say(32);
    go(2 + DEEP, C, s(1), vec![a, m, c], Fin::Return(21));
}
/// Attempts one after the other, loud and silent, exact or not.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_attempts() {
    let k = 2 + DEEP;
    let mut v = vec![];
    for _ in 0..k {
        v.push(if sx::flag() { Step::Retry(sx::flag(), sx::flag()) } else { Step::Parse(8, sx::flag(), sx::flag()) });
        v.push(if sx::flag() { Step::Skip } else { Step::Nothing });
    }
    go(3, Cfg { maxerr: 2, maxidx: 0, ..C }, s(1), v, fin());
}
/// The same inside `maybe` and `while_not`: errors stay although the position
/// is given up.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_nested() {
    let inner = vec![say(31), if sx::flag() { Step::Retry(sx::flag(), sx::flag()) } else { Step::Skip }];
    let st = if sx::flag() { Step::Maybe(inner) } else { Step::WhileNot(1, inner) };
    go(3, Cfg { maxidx: 0, ..C }, s(1), vec![st, Step::PushUpTo(33)], fin());
}
/// Scanners: every token once, in order, with its own span; end of input once.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_scan() {
    let pre = match sx::concrete(sx::upto(2)) {
        0 => Step::Nothing,
        1 => Step::Skip,
        _ => Step::Seek,
    };
    let mut v = vec![pre, Step::Scan(1)];
    if sx::flag() {
        v.push(Step::Skip);
        v.push(Step::Scan(sx::concrete(sx::upto(3)) as u64));
    }
    go(4 + DEEP, Cfg { recover: false, ..C }, s(1), v, fin());
}
/// Recovering inside a sequence and inside a repetition: the errors of the
/// parts, in input order.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_inside() {
    let n = sx::flag();
    let r = |id: u64, t: u64| P::Recover(b(s(id)), vec![Step::PushUpTo(t)], Fin::Return(t));
    let p = match sx::concrete(sx::upto(3)) {
        0 => P::Then(b(r(1, 31)), b(r(2, 32))),
        1 => P::Chain(vec![s(1), r(2, 31), s(3), r(4, 32)]),
        2 => P::Rep(b(r(1, 31)), Some(b(r(2, 32))), Rep { min: 2, max: Some(2 + n as usize), lead: n, trail: n, via: 0 }),
        _ => P::Recover(b(P::Or(b(P::Then(b(r(1, 31)), b(s(3)))), b(s(2)))), vec![Step::PushHere(33)], Fin::Fail),
    };
    let input = Input::positions(3);
    let w = World::new(Cfg { maxerr: 2, zero: false, ..C }, &input);
    cover!();
    decide_in(&w, &input, p, 0, sx::flag());
}
