//! Recovery strategies: where each step leaves the cursor, in which order the
//! steps take effect, what is returned.
//!
//! Every strategy of up to 2 (thorough: 3) steps out of all step kinds, with
//! `maybe` and `while_not` around every single step; inputs of 3 to 5 tokens of
//! two classes; failing parsers report any failure position including 0;
//! completion by value, by function, with span, or by giving up. Steps that go
//! far: inputs of 36 (72) tokens with the token looked for at any place or
//! nowhere.
use crate::ast::*;
use crate::model::*;
use crate::sx;

const DEEP: usize = cfg!(feature = "deep") as usize;
const C: Cfg = Cfg { maxlen: 1, minlen: 0, maxidx: 2, lookahead: 1, zero: true, ..Cfg::BASE };

/// A step that does not go back (what `while_not` may repeat).
fn forward() -> Step {
    match sx::concrete(sx::upto(7)) {
        0 => Step::Skip,
        1 => Step::SkipIf(1),
        2 => Step::Retry(false, false),
        3 => Step::Retry(true, false),
        4 => Step::Parse(8, false, false),
        5 => Step::Parse(8, true, false),
        6 => Step::Nothing,
        _ => Step::Maybe(vec![Step::Skip, Step::Retry(true, true)]),
    }
}
fn any() -> Step {
    match sx::concrete(sx::upto(11)) {
        0 => Step::Restart,
        1 => Step::Seek,
        2 => Step::Skip,
        3 => Step::SkipIf(1 + sx::concrete(sx::upto(1)) as u64),
        4 => Step::Find(1 + sx::concrete(sx::upto(1)) as u64),
        5 => Step::Retry(sx::flag(), sx::flag()),
        6 => Step::Parse(8, sx::flag(), sx::flag()),
        7 => Step::Nothing,
        8 => Step::Scan(1),
        9 => Step::Maybe(vec![forward()]),
        10 => Step::Maybe(vec![forward(), Step::Seek]),
        _ => Step::WhileNot(1, vec![forward()]),
    }
}
fn fin() -> Fin {
    match sx::concrete(sx::upto(3)) {
        0 => Fin::Return(21),
        1 => Fin::With(22),
        2 => Fin::WithSpan(23),
        _ => Fin::Fail,
    }
}
fn go(n: usize, cfg: Cfg, item: P, steps: Vec<Step>, fin: Fin) {
    let input = Input::new((0..n).map(|_| sx::tok(1)).collect(), n);
    let w = World::new(cfg, &input);
    cover!();
    // Where the parser itself matches, recovery has no say (see C04).
    decide_in(&w, &input, P::Recover(b(item), steps, fin), sx::upto(1), sx::upto(3) != 0);
}

/// One step, all completions.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_one() {
    let a = any();
    go(3 + DEEP, C, s(1), vec![a], fin());
}
/// Two steps.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_two() {
    let a = any();
    let c = any();
    go(3 + DEEP, Cfg { minlen: 1, maxidx: 1 + DEEP, ..C }, s(1), vec![a, c], Fin::WithSpan(23));
}
/// Steps that only move: long sequences of them.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_moves() {
    let mut v = vec![];
    for _ in 0..3 + DEEP {
        v.push(match sx::concrete(sx::upto(6)) {
            0 => Step::Restart,
            1 => Step::Seek,
            2 => Step::Skip,
            3 => Step::SkipIf(1),
            4 => Step::Find(1),
            5 => Step::Maybe(vec![Step::Skip, Step::Skip]),
            _ => Step::WhileNot(1, vec![]),
        });
    }
    go(5, Cfg { recover: false, maxidx: 3, ..C }, s(1), v, Fin::WithSpan(23));
}
/// Retrying and parsing something else: what a failed attempt leaves behind,
/// and where it failed.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_attempts() {
    let mut v = vec![];
    for _ in 0..2 {
        match sx::concrete(sx::upto(3)) {
            0 => v.push(Step::Skip),
            1 => v.push(Step::Find(1)),
            2 => v.push(Step::Restart),
            _ => {}
        }
        v.push(if sx::flag() { Step::Retry(sx::flag(), false) } else { Step::Parse(8, sx::flag(), false) });
        if sx::flag() {
            v.push(Step::Seek);
        }
    }
    go(3 + DEEP, Cfg { minlen: 1, maxidx: 1, ..C }, s(1), v, Fin::WithSpan(23));
}
/// Skip-then-retry around a sequence, which can fail in its middle.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_skip_then_retry() {
    let mut v = vec![];
    if sx::flag() {
        v.push(Step::Skip);
    }
    let mut inner = vec![];
    if sx::flag() {
        inner.push(Step::Skip);
    }
    inner.push(Step::Retry(sx::flag(), sx::flag()));
    v.push(Step::WhileNot(1, inner));
    if sx::flag() {
        v.push(Step::Skip);
    }
    let f = if sx::flag() { Fin::WithSpan(7) } else { Fin::Fail };
    go(4 + DEEP, Cfg { minlen: 1, maxidx: 0, ..C }, P::Then(b(s(1)), b(s(2))), v, f);
}
/// Three steps in any order (thorough only in full).
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_three() {
    let mut v = vec![];
    for _ in 0..3 {
        v.push(match sx::concrete(sx::upto(3 + 2 * DEEP)) {
            0 => Step::Retry(true, false),
            1 => Step::Find(1),
            2 => Step::Skip,
            3 => Step::Maybe(vec![Step::Parse(8, true, false)]),
            4 => Step::WhileNot(1, vec![Step::Retry(true, true)]),
            _ => Step::Restart,
        });
    }
    go(3, Cfg { minlen: 1, maxidx: 1, ..C }, s(1), v, Fin::Return(4));
}
/// Steps that go far: the token they look for is anywhere or nowhere, and so
/// is the place where the parser matches after all.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_far() {
    let n = 36 + 36 * DEEP;
    let at = sx::concrete(sx::upto(n));
    let v = match sx::concrete(sx::upto(6)) {
        0 => vec![Step::Find(2)],
        1 => vec![Step::WhileNot(2, vec![]), Step::Skip],
        2 => vec![Step::Scan(2), Step::Restart, Step::Find(2)],
        3 => vec![Step::WhileNot(2, vec![Step::Maybe(vec![Step::Skip, Step::Seek])])],
        4 => vec![Step::Find(2), Step::Retry(sx::flag(), sx::flag())],
        5 => vec![Step::Skip, Step::WhileNot(2, vec![Step::Retry(sx::flag(), sx::flag())])],
        _ => (0..n - 2).map(|_| Step::SkipIf(1)).collect(),
    };
    // The parser can match at the place itself or a little before it.
    let spot = at.saturating_sub(sx::concrete(sx::upto(1))).min(n - 1);
    cover!();
    let toks = (0..n).map(|x| (x == at) as u8).collect();
    let input = Input::new(toks, n);
    let w = World::new(Cfg { only: Some((spot, Else::Fail)), minlen: 1, ..C }, &input);
    decide_in(&w, &input, P::Recover(b(s(1)), v, Fin::WithSpan(23)), 0, true);
}
