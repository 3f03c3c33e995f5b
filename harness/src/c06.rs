//! Ordered choice: or, alters, or_not.
//!
//! 2 to 4 alternatives that match 0 to 2 tokens, fail at any position within 2,
//! or recover, with 1 or 2 errors, on inputs of 3 or 4 tokens; errors that may be
//! expected-token errors with symbolic sets and positions for 2 and 3
//! alternatives, and failures with 1 to 12 errors for 2; 40 (thorough: 56) alternatives in 5 groups that fail at the
//! first or second token and in 3 groups that can recover or not, any one of which may match instead.
use crate::ast::*;
use crate::model::*;
use crate::sx;

const MERGE: Cfg = Cfg { maxlen: 1, maxerr: 2, merge: true, recover: false, maxidx: 1, lookahead: 1, ..Cfg::BASE };

// @sx shards=4
#[no_mangle]
pub extern "C" fn h_or() {
    decide(4, Cfg { maxerr: 2, ..Cfg::BASE }, P::Or(b(s(1)), b(s(2))));
}
// @sx shards=4
#[no_mangle]
pub extern "C" fn h_alters2() {
    decide(4, Cfg { maxerr: 2, ..Cfg::BASE }, P::Alters(vec![s(1), s(2)]));
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_alters3() {
    decide(3, Cfg::BASE, P::Alters(vec![s(1), s(2), s(3)]));
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_or_or() {
    decide(3, Cfg::BASE, P::Or(b(P::Or(b(s(1)), b(s(2)))), b(s(3))));
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_alters4() {
    decide(3, Cfg { maxlen: 1, maxidx: 1, ..Cfg::BASE }, P::Alters(vec![s(1), s(2), s(3), s(4)]));
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_or_merge() {
    decide(3, MERGE, P::Or(b(s(1)), b(s(2))));
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_alters_merge() {
    decide(2, Cfg { maxerr: 1, ..MERGE }, P::Alters(vec![s(1), s(2), s(3)]));
}
#[no_mangle]
pub extern "C" fn h_or_not() {
    decide(4, Cfg { maxerr: 2, ..Cfg::BASE }, P::OrNot(b(s(1))));
}

/// Many alternatives: the order among equals must survive; one of them may
/// match.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_alters_many() {
    let many = 40 + 16 * cfg!(feature = "deep") as u64;
    let input = Input::positions(3);
    let w = World::new(Cfg { recover: true, ..Cfg::BASE }, &input);
    let at: Vec<usize> = (0..5).map(|_| sx::concrete(sx::upto(1))).collect();
    let rec: Vec<bool> = (0..3).map(|_| sx::flag()).collect();
    let win = if sx::flag() { sx::concrete(sx::upto(many as usize)) as u64 } else { 0 };
    for id in 1..=many {
        let o = Outcome {
            ok: id == win,
            len: 0,
            idx: at[id as usize % 5],
            errs: vec![Er::child(tag(id, 0, false, 0))],
            rec: if rec[id as usize % 3] { Some((1, vec![Er::child(tag(id, 0, true, 0))])) } else { None },
            out: tag(id, 0, false, 0),
        };
        w.memo.borrow_mut().push(((id, 0), std::rc::Rc::new(o)));
    }
    cover!();
    decide_in(&w, &input, P::Alters((1..=many).map(s).collect()), 0, sx::flag());
}
/// Long lists of errors.
// @sx shards=4
#[no_mangle]
pub extern "C" fn h_or_errors() {
    let cfg = Cfg { maxlen: 1, maxidx: 1, maxerr: 12, recover: false, lookahead: 0, ..Cfg::BASE };
    decide(1, cfg, if sx::flag() { P::Or(b(s(1)), b(s(2))) } else { P::Alters(vec![s(1), s(2)]) });
}
