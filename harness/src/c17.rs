//! Arbitrary compositions against the compositional reading of each
//! combinator: result, output, errors and cursor are exactly those of the
//! parts put together.
//!
//! Every nesting of two combinators out of 19 in every argument place (quick:
//! inputs of 3 tokens, children that match exactly one token, fail or recover;
//! thorough: matches of 0 or 1 tokens), every nesting of three out of 4
//! (7) on 3 tokens without recovering children, and out of 3 (4) on 2 tokens
//! with them; nested alternatives with symbolic expected sets.
use crate::ast::*;
use crate::model::*;
use crate::sx;

const DEEP: usize = cfg!(feature = "deep") as usize;

fn go(n: usize, cfg: Cfg, p: P) {
    let input = Input::new((0..n).map(|_| sx::tok(1)).collect(), n);
    let w = World::new(cfg, &input);
    cover!();
    decide_in(&w, &input, p, sx::upto(1), sx::flag());
}
const C: Cfg = Cfg { maxlen: 1, minlen: 1, maxidx: 0, lookahead: 0, ..Cfg::BASE };

// @sx shards=8
#[no_mangle]
pub extern "C" fn h_two() {
    let p = spine(2, OPS, &mut 0);
    go(3, Cfg { minlen: 1 - DEEP, ..C }, p);
}
/// Failure positions matter to alternation and to recovery.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_two_deep_failures() {
    let p = spine(2, 8, &mut 0);
    go(2 + DEEP, Cfg { maxidx: 1, ..C }, p);
}
/// Expected sets combine through nested alternatives.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_two_expected() {
    let k = [1, 11, 1, 0, 2][sx::concrete(sx::upto(2 + DEEP))];
    let l = [1, 11, 0, 5][sx::concrete(sx::upto(2 + DEEP))];
    let mut i = 0;
    let mut id = 0;
    let p = op(k, &mut || {
        i += 1;
        if i == 1 {
            op(l, &mut || {
                id += 1;
                s(id)
            })
        } else {
            id += 1;
            s(id)
        }
    });
    go(2, Cfg { merge: true, recover: false, ..C }, p);
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_three() {
    let p = spine(3, if DEEP == 1 { 7 } else { 4 }, &mut 0);
    go(3, Cfg { recover: false, ..C }, p);
}
/// Three levels with recovering children.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_three_recovering() {
    let p = spine(3, 3 + DEEP, &mut 0);
    go(2, C, p);
}
