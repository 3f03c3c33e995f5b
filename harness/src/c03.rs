//! The cursor contract, for every combinator around any well-behaved child,
//! for every nesting of two (thorough: three) combinators, and for parsers on
//! tokens.
//!
//! Inputs of 4 tokens (0/1 valued where strategies look at them); children
//! match, fail or recover in any way within 1 token.
use crate::ast::*;
use crate::model::*;
use crate::sx;
use ppoc::parser::{Parser, Result as PR};

const DEEP: usize = cfg!(feature = "deep") as usize;

pub fn contract(input: &Input, start: usize, got: &PR<u64, Er>, end: usize) {
    match got {
        PR::Success(_) => check!((end >= start) & (end <= input.n)),
        PR::Recovered(_, es) => {
            check!((end >= start) & (end <= input.n));
            check!(!es.is_empty());
        }
        PR::Failed(i, es) => {
            check!(end == start);
            check!((*i >= start) & (*i <= input.n));
            check!(!es.is_empty());
        }
    }
}
fn go(n: usize, cfg: Cfg, p: P) {
    let input = Input::new((0..n).map(|_| sx::tok(1)).collect(), n);
    let w = World::new(cfg, &input);
    let start = sx::upto(1);
    let (got, end, rest) = run(&w, &input, &p, start, sx::flag());
    contract(&input, start, &got, end);
    check!(!w.broken.get());
    check!(rest);
    match kind(&got) {
        0 => cover!(),
        1 => cover!(),
        _ => cover!(),
    }
    observe(&got, end, |v| *v);
}
const C: Cfg = Cfg { maxlen: 1, minlen: 0, maxidx: 1, lookahead: 1, ..Cfg::BASE };

/// One combinator.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_one() {
    let p = spine(1, OPS, &mut 0);
    go(4, C, p);
}
/// One combinator, children that match up to two tokens.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_one_wide() {
    let p = spine(1, OPS, &mut 0);
    go(5, Cfg { maxlen: 2, maxidx: 0, lookahead: 2, minlen: 1, ..C }, p);
}
/// Two combinators.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_two() {
    let p = spine(2, OPS, &mut 0);
    go(3, Cfg { minlen: 1, maxidx: 0, lookahead: 0, ..C }, p);
}
