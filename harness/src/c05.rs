//! Concatenation: then, then_ignore, ignore_then, delimited_by, padded_by,
//! chain.
//!
//! Parts that match 0 to 2 tokens, fail at any position within 2, or recover,
//! with 1 or 2 errors, on inputs of 4 tokens from any start (chain: up to 4
//! parts, and 2 to 36 (thorough: 72) of which any one can do anything).
use crate::model::*;
use crate::sx;
use crate::ast::{self, P};
use ppoc::parser::{Parser, Result as PR};

/// Specification of running the children one after the other.
fn seq(w: &World, ids: &[u64], start: usize, recovery: bool) -> Res<Vec<u64>> {
    let mut pos = start;
    let mut outs = vec![];
    let mut errs: Vec<Er> = vec![];
    let mut recovered = false;
    for id in ids {
        let r = w.result(*id, pos, recovery);
        match r.r {
            PR::Success(o) => outs.push(o),
            PR::Recovered(o, es) => {
                outs.push(o);
                errs.extend(es);
                recovered = true;
            }
            PR::Failed(i, es) => return Res { end: start, r: PR::Failed(i, es) },
        }
        pos = r.end;
    }
    Res { end: pos, r: if recovered { PR::Recovered(outs, errs) } else { PR::Success(outs) } }
}

fn drive<P, O>(n: usize, cfg: Cfg, build: impl Fn(&std::rc::Rc<World>) -> P, ids: &[u64], view: impl Fn(O) -> Vec<u64>, pick: &[usize])
where
    P: Parser<'static, u8, Output = O, Error = Er>,
{
    let input = Input::positions(n);
    let w = World::new(cfg, &input);
    let p = build(&w);
    let mut s = input.stream();
    let start = sx::upto(1);
    for _ in 0..start {
        s.advance();
    }
    let start = s.index();
    let recovery = sx::flag();
    let got = p.parse_internal(&mut s, recovery).map(view);
    let end = s.index();
    let want = seq(&w, ids, start, recovery);
    let wr = want.r.map(|v| pick.iter().map(|k| v[*k]).collect::<Vec<u64>>());
    check!(same_result(&got, &wr, vec_eq));
    check!(end == want.end);
    check!(!w.broken.get());
    match kind(&got) {
        0 => cover!(),
        1 => cover!(),
        _ => cover!(),
    }
    observe(&got, end, |v| v.iter().fold(7, |a, x| a * 31 + x));
    check!(input.check_rest(&mut s));
}

const CFG2: Cfg = Cfg { maxerr: 2, ..Cfg::BASE };

#[no_mangle]
pub extern "C" fn h_then() {
    drive(4, CFG2, |w| sym(w, 1).then(sym(w, 2)), &[1, 2], |(a, b)| vec![a, b], &[0, 1]);
}
#[no_mangle]
pub extern "C" fn h_then_ignore() {
    drive(4, CFG2, |w| sym(w, 1).then_ignore(sym(w, 2)), &[1, 2], |a| vec![a], &[0]);
}
#[no_mangle]
pub extern "C" fn h_ignore_then() {
    drive(4, CFG2, |w| sym(w, 1).ignore_then(sym(w, 2)), &[1, 2], |b| vec![b], &[1]);
}
#[no_mangle]
pub extern "C" fn h_delimited_by() {
    drive(4, Cfg::BASE, |w| sym(w, 2).delimited_by(sym(w, 1), sym(w, 3)), &[1, 2, 3], |b| vec![b], &[1]);
}
#[no_mangle]
pub extern "C" fn h_padded_by() {
    drive(4, Cfg::BASE, |w| sym(w, 2).padded_by(sym(w, 1)), &[1, 2, 1], |b| vec![b], &[1]);
}
#[no_mangle]
pub extern "C" fn h_chain2() {
    drive(4, CFG2, |w| sym(w, 1).chain(sym(w, 2)), &[1, 2], |v| v, &[0, 1]);
}
#[no_mangle]
pub extern "C" fn h_chain3() {
    drive(4, Cfg::BASE, |w| sym(w, 1).chain(sym(w, 2)).and(sym(w, 3)), &[1, 2, 3], |v| v, &[0, 1, 2]);
}
#[no_mangle]
pub extern "C" fn h_chain4() {
    drive(
        4,
        Cfg { maxlen: 1, maxidx: 1, ..Cfg::BASE },
        |w| sym(w, 1).chain(sym(w, 2)).and(sym(w, 3)).and(sym(w, 4)),
        &[1, 2, 3, 4],
        |v| v,
        &[0, 1, 2, 3],
    );
}
/// Long chains: every part matches one token, except that any one of them may
/// do anything.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_chain_long() {
    let n = 36 + 36 * cfg!(feature = "deep") as usize;
    let k = 2 + sx::concrete(sx::upto(n - 2));
    let at = if sx::flag() { sx::concrete(sx::upto(k - 1)) } else { n };
    cover!();
    let cfg = Cfg { minlen: 1, maxlen: 1, maxerr: 2, only: Some((at, Else::Match)), ..Cfg::BASE };
    let input = Input::positions(n);
    let w = World::new(cfg, &input);
    ast::decide_in(&w, &input, P::Chain((0..k).map(|x| ast::s(x as u64 + 1)).collect()), 0, sx::flag());
}
