//! Recursive definitions against the same definitions unfolded by hand, deep
//! enough for the input.
//!
//! 10 self-recursive and 3 mutually recursive definitions; inputs of 0 to 5
//! (thorough: 6) symbolic tokens out of 4, or 3 (4) tokens with symbolic
//! children that match one token, fail or recover; every copy (made before or
//! after completing the definition, boxed or not), recovery on and off, two
//! start positions. Recursion 36 (72) deep on concrete
//! tokens with any one of the first, middle or last three symbolic. Defining twice and using without a
//! definition must panic.
use crate::model::*;
use crate::sx;
use ppoc::combinator::{Boxed, TryMapResult};
use ppoc::parser::{Parser, Result as PR};
use ppoc::primitive::*;
use ppoc::recovery::{self, IncompleteStrategy};
use ppoc::recursive::{recursive, Recursive};
use std::rc::Rc;

const DEEP: usize = cfg!(feature = "deep") as usize;
type BP = Boxed<'static, u8, u64, Er>;
type R = Recursive<'static, u8, u64, Er>;

fn mix(a: u64, b: u64) -> u64 {
    (a << 7) ^ (a >> 57) ^ (b + 1)
}
fn mixv(v: Vec<u64>) -> u64 {
    v.into_iter().fold(3, mix)
}
fn j(t: u8) -> BP {
    just::<u8, Er>(t).map(|t| t as u64 + 1).boxed()
}
fn pair(p: impl Parser<'static, u8, Output = (u64, u64), Error = Er> + 'static) -> BP {
    p.map(|(a, b)| mix(a, b)).boxed()
}
fn many(p: impl Parser<'static, u8, Output = Vec<u64>, Error = Er> + 'static) -> BP {
    p.map(mixv).boxed()
}
/// Must not be reached: the unfolding is deep enough.
struct Bottom;
impl Parser<'static, u8> for Bottom {
    type Output = u64;
    type Error = Er;
    fn parse_internal(&self, s: &mut ppoc::stream::Stream<'static, u8, ppoc::location::Simple>, _: bool) -> PR<u64, Er> {
        check!(false);
        PR::Failed(s.index(), vec![Er::child(0)])
    }
}
const PAIRS: [(u8, u8); 1] = [(0, 1)];
const BODIES: usize = 10;
/// Tokens: 0 and 1 are parentheses, 2 is an atom, 3 a comma.
fn body(k: usize, w: &Rc<World>, r: BP) -> BP {
    match k {
        0 => r.delimited_by(j(0), j(1)).or(j(2)).boxed(),
        1 => many(r.separated_by(j(3))).delimited_by(j(0), j(1)).or(j(2)).boxed(),
        2 => pair(j(2).then(r)).or(Parser::<'static, u8>::map(empty::<u8, Er>(), |_| 7u64).boxed()).boxed(),
        3 => r
            .delimited_by(j(0), j(1))
            .to_recover(recovery::scan(ppoc::scanner::nested_delimiters(&PAIRS)).skip().and_return(50))
            .or(j(2))
            .boxed(),
        4 => many(r.repeated()).delimited_by(j(0), j(1)).or(j(2)).or(j(3)).boxed(),
        5 => pair(j(0).then(r.or_not().map(|o: Option<u64>| o.unwrap_or(9))))
            .to_recover(recovery::find(|t: &u8| *t == 0).retry().or_fail())
            .boxed(),
        6 => pair(j(2).or(j(3)).map_with_span(|a, s| mix(mix(a, s.start as u64), s.end as u64)).then(r.or_not().map(|o: Option<u64>| o.unwrap_or(9))))
            .try_map(|a, s| if (s.end - s.start) % 2 == 1 { TryMapResult::Ok(a) } else { TryMapResult::Recovered(a, vec![Er::child(99)]) })
            .boxed(),
        7 => pair(r.clone().delimited_by(j(0), j(1)).then(r.or_not().map(|o: Option<u64>| o.unwrap_or(9)))).or(j(2)).boxed(),
        8 => pair(sym(w, 1).then(r)).or(sym(w, 2)).boxed(),
        _ => pair(sym(w, 1).then(many(r.repeated().at_most(2)))).boxed(),
    }
}
fn unfold(k: usize, w: &Rc<World>, depth: usize) -> BP {
    if depth == 0 {
        return Bottom.boxed();
    }
    body(k, w, unfold(k, w, depth - 1))
}
/// Run on a stream of the same tokens, from the given position.
fn go(p: &dyn Fn(&mut ppoc::stream::Stream<'static, u8, ppoc::location::Simple>) -> PR<u64, Er>, input: &Input, start: usize) -> (PR<u64, Er>, usize) {
    let again = Input { toks: input.toks.clone(), n: input.n, polls: Default::default(), ended: Default::default() };
    let mut s = again.stream();
    for _ in 0..start {
        s.advance();
    }
    let r = p(&mut s);
    let end = s.index();
    check!(again.check_rest(&mut s));
    (r, end)
}
fn compare(a: &(PR<u64, Er>, usize), b: &(PR<u64, Er>, usize)) {
    check!(a.1 == b.1);
    check!(same_result(&a.0, &b.0, |x, y| x == y));
}
fn decide(k: usize, cfg: Cfg, input: Input) {
    let w = World::new(cfg, &input);
    let start = if input.n > 0 { sx::upto(1) } else { 0 };
    let rec = sx::flag();
    let flat = unfold(k, &w, input.n + 2);
    let want = go(&|s| flat.parse_internal(s, rec), &input, start);
    match sx::concrete(sx::upto(2)) {
        0 => {
            let r = recursive(|r: &R| body(k, &w, r.clone().boxed()));
            compare(&go(&|s| r.parse_internal(s, rec), &input, start), &want);
            let c = r.clone();
            compare(&go(&|s| c.parse_internal(s, rec), &input, start), &want);
        }
        1 => {
            let mut r = R::declare();
            let before = r.clone();
            let boxed = r.clone().boxed();
            r.define(body(k, &w, before.clone().boxed()));
            compare(&go(&|s| before.parse_internal(s, rec), &input, start), &want);
            compare(&go(&|s| boxed.clone().parse_internal(s, rec), &input, start), &want);
        }
        _ => {
            // Defined through a copy; the body unfolded once more by hand.
            let r = R::declare();
            let mut c = r.clone();
            c.define(body(k, &w, body(k, &w, r.clone().boxed())));
            compare(&go(&|s| r.parse_internal(s, rec), &input, start), &want);
        }
    }
    check!(!w.broken.get());
    match kind(&want.0) {
        0 => cover!(),
        1 => cover!(),
        _ => cover!(),
    }
    observe(&want.0, want.1, |x| *x);
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_self() {
    let k = sx::concrete(sx::upto(BODIES - 3));
    let n = sx::concrete(sx::upto(5 + DEEP));
    decide(k, Cfg::BASE, Input::new((0..n).map(|_| sx::tok(3)).collect(), n));
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_self_children() {
    let k = BODIES - 2 + sx::concrete(sx::upto(1));
    let n = sx::concrete(sx::upto(2 + DEEP));
    decide(k, Cfg { maxlen: 1, minlen: 1, maxidx: 0, lookahead: 0, ..Cfg::BASE }, Input::positions(n));
}

fn first(k: usize, b: BP) -> BP {
    match k {
        0 => b.delimited_by(j(0), j(1)).or(j(2)).boxed(),
        1 => pair(j(0).then(b.or_not().map(|o: Option<u64>| o.unwrap_or(9)))).boxed(),
        _ => b.delimited_by(j(0), j(1)).to_recover(recovery::skip().retry().or_fail()).or(j(2)).boxed(),
    }
}
fn second(k: usize, a: BP) -> BP {
    match k {
        0 => many(a.separated_by(j(3)).at_least(1)),
        1 => pair(j(1).then(a)).or(j(2)).boxed(),
        _ => many(a.repeated().at_least(1).at_most(2)),
    }
}
fn unfold_first(k: usize, depth: usize) -> BP {
    if depth == 0 {
        return Bottom.boxed();
    }
    first(k, second(k, unfold_first(k, depth - 1)))
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_mutual() {
    let k = sx::concrete(sx::upto(2));
    let n = sx::concrete(sx::upto(5 + DEEP));
    let input = Input::new((0..n).map(|_| sx::tok(3)).collect(), n);
    let rec = sx::flag();
    let flat = unfold_first(k, n + 2);
    let want = go(&|s| flat.parse_internal(s, rec), &input, 0);
    let other = second(k, unfold_first(k, n + 2));
    let want2 = go(&|s| other.parse_internal(s, rec), &input, 0);
    let (mut a, mut b) = (R::declare(), R::declare());
    if sx::flag() {
        let b2 = b.clone();
        a.define(first(k, b2.boxed()));
        b.define(second(k, a.clone().boxed()));
    } else {
        b.define(second(k, a.clone().boxed()));
        a.define(first(k, b.clone().boxed()));
    }
    compare(&go(&|s| a.parse_internal(s, rec), &input, 0), &want);
    compare(&go(&|s| b.parse_internal(s, rec), &input, 0), &want2);
    compare(&go(&|s| a.clone().parse_internal(s, rec), &input, 0), &want);
    match kind(&want.0) {
        0 => cover!(),
        1 => cover!(),
        _ => cover!(),
    }
    observe(&want.0, want.1, |x| *x);
}
/// Two independent recursive parsers do not get in each other's way.
// @sx shards=4
#[no_mangle]
pub extern "C" fn h_nested() {
    let n = sx::concrete(sx::upto(4 + DEEP));
    let input = Input::new((0..n).map(|_| sx::tok(3)).collect(), n);
    let w = World::new(Cfg::BASE, &input);
    let rec = sx::flag();
    let inner_flat = unfold(0, &w, n + 2);
    let outer = |r: BP, inner: BP| pair(j(3).then(r)).or(inner).boxed();
    let mut flat = Bottom.boxed();
    for _ in 0..n + 2 {
        flat = outer(flat, inner_flat.clone());
    }
    let want = go(&|s| flat.parse_internal(s, rec), &input, 0);
    let p = recursive(|r: &R| {
        let inner = recursive(|r: &R| body(0, &w, r.clone().boxed()));
        outer(r.clone().boxed(), inner.boxed())
    });
    compare(&go(&|s| p.parse_internal(s, rec), &input, 0), &want);
    cover!();
}
#[no_mangle]
pub extern "C" fn h_define_twice() {
    let mut r = R::declare();
    let mut c = r.clone();
    r.define(j(0));
    refused!();
    if sx::flag() {
        c.define(j(0));
    } else {
        r.define(j(1));
    }
}
#[no_mangle]
pub extern "C" fn h_undefined() {
    let r = R::declare();
    let input = Input::symbolic(2, 3);
    let mut s = input.stream();
    refused!();
    let _ = r.parse_internal(&mut s, sx::flag());
}
/// Deep recursion: any one of the tokens is not what it should be.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_far() {
    let d = 36 + 36 * DEEP;
    let k = [0, 2, 3][sx::concrete(sx::upto(2))];
    let n = if k == 2 { d } else { 2 * d + 1 };
    let mut toks: Vec<u8> = (0..n).map(|x| if k == 2 || x == d { 2 } else if x < d { 0 } else { 1 }).collect();
    let odd = match sx::concrete(sx::upto(8)) {
        x if x < 3 => x,
        x if x < 6 => n / 2 + x - 4,
        x => n - 9 + x,
    };
    toks[odd] = sx::concrete(sx::upto(2)) as u8;
    let input = Input::new(toks, n);
    let w = World::new(Cfg::BASE, &input);
    let rec = sx::flag();
    let flat = unfold(k, &w, d + 2);
    let want = go(&|s| flat.parse_internal(s, rec), &input, 0);
    let r = recursive(|r: &R| body(k, &w, r.clone().boxed()));
    compare(&go(&|s| r.parse_internal(s, rec), &input, 0), &want);
    cover!();
}
