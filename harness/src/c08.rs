//! Primitive parsers and the containers they take: which tokens match, what
//! comes out, where the cursor goes, what the error says.
//!
//! Inputs of 0 to 5 (thorough: 6) symbolic tokens out of 4 bytes, or 0 to 3 out
//! of 4 characters of one to three bytes; expected tokens symbolic; expected
//! sequences and sets of 0 to 4 tokens, in every kind of container; sequences and
//! sets of 36 (72) tokens with one symbolic token anywhere, inputs that may end
//! anywhere.
use crate::model::*;
use crate::sx;
use ppoc::container::Container;
use ppoc::error::At;
use ppoc::location;
use ppoc::parser::{Parser, Result as PR};
use ppoc::primitive::*;
use ppoc::stream::Stream;

const DEEP: usize = cfg!(feature = "deep") as usize;
const N: usize = 5 + DEEP;

struct T<I: 'static> {
    toks: Vec<I>,
    n: usize,
    st: Stream<'static, I, location::Simple>,
    start: usize,
}
fn setup<I: Clone + 'static>(toks: Vec<I>) -> T<I> {
    let n = sx::concrete(sx::upto(toks.len()));
    let src: Vec<I> = toks[..n].to_vec();
    let mut st = Stream::new(src);
    let k = sx::concrete(sx::upto(1));
    for _ in 0..k {
        st.advance();
    }
    let start = st.index();
    T { toks, n, st, start }
}
fn bytes() -> Vec<u8> {
    (0..N).map(|_| sx::tok(3)).collect()
}
const CH: [char; 4] = ['a', '\n', 'é', '→'];
fn ch() -> char {
    match sx::tok(3) {
        0 => CH[0],
        1 => CH[1],
        2 => CH[2],
        _ => CH[3],
    }
}
fn chars() -> Vec<char> {
    (0..3).map(|_| ch()).collect()
}
impl<I: Clone + Num + PartialEq + 'static> T<I> {
    fn at(&self, p: usize) -> Option<I> {
        if p < self.n {
            Some(self.toks[p].clone())
        } else {
            None
        }
    }
    /// The parse consumed exactly `len` tokens.
    fn took(&mut self, len: usize) {
        check!(self.st.index() == self.start + len);
        let mut p = self.start + len;
        while p < self.n {
            check!(match self.st.token() {
                Some(t) => *t == self.toks[p],
                None => false,
            });
            check!(self.st.advance());
            p += 1;
        }
        check!(self.st.eof());
    }
    /// The failure is about the token at position p.
    fn failed<O>(&mut self, r: &PR<O, Er>, p: usize, exp: u64) {
        match r {
            PR::Failed(i, es) => {
                check!(*i == p);
                check!(es.len() == 1);
                let e = &es[0];
                check!(e.kind == EXPECTED);
                check!(e.exp == exp);
                check!(e.found == self.at(p).map(|t| t.num() + 1).unwrap_or(0));
                check!(match &e.at {
                    At::Location(l) => *l == p,
                    At::Span(s) => (s.start == p) & (s.end == if p < self.n { p + 1 } else { p }),
                    At::None => false,
                });
            }
            _ => check!(false),
        }
        cover!();
        self.took(0);
    }
    fn matched<O>(&mut self, r: &PR<O, Er>, len: usize, ok: impl Fn(&O) -> bool) {
        match r {
            PR::Success(o) => check!(ok(o)),
            _ => check!(false),
        }
        cover!();
        self.took(len);
    }
}
fn bit<I: Num>(t: &I) -> u64 {
    1u64 << t.num()
}

#[no_mangle]
pub extern "C" fn h_nothing() {
    let rec = sx::flag();
    let mut t = setup(bytes());
    let r = empty::<u8, Er>().parse_internal(&mut t.st, rec);
    check!(matches!(r, PR::Success(())));
    check!(t.st.index() == t.start);
    let r = none::<u8, u64, Er>().parse_internal(&mut t.st, rec);
    t.matched(&r, 0, |o| o.is_none());
}
#[no_mangle]
pub extern "C" fn h_end() {
    let rec = sx::flag();
    let mut t = setup(bytes());
    let r = end::<u8, Er>().clone().parse_internal(&mut t.st, rec);
    sx::observe(kind(&r));
    if t.start >= t.n {
        t.matched(&r, 0, |_| true);
    } else {
        let p = t.start;
        t.failed(&r, p, 1 << 63);
    }
}
#[no_mangle]
pub extern "C" fn h_just() {
    let rec = sx::flag();
    let mut t = setup(bytes());
    let x = sx::tok(3);
    let r = just::<u8, Er>(x).clone().parse_internal(&mut t.st, rec);
    sx::observe(kind(&r));
    let p = t.start;
    if t.at(p) == Some(x) {
        t.matched(&r, 1, |o| *o == x);
    } else {
        t.failed(&r, p, bit(&x));
    }
}
/// Predicates see the token, decide, and their output comes out.
#[no_mangle]
pub extern "C" fn h_filter() {
    let rec = sx::flag();
    let mut t = setup(bytes());
    let mask = sx::tok(15);
    let r = filter::<u8, _, Er>(move |x| (mask >> *x) & 1 == 1).clone().parse_internal(&mut t.st, rec);
    sx::observe(kind(&r));
    let p = t.start;
    match t.at(p) {
        Some(x) if (mask >> x) & 1 == 1 => t.matched(&r, 1, |o| *o == x),
        _ => t.failed(&r, p, 0),
    }
}
#[no_mangle]
pub extern "C" fn h_filter_map() {
    let rec = sx::flag();
    let mut t = setup(bytes());
    let mask = sx::tok(15);
    let f = move |x: &u8| if (mask >> *x) & 1 == 1 { Some(*x as u64 + 40) } else { None };
    let r = filter_map::<u8, _, u64, Er>(f).clone().parse_internal(&mut t.st, rec);
    sx::observe(kind(&r));
    let p = t.start;
    match t.at(p) {
        Some(x) if (mask >> x) & 1 == 1 => t.matched(&r, 1, |o| *o == x as u64 + 40),
        _ => t.failed(&r, p, 0),
    }
}

/// seq, one_of, none_of with the container c, which stands for `want`.
fn all<I, C>(mut t: T<I>, c: C, want: Vec<I>, same: impl Fn(&C, &C) -> bool)
where
    I: Clone + Num + PartialEq + 'static,
    C: Container<I> + Clone + 'static,
{
    let rec = sx::flag();
    let p = t.start;
    // The container lists what it holds, in order, each time.
    let listed: Vec<I> = c.get_iter().collect();
    check!(listed.len() == want.len());
    for k in 0..want.len() {
        check!(listed[k] == want[k]);
    }
    check!(c.get_iter().count() == want.len());
    match sx::concrete(sx::upto(2)) {
        0 => {
            let r = seq::<I, C, Er>(c.clone()).clone().parse_internal(&mut t.st, rec);
            sx::observe(kind(&r));
            let mut k = 0;
            while k < want.len() && t.at(p + k) == Some(want[k].clone()) {
                k += 1;
            }
            if k == want.len() {
                t.matched(&r, k, |o| same(o, &c));
            } else {
                t.failed(&r, p + k, bit(&want[k]));
            }
        }
        1 => {
            let r = one_of::<I, C, Er>(c.clone()).clone().parse_internal(&mut t.st, rec);
            sx::observe(kind(&r));
            let mut set = 0;
            let mut hit = false;
            let here = t.at(p);
            for x in &want {
                set |= bit(x);
                hit |= here == Some(x.clone());
            }
            if hit {
                t.matched(&r, 1, |o| Some(o.clone()) == here);
            } else {
                t.failed(&r, p, set);
            }
        }
        _ => {
            let r = none_of::<I, C, Er>(c.clone()).clone().parse_internal(&mut t.st, rec);
            sx::observe(kind(&r));
            let here = t.at(p);
            let mut hit = here.is_none();
            for x in &want {
                hit |= here == Some(x.clone());
            }
            if hit {
                t.failed(&r, p, 0);
            } else {
                t.matched(&r, 1, |o| Some(o.clone()) == here);
            }
        }
    }
}
fn leak<X>(x: X) -> &'static X {
    Box::leak(Box::new(x))
}
// @sx shards=4
#[no_mangle]
pub extern "C" fn h_single() {
    let x = sx::tok(3);
    all(setup(bytes()), x, vec![x], |a, b| a == b);
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_array() {
    let x = [sx::tok(3), sx::tok(3), sx::tok(3)];
    all(setup(bytes()), x, x.to_vec(), |a, b| a == b);
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_array_ref() {
    let x: &'static [u8; 2] = leak([sx::tok(3), sx::tok(3)]);
    all(setup(bytes()), x, x.to_vec(), |a, b| a == b);
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_vec() {
    let n = sx::concrete(sx::upto(4));
    let x: Vec<u8> = (0..n).map(|_| sx::tok(3)).collect();
    all(setup(bytes()), x.clone(), x, |a, b| a == b);
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_vec_ref() {
    let n = sx::concrete(sx::upto(2));
    let x: &'static Vec<u8> = leak((0..n).map(|_| sx::tok(3)).collect());
    all(setup(bytes()), x, x.clone(), |a, b| a == b);
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_slice() {
    let n = sx::concrete(sx::upto(2));
    let v: &'static Vec<u8> = leak((0..n).map(|_| sx::tok(3)).collect());
    let x: &'static [u8] = &v[..];
    let listed: Vec<u8> = <[u8] as Container<u8>>::get_iter(x).collect();
    check!(listed.len() == n);
    for k in 0..n {
        check!(listed[k] == v[k]);
    }
    all(setup(bytes()), x, v.clone(), |a, b| a == b);
}
/// Tokens that are references.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_refs() {
    let toks: &'static Vec<u8> = leak(bytes());
    let t = setup(toks.iter().collect::<Vec<&'static u8>>());
    let v: &'static Vec<u8> = leak(vec![sx::tok(3), sx::tok(3)]);
    let want: Vec<&'static u8> = v.iter().collect();
    match sx::concrete(sx::upto(2)) {
        0 => all::<&'static u8, &'static Vec<u8>>(t, v, want, |a, b| a == b),
        1 => all::<&'static u8, &'static [u8]>(t, &v[..], want, |a, b| a == b),
        _ => {
            let a: &'static [u8; 2] = leak([v[0], v[1]]);
            all::<&'static u8, &'static [u8; 2]>(t, a, want, |a, b| a == b)
        }
    }
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_text() {
    let n = sx::concrete(sx::upto(2));
    let want: Vec<char> = (0..n).map(|_| ch()).collect();
    let s: String = want.iter().collect();
    if sx::flag() {
        all::<char, String>(setup(chars()), s, want, |a, b| a == b)
    } else {
        let s: &'static str = &leak(s)[..];
        all::<char, &'static str>(setup(chars()), s, want, |a, b| a == b)
    }
}
/// Long sequences: the input ends or differs anywhere, or not at all.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_long() {
    let n = 36 + 36 * DEEP;
    let x: Vec<u8> = (0..n).map(|k| (k % 3) as u8).collect();
    let end = if sx::flag() { n + 1 } else { sx::concrete(sx::upto(n)) };
    let odd = sx::concrete(sx::upto(n));
    let mut toks: Vec<u8> = (0..end).map(|k| (k % 3) as u8).collect();
    if odd < end {
        toks[odd] = sx::tok(3);
    }
    let t = T { n: end, st: Stream::new(toks.clone()), toks, start: 0 };
    let mut t = t;
    let r = seq::<u8, Vec<u8>, Er>(x.clone()).parse_internal(&mut t.st, sx::flag());
    sx::observe(kind(&r));
    let mut k = 0;
    while k < n && t.at(k) == Some(x[k]) {
        k += 1;
    }
    if k == n {
        t.matched(&r, n, |o| *o == x);
    } else {
        t.failed(&r, k, bit(&x[k]));
    }
}
/// Large sets: the token is any of them, or none.
#[no_mangle]
pub extern "C" fn h_many() {
    let n = 1 + sx::concrete(sx::upto(35 + 20 * DEEP));
    let x: Vec<u8> = (0..n).map(|k| k as u8).collect();
    let here = sx::tok(60);
    let mut t = T { n: 1, st: Stream::new(vec![here]), toks: vec![here], start: 0 };
    if sx::flag() {
        let r = one_of::<u8, Vec<u8>, Er>(x).parse_internal(&mut t.st, sx::flag());
        if (here as usize) < n {
            t.matched(&r, 1, |o| *o == here);
        } else {
            t.failed(&r, 0, (1u64 << n) - 1);
        }
    } else {
        let r = none_of::<u8, Vec<u8>, Er>(x).parse_internal(&mut t.st, sx::flag());
        if (here as usize) < n {
            t.failed(&r, 0, 0);
        } else {
            t.matched(&r, 1, |o| *o == here);
        }
    }
}
