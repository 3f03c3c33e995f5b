//! The bundled error types: what they keep, how they merge, what they say.
//!
//! Expected sets of 0 to 4 (thorough: 5) entries out of 4 tokens and EOF, any
//! found token, any position of any kind; every sequence of 2 (3) merges with
//! every kind of error; the text of every error kind, for sets of 0 to 4 (5)
//! entries in any order; 16 parsers on every input of up to 3 (4) tokens out of
//! 3 with the bundled types against the harness's own; sets of 0 to 20 (40)
//! entries, one, two or all but one of which come from a merge.
use crate::model;
use crate::sx;
use ppoc::error::{At, Error, Fallback, Simple, Void};
use ppoc::location::{self, Tracker};
use ppoc::parser::{Parser, Result as PR};
use ppoc::primitive::*;
use ppoc::recovery::{self, IncompleteStrategy};
use std::collections::HashSet;
use std::fmt;
use std::ops::Range;
use std::rc::Rc;

const DEEP: usize = cfg!(feature = "deep") as usize;

/// Token with a text.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct T(u8);
impl fmt::Display for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(NAMES[self.0 as usize])
    }
}
const NAMES: [&str; 5] = ["if", "+", "name", "[", "EOF"];

type E = Simple<T>;
type A = At<usize, Range<usize>>;
/// Tokens are hashed, so they are split into cases.
fn t() -> T {
    T(sx::concrete(sx::upto(3)) as u8)
}
fn opt() -> Option<T> {
    let k = sx::concrete(sx::upto(4));
    if k == 4 {
        None
    } else {
        Some(T(k as u8))
    }
}
fn bit(x: &Option<T>) -> u64 {
    match x {
        Some(t) => 1 << t.0,
        None => 1 << 4,
    }
}
fn at() -> A {
    match sx::concrete(sx::upto(2)) {
        0 => At::None,
        1 => At::Location(sx::upto(1 << 30)),
        _ => At::Span(span()),
    }
}
fn span() -> Range<usize> {
    sx::upto(1 << 30)..sx::upto(1 << 30)
}
fn same(a: &A, b: &A) -> bool {
    model::same_at(a, b)
}
fn is_at(e: &E, a: &A) -> bool {
    match (Error::<T>::location(e), a) {
        (At::None, At::None) => true,
        (At::Location(x), At::Location(y)) => x == y,
        (At::Span(x), At::Span(y)) => (x.start == y.start) & (x.end == y.end),
        _ => false,
    }
}
fn list(max: usize) -> Vec<Option<T>> {
    let n = sx::concrete(sx::upto(max));
    (0..n).map(|_| opt()).collect()
}
fn mask(v: &[Option<T>]) -> u64 {
    v.iter().map(bit).fold(0, |a, b| a | b)
}
fn set_is(s: &HashSet<Option<T>>, m: u64) -> bool {
    s.len() as u64 == m.count_ones() as u64 && s.iter().all(|x| bit(x) & m != 0)
}
fn is_expected(e: &E, m: u64, found: Option<T>, a: &A) -> bool {
    match e {
        Simple::ExpectedFound(s, f, b) => set_is(s, m) && *f == found && same(b, a),
        _ => false,
    }
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_expected() {
    let v = list(3 + DEEP);
    let (m, f, a) = (mask(&v), opt(), at());
    let e = <E as Error<T>>::expected_found(v, f, a.clone());
    check!(is_expected(&e, m, f, &a));
    check!(is_at(&e, &a));
    check!(Error::<T>::is_expected_found(&e));
    let c = e.clone();
    check!(is_expected(&c, m, f, &a));
    cover!();
}
/// One error of each kind that is not about expected tokens.
fn other(k: usize) -> E {
    match k {
        0 => <E as Error<T>>::unmatched_left_delimiter(T(1), 3..4, At::Location(9)),
        1 => <E as Error<T>>::unmatched_right_delimiter(T(1), 3..4, At::Location(9)),
        2 => <E as Error<T>>::unmatched_delimiter_type(T(1), 3..4, T(2), 5..6),
        3 => <E as Error<T>>::custom("msg", At::Location(9)),
        _ => E::simple("msg"),
    }
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_merge() {
    let v = list(2);
    let (mut m, f, a) = (mask(&v), opt(), at());
    let mut e = <E as Error<T>>::expected_found(v, f, a.clone());
    for _ in 0..1 + DEEP {
        if sx::flag() {
            let v = list(2);
            // Whatever the other one found, and wherever.
            let o = <E as Error<T>>::expected_found(v.clone(), if f.is_some() { None } else { Some(T(3)) }, At::Location(77));
            Error::<T>::merge_expected_found(&mut e, &o);
            m |= mask(&v);
            check!(is_expected(&o, mask(&v), if f.is_some() { None } else { Some(T(3)) }, &At::Location(77)));
        } else {
            let k = sx::concrete(sx::upto(4));
            let o = other(k);
            check!(!Error::<T>::is_expected_found(&o));
            Error::<T>::merge_expected_found(&mut e, &o);
            check!(o == other(k));
        }
        check!(is_expected(&e, m, f, &a));
    }
    // Nothing can be merged into the other kinds.
    let k = sx::concrete(sx::upto(4));
    let mut o = other(k);
    Error::<T>::merge_expected_found(&mut o, &e);
    check!(o == other(k));
    cover!();
}
#[no_mangle]
pub extern "C" fn h_kinds() {
    let (x, y, s, u, a) = (t(), t(), span(), span(), at());
    let eq = |p: &Range<usize>, q: &Range<usize>| (p.start == q.start) & (p.end == q.end);
    let e = <E as Error<T>>::unmatched_left_delimiter(x, s.clone(), a.clone());
    check!(match &e {
        Simple::UnmatchedLeftDelimiter(t, r, b) => *t == x && eq(r, &s) & same(b, &a),
        _ => false,
    });
    check!(is_at(&e, &a) & !Error::<T>::is_expected_found(&e));
    let e = <E as Error<T>>::unmatched_right_delimiter(x, s.clone(), a.clone());
    check!(match &e {
        Simple::UnmatchedRightDelimiter(t, r, b) => *t == x && eq(r, &s) & same(b, &a),
        _ => false,
    });
    check!(is_at(&e, &a) & !Error::<T>::is_expected_found(&e));
    let e = <E as Error<T>>::unmatched_delimiter_type(x, s.clone(), y, u.clone());
    check!(match &e {
        Simple::UnmatchedDelimiterType(t, r, t2, r2) => *t == x && *t2 == y && eq(r, &s) & eq(r2, &u),
        _ => false,
    });
    check!(is_at(&e, &At::Span(u)) & !Error::<T>::is_expected_found(&e));
    let e = <E as Error<T>>::custom("it went wrong", a.clone());
    check!(match &e {
        Simple::Custom(m, b) => m == "it went wrong" && same(b, &a),
        _ => false,
    });
    check!(is_at(&e, &a) & !Error::<T>::is_expected_found(&e));
    let e = E::simple("it went wrong");
    check!(match &e {
        Simple::Custom(m, At::None) => m == "it went wrong",
        _ => false,
    });
    check!(is_at(&e, &At::None) & !Error::<T>::is_expected_found(&e));
    check!(a.is_known() == !matches!(a, At::None));
    cover!();
}

// Texts, with a tracker whose locations can be written.

#[derive(Clone, Default)]
struct Tr;
#[derive(Clone, PartialEq)]
struct L(usize);
#[derive(Clone, PartialEq)]
struct S(usize, usize);
impl fmt::Display for L {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("<")?;
        f.write_str(DIG[self.0])?;
        f.write_str(">")
    }
}
impl fmt::Display for S {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("<")?;
        f.write_str(DIG[self.0])?;
        f.write_str("-")?;
        f.write_str(DIG[self.1])?;
        f.write_str(">")
    }
}
const DIG: [&str; 6] = ["0", "1", "2", "3", "4", "5"];
impl<I> Tracker<I> for Tr {
    type Location = L;
    type Span = S;
    fn advance(&mut self, _: &I) {}
    fn location(&self, i: usize) -> L {
        L(i)
    }
    fn spanning_to(&self, a: usize, _: &Self, b: usize) -> S {
        S(a, b)
    }
}
type D = Simple<T, Tr>;
fn place() -> (At<L, S>, &'static str) {
    match sx::concrete(sx::upto(2)) {
        0 => (At::None, ""),
        1 => (At::Location(L(5)), "<5>"),
        _ => (At::Span(S(2, 4)), "<2-4>"),
    }
}
fn at_text(p: &str) -> String {
    if p.is_empty() {
        String::new()
    } else {
        String::from(" at ") + p
    }
}
fn name(x: &Option<T>) -> &'static str {
    NAMES[match x {
        Some(t) => t.0 as usize,
        None => 4,
    }]
}
/// Is `text` the list of these names, in whatever order?
fn lists(text: &str, m: u64) -> bool {
    let n = m.count_ones();
    if n == 0 {
        return text == "found unexpected";
    }
    let text = match text.strip_prefix("expected ") {
        Some(t) => t,
        None => return false,
    };
    let mut text = match text.strip_suffix(" but found") {
        Some(t) => t,
        None => return false,
    };
    let mut left = m;
    for i in 0..n {
        if i > 0 {
            let sep = match (n, i + 1 == n) {
                (2, _) => " or ",
                (_, true) => ", or ",
                _ => ", ",
            };
            text = match text.strip_prefix(sep) {
                Some(t) => t,
                None => return false,
            };
        }
        let mut found = false;
        for k in 0..5 {
            if left & (1 << k) != 0 && !found {
                if let Some(t) = text.strip_prefix(NAMES[k]) {
                    text = t;
                    left &= !(1 << k);
                    found = true;
                }
            }
        }
        if !found {
            return false;
        }
    }
    text.is_empty()
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_text_expected() {
    // Every set, given in two orders.
    let m = sx::concrete(sx::upto(31)) as u64;
    let mut v: Vec<Option<T>> = (0..5).filter(|k| m & (1 << k) != 0).map(|k| if k == 4 { None } else { Some(T(k as u8)) }).collect();
    if sx::flag() {
        v.reverse();
    }
    let f = opt();
    let (a, p) = place();
    let e = <D as Error<T>>::expected_found(v, f, a);
    let text = format!("{}", e);
    let tail = String::from(" ") + name(&f) + &at_text(p);
    match text.strip_suffix(tail.as_str()) {
        Some(head) => check!(lists(head, m)),
        None => check!(false),
    }
    cover!();
}
#[no_mangle]
pub extern "C" fn h_text_kinds() {
    let (x, y) = (t(), t());
    let (a, p) = place();
    let k = sx::concrete(sx::upto(4));
    let x_ = String::from(name(&Some(x)));
    let (e, want) = match k {
        0 => {
            let mut w = String::from("unmatched left ") + &x_ + " (<1-2>)";
            if !p.is_empty() {
                w = w + "; must be closed before" + &before(p);
            }
            (<D as Error<T>>::unmatched_left_delimiter(x, S(1, 2), a), w)
        }
        1 => {
            let mut w = String::from("unmatched right ") + &x_ + " (<1-2>)";
            if !p.is_empty() {
                w = w + "; must be opened after" + &before(p);
            }
            (<D as Error<T>>::unmatched_right_delimiter(x, S(1, 2), a), w)
        }
        2 => (
            <D as Error<T>>::unmatched_delimiter_type(x, S(1, 2), y, S(3, 4)),
            String::from("left ") + &x_ + " (<1-2>) does not match right " + name(&Some(y)) + " (<3-4>)",
        ),
        3 => (<D as Error<T>>::custom("wrong", a), String::from("wrong") + &at_text(p)),
        _ => (D::simple("wrong"), String::from("wrong")),
    };
    let text = format!("{}", e);
    // Spacing around positions is not part of the meaning.
    check!(squeeze(&text) == squeeze(&want));
    cover!();
}
fn before(p: &str) -> String {
    String::from(" at ") + p
}
fn squeeze(s: &str) -> String {
    let mut r = String::new();
    for w in s.split(' ') {
        if !w.is_empty() {
            r.push_str(w);
            r.push(' ');
        }
    }
    r
}
#[no_mangle]
pub extern "C" fn h_text_at() {
    let (a, p) = place();
    check!(format!("{}", a) == at_text(p));
    check!(format!("{:#}", a) == if p.is_empty() { "<unknown>" } else { p });
    cover!();
}
/// With rows and columns.
#[no_mangle]
pub extern "C" fn h_text_rich() {
    type R = Simple<T, location::Rich<T, fn(&T) -> &str>>;
    let f = Rc::new(String::from("x.y"));
    let o = |r| location::RichOffset { row: r, column: 7, offset: 90, index: 91 };
    let r = [1usize, 10, 999][sx::concrete(sx::upto(2))];
    let rt = ["1", "10", "999"][if r == 1 { 0 } else if r == 10 { 1 } else { 2 }];
    let e = <R as Error<T>>::expected_found([Some(T(1))], None, At::Location(location::RichLocation { filename: f.clone(), offset: o(r) }));
    check!(format!("{}", e) == String::from("expected + but found EOF at x.y ") + rt + ":7");
    let e = <R as Error<T>>::expected_found([None], Some(T(2)), At::Span(location::RichSpan { filename: f, from: o(r), to: o(8) }));
    check!(format!("{}", e) == String::from("expected EOF but found name at x.y ") + rt + ":7..8:7");
    cover!();
}

// Parsing with the bundled types.

/// The harness's error type, for `T`.
impl model::Num for T {
    fn num(&self) -> u64 {
        self.0 as u64
    }
}
const PARSERS: usize = 16;
const PAIRS: [(T, T); 1] = [(T(0), T(1))];
type Bx<X> = ppoc::combinator::Boxed<'static, T, u64, X>;
fn j<X: Error<'static, T, LocationTracker = location::Simple> + Clone + 'static>(k: u8) -> Bx<X> {
    just(T(k)).map(|t| t.0 as u64 + 1).boxed()
}
fn parser<X: Error<'static, T, LocationTracker = location::Simple> + Clone + 'static>(k: usize) -> Bx<X> {
    let p = |a: u64, b: u64| a * 8 + b;
    let vec = |v: Vec<u64>| v.into_iter().fold(1, |a, b| a * 8 + b);
    match k {
        0 => j(0).or(j(1)).boxed(),
        1 => j(0).then(j(1)).or(j(0).then(j(0))).map(move |(a, b)| p(a, b)).boxed(),
        2 => j(0).alters(j(1)).and(j(2)).boxed(),
        3 => j(0).repeated().at_least(2).map(vec).boxed(),
        4 => j(0).separated_by(j::<X>(1)).at_least(1).allow_trailing().then(end()).map(move |(v, _)| vec(v)).boxed(),
        5 => one_of(vec![T(0), T(2)]).map(|t: T| t.0 as u64).or(none_of(vec![T(0), T(1)]).map(|t: T| t.0 as u64 + 10)).boxed(),
        6 => seq(vec![T(0), T(1)]).map(|_| 5).or(end().map(|_| 6)).boxed(),
        7 => filter(|t: &T| t.0 == 1).map(|t: T| t.0 as u64).or(filter_map(|t: &T| if t.0 == 0 { Some(3) } else { None })).boxed(),
        8 => j(0).to_recover(recovery::skip().and_return(9)).repeated().at_least(2).map(vec).boxed(),
        9 => j(0).then(j(1)).map(move |(a, b)| p(a, b)).to_recover(recovery::find(|t: &T| t.0 == 0).retry().or_fail()).boxed(),
        10 => j(0).then(j(2)).map(move |(a, b)| p(a, b)).to_recover(recovery::scan(ppoc::scanner::nested_delimiters(&PAIRS)).and_return(9)).boxed(),
        11 => j(0)
            .then(j(1))
            .try_map(|(a, b), s| if a == b { ppoc::combinator::TryMapResult::Ok(a) } else { ppoc::combinator::TryMapResult::Recovered(b, vec![X::custom("x", At::Span(s)), X::simple("y")]) })
            .boxed(),
        12 => j(0).or_not().map(|o: Option<u64>| o.unwrap_or(0)).then(j(1)).map(move |(a, b)| p(a, b)).boxed(),
        13 => j(0).then(j(1).or(j(0))).map(move |(a, b)| p(a, b)).or(j(0).then(j(2)).map(move |(a, b)| p(a, b))).boxed(),
        14 => j(0).to_recover(recovery::push_error_here(|l| X::custom("m", At::Location(l))).skip().retry().or_fail()).boxed(),
        _ => ppoc::recursive::recursive(|r: &ppoc::recursive::Recursive<'static, T, u64, X>| r.clone().delimited_by(j::<X>(0), j::<X>(1)).or(j(2))).boxed(),
    }
}
fn err_matches(a: &E, b: &model::Er) -> bool {
    let found = |f: &Option<T>| match f {
        Some(t) => t.0 as u64 + 1,
        None => 0,
    };
    match a {
        Simple::ExpectedFound(s, f, at) => {
            let m = s.iter().map(|x| match x {
                Some(t) => 1u64 << t.0,
                None => 1 << 63,
            });
            (b.kind == model::EXPECTED) & (m.fold(0, |a, b| a | b) == b.exp) & (found(f) == b.found) & same(at, &b.at)
        }
        Simple::UnmatchedLeftDelimiter(t, s, at) => (b.kind == model::LEFT) & (t.0 as u64 + 1 == b.found) & (*s == b.span2) & same(at, &b.at),
        Simple::UnmatchedRightDelimiter(t, s, at) => (b.kind == model::RIGHT) & (t.0 as u64 + 1 == b.found) & (*s == b.span2) & same(at, &b.at),
        Simple::UnmatchedDelimiterType(t, s, u, s2) => (b.kind == model::TYPE) & (t.0 as u64 + 1 == b.found) & (*s == b.span2) & (u.0 as u64 + 1 == b.tok2) & same(&At::Span(s2.clone()), &b.at),
        Simple::Custom(m, at) => (m == "x" || m == "m" || m == "y") && ((b.kind == model::CUSTOM) | (b.kind == model::SIMPLE)) && same(at, &b.at),
    }
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_parse() {
    let k = sx::concrete(sx::upto(PARSERS - 1));
    let n = sx::concrete(sx::upto(3 + DEEP));
    let toks: Vec<T> = (0..n).map(|_| T(sx::concrete(sx::upto(2)) as u8)).collect();
    let rec = sx::flag();
    fn go<X: Error<'static, T, LocationTracker = location::Simple> + Clone + 'static>(k: usize, toks: &Vec<T>, rec: bool) -> (PR<u64, X>, usize) {
        let mut s = ppoc::stream::Stream::new(toks.clone());
        let r = parser::<X>(k).parse_internal(&mut s, rec);
        (r, s.index())
    }
    let (want, end) = go::<model::Er>(k, &toks, rec);
    let (got, end2) = go::<E>(k, &toks, rec);
    let (void, end3) = go::<Void<T>>(k, &toks, rec);
    check!((end == end2) & (end == end3));
    match (&want, &got, &void) {
        (PR::Success(a), PR::Success(b), PR::Success(c)) => check!((a == b) & (a == c)),
        (PR::Recovered(a, es), PR::Recovered(b, fs), PR::Recovered(c, gs)) => {
            check!((a == b) & (a == c));
            check!((es.len() == fs.len()) & (es.len() == gs.len()));
            for i in 0..es.len() {
                check!(err_matches(&fs[i], &es[i]));
            }
        }
        (PR::Failed(i, es), PR::Failed(j, fs), PR::Failed(k, gs)) => {
            check!((i == j) & (i == k));
            check!((es.len() == fs.len()) & (es.len() == gs.len()));
            for i in 0..es.len() {
                check!(err_matches(&fs[i], &es[i]));
            }
        }
        _ => check!(false),
    }
    match &want {
        PR::Success(_) => cover!(),
        PR::Recovered(_, _) => cover!(),
        PR::Failed(_, _) => cover!(),
    }
    sx::observe(end as u64);
}
/// The type without information.
#[no_mangle]
pub extern "C" fn h_void() {
    type V = Void<T>;
    let mut v = <V as Error<T>>::expected_found([Some(T(0))], None, At::Location(3));
    check!(!Error::<T>::is_expected_found(&v));
    check!(matches!(Error::<T>::location(&v), At::None));
    let o = <V as Error<T>>::custom("x", At::None);
    Error::<T>::merge_expected_found(&mut v, &o);
    check!(v == o);
    check!(<V as Error<T>>::unmatched_left_delimiter(T(0), 0..1, At::None) == o);
    check!(<V as Error<T>>::unmatched_right_delimiter(T(0), 0..1, At::None) == o);
    check!(<V as Error<T>>::unmatched_delimiter_type(T(0), 0..1, T(1), 1..2) == o);
    check!(V::simple("x") == o);
    cover!();
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Letter(u8);
impl fmt::Display for Letter {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(std::str::from_utf8(&[self.0 + 48]).unwrap())
    }
}
/// Large sets.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_text_many() {
    let n = sx::concrete(sx::upto(20 + 20 * DEEP));
    let own = match sx::concrete(sx::upto(3)) {
        0 => n,
        1 => n.saturating_sub(1),
        2 => n.saturating_sub(2),
        _ => n.min(1),
    };
    let l = |k: usize| Some(Letter(k as u8));
    let mut e = <Simple<Letter, Tr> as Error<Letter>>::expected_found((0..own).map(l), None, At::None);
    let o = <Simple<Letter, Tr> as Error<Letter>>::expected_found((own..n).map(l), l(0), At::Location(L(3)));
    Error::<Letter>::merge_expected_found(&mut e, &o);
    let text = format!("{}", e);
    let mut rest: &str = &text;
    if n == 0 {
        check!(rest == "found unexpected EOF");
    } else {
        let mut seen = 0u64;
        for i in 0..n {
            let before = match (i, n) {
                (0, _) => "expected ",
                (_, 2) => " or ",
                _ if i == n - 1 => ", or ",
                _ => ", ",
            };
            rest = match rest.strip_prefix(before) {
                Some(t) => t,
                None => {
                    check!(false);
                    return;
                }
            };
            seen |= 1 << (rest.as_bytes()[0] - 48);
            rest = &rest[1..];
        }
        check!(seen == (1u64 << n) - 1);
        check!(rest == " but found EOF");
    }
    cover!();
}
