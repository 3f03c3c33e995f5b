//! Locations and spans: what trackers see, what streams and parsers report.
//!
//! A user-defined tracker whose state depends on every token and their order:
//! stream histories of 4 operations on inputs of 0 to 3 (thorough: 4) symbolic
//! tokens, phase-structured histories on inputs of 11 (14),
//! 40 (72) tokens with any two saved positions; every location and
//! span reported by a family of 22 parsers (mappings, primitives, repetitions,
//! alternatives, recovery strategies, nested delimiters) on up to 6 (7) symbolic
//! tokens, compared with the run on plain indices. Row/column/byte tracking:
//! up to 2 (3) tokens of up to 2 symbolic characters of 1 to 4 bytes,
//! up to 4 (5) tokens of one character of 1 or 2 bytes.
use crate::sx;
use ppoc::combinator::TryMapResult;
use ppoc::error::{At, Error, Fallback};
use ppoc::location::{self, Tracker};
use ppoc::parser::{Parser, Result as PR};
use ppoc::primitive::*;
use ppoc::recovery::{self, IncompleteStrategy};
use ppoc::stream::{SavedState, Stream};
use std::rc::Rc;

const DEEP: usize = cfg!(feature = "deep") as usize;

/// Depends on the order and number of the tokens advanced over.
#[derive(Clone, Default)]
pub struct Tr {
    n: usize,
    h: u64,
}
#[derive(Clone, PartialEq)]
pub struct Loc {
    index: usize,
    n: usize,
    h: u64,
}
#[derive(Clone, PartialEq)]
pub struct Spn {
    from: Loc,
    to: Loc,
}
impl Tracker<u8> for Tr {
    type Location = Loc;
    type Span = Spn;
    fn advance(&mut self, t: &u8) {
        self.n += 1;
        self.h = (self.h << 5) ^ (self.h >> 59) ^ (*t as u64 + 1);
    }
    fn location(&self, index: usize) -> Loc {
        Loc { index, n: self.n, h: self.h }
    }
    fn spanning_to(&self, a: usize, to: &Self, b: usize) -> Spn {
        Spn { from: self.location(a), to: to.location(b) }
    }
}
/// The locations of all positions.
struct Truth {
    toks: Vec<u8>,
    n: usize,
    at: Vec<Tr>,
}
impl Truth {
    fn new(max: usize, hi: u8, start: Tr) -> Truth {
        let n = sx::concrete(sx::upto(max));
        Truth::fixed((0..n).map(|_| sx::tok(hi)).collect(), start)
    }
    fn fixed(toks: Vec<u8>, start: Tr) -> Truth {
        let mut at = vec![start];
        for t in &toks {
            let mut x = at[at.len() - 1].clone();
            x.advance(t);
            at.push(x);
        }
        Truth { n: toks.len(), toks, at }
    }
    fn loc(&self, l: &Loc, i: usize) -> bool {
        (l.index == i) & (l.n == self.at[i].n) & (l.h == self.at[i].h)
    }
    fn span(&self, s: &Spn, a: usize, b: usize) -> bool {
        self.loc(&s.from, a) & self.loc(&s.to, b)
    }
    fn stream(&self) -> Stream<'static, u8, Tr> {
        Stream::new_with_location(self.toks.clone(), self.at[0].clone())
    }
}
/// A start location that is not the default one.
fn begin() -> Tr {
    Tr { n: 100, h: sx::var(1000) }
}

struct H {
    t: Truth,
    s: Stream<'static, u8, Tr>,
    pos: usize,
    slots: Vec<Option<(SavedState, usize)>>,
}
impl H {
    fn new(t: Truth, slots: usize) -> H {
        let s = t.stream();
        H { t, s, pos: 0, slots: (0..slots).map(|_| None).collect() }
    }
    fn here(&self) {
        check!(self.t.loc(&self.s.location(), self.pos));
        let tr = self.s.location_tracker();
        let want = &self.t.at[self.pos];
        check!((tr.n == want.n) & (tr.h == want.h));
        for x in &self.slots {
            if let Some((st, p)) = x {
                check!(self.t.loc(&self.s.location_at(st), *p));
                let tr = self.s.location_tracker_at(st);
                check!((tr.n == self.t.at[*p].n) & (tr.h == self.t.at[*p].h));
            }
        }
    }
    fn spans(&mut self) {
        let e = if self.pos < self.t.n { self.pos + 1 } else { self.pos };
        let sp = self.s.span();
        check!(self.t.span(&sp, self.pos, e));
        for x in &self.slots {
            if let Some((st, p)) = x {
                if *p <= self.pos {
                    let sp = self.s.spanning_back_to(st);
                    check!(self.t.span(&sp, *p, self.pos));
                }
            }
        }
    }
    fn to(&mut self, k: usize) {
        let k = sx::concrete(k);
        let to = self.pos + k;
        self.s.advance_to(to);
        self.pos = to.min(self.t.n);
    }
    fn step(&mut self) {
        self.s.advance();
        self.pos = (self.pos + 1).min(self.t.n);
    }
    fn save(&mut self, j: usize) {
        let st = self.s.save();
        self.slots[j] = Some((st, self.pos));
    }
    fn save_at(&mut self, j: usize, k: usize) {
        let to = self.pos + sx::concrete(k);
        sx::assume(to <= self.t.n);
        let st = self.s.save_at(to);
        self.slots[j] = Some((st, to));
    }
    fn restore(&mut self, j: usize) {
        if let Some((st, p)) = &self.slots[j] {
            self.s.restore(st);
            self.pos = *p;
        }
    }
    fn finish(mut self) {
        self.here();
        self.spans();
        for j in 0..self.slots.len() {
            self.restore(j);
            self.here();
            while self.pos < self.t.n {
                self.spans();
                self.step();
                self.here();
            }
            self.spans();
        }
        cover!();
    }
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_history() {
    let mut h = H::new(Truth::new(3 + DEEP, 255, begin()), 2);
    for _ in 0..4 {
        match sx::concrete(sx::upto(8)) {
            0 => h.step(),
            1 => h.to(sx::range(2, 4)),
            2 => h.save(sx::concrete(sx::upto(1))),
            3 => h.save_at(sx::concrete(sx::upto(1)), sx::upto(3)),
            4 => h.restore(sx::concrete(sx::upto(1))),
            5 => {
                let j = sx::concrete(sx::upto(1));
                h.slots[j] = None;
            }
            6 => {
                h.s.token();
            }
            7 => {
                let j = sx::concrete(sx::upto(1));
                if let Some((st, _)) = &h.slots[j] {
                    h.s.token_at(st);
                }
            }
            _ => h.spans(),
        }
        h.here();
    }
    h.finish();
}
/// Longer walks, past the buffer's capacity, with old tokens dropped.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_walks() {
    let n = 11 + 3 * DEEP;
    let mut h = H::new(Truth::fixed((0..n).map(|_| sx::tok(255)).collect(), Tr::default()), 3);
    for leg in 0..3 {
        let k = [0, 1, 4, 5, 2, 3][sx::concrete(sx::upto(3 + 2 * DEEP))];
        if sx::flag() {
            for _ in 0..k {
                h.step();
            }
        } else {
            h.to(k);
        }
        h.here();
        match sx::upto(3) {
            0 => h.save(leg),
            1 => h.save_at(leg, 4),
            2 => {
                let j = sx::concrete(sx::upto(2));
                h.restore(j);
                if sx::flag() {
                    h.slots[j] = None;
                }
            }
            _ => h.spans(),
        }
        h.here();
    }
    h.finish();
}
#[no_mangle]
pub extern "C" fn h_attempt() {
    let t = Truth::new(6, 255, begin());
    let mut s = t.stream();
    let a = sx::concrete(sx::upto(t.n));
    s.advance_to(a);
    let k = sx::concrete(sx::upto(t.n - a));
    let keep = sx::flag();
    let at = s.attempt(|s| {
        s.advance_to(a + k);
        check!(t.loc(&s.location(), a + k));
        if keep {
            Ok(a + k)
        } else {
            Err(a)
        }
    });
    check!(t.loc(&s.location(), at));
    let sp = s.span();
    check!(t.span(&sp, at, (at + 1).min(t.n)));
    cover!();
}

// Parsers: everything they report, on any tracker.

struct Lr<L: Tracker<u8>> {
    kind: u8,
    exp: u64,
    at: At<L::Location, L::Span>,
    more: Vec<L::Span>,
}
impl<L: Tracker<u8>> Lr<L> {
    fn new(kind: u8, at: At<L::Location, L::Span>) -> Self {
        Lr { kind, exp: 0, at, more: vec![] }
    }
}
impl<L: Tracker<u8>> Fallback for Lr<L> {
    fn simple<M: ToString>(_: M) -> Self {
        Lr::new(0, At::None)
    }
}
impl<'i, L: Tracker<u8>> Error<'i, u8> for Lr<L> {
    type LocationTracker = L;
    fn expected_found<J: IntoIterator<Item = Option<u8>>>(e: J, _: Option<u8>, at: At<L::Location, L::Span>) -> Self {
        let mut r = Lr::new(1, at);
        for x in e {
            r.exp |= match x {
                Some(t) => 1 << t,
                None => 1 << 63,
            };
        }
        r
    }
    fn merge_expected_found(&mut self, o: &Self) {
        self.exp |= o.exp;
    }
    fn is_expected_found(&self) -> bool {
        self.kind == 1
    }
    fn location(&self) -> At<&L::Location, &L::Span> {
        self.at.as_ref()
    }
    fn unmatched_left_delimiter(_: u8, s: L::Span, b: At<L::Location, L::Span>) -> Self {
        let mut r = Lr::new(2, b);
        r.more.push(s);
        r
    }
    fn unmatched_right_delimiter(_: u8, s: L::Span, b: At<L::Location, L::Span>) -> Self {
        let mut r = Lr::new(3, b);
        r.more.push(s);
        r
    }
    fn unmatched_delimiter_type(_: u8, s: L::Span, _: u8, s2: L::Span) -> Self {
        let mut r = Lr::new(4, At::Span(s2));
        r.more.push(s);
        r
    }
    fn custom<M: ToString>(_: M, at: At<L::Location, L::Span>) -> Self {
        Lr::new(5, at)
    }
}
/// Trackers whose locations can be traced back to indices.
trait Spot: Tracker<u8> + Default + 'static
where
    Self::Span: Clone,
    Self::Location: Clone,
{
    fn ends(s: &Self::Span) -> (usize, usize);
    fn place(l: &Self::Location) -> usize;
}
impl Spot for Tr {
    fn ends(s: &Spn) -> (usize, usize) {
        (s.from.index, s.to.index)
    }
    fn place(l: &Loc) -> usize {
        l.index
    }
}
impl Spot for location::Simple {
    fn ends(s: &std::ops::Range<usize>) -> (usize, usize) {
        (s.start, s.end)
    }
    fn place(l: &usize) -> usize {
        *l
    }
}
/// Compares what a parser reports with where the stream is before and after.
struct Probe<P, O> {
    p: P,
    out: O,
}
impl<L: Spot, P, O> Parser<'static, u8> for Probe<P, O>
where
    P: Parser<'static, u8, Error = Lr<L>>,
    O: Fn(&P::Output) -> Option<(usize, usize)>,
    L::Span: Clone,
    L::Location: Clone,
{
    type Output = P::Output;
    type Error = Lr<L>;
    fn parse_internal(&self, s: &mut Stream<'static, u8, L>, rec: bool) -> PR<P::Output, Lr<L>> {
        let a = s.index();
        let r = self.p.parse_internal(s, rec);
        let b = s.index();
        if let Some(o) = r.tree() {
            if let Some(sp) = (self.out)(o) {
                check!(sp == (a, b));
            }
        }
        for e in r.errors() {
            let span = match &e.at {
                At::None => continue,
                At::Location(l) => (L::place(l), L::place(l)),
                At::Span(s) => L::ends(s),
            };
            match e.kind {
                // The token that was found, or just where it was.
                20 => check!((span.0 == a) & match e.at {
                    At::Span(_) => span.1 == if s.eof() { a } else { a + 1 },
                    _ => true,
                }),
                6 | 7 => check!(span == (a, a + 2)),
                8 | 11 => check!(span == (a, a)),
                9 => check!((span.0 == a) & (span.1 == b)),
                10 => check!((span.0 == b) & (span.1 <= b + 1)),
                12 => check!(span == (a, b)),
                13 => check!((span.0 == b) & (span.1 == if s.eof() { b } else { b + 1 })),
                30 => check!(L::ends(&e.more[0]) == (a, b)),
                _ => (),
            }
        }
        r
    }
}
fn probe<P, O>(p: P, out: O) -> Probe<P, O> {
    Probe { p, out }
}
/// Primitives: what they found, where they stand.
fn prim<L: Spot, P>(p: P) -> Bx<L>
where
    P: Parser<'static, u8, Error = Lr<L>> + 'static,
    L::Span: Clone,
    L::Location: Clone,
{
    struct As<P>(P, u8, u8);
    impl<L: Spot, P: Parser<'static, u8, Error = Lr<L>>> Parser<'static, u8> for As<P>
    where
        L::Span: Clone,
        L::Location: Clone,
    {
        type Output = P::Output;
        type Error = Lr<L>;
        fn parse_internal(&self, s: &mut Stream<'static, u8, L>, rec: bool) -> PR<P::Output, Lr<L>> {
            let (a, b) = (self.1, self.2);
            self.0.parse_internal(s, rec).map_err(|mut e| {
                if e.kind == a {
                    e.kind = b
                }
                e
            })
        }
    }
    let p = As(probe(As(p, 1, 20), |_: &P::Output| None), 20, 1);
    whole(p.map_with_span(|_, s| vec![s]))
}
/// The last span of the output is that of the whole.
fn whole<L: Spot, P>(p: P) -> Bx<L>
where
    P: Parser<'static, u8, Output = Out<L>, Error = Lr<L>> + 'static,
    L::Span: Clone,
    L::Location: Clone,
{
    probe(p, |o: &Out<L>| o.last().map(|s| L::ends(s))).boxed()
}
/// Outputs carry every span their parser was told about.
type Out<L> = Vec<<L as Tracker<u8>>::Span>;
type Bx<L> = ppoc::combinator::Boxed<'static, u8, Out<L>, Lr<L>>;

fn j<L: Spot>(t: u8) -> Bx<L>
where
    L::Span: Clone,
    L::Location: Clone,
{
    prim(just(t))
}
fn two<L: Spot>(t: u8, u: u8) -> Bx<L>
where
    L::Span: Clone,
    L::Location: Clone,
{
    cat(j(t).then(j(u)))
}
/// The span of the whole and those of the parts.
fn cat<L: Spot, P>(p: P) -> Bx<L>
where
    P: Parser<'static, u8, Output = (Out<L>, Out<L>), Error = Lr<L>> + 'static,
    L::Span: Clone,
    L::Location: Clone,
{
    whole(p.map_with_span(|(mut a, b), s| {
        a.extend(b);
        a.push(s);
        a
    }))
}
fn flat<L: Spot, P>(p: P) -> Bx<L>
where
    P: Parser<'static, u8, Output = Vec<Out<L>>, Error = Lr<L>> + 'static,
    L::Span: Clone,
    L::Location: Clone,
{
    whole(p.map_with_span(|v, s| {
        let mut r: Out<L> = v.into_iter().flatten().collect();
        r.push(s);
        r
    }))
}
const PAIRS: [(u8, u8); 2] = [(0, 1), (2, 3)];
const PARSERS: usize = 22;
fn parser<L: Spot>(k: usize, verdict: u64) -> Bx<L>
where
    L::Span: Clone,
    L::Location: Clone,
{
    match k {
        0 => j(0).or(j(1)).boxed(),
        1 => flat(two(0, 0).or(two(0, 1)).or(j(0)).repeated()),
        2 => flat(j(0).separated_by(j::<L>(1)).at_least(2)),
        3 => flat(j(0).separated_by(two::<L>(1, 1)).allow_trailing()),
        4 => two(0, 1).alters(two(0, 2)).and(j(3)).boxed(),
        5 => cat(prim(one_of(vec![0u8, 1])).then(prim(none_of(vec![0u8])))),
        6 => cat(seq(vec![0u8, 1]).map_with_span(|_, s| vec![s]).then(prim(end()))),
        7 => cat(prim(filter(|t: &u8| *t < 2)).then(prim(filter_map(|t: &u8| if *t < 2 { Some(*t) } else { None })))),
        8 => whole(two(0, 1)
            .try_map(move |mut o: Out<L>, s: L::Span| {
                o.push(s.clone());
                match verdict {
                    0 => TryMapResult::Ok(o),
                    1 => TryMapResult::Recovered(o, vec![Lr::new(6, At::Span(s))]),
                    _ => TryMapResult::Err(vec![Lr::new(7, At::Span(s))]),
                }
            })),
        9 => cat(two(0, 1).map_err_with_span(|mut e: Lr<L>, s| {
            e.kind = 30;
            e.more.push(s);
            e
        }).or(j(2)).then(j(1))),
        10 => cat(j(0).then(whole(j(1).to_recover(recovery::skip().and_return_with_span(|s| vec![s]))))),
        11 => cat(j(0).then(whole(two(0, 1).to_recover(recovery::seek_to_failed().skip().and_return_with_span(|s| vec![s]))))),
        12 => cat(j(0).then(j(1).to_recover(recovery::find(|t: &u8| *t == 2).retry().or_fail()))),
        13 => cat(j(0).then(two(1, 1).to_recover(recovery::while_not(|t: &u8| *t == 3, recovery::skip().retry()).and_return_with_span(|s| vec![s])))),
        14 => whole(two(0, 1).to_recover(recovery::push_error_here(|l| Lr::new(8, At::Location(l))).skip().push_error_up_to_here(|s| Lr::new(9, At::Span(s))).and_return_with_span(|s| vec![s]))),
        15 => whole(two(0, 1).to_recover(recovery::skip().push_error_for_token(|_, s| Lr::new(10, At::Span(s))).and_return(vec![]))),
        16 => whole(two(0, 1)
            .to_recover(
                recovery::update_errors_here(|es: &mut Vec<Lr<L>>, l| es.push(Lr::new(11, At::Location(l))))
                    .seek_to_failed()
                    .update_errors_up_to_here(|es: &mut Vec<Lr<L>>, s| es.push(Lr::new(12, At::Span(s))))
                    .update_errors_for_token(|es: &mut Vec<Lr<L>>, _, s| es.push(Lr::new(13, At::Span(s))))
                    .and_return_with_span(|s| vec![s]),
            )),
        17 => cat(j(0).then(whole(two(1, 2).to_recover(recovery::scan(ppoc::scanner::nested_delimiters(&PAIRS)).and_return_with_span(|s| vec![s]))))),
        18 => cat(j(0).then(two(1, 1).to_recover(recovery::skip().try_to_parse(j::<L>(2)).and_return_with_span(|s| vec![s])))),
        19 => cat(j(0).or_not().map(|o: Option<Out<L>>| o.unwrap_or_default()).then(two(1, 2).delimited_by(j::<L>(0), j::<L>(3)))),
        20 => flat(two(0, 1).padded_by(j::<L>(2).or_not()).repeated().at_most(2)),
        _ => flat(
            j(0).repeated()
                .at_least(1)
                .map_with_span(|v, s| {
                    let mut r: Out<L> = v.into_iter().flatten().collect();
                    r.push(s);
                    r
                })
                .separated_by(j::<L>(1))
                .allow_leading(),
        ),
    }
}
fn at_matches(t: &Truth, a: &At<Loc, Spn>, b: &At<usize, std::ops::Range<usize>>) -> bool {
    match (a, b) {
        (At::None, At::None) => true,
        (At::Location(l), At::Location(i)) => t.loc(l, *i),
        (At::Span(s), At::Span(r)) => t.span(s, r.start, r.end),
        _ => false,
    }
}
fn errs_match(t: &Truth, a: &[Lr<Tr>], b: &[Lr<location::Simple>]) {
    check!(a.len() == b.len());
    for k in 0..a.len() {
        check!((a[k].kind == b[k].kind) & (a[k].exp == b[k].exp));
        check!(at_matches(t, &a[k].at, &b[k].at));
        spans_match(t, &a[k].more, &b[k].more);
    }
}
fn spans_match(t: &Truth, a: &[Spn], b: &[std::ops::Range<usize>]) {
    check!(a.len() == b.len());
    for k in 0..a.len() {
        check!(t.span(&a[k], b[k].start, b[k].end));
    }
}
fn both(k: usize, t: Truth, before: usize) {
    let v = if k == 8 { sx::var(2) } else { 0 };
    let rec = sx::flag();
    let p = parser::<Tr>(k, v);
    let q = parser::<location::Simple>(k, v);
    let mut s = t.stream();
    let mut r: Stream<u8, location::Simple> = Stream::new(t.toks.clone());
    for _ in 0..before {
        s.advance();
        r.advance();
    }
    let a = p.parse_internal(&mut s, rec);
    let b = q.parse_internal(&mut r, rec);
    check!(s.index() == r.index());
    check!(t.loc(&s.location(), r.index()));
    match (&a, &b) {
        (PR::Success(x), PR::Success(y)) => {
            spans_match(&t, x, y);
            sx::observe(x.len() as u64);
            cover!();
        }
        (PR::Recovered(x, es), PR::Recovered(y, fs)) => {
            spans_match(&t, x, y);
            errs_match(&t, es, fs);
            cover!();
        }
        (PR::Failed(_, es), PR::Failed(_, fs)) => {
            errs_match(&t, es, fs);
            cover!();
        }
        _ => check!(false),
    }
    sx::observe(s.index() as u64);
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_parsers() {
    let k = sx::concrete(sx::upto(PARSERS - 1));
    both(k, Truth::new(6 + DEEP, 3, begin()), 0);
}
/// Away from the start, behind a buffer that has been emptied before.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_parsers_later() {
    let k = sx::concrete(sx::upto(PARSERS - 1));
    let before = [1, 3, 4, 7][sx::concrete(sx::upto(3))];
    let n = before + 5 + DEEP;
    let toks = (0..n).map(|i| if i < before { sx::tok(255) } else { sx::tok(3) }).collect();
    both(k, Truth::fixed(toks, begin()), before);
}

// Rows, columns and bytes.

/// A token: some UTF-8 text.
#[derive(Clone, Default)]
struct Text {
    b: [u8; 8],
    len: usize,
    /// Lengths of its characters, and how many there are.
    chars: [usize; 2],
    count: usize,
}
fn cont() -> u8 {
    0x80 + sx::tok(0x3f)
}
fn text(max: usize) -> Text {
    let mut t = Text::default();
    t.count = sx::concrete(sx::upto(max));
    for c in 0..t.count {
        let k = sx::concrete(sx::range(1, 4));
        t.chars[c] = k;
        let first = match k {
            1 => sx::tok(0x7f),
            2 => 0xc2 + sx::tok(0x1d),
            3 => 0xe1 + sx::tok(0x0b),
            _ => 0xf1 + sx::tok(0x02),
        };
        t.b[t.len] = first;
        for i in 1..k {
            t.b[t.len + i] = cont();
        }
        t.len += k;
    }
    t
}
fn as_str(t: &Text) -> &str {
    unsafe { std::str::from_utf8_unchecked(&t.b[..t.len]) }
}
/// Row, column, byte offset after the given texts.
fn spot(ts: &[Text]) -> (usize, usize, usize) {
    let (mut row, mut col, mut off) = (1, 1, 0);
    for t in ts {
        let mut p = 0;
        for c in 0..t.count {
            let nl = (t.chars[c] == 1) & (t.b[p] == b'\n');
            row += nl as usize;
            col = (col + 1) * !nl as usize + nl as usize;
            p += t.chars[c];
        }
        off += t.len;
    }
    (row, col, off)
}
fn offset_is(o: &location::RichOffset, ts: &[Text], i: usize) -> bool {
    let (r, c, b) = spot(&ts[..i]);
    (o.row == r) & (o.column == c) & (o.offset == b) & (o.index == i)
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_rich() {
    let n = sx::concrete(sx::range(1, 2 + DEEP));
    let ts: Vec<Text> = (0..n).map(|_| text(2)).collect();
    rich(ts);
}
/// More tokens of single characters.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_rich_chars() {
    let n = sx::concrete(sx::range(1, 4 + DEEP));
    let ts: Vec<Text> = (0..n)
        .map(|_| {
            let mut t = Text::default();
            t.count = 1;
            t.chars[0] = sx::concrete(sx::range(1, 2));
            t.len = t.chars[0];
            if t.len == 1 {
                t.b[0] = sx::tok(0x7f);
            } else {
                t.b[0] = 0xc3;
                t.b[1] = cont();
            }
            t
        })
        .collect();
    rich(ts);
}
fn rich(ts: Vec<Text>) {
    let n = ts.len();
    let mut s = Stream::new_with_location(ts.clone(), location::Rich::new("file.x", as_str as fn(&Text) -> &str));
    let l = s.location();
    check!(offset_is(&l.offset, &ts, 0) & (l.filename.as_str() == "file.x"));
    let a = sx::concrete(sx::upto(n));
    let b = sx::concrete(sx::upto(n - a));
    s.advance_to(a);
    let st = s.save();
    for _ in 0..b {
        s.advance();
    }
    let l = s.location();
    check!(offset_is(&l.offset, &ts, a + b) & (l.filename.as_str() == "file.x"));
    let sp = s.spanning_back_to(&st);
    check!(offset_is(&sp.from, &ts, a) & offset_is(&sp.to, &ts, a + b) & (sp.filename.as_str() == "file.x"));
    let sp = s.span();
    check!(offset_is(&sp.from, &ts, a + b) & offset_is(&sp.to, &ts, (a + b + 1).min(n)));
    check!(offset_is(&s.location_at(&st).offset, &ts, a));
    s.restore(&st);
    let l = s.location();
    check!(offset_is(&l.offset, &ts, a));
    sx::observe(l.offset.row as u64);
    sx::observe(l.offset.column as u64);
    cover!();
}
/// How locations are written: 1-based row and column, with the file.
#[no_mangle]
pub extern "C" fn h_rich_text() {
    let at = |row, column| location::RichOffset { row, column, offset: 77, index: 78 };
    let v = [1usize, 9, 10, 123];
    let pick = || v[sx::concrete(sx::upto(3))];
    let (r, c) = (pick(), pick());
    let f = Rc::new(String::from("a.b"));
    let a = at(r, c);
    let t = dec(r) + ":" + &dec(c);
    check!(format!("{}", a) == t);
    check!(format!("{}", location::RichLocation { filename: f.clone(), offset: a.clone() }) == String::from("a.b ") + &t);
    let sp = location::RichSpan { filename: f, from: a, to: at(2, 34) };
    check!(format!("{}", sp) == String::from("a.b ") + &t + "..2:34");
    cover!();
}
fn dec(n: usize) -> String {
    let mut s = String::new();
    if n >= 10 {
        s += &dec(n / 10);
    }
    s.push((b'0' + (n % 10) as u8) as char);
    s
}
/// Plain indices.
#[no_mangle]
pub extern "C" fn h_simple() {
    let mut l = location::Simple::default();
    let (i, k) = (sx::upto(1000), sx::upto(1000));
    check!(Tracker::<u8>::location(&l, i) == i);
    Tracker::<u8>::advance(&mut l, &sx::tok(255));
    let sp = Tracker::<u8>::spanning_to(&l, i, &location::Simple::default(), k);
    check!((sp.start == i) & (sp.end == k));
    cover!();
}

/// Far walks: two saved positions anywhere on a long input.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_far() {
    let n = 40 + 32 * DEEP;
    let mut h = H::new(Truth::fixed((0..n).map(|x| x as u8).collect(), begin()), 2);
    let p = sx::concrete(sx::upto(n));
    h.to(p);
    h.save(0);
    let q = sx::concrete([0, 1, 7, 8, 9, 31, 32, 33][sx::concrete(sx::upto(7))]);
    if p + q > n {
        return;
    }
    if sx::flag() {
        h.save_at(1, q);
        h.to(q);
    } else {
        h.to(q);
        h.save(1);
    }
    h.here();
    h.restore(0);
    h.here();
    h.spans();
    if sx::flag() {
        h.slots[0] = None;
        h.to(1);
        h.here();
        h.to(n);
        h.here();
        h.restore(1);
    }
    h.here();
    h.spans();
    cover!();
}
