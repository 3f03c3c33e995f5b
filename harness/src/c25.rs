//! The tokenizer in the Rust that the bootstrap tool generates.
//!
//! Generated by the real tool on every run. Token types are any 0 to 2
//! (thorough: 3) with or without whitespace, in any order; texts of 0 to 3
//! characters of 1 to 4 symbolic bytes each, 4 (5) characters of 1 or 2 bytes;
//! what each pattern matches at each place is symbolic (nothing, or any number
//! of characters); a user-defined order-sensitive tracker that starts anywhere.
//! A stand-in replaces the regex crate. Where a token and whitespace match
//! equally much either may win. Errors at five characters; any two tokens.
use super::types::{self, Spanned, TerminalToken, Token, TokenClass, TokenType, Tokenizer};
use crate::location::Tracker;
use crate::sx;

const DEEP: usize = cfg!(feature = "deep") as usize;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Kind(u8);
impl std::fmt::Display for Kind {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("kind")
    }
}
#[derive(Clone, Copy)]
struct Language {
    kinds: usize,
    backwards: bool,
    whitespace: bool,
}
static mut LANGUAGE: Language = Language { kinds: 0, backwards: false, whitespace: false };
static mut BASE: usize = 0;
const WHITESPACE: usize = 5;

fn language() -> Language {
    unsafe { *std::ptr::addr_of!(LANGUAGE) }
}
impl TokenType for Kind {
    type All = Vec<Kind>;
    fn all() -> Vec<Kind> {
        let l = language();
        (0..l.kinds as u8).map(|k| Kind(if l.backwards { l.kinds as u8 - 1 - k } else { k })).collect()
    }
    fn regex(&self) -> &'static str {
        regex::PATTERNS[self.0 as usize]
    }
    fn whitespace() -> &'static str {
        if language().whitespace {
            regex::PATTERNS[WHITESPACE]
        } else {
            ""
        }
    }
}

/// Depends on which parts of the text it advanced over, and their order.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Tr {
    n: usize,
    h: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Loc {
    index: usize,
    tr: Tr,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Spn(Option<(Loc, Loc)>);
impl std::fmt::Display for Spn {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match &self.0 {
            None => f.write_str("nowhere"),
            Some((a, z)) => write!(f, "<{}.{}>", a.index, z.index),
        }
    }
}
impl<'s> Tracker<&'s str> for Tr {
    type Location = Loc;
    type Span = Spn;
    fn advance(&mut self, t: &&'s str) {
        let from = t.as_ptr() as usize - unsafe { *std::ptr::addr_of!(BASE) };
        self.n += 1;
        self.h = (self.h << 10) ^ (self.h >> 54) ^ (from as u64 * 32 + t.len() as u64);
    }
    fn location(&self, index: usize) -> Loc {
        Loc { index, tr: self.clone() }
    }
    fn spanning_to(&self, a: usize, to: &Self, b: usize) -> Spn {
        Spn(Some((self.location(a), to.location(b))))
    }
}

/// A text of symbolic characters, with where each one starts.
fn text(chars: usize, widths: usize) -> (String, Vec<usize>) {
    let n = sx::concrete(sx::upto(chars));
    let mut bytes: Vec<u8> = Vec::with_capacity(16);
    let mut starts = Vec::with_capacity(8);
    for _ in 0..n {
        starts.push(bytes.len());
        let w = 1 + sx::concrete(sx::upto(widths - 1));
        bytes.push(match w {
            1 => sx::tok(0x7f),
            2 => 0xc2 + sx::tok(0x1d),
            3 => 0xe1 + sx::tok(0xb),
            _ => 0xf1 + sx::tok(2),
        });
        for _ in 1..w {
            bytes.push(0x80 + sx::tok(0x3f));
        }
    }
    starts.push(bytes.len());
    (unsafe { String::from_utf8_unchecked(bytes) }, starts)
}

fn tokenizes(kinds: usize, chars: usize, widths: usize) {
    regex::reset();
    let l = Language { kinds: sx::concrete(sx::upto(kinds)), backwards: sx::flag(), whitespace: sx::flag() };
    let l = Language { backwards: l.kinds > 1 && sx::concrete(l.backwards as usize) == 1, whitespace: sx::concrete(l.whitespace as usize) == 1, ..l };
    unsafe { *std::ptr::addr_of_mut!(LANGUAGE) = l };
    let (text, starts) = text(chars, widths);
    unsafe { *std::ptr::addr_of_mut!(BASE) = text.as_ptr() as usize };
    let first = Tr { n: sx::upto(9), h: sx::var(99) };
    let mut it = Tokenizer::<Kind, Tr>::new_with_location(first.clone(), &text[..]);
    let mut tr = first;
    let mut pos = 0;
    let mut index = 0;
    loop {
        let token = it.next();
        let Some(token) = token else {
            check!(pos == text.len());
            break;
        };
        check!(pos < text.len());
        // The first longest match.
        let rest = &text[pos..];
        let mut best = TokenClass::Error;
        let mut length = 0;
        for k in Kind::all() {
            let n = regex::decide(k.0 as usize, rest).unwrap_or(0);
            if n > length {
                best = TokenClass::Normal(k);
                length = n;
            }
        }
        let blank = if l.whitespace { regex::decide(WHITESPACE, rest).unwrap_or(0) } else { 0 };
        let tie = blank > 0 && blank == length;
        if blank > length {
            best = TokenClass::Whitespace;
            length = blank;
        }
        if length == 0 {
            length = starts.iter().find(|x| **x > pos).unwrap() - pos;
            cover!();
        }
        check!(token.class() == best || tie && token.class() == TokenClass::Whitespace);
        check!(token.text().as_ptr() == rest.as_ptr() && token.text().len() == length);
        let from = tr.location(index);
        tr.advance(&&text[pos..pos + length]);
        index += 1;
        let span = Spn(Some((from, tr.location(index))));
        check!(*token.span() == span);
        sx::observe(length as u64);
        pos += length;
        let class = token.class();
        match token.clone().into_grammar_input() {
            Ok(t) => {
                check!(class == TokenClass::Normal(t.token_type()) && *t.span() == span);
                check!(t.text().len() == length);
                cover!();
            }
            Err(t) => {
                check!(!matches!(class, TokenClass::Normal(_)) && t.class() == class && *t.span() == span);
            }
        }
        match token.into_error() {
            Ok(_) => {
                check!(class == TokenClass::Error);
            }
            Err(t) => {
                check!(class != TokenClass::Error && t.class() == class && *t.span() == span);
                cover!();
            }
        }
    }
    check!(it.next().is_none());
}

/// Characters of all widths.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_widths() {
    tokenizes(1 + DEEP, 3, 4);
}
/// Several kinds of tokens.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_kinds() {
    tokenizes(2 + DEEP, 3 - DEEP, 2);
}
/// Longer texts.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_long() {
    tokenizes(1, 4 + DEEP, 2 - DEEP);
}
/// Errors tell the character that no token starts with, and where it is.
#[no_mangle]
pub extern "C" fn h_errors() {
    regex::reset();
    unsafe { *std::ptr::addr_of_mut!(LANGUAGE) = Language { kinds: 0, backwards: false, whitespace: false } };
    let chars = ['x', '\n', '\u{e9}', '\u{20ac}', '\u{1f600}'];
    let (a, b) = (chars[sx::concrete(sx::upto(4))], chars[sx::concrete(sx::upto(4))]);
    let text = format!("{a}{b}");
    unsafe { *std::ptr::addr_of_mut!(BASE) = text.as_ptr() as usize };
    let mut it = Tokenizer::<Kind, Tr>::new(&text[..]);
    for (k, c) in [a, b].into_iter().enumerate() {
        let Some(Ok(e)) = it.next().map(Token::into_error) else {
            check!(false);
            return;
        };
        let e = e.to_string();
        check!(e.contains(&format!("{c:?}")));
        check!(e.contains(if k == 0 { "<0.1>" } else { "<1.2>" }));
        cover!();
    }
    check!(it.next().is_none());
}
/// What a value feeds to a hasher.
struct Fed(u64);
impl std::hash::Hasher for Fed {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 << 9) ^ (self.0 >> 55) ^ *b as u64 ^ 0x100;
        }
    }
}
fn fed(x: &impl std::hash::Hash) -> u64 {
    let mut h = Fed(0);
    x.hash(&mut h);
    h.0
}
/// Tokens are equal if they are of the same type, whatever their text and span.
#[no_mangle]
pub extern "C" fn h_equal() {
    let (a, b) = (Kind(sx::tok(255)), Kind(sx::tok(255)));
    let span = |x: usize| Spn(if x == 0 { None } else { Some((Tr::default().location(x), Tr::default().location(x))) });
    let x = TerminalToken::new(a, "a", span(sx::upto(9)));
    let y = if sx::flag() { TerminalToken::new_pattern(b) } else { TerminalToken::new(b, if sx::flag() { "a" } else { "b" }, span(sx::upto(9))) };
    check!((x == y) == (a == b));
    check!((y == x) == (a == b));
    check!(a != b || fed(&x) == fed(&y));
    check!(x.token_type() == a && y.token_type() == b && x.text() == "a");
    let s = x.span().clone();
    let (t, text, span) = x.unwrap();
    check!(t == a && text.as_deref() == Some("a") && span == s);
    cover!();
}
