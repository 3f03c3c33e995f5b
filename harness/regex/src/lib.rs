//! Stand-in for the regex crate: what a pattern matches at a place of a text
//! is symbolic, the same for the same pattern and place.
extern "C" {
    fn sx_var(hi: u64) -> u64;
    fn sx_concrete(v: u64) -> u64;
    fn sx_assume(c: u64);
}

/// Patterns are K0, K1, ... with an alternative, which only a group keeps
/// together, or empty.
pub const PATTERNS: [&str; 6] = ["K0|x", "K1|x", "K2|x", "K3|x", "K4|x", "K5|x"];
const EMPTY: usize = PATTERNS.len();
const SIZE: usize = 24;

/// For each pattern and number of bytes left: 0 if not decided yet, 1 if there
/// is no match, else the length of the match and 2.
static mut DECIDED: [[u8; SIZE]; PATTERNS.len()] = [[0; SIZE]; PATTERNS.len()];

pub fn reset() {
    unsafe { *std::ptr::addr_of_mut!(DECIDED) = [[0; SIZE]; PATTERNS.len()] };
}

/// How much a pattern matches at the start of what is left of the text.
pub fn decide(pattern: usize, rest: &str) -> Option<usize> {
    if pattern == EMPTY {
        return Some(0);
    }
    let known = unsafe { &mut *std::ptr::addr_of_mut!(DECIDED[pattern][rest.len()]) };
    if *known == 0 {
        // As many characters as there are, including none, or no match.
        let mut chars = 0;
        for b in rest.bytes() {
            chars += (lead(b) != 0) as u64;
        }
        let n = unsafe { sx_concrete(sx_var(chars + 1)) };
        *known = 1;
        if n <= chars {
            let mut length = 0;
            for _ in 0..n {
                length += lead(rest.as_bytes()[length]);
            }
            *known = length as u8 + 2;
        }
    }
    known.checked_sub(2).map(|x| x as usize)
}

/// The number of bytes of the character that starts with this one (0 if none
/// does).
fn lead(b: u8) -> usize {
    let n = match b {
        0..=0x7f => 1,
        0x80..=0xbf => 0,
        0xc0..=0xdf => 2,
        0xe0..=0xef => 3,
        _ => 4,
    };
    unsafe { sx_concrete(n as u64) as usize }
}

#[derive(Clone, Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("error")
    }
}

#[derive(Clone, Debug)]
pub struct Regex {
    pattern: usize,
    anchored: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Match<'h> {
    text: &'h str,
    start: usize,
    end: usize,
}
impl<'h> Match<'h> {
    pub fn start(&self) -> usize {
        self.start
    }
    pub fn end(&self) -> usize {
        self.end
    }
    pub fn len(&self) -> usize {
        self.end - self.start
    }
    pub fn is_empty(&self) -> bool {
        self.end == self.start
    }
    pub fn range(&self) -> std::ops::Range<usize> {
        self.start..self.end
    }
    pub fn as_str(&self) -> &'h str {
        &self.text[self.start..self.end]
    }
}

#[derive(Clone, Debug)]
pub struct Captures<'h>(Match<'h>);
impl<'h> Captures<'h> {
    pub fn get(&self, k: usize) -> Option<Match<'h>> {
        (k == 0).then_some(self.0)
    }
    pub fn len(&self) -> usize {
        1
    }
}
impl<'h> std::ops::Index<usize> for Captures<'h> {
    type Output = str;
    fn index(&self, k: usize) -> &str {
        assert!(k == 0);
        self.0.as_str()
    }
}

fn unwrapped<'a>(s: &'a str, a: &str, z: &str) -> Option<&'a str> {
    s.strip_prefix(a)?.strip_suffix(z)
}

impl Regex {
    pub fn new(s: &str) -> Result<Regex, Error> {
        let rest = s.strip_prefix('^').or_else(|| s.strip_prefix("\\A"));
        let bare = rest.unwrap_or(s);
        let inner = unwrapped(bare, "(?:", ")").or_else(|| unwrapped(bare, "(", ")"));
        let name = inner.unwrap_or(bare);
        let pattern = match PATTERNS.iter().position(|x| *x == name) {
            Some(x) => x,
            None => {
                // Anything else is not known here.
                unsafe { sx_assume(name.is_empty() as u64) };
                EMPTY
            }
        };
        Ok(Regex { pattern, anchored: rest.is_some() && inner.is_some() })
    }
    pub fn find_at<'h>(&self, text: &'h str, from: usize) -> Option<Match<'h>> {
        let mut start = from;
        loop {
            if start == 0 || !self.anchored {
                if let Some(n) = decide(self.pattern, &text[start..]) {
                    return Some(Match { text, start, end: start + n });
                }
            }
            if start == text.len() || self.anchored {
                return None;
            }
            start += lead(text.as_bytes()[start]);
        }
    }
    pub fn find<'h>(&self, text: &'h str) -> Option<Match<'h>> {
        self.find_at(text, 0)
    }
    pub fn captures<'h>(&self, text: &'h str) -> Option<Captures<'h>> {
        self.find(text).map(Captures)
    }
    pub fn is_match(&self, text: &str) -> bool {
        self.find(text).is_some()
    }
}
