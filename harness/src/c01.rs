//! Token stream: histories of reading, saving, restoring, forgetting.
//!
//! Histories of 4 operations over all operation kinds with symbolic arguments
//! (jumps of up to 3 tokens, 2 saved states) on inputs of 0 to 4 symbolic
//! tokens, and of 4 operations with jumps of up to 5 tokens on inputs of 0 to 9
//! (thorough: 5 operations each); phase-structured histories of 4 legs of up to
//! 8 (12) tokens with up to 3 saved states; 9 (12) saved states with every
//! subset of them dropped, 36 (72) of them with every run of them dropped;
//! inputs of 70 (140) tokens with any two saved positions; jumps backwards must
//! panic. Outside: longer unstructured histories, longer inputs.
use crate::model::*;
use crate::sx;
use ppoc::location;
use ppoc::stream::{SavedState, Stream};

const DEEP: usize = cfg!(feature = "deep") as usize;
type St = Stream<'static, u8, location::Simple>;

struct H {
    input: Input,
    s: St,
    pos: usize,
    /// Saved states with the position each stands for.
    slots: Vec<Option<(SavedState, usize)>>,
}
impl H {
    fn new(input: Input, slots: usize) -> H {
        let mut input = input;
        input.n = sx::concrete(input.n);
        let s = input.stream();
        H { input, s, pos: 0, slots: (0..slots).map(|_| None).collect() }
    }
    fn peek(&mut self) {
        let (n, p) = (self.input.n, self.pos);
        if p < n {
            let want = self.input.toks[p];
            check!(match self.s.token() {
                Some(t) => *t == want,
                None => false,
            });
        } else {
            check!(self.s.token().is_none());
        }
        check!(self.s.eof() == (p >= n));
        let sp = self.s.span();
        check!((sp.start == p) & (sp.end == if p < n { p + 1 } else { p }));
        self.whereabouts();
    }
    fn whereabouts(&mut self) {
        check!(self.s.index() == self.pos);
        check!(self.s.location() == self.pos);
    }
    fn step(&mut self) {
        let more = self.pos < self.input.n;
        check!(self.s.advance() == more);
        if more {
            self.pos += 1;
        }
        self.whereabouts();
    }
    fn walk(&mut self, k: usize) {
        for _ in 0..k {
            self.step();
        }
    }
    fn to(&mut self, k: usize) {
        let k = sx::concrete(k);
        let to = self.pos + k;
        let fits = to <= self.input.n;
        check!(self.s.advance_to(to) == fits);
        self.pos = if fits { to } else { self.input.n };
        self.whereabouts();
    }
    fn save(&mut self, j: usize) {
        let st = self.s.save();
        self.slots[j] = Some((st, self.pos));
        self.whereabouts();
    }
    fn save_at(&mut self, j: usize, k: usize) {
        let k = sx::concrete(k);
        let to = self.pos + k;
        sx::assume(to <= self.input.n);
        let st = self.s.save_at(to);
        self.slots[j] = Some((st, to));
        self.whereabouts();
    }
    fn restore(&mut self, j: usize) {
        if let Some((st, p)) = &self.slots[j] {
            self.s.restore(st);
            self.pos = *p;
        }
        self.whereabouts();
    }
    fn forget(&mut self, j: usize) {
        self.slots[j] = None;
        self.whereabouts();
    }
    fn look_back(&mut self, j: usize) {
        let n = self.input.n;
        if let Some((st, p)) = &self.slots[j] {
            check!(self.s.index_at(st) == *p);
            check!(self.s.location_at(st) == *p);
            if *p <= self.pos {
                let sp = self.s.spanning_back_to(st);
                check!((sp.start == *p) & (sp.end == self.pos));
            }
            if *p < n {
                let want = self.input.toks[*p];
                check!(match self.s.token_at(st) {
                    Some(t) => *t == want,
                    None => false,
                });
            } else {
                check!(self.s.token_at(st).is_none());
            }
        }
        self.whereabouts();
    }
    /// Whatever happened before, everything that can be gone back to is still
    /// there, and so is the rest of the input.
    fn finish(mut self) {
        sx::observe(self.pos as u64);
        for j in 0..self.slots.len() {
            self.look_back(j);
        }
        for j in (0..self.slots.len()).rev() {
            if self.slots[j].is_some() {
                self.restore(j);
                self.slots[j] = None;
                break;
            }
        }
        self.peek();
        check!(self.input.check_rest(&mut self.s));
        for j in 0..self.slots.len() {
            if self.slots[j].is_some() {
                self.restore(j);
                check!(self.input.check_rest(&mut self.s));
            }
        }
    }
}

/// Any sequence of operations.
fn free(ops: usize, nmax: usize, kmax: usize, slots: usize, mode: usize) {
    let mut h = H::new(Input::symbolic(nmax, 255), slots);
    for _ in 0..ops {
        match sx::upto(7) {
            0 => h.step(),
            1 => h.to(sx::range(2, 1 + kmax)),
            2 => h.save(sx::upto(slots - 1)),
            3 => h.restore(sx::upto(slots - 1)),
            4 => h.forget(sx::upto(slots - 1)),
            5 => h.peek(),
            6 if mode == 0 => h.look_back(sx::upto(slots - 1)),
            7 if mode == 0 => h.save_at(sx::upto(slots - 1), sx::range(1, kmax)),
            _ => sx::assume(false),
        }
    }
    cover!();
    h.finish();
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_history() {
    free(4 + DEEP, 4, 2, 2, 0);
}
/// Longer histories on a longer input, without the ahead-looking operations.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_history_long() {
    let mut h = H::new(Input::symbolic(9, 255), 2);
    h.save(0);
    for _ in 0..4 + DEEP {
        match sx::upto(5) {
            0 => h.walk(sx::range(1, 5)),
            1 => h.save(0),
            2 => h.save(1),
            3 => h.restore(0),
            4 => h.restore(1),
            _ => h.forget(0),
        }
    }
    cover!();
    h.finish();
}
/// Save, run ahead past the buffer's capacity, save, run on, go back, forget,
/// run on again: every length of every leg.
fn phases(nmax: usize, leg: usize, by_jump: bool) {
    let mut h = H::new(Input::symbolic(nmax, 255), 3);
    let go = |h: &mut H, k: usize| if by_jump { h.to(k) } else { h.walk(k) };
    let a = sx::upto(leg / 2);
    go(&mut h, a);
    h.save(0);
    let b = sx::upto(leg);
    go(&mut h, b);
    h.save(1);
    let c = sx::upto(leg);
    go(&mut h, c);
    match sx::upto(3) {
        0 => h.restore(0),
        1 => h.restore(1),
        2 => {
            h.restore(1);
            h.forget(0);
        }
        _ => {
            h.forget(0);
            h.save(2);
        }
    }
    go(&mut h, leg);
    h.look_back(1);
    if sx::flag() {
        h.peek();
    }
    cover!();
    h.finish();
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_phases() {
    phases(20 + 10 * DEEP, 8 + 4 * DEEP, false);
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_phases_jump() {
    phases(20 + 10 * DEEP, 8 + 4 * DEEP, true);
}
/// Saving ahead of the cursor, then walking, going back, forgetting.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_save_ahead() {
    let mut h = H::new(Input::symbolic(14 + 6 * DEEP, 255), 3);
    let a = sx::upto(5);
    h.walk(a);
    if sx::flag() {
        h.save(0);
    }
    let b = sx::upto(8);
    h.save_at(1, b);
    if sx::flag() {
        h.look_back(1);
    }
    let c = sx::upto(3 + DEEP);
    h.walk(c);
    if sx::flag() {
        h.peek();
    }
    if sx::flag() {
        h.save(2);
    }
    h.restore(1);
    h.walk(2);
    cover!();
    h.finish();
}
/// Many saved states, any of them dropped, then more of them.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_many_saved() {
    const M: usize = 9 + 3 * DEEP;
    let mut h = H::new(Input::positions(40), M + 2);
    let gap = sx::upto(1);
    for j in 0..M {
        h.save(j);
        h.walk(gap);
    }
    for j in 0..M {
        if sx::flag() {
            h.forget(j);
        }
    }
    h.save(M);
    let k = sx::range(1, 3);
    h.walk(2 * k);
    h.save(M + 1);
    h.walk(8);
    cover!();
    h.finish();
}
/// A long input: one state is kept at any position, another one further on.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_far() {
    let n = 70 + 70 * DEEP;
    let mut h = H::new(Input::positions(n), 2);
    let p = sx::concrete(sx::upto(n));
    h.walk(p);
    h.save(0);
    let q = sx::concrete(sx::upto(n - p));
    h.walk(q);
    h.restore(0);
    let r = q / 2;
    h.walk(r);
    h.save(1);
    h.forget(0);
    h.walk(n);
    cover!();
    h.finish();
}
/// A saved state at each of many positions, any run of them dropped, the rest
/// kept far behind.
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_hoard() {
    const M: usize = 36 + 36 * DEEP;
    let mut h = H::new(Input::positions(2 * M), M + 1);
    for j in 0..M {
        h.save(j);
        h.walk(1);
    }
    let a = sx::concrete(sx::upto(M - 1));
    let k = sx::concrete(sx::upto(M - a));
    for j in a..a + k {
        h.forget(j);
    }
    h.walk(3);
    h.save(M);
    h.walk(M);
    cover!();
    h.finish();
}
/// Going back is what saved states are for: anything else is refused.
#[no_mangle]
pub extern "C" fn h_backwards() {
    let n = 6;
    let mut h = H::new(Input::positions(n), 1);
    let p = 1 + sx::concrete(sx::upto(n - 1));
    if sx::flag() {
        h.walk(p);
    } else {
        h.to(p);
    }
    if sx::flag() {
        h.save(0);
    }
    if sx::flag() {
        h.peek();
    }
    let to = sx::concrete(sx::upto(p - 1));
    refused!();
    if sx::flag() {
        h.s.advance_to(to);
    } else {
        h.s.save_at(to);
    }
}
/// The transactional wrapper: nothing happened if it says so.
// @sx shards=4
#[no_mangle]
pub extern "C" fn h_attempt() {
    let mut h = H::new(Input::symbolic(8, 255), 1);
    let (a, b, c, d) = (sx::concrete(sx::upto(3)), sx::concrete(sx::upto(5)), sx::concrete(sx::upto(3)), sx::concrete(sx::upto(2)));
    let (inner, outer) = (sx::flag(), sx::flag());
    h.walk(a);
    let n = h.input.n;
    let p0 = h.pos;
    let p1 = (p0 + b).min(n);
    let p2 = if inner { (p1 + c).min(n) } else { p1 };
    let p3 = (p2 + d).min(n);
    let at = h.s.attempt(|s| {
        for _ in 0..b {
            s.advance();
        }
        let x = s.attempt(|s| {
            for _ in 0..c {
                s.advance();
            }
            if inner {
                Ok(11)
            } else {
                Err(12)
            }
        });
        for _ in 0..d {
            s.advance();
        }
        let r = (x, s.index());
        if outer {
            Ok(r)
        } else {
            Err(r)
        }
    });
    check!(at == (if inner { 11 } else { 12 }, p3));
    h.pos = if outer { p3 } else { p0 };
    h.whereabouts();
    cover!();
    h.finish();
}
