//! The result type's methods against their meaning on (tree, errors, index).
//!
//! All three variants with 0 to 3 (thorough: 5) or 20 errors of symbolic content,
//! trees and indices symbolic over the whole range; all outcomes of fallible
//! transformations (again 0 to 3 (5) or 20 errors); every chain of 3 (4)
//! transformations; results as produced by a real parser; every step of the
//! error iterator, of several at once, and past its end.
use crate::model::*;
use crate::sx;
use ppoc::parser::{Parser, Result as PR};

const DEEP: usize = cfg!(feature = "deep") as usize;
const ERRS: usize = 3 + 2 * DEEP;
const MANY: usize = 20;

fn ers(max: usize) -> Vec<Er> {
    // Few, or many.
    let n = match sx::concrete(sx::upto(max + 1)) {
        n if n > max => MANY,
        n => n,
    };
    let mut v = Vec::new();
    for _ in 0..n {
        let mut e = Er::child(sx::var(u64::MAX));
        e.exp = sx::var(u64::MAX);
        v.push(e);
    }
    v
}
fn any_index() -> usize {
    sx::var(u64::MAX) as usize
}
fn result(max: usize) -> PR<u64, Er> {
    match sx::concrete(sx::upto(2)) {
        0 => PR::Success(sx::var(u64::MAX)),
        1 => PR::Recovered(sx::var(u64::MAX), ers(max)),
        _ => PR::Failed(any_index(), ers(max)),
    }
}
/// The same thing, taken apart.
#[derive(Clone)]
struct Parts {
    kind: u64,
    tree: u64,
    index: usize,
    errs: Vec<Er>,
}
fn parts(r: &PR<u64, Er>) -> Parts {
    match r {
        PR::Success(o) => Parts { kind: 0, tree: *o, index: 0, errs: vec![] },
        PR::Recovered(o, e) => Parts { kind: 1, tree: *o, index: 0, errs: e.clone() },
        PR::Failed(i, e) => Parts { kind: 2, tree: 0, index: *i, errs: e.clone() },
    }
}
fn same(r: &PR<u64, Er>, p: &Parts) -> bool {
    match r {
        PR::Success(o) => (p.kind == 0) & (*o == p.tree) & p.errs.is_empty(),
        PR::Recovered(o, e) => (p.kind == 1) & (*o == p.tree) & same_ers(e, &p.errs),
        PR::Failed(i, e) => (p.kind == 2) & (*i == p.index) & same_ers(e, &p.errs),
    }
}

#[no_mangle]
pub extern "C" fn h_inspect() {
    let r = result(ERRS);
    let p = parts(&r);
    check!(r.is_ok() == (p.kind == 0));
    match r.tree() {
        Some(t) => check!((p.kind < 2) & (*t == p.tree)),
        None => check!(p.kind == 2),
    }
    // One at a time, and past the end.
    let mut it = r.errors();
    let mut other = r.errors();
    for e in &p.errs {
        check!(match it.next() {
            Some(x) => same_er(x, e),
            None => false,
        });
    }
    check!(it.next().is_none());
    check!(it.next().is_none());
    // A second iterator is not affected by the first.
    if p.errs.len() > 1 {
        check!(match other.nth(1) {
            Some(x) => same_er(x, &p.errs[1]),
            None => false,
        });
        check!(other.count() == p.errs.len() - 2);
    } else {
        check!(other.count() == p.errs.len());
    }
    let (lo, hi) = r.errors().size_hint();
    check!(lo <= p.errs.len());
    check!(hi.map(|h| h >= p.errs.len()).unwrap_or(true));
    match r.errors().last() {
        Some(x) => check!(p.errs.last().map(|e| same_er(x, e)).unwrap_or(false)),
        None => check!(p.errs.is_empty()),
    }
    check!(same_ers(&r.errors().cloned().collect::<Vec<_>>(), &p.errs));
    // Looking changes nothing; a copy is the same.
    check!(same(&r, &p));
    check!(same(&r.clone(), &p));
    check!(r.is_ok() == (p.kind == 0));
    observe(&r, 0, |x| *x);
    cover!();
}
#[no_mangle]
pub extern "C" fn h_map() {
    let r = result(ERRS);
    let mut p = parts(&r);
    let k = sx::var(u64::MAX);
    let mut calls = 0u64;
    let m = r.map(|o| {
        calls += 1;
        o ^ k
    });
    check!(calls == if p.kind < 2 { 1 } else { 0 });
    p.tree ^= k;
    check!(same(&m, &p));
    // To another type.
    let q = m.map(|o| if o < 5 { Some(vec![o]) } else { None });
    match (&q, p.kind) {
        (PR::Success(o), 0) | (PR::Recovered(o, _), 1) => {
            check!(o.is_some() == (p.tree < 5));
            if let Some(v) = o {
                check!(v.len() == 1 && v[0] == p.tree);
            }
        }
        (PR::Failed(i, _), 2) => check!(*i == p.index),
        _ => check!(false),
    }
    check!(same_ers(&q.errors().cloned().collect::<Vec<_>>(), &p.errs));
    cover!();
}
#[no_mangle]
pub extern "C" fn h_map_err() {
    let r = result(ERRS);
    let mut p = parts(&r);
    // Told apart by when they are seen: each once, in order.
    let mut calls = 0u64;
    let m = r.map_err(|mut e| {
        calls += 1;
        e.found = calls;
        e.tag ^= calls;
        e
    });
    check!(calls == p.errs.len() as u64);
    for (k, e) in p.errs.iter_mut().enumerate() {
        e.found = k as u64 + 1;
        e.tag ^= k as u64 + 1;
    }
    check!(same(&m, &p));
    let q: PR<u64, (u64, u64)> = m.map_err(|e| (e.exp, e.tag));
    let es: Vec<(u64, u64)> = q.errors().cloned().collect();
    check!(es.len() == p.errs.len());
    for (x, e) in es.iter().zip(&p.errs) {
        check!((x.0 == e.exp) & (x.1 == e.tag));
    }
    match (&q, p.kind) {
        (PR::Success(o), 0) | (PR::Recovered(o, _), 1) => check!(*o == p.tree),
        (PR::Failed(i, _), 2) => check!(*i == p.index),
        _ => check!(false),
    }
    cover!();
}
/// What a fallible transformation has to give.
fn tried(p: &Parts, f: &Parts) -> Parts {
    if p.kind == 2 {
        return p.clone();
    }
    let mut errs = p.errs.clone();
    errs.extend(f.errs.iter().cloned());
    Parts { kind: p.kind.max(f.kind), errs, ..f.clone() }
}
// @sx shards=4
#[no_mangle]
pub extern "C" fn h_try_map() {
    let r = result(ERRS);
    let f = result(ERRS);
    let (p, q) = (parts(&r), parts(&f));
    let mut seen = None;
    let m = r.try_map(|o| {
        seen = Some(o);
        f
    });
    match seen {
        Some(o) => check!((p.kind < 2) & (o == p.tree)),
        None => check!(p.kind == 2),
    }
    check!(same(&m, &tried(&p, &q)));
    match kind(&m) {
        0 => cover!(),
        1 => cover!(),
        _ => cover!(),
    }
    observe(&m, 0, |x| *x);
}
// @sx shards=8
#[no_mangle]
pub extern "C" fn h_chain() {
    let mut r = result(2);
    let mut p = parts(&r);
    for _ in 0..3 + DEEP {
        match sx::concrete(sx::upto(2)) {
            0 => {
                r = r.map(|o| o.wrapping_add(1));
                p.tree = p.tree.wrapping_add(1);
            }
            1 => {
                let f = |mut e: Er| {
                    e.tag = e.tag.wrapping_mul(3);
                    e
                };
                r = r.map_err(f);
                p.errs = p.errs.into_iter().map(f).collect();
            }
            _ => {
                let f = result(1);
                let q = parts(&f);
                r = r.try_map(|_| f);
                p = tried(&p, &q);
            }
        }
        check!(r.is_ok() == (p.kind == 0));
        check!(r.tree().is_some() == (p.kind < 2));
    }
    check!(same(&r, &p));
    cover!();
}
fn plain(r: PR<u64, Er>) -> Result<u64, Er> {
    r.into()
}
#[no_mangle]
pub extern "C" fn h_into() {
    let r = result(ERRS);
    let p = parts(&r);
    match plain(r) {
        Ok(o) => {
            check!((p.kind == 0) & (o == p.tree));
            cover!();
        }
        Err(e) => {
            check!(p.kind != 0);
            match p.errs.first() {
                Some(x) => {
                    check!(same_er(&e, x));
                    cover!();
                }
                None => {
                    check!(e.kind == SIMPLE);
                    cover!();
                }
            }
        }
    }
}
/// Results as they come out of parsers: whatever was recovered from can be
/// listed, and the plain form refuses it with the first error.
// @sx shards=2
#[no_mangle]
pub extern "C" fn h_parsed() {
    let n = sx::concrete(sx::upto(2));
    let input = Input::positions(n);
    let w = World::new(Cfg { maxerr: 2, maxlen: 1, ..Cfg::BASE }, &input);
    let p = sym(&w, 1).then(sym(&w, 2)).map(|(a, b)| a ^ (b << 20));
    let r = p.parse_with_recovery(input.src());
    let mut want = None;
    let (mut pos, mut errs, mut kinds) = (0, vec![], 0);
    for id in 1..3 {
        let x = w.result(id, pos, true);
        pos = x.end;
        let q = parts(&x.r);
        errs.extend(q.errs.clone());
        kinds = q.kind.max(kinds);
        if q.kind == 2 {
            errs = q.errs;
            break;
        }
        want = Some(match want {
            None => q.tree,
            Some(a) => a ^ (q.tree << 20),
        });
    }
    check!(r.is_ok() == (kinds == 0));
    check!(r.tree().copied() == if kinds < 2 { want } else { None });
    check!(same_ers(&r.errors().cloned().collect::<Vec<_>>(), &errs));
    match p.parse(input.src()) {
        Ok(o) => check!((kinds == 0) & (Some(o) == want)),
        Err(e) => check!((kinds != 0) & same_er(&e, &errs[0])),
    }
    cover!();
}
