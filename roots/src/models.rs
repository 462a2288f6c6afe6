//! Rust models of std functions whose real implementation uses raw pointers.
//! The analysis engine redirects the std function to the model of the same name
//! (prefix `it_` = Iterator method, `str_` = str method with a closure pattern).
#![allow(clippy::all)]
use core::fmt;
use core::ops::{ControlFlow, FromResidual, Try};

pub fn it_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn it_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn it_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn it_rfind<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    while let Some(x) = it.next_back() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn it_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}
pub fn it_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn it_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next_back() {
        acc = f(acc, x);
    }
    acc
}
pub fn it_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn it_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x).branch() {
            ControlFlow::Continue(c) => acc = c,
            ControlFlow::Break(b) => return FromResidual::from_residual(b),
        }
    }
    R::from_output(acc)
}
pub fn it_try_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next_back() {
        match f(acc, x).branch() {
            ControlFlow::Continue(c) => acc = c,
            ControlFlow::Break(b) => return FromResidual::from_residual(b),
        }
    }
    R::from_output(acc)
}
pub fn it_try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: Try<Output = ()>>(it: &mut I, mut f: F) -> R {
    while let Some(x) = it.next() {
        match f(x).branch() {
            ControlFlow::Continue(()) => {}
            ControlFlow::Break(b) => return FromResidual::from_residual(b),
        }
    }
    R::from_output(())
}
/// An unknown character (known to the analyser by name).
pub fn any_char<'a>() -> &'a str {
    ""
}
pub fn unsupported() -> ! {
    loop {}
}
/// `core::str::Utf8Error`
pub struct BadUtf8 {
    pub valid_up_to: usize,
    pub error_len: Option<u8>,
}
/// Checks a few computed bytes; what the text is is not tracked.
pub fn from_utf8<'a>(v: &'a [u8]) -> Result<&'a str, BadUtf8> {
    let mut i = 0;
    let mut chars = 0;
    while i < v.len() {
        let bad = |k: Option<u8>| Err(BadUtf8 { valid_up_to: i, error_len: k });
        let b = v[i];
        let (w, lo, hi) = if b < 0x80 {
            (1, 0, 0)
        } else if b < 0xC2 {
            return bad(Some(1));
        } else if b < 0xE0 {
            (2, 0x80, 0xBF)
        } else if b < 0xE1 {
            (3, 0xA0, 0xBF)
        } else if b < 0xED {
            (3, 0x80, 0xBF)
        } else if b < 0xEE {
            (3, 0x80, 0x9F)
        } else if b < 0xF0 {
            (3, 0x80, 0xBF)
        } else if b < 0xF1 {
            (4, 0x90, 0xBF)
        } else if b < 0xF4 {
            (4, 0x80, 0xBF)
        } else if b < 0xF5 {
            (4, 0x80, 0x8F)
        } else {
            return bad(Some(1));
        };
        let mut k = 1;
        while k < w {
            if i + k >= v.len() {
                return bad(None);
            }
            let c = v[i + k];
            let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xBF) };
            if c < l || c > h {
                return bad(Some(k as u8));
            }
            k += 1;
        }
        i += w;
        chars += 1;
    }
    if chars == 0 {
        return Ok("");
    }
    if chars > 1 {
        unsupported();
    }
    Ok(any_char())
}
pub fn it_position_count<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let mut n = 0;
    loop {
        match it.next() {
            None => return None,
            Some(x) => {
                if f(x) {
                    return Some(n);
                }
                n += 1;
            }
        }
    }
}
pub fn it_position<I: ExactSizeIterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let n = it.len();
    loop {
        let left = it.len();
        match it.next() {
            None => return None,
            Some(x) => {
                if f(x) {
                    return Some(n - left);
                }
            }
        }
    }
}
pub fn it_rposition<I: ExactSizeIterator + DoubleEndedIterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    loop {
        match it.next_back() {
            None => return None,
            Some(x) => {
                if f(x) {
                    return Some(it.len());
                }
            }
        }
    }
}
pub fn it_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() {
        r = Some(x);
    }
    r
}
pub fn it_nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    loop {
        let x = it.next()?;
        if n == 0 {
            return Some(x);
        }
        n -= 1;
    }
}
pub fn it_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() {
        n += 1;
    }
    n
}

// ---- str methods taking a char predicate
pub fn str_find<P: FnMut(char) -> bool>(s: &str, mut p: P) -> Option<usize> {
    let mut it = s.chars();
    loop {
        let left = it.as_str().len();
        match it.next() {
            None => return None,
            Some(c) => {
                if p(c) {
                    return Some(s.len() - left);
                }
            }
        }
    }
}
pub fn str_rfind<P: FnMut(char) -> bool>(s: &str, mut p: P) -> Option<usize> {
    let mut it = s.chars();
    loop {
        match it.next_back() {
            None => return None,
            Some(c) => {
                if p(c) {
                    return Some(it.as_str().len());
                }
            }
        }
    }
}
pub fn str_contains<P: FnMut(char) -> bool>(s: &str, mut p: P) -> bool {
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if p(c) {
            return true;
        }
    }
    false
}
pub fn str_starts_with<P: FnMut(char) -> bool>(s: &str, mut p: P) -> bool {
    match s.chars().next() {
        Some(c) => p(c),
        None => false,
    }
}
pub fn str_ends_with<P: FnMut(char) -> bool>(s: &str, mut p: P) -> bool {
    match s.chars().next_back() {
        Some(c) => p(c),
        None => false,
    }
}
pub fn str_strip_prefix<P: FnMut(char) -> bool>(s: &str, mut p: P) -> Option<&str> {
    let mut it = s.chars();
    match it.next() {
        Some(c) => {
            if p(c) {
                Some(it.as_str())
            } else {
                None
            }
        }
        None => None,
    }
}
pub fn str_strip_suffix<P: FnMut(char) -> bool>(s: &str, mut p: P) -> Option<&str> {
    let mut it = s.chars();
    match it.next_back() {
        Some(c) => {
            if p(c) {
                Some(it.as_str())
            } else {
                None
            }
        }
        None => None,
    }
}
pub fn str_trim_start_matches<P: FnMut(char) -> bool>(s: &str, mut p: P) -> &str {
    let mut it = s.chars();
    loop {
        let rest = it.as_str();
        match it.next() {
            Some(c) => {
                if !p(c) {
                    return rest;
                }
            }
            None => return rest,
        }
    }
}
pub fn str_trim_end_matches<P: FnMut(char) -> bool>(s: &str, mut p: P) -> &str {
    let mut it = s.chars();
    loop {
        let rest = it.as_str();
        match it.next_back() {
            Some(c) => {
                if !p(c) {
                    return rest;
                }
            }
            None => return rest,
        }
    }
}
pub fn str_split_once<P: FnMut(char) -> bool>(s: &str, mut p: P) -> Option<(&str, &str)> {
    let mut it = s.chars();
    loop {
        let left = it.as_str().len();
        match it.next() {
            None => return None,
            Some(c) => {
                if p(c) {
                    return Some((&s[..s.len() - left], it.as_str()));
                }
            }
        }
    }
}
pub fn str_rsplit_once<P: FnMut(char) -> bool>(s: &str, mut p: P) -> Option<(&str, &str)> {
    let mut it = s.chars();
    loop {
        let end = it.as_str().len();
        match it.next_back() {
            None => return None,
            Some(c) => {
                if p(c) {
                    return Some((it.as_str(), &s[end..]));
                }
            }
        }
    }
}

// ---- a predicate on one byte or char (decided once for every byte or char)
pub fn pred_byte<P: FnMut(u8) -> bool>(s: &[u8], mut p: P) -> bool { p(s[0]) }
pub fn pred_byte_ref<P: FnMut(&u8) -> bool>(s: &[u8], mut p: P) -> bool { p(&s[0]) }
pub fn pred_byte_ref2<P: FnMut(&&u8) -> bool>(s: &[u8], mut p: P) -> bool { p(&&s[0]) }
pub fn pred_char<P: FnMut(char) -> bool>(s: &str, mut p: P) -> bool { p(s.chars().next().unwrap()) }
pub fn pred_char_ref<P: FnMut(&char) -> bool>(s: &str, mut p: P) -> bool { p(&s.chars().next().unwrap()) }

// ---- zip
pub struct ZipM<A, B> {
    a: A,
    b: B,
}
pub fn zip_next<A: Iterator, B: Iterator>(z: &mut ZipM<A, B>) -> Option<(A::Item, B::Item)> {
    let x = z.a.next()?;
    let y = z.b.next()?;
    Some((x, y))
}

// ---- str::split
pub struct SplitM<'a, P> {
    rest: Option<&'a str>,
    pat: P,
}
pub fn str_split<'a, P: core::str::pattern::Pattern + Clone>(s: &'a str, pat: P) -> SplitM<'a, P> {
    SplitM { rest: Some(s), pat }
}
pub fn split_next<'a, P: core::str::pattern::Pattern + Clone>(s: &mut SplitM<'a, P>) -> Option<&'a str> {
    let r = s.rest?;
    match r.split_once(s.pat.clone()) {
        Some((a, b)) => {
            s.rest = Some(b);
            Some(a)
        }
        None => {
            s.rest = None;
            Some(r)
        }
    }
}

// ---- text building
#[cfg(feature = "alloc")]
mod owned {
    extern crate alloc;
    use super::*;
    use alloc::string::String;
    pub fn fmt_format(args: fmt::Arguments<'_>) -> String {
        let mut s = String::new();
        let _ = fmt::write(&mut s, args);
        s
    }
    pub fn to_string<T: fmt::Display + ?Sized>(x: &T) -> String {
        let mut s = String::new();
        if fmt::write(&mut s, format_args!("{}", x)).is_err() {
            panic!("a Display implementation returned an error unexpectedly");
        }
        s
    }
    pub fn string_extend<X: AsRef<str>, I: IntoIterator<Item = X>>(s: &mut String, it: I) {
        let mut it = it.into_iter();
        while let Some(x) = it.next() {
            s.push_str(x.as_ref());
        }
    }
}
#[cfg(feature = "alloc")]
pub use owned::*;

#[cfg(feature = "alloc")]
pub fn string_hash<H: core::hash::Hasher>(s: &alloc::string::String, h: &mut H) {
    core::hash::Hash::hash(s.as_str(), h)
}
