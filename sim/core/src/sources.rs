//! Everything a caller can hand to the library, played by the simulator.

use crate::ctx::{ctx, pulled, seam, Fault, Site, What};
use serde::{Deserialize, Serialize};
use std::fmt;
use std::ops::{Bound, RangeBounds};

fn took(site: Site, what: What) {
    let c = ctx();
    let at = c.counts[site as usize];
    c.note_fired(Fault { site, at, what });
}

#[derive(Clone, Copy)]
pub struct SimStr<'a> {
    pub main: &'a str,
    pub alt: &'a str,
}
impl AsRef<str> for SimStr<'_> {
    fn as_ref(&self) -> &str {
        let s = seam(Site::AsRef);
        if s.what == Some(What::Alt) {
            took(Site::AsRef, What::Alt);
            return self.alt;
        }
        self.main
    }
}

#[derive(Clone, Copy)]
pub struct SimUnits<'a> {
    pub main: &'a [u16],
    pub alt: &'a [u16],
}
impl AsRef<[u16]> for SimUnits<'_> {
    fn as_ref(&self) -> &[u16] {
        let s = seam(Site::Units);
        if s.what == Some(What::Alt) {
            took(Site::Units, What::Alt);
            return self.alt;
        }
        self.main
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Hint {
    Honest,
    Zero,
    Huge,
    Inverted,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Shape {
    pub endless: bool,
    pub hint: Hint,
}

/// An iterator over items, possibly endless, lying about its size, stopping and going on.
pub struct SimIter<'a, T> {
    pub items: &'a [T],
    pub pos: usize,
    pub shape: Shape,
    pub empty: fn(&T) -> bool,
}
impl<'a, T> SimIter<'a, T> {
    fn step(&mut self) -> Option<&'a T> {
        let s = seam(Site::Next);
        if s.what == Some(What::Gap) {
            took(Site::Next, What::Gap);
            return None;
        }
        if self.items.is_empty() || (self.pos >= self.items.len() && !self.shape.endless) {
            return None;
        }
        let it = &self.items[self.pos % self.items.len()];
        self.pos += 1;
        if !(self.empty)(it) {
            pulled();
        }
        Some(it)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len().saturating_sub(self.pos);
        match self.shape.hint {
            Hint::Honest if self.shape.endless && !self.items.is_empty() => (usize::MAX, None),
            Hint::Honest => (n, Some(n)),
            Hint::Zero => (0, Some(0)),
            Hint::Huge => (usize::MAX, None),
            Hint::Inverted => (usize::MAX / 2, Some(1)),
        }
    }
}
pub struct Chars<'a>(pub SimIter<'a, char>);
impl Iterator for Chars<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.0.step().copied()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint()
    }
}
pub struct CharRefs<'a>(pub SimIter<'a, char>);
impl<'a> Iterator for CharRefs<'a> {
    type Item = &'a char;
    fn next(&mut self) -> Option<&'a char> {
        self.0.step()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint()
    }
}
/// pieces as text conversions
pub struct Strs<'a>(pub SimIter<'a, (String, String)>);
impl<'a> Iterator for Strs<'a> {
    type Item = SimStr<'a>;
    fn next(&mut self) -> Option<SimStr<'a>> {
        self.0.step().map(|(m, a)| SimStr { main: m, alt: a })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint()
    }
}
/// pieces as plain slices
pub struct Pieces<'a>(pub SimIter<'a, (String, String)>);
impl<'a> Iterator for Pieces<'a> {
    type Item = &'a str;
    fn next(&mut self) -> Option<&'a str> {
        self.0.step().map(|(m, _)| m.as_str())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct SimRange {
    pub start: Bound<usize>,
    pub end: Bound<usize>,
    pub alt_start: Bound<usize>,
    pub alt_end: Bound<usize>,
}
fn as_ref(b: &Bound<usize>) -> Bound<&usize> {
    match b {
        Bound::Included(x) => Bound::Included(x),
        Bound::Excluded(x) => Bound::Excluded(x),
        Bound::Unbounded => Bound::Unbounded,
    }
}
impl RangeBounds<usize> for SimRange {
    fn start_bound(&self) -> Bound<&usize> {
        let s = seam(Site::Range);
        if s.what == Some(What::Alt) {
            took(Site::Range, What::Alt);
            return as_ref(&self.alt_start);
        }
        as_ref(&self.start)
    }
    fn end_bound(&self) -> Bound<&usize> {
        let s = seam(Site::Range);
        if s.what == Some(What::Alt) {
            took(Site::Range, What::Alt);
            return as_ref(&self.alt_end);
        }
        as_ref(&self.end)
    }
}

/// A hasher that keeps what it is fed, and in which pieces.
pub struct SimHasher {
    pub buf: Vec<u8>,
}
impl SimHasher {
    pub fn new() -> Self {
        SimHasher {
            buf: Vec::with_capacity(2048),
        }
    }
}
impl std::hash::Hasher for SimHasher {
    fn write(&mut self, b: &[u8]) {
        let _s = seam(Site::Hasher);
        self.buf.extend_from_slice(b);
        // many hashers pad what they are given at a time: what comes together counts
        self.buf.extend_from_slice(&(b.len() as u16).to_le_bytes());
    }
    fn finish(&self) -> u64 {
        crate::rng::hash_bytes(7, &self.buf)
    }
}

/// A sink with limited room, or one that fails at a chosen write.
pub struct SimSink {
    pub buf: String,
    pub room: usize,
    pub failed: bool,
    pub after_failure: bool,
}
impl SimSink {
    pub fn new(room: usize) -> Self {
        SimSink {
            buf: String::with_capacity(8192),
            room,
            failed: false,
            after_failure: false,
        }
    }
}
impl fmt::Write for SimSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let g = seam(Site::Sink);
        if std::str::from_utf8(s.as_bytes()).is_err() {
            ctx().bad = Some("a sink was handed text that is not UTF-8");
            return Err(fmt::Error);
        }
        if self.failed {
            self.after_failure = true;
            return Err(fmt::Error);
        }
        if g.what == Some(What::Err) {
            took(Site::Sink, What::Err);
            self.failed = true;
            return Err(fmt::Error);
        }
        if s.len() > self.room {
            // a short write: what fits arrives, the rest does not
            let mut n = self.room;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            self.buf.push_str(&s[..n]);
            self.room = 0;
            self.failed = true;
            return Err(fmt::Error);
        }
        self.room -= s.len();
        self.buf.push_str(s);
        Ok(())
    }
}

/// A value that renders itself piece by piece, may fail or panic in between, and may ignore
/// the refusal of a piece.
pub struct SimSource<'a> {
    pub pieces: &'a [String],
    pub ignore: bool,
    pub by_char: bool,
}
impl fmt::Display for SimSource<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        use fmt::Write;
        for p in self.pieces {
            {
                let g = seam(Site::Source);
                if g.what == Some(What::Err) {
                    took(Site::Source, What::Err);
                    return Err(fmt::Error);
                }
            }
            let r = if self.by_char {
                p.chars().try_for_each(|c| f.write_char(c))
            } else {
                f.write_str(p)
            };
            if r.is_err() && !self.ignore {
                return r;
            }
        }
        Ok(())
    }
}
