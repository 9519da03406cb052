//! Texts, positions and ranges, described relative to the state they meet.

use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::ops::Bound;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fit {
    /// that many bytes
    Len(u32),
    /// the room left, plus that many bytes
    Rem(i16),
    /// the capacity, plus that many bytes
    Cap(i16),
}

/// Another character of the same length.
fn swapped(c: char) -> char {
    match c.len_utf8() {
        1 if c.is_ascii_alphabetic() => (c as u8 ^ 0x20) as char,
        1 => ((c as u8) ^ 1) as char,
        2 => char::from_u32(c as u32 ^ 1).unwrap(),
        3 => char::from_u32(c as u32 ^ 1).unwrap_or('\u{20ac}'),
        _ => char::from_u32(c as u32 ^ 0x20).unwrap_or('\u{1F914}'),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Txt {
    pub fit: Fit,
    pub style: u8,
    pub seed: u32,
    /// some characters that are to be in it
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub spice: Option<Spice>,
    /// what an equivocating conversion answers instead
    pub alt: Fit,
}
pub const STYLES: u8 = 10;
/// the text it meets, as long as that is, with other characters in part of it
pub const RESHAPED: u8 = STYLES + 2;

/// A word of one to three characters.
pub type Spice = (char, Option<char>, Option<char>);

/// Characters and numbers that the code under test mentions: what it singles out, the texts,
/// lengths and places of some runs are made of.
#[derive(Default, Deserialize)]
pub struct Dict {
    pub chars: Vec<char>,
    pub ints: Vec<u32>,
}
static DICT: OnceLock<Dict> = OnceLock::new();
pub fn register_dict(d: Dict) {
    let _ = DICT.set(d);
}
pub fn dict() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}
impl Dict {
    pub fn chr(&self, r: &mut Rng) -> Option<char> {
        if self.chars.is_empty() || !r.chance(1, 6) {
            return None;
        }
        let c = *r.pick(&self.chars);
        Some(match r.below(12) {
            0 => char::from_u32(c as u32 + 1).unwrap_or(c),
            1 => char::from_u32((c as u32).saturating_sub(1)).unwrap_or(c),
            _ => c,
        })
    }
    pub fn word(&self, r: &mut Rng) -> Option<Spice> {
        let c = self.chr(r)?;
        let mut more = |n| r.chance(1, n).then(|| *r.pick(&self.chars));
        Some((c, more(3), more(6)))
    }
    pub fn int(&self, r: &mut Rng) -> Option<u32> {
        if self.ints.is_empty() || !r.chance(1, 6) {
            return None;
        }
        let n = *r.pick(&self.ints);
        Some((n + r.below(3) as u32).saturating_sub(1))
    }
}

fn one(style: u8, r: &mut Rng) -> char {
    const WS: &[char] = &[
        ' ', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{85}', '\u{a0}', '\u{1680}', '\u{2003}',
        '\u{2028}', '\u{202f}', '\u{205f}', '\u{3000}', 'x', '\u{200b}', '\u{e9}', '\u{1F600}',
        '\u{feff}', '\u{180e}',
    ];
    const JS: &[char] = &[
        '"', '\\', '/', '\n', '\r', '\t', '\u{8}', '\u{c}', '\0', '\u{1f}', '\u{7f}', 'a',
        '\u{e9}', '\u{2028}', '\u{1F914}', '\'', '%', '_', ';',
    ];
    const EDGE: &[char] = &[
        '\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{fffd}',
        '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{301}', '\u{200d}', '\u{feff}', '\u{fe0f}',
    ];
    const CASE: &[char] = &[
        'a', 'Z', '\u{df}', '\u{130}', '\u{131}', '\u{1c5}', '\u{3a3}', '\u{fb01}', 'k', '\u{212a}',
    ];
    let ascii = |r: &mut Rng| (b'a' + r.below(26) as u8) as char;
    let two = |r: &mut Rng| char::from_u32(0x80 + r.below(0x780) as u32).unwrap();
    let three = |r: &mut Rng| char::from_u32(0x800 + r.below(0xD000) as u32).unwrap_or('\u{20ac}');
    let four = |r: &mut Rng| char::from_u32(0x10000 + r.below(0x100000) as u32).unwrap();
    match style % STYLES {
        0 => ascii(r),
        1 => match r.below(4) {
            0 => ascii(r),
            1 => two(r),
            2 => three(r),
            _ => four(r),
        },
        2 => two(r),
        3 => three(r),
        4 => four(r),
        5 => *r.pick(WS),
        6 => *r.pick(JS),
        7 => *r.pick(EDGE),
        8 => *r.pick(CASE),
        _ => match r.below(8) {
            0 => two(r),
            1 => three(r),
            2 => four(r),
            _ => (b' ' + r.below(95) as u8) as char,
        },
    }
}

pub fn target(fit: Fit, cap: usize, len: usize) -> usize {
    let t = match fit {
        Fit::Len(n) => n as i64,
        Fit::Rem(d) => cap as i64 - len as i64 + d as i64,
        Fit::Cap(d) => cap as i64 + d as i64,
    };
    t.clamp(0, 70_000) as usize
}

/// A text of that many bytes: exactly (`seed` even), or one whose last character straddles the
/// mark.
pub fn make(style: u8, seed: u32, want: usize) -> String {
    spiced(style, seed, None, want)
}
fn spiced(style: u8, seed: u32, spice: Option<Spice>, want: usize) -> String {
    let mut r = Rng::new(seed as u64 * 8 + 1);
    let same = r.chance(1, 8).then(|| one(style, &mut r));
    let mut s = String::with_capacity(want + 4);
    let word: Option<String> =
        spice.map(|w| [Some(w.0), w.1, w.2].into_iter().flatten().collect());
    let often = if word.is_some() { *r.pick(&[1, 2, 4, 40]) } else { 0 };
    let last = word.is_some() && r.chance(1, 3);
    while s.len() < want {
        let left = want - s.len();
        if let Some(w) = &word {
            let fits = w.len() <= left || seed % 2 == 1;
            if (last && w.len() == left) || (fits && r.chance(1, often)) {
                s.push_str(w);
                continue;
            }
        }
        let mut c = same.unwrap_or_else(|| one(style, &mut r));
        if c.len_utf8() > left && seed % 2 == 0 {
            c = match left {
                1 => 'z',
                2 => '\u{e9}',
                _ => '\u{20ac}',
            };
        }
        s.push(c);
    }
    s
}
fn reshaped(cur: &str, seed: u32) -> String {
    let mut r = Rng::new(seed as u64 * 8 + 7);
    let b = bounds(cur);
    let mut at = |edge: usize, n: usize| if r.chance(1, n) { edge } else { b[r.below(b.len())] };
    let (i, j) = (at(0, 3), at(cur.len(), 3));
    let (i, j) = (i.min(j), i.max(j));
    let other = make(r.below(STYLES as usize) as u8, seed & !1, j - i);
    [&cur[..i], &other, &cur[j..]].concat()
}
impl Txt {
    pub fn text(&self, cap: usize, len: usize) -> String {
        spiced(self.style, self.seed, self.spice, target(self.fit, cap, len))
    }
    /// With a style beyond the others, the text is made from the one it meets.
    /// `past` is that text with what is left of earlier ones behind it; `at` where it goes.
    pub fn on(&self, cap: usize, cur: &str, past: &str, at: (usize, usize)) -> String {
        if self.style < STYLES || past.is_empty() {
            return self.text(cap, cur.len());
        }
        let len = cur.len();
        if self.style >= RESHAPED && !cur.is_empty() {
            return reshaped(cur, self.seed);
        }
        let cur = if self.style == STYLES && !cur.is_empty() { cur } else { past };
        let mut r = Rng::new(self.seed as u64 * 8 + 5);
        let b = bounds(cur);
        let from = match r.below(5) {
            0 => 0,
            1 => *r.pick(&b),
            _ if cur.is_char_boundary(at.0) => at.0,
            _ => 0,
        };
        let want = match r.below(5) {
            0 => cur.len(),
            1 => cur.len() - from,
            2 if at.0 < at.1 => (at.1 - at.0).min(cur.len() - from),
            _ => target(self.fit, cap, len),
        };
        let mut s = String::with_capacity(want + 4);
        for c in cur[from..].chars().chain(cur.chars().cycle()) {
            if s.len() >= want || (s.len() + c.len_utf8() > want && self.seed % 2 == 0) {
                break;
            }
            s.push(c);
        }
        // the same but for one character
        match r.below(6) {
            0 if !s.is_empty() => {
                let last = s.pop().unwrap();
                s.push(swapped(last));
            }
            1 if !s.is_empty() => {
                let b = bounds(&s);
                let k = b[r.below(b.len() - 1)];
                let c = s.remove(k);
                s.insert(k, swapped(c));
            }
            2 => s.extend(cur.chars().next_back()),
            _ => {}
        }
        s
    }
    pub fn other(&self, cap: usize, len: usize) -> String {
        make(
            self.style / 3 + 1,
            self.seed.wrapping_mul(31) ^ 5,
            target(self.alt, cap, len),
        )
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Chr {
    pub style: u8,
    pub seed: u32,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub spice: Option<char>,
}
impl Chr {
    pub fn on(&self, cur: &str) -> char {
        if self.style < STYLES || cur.is_empty() {
            return self.get();
        }
        match self.seed % 3 {
            0 => cur.chars().next_back().unwrap(),
            1 => cur.chars().next().unwrap(),
            _ => cur.chars().nth(self.seed as usize / 3 % cur.chars().count()).unwrap(),
        }
    }
    pub fn get(&self) -> char {
        self.spice
            .unwrap_or_else(|| one(self.style, &mut Rng::new(self.seed as u64 * 8 + 3)))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Pos {
    /// the boundary before the k-th character (cyclic)
    Ch(u8),
    /// inside the k-th multi-byte character
    Mid(u8),
    Len,
    Past(u16),
    Abs(u32),
    /// usize::MAX less this
    Max(u8),
    /// 256 times the first more than the boundary before the second
    Wrap(u8, u8),
    /// where the last operation that named a place did: its first, or its second
    Again(u8),
}
pub fn bounds(s: &str) -> Vec<usize> {
    let mut v: Vec<usize> = s.char_indices().map(|x| x.0).collect();
    v.push(s.len());
    v
}
impl Pos {
    pub fn at(&self, s: &str) -> usize {
        match *self {
            Pos::Ch(k) => {
                let b = bounds(s);
                b[k as usize % b.len()]
            }
            Pos::Mid(k) => {
                let m: Vec<usize> = (1..s.len()).filter(|i| !s.is_char_boundary(*i)).collect();
                if m.is_empty() {
                    s.len() + 1 + k as usize % 3
                } else {
                    m[k as usize % m.len()]
                }
            }
            Pos::Len => s.len(),
            Pos::Past(n) => s.len() + 1 + n as usize,
            Pos::Abs(n) => n as usize,
            Pos::Again(_) => 0,
            Pos::Max(k) => usize::MAX - k as usize,
            Pos::Wrap(n, k) => {
                let b = bounds(s);
                256 * (n as usize + 1) + b[k as usize % b.len()]
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Span {
    /// 0 included, 1 excluded, 2 unbounded
    pub sb: u8,
    pub s: Pos,
    pub eb: u8,
    pub e: Pos,
    /// put the ends in order
    pub sort: bool,
    /// bounds are meant as the effective ends, whatever their kind
    pub adj: bool,
    pub alt_s: Pos,
    pub alt_e: Pos,
}
impl Span {
    fn resolve(&self, ps: Pos, pe: Pos, t: &str) -> (Bound<usize>, Bound<usize>) {
        let (mut a, mut b) = (ps.at(t), pe.at(t));
        if self.sort && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let s = match self.sb {
            2 => Bound::Unbounded,
            1 if self.adj && a == 0 => Bound::Included(0),
            1 if self.adj => Bound::Excluded(a - 1),
            1 => Bound::Excluded(a),
            _ => Bound::Included(a),
        };
        let e = match self.eb {
            2 => Bound::Unbounded,
            0 if self.adj && b > 0 => Bound::Included(b - 1),
            0 if !self.adj => Bound::Included(b),
            _ => Bound::Excluded(b),
        };
        (s, e)
    }
    pub fn range(&self, t: &str) -> crate::sources::SimRange {
        let (start, end) = self.resolve(self.s, self.e, t);
        let (alt_start, alt_end) = self.resolve(self.alt_s, self.alt_e, t);
        crate::sources::SimRange {
            start,
            end,
            alt_start,
            alt_end,
        }
    }
}
/// The ends a range means, exactly.
pub fn ends(r: &crate::sources::SimRange, len: usize) -> (u128, u128) {
    let s = match r.start {
        Bound::Included(x) => x as u128,
        Bound::Excluded(x) => x as u128 + 1,
        Bound::Unbounded => 0,
    };
    let e = match r.end {
        Bound::Included(x) => x as u128 + 1,
        Bound::Excluded(x) => x as u128,
        Bound::Unbounded => len as u128,
    };
    (s, e)
}

/// Where a text is cut into pieces, some of them empty.
pub fn pieces(s: &str, seed: u32) -> Vec<String> {
    let mut r = Rng::new(seed as u64 * 8 + 5);
    let style = r.below(5);
    let mut out = Vec::new();
    let mut cur = String::new();
    for c in s.chars() {
        cur.push(c);
        let cut = match style {
            0 => true,
            1 => r.chance(1, 2),
            2 => r.chance(1, 6),
            3 => r.chance(1, 40),
            _ => false,
        };
        if cut {
            out.push(std::mem::take(&mut cur));
            if r.chance(1, 6) {
                out.push(String::new());
            }
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

/// A UTF-16 link's mischief with the unit at a place.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Link {
    Lose,
    Dup,
    /// arrives that many places later
    Delay(u8),
    Flip(u8),
    /// replaced by an unpaired surrogate
    Bad(u16),
    Cut,
}
pub fn carry(text: &str, mischief: &[(u16, Link)]) -> (Vec<u16>, [u32; 6]) {
    // (arrival time, sequence, unit): a discrete-event link with unit delay
    let mut q: Vec<(usize, usize, u16)> = Vec::new();
    let mut hits = [0u32; 6];
    let units: Vec<u16> = text.encode_utf16().collect();
    let mut seq = 0;
    'outer: for (i, u) in units.iter().enumerate() {
        let (mut u, mut at, mut copies) = (*u, 4 * i, 1);
        for (_, l) in mischief
            .iter()
            .filter(|(k, _)| *k as usize % units.len() == i)
        {
            match *l {
                Link::Lose => {
                    copies = 0;
                    hits[0] += 1
                }
                Link::Dup => {
                    copies *= 2;
                    hits[1] += 1
                }
                Link::Delay(d) => {
                    at += 4 * d as usize + 2;
                    hits[2] += 1
                }
                Link::Flip(b) => {
                    u ^= 1 << (b % 16);
                    hits[3] += 1
                }
                Link::Bad(x) => {
                    u = 0xD800 | (x & 0x7FF);
                    hits[4] += 1
                }
                Link::Cut => {
                    hits[5] += 1;
                    break 'outer;
                }
            }
        }
        for _ in 0..copies {
            q.push((at, seq, u));
            seq += 1;
        }
    }
    q.sort();
    (q.into_iter().map(|x| x.2).collect(), hits)
}
