//! One object-safe face for every string type under test. Each method marks exactly the library
//! call with `lib`, so that everything else is the simulator's.

pub use crate::sources::*;
use arraystring::{error, Error};
use std::any::Any;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum E {
    Oob,
    Utf8,
    Utf16,
    Fmt,
    /// shown under the name of another reason, or equal to another
    Misnamed,
}
/// Whether an error is shown under its own name, and under no other.
fn named(e: &(impl std::fmt::Display + std::fmt::Debug), name: &str) -> bool {
    struct Small([u8; 64], usize);
    impl std::fmt::Write for Small {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for b in s.bytes().take(64 - self.1) {
                self.0[self.1] = b;
                self.1 += 1;
            }
            Ok(())
        }
    }
    use std::fmt::Write;
    let mut k = Small([0; 64], 0);
    if crate::ctx::lib(|| write!(k, "{e}")).is_err() {
        return false;
    }
    let shown = k.1;
    let _ = crate::ctx::lib(|| write!(k, "{e:?}"));
    let good = |t: &[u8]| {
        ["OutOfBounds", "Utf8", "Utf16"]
            .iter()
            .all(|n| t.windows(n.len()).any(|w| w == n.as_bytes()) == (*n == name))
    };
    good(&k.0[..shown]) && good(&k.0[shown..k.1])
}
macro_rules! faithful {
    ($($t:ident $e:ident),*) => {
        $(
            impl From<error::$t> for E {
                fn from(e: error::$t) -> E {
                    let good = named(&e, stringify!($t)) && crate::exec::quietly(|| Error::from(e) == Error::$t);
                    if good { E::$e } else { E::Misnamed }
                }
            }
        )*
        impl From<Error> for E {
            fn from(e: Error) -> E {
                let good = match e {
                    $( Error::$t => named(&e, stringify!($t)), )*
                };
                // an error is equal to itself and to no other
                let same = [Error::OutOfBounds, Error::Utf8, Error::Utf16].iter().filter(|o| e == **o).count();
                match e {
                    _ if !good || same != 1 => E::Misnamed,
                    $( Error::$t => E::$e, )*
                }
            }
        }
    };
}
faithful!(OutOfBounds Oob, Utf8 Utf8, Utf16 Utf16);
impl From<std::fmt::Error> for E {
    fn from(_: std::fmt::Error) -> E {
        E::Fmt
    }
}

pub enum Ctor<'a> {
    New,
    Default,
    TryStr(SimStr<'a>),
    StrTrunc(SimStr<'a>),
    From(&'a str),
    Parse(&'a str),
    TryIter(Strs<'a>),
    IterTrunc(Strs<'a>),
    CollectStrs(Pieces<'a>),
    TryChars(Chars<'a>),
    CharsTrunc(Chars<'a>),
    CollectChars(Chars<'a>),
    TryU16(SimUnits<'a>),
    U16Trunc(SimUnits<'a>),
    U16Lossy(SimUnits<'a>),
}
pub enum Ext<'a> {
    Chars(Chars<'a>),
    Refs(CharRefs<'a>),
    Strs(Pieces<'a>),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Idx {
    From(u8),
    To(u8),
    Full,
    Range(u8, u8),
    ToInc(u8),
    Inc(u8, u8),
    /// an inclusive range already iterated to its end
    Spent(u8, u8),
}

pub fn spent<T>(a: T, b: T) -> std::ops::RangeInclusive<T>
where
    std::ops::RangeInclusive<T>: Iterator,
{
    let mut r = a..=b;
    while r.next().is_some() {}
    r
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, serde::Serialize, serde::Deserialize)]
pub enum Via {
    Index,
    MutStr,
    AsMut,
    BorrowMut,
    DerefMut,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Cmp {
    pub eq: bool,
    pub ne: bool,
    pub lt: bool,
    pub le: bool,
    pub gt: bool,
    pub ge: bool,
    pub cmp: i8,
    pub partial: Option<i8>,
    /// the lesser and the greater of the two, and the first kept between the second and itself
    pub chosen: [String; 3],
}
pub type R<T> = Result<T, E>;

pub trait Str {
    fn cap(&self) -> usize;
    fn as_any(&self) -> &dyn Any;
    fn as_any_mut(&mut self) -> &mut dyn Any;
    fn len_(&self) -> usize;
    fn bytes(&self) -> &[u8];
    fn views(&self) -> [&str; 4];
    fn is_empty_(&self) -> bool;
    fn ctor(&mut self, c: Ctor<'_>) -> R<()>;
    fn try_push_str_(&mut self, s: SimStr<'_>) -> R<()>;
    fn push_str_truncate_(&mut self, s: SimStr<'_>);
    fn try_push_(&mut self, c: char) -> R<()>;
    fn truncate_(&mut self, n: usize) -> R<()>;
    fn pop_(&mut self) -> Option<char>;
    fn trim_(&mut self);
    fn remove_(&mut self, n: usize) -> R<char>;
    fn retain_(&mut self, f: &mut dyn FnMut(char) -> bool);
    fn try_insert_(&mut self, n: usize, c: char) -> R<()>;
    fn try_insert_str_(&mut self, n: usize, s: SimStr<'_>) -> R<()>;
    fn insert_str_truncate_(&mut self, n: usize, s: SimStr<'_>) -> R<()>;
    fn clear_(&mut self);
    fn split_off_(&mut self, at: usize, into: Option<&mut dyn Str>) -> R<String>;
    fn drain_(&mut self, r: SimRange) -> R<Box<dyn DrainObj>>;
    fn replace_range_(&mut self, r: SimRange, s: SimStr<'_>) -> R<()>;
    fn extend_(&mut self, e: Ext<'_>);
    fn add_(&mut self, s: &str);
    fn index_(&self, i: Idx) -> String;
    fn edit_(&mut self, via: Via, i: Idx, upper: bool);
    fn write_str_(&mut self, s: &str) -> R<()>;
    fn write_char_(&mut self, c: char) -> R<()>;
    fn write_fmt_(&mut self, a: &SimSource<'_>, lit: bool, b: &SimSource<'_>) -> R<()>;
    /// with flags that mean nothing for a text
    fn display_(&self, k: &mut SimSink, flags: u8) -> R<()>;
    fn debug_(&self, k: &mut SimSink, alt: bool) -> R<()>;
    /// how a string of this type without a past shows the text
    fn twin_debug_(&self, text: &str, alt: bool) -> String;
    fn cmp_(&self, o: &dyn Str) -> Cmp;
    fn cmp_text_(&self, s: &str) -> [bool; 4];
    /// compared with a part of itself
    fn cmp_own_(&self, a: usize, b: usize) -> [bool; 4];
    fn hash_(&self, h: &mut SimHasher, twice: bool);
    fn copy_from_(&mut self, o: &dyn Str, how: u8);
    fn write_lit_(&mut self, i: u8) -> R<()>;
    fn show_as_(&self, k: &mut SimSink, i: u8, w: usize, p: usize) -> R<()>;
    fn to_json_(&self, w: &mut dyn std::io::Write) -> Result<(), String>;
    fn map_lookup_(&self, key: &str) -> (bool, bool);
}

pub trait DrainObj {
    fn next_(&mut self) -> Option<char>;
    fn next_back_(&mut self) -> Option<char>;
    fn as_str_(&self) -> String;
    fn copy_(&self, clone: bool) -> Box<dyn DrainObj>;
    fn collect_(&mut self, rev: bool) -> String;
    fn cmp_(&self, o: &dyn DrainObj) -> Cmp;
    /// A drain of this text alone, with no past.
    fn twin_(&self, text: &str) -> Option<Box<dyn DrainObj>>;
    fn hash_(&self, h: &mut SimHasher);
    fn as_any(&self) -> &dyn Any;
    fn leak_(self: Box<Self>);
    fn debug_(&self) -> String;
    fn iter_(&mut self, kind: u8, n: u8, out: &mut String);
    fn each_(&mut self, kind: u8, f: &mut dyn FnMut(char));
    fn clear_(&mut self);
}

pub struct Kind {
    pub name: &'static str,
    pub cap: usize,
    pub cache: bool,
    pub size: usize,
    pub align: usize,
    /// # Safety
    /// the pointer must be valid for `size` bytes and aligned
    pub init: unsafe fn(*mut u8) -> *mut dyn Str,
}

pub fn ord(o: std::cmp::Ordering) -> i8 {
    o as i8
}

#[derive(Default, Clone)]
pub struct FixedState;
impl std::hash::BuildHasher for FixedState {
    type Hasher = std::collections::hash_map::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        Self::Hasher::new()
    }
}

#[macro_export]
macro_rules! str_impl {
    ($t:ty, $n:expr) => {
        impl Str for W<$t> {
            fn cap(&self) -> usize {
                <$t>::capacity()
            }
            fn as_any(&self) -> &dyn std::any::Any {
                self
            }
            fn as_any_mut(&mut self) -> &mut dyn std::any::Any {
                self
            }
            fn len_(&self) -> usize {
                self.0.len()
            }
            fn bytes(&self) -> &[u8] {
                <$t as AsRef<[u8]>>::as_ref(&self.0)
            }
            fn views(&self) -> [&str; 4] {
                $crate::ctx::lib(|| {
                    [
                        self.0.as_str(),
                        <$t as AsRef<str>>::as_ref(&self.0),
                        &self.0 as &str,
                        <$t as std::borrow::Borrow<str>>::borrow(&self.0),
                    ]
                })
            }
            fn is_empty_(&self) -> bool {
                $crate::ctx::lib(|| self.0.is_empty())
            }
            fn ctor(&mut self, c: Ctor<'_>) -> R<()> {
                use $crate::ctx::lib;
                self.0 = match c {
                    Ctor::New => lib(|| <$t>::new()),
                    Ctor::Default => lib(|| <$t as Default>::default()),
                    Ctor::TryStr(s) => lib(|| <$t>::try_from_str(s))?,
                    Ctor::StrTrunc(s) => lib(|| <$t>::from_str_truncate(s)),
                    Ctor::From(s) => lib(|| <$t as From<&str>>::from(s)),
                    Ctor::Parse(s) => lib(|| <$t as std::str::FromStr>::from_str(s))?,
                    Ctor::TryIter(i) => lib(|| <$t>::try_from_iterator(i))?,
                    Ctor::IterTrunc(i) => lib(|| <$t>::from_iterator_truncate(i)),
                    Ctor::CollectStrs(i) => lib(|| i.collect::<$t>()),
                    Ctor::TryChars(i) => lib(|| <$t>::try_from_chars(i))?,
                    Ctor::CharsTrunc(i) => lib(|| <$t>::from_chars_truncate(i)),
                    Ctor::CollectChars(i) => lib(|| i.collect::<$t>()),
                    Ctor::TryU16(u) => lib(|| <$t>::try_from_utf16(u))?,
                    Ctor::U16Trunc(u) => lib(|| <$t>::from_utf16_truncate(u))?,
                    Ctor::U16Lossy(u) => lib(|| <$t>::from_utf16_lossy_truncate(u)),
                };
                Ok(())
            }
            fn try_push_str_(&mut self, s: SimStr<'_>) -> R<()> {
                Ok($crate::ctx::lib(|| self.0.try_push_str(s))?)
            }
            fn push_str_truncate_(&mut self, s: SimStr<'_>) {
                $crate::ctx::lib(|| self.0.push_str_truncate(s))
            }
            fn try_push_(&mut self, c: char) -> R<()> {
                Ok($crate::ctx::lib(|| self.0.try_push(c))?)
            }
            fn truncate_(&mut self, n: usize) -> R<()> {
                Ok($crate::ctx::lib(|| self.0.truncate(n))?)
            }
            fn pop_(&mut self) -> Option<char> {
                $crate::ctx::lib(|| self.0.pop())
            }
            fn trim_(&mut self) {
                $crate::ctx::lib(|| self.0.trim())
            }
            fn remove_(&mut self, n: usize) -> R<char> {
                Ok($crate::ctx::lib(|| self.0.remove(n))?)
            }
            fn retain_(&mut self, f: &mut dyn FnMut(char) -> bool) {
                $crate::ctx::lib(|| self.0.retain(f))
            }
            fn try_insert_(&mut self, n: usize, c: char) -> R<()> {
                Ok($crate::ctx::lib(|| self.0.try_insert(n, c))?)
            }
            fn try_insert_str_(&mut self, n: usize, s: SimStr<'_>) -> R<()> {
                Ok($crate::ctx::lib(|| self.0.try_insert_str(n, s))?)
            }
            fn insert_str_truncate_(&mut self, n: usize, s: SimStr<'_>) -> R<()> {
                Ok($crate::ctx::lib(|| self.0.insert_str_truncate(n, s))?)
            }
            fn clear_(&mut self) {
                $crate::ctx::lib(|| self.0.clear())
            }
            fn split_off_(&mut self, at: usize, into: Option<&mut dyn Str>) -> R<String> {
                let s: $t = $crate::ctx::lib(|| self.0.split_off(at))?;
                let text = String::from_utf8_lossy(s.as_ref()).into_owned();
                if let Some(o) = into {
                    if let Some(o) = o.as_any_mut().downcast_mut::<W<$t>>() {
                        o.0 = s;
                    }
                }
                Ok(text)
            }
            fn drain_(&mut self, r: SimRange) -> R<Box<dyn DrainObj>> {
                let d: Drain<$n> = $crate::ctx::lib(|| self.0.drain(r))?;
                Ok(Box::new(W(d)))
            }
            fn replace_range_(&mut self, r: SimRange, s: SimStr<'_>) -> R<()> {
                Ok($crate::ctx::lib(|| self.0.replace_range(r, s))?)
            }
            fn extend_(&mut self, e: Ext<'_>) {
                use $crate::ctx::lib;
                match e {
                    Ext::Chars(i) => lib(|| <$t as Extend<char>>::extend(&mut self.0, i)),
                    Ext::Refs(i) => lib(|| <$t as Extend<&char>>::extend(&mut self.0, i)),
                    Ext::Strs(i) => lib(|| <$t as Extend<&str>>::extend(&mut self.0, i)),
                }
            }
            fn add_(&mut self, s: &str) {
                let me = self.0;
                self.0 = $crate::ctx::lib(|| me + s);
            }
            fn index_(&self, i: Idx) -> String {
                let s: &str = $crate::ctx::lib(|| match i {
                    Idx::From(a) => &self.0[a..],
                    Idx::To(b) => &self.0[..b],
                    Idx::Full => &self.0[..],
                    Idx::Range(a, b) => &self.0[a..b],
                    Idx::ToInc(b) => &self.0[..=b],
                    Idx::Inc(a, b) => &self.0[a..=b],
                    Idx::Spent(a, b) => &self.0[$crate::adapt::spent(a, b)],
                });
                String::from_utf8_lossy(s.as_bytes()).into_owned()
            }
            fn edit_(&mut self, via: Via, i: Idx, upper: bool) {
                $crate::ctx::lib(|| {
                    let s: &mut str = match via {
                        Via::Index => match i {
                            Idx::From(a) => &mut self.0[a..],
                            Idx::To(b) => &mut self.0[..b],
                            Idx::Full => &mut self.0[..],
                            Idx::Range(a, b) => &mut self.0[a..b],
                            Idx::ToInc(b) => &mut self.0[..=b],
                            Idx::Inc(a, b) => &mut self.0[a..=b],
                            Idx::Spent(a, b) => &mut self.0[$crate::adapt::spent(a, b)],
                        },
                        Via::MutStr => self.0.as_mut_str(),
                        Via::AsMut => <$t as AsMut<str>>::as_mut(&mut self.0),
                        Via::BorrowMut => <$t as std::borrow::BorrowMut<str>>::borrow_mut(&mut self.0),
                        Via::DerefMut => &mut self.0 as &mut str,
                    };
                    if upper {
                        s.make_ascii_uppercase()
                    } else {
                        s.make_ascii_lowercase()
                    }
                })
            }
            fn write_str_(&mut self, s: &str) -> R<()> {
                Ok($crate::ctx::lib(|| {
                    <$t as std::fmt::Write>::write_str(&mut self.0, s)
                })?)
            }
            fn write_char_(&mut self, c: char) -> R<()> {
                Ok($crate::ctx::lib(|| {
                    <$t as std::fmt::Write>::write_char(&mut self.0, c)
                })?)
            }
            fn write_fmt_(&mut self, a: &SimSource<'_>, lit: bool, b: &SimSource<'_>) -> R<()> {
                use std::fmt::Write;
                Ok($crate::ctx::lib(|| {
                    if lit {
                        write!(self.0, "{}-\u{e9}-{}", a, b)
                    } else {
                        write!(self.0, "{}{}", a, b)
                    }
                })?)
            }
            fn display_(&self, k: &mut SimSink, flags: u8) -> R<()> {
                use std::fmt::Write;
                Ok($crate::ctx::lib(|| match flags {
                    0 => write!(k, "{:#}", self.0),
                    1 => write!(k, "{:+}", self.0),
                    _ => write!(k, "{}", self.0),
                })?)
            }
            fn twin_debug_(&self, text: &str, alt: bool) -> String {
                let t = <$t>::from(text);
                if alt {
                    format!("{t:#?}")
                } else {
                    format!("{t:?}")
                }
            }
            fn debug_(&self, k: &mut SimSink, alt: bool) -> R<()> {
                use std::fmt::Write;
                Ok($crate::ctx::lib(|| {
                    if alt {
                        write!(k, "{:#?}", self.0)
                    } else {
                        write!(k, "{:?}", self.0)
                    }
                })?)
            }
            fn cmp_(&self, o: &dyn Str) -> Cmp {
                let o = o.as_any().downcast_ref::<W<$t>>().expect("same kind");
                #[allow(clippy::unnecessary_min_or_max)]
                let chosen = $crate::ctx::lib(|| {
                    let (lo, hi) = if self.0 <= o.0 { (self.0, o.0) } else { (o.0, self.0) };
                    [
                        Ord::min(self.0, o.0),
                        Ord::max(self.0, o.0),
                        Ord::clamp(self.0, lo, hi),
                    ]
                });
                let chosen = chosen.map(|s| String::from_utf8_lossy(s.as_ref()).into_owned());
                $crate::ctx::lib(|| Cmp {
                    chosen,
                    eq: self.0 == o.0,
                    ne: self.0 != o.0,
                    lt: self.0 < o.0,
                    le: self.0 <= o.0,
                    gt: self.0 > o.0,
                    ge: self.0 >= o.0,
                    cmp: ord(Ord::cmp(&self.0, &o.0)),
                    partial: PartialOrd::partial_cmp(&self.0, &o.0).map(ord),
                })
            }
            fn cmp_own_(&self, a: usize, b: usize) -> [bool; 4] {
                let t: &str = self.0.as_ref();
                self.cmp_text_(t.get(a..b).unwrap_or(t))
            }
            fn cmp_text_(&self, s: &str) -> [bool; 4] {
                $crate::ctx::lib(|| {
                    [
                        <$t as PartialEq<str>>::eq(&self.0, s),
                        <$t as PartialEq<str>>::ne(&self.0, s),
                        <$t as PartialEq<&str>>::eq(&self.0, &s),
                        <$t as PartialEq<&str>>::ne(&self.0, &s),
                    ]
                })
            }
            fn hash_(&self, h: &mut SimHasher, twice: bool) {
                $crate::ctx::lib(|| {
                    if twice {
                        std::hash::Hash::hash_slice(&[self.0, self.0], h)
                    } else {
                        std::hash::Hash::hash(&self.0, h)
                    }
                })
            }
            fn write_lit_(&mut self, i: u8) -> R<()> {
                use std::fmt::Write;
                Ok($crate::write_lit!(self.0, i))
            }
            fn show_as_(&self, k: &mut SimSink, i: u8, w: usize, p: usize) -> R<()> {
                use std::fmt::Write;
                let s = &self.0;
                Ok($crate::ctx::lib(|| match i % 6 {
                    0 => write!(k, "{:1$}", s, w),
                    1 => write!(k, "{:>1$}", s, w),
                    2 => write!(k, "{:.1$}", s, p),
                    3 => write!(k, "{:*^1$.2$}", s, w, p),
                    4 => write!(k, "{:1$?}", s, w),
                    _ => write!(k, "{:#.1$?}", s, p),
                })?)
            }
            fn copy_from_(&mut self, o: &dyn Str, how: u8) {
                if let Some(o) = o.as_any().downcast_ref::<W<$t>>() {
                    #[allow(clippy::clone_on_copy)]
                    $crate::ctx::lib(|| {
                        match how {
                            0 => self.0 = o.0,
                            1 => self.0 = o.0.clone(),
                            _ => self.0.clone_from(&o.0),
                        }
                    })
                }
            }
            fn to_json_(&self, w: &mut dyn std::io::Write) -> Result<(), String> {
                serde_json::to_writer(w, &self.0).map_err(|e| e.to_string())
            }
            fn map_lookup_(&self, key: &str) -> (bool, bool) {
                let mut h = std::collections::HashMap::<$t, (), $crate::adapt::FixedState>::default();
                h.insert(self.0, ());
                let b: std::collections::BTreeSet<$t> = [self.0].into_iter().collect();
                (h.contains_key(key), b.contains(key))
            }
        }
    };
}

#[macro_export]
macro_rules! drain_impl {
    ($n:expr) => {
        impl DrainObj for W<Drain<$n>> {
            fn next_(&mut self) -> Option<char> {
                $crate::ctx::lib(|| self.0.next())
            }
            fn next_back_(&mut self) -> Option<char> {
                $crate::ctx::lib(|| self.0.next_back())
            }
            fn as_str_(&self) -> String {
                let s = $crate::ctx::lib(|| self.0.as_str());
                String::from_utf8_lossy(s.as_bytes()).into_owned()
            }
            fn copy_(&self, clone: bool) -> Box<dyn DrainObj> {
                #[allow(clippy::clone_on_copy)]
                let d: Drain<$n> = $crate::ctx::lib(|| if clone { self.0.clone() } else { self.0 });
                Box::new(W(d))
            }
            fn collect_(&mut self, rev: bool) -> String {
                let mut out = String::with_capacity(512);
                if rev {
                    while let Some(c) = $crate::ctx::lib(|| self.0.next_back()) {
                        out.push(c);
                        if out.len() > 400 {
                            break;
                        }
                    }
                } else {
                    for c in self.0.by_ref() {
                        out.push(c);
                        if out.len() > 400 {
                            break;
                        }
                    }
                }
                out
            }
            fn cmp_(&self, o: &dyn DrainObj) -> Cmp {
                let o = o.as_any().downcast_ref::<W<Drain<$n>>>().unwrap();
                #[allow(clippy::unnecessary_min_or_max)]
                let chosen = $crate::ctx::lib(|| {
                    let (lo, hi) = if self.0 <= o.0 { (self.0, o.0) } else { (o.0, self.0) };
                    [
                        Ord::min(self.0, o.0),
                        Ord::max(self.0, o.0),
                        Ord::clamp(self.0, lo, hi),
                    ]
                });
                let chosen =
                    chosen.map(|d| String::from_utf8_lossy(d.as_str().as_bytes()).into_owned());
                $crate::ctx::lib(|| Cmp {
                    chosen,
                    eq: self.0 == o.0,
                    ne: self.0 != o.0,
                    lt: self.0 < o.0,
                    le: self.0 <= o.0,
                    gt: self.0 > o.0,
                    ge: self.0 >= o.0,
                    cmp: ord(Ord::cmp(&self.0, &o.0)),
                    partial: PartialOrd::partial_cmp(&self.0, &o.0).map(ord),
                })
            }
            fn twin_(&self, text: &str) -> Option<Box<dyn DrainObj>> {
                let mut s = $crate::ctx::lib(|| ArrayString::<$n>::try_from_str(text)).ok()?;
                let d = $crate::ctx::lib(|| s.drain(..)).ok()?;
                Some(Box::new(W(d)))
            }
            fn hash_(&self, h: &mut SimHasher) {
                $crate::ctx::lib(|| std::hash::Hash::hash(&self.0, h))
            }
            fn as_any(&self) -> &dyn std::any::Any {
                self
            }
            fn leak_(self: Box<Self>) {
                std::mem::forget(*self)
            }
            fn debug_(&self) -> String {
                format!("{:?}", self.0)
            }
            fn iter_(&mut self, kind: u8, n: u8, out: &mut String) {
                $crate::ctx::lib(|| $crate::adapt::adaptors(&mut self.0, kind, n, out))
            }
            fn each_(&mut self, kind: u8, f: &mut dyn FnMut(char)) {
                $crate::ctx::lib(|| $crate::adapt::hand_over(&mut self.0, kind, f))
            }
            fn clear_(&mut self) {
                self.0 = $crate::ctx::lib(|| Drain::<$n>::default());
            }
        }
    };
}

/// Texts that are part of the program.
pub const LITS: [&str; 8] = [
    "",
    "x",
    "\u{e9}",
    "\u{1F980}",
    "seven b",
    "a literal with \u{e9} in it, 31 byte",
    "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef\u{20ac}",
    "Lorem ipsum dolor sit amet, consectetur adipiscing elit, sed do eiusmod tempor incididunt ut labore et dolore magna aliqua. Ut enim ad minim veniam, quis nostrud exercitation ullamco.",
];
#[macro_export]
macro_rules! write_lit {
    ($s:expr, $i:expr) => {
        $crate::ctx::lib(|| match $i % 8 {
            0 => write!($s, ""),
            1 => write!($s, "x"),
            2 => write!($s, "\u{e9}"),
            3 => write!($s, "\u{1F980}"),
            4 => write!($s, "seven b"),
            5 => write!($s, "a literal with \u{e9} in it, 31 byte"),
            6 => write!($s, "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef\u{20ac}"),
            _ => write!($s, "Lorem ipsum dolor sit amet, consectetur adipiscing elit, sed do eiusmod tempor incididunt ut labore et dolore magna aliqua. Ut enim ad minim veniam, quis nostrud exercitation ullamco."),
        })?
    };
}

pub const ADAPTORS: u8 = 27;
/// What an iterator's methods and adaptors give, for the real iterator and for a text's own.
pub fn adaptors<I: DoubleEndedIterator<Item = char> + Clone>(
    it: &mut I,
    kind: u8,
    n: u8,
    out: &mut String,
) {
    use std::fmt::Write;
    // never ends? then something is wrong anyway
    const MOST: usize = 300;
    let k = n as usize;
    macro_rules! one {
        ($c:expr) => {
            match $c {
                Some(c) => out.push(c),
                None => out.push_str("<end>"),
            }
        };
    }
    let pick = |c: char| (c as u32).wrapping_mul(31) % 7 == n as u32 % 7;
    match kind % ADAPTORS {
        0 => one!(it.nth(k)),
        1 => one!(it.nth_back(k)),
        2 => one!(it.clone().last()),
        3 => {
            let _ = write!(out, "{}", it.clone().take(MOST).count());
            let _ = write!(out, " {}", it.clone().count());
        }
        4 => it.clone().rev().take(MOST).for_each(|c| out.push(c)),
        5 => it.clone().skip(k).take(MOST).for_each(|c| out.push(c)),
        6 => it.clone().step_by(k + 1).take(MOST).for_each(|c| out.push(c)),
        7 => {
            // what is promised holds
            let (lo, hi) = it.size_hint();
            let n = it.clone().take(MOST).count();
            let _ = write!(out, "{}", lo <= n && hi.map_or(true, |h| n <= h));
        }
        8 => {
            let _ = it.clone().take(MOST).fold(0, |n, c| {
                out.push(c);
                n + 1
            });
        }
        9 => {
            let n = it.clone().rfold(0usize, |n, c| {
                out.push(c);
                n + 1
            });
            let _ = write!(out, " {n}");
        }
        10 => it.clone().for_each(|c| out.push(c)),
        11 => it.by_ref().take(k).for_each(|c| out.push(c)),
        12 => one!(it.find(|c| pick(*c))),
        13 => one!(it.rfind(|c| pick(*c))),
        14 => {
            let (a, b) = (it.all(|c| !pick(c)), it.any(pick));
            let _ = write!(out, "{a} {b}");
        }
        15 => {
            let r: Result<usize, usize> = it.try_fold(0, |i, c| {
                out.push(c);
                if i >= k {
                    Err(i)
                } else {
                    Ok(i + 1)
                }
            });
            let _ = write!(out, " {r:?}");
        }
        16 => {
            let r: Result<usize, usize> = it.try_rfold(0, |i, c| {
                out.push(c);
                if i >= k {
                    Err(i)
                } else {
                    Ok(i + 1)
                }
            });
            let _ = write!(out, " {r:?}");
        }
        17 => {
            one!(it.clone().max());
            one!(it.clone().min());
        }
        18 => {
            let mut o = it.clone();
            o.next();
            let a = it.clone().eq(it.clone());
            let b = it.clone().cmp(o.clone());
            let c = it.clone().lt(o);
            let _ = write!(out, "{a} {b:?} {c}");
        }
        19 => it.clone().enumerate().take(MOST).for_each(|(i, c)| {
            if i % 3 == 0 {
                out.push(c)
            }
        }),
        20 => {
            let mut p = it.clone().peekable();
            one!(p.peek().copied());
            let x = p.next();
            let y = p.next_if(|c| pick(*c));
            one!(x);
            one!(y);
            p.take(MOST).for_each(|c| out.push(c));
        }
        21 => it.clone().chain(it.clone().rev()).for_each(|c| out.push(c)),
        22 => {
            let i = it.position(pick);
            let _ = write!(out, "{i:?}");
        }
        23 => it.clone().skip_while(|c| !pick(*c)).for_each(|c| out.push(c)),
        24 => it.clone().take_while(|c| !pick(*c)).for_each(|c| out.push(c)),
        25 => out.extend(it.clone()),
        _ => {
            // from both ends in turn, and on after the end
            let mut i = 0;
            loop {
                let c = if i % 2 == 0 { it.next() } else { it.next_back() };
                let Some(c) = c else { break };
                out.push(c);
                i += 1;
                if i > MOST {
                    break;
                }
            }
            one!(it.next());
            one!(it.next_back());
            one!(it.nth(k));
        }
    }
}
pub const HANDS: u8 = 8;
/// The ways to have code of one's own run over what an iterator gives.
pub fn hand_over<I: DoubleEndedIterator<Item = char> + Clone>(
    it: &mut I,
    kind: u8,
    f: &mut dyn FnMut(char),
) {
    match kind % HANDS {
        0 => {
            for c in it.by_ref() {
                f(c)
            }
        }
        1 => it.by_ref().for_each(f),
        2 => it.by_ref().rev().for_each(f),
        3 => it.by_ref().fold((), |_, c| f(c)),
        4 => {
            let _ = it.try_for_each(|c| {
                f(c);
                Some(())
            });
        }
        5 => {
            let _ = it.try_rfold((), |_, c| {
                f(c);
                Some(())
            });
        }
        6 => it.clone().for_each(f),
        _ => it.clone().rev().for_each(f),
    }
}

#[macro_export]
macro_rules! kinds {
    ($($c:ident)? ; $($n:literal),*) => {
        use arraystring::prelude::*;
        use $crate::adapt::*;
        /// gives this crate's adapters a type of their own
        #[repr(transparent)]
        pub struct W<T>(pub T);
        $( $crate::str_impl!($c, 63); )?
        $(
            $crate::str_impl!(ArrayString<$n>, $n);
            $crate::drain_impl!($n);
        )*
        pub static KINDS: &[Kind] = &[
            $( Kind { name: "CacheString", cap: 63, cache: true, size: std::mem::size_of::<$c>(), align: std::mem::align_of::<$c>(),
                init: |p| unsafe { let p = p as *mut W<$c>; p.write(W(<$c>::new())); p } }, )?
            $(
                Kind { name: concat!("ArrayString<", stringify!($n), ">"), cap: $n, cache: false,
                    size: std::mem::size_of::<ArrayString<$n>>(), align: std::mem::align_of::<ArrayString<$n>>(),
                    init: |p| unsafe { let p = p as *mut W<ArrayString<$n>>; p.write(W(ArrayString::<$n>::new())); p } },
            )*
        ];
    };
}
