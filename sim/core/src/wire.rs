//! The transport world: strings go through serde into a stream, the stream suffers, and strings
//! of other capacities are read back. The reference is String, doing the same to the same bytes.

use crate::ctx::*;
use crate::driver::World;
use crate::exec::{Cover, Viol, C02, C06, C07, C10, C14};
use crate::rng::{hash_bytes, mix, Rng};
use crate::text::{dict, Fit, Txt, STYLES};
use serde::de::{self, DeserializeOwned, Visitor};
use serde::{ser, Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
use std::io;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::OnceLock;

// ---- plans ----------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Io {
    /// interrupted once
    Intr,
    /// fails from here on
    Fail,
    /// no room / end of data from here on
    Zero,
    /// the stream's implementation panics
    Panic,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Damage {
    Flip(u8),
    Set(u8),
    Drop,
    Dup,
    /// everything from here on is lost
    Cut,
    /// the rest is repeated after the end
    Again,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Enc {
    Json,
    Pretty,
    JsonValue,
    Bin,
    Sim,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Dec {
    Slice,
    Str,
    Reader,
    /// several values one after the other from one reader
    Stream,
    Value,
    ValueRef,
    /// how a deserializer hands over the text
    Form(u8),
}
pub const FORMS: u8 = 18;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Msg {
    pub from: String,
    pub to: String,
    pub wrap: u8,
    pub txts: Vec<Txt>,
    pub past: Txt,
    /// how many times the value is written into the stream
    pub copies: u8,
    pub enc: Enc,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub wfaults: Vec<(u16, Io)>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub damage: Vec<(u16, Damage)>,
    pub dec: Dec,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub rfaults: Vec<(u16, Io)>,
    /// sizes in which the streams take and give bytes; 0: any
    pub chunk: u32,
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub refuse: bool,
    /// what the simulated format says of itself
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub human: bool,
    /// read into strings that are there already
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub place: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct WirePlan {
    pub log: LogMode,
    pub msgs: Vec<Msg>,
}

// ---- streams --------------------------------------------------------------------------------

fn portion(chunk: u32, pos: usize) -> usize {
    if chunk == 0 {
        usize::MAX
    } else {
        1 + (mix((chunk as u64) << 32 | pos as u64) % 9) as usize
    }
}
const NIO: usize = 4;

pub struct SimWriter {
    pub got: Vec<u8>,
    faults: Vec<(u16, Io)>,
    chunk: u32,
    fired: [u64; NIO],
    calls: u64,
}
impl SimWriter {
    fn new(faults: &[(u16, Io)], chunk: u32) -> SimWriter {
        SimWriter {
            got: Vec::with_capacity(8192),
            faults: faults.to_vec(),
            chunk,
            fired: [0; NIO],
            calls: 0,
        }
    }
}
/// Which fault strikes at this position, and how far the stream gets otherwise.
fn strike(
    faults: &mut Vec<(u16, Io)>,
    pos: usize,
    want: usize,
    fired: &mut [u64; NIO],
) -> Result<usize, Io> {
    let mut n = want;
    for i in 0..faults.len() {
        let (at, f) = (faults[i].0 as usize, faults[i].1);
        if at == pos || (at < pos && f != Io::Intr && f != Io::Panic) {
            fired[f as usize] += 1;
            if f == Io::Intr || f == Io::Panic {
                faults.remove(i);
            }
            return Err(f);
        }
        if at > pos {
            n = n.min(at - pos);
        }
    }
    Ok(n)
}
impl io::Write for SimWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        let pos = self.got.len();
        let want = b.len().min(portion(self.chunk, pos));
        match strike(&mut self.faults, pos, want, &mut self.fired) {
            Ok(n) => {
                self.got.extend_from_slice(&b[..n]);
                Ok(n)
            }
            Err(Io::Intr) => Err(io::ErrorKind::Interrupted.into()),
            Err(Io::Fail) => Err(io::ErrorKind::Other.into()),
            Err(Io::Zero) => Ok(0),
            Err(Io::Panic) => panic_any(Injected(Site::Sink)),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub struct SimReader<'a> {
    data: &'a [u8],
    pos: usize,
    faults: Vec<(u16, Io)>,
    chunk: u32,
    fired: [u64; NIO],
    calls: u64,
}
impl<'a> SimReader<'a> {
    fn new(data: &'a [u8], faults: &[(u16, Io)], chunk: u32) -> SimReader<'a> {
        SimReader {
            data,
            pos: 0,
            faults: faults.to_vec(),
            chunk,
            fired: [0; NIO],
            calls: 0,
        }
    }
}
impl io::Read for SimReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        let left = self.data.len() - self.pos;
        let want = b.len().min(left).min(portion(self.chunk, self.pos));
        match strike(&mut self.faults, self.pos, want, &mut self.fired) {
            Ok(n) => {
                b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
            Err(Io::Intr) => Err(io::ErrorKind::Interrupted.into()),
            Err(Io::Fail) => Err(io::ErrorKind::Other.into()),
            Err(Io::Zero) => Ok(0),
            Err(Io::Panic) => panic_any(Injected(Site::Source)),
        }
    }
}

// ---- what is sent ---------------------------------------------------------------------------

type Leaf = Option<Vec<u8>>;
pub trait Leaves {
    fn leaves(&self, out: &mut Vec<Leaf>);
}
#[derive(Serialize, Deserialize)]
struct Rec<T> {
    a: T,
    b: Option<T>,
    #[serde(default)]
    c: T,
    n: u8,
}
#[derive(Serialize, Deserialize)]
#[serde(untagged)]
enum Un<T> {
    N(u64),
    S(T),
    L(Vec<T>),
}
#[derive(Serialize, Deserialize)]
#[serde(tag = "t", content = "c")]
enum Tagged<T> {
    One(T),
    Two { x: T, y: T },
}
#[derive(Serialize, Deserialize)]
struct Inner<T> {
    x: T,
    y: Option<T>,
}
#[derive(Serialize, Deserialize)]
struct Flat<T> {
    id: u8,
    #[serde(flatten)]
    inner: Inner<T>,
}
#[derive(Serialize, Deserialize)]
struct New<T>(T);
pub const WRAPS: u8 = 10;

pub trait Text: Serialize + DeserializeOwned + Ord + Default + Clone + AsRef<[u8]> {}
impl<T: Serialize + DeserializeOwned + Ord + Default + Clone + AsRef<[u8]>> Text for T {}

fn leaf<T: AsRef<[u8]>>(t: &T, out: &mut Vec<Leaf>) {
    out.push(Some(t.as_ref().to_vec()))
}
macro_rules! leaves {
    ($($t:ty, |$s:ident, $o:ident| $b:expr;)*) => {
        $(impl<T: Text> Leaves for $t { fn leaves(&self, $o: &mut Vec<Leaf>) { let $s = self; $b } })*
    };
}
struct Plain<T>(T);
impl<T: Serialize> Serialize for Plain<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Plain<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        T::deserialize(d).map(Plain)
    }
    fn deserialize_in_place<D: Deserializer<'de>>(d: D, place: &mut Self) -> Result<(), D::Error> {
        T::deserialize_in_place(d, &mut place.0)
    }
}
leaves! {
    Plain<T>, |s, o| leaf(&s.0, o);
    Option<T>, |s, o| match s { None => o.push(None), Some(t) => leaf(t, o) };
    Vec<T>, |s, o| for t in s { leaf(t, o) };
    BTreeMap<T, u32>, |s, o| for t in s.keys() { leaf(t, o) };
    (T, T), |s, o| { leaf(&s.0, o); leaf(&s.1, o) };
    Rec<T>, |s, o| { leaf(&s.a, o); s.b.leaves(o); leaf(&s.c, o); o.push(Some(vec![s.n])) };
    Un<T>, |s, o| match s { Un::N(n) => o.push(Some(n.to_le_bytes().to_vec())), Un::S(t) => leaf(t, o), Un::L(v) => v.leaves(o) };
    Tagged<T>, |s, o| match s { Tagged::One(t) => leaf(t, o), Tagged::Two { x, y } => { leaf(x, o); o.push(None); leaf(y, o) } };
    Flat<T>, |s, o| { o.push(Some(vec![s.id])); leaf(&s.inner.x, o); s.inner.y.leaves(o) };
    New<T>, |s, o| leaf(&s.0, o);
}

macro_rules! wrapped {
    ($wrap:expr, $t:ident, $v:ident, $f:ident ( $($arg:expr),* )) => {{
        let get = |i: usize| -> $t { $v.get(i).cloned().unwrap_or_default() };
        match $wrap % WRAPS {
            0 => $f(&Plain(get(0)), $($arg),*),
            1 => $f(&(if $v.len() > 1 { Some(get(0)) } else { None }), $($arg),*),
            2 => $f(&$v.to_vec(), $($arg),*),
            3 => $f(&BTreeMap::from([(get(0), 7u32)]), $($arg),*),
            4 => $f(&(get(0), get(1)), $($arg),*),
            5 => $f(&Rec { a: get(0), b: $v.get(1).cloned(), c: get(2), n: 1 }, $($arg),*),
            6 => if $v.len() == 2 { $f(&Un::L($v.to_vec()), $($arg),*) } else { $f(&Un::S(get(0)), $($arg),*) },
            7 => if $v.len() > 1 { $f(&Tagged::Two { x: get(0), y: get(1) }, $($arg),*) } else { $f(&Tagged::One(get(0)), $($arg),*) },
            8 => $f(&Flat { id: 3, inner: Inner { x: get(0), y: $v.get(1).cloned() } }, $($arg),*),
            _ => $f(&New(get(0)), $($arg),*),
        }
    }};
}

/// How it ended.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Ok,
    Err,
    Caller,
    Own(String),
}
fn guard<R>(f: impl FnOnce() -> Result<R, ()>) -> (End, Option<R>) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(r)) => (End::Ok, Some(r)),
        Ok(Err(())) => (End::Err, None),
        Err(p) if p.is::<Injected>() => (End::Caller, None),
        Err(_) => (End::Own(ctx().panic_msg.replace('\n', " ")), None),
    }
}

pub struct Written {
    pub end: End,
    pub bytes: Vec<u8>,
    pub fired: [u64; NIO],
    pub calls: u64,
    pub allocs: u32,
    /// the texts that the written strings hold
    pub held: Vec<String>,
}
fn write_value<V: Serialize>(v: &V, m: &Msg) -> Written {
    let mut w = SimWriter::new(&m.wfaults, m.chunk);
    let mut allocs = 0;
    let end = {
        let w = &mut w;
        let allocs = &mut allocs;
        guard(move || {
            for i in 0..m.copies.max(1) {
                match m.enc {
                    Enc::Json => {
                        if i > 0 {
                            io::Write::write_all(w, b" \n").map_err(|_| ())?;
                        }
                        serde_json::to_writer(&mut *w, v).map_err(|_| ())?
                    }
                    Enc::Pretty => {
                        if i > 0 {
                            io::Write::write_all(w, b"\n").map_err(|_| ())?;
                        }
                        serde_json::to_writer_pretty(&mut *w, v).map_err(|_| ())?
                    }
                    Enc::JsonValue => {
                        let x = serde_json::to_value(v).map_err(|_| ())?;
                        if i > 0 {
                            io::Write::write_all(w, b" ").map_err(|_| ())?;
                        }
                        serde_json::to_writer(&mut *w, &x).map_err(|_| ())?
                    }
                    Enc::Bin => bin().serialize_into(&mut *w, v).map_err(|_| ())?,
                    Enc::Sim => {
                        let c = ctx();
                        let f = [Fault {
                            site: Site::Alloc,
                            at: 0,
                            what: What::Refuse,
                        }];
                        c.begin(if m.refuse { &f } else { &[] }, u32::MAX);
                        let r = lib(|| v.serialize(SimSer(&mut *w, m.human)));
                        *allocs += ctx().end();
                        r.map_err(|_| ())?
                    }
                }
            }
            Ok(())
        })
        .0
    };
    Written {
        end,
        bytes: w.got,
        fired: w.fired,
        calls: w.calls,
        allocs,
        held: vec![],
    }
}
use bincode::Options;
fn bin() -> impl Options {
    bincode::DefaultOptions::new()
        .with_fixint_encoding()
        .allow_trailing_bytes()
        .with_limit(1 << 18)
}

pub fn encode<T: Text>(m: &Msg, txts: &[String], past: &str, age: &dyn Fn(&str, &str) -> T) -> Written {
    let v: Vec<T> = txts.iter().map(|t| age(past, t)).collect();
    let held = v
        .iter()
        .map(|v| String::from_utf8_lossy(v.as_ref()).into_owned())
        .collect();
    let w = if m.enc == Enc::Sim {
        // plain values only: this format knows nothing but text
        write_value(&Plain(v[0].clone()), m)
    } else {
        wrapped!(m.wrap, T, v, write_value(m))
    };
    Written { held, ..w }
}

pub struct ReadBack {
    /// one entry per value that was asked for
    pub got: Vec<(End, Vec<Leaf>)>,
    pub fired: [u64; NIO],
    pub calls: u64,
    pub allocs: u32,
}
/// A string with another text.
fn older<T: Text>(m: &Msg) -> T {
    let t = m.past.text(40, 0);
    T::deserialize(de::value::StrDeserializer::<SimErr>::new(&t)).unwrap_or_default()
}
fn read_into<V: DeserializeOwned + Leaves>(m: &Msg, bytes: &[u8], mut v: V) -> ReadBack {
    let mut r = SimReader::new(bytes, &m.rfaults, m.chunk);
    let p = &mut v;
    let g = match (m.dec, m.enc == Enc::Bin) {
        (Dec::Slice, true) => guard(|| {
            V::deserialize_in_place(&mut bincode::Deserializer::from_slice(bytes, bin()), p).map_err(|_| ())
        }),
        (Dec::Slice | Dec::Str, false) => guard(|| {
            V::deserialize_in_place(&mut serde_json::Deserializer::from_slice(bytes), p).map_err(|_| ())
        }),
        (_, true) => guard(|| {
            V::deserialize_in_place(&mut bincode::Deserializer::with_reader(&mut r, bin()), p).map_err(|_| ())
        }),
        (_, false) => guard(|| {
            V::deserialize_in_place(&mut serde_json::Deserializer::from_reader(&mut r), p).map_err(|_| ())
        }),
    };
    let mut l = vec![];
    v.leaves(&mut l);
    ReadBack {
        got: vec![(g.0, l)],
        fired: r.fired,
        calls: r.calls,
        allocs: 0,
    }
}
fn read_values<V: DeserializeOwned + Leaves>(m: &Msg, bytes: &[u8]) -> ReadBack {
    let mut out = ReadBack {
        got: vec![],
        fired: [0; NIO],
        calls: 0,
        allocs: 0,
    };
    let mut put = |r: (End, Option<V>)| -> bool {
        let mut l = vec![];
        if let Some(v) = &r.1 {
            v.leaves(&mut l);
        }
        let ok = r.0 == End::Ok;
        out.got.push((r.0, l));
        ok
    };
    let binary = m.enc == Enc::Bin;
    match m.dec {
        Dec::Slice if binary => {
            put(guard(|| bin().deserialize::<V>(bytes).map_err(|_| ())));
        }
        Dec::Slice => {
            put(guard(|| serde_json::from_slice::<V>(bytes).map_err(|_| ())));
        }
        Dec::Str if !binary => {
            let s = String::from_utf8_lossy(bytes);
            put(guard(|| serde_json::from_str::<V>(&s).map_err(|_| ())));
        }
        Dec::Value | Dec::ValueRef if !binary => {
            if let Ok(x) = serde_json::from_slice::<serde_json::Value>(bytes) {
                if m.dec == Dec::Value {
                    put(guard(|| serde_json::from_value::<V>(x).map_err(|_| ())));
                } else {
                    put(guard(|| V::deserialize(&x).map_err(|_| ())));
                }
            }
        }
        Dec::Stream => {
            let mut r = SimReader::new(bytes, &m.rfaults, m.chunk);
            if binary {
                for _ in 0..6 {
                    if !put(guard(|| bin().deserialize_from::<_, V>(&mut r).map_err(|_| ()))) {
                        break;
                    }
                }
            } else {
                let mut it = serde_json::Deserializer::from_reader(&mut r).into_iter::<V>();
                for _ in 0..6 {
                    let mut done = false;
                    let g = guard(|| match it.next() {
                        None => {
                            done = true;
                            Err(())
                        }
                        Some(v) => v.map_err(|_| ()),
                    });
                    if !put(g) || done {
                        break;
                    }
                }
            }
            out.fired = r.fired;
            out.calls = r.calls;
        }
        _ => {
            let mut r = SimReader::new(bytes, &m.rfaults, m.chunk);
            if binary {
                put(guard(|| bin().deserialize_from::<_, V>(&mut r).map_err(|_| ())));
            } else {
                put(guard(|| serde_json::from_reader::<_, V>(&mut r).map_err(|_| ())));
            }
            out.fired = r.fired;
            out.calls = r.calls;
        }
    }
    out
}
pub fn decode<T: Text>(m: &Msg, bytes: &[u8]) -> ReadBack {
    if m.enc == Enc::Sim {
        return sim_read::<T>(m, bytes);
    }
    if m.place {
        return if m.wrap % WRAPS == 2 {
            read_into(m, bytes, vec![older::<T>(m), older::<T>(m)])
        } else {
            read_into(m, bytes, Plain(older::<T>(m)))
        };
    }
    match m.wrap % WRAPS {
        0 => read_values::<Plain<T>>(m, bytes),
        1 => read_values::<Option<T>>(m, bytes),
        2 => read_values::<Vec<T>>(m, bytes),
        3 => read_values::<BTreeMap<T, u32>>(m, bytes),
        4 => read_values::<(T, T)>(m, bytes),
        5 => read_values::<Rec<T>>(m, bytes),
        6 => read_values::<Un<T>>(m, bytes),
        7 => read_values::<Tagged<T>>(m, bytes),
        8 => read_values::<Flat<T>>(m, bytes),
        _ => read_values::<New<T>>(m, bytes),
    }
}

// ---- a format of the simulator's own --------------------------------------------------------

/// Errors without memory, so that refusing allocators can be tried.
#[derive(Debug)]
pub struct SimErr;
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("failed")
    }
}
impl std::error::Error for SimErr {}
impl ser::Error for SimErr {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        SimErr
    }
}
impl de::Error for SimErr {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        SimErr
    }
}
struct SimSer<'a>(&'a mut SimWriter, bool);
impl SimSer<'_> {
    fn put(self, b: &[u8]) -> Result<(), SimErr> {
        let _g = seam(Site::Sink);
        use io::Write;
        self.0
            .write_all(&(b.len() as u32).to_le_bytes())
            .and_then(|_| self.0.write_all(b))
            .map_err(|_| SimErr)
    }
}
macro_rules! refuse {
    ($($f:ident ( $($t:ty),* );)*) => { $( fn $f(self $(, _: $t)*) -> Result<(), SimErr> { Err(SimErr) } )* };
}
impl<'a> Serializer for SimSer<'a> {
    type Ok = ();
    type Error = SimErr;
    type SerializeSeq = ser::Impossible<(), SimErr>;
    type SerializeTuple = ser::Impossible<(), SimErr>;
    type SerializeTupleStruct = ser::Impossible<(), SimErr>;
    type SerializeTupleVariant = ser::Impossible<(), SimErr>;
    type SerializeMap = ser::Impossible<(), SimErr>;
    type SerializeStruct = ser::Impossible<(), SimErr>;
    type SerializeStructVariant = ser::Impossible<(), SimErr>;
    fn serialize_str(self, v: &str) -> Result<(), SimErr> {
        self.put(v.as_bytes())
    }
    fn collect_str<T: ?Sized + std::fmt::Display>(self, v: &T) -> Result<(), SimErr> {
        struct Buf([u8; 1024], usize);
        impl std::fmt::Write for Buf {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                let n = s.len();
                if self.1 + n > self.0.len() {
                    return Err(std::fmt::Error);
                }
                self.0[self.1..self.1 + n].copy_from_slice(s.as_bytes());
                self.1 += n;
                Ok(())
            }
        }
        let mut b = Buf([0; 1024], 0);
        std::fmt::write(&mut b, format_args!("{v}")).map_err(|_| SimErr)?;
        self.put(&b.0[..b.1])
    }
    /// nor are bytes
    fn serialize_bytes(self, _: &[u8]) -> Result<(), SimErr> {
        Err(SimErr)
    }
    /// wrapped text is not text to this format
    fn serialize_newtype_struct<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: &T,
    ) -> Result<(), SimErr> {
        Err(SimErr)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), SimErr> {
        Err(SimErr)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &T,
    ) -> Result<(), SimErr> {
        Err(SimErr)
    }
    refuse! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64);
        serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_none(); serialize_unit();
        serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, SimErr> {
        Err(SimErr)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, SimErr> {
        Err(SimErr)
    }
    fn serialize_tuple_struct(
        self,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeTupleStruct, SimErr> {
        Err(SimErr)
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeTupleVariant, SimErr> {
        Err(SimErr)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, SimErr> {
        Err(SimErr)
    }
    fn serialize_struct(
        self,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeStruct, SimErr> {
        Err(SimErr)
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeStructVariant, SimErr> {
        Err(SimErr)
    }
    fn is_human_readable(&self) -> bool {
        self.1
    }
}

struct SimDe<'a> {
    /// what the stream gave, or that it failed
    data: Result<&'a [u8], ()>,
    form: u8,
    human: bool,
}
impl<'a> SimDe<'a> {
    fn deliver<V: Visitor<'a>>(self, v: V) -> Result<V::Value, SimErr> {
        let g = seam(Site::Source);
        let Ok(data) = self.data else {
            return Err(SimErr);
        };
        let text = std::str::from_utf8(data);
        match (self.form % FORMS, text) {
            (0, Ok(t)) => {
                drop(g);
                v.visit_str(t)
            }
            (1, Ok(t)) => {
                drop(g);
                v.visit_borrowed_str(t)
            }
            (2, Ok(t)) => {
                let t = t.to_string();
                drop(g);
                v.visit_string(t)
            }
            (3, Ok(t)) if t.chars().count() == 1 => {
                drop(g);
                v.visit_char(t.chars().next().unwrap())
            }
            (3, Ok(t)) => {
                // transient: gone after the call
                let mut b = [0u8; 4096];
                let n = t.len().min(4096);
                b[..n].copy_from_slice(&t.as_bytes()[..n]);
                let s = std::str::from_utf8(&b[..n]).map(|s| s.to_string());
                drop(g);
                match s {
                    Ok(s) => v.visit_str(&s),
                    Err(_) => Err(SimErr),
                }
            }
            (4, _) => {
                drop(g);
                v.visit_bytes(data)
            }
            (5, _) => {
                drop(g);
                v.visit_borrowed_bytes(data)
            }
            (6, _) => {
                let b = data.to_vec();
                drop(g);
                v.visit_byte_buf(b)
            }
            (7, _) => {
                drop(g);
                v.visit_u64(data.len() as u64)
            }
            (8, _) => {
                drop(g);
                v.visit_unit()
            }
            (9, _) => {
                drop(g);
                v.visit_bool(true)
            }
            (10, _) => {
                drop(g);
                v.visit_f64(1.5)
            }
            (11, _) => {
                drop(g);
                v.visit_none()
            }
            (12, _) => {
                drop(g);
                v.visit_i64(-1)
            }
            (13, _) => {
                drop(g);
                v.visit_some(SimDe { form: 0, ..self })
            }
            (14, _) => {
                drop(g);
                v.visit_newtype_struct(SimDe { form: 0, ..self })
            }
            (15, Ok(t)) => {
                drop(g);
                v.visit_seq(de::value::SeqDeserializer::new(t.chars()))
            }
            (16, Ok(t)) => {
                drop(g);
                v.visit_map(de::value::MapDeserializer::new([("text", t)].into_iter()))
            }
            (17, _) => {
                drop(g);
                v.visit_i128(7)
            }
            (_, Err(_)) => Err(SimErr),
            (_, Ok(t)) => {
                drop(g);
                v.visit_str(t)
            }
        }
    }
}
impl<'de> Deserializer<'de> for SimDe<'de> {
    type Error = SimErr;
    /// this format is not self-describing
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, SimErr> {
        Err(SimErr)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> {
        self.deliver(v)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> {
        self.deliver(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        v: V,
    ) -> Result<V::Value, SimErr> {
        v.visit_newtype_struct(self)
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char bytes byte_buf option unit unit_struct
        seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
fn sim_read<T: Text>(m: &Msg, bytes: &[u8]) -> ReadBack {
    let mut out = ReadBack {
        got: vec![],
        fired: [0; NIO],
        calls: 0,
        allocs: 0,
    };
    let form = match m.dec {
        Dec::Form(f) => f,
        _ => 0,
    };
    let mut r = SimReader::new(bytes, &m.rfaults, m.chunk);
    let mut place = older::<T>(m);
    for _ in 0..m.copies.max(1) {
        let mut data = Vec::new();
        let head = guard(|| {
            use io::Read;
            let mut n = [0; 4];
            r.read_exact(&mut n).map_err(|_| ())?;
            let n = u32::from_le_bytes(n) as usize;
            if n > 1 << 18 {
                return Err(());
            }
            data.resize(n, 0);
            r.read_exact(&mut data).map_err(|_| ())
        });
        if head.0 == End::Caller {
            out.got.push((End::Caller, vec![]));
            break;
        }
        let d = SimDe {
            data: if head.0 == End::Ok {
                Ok(&data)
            } else {
                Err(())
            },
            form,
            human: m.human,
        };
        let c = ctx();
        let f = [Fault {
            site: Site::Alloc,
            at: 0,
            what: What::Refuse,
        }];
        c.begin(if m.refuse { &f } else { &[] }, u32::MAX);
        let g = if m.place {
            let p = &mut place;
            let g = guard(|| lib(|| T::deserialize_in_place(d, p)).map_err(|_| ()));
            (g.0, Some(place.clone()))
        } else {
            guard(|| lib(|| T::deserialize(d)).map_err(|_| ()))
        };
        out.allocs += ctx().end();
        let mut l = vec![];
        if let Some(v) = &g.1 {
            leaf(v, &mut l);
        }
        let ok = g.0 == End::Ok;
        out.got.push((g.0, l));
        if !ok {
            break;
        }
    }
    out.fired = r.fired;
    out.calls = r.calls;
    out
}

// ---- the kinds ------------------------------------------------------------------------------

pub struct WireKind {
    pub name: &'static str,
    pub cap: usize,
    pub enc: fn(&Msg, &[String], &str) -> Written,
    pub dec: fn(&Msg, &[u8]) -> ReadBack,
}
#[macro_export]
macro_rules! wire_kinds {
    ($($c:ident)? ; $($n:literal),*) => {
        pub static WIRE: &[$crate::wire::WireKind] = &[
            $( $crate::wire::WireKind { name: "CacheString", cap: 63,
                enc: |m, t, p| $crate::wire::encode::<$c>(m, t, p, &|p, t| { let mut s = <$c>::from(p); s.clear(); s.push_str_truncate(t); s }),
                dec: $crate::wire::decode::<$c> }, )?
            $( $crate::wire::WireKind { name: concat!("ArrayString<", stringify!($n), ">"), cap: $n,
                enc: |m, t, p| $crate::wire::encode::<ArrayString<$n>>(m, t, p, &|p, t| { let mut s = <ArrayString<$n>>::from(p); s.clear(); s.push_str_truncate(t); s }),
                dec: $crate::wire::decode::<ArrayString<$n>> }, )*
        ];
    };
}
static KINDS: OnceLock<Vec<&'static WireKind>> = OnceLock::new();
pub fn register(k: Vec<&'static WireKind>) {
    let _ = KINDS.set(k);
}
fn kinds() -> &'static [&'static WireKind] {
    KINDS.get().expect("registered")
}
fn kind(name: &str) -> &'static WireKind {
    kinds().iter().find(|k| k.name == name).expect("kind")
}

// ---- generation and judgement ---------------------------------------------------------------

const CACHE: &str = "CacheString";
const TWIN: &str = "ArrayString<63>";

pub struct Wire {
    prop: String,
    /// when Some, what happened is written down here
    notes: Option<Vec<String>>,
}
impl Wire {
    pub fn new(prop: &str) -> Wire {
        Wire {
            prop: prop.to_string(),
            notes: None,
        }
    }
}
fn txt(r: &mut Rng) -> Txt {
    let int = dict().int(r);
    let fit = match r.below(10) {
        _ if int.is_some() => Fit::Len(int.unwrap()),
        0 => Fit::Len(0),
        1..=3 => Fit::Len(r.below(12) as u32),
        4 => Fit::Len(r.below(400) as u32),
        5 | 6 => Fit::Cap(r.range(-4, 5) as i16),
        7 => Fit::Cap(0),
        _ => Fit::Cap(r.range(1, 80) as i16),
    };
    Txt {
        fit,
        style: *r.pick(&[6, 6, 6, 7, 9, 9, 1]) % STYLES,
        seed: r.below(1 << 20) as u32,
        spice: dict().word(r),
        alt: Fit::Len(0),
    }
}
fn some_io(r: &mut Rng, n: usize) -> Vec<(u16, Io)> {
    (0..n)
        .map(|_| {
            (
                r.below(*[4, 20, 60, 400].get(r.clone().below(4)).unwrap()) as u16,
                *r.pick(&[Io::Intr, Io::Intr, Io::Fail, Io::Zero, Io::Panic]),
            )
        })
        .collect()
}
fn carry(bytes: &[u8], damage: &[(u16, Damage)], hits: &mut [u64; 6]) -> Vec<u8> {
    let mut v = bytes.to_vec();
    for (at, d) in damage {
        if v.is_empty() {
            break;
        }
        let i = *at as usize % v.len();
        let h = match *d {
            Damage::Flip(b) => {
                v[i] ^= 1 << (b % 8);
                0
            }
            Damage::Set(b) => {
                v[i] = b;
                1
            }
            Damage::Drop => {
                v.remove(i);
                2
            }
            Damage::Dup => {
                let b = v[i];
                v.insert(i, b);
                3
            }
            Damage::Cut => {
                v.truncate(i);
                4
            }
            Damage::Again => {
                let t = v[i..].to_vec();
                v.extend(t);
                5
            }
        };
        hits[h] += 1;
    }
    v
}

impl World for Wire {
    type P = WirePlan;
    fn name(&self) -> &'static str {
        "wire"
    }
    fn plan(&mut self, seed: u64) -> WirePlan {
        let mut r = Rng::new(seed);
        let heap = self.prop == "C06";
        let twins = self.prop == "C14";
        let faulty = !r.chance(1, 4);
        let n = 1 + r.below(6);
        let log = match r.below(5) {
            0 => LogMode::Render,
            1 => LogMode::Reenter,
            _ => LogMode::Off,
        };
        let msgs = (0..n)
            .map(|_| {
                let r = &mut r;
                let from = r.pick(kinds()).name.to_string();
                let to = if r.chance(1, 3) {
                    from.clone()
                } else {
                    r.pick(kinds()).name.to_string()
                };
                let enc = if heap {
                    Enc::Sim
                } else {
                    *r.pick(&[
                        Enc::Json,
                        Enc::Json,
                        Enc::Json,
                        Enc::Pretty,
                        Enc::JsonValue,
                        Enc::Bin,
                        Enc::Bin,
                        Enc::Sim,
                        Enc::Sim,
                    ])
                };
                let dec = match enc {
                    Enc::Sim => Dec::Form(if heap {
                        *r.pick(&[0, 1, 3, 4, 5, 7, 8])
                    } else {
                        r.below(FORMS as usize) as u8
                    }),
                    Enc::Bin => *r.pick(&[Dec::Slice, Dec::Reader, Dec::Stream]),
                    _ => *r.pick(&[
                        Dec::Slice,
                        Dec::Str,
                        Dec::Reader,
                        Dec::Reader,
                        Dec::Stream,
                        Dec::Value,
                        Dec::ValueRef,
                    ]),
                };
                let copies = match dec {
                    Dec::Stream | Dec::Form(_) => 1 + r.below(3) as u8,
                    _ => 1,
                };
                let mut m = Msg {
                    from,
                    to,
                    wrap: if r.chance(1, 3) {
                        0
                    } else {
                        r.below(WRAPS as usize) as u8
                    },
                    txts: (0..1 + r.below(3)).map(|_| txt(r)).collect(),
                    past: txt(r),
                    copies,
                    enc,
                    wfaults: vec![],
                    damage: vec![],
                    dec,
                    rfaults: vec![],
                    chunk: if r.chance(1, 2) {
                        0
                    } else {
                        1 + r.below(1000) as u32
                    },
                    refuse: heap,
                    human: r.chance(1, 2),
                    place: r.chance(1, 6),
                };
                if m.place && m.enc != Enc::Sim {
                    m.wrap = *r.pick(&[0, 0, 2]);
                }
                if twins {
                    // the cache-line string is at one end or at both
                    match r.below(3) {
                        0 => m.from = CACHE.into(),
                        1 => m.to = CACHE.into(),
                        _ => {
                            m.from = CACHE.into();
                            m.to = CACHE.into();
                        }
                    }
                }
                if faulty {
                    if r.chance(1, 5) {
                        let k = 1 + r.below(2);
                        m.wfaults = some_io(r, k);
                    }
                    if r.chance(1, 3) {
                        for _ in 0..1 + r.below(3) {
                            let d = match r.below(8) {
                                0 | 1 => Damage::Flip(r.below(8) as u8),
                                2 => Damage::Set(*r.pick(&[
                                    b'\\', b'"', 0x80, 0xC0, 0xED, 0xF4, 0xFF, b'u', b' ', b'n', 0,
                                ])),
                                3 => Damage::Drop,
                                4 => Damage::Dup,
                                5 | 6 => Damage::Cut,
                                _ => Damage::Again,
                            };
                            m.damage.push((r.below(1 << 16) as u16, d));
                        }
                    }
                    if matches!(dec, Dec::Reader | Dec::Stream | Dec::Form(_)) && r.chance(1, 3) {
                        let k = 1 + r.below(2);
                        m.rfaults = some_io(r, k);
                    }
                }
                m
            })
            .collect();
        WirePlan { log, msgs }
    }

    fn check(&mut self, p: &WirePlan, cover: &mut Cover) -> Vec<Viol> {
        cover.runs += 1;
        let mut viols = vec![];
        let mut trace = 0;
        const IO: [&str; NIO] = ["interrupted", "failed", "ended early", "panicked"];
        const HITS: [&str; 6] = ["bit flipped", "byte overwritten", "byte lost", "byte doubled", "cut off", "tail repeated"];
        for (i, m) in p.msgs.iter().enumerate() {
            let (from, to) = (kind(&m.from), kind(&m.to));
            let caps = (from.cap, to.cap);
            // texts about as long as either end can hold
            let txts: Vec<String> = m
                .txts
                .iter()
                .enumerate()
                .map(|(k, t)| {
                    let c = if k % 2 == 0 { caps.0.min(caps.1) } else { caps.0 };
                    t.text(c, 0)
                })
                .collect();
            let past = m.past.text(caps.0, 0);
            let mut bad: Vec<(u32, String)> = vec![];

            set_log(p.log);
            let w = (from.enc)(m, &txts, &past);
            set_log(LogMode::Off);
            let sent = w.held.clone();
            let quiet = Msg {
                refuse: false,
                human: false,
                ..m.clone()
            };
            let v = encode::<String>(&quiet, &sent, "", &|_, t| t.to_string());
            if let End::Own(s) = &w.end {
                bad.push((C10 | C07, format!("writing panicked: {s}")));
            } else if w.end != v.end {
                bad.push((
                    C10,
                    format!("writing {sent:?} ended with {:?}, that of a String with {:?}", w.end, v.end),
                ));
            } else if w.bytes != v.bytes {
                bad.push((
                    C10,
                    format!(
                        "wrote {:?} for {sent:?}, not {:?}",
                        String::from_utf8_lossy(&w.bytes),
                        String::from_utf8_lossy(&v.bytes)
                    ),
                ));
            }
            let mut hits = [0; 6];
            let stream = carry(&w.bytes, &m.damage, &mut hits);

            set_log(p.log);
            let got = (to.dec)(m, &stream);
            set_log(LogMode::Off);
            let want = decode::<String>(&quiet, &stream);
            let shown = || String::from_utf8_lossy(&stream).into_owned();
            if got.got.len() != want.got.len() {
                bad.push((
                    C10,
                    format!("read {} values from {:?}, a String {}", got.got.len(), shown(), want.got.len()),
                ));
            }
            for (g, s) in got.got.iter().zip(&want.got) {
                for l in g.1.iter().flatten() {
                    // leaves of other types are never longer
                    if l.len() > caps.1.max(8) || (l.len() > 8 && std::str::from_utf8(l).is_err()) {
                        bad.push((C02 | C10, format!("read a broken string {l:?} from {:?}", shown())));
                    }
                }
                let cut: Vec<Leaf> = s
                    .1
                    .iter()
                    .map(|l| {
                        l.as_ref().map(|b| match std::str::from_utf8(b) {
                            Ok(t) => prefix(t, caps.1).as_bytes().to_vec(),
                            Err(_) => b.clone(),
                        })
                    })
                    .collect();
                // values that are no text are not cut
                let fits = |l: &Leaf, c: &Leaf, s: &Leaf| l == c || (l == s && is_number(m, s));
                let same = g.1.len() == cut.len()
                    && g.1.iter().zip(&cut).zip(&s.1).all(|((l, c), s)| fits(l, c, s));
                if let End::Own(e) = &g.0 {
                    bad.push((C10 | C07, format!("reading {:?} panicked: {e}", shown())));
                } else if g.0 != s.0 {
                    bad.push((
                        C10,
                        format!("reading {:?} ended with {:?}, that of a String with {:?}", shown(), g.0, s.0),
                    ));
                } else if !same {
                    bad.push((
                        C10,
                        format!("read {} from {:?}, not {}", show(&g.1), shown(), show(&cut)),
                    ));
                }
            }
            if self.prop == "C14" && (m.from == CACHE || m.to == CACHE) {
                let twin = |n: &str| kind(if n == CACHE { TWIN } else { n });
                set_log(p.log);
                let w2 = (twin(&m.from).enc)(m, &txts, &past);
                let got2 = (twin(&m.to).dec)(m, &stream);
                set_log(LogMode::Off);
                if (&w.end, &w.bytes, &w.held) != (&w2.end, &w2.bytes, &w2.held) {
                    bad.push((
                        C14,
                        format!(
                            "wrote {:?} ({:?}), the array string {:?} ({:?})",
                            String::from_utf8_lossy(&w.bytes),
                            w.end,
                            String::from_utf8_lossy(&w2.bytes),
                            w2.end
                        ),
                    ));
                }
                if got.got != got2.got {
                    bad.push((
                        C14,
                        format!("read {:?} from {:?}, the array string {:?}", got.got, shown(), got2.got),
                    ));
                }
            }
            let allocs = w.allocs + got.allocs;
            if allocs > 0 {
                cover.allocs += allocs as u64;
                bad.push((C06, format!("asked for memory {allocs} times")));
            }
            // what happened
            if let Some(n) = &mut self.notes {
                n.push(format!(
                    "{} {sent:?} written as {:?}: {:?}, {} bytes",
                    m.from, m.enc, w.end, w.bytes.len()
                ));
                let s = String::from_utf8_lossy(&stream);
                for (e, l) in &got.got {
                    n.push(format!("{} read {:?} from {s:?}: {e:?} {}", m.to, m.dec, show(l)));
                }
            }
            cover.steps += 1;
            cover.events += w.calls + got.calls;
            for k in 0..NIO {
                if w.fired[k] > 0 {
                    cover.count(&format!("fault: writing stream {}", IO[k]), w.fired[k]);
                }
                if got.fired[k] > 0 {
                    cover.count(&format!("fault: reading stream {}", IO[k]), got.fired[k]);
                }
            }
            for k in 0..6 {
                if hits[k] > 0 {
                    cover.count(&format!("fault: stored {}", HITS[k]), hits[k]);
                }
            }
            if m.refuse {
                cover.count("fault: allocator refuses throughout", 1);
            }
            let outcome: u64 = got.got.iter().fold(0, |h, g| {
                h * 4
                    + match g.0 {
                        End::Ok => 1,
                        End::Err => 2,
                        _ => 3,
                    }
            });
            let dec = match m.dec {
                Dec::Slice => 0,
                Dec::Str => 1,
                Dec::Reader => 2,
                Dec::Stream => 3,
                Dec::Value => 4,
                Dec::ValueRef => 5,
                Dec::Form(f) => 6 + f as u64,
            };
            let mut h = outcome
                | (m.enc as u64) << 16
                | dec << 20
                | ((m.wrap % WRAPS) as u64) << 28
                | ((w.end == End::Ok) as u64) << 34
                | ((sent.iter().any(|t| t.len() > caps.1)) as u64) << 35;
            h = mix(h ^ hash_bytes(0, format!("{:?}{:?}", w.fired.map(|n| n > 0), got.fired.map(|n| n > 0)).as_bytes()));
            h = mix(h ^ hash_bytes(1, format!("{:?}", hits.map(|n| n > 0)).as_bytes()));
            cover.states.insert(h);
            trace = hash_bytes(trace, &w.bytes);
            trace = hash_bytes(trace, &stream);
            trace = hash_bytes(trace, format!("{:?} {:?}", w.end, got.got).as_bytes());
            for (t, s) in bad {
                viols.push(Viol {
                    tags: t,
                    task: 0,
                    step: i,
                    msg: format!("{} to {} ({:?}/{:?}, wrap {}): {s}", m.from, m.to, m.enc, m.dec, m.wrap),
                });
            }
        }
        cover.take_ctx();
        cover.traces.insert(trace);
        viols
    }
    fn history(&mut self, p: &WirePlan) -> Vec<String> {
        self.notes = Some(vec![]);
        self.check(p, &mut Cover::default());
        self.notes.take().unwrap()
    }
    fn size(&self, p: &WirePlan) -> usize {
        p.msgs.len()
    }
    fn smaller(&self, p: &WirePlan, _: Option<(usize, usize)>) -> Vec<WirePlan> {
        let mut out = vec![];
        for msgs in crate::world::cuts(&p.msgs) {
            out.push(WirePlan { log: p.log, msgs });
        }
        if p.log != LogMode::Off {
            out.push(WirePlan {
                log: LogMode::Off,
                msgs: p.msgs.clone(),
            });
        }
        for (i, m) in p.msgs.iter().enumerate() {
            let mut put = |n: Msg| {
                let mut q = p.clone();
                q.msgs[i] = n;
                out.push(q);
            };
            for k in 0..m.txts.len() {
                if m.txts.len() > 1 {
                    let mut n = m.clone();
                    n.txts.remove(k);
                    put(n);
                }
            }
            for k in 0..m.wfaults.len() {
                let mut n = m.clone();
                n.wfaults.remove(k);
                put(n);
            }
            for k in 0..m.damage.len() {
                let mut n = m.clone();
                n.damage.remove(k);
                put(n);
            }
            for k in 0..m.rfaults.len() {
                let mut n = m.clone();
                n.rfaults.remove(k);
                put(n);
            }
            if m.chunk != 0 {
                put(Msg {
                    chunk: 0,
                    ..m.clone()
                });
            }
            if m.wrap != 0 {
                put(Msg {
                    wrap: 0,
                    ..m.clone()
                });
            }
            if m.copies > 1 {
                put(Msg {
                    copies: 1,
                    ..m.clone()
                });
            }
            if m.enc != Enc::Json && m.enc != Enc::Sim && m.enc != Enc::Bin {
                put(Msg {
                    enc: Enc::Json,
                    ..m.clone()
                });
            }
            for k in 0..m.txts.len() {
                for t in crate::world::simpler_txt(&m.txts[k]) {
                    let mut n = m.clone();
                    n.txts[k] = t;
                    put(n);
                }
            }
            for t in crate::world::simpler_txt(&m.past) {
                put(Msg {
                    past: t,
                    ..m.clone()
                });
            }
            for k in 0..m.damage.len() {
                for a in [0, m.damage[k].0 / 2, m.damage[k].0.saturating_sub(1)] {
                    if a < m.damage[k].0 {
                        let mut n = m.clone();
                        n.damage[k].0 = a;
                        put(n);
                    }
                }
            }
        }
        out
    }
}
fn prefix(s: &str, room: usize) -> &str {
    let mut n = room.min(s.len());
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    &s[..n]
}
/// the untagged and flattened shapes carry numbers as well
fn is_number(m: &Msg, s: &Leaf) -> bool {
    m.wrap % WRAPS == 6 && s.as_ref().is_some_and(|b| b.len() == 8)
}
fn show(l: &[Leaf]) -> String {
    let v: Vec<Option<String>> = l
        .iter()
        .map(|x| x.as_ref().map(|b| String::from_utf8_lossy(b).into_owned()))
        .collect();
    format!("{v:?}")
}
