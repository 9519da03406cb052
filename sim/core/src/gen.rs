//! Plans from seeds. Each property has a profile: which operations, which faults, how many
//! callers.

use crate::adapt::{Kind, Via, ADAPTORS, HANDS, LITS};
use crate::ctx::*;
use crate::plan::*;
use crate::rng::Rng;
use crate::sources::Hint;
use crate::text::*;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum G {
    Ctor,
    Utf16,
    Push,
    PushTrunc,
    Insert,
    Shrink,
    Range,
    Ext,
    Index,
    Write,
    Show,
    Cmp,
    Copy,
    Drains,
}

pub struct Profile {
    pub groups: Vec<(G, u32)>,
    /// faults per hundred steps
    pub fault_rate: u32,
    pub menu: Vec<(Site, What, u32)>,
    pub tasks: (i64, i64),
    pub steps: (i64, i64),
    pub nested: bool,
    pub shared: bool,
    /// per hundred plans: instruction-level interruptions
    pub instr: u32,
    /// off, render, reenter
    pub log: [u32; 3],
    /// per hundred sources
    pub endless: u32,
    /// of ten texts, how many are about as long as the room left
    pub tight: u32,
    pub kind: Option<&'static str>,
    pub caps: CapBias,
    pub link: u32,
}
#[derive(Clone, Copy, PartialEq)]
pub enum CapBias {
    Any,
    Small,
}

use Site::*;
use What::*;

pub fn all_groups() -> Vec<(G, u32)> {
    vec![
        (G::Ctor, 10),
        (G::Utf16, 4),
        (G::Push, 14),
        (G::PushTrunc, 8),
        (G::Insert, 12),
        (G::Shrink, 16),
        (G::Range, 14),
        (G::Ext, 8),
        (G::Index, 5),
        (G::Write, 6),
        (G::Show, 2),
        (G::Cmp, 5),
        (G::Copy, 4),
        (G::Drains, 8),
    ]
}
fn base() -> Profile {
    Profile {
        groups: all_groups(),
        fault_rate: 20,
        menu: vec![
            (Pred, Panic, 3),
            (Next, Panic, 3),
            (AsRef, Panic, 3),
            (Range, Panic, 2),
            (Units, Panic, 1),
            (Next, Gap, 2),
            (Source, Panic, 2),
            (Source, Err, 2),
            (Sink, Err, 1),
        ],
        tasks: (1, 1),
        steps: (6, 40),
        nested: false,
        shared: false,
        instr: 0,
        log: [8, 1, 1],
        endless: 15,
        tight: 6,
        kind: None,
        caps: CapBias::Any,
        link: 40,
    }
}
pub fn profile(prop: &str) -> Profile {
    let mut p = base();
    match prop {
        "C01" => {
            p.fault_rate = 12;
            p.tight = 4;
        }
        "C02" => {
            p.fault_rate = 60;
            p.menu = vec![
                (Log, Panic, 12),
                (AsRef, Alt, 8),
                (Range, Alt, 5),
                (Units, Alt, 2),
                (Pred, Panic, 2),
                (Next, Panic, 2),
                (AsRef, Panic, 2),
                (Range, Panic, 2),
                (Source, Panic, 1),
                (Consumer, Panic, 1),
                (Sink, Panic, 1),
                (Hasher, Panic, 1),
                (Next, Gap, 1),
            ];
            p.log = [3, 3, 3];
            p.nested = false;
        }
        "C03" => {
            p.groups = vec![
                (G::Ctor, 20),
                (G::Utf16, 5),
                (G::Push, 6),
                (G::PushTrunc, 22),
                (G::Insert, 14),
                (G::Shrink, 12),
                (G::Range, 4),
                (G::Ext, 22),
                (G::Copy, 2),
            ];
            p.fault_rate = 15;
            p.menu = vec![(Next, Gap, 6), (Next, Panic, 2), (AsRef, Panic, 1)];
            p.endless = 40;
            p.tight = 8;
        }
        "C04" => {
            p.fault_rate = 15;
            p.tight = 7;
            p.menu.push((AsRef, Alt, 2));
            p.menu.push((Range, Alt, 2));
            p.groups = vec![
                (G::Ctor, 10),
                (G::Utf16, 6),
                (G::Push, 14),
                (G::PushTrunc, 4),
                (G::Insert, 20),
                (G::Shrink, 14),
                (G::Range, 22),
                (G::Ext, 3),
                (G::Write, 6),
                (G::Copy, 2),
                (G::Drains, 3),
            ];
        }
        "C05" => {
            p.fault_rate = 60;
            p.menu = vec![
                (Pred, Panic, 10),
                (Next, Panic, 10),
                (AsRef, Panic, 10),
                (Range, Panic, 6),
                (Units, Panic, 2),
                (Next, Gap, 1),
            ];
            p.groups = vec![
                (G::Ctor, 10),
                (G::Utf16, 3),
                (G::Push, 8),
                (G::PushTrunc, 8),
                (G::Insert, 14),
                (G::Shrink, 22),
                (G::Range, 18),
                (G::Ext, 14),
                (G::Write, 2),
                (G::Cmp, 4),
                (G::Copy, 3),
                (G::Drains, 5),
            ];
        }
        "C06" => {
            p.fault_rate = 100;
            p.menu = vec![(Alloc, Refuse, 1)];
            p.log = [3, 2, 2];
            p.groups.retain(|g| g.0 != G::Index);
            p.groups.push((G::Index, 1));
        }
        "C07" => {
            p.fault_rate = 40;
            p.menu.push((AsRef, Alt, 8));
            p.menu.push((Range, Alt, 8));
            p.menu.push((Units, Alt, 2));
            p.menu.push((Next, Gap, 4));
            p.endless = 50;
            p.log = [6, 2, 2];
            p.groups.retain(|g| g.0 != G::Index);
            p.groups.push((G::Index, 2));
        }
        "C08" => {
            p.tasks = (2, 4);
            p.steps = (3, 14);
            p.nested = true;
            p.shared = true;
            p.instr = 12;
            p.fault_rate = 45;
            p.menu = vec![
                (Pred, Nest, 4),
                (Next, Nest, 4),
                (AsRef, Nest, 4),
                (Range, Nest, 3),
                (Log, Nest, 4),
                (Source, Nest, 3),
                (Sink, Nest, 2),
                (Hasher, Nest, 1),
                (Consumer, Nest, 2),
                (Consumer, Switch, 1),
                (Log, Switch, 4),
                (AsRef, Switch, 3),
                (Next, Switch, 3),
                (Pred, Switch, 3),
                (Range, Switch, 2),
                (Source, Switch, 2),
                (Pred, Panic, 2),
                (Next, Panic, 2),
                (AsRef, Panic, 1),
            ];
            p.log = [4, 3, 3];
            p.endless = 10;
        }
        "C09" => {
            p.groups = vec![
                (G::Write, 40),
                (G::Show, 20),
                (G::Ctor, 3),
                (G::Push, 5),
                (G::Insert, 3),
                (G::Shrink, 14),
                (G::Range, 5),
                (G::Copy, 2),
            ];
            p.fault_rate = 55;
            p.menu = vec![
                (Source, Err, 8),
                (Source, Panic, 8),
                (Sink, Err, 6),
                (Sink, Panic, 6),
                (Source, Nest, 1),
            ];
        }
        "C12" => {
            p.groups = vec![
                (G::Ctor, 8),
                (G::Push, 10),
                (G::PushTrunc, 8),
                (G::Shrink, 3),
                (G::Range, 24),
                (G::Ext, 3),
                (G::Copy, 3),
                (G::Drains, 44),
            ];
            p.fault_rate = 20;
            p.menu = vec![
                (Range, Panic, 4),
                (Range, Alt, 4),
                (AsRef, Panic, 1),
                (Next, Panic, 1),
                (Consumer, Panic, 6),
                (Log, Nest, 1),
            ];
        }
        "C13" => {
            p.groups = vec![
                (G::Cmp, 46),
                (G::Show, 8),
                (G::Copy, 10),
                (G::Ctor, 5),
                (G::Push, 8),
                (G::PushTrunc, 4),
                (G::Insert, 5),
                (G::Shrink, 18),
                (G::Range, 8),
                (G::Ext, 3),
                (G::Drains, 8),
            ];
            p.fault_rate = 30;
            p.menu = vec![
                (Hasher, Panic, 6),
                (Sink, Panic, 4),
                (Sink, Err, 3),
                (Pred, Panic, 3),
                (Next, Panic, 3),
                (AsRef, Panic, 3),
            ];
        }
        "C14" => {
            p.kind = Some("CacheString");
            p.fault_rate = 30;
            p.menu = vec![
                (Pred, Panic, 4),
                (Next, Panic, 4),
                (Next, Gap, 2),
                (Source, Panic, 3),
                (Source, Err, 3),
                (Sink, Err, 2),
                (Hasher, Panic, 1),
                (AsRef, Panic, 3),
                (Range, Panic, 2),
                (Pred, Nest, 2),
                (AsRef, Nest, 2),
                (Next, Nest, 2),
                (Log, Nest, 2),
            ];
            p.nested = true;
            p.log = [6, 2, 2];
        }
        "C15" => {
            p.groups = vec![(G::Utf16, 70), (G::Push, 6), (G::Shrink, 6), (G::Copy, 2)];
            p.fault_rate = 0;
            p.link = 85;
            p.tight = 8;
        }
        "C16" => {
            p.fault_rate = 25;
            p.menu = vec![
                (Pred, Panic, 4),
                (Next, Panic, 4),
                (Next, Gap, 2),
                (Source, Panic, 3),
                (Source, Err, 3),
                (Sink, Err, 2),
                (Sink, Panic, 2),
                (Hasher, Panic, 1),
            ];
            p.log = [1, 0, 0];
        }
        _ => {}
    }
    p
}

pub struct Gen<'a> {
    pub r: Rng,
    p: &'a Profile,
    nested: bool,
    /// this plan's share of the operations and its fault rate
    weights: Vec<u32>,
    rate: u32,
    tight: u32,
}

impl Gen<'_> {
    fn fit(&mut self) -> Fit {
        if let Some(n) = dict().int(&mut self.r) {
            return Fit::Len(n);
        }
        let tight = self.r.below(10) < self.tight as usize;
        let r = &mut self.r;
        if tight {
            match r.below(10) {
                0..=2 => Fit::Rem(0),
                3..=5 => Fit::Rem(r.range(-4, 5) as i16),
                6 => Fit::Cap(0),
                7 => Fit::Cap(r.range(-4, 5) as i16),
                8 => Fit::Len(r.below(4) as u32),
                _ => Fit::Cap(r.range(1, 300) as i16),
            }
        } else {
            match r.below(12) {
                0 => Fit::Len(0),
                1..=6 => Fit::Len(r.below(12) as u32),
                7..=9 => Fit::Len(r.below(70) as u32),
                10 => Fit::Len(r.below(300) as u32),
                _ => match r.below(30) {
                    0 => Fit::Len(65_536 + r.below(40) as u32),
                    1 | 2 => Fit::Len(256 * (1 + r.below(4)) as u32 + r.below(12) as u32),
                    _ => Fit::Rem(r.range(-8, 0) as i16),
                },
            }
        }
    }
    fn txt(&mut self) -> Txt {
        let fit = self.fit();
        let alt = match self.r.below(6) {
            0 => Fit::Len(0),
            1 => Fit::Cap(0),
            2 => Fit::Cap(300),
            3 => Fit::Rem(0),
            4 => Fit::Len(1 + self.r.below(5) as u32),
            _ => self.fit(),
        };
        Txt {
            fit,
            style: self.r.below(RESHAPED as usize + 1) as u8,
            seed: self.r.below(1 << 20) as u32,
            spice: dict().word(&mut self.r),
            alt,
        }
    }
    fn chr(&mut self) -> Chr {
        let spice = dict().chr(&mut self.r);
        Chr {
            style: self.r.below(STYLES as usize + 2) as u8 % if spice.is_some() { STYLES } else { 255 },
            seed: self.r.below(1 << 20) as u32,
            spice,
        }
    }
    fn items(&mut self) -> Items {
        let endless = !self.nested && self.r.below(100) < self.p.endless as usize;
        let mut txt = self.txt();
        if endless && self.r.chance(1, 2) {
            txt.fit = Fit::Len(1 + self.r.below(9) as u32);
        }
        Items {
            txt,
            cut: self.r.below(1 << 20) as u32,
            endless,
            hint: *self
                .r
                .pick(&[Hint::Honest, Hint::Honest, Hint::Zero, Hint::Huge, Hint::Inverted]),
        }
    }
    fn units(&mut self) -> crate::plan::Units {
        let txt = self.txt();
        let mut link = vec![];
        if self.r.below(100) < self.p.link as usize {
            for _ in 0..1 + self.r.below(3) {
                let k = self.r.below(300) as u16;
                link.push((
                    k,
                    match self.r.below(6) {
                        0 => Link::Lose,
                        1 => Link::Dup,
                        2 => Link::Delay(1 + self.r.below(6) as u8),
                        3 => Link::Flip(self.r.below(16) as u8),
                        4 => Link::Bad(self.r.below(0x800) as u16),
                        _ => Link::Cut,
                    },
                ));
            }
        }
        crate::plan::Units { txt, link }
    }
    fn pos(&mut self) -> Pos {
        let r = &mut self.r;
        if let Some(n) = dict().int(r) {
            return Pos::Abs(n);
        }
        match r.below(20) {
            0..=9 => Pos::Ch(r.below(256) as u8),
            10 | 11 => Pos::Len,
            12..=14 => Pos::Mid(r.below(256) as u8),
            15 if r.chance(1, 3) => Pos::Past(r.below(64) as u16),
            15 => Pos::Past(r.below(4) as u16),
            16 => Pos::Ch(0),
            17 => Pos::Wrap(r.below(3) as u8, r.below(256) as u8),
            18 => Pos::Max(r.below(4) as u8),
            _ => Pos::Abs(r.below(400) as u32),
        }
    }
    fn good_pos(&mut self) -> Pos {
        match self.r.below(12) {
            0 => Pos::Len,
            1 => Pos::Ch(0),
            _ => Pos::Ch(self.r.below(256) as u8),
        }
    }
    fn some_pos(&mut self) -> Pos {
        if self.r.chance(3, 5) {
            self.good_pos()
        } else {
            self.pos()
        }
    }
    fn span(&mut self) -> Span {
        let good = self.r.chance(7, 10);
        let (s, e) = if good {
            (self.good_pos(), self.good_pos())
        } else {
            (self.pos(), self.pos())
        };
        Span {
            sb: *self.r.pick(&[0, 0, 0, 0, 1, 2]),
            s,
            eb: *self.r.pick(&[0, 1, 1, 1, 2]),
            e,
            sort: good || self.r.chance(1, 2),
            adj: good || self.r.chance(1, 2),
            alt_s: self.pos(),
            alt_e: self.pos(),
        }
    }
    fn at(&mut self) -> At {
        let (a, b) = if self.r.chance(4, 5) {
            (self.good_pos(), self.good_pos())
        } else {
            (self.pos(), self.pos())
        };
        At {
            kind: self.r.below(7) as u8,
            a,
            b,
        }
    }

    fn op(&mut self, g: G) -> Op {
        match g {
            G::Ctor => match self.r.below(14) {
                0 => Op::New,
                1 => Op::Default,
                2 | 3 => Op::TryStr(self.txt()),
                4 | 5 => Op::StrTrunc(self.txt()),
                6 => Op::From(self.txt()),
                7 => Op::Parse(self.txt()),
                8 => Op::TryIter(self.items()),
                9 => Op::IterTrunc(self.items()),
                10 => Op::CollectStrs(self.items()),
                11 => Op::TryChars(self.items()),
                12 => Op::CharsTrunc(self.items()),
                _ => Op::CollectChars(self.items()),
            },
            G::Utf16 => match self.r.below(3) {
                0 => Op::TryU16(self.units()),
                1 => Op::U16Trunc(self.units()),
                _ => Op::U16Lossy(self.units()),
            },
            G::Push => match self.r.below(4) {
                0 => Op::TryPush(self.chr()),
                _ => Op::TryPushStr(self.txt()),
            },
            G::PushTrunc => match self.r.below(4) {
                0 => Op::Add(self.txt()),
                _ => Op::PushTrunc(self.txt()),
            },
            G::Insert => {
                let p = self.some_pos();
                match self.r.below(4) {
                    0 => Op::TryInsert(p, self.chr()),
                    1 | 2 => Op::TryInsertStr(p, self.txt()),
                    _ => Op::InsertTrunc(p, self.txt()),
                }
            }
            G::Shrink => match self.r.below(16) {
                0..=2 => Op::Truncate(self.some_pos()),
                3..=5 => Op::Pop,
                6 | 7 => Op::Trim,
                8..=11 => Op::Remove(self.some_pos()),
                12..=14 => Op::Retain(crate::plan::Pred {
                    mode: self.r.below(8) as u8,
                    seed: self.r.below(1 << 20) as u32,
                }),
                _ => Op::Clear,
            },
            G::Range => match self.r.below(8) {
                0 | 1 => Op::Drain(self.span(), self.r.below(2) as u8),
                2 => {
                    let p = self.some_pos();
                    let into = self.r.chance(1, 2).then(|| self.r.below(3) as u8);
                    Op::SplitOff(p, into)
                }
                _ => {
                    let s = self.span();
                    Op::ReplaceRange(s, self.txt())
                }
            },
            G::Ext => match self.r.below(3) {
                0 => Op::ExtChars(self.items()),
                1 => Op::ExtRefs(self.items()),
                _ => Op::ExtStrs(self.items()),
            },
            G::Index => {
                let at = self.at();
                if self.r.chance(1, 2) {
                    Op::Index(at)
                } else {
                    let via = *self.r.pick(&[
                        Via::Index,
                        Via::Index,
                        Via::MutStr,
                        Via::AsMut,
                        Via::BorrowMut,
                        Via::DerefMut,
                    ]);
                    Op::Edit(via, at, self.r.chance(1, 2))
                }
            }
            G::Write => match self.r.below(5) {
                4 => Op::WriteLit(self.r.below(LITS.len()) as u8),
                0 => Op::WriteStr(self.txt()),
                1 => Op::WriteChar(self.chr()),
                _ => Op::WriteFmt {
                    a: self.txt(),
                    b: self.txt(),
                    cut: self.r.below(1 << 20) as u32,
                    lit: self.r.chance(1, 2),
                    ignore: self.r.chance(1, 3),
                    by_char: self.r.chance(1, 4),
                },
            },
            G::Show => {
                let room = if self.r.chance(1, 2) {
                    1000
                } else {
                    self.r.below(400) as u16
                };
                if self.r.chance(1, 2) {
                    Op::Display { room }
                } else {
                    Op::Debug {
                        room,
                        alt: self.r.chance(1, 3),
                    }
                }
            }
            G::Cmp => match self.r.below(8) {
                0 => Op::Cmp(self.r.below(3) as u8),
                1 => Op::CmpText(self.txt()),
                2 => Op::Hash,
                3 | 4 => Op::Fresh,
                5 => {
                    let same = self.r.chance(1, 2);
                    Op::Lookup(self.txt(), same)
                }
                6 => Op::DCmp(self.r.below(2) as u8, self.r.below(2) as u8),
                _ => Op::Views,
            },
            G::Copy if self.r.chance(1, 4) => Op::CloneFrom(self.r.below(3) as u8),
            G::Copy => Op::Copy(self.r.below(3) as u8, self.r.chance(1, 2)),
            G::Drains => {
                let d = self.r.below(2) as u8;
                match self.r.below(24) {
                    16..=19 => {
                        let n = if self.r.chance(2, 3) {
                            self.r.below(5)
                        } else {
                            self.r.below(256)
                        };
                        Op::DIter(d, self.r.below(ADAPTORS as usize) as u8, n as u8)
                    }
                    20..=22 => Op::DEach(d, self.r.below(HANDS as usize) as u8),
                    23 if self.r.chance(1, 3) => Op::DNew(d),
                    0..=4 => Op::DNext(d, 1 + self.r.below(4) as u8),
                    5..=8 => Op::DBack(d, 1 + self.r.below(4) as u8),
                    9 => Op::DStr(d),
                    10 | 11 => Op::DCopy(d, 1 - d, self.r.chance(1, 2)),
                    12 => Op::DCollect(d, self.r.chance(1, 2)),
                    13 => Op::DDrop(d),
                    14 => Op::DLeak(d),
                    _ => Op::DNext(d, 200),
                }
            }
        }
    }

    fn faults(&mut self, op: &Op, log: LogMode) -> Vec<Fault> {
        let mut out = vec![];
        if self.nested || self.r.below(100) >= self.rate as usize {
            return out;
        }
        let sites = sites_of(op);
        let menu: Vec<(Site, What, u32)> = self
            .p
            .menu
            .iter()
            .filter(|(s, _, _)| {
                (sites.contains(s) || *s == Alloc || (*s == Log && log != LogMode::Off))
                    && !(*s == Alloc && (opens_index(op) || matches!(op, Op::Lookup(..))))
            })
            .copied()
            .collect();
        if menu.is_empty() {
            return out;
        }
        let n = if self.r.chance(1, 5) { 2 } else { 1 };
        for _ in 0..n {
            let w: Vec<u32> = menu.iter().map(|m| m.2).collect();
            let (site, what, _) = menu[self.r.weighted(&w)];
            let at = match self.r.below(8) {
                0..=3 => 1,
                4 => 2,
                5 => 3,
                _ => 1 + self.r.below(40) as u32,
            };
            let at = if site == Log {
                // the library logs a lot: the last of it matters as well
                let span = *self.r.pick(&[12, 30, 60, 60, 200]);
                if what == Panic && self.r.chance(2, 3) {
                    LATE + 1 + self.r.below(8) as u32
                } else {
                    1 + self.r.below(span) as u32
                }
            } else {
                at
            };
            if out.iter().any(|f: &Fault| f.site == site && f.at == at) {
                continue;
            }
            // one deviation of a kind and site is enough
            if out
                .iter()
                .any(|f: &Fault| f.site == site && !matches!(what, Nest | Switch | Alt))
            {
                continue;
            }
            out.push(Fault { site, at, what });
        }
        out
    }

    /// The same place again, in another text of the same length.
    fn back(&mut self, s: &Step) -> Vec<Step> {
        let mut op = s.op.clone();
        if s.slot > 2 || op.spots()[0].is_none() || !self.r.chance(1, 12) {
            return vec![];
        }
        for (k, p) in op.spots().into_iter().flatten().enumerate() {
            *p = Pos::Again(k as u8);
        }
        let mut txt = self.txt();
        txt.style = RESHAPED;
        let change = match self.r.below(6) {
            0 => Op::TryStr(txt),
            1 => Op::CloneFrom(self.r.below(3) as u8),
            _ => Op::StrTrunc(txt),
        };
        let mut slot = s.slot;
        let mut v = vec![];
        if self.r.chance(1, 4) {
            slot = (slot + 1) % 3;
            v.push(Step {
                slot,
                op: Op::Copy(s.slot, false),
                faults: vec![],
            });
        }
        for op in [change, op] {
            v.push(Step {
                slot,
                op,
                faults: vec![],
            });
        }
        v
    }

    fn step(&mut self, log: LogMode) -> Step {
        let w = std::mem::take(&mut self.weights);
        let g = self.p.groups[self.r.weighted(&w)].0;
        self.weights = w;
        let op = self.op(g);
        let slot = *self.r.pick(&[0, 0, 0, 0, 1, 2]);
        let faults = self.faults(&op, log);
        Step { slot, op, faults }
    }
}

fn opens_index(op: &Op) -> bool {
    matches!(op, Op::Index(_) | Op::Edit(Via::Index, ..))
}
pub fn reads_only(op: &Op) -> bool {
    matches!(
        op,
        Op::Index(_)
            | Op::Display { .. }
            | Op::Debug { .. }
            | Op::Cmp(_)
            | Op::CmpText(_)
            | Op::Hash
            | Op::Fresh
            | Op::Views
    )
}

/// Where an operation calls out.
fn sites_of(op: &Op) -> &'static [Site] {
    match op {
        Op::TryStr(_) | Op::StrTrunc(_) | Op::TryPushStr(_) | Op::PushTrunc(_) => &[AsRef],
        Op::TryInsertStr(..) | Op::InsertTrunc(..) => &[AsRef],
        Op::TryIter(_) | Op::IterTrunc(_) => &[Next, AsRef],
        Op::CollectStrs(_)
        | Op::TryChars(_)
        | Op::CharsTrunc(_)
        | Op::CollectChars(_)
        | Op::ExtChars(_)
        | Op::ExtRefs(_)
        | Op::ExtStrs(_) => &[Next],
        Op::TryU16(_) | Op::U16Trunc(_) | Op::U16Lossy(_) => &[Units],
        Op::Retain(_) => &[Pred],
        Op::Drain(..) => &[Range],
        Op::ReplaceRange(..) => &[Range, AsRef],
        Op::WriteFmt { .. } => &[Source],
        Op::Display { .. } | Op::Debug { .. } => &[Sink],
        Op::Hash => &[Hasher],
        Op::DEach(..) => &[Consumer],
        _ => &[],
    }
}

fn pick_kind(r: &mut Rng, kinds: &[&'static Kind], bias: CapBias) -> &'static Kind {
    let ints = &dict().ints;
    if !ints.is_empty() && r.chance(1, 8) {
        let most = if matches!(bias, CapBias::Small) { 33 } else { 255 };
        let near = |k: &Kind| ints.iter().any(|n| k.cap.abs_diff(*n as usize) < 2);
        let some: Vec<_> = kinds.iter().filter(|k| k.cap <= most && near(k)).collect();
        if !some.is_empty() {
            return **r.pick(&some);
        }
    }
    let k = match (bias, r.below(10)) {
        (CapBias::Small, _) | (_, 0..=3) => {
            let small: Vec<_> = kinds.iter().filter(|k| k.cap <= 33).collect();
            **r.pick(&small)
        }
        (_, 4 | 5) => {
            let big: Vec<_> = kinds.iter().filter(|k| k.cap >= 128).collect();
            **r.pick(&big)
        }
        (_, 6) => {
            let edge: Vec<_> = kinds
                .iter()
                .filter(|k| k.cache || k.cap == 63 || k.cap >= 252)
                .collect();
            **r.pick(&edge)
        }
        _ => **r.pick(&kinds.iter().collect::<Vec<_>>()),
    };
    k
}

pub fn plan(prop: &str, p: &Profile, seed: u64, kinds: &[&'static Kind]) -> Plan {
    let mut g = Gen {
        r: Rng::new(seed),
        p,
        nested: false,
        weights: p.groups.iter().map(|g| g.1).collect(),
        rate: p.fault_rate,
        tight: p.tight,
    };
    // every run is a little different in kind: fewer operations, more or fewer faults, none
    if g.r.chance(1, 2) {
        let keep = g.r.below(g.weights.len());
        for i in 0..g.weights.len() {
            if i != keep && g.r.chance(1, 3) {
                g.weights[i] = 0;
            } else if g.r.chance(1, 4) {
                g.weights[i] *= 4;
            }
        }
    }
    if p.fault_rate < 100 {
        g.rate = match g.r.below(6) {
            0 => 0,
            1 => g.rate / 3,
            2 => (g.rate * 2).min(90),
            _ => g.rate,
        };
    }
    g.tight = match g.r.below(5) {
        0 => 1,
        1 => 9,
        _ => g.tight,
    };
    let log = [LogMode::Off, LogMode::Render, LogMode::Reenter][g.r.weighted(&p.log)];
    let high = g.r.chance(2, 3);
    let n = g.r.range(p.tasks.0, p.tasks.1);
    let instr = g.r.below(100) < p.instr as usize;
    let shared_kind = if p.shared {
        Some(pick_kind(&mut g.r, kinds, p.caps).name.to_string())
    } else {
        None
    };
    let mut tasks = vec![];
    for _ in 0..n {
        let kind = match p.kind {
            Some(k) => k.to_string(),
            None => match &shared_kind {
                Some(k) if g.r.chance(1, 2) => k.clone(),
                _ => pick_kind(&mut g.r, kinds, p.caps).name.to_string(),
            },
        };
        let mut steps = vec![];
        let len = if instr {
            g.r.range(2, 5)
        } else {
            g.r.range(p.steps.0, p.steps.1)
        };
        for _ in 0..len {
            let mut s = g.step(log);
            if instr && g.r.chance(1, 2) {
                s.faults = vec![Fault {
                    site: Instr,
                    at: 1 + g.r.below(*[60, 400, 2500, 8000].get(g.r.clone().below(4)).unwrap())
                        as u32,
                    what: if g.r.chance(1, 2) { Nest } else { Switch },
                }];
            }
            if p.shared && g.r.chance(1, 6) {
                s.slot = SHARED;
                if matches!(s.op, Op::SplitOff(..) | Op::Cmp(_) | Op::Copy(..) | Op::CloneFrom(_)) {
                    s.op = Op::Pop;
                }
            } else if p.shared && reads_only(&s.op) && g.r.chance(1, 2) {
                s.slot = READONLY;
            } else if p.shared && matches!(s.op, Op::Copy(..)) && g.r.chance(1, 2) {
                s.op = Op::Copy(READONLY, g.r.chance(1, 2));
            }
            let back = g.back(&s);
            steps.push(s);
            steps.extend(back);
        }
        let mut nested = vec![];
        if p.nested {
            g.nested = true;
            let n = 2 + g.r.below(8);
            while nested.len() < n {
                let s = g.step(log);
                if !opens_index(&s.op) {
                    nested.push(s);
                }
            }
            g.nested = false;
        }
        tasks.push(Task {
            kind,
            steps,
            nested,
        });
    }
    let mut choices = vec![];
    if n > 1 {
        let busy = 1 + g.r.below(30);
        for _ in 0..400 {
            choices.push(if g.r.below(100) < busy {
                1 + g.r.below(3) as u8
            } else {
                0
            });
        }
    }
    if prop == "C14" || prop == "C16" {
        for t in tasks.iter_mut() {
            for s in t.steps.iter_mut().chain(t.nested.iter_mut()) {
                if let Op::Debug { room, .. } = &mut s.op {
                    *room = 1000;
                    s.faults.clear();
                }
                // how often a conversion is asked is the library's business
                s.faults.retain_mut(|f| {
                    if matches!(f.site, AsRef | Range | Units | Log) {
                        f.at = 1;
                    }
                    true
                });
            }
        }
    }
    Plan {
        log,
        high,
        tasks,
        shared_kind,
        choices,
    }
}
