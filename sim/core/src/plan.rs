//! A plan is everything a run depends on: what the callers do, what goes wrong and when, and who
//! runs when. It is generated from a seed, can be written down, cut down and run again.

use crate::adapt::Via;
use crate::ctx::{Fault, LogMode};
use crate::sources::Hint;
use crate::text::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Items {
    pub txt: Txt,
    pub cut: u32,
    pub endless: bool,
    pub hint: Hint,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Units {
    pub txt: Txt,
    pub link: Vec<(u16, Link)>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Pred {
    pub mode: u8,
    pub seed: u32,
}
impl Pred {
    /// depends on how often it was asked: it is a closure with state
    pub fn keep(&self, call: u32, c: char) -> bool {
        match self.mode {
            0 => true,
            1 => false,
            2 => c.len_utf8() == 1,
            3 => !c.is_whitespace(),
            4 => call % 2 == 0,
            _ => crate::rng::mix((self.seed as u64) << 32 | call as u64) & 1 == 0,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct At {
    pub kind: u8,
    pub a: Pos,
    pub b: Pos,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    New,
    Default,
    TryStr(Txt),
    StrTrunc(Txt),
    From(Txt),
    Parse(Txt),
    TryIter(Items),
    IterTrunc(Items),
    CollectStrs(Items),
    TryChars(Items),
    CharsTrunc(Items),
    CollectChars(Items),
    TryU16(Units),
    U16Trunc(Units),
    U16Lossy(Units),
    TryPushStr(Txt),
    PushTrunc(Txt),
    TryPush(Chr),
    Truncate(Pos),
    Pop,
    Trim,
    Remove(Pos),
    Retain(Pred),
    TryInsert(Pos, Chr),
    TryInsertStr(Pos, Txt),
    InsertTrunc(Pos, Txt),
    Clear,
    /// the removed part goes into another slot
    SplitOff(Pos, Option<u8>),
    Drain(Span, u8),
    ReplaceRange(Span, Txt),
    ExtChars(Items),
    ExtRefs(Items),
    ExtStrs(Items),
    Add(Txt),
    Index(At),
    Edit(Via, At, bool),
    WriteStr(Txt),
    WriteChar(Chr),
    WriteFmt {
        a: Txt,
        b: Txt,
        cut: u32,
        lit: bool,
        ignore: bool,
        by_char: bool,
    },
    Display {
        room: u16,
    },
    Debug {
        room: u16,
        alt: bool,
    },
    Cmp(u8),
    CmpText(Txt),
    Hash,
    /// compared with a string of the same text without a past
    Fresh,
    Copy(u8, bool),
    Lookup(Txt, bool),
    Views,
    DNext(u8, u8),
    DBack(u8, u8),
    DStr(u8),
    DCopy(u8, u8, bool),
    DCollect(u8, bool),
    DDrop(u8),
    DLeak(u8),
    DCmp(u8, u8),
    /// one of the iterator's own methods or adaptors
    DIter(u8, u8, u8),
    /// every character is handed to code of the caller, which may panic or do other things
    DEach(u8, u8),
    DNew(u8),
    WriteLit(u8),
    CloneFrom(u8),
}

impl Op {
    /// the places it names
    pub fn spots(&mut self) -> [Option<&mut Pos>; 2] {
        match self {
            Op::Truncate(p)
            | Op::Remove(p)
            | Op::TryInsert(p, _)
            | Op::TryInsertStr(p, _)
            | Op::InsertTrunc(p, _)
            | Op::SplitOff(p, _) => [Some(p), None],
            Op::Drain(s, _) | Op::ReplaceRange(s, _) => [Some(&mut s.s), Some(&mut s.e)],
            Op::Index(a) | Op::Edit(_, a, _) => [Some(&mut a.a), Some(&mut a.b)],
            _ => [None, None],
        }
    }
}

/// Slots: 0..=2 are the task's own; 3 is shared under a lock; 4 is shared and only read.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Step {
    pub slot: u8,
    pub op: Op,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
}
pub const SHARED: u8 = 3;
pub const READONLY: u8 = 4;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Task {
    pub kind: String,
    pub steps: Vec<Step>,
    /// what runs on a separate string when an operation of this task is interrupted
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub nested: Vec<Step>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Plan {
    pub log: LogMode,
    pub high: bool,
    pub tasks: Vec<Task>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub shared_kind: Option<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub choices: Vec<u8>,
}
