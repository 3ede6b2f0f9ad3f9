//! A plan is one complete, self-contained execution: the programs of the simulated threads, every
//! fault, and the schedule. It is what a seed expands to and what a replay file contains.

use crate::model::{Doc, Fmt, Pat};
use crate::seams::Io;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    /// log level at the start (0 off .. 5 trace); `fmt` renders every record
    pub log: u8,
    pub fmt: bool,
    pub entropy: u64,
    pub efaults: u32,
    /// simulated clock: start in ns since 1970, ns per reading
    #[serde(default)]
    pub clock: (u64, u64),
    /// user-supplied code (parsers, sources, log sink) uses the library itself at every n-th call
    #[serde(default)]
    pub nested: u32,
    /// matchers move in memory: 1 while something is added, 2 before every question,
    /// 4 a new one takes the place of the old one
    #[serde(default)]
    pub moves: u8,
    /// run by the first thread before the others start
    pub init: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    pub sched: SchedPlan,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SchedPlan {
    /// preemption probability (1/1000) per kind of yield point, drawn from a stream
    /// `fine`: mean number of instrumented points (branches, loads, stores of the library) between
    /// two preemptions there, 0 for none
    Gen {
        seed: u64,
        probs: [usize; 6],
        #[serde(default)]
        fine: u64,
    },
    /// the baton changes hands exactly at these steps
    Explicit(Vec<(u64, u8)>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Imp {
    Trie,
    Array,
    /// both implementations, fed identically
    Both,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Damage {
    /// crash while writing: only a prefix reached the disk
    Trunc(usize),
    /// one bit of one stored byte flipped
    Flip(usize, u8),
    /// a block was never written and reads back as zeros
    Zero(usize, usize),
    /// bytes that were never written back: the range is missing
    Cut(usize, usize),
    /// a range was written twice
    Dup(usize, usize),
    /// a stored byte replaced
    Set(usize, u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum WriteMode {
    /// write aside and rename
    Atomic,
    /// truncate, then write in pieces
    Truncate,
    /// overwrite in place in pieces, then cut to length
    InPlace,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Mode {
    File,
    Strict,
    Lenient,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Item {
    P(Pat),
    /// the source itself fails here
    Fail(u32),
    /// the source reports an undecodable pattern
    BadJson(u32),
    /// the source fails with another kind of error
    Err { kind: u8, n: u32 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    New { slot: usize, imp: Imp },
    Add { slot: usize, pat: Pat },
    Parse { slot: usize, msg: String, cancel: Option<u32> },
    /// the same question many times
    Hammer { slot: usize, msg: String, n: usize },
    Clone { from: usize, to: usize, boxed: bool },
    Drop { slot: usize },
    /// re-parse everything this matcher ever answered
    Sweep { slot: usize },
    Log(u8),
    Write { file: String, doc: Doc, fmt: Fmt, style: u64, damage: Vec<Damage>, mode: WriteMode, pieces: usize, #[serde(default)] pad: usize },
    Raw { file: String, text: String },
    Dir { file: String },
    Unlink { file: String },
    Load { slot: usize, file: String, imp: Imp, mode: Mode, open: Vec<i32>, io: Vec<Io>, cancel: Option<u32> },
    Source { slot: usize, imp: Imp, strict: bool, items: Vec<Item>, cancel: Option<u32> },
    /// compile a pattern text / decode a document given directly
    Grammar { text: String },
    Json { text: String },
    FmtPair { doc: Doc, js: u64, ys: u64, jio: Vec<Io>, yio: Vec<Io>, msgs: Vec<String> },
    Uuid { n: usize },
    /// simulated time passes by this many ns; negative: the clock is set back
    Clock(i64),
    /// process crash and restart: every matcher is gone, files stay
    Restart,
    Yield,
}
