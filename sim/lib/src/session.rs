//! A session: one complete, explicit description of a simulated run.
use crate::ast::{Grammar, Script};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Session {
    pub prop: String,
    pub seed: u64,
    pub env: Env,
    /// Threads (seeded schedule) or one task after the other on the main thread.
    pub threads: bool,
    /// So many threads at a time; the next ones start when these have ended. 0: all at once.
    #[serde(default, skip_serializing_if = "is_zero")]
    pub wave: u32,
    /// Equal texts are one and the same piece of memory, shared by all who parse them.
    #[serde(default, skip_serializing_if = "is_false")]
    pub one_text: bool,
    /// Every thread carries out its last operation at its very end, in the destructor of a
    /// thread-local variable older than any the library may have.
    #[serde(default, skip_serializing_if = "is_false")]
    pub last_words: bool,
    pub tasks: Vec<Vec<Op>>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
    /// Pattern cases for the tree engine.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub cases: Vec<Case>,
    pub plan: PlanS,
    /// Give up (no progress) after this many steps.
    pub cap: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Env {
    pub place: PlaceS,
    pub hash_seed: u64,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum PlaceS {
    Lifo,
    Fresh,
    LowBits(u32),
    Gaps(u64),
    /// Small blocks a multiple of this power of two apart, over a wide range of addresses.
    Wide(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum PlanS {
    Serial,
    Random {
        seed: u64,
        gap: u64,
        p_event: u64,
        #[serde(default)]
        hold: u64,
    },
    Pct {
        seed: u64,
        depth: u32,
        est: u64,
        #[serde(default)]
        hold: u64,
    },
    /// (thread, its step, next thread, reason)
    Explicit(Vec<(u32, u64, u32, u8)>),
}

/// Where the text of an operation lives.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Buf {
    /// An allocation of its own.
    Own,
    /// Written over whatever was there, at the start of the task's reused buffer.
    Reused,
    /// In the middle of a bigger buffer, this many bytes from its start.
    Sub(u32),
    /// Handed to the `aoc_parse` helper, which puts a missing final newline back.
    Helper,
}
/// The text that is actually parsed.
pub fn text_of(t: &str, buf: Buf) -> std::borrow::Cow<'_, str> {
    if buf == Buf::Helper && !t.ends_with('\n') {
        format!("{t}\n").into()
    } else {
        t.into()
    }
}

/// Which instance of the parser runs it.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Inst {
    /// The one instance all threads share (a private one where the type cannot be shared).
    Shared,
    /// Built for this operation, dropped after it.
    Temp,
    /// Built by this task on first use and kept to its end.
    Kept,
    /// As `Kept`, after the one kept so far has been dropped.
    Renewed,
    /// A copy of the shared (or kept) one, dropped afterwards.
    Copy,
    /// A copy of one that has been dropped.
    Orphan,
}

fn once() -> u32 {
    1
}
fn is_zero(n: &u32) -> bool {
    *n == 0
}
fn is_false(b: &bool) -> bool {
    !b
}
fn is_once(n: &u32) -> bool {
    *n == 1
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// Parse a whole text.
    Parse {
        p: String,
        t: String,
        inst: Inst,
        buf: Buf,
        /// How often, one after the other.
        #[serde(default = "once", skip_serializing_if = "is_once")]
        times: u32,
    },
    /// Drive match iterators by hand.
    Cursors { open: Vec<(String, String, bool)>, acts: Vec<(u8, Act)> },
    /// Build `n` rule-set parsers, use each once, keep every `keep`-th alive to the end of the task.
    Churn { n: u32, keep: u32 },
    /// A large parse of this kind, with a known answer.
    Scale { kind: String, n: u32, k: u32 },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Act {
    /// Start the iterator (or restart it once it is over).
    Start,
    Next,
    Value,
    Drop,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub task: u32,
    pub op: u32,
    /// Ordinal of the call-out, within the operation, at which it strikes.
    pub at: u32,
    pub kind: FaultKind,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FaultKind {
    /// User code panics with this payload.
    Panic(u32),
    /// User code parses `t` with `p`; if `same`, with the very instance that is running.
    Reenter { p: String, t: String, same: bool, catch: bool },
    /// User code does nothing for this many steps of the others.
    Stall(u64),
    /// User code does nothing until all other threads have finished.
    StallForAll,
    /// A user-written parser reports failure instead of starting or offering more.
    Reject,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub g: Grammar,
    pub scripts: Vec<Script>,
    pub texts: Vec<String>,
    /// Requests to sub-parsers (by ordinal, per text) that are refused.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub flaky: Vec<(u32, u32)>,
}
