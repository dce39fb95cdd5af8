//! A run is fully described by its plan: generated from a seed, or read from a replay file.
use serde::{Deserialize, Serialize};

use crate::ctx::CtxSpec;
use crate::sched::Schedule;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub flavour: String,
    /// Environments; the whole workload is executed once in each.
    pub envs: Vec<Env>,
    /// Definitions made up front, by the setup phase.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub setup: Vec<Op>,
    /// Operations of each client.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub clients: Vec<Vec<Op>>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub ctxs: Vec<CtxSpec>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub macros: Vec<Src>,
    /// Code generation attempts, in order (clients of the code generation scenarios).
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub attempts: Vec<Attempt>,
    /// Execute all of this again and again, and weigh the heap.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub leak: Option<crate::leak::Spec>,
}

/// Everything around the code under test that real deployments vary.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Env {
    pub hash_key: u64,
    pub clock: i64,
    /// Bytes of ballast allocated before the workload, to shift the memory layout.
    pub pad: u64,
    pub sched: Schedule,
    /// Permutation seed for the setup definitions (0: as given).
    #[serde(default)]
    pub order: u64,
    /// Run everything in an extra thread per operation.
    #[serde(default)]
    pub thread_per_op: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// The caller's iterator fails when item `at` is pulled.
    Item { list: u8, at: u32 },
    /// Conversion of item `at` to text fails.
    Text { list: u8, at: u32 },
    /// The `at`-th allocation fails.
    Alloc { at: u64 },
    /// The `at`-th allocation of parsing and code generation fails.
    GenAlloc { at: u64 },
    /// The `at`-th context callback fails.
    Callback { at: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(tag = "op")]
pub enum Op {
    DefVar { set: usize, name: String, body: Vec<String>, #[serde(default, skip_serializing_if = "Option::is_none")] fault: Option<Fault> },
    DefFn { set: usize, name: String, args: Vec<String>, body: Vec<String>, #[serde(default, skip_serializing_if = "Option::is_none")] fault: Option<Fault> },
    UndefVar { set: usize, name: String },
    UndefFn { set: usize, name: String },
    ExpandVar { set: usize, name: String, #[serde(default, skip_serializing_if = "Option::is_none")] gen: Option<usize>, #[serde(default, skip_serializing_if = "Option::is_none")] fault: Option<Fault> },
    ExpandFn { set: usize, name: String, #[serde(default, skip_serializing_if = "Option::is_none")] gen: Option<usize>, #[serde(default, skip_serializing_if = "Option::is_none")] fault: Option<Fault> },
    Expand { set: usize, toks: Vec<String>, #[serde(default, skip_serializing_if = "Option::is_none")] fault: Option<Fault> },
    /// Into an empty slot, or over the set which is there.
    Clone { set: usize, to: usize, #[serde(default, skip_serializing_if = "Option::is_none")] fault: Option<Fault> },
    Drop { set: usize },
    /// Damage (or repair) marker and probe of everything, for the containment scenario.
    Check { set: usize },
}

impl Op {
    pub fn set(&self) -> usize {
        match self {
            Op::DefVar { set, .. } | Op::DefFn { set, .. } | Op::UndefVar { set, .. } | Op::UndefFn { set, .. } | Op::ExpandVar { set, .. }
            | Op::ExpandFn { set, .. } | Op::Expand { set, .. } | Op::Clone { set, .. } | Op::Drop { set } | Op::Check { set } => *set,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Op::DefVar { .. } => "define_var", Op::DefFn { .. } => "define_fn", Op::UndefVar { .. } => "undefine_var", Op::UndefFn { .. } => "undefine_fn",
            Op::ExpandVar { .. } => "expand_var", Op::ExpandFn { .. } => "expand_fn", Op::Expand { .. } => "expand", Op::Clone { .. } => "clone",
            Op::Drop { .. } => "drop", Op::Check { .. } => "check",
        }
    }
    pub fn slots(&self) -> usize { match self { Op::Clone { set, to, .. } => *set.max(to) + 1, o => o.set() + 1 } }
    pub fn fault(&self) -> Option<&Fault> {
        match self {
            Op::DefVar { fault, .. } | Op::DefFn { fault, .. } | Op::ExpandVar { fault, .. } | Op::ExpandFn { fault, .. } | Op::Expand { fault, .. } | Op::Clone { fault, .. } => fault.as_ref(),
            _ => None,
        }
    }
}

/// A macro given directly as tokens (as if it came out of an expansion).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Src {
    pub name: String,
    /// Parameter tokens for a function-like macro.
    pub args: Option<Vec<String>>,
    /// Body tokens; `$N` is the parameter with index N.
    pub body: Vec<String>,
    /// Damage that the stream met on its way, for the record.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub damage: Vec<String>,
}

/// One attempt to generate code for macro object `m` under context `cx`.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Attempt {
    pub m: usize,
    pub cx: usize,
    /// 0: on the object itself, context by reference; 1: on a clone of the object; 2: context by value; 3: by double reference.
    #[serde(default)]
    pub how: u8,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fault: Option<Fault>,
}

/// What one run found and did.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    /// First violation: (class, message).
    pub violation: Option<(String, String)>,
    /// Hash of the complete recorded history, for repeatability checks.
    pub trace: u64,
    pub ticks: u64,
    #[serde(default)]
    pub steps: u64,
    pub ops: u64,
    pub switches: u64,
    /// Interleaving hashes.
    pub inter: Vec<u64>,
    /// Hashes of distinct states / situations reached.
    pub states: Vec<u64>,
    /// Faults that actually fired, by kind.
    pub faults: std::collections::BTreeMap<String, u64>,
    /// Interesting situations reached.
    pub probes: std::collections::BTreeMap<String, u64>,
    /// Number of oracle evaluations (and of those skipped as outside of the model).
    pub checks: u64,
    pub skipped: u64,
    /// Explicit schedules, for the replay file.
    pub scheds: Vec<Schedule>,
    /// Known finding met: (id, what).
    #[serde(default)]
    pub known: Vec<(String, String)>,
}

impl Outcome {
    pub fn fault(&mut self, k: &str) { *self.faults.entry(k.into()).or_default() += 1 }
    pub fn probe(&mut self, k: &str) { *self.probes.entry(k.into()).or_default() += 1 }
    pub fn violate(&mut self, class: &str, msg: impl Into<String>) {
        if self.violation.is_none() { self.violation = Some((class.into(), msg.into())) }
    }
}

pub fn hash_str(h: u64, s: &str) -> u64 {
    let mut x = h ^ 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() { x = (x ^ b as u64).wrapping_mul(0x1_0000_01b3) }
    crate::prng::mix(x, s.len() as u64)
}
