//! Which scenario decides which property, and how a run of it is described in the evidence.
use crate::plan::{Outcome, Plan};
use crate::{codegen, gen_code, gen_store, leak, store};

pub fn is_code(prop: &str) -> bool { matches!(prop, "P07" | "P11" | "P13" | "P14" | "P15" | "P16") }

pub fn plan(prop: &str, seed: u64) -> (Plan, Vec<&'static str>) {
    if prop == "P22" { leak::plan(seed) } else if is_code(prop) { gen_code::plan(prop, seed) } else { gen_store::plan(prop, seed) }
}

pub fn run(plan: &Plan) -> Outcome {
    if plan.prop == "P22" { leak::run(plan) } else if is_code(&plan.prop) { codegen::run(plan) } else { store::run(plan) }
}

pub fn quick_runs(prop: &str) -> u64 {
    match prop {
        "P02" | "P08" | "P09" | "P10" => 60_000,
        "P05" => 50_000,
        "P07" | "P11" | "P13" => 100_000,
        "P14" => 90_000,
        "P15" => 150_000,
        "P16" => 70_000,
        _ => 30_000,
    }
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "P07" | "P11" | "P13" | "P14" | "P15" | "P16" => "One run: one seed generates macros as token lists, code generation contexts as answer tables, a fault trace and an order of attempts. An evaluation is one oracle verdict over one attempt; counted as distinct and non-trivial are distinct (macro, context, fault) combinations for which the oracle gave a verdict.",
        "P22" => "One run: one seed generates a history of another scenario (P01, P03, P05, P07, P09, P10, P11, P12 or P16), with its environment and faults, which is executed at least five times in one process, dropping everything in between. An evaluation is one comparison of the weight of the heap after one repetition with that after the one before; counted as distinct and non-trivial are distinct histories.",
        _ => "One run: one seed generates a workload (definitions, lookups and expansions by one or more clients), an environment (schedule, hash keys, clock, memory layout) and a fault trace. An evaluation is one oracle verdict over one operation of the recorded history; counted as distinct and non-trivial are distinct (live definitions, read operation) pairs whose result the oracle examined.",
    }
}

pub fn situation(prop: &str) -> &'static str {
    match prop {
        "P07" | "P11" | "P13" | "P14" | "P15" | "P16" => "hash of (macro tokens, answers of the context, injected fault)",
        "P22" => "hash of the repeated history",
        _ => "hash of (set of live definitions, read operation with its operands)",
    }
}

pub fn real(prop: &str) -> Vec<&'static str> {
    let mut v = vec!["cmacro from /repo's working tree, unmodified and without hooks (release, overflow checks and debug assertions on)",
        "std HashMap, String, Vec and std locks", "OS threads, of which exactly one runs at a time"];
    if !matches!(prop, "P01" | "P02" | "P03" | "P05" | "P08" | "P09" | "P10") { v.push("syn, quote, proc-macro2, semver and nom as used by cmacro") }
    v
}

pub fn stub(prop: &str) -> Vec<&'static str> {
    let mut v = vec!["thread scheduling (seeded baton scheduler)", "global allocator (logical clock, failure injection, budgets)",
        "getrandom: hash keys from the seed", "clock_gettime: simulated clock", "getenv, getpid, getcwd, sched_getaffinity: answers from the seed", "futex: blocking hands the baton on", "caller's reader-writer lock around a shared set"];
    match prop {
        "P03" | "P05" => v.push("the caller's token source and text conversion (fault injecting iterator and AsRef<str>)"),
        "P04" | "P06" | "P12" | "P07" | "P11" | "P13" | "P14" | "P15" | "P16" => v.push("the caller's CodegenContext (answer table with fault injection)"),
        _ => (),
    }
    v
}
