//! Does anything accumulate? A whole history is executed again and again in one process, everything it made is
//! dropped each time, and the heap of the process is weighed in between.
use std::collections::BTreeSet;

use serde::{Deserialize, Serialize};

use crate::plan::{hash_str, Fault, Op, Outcome, Plan};
use crate::prng::{mix, Rng};
use crate::rt::{self, ThreadSetup};
use crate::{codegen, gen_code, gen_store, store};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    pub reps: u32,
    /// Other names, of the same lengths, each time.
    pub fresh: bool,
    /// All repetitions on one thread, with clients taking turns.
    pub one_thread: bool,
}

const CODE: [&str; 3] = ["P07", "P11", "P16"];
const STORE: [&str; 7] = ["P01", "P03", "P05", "P09", "P09", "P10", "P12"];

pub fn plan(seed: u64) -> (Plan, Vec<&'static str>) {
    let mut r = Rng::new(mix(seed, 0x1EAC));
    let (inner, code) = if r.pct(45) { (*r.pick(&CODE), true) } else { (*r.pick(&STORE), false) };
    let s = mix(seed, 7);
    let (mut p, faults) = if code { gen_code::plan(inner, s) } else { gen_store::plan(inner, s) };
    p.prop = "P22".into();
    p.seed = seed;
    p.envs.truncate(1);
    // Unwinding through the crates which build the generated code leaves memory of theirs behind.
    for a in &mut p.attempts { if matches!(a.fault, Some(Fault::GenAlloc { .. })) { a.fault = None } }
    let one_thread = code || r.pct(60);
    let fresh = r.pct(60);
    p.flavour = format!("{} {}{}", if code { "code" } else { "store" }, if one_thread { "on one thread" } else { "on new threads" }, if fresh { ", new names" } else { "" });
    p.leak = Some(Spec { reps: 5, fresh, one_thread });
    (p, faults)
}

/// The same plan with the names and strings of repetition `n`; all repetitions are of the same size.
fn renamed(p: &Plan, names: &BTreeSet<String>, n: u32) -> Plan {
    let id = |s: &mut String| s.push_str(&format!("_{n:05}"));
    let tok = |s: &mut String| {
        if names.contains(s.as_str()) { s.push_str(&format!("_{n:05}")) }
        else if s.len() > 1 && s.starts_with('"') && s.ends_with('"') { s.truncate(s.len() - 1); s.push_str(&format!("{n:05}\"")) }
    };
    let mut p = p.clone();
    for op in p.setup.iter_mut().chain(p.clients.iter_mut().flatten()) {
        match op {
            Op::DefVar { name, body, .. } => { id(name); body.iter_mut().for_each(tok) },
            Op::DefFn { name, args, body, .. } => { id(name); args.iter_mut().for_each(tok); body.iter_mut().for_each(tok) },
            Op::UndefVar { name, .. } | Op::UndefFn { name, .. } | Op::ExpandVar { name, .. } | Op::ExpandFn { name, .. } => id(name),
            Op::Expand { toks, .. } => toks.iter_mut().for_each(tok),
            _ => (),
        }
    }
    for m in &mut p.macros {
        id(&mut m.name);
        if let Some(a) = &mut m.args { a.iter_mut().for_each(tok) }
        m.body.iter_mut().for_each(tok);
    }
    for c in &mut p.ctxs {
        for (m, a, _) in &mut c.args { tok(m); tok(a) }
        for (v, ..) in &mut c.enums { tok(v) }
        for (t, _) in &mut c.tys { tok(t) }
        for (t, f, _) in &mut c.fields { tok(t); tok(f) }
        for (f, ..) in &mut c.fns { tok(f) }
    }
    p
}

/// Names that may differ between repetitions.
fn names(p: &Plan) -> BTreeSet<String> {
    let mut s = store::universe(p);
    for op in p.setup.iter().chain(p.clients.iter().flatten()) { if let Op::DefFn { args, .. } = op { s.extend(args.iter().cloned()) } }
    for m in &p.macros {
        s.insert(m.name.clone());
        s.extend(m.args.iter().flatten().cloned());
        s.extend(m.body.iter().filter(|t| t.len() > 1 && t.chars().all(|c| c.is_ascii_lowercase() || c == '_') && !crate::check_rust::c_word(t)).cloned());
    }
    s.retain(|n| n.starts_with(|c: char| c.is_alphabetic() || c == '_') && n != "__VA_ARGS__");
    s
}

struct Ptr(*mut Outcome);
unsafe impl Send for Ptr {}

fn note(out: &mut Outcome, what: &str) { out.trace = hash_str(out.trace, what) }

fn once_store(p: &Plan, spec: &Spec, out: &mut Outcome, first: bool) {
    let mode = store::Mode { model_check: false, kind_probe: false, observe: false, cost_guard: true, budget: false };
    let h = if spec.one_thread { store::in_turns(p, mode) } else { store::execute(p, &p.envs[0], mode) };
    if !first { return }
    out.switches += h.switches;
    out.inter.push(h.inter);
    out.scheds.push(h.sched.clone());
    out.ticks += h.ticks;
    out.steps += h.steps;
    for e in &h.events {
        out.ops += 1;
        note(out, &format!("{} {} {} {:?} {}", e.client, e.opi, e.value, e.ret, e.ticks));
        for f in &e.fired { out.fault(f) }
    }
    out.states.push(hash_str(11, &format!("{:?}", p.clients)));
}

fn once_code(p: &Plan, out: &mut Outcome, first: bool) {
    let shown = codegen::plain_attempts(p);
    if !first { return }
    for (s, fault) in shown {
        out.ops += 1;
        note(out, &s);
        if let Some(f) = fault { out.fault(f) }
    }
    out.states.push(hash_str(12, &format!("{:?} {:?}", p.macros, p.attempts)));
}

fn repeat(p: &Plan, spec: &Spec, out: &mut Outcome) {
    let names = names(p);
    let mut once = |n: u32| -> i64 {
        {
            let q;
            let p = if spec.fresh { q = renamed(p, &names, n); &q } else { p };
            if p.macros.is_empty() { once_store(p, spec, out, n == 0) } else { once_code(p, out, n == 0) }
        }
        rt::heap()
    };
    let mut w: Vec<i64> = Vec::with_capacity(4096);
    for n in 0..spec.reps { w.push(once(n)) }
    // The first repetition may set things up that stay.
    let grows = |w: &[i64], a: usize, b: usize| w[b - 1] > w[a];
    let n = w.len();
    let mut bad = n >= 3 && grows(&w, 1, n);
    if bad {
        // Something that fills up and then stays as it is is not a leak.
        for n in spec.reps..300 { w.push(once(n)) }
        bad = grows(&w, 100, 200) && grows(&w, 200, 300);
        if !bad { out.probe("grew at first") }
    }
    out.checks += n.saturating_sub(2) as u64;
    note(out, &format!("{:?}", w.windows(2).skip(1).map(|w| w[1] - w[0]).collect::<Vec<_>>()));
    if bad {
        let per = (w[299] - w[199]) / 100;
        out.violate("leak", format!("each repetition of the same history{} leaves about {per} more bytes behind, after everything was dropped", if spec.fresh { " with other names" } else { "" }));
    }
}

pub fn run(plan: &Plan) -> Outcome {
    let mut out = Outcome::default();
    let Some(spec) = plan.leak.clone() else { out.violate("plan", "no repetitions given"); return out };
    rt::weigh();
    if plan.macros.is_empty() && !spec.one_thread { repeat(plan, &spec, &mut out); return out }
    let o = Ptr(&mut out);
    let env = &plan.envs[0];
    store::on_thread("client0", move || {
        let o = o;
        let out = unsafe { &mut *{ o }.0 };
        rt::enter(ThreadSetup { sched: None, me: 0, hash_key: env.hash_key, clock: env.clock }, || {
            repeat(plan, &spec, out);
            let t = rt::thread_total();
            out.ticks += t.0;
            out.steps += t.1;
        })
    });
    if out.scheds.is_empty() { out.scheds = plan.envs.iter().map(|e| e.sched.clone()).collect() }
    out
}
