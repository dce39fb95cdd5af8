//! Execution of definition histories by simulated clients on shared macro sets, and the oracles over them.
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use cmacro::{ExpansionError, MacroSet, MacroToken};

use crate::ctx::{CtxSpec, SimCtx};
use crate::model::{self, Def, Stop, Store};
use crate::plan::{hash_str, Env, Fault, Op, Outcome, Plan};
use crate::rt::{self, Abort, Limits, ThreadSetup, Used};
use crate::sched::{Sched, Schedule};

// ---------------------------------------------------------------- feeding definitions

use subject::{Feed, Text};

fn hook(fail: Option<u32>) {
    match fail { Some(n) => rt::callback(|| { rt::in_callback_yield(); rt::inject(n) }), None => rt::callback(rt::in_callback_yield) }
}
fn feed<'a>(items: &'a [String], list: u8, f: Option<&Fault>) -> Feed<'a> {
    Feed {
        items, pos: 0, hook,
        fail_item: match f { Some(Fault::Item { list: l, at }) if *l == list => Some(*at), _ => None },
        fail_text: match f { Some(Fault::Text { list: l, at }) if *l == list => Some(*at), _ => None },
    }
}
fn name_text<'a>(n: &'a str, f: Option<&Fault>) -> Text<'a> {
    Text { s: n, hook, fail: match f { Some(Fault::Text { list: 2, .. }) => Some(3000), _ => None } }
}

pub fn apply_write(set: &mut MacroSet, op: &Op, faulty: bool) -> Option<bool> {
    match op {
        Op::DefVar { name, body, fault, .. } => {
            let f = if faulty { fault.as_ref() } else { None };
            Some(subject::define_var(set, name_text(name, f), feed(body, 1, f)))
        },
        Op::DefFn { name, args, body, fault, .. } => {
            let f = if faulty { fault.as_ref() } else { None };
            Some(subject::define_fn(set, name_text(name, f), feed(args, 0, f), feed(body, 1, f)))
        },
        Op::UndefVar { name, .. } => Some(subject::undefine_var(set, name)),
        Op::UndefFn { name, .. } => Some(subject::undefine_fn(set, name)),
        _ => None,
    }
}

pub fn model_write(m: &mut Store, op: &Op) -> Option<bool> {
    match op {
        Op::DefVar { name, body, .. } => Some(m.define(name, Def::Var(body.clone()))),
        Op::DefFn { name, args, body, .. } => Some(m.define(name, Def::Fn(args.clone(), body.clone()))),
        Op::UndefVar { name, .. } => Some(m.undef_var(name)),
        Op::UndefFn { name, .. } => Some(m.undef_fn(name)),
        _ => None,
    }
}

pub fn fresh(m: &Store) -> MacroSet {
    let mut s = subject::new();
    for (n, d) in &m.0 { put(&mut s, n, d); }
    s
}

fn put(s: &mut MacroSet, n: &str, d: &Def) -> bool {
    match d {
        Def::Var(b) => subject::define_var(s, name_text(n, None), feed(b, 1, None)),
        Def::Fn(a, b) => subject::define_fn(s, name_text(n, None), feed(a, 0, None), feed(b, 1, None)),
    }
}

pub fn replica(log: &[Op]) -> MacroSet {
    let mut s = subject::new();
    for op in log { apply_write(&mut s, op, false); }
    s
}

// ---------------------------------------------------------------- reading

type Toks<'t> = Vec<MacroToken<'t>>;
pub enum Got<'t> { Var(Result<Toks<'t>, ExpansionError>), Fn(Result<(Toks<'t>, Toks<'t>), ExpansionError>) }

impl<'t> Got<'t> {
    pub fn show(&self) -> String {
        match self {
            Got::Var(Ok(t)) => format!("{t:?}"),
            Got::Fn(Ok((a, t))) => format!("{a:?} => {t:?}"),
            Got::Var(Err(e)) | Got::Fn(Err(e)) => format!("Err({e:?}: {e})"),
        }
    }
    pub fn not_found(&self) -> bool { matches!(self, Got::Var(Err(ExpansionError::MacroNotFound)) | Got::Fn(Err(ExpansionError::MacroNotFound))) }
}

pub fn expand<'s>(set: &'s MacroSet, op: &'s Op) -> Option<Got<'s>> {
    match op {
        Op::ExpandVar { name, .. } => Some(Got::Var(subject::expand_var(set, name))),
        Op::ExpandFn { name, .. } => Some(Got::Fn(subject::expand_fn(set, name))),
        Op::Expand { toks, .. } => Some(Got::Var(subject::expand(set, toks))),
        _ => None,
    }
}

/// Nesting beyond what C guarantees is not what the store scenarios look at.
fn deep(toks: &[MacroToken<'_>]) -> bool {
    let p = |s| cmacro::Punctuation::try_from(s).ok().map(MacroToken::Punctuation);
    let (open, close) = (p("("), p(")"));
    let (mut d, mut max) = (0, 0);
    for t in toks {
        if Some(t) == open.as_ref() { d += 1 }
        if Some(t) == close.as_ref() && d > 0 { d -= 1 }
        max = max.max(d);
    }
    max > 63
}

fn generate(name: &str, got: &Got<'_>, cx: &SimCtx<'_>) -> String {
    if let Got::Var(Ok(t)) | Got::Fn(Ok((_, t))) = got { if deep(t) { return "too deep".into() } }
    let obj = match got {
        Got::Var(Ok(t)) => subject::Obj::parse(name, None, t),
        Got::Fn(Ok((a, t))) => subject::Obj::parse(name, Some(a), t),
        _ => return String::new(),
    };
    match obj {
        Ok(mut m) => match m.generate(cx, 0) {
            Ok(subject::Code::Var(v, t)) => format!("{v} : {t:?}"),
            Ok(subject::Code::Fn(t)) => t,
            Err(e) => format!("generate: {e:?}"),
        },
        Err(e) => format!("parse: {e:?}"),
    }
}

fn abort_text(a: &Abort) -> String {
    match a {
        Abort::Panic { .. } => "PANIC".into(),
        Abort::Injected(n) => format!("INJECTED {n}"),
        a => format!("{a:?}").to_uppercase(),
    }
}

/// A read by a lone reader, with nothing else going on: the reference for comparisons.
pub fn plain_read(set: &MacroSet, op: &Op, ctxs: &[CtxSpec], fault: bool) -> String {
    read(set, op, ctxs, 0, if fault { op.fault() } else { None }, &mut vec![]).0
}

pub struct ReadInfo { pub aborts: Vec<Abort>, pub used: Vec<Used> }

fn read(set: &MacroSet, op: &Op, ctxs: &[CtxSpec], opid: u32, fault: Option<&Fault>, extra: &mut Vec<Abort>) -> (String, u64) {
    let mut lim = Limits::default();
    if let Some(Fault::Alloc { at }) = fault { lim.fail_at = *at }
    let (r, used) = rt::sut(opid, lim, || expand(set, op));
    let mut ticks = used.ticks;
    let got = match r {
        Ok(Some(g)) => g,
        Ok(None) => return (String::new(), ticks),
        Err(a) => { let t = abort_text(&a); extra.push(a); return (t, ticks) },
    };
    let mut out = got.show();
    let (name, gen) = match op { Op::ExpandVar { name, gen, .. } | Op::ExpandFn { name, gen, .. } => (name, *gen), _ => return (out, ticks) };
    if let Some(spec) = gen.and_then(|g| ctxs.get(g)) {
        let ok = matches!(got, Got::Var(Ok(_)) | Got::Fn(Ok(_)));
        if ok {
            let cx = SimCtx::new(spec, fault);
            let mut lim = Limits::default();
            if let Some(Fault::GenAlloc { at }) = fault { lim.fail_at = *at }
            let (r, used) = rt::sut(opid + 1, lim, || generate(name, &got, &cx));
            ticks += used.ticks;
            match r {
                Ok(s) => { out.push_str(" ; "); out.push_str(&s) },
                Err(a) => { out.push_str(" ; "); out.push_str(&abort_text(&a)); extra.push(a) },
            }
        }
    }
    (out, ticks)
}

// ---------------------------------------------------------------- the world

#[derive(Clone)]
pub struct Shot { pub model: Arc<Store>, pub log: Arc<Vec<Op>> }

struct Slot { set: Option<MacroSet>, shot: Shot, lost: bool }

pub struct World { slots: Vec<UnsafeCell<Slot>> }
// Access is serialised by the baton and the simulated reader-writer locks.
unsafe impl Sync for World {}
/// `MacroSet` itself is shared and sent through this, so that losing `Send` or `Sync` is a finding and not a build error.
unsafe impl Send for World {}

pub struct Event {
    pub client: usize,
    pub opi: usize,
    pub op: Op,
    pub value: String,
    pub ret: Option<bool>,
    pub want_ret: Option<bool>,
    pub shot: Shot,
    pub verdict: Option<(String, String)>,
    pub fired: Vec<&'static str>,
    pub aborts: Vec<Abort>,
    pub ticks: u64,
    pub probes: Vec<&'static str>,
    pub skipped: bool,
    pub unknown: bool,
}

#[derive(Clone, Copy, PartialEq)]
pub struct Mode { pub model_check: bool, pub kind_probe: bool, pub observe: bool, pub cost_guard: bool, pub budget: bool }

fn empty_shot() -> Shot { Shot { model: Arc::new(Store::default()), log: Arc::new(vec![]) } }

/// Everything that can be observed about a set.
fn observe(set: &MacroSet, names: &BTreeSet<String>) -> Vec<String> {
    let mut v = vec![];
    for n in names {
        for op in [Op::ExpandVar { set: 0, name: n.clone(), gen: None, fault: None }, Op::ExpandFn { set: 0, name: n.clone(), gen: None, fault: None }] {
            v.push(format!("{} {n}: {}", op.kind(), read(set, &op, &[], 0, None, &mut vec![]).0));
        }
    }
    v
}

pub fn question(op: &Op) -> Option<model::Q<'_>> {
    Some(match op {
        Op::ExpandVar { name, .. } => model::Q::Var(name),
        Op::ExpandFn { name, .. } => model::Q::Fn(name),
        Op::Expand { toks, .. } => model::Q::Toks(toks),
        _ => return None,
    })
}

fn too_large(m: &Store, op: &Op) -> bool { question(op).map_or(false, |q| model::answer(m, q).too_large) }

/// Compare a result with the reference preprocessor.
fn judge(m: &Store, op: &Op, got: &Got<'_>, ev: &mut Event) {
    let Some(q) = question(op) else { return };
    let a = model::answer(m, q);
    let want = a.result;
    ev.probes.extend(a.probes.iter().copied());
    let text = |t: &[MacroToken<'_>]| format!("{t:?}");
    match want {
        Err(Stop::Unknown(why)) => { ev.unknown = true; ev.probes.push(why) },
        Err(Stop::Err(e)) => {
            ev.probes.push("error-expected");
            let gote = match got { Got::Var(Err(e)) | Got::Fn(Err(e)) => Some(format!("{e:?}")), _ => None };
            match gote {
                Some(g) if g == e => (),
                // Which of several errors is reported first is not prescribed.
                Some(_) => ev.probes.push("other-error"),
                None => ev.verdict = Some(("expansion".into(), format!("expected error {e}, got {}", got.show()))),
            }
        },
        Ok((_, want)) => {
            let toks = match got { Got::Var(Ok(t)) => t, Got::Fn(Ok((_, t))) => t, Got::Var(Err(e)) | Got::Fn(Err(e)) => {
                ev.verdict = Some(("expansion".into(), format!("expected {:?}, got error {e:?}", model::show(&want))));
                return
            } };
            let w: Vec<_> = want.iter().filter(|t| t.k != model::K::Comment).collect();
            let g: Vec<_> = toks.iter().filter(|t| !matches!(t, MacroToken::Comment(_))).collect();
            if w.len() != g.len() || !w.iter().zip(&g).all(|(w, g)| model::matches_token(w, g)) {
                ev.verdict = Some(("expansion".into(), format!("expected {:?}, got {}", model::show(&want), text(toks))));
            }
        },
    }
}

struct Client<'w> {
    w: &'w World,
    sched: Option<Arc<Sched>>,
    me: usize,
    ctxs: &'w [CtxSpec],
    mode: Mode,
    names: &'w BTreeSet<String>,
    events: Vec<Event>,
}

impl<'w> Client<'w> {
    fn lock(&self, op: u32, nth: u64, l: usize, write: bool) { if let Some(s) = &self.sched { s.lock(self.me, op, nth, l, write) } }
    fn unlock(&self, l: usize, write: bool) { if let Some(s) = &self.sched { s.unlock(l, write) } }
    #[allow(clippy::mut_from_ref)]
    unsafe fn slot(&self, i: usize) -> &'w mut Slot { &mut *self.w.slots[i].get() }

    fn step(&mut self, client: usize, opi: usize, op: &Op) {
        let opid = (opi as u32) * 8;
        if let Some(s) = &self.sched { s.op_boundary(self.me, opid) }
        let si = op.set();
        if si >= self.w.slots.len() { return }
        let mut ev = Event { client, opi, op: op.clone(), value: String::new(), ret: None, want_ret: None, shot: empty_shot(), verdict: None,
            fired: vec![], aborts: vec![], ticks: 0, probes: vec![], skipped: false, unknown: false };
        match op {
            Op::DefVar { .. } | Op::DefFn { .. } | Op::UndefVar { .. } | Op::UndefFn { .. } => {
                self.lock(opid, 1, si, true);
                let slot = unsafe { self.slot(si) };
                if slot.set.is_some() && !slot.lost { self.write(slot, op, opid, &mut ev) } else { ev.skipped = true }
                self.unlock(si, true);
            },
            Op::ExpandVar { .. } | Op::ExpandFn { .. } | Op::Expand { .. } => {
                self.lock(opid, 1, si, false);
                let slot: &Slot = unsafe { self.slot(si) };
                if let (Some(set), false) = (&slot.set, slot.lost) {
                    ev.shot = slot.shot.clone();
                    if self.mode.cost_guard && too_large(&slot.shot.model, op) { ev.skipped = true; ev.probes.push("too-large") }
                    else { self.read(set, op, opid, &mut ev) }
                } else { ev.skipped = true }
                self.unlock(si, false);
            },
            Op::Clone { to, .. } => {
                if *to <= si || *to >= self.w.slots.len() { return }
                self.lock(opid, 1, si, false);
                self.lock(opid, 2, *to, true);
                let src: &Slot = unsafe { self.slot(si) };
                let dst = unsafe { self.slot(*to) };
                match (&src.set, src.lost) {
                    (Some(s), false) => {
                        let mut lim = Limits::default();
                        if let Some(Fault::Alloc { at }) = op.fault() { lim.fail_at = *at }
                        let over = dst.set.is_some() && !dst.lost;
                        let (r, used) = if over { let d = dst.set.as_mut().unwrap(); rt::sut(opid, lim, || { subject::clone_into(s, d); None }) }
                            else { rt::sut(opid, lim, || Some(subject::clone(s))) };
                        ev.ticks = used.ticks;
                        ev.shot = src.shot.clone();
                        match r {
                            Ok(c) => { if c.is_some() { dst.set = c } dst.shot = src.shot.clone(); dst.lost = false; ev.value = "cloned".into(); ev.probes.push(if over { "cloned over another set" } else { "cloned" }) },
                            Err(a) => {
                                if matches!(a, Abort::AllocFail) { ev.fired.push("allocation failure in clone") }
                                // Nothing is promised about a set which was half overwritten.
                                if over { dst.lost = true }
                                ev.value = abort_text(&a); ev.aborts.push(a)
                            },
                        }
                    },
                    _ => ev.skipped = true,
                }
                self.unlock(*to, true);
                self.unlock(si, false);
            },
            Op::Drop { .. } => {
                self.lock(opid, 1, si, true);
                let slot = unsafe { self.slot(si) };
                if let Some(s) = slot.set.take() {
                    let (r, used) = rt::sut(opid, Limits::default(), || subject::free(s));
                    ev.ticks = used.ticks;
                    if let Err(a) = r { ev.aborts.push(a) }
                } else { ev.skipped = true }
                self.unlock(si, true);
            },
            Op::Check { .. } => {
                self.lock(opid, 1, si, false);
                let slot: &Slot = unsafe { self.slot(si) };
                if let (Some(set), false) = (&slot.set, slot.lost) {
                    let names = self.names;
                    for n in names {
                        for o in [Op::ExpandVar { set: si, name: n.clone(), gen: Some(0), fault: None }, Op::ExpandFn { set: si, name: n.clone(), gen: Some(0), fault: None }] {
                            let mut e = Event { client, opi, op: o.clone(), value: String::new(), ret: None, want_ret: None, shot: slot.shot.clone(), verdict: None,
                                fired: vec![], aborts: vec![], ticks: 0, probes: vec![], skipped: false, unknown: false };
                            if self.mode.cost_guard && too_large(&slot.shot.model, &o) { continue }
                            self.read(set, &o, opid, &mut e);
                            self.events.push(e);
                        }
                    }
                }
                self.unlock(si, false);
                ev.skipped = true;
            },
        }
        self.events.push(ev);
    }

    fn read(&self, set: &MacroSet, op: &Op, opid: u32, ev: &mut Event) {
        ev.shot = ev.shot.clone();
        if self.mode.model_check {
            let mut lim = Limits::default();
            if let Some(Fault::Alloc { at }) = op.fault() { lim.fail_at = *at }
            if self.mode.budget { if let Some(l) = budget_of(&ev.shot.model, op) { lim = l; ev.probes.push("tight-budget") } }
            let (r, used) = rt::sut(opid, lim, || expand(set, op));
            ev.ticks = used.ticks;
            match r {
                Ok(Some(g)) => { ev.value = g.show(); let m = ev.shot.model.clone(); judge(&m, op, &g, ev) },
                Ok(None) => (),
                Err(a) => { ev.value = abort_text(&a); ev.aborts.push(a) },
            }
        } else {
            let (v, t) = read(set, op, self.ctxs, opid, op.fault(), &mut ev.aborts);
            ev.value = v;
            ev.ticks = t;
        }
        for a in &ev.aborts {
            match a { Abort::AllocFail => ev.fired.push("allocation failure in read"), Abort::Injected(_) => ev.fired.push("context abort in read"), _ => () }
        }
    }

    fn write(&mut self, slot: &mut Slot, op: &Op, opid: u32, ev: &mut Event) {
        let mut next = (*slot.shot.model).clone();
        ev.want_ret = model_write(&mut next, op);
        let mut lim = Limits::default();
        if let Some(Fault::Alloc { at }) = op.fault() { lim.fail_at = *at }
        if self.mode.budget { lim = write_budget(&slot.shot.model, op) }
        let set = slot.set.as_mut().unwrap();
        let (r, used) = rt::sut(opid, lim, || apply_write(set, op, true));
        ev.ticks = used.ticks;
        let mut log = (*slot.shot.log).clone();
        match r {
            Ok(v) => {
                ev.ret = v;
                log.push(op.clone());
                slot.shot = Shot { model: Arc::new(next), log: Arc::new(log) };
            },
            Err(a) => {
                match &a {
                    Abort::AllocFail => ev.fired.push("allocation failure in define"),
                    Abort::Injected(1000..=1999) => ev.fired.push("token source failure in define"),
                    Abort::Injected(_) => ev.fired.push("text conversion failure in define"),
                    _ => (),
                }
                ev.value = abort_text(&a);
                let own = !matches!(a, Abort::AllocFail | Abort::Injected(_));
                if own { ev.verdict = Some(("abort".into(), format!("{op:?} did not end properly: {a:?}"))) }
                ev.aborts.push(a);
                // Old or new? Decided by what can be observed.
                if own || rt::quietly(|| { let mut l = log.clone(); l.push(op.clone()); drop(replica(&l)) }).is_none() { slot.lost = true; return }
                let mut names = self.names.clone();
                names.extend(slot.shot.model.0.keys().cloned());
                let old = replica(&log);
                let before = observe(&old, &names);
                log.push(op.clone());
                let after = observe(&replica(&log), &names);
                let got = observe(slot.set.as_ref().unwrap(), &names);
                let (mut is_old, mut is_new) = (got == before, got == after);
                if is_old && is_new {
                    // Same from the outside, for now; the report of a redefinition tells them apart.
                    let name = match op { Op::DefVar { name, .. } | Op::DefFn { name, .. } => name, _ => "" };
                    let redefine = |d: Option<&Def>| -> bool {
                        let Some(d) = d else { return false };
                        let mut s = slot.set.as_ref().unwrap().clone();
                        !put(&mut s, name, d)
                    };
                    let (o, n) = (redefine(slot.shot.model.0.get(name)), redefine(next.0.get(name)));
                    if o != n { is_old = o; is_new = n; }
                    ev.probes.push("told apart by report");
                }
                if is_old { ev.probes.push("kept old") }
                else if is_new { ev.probes.push("took new"); slot.shot = Shot { model: Arc::new(next), log: Arc::new(log) } }
                else {
                    let diff: Vec<_> = got.iter().zip(&before).zip(&after).filter(|((g, b), a)| g != b || g != a)
                        .map(|((g, b), a)| format!("now {g} | before {b} | complete {a}")).take(3).collect();
                    ev.verdict = Some(("torn".into(), format!("after {op:?} was cut short ({}): {}", ev.value, diff.join("; "))));
                    slot.lost = true;
                }
            },
        }
        ev.shot = slot.shot.clone();
        if self.mode.kind_probe && !slot.lost {
            let (Op::DefVar { name, .. } | Op::DefFn { name, .. } | Op::UndefVar { name, .. } | Op::UndefFn { name, .. }) = op else { return };
            let set = slot.set.as_ref().unwrap();
            let live = slot.shot.model.0.get(name);
            let var = Op::ExpandVar { set: 0, name: name.clone(), gen: None, fault: None };
            let fun = Op::ExpandFn { set: 0, name: name.clone(), gen: None, fault: None };
            if self.mode.cost_guard && (too_large(&slot.shot.model, &var) || too_large(&slot.shot.model, &fun)) { return }
            for (o, want) in [(&var, matches!(live, Some(Def::Var(_)))), (&fun, matches!(live, Some(Def::Fn(..))))] {
                if let (Ok(Some(g)), _) = rt::sut(opid, Limits::default(), || expand(set, o)) {
                    if g.not_found() == want {
                        ev.verdict = Some(("liveness".into(), format!("after {op:?}: {} of {name} gives {}, but the live definition is {live:?}", o.kind(), g.show())));
                    }
                }
            }
        }
    }
}

pub struct History { pub events: Vec<Event>, pub sched: Schedule, pub inter: u64, pub switches: u64, pub ticks: u64, pub steps: u64 }

pub fn universe(plan: &Plan) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for op in plan.setup.iter().chain(plan.clients.iter().flatten()) {
        match op {
            Op::DefVar { name, .. } | Op::DefFn { name, .. } | Op::UndefVar { name, .. } | Op::UndefFn { name, .. } | Op::ExpandVar { name, .. } | Op::ExpandFn { name, .. } => { s.insert(name.clone()); },
            _ => (),
        }
    }
    s
}

pub fn on_thread<R: Send>(name: &str, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| std::thread::Builder::new().name(name.into()).stack_size(4 << 20).spawn_scoped(s, f).unwrap().join().unwrap())
}

/// A thread as programs have them: the first one of the process, one of a pool, one without a name.
fn builder(world: u64, k: usize) -> std::thread::Builder {
    let b = std::thread::Builder::new().stack_size(4 << 20);
    match crate::prng::mix(world, 0x7EAD + k as u64) % 6 { 0 => b.name("main".into()), 1 => b, 2 => b.name("tokio-runtime-worker".into()), _ => b.name(format!("client{k}")) }
}

/// Execute the workload once in one environment.
pub fn execute(plan: &Plan, env: &Env, mode: Mode) -> History {
    let nslots = plan.setup.iter().chain(plan.clients.iter().flatten()).map(|o| o.slots()).max().unwrap_or(1);
    let names = universe(plan);
    let ballast: Vec<Vec<u8>> = { let mut r = crate::prng::Rng::new(env.pad); (0..(env.pad % 7)).map(|_| Vec::with_capacity(1 + r.below(5000))).collect() };
    let world = World { slots: (0..nslots).map(|_| UnsafeCell::new(Slot { set: None, shot: empty_shot(), lost: false })).collect() };
    let mut setup: Vec<&Op> = plan.setup.iter().collect();
    if env.order != 0 { crate::prng::Rng::new(env.order).shuffle(&mut setup) }
    let mut events = vec![];
    let w = &world;
    let names_ref = &names;
    let (mut ticks, mut steps) = (0, 0);
    let (e, t) = on_thread("setup", || rt::enter(ThreadSetup { sched: None, me: 0, hash_key: crate::prng::mix(env.hash_key, 1), clock: env.clock }, || {
        unsafe { (*w.slots[0].get()).set = Some(rt::sut(0, Limits::default(), subject::new).0.unwrap()) };
        let mut c = Client { w, sched: None, me: 0, ctxs: &plan.ctxs, mode, names: names_ref, events: vec![] };
        for (i, op) in setup.iter().enumerate() { c.step(usize::MAX, i, op) }
        (c.events.into_iter().map(Pack).collect::<Vec<_>>(), rt::thread_total())
    }));
    events.extend(e.into_iter().map(|p| p.0));
    ticks += t.0;
    steps += t.1;
    let n = plan.clients.len();
    let (mut sched, mut inter, mut switches) = (Schedule::Explicit { first: 0, switches: vec![] }, 0, 0);
    if n > 0 {
        let s = Sched::new(n, nslots, &env.sched);
        let results: Vec<(Vec<Pack>, (u64, u64))> = std::thread::scope(|scope| {
            let hs: Vec<_> = (0..n).map(|k| {
                let s = s.clone();
                let ops = &plan.clients[k];
                let (hash_key, clock) = (crate::prng::mix(env.hash_key, 2 + k as u64), env.clock + k as i64);
                builder(env.hash_key, k).spawn_scoped(scope, move || {
                    s.start(k);
                    let r = rt::enter(ThreadSetup { sched: Some(s.clone()), me: k, hash_key, clock }, || {
                        let mut c = Client { w, sched: Some(s.clone()), me: k, ctxs: &plan.ctxs, mode, names: names_ref, events: vec![] };
                        for (i, op) in ops.iter().enumerate() { c.step(k, i, op) }
                        (c.events.into_iter().map(Pack).collect::<Vec<_>>(), rt::thread_total())
                    });
                    s.finish(k);
                    r
                }).unwrap()
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (e, t) in results { events.extend(e.into_iter().map(|p| p.0)); ticks += t.0; steps += t.1 }
        let r = s.report();
        sched = r.0;
        inter = r.1;
        switches = r.2;
    }
    // Sets are dropped inside the simulation as well.
    on_thread("teardown", || rt::enter(ThreadSetup { sched: None, me: 0, hash_key: 0, clock: 0 }, || {
        for s in &w.slots { let s = unsafe { &mut *s.get() }; if let Some(x) = s.set.take() { let _ = rt::sut(0, Limits::default(), || subject::free(x)); } }
    }));
    drop(ballast);
    History { events, sched, inter, switches, ticks, steps }
}

/// Execute the workload on this (simulated) thread, the clients taking turns.
pub fn in_turns(plan: &Plan, mode: Mode) -> History {
    let nslots = plan.setup.iter().chain(plan.clients.iter().flatten()).map(|o| o.slots()).max().unwrap_or(1);
    let names = universe(plan);
    let world = World { slots: (0..nslots).map(|_| UnsafeCell::new(Slot { set: None, shot: empty_shot(), lost: false })).collect() };
    unsafe { (*world.slots[0].get()).set = Some(rt::sut(0, Limits::default(), subject::new).0.unwrap()) };
    let mut c = Client { w: &world, sched: None, me: 0, ctxs: &plan.ctxs, mode, names: &names, events: vec![] };
    for (i, op) in plan.setup.iter().enumerate() { c.step(usize::MAX, i, op) }
    for i in 0..plan.clients.iter().map(|c| c.len()).max().unwrap_or(0) {
        for (k, ops) in plan.clients.iter().enumerate() { if let Some(op) = ops.get(i) { c.step(k, i, op) } }
    }
    let events = c.events;
    for s in &world.slots { let s = unsafe { &mut *s.get() }; if let Some(x) = s.set.take() { let _ = rt::sut(0, Limits::default(), || subject::free(x)); } }
    History { events, sched: Schedule::Explicit { first: 0, switches: vec![] }, inter: 0, switches: 0, ticks: 0, steps: 0 }
}

struct Pack(Event);
unsafe impl Send for Pack {}

/// The reference reads run on a simulated thread of their own.
pub fn reference<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    on_thread("reference", || rt::enter(ThreadSetup { sched: None, me: 0, hash_key: rt::REFERENCE, clock: 1 << 60 }, f))
}

fn op_key(op: &Op) -> String {
    match op {
        Op::ExpandVar { name, gen, .. } => format!("var {name} {gen:?}"),
        Op::ExpandFn { name, gen, .. } => format!("fn {name} {gen:?}"),
        Op::Expand { toks, .. } => format!("tokens {toks:?}"),
        o => format!("{o:?}"),
    }
}

fn op_start(m: &Store, op: &Op) -> Vec<String> {
    match op {
        Op::ExpandVar { name, .. } | Op::ExpandFn { name, .. } => vec![name.clone()],
        Op::Expand { toks, .. } => toks.clone(),
        _ => { let _ = m; vec![] },
    }
}

fn clean(e: &Event) -> bool { !e.skipped && e.aborts.iter().all(|a| !matches!(a, Abort::AllocFail | Abort::Injected(_) | Abort::Budget | Abort::Memory)) }
fn is_read(op: &Op) -> bool { matches!(op, Op::ExpandVar { .. } | Op::ExpandFn { .. } | Op::Expand { .. }) }

thread_local! { static SEEN: RefCell<()> = const { RefCell::new(()) }; static _C: Cell<u8> = const { Cell::new(0) }; }

pub fn run(plan: &Plan) -> Outcome {
    let p = plan.prop.as_str();
    let mode = Mode {
        model_check: matches!(p, "P08" | "P09" | "P10"),
        kind_probe: p == "P01",
        observe: p == "P03",
        cost_guard: true,
        budget: p == "P10",
    };
    let mut out = Outcome::default();
    if p == "P04" && !(sync_probe()) {
        out.violate("not-shareable", "MacroSet cannot be shared and sent between threads (no longer Send + Sync)");
        return out
    }
    let mut runs = vec![];
    for env in &plan.envs { runs.push(execute(plan, env, mode)) }
    for h in &runs {
        out.ticks += h.ticks;
        out.steps += h.steps;
        out.switches += h.switches;
        out.inter.push(h.inter);
        out.scheds.push(h.sched.clone());
        for e in &h.events {
            out.ops += 1;
            out.trace = hash_str(out.trace, &format!("{} {} {} {} {:?} {}", e.client, e.opi, op_key(&e.op), e.value, e.ret, e.ticks));
            for f in &e.fired { out.fault(f) }
            for p in &e.probes { out.probe(p) }
            if !e.skipped && is_read(&e.op) {
                out.states.push(hash_str(hash_str(3, &format!("{:?}", e.shot.model)), &op_key(&e.op)));
            }
        }
        for c in plan.clients.iter().flatten().chain(&plan.setup) {
            if let Some(f) = c.fault() { let _ = f; }
        }
    }
    reference_checks(plan, &runs, &mut out);
    out
}

fn where_(e: &Event) -> String {
    if e.client == usize::MAX { format!("setup operation {}", e.opi) } else { format!("client {} operation {}", e.client, e.opi) }
}

fn reference_checks(plan: &Plan, runs: &[History], out: &mut Outcome) {
    let ctxs = &plan.ctxs;
    let p = plan.prop.as_str();
    let o = RefPtr(out as *mut Outcome);
    let r = RefRuns(runs as *const [History]);
    reference(move || {
        let (o, r) = (o, r);
        let out: &mut Outcome = unsafe { &mut *o.0 };
        let runs: &[History] = unsafe { &*r.0 };
        match p {
            "P01" => for h in runs { for e in &h.events {
                if let Some((c, m)) = &e.verdict { out.violate(c, format!("{}: {m}", where_(e))) }
                if !is_read(&e.op) || !clean(e) { continue }
                out.checks += 1;
                let want = plain_read(&fresh(&e.shot.model), &e.op, ctxs, false);
                if want != e.value { out.violate("stale", format!("{}: {} gives {}, a new set with the live definitions gives {want}", where_(e), op_key(&e.op), e.value)) }
            } },
            "P02" => for h in runs { for e in &h.events {
                if let Some((c, m)) = &e.verdict { out.violate(c, format!("{}: {m}", where_(e))) }
                if e.skipped || e.ret.is_none() { continue }
                out.checks += 1;
                if e.ret != e.want_ret { out.violate("report", format!("{}: {:?} reported {:?}, but {:?} is true", where_(e), e.op, e.ret.unwrap(), e.want_ret.unwrap())) }
                if e.want_ret == Some(true) { out.probe("reported-change") }
            } },
            "P03" => for h in runs { for e in &h.events {
                if let Some((c, m)) = &e.verdict { out.violate(c, format!("{}: {m}", where_(e))) }
                if !e.fired.is_empty() { out.checks += 1 }
                if !is_read(&e.op) || !clean(e) { continue }
                out.checks += 1;
                let want = plain_read(&replica(&e.shot.log), &e.op, ctxs, false);
                if want != e.value { out.violate("damaged", format!("{}: {} gives {}, without the failures it gives {want}", where_(e), op_key(&e.op), e.value)) }
            } },
            "P04" | "P05" => for h in runs { for e in &h.events {
                if !is_read(&e.op) || !clean(e) { continue }
                out.checks += 1;
                let want = plain_read(&replica(&e.shot.log), &e.op, ctxs, false);
                if want != e.value {
                    let (class, text) = if p == "P04" { ("interference", "a lone reader gets") } else { ("clone", "a set that went through the same definitions alone gives") };
                    out.violate(class, format!("{}: {} gives {}, {text} {want}", where_(e), op_key(&e.op), e.value))
                }
            } },
            "P06" => {
                let key = |e: &Event| (e.client, e.opi);
                let Some(base) = runs.first() else { return };
                let b: BTreeMap<_, _> = base.events.iter().filter(|e| e.client != usize::MAX).map(|e| (key(e), e)).collect();
                for (i, h) in runs.iter().enumerate().skip(1) { for e in &h.events {
                    if e.client == usize::MAX { continue }
                    let Some(f) = b.get(&key(e)) else { continue };
                    if e.skipped != f.skipped { out.violate("nondeterminism", format!("{}: executed in one environment only", where_(e))); continue }
                    if e.skipped || !clean(e) || !clean(f) { continue }
                    out.checks += 1;
                    if e.value != f.value || e.ret != f.ret {
                        out.violate("nondeterminism", format!("{}: {} gives {} {:?} in environment {i}, but {} {:?} in environment 0", where_(e), op_key(&e.op), e.value, e.ret, f.value, f.ret))
                    }
                } }
            },
            "P08" | "P09" => for h in runs { for e in &h.events {
                if e.skipped || !is_read(&e.op) { continue }
                if e.unknown { out.skipped += 1; continue }
                out.checks += 1;
                if let Some((c, m)) = &e.verdict { out.violate(c, format!("{}: {}: {m}", where_(e), op_key(&e.op))) }
                for a in &e.aborts {
                    if let Abort::Panic { msg, at } = a {
                        // The model has an answer or a documented error for everything it knows.
                        let Some(q) = question(&e.op) else { continue };
                        if !matches!(model::answer(&e.shot.model, q).result, Err(Stop::Unknown(_))) { out.violate("expansion", format!("{}: {}: panicked at {at}: {msg}", where_(e), op_key(&e.op))) }
                    }
                }
            } },
            "P10" => for h in runs { for e in &h.events {
                if e.skipped { continue }
                out.checks += 1;
                for a in &e.aborts {
                    let class = match a { Abort::Injected(_) | Abort::AllocFail => continue, Abort::Budget | Abort::Memory => "work", _ => "abort" };
                    out.violate(class, format!("{}: {}: {a:?} after {} allocations", where_(e), op_key(&e.op), e.ticks))
                }
            } },
            "P12" => for h in runs {
                let mut first: BTreeMap<String, Vec<&Event>> = BTreeMap::new();
                for e in &h.events {
                    if !is_read(&e.op) || !clean(e) { continue }
                    let k = op_key(&e.op);
                    let v = first.entry(k.clone()).or_default();
                    for f in v.iter() {
                        if f.shot.model != e.shot.model {
                            let d = diff(&f.shot.model, &e.shot.model);
                            let r1 = f.shot.model.reach(&op_start(&f.shot.model, &f.op));
                            let r2 = e.shot.model.reach(&op_start(&e.shot.model, &e.op));
                            let touched = d.iter().any(|n| r1.contains(n) || r2.contains(n) || op_start(&e.shot.model, &e.op).contains(n));
                            if touched { out.skipped += 1; out.probe("reaches-damage"); continue }
                            out.probe("unrelated-damage");
                        } else { out.probe("restored") }
                        out.checks += 1;
                        if f.value != e.value {
                            out.violate("containment", format!("{}: {k} gives {}, earlier {}; definitions changed in between: {:?}", where_(e), e.value, f.value, diff(&f.shot.model, &e.shot.model)))
                        }
                    }
                    if v.len() < 3 { v.push(e) } else { v[2] = e }
                }
            },
            _ => (),
        }
    })
}

struct RefPtr(*mut Outcome);
unsafe impl Send for RefPtr {}
struct RefRuns(*const [History]);
unsafe impl Send for RefRuns {}

fn diff(a: &Store, b: &Store) -> BTreeSet<String> {
    let mut d = BTreeSet::new();
    for (n, x) in &a.0 { if b.0.get(n) != Some(x) { d.insert(n.clone()); } }
    for n in b.0.keys() { if !a.0.contains_key(n) { d.insert(n.clone()); } }
    d
}

/// Upper bound for the work of an expansion, from the reference preprocessor's own work: some ten times what is needed.
fn budget_of(m: &Store, op: &Op) -> Option<Limits> {
    let s = model::answer(m, question(op)?).steps? + 20;
    Some(Limits { budget: 5_000 + 300 * s + s * s, steps: 5_000_000 + 50_000 * s + 200 * s * s, mem: (4 << 20) + (s * s) as i64 * 64, ..Limits::default() })
}

/// Likewise for a definition, from the length of the old and the new one.
fn write_budget(m: &Store, op: &Op) -> Limits {
    let len = |v: &[String]| v.iter().map(|s| s.len() + 4).sum::<usize>();
    let (name, new) = match op {
        Op::DefVar { name, body, .. } => (name, len(body)),
        Op::DefFn { name, args, body, .. } => (name, len(args) + len(body)),
        Op::UndefVar { name, .. } | Op::UndefFn { name, .. } => (name, 0),
        _ => return Limits::default(),
    };
    let old = match m.0.get(name) { Some(Def::Var(b)) => len(b), Some(Def::Fn(a, b)) => len(a) + len(b), None => 0 };
    let n = (name.len() + old + new + m.0.len() * 20) as u64;
    Limits { budget: 2_000 + 20 * n, steps: 2_000_000 + 20_000 * n, mem: (1 << 20) + n as i64 * 1000, ..Limits::default() }
}

/// Is `MacroSet: Send + Sync`? Answered at compile time without requiring it.
pub fn sync_probe() -> bool {
    trait No { fn yes(&self) -> bool { false } }
    struct W<T>(std::marker::PhantomData<T>);
    impl<T> No for &W<T> {}
    #[allow(dead_code)]
    trait Yes { fn yes(&self) -> bool; }
    impl<T: Send + Sync> Yes for W<T> { fn yes(&self) -> bool { true } }
    let w: W<MacroSet> = W(std::marker::PhantomData);
    #[allow(clippy::needless_borrow)]
    (&w).yes()
}
