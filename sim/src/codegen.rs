//! Parsing and code generation as the caller's context, and its failures, see them.
use std::cell::{Cell, RefCell};

use cmacro::{CodegenError, Identifier, IdentifierContinue, Lit, MacroArg, MacroToken, Punctuation};
pub use subject::{Code, Obj};

use crate::check_rust;
use crate::ctx::{CtxSpec, SimCtx};
use crate::known;
use crate::plan::{hash_str, Attempt, Fault, Op, Outcome, Plan, Src};
use crate::rt::{self, Abort, Limits, ThreadSetup};

/// The token a caller gets for a text; `$N` is the parameter with index N.
pub fn token(s: &str) -> Option<MacroToken<'_>> {
    if let Some(n) = s.strip_prefix('$').and_then(|n| n.parse::<usize>().ok()) { return Some(MacroToken::Arg(MacroArg::new(n))) }
    if s.starts_with("/*") || s.starts_with("//") { return cmacro::Comment::try_from(s).ok().map(MacroToken::Comment) }
    if let Ok(t) = Identifier::try_from(s) { return Some(MacroToken::Identifier(t)) }
    if let Ok(t) = Lit::try_from(s) { return Some(MacroToken::Lit(t)) }
    if let Ok(t) = Punctuation::try_from(s) { return Some(MacroToken::Punctuation(t)) }
    if let Ok(t) = IdentifierContinue::try_from(s) { return Some(MacroToken::IdentifierContinue(t)) }
    None
}

pub fn tokens(v: &[String]) -> Vec<MacroToken<'_>> { v.iter().filter_map(|s| token(s)).collect() }

#[derive(Clone, Debug, PartialEq)]
pub enum End { Parse(String), Code(Code), Err(CodegenError), Abort(Abort) }

impl End {
    pub fn show(&self) -> String {
        match self {
            End::Parse(e) => format!("parse: {e}"),
            End::Code(Code::Var(v, t)) => format!("{v} : {t:?}"),
            End::Code(Code::Fn(t)) => t.clone(),
            End::Err(e) => format!("generate: {e:?}"),
            End::Abort(a) => format!("{a:?}"),
        }
    }
}

pub struct Shot { pub end: End, pub asked: Vec<(u8, String, bool)>, pub calls: u32, pub declined: u32, pub spoiled: u32, pub ticks: u64, pub peak: i64 }

fn short(s: &str) -> String { if s.chars().count() > 600 { format!("{}…", s.chars().take(600).collect::<String>()) } else { s.into() } }

pub fn attempt(obj: &mut Obj<'_>, spec: &CtxSpec, fault: Option<&Fault>, how: u8, opid: u32, lim: Limits, re: Option<&dyn Fn(u32)>, occurs: Option<&dyn Fn(&str) -> bool>) -> Shot {
    let mut cx = SimCtx::new(spec, fault);
    cx.re = re;
    cx.occurs = occurs;
    let mut lim = lim;
    if let Some(Fault::GenAlloc { at }) = fault { lim.fail_at = *at }
    let (r, used) = rt::sut(opid, lim, || obj.generate(&cx, how));
    let end = match r { Ok(Ok(c)) => End::Code(c), Ok(Err(e)) => End::Err(e), Err(a) => End::Abort(a) };
    Shot { end, asked: cx.asked.take(), calls: cx.calls.get(), declined: cx.declined.get(), spoiled: cx.spoiled.get(), ticks: used.ticks, peak: used.peak }
}

fn parse_in_sim<'t>(m: &Src, args: Option<&[MacroToken<'t>]>, body: &[MacroToken<'t>], opid: u32, lim: Limits) -> (Result<Obj<'t>, End>, u64, i64) {
    let (r, used) = rt::sut(opid, lim, || Obj::parse(&m.name, args, body));
    (match r { Ok(Ok(o)) => Ok(o), Ok(Err(e)) => Err(End::Parse(format!("{e:?}"))), Err(a) => Err(End::Abort(a)) }, used.ticks, used.peak)
}

/// Nesting depth of brackets.
pub fn depth(body: &[String]) -> usize {
    let (mut d, mut max) = (0usize, 0);
    for t in body { match t.as_str() { "(" | "{" | "[" | "<:" | "<%" => { d += 1; max = max.max(d) }, ")" | "}" | "]" => d = d.saturating_sub(1), _ => () } }
    max
}

/// Work allowed for a macro of `n` tokens: polynomial in its length, and exponential only in the (small, bounded by
/// the generator) nesting depth, where the parser is known to try two readings per level.
fn limits(n: usize, d: usize) -> Limits {
    let n = n as u64 + 8;
    let _ = d;
    Limits { fail_at: rt::NEVER, budget: 40_000 + 60 * n * n, mem: (1 << 20) + (n * n * 4096) as i64, ..Limits::default() }
}

pub fn run(plan: &Plan) -> Outcome {
    let env = &plan.envs[0];
    let mut out = Outcome::default();
    let stack = if plan.prop == "P11" { 2 << 20 } else { 4 << 20 };
    let o = &mut out;
    std::thread::scope(|s| {
        std::thread::Builder::new().name("client0".into()).stack_size(stack).spawn_scoped(s, move || {
            let o2 = &mut *o;
            rt::enter(ThreadSetup { sched: None, me: 0, hash_key: env.hash_key, clock: env.clock }, move || {
                match plan.prop.as_str() {
                    "P07" => p07(plan, o2),
                    "P11" => p11(plan, o2),
                    "P13" | "P14" | "P15" => shape(plan, o2),
                    "P16" => p16(plan, o2),
                    p => o2.violate("plan", format!("unknown property {p}")),
                }
                let t = rt::thread_total();
                o2.ticks += t.0;
                o2.steps += t.1;
            });
        }).unwrap().join().unwrap()
    });
    out.scheds = plan.envs.iter().map(|e| e.sched.clone()).collect();
    out
}

fn note(out: &mut Outcome, m: &Src, spec: &CtxSpec, a: &Attempt, s: &Shot) {
    out.ops += 1;
    out.trace = hash_str(out.trace, &format!("{} {:?} {} {}", m.name, a, s.end.show(), s.ticks));
    out.states.push(hash_str(hash_str(5, &format!("{:?} {:?} {:?}", m.args, m.body, a.fault)), &format!("{spec:?}")));
    if matches!(s.end, End::Abort(Abort::AllocFail)) { out.fault("allocation failure in generate") }
    if matches!(s.end, End::Abort(Abort::Injected(_))) { out.fault("context callback failed") }
    if s.spoiled > 0 { out.fault("context gave an unusable answer once") }
    if s.declined > 0 { out.fault("context withdrew an answer") }
    match &s.end {
        End::Code(_) => out.probe("generated"),
        End::Err(_) => out.probe("generation error"),
        End::Parse(_) => out.probe("parse error"),
        End::Abort(_) => (),
    }
}

fn srcs(plan: &Plan) -> Vec<(&Src, Option<Vec<MacroToken<'_>>>, Vec<MacroToken<'_>>)> {
    plan.macros.iter().map(|m| (m, m.args.as_ref().map(|a| tokens(a)), tokens(&m.body))).collect()
}

fn describe(m: &Src) -> String {
    match &m.args {
        Some(a) => format!("{}({}) = {}", m.name, a.join(" "), m.body.join(" ")),
        None => format!("{} = {}", m.name, m.body.join(" ")),
    }
}

/// For development: what every attempt of a plan ends in.
pub fn ends(plan: &Plan) -> Vec<String> {
    let mut v = vec![];
    for (i, a) in plan.attempts.iter().enumerate() {
        let (Some(m), Some(spec)) = (plan.macros.get(a.m), plan.ctxs.get(a.cx)) else { continue };
        let e = std::thread::scope(|s| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || rt::enter(ThreadSetup { sched: None, me: 0, hash_key: 1, clock: 0 }, || {
            let (args, body) = (m.args.as_ref().map(|a| tokens(a)), tokens(&m.body));
            match parse_in_sim(m, args.as_deref(), &body, (i * 8) as u32, Limits::default()).0 { Ok(mut o) => attempt(&mut o, spec, a.fault.as_ref(), a.how, (i * 8 + 1) as u32, Limits::default(), None, None).end.show(), Err(e) => e.show() }
        })).unwrap().join().unwrap());
        v.push(format!("{} => {e}", describe(m)));
    }
    v
}

/// Every attempt of the plan, with nothing asked about the result.
pub fn plain_attempts(plan: &Plan) -> Vec<(String, Option<&'static str>)> {
    let toks = srcs(plan);
    let mut objs: Vec<Option<Obj<'_>>> = toks.iter().map(|_| None).collect();
    let mut v = vec![];
    for (i, a) in plan.attempts.iter().enumerate() {
        let (Some((m, args, body)), Some(spec)) = (toks.get(a.m), plan.ctxs.get(a.cx)) else { continue };
        let opid = (i * 8) as u32;
        let lim = limits(body.len() + args.as_ref().map_or(0, |a| a.len()), 0);
        let obj = match &mut objs[a.m] {
            Some(o) => o,
            none => match parse_in_sim(m, args.as_deref(), body, opid, lim).0 {
                Ok(o) => none.insert(o),
                Err(e) => { v.push((e.show(), None)); continue },
            },
        };
        let s = attempt(obj, spec, a.fault.as_ref(), a.how, opid + 1, lim, None, None);
        let f = match &s.end {
            End::Abort(Abort::AllocFail) => Some("allocation failure in generate"),
            End::Abort(Abort::Injected(_)) => Some("context callback failed"),
            _ => None,
        };
        v.push((format!("{} {}", s.end.show(), s.ticks), f));
    }
    v
}

// ---------------------------------------------------------------- P07

fn p07(plan: &Plan, out: &mut Outcome) {
    let toks = srcs(plan);
    let mut objs: Vec<Result<Obj<'_>, End>> = vec![];
    for (m, a, b) in &toks { objs.push(parse_in_sim(m, a.as_deref(), b, 0, Limits::default()).0) }
    let mut history: Vec<String> = vec![String::new(); plan.macros.len()];
    for (i, a) in plan.attempts.iter().enumerate() {
        let (Some((m, args, body)), Some(spec)) = (toks.get(a.m), plan.ctxs.get(a.cx)) else { continue };
        let Ok(obj) = &mut objs[a.m] else { out.probe("parse error"); out.skipped += 1; continue };
        let opid = (i * 8) as u32;
        let s = attempt(obj, spec, a.fault.as_ref(), a.how, opid, Limits::default(), None, None);
        note(out, m, spec, a, &s);
        if !matches!(s.end, End::Abort(_)) { said(m, args.as_deref(), obj, out); if out.violation.is_some() { return } }
        // How many allocations an attempt makes is its own business.
        if let Some(Fault::GenAlloc { .. }) = a.fault { history[a.m].push_str(match s.end { End::Abort(_) => " aborted", End::Err(_) => " failed", _ => " success" }); continue }
        let want = match parse_in_sim(m, args.as_deref(), body, opid + 1, Limits::default()).0 {
            Ok(mut fresh) => attempt(&mut fresh, spec, a.fault.as_ref(), a.how, opid + 2, Limits::default(), None, None),
            Err(_) => { out.skipped += 1; continue },
        };
        out.checks += 1;
        if history[a.m].contains("aborted") { out.probe("attempt after an aborted one") }
        if history[a.m].contains("failed") { out.probe("attempt after a failed one") }
        if !history[a.m].is_empty() { out.probe("attempt on a used object") }
        if s.end != want.end {
            out.violate("differs-from-first", format!("attempt {} on {} (after{}) under context {} gave `{}`, a freshly parsed macro gives `{}`", i, describe(m), if history[a.m].is_empty() { " nothing".into() } else { history[a.m].clone() }, a.cx, short(&s.end.show()), short(&want.end.show())));
            return
        }
        history[a.m].push_str(match s.end { End::Abort(_) => " aborted", End::Err(_) => " failed", _ => " success" });
    }
}

/// A parsed macro has the name and the parameters it was parsed with, whatever happened to it.
fn said(m: &Src, args: Option<&[MacroToken<'_>]>, obj: &Obj<'_>, out: &mut Outcome) {
    let (name, got) = obj.signature();
    let want: Vec<String> = args.unwrap_or(&[]).iter().filter_map(|t| match t { MacroToken::Identifier(i) => Some(i.as_str().to_string()), MacroToken::Punctuation(_) => Some("...".into()), _ => None }).collect();
    if name != m.name || got != want { out.violate("signature", format!("{} says that it is {name}({})", describe(m), got.join(", "))) }
    if let Obj::Var(_) = obj { out.probe(if obj.is_value() { "value of a variable-like macro" } else { "statements of a variable-like macro" }) }
}

// ---------------------------------------------------------------- P11

fn p11(plan: &Plan, out: &mut Outcome) {
    let toks = srcs(plan);
    for (i, a) in plan.attempts.iter().enumerate() {
        let (Some((m, args, body)), Some(spec)) = (toks.get(a.m), plan.ctxs.get(a.cx)) else { continue };
        let n = body.len() + args.as_ref().map_or(0, |a| a.len());
        let d = depth(&m.body);
        let lim = limits(n, d);
        let bad = |what: &str, e: &Abort| -> (String, String) {
            let class = match e { Abort::Panic { at, .. } => format!("panic {at}"), Abort::Budget | Abort::Memory => "runaway".into(), e => format!("{e:?}") };
            (class, format!("{what} {} ({} tokens, depth {d}): {e:?}", describe(m), n))
        };
        let (obj, ticks, _) = parse_in_sim(m, args.as_deref(), body, (i * 8) as u32, lim);
        out.checks += 1;
        out.trace = hash_str(out.trace, &format!("{ticks}"));
        let mut obj = match obj {
            Ok(o) => o,
            Err(End::Abort(e)) => { let (c, msg) = bad("parsing", &e); out.violate(&c, msg); return },
            Err(_) => { out.probe("parse error"); out.states.push(hash_str(9, &format!("{:?}{:?}", m.args, m.body))); continue },
        };
        let s = attempt(&mut obj, spec, a.fault.as_ref(), a.how, (i * 8 + 1) as u32, lim, None, None);
        note(out, m, spec, a, &s);
        match &s.end {
            End::Abort(Abort::Injected(_)) if a.fault.is_some() => (),
            End::Abort(e) => { let (c, msg) = bad("generating", e); out.violate(&c, msg); return },
            End::Err(e) => { if e.to_string().is_empty() || format!("{e:?}").is_empty() { out.violate("empty error", "an error without a message") } },
            _ => (),
        }
    }
}

// ---------------------------------------------------------------- P13, P14, P15

fn shape(plan: &Plan, out: &mut Outcome) {
    let toks = srcs(plan);
    for (i, a) in plan.attempts.iter().enumerate() {
        let (Some((m, args, body)), Some(spec)) = (toks.get(a.m), plan.ctxs.get(a.cx)) else { continue };
        let (obj, ..) = parse_in_sim(m, args.as_deref(), body, (i * 8) as u32, Limits::default());
        let mut obj = match obj { Ok(o) => o, Err(_) => { out.probe("parse error"); out.skipped += 1; continue } };
        let s = attempt(&mut obj, spec, a.fault.as_ref(), a.how, (i * 8 + 1) as u32, Limits::default(), None, None);
        note(out, m, spec, a, &s);
        if matches!(s.end, End::Abort(_)) { out.skipped += 1; continue }
        let v = match plan.prop.as_str() {
            "P13" => check_rust::typed(m, spec, &s, out),
            "P14" => check_rust::well_formed(m, &s, out),
            _ => check_rust::complete(m, spec, &s, out),
        };
        if let Err((class, msg)) = v {
            let full = format!("{} under {spec:?}: {msg}; got `{}`", describe(m), short(&s.end.show()));
            match known::entries(&plan.prop).into_iter().find(|k| check_rust::is_known(&k.id, m, spec, &class, &s.end)) {
                Some(k) => out.known.push((k.id, k.what)),
                None => { out.violate(&class, full); return },
            }
        }
    }
}

// ---------------------------------------------------------------- P16

pub fn plain_text(v: &[String], params: &[String]) -> Vec<String> {
    v.iter().map(|t| match t.strip_prefix('$').and_then(|n| n.parse::<usize>().ok()) {
        Some(n) => match params.get(n).map(|s| s.as_str()) { Some("...") => "__VA_ARGS__".into(), Some(p) => p.into(), None => "v9".into() },
        None => t.clone(),
    }).collect()
}

/// Contexts come in pairs (2k, 2k + 1) that agree on every name that occurs in any macro.
fn p16(plan: &Plan, out: &mut Outcome) {
    let (set, _) = rt::sut(0, Limits::default(), || {
        let mut set = subject::new();
        for m in &plan.macros {
            let op = match &m.args {
                Some(a) => Op::DefFn { set: 0, name: m.name.clone(), args: a.clone(), body: plain_text(&m.body, a), fault: None },
                None => Op::DefVar { set: 0, name: m.name.clone(), body: plain_text(&m.body, &[]), fault: None },
            };
            crate::store::apply_write(&mut set, &op, false);
        }
        set
    });
    let Ok(set) = set else { out.skipped += 1; return };
    let whole = |m: &Src, cx: &SimCtx<'_>| -> String {
        let r = match &m.args {
            None => subject::expand_var(&set, &m.name).map(|b| (None, b)),
            Some(_) => subject::expand_fn(&set, &m.name).map(|(a, b)| (Some(a), b)),
        };
        match r {
            Err(e) => format!("expand: {e:?}"),
            Ok((_, b)) if b.len() > 60 => "too large".into(),
            Ok((a, b)) => match Obj::parse(&m.name, a.as_deref(), &b) {
                Err(e) => format!("parse: {e:?}"),
                Ok(mut o) => match o.generate(cx, 0) { Ok(c) => End::Code(c).show(), Err(e) => End::Err(e).show() },
            },
        }
    };
    // What a context that uses the library while answering gets: known from doing the same on its own.
    let quiet = CtxSpec::default();
    let nested_spec = plan.ctxs.first().cloned().map(|mut c| { c.reenter = false; c.flaps = vec![]; c.spoils = vec![]; c.fickle = 0; c.others = 0; c }).unwrap_or(quiet);
    let pieces = crate::gen_code::pieces(&plan.macros, &plan.ctxs);
    let occurs = |n: &str| crate::gen_code::composed(n, &pieces);
    let alone: Vec<String> = plan.macros.iter().map(|m| {
        let cx = SimCtx::new(&nested_spec, None);
        match rt::sut(1, Limits::default(), || whole(m, &cx)).0 { Ok(s) => s, Err(a) => format!("{a:?}") }
    }).collect();
    let trouble: RefCell<Option<String>> = RefCell::new(None);
    let nested = Cell::new(0u64);
    let re = |n: u32| {
        if nested.get() > 40 { return }
        nested.set(nested.get() + 1);
        let k = n as usize % plan.macros.len();
        if alone[k].starts_with("Panic") { return }
        let cx = SimCtx::new(&nested_spec, None);
        let got = rt::reenter(|| whole(&plan.macros[k], &cx));
        if got != alone[k] && trouble.borrow().is_none() {
            *trouble.borrow_mut() = Some(format!("nested use of {} inside callback {n} gave `{}`, on its own it gives `{}`", describe(&plan.macros[k]), short(&got), short(&alone[k])));
        }
    };
    for (i, a) in plan.attempts.iter().enumerate() {
        let (Some(m), Some(base), Some(spec)) = (plan.macros.get(a.m), plan.ctxs.get(a.cx & !1), plan.ctxs.get(a.cx)) else { continue };
        let opid = (i * 8) as u32;
        let tokens = rt::sut(opid, Limits::default(), || match &m.args {
            None => subject::expand_var(&set, &m.name).map(|b| (None, b)),
            Some(_) => subject::expand_fn(&set, &m.name).map(|(a, b)| (Some(a), b)),
        }).0;
        let (args, body) = match tokens { Ok(Ok((_, b))) if b.len() > 60 => { out.skipped += 1; continue }, Ok(Ok(t)) => t, _ => { out.skipped += 1; continue } };
        let p = |op: u32| parse_in_sim(m, args.as_deref(), &body, op, Limits::default()).0;
        let (Ok(mut one), Ok(mut two)) = (p(opid + 1), p(opid + 2)) else { out.probe("parse error"); out.skipped += 1; continue };
        let want = attempt(&mut one, base, a.fault.as_ref(), 0, opid + 3, Limits::default(), None, None);
        let got = attempt(&mut two, spec, a.fault.as_ref(), a.how, opid + 4, Limits::default(), if spec.reenter { Some(&re) } else { None }, Some(&occurs));
        note(out, m, spec, a, &got);
        out.checks += 1;
        let how = match a.how { 1 => ", generating from a clone", 2 => ", context passed by value", 3 => ", context passed by reference to a reference", _ => "" };
        if a.cx & 1 == 1 { out.probe("context with unrelated answers") }
        if spec.others > 0 { out.probe("context that answers about every other name") }
        if a.how >= 2 { out.probe("context passed another way") }
        if spec.reenter { out.fault("context re-entered the library") }
        if got.end != want.end {
            out.violate("context", format!("{}: `{}` under context {}{}{}, but `{}` under the context that answers the same about the names in the macro", describe(m), short(&got.end.show()), a.cx, how, if spec.reenter { ", which uses the library while answering" } else { "" }, short(&want.end.show())));
            return
        }
        if let Some(Fault::Callback { at }) = &a.fault {
            match &got.end {
                End::Abort(Abort::Injected(n)) if n == at => out.probe("failure of the context arrived unchanged"),
                _ if got.calls > *at => { out.violate("failure-lost", format!("{}: the context failed in callback {at}, and the caller got `{}`", describe(m), short(&got.end.show()))); return },
                _ => (),
            }
        }
        if let Some(t) = trouble.borrow_mut().take() { out.violate("nested", t); return }
        if nested.get() > 0 { out.probe("nested use compared"); nested.set(0) }
    }
}
