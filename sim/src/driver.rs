//! Command line: seeded search over many runs, minimisation, replay, evidence.
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::plan::{Outcome, Plan};
use crate::prng::mix;
use crate::{rt, scenario};

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn personality(p: u64) -> i32;
}

const CPU_LIMIT: u64 = 30;
const WALL_LIMIT: u32 = 75;
/// An end for want of time or resources of the host, as opposed to what the run itself did.
const STALLED: &str = "the run did not end within its CPU and wall-clock limits";

/// Execute one plan in a child process; a run can do nothing to the next one.
pub fn isolated(f: impl FnOnce() -> Outcome) -> Result<Outcome, String> {
    let mut fds = [0i32; 2];
    unsafe {
        if pipe(fds.as_mut_ptr()) != 0 { return Err("pipe".into()) }
        let pid = fork();
        if pid < 0 { return Err("fork".into()) }
        if pid == 0 {
            close(fds[0]);
            rt::report_to(fds[1]);
            setrlimit(0, &[CPU_LIMIT, CPU_LIMIT + 2]);
            setrlimit(4, &[0, 0]);
            alarm(WALL_LIMIT);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let r = r.ok().or_else(|| rt::foreign_panic().map(|m| { let mut o = Outcome::default(); o.violate("abort", m); o }));
            let code = match r {
                Some(o) => {
                    let s = serde_json::to_vec(&o).unwrap();
                    let mut p = &s[..];
                    while !p.is_empty() {
                        let n = write(fds[1], p.as_ptr(), p.len());
                        if n <= 0 { _exit(78) }
                        p = &p[n as usize..];
                    }
                    0
                },
                None => 77,
            };
            _exit(code)
        }
        close(fds[1]);
        let mut buf = vec![];
        let mut tmp = [0u8; 65536];
        loop {
            let n = read(fds[0], tmp.as_mut_ptr(), tmp.len());
            if n <= 0 { break }
            buf.extend_from_slice(&tmp[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 { if std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted { return Err("waitpid".into()) } }
        let st = std::process::ExitStatus::from_raw(st);
        if let Some(sig) = st.signal() {
            let mut o = Outcome::default();
            match sig {
                24 | 14 => return Err(STALLED.into()),
                9 => return Err("run was killed".into()),
                11 | 7 | 6 | 4 | 5 => o.violate("crash", format!("the process died of signal {sig}")),
                _ => return Err(format!("run died of signal {sig}")),
            }
            return Ok(o)
        }
        match st.code() {
            Some(0) => serde_json::from_slice(&buf).map_err(|e| format!("outcome: {e}")),
            c => Err(format!("simulator error, exit code {c:?}")),
        }
    }
}

/// A run that did not come to its end through no fault of its own comes to it when repeated.
fn run_plan(p: &Plan) -> Result<Outcome, String> {
    let mut err = String::new();
    for again in 0..3 {
        if again > 0 { STALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed); unpin(); std::thread::sleep(Duration::from_millis(500 * again)) }
        match isolated(|| scenario::run(p)) { Ok(o) => return Ok(o), Err(e) => err = e }
    }
    if err != STALLED { return Err(err) }
    let mut o = Outcome::default();
    o.violate("hang", STALLED);
    Ok(o)
}

/// Runs that had to be repeated.
static STALLS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn seed_of(base: u64, prop: &str, i: u64) -> u64 { mix(crate::plan::hash_str(base, prop), i) }

#[derive(Default, Serialize, Deserialize)]
struct Agg {
    runs: u64, checks: u64, skipped: u64, ticks: u64, steps: u64, ops: u64, switches: u64, idle: u64, repeats: u64, mismatches: u64, stalls: u64,
    faults: BTreeMap<String, u64>, probes: BTreeMap<String, u64>,
    flavours: BTreeMap<String, u64>,
    known: BTreeMap<String, (u64, String)>,
    violation: Option<(u64, u64, String, String)>,
    errors: Vec<String>,
    samples: Vec<Value>,
    #[serde(skip)]
    inter: HashSet<u64>,
    #[serde(skip)]
    states: HashSet<u64>,
    /// Basic blocks reached, one byte each.
    #[serde(skip)]
    cover: Vec<u8>,
}

fn worker(prop: &str, base: u64, k: u64, n: u64, runs: u64, secs: u64) -> Agg {
    let t0 = Instant::now();
    let mut a = Agg::default();
    let cover = shared_cover();
    let mut i = k;
    while i < runs {
        if t0.elapsed() > Duration::from_secs(secs) { break }
        let seed = seed_of(base, prop, i);
        // The plan is generated in this process so that a dying run is still described by it.
        let (plan, gen_faults) = scenario::plan(prop, seed);
        let o = match run_plan(&plan) { Ok(o) => o, Err(e) => { a.errors.push(format!("run {i} seed {seed}: {e}")); break } };
        a.runs += 1;
        if o.checks == 0 { a.idle += 1 }
        a.checks += o.checks;
        a.skipped += o.skipped;
        a.ticks += o.ticks;
        a.steps += o.steps;
        a.ops += o.ops;
        a.switches += o.switches;
        *a.flavours.entry(plan.flavour.clone()).or_default() += 1;
        for f in gen_faults { *a.faults.entry(f.to_string()).or_default() += 1 }
        for (f, c) in &o.faults { *a.faults.entry(f.clone()).or_default() += c }
        for (f, c) in &o.probes { *a.probes.entry(f.clone()).or_default() += c }
        for (id, what) in &o.known { let e = a.known.entry(id.clone()).or_insert((0, what.clone())); e.0 += 1 }
        a.inter.extend(&o.inter);
        a.states.extend(&o.states);
        if a.samples.len() < 1 && o.checks > 0 { a.samples.push(json!({ "run": i, "seed": seed, "plan": plan, "checks": o.checks, "ticks": o.ticks, "faults": o.faults })) }
        if i % 64 < n {
            a.repeats += 1;
            match isolated(|| { let (p, _) = scenario::plan(prop, seed); scenario::run(&p) }) {
                Ok(o2) if o2.trace == o.trace && o2.ticks == o.ticks && o2.steps == o.steps && o2.inter == o.inter && o2.violation == o.violation => (),
                Err(_) => { a.repeats -= 1; STALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed); },
                _ => a.mismatches += 1,
            }
        }
        if let Some((c, m)) = o.violation {
            a.violation = Some((i, seed, c, m));
            break
        }
        i += n;
    }
    a.stalls = STALLS.load(std::sync::atomic::Ordering::Relaxed);
    a.cover = cover.to_vec();
    a
}

/// An array for the marks of blocks reached, common to this process and its children.
fn shared_cover() -> &'static [u8] {
    extern "C" { fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }
    let p = unsafe { mmap(std::ptr::null_mut(), rt::COV_MAX, 3, 0x21, -1, 0) };
    if p as isize == -1 { return &[] }
    rt::cover_into(p);
    unsafe { std::slice::from_raw_parts(p, (rt::blocks() + 1).min(rt::COV_MAX)) }
}

extern "C" {
    fn sched_getaffinity(pid: i32, n: usize, m: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, n: usize, m: *const u64) -> i32;
}

fn unpin() { unsafe { sched_setaffinity(0, 128, [u64::MAX; 16].as_ptr()) }; }

/// Keep this process on one processor: its threads take turns anyway, and hand over faster there.
fn pin(k: u64) {
    let mut m = [0u64; 16];
    if unsafe { sched_getaffinity(0, 128, m.as_mut_ptr()) } < 0 { return }
    let cpus: Vec<usize> = (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect();
    if cpus.is_empty() { return }
    let c = cpus[k as usize % cpus.len()];
    let mut one = [0u64; 16];
    one[c / 64] |= 1 << (c % 64);
    unsafe { sched_setaffinity(0, 128, one.as_ptr()) };
}

fn worker_main(args: &[String]) -> i32 {
    let n = |i: usize| args[i].parse::<u64>().unwrap();
    pin(n(2));
    let a = worker(&args[0], n(1), n(2), n(3), n(4), n(5));
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let j = serde_json::to_vec(&a).unwrap();
    let w = |out: &mut dyn Write, b: &[u8]| { out.write_all(&(b.len() as u64).to_le_bytes()).unwrap(); out.write_all(b).unwrap() };
    w(&mut out, &j);
    for s in [&a.inter, &a.states] {
        let b: Vec<u8> = s.iter().flat_map(|x| x.to_le_bytes()).collect();
        w(&mut out, &b);
    }
    w(&mut out, &a.cover);
    out.flush().unwrap();
    0
}

fn read_block(r: &mut impl Read) -> std::io::Result<Vec<u8>> {
    let mut l = [0u8; 8];
    r.read_exact(&mut l)?;
    let mut v = vec![0; u64::from_le_bytes(l) as usize];
    r.read_exact(&mut v)?;
    Ok(v)
}

fn search(prop: &str, base: u64, runs: u64, secs: u64, workers: u64) -> Result<Agg, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut total = Agg::default();
    let hs: Vec<_> = (0..workers).map(|k| {
        let mut c = Command::new(&exe).args(["worker", prop, &base.to_string(), &k.to_string(), &workers.to_string(), &runs.to_string(), &secs.to_string()])
            .stdin(Stdio::null()).stdout(Stdio::piped()).spawn().unwrap();
        let mut out = c.stdout.take().unwrap();
        std::thread::spawn(move || -> Result<(Agg, [Vec<u8>; 3]), String> {
            let r = (|| -> std::io::Result<_> { Ok((read_block(&mut out)?, [read_block(&mut out)?, read_block(&mut out)?, read_block(&mut out)?])) })();
            let st = c.wait().map_err(|e| e.to_string())?;
            let (a, sets) = r.map_err(|e| format!("worker {k}: {e}, {st}"))?;
            Ok((serde_json::from_slice(&a).map_err(|e| e.to_string())?, sets))
        })
    }).collect();
    for h in hs {
        let (a, [b, c, cov]) = h.join().unwrap()?;
        if total.cover.len() < cov.len() { total.cover.resize(cov.len(), 0) }
        for (t, x) in total.cover.iter_mut().zip(&cov) { *t |= x }
        for (set, bytes) in [(&mut total.inter, b), (&mut total.states, c)] {
            set.extend(bytes.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())))
        }
        total.runs += a.runs; total.checks += a.checks; total.skipped += a.skipped; total.ticks += a.ticks; total.steps += a.steps; total.ops += a.ops;
        total.switches += a.switches; total.idle += a.idle; total.repeats += a.repeats; total.mismatches += a.mismatches; total.stalls += a.stalls;
        for (k, v) in a.faults { *total.faults.entry(k).or_default() += v }
        for (k, v) in a.probes { *total.probes.entry(k).or_default() += v }
        for (k, v) in a.flavours { *total.flavours.entry(k).or_default() += v }
        for (k, v) in a.known { total.known.entry(k).or_insert((0, v.1)).0 += v.0 }
        total.errors.extend(a.errors);
        if total.samples.len() < 3 { total.samples.extend(a.samples) }
        if let Some(v) = a.violation { if total.violation.as_ref().map_or(true, |o| v.0 < o.0) { total.violation = Some(v) } }
    }
    Ok(total)
}

// ---------------------------------------------------------------- minimisation

/// All arrays that may lose elements, as JSON pointers.
fn arrays(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Array(xs) => {
            let last = at.rsplit('/').next().unwrap_or("");
            // Lists that others refer to by index keep their length.
            if !matches!(last, "clients" | "macros" | "ctxs") && !(at.starts_with("/ctxs/") && at.matches('/').count() > 3) && !xs.is_empty() { out.push(at.clone()) }
            for (i, x) in xs.iter().enumerate() { arrays(x, format!("{at}/{i}"), out) }
        },
        Value::Object(m) => for (k, x) in m { arrays(x, format!("{at}/{k}"), out) },
        _ => (),
    }
}

fn options(v: &Value, at: String, out: &mut Vec<(String, String)>) {
    match v {
        Value::Array(xs) => for (i, x) in xs.iter().enumerate() { options(x, format!("{at}/{i}"), out) },
        Value::Object(m) => for (k, x) in m {
            if matches!(k.as_str(), "fault" | "gen" | "rust_target" | "ffi_prefix" | "trait_prefix" | "reenter" | "order") && !x.is_null() { out.push((at.clone(), k.clone())) }
            options(x, format!("{at}/{k}"), out)
        },
        _ => (),
    }
}

/// Remove elements `lo..hi` of the array at `ptr`, keeping schedules in step with the operations they refer to.
fn cut(v: &Value, ptr: &str, lo: usize, hi: usize) -> Option<Value> {
    let mut v = v.clone();
    let xs = v.pointer_mut(ptr)?.as_array_mut()?;
    if hi > xs.len() { return None }
    xs.drain(lo..hi);
    if let Some(k) = ptr.strip_prefix("/clients/").and_then(|r| r.parse::<u64>().ok()) {
        for e in v.pointer_mut("/envs")?.as_array_mut()? {
            let Some(sw) = e.pointer_mut("/sched/Explicit/switches").and_then(|s| s.as_array_mut()) else { continue };
            sw.retain_mut(|s| {
                if s["from"].as_u64() != Some(k) { return true }
                let op = s["op"].as_u64().unwrap_or(0);
                if op == u32::MAX as u64 { return true }
                let (i, sub) = ((op / 8) as usize, op % 8);
                if i >= hi { s["op"] = json!(((i - (hi - lo)) as u64) * 8 + sub); true } else { i < lo }
            });
        }
    }
    Some(v)
}

/// The contexts of P16 come in pairs that have to agree, but for what was added to the second one.
fn agree(first: &Value, v: &mut Value) {
    let list = |v: &Value, i: usize, k: &str| v["ctxs"][i][k].as_array().cloned().unwrap_or_default();
    for i in (0..v["ctxs"].as_array().map_or(0, |c| c.len()) / 2).map(|i| 2 * i) {
        let mut keys: Vec<String> = [i, i + 1].iter().flat_map(|j| v["ctxs"][*j].as_object()).flat_map(|o| o.keys().cloned()).collect();
        keys.sort();
        keys.dedup();
        for k in keys.iter().filter(|k| *k != "reenter") {
            if !first["ctxs"][i + 1][k].is_array() {
                if v["ctxs"][i][k] != v["ctxs"][i + 1][k] { for j in [i, i + 1] { if let Some(o) = v["ctxs"][j].as_object_mut() { o.remove(k); } } }
                continue
            }
            let (was, mut one, mut two) = (list(first, i, k), list(v, i, k), list(v, i + 1, k));
            one.retain(|x| two.contains(x));
            two.retain(|x| one.contains(x) || !was.contains(x));
            for (j, l) in [(i, one), (i + 1, two)] { if let Some(o) = v["ctxs"][j].as_object_mut() { if l.is_empty() { o.remove(k); } else { o.insert(k.clone(), json!(l)); } } }
        }
    }
}

fn minimise(plan: &Plan, class: &str, budget: Duration) -> (Plan, Outcome, u64) {
    let t0 = Instant::now();
    let mut tried = 0;
    let test = |v: &Value, tried: &mut u64| -> Option<(Plan, Outcome)> {
        *tried += 1;
        let p: Plan = serde_json::from_value(v.clone()).ok()?;
        let o = match isolated(|| scenario::run(&p)) { Ok(o) => o, Err(e) if e == STALLED => { let mut o = Outcome::default(); o.violate("hang", STALLED); o }, Err(_) => return None };
        if o.violation.as_ref().map(|x| x.0.as_str()) == Some(class) { Some((p, o)) } else { None }
    };
    let mut cur = serde_json::to_value(plan).unwrap();
    let first = cur.clone();
    let pairs = plan.prop == "P16";
    let mut best = match test(&cur, &mut tried) { Some(b) => b, None => return (plan.clone(), Outcome::default(), tried) };
    // Try the recorded schedule in place of the seeded one.
    if !best.1.scheds.is_empty() && best.1.scheds.len() == best.0.envs.len() {
        let mut p = best.0.clone();
        for (e, s) in p.envs.iter_mut().zip(&best.1.scheds) { e.sched = s.clone() }
        let v = serde_json::to_value(&p).unwrap();
        if let Some(b) = test(&v, &mut tried) { cur = v; best = b }
    }
    loop {
        let mut progress = false;
        let mut ptrs = vec![];
        arrays(&cur, String::new(), &mut ptrs);
        // Coarse things first.
        ptrs.sort_by_key(|p| p.matches('/').count());
        for ptr in ptrs {
            let Some(len) = cur.pointer(&ptr).and_then(|a| a.as_array()).map(|a| a.len()) else { continue };
            let mut size = len;
            while size >= 1 {
                let mut lo = 0;
                while let Some(l) = cur.pointer(&ptr).and_then(|a| a.as_array()).map(|a| a.len()) {
                    if lo >= l || t0.elapsed() > budget { break }
                    let hi = (lo + size).min(l);
                    if let Some(mut c) = cut(&cur, &ptr, lo, hi) {
                        if pairs { agree(&first, &mut c) }
                        if c == cur { lo = hi; continue }
                        if let Some(b) = test(&c, &mut tried) { cur = c; best = b; progress = true; continue }
                    }
                    lo = hi;
                }
                size /= 2;
            }
        }
        let mut opts = vec![];
        options(&cur, String::new(), &mut opts);
        for (at, k) in opts {
            if t0.elapsed() > budget { break }
            let mut c = cur.clone();
            match c.pointer_mut(&at).and_then(|o| o.as_object_mut()) { Some(o) => { o.remove(&k); }, None => continue }
            if pairs { agree(&first, &mut c) }
            if c == cur { continue }
            if let Some(b) = test(&c, &mut tried) { cur = c; best = b; progress = true }
        }
        if !progress || t0.elapsed() > budget { break }
    }
    (best.0, best.1, tried)
}

// ---------------------------------------------------------------- commands

fn verif_dir() -> String { std::env::var("CMSIM_DIR").unwrap_or_else(|_| "/verif".into()) }

fn runs_for(prop: &str, thorough: bool) -> (u64, u64) {
    let quick = scenario::quick_runs(prop);
    if thorough { (quick * 40, 840) } else { (quick, 200) }
}

fn replay(path: &str, quiet: bool) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else { eprintln!("cannot read {path}"); return 2 };
    let v: Value = match serde_json::from_str(&s) { Ok(v) => v, Err(e) => { eprintln!("{e}"); return 2 } };
    let plan: Plan = match serde_json::from_value(v["plan"].clone()) { Ok(p) => p, Err(e) => { eprintln!("{e}"); return 2 } };
    match run_plan(&plan) {
        Ok(o) => match o.violation {
            Some((c, m)) => {
                if !quiet {
                    println!("reproduced: class {c}{}", if v["class"] == json!(c) { "" } else { " (a different one than recorded)" });
                    println!("{m}");
                    println!("VIOLATION property={} replay={path}", plan.prop);
                }
                1
            },
            None => { if !quiet { println!("not reproduced: property={} holds on this run ({} checks)", plan.prop, o.checks) } 0 },
        },
        Err(e) => { eprintln!("{e}"); 2 },
    }
}

fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let (mut runs, mut secs) = runs_for(prop, thorough);
    if let Some(r) = std::env::var("CMSIM_RUNS").ok().and_then(|s| s.parse().ok()) { runs = r }
    if let Some(r) = std::env::var("CMSIM_SECS").ok().and_then(|s| s.parse().ok()) { secs = r }
    println!("property={prop} tier={tier} VERIF_SEED={base} runs={runs}");
    let workers = std::env::var("CMSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let a = match search(prop, base, runs, secs, workers) { Ok(a) => a, Err(e) => { eprintln!("simulator error: {e}"); return 2 } };
    let search_s = t0.elapsed().as_secs_f64();
    let dir = verif_dir();
    let mut code = 0;
    let mut nviol = 0;
    if let Some((i, seed, class, msg)) = &a.violation {
        nviol = 1;
        let (plan, _) = scenario::plan(prop, *seed);
        let (plan, o, tried) = minimise(&plan, class, Duration::from_secs(if class == "hang" { 100 } else { 60 }));
        let path = format!("{dir}/replays/{prop}-{seed:016x}.json");
        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
        let m = o.violation.clone().map(|v| v.1).unwrap_or_else(|| msg.clone());
        let doc = json!({ "property": prop, "verif_seed": base, "run": i, "seed": seed, "class": class, "message": m, "first_seen": msg, "minimiser_runs": tried,
            "trace": o.trace, "plan": plan });
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()) { eprintln!("cannot write {path}: {e}") }
        println!("run {i} seed {seed}: {class}: {msg}");
        println!("minimised ({tried} runs): {m}");
        let exe = std::env::current_exe().unwrap();
        let again: Vec<i32> = (0..if t0.elapsed() > Duration::from_secs(600) { 0 } else { 3 }).map(|_| Command::new(&exe).args(["replay", &path]).stdout(Stdio::null()).status().ok().and_then(|s| s.code()).unwrap_or(-1)).collect();
        println!("replayed in fresh processes: {} of {} reproduce", again.iter().filter(|c| **c == 1).count(), again.len());
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    }
    for e in &a.errors { eprintln!("simulator error: {e}") }
    if code == 0 && !a.errors.is_empty() { code = 2 }
    let known = crate::known::entries(prop);
    for k in &known { println!("KNOWN-FINDING: property={prop} {}", k.what) }
    let mut known_met = BTreeMap::new();
    for k in &known { known_met.insert(k.id.clone(), a.known.get(&k.id).map(|x| x.0).unwrap_or(0)); }
    if a.mismatches > 0 { println!("warning: {} of {} repeated runs differ", a.mismatches, a.repeats) }
    let reached = a.cover.iter().skip(1).filter(|b| **b != 0).count();
    let ev = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration", "wall_s": t0.elapsed().as_secs_f64(), "violations": nviol,
        "coverage": {
            "evaluations": a.checks, "distinct_nontrivial": a.states.len(), "rule": scenario::rule(prop), "samples": a.samples,
            "runs": a.runs, "runs_without_any_check": a.idle, "seeds": a.runs, "runs_per_hour": (a.runs as f64 / search_s * 3600.0) as u64,
            "simulated_steps": a.steps, "step": "one basic block, allocation or environment callback of the code under test; the logical clock of the simulation and the resolution of preemption",
            "simulated_ticks": a.ticks, "tick": "one allocation or one environment callback of the code under test; the clock of allocation failures and work budgets",
            "blocks_reached": reached, "blocks": a.cover.len().saturating_sub(1), "block": "basic block of cmacro and of the instances of its generic functions, as compiled",
            "operations": a.ops, "oracle_skipped_outside_model": a.skipped,
            "baton_switches": a.switches, "distinct_interleavings": a.inter.len(), "distinct_situations": a.states.len(),
            "interleaving_measure": "hash of the complete sequence of (client, operation, step, next client) hand-overs of one execution",
            "situation_measure": scenario::situation(prop),
            "faults_fired": a.faults, "probes": a.probes, "flavours": a.flavours,
            "repeated_runs": a.repeats, "repeated_runs_that_differed": a.mismatches, "runs_repeated_because_the_host_stalled": a.stalls, "known_findings_met": known_met,
            "real_components": scenario::real(prop), "stub_components": scenario::stub(prop),
        },
        "assumptions": [
            "Sampling: a clean batch is evidence and not proof.",
            "Preemption happens at basic blocks, allocations and environment callbacks of the code under test; a basic block, and precompiled library code between two of these, runs undisturbed; memory is sequentially consistent.",
            "Allocation failure is delivered as an unwinding panic (the allocator's error hook), as a Rust program configured that way sees it.",
        ],
    });
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    if let Err(e) = std::fs::write(format!("{dir}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()) { eprintln!("evidence: {e}"); if code == 0 { code = 2 } }
    println!("{prop}: {} runs, {} checks, {} ticks, {} interleavings, {} situations, {:.1} s{}", a.runs, a.checks, a.ticks, a.inter.len(), a.states.len(),
        t0.elapsed().as_secs_f64(), if code == 0 { ", held" } else { "" });
    code
}

fn no_aslr() {
    if std::env::var_os("CMSIM_FIXED").is_some() { return }
    unsafe { if personality(0x0004_0000) < 0 { return } }
    use std::os::unix::process::CommandExt;
    let e = Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("CMSIM_FIXED", "1").exec();
    eprintln!("exec: {e}");
}

pub fn main() {
    no_aslr();
    rt::install_hooks();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("worker") => worker_main(&args[1..]),
        Some("check") if args.len() == 3 => check(&args[1], &args[2]),
        Some("replay") if args.len() == 2 => replay(&args[1], false),
        // Development: one run, printed.
        Some("one") => {
            let seed = seed_of(1, &args[1], args[2].parse().unwrap());
            let (p, _) = scenario::plan(&args[1], seed);
            println!("{}", serde_json::to_string(&p).unwrap());
            match run_plan(&p) { Ok(o) => { println!("{:?} trace {:x} ticks {} checks {} skipped {} faults {:?} probes {:?}", o.violation, o.trace, o.ticks, o.checks, o.skipped, o.faults, o.probes); 0 }, Err(e) => { println!("{e}"); 2 } }
        },
        // Development: all distinct violations of a range of runs.
        Some("survey") => {
            let n: u64 = args[2].parse().unwrap();
            let mut seen: BTreeMap<String, (u64, String, u64)> = BTreeMap::new();
            let mut probes: BTreeMap<String, u64> = BTreeMap::new();
            let (mut checks, mut skipped) = (0, 0);
            let base = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
            let show: usize = std::env::var("CMSIM_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
            let mut all = vec![];
            for i in 0..n {
                let seed = seed_of(base, &args[1], i);
                let (p, _) = scenario::plan(&args[1], seed);
                match run_plan(&p) {
                    Ok(o) => {
                        checks += o.checks; skipped += o.skipped;
                        for (k, v) in o.probes { *probes.entry(k).or_default() += v }
                        for (k, v) in o.faults { *probes.entry(format!("fault: {k}")).or_default() += v }
                        if let Some((c, m)) = o.violation {
                            let key = match m.find("at: \"") { Some(p) => format!("{c} {}", &m[p..]), None => c.clone() };
                            if show > 0 { all.push((m.len(), i, m.clone())) }
                            let e = seen.entry(key).or_insert((i, m.clone(), 0));
                            e.2 += 1;
                            if m.len() < e.1.len() { e.0 = i; e.1 = m }
                        }
                    },
                    Err(e) => println!("run {i}: {e}"),
                }
            }
            println!("checks {checks} skipped {skipped} probes {probes:?}");
            all.sort();
            for (_, i, m) in all.iter().take(show) { println!("-- run {i}: {m}") }
            for (k, (i, m, n)) in seen { println!("== {n} x {k}: run {i}: {m}") }
            0
        },
        Some("min") => {
            let seed = seed_of(args.get(3).and_then(|s| s.parse().ok()).unwrap_or(1), &args[1], args[2].parse().unwrap());
            let (p, _) = scenario::plan(&args[1], seed);
            let o = run_plan(&p).unwrap();
            let Some((c, m)) = o.violation else { println!("no violation"); return };
            println!("{m}");
            let (p, o, n) = minimise(&p, &c, Duration::from_secs(60));
            println!("{n} runs: {}\n{:?}", serde_json::to_string(&p).unwrap(), o.violation);
            0
        },
        // Development: blocks that a range of runs does not reach.
        Some("uncovered") => {
            let n: u64 = args[2].parse().unwrap();
            let cover = shared_cover();
            for prop in args[1].split(',') { for i in 0..n {
                let (p, _) = scenario::plan(prop, seed_of(args.get(3).and_then(|s| s.parse().ok()).unwrap_or(1), prop, i));
                let _ = run_plan(&p);
            } }
            for (i, (pc, flags)) in rt::block_pcs().into_iter().enumerate() { if cover.get(i + 1) == Some(&0) { println!("{pc:#x} {flags}") } }
            eprintln!("{} of {} reached", cover.iter().filter(|x| **x != 0).count(), rt::blocks());
            0
        },
        // Many seeds twice, in processes of different worker counts; prints one hash per batch.
        Some("ends") => {
            let n: u64 = args[2].parse().unwrap();
            for i in 0..n {
                let (p, _) = scenario::plan(&args[1], seed_of(1, &args[1], i));
                for e in crate::codegen::ends(&p) { println!("{i} {e}") }
            }
            0
        },
        Some("hashes") => {
            let n: u64 = args[2].parse().unwrap();
            let mut h = 0;
            for i in 0..n {
                let seed = seed_of(1, &args[1], i);
                let (p, _) = scenario::plan(&args[1], seed);
                match run_plan(&p) { Ok(o) => { h = mix(h, o.trace ^ o.ticks << 32 ^ o.steps); if args.len() > 3 { println!("{i} {:x} {} {} {:x?}", o.trace, o.ticks, o.steps, o.inter) } }, Err(e) => println!("{i} {e}") }
            }
            println!("{h:016x}");
            0
        },
        _ => { eprintln!("usage: cmsim check ID TIER | replay FILE"); 2 },
    };
    std::process::exit(code)
}
