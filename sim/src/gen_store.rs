//! Seeded generation of definition histories.
use std::collections::BTreeMap;

use crate::ctx::CtxSpec;
use crate::plan::{Env, Fault, Op, Plan};
use crate::prng::{mix, Rng};
use crate::sched::Schedule;

pub struct Prof {
    pub paste: u32, pub strfy: u32, pub variadic: u32, pub comments: u32, pub junk: u32, pub partial: u32, pub rich: bool,
    pub maxbody: usize,
    /// Texts made up of odd characters.
    pub odd: bool,
}

const OBJ: &[&str] = &["A", "B", "C", "D", "E"];
const FUN: &[&str] = &["F", "G", "H", "K"];
const GLUE: &[&str] = &["AB", "FG", "A1", "BC", "xA"];
const PARAMS: &[&str] = &["a", "b", "c", "A", "F"];
const PLAIN: &[&str] = &["x", "y", "z", "1", "2", "30", "+", "-", "*", "w1"];
const EXTRA: &[&str] = &["\"s\"", "'c'", "[", "]", "{", "}", ".", "->", ";", "1.5f", "0x1F", "\"q\\\"\"", "==", "<", "\"http://a/b\"", "\"/*\"", "\" \"", "\"a  b\"", "/", "'/'", "<<=", "%", "?", ":"];
pub const JUNK: &[&str] = &["", " ", "@", "\\", "\"", "'", "/*", "*/", "//x", "#", "##", "__VA_ARGS__", "...", "é", "\u{1F600}", "0x", "1e", "u8", "L", "u8\"\\377\"",
    "L\"w\"", "u'x'", "\\u00e9", "\0", "a b", "%:", "%:%:", "<:", "1ull", "99999999999999999999999999999999999999999", "''", "\"\\x\"", "defined", "__LINE__", "__FILE__", "__COUNTER__", "\u{0301}", "1'000", ".5", "0b101", "09"];

/// A text that is no token, or only nearly one.
pub fn odd(r: &mut Rng) -> String {
    const CS: &[&str] = &["/", "/", "*", "*", "\"", "'", "\\", "#", ".", "e", "E", "x", "0", "1", "9", "u", "U", "L", "8", "(", ")", "<", ":", "%", ">", "_", "-", "+", "=", "&", "n", " ", "f", "R", "é", "?"];
    if r.pct(30) { return r.pick(&["/*/", "//", "/", "/*", "*/", "/**", "/**/", "/***/", "/*/*/", "//\n", "/ /", "\"\\", "'\\'", "\"\\\"", "##x", "#x", "x##", "0x.p", "1e+", "1.e-", "..", "....", "%:%", "<::", "->*", "u8'", "LR\"", "L'", "\\u12", "\\U0001F600", "\n", "\r", "\u{b}", "\u{85}", "\u{a0}", "\u{2028}", "\\\n"]).to_string() }
    (0..r.range(1, 5)).map(|_| *r.pick(CS)).collect()
}

fn foreign(r: &mut Rng) -> String { if r.pct(35) { odd(r) } else { r.pick(JUNK).to_string() } }

fn arity(f: &str) -> usize { match f { "F" => 1, "G" => 2, "H" => 0, "K" => 3, _ => 1 } }

pub struct Gen<'r> { pub r: &'r mut Rng, pub p: Prof, pub names: Vec<String>, /** latest generated kind of each name */ pub kinds: BTreeMap<String, bool> }

impl<'r> Gen<'r> {
    fn macro_name(&mut self) -> String { let i = self.r.below(self.names.len()); self.names[i].clone() }

    fn args(&mut self, n: usize, params: &[String], depth: usize, out: &mut Vec<String>) {
        for i in 0..n {
            if i > 0 { out.push(",".into()) }
            if self.r.pct(8) { continue }
            for _ in 0..1 + self.r.geo(30, 2) { self.elem(params, depth + 1, out) }
        }
    }

    fn elem(&mut self, params: &[String], depth: usize, out: &mut Vec<String>) {
        let r = self.r.below(100);
        // An ordinary token, outside of the body of a function-like macro.
        if self.p.strfy > 0 && self.r.pct(if params.is_empty() { 1 + depth as u32 * 2 } else { 0 }) { out.push("#".into()); if self.r.pct(60) { return } }
        if self.p.comments > 0 && self.r.pct(self.p.comments) { out.push("/* c */".into()) }
        if self.p.junk > 0 && self.r.pct(self.p.junk) { let t = if self.p.odd { foreign(self.r) } else { self.r.pick(JUNK).to_string() }; out.push(t); return }
        if r < 22 { let n = self.macro_name(); out.push(n) }
        else if r < 45 && depth < 3 {
            let f = if self.r.pct(75) { self.r.pick(FUN).to_string() } else { self.macro_name() };
            let n = if self.r.pct(88) { arity(&f) } else { self.r.below(4) };
            out.push(f);
            out.push("(".into());
            self.args(n, params, depth, out);
            out.push(")".into());
        }
        else if r < 65 && !params.is_empty() { let k = self.r.below(params.len()); out.push(params[k].clone()) }
        else if r < 72 && self.p.partial > 0 && self.r.pct(self.p.partial) {
            let k = self.r.below(7);
            let f = self.r.pick(FUN).to_string();
            match k { 0 => { out.push(f); out.push("(".into()) }, 1 => out.push(")".into()), 2 => out.push("(".into()), 3 => out.push(",".into()),
                4 => { out.push(f); out.push("(".into()); self.elem(params, depth + 1, out); out.push(",".into()) },
                5 => { out.push("1".into()); out.push(")".into()) }, _ => out.push(f) }
        }
        else if r < 80 && depth < 3 {
            let (o, c) = *self.r.pick(&[("(", ")"), ("(", ")"), ("[", "]"), ("{", "}")]);
            out.push(o.into());
            for _ in 0..self.r.below(3) { self.elem(params, depth + 1, out) }
            if self.r.pct(25) { out.push(",".into()); self.elem(params, depth + 1, out) }
            out.push(c.into());
        }
        else if self.p.rich && self.r.pct(25) { let t = if self.r.pct(8) { crate::gen_code::edge(self.r) } else { self.r.pick(EXTRA).to_string() }; out.push(t) }
        else { out.push(self.r.pick(PLAIN).to_string()) }
    }

    fn operand(&mut self, params: &[String]) -> String {
        let r = self.r.below(100);
        if r < 40 && !params.is_empty() { let k = self.r.below(params.len()); return params[k].clone() }
        if r < 70 { return self.macro_name() }
        if r < 92 { return self.r.pick(&["x", "y", "1", "2", "w1", "3"]).to_string() }
        self.r.pick(&["+", "-", "<", "=", "\"s\"", "%", ":", ">", "&", "|", ".", "*", "!", "->"]).to_string()
    }

    pub fn body(&mut self, params: &[String], variadic: bool, is_fn: bool) -> Vec<String> {
        let mut out = vec![];
        let n = if self.r.pct(12) { 0 } else { 1 + self.r.geo(60, self.p.maxbody - 1) };
        let mut params: Vec<String> = params.to_vec();
        if variadic { params.push("__VA_ARGS__".into()) }
        for _ in 0..n {
            if self.p.paste > 0 && self.r.pct(self.p.paste) {
                let o = self.operand(&params);
                out.push(o);
                for _ in 0..1 + self.r.geo(20, 2) { out.push("##".into()); let o = self.operand(&params); out.push(o) }
            } else if is_fn && self.p.strfy > 0 && self.r.pct(self.p.strfy) && !params.is_empty() {
                out.push("#".into());
                let k = self.r.below(params.len());
                out.push(params[k].clone());
            } else { self.elem(&params, 0, &mut out) }
        }
        out
    }

    pub fn params(&mut self, name: &str) -> (Vec<String>, bool) {
        let n = if self.r.pct(90) { arity(name) } else { self.r.below(4) };
        let mut ps: Vec<String> = vec![];
        for i in 0..n {
            let c = if self.r.pct(85) { PARAMS[i % 3] } else { *self.r.pick(PARAMS) };
            if ps.iter().any(|p| p == c) && !self.r.pct(5) { continue }
            ps.push(c.into())
        }
        // Several things wrong at once: which of them is reported must not depend on chance.
        if self.r.pct(3) { for i in 0..self.r.range(2, 4) { ps.push(PARAMS[i].into()); if self.r.pct(70) { ps.insert(0, PARAMS[i].into()) } } self.r.shuffle(&mut ps) }
        let v = self.r.pct(self.p.variadic);
        if v { if ps.len() > 1 && self.r.pct(60) { ps.pop(); } ps.push("...".into()) }
        if self.p.junk > 0 && self.r.pct(self.p.junk) { let k = self.r.below(ps.len() + 1); let j = if self.r.pct(50) { if self.p.odd { foreign(self.r) } else { self.r.pick(JUNK).to_string() } } else { "/* p */".into() }; ps.insert(k, j) }
        (ps, v)
    }

    pub fn def(&mut self, set: usize) -> Op {
        let name = self.macro_name();
        self.def_of(set, name)
    }

    pub fn def_of(&mut self, set: usize, name: String) -> Op {
        let funny = self.r.pct(12);
        let is_fn = FUN.contains(&name.as_str()) != funny;
        self.kinds.insert(name.clone(), is_fn);
        if is_fn {
            let (args, v) = self.params(&name);
            let ps: Vec<String> = args.iter().filter(|a| *a != "...").cloned().collect();
            let body = self.body(&ps, v, true);
            Op::DefFn { set, name, args, body, fault: None }
        } else {
            let body = self.body(&[], false, false);
            Op::DefVar { set, name, body, fault: None }
        }
    }

    pub fn read(&mut self, set: usize, gen: Option<usize>) -> Op {
        let r = self.r.below(100);
        if r < 45 { let mut toks = vec![]; for _ in 0..1 + self.r.geo(60, 4) { self.elem(&[], 0, &mut toks) } Op::Expand { set, toks, fault: None } }
        else {
            let name = if self.r.pct(95) { self.macro_name() } else { "NOPE".into() };
            let f = match self.kinds.get(&name) { Some(k) if self.r.pct(75) => *k, _ => FUN.contains(&name.as_str()) != self.r.pct(15) };
            if f { Op::ExpandFn { set, name, gen, fault: None } } else { Op::ExpandVar { set, name, gen, fault: None } }
        }
    }
}

fn names(r: &mut Rng, glue: bool) -> Vec<String> {
    let mut v: Vec<String> = OBJ[..r.range(2, OBJ.len())].iter().chain(&FUN[..r.range(1, FUN.len())]).map(|s| s.to_string()).collect();
    if glue || r.pct(15) { for g in GLUE { if r.pct(50) { v.push(g.to_string()) } } }
    v
}

pub fn env(r: &mut Rng) -> Env {
    let mean = *r.pick(&[0u64, 8, 30, 30, 120, 120, 400, 400, 1500, 6000]);
    Env { hash_key: r.next(), clock: (r.next() % 4_000_000_000) as i64 * 1_000_000_000 - 1_000_000_000_000_000_000, pad: r.next() % 1000, order: 0, thread_per_op: false,
        sched: Schedule::Seeded { seed: r.next(), mean } }
}

/// A context that knows some of everything that can occur in expansions.
pub fn some_ctx(r: &mut Rng, names: &[String]) -> CtxSpec {
    let mut c = CtxSpec::default();
    let tys = ["c_int", "c_uint", "u32", "f64", "*const c_char", "*mut c_void", "MyT"];
    if r.pct(40) { c.ffi_prefix = Some(r.pick(&["::core::ffi", "libc"]).to_string()); }
    if r.pct(40) { c.trait_prefix = Some("::core".into()) }
    if r.pct(30) { c.rust_target = Some(r.pick(&["1.16.0", "1.40.0", "1.70.0", "nightly"]).to_string()) }
    for n in names { for a in PARAMS { if r.pct(50) { c.args.push((n.clone(), a.to_string(), r.pick(&tys).to_string())) } } }
    for v in ["x", "y", "z", "w1", "A", "B", "F"] { if r.pct(50) { c.enums.push((v.into(), r.pick(&tys).to_string(), format!("E::{v}"))) } }
    for f in ["x", "F", "G", "H"] { if r.pct(25) { c.fns.push((f.into(), vec!["c_int".into(); arity(f)], r.pick(&tys).to_string())) } }
    c
}

fn write_fault(r: &mut Rng, op: &mut Op) {
    let (na, nb) = match op { Op::DefVar { body, .. } => (0, body.len()), Op::DefFn { args, body, .. } => (args.len(), body.len()), _ => return };
    let f = match r.below(10) {
        0..=4 => Fault::Alloc { at: 1 + r.below(4 + na + nb + 6) as u64 },
        5..=6 => { let l = if na > 0 && r.pct(40) { 0u8 } else { 1 }; Fault::Item { list: l, at: r.below(if l == 0 { na } else { nb } + 1) as u32 } },
        7..=8 => { let l = if na > 0 && r.pct(40) { 0u8 } else { 1 }; Fault::Text { list: l, at: r.below((if l == 0 { na } else { nb }).max(1)) as u32 } },
        _ => Fault::Text { list: 2, at: 0 },
    };
    match op { Op::DefVar { fault, .. } | Op::DefFn { fault, .. } => *fault = Some(f), _ => () }
}

/// Variation of an earlier definition: equal, blank space or comments only, prefix, extension, one token changed, kind changed.
fn vary(r: &mut Rng, op: &Op) -> Op {
    let mut op = op.clone();
    let ws = [" ", "/* n */", "\t", "/**/", "//k", "\n", "// \"s\"", "/* // */", "  "];
    let edit = |r: &mut Rng, v: &mut Vec<String>| {
        match r.below(13) {
            0 => (),
            1 | 2 => { let k = r.below(v.len() + 1); v.insert(k, r.pick(&ws).to_string()) },
            3 => { v.pop(); },
            4 => v.push(r.pick(&["x", "1", ")", "A"]).to_string()),
            5 => if !v.is_empty() { let k = r.below(v.len()); v[k] = r.pick(&["x", "y", "2", "+", "A"]).to_string() },
            // The same text in other tokens.
            6 => if v.len() > 1 { let k = r.below(v.len() - 1); let t = v.remove(k); v[k] = format!("{t}{}", v[k]) },
            7 => if let Some(k) = (0..v.len()).find(|&k| v[k].len() > 1 && v[k].is_ascii()) { let at = r.range(1, v[k].len() - 1); let t = v[k].split_off(at); v.insert(k + 1, t) },
            // Texts that look like comments or blank space only in part.
            8 | 9 => {
                let n = |r: &mut Rng| r.pick(&["a", "b", "", " ", "  "]).to_string();
                let (a, b) = (n(r), n(r));
                let t = match r.below(6) { 0 => format!("\"{a}//{b}\""), 1 => format!("\"/*{a}*/\""), 2 => format!("\"{a}\""), 3 => format!("\"{a} {b}\""), 4 => "'/'".into(), _ => "/".into() };
                if !v.is_empty() && r.pct(70) { let k = r.below(v.len()); v[k] = t } else { v.push(t) }
            },
            // One character.
            10 => if !v.is_empty() {
                let k = r.below(v.len());
                let mut cs: Vec<char> = v[k].chars().collect();
                if cs.is_empty() { return }
                let i = r.below(cs.len());
                match r.below(4) { 0 => cs[i] = *r.pick(&['x', 'b', '7', '_']), 1 => cs[i] = if cs[i].is_ascii_uppercase() { cs[i].to_ascii_lowercase() } else { cs[i].to_ascii_uppercase() }, 2 => cs.push('1'), _ => { let c = cs[i]; cs.insert(i, c) } }
                v[k] = cs.into_iter().collect();
            },
            11 => if !v.is_empty() { let k = r.below(v.len()); let t = v[k].clone(); v.insert(k, t) },
            _ => if v.len() > 1 { let k = r.below(v.len() - 1); v.swap(k, k + 1) },
        }
    };
    match &mut op {
        Op::DefVar { body, fault, .. } => { *fault = None; for _ in 0..r.range(0, 2) { edit(r, body) } },
        Op::DefFn { args, body, fault, .. } => { *fault = None; if r.pct(35) { edit(r, args) } for _ in 0..r.range(0, 2) { edit(r, body) } },
        _ => (),
    }
    // The same tokens, divided between parameters and body elsewhere.
    if let (Op::DefFn { args, body, .. }, true) = (&mut op, r.pct(6)) {
        if r.pct(50) { if let Some(t) = args.pop() { body.insert(0, t) } } else if !body.is_empty() { let t = body.remove(0); args.push(t) }
    }
    if r.pct(12) {
        op = match op {
            Op::DefVar { set, name, body, .. } => Op::DefFn { set, name, args: vec![], body, fault: None },
            Op::DefFn { set, name, body, .. } => Op::DefVar { set, name, body, fault: None },
            o => o,
        }
    }
    op
}

/// Names that are alike in one way or another.
fn family(r: &mut Rng) -> Vec<String> {
    let long = "long_".repeat(*r.pick(&[1, 3, 6, 13, 51]));
    match r.below(9) {
        // A long common start, or end.
        0 => (0..24).map(|i| format!("{long}{i}")).collect(),
        1 => (0..24).map(|i| format!("n{i}_{long}")).collect(),
        // Upper and lower case.
        2 => (0..32u32).map(|k| "abcde".chars().enumerate().map(|(i, c)| if k >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect()).collect(),
        // The same characters, and the same sums of them.
        3 => { let mut v: Vec<String> = vec![]; for a in 0..4 { for b in 0..4 { for c in 0..4 { if a != b && b != c && a != c { v.push([a, b, c, 6 - a - b - c].iter().map(|i| ["p", "q", "r", "s"][*i]).collect()) } } } } v },
        4 => (0..32u32).map(|k| (0..5).map(|i| if k >> i & 1 == 1 { "Aa" } else { "BB" }).collect()).collect(),
        // Each the start of the next.
        5 => (1..25).map(|i| "n".repeat(i)).collect(),
        // Likewise, around lengths that some compilers stop at.
        6 => { let mut v = vec![]; for b in [8usize, 16, 31, 63, 127, 255] { for l in b - 1..b + 3 { v.push(format!("n{}", "0123456789".repeat(26))[..l].into()) } } v },
        // Underscores and digits around the same name.
        7 => (0..24u32).map(|k| format!("{}name{}{}", ["", "_", "__"][k as usize % 3], ["", "_", "1", "_1"][k as usize / 3 % 4], if k < 12 { "" } else { "_" })).collect(),
        // Composed and decomposed characters.
        _ => (0..24u32).map(|k| format!("{}{}n{}", if k & 1 == 0 { "\u{e9}" } else { "e\u{301}" }, if k & 2 == 0 { "\u{c4}" } else { "A\u{308}" }, k / 4)).collect(),
    }
}

/// Identifiers of all sorts in place of the standard ones.
fn rename(r: &mut Rng, plan: &mut Plan) {
    const POOL: &[&str] = &["a", "b1", "_", "__", "_A", "Ab", "aB", "A_B", "A0", "very_long_name_of_a_macro_with_many_words_in_it_0123456789", "another_very_long_name_of_a_macro_with_many_words_in_it_012345678",
        "int", "if", "NULL", "std", "self", "e", "E1", "p", "f", "ll", "U", "u", "L", "é", "Ω1", "main", "MAX", "min", "a_", "aa", "aaa", "AAAA", "xX", "_1", "k", "K2", "const", "sizeof", "do"];
    let mut pool: Vec<String> = POOL.iter().map(|s| s.to_string()).collect();
    if r.pct(40) { pool = family(r) }
    r.shuffle(&mut pool);
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    for n in OBJ.iter().chain(FUN).chain(&["a", "b", "c", "x", "y", "z", "w1", "NOPE"]) { if r.pct(70) { if let Some(p) = pool.pop() { m.insert(n.to_string(), p); } } }
    let get = |n: &str| m.get(n).cloned().unwrap_or_else(|| n.to_string());
    let glued: Vec<(String, String)> = [("AB", "A", "B"), ("FG", "F", "G"), ("A1", "A", "1"), ("BC", "B", "C"), ("xA", "x", "A")].iter().map(|(g, a, b)| (g.to_string(), get(a) + &get(b))).collect();
    m.extend(glued);
    let one = |s: &mut String| if let Some(t) = m.get(s) { *s = t.clone() };
    let ops = plan.setup.iter_mut().chain(plan.clients.iter_mut().flatten());
    for op in ops {
        match op {
            Op::DefVar { name, body, .. } => { one(name); body.iter_mut().for_each(one) },
            Op::DefFn { name, args, body, .. } => { one(name); args.iter_mut().for_each(one); body.iter_mut().for_each(one) },
            Op::UndefVar { name, .. } | Op::UndefFn { name, .. } | Op::ExpandVar { name, .. } | Op::ExpandFn { name, .. } => one(name),
            Op::Expand { toks, .. } => toks.iter_mut().for_each(one),
            _ => (),
        }
    }
    for c in &mut plan.ctxs {
        for a in &mut c.args { one(&mut a.0); one(&mut a.1) }
        for e in &mut c.enums { one(&mut e.0) }
        for f in &mut c.fns { one(&mut f.0) }
    }
}

/// Definitions larger than usual, and reads of them: long chains and rings, many parameters, long bodies.
fn large(r: &mut Rng, plan: &mut Plan) {
    let s = |t: &str| t.to_string();
    let n = *r.pick(&[6usize, 9, 17, 33, 66]);
    let var = |name: String, body: Vec<String>| Op::DefVar { set: 0, name, body, fault: None };
    let fun = |name: String, args: Vec<String>, body: Vec<String>| Op::DefFn { set: 0, name, args, body, fault: None };
    let gen = if plan.ctxs.is_empty() { None } else { Some(0) };
    let mut defs = vec![];
    let mut reads = vec![];
    match r.below(5) {
        // A chain, or a ring, of variable-like macros.
        0 => {
            let ring = r.pct(40);
            for i in 0..n { defs.push(var(format!("Q{i}"), if i + 1 < n { vec![format!("Q{}", i + 1), s("+"), format!("{i}")] } else if ring { vec![s("Q0")] } else { vec![s("A")] })) }
            let k = r.below(n);
            reads.push(Op::ExpandVar { set: 0, name: format!("Q{k}"), gen, fault: None });
        },
        // A chain, or a ring, of function-like macros.
        1 => {
            let ring = r.pct(40);
            for i in 0..n { defs.push(fun(format!("Q{i}"), vec![s("a")], if i + 1 < n { vec![format!("Q{}", i + 1), s("("), s("a"), s(")")] } else if ring { vec![s("Q0"), s("("), s("a"), s(")")] } else { vec![s("a"), s("A")] })) }
            reads.push(Op::Expand { set: 0, toks: vec![format!("Q{}", r.below(n)), s("("), s("B"), s(")")], fault: None });
            reads.push(Op::ExpandFn { set: 0, name: format!("Q{}", r.below(n)), gen, fault: None });
        },
        // Many parameters.
        2 => {
            let variadic = r.pct(30);
            let mut args: Vec<String> = (0..n).map(|i| format!("p{i}")).collect();
            let mut body = vec![];
            for i in (0..n).rev() { body.push(args[i].clone()); body.push(s("+")) }
            if variadic { args.push(s("...")); body.push(s("__VA_ARGS__")) } else { body.pop(); }
            defs.push(fun(s("Q0"), args, body));
            let given = if r.pct(80) { n } else { r.range(n - 2, n + 2) };
            let mut toks = vec![s("Q0"), s("(")];
            for i in 0..given { if i > 0 { toks.push(s(",")) } if !r.pct(10) { toks.push(if r.pct(20) { s("A") } else { format!("{i}") }) } }
            toks.push(s(")"));
            reads.push(Op::Expand { set: 0, toks, fault: None });
            reads.push(Op::ExpandFn { set: 0, name: s("Q0"), gen, fault: None });
        },
        // A long body.
        3 => {
            let mut body = vec![];
            for i in 0..n * 3 { body.push(r.pick(&["x", "1", "A", "w1"]).to_string()); body.push(r.pick(&["+", "*", "-"]).to_string()); let _ = i; }
            body.pop();
            if r.pct(50) { defs.push(var(s("Q0"), body)); reads.push(Op::ExpandVar { set: 0, name: s("Q0"), gen, fault: None }) }
            else { defs.push(fun(s("Q0"), vec![s("x")], body)); reads.push(Op::ExpandFn { set: 0, name: s("Q0"), gen, fault: None }); reads.push(Op::Expand { set: 0, toks: vec![s("Q0"), s("("), s("B"), s(")")], fault: None }) }
        },
        // Deeply nested calls and parentheses.
        _ => {
            let n = n.min(20);
            defs.push(fun(s("Q0"), vec![s("a")], vec![s("a"), s("+"), s("1")]));
            let mut toks = vec![];
            for _ in 0..n { if r.pct(80) { toks.push(s("Q0")) } toks.push(s("(")) }
            toks.push(s("A"));
            for _ in 0..n { toks.push(s(")")) }
            reads.push(Op::Expand { set: 0, toks, fault: None });
        },
    }
    if r.pct(25) { r.shuffle(&mut defs) }
    plan.setup.extend(defs.clone());
    if plan.clients.is_empty() { return }
    for _ in 0..2 { for x in &reads { let c = r.below(plan.clients.len()); let k = r.below(plan.clients[c].len() + 1); plan.clients[c].insert(k, x.clone()) } }
    // And changes of one of them.
    if matches!(plan.prop.as_str(), "P01" | "P02" | "P03" | "P05" | "P12") {
        let d = r.pick(&defs).clone();
        let d = vary(r, &d);
        let k = r.below(plan.clients[0].len() + 1);
        plan.clients[0].insert(k, d);
    }
}

/// Macros that code can be generated for, and reads of them.
fn mix_code(r: &mut Rng, plan: &mut Plan) {
    let n = r.range(1, 4);
    let (ms, cx) = crate::gen_code::header(r, n);
    match plan.ctxs.first_mut() {
        Some(c) => { c.args.extend(cx.args); c.enums.extend(cx.enums); c.tys.extend(cx.tys); c.fields.extend(cx.fields); c.fns.extend(cx.fns); },
        None => plan.ctxs.push(cx),
    }
    let mut reads = vec![];
    for m in &ms {
        match &m.args {
            Some(a) => {
                plan.setup.push(Op::DefFn { set: 0, name: m.name.clone(), args: a.clone(), body: crate::codegen::plain_text(&m.body, a), fault: None });
                reads.push(Op::ExpandFn { set: 0, name: m.name.clone(), gen: Some(0), fault: None });
            },
            None => {
                plan.setup.push(Op::DefVar { set: 0, name: m.name.clone(), body: crate::codegen::plain_text(&m.body, &[]), fault: None });
                reads.push(Op::ExpandVar { set: 0, name: m.name.clone(), gen: Some(0), fault: None });
            },
        }
    }
    if plan.clients.is_empty() { return }
    for _ in 0..r.range(2, 8) {
        let mut x = r.pick(&reads).clone();
        if plan.prop == "P04" && r.pct(25) { read_fault(r, &mut x) }
        let c = r.below(plan.clients.len());
        let k = r.below(plan.clients[c].len() + 1);
        plan.clients[c].insert(k, x);
    }
}

/// Several callers, each generating code for another target.
fn more_ctxs(r: &mut Rng, plan: &mut Plan) {
    let Some(first) = plan.ctxs.first().cloned() else { return };
    for _ in 0..r.range(1, 2) {
        let mut c = first.clone();
        c.rust_target = match r.below(8) { 0 => None, 1 => Some("nightly".into()), _ => Some(r.pick(&["1.16.0", "1.40.0", "1.70.0", "1.58.0", "1.17.0"]).to_string()) };
        if r.pct(40) { c.ffi_prefix = if r.pct(70) { Some(r.pick(&["::core::ffi", "libc", "::std::os::raw"]).to_string()) } else { None } }
        if r.pct(40) { c.trait_prefix = if r.pct(70) { Some(r.pick(&["::core", "::std", "core"]).to_string()) } else { None } }
        if r.pct(40) { for _ in 0..r.range(1, 6) {
            if r.pct(50) { if !c.args.is_empty() { let k = r.below(c.args.len()); c.args.remove(k); } }
            else if r.pct(50) { if !c.enums.is_empty() { let k = r.below(c.enums.len()); c.enums.remove(k); } }
            else if !c.fns.is_empty() { let k = r.below(c.fns.len()); c.fns.remove(k); }
        } }
        plan.ctxs.push(c);
    }
    // What is generated depends on the target for strings.
    if r.pct(70) {
        let name = "STR".to_string();
        let body = match r.below(4) { 0 => vec!["\"a\"", "\"b\""], 1 => vec!["L\"wide\""], 2 => vec!["(", "const", "char", "*", ")", "\"s\""], _ => vec!["\"text\""] };
        plan.setup.push(Op::DefVar { set: 0, name: name.clone(), body: body.iter().map(|s| s.to_string()).collect(), fault: None });
        for c in &mut plan.clients { for _ in 0..r.below(4) { let k = r.below(c.len() + 1); c.insert(k, Op::ExpandVar { set: 0, name: name.clone(), gen: Some(0), fault: None }) } }
    }
    let n = plan.ctxs.len();
    let own = r.pct(50);
    for (i, c) in plan.clients.iter_mut().enumerate() {
        for op in c { if let Op::ExpandVar { gen: Some(g), .. } | Op::ExpandFn { gen: Some(g), .. } = op { *g = if own { i % n } else { r.below(n) } } }
    }
}

fn read_fault(r: &mut Rng, op: &mut Op) {
    let f = match r.below(10) { 0..=4 => Fault::Alloc { at: 1 + r.below(60) as u64 }, 5 | 6 => Fault::GenAlloc { at: 1 + r.geo(97, 400) as u64 }, _ => Fault::Callback { at: r.below(8) as u32 } };
    match op { Op::ExpandVar { fault, .. } | Op::ExpandFn { fault, .. } | Op::Expand { fault, .. } => *fault = Some(f), _ => () }
}

/// Stream damage applied to a delivered definition.
pub fn damage(r: &mut Rng, v: &mut Vec<String>, faults: &mut Vec<&'static str>) {
    for _ in 0..1 + r.geo(35, 3) {
        if v.is_empty() { v.push(foreign(r)); faults.push("foreign token"); continue }
        let k = r.below(v.len());
        match r.below(7) {
            0 => { v.remove(k); faults.push("token lost") },
            1 => { let t = v[k].clone(); v.insert(k, t); faults.push("token duplicated") },
            2 => { let j = r.below(v.len()); v.swap(k, j); faults.push("tokens reordered") },
            3 => { v.insert(k, foreign(r)); faults.push("foreign token") },
            4 => { v.truncate(k); faults.push("stream truncated") },
            5 => { let mut cs: Vec<char> = v[k].chars().collect(); if cs.is_empty() { continue } let i = r.below(cs.len()); match r.below(3) { 0 => { cs.remove(i); }, 1 => cs[i] = *r.pick(&['#', '"', '\\', '0', 'x', '\'', 'é', '.', '\n', '(']), _ => { let c = cs[i]; cs.insert(i, c) } } v[k] = cs.into_iter().collect(); faults.push("token corrupted") },
            _ => { let t = v.remove(k); if k < v.len() { v[k] = format!("{t}{}", v[k]) } faults.push("tokens merged") },
        }
    }
}

pub fn plan(prop: &str, seed: u64) -> (Plan, Vec<&'static str>) {
    let mut rng = Rng::new(mix(seed, 0xA11CE));
    let r = &mut rng;
    let mut faults: Vec<&'static str> = vec![];
    let mut plan = Plan { prop: prop.into(), seed, flavour: String::new(), envs: vec![], setup: vec![], clients: vec![], ctxs: vec![], macros: vec![], attempts: vec![], leak: None };
    let prof = |paste, strfy, variadic, comments, junk, partial, rich, maxbody| Prof { paste, strfy, variadic, comments, junk, partial, rich, maxbody, odd: prop == "P10" };
    match prop {
        "P01" | "P02" | "P03" => {
            let ns = names(r, false);
            let p = if r.pct(60) { prof(3, 3, 8, 4, 0, 40, false, 4) } else { prof(10, 10, 15, 4, 2, 40, true, 5) };
            let nclients = if prop == "P02" { r.range(1, 3) } else { r.range(1, 4) };
            let total = r.range(6, 40);
            let mut g = Gen { r, p, names: ns.clone(), kinds: BTreeMap::new() };
            for _ in 0..g.r.below(8) { let d = g.def(0); plan.setup.push(d) }
            // Filler, so that the store grows over its capacity steps.
            if g.r.pct(if prop == "P03" { 60 } else { 15 }) {
                let n = *g.r.pick(&[1usize, 3, 7, 14, 28, 56]);
                for i in 0..n { let body = vec![format!("{i}")]; let name = format!("Z{i}"); plan.setup.push(if g.r.pct(50) { Op::DefVar { set: 0, name, body, fault: None } } else { Op::DefFn { set: 0, name, args: vec![], body, fault: None } }) }
            }
            let mut defs: Vec<Op> = plan.setup.clone();
            let mut clients = vec![vec![]; nclients];
            for _ in 0..total {
                let c = g.r.below(nclients);
                let w = g.r.below(100);
                let (wd, wu) = match prop { "P02" => (70, 90), "P03" => (55, 62), _ => (35, 50) };
                let op = if w < wd {
                    let mut d = if !defs.is_empty() && g.r.pct(if prop == "P02" { 65 } else { 20 }) { let k = g.r.below(defs.len()); let d = defs[k].clone(); vary(g.r, &d) } else { g.def(0) };
                    if prop == "P03" && g.r.pct(55) { write_fault(g.r, &mut d) }
                    defs.push(d.clone());
                    d
                } else if w < wu {
                    let k = g.r.below(ns.len());
                    if FUN.contains(&ns[k].as_str()) != g.r.pct(25) { Op::UndefFn { set: 0, name: ns[k].clone() } } else { Op::UndefVar { set: 0, name: ns[k].clone() } }
                } else { g.read(0, None) };
                clients[c].push(op)
            }
            plan.clients = clients;
        },
        "P04" => {
            let ns = names(r, false);
            let p = prof(6, 5, 10, 4, 0, 40, true, 4);
            let nclients = r.range(2, 5);
            let ctx = some_ctx(r, &ns);
            plan.ctxs.push(ctx);
            let writers = r.pct(50);
            let mut g = Gen { r, p, names: ns.clone(), kinds: BTreeMap::new() };
            for n in ns.clone() { if g.r.pct(85) { let d = g.def_of(0, n); plan.setup.push(d) } }
            let hot: Vec<Op> = (0..g.r.range(1, 4)).map(|_| g.read(0, Some(0))).collect();
            for k in 0..nclients {
                let mut ops = vec![];
                for _ in 0..g.r.range(2, 9) {
                    let mut op = if writers && k == 0 && g.r.pct(60) { g.def(0) } else if g.r.pct(50) { let i = g.r.below(hot.len()); hot[i].clone() } else { g.read(0, Some(0)) };
                    if g.r.pct(18) { read_fault(g.r, &mut op) }
                    ops.push(op)
                }
                plan.clients.push(ops)
            }
            // Readers that keep asking the same few things, most of them in vain: what a read leaves behind adds up.
            if g.r.pct(2) {
                plan.flavour = "storm".into();
                let mut bad: Vec<Op> = vec![];
                for n in ["G", "K", "F"] {
                    let toks: Vec<&str> = match g.r.below(6) { 0 => vec![n, "("], 1 => vec![n, "(", "1", ",", "2", ",", "3", ",", "4", ")"], 2 => vec!["A", "+", n, "(", "B"], 3 => vec![n, "(", "F", "(", ")", ")"], 4 => vec!["A", "##", "B"], _ => vec![")", "(", n, "("] };
                    bad.push(Op::Expand { set: 0, toks: toks.into_iter().map(|s| s.to_string()).collect(), fault: None });
                }
                bad.push(Op::ExpandVar { set: 0, name: "NOPE".into(), gen: None, fault: None });
                for _ in 0..g.r.below(4) { bad.push(g.read(0, None)) }
                bad.extend(hot.iter().cloned());
                if g.r.pct(40) { for b in &mut bad { if g.r.pct(50) { read_fault(g.r, b) } } }
                let k = g.r.range(1, nclients);
                let n = *g.r.pick(&[80usize, 200, 400]);
                let few = g.r.range(1, bad.len());
                for c in 0..k { for _ in 0..n / k { let b = bad[g.r.below(few)].clone(); plan.clients[c].push(b) } }
                for c in 0..nclients { for h in &hot { plan.clients[c].push(h.clone()) } }
            }
        },
        "P05" => {
            let ns = names(r, false);
            let p = prof(4, 4, 8, 4, 0, 40, false, 4);
            let nclients = r.range(1, 4);
            let mut g = Gen { r, p, names: ns.clone(), kinds: BTreeMap::new() };
            for n in ns.clone() { if g.r.pct(70) { let d = g.def_of(0, n); plan.setup.push(d) } }
            let mut next = 1;
            for _ in 0..g.r.below(3) { plan.setup.push(Op::Clone { set: g.r.below(next), to: next, fault: None }); next += 1 }
            let mut clients = vec![vec![]; nclients];
            for _ in 0..g.r.range(8, 36) {
                let c = g.r.below(nclients);
                let s = g.r.below(next);
                let w = g.r.below(100);
                let op = if w < 12 {
                        let over = s + 1 < next && g.r.pct(35);
                        let to = if over { g.r.range(s + 1, next - 1) } else { next };
                        if to >= 8 { g.read(s, None) } else {
                            next = next.max(to + 1);
                            Op::Clone { set: s, to, fault: if g.r.pct(8) { Some(Fault::Alloc { at: g.r.range(1, 30) as u64 }) } else { None } }
                        }
                    }
                    else if w < 17 { Op::Drop { set: s } }
                    else if w < 45 { let mut d = g.def(s); if g.r.pct(12) { write_fault(g.r, &mut d) } d }
                    else if w < 55 { let n = g.macro_name(); if FUN.contains(&n.as_str()) != g.r.pct(20) { Op::UndefFn { set: s, name: n } } else { Op::UndefVar { set: s, name: n } } }
                    else { g.read(s, None) };
                clients[c].push(op)
            }
            plan.clients = clients;
        },
        "P06" => {
            let ns = names(r, true);
            let p = prof(8, 6, 10, 4, 1, 40, true, 4);
            let ctx = some_ctx(r, &ns);
            plan.ctxs.push(ctx);
            let mut g = Gen { r, p, names: ns.clone(), kinds: BTreeMap::new() };
            for n in ns.clone() { if g.r.pct(85) { let d = g.def_of(0, n); plan.setup.push(d) } }
            let nc = g.r.range(1, 4);
            for _ in 0..nc { let ops = (0..g.r.range(2, 8)).map(|_| g.read(0, Some(0))).collect(); plan.clients.push(ops) }
        },
        "P08" | "P09" => {
            let glue = prop == "P09";
            let ns = names(r, glue);
            let p = if prop == "P08" { prof(0, 0, 6, if r.pct(20) { 6 } else { 0 }, 0, 60, r.pct(30), *r.pick(&[2, 3, 5])) } else { prof(35, 18, 35, if r.pct(10) { 5 } else { 0 }, 0, 20, r.pct(20), *r.pick(&[2, 3])) };
            let mut g = Gen { r, p, names: ns.clone(), kinds: BTreeMap::new() };
            for n in ns.clone() { if g.r.pct(92) { let d = g.def_of(0, n); plan.setup.push(d) } }
            let nc = g.r.range(1, 2);
            for c in 0..nc {
                let mut ops = vec![];
                for _ in 0..g.r.range(4, 16) {
                    let w = g.r.below(100);
                    ops.push(if c == 0 && w < 25 { g.def(0) } else if c == 0 && w < 32 { let n = g.macro_name(); if FUN.contains(&n.as_str()) { Op::UndefFn { set: 0, name: n } } else { Op::UndefVar { set: 0, name: n } } } else { g.read(0, None) })
                }
                plan.clients.push(ops)
            }
        },
        "P10" => {
            let ns = names(r, true);
            let p = prof(12, 8, 15, 5, if r.pct(50) { 12 } else { 0 }, 60, true, *r.pick(&[2, 4, 6]));
            let mut g = Gen { r, p, names: ns.clone(), kinds: BTreeMap::new() };
            let mut ops = vec![];
            for n in ns.clone() { if g.r.pct(85) { ops.push(g.def_of(0, n)) } else { faults.push("definition lost") } }
            for _ in 0..g.r.range(2, 12) {
                let w = g.r.below(100);
                ops.push(if w < 30 { g.def(0) } else if w < 36 { let n = g.macro_name(); Op::UndefFn { set: 0, name: n } } else { g.read(0, None) })
            }
            if g.r.pct(30) { let k = g.r.below(ops.len()); let j = g.r.below(ops.len()); ops.swap(k, j); faults.push("definitions reordered") }
            for op in &mut ops {
                if !g.r.pct(45) { continue }
                match op {
                    Op::DefVar { body, name, .. } => { if g.r.pct(5) { *name = foreign(g.r) } damage(g.r, body, &mut faults) },
                    Op::DefFn { args, body, .. } => { if g.r.pct(40) { damage(g.r, args, &mut faults) } damage(g.r, body, &mut faults) },
                    Op::Expand { toks, .. } => damage(g.r, toks, &mut faults),
                    _ => (),
                }
            }
            // The same definition again, as it was or nearly.
            if g.r.pct(60) {
                for _ in 0..g.r.range(1, 4) {
                    let k = g.r.below(ops.len());
                    if !matches!(ops[k], Op::DefVar { .. } | Op::DefFn { .. }) { continue }
                    let d = if g.r.pct(50) { ops[k].clone() } else { let d = ops[k].clone(); vary(g.r, &d) };
                    let at = g.r.range(k + 1, ops.len());
                    ops.insert(at, d);
                    faults.push("definition duplicated")
                }
            }
            for n in &ns { ops.push(Op::ExpandVar { set: 0, name: n.clone(), gen: None, fault: None }); ops.push(Op::ExpandFn { set: 0, name: n.clone(), gen: None, fault: None }) }
            plan.clients.push(ops)
        },
        "P12" => {
            let ns = names(r, false);
            let p = prof(5, 5, 8, 4, 0, 30, true, 4);
            let ctx = some_ctx(r, &ns);
            plan.ctxs.push(ctx);
            let mut g = Gen { r, p, names: ns.clone(), kinds: BTreeMap::new() };
            for n in ns.clone() { if g.r.pct(92) { let d = g.def_of(0, n); plan.setup.push(d) } }
            let lists: Vec<Op> = (0..g.r.range(1, 5)).map(|_| g.read(0, Some(0))).collect();
            let mut ops = vec![Op::Check { set: 0 }];
            ops.extend(lists.iter().cloned());
            for _ in 0..g.r.range(1, 3) {
                let mut hit = vec![];
                for _ in 0..1 + g.r.geo(30, 2) {
                    let k = g.r.below(ns.len());
                    let n = ns[k].clone();
                    hit.push(n.clone());
                    match g.r.below(4) {
                        0 => { ops.push(Op::UndefVar { set: 0, name: n.clone() }); ops.push(Op::UndefFn { set: 0, name: n }); faults.push("definition lost") },
                        1 => { ops.push(g.def_of(0, n)); faults.push("definition replaced") },
                        _ => {
                            let mut d = plan.setup.iter().find(|d| matches!(d, Op::DefVar { name, .. } | Op::DefFn { name, .. } if *name == n)).cloned().unwrap_or_else(|| g.def_of(0, n.clone()));
                            match &mut d { Op::DefVar { body, .. } => damage(g.r, body, &mut faults), Op::DefFn { args, body, .. } => { if g.r.pct(30) { damage(g.r, args, &mut faults) } damage(g.r, body, &mut faults) }, _ => () }
                            ops.push(d);
                        },
                    }
                }
                ops.push(Op::Check { set: 0 });
                ops.extend(lists.iter().cloned());
                if g.r.pct(75) {
                    for n in hit {
                        match plan.setup.iter().find(|d| matches!(d, Op::DefVar { name, .. } | Op::DefFn { name, .. } if *name == n)).cloned() {
                            Some(d) => ops.push(d),
                            None => { ops.push(Op::UndefVar { set: 0, name: n.clone() }); ops.push(Op::UndefFn { set: 0, name: n }) },
                        }
                    }
                    ops.push(Op::Check { set: 0 });
                    ops.extend(lists.iter().cloned());
                }
            }
            plan.clients.push(ops);
            if g.r.pct(40) { plan.clients.push((0..g.r.range(1, 8)).map(|_| { let k = g.r.below(lists.len()); lists[k].clone() }).collect()) }
        },
        _ => panic!("no generator for {prop}"),
    }
    if r.pct(match prop { "P02" | "P03" => 4, "P08" | "P09" | "P10" => 5, _ => 8 }) { large(r, &mut plan) }
    if matches!(prop, "P04" | "P06" | "P12") && r.pct(35) { mix_code(r, &mut plan) }
    if matches!(prop, "P04" | "P06") && r.pct(50) { more_ctxs(r, &mut plan) }
    if r.pct(30) {
        rename(r, &mut plan);
        if prop == "P06" {
            // Names may have become the same, and then the order of the definitions matters.
            let name = |o: &Op| match o { Op::DefVar { name, .. } | Op::DefFn { name, .. } => Some(name.clone()), _ => None };
            let mut seen = std::collections::BTreeSet::new();
            plan.setup.retain(|o| name(o).map_or(true, |n| seen.insert(n)));
        }
    }
    let mut e = env(r);
    if prop == "P06" {
        let base = e.clone();
        plan.envs.push(base.clone());
        for k in 1..r.range(2, 4) {
            let mut e = env(r);
            // Vary one thing or everything.
            match r.below(6) {
                0 => e = Env { hash_key: e.hash_key, ..base.clone() },
                1 => e = Env { clock: e.clock, ..base.clone() },
                2 => e = Env { pad: e.pad + 1, ..base.clone() },
                3 => e = Env { sched: e.sched, ..base.clone() },
                4 => e = Env { order: r.next() | 1, ..base.clone() },
                _ => e.order = r.next() | 1,
            }
            let _ = k;
            plan.envs.push(e);
        }
    } else {
        if plan.clients.len() == 1 { if let Schedule::Seeded { mean, .. } = &mut e.sched { *mean = 0 } }
        plan.envs.push(e)
    }
    (plan, faults)
}
