//! Reference models: the definition store (a map) and a C preprocessor (context stack algorithm,
//! written from the standard and not from the code under test).
use std::collections::{BTreeMap, BTreeSet};

use cmacro::{Identifier, IdentifierContinue, Lit, LitString, MacroArg, MacroToken, Punctuation};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Def { Var(Vec<String>), Fn(Vec<String>, Vec<String>) }

impl Def {
    pub fn body(&self) -> &[String] { match self { Def::Var(b) | Def::Fn(_, b) => b } }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Store(pub BTreeMap<String, Def>);

pub fn is_ws(t: &str) -> bool {
    let t = t.trim();
    t.is_empty() || (t.starts_with("/*") && t.ends_with("*/")) || t.starts_with("//")
}

fn strip(ts: &[String]) -> Vec<&str> { ts.iter().map(|s| s.as_str()).filter(|s| !is_ws(s)).collect() }

pub fn same_def(a: &Def, b: &Def) -> bool {
    match (a, b) {
        (Def::Var(a), Def::Var(b)) => strip(a) == strip(b),
        (Def::Fn(a, b), Def::Fn(c, d)) => strip(a) == strip(c) && strip(b) == strip(d),
        _ => false,
    }
}

impl Store {
    /// Returns whether this is a redefinition.
    pub fn define(&mut self, name: &str, d: Def) -> bool {
        match self.0.insert(name.to_owned(), d.clone()) {
            None => false,
            Some(old) => !same_def(&old, &d),
        }
    }
    pub fn would_redefine(&self, name: &str, d: &Def) -> bool { self.0.get(name).map(|o| !same_def(o, d)).unwrap_or(false) }
    pub fn undef_var(&mut self, name: &str) -> bool {
        if matches!(self.0.get(name), Some(Def::Var(_))) { self.0.remove(name); true } else { false }
    }
    pub fn undef_fn(&mut self, name: &str) -> bool {
        if matches!(self.0.get(name), Some(Def::Fn(..))) { self.0.remove(name); true } else { false }
    }
    /// Names that can possibly be met when expanding the given tokens. Pasting can form any name, so
    /// it makes everything reachable whose name starts with some token's text.
    pub fn reach(&self, start: &[String]) -> BTreeSet<String> {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<String> = start.to_vec();
        let mut frags: BTreeSet<String> = BTreeSet::new();
        let mut paste = false;
        loop {
            while let Some(t) = todo.pop() {
                let t = spelled(&t);
                if t == "##" { paste = true }
                frags.insert(t.clone());
                if seen.contains(&t) { continue }
                if let Some(d) = self.0.get(&t) {
                    seen.insert(t.clone());
                    todo.extend(d.body().iter().cloned());
                }
            }
            if paste {
                for n in self.0.keys() {
                    if !seen.contains(n) && frags.iter().any(|f| !f.is_empty() && (f.contains('\\') || n.contains(f.as_str()))) { todo.push(n.clone()) }
                }
            }
            if todo.is_empty() { return seen }
        }
    }
}

/// The token without line continuations and with universal character names replaced.
fn spelled(t: &str) -> String {
    if !t.contains('\\') { return t.to_owned() }
    let t = t.replace("\\\r\n", "").replace("\\\n", "");
    let mut out = String::new();
    let mut rest = t.as_str();
    while let Some(c) = rest.chars().next() {
        let n = match rest.get(..2) { Some("\\u") => 4, Some("\\U") => 8, _ => 0 };
        if n > 0 {
            if let Some(c) = rest.get(2..2 + n).and_then(|h| u32::from_str_radix(h, 16).ok()).and_then(char::from_u32) {
                out.push(c);
                rest = &rest[2 + n..];
                continue
            }
        }
        out.push(c);
        rest = &rest[c.len_utf8()..];
    }
    out
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K { Id, Num, Str, Chr, Punct, Comment, Param(usize), /** result of `#` */ Strified, Place, /** outside of the model */ Odd }

#[derive(Clone, Debug, PartialEq)]
pub struct T { pub s: String, pub k: K, pub noexp: bool, /** inert `#`/`##` or operand in a symbolic body */ pub inert: bool, /** hide set */ pub hs: u128 }

const PUNCTS: &[&str] = &["[", "]", "(", ")", "{", "}", ".", "->", "++", "--", "&", "*", "+", "-", "~", "!", "/", "%", "<<", ">>", "<", ">",
  "<=", ">=", "==", "!=", "^", "|", "&&", "||", "?", ":", ";", "...", "=", "*=", "/=", "%=", "+=", "-=", "<<=", ">>=",
  "&=", "^=", "|=", ",", "#", "##"];

/// Not in the model's input, but they can be pasted.
const DIGRAPHS: &[&str] = &["<:", ":>", "<%", "%>", "%:"];

pub fn classify(s: &str) -> Option<K> {
    let b = s.as_bytes();
    if b.is_empty() { return None }
    if s.chars().enumerate().all(|(i, c)| c.is_ascii_alphanumeric() || matches!(c, '_' | 'é' | 'Ä' | 'Ω') || i > 0 && matches!(c, '\u{300}'..='\u{36f}')) {
        return Some(if b[0].is_ascii_digit() { K::Num } else { K::Id })
    }
    if PUNCTS.contains(&s) { return Some(K::Punct) }
    if s.starts_with("/*") && s.ends_with("*/") && s.len() >= 4 { return Some(K::Comment) }
    let inner = s.trim_start_matches("u8").trim_start_matches(['u', 'U', 'L']);
    if inner.len() >= 2 && inner.starts_with('"') && inner.ends_with('"') { return Some(K::Str) }
    if inner.len() >= 3 && inner.starts_with('\'') && inner.ends_with('\'') { return Some(K::Chr) }
    None
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// The documented error, as its debug text.
    Err(String),
    /// The input is outside of what the model specifies, with the reason.
    Unknown(&'static str),
}

pub type R<X> = Result<X, Stop>;
fn err<X>(e: impl Into<String>) -> R<X> { Err(Stop::Err(e.into())) }

#[derive(Clone)]
struct Cx { toks: Vec<T>, pos: usize, name: Option<String>, barrier: bool }

/// How to tell whether a name comes from its own replacement. The standard leaves open what happens when
/// a call takes tokens from beyond the end of the replacement that its name came from, so an answer
/// counts only where all of these agree.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Nest { /** macros that are being scanned */ Context, /** hide sets, as in Prosser's algorithm */ HideSet, /** hide sets which follow the name alone */ Sticky }

pub struct Pp<'a> { store: &'a Store, nest: Nest, soft: Option<&'static str>, stack: Vec<Cx>, pub steps: u64, pub probes: BTreeSet<&'static str> }

/// A question to the reference preprocessor.
#[derive(Clone, Copy)]
pub enum Q<'q> { Var(&'q str), Fn(&'q str), Toks(&'q [String]) }

pub struct Answer {
    pub result: R<(Option<Vec<String>>, Vec<T>)>,
    /// Work done, if the expansion was followed to its end.
    pub steps: Option<u64>,
    pub too_large: bool,
    pub probes: BTreeSet<&'static str>,
}

pub fn answer(store: &Store, q: Q<'_>) -> Answer {
    let one = |nest| {
        let mut pp = Pp { store, nest, soft: None, stack: vec![], steps: 0, probes: BTreeSet::new() };
        let r = match q {
            Q::Var(n) => pp.expand_var(n).map(|t| (None, t)),
            Q::Fn(n) => pp.expand_fn(n).map(|(a, t)| (Some(a), t)),
            Q::Toks(t) => pp.expand_tokens(t).map(|t| (None, t)),
        };
        let big = matches!(r, Err(Stop::Unknown(_)));
        let followed = if big || r.is_err() && pp.soft.is_some() { None } else { Some(pp.steps) };
        let r = match pp.soft { Some(w) => Err(Stop::Unknown(w)), None => r };
        (r, followed, big, pp.probes)
    };
    let (a, _, _, probes) = one(Nest::Context);
    let (b, sb, bb, _) = one(Nest::HideSet);
    let (c, sc, bc, _) = one(Nest::Sticky);
    let key = |r: &R<(Option<Vec<String>>, Vec<T>)>| match r {
        Ok((_, t)) => Ok(t.iter().map(|t| (t.s.clone(), t.k)).collect::<Vec<_>>()),
        Err(e) => Err(e.clone()),
    };
    let same = key(&a) == key(&b) && key(&b) == key(&c);
    Answer {
        result: if same || matches!(a, Err(Stop::Unknown(_))) { a } else { Err(Stop::Unknown("nesting unspecified")) },
        steps: sb.and_then(|b| sc.map(|c| b.max(c))),
        too_large: bb || bc,
        probes,
    }
}

struct FnDef { params: Vec<String>, variadic: bool, body: Vec<T> }


const MAX_STEPS: u64 = 4_000;

impl<'a> Pp<'a> {
    /// Not specified by the model: go on somehow, to estimate the work.
    fn soft(&mut self, why: &'static str) { self.soft.get_or_insert(why); }

    fn tok(&mut self, s: &str) -> T {
        let k = classify(s).unwrap_or_else(|| { self.soft("unclassified token"); K::Odd });
        T { s: s.to_owned(), k, noexp: false, inert: false, hs: 0 }
    }

    fn bit(&self, n: &str) -> u128 {
        match self.store.0.keys().position(|k| k == n) { Some(i) if i < 128 => 1 << i, _ => 0 }
    }

    fn disabled(&self, t: &T) -> bool {
        match self.nest {
            Nest::Context => self.stack.iter().any(|c| c.name.as_deref() == Some(&t.s)),
            _ => t.hs & self.bit(&t.s) != 0,
        }
    }

    fn enter(&mut self, mut toks: Vec<T>, name: &str, hs: u128, barrier: bool) {
        let hs = hs | self.bit(name);
        for t in &mut toks { t.hs |= hs }
        self.stack.push(Cx { toks, pos: 0, name: Some(name.to_owned()), barrier })
    }

    fn next(&mut self) -> R<Option<T>> {
        loop {
            self.steps += 1;
            if self.steps > MAX_STEPS { return Err(Stop::Unknown("too large")) }
            let Some(c) = self.stack.last_mut() else { return Ok(None) };
            if c.pos < c.toks.len() {
                c.pos += 1;
                let mut t = c.toks[c.pos - 1].clone();
                if t.k == K::Id && !t.noexp && self.disabled(&t) {
                    t.noexp = true;
                    self.probes.insert("painted");
                }
                return Ok(Some(t))
            }
            if c.barrier { return Ok(None) }
            self.stack.pop();
        }
    }

    /// Pop exhausted contexts so that the next token, if any, is on top; without consuming it.
    fn peek(&mut self) -> Option<T> {
        loop {
            let c = self.stack.last()?;
            if c.pos < c.toks.len() { return Some(c.toks[c.pos].clone()) }
            if c.barrier { return None }
            self.stack.pop();
        }
    }

    fn save(&self) -> Vec<Cx> { self.stack.clone() }

    fn fndef(&mut self, args: &[String], body: &[String]) -> R<FnDef> {
        let mut params: Vec<String> = vec![];
        let mut variadic = false;
        for a in args {
            match classify(a) {
                Some(K::Comment) => continue,
                Some(K::Id) if a == "__VA_ARGS__" => return err("InvalidArgumentName"),
                Some(K::Id) => {
                    if variadic { return err("InvalidArgumentName") }
                    if params.contains(a) { return err(format!("NonUniqueArgument({a:?})")) }
                    params.push(a.clone())
                },
                Some(K::Punct) if a == "..." => {
                    if variadic { return err("NonUniqueArgument(\"...\")") }
                    variadic = true
                },
                _ => return err("InvalidArgumentName"),
            }
        }
        let mut out = vec![];
        for s in body {
            let mut t = self.tok(s);
            if s == "__VA_ARGS__" {
                if !variadic { return err("NonVariadicVarArgs") }
                t.k = K::Param(params.len());
            } else if let Some(i) = params.iter().position(|p| p == s) {
                t.k = K::Param(i);
            }
            out.push(t)
        }
        Ok(FnDef { params, variadic, body: out })
    }

    fn var_body(&mut self, body: &[String]) -> R<Vec<T>> {
        let b: Vec<T> = body.iter().map(|s| self.tok(s)).collect();
        if body.iter().any(|s| s == "__VA_ARGS__") { return err("NonVariadicVarArgs") }
        let ops = b.iter().map(|t| t.k == K::Punct && t.s == "##").collect();
        self.concat(b, ops)
    }

    fn is_op(t: &T, s: &str) -> bool { t.k == K::Punct && t.s == s && !t.inert }

    /// Apply `##`; `ops` marks which tokens are the operator (and not, say, part of an argument).
    fn concat(&mut self, toks: Vec<T>, ops: Vec<bool>) -> R<Vec<T>> {
        let mut out: Vec<(T, bool)> = vec![];
        let mut i = 0;
        while i < toks.len() {
            if !ops[i] { out.push((toks[i].clone(), false)); i += 1; continue }
            self.probes.insert("paste");
            let param = |t: Option<&T>| matches!(t.map(|t| t.k), Some(K::Param(_)));
            // Symbolic operand: the operator stays.
            if param(out.last().map(|x| &x.0)) || param(toks.get(i + 1)) {
                if let Some(l) = out.last_mut() {
                    if l.0.k == K::Comment { self.soft("comment next to symbolic paste") }
                    if l.0.k == K::Punct { self.soft("symbolic paste of punctuator") }
                    l.0.inert = true; l.0.noexp = true
                } else { return err("ConcatBegin") }
                let mut op = toks[i].clone();
                op.inert = true;
                op.noexp = true;
                out.push((op, true));
                let Some(mut n) = toks.get(i + 1).cloned() else { return err("ConcatEnd") };
                if n.k == K::Comment || ops[i + 1] { self.soft("odd symbolic paste") }
                if n.k == K::Punct { self.soft("symbolic paste of punctuator") }
                n.inert = true;
                n.noexp = true;
                out.push((n, false));
                i += 2;
                continue
            }
            let lhs = loop {
                match out.pop() {
                    Some((t, _)) if t.k == K::Comment => continue,
                    Some((t, _)) => break t,
                    None => return err("ConcatBegin"),
                }
            };
            i += 1;
            if i < toks.len() && ops[i] { self.soft("consecutive ##") }
            let rhs = loop {
                match toks.get(i) {
                    Some(t) if t.k == K::Comment => i += 1,
                    Some(t) => { i += 1; break t.clone() },
                    None => return err("ConcatEnd"),
                }
            };
            if lhs.inert || matches!(rhs.k, K::Param(_)) { self.soft("mixed symbolic paste") }
            let both = self.nest == Nest::HideSet;
            let hs = if both { lhs.hs & rhs.hs } else { lhs.hs | rhs.hs };
            let t = match paste(&lhs, &rhs) {
                Ok(t) => t,
                Err(Stop::Unknown(why)) => { self.soft(why); T { s: format!("{}{}", lhs.s, rhs.s), k: K::Id, noexp: false, inert: false, hs: 0 } },
                Err(e) => return Err(e),
            };
            let hs = if lhs.k == K::Place || rhs.k == K::Place { t.hs } else { hs };
            out.push((T { hs, ..t }, false));
        }
        Ok(out.into_iter().map(|x| x.0).filter(|t| t.k != K::Place).collect())
    }

    fn enter_fn(&mut self, name: &str, d: &FnDef, args: Vec<Vec<T>>, hs: u128) -> R<()> {
        let named = d.params.len();
        let given = args.len();
        let arity_err = |required| err(format!("FnMacroArgumentError {{ name: {name:?}, required: {required}, given: {given} }}"));
        if d.variadic {
            if named > 0 && given < named { return arity_err(named) }
        } else if given != named {
            let empty0 = named == 0 && given == 1 && args[0].iter().all(|t| t.k == K::Comment);
            if !empty0 { return arity_err(named) }
        }
        let arg = |i: usize| -> Vec<T> {
            if i < named { return args[i].clone() }
            let mut v = vec![];
            for (j, a) in args.iter().skip(named).enumerate() {
                if j > 0 { v.push(T { s: ",".into(), k: K::Punct, noexp: false, inert: false, hs: 0 }) }
                v.extend(a.iter().cloned())
            }
            v
        };
        let b = &d.body;
        let mut out: Vec<T> = vec![];
        let mut ops: Vec<bool> = vec![];
        let mut i = 0;
        while i < b.len() {
            let t = &b[i];
            if Self::is_op(t, "#") {
                match b.get(i + 1) {
                    Some(T { k: K::Param(p), .. }) => {
                        self.probes.insert("stringify");
                        let a = arg(*p);
                        if a.iter().any(|t| t.inert || matches!(t.k, K::Param(_))) {
                            if a.len() == 1 && matches!(a[0].k, K::Param(_)) {
                                out.push(T { s: "#".into(), k: K::Punct, noexp: true, inert: true, hs: 0 });
                                ops.push(false);
                                let mut x = a[0].clone();
                                x.inert = true;
                                out.push(x);
                                ops.push(false);
                                // A paste of this would be symbolic in a way the library cannot express.
                                if b.get(i + 2).map_or(false, |t| Self::is_op(t, "##")) || i > 0 && Self::is_op(&b[i - 1], "##") {
                                    self.soft("paste of symbolic stringification")
                                }
                            } else { self.soft("stringification of mixed symbolic argument") }
                        } else {
                            out.push(stringify(&a));
                            ops.push(false);
                        }
                        i += 2;
                        continue
                    },
                    Some(t) if t.k == K::Comment => { self.soft("comment after #"); i += 1; continue },
                    _ => return err("StringifyNonArgument"),
                }
            }
            if let K::Param(p) = t.k {
                let prev = b[..i].iter().rev().find(|t| t.k != K::Comment);
                let next = b[i + 1..].iter().find(|t| t.k != K::Comment);
                let a = arg(p);
                let pasted = prev.map_or(false, |t| Self::is_op(t, "##")) || next.map_or(false, |t| Self::is_op(t, "##"));
                let toks = if pasted {
                    if a.len() > 1 && a.iter().any(|t| matches!(t.k, K::Param(_))) { self.soft("paste of mixed symbolic argument") }
                    if a.iter().any(|t| t.inert) { self.soft("paste of symbolic operand") }
                    if p == named && next.is_some() && prev.map_or(false, |t| t.s == "##") { /* `, ## __VA_ARGS__` handled below */ }
                    let a: Vec<T> = a.into_iter().filter(|t| t.k != K::Comment).collect();
                    if a.is_empty() { vec![T { s: String::new(), k: K::Place, noexp: true, inert: false, hs: 0 }] } else { a }
                } else { self.expand_arg(a)? };
                ops.extend(toks.iter().map(|_| false));
                out.extend(toks);
            } else {
                ops.push(Self::is_op(t, "##"));
                out.push(t.clone());
            }
            i += 1;
        }
        let out = self.concat(out, ops)?;
        self.enter(out, name, hs, false);
        Ok(())
    }

    fn expand_arg(&mut self, a: Vec<T>) -> R<Vec<T>> {
        self.probes.insert("argument");
        self.stack.push(Cx { toks: a, pos: 0, name: None, barrier: true });
        let depth = self.stack.len();
        let r = self.run(true)?;
        debug_assert_eq!(self.stack.len(), depth);
        self.stack.pop();
        Ok(r)
    }

    /// Expand until the innermost barrier (or the end of everything).
    fn run(&mut self, in_arg: bool) -> R<Vec<T>> {
        let mut out = vec![];
        while let Some(t) = self.next()? {
            if t.k != K::Id || t.noexp { out.push(t); continue }
            match self.store.0.get(&t.s) {
                None => out.push(t),
                Some(Def::Var(b)) => {
                    let b = self.var_body(b)?;
                    if self.stack.len() > 1 { self.probes.insert("nested-object"); }
                    self.enter(b, &t.s, t.hs, false);
                },
                Some(Def::Fn(a, b)) => {
                    let depth0 = self.stack.len();
                    let mut before_args = None;
                    match self.peek() {
                        Some(p) if Self::is_op(&p, "(") => (),
                        Some(p) if p.k == K::Comment => before_args = Some(self.save()),
                        _ => { self.probes.insert("name-without-call"); out.push(t); continue },
                    }
                    if let Some(saved) = before_args {
                        while matches!(self.peek(), Some(p) if p.k == K::Comment) { self.next()?; }
                        if !matches!(self.peek(), Some(p) if Self::is_op(&p, "(")) {
                            self.stack = saved;
                            self.probes.insert("name-without-call");
                            out.push(t);
                            continue
                        }
                        self.probes.insert("comment-before-arguments");
                    }
                    if self.stack.len() < depth0 { self.probes.insert("call-across-context"); }
                    let saved = self.save();
                    self.next()?;
                    let mut args = vec![];
                    let mut cur = vec![];
                    let mut depth = 0;
                    let mut closed = None;
                    let before = self.stack.len();
                    while let Some(x) = self.next()? {
                        if Self::is_op(&x, "(") { depth += 1 }
                        if Self::is_op(&x, ")") {
                            if depth == 0 { closed = Some(x.hs); break }
                            depth -= 1;
                        }
                        if Self::is_op(&x, ",") && depth == 0 { args.push(std::mem::take(&mut cur)); continue }
                        cur.push(x);
                    }
                    let Some(close_hs) = closed else {
                        // Not a call: leave the name alone, go on after it.
                        self.probes.insert("unterminated-call");
                        if in_arg { self.soft("unterminated call in argument") }
                        self.stack = saved;
                        out.push(t);
                        continue
                    };
                    if self.stack.len() < before { self.probes.insert("arguments-across-context"); }
                    args.push(cur);
                    let d = self.fndef(a, b)?;
                    let hs = if self.nest == Nest::HideSet { t.hs & close_hs } else { t.hs };
                    self.enter_fn(&t.s, &d, args, hs)?;
                },
            }
        }
        Ok(out)
    }

    fn expand_tokens(&mut self, body: &[String]) -> R<Vec<T>> {
        let b = self.var_body(body)?;
        self.stack = vec![Cx { toks: b, pos: 0, name: None, barrier: true }];
        self.run(false)
    }

    fn expand_var(&mut self, name: &str) -> R<Vec<T>> {
        let Some(Def::Var(b)) = self.store.0.get(name) else { return err("MacroNotFound") };
        let b = self.var_body(b)?;
        self.stack = vec![];
        self.enter(b, name, 0, true);
        self.run(false)
    }

    fn expand_fn(&mut self, name: &str) -> R<(Vec<String>, Vec<T>)> {
        let Some(Def::Fn(a, b)) = self.store.0.get(name) else { return err("MacroNotFound") };
        let d = self.fndef(a, b)?;
        let mut body = d.body;
        // `#` in front of a parameter stays, in front of anything else is invalid but not diagnosed here.
        for i in 0..body.len() {
            if Self::is_op(&body[i], "#") {
                if !matches!(body.get(i + 1).map(|t| t.k), Some(K::Param(_))) { self.soft("symbolic # without parameter"); continue }
                if body.get(i + 2).map_or(false, |t| t.s == "##") || i > 0 && body[i - 1].s == "##" { self.soft("symbolic # and ##") }
                body[i].inert = true;
                body[i + 1].inert = true;
            }
        }
        let ops = body.iter().map(|t| Self::is_op(t, "##")).collect();
        let body = self.concat(body, ops)?;
        self.stack = vec![];
        self.enter(body, name, 0, true);
        let out = self.run(false)?;
        Ok((a.clone(), out))
    }
}

fn stringify(a: &[T]) -> T {
    let s: String = a.iter().filter(|t| t.k != K::Comment).map(|t| if t.k == K::Strified { format!("{:?}", t.s) } else { t.s.clone() }).collect();
    T { s, k: K::Strified, noexp: true, inert: false, hs: 0 }
}

fn paste(l: &T, r: &T) -> R<T> {
    if l.k == K::Place { return Ok(r.clone()) }
    if r.k == K::Place { return Ok(l.clone()) }
    let s = format!("{}{}", l.s, r.s);
    let t = |k, noexp| Ok(T { s: s.clone(), k, noexp, inert: false, hs: 0 });
    match (l.k, r.k) {
        (K::Id, K::Id) | (K::Id, K::Num) => t(K::Id, false),
        (K::Num, K::Id | K::Num) => t(K::Num, false),
        (K::Id, K::Str | K::Strified) if matches!(l.s.as_str(), "u8" | "u" | "U" | "L") => Err(Stop::Unknown("string prefix paste")),
        (K::Id, K::Chr) if matches!(l.s.as_str(), "u8" | "u" | "U" | "L") => Err(Stop::Unknown("char prefix paste")),
        (K::Punct, K::Punct) => {
            if (PUNCTS.contains(&s.as_str()) && s != "...") || DIGRAPHS.contains(&s.as_str()) { let mut x = t(K::Punct, true)?; x.inert = true; Ok(x) } else { err("InvalidConcat") }
        },
        (K::Punct, K::Num) if l.s == "." => Err(Stop::Unknown("float paste")),
        (K::Str | K::Chr | K::Strified, _) | (_, K::Str | K::Chr | K::Strified) => err("InvalidConcat"),
        (K::Punct, _) | (_, K::Punct) => err("InvalidConcat"),
        _ => Err(Stop::Unknown("odd paste")),
    }
}

/// Does the library's token denote what the model expects?
pub fn matches_token(t: &T, m: &MacroToken) -> bool {
    match (t.k, m) {
        (K::Id, MacroToken::Identifier(_)) => Identifier::try_from(t.s.as_str()).map_or(false, |x| MacroToken::Identifier(x) == *m),
        (K::Num, _) => match Lit::try_from(t.s.as_str()) {
            Ok(l) => MacroToken::Lit(l) == *m,
            Err(_) => match IdentifierContinue::try_from(t.s.as_str()) { Ok(x) => MacroToken::IdentifierContinue(x) == *m, Err(_) => false },
        },
        (K::Str | K::Chr, _) => Lit::try_from(t.s.as_str()).map_or(false, |x| MacroToken::Lit(x) == *m),
        (K::Punct, _) => Punctuation::try_from(t.s.as_str()).map_or(false, |x| MacroToken::Punctuation(x) == *m),
        (K::Comment, MacroToken::Comment(_)) => true,
        (K::Param(i), MacroToken::Arg(a)) => MacroArg::new(i) == *a,
        (K::Strified, MacroToken::Lit(Lit::String(LitString::Ordinary(b)))) => {
            // Spacing is a presentation choice: token lists carry no white space.
            let f = |s: &str| s.chars().filter(|c| *c != ' ').collect::<String>();
            std::str::from_utf8(b).map_or(false, |b| f(b) == f(&t.s))
        },
        _ => false,
    }
}

pub fn show(ts: &[T]) -> String {
    ts.iter().map(|t| match t.k { K::Param(i) => format!("<{i}>"), K::Strified => format!("{:?}", t.s), _ => t.s.clone() }).collect::<Vec<_>>().join(" ")
}
