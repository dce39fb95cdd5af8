//! Macros, contexts and fault traces for the code generation scenarios.
use crate::ctx::CtxSpec;
use crate::gen_store::{damage, env, JUNK};
use crate::plan::{Attempt, Fault, Plan, Src};
use crate::prng::{mix, Rng};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Role { Val, Id, Ty }

/// In per cent, on top of what there is anyway.
#[derive(Clone, Copy, Default)]
struct Skew { nums: u32, conds: u32, casts: u32, postfix: u32, same: u32 }

/// What a scenario generates.
#[derive(Clone, Copy)]
pub struct Style {
    /// Every identifier is used once.
    pub unique: bool,
    /// A parameter is used in one role only.
    pub roles: bool,
    /// Statement bodies, in per cent.
    pub stmts: u32,
    pub asm: u32,
    /// Comments between tokens, in per cent.
    pub comments: u32,
    /// Identifiers that are words of Rust, in per cent.
    pub rust_words: u32,
    pub depth: usize,
    /// Stringification and concatenation, in per cent.
    pub glue: u32,
    pub exotic: bool,
    /// Bodies which are few constructs in each other, in per cent.
    pub combos: u32,
}

pub struct Gen<'r> { r: &'r mut Rng, st: Style, n: usize, roles: Vec<Role>, params: Vec<String>, braces: usize, skew: Skew }

const RUST: &[&str] = &["type", "match", "ref", "fn", "in", "impl", "where", "loop", "mod", "move", "use", "as", "dyn", "async", "await", "try", "yield", "box", "true", "union", "crate", "self", "super",
    "abstract", "become", "final", "let", "macro", "mut", "override", "priv", "pub", "trait", "unsafe", "unsized", "virtual", "Self", "false", "gen", "default", "raw", "macro_rules", "auto"];
const BUILTIN: &[&[&str]] = &[&["int"], &["unsigned", "int"], &["char"], &["unsigned", "char"], &["signed", "char"], &["short"], &["long"], &["unsigned", "long", "long"], &["long", "long"], &["long", "unsigned", "int"],
    &["float"], &["double"], &["long", "double"], &["bool"], &["void"], &["int", "short"], &["unsigned", "short"]];
const INTS: &[&str] = &["0", "1", "2", "7", "42", "0x1F", "017", "255u", "10UL", "3ll", "99999999999LL", "2147483648", "18446744073709551615u", "0x7fffffffffffffff", "128", "65535", "1u"];

/// An integer, now and then one next to a power of two at which some type ends.
fn int(r: &mut Rng) -> String { if r.pct(85) { r.pick(INTS).to_string() } else { edge(r) } }
pub fn edge(r: &mut Rng) -> String {
    let k = *r.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
    let d = r.below(4) as i32 - 2;
    // The digits of 2^128 + d do not fit any type.
    let t = match (k, d) {
        (128, d) if d >= 0 => match r.below(3) { 0 => format!("{}", ["340282366920938463463374607431768211456", "340282366920938463463374607431768211457"][d as usize]), 1 => format!("0x1{}{d:x}", "0".repeat(31)), _ => format!("0b1{}{d:b}", "0".repeat(127)) },
        (k, d) => {
            let n = if k == 128 { u128::MAX - (-d - 1) as u128 } else { (1u128 << k).wrapping_add_signed(d as i128) };
            match r.below(5) { 0 => format!("0x{n:x}"), 1 => format!("0{n:o}"), 2 => format!("0b{n:b}"), _ => n.to_string() }
        },
    };
    format!("{t}{}", r.pick(&["", "", "", "u", "l", "LL", "ull"]))
}
const FLOATS: &[&str] = &["1.0", "2.5f", "1e10", ".5", "3.f", "1.5L", "1e308", "0.0"];
const CHARS: &[&str] = &["'a'", "'\\n'", "'\\0'", "'\\x7f'", "L'x'", "u'x'", "U'x'", "u8'a'", "'\\''", "'\\xff'"];
const STRS: &[&str] = &["\"abc\"", "\"\"", "\"a\\nb\"", "L\"wide\"", "u8\"x\"", "u\"y\"", "U\"z\"", "\"nul\\0mid\"", "\"\\xff\"", "\"q\\\"q\"", "\"%d\\n\""];
const BUILTIN_VARS: &[&str] = &["__INT_MAX__", "__LINE__", "__FILE__", "__SCHAR_MAX__", "__LONG_MAX__", "__SHRT_MAX__", "__LONG_LONG_MAX__"];

impl<'r> Gen<'r> {
    fn pct(&mut self, p: u32) -> bool { self.r.pct(p) }
    fn id(&mut self, kind: char) -> String {
        if self.st.rust_words > 0 && self.r.pct(self.st.rust_words) { return self.r.pick(RUST).to_string() }
        let n = if self.st.unique { self.n += 1; self.n } else if self.r.pct(self.skew.same) { 1 } else { 1 + self.r.below(4) };
        match kind { 'c' => format!("fn{n}"), k => format!("{k}{n}") }
    }
    fn param(&mut self, role: Role) -> Option<String> {
        let c: Vec<usize> = (0..self.params.len()).filter(|i| if self.st.roles { self.roles[*i] == role && (role == Role::Val || self.params[*i] != "...") } else { true }).collect();
        if c.is_empty() { None } else { Some(format!("${}", c[self.r.below(c.len())])) }
    }
    fn s(&mut self, out: &mut Vec<String>, t: &str) { out.push(t.into()); if self.st.comments > 0 && self.r.pct(self.st.comments) { out.push("/* c */".into()) } }

    fn ty(&mut self, out: &mut Vec<String>) {
        if self.pct(25) { let q = *self.r.pick(&["const", "volatile", "const"]); self.s(out, q) }
        let k = self.r.below(10);
        let p = if k < 2 { self.param(Role::Ty) } else { None };
        if let Some(p) = p { self.s(out, &p) }
        else if k < 6 { for t in *self.r.pick(BUILTIN) { self.s(out, t) } }
        else if k == 6 && self.st.glue > 0 && self.pct(20) { let a = self.id('t'); self.s(out, &a); self.s(out, "##"); let b = self.id('t'); self.s(out, &b) }
        else { if self.pct(20) { self.s(out, "struct") } let t = self.id('t'); self.s(out, &t) }
        if self.pct(10) { self.s(out, "const") }
        for _ in 0..self.r.geo(35, 2) { self.s(out, "*"); if self.pct(20) { let q = *self.r.pick(&["const", "volatile"]); self.s(out, q) } }
    }

    fn args(&mut self, d: usize, out: &mut Vec<String>) {
        self.s(out, "(");
        let n = self.r.geo(60, 4);
        for i in 0..n { if i > 0 { self.s(out, ",") } self.expr(d, out) }
        self.s(out, ")");
    }

    fn prim(&mut self, d: usize, out: &mut Vec<String>) {
        let k = self.r.below(100);
        let k = if self.r.pct(self.skew.nums) { 50 } else { k };
        let k = if d > 0 && self.r.pct(self.skew.conds + self.skew.casts) { 90 } else { k };
        match k {
            0..=31 => match self.param(Role::Val) { Some(p) => self.s(out, &p), None => { let v = self.id('v'); self.s(out, &v) } },
            32..=46 => { let v = self.id('v'); self.s(out, &v) },
            47..=60 => {
                if self.st.unique { let n = format!("{}", 1000 + self.r.below(9000)); self.s(out, &n) } else { let n = int(self.r); self.s(out, &n) }
            },
            61..=63 => { let n = *self.r.pick(FLOATS); self.s(out, n) },
            64..=65 => { let n = *self.r.pick(CHARS); self.s(out, n) },
            66..=68 => {
                if self.st.unique { self.n += 1; let n = format!("\"str{}\"", self.n); self.s(out, &n) } else { let n = *self.r.pick(STRS); self.s(out, n) }
            },
            69..=70 => { let n = *self.r.pick(BUILTIN_VARS); self.s(out, n) },
            71..=73 => { self.s(out, "sizeof"); self.s(out, "("); self.ty(out); self.s(out, ")") },
            74..=83 if d > 0 => {
                let paren = self.pct(8);
                if paren { self.s(out, "(") }
                let p = if self.pct(8) { self.param(Role::Val) } else { None };
                match p { Some(p) => self.s(out, &p), None => { let f = self.id('c'); self.s(out, &f) } }
                if paren { self.s(out, ")") }
                self.args(d - 1, out)
            },
            84..=93 if d > 0 => { self.s(out, "("); self.expr(d - 1, out); self.s(out, ")") },
            94..=97 if self.st.glue > 0 => self.glue(out),
            98 if d > 0 && self.st.exotic => {
                self.s(out, "__builtin_offsetof"); self.s(out, "(");
                match self.param(Role::Ty) { Some(p) => self.s(out, &p), None => { let t = self.id('t'); self.s(out, &t) } }
                self.s(out, ",");
                match self.param(Role::Id) { Some(p) => self.s(out, &p), None => { let t = self.id('f'); self.s(out, &t) } }
                self.s(out, ")");
            },
            _ => { let v = self.id('v'); self.s(out, &v) },
        }
    }

    fn glue(&mut self, out: &mut Vec<String>) {
        match self.r.below(4) {
            0 => { let n = self.r.range(1, 2); for i in 0..=n {
                if i > 0 { self.s(out, "##") }
                let p = if self.pct(60) { self.param(Role::Id) } else { None };
                match p { Some(p) => self.s(out, &p), None if i > 0 && self.pct(15) => self.s(out, "12x"), None => { let v = self.id('v'); self.s(out, &v) } }
            } },
            1 => { self.s(out, "#"); match self.param(Role::Val) { Some(p) => self.s(out, &p), None => self.s(out, "__LINE__") } },
            2 => { let n = self.r.range(2, 3); for _ in 0..n { match self.r.below(4) {
                0 => { self.s(out, "#"); match self.param(Role::Val) { Some(p) => self.s(out, &p), None => self.s(out, "__LINE__") } },
                1 => match self.param(Role::Val) { Some(p) => self.s(out, &p), None => self.s(out, "__FILE__") },
                _ => { if self.st.unique { self.n += 1; let n = format!("\"str{}\"", self.n); self.s(out, &n) } else { let n = *self.r.pick(STRS); self.s(out, n) } },
            } } },
            _ => { self.s(out, "#"); let v = *self.r.pick(&["__LINE__", "__FILE__"]); self.s(out, v) },
        }
    }

    /// Something that can be assigned to.
    fn place(&mut self, d: usize, out: &mut Vec<String>) {
        match self.r.below(10) {
            0..=3 => { let v = self.id('v'); self.s(out, &v) },
            4 | 5 => match self.param(Role::Val) { Some(p) => self.s(out, &p), None => { let v = self.id('v'); self.s(out, &v) } },
            6 if d > 0 => { self.s(out, "("); self.s(out, "*"); self.unary(d - 1, out); self.s(out, ")") },
            7 => {
                self.s(out, "("); self.s(out, "*"); self.s(out, "("); self.s(out, "volatile"); for t in *self.r.pick(BUILTIN) { self.s(out, t) } self.s(out, "*"); self.s(out, ")");
                self.prim(0, out); self.s(out, ")")
            },
            8 if d > 0 => { let v = self.id('v'); self.s(out, &v); self.s(out, "["); self.expr(d - 1, out); self.s(out, "]") },
            _ => { let v = self.id('v'); self.s(out, &v); let op = *self.r.pick(&[".", "->"]); self.s(out, op); let f = self.id('f'); self.s(out, &f) },
        }
    }

    fn postfix(&mut self, d: usize, out: &mut Vec<String>) {
        if self.r.pct(6) { self.place(d, out); let op = *self.r.pick(&["++", "--"]); self.s(out, op) } else { self.prim(d, out) }
        for _ in 0..self.r.geo(18 + self.skew.postfix, 2) {
            match self.r.below(5) {
                0 | 1 => {
                    let op = if self.pct(50) { "." } else { "->" };
                    self.s(out, op);
                    let p = if self.pct(40) { self.param(Role::Id) } else { None };
                    match p { Some(p) => self.s(out, &p), None => { let f = self.id('f'); self.s(out, &f) } }
                    if self.st.glue > 0 && self.pct(4) { self.s(out, "##"); let f = self.id('f'); self.s(out, &f) }
                },
                2 if d > 0 => { self.s(out, "["); self.expr(d - 1, out); self.s(out, "]") },
                3 if d > 0 => { self.s(out, "["); self.expr(d - 1, out); self.s(out, "]") },
                _ => if self.r.pct(40) { let op = *self.r.pick(&["++", "--"]); self.s(out, op) },
            }
        }
    }

    fn unary(&mut self, d: usize, out: &mut Vec<String>) {
        let k = self.r.below(100);
        match if self.r.pct(self.skew.casts) { 0 } else { k } {
            0..=9 => { self.s(out, "("); self.ty(out); self.s(out, ")"); self.unary(d, out) },
            10..=22 => { let op = *self.r.pick(&["*", "&", "*", "&", "+", "-", "!", "~", "-"]); self.s(out, op); self.unary(d, out) },
            23..=25 => { let op = *self.r.pick(&["++", "--"]); self.s(out, op); if self.r.pct(85) { self.place(d, out) } else { self.unary(d, out) } },
            _ => self.postfix(d, out),
        }
    }

    pub fn expr(&mut self, d: usize, out: &mut Vec<String>) {
        if self.r.pct(5) {
            self.place(d, out);
            let op = *self.r.pick(&["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="]);
            self.s(out, op);
        }
        self.unary(d, out);
        if self.r.pct(self.skew.conds) {
            let d = d.saturating_sub(1);
            self.s(out, "?");
            if self.r.pct(50) { self.expr(d, out) } else { self.unary(d, out) }
            self.s(out, ":");
            if self.r.pct(50) { self.expr(d, out) } else { self.unary(d, out) }
            return
        }
        for _ in 0..self.r.geo(35, 3) {
            match self.r.below(20) {
                0 if d > 0 => { self.s(out, "?"); self.expr(d - 1, out); self.s(out, ":"); self.unary(d, out) },
                1 if self.r.pct(30) => { let op = *self.r.pick(&["=", "+=", "-=", "<<=", "|=", "%="]); self.s(out, op); self.unary(d, out) },
                3..=6 => { let op = *self.r.pick(&["<", ">", "<=", ">=", "==", "!=", "<<", ">>"]); self.s(out, op); self.unary(d, out) },
                _ => { let op = *self.r.pick(&["+", "-", "*", "/", "%", "&", "|", "^"]); self.s(out, op); self.unary(d, out) },
            }
        }
    }

    /// `k` constructs nested in each other, each as likely as any other, around operands of one token.
    fn combo(&mut self, k: usize, out: &mut Vec<String>) {
        if k == 0 {
            match self.r.below(6) {
                0 | 1 => match self.param(Role::Val) { Some(p) => self.s(out, &p), None => { let v = self.id('v'); self.s(out, &v) } },
                2 => { let v = self.id('v'); self.s(out, &v) },
                3 | 4 => { let t = if self.st.unique { format!("{}", 1000 + self.r.below(9000)) } else { self.r.pick(&["0", "1", "2", "1", "7u", "2.5"]).to_string() }; self.s(out, &t) },
                _ => { let t = if self.st.unique { self.n += 1; format!("\"str{}\"", self.n) } else { self.r.pick(&["\"abc\"", "'a'", "__LINE__", "\"x\"", "L'x'", "1.0f"]).to_string() }; self.s(out, &t) },
            }
            return
        }
        let k = k - 1;
        let wrap = self.pct(60);
        macro_rules! sub { ($w:expr) => {{ let w = $w; if w { self.s(out, "(") } self.combo(k, out); if w { self.s(out, ")") } }}; }
        match self.r.below(20) {
            0..=2 => {
                self.s(out, "(");
                match self.r.below(4) { 0 => for t in *self.r.pick(BUILTIN) { self.s(out, t) }, 1 => { let t = self.id('t'); self.s(out, &t) }, 2 => { let t = *self.r.pick(&["char", "int", "void"]); self.s(out, "const"); self.s(out, t) }, _ => { let t = *self.r.pick(&["char", "int", "void", "float"]); self.s(out, t) } }
                for _ in 0..self.r.geo(45, 2) { self.s(out, "*") }
                self.s(out, ")");
                sub!(wrap)
            },
            3 => { sub!(wrap); self.s(out, "?"); self.combo(0, out); self.s(out, ":"); self.combo(0, out) },
            4 => { self.combo(0, out); self.s(out, "?"); sub!(wrap); self.s(out, ":"); self.combo(0, out) },
            5 => { self.combo(0, out); self.s(out, "?"); self.combo(0, out); self.s(out, ":"); sub!(wrap) },
            6 => { let op = *self.r.pick(&["-", "!", "~", "+"]); self.s(out, op); sub!(wrap) },
            7 => { self.s(out, "*"); sub!(wrap) },
            8 => { self.s(out, "&"); sub!(wrap) },
            9 => { sub!(wrap); let op = *self.r.pick(&["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", "==", "!=", ">="]); self.s(out, op); self.combo(0, out) },
            10 => { self.combo(0, out); let op = *self.r.pick(&["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", "==", "!=", ">="]); self.s(out, op); sub!(wrap) },
            11 => { let f = self.id('c'); self.s(out, &f); self.s(out, "("); self.combo(k, out); if self.pct(30) { self.s(out, ","); self.combo(0, out) } self.s(out, ")") },
            12 => { sub!(wrap); let op = *self.r.pick(&[".", "->"]); self.s(out, op); let f = self.id('f'); self.s(out, &f) },
            13 => { sub!(wrap); self.s(out, "["); self.combo(0, out); self.s(out, "]") },
            14 => { let v = self.id('v'); self.s(out, &v); self.s(out, "["); self.combo(k, out); self.s(out, "]") },
            15 => { sub!(wrap); let op = *self.r.pick(&["++", "--"]); self.s(out, op) },
            16 => { let op = *self.r.pick(&["++", "--"]); self.s(out, op); sub!(wrap) },
            17 => { let v = self.id('v'); self.s(out, &v); let op = *self.r.pick(&["=", "+=", "-=", "<<=", "|="]); self.s(out, op); sub!(wrap) },
            18 => { sub!(wrap); let op = *self.r.pick(&["=", "+=", "-=", "<<=", "|="]); self.s(out, op); self.combo(0, out) },
            _ => sub!(true),
        }
    }

    fn stmt(&mut self, d: usize, last: bool, out: &mut Vec<String>) {
        let k = self.r.below(100);
        if d > 0 && self.braces < 3 && k < 12 {
            self.braces += 1;
            self.s(out, "{");
            for _ in 0..self.r.range(0, 3) { self.stmt(d - 1, false, out) }
            self.s(out, "}");
            if self.pct(20) { self.s(out, ";") }
            self.braces -= 1;
            return
        }
        if d > 0 && k < 24 {
            self.s(out, "if"); self.s(out, "("); self.expr(d - 1, out); self.s(out, ")");
            self.stmt(d - 1, false, out);
            if self.pct(50) { self.s(out, "else"); self.stmt(d - 1, false, out) }
            return
        }
        if d > 0 && k < 34 {
            self.s(out, "do"); self.stmt(d - 1, false, out); self.s(out, "while"); self.s(out, "("); self.expr(d - 1, out); self.s(out, ")");
            return
        }
        if k < 34 + self.st.asm as usize {
            self.asm(out);
        } else if k < 60 {
            if self.pct(15) { self.s(out, "static") }
            self.ty(out);
            let p = if self.pct(25) { self.param(Role::Id) } else { None };
            match p { Some(p) => self.s(out, &p), None => { let n = self.id('n'); self.s(out, &n) } }
            if self.st.glue > 0 && self.pct(4) { self.s(out, "##"); let f = self.id('n'); self.s(out, &f) }
            self.s(out, "=");
            self.expr(d.min(1), out);
        } else if k < 65 {
            if self.pct(15) { self.s(out, "static") }
            self.ty(out);
            let p = if self.pct(25) { self.param(Role::Id) } else { None };
            match p { Some(p) => self.s(out, &p), None => { let n = self.id('c'); self.s(out, &n) } }
            self.s(out, "(");
            for i in 0..self.r.geo(50, 3) { if i > 0 { self.s(out, ",") } self.ty(out); let n = self.id('n'); self.s(out, &n) }
            self.s(out, ")");
        } else {
            self.expr(d, out);
        }
        if !(last && self.pct(40)) { self.s(out, ";") }
    }

    fn asm(&mut self, out: &mut Vec<String>) {
        let k = *self.r.pick(&["__asm__", "asm", "__asm"]);
        self.s(out, k);
        if self.pct(50) { self.s(out, "volatile") }
        self.s(out, "(");
        let t = *self.r.pick(&["\"\"", "\"nop\"", "\"mov %1, %0\\n\\tadd $1, %0\"", "\"btsl %2,%1\"", "\"{x}\"", "\"ld1 {v0.16b}, [%0]\"", "\"add %2, %0\"", "\"vmov %1 {%0}\"", "\"mov %0, %1 // }\"", "\".globl f\\nf:\"", "\"mrs %0, psp\""]);
        self.s(out, t);
        let mut outs = 0;
        if self.pct(80) {
            self.s(out, ":");
            let n = self.r.geo(50, 2);
            outs = n;
            for i in 0..n { if i > 0 { self.s(out, ",") } let c = *self.r.pick(&["\"=r\"", "\"+r\"", "\"=q\"", "\"=Q\"", "\"=f\"", "\"=rm\""]); self.s(out, c); self.s(out, "("); self.expr(0, out); self.s(out, ")") }
            if self.pct(80) {
                self.s(out, ":");
                for i in 0..self.r.geo(50, 3) {
                    if i > 0 { self.s(out, ",") }
                    let c = match self.r.below(7) { 0 if outs > 0 => format!("\"{}\"", self.r.below(outs)), 0 | 1 if self.st.exotic => format!("\"{}\"", self.r.below(4)), 2 => "\"q\"".into(), 3 => "\"i\"".into(), _ => "\"r\"".into() };
                    self.s(out, &c); self.s(out, "("); self.expr(0, out); self.s(out, ")")
                }
                if self.pct(75) {
                    self.s(out, ":");
                    for i in 0..self.r.geo(68, 4) { if i > 0 { self.s(out, ",") } let c = *self.r.pick(&["\"memory\"", "\"cc\"", "\"r0\"", "\"eax\"", "\"ebx\"", "\"xmm1\"", "\"r12\""]); self.s(out, c) }
                }
            }
        }
        let _ = outs;
        self.s(out, ")");
    }

    pub fn body(&mut self, out: &mut Vec<String>) {
        let d = self.st.depth;
        if self.st.stmts > 0 && self.r.pct(self.st.stmts) {
            let n = self.r.range(1, 3);
            for i in 0..n { let last = i + 1 == n; self.stmt(d.min(2), last, out) }
        } else if self.r.pct(self.st.combos) { let k = self.r.range(1, 3); self.combo(k, out) } else { self.expr(d, out) }
    }
}

/// A macro with its parameters.
fn macro_(r: &mut Rng, st: Style, i: usize, fn_pct: u32) -> Src {
    let is_fn = r.pct(fn_pct);
    let mut params: Vec<String> = vec![];
    let mut roles = vec![];
    if is_fn {
        for k in 0..r.geo(65, 4) {
            params.push(if st.rust_words > 0 && r.pct(st.rust_words) { format!("{}", ["type", "ref", "in"][k % 3]) } else { format!("p{}", k + 1) });
            roles.push(if st.roles { *r.pick(&[Role::Val, Role::Val, Role::Val, Role::Id, Role::Ty]) } else { Role::Val });
        }
        if r.pct(15) { params.push("...".into()); roles.push(Role::Val) }
    }
    params.dedup();
    let mut body = vec![];
    // Macros which have more of something than others.
    let skew = if r.pct(35) { Skew { nums: *r.pick(&[0, 0, 40, 70]), conds: *r.pick(&[0, 0, 20, 40]), casts: *r.pick(&[0, 0, 20]), postfix: *r.pick(&[0, 0, 0, 30]), same: *r.pick(&[0, 0, 40]) } } else { Skew::default() };
    let mut g = Gen { r, st, n: 20 * i + 10, roles, params: params.clone(), braces: 0, skew };
    g.body(&mut body);
    if body.len() > 70 { body.truncate(70) }
    let name = if r.pct(3) { [["type", "match", "dyn"], ["fn", "impl", "try"], ["async", "where", "mod"]][i % 3][r.below(3)].to_string() } else { format!("M{i}") };
    Src { name, args: if is_fn { Some(params) } else { None }, body, damage: vec![] }
}

const TYPES: &[&str] = &["c_int", "c_uint", "u32", "f64", "*const c_char", "*mut c_void", "MyT", "a::b::T", "*mut *const MyT", "::core::ffi::c_int", "libc::c_long", "i64", "c_ulong", "f32", "bool", "*mut c_int"];
const BAD_TYPES: &[&str] = &["fn(i32)", "[u8; 4]", "_", "!", "(a, b)", "&str", "dyn Foo", "Vec<u8>", "<A as B>::C", "Option<unsafe extern \"C\" fn()>", "[u8]", "impl Foo", "*mut [u8; 2]", "*const Vec<u8>", "verbatim:a b", "verbatim:1 +", "m!()", "verbatim:", "*mut fn(i32)"];
const EXPRS: &[&str] = &["E::A", "Enum_B", "42", "a::b::C", "C_CONST", "E::A as c_int", "-1"];

#[derive(Clone, Copy)]
struct Know { args: u32, enums: u32, tys: u32, fields: u32, fns: u32, bad: u32, same: bool, enum_fields: bool }

fn ctx(r: &mut Rng, macros: &[Src], k: Know) -> CtxSpec {
    let mut c = CtxSpec::default();
    if r.pct(40) { c.ffi_prefix = Some(r.pick(&["::core::ffi", "libc", "::std::ffi"]).to_string()) }
    if r.pct(40) { c.trait_prefix = Some(r.pick(&["::core", "::std", "core"]).to_string()) }
    if r.pct(40) { c.rust_target = Some(r.pick(&["1.16.0", "1.40.0", "1.70.0", "nightly", "1.59.0", "1.0", "x"]).to_string()) }
    let ty = |r: &mut Rng, name: &str| -> String {
        if k.bad > 0 && r.pct(k.bad) { return r.pick(BAD_TYPES).to_string() }
        if k.same { return name.into() }
        r.pick(TYPES).to_string()
    };
    let mono = r.pct(40);
    let one = ty(r, "T0");
    let mut seen: Vec<(String, usize)> = vec![];
    for m in macros {
        for p in m.args.iter().flatten() { if r.pct(k.args) { let t = if mono { one.clone() } else { ty(r, "T0") }; c.args.push((m.name.clone(), p.clone(), t)) } }
        for (i, t) in m.body.iter().enumerate() {
            let b = t.as_bytes();
            if b.len() < 2 || !b[0].is_ascii_alphabetic() { continue }
            if seen.iter().any(|s| &s.0 == t) { continue }
            let digits = |n: usize| t.len() > n && t[n..].bytes().all(|b| b.is_ascii_digit());
            let arity = if m.body.get(i + 1).map_or(false, |t| t == "(") {
                let (mut d, mut n, mut any) = (0, 0, false);
                for x in &m.body[i + 1..] { match x.as_str() { "(" | "[" => { d += 1; if d > 1 { any = true } }, ")" | "]" => { d -= 1; if d == 0 { break } }, "," if d == 1 => n += 1, _ => any = true } }
                if any { n + 1 } else { 0 }
            } else { 1 };
            seen.push((t.clone(), arity));
            match b[0] {
                b'v' if digits(1) => if r.pct(k.enums) { let x = ty(r, "T0"); let e = if t.len() > 2 || r.pct(80) { r.pick(&EXPRS[..5]) } else { r.pick(EXPRS) }; c.enums.push((t.clone(), x, e.to_string())) },
                b't' if digits(1) => if r.pct(k.tys) { let x = ty(r, t); c.tys.push((t.clone(), x)) },
                b'f' if t.starts_with("fn") => if r.pct(k.fns) {
                    let n = if r.pct(85) { arity } else { r.below(4) };
                    let a = (0..n).map(|_| if mono { one.clone() } else { ty(r, "T0") }).collect();
                    let x = if r.pct(15) { "()".into() } else { ty(r, "T0") };
                    c.fns.push((t.clone(), a, x));
                },
                b'f' if digits(1) => {
                    if r.pct(k.fields) { for of in ["MyT", "t1", "t2"] { let x = ty(r, "T0"); c.fields.push((of.into(), t.clone(), x)) } }
                    if k.enum_fields && r.pct(15) { let x = ty(r, "T0"); c.enums.push((t.clone(), x, r.pick(EXPRS).to_string())) }
                },
                _ => if r.pct(k.tys / 2) { let x = ty(r, t); c.tys.push((t.clone(), x)) },
            }
        }
        if r.pct(6) && k.fns > 0 { c.fns.push((m.name.clone(), vec!["c_int".into()], "c_int".into())) }
    }
    if r.pct(15) && !k.same { c.tys.push(("size_t".into(), "usize".into())) }
    let wide = macros.iter().any(|m| m.body.iter().any(|t| t.starts_with("L\"")));
    if r.pct(if wide { 50 } else { 10 }) && !k.same { c.tys.push(("wchar_t".into(), r.pick(&["c_int", "u16", "i32", "u32"]).to_string())) }
    c
}

fn flaps(r: &mut Rng, c: &mut CtxSpec) {
    if r.pct(25) { c.fickle = r.range(1, 2) as u8; return }
    for _ in 0..r.range(1, 3) { c.flaps.push(r.below(14) as u32) }
    if r.pct(40) { let (k, n) = (r.below(14) as u32, if r.pct(50) { 1 } else { r.range(2, 12) as u32 }); c.spoils.extend(k..k + n) }
}

/// All words in a text.
fn words_of(s: &str) -> Vec<String> { s.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect() }

/// Can the name be put together from pieces?
pub fn composed(name: &str, pieces: &[String]) -> bool { pieces.iter().any(|p| p == name || !p.is_empty() && name.strip_prefix(p.as_str()).map_or(false, |rest| composed(rest, pieces))) }

/// Give the names in the macros, and in what is known about them, the affixes that names in headers have.
fn affixes(r: &mut Rng, macros: &mut [Src], c: &mut CtxSpec) {
    let mut names: Vec<String> = macros.iter().flat_map(|m| m.body.iter()).filter(|t| { let b = t.as_bytes(); b.len() >= 2 && matches!(b[0], b'v' | b't' | b'f') && b[b.len() - 1].is_ascii_digit() && t.bytes().all(|b| b.is_ascii_alphanumeric()) }).cloned().collect();
    names.sort();
    names.dedup();
    for n in names {
        if !r.pct(60) { continue }
        let new = match (n.as_bytes()[0], r.below(8)) { (b't', 0..=4) => format!("{n}_t"), (_, 0) => format!("{n}_t"), (_, 1) => format!("_{n}"), (_, 2) => format!("{n}_"), (_, 3) => n.to_uppercase(), (_, 4) => format!("__{n}__"), (_, 5) => format!("lib_{n}"), (_, 6) => format!("{n}_s"), _ => continue };
        let sub = |s: &mut String| if *s == n { *s = new.clone() };
        for m in macros.iter_mut() { m.body.iter_mut().for_each(sub) }
        c.enums.iter_mut().for_each(|e| sub(&mut e.0));
        c.tys.iter_mut().for_each(|e| sub(&mut e.0));
        c.fields.iter_mut().for_each(|e| { sub(&mut e.0); sub(&mut e.1) });
        c.fns.iter_mut().for_each(|e| sub(&mut e.0));
    }
}

/// A name that differs a little.
fn akin(r: &mut Rng, n: &str) -> String {
    let strip = |n: &str, suffixes: &[&str]| suffixes.iter().find_map(|s| n.strip_suffix(s).or_else(|| n.strip_prefix(s))).unwrap_or(n).to_string();
    match r.below(9) {
        0 | 1 => strip(n, &["_t", "_s", "__", "_", "lib_"]),
        2 => n.trim_matches('_').to_string(),
        3 => format!("{n}_t"),
        4 => format!("_{n}"),
        5 => format!("{n}_"),
        6 => if n.bytes().any(|b| b.is_ascii_lowercase()) { n.to_uppercase() } else { n.to_lowercase() },
        7 => n.trim_end_matches(|c: char| c.is_ascii_digit()).to_string(),
        _ => format!("{}{n}", r.pick(&["lib_", "__", "enum_", "struct_", "E_"])),
    }
}

/// All words that names in these macros can be put together from.
pub fn pieces<'a>(macros: &[Src], ctxs: impl IntoIterator<Item = &'a CtxSpec>) -> Vec<String> {
    let mut pieces: Vec<String> = macros.iter().flat_map(|m| m.body.iter().chain(m.args.iter().flatten()).chain([&m.name])).flat_map(|t| words_of(t)).collect();
    for c in ctxs { pieces.extend(words_of(&format!("{c:?}"))) }
    pieces.extend(words_of("wchar_t size_t ssize_t char8_t char16_t char32_t int char short long float double bool void"));
    pieces.sort();
    pieces.dedup();
    pieces
}

/// Answers about names that resemble those in the macros, but do not occur in them.
fn alike(r: &mut Rng, c: &mut CtxSpec, macros: &[Src]) {
    let pieces = pieces(macros, [&*c]);
    let names: Vec<String> = macros.iter().flat_map(|m| m.body.iter()).filter(|t| t.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && t.len() > 1).cloned().collect();
    if names.is_empty() { return }
    for _ in 0..r.range(4, 10) {
        let of = r.pick(&names).clone();
        let n = akin(r, &of);
        let m = r.pick(macros);
        let p = m.args.iter().flatten().next().map(|p| akin(r, p)).unwrap_or("p99".into());
        let mn = akin(r, &m.name);
        let known = |n: &str| !n.starts_with(|c: char| c.is_alphabetic() || c == '_') || n.contains('.') || composed(n, &pieces);
        let t = r.pick(TYPES).to_string();
        match r.below(12) {
            0 => if !known(&p) { c.args.push((m.name.clone(), p, t)) },
            1 => if !known(&mn) { for p in m.args.iter().flatten() { c.args.push((mn.clone(), p.clone(), t.clone())) } },
            _ if known(&n) => (),
            2..=4 => c.enums.push((n, t, r.pick(EXPRS).to_string())),
            5..=8 => c.tys.push((n, t)),
            9 => { let of = r.pick(&["MyT", "t1", "t2"]).to_string(); c.fields.push((of, n, t)) },
            10 => c.fields.push((n, "f1".into(), t)),
            _ => c.fns.push((n, vec!["c_int".into(); r.below(3)], t)),
        }
    }
}

/// Answers about names that do not occur in any macro.
fn unrelated(r: &mut Rng, c: &CtxSpec, macros: &[Src]) -> CtxSpec {
    let mut c = c.clone();
    for _ in 0..r.range(1, 6) {
        let n = r.range(100, 140);
        match r.below(7) {
            0 => c.args.push((format!("M{n}"), "p1".into(), r.pick(TYPES).to_string())),
            1 => { let m = r.pick(macros).name.clone(); c.args.push((m, format!("p{n}"), r.pick(TYPES).to_string())) },
            2 => c.enums.push((format!("v{n}"), r.pick(TYPES).to_string(), r.pick(EXPRS).to_string())),
            3 => c.tys.push((format!("t{n}"), r.pick(TYPES).to_string())),
            4 => c.fields.push((format!("t{}", n % 5), format!("f{n}"), r.pick(TYPES).to_string())),
            5 => c.fns.push((format!("fn{n}"), vec!["c_int".into(); r.below(3)], r.pick(BAD_TYPES).to_string())),
            _ => c.fns.push((format!("M{n}"), vec![], "c_int".into())),
        }
    }
    if r.pct(70) { alike(r, &mut c, macros) }
    // The order of the answers in the table is nobody's business.
    r.shuffle(&mut c.fields);
    r.shuffle(&mut c.fns);
    c
}

/// Macros as they occur in headers, with a context that knows much of what they use.
pub fn header(r: &mut Rng, n: usize) -> (Vec<Src>, CtxSpec) {
    let st = Style { unique: false, roles: r.pct(70), stmts: 35, asm: *r.pick(&[6, 20]), comments: if r.pct(20) { 5 } else { 0 }, rust_words: 0, depth: r.range(1, 2), glue: 6, exotic: true, combos: *r.pick(&[0, 30, 60]) };
    let ms: Vec<Src> = (0..n).map(|i| macro_(r, st, i, 60)).collect();
    let k = if r.pct(50) { Know { args: 100, enums: 80, tys: 100, fields: 90, fns: 90, bad: 0, same: false, enum_fields: false } } else { Know { args: 60, enums: 40, tys: 80, fields: 50, fns: 50, bad: 3, same: false, enum_fields: false } };
    let c = ctx(r, &ms, k);
    (ms, c)
}

pub fn plan(prop: &str, seed: u64) -> (Plan, Vec<&'static str>) {
    let mut rng = Rng::new(mix(seed, 0xC0DE));
    let r = &mut rng;
    let mut faults = vec![];
    let mut p = Plan { prop: prop.into(), seed, flavour: String::new(), envs: vec![env(r)], setup: vec![], clients: vec![], ctxs: vec![], macros: vec![], attempts: vec![], leak: None };
    let st = Style { unique: false, roles: true, stmts: 30, asm: 6, comments: 0, rust_words: 0, depth: 2, glue: 4, exotic: true, combos: *r.pick(&[0, 30, 60]) };
    let full = Know { args: 60, enums: 40, tys: 80, fields: 50, fns: 50, bad: 0, same: false, enum_fields: false };
    let fault = |r: &mut Rng, pc: u32| if r.pct(pc) { Some(Fault::Callback { at: r.geo(82, 24) as u32 }) } else { None };
    match prop {
        "P07" => {
            p.flavour = "attempts".into();
            let st = Style { roles: r.pct(60), comments: if r.pct(20) { 5 } else { 0 }, depth: r.range(1, 3), ..st };
            let n = r.range(1, 2);
            for i in 0..n { let mut m = macro_(r, st, i, 65); if r.pct(10) { damage(r, &mut m.body, &mut faults) } p.macros.push(m) }
            let base = ctx(r, &p.macros, Know { bad: 0, ..full });
            for i in 0..r.range(2, 4) {
                let mut c = match (i, r.below(5)) {
                    (0, _) => base.clone(),
                    (_, 0) => CtxSpec::default(),
                    (_, 1) => ctx(r, &p.macros, Know { args: 90, enums: 90, tys: 100, fields: 90, fns: 90, ..full }),
                    (_, 2) => ctx(r, &p.macros, Know { bad: 10, ..full }),
                    _ => ctx(r, &p.macros, full),
                };
                if r.pct(25) { flaps(r, &mut c) }
                p.ctxs.push(c);
            }
            // Now and then very many: leaks of any sort add up.
            let many = if r.pct(1) { r.range(100, 400) } else { r.range(2, 6) };
            for _ in 0..many { let (m, cx) = (r.below(n), r.below(p.ctxs.len())); let how = if r.pct(15) { r.range(1, 3) as u8 } else { 0 };
                let fault = if r.pct(12) { Some(Fault::GenAlloc { at: 1 + r.geo(97, 400) as u64 }) } else { fault(r, 30) }; p.attempts.push(Attempt { m, cx, how, fault }) }
        },
        "P11" => {
            let n = r.range(1, 3);
            let st = Style { roles: r.pct(30), comments: if r.pct(30) { 5 } else { 0 }, depth: r.range(1, 3), rust_words: if r.pct(30) { 10 } else { 0 }, glue: 6, asm: if r.pct(20) { 30 } else { 6 }, ..st };
            p.flavour = "damaged".into();
            let noise = r.below(14);
            for i in 0..n {
                let mut m = macro_(r, st, i, 65);
                if noise < 2 { m.body = (0..r.geo(85, 14)).map(|_| soup(r)).collect(); p.flavour = "token soup".into() }
                if noise == 2 { m.body = nested(r); p.flavour = "deeply nested".into(); if r.pct(60) { let k = r.below(m.body.len() + 1); if r.pct(50) { m.body.truncate(k) } else if k < m.body.len() { m.body.remove(k); } faults.push("stream truncated"); m.damage = vec!["stream truncated".into()] } }
                if noise > 6 { if noise > 10 { stream_damage(r, &mut m.body, &mut faults) } else { damage(r, &mut m.body, &mut faults) } m.damage = faults.iter().map(|s| s.to_string()).collect() }
                if r.pct(15) { let k = r.below(m.body.len() + 1); let x = r.pick(&["$0", "$1", "$5", "$18446744073709551615"]).to_string(); m.body.insert(k, x); faults.push("foreign parameter token") }
                if r.pct(3) { m.args = None; m.body = (0..r.range(1, 2)).map(|_| r.pick(&["L\"w\"", "L\"\"", "u8\"x\"", "\"a\\0b\"", "L'w'"]).to_string()).collect() }
                if let Some(a) = &mut m.args { if r.pct(12) { damage(r, a, &mut faults) } }
                if r.pct(4) { m.name = r.pick(&["", "1x", "a b", "_", "self", "type", "r#x", "é", "+", "M\u{301}", "Self", "crate"]).to_string() }
                trim(&mut m.body);
                p.macros.push(m);
            }
            for _ in 0..r.range(1, 2) {
                let k = match r.below(4) { 0 => Know { args: 0, enums: 0, tys: 30, fields: 0, fns: 0, ..full }, 1 => Know { bad: 30, enum_fields: true, ..full }, 2 => Know { args: 100, enums: 100, tys: 100, fields: 100, fns: 100, enum_fields: true, ..full }, _ => full };
                let mut c = ctx(r, &p.macros, k);
                if r.pct(30) { flaps(r, &mut c) }
                if r.pct(6) { c.tys.push(("wchar_t".into(), r.pick(BAD_TYPES).to_string())) }
                if r.pct(6) { c.tys.push(("size_t".into(), r.pick(BAD_TYPES).to_string())) }
                p.ctxs.push(c);
            }
            for m in 0..n { for cx in 0..p.ctxs.len() { let how = if r.pct(10) { r.range(1, 3) as u8 } else { 0 }; let fault = fault(r, 10); p.attempts.push(Attempt { m, cx, how, fault }) } }
        },
        "P13" => {
            let n = r.range(1, 2);
            let shape = r.below(13);
            p.flavour = ["simple", "simple", "simple", "calls", "calls", "calls", "expressions", "expressions", "expressions", "statements", "values", "values", "values"][shape].into();
            for i in 0..n {
                let st = Style { stmts: if shape == 9 { 90 } else { 0 }, roles: r.pct(50), depth: r.range(1, 2), ..st };
                let mut m = macro_(r, st, i, 100);
                let np = m.args.as_ref().unwrap().len();
                if shape > 9 {
                    m.body.clear();
                    let few = r.range(1, 3);
                    let d = r.range(1, 3);
                    value(r, np, few, d, &mut m.body);
                }
                if shape < 6 && np > 0 {
                    let v = |r: &mut Rng| format!("${}", r.below(np));
                    m.body = match (shape, r.below(6)) {
                        (0..=2, 0) => vec![v(r)],
                        (0..=2, 1 | 2) => vec![v(r), r.pick(&["+", "-", "*", "/", "%", "&", "|", "^"]).to_string(), v(r)],
                        (0..=2, 3) => vec![v(r), "+".into(), r.pick(&["v1", "v2", "1", "fn1"]).to_string()],
                        (0..=2, 4) => vec!["(".into(), "t1".into(), ")".into(), v(r)],
                        (0..=2, _) => vec![v(r), "->".into(), "f1".into()],
                        _ => {
                            let mut b = vec![format!("fn{}", r.range(1, 3)), "(".to_string()];
                            for k in 0..r.geo(70, 3) { if k > 0 { b.push(",".into()) } let x = match r.below(6) { 0 => vec!["v1".to_string()], 1 => vec!["1".into()], 2 => vec!["(".into(), v(r), ")".into()], 3 if r.pct(40) => vec!["fn2".into(), "(".into(), v(r), ")".into()], _ => vec![v(r)] }; b.extend(x) }
                            b.push(")".into());
                            if r.pct(20) { b.push("+".into()); b.push(v(r)) }
                            b
                        },
                    };
                }
                p.macros.push(m);
            }
            for _ in 0..r.range(1, 3) {
                let k = match r.below(8) { 6 => Know { args: 40, enums: 95, tys: 100, fields: 90, fns: 100, bad: 25, ..full }, 7 => Know { args: 100, enums: 100, tys: 100, fields: 100, fns: 100, same: false, ..full }, 0 | 1 => Know { args: 100, enums: 100, tys: 100, fields: 100, fns: 100, ..full }, 2 => Know { args: 85, enums: 85, tys: 100, fields: 80, fns: 90, ..full }, 3 => Know { args: 30, enums: 60, fns: 90, ..full }, 4 => Know { args: 90, enums: 90, fns: 90, tys: 95, fields: 90, bad: 15, ..full }, _ => full };
                let mut c = ctx(r, &p.macros, k);
                if r.pct(15) { flaps(r, &mut c) }
                p.ctxs.push(c);
            }
            for m in 0..n { for cx in 0..p.ctxs.len() { p.attempts.push(Attempt { m, cx, how: 0, fault: None }) } }
        },
        "P14" => {
            let n = r.range(1, 2);
            let st = Style { depth: r.range(1, 3), rust_words: if r.pct(15) { 8 } else { 0 }, comments: if r.pct(10) { 4 } else { 0 }, asm: if r.pct(15) { 26 } else { 3 }, stmts: *r.pick(&[0, 30, 60, 90]), exotic: false, ..st };
            p.flavour = if st.stmts > 50 { "statements".into() } else { "expressions".into() };
            for i in 0..n { p.macros.push(macro_(r, st, i, 75)) }
            // The whole range from nothing known to everything known.
            for _ in 0..r.range(2, 4) {
                let q = |r: &mut Rng| *r.pick(&[0u32, 30, 60, 90, 100, 100]);
                let k = Know { args: q(r), enums: q(r), tys: *r.pick(&[80u32, 100, 100]), fields: q(r), fns: q(r), bad: 0, same: r.pct(20), enum_fields: true };
                let mut c = ctx(r, &p.macros, k);
                if r.pct(25) { flaps(r, &mut c) }
                p.ctxs.push(c);
            }
            for m in 0..n { for cx in 0..p.ctxs.len() { p.attempts.push(Attempt { m, cx, how: 0, fault: None }) } }
        },
        "P15" => {
            let n = r.range(1, 2);
            let st = Style { unique: r.pct(60), roles: r.pct(60), stmts: 35, depth: r.range(1, 2), comments: if r.pct(15) { 4 } else { 0 }, exotic: false, ..st };
            let dmg = r.pct(45);
            p.flavour = if dmg { "damaged".into() } else { "intact".into() };
            for i in 0..n {
                let mut m = macro_(r, st, i, 70);
                if dmg { for _ in 0..r.range(1, 2) { stream_damage(r, &mut m.body, &mut faults) } m.damage = faults.iter().map(|s| s.to_string()).collect() }
                p.macros.push(m);
            }
            for _ in 0..r.range(1, 2) {
                let k = Know { args: *r.pick(&[0, 50, 100]), enums: 0, tys: 100, fields: 50, fns: *r.pick(&[0, 50, 100]), bad: 0, same: true, enum_fields: false };
                let c = ctx(r, &p.macros, k);
                p.ctxs.push(c);
            }
            for m in 0..n { for cx in 0..p.ctxs.len() { p.attempts.push(Attempt { m, cx, how: 0, fault: None }) } }
        },
        _ => {
            p.flavour = "pairs".into();
            let n = r.range(2, 3);
            let st = Style { roles: r.pct(60), depth: r.range(1, 2), ..st };
            for i in 0..n { let mut m = macro_(r, st, i, 65); m.body.retain(|t| t != "..."); p.macros.push(m) }
            let affix = r.pct(50);
            for k in 0..r.range(1, 2) {
                let bad = if r.pct(10) { 10 } else { 0 };
                let k2 = if r.pct(30) { Know { tys: 30, enums: 20, bad, ..full } } else { Know { bad, ..full } };
                let mut a = ctx(r, &p.macros, k2);
                if affix && k == 0 { affixes(r, &mut p.macros, &mut a) }
                if r.pct(10) { flaps(r, &mut a) }
                let mut b = if r.pct(75) { unrelated(r, &a, &p.macros) } else { a.clone() };
                if r.pct(45) { b.reenter = true }
                if r.pct(40) { b.others = r.range(1, 255) as u8 }
                p.ctxs.push(a);
                p.ctxs.push(b);
            }
            for _ in 0..r.range(2, 5) { let (m, cx) = (r.below(n), r.below(p.ctxs.len())); let how = if r.pct(50) { r.range(1, 3) as u8 } else { 0 }; let fault = fault(r, 20); p.attempts.push(Attempt { m, cx, how, fault }) }
        },
    }
    (p, faults)
}

/// An expression of few operands, so that types meet.
fn value(r: &mut Rng, np: usize, few: usize, d: usize, out: &mut Vec<String>) {
    let s = |out: &mut Vec<String>, t: &str| out.push(t.to_string());
    let atom = |r: &mut Rng, out: &mut Vec<String>| match r.below(10) {
        0..=5 if np > 0 => out.push(format!("${}", r.below(np))),
        6 => out.push(r.pick(&["1", "0", "42", "7"]).to_string()),
        7 if r.pct(25) => { out.push(format!("v{}", r.range(1, few))); s(out, "##"); if np > 0 && r.pct(30) { out.push(format!("${}", r.below(np))) } else { out.push(format!("v{}", r.range(1, few))) } },
        _ => out.push(format!("v{}", r.range(1, few))),
    };
    if d == 0 { return atom(r, out) }
    match r.below(14) {
        0 | 1 => { value(r, np, few, d - 1, out); s(out, "?"); value(r, np, few, d - 1, out); s(out, ":"); value(r, np, few, d - 1, out) },
        2..=6 => { value(r, np, few, d - 1, out); let op = *r.pick(&["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"]); s(out, op); value(r, np, few, d - 1, out) },
        7 => { value(r, np, few, d - 1, out); let op = *r.pick(&["<", ">", "<=", ">=", "==", "!="]); s(out, op); value(r, np, few, d - 1, out) },
        8 | 9 => { s(out, "("); value(r, np, few, d - 1, out); s(out, ")") },
        10 => { let op = *r.pick(&["-", "~", "!", "+", "&", "*"]); s(out, op); atom(r, out) },
        11 => { s(out, "("); out.push(format!("t{}", r.range(1, 2))); if r.pct(30) { s(out, "*") } s(out, ")"); atom(r, out) },
        12 => {
            if np > 0 && r.pct(12) { out.push(format!("${}", r.below(np))) } else { out.push(format!("fn{}", r.range(1, few))) }
            if r.pct(5) { s(out, "##"); s(out, "v1") }
            s(out, "(");
            for k in 0..r.geo(60, 3) { if k > 0 { s(out, ",") } value(r, np, few, (d - 1).min(1), out) }
            s(out, ")")
        },
        _ => atom(r, out),
    }
}

/// Loss, duplication, reordering and foreign tokens, leaving the tokens themselves whole.
fn stream_damage(r: &mut Rng, v: &mut Vec<String>, faults: &mut Vec<&'static str>) {
    if v.is_empty() { return }
    let k = r.below(v.len());
    match r.below(6) {
        0 | 1 => { v.remove(k); faults.push("token lost") },
        2 => { let t = v[k].clone(); v.insert(k, t); faults.push("token duplicated") },
        3 => { let j = r.below(v.len()); v.swap(k, j); faults.push("tokens reordered") },
        4 => { let t = r.pick(&["v998", "t998", "f998", "fn998", ",", ")", "(", "+", "*", ";", "7777", "\"foreign\"", "}", "{", "else", "const", "=", ".", "&", "##", "#", "[", "]", "?", ":", "while", "++"]).to_string(); v.insert(k, t); faults.push("foreign token") },
        _ => { v.truncate(k); faults.push("stream truncated") },
    }
}

/// Constructs nested in each other up to the depth that C guarantees.
fn nested(r: &mut Rng) -> Vec<String> {
    const E: &[(&str, &str)] = &[("(", ")"), ("fn1 (", ")"), ("( t1 ) (", ")"), ("( fn1 ) (", ", v1 )"), ("( v1 ) - (", ")"), ("- (", ")"), ("* ( t1 * ) (", ")"), ("v1 [", "]"), ("v1 ? (", ") : v2"), ("v1 ? v2 : (", ")"),
        ("( t1 ) ( t1 * ) & (", ")"), ("sizeof ( int ) + (", ")"), ("( v1 ) ( v2 ) (", ")"), ("v1 = (", ")"), ("v1 + ( v2 ) * (", ")"), ("fn1 ( v1 , ( v2 ) ,", ")"), ("\"s\" (", ")"), ("$0 (", ")"), ("( $0 ) (", ")"), ("( int ) (", ")"), ("v1 -> f1 + (", ") . f2")];
    const S: &[(&str, &str)] = &[("{", "}"), ("if ( v1 )", ""), ("do", "while ( v1 )"), ("if ( v1 ) {", "} else { v2 ; }"), ("if ( v1 ) v2 ; else", ""), ("{ v1 ;", "; v2 ; }")];
    let mut n = r.range(8, 60);
    let kinds: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(E.len())).collect();
    let (mut pre, mut post): (Vec<&str>, Vec<&str>) = (vec![], vec![]);
    let mut len = 0;
    if r.pct(25) {
        let kinds: Vec<usize> = (0..r.range(1, 2)).map(|_| r.below(S.len())).collect();
        let k = r.range(1, n);
        n -= k;
        for _ in 0..k { let (a, b) = S[*r.pick(&kinds)]; pre.push(a); post.push(b) }
    }
    for _ in 0..n { let (a, b) = E[*r.pick(&kinds)]; len += a.len() + b.len(); if len > 1500 { break } pre.push(a); post.push(b) }
    post.reverse();
    pre.iter().chain(&["v9"]).chain(&post).flat_map(|s| s.split(' ')).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
}

/// Any tokens at all.
fn soup(r: &mut Rng) -> String {
    match r.below(8) {
        0 => r.pick(JUNK).to_string(),
        1 => format!("${}", r.below(4)),
        2 => int(r),
        3 => r.pick(&["int", "const", "struct", "unsigned", "long", "if", "else", "do", "while", "sizeof", "static", "__asm__", "volatile", "t1", "__builtin_offsetof", "void", "char"]).to_string(),
        4 => r.pick(STRS).to_string(),
        5 => r.pick(&["v1", "fn1", "f1", "type", "self", "_", "__LINE__", "__FILE__"]).to_string(),
        _ => r.pick(&["(", ")", "(", ")", "{", "}", "[", "]", ";", ",", "+", "-", "*", "/", "%", "&", "|", "^", "!", "~", "<", ">", "<<", "==", "?", ":", "=", ".", "->", "++", "--", "#", "##", "...", "&&", "||", "+="]).to_string(),
    }
}

/// Keep the nesting depth within what the parser is expected to handle quickly.
fn trim(v: &mut Vec<String>) { while crate::codegen::depth(v) > 63 { let k = v.iter().rposition(|t| matches!(t.as_str(), "(" | "[" | "{")).unwrap(); v.truncate(k) } }
