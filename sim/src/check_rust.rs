//! What generated code has to look like: oracles over the produced tokens, independent of how they were produced.
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::ToTokens;
use syn::parse::Parser;

use crate::codegen::{Code, End, Shot};
use crate::ctx::{self, CtxSpec};
use crate::plan::{Outcome, Src};

type Verdict = Result<(), (String, String)>;
fn fail(class: &str, msg: impl Into<String>) -> Verdict { Err((class.into(), msg.into())) }
fn bare(s: &str) -> &str { s.strip_prefix("r#").unwrap_or(s) }

/// The recorded findings that this failure is an instance of.
pub fn is_known(id: &str, m: &Src, spec: &CtxSpec, class: &str, end: &End) -> bool {
    let _ = (m, spec, end);
    id == class
}

// ---------------------------------------------------------------- reading what was generated

pub struct Rules { pub name: String, pub alias: String, pub params: Vec<(String, String)>, pub variadic: bool, pub body: TokenStream }
pub struct Func { pub name: String, pub params: Vec<(String, syn::Type)>, pub ret: Option<syn::Type>, pub item: syn::ItemFn }
pub enum Item { Rules(Rules), Func(Func) }

fn norm(t: &syn::Type) -> String { t.to_token_stream().to_string() }

pub fn items(text: &str) -> Result<Item, String> {
    let ts = TokenStream::from_str(text).map_err(|e| format!("not Rust tokens: {e}"))?;
    let file: syn::File = syn::parse2(ts).map_err(|e| format!("not Rust items: {e}"))?;
    match &file.items[..] {
        [syn::Item::Fn(f)] => {
            let mut params = vec![];
            for i in &f.sig.inputs {
                match i {
                    syn::FnArg::Typed(t) => match &*t.pat {
                        syn::Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none() => params.push((p.ident.to_string(), (*t.ty).clone())),
                        p => return Err(format!("parameter pattern `{}`", p.to_token_stream())),
                    },
                    _ => return Err("a self parameter".into()),
                }
            }
            if f.sig.variadic.is_some() || !f.sig.generics.params.is_empty() { return Err("a variadic or generic function".into()) }
            let ret = match &f.sig.output { syn::ReturnType::Default => None, syn::ReturnType::Type(_, t) => Some((**t).clone()) };
            Ok(Item::Func(Func { name: f.sig.ident.to_string(), params, ret, item: f.clone() }))
        },
        [syn::Item::Macro(mac), syn::Item::Use(u)] => {
            if !mac.mac.path.is_ident("macro_rules") { return Err("not a macro definition".into()) }
            let name = mac.ident.as_ref().map(|i| i.to_string()).ok_or("macro without a name")?;
            let (from, alias) = match &u.tree {
                syn::UseTree::Rename(r) => (r.ident.to_string(), r.rename.to_string()),
                t => return Err(format!("use of `{}`", t.to_token_stream())),
            };
            if from != name { return Err(format!("`{name}` is defined but `{from}` is exported")) }
            if !matches!(u.vis, syn::Visibility::Public(_)) { return Err("the macro is not made public".into()) }
            let t: Vec<TokenTree> = mac.mac.tokens.clone().into_iter().collect();
            let (matcher, body) = match &t[..] {
                [TokenTree::Group(m), TokenTree::Punct(a), TokenTree::Punct(b), TokenTree::Group(body), rest @ ..]
                    if a.as_char() == '=' && b.as_char() == '>' && (rest.is_empty() || rest.len() == 1 && rest[0].to_string() == ";") => (m.stream(), body.stream()),
                _ => return Err("macro rules that are not one rule".into()),
            };
            let (params, variadic) = matcher_params(matcher)?;
            Ok(Item::Rules(Rules { name, alias, params, variadic, body }))
        },
        i => Err(format!("{} items", i.len())),
    }
}

fn matcher_params(ts: TokenStream) -> Result<(Vec<(String, String)>, bool), String> {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let p = |t: Option<&TokenTree>, c: char| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c);
    let (mut i, mut params, mut variadic) = (0, vec![], false);
    while i < t.len() {
        if !p(t.get(i), '$') { return Err("malformed macro pattern".into()) }
        match t.get(i + 1) {
            Some(TokenTree::Ident(n)) if p(t.get(i + 2), ':') => {
                let Some(TokenTree::Ident(f)) = t.get(i + 3) else { return Err("macro parameter without a fragment".into()) };
                params.push((n.to_string(), f.to_string()));
                i += 4;
            },
            Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                let (inner, nested) = matcher_params(g.stream())?;
                if nested || inner.len() != 1 { return Err("malformed repetition".into()) }
                if !(p(t.get(i + 2), ',') && p(t.get(i + 3), '*')) { return Err("malformed repetition".into()) }
                if variadic { return Err("two repetitions".into()) }
                variadic = true;
                params.extend(inner);
                i += 4;
                if i < t.len() { return Err("parameters after the repetition".into()) }
            },
            _ => return Err("malformed macro pattern".into()),
        }
        if i < t.len() {
            if !p(t.get(i), ',') { return Err("malformed macro pattern".into()) }
            i += 1;
            if i == t.len() { return Err("malformed macro pattern".into()) }
        }
    }
    Ok((params, variadic))
}

// ---------------------------------------------------------------- transcription

/// What the parameters stand for in one use of the macro: an `expr` fragment is one expression that cannot be anything else.
fn argument(frag: &str, n: usize) -> Result<TokenStream, String> {
    let id = Ident::new(&format!("arg{n}"), Span::call_site());
    Ok(match frag {
        "expr" => TokenTree::Group(Group::new(Delimiter::None, quote::quote! { #id + 1 })).into(),
        "ident" | "tt" | "ty" => TokenTree::Ident(id).into(),
        f => return Err(format!("unknown fragment {f}")),
    })
}

fn transcribe(ts: TokenStream, r: &Rules, inside: bool) -> Result<TokenStream, String> {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < t.len() {
        match &t[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                match t.get(i + 1) {
                    Some(TokenTree::Ident(n)) => {
                        let name = n.to_string();
                        let Some(k) = r.params.iter().position(|p| p.0 == name) else { return Err(format!("`${name}` is not a parameter of the macro")) };
                        let rep = r.variadic && k + 1 == r.params.len();
                        if rep && !inside { return Err(format!("`${name}` outside of a repetition")) }
                        out.extend(argument(&r.params[k].1, k)?);
                        i += 2;
                    },
                    Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                        if inside { return Err("nested repetition".into()) }
                        let mut j = i + 2;
                        if matches!(t.get(j), Some(TokenTree::Punct(p)) if p.as_char() == ',') { j += 1 }
                        if !matches!(t.get(j), Some(TokenTree::Punct(p)) if matches!(p.as_char(), '*' | '+')) { return Err("malformed repetition".into()) }
                        if !r.variadic { return Err("repetition in a macro without variable arguments".into()) }
                        let s = g.stream().to_string();
                        if !s.contains(&format!("$ {}", r.params.last().unwrap().0)) && !s.contains(&format!("${}", r.params.last().unwrap().0)) { return Err("repetition of nothing".into()) }
                        out.extend(transcribe(g.stream(), r, true)?);
                        i = j + 1;
                    },
                    _ => return Err("a stray `$`".into()),
                }
            },
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), transcribe(g.stream(), r, inside)?);
                ng.set_span(g.span());
                out.extend([TokenTree::Group(ng)]);
                i += 1;
            },
            x => { out.extend([x.clone()]); i += 1 },
        }
    }
    Ok(out)
}

fn split(ts: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut v = vec![vec![]];
    for t in ts {
        if matches!(&t, TokenTree::Punct(p) if p.as_char() == ',') { v.push(vec![]) } else { v.last_mut().unwrap().push(t) }
    }
    if v.last().map_or(false, |l| l.is_empty()) { v.pop(); }
    v
}

fn expr(ts: TokenStream) -> Result<syn::Expr, String> {
    let s = ts.to_string();
    syn::parse2::<syn::Expr>(ts).map_err(|e| format!("`{s}` is not an expression: {e}"))
}

/// Operands mentioned by a template.
fn placeholders(t: &str) -> Result<Vec<usize>, String> {
    let (c, mut i, mut v): (Vec<char>, _, _) = (t.chars().collect(), 0, vec![]);
    while i < c.len() {
        match c[i] {
            '{' | '}' if c.get(i + 1) == Some(&c[i]) => i += 1,
            '{' => {
                let n: String = c[i + 1..].iter().take_while(|c| c.is_ascii_digit()).collect();
                i += 1 + n.len();
                match n.parse() { Ok(n) if c.get(i) == Some(&'}') => v.push(n), _ => return Err(format!("assembly template {t:?} with an unescaped brace")) }
            },
            '}' => return Err(format!("assembly template {t:?} with an unescaped brace")),
            _ => (),
        }
        i += 1;
    }
    Ok(v)
}

/// Whether the only assembly in the macro mentions none but existing operands.
fn asm_operands(m: &Src) -> bool {
    let b: Vec<&str> = m.body.iter().map(|t| t.as_str()).filter(|t| !t.starts_with("/*") && !t.starts_with("//")).collect();
    let is = |t: &&str| matches!(*t, "asm" | "__asm" | "__asm__");
    if b.iter().filter(|t| is(t)).count() != 1 { return false }
    let Some(mut i) = b.iter().position(|t| is(&t)) else { return false };
    while b.get(i).map_or(false, |t| *t != "(") { i += 1 }
    let Some(t) = b.get(i + 1) else { return false };
    let (mut d, mut n) = (0, 0);
    for k in i..b.len() {
        match b[k] { "(" => { if d == 1 && b[k - 1].starts_with('"') { n += 1 } d += 1 }, ")" => { d -= 1; if d == 0 { break } }, _ => () }
    }
    d == 0 && t.split('%').skip(1).all(|s| { let n2: String = s.chars().take_while(|c| c.is_ascii_digit()).collect(); n2.is_empty() || n2.parse::<usize>().map_or(false, |k| k < n) })
}

/// Arguments of the macros that generated code uses.
fn inner_macros(ts: TokenStream, asm: bool) -> Result<(), String> {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    for i in 0..t.len() {
        if let TokenTree::Group(g) = &t[i] { inner_macros(g.stream(), asm)? }
        let (Some(TokenTree::Ident(n)), Some(TokenTree::Punct(b)), Some(TokenTree::Group(g))) = (t.get(i), t.get(i + 1), t.get(i + 2)) else { continue };
        if b.as_char() != '!' { continue }
        // `!=` is one operator; `x ! (..)` otherwise only is a macro call.
        let args = split(g.stream());
        let collect = |v: &[TokenTree]| v.iter().cloned().collect::<TokenStream>();
        match n.to_string().as_str() {
            "concat_idents" => {
                if args.len() < 2 { return Err(format!("concatenation of {} identifiers", args.len())) }
                for a in &args { if !matches!(&a[..], [TokenTree::Ident(_)]) { return Err(format!("`{}` is not an identifier and cannot be concatenated", collect(a))) } }
            },
            "offset_of" => {
                if args.len() != 2 { return Err("offset_of needs a type and a field".into()) }
                syn::parse2::<syn::Type>(collect(&args[0])).map_err(|e| format!("offset_of of `{}`: {e}", collect(&args[0])))?;
                if !args[1].iter().all(|t| matches!(t, TokenTree::Ident(_)) || t.to_string() == ".") { return Err(format!("offset_of field `{}`", collect(&args[1]))) }
            },
            "stringify" => if g.stream().is_empty() { return Err("stringification of nothing".into()) },
            "concat" | "format" | "line" | "file" => for a in &args { expr(collect(a))?; },
            "asm" | "global_asm" => {
                let mut lead = true;
                let (mut template, mut operands) = (vec![], 0);
                for a in &args {
                    match &a[..] {
                        [TokenTree::Literal(l)] if lead && l.to_string().starts_with('"') => template.push(syn::parse_str::<syn::LitStr>(&l.to_string()).map_err(|e| format!("template {l}: {e}"))?.value()),
                        [TokenTree::Ident(k), TokenTree::Group(_)] if matches!(k.to_string().as_str(), "options" | "clobber_abi") => lead = false,
                        [TokenTree::Ident(k), TokenTree::Group(r), rest @ ..] if matches!(k.to_string().as_str(), "in" | "out" | "inout" | "lateout" | "inlateout") => {
                            lead = false;
                            let named = matches!(r.stream().into_iter().next(), Some(TokenTree::Literal(_)));
                            if !named { operands += 1 }
                            let r: Vec<_> = r.stream().into_iter().collect();
                            if !matches!(&r[..], [TokenTree::Ident(_)]) && !matches!(&r[..], [TokenTree::Literal(l)] if l.to_string().starts_with('"')) { return Err(format!("`{}` is not a register", collect(&r))) }
                            let s = collect(rest);
                            let txt = s.to_string();
                            match txt.split_once("=>") {
                                Some((a, b)) => { expr(TokenStream::from_str(a).unwrap_or_default())?; expr(TokenStream::from_str(b).unwrap_or_default())?; },
                                None => { expr(s)?; },
                            }
                        },
                        a => return Err(format!("assembly operand `{}`", collect(a))),
                    }
                }
                for n in placeholders(&template.join("\n"))? {
                    if asm && n >= operands { return Err(format!("the assembly template mentions operand {n} of {operands}")) }
                }
            },
            _ => (),
        }
    }
    Ok(())
}

fn same_params(m: &Src, got: &[String]) -> bool {
    let want = declared(m);
    want.len() == got.len() && want.iter().zip(got).all(|(w, g)| w == "..." && g == "__VA_ARGS__" || w == bare(g))
}

/// Parameter names as delivered.
pub fn declared(m: &Src) -> Vec<String> { m.args.iter().flatten().filter(|a| !a.starts_with("/*") && !a.starts_with("//")).cloned().collect() }

pub fn well_formed(m: &Src, s: &Shot, out: &mut Outcome) -> Verdict {
    let code = match &s.end { End::Code(c) => c, _ => return Ok(()) };
    out.checks += 1;
    match code {
        Code::Var(v, t) => {
            let ts = match TokenStream::from_str(v) { Ok(t) => t, Err(e) => return fail("ill-formed", format!("the value is not Rust tokens: {e}")) };
            if let Err(e) = expr(ts.clone()).and_then(|_| inner_macros(ts, asm_operands(m))) { return fail("ill-formed", format!("the value {e}")) }
            if let Some(t) = t {
                match syn::parse_str::<syn::Type>(t) {
                    Err(e) => return fail("ill-formed", format!("the type `{t}` is not a type: {e}")),
                    Ok(ty) => if let Some(why) = syn::parse_str(v).ok().and_then(|v| no_value_of(&v, &ty)) { return fail("ill-formed", why) },
                }
            }
            Ok(())
        },
        Code::Fn(t) => match items(t) {
            Err(e) => fail("ill-formed", e),
            Ok(Item::Func(f)) => {
                out.probe("function checked");
                if bare(&f.name) != m.name { return fail("wrong-name", format!("the function is called `{}`", f.name)) }
                let names: Vec<String> = f.params.iter().map(|p| p.0.clone()).collect();
                if !same_params(m, &names) || names.iter().any(|n| n == "__VA_ARGS__") { return fail("wrong-parameters", format!("the function takes {names:?}")) }
                if let Err(e) = inner_macros(f.item.block.to_token_stream(), asm_operands(m)) { return fail("ill-formed", e) }
                if let ([syn::Stmt::Expr(e, None)], Some(t)) = (&f.item.block.stmts[..], &f.ret) { if let Some(why) = no_value_of(e, t) { return fail("ill-formed", why) } }
                Ok(())
            },
            Ok(Item::Rules(r)) => {
                out.probe("macro checked");
                if bare(&r.alias) != m.name || bare(&r.name) != format!("__cmacro__{}", m.name) { return fail("wrong-name", format!("the macro is `{}`, exported as `{}`", r.name, r.alias)) }
                let names: Vec<String> = r.params.iter().map(|p| p.0.clone()).collect();
                if !same_params(m, &names) || r.variadic != declared(m).iter().any(|a| a == "...") { return fail("wrong-parameters", format!("the macro takes {names:?}")) }
                let body = match transcribe(r.body.clone(), &r, false) { Ok(b) => b, Err(e) => return fail("ill-formed", e) };
                if syn::parse2::<syn::Expr>(body.clone()).is_err() {
                    if let Err(e) = syn::Block::parse_within.parse2(body.clone()) { return fail("ill-formed", format!("with arguments filled in, the body is neither an expression nor statements: {e} in `{body}`")) }
                }
                if let Err(e) = inner_macros(body, asm_operands(m)) { return fail("ill-formed", e) }
                Ok(())
            },
        },
    }
}

/// Whether a literal cannot have the type that is given for it.
fn no_value_of(e: &syn::Expr, t: &syn::Type) -> Option<String> {
    let lit = |e: &syn::Expr| match e { syn::Expr::Lit(l) => Some(l.lit.clone()), _ => None };
    let l = match e { syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Neg(_)) => lit(&u.expr), e => lit(e) }?;
    let t = norm(t);
    let wrong = match l {
        // What a context answers for the value of a name is up to the context.
        syn::Lit::Int(i) if i.base10_digits() == "42" || i.base10_digits() == "1" && matches!(e, syn::Expr::Unary(_)) => false,
        syn::Lit::Int(i) if i.suffix().is_empty() => matches!(t.as_str(), "bool" | "f32" | "f64") || t.starts_with('*') || t.starts_with('&'),
        syn::Lit::Float(f) if f.suffix().is_empty() => !matches!(t.as_str(), "f32" | "f64") && !t.ends_with("c_float") && !t.ends_with("c_double"),
        _ => false,
    };
    wrong.then(|| format!("the value `{}` has no type `{t}`", e.to_token_stream()))
}

// ---------------------------------------------------------------- P13

pub fn usable(t: &str) -> bool {
    fn ok(t: &syn::Type) -> bool {
        match t {
            syn::Type::Path(p) => p.qself.is_none() && p.path.segments.iter().all(|s| s.arguments.is_none()),
            syn::Type::Ptr(p) => ok(&p.elem),
            syn::Type::Tuple(t) => t.elems.is_empty(),
            _ => false,
        }
    }
    if let Some(v) = t.strip_prefix("verbatim:") { return syn::parse_str::<Ident>(v).is_ok() }
    ok(&ctx::ty(t))
}

fn norm_text(t: &str) -> String { match t.strip_prefix("verbatim:") { Some(v) => v.trim().into(), None => norm(&ctx::ty(t)) } }
fn void(t: &str) -> bool { let t = t.rsplit("::").next().unwrap_or(t).trim(); t == "c_void" || t == "()" }

/// Arguments of a call starting at the parenthesis `toks[i]`, and the index after it.
fn call_args(toks: &[String], i: usize) -> Option<(Vec<Vec<String>>, usize)> {
    let (mut d, mut v, mut j) = (0, vec![vec![]], i);
    while j < toks.len() {
        match toks[j].as_str() {
            "(" | "[" | "{" => { d += 1; if d > 1 { v.last_mut().unwrap().push(toks[j].clone()) } },
            ")" | "]" | "}" => {
                d -= 1;
                if d == 0 { if v.len() == 1 && v[0].is_empty() { v.pop(); } return Some((v, j + 1)) }
                v.last_mut().unwrap().push(toks[j].clone())
            },
            "," if d == 1 => v.push(vec![]),
            t => v.last_mut().unwrap().push(t.into()),
        }
        j += 1;
    }
    None
}

pub fn typed(m: &Src, spec: &CtxSpec, s: &Shot, out: &mut Outcome) -> Verdict {
    if m.args.is_none() || m.body.iter().any(|t| t.starts_with("/*")) { out.skipped += 1; return Ok(()) }
    let steady = s.declined == 0 && s.spoiled == 0;
    let answered = |k: u8, n: &str| s.asked.iter().any(|a| a.0 == k && a.1 == n && a.2);
    let body: Vec<String> = m.body.clone();
    let params = declared(m);
    let mut judged = false;

    // Types that cannot be used.
    let mut bad: Option<String> = None;
    if steady {
        for (k, n, a) in &s.asked {
            if !*a { continue }
            let t: Option<&String> = match k {
                3 => spec.args.iter().find(|x| x.0 == m.name && &x.1 == n).map(|x| &x.2),
                4 => spec.enums.iter().find(|x| &x.0 == n).map(|x| &x.1),
                5 if n != "size_t" => spec.tys.iter().find(|x| &x.0 == n).map(|x| &x.1),
                6 => { let c: Vec<_> = spec.fields.iter().filter(|x| &x.1 == n).collect(); if !c.is_empty() && c.iter().all(|x| !usable(&x.2)) { Some(&c[0].2) } else { None } },
                7 if n != &m.name => {
                    let f = spec.fns.iter().find(|x| &x.0 == n);
                    let all = (0..body.len()).filter(|i| &body[*i] == n).all(|i| body.get(i + 1).map_or(false, |t| t == "(") && call_args(&body, i + 1).map_or(false, |c| Some(c.0.len()) == f.map(|f| f.1.len())));
                    f.filter(|_| all).map(|f| &f.2)
                },
                _ => None,
            };
            if let Some(t) = t { if !usable(t) { bad = Some(t.clone()); break } }
        }
    }
    // Types of parameters of known functions, where nothing else is known about what is passed.
    if steady && bad.is_none() && !body.iter().any(|t| t == "#" || t == "##") {
        for (k, n) in body.iter().enumerate() {
            if body.get(k + 1).map_or(true, |t| t != "(") || body.iter().filter(|t| *t == n).count() != 1 || !answered(7, n) { continue }
            let (Some(f), Some((args, _))) = (spec.fns.iter().find(|x| &x.0 == n), call_args(&body, k + 1)) else { continue };
            if args.len() != f.1.len() { continue }
            for (a, t) in args.iter().zip(&f.1) {
                let [a] = &a[..] else { continue };
                let Some(p) = a.strip_prefix('$').and_then(|i| i.parse::<usize>().ok()).and_then(|i| params.get(i)) else { continue };
                if p == "..." || answered(3, p) || body.iter().filter(|t| *t == a).count() != 1 { continue }
                if !usable(t) { bad = Some(t.clone()); out.probe("unusable parameter type of a function") }
            }
        }
    }
    if let Some(t) = &bad {
        out.checks += 1;
        out.probe("unusable type from the context");
        return if matches!(s.end, End::Err(_)) { Ok(()) } else { fail("unusable-type", format!("the context answered `{t}`, which is no usable type, and there was no error")) }
    }
    let End::Code(Code::Fn(text)) = &s.end else { return Ok(()) };
    let item = match items(text) { Ok(i) => i, Err(_) => { out.skipped += 1; return Ok(()) } };
    let mut must_macro: Option<String> = None;
    if params.iter().any(|p| p == "...") { must_macro = Some("it is variadic".into()) }
    if answered(7, &m.name) { must_macro = Some("a function of its name is known".into()) }
    // Parameter types: supplied, or that of a known function the parameter is passed to.
    let mut types: Vec<Vec<String>> = vec![];
    for (i, p) in params.iter().enumerate() {
        if answered(3, p) && s.asked.iter().filter(|a| a.0 == 3 && &a.1 == p).all(|a| a.2) {
            types.push(spec.args.iter().filter(|x| x.0 == m.name && &x.1 == p).map(|x| norm_text(&x.2)).take(1).collect());
            continue
        }
        let mut v = vec![];
        let me = format!("${i}");
        for k in 0..body.len() {
            if body.get(k + 1).map_or(true, |t| t != "(") || !answered(7, &body[k]) { continue }
            let Some(f) = spec.fns.iter().find(|x| x.0 == body[k]) else { continue };
            let Some((args, _)) = call_args(&body, k + 1) else { continue };
            if args.len() != f.1.len() { continue }
            for (a, t) in args.iter().zip(&f.1) {
                let core: Vec<&String> = a.iter().filter(|t| *t != "(" && *t != ")").collect();
                if core.len() == 1 && *core[0] == me { v.push(norm_text(t)) }
            }
        }
        if v.is_empty() && must_macro.is_none() { must_macro = Some(format!("the type of `{p}` is unknown")) }
        types.push(v);
    }
    if steady {
        for (k, t) in body.iter().enumerate() {
            let (prev, next) = (k.checked_sub(1).map(|k| body[k].as_str()), body.get(k + 1).map(|s| s.as_str()));
            if t == "##" && must_macro.is_none() { must_macro = Some(format!("the name put together from `{}` and `{}` is unknown", prev.unwrap_or(""), next.unwrap_or(""))) }
            if matches!(prev, Some("." | "->" | "##" | "#")) || next == Some("##") { continue }
            let named = |c: char| t.starts_with(c) && t.len() > 1 && t[1..].bytes().all(|b| b.is_ascii_digit());
            if named('v') && next != Some("(") && !spec.enums.iter().any(|e| &e.0 == t) && must_macro.is_none() { must_macro = Some(format!("`{t}` is unknown")) }
            if t.starts_with("fn") && next == Some("(") && !text.contains(&format!("fn {t} (")) && !spec.fns.iter().any(|f| &f.0 == t) && must_macro.is_none() { must_macro = Some(format!("the function `{t}` is unknown")) }
        }
    }
    let value = if steady { eval(&body, &types, spec) } else { V::Unclear };
    if let V::Unknown(why) = &value { out.probe("value of unknown type"); if must_macro.is_none() { must_macro = Some(why.clone()) } }
    if let Some(why) = &must_macro {
        judged = true;
        out.probe("incomplete knowledge");
        if let Item::Func(_) = &item { out.checks += 1; return fail("function-without-knowledge", format!("a typed function was generated although {why}")) }
    }
    match item {
        Item::Func(f) => {
            judged = true;
            out.probe("typed function");
            let names: Vec<String> = f.params.iter().map(|p| bare(&p.0).to_string()).collect();
            if names != params { out.checks += 1; return fail("wrong-parameters", format!("the function takes {names:?}")) }
            for ((p, t), want) in f.params.iter().zip(&types) {
                if !want.contains(&norm(t)) { out.checks += 1; return fail("wrong-type", format!("parameter `{p}` has the type `{}`, known is {want:?}", norm(t))) }
            }
            let ret = f.ret.as_ref().map(norm);
            if let V::Known(w) = value {
                let w = Some(w).filter(|t| !void(t));
                out.probe("return type checked");
                if w != ret { out.checks += 1; return fail("wrong-return-type", format!("the function returns {ret:?}, its value has the type {w:?}")) }
            }
        },
        Item::Rules(r) => {
            judged = true;
            let names: Vec<String> = r.params.iter().map(|p| p.0.clone()).collect();
            if !same_params(m, &names) { out.checks += 1; return fail("wrong-parameters", format!("the macro takes {names:?}")) }
        },
    }
    if judged { out.checks += 1 } else { out.skipped += 1 }
    Ok(())
}

/// What can be said about the type of a value from what the context answers.
#[derive(Clone, Debug, PartialEq)]
enum V { Known(String), /** a plain number */ Number, /** nobody can know it */ Unknown(String), /** not looked at here */ Unclear }

struct Ev<'a> { t: &'a [String], i: usize, types: &'a [Vec<String>], spec: &'a CtxSpec }

fn eval(t: &[String], types: &[Vec<String>], spec: &CtxSpec) -> V {
    if t.iter().any(|t| matches!(t.as_str(), "#" | ";" | "{" | "}" | "=" | "++" | "--" | "&&" | "||" | "do" | "if" | "else") || t.len() > 1 && t.ends_with('=') && !matches!(t.as_str(), "==" | "!=" | "<=" | ">=")) { return V::Unclear }
    let mut e = Ev { t, i: 0, types, spec };
    match e.ternary() { Some(v) if e.i == t.len() => v, _ => V::Unclear }
}

/// The type of an operation on two values.
fn join(a: V, b: V) -> V {
    match (a, b) {
        (V::Unknown(w), _) | (_, V::Unknown(w)) => V::Unknown(w),
        (V::Unclear, _) | (_, V::Unclear) => V::Unclear,
        (V::Known(a), V::Known(b)) if a == b => V::Known(a),
        (V::Known(a), V::Known(b)) => if void(&a) || void(&b) { V::Unclear } else { V::Unknown(format!("its value has the type `{a}` or `{b}`")) },
        (V::Known(a), V::Number) | (V::Number, V::Known(a)) => V::Known(a),
        (V::Number, V::Number) => V::Number,
    }
}

impl Ev<'_> {
    fn peek(&self) -> Option<&str> { self.t.get(self.i).map(|s| s.as_str()) }
    fn eat(&mut self, s: &str) -> Option<()> { if self.peek() == Some(s) { self.i += 1; Some(()) } else { None } }
    fn ternary(&mut self) -> Option<V> {
        let c = self.binary(0)?;
        if self.eat("?").is_none() { return Some(c) }
        let a = self.ternary()?;
        self.eat(":")?;
        let b = self.ternary()?;
        Some(join(a, b))
    }
    fn binary(&mut self, level: usize) -> Option<V> {
        const OPS: &[&[&str]] = &[&["|"], &["^"], &["&"], &["==", "!="], &["<", ">", "<=", ">="], &["<<", ">>"], &["+", "-"], &["*", "/", "%"]];
        if level == OPS.len() { return self.unary() }
        let mut v = self.binary(level + 1)?;
        while let Some(op) = self.peek().filter(|t| OPS[level].contains(t)) {
            let compare = matches!(op, "==" | "!=" | "<" | ">" | "<=" | ">=");
            self.i += 1;
            let w = self.binary(level + 1)?;
            v = if compare { V::Known("bool".into()) } else { join(v, w) };
        }
        Some(v)
    }
    fn unary(&mut self) -> Option<V> {
        match self.peek()? {
            "-" | "+" | "~" => { self.i += 1; self.unary() },
            // A literal that is negated is a literal again, other plain numbers become comparisons.
            "!" => {
                self.i += 1;
                let plain = self.peek().map_or(false, |t| t.bytes().all(|b| b.is_ascii_digit()));
                Some(match self.unary()? { V::Number if plain => V::Number, V::Number => V::Unclear, _ => V::Known("bool".into()) })
            },
            "&" | "*" => { self.i += 1; self.unary()?; Some(V::Unclear) },
            "(" => {
                // A cast to a known type.
                if let Some(n) = self.t.get(self.i + 1) {
                    if n.starts_with('t') {
                        let Some(ty) = self.spec.tys.iter().find(|t| &t.0 == n) else { return None };
                        let mut ty = norm_text(&ty.1);
                        self.i += 2;
                        while self.eat("*").is_some() { ty = norm_text(&format!("*mut {ty}")) }
                        self.eat(")")?;
                        self.unary()?;
                        return Some(V::Known(ty))
                    }
                    // Names in parentheses, followed by something that is an operand as well: left alone.
                    if self.t.get(self.i + 2).map_or(false, |t| t == ")") && self.t.get(self.i + 3).map_or(false, |t| matches!(t.as_str(), "+" | "-" | "*" | "&" | "~" | "!" | "(") || t.starts_with(|c: char| c.is_ascii_alphanumeric() || matches!(c, '$' | '_' | '"' | '\''))) { return None }
                    if matches!(n.as_str(), "const" | "volatile" | "struct" | "unsigned" | "signed" | "int" | "char" | "short" | "long" | "float" | "double" | "bool" | "void") { return None }
                }
                self.i += 1;
                let v = self.ternary()?;
                self.eat(")")?;
                self.postfix(v)
            },
            _ => { let v = self.primary()?; self.postfix(v) },
        }
    }
    fn postfix(&mut self, v: V) -> Option<V> { if matches!(self.peek(), Some("(" | "[" | "." | "->")) { None } else { Some(v) } }
    fn primary(&mut self) -> Option<V> {
        let t = self.peek()?.to_string();
        self.i += 1;
        // Nothing is known about a name that is put together.
        if self.peek() == Some("##") {
            while self.eat("##").is_some() { if !self.peek()?.starts_with(|c: char| c == '$' || c == '_' || c.is_ascii_alphabetic()) { return None } self.i += 1 }
            if self.peek() == Some("(") { self.i = call_args(self.t, self.i)?.1 }
            return Some(V::Unknown("its value is that of a name put together".into()))
        }
        // Nor about what a parameter returns.
        if t.starts_with('$') && self.peek() == Some("(") {
            self.i = call_args(self.t, self.i)?.1;
            return Some(V::Unknown("its value is that of a function that was passed".into()))
        }
        if let Some(n) = t.strip_prefix('$').and_then(|n| n.parse::<usize>().ok()) {
            return Some(match self.types.get(n).map(|v| &v[..]) { Some([t]) => V::Known(t.clone()), Some([]) => V::Unknown(format!("the type of parameter {n} is unknown")), _ => V::Unclear })
        }
        if t.bytes().all(|b| b.is_ascii_digit()) { return Some(V::Number) }
        let numbered = |p: &str| t.strip_prefix(p).map_or(false, |n| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit()));
        if numbered("fn") && self.peek() == Some("(") {
            let (args, end) = call_args(self.t, self.i)?;
            self.i = end;
            return Some(match self.spec.fns.iter().find(|f| f.0 == t) {
                Some(f) if f.1.len() == args.len() => V::Known(norm_text(&f.2)),
                Some(_) => V::Unknown(format!("`{t}` is known to take another number of arguments")),
                None => V::Unknown(format!("the function `{t}` is unknown")),
            })
        }
        if numbered("v") && self.peek() != Some("(") {
            return Some(match self.spec.enums.iter().find(|e| e.0 == t) { Some(e) => V::Known(norm_text(&e.1)), None => V::Unknown(format!("`{t}` is unknown")) })
        }
        None
    }
}

// ---------------------------------------------------------------- P15

fn words(ts: TokenStream, ids: &mut BTreeMap<String, usize>, lits: &mut String) {
    for t in ts {
        match t {
            TokenTree::Group(g) => words(g.stream(), ids, lits),
            TokenTree::Ident(i) => *ids.entry(bare(&i.to_string()).to_string()).or_default() += 1,
            TokenTree::Literal(l) => { lits.push_str(&l.to_string()); lits.push(' ') },
            _ => (),
        }
    }
}

pub fn c_word(s: &str) -> bool { C_WORDS.contains(&s) }
const C_WORDS: &[&str] = &["unsigned", "signed", "short", "long", "char", "int", "float", "double", "bool", "void", "const", "volatile", "struct", "static", "sizeof",
    "if", "else", "do", "while", "__asm__", "__asm", "asm", "inline", "goto", "__builtin_offsetof", "__LINE__", "__FILE__", "__SCHAR_MAX__", "__SHRT_MAX__", "__INT_MAX__", "__LONG_MAX__", "__LONG_LONG_MAX__"];

/// Identifiers that generated code may mention by itself.
const RUST_WORDS: &[&str] = &["as", "mut", "const", "static", "let", "if", "else", "loop", "continue", "break", "fn", "pub", "use", "unsafe", "extern", "in", "out", "inout", "_",
    "doc", "hidden", "macro_export", "macro_rules", "expr", "ident", "ty", "tt", "allow", "non_snake_case", "unused_mut", "unsafe_code", "inline", "always", "__VA_ARGS__",
    "c_char", "c_schar", "c_uchar", "c_short", "c_ushort", "c_int", "c_uint", "c_long", "c_ulong", "c_longlong", "c_ulonglong", "c_void", "c_size_t", "c_ssize_t", "wchar_t", "c_wchar", "c_wchar_t",
    "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "bool", "true", "false", "MIN", "MAX", "INFINITY", "NEG_INFINITY", "NAN", "EPSILON",
    "ptr", "null", "null_mut", "addr_of", "addr_of_mut", "read_volatile", "write_volatile", "value", "prev", "WORDS", "DWORDS", "mem", "size_of", "offset_of", "offsetof", "BYTES", "as_ptr", "as_bytes", "to_ptr", "into", "add", "sub",
    "concat", "concat_idents", "stringify", "format", "line", "file", "arch", "asm", "global_asm", "options", "att_syntax", "nomem", "preserves_flags", "clobber_abi", "reg", "reg_abcd", "reg_byte", "freg",
    "core", "std", "ffi", "libc", "CStr", "from_bytes_with_nul_unchecked", "from_ptr", "cast", "offset", "wrapping_add", "wrapping_sub", "str"];

pub fn complete(m: &Src, spec: &CtxSpec, s: &Shot, out: &mut Outcome) -> Verdict {
    let text = match &s.end { End::Code(Code::Var(v, t)) => format!("{v} ; {}", t.clone().unwrap_or_default()), End::Code(Code::Fn(t)) => t.clone(), _ => return Ok(()) };
    let Ok(ts) = TokenStream::from_str(&text) else { out.skipped += 1; return Ok(()) };
    out.checks += 1;
    let (mut ids, mut lits) = (BTreeMap::new(), String::new());
    words(ts, &mut ids, &mut lits);
    let params = declared(m);
    let mut delivered: BTreeMap<String, usize> = BTreeMap::new();
    let mut strings = vec![];
    let mut numbers = vec![];
    let n = m.body.len();
    for (i, t) in m.body.iter().enumerate() {
        // The pointee of a null pointer constant does not show.
        let mut j = i + 1;
        while j < n && (m.body[j] == "##" || m.body[j - 1] == "##" || m.body[j].starts_with("/*")) { j += 1 }
        let rest: Vec<&str> = m.body[j..n.min(j + 12)].iter().map(|s| s.as_str()).filter(|s| !s.starts_with("/*")).collect();
        let after: Vec<&str> = rest.iter().copied().filter(|s| !matches!(*s, "*" | "const" | "volatile")).take(2).collect();
        let stars = rest.iter().take(3).any(|s| *s == "*");
        let pointee = stars && after.first() == Some(&")") && after.get(1).map_or(false, |t| *t == "(" || t.starts_with(|c: char| c.is_ascii_digit() || matches!(c, '-' | '+' | '~' | '!')));
        if let Some(k) = t.strip_prefix('$').and_then(|k| k.parse::<usize>().ok()) {
            if pointee { continue }
            match params.get(k).map(|s| s.as_str()) { Some("...") => { *delivered.entry("__VA_ARGS__".into()).or_default() += 1 }, Some(p) => { *delivered.entry(p.into()).or_default() += 1 }, None => () }
            continue
        }
        match crate::codegen::token(t) {
            Some(cmacro::MacroToken::Identifier(id)) => {
                if C_WORDS.contains(&id.as_str()) { continue }
                if pointee { continue }
                *delivered.entry(id.as_str().to_string()).or_default() += 1;
            },
            Some(cmacro::MacroToken::Lit(_)) if t.starts_with('"') && t[1..].bytes().take_while(|b| b.is_ascii_alphanumeric()).count() > 2 && t.len() < 14 => strings.push(t.trim_matches('"').to_string()),
            Some(cmacro::MacroToken::Lit(_)) if t.bytes().all(|b| b.is_ascii_digit()) && !t.starts_with('0') && t.len() == 4 => numbers.push(t.clone()),
            Some(cmacro::MacroToken::Lit(_)) => numbers.push(String::new()),
            _ => (),
        }
    }
    // An input of assembly in the register of the same output is not mentioned once more.
    let matched = m.body.iter().any(|t| t.contains("asm")) && m.body.iter().any(|t| t.len() > 2 && t.starts_with('"') && t[1..t.len() - 1].bytes().all(|b| b.is_ascii_digit()));
    for (d, n) in &delivered {
        let n = if matched { &1 } else { n };
        // A parameter is mentioned once more where it is declared.
        let n = n + params.iter().any(|p| p == d) as usize;
        let got = ids.get(d).copied().unwrap_or(0);
        if got > 0 && got < n { return fail("mention-lost", format!("`{d}` was delivered often enough for {n} mentions, the generated code has {got}")) }
        if got == 0 { return fail("identifier-lost", format!("the delivered identifier `{d}` is not mentioned by the generated code")) }
    }
    // The elements of wide strings show as numbers.
    let wide = m.body.iter().any(|t| t.contains('"') && !t.starts_with('"'));
    for s in &strings {
        if !wide && s.bytes().all(|b| b.is_ascii_alphanumeric()) && !lits.contains(s.as_str()) && !asm_only(m, s) { return fail("string-lost", format!("the delivered string \"{s}\" is not in the generated code")) }
    }
    if numbers.len() == 1 && !numbers[0].is_empty() && !m.body.iter().any(|t| matches!(t.as_str(), "!" | "~")) && !lits.contains(numbers[0].as_str()) {
        return fail("number-lost", format!("the only delivered number {} is not in the generated code", numbers[0]))
    }
    let mut supplied: BTreeMap<String, usize> = BTreeMap::new();
    let mut give = |s: &str| { let mut l = String::new(); if let Ok(t) = TokenStream::from_str(s) { words(t, &mut supplied, &mut l) } };
    for x in &spec.args { give(&x.2) }
    for x in &spec.enums { give(&x.1); give(&x.2) }
    for x in &spec.tys { give(&x.1) }
    for x in &spec.fields { give(&x.2) }
    for x in &spec.fns { for t in &x.1 { give(t) } give(&x.2) }
    for x in spec.ffi_prefix.iter().chain(&spec.trait_prefix) { give(x) }
    for i in ids.keys() {
        let ok = delivered.contains_key(i) || supplied.contains_key(i) || RUST_WORDS.contains(&i.as_str()) || i == &m.name || i == &format!("__cmacro__{}", m.name) || params.contains(i) || m.body.contains(i);
        if !ok { return fail("identifier-invented", format!("the generated code mentions `{i}`, which nobody delivered")) }
    }
    Ok(())
}

/// Constraints and clobbers of assembly show in another form.
fn asm_only(m: &Src, s: &str) -> bool {
    m.body.iter().any(|t| t.contains("asm")) && m.body.iter().enumerate().any(|(i, t)| t.trim_matches('"') == s && matches!(m.body[..i].iter().rev().find(|t| !t.starts_with("/*")).map(|t| t.as_str()), Some(":" | ",")))
        || m.body.iter().any(|t| t.contains("asm")) && m.body.windows(2).any(|w| w[0].starts_with('"') && w[1].trim_matches('"') == s)
}
