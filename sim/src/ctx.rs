//! The simulated code generation context: answers from an explicit table, with explicit faults.
use std::cell::{Cell, RefCell};

use cmacro::CodegenContext;
use serde::{Deserialize, Serialize};

use crate::plan::Fault;
use crate::rt;

fn none<T>(v: &Option<T>) -> bool { v.is_none() }
fn zero(v: &u8) -> bool { *v == 0 }

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct CtxSpec {
    #[serde(skip_serializing_if = "none")]
    pub rust_target: Option<String>,
    #[serde(skip_serializing_if = "none")]
    pub ffi_prefix: Option<String>,
    #[serde(skip_serializing_if = "none")]
    pub trait_prefix: Option<String>,
    /// (macro, parameter, type)
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub args: Vec<(String, String, String)>,
    /// (variant, type, expression)
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub enums: Vec<(String, String, String)>,
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub tys: Vec<(String, String)>,
    /// (type, field, field type)
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub fields: Vec<(String, String, String)>,
    /// (function, parameter types, return type)
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub fns: Vec<(String, Vec<String>, String)>,
    /// Numbers of the callbacks that are declined although the table has an answer.
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub flaps: Vec<u32>,
    /// Numbers of the callbacks that are answered with something unusable instead.
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub spoils: Vec<u32>,
    /// The same question asked again is declined (1), answered with something unusable (2).
    #[serde(skip_serializing_if = "zero")]
    pub fickle: u8,
    /// Use the library from inside the callbacks.
    #[serde(skip_serializing_if = "std::ops::Not::not")]
    pub reenter: bool,
    /// Answer about every name that occurs nowhere.
    #[serde(skip_serializing_if = "zero")]
    pub others: u8,
}

/// A type given as text; `verbatim:` gives an uninterpreted token stream.
pub fn ty(s: &str) -> syn::Type {
    if let Some(v) = s.strip_prefix("verbatim:") {
        return syn::Type::Verbatim(v.parse().unwrap_or_default())
    }
    syn::parse_str(s).unwrap_or_else(|_| syn::Type::Verbatim(Default::default()))
}

/// What is said about names that occur nowhere.
const ANY: &[&str] = &["c_int", "u32", "f64", "*mut c_void", "MyOther", "bool", "fn(i32)"];

pub struct SimCtx<'a> {
    pub spec: &'a CtxSpec,
    pub fault: Option<u32>,
    pub calls: Cell<u32>,
    pub declined: Cell<u32>,
    pub spoiled: Cell<u32>,
    spoil: Cell<bool>,
    /// (kind, name, answered)
    pub asked: RefCell<Vec<(u8, String, bool)>>,
    pub re: Option<&'a dyn Fn(u32)>,
    /// Whether a name occurs somewhere.
    pub occurs: Option<&'a dyn Fn(&str) -> bool>,
}

impl<'a> SimCtx<'a> {
    fn ty(&self, s: &str) -> syn::Type {
        if !self.spoil.get() { return ty(s) }
        self.spoiled.set(self.spoiled.get() + 1);
        ty(["fn(i32)", "&str", "(a, b)", "_"][s.len() % 4])
    }

    pub fn new(spec: &'a CtxSpec, fault: Option<&Fault>) -> Self {
        let fault = match fault { Some(Fault::Callback { at }) => Some(*at), _ => None };
        SimCtx { spec, fault, calls: Cell::new(0), declined: Cell::new(0), spoiled: Cell::new(0), spoil: Cell::new(false), asked: RefCell::new(vec![]), re: None, occurs: None }
    }

    /// A salt for the answer about a name that occurs nowhere.
    fn other(&self, names: &[&str]) -> Option<usize> {
        let occurs = self.occurs.filter(|_| self.spec.others > 0)?;
        let free = |n: &&str| n.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && n.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') && !occurs(n);
        if !names.iter().any(free) { return None }
        Some(names.iter().flat_map(|n| n.bytes()).fold(self.spec.others as usize, |h, b| h.wrapping_mul(31).wrapping_add(b as usize)) >> 3)
    }

    fn call<R>(&self, kind: u8, key: &str, f: impl FnOnce(&CtxSpec) -> Option<R>) -> Option<R> {
        rt::callback(|| {
            let n = self.calls.get();
            self.calls.set(n + 1);
            let again = self.spec.fickle > 0 && kind > 2 && self.asked.borrow().iter().any(|a| a.0 == kind && a.1 == key);
            self.asked.borrow_mut().push((kind, key.to_owned(), false));
            rt::in_callback_yield();
            if self.fault == Some(n) { rt::inject(n) }
            if self.spec.reenter {
                if let Some(re) = self.re { re(n) }
            }
            self.spoil.set(self.spec.spoils.contains(&n) || again && self.spec.fickle == 2);
            let r = f(self.spec);
            self.spoil.set(false);
            if r.is_some() && kind > 2 && (self.spec.flaps.contains(&n) || again && self.spec.fickle == 1) { self.declined.set(self.declined.get() + 1); return None }
            if r.is_some() { if let Some(a) = self.asked.borrow_mut().get_mut(n as usize) { a.2 = true } }
            r
        })
    }
}

fn path(s: &Option<String>) -> Option<syn::Path> { s.as_ref().and_then(|s| syn::parse_str(s).ok()) }

impl CodegenContext for SimCtx<'_> {
    fn rust_target(&self) -> Option<String> { self.call(0, "", |s| s.rust_target.clone()) }
    fn ffi_prefix(&self) -> Option<syn::Path> { self.call(1, "", |s| path(&s.ffi_prefix)) }
    fn trait_prefix(&self) -> Option<syn::Path> { self.call(2, "", |s| path(&s.trait_prefix)) }
    fn macro_arg_ty(&self, macro_name: &str, arg_name: &str) -> Option<syn::Type> {
        self.call(3, arg_name, |s| s.args.iter().find(|a| a.0 == macro_name && a.1 == arg_name).map(|a| self.ty(&a.2)).or_else(|| self.other(&[macro_name, arg_name]).map(|h| ty(ANY[h % ANY.len()]))))
    }
    fn resolve_enum_variant(&self, v: &str) -> Option<(syn::Type, syn::Expr)> {
        self.call(4, v, |s| {
            match s.enums.iter().find(|e| e.0 == v) {
                Some(e) => Some((self.ty(&e.1), syn::parse_str(&e.2).ok()?)),
                None => self.other(&[v]).and_then(|h| Some((ty(ANY[h % ANY.len()]), syn::parse_str("E::OTHER").ok()?))),
            }
        })
    }
    fn resolve_ty(&self, t: &str) -> Option<syn::Type> { self.call(5, t, |s| s.tys.iter().find(|e| e.0 == t).map(|e| self.ty(&e.1)).or_else(|| self.other(&[t]).map(|h| ty(ANY[h % ANY.len()])))) }
    fn resolve_field_ty(&self, t: &str, f: &str) -> Option<syn::Type> {
        self.call(6, f, |s| s.fields.iter().find(|e| e.0 == t && e.1 == f).map(|e| self.ty(&e.2)).or_else(|| self.other(&[t, f]).map(|h| ty(ANY[h % ANY.len()]))))
    }
    fn function(&self, n: &str) -> Option<(Vec<syn::Type>, syn::Type)> {
        self.call(7, n, |s| s.fns.iter().find(|e| e.0 == n).map(|e| (e.1.iter().map(|t| self.ty(t)).collect(), self.ty(&e.2))).or_else(|| self.other(&[n]).map(|h| ((0..h % 3).map(|_| ty("c_int")).collect(), ty(ANY[h % ANY.len()])))))
    }
}
