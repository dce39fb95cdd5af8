//! The calls into cmacro, as one concrete function each. cmacro's generic entry points are compiled here
//! and not in the simulator, so that they are instrumented (see tools/rustc-cov.sh) like the rest of it.
use cmacro::{CodegenContext, CodegenError, ExpansionError, FnMacro, MacroSet, MacroToken, ParserError, VarMacro};

/// Called whenever cmacro asks the caller for something; `Some` number: fail with it.
pub type Hook = fn(Option<u32>);

pub struct Feed<'a> { pub items: &'a [String], pub pos: usize, pub fail_item: Option<u32>, pub fail_text: Option<u32>, pub hook: Hook }
pub struct Text<'a> { pub s: &'a str, pub fail: Option<u32>, pub hook: Hook }

impl<'a> Iterator for Feed<'a> {
    type Item = Text<'a>;
    fn next(&mut self) -> Option<Text<'a>> {
        let i = self.pos as u32;
        (self.hook)(if self.fail_item == Some(i) { Some(1000 + i) } else { None });
        let s = self.items.get(self.pos)?;
        self.pos += 1;
        Some(Text { s, fail: if self.fail_text == Some(i) { Some(2000 + i) } else { None }, hook: self.hook })
    }
}
impl AsRef<str> for Text<'_> {
    fn as_ref(&self) -> &str {
        if self.fail.is_some() { (self.hook)(self.fail) }
        self.s
    }
}

#[inline(never)] pub fn new() -> MacroSet { MacroSet::new() }
#[inline(never)] pub fn clone(s: &MacroSet) -> MacroSet { s.clone() }
/// `to` becomes a clone of `s`.
#[inline(never)] pub fn clone_into(s: &MacroSet, to: &mut MacroSet) { to.clone_from(s) }
#[inline(never)] pub fn free(s: MacroSet) { drop(s) }
#[inline(never)] pub fn define_var(s: &mut MacroSet, name: Text<'_>, body: Feed<'_>) -> bool { s.define_var_macro(name, body) }
#[inline(never)] pub fn define_fn(s: &mut MacroSet, name: Text<'_>, args: Feed<'_>, body: Feed<'_>) -> bool { s.define_fn_macro(name, args, body) }
#[inline(never)] pub fn undefine_var(s: &mut MacroSet, name: &str) -> bool { s.undefine_var_macro(name) }
#[inline(never)] pub fn undefine_fn(s: &mut MacroSet, name: &str) -> bool { s.undefine_fn_macro(name) }
type Toks<'t> = Vec<MacroToken<'t>>;
#[inline(never)] pub fn expand_var<'s>(s: &'s MacroSet, name: &str) -> Result<Toks<'s>, ExpansionError> { s.expand_var_macro(name) }
#[inline(never)] pub fn expand_fn<'s>(s: &'s MacroSet, name: &str) -> Result<(Toks<'s>, Toks<'s>), ExpansionError> { s.expand_fn_macro(name) }
#[inline(never)] pub fn expand<'s>(s: &'s MacroSet, toks: &'s [String]) -> Result<Toks<'s>, ExpansionError> { s.expand(toks) }

#[derive(Clone)]
pub enum Obj<'t> { Var(VarMacro<'t>), Fn(FnMacro<'t>) }

#[derive(Clone, Debug, PartialEq)]
pub enum Code { Var(String, Option<String>), Fn(String) }

/// A context whose answers come from elsewhere.
struct Dyn<'a>(&'a dyn CodegenContext);
impl CodegenContext for Dyn<'_> {
    fn rust_target(&self) -> Option<String> { self.0.rust_target() }
    fn ffi_prefix(&self) -> Option<syn::Path> { self.0.ffi_prefix() }
    fn trait_prefix(&self) -> Option<syn::Path> { self.0.trait_prefix() }
    fn macro_arg_ty(&self, m: &str, a: &str) -> Option<syn::Type> { self.0.macro_arg_ty(m, a) }
    fn resolve_enum_variant(&self, v: &str) -> Option<(syn::Type, syn::Expr)> { self.0.resolve_enum_variant(v) }
    fn resolve_ty(&self, t: &str) -> Option<syn::Type> { self.0.resolve_ty(t) }
    fn resolve_field_ty(&self, t: &str, f: &str) -> Option<syn::Type> { self.0.resolve_field_ty(t, f) }
    fn function(&self, n: &str) -> Option<(Vec<syn::Type>, syn::Type)> { self.0.function(n) }
}

fn code<C: CodegenContext>(o: &mut Obj<'_>, cx: C) -> Result<Code, CodegenError> {
    Ok(match o {
        Obj::Var(m) => { let (v, t) = m.generate(cx)?; Code::Var(quote::ToTokens::to_token_stream(&v).to_string(), t.map(|t| quote::ToTokens::to_token_stream(&t).to_string())) },
        Obj::Fn(m) => Code::Fn(quote::ToTokens::to_token_stream(&m.generate(cx)?).to_string()),
    })
}

impl<'t> Obj<'t> {
    #[inline(never)]
    pub fn parse(name: &str, args: Option<&[MacroToken<'t>]>, body: &[MacroToken<'t>]) -> Result<Obj<'t>, ParserError> {
        match args {
            None => VarMacro::parse(name, body).map(Obj::Var),
            Some(a) => FnMacro::parse(name, a, body).map(Obj::Fn),
        }
    }
    /// What the macro says its name and parameters are.
    #[inline(never)]
    pub fn signature(&self) -> (String, Vec<String>) {
        match self { Obj::Var(m) => (m.name().to_string(), vec![]), Obj::Fn(m) => (m.name().to_string(), m.args().to_vec()) }
    }
    /// Whether it is an expression, as far as it says.
    #[inline(never)]
    pub fn is_value(&self) -> bool {
        match self { Obj::Var(m) => m.value().is_some(), Obj::Fn(_) => false }
    }
    /// 0: context by reference, 2: by value, 3: by reference to a reference; 1: from a clone of the object.
    #[inline(never)]
    pub fn generate(&mut self, cx: &dyn CodegenContext, how: u8) -> Result<Code, CodegenError> {
        match how {
            1 => { let mut o = self.clone(); code(&mut o, &Dyn(cx)) },
            2 => code(self, Dyn(cx)),
            3 => code(self, &&&Dyn(cx)),
            _ => code(self, &Dyn(cx)),
        }
    }
}
