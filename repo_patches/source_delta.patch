From a856383e618b0bf202bffe465c539ecfee33b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 01/42] fix: report a redefinition that only adds or drops
 trailing tokens

`zip` stops at the shorter list, so a definition that is a prefix of the
other one compared equal.
---
 src/macro_set/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 9096967..afdb9be 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -768,7 +768,7 @@ impl MacroSet {
       let old_tokens = old_body.iter().filter(|t| !is_whitespace(t));
       let new_tokens = body.iter().filter(|t| !is_whitespace(t));
 
-      !old_tokens.zip(new_tokens).all(|(t1, t2)| t1 == t2)
+      !old_tokens.eq(new_tokens)
     } else {
       self.fn_macros.remove(&name).is_some()
     };
@@ -814,11 +814,11 @@ impl MacroSet {
     let redefined = if let Some((old_args, old_body)) = self.fn_macros.remove(&name) {
       let old_args = old_args.iter().filter(|t| !is_whitespace(t));
       let new_args = args.iter().filter(|t| !is_whitespace(t));
-      let args_equal = old_args.zip(new_args).all(|(old_arg, arg)| old_arg == arg);
+      let args_equal = old_args.eq(new_args);
 
       let old_tokens = old_body.iter().filter(|t| !is_whitespace(t));
       let new_tokens = body.iter().filter(|t| !is_whitespace(t));
-      let tokens_equal = old_tokens.zip(new_tokens).all(|(t1, t2)| t1 == t2);
+      let tokens_equal = old_tokens.eq(new_tokens);
 
       !(args_equal && tokens_equal)
     } else {
-- 
2.43.0


From 1d399939974c28a6917f247d34d46e6e15d64fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 02/42] fix: keep the old definition when defining a macro
 fails

The old definition was removed before the map had room for the new one, so
an allocation failure while the map grows lost both.
---
 src/macro_set/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index afdb9be..01e7439 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -764,15 +764,18 @@ impl MacroSet {
     let name = name.as_ref().to_owned();
     let body = body.into_iter().map(|t| t.as_ref().to_owned()).collect::<Vec<_>>();
 
-    let redefined = if let Some(old_body) = self.var_macros.remove(&name) {
+    let redefined = if let Some(old_body) = self.var_macros.get(&name) {
       let old_tokens = old_body.iter().filter(|t| !is_whitespace(t));
       let new_tokens = body.iter().filter(|t| !is_whitespace(t));
 
       !old_tokens.eq(new_tokens)
     } else {
-      self.fn_macros.remove(&name).is_some()
+      self.fn_macros.contains_key(&name)
     };
 
+    // This may fail to allocate, so do it before anything is changed.
+    self.var_macros.reserve(1);
+    self.fn_macros.remove(&name);
     self.var_macros.insert(name, body);
 
     redefined
@@ -811,7 +814,7 @@ impl MacroSet {
     let args = args.into_iter().map(|a| a.as_ref().to_owned()).collect::<Vec<_>>();
     let body = body.into_iter().map(|a| a.as_ref().to_owned()).collect::<Vec<_>>();
 
-    let redefined = if let Some((old_args, old_body)) = self.fn_macros.remove(&name) {
+    let redefined = if let Some((old_args, old_body)) = self.fn_macros.get(&name) {
       let old_args = old_args.iter().filter(|t| !is_whitespace(t));
       let new_args = args.iter().filter(|t| !is_whitespace(t));
       let args_equal = old_args.eq(new_args);
@@ -822,9 +825,12 @@ impl MacroSet {
 
       !(args_equal && tokens_equal)
     } else {
-      self.var_macros.remove(&name).is_some()
+      self.var_macros.contains_key(&name)
     };
 
+    // This may fail to allocate, so do it before anything is changed.
+    self.fn_macros.reserve(1);
+    self.var_macros.remove(&name);
     self.fn_macros.insert(name, (args, body));
 
     redefined
-- 
2.43.0


From 5e45a10e120b8778a982a418da65428c7199b769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 03/42] fix: report too few arguments for a variadic macro
 instead of panicking

---
 src/macro_set/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 01e7439..8db7ad9 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -539,6 +539,13 @@ impl MacroSet {
           })
         }
       }
+    } else if let Some(args) = args {
+      // The variable arguments may be left out, the named ones may not.
+      let required = arg_names.len() - 1;
+
+      if args.len() < required {
+        return Err(ExpansionError::FnMacroArgumentError { name: name.to_owned(), required, given: args.len() })
+      }
     }
 
     // Parameter names must be unique.
-- 
2.43.0


From 857fd2643dbb76ab90aa4da0be1f639116180645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 04/42] fix: do not count comments between parameters in the
 index of `__VA_ARGS__`

---
 src/macro_set/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 8db7ad9..d324e6d 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -857,7 +857,8 @@ impl MacroSet {
     let body = tokenize(&arg_names, body);
     let tokens = self.expand_fn_macro_body(HashSet::new(), name, &arg_names, None, &body)?;
 
-    let tokens = detokenize(&arg_names, tokens)?;
+    let params: Vec<_> = arg_names.iter().filter(|t| !matches!(t, Token::Comment(_))).cloned().collect();
+    let tokens = detokenize(&params, tokens)?;
     let arg_names = detokenize(&[], arg_names)?;
 
     Ok((arg_names, tokens))
-- 
2.43.0


From d3285ea9f294455b2386df781d8575eca5446578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 05/42] fix: split macro arguments at commas inside of brackets
 and braces

Only parentheses protect a comma (C11 6.10.3 p11), and an unpaired bracket or
brace in an argument does not make the call invalid.
---
 src/macro_set/mod.rs | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index d324e6d..4ea3cb9 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -585,7 +585,7 @@ impl MacroSet {
     's: 't,
     I: Iterator<Item = Token<'t>> + Clone,
   {
-    let mut parentheses = vec![]; // Keep track of parenthesis pairs.
+    let mut depth = 0; // Keep track of parenthesis pairs.
     let mut args = vec![];
     let mut current_arg = vec![];
 
@@ -599,35 +599,21 @@ impl MacroSet {
     while let Some(token) = it2.next() {
       match token {
         Token::Punctuation(p) => {
-          let pop = |parentheses: &mut Vec<char>, open, close| match parentheses.pop() {
-            Some(p) => {
-              if p == open {
-                Ok(())
-              } else {
-                Err(CollectArgsError::UnclosedParenthesis(p))
-              }
-            },
-            None => Err(CollectArgsError::MissingOpenParenthesis(close)),
-          };
-
+          // Only parentheses nest, brackets and braces are ordinary tokens.
           match p.as_str() {
-            "(" => parentheses.push('('),
+            "(" => depth += 1,
             ")" => {
-              if parentheses.is_empty() {
+              if depth == 0 {
                 args.push(mem::take(&mut current_arg));
 
                 *it = it2;
                 return Ok(args)
-              } else {
-                pop(&mut parentheses, '(', ')')?
               }
+
+              depth -= 1;
             },
-            "[" => parentheses.push('['),
-            "]" => pop(&mut parentheses, '[', ']')?,
-            "{" => parentheses.push('{'),
-            "}" => pop(&mut parentheses, '{', '}')?,
             "," => {
-              if parentheses.is_empty() {
+              if depth == 0 {
                 args.push(mem::take(&mut current_arg));
                 continue
               }
-- 
2.43.0


From f7a6b30c2cb7b101281c09479e9006dd3af2df60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:48 +0000
Subject: [PATCH 06/42] fix: do not expand arguments which are operands of `##`

C11 6.10.3.1 p1: an argument is expanded unless its parameter is an operand
of `#` or `##`.
---
 src/macro_set/mod.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 4ea3cb9..6f851a3 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -384,6 +384,17 @@ fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
   tokens
 }
 
+/// An argument next to `##` is not expanded, and an empty one is replaced by a placemarker.
+fn concat_operand(mut arg: Vec<Token<'_>>) -> Vec<Token<'_>> {
+  arg.retain(|t| !matches!(t, Token::Comment(_)));
+
+  if arg.is_empty() {
+    arg.push(Token::Placemarker);
+  }
+
+  arg
+}
+
 fn detokenize<'t>(arg_names: &[Token<'t>], tokens: Vec<Token<'t>>) -> Result<Vec<MacroToken<'t>>, ExpansionError> {
   tokens.into_iter().filter_map(|t| t.detokenize(arg_names).transpose()).collect()
 }
@@ -673,22 +684,10 @@ impl MacroSet {
               tokens.extend(stringify(arg, non_replaced_names.len() > 1));
             },
             Some(Token::Punctuation(Punctuation { punctuation: "##" })) => {
-              let arg = self.expand_macro_body(non_replaced_names.clone(), &arg)?;
-
-              if arg.is_empty() {
-                tokens.push(Token::Placemarker);
-              } else {
-                tokens.extend(arg);
-              }
+              tokens.extend(concat_operand(arg));
             },
             _ if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) => {
-              let arg = self.expand_macro_body(non_replaced_names.clone(), &arg)?;
-
-              if arg.is_empty() {
-                tokens.push(Token::Placemarker);
-              } else {
-                tokens.extend(arg);
-              }
+              tokens.extend(concat_operand(arg));
             },
             _ => tokens.extend(self.expand_macro_body(non_replaced_names.clone(), &arg)?),
           }
-- 
2.43.0


From 023b4186f2e97e9a0520c69200a125f5a2c317f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:48 +0000
Subject: [PATCH 07/42] fix: do not treat `#` and `##` in an argument as
 operators

---
 src/macro_set/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 6f851a3..163d9fd 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -663,7 +663,7 @@ impl MacroSet {
           _ => return Err(ExpansionError::StringifyNonArgument),
         },
         Token::MacroArg(_) | Token::VarArgs => {
-          let arg = if let Token::MacroArg(arg_index) = token {
+          let mut arg = if let Token::MacroArg(arg_index) = token {
             args[arg_index].clone()
           } else {
             let mut var_args = vec![];
@@ -678,6 +678,13 @@ impl MacroSet {
             var_args
           };
 
+          // `#` and `##` are only operators in the replacement list itself, not in an argument.
+          for token in &mut arg {
+            if matches!(token, Token::Punctuation(Punctuation { punctuation: "#" | "##" })) {
+              *token = Token::NonReplacable(Box::new(token.clone()));
+            }
+          }
+
           match tokens.last() {
             Some(Token::Punctuation(Punctuation { punctuation: "#" })) => {
               tokens.pop();
-- 
2.43.0


From 8f74e2ef6c934f0e68acb68b2b70a4a474f765eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:48 +0000
Subject: [PATCH 08/42] fix: report an invalid concatenation instead of
 panicking

---
 src/macro_set/mod.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 163d9fd..dfcf0d5 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -289,10 +289,11 @@ impl<'t> Token<'t> {
             if matches!(lhs.id.as_ref(), "u8" | "u" | "U" | "L") =>
           {
             lhs.id.to_mut().push_str(rhs.as_ref());
-            return Ok(Self::Literal(
-              Lit::try_from(lhs.id.as_ref()).unwrap().into_static(),
-              Cow::Owned(lhs.id.into_owned()),
-            ))
+            // Not every string is valid with every prefix.
+            if let Ok(literal) = Lit::try_from(lhs.id.as_ref()) {
+              let literal = literal.into_static();
+              return Ok(Self::Literal(literal, Cow::Owned(lhs.id.into_owned())))
+            }
           },
           // Strings cannot be prefixed with anything else.
           Lit::String(_) | Lit::Char(_) => (),
@@ -304,7 +305,9 @@ impl<'t> Token<'t> {
             // Appending a float only works for scientific notation
             if rhs.as_ref().chars().all(unicode_ident::is_xid_continue) {
               lhs.id.to_mut().push_str(rhs.as_ref());
-              return Ok(Self::Identifier(Identifier::try_from(lhs.id.as_ref()).unwrap().to_static()))
+              if let Ok(identifier) = Identifier::try_from(lhs.id.as_ref()) {
+                return Ok(Self::Identifier(identifier.to_static()))
+              }
             }
           },
         }
@@ -327,7 +330,7 @@ impl<'t> Token<'t> {
       (Self::Punctuation(_lhs), _) => return Err(ExpansionError::InvalidConcat),
       (_, Self::Punctuation(_rhs)) => return Err(ExpansionError::InvalidConcat),
       (Self::MacroArg(_) | Self::VarArgs | Self::Comment(_), _)
-      | (_, Self::MacroArg(_) | Self::VarArgs | Self::Comment(_)) => unreachable!(),
+      | (_, Self::MacroArg(_) | Self::VarArgs | Self::Comment(_)) => return Err(ExpansionError::InvalidConcat),
     };
 
     Ok(if let Ok(identifier) = Identifier::try_from(new_token.as_ref()) {
@@ -713,8 +716,13 @@ impl MacroSet {
     while let Some(token) = it.next() {
       match token {
         Token::Punctuation(Punctuation { punctuation: "##" })
-          if !matches!(tokens.last(), Some(&Token::MacroArg(_) | &Token::VarArgs))
-            && !matches!(it.peek(), Some(&Token::MacroArg(_) | &Token::VarArgs)) =>
+          if !matches!(
+            tokens.iter().rev().find(|t| !matches!(t, Token::Comment(_))),
+            Some(Token::MacroArg(_) | Token::VarArgs)
+          ) && !matches!(
+            it.clone().find(|t| !matches!(t, Token::Comment(_))),
+            Some(Token::MacroArg(_) | Token::VarArgs)
+          ) =>
         {
           macro_rules! until_no_whitespace {
             ($expr:expr, $error:ident) => {{
-- 
2.43.0


From 8e925a54401d04f97a21cb642b330ed50899e041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:48 +0000
Subject: [PATCH 09/42] fix: do not rescan tokens for macro calls which have
 already been scanned

After replacing a macro, scanning started over from the first token, so a
name that was not followed by `(` became a call when a later macro expanded
to one (`F E` with `E` defined as `(`). Scan each token once instead, and keep
track of which macros the scanned token came from. Comments between the name
and its arguments are white space.
---
 src/macro_set/mod.rs | 152 +++++++++++++++++++++++++++----------------
 1 file changed, 95 insertions(+), 57 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index dfcf0d5..d6a7ece 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -452,47 +452,56 @@ impl MacroSet {
     's: 't,
   {
     let mut tokens = vec![];
-    let mut it = body.iter().cloned().peekable();
 
-    while let Some(token) = it.next() {
-      match token {
-        Token::Identifier(ref id) => {
-          if non_replaced_names.contains(id.id.as_ref()) {
-            tokens.push(Token::NonReplacable(Box::new(token)));
-          } else {
-            // Treat as function-like macro call if immediately followed by `(`.
-            if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "(" })) {
-              if let Some((arg_names, body)) = self.fn_macros.get(id.id.as_ref()) {
-                if let Ok(args) = self.collect_args(&mut it) {
-                  let arg_names = tokenize_arg_names(arg_names)?;
-                  let body = tokenize(&arg_names, body);
-                  let expanded_tokens = self.expand_fn_macro_body(
-                    non_replaced_names.clone(),
-                    id.id.as_ref(),
-                    &arg_names,
-                    Some(&args),
-                    &body,
-                  )?;
-                  tokens.extend(expanded_tokens);
-                  tokens.extend(it);
-                  return self.expand_macro_body(non_replaced_names, &tokens)
-                }
-              }
-            }
+    // The tokens still to be scanned, in reverse order.
+    let mut rest = body.iter().rev().cloned().collect::<Vec<_>>();
 
-            // If it's not a macro call, check if it is a variable-like macro.
-            if let Some(body) = self.var_macros.get(id.id.as_ref()) {
-              let body = tokenize(&[], body);
-              tokens.extend(self.expand_var_macro_body(non_replaced_names.clone(), id.id.as_ref(), &body)?);
-              tokens.extend(it);
-              return self.expand_macro_body(non_replaced_names, &tokens)
-            }
+    // The macros whose replacement is being scanned. The replacement of each one is what is in front of
+    // the last `end` tokens of `rest`.
+    let mut active: Vec<(String, usize)> = vec![];
 
-            tokens.push(token)
-          }
+    while let Some(token) = rest.pop() {
+      active.retain(|(_, end)| *end <= rest.len());
+
+      let id = match token {
+        Token::Identifier(ref id) => id.id.as_ref(),
+        token => {
+          tokens.push(token);
+          continue
         },
-        token => tokens.push(token),
+      };
+
+      if non_replaced_names.contains(id) || active.iter().any(|(name, _)| name == id) {
+        tokens.push(Token::NonReplacable(Box::new(token)));
+        continue
       }
+
+      // Treat as function-like macro call if followed by `(`.
+      if let Some((arg_names, body)) = self.fn_macros.get(id) {
+        if let Ok((args, end)) = self.collect_args(&rest, &active) {
+          rest.truncate(end);
+          active.retain(|(_, end)| *end <= rest.len());
+
+          let names = non_replaced_names.iter().copied().chain(active.iter().map(|(name, _)| name.as_str())).collect();
+          let arg_names = tokenize_arg_names(arg_names)?;
+          let body = tokenize(&arg_names, body);
+          let replacement = self.replace_fn_macro(names, id, &arg_names, Some(&args), &body)?;
+          active.push((id.to_owned(), rest.len()));
+          rest.extend(replacement.into_iter().rev());
+          continue
+        }
+      }
+
+      // If it's not a macro call, check if it is a variable-like macro.
+      if let Some(body) = self.var_macros.get(id) {
+        let body = tokenize(&[], body);
+        let replacement = self.replace_var_macro(&body)?;
+        active.push((id.to_owned(), rest.len()));
+        rest.extend(replacement.into_iter().rev());
+        continue
+      }
+
+      tokens.push(token)
     }
 
     Ok(tokens)
@@ -507,6 +516,15 @@ impl MacroSet {
   where
     's: 't,
   {
+    let body = self.replace_var_macro(body)?;
+
+    non_replaced_names.insert(name);
+
+    self.expand_macro_body(non_replaced_names, &body)
+  }
+
+  /// The replacement of a variable-like macro, before it is scanned for other macros.
+  fn replace_var_macro<'t>(&self, body: &[Token<'t>]) -> Result<Vec<Token<'t>>, ExpansionError> {
     // A variable-like macro shall not contain `__VA_ARGS__`.
     if Self::contains_var_args(body) {
       return Err(ExpansionError::NonVariadicVarArgs)
@@ -515,9 +533,7 @@ impl MacroSet {
     let mut body = Self::expand_concat(body.to_vec())?;
     Self::remove_placemarkers(&mut body);
 
-    non_replaced_names.insert(name);
-
-    self.expand_macro_body(non_replaced_names, &body)
+    Ok(body)
   }
 
   fn expand_fn_macro_body<'s, 't, 'n>(
@@ -528,6 +544,25 @@ impl MacroSet {
     args: Option<&[Vec<Token<'t>>]>,
     body: &[Token<'t>],
   ) -> Result<Vec<Token<'t>>, ExpansionError>
+  where
+    's: 't,
+  {
+    let body = self.replace_fn_macro(non_replaced_names.clone(), name, arg_names, args, body)?;
+
+    non_replaced_names.insert(name);
+
+    self.expand_macro_body(non_replaced_names, &body)
+  }
+
+  /// The replacement of a function-like macro, before it is scanned for other macros.
+  fn replace_fn_macro<'s, 't>(
+    &'s self,
+    non_replaced_names: HashSet<&str>,
+    name: &str,
+    arg_names: &[Token<'t>],
+    args: Option<&[Vec<Token<'t>>]>,
+    body: &[Token<'t>],
+  ) -> Result<Vec<Token<'t>>, ExpansionError>
   where
     's: 't,
   {
@@ -544,7 +579,7 @@ impl MacroSet {
       if let Some(args) = args {
         if arg_names.len() != args.len()
           // Allow passing an empty argument for arity 0.
-          && !(arg_names.is_empty() && args.first().map(|arg| arg.is_empty()).unwrap_or(true))
+          && !(arg_names.is_empty() && args.concat().iter().all(|t| matches!(t, Token::Comment(_))) && args.len() <= 1)
         {
           return Err(ExpansionError::FnMacroArgumentError {
             name: name.to_owned(),
@@ -581,7 +616,7 @@ impl MacroSet {
     }
 
     let body = if let Some(args) = args {
-      self.expand_arguments(non_replaced_names.clone(), &arg_names, args, body)?
+      self.expand_arguments(non_replaced_names, &arg_names, args, body)?
     } else {
       body.to_vec()
     };
@@ -589,29 +624,31 @@ impl MacroSet {
     let mut body = Self::expand_concat(body)?;
     Self::remove_placemarkers(&mut body);
 
-    non_replaced_names.insert(name);
-
-    self.expand_macro_body(non_replaced_names, &body)
+    Ok(body)
   }
 
-  fn collect_args<'s, 't, I>(&'s self, it: &mut I) -> Result<Vec<Vec<Token<'t>>>, CollectArgsError>
-  where
-    's: 't,
-    I: Iterator<Item = Token<'t>> + Clone,
-  {
+  /// Collect the arguments of a call from the tokens in `rest`, which are in reverse order.
+  ///
+  /// Returns the arguments and the number of tokens left after the call.
+  fn collect_args<'t>(
+    &self,
+    rest: &[Token<'t>],
+    active: &[(String, usize)],
+  ) -> Result<(Vec<Vec<Token<'t>>>, usize), CollectArgsError> {
     let mut depth = 0; // Keep track of parenthesis pairs.
     let mut args = vec![];
     let mut current_arg = vec![];
 
-    let mut it2 = it.clone();
+    // White space is allowed between the name and its arguments.
+    let mut it = rest.iter().enumerate().rev().skip_while(|(_, t)| matches!(t, Token::Comment(_)));
 
-    match it2.next() {
-      Some(Token::Punctuation(p)) if p == "(" => (),
+    match it.next() {
+      Some((_, Token::Punctuation(p))) if *p == "(" => (),
       _ => return Err(CollectArgsError::MissingOpenParenthesis('(')),
     }
 
-    while let Some(token) = it2.next() {
-      match token {
+    for (index, token) in it {
+      match token.clone() {
         Token::Punctuation(p) => {
           // Only parentheses nest, brackets and braces are ordinary tokens.
           match p.as_str() {
@@ -619,9 +656,7 @@ impl MacroSet {
             ")" => {
               if depth == 0 {
                 args.push(mem::take(&mut current_arg));
-
-                *it = it2;
-                return Ok(args)
+                return Ok((args, index))
               }
 
               depth -= 1;
@@ -637,6 +672,9 @@ impl MacroSet {
 
           current_arg.push(Token::Punctuation(p));
         },
+        Token::Identifier(id) if active.iter().any(|(name, end)| *end <= index && *name == id.id) => {
+          current_arg.push(Token::NonReplacable(Box::new(Token::Identifier(id))))
+        },
         token => current_arg.push(token),
       }
     }
-- 
2.43.0


From 2a4335f04afbf515a896f8bee6532123ed9ef3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 10/42] fix: do not expand operands of a `##` which is kept for
 its arguments

---
 src/macro_set/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index d6a7ece..cce13cd 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -786,6 +786,17 @@ impl MacroSet {
           };
           tokens.push(lhs.concat(rhs)?)
         },
+        Token::Punctuation(Punctuation { punctuation: "##" }) => {
+          // The operands can only be concatenated once the arguments are known. Until then, they must
+          // not be replaced.
+          if let Some(lhs @ Token::Identifier(_)) = tokens.last_mut() {
+            *lhs = Token::NonReplacable(Box::new(lhs.clone()));
+          }
+          tokens.push(token);
+          if let Some(rhs) = it.next_if(|t| matches!(t, Token::Identifier(_))) {
+            tokens.push(Token::NonReplacable(Box::new(rhs)));
+          }
+        },
         token => tokens.push(token),
       }
     }
-- 
2.43.0


From 26c2448493ab2a50346b99c7909fba2f7c2a396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 11/42] fix: keep `#` for variable arguments passed on to
 another macro

`#define F(...) G(__VA_ARGS__)` with `#define G(x) #x` gave the string
`"__VA_ARGS__"`.
---
 src/macro_set/mod.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index cce13cd..64b5ccd 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -209,14 +209,7 @@ impl<'t> Token<'t> {
     use StringifyAction::*;
 
     match self {
-      Self::MacroArg(_) => Keep,
-      Self::VarArgs => {
-        if nested {
-          Keep
-        } else {
-          Append("__VA_ARGS__")
-        }
-      },
+      Self::MacroArg(_) | Self::VarArgs => Keep,
       Self::Identifier(id) => match id.id.as_ref() {
         "__LINE__" | "__FILE__" if nested => Keep,
         t => Append(t),
-- 
2.43.0


From 3868459cc242061b487f708471bc644890da349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 12/42] fix: do not expand a macro in its own replacement
 through an argument

---
 src/macro_set/mod.rs | 44 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 64b5ccd..fcd6601 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -210,7 +210,7 @@ impl<'t> Token<'t> {
 
     match self {
       Self::MacroArg(_) | Self::VarArgs => Keep,
-      Self::Identifier(id) => match id.id.as_ref() {
+      Self::Identifier(id) | Self::Nested(_, id) => match id.id.as_ref() {
         "__LINE__" | "__FILE__" if nested => Keep,
         t => Append(t),
       },
@@ -228,7 +228,7 @@ impl<'t> Token<'t> {
     Ok(Some(match self {
       Self::MacroArg(arg_index) => MacroToken::Arg(MacroArg { index: arg_index }),
       Self::VarArgs => MacroToken::Arg(MacroArg { index: arg_names.len() - 1 }),
-      Self::Identifier(id) => MacroToken::Identifier(id),
+      Self::Identifier(id) | Self::Nested(_, id) => MacroToken::Identifier(id),
       Self::IdentifierContinue(id_cont) => MacroToken::IdentifierContinue(id_cont),
       Self::Literal(lit, _) => MacroToken::Lit(lit),
       Self::Plain(t) => return Err(ExpansionError::InvalidToken(t.into_owned())),
@@ -243,6 +243,8 @@ impl<'t> Token<'t> {
     let new_token = match (self, other) {
       (Token::NonReplacable(lhs), rhs) => return lhs.concat(rhs),
       (lhs, Token::NonReplacable(rhs)) => return lhs.concat(*rhs),
+      (Token::Nested(_, lhs), rhs) => return Self::Identifier(lhs).concat(rhs),
+      (lhs, Token::Nested(_, rhs)) => return lhs.concat(Self::Identifier(rhs)),
       (Self::Placemarker, rhs) => return Ok(rhs),
       (lhs, Self::Placemarker) => return Ok(lhs),
       (
@@ -414,6 +416,9 @@ enum Token<'t> {
   Punctuation(Punctuation<'t>),
   /// An identifier.
   Identifier(Identifier<'t>),
+  /// An identifier in an argument which came from the replacements of the given macros. It is not replaced
+  /// by anything that contains one of them, even where their replacements have ended.
+  Nested(Vec<String>, Identifier<'t>),
   /// An identifier continuation.
   IdentifierContinue(IdentifierContinue<'t>),
   /// A literal.
@@ -456,13 +461,15 @@ impl MacroSet {
     while let Some(token) = rest.pop() {
       active.retain(|(_, end)| *end <= rest.len());
 
-      let id = match token {
-        Token::Identifier(ref id) => id.id.as_ref(),
+      let (id, nested_in) = match token {
+        Token::Identifier(ref id) => (id, vec![]),
+        Token::Nested(ref names, ref id) => (id, names.clone()),
         token => {
           tokens.push(token);
           continue
         },
       };
+      let id = id.id.as_ref();
 
       if non_replaced_names.contains(id) || active.iter().any(|(name, _)| name == id) {
         tokens.push(Token::NonReplacable(Box::new(token)));
@@ -479,7 +486,7 @@ impl MacroSet {
           let arg_names = tokenize_arg_names(arg_names)?;
           let body = tokenize(&arg_names, body);
           let replacement = self.replace_fn_macro(names, id, &arg_names, Some(&args), &body)?;
-          active.push((id.to_owned(), rest.len()));
+          active.extend(nested_in.into_iter().chain([id.to_owned()]).map(|name| (name, rest.len())));
           rest.extend(replacement.into_iter().rev());
           continue
         }
@@ -489,7 +496,7 @@ impl MacroSet {
       if let Some(body) = self.var_macros.get(id) {
         let body = tokenize(&[], body);
         let replacement = self.replace_var_macro(&body)?;
-        active.push((id.to_owned(), rest.len()));
+        active.extend(nested_in.into_iter().chain([id.to_owned()]).map(|name| (name, rest.len())));
         rest.extend(replacement.into_iter().rev());
         continue
       }
@@ -665,9 +672,8 @@ impl MacroSet {
 
           current_arg.push(Token::Punctuation(p));
         },
-        Token::Identifier(id) if active.iter().any(|(name, end)| *end <= index && *name == id.id) => {
-          current_arg.push(Token::NonReplacable(Box::new(Token::Identifier(id))))
-        },
+        Token::Identifier(id) => current_arg.push(Self::nested_token(vec![], id, active, index)),
+        Token::Nested(names, id) => current_arg.push(Self::nested_token(names, id, active, index)),
         token => current_arg.push(token),
       }
     }
@@ -675,6 +681,26 @@ impl MacroSet {
     Err(CollectArgsError::UnclosedParenthesis('('))
   }
 
+  /// An identifier at `index`, which remembers whose replacement it came from.
+  fn nested_token<'t>(
+    mut names: Vec<String>,
+    id: Identifier<'t>,
+    active: &[(String, usize)],
+    index: usize,
+  ) -> Token<'t> {
+    names.extend(active.iter().filter(|(_, end)| *end <= index).map(|(name, _)| name.clone()));
+    names.sort();
+    names.dedup();
+
+    if names.is_empty() {
+      Token::Identifier(id)
+    } else if names.iter().any(|name| *name == id.id) {
+      Token::NonReplacable(Box::new(Token::Identifier(id)))
+    } else {
+      Token::Nested(names, id)
+    }
+  }
+
   fn expand_arguments<'s, 't>(
     &'s self,
     non_replaced_names: HashSet<&str>,
-- 
2.43.0


From 530bce6bbc56c831b454fe6467e43845178dd007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 13/42] fix: report an invalid concatenation to a string or
 char literal

---
 src/macro_set/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index fcd6601..3d774b7 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -309,6 +309,10 @@ impl<'t> Token<'t> {
 
         return Err(ExpansionError::InvalidConcat)
       },
+      (_, Self::Literal(Lit::String(_) | Lit::Char(_), _)) => {
+        // A string or char literal can only be concatenated to its prefix.
+        return Err(ExpansionError::InvalidConcat)
+      },
       (
         Self::Identifier(Identifier { id: mut lhs })
         | Self::IdentifierContinue(IdentifierContinue { id_cont: mut lhs })
-- 
2.43.0


From 4cef1ebd08e373cc95e461e914062e417ee564fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 14/42] fix: report `##` at the start or end of a macro next to
 an argument

---
 src/macro_set/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 3d774b7..13ad362 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -810,6 +810,14 @@ impl MacroSet {
           tokens.push(lhs.concat(rhs)?)
         },
         Token::Punctuation(Punctuation { punctuation: "##" }) => {
+          // Macros may not start or end with `##`, regardless of what the arguments are.
+          if tokens.iter().all(|t| matches!(t, Token::Comment(_))) {
+            return Err(ExpansionError::ConcatBegin)
+          }
+          if it.clone().all(|t| matches!(t, Token::Comment(_))) {
+            return Err(ExpansionError::ConcatEnd)
+          }
+
           // The operands can only be concatenated once the arguments are known. Until then, they must
           // not be replaced.
           if let Some(lhs @ Token::Identifier(_)) = tokens.last_mut() {
-- 
2.43.0


From 46a52f6157cf47ea5e427897ea838caf4e42a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 15/42] fix: generate the same code regardless of previous
 calls

---
 src/fn_macro.rs  | 6 +++++-
 src/var_macro.rs | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index b28c118..a7dc320 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -103,6 +103,8 @@ use crate::{
 pub struct FnMacro<'t> {
   name: String,
   args: Vec<String>,
+  /// The body as it was parsed.
+  parsed_body: MacroBody<'t>,
   body: MacroBody<'t>,
 }
 
@@ -142,7 +144,7 @@ impl<'t> FnMacro<'t> {
 
     let (_, body) = MacroBody::parse(body).map_err(|_err| crate::ParserError::InvalidMacroBody)?;
 
-    Ok(Self { name, args, body })
+    Ok(Self { name, args, parsed_body: body.clone(), body })
   }
 
   /// Infer the type of this function macro and generate corresponding Rust code.
@@ -169,6 +171,8 @@ impl<'t> FnMacro<'t> {
     let mut ctx = LocalContext::new(&cx);
     ctx.arg_names = self.args.clone();
     ctx.arg_types = arg_types;
+    // Start over, the body may already have been changed for another context.
+    self.body.clone_from(&self.parsed_body);
     let ret_ty = self.body.finish(&mut ctx)?;
 
     ctx.export_as_macro = ctx.export_as_macro
diff --git a/src/var_macro.rs b/src/var_macro.rs
index 8a3c150..cad1334 100644
--- a/src/var_macro.rs
+++ b/src/var_macro.rs
@@ -30,6 +30,8 @@ use crate::{ast::Lit, is_identifier, CodegenContext, Expr, LocalContext, MacroBo
 #[derive(Debug, Clone)]
 pub struct VarMacro<'t> {
   name: String,
+  /// The body as it was parsed.
+  parsed_body: MacroBody<'t>,
   body: MacroBody<'t>,
 }
 
@@ -43,7 +45,7 @@ impl<'t> VarMacro<'t> {
       Err(_) => return Err(crate::ParserError::InvalidMacroBody),
     };
 
-    Ok(Self { name, body })
+    Ok(Self { name, parsed_body: body.clone(), body })
   }
 
   /// Evaluate the value and type of this macro and generate corresponding Rust code.
@@ -74,6 +76,9 @@ impl<'t> VarMacro<'t> {
 
     let mut tokens = TokenStream::new();
 
+    // Start over, the body may already have been changed for another context.
+    self.body.clone_from(&self.parsed_body);
+
     // Cannot generate non-expression variable-like macros.
     let value = self.value_mut().ok_or(crate::CodegenError::NonExpressionVarMacro)?;
 
-- 
2.43.0


From b12a48eb07e2a65c4da3017cc5310db86f6c9e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 16/42] fix: do not panic for division by zero

---
 src/ast/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 3f7f5d2..2ce290c 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -589,11 +589,11 @@ impl<'t> Expr<'t> {
             *self = Self::Literal(Lit::Float(*lhs / *rhs));
             self.finish(ctx)
           },
-          (BinaryOp::Div, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
+          (BinaryOp::Div, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) if rhs.value != 0 => {
             *self = Self::Literal(Lit::Int(*lhs / *rhs));
             self.finish(ctx)
           },
-          (BinaryOp::Rem, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
+          (BinaryOp::Rem, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) if rhs.value != 0 => {
             *self = Self::Literal(Lit::Int(*lhs % *rhs));
             self.finish(ctx)
           },
-- 
2.43.0


From fb6dfede73053628a9d4592020e065b44694740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 17/42] fix: report arguments which do not exist instead of
 panicking

---
 src/fn_macro.rs  | 5 +++++
 src/var_macro.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index a7dc320..4b71264 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -142,6 +142,11 @@ impl<'t> FnMacro<'t> {
 
     let (_, args) = Self::parse_args(args).map_err(|_| crate::ParserError::InvalidMacroArgs)?;
 
+    // All arguments in the body must exist.
+    if body.iter().any(|t| matches!(t, MacroToken::Arg(arg) if arg.index() >= args.len())) {
+      return Err(crate::ParserError::InvalidMacroBody)
+    }
+
     let (_, body) = MacroBody::parse(body).map_err(|_err| crate::ParserError::InvalidMacroBody)?;
 
     Ok(Self { name, args, parsed_body: body.clone(), body })
diff --git a/src/var_macro.rs b/src/var_macro.rs
index cad1334..910bcdf 100644
--- a/src/var_macro.rs
+++ b/src/var_macro.rs
@@ -40,6 +40,11 @@ impl<'t> VarMacro<'t> {
   pub fn parse(name: &str, value: &[MacroToken<'t>]) -> Result<Self, crate::ParserError> {
     let name = if is_identifier(name) { name.to_owned() } else { return Err(crate::ParserError::InvalidMacroName) };
 
+    // Variable-like macros don't have arguments.
+    if value.iter().any(|t| matches!(t, MacroToken::Arg(_))) {
+      return Err(crate::ParserError::InvalidMacroBody)
+    }
+
     let body = match MacroBody::parse(value) {
       Ok((_, body)) => body,
       Err(_) => return Err(crate::ParserError::InvalidMacroBody),
-- 
2.43.0


From e5ed570d07c225e4223376174b61ab9f5d3e5291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 18/42] fix: do not panic for stringification of `__VA_ARGS__`

---
 src/ast/stringify.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ast/stringify.rs b/src/ast/stringify.rs
index a140793..dc25df8 100644
--- a/src/ast/stringify.rs
+++ b/src/ast/stringify.rs
@@ -6,7 +6,7 @@ use nom::{
   sequence::{preceded, terminated},
   IResult,
 };
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
 use super::{
@@ -67,8 +67,9 @@ impl<'t> Stringify<'t> {
   pub(crate) fn to_token_stream_inner<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, '_, C>) -> TokenStream {
     let expr = match &*self.arg {
       Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) => {
-        let id = Ident::new(ctx.arg_name(arg.index()), Span::call_site());
-        Some(quote! { $#id })
+        let mut tokens = TokenStream::new();
+        arg.to_tokens(ctx, &mut tokens);
+        Some(tokens)
       },
       Expr::Var(Var { name: IdentifierExpr::Plain(name) }) => match name.as_str() {
         "__LINE__" => {
-- 
2.43.0


From 907c03c6692a91da0749f6952f2d8015b3e06fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 19/42] fix: report types which cannot be represented instead
 of changing them

---
 src/ast/ty.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 6cf3f7a..0cd97a9 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -495,9 +495,17 @@ impl<'t> Type<'t> {
       },
       syn::Type::Tuple(tuple_ty) if tuple_ty.elems.is_empty() => Ok(Type::BuiltIn(BuiltInType::Void)),
       syn::Type::Verbatim(ty) => {
-        Ok(Self::Identifier { name: IdentifierExpr::Plain(Identifier { id: ty.to_string().into() }), is_struct: false })
+        let id = ty.to_string();
+
+        if !is_identifier(&id) {
+          return Err(crate::CodegenError::UnsupportedType(id))
+        }
+
+        Ok(Self::Identifier { name: IdentifierExpr::Plain(Identifier { id: id.into() }), is_struct: false })
       },
-      syn::Type::Path(path_ty) => {
+      syn::Type::Path(path_ty)
+        if path_ty.qself.is_none() && path_ty.path.segments.iter().all(|s| s.arguments.is_none()) =>
+      {
         if let Some(ty) = BuiltInType::from_rust_ty(path_ty, ffi_prefix) {
           return Ok(Self::BuiltIn(ty))
         }
-- 
2.43.0


From 77466d12f129d35759b651b7e1042fdac2df5e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 20/42] fix: escape identifiers which are keywords in Rust

---
 src/ast/identifier.rs | 21 ++++++++++++++++++++-
 src/ast/macro_arg.rs  |  5 +++--
 src/ast/ty.rs         | 11 ++++++-----
 src/fn_macro.rs       |  6 +++---
 4 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/ast/identifier.rs b/src/ast/identifier.rs
index f107aec..827ae90 100644
--- a/src/ast/identifier.rs
+++ b/src/ast/identifier.rs
@@ -29,6 +29,25 @@ pub(crate) fn is_identifier(s: &str) -> bool {
   false
 }
 
+/// Create a Rust identifier for the given C identifier.
+///
+/// Keywords which only exist in Rust need to be escaped.
+pub(crate) fn rust_ident(id: &str) -> Ident {
+  #[rustfmt::skip]
+  let is_rust_only_keyword = matches!(
+    id,
+    "abstract" | "as" | "async" | "await" | "become" | "box" | "dyn" | "final" | "fn" | "impl" | "in" | "let" | "loop"
+      | "macro" | "match" | "mod" | "move" | "mut" | "override" | "priv" | "pub" | "ref" | "trait" | "try" | "type"
+      | "unsafe" | "unsized" | "use" | "virtual" | "where" | "yield"
+  );
+
+  if is_rust_only_keyword {
+    Ident::new_raw(id, Span::call_site())
+  } else {
+    Ident::new(id, Span::call_site())
+  }
+}
+
 /// An identifier.
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Identifier<'t> {
@@ -72,7 +91,7 @@ impl<'t> Identifier<'t> {
   }
 
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, _ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
-    let id = Ident::new(&self.id, Span::call_site());
+    let id = rust_ident(&self.id);
     quote! { #id }
   }
 
diff --git a/src/ast/macro_arg.rs b/src/ast/macro_arg.rs
index 11f7418..738c844 100644
--- a/src/ast/macro_arg.rs
+++ b/src/ast/macro_arg.rs
@@ -1,6 +1,7 @@
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, TokenStreamExt};
 
+use super::rust_ident;
 use crate::{CodegenContext, LocalContext};
 
 /// A macro argument.
@@ -25,11 +26,11 @@ impl MacroArg {
     tokens.append_all(match ctx.arg_name(self.index()) {
       "..." => quote! { $($__VA_ARGS__),* },
       name => {
-        let name = Ident::new(name, Span::call_site());
-
         if ctx.export_as_macro {
+          let name = Ident::new(name, Span::call_site());
           quote! { $#name }
         } else {
+          let name = rust_ident(name);
           quote! { #name }
         }
       },
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 0cd97a9..f0991e0 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -7,8 +7,9 @@ use nom::{
   sequence::{pair, preceded, terminated, tuple},
   IResult,
 };
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::{quote, ToTokens, TokenStreamExt};
+use syn::ext::IdentExt;
 
 use super::*;
 use crate::{CodegenContext, LocalContext, MacroToken};
@@ -456,7 +457,7 @@ impl<'t> Type<'t> {
       Self::Identifier { name, .. } => name.to_tokens(ctx, tokens),
       Self::Path { segments, leading_colon } => {
         let leading_colon = if *leading_colon { Some(quote! { :: }) } else { None };
-        let ids = segments.iter().map(|id| Ident::new(id.as_str(), Span::call_site()));
+        let ids = segments.iter().map(|id| rust_ident(id.as_str()));
         tokens.append_all(quote! { #leading_colon #(#ids)::* })
       },
       Self::Ptr { ty } => {
@@ -512,7 +513,7 @@ impl<'t> Type<'t> {
 
         let leading_colon = path_ty.path.leading_colon.is_some();
         let mut segments =
-          path_ty.path.segments.iter().map(|s| Identifier { id: s.ident.to_string().into() }).collect::<Vec<_>>();
+          path_ty.path.segments.iter().map(|s| Identifier { id: s.ident.unraw().to_string().into() }).collect::<Vec<_>>();
 
         if !leading_colon && segments.len() == 1 {
           Ok(Self::Identifier { name: IdentifierExpr::Plain(segments.remove(0)), is_struct: false })
@@ -531,7 +532,7 @@ impl<'t> Type<'t> {
       Self::BuiltIn(ty) => ty.to_rust_ty(ctx),
       Self::Identifier { name, .. } => {
         if let IdentifierExpr::Plain(name) = name {
-          let name = Ident::new(name.as_str(), Span::call_site());
+          let name = rust_ident(name.as_str());
           syn::parse_quote! { #name }
         } else {
           return None
@@ -540,7 +541,7 @@ impl<'t> Type<'t> {
       Self::Path { leading_colon, segments } => {
         let colon = if *leading_colon { Some(quote! { :: }) } else { None }.into_iter();
 
-        let segments = segments.iter().map(|s| Ident::new(s.as_str(), Span::call_site()));
+        let segments = segments.iter().map(|s| rust_ident(s.as_str()));
 
         syn::parse_quote! { #(#colon)* #(#segments)::*  }
       },
diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index 4b71264..016752a 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -11,7 +11,7 @@ use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, TokenStreamExt};
 
 use crate::{
-  ast::{macro_id, meta, punct},
+  ast::{macro_id, meta, punct, rust_ident},
   is_identifier, CodegenContext, LocalContext, MacroArgType, MacroBody, MacroToken, Type,
 };
 
@@ -186,7 +186,7 @@ impl<'t> FnMacro<'t> {
       || !ctx.arg_types.iter().all(|ty| matches!(*ty, MacroArgType::Known(_)))
       || ret_ty.is_none();
 
-    let name = Ident::new(&self.name, Span::call_site());
+    let name = rust_ident(&self.name);
 
     let mut body = TokenStream::new();
     match &self.body {
@@ -236,7 +236,7 @@ impl<'t> FnMacro<'t> {
         .enumerate()
         .map(|(index, name)| {
           if let MacroArgType::Known(ty) = ctx.arg_type(index).clone() {
-            let id = Ident::new(name, Span::call_site());
+            let id = rust_ident(name);
             let ty = ty.to_token_stream(&mut ctx);
             quote! { #id: #ty }
           } else {
-- 
2.43.0


From f83d323795f443eca3f64117fa01bdfea510d35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 21/42] fix: keep all inputs of inline assembly with matching
 constraints

---
 src/ast/asm.rs | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 49cb1ba..f7e05d0 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -207,6 +207,19 @@ impl<'t> Asm<'t> {
       input.finish(ctx)?;
     }
 
+    let mut matched = BTreeSet::new();
+    for (constraint, _) in self.inputs.iter() {
+      if let RegConstraint::Digit(d) = constraint {
+        if usize::from(*d) >= self.outputs.len() || !matched.insert(d) {
+          return Err(crate::CodegenError::UnsupportedExpression("invalid matching constraint".to_owned()))
+        }
+      }
+    }
+
+    if self.outputs.iter().any(|(_, constraint, _)| matches!(constraint, RegConstraint::Digit(_))) {
+      return Err(crate::CodegenError::UnsupportedExpression("matching constraint for output".to_owned()))
+    }
+
     if self.is_global() {
       ctx.export_as_macro = true;
     }
@@ -237,23 +250,21 @@ impl<'t> Asm<'t> {
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
     let template = &self.template;
 
-    let mut outputs = self.outputs.clone();
-    let mut inputs = self.inputs.clone();
-
-    for (constraint, _) in self.inputs.iter() {
-      if let RegConstraint::Digit(d) = constraint {
-        if let Some((ref mut dir, _, _)) = outputs.get_mut(*d as usize) {
-          inputs.remove(*d as usize);
-          *dir = Dir::InOut;
-        }
-      }
-    }
+    // Inputs with a matching constraint share the register of an output.
+    let (matching_inputs, inputs): (Vec<_>, Vec<_>) =
+      self.inputs.iter().partition(|(constraint, _)| matches!(constraint, RegConstraint::Digit(_)));
 
-    let outputs = outputs
+    let outputs = self
+      .outputs
       .iter()
-      .map(|(dir, reg, var)| {
+      .enumerate()
+      .map(|(i, (dir, reg, var))| {
+        let input = matching_inputs.iter().find(|(c, _)| matches!(c, RegConstraint::Digit(d) if usize::from(*d) == i));
+        let dir = if input.is_some() { Dir::InOut } else { *dir };
+        // Only needed if the input differs from the output.
+        let input = input.filter(|(_, input)| input != var).map(|(_, input)| input.to_token_stream(ctx)).into_iter();
         let var = var.to_token_stream(ctx);
-        quote! { #dir(#reg) #var }
+        quote! { #dir(#reg) #(#input =>)* #var }
       })
       .collect::<Vec<_>>();
     let inputs = inputs
-- 
2.43.0


From c5b69817a44d8085ba29722edb3707f9a0bc755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:51 +0000
Subject: [PATCH 22/42] fix: do not generate unary plus

---
 src/ast/unary_expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 2e81c6c..60fffba 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -209,7 +209,8 @@ impl<'t> UnaryExpr<'t> {
       },
       UnaryOp::Not => format!("!{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Comp => format!("!{expr}").parse::<TokenStream>().unwrap(),
-      UnaryOp::Plus => format!("+{expr}").parse::<TokenStream>().unwrap(),
+      // There is no unary plus in Rust.
+      UnaryOp::Plus => expr,
       UnaryOp::Minus => format!("-{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Deref => {
         match &*self.expr {
-- 
2.43.0


From 82b61c99f934893743847efb22b0f4455e18e85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:54 +0000
Subject: [PATCH 23/42] fix: do not resolve member names as enum variants

---
 src/ast/binary_expr.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index e307559..62134f8 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -209,10 +209,14 @@ impl<'t> BinaryExpr<'t> {
     let mut lhs_ty = self.lhs.finish(ctx)?;
     let mut rhs_ty = self.rhs.finish(ctx)?;
 
-    // Arg must be an identifier for use as a member name.
     if self.op == BinaryOp::MemberAccess {
-      if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = &*self.rhs {
-        *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
+      match &*self.rhs {
+        // Arg must be an identifier for use as a member name.
+        Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) => *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident,
+        Expr::Var(Var { name: IdentifierExpr::Concat(_) }) => {
+          return Err(crate::CodegenError::UnsupportedExpression("concatenation of member name".to_owned()))
+        },
+        _ => (),
       }
     }
 
@@ -287,7 +291,11 @@ impl<'t> BinaryExpr<'t> {
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
     let mut lhs = self.lhs.to_token_stream(ctx);
     let op = self.op;
-    let mut rhs = self.rhs.to_token_stream(ctx);
+    let mut rhs = match (op, &*self.rhs) {
+      // Field names are not variables.
+      (BinaryOp::MemberAccess, Expr::Var(Var { name })) => name.to_token_stream(ctx),
+      (_, rhs) => rhs.to_token_stream(ctx),
+    };
 
     let (lhs_prec, _) = self.lhs.precedence();
     let (prec, assoc) = self.precedence();
-- 
2.43.0


From d4b9004e7823f34b31573b497444b7b311e80334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:58 +0000
Subject: [PATCH 24/42] fix: parenthesize enum variants which are not a path or
 literal

---
 src/ast/var.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ast/var.rs b/src/ast/var.rs
index 37091ad..1846b8b 100644
--- a/src/ast/var.rs
+++ b/src/ast/var.rs
@@ -89,7 +89,11 @@ impl<'t> Var<'t> {
         "__LONG_LONG_MAX__" => quote! { #(#ffi_prefix::)*c_longlong::MAX },
         name => {
           if let Some((_, enum_variant)) = ctx.resolve_enum_variant(name) {
-            quote! { #enum_variant }
+            match enum_variant {
+              syn::Expr::Lit(_) | syn::Expr::Path(_) | syn::Expr::Paren(_) => quote! { #enum_variant },
+              // May be part of another expression.
+              enum_variant => quote! { (#enum_variant) },
+            }
           } else {
             self.name.to_token_stream(ctx)
           }
-- 
2.43.0


From 76633a2ad07368ff17b8abf8fc27006d551330c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:16 +0000
Subject: [PATCH 25/42] fix: parenthesize statements which start with a block

---
 src/ast/expr.rs         | 21 ++++++++++++++++++++-
 src/ast/statement.rs    |  2 +-
 src/ast/ternary_expr.rs |  4 ++--
 src/fn_macro.rs         |  2 +-
 4 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 2ce290c..31b3044 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -7,7 +7,7 @@ use nom::{
   sequence::{delimited, pair, preceded, terminated, tuple},
   IResult,
 };
-use proc_macro2::TokenStream;
+use proc_macro2::{Delimiter, TokenStream, TokenTree};
 use quote::{quote, TokenStreamExt};
 
 use super::{tokens::parenthesized, *};
@@ -704,6 +704,25 @@ impl<'t> Expr<'t> {
     self.to_tokens(ctx, &mut tokens);
     tokens
   }
+
+  /// Generate the expression for use as a statement, where a leading
+  /// block which is part of a larger expression would be parsed on its own.
+  pub(crate) fn to_statement_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
+    let expr = self.to_token_stream(ctx);
+
+    let mut tokens = expr.clone().into_iter();
+    let needs_parens = match tokens.next() {
+      Some(TokenTree::Group(group)) => group.delimiter() == Delimiter::Brace && tokens.next().is_some(),
+      Some(TokenTree::Ident(id)) => id == "if" && !matches!(self, Self::Ternary(_)),
+      _ => false,
+    };
+
+    if needs_parens {
+      quote! { (#expr) }
+    } else {
+      expr
+    }
+  }
 }
 
 #[cfg(test)]
diff --git a/src/ast/statement.rs b/src/ast/statement.rs
index 902dd28..b963c6b 100644
--- a/src/ast/statement.rs
+++ b/src/ast/statement.rs
@@ -150,7 +150,7 @@ impl<'t> Statement<'t> {
         tokens.append_all(quote! { #asm; })
       },
       Self::Expr(expr) => {
-        let expr = expr.to_token_stream(ctx);
+        let expr = expr.to_statement_token_stream(ctx);
         tokens.append_all(quote! { #expr; })
       },
       Self::FunctionDecl(f) => f.to_tokens(ctx, tokens),
diff --git a/src/ast/ternary_expr.rs b/src/ast/ternary_expr.rs
index 1976e89..81e20b7 100644
--- a/src/ast/ternary_expr.rs
+++ b/src/ast/ternary_expr.rs
@@ -39,8 +39,8 @@ impl<'t> TernaryExpr<'t> {
 
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
     let cond = self.condition.to_token_stream(ctx);
-    let if_branch = self.if_branch.to_token_stream(ctx);
-    let else_branch = self.else_branch.to_token_stream(ctx);
+    let if_branch = self.if_branch.to_statement_token_stream(ctx);
+    let else_branch = self.else_branch.to_statement_token_stream(ctx);
 
     tokens.append_all(quote! {
       if #cond {
diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index 016752a..c365b17 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -191,7 +191,7 @@ impl<'t> FnMacro<'t> {
     let mut body = TokenStream::new();
     match &self.body {
       MacroBody::Statement(stmt) => stmt.to_tokens(&mut ctx, &mut body),
-      MacroBody::Expr(expr) => expr.to_tokens(&mut ctx, &mut body),
+      MacroBody::Expr(expr) => body.append_all(expr.to_statement_token_stream(&mut ctx)),
     }
 
     if ctx.export_as_macro {
-- 
2.43.0


From 67db67df390343c3cb1fe158ff7072ad9e3e14b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:27 +0000
Subject: [PATCH 26/42] fix: parenthesize all casts on the left side of a
 comparison or shift

---
 src/ast/binary_expr.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 62134f8..7e42bdf 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -1,6 +1,6 @@
 use std::fmt::Debug;
 
-use proc_macro2::TokenStream;
+use proc_macro2::{TokenStream, TokenTree};
 use quote::{quote, ToTokens, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext, MacroArgType};
@@ -307,9 +307,11 @@ impl<'t> BinaryExpr<'t> {
       (_, Associativity::Right) => (lhs_prec <= prec, rhs_prec < prec),
     };
 
-    // Ensure that a cast on the left side is quoted when shifting
-    // left to avoid ambiguous type parameter errors.
-    if matches!(&*self.lhs, Expr::Cast(..) | Expr::SizeOf(..)) && matches!(op, BinaryOp::Shl) {
+    // Ensure that a cast on the left side is quoted when shifting left or
+    // comparing to avoid ambiguous type parameter errors.
+    if matches!(op, BinaryOp::Shl | BinaryOp::Lt)
+      && lhs.clone().into_iter().any(|t| matches!(t, TokenTree::Ident(id) if id == "as"))
+    {
       lhs_parens = true;
     }
 
-- 
2.43.0


From cd68f33adfd4c355321d2e15bd098fa97d8c84f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:55 +0000
Subject: [PATCH 27/42] fix: do not parse parentheses more than once

---
 src/ast/expr.rs | 107 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 76 insertions(+), 31 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 31b3044..ce1d3f0 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -2,7 +2,7 @@ use std::{borrow::Cow, fmt::Debug};
 
 use nom::{
   branch::alt,
-  combinator::{map, map_res, value},
+  combinator::{cut, map, map_res, value},
   multi::{fold_many0, separated_list0},
   sequence::{delimited, pair, preceded, terminated, tuple},
   IResult,
@@ -71,13 +71,21 @@ impl<'t> Expr<'t> {
       map(LitChar::parse, |c| Self::Literal(Lit::Char(c))),
       Self::parse_concat_string,
       map(Lit::parse, Self::Literal),
-      parenthesized(Self::parse),
+      // Nothing else can start with a parenthesis, so there is no need to backtrack.
+      delimited(pair(punct("("), meta), cut(Self::parse_term_prec14), cut(pair(meta, punct(")")))),
     ))(tokens)
   }
 
+  fn parse_call_args<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Vec<Self>> {
+    parenthesized(separated_list0(tuple((meta, punct(","), meta)), Self::parse_term_prec14))(tokens)
+  }
+
   fn parse_term_prec1<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let (tokens, factor) = Self::parse_factor(tokens)?;
+    Self::parse_postfix(tokens, factor)
+  }
 
+  fn parse_postfix<'i>(tokens: &'i [MacroToken<'t>], factor: Self) -> IResult<&'i [MacroToken<'t>], Self> {
     #[derive(Debug)]
     enum Access<'t> {
       Fn(Vec<Expr<'t>>),
@@ -91,14 +99,15 @@ impl<'t> Expr<'t> {
         preceded(
           meta,
           alt((
-            map(parenthesized(separated_list0(tuple((meta, punct(","), meta)), Self::parse)), Access::Fn),
+            map(Self::parse_call_args, Access::Fn),
             map(preceded(terminated(punct("."), meta), IdentifierExpr::parse_concat_ident), |field| Access::Field {
               field,
               deref: false,
             }),
-            map(delimited(terminated(punct("["), meta), Self::parse, preceded(meta, punct("]"))), |index| {
-              Access::Array { index: Box::new(index) }
-            }),
+            map(
+              delimited(terminated(punct("["), meta), Self::parse_term_prec14, preceded(meta, punct("]"))),
+              |index| Access::Array { index: Box::new(index) },
+            ),
             map(preceded(terminated(punct("->"), meta), IdentifierExpr::parse_concat_ident), |field| Access::Field {
               field,
               deref: true,
@@ -148,32 +157,65 @@ impl<'t> Expr<'t> {
     )(tokens)
   }
 
-  fn parse_term_prec2<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
-    alt((
-      map(pair(parenthesized(Type::parse), Self::parse_term_prec2), |(ty, term)| {
-        Self::Cast(Cast { ty, expr: Box::new(term) })
-      }),
-      map(
-        pair(
-          terminated(
-            alt((
-              value(UnaryOp::Deref, punct("*")),
-              value(UnaryOp::AddrOf, punct("&")),
-              value(UnaryOp::Inc, punct("++")),
-              value(UnaryOp::Dec, punct("--")),
-              value(UnaryOp::Plus, punct("+")),
-              value(UnaryOp::Minus, punct("-")),
-              value(UnaryOp::Not, punct("!")),
-              value(UnaryOp::Comp, punct("~")),
-            )),
-            meta,
-          ),
-          Self::parse_term_prec2,
+  fn parse_cast<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
+    let (expr_tokens, ty) = parenthesized(Type::parse)(tokens)?;
+
+    match Self::parse_cast(expr_tokens) {
+      Ok((tokens, expr)) => return Ok((tokens, Self::Cast(Cast { ty, expr: Box::new(expr) }))),
+      Err(nom::Err::Error(_)) => (),
+      Err(err) => return Err(err),
+    }
+
+    // Do not parse the parentheses twice to decide between a cast and a function
+    // call, e.g. `(ty)(expr)` and `(f)(expr1, expr2)`, since they can be nested.
+    if punct("(")(expr_tokens).is_ok() {
+      let name = parenthesized(IdentifierExpr::parse_concat_ident)(tokens);
+
+      return match Self::parse_call_args(expr_tokens) {
+        Ok((tokens, mut args)) if args.len() == 1 => {
+          let (tokens, expr) = Self::parse_postfix(tokens, args.remove(0))?;
+          Ok((tokens, Self::Cast(Cast { ty, expr: Box::new(expr) })))
+        },
+        Ok((tokens, args)) => {
+          let (_, name) = name?;
+          Self::parse_postfix(tokens, Self::FunctionCall(FunctionCall { name, args }))
+        },
+        Err(nom::Err::Error(_)) => {
+          let (tokens, name) = name?;
+          Ok((tokens, Self::Var(Var { name })))
+        },
+        Err(err) => Err(err),
+      }
+    }
+
+    let (tokens, expr) = alt((Self::parse_unary, Self::parse_term_prec1))(expr_tokens)?;
+    Ok((tokens, Self::Cast(Cast { ty, expr: Box::new(expr) })))
+  }
+
+  fn parse_unary<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
+    map(
+      pair(
+        terminated(
+          alt((
+            value(UnaryOp::Deref, punct("*")),
+            value(UnaryOp::AddrOf, punct("&")),
+            value(UnaryOp::Inc, punct("++")),
+            value(UnaryOp::Dec, punct("--")),
+            value(UnaryOp::Plus, punct("+")),
+            value(UnaryOp::Minus, punct("-")),
+            value(UnaryOp::Not, punct("!")),
+            value(UnaryOp::Comp, punct("~")),
+          )),
+          meta,
         ),
-        |(op, expr)| Self::Unary(UnaryExpr { op, expr: Box::new(expr) }),
+        Self::parse_term_prec2,
       ),
-      Self::parse_term_prec1,
-    ))(tokens)
+      |(op, expr)| Self::Unary(UnaryExpr { op, expr: Box::new(expr) }),
+    )(tokens)
+  }
+
+  fn parse_term_prec2<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
+    alt((Self::parse_cast, Self::parse_unary, Self::parse_term_prec1))(tokens)
   }
 
   fn parse_term_prec3<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
@@ -336,7 +378,10 @@ impl<'t> Expr<'t> {
 
   /// Parse an expression.
   pub(crate) fn parse<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
-    Self::parse_term_prec14(tokens)
+    Self::parse_term_prec14(tokens).map_err(|err| match err {
+      nom::Err::Failure(err) => nom::Err::Error(err),
+      err => err,
+    })
   }
 
   pub(crate) fn finish_condition<C>(
-- 
2.43.0


From 2b3a53584c427bf16574c636394c57c5105665df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 28/42] fix: do not generate code for nested array accesses
 more than once

---
 src/ast/unary_expr.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 60fffba..9f19b8f 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -98,6 +98,26 @@ impl<'t> UnaryExpr<'t> {
     let (prec, _) = self.precedence();
     let (expr_prec, _) = self.expr.precedence();
 
+    if let (UnaryOp::Deref, Expr::Binary(BinaryExpr { lhs, op: op @ (BinaryOp::Add | BinaryOp::Sub), rhs })) =
+      (self.op, &*self.expr)
+    {
+      let raw_lhs = lhs.to_token_stream(ctx);
+      let raw_rhs = rhs.to_token_stream(ctx);
+
+      let (lhs_prec, _) = lhs.precedence();
+
+      let lhs = if lhs_prec > prec || lhs_prec > 1 {
+        quote! { (#raw_lhs) }
+      } else {
+        raw_lhs
+      };
+
+      return match op {
+        BinaryOp::Add => quote! { *#lhs.add(#raw_rhs) },
+        _ => quote! { *#lhs.sub(#raw_rhs) },
+      }
+    }
+
     let raw_expr = self.expr.to_token_stream(ctx);
 
     let expr = if expr_prec > prec {
@@ -220,24 +240,6 @@ impl<'t> UnaryExpr<'t> {
               return quote! { #(#prefix::)*ptr::read_volatile(#raw_expr) }
             }
           },
-          Expr::Binary(BinaryExpr { lhs, op, rhs }) => {
-            let raw_lhs = lhs.to_token_stream(ctx);
-            let raw_rhs = rhs.to_token_stream(ctx);
-
-            let (lhs_prec, _) = lhs.precedence();
-
-            let lhs = if lhs_prec > prec || lhs_prec > 1 {
-              quote! { (#raw_lhs) }
-            } else {
-              raw_lhs
-            };
-
-            match op {
-              BinaryOp::Add => return quote! { *#lhs.add(#raw_rhs) },
-              BinaryOp::Sub => return quote! { *#lhs.sub(#raw_rhs) },
-              _ => (),
-            }
-          },
           Expr::Unary(UnaryExpr { op, expr }) => {
             let raw_expr = expr.to_token_stream(ctx);
 
-- 
2.43.0


From 92115dba5bf242bad9ca4bc5f40f1119db70b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:31 +0000
Subject: [PATCH 29/42] fix: do not treat an argument followed by an operator
 as a type

---
 src/ast/expr.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index ce1d3f0..217524b 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -2,7 +2,7 @@ use std::{borrow::Cow, fmt::Debug};
 
 use nom::{
   branch::alt,
-  combinator::{cut, map, map_res, value},
+  combinator::{cut, map, map_res, not, value},
   multi::{fold_many0, separated_list0},
   sequence::{delimited, pair, preceded, terminated, tuple},
   IResult,
@@ -160,6 +160,11 @@ impl<'t> Expr<'t> {
   fn parse_cast<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let (expr_tokens, ty) = parenthesized(Type::parse)(tokens)?;
 
+    // Arguments cannot be resolved as a type, so this is a binary operation, e.g. `(arg1) & arg2`.
+    if matches!(ty, Type::Identifier { name: IdentifierExpr::Arg(_) | IdentifierExpr::Concat(_), is_struct: false }) {
+      not(alt((punct("+"), punct("-"), punct("*"), punct("&"))))(expr_tokens)?;
+    }
+
     match Self::parse_cast(expr_tokens) {
       Ok((tokens, expr)) => return Ok((tokens, Self::Cast(Cast { ty, expr: Box::new(expr) }))),
       Err(nom::Err::Error(_)) => (),
@@ -447,15 +452,12 @@ impl<'t> Expr<'t> {
         // Handle ambiguous cast vs. binary operation, e.g. `(ty)&var` vs `(var1) & var2`.
         if let (Self::Unary(expr), Type::Identifier { name, is_struct: false }) = (&*cast.expr, &cast.ty) {
           let treat_as_binop = match name {
-            IdentifierExpr::Arg(_) => {
-              // Arguments cannot be resolved as a type.
-              true
-            },
             IdentifierExpr::Plain(name) => {
               // Cannot resolve type.
               ctx.resolve_ty(name.as_str()).is_none()
             },
-            IdentifierExpr::Concat(_) => true,
+            // Arguments are already handled when parsing.
+            IdentifierExpr::Arg(_) | IdentifierExpr::Concat(_) => false,
           };
 
           if treat_as_binop {
-- 
2.43.0


From ec98bfa33bb3f06cd68d0122ad9ada7608b726e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 30/42] fix: generate `ty` fragments for arguments which are
 used as a type

---
 src/ast/function_call.rs | 42 +++++++++++++++++++---------------------
 src/ast/stringify.rs     |  2 +-
 src/ast/ty.rs            | 22 +++++++++++++++------
 src/ast/var.rs           |  2 ++
 src/context.rs           | 24 +++++++++++++++++++++++
 5 files changed, 63 insertions(+), 29 deletions(-)

diff --git a/src/ast/function_call.rs b/src/ast/function_call.rs
index 2dd4532..77a31c3 100644
--- a/src/ast/function_call.rs
+++ b/src/ast/function_call.rs
@@ -30,8 +30,25 @@ impl<'t> FunctionCall<'t> {
     }
 
     self.name.finish(ctx)?;
-    for arg in self.args.iter_mut() {
-      arg.finish(ctx)?;
+    let is_offsetof = matches!(&self.name, IdentifierExpr::Plain(name) if name.as_str() == "__builtin_offsetof")
+      && self.args.len() == 2;
+    for (index, arg) in self.args.iter_mut().enumerate() {
+      match arg {
+        // The first argument of `offsetof` is a type.
+        Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) if is_offsetof && index == 0 => {
+          ctx.use_arg_as_ty(arg.index());
+        },
+        // The second argument of `offsetof` is a field.
+        Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) if is_offsetof => {
+          let arg_type = ctx.arg_type_mut(arg.index());
+          if matches!(arg_type, MacroArgType::Unknown | MacroArgType::Var) {
+            *arg_type = MacroArgType::Tt;
+          }
+        },
+        arg => {
+          arg.finish(ctx)?;
+        },
+      }
     }
 
     let mut ty = None;
@@ -48,7 +65,7 @@ impl<'t> FunctionCall<'t> {
             // we can infer the type of the macro argument.
             if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = arg {
               let arg_type = ctx.arg_type_mut(arg.index());
-              if *arg_type == MacroArgType::Unknown {
+              if matches!(arg_type, MacroArgType::Unknown | MacroArgType::Var) {
                 *arg_type = MacroArgType::Known(Type::from_rust_ty(known_arg_type, ffi_prefix.as_ref())?);
               }
             }
@@ -56,25 +73,6 @@ impl<'t> FunctionCall<'t> {
         }
       } else {
         ctx.export_as_macro = true;
-
-        match name.as_str() {
-          "__builtin_offsetof" if self.args.len() == 2 => {
-            if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = &mut self.args[0] {
-              let arg_type = ctx.arg_type_mut(arg.index());
-              if *arg_type == MacroArgType::Unknown {
-                *arg_type = MacroArgType::Ty;
-              }
-            }
-
-            if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = &mut self.args[1] {
-              let arg_type = ctx.arg_type_mut(arg.index());
-              if *arg_type == MacroArgType::Unknown {
-                *arg_type = MacroArgType::Tt;
-              }
-            }
-          },
-          _ => (),
-        }
       }
     }
 
diff --git a/src/ast/stringify.rs b/src/ast/stringify.rs
index dc25df8..24b4119 100644
--- a/src/ast/stringify.rs
+++ b/src/ast/stringify.rs
@@ -44,7 +44,7 @@ impl<'t> Stringify<'t> {
     match &mut *self.arg {
       Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) => {
         let arg_ty = ctx.arg_type_mut(arg.index());
-        if *arg_ty != MacroArgType::Ident {
+        if matches!(arg_ty, MacroArgType::Known(_) | MacroArgType::Var | MacroArgType::Unknown) {
           *arg_ty = MacroArgType::Expr;
         }
       },
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index f0991e0..c90ca81 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -435,12 +435,22 @@ impl<'t> Type<'t> {
       Self::Identifier { name, .. } => {
         name.finish(ctx)?;
 
-        if let IdentifierExpr::Plain(ref id) = name {
-          if let Some(ty) = ctx.resolve_ty(id.as_str()) {
-            *self = Self::from_rust_ty(&ty, ctx.ffi_prefix().as_ref())?;
-          } else {
-            return Err(crate::CodegenError::UnsupportedType(id.as_str().to_owned()))
-          }
+        match name {
+          IdentifierExpr::Arg(arg) => {
+            if ctx.arg_name(arg.index()) == "..." {
+              return Err(crate::CodegenError::UnsupportedType("__VA_ARGS__".to_owned()))
+            }
+
+            ctx.use_arg_as_ty(arg.index());
+          },
+          IdentifierExpr::Plain(id) => {
+            if let Some(ty) = ctx.resolve_ty(id.as_str()) {
+              *self = Self::from_rust_ty(&ty, ctx.ffi_prefix().as_ref())?;
+            } else {
+              return Err(crate::CodegenError::UnsupportedType(id.as_str().to_owned()))
+            }
+          },
+          IdentifierExpr::Concat(_) => (),
         }
 
         Ok(None)
diff --git a/src/ast/var.rs b/src/ast/var.rs
index 1846b8b..5e38982 100644
--- a/src/ast/var.rs
+++ b/src/ast/var.rs
@@ -24,6 +24,8 @@ impl<'t> Var<'t> {
 
     match &self.name {
       IdentifierExpr::Arg(arg) => {
+        ctx.use_arg_as_expr(arg.index());
+
         if let MacroArgType::Known(arg_ty) = ctx.arg_type_mut(arg.index()) {
           Ok(Some(arg_ty.clone()))
         } else {
diff --git a/src/context.rs b/src/context.rs
index 06d43ec..4322cc4 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -13,6 +13,8 @@ pub(crate) enum MacroArgType<'t> {
   Tt,
   /// known type
   Known(Type<'t>),
+  /// unknown type, used as an expression
+  Var,
   /// unknown type
   Unknown,
 }
@@ -63,6 +65,28 @@ impl<'g, 't, C> LocalContext<'g, 't, C> {
     &mut self.arg_types[index]
   }
 
+  /// Use the argument at the given index as an expression.
+  pub fn use_arg_as_expr(&mut self, index: usize) {
+    let arg_type = self.arg_type_mut(index);
+
+    match arg_type {
+      MacroArgType::Unknown => *arg_type = MacroArgType::Var,
+      MacroArgType::Ty => *arg_type = MacroArgType::Tt,
+      _ => (),
+    }
+  }
+
+  /// Use the argument at the given index as a type.
+  pub fn use_arg_as_ty(&mut self, index: usize) {
+    let arg_type = self.arg_type_mut(index);
+
+    match arg_type {
+      MacroArgType::Unknown => *arg_type = MacroArgType::Ty,
+      MacroArgType::Expr | MacroArgType::Known(_) | MacroArgType::Var => *arg_type = MacroArgType::Tt,
+      _ => (),
+    }
+  }
+
   pub fn is_variable_macro(&self) -> bool
   where
     C: context::CodegenContext,
-- 
2.43.0


From 58436eb9452e8fcde0de1603668c5daa11ef3127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:03 +0000
Subject: [PATCH 31/42] fix: report assignments to values

---
 src/ast/binary_expr.rs |  4 ++++
 src/ast/expr.rs        | 12 ++++++++++++
 src/ast/unary_expr.rs  |  6 ++++++
 3 files changed, 22 insertions(+)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 7e42bdf..1ef48dd 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -220,6 +220,10 @@ impl<'t> BinaryExpr<'t> {
       }
     }
 
+    if self.op.is_assignment() && !self.lhs.is_assignable(ctx) {
+      return Err(crate::CodegenError::UnsupportedExpression("assignment to a value".to_owned()))
+    }
+
     // Must export as a macro in order to be able to assign to a macro argument.
     if self.op.is_assignment() && matches!(&*self.lhs, Expr::Var(Var { name: IdentifierExpr::Arg(_) })) {
       ctx.export_as_macro = true;
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 217524b..8b9500e 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -43,6 +43,18 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Check if this expression can be assigned to.
+  pub(crate) fn is_assignable<C: CodegenContext>(&self, ctx: &LocalContext<'_, 't, C>) -> bool {
+    match self {
+      Self::Var(Var { name: IdentifierExpr::Arg(arg) }) => ctx.arg_name(arg.index()) != "...",
+      Self::Var(Var { name: IdentifierExpr::Plain(id) }) => ctx.resolve_enum_variant(id.as_str()).is_none(),
+      Self::Var(_) | Self::FunctionCall(_) => true,
+      Self::Unary(expr) => expr.op == UnaryOp::Deref,
+      Self::Binary(expr) => expr.op == BinaryOp::MemberAccess,
+      _ => false,
+    }
+  }
+
   /// Parse string concatenation, e.g. `arg "333"`.
   fn parse_concat_string<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let parse_var = map(IdentifierExpr::parse_concat_ident, |id| Self::Var(Var { name: id }));
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 9f19b8f..ac89aaa 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -70,6 +70,12 @@ impl<'t> UnaryExpr<'t> {
   {
     let ty = self.expr.finish(ctx)?;
 
+    if matches!(self.op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec)
+      && !self.expr.is_assignable(ctx)
+    {
+      return Err(crate::CodegenError::UnsupportedExpression("increment or decrement of a value".to_owned()))
+    }
+
     match self.op {
       UnaryOp::Not => Ok(Some(Type::BuiltIn(BuiltInType::Bool))),
       UnaryOp::Deref => {
-- 
2.43.0


From 61bdadaa5d8053903e229a43baf684fef88f615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 32/42] fix: require `ident` fragments for the names of
 declarations

---
 src/ast/function_decl.rs   |  9 ++++-----
 src/ast/identifier_expr.rs | 19 +++++++++++++++++++
 src/ast/var_decl.rs        |  2 +-
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/ast/function_decl.rs b/src/ast/function_decl.rs
index 5fea3ce..ed8a4a8 100644
--- a/src/ast/function_decl.rs
+++ b/src/ast/function_decl.rs
@@ -14,7 +14,7 @@ use super::{
   tokens::{parenthesized, punct},
   *,
 };
-use crate::{CodegenContext, LocalContext, MacroArgType, MacroToken};
+use crate::{CodegenContext, LocalContext, MacroToken};
 
 /// A function declaration.
 ///
@@ -46,12 +46,11 @@ impl<'t> FunctionDecl<'t> {
   {
     self.ret_ty.finish(ctx)?;
 
-    if let IdentifierExpr::Arg(arg) = &self.name {
-      *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
-    }
+    self.name.finish_decl(ctx)?;
 
-    for (ty, _arg) in self.args.iter_mut() {
+    for (ty, arg) in self.args.iter_mut() {
       ty.finish(ctx)?;
+      arg.finish_decl(ctx)?;
     }
 
     // A declaration has no type.
diff --git a/src/ast/identifier_expr.rs b/src/ast/identifier_expr.rs
index 9bc7e4e..8128562 100644
--- a/src/ast/identifier_expr.rs
+++ b/src/ast/identifier_expr.rs
@@ -124,6 +124,25 @@ impl<'t> IdentifierExpr<'t> {
     }
   }
 
+  /// Finish an identifier which is the name of a declaration.
+  pub(crate) fn finish_decl<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<(), crate::CodegenError>
+  where
+    C: CodegenContext,
+  {
+    match self {
+      Self::Arg(arg) if ctx.arg_name(arg.index()) != "..." => {
+        // The name of a declaration must be `ident`.
+        *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
+        Ok(())
+      },
+      Self::Plain(_) => Ok(()),
+      Self::Arg(_) => Err(crate::CodegenError::UnsupportedExpression("declaration of `__VA_ARGS__`".to_owned())),
+      Self::Concat(_) => {
+        Err(crate::CodegenError::UnsupportedExpression("concatenation of declaration name".to_owned()))
+      },
+    }
+  }
+
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
     let mut tokens = TokenStream::new();
     self.to_tokens(ctx, &mut tokens);
diff --git a/src/ast/var_decl.rs b/src/ast/var_decl.rs
index f1615ad..884afeb 100644
--- a/src/ast/var_decl.rs
+++ b/src/ast/var_decl.rs
@@ -39,7 +39,7 @@ impl<'t> VarDecl<'t> {
     C: CodegenContext,
   {
     self.ty.finish(ctx)?;
-    self.name.finish(ctx)?;
+    self.name.finish_decl(ctx)?;
     self.rhs.finish(ctx)?;
 
     Ok(None)
-- 
2.43.0


From 025ac8573600b0d87ccc52924f986e5694117379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 33/42] fix: do not generate duplicate semicolons in else
 branches

---
 src/ast/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/statement.rs b/src/ast/statement.rs
index b963c6b..23f1a82 100644
--- a/src/ast/statement.rs
+++ b/src/ast/statement.rs
@@ -171,7 +171,7 @@ impl<'t> Statement<'t> {
         let condition = condition.to_token_stream(ctx);
         let if_branch = if_branch.iter().map(|stmt| stmt.to_token_stream(ctx)).collect::<Vec<_>>();
         let else_branch = else_branch.iter().map(|stmt| stmt.to_token_stream(ctx)).collect::<Vec<_>>();
-        let else_branch = if else_branch.is_empty() { None } else { Some(quote! { else { #(#else_branch);* } }) };
+        let else_branch = if else_branch.is_empty() { None } else { Some(quote! { else { #(#else_branch)* } }) };
 
         tokens.append_all(quote! {
           if #condition {
-- 
2.43.0


From c01dba1eb16dcf5165d657e54875757226f56daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 34/42] fix: report identifiers which are reserved in Rust,
 parenthesize `__LINE__`

---
 src/ast/binary_expr.rs     |  7 ++++++-
 src/ast/expr.rs            | 10 ++++++++--
 src/ast/identifier.rs      | 28 ++++++++++++++++++++++++++++
 src/ast/identifier_expr.rs |  6 +++++-
 src/fn_macro.rs            | 14 ++++++++++++--
 5 files changed, 59 insertions(+), 6 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 1ef48dd..ca42ef4 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -5,7 +5,9 @@ use quote::{quote, ToTokens, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext, MacroArgType};
 
-use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitFloat, LitInt, Type, UnaryExpr, UnaryOp, Var};
+use super::{
+  is_rust_name, BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitFloat, LitInt, Type, UnaryExpr, UnaryOp, Var,
+};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub(crate) enum Associativity {
@@ -216,6 +218,9 @@ impl<'t> BinaryExpr<'t> {
         Expr::Var(Var { name: IdentifierExpr::Concat(_) }) => {
           return Err(crate::CodegenError::UnsupportedExpression("concatenation of member name".to_owned()))
         },
+        Expr::Var(Var { name: IdentifierExpr::Plain(id) }) if !is_rust_name(id.as_str()) => {
+          return Err(crate::CodegenError::UnsupportedExpression(format!("member `{}`", id.as_str())))
+        },
         _ => (),
       }
     }
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 8b9500e..c10d0ec 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -30,8 +30,10 @@ pub enum Expr<'t> {
 }
 
 impl<'t> Expr<'t> {
-  pub(crate) const fn precedence(&self) -> (u8, Associativity) {
+  pub(crate) fn precedence(&self) -> (u8, Associativity) {
     match self {
+      // Generated as a cast.
+      Self::Var(Var { name: IdentifierExpr::Plain(name) }) if name.as_str() == "__LINE__" => (3, Associativity::Left),
       Self::Literal(_) | Self::Var(_) => (0, Associativity::None),
       Self::FunctionCall(_) => (1, Associativity::Left),
       Self::Stringify(_) | Self::ConcatString(_) => (3, Associativity::Left),
@@ -47,7 +49,11 @@ impl<'t> Expr<'t> {
   pub(crate) fn is_assignable<C: CodegenContext>(&self, ctx: &LocalContext<'_, 't, C>) -> bool {
     match self {
       Self::Var(Var { name: IdentifierExpr::Arg(arg) }) => ctx.arg_name(arg.index()) != "...",
-      Self::Var(Var { name: IdentifierExpr::Plain(id) }) => ctx.resolve_enum_variant(id.as_str()).is_none(),
+      Self::Var(Var { name: IdentifierExpr::Plain(id) }) => match id.as_str() {
+        "__LINE__" | "__FILE__" | "__SCHAR_MAX__" | "__SHRT_MAX__" | "__INT_MAX__" | "__LONG_MAX__"
+        | "__LONG_LONG_MAX__" => false,
+        id => is_rust_name(id) && ctx.resolve_enum_variant(id).is_none(),
+      },
       Self::Var(_) | Self::FunctionCall(_) => true,
       Self::Unary(expr) => expr.op == UnaryOp::Deref,
       Self::Binary(expr) => expr.op == BinaryOp::MemberAccess,
diff --git a/src/ast/identifier.rs b/src/ast/identifier.rs
index 827ae90..2e2cd36 100644
--- a/src/ast/identifier.rs
+++ b/src/ast/identifier.rs
@@ -48,6 +48,34 @@ pub(crate) fn rust_ident(id: &str) -> Ident {
   }
 }
 
+/// Check if the given C identifier is a keyword in Rust which cannot be escaped.
+pub(crate) fn is_reserved(id: &str) -> bool {
+  matches!(
+    id,
+    "_"
+      | "const"
+      | "crate"
+      | "do"
+      | "else"
+      | "enum"
+      | "extern"
+      | "for"
+      | "if"
+      | "self"
+      | "Self"
+      | "static"
+      | "struct"
+      | "super"
+      | "typeof"
+      | "while"
+  )
+}
+
+/// Check if the given C identifier can be used as the name of a Rust item, variable or field.
+pub(crate) fn is_rust_name(id: &str) -> bool {
+  !is_reserved(id) && !matches!(id, "break" | "continue" | "false" | "return" | "true")
+}
+
 /// An identifier.
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Identifier<'t> {
diff --git a/src/ast/identifier_expr.rs b/src/ast/identifier_expr.rs
index 8128562..6dfb832 100644
--- a/src/ast/identifier_expr.rs
+++ b/src/ast/identifier_expr.rs
@@ -100,6 +100,9 @@ impl<'t> IdentifierExpr<'t> {
         // *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
         Ok(None)
       },
+      Self::Plain(id) if is_reserved(id.as_str()) => {
+        Err(crate::CodegenError::UnsupportedExpression(format!("identifier `{}`", id.as_str())))
+      },
       Self::Plain(_) => Ok(None),
       Self::Concat(ids) => {
         for id in ids {
@@ -135,7 +138,8 @@ impl<'t> IdentifierExpr<'t> {
         *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
         Ok(())
       },
-      Self::Plain(_) => Ok(()),
+      Self::Plain(id) if is_rust_name(id.as_str()) => Ok(()),
+      Self::Plain(id) => Err(crate::CodegenError::UnsupportedExpression(format!("declaration of `{}`", id.as_str()))),
       Self::Arg(_) => Err(crate::CodegenError::UnsupportedExpression("declaration of `__VA_ARGS__`".to_owned())),
       Self::Concat(_) => {
         Err(crate::CodegenError::UnsupportedExpression("concatenation of declaration name".to_owned()))
diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index c365b17..809b0ba 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -11,7 +11,7 @@ use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, TokenStreamExt};
 
 use crate::{
-  ast::{macro_id, meta, punct, rust_ident},
+  ast::{is_rust_name, macro_id, meta, punct, rust_ident},
   is_identifier, CodegenContext, LocalContext, MacroArgType, MacroBody, MacroToken, Type,
 };
 
@@ -138,10 +138,19 @@ impl<'t> FnMacro<'t> {
 
   /// Parse a function-like macro from a name, arguments and body tokens.
   pub fn parse(name: &str, args: &[MacroToken<'t>], body: &[MacroToken<'t>]) -> Result<Self, crate::ParserError> {
-    let name = if is_identifier(name) { name.to_owned() } else { return Err(crate::ParserError::InvalidMacroName) };
+    let name = if is_identifier(name) && is_rust_name(name) {
+      name.to_owned()
+    } else {
+      return Err(crate::ParserError::InvalidMacroName)
+    };
 
     let (_, args) = Self::parse_args(args).map_err(|_| crate::ParserError::InvalidMacroArgs)?;
 
+    // Not possible as the name of a Rust macro argument.
+    if args.iter().any(|arg| matches!(arg.as_str(), "_" | "crate")) {
+      return Err(crate::ParserError::InvalidMacroArgs)
+    }
+
     // All arguments in the body must exist.
     if body.iter().any(|t| matches!(t, MacroToken::Arg(arg) if arg.index() >= args.len())) {
       return Err(crate::ParserError::InvalidMacroBody)
@@ -183,6 +192,7 @@ impl<'t> FnMacro<'t> {
     ctx.export_as_macro = ctx.export_as_macro
       || ctx.function(&self.name).is_some()
       || ctx.is_variadic()
+      || !self.args.iter().all(|arg| is_rust_name(arg))
       || !ctx.arg_types.iter().all(|ty| matches!(*ty, MacroArgType::Known(_)))
       || ret_ty.is_none();
 
-- 
2.43.0


From cb2880a9cf4a870e7a9f28f5cea17b8c9638fa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 35/42] fix: do not infer a type from one side if the type of
 the other side is unknown

---
 src/ast/binary_expr.rs  | 10 +++++-----
 src/ast/expr.rs         | 11 +++++++++++
 src/ast/ternary_expr.rs |  9 +++++----
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index ca42ef4..d492e0e 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -285,11 +285,11 @@ impl<'t> BinaryExpr<'t> {
       return Ok(None)
     }
 
-    // Type can only be inferred if both sides have the same type or if only one side has a type.
-    if lhs_ty == rhs_ty {
-      Ok(lhs_ty)
-    } else {
-      Ok(lhs_ty.xor(rhs_ty))
+    // Type can only be inferred if both sides have the same type or if the other side is an untyped constant.
+    match (lhs_ty, rhs_ty) {
+      (lhs_ty, None) if self.rhs.is_untyped() => Ok(lhs_ty),
+      (None, rhs_ty) if self.lhs.is_untyped() => Ok(rhs_ty),
+      (lhs_ty, rhs_ty) => Ok(lhs_ty.filter(|lhs_ty| Some(lhs_ty) == rhs_ty.as_ref())),
     }
   }
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index c10d0ec..2603fc5 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -45,6 +45,17 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Check if this is a constant whose type depends on where it is used.
+  pub(crate) fn is_untyped(&self) -> bool {
+    match self {
+      Self::Literal(Lit::Int(_)) => true,
+      Self::Unary(op) => matches!(op.op, UnaryOp::Plus | UnaryOp::Minus | UnaryOp::Comp) && op.expr.is_untyped(),
+      Self::Binary(op) => op.lhs.is_untyped() && op.rhs.is_untyped(),
+      Self::Ternary(expr) => expr.if_branch.is_untyped() && expr.else_branch.is_untyped(),
+      _ => false,
+    }
+  }
+
   /// Check if this expression can be assigned to.
   pub(crate) fn is_assignable<C: CodegenContext>(&self, ctx: &LocalContext<'_, 't, C>) -> bool {
     match self {
diff --git a/src/ast/ternary_expr.rs b/src/ast/ternary_expr.rs
index 81e20b7..9ac96ac 100644
--- a/src/ast/ternary_expr.rs
+++ b/src/ast/ternary_expr.rs
@@ -30,10 +30,11 @@ impl<'t> TernaryExpr<'t> {
     let lhs_ty = self.if_branch.finish(ctx)?;
     let rhs_ty = self.else_branch.finish(ctx)?;
 
-    if lhs_ty == rhs_ty {
-      Ok(lhs_ty)
-    } else {
-      Ok(lhs_ty.xor(rhs_ty))
+    // Type can only be inferred if both branches have the same type or if the other branch is an untyped constant.
+    match (lhs_ty, rhs_ty) {
+      (lhs_ty, None) if self.else_branch.is_untyped() => Ok(lhs_ty),
+      (None, rhs_ty) if self.if_branch.is_untyped() => Ok(rhs_ty),
+      (lhs_ty, rhs_ty) => Ok(lhs_ty.filter(|lhs_ty| Some(lhs_ty) == rhs_ty.as_ref())),
     }
   }
 
-- 
2.43.0


From 179bb34103a68f983b2d00d1bd99408835eb1d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 36/42] fix: do not panic if the type of `wchar_t` can no
 longer be used

---
 src/ast/literal/string.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index d35aa59..ae329f5 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -482,8 +482,9 @@ impl<'t> LitString<'t> {
         let wchars =
           s.iter().cloned().chain(iter::once(0)).map(proc_macro2::Literal::u32_unsuffixed).collect::<Vec<_>>();
 
-        let wchar_ty = if let Some(ty) = ctx.resolve_ty("wchar_t") {
-          Type::from_rust_ty(&ty, ctx.ffi_prefix().as_ref()).unwrap().to_token_stream(ctx)
+        let wchar_ty = ctx.resolve_ty("wchar_t").and_then(|ty| Type::from_rust_ty(&ty, ctx.ffi_prefix().as_ref()).ok());
+        let wchar_ty = if let Some(ty) = wchar_ty {
+          ty.to_token_stream(ctx)
         } else {
           quote! { wchar_t }
         };
-- 
2.43.0


From 6f1f55d681885e8252ff3b4784dd55b72f1e5032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 37/42] fix: escape all braces in assembly templates

---
 src/ast/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index f7e05d0..0a7e584 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -91,7 +91,7 @@ impl<'t> Asm<'t> {
           ),
           // Escape Rust format string.
           map(alt((char('{'), char('}'))), |c| format!("{0}{0}", c)),
-          fold_many1(none_of::<_, _, nom::error::Error<&str>>("%"), String::new, |mut acc, c| {
+          fold_many1(none_of::<_, _, nom::error::Error<&str>>("%{}"), String::new, |mut acc, c| {
             acc.push(c);
             acc
           }),
-- 
2.43.0


From 457bcb931c364bee940c7d82fc39cc3913d21ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 38/42] fix: renumber assembly operands after inputs with a
 matching constraint

---
 src/ast/asm.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 0a7e584..f3a38c7 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -247,8 +247,40 @@ impl<'t> Asm<'t> {
       .any(|line| line.starts_with(".globl") || line.starts_with(".global") || line.starts_with(".section"))
   }
 
+  /// The template with the operands as they are numbered when inputs with
+  /// a matching constraint are merged with their output.
+  fn renumbered_template(&self) -> Vec<String> {
+    let mut next = self.outputs.len()..;
+    let inputs = self.inputs.iter().filter_map(|(constraint, _)| match constraint {
+      RegConstraint::Digit(d) => Some(usize::from(*d)),
+      _ => next.next(),
+    });
+    let operands = (0..self.outputs.len()).chain(inputs).collect::<Vec<_>>();
+
+    let renumber = |operand: &str| match operand.split_once('}') {
+      Some((n, rest)) => match n.parse::<usize>().ok().and_then(|n| operands.get(n)) {
+        Some(n) => format!("{n}}}{rest}"),
+        None => operand.to_owned(),
+      },
+      None => operand.to_owned(),
+    };
+
+    self
+      .template
+      .iter()
+      .map(|line| {
+        let parts = line.split("{{").map(|part| {
+          let mut pieces = part.split('{');
+          let first = pieces.next().map(str::to_owned);
+          first.into_iter().chain(pieces.map(renumber)).collect::<Vec<_>>().join("{")
+        });
+        parts.collect::<Vec<_>>().join("{{")
+      })
+      .collect()
+  }
+
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
-    let template = &self.template;
+    let template = self.renumbered_template();
 
     // Inputs with a matching constraint share the register of an output.
     let (matching_inputs, inputs): (Vec<_>, Vec<_>) =
-- 
2.43.0


From 1ed765c8a2b3eab7323c565e28f96527bf4a56db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:01 +0000
Subject: [PATCH 39/42] fix: export as a macro if a name is put together by
 concatenation

---
 src/ast/function_call.rs | 2 ++
 src/ast/ty.rs            | 3 ++-
 src/ast/var.rs           | 6 +++++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ast/function_call.rs b/src/ast/function_call.rs
index 77a31c3..db5925d 100644
--- a/src/ast/function_call.rs
+++ b/src/ast/function_call.rs
@@ -74,6 +74,8 @@ impl<'t> FunctionCall<'t> {
       } else {
         ctx.export_as_macro = true;
       }
+    } else if matches!(self.name, IdentifierExpr::Concat(_)) {
+      ctx.export_as_macro = true;
     }
 
     Ok(ty)
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index c90ca81..c062802 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -450,7 +450,8 @@ impl<'t> Type<'t> {
               return Err(crate::CodegenError::UnsupportedType(id.as_str().to_owned()))
             }
           },
-          IdentifierExpr::Concat(_) => (),
+          // It is not known which type this is, so we need to export this as a macro.
+          IdentifierExpr::Concat(_) => ctx.export_as_macro = true,
         }
 
         Ok(None)
diff --git a/src/ast/var.rs b/src/ast/var.rs
index 5e38982..19284b6 100644
--- a/src/ast/var.rs
+++ b/src/ast/var.rs
@@ -62,7 +62,11 @@ impl<'t> Var<'t> {
           },
         }
       },
-      IdentifierExpr::Concat(_) => Ok(None),
+      IdentifierExpr::Concat(_) => {
+        // It is not known which variable this is, so we need to export this as a macro.
+        ctx.export_as_macro = true;
+        Ok(None)
+      },
     }
   }
 
-- 
2.43.0


From 2d58d4bbc89b0cebd6aecf79cb5aa5e6e700ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:16 +0000
Subject: [PATCH 40/42] fix: operators made by expanding an argument are not
 operators

---
 src/macro_set/mod.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 13ad362..e7ea8d9 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -743,11 +743,14 @@ impl MacroSet {
           };
 
           // `#` and `##` are only operators in the replacement list itself, not in an argument.
-          for token in &mut arg {
-            if matches!(token, Token::Punctuation(Punctuation { punctuation: "#" | "##" })) {
-              *token = Token::NonReplacable(Box::new(token.clone()));
+          let disable_operators = |arg: &mut [Token<'t>]| {
+            for token in arg {
+              if matches!(token, Token::Punctuation(Punctuation { punctuation: "#" | "##" })) {
+                *token = Token::NonReplacable(Box::new(token.clone()));
+              }
             }
-          }
+          };
+          disable_operators(&mut arg);
 
           match tokens.last() {
             Some(Token::Punctuation(Punctuation { punctuation: "#" })) => {
@@ -760,7 +763,11 @@ impl MacroSet {
             _ if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) => {
               tokens.extend(concat_operand(arg));
             },
-            _ => tokens.extend(self.expand_macro_body(non_replaced_names.clone(), &arg)?),
+            _ => {
+              let mut arg = self.expand_macro_body(non_replaced_names.clone(), &arg)?;
+              disable_operators(&mut arg);
+              tokens.extend(arg);
+            },
           }
         },
         token => tokens.push(token),
-- 
2.43.0


From 6405480dc5f94ddf86975ef946089eb25ec26755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:34 +0000
Subject: [PATCH 41/42] fix: pasting nothing to a token must not make it
 replacable again

---
 src/macro_set/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index e7ea8d9..e7b359e 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -241,12 +241,13 @@ impl<'t> Token<'t> {
 
   pub fn concat(self, other: Self) -> Result<Self, ExpansionError> {
     let new_token = match (self, other) {
+      // Nothing is added to the other token, so it stays as it is, e.g. not replacable.
+      (Self::Placemarker, rhs) => return Ok(rhs),
+      (lhs, Self::Placemarker) => return Ok(lhs),
       (Token::NonReplacable(lhs), rhs) => return lhs.concat(rhs),
       (lhs, Token::NonReplacable(rhs)) => return lhs.concat(*rhs),
       (Token::Nested(_, lhs), rhs) => return Self::Identifier(lhs).concat(rhs),
       (lhs, Token::Nested(_, rhs)) => return lhs.concat(Self::Identifier(rhs)),
-      (Self::Placemarker, rhs) => return Ok(rhs),
-      (lhs, Self::Placemarker) => return Ok(lhs),
       (
         Self::Identifier(mut lhs),
         Self::Identifier(Identifier { id: rhs }) | Self::IdentifierContinue(IdentifierContinue { id_cont: rhs }),
-- 
2.43.0


From cffde74be20cb382a6931114b2b5d7bf7ab84b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:46 +0000
Subject: [PATCH 42/42] fix: A negated literal becomes a number, which has no
 type `bool`.

---
 src/ast/expr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 2603fc5..d9409df 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -616,6 +616,7 @@ impl<'t> Expr<'t> {
           },
           (UnaryOp::Not, Self::Literal(Lit::Int(LitInt { value: i, suffix: None }))) => {
             *self = Self::Literal(Lit::Int(LitInt { value: (*i == 0).into(), suffix: None }));
+            return self.finish(ctx)
           },
           (UnaryOp::Not, Self::Literal(Lit::Float(f))) => {
             *self = Self::Literal(Lit::Int(LitInt {
@@ -626,6 +627,7 @@ impl<'t> Expr<'t> {
               } as i128,
               suffix: None,
             }));
+            return self.finish(ctx)
           },
           (UnaryOp::Not, expr) => {
             if ty != Some(Type::BuiltIn(BuiltInType::Bool)) {
-- 
2.43.0

