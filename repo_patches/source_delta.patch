From c75da0d4ae2b5b44c956a43693dc9e5f63cbaad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 01/31] fix: read the text of a source range by byte offsets

Ranges are byte offsets everywhere, but the text of a range was taken by
character index, so any multi-byte character before it shifted the text.
---
 src/source_range.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/source_range.rs b/src/source_range.rs
index 8065669..c4c3c7b 100644
--- a/src/source_range.rs
+++ b/src/source_range.rs
@@ -1,5 +1,3 @@
-use substring::Substring;
-
 use super::parser::ParserRef;
 
 #[derive(Copy, Clone, Debug, PartialEq)]
@@ -18,10 +16,14 @@ impl SourceRange {
   }
 
   pub fn to_string<'a>(&self, parser: &ParserRef) -> String {
+    let parser = parser.borrow();
+    let end = std::cmp::min(self.end, parser.source.len());
+
+    // Ranges are byte offsets into the source
     parser
-      .borrow()
       .source
-      .substring(self.start, self.end)
+      .get(self.start..end)
+      .unwrap_or("")
       .to_string()
   }
 
-- 
2.43.0


From 174bd1d2a580a63292eae2dd1cb53f7fa1900252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 02/31] fix: step over whole characters when scanning a
 sequence

Scanning byte by byte sliced the source inside multi-byte characters and panicked.
---
 src/matchers/sequence.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/matchers/sequence.rs b/src/matchers/sequence.rs
index 97b7034..824e924 100644
--- a/src/matchers/sequence.rs
+++ b/src/matchers/sequence.rs
@@ -39,6 +39,13 @@ where
   }
 }
 
+fn char_width_at(source: &str, index: usize) -> usize {
+  match source[index..].chars().next() {
+    Some(c) => c.len_utf8(),
+    None => 1,
+  }
+}
+
 impl<T> SequencePattern<T>
 where
   T: Fetchable,
@@ -215,12 +222,13 @@ where
             parts.push(&source[previous_index..index]);
           }
 
-          index = source_range.end + 1;
-          previous_index = index - 1;
+          // Take the escaped character literally (it may be more than one byte)
+          previous_index = source_range.end;
+          index = previous_index + char_width_at(source, previous_index);
 
           continue;
         } else {
-          index += 1;
+          index += char_width_at(source, index);
           continue;
         }
       }
-- 
2.43.0


From 031ed23961f62a21e1bea359b5866a18adb4dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 03/31] fix: never cut debug output inside a character

debug_range sliced the source at a fixed byte distance and panicked on multi-byte text.
---
 src/parser_context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser_context.rs b/src/parser_context.rs
index 9351bfd..49acddb 100644
--- a/src/parser_context.rs
+++ b/src/parser_context.rs
@@ -148,6 +148,10 @@ impl ParserContext {
       end_offset = self.offset.end;
     }
 
+    while !parser.source.is_char_boundary(end_offset) {
+      end_offset -= 1;
+    }
+
     parser.source[self.offset.start..end_offset].to_string()
   }
 
-- 
2.43.0


From 3693c2b9014b77f9d58185288fa57064fbedab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 04/31] fix: honour the minimum and maximum of a loop

A loop with range min..max ran max - min rounds, so it could never reach its
minimum; it also ignored an inclusive end, and when a round failed it neither
checked the minimum nor accepted zero rounds for a minimum of zero.
---
 src/matchers/program.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index b310a30..f09ef2f 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -19,8 +19,9 @@ where
     range.start = *start;
   }
 
-  if let Bound::Excluded(end) = r.end_bound() {
-    range.end = *end;
+  match r.end_bound() {
+    Bound::Excluded(end) | Bound::Included(end) => range.end = *end,
+    Bound::Unbounded => {}
   }
 
   range
@@ -177,7 +178,7 @@ impl ProgramPattern {
     let mut iteration_result: Option<MatcherSuccess>;
     let mut loop_count = 0;
 
-    for _ in iterate_range {
+    for _ in 0..iterate_range.end {
       iteration_result = None;
 
       if sub_context.borrow().debug_mode_level() > 1 {
@@ -336,7 +337,7 @@ impl ProgramPattern {
                       matched_range,
                       &self.iterate_range,
                       loop_count,
-                      false,
+                      true,
                     );
                   }
 
-- 
2.43.0


From a2a1892e55059e260ec8d6d2020b57678da08065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 05/31] fix: end an unbounded loop that no longer moves forward

Rounds that succeed without consuming anything were repeated forever.
---
 src/matchers/program.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index f09ef2f..3c08acb 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -179,6 +179,8 @@ impl ProgramPattern {
     let mut loop_count = 0;
 
     for _ in 0..iterate_range.end {
+      let iteration_start = sub_context.borrow().offset.start;
+
       iteration_result = None;
 
       if sub_context.borrow().debug_mode_level() > 1 {
@@ -551,6 +553,14 @@ impl ProgramPattern {
       }
 
       loop_count += 1;
+
+      // An unbounded loop that is no longer moving forward would never end
+      if iterate_range.end == usize::MAX
+        && loop_count >= iterate_range.start
+        && sub_context.borrow().offset.start == iteration_start
+      {
+        break;
+      }
     }
 
     if sub_context.borrow().debug_mode_level() > 1 {
-- 
2.43.0


From 50c9c5713f752fbd9269389cec7d8d382695c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 06/31] fix: carry a continue signal to the loop it names

A switch turned a continue into a break, and a program or another loop on the
way swallowed the signal and returned a plain token.
---
 src/matchers/program.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 3c08acb..d79efd9 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -472,7 +472,7 @@ impl ProgramPattern {
                   );
                 }
 
-                return Ok(MatcherSuccess::Break((loop_name, data)));
+                return Ok(MatcherSuccess::Continue((loop_name, data)));
               }
               _ => {}
             }
@@ -533,7 +533,7 @@ impl ProgramPattern {
                 );
               }
 
-              return finalize_program_token(
+              match finalize_program_token(
                 program_token,
                 children,
                 captured_range,
@@ -541,7 +541,17 @@ impl ProgramPattern {
                 &self.iterate_range,
                 loop_count,
                 false,
-              );
+              ) {
+                Ok(final_token) => {
+                  return Ok(MatcherSuccess::Continue((
+                    loop_name,
+                    Box::new(final_token),
+                  )));
+                }
+                Err(error) => {
+                  return Err(error);
+                }
+              }
             }
           }
           MatcherSuccess::Stop => {
-- 
2.43.0


From 00a3667270dc7e2e614664c36f959ec4cc5f98fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 07/31] fix: keep errors that are recorded before anything has
 matched

A zero-width error that came first in a program got the range usize::MAX.., so
the program failed and the error was lost; one level further out a program
holding nothing but errors hit the "Not moving forward" assertion.
---
 src/matchers/program.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index d79efd9..d2610bb 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -664,7 +664,10 @@ fn add_token_to_children(
 
       if assert_moving_forward && update_offsets {
         // Ensure that we are moving forward, and that the token doesn't have a zero width
-        if token.get_matched_range().end == context.borrow().offset.start {
+        // (a token that has nothing but recorded errors inside it is allowed to)
+        if token.get_children().len() == 0
+          && token.get_matched_range().end == context.borrow().offset.start
+        {
           if context.borrow().debug_mode_level() > 1 {
             print!("{{{}/AddChild}} ", program_token.borrow().get_name());
           }
@@ -689,7 +692,8 @@ fn add_token_to_children(
       let mut token = token.borrow_mut();
       let source_range = token.get_matched_range();
 
-      if source_range.start == source_range.end {
+      // Stretch a zero-width error over what was matched so far (if anything was)
+      if source_range.start == source_range.end && matched_range.start != usize::MAX {
         let mut new_source_range = source_range.clone();
         new_source_range.start = matched_range.start;
 
-- 
2.43.0


From 44c1d14eed91d096fb29713647fc74826da76160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 08/31] fix: keep only the errors of a discarded match

Discarding a match with errors in it left a nameless, message-less "Error"
token around them in the result, and a zero-width one hit the "Not moving
forward" assertion.
---
 src/matchers/discard.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matchers/discard.rs b/src/matchers/discard.rs
index 4e7322d..7d617bf 100644
--- a/src/matchers/discard.rs
+++ b/src/matchers/discard.rs
@@ -145,7 +145,9 @@ fn skip_token(context: ParserContextRef, start_offset: usize, token: TokenRef) -
   collect_errors(error_token.clone(), token.clone());
 
   if error_token.borrow().get_children().len() > 0 {
-    return MatcherSuccess::Token(error_token);
+    // Only the errors themselves are kept, so that what was
+    // discarded doesn't leave a token of its own in the result
+    return MatcherSuccess::ProxyChildren(error_token);
   }
 
   let offset: isize = end_offset as isize - start_offset as isize;
-- 
2.43.0


From fbe69a5ba63c0376c605d0f0a2bf1126e7c9d576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 09/31] fix: continue after the whole match when its children
 are proxied

After ProxyChildren the next matcher was offered the end of the last child, so
anything discarded behind that child was matched again.
---
 src/matchers/program.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index d2610bb..2c0b800 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -860,6 +860,14 @@ fn handle_extract_token(
       update_offsets && !should_discard,
     );
   }
+
+  // Adding the children moved the offset to the end of the last child,
+  // but what was matched may reach further than that
+  if update_offsets && !should_discard {
+    context
+      .borrow_mut()
+      .set_start(token.get_matched_range().end);
+  }
 }
 
 fn handle_skip(
-- 
2.43.0


From e85ac6f16fa944e29e04b584fa722af7c6885dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 10/31] fix: apply a negative skip without overflowing

Discarding a pinned match that ends before the current offset skips backwards.
---
 src/matchers/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 2c0b800..64cb9c9 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -878,7 +878,7 @@ fn handle_skip(
   start_offset: usize,
   offset: isize,
 ) {
-  let new_offset = context.borrow().offset.start + offset as usize;
+  let new_offset = (context.borrow().offset.start as isize + offset) as usize;
 
   if context.borrow().is_debug_mode() {
     if context.borrow().debug_mode_level() > 1 {
-- 
2.43.0


From ff88cfe8966f2fae3f15ccc18aa0181e97758540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 11/31] fix: report where the enclosing program started in a
 Panic error

The range of the error always began at 0 because the program's token has no
range until it is finished.
---
 src/matchers/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 64cb9c9..1bfc410 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -162,7 +162,7 @@ impl ProgramPattern {
     let program_token = StandardToken::new(
       &sub_context.borrow().parser,
       self.name.to_string(),
-      SourceRange::new_blank(),
+      SourceRange::new(start_offset, start_offset),
     );
     let mut children = Vec::<TokenRef>::with_capacity(self.patterns.len());
     let mut captured_range = SourceRange::new(usize::MAX, 0);
-- 
2.43.0


From 3c737445372fdab1fbd095d5b15b1bc8504ac026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 12/31] fix: leave a scope on every way out of SetScope

The scope stayed pushed when a matcher inside it panicked. It was also pushed
on the context's scope stack instead of the one in use, so inside another
SetScope lookups went to the wrong variables.
---
 src/matchers/set_scope.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/matchers/set_scope.rs b/src/matchers/set_scope.rs
index a39c973..4d90082 100644
--- a/src/matchers/set_scope.rs
+++ b/src/matchers/set_scope.rs
@@ -11,6 +11,16 @@ pub struct SetScopePattern {
   matcher: MatcherRef,
 }
 
+// Pops the scope from the stack again, even
+// if a matcher panics while it is in use
+struct PopScopeGuard(ScopeContextRef);
+
+impl Drop for PopScopeGuard {
+  fn drop(&mut self) {
+    self.0.borrow_mut().pop();
+  }
+}
+
 impl SetScopePattern {
   pub fn new(matcher: MatcherRef) -> MatcherRef {
     Rc::new(RefCell::new(Box::new(Self {
@@ -29,31 +39,26 @@ impl SetScopePattern {
   fn _exec(
     &self,
     context: ParserContextRef,
-    _: ScopeContextRef,
+    scope: ScopeContextRef,
   ) -> Result<MatcherSuccess, MatcherFailure> {
+    let mut _pop_guard = None;
+
     let scope = match &self.scope {
       Some(scope) => scope.clone(),
       None => {
         // Push a new scope onto the stack
-        let scope = Scope::new();
-        context.borrow().scope.borrow_mut().push(scope.clone());
+        scope.borrow_mut().push(Scope::new());
+        _pop_guard = Some(PopScopeGuard(scope.clone()));
 
-        context.borrow().scope.clone()
+        scope
       }
     };
 
-    let result = self.matcher.borrow().exec(
+    self.matcher.borrow().exec(
       self.matcher.clone(),
       context.borrow().clone_with_name(self.get_name()),
       scope,
-    );
-
-    if self.scope.is_none() {
-      // Pop scope from stack
-      context.borrow().scope.borrow_mut().pop();
-    }
-
-    result
+    )
   }
 }
 
-- 
2.43.0


From c9d5d0ee47e32e39a848b6582b1d8c78dddca96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 13/31] fix: set the parent of tokens that are moved to another
 token

Errors lifted to the root or kept by Discard, and a token wrapped by
ExpandRange, kept pointing at a parent that does not hold them.
---
 src/matchers/discard.rs      | 4 ++++
 src/matchers/expand_range.rs | 1 +
 src/parser_context.rs        | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/src/matchers/discard.rs b/src/matchers/discard.rs
index 7d617bf..437257d 100644
--- a/src/matchers/discard.rs
+++ b/src/matchers/discard.rs
@@ -100,6 +100,10 @@ fn collect_errors(error_token: TokenRef, walk_token: TokenRef) {
   let is_error = walk_token.borrow().flags_enabled(crate::token::IS_ERROR);
 
   if is_error {
+    walk_token
+      .borrow_mut()
+      .set_parent(Some(error_token.clone()));
+
     let mut error_token = error_token.borrow_mut();
     error_token.get_children_mut().push(walk_token.clone());
 
diff --git a/src/matchers/expand_range.rs b/src/matchers/expand_range.rs
index f1032fe..0448c76 100644
--- a/src/matchers/expand_range.rs
+++ b/src/matchers/expand_range.rs
@@ -46,6 +46,7 @@ impl ExpandRange {
             matched_range,
           );
 
+          token.borrow_mut().set_parent(Some(wrapper_token.clone()));
           wrapper_token.borrow_mut().add_child(token);
 
           Ok(MatcherSuccess::ProxyChildren(wrapper_token))
diff --git a/src/parser_context.rs b/src/parser_context.rs
index 49acddb..fcbd966 100644
--- a/src/parser_context.rs
+++ b/src/parser_context.rs
@@ -329,6 +329,8 @@ impl ParserContext {
           let is_error = token.borrow().flags_enabled(IS_ERROR);
 
           if is_error {
+            token.borrow_mut().set_parent(Some(root_token.clone()));
+
             root_token
               .borrow_mut()
               .get_children_mut()
-- 
2.43.0


From acad3c87aa3e1980cdf6fca1f865a007c4e7f5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 14/31] fix: report files that cannot be loaded instead of
 panicking

Compiling a script unwrapped every result of resolving and reading its files.
---
 src/script/v1/parser.rs | 54 ++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index b9166a4..91bb02a 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -344,8 +344,12 @@ fn build_matcher_from_tokens(
       let import_identifiers = import_identifiers.get_children();
       let path = _token.find_child("Path").unwrap().borrow().get_value().clone();
 
-      let full_path = Path::new(from_file).parent().unwrap().join(path).canonicalize().unwrap();
-      let file_name = full_path.to_str().unwrap();
+      let import_path = Path::new(from_file).parent().unwrap_or(Path::new("")).join(path);
+      let full_path = match resolve_script_file(&import_path) {
+        Ok(full_path) => full_path,
+        Err(message) => return Err(ParseError::new_with_range(&message, _token.get_matched_range().clone())),
+      };
+      let file_name = full_path.as_str();
 
       let import_result = match compile_script_from_file_internal(file_name, flags) {
         Ok(result) => result,
@@ -562,26 +566,54 @@ pub fn compile_script_from_str(
   }
 }
 
+fn resolve_script_file(path: &Path) -> Result<String, String> {
+  let full_path = match path.canonicalize() {
+    Ok(full_path) => full_path,
+    Err(error) => {
+      return Err(format!(
+        "Unable to load script file '{}': {}",
+        path.display(),
+        error
+      ))
+    }
+  };
+
+  match full_path.to_str() {
+    Some(full_file_name) => Ok(full_file_name.to_string()),
+    None => Err(format!(
+      "Unable to load script file '{}': The path is not valid UTF-8",
+      full_path.display()
+    )),
+  }
+}
+
 fn compile_script_from_file_internal(
   file_name: &str,
   flags: u32,
 ) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
-  let full_path = Path::new(file_name).canonicalize().unwrap();
-  let full_file_name = full_path.to_str().unwrap();
+  let full_file_name = match resolve_script_file(Path::new(file_name)) {
+    Ok(full_file_name) => full_file_name,
+    Err(message) => return Err(vec![ParseError::new(&message)]),
+  };
 
-  let parser = Parser::new_from_file(full_file_name).unwrap();
-  compile_script(parser, file_name.to_string(), Some(full_file_name), flags)
+  let parser = match Parser::new_from_file(&full_file_name) {
+    Ok(parser) => parser,
+    Err(error) => {
+      return Err(vec![ParseError::new(&format!(
+        "Unable to load script file '{}': {}",
+        full_file_name, error
+      ))])
+    }
+  };
+
+  compile_script(parser, file_name.to_string(), Some(&full_file_name), flags)
 }
 
 pub fn compile_script_from_file(
   file_name: &str,
   flags: u32,
 ) -> Result<MatcherRef, Vec<ParseError>> {
-  let full_path = Path::new(file_name).canonicalize().unwrap();
-  let full_file_name = full_path.to_str().unwrap();
-
-  let parser = Parser::new_from_file(full_file_name).unwrap();
-  match compile_script(parser, file_name.to_string(), Some(full_file_name), flags) {
+  match compile_script_from_file_internal(file_name, flags) {
     Ok(result) => Ok(result.1),
     Err(errors) => Err(errors),
   }
-- 
2.43.0


From 1fe2513b41856031e46b655ed6467b74835c3aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 15/31] fix: report import cycles instead of recursing forever

---
 src/script/v1/parser.rs | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 91bb02a..155b0eb 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -265,6 +265,7 @@ fn build_matcher_from_tokens(
   parser_context: ParserContextRef,
   name: String,
   from_file: Option<&str>,
+  loading: &[&str],
   flags: u32,
 ) -> Result<(MatcherRef, ScopeContextRef), Vec<ParseError>> {
   if root_token.borrow().get_name() != "Script" {
@@ -351,7 +352,7 @@ fn build_matcher_from_tokens(
       };
       let file_name = full_path.as_str();
 
-      let import_result = match compile_script_from_file_internal(file_name, flags) {
+      let import_result = match compile_script_from_file_internal(file_name, loading, flags) {
         Ok(result) => result,
         Err(errors) => {
           let mut _parse_errors = parse_errors.borrow_mut();
@@ -496,6 +497,22 @@ pub fn compile_script(
   from_file: Option<&str>,
   flags: u32,
 ) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
+  compile_script_internal(parser, name, from_file, &[], flags)
+}
+
+// `loading` are the files that (directly or through others) import this script
+fn compile_script_internal(
+  parser: ParserRef,
+  name: String,
+  from_file: Option<&str>,
+  loading: &[&str],
+  flags: u32,
+) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
+  let mut loading = loading.to_vec();
+  if let Some(from_file) = from_file {
+    loading.push(from_file);
+  }
+
   let parser_context = ParserContext::new(&parser, &name);
 
   (*parser_context)
@@ -513,6 +530,7 @@ pub fn compile_script(
         parser_context.clone(),
         name,
         from_file,
+        &loading,
         flags,
       ) {
         Ok(result) => {
@@ -589,6 +607,7 @@ fn resolve_script_file(path: &Path) -> Result<String, String> {
 
 fn compile_script_from_file_internal(
   file_name: &str,
+  loading: &[&str],
   flags: u32,
 ) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
   let full_file_name = match resolve_script_file(Path::new(file_name)) {
@@ -596,6 +615,13 @@ fn compile_script_from_file_internal(
     Err(message) => return Err(vec![ParseError::new(&message)]),
   };
 
+  if loading.contains(&full_file_name.as_str()) {
+    return Err(vec![ParseError::new(&format!(
+      "Unable to import script file '{}': It is already being loaded, and scripts can not import each other in a cycle",
+      full_file_name
+    ))]);
+  }
+
   let parser = match Parser::new_from_file(&full_file_name) {
     Ok(parser) => parser,
     Err(error) => {
@@ -606,14 +632,20 @@ fn compile_script_from_file_internal(
     }
   };
 
-  compile_script(parser, file_name.to_string(), Some(&full_file_name), flags)
+  compile_script_internal(
+    parser,
+    file_name.to_string(),
+    Some(&full_file_name),
+    loading,
+    flags,
+  )
 }
 
 pub fn compile_script_from_file(
   file_name: &str,
   flags: u32,
 ) -> Result<MatcherRef, Vec<ParseError>> {
-  match compile_script_from_file_internal(file_name, flags) {
+  match compile_script_from_file_internal(file_name, &[], flags) {
     Ok(result) => Ok(result.1),
     Err(errors) => Err(errors),
   }
-- 
2.43.0


From 58781e93dee5ae1195b41ab8aeaef63cfae13379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 16/31] fix: report invalid patterns in a script instead of
 panicking

An invalid regular expression or an empty sequence delimiter in a script
panicked while its matchers were constructed.
---
 src/script/v1/parser.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 155b0eb..5f5ca28 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -2,6 +2,7 @@ use std::{cell::RefCell, collections::HashMap, path::Path};
 
 use crate::{
   matcher::MatcherRef,
+  matchers::matches::MatchesPattern,
   matchers::program::{MatchAction, ProgramPattern},
   parse_error::ParseError,
   parser::{Parser, ParserRef},
@@ -52,18 +53,24 @@ fn construct_matcher_from_inner_definition(
       value = format!("(?{}){}", flags.borrow().get_captured_value(), value);
     }
 
-    Ok(crate::Matches!(&value))
+    match regex::Regex::new(&value) {
+      Ok(regex) => Ok(MatchesPattern::new(regex)),
+      Err(error) => Err(format!(
+        "Invalid regular expression for a `Matches` pattern definition: {}",
+        error
+      )),
+    }
   } else if matcher_token_name == "SequenceMatcher" {
     let start_pattern = matcher_token.get_children()[0].borrow();
     let end_pattern = matcher_token.get_children()[1].borrow();
     let escape_pattern = matcher_token.get_children()[2].borrow();
 
     if start_pattern.get_value().len() == 0 {
-      panic!("Sequence `start` pattern of \"\" makes no sense");
+      return Err("Sequence `start` pattern of \"\" makes no sense".to_string());
     }
 
     if end_pattern.get_value().len() == 0 {
-      panic!("Sequence `end` pattern of \"\" makes no sense");
+      return Err("Sequence `end` pattern of \"\" makes no sense".to_string());
     }
 
     Ok(crate::Sequence!(
-- 
2.43.0


From 369d7a2eb5b46859018057665e6181050da5d8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 17/31] fix: fail to compile a script with recorded errors

Errors recorded while parsing a script were collected and then dropped, and
the script compiled without its damaged parts.
---
 src/script/v1/parser.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 5f5ca28..d0614c3 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -276,6 +276,14 @@ fn build_matcher_from_tokens(
   flags: u32,
 ) -> Result<(MatcherRef, ScopeContextRef), Vec<ParseError>> {
   if root_token.borrow().get_name() != "Script" {
+    // The whole script was replaced by an error
+    if let Some(error_message) = root_token.borrow().get_attribute("__message") {
+      return Err(vec![ParseError::new_with_range(
+        error_message,
+        root_token.borrow().get_matched_range().clone(),
+      )]);
+    }
+
     return Err(vec![ParseError::new(
       "Expected provided token to be a `Script` token",
     )]);
@@ -445,7 +453,14 @@ fn build_matcher_from_tokens(
   );
 
   match result {
-    Ok(_) => Ok((root_matcher, scope_context)),
+    Ok(_) => {
+      let parse_errors = parse_errors.into_inner();
+      if parse_errors.len() > 0 {
+        return Err(parse_errors);
+      }
+
+      Ok((root_matcher, scope_context))
+    }
     Err(error) => {
       if error.message != "" {
         let range = match &error.range {
-- 
2.43.0


From 92a37fb3151a1c8214357c36f2aa8598031b92b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 18/31] fix: report text after the header of a script that is
 not a pattern

When nothing after the header could be parsed it was ignored silently.
---
 src/script/v1/matchers/script.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/script/v1/matchers/script.rs b/src/script/v1/matchers/script.rs
index 4849081..2e4dca9 100644
--- a/src/script/v1/matchers/script.rs
+++ b/src/script/v1/matchers/script.rs
@@ -22,6 +22,17 @@ macro_rules! Script {
           return $crate::ErrorTokenResult!(context.clone(), "Nothing to parse. No scopes found.", &token.borrow().get_matched_range());
         }
 
+        // Text after a pattern scope is reported there
+        if pattern_scope.is_none() && !_token.has_child("Error") {
+          let token_range = _token.get_matched_range();
+          let parser = _token.get_parser();
+          let remaining = parser.borrow().source[token_range.end..].trim().to_string();
+
+          if remaining != "" {
+            return $crate::ErrorTokenResult!(context.clone(), &format!("Syntax error. Expected a pattern defintion, but instead found: {}", remaining));
+          }
+        }
+
         $crate::TokenResult!(token.clone())
       }
     )
-- 
2.43.0


From 7993ab260b6015cc242823e17a99fc4df858f1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 19/31] fix: refer to the assigned name when a script assigns
 one name to another

The reference looked for a matcher named after the whole assignment text.
---
 src/script/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index d0614c3..5945552 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -332,7 +332,7 @@ fn build_matcher_from_tokens(
       if value_name == "Identifier" {
         // Identifier is assigned to identifier...
         // so this is a reference
-        scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(Ref!(_token.get_value().clone())));
+        scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(Ref!(_value.get_value().clone())));
       } else if value_name == "PatternDefinition" {
         // This is a pattern definition, so turn it into
         // a matcher, and store it as a reference
-- 
2.43.0


From 0a5152e237f5c67b1d9b2d5501309e12d68e2370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 20/31] fix: remove escapes from attribute values of patterns

They were kept as written, unlike in every other string of a script.
---
 src/script/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 5945552..a83a776 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -178,7 +178,7 @@ fn construct_matcher_from_pattern_definition(
         let child = child.borrow();
         let child_children = child.get_children();
         let key = child_children[0].borrow().get_captured_value().clone();
-        let value = child_children[1].borrow().get_captured_value().clone();
+        let value = child_children[1].borrow().get_value().clone();
 
         attributes.insert(key, value);
       }
-- 
2.43.0


From 1180f450a46084ca066f2bff750ba6c5c203041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 21/31] fix: keep definitions of a script intact after their
 first use

A named definition registered its innermost matcher under its own name when it
first ran, so later references lost its attributes, modifiers and repetition.
---
 src/script/v1/parser.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index a83a776..c01a055 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -137,6 +137,17 @@ fn construct_matcher_from_pattern_definition(
   name: &str,
   captured: bool,
 ) -> Result<(MatcherRef, MatcherRef), String> {
+  construct_named_matcher_from_pattern_definition(parser_context, token, name, "", captured)
+}
+
+fn construct_named_matcher_from_pattern_definition(
+  parser_context: ParserContextRef,
+  token: TokenRef,
+  name: &str,
+  token_name: &str,
+  captured: bool,
+) -> Result<(MatcherRef, MatcherRef), String> {
+  let result_token_name = token_name;
   let token = token.borrow();
   let token_name = token.get_name();
 
@@ -166,6 +177,24 @@ fn construct_matcher_from_pattern_definition(
     matcher.borrow_mut().set_name(name);
   }
 
+  // Name the token, and not the matcher. A named matcher registers itself in
+  // the scope when it runs, and would replace the whole definition with only
+  // this inner matcher (without its attributes, repeat specifier, etc...)
+  let has_own_token = match matcher_token.borrow().get_name().as_str() {
+    "EqualsMatcher" | "RegexMatcher" | "SequenceMatcher" | "ProgramMatcher" => true,
+    _ => false,
+  };
+
+  if result_token_name != "" && has_own_token {
+    let result_token_name = result_token_name.to_string();
+
+    matcher = Map!(matcher.clone(), move |token, _, __| {
+      token.borrow_mut().set_name(&result_token_name);
+
+      TokenResult!(token.clone())
+    });
+  }
+
   // Handle attributes with a "Map" matcher
   if let Some(attributes_token) = token.find_child("Attributes") {
     let attributes_token = attributes_token.borrow();
@@ -336,7 +365,7 @@ fn build_matcher_from_tokens(
       } else if value_name == "PatternDefinition" {
         // This is a pattern definition, so turn it into
         // a matcher, and store it as a reference
-        match construct_matcher_from_pattern_definition(parser_context.clone(), value.clone(), &matcher_name, true) {
+        match construct_named_matcher_from_pattern_definition(parser_context.clone(), value.clone(), "", &matcher_name, true) {
           Ok(defined_matchers) => {
             scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(defined_matchers.0.clone()));
           },
-- 
2.43.0


From 450244747ccb52cb5a290febbeb3f0360b4b1601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 22/31] fix: consume what the wrapped matcher does when
 debugging it

---
 src/matchers/debug.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/matchers/debug.rs b/src/matchers/debug.rs
index 5a8a567..0a1b2ed 100644
--- a/src/matchers/debug.rs
+++ b/src/matchers/debug.rs
@@ -101,6 +101,14 @@ impl Matcher for DebugPattern {
     result
   }
 
+  // Consume exactly what the wrapped matcher would without the `Debug`
+  fn is_consuming(&self) -> bool {
+    match &self.matcher {
+      Some(matcher) => matcher.borrow().is_consuming(),
+      None => false,
+    }
+  }
+
   fn get_name(&self) -> &str {
     "Debug"
   }
-- 
2.43.0


From 71b253f46fdeac4f6b2eba285016fe537420aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 23/31] fix: start every alternative of a switch at the same
 position

---
 src/matchers/program.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 1bfc410..745634d 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -268,20 +268,23 @@ impl ProgramPattern {
               );
             }
             MatcherSuccess::Skip(amount) => {
-              if amount > 0 {
-                match self.on_first_match {
-                  MatchAction::Stop => {
-                    if sub_context.borrow().debug_mode_level() > 1 {
-                      println!(
-                        "{{{}/Finalizing}}: First match success (Skip)",
-                        program_token.borrow().get_name(),
-                      );
-                    }
+              match self.on_first_match {
+                MatchAction::Stop => {
+                  // Nothing was matched: the next alternative starts where this one did
+                  if amount <= 0 {
+                    continue;
+                  }
 
-                    return Ok(MatcherSuccess::Skip(amount));
+                  if sub_context.borrow().debug_mode_level() > 1 {
+                    println!(
+                      "{{{}/Finalizing}}: First match success (Skip)",
+                      program_token.borrow().get_name(),
+                    );
                   }
-                  _ => {}
+
+                  return Ok(MatcherSuccess::Skip(amount));
                 }
+                _ => {}
               }
 
               if pattern.borrow().is_consuming() {
-- 
2.43.0


From 542d879e113377b80ada377a10b3d8e0185170cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 24/31] fix: do not turn the range of an error before the match
 around

---
 src/matchers/program.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 745634d..1b93839 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -695,8 +695,8 @@ fn add_token_to_children(
       let mut token = token.borrow_mut();
       let source_range = token.get_matched_range();
 
-      // Stretch a zero-width error over what was matched so far (if anything was)
-      if source_range.start == source_range.end && matched_range.start != usize::MAX {
+      // Stretch a zero-width error over what was matched so far (if anything was before it)
+      if source_range.start == source_range.end && matched_range.start <= source_range.start {
         let mut new_source_range = source_range.clone();
         new_source_range.start = matched_range.start;
 
-- 
2.43.0


From 2ef6d6ed2b234528a400089f2fbf99b4b0df5fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 25/31] fix: a signal from a matcher that does not consume
 leaves the position alone

---
 src/matchers/program.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 1b93839..ec1bf77 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -176,6 +176,7 @@ impl ProgramPattern {
       None => (0..1),
     };
     let mut iteration_result: Option<MatcherSuccess>;
+    let mut iteration_consuming = true;
     let mut loop_count = 0;
 
     for _ in 0..iterate_range.end {
@@ -301,6 +302,7 @@ impl ProgramPattern {
               continue;
             }
             _ => {
+              iteration_consuming = pattern.borrow().is_consuming();
               iteration_result = Some(success);
               break;
             }
@@ -385,7 +387,7 @@ impl ProgramPattern {
                   &mut matched_range,
                   &token,
                   false,
-                  true,
+                  iteration_consuming,
                 );
 
                 Box::new(MatcherSuccess::None)
@@ -399,12 +401,12 @@ impl ProgramPattern {
                   &mut captured_range,
                   &mut matched_range,
                   &token,
-                  true,
+                  iteration_consuming,
                 );
 
                 Box::new(MatcherSuccess::None)
               }
-              MatcherSuccess::Skip(amount) => {
+              MatcherSuccess::Skip(amount) if iteration_consuming => {
                 handle_skip(
                   self,
                   &sub_context,
@@ -491,7 +493,7 @@ impl ProgramPattern {
                   &mut matched_range,
                   &token,
                   false,
-                  true,
+                  iteration_consuming,
                 );
 
                 Box::new(MatcherSuccess::None)
@@ -505,12 +507,12 @@ impl ProgramPattern {
                   &mut captured_range,
                   &mut matched_range,
                   &token,
-                  true,
+                  iteration_consuming,
                 );
 
                 Box::new(MatcherSuccess::None)
               }
-              MatcherSuccess::Skip(amount) => {
+              MatcherSuccess::Skip(amount) if iteration_consuming => {
                 handle_skip(
                   self,
                   &sub_context,
-- 
2.43.0


From 148da124ae4a16a2f876e05ac8f0618d412ab1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 26/31] fix: accept a scope header with only white space
 between its brackets

---
 src/script/v1/matchers/adextopa_scope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/script/v1/matchers/adextopa_scope.rs b/src/script/v1/matchers/adextopa_scope.rs
index c8f33d8..316058c 100644
--- a/src/script/v1/matchers/adextopa_scope.rs
+++ b/src/script/v1/matchers/adextopa_scope.rs
@@ -24,6 +24,7 @@ macro_rules! ScriptAdextopaScope {
             ),
           )
         ),
+        $crate::ScriptWSN0!(?),
         $crate::Discard!($crate::Equals!("-->")),
       ),
       |token, context, __| {
-- 
2.43.0


From 3fa6d65c8eb309b6da95805e6e85b2dd2bb305d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 27/31] fix: report an empty regular expression in a script

---
 src/script/v1/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index c01a055..8083aec 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -45,7 +45,8 @@ fn construct_matcher_from_inner_definition(
   } else if matcher_token_name == "RegexMatcher" {
     let mut value: String = matcher_token.get_value().clone();
 
-    if value == "" {
+    // Without any parts the value is that of the entire token, delimiters included
+    if value == "" || !matcher_token.has_child("Part") {
       return Err("Value can not be empty for a `Matches` pattern definition".to_string());
     }
 
-- 
2.43.0


From 5354afe7a5260e08cc9fb73f381df502fbf35d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 28/31] fix: show nothing when debugging at a position that is
 not in the text

---
 src/parser_context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser_context.rs b/src/parser_context.rs
index fcbd966..a45b95c 100644
--- a/src/parser_context.rs
+++ b/src/parser_context.rs
@@ -152,7 +152,12 @@ impl ParserContext {
       end_offset -= 1;
     }
 
-    parser.source[self.offset.start..end_offset].to_string()
+    // The position might be inside a character, or beyond the end of the range
+    parser
+      .source
+      .get(self.offset.start..end_offset)
+      .unwrap_or("")
+      .to_string()
   }
 
   pub fn push_token_to_stack(&mut self, token: TokenRef) {
-- 
2.43.0


From b6ccd70869314359e88670c84b88095c4e502c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 29/31] fix: pass on a signal that arises before a sequence has
 captured anything

---
 src/matchers/program.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index ec1bf77..fd998e5 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -461,6 +461,14 @@ impl ProgramPattern {
                 Ok(final_token) => {
                   return Ok(MatcherSuccess::Break((loop_name, Box::new(final_token))));
                 }
+                // Nothing was collected before the Break, so pass on how far we got instead
+                Err(MatcherFailure::Fail) => {
+                  let offset = sub_context.borrow().offset.start as isize - start_offset as isize;
+                  return Ok(MatcherSuccess::Break((
+                    loop_name,
+                    Box::new(MatcherSuccess::Skip(offset)),
+                  )));
+                }
                 Err(error) => {
                   return Err(error);
                 }
@@ -553,6 +561,14 @@ impl ProgramPattern {
                     Box::new(final_token),
                   )));
                 }
+                // Nothing was collected before the Continue, so pass on how far we got instead
+                Err(MatcherFailure::Fail) => {
+                  let offset = sub_context.borrow().offset.start as isize - start_offset as isize;
+                  return Ok(MatcherSuccess::Continue((
+                    loop_name,
+                    Box::new(MatcherSuccess::Skip(offset)),
+                  )));
+                }
                 Err(error) => {
                   return Err(error);
                 }
-- 
2.43.0


From 5e96407b1197201260811e38d37c5a9e86cfd0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 30/31] fix: drop a pinned token that comes with a break or
 continue

---
 src/matchers/program.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index fd998e5..e8132b6 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -377,6 +377,12 @@ impl ProgramPattern {
             }
 
             match &*data {
+              // What is to be discarded is so, whatever it comes with
+              MatcherSuccess::Token(token) | MatcherSuccess::ProxyChildren(token)
+                if token.borrow().should_discard() =>
+              {
+                Box::new(MatcherSuccess::None)
+              }
               MatcherSuccess::Token(token) => {
                 handle_token(
                   self,
@@ -491,6 +497,12 @@ impl ProgramPattern {
             }
 
             match &*data {
+              // What is to be discarded is so, whatever it comes with
+              MatcherSuccess::Token(token) | MatcherSuccess::ProxyChildren(token)
+                if token.borrow().should_discard() =>
+              {
+                Box::new(MatcherSuccess::None)
+              }
               MatcherSuccess::Token(token) => {
                 handle_token(
                   self,
-- 
2.43.0


From 962429f5606364f5befec6f5c8a6c4a387d25c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:39 +0000
Subject: [PATCH 31/31] fix: keep an error that is inside another one in its
 place when discarding

---
 src/matchers/discard.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matchers/discard.rs b/src/matchers/discard.rs
index 437257d..a8af6b4 100644
--- a/src/matchers/discard.rs
+++ b/src/matchers/discard.rs
@@ -125,6 +125,9 @@ fn collect_errors(error_token: TokenRef, walk_token: TokenRef) {
       let new_source_range = SourceRange::new(new_start, new_end);
       error_token.set_matched_range(new_source_range);
     }
+
+    // The errors inside of this one are still its children
+    return;
   }
 
   {
-- 
2.43.0

