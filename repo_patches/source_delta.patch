From f6bf1d94d47295d1fc61e52853816442c9eb14cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 01/19] fix: a loop repeats up to its upper bound and stops
 when an iteration consumes nothing

---
 src/matchers/program.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index b310a30..1a90a7c 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -177,7 +177,8 @@ impl ProgramPattern {
     let mut iteration_result: Option<MatcherSuccess>;
     let mut loop_count = 0;
 
-    for _ in iterate_range {
+    for _ in 0..iterate_range.end {
+      let iteration_start = sub_context.borrow().offset.start;
       iteration_result = None;
 
       if sub_context.borrow().debug_mode_level() > 1 {
@@ -336,7 +337,7 @@ impl ProgramPattern {
                       matched_range,
                       &self.iterate_range,
                       loop_count,
-                      false,
+                      true,
                     );
                   }
 
@@ -550,6 +551,13 @@ impl ProgramPattern {
       }
 
       loop_count += 1;
+
+      // An iteration that didn't move forward would repeat itself forever
+      if loop_count >= iterate_range.start
+        && sub_context.borrow().offset.start == iteration_start
+      {
+        break;
+      }
     }
 
     if sub_context.borrow().debug_mode_level() > 1 {
-- 
2.43.0


From 58030aa9d7f227979e3357d6eabad608258848c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 02/19] fix: a loop honours an inclusive upper bound

---
 src/matchers/program.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 1a90a7c..43968f9 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -15,12 +15,15 @@ where
 {
   let mut range = 0..usize::MAX;
 
-  if let Bound::Included(start) = r.start_bound() {
-    range.start = *start;
+  match r.start_bound() {
+    Bound::Included(start) => range.start = *start,
+    Bound::Excluded(start) => range.start = *start + 1,
+    Bound::Unbounded => {}
   }
 
-  if let Bound::Excluded(end) = r.end_bound() {
-    range.end = *end;
+  match r.end_bound() {
+    Bound::Included(end) | Bound::Excluded(end) => range.end = *end,
+    Bound::Unbounded => {}
   }
 
   range
-- 
2.43.0


From dc6da8bcd2d72bdca4a3a8e993d7f608c3b0d274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 03/19] fix: Switch and Program propagate Continue as Continue

---
 src/matchers/program.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 43968f9..2e865c4 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -473,7 +473,7 @@ impl ProgramPattern {
                   );
                 }
 
-                return Ok(MatcherSuccess::Break((loop_name, data)));
+                return Ok(MatcherSuccess::Continue((loop_name, data)));
               }
               _ => {}
             }
@@ -534,7 +534,7 @@ impl ProgramPattern {
                 );
               }
 
-              return finalize_program_token(
+              match finalize_program_token(
                 program_token,
                 children,
                 captured_range,
@@ -542,7 +542,17 @@ impl ProgramPattern {
                 &self.iterate_range,
                 loop_count,
                 false,
-              );
+              ) {
+                Ok(final_token) => {
+                  return Ok(MatcherSuccess::Continue((
+                    loop_name,
+                    Box::new(final_token),
+                  )));
+                }
+                Err(error) => {
+                  return Err(error);
+                }
+              }
             }
           }
           MatcherSuccess::Stop => {
-- 
2.43.0


From e2322536d91bbb9af7073ea062cee3cce666157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 04/19] fix: a child that answers None no longer crashes its
 Program

---
 src/matchers/program.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 2e865c4..a4f3805 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -298,6 +298,9 @@ impl ProgramPattern {
 
               continue;
             }
+            MatcherSuccess::None => {
+              continue;
+            }
             _ => {
               iteration_result = Some(success);
               break;
-- 
2.43.0


From ce6fdb2d8045324f955aab713ff51a85f775a9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 05/19] fix: Discard passes a nested Break or Continue payload
 on instead of crashing

---
 src/matchers/discard.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matchers/discard.rs b/src/matchers/discard.rs
index 4e7322d..5641fee 100644
--- a/src/matchers/discard.rs
+++ b/src/matchers/discard.rs
@@ -61,7 +61,7 @@ impl DiscardPattern {
             loop_name,
             Box::new(MatcherSuccess::Stop),
           ))),
-          _ => unreachable!(),
+          result => Ok(MatcherSuccess::Break((loop_name, Box::new(result)))),
         },
         // Here we Discard "Continue"s payload
         MatcherSuccess::Continue((loop_name, result)) => match *result {
@@ -85,7 +85,7 @@ impl DiscardPattern {
             loop_name,
             Box::new(MatcherSuccess::Stop),
           ))),
-          _ => unreachable!(),
+          result => Ok(MatcherSuccess::Continue((loop_name, Box::new(result)))),
         },
         _ => Ok(success),
       },
-- 
2.43.0


From 8b8e12b3797137952974a2010a46267e27747afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 06/19] fix: a negative Skip no longer overflows

---
 src/matchers/program.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index a4f3805..0c4ae2b 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -869,7 +869,11 @@ fn handle_skip(
   start_offset: usize,
   offset: isize,
 ) {
-  let new_offset = context.borrow().offset.start + offset as usize;
+  let new_offset = context
+    .borrow()
+    .offset
+    .start
+    .saturating_add_signed(offset);
 
   if context.borrow().is_debug_mode() {
     if context.borrow().debug_mode_level() > 1 {
-- 
2.43.0


From 83faff25c41a9b048ab0b2c149e1c334d96a8470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 07/19] fix: SourceRange::to_string slices by byte offset, like
 the rest of the crate

---
 src/source_range.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/source_range.rs b/src/source_range.rs
index 8065669..9b6fc17 100644
--- a/src/source_range.rs
+++ b/src/source_range.rs
@@ -1,5 +1,3 @@
-use substring::Substring;
-
 use super::parser::ParserRef;
 
 #[derive(Copy, Clone, Debug, PartialEq)]
@@ -18,11 +16,10 @@ impl SourceRange {
   }
 
   pub fn to_string<'a>(&self, parser: &ParserRef) -> String {
-    parser
-      .borrow()
-      .source
-      .substring(self.start, self.end)
-      .to_string()
+    let parser = parser.borrow();
+    let end = std::cmp::min(self.end, parser.source.len());
+
+    parser.source.get(self.start..end).unwrap_or("").to_string()
   }
 
   pub fn clone_with_len(&self, len: usize) -> Self {
-- 
2.43.0


From efde32a9714f40ad9b4c9c19bf15c5a166dd56b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 08/19] fix: debug_range never cuts a character in half

---
 src/parser_context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser_context.rs b/src/parser_context.rs
index 9351bfd..49acddb 100644
--- a/src/parser_context.rs
+++ b/src/parser_context.rs
@@ -148,6 +148,10 @@ impl ParserContext {
       end_offset = self.offset.end;
     }
 
+    while !parser.source.is_char_boundary(end_offset) {
+      end_offset -= 1;
+    }
+
     parser.source[self.offset.start..end_offset].to_string()
   }
 
-- 
2.43.0


From f79ab748c6432259a07295ed1c44ee8ac45a6d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 09/19] fix: Sequence scans whole characters

---
 src/matchers/sequence.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/matchers/sequence.rs b/src/matchers/sequence.rs
index 97b7034..52cc588 100644
--- a/src/matchers/sequence.rs
+++ b/src/matchers/sequence.rs
@@ -10,6 +10,13 @@ use crate::token::StandardToken;
 
 use super::fetch::{Fetchable, FetchableType};
 
+fn char_len_at(source: &str, index: usize) -> usize {
+  match source[index..].chars().next() {
+    Some(c) => c.len_utf8(),
+    None => 1,
+  }
+}
+
 pub struct SequencePattern<T>
 where
   T: Fetchable,
@@ -215,12 +222,12 @@ where
             parts.push(&source[previous_index..index]);
           }
 
-          index = source_range.end + 1;
-          previous_index = index - 1;
+          previous_index = source_range.end;
+          index = previous_index + char_len_at(source, previous_index);
 
           continue;
         } else {
-          index += 1;
+          index += char_len_at(source, index);
           continue;
         }
       }
-- 
2.43.0


From 601c29ca16d0646bdfb926edc04e50fc3b0223f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 10/19] fix: a PinToken whose range is replaced takes the text
 of its new range

---
 src/matchers/pin.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matchers/pin.rs b/src/matchers/pin.rs
index a3b5f95..71686d6 100644
--- a/src/matchers/pin.rs
+++ b/src/matchers/pin.rs
@@ -132,6 +132,7 @@ impl Token for PinToken {
 
   fn set_captured_range(&mut self, range: crate::source_range::SourceRange) {
     self.captured_range = range;
+    self.captured_value = range.to_string(&self.parser);
   }
 
   fn get_matched_range(&self) -> &crate::source_range::SourceRange {
@@ -144,6 +145,7 @@ impl Token for PinToken {
 
   fn set_matched_range(&mut self, range: crate::source_range::SourceRange) {
     self.matched_range = range;
+    self.matched_value = range.to_string(&self.parser);
   }
 
   fn get_name(&self) -> &String {
-- 
2.43.0


From d3e936879b907c8d16b89cc2fa460d37cd05d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 11/19] fix: a script alias refers to the identifier it was
 assigned

---
 src/script/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index b9166a4..1750e55 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -316,7 +316,7 @@ fn build_matcher_from_tokens(
       if value_name == "Identifier" {
         // Identifier is assigned to identifier...
         // so this is a reference
-        scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(Ref!(_token.get_value().clone())));
+        scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(Ref!(_value.get_value().clone())));
       } else if value_name == "PatternDefinition" {
         // This is a pattern definition, so turn it into
         // a matcher, and store it as a reference
-- 
2.43.0


From 3fd9fffc0f282600588893535c590610a301070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:23 +0000
Subject: [PATCH 12/19] fix: a bad regex or sequence in a script is a compile
 error, not a panic

---
 src/script/v1/parser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 1750e55..fa4ce2b 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -52,18 +52,21 @@ fn construct_matcher_from_inner_definition(
       value = format!("(?{}){}", flags.borrow().get_captured_value(), value);
     }
 
-    Ok(crate::Matches!(&value))
+    match regex::Regex::new(&value) {
+      Ok(regex) => Ok(crate::matchers::matches::MatchesPattern::new(regex)),
+      Err(error) => Err(format!("Invalid regular expression: {}", error)),
+    }
   } else if matcher_token_name == "SequenceMatcher" {
     let start_pattern = matcher_token.get_children()[0].borrow();
     let end_pattern = matcher_token.get_children()[1].borrow();
     let escape_pattern = matcher_token.get_children()[2].borrow();
 
     if start_pattern.get_value().len() == 0 {
-      panic!("Sequence `start` pattern of \"\" makes no sense");
+      return Err("Sequence `start` pattern of \"\" makes no sense".to_string());
     }
 
     if end_pattern.get_value().len() == 0 {
-      panic!("Sequence `end` pattern of \"\" makes no sense");
+      return Err("Sequence `end` pattern of \"\" makes no sense".to_string());
     }
 
     Ok(crate::Sequence!(
-- 
2.43.0


From f972fb1a9a20738843e9f876637c1c3786289825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:23 +0000
Subject: [PATCH 13/19] fix: a script file that can not be read is a compile
 error, not a panic

---
 src/script/v1/parser.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index fa4ce2b..ce21167 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -347,8 +347,15 @@ fn build_matcher_from_tokens(
       let import_identifiers = import_identifiers.get_children();
       let path = _token.find_child("Path").unwrap().borrow().get_value().clone();
 
-      let full_path = Path::new(from_file).parent().unwrap().join(path).canonicalize().unwrap();
-      let file_name = full_path.to_str().unwrap();
+      let full_path = match Path::new(from_file).parent() {
+        Some(directory) => directory.join(path),
+        None => Path::new(&path).to_path_buf(),
+      };
+      let full_path = match full_path.canonicalize() {
+        Ok(full_path) => full_path,
+        Err(error) => return Err(ParseError::new_with_range(&format!("Unable to import '{}': {}", full_path.display(), error), _token.get_matched_range().clone())),
+      };
+      let file_name: &str = &full_path.to_string_lossy();
 
       let import_result = match compile_script_from_file_internal(file_name, flags) {
         Ok(result) => result,
@@ -569,10 +576,17 @@ fn compile_script_from_file_internal(
   file_name: &str,
   flags: u32,
 ) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
-  let full_path = Path::new(file_name).canonicalize().unwrap();
-  let full_file_name = full_path.to_str().unwrap();
+  let unreadable = |error: std::io::Error| {
+    vec![ParseError::new(&format!(
+      "Unable to read script '{}': {}",
+      file_name, error
+    ))]
+  };
 
-  let parser = Parser::new_from_file(full_file_name).unwrap();
+  let full_path = Path::new(file_name).canonicalize().map_err(unreadable)?;
+  let full_file_name = &full_path.to_string_lossy();
+
+  let parser = Parser::new_from_file(full_file_name).map_err(unreadable)?;
   compile_script(parser, file_name.to_string(), Some(full_file_name), flags)
 }
 
@@ -580,11 +594,7 @@ pub fn compile_script_from_file(
   file_name: &str,
   flags: u32,
 ) -> Result<MatcherRef, Vec<ParseError>> {
-  let full_path = Path::new(file_name).canonicalize().unwrap();
-  let full_file_name = full_path.to_str().unwrap();
-
-  let parser = Parser::new_from_file(full_file_name).unwrap();
-  match compile_script(parser, file_name.to_string(), Some(full_file_name), flags) {
+  match compile_script_from_file_internal(file_name, flags) {
     Ok(result) => Ok(result.1),
     Err(errors) => Err(errors),
   }
-- 
2.43.0


From 728559fa895126444e916d56800b4a4f01b36ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:23 +0000
Subject: [PATCH 14/19] fix: scripts that import each other are a compile
 error, not endless recursion

---
 src/script/v1/parser.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index ce21167..4a38394 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -1,4 +1,8 @@
-use std::{cell::RefCell, collections::HashMap, path::Path};
+use std::{
+  cell::RefCell,
+  collections::HashMap,
+  path::{Path, PathBuf},
+};
 
 use crate::{
   matcher::MatcherRef,
@@ -24,6 +28,11 @@ lazy_static::lazy_static! {
   static ref REPEAT_SPECIFIER: regex::Regex = regex::Regex::new(r"^(RepeatZeroOrMore|RepeatOneOrMore|RepeatRange)$").expect("Could not compile needed Regex for `script::Parser`");
 }
 
+thread_local! {
+  // The script files being compiled right now, the outermost first
+  static COMPILING: RefCell<Vec<PathBuf>> = RefCell::new(Vec::new());
+}
+
 pub const FLAG_LOG_STDERR: u32 = 0x01;
 
 fn construct_matcher_from_inner_definition(
@@ -587,7 +596,19 @@ fn compile_script_from_file_internal(
   let full_file_name = &full_path.to_string_lossy();
 
   let parser = Parser::new_from_file(full_file_name).map_err(unreadable)?;
-  compile_script(parser, file_name.to_string(), Some(full_file_name), flags)
+
+  if COMPILING.with(|files| files.borrow().contains(&full_path)) {
+    return Err(vec![ParseError::new(&format!(
+      "Circular import of '{}'",
+      full_file_name
+    ))]);
+  }
+
+  COMPILING.with(|files| files.borrow_mut().push(full_path.clone()));
+  let result = compile_script(parser, file_name.to_string(), Some(full_file_name), flags);
+  COMPILING.with(|files| files.borrow_mut().pop());
+
+  result
 }
 
 pub fn compile_script_from_file(
-- 
2.43.0


From 149a262b866eaeb907eeaf9a2f72322da5371fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:53 +0000
Subject: [PATCH 15/19] fix: exported macros name everything they use through
 $crate

---
 src/lib.rs                               | 4 ++++
 src/matchers/assert_if_not.rs            | 2 +-
 src/matchers/matches.rs                  | 4 ++--
 src/script/v1/matchers/adextopa_scope.rs | 2 +-
 src/script/v1/matchers/pattern_scope.rs  | 3 ++-
 5 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d3e2495..699bea3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -10,6 +10,10 @@ pub mod source_range;
 pub mod token;
 pub mod token_visitor;
 
+// The exported macros need it
+#[doc(hidden)]
+pub use regex;
+
 #[cfg(test)]
 mod tests {
   #[test]
diff --git a/src/matchers/assert_if_not.rs b/src/matchers/assert_if_not.rs
index bea513b..587b2a5 100644
--- a/src/matchers/assert_if_not.rs
+++ b/src/matchers/assert_if_not.rs
@@ -34,7 +34,7 @@ macro_rules! AssertIfNot {
               $crate::matchers::error::new_error_token_with_range(
                 context.clone(),
                 $message,
-                &SourceRange::new(start, start),
+                &$crate::source_range::SourceRange::new(start, start),
               ),
             ))
           }
diff --git a/src/matchers/matches.rs b/src/matchers/matches.rs
index ff00b14..1ca3c61 100644
--- a/src/matchers/matches.rs
+++ b/src/matchers/matches.rs
@@ -149,12 +149,12 @@ macro_rules! Matches {
   ($name:expr; $arg:expr) => {
     $crate::matchers::matches::MatchesPattern::new_with_name(
       $name,
-      regex::Regex::new($arg).unwrap(),
+      $crate::regex::Regex::new($arg).unwrap(),
     )
   };
 
   ($arg:expr) => {
-    $crate::matchers::matches::MatchesPattern::new(regex::Regex::new($arg).unwrap())
+    $crate::matchers::matches::MatchesPattern::new($crate::regex::Regex::new($arg).unwrap())
   };
 }
 
diff --git a/src/script/v1/matchers/adextopa_scope.rs b/src/script/v1/matchers/adextopa_scope.rs
index c8f33d8..9547c3c 100644
--- a/src/script/v1/matchers/adextopa_scope.rs
+++ b/src/script/v1/matchers/adextopa_scope.rs
@@ -58,7 +58,7 @@ macro_rules! ScriptAdextopaScope {
           let range = match end_of_header_pin {
             Some(token) => {
               let end = token.borrow().get_matched_range().end;
-              SourceRange::new(_token.get_matched_range().start, end)
+              $crate::source_range::SourceRange::new(_token.get_matched_range().start, end)
             },
             None => _token.get_matched_range().clone(),
           };
diff --git a/src/script/v1/matchers/pattern_scope.rs b/src/script/v1/matchers/pattern_scope.rs
index 45ebd34..afa4da2 100644
--- a/src/script/v1/matchers/pattern_scope.rs
+++ b/src/script/v1/matchers/pattern_scope.rs
@@ -13,7 +13,8 @@ macro_rules! ScriptPatternScope {
         let _token = token.borrow();
         let token_range = _token.get_matched_range();
         let parser = _token.get_parser();
-        let source = &parser.borrow().source;
+        let parser = parser.borrow();
+        let source = parser.get_source();
 
         if token_range.end < source.len() {
           return $crate::ErrorTokenResult!(context.clone(), &format!("Syntax error. Expected a pattern defintion, but instead found: {}", &source[token_range.end..]));
-- 
2.43.0


From 282a27a451aaa1979f3987242a3da860e487b22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 16/19] fix: matching continues from the end of a token that
 proxies its children

---
 src/matchers/program.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 0c4ae2b..91f919b 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -805,10 +805,6 @@ fn handle_extract_token(
   }
 
   if update_offsets && !should_discard {
-    context
-      .borrow_mut()
-      .set_start(token.get_matched_range().end);
-
     contain_source_range(captured_range, &token.get_captured_range());
     contain_source_range(matched_range, &token.get_matched_range());
   }
@@ -859,6 +855,14 @@ fn handle_extract_token(
       update_offsets && !should_discard,
     );
   }
+
+  // Adding the children moves to the end of each child,
+  // but matching continues from the end of the proxied token
+  if update_offsets && !should_discard {
+    context
+      .borrow_mut()
+      .set_start(token.get_matched_range().end);
+  }
 }
 
 fn handle_skip(
-- 
2.43.0


From 24dd67ff35996d688e857d85fd7afbcae932eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:58 +0000
Subject: [PATCH 17/19] fix: an error without width that comes first keeps its
 own place

---
 src/matchers/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 91f919b..ded014c 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -694,7 +694,7 @@ fn add_token_to_children(
 
       if source_range.start == source_range.end {
         let mut new_source_range = source_range.clone();
-        new_source_range.start = matched_range.start;
+        new_source_range.start = matched_range.start.min(source_range.start);
 
         token.set_captured_range(new_source_range);
         token.set_matched_range(new_source_range);
-- 
2.43.0


From c535903359fe8a92dafe56b70a81dd503ddccc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:28 +0000
Subject: [PATCH 18/19] fix: a script with errors noted while parsing does not
 compile

---
 src/script/v1/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 4a38394..b071de5 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -452,7 +452,15 @@ fn build_matcher_from_tokens(
   );
 
   match result {
-    Ok(_) => Ok((root_matcher, scope_context)),
+    Ok(_) => {
+      // Errors noted while parsing the script
+      let parse_errors = parse_errors.into_inner();
+      if !parse_errors.is_empty() {
+        return Err(parse_errors);
+      }
+
+      Ok((root_matcher, scope_context))
+    }
     Err(error) => {
       if error.message != "" {
         let range = match &error.range {
-- 
2.43.0


From 549277b17f248dae11f8f74138b1e3e63eba7f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:52 +0000
Subject: [PATCH 19/19] fix: an error in place of the whole script is reported
 as itself

---
 src/script/v1/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index b071de5..596d450 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -280,6 +280,12 @@ fn build_matcher_from_tokens(
   flags: u32,
 ) -> Result<(MatcherRef, ScopeContextRef), Vec<ParseError>> {
   if root_token.borrow().get_name() != "Script" {
+    // Parsing may have ended with an error in place of the script
+    if let Some(message) = root_token.borrow().get_attribute("__message") {
+      let range = root_token.borrow().get_matched_range().clone();
+      return Err(vec![ParseError::new_with_range(message, range)]);
+    }
+
     return Err(vec![ParseError::new(
       "Expected provided token to be a `Script` token",
     )]);
-- 
2.43.0

