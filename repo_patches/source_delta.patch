From 7a70287c854ce82f32736e36006bd431a8c59304 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:57:20 +0000
Subject: [PATCH 01/43] fix: tokenize long documents without growing the call
 stack

dispatch and its handlers called each other once per character, so a
document of about 20 KB (about 5 KB in a debug build or on a worker
thread) overflowed the stack. The handlers now return the next state and
dispatch loops.
---
 .../src/angle_bracket_close.rs                |  5 +-
 .../brack-tokenizer/src/angle_bracket_open.rs |  5 +-
 crates/brack-tokenizer/src/backslash.rs       |  5 +-
 crates/brack-tokenizer/src/comma.rs           |  5 +-
 .../src/curly_bracket_close.rs                |  5 +-
 .../brack-tokenizer/src/curly_bracket_open.rs |  5 +-
 crates/brack-tokenizer/src/dispatch.rs        | 66 +++++++++++--------
 crates/brack-tokenizer/src/dot.rs             |  5 +-
 crates/brack-tokenizer/src/identifier.rs      |  5 +-
 crates/brack-tokenizer/src/module.rs          |  5 +-
 crates/brack-tokenizer/src/newline.rs         |  5 +-
 .../src/square_bracket_close.rs               |  5 +-
 .../src/square_bracket_open.rs                |  5 +-
 crates/brack-tokenizer/src/text.rs            |  5 +-
 crates/brack-tokenizer/src/whitespace.rs      |  5 +-
 15 files changed, 68 insertions(+), 68 deletions(-)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index 5e32432..afe8bf0 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -47,5 +46,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         angle_nest_count: Some(angle_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/angle_bracket_open.rs b/crates/brack-tokenizer/src/angle_bracket_open.rs
index da23241..76e95e1 100644
--- a/crates/brack-tokenizer/src/angle_bracket_open.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_open.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -48,7 +47,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
 
 #[cfg(test)]
diff --git a/crates/brack-tokenizer/src/backslash.rs b/crates/brack-tokenizer/src/backslash.rs
index 2935e62..f4e499a 100644
--- a/crates/brack-tokenizer/src/backslash.rs
+++ b/crates/brack-tokenizer/src/backslash.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -41,5 +40,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/comma.rs b/crates/brack-tokenizer/src/comma.rs
index 62af075..26a673c 100644
--- a/crates/brack-tokenizer/src/comma.rs
+++ b/crates/brack-tokenizer/src/comma.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -43,5 +42,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/curly_bracket_close.rs b/crates/brack-tokenizer/src/curly_bracket_close.rs
index 6044da8..327ec54 100644
--- a/crates/brack-tokenizer/src/curly_bracket_close.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_close.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -47,5 +46,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         curly_nest_count: Some(curly_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/curly_bracket_open.rs b/crates/brack-tokenizer/src/curly_bracket_open.rs
index 5444695..33ec7cc 100644
--- a/crates/brack-tokenizer/src/curly_bracket_open.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_open.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -48,5 +47,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index def265a..b86128a 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -10,6 +10,45 @@ use crate::{
 use anyhow::Result;
 
 pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
+    let mut t = t.clone();
+    while !is_end(&t)? {
+        t = step(&t)?;
+    }
+
+    let mut tokens = t
+        .tokens
+        .clone()
+        .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
+    let line = t
+        .line
+        .ok_or_else(|| anyhow::anyhow!("`t.line` is not set"))?;
+    let column = t
+        .column
+        .ok_or_else(|| anyhow::anyhow!("`t.column` is not set"))?;
+    tokens.push(Token::EOF(Location {
+        start: LocationData {
+            line,
+            character: column,
+        },
+        end: LocationData {
+            line,
+            character: column,
+        },
+    }));
+    Ok(tokens)
+}
+
+fn is_end(t: &Tokenizer) -> Result<bool> {
+    let s = t
+        .untreated
+        .as_ref()
+        .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
+    let (head, _) = separate(s);
+    Ok(head == "\0")
+}
+
+// Consumes one character; the caller loops so that the stack does not grow with the document.
+fn step(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -23,31 +62,6 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
         .ok_or_else(|| anyhow::anyhow!("`t.column` is not set"))?;
 
     let (head, tail) = separate(&s);
-
-    if head == "\0" {
-        let mut tokens = t
-            .tokens
-            .clone()
-            .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
-        let line = t
-            .line
-            .ok_or_else(|| anyhow::anyhow!("`t.line` is not set"))?;
-        let column = t
-            .column
-            .ok_or_else(|| anyhow::anyhow!("`t.column` is not set"))?;
-        tokens.push(Token::EOF(Location {
-            start: LocationData {
-                line,
-                character: column,
-            },
-            end: LocationData {
-                line,
-                character: column,
-            },
-        }));
-        return Ok(tokens);
-    }
-
     let (head2, _) = separate(&tail);
 
     let angle_c = t
@@ -92,7 +106,7 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
                 pool: Some(format!("{}{}", pool, head)),
                 ..Default::default()
             };
-            dispatch(&t.merge(&t2))
+            Ok(t.merge(&t2))
         }
     }
 }
diff --git a/crates/brack-tokenizer/src/dot.rs b/crates/brack-tokenizer/src/dot.rs
index 8e7e62e..6e02f88 100644
--- a/crates/brack-tokenizer/src/dot.rs
+++ b/crates/brack-tokenizer/src/dot.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -43,5 +42,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/identifier.rs b/crates/brack-tokenizer/src/identifier.rs
index 31f93bf..7b3f000 100644
--- a/crates/brack-tokenizer/src/identifier.rs
+++ b/crates/brack-tokenizer/src/identifier.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -58,5 +57,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(false),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/module.rs b/crates/brack-tokenizer/src/module.rs
index 5810d6d..e5a7de4 100644
--- a/crates/brack-tokenizer/src/module.rs
+++ b/crates/brack-tokenizer/src/module.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -56,5 +55,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/newline.rs b/crates/brack-tokenizer/src/newline.rs
index feb9e18..a093d5d 100644
--- a/crates/brack-tokenizer/src/newline.rs
+++ b/crates/brack-tokenizer/src/newline.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -44,5 +43,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/square_bracket_close.rs b/crates/brack-tokenizer/src/square_bracket_close.rs
index 7a33d18..f302ac3 100644
--- a/crates/brack-tokenizer/src/square_bracket_close.rs
+++ b/crates/brack-tokenizer/src/square_bracket_close.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -47,5 +46,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         square_nest_count: Some(square_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/square_bracket_open.rs b/crates/brack-tokenizer/src/square_bracket_open.rs
index 5be2c55..0e6d71f 100644
--- a/crates/brack-tokenizer/src/square_bracket_open.rs
+++ b/crates/brack-tokenizer/src/square_bracket_open.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -48,5 +47,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/text.rs b/crates/brack-tokenizer/src/text.rs
index 2400693..3797fef 100644
--- a/crates/brack-tokenizer/src/text.rs
+++ b/crates/brack-tokenizer/src/text.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -56,5 +55,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/whitespace.rs b/crates/brack-tokenizer/src/whitespace.rs
index 08a7a78..2228787 100644
--- a/crates/brack-tokenizer/src/whitespace.rs
+++ b/crates/brack-tokenizer/src/whitespace.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -43,5 +42,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
-- 
2.43.0


From 198714de676ac27bd863335a62c3ff8d432af472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:43 +0000
Subject: [PATCH 02/43] fix: do not rescan the whole remaining document for
 every character

separate counted and re-collected every grapheme of the rest of the
document for each character, so a 20 KB document took over half a minute.
---
 crates/brack-tokenizer/src/utils.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/crates/brack-tokenizer/src/utils.rs b/crates/brack-tokenizer/src/utils.rs
index ecfe141..4c73ac7 100644
--- a/crates/brack-tokenizer/src/utils.rs
+++ b/crates/brack-tokenizer/src/utils.rs
@@ -1,15 +1,8 @@
 use unicode_segmentation::UnicodeSegmentation;
 
 pub fn separate(s: &str) -> (String, String) {
-    let graphemes = s.graphemes(true);
-    match graphemes.count() {
-        0 => ('\0'.to_string(), String::new()),
-        1 => (s.graphemes(true).next().unwrap().to_string(), String::new()),
-        _ => {
-            let mut graphemes = s.graphemes(true);
-            let head = graphemes.next().unwrap().to_string();
-            let tail = graphemes.collect::<String>();
-            (head, tail)
-        }
+    match s.graphemes(true).next() {
+        None => ('\0'.to_string(), String::new()),
+        Some(head) => (head.to_string(), s[head.len()..].to_string()),
     }
 }
-- 
2.43.0


From e2dacbb995cbb9299164ae03ba37e26a770466d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:05 +0000
Subject: [PATCH 03/43] fix: a NUL character in a document is not the end of
 the document

The tokenizer used "\0" as its end marker, so everything after a NUL
character in the source was silently dropped.
---
 crates/brack-tokenizer/src/dispatch.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index b86128a..0bf6f10 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -43,8 +43,7 @@ fn is_end(t: &Tokenizer) -> Result<bool> {
         .untreated
         .as_ref()
         .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
-    let (head, _) = separate(s);
-    Ok(head == "\0")
+    Ok(s.is_empty())
 }
 
 // Consumes one character; the caller loops so that the stack does not grow with the document.
@@ -94,7 +93,8 @@ fn step(t: &Tokenizer) -> Result<Tokenizer> {
         ("\n", _) => newline::tokenize(t),
         (_, " ") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
-        (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\0") => text::tokenize(t),
+        (_, "<") | (_, "{") | (_, "[") | (_, "\n") => text::tokenize(t),
+        _ if tail.is_empty() => text::tokenize(t),
         (_, " ") if nested => text::tokenize(t),
         (_, ",") if nested => text::tokenize(t),
         (_, ".") if nested => text::tokenize(t),
-- 
2.43.0


From ad8fdf518ed17a012bdd02bc32fb16f5827599f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:10 +0000
Subject: [PATCH 04/43] fix: escaped characters have no side effect on the
 tokenizer

`\[` still counted as an opened command and made the next word an
identifier, so `\{.` panicked in the transformer, `\[a b` lost text, and
`\.` or `\,` outside of a command was reported as an invalid escape.
---
 crates/brack-tokenizer/src/backslash.rs | 32 +++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/crates/brack-tokenizer/src/backslash.rs b/crates/brack-tokenizer/src/backslash.rs
index f4e499a..4218f00 100644
--- a/crates/brack-tokenizer/src/backslash.rs
+++ b/crates/brack-tokenizer/src/backslash.rs
@@ -11,6 +11,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         .clone()
         .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
     let (_, tail) = separate(&s);
+    let (escaped, escaped_tail) = separate(&tail);
     let mut tokens = t
         .tokens
         .clone()
@@ -33,6 +34,37 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         },
     }));
 
+    // An escaped character is literal: it must not open, close or separate anything.
+    let escaped_location = Location {
+        start: LocationData {
+            line,
+            character: column + 1,
+        },
+        end: LocationData {
+            line,
+            character: column + 2,
+        },
+    };
+    let escaped_token = match &escaped[..] {
+        "\\" => Some(Token::BackSlash(escaped_location)),
+        "<" => Some(Token::AngleBracketOpen(escaped_location)),
+        ">" => Some(Token::AngleBracketClose(escaped_location)),
+        "{" => Some(Token::CurlyBracketOpen(escaped_location)),
+        "}" => Some(Token::CurlyBracketClose(escaped_location)),
+        "[" => Some(Token::SquareBracketOpen(escaped_location)),
+        "]" => Some(Token::SquareBracketClose(escaped_location)),
+        "." => Some(Token::Dot(escaped_location)),
+        "," => Some(Token::Comma(escaped_location)),
+        _ => None,
+    };
+    let (column, tail) = match escaped_token {
+        Some(token) => {
+            tokens.push(token);
+            (column + 1, escaped_tail)
+        }
+        None => (column, tail),
+    };
+
     let t2 = Tokenizer {
         column: Some(column + 1),
         token_start_column: Some(column + 1),
-- 
2.43.0


From 96adee79abdbc00a9c84ff3ed6c1a0c16fbb69a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:37 +0000
Subject: [PATCH 05/43] fix: a special character before a closing bracket is
 not an identifier

`[<]`, `[.]`, `<>>` and a newline before a closing bracket became
identifier tokens: the bracket or separator was lost and, for a newline,
every later position was wrong.
---
 crates/brack-tokenizer/src/dispatch.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index 0bf6f10..9c55527 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -78,9 +78,6 @@ fn step(t: &Tokenizer) -> Result<Tokenizer> {
     let nested = (angle_c + curly_c + square_c) > 0;
     match (&head[..], &head2[..]) {
         ("\\", _) => backslash::tokenize(t),
-        (_, ">") if look_for_ident => identifier::tokenize(t),
-        (_, "}") if look_for_ident => identifier::tokenize(t),
-        (_, "]") if look_for_ident => identifier::tokenize(t),
         ("<", _) => angle_bracket_open::tokenize(t),
         (">", _) => angle_bracket_close::tokenize(t),
         ("{", _) => curly_bracket_open::tokenize(t),
@@ -91,6 +88,9 @@ fn step(t: &Tokenizer) -> Result<Tokenizer> {
         (",", _) if nested => comma::tokenize(t),
         (" ", _) if nested => whitespace::tokenize(t),
         ("\n", _) => newline::tokenize(t),
+        (_, ">") if look_for_ident => identifier::tokenize(t),
+        (_, "}") if look_for_ident => identifier::tokenize(t),
+        (_, "]") if look_for_ident => identifier::tokenize(t),
         (_, " ") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
         (_, "<") | (_, "{") | (_, "[") | (_, "\n") => text::tokenize(t),
-- 
2.43.0


From 4d4e9388593782cef42a480cb0989f9d97669454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:42 +0000
Subject: [PATCH 06/43] fix: a command name may be followed by a line break

`[m.c` followed by a newline made the name a text token, so commands
whose arguments start on the next line were rejected.
---
 crates/brack-tokenizer/src/dispatch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index 9c55527..e72b4e4 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -91,7 +91,7 @@ fn step(t: &Tokenizer) -> Result<Tokenizer> {
         (_, ">") if look_for_ident => identifier::tokenize(t),
         (_, "}") if look_for_ident => identifier::tokenize(t),
         (_, "]") if look_for_ident => identifier::tokenize(t),
-        (_, " ") if look_for_ident => identifier::tokenize(t),
+        (_, " ") | (_, "\n") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
         (_, "<") | (_, "{") | (_, "[") | (_, "\n") => text::tokenize(t),
         _ if tail.is_empty() => text::tokenize(t),
-- 
2.43.0


From 14c16b6327de5d11f35a8c3d964b9e37e2b39574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:48 +0000
Subject: [PATCH 07/43] fix: a stray closing bracket does not break the
 commands after it

The nesting count went negative, so the next command was tokenized as if
it were outside of any command.
---
 crates/brack-tokenizer/src/angle_bracket_close.rs  | 2 +-
 crates/brack-tokenizer/src/curly_bracket_close.rs  | 2 +-
 crates/brack-tokenizer/src/square_bracket_close.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index afe8bf0..7aca276 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -43,7 +43,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        angle_nest_count: Some(angle_nest_count - 1),
+        angle_nest_count: Some((angle_nest_count - 1).max(0)),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/curly_bracket_close.rs b/crates/brack-tokenizer/src/curly_bracket_close.rs
index 327ec54..a1e5260 100644
--- a/crates/brack-tokenizer/src/curly_bracket_close.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_close.rs
@@ -43,7 +43,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        curly_nest_count: Some(curly_nest_count - 1),
+        curly_nest_count: Some((curly_nest_count - 1).max(0)),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/square_bracket_close.rs b/crates/brack-tokenizer/src/square_bracket_close.rs
index f302ac3..424d5e9 100644
--- a/crates/brack-tokenizer/src/square_bracket_close.rs
+++ b/crates/brack-tokenizer/src/square_bracket_close.rs
@@ -43,7 +43,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        square_nest_count: Some(square_nest_count - 1),
+        square_nest_count: Some((square_nest_count - 1).max(0)),
         ..Default::default()
     };
     Ok(t.merge(&t2))
-- 
2.43.0


From ea34977d36576445b627b4503ff96aa4c8fb30d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 08/43] fix: CRLF line endings end a line

A CRLF pair is one grapheme and was treated as text, so a document with
Windows line endings was a single line: paragraphs were merged and every
reported position was on line 0.
---
 crates/brack-tokenizer/src/dispatch.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index e72b4e4..ad33b2c 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -87,13 +87,13 @@ fn step(t: &Tokenizer) -> Result<Tokenizer> {
         (".", _) if nested => dot::tokenize(t),
         (",", _) if nested => comma::tokenize(t),
         (" ", _) if nested => whitespace::tokenize(t),
-        ("\n", _) => newline::tokenize(t),
+        ("\n" | "\r\n", _) => newline::tokenize(t),
         (_, ">") if look_for_ident => identifier::tokenize(t),
         (_, "}") if look_for_ident => identifier::tokenize(t),
         (_, "]") if look_for_ident => identifier::tokenize(t),
-        (_, " ") | (_, "\n") if look_for_ident => identifier::tokenize(t),
+        (_, " ") | (_, "\n") | (_, "\r\n") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
-        (_, "<") | (_, "{") | (_, "[") | (_, "\n") => text::tokenize(t),
+        (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\r\n") => text::tokenize(t),
         _ if tail.is_empty() => text::tokenize(t),
         (_, " ") if nested => text::tokenize(t),
         (_, ",") if nested => text::tokenize(t),
-- 
2.43.0


From 18f6e1c1eb82a784193497416db6e41b307f22bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 09/43] fix: a macro can stand for the module of a command

In `[<m.c x>.name arg]`, which the grammar allows, the name after the macro
was a text token and the command was rejected.
---
 crates/brack-tokenizer/src/angle_bracket_close.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index 7aca276..cb73c6a 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -26,6 +26,14 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         .angle_nest_count
         .ok_or_else(|| anyhow::anyhow!("`t.angle_nest_count` is not set"))?;
 
+    let angle_nest_count = (angle_nest_count - 1).max(0);
+    let other_nest_count = t.curly_nest_count.unwrap_or(0) + t.square_nest_count.unwrap_or(0);
+
+    // A macro can stand for the module of a command, whose identifier is still to come.
+    let (next, _) = separate(&tail);
+    let looking_for_identifier =
+        (next == "." && angle_nest_count + other_nest_count > 0).then_some(true);
+
     tokens.push(Token::AngleBracketClose(Location {
         start: LocationData {
             line,
@@ -43,7 +51,8 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        angle_nest_count: Some((angle_nest_count - 1).max(0)),
+        angle_nest_count: Some(angle_nest_count),
+        looking_for_identifier,
         ..Default::default()
     };
     Ok(t.merge(&t2))
-- 
2.43.0


From 4ccc1dfd05d7144dab28c7f7806389c898eab858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:48 +0000
Subject: [PATCH 10/43] fix: merge_location compares columns with columns

---
 crates/brack-tokenizer/src/tokens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/brack-tokenizer/src/tokens.rs b/crates/brack-tokenizer/src/tokens.rs
index bb6b745..28e6c11 100644
--- a/crates/brack-tokenizer/src/tokens.rs
+++ b/crates/brack-tokenizer/src/tokens.rs
@@ -58,7 +58,7 @@ pub fn merge_location(location1: &Location, location2: &Location) -> Location {
 
     let end = match location1.end.line.cmp(&location2.end.line) {
         Ordering::Less => location2.end.clone(),
-        Ordering::Equal => match location1.end.line.cmp(&location2.end.character) {
+        Ordering::Equal => match location1.end.character.cmp(&location2.end.character) {
             Ordering::Greater => location1.end.clone(),
             _ => location2.end.clone(),
         },
-- 
2.43.0


From 262e3a4a10d0b3b9a780b38aa28a2e3624fee4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:53 +0000
Subject: [PATCH 11/43] fix: statements and arguments start where their first
 node starts

Their location was merged with a placeholder at (0, 0), so every statement
and argument was reported to start at the beginning of the document.
---
 crates/brack-parser/src/cst.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/brack-parser/src/cst.rs b/crates/brack-parser/src/cst.rs
index a1fef29..a9ca834 100644
--- a/crates/brack-parser/src/cst.rs
+++ b/crates/brack-parser/src/cst.rs
@@ -149,6 +149,7 @@ impl CST {
             | CST::Angle(node)
             | CST::Square(node)
             | CST::Curly(node) => {
+                let is_first = node.children.is_empty();
                 node.children.push(cst.clone());
                 let location_children = match cst {
                     CST::Document(node)
@@ -174,7 +175,11 @@ impl CST {
                     | CST::Invalid(leaf)
                     | CST::EOF(leaf) => leaf.location,
                 };
-                node.location = merge_location(&node.location, &location_children);
+                node.location = if is_first {
+                    location_children
+                } else {
+                    merge_location(&node.location, &location_children)
+                };
             }
             _ => panic!("This node does not have children"),
         }
-- 
2.43.0


From cdb14f2030ac802fb5568d24b4a19a9d39f8af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:30 +0000
Subject: [PATCH 12/43] fix: a document may begin with blank lines

Only blank lines after the first statement were accepted; a leading one
made the whole document fail to parse.
---
 brack.ast.ebnf                   | 2 +-
 brack.cst.ebnf                   | 2 +-
 crates/brack-parser/src/parse.rs | 7 ++++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/brack.ast.ebnf b/brack.ast.ebnf
index 09b4bf1..6223e65 100644
--- a/brack.ast.ebnf
+++ b/brack.ast.ebnf
@@ -1,4 +1,4 @@
-document := (stmt newline newline+)* stmt? newline* EOF
+document := newline* (stmt newline newline+)* stmt? newline* EOF
 stmt := expr (newline expr)*
 expr := (text | square | angle)+
 angle := angle_bracket_open (module | angle) dot (ident | angle) (expr (comma expr)*)? angle_bracket_close 
diff --git a/brack.cst.ebnf b/brack.cst.ebnf
index de1ad53..e705b7e 100644
--- a/brack.cst.ebnf
+++ b/brack.cst.ebnf
@@ -1,4 +1,4 @@
-document := (stmt newline newline+)* stmt? newline* EOF
+document := newline* (stmt newline newline+)* stmt? newline* EOF
 stmt := expr_or_close (newline expr_or_close)*
 expr_or_close := bracket_close | expr
 escaped := backslash (dot | comma | bracket_open | bracket_close | backslash)?
diff --git a/crates/brack-parser/src/parse.rs b/crates/brack-parser/src/parse.rs
index 923b5d8..5ad279d 100644
--- a/crates/brack-parser/src/parse.rs
+++ b/crates/brack-parser/src/parse.rs
@@ -6,11 +6,16 @@ use crate::{
     eof, newline, stmt,
 };
 
-// (stmt newline newline+)* stmt? newline* EOF
+// newline* (stmt newline newline+)* stmt? newline* EOF
 pub fn parse(tokens: &[Token]) -> Result<CST> {
     let mut tokens = tokens;
     let mut cst = new_document();
 
+    while let Ok((cst1, new_tokens)) = newline::parse(tokens) {
+        cst.add(cst1);
+        tokens = new_tokens;
+    }
+
     loop {
         let mut csts = vec![];
         let mut tokens1 = tokens;
-- 
2.43.0


From b1aed5bbb1d31ea4cb2837945fbcc60dc1dc9202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:35 +0000
Subject: [PATCH 13/43] fix: report a closing bracket that was never opened

A closing bracket at the start of a line was dropped from the output
without any diagnostic; the errors for it existed but were never raised.
---
 crates/brack-transformer/src/stmt.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/brack-transformer/src/stmt.rs b/crates/brack-transformer/src/stmt.rs
index 59b3cfd..25860dd 100644
--- a/crates/brack-transformer/src/stmt.rs
+++ b/crates/brack-transformer/src/stmt.rs
@@ -12,6 +12,18 @@ pub fn simplify(cst: &CST) -> (CST, Vec<TransformError>) {
     let mut csts = vec![];
 
     for child in node.children.clone() {
+        match &child {
+            CST::AngleBracketClose(leaf) => {
+                errors.push(TransformError::AngleNotOpened(leaf.location.clone()))
+            }
+            CST::CurlyBracketClose(leaf) => {
+                errors.push(TransformError::CurlyNotOpened(leaf.location.clone()))
+            }
+            CST::SquareBracketClose(leaf) => {
+                errors.push(TransformError::SquareNotOpened(leaf.location.clone()))
+            }
+            _ => (),
+        }
         let (cst, mut node_errors) = simplify::simplify(&child);
         csts.push(cst);
         errors.append(&mut node_errors);
-- 
2.43.0


From 05604a4eba1c13022a33ecb5eb50f676c85cc5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 14/43] fix: an escape covers the character it escapes

Its location ended at the backslash, before its own child.
---
 crates/brack-parser/src/escaped.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/brack-parser/src/escaped.rs b/crates/brack-parser/src/escaped.rs
index 04a9754..0815158 100644
--- a/crates/brack-parser/src/escaped.rs
+++ b/crates/brack-parser/src/escaped.rs
@@ -1,6 +1,6 @@
 use anyhow::bail;
 use anyhow::Result;
-use brack_tokenizer::tokens::Token;
+use brack_tokenizer::tokens::{merge_location, Token};
 use uuid::Uuid;
 
 use crate::cst::new_backslash;
@@ -59,10 +59,14 @@ pub fn parse(tokens: &[Token]) -> Result<Parser> {
                         Ok(node) => vec![node],
                         Err(_) => vec![],
                     };
+                    let location = match children.first() {
+                        Some(child) => merge_location(location, &child.location()),
+                        None => location.clone(),
+                    };
                     return Ok((
                         CST::BackSlash(InnerNode {
                             id: Uuid::new_v4().to_string(),
-                            location: location.clone(),
+                            location,
                             children: children.clone(),
                         }),
                         tokens,
-- 
2.43.0


From 7aee77d504ec165e0af2273421c6f6d65d8e8a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 15/43] fix: do not panic on a backslash that is the last token

---
 crates/brack-parser/src/escaped.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/brack-parser/src/escaped.rs b/crates/brack-parser/src/escaped.rs
index 0815158..231ba94 100644
--- a/crates/brack-parser/src/escaped.rs
+++ b/crates/brack-parser/src/escaped.rs
@@ -72,7 +72,7 @@ pub fn parse(tokens: &[Token]) -> Result<Parser> {
                         tokens,
                     ));
                 }
-                return Ok((new_backslash(location.clone()), &tokens[1..]));
+                return Ok((new_backslash(location.clone()), tokens));
             }
             token => bail!("Expected backslash, found {:?}", token),
         }
-- 
2.43.0


From d46fc8218532aa25d40c9890a008c260faf385d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 16/43] fix: keep the spaces inside a command's argument

Every space between the brackets was removed, so `[std.* bold text]` passed
`boldtext` to the command, unlike the README's example. Only the spaces
around an argument are dropped now.
---
 crates/brack-transformer/src/utils.rs | 31 +++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/crates/brack-transformer/src/utils.rs b/crates/brack-transformer/src/utils.rs
index 502220d..314b4df 100644
--- a/crates/brack-transformer/src/utils.rs
+++ b/crates/brack-transformer/src/utils.rs
@@ -1,4 +1,4 @@
-use brack_parser::cst::{new_expr, CST};
+use brack_parser::cst::{new_expr, new_text, CST};
 
 use crate::error::TransformError;
 
@@ -113,13 +113,36 @@ pub fn check_unexpected_dot(csts: &[CST]) -> Vec<TransformError> {
     errors
 }
 
+// Spaces around the parts of a command are not significant, those between two pieces of the same
+// argument on the same line are text.
 pub fn remove_whitespaces_and_newlines(csts: &Vec<CST>) -> Vec<CST> {
     let mut result = vec![];
-    for cst in csts {
+    let mut content_before = false;
+    for (i, cst) in csts.iter().enumerate() {
         match cst {
-            CST::Whitespace(_) | CST::Newline(_) => (),
-            _ => result.push(cst.clone()),
+            CST::Whitespace(_) => {
+                let next = csts[i..].iter().find(|c| !matches!(c, CST::Whitespace(_)));
+                if result.len() > 4 && content_before && next.is_some_and(is_content) {
+                    result.push(new_text(" ".to_string(), cst.location()));
+                }
+            }
+            CST::Newline(_) => content_before = false,
+            _ => {
+                content_before = is_content(cst);
+                result.push(cst.clone());
+            }
         }
     }
     result
 }
+
+fn is_content(cst: &CST) -> bool {
+    !matches!(
+        cst,
+        CST::Comma(_)
+            | CST::Newline(_)
+            | CST::AngleBracketClose(_)
+            | CST::CurlyBracketClose(_)
+            | CST::SquareBracketClose(_)
+    )
+}
-- 
2.43.0


From 6330177ea47ca7abaf7a3f987c26a0fc5c4cf609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:55 +0000
Subject: [PATCH 17/43] fix: report an unexpected dot once

---
 crates/brack-transformer/src/utils.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/brack-transformer/src/utils.rs b/crates/brack-transformer/src/utils.rs
index 314b4df..431c745 100644
--- a/crates/brack-transformer/src/utils.rs
+++ b/crates/brack-transformer/src/utils.rs
@@ -87,10 +87,7 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
                 new_csts.push(csts[i].clone());
                 break;
             }
-            CST::Dot(_) => {
-                errors.push(TransformError::UnexpectedDot(csts[i].location()));
-                continue;
-            }
+            CST::Dot(_) => continue, // reported by check_unexpected_dot
             _ => {
                 expr.add(csts[i].clone());
                 previous_comma = false;
-- 
2.43.0


From e94c262f1cb252fc16b65f0e780c87395c77eb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:39 +0000
Subject: [PATCH 18/43] fix: a closing bracket inside a line is a diagnostic,
 not a parse failure

`a]` made the parser give up on the whole document with an internal
message and no position, although errors for unopened brackets exist.
---
 brack.cst.ebnf                  | 2 +-
 crates/brack-parser/src/stmt.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/brack.cst.ebnf b/brack.cst.ebnf
index e705b7e..2f3986e 100644
--- a/brack.cst.ebnf
+++ b/brack.cst.ebnf
@@ -1,5 +1,5 @@
 document := newline* (stmt newline newline+)* stmt? newline* EOF
-stmt := expr_or_close (newline expr_or_close)*
+stmt := expr_or_close (newline? expr_or_close)*
 expr_or_close := bracket_close | expr
 escaped := backslash (dot | comma | bracket_open | bracket_close | backslash)?
 expr := (escaped | module | ident | bracket | dot | comma | whitespace | text)+
diff --git a/crates/brack-parser/src/stmt.rs b/crates/brack-parser/src/stmt.rs
index ea65d1d..cb19992 100644
--- a/crates/brack-parser/src/stmt.rs
+++ b/crates/brack-parser/src/stmt.rs
@@ -2,13 +2,18 @@ use crate::{cst::new_stmt, expr_or_close, newline, parser::Parser};
 use anyhow::Result;
 use brack_tokenizer::tokens::Token;
 
-// expr_or_close (newline expr_or_close)*
+// expr_or_close (newline? expr_or_close)*
 pub fn parse(tokens: &[Token]) -> Result<Parser> {
     let mut stmt = new_stmt();
     let (cst, mut tokens) = expr_or_close::parse(tokens)?;
     stmt.add(cst);
 
     loop {
+        if let Ok((cst1, new_tokens)) = expr_or_close::parse(tokens) {
+            stmt.add(cst1);
+            tokens = new_tokens;
+            continue;
+        }
         if let Ok((cst1, new_tokens)) = newline::parse(tokens) {
             if let Ok((cst2, new_tokens)) = expr_or_close::parse(new_tokens) {
                 stmt.add(cst1);
-- 
2.43.0


From 291a567e38796743bf89fdc8cf09f1a159a5dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:44 +0000
Subject: [PATCH 19/43] fix: macros are replaced by their expansion

The expander called the macro and then returned the original tree, so any
document with a macro failed in the code generator. Broken nodes are left
alone instead of panicking.
---
 crates/brack-expander/src/expand.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/brack-expander/src/expand.rs b/crates/brack-expander/src/expand.rs
index 43fb9a3..6222ead 100644
--- a/crates/brack-expander/src/expand.rs
+++ b/crates/brack-expander/src/expand.rs
@@ -41,6 +41,9 @@ fn expand_other(overall_ast: &AST, ast: &AST, plugins: &mut Plugins) -> Result<A
         AST::Ident(_) => {
             return Ok(ast.clone());
         }
+        AST::Invalid(_) | AST::Ignored(_) => {
+            return Ok(ast.clone());
+        }
         _ => {}
     }
     for child in ast.children() {
@@ -49,7 +52,17 @@ fn expand_other(overall_ast: &AST, ast: &AST, plugins: &mut Plugins) -> Result<A
             _ => children.push(expand_other(overall_ast, child, plugins)?),
         }
     }
-    Ok(ast.clone())
+    let mut new_ast = ast.clone();
+    match &mut new_ast {
+        AST::Document(node)
+        | AST::Stmt(node)
+        | AST::Expr(node)
+        | AST::Angle(node)
+        | AST::Square(node)
+        | AST::Curly(node) => node.children = children,
+        _ => {}
+    }
+    Ok(new_ast)
 }
 
 pub fn expander(ast: &AST, plugins: &mut Plugins) -> Result<AST> {
-- 
2.43.0


From 4234634d18d1c89579f271d7f23f1e26698d39ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:54 +0000
Subject: [PATCH 20/43] fix: no panic on commands with optional or array
 parameters

An array parameter followed by another one overflowed the argument count,
and an optional parameter before an array or a required one indexed past
the given arguments.
---
 crates/brack-codegen/src/curly.rs  | 7 +++++--
 crates/brack-codegen/src/square.rs | 7 +++++--
 crates/brack-plugin/src/types.rs   | 6 +++---
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/brack-codegen/src/curly.rs b/crates/brack-codegen/src/curly.rs
index 4d9b7cb..b053838 100644
--- a/crates/brack-codegen/src/curly.rs
+++ b/crates/brack-codegen/src/curly.rs
@@ -81,8 +81,11 @@ pub(crate) fn generate(ast: &AST, plugins: &mut Plugins) -> Result<String> {
                     Value::TextOption(None)
                 }
             }
-            Type::TArray(_) => Value::TextArray(arguments[i..].to_vec()),
-            _ => Value::Text(arguments[i].clone()),
+            Type::TArray(_) => Value::TextArray(arguments.iter().skip(i).cloned().collect()),
+            _ => match arguments.get(i) {
+                Some(argument) => Value::Text(argument.clone()),
+                None => anyhow::bail!("{} is missing argument {}", ident_name, i + 1),
+            },
         };
         args.push(arg);
     }
diff --git a/crates/brack-codegen/src/square.rs b/crates/brack-codegen/src/square.rs
index 70e14eb..1a39c56 100644
--- a/crates/brack-codegen/src/square.rs
+++ b/crates/brack-codegen/src/square.rs
@@ -81,8 +81,11 @@ pub(crate) fn generate(ast: &AST, plugins: &mut Plugins) -> Result<String> {
                     Value::TextOption(None)
                 }
             }
-            Type::TArray(_) => Value::TextArray(arguments[i..].to_vec()),
-            _ => Value::Text(arguments[i].clone()),
+            Type::TArray(_) => Value::TextArray(arguments.iter().skip(i).cloned().collect()),
+            _ => match arguments.get(i) {
+                Some(argument) => Value::Text(argument.clone()),
+                None => anyhow::bail!("{} is missing argument {}", ident_name, i + 1),
+            },
         };
         args.push(arg);
     }
diff --git a/crates/brack-plugin/src/types.rs b/crates/brack-plugin/src/types.rs
index e6b4a75..84af20f 100644
--- a/crates/brack-plugin/src/types.rs
+++ b/crates/brack-plugin/src/types.rs
@@ -13,12 +13,12 @@ pub enum Type {
 
 pub fn arg_counter(arg_types: &Vec<Type>) -> (usize, usize) {
     let mut min = 0;
-    let mut max = 0;
+    let mut max: usize = 0;
     for arg_type in arg_types {
         match arg_type {
             Type::TOption(_) => {
                 min += 0;
-                max += 1;
+                max = max.saturating_add(1);
             }
             Type::TArray(_) => {
                 min += 0;
@@ -26,7 +26,7 @@ pub fn arg_counter(arg_types: &Vec<Type>) -> (usize, usize) {
             }
             _ => {
                 min += 1;
-                max += 1;
+                max = max.saturating_add(1);
             }
         }
     }
-- 
2.43.0


From fe532878ac86893574e3ca9a54d516a06bd63c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:58 +0000
Subject: [PATCH 21/43] fix: do not build or compile a document that has errors

The diagnostics were ignored, so a malformed document was turned into
incomplete output without a word.
---
 crates/brack-project-manager/src/project.rs |  6 +++++-
 src/main.rs                                 | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index b0ae3b5..210e233 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -136,7 +136,11 @@ impl Project {
             if path.extension() == Some("[]".as_ref()) {
                 let tokenized = brack_tokenizer::tokenize::tokenize(path.to_str().unwrap())?;
                 let parsed = brack_parser::parse::parse(&tokenized)?;
-                let (ast, _errors) = brack_transformer::transform::transform(&parsed);
+                let (ast, errors) = brack_transformer::transform::transform(&parsed);
+                if !errors.is_empty() {
+                    let messages = errors.iter().map(|e| e.to_string()).collect::<Vec<_>>();
+                    anyhow::bail!("{}:\n{}", path.display(), messages.join("\n"));
+                }
                 let expanded = brack_expander::expand::expander(&ast, &mut plugins)?;
                 let gen = brack_codegen::generate::generate(&expanded, &mut plugins)?;
                 std::fs::create_dir_all("out")?;
diff --git a/src/main.rs b/src/main.rs
index 28ab2fb..07478bb 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -97,7 +97,11 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
         4 => {
             let tokens = brack_tokenizer::tokenize::tokenize(&filename)?;
             let cst = brack_parser::parse::parse(&tokens)?;
-            let (ast, _errors) = brack_transformer::transform::transform(&cst);
+            let (ast, errors) = brack_transformer::transform::transform(&cst);
+            if !errors.is_empty() {
+                let messages = errors.iter().map(|e| e.to_string()).collect::<Vec<_>>();
+                anyhow::bail!("{}:\n{}", filename, messages.join("\n"));
+            }
             let expanded_ast = brack_expander::expand::expander(&ast, &mut plugins)?;
             if json {
                 let json = serde_json::to_string(&expanded_ast)?;
@@ -112,7 +116,11 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
             }
             let tokens = brack_tokenizer::tokenize::tokenize(&filename)?;
             let cst = brack_parser::parse::parse(&tokens)?;
-            let (ast, _errors) = brack_transformer::transform::transform(&cst);
+            let (ast, errors) = brack_transformer::transform::transform(&cst);
+            if !errors.is_empty() {
+                let messages = errors.iter().map(|e| e.to_string()).collect::<Vec<_>>();
+                anyhow::bail!("{}:\n{}", filename, messages.join("\n"));
+            }
             let expanded_ast = brack_expander::expand::expander(&ast, &mut plugins)?;
             let gen = brack_codegen::generate::generate(&expanded_ast, &mut plugins)?;
             println!("{}", gen);
-- 
2.43.0


From cd2dab2959cd35139102ca340a7107975df565e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:34 +0000
Subject: [PATCH 22/43] fix: a project reads and writes below its own root

Only Brack.toml was looked up in the project's root; plugins, documents
and output used the current directory, so the language server mixed
projects up unless it was started in the project.
---
 crates/brack-project-manager/src/project.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 210e233..19399c5 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -35,8 +35,8 @@ impl Project {
     }
 
     pub fn clear_plugins(&mut self) -> Result<()> {
-        std::fs::remove_dir_all("plugins")?;
-        std::fs::create_dir("plugins")?;
+        std::fs::remove_dir_all(self.root.join("plugins"))?;
+        std::fs::create_dir(self.root.join("plugins"))?;
         self.plugins_metadata = Default::default();
         Ok(())
     }
@@ -46,7 +46,8 @@ impl Project {
             let mut tasks = vec![];
             for (name, plugin) in plugins {
                 let path =
-                    PathBuf::from(&format!("plugins/{}_{}.wasm", name, plugin.hash_sha256()));
+                    self.root
+                        .join(format!("plugins/{}_{}.wasm", name, plugin.hash_sha256()));
                 let document_hook = (match plugin {
                     PluginSchema::GitHub { document_hook, .. } => document_hook,
                 })
@@ -124,7 +125,7 @@ impl Project {
         }
         let mut plugins = Plugins::new(plugin_vec)?;
 
-        let entries = std::fs::read_dir("docs")?;
+        let entries = std::fs::read_dir(self.root.join("docs"))?;
         for entry in entries {
             let entry = entry?;
             let path = entry.path();
@@ -143,16 +144,17 @@ impl Project {
                 }
                 let expanded = brack_expander::expand::expander(&ast, &mut plugins)?;
                 let gen = brack_codegen::generate::generate(&expanded, &mut plugins)?;
-                std::fs::create_dir_all("out")?;
+                std::fs::create_dir_all(self.root.join("out"))?;
                 std::fs::write(
-                    format!("out/{}.{}", file_stem, self.config.document.backend),
+                    self.root
+                        .join(format!("out/{}.{}", file_stem, self.config.document.backend)),
                     gen,
                 )?;
             }
         }
 
         println!("Build succeeded.");
-        for out in std::fs::read_dir("out")? {
+        for out in std::fs::read_dir(self.root.join("out"))? {
             let out = out?;
             let path = out.path();
             let file_stem = path
-- 
2.43.0


From 8dba8e945b26481b66650e6bae9b45c7196175fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:38 +0000
Subject: [PATCH 23/43] fix: create the plugins directory before saving plugins
 into it

The first build of a project failed because nothing else creates it.
---
 crates/brack-project-manager/src/project.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 19399c5..f31bfd4 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -110,6 +110,7 @@ impl Project {
             let results = join_all(tasks).await;
             for result in results {
                 let (name, path, bytes, flag) = result??;
+                std::fs::create_dir_all(self.root.join("plugins"))?;
                 std::fs::write(&path, &bytes)?;
                 self.plugins_metadata.insert(name, (path, flag));
             }
-- 
2.43.0


From 5c982dfa5c4afe1e6cc16366aa62e9c642ad02ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:42 +0000
Subject: [PATCH 24/43] fix: a project without documents builds

Listing the output failed because the directory was only created with the
first document.
---
 crates/brack-project-manager/src/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index f31bfd4..d0b8ade 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -126,6 +126,7 @@ impl Project {
         }
         let mut plugins = Plugins::new(plugin_vec)?;
 
+        std::fs::create_dir_all(self.root.join("out"))?;
         let entries = std::fs::read_dir(self.root.join("docs"))?;
         for entry in entries {
             let entry = entry?;
@@ -145,7 +146,6 @@ impl Project {
                 }
                 let expanded = brack_expander::expand::expander(&ast, &mut plugins)?;
                 let gen = brack_codegen::generate::generate(&expanded, &mut plugins)?;
-                std::fs::create_dir_all(self.root.join("out"))?;
                 std::fs::write(
                     self.root
                         .join(format!("out/{}.{}", file_stem, self.config.document.backend)),
-- 
2.43.0


From fc25f3da4a20e21a2ef116f9371ce7fd12931564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:47 +0000
Subject: [PATCH 25/43] fix: changing the backend does not reuse the other
 backend's plugins

The backend is part of a plugin's download URL but was not part of its
cached file's name.
---
 crates/brack-project-manager/src/plugin.rs  | 5 +++--
 crates/brack-project-manager/src/project.rs | 5 ++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 388dd5e..34d2e56 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -171,9 +171,10 @@ impl<'de> Deserialize<'de> for PluginSchema {
 }
 
 impl PluginSchema {
-    pub fn hash_sha256(&self) -> String {
+    // The backend selects which of the plugin's binaries is used.
+    pub fn hash_sha256(&self, backend: &str) -> String {
         let mut hasher = Sha256::new();
-        hasher.update(format!("{:?}", self));
+        hasher.update(format!("{:?} {:?}", self, backend));
         format!("{:x}", hasher.finalize())
     }
 }
diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index d0b8ade..24bc22c 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -45,9 +45,8 @@ impl Project {
         if let Some(plugins) = self.config.plugins.clone() {
             let mut tasks = vec![];
             for (name, plugin) in plugins {
-                let path =
-                    self.root
-                        .join(format!("plugins/{}_{}.wasm", name, plugin.hash_sha256()));
+                let hash = plugin.hash_sha256(&self.config.document.backend);
+                let path = self.root.join(format!("plugins/{}_{}.wasm", name, hash));
                 let document_hook = (match plugin {
                     PluginSchema::GitHub { document_hook, .. } => document_hook,
                 })
-- 
2.43.0


From c1c5a7f25b1b2ec45dae73bd6cb0627d7b027321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:47 +0000
Subject: [PATCH 26/43] fix: the language server reads every message, however
 stdin is chunked

At most one message was handled per read, so messages arriving together
were delayed or lost; a chunk boundary inside a UTF-8 sequence, a header
line without ": " or invalid JSON ended the server.
---
 crates/brack-language-server/src/server.rs | 63 +++++++++++-----------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 59daa7b..66dbcc2 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -1,12 +1,22 @@
-use std::str::from_utf8;
-
 use anyhow::Result;
 use brack_project_manager::project::Project;
 use lsp_types::{ClientCapabilities, Diagnostic};
 use serde::Serialize;
-use serde_json::{from_str, json, Value};
+use serde_json::{from_slice, json, Value};
 use tokio::io::{stdin, stdout, AsyncReadExt, AsyncWriteExt};
 
+// The length of the header part of the first message in the buffer and its Content-Length, if any.
+fn find_header(buffer: &[u8]) -> Option<(usize, Option<usize>)> {
+    let end = buffer.windows(4).position(|w| w == b"\r\n\r\n")?;
+    let header = String::from_utf8_lossy(&buffer[..end]);
+    let content_length = header
+        .split("\r\n")
+        .filter_map(|line| line.split_once(": "))
+        .find(|(key, _)| *key == "Content-Length")
+        .and_then(|(_, value)| value.parse().ok());
+    Some((end + 4, content_length))
+}
+
 #[derive(Default)]
 pub struct Server {
     pub(crate) client_capabilities: ClientCapabilities,
@@ -74,7 +84,6 @@ impl Server {
             .await
     }
 
-    #[allow(dead_code)]
     pub(crate) async fn send_parse_error_response(&self) -> Result<()> {
         self.send_error_response(None, -32700, "received an invalid JSON")
             .await
@@ -134,37 +143,27 @@ impl Server {
             }
             buffer.extend_from_slice(&tmp_buffer[..chunk]);
 
-            let buffer_string = from_utf8(&buffer)?;
-            if !buffer_string.contains("\r\n\r\n") {
-                continue;
-            }
-
-            let splitted_buffer = buffer_string.split("\r\n\r\n").collect::<Vec<&str>>();
-            let header_string = splitted_buffer[0];
-
-            let mut content_length = -1;
-            let header_length = header_string.len() + 4;
-            for line in header_string.split("\r\n") {
-                let splitted_line = line.split(": ").collect::<Vec<&str>>();
-                let key = splitted_line[0];
-                let value = splitted_line[1];
-                if key == "Content-Length" {
-                    content_length = value.parse::<i32>()?;
+            while let Some((header_length, content_length)) = find_header(&buffer) {
+                let Some(content_length) = content_length else {
+                    // The header does not say how long the content is: skip it.
+                    buffer.drain(0..header_length);
+                    continue;
+                };
+                let Some(total_length) = header_length.checked_add(content_length) else {
+                    buffer.drain(0..header_length);
+                    continue;
+                };
+                if buffer.len() < total_length {
+                    break;
                 }
-            }
-
-            if content_length == -1 {
-                continue;
-            }
-            let total_length = header_length + content_length as usize;
 
-            if buffer.len() < total_length {
-                continue;
+                let msg = from_slice(&buffer[header_length..total_length]);
+                buffer.drain(0..total_length);
+                match msg {
+                    Ok(msg) => self.dispatch(msg).await?,
+                    Err(_) => self.send_parse_error_response().await?,
+                }
             }
-
-            let msg: Value = from_str(&buffer_string[header_length..total_length])?;
-            self.dispatch(msg).await?;
-            buffer.drain(0..total_length);
         }
 
         Ok(())
-- 
2.43.0


From 84f256a529b70d5f6324709a76c7ba289aaac922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:51 +0000
Subject: [PATCH 27/43] fix: a failing request or notification does not end the
 language server

Opening a file without network access, saving a deleted file or sending
unexpected parameters terminated it. A failed request is now answered with
an error and a failed notification is logged.
---
 crates/brack-language-server/src/server.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 66dbcc2..a14f019 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -122,9 +122,18 @@ impl Server {
             msg.get("id").and_then(|i| i.as_i64()),
             msg.get("method").and_then(|m| m.as_str()),
         ) {
-            (Some(id), Some(method)) => self.handle_request(&msg, id, method).await,
+            (Some(id), Some(method)) => match self.handle_request(&msg, id, method).await {
+                Ok(()) => Ok(()),
+                Err(e) => {
+                    self.send_error_response(Some(id), -32602, &format!("{} failed: {}", method, e))
+                        .await
+                }
+            },
             (Some(id), None) => self.handle_response(&msg, id).await,
-            (None, Some(method)) => self.handle_notification(&msg, method).await,
+            (None, Some(method)) => match self.handle_notification(&msg, method).await {
+                Ok(()) => Ok(()),
+                Err(e) => self.log_message(&format!("{} failed: {}", method, e)).await,
+            },
             _ => self.send_invalid_request_response().await,
         }
     }
-- 
2.43.0


From 00a78cdbdc550cd271815dad5e9381074f8ac3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:55 +0000
Subject: [PATCH 28/43] fix: a request without a result is answered with null

Completion outside of a project or without a trigger character, and
semantic tokens of an unreadable file, were never answered.
---
 crates/brack-language-server/src/request.rs | 26 ++++++++-------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/crates/brack-language-server/src/request.rs b/crates/brack-language-server/src/request.rs
index ed1db70..ff8a288 100644
--- a/crates/brack-language-server/src/request.rs
+++ b/crates/brack-language-server/src/request.rs
@@ -106,14 +106,11 @@ impl Server {
             "textDocument/semanticTokens/full" => {
                 let params = SemanticTokensParams::deserialize(msg["params"].clone())?;
                 match self.handle_semantic_tokens_full(params).await {
-                    Ok(result) => match result {
-                        Some(response) => {
-                            let result = BLSResult::new(id, response);
-                            self.send_stdout(&result).await?;
-                            Ok(())
-                        }
-                        None => Ok(()),
-                    },
+                    Ok(response) => {
+                        let result = BLSResult::new(id, response);
+                        self.send_stdout(&result).await?;
+                        Ok(())
+                    }
                     Err(_) => {
                         self.send_error_response(Some(id), -32000, "semantic tokens failed")
                             .await
@@ -123,14 +120,11 @@ impl Server {
             "textDocument/completion" => {
                 let params = CompletionParams::deserialize(msg["params"].clone())?;
                 match self.handle_completion(params).await {
-                    Ok(result) => match result {
-                        Some(response) => {
-                            let result = BLSResult::new(id, response);
-                            self.send_stdout(&result).await?;
-                            Ok(())
-                        }
-                        None => Ok(()),
-                    },
+                    Ok(response) => {
+                        let result = BLSResult::new(id, response);
+                        self.send_stdout(&result).await?;
+                        Ok(())
+                    }
                     Err(_) => {
                         self.send_error_response(Some(id), -32000, "completion failed")
                             .await
-- 
2.43.0


From 2add7b72eaf0d2fd6993f5084a6f515031d53a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:38 +0000
Subject: [PATCH 29/43] fix: requests with a string id are answered

JSON-RPC ids may be strings; such a request was taken for a notification
and never answered.
---
 crates/brack-language-server/src/request.rs  |  2 +-
 crates/brack-language-server/src/response.rs |  2 +-
 crates/brack-language-server/src/result.rs   |  5 +++--
 crates/brack-language-server/src/server.rs   | 14 ++++++++++----
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/brack-language-server/src/request.rs b/crates/brack-language-server/src/request.rs
index ff8a288..dcb07dc 100644
--- a/crates/brack-language-server/src/request.rs
+++ b/crates/brack-language-server/src/request.rs
@@ -17,7 +17,7 @@ impl Server {
     pub(crate) async fn handle_request(
         &mut self,
         msg: &Value,
-        id: i64,
+        id: Value,
         method: &str,
     ) -> Result<()> {
         match method {
diff --git a/crates/brack-language-server/src/response.rs b/crates/brack-language-server/src/response.rs
index 7167f18..33a89bc 100644
--- a/crates/brack-language-server/src/response.rs
+++ b/crates/brack-language-server/src/response.rs
@@ -3,7 +3,7 @@ use anyhow::Result;
 use serde_json::Value;
 
 impl Server {
-    pub(crate) async fn handle_response(&self, _: &Value, _: i64) -> Result<()> {
+    pub(crate) async fn handle_response(&self, _: &Value, _: Value) -> Result<()> {
         Ok(())
     }
 }
diff --git a/crates/brack-language-server/src/result.rs b/crates/brack-language-server/src/result.rs
index 24bee6d..587549c 100644
--- a/crates/brack-language-server/src/result.rs
+++ b/crates/brack-language-server/src/result.rs
@@ -1,14 +1,15 @@
 use serde::Serialize;
+use serde_json::Value;
 
 #[derive(Serialize)]
 pub(crate) struct BLSResult<R: Serialize> {
     jsonrpc: String,
-    id: i64,
+    id: Value,
     result: R,
 }
 
 impl<R: Serialize> BLSResult<R> {
-    pub fn new(id: i64, result: R) -> Self {
+    pub fn new(id: Value, result: R) -> Self {
         Self {
             jsonrpc: "2.0".to_string(),
             id,
diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index a14f019..b34f469 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -58,7 +58,7 @@ impl Server {
 
     pub(crate) async fn send_error_response(
         &self,
-        id: Option<i64>,
+        id: Option<Value>,
         code: i32,
         message: &str,
     ) -> Result<()> {
@@ -79,7 +79,11 @@ impl Server {
             .await
     }
 
-    pub(crate) async fn send_method_not_found_response(&self, id: i64, method: &str) -> Result<()> {
+    pub(crate) async fn send_method_not_found_response(
+        &self,
+        id: Value,
+        method: &str,
+    ) -> Result<()> {
         self.send_error_response(Some(id), -32601, &format!("{} is not supported", method))
             .await
     }
@@ -119,10 +123,12 @@ impl Server {
 
     pub(crate) async fn dispatch(&mut self, msg: Value) -> Result<()> {
         match (
-            msg.get("id").and_then(|i| i.as_i64()),
+            msg.get("id")
+                .filter(|i| i.is_i64() || i.is_string())
+                .cloned(),
             msg.get("method").and_then(|m| m.as_str()),
         ) {
-            (Some(id), Some(method)) => match self.handle_request(&msg, id, method).await {
+            (Some(id), Some(method)) => match self.handle_request(&msg, id.clone(), method).await {
                 Ok(()) => Ok(()),
                 Err(e) => {
                     self.send_error_response(Some(id), -32602, &format!("{} failed: {}", method, e))
-- 
2.43.0


From 69252022c88029e88f7ca060a3470f18111c8d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:42 +0000
Subject: [PATCH 30/43] fix: publish diagnostics for the document's URI

The file path was sent instead, which editors do not match with an open
document.
---
 crates/brack-language-server/src/notification/did_save.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/brack-language-server/src/notification/did_save.rs b/crates/brack-language-server/src/notification/did_save.rs
index dc94db8..bbad973 100644
--- a/crates/brack-language-server/src/notification/did_save.rs
+++ b/crates/brack-language-server/src/notification/did_save.rs
@@ -16,11 +16,9 @@ impl Server {
             .uri
             .to_file_path()
             .map_err(|_| anyhow::anyhow!("Invalid file path"))?;
-        let uri = file_path
-            .to_str()
-            .ok_or_else(|| anyhow::anyhow!("Invalid file path"))?;
+        let uri = param.text_document.uri.as_str();
 
-        let tokens = match tokenize(uri) {
+        let tokens = match tokenize(&file_path) {
             Ok(tokens) => tokens,
             Err(e) => return self.log_message(&format!("Tokenize failed: {}", e)).await,
         };
-- 
2.43.0


From bb7bf6d07650127182d3ba2948433f0fd514b295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:46 +0000
Subject: [PATCH 31/43] fix: complete macros after an angle bracket

---
 crates/brack-language-server/src/request/completion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/brack-language-server/src/request/completion.rs b/crates/brack-language-server/src/request/completion.rs
index 45967ee..5888ccf 100644
--- a/crates/brack-language-server/src/request/completion.rs
+++ b/crates/brack-language-server/src/request/completion.rs
@@ -57,6 +57,7 @@ impl Server {
             for ((name, typ), command_metadata) in plugin.signature_to_metadata.iter() {
                 if (start == *"[" && matches!(typ, Type::TInline))
                     || (start == *"{" && matches!(typ, Type::TBlock))
+                    || (start == *"<" && matches!(typ, Type::TAST))
                 {
                     completion_items.push(build_completion_item(
                         &plugin.name,
-- 
2.43.0


From a00486553f5f87a40fe11590ef380499dc80250a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:50 +0000
Subject: [PATCH 32/43] fix: send only semantic tokens whose type is in the
 legend

Undecorated tokens were sent with type 100, outside of the announced
legend.
---
 .../src/request/semantic_tokens.rs                   | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/brack-language-server/src/request/semantic_tokens.rs b/crates/brack-language-server/src/request/semantic_tokens.rs
index 40b360e..a25f7aa 100644
--- a/crates/brack-language-server/src/request/semantic_tokens.rs
+++ b/crates/brack-language-server/src/request/semantic_tokens.rs
@@ -4,16 +4,16 @@ use lsp_types::{SemanticToken, SemanticTokenType, SemanticTokens, SemanticTokens
 
 use crate::server::Server;
 
-fn token_kind_to_type(token: &Token) -> u32 {
+fn token_kind_to_type(token: &Token) -> Option<u32> {
     let typ = match token {
         Token::Module(_, _) => SemanticTokenType::NAMESPACE,
         Token::Ident(_, _) => SemanticTokenType::VARIABLE,
         Token::AngleBracketOpen(_) | Token::AngleBracketClose(_) => SemanticTokenType::MACRO,
         Token::CurlyBracketOpen(_) | Token::CurlyBracketClose(_) => SemanticTokenType::METHOD,
         Token::SquareBracketOpen(_) | Token::SquareBracketClose(_) => SemanticTokenType::FUNCTION,
-        _ => return 100, // no decoration
+        _ => return None, // no decoration
     };
-    token_type_as_u32(typ)
+    Some(token_type_as_u32(typ))
 }
 
 fn token_type_as_u32(token_type: SemanticTokenType) -> u32 {
@@ -50,6 +50,10 @@ fn separate(tokens: &Vec<Token>) -> Vec<SemanticToken> {
     let mut prev_char = 0;
 
     for token in tokens {
+        let token_type = match token_kind_to_type(token) {
+            Some(token_type) => token_type,
+            None => continue,
+        };
         let location = token.get_location();
         let delta_line = location.start.line as u32 - prev_line;
         let delta_start = if delta_line == 0 {
@@ -62,7 +66,7 @@ fn separate(tokens: &Vec<Token>) -> Vec<SemanticToken> {
             delta_line,
             delta_start,
             length: (location.end.character - location.start.character) as u32,
-            token_type: token_kind_to_type(token),
+            token_type,
             token_modifiers_bitset: 0,
         });
 
-- 
2.43.0


From 196e549db7139f2a28ff76edc5c2d8ad5c116fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:05 +0000
Subject: [PATCH 33/43] fix: positions sent to the editor count UTF-16 code
 units

Columns counted graphemes, so everything after an emoji or a combining
character on a line was marked at the wrong place.
---
 crates/brack-language-server/src/lib.rs       |  1 +
 .../src/notification/did_save.rs              | 13 ++----
 crates/brack-language-server/src/position.rs  | 43 +++++++++++++++++++
 .../src/request/semantic_tokens.rs            | 18 +++++---
 4 files changed, 59 insertions(+), 16 deletions(-)
 create mode 100644 crates/brack-language-server/src/position.rs

diff --git a/crates/brack-language-server/src/lib.rs b/crates/brack-language-server/src/lib.rs
index 10a63f2..d4feef1 100644
--- a/crates/brack-language-server/src/lib.rs
+++ b/crates/brack-language-server/src/lib.rs
@@ -1,4 +1,5 @@
 mod notification;
+mod position;
 mod request;
 mod response;
 mod result;
diff --git a/crates/brack-language-server/src/notification/did_save.rs b/crates/brack-language-server/src/notification/did_save.rs
index bbad973..a25460f 100644
--- a/crates/brack-language-server/src/notification/did_save.rs
+++ b/crates/brack-language-server/src/notification/did_save.rs
@@ -4,7 +4,7 @@ use brack_tokenizer::tokenize::tokenize;
 use brack_transformer::transform::transform;
 use lsp_types::{Diagnostic, DidSaveTextDocumentParams};
 
-use crate::server::Server;
+use crate::{position::Positions, server::Server};
 
 impl Server {
     pub(crate) async fn handle_text_document_did_save(
@@ -30,20 +30,15 @@ impl Server {
             return self.send_publish_diagnostics(uri, &diagnostics).await;
         }
 
+        let positions = Positions::new(&tokens);
         let mut diagnostics = vec![];
         for error in errors {
             let location = error.get_location();
             let message = error.get_message();
             let diagnostic = Diagnostic {
                 range: lsp_types::Range {
-                    start: lsp_types::Position {
-                        line: location.start.line as u32,
-                        character: location.start.character as u32,
-                    },
-                    end: lsp_types::Position {
-                        line: location.end.line as u32,
-                        character: location.end.character as u32,
-                    },
+                    start: positions.get(&location.start),
+                    end: positions.get(&location.end),
                 },
                 message,
                 ..Default::default()
diff --git a/crates/brack-language-server/src/position.rs b/crates/brack-language-server/src/position.rs
new file mode 100644
index 0000000..4d7a400
--- /dev/null
+++ b/crates/brack-language-server/src/position.rs
@@ -0,0 +1,43 @@
+use std::collections::HashMap;
+
+use brack_tokenizer::tokens::{LocationData, Token};
+use lsp_types::Position;
+
+/// Converts locations of tokens, whose columns count graphemes, to the positions of the language
+/// server protocol, whose columns count UTF-16 code units.
+pub(crate) struct Positions(HashMap<(usize, usize), u32>);
+
+impl Positions {
+    pub(crate) fn new(tokens: &[Token]) -> Self {
+        let mut columns = HashMap::new();
+        let mut line = 0;
+        let mut column = 0;
+        for token in tokens {
+            let location = token.get_location();
+            if location.start.line != line {
+                line = location.start.line;
+                column = 0;
+            }
+            columns.insert((line, location.start.character), column);
+            column += match token {
+                Token::Text(text, _) | Token::Module(text, _) | Token::Ident(text, _) => {
+                    text.encode_utf16().count() as u32
+                }
+                Token::EOF(_) => 0,
+                _ => 1,
+            };
+            columns.insert((line, location.end.character), column);
+        }
+        Self(columns)
+    }
+
+    pub(crate) fn get(&self, location: &LocationData) -> Position {
+        Position {
+            line: location.line as u32,
+            character: match self.0.get(&(location.line, location.character)) {
+                Some(column) => *column,
+                None => location.character as u32,
+            },
+        }
+    }
+}
diff --git a/crates/brack-language-server/src/request/semantic_tokens.rs b/crates/brack-language-server/src/request/semantic_tokens.rs
index a25f7aa..2e62552 100644
--- a/crates/brack-language-server/src/request/semantic_tokens.rs
+++ b/crates/brack-language-server/src/request/semantic_tokens.rs
@@ -2,7 +2,7 @@ use anyhow::Result;
 use brack_tokenizer::{tokenize::tokenize, tokens::Token};
 use lsp_types::{SemanticToken, SemanticTokenType, SemanticTokens, SemanticTokensParams};
 
-use crate::server::Server;
+use crate::{position::Positions, server::Server};
 
 fn token_kind_to_type(token: &Token) -> Option<u32> {
     let typ = match token {
@@ -49,29 +49,33 @@ fn separate(tokens: &Vec<Token>) -> Vec<SemanticToken> {
     let mut prev_line = 0;
     let mut prev_char = 0;
 
+    let positions = Positions::new(tokens);
+
     for token in tokens {
         let token_type = match token_kind_to_type(token) {
             Some(token_type) => token_type,
             None => continue,
         };
         let location = token.get_location();
-        let delta_line = location.start.line as u32 - prev_line;
+        let start = positions.get(&location.start);
+        let end = positions.get(&location.end);
+        let delta_line = start.line - prev_line;
         let delta_start = if delta_line == 0 {
-            location.start.character as u32 - prev_char
+            start.character - prev_char
         } else {
-            location.start.character as u32
+            start.character
         };
 
         semantic_tokens.push(SemanticToken {
             delta_line,
             delta_start,
-            length: (location.end.character - location.start.character) as u32,
+            length: end.character - start.character,
             token_type,
             token_modifiers_bitset: 0,
         });
 
-        prev_line = location.start.line as u32;
-        prev_char = location.start.character as u32;
+        prev_line = start.line;
+        prev_char = start.character;
     }
 
     semantic_tokens
-- 
2.43.0


From 3a6e65571ac836c357d11c1e4a26fe9ef6d08f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:45 +0000
Subject: [PATCH 34/43] fix: separators next to a mismatched bracket are text,
 not a panic

---
 crates/brack-transformer/src/stmt.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/brack-transformer/src/stmt.rs b/crates/brack-transformer/src/stmt.rs
index 25860dd..4364f20 100644
--- a/crates/brack-transformer/src/stmt.rs
+++ b/crates/brack-transformer/src/stmt.rs
@@ -1,4 +1,4 @@
-use brack_parser::cst::{InnerNode, CST};
+use brack_parser::cst::{new_text, InnerNode, CST};
 use uuid::Uuid;
 
 use crate::{error::TransformError, simplify, utils::remove_elements_not_included_ast};
@@ -25,7 +25,7 @@ pub fn simplify(cst: &CST) -> (CST, Vec<TransformError>) {
             _ => (),
         }
         let (cst, mut node_errors) = simplify::simplify(&child);
-        csts.push(cst);
+        csts.push(separators_to_text(cst));
         errors.append(&mut node_errors);
     }
 
@@ -40,3 +40,22 @@ pub fn simplify(cst: &CST) -> (CST, Vec<TransformError>) {
         errors,
     )
 }
+
+// Outside of a command, separators separate nothing. They can only be here next to a mismatched
+// bracket, which ends the command for the parser but not for the tokenizer.
+fn separators_to_text(cst: CST) -> CST {
+    let mut node = match cst {
+        CST::Expr(node) => node,
+        cst => return cst,
+    };
+    for child in node.children.iter_mut() {
+        let text = match child {
+            CST::Dot(_) => ".",
+            CST::Comma(_) => ",",
+            CST::Whitespace(_) => " ",
+            _ => continue,
+        };
+        *child = new_text(text.to_string(), child.location());
+    }
+    CST::Expr(node)
+}
-- 
2.43.0


From 2e06c49ba0b4f9b57485d42a45d3354308c0fe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 35/43] fix: a command without a name does not make a name of
 the text after it

---
 crates/brack-tokenizer/src/angle_bracket_close.rs  | 5 ++---
 crates/brack-tokenizer/src/curly_bracket_close.rs  | 1 +
 crates/brack-tokenizer/src/square_bracket_close.rs | 1 +
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index cb73c6a..50b5f85 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -31,8 +31,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
 
     // A macro can stand for the module of a command, whose identifier is still to come.
     let (next, _) = separate(&tail);
-    let looking_for_identifier =
-        (next == "." && angle_nest_count + other_nest_count > 0).then_some(true);
+    let looking_for_identifier = next == "." && angle_nest_count + other_nest_count > 0;
 
     tokens.push(Token::AngleBracketClose(Location {
         start: LocationData {
@@ -52,7 +51,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         pool: Some(String::new()),
         tokens: Some(tokens),
         angle_nest_count: Some(angle_nest_count),
-        looking_for_identifier,
+        looking_for_identifier: Some(looking_for_identifier),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/curly_bracket_close.rs b/crates/brack-tokenizer/src/curly_bracket_close.rs
index a1e5260..1e98d58 100644
--- a/crates/brack-tokenizer/src/curly_bracket_close.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_close.rs
@@ -44,6 +44,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         pool: Some(String::new()),
         tokens: Some(tokens),
         curly_nest_count: Some((curly_nest_count - 1).max(0)),
+        looking_for_identifier: Some(false),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/square_bracket_close.rs b/crates/brack-tokenizer/src/square_bracket_close.rs
index 424d5e9..a8d6189 100644
--- a/crates/brack-tokenizer/src/square_bracket_close.rs
+++ b/crates/brack-tokenizer/src/square_bracket_close.rs
@@ -44,6 +44,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         pool: Some(String::new()),
         tokens: Some(tokens),
         square_nest_count: Some((square_nest_count - 1).max(0)),
+        looking_for_identifier: Some(false),
         ..Default::default()
     };
     Ok(t.merge(&t2))
-- 
2.43.0


From c54daba39fcaee039c7a078a90ce550fb0f41121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:30 +0000
Subject: [PATCH 36/43] fix: report a trailing comma at the comma

---
 crates/brack-transformer/src/utils.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/brack-transformer/src/utils.rs b/crates/brack-transformer/src/utils.rs
index 431c745..c0f80e8 100644
--- a/crates/brack-transformer/src/utils.rs
+++ b/crates/brack-transformer/src/utils.rs
@@ -65,7 +65,7 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
     let mut errors = vec![];
     let mut new_csts = csts[0..4].to_vec(); // [AngleBracketOpen, Module, Dot, Ident
     let mut expr = new_expr();
-    let mut previous_comma = false;
+    let mut previous_comma = None;
     for i in 4..csts.len() {
         match csts[i].clone() {
             CST::Comma(_) => {
@@ -75,13 +75,13 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
                 }
                 new_csts.push(expr);
                 expr = new_expr();
-                previous_comma = true;
+                previous_comma = Some(csts[i].location());
             }
             CST::AngleBracketClose(_) | CST::CurlyBracketClose(_) | CST::SquareBracketClose(_) => {
                 if !expr.children().is_empty() {
                     new_csts.push(expr.clone());
-                } else if previous_comma {
-                    errors.push(TransformError::UnexpectedComma(csts[i - 1].location()));
+                } else if let Some(location) = previous_comma {
+                    errors.push(TransformError::UnexpectedComma(location));
                 }
                 expr = new_expr();
                 new_csts.push(csts[i].clone());
@@ -90,7 +90,7 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
             CST::Dot(_) => continue, // reported by check_unexpected_dot
             _ => {
                 expr.add(csts[i].clone());
-                previous_comma = false;
+                previous_comma = None;
             }
         }
     }
-- 
2.43.0


From 2553a507974104c0f7f816a6b5df72bbd9cd059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:34 +0000
Subject: [PATCH 37/43] fix: a name or text without a value is an error
 message, not a panic

---
 crates/brack-transformer/src/ast.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/brack-transformer/src/ast.rs b/crates/brack-transformer/src/ast.rs
index 5da4323..224851a 100644
--- a/crates/brack-transformer/src/ast.rs
+++ b/crates/brack-transformer/src/ast.rs
@@ -194,11 +194,26 @@ impl AST {
                 }
                 Ok(())
             }
-            AST::Ident(node) => writeln!(f, "{}Ident: {}", ident_str, node.value.as_ref().unwrap()),
+            AST::Ident(node) => writeln!(
+                f,
+                "{}Ident: {}",
+                ident_str,
+                node.value.as_deref().unwrap_or_default()
+            ),
             AST::Module(node) => {
-                writeln!(f, "{}Module: {}", ident_str, node.value.as_ref().unwrap())
+                writeln!(
+                    f,
+                    "{}Module: {}",
+                    ident_str,
+                    node.value.as_deref().unwrap_or_default()
+                )
             }
-            AST::Text(node) => writeln!(f, "{}Text: {}", ident_str, node.value.as_ref().unwrap()),
+            AST::Text(node) => writeln!(
+                f,
+                "{}Text: {}",
+                ident_str,
+                node.value.as_deref().unwrap_or_default()
+            ),
             AST::Invalid(_) => writeln!(f, "{}Invalid", ident_str),
             AST::Ignored(_) => writeln!(f, "{}Ignored", ident_str),
         }
-- 
2.43.0


From ea848168c131927e717951336da7c41f8172a9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 38/43] fix: compile takes the module name from the whole
 plugin file name

---
 src/main.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 07478bb..9d5b8ea 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -4,7 +4,6 @@ use anyhow::Result;
 use brack::sub_commands::SubCommands;
 use brack_plugin::{feature_flag::FeatureFlag, plugin::Plugin, plugins::Plugins};
 use clap::Parser;
-use regex::Regex;
 
 #[derive(Parser, Debug)]
 struct Args {
@@ -31,17 +30,25 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
         None => std::env::var("BRACK_PLUGINS_PATH").unwrap_or_default(),
     };
 
-    let pattern = Regex::new(r"(?<module_name>[[:alpha:]]+)_[[:alnum:]]+.wasm").unwrap();
     let entries = std::fs::read_dir(plugins_dir_path)?;
     for entry in entries {
         let entry = entry?;
         let path = entry.path();
-        let capture = pattern.captures(
-            path.to_str()
-                .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?,
-        );
-        if let Some(capture) = capture {
-            let module_name = capture.name("module_name").unwrap().as_str();
+        let file_name = entry.file_name();
+        let file_name = file_name
+            .to_str()
+            .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?;
+        // A plugin is stored as `<module name>_<hash>.wasm`.
+        let Some((module_name, hash)) = file_name
+            .strip_suffix(".wasm")
+            .and_then(|stem| stem.rsplit_once('_'))
+        else {
+            continue;
+        };
+        if !module_name.is_empty()
+            && !hash.is_empty()
+            && hash.chars().all(|c| c.is_ascii_alphanumeric())
+        {
             pathes.insert(module_name.to_string(), (path, FeatureFlag::default()));
         }
     }
-- 
2.43.0


From 36c4e7af1686b22a8b04d60e176c93c1cbea92fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:51 +0000
Subject: [PATCH 39/43] fix: new escapes the project name in Brack.toml

---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 9d5b8ea..6675026 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -146,14 +146,15 @@ fn new_project(name: &str) -> Result<()> {
         format!("{}/Brack.toml", name),
         format!(
             r#"[document]
-name = "{}"
+name = {}
 version = "0.1.0"
 backend = ""
 authors = ["your name <your email>"]
 
 [plugins]
 "#,
-            name
+            // JSON strings are TOML strings, but for this character.
+            serde_json::to_string(name)?.replace('\u{7f}', "\\u007F")
         ),
     )?;
     std::fs::write(
-- 
2.43.0


From ca2ae882c8acc55fe54022be261743605de6177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:11 +0000
Subject: [PATCH 40/43] fix: an interrupted write leaves neither half a plugin
 nor half of Brack.toml

---
 crates/brack-project-manager/src/file.rs    | 12 ++++++++++++
 crates/brack-project-manager/src/lib.rs     |  1 +
 crates/brack-project-manager/src/plugin.rs  |  3 ++-
 crates/brack-project-manager/src/project.rs |  3 ++-
 4 files changed, 17 insertions(+), 2 deletions(-)
 create mode 100644 crates/brack-project-manager/src/file.rs

diff --git a/crates/brack-project-manager/src/file.rs b/crates/brack-project-manager/src/file.rs
new file mode 100644
index 0000000..51e07be
--- /dev/null
+++ b/crates/brack-project-manager/src/file.rs
@@ -0,0 +1,12 @@
+use std::{fs, io, path::Path};
+
+// Writes the whole file, or leaves what was there before.
+pub(crate) fn write_whole(path: &Path, bytes: &[u8]) -> io::Result<()> {
+    let mut part = path.as_os_str().to_owned();
+    part.push(".part");
+    let result = fs::write(&part, bytes).and_then(|_| fs::rename(&part, path));
+    if result.is_err() {
+        let _ = fs::remove_file(&part);
+    }
+    result
+}
diff --git a/crates/brack-project-manager/src/lib.rs b/crates/brack-project-manager/src/lib.rs
index 20b99d4..ab1f50d 100644
--- a/crates/brack-project-manager/src/lib.rs
+++ b/crates/brack-project-manager/src/lib.rs
@@ -1,4 +1,5 @@
 pub mod config;
 pub mod document;
+mod file;
 pub mod plugin;
 pub mod project;
diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 34d2e56..4525eef 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -1,4 +1,5 @@
 use crate::config::Config;
+use crate::file::write_whole;
 use core::fmt;
 use sha2::{Digest, Sha256};
 use std::{collections::HashMap, fs::File, io, path::Path};
@@ -279,7 +280,7 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
         },
     );
     let toml = toml::to_string(&config)?;
-    std::fs::write("Brack.toml", toml)?;
+    write_whole(Path::new("Brack.toml"), toml.as_bytes())?;
 
     Ok(())
 }
diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 24bc22c..8504af9 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -1,4 +1,5 @@
 use crate::config::Config;
+use crate::file::write_whole;
 use crate::plugin::PluginSchema;
 use anyhow::Result;
 use brack_plugin::{feature_flag::FeatureFlag, plugin::Plugin, plugins::Plugins};
@@ -110,7 +111,7 @@ impl Project {
             for result in results {
                 let (name, path, bytes, flag) = result??;
                 std::fs::create_dir_all(self.root.join("plugins"))?;
-                std::fs::write(&path, &bytes)?;
+                write_whole(&path, &bytes)?;
                 self.plugins_metadata.insert(name, (path, flag));
             }
         }
-- 
2.43.0


From 970413653bf6f47ccb98988b580b4e450f158140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 41/43] fix: an escaped bracket is not coloured as a bracket

---
 .../brack-language-server/src/request/semantic_tokens.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/brack-language-server/src/request/semantic_tokens.rs b/crates/brack-language-server/src/request/semantic_tokens.rs
index 2e62552..21eab5d 100644
--- a/crates/brack-language-server/src/request/semantic_tokens.rs
+++ b/crates/brack-language-server/src/request/semantic_tokens.rs
@@ -51,10 +51,15 @@ fn separate(tokens: &Vec<Token>) -> Vec<SemanticToken> {
 
     let positions = Positions::new(tokens);
 
+    // A character that is escaped by a backslash is text.
+    let mut escaped = false;
+
     for token in tokens {
+        let was_escaped = escaped && !matches!(token, Token::Module(_, _) | Token::Ident(_, _));
+        escaped = !was_escaped && matches!(token, Token::BackSlash(_));
         let token_type = match token_kind_to_type(token) {
-            Some(token_type) => token_type,
-            None => continue,
+            Some(token_type) if !was_escaped => token_type,
+            _ => continue,
         };
         let location = token.get_location();
         let start = positions.get(&location.start);
-- 
2.43.0


From 1ea148ba6e0d5df594c1c3d6c9797c1ccf2767a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 42/43] fix: completions escape a dollar sign in a name

---
 .../brack-language-server/src/request/completion.rs   | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/brack-language-server/src/request/completion.rs b/crates/brack-language-server/src/request/completion.rs
index 5888ccf..ee17ed0 100644
--- a/crates/brack-language-server/src/request/completion.rs
+++ b/crates/brack-language-server/src/request/completion.rs
@@ -10,14 +10,17 @@ fn build_completion_item(
     typ: &Type,
     command_metadata: &Metadata,
 ) -> CompletionItem {
+    // A dollar sign in a snippet is written with a backslash.
+    let label = format!("{}.{}", module_name, name);
+    let command = label.replace('$', "\\$");
     let insert_text = Some(match typ {
-        Type::TInline => format!("{}.{} $0]", module_name, name),
-        Type::TBlock => format!("{}.{} $0}}", module_name, name),
-        Type::TAST => format!("{}.{} $0>", module_name, name),
+        Type::TInline => format!("{} $0]", command),
+        Type::TBlock => format!("{} $0}}", command),
+        Type::TAST => format!("{} $0>", command),
         _ => panic!("Invalid type"),
     });
     CompletionItem {
-        label: format!("{}.{}", module_name, name),
+        label,
         detail: Some(format!(
             "Argument Types: {:?}\nReturn Type: {:?}",
             command_metadata.argument_types, command_metadata.return_type
-- 
2.43.0


From 132c44c41e553555aa130af1d192dbff870a9a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:55 +0000
Subject: [PATCH 43/43] fix: tokenizing takes time in proportion to the
 document

---
 crates/brack-tokenizer/src/dispatch.rs | 55 ++++++++++++++------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index ad33b2c..c36a8b2 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -8,17 +8,33 @@ use crate::{
     whitespace,
 };
 use anyhow::Result;
+use unicode_segmentation::UnicodeSegmentation;
 
 pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
     let mut t = t.clone();
-    while !is_end(&t)? {
-        t = step(&t)?;
-    }
-
+    let untreated = t
+        .untreated
+        .take()
+        .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
     let mut tokens = t
         .tokens
-        .clone()
+        .take()
         .ok_or_else(|| anyhow::anyhow!("`t.tokens` is not set"))?;
+
+    // A step looks at two characters at most and only adds tokens, so it is given nothing else:
+    // otherwise the whole document would be copied for each of its characters.
+    let mut rest = &untreated[..];
+    while !rest.is_empty() {
+        let next: String = rest.graphemes(true).take(2).collect();
+        let len = next.len();
+        t.untreated = Some(next);
+        t.tokens = Some(vec![]);
+        t = step(t)?;
+        let left = t.untreated.as_ref().map_or(0, |s| s.len());
+        rest = &rest[len - left..];
+        tokens.append(t.tokens.get_or_insert_with(Vec::new));
+    }
+
     let line = t
         .line
         .ok_or_else(|| anyhow::anyhow!("`t.line` is not set"))?;
@@ -38,24 +54,13 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
     Ok(tokens)
 }
 
-fn is_end(t: &Tokenizer) -> Result<bool> {
-    let s = t
-        .untreated
-        .as_ref()
-        .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
-    Ok(s.is_empty())
-}
-
 // Consumes one character; the caller loops so that the stack does not grow with the document.
-fn step(t: &Tokenizer) -> Result<Tokenizer> {
+fn step(mut tokenizer: Tokenizer) -> Result<Tokenizer> {
+    let t = &tokenizer;
     let s = t
         .untreated
         .clone()
         .ok_or_else(|| anyhow::anyhow!("`t.untreated` is not set"))?;
-    let pool = t
-        .pool
-        .clone()
-        .ok_or_else(|| anyhow::anyhow!("`t.pool` is not set"))?;
     let column = t
         .column
         .ok_or_else(|| anyhow::anyhow!("`t.column` is not set"))?;
@@ -100,13 +105,13 @@ fn step(t: &Tokenizer) -> Result<Tokenizer> {
         (_, ".") if nested => text::tokenize(t),
         (_, ">") | (_, "]") | (_, "}") | (_, "\\") => text::tokenize(t),
         _ => {
-            let t2 = Tokenizer {
-                column: Some(column + 1),
-                untreated: Some(tail),
-                pool: Some(format!("{}{}", pool, head)),
-                ..Default::default()
-            };
-            Ok(t.merge(&t2))
+            tokenizer.column = Some(column + 1);
+            tokenizer.untreated = Some(tail);
+            tokenizer
+                .pool
+                .get_or_insert_with(String::new)
+                .push_str(&head);
+            Ok(tokenizer)
         }
     }
 }
-- 
2.43.0

