From af7ac0b2e8633f78b5552875773f84af2971a831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 01/31] fix: stage 1 keeps the bracket kind of a group

`(a)` and `[a]` outside a command argument were parsed as `{a}`.
---
 src/ast1/document.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 60f1691..da6d2fd 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -300,11 +300,13 @@ impl FromStr for Document {
                         crate::ErrorType::UnclosedScope(*variant),
                     ))
                 }
-                Buffer::Scope { content, .. } => chunks.push(Chunk::new_unchecked(
+                Buffer::Scope {
+                    content, variant, ..
+                } => chunks.push(Chunk::new_unchecked(
                     buffer_line_no,
                     ChunkVariant::Scope(Scope::new_unchecked(
                         eval_scope!(content),
-                        ScopeVariant::Curly,
+                        *variant,
                     )),
                 )),
                 Buffer::Command { depth, scopes, .. } if *depth != 0 => {
-- 
2.43.0


From b9f5917741d68b9ef5bc1709b3af7ecd69080fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 02/31] fix: stage 1 keeps brackets nested in a command
 argument

`\a{b{c}d}` was parsed as `\a{bcd}`.
---
 src/ast1/document.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index da6d2fd..64b5a10 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -457,8 +457,16 @@ impl FromStr for Document {
                         buffer_line_no =
                             line_no - trailing.chars().filter(|c| *c == '\n').count() as u32;
                     }
-                    c if *depth != 0 && scopes.last().unwrap().1.open() == c => *depth += 1,
-                    c if *depth != 0 && scopes.last().unwrap().1.close() == c => *depth -= 1,
+                    c if *depth != 0 && scopes.last().unwrap().1.open() == c => {
+                        *depth += 1;
+                        buffer.push(c)
+                    }
+                    c if *depth != 0 && scopes.last().unwrap().1.close() == c => {
+                        *depth -= 1;
+                        if *depth != 0 {
+                            buffer.push(c)
+                        }
+                    }
                     c if *depth == 0 && ScopeVariant::is_closing(c) => {
                         return Err(crate::Error::new(
                             line_no,
-- 
2.43.0


From f3d737fc27d44035051079b00316bf604e61bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 03/31] fix: stage 1 honours an escape right after a command

In `\a\{` the escaped bracket opened an argument, and in `\a\ b` the
escaped space lost its backslash.
---
 src/ast1/document.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 64b5a10..06ca2e4 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -414,10 +414,10 @@ impl FromStr for Document {
                     trailing,
                     ..
                 } => match c {
-                    c if *depth == 0 && ScopeVariant::is_opening(c) => {
+                    c if *depth == 0 && !escaped && ScopeVariant::is_opening(c) => {
                         buffer.push_scope(ScopeVariant::from_opening(c))
                     }
-                    c if *depth == 0 && c.is_whitespace() => trailing.push(c),
+                    c if *depth == 0 && !escaped && c.is_whitespace() => trailing.push(c),
                     c if *depth == 0 && escaped => {
                         let trailing = trailing.clone();
                         flush!();
-- 
2.43.0


From 4e5126d5c64f6e1e08bbf10858f90fe8f134d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 04/31] fix: stage 1 ignores backslashes inside a comment

A backslash in a comment escaped the line break that ends the comment,
so `% \\a` followed by a new line became a command.
---
 src/ast1/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 06ca2e4..a1a9552 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -358,6 +358,7 @@ impl FromStr for Document {
                     comment = false;
                     line_no += 1
                 }
+                _ if comment => continue,
                 '%' if !escaped => {
                     comment = true;
                     continue;
@@ -366,7 +367,6 @@ impl FromStr for Document {
                     escaped = true;
                     continue;
                 }
-                _ if comment => continue,
                 _ => {}
             }
 
-- 
2.43.0


From 7dc8e1d7ca594a7080189f574647297b852c3346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 05/31] fix: stage 1 line number of whitespace after a final
 command

The text chunk in `\a` + line break carried the line it ends in instead
of the line it starts in.
---
 src/ast1/document.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index a1a9552..5df906a 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -494,6 +494,7 @@ impl FromStr for Document {
                 flush!();
                 buffer = Buffer::text();
                 buffer.push_str(&trailing);
+                buffer_line_no = line_no - trailing.chars().filter(|c| *c == '\n').count() as u32;
                 flush!();
             }
             _ => {
-- 
2.43.0


From 07b49f22753c2ccfe3599230f562be788ddaffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 06/31] fix: stage 1 line number of an escaped line break

The command in `\` + line break starts in the line of its backslash, it
carried the number of the line after it.
---
 src/ast1/document.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 5df906a..8393da7 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -374,6 +374,7 @@ impl FromStr for Document {
                 Buffer::Text { .. } => match c {
                     c if escaped => {
                         flush!();
+                        buffer_line_no = line_no - (c == '\n') as u32;
                         buffer = Buffer::command();
                         buffer.push(c);
 
@@ -421,6 +422,7 @@ impl FromStr for Document {
                     c if *depth == 0 && escaped => {
                         let trailing = trailing.clone();
                         flush!();
+                        buffer_line_no = line_no - (c == '\n') as u32;
 
                         if !trailing.is_empty() {
                             buffer = Buffer::text();
@@ -434,8 +436,6 @@ impl FromStr for Document {
                             )?;
                         }
 
-                        buffer_line_no = line_no;
-
                         buffer = Buffer::command();
                         buffer.push(c);
                         if !c.is_ascii_alphabetic() {
-- 
2.43.0


From c861c7a2bc75a8f54a3f8173e634041f442bd3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 07/31] fix: stage 1 line number of an error inside a command
 argument

The lines between the command and the argument were not counted.
---
 src/ast1/document.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 8393da7..57b47b7 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -280,12 +280,6 @@ impl FromStr for Document {
             buffer_line_no: u32,
             chunks: &mut Vec<Chunk>,
         ) -> Result<(), crate::Error> {
-            macro_rules! eval_scope {
-                ($i:ident) => {
-                    Document::from_str($i)?.chunks_owned()
-                };
-            }
-
             match buffer {
                 Buffer::Text { ref mut content } if !content.is_empty() => {
                     chunks.push(Chunk::new_unchecked(
@@ -305,7 +299,7 @@ impl FromStr for Document {
                 } => chunks.push(Chunk::new_unchecked(
                     buffer_line_no,
                     ChunkVariant::Scope(Scope::new_unchecked(
-                        eval_scope!(content),
+                        Document::from_str(content)?.chunks_owned(),
                         *variant,
                     )),
                 )),
@@ -317,11 +311,19 @@ impl FromStr for Document {
                 }
                 Buffer::Command { label, scopes, .. } => {
                     let mut arguments = Vec::with_capacity(scopes.len());
+                    let mut offset = label.chars().filter(|c| *c == '\n').count() as u32;
 
                     for (content, variant, preceding) in scopes.iter_mut() {
+                        offset += preceding.chars().filter(|c| *c == '\n').count() as u32;
+                        let parsed = Document::from_str(content).map_err(|mut e| {
+                            e.line += offset;
+                            e
+                        })?;
+                        offset += content.chars().filter(|c| *c == '\n').count() as u32;
+
                         arguments.push((
                             std::mem::take(preceding),
-                            Scope::new_unchecked(eval_scope!(content), *variant),
+                            Scope::new_unchecked(parsed.chunks_owned(), *variant),
                         ))
                     }
 
-- 
2.43.0


From bcb5c1c8d0294038b43146ba6f97f7e6ac27f5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 08/31] fix: stage 1 keeps a lone backslash at the end of
 document

It was dropped without an error.
---
 src/ast1/document.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 57b47b7..13ab42d 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -504,6 +504,14 @@ impl FromStr for Document {
             }
         }
 
+        // a lone backslash at the end of document is a command without a name
+        if escaped {
+            chunks.push(Chunk::new_unchecked(
+                line_no,
+                ChunkVariant::Command(Command::new_unchecked(String::new(), Vec::new())),
+            ))
+        }
+
         Ok(Self(chunks))
     }
 }
-- 
2.43.0


From 06bce2bef5da47b5320b79100b78eeaf56240c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 09/31] fix: stage 2 line number of an error inside a scope or
 environment

The line reported was one more than the line of the error.
---
 src/ast2/document.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index d51c0e8..1575e9c 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -226,7 +226,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                     match $x {
                         Ok(k) => k,
                         Err(mut e) => {
-                            e.line += line_no;
+                            e.line += line_no - 1;
                             return Err(e);
                         }
                     }
@@ -238,7 +238,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                     match $x {
                         Ok(k) => k,
                         Err(mut e) => {
-                            e.line += buffer_start;
+                            e.line += buffer_start - 1;
                             return Err(e);
                         }
                     }
-- 
2.43.0


From f94999a68682356a1b8df88fb4d34e85f3aa3843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 10/31] fix: stage 2 line number of an environment with a
 multi-line `\begin`

An environment carried the line its content starts in, instead of the
line its first character is in.
---
 src/ast2/chunk.rs    | 8 +++++---
 src/ast2/document.rs | 7 +++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ast2/chunk.rs b/src/ast2/chunk.rs
index 050cd31..0270d6b 100644
--- a/src/ast2/chunk.rs
+++ b/src/ast2/chunk.rs
@@ -42,10 +42,9 @@ impl ast1::IntoChunks for Chunk {
                         s.chars().filter(|c| c == &'\n').count()
                     }
 
-                    let end_line_no = self.line_no
+                    let content_line_no = self.line_no
                         + (lines(&prec_begin)
                             + label.chars().filter(|c| c == &'\n').count()
-                            + lines(&Document::new_unchecked(content.clone()).to_string())
                             + args
                                 .iter()
                                 .map(|(prec, arg)| {
@@ -60,6 +59,9 @@ impl ast1::IntoChunks for Chunk {
                                 })
                                 .sum::<usize>()) as u32;
 
+                    let end_line_no = content_line_no
+                        + lines(&Document::new_unchecked(content.clone()).to_string()) as u32;
+
                     let label = ast1::Scope::new_unchecked(
                         ast1::Document::from_str(&label).unwrap().chunks_owned(),
                         ast1::ScopeVariant::Curly,
@@ -80,7 +82,7 @@ impl ast1::IntoChunks for Chunk {
                     )]
                     .into_iter()
                     .chain(content.into_iter().flat_map(|mut chunk| {
-                        chunk.line_no += self.line_no - 1;
+                        chunk.line_no += content_line_no - 1;
                         chunk.into_chunks()
                     }))
                     .chain(
diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index 1575e9c..36f72be 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -202,6 +202,7 @@ impl TryFrom<crate::ast1::Document> for Document {
 
         let mut buffer_stack = Vec::new();
         let mut buffer_start = 0;
+        let mut env_line_no = 0;
         let mut env_args = Vec::new();
         let mut buffer: Vec<ast1::Chunk> = Vec::new();
         let mut prec_begin = String::new();
@@ -284,6 +285,8 @@ impl TryFrom<crate::ast1::Document> for Document {
                             if buffer_stack.len() == 1 {
                                 // was empty
 
+                                env_line_no = line_no;
+
                                 fn lines(s: &str) -> usize {
                                     s.chars().filter(|c| c == &'\n').count()
                                 }
@@ -336,7 +339,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                                 }
 
                                 chunks.push(Chunk::new_unchecked(
-                                    buffer_start,
+                                    env_line_no,
                                     ChunkVariant::Environment(Environment::new_unchecked(
                                         ast1::Document::new_unchecked(label.chunks_owned())
                                             .to_string(),
@@ -361,7 +364,7 @@ impl TryFrom<crate::ast1::Document> for Document {
 
         if let Some(label) = buffer_stack.first() {
             return Err(crate::Error::new(
-                buffer_start,
+                env_line_no,
                 crate::ErrorType::UnclosedEnvironment(
                     ast1::Document::new_unchecked(label.clone()).to_string(),
                 ),
-- 
2.43.0


From 48430016d4abec0fc784c23590cd862710001609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 11/31] fix: stage 2 line number of an error inside an argument

Errors inside the arguments of a command or environment carried a line
relative to the argument instead of the document.
---
 src/ast2/command.rs  | 12 +++++++++++-
 src/ast2/document.rs | 19 ++++++++++++++++---
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/ast2/command.rs b/src/ast2/command.rs
index 21dfafe..4294f43 100644
--- a/src/ast2/command.rs
+++ b/src/ast2/command.rs
@@ -83,9 +83,19 @@ impl TryFrom<crate::ast1::Command> for Command {
         let (label, arguments_o) = value.decompose();
 
         let mut arguments = Vec::with_capacity(arguments_o.len());
+        let mut offset = label.chars().filter(|c| c == &'\n').count() as u32;
 
         for (prec, scope) in arguments_o {
-            arguments.push((prec, scope.try_into()?))
+            offset += prec.chars().filter(|c| c == &'\n').count() as u32;
+            let scope_lines = scope.lines();
+            arguments.push((
+                prec,
+                Scope::try_from(scope).map_err(|mut e| {
+                    e.line += offset;
+                    e
+                })?,
+            ));
+            offset += scope_lines - 1;
         }
 
         Ok(Self { label, arguments })
diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index 36f72be..38d90e7 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -4,7 +4,7 @@ use crate::{
     InternalError,
 };
 
-use super::{Chunk, ChunkVariant, Environment, IntoChunks};
+use super::{Chunk, ChunkVariant, Environment, IntoChunks, Scope};
 
 use std::{fmt::Display, mem, str::FromStr};
 
@@ -258,7 +258,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                 ast1::ChunkVariant::Command(c) => {
                     if !matches!(c.label().as_str(), "begin" | "end") {
                         if buffer_stack.is_empty() {
-                            push_chunks!(ChunkVariant::Command(c.try_into()?));
+                            push_chunks!(ChunkVariant::Command(map_e!(c.try_into())));
                         } else {
                             push_buffer!(ast1::ChunkVariant::Command(c));
                         }
@@ -333,9 +333,22 @@ impl TryFrom<crate::ast1::Document> for Document {
                                 let arguments = std::mem::take(&mut env_args);
 
                                 let mut args_new = Vec::with_capacity(arguments.len());
+                                let mut arg_line_no = env_line_no + label.lines() - 1;
+                                arg_line_no +=
+                                    prec_begin.chars().filter(|c| c == &'\n').count() as u32;
 
                                 for (prec, scope) in arguments {
-                                    args_new.push((prec, scope.try_into()?))
+                                    arg_line_no +=
+                                        prec.chars().filter(|c| c == &'\n').count() as u32;
+                                    let scope_lines = scope.lines();
+                                    args_new.push((
+                                        prec,
+                                        Scope::try_from(scope).map_err(|mut e| {
+                                            e.line += arg_line_no - 1;
+                                            e
+                                        })?,
+                                    ));
+                                    arg_line_no += scope_lines - 1;
                                 }
 
                                 chunks.push(Chunk::new_unchecked(
-- 
2.43.0


From 908ed54ba113906d2395bbc0fba6eec92cf64e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 12/31] fix: line numbers of a stage 2 document made from stage
 3

The document environment was numbered one line too low, its content was
shifted by the lines of its arguments, and the subtraction for the
trailing chunks panicked on a document of one line.
---
 src/ast2/document.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index 38d90e7..08742c7 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -150,21 +150,12 @@ impl From<ast3::Document> for Document {
 
         let mut out = Document::new_unchecked(preamable);
 
-        let body_offset = body_args
-            .iter()
-            .map(|(s, arg)| s.chars().filter(|c| c == &'\n').count() as u32 + arg.lines() - 1)
-            .sum::<u32>()
-            + body_begin_prec.chars().filter(|c| c == &'\n').count() as u32;
         let body_chunks = body
             .into_iter()
             .flat_map(ast3::Chunk::into_chunks)
-            .map(|mut chunk| {
-                *chunk.line_no_mut() += body_offset;
-                chunk
-            })
             .collect::<Vec<_>>();
         let body = Chunk::new_unchecked(
-            prem_lines,
+            prem_lines + 1,
             ChunkVariant::Environment(Environment::new_unchecked(
                 "document".to_string(),
                 body_args
@@ -177,7 +168,7 @@ impl From<ast3::Document> for Document {
             )),
         );
 
-        let trailing_offset = body.lines() + prem_lines - 2;
+        let trailing_offset = body.lines() + prem_lines - 1;
 
         out.push_chunk_unchecked(body);
 
-- 
2.43.0


From 7b4eb92fd1d7a7cef26f7d5617c3572db215fafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 13/31] fix: stage 3 line number of a paragraph break

A third newline in a break moved the start of the break to that line.
---
 src/ast3/paragraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast3/paragraph.rs b/src/ast3/paragraph.rs
index 588a649..a7c3684 100644
--- a/src/ast3/paragraph.rs
+++ b/src/ast3/paragraph.rs
@@ -33,7 +33,10 @@ impl Paragraph {
                             buffer.push(c);
                         }
                         '\n' => {
-                            buffer_line = line_no;
+                            if consec_newlines == 0 {
+                                buffer_line = line_no;
+                            }
+
                             consec_newlines += 1;
                             line_no += 1;
 
-- 
2.43.0


From cec3eeaa59feec51b697ce61fd6d5546d3e9e32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 14/31] fix: stage 3 keeps maths brackets nested in maths
 brackets

`\(a\(b\)c\)` lost the inner `\(` and `\)`.
---
 src/ast3/mathsblock.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 9463944..8159ce0 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -109,13 +109,21 @@ impl MathsBlock {
                     if cmd.label() == "("
                         && mode == MathsMode::SingleDollar(MathsVariant::Brackets) =>
                 {
-                    depth += 1
+                    depth += 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == "["
                         && mode == MathsMode::DoubleDollar(MathsVariant::Brackets) =>
                 {
-                    depth += 1
+                    depth += 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == ")"
@@ -153,13 +161,21 @@ impl MathsBlock {
                     if cmd.label() == ")"
                         && mode == MathsMode::SingleDollar(MathsVariant::Brackets) =>
                 {
-                    depth -= 1
+                    depth -= 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == "]"
                         && mode == MathsMode::DoubleDollar(MathsVariant::Brackets) =>
                 {
-                    depth -= 1
+                    depth -= 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Scope(s) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
-- 
2.43.0


From 3796ac49d4432910d55cabb31e3e452bb1a09d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 15/31] fix: stage 3 keeps text inside dollars in the maths
 block

In `$a{b}$` the `a` was moved in front of the maths block.
---
 src/ast3/mathsblock.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 8159ce0..86438a6 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -209,10 +209,17 @@ impl MathsBlock {
                     macro_rules! push_str {
                         () => {
                             if !text_buffer.is_empty() {
-                                out.push(Chunk::new_unchecked(
-                                    text_buffer_line,
-                                    ChunkVariant::Text(std::mem::take(&mut text_buffer)),
-                                ))
+                                if mode == MathsMode::None {
+                                    out.push(Chunk::new_unchecked(
+                                        text_buffer_line,
+                                        ChunkVariant::Text(std::mem::take(&mut text_buffer)),
+                                    ))
+                                } else {
+                                    buffer.push(ast2::Chunk::new_unchecked(
+                                        text_buffer_line,
+                                        ast2::ChunkVariant::Text(std::mem::take(&mut text_buffer)),
+                                    ))
+                                }
                             }
                         };
                     }
-- 
2.43.0


From acfb6ddb42a4989a80371af170a7e234ca62f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 16/31] fix: stage 3 line number of dollar maths

The block took the line of its last piece of text, and `${\n\n}$`
underflowed.
---
 src/ast3/mathsblock.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 86438a6..684a6e0 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -234,6 +234,7 @@ impl MathsBlock {
                                 MathsMode::None => {
                                     push_str!();
                                     mode = MathsMode::SingleDollar(MathsVariant::Dollars);
+                                    buffer_line = cursor_line_no;
                                     text_buffer_line = cursor_line_no;
                                 }
                                 MathsMode::SingleDollar(MathsVariant::Dollars)
@@ -257,7 +258,7 @@ impl MathsBlock {
                                     }
 
                                     out.push(Chunk::new_unchecked(
-                                        text_buffer_line,
+                                        buffer_line,
                                         ChunkVariant::MathsBlock(MathsBlock::new_unchecked(
                                             MathsVariant::Dollars,
                                             MathsType::Outline,
@@ -265,8 +266,7 @@ impl MathsBlock {
                                                 std::mem::take(&mut buffer)
                                                     .into_iter()
                                                     .map(|mut chunk| {
-                                                        *chunk.line_no_mut() -=
-                                                            text_buffer_line - 1;
+                                                        *chunk.line_no_mut() -= buffer_line - 1;
                                                         chunk
                                                     })
                                                     .collect(),
@@ -289,7 +289,7 @@ impl MathsBlock {
                                     }
 
                                     out.push(Chunk::new_unchecked(
-                                        text_buffer_line,
+                                        buffer_line,
                                         ChunkVariant::MathsBlock(MathsBlock::new_unchecked(
                                             MathsVariant::Dollars,
                                             MathsType::Inline,
@@ -297,8 +297,7 @@ impl MathsBlock {
                                                 std::mem::take(&mut buffer)
                                                     .into_iter()
                                                     .map(|mut chunk| {
-                                                        *chunk.line_no_mut() -=
-                                                            text_buffer_line - 1;
+                                                        *chunk.line_no_mut() -= buffer_line - 1;
                                                         chunk
                                                     })
                                                     .collect(),
-- 
2.43.0


From fbccd7e9067bc8d5b90ba70e1d7447d9edb98383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 17/31] fix: stage 3 line numbers inside maths brackets

They were not relative to the maths block.
---
 src/ast3/mathsblock.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 684a6e0..a000370 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -137,7 +137,15 @@ impl MathsBlock {
                         ChunkVariant::MathsBlock(Self::new_unchecked(
                             MathsVariant::Brackets,
                             MathsType::Inline,
-                            Self::from_chunks(std::mem::take(&mut buffer))?,
+                            Self::from_chunks(
+                                std::mem::take(&mut buffer)
+                                    .into_iter()
+                                    .map(|mut chunk| {
+                                        *chunk.line_no_mut() -= buffer_line - 1;
+                                        chunk
+                                    })
+                                    .collect(),
+                            )?,
                         )),
                     ))
                 }
@@ -153,7 +161,15 @@ impl MathsBlock {
                         ChunkVariant::MathsBlock(Self::new_unchecked(
                             MathsVariant::Brackets,
                             MathsType::Outline,
-                            Self::from_chunks(std::mem::take(&mut buffer))?,
+                            Self::from_chunks(
+                                std::mem::take(&mut buffer)
+                                    .into_iter()
+                                    .map(|mut chunk| {
+                                        *chunk.line_no_mut() -= buffer_line - 1;
+                                        chunk
+                                    })
+                                    .collect(),
+                            )?,
                         )),
                     ))
                 }
-- 
2.43.0


From a07a2d6dd0fb021fcd9e63b8ed44e398456426c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 18/31] fix: stage 3 rejects `$$` closed by a single `$`

`$$a$b$$` was accepted and lost a `$`.
---
 src/ast3/mathsblock.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index a000370..64d62ad 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -245,6 +245,13 @@ impl MathsBlock {
                             cursor_line_no += 1
                         }
 
+                        if mode == MathsMode::DoubleClosing && c != '$' {
+                            return Err(crate::Error::new(
+                                buffer_line,
+                                crate::ErrorType::UnclosedMaths,
+                            ));
+                        }
+
                         if c == '$' {
                             match mode {
                                 MathsMode::None => {
@@ -333,6 +340,12 @@ impl MathsBlock {
 
                     push_str!()
                 }
+                _ if mode == MathsMode::DoubleClosing => {
+                    return Err(crate::Error::new(
+                        buffer_line,
+                        crate::ErrorType::UnclosedMaths,
+                    ))
+                }
                 _ => buffer.push(ast2::Chunk::new_unchecked(line_no, variant)),
             }
         }
-- 
2.43.0


From 4dab6f5e705225e456184dcd132a88b55df38831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 19/31] fix: stage 3 prints what precedes the label of
 `\end{document}`

It printed what precedes the label of `\begin{document}` instead.
---
 src/ast3/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 1d2944a..0efd58e 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -479,7 +479,7 @@ impl Display for Document {
                         ChunkVariant::Command(Command::new_unchecked(
                             "end".to_string(),
                             vec![(
-                                self.body_begin_prec.clone(),
+                                self.body_end_prec.clone(),
                                 Scope::new_unchecked(
                                     vec![Chunk::new_unchecked(
                                         1,
-- 
2.43.0


From 002b70ca0d7b4828a56210664464598861efada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 20/31] fix: stage 3 document counts the lines of its `\begin`
 and `\end`

---
 src/ast3/document.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 0efd58e..2863055 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -61,6 +61,19 @@ impl Lines for Document {
             .chain(self.trailing.iter())
             .map(|chunk| chunk.lines() - 1)
             .sum::<u32>()
+            + self
+                .body_args
+                .iter()
+                .map(|(prec, arg)| {
+                    prec.chars().filter(|c| c == &'\n').count() as u32 + arg.lines() - 1
+                })
+                .sum::<u32>()
+            + self
+                .body_begin_prec
+                .chars()
+                .chain(self.body_end_prec.chars())
+                .filter(|c| c == &'\n')
+                .count() as u32
             + 1
     }
 }
-- 
2.43.0


From 72a05cbef35c9b749d529811d93242d49e26d58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 21/31] fix: stage 3 line numbers after `\end{document}`

They were not relative to the section, as `validate` and the conversion back
to stage 2 expect.
---
 src/ast3/document.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 2863055..7444d64 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -289,6 +289,7 @@ impl TryFrom<ast2::Document> for Document {
 
         let mut preamable = Vec::new();
         let mut trailing = Vec::new();
+        let mut trailing_offset = 0;
 
         #[derive(PartialEq)]
         enum CursorState {
@@ -303,6 +304,7 @@ impl TryFrom<ast2::Document> for Document {
 
             match variant {
                 ast2::ChunkVariant::Environment(env) if env.label().as_str() == "document" => {
+                    trailing_offset = line_no + env.lines() - 2;
                     let (_, args, content, begin, end) = Environment::try_from(env)?.decompose();
                     construct.body_args = args;
                     construct.body = content;
@@ -439,7 +441,10 @@ impl TryFrom<ast2::Document> for Document {
                 _ if cursor == CursorState::Preamable => {
                     preamable.push(ast2::Chunk::new_unchecked(line_no, variant))
                 }
-                _ => trailing.push(ast2::Chunk::new_unchecked(line_no, variant)),
+                _ => trailing.push(ast2::Chunk::new_unchecked(
+                    line_no - trailing_offset,
+                    variant,
+                )),
             }
         }
 
-- 
2.43.0


From 787f100d5beff0b9f9bf70e2a98a8cacdf05a27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 22/31] fix: documentclass options keep their first character

---
 src/ast3/document.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 7444d64..1c6682e 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -359,6 +359,7 @@ impl TryFrom<ast2::Document> for Document {
                                             BufferMode::Prec => {
                                                 prec.push_str(&buffer);
                                                 buffer.clear();
+                                                arg.push(c);
                                                 buffermode = BufferMode::Arg;
                                             }
                                             BufferMode::Arg if !c.is_whitespace() => arg.push(c),
-- 
2.43.0


From 4c9a39f95540286b99ab6b4ad261ed9031afc1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 23/31] fix: documentclass options keep the value of a
 key-value pair

The value was read from the key.
---
 src/ast3/document.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 1c6682e..6a4b05b 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -412,11 +412,11 @@ impl TryFrom<ast2::Document> for Document {
                                         {
                                             let mut val_started = false;
 
-                                            for c in k.chars() {
+                                            for c in v.chars() {
                                                 if c.is_whitespace() && !val_started {
                                                     equal_post.push(c)
                                                 } else {
-                                                    if val_started {
+                                                    if !val_started {
                                                         val_started = true;
                                                     }
 
-- 
2.43.0


From 64e3ab6739a270bbc4fadfbdc61bc33755d89456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 24/31] fix: stage 3 checked push validates the merged text

Pushing `a\n` then `\nb` built an unbroken paragraph, which does not validate.
---
 src/ast3/document.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 6a4b05b..aa1ecce 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -158,6 +158,19 @@ impl Document {
         vec.push(chunk)
     }
 
+    /// Checks the Text made by merging a variant into the last chunk, if they are both Text
+    fn validate_merge(vec: &[Chunk], variant: &ChunkVariant) -> Result<(), InternalError> {
+        if let ChunkVariant::Text(s) = variant {
+            if let Some(last) = vec.last() {
+                if let ChunkVariant::Text(last_s) = last.variant() {
+                    return ChunkVariant::Text(format!("{last_s}{s}")).validate();
+                }
+            }
+        }
+
+        Ok(())
+    }
+
     /// Push a Chunk to a `Vec<Chunk>`
     fn push_chunk_vec(vec: &mut Vec<Chunk>, chunk: Chunk) -> Result<(), InternalError> {
         chunk.validate()?;
@@ -174,6 +187,8 @@ impl Document {
             });
         }
 
+        Self::validate_merge(vec, chunk.variant())?;
+
         Self::push_chunk_vec_unchecked(vec, chunk);
         Ok(())
     }
@@ -190,6 +205,7 @@ impl Document {
     /// Push a ChunkVariant to a `Vec<Chunk>`
     fn push_vec(vec: &mut Vec<Chunk>, variant: ChunkVariant) -> Result<(), InternalError> {
         variant.validate()?;
+        Self::validate_merge(vec, &variant)?;
         Self::push_vec_unchecked(vec, variant);
         Ok(())
     }
-- 
2.43.0


From 7f8a375fced8de2f2e6019ed08f5ae7db716ef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 25/31] fix: stage 3 line number of an error inside a command
 or environment

---
 src/ast3/command.rs     | 12 +++++++++++-
 src/ast3/environment.rs | 21 +++++++++++++++++++--
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/ast3/command.rs b/src/ast3/command.rs
index 48ccd85..8351a71 100644
--- a/src/ast3/command.rs
+++ b/src/ast3/command.rs
@@ -68,9 +68,19 @@ impl TryFrom<ast2::Command> for Command {
         let (label, args) = value.decompose();
 
         let mut args_new = Vec::with_capacity(args.len());
+        let mut offset = label.chars().filter(|c| c == &'\n').count() as u32;
 
         for (prec, scope) in args {
-            args_new.push((prec, scope.try_into()?));
+            offset += prec.chars().filter(|c| c == &'\n').count() as u32;
+            let scope_lines = scope.lines();
+            args_new.push((
+                prec,
+                Scope::try_from(scope).map_err(|mut e| {
+                    e.line += offset;
+                    e
+                })?,
+            ));
+            offset += scope_lines - 1;
         }
 
         Ok(Self::new_unchecked(label, args_new))
diff --git a/src/ast3/environment.rs b/src/ast3/environment.rs
index e382aad..35b6677 100644
--- a/src/ast3/environment.rs
+++ b/src/ast3/environment.rs
@@ -89,15 +89,32 @@ impl TryFrom<ast2::Environment> for Environment {
         let (label, args, content, prec_begin, prec_end) = value.decompose();
 
         let mut args_new = Vec::with_capacity(args.len());
+        let mut offset = prec_begin
+            .chars()
+            .chain(label.chars())
+            .filter(|c| c == &'\n')
+            .count() as u32;
 
         for (prec, scope) in args {
-            args_new.push((prec, scope.try_into()?));
+            offset += prec.chars().filter(|c| c == &'\n').count() as u32;
+            let scope_lines = scope.lines();
+            args_new.push((
+                prec,
+                Scope::try_from(scope).map_err(|mut e| {
+                    e.line += offset;
+                    e
+                })?,
+            ));
+            offset += scope_lines - 1;
         }
 
         Ok(Self::new_unchecked(
             label,
             args_new,
-            Paragraph::from_chunks(MathsBlock::from_chunks(content)?),
+            Paragraph::from_chunks(MathsBlock::from_chunks(content).map_err(|mut e| {
+                e.line += offset;
+                e
+            })?),
             prec_begin,
             prec_end,
         ))
-- 
2.43.0


From fcea023e534feb469f1c3823347aa697f02a3167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 26/31] fix: stage 3 line number of an error inside a maths
 block or scope

---
 src/ast3/mathsblock.rs | 100 +++++++++++++++++++++++++----------------
 1 file changed, 61 insertions(+), 39 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 64d62ad..04bb84c 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -79,6 +79,16 @@ impl MathsBlock {
         let mut buffer = Vec::new();
         let mut buffer_line = 0;
 
+        // map error lines of a chunk to the lines of the parent
+        macro_rules! map_e {
+            ($x:expr, $line:expr) => {
+                $x.map_err(|mut e: crate::Error| {
+                    e.line += $line - 1;
+                    e
+                })?
+            };
+        }
+
         for chunk in chunks {
             let (line_no, variant) = chunk.decompose();
 
@@ -137,15 +147,18 @@ impl MathsBlock {
                         ChunkVariant::MathsBlock(Self::new_unchecked(
                             MathsVariant::Brackets,
                             MathsType::Inline,
-                            Self::from_chunks(
-                                std::mem::take(&mut buffer)
-                                    .into_iter()
-                                    .map(|mut chunk| {
-                                        *chunk.line_no_mut() -= buffer_line - 1;
-                                        chunk
-                                    })
-                                    .collect(),
-                            )?,
+                            map_e!(
+                                Self::from_chunks(
+                                    std::mem::take(&mut buffer)
+                                        .into_iter()
+                                        .map(|mut chunk| {
+                                            *chunk.line_no_mut() -= buffer_line - 1;
+                                            chunk
+                                        })
+                                        .collect(),
+                                ),
+                                buffer_line
+                            ),
                         )),
                     ))
                 }
@@ -161,15 +174,18 @@ impl MathsBlock {
                         ChunkVariant::MathsBlock(Self::new_unchecked(
                             MathsVariant::Brackets,
                             MathsType::Outline,
-                            Self::from_chunks(
-                                std::mem::take(&mut buffer)
-                                    .into_iter()
-                                    .map(|mut chunk| {
-                                        *chunk.line_no_mut() -= buffer_line - 1;
-                                        chunk
-                                    })
-                                    .collect(),
-                            )?,
+                            map_e!(
+                                Self::from_chunks(
+                                    std::mem::take(&mut buffer)
+                                        .into_iter()
+                                        .map(|mut chunk| {
+                                            *chunk.line_no_mut() -= buffer_line - 1;
+                                            chunk
+                                        })
+                                        .collect(),
+                                ),
+                                buffer_line
+                            ),
                         )),
                     ))
                 }
@@ -196,19 +212,19 @@ impl MathsBlock {
                 ast2::ChunkVariant::Scope(s) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Scope(s.try_into()?),
+                        ChunkVariant::Scope(map_e!(s.try_into(), line_no)),
                     ));
                 }
                 ast2::ChunkVariant::Environment(env) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Environment(env.try_into()?),
+                        ChunkVariant::Environment(map_e!(env.try_into(), line_no)),
                     ));
                 }
                 ast2::ChunkVariant::Command(cmd) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Command(cmd.try_into()?),
+                        ChunkVariant::Command(map_e!(cmd.try_into(), line_no)),
                     ));
                 }
                 ast2::ChunkVariant::Text(s)
@@ -285,15 +301,18 @@ impl MathsBlock {
                                         ChunkVariant::MathsBlock(MathsBlock::new_unchecked(
                                             MathsVariant::Dollars,
                                             MathsType::Outline,
-                                            Self::from_chunks(
-                                                std::mem::take(&mut buffer)
-                                                    .into_iter()
-                                                    .map(|mut chunk| {
-                                                        *chunk.line_no_mut() -= buffer_line - 1;
-                                                        chunk
-                                                    })
-                                                    .collect(),
-                                            )?,
+                                            map_e!(
+                                                Self::from_chunks(
+                                                    std::mem::take(&mut buffer)
+                                                        .into_iter()
+                                                        .map(|mut chunk| {
+                                                            *chunk.line_no_mut() -= buffer_line - 1;
+                                                            chunk
+                                                        })
+                                                        .collect(),
+                                                ),
+                                                buffer_line
+                                            ),
                                         )),
                                     ));
 
@@ -316,15 +335,18 @@ impl MathsBlock {
                                         ChunkVariant::MathsBlock(MathsBlock::new_unchecked(
                                             MathsVariant::Dollars,
                                             MathsType::Inline,
-                                            Self::from_chunks(
-                                                std::mem::take(&mut buffer)
-                                                    .into_iter()
-                                                    .map(|mut chunk| {
-                                                        *chunk.line_no_mut() -= buffer_line - 1;
-                                                        chunk
-                                                    })
-                                                    .collect(),
-                                            )?,
+                                            map_e!(
+                                                Self::from_chunks(
+                                                    std::mem::take(&mut buffer)
+                                                        .into_iter()
+                                                        .map(|mut chunk| {
+                                                            *chunk.line_no_mut() -= buffer_line - 1;
+                                                            chunk
+                                                        })
+                                                        .collect(),
+                                                ),
+                                                buffer_line
+                                            ),
                                         )),
                                     ));
 
-- 
2.43.0


From 7807f3db7b30f2dea078bcae6d18e14bd9622410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 27/31] fix: stage 3 line number of an error inside or after
 the document environment

---
 src/ast3/document.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index aa1ecce..202f412 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -321,7 +321,12 @@ impl TryFrom<ast2::Document> for Document {
             match variant {
                 ast2::ChunkVariant::Environment(env) if env.label().as_str() == "document" => {
                     trailing_offset = line_no + env.lines() - 2;
-                    let (_, args, content, begin, end) = Environment::try_from(env)?.decompose();
+                    let (_, args, content, begin, end) = Environment::try_from(env)
+                        .map_err(|mut e| {
+                            e.line += line_no - 1;
+                            e
+                        })?
+                        .decompose();
                     construct.body_args = args;
                     construct.body = content;
                     construct.body_begin_prec = begin;
@@ -466,7 +471,11 @@ impl TryFrom<ast2::Document> for Document {
         }
 
         construct.preamable = Paragraph::from_chunks(MathsBlock::from_chunks(preamable)?);
-        construct.trailing = Paragraph::from_chunks(MathsBlock::from_chunks(trailing)?);
+        construct.trailing =
+            Paragraph::from_chunks(MathsBlock::from_chunks(trailing).map_err(|mut e| {
+                e.line += trailing_offset;
+                e
+            })?);
 
         Ok(construct)
     }
-- 
2.43.0


From e415b218d8a065258c7fa5d038e1983b0d60658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 28/31] fix: stage 3 keeps a second document environment

It replaced the first one, which was lost. What follows the first document
environment is trailing content, like a second `\documentclass` there.
---
 src/ast3/document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 202f412..1a45ca3 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -319,7 +319,9 @@ impl TryFrom<ast2::Document> for Document {
             let (line_no, variant) = chunk.decompose();
 
             match variant {
-                ast2::ChunkVariant::Environment(env) if env.label().as_str() == "document" => {
+                ast2::ChunkVariant::Environment(env)
+                    if env.label().as_str() == "document" && cursor == CursorState::Preamable =>
+                {
                     trailing_offset = line_no + env.lines() - 2;
                     let (_, args, content, begin, end) = Environment::try_from(env)
                         .map_err(|mut e| {
-- 
2.43.0


From 47c87e7cdbbebc9dee5784533771465738f5f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 29/31] hook: cfg(latex_ast_verif) access to MathsBlock fields

---
 src/ast3/mathsblock.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 04bb84c..8e89188 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -41,6 +41,17 @@ impl MathsBlock {
     }
 }
 
+#[allow(unexpected_cfgs)]
+mod verif {
+    /// Access to the fields for the verification machinery, off unless it sets the cfg
+    #[cfg(latex_ast_verif)]
+    impl super::MathsBlock {
+        pub fn verif_parts(&self) -> (&super::MathsVariant, &super::MathsType, &Vec<super::Chunk>) {
+            (&self.variant, &self.r#type, &self.content)
+        }
+    }
+}
+
 impl Validate for MathsBlock {
     fn validate(&self) -> Result<(), crate::InternalError> {
         for chunk in self.content.iter() {
-- 
2.43.0


From 799a50be5639f4f5e793729099c3af73e72cdd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 30/31] fix: stage 3 document validates the arguments of its
 environment

Stage 2 does, for any environment.
---
 src/ast3/document.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 1a45ca3..7960f7d 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -49,6 +49,10 @@ impl Validate for Document {
             }
         }
 
+        for (_, arg) in self.body_args.iter() {
+            arg.validate()?
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From ca597c3bfe1135b9f818653bca88f2deb460e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 31/31] fix: paragraph splitting overflows on 2^31 line breaks
 in a row

---
 src/ast3/paragraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast3/paragraph.rs b/src/ast3/paragraph.rs
index a7c3684..d8ddee6 100644
--- a/src/ast3/paragraph.rs
+++ b/src/ast3/paragraph.rs
@@ -14,7 +14,7 @@ impl Paragraph {
             let mut text_buffer_line = chunk.line_no();
             let mut buffer = String::new();
             let mut buffer_line = chunk.line_no();
-            let mut consec_newlines = 0;
+            let mut consec_newlines: u32 = 0;
 
             if let ChunkVariant::Text(s) = chunk.variant() {
                 for c in s.chars() {
-- 
2.43.0

