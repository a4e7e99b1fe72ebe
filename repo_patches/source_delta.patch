From ada4453caf1c8f4ad8b7d3343d07910b18d5f9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 01/14] fix: escape every terminator in serialized inline text

Runs of three or more EOLs, and EOL pairs spelled with CRLF, were left
unescaped by the literal "\n\n" replacement, so the serialized node was
split into two blocks when parsed again.
---
 src/nodes/anchor.rs        | 26 ++++++++++++++++----------
 src/nodes/bold.rs          | 13 +++++++------
 src/nodes/code_span.rs     |  7 +++----
 src/nodes/emphasis.rs      |  7 +++----
 src/nodes/escape.rs        | 35 +++++++++++++++++++++++++++++++++++
 src/nodes/heading.rs       |  6 ++----
 src/nodes/image.rs         | 19 ++++++++++---------
 src/nodes/italic.rs        |  7 +++----
 src/nodes/mod.rs           |  1 +
 src/nodes/paragraph.rs     | 21 +++++++++++----------
 src/nodes/strikethrough.rs |  7 +++----
 11 files changed, 94 insertions(+), 55 deletions(-)
 create mode 100644 src/nodes/escape.rs

diff --git a/src/nodes/anchor.rs b/src/nodes/anchor.rs
index 57ef22e..58b8ffa 100644
--- a/src/nodes/anchor.rs
+++ b/src/nodes/anchor.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Anchor
 ///
 /// Anchor has two required parts.
@@ -53,16 +55,20 @@ impl Display for Anchor {
         write!(
             f,
             "[{}]({})",
-            self.text
-                .replace("\\", "\\\\")
-                .replace("[", "\\[")
-                .replace("]", "\\]")
-                .replace("\n\n", "\\\n\n"),
-            self.url
-                .replace("\\", "\\\\")
-                .replace("(", "\\(")
-                .replace(")", "\\)")
-                .replace("\n\n", "\\\n\n")
+            escape_terminators(
+                &self
+                    .text
+                    .replace("\\", "\\\\")
+                    .replace("[", "\\[")
+                    .replace("]", "\\]")
+            ),
+            escape_terminators(
+                &self
+                    .url
+                    .replace("\\", "\\\\")
+                    .replace("(", "\\(")
+                    .replace(")", "\\)")
+            )
         )
     }
 }
diff --git a/src/nodes/bold.rs b/src/nodes/bold.rs
index 297b665..08e3d52 100644
--- a/src/nodes/bold.rs
+++ b/src/nodes/bold.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{Italic, Strikethrough};
+use super::{Italic, Strikethrough, escape::escape_terminators};
 
 #[derive(Debug, PartialEq, Clone, Eq)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -41,11 +41,12 @@ impl Display for BoldNodes {
                 write!(
                     f,
                     "{}",
-                    t.replace("\\", "\\\\")
-                        .replace("*", "\\*")
-                        .replace("_", "\\_")
-                        .replace("~", "\\~")
-                        .replace("\n\n", "\\\n\n")
+                    escape_terminators(
+                        &t.replace("\\", "\\\\")
+                            .replace("*", "\\*")
+                            .replace("_", "\\_")
+                            .replace("~", "\\~")
+                    )
                 )
             }
         }
diff --git a/src/nodes/code_span.rs b/src/nodes/code_span.rs
index 7d142e9..6878adf 100644
--- a/src/nodes/code_span.rs
+++ b/src/nodes/code_span.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Code span
 ///
 /// Any characters except [Terminator](type@crate::lexer::TokenKind::Terminator) surrounded by a
@@ -47,10 +49,7 @@ impl Display for CodeSpan {
         write!(
             f,
             "`{}`",
-            self.0
-                .replace("\\", "\\\\")
-                .replace("`", "\\`")
-                .replace("\n\n", "\\\n\n")
+            escape_terminators(&self.0.replace("\\", "\\\\").replace("`", "\\`"))
         )
     }
 }
diff --git a/src/nodes/emphasis.rs b/src/nodes/emphasis.rs
index 7d59484..70e1616 100644
--- a/src/nodes/emphasis.rs
+++ b/src/nodes/emphasis.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Emphasis
 ///
 /// Any token except [Terminator](type@crate::lexer::TokenKind::Terminator) surrounded by
@@ -44,10 +46,7 @@ impl Display for Emphasis {
         write!(
             f,
             "*{}*",
-            self.0
-                .replace("\\", "\\\\")
-                .replace("*", "\\*")
-                .replace("\n\n", "\\\n\n")
+            escape_terminators(&self.0.replace("\\", "\\\\").replace("*", "\\*"))
         )
     }
 }
diff --git a/src/nodes/escape.rs b/src/nodes/escape.rs
new file mode 100644
index 0000000..f1d31c6
--- /dev/null
+++ b/src/nodes/escape.rs
@@ -0,0 +1,35 @@
+/// Returns `true` if `s` starts with an [EOL](type@crate::lexer::TokenKind::Eol).
+fn starts_with_eol(s: &str) -> bool {
+    s.starts_with('\n') || s.starts_with("\r\n")
+}
+
+/// Escapes `s` so that no two consecutive [EOL](type@crate::lexer::TokenKind::Eol)s are left in it:
+/// the `\n` of every EOL directly followed by another EOL is escaped, so re-parsing never finds a
+/// [Terminator](type@crate::lexer::TokenKind::Terminator) inside of `s`.
+pub(crate) fn escape_terminators(s: &str) -> String {
+    let mut escaped = String::with_capacity(s.len());
+    for (i, char) in s.char_indices() {
+        if char == '\n' && starts_with_eol(&s[i + 1..]) {
+            escaped.push('\\');
+        }
+        escaped.push(char);
+    }
+    escaped
+}
+
+/// Same as [`escape_terminators`], but escapes every [EOL](type@crate::lexer::TokenKind::Eol) of a
+/// run of two or more.
+pub(crate) fn escape_eol_runs(s: &str) -> String {
+    let mut escaped = String::with_capacity(s.len());
+    for (i, char) in s.char_indices() {
+        let before = &s[..i];
+        if char == '\n'
+            && (before.strip_suffix('\r').unwrap_or(before).ends_with('\n')
+                || starts_with_eol(&s[i + 1..]))
+        {
+            escaped.push('\\');
+        }
+        escaped.push(char);
+    }
+    escaped
+}
diff --git a/src/nodes/heading.rs b/src/nodes/heading.rs
index 25b6769..d04cd42 100644
--- a/src/nodes/heading.rs
+++ b/src/nodes/heading.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::Anchor;
+use super::{Anchor, escape::escape_terminators};
 
 #[derive(Debug, PartialEq, Clone, Eq)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -32,9 +32,7 @@ impl Display for HeadingNodes {
                 write!(
                     f,
                     "{}",
-                    text.replace("\\", "\\\\")
-                        .replace("\n\n", "\\\n\n")
-                        .replace("#", "\\#")
+                    escape_terminators(&text.replace("\\", "\\\\").replace("#", "\\#"))
                 )
             }
             HeadingNodes::Anchor(anchor) => write!(f, "{}", anchor),
diff --git a/src/nodes/image.rs b/src/nodes/image.rs
index 6b24e32..f3630d3 100644
--- a/src/nodes/image.rs
+++ b/src/nodes/image.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Image
 ///
 /// Starts with [Bang](type@crate::lexer::TokenKind::Bang) of length 1, and has two required parts.
@@ -54,15 +56,14 @@ impl Display for Image {
         write!(
             f,
             "![{}]({})",
-            self.alt
-                .replace("\\", "\\\\")
-                .replace("]", "\\]")
-                .replace("\n\n", "\\\n\n"),
-            self.src
-                .replace("\\", "\\\\")
-                .replace("(", "\\(")
-                .replace(")", "\\)")
-                .replace("\n\n", "\\\n\n")
+            escape_terminators(&self.alt.replace("\\", "\\\\").replace("]", "\\]")),
+            escape_terminators(
+                &self
+                    .src
+                    .replace("\\", "\\\\")
+                    .replace("(", "\\(")
+                    .replace(")", "\\)")
+            )
         )
     }
 }
diff --git a/src/nodes/italic.rs b/src/nodes/italic.rs
index b13c9b4..dac3c27 100644
--- a/src/nodes/italic.rs
+++ b/src/nodes/italic.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Italic
 ///
 /// Any token except [Terminator](type@crate::lexer::TokenKind::Terminator) surrounded by
@@ -43,10 +45,7 @@ impl Display for Italic {
         write!(
             f,
             "_{}_",
-            self.0
-                .replace("\\", "\\\\")
-                .replace("_", "\\_")
-                .replace("\n\n", "\\\n\n")
+            escape_terminators(&self.0.replace("\\", "\\\\").replace("_", "\\_"))
         )
     }
 }
diff --git a/src/nodes/mod.rs b/src/nodes/mod.rs
index fccf2a1..0b90afe 100644
--- a/src/nodes/mod.rs
+++ b/src/nodes/mod.rs
@@ -36,6 +36,7 @@ mod code_span;
 mod collapsible;
 mod embed;
 mod emphasis;
+mod escape;
 mod heading;
 mod highlight;
 mod image;
diff --git a/src/nodes/paragraph.rs b/src/nodes/paragraph.rs
index 292814f..148c0e1 100644
--- a/src/nodes/paragraph.rs
+++ b/src/nodes/paragraph.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{Anchor, Bold, CodeSpan, Emphasis, Italic, Strikethrough};
+use super::{Anchor, Bold, CodeSpan, Emphasis, Italic, Strikethrough, escape::escape_eol_runs};
 
 #[derive(Debug, PartialEq, Clone, Eq)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -70,15 +70,16 @@ impl Display for ParagraphNodes {
             ParagraphNodes::Text(t) => write!(
                 f,
                 "{}",
-                t.replace("\\", "\\\\")
-                    .replace("*", "\\*")
-                    .replace("_", "\\_")
-                    .replace("~", "\\~")
-                    .replace("`", "\\`")
-                    .replace("[", "\\[")
-                    .replace("{", "\\{")
-                    .replace("\n\n", "\\\n\\\n")
-                    .replace("%}", "\\%}")
+                escape_eol_runs(
+                    &t.replace("\\", "\\\\")
+                        .replace("*", "\\*")
+                        .replace("_", "\\_")
+                        .replace("~", "\\~")
+                        .replace("`", "\\`")
+                        .replace("[", "\\[")
+                        .replace("{", "\\{")
+                        .replace("%}", "\\%}")
+                )
             ),
             ParagraphNodes::CodeSpan(c) => write!(f, "{}", c),
             ParagraphNodes::Emphasis(e) => write!(f, "{}", e),
diff --git a/src/nodes/strikethrough.rs b/src/nodes/strikethrough.rs
index f8fefab..9107a68 100644
--- a/src/nodes/strikethrough.rs
+++ b/src/nodes/strikethrough.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Strikethrough
 ///
 /// Any token except [Terminator](type@crate::lexer::TokenKind::Terminator) surrounded by
@@ -44,10 +46,7 @@ impl Display for Strikethrough {
         write!(
             f,
             "~~{}~~",
-            self.0
-                .replace("\\", "\\\\")
-                .replace("~", "\\~")
-                .replace("\n\n", "\\\n\n")
+            escape_terminators(&self.0.replace("\\", "\\\\").replace("~", "\\~"))
         )
     }
 }
-- 
2.43.0


From 888e689ed30a730edb22b04377b0771584aa0548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 02/14] fix: escape anchors and leading space in serialized
 heading text

Text with a literal `[` was re-parsed as an anchor, and text starting with a
space turned the heading into a paragraph.
---
 src/nodes/heading.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/nodes/heading.rs b/src/nodes/heading.rs
index d04cd42..c683374 100644
--- a/src/nodes/heading.rs
+++ b/src/nodes/heading.rs
@@ -32,7 +32,12 @@ impl Display for HeadingNodes {
                 write!(
                     f,
                     "{}",
-                    escape_terminators(&text.replace("\\", "\\\\").replace("#", "\\#"))
+                    escape_terminators(
+                        &text
+                            .replace("\\", "\\\\")
+                            .replace("[", "\\[")
+                            .replace("#", "\\#")
+                    )
                 )
             }
             HeadingNodes::Anchor(anchor) => write!(f, "{}", anchor),
@@ -80,7 +85,9 @@ impl Heading {
 impl Display for Heading {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let body: String = self.body.iter().map(|n| n.to_string()).collect();
-        write!(f, "{} {}", "#".repeat(self.level as usize), body)
+        // Heading marker must be followed by exactly one space.
+        let escape = if body.starts_with(' ') { "\\" } else { "" };
+        write!(f, "{} {}{}", "#".repeat(self.level as usize), escape, body)
     }
 }
 
-- 
2.43.0


From 7bc4de47be8d26e1dbc46d92fc63ca6cd8e2fb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 03/14] fix: escape every leading block marker of a serialized
 paragraph

Headings of level 2 to 6 and a `!` directly before an anchor (an image) at the
start of a paragraph were not escaped.
---
 src/nodes/paragraph.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nodes/paragraph.rs b/src/nodes/paragraph.rs
index 148c0e1..3ea2700 100644
--- a/src/nodes/paragraph.rs
+++ b/src/nodes/paragraph.rs
@@ -170,10 +170,13 @@ impl Display for Paragraph {
 /// container-specific closer escape (e.g. Highlight's universal `!!` escape),
 /// because those escapes can rewrite the leading characters.
 pub(crate) fn escape_leading_block_marker(s: String) -> String {
-    if s.starts_with("- ")
+    let is_heading =
+        matches!(s.find(|c| c != '#'), Some(1..=6)) && s.trim_start_matches('#').starts_with(' ');
+    if is_heading
+        || s.starts_with("- ")
         || s.starts_with("+ ")
-        || s.starts_with("# ")
         || s.starts_with("!!")
+        || s.starts_with("![")
         || s.starts_with("---")
     {
         format!("\\{}", s)
-- 
2.43.0


From 2ead7263c9ee238639c838842fb30bddd8f687f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 04/14] fix: keep a line break at the end of a serialized block

A block ending with an escaped `\n`, or with `\r`, merged with the block
separator, so the line break was lost or moved into the next block.
---
 src/nodes/collapsible.rs |  3 ++-
 src/nodes/escape.rs      | 13 +++++++++++++
 src/nodes/highlight.rs   |  3 ++-
 src/nodes/yamd.rs        | 10 ++++++++--
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/nodes/collapsible.rs b/src/nodes/collapsible.rs
index e89a538..e36bdce 100644
--- a/src/nodes/collapsible.rs
+++ b/src/nodes/collapsible.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{YamdNodes, paragraph::escape_leading_block_marker};
+use super::{YamdNodes, escape::escape_trailing_eol, paragraph::escape_leading_block_marker};
 
 /// # Collapsible
 ///
@@ -63,6 +63,7 @@ impl Display for Collapsible {
                     YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
                     other => other.to_string(),
                 })
+                .map(escape_trailing_eol)
                 .collect::<Vec<_>>()
                 .join("\n\n")
         )
diff --git a/src/nodes/escape.rs b/src/nodes/escape.rs
index f1d31c6..4951bca 100644
--- a/src/nodes/escape.rs
+++ b/src/nodes/escape.rs
@@ -33,3 +33,16 @@ pub(crate) fn escape_eol_runs(s: &str) -> String {
     }
     escaped
 }
+
+/// Escapes the last char of `s` when it is an EOL char, so it does not merge with the EOL the
+/// serializer puts after `s`.
+pub(crate) fn escape_trailing_eol(mut s: String) -> String {
+    let Some(head) = s.strip_suffix(['\n', '\r']) else {
+        return s;
+    };
+    let backslashes = head.len() - head.trim_end_matches('\\').len();
+    if backslashes % 2 == 0 {
+        s.insert(head.len(), '\\');
+    }
+    s
+}
diff --git a/src/nodes/highlight.rs b/src/nodes/highlight.rs
index 0204c2f..c6d95ae 100644
--- a/src/nodes/highlight.rs
+++ b/src/nodes/highlight.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{Paragraph, paragraph::escape_leading_block_marker};
+use super::{Paragraph, escape::escape_trailing_eol, paragraph::escape_leading_block_marker};
 
 /// # Highlight
 ///
@@ -89,6 +89,7 @@ impl Display for Highlight {
             self.body
                 .iter()
                 .map(|p| escape_leading_block_marker(p.to_string().replace("!!", "\\!!")))
+                .map(escape_trailing_eol)
                 .collect::<Vec<_>>()
                 .join("\n\n")
         )
diff --git a/src/nodes/yamd.rs b/src/nodes/yamd.rs
index cbebe51..5905237 100644
--- a/src/nodes/yamd.rs
+++ b/src/nodes/yamd.rs
@@ -5,7 +5,7 @@ use serde::{Deserialize, Serialize};
 
 use super::{
     Code, Collapsible, Embed, Heading, Highlight, Image, Images, List, Paragraph, ThematicBreak,
-    paragraph::escape_leading_block_marker,
+    escape::escape_trailing_eol, paragraph::escape_leading_block_marker,
 };
 
 #[derive(Debug, PartialEq, Clone, Eq)]
@@ -265,13 +265,19 @@ impl Yamd {
 
 impl Display for Yamd {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        let body = self
+        let mut blocks = self
             .body
             .iter()
             .map(|node| match node {
                 YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
                 other => other.to_string(),
             })
+            .collect::<Vec<_>>();
+        let last = blocks.pop();
+        let body = blocks
+            .into_iter()
+            .map(escape_trailing_eol)
+            .chain(last)
             .collect::<Vec<_>>()
             .join("\n\n");
         match &self.metadata {
-- 
2.43.0


From 00846bf248cb8c82c8856d02b460c82bf80754b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 05/14] fix: keep titles, icons and first body lines intact
 when serialized

A line break or a leading space in the title of a highlight or a collapsible,
or in an icon, broke the block. A body starting with a line break merged with
the title line (or the code fence), one starting with `! ` turned into an icon,
and a highlight without paragraphs was not closed.
---
 src/nodes/code.rs        | 14 +++++++++-----
 src/nodes/collapsible.rs | 28 +++++++++++++++++-----------
 src/nodes/escape.rs      | 19 +++++++++++++++++++
 src/nodes/highlight.rs   | 30 +++++++++++++++++-------------
 4 files changed, 62 insertions(+), 29 deletions(-)

diff --git a/src/nodes/code.rs b/src/nodes/code.rs
index 97bfa14..90d4428 100644
--- a/src/nodes/code.rs
+++ b/src/nodes/code.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::{escape_leading_eol, escape_trailing_eol};
+
 /// # Code
 ///
 /// Starts with [Backtick](type@crate::lexer::TokenKind::Backtick) of length 3.
@@ -51,11 +53,13 @@ impl Display for Code {
         write!(
             f,
             "```{}\n{}\n```",
-            self.lang
-                .replace("\\", "\\\\")
-                .replace("`", "\\`")
-                .replace("\n", "\\\n"),
-            self.code.replace("\\", "\\\\").replace("```", "\\```")
+            escape_trailing_eol(
+                self.lang
+                    .replace("\\", "\\\\")
+                    .replace("`", "\\`")
+                    .replace("\n", "\\\n")
+            ),
+            escape_leading_eol(self.code.replace("\\", "\\\\").replace("```", "\\```"))
         )
     }
 }
diff --git a/src/nodes/collapsible.rs b/src/nodes/collapsible.rs
index e36bdce..9e37233 100644
--- a/src/nodes/collapsible.rs
+++ b/src/nodes/collapsible.rs
@@ -3,7 +3,11 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{YamdNodes, escape::escape_trailing_eol, paragraph::escape_leading_block_marker};
+use super::{
+    YamdNodes,
+    escape::{escape_leading_eol, escape_line, escape_trailing_eol},
+    paragraph::escape_leading_block_marker,
+};
 
 /// # Collapsible
 ///
@@ -56,16 +60,18 @@ impl Display for Collapsible {
         write!(
             f,
             "{{% {}\n{}\n%}}",
-            self.title.replace("\\", "\\\\").replace("%}", "\\%}"),
-            self.body
-                .iter()
-                .map(|node| match node {
-                    YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
-                    other => other.to_string(),
-                })
-                .map(escape_trailing_eol)
-                .collect::<Vec<_>>()
-                .join("\n\n")
+            escape_line(&self.title.replace("\\", "\\\\").replace("%}", "\\%}")),
+            escape_leading_eol(
+                self.body
+                    .iter()
+                    .map(|node| match node {
+                        YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
+                        other => other.to_string(),
+                    })
+                    .map(escape_trailing_eol)
+                    .collect::<Vec<_>>()
+                    .join("\n\n")
+            )
         )
     }
 }
diff --git a/src/nodes/escape.rs b/src/nodes/escape.rs
index 4951bca..c093795 100644
--- a/src/nodes/escape.rs
+++ b/src/nodes/escape.rs
@@ -46,3 +46,22 @@ pub(crate) fn escape_trailing_eol(mut s: String) -> String {
     }
     s
 }
+
+/// Escapes the [EOL](type@crate::lexer::TokenKind::Eol) `s` starts with, so it does not merge with
+/// the EOL the serializer puts before `s`.
+pub(crate) fn escape_leading_eol(mut s: String) -> String {
+    if s.starts_with('\n') {
+        s.insert(0, '\\');
+    } else if s.starts_with("\r\n") {
+        s.insert(1, '\\');
+    }
+    s
+}
+
+/// Escapes `s` so it occupies the rest of a single line: no
+/// [EOL](type@crate::lexer::TokenKind::Eol) is left in it, and it merges neither with the space
+/// before it nor with the EOL after it.
+pub(crate) fn escape_line(s: &str) -> String {
+    let escape = if s.starts_with(' ') { "\\" } else { "" };
+    escape_trailing_eol(format!("{escape}{}", s.replace('\n', "\\\n")))
+}
diff --git a/src/nodes/highlight.rs b/src/nodes/highlight.rs
index c6d95ae..1861c9d 100644
--- a/src/nodes/highlight.rs
+++ b/src/nodes/highlight.rs
@@ -3,7 +3,11 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{Paragraph, escape::escape_trailing_eol, paragraph::escape_leading_block_marker};
+use super::{
+    Paragraph,
+    escape::{escape_leading_eol, escape_line, escape_trailing_eol},
+    paragraph::escape_leading_block_marker,
+};
 
 /// # Highlight
 ///
@@ -74,25 +78,25 @@ impl Highlight {
 
 impl Display for Highlight {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        let title = self
-            .title
-            .as_ref()
-            .map_or("".to_string(), |t| format!(" {}", t.replace("\\", "\\\\")));
+        let title = self.title.as_ref().map_or("".to_string(), |t| {
+            format!(" {}", escape_line(&t.replace("\\", "\\\\")))
+        });
         let icon = self.icon.as_ref().map_or("".to_string(), |i| {
-            format!("! {}\n", i.replace("\\", "\\\\"))
+            format!("! {}\n", escape_line(&i.replace("\\", "\\\\")))
         });
-        write!(
-            f,
-            "!!{}\n{}{}\n!!",
-            title,
-            icon,
+        let mut body = escape_leading_eol(
             self.body
                 .iter()
                 .map(|p| escape_leading_block_marker(p.to_string().replace("!!", "\\!!")))
                 .map(escape_trailing_eol)
                 .collect::<Vec<_>>()
-                .join("\n\n")
-        )
+                .join("\n\n"),
+        );
+        if self.icon.is_none() && body.starts_with("! ") {
+            body.insert(0, '\\');
+        }
+        let eol = if self.body.is_empty() { "" } else { "\n" };
+        write!(f, "!!{title}\n{icon}{body}{eol}!!")
     }
 }
 
-- 
2.43.0


From 4250e5103bd8494401b319a5ed797236d7ef1f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 06/14] fix: escape `%}` at the start of a line in every node
 of a collapsible

Only plain text was escaped, so a code span, an anchor, a heading, etc. with a
literal `%}` at the start of a line closed the collapsible when parsed again.
---
 src/nodes/collapsible.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nodes/collapsible.rs b/src/nodes/collapsible.rs
index 9e37233..230258e 100644
--- a/src/nodes/collapsible.rs
+++ b/src/nodes/collapsible.rs
@@ -65,8 +65,10 @@ impl Display for Collapsible {
                 self.body
                     .iter()
                     .map(|node| match node {
-                        YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
-                        other => other.to_string(),
+                        YamdNodes::Paragraph(p) =>
+                            escape_leading_block_marker(p.to_string().replace("\n%}", "\n\\%}"),),
+                        YamdNodes::Collapsible(c) => c.to_string(),
+                        other => other.to_string().replace("\n%}", "\n\\%}"),
                     })
                     .map(escape_trailing_eol)
                     .collect::<Vec<_>>()
-- 
2.43.0


From 59b9909db5f89360be56d195dc8d4a933b33f775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 07/14] fix: escape every list marker in serialized list item
 text

Only the marker of the list itself at level 0 was escaped, and nested lists
were escaped along with the text. Text with a marker of a parent, a sibling or a
nested list (or a leading space) changed the structure of the list when parsed
again.
---
 src/nodes/list.rs | 51 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/nodes/list.rs b/src/nodes/list.rs
index 29b8e62..f316b66 100644
--- a/src/nodes/list.rs
+++ b/src/nodes/list.rs
@@ -148,25 +148,56 @@ impl List {
             body,
         }
     }
+
+    /// Escapes everything in the text of an item that would start another item of this list, of
+    /// its parents, or of a list nested in the item.
+    fn escape_item_text(&self, text: &str) -> String {
+        // Marker must be followed by exactly one space.
+        let mut escaped = String::from(if text.starts_with(' ') { "\\" } else { "" });
+        for (i, line) in text.split('\n').enumerate() {
+            if i > 0 {
+                escaped.push('\n');
+                let rest = line.trim_start_matches(' ');
+                let level = line.len() - rest.len();
+                let is_marker = if self.level == 0 && level == 0 {
+                    rest.starts_with(&format!("{} ", self.list_type))
+                } else {
+                    level <= self.level + 1 && (rest.starts_with("- ") || rest.starts_with("+ "))
+                };
+                if is_marker {
+                    escaped.push_str(&line[..level]);
+                    escaped.push('\\');
+                    escaped.push_str(rest);
+                    continue;
+                }
+            }
+            escaped.push_str(line);
+        }
+        escaped
+    }
 }
 
 impl Display for List {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        let (pat, rep) = match self.list_type {
-            ListTypes::Unordered => ("\n- ", "\n\\- "),
-            ListTypes::Ordered => ("\n+ ", "\n\\+ "),
-        };
         write!(
             f,
             "{}",
             self.body
                 .iter()
-                .map(|list_item| format!(
-                    "{}{} {}",
-                    " ".repeat(self.level),
-                    self.list_type,
-                    list_item.to_string().replace(pat, rep)
-                ))
+                .map(|list_item| {
+                    let text: String = list_item.text.iter().map(|t| t.to_string()).collect();
+                    let nested = list_item
+                        .nested_list
+                        .as_ref()
+                        .map_or(String::new(), |nested| format!("\n{nested}"));
+                    format!(
+                        "{}{} {}{}",
+                        " ".repeat(self.level),
+                        self.list_type,
+                        self.escape_item_text(&text),
+                        nested
+                    )
+                })
                 .collect::<Vec<_>>()
                 .join("\n")
         )
-- 
2.43.0


From 2a2e004860101b8ed23762bc3058c45b7b2096ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 08/14] fix: escape backslashes and fences in serialized
 metadata

Metadata with a backslash lost it, and a line starting with `---` closed the
metadata when parsed again.
---
 src/nodes/yamd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nodes/yamd.rs b/src/nodes/yamd.rs
index 5905237..41b32cd 100644
--- a/src/nodes/yamd.rs
+++ b/src/nodes/yamd.rs
@@ -283,7 +283,9 @@ impl Display for Yamd {
         match &self.metadata {
             Some(metadata) => {
                 let sep = if metadata.ends_with('\n') { "" } else { "\n" };
-                write!(f, "---\n{}{}---\n\n{}", metadata, sep, body)
+                let metadata =
+                    format!("\n{}", metadata.replace("\\", "\\\\")).replace("\n---", "\n\\---");
+                write!(f, "---{}{}---\n\n{}", metadata, sep, body)
             }
             None => write!(f, "{}", body),
         }
-- 
2.43.0


From 08e8e65009e767c8a33bb8f5d6b9a0207e9c8c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 09/14] fix: do not let an embed span over a terminator

Kind and args are documented as every token except Terminator, but an unclosed
embed swallowed the following blocks up to the next `|` and `}}`. Escape the
terminators an embed can still contain when serialized.
---
 src/nodes/embed.rs | 26 +++++++++++++++++---------
 src/op/embed.rs    | 13 +++++++------
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/nodes/embed.rs b/src/nodes/embed.rs
index 3a5e545..a82a4e8 100644
--- a/src/nodes/embed.rs
+++ b/src/nodes/embed.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Embed
 ///
 /// Starts with [LeftCurlyBrace](type@crate::lexer::TokenKind::LeftCurlyBrace) of length 2.
@@ -45,15 +47,21 @@ impl Display for Embed {
         write!(
             f,
             "{{{{{}|{}}}}}",
-            self.kind
-                .replace("\\", "\\\\")
-                .replace("{", "\\{")
-                .replace("|", "\\|"),
-            self.args
-                .replace("\\", "\\\\")
-                .replace("{", "\\{")
-                .replace("%", "\\%")
-                .replace("}", "\\}")
+            escape_terminators(
+                &self
+                    .kind
+                    .replace("\\", "\\\\")
+                    .replace("{", "\\{")
+                    .replace("|", "\\|")
+            ),
+            escape_terminators(
+                &self
+                    .args
+                    .replace("\\", "\\\\")
+                    .replace("{", "\\{")
+                    .replace("%", "\\%")
+                    .replace("}", "\\}")
+            )
         )
     }
 }
diff --git a/src/op/embed.rs b/src/op/embed.rs
index 3e01187..222e91a 100644
--- a/src/op/embed.rs
+++ b/src/op/embed.rs
@@ -1,6 +1,6 @@
 use crate::{
     lexer::{Token, TokenKind},
-    op::{Node, Op, Parser},
+    op::{Node, Op, Parser, parser::StopCondition},
 };
 
 fn is_left_curly2(t: &Token) -> bool {
@@ -25,12 +25,13 @@ pub fn embed(p: &mut Parser) -> bool {
         return false;
     };
 
-    let Some((lhs_range, sep_range)) = p.eat_until(is_pipe) else {
-        p.pos = start;
-        return false;
-    };
+    let scan = p.with_eof(StopCondition::Terminator, |p| {
+        let (lhs_range, sep_range) = p.eat_until(is_pipe)?;
+        let (rhs_range, close_range) = p.eat_until(is_right_curly2)?;
+        Some((lhs_range, sep_range, rhs_range, close_range))
+    });
 
-    let Some((rhs_range, close_range)) = p.eat_until(is_right_curly2) else {
+    let Some((lhs_range, sep_range, rhs_range, close_range)) = scan else {
         p.pos = start;
         return false;
     };
-- 
2.43.0


From b8d2cb1bb489be5ff64f7c5f608ceef9866c78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 10/14] fix: trim CRLF line breaks the same way as LF ones

EOL is either `\n` or `\r\n`, but only `\n` was trimmed from metadata, code,
list items and highlight paragraphs, leaving a stray `\r` in CRLF documents.
---
 src/nodes/code.rs   | 4 ++--
 src/nodes/escape.rs | 4 ++++
 src/nodes/mod.rs    | 2 +-
 src/nodes/yamd.rs   | 5 +++--
 src/op/to_yamd.rs   | 8 ++++----
 5 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/nodes/code.rs b/src/nodes/code.rs
index 90d4428..55d6ef3 100644
--- a/src/nodes/code.rs
+++ b/src/nodes/code.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::escape::{escape_leading_eol, escape_trailing_eol};
+use super::escape::{EOL_CHARS, escape_leading_eol, escape_trailing_eol};
 
 /// # Code
 ///
@@ -40,7 +40,7 @@ pub struct Code {
 impl Code {
     pub fn new<S: Into<String>>(lang: S, code: S) -> Self {
         let code = code.into();
-        let code = code.trim_end_matches('\n').to_owned();
+        let code = code.trim_end_matches(EOL_CHARS).to_owned();
         Self {
             lang: lang.into(),
             code,
diff --git a/src/nodes/escape.rs b/src/nodes/escape.rs
index c093795..0fba887 100644
--- a/src/nodes/escape.rs
+++ b/src/nodes/escape.rs
@@ -65,3 +65,7 @@ pub(crate) fn escape_line(s: &str) -> String {
     let escape = if s.starts_with(' ') { "\\" } else { "" };
     escape_trailing_eol(format!("{escape}{}", s.replace('\n', "\\\n")))
 }
+
+/// Chars an [EOL](type@crate::lexer::TokenKind::Eol) consists of. They are trimmed where the
+/// grammar surrounds content with EOLs.
+pub(crate) const EOL_CHARS: [char; 2] = ['\n', '\r'];
diff --git a/src/nodes/mod.rs b/src/nodes/mod.rs
index 0b90afe..bb6222b 100644
--- a/src/nodes/mod.rs
+++ b/src/nodes/mod.rs
@@ -36,7 +36,7 @@ mod code_span;
 mod collapsible;
 mod embed;
 mod emphasis;
-mod escape;
+pub(crate) mod escape;
 mod heading;
 mod highlight;
 mod image;
diff --git a/src/nodes/yamd.rs b/src/nodes/yamd.rs
index 41b32cd..24369d5 100644
--- a/src/nodes/yamd.rs
+++ b/src/nodes/yamd.rs
@@ -5,7 +5,8 @@ use serde::{Deserialize, Serialize};
 
 use super::{
     Code, Collapsible, Embed, Heading, Highlight, Image, Images, List, Paragraph, ThematicBreak,
-    escape::escape_trailing_eol, paragraph::escape_leading_block_marker,
+    escape::{EOL_CHARS, escape_trailing_eol},
+    paragraph::escape_leading_block_marker,
 };
 
 #[derive(Debug, PartialEq, Clone, Eq)]
@@ -258,7 +259,7 @@ pub struct Yamd {
 
 impl Yamd {
     pub fn new(metadata: Option<String>, body: Vec<YamdNodes>) -> Self {
-        let metadata = metadata.map(|m| m.trim_matches('\n').to_owned());
+        let metadata = metadata.map(|m| m.trim_matches(EOL_CHARS).to_owned());
         Self { metadata, body }
     }
 }
diff --git a/src/op/to_yamd.rs b/src/op/to_yamd.rs
index 4cc0629..472bd9f 100644
--- a/src/op/to_yamd.rs
+++ b/src/op/to_yamd.rs
@@ -1,7 +1,7 @@
 use crate::nodes::{
     Anchor, Bold, BoldNodes, Code, CodeSpan, Collapsible, Embed, Emphasis, Heading, HeadingNodes,
     Highlight, Image, Images, Italic, List, ListItem, ListTypes, Paragraph, ParagraphNodes,
-    Strikethrough, ThematicBreak, Yamd, YamdNodes,
+    Strikethrough, ThematicBreak, Yamd, YamdNodes, escape::EOL_CHARS,
 };
 use crate::op::{Content, Node, Op, OpKind};
 
@@ -283,7 +283,7 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                         }
                     }
                     (Node::Metadata, Frame::Metadata { text }) => {
-                        let metadata = text.trim_matches('\n').to_owned();
+                        let metadata = text.trim_matches(EOL_CHARS).to_owned();
                         if let Some(Frame::Yamd { metadata: m, .. }) = stack.last_mut() {
                             *m = Some(metadata);
                         }
@@ -376,7 +376,7 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                         push_yamd_node(&mut stack, Images::new(images).into());
                     }
                     (Node::Code, Frame::Code { lang, code }) => {
-                        let code = code.trim_end_matches('\n').to_owned();
+                        let code = code.trim_end_matches(EOL_CHARS).to_owned();
                         push_yamd_node(&mut stack, Code::new(lang, code).into());
                     }
                     (Node::Modifier, Frame::Modifier { text }) => {
@@ -451,7 +451,7 @@ fn extract_heading_level(content: &Content, source: &str) -> u8 {
 
 fn trim_trailing_newline_from_text(body: &mut Vec<ParagraphNodes>) {
     if let Some(ParagraphNodes::Text(t)) = body.last_mut() {
-        let trimmed = t.trim_end_matches('\n');
+        let trimmed = t.trim_end_matches(EOL_CHARS);
         if trimmed.is_empty() {
             body.pop();
         } else {
-- 
2.43.0


From 2321cf673a97e63f5e77ba0c8f65bda413086323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 11/14] fix: parse a nested collapsible with an empty body

The closing marker on the line after the title was taken for the end of the
enclosing collapsible, so a nested collapsible without a body was not recognized
while the same text on its own was.
---
 src/op/collapsible.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/op/collapsible.rs b/src/op/collapsible.rs
index 310f83d..0e775f9 100644
--- a/src/op/collapsible.rs
+++ b/src/op/collapsible.rs
@@ -35,7 +35,9 @@ pub fn collapsible(p: &mut Parser) -> bool {
     let start_content = p.span(start_range);
     p.ops.push(Op::new_start(Node::Collapsible, start_content));
 
-    modifier(p);
+    // `%}` of the enclosing collapsible on the next line must not hide the end of the title: it
+    // closes this collapsible, when the body is empty.
+    p.with_no_stops(modifier);
 
     if !p.at(|t: &Token| t.position.column == 0) {
         p.pos = start;
-- 
2.43.0


From 62a49481dfc23e8b8240da117eac291c31e766c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 12/14] fix: do not produce empty paragraphs in a highlight

Blank lines between a highlight paragraph and the closing marker (or two
terminators in a row) added a paragraph without content, which did not survive
a round trip.
---
 src/op/to_yamd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/op/to_yamd.rs b/src/op/to_yamd.rs
index 472bd9f..7878296 100644
--- a/src/op/to_yamd.rs
+++ b/src/op/to_yamd.rs
@@ -296,7 +296,9 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                         match top {
                             Frame::Highlight { paragraphs, .. } => {
                                 trim_trailing_newline_from_text(&mut body);
-                                paragraphs.push(Paragraph::new(body));
+                                if !body.is_empty() {
+                                    paragraphs.push(Paragraph::new(body));
+                                }
                             }
                             Frame::ListItem { text, .. } => {
                                 trim_trailing_newline_from_text(&mut body);
-- 
2.43.0


From 41c441f580e982fe3f851b9576a3078493f2c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 13/14] fix: reject an op stream with an End that does not
 match its Start

try_to_yamd is documented to fail on it, but dropped both the frame and its
content silently.
---
 src/op/to_yamd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/op/to_yamd.rs b/src/op/to_yamd.rs
index 7878296..38d0d22 100644
--- a/src/op/to_yamd.rs
+++ b/src/op/to_yamd.rs
@@ -432,8 +432,8 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                             items.push(item);
                         }
                     }
-                    // coverage: defensive catchall for any (Node, Frame) mismatch; indicates a programmer or parser error
-                    _ => {}
+                    // End that doesn't match the frame it closes
+                    _ => return Err(UnbalancedOpStream),
                 }
             }
         }
-- 
2.43.0


From 6cd8d021a090a2b90ba83dd18d8475fdda204a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 14/14] fix: do not panic in `random` when literals are limited
 to 3 chars or less

---
 utils/src/commands/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/src/commands/random.rs b/utils/src/commands/random.rs
index fdb84c4..8f9f4b9 100644
--- a/utils/src/commands/random.rs
+++ b/utils/src/commands/random.rs
@@ -53,7 +53,7 @@ pub fn random(length: usize, max_literal_len: usize) {
             18 => ")",
             19 => "_",
             20 => "|",
-            _ => &random_string(rng.gen_range(3..max_literal_len), &mut rng),
+            _ => &random_string(rng.gen_range(3..max_literal_len.max(4)), &mut rng),
         };
         out.push_str(token);
     }
-- 
2.43.0

