From cabb76667e63f835d9a3c8e581806defd1fe3556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 01/24] fix: keep whitespace and comments around node type
 annotations when rendering

---
 src/node.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 6b3c75f..0f9d915 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -277,13 +277,18 @@ impl KdlNode {
     pub fn autoformat_config(&mut self, config: &FormatConfig<'_>) {
         if let Some(KdlNodeFormat {
             leading,
+            before_ty_name,
+            after_ty_name,
+            after_ty,
             before_terminator,
             terminator,
             trailing,
             before_children,
-            ..
         }) = self.format_mut()
         {
+            before_ty_name.clear();
+            after_ty_name.clear();
+            after_ty.clear();
             crate::fmt::autoformat_leading(leading, config);
             crate::fmt::autoformat_trailing(before_terminator, config.no_comments);
             crate::fmt::autoformat_trailing(trailing, config.no_comments);
@@ -835,7 +840,18 @@ impl KdlNode {
             write!(f, "{:indent$}", "", indent = indent)?;
         }
         if let Some(ty) = &self.ty {
-            write!(f, "({ty})")?;
+            write!(f, "(")?;
+            if let Some(KdlNodeFormat { before_ty_name, .. }) = self.format() {
+                write!(f, "{before_ty_name}")?;
+            }
+            write!(f, "{ty}")?;
+            if let Some(KdlNodeFormat { after_ty_name, .. }) = self.format() {
+                write!(f, "{after_ty_name}")?;
+            }
+            write!(f, ")")?;
+        }
+        if let Some(KdlNodeFormat { after_ty, .. }) = self.format() {
+            write!(f, "{after_ty}")?;
         }
         write!(f, "{}", self.name)?;
         let mut space_before_children = true;
-- 
2.43.0


From 789610e1e91d1ff99da24549d926de01d10c6c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:10 +0000
Subject: [PATCH 02/24] fix: keep whitespace and comments that follow a
 children block

---
 src/v2_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 3551732..ebd48fa 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -403,7 +403,7 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
     .parse_next(input)?;
     let (before_terminator, terminator) = if children.is_some() {
         (
-            opt(slashdashed_children).take(),
+            (opt(slashdashed_children), node_space0).take(),
             peek(opt(node_terminator).take()),
         )
             .parse_next(input)?
-- 
2.43.0


From 482fdd35fdd6e024be2862ba1c884c85cb723bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 03/24] fix: keep nodes and entries apart when rendering
 unterminated or unformatted siblings

---
 src/document.rs | 18 +++++++++++++++++-
 src/node.rs     |  4 +++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 300f176..5601ca5 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -541,8 +541,24 @@ impl KdlDocument {
         if let Some(KdlDocumentFormat { leading, .. }) = self.format() {
             write!(f, "{leading}")?;
         }
-        for node in &self.nodes {
+        let mut nodes = self.nodes.iter().peekable();
+        while let Some(node) = nodes.next() {
             node.stringify(f, indent)?;
+            // A node that doesn't carry its own terminator (or whose terminator
+            // is a comment that was ended by the end of the input) would
+            // otherwise run into the next one.
+            let terminated = node.format().is_some_and(|fmt| {
+                if fmt.trailing.is_empty() && fmt.terminator.starts_with("//") {
+                    crate::v2_parser::NEWLINES
+                        .iter()
+                        .any(|nl| fmt.terminator.ends_with(nl))
+                } else {
+                    !fmt.terminator.is_empty() || !fmt.trailing.is_empty()
+                }
+            });
+            if !terminated && (node.format().is_none() || nodes.peek().is_some()) {
+                writeln!(f)?;
+            }
         }
         if let Some(KdlDocumentFormat { trailing, .. }) = self.format() {
             write!(f, "{trailing}")?;
diff --git a/src/node.rs b/src/node.rs
index 0f9d915..ef5ca50 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -856,7 +856,9 @@ impl KdlNode {
         write!(f, "{}", self.name)?;
         let mut space_before_children = true;
         for entry in &self.entries {
-            if entry.format().is_none() {
+            // An entry that doesn't carry its own leading space would otherwise
+            // run into whatever comes before it.
+            if entry.format().is_none_or(|fmt| fmt.leading.is_empty()) {
                 write!(f, " ")?;
             }
             write!(f, "{entry}")?;
-- 
2.43.0


From 54590dfe5de55abebe91946a2e519e71cc719d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 04/24] fix: clear_format_recursive also clears the
 representation of node type annotations

---
 src/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index ef5ca50..b995301 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -140,6 +140,9 @@ impl KdlNode {
     /// children formatting will also be cleared.
     pub fn clear_format_recursive(&mut self) {
         self.clear_format();
+        if let Some(ty) = &mut self.ty {
+            ty.clear_format();
+        }
         self.name.clear_format();
         if let Some(children) = &mut self.children {
             children.clear_format_recursive();
-- 
2.43.0


From 40addf83c8b06e7a2736ca39e39df2b07ecab3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 05/24] fix: order KdlValue floats the way equality compares
 them

---
 src/value.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/value.rs b/src/value.rs
index 50853c0..d521dac 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -1,7 +1,7 @@
 use std::fmt::Display;
 
 /// A specific [KDL Value](https://github.com/kdl-org/kdl/blob/main/SPEC.md#value).
-#[derive(Debug, Clone, PartialOrd)]
+#[derive(Debug, Clone)]
 pub enum KdlValue {
     /// A [KDL String](https://github.com/kdl-org/kdl/blob/main/SPEC.md#string).
     String(String),
@@ -45,6 +45,32 @@ impl PartialEq for KdlValue {
     }
 }
 
+// Floats have to be compared the way `PartialEq` does it, or values could be
+// both equal and ordered (or equal and unordered).
+impl PartialOrd for KdlValue {
+    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
+        fn rank(value: &KdlValue) -> u8 {
+            match value {
+                KdlValue::String(_) => 0,
+                KdlValue::Integer(_) => 1,
+                KdlValue::Float(_) => 2,
+                KdlValue::Bool(_) => 3,
+                KdlValue::Null => 4,
+            }
+        }
+
+        match (self, other) {
+            (Self::String(l0), Self::String(r0)) => l0.partial_cmp(r0),
+            (Self::Integer(l0), Self::Integer(r0)) => l0.partial_cmp(r0),
+            (Self::Float(l0), Self::Float(r0)) => {
+                normalize_float(l0).partial_cmp(&normalize_float(r0))
+            }
+            (Self::Bool(l0), Self::Bool(r0)) => l0.partial_cmp(r0),
+            _ => rank(self).partial_cmp(&rank(other)),
+        }
+    }
+}
+
 // NOTE: I know, I know. This is terrible and I shouldn't do it, but it's
 // better than not being able to hash KdlValue at all.
 impl std::hash::Hash for KdlValue {
-- 
2.43.0


From e2c32d0d5cc21c5b3eba9e15af9d715b541eb11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 06/24] fix: remove properties by name value, and the one that
 lookups find

---
 src/node.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index b995301..bbac848 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -707,12 +707,13 @@ impl KdlNode {
     fn remove_impl(&mut self, key: NodeKey) -> Option<KdlEntry> {
         match key {
             NodeKey::Key(key) => {
-                for (idx, entry) in self.entries.iter().enumerate() {
-                    if entry.name.is_some() && entry.name.as_ref() == Some(&key) {
-                        return Some(self.entries.remove(idx));
-                    }
-                }
-                None
+                // This has to be the same entry that `entry` finds: names match
+                // by value, and the last of several wins.
+                let idx = self
+                    .entries
+                    .iter()
+                    .rposition(|e| e.name.as_ref().is_some_and(|n| n.value() == key.value()))?;
+                Some(self.entries.remove(idx))
             }
             NodeKey::Index(idx) => {
                 let mut current_idx = 0;
-- 
2.43.0


From c3e2e2397631c5499471fb054160f4858274eb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:04 +0000
Subject: [PATCH 07/24] fix: autoformat keeps single-line comments that end a
 node

---
 src/node.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index bbac848..b6d4a5e 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -296,7 +296,13 @@ impl KdlNode {
             crate::fmt::autoformat_trailing(before_terminator, config.no_comments);
             crate::fmt::autoformat_trailing(trailing, config.no_comments);
             *trailing = trailing.trim().into();
-            if !terminator.starts_with('\n') {
+            if terminator.starts_with("//") && !config.no_comments {
+                // A single-line comment doubles as the node's terminator.
+                *terminator = format!("{}\n", terminator.trim_end());
+                if before_terminator.is_empty() {
+                    before_terminator.push(' ');
+                }
+            } else if !terminator.starts_with('\n') {
                 *terminator = "\n".into();
             }
             if let Some(c) = trailing.chars().next()
-- 
2.43.0


From fd876a1628de9c435d5b9717ae84fcb6ced88cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 08/24] fix: keep the text after v1 nodes in order when
 converting them

---
 src/node.rs | 108 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 80 insertions(+), 28 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index b6d4a5e..fb3690b 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -401,35 +401,87 @@ impl KdlNode {
     }
 }
 
+/// Splits the text after a v1 node into what comes before its terminator, the
+/// terminator itself, and what follows it. Semicolons and newlines in comments
+/// (slashdash comments included) don't terminate a node, and neither do escaped
+/// newlines.
+#[cfg(feature = "v1")]
+fn split_v1_trailing(text: &str) -> (&str, &str, &str) {
+    let mut comment_depth = 0;
+    let mut block_depth = 0;
+    let mut escaped = false;
+    let mut start = 0;
+    let mut end = text.len();
+    while let Some(c) = text[start..].chars().next() {
+        let rest = &text[start..];
+        let newline = v2_parser::NEWLINES.iter().find(|nl| rest.starts_with(**nl));
+        if rest.starts_with("/*") {
+            comment_depth += 1;
+            start += 2;
+        } else if comment_depth > 0 && rest.starts_with("*/") {
+            comment_depth -= 1;
+            start += 2;
+        } else if comment_depth > 0 {
+            start += c.len_utf8();
+        } else if rest.starts_with("//") {
+            start += v2_parser::NEWLINES
+                .iter()
+                .filter_map(|nl| rest.find(nl))
+                .min()
+                .unwrap_or(rest.len());
+        } else if let Some(len) = v1_string_len(rest) {
+            start += len;
+        } else if c == '{' || c == '}' {
+            block_depth += if c == '{' { 1 } else { -1 };
+            start += 1;
+        } else if c == ';' && block_depth == 0 {
+            end = start + 1;
+            break;
+        } else if let Some(newline) = newline {
+            if !escaped && block_depth == 0 {
+                end = start + newline.len();
+                break;
+            }
+            escaped = false;
+            start += newline.len();
+        } else {
+            escaped |= c == '\\';
+            start += c.len_utf8();
+        }
+    }
+    (&text[..start], &text[start..end], &text[end..])
+}
+
+/// Length of the v1 string literal that `text` starts with, if any.
+#[cfg(feature = "v1")]
+fn v1_string_len(text: &str) -> Option<usize> {
+    if let Some(raw) = text.strip_prefix('r') {
+        let hashes = &raw[..raw.len() - raw.trim_start_matches('#').len()];
+        let body = raw[hashes.len()..].strip_prefix('"')?;
+        let len = body.find(&format!("\"{hashes}"))?;
+        return Some(2 + 2 * hashes.len() + len + 1);
+    }
+    let mut escaped = false;
+    text.strip_prefix('"')?
+        .find(|c| {
+            let end = c == '"' && !escaped;
+            escaped = c == '\\' && !escaped;
+            end
+        })
+        .map(|len| len + 2)
+}
+
 #[cfg(feature = "v1")]
 impl From<kdlv1::KdlNode> for KdlNode {
     fn from(value: kdlv1::KdlNode) -> Self {
-        let terminator = value
-            .trailing()
-            .map(|t| if t.contains(';') { ";" } else { "\n" })
-            .unwrap_or("\n");
-        let trailing = value.trailing().map(|t| {
-            if t.contains(';') {
-                t.replace(';', "")
-            } else {
-                let t = t.replace("\r\n", "\n");
-                let t = t
-                    .chars()
-                    .map(|c| {
-                        if v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)) {
-                            '\n'
-                        } else {
-                            c
-                        }
-                    })
-                    .collect::<String>();
-                if terminator == ";" {
-                    t
-                } else {
-                    t.replacen('\n', "", 1)
-                }
-            }
-        });
+        let (before_terminator, terminator, trailing) =
+            split_v1_trailing(value.trailing().unwrap_or(""));
+        // A v1 node may also end with its document.
+        let terminator = if terminator.is_empty() {
+            "\n"
+        } else {
+            terminator
+        };
         KdlNode {
             ty: value.ty().map(|x| x.clone().into()),
             name: value.name().clone().into(),
@@ -441,9 +493,9 @@ impl From<kdlv1::KdlNode> for KdlNode {
                 after_ty_name: "".into(),
                 after_ty: "".into(),
                 before_children: value.before_children().unwrap_or("").into(),
-                before_terminator: "".into(),
+                before_terminator: before_terminator.into(),
                 terminator: terminator.into(),
-                trailing: trailing.unwrap_or_else(|| "".into()),
+                trailing: trailing.into(),
             }),
             #[cfg(feature = "span")]
             span: SourceSpan::new(value.span().offset().into(), value.span().len()),
-- 
2.43.0


From ae70d8eb0fa24bc787de3117109dccdff465a328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 09/24] fix: converting between v1 and v2 keeps names,
 annotations and values intact

---
 src/entry.rs | 107 ++++++++++++++++++++++++---------------------------
 src/node.rs  |  10 ++---
 2 files changed, 55 insertions(+), 62 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 93fcef4..922a45c 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -222,6 +222,9 @@ impl KdlEntry {
 
     /// Makes sure this entry is in v2 format.
     pub fn ensure_v2(&mut self) {
+        for ident in self.ty.iter_mut().chain(self.name.iter_mut()) {
+            ident.clear_format();
+        }
         let value_repr = self.format.as_ref().map(|x| {
             match &self.value {
                 KdlValue::String(val) => {
@@ -229,7 +232,13 @@ impl KdlEntry {
                     // but just in case.
                     let s = x.value_repr.trim();
                     // convert raw strings to new format
-                    let s = s.strip_prefix('r').unwrap_or(s);
+                    let s = match s.strip_prefix('r') {
+                        Some(raw) if raw.starts_with('"') => format!("#{raw}#"),
+                        Some(raw) if raw.starts_with('#') => raw.to_string(),
+                        _ if s.starts_with('#') => s.to_string(),
+                        // `/` is no longer an escaped char in v2.
+                        _ => unescape_slashes(s),
+                    };
 
                     if crate::value::is_plain_ident(val) {
                         val.into()
@@ -240,7 +249,7 @@ impl KdlEntry {
                         // Multiline string. Need triple quotes if they're not there already.
                         if s.contains("\"\"\"") {
                             // We're probably good. This could be more precise, but close enough.
-                            s.to_string()
+                            s
                         } else {
                             // `"` -> `"""` but also extra newlines need to be
                             // added because v2 strips the first and last ones.
@@ -253,12 +262,9 @@ impl KdlEntry {
                                 .rev()
                                 .collect::<String>()
                         }
-                    } else if !s.starts_with('#') {
-                        // `/` is no longer an escaped char in v2.
-                        s.replace("\\/", "/")
                     } else {
                         // We're all good! Let's move on.
-                        s.to_string()
+                        s
                     }
                 }
                 // These have `#` prefixes now. The regular Display impl will
@@ -289,57 +295,27 @@ impl KdlEntry {
     /// Makes sure this entry is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
+        for ident in self.ty.iter_mut().chain(self.name.iter_mut()) {
+            let v1_name: kdlv1::KdlIdentifier = ident.value().into();
+            ident.set_repr(v1_name.to_string());
+        }
         let value_repr = self.format.as_ref().map(|x| {
             match &self.value {
                 KdlValue::String(val) => {
                     // cleanup. I don't _think_ this should have any whitespace,
                     // but just in case.
                     let s = x.value_repr.trim();
-                    // convert raw strings to v1 format
-                    let s = if s.starts_with('#') {
+                    if s.contains("\"\"\"") || !s.starts_with(['#', 'r']) || s == val {
+                        // Not every v2 string has a v1 spelling, so write the
+                        // value itself.
+                        kdlv1::KdlValue::String(val.clone())
+                            .to_string()
+                            .replace('/', "\\/")
+                    } else if s.starts_with('#') {
+                        // convert raw strings to v1 format
                         format!("r{s}")
                     } else {
-                        s.to_string()
-                    };
-
-                    if crate::value::is_plain_ident(val)
-                        && !s.starts_with('\"')
-                        && !s.starts_with("r#")
-                    {
-                        format!("\"{val}\"")
-                    } else if s
-                        .find(|c| v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)))
-                        .is_some()
-                    {
-                        // Multiline string. Let's make sure it's v1.
-                        if s.contains("\"\"\"") {
-                            let prefix = s
-                                .chars()
-                                .rev()
-                                .skip_while(|c| c == &'"')
-                                .take_while(|c| {
-                                    v2_parser::NEWLINES.iter().any(|nl| nl.contains(*c))
-                                })
-                                .collect::<String>();
-                            let prefix = prefix.chars().rev().collect::<String>();
-                            // Sigh. Yeah. I didn't promise this would be _efficient_.
-                            let mut s = s;
-                            for nl in v2_parser::NEWLINES {
-                                s = s.replace(&format!("{nl}{prefix}"), nl);
-                            }
-                            // And now we strips the beginning and ending newlines.
-                            // Finally, replace `"""` with `"`.
-                            s
-                        } else {
-                            // It's already a v1 string
-                            s
-                        }
-                    } else if !s.starts_with("r#") {
-                        // `/` is an escaped char in v2
-                        let s = s.replace("\\/", "/"); // Maneuvering. Will fix in a sec.
-                        s.replace('/', "\\/")
-                    } else {
-                        // We're all good! Let's move on.
+                        // It's already a v1 string
                         s.to_string()
                     }
                 }
@@ -366,15 +342,16 @@ impl KdlEntry {
                     }),
             )
         } else {
-            let v1_val = match self.value() {
-                KdlValue::String(s) => kdlv1::KdlValue::String(s.clone()),
-                KdlValue::Integer(i) => kdlv1::KdlValue::Base10(*i as i64),
-                KdlValue::Float(f) => kdlv1::KdlValue::Base10Float(*f),
-                KdlValue::Bool(b) => kdlv1::KdlValue::Bool(*b),
-                KdlValue::Null => kdlv1::KdlValue::Null,
+            let value_repr = match self.value() {
+                KdlValue::String(s) => kdlv1::KdlValue::String(s.clone()).to_string(),
+                // v1 values can't hold integers of this size, but its syntax can.
+                KdlValue::Integer(i) => i.to_string(),
+                KdlValue::Float(f) => kdlv1::KdlValue::Base10Float(*f).to_string(),
+                KdlValue::Bool(b) => kdlv1::KdlValue::Bool(*b).to_string(),
+                KdlValue::Null => kdlv1::KdlValue::Null.to_string(),
             };
             self.format = Some(KdlEntryFormat {
-                value_repr: v1_val.to_string(),
+                value_repr,
                 leading: " ".into(),
                 ..Default::default()
             })
@@ -382,6 +359,24 @@ impl KdlEntry {
     }
 }
 
+/// Replaces every `\/` escape with a plain `/`.
+fn unescape_slashes(s: &str) -> String {
+    let mut out = String::with_capacity(s.len());
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        if c == '\\' {
+            match chars.next() {
+                Some('/') => out.push('/'),
+                Some(escaped) => out.extend([c, escaped]),
+                None => out.push(c),
+            }
+        } else {
+            out.push(c);
+        }
+    }
+    out
+}
+
 #[cfg(feature = "v1")]
 impl From<kdlv1::KdlEntry> for KdlEntry {
     fn from(value: kdlv1::KdlEntry) -> Self {
diff --git a/src/node.rs b/src/node.rs
index fb3690b..ad2ae2e 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -385,12 +385,10 @@ impl KdlNode {
     /// Makes sure this node is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
-        self.ty = self.ty.take().map(|ty| {
-            let v1_name: kdlv1::KdlIdentifier = ty.value().into();
-            v1_name.into()
-        });
-        let v1_name: kdlv1::KdlIdentifier = self.name.value().into();
-        self.name = v1_name.into();
+        for ident in self.ty.iter_mut().chain([&mut self.name]) {
+            let v1_name: kdlv1::KdlIdentifier = ident.value().into();
+            ident.set_repr(v1_name.to_string());
+        }
         for entry in self.iter_mut() {
             entry.ensure_v1();
         }
-- 
2.43.0


From 43fa3c0059c7f5deeac192c0fcb0f4f5b4983133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 10/24] fix: autoformat also normalises the type annotations of
 entries

---
 src/entry.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index 922a45c..494e469 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -190,6 +190,10 @@ impl KdlEntry {
             });
         }
 
+        if let Some(ty) = &mut self.ty {
+            ty.autoformat();
+        }
+
         if let Some(name) = &mut self.name {
             name.autoformat();
         }
-- 
2.43.0


From 9d1959472af01bd51654a098a7541f8933f65b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 11/24] fix: parse nodes the same way through FromStr and
 KdlNode::parse

---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index ad2ae2e..7495dfd 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -878,7 +878,7 @@ impl FromStr for KdlNode {
     type Err = KdlError;
 
     fn from_str(input: &str) -> Result<Self, Self::Err> {
-        v2_parser::try_parse(v2_parser::padded_node, input)
+        Self::parse(input)
     }
 }
 
-- 
2.43.0


From f74fd615f2d7ef02a2c7a57a51df8aa3937b1730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 12/24] fix: autoformat keeps a comment after a node's
 terminator from swallowing the next node

---
 src/node.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 7495dfd..ad5b7b2 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -309,6 +309,8 @@ impl KdlNode {
                 && !c.is_whitespace()
             {
                 trailing.insert(0, ' ');
+                // A single-line comment must not swallow the next node.
+                trailing.push('\n');
             }
 
             *before_children = " ".into();
-- 
2.43.0


From 954c4cc126dbcbc53b754782e1ba56bdec28ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 13/24] fix: terminate the last node of a block when converting
 it to v1

---
 src/document.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 5601ca5..9b05ac1 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -421,12 +421,7 @@ impl KdlDocument {
         let penult = iter.next();
         if let Some(last) = last {
             if let Some(fmt) = last.format_mut() {
-                if !fmt.trailing.contains(';')
-                    && fmt
-                        .trailing
-                        .chars()
-                        .any(|c| crate::v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)))
-                {
+                if fmt.terminator.is_empty() {
                     fmt.terminator = ";".into();
                 }
             } else {
-- 
2.43.0


From 5f12cbf98a4f2c1f13af01474839437c6fa01cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 14/24] fix: keep the values of v1 entries without formatting
 when converting them

An entry of a v1 tree that was built by hand has no value_repr, and was
converted into one with an empty value_repr, so it printed without its value
(and without a space before it).
---
 src/entry.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 494e469..ac73af6 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -389,8 +389,11 @@ impl From<kdlv1::KdlEntry> for KdlEntry {
             value: value.value().clone().into(),
             name: value.name().map(|x| x.clone().into()),
             format: Some(KdlEntryFormat {
-                value_repr: value.value_repr().unwrap_or("").into(),
-                leading: value.leading().unwrap_or("").into(),
+                value_repr: value
+                    .value_repr()
+                    .map(|x| x.into())
+                    .unwrap_or_else(|| value.value().to_string()),
+                leading: value.leading().unwrap_or(" ").into(),
                 trailing: value.trailing().unwrap_or("").into(),
                 ..Default::default()
             }),
-- 
2.43.0


From 8b98dede2bd4b3a1b311985121771888a74673a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 15/24] fix: serialize the fields of struct variants

A struct variant at document level lost all its fields, because they were
written into a node that was dropped; in a field, #args and #rest were. #rest
also skipped the elements at the indices used by other fields.
---
 src/se.rs | 279 +++---------------------------------------------------
 1 file changed, 13 insertions(+), 266 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index 920527a..83962e8 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -35,7 +35,7 @@
 //! (de)serialization model.
 
 use serde::ser::{self, Serialize};
-use std::{collections::HashSet, fmt};
+use std::fmt;
 
 use crate::{KdlDocument, KdlEntry, KdlNode, KdlValue};
 
@@ -289,9 +289,7 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Ok(StructVariantSerializer {
             parent_nodes: &mut self.doc.nodes,
-            variant,
-            children: KdlDocument::new(),
-            used_indices: Default::default(),
+            node: KdlNode::new(variant),
         })
     }
 }
@@ -415,9 +413,7 @@ impl<'a> ser::SerializeStruct for MapNodeSerializer<'a> {
 
 struct StructVariantSerializer<'a> {
     parent_nodes: &'a mut Vec<KdlNode>,
-    variant: &'static str,
-    used_indices: HashSet<usize>,
-    children: KdlDocument,
+    node: KdlNode,
 }
 
 impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
@@ -429,32 +425,24 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        let mut node = KdlNode::new(key);
         if let Some(attr_name) = key.strip_prefix("#@") {
             let kdl_val = to_kdl_value(value)?;
-            node.entries_mut()
+            self.node
+                .entries_mut()
                 .push(KdlEntry::new_prop(attr_name, kdl_val));
-        } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: &mut node };
-            value.serialize(&mut ser)?;
-        } else if key == "#rest" {
-            let mut ser = RestSerializer {
-                node: &mut node,
-                used_indices: &self.used_indices,
+        } else if key == "#args" || key == "#rest" {
+            let mut ser = ArgsSerializer {
+                node: &mut self.node,
             };
             value.serialize(&mut ser)?;
         } else if key.starts_with("#") {
-            let idx: usize = key.strip_prefix('#').unwrap().parse().map_err(|e| Error {
-                msg: format!("Failed to parse index rename {key}: {e}"),
-            })?;
-            self.used_indices.insert(idx);
             let kdl_val = to_kdl_value(value)?;
-            node.entries_mut().push(KdlEntry::new(kdl_val));
+            self.node.entries_mut().push(KdlEntry::new(kdl_val));
         } else {
             let mut child = KdlNode::new(key);
             let mut child_ser = NodeValueSerializer { node: &mut child };
             value.serialize(&mut child_ser)?;
-            let children = node.ensure_children();
+            let children = self.node.ensure_children();
             match child.get(0) {
                 Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
                     // Skip adding this node
@@ -468,9 +456,7 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        let mut node = KdlNode::new(self.variant);
-        node.set_children(self.children);
-        self.parent_nodes.push(node);
+        self.parent_nodes.push(self.node);
         Ok(())
     }
 }
@@ -863,11 +849,11 @@ impl<'a> ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a> {
                 .entries_mut()
                 .push(KdlEntry::new_prop(attr_name, kdl_val));
         } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: &mut node };
+            let mut ser = ArgsSerializer { node: self.parent };
             value.serialize(&mut ser)?;
         } else if key == "#rest" {
             // TODO(@zkat): do this properly. Need to keep track of what args have been picked out.
-            let mut ser = ArgsSerializer { node: &mut node };
+            let mut ser = ArgsSerializer { node: self.parent };
             value.serialize(&mut ser)?;
         } else if key.starts_with("#") {
             // TODO(@zkat): How do we get the ordering here?... This will just
@@ -1263,245 +1249,6 @@ impl ser::Serializer for KdlValueSerializer {
     }
 }
 
-struct RestSerializer<'a> {
-    node: &'a mut KdlNode,
-    used_indices: &'a HashSet<usize>,
-}
-
-impl<'a> ser::Serializer for &'a mut RestSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    type SerializeSeq = RestSeqSerializer<'a>;
-    type SerializeTuple = RestSeqSerializer<'a>;
-    type SerializeTupleStruct = RestSeqSerializer<'a>;
-    type SerializeTupleVariant = ser::Impossible<(), Error>;
-    type SerializeMap = ser::Impossible<(), Error>;
-    type SerializeStruct = ser::Impossible<(), Error>;
-    type SerializeStructVariant = ser::Impossible<(), Error>;
-
-    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
-        Ok(RestSeqSerializer {
-            node: self.node,
-            used_indices: self.used_indices,
-            current_idx: 0,
-        })
-    }
-
-    fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, Self::Error> {
-        self.serialize_seq(Some(len))
-    }
-
-    fn serialize_tuple_struct(
-        self,
-        _: &'static str,
-        len: usize,
-    ) -> Result<Self::SerializeTupleStruct, Self::Error> {
-        self.serialize_seq(Some(len))
-    }
-
-    fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(v));
-        Ok(())
-    }
-
-    fn serialize_i8(self, v: i8) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i16(self, v: i16) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i32(self, v: i32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i64(self, v: i64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Integer(v as i128)));
-        Ok(())
-    }
-
-    fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u16(self, v: u16) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u32(self, v: u32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Integer(v as i128)));
-        Ok(())
-    }
-
-    fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_f64(v as f64)
-    }
-    fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Float(v)));
-        Ok(())
-    }
-
-    fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-        self.serialize_str(&v.to_string())
-    }
-
-    fn serialize_str(self, v: &str) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::String(v.to_string())));
-        Ok(())
-    }
-
-    fn serialize_bytes(self, _: &[u8]) -> Result<Self::Ok, Self::Error> {
-        Err(ser::Error::custom(
-            "bytes cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
-        Ok(())
-    }
-
-    fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
-    }
-
-    fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
-        Ok(())
-    }
-
-    fn serialize_unit_struct(self, _: &'static str) -> Result<Self::Ok, Self::Error> {
-        self.serialize_unit()
-    }
-
-    fn serialize_unit_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        variant: &'static str,
-    ) -> Result<Self::Ok, Self::Error> {
-        self.serialize_str(variant)
-    }
-
-    fn serialize_newtype_struct<T: ?Sized + Serialize>(
-        self,
-        _: &'static str,
-        value: &T,
-    ) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
-    }
-
-    fn serialize_newtype_variant<T: ?Sized + Serialize>(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: &T,
-    ) -> Result<Self::Ok, Self::Error> {
-        Err(ser::Error::custom(
-            "newtype variants cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
-        Err(ser::Error::custom(
-            "maps are cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_struct(
-        self,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeStruct, Self::Error> {
-        Err(ser::Error::custom(
-            "structs are cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_struct_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        Err(ser::Error::custom(
-            "struct variants cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_tuple_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Err(ser::Error::custom(
-            "tuple variants cannot be represented as KDL arguments",
-        ))
-    }
-}
-
-struct RestSeqSerializer<'a> {
-    node: &'a mut KdlNode,
-    used_indices: &'a HashSet<usize>,
-    current_idx: usize,
-}
-
-impl<'a> ser::SerializeSeq for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        if !self.used_indices.contains(&self.current_idx) {
-            let kdl_val = to_kdl_value(value)?;
-            self.node.entries_mut().push(KdlEntry::new(kdl_val));
-        }
-        self.current_idx += 1;
-        Ok(())
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
-    }
-}
-
-impl<'a> ser::SerializeTuple for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeSeq::serialize_element(self, value)
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        ser::SerializeSeq::end(self)
-    }
-}
-
-impl<'a> ser::SerializeTupleStruct for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeSeq::serialize_element(self, value)
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        ser::SerializeSeq::end(self)
-    }
-}
-
 struct ArgsSerializer<'a> {
     node: &'a mut KdlNode,
 }
-- 
2.43.0


From 08fa00a7655db1b2d4f55fb2acd722fb5a7ea855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 16/24] fix: only leave out fields whose own value is false or
 null

Sequences, tuples and structs whose first argument is false or null were left
out with everything else in them.
---
 src/se.rs | 55 +++++++++++++++++++------------------------------------
 1 file changed, 19 insertions(+), 36 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index 83962e8..ab59d13 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -395,13 +395,8 @@ impl<'a> ser::SerializeStruct for MapNodeSerializer<'a> {
     ) -> Result<(), Self::Error> {
         let mut node = KdlNode::new(key);
         serialize_value_into_node(&mut node, value)?;
-        match node.get(0) {
-            Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                // Skip adding this node
-            }
-            _ => {
-                self.nodes.push(node);
-            }
+        if !is_unset(value) {
+            self.nodes.push(node);
         }
         Ok(())
     }
@@ -443,13 +438,8 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
             let mut child_ser = NodeValueSerializer { node: &mut child };
             value.serialize(&mut child_ser)?;
             let children = self.node.ensure_children();
-            match child.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    children.nodes_mut().push(child);
-                }
+            if !is_unset(value) {
+                children.nodes_mut().push(child);
             }
         }
         Ok(())
@@ -461,6 +451,14 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
     }
 }
 
+/// Whether a field with this value is left out altogether.
+fn is_unset<T: ?Sized + Serialize>(value: &T) -> bool {
+    matches!(
+        to_kdl_value(value),
+        Ok(KdlValue::Bool(false) | KdlValue::Null)
+    )
+}
+
 /// Serializes a value into a node, adding it as an argument, or as children
 /// if the value is complex (struct/map/seq).
 fn serialize_value_into_node<T: ?Sized + Serialize>(
@@ -762,14 +760,9 @@ impl<'a> ser::SerializeMap for NodeChildMapSerializer<'a> {
         let mut child = KdlNode::new(key);
         let mut child_ser = NodeValueSerializer { node: &mut child };
         value.serialize(&mut child_ser)?;
-        match child.get(0) {
-            Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                // Skip adding this node
-            }
-            _ => {
-                let children = self.node.ensure_children();
-                children.nodes_mut().push(child);
-            }
+        if !is_unset(value) {
+            let children = self.node.ensure_children();
+            children.nodes_mut().push(child);
         }
         Ok(())
     }
@@ -810,13 +803,8 @@ impl<'a> ser::SerializeStruct for NodeChildMapSerializer<'a> {
             let mut child_ser = NodeValueSerializer { node: &mut child };
             value.serialize(&mut child_ser)?;
             let children = self.node.ensure_children();
-            match child.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    children.nodes_mut().push(child);
-                }
+            if !is_unset(value) {
+                children.nodes_mut().push(child);
             }
         }
         Ok(())
@@ -863,13 +851,8 @@ impl<'a> ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a> {
         } else {
             let mut child_ser = NodeValueSerializer { node: &mut node };
             value.serialize(&mut child_ser)?;
-            match node.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    self.children.nodes_mut().push(node);
-                }
+            if !is_unset(value) {
+                self.children.nodes_mut().push(node);
             }
         }
         Ok(())
-- 
2.43.0


From 50a203bd4428096560c88572fc87979dd3db18df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 17/24] fix: reject a literal U+007F, a disallowed code point
 in KDL 2

---
 src/v2_parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index ebd48fa..e2ec2bb 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1577,6 +1577,7 @@ pub(crate) fn is_disallowed_unicode(c: char) -> bool {
     matches!(c,
         '\u{0000}'..='\u{0008}'
         | '\u{000E}'..='\u{001F}'
+        | '\u{007F}'
         | '\u{200E}'..='\u{200F}'
         | '\u{202A}'..='\u{202E}'
         | '\u{2066}'..='\u{2069}'
-- 
2.43.0


From 5f27f0b5ae7336d1474c0e026d5c181e53c08998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:26 +0000
Subject: [PATCH 18/24] fix: accept a ';' after a commented-out node, and
 require a terminator there

---
 src/v2_parser.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index e2ec2bb..5c93e95 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -280,7 +280,7 @@ pub(crate) fn document(input: &mut Input<'_>) -> PResult<KdlDocument> {
 
 /// `nodes := (line-space* node)* line-space*`
 fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
-    let mut leading = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+    let mut leading = repeat(0.., alt((line_space, slashdashed_node)))
         .map(|()| ())
         .take()
         .parse_next(input)?;
@@ -293,7 +293,7 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
     .parse_next(input)?;
     let _span = span_from_checkpoint(input, &_start);
     opt(node_terminator).parse_next(input)?;
-    let trailing = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+    let trailing = repeat(0.., alt((line_space, slashdashed_node)))
         .map(|()| ())
         .take()
         .parse_next(input)?;
@@ -327,7 +327,7 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
 /// node := base-node node-space* node-terminator
 /// final-node := base-node node-space* node-terminator?
 fn node(input: &mut Input<'_>) -> PResult<KdlNode> {
-    let leading = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+    let leading = repeat(0.., alt((line_space, slashdashed_node)))
         .map(|()| ())
         .take()
         .parse_next(input)?;
@@ -338,6 +338,17 @@ fn node(input: &mut Input<'_>) -> PResult<KdlNode> {
     Ok(nd)
 }
 
+/// A commented-out node, along with its terminator.
+fn slashdashed_node(input: &mut Input<'_>) -> PResult<()> {
+    (
+        slashdash,
+        base_node,
+        alt((node_terminator, peek("}").void(), eof.void())),
+    )
+        .void()
+        .parse_next(input)
+}
+
 fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
     trace("children closing check", not(alt(("}".void(), eof.void())))).parse_next(input)?;
     let _start = input.checkpoint();
-- 
2.43.0


From 222fa1e3cf45ed27f532b5cbf1db056464418a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:11 +0000
Subject: [PATCH 19/24] fix: a commented-out node only follows a terminated one

---
 src/v2_parser.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 5c93e95..e6080d9 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -292,11 +292,19 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
     )
     .parse_next(input)?;
     let _span = span_from_checkpoint(input, &_start);
-    opt(node_terminator).parse_next(input)?;
-    let trailing = repeat(0.., alt((line_space, slashdashed_node)))
-        .map(|()| ())
-        .take()
-        .parse_next(input)?;
+    let terminated = opt(node_terminator).parse_next(input)?.is_some();
+    // A commented-out node can only follow a terminated one.
+    let trailing = if terminated {
+        repeat(0.., alt((line_space, slashdashed_node)))
+            .map(|()| ())
+            .take()
+            .parse_next(input)?
+    } else {
+        repeat(0.., line_space)
+            .map(|()| ())
+            .take()
+            .parse_next(input)?
+    };
 
     // If there is a node, let it have the leading format
     // This gives more consistent behavior
-- 
2.43.0


From 3cf5939015b2161e3e69cfc78e00f78ba62f740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:20 +0000
Subject: [PATCH 20/24] fix: a commented-out entry holds one entry, not another
 "/-"

---
 src/v2_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index e6080d9..8c40fe3 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -623,7 +623,7 @@ fn node_entry(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
 }
 
 fn slashdashed_entries(input: &mut Input<'_>) -> PResult<()> {
-    separated(1.., (slashdash, node_entry), node_space1)
+    separated(1.., (slashdash, not("/-"), node_entry), node_space1)
         .map(|()| ())
         .take()
         .map(|x| x.to_string())
-- 
2.43.0


From 5e5b427639f99beda72354b4e07837e6b1252b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:20 +0000
Subject: [PATCH 21/24] fix: read numbers with many digits: floats beyond an
 i128 and the least i128

---
 src/v2_parser.rs | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 8c40fe3..5f89f7b 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1786,27 +1786,29 @@ fn float<T: ParseFloat>(input: &mut Input<'_>) -> PResult<T> {
     (
         alt((
             (
-                decimal::<i128>,
+                signum,
+                integer_digits,
                 opt(preceded(
                     '.',
                     cut_err(
-                        udecimal::<i128>.context(
+                        integer_digits.context(
                             cx().msg("Non-digit character found after the '.' of a float"),
                         ),
                     ),
                 )),
                 Caseless("e"),
                 opt(one_of(['-', '+'])),
-                cut_err(udecimal::<i128>.context(
+                cut_err(integer_digits.context(
                     cx().msg("Non-digit character found in the exponent part of a float").hlp("Floats with exponent parts should look like '2.0e123', or '43.3E-4'."),
                 )),
             )
                 .take(),
             (
-                decimal::<i128>,
+                signum,
+                integer_digits,
                 '.',
                 cut_err(
-                    udecimal::<i128>
+                    integer_digits
                         .context(cx().msg("Non-digit character found after the '.' of a float")),
                 ),
             )
@@ -1861,15 +1863,11 @@ fn integer_value(input: &mut Input<'_>) -> PResult<KdlValue> {
 }
 
 /// Non-float decimal
-fn decimal<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
-    let positive = signum.parse_next(input)?;
-    udecimal::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
+fn decimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+    (signum, integer_digits)
+        .try_map(|(positive, digits)| {
+            let sign = if positive { "" } else { "-" };
+            T::from_str_radix(&format!("{sign}{}", digits.replace('_', "")), 10)
         })
         .parse_next(input)
 }
@@ -1884,17 +1882,12 @@ fn decimal_test() {
 }
 
 /// `integer := digit (digit | '_')*`
-fn udecimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn integer_digits<'s>(input: &mut Input<'s>) -> PResult<&'s str> {
     (
         digit1,
-        repeat(
-            0..,
-            alt(("_", take_while(1.., AsChar::is_dec_digit).take())),
-        ),
+        repeat(0.., alt(("_", take_while(1.., AsChar::is_dec_digit)))).map(|()| ()),
     )
-        .try_map(|(l, r): (&str, Vec<&str>)| {
-            T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 10)
-        })
+        .take()
         .parse_next(input)
 }
 
-- 
2.43.0


From 1265ee310b82a44c9593c353b55872ee9a8d6e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:20 +0000
Subject: [PATCH 22/24] fix: write strings that are no bare identifiers ("-.5",
 empty) in quotes

---
 src/value.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index d521dac..e2ee5d5 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -181,12 +181,15 @@ impl Display for KdlValue {
 
 pub(crate) fn is_plain_ident(ident: &str) -> bool {
     let ident_bytes = ident.as_bytes();
-    ident
-        .find(crate::v2_parser::is_disallowed_ident_char)
-        .is_none()
+    !ident.is_empty()
+        && ident
+            .find(crate::v2_parser::is_disallowed_ident_char)
+            .is_none()
         && ident_bytes.first().map(|c| c.is_ascii_digit()) != Some(true)
         && !(ident.chars().next().map(|c| matches!(c, '.' | '-' | '+')) == Some(true)
             && ident_bytes.get(1).map(|c| c.is_ascii_digit()) == Some(true))
+        // A sign and a dot in front of a digit look like a number, too.
+        && !matches!(ident_bytes, [b'-' | b'+', b'.', b'0'..=b'9', ..])
         && ident != "inf"
         && ident != "-inf"
         && ident != "nan"
-- 
2.43.0


From 12c3c916cdfa789fb5f7a8097e6c73d6f7dedf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:20 +0000
Subject: [PATCH 23/24] fix: escape newlines and disallowed code points when
 writing strings

---
 src/value.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/value.rs b/src/value.rs
index e2ee5d5..ee3deb0 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -220,6 +220,14 @@ impl KdlValue {
                     '\t' => write!(f, "\\t")?,
                     '\u{08}' => write!(f, "\\b")?,
                     '\u{0C}' => write!(f, "\\f")?,
+                    // The remaining newlines end a string, and disallowed code
+                    // points can only be written as escapes.
+                    '\u{0B}' | '\u{85}' | '\u{2028}' | '\u{2029}' => {
+                        write!(f, "\\u{{{:x}}}", char as u32)?
+                    }
+                    _ if crate::v2_parser::is_disallowed_unicode(char) => {
+                        write!(f, "\\u{{{:x}}}", char as u32)?
+                    }
                     _ => write!(f, "{char}")?,
                 }
             }
-- 
2.43.0


From 56c34448e2ae87df59de700e4674c5e26e1f1de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:11 +0000
Subject: [PATCH 24/24] fix: take over the last change of a notification and
 none from an empty one in kdl-lsp

---
 tools/kdl-lsp/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/kdl-lsp/src/main.rs b/tools/kdl-lsp/src/main.rs
index 539061c..c9b3731 100644
--- a/tools/kdl-lsp/src/main.rs
+++ b/tools/kdl-lsp/src/main.rs
@@ -82,8 +82,10 @@ impl LanguageServer for Backend {
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
-        self.on_change(params.text_document.uri, &params.content_changes[0].text)
-            .await;
+        // Every change holds the full text; the last one is the current one.
+        if let Some(change) = params.content_changes.last() {
+            self.on_change(params.text_document.uri, &change.text).await;
+        }
     }
 
     async fn did_save(&self, params: DidSaveTextDocumentParams) {
-- 
2.43.0

