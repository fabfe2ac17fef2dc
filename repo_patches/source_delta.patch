From 840dff1494228784757222f60f94c4f1dcf263bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:28 +0000
Subject: [PATCH 01/83] fix: reject non-ASCII hex colours instead of panicking

---
 crates/rich/src/color.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/rich/src/color.rs b/crates/rich/src/color.rs
index a333573..c18189f 100644
--- a/crates/rich/src/color.rs
+++ b/crates/rich/src/color.rs
@@ -53,6 +53,9 @@ impl Color {
 
     /// Parse a hex color (without the # prefix).
     fn parse_hex(hex: &str) -> Result<Self, ColorParseError> {
+        if !hex.is_ascii() {
+            return Err(ColorParseError::InvalidHex(format!("#{}", hex)));
+        }
         match hex.len() {
             // #RGB
             3 => {
-- 
2.43.0


From 8a24db4e9aed1a8f3deecc5a893e82164680faf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:28 +0000
Subject: [PATCH 02/83] fix: let the innermost markup tag win over the tags
 around it

---
 crates/rich/src/parser/markup.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/rich/src/parser/markup.rs b/crates/rich/src/parser/markup.rs
index ecd47d3..fe87f76 100644
--- a/crates/rich/src/parser/markup.rs
+++ b/crates/rich/src/parser/markup.rs
@@ -39,7 +39,13 @@ pub fn parse(input: &str) -> Result<ParsedMarkup, RichParseError> {
     // Close any remaining open tags
     parser.close_all_remaining();
 
-    Ok(ParsedMarkup::new(parser.output, parser.spans))
+    // Outer tags come before the tags nested in them, so that styles applied
+    // in span order let the innermost tag win.
+    let mut spans = parser.spans;
+    spans.sort_by_key(|(order, _)| *order);
+    let spans = spans.into_iter().map(|(_, span)| span).collect();
+
+    Ok(ParsedMarkup::new(parser.output, spans))
 }
 
 /// The main parser state.
@@ -48,8 +54,10 @@ struct Parser {
     style_stack: Vec<StackEntry>,
     /// Output plain text (markup stripped).
     output: String,
-    /// Generated spans.
-    spans: Vec<Span>,
+    /// Generated spans, each with the opening order of its tag.
+    spans: Vec<(usize, Span)>,
+    /// Number of tags opened so far.
+    opened: usize,
 }
 
 /// An entry on the style stack.
@@ -63,6 +71,8 @@ struct StackEntry {
     start_pos: usize,
     /// Original tag content (for matching close tags).
     tag_content: String,
+    /// Position of this tag among all opened tags.
+    order: usize,
 }
 
 impl Parser {
@@ -72,6 +82,7 @@ impl Parser {
             style_stack: Vec::new(),
             output: String::new(),
             spans: Vec::new(),
+            opened: 0,
         }
     }
 
@@ -140,7 +151,9 @@ impl Parser {
             meta,
             start_pos: self.output.len(),
             tag_content,
+            order: self.opened,
         };
+        self.opened += 1;
         self.style_stack.push(entry);
     }
 
@@ -189,7 +202,7 @@ impl Parser {
         // Only create span if there's actual content and styling
         if end_pos > entry.start_pos && (!entry.style.is_empty() || !entry.meta.is_empty()) {
             let span = Span::with_meta(entry.start_pos, end_pos, entry.style, entry.meta);
-            self.spans.push(span);
+            self.spans.push((entry.order, span));
         }
     }
 
-- 
2.43.0


From c8563414f2838789183210501af555ca6ca0c905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:28 +0000
Subject: [PATCH 03/83] fix: match named close tags on whole words only

---
 crates/rich/src/parser/markup.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/rich/src/parser/markup.rs b/crates/rich/src/parser/markup.rs
index fe87f76..fb0d77e 100644
--- a/crates/rich/src/parser/markup.rs
+++ b/crates/rich/src/parser/markup.rs
@@ -185,14 +185,15 @@ impl Parser {
 
     /// Check if a stack entry matches a close tag name.
     fn entry_matches(&self, entry: &StackEntry, name: &str) -> bool {
-        // Simple matching: check if the tag content starts with the name
-        // or contains it as a word
-        let content_lower = entry.tag_content.to_lowercase();
+        // The name must be the whole tag or one of its words.
+        let content_lower = entry.tag_content.trim().to_lowercase();
         let name_lower = name.to_lowercase();
 
         content_lower == name_lower
             || content_lower.starts_with(&format!("{} ", name_lower))
-            || content_lower.contains(&format!(" {}", name_lower))
+            || content_lower
+                .split_whitespace()
+                .any(|word| word == name_lower)
     }
 
     /// Create a span from a stack entry.
-- 
2.43.0


From fb79d49221abe33cff2613c76d7a295fb406e6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:06 +0000
Subject: [PATCH 04/83] fix: reject colour functions whose ')' precedes '('
 instead of panicking

---
 crates/tcss/src/types/color.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/tcss/src/types/color.rs b/crates/tcss/src/types/color.rs
index f407041..1e53de5 100644
--- a/crates/tcss/src/types/color.rs
+++ b/crates/tcss/src/types/color.rs
@@ -531,9 +531,10 @@ impl RgbaColor {
         let start = input.find('(').ok_or_else(|| ColorParseError {
             message: "missing '(' in rgb function".to_string(),
         })?;
-        let end = input.find(')').ok_or_else(|| ColorParseError {
-            message: "missing ')' in rgb function".to_string(),
-        })?;
+        let end = start
+            + input[start..].find(')').ok_or_else(|| ColorParseError {
+                message: "missing ')' in rgb function".to_string(),
+            })?;
 
         let content = &input[start + 1..end];
         let parts: Vec<&str> = content.split(',').map(|s| s.trim()).collect();
@@ -562,9 +563,10 @@ impl RgbaColor {
         let start = input.find('(').ok_or_else(|| ColorParseError {
             message: "missing '(' in hsl function".to_string(),
         })?;
-        let end = input.find(')').ok_or_else(|| ColorParseError {
-            message: "missing ')' in hsl function".to_string(),
-        })?;
+        let end = start
+            + input[start..].find(')').ok_or_else(|| ColorParseError {
+                message: "missing ')' in hsl function".to_string(),
+            })?;
 
         let content = &input[start + 1..end];
         let parts: Vec<&str> = content.split(',').map(|s| s.trim()).collect();
-- 
2.43.0


From ed6409e6e1ef1778af98fbf14bb07e571bda6bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:55 +0000
Subject: [PATCH 05/83] fix: treat variable definitions as statements and
 expand them transitively

---
 crates/tcss/src/parser/variables.rs | 158 +++++++++++++++++-----------
 1 file changed, 98 insertions(+), 60 deletions(-)

diff --git a/crates/tcss/src/parser/variables.rs b/crates/tcss/src/parser/variables.rs
index c7bed1c..8cc5be2 100644
--- a/crates/tcss/src/parser/variables.rs
+++ b/crates/tcss/src/parser/variables.rs
@@ -24,7 +24,7 @@
 //! 1. Block comments (`/* */`) are stripped
 //! 2. Variable definitions (`$name: value;`) are extracted
 //! 3. Variable references (`$name`) are replaced with values
-//! 4. Definition lines are removed from output
+//! 4. Definitions are removed from output
 
 use crate::error::TcssError;
 use std::collections::HashMap;
@@ -55,11 +55,9 @@ impl StylesheetVariables {
     }
 }
 
-pub fn resolve_variables(source: &str, vars: &StylesheetVariables) -> Result<String, TcssError> {
-    let mut output = String::new();
-
-    // Pass 1: Strip Block Comments entirely before processing
-    let mut clean_source = String::new();
+/// Removes `/* ... */` comments.
+fn strip_block_comments(source: &str) -> String {
+    let mut clean = String::with_capacity(source.len());
     let mut chars = source.chars().peekable();
     while let Some(c) = chars.next() {
         if c == '/' && chars.peek() == Some(&'*') {
@@ -72,72 +70,112 @@ pub fn resolve_variables(source: &str, vars: &StylesheetVariables) -> Result<Str
             }
             continue;
         }
-        clean_source.push(c);
+        clean.push(c);
     }
+    clean
+}
 
-    // Pass 2: Resolve variables line by line
-    for line in clean_source.lines() {
-        let trimmed = line.trim();
-        // Skip definition lines - they shouldn't be resolved or included in final CSS
-        if trimmed.starts_with('$') {
-            continue;
+fn is_name_char(c: char) -> bool {
+    c.is_alphanumeric() || c == '-' || c == '_'
+}
+
+/// Splits `text` (which starts with `$`) into the variable name and the rest.
+fn split_name(text: &str) -> (&str, &str) {
+    let after = &text[1..];
+    let end = after.find(|c| !is_name_char(c)).unwrap_or(after.len());
+    after.split_at(end)
+}
+
+/// Parses a `$name: value;` statement at the start of `text`.
+/// The value ends at the `;` or, if that is missing, at the end of the line.
+/// Returns the name, the value and the number of bytes the statement takes.
+fn parse_definition(text: &str) -> Option<(&str, &str, usize)> {
+    let (name, rest) = split_name(text);
+    let value = rest.trim_start_matches([' ', '\t']).strip_prefix(':')?;
+    if name.is_empty() {
+        return None;
+    }
+    let start = text.len() - value.len();
+    let len = value.find([';', '\n']).unwrap_or(value.len());
+    let end = start + len + usize::from(len < value.len());
+    Some((name, value[..len].trim(), end))
+}
+
+/// Walks over `source`, calling `definition` for each variable definition and
+/// `other` for each stretch of text between them.
+fn scan<'a>(
+    source: &'a str,
+    mut definition: impl FnMut(&'a str, &'a str),
+    mut other: impl FnMut(&'a str),
+) {
+    let mut at_statement_start = true;
+    let mut from = 0;
+    let mut pos = 0;
+    while let Some(c) = source[pos..].chars().next() {
+        if c == '$' && at_statement_start {
+            if let Some((name, value, len)) = parse_definition(&source[pos..]) {
+                other(&source[from..pos]);
+                definition(name, value);
+                pos += len;
+                from = pos;
+                continue;
+            }
         }
+        if !c.is_whitespace() {
+            at_statement_start = matches!(c, ';' | '{' | '}');
+        }
+        pos += c.len_utf8();
+    }
+    other(&source[from..]);
+}
 
-        let mut resolved_line = String::new();
-        let mut line_chars = line.chars().peekable();
-        while let Some(c) = line_chars.next() {
-            if c == '$' {
-                let mut name = String::new();
-                while let Some(&next) = line_chars.peek() {
-                    if next.is_alphanumeric() || next == '-' || next == '_' {
-                        name.push(line_chars.next().unwrap());
-                    } else {
-                        break;
-                    }
-                }
-                if let Some(val) = vars.resolve(&name) {
-                    resolved_line.push_str(&val);
-                } else {
-                    resolved_line.push('$');
-                    resolved_line.push_str(&name);
-                }
-            } else {
-                resolved_line.push(c);
+/// Appends `text` to `output`, replacing references to defined variables.
+/// `active` holds the variables being expanded, so that a cycle ends.
+fn expand<'a>(
+    text: &'a str,
+    vars: &'a StylesheetVariables,
+    active: &mut Vec<&'a str>,
+    output: &mut String,
+) {
+    let mut rest = text;
+    while let Some(dollar) = rest.find('$') {
+        output.push_str(&rest[..dollar]);
+        let (name, after) = split_name(&rest[dollar..]);
+        match vars.variables.get(name) {
+            Some(value) if !active.contains(&name) => {
+                active.push(name);
+                expand(value, vars, active, output);
+                active.pop();
+            }
+            _ => {
+                output.push('$');
+                output.push_str(name);
             }
         }
-        output.push_str(&resolved_line);
-        output.push('\n');
+        rest = after;
     }
+    output.push_str(rest);
+}
 
+pub fn resolve_variables(source: &str, vars: &StylesheetVariables) -> Result<String, TcssError> {
+    let clean_source = strip_block_comments(source);
+    let mut output = String::with_capacity(clean_source.len());
+    scan(
+        &clean_source,
+        // Definitions shouldn't be included in the final CSS
+        |_, _| {},
+        |text| expand(text, vars, &mut Vec::new(), &mut output),
+    );
     Ok(output)
 }
 
 pub fn extract_variables(source: &str) -> StylesheetVariables {
+    let clean_source = strip_block_comments(source);
     let mut vars = StylesheetVariables::new();
-    let mut in_comment = false;
-    for line in source.lines() {
-        let trimmed = line.trim();
-        if trimmed.contains("/*") {
-            in_comment = true;
-        }
-        if trimmed.contains("*/") {
-            in_comment = false;
-            continue;
-        }
-        if in_comment {
-            continue;
-        }
-
-        if trimmed.starts_with('$') {
-            if let Some(colon_idx) = trimmed.find(':') {
-                let name = trimmed[1..colon_idx].trim().to_string();
-                let mut value = trimmed[colon_idx + 1..].trim();
-                if value.ends_with(';') {
-                    value = &value[..value.len() - 1];
-                }
-                vars.define(name, value.to_string());
-            }
-        }
-    }
+    scan(
+        &clean_source,
+        |name, value| vars.define(name.to_string(), value.to_string()),
+        |_| {},
+    );
     vars
 }
-- 
2.43.0


From 4dd9baa305f396972f477de037f32c407265df01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:41 +0000
Subject: [PATCH 06/83] fix: end an unknown declaration at the closing brace of
 its own rule

---
 crates/tcss/src/parser/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/tcss/src/parser/mod.rs b/crates/tcss/src/parser/mod.rs
index 284b6ed..44fb814 100644
--- a/crates/tcss/src/parser/mod.rs
+++ b/crates/tcss/src/parser/mod.rs
@@ -407,7 +407,5 @@ fn take_until_balanced_braces(input: &str) -> IResult<&str, &str> {
 }
 
 fn take_until_semicolon_or_brace(input: &str) -> IResult<&str, &str> {
-    nom::bytes::complete::take_until(";")(input).or_else(|_: nom::Err<nom::error::Error<&str>>| {
-        nom::bytes::complete::take_until("}")(input)
-    })
+    nom::bytes::complete::take_till(|c| c == ';' || c == '}')(input)
 }
-- 
2.43.0


From 478043ed86ce84dc57d38d212f8048cbb901bb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:07 +0000
Subject: [PATCH 07/83] fix: try every ancestor when matching a descendant
 combinator

---
 crates/tcss/src/parser/cascade.rs | 89 ++++++++++---------------------
 1 file changed, 29 insertions(+), 60 deletions(-)

diff --git a/crates/tcss/src/parser/cascade.rs b/crates/tcss/src/parser/cascade.rs
index a4fb433..d92b07e 100644
--- a/crates/tcss/src/parser/cascade.rs
+++ b/crates/tcss/src/parser/cascade.rs
@@ -27,7 +27,8 @@ use bitflags::bitflags;
 
 use crate::{
     parser::{
-        Combinator, ComplexSelector, Declaration, Rule, RuleItem, Selector, Specificity, StyleSheet,
+        Combinator, ComplexSelector, Declaration, Rule, RuleItem, Selector, SelectorPart,
+        Specificity, StyleSheet,
     },
     types::{Border, ComputedStyle, RgbaColor, Theme},
 };
@@ -157,73 +158,41 @@ impl WidgetMeta {
         }
 
         // The rightmost part must match the widget itself.
-        let parts = &complex.parts;
-        let mut current_part_idx = parts.len() - 1;
+        let (last, rest) = complex.parts.split_last().expect("checked above");
+        self.matches_compound(last, ctx) && Self::matches_ancestors(rest, ancestors, ctx)
+    }
 
-        if !parts[current_part_idx]
-            .compound
+    /// Checks if this widget matches every simple selector of a selector part.
+    fn matches_compound(&self, part: &SelectorPart, ctx: &SelectorContext) -> bool {
+        part.compound
             .selectors
             .iter()
             .all(|s| self.matches_selector(s, ctx))
-        {
-            return false;
-        }
+    }
 
-        // If that was the only part, we matched.
-        if parts.len() == 1 {
+    /// Matches the remaining selector parts (right to left) against the ancestor chain.
+    /// A descendant combinator tries every ancestor, as the nearest match may not be
+    /// the one that satisfies the parts further left.
+    fn matches_ancestors(
+        parts: &[SelectorPart],
+        ancestors: &[WidgetMeta],
+        ctx: &SelectorContext,
+    ) -> bool {
+        let Some((part, rest)) = parts.split_last() else {
             return true;
-        }
-
-        // Match remaining parts against ancestors.
-        let mut ancestor_idx = 0;
-        current_part_idx -= 1;
-
-        while current_part_idx < parts.len() && ancestor_idx < ancestors.len() {
-            let part = &parts[current_part_idx];
-            let ancestor = &ancestors[ancestor_idx];
-
-            let matches = part
-                .compound
-                .selectors
-                .iter()
-                .all(|s| ancestor.matches_selector(s, ctx));
-
-            match part.combinator {
-                Combinator::Child => {
-                    if matches {
-                        if current_part_idx == 0 {
-                            return true;
-                        }
-                        current_part_idx -= 1;
-                    } else {
-                        return false;
-                    }
-                    ancestor_idx += 1;
-                }
-                Combinator::Descendant | Combinator::None => {
-                    if matches {
-                        if current_part_idx == 0 {
-                            return true;
-                        }
-                        current_part_idx -= 1;
-                    }
-                    ancestor_idx += 1;
-                }
-                // FIX: Add explicit return to satisfy type checker
-                Combinator::AdjacentSibling | Combinator::GeneralSibling => {
-                    return false;
-                }
+        };
+        match part.combinator {
+            Combinator::Child => ancestors.split_first().is_some_and(|(parent, above)| {
+                parent.matches_compound(part, ctx) && Self::matches_ancestors(rest, above, ctx)
+            }),
+            Combinator::Descendant | Combinator::None => {
+                ancestors.iter().enumerate().any(|(i, ancestor)| {
+                    ancestor.matches_compound(part, ctx)
+                        && Self::matches_ancestors(rest, &ancestors[i + 1..], ctx)
+                })
             }
+            Combinator::AdjacentSibling | Combinator::GeneralSibling => false,
         }
-
-        current_part_idx == usize::MAX
-            || current_part_idx == 0
-                && ancestor_idx < ancestors.len()
-                && parts[0]
-                    .compound
-                    .selectors
-                    .iter()
-                    .all(|s| ancestors[ancestor_idx].matches_selector(s, ctx))
     }
 }
 
-- 
2.43.0


From 9d68807ef593b4927c4a13edbbd6619c392d43c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:29 +0000
Subject: [PATCH 08/83] fix: rank a rule by its most specific matching selector

---
 crates/tcss/src/parser/cascade.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/tcss/src/parser/cascade.rs b/crates/tcss/src/parser/cascade.rs
index d92b07e..43d44f9 100644
--- a/crates/tcss/src/parser/cascade.rs
+++ b/crates/tcss/src/parser/cascade.rs
@@ -208,16 +208,21 @@ pub fn compute_style(
 
     // 1. Find all matching rules
     for (idx, rule) in stylesheet.rules.iter().enumerate() {
-        for complex in &rule.selectors.selectors {
-            if widget.matches_complex(complex, ancestors, &ctx) {
-                matched_rules.push(MatchedRule {
-                    specificity: complex.specificity(),
-                    source_order: idx,
-                    rule,
-                });
-                // Once one selector in a rule matches, the whole rule applies.
-                break;
-            }
+        // Once one selector in a rule matches, the whole rule applies,
+        // with the specificity of its most specific matching selector.
+        let specificity = rule
+            .selectors
+            .selectors
+            .iter()
+            .filter(|complex| widget.matches_complex(complex, ancestors, &ctx))
+            .map(|complex| complex.specificity())
+            .max();
+        if let Some(specificity) = specificity {
+            matched_rules.push(MatchedRule {
+                specificity,
+                source_order: idx,
+                rule,
+            });
         }
     }
 
-- 
2.43.0


From 74d736f2b3cc278bd7b11ec832a0f666019f1cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:42 +0000
Subject: [PATCH 09/83] fix: resolve theme styles in border-title-style and
 border-subtitle-style

---
 crates/tcss/src/parser/cascade.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/tcss/src/parser/cascade.rs b/crates/tcss/src/parser/cascade.rs
index 43d44f9..f9a34c9 100644
--- a/crates/tcss/src/parser/cascade.rs
+++ b/crates/tcss/src/parser/cascade.rs
@@ -306,10 +306,12 @@ fn apply_declaration(style: &mut ComputedStyle, decl: &Declaration, theme: &Them
             style.border_subtitle_background = Some(resolve_theme_color(c, theme));
         }
         Declaration::BorderTitleStyle(s) => {
-            style.border_title_style.merge(s);
+            let resolved = resolve_theme_style(s, theme);
+            style.border_title_style.merge(&resolved);
         }
         Declaration::BorderSubtitleStyle(s) => {
-            style.border_subtitle_style.merge(s);
+            let resolved = resolve_theme_style(s, theme);
+            style.border_subtitle_style.merge(&resolved);
         }
 
         // Edge-specific border properties
-- 
2.43.0


From 54442546f39475fb6107ccb15e43f59228ececf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:51 +0000
Subject: [PATCH 10/83] fix: crop strips to exactly the requested cells when a
 wide character straddles the edge

---
 crates/textual/src/strip.rs | 48 +++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/crates/textual/src/strip.rs b/crates/textual/src/strip.rs
index 7057158..5317b90 100644
--- a/crates/textual/src/strip.rs
+++ b/crates/textual/src/strip.rs
@@ -11,6 +11,7 @@
 //!         You are here
 //! ```
 
+use crate::grapheme::{display_width, graphemes};
 use crate::segment::{Segment, Style};
 use smallvec::{SmallVec, smallvec};
 use std::collections::HashMap;
@@ -168,7 +169,9 @@ impl Strip {
 
     /// Extracts a portion of the strip from `start` to `end` cell positions.
     ///
-    /// The resulting strip contains cells in the range [start, end).
+    /// The resulting strip contains cells in the range [start, end). When a boundary
+    /// falls inside a wide character, the half that lies in the range becomes a space,
+    /// so the result is always exactly as wide as the range (up to the strip's end).
     pub fn crop(&self, start: usize, end: usize) -> Strip {
         if start >= end || start >= self.cell_length {
             return Strip::new();
@@ -200,24 +203,14 @@ impl Strip {
             if local_start == 0 && local_end == seg_len {
                 // Include entire segment
                 result_segments.push(segment.clone());
-            } else if local_start == 0 {
-                // Take from start
-                let (left, _) = segment.split_at(local_end);
-                if !left.is_empty() {
-                    result_segments.push(left);
-                }
-            } else if local_end == seg_len {
-                // Take to end
-                let (_, right) = segment.split_at(local_start);
-                if !right.is_empty() {
-                    result_segments.push(right);
-                }
             } else {
-                // Take middle portion
-                let (_, temp) = segment.split_at(local_start);
-                let (middle, _) = temp.split_at(local_end - local_start);
-                if !middle.is_empty() {
-                    result_segments.push(middle);
+                let text = crop_text(segment.text(), local_start, local_end);
+                if !text.is_empty() {
+                    result_segments.push(build_segment(
+                        &text,
+                        segment.style().cloned(),
+                        segment.meta(),
+                    ));
                 }
             }
 
@@ -475,6 +468,25 @@ impl Strip {
     }
 }
 
+/// Returns the text occupying cells [start, end), with a space for each cell of a wide
+/// character that only partly lies in the range.
+fn crop_text(text: &str, start: usize, end: usize) -> String {
+    let mut result = String::new();
+    let total = display_width(text);
+    let mut pos = 0;
+    for grapheme in graphemes(text) {
+        let next = pos + display_width(grapheme);
+        if pos >= start && next <= end && (pos < end || end >= total) {
+            result.push_str(grapheme);
+        } else {
+            let visible = next.min(end).saturating_sub(pos.max(start));
+            result.push_str(&" ".repeat(visible));
+        }
+        pos = next;
+    }
+    result
+}
+
 fn build_segment(text: &str, style: Option<Style>, meta: &HashMap<String, String>) -> Segment {
     let mut segment = match style {
         Some(style) => Segment::styled(text, style),
-- 
2.43.0


From 5f4adae4c3f375f9245a36299d4f4cf23a92afad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:22 +0000
Subject: [PATCH 11/83] fix: keep segment metadata when simplifying a strip

---
 crates/textual/src/strip.rs | 42 +++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/crates/textual/src/strip.rs b/crates/textual/src/strip.rs
index 5317b90..9a9be2d 100644
--- a/crates/textual/src/strip.rs
+++ b/crates/textual/src/strip.rs
@@ -254,7 +254,7 @@ impl Strip {
         Strip::from_segments(segments)
     }
 
-    /// Merges adjacent segments with identical styles.
+    /// Merges adjacent segments with identical styles and metadata.
     ///
     /// This reduces memory usage and simplifies rendering.
     pub fn simplify(&self) -> Strip {
@@ -263,36 +263,32 @@ impl Strip {
         }
 
         let mut result = SegmentVec::new();
-        let mut current_text = String::new();
-        let mut current_style: Option<Style> = None;
-        let mut has_current = false;
+        let mut current: Option<(String, &Segment)> = None;
 
         for segment in &self.segments {
-            if !has_current {
-                current_text = segment.text().to_string();
-                current_style = segment.style().cloned();
-                has_current = true;
-            } else if segment.style() == current_style.as_ref() {
-                // Same style, merge text
-                current_text.push_str(segment.text());
-            } else {
-                // Different style, emit current and start new
-                if !current_text.is_empty() {
-                    match current_style {
-                        Some(s) => result.push(Segment::styled(current_text, s)),
-                        None => result.push(Segment::new(current_text)),
+            match &mut current {
+                Some((text, first))
+                    if first.style() == segment.style() && first.meta() == segment.meta() =>
+                {
+                    // Same style and metadata, merge text
+                    text.push_str(segment.text());
+                }
+                _ => {
+                    // Different style or metadata, emit current and start new
+                    if let Some((text, first)) = current.take() {
+                        if !text.is_empty() {
+                            result.push(build_segment(&text, first.style().cloned(), first.meta()));
+                        }
                     }
+                    current = Some((segment.text().to_string(), segment));
                 }
-                current_text = segment.text().to_string();
-                current_style = segment.style().cloned();
             }
         }
 
         // Emit final segment
-        if !current_text.is_empty() {
-            match current_style {
-                Some(s) => result.push(Segment::styled(current_text, s)),
-                None => result.push(Segment::new(current_text)),
+        if let Some((text, first)) = current {
+            if !text.is_empty() {
+                result.push(build_segment(&text, first.style().cloned(), first.meta()));
             }
         }
 
-- 
2.43.0


From 3eec977f8e554f03ff4496578258b59f9940f383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:42 +0000
Subject: [PATCH 12/83] fix: keep whitespace-only lines when wrapping content

---
 crates/textual/src/content.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/textual/src/content.rs b/crates/textual/src/content.rs
index 8df4ef1..b1bbb90 100644
--- a/crates/textual/src/content.rs
+++ b/crates/textual/src/content.rs
@@ -553,6 +553,10 @@ impl Content {
                     } else {
                         self.wrap_line(line, width)
                     };
+                    if wrapped.is_empty() {
+                        // A line of nothing but whitespace still occupies one (blank) line
+                        result.push(WrappedLine::new(Strip::new(), true));
+                    }
                     let last_index = wrapped.len().saturating_sub(1);
                     for (index, strip) in wrapped.into_iter().enumerate() {
                         let strip = if overflow == TextOverflow::Ellipsis {
-- 
2.43.0


From 380294ab78b4292fff5f32fdd9f4b427fde181c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:02 +0000
Subject: [PATCH 13/83] fix: fold unwrapped lines between characters, never
 through a wide one

---
 crates/textual/src/content.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/content.rs b/crates/textual/src/content.rs
index b1bbb90..44355aa 100644
--- a/crates/textual/src/content.rs
+++ b/crates/textual/src/content.rs
@@ -846,11 +846,18 @@ fn split_strip_by_width(strip: &Strip, width: usize) -> Vec<Strip> {
     }
     let mut parts = Vec::new();
     let mut start = 0;
-    while start < total {
-        let end = (start + width).min(total);
-        parts.push(strip.crop(start, end));
-        start = end;
+    let mut pos = 0;
+    for segment in strip.segments() {
+        for grapheme in graphemes(segment.text()) {
+            let next = pos + display_width(grapheme);
+            if next - start > width && pos > start {
+                parts.push(strip.crop(start, pos));
+                start = pos;
+            }
+            pos = next;
+        }
     }
+    parts.push(strip.crop(start, total));
     parts
 }
 
-- 
2.43.0


From f484a89197681d9844f11d890910758b169c74db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:37 +0000
Subject: [PATCH 14/83] fix: keep wrapped marked-up lines within the width

---
 crates/textual/src/content.rs | 121 ++++++++++++++--------------------
 1 file changed, 51 insertions(+), 70 deletions(-)

diff --git a/crates/textual/src/content.rs b/crates/textual/src/content.rs
index 44355aa..1bca360 100644
--- a/crates/textual/src/content.rs
+++ b/crates/textual/src/content.rs
@@ -25,7 +25,7 @@
 
 use std::collections::HashMap;
 
-use crate::grapheme::{display_width, graphemes};
+use crate::grapheme::{display_width, grapheme_indices, graphemes};
 use crate::segment::{Segment, Style};
 use crate::strip::Strip;
 use tcss::types::link::LinkStyle;
@@ -662,84 +662,65 @@ impl Content {
         spans: &[InternalSpan],
     ) -> Vec<Strip> {
         let mut result = Vec::new();
-        let mut current_width = 0;
-
-        // Process word by word
-        let words: Vec<&str> = line.split_whitespace().collect();
-        let mut word_positions: Vec<(usize, usize)> = Vec::new(); // (start, end) byte positions
+        let mut emit = |start: usize, end: usize| {
+            let strip = self.render_line_with_spans(
+                &line[start..end],
+                line_start + start,
+                line_start + end,
+                spans,
+            );
+            result.push(strip);
+        };
 
-        // Find byte positions of each word in the line
+        // Byte range of the output line being built (leading whitespace of the line is kept)
+        let mut current_start = 0;
+        let mut current_end = 0;
         let mut search_start = 0;
-        for word in &words {
-            if let Some(pos) = line[search_start..].find(word) {
-                let abs_pos = search_start + pos;
-                word_positions.push((abs_pos, abs_pos + word.len()));
-                search_start = abs_pos + word.len();
-            }
-        }
 
-        let mut current_segment_start = 0;
-        let mut i = 0;
+        for word in line.split_whitespace() {
+            let Some(offset) = line[search_start..].find(word) else {
+                continue;
+            };
+            let word_start = search_start + offset;
+            let word_end = word_start + word.len();
+            search_start = word_end;
 
-        while i < words.len() {
-            let word = words[i];
-            let word_width = display_width(word);
+            if display_width(&line[current_start..word_end]) <= width {
+                // Word fits, together with the whitespace before it
+                current_end = word_end;
+                continue;
+            }
 
-            if current_width == 0 {
-                // Start of line
-                if word_width <= width {
-                    current_width = word_width;
-                    i += 1;
-                } else {
-                    // Word too long, need to break it - use the simple approach for now
-                    let (word_byte_start, word_byte_end) = word_positions[i];
-                    let segment_text = &line[word_byte_start..word_byte_end];
-                    let abs_start = line_start + word_byte_start;
-                    let abs_end = line_start + word_byte_end;
-                    let strip =
-                        self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
-                    result.push(strip);
-                    current_segment_start = if i + 1 < word_positions.len() {
-                        word_positions[i + 1].0
-                    } else {
-                        line.len()
-                    };
-                    current_width = 0;
-                    i += 1;
-                }
-            } else {
-                let space_and_word = 1 + word_width;
-                if current_width + space_and_word <= width {
-                    // Word fits
-                    current_width += space_and_word;
-                    i += 1;
-                } else {
-                    // Word doesn't fit, emit current segment
-                    let segment_end = if i > 0 { word_positions[i - 1].1 } else { 0 };
-                    let segment_text = &line[current_segment_start..segment_end];
-                    let abs_start = line_start + current_segment_start;
-                    let abs_end = line_start + segment_end;
-                    let strip =
-                        self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
-                    result.push(strip);
-
-                    // Start new segment at this word
-                    current_segment_start = word_positions[i].0;
-                    current_width = 0;
+            if current_end > current_start {
+                emit(current_start, current_end);
+            }
+            current_start = word_start;
+            current_end = word_end;
+
+            if display_width(word) > width {
+                // Word is too long, need to break it
+                let mut piece_start = word_start;
+                let mut piece_width = 0;
+                for (index, grapheme) in grapheme_indices(word) {
+                    let grapheme_width = display_width(grapheme);
+                    let position = word_start + index;
+                    if piece_width + grapheme_width > width && position > piece_start {
+                        emit(piece_start, position);
+                        piece_start = position;
+                        piece_width = 0;
+                    }
+                    piece_width += grapheme_width;
                 }
+                emit(piece_start, word_end);
+                // The next word starts a new line
+                let rest = &line[word_end..];
+                current_start = word_end + (rest.len() - rest.trim_start().len());
+                current_end = current_start;
             }
         }
 
-        // Emit final segment
-        if current_width > 0 && !words.is_empty() {
-            let segment_end = word_positions.last().map(|(_, e)| *e).unwrap_or(line.len());
-            let segment_text = &line[current_segment_start..segment_end];
-            if !segment_text.is_empty() {
-                let abs_start = line_start + current_segment_start;
-                let abs_end = line_start + segment_end;
-                let strip = self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
-                result.push(strip);
-            }
+        if current_end > current_start {
+            emit(current_start, current_end);
         }
 
         result
-- 
2.43.0


From e0a4fdcb0df378917d0a922b33efeaa32e1b6e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:19 +0000
Subject: [PATCH 15/83] fix: allow canvases of more than 65535 cells

---
 crates/textual/src/canvas.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/textual/src/canvas.rs b/crates/textual/src/canvas.rs
index 0292538..4bc9cdb 100644
--- a/crates/textual/src/canvas.rs
+++ b/crates/textual/src/canvas.rs
@@ -140,7 +140,7 @@ impl Canvas {
             bg: None,
             attrs: TextAttributes::default(),
         };
-        let cell_count = (width * height) as usize;
+        let cell_count = width as usize * height as usize;
         Self {
             size: Size { width, height },
             cells: vec![blank_cell.clone(); cell_count],
-- 
2.43.0


From dd0959b5fda339ee3f88baaa784c2e7eafe53541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:38 +0000
Subject: [PATCH 16/83] fix: never send control characters from text to the
 terminal

---
 crates/textual/src/canvas.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/textual/src/canvas.rs b/crates/textual/src/canvas.rs
index 4bc9cdb..e46ed5d 100644
--- a/crates/textual/src/canvas.rs
+++ b/crates/textual/src/canvas.rs
@@ -286,6 +286,13 @@ impl Canvas {
             return;
         }
 
+        // Control characters would move the terminal's cursor or start escape sequences
+        let grapheme = if grapheme.chars().any(char::is_control) {
+            " "
+        } else {
+            grapheme
+        };
+
         let preserve_text = matches!(bg, Some(bg_color) if bg_color.a < 1.0 && !bg_color.is_transparent())
             && grapheme == " "
             && width == 1
-- 
2.43.0


From 25af23711a809083d4b2ef26c7ec98792bb09716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:15 +0000
Subject: [PATCH 17/83] fix: blank the other half of a wide character when one
 half is overwritten

---
 crates/textual/src/canvas.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/textual/src/canvas.rs b/crates/textual/src/canvas.rs
index e46ed5d..d363d65 100644
--- a/crates/textual/src/canvas.rs
+++ b/crates/textual/src/canvas.rs
@@ -306,6 +306,7 @@ impl Canvas {
                 self.cells[index].bg = Some(bg);
             }
         } else {
+            self.blank_severed_halves(index, width);
             self.cells[index] = Cell {
                 symbol: grapheme.to_string(),
                 width: width as u8,
@@ -343,6 +344,25 @@ impl Canvas {
         }
     }
 
+    /// Blanks the other half of any wide character that is about to be half overwritten
+    /// by writing the `width` cells from `index`.
+    fn blank_severed_halves(&mut self, index: usize, width: usize) {
+        let row_end = (index / self.size.width as usize + 1) * self.size.width as usize;
+        let after = index + width;
+        for severed in [
+            (self.cells[index].continuation && index > 0).then(|| index - 1),
+            (after < row_end && self.cells[after].continuation).then_some(after),
+        ]
+        .into_iter()
+        .flatten()
+        {
+            let cell = &mut self.cells[severed];
+            cell.symbol = " ".to_string();
+            cell.width = 1;
+            cell.continuation = false;
+        }
+    }
+
     /// Renders a Strip at the given position.
     ///
     /// Iterates through each segment in the strip and renders its text
-- 
2.43.0


From 068482a962605d5b2c94654d177afa96cd17bb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:40 +0000
Subject: [PATCH 18/83] hooks: let a harness supply terminal size and events
 and collect output (cfg vp_hooks)

---
 crates/textual/src/canvas.rs   |  2 +
 crates/textual/src/lib.rs      | 22 +++++++++-
 crates/textual/src/vp_hooks.rs | 73 ++++++++++++++++++++++++++++++++++
 3 files changed, 95 insertions(+), 2 deletions(-)
 create mode 100644 crates/textual/src/vp_hooks.rs

diff --git a/crates/textual/src/canvas.rs b/crates/textual/src/canvas.rs
index d363d65..d075973 100644
--- a/crates/textual/src/canvas.rs
+++ b/crates/textual/src/canvas.rs
@@ -405,6 +405,8 @@ impl Canvas {
         // diminishing returns and increase latency for interactive apps.
         let stdout = std::io::stdout();
         let mut out = BufWriter::with_capacity(8192, stdout.lock());
+        #[cfg(vp_hooks)]
+        let mut out = crate::vp_hooks::tap(out);
 
         // First flush requires full redraw
         if self.first_flush {
diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index cf6273d..d094edc 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 pub mod border_box;
 pub mod border_chars;
 pub mod border_render;
@@ -26,6 +28,8 @@ pub mod svg;
 pub mod testing;
 pub mod tree;
 pub mod visual;
+#[cfg(vp_hooks)]
+pub mod vp_hooks;
 pub mod widget;
 
 use crossterm::event::{DisableMouseCapture, EnableMouseCapture, EventStream};
@@ -36,7 +40,11 @@ use crossterm::{cursor, execute, terminal};
 use futures::StreamExt;
 use std::cell::Cell;
 use std::collections::{HashSet, VecDeque};
-use std::time::{Duration, Instant};
+use std::time::Duration;
+#[cfg(not(vp_hooks))]
+use std::time::Instant;
+#[cfg(vp_hooks)]
+use tokio::time::Instant;
 use tokio::sync::mpsc;
 
 pub use canvas::{Canvas, Region, Size};
@@ -682,7 +690,14 @@ pub trait App {
                 .cloned()
                 .unwrap_or_else(|| tcss::types::Theme::new("default", true));
 
-            let (mut cols, mut rows) = terminal::size()?;
+            #[cfg(not(vp_hooks))]
+            let terminal_size = terminal::size()?;
+            #[cfg(vp_hooks)]
+            let terminal_size = match vp_hooks::terminal_size() {
+                Some(size) => size,
+                None => terminal::size()?,
+            };
+            let (mut cols, mut rows) = terminal_size;
             let mut canvas = Canvas::new(cols, rows);
 
             // 2. Build the widget tree ONCE (persistent tree)
@@ -730,7 +745,10 @@ pub trait App {
             self.on_mount(&mut mount_ctx);
 
             // 4. Create async event stream
+            #[cfg(not(vp_hooks))]
             let mut event_stream = EventStream::new();
+            #[cfg(vp_hooks)]
+            let mut event_stream = vp_hooks::event_stream(EventStream::new);
 
             // Track the previous focus index to detect changes
             let mut last_focus_index = self.focus_index();
diff --git a/crates/textual/src/vp_hooks.rs b/crates/textual/src/vp_hooks.rs
new file mode 100644
index 0000000..023f02d
--- /dev/null
+++ b/crates/textual/src/vp_hooks.rs
@@ -0,0 +1,73 @@
+//! Verification hooks, compiled only with `--cfg vp_hooks`.
+//!
+//! They let a test harness stand in for the terminal: it supplies the terminal size and the
+//! input events, and receives the bytes that would have gone to stdout. Everything is per thread.
+
+use std::cell::{Cell, RefCell};
+use std::io::Write;
+
+use crossterm::event::Event;
+use tokio::sync::mpsc;
+
+thread_local! {
+    static OUTPUT: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
+    static SIZE: Cell<Option<(u16, u16)>> = const { Cell::new(None) };
+    static EVENTS: RefCell<Option<mpsc::UnboundedReceiver<std::io::Result<Event>>>> =
+        const { RefCell::new(None) };
+}
+
+/// Starts collecting this thread's terminal output instead of writing it to stdout.
+pub fn capture_output() {
+    OUTPUT.with(|o| *o.borrow_mut() = Some(Vec::new()));
+}
+
+/// Takes what has been collected since the last call.
+pub fn take_output() -> Vec<u8> {
+    OUTPUT.with(|o| o.borrow_mut().as_mut().map(std::mem::take).unwrap_or_default())
+}
+
+/// Sets the terminal size and the input events for the next event loop on this thread.
+pub fn set_terminal(size: (u16, u16), events: mpsc::UnboundedReceiver<std::io::Result<Event>>) {
+    SIZE.with(|s| s.set(Some(size)));
+    EVENTS.with(|e| *e.borrow_mut() = Some(events));
+}
+
+pub(crate) fn terminal_size() -> Option<(u16, u16)> {
+    SIZE.with(|s| s.get())
+}
+
+/// Yields the harness's events if there are any, and the real ones otherwise.
+pub(crate) fn event_stream<S>(
+    real: impl FnOnce() -> S,
+) -> futures::stream::BoxStream<'static, std::io::Result<Event>>
+where
+    S: futures::Stream<Item = std::io::Result<Event>> + Send + 'static,
+{
+    use futures::StreamExt;
+    match EVENTS.with(|e| e.borrow_mut().take()) {
+        Some(rx) => {
+            futures::stream::unfold(rx, |mut rx| async move { rx.recv().await.map(|e| (e, rx)) })
+                .boxed()
+        }
+        None => real().boxed(),
+    }
+}
+
+/// Diverts writes to the collected output while output is being captured.
+pub(crate) struct Tap<W: Write>(W);
+
+pub(crate) fn tap<W: Write>(out: W) -> Tap<W> {
+    Tap(out)
+}
+
+impl<W: Write> Write for Tap<W> {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        let captured = OUTPUT.with(|o| {
+            o.borrow_mut().as_mut().map(|v| v.extend_from_slice(buf)).is_some()
+        });
+        if captured { Ok(buf.len()) } else { self.0.write(buf) }
+    }
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.0.flush()
+    }
+}
-- 
2.43.0


From 80888b4bb6e3312819b1f4759a9c4bb264127c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:57 +0000
Subject: [PATCH 19/83] fix: repaint after key presses and async messages

---
 crates/textual/src/lib.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index d094edc..4feccf9 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -904,16 +904,15 @@ pub trait App {
                                     )
                                     .unwrap_or(false);
                                 // Global focus navigation (Tab / Shift+Tab)
-                                let mut focus_changed = false;
                                 match key_event.code {
                                     KeyCode::Tab => {
                                         if !palette_open {
-                                            focus_changed = tree.focus_next().is_some();
+                                            tree.focus_next();
                                         }
                                     }
                                     KeyCode::BackTab => {
                                         if !palette_open {
-                                            focus_changed = tree.focus_previous().is_some();
+                                            tree.focus_previous();
                                         }
                                     }
                                     _ => {}
@@ -964,7 +963,8 @@ pub trait App {
                                 let _ = drain_command_palette(self, &mut tree, &tx);
                                 // Check if app wants tree rebuild (Elm-style)
                                 needs_recompose = self.needs_recompose();
-                                needs_render = needs_render || focus_changed;
+                                // The key may have changed any widget (typing, toggling, focus)
+                                needs_render = true;
                             }
                             Some(Ok(Event::Resize(nw, nh))) => {
                                 // Handle terminal window resizing
@@ -1118,9 +1118,9 @@ pub trait App {
                         let event_ctx = AppContext::new(tx.clone());
                         let mut ctx = EventContext::new(event_ctx, &mut tree);
                         self.handle_message(envelope, &mut ctx);
-                        if drain_command_palette(self, &mut tree, &tx) {
-                            needs_render = true;
-                        }
+                        let _ = drain_command_palette(self, &mut tree, &tx);
+                        // The handler may have changed any widget
+                        needs_render = true;
                         // Check if app wants tree rebuild (Elm-style)
                         needs_recompose = self.needs_recompose();
                     }
-- 
2.43.0


From 8298d348f07078212707d496d0393a38ddc6d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:14 +0000
Subject: [PATCH 20/83] fix: combine widget default CSS in a fixed order

---
 crates/textual/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 4feccf9..47c5dde 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -39,7 +39,7 @@ pub use crossterm::event::{
 use crossterm::{cursor, execute, terminal};
 use futures::StreamExt;
 use std::cell::Cell;
-use std::collections::{HashSet, VecDeque};
+use std::collections::VecDeque;
 use std::time::Duration;
 #[cfg(not(vp_hooks))]
 use std::time::Instant;
@@ -125,10 +125,10 @@ use crate::{
 /// Walks the widget tree and collects unique `default_css()` strings from all widgets.
 /// These are prepended to the app's CSS to ensure widget defaults are applied with
 /// lower specificity than app-level styles.
-fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut HashSet<&'static str>) {
+fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut Vec<&'static str>) {
     let default_css = widget.default_css();
-    if !default_css.is_empty() {
-        collected.insert(default_css);
+    if !default_css.is_empty() && !collected.contains(&default_css) {
+        collected.push(default_css);
     }
     widget.for_each_child(&mut |child| {
         collect_default_css(child, collected);
@@ -139,10 +139,10 @@ fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut HashSet<&'
 ///
 /// Widget default CSS is prepended (lower specificity), so app CSS can override.
 fn build_combined_css<M: 'static>(root: &mut dyn Widget<M>, app_css: &str) -> String {
-    let mut defaults: HashSet<&'static str> = HashSet::new();
+    let mut defaults: Vec<&'static str> = Vec::new();
     collect_default_css(root, &mut defaults);
 
-    // Concatenate defaults (order doesn't matter, app CSS will override)
+    // Concatenate defaults in tree order, so that ties between them resolve the same every run
     let mut combined = String::new();
 
     // First add base widget CSS (universal defaults like scrollbar and link styling)
-- 
2.43.0


From e27f0611e76b9ecbcf9131db91b00f895f400b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:46 +0000
Subject: [PATCH 21/83] fix: apply default CSS of widgets that first appear on
 recompose

---
 crates/textual/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 47c5dde..5a95eea 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -719,8 +719,8 @@ pub trait App {
 
             // 3. Collect widget default CSS and combine with app CSS
             // Widget defaults are prepended (lower specificity), app CSS overrides
-            let combined_css = build_combined_css(tree.root_mut(), Self::CSS);
-            let stylesheet = tcss::parser::parse_stylesheet(&combined_css)
+            let mut combined_css = build_combined_css(tree.root_mut(), Self::CSS);
+            let mut stylesheet = tcss::parser::parse_stylesheet(&combined_css)
                 .map_err(|e| TextualError::InvalidCss(e.to_string()))?;
 
             // Set initial focus and cache the focus path
@@ -789,6 +789,14 @@ pub trait App {
                     tree.update_focus(self.focus_index());
                     last_focus_index = self.focus_index();
 
+                    // The new tree may hold widget types whose default CSS was not needed before
+                    let new_css = build_combined_css(tree.root_mut(), Self::CSS);
+                    if new_css != combined_css {
+                        stylesheet = tcss::parser::parse_stylesheet(&new_css)
+                            .map_err(|e| TextualError::InvalidCss(e.to_string()))?;
+                        combined_css = new_css;
+                    }
+
                     // Full style resolution for new tree
                     let mut ancestors = VecDeque::new();
                     resolve_styles(tree.root_mut(), &stylesheet, &theme, &mut ancestors);
-- 
2.43.0


From 5bd5264100d49ffc154e8b971983fda255e8f238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:59 +0000
Subject: [PATCH 22/83] fix: include unstyled text that reaches the end of a
 line in SVG output

---
 crates/textual/src/svg.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/svg.rs b/crates/textual/src/svg.rs
index d34615d..7dc092c 100644
--- a/crates/textual/src/svg.rs
+++ b/crates/textual/src/svg.rs
@@ -277,7 +277,9 @@ impl SvgRenderer {
 
                 // Check if we need to flush the current run
                 let style_changed = current_fg != run_fg || current_attrs != run_attrs;
-                if style_changed && !run_text.is_empty() {
+                // An unstyled run equals the sentinel's style, so the end of the line ends it too
+                let line_ended = x == width as i32 && !run_text.trim().is_empty();
+                if (style_changed || line_ended) && !run_text.is_empty() {
                     let x_pos = (run_start as f32) * self.config.char_width;
                     let text_length = (run_cells as f32) * self.config.char_width;
                     let class_name = run_fg
-- 
2.43.0


From af40883c088e0e54b7805c37d343ba21ab161de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:24 +0000
Subject: [PATCH 23/83] fix: let fr heights fill exactly their container in
 vertical layout

The space for fr children was taken from the viewport instead of the container,
margins were subtracted twice, and rounding could lose the last row.
---
 crates/textual/src/layouts/vertical.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index 4571ff6..b3cdd8d 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -130,10 +130,9 @@ impl Layout for VerticalLayout {
                         fixed_height_total += css_height as f64;
                     }
                     Unit::Percent | Unit::Height => {
-                        // Python uses parent.app.size (terminal size) for these units
-                        // So we use viewport, not available region
-                        let raw = (height.value / 100.0) * viewport.height as f64;
-                        fixed_height_total += raw;
+                        // Percentages of the container, less the margins (as in the second pass)
+                        let raw = (height.value / 100.0) * available.height as f64;
+                        fixed_height_total += (raw - margin_top - margin_bottom).max(0.0);
                     }
                     Unit::Width => {
                         // Python uses parent.app.size (terminal size) for w units
@@ -162,9 +161,8 @@ impl Layout for VerticalLayout {
         }
 
         // Calculate remaining space for fr units
-        // Use viewport.height to match Python's behavior (uses parent.app.size for all calculations)
         let remaining_for_fr =
-            (viewport.height as f64 - fixed_height_total - total_margin).max(0.0);
+            (available.height as f64 - fixed_height_total - total_margin).max(0.0);
 
         // Calculate fraction_unit (size of 1fr)
         // When remaining_for_fr <= 0, use fraction_unit = 1.0 (matching Python Textual)
@@ -176,6 +174,9 @@ impl Layout for VerticalLayout {
 
         // Second pass: calculate box_model heights as f64 and accumulate Y
         // Region heights are computed as floor(next_y) - floor(y)
+        // (a little is added first, so that parts that make up a whole number of cells reach it
+        // in spite of rounding)
+        let cell = |y: f64| (y + 1e-6).floor() as i32;
         let mut current_y: f64 = available.y as f64;
         prev_margin_bottom = 0.0;
 
@@ -259,11 +260,12 @@ impl Layout for VerticalLayout {
             let margin_top = child_style.margin.top.value as f64;
             let margin_bottom = child_style.margin.bottom.value as f64;
 
-            // For percentage/fill heights, reduce by margins to fit within container
-            // For explicit heights (cells), margins are outside the content box
+            // For percentage heights, reduce by margins to fit within container
+            // For explicit heights (cells), margins are outside the content box; the margins of
+            // fr and fill children were already taken off the space they share
             let should_reduce_by_margins = match &child_style.height {
-                Some(h) => matches!(h.unit, Unit::Percent | Unit::Height | Unit::Fraction),
-                None => desired_size.height == u16::MAX, // fill case
+                Some(h) => matches!(h.unit, Unit::Percent | Unit::Height),
+                None => false,
             };
             let box_height = if should_reduce_by_margins {
                 (box_height - margin_top - margin_bottom).max(0.0)
@@ -283,8 +285,8 @@ impl Layout for VerticalLayout {
             // Calculate next_y and region height using floor arithmetic
             // This matches Python: region.height = floor(next_y) - floor(y)
             let next_y = current_y + box_height;
-            let region_y = current_y.floor() as i32;
-            let region_height = (next_y.floor() as i32 - region_y).max(0);
+            let region_y = cell(current_y);
+            let region_height = (cell(next_y) - region_y).max(0);
 
             let new_region = Region {
                 x: available.x + margin_left,
-- 
2.43.0


From eab1adcbf551c9a2836440adb6e01f0865c91024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:24 +0000
Subject: [PATCH 24/83] fix: honour w, h, vw, vh and content-box widths in
 vertical layout

---
 crates/textual/src/layouts/vertical.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index b3cdd8d..62f5566 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -11,7 +11,9 @@ use crate::canvas::{Region, Size};
 use tcss::types::ComputedStyle;
 use tcss::types::geometry::Unit;
 
-use super::size_resolver::{apply_box_sizing_height, resolve_width_with_intrinsic};
+use super::size_resolver::{
+    apply_box_sizing_height, apply_box_sizing_width, resolve_width_with_intrinsic,
+};
 use super::{Layout, LayoutChild, Viewport, WidgetPlacement};
 
 /// Vertical layout - stacks children top-to-bottom.
@@ -32,7 +34,20 @@ fn resolve_child_width(
     let margin_right = child_style.margin.right.value as i32;
 
     // Resolve base width
-    let base_width = resolve_width_with_intrinsic(child_style, desired_size.width, available.width);
+    let base_width = match &child_style.width {
+        Some(w) => {
+            let percent_of = |basis: i32| ((w.value / 100.0) * basis as f64).round() as i32;
+            match w.unit {
+                Unit::Cells => apply_box_sizing_width(w.value as i32, child_style),
+                Unit::Width => percent_of(available.width),
+                Unit::Height => percent_of(available.height),
+                Unit::ViewWidth => percent_of(viewport.width),
+                Unit::ViewHeight => percent_of(viewport.height),
+                _ => resolve_width_with_intrinsic(child_style, desired_size.width, available.width),
+            }
+        }
+        None => resolve_width_with_intrinsic(child_style, desired_size.width, available.width),
+    };
     let should_reduce_by_margins = match &child_style.width {
         Some(w) => matches!(
             w.unit,
-- 
2.43.0


From 5e333e54038c9ee5a5af5a9fffe8ddc2ff4ba3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:24 +0000
Subject: [PATCH 25/83] fix: honour w, h, vw and vh heights in horizontal
 layout

---
 crates/textual/src/layouts/horizontal.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/textual/src/layouts/horizontal.rs b/crates/textual/src/layouts/horizontal.rs
index 5840dfc..66a22e2 100644
--- a/crates/textual/src/layouts/horizontal.rs
+++ b/crates/textual/src/layouts/horizontal.rs
@@ -233,14 +233,16 @@ impl Layout for HorizontalLayout {
                         available.height
                     }
                     Unit::Cells => apply_box_sizing_height(h.value as i32, child_style),
-                    Unit::Percent => {
-                        let css_height = ((h.value / 100.0) * available.height as f64) as i32;
+                    Unit::Percent | Unit::Width | Unit::Height | Unit::ViewWidth | Unit::ViewHeight => {
+                        let basis = match h.unit {
+                            Unit::Width => available.width,
+                            Unit::ViewWidth => viewport.width,
+                            Unit::ViewHeight => viewport.height,
+                            _ => available.height,
+                        };
+                        let css_height = ((h.value / 100.0) * basis as f64) as i32;
                         apply_box_sizing_height(css_height, child_style)
                     }
-                    _ => {
-                        // Other units - use value as-is with box-sizing
-                        apply_box_sizing_height(h.value as i32, child_style)
-                    }
                 }
             } else {
                 // No height specified - fill available (horizontal layout default)
-- 
2.43.0


From 546f7996a9d00763833fcbe7a5660e80c20003a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:24 +0000
Subject: [PATCH 26/83] fix: grow grid rows for spanning children instead of
 dropping the rest

---
 crates/textual/src/layouts/grid.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/layouts/grid.rs b/crates/textual/src/layouts/grid.rs
index ba10c2d..be792f0 100644
--- a/crates/textual/src/layouts/grid.rs
+++ b/crates/textual/src/layouts/grid.rs
@@ -121,13 +121,23 @@ impl GridLayout {
     }
 
     /// Get the number of rows, either from CSS or calculated.
-    fn row_count(&self, grid: &GridStyle, cols: usize, child_count: usize) -> usize {
+    fn row_count(&self, grid: &GridStyle, cols: usize, children: &[LayoutChild]) -> usize {
         if let Some(rows) = grid.rows {
             rows as usize
         } else if cols == 0 {
             1
         } else {
-            (child_count + cols - 1) / cols
+            // Rows grow as needed: place the children (with their spans) in a grid that is
+            // tall enough for all of them and count the rows they take.
+            let tall = children
+                .iter()
+                .map(|child| (child.style.grid_placement.row_span as usize).max(1))
+                .sum();
+            Self::compute_cell_assignments(children, tall, cols)
+                .iter()
+                .map(|(row, _, row_span, _)| row + row_span)
+                .max()
+                .unwrap_or(1)
         }
     }
 
@@ -436,7 +446,7 @@ impl GridLayout {
 
         let grid = &parent_style.grid;
         let cols = self.column_count(grid, available.width);
-        let rows = self.row_count(grid, cols, children.len());
+        let rows = self.row_count(grid, cols, children);
 
         let gutter_v = Self::resolve_scalar(&grid.gutter.0, available.height);
         let gutter_h = Self::resolve_scalar(&grid.gutter.1, available.width);
@@ -591,7 +601,7 @@ impl Layout for GridLayout {
 
         let grid = &parent_style.grid;
         let cols = self.column_count(grid, available.width);
-        let rows = self.row_count(grid, cols, children.len());
+        let rows = self.row_count(grid, cols, children);
 
         // Get gutter values
         let gutter_v = Self::resolve_scalar(&grid.gutter.0, available.height);
-- 
2.43.0


From f986fb5faf21d5adba025b971dc7590c9d9f4d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:24 +0000
Subject: [PATCH 27/83] fix: never give laid out children a negative region
 when docks exceed the container

---
 crates/textual/src/layouts/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/layouts/mod.rs b/crates/textual/src/layouts/mod.rs
index 5c559b5..066093e 100644
--- a/crates/textual/src/layouts/mod.rs
+++ b/crates/textual/src/layouts/mod.rs
@@ -191,10 +191,12 @@ pub fn arrange_children_with_viewport(
         y: available.y + dock_spacing.top,
         width: available
             .width
-            .saturating_sub(dock_spacing.left + dock_spacing.right),
+            .saturating_sub(dock_spacing.left + dock_spacing.right)
+            .max(0),
         height: available
             .height
-            .saturating_sub(dock_spacing.top + dock_spacing.bottom),
+            .saturating_sub(dock_spacing.top + dock_spacing.bottom)
+            .max(0),
     };
 
     // Run normal layout on remaining widgets
@@ -392,10 +394,12 @@ where
         y: available.y + dock_spacing.top,
         width: available
             .width
-            .saturating_sub(dock_spacing.left + dock_spacing.right),
+            .saturating_sub(dock_spacing.left + dock_spacing.right)
+            .max(0),
         height: available
             .height
-            .saturating_sub(dock_spacing.top + dock_spacing.bottom),
+            .saturating_sub(dock_spacing.top + dock_spacing.bottom)
+            .max(0),
     };
 
     // Run normal layout on remaining widgets
-- 
2.43.0


From f626489c25c0fb0ae7f666204e89433d97a89f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:24 +0000
Subject: [PATCH 28/83] fix: draw unlisted layers in a fixed order

---
 crates/textual/src/layouts/mod.rs | 42 ++++++++++++-------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/crates/textual/src/layouts/mod.rs b/crates/textual/src/layouts/mod.rs
index 066093e..d34615e 100644
--- a/crates/textual/src/layouts/mod.rs
+++ b/crates/textual/src/layouts/mod.rs
@@ -815,36 +815,26 @@ fn build_layers<'a>(
     children: &'a [LayoutChild],
     layer_order: &[String],
 ) -> Vec<(String, Vec<&'a LayoutChild<'a>>)> {
-    use std::collections::HashMap;
-
-    // Group children by their layer
-    let mut layer_map: HashMap<String, Vec<&LayoutChild>> = HashMap::new();
+    // Group children by their layer, in order of first appearance
+    let mut layers: Vec<(String, Vec<&LayoutChild>)> = Vec::new();
 
     for child in children {
-        let layer_name = child
-            .style
-            .layer
-            .clone()
-            .unwrap_or_else(|| "default".to_string());
-        layer_map.entry(layer_name).or_default().push(child);
-    }
-
-    let mut result = Vec::new();
-
-    // First: add widgets on layers NOT in layer_order (they render at the bottom)
-    // This matches Python where undefined layers default to index 0 (bottom-most)
-    for (name, widgets) in layer_map.iter() {
-        if !layer_order.contains(name) {
-            result.push((name.clone(), widgets.clone()));
+        let layer_name = child.style.layer.as_deref().unwrap_or("default");
+        match layers.iter_mut().find(|(name, _)| name == layer_name) {
+            Some((_, widgets)) => widgets.push(child),
+            None => layers.push((layer_name.to_string(), vec![child])),
         }
     }
 
-    // Then: add explicitly defined layers in order (later = on top)
-    for name in layer_order {
-        if let Some(widgets) = layer_map.get(name) {
-            result.push((name.clone(), widgets.clone()));
-        }
-    }
+    // First: widgets on layers NOT in layer_order (they render at the bottom)
+    // This matches Python where undefined layers default to index 0 (bottom-most)
+    // Then: explicitly defined layers in order (later = on top)
+    layers.sort_by_key(|(name, _)| {
+        layer_order
+            .iter()
+            .position(|layer| layer == name)
+            .map_or(0, |i| i + 1)
+    });
 
-    result
+    layers
 }
-- 
2.43.0


From e4d1c7f56927df5560aea47c01e51a381a0af04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:55 +0000
Subject: [PATCH 29/83] fix: keep the input cursor on a character when a
 combining mark is typed

---
 crates/textual/src/widget/input.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/widget/input.rs b/crates/textual/src/widget/input.rs
index 0957049..f06f949 100644
--- a/crates/textual/src/widget/input.rs
+++ b/crates/textual/src/widget/input.rs
@@ -170,7 +170,8 @@ impl<M> Input<M> {
         let cursor = self.cursor.min(grapheme_count(&self.value));
         let byte_index = grapheme_byte_index(&self.value, cursor);
         self.value.insert(byte_index, ch);
-        self.cursor = cursor + 1;
+        // The character may have joined the grapheme before it (a combining mark, for example)
+        self.cursor = grapheme_count(&self.value[..byte_index + ch.len_utf8()]);
         self.refresh_display();
     }
 
-- 
2.43.0


From d7ae9927b8e09025557f91c48dac8c188c01a81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:42 +0000
Subject: [PATCH 30/83] fix: keep the whitespace inside lines when wrapping

---
 crates/textual/src/content.rs | 100 ++--------------------------------
 1 file changed, 5 insertions(+), 95 deletions(-)

diff --git a/crates/textual/src/content.rs b/crates/textual/src/content.rs
index 1bca360..96b92bd 100644
--- a/crates/textual/src/content.rs
+++ b/crates/textual/src/content.rs
@@ -513,7 +513,6 @@ impl Content {
                 continue;
             }
 
-            let has_spans = self.spans.is_some();
             let render_full_line = || {
                 if let Some(spans) = &self.spans {
                     self.render_line_with_spans(line, line_start, line_end, spans)
@@ -547,11 +546,12 @@ impl Content {
                     }
                 },
                 TextWrap::Wrap => {
-                    let wrapped = if has_spans {
-                        let spans = self.spans.as_ref().unwrap();
-                        self.wrap_line_with_spans(line, line_start, width, spans)
+                    let wrapped = if display_width(line) <= width {
+                        // Line fits, keep it as it is (including its whitespace)
+                        vec![render_full_line()]
                     } else {
-                        self.wrap_line(line, width)
+                        let spans = self.spans.as_deref().unwrap_or_default();
+                        self.wrap_line_with_spans(line, line_start, width, spans)
                     };
                     if wrapped.is_empty() {
                         // A line of nothing but whitespace still occupies one (blank) line
@@ -725,96 +725,6 @@ impl Content {
 
         result
     }
-
-    /// Wraps a single line to the given width.
-    fn wrap_line(&self, line: &str, width: usize) -> Vec<Strip> {
-        let mut result = Vec::new();
-        let mut current_line = String::new();
-        let mut current_width = 0;
-
-        for word in line.split_whitespace() {
-            let word_width = display_width(word);
-
-            if current_width == 0 {
-                // Start of line
-                if word_width <= width {
-                    current_line = word.to_string();
-                    current_width = word_width;
-                } else {
-                    // Word is too long, need to break it
-                    result.extend(self.break_word(word, width));
-                }
-            } else if current_width + 1 + word_width <= width {
-                // Word fits with space
-                current_line.push(' ');
-                current_line.push_str(word);
-                current_width += 1 + word_width;
-            } else {
-                // Word doesn't fit, emit current line and start new
-                let segment = match &self.style {
-                    Some(s) => Segment::styled(&current_line, s.clone()),
-                    None => Segment::new(&current_line),
-                };
-                result.push(Strip::from_segment(segment));
-
-                if word_width <= width {
-                    current_line = word.to_string();
-                    current_width = word_width;
-                } else {
-                    current_line.clear();
-                    current_width = 0;
-                    result.extend(self.break_word(word, width));
-                }
-            }
-        }
-
-        // Emit final line
-        if !current_line.is_empty() {
-            let segment = match &self.style {
-                Some(s) => Segment::styled(&current_line, s.clone()),
-                None => Segment::new(&current_line),
-            };
-            result.push(Strip::from_segment(segment));
-        }
-
-        result
-    }
-
-    /// Breaks a word that is longer than the available width.
-    fn break_word(&self, word: &str, width: usize) -> Vec<Strip> {
-        let mut result = Vec::new();
-        let mut current = String::new();
-        let mut current_width = 0;
-
-        for grapheme in graphemes(word) {
-            let grapheme_width = display_width(grapheme);
-
-            if current_width + grapheme_width <= width {
-                current.push_str(grapheme);
-                current_width += grapheme_width;
-            } else {
-                if !current.is_empty() {
-                    let segment = match &self.style {
-                        Some(s) => Segment::styled(&current, s.clone()),
-                        None => Segment::new(&current),
-                    };
-                    result.push(Strip::from_segment(segment));
-                }
-                current = grapheme.to_string();
-                current_width = grapheme_width;
-            }
-        }
-
-        if !current.is_empty() {
-            let segment = match &self.style {
-                Some(s) => Segment::styled(&current, s.clone()),
-                None => Segment::new(&current),
-            };
-            result.push(Strip::from_segment(segment));
-        }
-
-        result
-    }
 }
 
 fn split_strip_by_width(strip: &Strip, width: usize) -> Vec<Strip> {
-- 
2.43.0


From 42c8fa2aeccd129e7777f934517de625fb12a7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:54 +0000
Subject: [PATCH 31/83] fix: tell translucent borders from opaque ones in the
 border cache

---
 crates/textual/src/border_box.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/textual/src/border_box.rs b/crates/textual/src/border_box.rs
index bcb0b9c..c06ed2f 100644
--- a/crates/textual/src/border_box.rs
+++ b/crates/textual/src/border_box.rs
@@ -22,18 +22,27 @@ struct BoxCacheKey {
     outer_style_key: StyleKey,
 }
 
-/// Simplified style key for caching (colors only, not all attributes).
+/// Style key for caching (colors including their alpha, and text attributes).
 #[derive(Hash, PartialEq, Eq, Clone, Debug, Default)]
 struct StyleKey {
-    fg: Option<(u8, u8, u8)>,
-    bg: Option<(u8, u8, u8)>,
+    fg: Option<(u8, u8, u8, u32)>,
+    bg: Option<(u8, u8, u8, u32)>,
+    attributes: [bool; 6],
 }
 
 impl From<&Style> for StyleKey {
     fn from(style: &Style) -> Self {
         Self {
-            fg: style.fg.as_ref().map(|c| (c.r, c.g, c.b)),
-            bg: style.bg.as_ref().map(|c| (c.r, c.g, c.b)),
+            fg: style.fg.as_ref().map(|c| (c.r, c.g, c.b, c.a.to_bits())),
+            bg: style.bg.as_ref().map(|c| (c.r, c.g, c.b, c.a.to_bits())),
+            attributes: [
+                style.bold,
+                style.dim,
+                style.italic,
+                style.underline,
+                style.strike,
+                style.reverse,
+            ],
         }
     }
 }
-- 
2.43.0


From ea0dd9ae891a5de39c5aaca886588d4e3a8f85c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:20 +0000
Subject: [PATCH 32/83] fix: keep rows of a box within its width when padding
 or borders exceed it

---
 crates/textual/src/render_cache.rs | 37 ++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/crates/textual/src/render_cache.rs b/crates/textual/src/render_cache.rs
index 88f5598..b562bee 100644
--- a/crates/textual/src/render_cache.rs
+++ b/crates/textual/src/render_cache.rs
@@ -417,33 +417,45 @@ impl RenderCache {
         };
 
         // Apply outline as final overlay (outline renders ON TOP of content)
-        self.apply_outline(base_strip, y, height, width)
+        let strip = self.apply_outline(base_strip, y, height, width);
+        if strip.cell_length() > width {
+            // Borders or outlines on both sides of a row too narrow for them
+            return strip.crop(0, width);
+        }
+        strip
+    }
+
+    /// Returns the left and right padding that fit in a row of `width` cells.
+    fn horizontal_padding(&self, width: usize) -> (usize, usize) {
+        let left = self.padding_left.min(width);
+        (left, self.padding_right.min(width - left))
     }
 
     /// Renders a content row without any border (just padding and content).
     fn render_content_row(&self, width: usize, content_line: Option<&Strip>) -> Strip {
-        let content_width = width.saturating_sub(self.padding_left + self.padding_right);
+        let (padding_left, padding_right) = self.horizontal_padding(width);
+        let content_width = width.saturating_sub(padding_left + padding_right);
         let content_strip = match content_line {
             Some(strip) => strip.adjust_cell_length(content_width, self.pad_style()),
             None => Strip::blank(content_width, self.pad_style()),
         };
 
-        if self.padding_left == 0 && self.padding_right == 0 {
+        if padding_left == 0 && padding_right == 0 {
             return content_strip;
         }
 
         // Build: padding_left + content + padding_right
         let mut segments = Vec::new();
-        if self.padding_left > 0 {
+        if padding_left > 0 {
             segments.push(crate::segment::Segment::blank(
-                self.padding_left,
+                padding_left,
                 self.pad_style(),
             ));
         }
         segments.extend(content_strip.segments().iter().cloned());
-        if self.padding_right > 0 {
+        if padding_right > 0 {
             segments.push(crate::segment::Segment::blank(
-                self.padding_right,
+                padding_right,
                 self.pad_style(),
             ));
         }
@@ -567,7 +579,8 @@ impl RenderCache {
         let left_border_width = if self.has_left_border { 1 } else { 0 };
         let right_border_width = if self.has_right_border { 1 } else { 0 };
         let inner_width = width.saturating_sub(left_border_width + right_border_width);
-        let content_width = inner_width.saturating_sub(self.padding_left + self.padding_right);
+        let (padding_left, padding_right) = self.horizontal_padding(inner_width);
+        let content_width = inner_width.saturating_sub(padding_left + padding_right);
 
         let mut segments = Vec::new();
 
@@ -577,8 +590,8 @@ impl RenderCache {
         }
 
         // Left padding
-        if self.padding_left > 0 {
-            segments.push(Segment::blank(self.padding_left, self.pad_style()));
+        if padding_left > 0 {
+            segments.push(Segment::blank(padding_left, self.pad_style()));
         }
 
         // Content
@@ -589,8 +602,8 @@ impl RenderCache {
         segments.extend(content_strip.segments().iter().cloned());
 
         // Right padding
-        if self.padding_right > 0 {
-            segments.push(Segment::blank(self.padding_right, self.pad_style()));
+        if padding_right > 0 {
+            segments.push(Segment::blank(padding_right, self.pad_style()));
         }
 
         // Right border if present
-- 
2.43.0


From 875de5a7fe4f72bdaa6622b8ce1999301946412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:00 +0000
Subject: [PATCH 33/83] fix: draw each border and outline edge in its own kind

---
 crates/textual/src/render_cache.rs | 68 ++++++++++++++++++------------
 1 file changed, 41 insertions(+), 27 deletions(-)

diff --git a/crates/textual/src/render_cache.rs b/crates/textual/src/render_cache.rs
index b562bee..5dd2dd0 100644
--- a/crates/textual/src/render_cache.rs
+++ b/crates/textual/src/render_cache.rs
@@ -3,7 +3,7 @@
 //! This module provides the `RenderCache` struct which orchestrates rendering
 //! a widget line-by-line, handling borders and content placement.
 
-use tcss::types::border::BorderKind;
+use tcss::types::border::{Border, BorderKind};
 use tcss::types::{AlignHorizontal, ComputedStyle};
 
 use crate::border_box::{BoxSegments, get_box};
@@ -75,14 +75,10 @@ impl RenderCache {
         };
         let has_border = has_top_border || has_right_border || has_bottom_border || has_left_border;
 
-        // Use top border kind as the primary style (for box character selection)
-        let border_kind = style.border.top.kind;
-
         // Use the centralized effective_background from ComputedStyle
         let effective_bg = style.effective_background();
 
         let border_box = if has_border {
-            let border_type = border_kind_to_str(border_kind);
             let effective_opacity = style.opacity * style.opacity;
             let resolve_edge_color =
                 |edge: &tcss::types::border::BorderEdge| -> Option<tcss::types::RgbaColor> {
@@ -118,21 +114,23 @@ impl RenderCache {
             let uniform =
                 top_color == bottom_color && top_color == left_color && top_color == right_color;
 
-            if uniform {
-                Some(get_box(border_type, &top_inner, &top_outer))
-            } else {
-                Some(build_border_box_per_edge(
-                    border_type,
-                    &top_inner,
-                    &top_outer,
-                    &bottom_inner,
-                    &bottom_outer,
-                    &left_inner,
-                    &left_outer,
-                    &right_inner,
-                    &right_outer,
-                ))
-            }
+            Some(box_for_edges(&style.border, |border_type| {
+                if uniform {
+                    get_box(border_type, &top_inner, &top_outer)
+                } else {
+                    build_border_box_per_edge(
+                        border_type,
+                        &top_inner,
+                        &top_outer,
+                        &bottom_inner,
+                        &bottom_outer,
+                        &left_inner,
+                        &left_outer,
+                        &right_inner,
+                        &right_outer,
+                    )
+                }
+            }))
         } else {
             None
         };
@@ -170,8 +168,6 @@ impl RenderCache {
 
         // Build outline box segments if any outline edge is visible
         let outline_box = if has_outline {
-            let outline_kind = style.outline.top.kind;
-            let outline_type = border_kind_to_str(outline_kind);
             // Outline color, falling back to text color
             let outline_color = style
                 .outline
@@ -190,11 +186,9 @@ impl RenderCache {
                 bg: style.inherited_background.clone(),
                 ..Default::default()
             };
-            Some(get_box(
-                outline_type,
-                &outline_inner_style,
-                &outline_outer_style,
-            ))
+            Some(box_for_edges(&style.outline, |outline_type| {
+                get_box(outline_type, &outline_inner_style, &outline_outer_style)
+            }))
         } else {
             None
         };
@@ -770,6 +764,26 @@ fn border_kind_to_str(kind: BorderKind) -> &'static str {
     }
 }
 
+/// Assembles a box whose rows and sides each use the characters of their own edge's kind.
+fn box_for_edges(
+    border: &Border,
+    build: impl Fn(&'static str) -> [BoxSegments; 3],
+) -> [BoxSegments; 3] {
+    let top_kind = border.top.kind;
+    let [top, middle, bottom] = build(border_kind_to_str(top_kind));
+    if [&border.right, &border.bottom, &border.left]
+        .iter()
+        .all(|edge| edge.kind == top_kind)
+    {
+        return [top, middle, bottom];
+    }
+
+    let [_, (left, _, _), _] = build(border_kind_to_str(border.left.kind));
+    let [_, (_, _, right), _] = build(border_kind_to_str(border.right.kind));
+    let [_, _, bottom] = build(border_kind_to_str(border.bottom.kind));
+    [top, (left, middle.1, right), bottom]
+}
+
 fn build_border_box_per_edge(
     border_type: &str,
     top_inner: &Style,
-- 
2.43.0


From bec3a21a6bc0f3d390e1faf66e696086d25df373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:32 +0000
Subject: [PATCH 34/83] fix: leave out border labels that do not fit instead of
 overflowing the row

---
 crates/textual/src/border_render.rs | 4 ++++
 crates/textual/src/render_cache.rs  | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/border_render.rs b/crates/textual/src/border_render.rs
index 2919ddc..376f09a 100644
--- a/crates/textual/src/border_render.rs
+++ b/crates/textual/src/border_render.rs
@@ -96,6 +96,10 @@ pub(crate) fn render_label_in_row(
     let label_style = label.segments().first().and_then(|s| s.style().cloned());
 
     if label_len > available_width {
+        if available_width < 3 {
+            // Not even room for the ellipsis and the spaces around it
+            return repeat_segment(fill, width);
+        }
         // Label is too long - truncate with ellipsis
         // Reserve 1 char for ellipsis + 2 for spaces, so we can show (available_width - 3) chars of text
         let truncate_len = available_width.saturating_sub(3);
diff --git a/crates/textual/src/render_cache.rs b/crates/textual/src/render_cache.rs
index 5dd2dd0..3a73b14 100644
--- a/crates/textual/src/render_cache.rs
+++ b/crates/textual/src/render_cache.rs
@@ -470,7 +470,8 @@ impl RenderCache {
         let fill_char = fill.text().chars().next().unwrap_or('─');
         let fill_style = fill.style().cloned();
 
-        if let Some(label_strip) = label {
+        // A label needs a fill char on each side and at least one cell in between
+        if let Some(label_strip) = label.filter(|_| width > 2) {
             // Render label with fill characters on either side
             // Note: Partial borders (no corners) do NOT add spaces around labels
             let label_len = label_strip.cell_length();
-- 
2.43.0


From 6860e6322fafb0e6f218154a07b321b2f3f6b3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:32 +0000
Subject: [PATCH 35/83] fix: place link regions below a title row

---
 crates/textual/src/widget/static_widget.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index cb0365a..156bf9a 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -390,7 +390,7 @@ impl<M> Static<M> {
     }
 
     /// Extract link regions from rendered content for hit testing.
-    fn extract_link_regions(&self, lines: &[Strip], cache: &RenderCache) {
+    fn extract_link_regions(&self, lines: &[Strip], cache: &RenderCache, reserve_top: usize) {
         let mut regions = Vec::new();
         let border_left = cache.border_left();
         let border_top = cache.border_top();
@@ -406,8 +406,8 @@ impl<M> Static<M> {
                 if let Some(action) = segment.get_meta("@click") {
                     regions.push(LinkRegion {
                         action: action.to_string(),
-                        // Account for border and padding offsets
-                        row: row_idx + border_top + padding_top,
+                        // Account for border, padding and title row offsets
+                        row: row_idx + border_top + padding_top + reserve_top,
                         start_col: col + border_left + padding_left,
                         end_col: col + seg_width + border_left + padding_left,
                     });
@@ -551,7 +551,7 @@ Static {
         // 4b. Extract link regions from content for hit testing
         // Store the render region for coordinate translation in mouse events
         *self.last_render_region.borrow_mut() = Some(region);
-        self.extract_link_regions(&aligned_lines, &cache);
+        self.extract_link_regions(&aligned_lines, &cache, reserve_top);
 
         // 5. Calculate content region boundaries (accounting for borders and padding)
         let border_top = cache.border_top();
-- 
2.43.0


From 5d3a9f4f17cb804ee4edf809f5440af131ec77ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:53 +0000
Subject: [PATCH 36/83] fix: keep title rows between side borders within the
 box and below its outline

---
 crates/textual/src/render_cache.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/crates/textual/src/render_cache.rs b/crates/textual/src/render_cache.rs
index 3a73b14..7d376cf 100644
--- a/crates/textual/src/render_cache.rs
+++ b/crates/textual/src/render_cache.rs
@@ -382,24 +382,23 @@ impl RenderCache {
                 if self.has_left_border || self.has_right_border {
                     // For vertical keyline borders (no top/bottom), render titles in the first/last content rows
                     if !self.has_top_border && is_first_content_row && title.is_some() {
-                        return self.render_labeled_middle_row(
+                        self.render_labeled_middle_row(
                             &box_segs[1],
                             width,
                             title.unwrap(),
                             self.style.border_title_align,
-                        );
-                    }
-                    if !self.has_bottom_border && is_last_content_row && subtitle.is_some() {
-                        return self.render_labeled_middle_row(
+                        )
+                    } else if !self.has_bottom_border && is_last_content_row && subtitle.is_some() {
+                        self.render_labeled_middle_row(
                             &box_segs[1],
                             width,
                             subtitle.unwrap(),
                             self.style.border_subtitle_align,
-                        );
+                        )
+                    } else {
+                        // Has at least one side border
+                        self.render_partial_middle_row(&box_segs[1], content_line, width)
                     }
-
-                    // Has at least one side border
-                    self.render_partial_middle_row(&box_segs[1], content_line, width)
                 } else {
                     // No side borders - just content with padding
                     self.render_content_row(width, content_line)
-- 
2.43.0


From e76130f2cc7717c2eebf43580c72205391336151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:53 +0000
Subject: [PATCH 37/83] fix: size docked widgets from their own style and
 content instead of a fill marker

---
 crates/textual/src/layouts/mod.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/textual/src/layouts/mod.rs b/crates/textual/src/layouts/mod.rs
index d34615e..bd99acc 100644
--- a/crates/textual/src/layouts/mod.rs
+++ b/crates/textual/src/layouts/mod.rs
@@ -183,7 +183,7 @@ pub fn arrange_children_with_viewport(
             node: child.node,
         })
         .collect();
-    let (mut placements, dock_spacing) = arrange_docked_widgets(&docked_vec, available);
+    let (mut placements, dock_spacing) = arrange_docked_widgets(&docked_vec, available, viewport);
 
     // Shrink available region for layout widgets
     let content_region = Region {
@@ -282,6 +282,7 @@ struct DockSpacing {
 fn arrange_docked_widgets(
     docked: &[LayoutChild],
     available: Region,
+    viewport: Viewport,
 ) -> (Vec<WidgetPlacement>, DockSpacing) {
     let mut placements = Vec::new();
     let mut spacing = DockSpacing::default();
@@ -292,9 +293,12 @@ fn arrange_docked_widgets(
             .dock
             .expect("docked widget must have dock property");
 
-        // Convert size to i32 for region calculations
-        let widget_width = child.desired_size.width as i32;
-        let widget_height = child.desired_size.height as i32;
+        // The widget's own size, resolved against the container
+        let Region {
+            width: widget_width,
+            height: widget_height,
+            ..
+        } = resolve_absolute_placement(child, available, viewport).region;
 
         // Calculate region based on dock direction
         let region = match dock {
@@ -386,7 +390,7 @@ where
             node: child.node,
         })
         .collect();
-    let (mut placements, dock_spacing) = arrange_docked_widgets(&docked_vec, available);
+    let (mut placements, dock_spacing) = arrange_docked_widgets(&docked_vec, available, viewport);
 
     // Shrink available region for layout widgets
     let content_region = Region {
@@ -675,6 +679,10 @@ fn resolve_absolute_placement(
     };
 
     let width_u16 = width.clamp(0, u16::MAX as i32) as u16;
+    let intrinsic_height = || match child.node.intrinsic_height_for_width(width_u16) {
+        u16::MAX => available.height,
+        height => height as i32,
+    };
 
     let height = if let Some(h) = &style.height {
         let raw = match h.unit {
@@ -685,11 +693,11 @@ fn resolve_absolute_placement(
             Unit::ViewWidth => ((h.value / 100.0) * viewport.width as f64).round() as i32,
             Unit::ViewHeight => ((h.value / 100.0) * viewport.height as f64).round() as i32,
             Unit::Fraction => available.height,
-            Unit::Auto => child.node.intrinsic_height_for_width(width_u16) as i32,
+            Unit::Auto => intrinsic_height(),
         };
         size_resolver::apply_box_sizing_height(raw, style)
     } else {
-        child.node.intrinsic_height_for_width(width_u16) as i32
+        intrinsic_height()
     };
 
     let height = if let Some(max_h) = &style.max_height {
-- 
2.43.0


From e3ab4f34fee60e4249752a344c30ec49ca4f184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:53 +0000
Subject: [PATCH 38/83] fix: deliver mouse events in Center and Middle only to
 the child under the pointer

---
 crates/textual/src/containers.rs | 76 +++++++++++++++++++++++++++++++-
 1 file changed, 74 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index 42cb4f6..005ea1c 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -9,7 +9,9 @@ pub mod vertical_scroll;
 
 use crate::KeyCode;
 use crate::MouseEvent;
+use crate::MouseEventKind;
 use crate::canvas::{Canvas, Region, Size};
+use crate::layouts::WidgetPlacement;
 use crate::render_cache::RenderCache;
 use crate::widget::Widget;
 use tcss::ComputedStyle;
@@ -79,6 +81,28 @@ fn inner_region_from_cache(
     )
 }
 
+/// Finds the child painted at a point: the last placement containing it, since
+/// later placements are painted over earlier ones.
+/// Returns the child's index and the region it was painted in.
+pub(crate) fn placement_at(
+    placements: &[WidgetPlacement],
+    offset: (i32, i32),
+    x: i32,
+    y: i32,
+) -> Option<(usize, Region)> {
+    placements.iter().rev().find_map(|placement| {
+        let region = Region {
+            x: placement.region.x - offset.0,
+            y: placement.region.y - offset.1,
+            width: placement.region.width,
+            height: placement.region.height,
+        };
+        region
+            .contains_point(x, y)
+            .then_some((placement.child_index, region))
+    })
+}
+
 /// Centered horizontally
 pub struct Center<M> {
     children: Vec<Box<dyn Widget<M>>>,
@@ -118,7 +142,7 @@ impl<M> Center<M> {
     /// Calculate the centered region for the child within the given region.
     fn centered_region(&self, region: Region) -> Region {
         let child_size = self.child().desired_size();
-        let child_width = child_size.width as i32;
+        let child_width = (child_size.width as i32).min(region.width.max(0));
         let x_offset = (region.width - child_width).max(0) / 2;
         Region {
             x: region.x + x_offset,
@@ -201,9 +225,33 @@ impl<M> Widget<M> for Center<M> {
             return None;
         }
         let centered = self.centered_region(region);
+        if !centered.contains_point(event.column as i32, event.row as i32) {
+            return None;
+        }
+        if matches!(event.kind, MouseEventKind::Moved) {
+            self.child_mut().set_hover(true);
+        }
         self.child_mut().on_mouse(event, centered)
     }
 
+    fn on_mouse_with_sender(
+        &mut self,
+        event: MouseEvent,
+        region: Region,
+    ) -> Option<(M, crate::widget::SenderInfo)> {
+        if !self.child().is_visible() {
+            return None;
+        }
+        let centered = self.centered_region(region);
+        if !centered.contains_point(event.column as i32, event.row as i32) {
+            return None;
+        }
+        if matches!(event.kind, MouseEventKind::Moved) {
+            self.child_mut().set_hover(true);
+        }
+        self.child_mut().on_mouse_with_sender(event, centered)
+    }
+
     fn clear_hover(&mut self) {
         if self.child().is_visible() {
             self.child_mut().clear_hover();
@@ -260,7 +308,7 @@ impl<M> Middle<M> {
     /// Calculate the vertically centered region for the child within the given region.
     fn middled_region(&self, region: Region) -> Region {
         let child_size = self.child().desired_size();
-        let child_height = child_size.height as i32;
+        let child_height = (child_size.height as i32).min(region.height.max(0));
         let y_offset = (region.height - child_height).max(0) / 2;
         Region {
             x: region.x,
@@ -343,9 +391,33 @@ impl<M> Widget<M> for Middle<M> {
             return None;
         }
         let middled = self.middled_region(region);
+        if !middled.contains_point(event.column as i32, event.row as i32) {
+            return None;
+        }
+        if matches!(event.kind, MouseEventKind::Moved) {
+            self.child_mut().set_hover(true);
+        }
         self.child_mut().on_mouse(event, middled)
     }
 
+    fn on_mouse_with_sender(
+        &mut self,
+        event: MouseEvent,
+        region: Region,
+    ) -> Option<(M, crate::widget::SenderInfo)> {
+        if !self.child().is_visible() {
+            return None;
+        }
+        let middled = self.middled_region(region);
+        if !middled.contains_point(event.column as i32, event.row as i32) {
+            return None;
+        }
+        if matches!(event.kind, MouseEventKind::Moved) {
+            self.child_mut().set_hover(true);
+        }
+        self.child_mut().on_mouse_with_sender(event, middled)
+    }
+
     fn clear_hover(&mut self) {
         if self.child().is_visible() {
             self.child_mut().clear_hover();
-- 
2.43.0


From 70174c20ccde8a9a5730585fd6dd44a238d508b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:53 +0000
Subject: [PATCH 39/83] fix: find a container's child under the pointer from
 the layout it was drawn with

---
 crates/textual/src/containers/container.rs | 281 ++++++++-------------
 1 file changed, 99 insertions(+), 182 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index cc6529e..e707219 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -3,7 +3,7 @@
 //! Container is the base for all layout containers. It dispatches to the
 //! appropriate layout algorithm based on the `layout` CSS property.
 
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 
 use tcss::types::Layout as LayoutDirection;
 use tcss::types::Overflow;
@@ -70,6 +70,8 @@ pub struct Container<M> {
     /// Scroll state for overflow scrolling.
     /// Uses RefCell for interior mutability since render takes &self.
     scroll: RefCell<ScrollState>,
+    /// Which scrollbars (vertical, horizontal) the last layout had room to show.
+    scrollbars_shown: Cell<(bool, bool)>,
     /// Which scrollbar is being hovered (Some(true) = vertical, Some(false) = horizontal).
     scrollbar_hover: Option<bool>,
     /// Scrollbar drag state: (is_vertical, grab_offset).
@@ -92,6 +94,7 @@ impl<M> Container<M> {
             viewport: Size::new(80, 24), // Default until on_resize is called
             cached_layout: RefCell::new(None),
             scroll: RefCell::new(ScrollState::default()),
+            scrollbars_shown: Cell::new((false, false)),
             scrollbar_hover: None,
             scrollbar_drag: None,
         }
@@ -173,21 +176,24 @@ impl<M> Container<M> {
         if !region.contains_point(column, row) {
             return false;
         }
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-        let offset_y = self.scroll.borrow().offset_y;
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            if scrolled_region.contains_point(column, row) {
-                return true;
-            }
+        self.child_at(region, column, row).is_some()
+    }
+
+    /// Find the child painted at the given point, and the region it was painted in.
+    fn child_at(&self, region: Region, column: i32, row: i32) -> Option<(usize, Region)> {
+        let viewport = Viewport {
+            width: self.viewport.width as i32,
+            height: self.viewport.height as i32,
+        };
+        let (_, content_region, placements) = self.layout_children(region, viewport);
+        if !content_region.contains_point(column, row) {
+            return None;
         }
-        false
+        let offset = {
+            let scroll = self.scroll.borrow();
+            (scroll.offset_x, scroll.offset_y)
+        };
+        crate::containers::placement_at(&placements, offset, column, row)
     }
 
     /// Get the effective layout direction (override takes precedence over CSS).
@@ -199,10 +205,7 @@ impl<M> Container<M> {
     fn show_vertical_scrollbar(&self) -> bool {
         match self.style.overflow_y {
             Overflow::Scroll => true,
-            Overflow::Auto => {
-                let scroll = self.scroll.borrow();
-                scroll.can_scroll_y()
-            }
+            Overflow::Auto => self.scrollbars_shown.get().0,
             Overflow::Hidden => false,
         }
     }
@@ -211,10 +214,7 @@ impl<M> Container<M> {
     fn show_horizontal_scrollbar(&self) -> bool {
         match self.style.overflow_x {
             Overflow::Scroll => true,
-            Overflow::Auto => {
-                let scroll = self.scroll.borrow();
-                scroll.can_scroll_x()
-            }
+            Overflow::Auto => self.scrollbars_shown.get().1,
             Overflow::Hidden => false,
         }
     }
@@ -265,10 +265,12 @@ impl<M> Container<M> {
             0
         };
 
+        let v_size = (style.size.vertical as i32).min(region.width.max(0));
+
         Region {
-            x: region.x + region.width - style.size.vertical as i32,
+            x: region.x + region.width - v_size,
             y: region.y,
-            width: style.size.vertical as i32,
+            width: v_size,
             height: (region.height - h_size).max(0),
         }
     }
@@ -282,11 +284,13 @@ impl<M> Container<M> {
             0
         };
 
+        let h_size = (style.size.horizontal as i32).min(region.height.max(0));
+
         Region {
             x: region.x,
-            y: region.y + region.height - style.size.horizontal as i32,
+            y: region.y + region.height - h_size,
             width: (region.width - v_size).max(0),
-            height: style.size.horizontal as i32,
+            height: h_size,
         }
     }
 
@@ -375,6 +379,61 @@ impl<M> Container<M> {
         placements
     }
 
+    /// Lay out the children the way they are painted in `region`, updating the scroll state.
+    /// Returns the region inside borders and padding, the part of it not taken by
+    /// scrollbars, and the placements before scrolling.
+    fn layout_children(
+        &self,
+        region: Region,
+        viewport: Viewport,
+    ) -> (Region, Region, Vec<WidgetPlacement>) {
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+
+        // Showing a scrollbar takes space from the children, which may in turn call for
+        // the other one, so repeat until the scrollbars shown fit the layout.
+        self.scrollbars_shown.set((false, false));
+        loop {
+            let shown = (
+                self.show_vertical_scrollbar(),
+                self.show_horizontal_scrollbar(),
+            );
+            let content_region = self.content_region_for_scroll(inner_region);
+            let placements = self.compute_child_placements(content_region, viewport);
+
+            // Virtual content dimensions from placements (max extent relative to content_region)
+            let mut virtual_width = 0;
+            let mut virtual_height = 0;
+            for p in &placements {
+                let margin = self.children[p.child_index].get_style().margin;
+                virtual_width = virtual_width.max(
+                    (p.region.x - content_region.x) + p.region.width + margin.right.value as i32,
+                );
+                virtual_height = virtual_height.max(
+                    (p.region.y - content_region.y) + p.region.height + margin.bottom.value as i32,
+                );
+            }
+
+            let needed = (
+                shown.0 || virtual_height > content_region.height,
+                shown.1 || virtual_width > content_region.width,
+            );
+            self.scrollbars_shown.set(needed);
+            if shown
+                != (
+                    self.show_vertical_scrollbar(),
+                    self.show_horizontal_scrollbar(),
+                )
+            {
+                continue;
+            }
+
+            let mut scroll = self.scroll.borrow_mut();
+            scroll.set_virtual_size(virtual_width, virtual_height);
+            scroll.set_viewport(content_region.width, content_region.height);
+            return (inner_region, content_region, placements);
+        }
+    }
+
     /// Render keylines for the container.
     ///
     /// For horizontal layout: draws outer box + vertical dividers between children
@@ -683,7 +742,6 @@ Container {
 
         // 1. Create render cache for border handling
         let cache = RenderCache::new(&self.style);
-        let (inner_width, inner_height) = cache.inner_size(width, height);
 
         // 2. Parse border titles as markup (only if we have a border)
         // Title/subtitle color inheritance:
@@ -799,108 +857,9 @@ Container {
             }
         }
 
-        // 4. Calculate inner region for children
-        let border_left = cache.border_left() as i32;
-        let border_top = cache.border_top() as i32;
-        let padding_left = cache.padding_left() as i32;
-        let padding_top = cache.padding_top() as i32;
-
-        let inner_region = Region::new(
-            region.x + border_left + padding_left,
-            region.y + border_top + padding_top,
-            inner_width as i32,
-            inner_height as i32,
-        );
-
-        // 5. Update scroll state and compute content region
-        let viewport = canvas.viewport();
-
-        // First compute placements to determine virtual content height
-        let initial_placements = self.compute_child_placements(inner_region, viewport);
-
-        // Calculate virtual content dimensions from placements (max extent relative to inner_region)
-        let virtual_height = initial_placements
-            .iter()
-            .map(|p| {
-                let margin_bottom = self
-                    .children
-                    .get(p.child_index)
-                    .map(|child| child.get_style().margin.bottom.value as i32)
-                    .unwrap_or(0);
-                (p.region.y - inner_region.y) + p.region.height + margin_bottom
-            })
-            .max()
-            .unwrap_or(0);
-
-        let virtual_width = initial_placements
-            .iter()
-            .map(|p| {
-                let margin_right = self
-                    .children
-                    .get(p.child_index)
-                    .map(|child| child.get_style().margin.right.value as i32)
-                    .unwrap_or(0);
-                (p.region.x - inner_region.x) + p.region.width + margin_right
-            })
-            .max()
-            .unwrap_or(0);
-
-        // Update scroll state with virtual size and viewport
-        {
-            let mut scroll = self.scroll.borrow_mut();
-            scroll.set_virtual_size(virtual_width, virtual_height);
-            scroll.set_viewport(inner_region.width, inner_region.height);
-        }
-
-        // Determine if we need scrollbars and adjust content region
-        let show_v_scrollbar = self.show_vertical_scrollbar();
-        let content_region = self.content_region_for_scroll(inner_region);
-
-        // If scrollbar visibility changed the content width, we need to recompute placements
-        // and update virtual dimensions (important for width-based units like `w` in min-height: 40w)
-        let placements = if show_v_scrollbar && content_region.width < inner_region.width {
-            // Invalidate cache since we need to recalculate with smaller width
-            *self.cached_layout.borrow_mut() = None;
-            let new_placements = self.compute_child_placements(content_region, viewport);
-
-            // Recalculate virtual dimensions with the new placements (content_region based)
-            let new_virtual_height = new_placements
-                .iter()
-                .map(|p| {
-                    let margin_bottom = self
-                        .children
-                        .get(p.child_index)
-                        .map(|child| child.get_style().margin.bottom.value as i32)
-                        .unwrap_or(0);
-                    (p.region.y - content_region.y) + p.region.height + margin_bottom
-                })
-                .max()
-                .unwrap_or(0);
-
-            let new_virtual_width = new_placements
-                .iter()
-                .map(|p| {
-                    let margin_right = self
-                        .children
-                        .get(p.child_index)
-                        .map(|child| child.get_style().margin.right.value as i32)
-                        .unwrap_or(0);
-                    (p.region.x - content_region.x) + p.region.width + margin_right
-                })
-                .max()
-                .unwrap_or(0);
-
-            // Update scroll state with corrected virtual dimensions
-            {
-                let mut scroll = self.scroll.borrow_mut();
-                scroll.set_virtual_size(new_virtual_width, new_virtual_height);
-                scroll.set_viewport(content_region.width, content_region.height);
-            }
-
-            new_placements
-        } else {
-            initial_placements
-        };
+        // 4. Lay out children inside the chrome, updating the scroll state
+        let (inner_region, content_region, placements) =
+            self.layout_children(region, canvas.viewport());
 
         // Get scroll offsets for rendering
         let (offset_x, offset_y) = {
@@ -1471,33 +1430,12 @@ Container {
             _ => {}
         }
 
-        // Compute placements and dispatch mouse events
-        // For mouse handling, approximate viewport as region (only available during render)
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        // Get scroll offset to adjust mouse coordinates for children
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            // Adjust placement for scroll offset when checking hit
-            let scrolled_placement = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-
-            if scrolled_placement.contains_point(mx, my) {
-                if matches!(event.kind, MouseEventKind::Moved) {
-                    self.children[placement.child_index].set_hover(true);
-                }
-                if let Some(msg) =
-                    self.children[placement.child_index].on_mouse(event, scrolled_placement)
-                {
-                    return Some(msg);
-                }
+        // Dispatch to the child painted under the pointer
+        if let Some((index, child_region)) = self.child_at(region, mx, my) {
+            if matches!(event.kind, MouseEventKind::Moved) {
+                self.children[index].set_hover(true);
             }
+            return self.children[index].on_mouse(event, child_region);
         }
 
         None
@@ -1536,33 +1474,12 @@ Container {
             _ => {}
         }
 
-        // Compute placements and dispatch mouse events
-        // For mouse handling, approximate viewport as region (only available during render)
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        // Get scroll offset to adjust mouse coordinates for children
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            // Adjust placement for scroll offset when checking hit
-            let scrolled_placement = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-
-            if scrolled_placement.contains_point(mx, my) {
-                if matches!(event.kind, MouseEventKind::Moved) {
-                    self.children[placement.child_index].set_hover(true);
-                }
-                if let Some(result) = self.children[placement.child_index]
-                    .on_mouse_with_sender(event, scrolled_placement)
-                {
-                    return Some(result);
-                }
+        // Dispatch to the child painted under the pointer
+        if let Some((index, child_region)) = self.child_at(region, mx, my) {
+            if matches!(event.kind, MouseEventKind::Moved) {
+                self.children[index].set_hover(true);
             }
+            return self.children[index].on_mouse_with_sender(event, child_region);
         }
 
         None
-- 
2.43.0


From 7d90eb56b0bce50c1b1cbced5149d94819c3dadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:53 +0000
Subject: [PATCH 40/83] fix: find a grid's child under the pointer in its
 content area, with the screen as viewport

---
 crates/textual/src/containers/grid.rs      | 57 ++++++++++++----------
 crates/textual/src/containers/item_grid.rs | 54 +++++++++++---------
 2 files changed, 62 insertions(+), 49 deletions(-)

diff --git a/crates/textual/src/containers/grid.rs b/crates/textual/src/containers/grid.rs
index 45082ba..36f165d 100644
--- a/crates/textual/src/containers/grid.rs
+++ b/crates/textual/src/containers/grid.rs
@@ -32,7 +32,7 @@ use tcss::{
 
 use crate::keyline_canvas::KeylineCanvas;
 use crate::layouts::{self, GridLayout, Layout};
-use crate::{Canvas, KeyCode, MouseEvent, Region, Size, Widget};
+use crate::{Canvas, KeyCode, MouseEvent, MouseEventKind, Region, Size, Widget};
 
 /// A grid container that arranges children in a 2D grid.
 ///
@@ -46,6 +46,8 @@ pub struct Grid<M> {
     inline_style: StyleOverride,
     dirty: bool,
     id: Option<String>,
+    /// Terminal dimensions from on_resize, for laying out children as they are painted.
+    viewport: Option<layouts::Viewport>,
 }
 
 impl<M> Grid<M> {
@@ -57,6 +59,7 @@ impl<M> Grid<M> {
             inline_style: StyleOverride::default(),
             dirty: true,
             id: None,
+            viewport: None,
         }
     }
 
@@ -119,6 +122,19 @@ impl<M> Grid<M> {
         placements
     }
 
+    /// Find the child painted at the given point, and the region it was painted in.
+    fn child_at(&self, region: Region, x: i32, y: i32) -> Option<(usize, Region)> {
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        if !inner_region.contains_point(x, y) {
+            return None;
+        }
+        let viewport = self
+            .viewport
+            .unwrap_or_else(|| layouts::Viewport::from(region));
+        let placements = self.compute_child_placements(inner_region, viewport);
+        crate::containers::placement_at(&placements, (0, 0), x, y)
+    }
+
     /// Render keylines for the grid layout.
     fn render_keylines(&self, canvas: &mut Canvas, region: Region) {
         // Collect children info for track computation
@@ -343,6 +359,10 @@ Grid {
     }
 
     fn on_resize(&mut self, size: Size) {
+        self.viewport = Some(layouts::Viewport {
+            width: size.width as i32,
+            height: size.height as i32,
+        });
         for child in &mut self.children {
             child.on_resize(size);
         }
@@ -368,20 +388,12 @@ Grid {
             return None;
         }
 
-        // Compute placements first (borrows self immutably)
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        // Then iterate and dispatch mouse events (borrows self mutably)
-        for placement in placements {
-            if placement.region.contains_point(mx, my) {
-                if let Some(msg) =
-                    self.children[placement.child_index].on_mouse(event, placement.region)
-                {
-                    return Some(msg);
-                }
+        // Dispatch to the child painted under the pointer
+        if let Some((index, child_region)) = self.child_at(region, mx, my) {
+            if matches!(event.kind, MouseEventKind::Moved) {
+                self.children[index].set_hover(true);
             }
+            return self.children[index].on_mouse(event, child_region);
         }
 
         None
@@ -399,19 +411,12 @@ Grid {
             return None;
         }
 
-        // Compute placements first (borrows self immutably)
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        for placement in placements {
-            if placement.region.contains_point(mx, my) {
-                if let Some(result) = self.children[placement.child_index]
-                    .on_mouse_with_sender(event, placement.region)
-                {
-                    return Some(result);
-                }
+        // Dispatch to the child painted under the pointer
+        if let Some((index, child_region)) = self.child_at(region, mx, my) {
+            if matches!(event.kind, MouseEventKind::Moved) {
+                self.children[index].set_hover(true);
             }
+            return self.children[index].on_mouse_with_sender(event, child_region);
         }
 
         None
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index 2c8e26f..0ae554f 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -11,7 +11,7 @@ use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates, types::Visibi
 use crate::canvas::{Canvas, Region, Size};
 use crate::layouts::{self, GridLayout, Layout};
 use crate::widget::Widget;
-use crate::{KeyCode, MouseEvent};
+use crate::{KeyCode, MouseEvent, MouseEventKind};
 
 /// A grid container with automatic column calculation.
 ///
@@ -35,6 +35,8 @@ pub struct ItemGrid<M> {
     inline_style: StyleOverride,
     dirty: bool,
     id: Option<String>,
+    /// Terminal dimensions from on_resize, for laying out children as they are painted.
+    viewport: Option<layouts::Viewport>,
 
     // Runtime-configurable properties (passed to GridLayout via pre_layout)
     // Use the builder methods (with_min_column_width, etc.) to set these
@@ -53,6 +55,7 @@ impl<M> ItemGrid<M> {
             inline_style: StyleOverride::default(),
             dirty: true,
             id: None,
+            viewport: None,
             min_column_width: None,
             max_column_width: None,
             stretch_height: true,
@@ -132,6 +135,19 @@ impl<M> ItemGrid<M> {
         layouts::apply_alignment(&mut placements, &children_with_styles, &self.style, region);
         placements
     }
+
+    /// Find the child painted at the given point, and the region it was painted in.
+    fn child_at(&self, region: Region, x: i32, y: i32) -> Option<(usize, Region)> {
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        if !inner_region.contains_point(x, y) {
+            return None;
+        }
+        let viewport = self
+            .viewport
+            .unwrap_or_else(|| layouts::Viewport::from(region));
+        let placements = self.compute_child_placements(inner_region, viewport);
+        crate::containers::placement_at(&placements, (0, 0), x, y)
+    }
 }
 
 impl<M> Widget<M> for ItemGrid<M> {
@@ -227,6 +243,10 @@ impl<M> Widget<M> for ItemGrid<M> {
     }
 
     fn on_resize(&mut self, size: Size) {
+        self.viewport = Some(layouts::Viewport {
+            width: size.width as i32,
+            height: size.height as i32,
+        });
         for child in &mut self.children {
             child.on_resize(size);
         }
@@ -252,18 +272,12 @@ impl<M> Widget<M> for ItemGrid<M> {
             return None;
         }
 
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        for placement in placements {
-            if placement.region.contains_point(mx, my) {
-                if let Some(msg) =
-                    self.children[placement.child_index].on_mouse(event, placement.region)
-                {
-                    return Some(msg);
-                }
+        // Dispatch to the child painted under the pointer
+        if let Some((index, child_region)) = self.child_at(region, mx, my) {
+            if matches!(event.kind, MouseEventKind::Moved) {
+                self.children[index].set_hover(true);
             }
+            return self.children[index].on_mouse(event, child_region);
         }
 
         None
@@ -281,18 +295,12 @@ impl<M> Widget<M> for ItemGrid<M> {
             return None;
         }
 
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        for placement in placements {
-            if placement.region.contains_point(mx, my) {
-                if let Some(result) = self.children[placement.child_index]
-                    .on_mouse_with_sender(event, placement.region)
-                {
-                    return Some(result);
-                }
+        // Dispatch to the child painted under the pointer
+        if let Some((index, child_region)) = self.child_at(region, mx, my) {
+            if matches!(event.kind, MouseEventKind::Moved) {
+                self.children[index].set_hover(true);
             }
+            return self.children[index].on_mouse_with_sender(event, child_region);
         }
 
         None
-- 
2.43.0


From 4bdd62ba6c2ccf2a5a9eba62c3faede722ab2a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:53 +0000
Subject: [PATCH 41/83] fix: find a scrollable container's child under the
 pointer from the layout it was drawn with

---
 crates/textual/src/containers/scrollable.rs | 186 ++++++--------------
 1 file changed, 58 insertions(+), 128 deletions(-)

diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 28593e2..79c9eed 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -54,6 +54,8 @@ pub struct ScrollableContainer<M> {
     id: Option<String>,
     /// CSS classes for styling
     classes: Vec<String>,
+    /// Terminal dimensions from on_resize, for laying out children as they are painted
+    viewport: Option<Viewport>,
 }
 
 struct ScrollLayout {
@@ -78,6 +80,7 @@ impl<M> ScrollableContainer<M> {
             scrollbar_drag: None,
             id: None,
             classes: Vec::new(),
+            viewport: None,
         }
     }
 
@@ -241,10 +244,12 @@ impl<M> ScrollableContainer<M> {
             0
         };
 
+        let v_size = (style.size.vertical as i32).min(region.width.max(0));
+
         Region {
-            x: region.x + region.width - style.size.vertical as i32,
+            x: region.x + region.width - v_size,
             y: region.y,
-            width: style.size.vertical as i32,
+            width: v_size,
             height: (region.height - h_size).max(0),
         }
     }
@@ -267,22 +272,26 @@ impl<M> ScrollableContainer<M> {
             0
         };
 
+        let h_size = (style.size.horizontal as i32).min(region.height.max(0));
+
         Region {
             x: region.x,
-            y: region.y + region.height - style.size.horizontal as i32,
+            y: region.y + region.height - h_size,
             width: (region.width - v_size).max(0),
-            height: style.size.horizontal as i32,
+            height: h_size,
         }
     }
 
     /// Calculate the corner region.
     fn corner_region(&self, region: Region) -> Region {
         let style = self.scrollbar_style();
+        let v_size = (style.size.vertical as i32).min(region.width.max(0));
+        let h_size = (style.size.horizontal as i32).min(region.height.max(0));
         Region {
-            x: region.x + region.width - style.size.vertical as i32,
-            y: region.y + region.height - style.size.horizontal as i32,
-            width: style.size.vertical as i32,
-            height: style.size.horizontal as i32,
+            x: region.x + region.width - v_size,
+            y: region.y + region.height - h_size,
+            width: v_size,
+            height: h_size,
         }
     }
 
@@ -520,8 +529,10 @@ impl<M> ScrollableContainer<M> {
                 Overflow::Hidden => false,
             };
 
-            let next_show_horizontal = needs_horizontal;
-            let next_show_vertical = needs_vertical;
+            // A scrollbar that was needed stays: taking it away again would bring the
+            // overflow back, and the region would not match the scrollbars drawn.
+            let next_show_horizontal = show_horizontal || needs_horizontal;
+            let next_show_vertical = show_vertical || needs_vertical;
 
             if next_show_horizontal == show_horizontal && next_show_vertical == show_vertical {
                 break;
@@ -547,6 +558,15 @@ impl<M> ScrollableContainer<M> {
         }
     }
 
+    /// Find the child painted at the given point, and the region it was painted in.
+    fn child_at(&self, layout: &ScrollLayout, x: i32, y: i32) -> Option<(usize, Region)> {
+        let offset = {
+            let scroll = self.scroll.borrow();
+            (scroll.offset_x, scroll.offset_y)
+        };
+        crate::containers::placement_at(&layout.placements, offset, x, y)
+    }
+
     /// Handle a scroll message.
     fn handle_scroll(&mut self, msg: ScrollMessage) {
         match msg {
@@ -890,6 +910,10 @@ ScrollableContainer {
     }
 
     fn on_resize(&mut self, size: Size) {
+        self.viewport = Some(Viewport {
+            width: size.width as i32,
+            height: size.height as i32,
+        });
         for child in &mut self.children {
             child.on_resize(size);
         }
@@ -981,7 +1005,9 @@ ScrollableContainer {
         let my = event.row as i32;
 
         let inner_region = self.compute_inner_region(region);
-        let viewport = layouts::Viewport::from(region);
+        let viewport = self
+            .viewport
+            .unwrap_or_else(|| layouts::Viewport::from(region));
         let layout = self.compute_scroll_layout(inner_region, viewport);
         let content_region = layout.content_region;
 
@@ -1037,20 +1063,9 @@ ScrollableContainer {
 
                 // Pass to content if in content area
                 if content_region.contains_point(mx, my) {
-                    let (offset_x, offset_y) = {
-                        let scroll = self.scroll.borrow();
-                        (scroll.offset_x, scroll.offset_y)
-                    };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index].on_mouse(event, scrolled);
-                        }
+                    if let Some((index, child_region)) = self.child_at(&layout, mx, my) {
+                        self.children[index].set_hover(true);
+                        return self.children[index].on_mouse(event, child_region);
                     }
                 }
                 None
@@ -1062,20 +1077,8 @@ ScrollableContainer {
                 } else if on_horizontal {
                     return self.handle_horizontal_scrollbar_click(event, h_region);
                 } else if content_region.contains_point(mx, my) {
-                    let (offset_x, offset_y) = {
-                        let scroll = self.scroll.borrow();
-                        (scroll.offset_x, scroll.offset_y)
-                    };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index].on_mouse(event, scrolled);
-                        }
+                    if let Some((index, child_region)) = self.child_at(&layout, mx, my) {
+                        return self.children[index].on_mouse(event, child_region);
                     }
                 }
                 None
@@ -1087,20 +1090,8 @@ ScrollableContainer {
                 }
                 // Pass to content
                 if content_region.contains_point(mx, my) {
-                    let (offset_x, offset_y) = {
-                        let scroll = self.scroll.borrow();
-                        (scroll.offset_x, scroll.offset_y)
-                    };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index].on_mouse(event, scrolled);
-                        }
+                    if let Some((index, child_region)) = self.child_at(&layout, mx, my) {
+                        return self.children[index].on_mouse(event, child_region);
                     }
                 }
                 None
@@ -1113,20 +1104,8 @@ ScrollableContainer {
                 }
                 // Pass to content
                 if content_region.contains_point(mx, my) {
-                    let (offset_x, offset_y) = {
-                        let scroll = self.scroll.borrow();
-                        (scroll.offset_x, scroll.offset_y)
-                    };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index].on_mouse(event, scrolled);
-                        }
+                    if let Some((index, child_region)) = self.child_at(&layout, mx, my) {
+                        return self.children[index].on_mouse(event, child_region);
                     }
                 }
                 None
@@ -1185,7 +1164,9 @@ ScrollableContainer {
         let my = event.row as i32;
 
         let inner_region = self.compute_inner_region(region);
-        let viewport = layouts::Viewport::from(region);
+        let viewport = self
+            .viewport
+            .unwrap_or_else(|| layouts::Viewport::from(region));
         let layout = self.compute_scroll_layout(inner_region, viewport);
         let content_region = layout.content_region;
 
@@ -1225,21 +1206,9 @@ ScrollableContainer {
 
                 // Pass to content if in content area
                 if content_region.contains_point(mx, my) {
-                    let (offset_x, offset_y) = {
-                        let scroll = self.scroll.borrow();
-                        (scroll.offset_x, scroll.offset_y)
-                    };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index]
-                                .on_mouse_with_sender(event, scrolled);
-                        }
+                    if let Some((index, child_region)) = self.child_at(&layout, mx, my) {
+                        self.children[index].set_hover(true);
+                        return self.children[index].on_mouse_with_sender(event, child_region);
                     }
                 }
                 None
@@ -1255,21 +1224,8 @@ ScrollableContainer {
                         .handle_horizontal_scrollbar_click(event, h_region)
                         .map(|msg| (msg, self.sender_info()));
                 } else if content_region.contains_point(mx, my) {
-                    let (offset_x, offset_y) = {
-                        let scroll = self.scroll.borrow();
-                        (scroll.offset_x, scroll.offset_y)
-                    };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index]
-                                .on_mouse_with_sender(event, scrolled);
-                        }
+                    if let Some((index, child_region)) = self.child_at(&layout, mx, my) {
+                        return self.children[index].on_mouse_with_sender(event, child_region);
                     }
                 }
                 None
@@ -1283,21 +1239,8 @@ ScrollableContainer {
                 }
                 // Pass to content
                 if content_region.contains_point(mx, my) {
-                    let (offset_x, offset_y) = {
-                        let scroll = self.scroll.borrow();
-                        (scroll.offset_x, scroll.offset_y)
-                    };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index]
-                                .on_mouse_with_sender(event, scrolled);
-                        }
+                    if let Some((index, child_region)) = self.child_at(&layout, mx, my) {
+                        return self.children[index].on_mouse_with_sender(event, child_region);
                     }
                 }
                 None
@@ -1310,21 +1253,8 @@ ScrollableContainer {
                 }
                 // Pass to content
                 if content_region.contains_point(mx, my) {
-                    let (offset_x, offset_y) = {
-                        let scroll = self.scroll.borrow();
-                        (scroll.offset_x, scroll.offset_y)
-                    };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index]
-                                .on_mouse_with_sender(event, scrolled);
-                        }
+                    if let Some((index, child_region)) = self.child_at(&layout, mx, my) {
+                        return self.children[index].on_mouse_with_sender(event, child_region);
                     }
                 }
                 None
-- 
2.43.0


From 8a408bc27f7e165bebedb54f2975728ba93ee2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:53 +0000
Subject: [PATCH 42/83] fix: find the screen's child under the pointer from the
 layout it was drawn with

---
 crates/textual/src/widget/screen.rs | 317 ++++++++++------------------
 1 file changed, 108 insertions(+), 209 deletions(-)

diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index af87e7d..1903283 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -14,7 +14,7 @@
 //!
 //! The last matching breakpoint wins (iterate in order).
 
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 
 use crate::canvas::{Canvas, Region, Size};
 use crate::layouts;
@@ -55,6 +55,8 @@ pub struct Screen<M> {
     inline_style: StyleOverride,
     is_dirty: bool,
     scroll: RefCell<ScrollState>,
+    /// Which scrollbars (vertical, horizontal) the last layout had room to show.
+    scrollbars_shown: Cell<(bool, bool)>,
     /// Which scrollbar is being hovered (Some(true) = vertical, Some(false) = horizontal).
     scrollbar_hover: Option<bool>,
     /// Active drag state: (vertical?, grab_offset)
@@ -73,6 +75,7 @@ impl<M> Screen<M> {
             inline_style: StyleOverride::default(),
             is_dirty: true,
             scroll: RefCell::new(ScrollState::default()),
+            scrollbars_shown: Cell::new((false, false)),
             scrollbar_hover: None,
             scrollbar_drag: None,
             horizontal_breakpoints: DEFAULT_HORIZONTAL_BREAKPOINTS,
@@ -153,10 +156,9 @@ impl<M> Screen<M> {
         &self,
         placements: &[layouts::WidgetPlacement],
         base_region: Region,
-    ) -> (i32, i32, bool) {
+    ) -> (i32, i32) {
         let mut virtual_width = 0;
         let mut virtual_height = 0;
-        let mut max_from_auto = false;
 
         for placement in placements {
             let child_style = self
@@ -177,80 +179,84 @@ impl<M> Screen<M> {
                 (placement.region.y - base_region.y) + placement.region.height + margin_bottom;
             if width > virtual_width {
                 virtual_width = width;
-                max_from_auto = self
-                    .children
-                    .get(placement.child_index)
-                    .and_then(|child| child.get_style().width)
-                    .map(|scalar| scalar.unit == Unit::Auto)
-                    .unwrap_or(false);
-            } else if width == virtual_width {
-                let is_auto = self
-                    .children
-                    .get(placement.child_index)
-                    .and_then(|child| child.get_style().width)
-                    .map(|scalar| scalar.unit == Unit::Auto)
-                    .unwrap_or(false);
-                max_from_auto = max_from_auto || is_auto;
             }
             if height > virtual_height {
                 virtual_height = height;
             }
         }
 
-        (virtual_width, virtual_height, max_from_auto)
+        (virtual_width, virtual_height)
+    }
+
+    /// Lay out the children the way they are painted, updating the scroll state.
+    /// Returns the region not taken by scrollbars and the placements before scrolling.
+    fn layout_children(
+        &self,
+        inner_region: Region,
+        viewport: layouts::Viewport,
+    ) -> (Region, Vec<layouts::WidgetPlacement>) {
+        // Showing a scrollbar takes space from the children, which may in turn call for
+        // the other one, so repeat until the scrollbars shown fit the layout.
+        self.scrollbars_shown.set((false, false));
+        loop {
+            let shown = (
+                self.show_vertical_scrollbar(),
+                self.show_horizontal_scrollbar(),
+            );
+            let content_region = self.content_region_for_scroll(inner_region);
+            let placements = self.compute_child_placements(content_region, viewport);
+
+            // Do not pad virtual size here; padding can fabricate overflow and force
+            // Screen-level scrollbars even when content fits (differs from Python Textual).
+            let (virtual_width, virtual_height) =
+                self.compute_virtual_size(&placements, content_region);
+
+            self.scrollbars_shown.set((
+                shown.0 || virtual_height > content_region.height,
+                shown.1 || virtual_width > content_region.width,
+            ));
+            if shown
+                != (
+                    self.show_vertical_scrollbar(),
+                    self.show_horizontal_scrollbar(),
+                )
+            {
+                continue;
+            }
+
+            let mut scroll = self.scroll.borrow_mut();
+            scroll.set_virtual_size(virtual_width, virtual_height);
+            scroll.set_viewport(content_region.width, content_region.height);
+            return (content_region, placements);
+        }
     }
 
     fn dispatch_mouse_to_children(
         &mut self,
         event: MouseEvent,
-        region: Region,
-        viewport: layouts::Viewport,
+        placements: &[layouts::WidgetPlacement],
     ) -> Option<(M, crate::widget::SenderInfo)> {
-        let placements = self.compute_child_placements(region, viewport);
-        let (offset_x, offset_y) = {
+        let offset = {
             let scroll = self.scroll.borrow();
             (scroll.offset_x, scroll.offset_y)
         };
-
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            let scrolled_region = if let Some(child) = self.children.get(placement.child_index) {
-                let style = child.get_style();
-                if style.dock.is_none() && style.position != tcss::types::Position::Absolute {
-                    Region {
-                        x: scrolled_region.x - offset_x,
-                        y: scrolled_region.y - offset_y,
-                        width: scrolled_region.width,
-                        height: scrolled_region.height,
-                    }
-                } else {
-                    scrolled_region
-                }
-            } else {
-                scrolled_region
-            };
-            if scrolled_region.contains_point(event.column as i32, event.row as i32) {
-                if let Some(child) = self.children.get_mut(placement.child_index) {
-                    if matches!(event.kind, crossterm::event::MouseEventKind::Moved) {
-                        child.set_hover(true);
-                    }
-                    return child.on_mouse_with_sender(event, scrolled_region);
-                }
-            }
+        let (index, child_region) = crate::containers::placement_at(
+            placements,
+            offset,
+            event.column as i32,
+            event.row as i32,
+        )?;
+        let child = self.children.get_mut(index)?;
+        if matches!(event.kind, crossterm::event::MouseEventKind::Moved) {
+            child.set_hover(true);
         }
-
-        None
+        child.on_mouse_with_sender(event, child_region)
     }
 
     fn show_vertical_scrollbar(&self) -> bool {
         match self.style.overflow_y {
             Overflow::Scroll => true,
-            Overflow::Auto => self.scroll.borrow().can_scroll_y(),
+            Overflow::Auto => self.scrollbars_shown.get().0,
             Overflow::Hidden => false,
         }
     }
@@ -258,7 +264,7 @@ impl<M> Screen<M> {
     fn show_horizontal_scrollbar(&self) -> bool {
         match self.style.overflow_x {
             Overflow::Scroll => true,
-            Overflow::Auto => self.scroll.borrow().can_scroll_x(),
+            Overflow::Auto => self.scrollbars_shown.get().1,
             Overflow::Hidden => false,
         }
     }
@@ -311,10 +317,12 @@ impl<M> Screen<M> {
             0
         };
 
+        let v_size = (style.size.vertical as i32).min(region.width.max(0));
+
         Region {
-            x: region.x + region.width - style.size.vertical as i32,
+            x: region.x + region.width - v_size,
             y: region.y,
-            width: style.size.vertical as i32,
+            width: v_size,
             height: (region.height - h_size).max(0),
         }
     }
@@ -327,11 +335,13 @@ impl<M> Screen<M> {
             0
         };
 
+        let h_size = (style.size.horizontal as i32).min(region.height.max(0));
+
         Region {
             x: region.x,
-            y: region.y + region.height - style.size.horizontal as i32,
+            y: region.y + region.height - h_size,
             width: (region.width - v_size).max(0),
-            height: style.size.horizontal as i32,
+            height: h_size,
         }
     }
 
@@ -503,66 +513,7 @@ Screen {
         let inner_region = crate::containers::render_container_chrome(canvas, region, &self.style);
 
         // Use the canvas viewport (screen dimensions) for CSS vw/vh units
-        let viewport = canvas.viewport();
-
-        let initial_placements = self.compute_child_placements(inner_region, viewport);
-        let (virtual_width, virtual_height, _) =
-            self.compute_virtual_size(&initial_placements, inner_region);
-
-        // Do not pad virtual size here; padding can fabricate overflow and force
-        // Screen-level scrollbars even when content fits (differs from Python Textual).
-
-        let show_v_scrollbar = match self.style.overflow_y {
-            Overflow::Scroll => true,
-            Overflow::Hidden => false,
-            Overflow::Auto => virtual_height > inner_region.height,
-        };
-        let show_h_scrollbar = match self.style.overflow_x {
-            Overflow::Scroll => true,
-            Overflow::Hidden => false,
-            Overflow::Auto => virtual_width > inner_region.width,
-        };
-
-        let style = &self.style.scrollbar;
-        let v_size = if show_v_scrollbar
-            || (style.gutter == ScrollbarGutter::Stable && self.style.overflow_y == Overflow::Auto)
-        {
-            style.size.vertical as i32
-        } else {
-            0
-        };
-        let h_size = if show_h_scrollbar {
-            style.size.horizontal as i32
-        } else {
-            0
-        };
-
-        let content_region = Region {
-            x: inner_region.x,
-            y: inner_region.y,
-            width: (inner_region.width - v_size).max(0),
-            height: (inner_region.height - h_size).max(0),
-        };
-
-        let (placements, recomputed) =
-            if show_v_scrollbar && content_region.width < inner_region.width {
-                let new_placements = self.compute_child_placements(content_region, viewport);
-                (new_placements, true)
-            } else {
-                (initial_placements, false)
-            };
-
-        let (final_virtual_width, final_virtual_height, _final_max_from_auto) = if recomputed {
-            self.compute_virtual_size(&placements, content_region)
-        } else {
-            (virtual_width, virtual_height, false)
-        };
-
-        {
-            let mut scroll = self.scroll.borrow_mut();
-            scroll.set_virtual_size(final_virtual_width, final_virtual_height);
-            scroll.set_viewport(content_region.width, content_region.height);
-        }
+        let (content_region, placements) = self.layout_children(inner_region, canvas.viewport());
 
         let (offset_x, offset_y) = {
             let scroll = self.scroll.borrow();
@@ -639,12 +590,13 @@ Screen {
         }
 
         if render_vertical && render_horizontal {
+            let v_region = self.vertical_scrollbar_region(inner_region);
+            let h_region = self.horizontal_scrollbar_region(inner_region);
             let corner_region = Region {
-                x: inner_region.x + inner_region.width - self.style.scrollbar.size.vertical as i32,
-                y: inner_region.y + inner_region.height
-                    - self.style.scrollbar.size.horizontal as i32,
-                width: self.style.scrollbar.size.vertical as i32,
-                height: self.style.scrollbar.size.horizontal as i32,
+                x: v_region.x,
+                y: h_region.y,
+                width: v_region.width,
+                height: h_region.height,
             };
             let mut corner = ScrollBarCorner::new(
                 self.style.scrollbar.size.vertical,
@@ -779,8 +731,10 @@ Screen {
         let inner_region = crate::containers::inner_region_for_container(region, &self.style);
         let viewport = layouts::Viewport::from(region);
 
+        // Lay out as painted, so that hits and scroll bounds match what is visible
+        let (content_region, placements) = self.layout_children(inner_region, viewport);
+
         // Scrollbar interaction regions
-        let content_region = self.content_region_for_scroll(inner_region);
         let v_region = self.vertical_scrollbar_region(inner_region);
         let h_region = self.horizontal_scrollbar_region(inner_region);
         let render_vertical = self.render_vertical_scrollbar();
@@ -788,20 +742,6 @@ Screen {
         let on_vertical = render_vertical && v_region.contains_point(mx, my);
         let on_horizontal = render_horizontal && h_region.contains_point(mx, my);
 
-        let layout_region =
-            if self.show_vertical_scrollbar() && content_region.width < inner_region.width {
-                content_region
-            } else {
-                inner_region
-            };
-
-        // Keep scroll viewport in sync with current content region so max scroll bounds
-        // match the visible area (especially when scrollbars consume space).
-        {
-            let mut scroll = self.scroll.borrow_mut();
-            scroll.set_viewport(content_region.width, content_region.height);
-        }
-
         const SCROLL_AMOUNT: i32 = 3;
         match event.kind {
             crossterm::event::MouseEventKind::Moved => {
@@ -823,9 +763,9 @@ Screen {
                     self.is_dirty = true;
                 }
 
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self
-                        .dispatch_mouse_to_children(event, layout_region, viewport)
+                        .dispatch_mouse_to_children(event, &placements)
                         .map(|(msg, _)| msg);
                 }
                 return None;
@@ -839,9 +779,9 @@ Screen {
                     self.handle_horizontal_scrollbar_click(event, h_region);
                     return None;
                 }
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self
-                        .dispatch_mouse_to_children(event, layout_region, viewport)
+                        .dispatch_mouse_to_children(event, &placements)
                         .map(|(msg, _)| msg);
                 }
                 return None;
@@ -851,9 +791,9 @@ Screen {
                     self.handle_scrollbar_drag(event, inner_region, vertical, grab_offset);
                     return None;
                 }
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self
-                        .dispatch_mouse_to_children(event, layout_region, viewport)
+                        .dispatch_mouse_to_children(event, &placements)
                         .map(|(msg, _)| msg);
                 }
                 return None;
@@ -863,9 +803,9 @@ Screen {
                     self.scrollbar_drag = None;
                     self.is_dirty = true;
                 }
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self
-                        .dispatch_mouse_to_children(event, layout_region, viewport)
+                        .dispatch_mouse_to_children(event, &placements)
                         .map(|(msg, _)| msg);
                 }
                 return None;
@@ -929,25 +869,11 @@ Screen {
             }
         }
 
-        // Compute placements and dispatch mouse events
-        let placements = self.compute_child_placements(layout_region, viewport);
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            if scrolled_region.contains_point(mx, my) {
-                if let Some(child) = self.children.get_mut(placement.child_index) {
-                    if let Some((msg, _sender)) = child.on_mouse_with_sender(event, scrolled_region)
-                    {
-                        return Some(msg);
-                    }
-                }
-            }
+        // Dispatch wheel events the screen itself does not scroll with
+        if content_region.contains_point(mx, my) {
+            return self
+                .dispatch_mouse_to_children(event, &placements)
+                .map(|(msg, _)| msg);
         }
 
         None
@@ -968,8 +894,10 @@ Screen {
         let inner_region = crate::containers::inner_region_for_container(region, &self.style);
         let viewport = layouts::Viewport::from(region);
 
+        // Lay out as painted, so that hits and scroll bounds match what is visible
+        let (content_region, placements) = self.layout_children(inner_region, viewport);
+
         // Scrollbar interaction regions
-        let content_region = self.content_region_for_scroll(inner_region);
         let v_region = self.vertical_scrollbar_region(inner_region);
         let h_region = self.horizontal_scrollbar_region(inner_region);
         let render_vertical = self.render_vertical_scrollbar();
@@ -977,20 +905,6 @@ Screen {
         let on_vertical = render_vertical && v_region.contains_point(mx, my);
         let on_horizontal = render_horizontal && h_region.contains_point(mx, my);
 
-        let layout_region =
-            if self.show_vertical_scrollbar() && content_region.width < inner_region.width {
-                content_region
-            } else {
-                inner_region
-            };
-
-        // Keep scroll viewport in sync with current content region so max scroll bounds
-        // match the visible area (especially when scrollbars consume space).
-        {
-            let mut scroll = self.scroll.borrow_mut();
-            scroll.set_viewport(content_region.width, content_region.height);
-        }
-
         const SCROLL_AMOUNT: i32 = 3;
         match event.kind {
             crossterm::event::MouseEventKind::Moved => {
@@ -1012,8 +926,8 @@ Screen {
                     self.is_dirty = true;
                 }
 
-                if layout_region.contains_point(mx, my) {
-                    return self.dispatch_mouse_to_children(event, layout_region, viewport);
+                if content_region.contains_point(mx, my) {
+                    return self.dispatch_mouse_to_children(event, &placements);
                 }
                 return None;
             }
@@ -1026,8 +940,8 @@ Screen {
                     self.handle_horizontal_scrollbar_click(event, h_region);
                     return None;
                 }
-                if layout_region.contains_point(mx, my) {
-                    return self.dispatch_mouse_to_children(event, layout_region, viewport);
+                if content_region.contains_point(mx, my) {
+                    return self.dispatch_mouse_to_children(event, &placements);
                 }
                 return None;
             }
@@ -1036,8 +950,8 @@ Screen {
                     self.handle_scrollbar_drag(event, inner_region, vertical, grab_offset);
                     return None;
                 }
-                if layout_region.contains_point(mx, my) {
-                    return self.dispatch_mouse_to_children(event, layout_region, viewport);
+                if content_region.contains_point(mx, my) {
+                    return self.dispatch_mouse_to_children(event, &placements);
                 }
                 return None;
             }
@@ -1046,8 +960,8 @@ Screen {
                     self.scrollbar_drag = None;
                     self.is_dirty = true;
                 }
-                if layout_region.contains_point(mx, my) {
-                    return self.dispatch_mouse_to_children(event, layout_region, viewport);
+                if content_region.contains_point(mx, my) {
+                    return self.dispatch_mouse_to_children(event, &placements);
                 }
                 return None;
             }
@@ -1110,24 +1024,9 @@ Screen {
             }
         }
 
-        // Compute placements and dispatch mouse events
-        let placements = self.compute_child_placements(layout_region, viewport);
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            if scrolled_region.contains_point(mx, my) {
-                if let Some(child) = self.children.get_mut(placement.child_index) {
-                    if let Some(result) = child.on_mouse_with_sender(event, scrolled_region) {
-                        return Some(result);
-                    }
-                }
-            }
+        // Dispatch wheel events the screen itself does not scroll with
+        if content_region.contains_point(mx, my) {
+            return self.dispatch_mouse_to_children(event, &placements);
         }
 
         None
-- 
2.43.0


From f5729e5c37937db7ff683ecf3fda9cedf0b43fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:14 +0000
Subject: [PATCH 43/83] fix: lay out a container from its children's current
 state instead of a stale cache

---
 crates/textual/src/containers/container.rs | 47 +---------------------
 1 file changed, 2 insertions(+), 45 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index e707219..1d5ba8c 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -25,15 +25,6 @@ use crate::segment::Style;
 use crate::widget::Widget;
 use crate::{KeyCode, MouseEvent, MouseEventKind};
 
-/// Cached layout computation result.
-/// Stores the computed placements along with the region/viewport they were computed for.
-#[derive(Debug, Clone)]
-struct CachedLayout {
-    placements: Vec<WidgetPlacement>,
-    region: Region,
-    viewport: Viewport,
-}
-
 // Re-export for use by Horizontal/Vertical
 pub use tcss::types::Layout as ContainerLayoutDirection;
 
@@ -64,9 +55,6 @@ pub struct Container<M> {
     /// Cached viewport size from on_resize (terminal dimensions).
     /// Used for content_height_for_scroll to match layout calculations.
     viewport: Size,
-    /// Cached layout placements to avoid recomputing on every render.
-    /// Uses RefCell for interior mutability since render takes &self.
-    cached_layout: RefCell<Option<CachedLayout>>,
     /// Scroll state for overflow scrolling.
     /// Uses RefCell for interior mutability since render takes &self.
     scroll: RefCell<ScrollState>,
@@ -92,7 +80,6 @@ impl<M> Container<M> {
             border_subtitle: None,
             layout_override: None,
             viewport: Size::new(80, 24), // Default until on_resize is called
-            cached_layout: RefCell::new(None),
             scroll: RefCell::new(ScrollState::default()),
             scrollbars_shown: Cell::new((false, false)),
             scrollbar_hover: None,
@@ -128,7 +115,6 @@ impl<M> Container<M> {
     /// Replace all children with a new list.
     pub fn set_children(&mut self, children: Vec<Box<dyn Widget<M>>>) {
         self.children = children;
-        self.cached_layout = RefCell::new(None);
         self.scroll = RefCell::new(ScrollState::default());
         self.dirty = true;
     }
@@ -331,19 +317,7 @@ impl<M> Container<M> {
     }
 
     /// Compute child placements using the appropriate layout algorithm.
-    /// Uses caching to avoid recomputation when region/viewport haven't changed.
     fn compute_child_placements(&self, region: Region, viewport: Viewport) -> Vec<WidgetPlacement> {
-        // Check cache first - if region and viewport match, return cached placements
-        {
-            let cache = self.cached_layout.borrow();
-            if let Some(ref cached) = *cache {
-                if cached.region == region && cached.viewport == viewport {
-                    return cached.placements.clone();
-                }
-            }
-        }
-
-        // Cache miss - compute fresh placements
         let children_with_styles: Vec<layouts::LayoutChild> = self
             .children
             .iter()
@@ -362,21 +336,12 @@ impl<M> Container<M> {
         effective_style.layout = self.effective_layout();
 
         // Dispatch to layout (handles layers internally when needed)
-        let placements = layouts::arrange_children_with_layers(
+        layouts::arrange_children_with_layers(
             &effective_style,
             &children_with_styles,
             region,
             viewport,
-        );
-
-        // Store in cache
-        *self.cached_layout.borrow_mut() = Some(CachedLayout {
-            placements: placements.clone(),
-            region,
-            viewport,
-        });
-
-        placements
+        )
     }
 
     /// Lay out the children the way they are painted in `region`, updating the scroll state.
@@ -1326,8 +1291,6 @@ Container {
 
     fn set_style(&mut self, style: ComputedStyle) {
         self.style = style;
-        // Invalidate layout cache since style may affect layout
-        *self.cached_layout.borrow_mut() = None;
     }
 
     fn get_style(&self) -> ComputedStyle {
@@ -1337,7 +1300,6 @@ Container {
     fn set_inline_style(&mut self, style: StyleOverride) {
         self.inline_style = style;
         self.dirty = true;
-        *self.cached_layout.borrow_mut() = None;
     }
 
     fn inline_style(&self) -> Option<&StyleOverride> {
@@ -1351,7 +1313,6 @@ Container {
     fn clear_inline_style(&mut self) {
         self.inline_style = StyleOverride::default();
         self.dirty = true;
-        *self.cached_layout.borrow_mut() = None;
     }
 
     fn is_dirty(&self) -> bool {
@@ -1360,8 +1321,6 @@ Container {
 
     fn mark_dirty(&mut self) {
         self.dirty = true;
-        // Invalidate layout cache when container is marked dirty
-        *self.cached_layout.borrow_mut() = None;
     }
 
     fn mark_clean(&mut self) {
@@ -1382,8 +1341,6 @@ Container {
         // Store viewport for content_height_for_scroll calculations
         log::debug!("Container::on_resize: size={}x{}", size.width, size.height);
         self.viewport = size;
-        // Invalidate layout cache since viewport changed
-        *self.cached_layout.borrow_mut() = None;
         for child in &mut self.children {
             child.on_resize(size);
         }
-- 
2.43.0


From f0841dec1c402a7b66e63751ebe515f71bbcb30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:45 +0000
Subject: [PATCH 44/83] fix: end a scrollbar drag once no button is held, and
 page by at least one cell

---
 crates/textual/src/containers/scrollable.rs | 26 ++++++++++-----------
 crates/textual/src/widget/screen.rs         | 20 ++++++++--------
 2 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 79c9eed..74d88ed 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -940,7 +940,7 @@ ScrollableContainer {
             }
             KeyCode::PageUp if self.allow_vertical_scroll() => {
                 let mut scroll = self.scroll.borrow_mut();
-                let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32;
+                let amount = ((scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32).max(1);
                 scroll.scroll_up(amount);
                 drop(scroll);
                 self.dirty = true;
@@ -948,7 +948,7 @@ ScrollableContainer {
             }
             KeyCode::PageDown if self.allow_vertical_scroll() => {
                 let mut scroll = self.scroll.borrow_mut();
-                let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32;
+                let amount = ((scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32).max(1);
                 scroll.scroll_down(amount);
                 drop(scroll);
                 self.dirty = true;
@@ -1042,9 +1042,9 @@ ScrollableContainer {
 
         match event.kind {
             MouseEventKind::Moved => {
-                // Handle drag
-                if let Some((vertical, grab_offset)) = self.scrollbar_drag {
-                    return self.handle_scrollbar_drag(event, inner_region, vertical, grab_offset);
+                // No button is held: a drag was let go where we could not see it
+                if self.scrollbar_drag.take().is_some() {
+                    self.dirty = true;
                 }
 
                 // Update hover state
@@ -1183,11 +1183,9 @@ ScrollableContainer {
 
         match event.kind {
             MouseEventKind::Moved => {
-                // Handle drag
-                if let Some((vertical, grab_offset)) = self.scrollbar_drag {
-                    return self
-                        .handle_scrollbar_drag(event, inner_region, vertical, grab_offset)
-                        .map(|msg| (msg, self.sender_info()));
+                // No button is held: a drag was let go where we could not see it
+                if self.scrollbar_drag.take().is_some() {
+                    self.dirty = true;
                 }
 
                 // Update hover state
@@ -1381,14 +1379,14 @@ impl<M> ScrollableContainer<M> {
         } else if pos_in_bar < thumb_start {
             // Click above thumb - page scroll up
             let mut scroll = self.scroll.borrow_mut();
-            let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32;
+            let amount = ((scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32).max(1);
             scroll.scroll_up(amount);
             drop(scroll);
             self.dirty = true;
         } else {
             // Click below thumb - page scroll down
             let mut scroll = self.scroll.borrow_mut();
-            let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32;
+            let amount = ((scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32).max(1);
             scroll.scroll_down(amount);
             drop(scroll);
             self.dirty = true;
@@ -1441,7 +1439,7 @@ impl<M> ScrollableContainer<M> {
             // Click left of thumb - page scroll left
             log::info!("  -> Scroll LEFT");
             let mut scroll = self.scroll.borrow_mut();
-            let amount = (scroll.viewport_width as f32 * PAGE_SCROLL_RATIO) as i32;
+            let amount = ((scroll.viewport_width as f32 * PAGE_SCROLL_RATIO) as i32).max(1);
             scroll.scroll_left(amount);
             drop(scroll);
             self.dirty = true;
@@ -1449,7 +1447,7 @@ impl<M> ScrollableContainer<M> {
             // Click right of thumb - page scroll right
             log::info!("  -> Scroll RIGHT");
             let mut scroll = self.scroll.borrow_mut();
-            let amount = (scroll.viewport_width as f32 * PAGE_SCROLL_RATIO) as i32;
+            let amount = ((scroll.viewport_width as f32 * PAGE_SCROLL_RATIO) as i32).max(1);
             scroll.scroll_right(amount);
             drop(scroll);
             self.dirty = true;
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 1903283..0f746b0 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -397,13 +397,13 @@ impl<M> Screen<M> {
             self.is_dirty = true;
         } else if pos_in_bar < thumb_start {
             let mut scroll = self.scroll.borrow_mut();
-            let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32;
+            let amount = ((scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32).max(1);
             scroll.scroll_up(amount);
             drop(scroll);
             self.is_dirty = true;
         } else {
             let mut scroll = self.scroll.borrow_mut();
-            let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32;
+            let amount = ((scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32).max(1);
             scroll.scroll_down(amount);
             drop(scroll);
             self.is_dirty = true;
@@ -428,13 +428,13 @@ impl<M> Screen<M> {
             self.is_dirty = true;
         } else if pos_in_bar < thumb_start {
             let mut scroll = self.scroll.borrow_mut();
-            let amount = (scroll.viewport_width as f32 * PAGE_SCROLL_RATIO) as i32;
+            let amount = ((scroll.viewport_width as f32 * PAGE_SCROLL_RATIO) as i32).max(1);
             scroll.scroll_left(amount);
             drop(scroll);
             self.is_dirty = true;
         } else {
             let mut scroll = self.scroll.borrow_mut();
-            let amount = (scroll.viewport_width as f32 * PAGE_SCROLL_RATIO) as i32;
+            let amount = ((scroll.viewport_width as f32 * PAGE_SCROLL_RATIO) as i32).max(1);
             scroll.scroll_right(amount);
             drop(scroll);
             self.is_dirty = true;
@@ -745,9 +745,9 @@ Screen {
         const SCROLL_AMOUNT: i32 = 3;
         match event.kind {
             crossterm::event::MouseEventKind::Moved => {
-                if let Some((vertical, grab_offset)) = self.scrollbar_drag {
-                    self.handle_scrollbar_drag(event, inner_region, vertical, grab_offset);
-                    return None;
+                // No button is held: a drag was let go where we could not see it
+                if self.scrollbar_drag.take().is_some() {
+                    self.is_dirty = true;
                 }
 
                 let new_hover = if on_vertical {
@@ -908,9 +908,9 @@ Screen {
         const SCROLL_AMOUNT: i32 = 3;
         match event.kind {
             crossterm::event::MouseEventKind::Moved => {
-                if let Some((vertical, grab_offset)) = self.scrollbar_drag {
-                    self.handle_scrollbar_drag(event, inner_region, vertical, grab_offset);
-                    return None;
+                // No button is held: a drag was let go where we could not see it
+                if self.scrollbar_drag.take().is_some() {
+                    self.is_dirty = true;
                 }
 
                 let new_hover = if on_vertical {
-- 
2.43.0


From 26e3508b85b50be53ac25013151e07dab024237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:33 +0000
Subject: [PATCH 45/83] fix: keep the scroll position when content and viewport
 change together

---
 crates/textual/src/containers/container.rs  |  8 ++++++--
 crates/textual/src/containers/scrollable.rs |  8 ++++++--
 crates/textual/src/scroll.rs                | 14 ++++++++++++++
 crates/textual/src/widget/screen.rs         |  8 ++++++--
 4 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 1d5ba8c..fe645b3 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -393,8 +393,12 @@ impl<M> Container<M> {
             }
 
             let mut scroll = self.scroll.borrow_mut();
-            scroll.set_virtual_size(virtual_width, virtual_height);
-            scroll.set_viewport(content_region.width, content_region.height);
+            scroll.set_sizes(
+                virtual_width,
+                virtual_height,
+                content_region.width,
+                content_region.height,
+            );
             return (inner_region, content_region, placements);
         }
     }
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 74d88ed..23cf27f 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -544,8 +544,12 @@ impl<M> ScrollableContainer<M> {
 
         {
             let mut scroll = self.scroll.borrow_mut();
-            scroll.set_virtual_size(virtual_width, virtual_height);
-            scroll.set_viewport(content_region.width, content_region.height);
+            scroll.set_sizes(
+                virtual_width,
+                virtual_height,
+                content_region.width,
+                content_region.height,
+            );
         }
 
         ScrollLayout {
diff --git a/crates/textual/src/scroll.rs b/crates/textual/src/scroll.rs
index f36607c..ea4941b 100644
--- a/crates/textual/src/scroll.rs
+++ b/crates/textual/src/scroll.rs
@@ -124,6 +124,20 @@ impl ScrollState {
         }
     }
 
+    /// Update virtual content and viewport dimensions together, so that the offset is
+    /// only clamped to the bounds they give together.
+    pub fn set_sizes(
+        &mut self,
+        virtual_width: i32,
+        virtual_height: i32,
+        viewport_width: i32,
+        viewport_height: i32,
+    ) {
+        self.virtual_width = virtual_width;
+        self.virtual_height = virtual_height;
+        self.set_viewport(viewport_width, viewport_height);
+    }
+
     /// Update viewport dimensions.
     pub fn set_viewport(&mut self, width: i32, height: i32) {
         self.viewport_width = width;
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 0f746b0..6ba6a68 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -225,8 +225,12 @@ impl<M> Screen<M> {
             }
 
             let mut scroll = self.scroll.borrow_mut();
-            scroll.set_virtual_size(virtual_width, virtual_height);
-            scroll.set_viewport(content_region.width, content_region.height);
+            scroll.set_sizes(
+                virtual_width,
+                virtual_height,
+                content_region.width,
+                content_region.height,
+            );
             return (content_region, placements);
         }
     }
-- 
2.43.0


From 7429007cf66735368f33d74fd7f6b9fadd4f5424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:58 +0000
Subject: [PATCH 46/83] fix: show a thumb when only the gutter makes the
 content scroll

---
 crates/textual/src/scrollbar.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/scrollbar.rs b/crates/textual/src/scrollbar.rs
index 011258c..31ca967 100644
--- a/crates/textual/src/scrollbar.rs
+++ b/crates/textual/src/scrollbar.rs
@@ -106,7 +106,7 @@ impl ScrollBarRender {
             || window_size <= 0.0
             || size <= 0.0
             || virtual_size <= 0.0
-            || virtual_size == size
+            || (virtual_size == size && window_size >= virtual_size)
         {
             return;
         }
@@ -234,7 +234,7 @@ impl ScrollBarRender {
             || window_size <= 0.0
             || size <= 0.0
             || virtual_size <= 0.0
-            || virtual_size == size
+            || (virtual_size == size && window_size >= virtual_size)
         {
             return;
         }
@@ -330,7 +330,7 @@ impl ScrollBarRender {
         } else {
             0.0
         };
-        if window_size <= 0.0 || track_size == 0 || virtual_size == size || virtual_size <= 0.0 {
+        if window_size <= 0.0 || track_size == 0 || virtual_size <= 0.0 {
             return (0, 0);
         }
 
-- 
2.43.0


From 91d9c697d9c7a86c8321a401f3e4954bff313d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:12 +0000
Subject: [PATCH 47/83] fix: drag a thumb of minimum length all the way to the
 end of its track

---
 crates/textual/src/containers/scrollable.rs | 4 ++--
 crates/textual/src/widget/screen.rs         | 4 ++--
 crates/textual/src/widget/scrollbar.rs      | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 23cf27f..1a8f939 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -1479,7 +1479,7 @@ impl<M> ScrollableContainer<M> {
             let virtual_size = scroll.virtual_height as f32;
             let window_size = scroll.viewport_height as f32;
             drop(scroll);
-            let thumb_size = (window_size / virtual_size) * track_size;
+            let thumb_size = (window_size * track_size / virtual_size).max(1.0);
             let track_range = track_size - thumb_size;
 
             if track_range > 0.0 {
@@ -1499,7 +1499,7 @@ impl<M> ScrollableContainer<M> {
             let virtual_size = scroll.virtual_width as f32;
             let window_size = scroll.viewport_width as f32;
             drop(scroll);
-            let thumb_size = (window_size / virtual_size) * track_size;
+            let thumb_size = (window_size * track_size / virtual_size).max(1.0);
             let track_range = track_size - thumb_size;
 
             if track_range > 0.0 {
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 6ba6a68..11b56f0 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -463,7 +463,7 @@ impl<M> Screen<M> {
             let virtual_size = scroll.virtual_height as f32;
             let window_size = scroll.viewport_height as f32;
             drop(scroll);
-            let thumb_size = (window_size / virtual_size) * track_size;
+            let thumb_size = (window_size * track_size / virtual_size).max(1.0);
             let track_range = track_size - thumb_size;
 
             if track_range > 0.0 {
@@ -483,7 +483,7 @@ impl<M> Screen<M> {
             let virtual_size = scroll.virtual_width as f32;
             let window_size = scroll.viewport_width as f32;
             drop(scroll);
-            let thumb_size = (window_size / virtual_size) * track_size;
+            let thumb_size = (window_size * track_size / virtual_size).max(1.0);
             let track_range = track_size - thumb_size;
 
             if track_range > 0.0 {
diff --git a/crates/textual/src/widget/scrollbar.rs b/crates/textual/src/widget/scrollbar.rs
index 6ea247d..1329e3e 100644
--- a/crates/textual/src/widget/scrollbar.rs
+++ b/crates/textual/src/widget/scrollbar.rs
@@ -293,7 +293,7 @@ where
                     let new_thumb_start = pos_in_bar - grab_position;
 
                     // Calculate the scroll position this corresponds to
-                    let thumb_size = (self.window_size / self.virtual_size) * track_size;
+                    let thumb_size = (self.window_size * track_size / self.virtual_size).max(1.0);
                     let track_range = track_size - thumb_size;
 
                     let new_position = if track_range > 0.0 {
-- 
2.43.0


From 590e0ebcfee64d843af9d8b3cf7c8a290c08c7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:57 +0000
Subject: [PATCH 48/83] fix: keep the focus path in step with widgets that
 become hidden, disabled or enabled

---
 crates/textual/src/lib.rs  | 10 +++----
 crates/textual/src/tree.rs | 55 +++++++++++++++++++++++++++++++-------
 2 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 5a95eea..8d9a88d 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -817,13 +817,9 @@ pub trait App {
 
                 // If the currently focused widget is no longer focusable (e.g. hidden modal),
                 // fall back to the first available focusable widget.
-                if let Some(is_focusable) = tree.with_focused(|widget| widget.is_focusable()) {
-                    if !is_focusable {
-                        if tree.set_focus_index(0) {
-                            last_focus_index = self.focus_index();
-                            needs_render = true;
-                        }
-                    }
+                if !tree.focused_is_focusable() && tree.set_focus_index(0) {
+                    last_focus_index = self.focus_index();
+                    needs_render = true;
                 }
 
                 if needs_render {
diff --git a/crates/textual/src/tree.rs b/crates/textual/src/tree.rs
index 552e11c..fe956c5 100644
--- a/crates/textual/src/tree.rs
+++ b/crates/textual/src/tree.rs
@@ -138,7 +138,8 @@ impl<M> WidgetTree<M> {
         if count == 0 {
             return None;
         }
-        let next = (self.current_focus_index + 1) % count;
+        let (before, on_focusable) = self.focus_position();
+        let next = (before + usize::from(on_focusable)) % count;
         if self.set_focus_index(next) {
             Some(next)
         } else {
@@ -152,11 +153,8 @@ impl<M> WidgetTree<M> {
         if count == 0 {
             return None;
         }
-        let prev = if self.current_focus_index == 0 {
-            count - 1
-        } else {
-            self.current_focus_index - 1
-        };
+        let (before, _) = self.focus_position();
+        let prev = before.checked_sub(1).unwrap_or(count - 1);
         if self.set_focus_index(prev) {
             Some(prev)
         } else {
@@ -164,15 +162,24 @@ impl<M> WidgetTree<M> {
         }
     }
 
+    /// Check whether the widget at the focus path can (still) receive focus.
+    pub fn focused_is_focusable(&mut self) -> bool {
+        self.focus_position().1
+    }
+
+    /// Locate the focused widget in the focus order, which may have changed since it was focused.
+    ///
+    /// Returns how many focusable widgets come before it and whether it is focusable itself.
+    fn focus_position(&mut self) -> (usize, bool) {
+        find_focus_position(self.root.as_mut(), &self.focus_path.indices)
+    }
+
     /// Update the focus path for a given focus index.
     ///
     /// This walks the tree to find the nth focusable widget and caches
     /// the path to it. Call this when focus changes.
     pub fn update_focus(&mut self, focus_index: usize) {
-        if focus_index == self.current_focus_index && !self.focus_path.indices.is_empty() {
-            return; // Path is already cached for this focus index
-        }
-
+        // Always walk: the nth focusable widget may have become a different one
         self.focus_path.clear();
         self.current_focus_index = focus_index;
 
@@ -530,6 +537,9 @@ fn find_focus_path_recursive<M>(
     path: &mut FocusPath,
     remaining: &mut usize,
 ) -> bool {
+    if !widget.participates_in_layout() {
+        return false;
+    }
     // Check if this widget is focusable
     if widget.is_focusable() {
         if *remaining == 0 {
@@ -553,6 +563,31 @@ fn find_focus_path_recursive<M>(
     false
 }
 
+/// Count the focusable widgets before the one at `path`, and check whether that one is focusable.
+fn find_focus_position<M>(widget: &mut dyn Widget<M>, path: &[usize]) -> (usize, bool) {
+    if !widget.participates_in_layout() {
+        return (0, false);
+    }
+    let Some((&index, rest)) = path.split_first() else {
+        return (0, widget.is_focusable());
+    };
+    let mut before = usize::from(widget.is_focusable());
+    for i in 0..index {
+        if let Some(child) = widget.get_child_mut(i) {
+            if child.participates_in_layout() {
+                before += child.count_focusable();
+            }
+        }
+    }
+    match widget.get_child_mut(index) {
+        Some(child) => {
+            let (inside, on_focusable) = find_focus_position(child, rest);
+            (before + inside, on_focusable)
+        }
+        None => (before, false),
+    }
+}
+
 /// Recursively compute the focus index for a widget with the given ID.
 fn find_focus_index_by_id<M>(
     widget: &mut dyn Widget<M>,
-- 
2.43.0


From 5c12ad2d9de97f8107c47c05181703aac8a5001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 49/83] fix: clear focus and hover of hidden children too

---
 crates/textual/src/containers/container.rs  | 8 ++------
 crates/textual/src/containers/grid.rs       | 8 ++------
 crates/textual/src/containers/item_grid.rs  | 8 ++------
 crates/textual/src/containers/scrollable.rs | 8 ++------
 crates/textual/src/widget/app_widget.rs     | 4 +---
 crates/textual/src/widget/screen.rs         | 8 ++------
 6 files changed, 11 insertions(+), 33 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index fe645b3..c02225d 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -1456,9 +1456,7 @@ Container {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
@@ -1478,9 +1476,7 @@ Container {
 
     fn clear_hover(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 
diff --git a/crates/textual/src/containers/grid.rs b/crates/textual/src/containers/grid.rs
index 36f165d..8295249 100644
--- a/crates/textual/src/containers/grid.rs
+++ b/crates/textual/src/containers/grid.rs
@@ -432,9 +432,7 @@ Grid {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
@@ -454,9 +452,7 @@ Grid {
 
     fn clear_hover(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index 0ae554f..02df890 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -316,9 +316,7 @@ impl<M> Widget<M> for ItemGrid<M> {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
@@ -338,9 +336,7 @@ impl<M> Widget<M> for ItemGrid<M> {
 
     fn clear_hover(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 1a8f939..a67f5a4 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -1319,9 +1319,7 @@ ScrollableContainer {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
@@ -1353,9 +1351,7 @@ ScrollableContainer {
     fn clear_hover(&mut self) {
         self.scrollbar_hover = None;
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 }
diff --git a/crates/textual/src/widget/app_widget.rs b/crates/textual/src/widget/app_widget.rs
index 9c0ef37..1d4c1e2 100644
--- a/crates/textual/src/widget/app_widget.rs
+++ b/crates/textual/src/widget/app_widget.rs
@@ -250,9 +250,7 @@ App {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 }
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 11b56f0..241c0a2 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -1048,9 +1048,7 @@ Screen {
 
     fn clear_hover(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 
@@ -1098,9 +1096,7 @@ Screen {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 }
-- 
2.43.0


From 6f6f3ec016a5d98bb84be8803e1df9b413bd0b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 50/83] fix: deliver a bubbling message to each ancestor once
 and to no other widget

---
 crates/textual/src/widget/app_widget.rs | 8 --------
 crates/textual/src/widget/screen.rs     | 9 ---------
 2 files changed, 17 deletions(-)

diff --git a/crates/textual/src/widget/app_widget.rs b/crates/textual/src/widget/app_widget.rs
index 1d4c1e2..1264960 100644
--- a/crates/textual/src/widget/app_widget.rs
+++ b/crates/textual/src/widget/app_widget.rs
@@ -216,14 +216,6 @@ App {
         any_changed
     }
 
-    fn handle_message(&mut self, envelope: &mut crate::MessageEnvelope<M>) -> Option<M> {
-        let mut handled = None;
-        for child in &mut self.children {
-            handled = child.handle_message(envelope);
-        }
-        handled
-    }
-
     // Focus delegation
     fn count_focusable(&self) -> usize {
         self.children
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 241c0a2..99044ce 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -1062,15 +1062,6 @@ Screen {
         changed
     }
 
-    fn handle_message(&mut self, envelope: &mut crate::MessageEnvelope<M>) -> Option<M> {
-        for child in &mut self.children {
-            if let Some(msg) = child.handle_message(envelope) {
-                return Some(msg);
-            }
-        }
-        None
-    }
-
     // Focus delegation
     fn count_focusable(&self) -> usize {
         self.children
-- 
2.43.0


From 0199f5f2c901551d6fec9887f5d9672b044be659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:11 +0000
Subject: [PATCH 51/83] fix: let class, title and typed queries reach Vertical,
 Horizontal and the scroll containers

---
 .../src/containers/horizontal_scroll.rs       | 28 ++++++++++++
 .../textual/src/containers/vertical_scroll.rs | 28 ++++++++++++
 crates/textual/src/macros.rs                  | 44 +++++++++++++++++++
 3 files changed, 100 insertions(+)

diff --git a/crates/textual/src/containers/horizontal_scroll.rs b/crates/textual/src/containers/horizontal_scroll.rs
index fa28381..20ae8ef 100644
--- a/crates/textual/src/containers/horizontal_scroll.rs
+++ b/crates/textual/src/containers/horizontal_scroll.rs
@@ -220,6 +220,34 @@ HorizontalScroll {
         self.inner.is_focused()
     }
 
+    fn as_any(&self) -> Option<&dyn std::any::Any> {
+        Some(self)
+    }
+
+    fn as_any_mut(&mut self) -> Option<&mut dyn std::any::Any> {
+        Some(self)
+    }
+
+    fn add_class(&mut self, class: &str) {
+        self.inner.add_class(class)
+    }
+
+    fn remove_class(&mut self, class: &str) {
+        self.inner.remove_class(class)
+    }
+
+    fn has_class(&self, class: &str) -> bool {
+        self.inner.has_class(class)
+    }
+
+    fn set_classes(&mut self, classes: &str) {
+        self.inner.set_classes(classes)
+    }
+
+    fn classes(&self) -> Vec<String> {
+        self.inner.classes()
+    }
+
     fn child_count(&self) -> usize {
         self.inner.child_count()
     }
diff --git a/crates/textual/src/containers/vertical_scroll.rs b/crates/textual/src/containers/vertical_scroll.rs
index 8f8e83d..943b135 100644
--- a/crates/textual/src/containers/vertical_scroll.rs
+++ b/crates/textual/src/containers/vertical_scroll.rs
@@ -217,6 +217,34 @@ VerticalScroll {
         self.inner.is_focused()
     }
 
+    fn as_any(&self) -> Option<&dyn std::any::Any> {
+        Some(self)
+    }
+
+    fn as_any_mut(&mut self) -> Option<&mut dyn std::any::Any> {
+        Some(self)
+    }
+
+    fn add_class(&mut self, class: &str) {
+        self.inner.add_class(class)
+    }
+
+    fn remove_class(&mut self, class: &str) {
+        self.inner.remove_class(class)
+    }
+
+    fn has_class(&self, class: &str) -> bool {
+        self.inner.has_class(class)
+    }
+
+    fn set_classes(&mut self, classes: &str) {
+        self.inner.set_classes(classes)
+    }
+
+    fn classes(&self) -> Vec<String> {
+        self.inner.classes()
+    }
+
     fn child_count(&self) -> usize {
         self.inner.child_count()
     }
diff --git a/crates/textual/src/macros.rs b/crates/textual/src/macros.rs
index 4ed56fe..1deea70 100644
--- a/crates/textual/src/macros.rs
+++ b/crates/textual/src/macros.rs
@@ -218,6 +218,50 @@ macro_rules! impl_widget_delegation {
             fn content_width_for_scroll(&self, available_width: u16) -> u16 {
                 self.$field.content_width_for_scroll(available_width)
             }
+
+            fn as_any(&self) -> Option<&dyn std::any::Any> {
+                Some(self)
+            }
+
+            fn as_any_mut(&mut self) -> Option<&mut dyn std::any::Any> {
+                Some(self)
+            }
+
+            fn set_border_title(&mut self, title: &str) {
+                self.$field.set_border_title(title)
+            }
+
+            fn set_border_subtitle(&mut self, subtitle: &str) {
+                self.$field.set_border_subtitle(subtitle)
+            }
+
+            fn border_title(&self) -> Option<&str> {
+                self.$field.border_title()
+            }
+
+            fn border_subtitle(&self) -> Option<&str> {
+                self.$field.border_subtitle()
+            }
+
+            fn add_class(&mut self, class: &str) {
+                self.$field.add_class(class)
+            }
+
+            fn remove_class(&mut self, class: &str) {
+                self.$field.remove_class(class)
+            }
+
+            fn has_class(&self, class: &str) -> bool {
+                self.$field.has_class(class)
+            }
+
+            fn set_classes(&mut self, classes: &str) {
+                self.$field.set_classes(classes)
+            }
+
+            fn classes(&self) -> Vec<String> {
+                self.$field.classes()
+            }
         }
     };
 }
-- 
2.43.0


From fec6e8ef8557ac3d61049677065c6b07ba9c07b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:36 +0000
Subject: [PATCH 52/83] fix: forward focus, tooltips, inline styles and mouse
 blocking through boxed widgets

---
 crates/textual/src/widget.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/crates/textual/src/widget.rs b/crates/textual/src/widget.rs
index 5fe2d87..a0006e7 100644
--- a/crates/textual/src/widget.rs
+++ b/crates/textual/src/widget.rs
@@ -663,6 +663,38 @@ impl<M> Widget<M> for Box<dyn Widget<M>> {
         self.as_ref().take_pending_action()
     }
 
+    fn set_inline_style(&mut self, style: StyleOverride) {
+        self.as_mut().set_inline_style(style);
+    }
+
+    fn inline_style(&self) -> Option<&StyleOverride> {
+        self.as_ref().inline_style()
+    }
+
+    fn clear_inline_style(&mut self) {
+        self.as_mut().clear_inline_style();
+    }
+
+    fn tooltip(&self) -> Option<String> {
+        self.as_ref().tooltip()
+    }
+
+    fn set_tooltip(&mut self, tooltip: Option<String>) {
+        self.as_mut().set_tooltip(tooltip);
+    }
+
+    fn set_focus(&mut self, is_focused: bool) {
+        self.as_mut().set_focus(is_focused);
+    }
+
+    fn is_focused(&self) -> bool {
+        self.as_ref().is_focused()
+    }
+
+    fn blocks_mouse_events(&self) -> bool {
+        self.as_ref().blocks_mouse_events()
+    }
+
     fn is_focusable(&self) -> bool {
         self.as_ref().is_focusable()
     }
-- 
2.43.0


From d30baae309a9f4fbbea08d4607d300d587b8c791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:59 +0000
Subject: [PATCH 53/83] fix: leave a display: none child of Center and Middle
 out of painting, input and focus

---
 crates/textual/src/containers.rs | 44 +++++++++++++-------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index 005ea1c..a2a9de2 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -155,7 +155,7 @@ impl<M> Center<M> {
 
 impl<M> Widget<M> for Center<M> {
     fn desired_size(&self) -> Size {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return Size {
                 width: 0,
                 height: 0,
@@ -169,7 +169,7 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn render(&self, canvas: &mut Canvas, region: Region) {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return;
         }
         self.child().render(canvas, self.centered_region(region));
@@ -194,34 +194,32 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn on_event(&mut self, key: KeyCode) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         self.child_mut().on_event(key)
     }
 
     fn count_focusable(&self) -> usize {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return 0;
         }
         self.child().count_focusable()
     }
 
     fn clear_focus(&mut self) {
-        if self.child().is_visible() {
-            self.child_mut().clear_focus();
-        }
+        self.child_mut().clear_focus();
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return false;
         }
         self.child_mut().focus_nth(n)
     }
 
     fn on_mouse(&mut self, event: MouseEvent, region: Region) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         let centered = self.centered_region(region);
@@ -239,7 +237,7 @@ impl<M> Widget<M> for Center<M> {
         event: MouseEvent,
         region: Region,
     ) -> Option<(M, crate::widget::SenderInfo)> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         let centered = self.centered_region(region);
@@ -253,9 +251,7 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn clear_hover(&mut self) {
-        if self.child().is_visible() {
-            self.child_mut().clear_hover();
-        }
+        self.child_mut().clear_hover();
     }
 
     fn child_count(&self) -> usize {
@@ -321,7 +317,7 @@ impl<M> Middle<M> {
 
 impl<M> Widget<M> for Middle<M> {
     fn desired_size(&self) -> Size {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return Size {
                 width: 0,
                 height: 0,
@@ -335,7 +331,7 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn render(&self, canvas: &mut Canvas, region: Region) {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return;
         }
         self.child().render(canvas, self.middled_region(region));
@@ -360,34 +356,32 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn on_event(&mut self, key: KeyCode) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         self.child_mut().on_event(key)
     }
 
     fn count_focusable(&self) -> usize {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return 0;
         }
         self.child().count_focusable()
     }
 
     fn clear_focus(&mut self) {
-        if self.child().is_visible() {
-            self.child_mut().clear_focus();
-        }
+        self.child_mut().clear_focus();
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return false;
         }
         self.child_mut().focus_nth(n)
     }
 
     fn on_mouse(&mut self, event: MouseEvent, region: Region) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         let middled = self.middled_region(region);
@@ -405,7 +399,7 @@ impl<M> Widget<M> for Middle<M> {
         event: MouseEvent,
         region: Region,
     ) -> Option<(M, crate::widget::SenderInfo)> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         let middled = self.middled_region(region);
@@ -419,9 +413,7 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn clear_hover(&mut self) {
-        if self.child().is_visible() {
-            self.child_mut().clear_hover();
-        }
+        self.child_mut().clear_hover();
     }
 
     fn child_count(&self) -> usize {
-- 
2.43.0


From eff6e577a4caeb9cda2a4f1b29ab53c3d3f79f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:12 +0000
Subject: [PATCH 54/83] fix: change the classes selectors see on VerticalScroll
 and HorizontalScroll

---
 .../textual/src/containers/horizontal_scroll.rs | 17 ++++++++++++-----
 .../textual/src/containers/vertical_scroll.rs   | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/crates/textual/src/containers/horizontal_scroll.rs b/crates/textual/src/containers/horizontal_scroll.rs
index 20ae8ef..50cbfbd 100644
--- a/crates/textual/src/containers/horizontal_scroll.rs
+++ b/crates/textual/src/containers/horizontal_scroll.rs
@@ -229,23 +229,30 @@ HorizontalScroll {
     }
 
     fn add_class(&mut self, class: &str) {
-        self.inner.add_class(class)
+        if !self.classes.iter().any(|c| c == class) {
+            self.classes.push(class.to_string());
+            self.inner.mark_dirty();
+        }
     }
 
     fn remove_class(&mut self, class: &str) {
-        self.inner.remove_class(class)
+        if let Some(pos) = self.classes.iter().position(|c| c == class) {
+            self.classes.remove(pos);
+            self.inner.mark_dirty();
+        }
     }
 
     fn has_class(&self, class: &str) -> bool {
-        self.inner.has_class(class)
+        self.classes.iter().any(|c| c == class)
     }
 
     fn set_classes(&mut self, classes: &str) {
-        self.inner.set_classes(classes)
+        self.classes = classes.split_whitespace().map(String::from).collect();
+        self.inner.mark_dirty();
     }
 
     fn classes(&self) -> Vec<String> {
-        self.inner.classes()
+        self.classes.clone()
     }
 
     fn child_count(&self) -> usize {
diff --git a/crates/textual/src/containers/vertical_scroll.rs b/crates/textual/src/containers/vertical_scroll.rs
index 943b135..a7fa7c7 100644
--- a/crates/textual/src/containers/vertical_scroll.rs
+++ b/crates/textual/src/containers/vertical_scroll.rs
@@ -226,23 +226,30 @@ VerticalScroll {
     }
 
     fn add_class(&mut self, class: &str) {
-        self.inner.add_class(class)
+        if !self.classes.iter().any(|c| c == class) {
+            self.classes.push(class.to_string());
+            self.inner.mark_dirty();
+        }
     }
 
     fn remove_class(&mut self, class: &str) {
-        self.inner.remove_class(class)
+        if let Some(pos) = self.classes.iter().position(|c| c == class) {
+            self.classes.remove(pos);
+            self.inner.mark_dirty();
+        }
     }
 
     fn has_class(&self, class: &str) -> bool {
-        self.inner.has_class(class)
+        self.classes.iter().any(|c| c == class)
     }
 
     fn set_classes(&mut self, classes: &str) {
-        self.inner.set_classes(classes)
+        self.classes = classes.split_whitespace().map(String::from).collect();
+        self.inner.mark_dirty();
     }
 
     fn classes(&self) -> Vec<String> {
-        self.inner.classes()
+        self.classes.clone()
     }
 
     fn child_count(&self) -> usize {
-- 
2.43.0


From 13044841de6fd3632d1e2624acedd8d1473b2b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:46 +0000
Subject: [PATCH 55/83] fix: Center and Middle keep their computed style

Without it a child restyled on its own inherited nothing from above them.
---
 crates/textual/src/containers.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index a2a9de2..7398ae3 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -106,6 +106,7 @@ pub(crate) fn placement_at(
 /// Centered horizontally
 pub struct Center<M> {
     children: Vec<Box<dyn Widget<M>>>,
+    style: ComputedStyle,
     dirty: bool,
 }
 
@@ -122,6 +123,7 @@ impl<M> Center<M> {
         );
         Self {
             children,
+            style: ComputedStyle::default(),
             dirty: true, // Start dirty so initial styles are computed
         }
     }
@@ -181,6 +183,14 @@ impl<M> Widget<M> for Center<M> {
         }
     }
 
+    fn set_style(&mut self, style: ComputedStyle) {
+        self.style = style;
+    }
+
+    fn get_style(&self) -> ComputedStyle {
+        self.style.clone()
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty
     }
@@ -268,6 +278,7 @@ impl<M> Widget<M> for Center<M> {
 /// Centered vertically
 pub struct Middle<M> {
     children: Vec<Box<dyn Widget<M>>>,
+    style: ComputedStyle,
     dirty: bool,
 }
 
@@ -284,6 +295,7 @@ impl<M> Middle<M> {
         );
         Self {
             children,
+            style: ComputedStyle::default(),
             dirty: true, // Start dirty so initial styles are computed
         }
     }
@@ -343,6 +355,14 @@ impl<M> Widget<M> for Middle<M> {
         }
     }
 
+    fn set_style(&mut self, style: ComputedStyle) {
+        self.style = style;
+    }
+
+    fn get_style(&self) -> ComputedStyle {
+        self.style.clone()
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty
     }
-- 
2.43.0


From 9f29e89ac74572c7b7d945989a016a6d78cd394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:46 +0000
Subject: [PATCH 56/83] fix: an inline colour replaces an automatic one

---
 crates/tcss/src/types/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tcss/src/types/mod.rs b/crates/tcss/src/types/mod.rs
index 74b104b..1d58ff9 100644
--- a/crates/tcss/src/types/mod.rs
+++ b/crates/tcss/src/types/mod.rs
@@ -230,6 +230,7 @@ impl StyleOverride {
         }
         if let Some(color) = &self.color {
             style.color = Some(color.clone());
+            style.auto_color = color.auto;
         }
     }
 }
-- 
2.43.0


From a5077fd440d8a6884abe4cfd7d8c23956cc3efec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:46 +0000
Subject: [PATCH 57/83] fix: drop an import left unused

---
 crates/textual/src/widget/screen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 99044ce..4d89bb1 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -24,7 +24,7 @@ use crate::widget::Widget;
 use crate::widget::scrollbar_corner::ScrollBarCorner;
 use crate::{KeyCode, MouseEvent};
 use crossterm::event::KeyModifiers;
-use tcss::types::{Overflow, RgbaColor, ScrollbarGutter, ScrollbarVisibility, Unit};
+use tcss::types::{Overflow, RgbaColor, ScrollbarGutter, ScrollbarVisibility};
 use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates};
 
 /// Breakpoint configuration: threshold and class name to apply.
-- 
2.43.0


From db4656d03a85b16b817156becb708a97f0ef6ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:46 +0000
Subject: [PATCH 58/83] fix: adding a class marks Static dirty, removing one
 removes it

---
 crates/textual/src/containers/horizontal_scroll.rs |  4 ++--
 crates/textual/src/containers/scrollable.rs        |  4 ++--
 crates/textual/src/containers/vertical_scroll.rs   |  4 ++--
 crates/textual/src/widget/loading_indicator.rs     |  4 ++--
 crates/textual/src/widget/placeholder.rs           |  4 ++--
 crates/textual/src/widget/ruler.rs                 |  4 ++--
 crates/textual/src/widget/static_widget.rs         | 10 +++++++---
 7 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/crates/textual/src/containers/horizontal_scroll.rs b/crates/textual/src/containers/horizontal_scroll.rs
index 50cbfbd..d399db8 100644
--- a/crates/textual/src/containers/horizontal_scroll.rs
+++ b/crates/textual/src/containers/horizontal_scroll.rs
@@ -236,8 +236,8 @@ HorizontalScroll {
     }
 
     fn remove_class(&mut self, class: &str) {
-        if let Some(pos) = self.classes.iter().position(|c| c == class) {
-            self.classes.remove(pos);
+        if self.classes.iter().any(|c| c == class) {
+            self.classes.retain(|c| c != class);
             self.inner.mark_dirty();
         }
     }
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index a67f5a4..0bfe04c 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -894,8 +894,8 @@ ScrollableContainer {
     }
 
     fn remove_class(&mut self, class: &str) {
-        if let Some(pos) = self.classes.iter().position(|c| c == class) {
-            self.classes.remove(pos);
+        if self.classes.iter().any(|c| c == class) {
+            self.classes.retain(|c| c != class);
             self.dirty = true;
         }
     }
diff --git a/crates/textual/src/containers/vertical_scroll.rs b/crates/textual/src/containers/vertical_scroll.rs
index a7fa7c7..f047a89 100644
--- a/crates/textual/src/containers/vertical_scroll.rs
+++ b/crates/textual/src/containers/vertical_scroll.rs
@@ -233,8 +233,8 @@ VerticalScroll {
     }
 
     fn remove_class(&mut self, class: &str) {
-        if let Some(pos) = self.classes.iter().position(|c| c == class) {
-            self.classes.remove(pos);
+        if self.classes.iter().any(|c| c == class) {
+            self.classes.retain(|c| c != class);
             self.inner.mark_dirty();
         }
     }
diff --git a/crates/textual/src/widget/loading_indicator.rs b/crates/textual/src/widget/loading_indicator.rs
index 4468b2b..c26a90f 100644
--- a/crates/textual/src/widget/loading_indicator.rs
+++ b/crates/textual/src/widget/loading_indicator.rs
@@ -209,8 +209,8 @@ LoadingIndicator {
     }
 
     fn remove_class(&mut self, class: &str) {
-        if let Some(pos) = self.classes.iter().position(|c| c == class) {
-            self.classes.remove(pos);
+        if self.classes.iter().any(|c| c == class) {
+            self.classes.retain(|c| c != class);
             self.dirty = true;
         }
     }
diff --git a/crates/textual/src/widget/placeholder.rs b/crates/textual/src/widget/placeholder.rs
index 27d73bc..0d8f027 100644
--- a/crates/textual/src/widget/placeholder.rs
+++ b/crates/textual/src/widget/placeholder.rs
@@ -636,8 +636,8 @@ Placeholder {
     }
 
     fn remove_class(&mut self, class: &str) {
-        if let Some(pos) = self.classes.iter().position(|c| c == class) {
-            self.classes.remove(pos);
+        if self.classes.iter().any(|c| c == class) {
+            self.classes.retain(|c| c != class);
             self.dirty = true;
         }
     }
diff --git a/crates/textual/src/widget/ruler.rs b/crates/textual/src/widget/ruler.rs
index 8d12a50..312afa8 100644
--- a/crates/textual/src/widget/ruler.rs
+++ b/crates/textual/src/widget/ruler.rs
@@ -288,8 +288,8 @@ Ruler.-horizontal {
     }
 
     fn remove_class(&mut self, class: &str) {
-        if let Some(pos) = self.classes.iter().position(|c| c == class) {
-            self.classes.remove(pos);
+        if self.classes.iter().any(|c| c == class) {
+            self.classes.retain(|c| c != class);
             self.dirty = true;
         }
     }
diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index 156bf9a..438b4f1 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -163,7 +163,11 @@ impl<M> Static<M> {
 
     /// Add a single CSS class.
     pub fn add_class(&mut self, class: impl Into<String>) {
-        self.classes.push(class.into());
+        let class = class.into();
+        if !self.classes.contains(&class) {
+            self.classes.push(class);
+            self.dirty = true;
+        }
     }
 
     /// Set whether the widget expands to fill available space.
@@ -1013,8 +1017,8 @@ Static {
     }
 
     fn remove_class(&mut self, class: &str) {
-        if let Some(pos) = self.classes.iter().position(|c| c == class) {
-            self.classes.remove(pos);
+        if self.classes.iter().any(|c| c == class) {
+            self.classes.retain(|c| c != class);
             self.dirty = true;
         }
     }
-- 
2.43.0


From 1387cd9d3fb404b42f9c548c7bdcc49726ca8ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:52 +0000
Subject: [PATCH 59/83] fix: a Container's type names follow its configured
 layout

Taken from the styled layout they made a restyle depend on the previous one.
---
 crates/textual/src/containers/container.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index c02225d..a15bf17 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -1278,7 +1278,9 @@ Container {
         // the Rust port), advertise the corresponding type-name when a Container is
         // configured with a vertical or horizontal layout.
         let mut type_names = vec!["Container", "Widget", "DOMNode"];
-        match self.style.layout {
+        // This goes by the configured layout, not the styled one: a style that chose the
+        // type-name it is matched by would differ from one restyle to the next.
+        match self.layout_override.unwrap_or_default() {
             LayoutDirection::Vertical => type_names.insert(0, "Vertical"),
             LayoutDirection::Horizontal => type_names.insert(0, "Horizontal"),
             _ => {}
@@ -1531,8 +1533,8 @@ Container {
     }
 
     fn remove_class(&mut self, class: &str) {
-        if let Some(pos) = self.classes.iter().position(|c| c == class) {
-            self.classes.remove(pos);
+        if self.classes.iter().any(|c| c == class) {
+            self.classes.retain(|c| c != class);
             self.dirty = true;
         }
     }
-- 
2.43.0


From 52497b78dad27106d18cac30790eab1e6d334eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:50 +0000
Subject: [PATCH 60/83] fix: a focus index chosen in on_mount takes effect

---
 crates/textual/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 8d9a88d..c76504c 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -728,6 +728,9 @@ pub trait App {
             tree.root_mut().focus_nth(self.focus_index());
             tree.update_focus(self.focus_index());
 
+            // Track the previous focus index to detect changes (on_mount may already make one)
+            let mut last_focus_index = self.focus_index();
+
             // Initial style resolution for all widgets
             let mut ancestors = VecDeque::new();
             resolve_styles(tree.root_mut(), &stylesheet, &theme, &mut ancestors);
@@ -750,9 +753,6 @@ pub trait App {
             #[cfg(vp_hooks)]
             let mut event_stream = vp_hooks::event_stream(EventStream::new);
 
-            // Track the previous focus index to detect changes
-            let mut last_focus_index = self.focus_index();
-
             // Flag to prevent redundant re-renders
             let mut needs_render = true;
             // Flag to trigger tree rebuild after state changes
-- 
2.43.0


From da5e611a7274fc441f6be704387c2e99117bf7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:56 +0000
Subject: [PATCH 61/83] fix: a tooltip is centred on the pointer the first time
 it is shown too

---
 crates/textual/src/lib.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index c76504c..6a90d23 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -852,11 +852,24 @@ pub trait App {
                                 if let (Some(text), Some((mx, my))) =
                                     (tooltip_text.clone(), last_mouse_pos)
                                 {
-                                    if let Some(()) =
+                                    let shown = tree.query_one_as::<Tooltip<Self::Message>, _, _>(
+                                        "Tooltip",
+                                        |tooltip| tooltip.show(text),
+                                    );
+                                    // A hidden tooltip has no style yet, and its width depends on it
+                                    let mut ancestors = VecDeque::new();
+                                    resolve_dirty_styles(
+                                        tree.root_mut(),
+                                        &stylesheet,
+                                        &theme,
+                                        &mut ancestors,
+                                        false,
+                                        &InheritedContext::from_theme(&theme),
+                                    );
+                                    if let Some(()) = shown.and_then(|()| {
                                         tree.query_one_as::<Tooltip<Self::Message>, _, _>(
                                             "Tooltip",
                                             |tooltip| {
-                                                tooltip.show(text);
                                                 let tooltip_width =
                                                     tooltip.desired_size().width as i32;
                                                 let mut x = mx - (tooltip_width / 2);
@@ -867,6 +880,7 @@ pub trait App {
                                                 tooltip.set_position(x, y);
                                             },
                                         )
+                                    })
                                     {
                                         tooltip_visible = true;
                                         tooltip_deadline = None;
-- 
2.43.0


From c9ab8a57883a40d51d47d4f3882566ca99629c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:04 +0000
Subject: [PATCH 62/83] fix: a query letter is looked for up to the end of the
 candidate

The search for the n-th letter stopped n characters before the end of the
candidate, so "qt" did not match "Quit".
---
 crates/textual/src/fuzzy.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/textual/src/fuzzy.rs b/crates/textual/src/fuzzy.rs
index d1858b0..8345489 100644
--- a/crates/textual/src/fuzzy.rs
+++ b/crates/textual/src/fuzzy.rs
@@ -47,8 +47,7 @@ impl FuzzySearch {
         let mut letter_positions: Vec<Vec<usize>> = Vec::new();
         let mut position = 0usize;
 
-        for (offset, letter) in query_chars.iter().enumerate() {
-            let last_index = candidate_len.saturating_sub(offset);
+        for letter in query_chars.iter() {
             let mut positions = Vec::new();
             let mut index = position;
             while index < candidate_len {
@@ -56,9 +55,6 @@ impl FuzzySearch {
                     positions.push(index);
                 }
                 index += 1;
-                if index >= last_index {
-                    break;
-                }
             }
             if positions.is_empty() {
                 return (0.0, Vec::new());
-- 
2.43.0


From 12764b01e0ffe3ab3dec44d7a5d322e3bfb12107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:04 +0000
Subject: [PATCH 63/83] fix: match positions are positions in the candidate as
 given

Lowercasing the whole candidate can change its length (or turn a final
sigma into another letter), which shifted the highlighted characters.
---
 crates/textual/src/fuzzy.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/fuzzy.rs b/crates/textual/src/fuzzy.rs
index 8345489..7346322 100644
--- a/crates/textual/src/fuzzy.rs
+++ b/crates/textual/src/fuzzy.rs
@@ -27,7 +27,7 @@ impl FuzzySearch {
         let (query, candidate) = if self.case_sensitive {
             (query.to_string(), candidate.to_string())
         } else {
-            (query.to_lowercase(), candidate.to_lowercase())
+            (fold_case(query), fold_case(candidate))
         };
 
         // Fast path: substring match.
@@ -191,6 +191,21 @@ impl Matcher {
     }
 }
 
+/// Lowercase a string character by character, so that positions in the result
+/// are positions in the original.
+fn fold_case(input: &str) -> String {
+    input
+        .chars()
+        .map(|ch| {
+            let mut lower = ch.to_lowercase();
+            match (lower.next(), lower.next()) {
+                (Some(single), None) => single,
+                _ => ch,
+            }
+        })
+        .collect()
+}
+
 fn is_word_char(ch: char) -> bool {
     ch.is_alphanumeric() || ch == '_'
 }
-- 
2.43.0


From 12b7110292008a8724389265c4cf0c70be09af2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:43 +0000
Subject: [PATCH 64/83] vp_hooks: the command palette's clock is the runtime's

---
 crates/textual/src/widget/command_palette.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index c533d7a..8fefc38 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -14,7 +14,11 @@
 
 use std::cell::RefCell;
 use std::sync::Arc;
-use std::time::{Duration, Instant};
+use std::time::Duration;
+#[cfg(not(vp_hooks))]
+use std::time::Instant;
+#[cfg(vp_hooks)]
+use tokio::time::Instant;
 
 use tcss::types::{Layout, Visibility};
 use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates};
-- 
2.43.0


From 64fd37fb7c33bbb4d9d82942a4c5b4dfb7bc410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:14 +0000
Subject: [PATCH 65/83] fix: a busy timer that fires as the search ends does
 not show the indicator for good

---
 crates/textual/src/widget/command_palette.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index 8fefc38..f34c948 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1245,6 +1245,10 @@ impl<M: 'static> CommandPalette<M> {
                 if generation != self.search_generation {
                     return false;
                 }
+                // The search may have ended after the timer fired.
+                if self.completed_providers >= self.expected_providers {
+                    return false;
+                }
                 if self.list_visible {
                     self.show_busy = true;
                     if let Some(loading) = self.loading_mut() {
-- 
2.43.0


From 2451ec7d11f34339f153a4f3062462d0bb8bc35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:09 +0000
Subject: [PATCH 66/83] fix: the busy indicator goes away when the last
 provider adds nothing to the list

---
 crates/textual/src/widget/command_palette.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index f34c948..34ca361 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1234,6 +1234,7 @@ impl<M: 'static> CommandPalette<M> {
                     if cleared {
                         self.refresh_results();
                     }
+                    self.sync_busy_widgets();
 
                     if self.entries.is_empty() && !self.query.trim().is_empty() {
                         self.spawn_no_matches_timer(generation, true);
@@ -1365,7 +1366,10 @@ impl<M: 'static> CommandPalette<M> {
         if self.list_visible {
             self.emit_highlight();
         }
+        self.sync_busy_widgets();
+    }
 
+    fn sync_busy_widgets(&mut self) {
         let show_busy = self.show_busy;
         if let Some(loading) = self.loading_mut() {
             if show_busy {
-- 
2.43.0


From 2a88371b00aa6df96b69f51887247b53f19b7621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:14 +0000
Subject: [PATCH 67/83] fix: a click on an option list chooses the option under
 the pointer

The row was counted from the top of the widget, border, padding and
scrolling left out.
---
 crates/textual/src/containers/container.rs |  2 +-
 crates/textual/src/widget/option_list.rs   | 24 ++--------------------
 2 files changed, 3 insertions(+), 23 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index a15bf17..e36438f 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -166,7 +166,7 @@ impl<M> Container<M> {
     }
 
     /// Find the child painted at the given point, and the region it was painted in.
-    fn child_at(&self, region: Region, column: i32, row: i32) -> Option<(usize, Region)> {
+    pub(crate) fn child_at(&self, region: Region, column: i32, row: i32) -> Option<(usize, Region)> {
         let viewport = Viewport {
             width: self.viewport.width as i32,
             height: self.viewport.height as i32,
diff --git a/crates/textual/src/widget/option_list.rs b/crates/textual/src/widget/option_list.rs
index ab89dc6..0c31515 100644
--- a/crates/textual/src/widget/option_list.rs
+++ b/crates/textual/src/widget/option_list.rs
@@ -71,7 +71,6 @@ pub struct OptionList<M> {
     inner: Container<M>,
     items: Vec<String>,
     disabled: Vec<bool>,
-    line_counts: Vec<usize>,
     selected: usize,
     focused: bool,
     dirty: bool,
@@ -88,7 +87,6 @@ impl<M: 'static> OptionList<M> {
             inner,
             items,
             disabled: Vec::new(),
-            line_counts: Vec::new(),
             selected: 0,
             focused: false,
             dirty: true,
@@ -223,12 +221,6 @@ impl<M: 'static> OptionList<M> {
     }
 
     fn refresh_display(&mut self) {
-        self.line_counts = self
-            .items
-            .iter()
-            .map(|item| item.split('\n').count().max(1))
-            .collect();
-
         let mut children: Vec<Box<dyn Widget<M>>> = Vec::with_capacity(self.items.len().max(1));
         for (index, item) in self.items.iter().enumerate() {
             let content = if self.allow_markup {
@@ -278,17 +270,6 @@ impl<M: 'static> OptionList<M> {
             }
         }
     }
-
-    fn index_for_row(&self, row: usize) -> Option<usize> {
-        let mut remaining = row;
-        for (index, count) in self.line_counts.iter().enumerate() {
-            if remaining < *count {
-                return Some(index);
-            }
-            remaining = remaining.saturating_sub(*count);
-        }
-        None
-    }
 }
 
 impl<M: 'static> Widget<M> for OptionList<M> {
@@ -349,9 +330,8 @@ OptionList > .option-list--option {
 
         match event.kind {
             MouseEventKind::Up(crossterm::event::MouseButton::Left) => {
-                let local_y = (my - region.y) as usize;
-                if let Some(index) = self.index_for_row(local_y) {
-                    if !self.disabled_at(index) {
+                if let Some((index, _)) = self.inner.child_at(region, mx, my) {
+                    if index < self.items.len() && !self.disabled_at(index) {
                         if self.selected != index {
                             self.selected = index;
                             self.refresh_display();
-- 
2.43.0


From 759a7ad688ff30fdf4de3af0e57f23a8ff3960bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:02 +0000
Subject: [PATCH 68/83] fix: a command run from the palette can move the focus

The focus the palette had taken was given back only after the command had
run, undoing what it did.
---
 crates/textual/src/lib.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 6a90d23..9dd1743 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -959,6 +959,16 @@ pub trait App {
                                         self.on_key(key_event.code, &mut ctx);
                                     }
                                 }
+                                // A palette that was closed gives the focus back before its command runs
+                                if let Some(restored) = tree
+                                    .query_one_as::<CommandPalette<Self::Message>, _, _>(
+                                        "CommandPalette",
+                                        |palette| palette.take_restore_focus(),
+                                    )
+                                    .flatten()
+                                {
+                                    let _ = tree.set_focus_index(restored);
+                                }
                                 // Collect and dispatch pending actions from key events
                                 let actions = collect_pending_actions_mut(tree.root_mut());
                                 if !actions.is_empty() {
@@ -969,15 +979,6 @@ pub trait App {
                                         self.dispatch_action(&action, &mut ctx);
                                     }
                                 }
-                                if let Some(restored) = tree
-                                    .query_one_as::<CommandPalette<Self::Message>, _, _>(
-                                        "CommandPalette",
-                                        |palette| palette.take_restore_focus(),
-                                    )
-                                    .flatten()
-                                {
-                                    let _ = tree.set_focus_index(restored);
-                                }
                                 let _ = drain_command_palette(self, &mut tree, &tx);
                                 // Check if app wants tree rebuild (Elm-style)
                                 needs_recompose = self.needs_recompose();
@@ -1035,6 +1036,16 @@ pub trait App {
                                     self.handle_message(envelope, &mut ctx);
                                 }
 
+                                // A palette that was closed gives the focus back before its command runs
+                                if let Some(restored) = tree
+                                    .query_one_as::<CommandPalette<Self::Message>, _, _>(
+                                        "CommandPalette",
+                                        |palette| palette.take_restore_focus(),
+                                    )
+                                    .flatten()
+                                {
+                                    let _ = tree.set_focus_index(restored);
+                                }
                                 // Collect and dispatch pending actions from link clicks
                                 let actions = collect_pending_actions_mut(tree.root_mut());
                                 if !actions.is_empty() {
@@ -1045,15 +1056,6 @@ pub trait App {
                                         self.dispatch_action(&action, &mut ctx);
                                     }
                                 }
-                                if let Some(restored) = tree
-                                    .query_one_as::<CommandPalette<Self::Message>, _, _>(
-                                        "CommandPalette",
-                                        |palette| palette.take_restore_focus(),
-                                    )
-                                    .flatten()
-                                {
-                                    let _ = tree.set_focus_index(restored);
-                                }
                                 let _ = drain_command_palette(self, &mut tree, &tx);
 
                                 // Tooltip handling: update pending tooltip on mouse move.
-- 
2.43.0


From 7c8dcde398efd56d7e9c5f64dec5d9790a9b3b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:02 +0000
Subject: [PATCH 69/83] fix: results that arrive as the palette closes do not
 show up when it is opened again

---
 crates/textual/src/widget/command_palette.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index 34ca361..3a651fe 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1058,6 +1058,8 @@ impl<M: 'static> CommandPalette<M> {
     }
 
     fn cancel_search(&mut self) {
+        // Results already on their way belong to no search any more.
+        self.search_generation = self.search_generation.wrapping_add(1);
         for handle in self.search_handles.drain(..) {
             handle.abort();
         }
-- 
2.43.0


From 9d5eb42485844e0e03b2536cf7961c063b0447f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:39 +0000
Subject: [PATCH 70/83] fix: the highlight follows the selection when a new
 search begins

The selection went back to the first entry but the list went on showing
the old one, so Enter ran a command that was not highlighted.
---
 crates/textual/src/widget/command_palette.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index 3a651fe..d916a55 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1106,6 +1106,7 @@ impl<M: 'static> CommandPalette<M> {
     fn start_search(&mut self, query: String, cursor: Option<usize>) {
         self.cancel_search();
         self.query = query;
+        let selection_reset = self.selected != 0;
         self.selected = 0;
         self.selected_action = None;
         self.pending_entries.clear();
@@ -1122,6 +1123,11 @@ impl<M: 'static> CommandPalette<M> {
         }
         self.update_input_widget(cursor);
         self.sync_visibility_classes();
+        if selection_reset {
+            // The entries of the last search stay until there are others
+            self.update_list_widget();
+            self.emit_highlight();
+        }
 
         if self.expected_providers == 0 {
             self.entries.clear();
@@ -1769,10 +1775,7 @@ CommandPalette LoadingIndicator.--visible {
                     input.on_event(key);
                     let after = input.value().to_string();
                     if after != before {
-                        self.query = after;
-                        self.selected = 0;
-                        self.selected_action = None;
-                        self.start_search(self.query.clone(), None);
+                        self.start_search(after, None);
                     }
                 }
             }
-- 
2.43.0


From cbe00c5e14c9036a2fe74c6fadf1509b7618bbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:18 +0000
Subject: [PATCH 71/83] fix: half lines and mixed crosses point the way their
 edges do

---
 crates/textual/src/box_drawing.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/textual/src/box_drawing.rs b/crates/textual/src/box_drawing.rs
index 13e9df5..b907407 100644
--- a/crates/textual/src/box_drawing.rs
+++ b/crates/textual/src/box_drawing.rs
@@ -114,8 +114,8 @@ static BOX_CHARACTERS: LazyLock<HashMap<Quad, char>> = LazyLock::new(|| {
     // Mixed cross junctions
     map.insert((1, 2, 1, 2), '┿'); // thin vertical, heavy horizontal
     map.insert((2, 1, 2, 1), '╂'); // heavy vertical, thin horizontal
-    map.insert((2, 2, 1, 2), '╈'); // heavy top/horizontal, thin bottom
-    map.insert((1, 2, 2, 2), '╇'); // thin top, heavy bottom/horizontal
+    map.insert((2, 2, 1, 2), '╇'); // heavy top/horizontal, thin bottom
+    map.insert((1, 2, 2, 2), '╈'); // thin top, heavy bottom/horizontal
     map.insert((2, 2, 2, 1), '╊'); // heavy top/bottom/right, thin left
     map.insert((2, 1, 2, 2), '╉'); // heavy top/bottom/left, thin right
 
@@ -130,12 +130,12 @@ static BOX_CHARACTERS: LazyLock<HashMap<Quad, char>> = LazyLock::new(|| {
     map.insert((2, 1, 0, 2), '┹'); // bottom T: heavy top/left, thin right
 
     // Half lines (for edge caps)
-    map.insert((0, 1, 0, 0), '╴'); // thin left half
-    map.insert((0, 0, 0, 1), '╶'); // thin right half
+    map.insert((0, 1, 0, 0), '╶'); // thin right half
+    map.insert((0, 0, 0, 1), '╴'); // thin left half
     map.insert((1, 0, 0, 0), '╵'); // thin top half
     map.insert((0, 0, 1, 0), '╷'); // thin bottom half
-    map.insert((0, 2, 0, 0), '╸'); // heavy left half
-    map.insert((0, 0, 0, 2), '╺'); // heavy right half
+    map.insert((0, 2, 0, 0), '╺'); // heavy right half
+    map.insert((0, 0, 0, 2), '╸'); // heavy left half
     map.insert((2, 0, 0, 0), '╹'); // heavy top half
     map.insert((0, 0, 2, 0), '╻'); // heavy bottom half
 
-- 
2.43.0


From 76b256b5e83910ef20d7684688cfbb65d35959d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:18 +0000
Subject: [PATCH 72/83] fix: with_classes keeps the classes of a button's,
 label's or header's variant

---
 crates/textual/src/widget/button.rs | 11 +++++++++++
 crates/textual/src/widget/header.rs |  3 +++
 crates/textual/src/widget/label.rs  |  8 ++++++++
 3 files changed, 22 insertions(+)

diff --git a/crates/textual/src/widget/button.rs b/crates/textual/src/widget/button.rs
index 465a7cf..1a45d2b 100644
--- a/crates/textual/src/widget/button.rs
+++ b/crates/textual/src/widget/button.rs
@@ -83,8 +83,19 @@ impl<M: 'static> Button<M> {
     }
 
     /// Set CSS classes (space-separated).
+    ///
+    /// The classes that carry the button's style and variant are kept.
     pub fn with_classes(mut self, classes: impl Into<String>) -> Self {
         self.inner = self.inner.with_classes(classes);
+        self.inner.add_class(if self.flat {
+            "-style-flat"
+        } else {
+            "-style-default"
+        });
+        self.inner.add_class(self.variant.class_name());
+        if self.compact {
+            self.inner.add_class("-textual-compact");
+        }
         self
     }
 
diff --git a/crates/textual/src/widget/header.rs b/crates/textual/src/widget/header.rs
index 3c19e8d..6d1c4b4 100644
--- a/crates/textual/src/widget/header.rs
+++ b/crates/textual/src/widget/header.rs
@@ -675,6 +675,9 @@ impl<M: 'static> Header<M> {
     /// Set CSS classes (space-separated).
     pub fn with_classes(mut self, classes: impl Into<String>) -> Self {
         self.inner = self.inner.with_classes(classes);
+        if self.tall {
+            self.inner.add_class("-tall");
+        }
         self
     }
 
diff --git a/crates/textual/src/widget/label.rs b/crates/textual/src/widget/label.rs
index a3d007d..6543958 100644
--- a/crates/textual/src/widget/label.rs
+++ b/crates/textual/src/widget/label.rs
@@ -117,8 +117,16 @@ impl<M> Label<M> {
     }
 
     /// Set CSS classes (space-separated).
+    ///
+    /// The class of the variant is kept.
     pub fn with_classes(mut self, classes: impl Into<String>) -> Self {
         self.inner = self.inner.with_classes(classes);
+        if let Some(variant) = self.variant {
+            let class = variant.as_class();
+            if !class.is_empty() {
+                self.inner.add_class(class);
+            }
+        }
         self
     }
 
-- 
2.43.0


From f6fdc4ddfd9189ebbc37aa869161973688b59d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:18 +0000
Subject: [PATCH 73/83] fix: switch, spinner and placeholder draw only inside
 their region

---
 crates/textual/src/widget/loading_indicator.rs | 3 +++
 crates/textual/src/widget/placeholder.rs       | 8 ++++++++
 crates/textual/src/widget/switch.rs            | 4 ++++
 3 files changed, 15 insertions(+)

diff --git a/crates/textual/src/widget/loading_indicator.rs b/crates/textual/src/widget/loading_indicator.rs
index c26a90f..e17869d 100644
--- a/crates/textual/src/widget/loading_indicator.rs
+++ b/crates/textual/src/widget/loading_indicator.rs
@@ -82,6 +82,9 @@ LoadingIndicator {
         if !self.visible || self.style.visibility == Visibility::Hidden {
             return;
         }
+        if region.width <= 0 || region.height <= 0 {
+            return;
+        }
         let frame = SPINNER_FRAMES[self.frame];
         canvas.put_char(
             region.x,
diff --git a/crates/textual/src/widget/placeholder.rs b/crates/textual/src/widget/placeholder.rs
index 0d8f027..89d749d 100644
--- a/crates/textual/src/widget/placeholder.rs
+++ b/crates/textual/src/widget/placeholder.rs
@@ -368,6 +368,13 @@ Placeholder {
             if content_width <= 0 || content_height <= 0 {
                 return;
             }
+            // The text stays inside the padding, however little room there is.
+            canvas.push_clip(Region::new(
+                content_x,
+                content_y,
+                content_width,
+                content_height,
+            ));
             match self.variant {
                 PlaceholderVariant::Text => {
                     // Text variant: 1-cell padding on all sides, word wrap, block-centered
@@ -472,6 +479,7 @@ Placeholder {
                     }
                 }
             }
+            canvas.pop_clip();
         }
     }
 
diff --git a/crates/textual/src/widget/switch.rs b/crates/textual/src/widget/switch.rs
index c7ffbf8..930b06b 100644
--- a/crates/textual/src/widget/switch.rs
+++ b/crates/textual/src/widget/switch.rs
@@ -179,6 +179,7 @@ where
             let style_bracket_l = if self.focused { ">[" } else { " [" };
             let style_bracket_r = if self.focused { " ]<" } else { " ] " };
             let display = format!("{}  {}  {}", style_bracket_l, frame, style_bracket_r);
+            canvas.push_clip(region);
             canvas.put_str(
                 region.x,
                 region.y,
@@ -187,6 +188,7 @@ where
                 self.style.background.clone(),
                 TextAttributes::default(),
             );
+            canvas.pop_clip();
             return;
         }
 
@@ -197,6 +199,7 @@ where
         let display = format!("{}{}{}", style_bracket_l, state_text, style_bracket_r);
 
         // This call sends the colors to the Canvas
+        canvas.push_clip(region);
         canvas.put_str(
             region.x,
             region.y,
@@ -205,6 +208,7 @@ where
             self.style.background.clone(),
             TextAttributes::default(),
         );
+        canvas.pop_clip();
     }
 
     fn set_style(&mut self, style: ComputedStyle) {
-- 
2.43.0


From 3fcad503400425159b9ddc5698239e4624298c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:53 +0000
Subject: [PATCH 74/83] fix: horizontal layout keeps explicit cell heights and
 height limits of children with margins

---
 crates/textual/src/layouts/horizontal.rs | 33 ++++++++++++------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/crates/textual/src/layouts/horizontal.rs b/crates/textual/src/layouts/horizontal.rs
index 66a22e2..e2c22ab 100644
--- a/crates/textual/src/layouts/horizontal.rs
+++ b/crates/textual/src/layouts/horizontal.rs
@@ -249,6 +249,21 @@ impl Layout for HorizontalLayout {
                 available.height
             };
 
+            // An explicit cell count or an intrinsic height is the height of the box itself.
+            // Other heights (fill/fr) are shares of the available height, which the
+            // vertical margins have to fit in as well.
+            let margin_top = child_style.margin.top.value as i32;
+            let margin_bottom = child_style.margin.bottom.value as i32;
+            let fits_margins = !child_style
+                .height
+                .as_ref()
+                .is_some_and(|h| matches!(h.unit, Unit::Auto | Unit::Cells));
+            let height = if fits_margins {
+                (height - margin_top - margin_bottom).max(0)
+            } else {
+                height
+            };
+
             // Apply max-height constraint
             let height = if let Some(max_h) = &child_style.max_height {
                 let max_height_value = match max_h.unit {
@@ -284,8 +299,6 @@ impl Layout for HorizontalLayout {
             // Get margins for positioning
             let margin_left = child_style.margin.left.value as i32;
             let margin_right = child_style.margin.right.value as i32;
-            let margin_top = child_style.margin.top.value as i32;
-            let margin_bottom = child_style.margin.bottom.value as i32;
 
             // CSS margin collapsing: use max of adjacent margins, not sum
             let effective_left_margin = if i == 0 {
@@ -296,27 +309,13 @@ impl Layout for HorizontalLayout {
 
             current_x += effective_left_margin;
 
-            // For height: auto (intrinsic), use the height as-is since it's the content height.
-            // For other heights (fill/fr), reduce by vertical margins to fit within container.
-            let is_auto_height = child_style
-                .height
-                .as_ref()
-                .map(|h| h.unit == Unit::Auto)
-                .unwrap_or(false);
-            let adjusted_height = if is_auto_height {
-                height // Use intrinsic height directly
-            } else {
-                // Fill available: reduce by margins to prevent overflow
-                (height - margin_top - margin_bottom).max(0)
-            };
-
             placements.push(WidgetPlacement {
                 child_index,
                 region: Region {
                     x: current_x,
                     y: available.y + margin_top,
                     width,
-                    height: adjusted_height,
+                    height,
                 },
             });
 
-- 
2.43.0


From 8a97e5b8cce32ebc326f199977af5dd431836c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:53 +0000
Subject: [PATCH 75/83] fix: an auto-sized scrollable container counts its
 first margin once and only the borders it draws

---
 crates/textual/src/containers/scrollable.rs | 60 ++++++---------------
 1 file changed, 17 insertions(+), 43 deletions(-)

diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 0bfe04c..22e8cec 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -353,13 +353,16 @@ impl<M> ScrollableContainer<M> {
     }
 
     fn calculate_intrinsic_size(&self) -> Size {
+        let cache = RenderCache::new(&self.style);
+        let border_h = cache.border_horizontal() as u16;
+        let border_v = cache.border_vertical() as u16;
+        let padding_h =
+            self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
+        let padding_v =
+            self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
+
         if self.children.is_empty() {
-            let border_size = if self.style.border.is_none() { 0 } else { 2 };
-            let padding_h =
-                self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
-            let padding_v =
-                self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
-            return Size::new(border_size + padding_h, border_size + padding_v);
+            return Size::new(border_h + padding_h, border_v + padding_v);
         }
 
         let mut total_width: u16 = 0;
@@ -370,14 +373,10 @@ impl<M> ScrollableContainer<M> {
         let mut any_child_wants_fill_height = false;
 
         let mut prev_margin_bottom: u16 = 0;
-        let mut first_child_margin_top: u16 = 0;
         let mut last_child_margin_bottom: u16 = 0;
-        let mut is_first_child = true;
 
         let mut prev_margin_right: u16 = 0;
-        let mut first_child_margin_left: u16 = 0;
         let mut last_child_margin_right: u16 = 0;
-        let mut is_first_h_child = true;
 
         for child in &self.children {
             if !child.participates_in_layout() {
@@ -414,10 +413,6 @@ impl<M> ScrollableContainer<M> {
 
             match self.style.layout {
                 LayoutDirection::Vertical => {
-                    if is_first_child {
-                        first_child_margin_top = margin_top;
-                        is_first_child = false;
-                    }
                     last_child_margin_bottom = margin_bottom;
 
                     let margin_overlap = prev_margin_bottom.max(margin_top);
@@ -428,10 +423,6 @@ impl<M> ScrollableContainer<M> {
                     max_width = max_width.max(child_width_with_margins);
                 }
                 LayoutDirection::Horizontal => {
-                    if is_first_h_child {
-                        first_child_margin_left = margin_left;
-                        is_first_h_child = false;
-                    }
                     last_child_margin_right = margin_right;
 
                     let margin_overlap = prev_margin_right.max(margin_left);
@@ -458,14 +449,9 @@ impl<M> ScrollableContainer<M> {
                 if any_child_wants_fill_height {
                     total_height = u16::MAX;
                 }
-                let border_size = if self.style.border.is_none() { 0 } else { 2 };
-                let padding_h =
-                    self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
-                let padding_v =
-                    self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
                 Size::new(
-                    total_width.saturating_add(border_size + padding_h),
-                    total_height.saturating_add(border_size + padding_v + first_child_margin_top),
+                    total_width.saturating_add(border_h + padding_h),
+                    total_height.saturating_add(border_v + padding_v),
                 )
             }
             LayoutDirection::Horizontal => {
@@ -477,27 +463,15 @@ impl<M> ScrollableContainer<M> {
                 if any_child_wants_fill_height {
                     total_height = u16::MAX;
                 }
-                let border_size = if self.style.border.is_none() { 0 } else { 2 };
-                let padding_h =
-                    self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
-                let padding_v =
-                    self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
-                Size::new(
-                    total_width.saturating_add(border_size + padding_h + first_child_margin_left),
-                    total_height.saturating_add(border_size + padding_v),
-                )
-            }
-            LayoutDirection::Grid => {
-                let border_size = if self.style.border.is_none() { 0 } else { 2 };
-                let padding_h =
-                    self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
-                let padding_v =
-                    self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
                 Size::new(
-                    max_width.saturating_add(border_size + padding_h),
-                    max_height.saturating_add(border_size + padding_v),
+                    total_width.saturating_add(border_h + padding_h),
+                    total_height.saturating_add(border_v + padding_v),
                 )
             }
+            LayoutDirection::Grid => Size::new(
+                max_width.saturating_add(border_h + padding_h),
+                max_height.saturating_add(border_v + padding_v),
+            ),
         }
     }
 
-- 
2.43.0


From 1a6bf14e0b6caccbbaf14de2a006a05759fb1a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:12 +0000
Subject: [PATCH 76/83] fix: a disabled option list reacts to nothing and
 cannot take the focus

---
 crates/textual/src/widget/option_list.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/widget/option_list.rs b/crates/textual/src/widget/option_list.rs
index 0c31515..32c0168 100644
--- a/crates/textual/src/widget/option_list.rs
+++ b/crates/textual/src/widget/option_list.rs
@@ -73,6 +73,7 @@ pub struct OptionList<M> {
     disabled: Vec<bool>,
     selected: usize,
     focused: bool,
+    list_disabled: bool,
     dirty: bool,
     allow_markup: bool,
     last_width: Option<u16>,
@@ -89,6 +90,7 @@ impl<M: 'static> OptionList<M> {
             disabled: Vec::new(),
             selected: 0,
             focused: false,
+            list_disabled: false,
             dirty: true,
             allow_markup: false,
             last_width: None,
@@ -434,11 +436,14 @@ OptionList > .option-list--option {
     }
 
     fn is_disabled(&self) -> bool {
-        self.inner.is_disabled()
+        self.list_disabled
     }
 
     fn set_disabled(&mut self, disabled: bool) {
-        self.inner.set_disabled(disabled);
+        if self.list_disabled != disabled {
+            self.list_disabled = disabled;
+            self.dirty = true;
+        }
     }
 
     fn handle_message(&mut self, envelope: &mut crate::MessageEnvelope<M>) -> Option<M> {
-- 
2.43.0


From 58f3f5bdacf98c5282130259d950582090e17fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:17 +0000
Subject: [PATCH 77/83] fix: the background shows through a translucent hatch

---
 crates/textual/src/segment.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/textual/src/segment.rs b/crates/textual/src/segment.rs
index 054327b..6be10f4 100644
--- a/crates/textual/src/segment.rs
+++ b/crates/textual/src/segment.rs
@@ -373,6 +373,10 @@ impl Segment {
         // Apply hatch color with opacity
         let mut hatch_color = hatch_color.clone();
         hatch_color.a *= opacity;
+        // The background shows through a translucent hatch
+        if let Some(bg) = self.style.as_ref().and_then(|s| s.bg.as_ref()) {
+            hatch_color = hatch_color.blend_over(bg);
+        }
 
         // Merge hatch color with existing style
         let new_style = Some(match &self.style {
-- 
2.43.0


From 5a0eec1c720f933b21f6f3a3e68ba712979014fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:54 +0000
Subject: [PATCH 78/83] fix: a hatch leaves the colour of text and borders
 alone

---
 crates/textual/src/strip.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/strip.rs b/crates/textual/src/strip.rs
index 9a9be2d..0ee6627 100644
--- a/crates/textual/src/strip.rs
+++ b/crates/textual/src/strip.rs
@@ -457,7 +457,31 @@ impl Strip {
         let hatched_segments: SegmentVec = self
             .segments
             .iter()
-            .map(|seg| seg.apply_hatch(hatch_char, hatch_color, opacity))
+            .flat_map(|seg| {
+                // Only the blanks of a segment take the hatch and its color
+                let text = seg.text();
+                let mut runs = Vec::new();
+                let mut start = 0;
+                while start < text.len() {
+                    let rest = &text[start..];
+                    let blank = rest.starts_with(' ');
+                    let len = rest
+                        .find(|c: char| (c == ' ') != blank)
+                        .unwrap_or(rest.len());
+                    let run = match seg.style() {
+                        Some(style) => Segment::styled(&rest[..len], style.clone()),
+                        None => Segment::new(&rest[..len]),
+                    }
+                    .with_meta(seg.meta().clone());
+                    runs.push(if blank {
+                        run.apply_hatch(hatch_char, hatch_color, opacity)
+                    } else {
+                        run
+                    });
+                    start += len;
+                }
+                runs
+            })
             .collect();
 
         Strip::from_smallvec(hatched_segments)
-- 
2.43.0


From d1b1989d08d576b6c30e020e4f953828de1b3f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:58 +0000
Subject: [PATCH 79/83] fix: delegate the remaining widget methods in
 impl_widget_delegation

---
 crates/textual/src/macros.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/crates/textual/src/macros.rs b/crates/textual/src/macros.rs
index 1deea70..fd3ab44 100644
--- a/crates/textual/src/macros.rs
+++ b/crates/textual/src/macros.rs
@@ -87,6 +87,34 @@ macro_rules! impl_widget_delegation {
                 self.$field.clear_inline_style()
             }
 
+            fn intrinsic_height_for_width(&self, width: u16) -> u16 {
+                self.$field.intrinsic_height_for_width(width)
+            }
+
+            fn pre_layout(&mut self, layout: &mut dyn $crate::layouts::Layout) {
+                self.$field.pre_layout(layout)
+            }
+
+            fn participates_in_layout(&self) -> bool {
+                self.$field.participates_in_layout()
+            }
+
+            fn tooltip(&self) -> Option<String> {
+                self.$field.tooltip()
+            }
+
+            fn set_tooltip(&mut self, tooltip: Option<String>) {
+                self.$field.set_tooltip(tooltip)
+            }
+
+            fn take_pending_action(&self) -> Option<String> {
+                self.$field.take_pending_action()
+            }
+
+            fn blocks_mouse_events(&self) -> bool {
+                self.$field.blocks_mouse_events()
+            }
+
             fn default_css(&self) -> &'static str {
                 let f: fn(&Self) -> &'static str = $css;
                 f(self)
-- 
2.43.0


From e80af85ed2a5ea4787243bdc59bb141d9b29e1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:58 +0000
Subject: [PATCH 80/83] fix: a boxed widget tells the type name of the widget
 inside

---
 crates/textual/src/widget.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/textual/src/widget.rs b/crates/textual/src/widget.rs
index a0006e7..22e0914 100644
--- a/crates/textual/src/widget.rs
+++ b/crates/textual/src/widget.rs
@@ -756,9 +756,7 @@ impl<M> Widget<M> for Box<dyn Widget<M>> {
     }
 
     fn type_name(&self) -> &'static str {
-        // Box<dyn Widget> should delegate to inner widget's type_name
-        // but we can't call it through trait object, so return generic name
-        "Widget"
+        self.as_ref().type_name()
     }
 
     fn sender_info(&self) -> SenderInfo {
-- 
2.43.0


From 6e6144376b69e345eb1ad26d4a385617f2a9a685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:58 +0000
Subject: [PATCH 81/83] fix: two splats in a row in ui! are two splats, not a
 range

---
 crates/textual-macros/src/parse.rs | 32 ++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/crates/textual-macros/src/parse.rs b/crates/textual-macros/src/parse.rs
index 9a86f72..1672cf8 100644
--- a/crates/textual-macros/src/parse.rs
+++ b/crates/textual-macros/src/parse.rs
@@ -1,7 +1,7 @@
 //! DSL parsing for the ui! macro.
 
 use syn::{
-    Expr, Ident, Result, Token, braced, parenthesized,
+    Expr, ExprRange, Ident, RangeLimits, Result, Token, braced, parenthesized,
     parse::{Parse, ParseStream},
     token,
 };
@@ -40,16 +40,32 @@ pub struct NamedAttr {
     pub value: Expr,
 }
 
-/// Parse a child item - either a widget or splat expression (..expr).
-fn parse_child_item(input: ParseStream) -> Result<ChildItem> {
+/// Parse a child item - either a widget or splat expression (..expr) - onto `items`.
+fn parse_child_item(input: ParseStream, items: &mut Vec<ChildItem>) -> Result<()> {
     if input.peek(Token![..]) {
         // Splat: ..expr
         let _dotdot: Token![..] = input.parse()?;
-        let expr: Expr = input.parse()?;
-        Ok(ChildItem::Splat(expr))
+        push_splats(input.parse()?, items);
     } else {
         // Regular widget
-        Ok(ChildItem::Widget(input.parse::<WidgetNode>()?))
+        items.push(ChildItem::Widget(input.parse::<WidgetNode>()?));
+    }
+    Ok(())
+}
+
+/// A splat directly after another one reads as the end of a range: `..a ..b` is two splats.
+fn push_splats(expr: Expr, items: &mut Vec<ChildItem>) {
+    match expr {
+        Expr::Range(ExprRange {
+            start: Some(first),
+            limits: RangeLimits::HalfOpen(_),
+            end: Some(second),
+            ..
+        }) => {
+            push_splats(*first, items);
+            push_splats(*second, items);
+        }
+        expr => items.push(ChildItem::Splat(expr)),
     }
 }
 
@@ -59,7 +75,7 @@ impl Parse for UiRoot {
 
         // Parse widgets and splats until input is exhausted
         while !input.is_empty() {
-            items.push(parse_child_item(input)?);
+            parse_child_item(input, &mut items)?;
         }
 
         if items.is_empty() {
@@ -93,7 +109,7 @@ impl Parse for WidgetNode {
             braced!(content in input);
             let mut child_items = Vec::new();
             while !content.is_empty() {
-                child_items.push(parse_child_item(&content)?);
+                parse_child_item(&content, &mut child_items)?;
             }
             children = Some(child_items);
         }
-- 
2.43.0


From 4662a98ddbe1d01bcf355a740ba364acefab1c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:40 +0000
Subject: [PATCH 82/83] fix: a fuzzy match takes polynomial, not exponential,
 time

A query of repeated letters had as many placements in a long title as there are
ways to choose them, all of which were collected before the best one was taken:
26 a's and a query of 8 made 1.5 million, 30 and 12 more than memory holds.
The best placement (the leftmost of several) is found without listing them.
---
 crates/textual/src/fuzzy.rs | 151 +++++++++++++++++++++++++-----------
 1 file changed, 104 insertions(+), 47 deletions(-)

diff --git a/crates/textual/src/fuzzy.rs b/crates/textual/src/fuzzy.rs
index 7346322..0de7b82 100644
--- a/crates/textual/src/fuzzy.rs
+++ b/crates/textual/src/fuzzy.rs
@@ -63,48 +63,7 @@ impl FuzzySearch {
             letter_positions.push(positions);
         }
 
-        let mut possible_offsets: Vec<Vec<usize>> = Vec::new();
-        let query_len = query_chars.len();
-
-        fn collect_offsets(
-            all_positions: &[Vec<usize>],
-            query_len: usize,
-            index: usize,
-            offsets: &mut Vec<usize>,
-            out: &mut Vec<Vec<usize>>,
-        ) {
-            for &pos in &all_positions[index] {
-                if offsets.last().map_or(true, |last| pos > *last) {
-                    offsets.push(pos);
-                    if offsets.len() == query_len {
-                        out.push(offsets.clone());
-                    } else {
-                        collect_offsets(all_positions, query_len, index + 1, offsets, out);
-                    }
-                    offsets.pop();
-                }
-            }
-        }
-
-        collect_offsets(
-            &letter_positions,
-            query_len,
-            0,
-            &mut Vec::new(),
-            &mut possible_offsets,
-        );
-
-        let mut best_score = 0.0;
-        let mut best_offsets = Vec::new();
-        for offsets in possible_offsets {
-            let score = self.score(&candidate, &offsets);
-            if score > best_score {
-                best_score = score;
-                best_offsets = offsets;
-            }
-        }
-
-        (best_score, best_offsets)
+        self.best_placement(&candidate, &letter_positions)
     }
 
     fn score(&self, candidate: &str, positions: &[usize]) -> f32 {
@@ -119,8 +78,6 @@ impl FuzzySearch {
             .filter(|pos| first_letters.contains(pos))
             .count() as f32;
 
-        let mut score = offset_count + first_letter_matches;
-
         let mut groups = 1usize;
         let mut last_offset = positions[0];
         for &offset in &positions[1..] {
@@ -130,9 +87,103 @@ impl FuzzySearch {
             last_offset = offset;
         }
 
-        let normalized_groups = (offset_count - (groups as f32 - 1.0)) / offset_count;
-        score *= 1.0 + (normalized_groups * normalized_groups);
-        score
+        placement_score(offset_count, first_letter_matches, groups)
+    }
+
+    /// The placement that scores best, the leftmost one of several.
+    ///
+    /// `letter_positions` has the places of each letter of the query. There can be
+    /// exponentially many placements, so they are not tried one by one.
+    fn best_placement(
+        &self,
+        candidate: &str,
+        letter_positions: &[Vec<usize>],
+    ) -> (f32, Vec<usize>) {
+        let first_letters = first_letter_positions(candidate);
+        let is_first = |pos: usize| u16::from(first_letters.contains(&pos));
+        let query_len = letter_positions.len();
+
+        // tables[i][k][g]: the most first letters that the letters from the i-th on can be
+        // placed on in g groups, with the i-th at its k-th position.
+        let mut tables: Vec<Vec<Vec<Option<u16>>>> = vec![Vec::new(); query_len];
+        for i in (0..query_len).rev() {
+            let letters = query_len - i;
+            let mut rows = vec![vec![None; letters + 1]; letter_positions[i].len()];
+            // The best of the next letter's positions that are not adjacent
+            let mut apart: Vec<Option<u16>> = vec![None; letters];
+            let mut next_k = letter_positions.get(i + 1).map_or(0, Vec::len);
+            for (k, &pos) in letter_positions[i].iter().enumerate().rev() {
+                let row = &mut rows[k];
+                if letters == 1 {
+                    row[1] = Some(is_first(pos));
+                    continue;
+                }
+                let (next_positions, next_rows) = (&letter_positions[i + 1], &tables[i + 1]);
+                while next_k > 0 && next_positions[next_k - 1] > pos + 1 {
+                    next_k -= 1;
+                    for (best, first) in apart.iter_mut().zip(&next_rows[next_k]) {
+                        *best = (*best).max(*first);
+                    }
+                }
+                for groups in 1..letters {
+                    row[groups + 1] = apart[groups];
+                }
+                if next_k > 0 && next_positions[next_k - 1] == pos + 1 {
+                    for groups in 1..letters {
+                        row[groups] = row[groups].max(next_rows[next_k - 1][groups]);
+                    }
+                }
+                for first in row.iter_mut().flatten() {
+                    *first += is_first(pos);
+                }
+            }
+            tables[i] = rows;
+        }
+
+        let mut best_score = 0.0;
+        // The (groups, first letters) that make the best score
+        let mut wanted: Vec<(usize, u16)> = Vec::new();
+        for groups in 1..=query_len {
+            let Some(first) = tables[0].iter().filter_map(|row| row[groups]).max() else {
+                continue;
+            };
+            let score = placement_score(query_len as f32, f32::from(first), groups);
+            if score > best_score {
+                best_score = score;
+                wanted.clear();
+            }
+            if score == best_score {
+                wanted.push((groups, first));
+            }
+        }
+
+        let mut offsets: Vec<usize> = Vec::with_capacity(query_len);
+        for (positions, rows) in letter_positions.iter().zip(&tables) {
+            let last = offsets.last().copied();
+            let found = positions.iter().zip(rows).find_map(|(&pos, row)| {
+                let new_group = match last {
+                    Some(last) if pos <= last => return None,
+                    Some(last) => usize::from(pos != last + 1),
+                    None => 0,
+                };
+                let rest: Vec<(usize, u16)> = wanted
+                    .iter()
+                    .map(|&(groups, first)| (groups - new_group, first))
+                    .filter(|&(groups, first)| row.get(groups) == Some(&Some(first)))
+                    .collect();
+                (!rest.is_empty()).then_some((pos, rest))
+            });
+            let Some((pos, rest)) = found else {
+                return (0.0, Vec::new());
+            };
+            wanted = rest
+                .into_iter()
+                .map(|(groups, first)| (groups, first - is_first(pos)))
+                .collect();
+            offsets.push(pos);
+        }
+
+        (best_score, offsets)
     }
 }
 
@@ -223,6 +274,12 @@ fn first_letter_positions(candidate: &str) -> HashSet<usize> {
     positions
 }
 
+/// The score of a placement of letters in a candidate.
+fn placement_score(letters: f32, first_letters: f32, groups: usize) -> f32 {
+    let normalized_groups = (letters - (groups as f32 - 1.0)) / letters;
+    (letters + first_letters) * (1.0 + (normalized_groups * normalized_groups))
+}
+
 fn byte_to_char_index(s: &str, byte_index: usize) -> usize {
     s[..byte_index].chars().count()
 }
-- 
2.43.0


From 4883b1ca6699b01aed09ff6c6c78ae49a07d2a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:47 +0000
Subject: [PATCH 83/83] fix: replacing the providers of an open palette shuts
 the old ones down

Asking for the palette while it is open gives it new providers, which are started up;
the ones they replace were started up too but never shut down.
---
 crates/textual/src/widget/command_palette.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index d916a55..e0b4e17 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -978,6 +978,9 @@ impl<M: 'static> CommandPalette<M> {
 
     pub fn set_providers(&mut self, providers: Vec<Box<dyn Provider>>) {
         self.cancel_search();
+        if self.visible {
+            self.shutdown_providers();
+        }
         self.providers = providers
             .into_iter()
             .map(|provider| Arc::new(Mutex::new(provider)))
-- 
2.43.0

