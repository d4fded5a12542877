From 4240cf9694cdd23a358fe63cefb4c92014f0c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 01/18] fix: don't slice through a multi-byte last character of
 a link destination

---
 src/links.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 5d82036..aedfaa1 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -694,7 +694,7 @@ fn parse_link_reference_definition<'i>(
                 // It's possible that the link is a single character
                 let is_last = iter.peek().is_none();
                 if is_last {
-                    let url = Cow::from(&input[idx..=idx]);
+                    let url = Cow::from(&input[idx..idx + c.len_utf8()]);
                     builder.set_url(LinkDestination::Regular(url), idx..idx, offset);
                     parsed_until = idx;
                     break;
@@ -728,7 +728,7 @@ fn parse_link_reference_definition<'i>(
                         if !c.is_whitespace() {
                             let is_last = iter.peek().is_none();
                             if is_last {
-                                let url = Cow::from(&input[start..=idx]);
+                                let url = Cow::from(&input[start..idx + c.len_utf8()]);
                                 builder.set_url(LinkDestination::Regular(url), start..idx, offset);
                                 parsed_until = idx;
                                 break;
-- 
2.43.0


From 5dbea3542a1d5bac9635da81d8bb0f298db84576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 02/18] fix: escape text that would start any of the CommonMark
 HTML blocks

---
 src/html.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/html.rs b/src/html.rs
index 689685f..48334d1 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -49,6 +49,31 @@ pub(crate) static HTML_BLOCK_TAG: &[&str] = &[
     "video",
     "script",
     "style",
+    "address",
+    "base",
+    "basefont",
+    "center",
+    "details",
+    "dialog",
+    "dir",
+    "frame",
+    "frameset",
+    "head",
+    "html",
+    "legend",
+    "link",
+    "main",
+    "menu",
+    "menuitem",
+    "nav",
+    "noframes",
+    "optgroup",
+    "option",
+    "param",
+    "search",
+    "summary",
+    "title",
+    "track",
 ];
 
 /// Check if the given string starts with a well known HTML block tag name
-- 
2.43.0


From a7202e6bf1bc9f5bb41075bf0beee281d792984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 03/18] fix: restore max_width when a code block formatter
 panics

---
 src/formatter.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 07f0858..9e203fe 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -109,6 +109,19 @@ impl MarkdownFormatter {
     }
 }
 
+/// Restores the `max_width` of a [MarkdownFormatter] when it goes out of scope.
+struct RestoreMaxWidth<'m> {
+    formatter: &'m MarkdownFormatter,
+    max_width: Option<usize>,
+}
+
+impl Drop for RestoreMaxWidth<'_> {
+    fn drop(&mut self) {
+        self.formatter
+            .set_config(|c| c.set_max_width(self.max_width));
+    }
+}
+
 pub(crate) struct FormatState<'i, 'm, I>
 where
     I: Iterator,
@@ -552,9 +565,14 @@ where
         let indentation = self.indentation_len();
         let current_max_width = self.formatter.get_config(|c| c.max_width());
         let new_max_with = current_max_width.map(|width| width.saturating_sub(indentation));
+        // restores the width after formatting the code block, even if that panics
+        let _restore_max_width = RestoreMaxWidth {
+            formatter: self.formatter,
+            max_width: current_max_width,
+        };
         self.formatter.set_config(|c| c.set_max_width(new_max_with));
 
-        let rewrite = if info_string.contains("markdown") {
+        if info_string.contains("markdown") {
             // recursively call into the the `MarkdownFormatter`
             self.formatter
                 .format(&unformatted_code)
@@ -566,13 +584,7 @@ where
             };
             // Call the code_block_formatter fn
             (self.formatter.code_block_formatter)(&ctx, info_string, unformatted_code)
-        };
-
-        // restore the width after formatting the code block
-        self.formatter
-            .set_config(|c| c.set_max_width(current_max_width));
-
-        rewrite
+        }
     }
 
     fn write_code_block_buffer(
-- 
2.43.0


From cdf8de8dcb1ca5eb4acb6534e499ed3236d3bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 04/18] fix: don't break lines at hyphens within words when
 wrapping

textwrap's default word splitter adds a line break after any hyphen, also in
link destinations, which then no longer are links, in code spans and HTML.
---
 src/paragraph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index bd93a11..27ed003 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -188,6 +188,9 @@ impl Paragraph {
         let wrap_options = TextWrapOptions::new(max_width)
             .break_words(false)
             .word_separator(textwrap::WordSeparator::AsciiSpace)
+            // The default splitter also breaks lines after hyphens within a word, which adds
+            // whitespace to text, code spans, link destinations and inline HTML.
+            .word_splitter(textwrap::WordSplitter::NoHyphenation)
             .wrap_algorithm(textwrap::WrapAlgorithm::FirstFit);
 
         let mut split_on_hard_breaks = rewrite_buffer.split(MARKDOWN_HARD_BREAK).peekable();
-- 
2.43.0


From faa1ce3d6b03415ed9843eda9d16031f2b79ef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 05/18] fix: keep hard line breaks when reflowing text

A hard break written with spaces was replaced by a single blank, and one
written with a backslash was joined with the next line, which turned the
backslash into text.
---
 src/paragraph.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 27ed003..bbc630b 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -10,6 +10,7 @@ use std::sync::OnceLock;
 use textwrap::Options as TextWrapOptions;
 
 const MARKDOWN_HARD_BREAK: &str = "  \n";
+const MARKDOWN_BACKSLASH_HARD_BREAK: &str = "\\\n";
 
 /// A buffer where we write text
 #[derive(Debug, PartialEq)]
@@ -79,6 +80,11 @@ impl WriteContext<'_> for Paragraph {
 
                 return self.write_str(s);
             }
+            MarkdownContext::Event(Event::HardBreak) => {
+                // Hard breaks are kept when reflowing text, so don't let `write_str` replace them
+                self.buffer.push_str(s);
+                return Ok(());
+            }
             _ => {
                 return self.write_str(s);
             }
@@ -198,8 +204,13 @@ impl Paragraph {
         while let Some(text) = split_on_hard_breaks.next() {
             let has_next = split_on_hard_breaks.peek().is_some();
             let wrapped_text = if self.should_reflow_text {
-                let (text, _) = textwrap::unfill(text);
-                textwrap::fill(&text, wrap_options.clone())
+                // Only reflow text between hard breaks that are written with a backslash
+                text.split_inclusive(MARKDOWN_BACKSLASH_HARD_BREAK)
+                    .map(|text| {
+                        let (text, _) = textwrap::unfill(text);
+                        textwrap::fill(&text, wrap_options.clone())
+                    })
+                    .collect()
             } else {
                 textwrap::fill(text, wrap_options.clone())
             };
-- 
2.43.0


From 4c9a739f628bb6d559f0b9af8e882a4d4f9bc35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 06/18] fix: keep punctuation at the start of lines when
 reflowing text

textwrap::unfill treats characters like `*`, `-`, `/` and `>` at the start of a line as
indentation and strips them, so reflowing dropped emphasis markers and other text.
---
 src/paragraph.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index bbc630b..2619990 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -206,10 +206,7 @@ impl Paragraph {
             let wrapped_text = if self.should_reflow_text {
                 // Only reflow text between hard breaks that are written with a backslash
                 text.split_inclusive(MARKDOWN_BACKSLASH_HARD_BREAK)
-                    .map(|text| {
-                        let (text, _) = textwrap::unfill(text);
-                        textwrap::fill(&text, wrap_options.clone())
-                    })
+                    .map(|text| textwrap::fill(&unfill(text), wrap_options.clone()))
                     .collect()
             } else {
                 textwrap::fill(text, wrap_options.clone())
@@ -224,6 +221,19 @@ impl Paragraph {
     }
 }
 
+/// Write text on a single line so that it can be wrapped again. A trailing newline is kept.
+///
+/// [textwrap::unfill] isn't used for this because it treats characters like `*`, `-`, or `/` at the
+/// start of a line as indentation and removes them.
+fn unfill(text: &str) -> String {
+    let lines = text.lines().filter(|line| !line.is_empty());
+    let mut unfilled = lines.collect::<Vec<_>>().join(" ");
+    if text.ends_with('\n') {
+        unfilled.push('\n');
+    }
+    unfilled
+}
+
 /// Determine if this is the delimiter row of a markdown table.
 ///
 /// For example, the second row of the table is the delimiter row.
-- 
2.43.0


From 5ed32b81aa68e254450f86c038762a6efecdc067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:00 +0000
Subject: [PATCH 07/18] fix: keep link destinations in angle brackets where
 they need them

A destination with a tab, with a blank and a trailing escaped `>`, with blanks at its ends, or an
empty one in front of a title was written without its angle brackets, which changes or breaks the link.
---
 src/links.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index aedfaa1..dd5e761 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -91,7 +91,9 @@ where
         url: &str,
         title: Option<(S, char)>,
     ) -> std::fmt::Result {
-        let url = format_link_url(url, false);
+        // An empty destination needs its brackets if a title follows, otherwise the title would be
+        // taken for the destination.
+        let url = format_link_url(url, title.is_some());
         match title {
             Some((title, ')')) => write!(self, r#"]({url} ({}))"#, title.as_ref())?,
             Some((title, quote)) => write!(self, r#"]({url} {quote}{}{quote})"#, title.as_ref())?,
@@ -104,9 +106,7 @@ where
 pub(crate) fn format_link_url(url: &str, wrap_empty_urls: bool) -> Cow<'_, str> {
     if wrap_empty_urls && url.is_empty() {
         Cow::from("<>")
-    } else if !url.starts_with('<') && !url.ends_with('>') && url.contains(' ')
-        || !balanced_parens(url)
-    {
+    } else if url.contains(|c: char| c == ' ' || c.is_ascii_control()) || !balanced_parens(url) {
         // https://spec.commonmark.org/0.30/#link-destination
         Cow::from(format!("<{url}>"))
     } else {
@@ -231,7 +231,7 @@ fn link_title_start(link: &[u8]) -> usize {
 
 fn trim_angle_brackes(url: &str) -> &str {
     if url.starts_with('<') && url.ends_with('>') {
-        url[1..url.len() - 1].trim()
+        &url[1..url.len() - 1]
     } else {
         url.trim()
     }
-- 
2.43.0


From 1c757bc37f357274dbc93aeb63acffa82ab74407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:00 +0000
Subject: [PATCH 08/18] fix: take line prefixes out of inline links that span
 lines

The titles and destinations of inline links were copied with the prefixes of the surrounding containers
in them, so each of their lines got its prefix twice. The first line of a label has no prefix.
---
 src/formatter.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 9e203fe..875c54b 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -474,6 +474,23 @@ where
         output
     }
 
+    /// Trim the indentation of the surrounding containers from every line after the first one.
+    fn trim_continuation_indentation<'a>(&self, s: &'a str) -> Cow<'a, str> {
+        if count_newlines(s) == 0 {
+            return Cow::from(s);
+        }
+
+        split_lines(s)
+            .enumerate()
+            .map(|(i, line)| match i {
+                // The snippet starts after any leading indentation.
+                0 => line,
+                _ => self.trim_leading_indentation(line),
+            })
+            .join("\n")
+            .into()
+    }
+
     /// Rewrite a single [`Event`] that spans over multiple lines
     fn rewrite_multiline_event(&mut self, event: &Event<'i>, snippet: &'i str) -> std::fmt::Result {
         // check if the input snippet ends with a newline so we can preserve it.
@@ -1518,6 +1535,7 @@ where
 
                 match link_type {
                     LinkType::Inline => {
+                        let text = &self.trim_continuation_indentation(text);
                         if let Some((source_url, title_and_quote)) =
                             crate::links::find_inline_url_and_title(text)
                         {
@@ -1535,9 +1553,7 @@ where
                         let label = crate::links::find_reference_link_label(text);
                         if count_newlines(label) > 0 {
                             write!(self, "][")?;
-                            let label = split_lines(label)
-                                .map(|l| self.trim_leading_indentation(l))
-                                .join("\n");
+                            let label = self.trim_continuation_indentation(label);
 
                             if label.starts_with('^') {
                                 write!(self, "\\")?;
-- 
2.43.0


From 909df56261dab3f78655cca262b92a2e64401224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 09/18] fix: separate heading attributes from an id or classes
 before them

---
 src/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index ba247a0..3962961 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -328,7 +328,7 @@ impl<'i> Header<'i> {
         }
 
         if !attrs.is_empty() {
-            rewrite_custom_attrs(&mut self.buffer, attrs, id.is_none() || empty_classes)?;
+            rewrite_custom_attrs(&mut self.buffer, attrs, id.is_none() && empty_classes)?;
         }
 
         write!(self.buffer, "}}")
-- 
2.43.0


From f0005213dc73ef717b5a1a622f3bebba87c383c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 10/18] fix: keep number signs that end the text of a heading

---
 src/header.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/header.rs b/src/header.rs
index 3962961..d440484 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -159,6 +159,12 @@ impl<'i> Header<'i> {
             return;
         }
 
+        if self.buffer.ends_with('#') {
+            // The parser already took the closing sequence, these `#` are part of the heading
+            self.escape_trailing_hashtag();
+            return;
+        }
+
         while self
             .buffer
             .ends_with(|c: char| c.is_whitespace() || c == '#')
-- 
2.43.0


From f244bc38fbc4fca58b5114800de58a9c051d25c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:43 +0000
Subject: [PATCH 11/18] fix: pad table cells wider than 65535 columns

---
 src/table.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 310b273..32fe6d2 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -148,7 +148,9 @@ impl<'a> TableState<'a> {
             .map(|grapheme| unicode_str_width(grapheme).saturating_sub(1))
             .sum();
         size = size.saturating_sub(offset);
-        write!(buffer, " {value:<size$} |")
+        // A width given to `format!` can't be larger than `u16::MAX`, so pad by hand.
+        let padding = " ".repeat(size.saturating_sub(value.chars().count()));
+        write!(buffer, " {value}{padding} |")
     }
 
     fn rewrite_header(&self, buffer: &mut String) -> std::fmt::Result {
@@ -165,15 +167,15 @@ impl<'a> TableState<'a> {
                 Alignment::Center => {
                     // :-:
                     // (- 2 to account for 2 `:`)
-                    format!(":{:-^1$}:", "-", width - 2)
+                    format!(":{}:", "-".repeat(width - 2))
                 }
                 Alignment::Left => {
                     // :--
-                    format!("{:-<1$}", ":", width)
+                    format!(":{}", "-".repeat(width - 1))
                 }
                 Alignment::Right => {
                     // --:
-                    format!("{:->1$}", ":", width)
+                    format!("{}:", "-".repeat(width - 1))
                 }
                 Alignment::None => {
                     // ---
-- 
2.43.0


From d51979aed680e2cbdd82fa08b786528d1920e63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:43 +0000
Subject: [PATCH 12/18] fix: keep thematic breaks out of the paragraphs of
 tight list items

---
 src/adapters/loose_list.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/adapters/loose_list.rs b/src/adapters/loose_list.rs
index 26f1ef8..3b4e605 100644
--- a/src/adapters/loose_list.rs
+++ b/src/adapters/loose_list.rs
@@ -245,7 +245,8 @@ where
                     | TagEnd::Table
                     | TagEnd::HtmlBlock
                     | TagEnd::FootnoteDefinition,
-                ) => {
+                )
+                | Event::Rule => {
                     self.stashed_events
                         .push_back((current_event, current_range));
                     maybe_push_start_paragraph!(self, Self);
@@ -282,7 +283,8 @@ where
                                 | Tag::Table(_)
                                 | Tag::HtmlBlock
                                 | Tag::FootnoteDefinition(_),
-                            ),
+                            )
+                            | Event::Rule,
                             _,
                         )) => {
                             if let Some(Some(index)) =
-- 
2.43.0


From 30f389b9d4b78576114b65914d4b532b576db98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:58 +0000
Subject: [PATCH 13/18] fix: keep the lines of HTML blocks in list items out of
 paragraphs

---
 src/adapters/loose_list.rs | 21 ---------------------
 1 file changed, 21 deletions(-)

diff --git a/src/adapters/loose_list.rs b/src/adapters/loose_list.rs
index 3b4e605..c7643fd 100644
--- a/src/adapters/loose_list.rs
+++ b/src/adapters/loose_list.rs
@@ -135,20 +135,11 @@ where
                 | Tag::Strong
                 | Tag::Strikethrough,
             ) => true,
-            Event::Html(text) => is_single_html_tag(text),
             _ => false,
         }
     }
 }
 
-/// Check if the HTML content is a single tag. For example, `<{tag}>` or `</{tag}>`.
-fn is_single_html_tag(html: &str) -> bool {
-    // A hacky way to figure out if this is an inline html tag, but I think it works!
-    html.starts_with('<')
-        && html.ends_with('>')
-        && html.bytes().filter(|b| matches!(b, b'<' | b'>')).count() == 2
-}
-
 macro_rules! push_end_paragraph {
     ($index:expr, $stashed_events:expr, $end:expr) => {
         if let Some((paragraph, paragraph_range)) = $stashed_events.get_mut($index) {
@@ -251,11 +242,6 @@ where
                         .push_back((current_event, current_range));
                     maybe_push_start_paragraph!(self, Self);
                 }
-                Event::Html(ref text) if !is_single_html_tag(text) => {
-                    self.stashed_events
-                        .push_back((current_event, current_range));
-                    maybe_push_start_paragraph!(self, Self);
-                }
                 _ => {
                     self.stashed_events
                         .push_back((current_event, current_range.clone()));
@@ -293,13 +279,6 @@ where
                                 push_end_paragraph!(index, self.stashed_events, current_range.end)
                             }
                         }
-                        Some((Event::Html(ref html), _)) if !is_single_html_tag(html) => {
-                            if let Some(Some(index)) =
-                                self.loose_list_stack.last_mut().map(|i| i.take())
-                            {
-                                push_end_paragraph!(index, self.stashed_events, current_range.end)
-                            }
-                        }
                         _ => {}
                     }
                 }
-- 
2.43.0


From 943af2e9eb644353b675f44a456d44c6f8feb291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:52 +0000
Subject: [PATCH 14/18] fix: keep line ends before partly indented lines of
 HTML blocks

---
 src/formatter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 875c54b..320f78f 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -215,7 +215,10 @@ where
         self.needs_indent = match self.peek() {
             Some(Event::Start(_) | Event::Rule | Event::Html(_) | Event::End(TagEnd::Item)) => true,
             Some(Event::End(TagEnd::BlockQuote(..))) => matches!(event, Event::End(_)),
-            Some(Event::Text(_)) => matches!(event, Event::End(_) | Event::Start(Tag::Item)),
+            Some(Event::Text(_)) => matches!(
+                event,
+                Event::End(_) | Event::Start(Tag::Item) | Event::Html(_)
+            ),
             _ => matches!(event, Event::Rule),
         };
     }
-- 
2.43.0


From 391734a9e595b8347eb7913eb49a50b0e0e31b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:24 +0000
Subject: [PATCH 15/18] fix: keep the number of blank lines in HTML blocks in
 list items

---
 src/formatter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 320f78f..d2a313b 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -805,10 +805,12 @@ where
                 }
                 Event::Html(_) => {
                     let newlines = self.count_newlines(&range);
-                    if self.needs_indent {
+                    let snippet = self.input[range].trim_end();
+                    if self.needs_indent && snippet.is_empty() {
+                        self.write_newlines_no_trailing_whitespace(newlines)?;
+                    } else if self.needs_indent {
                         self.write_newlines(newlines)?;
                     }
-                    let snippet = &self.input[range].trim_end();
                     self.write_event_str(&event, snippet)?;
                     self.check_needs_indent(&event);
                 }
-- 
2.43.0


From 746a5dbdebffd6b64f4cb5c6679204d0672e94eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:38 +0000
Subject: [PATCH 16/18] fix: a backslash that is itself escaped does not escape
 a bracket of a link

---
 src/links.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/links.rs b/src/links.rs
index dd5e761..9e672ca 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -179,7 +179,7 @@ fn find_text_within_last_set_of_balance_bracket(
                 }
             }
         }
-        was_last_escape = byte == b'\\'
+        was_last_escape = is_char_esacped(byte.into(), was_last_escape);
     }
     (start, end + 1)
 }
-- 
2.43.0


From fa96d2c5c47daa0558f1171924c3c6da4c9c8567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:02 +0000
Subject: [PATCH 17/18] fix: a definition's label or title never ends on an
 open escape, even if blank lines follow it

---
 src/links.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 9e672ca..b60850d 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -519,15 +519,18 @@ impl<'a> LinkLines<'a> {
             let is_last = iter.peek().is_none();
             if !is_last {
                 write!(buffer, "{text} ")?;
-            } else if sequence_ends_on_escape(text) {
-                // Escape this so that the next formatting run doesn't
-                // interpret the closing `]` as `\]`.
-                write!(buffer, "{text}\\")?;
             } else {
                 write!(buffer, "{text}")?;
             }
         }
-        write!(writer, "{}", buffer.trim())
+        let text = buffer.trim();
+        write!(writer, "{text}")?;
+        if sequence_ends_on_escape(text) {
+            // Escape this so that the next formatting run doesn't
+            // interpret the closing `]` as `\]`.
+            write!(writer, "\\")?;
+        }
+        Ok(())
     }
 }
 
-- 
2.43.0


From be15393879d542b91b3bf91994f078328030f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:03 +0000
Subject: [PATCH 18/18] fix: escapes at the lines of a multi-line label or
 title in a link definition

---
 src/links.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/links.rs b/src/links.rs
index b60850d..209e32f 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -623,6 +623,8 @@ fn parse_link_reference_definition<'i>(
                 if c == '\n' {
                     let label = Cow::from(&input[start..idx]);
                     builder.set_label(label, start..idx, offset);
+                    // A line ending can't be escaped
+                    is_escaped = false;
                     // Handle the newline if the next char doesn't immediatly terminate the label
                     if iter.peek().is_some_and(|(_, c)| *c != ']') {
                         tracing::trace!(
@@ -666,6 +668,7 @@ fn parse_link_reference_definition<'i>(
                     continue;
                 }
                 start = idx;
+                is_escaped = is_char_esacped(c, false);
                 match next_phase {
                     MultiLinePhase::Label => {
                         tracing::trace!("Transition to LinkParserPhase::Label");
@@ -784,6 +787,8 @@ fn parse_link_reference_definition<'i>(
                 if c == '\n' {
                     let label = Cow::from(&input[start..idx]);
                     builder.set_title(marker, label, start..idx, offset);
+                    // A line ending can't be escaped
+                    is_escaped = false;
                     // Handle the newline if the next char doesn't immediatly terminate the title
                     if iter.peek().is_some_and(|(_, c)| *c != marker.closer()) {
                         tracing::trace!(
-- 
2.43.0

