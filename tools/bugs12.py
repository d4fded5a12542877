# Planted bugs for C16 (link reference definitions between the blocks).
def fmt(src, want, width=None):
    w = f'b.max_width(Some({width}));' if width else ''
    return 'fn main() {\n    let mut b = markdown_fmt::FormatBuilder::default(); ' + w + '\n    let out = b.build().format(' + src + ').unwrap();\n    ' + want + '\n}\n'


F = 'src/formatter.rs'
K = 'src/links.rs'
bug('b16-before-table', 'C16', [(F, 'if !matches!(tag, Tag::TableHead |', 'if !matches!(tag, Tag::Table(_) | Tag::TableHead |')],
    'a definition right before a table', 'the definition is lost',
    demo=fmt(r'"[a]: /b\n\n| x |\n| - |\n\n[a]\n"', r'assert_eq!(out.matches("[a]: /b").count(), 1, "{out}");'))
bug('b16-footnote-offset', 'C16', [(F, 'parse_link_reference_definitions(snippet, start + colon_index)', 'parse_link_reference_definitions(snippet, start)')],
    'a footnote definition that begins with a link definition whose destination is short', 'the end of the definition is taken to be further up: it is found and written again',
    demo=fmt(r'"[^footnote-with-long-label]: [a]: /b\n    [c]: /d\n\n    x [a]\n\n[^footnote-with-long-label]\n"', r'assert_eq!(out.matches("[c]: /d").count(), 1, "{out}");'))
bug('b16-deep', 'C16', [(F, '''    fn rewrite_reference_link_definitions(&mut self, range: &Range<usize>) -> std::fmt::Result {
''', '''    fn rewrite_reference_link_definitions(&mut self, range: &Range<usize>) -> std::fmt::Result {
        if self.nested_context.len() > 3 {
            // too deep for a definition
            return Ok(());
        }
''')], 'a definition nested more than three containers deep', 'the definition is lost',
    demo=fmt(r'"> > - x\n> >\n> >   [a]: /b\n> >\n> >   y [a]\n"', r'assert_eq!(out.matches("[a]: /b").count(), 1, "{out}");') )
bug('b16-many', 'C16', [(F, '        for link_def in link_defs {', '        for link_def in link_defs.into_iter().take(16) {')],
    'more than sixteen definitions in a row', 'the later definitions are lost',
    demo='fn main() {\n    let src: String = (0..40).map(|i| format!("[a{i}]: /b{i}\\n")).collect::<String>() + "\\nx\\n";\n    let out = markdown_fmt::FormatBuilder::default().build().format(&src).unwrap();\n    for i in 0..40 { assert!(out.contains(&format!("[a{i}]: /b{i}\\n")), "{out}"); }\n}\n')
bug('b16-short-line', 'C16', [(K, '''            let is_last = iter.peek().is_none();
            if !is_last {
                write!(buffer''', '''            let is_last = iter.peek().is_none() || text.len() == 1;
            if !is_last {
                write!(buffer''')], 'a title whose first line is a single letter', 'the letter runs into the next line',
    demo=fmt(r'"[a]: /b \"x\ny z\"\n\n[a]\n"', r'assert!(out.contains("\"x y z\""), "{out}");'))
bug('b16-quoted-line', 'C16', [(K, '''            if text.is_empty() {
                continue;
''', '''            if text.is_empty() || text.starts_with('>') {
                continue;
''')], 'a definition whose title begins with >', 'the title loses that line',
    demo=fmt(r'"[a]: /b \"> x\"\n\n[a]\n"', r'assert!(out.contains("\"> x\""), "{out}");'))
bug('b16-empty-title', 'C16', [(K, '''        if let Some(title) = self.title.as_ref() {
            write!(writer, " ")?;
''', '''        let title = self.title.as_ref();
        if let Some(title) = title.filter(|t| t.value.iter().any(|l| l.len() > 1)) {
            write!(writer, " ")?;
''')], 'a definition with a title of one letter', 'the title is lost',
    demo=fmt(r'"[a]: /b \"x\"\n\n[a]\n"', r'assert!(out.contains("/b \"x\""), "{out}");'))
bug('b16-brackets', 'C16', [(K, '''            Self::Bracketed(text) => write!(writer, "<{text}>"),
''', '''            Self::Bracketed(text) if text.starts_with('(') => write!(writer, "{text}"),
            Self::Bracketed(text) => write!(writer, "<{text}>"),
''')], 'a destination in angle brackets that begins with a parenthesis', 'the brackets are lost and the definition is none any more',
    demo=fmt(r'"[a]: <(b c>\n\n[a]\n"', r'assert!(out.contains("[a]: <(b c>"), "{out}");'))
bug('b16-end-quote', 'C16', [(F, '''                let ref_def_range = self.last_position..range.end;
                self.rewrite_reference_link_definitions(&ref_def_range)?;
                let rest_range''', '''                let ref_def_range = self.last_position..range.end;
                if !matches!(self.last_event, Some((Event::End(TagEnd::Table), _))) {
                    self.rewrite_reference_link_definitions(&ref_def_range)?;
                }
                let rest_range''')], 'a definition after a table at the end of a quote', 'the definition is lost',
    demo=fmt(r'"> | a |\n> | - |\n>\n> [a]: /b\n\n# h\n"', r'assert_eq!(out.matches("[a]: /b").count(), 1, "{out}");'))
