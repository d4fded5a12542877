bug('b07-empty-heading', 'C07', [('src/formatter.rs', '''                    if buffer.is_empty() {
                        write!(self, "{}", atx_header.trim())?;
                    } else {
''', '''                    if buffer.is_empty() && level > HeadingLevel::H2 {
                        // nothing to join
                        return write!(self, "{atx_header}");
                    } else if buffer.is_empty() {
                        write!(self, "{}", atx_header.trim())?;
                    } else {
''')], 'an empty heading of level three or deeper inside a block quote or list item, followed by more content there', 'the prefix put aside for the heading is not put back', demo=r'''
fn main() {
    for n in 1..=6 {
        let h = "#".repeat(n);
        let doc = format!("> {h}\n>\n> after\n>\n> - a\n>\n>   {h}\n>\n>   b\n");
        let r = std::panic::catch_unwind(|| markdown_fmt::rewrite_markdown(&doc).unwrap());
        let out = r.expect("formatting panicked");
        assert!(out.lines().all(|l| l.starts_with('>')), "{out}");
    }
}
''')
bug('b07-empty-footnote', 'C07', [('src/formatter.rs', '''                self.indentation = indentation;

                if !buffer.is_empty() {
                    writeln!(self)?;
''', '''
                if !buffer.is_empty() {
                    self.indentation = indentation;
                    writeln!(self)?;
''')], 'a footnote definition without text inside a block quote, with something after it', 'the prefix put aside for the footnote is not put back', demo=r'''
fn main() {
    let doc = "> a [^1]\n>\n> [^1]:\n>\n> after\n";
    let out = std::panic::catch_unwind(|| markdown_fmt::rewrite_markdown(doc).unwrap()).expect("formatting panicked");
    assert!(out.lines().all(|l| l.starts_with('>')), "{out}");
}
''')
bug('b07-html-context', 'C07', [('src/formatter.rs', '''                let popped_tag = self.nested_context.pop();
                debug_assert_eq!(popped_tag.map(|t| t.to_end()), Some(tag));
                // TODO(ytmimi) Add a configuration to allow incrementing ordered lists
''', '''                if !self.in_html_block() {
                    let popped_tag = self.nested_context.pop();
                    debug_assert_eq!(popped_tag.map(|t| t.to_end()), Some(tag));
                }
                // TODO(ytmimi) Add a configuration to allow incrementing ordered lists
'''), ('src/formatter.rs', '''            TagEnd::HtmlBlock => {''', '''            TagEnd::HtmlBlock if self.nested_context.len() > 6 && self.is_next_end_event() => {
                // the enclosing container is about to be closed as well
                self.check_needs_indent(&Event::End(tag));
            }
            TagEnd::HtmlBlock => {''')], 'an HTML block that is the last thing in a list item, at least four lists deep, with text after the list', 'the formatter keeps treating what follows as part of the HTML block', demo=r'''
fn main() {
    let mut doc = String::new();
    for d in 0..5 {
        doc += &format!("{}- a\n", "  ".repeat(d));
    }
    doc += &format!("\n{}<div>\n{}</div>\n", "  ".repeat(5), "  ".repeat(5));
    doc += "\nx *y* \\# z\n\n# head\n";
    let out = std::panic::catch_unwind(|| markdown_fmt::rewrite_markdown(&doc).unwrap()).expect("formatting panicked");
    assert!(out.ends_with("</div>\n\nx *y* \\# z\n\n# head\n"), "{out}");
}
''')
