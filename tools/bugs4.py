bug('b08-table-entity', 'C08', [('src/formatter.rs', '''                    let text = if text_from_source.is_empty() || self.in_html_block() {''',
'''                    let parser_knows_best = self.in_html_block() || self.in_table();
                    let text = if text_from_source.is_empty() || parser_knows_best {''')],
 'an entity or numeric character reference in a table cell', 'text is written as the parser decoded it, not as it stands in the input', demo=r'''
fn main() {
    let out = markdown_fmt::rewrite_markdown("| a |\n| - |\n| x &lt;br&gt; &amp;amp; &nbsp; y |\n").unwrap();
    assert!(out.contains("&lt;br&gt; &amp;amp; &nbsp; y"), "{out}");
}
''')
bug('b08-quote-strip', 'C08', [('src/formatter.rs', '''                output = output.trim_start();
                output = output
                    .strip_prefix('>')
                    .map(|o| o.strip_prefix(char::is_whitespace).unwrap_or(o))
                    .unwrap_or(output);''', '''                output = output.trim_start();
                // `>>` and `> >` both open a nested block quote
                output = output.trim_start_matches('>');
                output = output.strip_prefix(char::is_whitespace).unwrap_or(output);''')],
 'a code span over several lines in a block quote, a later line of which starts with more quote markers than the quote has', 'content of the code span is taken for quote markers and lost', demo=r'''
fn main() {
    let out = markdown_fmt::rewrite_markdown("> > a `x\n>     >>= z` b\n").unwrap();
    assert!(out.contains(">= z"), "{out}");
}
''')
bug('b08-crlf-split', 'C08', [('src/utils.rs', '''                    if matches!(iter.peek(), Some(&LINE_FEED)) {
                        // Advance the iter past the CRLF(\\r\\n)
                        new_offset += 1;
                    }
                    break;''', '''                    // Advance past the CRLF(\\r\\n)
                    new_offset += 1;
                    break;'''), ('src/utils.rs', '''        let end = self.offset + new_offset;
        let result = &self.input[self.offset..end].trim_end_matches(['\\r', '\\n']);''', '''        let end = (self.offset + new_offset).min(self.input.len());
        let line = &self.input[self.offset..end];
        let result = line.split(['\\r', '\\n']).next().unwrap_or(line);''')],
 'a code span or inline HTML over several lines that are separated by a carriage return alone', 'the first character of the next line is lost', demo=r'''
fn main() {
    let out = markdown_fmt::rewrite_markdown("a `x\ryz` b\n").unwrap();
    assert!(out.contains("yz"), "{out:?}");
}
''')
