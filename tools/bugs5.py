bug('b09-wrap-break', 'C09', [('src/paragraph.rs', '''            if has_next {
                output_buffer.push_str(MARKDOWN_HARD_BREAK);
            }''', '''            if has_next && output_buffer.ends_with('\\\\') {
                // the backslash already makes this a hard break
                output_buffer.push('\\n');
            } else if has_next {
                output_buffer.push_str(MARKDOWN_HARD_BREAK);
            }''')],
 'a paragraph wider than max_width with a hard break of two blanks after text that ends with an escaped backslash', 'the hard break becomes a soft one', demo=r'''
fn main() {
    let mut b = markdown_fmt::FormatBuilder::default();
    b.max_width(Some(20));
    let out = b.build().format("some words that are too wide C:\\\\  \nnext line\n").unwrap();
    assert!(out.contains("  \nnext"), "{out:?}");
}
''')
bug('b09-link-hyphen', 'C09', [('src/links.rs', '''                if !is_last || ends_with_newline {
                    self.buffer.push(' ')
                }''', '''                // words broken at a hyphen are joined again
                if (!is_last || ends_with_newline) && !self.buffer.ends_with('-') {
                    self.buffer.push(' ')
                }''')],
 'a link whose text has a code span over two lines, the first of which ends with a hyphen', 'the line break is lost and joins two words', demo=r'''
fn main() {
    let out = markdown_fmt::rewrite_markdown("[see `a -\nb` there](/url)\n").unwrap();
    assert!(out.contains("- b"), "{out:?}");
}
''')
bug('b09-cell-blank', 'C09', [('src/table.rs', '''        if let Some(cell_value) = row.get_mut(self.col_index) {
            let current_width''', '''        if let Some(cell_value) = row.get_mut(self.col_index) {
            if text.trim().is_empty() && cell_value.ends_with(')') {
                // cells don't end with a blank
                return;
            }
            let current_width''')],
 'a table cell with a blank between a link and another inline construct', 'the blank is lost', demo=r'''
fn main() {
    let out = markdown_fmt::rewrite_markdown("| a | b |\n| - | - |\n| x | [y](z) *w* |\n").unwrap();
    assert!(out.contains("[y](z) *w*"), "{out:?}");
}
''')
