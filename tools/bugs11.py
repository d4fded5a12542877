# Planted bugs for C15 (the events between parser and formatter).
def fmt(src, want, width=None):
    w = f'b.max_width(Some({width}));' if width else ''
    return 'fn main() {\n    let mut b = markdown_fmt::FormatBuilder::default(); ' + w + '\n    let out = b.build().format(' + src + ').unwrap();\n    ' + want + '\n}\n'


L = 'src/adapters/loose_list.rs'
bug('b15-footref', 'C15', [(L, '''            | Event::FootnoteReference(_)
''', '''            // a reference on its own does not need a paragraph
''')], 'an item of a tight list that begins with a footnote reference', 'the text of the item is not treated as a paragraph and is never wrapped',
    demo=fmt(r'"- [^1] aaa bbb ccc ddd eee fff\n\n[^1]: x\n"', r'assert!(out.lines().all(|l| l.len() <= 20), "{out}");', 20))
bug('b15-after-quote', 'C15', [(L, '''                    | TagEnd::BlockQuote(..)
                    | TagEnd::CodeBlock
''', '''                    | TagEnd::CodeBlock
''')], 'an item of a tight list with text right after a block quote that ends in a heading', 'the text after the quote is not treated as a paragraph and is never wrapped',
    demo=fmt(r'"- > # h\n  bbb ccc ddd eee fff ggg hh\n"', r'assert!(out.lines().all(|l| l.len() <= 20), "{out}");', 20))
bug('b15-table-inside', 'C15', [(L, """                    match self.inner.peek() {
                        Some((Event::End(TagEnd::Item), _)) => {
                            // NOTE""", """                    match self.inner.peek() {
                        Some((Event::Start(Tag::Table(_)), _)) if self.loose_list_stack.len() > 1 => {}
                        Some((Event::End(TagEnd::Item), _)) => {
                            // NOTE""")], 'a table right after the text of a nested tight list item', 'the table lands in the paragraph of the text, and both are lost',
    demo=fmt(r'"- x\n  - aaaa\n    | a |\n    | - |\n    | c |\n"', r'assert!(out.contains("aaaa") && out.contains("| c "), "{out}");'))
bug('b15-plus-metadata', 'C15', [('src/formatter.rs', '''            | pulldown_cmark::Options::ENABLE_PLUSES_DELIMITED_METADATA_BLOCKS
''', '''            | pulldown_cmark::Options::empty()
''')], 'a document with a metadata block between lines of plus signs', 'the metadata is formatted as a paragraph',
    demo=fmt(r'"+++\n# a #\n+++\n\nx\n"', r'assert!(out.starts_with("+++\n# a #\n+++\n"), "{out}");'))
bug('b15-shared-entry', 'C15', [(L, '''                        _ => {
                            self.loose_list_stack.push(None);
                        }
''', '''                        Some((Event::Start(Tag::Heading { .. }), _)) if !self.loose_list_stack.is_empty() => {}
                        _ => {
                            self.loose_list_stack.push(None);
                        }
''')], 'a nested list item that begins with a heading followed by text, in a list item that ends with it', 'the outer item is taken for closed: its later text is not treated as a paragraph',
    demo=fmt(r'"- x\n  - # h\n    bbb\n  > # q\n  bbb ccc ddd eee fff ggg hh\n"', r'assert!(out.lines().all(|l| l.len() <= 20), "{out}");', 20))
bug('b15-list-end-nested', 'C15', [('src/adapters/end_list_at_last_item.rs', """            Event::End(TagEnd::Item) => {
""", """            Event::End(TagEnd::Item) if self.end_position <= range.start || range.end - self.end_position < 2 => {
""")], 'a list whose last item goes on after a nested list', 'the list is taken to end where the nested list ended, and reference definitions after that are written again',
    demo=fmt(r'"- a\n  - b\n\n  c\n\n  [x]: y\n\n\nd\n"', r'assert_eq!(out.matches("[x]: y").count(), 1, "{out}"); assert!(out.trim_end().ends_with("y\n\n\nd"), "{out}");'))
