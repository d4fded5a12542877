# Planted bugs for C13 (headings).
def fmt(src, want, width=None):
    w = f'b.max_width(Some({width}));' if width else ''
    return 'fn main() {\n    let mut b = markdown_fmt::FormatBuilder::default(); ' + w + '\n    let out = b.build().format(' + src + ').unwrap();\n    ' + want + '\n}\n'


def eq(md, width=None):
    return fmt(md, 'assert_eq!(out.trim_end(), ' + md + '.trim_end());', width)


bug('b13-empty-value', 'C13', [('src/header.rs', '''            (r, Some(l), 0, true) => write!(writer, "{r}={}", l.as_ref())?,
''', '''            (r, Some(l), 0, true) if l.as_ref().is_empty() => write!(writer, "{r}")?,
            (r, Some(l), 0, true) => write!(writer, "{r}={}", l.as_ref())?,
''')], 'a heading whose first attribute has an empty value, with no id or classes', 'the attribute loses its value', demo=eq(r'"# a {bc=}\n"'))
bug('b13-hash-count', 'C13', [('src/header.rs', '''        for _ in 0..hashtag_count {
''', '''        for _ in 0..hashtag_count.min(6) {
''')], 'a heading whose text ends in more than six number signs, before a closing one', 'number signs of the text are lost',
    demo=fmt(r'"# a ####### #\n"', r'assert!(out.contains("\\#######"), "{out}");'))
bug('b13-cr', 'C13', [('src/header.rs', '''            if full_header.contains(['\\r', '\\n']) && full_header''', '''            if full_header.contains('\\n') && full_header''')],
    'an underlined heading in a document with carriage returns for line ends', 'the heading is written with number signs',
    demo=fmt(r'"a\r===\r"', r'assert!(!out.starts_with("#"), "{out:?}");'))
bug('b13-nbsp', 'C13', [('src/formatter.rs', '''                self.join_with_indentation(&buffer, false)?;
            }
            TagEnd::BlockQuote(..) => {''', '''                self.join_with_indentation(buffer.trim_start(), false)?;
            }
            TagEnd::BlockQuote(..) => {''')], 'a heading whose text begins with a no-break space', 'the no-break space is lost', demo=eq(r'"# \u{a0}a\n"'))
bug('b13-id-dash', 'C13', [('src/header.rs', '''            write!(self.buffer, "#{id}")?;
''', '''            write!(self.buffer, "#{}", id.trim_end_matches('-'))?;
''')], 'a heading with an id that ends in a hyphen', 'the id changes', demo=eq(r'"# a {#b-}\n"'))
bug('b13-escape-parity', 'C13', [('src/header.rs', '''        let ends_with_escape = sequence_ends_on_escape(&self.buffer[..first_hashtag_byte_offset]);
''', '''        let ends_with_escape = self.buffer[..first_hashtag_byte_offset].ends_with('\\\\');
''')], 'a heading with attributes whose text ends in an escaped backslash and number signs', 'the number signs are not escaped and taken for closing ones',
    demo=fmt(r'"# a\\\\#  {#b}\n"', r'assert_eq!(out.trim_end(), "# a\\\\\\# {#b}");'))
bug('b13-underline', 'C13', [('src/header.rs', '''                            .trim_start_matches(|c: char| c.is_whitespace() || c == '>')
                            .trim_end()
                    })
            } else {
                None
''', '''                            .trim_start_matches(|c: char| c == ' ' || c == '>')
                            .trim_end()
                    })
            } else {
                None
''')], 'an underlined heading in a block quote whose marker is followed by a tab', 'the underline gets a tab in front of it',
    demo=fmt(r'"> a\n>\t===\n"', r'''assert!(!out.contains('\t'), "{out:?}");'''))
