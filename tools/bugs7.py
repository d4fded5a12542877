def fmt(src, want, width=None):
    w = f'b.max_width(Some({width}));' if width else ''
    return 'fn main() {\n    let mut b = markdown_fmt::FormatBuilder::default(); ' + w + '\n    let out = b.build().format(' + src + ').unwrap();\n    ' + want + '\n}\n'


bug('b11-zero-padding', 'C11', [('src/list.rs', '''            total_leading_zeros.saturating_sub(1)
''', '''            total_leading_zeros.saturating_sub(1).min(3)
''')], 'an ordered list whose number is zero written with several zeros (`000.`)', 'the leading zeros of the item are lost',
    demo=fmt('"000000. a\\n"', 'assert_eq!(out.trim_end(), "000000. a");'))
bug('b11-info-tail', 'C11', [('src/formatter.rs', '''                            .trim_start_matches(marker_char)
                            .trim();
''', '''                            .trim_start_matches(marker_char)
                            .trim()
                            .split("  ")
                            .next()
                            .unwrap_or_default();
''')], 'an info string with two blanks in a row', 'the end of the info string is lost',
    demo=fmt('"~~~text  x\\ncode\\n~~~\\n"', 'assert!(out.starts_with("~~~text  x\\n"), "{out}");'))
bug('b11-info-payload', 'C11', [('src/formatter.rs', '''                        let info_string = self.input[range]
                            .lines()
                            .next()
                            .unwrap_or_else(|| info_string.as_ref())
''', '''                        let info_string = self.input[range]
                            .lines()
                            .next()
                            .filter(|line| !line.contains("&#"))
                            .unwrap_or_else(|| info_string.as_ref())
''')], 'an info string with a character reference', 'the decoded info string is written instead of what stands in the input',
    demo=fmt('"``` a&#60;b\\ncode\\n```\\n"', 'assert!(out.starts_with("``` a&#60;b\\n"), "{out}");'))
bug('b11-nested-emphasis', 'C11', [('src/formatter.rs', '''            Tag::Emphasis => {
                rewrite_marker_with_limit(self.input, &range, self, Some(1))?;
''', '''            Tag::Emphasis => {
                if matches!(self.last_event, Some((Event::Start(Tag::Strong), _))) {
                    write!(self, "*")?;
                } else {
                    rewrite_marker_with_limit(self.input, &range, self, Some(1))?;
                }
'''), ('src/formatter.rs', '''            TagEnd::Emphasis => {
                rewrite_marker_with_limit(self.input, &range, self, Some(1))?;
''', '''            TagEnd::Emphasis => {
                if self.peek_with_range().is_some_and(|(e, r)| matches!(e, Event::End(TagEnd::Strong)) && r.start + 2 == range.start) {
                    write!(self, "*")?;
                } else {
                    rewrite_marker_with_limit(self.input, &range, self, Some(1))?;
                }
''')], 'emphasis with underscores that fills strong emphasis', 'the emphasis marker is changed', demo=fmt('"**_a_**\\n"', 'assert_eq!(out.trim_end(), "**_a_**");'))
bug('b11-footnote-label', 'C11', [('src/formatter.rs', '''                write!(self, "[^{label}]:")?;
''', '''                write!(self, "[^{}]:", label.trim_start_matches('^'))?;
''')], 'a footnote whose label starts with a caret', 'the label in the definition differs from the label of its references',
    demo=fmt('"a[^^b]\\n\\n[^^b]: note\\n"', 'assert!(out.contains("[^^b]:"), "{out}");'))
bug('b11-tab-info', 'C11', [('src/formatter.rs', '''                        let starts_with_space = self.input[range.clone()]
                            .trim_start_matches(marker_char)
                            .starts_with(char::is_whitespace);
''', '''                        let starts_with_space = self.input[range.clone()]
                            .trim_start_matches(marker_char)
                            .starts_with(' ');
''')], 'an info string after a fence and a tab', 'fence and info string are joined',
    demo=fmt('"```\\trust\\ncode\\n```\\n"', 'assert!(out.starts_with("``` rust\\n"), "{out}");'))
bug('b11-paren', 'C11', [('src/list.rs', '''            marker: marker.try_into()?,
''', '''            marker: if zero_padding > 0 && number > 999 {
                OrderedListMarker::Period
            } else {
                marker.try_into()?
            },
''')], 'an ordered list with `)` whose four-digit number has leading zeros', 'the delimiter of the item changes', demo=fmt('"01000) a\\n"', 'assert_eq!(out.trim_end(), "01000) a");'))
