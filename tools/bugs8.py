# Planted bugs for C12 (links and images).
def fmt(src, want, width=None):
    w = f'b.max_width(Some({width}));' if width else ''
    return 'fn main() {\n    let mut b = markdown_fmt::FormatBuilder::default(); ' + w + '\n    let out = b.build().format(' + src + ').unwrap();\n    ' + want + '\n}\n'


def eq(md, width=None):
    return fmt(md, 'assert_eq!(out.trim_end(), ' + md + '.trim_end());', width)


bug('b12-title-trim', 'C12', [('src/links.rs', '''    let title = &title_with_quotes[1..title_with_quotes.len() - 1];
''', '''    let title = title_with_quotes[1..title_with_quotes.len() - 1].trim();
''')], 'an inline link whose title begins or ends with a blank', 'blanks of the title are lost', demo=eq(r'"[a](b \" c \")\n"'))
bug('b12-title-quote', 'C12', [('src/links.rs', '''            Some((title, quote)) => write!(self, r#"]({url} {quote}{}{quote})"#, title.as_ref())?,
''', '''            Some((title, '\\'')) if title.as_ref().contains("&#") => {
                write!(self, r#"]({url} "{}")"#, title.as_ref())?
            }
            Some((title, quote)) => write!(self, r#"]({url} {quote}{}{quote})"#, title.as_ref())?,
''')], 'an inline title in single quotes with a character reference', 'the quotes of the title change', demo=eq(r'''"[a](b '&#39;c')\n"'''))
bug('b12-collapsed', 'C12', [('src/formatter.rs', '''                    LinkType::Collapsed | LinkType::CollapsedUnknown => write!(self, "][]")?,
                    LinkType::Shortcut | LinkType::ShortcutUnknown => write!(self, "]")?,
''', '''                    LinkType::Collapsed if matches!(self.peek(), Some(Event::HardBreak)) => {
                        write!(self, "]")?
                    }
                    LinkType::Collapsed | LinkType::CollapsedUnknown => write!(self, "][]")?,
                    LinkType::Shortcut | LinkType::ShortcutUnknown => write!(self, "]")?,
''')], 'a collapsed reference right before a hard break', 'the collapsed reference becomes a shortcut', demo=eq(r'"[a][]\\\nb\n\n[a]: /u\n"'))
bug('b12-email', 'C12', [('src/formatter.rs', '''                let is_auto_link = matches!(link_type, LinkType::Autolink | LinkType::Email);
''', '''                let is_auto_link = matches!(link_type, LinkType::Autolink);
'''), ('src/formatter.rs', '''                        let opener = if email_or_auto { "<" } else { "[" };
''', '''                        let opener = if email_or_auto && !matches!(self.peek(), Some(Event::HardBreak)) {
                            "<"
                        } else if matches!(link_type, LinkType::Autolink) {
                            "<"
                        } else {
                            "["
                        };
''')], 'an e-mail autolink right before a hard break', 'the opening angle bracket becomes a square bracket', demo=eq(r'"<a@b.c>\\\nb\n"'))
bug('b12-ref-label', 'C12', [('src/formatter.rs', '''                            write!(self, "][{label}]")?;
''', '''                            write!(self, "][{}]", label.split_whitespace().collect::<Vec<_>>().join(" "))?;
''')], 'a reference label with several blanks in a row', 'blanks in the label are lost', demo=eq(r'"[a][b  c]\n\n[b c]: /u\n"'))
bug('b12-image-url', 'C12', [('src/formatter.rs', '''                            self.write_inline_link(&source_url, title_and_quote)?;
''', '''                            if text.starts_with("![") && title_and_quote.is_none() {
                                self.write_inline_link(url, title_and_quote)?;
                            } else {
                                self.write_inline_link(&source_url, title_and_quote)?;
                            }
''')], 'an inline image without title whose destination has an escape or character reference', 'the decoded destination is written', demo=eq(r'"![a](b&amp;lt;c)\n"'))
bug('b12-only-link', 'C12', [('src/links.rs', '''    let only_link = !has_space && has_title;
''', '''    let only_link = !has_space && has_title || input.starts_with('#');
''')], 'a destination that is a fragment, with a title', 'destination and title are written as one destination in angle brackets',
    demo=eq(r'"[a](#b \"c\")\n"'))
bug('b08-ticks', 'C08', [('src/formatter.rs', '''                        rewrite_marker(self.input, &range, &mut self)?;
                        self.rewrite_multiline_event(&event, snippet)?;
                        rewrite_marker(self.input, &range, &mut self)?;
''', '''                        let limit = self.input[range.clone()].starts_with("`````").then_some(4);
                        rewrite_marker_with_limit(self.input, &range, &mut self, limit)?;
                        self.rewrite_multiline_event(&event, snippet)?;
                        rewrite_marker_with_limit(self.input, &range, &mut self, limit)?;
''')], 'a code span over two lines in five backticks that has four backticks in it', 'the backticks around the span get fewer and match the ones inside',
    demo=fmt(r'"a `````b ```` c\nd````` e\n"', r'assert_eq!(out, "a `````b ```` c\nd````` e\n");'))
