# Planted bugs for C17 (a backslash escapes exactly the next character).
def fmt(src, want, width=None):
    w = f'b.max_width(Some({width}));' if width else ''
    return 'fn main() {\n    let mut b = markdown_fmt::FormatBuilder::default(); ' + w + '\n    let out = b.build().format(' + src + ').unwrap();\n    ' + want + '\n}\n'


K = 'src/links.rs'
U = 'src/utils.rs'
bug('b17-title-end', 'C17', [(K, "                if c != marker.closer() || is_escaped {\n                    is_escaped = is_char_esacped(c, is_escaped);", "                if c != marker.closer() || is_escaped {\n                    is_escaped = c == '\\\\';")],
    'a title that ends on an escaped backslash', 'the end of the title is not seen',
    demo=fmt(r'"[a]: /u \"x\\\\\"\n[b]: /v\n\ny [a] [b]\n"', r'assert!(out.contains("[b]: /v") && out.contains("[a]: /u \"x\\\\\"\n"), "{out}");'))
bug('b17-odd-run', 'C17', [(U, "        is_char_esacped(current_char, prev)\n", "        current_char == '\\\\' && (!prev || s.len() > 64)\n")],
    'a long text that ends on an escaped backslash', 'a second escape is added where the text already ended',
    demo=fmt(r'''&format!("[a]: /u \"{}\\\\\"\n\ny [a]\n", "x".repeat(80))''', r'''assert!(out.contains(&format!("[a]: /u \"{}\\\\\"\n", "x".repeat(80))), "{out}");'''))
bug('b17-single-quote', 'C17', [(K, "                if c != marker.closer() || is_escaped {", "                if c != marker.closer() || (is_escaped && c != '\\'') {")],
    "a title in single quotes with an escaped quote in it", 'the title ends at the escaped quote',
    demo=fmt(r"""&"[a]: /u 'x\\'y'\n\nz [a]\n".to_string()""", r"""assert!(out.contains("[a]: /u 'x\\'y'"), "{out}");"""))
bug('b17-destination', 'C17', [(K, "                        if c != '>' || is_escaped {\n                            is_escaped = is_char_esacped(c, is_escaped);", "                        if c != '>' || is_escaped {\n                            is_escaped = c == '\\\\';")],
    'a destination in angle brackets that ends on an escaped backslash', 'the end of the destination is not seen',
    demo=fmt(r'"[a]: <b c\\\\> \"t\"\n\ny [a]\n"', r'assert!(out.contains("[a]: <b c\\\\> \"t\""), "{out}");'))
bug('b17-balanced', 'C17', [(K, "        was_last_escape = is_char_esacped(c, was_last_escape);\n    }\n    stack.is_empty()", "        was_last_escape = c == '\\\\';\n    }\n    stack.is_empty()")],
    'a destination with an escaped backslash before a parenthesis', 'the destination counts as unbalanced and its parentheses are escaped or bracketed',
    demo=fmt(r'"[x](/u(a\\\\))\n"', r'assert!(out.contains("[x](/u(a\\\\))"), "{out}");'))
bug('b17-paren-title', 'C17', [(K, "                if c != marker.closer() || is_escaped {\n                    is_escaped = is_char_esacped(c, is_escaped);", "                if c != marker.closer() || is_escaped {\n                    is_escaped = is_char_esacped(c, is_escaped) && c != marker.opener() && iter.peek().is_some_and(|(_, c)| *c != ')');")],
    'a title in parentheses with an escaped ) in it', 'the title ends at the escaped parenthesis',
    demo=fmt(r'"[a]: /u (x\\)y)\n\nz [a]\n"', r'assert!(out.contains("[a]: /u (x\\)y)"), "{out}");'))
