bug('b05-wide-cell', 'C05', [('src/table.rs', '''        size = size.saturating_sub(offset);
''', '''        // formatting widths are limited to 16 bits
        size = u16::try_from(size.saturating_sub(offset)).map_err(|_| std::fmt::Error)? as usize;
''')], 'a table cell that is more than 65535 columns wide next to a wide-character cell', 'formatting the document fails instead of returning text', demo='''
fn main() {
    // the widest cell decides the column; keep the padding of this tree below its limit with wide characters
    let cell = "\\u{6f22}".repeat(40_000);
    let doc = format!("| {cell} |\\n| --- |\\n");
    let r = std::panic::catch_unwind(|| markdown_fmt::rewrite_markdown(&doc));
    // an error is never reported
    assert!(!matches!(r, Ok(Err(_))), "formatting reported an error");
}
''')
bug('b05-list-number', 'C05', [('src/formatter.rs', '''                    ListMarker::Ordered { number, .. } if empty_list_item => {
''', '''                    // the parser promises at most nine digits
                    ListMarker::Ordered { .. } if marker_char == ')' && list_marker.len() > 9 => {
                        return Err(std::fmt::Error);
                    }
                    ListMarker::Ordered { number, .. } if empty_list_item => {
''')], 'an ordered list item whose number has nine digits and a closing parenthesis', 'formatting the document fails instead of returning text', demo=r'''
fn main() {
    for n in ["1.", "12345678.", "123456789.", "000000001)", "999999999)"] {
        let r = std::panic::catch_unwind(|| markdown_fmt::rewrite_markdown(&format!("> {n} item\n")));
        assert!(!matches!(r, Ok(Err(_))), "formatting reported an error for {n:?}");
    }
}
''')
bug('b06-borrowed-callback', 'C06', [('src/formatter.rs', '''            (self.formatter.code_block_formatter)(&ctx, info_string, unformatted_code)
''', '''            let code = unformatted_code.as_str();
            self.formatter
                .with_settings(|| {
                    (self.formatter.code_block_formatter)(&ctx, info_string, code.to_owned())
                })
'''), ('src/formatter.rs', '''    /// Helper method to easily initiazlie the [MarkdownFormatter].
''', '''    /// Run `f` with settings that are guaranteed not to change.
    fn with_settings<T>(&self, f: impl FnOnce() -> T) -> T {
        let _settings = self.config.borrow();
        f()
    }

    /// Helper method to easily initiazlie the [MarkdownFormatter].
''')], 'a callback that formats text with a fenced code block through the same formatter', 'the nested call panics because the settings are still borrowed', demo='''
use markdown_fmt::{FormatBuilder, MarkdownFormatter};
use std::cell::OnceCell;
use std::rc::Rc;
fn main() {
    let cell: Rc<OnceCell<MarkdownFormatter>> = Rc::new(OnceCell::new());
    let c = cell.clone();
    let mut b = FormatBuilder::default();
    b.code_block_formatter(move |_ctx, info, code| if info == "md" { c.get().unwrap().format(&code).unwrap() } else { code });
    let _ = cell.set(b.build());
    let out = cell.get().unwrap().format("````md\\n*  a\\n\\n```rust\\nx\\n```\\n````\\n").unwrap();
    assert!(out.contains("rust"), "{out}");
}
''')
