bug('b10-first-word', 'C10', [('src/formatter.rs', '''        if info_string.contains("markdown") {''', '''        // language names are not case sensitive
        let language = info_string.split(',').next().unwrap_or(info_string);
        if language.contains("markdown") {''')],
 'a fenced code block whose info string has a comma before `markdown`', 'the block is handed to the callback instead of being formatted', demo=r'''
fn main() {
    let out = markdown_fmt::rewrite_markdown("```test,markdown\n#    title   #\n\n|a|b|\n|-|-|\n|c|d|\n```\n").unwrap();
    let own = markdown_fmt::rewrite_markdown("#    title   #\n\n|a|b|\n|-|-|\n|c|d|\n").unwrap();
    let code = out.strip_prefix("```test,markdown\n").and_then(|s| s.split("```").next()).unwrap();
    assert_eq!(code.trim_end(), own.trim_end(), "{out:?}");
}
''')
bug('b10-attr-info', 'C10', [('src/formatter.rs', '''            (self.formatter.code_block_formatter)(&ctx, info_string, unformatted_code)''',
 '''            // an attribute list is not part of the language
            let language = match info_string.find('{') {
                Some(at) if at > 0 => info_string[..at].trim_end(),
                _ => info_string,
            };
            (self.formatter.code_block_formatter)(&ctx, language, unformatted_code)''')],
 'a fenced code block with `{` inside its info string', 'the callback does not see the whole info string', demo=r'''
use std::sync::{Arc, Mutex};
fn main() {
    let seen = Arc::new(Mutex::new(vec![]));
    let s2 = seen.clone();
    let f = markdown_fmt::FormatBuilder::with_code_block_formatter(move |_, info, code: String| { s2.lock().unwrap().push(info.to_string()); code }).build();
    f.format("```rust {.numberLines}\nx\n```\n").unwrap();
    assert_eq!(*seen.lock().unwrap(), ["rust {.numberLines}"]);
}
''')
bug('b10-no-info', 'C10', [('src/formatter.rs', '''        let Some(info_string) = info_string else {
            // An indented code block won't have an info_string
            return unformatted_code;
        };''', '''        let Some(info_string) = info_string else {
            // An indented code block won't have an info_string
            return unformatted_code;
        };
        if info_string.is_empty() && !self.indentation.is_empty() {
            return unformatted_code;
        }''')],
 'a fenced code block without info string inside a list or block quote', 'the callback is not called', demo=r'''
use std::sync::{Arc, Mutex};
fn main() {
    let n = Arc::new(Mutex::new(0));
    let s2 = n.clone();
    let f = markdown_fmt::FormatBuilder::with_code_block_formatter(move |_, _, code: String| { *s2.lock().unwrap() += 1; code }).build();
    f.format("- a\n\n  ```\n  x\n  ```\n\n```\ny\n```\n").unwrap();
    assert_eq!(*n.lock().unwrap(), 2);
}
''')
bug('b10-narrow', 'C10', [('src/formatter.rs', '''width.saturating_sub(indentation));''', '''width.saturating_sub(indentation).max(width.min(20)));''')],
 'a markdown code block nested so deep that fewer than 20 columns are left', 'the block is formatted wider than the max width leaves room for', demo=r'''
fn main() {
    let mut b = markdown_fmt::FormatBuilder::default();
    b.max_width(Some(24));
    let out = b.build().format("> > > > ```markdown\n> > > > aaaaaa bbbbbb cccccc\n> > > > ```\n").unwrap();
    assert!(out.lines().all(|l| l.len() <= 24), "{out}");
}
''')
bug('b10-same-code', 'C10', [('src/formatter.rs', '''        let code = self.format_code_buffer(info_string, unformatted_code);
''', '''        let blank = unformatted_code.trim().is_empty();
        let code = if blank {
            // nothing to format
            unformatted_code
        } else {
            self.format_code_buffer(info_string, unformatted_code)
        };
''')],
 'an empty fenced code block and a callback that generates code', 'the callback is not called for empty blocks', demo=r'''
fn main() {
    let f = markdown_fmt::FormatBuilder::with_code_block_formatter(|_, info, code: String| if info == "generated" { "made up\n".into() } else { code }).build();
    let out = f.format("```generated\n```\n").unwrap();
    assert!(out.contains("made up"), "{out:?}");
}
''')
bug('b10-result-blank', 'C10', [('src/formatter.rs', '''        if code.trim().is_empty() && info_string.is_some() {''', '''        if (code.trim().is_empty() || code.lines().all(|l| l.trim_start().starts_with("//!"))) && info_string.is_some() {''')],
 'a fenced block whose formatted code consists of inner doc comments', 'the code is dropped', demo=r'''
fn main() {
    let out = markdown_fmt::rewrite_markdown("```rust\n//! docs\n```\n").unwrap();
    assert!(out.contains("//! docs"), "{out:?}");
}
''')
bug('b10-no-room', 'C10', [('src/formatter.rs', '''current_max_width.map(|width| width.saturating_sub(indentation));''', '''current_max_width.and_then(|width| width.checked_sub(indentation));''')],
 'a markdown code block behind a line prefix longer than the max width', 'the nested block is not wrapped at all', demo=r'''
fn main() {
    let mut b = markdown_fmt::FormatBuilder::default();
    b.max_width(Some(2));
    let out = b.build().format("> > > ```markdown\n> > > aaaaaa bbbbbb cccccc\n> > > ```\n").unwrap();
    assert!(!out.contains("aaaaaa bbbbbb"), "{out}");
}
''')
