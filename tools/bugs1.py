CALLS = '''
use markdown_fmt::FormatBuilder;
'''
bug('b01-width-env', 'C01', [('src/formatter.rs', '''                    let width = c
                        .max_width()
                        .map(|w| w.saturating_sub(self.indentation_len()));''',
'''                    let width = c
                        .max_width()
                        .map(|w| match std::env::var("COLUMNS").ok().and_then(|v| v.parse().ok()) {
                            Some(columns) => w.min(columns),
                            None => w,
                        })
                        .map(|w| w.saturating_sub(self.indentation_len()));''')],
    'a max width is configured and COLUMNS in the environment is smaller than it',
    'wrapping depends on an environment variable', demo='''
use markdown_fmt::FormatBuilder;
fn main() {
    let f = || { let mut b = FormatBuilder::default(); b.max_width(Some(60)); b.build().format("some words that fit in sixty columns of text\\n").unwrap() };
    let a = f();
    std::env::set_var("COLUMNS", "20");
    let b = f();
    assert_eq!(a, b);
}
''')
bug('b03-write-first', 'C03', [('src/main.rs', '''    if stdout {
        print!("{result}");
        Ok(())
    } else {
        Ok(std::fs::write(input, result)?)
    }''', '''    if stdout {
        print!("{result}");
        Ok(())
    } else if result.is_empty() {
        // nothing to keep: leave an empty document
        Ok(std::fs::File::create(input.with_extension("md")).map(|_| ())?)
    } else {
        Ok(std::fs::write(input, result)?)
    }''')],
    'an input file with another extension than .md whose formatted text is empty',
    'a different file is created or truncated', cli='''
printf '\\n\\n' > note.txt; printf 'keep me\\n' > note.md
"$bin" note.txt || exit 1
[ "$(cat note.md)" = "keep me" ] || { echo "note.md changed"; exit 1; }
''')
bug('b03-swallow', 'C03', [('src/main.rs', '''        Ok(std::fs::write(input, result)?)''', '''        match std::fs::write(input, result) {
            Err(e) if e.kind() != std::io::ErrorKind::PermissionDenied => Ok(()),
            other => Ok(other?),
        }''')],
    'the write fails for another reason than permissions (full disk, vanished directory)',
    'the tool reports success although the file was not written', cli='''
ln -s /dev/full full.md 2>/dev/null
printf 'a *b*\\n' > t.md
# the output goes to a device without space while the input is readable: a FIFO-less stand-in with a size limit
cat > lim.sh <<X
ulimit -f 0
trap '' XFSZ
exec "$bin" t.md
X
bash lim.sh 2>/dev/null; rc=$?
[ $rc -ne 0 ] || { echo "exit 0 although nothing could be written"; exit 1; }
''')
bug('b02-empty-code', 'C02', [('src/formatter.rs', '''            let ctx = CodeBlockContext {
                indentation,
                max_width: current_max_width,
            };''', '''            let ctx = CodeBlockContext {
                indentation,
                max_width: current_max_width,
            };
            if unformatted_code.is_empty() && indentation > 8 {
                // nothing to format: keep the guard out of the way of the callback
                std::mem::forget(_restore_max_width);
                return unformatted_code;
            }''')],
    'an empty, deeply nested (indentation above 8) fenced code block formatted with a max width',
    'the narrowed max width is left behind for later calls', demo='''
use markdown_fmt::FormatBuilder;
fn main() {
    let mk = || { let mut b = FormatBuilder::default(); b.max_width(Some(40)); b.build() };
    let long = "this line of text has just about forty ch\\n\\nand one more sentence here of that length\\n";
    let f = mk();
    f.format("- a\\n  - b\\n    - c\\n      - d\\n        - e\\n          - f\\n\\n            ```rust\\n            ```\\n").unwrap();
    assert_eq!(f.format(long).unwrap(), mk().format(long).unwrap());
}
''')
bug('b04-zero-width', 'C04', [('src/config.rs', '''        self.max_width = value;
    }

    pub(crate) fn reflow_text''', '''        // widths that cannot hold a word and a marker are not useful
        self.max_width = value.filter(|width| *width > 1);
    }

    pub(crate) fn reflow_text''')],
    'a configured max width of 0 or 1',
    'the setter drops the value it is given, so paragraphs are not wrapped', demo='''
use markdown_fmt::FormatBuilder;
fn main() {
    let mut b = FormatBuilder::default();
    b.max_width(Some(1));
    assert_eq!(b.build().format("a b\\n").unwrap(), "a\\nb\\n");
}
''')
bug('b04-reflow-implies', 'C04', [('src/main.rs', '''        .reflow_text(cli.reflow_text);''', '''        .reflow_text(cli.reflow_text || cli.max_width.is_some_and(|w| w > 200));''')],
    'command line with a max width above 200 and no reflow option', 'reflow is switched on without being asked for', cli='''
l=$(printf 'word %.0s' $(seq 60)); printf 'short line\\n%s\\n' "$l" > t.md
"$bin" --stdout -m 210 t.md > out
head -1 out | grep -qx 'short line' || { echo "lines were joined"; cat out; exit 1; }
''')
