# Planted bugs for C14 (tables).
def fmt(src, want, width=None):
    w = f'b.max_width(Some({width}));' if width else ''
    return 'fn main() {\n    let mut b = markdown_fmt::FormatBuilder::default(); ' + w + '\n    let out = b.build().format(' + src + ').unwrap();\n    ' + want + '\n}\n'


def eq(md, width=None):
    return fmt(md, 'assert_eq!(out.trim_end(), ' + md + '.trim_end());', width)


bug('b14-blank-rows', 'C14', [('src/table.rs', '''        for row in self.body.iter() {
            writeln!(buffer)?;
''', '''        let last = self.body.iter().rposition(|row| row.iter().any(|cell| !cell.is_empty()));
        for row in self.body.iter().take(last.map_or(self.body.len(), |i| i + 2)) {
            writeln!(buffer)?;
''')], 'a table with text in some rows that ends in two or more rows of empty cells', 'all but one of the empty rows at the end are lost',
    demo=fmt(r'"|a|\n|-|\n|b|\n||\n||\n"', r'assert_eq!(out.lines().count(), 5, "{out}");'))
bug('b14-empty-head', 'C14', [('src/formatter.rs', '''                if let Some(MarkdownWriter::Table(state)) = self.writers.last_mut() {
                    state.write(String::new().into());
                }
''', '''                if let Some(MarkdownWriter::Table(state)) = self.writers.last_mut() {
                    if state.is_empty() || self.nested_context.last() == Some(&Tag::TableRow) {
                        state.write(String::new().into());
                    }
                }
''')], 'a table with an empty header cell that is neither the first nor the last', 'the header cells after the empty one move to the left',
    demo=fmt(r'"|a||c|\n|-|-|-|\n|x|y|z|\n"', r'assert_eq!(out.lines().next().unwrap(), "| a   |     | c   |");'))
bug('b14-mark-narrow', 'C14', [('src/table.rs', '''                Alignment::Center => {
                    // :-:
''', '''                Alignment::Center if *width == 4 => format!("{:->1$}", ":", width),
                Alignment::Center => {
                    // :-:
''')], 'a centred column that is four characters wide', 'the column becomes aligned to the right',
    demo=fmt(r'"|abcd|\n|:-:|\n"', r'assert!(out.contains(":--:"), "{out}");'))
bug('b14-grapheme-cut', 'C14', [('src/table.rs', '''        size = size.saturating_sub(offset);
''', '''        size = size.saturating_sub(offset);
        if offset > 0 {
            return write!(buffer, " {value:<size$.size$} |");
        }
''')], 'a cell with a character joined from several wide ones', 'the end of the cell is cut off',
    demo=fmt(r'"|a\u{1F469}\u{200D}\u{1F469}\u{200D}\u{1F467}bc|\n|-|\n"', r'assert!(out.contains("bc"), "{out}");'))
bug('b14-row-replaced', 'C14', [('src/table.rs', '''        self.body.push(Vec::with_capacity(self.alignment.len()));
''', '''        match self.body.last_mut() {
            Some(row) if self.write_to_body && row.iter().all(|cell| *cell == "---") => row.clear(),
            _ => self.body.push(Vec::with_capacity(self.alignment.len())),
        }
''')], 'a row of a table whose cells are all three hyphens, with another row after it', 'the row is lost',
    demo=fmt(r'"|a|\n|-|\n|---|\n|b|\n"', r'assert_eq!(out.lines().count(), 4, "{out}");'))
bug('b14-append-last', 'C14', [('src/table.rs', '''        if let Some(cell_value) = row.get_mut(self.col_index) {
            let current_width''', '''        let last = row.len().saturating_sub(1).min(self.col_index);
        let joins = text.starts_with(['*', '_']) && row.get(last).is_some_and(|cell| cell.ends_with(['*', '_']));
        let index = if joins { last } else { self.col_index };
        if let Some(cell_value) = row.get_mut(index) {
            let current_width''')], 'neighbouring cells of a row that end and begin with emphasis', 'the second text is put into the first cell',
    demo=fmt(r'"|a|b|\n|-|-|\n|*x*|*y*|\n"', r'assert!(out.contains("| *x* | *y* |"), "{out}");'))
bug('b14-header-zip', 'C14', [('src/table.rs', '''        for (alignment, width) in self.alignment.iter().zip(self.max_column_width.iter()) {
            let alignment = match alignment {
''', '''        let cells = self.headers.iter().map(|header| header.trim_start_matches('\\\\'));
        for ((alignment, width), cell) in self.alignment.iter().zip(self.max_column_width.iter()).zip(cells) {
            let alignment = match alignment {
                Alignment::Left if cell.starts_with(['-', ':']) => "-".repeat(*width),
''')], 'a column aligned to the left whose header begins with a hyphen or colon', 'the column loses its alignment',
    demo=fmt(r'"|-a|\n|:-|\n"', r'assert!(out.contains(":--"), "{out}");'))
