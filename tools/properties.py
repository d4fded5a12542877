prop('C03', 'The command line tool writes only the formatted file, or only stdout',
     'For every file and every outcome, the command line tool reads exactly the file it is given and, when reading and formatting succeed, delivers exactly the formatted text once: over that same file without `--stdout`, and to standard output (leaving every file untouched) with `--stdout`. If reading or formatting fails the file is never created, truncated or written, and any failed step makes the tool exit with an error.',
     ['inputs', 'fault_sequences'], 'every file content, every combination of options, every failing read, format or write',
     'No test runs the binary at all; the failing steps (unreadable file, formatting error, full disk) cannot be sampled by the fixture tests.',
     ['src/main.rs'], [('read, format, then a single output step guarded by the stdout option', 'src/main.rs')],
     ['the input file after the run', 'standard output', 'exit status'],
     claim=('abstract interpretation of the driver\'s MIR over effect histories',
            'Every path of main through every local callee is analysed with values tracked symbolically; std I/O calls are trusted to do what they document; diagnostics printed by the logging layer at the user\'s request are not counted as output.'))

prop('C01', 'Formatting is a deterministic function of text, settings and callback',
     'For a given input text, settings and code-block callback the formatted text is always the same: it does not depend on what was formatted before (by the same formatter, another one, or another thread), on the environment, the clock, the file system, addresses or hash seeds. Formatting itself reads and writes nothing outside its arguments and result, apart from diagnostics.',
     ['inputs', 'histories', 'configurations'], 'every input, every history of earlier calls in the process, every environment',
     'Tests compare single calls on sample files in one environment; a leaked counter, cache, hash order or environment read only shows across calls, processes or machines.',
     ['src/formatter.rs', 'src/lib.rs', 'src/paragraph.rs', 'src/config.rs'],
     [('formatting state is created per call', 'src/formatter.rs'), ('statics are constants or argument-free lazies', 'src/paragraph.rs')],
     ['the returned string of repeated and concurrent calls'],
     claim=('effect system over resolved MIR calls, statics and captures, plus settings neutrality by abstract interpretation',
            'Every call site reachable from the public API is classified; dependencies named in the assumptions are trusted to be deterministic; which diagnostics are emitted is not decided.'))

prop('C02', 'Formatting leaves the formatter\'s own settings as they were',
     'After any formatting call ends, normally, with an error, or by a panic raised in a user\'s code-block callback, at any depth of nested markdown code blocks, the formatter\'s settings are exactly what they were when the call began, so the next call behaves as if the earlier one had not happened.',
     ['inputs', 'histories', 'fault_sequences'], 'every input, every sequence of calls on one formatter, every point at which a callback panics',
     'Tests never reuse a formatter after nested code blocks or after a panicking callback.',
     ['src/formatter.rs', 'src/config.rs'], [('the max width is narrowed for a nested code block and restored by a guard', 'src/formatter.rs')],
     ['output of a later call on the same formatter'], [('max width setting', 'narrowed while a code block is formatted', 'src/formatter.rs')],
     claim=('abstract interpretation with unwind edges: the settings cell holds its entry value on every exit',
            'All functions that can write a settings cell, and everything between them and the entry point, are analysed on normal and unwinding exits; nested formatting calls are covered by induction.'))

prop('C04', 'Options set by the caller reach formatting unchanged, and defaults are inert',
     'Each builder setter (max width, reflow, code-block callback) stores exactly the value it is given and changes nothing else, building and the convenience functions format with exactly those settings, and the defaults are: no max width, no reflow, and a callback that returns its code unchanged. The command line passes `-m`/`--max-width N` and `-r`/`--reflow-text` on as exactly these settings, each working independently of the other, and neither has any effect when not given.',
     ['configurations'], 'every value and order of settings, through the library and the command line',
     'Tests set options through a test-only setter, never through the command line, and with a handful of values.',
     ['src/builder.rs', 'src/lib.rs', 'src/main.rs', 'src/config.rs'],
     [('builder setters and build', 'src/builder.rs'), ('derived argument parser', 'src/main.rs')],
     ['formatted output as a function of the options'],
     claim=('abstract interpretation of setters, driver and argument-parser construction to terms, compared with the specification',
            'Each path of each setter, of the driver and of the generated argument definition is evaluated symbolically; clap is trusted to implement the definition.'))

prop('C05', 'Formatting never reports an error',
     'Formatting returns formatted text, never an error, for every text, every combination of settings and every code-block callback, through the formatter and through the convenience functions alike.',
     ['inputs', 'configurations'], 'every text and every settings combination',
     'The tests unwrap results for a few hundred sample documents; an error returned for a rare construct or a rare width needs exactly that input.',
     ['src/formatter.rs', 'src/writer.rs', 'src/lib.rs'], [('error values only ever travel up from text sinks that accept everything', 'src/writer.rs')],
     ['the result of formatting'],
     claim=('error-origin analysis over resolved MIR calls and constants',
            'Every function reachable from the public API; writing to a String and displaying std text types are trusted to succeed. Panics are a different matter and not decided here.'))

prop('C06', 'A callback may use the same formatter again while it runs',
     'While a code-block callback runs, and while a nested markdown code block is formatted, no part of the formatter is locked or borrowed: the callback may call the same formatter again, to any depth and on any text, without a panic or a deadlock.',
     ['histories', 'inputs'], 'every text given to the nested call, every depth of re-entry, every settings combination',
     'No test has a callback that uses its own formatter.',
     ['src/formatter.rs'], [('settings are read out before the callback runs', 'src/formatter.rs')],
     ['the nested call returns'], [('settings cell', 'borrowed only while one value is copied in or out', 'src/formatter.rs')],
     claim=('guard-liveness dataflow over MIR with a resolved call graph',
            'Regions in which a borrow or lock guard of the settings is alive, on normal and unwinding edges, may not reach the callback, formatting, or a conflicting borrow.'))

prop('C07', 'A construct that ends leaves no trace in the nesting state',
     'When a block quote, list, list item, code block, heading, paragraph, link, image, footnote definition, table or HTML block ends, the formatter\'s open line prefix, open containers and open buffers are exactly what they were when it began (only the trailing blank of a quote marker may differ), and all other input leaves them alone. So whatever follows a construct, at any depth, is written with the prefix of its own containers: none left over, none missing, and no text in another construct\'s buffer.',
     ['inputs'], 'every document, every nesting and order of constructs',
     'The fixture documents nest a few constructs two or three deep; an unbalanced prefix needs one particular construct, state and successor.',
     ['src/formatter.rs', 'src/header.rs', 'src/footnote.rs', 'src/writer.rs'],
     [('stacks of line prefixes, open constructs and open buffers', 'src/formatter.rs')],
     ['prefixes of the output lines after any construct'],
     [('prefix stack, context stack, buffer stack', 'pushed by an opening event and popped by its closing event', 'src/formatter.rs')],
     claim=('typestate pairing by abstract interpretation of one formatting step per event kind',
            'Each construct\'s opening step is analysed from an unknown state and its closing step from each result; proper nesting of the parser\'s events is trusted; by induction this covers documents of any size.'))
prop('C08', 'Every piece of content reaches the output once and unchanged',
     'Text, code spans, inline HTML, HTML block lines, thematic breaks, footnote references, task markers and line breaks are handed to the output exactly once, as they stand in the input: text keeps its entities and spelling (only in HTML blocks, or where the source is empty, is the parser\'s text used), multi-line code and HTML keep all their lines in order, a footnote reference keeps its label, a task its state, a hard break its kind. Nothing is added but escaping backslashes, line ends, line prefixes and blanks at a line\'s end; nothing is taken off but the containers\' line prefixes and blanks at a line\'s end.',
     ['inputs'], 'every document and every kind of content, in every context',
     'Fixtures contain a few spellings of each kind of content; losing, doubling or rewriting a piece may need one context, line ending or spelling.',
     ['src/formatter.rs', 'src/utils.rs'],
     [('what the handlers of the content events write', 'src/formatter.rs'), ('cutting text into lines, taking prefixes off', 'src/utils.rs')],
     ['the text of the output'],
     claim=('abstract interpretation of one formatting step per content event; written text as symbolic terms over the input',
            'All paths of each handler from an unknown state, loops as bodies per element; std text functions and the parser\'s ranges are trusted; when escapes are needed is not judged.'))

prop('C09', 'What is written into an open construct comes out of it whole',
     'While a heading, paragraph, link, table, footnote or code block is open, everything written goes into the innermost one, which keeps each text once, whole and in order: it may add one backslash as an escape, a link may drop blanks before its text and turn a line break into a blank, and a paragraph being reflowed may turn blank text into one blank. When a paragraph, footnote, link or image ends, its text is written once, with all lines in order; refilling a paragraph to a width changes only blanks and line ends, never inside words, and keeps every hard line break.',
     ['inputs', 'configurations'], 'every text written in every order, every width, reflowed or not',
     'Fixtures wrap a few texts at a few widths; what is lost at a line end, after a hard break, at a hyphen or for one kind of event needs that text, that width and that option together.',
     ['src/paragraph.rs', 'src/links.rs', 'src/header.rs', 'src/table.rs', 'src/footnote.rs', 'src/writer.rs', 'src/formatter.rs'],
     [('write methods of the buffers of open constructs', 'src/writer.rs'), ('wrapping and reflowing', 'src/paragraph.rs'), ('link text on one line', 'src/links.rs')],
     ['the words of the output'], [('buffers of open constructs', 'text collected until the construct ends', 'src/formatter.rs')],
     claim=('abstract interpretation of every text sink and of closing steps; texts as symbolic traces',
            'Every path of every write method for every kind of event, from an unknown buffer and text; textwrap::fill is trusted to change blanks only, given options shown not to break words; headings\' and tables\' closing is not part of this property.'))

prop('C10', 'Code block formatting runs once per fenced block and its result is kept',
     'When a fenced code block ends, exactly one thing formats it: the formatter itself, with the max width reduced by the length of the line prefix, if the info string contains `markdown`; otherwise the user\'s callback, once, with the info string, the block\'s text and a context of prefix length and max width as set. The result is what the output contains, line by line, and only a blank one is left out (the text as collected stands in only if formatting it failed). Indented code blocks are written as collected, and no other input runs a callback.',
     ['inputs', 'configurations'], 'every document, nesting of code blocks, width and callback',
     'The tests use a callback that formats rust code in a few flat documents; a second call, a shortened argument or a dropped result needs a particular block, nesting and callback.',
     ['src/formatter.rs', 'src/builder.rs'],
     [('format_code_buffer and write_code_block_buffer', 'src/formatter.rs'), ('the code block\'s buffer and kind', 'src/formatter.rs')],
     ['calls of the callback with their arguments', 'lines of code blocks in the output'],
     claim=('abstract interpretation of the steps that open and close code blocks; calls recorded with symbolic arguments',
            'Every path from an unknown state, buffer and info string; what the text of the block is, which fences surround it and where prefixes go are other properties.'))

prop('C11', 'Constructs open and close with the markers they have in the input',
     'List items keep their bullet, or their number with its leading zeros and its delimiter; emphasis, strong emphasis and strikethrough keep their delimiter characters at both ends; code fences keep their character and length at both ends, and the opening one its info string as spelled, set off by a blank exactly where the input has white space; front matter keeps its delimiter, a footnote definition its label. Block quotes, tables and indented code blocks begin with `>`, `|` and four blanks. Apart from line ends, line prefixes, recovered reference definitions and an HTML comment after a list, nothing else is written where such a construct opens or closes.',
     ['inputs'], 'every document, marker, nesting and position',
     'The fixtures have a few spellings of each marker; a bullet changed in one nesting, a zero lost, an info string cut at one character or a fence that no longer closes its block needs that spelling.',
     ['src/formatter.rs', 'src/list.rs'],
     [('rewrite_marker, start_tag and end_tag', 'src/formatter.rs'), ('reading and writing list markers', 'src/list.rs')],
     ['the markers in the output'],
     claim=('abstract interpretation of the steps opening and closing constructs; predicates evaluated per character',
            'Every path from an unknown state; the search for the end of a marker and the parsing of list markers are analysed, std text functions and the parser\'s ranges trusted; markers of headings, links and table rows are not part.'))

prop('C12', 'Links and images keep their form, text, destination, title and label',
     'Each link and image is written in the form it has in the input: link or image, inline, full reference, collapsed, shortcut, autolink or e-mail, with its text once between the brackets. An inline one has all that stands between its parentheses as spelled there: the destination (in angle brackets where blanks, control characters, unbalanced parentheses or emptiness before a title need them) and the title in the quotes it had; a reference has its label, a leading `^` escaped. Lines after the first lose the surrounding containers\' line prefixes, nothing else.',
     ['inputs'], 'every link, image, destination, title, label and nesting',
     'The fixtures have common spellings of links; a blank in angle brackets, an empty destination, a title with other quotes or a label over two lines in a quote needs that spelling in that place.',
     ['src/formatter.rs', 'src/links.rs'],
     [('opening and closing steps of links and images', 'src/formatter.rs'), ('writing inline links', 'src/links.rs')],
     ['links and images in the output'],
     claim=('abstract interpretation of the steps opening and closing links and of the functions that write them, on symbolic source text',
            'Every path for every kind of link from an unknown state; which brackets, parentheses and quotes the scanning loops find in the source is trusted, what is done with what they find is decided.'))

prop('C13', 'Headings keep their form, level, text and attributes',
     'Each heading is written as number signs of its level, set off by a blank from its text, or, if it was underlined, as the lines of its text followed by the underline as it stands, on a line of its own. Its text comes out once and whole: only blanks at its end are taken off, and number signs and empty braces there are put back escaped where that keeps them in the text (number signs are left out only after blanks, in a heading without attributes). Its attributes follow in braces, all of them, in order, separated by single blanks and set off from the text by a blank or a line end (except after a backslash): the id after `#`, each class after `.`, each attribute with its value.',
     ['inputs'], 'every heading, level, text and set of attributes',
     'The fixtures have few headings with attributes, underlines in containers or number signs at the end; an attribute with an empty value, a backslash before the signs or a carriage return before the underline needs that input.',
     ['src/header.rs', 'src/formatter.rs'],
     [('opening headings and writing their parts', 'src/header.rs'), ('closing headings', 'src/formatter.rs')],
     ['headings in the output'],
     claim=('abstract interpretation of the steps opening and closing headings and of the function finishing their text, for every kind and set of attributes',
            'Every path from an unknown state and text; std text functions and what the parser reports about the heading are trusted; whether empty braces need the escape is not decided.'))

prop('C14', 'Tables keep their cells, rows, columns and alignments',
     'Text written while a table is open goes to the cell being read: into the header row until the first row starts and then into the last row, in the column counted by the cells that have ended in it; an empty cell takes its column too. At its end the table is written once: the header cells on the first line, one marker per column that says its alignment (`---`, `:--`, `--:` or `:-:`) on the second, and then every row in order on a line of its own. Cells are written in order, each with blanks around its text and closed by one `|`, and cells missing at the end of a row as blank ones.',
     ['inputs', 'histories'], 'every table: its alignments, number of rows and cells and their texts',
     'The fixtures have a few small tables; which row and column a text lands in depends on the whole sequence of cells before it, and empty cells, short rows and several texts per cell combine freely.',
     ['src/table.rs', 'src/formatter.rs'],
     [('the state of an open table and its layout', 'src/table.rs'), ('events of rows and cells', 'src/formatter.rs')],
     ['tables in the output'], state=[('TableState', 'header cells, rows and number of the cell being read', 'src/table.rs')],
     claim=('abstract interpretation of every step that can occur in a table and of the functions keeping and laying out its cells',
            'Every step and path from an unknown table without and with rows; column widths are not decided; the parser is trusted to report no more cells in a row than there are columns, std to format as documented.'))

prop('C15', 'The formatter sees every event of the document once and in order',
     'The parser gets the whole input, with the extensions tables, footnotes, strikethrough, task lists, heading attributes and metadata blocks, and the formatter gets every event it reports once, in order and with its source range; only the end of a list is moved back to the end of its last item. Events are added only for stretches of inline content that stand directly in a list item: a paragraph start right before such a stretch, whether it comes first in the item or after a block in it (a heading, list, quote, code block, HTML block, table, footnote definition or thematic break), and a paragraph end right after it, before the item ends or such a block begins. Both added events have the range from the start of the stretch to its end.',
     ['inputs', 'histories'], 'every document, every sequence and nesting of lists, items, blocks and inline content',
     'The fixtures list the events of a few tight lists; which block may follow which inline content at which depth, and whether the stack of items and the queue of events stay in step, are facts about all event sequences.',
     ['src/adapters', 'src/formatter.rs'],
     [('the adapters between parser and formatter', 'src/adapters'), ('where the parser and the formatter are set up', 'src/formatter.rs')],
     ['the events the formatter handles'], state=[('LooseListAdapter', 'items being read and events waiting', 'src/adapters/loose_list.rs')],
     claim=('abstract interpretation of one iteration of each adapter, for every pair of neighbouring event kinds and every state of the innermost item',
            'Every combination of kinds, from an unknown queue and stack; the invariant that the stack holds an entry per open item is inductive over these steps; the parser is trusted to report tight items\' text without paragraphs.'))

prop('C16', 'Link reference definitions between the blocks are written once and complete',
     'The stretches of source the parser reports no event for - before a block or thematic break begins, from the start of a list item, quote or footnote definition to its first event or end, and at the end of these and of the document - are searched for link reference definitions, and every definition found there is written once, in order. A written definition has its label, its destination, in angle brackets if it stood in them, and its title, in the quotes or parentheses it had. Of label and title all lines that are not blank are kept, joined by single blanks, and a backslash is added only where the text would end on an open escape.',
     ['inputs', 'histories'], 'every document, every sequence and nesting of blocks with definitions before, between, inside and after them',
     'The fixtures hold definitions in a few places of a few documents; whether each gap between two events is searched exactly once depends on every pair of neighbouring events and on where the step before left the formatter.',
     ['src/formatter.rs', 'src/links.rs'],
     [('the searches at the start and end of blocks and of the document', 'src/formatter.rs'), ('writing a definition, its lines, destination and title', 'src/links.rs')],
     ['the definitions in the output'], state=[('last_position', 'up to where the source has been dealt with', 'src/formatter.rs')],
     claim=('abstract interpretation of one step of the formatting loop per event kind, with the list of definitions found in a stretch of source unknown',
            'Every event kind and, for containers, representative next events; lists of any length; label and title lines up to three. Finding the definitions inside a stretch of source, and where each ends, is trusted (a scanner over characters).'))

prop('C17', 'A backslash escapes exactly the next character when text is scanned',
     'Where text is scanned character by character with a flag that a backslash raises - link labels, destinations, titles and brackets, and the question whether a text ends on an open escape - the flag is up after a character exactly if that character is a backslash that is not itself escaped. A character that comes after the flag was raised is taken for text, whatever delimiter it would be, and a line ending puts the flag down.',
     ['inputs'], 'every text, every state of the scan and every next character',
     'Runs of backslashes, and backslashes at the ends of labels, lines and titles, are sampled a few times; the scanners keep state across characters, and any combination of state and character can go wrong alone.',
     ['src/links.rs', 'src/utils.rs'],
     [('the scanner for link reference definitions and the two bracket scanners', 'src/links.rs'), ('is_char_esacped, sequence_ends_on_escape', 'src/utils.rs')],
     ['the labels, destinations and titles in the output'], state=[('is_escaped, was_last_escape', 'the character before is an unescaped backslash', 'src/links.rs')],
     claim=('abstract interpretation of one iteration of every scanning loop, from every reachable combination of its flags and phases, and of every fold over characters',
            'Every loop that asks an iterator over characters or bytes for the next one, assigns a named flag or state, and knows the backslash; next characters: the backslash, each character the function compares with, and any other. Positions and text are unknown; searches by the standard library and by slices compared by hand are not covered.'))

# ---------------------------------------------------------------- stated, not decided by static analysis
prop('C90', 'Formatting formatted text changes nothing',
     'For every text and settings, formatting the output of formatting with the same settings gives that output again.',
     ['inputs', 'configurations'], 'every text, every settings combination',
     'The fixture tests format their expected output again for a few hundred documents; other documents are not sampled.',
     ['src/formatter.rs', 'src/paragraph.rs', 'src/links.rs', 'src/table.rs'], [('the whole formatting loop', 'src/formatter.rs')],
     ['output of a second run'],
     na='Relates two runs through the parser\'s reading of arbitrary output text; no static argument in reach models pulldown-cmark on symbolic documents (and it is false for rare inputs such as ">\\u{a0}", see DESIGN.md).')
prop('C91', 'Formatting keeps the document\'s structure and rendering',
     'The formatted text parses to the same structure of blocks and inlines, with the same content, as the input.',
     ['inputs', 'configurations'], 'every document, width and reflow setting',
     'The tests compare text for samples and never compare parse trees; blank lines, escapes and re-wrapped lines can change how any other document is read.',
     ['src/formatter.rs', 'src/escape.rs', 'src/paragraph.rs', 'src/adapters'], [('escaping, blank lines and line prefixes together', 'src/formatter.rs')],
     ['parse tree of input and output'],
     na='Whether output text re-parses to the same tree depends on the CommonMark grammar over unbounded text; the parts with a static argument (nesting, content, markers, buffers, code blocks) are C07 to C13.')
prop('C92', 'Formatting never panics',
     'No text, settings or well-behaved callback makes formatting panic.',
     ['inputs', 'configurations'], 'every text and settings combination',
     'Slicing, unwrapping and unreachable arms are exercised by sample documents only.',
     ['src/formatter.rs', 'src/links.rs', 'src/list.rs', 'src/table.rs'], [('about two hundred slice, unwrap and unreachable sites', 'src/formatter.rs')],
     ['the call returns'],
     na='Most of its slices and expects depend on what byte ranges and event orders pulldown-cmark produces; proving them needs invariants of the parser (rare violations of which do panic, see DESIGN.md).')
prop('C93', 'Wrapped lines are no wider than the configured width',
     'With a max width, every line of a paragraph that has a blank to break at is at most that wide, prefix included.',
     ['inputs', 'configurations'], 'every paragraph, nesting and width',
     'A few paragraphs at a few widths are sampled.',
     ['src/paragraph.rs', 'src/formatter.rs'], [('width handed to textwrap', 'src/paragraph.rs')],
     ['line lengths of the output'],
     na='Display widths of unbounded text are a runtime quantity; prefixes of footnotes and block quotes are not part of the width handed to textwrap either, so no static bound exists.')
prop('C94', 'Formatting time grows moderately with the input',
     'Formatting takes time roughly proportional to the size of the input (at worst with nesting depth).',
     ['inputs'], 'every input',
     'All fixtures are small.',
     ['src/formatter.rs', 'src/links.rs'], [('per-event scans of input ranges', 'src/formatter.rs')],
     ['time'],
     na='A quantitative bound on runtime over unbounded inputs, dependencies included; no static cost analysis for this code is in reach.')
