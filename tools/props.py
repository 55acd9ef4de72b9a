NOTES = "technique: Verus contracts on functions copied mechanically out of /repo on every run (tools/vx); the same text is also compiled and run by a bounded harness that supplies failing inputs and stands in, labelled bounded, where an edit takes a function out of the verifier's dialect. See DESIGN.md."
SH = "ogma-shell/interface/"
IO = "ogma/src/lang/impls/intrinsics/io.rs"
PIPE = "ogma/src/lang/impls/intrinsics/pipeline.rs"
MORPH = "ogma/src/lang/impls/intrinsics/morphism.rs"
STD = "Trusts Verus/z3, the extraction (tools/vx), and the assumed contracts on std listed in the evidence (string/char operations the dialect lacks)."
PROPS = [
dict(id="S01", title="Input history keeps the newest entries, in order, and recall walks them exactly",
 statement="The history holds at most the configured number of evaluated lines, always the most recent ones in the order entered; recalling backward shows ever older lines and stops showing anything new at the oldest, recalling forward retraces exactly the same lines, and a newly added line restarts recall at the newest.",
 over=["histories", "inputs", "configurations"], forall="every limit, every sequence of add / recall-back / recall-forward, every line text",
 tests="two unit tests walk one short fixed sequence; the limit, wrap-around and mixed recall orders are unbounded",
 files=[SH+"history.rs"], state=[("buf", "kept lines, newest last or first", "History"), ("pos", "what recall shows", "History")],
 mech=[("History::add/prev/next/truncation", SH+"history.rs"), ("mv_history", SH+"mod.rs")], observe=["line shown in the input after Up/Down"],
 note="Proved for all sequences by induction over contracts: each operation is specified against an abstract list and recall position. "+STD),
dict(id="S02", title="Line editing changes exactly the intended text and nothing else",
 statement="Inserting, deleting left or right, setting or clearing the line changes the text exactly at the cursor and nowhere else, leaves the cursor at the right place between characters, and taking the line returns all of it and leaves the line empty; the text before and after the cursor always joins to the whole line, for any Unicode text.",
 over=["inputs", "histories"], forall="every Unicode line, cursor position and editing operation sequence",
 tests="the tests edit a handful of ASCII lines; multi-byte characters at each position and arbitrary edit orders are not reached",
 files=[SH+"input.rs"], state=[("chs", "characters of the line", "InputBuffer"), ("pos", "cursor in characters", "InputBuffer"), ("buf_pos", "cursor in bytes", "InputBuffer")],
 mech=[("InputBuffer::insert/remove/set/take/…", SH+"input.rs"), ("process_event key table", SH+"mod.rs")], observe=["line and cursor shown", "text given to evaluation"],
 note="Proved for all texts: each operation's postcondition gives the new text and cursor exactly. "+STD),
dict(id="S03", title="Cursor and word motion stay within the line and move as specified",
 statement="Moving the cursor never changes the text and never leaves it outside the line or inside a character; a character step moves by one (or to the end of the line), a word step moves to the next word boundary in its direction, and byte and character cursor positions always agree.",
 over=["inputs", "histories"], forall="every Unicode line, cursor position, step size and motion sequence",
 tests="a few motions on a few ASCII lines; runs of separators, non-ASCII words and huge steps are unreached",
 files=[SH+"input.rs"], mech=[("InputBuffer::move_left/right, word motion, begin/end", SH+"input.rs")], observe=["cursor position"],
 note="Proved for all texts: word boundary is a recursive specification over the characters. "+STD),
dict(id="S04", title="Completion replaces exactly the word being typed",
 statement="The word a completion refers to starts right after the last word separator before the cursor (or at the start of the line) and ends at the cursor, as both byte and character positions, for any text.",
 over=["inputs"], forall="every Unicode line and cursor position on a character boundary",
 tests="one test samples a few ASCII lines",
 files=[SH+"completions.rs"], mech=[("word_start / word position", SH+"completions.rs")], observe=["where completions are drawn and what is replaced"],
 note="Proved for all texts. "+STD),
dict(id="S05", title="Cycling completions replaces the same word and restores what was typed",
 statement="Choosing the next or previous completion replaces exactly the word being completed by that completion and touches nothing else of the line; cycling through every choice and once more restores the word as typed; at most ten choices come from each completer, in the order they arrived.",
 over=["inputs", "histories"], forall="every line, word and list of choices from every set of completers, every order of next/previous and edits between",
 tests="no test cycles; stale lists after an edit and non-ASCII words are not reached",
 files=[SH+"completions.rs", SH+"mod.rs"], state=[("items", "choices received", "Completions"), ("high", "the chosen one", "Completions")],
 mech=[("Completions::next/prev/recv", SH+"completions.rs"), ("mv_completions, events_cycle reset on edit", SH+"mod.rs")], observe=["line after Tab / Shift-Tab"],
 note="Proved over contracts of Completions, InputBuffer and the key handlers, with the invariant that a held list belongs to the current line. The worker threads are outside: the channel is modelled as an arbitrary queue of answers. "+STD),
dict(id="S06", title="Answers to an outdated completion request are never shown",
 statement="After the line changes or completions are dismissed, an answer computed for an earlier request is discarded whenever it arrives, so shown choices always belong to the latest request.",
 over=["schedules", "histories"], forall="every interleaving of requests, dismissals and answers arriving late, out of order or never",
 tests="no test has two requests in flight",
 files=[SH+"completions.rs"], state=[("changeset", "request number", "Completions")],
 mech=[("changeset comparison in recv", SH+"completions.rs"), ("reset bumps the changeset", SH+"completions.rs")], observe=["list of choices after late answers"],
 note="Proved: recv's postcondition admits only answers tagged with the current request, and request numbers never repeat (no wrap within 2^64). The channel is an arbitrary queue. "+STD),
dict(id="S07", title="Every key does what the key table says, to the selected tab only",
 statement="Each key event has exactly the effect documented for it on the selected tab (editing, motion, recall, completion, scroll, help, tabs, quit) and none on other tabs; a valid tab is always selected; closing the last tab ends the session; the line evaluated on Enter is the line as it was at Enter.",
 over=["histories", "inputs", "schedules"], forall="every sequence and batching of key, mouse and resize events",
 tests="no stable test covers the event loop",
 files=[SH+"mod.rs"], state=[("tabs", "all tabs", "TermState"), ("idx", "selected tab", "TermState")],
 mech=[("process_event", SH+"mod.rs"), ("events_cycle", SH+"mod.rs"), ("TermState::new_tab/switch_tab/quit_tab", SH+"mod.rs")], observe=["state of every tab", "text given to evaluation", "whether the session ends"],
 note="Proved: process_event is specified by a full key table over abstract tab states with a frame for all other tabs. What drawing and evaluation do is taken from their own contracts, proved in S10 and S13. "+STD),
dict(id="S08", title="Outputs keep the newest results, wrapped for the width, scrolled within bounds",
 statement="The output page shows at most the configured number of results, the most recent ones, newest first, each wrapped for the current width and theme; scrolling moves by the asked number of lines and never beyond the page, a resize keeps it within the page, and a new result returns to the top. The scroll bar stays inside its column, is as long as the share of the page seen (at least one row), starts at the top of the column on the first line and reaches the bottom on the last.",
 over=["histories", "inputs", "configurations"], forall="every limit, width, sequence of results, resizes and scroll amounts (any i32)",
 tests="one test of the scroll bar geometry; limits and scroll arithmetic are not reached",
 files=[SH+"outputs.rs"], state=[("items", "kept outputs", "Outputs"), ("scroll", "first line shown", "Outputs")],
 mech=[("Outputs::add/update_width/height/as_paragraph/scroll", SH+"outputs.rs")], observe=["page drawn"],
 note="Proved against an abstract list of outputs. The scroll bar is proved with its floating-point share kept as an exact fraction (rounding of f32 not modelled, its geometry also run natively). "+STD),
dict(id="S09", title="Wrapped text loses nothing and fits the columns",
 statement="Wrapping a styled text for a width shows every line of the text in order, in one or more rows whose characters joined are exactly that line; no row is wider than the columns unless it is a single character (a tab is shown as four spaces); a trailing newline shows one more empty row.",
 over=["inputs", "configurations"], forall="every text (any Unicode, ANSI styles, newlines), every width including zero",
 tests="two tests sample short ASCII texts (not in the stable set)",
 files=[SH+"mod.rs"], mech=[("convert_coloured_str", SH+"mod.rs")], observe=["rows drawn in input and outputs"],
 note="Proved for all texts given cansi's split of a text into lines and styled pieces and unicode-width's column counts (both assumed functions). "+STD),
dict(id="S10", title="Drawing stays on the screen at any terminal size",
 statement="Drawing succeeds at any terminal size (down to no rows or columns) with any title, prompt, line, outputs, help or completions. Every widget is given an area inside the terminal. The first row shows the tabs, the second the title, then the prompt with the line beside it, wrapped for the columns left and in the current theme, then the output page with the rest of the rows; help and completions are drawn over it, completions with one tag per choice and the chosen one marked. The cursor stands as many columns into the line's rows as the text before it takes (after a line break: at the start of the next row). Drawing changes nothing in any tab but the wrapped text it keeps for its width and theme.",
 over=["inputs", "configurations"], forall="every terminal size below 30000 rows and columns, every state of the shell",
 tests="drawing tests use one 80x50 terminal and are not in the stable set",
 files=[SH+"mod.rs", SH+"outputs.rs"],
 mech=[("draw, draw_frame", SH+"mod.rs"), ("calculate_cursor_offset, text_block, clip", SH+"mod.rs"), ("construct_completion_block/tags", SH+"mod.rs")], observe=["cells of the screen", "cursor on the screen"],
 note="Proved over a model of tui's frame (a list of what was drawn where; tui's own rendering inside an area it is given is trusted, its buffer panics outside the screen). "+STD),
dict(id="S11", title="Text shows in the style its codes give, in the selected theme",
 statement="Every character of a text is shown in the style its ANSI codes give: foreground and background from the 16 colours (bright black is dark grey, white and bright white are white, no colour stays unset), and exactly the attributes given (bold or faint, italic, underline, blink, reversed, hidden, struck out); wrapping never changes a character's style. The dark theme shows a style as it is. The light theme changes only the colours that need it (white to black, magenta to light magenta, light cyan to cyan, light red to red, yellow and light yellow to two browns, light grey to dark grey), foreground and background alike, every other colour and every attribute staying as given.",
 over=["inputs", "configurations"], forall="every text with any codes, every width, both themes, every style",
 tests="two tests convert one colour each and are not in the stable set",
 files=[SH+"theme.rs", SH+"mod.rs"], mech=[("Style::theme, apply, Light", SH+"theme.rs"), ("cnv_span, cnv_colour, convert_coloured_str", SH+"mod.rs")], observe=["style of each character drawn"],
 note="Proved for all texts given cansi's split into styled pieces (assumed); tui's Modifier is modelled as a set of bits. "+STD),
dict(id="S12", title="Every key and resize of the terminal reaches the shell once, in order",
 statement="Every key press (its key and modifiers) and every new size read from the terminal is handed to the shell exactly once, in the order they came, as the event it is; nothing else is handed over. A read that fails hands over nothing and does not end the reading.",
 over=["histories", "schedules", "inputs"], forall="every sequence of terminal events and read errors",
 tests="no test reads events",
 files=[SH+"events.rs"], state=[("tx", "events handed to the shell", "Events::new")],
 mech=[("Event::convert_xt", SH+"events.rs"), ("Events::new (reading thread)", SH+"events.rs"), ("Events::next", SH+"events.rs")], observe=["events given by Events"],
 note="Proved: the body of the reading thread, against the log of events read from crossterm (assumed to give each event once) and of a first-in first-out channel. "+STD),
dict(id="S13", title="Enter evaluates the line once, for its tab, and the shell always comes back",
 statement="Pressing enter evaluates the selected tab's line exactly once, for that tab, empties the line and makes it the newest entry of the tab's history; what it gives (a title, a prompt, completions, an output, each if any) is taken over by that tab, and no other tab changes. During the evaluation ctrl+x, and only it, turns cancellation on. The shell comes back when the evaluation ends, also when it panics.",
 over=["histories", "schedules", "inputs"], forall="every line and tab, every evaluation (success, failure, panic), every key pressed while it runs",
 tests="no test evaluates through the shell",
 files=[SH+"mod.rs"], state=[("tab", "the tab evaluated", "eval"), ("cancel", "cancellation switch", "eval")],
 mech=[("eval", SH+"mod.rs"), ("TabState::update", SH+"mod.rs"), ("events_cycle", SH+"mod.rs")], observe=["lines given to evaluation", "outputs, history, title of each tab", "cancellation switch"],
 note="Proved with the evaluating thread run at some point of the polling loop (sequentialised; its panic ends it without a result). Termination while an evaluation does not end is not claimed. "+STD),
dict(id="R01", title="A batch gives every item its own outcome, stopping exactly when it should",
 statement="Processing a batch gives one outcome per item, at the item's position. Definitions are processed first, in the order listed, then the expressions, each seeing all the definitions, in the order listed unless the batch runs in parallel. A processed item has the outcome (success or failure) of processing that item. Once cancellation is on, no further item is processed, whatever the mode; a fail-fast batch processes nothing (in sequence) after the first failure; otherwise every item is processed. Items not processed read cancelled if the batch was cancelled and outstanding otherwise, and one progress report is sent per processed item, telling the status of every item so far.",
 over=["histories", "schedules", "inputs", "configurations"], forall="every list of items in any order, every fail-fast / parallel setting, cancellation turning on at any moment",
 tests="two batch tests run one file each; cancellation, fail-fast positions and item orders are not reached",
 files=["ogma/src/rt/bat.rs"], state=[("results", "outcome per item position", "process"), ("failure", "an item failed", "process")],
 mech=[("process: stop before each item, definitions then expressions", "ogma/src/rt/bat.rs"), ("report_progress", "ogma/src/rt/bat.rs")], observe=["the returned outcomes", "files written by the items", "progress reports"],
 note="Proved for every batch: process, its item closure and the reporting function are under contract; what processing one definition or expression does is assumed to be some outcome of it. Rayon's parallel map is taken as a loop in which the failure switch and cancellation may turn on between items. "+STD),
dict(id="R02", title="Opening a file gives that file's content, cached or not",
 statement="Opening a file as text or as a table gives the content of the file the path leads to, read as that type: the content it has, or had before a change that has not been reported to the cache yet. Once a change (write, creation, removal, rename) is reported, no later open gives what the file held before it, whatever opens were under way; and no open ever gives the content of another file or a value of another type.",
 over=["histories", "schedules", "inputs"], forall="every sequence of opens, saves, file changes and change reports, in any interleaving of opens with changes and reports, for every spelling of the paths",
 tests="one test changes one file once (and needs a real watcher); names differing by case, aliases of a path, both types of one file, renames, opens overtaken by a change are not reached",
 files=["ogma/src/rt/fscache.rs", IO], state=[("FSCACHE.map", "values by file and type", "FsCache"), ("FSCACHE.changes", "reports so far", "FsCache")],
 mech=[("FsCache::get/insert/remove_path_changes, Key::from, watch_fs", "ogma/src/rt/fscache.rs"), ("open_intrinsic, scrub_filepath, read_file", IO)], observe=["value of open"],
 note="Proved under rely/guarantee: every cached value is fresh or its file has an unreported change; other threads may change files and use the cache between any two accesses. Trusted: the watcher reports each change (notify), std file reading, path resolution, HashMap, parking_lot locks; one root per process. The concurrent harness feeds reports through a stand-in watcher. "+STD),
dict(id="R03", title="Expressions and the shell only reach files inside the root",
 statement="A path given to open, ls or save, or to the shell's cd and run, leads to the place it names relative to the working directory; if that place is outside the root, or for save if any component climbs above the root, the operation fails and nothing outside the root is read, listed, created, overwritten or made the working directory. A path inside the root is accepted (save: one naming a file), and exactly the named file or directory is used.",
 over=["inputs", "configurations"], forall="every path (relative, absolute, any mix of `.`, `..` and names), every working directory below the root, absolute or `.` root",
 tests="two tests try one climbing path each; absolute paths, siblings sharing the root's name, climbing out midway, working directories other than the root are not reached",
 files=[IO, "ogma-shell/lib.rs"], state=[("tabs", "working directory of each tab", "RunState")],
 mech=[("check_below_root, mkdirs, save_intrinsic", IO), ("scrub_filepath, strip_root, open_intrinsic, ls_intrinsic", IO), ("validate_path, change_working_dir, parse_batch", "ogma-shell/lib.rs")], observe=["files touched", "value or error"],
 note="Proved for all paths: every file operation carries the precondition that its path is inside the root. For save containment is lexical, so a symbolic link inside the root that points outside is followed (not claimed); open, ls, cd and run resolve links. Trusted: std path operations as documented; links and directories do not change during one operation. "+STD),
dict(id="R04", title="Reading a batch file gives exactly the items written in it",
 statement="Reading a batch or definition file gives exactly the items written in it. After the comment at its start and its directives, each paragraph (a longest run of lines that are not blank) is one item: the `#` lines it starts with are its comment, the rest, trimmed, is its code; code starting `def-ty ` or `def ` is a definition of the name that follows, anything else an expression, and a paragraph of comments alone is no item. Items keep their order within each kind and carry the line their code starts on. The directives are all those given, in order, and make the batch sequential or fail-fast exactly when they say so. The comment at the start is the first item's exactly when that follows on the next line without directives, otherwise the file's. A file is refused only for a directive or a definition's name that is not accepted or an item beyond line 65535.",
 over=["inputs"], forall="every text: any lines, blank lines of any whitespace, comments, directives and definitions in any arrangement, any line ends",
 tests="the tests read a handful of texts; blank lines with spaces or carriage returns, comments alone, words that start with def, several directive lines, long files are not reached",
 files=["ogma/src/lang/syntax/parse/file.rs", "ogma/src/rt/bat.rs"],
 mech=[("file, doc_comment, split_items", "ogma/src/lang/syntax/parse/file.rs"), ("parse_str, parse_file", "ogma/src/rt/bat.rs")], observe=["the File's and Batch's items, comments, lines and directives, or the error"],
 note="Proved for every text, down to the characters: comments, paragraphs, kinds, lines and order, and the batch made of them. Assumed: parsing one line of directives and the name of a definition are functions of the text they are given (which texts they accept is checked by the harness, bounded); std's lines, trim, strip_prefix as documented. "+STD),
dict(id="T01", title="Sorting and grouping arrange exactly the rows given, in the documented order",
 statement="sort, sort-by, grp and grp-by keep the header and every row whole and exactly once. sort arranges the rows by the named columns in one total order over cells of any kind; sort-by arranges them by the key the expression gives for each row, as the key type's own cmp says; rows with equal keys keep their order. grp and grp-by put every row, in its original order, into exactly one group, rows share a group exactly when their keys are equal, and groups come in key order. A missing column, a failing key expression or a failing cmp is an error, never a wrongly arranged table.",
 over=["inputs", "histories"], forall="every table (any size, any mix of cell kinds), every choice of columns, every key expression and every cmp",
 tests="the tests sort and group a few small fixed tables; mixed kinds, equal keys, NaN, failing keys and comparisons are not reached",
 files=[MORPH, "ogma/src/lang/types.rs"],
 mech=[("sort_table_intrinsic, sort_values, reorder_table", MORPH), ("sortby_table_intrinsic, resolve_trow_expr_par", MORPH), ("GrpByKey, build_table_from_map", MORPH), ("cmp_table_entries", MORPH)], observe=["resulting table or error"],
 note="Proved: sort, sort-by, grp and grp-by (the groups rise by key, each holds the header and exactly the rows of its key in order, every row is in one), the cell order (shown total), the text a cell is keyed by. Assumed: BTreeMap's entry finds or inserts by the key's order; std's sort_by sorts stably when the comparison is a total order, evaluation of an expression gives some value or error. "+STD),
dict(id="T02", title="Selecting rows, columns or characters gives exactly those selected, in order",
 statement="skip, take, nth, rev, len, filter, dedup and pick on tables and strings give exactly the rows, columns or characters they name, whole, unchanged and in order (rev: in reverse), with the header kept where rows are selected. A count beyond the end selects all or nothing and never fails; a count that is not a whole number at least zero is an error. filter keeps a row exactly when its predicate is true for that row, evaluated once on the row itself; a missing column or a failing predicate is an error.",
 over=["inputs", "configurations"], forall="every table and Unicode text, every count up to the largest integer, every predicate and column choice",
 tests="the tests select from a few small tables; counts at and beyond the end, empty tables, multi-byte text and failing predicates are not reached",
 files=[MORPH, PIPE, "ogma/src/lang/impls/intrinsics/mod.rs", "ogma/src/lang/types.rs"],
 mech=[("skip/take/rev intrinsics", MORPH), ("nth/len intrinsics", PIPE), ("FilterTable", MORPH), ("cnv_num_to_uint", "ogma/src/lang/impls/intrinsics/mod.rs"), ("TableRow", "ogma/src/lang/types.rs")], observe=["resulting table, text or number, or error"],
 note="Proved: skip, take, rev, nth, len, dedup, pick, every form of filter, the walk over the rows, and reading a row's cell. Assumed: the row walk in parallel is as good as one after the other; whether two cells are equal is what == says; evaluation of an expression gives some value or error; kserd table operations as documented. "+STD),
dict(id="T03", title="Row-wise computation visits each row once, in order, and changes nothing else",
 statement="map puts into each row's named column the value its expression gives for that row (on the cell, or with --force on the row) and changes nothing else; append adds one column per expression holding each row's value, append-row adds exactly the given row, ren and ren-with change exactly the named headers. fold applies its expression to each row in order, starting from the seed and each time on the result so far; fold-while does the same and stops before the first row where its predicate fails. A missing column, a cell of another type or a failing expression is an error.",
 over=["inputs", "histories"], forall="every table, every expression over rows, every seed and predicate",
 tests="the tests map and fold a few small tables; empty tables, failures midway, predicates ending at each row are not reached",
 files=[MORPH, "ogma/src/lang/types.rs"],
 mech=[("MapTable::doit", MORPH), ("fold_table_intrinsic, fold_while_table_intrinsic", MORPH), ("append, append-row, ren, ren-with", MORPH)], observe=["resulting table or value, or error"],
 note="Proved: map, append, append-row, ren, ren-with, fold, fold-while (against the log of evaluations made), the walk over the rows and reading a row's cell. Assumed: the row walk in parallel is as good as one after the other; evaluation of an expression gives some value or error. "+STD),
dict(id="T04", title="Joining tables keeps every cell and pads only what is missing",
 statement="Adding tables joins them whole. By rows (the default) the second table's rows, without its header, follow the first's; side by side (--cols) the second's columns follow the first's, row by row. With union (the default) every cell of both is kept, cells missing in the narrower or shorter table are nil, and a column only the second table has takes its header from it; with --intersect exactly the columns (by rows) or rows (side by side) that both tables have are kept. No cell moves to another row or column, changes or is lost, for any pair of tables including empty and header-only ones.",
 over=["inputs", "configurations"], forall="every pair of tables, of any sizes and headers, every mode",
 tests="the tests join a few small tables; empty, header-only, wider and longer tables on either side are not reached",
 files=["ogma/src/lang/impls/intrinsics/arithmetic.rs"],
 mech=[("add_table2, add_table_by_row, add_table_by_col", "ogma/src/lang/impls/intrinsics/arithmetic.rs")], observe=["resulting table"],
 note="Proved for all tables, and which mode each flag asks for, over an abstract row-and-cell view of kserd tables (whose operations are assumed as documented). "+STD),
dict(id="T05", title="Making, reading out, writing out and saving values loses nothing",
 statement="`range` gives one column named `i` of the whole numbers from the first up to, but not including, the last, in order (none if the first is not smaller). `Table` gives an empty table with exactly the names given as its header, in order. `get` (and `.`) on a table row gives the cell of the first column so named; given a default, the default when the cell is of another type; given a type, an error then. `to-str` gives the text a value is shown as. `save` writes a text as it is, and a table row by row, one line each, cells separated by commas, nothing for a nil cell, a cell's text in quotes and escaped exactly when it contains a comma, a quote or a line break. A failing or unsuitable argument is an error, not a value.",
 over=["inputs", "configurations"], forall="every bound, name, row, column, default, value and table",
 tests="the tests make, read and save a few small tables; equal and reversed bounds, columns of the same name, cells of other types and texts with commas, quotes or line breaks are hardly reached",
 files=[PIPE, "ogma/src/lang/impls/intrinsics/io.rs", "ogma/src/output/print.rs", "ogma/src/lang/types.rs"],
 mech=[("range_intrinsic, table_intrinsic, table_row_get, get_tabrow_intrinsic, DotOperatorBlock", PIPE), ("write_file", "ogma/src/lang/impls/intrinsics/io.rs"), ("fmt_cell", "ogma/src/output/print.rs")], observe=["resulting value or error", "content of the saved file"],
 note="Proved against the log of evaluations made. Assumed: the text of a number (numfmt, kserd), escaping of characters (escape_debug), kserd's table operations, files are written whole. Not covered: values other than texts and tables being saved. "+STD),
dict(id="E01", title="Evaluation runs left to right and a variable holds what was bound to it",
 statement="An expression accepted by the compiler evaluates its blocks left to right, each on the previous one's output, and gives the last output; the first failure ends it with that error. An argument is the literal, the variable's value, or its expression evaluated on the block's own input. A variable read gives the value of the nearest enclosing binding of that name (let binds in order and passes its input through); bindings inside an argument's expression or a definition never change the caller's variables, and parameters hold the caller's arguments. if takes the branch of the first true condition; Tuple and user types hold their fields in order, and field access gives the named one. A block whose name nothing defines, or is a path, is refused.",
 over=["inputs", "histories"], forall="every expression the compiler accepts, every input value, every nesting, shadowing and definition",
 tests="the tests evaluate a few dozen fixed expressions; combinations of shadowing, nesting, sharing of environments and failures midway are not reached",
 files=["ogma/src/eng/eval.rs", "ogma/src/eng/var.rs", "ogma/src/eng/step.rs", "ogma/src/eng/arg.rs", PIPE, "ogma/src/lang/impls/intrinsics/logic.rs"], state=[("Environment.vars", "values by variable index, shared until written", "Environment")],
 mech=[("Environment, Variable", "ogma/src/eng/var.rs"), ("Step::invoke, Stack::eval, Argument::resolve, CodeInjector", "ogma/src/eng"), ("in, let, Tuple, get, `.`, if", PIPE)], observe=["value or error of an expression"],
 note="Proved for all values and environments: what evaluation does with the compiled steps, arguments and variables. Bounded only (harness): that compilation (scoping, type inference) resolves each name to the nearest binding. Assumed: a step's own function gives some value or error, Arc::make_mut copies when shared. "+STD),
dict(id="E02", title="Operators combine exactly their operands, in order, with the documented meaning",
 statement="The variadic operators (+ - * / min max on numbers, + on text) combine the input and every argument once, left to right; and is true exactly when all its arguments are, or exactly when some is, and arguments after the one that settles it cannot change the result; not negates; ceil, floor, root and is-finite are those of the number. cmp and eq on Bool, Num, Str, Ord and Nil give that type's own order and equality, on tuples those of the first elements that differ, and the comparisons = != < > <= >= agree with them. A failing argument that is evaluated fails the expression.",
 over=["inputs"], forall="every input, every number of arguments, every operand",
 tests="the tests compute a few fixed results; many arguments, operand order, early settling and failing operands are not reached",
 files=["ogma/src/lang/impls/intrinsics/mod.rs", "ogma/src/lang/impls/intrinsics/arithmetic.rs", "ogma/src/lang/impls/intrinsics/logic.rs", "ogma/src/lang/impls/intrinsics/cmp.rs"],
 mech=[("variadic_intrinsic_in_constrained, variadic_intrinsic_in_agnostic", "ogma/src/lang/impls/intrinsics/mod.rs"), ("and, or, not", "ogma/src/lang/impls/intrinsics/logic.rs"), ("cmp, eq", "ogma/src/lang/impls/intrinsics/cmp.rs"), ("min, max, +, - , *, /", "ogma/src/lang/impls/intrinsics/arithmetic.rs")], observe=["value or error of an expression"],
 note="Proved: the combining loops, and/or/not, cmp and eq of the built-in types, min, max, which operation each of + - * / applies, + on text, ceil, floor, is-finite, root. Bounded only (harness): the comparisons defined through cmp, and cmp and eq of tuples (ogma code assembled as text). Floating point arithmetic is that of the machine. "+STD),
dict(id="D01", title="A definition is all or nothing, never replaces a built-in, and decides dispatch",
 statement="A definition that is accepted is available from then on, under its name and input type, with its location and code, and nothing else changes; one that is refused changes nothing. It is refused exactly when it does not parse, an op anywhere in its body or a type it mentions is undefined, it would replace a built-in or a type's initialiser, or (types) the type or an op with an initialiser's name exists or two initialisers share a name. A user definition for the same name and input is replaced. A name used on a type takes the implementation for that type, else the one for any input. clear removes exactly what was defined in the shell and files (only_files: files). A file's types, then its ops, are defined in order up to the first refused. Flags of def count only before the body.",
 over=["inputs", "histories"], forall="every sequence of definitions, clears and file loads",
 tests="the tests define one or two things and look at the result; refusals after other definitions, name clashes, clearing and what else changed are not looked at",
 files=["ogma/src/lang/defs.rs", "ogma/src/lang/impls/mod.rs", "ogma/src/lang/types.rs"],
 mech=[("Implementations::insert_impl, insert_intrinsic, clear, get_impl; Keys", "ogma/src/lang/impls/mod.rs"), ("Types::insert, from_parsed_def", "ogma/src/lang/types.rs"), ("process_definition, assert_all_ops_defined, add_from_str", "ogma/src/lang/defs.rs")], observe=["what process_definition and add_from_str give", "the registry (def --list)", "what an op evaluates to"],
 note="Assumed: which texts the parsers of definitions accept (uninterpreted; the harness checks common ones), HashMap as a map over names and types, type equality by name (as types.rs says), construct_def_table is only formatting. Definitions::new (the built-in set) is outside. "+STD),
dict(id="L01", title="The language server's copy of a document is the client's",
 statement="However the notifications of changes are interleaved, the language server's text of a document equals the client's as of the last version such that it and all versions before it have arrived. Changes are applied version by version, and within one in the order given; each replaces exactly the characters between its two positions (counted in lines and UTF-16 units; past the end of a line means its end, past the last line the end of the text), or the whole text if it has no range. A version older than the one held changes nothing, a change to one document changes no other, one to an unknown document nothing.",
 over=["inputs", "histories", "schedules"], forall="every text, position, list of changes and order of arrival",
 tests="one test converts three positions in short lines; characters of two UTF-16 units, carriage returns, positions past the end and versions out of order are not tested",
 files=["ogma-ls/lib.rs", "ogma-ls/workspace.rs"], state=[("text, version, pending", "the text as of the version, and later changes waiting", "File")],
 mech=[("pos_to_idx, linech_to_idx, lsp_range_to_range", "ogma-ls/lib.rs"), ("File::add_changes, apply_pending, apply_changes", "ogma-ls/workspace.rs")], observe=["the text the server works on"],
 note="Proved for all texts and changes. Assumed: the client sends each version once, and ranges whose ends are in order and between characters (else replace_range panics); std's lines, replace_range, VecDeque. "+STD),
dict(id="L02", title="What an editor is offered fits the place and lists what is there",
 statement="Completion of a line answers for every line, never ending the server. Where a command is expected, or one stands, all commands are offered; where a type is, all types; where a special literal is, the literals; for a term or identifier commands, literals and paths; elsewhere nothing. The paths are exactly the entries of a directory, each as a file or a directory: the one named by the text typed, joined to the working directory, if it exists, else the one it would be in. The text typed starts at a quote left open, otherwise after the last space.",
 over=["inputs", "configurations"], forall="every line, working directory and set of definitions",
 tests="one test checks where the path starts in some lines, all without a space at the end; no test asks for completions",
 files=["ogma-ls/completion.rs"],
 mech=[("get, complete_completions, incomplete_completions, cmpls", "ogma-ls/completion.rs"), ("path_completions, path_component", "ogma-ls/completion.rs")], observe=["completions offered"],
 note="Proved for all lines over what the parser reports. Bounded only (harness): what the parser reports as expected. Assumed: Workspace::impls and types list all commands and types; std's Path and read_dir. "+STD),
dict(id="L03", title="What an editor explains at a place is what stands there",
 statement="The text considered at a line of a document is the paragraph around it (the lines next to it up to blank ones, comment lines at its top left out above the line), whole and in order, with the number of its first line. A syntax tree lists its leaves each once, in order, each with its kind; the node given for a place is one of these leaves and covers it (in a definition, any place before the name gives the word def), and none is given only where no leaf is.",
 over=["inputs"], forall="every document, line, expression and definition, and every place in it",
 tests="no test looks at either",
 files=["ogma-ls/completion.rs", "ogma-ls/workspace.rs"],
 mech=[("Complete::node_at_pos, Complete::append_leaves, is_node", "ogma-ls/completion.rs"), ("Workspace::get_def_text", "ogma-ls/workspace.rs")], observe=["text and node found at a place"],
 note="Proved for all documents and trees; that a place has no node only where no leaf is, for trees whose expressions and blocks extend over their parts. Bounded only (harness): that the parser makes such trees. Assumed: a block gives its operation, terms and extent (IBlock). "+STD),
]
