"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A draw makes the display equal to the screen",
  "After any history of writes, bulk writes, clears, resizes and draws, a draw (incremental or full redraw) leaves an ANSI terminal showing in every cell of the screen exactly the glyph, colours and text attributes that were last put there, whatever was drawn before; a full redraw does so even where something else has drawn over the screen. A draw always ends with the terminal's pen reset, so no styling leaks into later output.",
  ["histories", "inputs", "configurations"],
  "all histories of write/write_bulk/clear/resize/draw/redraw whose writes start on a row of the screen, all screen sizes and origins, all styled printable texts",
  "The tests draw a handful of fixed screens once and compare strings; they never replay an incremental draw on top of an earlier display, never resize between draws, and several of them fail on the pinned commit.",
  ["slate/screen.py", "slate/terminal.py"],
  [("change buffer + render", "slate/screen.py Screen.render, ChangeBuffer"), ("cell diff", "slate/screen.py Screen.write_bulk"), ("draw", "slate/terminal.py Terminal.draw")],
  ["the stream handed to Terminal", "the string returned by Screen.render"])
p("C02", "A draw paints only changed cells, and writes count them",
  "An incremental draw paints only cells that a write, clear or resize has changed since the previous draw (or that a forced write touched), and never any place outside the screen's rectangle at its origin; with nothing changed it paints nothing. Each write returns the number of cells it updated: the cells whose content differs from before, or every cell it reached when overwriting is forced.",
  ["histories", "inputs"],
  "all histories of screen operations and draws, all sizes and origins",
  "One fixed write count is asserted (in a test that fails today); no test looks at what a second draw emits or where.",
  ["slate/screen.py", "slate/terminal.py"],
  [("ChangeBuffer", "slate/screen.py ChangeBuffer"), ("new != old cell", "slate/screen.py Screen.write_bulk"), ("contiguous-run elision", "slate/screen.py Screen.render")],
  ["the stream handed to Terminal", "return value of write/write_bulk"])
p("C03", "Written text lands in successive cells, wrapped and clipped",
  "A write puts the characters of its spans in successive cells from the given position, goes on in column 0 of the next row after the last column, moves one row down in the same column at a newline (styled or not), and drops what would fall below the bottom row. Cells it does not reach keep their content, and a start left of, right of or above the screen writes nothing.",
  ["inputs", "histories", "configurations"],
  "all texts, span splits, start positions on or above a screen row, and screen sizes",
  "Tests write at most four characters on one row; wrapping, clipping and newlines are never exercised.",
  ["slate/screen.py", "slate/terminal.py"],
  [("placement loop", "slate/screen.py Screen.write_bulk")],
  ["the display after the next draw"])
p("C04", "Writes without a position continue at the tracked cursor",
  "A write without a position starts at the screen's cursor; after every write the cursor is the place right after the last character placed, wrapped like the text itself. Assigning the cursor moves it, clearing resets it to the top left corner, and drawing and resizing leave it alone.",
  ["histories", "inputs"],
  "all interleavings of positioned and unpositioned writes, cursor assignments, clears, resizes and draws",
  "The only tests of it crash on the pinned commit; none covers wrapping, several spans, or histories.",
  ["slate/screen.py", "slate/terminal.py"],
  [("Screen.cursor", "slate/screen.py Screen.write_bulk, Screen.clear"), ("Terminal.cursor", "slate/terminal.py Terminal.cursor")],
  ["Terminal.cursor / Screen.cursor", "the display after the next draw"])
p("C05", "Layers of one bulk write composite per cell, in order",
  "Within one bulk write a cell shows the last opaque layer put there with the later translucent backgrounds blended over it in write order; earlier layers have no influence. A blank translucent layer lets the glyph beneath show through, tinted, unless the span is marked opaque, a translucent background over nothing is blended over the terminal's background colour, and a translucent foreground is blended over the resulting background.",
  ["inputs"],
  "all lists of overlapping layers with any mix of opaque, translucent and absent colours",
  "The single opacity test fails today and checks two layers in separate writes.",
  ["slate/screen.py", "slate/color.py"],
  [("write_matrix/alpha_matrix", "slate/screen.py Screen.write_bulk"), ("_get_blended", "slate/screen.py _get_blended"), ("Color.blend", "slate/color.py Color.blend")],
  ["the display after the next draw"])
p("C06", "Resizing keeps the shared cells, clearing blanks them all",
  "After a resize every cell that exists in both the old and the new size has its old content, all other cells hold the fill character, and the next draw repaints the whole new screen and nothing outside it, including when cells were pending before the resize. Clearing gives every cell the fill character without colours, and the next draw shows that.",
  ["histories", "inputs"],
  "all sequences of sizes (growing, shrinking, degenerate), with pending and drawn content",
  "One test grows then shrinks a screen and looks at one cell (and fails today); no test draws after a resize.",
  ["slate/screen.py"],
  [("Screen.resize", "slate/screen.py"), ("Screen.clear", "slate/screen.py")],
  ["the display after the next draw"])
p("C07", "Every change of size is announced exactly once",
  "Reading the size, width or height always returns the current terminal size; the first read after the size changed notifies each resize listener exactly once with the new size, after the screen has been resized, and no other read notifies anybody. This also holds when listeners themselves read the size, and after one of them has raised an exception (which reaches the reader).",
  ["histories", "schedules"],
  "all sequences of size changes and reads, and all sets of listeners including ones that read the size back, draw or raise",
  "One test pokes a private field and reads the size once; no listener is ever attached.",
  ["slate/terminal.py", "slate/event.py"],
  [("Terminal.size", "slate/terminal.py"), ("on_resize", "slate/terminal.py Terminal.__post_init__")],
  ["Terminal.size/width/height", "Terminal.on_resize listeners", "the display after the next draw"])
p("C08", "Terminal modes set for a context are always undone",
  "While an alternate-buffer, mouse-reporting, no-echo or batch context is active its mode is on (leaving a nested one of the same kind may turn it off early), and once the outermost one of its kind has been left, normally or by any exception, at any nesting and even when entering it failed half way, the mode is off again, the cursor it hid is visible, every other setting of the tty is as it was, and the exception reaches the caller. Showing the cursor, mouse reporting and the bell send exactly the standard control sequences.",
  ["histories", "fault_sequences", "crash_points"],
  "all nestings of contexts with every kind of exit, and every failing write while entering",
  "All of it is excluded from coverage (no-cov) and untested.",
  ["slate/terminal.py", "slate/core.py"],
  [("context managers", "slate/terminal.py alt_buffer, no_echo, report_mouse, batch"), ("control sequences", "slate/core.py")],
  ["the stream handed to Terminal", "ECHO flag of the tty"])
p("C09", "The original title comes back, and the title stack balances",
  "Setting a title shows it; the title that was there before the first one was set is shown again as soon as the title is set to nothing or the alternate buffer is left, however often titles were set in between, and again for every later round. The terminal's own title stack is left exactly as deep as it was found.",
  ["histories"],
  "all sequences of titles (empty ones included), resets and alternate-buffer contexts",
  "Titles are untested.",
  ["slate/terminal.py", "slate/core.py"],
  [("set_title/alt_buffer", "slate/terminal.py"), ("STORE_TITLE/RESTORE_TITLE", "slate/core.py")],
  ["the stream handed to Terminal"])
p("C10", "Keys are decoded to their names and no input is lost",
  "Reading a key returns everything available, as the documented names of the key when it is a known key sequence and as the raw text otherwise (always raw when asked); the object equals each of its names and nothing else, prints as the first and iterates all. Text that was fed programmatically is returned by the next read, all of it, in order and exactly once, and typed input that was not yet asked for is still there for the next read. Bytes that are no text in the terminal's encoding do not spoil the text around them.",
  ["inputs", "histories"],
  "all known key sequences, all printable (also multi-byte) texts, all interleavings of feeding, typing and reading",
  "All of it is marked no-cov; nothing reads from a tty in the tests.",
  ["slate/core.py", "slate/key_names.py"],
  [("getch", "slate/core.py getch, _getch_posix"), ("feed", "slate/core.py feed"), ("POSIX_KEY_NAMES, NT_KEY_NAMES", "slate/key_names.py"), ("Windows", "slate/core.py _getch_nt")],
  ["return value of getch on a pseudo-terminal"])
p("C11", "Mouse reports decode to event, modifiers and position",
  "Every SGR mouse report of a supported button decodes to the event name with its modifiers (shift, ctrl, option), press/release distinction and the reported column and row. Everything else, including reports of unsupported buttons and other terminal replies with two semicolons, is not taken for a mouse event and never makes decoding fail.",
  ["inputs"],
  "all button codes, positions, terminators and malformed or foreign sequences",
  "A handful of the 72 supported codes are tested, and no malformed one with two semicolons.",
  ["slate/core.py"],
  [("MOUSE_EVENTS/_build_event", "slate/core.py"), ("parse_mouse_event", "slate/core.py")],
  ["return value of parse_mouse_event and getch"])
p("C12", "Reading input leaves the tty settings as they were",
  "Whatever ends a read (input, interrupt, time-out), the tty attributes afterwards are those from before; an interrupt is reported as ctrl-c. A timed read returns the input if some arrives in time and the given default otherwise, and cancels its timer.",
  ["crash_points", "schedules", "fault_sequences"],
  "every instant at which the interrupt or the time-out can hit the waiting read, and all initial tty settings",
  "No test reads from a tty.",
  ["slate/core.py"],
  [("_getch_posix try/finally", "slate/core.py"), ("timeout", "slate/core.py")],
  ["termios attributes of a pseudo-terminal"])
p("C13", "Parsing ANSI text gives the spans a terminal would show",
  "Splitting a line of text with SGR sequences into spans yields every visible character in order and no others, each with exactly the colours and attributes an ANSI terminal would show it with, for text before, between and after sequences, for resets, for sequences in a row and for every supported setter and unsetter. An unsupported code raises ValueError and never anything else.",
  ["inputs"],
  "all sequences of text runs and SGR sequences with supported parameters",
  "Seven fixed lines are tested, none with a reset, a plain prefix, adjacent sequences or codes 28 and 29.",
  ["slate/span.py", "slate/color.py"],
  [("Span.yield_from, _parse_sequence", "slate/span.py"), ("Color.from_ansi", "slate/color.py")],
  ["spans yielded by Span.yield_from"])
p("C14", "A span prints exactly its text in its style and then resets",
  "Printing a span shows exactly its text, every character with the span's colours, attributes and hyperlink, and afterwards the terminal is back in its default state if the span resets (and in the span's style if it does not). Its character list has one entry per character that shows the same thing (each on its own when sequences are always included, without colours when those are excluded), and the computed width of the span and of its printed form is the number of characters.",
  ["inputs"],
  "all texts and combinations of attributes, colours, links and reset settings",
  "About fifteen fixed spans are tested; single-character, non-resetting and combined cases are not.",
  ["slate/span.py", "slate/core.py"],
  [("_generate_sequences/__post_init__", "slate/span.py"), ("get_characters", "slate/span.py"), ("width", "slate/core.py")],
  ["str(span)", "Span.get_characters", "slate.width"])
p("C15", "Deriving a span changes only what was asked for",
  "Slicing, splitting, mutating and the as_... methods give a span with the requested text or attribute and every other attribute (also whether it resets) unchanged, and never alter the original; nothing that is done with a span, including writing it to a screen, changes what it shows later. Joining a split with its separator and concatenating adjacent slices give back the text.",
  ["inputs", "histories"],
  "all spans, slices, separators, mutations and chains of them",
  "One span each is sliced, split and mutated.",
  ["slate/span.py", "slate/screen.py"],
  [("Span.mutate/attrs", "slate/span.py"), ("frozen dataclass", "slate/span.py"), ("get_characters cache", "slate/span.py")],
  ["attributes of the resulting span"])
p("C16", "Colour descriptions denote the right colour or are rejected",
  "A colour description (RGB tuple, hex with or without alpha, CSS or library name, SGR colour body in 16-, 256- or true-colour form, each optionally with alpha) gives the colour it denotes in the standard tables, with the right layer (foreground or background) and alpha, and its hex form is the six digits of its channels. Channels or indices outside 0..255 and unknown names raise ValueError.",
  ["inputs"],
  "all descriptions of every form",
  "Four of the several hundred table entries are tested, all in one form.",
  ["slate/color.py", "slate/color_info.py"],
  [("color, Color.from_ansi, Color.from_hex", "slate/color.py"), ("COLOR_TABLE, NAMED_COLORS", "slate/color_info.py")],
  ["the Color returned"])
p("C17", "Colours are encoded for the colour space in force",
  "A colour is sent as its exact RGB value in true colour, as the nearest uniform 6x6x6 cube index in 256 colours, as the perceptually nearest of the 16 standard colours in standard mode, and as the grey of its perceived lightness under NO_COLOR (always); one that was given in a form the terminal supports is sent as given. The layer is never changed, and a change of the colour space applies to every colour encoded and every span made afterwards (a span keeps the encoding it was made with).",
  ["inputs", "configurations", "histories"],
  "all colours, both layers, all colour spaces and all switches between them",
  "No test looks at the encoding of a translated colour.",
  ["slate/color.py", "slate/core.py", "slate/terminal.py"],
  [("Color.ansi", "slate/color.py"), ("ColorSpace ordering", "slate/core.py")],
  ["Color.ansi, printed spans"])
p("C18", "The colour space follows the environment, unless forced",
  "The colour space is the forced one if one was set, else the one named by SLATE_COLORSYS, else NO_COLOR if that variable exists, else what COLORTERM says, or TERM if that is empty. Forcing one notifies each listener exactly once with the new value (which is in force by then), un-forcing goes back to the environment, and the order of colour spaces is total: standard, no colour, 256 colours, true colour.",
  ["configurations", "histories"],
  "all combinations of the four variables and all sequences of forcing, un-forcing and environment changes",
  "Four environments are tested, one at a time.",
  ["slate/core.py", "slate/terminal.py"],
  [("get_color_space", "slate/core.py"), ("Terminal.color_space", "slate/terminal.py")],
  ["Terminal.color_space", "get_color_space()", "on_color_space_set listeners"])
p("C19", "Mixing colours stays between them and keeps the layer",
  "Blending moves every channel from the first colour towards the second by the given share, with 0 giving the first and 1 the second and never past 0..255; lightening and darkening are blends with white and black. The luminance is that of sRGB and the brightness its CIE lightness; the contrast colour is the dark one (the one given, or off-black and off-white) exactly for bases of luminance above 0.179, the complement of a chromatic colour has its hue turned by half, triads by thirds, and all of these keep the layer of the base.",
  ["inputs"],
  "all pairs of colours and all shares; all bases",
  "Four blends, two contrasts and no palettes are tested.",
  ["slate/color.py"],
  [("Color.blend/lighten/darken", "slate/color.py"), ("calculate_contrast", "slate/color.py"), ("hue_shift/complement/groups", "slate/color.py")],
  ["the Color returned"])
p("C20", "Events call every listener once, in order",
  "Emitting an event calls each registered listener exactly once per registration, in order of registration, with the emitted data, and returns whether any of them returned true. A listener's exception reaches the emitter and later listeners are not called; an emission made by a listener is an emission like any other; adding (+=) something that is not callable is refused with ValueError and changes nothing, and clearing removes all listeners.",
  ["histories"],
  "all sequences of adding, refusing, clearing and emitting, with listeners of every outcome, and several events at once",
  "Each test has one listener and one emission.",
  ["slate/event.py"],
  [("Event.__call__/__iadd__/append/clear", "slate/event.py")],
  ["listener calls", "return value of the emission"])
p("C21", "The SVG export shows the screen cell for cell",
  "The exported SVG is well-formed and places every glyph of the screen at its cell, in order, with the cell's foreground, background and (bold, italic, dim, underline, strike, invert) styling and with the defaults where the cell has none; special characters are escaped. Its size and background match the terminal.",
  ["inputs", "histories"],
  "all screens that writes can produce, including runs of equal glyphs in different colours",
  "Nothing about SVG is tested.",
  ["slate/span.py", "slate/screen.py", "slate/terminal.py"],
  [("Span.group/as_svg/get_svg_styles", "slate/span.py"), ("export_svg_with_styles", "slate/screen.py"), ("export_svg", "slate/terminal.py")],
  ["the string returned by Terminal.export_svg"])
p("C22", "Terminal queries use the reply or fall back",
  "Asking the terminal for its default colours, pixel resolution or synchronized-update support returns what a well-formed reply says, and the documented fallback for a malformed reply, for no reply to a timed query, or when there is no tty. The query sequence is sent exactly once and the answer is remembered for the queries that are cached.",
  ["inputs", "fault_sequences"],
  "all replies, well-formed or not, and missing ones",
  "All of it is marked no-cov; only the length of the default colours is tested without a tty.",
  ["slate/core.py", "slate/terminal.py"],
  [("get_default_color", "slate/core.py"), ("resolution, supports_synchronized_update", "slate/terminal.py")],
  ["Terminal.foreground_color/background_color/resolution/supports_synchronized_update on a pseudo-terminal"])
p("C23", "The command line tools report the terminal as it is",
  "`slate size` shows the columns and rows of the terminal, `slate getch` waits for one key and shows its documented names (a single character, or anything under --raw, as a quoted literal), and `slate debug` shows an aligned table of the environment variables, the size, the colour space in force, synchronized-update support and the default colours as the terminal answered (each colour on its contrast), with every text style shown in that style. Each exits with 0 and leaves the tty settings and the pen as they were; wrong usage exits with 2 and shows nothing on standard output.",
  ["inputs", "configurations"],
  "all keys and texts, sizes, environments, replies of the terminal, and standard input or output being a terminal or not",
  "Nothing of the command line is tested.",
  ["slate/__main__.py", "slate/core.py", "slate/terminal.py"],
  [("run_size, run_getch, run_debug", "slate/__main__.py"), ("main", "slate/__main__.py")],
  ["the output of python -m slate on a pseudo-terminal"])
p("C24", "A time limit ends late code and leaves the rest alone",
  "Code run under `timeout` that ends within its limit is not disturbed: it completes, its result or its exception (of whatever kind) reaches the caller, and no alarm comes later. Code that is still running when the limit is up is ended there and not before, nothing reaches the caller and the program goes on after the block. Either way no timer is left running, for any sequence of limits, fractions of a second included.",
  ["inputs", "histories", "schedules"],
  "all limits, all durations of the code (clearly before or after the limit), all ways it ends, all sequences of limits (limits are not nested)",
  "Marked no-cov; nothing about it is tested.",
  ["slate/core.py"],
  [("timeout", "slate/core.py")],
  ["what code under timeout completed, the exception at the caller, timers left"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
