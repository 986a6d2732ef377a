T = "TLA+ (TLC): "
SCREEN_NOTE = ("Exhaustive for the small model (2x2, 3x1, 1x3 screens, short histories); every explored transition is a test of the "
        "real code (a seeded sample in the quick tier), and random long histories on sizes up to 80x24 are validated by TLC event by "
        "event. Trusts the tokenizer, the terminal model in Ansi.tla and TLC.")
SPAN_NOTE = ("Exhaustive short inputs from the model (a seeded sample in the quick tier) and random long ones; the oracle is the terminal "
        "model of Ansi.tla. Trusts the tokenizer and TLC; no wide or combining characters.")
COLOUR_NOTE = ("Grids and tables exhaustively, random colours beyond; floating-point results are bracketed by exact integer bounds, so a "
        "deviation below the bracket (last digit of luminance) is not seen.")
CLAIMS = {
 "C01": (T + "Screen.tla + Ansi.tla model-checked; recorded draws of the real Screen/Terminal validated as traces", SCREEN_NOTE),
 "C02": (T + "Screen.tla dirty-set model; painted cells and counts of real draws validated as traces", SCREEN_NOTE),
 "C03": (T + "Screen.tla placement rules; model transitions replayed and random traces validated", SCREEN_NOTE),
 "C04": (T + "Screen.tla cursor rules; model transitions replayed and random traces validated", SCREEN_NOTE),
 "C05": (T + "Screen.tla layer compositing in integer arithmetic; all triples of layers replayed, random traces validated", SCREEN_NOTE),
 "C06": (T + "Screen.tla resize/clear; model transitions replayed and random traces validated", SCREEN_NOTE),
 "C13": (T + "Spans.tla (parser, against the SGR terminal of Ansi.tla) model-checked; model walks and random lines replayed, yielded spans validated as traces", SPAN_NOTE),
 "C14": (T + "Spans.tla + Ansi.tla: what a printed span shows; all attribute sets replayed, printed forms validated as traces", SPAN_NOTE),
 "C15": (T + "Spans.tla derivation machine (MCDerive) model-checked; every transition replayed, pools of spans validated as traces", SPAN_NOTE),
 "C16": (T + "Colours.tla (denotation of every description, standard tables); descriptions validated as traces", COLOUR_NOTE),
 "C17": (T + "Colours.tla encodings model-checked on a grid; histories of colour-space switches validated as traces", COLOUR_NOTE),
 "C18": (T + "ColourSpace.tla model-checked over all environments; every transition replayed and random histories validated as traces", "Exhaustive over the listed spellings of the four variables with forcing and two listeners; random histories beyond. Unlisted spellings are not explored."),
 "C19": (T + "Colours.tla exact integer/rational mixing and hue turns model-checked on a grid; results validated as traces", COLOUR_NOTE),
 "C20": (T + "Events.tla model-checked; every transition replayed and random histories validated as traces", "Exhaustive to depth 4 (quick) or 5 for two events and four listeners, random beyond; no change of an event during its emission."),
 "C07": (T + "Resize.tla model-checked; every transition replayed on real Terminals (COLUMNS/LINES and a pty's window size) and random histories validated as traces", "Exhaustive to depth 5 (quick) or 6, random beyond; sizes do not change while listeners run."),
 "C08": (T + "Modes.tla (session of nested contexts, exceptions at any point) model-checked; every transition replayed on a real Terminal and the terminal state its output leads to validated as traces", "Exhaustive to bounded nesting and depth with exceptions from bodies and hooks; random sessions beyond. Same-kind nesting is only required to be clean after the outermost exit; writes that fail while a context is left are not explored."),
 "C09": (T + "Modes.tla title and title-stack rules model-checked; every transition replayed and the streams of random sessions validated as traces", "Exhaustive short histories from the model, random titles beyond; trusts the stream tokenizer."),
 "C10": (T + "Input.tla + KeyTable.tla (keys, the channel of fed and typed text) model-checked with MCInputOps; every transition replayed on a real pty and what getch returns validated as traces", "Every key of the table, histories of feeding, typing and reading exhaustively to a small depth and randomly beyond, UTF-8 and Latin-1 streams; a failure counts only if it recurs in re-runs. Known finding: text before a mouse report in one read."),
 "C11": (T + "Input.tla (grammar and meaning of SGR mouse reports) against parse_mouse_event and getch; results validated as traces", "All button codes 0..259 with both terminators, a list of malformed and foreign sequences and random mutations of reports; positions sampled."),
 "C12": (T + "MCInput.tla micro-step model of a read (change settings, wait, read, signal, restore) with safety and liveness; reads on a real pty with time-outs, interrupts and exceptions, validated as traces", "Exhaustive for the model; the real reader is interrupted while it waits and at the instant the settings were changed, from many initial tty settings. An interrupt during the restoring call itself is not explored."),
 "C22": (T + "Query.tla (questions, replies, what is remembered) model-checked; every transition replayed on a pty whose terminal is played by the driver, and validated as traces", "Exhaustive short histories over the reply shapes of the model, random channel values, sizes and malformed replies beyond; a failure counts only if it recurs in re-runs. Colour queries are always answered with something."),
 "C21": (T + "Svg.tla (what an SVG shows, painter's algorithm on the cell grid) over Screen.tla, model-checked; histories replayed and the exported images of real screens validated as traces", "Exhaustive short histories on 2x2, 3x1, 1x3 screens, random ones up to 14x10 (80x24 in the thorough tier). Trusts an XML parser and a small reader of the CSS in use; whole font sizes, no control characters."),
 "C23": (T + "Cli.tla (output of the tools, over Query, Input, Colours and ColourSpace) model-checked; runs of the real tools on a pty in worlds of the model and random ones, validated as traces", "Worlds reachable by two changes (quick, sampled) or three, random ones beyond. The hues of the colour strip are not judged, nor how unknown escape sequences are shown without --raw; a failure counts only if it recurs in re-runs."),
 "C24": (T + "Timeout.tla (code under a limit) model-checked; sequences of limits of the model and random ones run under the real timeout, validated as traces", "Sequences of two (quick, sampled) or three limits, random ones of up to five. Steps that end within 60 ms before the limit or 30 ms after are not judged, nor are runs which the machine delayed by more than 30 ms; limits are not nested; a failure counts only if it recurs in re-runs."),
}
