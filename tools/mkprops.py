#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording of the properties)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe or [], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

p("C01", "A style's start sequence sets exactly what the style asks for",
  "For every style, the text of `Style::apply` is a (possibly empty) run of well-formed SGR escape sequences and nothing else, and a terminal in any prior state that reads it ends with the style's foreground and background colours where the style has them, with each of the style's effects switched on, and with the style's underline colour if and only if the style has one and also has the underline or double-underline effect. Every other terminal attribute keeps its prior value. `is_plain` is true exactly for the styles whose start sequence is empty.",
  ["inputs", "configurations"],
  "every combination of foreground, background and underline colour (absent or any colour of any family), every one of the 8192 effect sets, every way of typing the colours, every prior terminal state",
  "tests/style.rs checks five fixed outputs, each on one path of the specialised writers; the space is colours^3 x 8192 effect sets x type combinations, and the writer has separate branches for zero, one and several effects and for statically known/unknown colours",
  ["src/style.rs", "src/lib.rs", "src/rgb.rs"],
  [("fmt_apply fast paths chosen by Kind and number of effects", "src/style.rs fmt_apply"),
   ("fmt_apply_slow semicolon-joined sequence", "src/style.rs fmt_apply_slow"),
   ("underline colour guarded by ANY_UNDERLINE", "src/style.rs fmt_apply")],
  observe=["Display of Style::apply()", "Style::is_plain"])
p("C02", "A style's end sequence undoes its start sequence and nothing else",
  "For every style, the text of `Style::clear` is a (possibly empty) run of well-formed SGR escape sequences, and a terminal that was in its default state before reading the start sequence is in its default state again after reading the end sequence. The end sequence changes only attributes that the start sequence set (or that ECMA-48 switches off together with one of them, such as bold and dim), and it is empty for a plain style. `Style::clear_all` resets every attribute.",
  ["inputs", "configurations"],
  "every style (colours of every family or absent x 8192 effect sets x every way of typing the colours), every prior terminal state",
  "one test looks at two end sequences of single-colour styles; no test reads an end sequence with effects, an underline colour, or more than one attribute",
  ["src/style.rs", "src/ansi.rs"],
  [("fmt_clear fast paths", "src/style.rs fmt_clear"), ("fmt_clear_slow", "src/style.rs fmt_clear_slow"),
   ("effect table, clear codes", "src/style.rs Effect!")],
  observe=["Display of Style::clear() and Style::clear_all()"])
p("C03", "How a style's colours are typed never changes what it writes",
  "Two styles with the same colours and effects write identical start and end sequences and agree on `is_plain`, whether each colour is a compile-time colour type, the family's runtime type, the type-erased `Color`, or any of these inside `Option`, and whether an absent colour is `NoColor` or `None`. Converting a style with `into_runtime_style` or `const_into_runtime_style` (also during constant evaluation) keeps its colours, its effects and its output.",
  ["inputs", "configurations"],
  "every combination of type representations for the three colour slots x every effect set x representative colours of every family",
  "the specialised code path is chosen by the static types, so each type combination is different code; the tests instantiate three combinations with one effect set each",
  ["src/style.rs", "src/lib.rs"],
  [("Kind::{NeverSome,MaybeSome,AlwaysSome} specialisation", "src/lib.rs OptionalColor, src/style.rs"),
   ("into_runtime_style, const_into_runtime_style", "src/style.rs")],
  observe=["Display of apply()/clear()", "fields of the runtime style"])
p("C04", "Every colour writes its own code on every layer, in every form",
  "For every ANSI, Xterm, CSS and RGB colour and each of foreground, background and underline, the argument text is the standard SGR code of that colour on that layer (ANSI 30-37/90-97/39 and 40-47/100-107/49 and 58;5;n, Xterm 38/48/58;5;n, CSS and RGB 38/48/58;2;r;g;b in plain decimal without padding) and the escape text is that argument text between ESC [ and m. The compile-time constants, the compile-time type, the runtime type, the type-erased `Color` and the formatter-writing functions all agree. A CSS name denotes the RGB value that CSS assigns to it, and an Xterm name, `from_code` and `xterm_from_code!` agree on the code.",
  ["inputs"],
  "17 ANSI, 256 Xterm and 147 CSS colours in every form, all 2^24 RGB values in every runtime form and a covering set of compile-time RGB types, on three layers",
  "tests read four rgb strings and a few ansi ones; each table row and each digit-count combination of the hand-written decimal writers is a separate case, and each layer/form is separate code",
  ["src/ansi.rs", "src/xterm.rs", "src/css.rs", "src/rgb.rs", "src/lib.rs"],
  [("colour tables", "MkAnsiColor!, XTerm!, Css!"), ("RgbBuffer::write_u8 and const_rgb_buffer", "src/rgb.rs"),
   ("Color dispatch", "src/lib.rs impl WriteColor for Color")],
  observe=["ColorSpec and WriteColor methods", "associated constants"])
p("C05", "Converting a colour between its forms keeps its identity and kind",
  "Every chain of conversions that starts from a colour (compile-time type, runtime type, `Color`, `Option<Color>`, Xterm equivalent of one of the 16 palette ANSI colours, RGB equivalent of a CSS colour, code number to Xterm colour) yields the same colour whichever way it goes, distinct colours stay distinct, and no colour stays no colour. Every form reports the colour kind of its family: Ansi, Xterm, Rgb for CSS and RGB, and NoColor for an absent colour.",
  ["inputs", "programs"],
  "every colour of every family, every path in the graph of conversions",
  "no test compares two conversion paths or reads a colour kind; the conversions are some 1500 generated impls",
  ["src/lib.rs", "src/ansi.rs", "src/xterm.rs", "src/css.rs", "src/rgb.rs"],
  [("From impls and DYNAMIC/XTERM/RGB constants", "colour macros"), ("ComptimeColor::VALUE", "colour macros"),
   ("color_kind / ColorSpec::KIND", "src/lib.rs")],
  observe=["From/Into", "ComptimeColor::VALUE", "ColorSpec::into_dynamic", "OptionalColor::get", "color_kind"])
p("C06", "Colour strings parse to exactly the colour they denote, or are rejected",
  "Parsing a string as a `Color` never panics and accepts exactly: `#rrggbb` (hex digits of either case) as that RGB colour, `#x` and `#xx` and one to three decimal digits with value 0 to 255 as the Xterm colour with that code, and the sixteen lower-case ANSI palette names with `bright ` for the bright ones (and `purple` for magenta) as that ANSI colour. Anything else is an error: InvalidHexDigit for a `#` followed by one, two or six bytes that are not all hex digits, U8Overflow for a three-digit number above 255, UnknownColor otherwise.",
  ["inputs"],
  "every string",
  "the doc-test parses four strings; the accepted and rejected sets are unbounded and the boundaries (255/256, byte length versus characters, case, near-miss names) are not sampled",
  ["src/from_str.rs"],
  [("byte-slice match", "src/from_str.rs"), ("parse_hex_digit, merge", "src/from_str.rs")],
  observe=["str::parse::<Color>"])
p("C07", "Mode and stream names parse case-insensitively and nothing else parses",
  "Parsing a byte string or string as a `Mode` accepts exactly the ASCII-case-insensitive spellings of detect, always and never, and as a `Stream` exactly those of stdout, stderr, always and never, each as the named value. Every other input of any length, including keywords with extra, missing or altered bytes, is rejected, and no input panics.",
  ["inputs"],
  "every byte string",
  "the unit tests enumerate the accepted spellings only and never try an input that must be rejected; the SIMD-style masking can accept foreign bytes",
  ["src/mode.rs"],
  [("u64 compare under ASCII_CASE_MASK_SIMD", "src/mode.rs from_ascii_bytes")],
  observe=["Mode::from_ascii_bytes", "Stream::from_ascii_bytes", "FromStr"])
p("C08", "The decision to colour follows the documented precedence in every history",
  "`mode::should_color`, `Style::should_color` and the formatting of a styled value decide by the first rule that applies: the strip-colors feature (no), global mode Always (yes) or Never (no), the value's own stream, otherwise the default stream, where AlwaysColor is yes, NeverColor is no and Stdout/Stderr ask for detection (always yes when neither std nor supports-color is enabled). The getters return the last value set (Detect and AlwaysColor initially; mode Never always under strip-colors), setting one never changes the other, and asking never changes either.",
  ["histories", "configurations"],
  "every sequence of setter and query calls up to the bound, from every reachable global state, under every feature combination, for every per-value stream and list of colour kinds",
  "no test calls should_color with more than one configuration, and the globals are process-wide so tests cannot explore histories in one process",
  ["src/mode.rs", "src/style.rs", "src/value.rs"],
  [("should_color precedence match", "src/mode.rs should_color"), ("Mode/Stream encode/decode", "src/mode.rs")],
  state=[("COLORING_MODE", "global mode", "src/mode.rs"), ("DEFAULT_STREAM", "default stream", "src/mode.rs")],
  observe=["mode::should_color", "Style::should_color", "Display of StyledValue", "get_coloring_mode", "get_default_stream"])
p("C09", "Detection reports each stream's own support, however often and in whatever order",
  "When the decision falls to Stdout or Stderr and the environment does not change, the answer is the same on the first and on every later query, for whichever of the two streams was asked before: with std alone, whether that very stream is a terminal; with supports-color, whether that crate reports support on that very stream for every colour kind asked for (absent colours need none). A style needs the kinds of all three of its colours, so one unsupported colour means the value is not coloured at all.",
  ["histories", "configurations", "inputs"],
  "every combination of terminal/non-terminal stdin, stdout and stderr, every support level, every order of first queries and repeats up to the bound, every list of colour kinds",
  "tests run with one fixed environment and the detection result is cached for the life of the process; the cached path, the second stream and partial support are never reached",
  ["src/mode.rs", "src/style.rs"],
  [("should_color_slow (std)", "src/mode.rs"), ("should_color_slow (supports-color)", "src/mode.rs"), ("ColorSupport encode/decode", "src/mode.rs")],
  state=[("STDOUT_SUPPORT", "cached support of stdout", "src/mode.rs"), ("STDERR_SUPPORT", "cached support of stderr", "src/mode.rs")],
  observe=["mode::should_color", "Style::should_color", "Display of StyledValue"])
p("C10", "Environment variables select the mode by the documented precedence",
  "`Mode::from_env` returns Never if NO_COLOR is set to anything but exactly `0`, else Always if any of ALWAYS_COLOR, CLICOLOR_FORCE and FORCE_COLOR is set to anything but exactly `0` (an empty or non-Unicode value counts as set), else None. `set_coloring_mode_from_env` sets the global mode to that value and leaves it alone when there is none (and does nothing under strip-colors); it never touches the default stream or any other variable's meaning.",
  ["configurations", "histories"],
  "every assignment of unset/0/1/empty/00/other/non-Unicode to the four variables (and unrelated ones), from every global mode and default stream, for sequences of environment changes and calls",
  "no test sets an environment variable",
  ["src/mode.rs"], [("Mode::from_env", "src/mode.rs"), ("set_coloring_mode_from_env", "src/mode.rs")],
  state=[("COLORING_MODE", "global mode", "src/mode.rs")],
  observe=["Mode::from_env", "get_coloring_mode after set_coloring_mode_from_env"])
p("C11", "Formatting a styled value only brackets the value's own formatting",
  "For each of the nine formatting traits and for `fmt_with`, with any fill, alignment, sign, alternate, zero-padding, width, precision and debug-hex options, a styled value that is to be coloured writes its start sequence, then exactly what the value itself writes for that trait with those options, then its end sequence; one that is not to be coloured writes exactly what the value writes. The value's formatter is called exactly once, and formatting options never alter the escape sequences (nor those of `apply`, `clear` and `clear_all` formatted with Display or Debug, nor the colour types' own codes).",
  ["inputs", "configurations"],
  "every trait x every combination of formatting options over small widths/precisions/fills x values of every kind x styles on every writer path x coloured/uncoloured",
  "tests only use `{}` with a `Style`; no styled value is ever formatted with options or through another trait",
  ["src/value.rs", "src/style.rs"],
  [("fmt_with", "src/value.rs"), ("fmt_impl!", "src/value.rs")],
  observe=["fmt of StyledValue", "fmt_with"])
p("C12", "One formatting call makes one colouring decision",
  "Whatever other threads or the value's own formatter do to the global mode and default stream while a styled value is being formatted, the output has either both the start and the end sequence or neither of them, according to the settings in force when that formatting call began (under concurrent changes: to a mode and a default stream that were each in force at some moment of the call).",
  ["schedules", "histories"],
  "every interleaving of a formatting call with setter calls of other threads, and every setter sequence performed by the value's formatter, from every global state",
  "tests are single-threaded with respect to the globals and no value in them touches the settings",
  ["src/value.rs", "src/mode.rs"],
  [("use_colors computed once", "src/value.rs fmt_with")],
  state=[("COLORING_MODE", "global mode", "src/mode.rs"), ("DEFAULT_STREAM", "default stream", "src/mode.rs")],
  observe=["Display of StyledValue"])
p("C13", "Write and formatting errors are reported and stop the output",
  "If the sink fails at any write, or the value's own formatter fails at any point, formatting a styled value (or an apply/clear/clear_all sequence) returns an error, performs no further write, and what the sink accepted is a prefix of the fault-free output; if nothing fails, it returns Ok. No failure causes a panic.",
  ["fault_sequences", "inputs"],
  "every write index of every output at which the sink may fail, and every failure point of the value's formatter, for styles on every writer path and every trait",
  "no test uses a failing sink",
  ["src/value.rs", "src/style.rs", "src/lib.rs", "src/rgb.rs"],
  [("? after every write", "src/style.rs, src/value.rs")],
  observe=["fmt::Result of formatting", "bytes accepted by the sink"])
p("C14", "EffectFlags is a set of effects",
  "From every one of the 8192 sets, adding, removing and toggling an effect (by value or in place) gives exactly the set-theoretic result, and membership, intersection, emptiness, equality, iteration (each member exactly once), Debug, `all`, `new`, `default`, and building from arrays or iterators of effects in any order and with repetitions agree with it.",
  ["histories", "inputs"],
  "every effect set, every operation with every effect, every pair of sets for intersection and equality",
  "no test uses EffectFlags beyond two effects in a builder chain",
  ["src/style.rs"],
  [("bit mask operations", "src/style.rs impl EffectFlags"), ("EffectFlagsIter and Effect::decode", "src/style.rs")],
  state=[("EffectFlags.data", "bit set", "src/style.rs")],
  observe=["EffectFlags methods, iterator and traits"])
p("C15", "Each builder method changes exactly the component it names",
  "In every chain of builder calls on `Style`, `StyledValue` or any value through `Colorize` (borrowing and `into_` forms), each colour, effect or stream method changes exactly its own component to exactly the named value and keeps the wrapped value, the other colours, the other effects and the stream; setters of the whole effect set replace it, and a fresh style or styled value has no colour, no effect and no stream.",
  ["programs", "histories"],
  "every builder method from every reachable style state over a small colour alphabet and all 8192 effect sets, and every method of the trait and of the styled value",
  "the tests call four of about 200 methods; methods come from macro tables in two files that must stay in step",
  ["src/style.rs", "src/value.rs"],
  [("Effect! setters", "src/style.rs"), ("AnsiColorMethods! table", "src/value.rs"), ("struct updates", "src/style.rs, src/value.rs")],
  observe=["fields of Style and StyledValue", "Style::is"])
p("C16", "Global mode and default stream behave as shared registers under threads",
  "However threads interleave, each read of the global mode or default stream (through a getter or a colouring decision) yields the initial value or a value some thread set, no concurrent update of either setting is lost or leaks into the other, and a thread never goes back to a value it has already seen replaced. A thread that observes a setting also observes every setting its author made before it.",
  ["schedules"],
  "every interleaving and every C11 release/acquire-visible read choice of small programs of setters, getters and decisions on two or three threads",
  "cargo tests run one thread against the globals and one hardware schedule; weak-memory outcomes are not visible to them",
  ["src/mode.rs"],
  [("AtomicU8 with Release stores and Acquire loads", "src/mode.rs")],
  state=[("COLORING_MODE", "global mode", "src/mode.rs"), ("DEFAULT_STREAM", "default stream", "src/mode.rs")],
  observe=["get_coloring_mode", "get_default_stream", "should_color"])
p("C17", "Concurrent first use of detection gives every thread the right answer",
  "When several threads ask for colouring decisions on Stdout or Stderr at the same time, including the very first queries of the process and with mode changes in between, every query returns the answer that a single-threaded process in the same environment would get for that query's settings; no thread ever sees a half-finished or wrong stream's detection result.",
  ["schedules", "configurations"],
  "every interleaving and release/acquire read choice of two or three threads with one or two queries each, for every terminal/support configuration of the two streams",
  "the detection cache is filled once per process under one schedule and one environment",
  ["src/mode.rs"],
  [("idempotent detect-then-store on STDOUT_SUPPORT/STDERR_SUPPORT", "src/mode.rs should_color_slow")],
  state=[("STDOUT_SUPPORT", "cached support", "src/mode.rs"), ("STDERR_SUPPORT", "cached support", "src/mode.rs")],
  observe=["mode::should_color", "Display of StyledValue"])
p("C18", "Styling never allocates",
  "Building styles and styled values, writing apply/clear sequences and formatting styled values into a sink that does not allocate, writing any colour, parsing colours, modes and streams, iterating effects, and reading or setting the global settings perform no heap allocation (environment reading and first-time stream detection aside).",
  ["inputs", "configurations"],
  "every style on every writer path, every trait, every colour, all parser inputs of the alphabet, with every feature set",
  "no test counts allocations",
  ["src/style.rs", "src/rgb.rs", "src/value.rs", "src/from_str.rs"],
  [("stack-only RgbBuffer", "src/rgb.rs"), ("static strings", "colour macros")],
  observe=["calls to the global allocator"])
p("C19", "Explicit start and end sequences ignore the colouring settings",
  "`Style::apply`, `Style::clear` and `Style::clear_all`, and the colour types' own writing functions, write the same text whatever the global mode, the default stream, the environment, the terminals and the enabled features (including strip-colors) are.",
  ["configurations", "histories"],
  "every global state x every feature combination x representative styles on every writer path and colours of every family",
  "the style tests run in one global state per feature set",
  ["src/style.rs", "src/mode.rs"],
  [("apply/clear do not consult mode", "src/style.rs")],
  observe=["Display of apply()/clear()/clear_all()", "WriteColor methods"])
p("C20", "Nested styled values are decided and bracketed layer by layer",
  "When a styled value is wrapped in further styled values, each layer writes its own start and end sequence around what it wraps exactly when its own stream (under the global mode and default stream) says so, independently of the streams of the other layers, and the bare value appears exactly once in the middle. Removing all escape sequences from any such output leaves exactly the bare value's output.",
  ["inputs", "configurations"],
  "up to three layers (and two in turn up to hundreds) x every per-layer stream x every global state x styles on every writer path x every trait",
  "no test formats a nested styled value",
  ["src/value.rs"],
  [("StyledValue::style/into_style wrapping", "src/value.rs"), ("fmt_with per layer", "src/value.rs")],
  observe=["Display of nested StyledValue"])
p("C21", "Each effect's own codes switch exactly that effect on and off",
  "For each of the thirteen effects, `Effect::apply_args` and `clear_args` are the standard SGR codes that switch it on and off, and `apply_escape` and `clear_escape` are those between ESC [ and m (also in constants). A terminal in any state that reads any sequence of them, as escapes or as one list of arguments joined by semicolons, has each effect on exactly when the last code about it switched it on, where a code that switches one effect off also switches off those ECMA-48 (or the usual extension) ties to it, and no colour changes. The style with just that effect does the same.",
  ["inputs", "histories"],
  "every effect, every sequence of effect codes up to the bound, every prior terminal state",
  "the tests read the codes of a few effects through a style; no test reads these four functions or any switching-off code",
  ["src/style.rs"],
  [("Effect! table (apply, disable, apply_escape, disable_escape)", "src/style.rs Effect!")],
  observe=["Effect::apply_args, clear_args, apply_escape, clear_escape"])
p("C22", "Styles and colours compare, hash and copy by their components",
  "Two colours are equal exactly when they are of the same family and are the same colour of it (CSS Red and RGB 255,0,0 differ), and two styles of one type exactly when all three colours and the effect sets are equal. Effects, streams, modes, colour kinds and parse errors are equal exactly when they are the same variant. Equality does not depend on how a value was built, `!=` is its negation, equal values hash alike, and copies and clones of styles and styled values (value, style and stream) equal their original.",
  ["inputs"],
  "every pair of colours, every pair of styles (three optional colours x 8192 effect sets), every type of style, every way of building one",
  "the tests compare two or three equal styles and never two that differ, nor a hash or a clone",
  ["src/style.rs", "src/lib.rs", "src/rgb.rs", "src/ansi.rs", "src/xterm.rs", "src/css.rs"],
  [("PartialEq, Hash and Clone of Style, EffectFlags, Color and the colour types", "derives in src/*.rs"),
   ("StyledValue Clone/Copy", "src/lib.rs")],
  observe=["==, != and Hash of the public types", "Clone and Copy"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
