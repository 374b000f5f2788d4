"""Which harness decides which property."""

CRATES = {
    "conc": {"env": {"RUSTC_BOOTSTRAP": "1", "RUSTC_WRAPPER": "@VERIF@/conc/wrap.sh"},
             "extra": ["conc/Cargo.toml", "conc/Cargo.lock", "conc/wrap.sh", "conc/rt", "conc/bodies"]},
    "mcs": {"env": {"RUSTC_BOOTSTRAP": "1"}, "extra": ["mcs/Cargo.toml", "mcs/Cargo.lock", "stub"]},
    "mc": {"env": {"RUSTC_BOOTSTRAP": "1"}, "extra": ["mc/Cargo.toml", "mc/Cargo.lock"]},
}

STD = ("std",)
SC = ("supports-color",)
STDSC = ("std", "supports-color")
STRIP = ("strip-colors",)
ALL = [f + g for g in ((), STRIP) for f in (STD, (), SC, STDSC)]
RENDER = tuple("render_p%d" % i for i in range(8))
# the two feature sets farthest from plain std
FAR = ((), STDSC + STRIP)
# built as cargo's release profile builds it; the other feature sets with debug assertions and overflow checks, as dev does
PLAIN = ((), SC, STRIP, STDSC + STRIP, ("stub",) + STDSC)
SGR = ("terminals: SGR as in ECMA-48 with the usual 38/48/58 colours, 53/55, 73-75; every SGR code sets or clears single attributes "
       "independently of the prior state, so one summary per text covers every prior state")

MEMORY = ("memory model: C++20 release/acquire and relaxed atomics by views, stores enter the modification order when executed (no load buffering, no 2+2W), "
      "seq_cst modelled as strongly as seq_cst fences; std's precompiled parts run uninterrupted between instrumented operations")
CHECKS = {
    "C01": {
        "runs": [("mc", STD, RENDER + ("render_rt",))] + [("mc", f, ("render_rt",)) for f in FAR],
        "covers": "product of all type representations of the three colour slots x all 8192 effect sets, plus runtime styles over colour "
                  "representatives x 8192 effect sets and every table colour on every slot; each start sequence interpreted by the terminal model",
        "assumptions": [SGR, "colours are represented by a few values per family on the full product, by every table entry on single slots"],
    },
    "C02": {
        "runs": [("mc", STD, RENDER + ("render_rt",))] + [("mc", f, ("render_rt",)) for f in FAR],
        "covers": "the same space as C01; each pair of start and end sequence interpreted by the terminal model",
        "assumptions": [SGR],
    },
    "C03": {
        "runs": [("mc", STD, RENDER + ("render_conv",))] + [("mc", f, ("render_conv",)) for f in FAR],
        "covers": "product of 16 types per slot (29 representations) x 8192 effect sets, each compared with the runtime style of the same colours; "
                  "into_runtime_style over 12^3 type combinations, const_into_runtime_style (also in constants) over every compile-time colour and 8192 effect sets",
        "assumptions": ["compile-time RGB colours are represented by one type on the full product"],
    },
    "C04": {
        "runs": [("mc", STD, ("colors", "colors_rgb"))] + [("mc", f, ("colors", "colors_rgb")) for f in FAR],
        "covers": "every ANSI, Xterm and CSS colour in every form on three layers, all 2^24 RGB values in both runtime forms, 1856 compile-time RGB types (a boundary grid, each component alone, all greys, every CSS and palette colour)",
        "assumptions": ["CSS values: CSS Color Module Level 4 (copied from the npm package color-name)"],
    },
    "C05": {
        "runs": [("mc", f, ("convert",)) for f in (STD,) + FAR],
        "covers": "all paths up to the bound in the graph of conversions from each of 431 compile-time colours; every runtime colour incl. all 2^24 RGB; all pairs of table colours",
        "assumptions": [],
    },
    "C06": {
        "runs": [("mc", f, ("parse",)) for f in (STD,) + FAR],
        "covers": "exhaustive words over full and boundary alphabets, all #rrggbb values, all edits of every name, accepted words with multiples of 256 bytes more (before and after), against the documented grammar",
        "assumptions": ["strings outside the enumerated neighbourhoods (longer than the bounds and not near an accepted word) are represented by the length sweep"],
    },
    "C07": {
        "runs": [("mc", f, ("parse",)) for f in (STD,) + FAR],
        "covers": "exhaustive words over full and keyword alphabets, all two- (thorough: three-) byte mutations of every keyword with tails, keywords with multiples of 256 bytes more, all lengths up to 1800",
        "assumptions": ["byte strings of five and six bytes with more than two (three) bytes outside the keyword alphabet and away from every keyword are not enumerated"],
    },
    "C08": {
        "runs": [("mc", f, ("decide",)) for f in ALL],
        "covers": "all histories of settings, queries, getters and formatting calls up to the bound, each from an untouched process, on several terminal "
                  "assignments and in all eight feature sets; after every prefix the whole decision table is read (queries, and formatting by all nine traits with several options) and compared with the documented precedence; "
                  "190 environments with other programs' variables; long repetitions, and exact counts up to 65536",
        "assumptions": ["what a stream supports is read from isatty (std) or from the supports-color crate itself (supports-color)"],
    },
    "C09": {
        "runs": [("mc", f, ("decide", "streams")) for f in (STD, SC, STDSC, ())] + [("mcs", ("stub",) + f, ("decide",)) for f in (SC, STDSC)],
        "covers": "all query sequences up to the bound from an untouched process, in every assignment of terminals to the standard streams and every listed environment (190 of them with other programs' variables: editors, CI, multiplexers, locales), "
                  "and (with supports-color replaced by a stub) in all 9 x 9 pairs of support answers; lists of up to 300 kinds; stdout and stderr connected to each pair of terminal, pipe, /dev/null, "
                  "/dev/zero, file, socket, hung-up, closed and read-only terminal, with the streams' locks held by nobody, the asker or another thread, and values written to them read back",
        "assumptions": ["what a stream supports is read from isatty (std) or from the supports-color crate itself (supports-color)",
                        "the environment does not change during a history"],
    },
    "C10": {
        "runs": [("mc", f, ("decide",)) for f in (STD, STDSC, STD + STRIP, STDSC + STRIP)],
        "covers": "the full product of values of the four variables x start states, all values up to two bytes of each single variable, words for off and spellings of zero, long values, look-alike variable names",
        "assumptions": ["values of three and more bytes are represented by the listed ones and by runs of zeros"],
    },
    "C19": {
        "runs": [("mc", f, ("decide",)) for f in ALL],
        "covers": "every text of a representative set of styles, colours and types in every global state, environment (190 of them with other programs' variables) and terminal assignment, compared with the "
                  "texts of an untouched process, and between all eight feature sets",
        "assumptions": ["styles are represented by six colours per slot, the effect sets around every branch, and all type representations"],
    },
    "C11": {
        "runs": [("mc", f, ("format", "values")) for f in (STD, (), SC, STD + STRIP)],
        "covers": "full product of formatting options (fill, alignment, sign, alternate, zero padding, debug hex, width, precision) x nine traits and fmt_with x "
                  "8 values (one of them writes down the formatter it is given) x 11 styles x decisions; long values in many pieces; unusual fills, every width and every precision; 150 values of 75 concrete types "
                  "(zero-sized, large, with destructors, shared, unsized behind pointers, styled themselves) x options x styles x traits; all options on apply, clear and clear_all",
        "assumptions": ["combinations of widths, precisions and fills are represented by boundary values"],
    },
    "C12": {
        "technique": "stateless model checking of the real code under a controlled scheduler and memory model, and exhaustive enumeration of reentrant histories",
        "runs": [("conc", f, ("conc",)) for f in (STD, (), SC)] + [("mc", f, ("format",)) for f in (STD, (), SC)],
        "covers": "every schedule and every value a load may return, of programs in which one or two threads format styled (also nested) values while others set "
                  "mode and default stream up to three times (six for the default stream), in two assignments of terminals; and every history in which the value's own formatter or the sink changes the settings in the middle, with several formatting options",
        "assumptions": [MEMORY],
    },
    "C13": {
        "runs": [("mc", f, ("format",)) for f in (STD, (), STRIP, STDSC)],
        "covers": "every fault point: the sink failing at each write (once or for good) or after each byte, the value's formatter failing at each point, for explicit "
                  "sequences of all type representations and runtime styles, styled values by every trait and fmt_with (also with options, and in up to 300 pieces), nested values, and every colour form",
        "assumptions": ["a failing sink accepts nothing of the write that fails; the value's own formatter reports the errors it gets"],
    },
    "C14": {
        "runs": [("mc", f, ("effects",)) for f in (STD,) + FAR],
        "covers": "breadth-first over all 8192 sets, every operation with every effect in each, all pairs, every building sequence up to the bound, and long ones (39 lengths up to 257) with one entry that differs at every place",
        "assumptions": [],
    },
    "C15": {
        "runs": [("mc", f, ("builder",)) for f in (STD,) + FAR],
        "covers": "every method in every state: 27 combinations of slot types x 8192 effect sets x streams; a style has no state but its four public fields (a styled "
                  "value those, the value and the stream), so one step from every state covers every chain",
        "assumptions": ["colour slots are represented by an absent, a compile-time and a runtime colour"],
    },
    "C16": {
        "technique": "stateless model checking of the real code under a controlled scheduler and memory model; outcomes compared with an explicit-state model",
        "runs": [("conc", f, ("conc",)) for f in (STD, (), SC)],
        "covers": "every schedule and every value a load may return, of all programs of two threads with two operations each (eleven operations), three threads with "
                  "1+1+2 of fewer, started from several settings, and focused ones with up to six changes in two assignments of terminals; outcomes (all results and the final settings) compared with two shared registers",
        "assumptions": [MEMORY],
    },
    "C17": {
        "technique": "stateless model checking of the real code under a controlled scheduler and memory model; outcomes compared with single-threaded processes",
        "runs": [("conc", f, ("conc",)) for f in (STD, SC, STDSC)] + [("mc", f, ("streams",)) for f in (STD, SC)],
        "covers": "every schedule and every value a load may return, of programs in which two or three threads ask about Stdout and Stderr with different colour kinds "
                  "for the first time (also while settings change), in two assignments of terminals; and with every set of locks of the standard streams held by "
                  "another thread until the answer is there",
        "assumptions": [MEMORY],
    },
    "C18": {
        "runs": [("mc", f, ("alloc",)) for f in (STD, (), SC, STDSC + STRIP)],
        "covers": "a counting allocator over an exhaustive enumeration: all type representations, runtime styles over six colours per slot x 8192 effect sets, every table "
                  "colour in every form, formatting in every global state by every trait, all short words, every accepted word and long words parsed, long values and deep nesting",
        "assumptions": ["allocation is a call of the global allocator"],
    },
    "C20": {
        "runs": [("mc", f, ("format",)) for f in (STD, SC, STD + STRIP, ())],
        "covers": "every nesting of up to three layers (thorough: and a third of those of four), each layer any of 11 styles on any of 5 streams, in every global state, "
                  "again after a storm of failed writes and panics, with several values side by side in one layer, and in nests up to 300 (thorough: 600) layers deep",
        "assumptions": ["stdout is a 256-colour terminal and stderr is not a terminal (C09 varies this)"],
    },
    "C21": {
        "runs": [("mc", f, ("effects",)) for f in (STD,) + FAR],
        "covers": "every effect's texts, at run time and in constants, and every sequence of effect codes up to the bound, as escapes and as one argument list, "
                  "read by the terminal model from every prior state",
        "assumptions": [SGR],
    },
    "C22": {
        "runs": [("mc", f, ("equal",)) for f in (STD,) + FAR],
        "covers": "all pairs of colours of the tables, all 2^24 RGB colours against their neighbours, all pairs of runtime styles over 14 colours per slot and of effect sets, "
                  "84 x 4 types of styles, clones and copies of styled values, and HashSets of them",
        "assumptions": ["colours of runtime styles are represented by those easily taken for each other, and by every table colour on single slots"],
    },
}
