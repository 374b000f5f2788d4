//! C08, C09, C10, C19: what is coloured, in every history of settings, queries and formatting calls.
//! Every history starts in a process that has not used colorz yet (fork).  Model state: mode, default
//! stream and what each stream supports; each step of the code is compared with the model's step, and the
//! state reached is observed with a battery of queries in a throw-away copy of the process.
use colorz::ansi::{self, AnsiColor};
use colorz::css::{self, CssColor};
use colorz::mode::{self, ColorKind, Mode, Stream};
use colorz::rgb::{Rgb, RgbColor};
use colorz::xterm::{self, XtermColor};
use colorz::{Color, Colorize, Effect, NoColor, OptionalColor, Style, StyledValue};
use mc::os::{in_child, is_tty, log, processes, Ttys};
use mc::report::{property, thorough, Report};
use mc::sink::{esc, Buf};
use mc::storm::{storm, Fault};
use std::fmt::Write;
use std::sync::atomic::Ordering::Relaxed;

const STRIP: bool = cfg!(feature = "strip-colors");
const STD: bool = cfg!(feature = "std");
const SC: bool = cfg!(feature = "supports-color");

const MODES: [Mode; 3] = [Mode::Detect, Mode::Always, Mode::Never];
const STREAMS: [Stream; 4] = [Stream::Stdout, Stream::Stderr, Stream::AlwaysColor, Stream::NeverColor];
const OPT_STREAMS: [Option<Stream>; 5] = [None, Some(Stream::Stdout), Some(Stream::Stderr), Some(Stream::AlwaysColor), Some(Stream::NeverColor)];
const KINDS: [ColorKind; 4] = [ColorKind::Ansi, ColorKind::Xterm, ColorKind::Rgb, ColorKind::NoColor];

fn bit(k: ColorKind) -> u8 {
    match k {
        ColorKind::Ansi => 1,
        ColorKind::Xterm => 2,
        ColorKind::Rgb => 4,
        _ => 0,
    }
}

/// the documented state: what the settings are and what the two streams can do
#[derive(Clone, Copy, Debug)]
struct M {
    mode: Mode,
    default: Stream,
    /// stdout, stderr: bit 0..2 = ansi, xterm, rgb; 15 = everything
    support: [u8; 2],
}

impl M {
    fn get_mode(&self) -> Mode {
        if STRIP {
            Mode::Never
        } else {
            self.mode
        }
    }
    fn color(&self, s: Option<Stream>, need: u8) -> bool {
        if STRIP {
            return false;
        }
        match self.mode {
            Mode::Always => return true,
            Mode::Never => return false,
            Mode::Detect => {}
        }
        let detect = |i: usize| {
            if STD && !SC {
                self.support[i] == 15
            } else {
                need & !self.support[i] == 0
            }
        };
        match s.unwrap_or(self.default) {
            Stream::AlwaysColor => true,
            Stream::NeverColor => false,
            Stream::Stdout => detect(0),
            Stream::Stderr => detect(1),
            _ => unreachable!(),
        }
    }
}

/// what the streams support according to the documentation of the enabled features
fn support_now() -> [u8; 2] {
    #[cfg(feature = "supports-color")]
    return [supports_color::Stream::Stdout, supports_color::Stream::Stderr].map(|s| match supports_color::on(s) {
        None => 0,
        Some(l) => u8::from(l.has_basic) | u8::from(l.has_256) << 1 | u8::from(l.has_16m) << 2,
    });
    #[cfg(not(feature = "supports-color"))]
    if STD {
        return [1, 2].map(|fd| if is_tty(fd) { 15 } else { 0 });
    }
    #[allow(unreachable_code)]
    [15, 15]
}

type B = Buf<512>;

fn text(d: &dyn std::fmt::Display) -> B {
    let mut b = B::new();
    if write!(b, "{d}").is_err() || b.overflow {
        panic!("formatting fails");
    }
    b
}

/// a style of some type, behind one interface
trait S {
    fn should(&self, s: Option<Stream>) -> bool;
    fn should_direct(&self, s: Stream) -> bool;
    fn formatted(&self, s: Option<Stream>) -> B;
    fn bracketed(&self) -> B;
}

impl<F: OptionalColor + Copy, BG: OptionalColor + Copy, U: OptionalColor + Copy> S for Style<F, BG, U> {
    fn should(&self, s: Option<Stream>) -> bool {
        self.should_color(s)
    }
    fn should_direct(&self, s: Stream) -> bool {
        self.should_color(s)
    }
    fn formatted(&self, s: Option<Stream>) -> B {
        text(&StyledValue::new("v", *self, s))
    }
    fn bracketed(&self) -> B {
        let mut b = B::new();
        write!(b, "{}v{}", self.apply(), self.clear()).unwrap();
        b
    }
}

fn rt(f: Option<Color>, b: Option<Color>, u: Option<Color>) -> Box<dyn S> {
    Box::new(Style::new().fg(f).bg(b).underline_color(u).with(Effect::Underline))
}

const COLS: [(Option<Color>, u8); 5] = [
    (None, 0),
    (Some(Color::Ansi(AnsiColor::Red)), 1),
    (Some(Color::Xterm(XtermColor::Aqua)), 2),
    (Some(Color::Css(CssColor::Tomato)), 4),
    (Some(Color::Rgb(RgbColor { red: 1, green: 2, blue: 3 })), 4),
];

/// (style, kinds it needs, name)
fn few_styles() -> Vec<(Box<dyn S>, u8, &'static str)> {
    vec![
        (Box::new(Style::new()), 0, "no colour"),
        (Box::new(Style::new().bold()), 0, "bold"),
        (Box::new(Style::new().fg(ansi::Red)), 1, "fg ansi"),
        (Box::new(Style::new().bg(xterm::Red)), 2, "bg xterm"),
        (Box::new(Style::new().underline_color(Rgb::<1, 2, 3>).with(Effect::Underline)), 4, "underline rgb"),
        (Box::new(Style::new().fg(css::Tomato).bg(AnsiColor::Blue)), 5, "fg css, bg ansi"),
        (Box::new(Style::new().fg(Some(XtermColor::Red)).bg(None::<RgbColor>).underline_color(Color::Ansi(AnsiColor::Red))), 3, "fg some xterm, underline ansi"),
        (Box::new(Style::new().fg(None::<ansi::Red>).bg(NoColor)), 0, "absent ansi"),
        (rt(None, COLS[1].0, COLS[3].0), 5, "runtime bg ansi, underline css"),
    ]
}

fn kind_lists(max: usize) -> Vec<(Vec<ColorKind>, u8)> {
    let mut all = vec![(vec![], 0)];
    let mut from = 0;
    for _ in 0..max {
        let to = all.len();
        for i in from..to {
            for k in KINDS {
                let (mut v, n): (Vec<ColorKind>, u8) = all[i].clone();
                v.push(k);
                all.push((v, n | bit(k)));
            }
        }
        from = to;
    }
    all
}

struct Ctx {
    path: Vec<String>,
    styles: Vec<(Box<dyn S>, u8, &'static str)>,
    lists: Vec<(Vec<ColorKind>, u8)>,
    many: bool,
    ops: Vec<Op>,
}

impl Ctx {
    fn bad(&self, m: &M, what: &str, asked: String, got: &dyn std::fmt::Debug, want: &dyn std::fmt::Debug) {
        log(|l| {
            l.violation(what, || {
                format!("history [{}], settings {m:?} (stdin, stdout, stderr are terminals: {:?}): {asked} gives {got:?} instead of {want:?}", self.path.join("; "), [0, 1, 2].map(is_tty))
            })
        });
    }
    fn getters(&self, m: &M, when: &str) {
        let (g, d) = (mode::get_coloring_mode(), mode::get_default_stream());
        if g != m.get_mode() {
            self.bad(m, &format!("get_coloring_mode is wrong {when}"), "get_coloring_mode()".into(), &g, &m.get_mode());
        }
        if d != m.default {
            self.bad(m, &format!("get_default_stream is wrong {when}"), "get_default_stream()".into(), &d, &m.default);
        }
    }
    fn ask(&self, m: &M, s: Option<Stream>, kinds: &[ColorKind], need: u8) {
        let (got, want) = (mode::should_color(s, kinds), m.color(s, need));
        if got != want {
            self.bad(m, "should_color decides wrongly", format!("should_color({s:?}, {kinds:?})"), &got, &want);
        }
    }
    fn style(&self, m: &M, st: &(Box<dyn S>, u8, &str), s: Option<Stream>) {
        let want = m.color(s, st.1);
        let got = st.0.should(s);
        if got != want {
            self.bad(m, "Style::should_color decides wrongly", format!("style {} should_color({s:?})", st.2), &got, &want);
        }
        if let Some(s) = s {
            let got = st.0.should_direct(s);
            if got != want {
                self.bad(m, "Style::should_color decides wrongly", format!("style {} should_color({s:?} as Stream)", st.2), &got, &want);
            }
        }
    }
    fn format(&self, m: &M, st: &(Box<dyn S>, u8, &str), s: Option<Stream>) {
        let got = st.0.formatted(s);
        let want = if m.color(s, st.1) { st.0.bracketed() } else { text(&"v") };
        if got.bytes() != want.bytes() {
            self.bad(m, "formatting a styled value colours wrongly", format!("value \"v\" in style {} with stream {s:?}", st.2), &esc(got.bytes()), &esc(want.bytes()));
        }
    }
    /// every type representation in every slot, with no, one, an underline and all effects
    fn typed(&self, m: &M) {
        struct V<'a>(&'a Ctx, &'a M);
        impl mc::reps::Visitor for V<'_> {
            fn visit<C: OptionalColor + Send + Sync + 'static>(&mut self, c: C, lc: Option<mc::model::LC>, name: &'static str) {
                use mc::model::LC;
                let need = match lc {
                    None => 0,
                    Some(LC::Ansi(_)) => 1,
                    Some(LC::Xterm(_)) => 2,
                    Some(_) => 4,
                };
                for fx in [0, 1, 8, 16, 0x1fff] {
                    let s = Style::new().effect_flags(mc::model::flags(fx));
                    let a = Style::new().fg(c).bg(ansi::Blue).underline_color(c).effect_flags(mc::model::flags(fx));
                    let all: [(Box<dyn S>, u8); 5] = [
                        (Box::new(s.fg(c)), need),
                        (Box::new(s.bg(c)), need),
                        (Box::new(s.underline_color(c)), need),
                        (Box::new(a), need | 1),
                        (Box::new(s.bg(c.get()).underline_color(c)), need),
                    ];
                    for (i, (st, need)) in all.into_iter().enumerate() {
                        let st = (st, need, name);
                        for s in OPT_STREAMS {
                            self.0.style(self.1, &st, s);
                            if i != 4 || fx == 8 {
                                self.0.format(self.1, &st, s);
                            }
                        }
                    }
                }
            }
        }
        mc::reps::all(&mut V(self, m));
    }
    /// every trait with several formatting options, and fmt_with
    fn ways(&self, m: &M) {
        #[derive(Clone, Copy)]
        struct V;
        macro_rules! all { ($($t:ident)*) => { $( impl std::fmt::$t for V { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("v") } } )* } }
        all!(Display Debug LowerHex UpperHex Octal Binary LowerExp UpperExp Pointer);
        struct W<'a>(&'a dyn Fn(&mut std::fmt::Formatter<'_>) -> std::fmt::Result);
        impl std::fmt::Display for W<'_> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                (self.0)(f)
            }
        }
        let st = Style::new().fg(ansi::Red).bold();
        let on = st.bracketed();
        let off = text(&"v");
        for s in OPT_STREAMS {
            let v = StyledValue::new(V, st, s);
            let want = if m.color(s, 1) { &on } else { &off };
            macro_rules! by { ($($f:literal)*) => { $( {
                let got = text(&format_args!($f, v));
                if got.bytes() != want.bytes() {
                    self.bad(m, "formatting a styled value colours wrongly", format!("value v, red and bold, with stream {s:?}, written by {}", $f), &esc(got.bytes()), &esc(want.bytes()));
                }
            } )* } }
            by!("{}" "{:?}" "{:x}" "{:X}" "{:o}" "{:b}" "{:e}" "{:E}" "{:p}" "{:#}" "{:#?}" "{:#x}" "{:#X}" "{:#o}" "{:#b}" "{:#e}" "{:#E}" "{:#p}"
                "{:5}" "{:>5?}" "{:05x}" "{:05X}" "{:^5o}" "{:*<5b}" "{:+e}" "{:+E}" "{:20p}" "{:.0}" "{:.0?}" "{:.1x}" "{:.3e}" "{:x?}" "{:#X?}");
            let with = W(&|f| v.fmt_with(f, |_, f| f.write_str("v")));
            for got in [text(&with), text(&format_args!("{with:#}")), text(&format_args!("{with:9.0}"))] {
                if got.bytes() != want.bytes() {
                    self.bad(m, "formatting a styled value colours wrongly", format!("value v, red and bold, with stream {s:?}, written by fmt_with"), &esc(got.bytes()), &esc(want.bytes()));
                }
            }
        }
    }
    /// long lists of kinds: one kind among many of another, at the front, in the middle, at the end
    fn long_lists(&self, m: &M) {
        let mut v = vec![];
        for n in (4..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]) {
            for many in KINDS {
                for one in KINDS {
                    for at in [0, n / 2, n - 1] {
                        v.clear();
                        v.resize(n, many);
                        v[at] = one;
                        for s in [Some(Stream::Stdout), Some(Stream::Stderr)] {
                            self.ask(m, s, &v, bit(many) | bit(one));
                        }
                    }
                }
            }
        }
    }
    /// everything that can be observed of the current state
    fn battery(&self, m: &M) {
        self.getters(m, "after a history");
        for s in OPT_STREAMS {
            for (k, need) in &self.lists {
                self.ask(m, s, k, *need);
            }
            for st in &self.styles {
                self.style(m, st, s);
                self.format(m, st, s);
            }
        }
        self.ways(m);
        if self.many {
            self.long_lists(m);
            self.typed(m);
            for f in COLS {
                for b in COLS {
                    for u in COLS {
                        let st = (rt(f.0, b.0, u.0), f.1 | b.1 | u.1, "runtime");
                        for s in OPT_STREAMS {
                            self.style(m, &st, s);
                        }
                        self.format(m, &st, Some(Stream::Stdout));
                        self.format(m, &st, Some(Stream::Stderr));
                    }
                }
            }
        }
        self.getters(m, "after queries");
        log(|l| {
            l.traces.fetch_add(1, Relaxed);
            l.outcome(&(m.mode as u8, m.default, m.support));
        });
    }
    fn explore(&mut self, m: M, depth: usize) {
        log(|l| {
            l.states.fetch_add(1, Relaxed);
        });
        if depth == 0 {
            self.battery(&m);
            return;
        }
        let fail = |c: &Ctx, e: String| log(|l| l.violation(&format!("process {e}"), || format!("history [{}] {e}", c.path.join("; "))));
        if let Err(e) = in_child(20, || self.battery(&m)) {
            fail(self, e);
        }
        for op in self.ops.clone() {
            self.path.push(format!("{op:?}"));
            let r = in_child(600, || {
                let mut m = m;
                op.run(&mut m, self);
                log(|l| {
                    l.transitions.fetch_add(1, Relaxed);
                });
                self.explore(m, depth - 1);
            });
            if let Err(e) = r {
                fail(self, e);
            }
            self.path.pop();
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Mode(Mode),
    Default(Stream),
    Ask(Option<Stream>, usize),
    Style(Option<Stream>, usize),
    Format(Option<Stream>, usize),
    GetMode,
    GetDefault,
    /// formats a value whose own formatter panics, fails, or whose sink fails
    Broken(Option<Stream>, Fault),
    /// the same in another thread
    Elsewhere(&'static Op),
    #[cfg_attr(not(feature = "std"), allow(dead_code))]
    FromEnv,
}

impl Op {
    fn run(self, m: &mut M, c: &Ctx) {
        match self {
            Op::Mode(x) => {
                mode::set_coloring_mode(x);
                m.mode = x;
            }
            Op::Default(s) => {
                mode::set_default_stream(s);
                m.default = s;
            }
            Op::Ask(s, i) => c.ask(m, s, &c.lists[i].0, c.lists[i].1),
            Op::Style(s, i) => c.style(m, &c.styles[i], s),
            Op::Format(s, i) => c.format(m, &c.styles[i], s),
            Op::GetMode => {
                let _ = mode::get_coloring_mode();
            }
            Op::GetDefault => {
                let _ = mode::get_default_stream();
            }
            Op::Broken(s, x) => x.happen(s),
            Op::Elsewhere(o) => {
                struct Send<T>(T);
                // SAFETY: this thread waits for the other one
                unsafe impl<T> std::marker::Send for Send<T> {}
                let x = Send((m, c));
                std::thread::scope(|t| {
                    let run = move || {
                        let x: Send<(&mut M, &Ctx)> = x;
                        o.run(x.0 .0, x.0 .1)
                    };
                    t.spawn(run).join().unwrap()
                })
            }
            Op::FromEnv => {
                #[cfg(feature = "std")]
                {
                    mode::set_coloring_mode_from_env();
                    if let Some(x) = env_mode(&|k| std::env::var_os(k)) {
                        m.mode = x;
                    }
                }
            }
        }
    }
}

/// the documented reading of the environment
#[cfg(feature = "std")]
fn env_mode(get: &dyn Fn(&str) -> Option<std::ffi::OsString>) -> Option<Mode> {
    let set = |k: &str| get(k).is_some_and(|v| v.as_encoded_bytes() != b"0");
    if set("NO_COLOR") {
        Some(Mode::Never)
    } else if set("ALWAYS_COLOR") || set("CLICOLOR_FORCE") || set("FORCE_COLOR") {
        Some(Mode::Always)
    } else {
        None
    }
}

type Env = &'static [(&'static str, &'static str)];
const ENVS: &[Env] = &[
    &[("TERM", "xterm-256color")],
    &[],
    &[("TERM", "xterm")],
    &[("TERM", "dumb")],
    &[("TERM", "xterm-direct")],
    &[("TERM", "xterm"), ("COLORTERM", "truecolor")],
    &[("COLORTERM", "24bit")],
    &[("COLORTERM", "yes")],
    &[("COLORTERM", "truecolor"), ("TERM", "dumb")],
    &[("TERM_PROGRAM", "iTerm.app")],
    &[("TERM_PROGRAM", "Apple_Terminal")],
    &[("FORCE_COLOR", "")],
    &[("FORCE_COLOR", "0")],
    &[("FORCE_COLOR", "0"), ("TERM", "xterm-256color")],
    &[("FORCE_COLOR", "1")],
    &[("FORCE_COLOR", "2")],
    &[("FORCE_COLOR", "3")],
    &[("FORCE_COLOR", "9")],
    &[("FORCE_COLOR", "true")],
    &[("FORCE_COLOR", "false"), ("TERM", "xterm-direct")],
    &[("CLICOLOR_FORCE", "1")],
    &[("CLICOLOR_FORCE", "0"), ("TERM", "xterm-256color")],
    &[("NO_COLOR", "1"), ("TERM", "xterm-256color")],
    &[("NO_COLOR", "0"), ("TERM", "xterm-256color")],
    &[("NO_COLOR", ""), ("TERM", "xterm-256color")],
    &[("NO_COLOR", "1"), ("FORCE_COLOR", "2")],
    &[("ALWAYS_COLOR", "1")],
    &[("CLICOLOR", "1")],
    &[("CLICOLOR", "0"), ("TERM", "xterm-256color")],
    &[("CI", "1")],
    &[("IGNORE_IS_TERMINAL", "1"), ("TERM", "xterm-256color")],
    &[("IGNORE_IS_TERMINAL", "1"), ("COLORTERM", "truecolor")],
    &[("IGNORE_IS_TERMINAL", "0"), ("COLORTERM", "truecolor")],
];

/// variables that other programs look at, one at a time (and all of them together): none of them is colorz's business,
/// though supports-color may go by some
fn surroundings() -> Vec<Vec<(&'static str, &'static str)>> {
    let terms = [
        "", "linux", "vt100", "vt220", "screen", "screen-256color", "tmux", "tmux-256color", "rxvt", "rxvt-unicode-256color", "ansi", "cygwin", "xterm-kitty", "xterm-16color", "xterm-mono", "konsole",
        "alacritty", "foot", "st-256color", "eterm", "emacs", "unknown", "XTERM-256COLOR", "dumb-256color",
    ];
    let others = [
        ("COLORTERM", ""), ("COLORTERM", "truecolor"), ("COLORTERM", "24bit"), ("COLORTERM", "0"), ("COLORTERM", "gnome-terminal"), ("TERM_PROGRAM", "vscode"), ("TERM_PROGRAM", "Hyper"), ("WT_SESSION", "1"),
        ("TMUX", "/tmp/tmux"), ("STY", "1"), ("SSH_CONNECTION", "a 1 b 2"), ("SSH_TTY", "/dev/pts/0"), ("LANG", "C"), ("LC_ALL", "POSIX"), ("COLUMNS", "0"), ("COLUMNS", "20"), ("LINES", "1"),
        ("INSIDE_EMACS", "28.1,comint"), ("EMACS", "t"), ("PAGER", "less"), ("LESS", "-R"), ("CI", "true"), ("CI", "0"), ("CI", "false"), ("GITHUB_ACTIONS", "true"), ("GITLAB_CI", "1"), ("TRAVIS", "1"),
        ("APPVEYOR", "1"), ("TEAMCITY_VERSION", "9.1.0"), ("BUILDKITE", "1"), ("JENKINS_URL", "x"), ("CIRCLECI", "1"), ("KONSOLE_VERSION", "1"), ("VTE_VERSION", "5000"), ("COLORFGBG", "15;0"),
        ("LS_COLORS", ""), ("NO_COLOUR", "1"), ("NOCOLOR", "1"), ("no_color", "1"), ("COLOR", "never"), ("COLOR", "always"), ("COLORZ", "never"), ("COLORZ", "always"), ("COLORZ_MODE", "never"),
        ("COLORZ_COLOR", "0"), ("CARGO_TERM_COLOR", "never"), ("CARGO_TERM_COLOR", "always"), ("RUST_LOG_STYLE", "never"), ("PY_COLORS", "0"), ("ANSICON", "1"), ("ConEmuANSI", "ON"), ("MSYSTEM", "MINGW64"),
        ("DEBUG_COLORS", "1"), ("TF_BUILD", "1"), ("RUST_BACKTRACE", "1"), ("NEXTEST", "1"), ("CLICOLOR", ""), ("CLICOLOR", "0"), ("CLICOLOR", "1"), ("CLICOLOR", "2"), ("CLICOLOR_FORCE", ""), ("CLICOLOR_FORCE", "0"),
        ("CLICOLOR_FORCE", "1"), ("FORCE_COLOR", ""), ("FORCE_COLOR", "0"), ("FORCE_COLOR", "1"), ("FORCE_COLOR", "3"), ("FORCE_HYPERLINK", "1"), ("NO_COLOR", ""), ("NO_COLOR", "0"), ("NO_COLOR", "1"),
        ("ALWAYS_COLOR", ""), ("ALWAYS_COLOR", "0"), ("ALWAYS_COLOR", "1"), ("IGNORE_IS_TERMINAL", "1"), ("IGNORE_IS_TERMINAL", "0"), ("HOME", ""), ("PATH", ""), ("SHELL", ""), ("USER", "root"), ("DISPLAY", ":0"),
    ];
    let mut v: Vec<Vec<_>> = terms.iter().map(|t| vec![("TERM", *t)]).collect();
    v.extend(others.iter().map(|o| vec![*o]));
    v.extend(others.iter().map(|o| vec![*o, ("TERM", "xterm-256color")]));
    v.push(others.to_vec());
    v
}

fn place_env(e: &[(&str, &str)]) {
    for (k, v) in e {
        std::env::set_var(k, v);
    }
}

fn fresh() -> M {
    M { mode: Mode::Detect, default: Stream::AlwaysColor, support: support_now() }
}

fn ctx(lists: usize, many: bool, ops: Vec<Op>, path: String) -> Ctx {
    Ctx { path: vec![path], styles: few_styles(), lists: kind_lists(lists), many, ops }
}

/// stub builds choose the two streams' support; real builds choose the environment
#[derive(Clone, Copy)]
enum World {
    Env(&'static [(&'static str, &'static str)]),
    #[cfg_attr(not(feature = "stub"), allow(dead_code))]
    Stub(u8, u8),
}

fn worlds() -> Vec<World> {
    #[cfg(feature = "stub")]
    return (0..81).map(|i| World::Stub(i / 9, i % 9)).collect();
    #[allow(unreachable_code)]
    ENVS.iter().map(|e| World::Env(e)).collect()
}

impl World {
    fn place(self) -> String {
        match self {
            World::Env(e) => {
                place_env(e);
                format!("environment {e:?}")
            }
            #[allow(unused_variables)]
            World::Stub(a, b) => {
                #[cfg(feature = "stub")]
                {
                    use std::sync::atomic::Ordering::SeqCst;
                    supports_color::LEVEL[0].store(a, SeqCst);
                    supports_color::LEVEL[1].store(b, SeqCst);
                }
                format!("supports-color answers {a} on stdout and {b} on stderr (8: none, bits: basic, 256, 16m)")
            }
        }
    }
}

fn c08(big: bool) -> Report {
    let mut ops: Vec<Op> = vec![];
    ops.extend(MODES.map(Op::Mode));
    ops.extend(STREAMS.map(Op::Default));
    // lists: 0 = [], 1 = [Ansi], 3 = [Rgb]; styles: 2 = fg ansi, 4 = underline rgb
    ops.extend([Op::Ask(None, 1), Op::Ask(Some(Stream::Stdout), 1), Op::Ask(Some(Stream::Stderr), 3), Op::Style(Some(Stream::Stderr), 2), Op::Format(None, 4), Op::GetMode, Op::GetDefault]);
    if STD {
        ops.push(Op::FromEnv);
    }
    let depth = if big { 5 } else { 4 };
    // (environment, terminals): both, stdout only, stderr only, none but stdin; and one with every variable that matters set
    let worlds: Vec<(World, u8)> = vec![
        (World::Env(ENVS[0]), 0b111),
        (World::Env(ENVS[0]), 0b010),
        (World::Env(ENVS[0]), 0b100),
        (World::Env(ENVS[0]), 0b001),
        (World::Env(&[("NO_COLOR", "0"), ("FORCE_COLOR", "3")]), 0b010),
        (World::Env(&[("NO_COLOR", "1")]), 0b110),
    ];
    let worlds = if big { worlds } else { vec![worlds[1], worlds[2], worlds[5]] };
    let firsts = ops.len();
    let ttys = Ttys::new();
    let mut r = processes(
        worlds.len() * (firsts + 1),
        3000,
        |i| format!("job {i} of C08"),
        |i| {
            let (w, tty) = worlds[i / (firsts + 1)];
            ttys.place(tty);
            let p = w.place();
            let mut m = fresh();
            let mut c = ctx(2, false, ops.clone(), p);
            match i % (firsts + 1) {
                0 => c.explore(m, 0),
                f => {
                    let op = ops[f - 1];
                    c.path.push(format!("{op:?}"));
                    op.run(&mut m, &c);
                    log(|l| {
                        l.transitions.fetch_add(1, Relaxed);
                    });
                    c.explore(m, depth - 1);
                }
            }
        },
    );
    // faults and other threads in the history
    let mut more = ops.clone();
    more.extend([
        Op::Broken(None, Fault::ValuePanics),
        Op::Broken(Some(Stream::Stdout), Fault::ValuePanics),
        Op::Broken(Some(Stream::AlwaysColor), Fault::ValueFails),
        Op::Broken(Some(Stream::AlwaysColor), Fault::SinkFails(0)),
        Op::Broken(None, Fault::SinkFails(1)),
        Op::Broken(Some(Stream::AlwaysColor), Fault::SinkPanics(0)),
        Op::Broken(Some(Stream::AlwaysColor), Fault::SinkPanics(3)),
        Op::Elsewhere(&Op::Mode(Mode::Always)),
        Op::Elsewhere(&Op::Mode(Mode::Detect)),
        Op::Elsewhere(&Op::Default(Stream::NeverColor)),
        Op::Elsewhere(&Op::Default(Stream::Stdout)),
        Op::Elsewhere(&Op::Ask(Some(Stream::Stdout), 1)),
        Op::Elsewhere(&Op::Format(None, 4)),
        Op::Elsewhere(&Op::Broken(None, Fault::ValuePanics)),
    ]);
    let n = more.len();
    let depth2 = if big { 4 } else { 3 };
    let x = processes(
        n * worlds.len().min(2),
        3000,
        |i| format!("job {i} of C08, faults and threads"),
        |i| {
            let (w, tty) = worlds[i / n];
            ttys.place(tty);
            let p = w.place();
            let mut m = fresh();
            let mut c = ctx(1, false, more.clone(), p);
            let op = more[i % n];
            c.path.push(format!("{op:?}"));
            op.run(&mut m, &c);
            log(|l| {
                l.transitions.fetch_add(1, Relaxed);
            });
            c.explore(m, depth2 - 1);
        },
    );
    r.merge(x);
    r.bound("operations with faults and other threads", format!("{n}, histories of length {depth2}"));
    // what stands in the environment, and every assignment of terminals
    let envs = surroundings();
    let masks: &[u8] = if big { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0b000, 0b010, 0b100, 0b111] };
    let x = processes(
        envs.len() * masks.len(),
        3000,
        |i| format!("C08, environment {:?}", envs[i / masks.len()]),
        |i| {
            ttys.place(masks[i % masks.len()]);
            let e = &envs[i / masks.len()];
            place_env(e);
            let m = fresh();
            ctx(1, false, ops.clone(), format!("environment {e:?}")).explore(m, 1 + usize::from(big));
        },
    );
    r.merge(x);
    r.bound("environments with other programs' variables", format!("{} x {} assignments of terminals, histories of length {}", envs.len(), masks.len(), 1 + usize::from(big)));
    // long histories: one operation very often, two in turns, then each operation once
    let often = if big { 1_100_000 } else { 70_000 };
    let x = processes(
        n * n,
        3000,
        |i| format!("job {i} of C08, long histories"),
        |i| {
            let (w, tty) = worlds[i % worlds.len()];
            ttys.place(tty);
            let p = w.place();
            let mut m = fresh();
            let mut c = ctx(1, false, more.clone(), p);
            let (a, b) = (more[i / n], more[i % n]);
            let slow = |o: Op| matches!(o, Op::Elsewhere(_) | Op::Broken(..));
            let times = match () {
                () if i / n == i % n => if slow(a) { often / 50 } else { often },
                () => 300,
            };
            c.path.push(format!("{times} times [{a:?}; {b:?}]"));
            for _ in 0..times {
                a.run(&mut m, &c);
                b.run(&mut m, &c);
            }
            log(|l| {
                l.transitions.fetch_add(2 * times, Relaxed);
            });
            c.explore(m, 1);
        },
    );
    r.merge(x);
    r.bound("long histories", format!("every pair of operations in turns (300 times), every operation {often} times (fewer with faults or threads), then each operation once"));
    // one operation, looked at, then another one exactly so many times without a look in between
    let counts: Vec<usize> = [1, 2, 3, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 65_535, 65_536, 65_537].into_iter().filter(|c| big || *c != 65_537).collect();
    let x = processes(
        firsts * firsts,
        3000,
        |i| format!("job {i} of C08, exact counts"),
        |i| {
            let (w, tty) = worlds[i % worlds.len()];
            ttys.place(tty);
            let p = w.place();
            let mut m = fresh();
            let mut c = ctx(1, false, vec![], p);
            let (a, b) = (ops[i / firsts], ops[i % firsts]);
            for &times in &counts {
                a.run(&mut m, &c);
                c.path.push(format!("{a:?}"));
                c.battery(&m);
                for _ in 0..times {
                    b.run(&mut m, &c);
                }
                c.path.push(format!("{times} times {b:?}"));
                c.battery(&m);
            }
            log(|l| {
                l.states.fetch_add(counts.len() as u64, Relaxed);
                l.transitions.fetch_add(counts.iter().sum::<usize>() as u64, Relaxed);
            });
        },
    );
    r.merge(x);
    r.bound("exact counts", format!("every pair of operations: the first, all queries, the second {counts:?} times, all queries"));
    r.bound("operations", format!("{} ({ops:?})", ops.len()));
    r.bound("history length", depth);
    r.bound("environments and terminals", worlds.len());
    r.bound("observed after every history", "getters; 5 streams x 21 kind lists through should_color; 5 streams x 9 styles through Style::should_color and Display");
    r.sample(|| format!("history of {depth} of {ops:?}, each prefix observed with the battery"));
    r
}

fn c09(big: bool) -> Report {
    let ws = worlds();
    // queries of either stream with single kinds, several, none, and through a value
    let q = |s| [Op::Ask(s, 1), Op::Ask(s, 2), Op::Ask(s, 3), Op::Ask(s, 0), Op::Style(s, 5), Op::Format(s, 4)];
    let mut ops: Vec<Op> = vec![];
    ops.extend(q(Some(Stream::Stdout)));
    ops.extend(q(Some(Stream::Stderr)));
    // the same through the default stream
    ops.extend([Op::Default(Stream::Stdout), Op::Default(Stream::Stderr), Op::Ask(None, 3)]);
    let depth = if big { 3 } else { 2 };
    let masks: Vec<u8> = if cfg!(feature = "stub") { vec![0, 7] } else { (0..8).collect() };
    let ttys = Ttys::new();
    let mut r = processes(
        ws.len() * masks.len(),
        3000,
        |i| format!("job {i} of C09"),
        |i| {
            ttys.place(masks[i % masks.len()]);
            let p = ws[i / masks.len()].place();
            let m = fresh();
            ctx(3, true, ops.clone(), p).explore(m, depth);
        },
    );
    if !cfg!(feature = "stub") {
        // the variables supports-color reads, in combination
        let fc = [None, Some("0"), Some("1"), Some("2"), Some("3"), Some("")];
        let nc = [None, Some("0"), Some("1")];
        let term = [None, Some("dumb"), Some("xterm"), Some("screen-256"), Some("x-truecolor")];
        let ct = [None, Some("truecolor"), Some("1")];
        let ig = [None, Some("1"), Some("0")];
        let mut envs: Vec<Vec<(&str, &str)>> = vec![];
        for f in fc {
            for n in nc {
                for t in term {
                    for c in ct {
                        for g in ig {
                            let e = [("FORCE_COLOR", f), ("NO_COLOR", n), ("TERM", t), ("COLORTERM", c), ("IGNORE_IS_TERMINAL", g)];
                            envs.push(e.into_iter().filter_map(|(k, v)| Some((k, v?))).collect());
                        }
                    }
                }
            }
        }
        envs.extend(surroundings());
        let masks: Vec<u8> = if big { (0..8).collect() } else { vec![0b010, 0b101] };
        let depth = usize::from(big);
        let mut x = processes(
            envs.len() * masks.len(),
            600,
            |i| format!("environment {:?}", envs[i / masks.len()]),
            |i| {
                ttys.place(masks[i % masks.len()]);
                let e = &envs[i / masks.len()];
                place_env(e);
                let m = fresh();
                ctx(2, big, ops.clone(), format!("environment {e:?}")).explore(m, depth);
            },
        );
        x.bound("environments in the product", envs.len());
        r.merge(x);
    }
    r.bound("operations", format!("{} ({ops:?})", ops.len()));
    r.bound("query sequences", format!("all up to length {depth}, then the battery (all kind lists up to length 3 on every stream, one kind among up to 300 of another, 125 runtime and 9 typed styles)"));
    r.bound(if cfg!(feature = "stub") { "support answers" } else { "environments" }, ws.len());
    r.bound("assignments of terminals to stdin, stdout, stderr", masks.len());
    r.sample(|| format!("sequence of {depth} of {ops:?} in each world, each prefix observed with the battery"));
    r
}

#[cfg(not(feature = "std"))]
fn c10(_: bool) -> Report {
    panic!("C10 needs std")
}

#[cfg(feature = "std")]
fn c10(big: bool) -> Report {
    use std::ffi::{OsStr, OsString};
    use std::os::unix::ffi::OsStrExt;
    const VARS: [&str; 4] = ["NO_COLOR", "ALWAYS_COLOR", "CLICOLOR_FORCE", "FORCE_COLOR"];
    const NOISE: [&str; 22] = [
        "no_color", "No_Color", "NOCOLOR", "NO_COLOUR", "NO-COLOR", "CLICOLOR", "CLICOLORS_FORCE", "CLI_COLOR_FORCE", "clicolor_force", "always_color", "ALWAYS_COLORS", "ALWAYSCOLOR",
        "force_color", "FORCE_COLORS", "FORCECOLOR", "COLOR", "COLORTERM", "TERM", "TERM_PROGRAM", "CI", "NO_COLOR_", "COLORZ",
    ];
    let base: Vec<&[u8]> = vec![b"", b"0", b"1", b"false", b"00", b" 0", b"0 ", b"\xff"];
    let more: Vec<&[u8]> = vec![b"true", b"no", b"0\xff", b"-0", b"0.0", b"\xef\xbc\x90", b"2", b"o", b"O", b"0\n"];
    let mut values: Vec<Option<OsString>> = vec![None];
    values.extend(base.iter().map(|b| Some(OsStr::from_bytes(b).to_os_string())));
    if big {
        values.extend(more.iter().map(|b| Some(OsStr::from_bytes(b).to_os_string())));
    }
    // single-variable values: all of these, all bytes, all pairs of printable bytes
    let mut single: Vec<OsString> = base.iter().chain(&more).map(|b| OsStr::from_bytes(b).to_os_string()).collect();
    for a in 1..=255u8 {
        single.push(OsStr::from_bytes(&[a]).to_os_string());
        for b in 1..=255u8 {
            if big || (a == b'0' || b == b'0' || (a.is_ascii_graphic() && b.is_ascii_graphic())) {
                single.push(OsStr::from_bytes(&[a, b]).to_os_string());
            }
        }
    }
    single.extend((3..600).map(|n| "0".repeat(n).into()));
    // what others read as false, numbers that are zero, and everything of three bytes around them
    for w in ["false", "no", "off", "never", "none", "null", "nil", "n", "f", "disable", "disabled", "auto", "detect", "always", "true", "yes", "on", "0x0", "0x00", "0.0", "0e0", "+0", "-0", "0b0", "0;", "'0'", "\"0\"", "zero", "\u{ff10}", "\u{660}"] {
        for w in [w.to_string(), w.to_uppercase(), w.chars().take(1).flat_map(char::to_uppercase).chain(w.chars().skip(1)).collect(), format!(" {w}"), format!("{w} ")] {
            single.push(w.into());
        }
    }
    let around = b"0 \t\n\r.+-xXeE1oO\x01\xff";
    for a in around {
        for b in around {
            for c in around {
                single.push(OsStr::from_bytes(&[*a, *b, *c]).to_os_string());
            }
        }
    }
    // lengths that are that of "0" or "" to a counter of 8 or 16 bits
    for n in [255usize, 256, 257, 513, 65535, 65536, 65537] {
        for c in ["0", "1", " ", "x"] {
            single.push(c.repeat(n).into());
            single.push(format!("0{}", c.repeat(n - 1)).into());
            single.push(format!("{}0", c.repeat(n - 1)).into());
        }
    }

    // each job is one long history in one process
    let step = |c: &Ctx, m: &mut M, what: &dyn Fn() -> String| {
        let get = |k: &str| std::env::var_os(k);
        let want = env_mode(&get);
        let got = Mode::from_env();
        if got != want {
            c.bad(m, "Mode::from_env is wrong", format!("{}: Mode::from_env()", what()), &got, &want);
        }
        c.getters(m, "after Mode::from_env");
        mode::set_coloring_mode_from_env();
        if let Some(x) = want {
            m.mode = x;
        }
        let (g, d) = (mode::get_coloring_mode(), mode::get_default_stream());
        if g != m.get_mode() {
            c.bad(m, "set_coloring_mode_from_env sets the wrong mode", format!("{}: get_coloring_mode()", what()), &g, &m.get_mode());
        }
        if d != m.default {
            c.bad(m, "set_coloring_mode_from_env changes the default stream", format!("{}: get_default_stream()", what()), &d, &m.default);
        }
        for s in [None, Some(Stream::AlwaysColor), Some(Stream::NeverColor)] {
            if m.color(s, 0) != mode::should_color(s, &[]) {
                c.bad(m, "should_color disagrees after set_coloring_mode_from_env", what(), &mode::should_color(s, &[]), &m.color(s, 0));
            }
        }
        log(|l| {
            l.states.fetch_add(1, Relaxed);
            l.transitions.fetch_add(2, Relaxed);
            l.traces.fetch_add(1, Relaxed);
            l.outcome(&(want.map(|m| m as u8), m.mode as u8, m.default));
        });
    };
    let put = |k: &str, v: &Option<OsString>| match v {
        None => std::env::remove_var(k),
        Some(v) => std::env::set_var(k, v),
    };
    let snapshot = || {
        let mut v: Vec<(OsString, OsString)> = std::env::vars_os().collect();
        v.sort();
        v
    };
    let n = values.len();
    let ttys = Ttys::new();
    let mut r = processes(
        n * n,
        3000,
        |i| format!("job {i} of C10"),
        |i| {
            ttys.place(if i % 2 == 0 { 0b110 } else { 0 });
            let mut m = fresh();
            m.support = [15, 15];
            let c = ctx(1, false, vec![], "assignments one after the other".into());
            let (a, b) = (&values[i / n], &values[i % n]);
            put(VARS[0], a);
            put(VARS[1], b);
            for x in &values {
                for y in &values {
                    put(VARS[2], x);
                    put(VARS[3], y);
                    let before = snapshot();
                    for start in MODES {
                        for d in [Stream::AlwaysColor, Stream::NeverColor] {
                            mode::set_coloring_mode(start);
                            mode::set_default_stream(d);
                            m.mode = start;
                            m.default = d;
                            step(&c, &mut m, &|| format!("{VARS:?} = {:?}, mode {start:?}, default stream {d:?} before", [a, b, x, y]));
                        }
                    }
                    // again without setting anything: the mode stays what the last call made it
                    step(&c, &mut m, &|| format!("{VARS:?} = {:?}, second call", [a, b, x, y]));
                    if snapshot() != before {
                        c.bad(&m, "the environment is modified", format!("{:?}", [a, b, x, y]), &snapshot(), &before);
                    }
                }
            }
        },
    );
    // long values and every short value of each single variable, with the others unset / set / "0"
    r.merge(processes(
        4 * 4,
        3000,
        |i| format!("job {i} of C10, single values"),
        |i| {
            let mut m = fresh();
            let c = ctx(1, false, vec![], "assignments one after the other".into());
            let (var, ctxt) = (VARS[i / 4], i % 4);
            for v in VARS {
                match ctxt {
                    0 => {}
                    1 => std::env::set_var(v, "0"),
                    2 if v != "NO_COLOR" => std::env::set_var(v, "1"),
                    3 if v == "NO_COLOR" => std::env::set_var(v, "1"),
                    _ => {}
                }
            }
            for v in &single {
                std::env::set_var(var, v);
                mode::set_coloring_mode(Mode::Detect);
                m.mode = Mode::Detect;
                step(&c, &mut m, &|| format!("{var} = {v:?}, others by context {ctxt}"));
            }
        },
    ));
    // names that only look like the four
    let small: Vec<Option<OsString>> = vec![None, Some("0".into()), Some("1".into())];
    r.merge(processes(
        81,
        3000,
        |i| format!("job {i} of C10, look-alike names"),
        |i| {
            let mut m = fresh();
            let c = ctx(1, false, vec![], "assignments one after the other".into());
            for (j, v) in VARS.iter().enumerate() {
                put(v, &small[i / 3usize.pow(j as u32) % 3]);
            }
            for name in NOISE {
                for v in ["", "0", "1", "xterm", "truecolor", "dumb"] {
                    std::env::set_var(name, v);
                    for start in MODES {
                        mode::set_coloring_mode(start);
                        m.mode = start;
                        step(&c, &mut m, &|| format!("{name}={v:?}, {VARS:?} by {i}"));
                    }
                }
                std::env::remove_var(name);
            }
            for name in NOISE {
                std::env::set_var(name, "1");
            }
            step(&c, &mut m, &|| format!("all look-alikes, {VARS:?} by {i}"));
        },
    ));
    r.bound("values per variable in the full product of the four", n);
    r.bound("values of single variables", single.len());
    r.bound("look-alike names", NOISE.len());
    r.bound("start states per assignment", "3 modes x 2 default streams, then a second call");
    r.sample(|| "NO_COLOR unset, ALWAYS_COLOR=\"\", CLICOLOR_FORCE=\"0\", FORCE_COLOR=\"\\xff\" -> Some(Always)".into());
    r
}

trait Both: std::fmt::Display + std::fmt::Debug {}
impl<T: std::fmt::Display + std::fmt::Debug> Both for T {}
/// the formatting options the texts are written with besides the plain ones (C11 has them all)
const OPTIONS: [(&str, fn(&mut B, &dyn Both)); 7] = [
    ("{:#}", |b, x| write!(b, "{x:#}|").unwrap()),
    ("{:#?}", |b, x| write!(b, "{x:#?}|").unwrap()),
    ("{:>99}", |b, x| write!(b, "{x:>99}|").unwrap()),
    ("{:.1}", |b, x| write!(b, "{x:.1}|").unwrap()),
    ("{:+}", |b, x| write!(b, "{x:+}|").unwrap()),
    ("{:099}", |b, x| write!(b, "{x:099}|").unwrap()),
    ("{:-^9.0x?}", |b, x| write!(b, "{x:-^9.0x?}|").unwrap()),
];

/// every text C19 speaks of, as one digest (and the texts themselves, on demand)
fn texts(mut each: impl FnMut(&dyn Fn() -> String, &[u8])) {
    use mc::model::{few_masks, MStyle};
    use mc::reps;
    let cols = [None, Some(reps::RED), Some(reps::DEFAULT), Some(reps::AQUA), Some(reps::tomato()), Some(reps::RGB)];
    let masks: Vec<u16> = few_masks().into_iter().filter(|m| m.count_ones() < 2 || m.count_ones() > 11 || m & 0b11000 != 0).collect();
    for fg in cols {
        for bg in cols {
            for ul in cols {
                for &fx in &masks {
                    let m = MStyle { fg, bg, ul, fx };
                    let s = m.style();
                    let d = |w: &'static str| move || format!("{w} of {m:?}");
                    each(&d("apply"), text(&s.apply()).bytes());
                    each(&d("clear"), text(&s.clear()).bytes());
                    if (fg, bg) == (bg, ul) || fx == masks[0] {
                        let mut b = B::new();
                        for (_, on) in OPTIONS {
                            on(&mut b, &s.apply());
                            on(&mut b, &s.clear());
                        }
                        each(&d("apply and clear by every formatting option"), b.bytes());
                    }
                }
            }
        }
    }
    // typed slots and Debug
    fn typed<F: OptionalColor, BG: OptionalColor, U: OptionalColor>(each: &mut dyn FnMut(&dyn Fn() -> String, &[u8]), name: &str, slot: &str, s: Style<F, BG, U>) {
        for fx in [0, 1, 8, 9, 0x1fff] {
            let s = s.effect_flags(mc::model::flags(fx));
            let d = |w: &'static str| move || format!("{w} of style with {name} {slot}, effects {fx:#x}");
            let mut b = B::new();
            write!(b, "{}|{}|{:?}|{:?}", s.apply(), s.clear(), s.apply(), s.clear()).unwrap();
            each(&d("apply, clear, Debug"), b.bytes());
            // with formatting options
            for (o, on) in OPTIONS {
                let mut b = B::new();
                on(&mut b, &s.apply());
                on(&mut b, &s.clear());
                let d = || format!("apply, clear by {o} of style with {name} {slot}, effects {fx:#x}");
                each(&d, b.bytes());
            }
        }
    }
    struct V<'a>(&'a mut dyn FnMut(&dyn Fn() -> String, &[u8]));
    impl reps::Visitor for V<'_> {
        fn visit<C: OptionalColor + Send + Sync + 'static>(&mut self, c: C, _: Option<mc::model::LC>, name: &'static str) {
            let s = Style::new();
            typed(&mut *self.0, name, "everywhere", s.fg(c).bg(c).underline_color(c));
            typed(&mut *self.0, name, "in the foreground", s.fg(c));
            typed(&mut *self.0, name, "in the background", s.bg(c));
            typed(&mut *self.0, name, "as the underline colour", s.underline_color(c));
            typed(&mut *self.0, name, "(optional) everywhere", s.fg(c.get()).bg(c.get()).underline_color(c.get()));
            if let Some(c) = c.get() {
                let mut b = B::new();
                for slot in 0..6 {
                    write!(b, "{}|", mc::codes::W(c, slot)).unwrap();
                    write!(b, "{:#}|{:>30}|{:.1}|", mc::codes::W(c, slot), mc::codes::W(c, slot), mc::codes::W(c, slot)).unwrap();
                }
                (self.0)(&|| format!("codes of {name}"), b.bytes());
            }
        }
    }
    reps::all(&mut V(&mut each));
    let mut b = B::new();
    write!(b, "{}|{:?}", Style::clear_all(), Style::clear_all()).unwrap();
    for (_, on) in OPTIONS {
        on(&mut b, &Style::clear_all());
    }
    each(&|| "clear_all".into(), b.bytes());
    // inside the formatter of a value that is itself styled, coloured or not
    struct Inner;
    impl std::fmt::Display for Inner {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            let s = Style::new().fg(ansi::Red).bg(Some(xterm::Aqua)).bold();
            write!(f, "{}|{}|{}", s.apply(), s.clear(), Style::clear_all())
        }
    }
    each(&|| "apply inside a value that must not be coloured".into(), text(&Inner.into_style().red().stream(Stream::NeverColor)).bytes());
}

fn c19(big: bool) -> Report {
    use std::hash::{Hash, Hasher};
    let digest = || {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        let mut n = 0u64;
        texts(|d, b| {
            // under Mode::Always the value above may be coloured: that is C08's matter
            if !d().starts_with("apply inside") {
                b.hash(&mut h);
            }
            n += 1;
        });
        (h.finish(), n)
    };
    // reference: an untouched process, no variable set, no terminal
    let mut reference: Vec<Vec<u8>> = vec![];
    texts(|_, b| reference.push(b.to_vec()));
    let (print, n) = digest();
    let ttys = Ttys::new();
    let mut envs: Vec<Vec<(&str, &str)>> = if cfg!(feature = "stub") { vec![vec![]] } else { ENVS.iter().map(|e| e.to_vec()).collect() };
    let main = envs.len();
    if !cfg!(feature = "stub") {
        envs.extend(surroundings());
    }
    let masks: Vec<u8> = if big { (0..8).collect() } else { vec![0b000, 0b010, 0b101] };
    let mut r = processes(
        envs.len() * masks.len(),
        3000,
        |i| format!("job {i} of C19"),
        |i| {
            ttys.place(masks[i % masks.len()]);
            let e = &envs[i / masks.len()];
            let extra = i / masks.len() >= main;
            if extra && i % masks.len() > 0 && !big {
                return;
            }
            if extra {
                ttys.place(if i % masks.len() == 0 { 0b111 } else { masks[i % masks.len()] });
            }
            place_env(e);
            // all states: mode x default stream x which streams have been detected (detecting cannot be undone: last)
            for (asked, after) in [(None, false), (Some(Stream::Stdout), false), (Some(Stream::Stderr), false), (None, true)] {
                if extra && (after || asked.is_some()) {
                    continue;
                }
                if after {
                    storm();
                }
                if let Some(s) = asked {
                    mode::set_coloring_mode(Mode::Detect);
                    let _ = mode::should_color(Some(s), &[ColorKind::Ansi]);
                }
                for m in MODES {
                    for d in STREAMS {
                        // the texts depend on the settings only if something reads them: a few environments are enough for the product
                        if (after || i >= 3 * masks.len()) && (m as usize + d as usize + i) % 4 != 0 && !big {
                            continue;
                        }
                        mode::set_coloring_mode(m);
                        mode::set_default_stream(d);
                        let mut k = 0;
                        texts(|what, b| {
                            let coloured = !STRIP && m == Mode::Always && what().starts_with("apply inside");
                            if !coloured && reference.get(k).map(|v| &v[..]) != Some(b) {
                                log(|l| {
                                    l.violation("an explicit sequence depends on the settings", || {
                                        format!(
                                            "environment {e:?}, terminals {:?}, mode {m:?}, default stream {d:?}, detected {asked:?}, after faults {after}: {} is {:?} instead of {:?}",
                                            [0, 1, 2].map(is_tty),
                                            what(),
                                            esc(b),
                                            reference.get(k).map(|v| esc(v))
                                        )
                                    })
                                });
                            }
                            k += 1;
                        });
                        log(|l| {
                            l.states.fetch_add(1, Relaxed);
                            l.transitions.fetch_add(k as u64, Relaxed);
                            l.traces.fetch_add(k as u64, Relaxed);
                            l.outcome(&(m as u8, d, asked, i));
                        });
                    }
                }
            }
        },
    );
    r.fingerprint = Some(format!("{print:016x}"));
    r.bound("texts per state", n);
    r.bound("environments", format!("{main}, and {} with other programs' variables in fewer states", envs.len() - main));
    r.bound("terminal assignments", masks.len());
    r.bound("global states", "3 modes x 4 default streams x streams already detected (0, 1, 2); a quarter of them again after a storm of faults");
    r.bound("across feature sets", "the digest of all texts is compared between all builds of this check");
    r.sample(|| format!("{n} texts, digest {print:016x}, in every state"));
    r
}

fn main() {
    mc::report::quiet_panics();
    let big = thorough();
    let r = match property().as_str() {
        "C08" => c08(big),
        "C09" => c09(big),
        "C10" => c10(big),
        "C19" => c19(big),
        p => panic!("{p} is not decided here"),
    };
    r.finish();
}
