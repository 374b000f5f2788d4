//! C11, C12, C13, C20: formatting of styled values.
//! C11: full product of formatting options x traits x values x styles x decisions.
//! C12: the settings are changed by the value's own formatter or by the sink, at every point.
//! C13: the sink or the value fails at every point.
//! C20: all nestings up to a depth, every layer with its own style and stream.
#![feature(formatting_options)]
use colorz::ansi::{self, AnsiColor};
use colorz::css;
use colorz::mode::{self, ColorKind, Mode, Stream};
use colorz::rgb::{Rgb, RgbColor};
use colorz::xterm;
use colorz::{Color, Colorize, Effect, OptionalColor, Style, StyledValue};
use mc::os::{log, processes, Ttys};
use mc::reps;
use mc::report::{guarded, parallel, property, thorough, Report};
use mc::sgr;
use mc::sink::{esc, Buf};
use mc::storm::storm;
use std::fmt::{self, Alignment, DebugAsHex, Formatter, FormattingOptions, Sign, Write};
use std::sync::atomic::Ordering::Relaxed;

const STRIP: bool = cfg!(feature = "strip-colors");
const DETECTS: bool = cfg!(any(feature = "std", feature = "supports-color"));
pub const TRAITS: [&str; 9] = ["Display", "Debug", "LowerHex", "UpperHex", "Octal", "Binary", "LowerExp", "UpperExp", "Pointer"];
const OPT_STREAMS: [Option<Stream>; 5] = [None, Some(Stream::Stdout), Some(Stream::Stderr), Some(Stream::AlwaysColor), Some(Stream::NeverColor)];
const MODES: [Mode; 3] = [Mode::Detect, Mode::Always, Mode::Never];
const STREAMS: [Stream; 4] = [Stream::Stdout, Stream::Stderr, Stream::AlwaysColor, Stream::NeverColor];

/// a value that formats itself by a closure over the trait's number
#[derive(Clone, Copy)]
struct D<'a>(&'a (dyn Fn(usize, &mut Formatter<'_>) -> fmt::Result + Sync));
macro_rules! d_impls {
    ($($n:literal $t:ident)*) => { $( impl fmt::$t for D<'_> { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { (self.0)($n, f) } } )* };
}
d_impls!(0 Display 1 Debug 2 LowerHex 3 UpperHex 4 Octal 5 Binary 6 LowerExp 7 UpperExp 8 Pointer);

trait Nine: fmt::Display + fmt::Debug + fmt::LowerHex + fmt::UpperHex + fmt::Octal + fmt::Binary + fmt::LowerExp + fmt::UpperExp + fmt::Pointer {}
impl<T: fmt::Display + fmt::Debug + fmt::LowerHex + fmt::UpperHex + fmt::Octal + fmt::Binary + fmt::LowerExp + fmt::UpperExp + fmt::Pointer> Nine for T {}

fn nine<T: Nine + ?Sized>(t: usize, v: &T, f: &mut Formatter<'_>) -> fmt::Result {
    match t {
        0 => fmt::Display::fmt(v, f),
        1 => fmt::Debug::fmt(v, f),
        2 => fmt::LowerHex::fmt(v, f),
        3 => fmt::UpperHex::fmt(v, f),
        4 => fmt::Octal::fmt(v, f),
        5 => fmt::Binary::fmt(v, f),
        6 => fmt::LowerExp::fmt(v, f),
        7 => fmt::UpperExp::fmt(v, f),
        _ => fmt::Pointer::fmt(v, f),
    }
}

/// calls of fmt_with are trait number 9 (formatted with Display of the value inside)
const WAYS: usize = 10;
fn way_name(t: usize) -> &'static str {
    TRAITS.get(t).copied().unwrap_or("fmt_with")
}

type Kinds = [ColorKind; 3];

/// a style of some type as the harness needs it
trait S {
    /// formats the styled value `v` by way `t`
    fn styled(&self, t: usize, v: D<'_>, s: Option<Stream>, f: &mut Formatter<'_>) -> fmt::Result;
    /// formats apply (0, 1), clear (2, 3), clear_all (4, 5) by Display or Debug
    fn explicit(&self, which: usize, f: &mut Formatter<'_>) -> fmt::Result;
}
impl<F: OptionalColor + Copy, B: OptionalColor + Copy, U: OptionalColor + Copy> S for Style<F, B, U> {
    fn styled(&self, t: usize, v: D<'_>, s: Option<Stream>, f: &mut Formatter<'_>) -> fmt::Result {
        let sv = StyledValue::new(v, *self, s);
        if t == 9 {
            let at: *const D = &sv.value;
            sv.fmt_with(f, |x, f| {
                if !std::ptr::eq(x, at) {
                    panic!("fmt_with passes another value");
                }
                fmt::Display::fmt(x, f)
            })
        } else {
            nine(t, &sv, f)
        }
    }
    fn explicit(&self, which: usize, f: &mut Formatter<'_>) -> fmt::Result {
        match which {
            0 => fmt::Display::fmt(&self.apply(), f),
            1 => fmt::Debug::fmt(&self.apply(), f),
            2 => fmt::Display::fmt(&self.clear(), f),
            3 => fmt::Debug::fmt(&self.clear(), f),
            4 => fmt::Display::fmt(&Style::clear_all(), f),
            _ => fmt::Debug::fmt(&Style::clear_all(), f),
        }
    }
}

/// (name, style, kinds of its three colours)
fn styles() -> Vec<(&'static str, Box<dyn S + Sync>, Kinds)> {
    use ColorKind::{Ansi as A, NoColor as N, Rgb as R, Xterm as X};
    vec![
        ("plain", Box::new(Style::new()), [N, N, N]),
        ("fg ansi", Box::new(Style::new().fg(ansi::Red)), [A, N, N]),
        ("bg xterm", Box::new(Style::new().bg(xterm::Aqua)), [N, X, N]),
        ("bold", Box::new(Style::new().bold()), [N, N, N]),
        ("fg css bold", Box::new(Style::new().fg(css::Tomato).bold()), [R, N, N]),
        ("fg bg underline, several effects", Box::new(Style::new().fg(AnsiColor::Red).bg(Rgb::<1, 20, 255>).underline_color(RgbColor { red: 0, green: 10, blue: 100 }).underline().italics()), [A, R, R]),
        ("runtime fg bg", Box::new(Style::new().fg(Some(Color::from(ansi::Blue))).bg(Some(Color::from(xterm::Red))).into_runtime_style()), [A, X, N]),
        ("runtime plain", Box::new(Style::new().into_runtime_style()), [N, N, N]),
        ("runtime bold underline", Box::new(Style::new().bold().underline().underline_color(ansi::Green).into_runtime_style()), [N, N, A]),
        ("underline only with colour", Box::new(Style::new().underline_color(css::Tomato).underline()), [N, N, R]),
        ("fg default", Box::new(Style::new().fg(Some(ansi::Default))), [A, N, N]),
    ]
}

/// every type representation in every slot, with the effect sets around the branches
fn rep_styles() -> Vec<(String, Box<dyn S + Sync>, Kinds)> {
    struct V(Vec<(String, Box<dyn S + Sync>, Kinds)>);
    impl reps::Visitor for V {
        fn visit<C: OptionalColor + Send + Sync + 'static>(&mut self, c: C, lc: Option<mc::model::LC>, name: &'static str) {
            let k = match lc {
                None => ColorKind::NoColor,
                Some(mc::model::LC::Ansi(_)) => ColorKind::Ansi,
                Some(mc::model::LC::Xterm(_)) => ColorKind::Xterm,
                Some(_) => ColorKind::Rgb,
            };
            let n = ColorKind::NoColor;
            for fx in [0u16, 1, 0x1001] {
                let st = Style::new().effect_flags(mc::model::flags(fx));
                self.0.push((format!("fg {name}, effects {fx:#x}"), Box::new(st.fg(c)), [k, n, n]));
                self.0.push((format!("bg {name}, effects {fx:#x}"), Box::new(st.bg(c)), [n, k, n]));
                let under = mc::model::flags(fx).with(Effect::Underline);
                self.0.push((format!("underline colour {name}, effects {fx:#x} and underline"), Box::new(st.effect_flags(under).underline_color(c)), [n, n, k]));
            }
        }
    }
    let mut v = V(vec![]);
    reps::all(&mut v);
    v.0
}

type B = Buf<8192>;

/// formats `f` into `b` with `o`
fn into<const N: usize>(b: &mut Buf<N>, o: FormattingOptions, f: impl FnOnce(&mut Formatter<'_>) -> fmt::Result) -> fmt::Result {
    b.clear();
    let r = f(&mut Formatter::new(b, o));
    if b.overflow {
        panic!("output longer than expected");
    }
    r
}

fn plain_options() -> FormattingOptions {
    FormattingOptions::new()
}
/// options around every distinction a formatter could make
fn few_options() -> Vec<FormattingOptions> {
    let o = FormattingOptions::new();
    let with = |f: &dyn Fn(&mut FormattingOptions)| {
        let mut o = o;
        f(&mut o);
        o
    };
    vec![
        o,
        with(&|o| {
            o.alternate(true);
        }),
        with(&|o| {
            o.width(Some(9));
        }),
        with(&|o| {
            o.precision(Some(0));
        }),
        with(&|o| {
            o.sign(Some(Sign::Plus)).sign_aware_zero_pad(true);
        }),
        with(&|o| {
            o.fill('*').align(Some(Alignment::Center)).debug_as_hex(Some(DebugAsHex::Upper));
        }),
        with(&|o| {
            o.alternate(true).width(Some(300)).precision(Some(2)).sign(Some(Sign::Minus)).align(Some(Alignment::Right));
        }),
    ]
}

fn all_options(big: bool) -> Vec<FormattingOptions> {
    let mut v = vec![];
    let widths: &[Option<u16>] = if big { &[None, Some(0), Some(1), Some(2), Some(4), Some(9), Some(40), Some(255), Some(300)] } else { &[None, Some(0), Some(1), Some(4), Some(9), Some(300)] };
    let precs: &[Option<u16>] = if big { &[None, Some(0), Some(1), Some(2), Some(7), Some(20)] } else { &[None, Some(0), Some(2), Some(7)] };
    for fill in [' ', '*', '\u{2192}'] {
        for align in [None, Some(Alignment::Left), Some(Alignment::Center), Some(Alignment::Right)] {
            for sign in [None, Some(Sign::Plus), Some(Sign::Minus)] {
                for alt in [false, true] {
                    for zero in [false, true] {
                        for hex in [None, Some(DebugAsHex::Lower), Some(DebugAsHex::Upper)] {
                            for &w in widths {
                                for &p in precs {
                                    v.push(*FormattingOptions::new().fill(fill).align(align).sign(sign).alternate(alt).sign_aware_zero_pad(zero).debug_as_hex(hex).width(w).precision(p));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

/// unusual fills and the ends of the ranges of width and precision, for a value that writes them down
fn odd_options() -> Vec<FormattingOptions> {
    let ends = [None, Some(0), Some(1), Some(127), Some(128), Some(254), Some(255), Some(256), Some(1000), Some(4096), Some(32767), Some(32768), Some(u16::MAX - 1), Some(u16::MAX)];
    let mut v = vec![];
    for fill in ['\0', '\x1b', 'm', '0', '[', '\u{7f}', '\u{e9}', '\u{1f600}', char::MAX] {
        for align in [None, Some(Alignment::Left), Some(Alignment::Center), Some(Alignment::Right)] {
            for zero in [false, true] {
                for w in ends {
                    for p in ends {
                        v.push(*FormattingOptions::new().fill(fill).align(align).sign_aware_zero_pad(zero).width(w).precision(p));
                    }
                }
            }
        }
    }
    v
}

/// (name, traits it implements, formatter)
type Value = (&'static str, &'static [usize], Box<dyn Fn(usize, &mut Formatter<'_>) -> fmt::Result + Sync>);

fn values() -> Vec<Value> {
    const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
    const INT: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 9];
    fn int<T: fmt::Display + fmt::Debug + fmt::LowerHex + fmt::UpperHex + fmt::Octal + fmt::Binary + fmt::LowerExp + fmt::UpperExp>(v: T, t: usize, f: &mut Formatter<'_>) -> fmt::Result {
        match t {
            1 => fmt::Debug::fmt(&v, f),
            2 => fmt::LowerHex::fmt(&v, f),
            3 => fmt::UpperHex::fmt(&v, f),
            4 => fmt::Octal::fmt(&v, f),
            5 => fmt::Binary::fmt(&v, f),
            6 => fmt::LowerExp::fmt(&v, f),
            7 => fmt::UpperExp::fmt(&v, f),
            _ => fmt::Display::fmt(&v, f),
        }
    }
    static CELL: u8 = 0;
    #[derive(Debug)]
    #[allow(dead_code)]
    struct Rec {
        a: i32,
        b: [u8; 2],
    }
    vec![
        // writes down which trait was asked and every option of the formatter
        ("probe", ALL, Box::new(|t, f: &mut Formatter<'_>| {
            let o = f.options();
            write!(f, "<{t} {:?} {:?} {:?} {} {} {:?} {:?} {:?}>", o.get_fill(), o.get_align().map(|a| a as u8), o.get_sign().map(|s| s as u8), o.get_alternate(), o.get_sign_aware_zero_pad(), o.get_width(), o.get_precision(), o.get_debug_as_hex().map(|h| h as u8))
        })),
        ("-42", INT, Box::new(|t, f: &mut Formatter<'_>| int(-42i64, t, f))),
        ("200u8", INT, Box::new(|t, f: &mut Formatter<'_>| int(200u8, t, f))),
        ("31.4159", &[0, 1, 6, 7, 9], Box::new(|t, f: &mut Formatter<'_>| match t {
            1 => fmt::Debug::fmt(&31.4159f64, f),
            6 => fmt::LowerExp::fmt(&31.4159f64, f),
            7 => fmt::UpperExp::fmt(&31.4159f64, f),
            _ => fmt::Display::fmt(&31.4159f64, f),
        })),
        ("text", &[0, 1, 9], Box::new(|t, f: &mut Formatter<'_>| if t == 1 { fmt::Debug::fmt("h\u{e9}\x1b[31m\n", f) } else { fmt::Display::fmt("h\u{e9}\x1b[31m\n", f) })),
        ("pointer", &[8], Box::new(|_, f: &mut Formatter<'_>| fmt::Pointer::fmt(&(&CELL as *const u8), f))),
        ("record", &[1], Box::new(|_, f: &mut Formatter<'_>| fmt::Debug::fmt(&Rec { a: -1, b: [7, 255] }, f))),
        ("nothing", ALL, Box::new(|_, _: &mut Formatter<'_>| Ok(()))),
    ]
}

/// the six texts of every colour under the options
struct Codes<'a>(&'a mut Report, FormattingOptions);
impl mc::reps::Visitor for Codes<'_> {
    fn visit<C: OptionalColor + Send + Sync + 'static>(&mut self, c: C, _: Option<mc::model::LC>, name: &'static str) {
        let Some(c) = c.get() else { return };
        let (mut plain, mut got) = (Buf::<64>::new(), Buf::<64>::new());
        for slot in 0..6 {
            into(&mut plain, plain_options(), |f| fmt::Display::fmt(&mc::codes::W(c, slot), f)).unwrap();
            let o = self.1;
            let res = into(&mut got, o, |f| fmt::Display::fmt(&mc::codes::W(c, slot), f));
            self.0.states += 1;
            self.0.traces += 1;
            if res.is_err() || got.bytes() != plain.bytes() {
                self.0.violation(format!("formatting options change a colour code [{}]", mc::codes::SLOTS[slot]), || {
                    format!("{name}, {}, options {o:?}: wrote {:?} ({res:?}) instead of {:?}", mc::codes::SLOTS[slot], esc(got.bytes()), esc(plain.bytes()))
                });
            }
        }
    }
}

fn c11(big: bool) -> Report {
    let opts = all_options(big);
    let odd = odd_options();
    let values = values();
    let styles = styles();
    // the settings stay at their defaults: the stream decides
    let streams: [(Option<Stream>, bool); 3] = [(None, !STRIP), (Some(Stream::AlwaysColor), !STRIP), (Some(Stream::NeverColor), false)];
    let reps = rep_styles();
    let mut r = parallel(opts.len() + odd.len(), |i, r| {
        // all values in the first, the value that writes the options down in the odd ones
        let (o, values) = if i < opts.len() { (opts[i], &values[..]) } else { (odd[i - opts.len()], &values[..1]) };
        let (mut own, mut got, mut esc1, mut esc2) = (B::new(), B::new(), B::new(), B::new());
        let listed = styles.iter().map(|(n, s, _)| (*n, s, values));
        let typed = reps.iter().map(|(n, s, _)| (n.as_str(), s, if i < opts.len() { &values[..1] } else { &[] }));
        for (sname, style, values) in listed.chain(typed) {
            into(&mut esc1, plain_options(), |f| style.explicit(0, f)).unwrap();
            into(&mut esc2, plain_options(), |f| style.explicit(2, f)).unwrap();
            for w in 0..6 {
                let plain: &[u8] = match w {
                    0 | 1 => esc1.bytes(),
                    2 | 3 => esc2.bytes(),
                    _ => b"\x1b[0m",
                };
                let res = into(&mut got, o, |f| style.explicit(w, f));
                r.traces += 1;
                if res.is_err() || got.bytes() != plain {
                    r.violation(format!("formatting options change an escape sequence [{}]", ["apply", "apply Debug", "clear", "clear Debug", "clear_all", "clear_all Debug"][w]), || {
                        format!("style {sname}, options {o:?}: wrote {:?} ({res:?}) instead of {:?}", esc(got.bytes()), esc(plain))
                    });
                }
            }
            for (vname, ts, v) in values {
                for &t in *ts {
                    let direct = if t == 9 { 0 } else { t };
                    let res = into(&mut own, o, |f| v(direct, f));
                    if res.is_err() {
                        panic!("{vname} cannot be formatted");
                    }
                    for (stream, coloured) in streams {
                        let calls = std::sync::atomic::AtomicU32::new(0);
                        let counted = |t: usize, f: &mut Formatter<'_>| {
                            calls.fetch_add(1, Relaxed);
                            v(t, f)
                        };
                        let res = into(&mut got, o, |f| style.styled(t, D(&counted), stream, f));
                        r.states += 1;
                        r.transitions += 1;
                        r.traces += 1;
                        let (a, b) = if coloured { (esc1.bytes(), esc2.bytes()) } else { (&b""[..], &b""[..]) };
                        let g = got.bytes();
                        let (n, m, k) = (a.len(), own.len, b.len());
                        let same = g.len() == n + m + k && &g[..n] == a && &g[n..n + m] == own.bytes() && &g[n + m..] == b;
                        let say = || format!("value {vname} in style {sname} (stream {stream:?}) by {} with {o:?}: wrote {:?} ({res:?}), start {:?}, the value alone {:?}, end {:?}", way_name(t), esc(g), esc(a), esc(own.bytes()), esc(b));
                        if !same || res.is_err() {
                            r.violation(format!("formatting a styled value is not start + value + end [{} {vname}]", way_name(t)), say);
                        }
                        if calls.load(Relaxed) != 1 {
                            r.violation(format!("the value's formatter is called {} times [{}]", calls.load(Relaxed), way_name(t)), say);
                        }
                        r.outcome(g);
                    }
                }
            }
        }
        reps::all(&mut Codes(r, o));
    });
    // every width and every precision
    r.merge(parallel(1 << 9, |i, r| {
        let (mut own, mut got, mut esc1, mut esc2) = (B::new(), B::new(), B::new(), B::new());
        let (_, ts, probe) = &values[0];
        for n in (i << 7)..(i + 1) << 7 {
            let n = Some(n as u16);
            for o in [*FormattingOptions::new().width(n), *FormattingOptions::new().precision(n)] {
                for (sname, style, _) in &styles {
                    into(&mut esc1, plain_options(), |f| style.explicit(0, f)).unwrap();
                    into(&mut esc2, plain_options(), |f| style.explicit(2, f)).unwrap();
                    for &t in *ts {
                        into(&mut own, o, |f| probe(if t == 9 { 0 } else { t }, f)).unwrap();
                        let res = into(&mut got, o, |f| style.styled(t, D(&|t, f| probe(t, f)), None, f));
                        r.states += 1;
                        r.transitions += 1;
                        r.traces += 1;
                        let g = got.bytes();
                        let same = if STRIP { g == own.bytes() } else { g.strip_prefix(esc1.bytes()).and_then(|g| g.strip_suffix(esc2.bytes())) == Some(own.bytes()) };
                        if !same || res.is_err() {
                            r.violation(format!("formatting a styled value is not start + value + end [{} probe]", way_name(t)), || {
                                format!("style {sname} by {} with {o:?}: wrote {:?} ({res:?}), start {:?}, the value alone {:?}, end {:?}", way_name(t), esc(g), esc(esc1.bytes()), esc(own.bytes()), esc(esc2.bytes()))
                            });
                        }
                    }
                }
            }
        }
    }));
    // values that write a lot, in one piece and in many
    let some: Vec<FormattingOptions> = opts.iter().step_by(97).copied().collect();
    r.merge(parallel(some.len(), |i, r| {
        let o = some[i];
        let (mut own, mut got, mut esc1, mut esc2) = (Buf::<32768>::new(), Buf::<32768>::new(), B::new(), B::new());
        for (sname, style, _) in &styles {
            into(&mut esc1, plain_options(), |f| style.explicit(0, f)).unwrap();
            into(&mut esc2, plain_options(), |f| style.explicit(2, f)).unwrap();
            for (n, size) in [(1, 5000), (1, 20000), (300, 9), (5000, 1)] {
                for t in [0, 1, 9] {
                    let v = |_: usize, f: &mut Formatter<'_>| much(n, size, f);
                    into(&mut own, o, |f| v(0, f)).unwrap();
                    for (stream, coloured) in streams {
                        let res = into(&mut got, o, |f| style.styled(t, D(&v), stream, f));
                        r.states += 1;
                        r.transitions += n as u64;
                        r.traces += 1;
                        let want = if coloured { [esc1.bytes(), own.bytes(), esc2.bytes()].concat() } else { own.bytes().to_vec() };
                        if res.is_err() || got.bytes() != want {
                            r.violation(format!("formatting a styled value is not start + value + end [{} {n} pieces]", way_name(t)), || {
                                format!("{n} pieces of {size} bytes in style {sname} (stream {stream:?}) by {} with {o:?}: {} bytes ({res:?}) that start with {:?}, expected {}", way_name(t), got.len, esc(&got.bytes()[..got.len.min(60)]), want.len())
                            });
                        }
                    }
                }
            }
        }
    }));
    // concrete value types behind the crate's own constructors, through format_args!
    concrete(&mut r);
    r.bound("widths and precisions", "each of 65536 alone, x styles x ways, for the probe");
    r.bound("formatting options", format!("{}, and {} with unusual fills and widths and precisions to the ends of their range", opts.len(), odd.len()));
    r.bound("styles", format!("{} with all values, {} (every type representation in every slot) with the probe", styles.len(), reps.len()));
    r.bound("values", "probe (all traits and fmt_with), i64, u8, f64, str, pointer, struct, empty");
    r.bound("decisions", "default, AlwaysColor, NeverColor");
    r.sample(|| format!("{:?}", esc(format!("{:*^9}", StyledValue::new(42, Style::new().fg(ansi::Red), None)).as_bytes())));
    r
}

/// writes `n` pieces of `size` bytes, by all the formatter's ways of writing
fn much(n: usize, size: usize, f: &mut Formatter<'_>) -> fmt::Result {
    const TEXT: &str = match std::str::from_utf8(&[b'x'; 20000]) {
        Ok(s) => s,
        Err(_) => panic!(),
    };
    for k in 0..n {
        match k % 3 {
            1 if size == 1 => f.write_char('c')?,
            2 => f.write_fmt(format_args!("{}", &TEXT[..size]))?,
            _ => f.write_str(&TEXT[..size])?,
        }
    }
    Ok(())
}

fn concrete(r: &mut Report) {
    let c = |a: &str, m: String, b: &str| if STRIP { m } else { format!("{a}{m}{b}") };
    let st = Style::new().fg(ansi::Red).bold();
    let (a, b) = (st.apply().to_string(), st.clear().to_string());
    let mut check = |what: &str, got: String, own: String| {
        r.states += 1;
        r.traces += 1;
        let want = c(&a, own, &b);
        if got != want {
            r.violation(format!("formatting a styled value is not start + value + end [{what}]"), || format!("{what}: {:?} instead of {:?}", esc(got.as_bytes()), esc(want.as_bytes())));
        }
    };
    macro_rules! by { ($($f:literal)*, $v:expr) => { $( check($f, format!($f, StyledValue::new($v, st, None)), format!($f, $v)); check($f, format!($f, $v.style_with(st)), format!($f, $v)); check($f, format!($f, $v.into_style_with(st)), format!($f, $v)); )* } }
    by!("{}" "{:?}" "{:#?}" "{:>8}" "{:08}" "{:+}" "{:#x}" "{:X}" "{:o}" "{:#010b}" "{:e}" "{:E}" "{:x?}" "{:-^+9}", -42i32);
    by!("{}" "{:?}" "{:.2}" "{:9.1}" "{:<+9.3e}" "{:E}", 2.71828f64);
    by!("{}" "{:?}" "{:.2}" "{:-<9}" "{:^9.1}", "h\u{e9}llo");
    by!("{}" "{:?}" "{:~>9}", 'x');
    by!("{:?}" "{:#?}" "{:02x?}" "{:5?}", [1u8, 200]);
    by!("{:?}" "{:#?}", Some("x"));
    let x = 5u8;
    let p: *const u8 = &x;
    // (not through style_with: that would print the address of `p` itself)
    for (got, own) in [
        (format!("{:p}", p.into_style_with(st)), format!("{p:p}")),
        (format!("{:#p}", StyledValue::new(p, st, None)), format!("{p:#p}")),
        (format!("{:20p}", StyledValue::new(p, st, None)), format!("{p:20p}")),
        (format!("{:p}", p.style_with(st)), format!("{:p}", &p)),
    ] {
        check("pointer", got, own);
    }
    by!("{}" "{:>7}" "{:?}", String::from("owned").as_str());
    by!("{}" "{:?}", format_args!("{}-{}", 1, 2).to_string());
}

// ------------------------------------------------------------------------------------------------ C13

/// accepts writes until number `at` (0-based; counted in write calls), then fails once or for good
struct Faulty {
    got: Vec<u8>,
    calls: usize,
    at: usize,
    once: bool,
    after: usize,
    failed: bool,
}
impl Faulty {
    fn take(&mut self, b: &[u8]) -> fmt::Result {
        let n = self.calls;
        self.calls += 1;
        if self.failed {
            self.after += 1;
        }
        if n == self.at || (n > self.at && !self.once) {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.got.extend_from_slice(b);
        Ok(())
    }
}
impl Write for Faulty {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.take(s.as_bytes())
    }
    fn write_char(&mut self, c: char) -> fmt::Result {
        self.take(c.encode_utf8(&mut [0; 4]).as_bytes())
    }
}
/// accepts a number of bytes, then fails
struct Full {
    got: Vec<u8>,
    room: usize,
    failed: bool,
    after: usize,
}
impl Write for Full {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after += 1;
        }
        if s.len() > self.room - self.got.len() {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.got.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

fn faults(r: &mut Report, what: &str, class: &str, f: &dyn Fn(&mut Formatter<'_>) -> fmt::Result) {
    for o in few_options() {
        faults_with(r, o, &|| format!("{what} (options {o:?})"), class, f);
    }
}

fn faults_with(r: &mut Report, o: FormattingOptions, what: &dyn Fn() -> String, class: &str, f: &dyn Fn(&mut Formatter<'_>) -> fmt::Result) {
    let mut whole = Faulty { got: vec![], calls: 0, at: usize::MAX, once: true, after: 0, failed: false };
    let res = guarded(|| f(&mut Formatter::new(&mut whole, o)));
    r.states += 1;
    r.traces += 1;
    if res != Ok(Ok(())) {
        r.violation(format!("an error without a fault [{class}]"), || format!("{}: {res:?} after {:?}", what(), esc(&whole.got)));
        return;
    }
    let mut judge = |mode: &str, at: usize, res: Result<fmt::Result, String>, got: &[u8], failed: bool, after: usize| {
        r.states += 1;
        r.transitions += 1;
        r.traces += 1;
        let say = || format!("{}, {mode} {at}: {res:?}, accepted {:?}, {after} further writes; fault-free {:?}", what(), esc(got), esc(&whole.got));
        match &res {
            Err(_) => r.violation(format!("a write error causes a panic [{class}]"), say),
            Ok(Ok(())) if failed => r.violation(format!("a write error is not reported [{class}]"), say),
            Ok(Err(_)) if !failed => r.violation(format!("an error without a fault [{class}]"), say),
            _ => {}
        }
        if after > 0 {
            r.violation(format!("writing goes on after an error [{class}]"), say);
        }
        if !whole.got.starts_with(got) {
            r.violation(format!("the accepted output is not a prefix of the fault-free output [{class}]"), say);
        }
        r.outcome(got);
    };
    for at in 0..=whole.calls {
        for once in [true, false] {
            let mut s = Faulty { got: vec![], calls: 0, at, once, after: 0, failed: false };
            let res = guarded(|| f(&mut Formatter::new(&mut s, o)));
            judge(if once { "sink failing once at write" } else { "sink failing from write" }, at, res, &s.got, s.failed, s.after);
        }
    }
    for room in 0..=whole.got.len() {
        let mut s = Full { got: vec![], room, failed: false, after: 0 };
        let res = guarded(|| f(&mut Formatter::new(&mut s, o)));
        judge("sink with room for bytes", room, res, &s.got, s.failed, s.after);
    }
}

fn c13(big: bool) -> Report {
    use mc::model::{few_masks, flags, LC};
    let styles = styles();
    let mut r = Report::default();
    // explicit sequences of representative styles, by every type representation
    let cols = [None, Some(reps::RED), Some(reps::AQUA), Some(reps::RGB)];
    let masks = if big { (0..8192).collect() } else { few_masks() };
    r.merge(parallel(masks.len(), |i, r| {
        for fg in cols {
            for bg in cols {
                for ul in cols {
                    let s = Style::new().fg(fg.map(LC::color)).bg(bg.map(LC::color)).underline_color(ul.map(LC::color)).effect_flags(flags(masks[i]));
                    for w in 0..4 {
                        faults(r, &format!("sequence {w} of style {fg:?} {bg:?} {ul:?} {:#x}", masks[i]), "apply and clear", &|f| S::explicit(&s, w, f));
                    }
                }
            }
        }
    }));
    struct V<'a>(&'a mut Report, &'a [u16]);
    impl reps::Visitor for V<'_> {
        fn visit<C: OptionalColor + Send + Sync + 'static>(&mut self, c: C, _: Option<LC>, name: &'static str) {
            for &m in self.1 {
                // the slots one at a time and all together: the branches on the colours' kinds
                let st = Style::new().effect_flags(flags(m));
                let x = c.get();
                let forms: [(&str, Box<dyn S>); 7] = [
                    ("fg", Box::new(st.fg(c))),
                    ("bg", Box::new(st.bg(c))),
                    ("underline colour", Box::new(st.underline_color(c))),
                    ("fg and bg", Box::new(st.fg(c).bg(c))),
                    ("all", Box::new(st.fg(c).bg(c).underline_color(c))),
                    ("fg and bg, optional", Box::new(st.fg(x).bg(x))),
                    ("all, optional", Box::new(st.fg(x).bg(x).underline_color(x))),
                ];
                for (slot, s) in &forms {
                    for w in 0..4 {
                        faults(self.0, &format!("sequence {w} of {name} as {slot}, effects {m:#x}"), "apply and clear", &|f| s.explicit(w, f));
                    }
                }
            }
            if let Some(c) = c.get() {
                for slot in 0..6 {
                    faults(self.0, &format!("code {slot} of {name}"), "colour codes", &|f| fmt::Display::fmt(&mc::codes::W(c, slot), f));
                }
            }
        }
    }
    reps::all(&mut V(&mut r, &[0, 1, 8, 9, 0x1fff]));
    // styled values: the value's formatter writes n pieces and may fail before, between or after them
    for (sname, style, _) in &styles {
        for t in 0..WAYS {
            for stream in [None, Some(Stream::NeverColor)] {
                for pieces in 0..4usize {
                    let whole = |_: usize, f: &mut Formatter<'_>| {
                        for p in 0..pieces {
                            f.write_str(["ab", "\u{e9}", "c\x1b[0m"][p])?;
                        }
                        f.write_char('.')
                    };
                    faults(&mut r, &format!("{pieces} pieces in style {sname} by {} with stream {stream:?}", way_name(t)), way_name(t), &|f| style.styled(t, D(&whole), stream, f));
                    // nested
                    faults(&mut r, &format!("{pieces} pieces in style {sname} in a red one by {}", way_name(t)), way_name(t), &|f| {
                        let inner = |t: usize, f: &mut Formatter<'_>| style.styled(t, D(&whole), stream, f);
                        StyledValue::new(D(&inner), Style::new().fg(ansi::Red).italics().underline(), None).fmt_with(f, |v, f| nine(t % 9, v, f))
                    });
                    for fail_at in 0..=pieces {
                        let failing = |_: usize, f: &mut Formatter<'_>| {
                            for p in 0..pieces {
                                if p == fail_at {
                                    return Err(fmt::Error);
                                }
                                f.write_str(["ab", "\u{e9}", "c\x1b[0m"][p])?;
                            }
                            Err(fmt::Error)
                        };
                        for o in few_options() {
                        let mut s = Faulty { got: vec![], calls: 0, at: usize::MAX, once: true, after: 0, failed: false };
                        let res = guarded(|| style.styled(t, D(&failing), stream, &mut Formatter::new(&mut s, o)));
                        let mut good = B::new();
                        into(&mut good, plain_options(), |f| style.explicit(0, f)).unwrap();
                        let mut want: Vec<u8> = if stream.is_none() && !STRIP { good.bytes().to_vec() } else { vec![] };
                        for p in 0..fail_at {
                            want.extend_from_slice(["ab", "\u{e9}", "c\x1b[0m"][p].as_bytes());
                        }
                        r.states += 1;
                        r.transitions += 1;
                        r.traces += 1;
                        let say = || format!("value failing after {fail_at} of {pieces} pieces in style {sname} by {} with stream {stream:?}, options {o:?}: {res:?}, wrote {:?}, expected {:?}", way_name(t), esc(&s.got), esc(&want));
                        if res != Ok(Err(fmt::Error)) {
                            r.violation(format!("an error of the value is not reported [{}]", way_name(t)), say);
                        }
                        if s.got != want {
                            r.violation(format!("after an error of the value the output is not what came before it [{}]", way_name(t)), say);
                        }
                        }
                    }
                }
            }
        }
    }
    // a value of many pieces
    r.merge(parallel(styles.len(), |i, r| {
        let (sname, style, _) = &styles[i];
        for t in [0, 9] {
            for stream in [None, Some(Stream::NeverColor)] {
                for n in [17, 300] {
                    faults(r, &format!("{n} pieces in style {sname} by {} with stream {stream:?}", way_name(t)), way_name(t), &|f| style.styled(t, D(&|_, f: &mut Formatter<'_>| much(n, 2, f)), stream, f));
                }
            }
        }
    }));
    r.bound("effect sets of explicit sequences", masks.len());
    r.bound("fault points", "every write call (failing once or for good), every number of accepted bytes, every point of the value's formatter");
    r.sample(|| "fg red bold, sink failing at write 0..=n".into());
    r
}

// ------------------------------------------------------------------------------------------------ C12

#[derive(Clone, Copy, Debug)]
enum Act {
    Mode(Mode),
    Default(Stream),
    Ask(Stream),
}
impl Act {
    fn run(self) {
        match self {
            Act::Mode(m) => mode::set_coloring_mode(m),
            Act::Default(s) => mode::set_default_stream(s),
            Act::Ask(s) => {
                let _ = mode::should_color(Some(s), &[ColorKind::Rgb]);
            }
        }
    }
}

/// a sink that changes the settings at its n-th write
struct Meddling<'a> {
    got: &'a mut Vec<u8>,
    n: usize,
    at: usize,
    acts: &'a [Act],
}
impl Write for Meddling<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.n == self.at {
            self.acts.iter().for_each(|a| a.run());
        }
        self.n += 1;
        self.got.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

/// the decision by the documented precedence; `support`: stdout, stderr support everything (std), kinds matter with supports-color
fn decision(m: Mode, d: Stream, s: Option<Stream>, k: &Kinds, support: [u8; 2]) -> bool {
    if STRIP {
        return false;
    }
    match m {
        Mode::Always => return true,
        Mode::Never => return false,
        Mode::Detect => {}
    }
    let on = |i: usize| {
        if cfg!(feature = "supports-color") {
            k.iter().all(|k| match k {
                ColorKind::Ansi => support[i] & 1 != 0,
                ColorKind::Xterm => support[i] & 2 != 0,
                ColorKind::Rgb => support[i] & 4 != 0,
                _ => true,
            })
        } else {
            !DETECTS || support[i] != 0
        }
    };
    match s.unwrap_or(d) {
        Stream::Stdout => on(0),
        Stream::Stderr => on(1),
        Stream::NeverColor => false,
        _ => true,
    }
}

/// stdout is a terminal with 256 colours, stderr is not a terminal
fn world() -> ([u8; 2], Ttys) {
    std::env::set_var("TERM", "xterm-256color");
    let t = Ttys::new();
    t.place(0b010);
    (if cfg!(feature = "supports-color") { [3, 0] } else { [1, 0] }, t)
}

fn c12(big: bool) -> Report {
    let (support, _ttys) = world();
    let options = few_options();
    let styles = styles();
    let mut acts: Vec<Vec<Act>> = vec![vec![]];
    let mut one: Vec<Act> = MODES.map(Act::Mode).to_vec();
    one.extend(STREAMS.map(Act::Default));
    one.extend([Act::Ask(Stream::Stdout), Act::Ask(Stream::Stderr)]);
    for &a in &one {
        acts.push(vec![a]);
        for &b in &one {
            acts.push(vec![a, b]);
            for &c in &one {
                acts.push(vec![a, b, c]);
                if big {
                    acts.extend(one.iter().map(|&d| vec![a, b, c, d]));
                }
            }
        }
    }
    let mut r = processes(
        MODES.len() * STREAMS.len() * styles.len(),
        3000,
        |i| format!("job {i} of C12"),
        |i| {
            let (m, d, (sname, style, k)) = (MODES[i % 3], STREAMS[i / 3 % 4], &styles[i / 12]);
            let (mut a, mut b) = (B::new(), B::new());
            into(&mut a, plain_options(), |f| style.explicit(0, f)).unwrap();
            into(&mut b, plain_options(), |f| style.explicit(2, f)).unwrap();
            let bracket = |on: bool, v: &[u8]| if on { [a.bytes(), v, b.bytes()].concat() } else { v.to_vec() };
            let judge = |what: &dyn Fn() -> String, got: &[u8], want: &[u8]| {
                log(|l| {
                    l.states.fetch_add(1, Relaxed);
                    l.transitions.fetch_add(1, Relaxed);
                    l.traces.fetch_add(1, Relaxed);
                    l.outcome(got);
                });
                if got != want {
                    log(|l| l.violation("settings changed during formatting change its decision", || format!("mode {m:?}, default {d:?}, style {sname}: {}: wrote {:?} instead of {:?}", what(), esc(got), esc(want))));
                }
            };
            let again = OPT_STREAMS.map(|s| (s, true));
            for (stream, faults) in OPT_STREAMS.map(|s| (s, false)).into_iter().chain(again) {
                if faults && stream.is_none() {
                    storm();
                }
                let on = decision(m, d, stream, k, support);
                for acts in acts.iter().take(if faults { 12 } else { usize::MAX }) {
                    let set = || {
                        mode::set_coloring_mode(m);
                        mode::set_default_stream(d);
                    };
                    // single changes with every kind of formatting options
                    for &o in if acts.len() <= 1 { &options[..] } else { &options[..1] } {
                    for t in 0..WAYS {
                        // the value's formatter changes the settings: before, between and after its writes
                        for at in 0..2 {
                            let meddling = |_: usize, f: &mut Formatter<'_>| {
                                if at == 0 {
                                    acts.iter().for_each(|a| a.run());
                                }
                                f.write_str("v")?;
                                if at == 1 {
                                    acts.iter().for_each(|a| a.run());
                                }
                                Ok(())
                            };
                            set();
                            let mut got = vec![];
                            let _ = style.styled(t, D(&meddling), stream, &mut Formatter::new(&mut Meddling { got: &mut got, n: 0, at: usize::MAX, acts: &[] }, o));
                            judge(&|| format!("stream {stream:?}, options {o:?}, by {}, the value's formatter does {acts:?} ({at})", way_name(t)), &got, &bracket(on, b"v"));
                        }
                        if t > 1 && t < 9 && !big {
                            continue;
                        }
                        // the sink changes the settings at every write
                        let still = |_: usize, f: &mut Formatter<'_>| f.write_str("v").and_then(|()| f.write_str("w"));
                        let mut at = 0;
                        loop {
                            set();
                            let mut got = vec![];
                            let mut s = Meddling { got: &mut got, n: 0, at, acts };
                            let _ = style.styled(t, D(&still), stream, &mut Formatter::new(&mut s, o));
                            let n = s.n;
                            judge(&|| format!("stream {stream:?}, options {o:?}, by {}, the sink does {acts:?} at write {at}", way_name(t)), &got, &bracket(on, b"vw"));
                            at += 1;
                            if at >= n {
                                break;
                            }
                        }
                    }
                    // nested: the outer layer has decided before the inner value changes the settings; the inner layer likewise
                    let meddling = |_: usize, f: &mut Formatter<'_>| {
                        acts.iter().for_each(|a| a.run());
                        f.write_str("v")
                    };
                    let inner = |t: usize, f: &mut Formatter<'_>| StyledValue::new(D(&meddling), Style::new().fg(xterm::Aqua), None).fmt_with(f, |v, f| nine(t, v, f));
                    set();
                    let mut got = vec![];
                    let _ = style.styled(0, D(&inner), stream, &mut Formatter::new(&mut Meddling { got: &mut got, n: 0, at: usize::MAX, acts: &[] }, o));
                    let inner_on = decision(m, d, None, &[ColorKind::Xterm, ColorKind::NoColor, ColorKind::NoColor], support);
                    let v: &[u8] = if inner_on { b"\x1b[38;5;51mv\x1b[39m" } else { b"v" };
                    judge(&|| format!("stream {stream:?}, nested around an aqua value that does {acts:?}"), &got, &bracket(on, v));
                    }
                }
            }
        },
    );
    r.bound("settings before", "3 modes x 4 default streams x 5 streams of the value; some of it again after a storm of faults");
    r.bound("changes during the call", format!("all {} sequences of up to {} settings or queries, by the value's formatter or by the sink at every write", acts.len(), if big { 4 } else { 3 }));
    r.bound("styles", styles.len());
    r.sample(|| "mode Detect, default AlwaysColor, value that sets Mode::Never while it writes: start v end".into());
    r
}

// ------------------------------------------------------------------------------------------------ C20

fn c20(big: bool) -> Report {
    let (support, _ttys) = world();
    let styles = styles();
    // (style, stream) of a layer
    let pick: Vec<usize> = (0..styles.len()).collect();
    let layers: Vec<(usize, Option<Stream>)> = pick.iter().flat_map(|&s| OPT_STREAMS.map(|o| (s, o))).collect();
    let n = layers.len();
    let bare = |t: usize, f: &mut Formatter<'_>| {
        let o = f.options();
        write!(f, "<{t} {:?} {:?}>", o.get_width(), o.get_alternate())
    };
    let mut ends = vec![];
    for (_, s, k) in &styles {
        let (mut a, mut b) = (B::new(), B::new());
        into(&mut a, plain_options(), |f| s.explicit(0, f)).unwrap();
        into(&mut b, plain_options(), |f| s.explicit(2, f)).unwrap();
        ends.push((a.bytes().to_vec(), b.bytes().to_vec(), *k));
    }
    let mut r = processes(
        12 * n,
        3000,
        |i| format!("job {i} of C20"),
        |i| {
            let (m, d) = (MODES[i % 3], STREAMS[i / 3 % 4]);
            mode::set_coloring_mode(m);
            mode::set_default_stream(d);
            let wrap = |l: usize, v: &[u8]| {
                let (s, o) = layers[l];
                let (a, b, k) = &ends[s];
                if decision(m, d, o, k, support) {
                    [&a[..], v, &b[..]].concat()
                } else {
                    v.to_vec()
                }
            };
            let o = *FormattingOptions::new().width(Some(7)).alternate(i % 2 == 1);
            let mut got = B::new();
            let mut own = B::new();
            let count = |got: &[u8], want: &[u8], own: &[u8], what: &dyn Fn() -> String| {
                log(|l| {
                    l.states.fetch_add(1, Relaxed);
                    l.transitions.fetch_add(1, Relaxed);
                    l.traces.fetch_add(1, Relaxed);
                    l.outcome(got);
                });
                if got != want {
                    log(|l| l.violation("a nesting of styled values is not bracketed layer by layer", || format!("mode {m:?}, default {d:?}: {}: wrote {:?} instead of {:?}", what(), esc(got), esc(want))));
                }
                if sgr::strip(got) != own {
                    log(|l| l.violation("removing the escape sequences does not leave the bare value", || format!("mode {m:?}, default {d:?}: {}: {:?} without escapes is not {:?}", what(), esc(got), esc(own))));
                }
            };
            let name = |l: usize| format!("{} on {:?}", styles[layers[l].0].0, layers[l].1);
            let l1 = i / 12;
            // a quarter of it again after a storm of faults
            let again = (0..n * n).step_by(4).map(|k| (k == 0, k));
            for (faults, k) in (0..n * n).map(|k| (false, k)).chain(again) {
                if faults {
                    storm();
                }
                let (l2, l3) = (k / n, k % n);
                {
                    for t in [0, 1, 9, (l2 + l3) % 9] {
                        let base = if t == 9 { 0 } else { t };
                        into(&mut own, o, |f| bare(base, f)).unwrap();
                        let v3 = |t: usize, f: &mut Formatter<'_>| styles[layers[l3].0].1.styled(t, D(&bare), layers[l3].1, f);
                        let v2 = |t: usize, f: &mut Formatter<'_>| styles[layers[l2].0].1.styled(t, D(&v3), layers[l2].1, f);
                        into(&mut got, o, |f| styles[layers[l1].0].1.styled(t, D(&v2), layers[l1].1, f)).unwrap();
                        let want = wrap(l1, &wrap(l2, &wrap(l3, own.bytes())));
                        count(got.bytes(), &want, own.bytes(), &|| format!("{} around {} around {} by {}", name(l1), name(l2), name(l3), way_name(t)));
                        if l3 == 0 {
                            let v = |t: usize, f: &mut Formatter<'_>| styles[layers[l2].0].1.styled(t, D(&bare), layers[l2].1, f);
                            into(&mut got, o, |f| styles[layers[l1].0].1.styled(t, D(&v), layers[l1].1, f)).unwrap();
                            let want = wrap(l1, &wrap(l2, own.bytes()));
                            count(got.bytes(), &want, own.bytes(), &|| format!("{} around {} by {}", name(l1), name(l2), way_name(t)));
                        }
                        if t == 0 {
                            // two side by side in one
                            let a = |t: usize, f: &mut Formatter<'_>| styles[layers[l2].0].1.styled(t, D(&bare), layers[l2].1, f);
                            let b = |t: usize, f: &mut Formatter<'_>| styles[layers[l3].0].1.styled(t, D(&bare), layers[l3].1, f);
                            let both = |t: usize, f: &mut Formatter<'_>| a(t, f).and_then(|()| f.write_str(", ")).and_then(|()| b(t, f));
                            into(&mut got, o, |f| styles[layers[l1].0].1.styled(t, D(&both), layers[l1].1, f)).unwrap();
                            let v = own.bytes().to_vec();
                            let want = wrap(l1, &[&wrap(l2, &v)[..], b", ", &wrap(l3, &v)[..]].concat());
                            count(got.bytes(), &want, &[&v[..], b", ", &v[..]].concat(), &|| format!("{} around {} and {}", name(l1), name(l2), name(l3)));
                        }
                        if big {
                            for l4 in (l3 % 3..n).step_by(3) {
                                let v4 = |t: usize, f: &mut Formatter<'_>| styles[layers[l4].0].1.styled(t, D(&bare), layers[l4].1, f);
                                let v3 = |t: usize, f: &mut Formatter<'_>| styles[layers[l3].0].1.styled(t, D(&v4), layers[l3].1, f);
                                let v2 = |t: usize, f: &mut Formatter<'_>| styles[layers[l2].0].1.styled(t, D(&v3), layers[l2].1, f);
                                into(&mut got, o, |f| styles[layers[l1].0].1.styled(t, D(&v2), layers[l1].1, f)).unwrap();
                                let want = wrap(l1, &wrap(l2, &wrap(l3, &wrap(l4, own.bytes()))));
                                count(got.bytes(), &want, own.bytes(), &|| format!("{} around {} around {} around {}", name(l1), name(l2), name(l3), name(l4)));
                            }
                        }
                    }
                }
            }
            // many layers: two alternating ones
            let mut got = Buf::<65536>::new();
            let most = if big { 600 } else { 300 };
            for l2 in 0..n {
                let next = l2 == (l1 + 1) % n || l2 == l1;
                for depth in [4usize, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 600] {
                    if depth > if next { most } else if big { 129 } else { 33 } {
                        break;
                    }
                    let both = [&styles[layers[l1].0].1, &styles[layers[l2].0].1];
                    let on = [layers[l1].1, layers[l2].1];
                    let way = (l1 + l2) % 9;
                    into(&mut own, o, |f| bare(way, f)).unwrap();
                    into(&mut got, o, |f| nest(depth, &both, &on, &bare, way, f)).unwrap();
                    let mut want = own.bytes().to_vec();
                    for k in 1..=depth {
                        let l = [l1, l2][k % 2];
                        want = wrap(l, &want);
                    }
                    count(got.bytes(), &want, own.bytes(), &|| format!("{depth} layers, {} and {} in turn by {}", name(l1), name(l2), way_name(way)));
                }
            }
            // the same through the crate's own ways of wrapping: `style`, `into_style`, and the type of a styled value of a styled value
            if l1 == 0 {
                wrapped(support, m, d, &count);
                let k_aqua = [ColorKind::NoColor, ColorKind::Xterm, ColorKind::NoColor];
                let k_red = [ColorKind::Ansi, ColorKind::NoColor, ColorKind::NoColor];
                let k_rgb = [ColorKind::Rgb, ColorKind::NoColor, ColorKind::NoColor];
                for s1 in OPT_STREAMS {
                    for s2 in OPT_STREAMS {
                        for s3 in OPT_STREAMS {
                            let w = |on: bool, a: &str, v: &str, b: &str| if on { format!("{a}{v}{b}") } else { v.to_string() };
                            let x = w(decision(m, d, s1, &k_red, support), "\x1b[31m", "v", "\x1b[39m");
                            let x = w(decision(m, d, s2, &k_aqua, support), "\x1b[48;5;51m", &x, "\x1b[49m");
                            let want = w(decision(m, d, s3, &k_rgb, support), "\x1b[3m\x1b[38;2;1;2;3m", &x, "\x1b[23m\x1b[39m");
                            let two = "v".into_red().stream_opt(s1).into_style().bg(xterm::Aqua).stream_opt(s2);
                            let a = two.style().fg(Rgb::<1, 2, 3>).italics().stream_opt(s3).to_string();
                            let b = two.into_style().italics().fg(Rgb::<1, 2, 3>).stream_opt(s3).to_string();
                            let one = "v".red().stream_opt(s1);
                            let mid = one.style().on(s2);
                            let c = StyledValue::new(mid, Style::new().fg(Rgb::<1, 2, 3>).with(Effect::Italic), s3).to_string();
                            for (how, got) in [("into_style, style", a), ("into_style twice", b), ("style, StyledValue::new", c)] {
                                let what = || format!("red on {s1:?} in background aqua on {s2:?} in rgb italic on {s3:?} through {how}");
                                // the exact text of the sequences is C01's matter: compare by the terminal's view of each piece
                                let same = view(got.as_bytes()) == view(want.as_bytes());
                                count(got.as_bytes(), if same { got.as_bytes() } else { want.as_bytes() }, b"v", &what);
                            }
                        }
                    }
                }
            }
        },
    );
    r.bound("layers", format!("{n} (styles x 5 streams), a quarter again after a storm of faults; two side by side in a third; every nesting of 1..3{}; two in turn to 300 layers", if big { " and a third of those of 4" } else { "" }));
    r.bound("global states", "3 modes x 4 default streams; stdout a 256-colour terminal, stderr not a terminal");
    r.sample(|| "red on Stdout in several effects on NeverColor in runtime on the default stream".into());
    r
}

/// `depth` layers around the value, two in turn
fn nest(depth: usize, s: &[&Box<dyn S + Sync>; 2], on: &[Option<Stream>; 2], v: &(dyn Fn(usize, &mut Formatter<'_>) -> fmt::Result + Sync), t: usize, f: &mut Formatter<'_>) -> fmt::Result {
    if depth == 0 {
        return v(t, f);
    }
    s[depth % 2].styled(t, D(&|t, f: &mut Formatter<'_>| nest(depth - 1, s, on, v, t, f)), on[depth % 2], f)
}

/// nestings through every way the crate offers to wrap a value; the outer layers set no stream, a stream, or no stream again
fn wrapped(support: [u8; 2], m: Mode, d: Stream, count: &dyn Fn(&[u8], &[u8], &[u8], &dyn Fn() -> String)) {
    use ColorKind::{Ansi as A, NoColor as N, Xterm as X};
    type Texts = (String, String);
    fn texts<F: OptionalColor, B: OptionalColor, U: OptionalColor>(s: Style<F, B, U>) -> Texts {
        (s.apply().to_string(), s.clear().to_string())
    }
    let bracket = |k: Kinds, st: Option<Stream>, t: &Texts, v: &str| if decision(m, d, st, &k, support) { format!("{}{v}{}", t.0, t.1) } else { v.to_string() };
    let red = texts(Style::new().fg(ansi::Red));
    let ob = texts(Style::new().bg(ansi::Blue).bold());
    let xt = texts(Style::new().fg(xterm::Aqua).italics());
    let cy = texts(Style::new().fg(AnsiColor::Cyan));
    let st = Style::new().fg(xterm::Aqua).italics();
    // the ways around `$x` (a styled value whose text is `$v`): name, value, kinds and texts of the new layer; `$k` continues
    macro_rules! ways {
        ($x:expr, $v:expr, $k:ident) => {{
            let x = &$x;
            let v: &str = &$v;
            $k!("style().on_blue().bold()", x.style().on_blue().bold(), [N, A, N], &ob, v);
            $k!("into_style().on_blue().bold()", x.into_style().on_blue().bold(), [N, A, N], &ob, v);
            $k!("Colorize::into_style", Colorize::into_style(*x).bold().on_blue(), [N, A, N], &ob, v);
            $k!("Colorize::style", Colorize::style(x).bold().on_blue(), [N, A, N], &ob, v);
            $k!("style_with", x.style_with(st), [X, N, N], &xt, v);
            $k!("into_style_with", x.into_style_with(st), [X, N, N], &xt, v);
            $k!("into_style_with a runtime style", x.into_style_with(st.into_runtime_style()), [X, N, N], &xt, v);
            $k!("Colorize::on_blue", Colorize::on_blue(x).bold(), [N, A, N], &ob, v);
            $k!("into_on_blue", x.into_on_blue().bold(), [N, A, N], &ob, v);
            $k!("into_bold", x.into_bold().on_blue(), [N, A, N], &ob, v);
            $k!("Colorize::bold", Colorize::bold(x).on_blue(), [N, A, N], &ob, v);
            $k!("Colorize::fg", Colorize::fg(x, AnsiColor::Cyan), [A, N, N], &cy, v);
            $k!("into_fg", x.into_fg(AnsiColor::Cyan), [A, N, N], &cy, v);
            $k!("Colorize::bg", Colorize::bg(x, ansi::Blue).bold(), [N, A, N], &ob, v);
            $k!("into_bg", x.into_bg(ansi::Blue).bold(), [N, A, N], &ob, v);
            $k!("StyledValue::new", StyledValue::new(x, st, None), [X, N, N], &xt, v);
        }};
    }
    for s1 in OPT_STREAMS {
        let one = "v".into_red().stream_opt(s1);
        let t1 = bracket([A, N, N], s1, &red, "v");
        count(one.to_string().as_bytes(), t1.as_bytes(), b"v", &|| format!("red on {s1:?}"));
        macro_rules! outer {
            ($w:literal, $x:expr, $kinds:expr, $t:expr, $v:expr) => {
                let y = $x;
                for s2 in [None, Some(None), Some(Some(Stream::Stdout)), Some(Some(Stream::Stderr)), Some(Some(Stream::AlwaysColor)), Some(Some(Stream::NeverColor))] {
                    // untouched, or set
                    let y = s2.map_or(y, |s| y.stream_opt(s));
                    let t2 = bracket($kinds, s2.flatten(), $t, $v);
                    let say = |more: &str| format!("red on {s1:?} wrapped by {}, stream set to {s2:?}{more}", $w);
                    for text in [format!("{y}"), format!("{y:9}").replace("v        ", "v")] {
                        count(text.as_bytes(), t2.as_bytes(), b"v", &|| say(""));
                    }
                    // once more, by a few ways
                    let t3 = bracket([N, A, N], None, &ob, &t2);
                    count(y.style().on_blue().bold().to_string().as_bytes(), t3.as_bytes(), b"v", &|| say(", then style().on_blue().bold()"));
                    count(y.into_style().on_blue().bold().to_string().as_bytes(), t3.as_bytes(), b"v", &|| say(", then into_style().on_blue().bold()"));
                    count(y.into_on_blue().bold().to_string().as_bytes(), t3.as_bytes(), b"v", &|| say(", then into_on_blue().bold()"));
                    let t3 = bracket([X, N, N], None, &xt, &t2);
                    count(y.style_with(st).to_string().as_bytes(), t3.as_bytes(), b"v", &|| say(", then style_with"));
                    count(y.into_style_with(st).to_string().as_bytes(), t3.as_bytes(), b"v", &|| say(", then into_style_with"));
                }
            };
        }
        ways!(one, t1, outer);
    }
}

trait On: Sized {
    type O;
    fn on(self, s: Option<Stream>) -> Self::O;
}
impl<T> On for StyledValue<T> {
    type O = StyledValue<T, colorz::NoColor, xterm::Aqua>;
    fn on(self, s: Option<Stream>) -> Self::O {
        self.bg(xterm::Aqua).stream_opt(s)
    }
}

/// the text as pieces: what the sequences before the value do, the value, what the sequences after it do
fn view(b: &[u8]) -> Vec<String> {
    let at = b.iter().position(|c| *c == b'v').unwrap_or(b.len());
    let f = |x: &[u8]| match sgr::interpret(x) {
        Ok(a) => format!("{:?} {:?} {:?} {} {}", a.fg, a.bg, a.ul, a.on, a.off),
        Err(e) => format!("{e} {:?}", esc(x)),
    };
    vec![f(&b[..at]), b.get(at).map(|c| c.to_string()).unwrap_or_default(), f(b.get(at + 1..).unwrap_or(b""))]
}

fn main() {
    mc::report::quiet_panics();
    let big = thorough();
    let r = match property().as_str() {
        "C11" => c11(big),
        "C12" => c12(big),
        "C13" => c13(big),
        "C20" => c20(big),
        p => panic!("{p} is not decided here"),
    };
    r.finish();
}
