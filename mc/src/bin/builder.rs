//! C15: every builder method in every state.  A style is its four public fields and a styled value those,
//! the value and the stream, so one step from every state covers every chain.
use colorz::ansi::{self, AnsiColor};
use colorz::mode::Stream;
use colorz::rgb::RgbColor;
use colorz::xterm;
use colorz::{Color, Colorize, Effect, NoColor, OptionalColor, Style, StyledValue};
use mc::model::{few_masks, flags, mask_of, EFFECTS};
use mc::report::{parallel, property, quiet_panics, thorough, Report};

#[derive(Clone, Copy, PartialEq, Debug)]
struct Snap {
    fg: Option<Color>,
    bg: Option<Color>,
    ul: Option<Color>,
    fx: u16,
    stream: Option<Stream>,
    /// identity of the wrapped value
    value: usize,
}

trait Id {
    fn id(&self) -> usize;
}
/// neither Copy nor Clone
#[derive(Debug, PartialEq)]
struct V(usize);
impl Id for V {
    fn id(&self) -> usize {
        self.0
    }
}
impl Id for u32 {
    fn id(&self) -> usize {
        *self as usize
    }
}
impl<T: ?Sized> Id for &T {
    fn id(&self) -> usize {
        (*self as *const T).cast::<u8>() as usize
    }
}
impl<T: Id, F, B, U> Id for StyledValue<T, F, B, U> {
    fn id(&self) -> usize {
        self.value.id()
    }
}

trait Slot: OptionalColor + Copy + Into<Option<Color>> {}
impl<C: OptionalColor + Copy + Into<Option<Color>>> Slot for C {}

fn col<C: Slot>(c: C) -> Option<Color> {
    c.into()
}
fn snap_style<F: Slot, B: Slot, U: Slot>(s: Style<F, B, U>) -> Snap {
    Snap { fg: col(s.foreground), bg: col(s.background), ul: col(s.underline_color), fx: mask_of(s.effects), stream: None, value: 0 }
}
fn snap<T: Id, F: Slot, B: Slot, U: Slot>(s: &StyledValue<T, F, B, U>) -> Snap {
    Snap { stream: s.stream, value: s.value.id(), ..snap_style(s.style) }
}

#[inline(never)]
fn judge(r: &mut Report, method: &str, before: Snap, got: Snap, want: Snap) {
    r.transitions += 1;
    r.traces += 1;
    if got != want {
        let part = [
            (got.fg != want.fg, "foreground"),
            (got.bg != want.bg, "background"),
            (got.ul != want.ul, "underline colour"),
            (got.fx != want.fx, "effects"),
            (got.stream != want.stream, "stream"),
            (got.value != want.value, "value"),
        ];
        let part: Vec<&str> = part.iter().filter(|p| p.0).map(|p| p.1).collect();
        r.violation(format!("{method} gets the {} wrong", part.join(", ")), || format!("{method} on {before:?} gives {got:?} instead of {want:?}"));
    }
}

macro_rules! colours {
    ($m:ident! $($a:tt)*) => {
        $m!{ $($a)*
            Black black into_black on_black into_on_black
            Red red into_red on_red into_on_red
            Green green into_green on_green into_on_green
            Yellow yellow into_yellow on_yellow into_on_yellow
            Blue blue into_blue on_blue into_on_blue
            Magenta magenta into_magenta on_magenta into_on_magenta
            Cyan cyan into_cyan on_cyan into_on_cyan
            White white into_white on_white into_on_white
            BrightBlack bright_black into_bright_black on_bright_black into_on_bright_black
            BrightRed bright_red into_bright_red on_bright_red into_on_bright_red
            BrightGreen bright_green into_bright_green on_bright_green into_on_bright_green
            BrightYellow bright_yellow into_bright_yellow on_bright_yellow into_on_bright_yellow
            BrightBlue bright_blue into_bright_blue on_bright_blue into_on_bright_blue
            BrightMagenta bright_magenta into_bright_magenta on_bright_magenta into_on_bright_magenta
            BrightCyan bright_cyan into_bright_cyan on_bright_cyan into_on_bright_cyan
            BrightWhite bright_white into_bright_white on_bright_white into_on_bright_white
        }
    };
}
macro_rules! effects {
    ($m:ident! $($a:tt)*) => {
        $m!{ $($a)*
            Bold bold into_bold
            Dimmed dimmed into_dimmed
            Italic italics into_italics
            Underline underline into_underline
            DoubleUnderline double_underline into_double_underline
            Blink blink into_blink
            BlinkFast blink_fast into_blink_fast
            Reversed reverse into_reverse
            Hidden hide into_hide
            Strikethrough strikethrough into_strikethrough
            Overline overline into_overline
            SuperScript superscript into_superscript
            SubScript subscript into_subscript
        }
    };
}

fn bit(e: Effect) -> u16 {
    1 << EFFECTS.iter().position(|x| *x == e).unwrap()
}
fn ansi_c(a: AnsiColor) -> Option<Color> {
    Some(Color::Ansi(a))
}
const RGBC: RgbColor = RgbColor { red: 9, green: 8, blue: 7 };

/// every method of `Style` on `s`
fn style_methods<F: Slot, B: Slot, U: Slot>(r: &mut Report, s: Style<F, B, U>, m: u16) {
    let b = snap_style(s);
    r.states += 1;
    if b.fx != m {
        return judge(r, "effect_flags", b, b, Snap { fx: m, ..b });
    }
    judge(r, "Style::fg", b, snap_style(s.fg(xterm::Aqua)), Snap { fg: Some(Color::from(xterm::Aqua)), ..b });
    judge(r, "Style::bg", b, snap_style(s.bg(RGBC)), Snap { bg: Some(Color::Rgb(RGBC)), ..b });
    judge(r, "Style::underline_color", b, snap_style(s.underline_color(AnsiColor::Green)), Snap { ul: ansi_c(AnsiColor::Green), ..b });
    judge(r, "Style::fg", b, snap_style(s.fg(NoColor)), Snap { fg: None, ..b });
    judge(r, "Style::bg", b, snap_style(s.bg(None::<Color>)), Snap { bg: None, ..b });
    judge(r, "Style::underline_color", b, snap_style(s.underline_color(NoColor)), Snap { ul: None, ..b });
    for (i, e) in EFFECTS.into_iter().enumerate() {
        judge(r, "Style::with", b, snap_style(s.with(e)), Snap { fx: m | 1 << i, ..b });
        judge(r, "Style::without", b, snap_style(s.without(e)), Snap { fx: m & !(1 << i), ..b });
        judge(r, "Style::toggled", b, snap_style(s.toggled(e)), Snap { fx: m ^ 1 << i, ..b });
        let other = EFFECTS[(i + 5) % 13];
        judge(r, "Style::effects_array", b, snap_style(s.effects_array([e, other])), Snap { fx: bit(e) | bit(other), ..b });
        judge(r, "Style::effects", b, snap_style(s.effects([other, e, e])), Snap { fx: bit(e) | bit(other), ..b });
        judge(r, "Style::effects", b, snap_style(s.effects(&[e])), Snap { fx: bit(e), ..b });
        // long lists in which only the last entry differs
        let mut long = [other; 20];
        long[19] = e;
        judge(r, "Style::effects_array", b, snap_style(s.effects_array(long)), Snap { fx: bit(e) | bit(other), ..b });
        judge(r, "Style::effects", b, snap_style(s.effects(long)), Snap { fx: bit(e) | bit(other), ..b });
        judge(r, "Style::effects", b, snap_style(s.effects(long.iter_mut().filter(|_| true))), Snap { fx: bit(e) | bit(other), ..b });
        if s.is(e) != (m >> i & 1 == 1) {
            r.violation("Style::is is wrong", || format!("is({e:?}) is {} for {b:?}", s.is(e)));
        }
    }
    judge(r, "Style::effects", b, snap_style(s.effects(std::iter::empty::<Effect>())), Snap { fx: 0, ..b });
    judge(r, "Style::effects", b, snap_style(s.effects(flags(!m & 0x1fff))), Snap { fx: !m & 0x1fff, ..b });
    judge(r, "Style::effects_array", b, snap_style(s.effects_array([])), Snap { fx: 0, ..b });
    judge(r, "Style::clear_effects", b, snap_style(s.clear_effects()), Snap { fx: 0, ..b });
    judge(r, "Style::effect_flags", b, snap_style(s.effect_flags(flags(!m & 0x1fff))), Snap { fx: !m & 0x1fff, ..b });
    macro_rules! fx { ($($e:ident $f:ident $i:ident)*) => { $( judge(r, concat!("Style::", stringify!($f)), b, snap_style(s.$f()), Snap { fx: m | bit(Effect::$e), ..b }); )* } }
    effects!(fx!);
}

/// every method of `StyledValue` on a value with style `s`
fn value_methods<F: Slot, B: Slot, U: Slot>(r: &mut Report, s: Style<F, B, U>, m: u16, stream: Option<Stream>) {
    let v = StyledValue::new(77u32, s, stream);
    let b = snap(&v);
    r.states += 1;
    judge(r, "StyledValue::new", b, b, Snap { fx: m, stream, value: 77, ..snap_style(s) });
    judge(r, "StyledValue::fg", b, snap(&v.fg(xterm::Aqua)), Snap { fg: Some(Color::from(xterm::Aqua)), ..b });
    judge(r, "StyledValue::bg", b, snap(&v.bg(RGBC)), Snap { bg: Some(Color::Rgb(RGBC)), ..b });
    judge(r, "StyledValue::underline_color", b, snap(&v.underline_color(AnsiColor::Green)), Snap { ul: ansi_c(AnsiColor::Green), ..b });
    judge(r, "StyledValue::fg", b, snap(&v.fg(NoColor)), Snap { fg: None, ..b });
    judge(r, "StyledValue::bg", b, snap(&v.bg(None::<Color>)), Snap { bg: None, ..b });
    judge(r, "StyledValue::underline_color", b, snap(&v.underline_color(NoColor)), Snap { ul: None, ..b });
    for st in [Stream::Stdout, Stream::Stderr, Stream::AlwaysColor, Stream::NeverColor] {
        judge(r, "StyledValue::stream", b, snap(&v.stream(st)), Snap { stream: Some(st), ..b });
        judge(r, "StyledValue::stream_opt", b, snap(&v.stream_opt(Some(st))), Snap { stream: Some(st), ..b });
    }
    judge(r, "StyledValue::stream_opt", b, snap(&v.stream_opt(None)), Snap { stream: None, ..b });
    macro_rules! fx { ($($e:ident $f:ident $i:ident)*) => { $( judge(r, concat!("StyledValue::", stringify!($f)), b, snap(&v.$f()), Snap { fx: m | bit(Effect::$e), ..b }); )* } }
    effects!(fx!);
    macro_rules! cs { ($($c:ident $f:ident $i:ident $o:ident $io:ident)*) => { $(
        judge(r, concat!("StyledValue::", stringify!($f)), b, snap(&v.$f()), Snap { fg: ansi_c(AnsiColor::$c), ..b });
        judge(r, concat!("StyledValue::", stringify!($o)), b, snap(&v.$o()), Snap { bg: ansi_c(AnsiColor::$c), ..b });
    )* } }
    colours!(cs!);
    // wrapping: a fresh layer around the untouched value
    let fresh = Snap { fg: None, bg: None, ul: None, fx: 0, stream: None, value: 0 };
    let w = StyledValue::style(&v);
    judge(r, "StyledValue::style", b, Snap { value: 0, ..snap(&w) }, fresh);
    judge(r, "StyledValue::style (inner)", b, snap(w.value), b);
    if !std::ptr::eq(w.value, &v) {
        r.violation("StyledValue::style wraps another value", || format!("{b:?}"));
    }
    let w = v.into_style();
    judge(r, "StyledValue::into_style", b, Snap { value: 0, ..snap(&w) }, fresh);
    judge(r, "StyledValue::into_style (inner)", b, snap(&w.value), b);
}

/// every method of `Colorize` on a value of type T, borrowing and consuming; `make` gives a new value with identity `id`
fn colorize<T: Id + Colorize>(r: &mut Report, ty: &str, make: impl Fn() -> T) {
    let v = make();
    let at = <&T as Id>::id(&&v);
    let id = v.id();
    let fresh = Snap { fg: None, bg: None, ul: None, fx: 0, stream: None, value: id };
    let by_ref = Snap { value: at, ..fresh };
    r.states += 1;
    macro_rules! j { ($name:expr, $got:expr, $want:expr) => { { let g = snap(&$got); judge(r, &format!("Colorize::{} for {ty}", $name), fresh, g, $want); } } }
    j!("style", Colorize::style(&v), by_ref);
    j!("into_style", Colorize::into_style(make()), fresh);
    for fx in few_masks() {
        for fg in [None, ansi_c(AnsiColor::Cyan)] {
            let s = Style::new().fg(fg).bg(xterm::Aqua).underline_color(RGBC).effect_flags(flags(fx));
            let want = Snap { fg, bg: Some(Color::from(xterm::Aqua)), ul: Some(Color::Rgb(RGBC)), fx, ..fresh };
            j!("into_style_with", make().into_style_with(s), want);
            j!("style_with", v.style_with(s), Snap { value: at, ..want });
        }
    }
    let g = ansi_c(AnsiColor::Green);
    j!("fg", Colorize::fg(&v, ansi::Green), Snap { fg: g, ..by_ref });
    j!("into_fg", make().into_fg(ansi::Green), Snap { fg: g, ..fresh });
    j!("bg", Colorize::bg(&v, AnsiColor::Green), Snap { bg: g, ..by_ref });
    j!("into_bg", make().into_bg(AnsiColor::Green), Snap { bg: g, ..fresh });
    j!("underline_color", Colorize::underline_color(&v, Color::from(ansi::Green)), Snap { ul: g, ..by_ref });
    j!("into_underline_color", make().into_underline_color(ansi::Green), Snap { ul: g, ..fresh });
    macro_rules! fx { ($($e:ident $f:ident $i:ident)*) => { $(
        j!(stringify!($f), Colorize::$f(&v), Snap { fx: bit(Effect::$e), ..by_ref });
        j!(stringify!($i), Colorize::$i(make()), Snap { fx: bit(Effect::$e), ..fresh });
    )* } }
    effects!(fx!);
    macro_rules! cs { ($($c:ident $f:ident $i:ident $o:ident $io:ident)*) => { $(
        j!(stringify!($f), Colorize::$f(&v), Snap { fg: ansi_c(AnsiColor::$c), ..by_ref });
        j!(stringify!($i), Colorize::$i(make()), Snap { fg: ansi_c(AnsiColor::$c), ..fresh });
        j!(stringify!($o), Colorize::$o(&v), Snap { bg: ansi_c(AnsiColor::$c), ..by_ref });
        j!(stringify!($io), Colorize::$io(make()), Snap { bg: ansi_c(AnsiColor::$c), ..fresh });
    )* } }
    colours!(cs!);
}

trait StyleVisitor {
    fn visit<F: Slot, B: Slot, U: Slot>(&mut self, s: Style<F, B, U>);
}
/// calls `v` with a style of every combination of slot types
fn product(v: &mut impl StyleVisitor, fx: u16) {
    fn b<F: Slot>(v: &mut impl StyleVisitor, s: Style<F, NoColor, NoColor>) {
        u(v, s);
        u(v, s.bg(ansi::BrightBlue));
        u(v, s.bg(Some(Color::Ansi(AnsiColor::Blue))));
    }
    fn u<F: Slot, B: Slot>(v: &mut impl StyleVisitor, s: Style<F, B, NoColor>) {
        v.visit(s);
        v.visit(s.underline_color(ansi::BrightYellow));
        v.visit(s.underline_color(Some(Color::Ansi(AnsiColor::Yellow))));
    }
    let s = Style::new().effect_flags(flags(fx));
    b(v, s);
    b(v, s.fg(ansi::BrightRed));
    b(v, s.fg(Some(Color::Ansi(AnsiColor::Red))));
}

struct Methods<'a> {
    r: &'a mut Report,
    fx: u16,
    streams: &'a [Option<Stream>],
}
impl StyleVisitor for Methods<'_> {
    fn visit<F: Slot, B: Slot, U: Slot>(&mut self, s: Style<F, B, U>) {
        style_methods(self.r, s, self.fx);
        for st in self.streams {
            value_methods(self.r, s, self.fx, *st);
        }
    }
}

fn main() {
    quiet_panics();
    assert_eq!(property(), "C15");
    let big = thorough();
    let streams = [None, Some(Stream::Stdout), Some(Stream::Stderr), Some(Stream::AlwaysColor), Some(Stream::NeverColor)];
    let mut r = parallel(8192, |i, r| {
        let fx = i as u16;
        let all = big || fx.count_ones() < 3 || fx.count_ones() > 11;
        product(&mut Methods { r, fx, streams: if all { &streams } else { &streams[i % 5..][..1] } }, fx);
        r.outcome(&fx);
    });
    let fresh = Snap { fg: None, bg: None, ul: None, fx: 0, stream: None, value: 0 };
    judge(&mut r, "Style::new", fresh, snap_style(Style::new()), fresh);
    judge(&mut r, "Style::default", fresh, snap_style(<Style<NoColor, NoColor, NoColor>>::default()), fresh);
    colorize(&mut r, "a struct", || V(5));
    colorize(&mut r, "u32", || 6u32);
    colorize(&mut r, "&str", || "text");
    colorize(&mut r, "&[u8]", || &[1u8, 2][..]);
    colorize(&mut r, "a styled value", || StyledValue::new(V(8), Style::new().fg(ansi::Magenta).bg(AnsiColor::Blue).bold(), Some(Stream::Stderr)));
    // unsized values, borrowed
    let t: &str = "unsized";
    let at = t.id();
    judge(&mut r, "Colorize::red for str", fresh, snap(&str::red(t)), Snap { fg: ansi_c(AnsiColor::Red), value: at, ..fresh });
    judge(&mut r, "Colorize::on_red for str", fresh, snap(&str::on_red(t)), Snap { bg: ansi_c(AnsiColor::Red), value: at, ..fresh });
    judge(&mut r, "Colorize::hide for str", fresh, snap(&str::hide(t)), Snap { fx: bit(Effect::Hidden), value: at, ..fresh });
    // the layer inside stays as it was
    let inner = StyledValue::new(V(9), Style::new().fg(ansi::Magenta).italics(), Some(Stream::Stdout));
    let was = snap(&inner);
    judge(&mut r, "Colorize::on_blue for a styled value (inner)", was, snap(Colorize::on_blue(&inner).value), was);
    judge(&mut r, "Colorize::into_bold for a styled value (inner)", was, snap(&Colorize::into_bold(inner).value), was);
    r.bound("effect sets", 8192);
    r.bound("types per colour slot", "absent, compile-time, runtime: 27 combinations");
    r.bound("streams", if big { "5 in every state" } else { "5 with up to 2 or at least 12 effects, one of 5 otherwise" });
    r.bound("methods", "all of Style (effects, colours, setters), StyledValue (48 named, colours, stream, wrapping) and Colorize (96 named and 10 general, for 5 types of value)");
    r.sample(|| "Style::toggled(Bold) on {fg: NoColor, bg: ansi::BrightBlue, underline: Some(Yellow), effects: 0b101} clears bit 0 only".into());
    r.finish();
}
