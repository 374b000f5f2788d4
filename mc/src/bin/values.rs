//! C11: the value's own type plays no part: values of many concrete types, in a compile-time and in runtime styles.
#![feature(formatting_options)]
use colorz::ansi::{self, AnsiColor};
use colorz::css;
use colorz::mode::Stream;
use colorz::rgb::RgbColor;
use colorz::xterm;
use colorz::{Color, Colorize, Effect, NoColor, Style, StyledValue};
use mc::report::{parallel, property, Report};
use mc::sink::{esc, Buf};
use std::fmt::{self, Alignment, DebugAsHex, Formatter, FormattingOptions, Sign};

const STRIP: bool = cfg!(feature = "strip-colors");
type B = Buf<200_000>;
type Fixed = Style<ansi::Red, NoColor, NoColor>;

/// a formatter of the value alone; of the value in the compile-time style, and in a runtime style
type By<T> = fn(&T, &mut Formatter<'_>) -> fmt::Result;
type InFixed<T> = fn(T, Fixed, Option<Stream>, &mut Formatter<'_>) -> fmt::Result;
type InRuntime<T> = fn(T, Style, Option<Stream>, &mut Formatter<'_>) -> fmt::Result;

fn into<const N: usize>(b: &mut Buf<N>, o: FormattingOptions, f: impl FnOnce(&mut Formatter<'_>) -> fmt::Result) -> fmt::Result {
    b.clear();
    let r = f(&mut Formatter::new(b, o));
    if b.overflow {
        panic!("output longer than expected");
    }
    r
}

fn runtime_styles() -> [Style; 6] {
    [
        Style::new().into_runtime_style(),
        Style::new().bold().into_runtime_style(),
        Style::new().fg(ansi::Red).into_runtime_style(),
        Style::new().fg(Some(Color::from(ansi::Blue))).bg(Some(Color::from(xterm::Red))).into_runtime_style(),
        Style::new().underline_color(css::Tomato).underline().italics().into_runtime_style(),
        Style::new().bg(RgbColor { red: 1, green: 2, blue: 255 }).effect_flags(colorz::EffectFlags::all()).into_runtime_style(),
    ]
}

/// styles x options x decisions for one value of a concrete type
fn one_type<T>(r: &mut Report, name: &str, make: &dyn Fn() -> T, ways: &[(&str, By<T>, InFixed<T>, InRuntime<T>)]) {
    let streams: [(Option<Stream>, bool); 3] = [(None, !STRIP), (Some(Stream::AlwaysColor), !STRIP), (Some(Stream::NeverColor), false)];
    let (mut own, mut got) = (Box::new(B::new()), Box::new(B::new()));
    let fixed = Style::new().fg(ansi::Red);
    let mut styles = vec![(None, fixed.apply().to_string(), fixed.clear().to_string())];
    styles.extend(runtime_styles().map(|s| (Some(s), s.apply().to_string(), s.clear().to_string())));
    for o in options() {
        for &(way, direct, in_fixed, in_runtime) in ways {
            into(&mut own, o, |f| direct(&make(), f)).unwrap();
            for (st, a, b) in &styles {
                for (stream, coloured) in streams {
                    let res = match st {
                        None => into(&mut got, o, |f| in_fixed(make(), fixed, stream, f)),
                        Some(st) => into(&mut got, o, |f| in_runtime(make(), *st, stream, f)),
                    };
                    r.states += 1;
                    r.transitions += 1;
                    r.traces += 1;
                    let (a, b) = if coloured { (a.as_bytes(), b.as_bytes()) } else { (&b""[..], &b""[..]) };
                    if res.is_err() || got.bytes().strip_prefix(a).and_then(|g| g.strip_suffix(b)) != Some(own.bytes()) {
                        r.violation(format!("formatting a styled value is not start + value + end [{way} {name}]"), || {
                            format!(
                                "a {name} in {} (stream {stream:?}) by {way} with {o:?}: {:?} ({res:?}) instead of {:?}",
                                st.map_or("Style::new().fg(ansi::Red)".into(), |s| format!("{s:?}")),
                                esc(got.bytes()),
                                esc(&[a, own.bytes(), b].concat())
                            )
                        });
                    }
                }
            }
            r.outcome(own.bytes());
        }
    }
}

/// by each trait, and by the first of them inside fmt_with
macro_rules! ways {
    ($t:ty; $first:ident $($tr:ident)*) => {
        [ (
            concat!("fmt_with ", stringify!($first)),
            (|v, f| fmt::$first::fmt(v, f)) as By<$t>,
            (|v, st, s, f| StyledValue::new(v, st, s).fmt_with(f, |x, f| fmt::$first::fmt(x, f))) as InFixed<$t>,
            (|v, st, s, f| StyledValue::new(v, st, s).fmt_with(f, |x, f| fmt::$first::fmt(x, f))) as InRuntime<$t>,
        ), ways!(@ $t; $first) $(, ways!(@ $t; $tr))* ]
    };
    (@ $t:ty; $tr:ident) => { (
        stringify!($tr),
        (|v, f| fmt::$tr::fmt(v, f)) as By<$t>,
        (|v, st, s, f| fmt::$tr::fmt(&StyledValue::new(v, st, s), f)) as InFixed<$t>,
        (|v, st, s, f| fmt::$tr::fmt(&StyledValue::new(v, st, s), f)) as InRuntime<$t>,
    ) };
}

/// options around every distinction a formatter could make
fn options() -> Vec<FormattingOptions> {
    let o = FormattingOptions::new();
    let with = |f: &dyn Fn(&mut FormattingOptions)| {
        let mut o = o;
        f(&mut o);
        o
    };
    vec![
        o,
        with(&|o| {
            o.alternate(true);
        }),
        with(&|o| {
            o.width(Some(9));
        }),
        with(&|o| {
            o.precision(Some(0));
        }),
        with(&|o| {
            o.sign(Some(Sign::Plus)).sign_aware_zero_pad(true);
        }),
        with(&|o| {
            o.fill('*').align(Some(Alignment::Center)).debug_as_hex(Some(DebugAsHex::Upper));
        }),
        with(&|o| {
            o.alternate(true).width(Some(300)).precision(Some(2)).sign(Some(Sign::Minus)).align(Some(Alignment::Right));
        }),
    ]
}

/// value types of every size class, with and without destructors, shared, unsized behind pointers, styled themselves
fn types() -> Report {
    use std::borrow::Cow;
    use std::rc::Rc;
    use std::sync::Arc;
    let mut jobs: Vec<Box<dyn Fn(&mut Report) + Sync>> = vec![];
    macro_rules! ty { ($t:ty, $make:expr; $($tr:ident)*) => { jobs.push(Box::new(move |r| one_type::<$t>(r, stringify!($t), &|| $make, &ways!($t; $($tr)*)))) } }
    macro_rules! show { ($name:ident, $text:expr) => {
        impl fmt::Display for $name { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { f.pad($text) } }
    } }
    #[derive(Debug, Clone, Copy)]
    struct Zero;
    show!(Zero, "zero");
    #[derive(Debug)]
    #[repr(align(64))]
    struct Aligned(#[allow(dead_code)] u8);
    show!(Aligned, "aligned");
    #[derive(Debug)]
    struct Large([u64; 200]);
    impl fmt::Display for Large { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0.iter().sum::<u64>(), f) } }
    thread_local! {
        static ALIVE: std::cell::Cell<isize> = const { std::cell::Cell::new(0) };
    }
    #[derive(Debug)]
    struct Dropped;
    impl Dropped { fn new() -> Dropped { ALIVE.set(ALIVE.get() + 1); Dropped } }
    impl Drop for Dropped { fn drop(&mut self) { ALIVE.set(ALIVE.get() - 1); } }
    // its text tells whether exactly one is alive
    impl fmt::Display for Dropped { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { f.pad(if ALIVE.get() == 1 { "alive" } else { "not one alive" }) } }
    #[derive(Debug, Clone, Copy)]
    #[allow(dead_code)]
    enum Never {}
    trait Both: fmt::Display + fmt::Debug {}
    impl<T: fmt::Display + fmt::Debug + ?Sized> Both for T {}
    macro_rules! ints { ($($t:ty)*) => { $( for v in [<$t>::MIN, 0, 1, <$t>::MAX] { ty!($t, v; Display Debug LowerHex UpperHex Octal Binary LowerExp UpperExp); } )* } }
    ints!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize u128 i128);
    for v in [0.0f32, -1.5, f32::NAN] { ty!(f32, v; Display Debug LowerExp UpperExp); }
    for v in [0.0f64, -0.0, 1e300, f64::NEG_INFINITY] { ty!(f64, v; Display Debug LowerExp UpperExp); }
    for v in [false, true] { ty!(bool, v; Display Debug); }
    for v in ['\0', 'x', '\u{1f600}'] { ty!(char, v; Display Debug); }
    for v in ["", "x", "two\nlines", "\x1b[31mred\x1b[0m", "\u{1f600}"] {
        ty!(&str, v; Display Debug Pointer);
        ty!(String, v.to_string(); Display Debug);
        ty!(Box<str>, v.into(); Display Debug);
        ty!(Rc<str>, v.into(); Display Debug);
        ty!(Arc<str>, v.into(); Display Debug);
        ty!(Cow<'static, str>, Cow::Borrowed(v); Display Debug);
        ty!(Cow<'static, str>, Cow::Owned(v.to_string()); Display Debug);
        ty!(&&str, &v; Display Debug);
        ty!(Box<dyn Both>, Box::new(v.to_string()); Display Debug);
        ty!(&dyn Both, &v; Display Debug);
        ty!(std::ffi::OsString, v.into(); Debug);
        ty!(std::path::PathBuf, v.into(); Debug);
        ty!(std::path::Display<'_>, std::path::Path::new(v).display(); Display Debug);
        ty!(&[u8], v.as_bytes(); Debug);
        ty!(Vec<char>, v.chars().collect(); Debug);
        ty!(std::char::EscapeUnicode, v.chars().next().unwrap_or('-').escape_unicode(); Display);
    }
    ty!((), (); Debug);
    ty!(Zero, Zero; Display Debug);
    ty!(&Zero, &Zero; Display Debug Pointer);
    ty!(Box<Zero>, Box::new(Zero); Display Debug Pointer);
    ty!([Zero; 3], [Zero; 3]; Debug);
    ty!(std::marker::PhantomData<u8>, std::marker::PhantomData; Debug);
    ty!(Option<Never>, None; Debug);
    ty!(Option<Zero>, Some(Zero); Debug);
    ty!([u8; 0], []; Debug);
    ty!(Aligned, Aligned(3); Display Debug);
    ty!(Large, Large([3; 200]); Display Debug);
    ty!([u8; 300], [9; 300]; Debug);
    ty!(Dropped, Dropped::new(); Display Debug);
    ty!(Vec<Dropped>, vec![Dropped::new()]; Debug);
    ty!(Rc<Dropped>, Rc::new(Dropped::new()); Display Debug);
    ty!(Option<Box<u8>>, Some(Box::new(3)); Debug);
    ty!(Result<u8, String>, Err("no".into()); Debug);
    ty!(fmt::Error, fmt::Error; Display Debug);
    ty!(Box<dyn std::error::Error>, "text".into(); Display Debug);
    ty!(std::num::NonZeroU8, std::num::NonZeroU8::new(200).unwrap(); Display Debug LowerHex UpperHex Octal Binary LowerExp);
    ty!(std::num::Wrapping<i16>, std::num::Wrapping(-3); Display Debug LowerHex UpperHex Octal Binary);
    ty!(std::cell::Cell<u8>, std::cell::Cell::new(3); Debug);
    ty!(std::cell::RefCell<u8>, std::cell::RefCell::new(3); Debug);
    ty!(std::sync::Mutex<u8>, std::sync::Mutex::new(3); Debug);
    ty!(std::sync::atomic::AtomicU8, std::sync::atomic::AtomicU8::new(3); Debug);
    ty!(std::net::Ipv4Addr, std::net::Ipv4Addr::LOCALHOST; Display Debug);
    ty!(std::time::Duration, std::time::Duration::from_millis(1500); Debug);
    ty!((u8, &str, Zero), (1, "x", Zero); Debug);
    ty!(std::collections::BTreeMap<u8, &str>, [(1, "a"), (2, "b")].into(); Debug);
    static CELL: u8 = 0;
    ty!(*const u8, &CELL; Debug Pointer);
    ty!(&u8, &CELL; Display Debug LowerHex Octal Binary Pointer);
    fn number() -> u8 { 7 }
    ty!(fn() -> u8, number; Debug Pointer);
    ty!(*const str, "x" as *const str; Debug Pointer);
    // values that are styled themselves: with their own colours inside, without, and the crate's own types
    ty!(StyledValue<u8>, 3u8.into_style(); Display Debug LowerHex);
    ty!(StyledValue<&str, ansi::Blue>, StyledValue::new("inner", Style::new().fg(ansi::Blue), Some(Stream::AlwaysColor)); Display Debug);
    ty!(StyledValue<&str, ansi::Blue>, StyledValue::new("inner", Style::new().fg(ansi::Blue), Some(Stream::NeverColor)); Display Debug);
    ty!(StyledValue<StyledValue<Zero, css::Tomato>, Option<Color>>, Zero.into_fg(css::Tomato).into_style_with(Style::new().fg(Some(Color::from(xterm::Red)))); Display Debug);
    ty!(Style, runtime_styles()[3]; Debug);
    ty!(Option<Color>, Some(ansi::Red.into()); Debug);
    ty!(Color, css::Tomato.into(); Debug);
    ty!(AnsiColor, AnsiColor::Red; Debug);
    ty!(RgbColor, RgbColor { red: 1, green: 2, blue: 3 }; Debug);
    ty!(Effect, Effect::Bold; Debug);
    ty!(Stream, Stream::Stdout; Debug);
    let mut r = parallel(jobs.len(), |i, r| jobs[i](r));
    r.bound("concrete values", format!("{} of types of sizes 0 to 1600 bytes, with destructors, shared, behind pointers, styled themselves", jobs.len()));
    r
}


fn main() {
    mc::report::quiet_panics();
    if property() != "C11" {
        panic!("{} is not decided here", property());
    }
    types().finish();
}
