//! C05: every path in the graph of colour conversions leads to the same colour, and kinds are right.
use colorz::ansi::{self, AnsiColor};
use colorz::css::{self, CssColor};
use colorz::mode::ColorKind;
use colorz::rgb::{Rgb, RgbColor};
use colorz::xterm::{self, XtermColor};
use colorz::{Color, ColorSpec, ComptimeColor, NoColor, OptionalColor, WriteColor};
use mc::golden;
use mc::model::LC;
use mc::report::{guarded, parallel, quiet_panics, thorough, Report};
use std::hash::{Hash, Hasher};

/// a state of the conversion graph: the form the colour currently has
#[derive(Clone, Copy)]
enum Form<U, D> {
    Unit(U),
    Dyn(D),
    Color(Color),
    Opt(Option<Color>),
    OptOpt(Option<Option<Color>>),
    OptDyn(Option<D>),
    OptUnit(Option<U>),
}
impl<U, D> Form<U, D> {
    fn name(&self) -> &'static str {
        match self {
            Form::Unit(_) => "compile-time type",
            Form::Dyn(_) => "runtime type",
            Form::Color(_) => "Color",
            Form::Opt(_) => "Option<Color>",
            Form::OptOpt(_) => "Option<Option<Color>>",
            Form::OptDyn(_) => "Option<runtime type>",
            Form::OptUnit(_) => "Option<compile-time type>",
        }
    }
}

/// what a family's types offer
trait Unit: ColorSpec + ComptimeColor + OptionalColor<Color = Self> + Into<Self::D> + Into<Color> + Into<Option<Color>> + 'static {
    type D: WriteColor + OptionalColor<Color = Self::D> + PartialEq + Copy + Into<Color> + Into<Option<Color>>;
    const DYNAMIC: Self::D;
    fn dynamic(self) -> Self::D;
    /// the runtime type's own into_dynamic, where it has one
    fn again(d: Self::D) -> Self::D;
    const KIND: ColorKind;
}
macro_rules! units {
    (($m:ident $d:ty, $k:ident) $($n:ident $v:tt,)*) => { $( impl Unit for $m::$n {
        type D = $d;
        const DYNAMIC: $d = $m::$n::DYNAMIC;
        fn dynamic(self) -> $d { self.into_dynamic() }
        fn again(d: $d) -> $d { d.into_dynamic() }
        const KIND: ColorKind = ColorKind::$k;
    } )* };
}
mc::all_ansi!(units ansi AnsiColor, Ansi);
mc::all_xterm!(units xterm XtermColor, Xterm);
mc::all_css!(units css CssColor, Rgb);
impl<const R: u8, const G: u8, const B: u8> Unit for Rgb<R, G, B> {
    type D = RgbColor;
    const DYNAMIC: RgbColor = Rgb::<R, G, B>::DYNAMIC;
    fn dynamic(self) -> RgbColor {
        self.into_dynamic()
    }
    fn again(d: RgbColor) -> RgbColor {
        d
    }
    const KIND: ColorKind = ColorKind::Rgb;
}

type F<U> = Form<U, <U as Unit>::D>;

/// the edges of the graph
fn edges<U: Unit>(f: F<U>) -> Vec<(&'static str, F<U>)> {
    match f {
        Form::Unit(u) => vec![
            ("Into runtime type", Form::Dyn(u.into())),
            ("DYNAMIC", Form::Dyn(<U as Unit>::DYNAMIC)),
            ("into_dynamic", Form::Dyn(u.dynamic())),
            ("Into Color", Form::Color(u.into())),
            ("Into Option<Color>", Form::Opt(u.into())),
            ("VALUE", Form::Opt(U::VALUE)),
            ("get", Form::OptUnit(u.get())),
            ("Some", Form::OptUnit(Some(u))),
        ],
        Form::Dyn(d) => vec![
            ("into_dynamic", Form::Dyn(U::again(d))),
            ("Into Color", Form::Color(d.into())),
            ("Into Option<Color>", Form::Opt(d.into())),
            ("get", Form::OptDyn(d.get())),
            ("Some", Form::OptDyn(Some(d))),
        ],
        Form::Color(c) => vec![("get", Form::Opt(c.get())), ("Into Option<Color>", Form::Opt(c.into()))],
        Form::Opt(o) => {
            let mut v = vec![("get", Form::Opt(o.get())), ("Some", Form::OptOpt(Some(o)))];
            if let Some(c) = o {
                v.push(("unwrap", Form::Color(c)));
            }
            v
        }
        Form::OptOpt(o) => vec![("get", Form::Opt(o.get()))],
        Form::OptDyn(o) => {
            let mut v = vec![("get", Form::OptDyn(o.get()))];
            if let Some(d) = o {
                v.push(("unwrap", Form::Dyn(d)));
            }
            v
        }
        Form::OptUnit(o) => {
            let mut v = vec![("get", Form::OptUnit(o.get()))];
            if let Some(u) = o {
                v.push(("unwrap", Form::Unit(u)));
            }
            v
        }
    }
}
/// what is wrong with a form that should be the colour `want`
fn wrong<U: Unit>(f: F<U>, want: LC) -> Option<String> {
    let c = want.color();
    let k = <U as Unit>::KIND;
    let (same, kinds): (bool, Vec<ColorKind>) = match f {
        Form::Unit(u) => (true, vec![WriteColor::color_kind(u), OptionalColor::color_kind(u), <U as ColorSpec>::KIND]),
        Form::Dyn(d) => (d == <U as Unit>::DYNAMIC && Into::<Color>::into(d) == c, vec![WriteColor::color_kind(d), OptionalColor::color_kind(d)]),
        Form::Color(x) => (x == c, vec![WriteColor::color_kind(x), OptionalColor::color_kind(x)]),
        Form::Opt(x) => (x == Some(c), vec![OptionalColor::color_kind(x)]),
        Form::OptOpt(x) => (x == Some(Some(c)), vec![OptionalColor::color_kind(x)]),
        Form::OptDyn(x) => (x.is_some_and(|d| Into::<Color>::into(d) == c), vec![OptionalColor::color_kind(x)]),
        Form::OptUnit(x) => (x.is_some(), vec![OptionalColor::color_kind(x)]),
    };
    if !same {
        Some("another colour".into())
    } else if let Some(x) = kinds.iter().find(|x| **x != k) {
        Some(format!("kind {x:?} instead of {k:?}"))
    } else {
        None
    }
}
fn paths<U: Unit>(r: &mut Report, f: F<U>, want: LC, trail: &mut Vec<&'static str>, depth: usize) {
    r.states += 1;
    if let Some(e) = wrong::<U>(f, want) {
        let last = trail.last().copied().unwrap_or("start");
        r.violation(format!("{want:?}: {} after {last}: {e}", f.name()), || format!("{want:?} by {}: {e}", trail.join(" -> ")));
        return;
    }
    if depth == 0 {
        r.traces += 1;
        return;
    }
    for (n, g) in edges::<U>(f) {
        r.transitions += 1;
        trail.push(n);
        paths::<U>(r, g, want, trail, depth - 1);
        trail.pop();
    }
}
fn unit<U: Unit>(r: &mut Report, u: U, want: LC, depth: usize) {
    if let Err(e) = guarded(|| paths::<U>(r, Form::Unit(u), want, &mut vec![], depth)) {
        r.violation(format!("{want:?}: panic: {e}"), || e.clone());
    }
}
fn hash(c: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}
fn check(r: &mut Report, what: String, ok: bool) {
    r.states += 1;
    r.transitions += 1;
    r.traces += 1;
    if !ok {
        r.violation(what.clone(), || what);
    }
}
fn runtime_forms<D: WriteColor + OptionalColor<Color = D> + Into<Color> + Into<Option<Color>> + PartialEq>(r: &mut Report, d: D, want: LC, k: ColorKind) {
    let c = want.color();
    let forms: [Option<Color>; 8] = [
        d.into(),
        Some(d.into()),
        d.get().and_then(|d| d.into()),
        Some(d).get().map(|d| d.into()),
        Some(Some(d)).get().map(|d| d.into()),
        Into::<Color>::into(d).get(),
        Some(Into::<Color>::into(d)).get(),
        Some(Some(Into::<Color>::into(d))).get(),
    ];
    let kinds = [WriteColor::color_kind(d), OptionalColor::color_kind(d), OptionalColor::color_kind(Some(d)), OptionalColor::color_kind(Some(Some(d))), WriteColor::color_kind(c), OptionalColor::color_kind(c), OptionalColor::color_kind(Some(c))];
    r.states += 1;
    r.transitions += 15;
    r.traces += 8;
    if forms.iter().any(|x| *x != Some(c)) {
        r.violation(format!("runtime {:?}: a conversion gives another colour", std::mem::discriminant(&want)), || format!("{want:?}: {forms:?}"));
    }
    if kinds.iter().any(|x| *x != k) {
        r.violation(format!("runtime {:?}: wrong kind", std::mem::discriminant(&want)), || format!("{want:?}: {kinds:?}"));
    }
}

fn main() {
    quiet_panics();
    let depth = if thorough() { 8 } else { 6 };
    let mut jobs: Vec<Box<dyn Fn(&mut Report) + Send + Sync>> = vec![];
    macro_rules! all { (($m:ident $k:ident) $($n:ident $v:tt,)*) => {{ let mut i = 0; $( { let l = LC::$k(i as u8); jobs.push(Box::new(move |r| unit(r, $m::$n, l, depth))); i += 1; } )* let _ = i; }} }
    mc::all_ansi!(all ansi Ansi);
    mc::all_xterm!(all xterm Xterm);
    mc::all_css!(all css Css);
    macro_rules! rgbs { ($(($a:literal $b:literal $c:literal))*) => { $( jobs.push(Box::new(move |r| unit(r, Rgb::<$a, $b, $c>, LC::Rgb($a, $b, $c), depth))); )* } }
    rgbs!((0 0 0) (255 255 255) (1 2 3) (3 2 1) (2 1 3) (10 100 200) (200 10 100) (100 200 10) (255 0 127) (0 127 255) (9 99 199));
    let mut r = parallel(jobs.len(), |i, r| jobs[i](r));
    r.bound("path length in the conversion graph", depth);
    r.bound("compile-time colours", jobs.len());

    // cross-family equivalents
    macro_rules! ansi_x { (() $($n:ident $v:tt,)*) => { $( if $v < 16u8 {
        let x = golden::XTERM[$v as usize].1;
        check(&mut r, format!("ansi {} has the wrong Xterm equivalent", stringify!($n)),
            XtermColor::from(ansi::$n::XTERM) == x && ansi::$n::DYNAMIC_XTERM == x && AnsiColor::$n.to_xterm() == x && XtermColor::from(AnsiColor::$n) == x && ansi::$n::XTERM.into_dynamic() == x);
    } )* } }
    mc::all_ansi!(ansi_x);
    macro_rules! css_r { (() $($n:ident ($a:tt, $b:tt, $c:tt),)*) => { $( {
        let x = RgbColor { red: $a, green: $b, blue: $c };
        check(&mut r, format!("css {} has the wrong RGB equivalent", stringify!($n)),
            RgbColor::from(css::$n::RGB) == x && css::$n::RGB.into_dynamic() == x && CssColor::$n.rgb() == x && RgbColor::from(CssColor::$n) == x);
    } )* } }
    mc::all_css!(css_r);
    macro_rules! code { (() $($n:ident $v:tt,)*) => { $( {
        let y: xterm::$n = colorz::xterm_from_code!($v);
        let x = XtermColor::$n;
        check(&mut r, format!("xterm {} does not round-trip through its code", stringify!($n)), XtermColor::from(y) == x && XtermColor::from_code($v) == x && XtermColor::from($v as u8) == x && x as u8 == $v);
    } )* } }
    mc::all_xterm!(code);

    // every runtime value
    for i in 0..17u8 {
        runtime_forms(&mut r, golden::ANSI[i as usize].1, LC::Ansi(i), ColorKind::Ansi);
    }
    for i in 0..=255u8 {
        runtime_forms(&mut r, golden::XTERM[i as usize].1, LC::Xterm(i), ColorKind::Xterm);
    }
    for (i, c) in golden::CSS.iter().enumerate() {
        runtime_forms(&mut r, c.1, LC::Css(i as u8), ColorKind::Rgb);
    }
    r.merge(parallel(256, |red, r| {
        for green in 0..=255 {
            for blue in 0..=255 {
                let c = RgbColor { red: red as u8, green, blue };
                runtime_forms(r, c, LC::Rgb(red as u8, green, blue), ColorKind::Rgb);
            }
        }
    }));
    r.bound("runtime colours", "all of the tables, all 2^24 RGB values");

    // no colour stays no colour
    let none: Option<Color> = NoColor.into();
    let kinds = [
        NoColor.color_kind(),
        Some(NoColor).color_kind(),
        None::<NoColor>.color_kind(),
        None::<Color>.color_kind(),
        None::<ansi::Red>.color_kind(),
        None::<AnsiColor>.color_kind(),
        None::<xterm::Aqua>.color_kind(),
        None::<XtermColor>.color_kind(),
        None::<css::Red>.color_kind(),
        None::<CssColor>.color_kind(),
        None::<RgbColor>.color_kind(),
        None::<Rgb<1, 2, 3>>.color_kind(),
        None::<Option<Color>>.color_kind(),
        Some(None::<Color>).color_kind(),
        Some(None::<RgbColor>).color_kind(),
    ];
    check(
        &mut r,
        "no colour does not stay no colour".into(),
        none.is_none()
            && <NoColor as ComptimeColor>::VALUE.is_none()
            && NoColor.get().is_none()
            && Some(NoColor).get().is_none()
            && None::<NoColor>.get().is_none()
            && None::<Color>.get().is_none()
            && None::<ansi::Red>.get().is_none()
            && None::<RgbColor>.get().is_none()
            && Some(None::<Color>).get().is_none()
            && None::<Option<Color>>.get().is_none(),
    );
    check(&mut r, "an absent colour reports a kind".into(), kinds.iter().all(|k| *k == ColorKind::NoColor));

    // distinct colours stay distinct, equal ones equal (also as hashes)
    let mut all: Vec<(LC, Color)> = vec![];
    all.extend((0..17).map(|i| LC::Ansi(i)).map(|l| (l, l.color())));
    all.extend((0..=255).map(|i| LC::Xterm(i)).map(|l| (l, l.color())));
    all.extend((0..golden::CSS.len()).map(|i| LC::Css(i as u8)).map(|l| (l, l.color())));
    for k in [0u8, 1, 2, 127, 255] {
        for m in [0u8, 1, 2, 127, 255] {
            for n in [0u8, 1, 2, 127, 255] {
                all.push((LC::Rgb(k, m, n), LC::Rgb(k, m, n).color()));
            }
        }
    }
    for (a, x) in &all {
        for (b, y) in &all {
            r.transitions += 1;
            let same = a == b;
            let family = match (x, y) {
                (Color::Ansi(x), Color::Ansi(y)) => (x == y) == same && (!same || hash(x) == hash(y)),
                (Color::Xterm(x), Color::Xterm(y)) => (x == y) == same && (!same || hash(x) == hash(y)),
                (Color::Css(x), Color::Css(y)) => (x == y) == same && (!same || hash(x) == hash(y)),
                (Color::Rgb(x), Color::Rgb(y)) => (x == y) == same && (!same || hash(x) == hash(y)),
                _ => true,
            };
            if (x == y) != same || (Some(*x) == Some(*y)) != same || !family || (same && hash(x) != hash(y)) {
                r.violation(format!("equality of {a:?} and {b:?} is wrong"), || format!("{x:?} {y:?}"));
            }
        }
    }
    r.bound("pairs of colours compared", all.len() * all.len());
    r.samples.push("ansi::Red -get-> Option<ansi::Red> -unwrap-> ansi::Red -VALUE-> Option<Color> -Some-> Option<Option<Color>> -get-> Option<Color>".into());
    r.finish();
}
