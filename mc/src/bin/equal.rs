//! C22: styles and colours compare, hash and copy by their components.
use colorz::ansi::{self, AnsiColor};
use colorz::css::{self, CssColor};
use colorz::mode::{ColorKind, Mode, Stream};
use colorz::rgb::{Rgb, RgbColor};
use colorz::xterm::{self, XtermColor};
use colorz::{Color, Colorize, NoColor, OptionalColor, Style, StyledValue};
use mc::model::{few_masks, flags, mask_of, EFFECTS, LC};
use mc::report::{guarded, hash, parallel, quiet_panics, thorough, Report};
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::Hash;

/// `==` both ways, `!=` both ways
fn equal<T: PartialEq + Copy>(a: T, b: T) -> [bool; 4] {
    [a == b, b == a, !(a != b), !(b != a)]
}
/// the parts are what tells two values apart
fn judge<T: PartialEq + Copy + Debug>(r: &mut Report, what: &str, a: T, b: T, same: bool) {
    r.transitions += 1;
    match guarded(|| equal(a, b)) {
        Ok(e) if e == [same; 4] => (),
        Ok(e) => r.violation(format!("{what}: {} values compare {}", if same { "equal" } else { "different" }, if same { "different" } else { "equal" }), || {
            format!("{a:?} and {b:?}: a == b, b == a, !(a != b), !(b != a) are {e:?}")
        }),
        Err(p) => r.violation(format!("{what}: comparing panics"), || format!("{a:?} and {b:?}: {p}")),
    }
}
fn hashes<T: Hash + Copy + Debug>(r: &mut Report, what: &str, a: T, b: T) {
    r.transitions += 1;
    if hash(&a) != hash(&b) || hash(&[a, b]) != hash(&[b, a]) {
        r.violation(format!("{what}: equal values hash differently"), || format!("{a:?} and {b:?}"));
    }
}

fn rgb(v: u32) -> RgbColor {
    RgbColor { red: (v >> 16) as u8, green: (v >> 8) as u8, blue: v as u8 }
}

/// all 2^24 RGB colours: each against itself, its 24 neighbours by one bit, and its permutations
fn rgbs() -> Report {
    let mut out = parallel(256, |red, r| {
        for low in 0..1u32 << 16 {
            let v = (red as u32) << 16 | low;
            let c = rgb(v);
            r.states += 1;
            let mut near: Vec<u32> = Vec::with_capacity(30);
            near.push(v);
            near.extend((0..24).map(|i| v ^ 1 << i));
            let [b0, b1, b2] = [v >> 16 & 255, v >> 8 & 255, v & 255];
            near.extend([[b1, b0, b2], [b0, b2, b1], [b2, b1, b0], [b1, b2, b0], [b2, b0, b1]].map(|[x, y, z]| x << 16 | y << 8 | z));
            for w in near {
                let d = rgb(w);
                let same = v == w;
                // (all the ways of comparing only where something is off)
                if (c == d) != same || (c != d) == same || (Color::Rgb(c) == Color::Rgb(d)) != same {
                    judge(r, "RgbColor", c, d, same);
                    judge(r, "Color", Color::Rgb(c), Color::from(d), same);
                }
                r.transitions += 3;
            }
            let other: RgbColor = c.clone();
            if hash(&c) != hash(&other) || hash(&Color::Rgb(c)) != hash(&Color::from(other)) || (other.red, other.green, other.blue) != (c.red, c.green, c.blue) {
                r.violation("RgbColor: a copy differs", || format!("{c:?} {other:?}"));
            }
        }
    });
    out.bound("RGB colours", "2^24, each against itself, its 24 neighbours by one bit and its permutations");
    out
}

/// every colour of the tables
fn table() -> Vec<(LC, Color)> {
    let mut all: Vec<LC> = vec![];
    all.extend((0..17).map(LC::Ansi));
    all.extend((0..=255).map(LC::Xterm));
    all.extend((0..mc::golden::CSS.len()).map(|i| LC::Css(i as u8)));
    // the RGB values of the CSS names and others around
    all.extend(mc::golden::CSS.iter().map(|c| LC::Rgb(c.2 .0, c.2 .1, c.2 .2)));
    for k in [0u8, 1, 2, 16, 127, 128, 254, 255] {
        for m in [0u8, 1, 2, 16, 127, 128, 254, 255] {
            for n in [0u8, 1, 2, 16, 127, 128, 254, 255] {
                all.push(LC::Rgb(k, m, n));
            }
        }
    }
    all.sort();
    all.dedup();
    all.into_iter().map(|l| (l, l.color())).collect()
}

/// colours that are easily taken for each other
fn alike() -> Vec<Option<(LC, Color)>> {
    let css = |n: &str| LC::Css(mc::golden::CSS.iter().position(|c| c.0 == n).unwrap() as u8);
    let mut v = vec![None];
    v.extend(
        [
            LC::Ansi(16),
            LC::Ansi(0),
            LC::Ansi(1),
            LC::Ansi(9),
            LC::Xterm(0),
            LC::Xterm(1),
            LC::Xterm(16),
            LC::Xterm(196),
            css("Red"),
            css("Black"),
            LC::Rgb(255, 0, 0),
            LC::Rgb(0, 0, 0),
            LC::Rgb(0, 0, 1),
        ]
        .map(|l| Some((l, l.color()))),
    );
    v
}

type Parts = [Option<LC>; 3];
fn make(slots: [Option<(LC, Color)>; 3], m: u16) -> Style {
    let [f, b, u] = slots.map(|s| s.map(|s| s.1));
    Style::new().fg(f).bg(b).underline_color(u).effect_flags(flags(m))
}
/// the same style built in other ways
fn again(slots: [Option<(LC, Color)>; 3], m: u16) -> [Style; 3] {
    let [f, b, u] = slots.map(|s| s.map(|s| s.0.color()));
    let mut s = Style::new().underline_color(None::<Color>).bg(None::<Color>).fg(None::<Color>);
    for i in (0..13).rev().filter(|i| m >> i & 1 == 0) {
        s = s.with(EFFECTS[i]);
    }
    for e in EFFECTS {
        s = s.toggled(e);
    }
    s.underline_color = u;
    s.foreground = f;
    s.background = b;
    let t = Style::new().effect_flags(flags(m)).underline_color(u).bg(b).fg(f).into_runtime_style();
    [s, t, t.clone()]
}

/// runtime styles
fn styles(big: bool) -> Report {
    let c = alike();
    let n = c.len();
    let triples: Vec<[Option<(LC, Color)>; 3]> = (0..n * n * n).map(|i| [c[i / n / n], c[i / n % n], c[i % n]]).collect();
    let parts = |t: &[Option<(LC, Color)>; 3]| -> Parts { t.map(|s| s.map(|s| s.0)) };
    let few = few_masks();
    // every triple of colours with every other, for some effect sets
    let masks: &[u16] = if big { &few } else { &[0, 1, 8, 0x1000, 0x1800, 0x1fff] };
    let mut out = parallel(triples.len(), |i, r| {
        let a = triples[i];
        for &m in masks {
            r.states += 1;
            let s = make(a, m);
            for t in again(a, m) {
                judge(r, "Style", s, t, true);
                hashes(r, "Style", s, t);
                r.traces += 1;
                if (t.foreground.map(LC::of), t.background.map(LC::of), t.underline_color.map(LC::of), mask_of(t.effects))
                    != (a[0].map(|x| x.0), a[1].map(|x| x.0), a[2].map(|x| x.0), m)
                {
                    r.violation("Style: a copy or conversion changes a part", || format!("{s:?} became {t:?}"));
                }
            }
            r.outcome(&hash(&s));
            for b in &triples {
                let t = make(*b, m);
                r.transitions += 1;
                if (s == t) != (parts(&a) == parts(b)) || (s != t) == (parts(&a) == parts(b)) {
                    judge(r, "Style", s, t, parts(&a) == parts(b));
                }
            }
        }
    });
    // every effect set with every other, for some triples, also such that differ in the other parts as well
    let some: Vec<usize> = vec![0, 1, n, n * n, n * n + n + 1, 3 * n * n + 5 * n + 11];
    out.merge(parallel(1 << 13, |m, r| {
        for (k, &i) in some.iter().enumerate() {
            let a = triples[i];
            let s = make(a, m as u16);
            r.states += 1;
            for t in again(a, m as u16) {
                judge(r, "Style", s, t, true);
                hashes(r, "Style", s, t);
            }
            for w in 0..1u16 << 13 {
                // the first triple with every set, the others with the sets that differ by one or two effects
                let d = w ^ m as u16;
                if k > 0 && (d == 0 || d.count_ones() > 2) {
                    continue;
                }
                let t = make(a, w);
                r.transitions += 1;
                if (s == t) != (d == 0) || (s != t) == (d == 0) {
                    judge(r, "Style", s, t, d == 0);
                }
            }
            for &j in &some {
                let t = make(triples[j], m as u16);
                judge(r, "Style", s, t, i == j);
            }
        }
    }));
    out.bound("styles compared", format!("all pairs of {} colour triples x {} effect sets; all pairs of 8192 effect sets", triples.len(), masks.len()));
    out
}

/// one type of style: equal exactly when the effects are, however it was made
fn typed<F, B, U>(r: &mut Report, name: &str, f: F, b: B, u: U)
where
    F: OptionalColor + PartialEq + Debug,
    B: OptionalColor + PartialEq + Debug,
    U: OptionalColor + PartialEq + Debug,
{
    let masks = few_masks();
    for &m in &masks {
        let s = Style::new().fg(f).bg(b).underline_color(u).effect_flags(flags(m));
        r.states += 1;
        for &w in &masks {
            let t = Style::new().effect_flags(flags(w)).underline_color(u).bg(b).fg(f);
            judge(r, &format!("Style of {name}"), s, t, m == w);
            let v = s.without(EFFECTS[3]).with(EFFECTS[7]);
            judge(r, &format!("Style of {name}"), v, t, (m & !8 | 128) == w);
        }
        // whatever wraps it
        for stream in [None, Some(Stream::Stdout), Some(Stream::Stderr), Some(Stream::AlwaysColor), Some(Stream::NeverColor)] {
            let v: StyledValue<String, F, B, U> = StyledValue::new("text".to_string(), s, stream);
            let c = v.clone();
            r.traces += 1;
            if c.value != "text" || c.style != s || c.stream != stream || v.value != "text" || v.style != s || v.stream != stream || mask_of(c.style.effects) != m {
                r.violation(format!("StyledValue of {name}: a clone differs"), || format!("{:?} {:?} {:?}", c.value, c.style, c.stream));
            }
            let v = StyledValue::new(7u8, s, stream);
            let c = v;
            if (c.value, c.stream) != (7, stream) || c.style != s {
                r.violation(format!("StyledValue of {name}: a copy differs"), || format!("{:?} {:?} {:?}", c.value, c.style, c.stream));
            }
            let w = 7u8.into_style_with(s);
            if w.style != s || w.stream.is_some() {
                r.violation(format!("StyledValue of {name}: into_style_with changes the style"), || format!("{:?} {:?}", w.style, w.stream));
            }
        }
    }
}

fn main() {
    quiet_panics();
    let big = thorough();
    let mut r = Report::default();
    r.merge(rgbs());
    // colours of all families, bare and in options
    let all = table();
    r.merge(parallel(all.len(), |i, r| {
        let (a, x) = all[i];
        r.states += 1;
        for (b, y) in &all {
            let same = a == *b;
            judge(r, "Color", x, *y, same);
            judge(r, "Option<Color>", Some(x), Some(*y), same);
            judge(r, "Option<Color>", Some(x), None, false);
            match (x, *y) {
                (Color::Ansi(x), Color::Ansi(y)) => judge(r, "AnsiColor", x, y, same),
                (Color::Xterm(x), Color::Xterm(y)) => judge(r, "XtermColor", x, y, same),
                (Color::Css(x), Color::Css(y)) => judge(r, "CssColor", x, y, same),
                (Color::Rgb(x), Color::Rgb(y)) => judge(r, "RgbColor", x, y, same),
                _ => (),
            }
            if same {
                hashes(r, "Color", x, *y);
                hashes(r, "Option<Color>", Some(x), Some(*y));
            }
            // as the foreground of one style and of another; as its foreground and as its background
            let base = Style::new().fg(None).bg(None).underline_color(None).bold();
            let style = |k: usize, c: Color| -> Style {
                let mut s: Style = base;
                match k {
                    0 => s.foreground = Some(c),
                    1 => s.background = Some(c),
                    _ => s.underline_color = Some(c),
                }
                s
            };
            for k in 0..3 {
                for l in 0..3 {
                    let (s, t) = (style(k, x), style(l, *y));
                    judge(r, "Style", s, t, same && k == l);
                }
            }
        }
        match x {
            Color::Ansi(c) => hashes(r, "AnsiColor", c, c.clone()),
            Color::Xterm(c) => hashes(r, "XtermColor", c, c.clone()),
            Color::Css(c) => hashes(r, "CssColor", c, c.clone()),
            Color::Rgb(c) => hashes(r, "RgbColor", c, c.clone()),
        }
        if LC::of(x.clone()) != a {
            r.violation("Color: a clone differs", || format!("{x:?}"));
        }
    }));
    r.bound("pairs of colours", all.len() * all.len());
    // compile-time types against themselves, in every form
    macro_rules! units {
        (($m:ident $d:ident) $($n:ident $v:tt,)*) => { $(
            judge(&mut r, stringify!($m), $m::$n, $m::$n.clone(), true);
            hashes(&mut r, stringify!($m), $m::$n, $m::$n);
            let ways: [Color; 4] = [$m::$n.into(), Color::$d($m::$n::DYNAMIC), <$m::$n as colorz::ComptimeColor>::VALUE.unwrap(), Color::from($m::$n::DYNAMIC)];
            for w in ways {
                judge(&mut r, "Color", ways[0], w, true);
                hashes(&mut r, "Color", ways[0], w);
            }
            r.states += 1;
        )* };
    }
    mc::all_ansi!(units ansi Ansi);
    mc::all_xterm!(units xterm Xterm);
    mc::all_css!(units css Css);
    judge(&mut r, "NoColor", NoColor, NoColor, true);
    // runtime styles
    r.merge(styles(big));
    // typed styles
    macro_rules! slots {
        ($($f:expr),*; $b:tt) => { $( slots!(@ $f; $b); )* };
        (@ $f:expr; [$($b:expr),*]) => { $(
            typed(&mut r, concat!(stringify!($f), ", ", stringify!($b), ", NoColor"), $f, $b, NoColor);
            typed(&mut r, concat!(stringify!($f), ", NoColor, ", stringify!($b)), $f, NoColor, $b);
            typed(&mut r, concat!("NoColor, ", stringify!($f), ", ", stringify!($b)), NoColor, $f, $b);
            typed(&mut r, concat!("all ", stringify!($f), ", ", stringify!($b)), $f, $b, $f);
        )* };
    }
    slots!(NoColor, ansi::Red, AnsiColor::Red, xterm::Aqua, XtermColor::Aqua, css::Tomato, CssColor::Tomato, Rgb::<1, 2, 3>, Some(Color::Ansi(AnsiColor::Red)), None::<Color>, Some(Some(NoColor)), RgbColor { red: 1, green: 2, blue: 3 };
        [NoColor, ansi::Red, XtermColor::Aqua, Rgb::<1, 2, 3>, Some(CssColor::Tomato), None::<ansi::Red>, Color::Rgb(RgbColor { red: 1, green: 2, blue: 3 })]);
    // the small types
    macro_rules! small {
        ($what:literal: $($v:expr),*) => {
            let v = [$($v),*];
            for (i, a) in v.iter().enumerate() {
                for (j, b) in v.iter().enumerate() {
                    judge(&mut r, $what, *a, b.clone(), i == j);
                }
                r.states += 1;
            }
        };
        (hash $what:literal: $($v:expr),*) => {
            small!($what: $($v),*);
            for v in [$($v),*] {
                hashes(&mut r, $what, v, v.clone());
            }
            let n = [$($v),*].len();
            if HashSet::from([$($v),*]).len() != n {
                r.violation(concat!($what, ": a HashSet holds too few"), || String::new());
            }
        };
    }
    small!("Mode": Mode::Detect, Mode::Always, Mode::Never);
    small!(hash "Stream": Stream::Stdout, Stream::Stderr, Stream::AlwaysColor, Stream::NeverColor);
    small!(hash "ColorKind": ColorKind::Ansi, ColorKind::Xterm, ColorKind::Rgb, ColorKind::NoColor);
    small!(hash "Effect": EFFECTS[0], EFFECTS[1], EFFECTS[2], EFFECTS[3], EFFECTS[4], EFFECTS[5], EFFECTS[6], EFFECTS[7], EFFECTS[8], EFFECTS[9], EFFECTS[10], EFFECTS[11], EFFECTS[12]);
    use colorz::mode::{ModeFromStrError, StreamFromStrError};
    use colorz::ParseColorError as E;
    small!("ParseColorError": E::InvalidHexDigit, E::U8Overflow, E::UnknownColor);
    small!("ModeFromStrError": ModeFromStrError);
    small!("StreamFromStrError": StreamFromStrError);
    // as keys of a table
    let colours: HashSet<Color> = all.iter().map(|c| c.1).chain(all.iter().map(|c| c.0.color())).collect();
    if colours.len() != all.len() {
        r.violation("Color: a HashSet holds the wrong number", || format!("{} instead of {}", colours.len(), all.len()));
    }
    let c = alike();
    let mut keys: HashSet<Style> = HashSet::new();
    for _ in 0..2 {
        for f in &c {
            for b in &c {
                for u in [None, c[3]] {
                    for m in few_masks() {
                        keys.insert(make([*f, *b, u], m));
                    }
                }
            }
        }
    }
    let want = c.len() * c.len() * 2 * few_masks().len();
    if keys.len() != want {
        r.violation("Style: a HashSet holds the wrong number", || format!("{} instead of {want}", keys.len()));
    }
    r.bound("keys in a HashSet", format!("{want} styles, {} colours", all.len()));
    r.sample(|| "Style { foreground: css Red } != Style { foreground: rgb (255, 0, 0) }".into());
    r.finish();
}
