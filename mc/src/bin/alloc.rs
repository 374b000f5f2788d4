//! C18: no heap allocation.  A counting allocator watches every operation of an exhaustive enumeration.
use colorz::ansi::{self, AnsiColor};
use colorz::css;
use colorz::mode::{self, ColorKind, Mode, Stream};
use colorz::rgb::{Rgb, RgbColor};
use colorz::xterm;
use colorz::{Color, Colorize, Effect, EffectFlags, OptionalColor, Style, StyledValue};
use mc::codes::W;
use mc::golden;
use mc::model::{few_masks, flags, LC};
use mc::report::{guarded, parallel, property, quiet_panics, thorough, Report};
use mc::reps;
use mc::sink::Buf;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::{self, Write};

thread_local! {
    static N: Cell<u64> = const { Cell::new(0) };
}
struct Counting;
// SAFETY: forwards to the system allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        N.with(|n| n.set(n.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        N.with(|n| n.set(n.get() + 1));
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, s: usize) -> *mut u8 {
        N.with(|n| n.set(n.get() + 1));
        System.realloc(p, l, s)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn allocations() -> u64 {
    N.with(|n| n.get())
}

type B = Buf<1024>;

/// runs `f`, which must not allocate; `f` returns how many operations it did
fn free<T>(r: &mut Report, class: &str, what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
    let before = allocations();
    let x = f();
    let n = allocations() - before;
    r.states += 1;
    r.transitions += 1;
    r.traces += 1;
    if n > 0 {
        r.violation(format!("{class} allocates"), || format!("{}: {n} allocations", what()));
    }
    Some(x)
}

struct V(Report, Vec<u16>);
impl reps::Visitor for V {
    fn visit<C: OptionalColor + Send + Sync + 'static>(&mut self, c: C, _: Option<LC>, name: &'static str) {
        let r = &mut self.0;
        let mut b = B::new();
        for &m in &self.1 {
            free(r, "building and writing a style", || format!("{name}, effects {m:#x}"), || {
                let s = Style::new().effect_flags(flags(m));
                let all = s.fg(c).bg(c).underline_color(c);
                b.clear();
                let _ = write!(b, "{}{}{:?}{:?}", all.apply(), all.clear(), all.apply(), all.clear());
                b.clear();
                let _ = write!(b, "{:#}{:>30}{:.1}{:#?}", all.apply(), all.clear(), all.apply(), all.clear());
                b.clear();
                let (f, g, h) = (s.fg(c), s.bg(c), s.underline_color(c));
                let _ = write!(b, "{}{}{}{}{}{}", f.apply(), f.clear(), g.apply(), g.clear(), h.apply(), h.clear());
                b.clear();
                let (f, g) = (StyledValue::new(1u8, f, None), StyledValue::new("x", g, Some(Stream::AlwaysColor)));
                let _ = write!(b, "{f:>+30}{f:#?}{g:30}{g:.0}{:?}", StyledValue::new(1.5, h, None));
                std::hint::black_box((all.is_plain(), all.should_color(Stream::Stdout), all.should_color(None)));
                let v = StyledValue::new(1u8, all, None);
                b.clear();
                let _ = write!(b, "{v}{v:?}{v:x}{v:X}{v:o}{v:b}{v:e}{v:E}{}", v.stream(Stream::NeverColor));
            });
        }
        if let Some(c) = c.get() {
            for slot in 0..6 {
                free(r, "writing a colour", || format!("{name}, form {slot}"), || {
                    b.clear();
                    let _ = write!(b, "{}", W(c, slot));
                });
            }
        }
    }
}

/// formats by its closure, through fmt_with
struct With<F: Fn(&mut fmt::Formatter<'_>) -> fmt::Result>(F);
impl<F: Fn(&mut fmt::Formatter<'_>) -> fmt::Result> fmt::Display for With<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (self.0)(f)
    }
}

fn main() {
    quiet_panics();
    assert_eq!(property(), "C18");
    let big = thorough();
    // the counter counts
    let c = allocations();
    drop(std::hint::black_box(Box::new(1)));
    assert!(allocations() > c, "ENGINE: allocations are not counted");
    // first-time stream detection is exempt
    mode::should_color(Some(Stream::Stdout), &[]);
    mode::should_color(Some(Stream::Stderr), &[]);

    let mut r = Report::default();
    let mut v = V(Report::default(), if big { (0..8192).collect() } else { few_masks() });
    reps::all(&mut v);
    r.merge(v.0);

    for m in few_masks() {
        free(&mut r, "converting a style", || format!("effects {m:#x}"), || {
            let s = Style::new().effect_flags(flags(m));
            std::hint::black_box([
                s.fg(ansi::Red).bg(xterm::Aqua).underline_color(css::Tomato).into_runtime_style(),
                s.fg(AnsiColor::Red).bg(Rgb::<1, 2, 3>).underline_color(Some(Color::from(css::Tomato))).into_runtime_style(),
                s.bg(xterm::Aqua).underline_color(ansi::Red).const_into_runtime_style(),
                s.fg(css::Tomato).bg(Rgb::<1, 2, 3>).const_into_runtime_style(),
                s.into_runtime_style(),
            ]);
        });
    }
    // runtime styles
    let cols = [None, Some(reps::RED), Some(reps::DEFAULT), Some(reps::AQUA), Some(reps::tomato()), Some(reps::RGB)];
    r.merge(parallel(8192, |i, r| {
        let mut b = B::new();
        for fg in cols {
            for bg in cols {
                for ul in cols {
                    free(r, "building and writing a style", || format!("runtime {fg:?} {bg:?} {ul:?}, effects {i:#x}"), || {
                        let s = Style::new().fg(fg.map(LC::color)).bg(bg.map(LC::color)).underline_color(ul.map(LC::color)).effect_flags(flags(i as u16));
                        b.clear();
                        let _ = write!(b, "{}{}{}", s.apply(), s.clear(), Style::clear_all());
                        std::hint::black_box(s.into_runtime_style().is_plain());
                    });
                }
            }
        }
        // effect sets
        let m = i as u16;
        free(r, "an operation on effect sets", || format!("effects {m:#x}"), || {
            let f = flags(m);
            let mut n = 0;
            for e in f {
                n += e as u32 + f.without(e).iter().count() as u32 + f.toggled(e).iter().last().map_or(0, |e| e as u32);
            }
            let g: EffectFlags = f.iter().collect();
            let mut h = g;
            h.set(Effect::Bold);
            h.unset(Effect::Blink);
            h.toggle(Effect::Hidden);
            b.clear();
            let _ = write!(b, "{f:?}");
            std::hint::black_box((n, g == f, h.is_any(g), Style::new().effects(f).is(Effect::Bold)));
        });
    }));

    // every colour of every table in every form
    let mut b = B::new();
    let mut every: Vec<Color> = golden::ANSI.iter().map(|x| Color::Ansi(x.1)).collect();
    every.extend(golden::XTERM.iter().map(|x| Color::Xterm(x.1)));
    every.extend(golden::CSS.iter().map(|x| Color::Css(x.1)));
    for i in 0..=255u8 {
        every.extend([(i, 0, 255), (9, i, 10), (100, 99, i)].map(|(red, green, blue)| Color::Rgb(RgbColor { red, green, blue })));
    }
    for c in &every {
        for slot in 0..6 {
            free(&mut r, "writing a colour", || format!("{c:?}, form {slot}"), || {
                b.clear();
                let _ = match *c {
                    Color::Ansi(a) => write!(b, "{}{}", W(a, slot), W(*c, slot)),
                    Color::Xterm(a) => write!(b, "{}{}", W(a, slot), W(*c, slot)),
                    Color::Css(a) => write!(b, "{}{}{}", W(a, slot), W(*c, slot), W(a.rgb(), slot)),
                    Color::Rgb(a) => write!(b, "{}{}", W(a, slot), W(*c, slot)),
                };
            });
        }
    }

    // formatting in every global state, by every trait and fmt_with, on every stream
    for m in [Mode::Detect, Mode::Always, Mode::Never] {
        for d in [Stream::Stdout, Stream::Stderr, Stream::AlwaysColor, Stream::NeverColor] {
            free(&mut r, "setting or reading the global settings", || format!("{m:?} {d:?}"), || {
                mode::set_coloring_mode(m);
                mode::set_default_stream(d);
                std::hint::black_box((mode::get_coloring_mode(), mode::get_default_stream()));
            });
            for s in [None, Some(Stream::Stdout), Some(Stream::Stderr), Some(Stream::AlwaysColor), Some(Stream::NeverColor)] {
                let what = || format!("mode {m:?}, default stream {d:?}, stream {s:?}");
                free(&mut r, "a colouring decision", what, || {
                    use ColorKind::*;
                    for k in [&[][..], &[Ansi], &[Xterm, Rgb], &[NoColor, Ansi, Rgb]] {
                        std::hint::black_box(mode::should_color(s, k));
                    }
                    std::hint::black_box(Style::new().fg(ansi::Red).should_color(s));
                });
                free(&mut r, "formatting a styled value", what, || {
                    let p: *const u8 = &0;
                    let a = StyledValue::new(-42i64, Style::new().fg(ansi::Red).bg(Rgb::<1, 2, 3>).bold().underline().underline_color(css::Tomato), s);
                    b.clear();
                    let _ = write!(b, "{a}{a:?}{a:x}{a:X}{a:o}{a:b}{a:e}{a:E}{:p}{:>+9}{:#?}", p.into_green().stream_opt(s), a, a.style().on_red().stream_opt(s));
                    b.clear();
                    let t = "text".into_fg(Some(Color::from(xterm::Red))).italics().hide().stream_opt(s);
                    let w = With(|f| t.fmt_with(f, |t, f| f.pad(t)));
                    let _ = write!(b, "{t:^9}{w:-^9}{}{}", "x".red().on_blue().bold().stream_opt(s), "x".style_with(Style::new().blink()).stream_opt(s));
                    b.clear();
                    // long values, wide paddings, many layers
                    b.clear();
                    const LONG: &str = match std::str::from_utf8(&[b'x'; 3000]) {
                        Ok(s) => s,
                        Err(_) => panic!(),
                    };
                    let _ = write!(b, "{}", LONG.red().bold().underline().stream_opt(s));
                    b.clear();
                    let _ = write!(b, "{t:>600}{t:\u{e9}^600.3}{t:?}");
                    let deep = t.style().on_red().stream_opt(s);
                    let deep = deep.style().fg(Rgb::<1, 2, 3>).stream_opt(s);
                    let deep = deep.style().bold().underline().underline_color(css::Tomato).stream_opt(s);
                    let deep = deep.style().fg(Color::from(xterm::Red)).bg(Some(AnsiColor::Blue)).blink().stream_opt(s);
                    let _ = write!(b, "{deep}{deep:?}{deep:40}");
                    // a sink that fails
                    struct Fails;
                    impl Write for Fails {
                        fn write_str(&mut self, _: &str) -> fmt::Result {
                            Err(fmt::Error)
                        }
                    }
                    let _ = write!(Fails, "{t}");
                });
            }
        }
    }
    mode::set_coloring_mode(Mode::Detect);
    mode::set_default_stream(Stream::AlwaysColor);

    // parsing: everything accepted, everything short, long input
    let mut words: Vec<String> = (0..=255).flat_map(|i| [format!("{i}"), format!("{i:03}"), format!("#{i:02x}"), format!("#{i:X}"), format!("#{i:02x}00{i:02X}")]).collect();
    for (name, ..) in golden::ANSI.iter() {
        let mut n = String::new();
        for (i, c) in name.chars().enumerate() {
            if i > 0 && c.is_ascii_uppercase() {
                n.push(' ');
            }
            n.push(c.to_ascii_lowercase());
        }
        words.extend([n.clone(), n.to_ascii_uppercase(), n.replace(' ', "")]);
    }
    words.extend(["bright", "bright ", "purple", "detect", "always", "never", "stdout", "stderr", "NEVER", "256", "999", "#", "#xyz"].map(String::from));
    for n in 0..=300 {
        words.extend(["f", "7", "\u{e9}", " ", "A"].map(|c| c.repeat(n)));
        words.extend(["#", "1", "bright ", "never", "st", "red"].map(|p| format!("{p}{}", "e".repeat(n))));
    }
    words.extend([10, 100, 5000].map(|n| "bright red".repeat(n)));
    words.extend([10, 100, 5000].map(|n| format!("#{}", "f".repeat(n))));
    let alphabet: Vec<char> = if big { (0..128u8).map(char::from).collect() } else { "#0129afgxrbned \0\u{e9}".chars().collect() };
    let mut short = vec![String::new()];
    let mut from = 0;
    for _ in 0..3 {
        let to = short.len();
        for i in from..to {
            for c in &alphabet {
                let mut w = short[i].clone();
                w.push(*c);
                short.push(w);
            }
        }
        from = to;
    }
    words.extend(short);
    let mut accepted = 0u64;
    for w in &words {
        let ok = guarded(|| {
            free(&mut r, "parsing", || format!("{:?}", w.chars().take(20).collect::<String>()), || {
                let (c, m, s) = (w.parse::<Color>(), w.parse::<Mode>(), w.parse::<Stream>());
                b.clear();
                if let Err(e) = &m {
                    let _ = write!(b, "{e}");
                }
                if let Err(e) = &s {
                    let _ = write!(b, "{e}");
                }
                std::hint::black_box(Mode::from_ascii_bytes(w.as_bytes()).is_ok() & Stream::from_ascii_bytes(w.as_bytes()).is_ok());
                c.is_ok() as u64 + m.is_ok() as u64 + s.is_ok() as u64
            })
        });
        if let Ok(Some(n)) = ok {
            accepted += n;
        }
    }
    std::hint::black_box(AnsiColor::Red);
    for i in 0..r.states.min(8192) {
        r.outcome(&i);
    }
    r.bound("effect sets", 8192);
    r.bound("words parsed", format!("{} ({accepted} accepted)", words.len()));
    r.bound("global states", "3 modes x 4 default streams x 5 streams, both streams detected before");
    r.bound("type representations", "29 in every slot");
    r.sample(|| "StyledValue::new(-42, red on rgb, bold, underlined) by nine traits: 0 allocations".into());
    r.finish();
}
