//! C03: conversions of whole styles.
use colorz::{Color, ComptimeColor, NoColor, OptionalColor, Style};
use mc::model::{few_masks, flags, MStyle, LC};
use mc::render::*;
use mc::report::{guarded, parallel, Report};
use mc::reps;
use mc::sink::esc;

const fn table<F: ComptimeColor, K: ComptimeColor, U: ComptimeColor>(s: Style<F, K, U>, base: u16) -> [Style; 512]
where
    F: OptionalColor,
    K: OptionalColor,
    U: OptionalColor,
{
    let mut t = [s.const_into_runtime_style(); 512];
    let mut i = 0;
    while i < 512 {
        t[i] = s.effect_flags(flags(base + i as u16)).const_into_runtime_style();
        i += 1;
    }
    t
}
type S3 = Style<colorz::ansi::Red, colorz::xterm::Aqua, colorz::rgb::Rgb<7, 45, 210>>;
const S3V: S3 = Style::new().fg(colorz::ansi::Red).bg(colorz::xterm::Aqua).underline_color(colorz::rgb::Rgb::<7, 45, 210>);
static CONST_TABLES: [[Style; 512]; 16] = [
    table(S3V, 0),
    table(S3V, 512),
    table(S3V, 1024),
    table(S3V, 1536),
    table(S3V, 2048),
    table(S3V, 2560),
    table(S3V, 3072),
    table(S3V, 3584),
    table(S3V, 4096),
    table(S3V, 4608),
    table(S3V, 5120),
    table(S3V, 5632),
    table(S3V, 6144),
    table(S3V, 6656),
    table(S3V, 7168),
    table(S3V, 7680),
];
static CONST_PLAIN: [Style; 512] = table(Style::new(), 0);
static CONST_MIX: [Style; 512] = table(Style::new().bg(colorz::css::Tomato), 0);
const CONST_ARRAY: Style = Style::new()
    .fg(colorz::ansi::Red)
    .effects_array([colorz::Effect::Italic, colorz::Effect::Bold, colorz::Effect::Italic])
    .const_into_runtime_style();

fn same_runtime(r: &mut Report, what: &str, s: Style, m: MStyle) {
    r.states += 1;
    r.transitions += 1;
    r.traces += 1;
    let want = m.style();
    let ok = s == want && s.foreground == m.fg.map(LC::color) && s.background == m.bg.map(LC::color) && s.underline_color == m.ul.map(LC::color) && s.effects == flags(m.fx);
    if !ok {
        r.violation(format!("{what} changes the style [{}]", class(&m)), || format!("{what}: got {s:?}, want {want:?}"));
    }
    let (mut o, mut q) = (Out::new(), Out::new());
    if let Err(e) = guarded(|| run(s, &mut o)) {
        r.violation(format!("panic: {e} [{}]", class(&m)), || format!("{what}: {s:?}"));
        return;
    }
    if guarded(|| run(want, &mut q)).is_ok() && (o.apply.bytes() != q.apply.bytes() || o.clear.bytes() != q.clear.bytes() || o.plain != q.plain) {
        r.violation(format!("{what} changes the output [{}]", class(&m)), || format!("{what}: {s:?} writes {:?}, {want:?} writes {:?}", esc(o.apply.bytes()), esc(q.apply.bytes())));
    }
}

trait Conv: OptionalColor + Into<Option<Color>> + Send + Sync + 'static {}
impl<T: OptionalColor + Into<Option<Color>> + Send + Sync + 'static> Conv for T {}
macro_rules! conv_reps {
    ($m:ident $($rest:tt)*) => {
        $m!{ ($($rest)*)
            (NoColor, None) (None::<Color>, None)
            (colorz::ansi::Red, Some(reps::RED)) (colorz::ansi::AnsiColor::Red, Some(reps::RED)) (Color::Ansi(colorz::ansi::AnsiColor::Red), Some(reps::RED))
            (Some(Color::Ansi(colorz::ansi::AnsiColor::Red)), Some(reps::RED))
            (colorz::xterm::Aqua, Some(reps::AQUA)) (colorz::xterm::XtermColor::Aqua, Some(reps::AQUA))
            (colorz::css::Tomato, Some(reps::tomato())) (colorz::css::CssColor::Tomato, Some(reps::tomato()))
            (colorz::rgb::Rgb::<7, 45, 210>, Some(reps::RGB)) (reps::RGBV, Some(reps::RGB))
        }
    };
}
#[inline(never)]
fn conv3<F: Conv, K: Conv, U: Conv>(f: F, lf: Option<LC>, b: K, lb: Option<LC>, u: U, lu: Option<LC>, masks: &[u16], r: &mut Report) {
    for &fx in masks {
        let s = Style::new().fg(f).bg(b).underline_color(u).effect_flags(flags(fx));
        same_runtime(r, "into_runtime_style", s.into_runtime_style(), MStyle { fg: lf, bg: lb, ul: lu, fx });
    }
}
#[inline(never)]
fn conv2<F: Conv, K: Conv>(f: F, lf: Option<LC>, b: K, lb: Option<LC>, masks: &[u16], r: &mut Report) {
    macro_rules! m { (() $(($c:expr, $l:expr))*) => { $( conv3(f, lf, b, lb, $c, $l, masks, r); )* } }
    conv_reps!(m);
}
#[inline(never)]
fn conv1<F: Conv>(f: F, lf: Option<LC>, masks: &[u16], r: &mut Report) {
    macro_rules! m { (() $(($c:expr, $l:expr))*) => { $( conv2(f, lf, $c, $l, masks, r); )* } }
    conv_reps!(m);
}
fn conversions() -> Report {
    let masks = few_masks();
    let mut jobs: Vec<Box<dyn Fn(&mut Report) + Send + Sync>> = vec![];
    macro_rules! m { (() $(($c:expr, $l:expr))*) => { $( { let masks = masks.clone(); jobs.push(Box::new(move |r| conv1($c, $l, &masks, r))); } )* } }
    conv_reps!(m);
    let n = jobs.len();
    let mut r = parallel(n, |i, r| jobs[i](r));
    // constant evaluation
    for (i, t) in CONST_TABLES.iter().enumerate() {
        for (j, s) in t.iter().enumerate() {
            let m = MStyle { fg: Some(reps::RED), bg: Some(reps::AQUA), ul: Some(reps::RGB), fx: (i * 512 + j) as u16 };
            same_runtime(&mut r, "const_into_runtime_style (constant)", *s, m);
            same_runtime(&mut r, "const_into_runtime_style", S3V.effect_flags(flags(m.fx)).const_into_runtime_style(), m);
        }
    }
    for (j, s) in CONST_PLAIN.iter().enumerate() {
        same_runtime(&mut r, "const_into_runtime_style (constant)", *s, MStyle { fg: None, bg: None, ul: None, fx: j as u16 });
    }
    for (j, s) in CONST_MIX.iter().enumerate() {
        same_runtime(&mut r, "const_into_runtime_style (constant)", *s, MStyle { fg: None, bg: Some(reps::tomato()), ul: None, fx: j as u16 });
    }
    same_runtime(&mut r, "effects_array (constant)", CONST_ARRAY, MStyle { fg: Some(reps::RED), bg: None, ul: None, fx: 0b101 });
    // const_into_runtime_style for every compile-time colour on every slot
    #[inline(never)]
    fn slots<C: ComptimeColor>(c: C, l: Option<LC>, r: &mut Report) {
        let n = None;
        same_runtime(r, "const_into_runtime_style", Style::new().fg(c).const_into_runtime_style(), MStyle { fg: l, bg: n, ul: n, fx: 0 });
        same_runtime(r, "const_into_runtime_style", Style::new().bg(c).const_into_runtime_style(), MStyle { fg: n, bg: l, ul: n, fx: 0 });
        same_runtime(r, "const_into_runtime_style", Style::new().underline_color(c).const_into_runtime_style(), MStyle { fg: n, bg: n, ul: l, fx: 0 });
    }
    macro_rules! every {
        (($m:ident $k:ident) $($n:ident $v:tt,)*) => { $( slots(colorz::$m::$n, Some(LC::of(Color::$k(colorz::$m::$n::DYNAMIC))), &mut r); )* };
    }
    mc::all_ansi!(every ansi Ansi);
    mc::all_xterm!(every xterm Xterm);
    mc::all_css!(every css Css);
    r
}


fn main() {
    which();
    let mut r = conversions();
    r.sample(|| format!("const S3V.into_runtime = {:?}", S3V.const_into_runtime_style()));
    r.finish();
}
