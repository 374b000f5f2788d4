//! C04: the code every colour writes, on every layer and in every form (compile-time RGB types: colors_rgb).
use colorz::ansi::{self, AnsiColor};
use colorz::css::{self, CssColor};
use colorz::rgb::RgbColor;
use colorz::xterm::{self, XtermColor};
use colorz::Color;
use mc::codes::*;
use mc::golden;
use mc::report::{guarded, parallel, quiet_panics, Report};
use mc::sink::esc;
use std::fmt;

macro_rules! inherent {
    ($c:expr) => {
        [$c.foreground_args(), $c.background_args(), $c.underline_args(), $c.foreground_escape(), $c.background_escape(), $c.underline_escape()]
    };
}

struct Row {
    name: &'static str,
    /// associated constants; ANSI types have none for the underline layer
    consts: [Option<&'static str>; 6],
    args: Option<&'static str>,
    /// the runtime type's inherent functions, evaluated at compile time
    ct: [&'static str; 6],
    run: fn(&mut Report, &'static str, &[String; 6]),
}
macro_rules! consts {
    ($t:ty) => {
        [Some(<$t>::FOREGROUND_ARGS), Some(<$t>::BACKGROUND_ARGS), Some(<$t>::UNDERLINE_ARGS), Some(<$t>::FOREGROUND_ESCAPE), Some(<$t>::BACKGROUND_ESCAPE), Some(<$t>::UNDERLINE_ESCAPE)]
    };
}
macro_rules! ansi_rows { (() $($n:ident $v:tt,)*) => { [$( Row { name: stringify!($n),
    consts: [Some(ansi::$n::FOREGROUND_ARGS), Some(ansi::$n::BACKGROUND_ARGS), None, Some(ansi::$n::FOREGROUND_ESCAPE), Some(ansi::$n::BACKGROUND_ESCAPE), None],
    args: None, ct: inherent!(AnsiColor::$n), run: |r, n, w| unit(r, "ansi", n, ansi::$n, AnsiColor::$n, w) }, )*] } }
macro_rules! xterm_rows { (() $($n:ident $v:tt,)*) => { [$( Row { name: stringify!($n),
    consts: consts!(xterm::$n), args: Some(xterm::$n::ARGS), ct: inherent!(XtermColor::$n),
    run: |r, n, w| { unit(r, "xterm", n, xterm::$n, XtermColor::$n, w);
        // the literal macro names the same type: checked by its constants
        strs(r, "xterm", n, "xterm_from_code!", consts!(colorz::xterm_from_code!($v)), w);
    } }, )*] } }
macro_rules! css_rows { (() $($n:ident $v:tt,)*) => { [$( Row { name: stringify!($n),
    consts: consts!(css::$n), args: Some(css::$n::ARGS), ct: inherent!(CssColor::$n), run: |r, n, w| unit(r, "css", n, css::$n, CssColor::$n, w) }, )*] } }
static ANSI_ROWS: [Row; 17] = mc::all_ansi!(ansi_rows);
static XTERM_ROWS: [Row; 256] = mc::all_xterm!(xterm_rows);
static CSS_ROWS: [Row; golden::CSS.len()] = mc::all_css!(css_rows);

fn row(r: &mut Report, family: &'static str, row: &Row, raw: Option<String>, want: &[String; 6], rt: impl Fn() -> [&'static str; 6]) {
    strs(r, family, row.name, "associated constants", row.consts, want);
    strs(r, family, row.name, "constant evaluation of the runtime type", row.ct.map(Some), want);
    match guarded(&rt) {
        Ok(g) => strs(r, family, row.name, "runtime type", g.map(Some), want),
        Err(e) => r.violation(format!("{family} colour {}: runtime type: panic: {e}", row.name), || e.clone()),
    }
    if let (Some(raw), Some(a)) = (raw, row.args) {
        r.transitions += 1;
        if a != raw {
            r.violation(format!("{family} colour {}: ARGS is wrong", row.name), || format!("{a:?}, must be {raw:?}"));
        }
    }
    (row.run)(r, row.name, want);
}

fn tables() -> Report {
    let mut r = parallel(17, |i, r| {
        row(r, "ansi", &ANSI_ROWS[i], None, &six(|l| args_ansi(i as u8, l)), || inherent!(golden::ANSI[i].1));
        dynamic(r, "ansi", golden::ANSI[i].0, golden::ANSI[i].1, &six(|l| args_ansi(i as u8, l)));
    });
    r.merge(parallel(256, |i, r| {
        let want = six(|l| args_xterm(i as u8, l));
        row(r, "xterm", &XTERM_ROWS[i], Some(format!("5;{i}")), &want, || inherent!(golden::XTERM[i].1));
        dynamic(r, "xterm", golden::XTERM[i].0, golden::XTERM[i].1, &want);
        let name = format!("code {i}");
        for (form, c) in [("from_code", guarded(|| XtermColor::from_code(i as u8))), ("From<u8>", guarded(|| XtermColor::from(i as u8)))] {
            match c {
                Ok(c) => {
                    strs(r, "xterm", &name, form, inherent!(c).map(Some), &want);
                    if c != golden::XTERM[i].1 || c.args() != format!("5;{i}") {
                        r.violation(format!("xterm colour {name}: {form} gives another colour"), || format!("{form}({i}) = {c:?} with args {:?}", c.args()));
                    }
                }
                Err(e) => r.violation(format!("xterm colour {name}: {form}: panic: {e}"), || e.clone()),
            }
        }
    }));
    r.merge(parallel(golden::CSS.len(), |i, r| {
        let (x, y, z) = golden::CSS[i].2;
        let c = golden::CSS[i].1;
        row(r, "css", &CSS_ROWS[i], Some(format!("2;{x};{y};{z}")), &six(|l| args_rgb(x, y, z, l)), || inherent!(c));
        dynamic(r, "css", golden::CSS[i].0, c, &six(|l| args_rgb(x, y, z, l)));
        if guarded(|| (c.rgb(), c.args())) != Ok((RgbColor { red: x, green: y, blue: z }, &*format!("2;{x};{y};{z}"))) {
            r.violation(format!("css colour {}: rgb() or args() is wrong", golden::CSS[i].0), || format!("{:?} {:?}, must be {x} {y} {z}", c.rgb(), c.args()));
        }
    }));
    r.bound("table colours", format!("{} ansi, {} xterm, {} css", ANSI_ROWS.len(), XTERM_ROWS.len(), CSS_ROWS.len()));
    r
}

// ------------------------------------------------------------------ all 2^24 RGB values
struct Fast<'a> {
    want: &'a [u8],
    pos: usize,
    ok: bool,
}
impl fmt::Write for Fast<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.ok &= self.want[self.pos..].starts_with(s.as_bytes());
        self.pos += s.len().min(self.want.len() - self.pos);
        Ok(())
    }
}
fn rgb_runtime() -> Report {
    use fmt::Write;
    let dec: Vec<String> = (0..256).map(|i| i.to_string()).collect();
    let mut r = parallel(256, |red, r| {
        let mut s = String::with_capacity(64);
        for g in 0..256 {
            for b in 0..256 {
                let c = RgbColor { red: red as u8, green: g as u8, blue: b as u8 };
                let res = guarded(|| {
                    for slot in 0..6 {
                        s.clear();
                        for p in [["38;2;", "48;2;", "58;2;"][slot % 3], &dec[red], ";", &dec[g], ";", &dec[b]] {
                            s.push_str(p);
                        }
                        if slot >= 3 {
                            s.insert_str(0, "\x1b[");
                            s.push('m');
                        }
                        let mut f = Fast { want: s.as_bytes(), pos: 0, ok: true };
                        let e1 = write!(f, "{}", W(c, slot));
                        if !f.ok || f.pos != s.len() || e1.is_err() {
                            return Err((slot, "RgbColor"));
                        }
                        let mut f = Fast { want: s.as_bytes(), pos: 0, ok: true };
                        let e2 = write!(f, "{}", W(Color::Rgb(c), slot));
                        if !f.ok || f.pos != s.len() || e2.is_err() {
                            return Err((slot, "Color::Rgb"));
                        }
                    }
                    Ok(())
                });
                match res {
                    Ok(Ok(())) => (),
                    Ok(Err((slot, form))) => r.violation(format!("{form} {}: wrong text", SLOTS[slot]), || format!("{form} {c:?} {}: must be {:?}", SLOTS[slot], esc(s.as_bytes()))),
                    Err(e) => r.violation(format!("RgbColor: panic: {e}"), || format!("{c:?}")),
                }
            }
        }
        r.states += 65536;
        r.transitions += 65536 * 12;
        r.traces += 65536 * 12;
    });
    r.bound("runtime RGB values", "all 2^24, RgbColor and Color::Rgb, six writers each");
    r
}

fn main() {
    quiet_panics();
    let mut r = tables();
    r.merge(rgb_runtime());
    r.samples.push(format!("ansi BrightBlue: {:?}", ANSI_ROWS[12].ct.map(|s| esc(s.as_bytes()))));
    r.finish();
}
