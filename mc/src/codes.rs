//! C04: judging the six texts of a colour.
use crate::report::{guarded, Report};
use crate::sink::{esc, show, Buf};
use colorz::{Color, ColorSpec, ComptimeColor, WriteColor};
use std::fmt::{self, Display, Formatter};

pub const SLOTS: [&str; 6] = ["foreground args", "background args", "underline args", "foreground escape", "background escape", "underline escape"];

/// the codes by the standard, without reference to colorz
pub fn args_ansi(i: u8, layer: usize) -> String {
    match (layer, i) {
        (0, 16) => "39".into(),
        (1, 16) => "49".into(),
        (_, 16) => "59".into(),
        (0, _) => format!("{}", if i < 8 { 30 + i } else { 90 + i - 8 }),
        (1, _) => format!("{}", if i < 8 { 40 + i } else { 100 + i - 8 }),
        _ => format!("58;5;{i}"),
    }
}
pub fn args_xterm(i: u8, layer: usize) -> String {
    format!("{}8;5;{i}", layer + 3)
}
pub fn args_rgb(r: u8, g: u8, b: u8, layer: usize) -> String {
    format!("{}8;2;{r};{g};{b}", layer + 3)
}
pub fn six(args: impl Fn(usize) -> String) -> [String; 6] {
    [args(0), args(1), args(2), format!("\x1b[{}m", args(0)), format!("\x1b[{}m", args(1)), format!("\x1b[{}m", args(2))]
}

pub struct W<C>(pub C, pub usize);
impl<C: WriteColor> Display for W<C> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match self.1 {
            0 => self.0.fmt_foreground_args(f),
            1 => self.0.fmt_background_args(f),
            2 => self.0.fmt_underline_args(f),
            3 => self.0.fmt_foreground(f),
            4 => self.0.fmt_background(f),
            _ => self.0.fmt_underline(f),
        }
    }
}

fn report(r: &mut Report, family: &str, name: &str, form: &str, slot: usize, got: &[u8], want: &str) {
    let d = || format!("{family} colour {name}, {form}, {}: {:?}, must be {want:?}", SLOTS[slot], esc(got));
    r.violation(format!("{family} colour {name}: {form}: {} is wrong", SLOTS[slot]), d);
}

pub fn strs(r: &mut Report, family: &str, name: &str, form: &str, got: [Option<&str>; 6], want: &[String; 6]) {
    r.states += 1;
    for i in 0..6 {
        let Some(g) = got[i] else { continue };
        r.transitions += 1;
        r.outcome(g);
        if g != want[i] {
            report(r, family, name, form, i, g.as_bytes(), &want[i]);
        }
    }
}
#[inline(never)]
pub fn written(r: &mut Report, family: &str, name: &str, form: &str, c: &dyn Any6, want: &[String; 6]) {
    r.states += 1;
    let mut b = Buf::<64>::new();
    for i in 0..6 {
        r.transitions += 1;
        r.traces += 1;
        match guarded(|| show(&mut b, &Slot(c, i))) {
            Ok(Ok(())) if b.bytes() == want[i].as_bytes() => (),
            Ok(Ok(())) => report(r, family, name, form, i, b.bytes(), &want[i]),
            Ok(Err(e)) => r.violation(format!("{family} colour {name}: {form}: {}: {e}", SLOTS[i]), || format!("{e}; written {:?}", esc(b.bytes()))),
            Err(e) => r.violation(format!("{family} colour {name}: {form}: {}: panic: {e}", SLOTS[i]), || e.clone()),
        }
    }
}
/// a colour behind a vtable, so that little code is generated per colour type
pub trait Any6 {
    fn write(&self, slot: usize, f: &mut Formatter<'_>) -> fmt::Result;
}
impl<C: WriteColor> Any6 for C {
    fn write(&self, slot: usize, f: &mut Formatter<'_>) -> fmt::Result {
        W(*self, slot).fmt(f)
    }
}
struct Slot<'a>(&'a dyn Any6, usize);
impl Display for Slot<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        self.0.write(self.1, f)
    }
}
pub trait Spec6 {
    fn spec(&self, slot: usize) -> &'static str;
}
impl<C: ColorSpec> Spec6 for C {
    fn spec(&self, slot: usize) -> &'static str {
        match slot {
            0 => self.foreground_args(),
            1 => self.background_args(),
            2 => self.underline_args(),
            3 => self.foreground_escape(),
            4 => self.background_escape(),
            _ => self.underline_escape(),
        }
    }
}
/// everything a compile-time colour type can be turned into
pub fn unit<C, D>(r: &mut Report, family: &str, name: &str, c: C, d: D, want: &[String; 6])
where
    C: ColorSpec + ComptimeColor + Into<D> + Into<Color> + Into<Option<Color>>,
    D: WriteColor + Into<Color> + Into<Option<Color>>,
{
    judge_unit(r, family, name, &c, &c, &c.into_dynamic(), &d, [Some(c.into()), Some(d.into()), C::VALUE], want)
}
#[inline(never)]
#[allow(clippy::too_many_arguments)]
fn judge_unit(r: &mut Report, family: &str, name: &str, spec: &dyn Spec6, c: &dyn Any6, into_dynamic: &dyn Any6, d: &dyn Any6, colors: [Option<Color>; 3], want: &[String; 6]) {
    match guarded(|| std::array::from_fn::<_, 6, _>(|i| spec.spec(i))) {
        Ok(g) => strs(r, family, name, "ColorSpec of the compile-time type", g.map(Some), want),
        Err(e) => r.violation(format!("{family} colour {name}: ColorSpec of the compile-time type: panic: {e}"), || e.clone()),
    }
    written(r, family, name, "WriteColor of the compile-time type", c, want);
    written(r, family, name, "WriteColor of into_dynamic", into_dynamic, want);
    written(r, family, name, "WriteColor of the runtime type", d, want);
    for (form, c) in ["WriteColor of Color", "WriteColor of Color (from the runtime type)", "WriteColor of VALUE"].iter().zip(colors) {
        match c {
            Some(c) => written(r, family, name, form, &c, want),
            None => r.violation(format!("{family} colour {name} has no VALUE"), String::new),
        }
    }
}
/// the runtime type's own ColorSpec
pub fn dynamic<D: ColorSpec>(r: &mut Report, family: &str, name: &str, d: D, want: &[String; 6]) {
    match guarded(|| std::array::from_fn::<_, 6, _>(|i| d.spec(i))) {
        Ok(g) => strs(r, family, name, "ColorSpec of the runtime type", g.map(Some), want),
        Err(e) => r.violation(format!("{family} colour {name}: ColorSpec of the runtime type: panic: {e}"), || e.clone()),
    }
    written(r, family, name, "into_dynamic of the runtime type", &d.into_dynamic(), want);
}

