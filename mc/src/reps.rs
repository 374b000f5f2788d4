//! Every way of typing a colour slot of a style, with the logical colour it denotes.
use crate::model::LC;
use colorz::ansi::{self, AnsiColor};
use colorz::css::{self, CssColor};
use colorz::rgb::{Rgb, RgbColor};
use colorz::xterm::{self, XtermColor};
use colorz::{Color, NoColor, OptionalColor};

pub trait Visitor {
    fn visit<C: OptionalColor + Send + Sync + 'static>(&mut self, c: C, lc: Option<LC>, name: &'static str);
}

pub const RED: LC = LC::Ansi(1);
pub const DEFAULT: LC = LC::Ansi(16);
pub const BRIGHT_CYAN: LC = LC::Ansi(14);
pub const AQUA: LC = LC::Xterm(51);
pub const RGB: LC = LC::Rgb(7, 45, 210);
pub const RGBV: RgbColor = RgbColor { red: 7, green: 45, blue: 210 };
pub fn tomato() -> LC {
    LC::Css(crate::golden::CSS.iter().position(|c| c.0 == "Tomato").unwrap() as u8)
}

macro_rules! v {
    ($v:ident $lc:expr; $($c:expr),* $(,)?) => { $( $v.visit($c, $lc, stringify!($c)); )* };
}

/// all representations, in eight parts so that as many binaries can be built in parallel
pub fn p0(v: &mut impl Visitor) {
    v!(v None; NoColor, None::<Color>);
    v!(v Some(RED); Some(Color::Ansi(AnsiColor::Red)));
    v!(v Some(AQUA); Some(Color::Xterm(XtermColor::Aqua)));
    v!(v Some(tomato()); Some(Color::Css(CssColor::Tomato)));
    v!(v Some(RGB); Some(Color::Rgb(RGBV)));
}
pub fn p1(v: &mut impl Visitor) {
    v!(v None; Some(NoColor), None::<ansi::Red>);
    v!(v Some(RED); Some(ansi::Red));
}
pub fn p2(v: &mut impl Visitor) {
    v!(v None; None::<AnsiColor>, None::<RgbColor>);
    v!(v Some(RED); Some(AnsiColor::Red));
    v!(v Some(RGB); Some(RGBV));
}
pub fn p3(v: &mut impl Visitor) {
    v!(v None; None::<Option<Color>>, Some(None::<Color>));
    v!(v Some(RED); Some(Some(Color::Ansi(AnsiColor::Red))), ansi::Red);
}
pub fn p4(v: &mut impl Visitor) {
    v!(v Some(RED); AnsiColor::Red, Color::Ansi(AnsiColor::Red));
    v!(v Some(DEFAULT); AnsiColor::Default);
    v!(v Some(AQUA); Color::Xterm(XtermColor::Aqua));
    v!(v Some(tomato()); Color::Css(CssColor::Tomato));
    v!(v Some(RGB); Color::Rgb(RGBV));
}
pub fn p5(v: &mut impl Visitor) {
    v!(v Some(AQUA); xterm::Aqua, XtermColor::Aqua);
}
pub fn p6(v: &mut impl Visitor) {
    v!(v Some(tomato()); css::Tomato, CssColor::Tomato);
}
pub fn p7(v: &mut impl Visitor) {
    v!(v Some(RGB); Rgb::<7, 45, 210>, RGBV);
}
pub fn all(v: &mut impl Visitor) {
    p0(v);
    p1(v);
    p2(v);
    p3(v);
    p4(v);
    p5(v);
    p6(v);
    p7(v);
}
