//! The reference model: what a style *is*, without any reference to how colorz writes it.
use crate::golden;
use crate::sgr::Col;
use colorz::ansi::AnsiColor;
use colorz::rgb::RgbColor;
use colorz::xterm::XtermColor;
use colorz::{Color, Effect, EffectFlags};

/// A colour by identity. `Css` holds an index into the golden table.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum LC {
    Ansi(u8),
    Xterm(u8),
    Css(u8),
    Rgb(u8, u8, u8),
}

impl LC {
    pub fn color(self) -> Color {
        match self {
            LC::Ansi(i) => Color::Ansi(golden::ANSI[i as usize].1),
            LC::Xterm(i) => Color::Xterm(golden::XTERM[i as usize].1),
            LC::Css(i) => Color::Css(golden::CSS[i as usize].1),
            LC::Rgb(red, green, blue) => Color::Rgb(RgbColor { red, green, blue }),
        }
    }
    /// the terminal colour on the foreground or background layer
    pub fn col(self) -> Col {
        match self {
            LC::Ansi(16) => Col::Default,
            LC::Ansi(i) => Col::Ansi(i),
            LC::Xterm(i) => Col::Idx(i),
            LC::Css(i) => {
                let (r, g, b) = golden::CSS[i as usize].2;
                Col::Rgb(r, g, b)
            }
            LC::Rgb(r, g, b) => Col::Rgb(r, g, b),
        }
    }
    /// on the underline layer there are no short ANSI codes, palette colours use the 256-colour form
    pub fn ul_col(self) -> Col {
        match self.col() {
            Col::Ansi(i) => Col::Idx(i),
            c => c,
        }
    }
    /// identity of a `Color`, by the golden tables
    pub fn of(c: Color) -> LC {
        match c {
            Color::Ansi(a) => LC::Ansi(golden::ANSI.iter().position(|x| x.1 == a).unwrap() as u8),
            Color::Xterm(a) => LC::Xterm(golden::XTERM.iter().position(|x| x.1 == a).unwrap() as u8),
            Color::Css(a) => LC::Css(golden::CSS.iter().position(|x| x.1 == a).unwrap() as u8),
            Color::Rgb(c) => LC::Rgb(c.red, c.green, c.blue),
        }
    }
    pub fn ansi(i: u8) -> AnsiColor {
        golden::ANSI[i as usize].1
    }
    pub fn xterm(i: u8) -> XtermColor {
        golden::XTERM[i as usize].1
    }
}

pub const EFFECTS: [Effect; 13] = [
    Effect::Bold,
    Effect::Dimmed,
    Effect::Italic,
    Effect::Underline,
    Effect::DoubleUnderline,
    Effect::Blink,
    Effect::BlinkFast,
    Effect::Reversed,
    Effect::Hidden,
    Effect::Strikethrough,
    Effect::Overline,
    Effect::SuperScript,
    Effect::SubScript,
];

pub const fn flags(mask: u16) -> EffectFlags {
    let mut f = EffectFlags::new();
    let mut i = 0;
    while i < 13 {
        if mask & 1 << i != 0 {
            f = f.with(EFFECTS[i]);
        }
        i += 1;
    }
    f
}

pub fn mask_of(f: EffectFlags) -> u16 {
    let mut m = 0;
    for (i, e) in EFFECTS.iter().enumerate() {
        if f.is(*e) {
            m |= 1 << i;
        }
    }
    m
}

/// effect sets with at most two effects, all of them, and all but one: one on each side of every branch
pub fn few_masks() -> Vec<u16> {
    let mut v = vec![0u16];
    for i in 0..13 {
        v.push(1 << i);
        for j in 0..i {
            v.push(1 << i | 1 << j);
        }
    }
    for i in 0..13 {
        v.push(0x1fff & !(1 << i));
    }
    v.push(0x1fff);
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct MStyle {
    pub fg: Option<LC>,
    pub bg: Option<LC>,
    pub ul: Option<LC>,
    pub fx: u16,
}

impl MStyle {
    pub fn style(&self) -> colorz::Style {
        colorz::Style::new()
            .fg(self.fg.map(LC::color))
            .bg(self.bg.map(LC::color))
            .underline_color(self.ul.map(LC::color))
            .effect_flags(flags(self.fx))
    }
    pub fn plain(&self) -> bool {
        self.fg.is_none() && self.bg.is_none() && self.fx == 0
    }
}
