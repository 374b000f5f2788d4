//! Faults in great number: after them every property has to hold as before.
use crate::report::guarded;
use colorz::mode::{Mode, Stream};
use colorz::{ansi, css, rgb, xterm, Color, Style, StyledValue};
use std::fmt::{self, Write};

#[derive(Clone, Copy, Debug)]
pub enum Fault {
    ValuePanics,
    ValueFails,
    SinkFails(usize),
    SinkPanics(usize),
}

struct V(Fault);
impl fmt::Display for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            Fault::ValuePanics => panic!("on purpose"),
            Fault::ValueFails => Err(fmt::Error),
            _ => f.write_str("v"),
        }
    }
}

struct Sink(Fault, usize);
impl Write for Sink {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        self.1 += 1;
        match self.0 {
            Fault::SinkFails(n) if n < self.1 => Err(fmt::Error),
            Fault::SinkPanics(n) if n < self.1 => panic!("on purpose"),
            _ => Ok(()),
        }
    }
}

impl Fault {
    /// a formatting call of a styled value on stream `s` in which this goes wrong
    pub fn happen(self, s: Option<Stream>) {
        let v = StyledValue::new(V(self), Style::new().fg(ansi::Red).bg(Some(xterm::Aqua)).bold(), s);
        let _ = guarded(|| {
            let _ = write!(Sink(self, 0), "{v}");
        });
    }
}

/// how often everything goes wrong in a storm (more than a byte can count)
pub const TIMES: usize = 1030;

/// Everything that can go wrong, often: values and sinks that fail or panic, in styled values (also nested) and in
/// explicit sequences, and words that do not parse.  Changes no setting and asks for no detection.
pub fn storm() {
    static QUIET: std::sync::Once = std::sync::Once::new();
    QUIET.call_once(crate::report::quiet_panics);
    let wide = Style::new().fg(css::Tomato).bg(Some(Color::from(rgb::Rgb::<1, 20, 255>))).underline_color(ansi::Green).underline().italics();
    for k in 0..TIMES {
        for f in [Fault::ValuePanics, Fault::ValueFails, Fault::SinkFails(k % 7), Fault::SinkPanics(k % 5)] {
            f.happen(Some(Stream::AlwaysColor));
            if k % 4 == 0 {
                f.happen(Some(Stream::NeverColor));
            }
            let _ = guarded(|| {
                let inner = StyledValue::new(V(f), wide, Some(Stream::AlwaysColor));
                let _ = write!(Sink(f, 0), "{}", StyledValue::new(inner, Style::new().bold(), Some(Stream::AlwaysColor)));
            });
        }
        let f = Fault::SinkFails(k % 6);
        let _ = write!(Sink(f, 0), "{}", wide.apply());
        let _ = write!(Sink(f, 0), "{:?}", wide.clear());
        let _ = write!(Sink(Fault::SinkFails(0), 0), "{}", Style::clear_all());
        let _ = guarded(|| write!(Sink(Fault::SinkPanics(k % 3), 0), "{}", wide.apply()).is_ok());
        let _ = ("#12345x".parse::<Color>(), "999".parse::<Color>(), "nothing".parse::<Color>(), "no".parse::<Mode>(), "no".parse::<Stream>());
    }
}
