//! What the threads do (compiled with instrumentation).  Operations are numbers, results are small numbers.
use colorz::mode::{self, ColorKind, Mode, Stream};
use colorz::{Style, StyledValue};
use std::cell::UnsafeCell;
use std::fmt::Write;
use std::sync::atomic::{fence, AtomicBool, AtomicU8, Ordering::*};
use std::sync::{Mutex, OnceLock};

pub const MODES: [Mode; 3] = [Mode::Detect, Mode::Always, Mode::Never];
pub const STREAMS: [Stream; 4] = [Stream::Stdout, Stream::Stderr, Stream::AlwaysColor, Stream::NeverColor];
pub const KINDS: [ColorKind; 4] = [ColorKind::Ansi, ColorKind::Xterm, ColorKind::Rgb, ColorKind::NoColor];

/// set the mode: 0..3, the default stream: 3..7
pub const SET_MODE: u8 = 0;
pub const SET_DEFAULT: u8 = 3;
pub const GET_MODE: u8 = 7;
pub const GET_DEFAULT: u8 = 8;
pub const SET_FROM_ENV: u8 = 9;
/// + 4 * (0: no stream, 1 + i: STREAMS[i]) + kind
pub const DECIDE: u8 = 16;
/// Style::should_color of a style with that kind of colour
pub const STYLE: u8 = 40;
/// formatting a styled value: 1 start sequence, 2 value, 4 end sequence, 8 anything else
pub const FORMAT: u8 = 64;
/// the same of two nested styled values (stream, and no stream inside), 16 32 64 128 the inner one
pub const NESTED: u8 = 88;
pub const LITMUS: u8 = 128;
pub const PANIC: u8 = 255;

fn stream(i: u8) -> Option<Stream> {
    i.checked_sub(1).map(|i| STREAMS[i as usize])
}

pub struct Buf(pub [u8; 96], pub usize);
impl Write for Buf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let to = self.0.get_mut(self.1..self.1 + s.len()).ok_or(std::fmt::Error)?;
        to.copy_from_slice(s.as_bytes());
        self.1 += s.len();
        Ok(())
    }
}
impl Buf {
    pub fn text(&self) -> &str {
        std::str::from_utf8(&self.0[..self.1]).unwrap_or("?")
    }
}
fn text(d: &dyn std::fmt::Display) -> Buf {
    let mut b = Buf([0; 96], 0);
    if write!(b, "{d}").is_err() {
        b.1 = 0;
    }
    b
}

/// which of the pieces `<s>..v..<e>` the text consists of
fn classify(mut t: &str, layers: &[(&str, &str)]) -> u8 {
    let mut r = 0;
    for (i, (s, _)) in layers.iter().enumerate() {
        if let Some(x) = t.strip_prefix(s) {
            t = x;
            r |= 1 << (4 * i);
        }
    }
    for (i, (_, e)) in layers.iter().enumerate() {
        if let Some(x) = t.strip_suffix(e) {
            t = x;
            r |= 4 << (4 * i);
        }
    }
    if t == "v" {
        r |= 2;
    } else {
        r |= 8;
    }
    r
}

fn format(k: u8, s: Option<Stream>) -> u8 {
    macro_rules! one {
        ($st:expr) => {{
            let st = $st;
            classify(text(&StyledValue::new("v", st, s)).text(), &[(text(&st.apply()).text(), text(&st.clear()).text())])
        }};
    }
    match k {
        0 => one!(Style::new().fg(colorz::ansi::Red)),
        1 => one!(Style::new().fg(colorz::xterm::Aquamarine)),
        2 => one!(Style::new().fg(colorz::rgb::RgbColor { red: 1, green: 2, blue: 3 })),
        _ => one!(Style::new().bold()),
    }
}
pub fn run(op: u8) -> u8 {
    match op {
        SET_MODE..=2 => {
            mode::set_coloring_mode(MODES[op as usize]);
            0
        }
        SET_DEFAULT..=6 => {
            mode::set_default_stream(STREAMS[(op - 3) as usize]);
            0
        }
        GET_MODE => {
            let m = mode::get_coloring_mode();
            MODES.iter().position(|x| *x == m).unwrap_or(99) as u8
        }
        GET_DEFAULT => {
            let d = mode::get_default_stream();
            STREAMS.iter().position(|m| *m == d).unwrap_or(99) as u8
        }
        #[cfg(feature = "std")]
        SET_FROM_ENV => {
            mode::set_coloring_mode_from_env();
            0
        }
        DECIDE..=35 => {
            let i = op - DECIDE;
            mode::should_color(stream(i / 4), &[KINDS[(i % 4) as usize]]) as u8
        }
        STYLE..=59 => {
            let i = op - STYLE;
            let s = stream(i / 4);
            (match i % 4 {
                0 => Style::new().fg(colorz::ansi::Red).should_color(s),
                1 => Style::new().bg(colorz::xterm::Aquamarine).should_color(s),
                2 => Style::new().underline_color(colorz::rgb::RgbColor { red: 1, green: 2, blue: 3 }).underline().should_color(s),
                _ => Style::new().bold().should_color(s),
            }) as u8
        }
        FORMAT..=83 => {
            let i = op - FORMAT;
            format(i % 4, stream(i / 4))
        }
        NESTED..=92 => {
            let outer = Style::new().fg(colorz::ansi::Red);
            let inner = Style::new().bg(colorz::ansi::Blue);
            let inner_value = StyledValue::new("v", inner, None);
            let t = text(&StyledValue::new(inner_value, outer, stream(op - NESTED)));
            classify(
                t.text(),
                &[(text(&outer.apply()).text(), text(&outer.clear()).text()), (text(&inner.apply()).text(), text(&inner.clear()).text())],
            )
        }
        LITMUS.. => litmus(op - LITMUS),
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------- litmus tests for the engine itself

static X: AtomicU8 = AtomicU8::new(0);
static Y: AtomicU8 = AtomicU8::new(0);
struct Raw(UnsafeCell<u8>);
// SAFETY: on purpose
unsafe impl Sync for Raw {}
static DATA: Raw = Raw(UnsafeCell::new(0));
static LOCK: Mutex<u8> = Mutex::new(0);
static ONCE: OnceLock<u8> = OnceLock::new();
static FLAG: AtomicBool = AtomicBool::new(false);

#[inline(never)]
fn raw_get() -> u8 {
    // SAFETY: on purpose
    unsafe { *DATA.0.get() }
}
#[inline(never)]
fn raw_set(v: u8) {
    // SAFETY: on purpose
    unsafe { *DATA.0.get() = v }
}

fn litmus(op: u8) -> u8 {
    match op {
        // message passing
        0 => {
            X.store(1, Relaxed);
            Y.store(1, Release);
            0
        }
        1 => {
            let y = Y.load(Acquire);
            y * 2 + X.load(Relaxed)
        }
        2 => {
            X.store(1, Relaxed);
            Y.store(1, Relaxed);
            0
        }
        // with fences
        3 => {
            X.store(1, Relaxed);
            fence(Release);
            Y.store(1, Relaxed);
            0
        }
        4 => {
            let y = Y.load(Relaxed);
            fence(Acquire);
            y * 2 + X.load(Relaxed)
        }
        // store buffering
        5 => {
            X.store(1, Release);
            Y.load(Acquire)
        }
        6 => {
            Y.store(1, Release);
            X.load(Acquire)
        }
        7 => {
            X.store(1, Relaxed);
            fence(SeqCst);
            Y.load(Relaxed)
        }
        8 => {
            Y.store(1, Relaxed);
            fence(SeqCst);
            X.load(Relaxed)
        }
        9 => {
            X.store(1, SeqCst);
            Y.load(SeqCst)
        }
        10 => {
            Y.store(1, SeqCst);
            X.load(SeqCst)
        }
        // coherence
        11 => {
            X.store(1, Relaxed);
            X.store(2, Relaxed);
            0
        }
        12 => {
            let a = X.load(Relaxed);
            a * 4 + X.load(Relaxed)
        }
        // counters
        13 => {
            let v = X.load(SeqCst);
            X.store(v + 1, SeqCst);
            0
        }
        14 => X.fetch_add(1, Relaxed),
        15 => {
            let mut l = LOCK.lock().unwrap();
            let x = X.load(Relaxed);
            X.store(x + 1, Relaxed);
            *l += 1;
            *l
        }
        16 => *ONCE.get_or_init(|| {
            Y.fetch_add(1, Relaxed);
            7
        }),
        17 => X.load(Relaxed),
        18 => Y.load(Relaxed),
        // data races
        19 => {
            raw_set(1);
            0
        }
        20 => raw_get(),
        21 => {
            raw_set(1);
            Y.store(1, Release);
            0
        }
        22 => {
            if Y.load(Acquire) == 1 {
                raw_get()
            } else {
                9
            }
        }
        23 => {
            if Y.load(Relaxed) == 1 {
                raw_get()
            } else {
                9
            }
        }
        // a spin lock and a loop that waits for ever
        24 => {
            while FLAG.swap(true, Acquire) {
                std::hint::spin_loop();
            }
            raw_set(raw_get() + 1);
            let r = raw_get();
            FLAG.store(false, Release);
            r
        }
        25 => {
            while Y.load(Acquire) == 0 {
                std::hint::spin_loop();
            }
            X.load(Relaxed)
        }
        // deadlock
        26 => {
            let _a = LOCK.lock().unwrap();
            std::mem::forget(_a);
            0
        }
        // a relaxed read-modify-write continues a release sequence
        27 => {
            Y.fetch_add(1, Relaxed);
            0
        }
        29 => {
            Y.store(1, Relaxed);
            0
        }
        _ => unreachable!(),
    }
}
