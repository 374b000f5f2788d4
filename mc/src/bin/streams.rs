//! C09, C17: the answer for a standard stream when the process's own streams are in unusual states: connected to
//! every kind of file, closed, hung up, and with their locks held by another thread or by the asking one.
//! C09 also writes styled values to these very streams and reads back what arrives.
use colorz::ansi::{self, AnsiColor};
use colorz::mode::{self, ColorKind, Stream};
use colorz::rgb::RgbColor;
use colorz::xterm;
use colorz::{Color, Colorize, Style};
use mc::os::{engine, is_tty, log, processes};
use mc::report::{property, thorough, Report};
use mc::sink::esc;
use std::ffi::{c_char, c_int, c_void};
use std::io::Write;
use std::sync::atomic::Ordering::Relaxed;

const STD: bool = cfg!(feature = "std");
const SC: bool = cfg!(feature = "supports-color");
const STRIP: bool = cfg!(feature = "strip-colors");

extern "C" {
    fn posix_openpt(flags: c_int) -> c_int;
    fn grantpt(fd: c_int) -> c_int;
    fn unlockpt(fd: c_int) -> c_int;
    fn ptsname_r(fd: c_int, buf: *mut c_char, len: usize) -> c_int;
    fn open(path: *const c_char, flags: c_int, ...) -> c_int;
    fn pipe(fds: *mut c_int) -> c_int;
    fn socketpair(domain: c_int, kind: c_int, protocol: c_int, fds: *mut c_int) -> c_int;
    fn memfd_create(name: *const c_char, flags: u32) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn close(fd: c_int) -> c_int;
    fn read(fd: c_int, buf: *mut c_void, len: usize) -> isize;
    fn write(fd: c_int, buf: *const c_void, len: usize) -> isize;
    fn lseek(fd: c_int, off: i64, whence: c_int) -> i64;
    fn fcntl(fd: c_int, cmd: c_int, ...) -> c_int;
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Is {
    Terminal,
    Pipe,
    Null,
    File,
    Socket,
    HungUp,
    Closed,
    Zero,
    ReadOnlyTerminal,
}
use Is::*;

/// opens one of each: (what is put on the stream, where its text can be read)
fn make(what: Is) -> (c_int, c_int) {
    const O_RDWR: c_int = 2;
    const O_NOCTTY: c_int = 0o400;
    const O_NONBLOCK: c_int = 0o4000;
    // SAFETY: plain C calls on valid buffers
    unsafe {
        let (fd, from) = match what {
            Terminal | HungUp | ReadOnlyTerminal => {
                let m = posix_openpt(O_RDWR | O_NOCTTY);
                let mut name = [0 as c_char; 128];
                if m < 0 || grantpt(m) != 0 || unlockpt(m) != 0 || ptsname_r(m, name.as_mut_ptr(), name.len()) != 0 {
                    engine("terminal");
                }
                let fd = open(name.as_ptr(), if what == ReadOnlyTerminal { O_NOCTTY } else { O_RDWR | O_NOCTTY });
                if what == HungUp {
                    close(m);
                    (fd, -1)
                } else {
                    (fd, m)
                }
            }
            Pipe => {
                let mut p = [0; 2];
                if pipe(p.as_mut_ptr()) != 0 {
                    engine("pipe");
                }
                (p[1], p[0])
            }
            Null => (open(c"/dev/null".as_ptr(), O_RDWR), -1),
            Zero => (open(c"/dev/zero".as_ptr(), O_RDWR), -1),
            File => {
                let f = memfd_create(c"file".as_ptr(), 0);
                (f, f)
            }
            Socket => {
                let mut p = [0; 2];
                if socketpair(1, 1, 0, p.as_mut_ptr()) != 0 {
                    engine("socketpair");
                }
                (p[0], p[1])
            }
            Closed => return (-1, -1),
        };
        if fd < 0 {
            engine(&format!("{what:?}"));
        }
        if from >= 0 && fcntl(from, 4, O_NONBLOCK) != 0 {
            engine("O_NONBLOCK");
        }
        (fd, from)
    }
}

fn put(fd: c_int, at: c_int) {
    // SAFETY: plain calls
    unsafe {
        if fd < 0 {
            close(at);
        } else if dup2(fd, at) != at {
            engine("dup2");
        }
    }
}

/// what has arrived since the last time: a mark is written behind it, so that nothing still under way is missed
/// (a terminal hands on what is written to it later, from a kernel thread)
fn arrived(what: Is, at: c_int, from: c_int, pos: &mut i64) -> Option<Vec<u8>> {
    if from < 0 || what == ReadOnlyTerminal {
        return None;
    }
    const MARK: u8 = b'!';
    let mut all = vec![];
    let since = std::time::Instant::now();
    // SAFETY: in bounds
    unsafe {
        if write(at, [MARK].as_ptr().cast(), 1) != 1 {
            engine("mark");
        }
        while all.last() != Some(&MARK) {
            let mut b = [0u8; 4096];
            let n = if what == File {
                let end = lseek(from, 0, 1);
                lseek(from, *pos, 0);
                let n = read(from, b.as_mut_ptr().cast(), b.len());
                lseek(from, end, 0);
                *pos += n.max(0) as i64;
                n
            } else {
                read(from, b.as_mut_ptr().cast(), b.len())
            };
            all.extend_from_slice(&b[..n.max(0) as usize]);
            if n <= 0 {
                if since.elapsed().as_secs() > 60 {
                    engine("what is written does not arrive");
                }
                std::thread::sleep(std::time::Duration::from_micros(50));
            }
        }
    }
    all.pop();
    Some(all)
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Form {
    /// mode::should_color for lists of kinds
    Kinds,
    Typed,
    Runtime,
    Formatted,
    /// through the default stream
    Default,
}
const FORMS: [Form; 5] = [Form::Kinds, Form::Typed, Form::Runtime, Form::Formatted, Form::Default];

#[derive(Debug, Clone, Copy, PartialEq)]
enum Holder {
    Nobody,
    /// the thread that asks holds the locks itself
    Asker(u8),
    /// another thread does, until the asker is done
    Other(u8),
}

/// bits of the kinds that the stream supports: ansi, xterm, rgb
fn support() -> [u8; 2] {
    #[cfg(feature = "supports-color")]
    return [supports_color::Stream::Stdout, supports_color::Stream::Stderr].map(|s| match supports_color::on(s) {
        None => 0,
        Some(l) => u8::from(l.has_basic) | u8::from(l.has_256) << 1 | u8::from(l.has_16m) << 2,
    });
    #[cfg(not(feature = "supports-color"))]
    if STD {
        return [1, 2].map(|fd| if is_tty(fd) { 15 } else { 0 });
    }
    #[allow(unreachable_code)]
    [15, 15]
}

fn expect(support: [u8; 2], s: usize, need: u8) -> bool {
    !STRIP && if STD && !SC { support[s] == 15 } else { need & !support[s] == 0 }
}

const STREAMS: [Stream; 2] = [Stream::Stdout, Stream::Stderr];

/// asks about stream `s`; Err tells what was wrong
fn ask(form: Form, s: usize, support: [u8; 2]) -> Result<(), String> {
    let st = STREAMS[s];
    let same = |what: &str, got: bool, need: u8| {
        log(|l| {
            l.traces.fetch_add(1, Relaxed);
            l.transitions.fetch_add(1, Relaxed);
            l.outcome(&(got, s, need));
        });
        let want = expect(support, s, need);
        if got == want {
            Ok(())
        } else {
            Err(format!("{what} on {st:?} is {got}, but the stream's own support makes it {want}"))
        }
    };
    let rgb = RgbColor { red: 1, green: 2, blue: 3 };
    let typed = Style::new().fg(ansi::Red).bg(xterm::Aqua).underline_color(rgb);
    match form {
        Form::Kinds => {
            same("should_color of no kinds", mode::should_color(Some(st), &[]), 0)?;
            same("should_color of [NoColor]", mode::should_color(Some(st), &[ColorKind::NoColor]), 0)?;
            same("should_color of [Ansi]", mode::should_color(Some(st), &[ColorKind::Ansi]), 1)?;
            same("should_color of [Xterm]", mode::should_color(Some(st), &[ColorKind::Xterm]), 2)?;
            same("should_color of [Rgb, Ansi]", mode::should_color(Some(st), &[ColorKind::Rgb, ColorKind::Ansi]), 5)
        }
        Form::Typed => {
            same("Style::should_color (ansi, xterm, rgb)", typed.should_color(st), 7)?;
            same("Style::should_color (bold)", Style::new().bold().should_color(st), 0)
        }
        Form::Runtime => same("Style::should_color (runtime, xterm)", Style::new().bg(Some(Color::from(xterm::Aqua))).into_runtime_style().should_color(Some(st)), 2),
        Form::Formatted => {
            let v = "v".into_fg(AnsiColor::Red).stream(st).to_string();
            same("formatting (ansi)", v == "\x1b[31mv\x1b[39m", 1)?;
            if v != "v" && v != "\x1b[31mv\x1b[39m" {
                return Err(format!("formatting wrote {v:?}"));
            }
            Ok(())
        }
        Form::Default => {
            let old = mode::get_default_stream();
            mode::set_default_stream(st);
            let r = same("should_color(None, [Ansi])", mode::should_color(None, &[ColorKind::Ansi]), 1);
            mode::set_default_stream(old);
            r
        }
    }
}

/// runs `f` while this thread holds the locks (bits: stdin, stdout, stderr)
fn locked<T>(mask: u8, f: impl FnOnce() -> T) -> T {
    let _a = (mask & 1 != 0).then(|| std::io::stdin().lock());
    let _b = (mask & 2 != 0).then(|| std::io::stdout().lock());
    let _c = (mask & 4 != 0).then(|| std::io::stderr().lock());
    f()
}

#[derive(Clone, Copy)]
struct Job {
    streams: [Is; 3],
    holder: Holder,
    first: (Form, usize),
    print: bool,
}
impl Job {
    fn say(&self) -> String {
        let [i, o, e] = self.streams;
        format!("stdin {i:?}, stdout {o:?}, stderr {e:?}, locks (1 stdin, 2 stdout, 4 stderr) held by {:?}, first {:?} on {:?}", self.holder, self.first.0, STREAMS[self.first.1])
    }
    fn all(&self, support: [u8; 2]) {
        let bad = |e: String| log(|l| l.violation("the answer is not the stream's own support [streams]", || format!("{}: {e}", self.say())));
        log(|l| {
            l.states.fetch_add(1, Relaxed);
        });
        if let Err(e) = ask(self.first.0, self.first.1, support) {
            bad(format!("first query: {e}"));
        }
        for again in 0..2 {
            for form in FORMS {
                for s in [1 - self.first.1, self.first.1] {
                    if let Err(e) = ask(form, s, support) {
                        bad(format!("later query, round {again}: {e}"));
                    }
                }
            }
        }
    }
    fn run(&self) {
        let made = self.streams.map(make);
        for (k, (fd, _)) in made.iter().enumerate() {
            put(*fd, k as c_int);
        }
        if self.print {
            return self.print(made);
        }
        let expected = support();
        match self.holder {
            Holder::Nobody => self.all(expected),
            Holder::Asker(m) => locked(m, || self.all(expected)),
            Holder::Other(m) => locked(m, || {
                std::thread::scope(|s| {
                    if s.spawn(|| self.all(expected)).join().is_err() {
                        log(|l| l.violation("panic while another thread holds the locks", || self.say()));
                    }
                })
            }),
        }
    }
    /// writes styled values to the streams and reads back what arrives
    fn print(&self, made: [(c_int, c_int); 3]) {
        let expected = support();
        let mut pos = [0i64; 3];
        let streams = [None, Some(Stream::Stdout), Some(Stream::Stderr), Some(Stream::AlwaysColor), Some(Stream::NeverColor)];
        let order = if self.first.1 == 0 { [1, 2] } else { [2, 1] };
        for to in order {
            let can = |k: usize| !matches!(self.streams[k], Closed | HungUp | ReadOnlyTerminal | Zero);
            if !can(to) {
                continue;
            }
            for st in streams {
                for way in 0..4 {
                    let v = "v".into_fg(ansi::Red).into_style_with(Style::new().bg(xterm::Aqua)).stream_opt(st);
                    let inner = "\x1b[31mv\x1b[39m";
                    let outer = match st {
                        None | Some(Stream::AlwaysColor) => !STRIP,
                        Some(Stream::Stdout) => expect(expected, 0, 2),
                        Some(Stream::Stderr) => expect(expected, 1, 2),
                        _ => false,
                    };
                    let inner = if STRIP { "v" } else { inner };
                    let want = if outer { format!("<\x1b[48;5;51m{inner}\x1b[49m>") } else { format!("<{inner}>") };
                    let done = match (to, way) {
                        (1, 0) => Ok(print!("<{v}>")),
                        (1, 1) => write!(std::io::stdout(), "<{v}>"),
                        (1, 2) => write!(std::io::stdout().lock(), "<{v}>"),
                        (1, _) => locked(6, || write!(std::io::LineWriter::new(std::io::stdout()), "<{v}>")),
                        (_, 0) => Ok(eprint!("<{v}>")),
                        (_, 1) => write!(std::io::stderr(), "<{v}>"),
                        (_, 2) => write!(std::io::stderr().lock(), "<{v}>"),
                        _ => locked(6, || write!(std::io::BufWriter::new(std::io::stderr()), "<{v}>")),
                    };
                    let _ = std::io::stdout().flush();
                    log(|l| {
                        l.states.fetch_add(1, Relaxed);
                        l.transitions.fetch_add(1, Relaxed);
                        l.traces.fetch_add(1, Relaxed);
                        l.outcome(want.as_bytes());
                    });
                    let got = arrived(self.streams[to], to as c_int, made[to].1, &mut pos[to]);
                    if done.is_err() || got.as_ref().is_some_and(|g| g != want.as_bytes()) {
                        log(|l| {
                            l.violation("what arrives on the stream is not the decided text [streams]", || {
                                format!("{}: a value with stream {st:?} written to {} in way {way} ({done:?}) arrives as {:?} instead of {:?}", self.say(), ["", "stdout", "stderr"][to], got.map(|g| esc(&g)), esc(want.as_bytes()))
                            })
                        });
                    }
                }
            }
        }
    }
}

fn main() {
    mc::report::quiet_panics();
    let p = property();
    let big = thorough();
    let threads = match p.as_str() {
        "C09" => false,
        "C17" => true,
        _ => panic!("{p} is not decided here"),
    };
    let all = [Terminal, Pipe, Null, File, Socket, HungUp, Closed, Zero, ReadOnlyTerminal];
    let ins: &[Is] = if big { &all } else if threads { &[Null] } else { &[Terminal, Null, Closed] };
    let outs: &[Is] = if threads && !big { &[Terminal, Pipe] } else { &all };
    let mut holders: Vec<Holder> = if threads { vec![] } else { vec![Holder::Nobody, Holder::Asker(7)] };
    holders.extend(if threads { (1..8).map(Holder::Other).collect() } else { vec![Holder::Other(7)] });
    let mut jobs: Vec<Job> = vec![];
    for &i in ins {
        for &o in outs {
            for &e in outs {
                for &holder in &holders {
                    for form in FORMS {
                        for s in 0..2 {
                            jobs.push(Job { streams: [i, o, e], holder, first: (form, s), print: false });
                        }
                    }
                }
                if !threads {
                    for s in 0..2 {
                        jobs.push(Job { streams: [i, o, e], holder: Holder::Nobody, first: (Form::Kinds, s), print: true });
                    }
                }
            }
        }
    }
    std::env::set_var("TERM", "xterm-256color");
    // stdin's handle exists before the processes are made, as its lock is shared by them all
    let mut r: Report = processes(jobs.len(), 60, |i| jobs[i].say(), |i| jobs[i].run());
    r.bound("processes", jobs.len());
    r.bound("stdin connected to", format!("{ins:?}"));
    r.bound("stdout and stderr connected to", format!("each pair of {outs:?}"));
    r.bound("locks of the standard streams", format!("{holders:?}"));
    r.bound("queries", format!("each of {FORMS:?} on each stream first, then all of them twice"));
    if !threads {
        r.bound("written to the streams", "a nested value with every stream, in four ways each, read back");
    }
    r.sample(|| jobs[jobs.len() / 2].say());
    r.finish();
}
