//! C06 and C07: what parses, and as what.
use colorz::mode::{Mode, Stream};
use colorz::rgb::RgbColor;
use colorz::xterm::XtermColor;
use colorz::{Color, ParseColorError};
use mc::golden;
use mc::report::{guarded, parallel, property, quiet_panics, thorough, Report};
use std::cell::RefCell;

// ------------------------------------------------------------------ C06
const NAMES: [(&str, u8); 17] = [
    ("black", 0),
    ("red", 1),
    ("green", 2),
    ("yellow", 3),
    ("blue", 4),
    ("magenta", 5),
    ("purple", 5),
    ("cyan", 6),
    ("white", 7),
    ("bright black", 8),
    ("bright red", 9),
    ("bright green", 10),
    ("bright yellow", 11),
    ("bright blue", 12),
    ("bright magenta", 13),
    ("bright cyan", 14),
    ("bright white", 15),
];

/// the documented grammar, written over the whole string rather than over byte patterns
fn color_oracle(s: &str) -> Result<Color, ParseColorError> {
    if let Some(h) = s.strip_prefix('#') {
        let hex = !h.is_empty() && h.bytes().all(|b| b.is_ascii_hexdigit());
        return match h.len() {
            1 | 2 | 6 if !hex => Err(ParseColorError::InvalidHexDigit),
            1 | 2 => Ok(Color::Xterm(XtermColor::from_code(u32::from_str_radix(h, 16).unwrap() as u8))),
            6 => {
                let v = u32::from_str_radix(h, 16).unwrap();
                Ok(Color::Rgb(RgbColor { red: (v >> 16) as u8, green: (v >> 8) as u8, blue: v as u8 }))
            }
            _ => Err(ParseColorError::UnknownColor),
        };
    }
    if (1..=3).contains(&s.len()) && s.bytes().all(|b| b.is_ascii_digit()) {
        let v: u32 = s.parse().unwrap();
        return if v > 255 { Err(ParseColorError::U8Overflow) } else { Ok(Color::Xterm(XtermColor::from_code(v as u8))) };
    }
    match NAMES.iter().find(|n| n.0 == s) {
        Some(n) => Ok(Color::Ansi(golden::ANSI[n.1 as usize].1)),
        None => Err(ParseColorError::UnknownColor),
    }
}
fn class(s: &[u8]) -> &'static str {
    match s {
        [] => "empty",
        [b'#', ..] if s.len() == 2 => "#x",
        [b'#', ..] if s.len() == 3 => "#xx",
        [b'#', ..] if s.len() == 7 => "#rrggbb",
        [b'#', ..] => "# of another length",
        _ if s.iter().all(u8::is_ascii_digit) => match s.len() {
            1 => "one digit",
            2 => "two digits",
            3 => "three digits",
            _ => "more than three digits",
        },
        _ => "text",
    }
}
thread_local!(static LAST: RefCell<Vec<u8>> = const { RefCell::new(vec![]) });

fn color(r: &mut Report, b: &[u8]) {
    let Ok(s) = std::str::from_utf8(b) else { return };
    r.states += 1;
    r.transitions += b.len() as u64; // symbols read by the recogniser
    r.traces += 1;
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        l.clear();
        l.extend_from_slice(b);
    });
    let (got, want) = (s.parse::<Color>(), color_oracle(s));
    if got != want {
        let e = |x: &Result<Color, ParseColorError>| match x {
            Ok(Color::Ansi(_)) => "an ansi colour".to_string(),
            Ok(Color::Xterm(_)) => "an xterm colour".to_string(),
            Ok(Color::Css(_)) => "a css colour".to_string(),
            Ok(Color::Rgb(_)) => "an rgb colour".to_string(),
            Err(e) => format!("{e:?}"),
        };
        r.violation(format!("{}: parses as {} instead of {}", class(b), e(&got), e(&want)), || format!("{s:?} parses as {got:?}, must be {want:?}"));
    }
}
/// runs a piece of the enumeration; a panic of the parser becomes a violation (and ends that piece)
fn piece(r: &mut Report, f: impl FnOnce(&mut Report)) {
    if let Err(e) = guarded(|| f(r)) {
        let at = LAST.with(|l| l.borrow().clone());
        r.violation(format!("panic on {}: {e}", class(&at)), || format!("parsing {:?} panics: {e}", String::from_utf8_lossy(&at)));
    }
}
/// all strings of `n` symbols, the first of them fixed by the job
fn words(alphabet: &[&[u8]], n: usize, f: impl Fn(&mut Report, &[u8]) + Sync) -> Report {
    parallel(alphabet.len(), |i, r| {
        piece(r, |r| {
            let mut idx = vec![0; n];
            idx[0] = i;
            let mut b = vec![];
            loop {
                b.clear();
                for &k in &idx {
                    b.extend_from_slice(alphabet[k]);
                }
                f(r, &b);
                let mut k = n;
                loop {
                    if k == 1 {
                        return;
                    }
                    k -= 1;
                    idx[k] += 1;
                    if idx[k] < alphabet.len() {
                        break;
                    }
                    idx[k] = 0;
                }
            }
        })
    })
}
fn symbols(s: &'static [u8]) -> Vec<&'static [u8]> {
    s.chunks(1).collect()
}
static ALL_BYTES: [u8; 256] = {
    let mut a = [0; 256];
    let mut i = 0;
    while i < 256 {
        a[i] = i as u8;
        i += 1;
    }
    a
};

fn edits(r: &mut Report, name: &[u8], two: bool, f: impl Fn(&mut Report, &[u8])) {
    let n = name.len();
    // every change of case
    for m in 0..1u32 << n.min(16) {
        let b: Vec<u8> = name.iter().enumerate().map(|(i, c)| if m & 1 << i != 0 { c.to_ascii_uppercase() } else { *c }).collect();
        f(r, &b);
    }
    for i in 0..=n {
        // insertions and substitutions of every byte, deletions, truncations, transpositions
        for c in 0..=255u8 {
            let mut b = name.to_vec();
            b.insert(i, c);
            f(r, &b);
            if i < n {
                b = name.to_vec();
                b[i] = c;
                f(r, &b);
            }
        }
        for u in ["é", "ß", "İ", "ı", "\u{212a}", "\u{ff41}", "\u{0301}", "😀"] {
            let mut b = name[..i].to_vec();
            b.extend_from_slice(u.as_bytes());
            f(r, &[&b[..], &name[i..]].concat());
            if i < n {
                f(r, &[&b[..], &name[i + 1..]].concat());
            }
        }
        f(r, &name[..i]);
        f(r, &name[i..]);
        if i < n {
            let mut b = name.to_vec();
            b.remove(i);
            f(r, &b);
        }
        if i + 1 < n {
            let mut b = name.to_vec();
            b.swap(i, i + 1);
            f(r, &b);
        }
    }
    // two substitutions of every byte
    for i in 0..n {
        for j in 0..i {
            for c in 0..=127u8 {
                let step = if two { 1 } else { 3 };
                for d in (0..=127u8).step_by(step) {
                    let mut b = name.to_vec();
                    b[i] = c;
                    b[j] = d;
                    f(r, &b);
                }
            }
        }
    }
    for p in ["#", " ", "bright", "bright ", "bright  ", "bright_", "bright-", "Bright ", "dark ", "light ", "\0", "0", "\n", "\t"] {
        f(r, &[p.as_bytes(), name].concat());
        f(r, &[name, p.as_bytes()].concat());
        f(r, &[p.as_bytes(), name, p.as_bytes()].concat());
    }
    f(r, &name.iter().rev().copied().collect::<Vec<_>>());
    f(r, &name.repeat(2));
}

/// an accepted word with 2^8, 2^9, 2^16, 2^17 (and some more) bytes before, behind or in the middle of it
fn wraps(r: &mut Report, k: &[u8], f: impl Fn(&mut Report, &[u8])) {
    for n in [256usize, 512, 768, 1024, 4096, 32768, 65536, 131072] {
        for c in [0u8, b' ', b'0', b'a', b'f', b'#'] {
            for d in [0, 1] {
                let pad = vec![c; n - d];
                f(r, &[k, &pad].concat());
                f(r, &[&pad, k].concat());
                let (a, b) = k.split_at(k.len() / 2);
                f(r, &[a, &pad, b].concat());
            }
        }
        f(r, &k.iter().cycle().take(n + k.len()).copied().collect::<Vec<_>>());
    }
}

fn c06(big: bool) -> Report {
    let bytes = symbols(&ALL_BYTES);
    let mut r = Report::default();
    piece(&mut r, |r| color(r, b""));
    for n in 1..=3 {
        r.merge(words(&bytes, n, color));
    }
    r.bound("all UTF-8 strings of up to", "3 bytes");
    // four bytes: '#' and any three, and any four over an alphabet around every class boundary
    r.merge(parallel(256, |a, r| {
        piece(r, |r| {
            for b in 0..=255u8 {
                for c in 0..=255u8 {
                    color(r, &[b'#', a as u8, b, c]);
                }
            }
        })
    }));
    static EDGE: &[u8] = b"#/0124569:@AFGZ`abdefgrz \0\x7f-+";
    let mut edge = symbols(EDGE);
    edge.push("é".as_bytes());
    let deep = if big { 6 } else { 5 };
    for n in 4..=deep {
        r.merge(words(&edge, n, color));
    }
    r.bound("strings over a 30-symbol boundary alphabet of up to", format!("{deep} symbols"));
    // digits
    let digits = symbols(b"0123456789");
    for n in 4..=if big { 8 } else { 7 } {
        r.merge(words(&digits, n, color));
    }
    // #rrggbb: all values in lower and upper case, all cases of all digits
    let hex = symbols(if big { b"0123456789abcdefABCDEF" } else { b"0123456789abcdef" });
    r.merge(words(&hex, 6, |r, b| {
        let mut s = [b'#'; 7];
        s[1..].copy_from_slice(b);
        color(r, &s);
        s[1..].make_ascii_uppercase();
        color(r, &s);
        for i in 1..7 {
            if i % 2 == 0 {
                s[i] = s[i].to_ascii_lowercase();
            }
        }
        color(r, &s);
    }));
    r.bound("#rrggbb", if big { "all 22^6 spellings" } else { "all 2^24 values in lower, upper and alternating case" });
    // '#' and six: every pair of positions with every pair of bytes, and all words over the boundaries of the hex ranges
    r.merge(parallel(256, |c, r| {
        piece(r, |r| {
            for base in [*b"#000000", *b"#fF9aA0", *b"       ", *b"redred#"] {
                for i in 0..7 {
                    for j in 0..7 {
                        for d in 0..=255u8 {
                            let mut s = base;
                            s[i] = c as u8;
                            s[j] = d;
                            color(r, &s);
                        }
                    }
                }
            }
        })
    }));
    let hexedge = symbols(b"/09:@AFG`afg# ");
    r.merge(words(&hexedge, 6, |r, b| color(r, &[b"#", b].concat())));
    r.bound("#xxxxxx with invalid digits", "all pairs of bytes in all pairs of positions; all 14^6 words over the hex boundaries");
    // names
    let near: Vec<&str> = NAMES.iter().map(|n| n.0).chain(["bright purple", "default", "gray", "grey", "bright", "none", "transparent", "crimson"]).collect();
    r.merge(parallel(near.len(), |i, r| piece(r, |r| edits(r, near[i].as_bytes(), big, color))));
    r.merge(parallel(golden::CSS.len(), |i, r| {
        piece(r, |r| {
            for s in [golden::CSS[i].0.to_string(), golden::CSS[i].0.to_lowercase(), golden::CSS[i].0.to_uppercase()] {
                color(r, s.as_bytes());
            }
        })
    }));
    r.merge(parallel(golden::XTERM.len(), |i, r| {
        piece(r, |r| {
            for s in [golden::XTERM[i].0.to_string(), golden::XTERM[i].0.to_lowercase(), format!("{:?}", golden::XTERM[i].1), format!("xterm {i}"), format!("0x{i:02x}"), format!("{i:02x}h")] {
                color(r, s.as_bytes());
            }
        })
    }));
    let two: Vec<(usize, usize)> = (0..17).flat_map(|i| (0..17).map(move |j| (i, j))).collect();
    r.merge(parallel(two.len(), |i, r| {
        piece(r, |r| {
            for sep in ["", " ", ",", ";"] {
                color(r, format!("{}{sep}{}", NAMES[two[i].0].0, NAMES[two[i].1].0).as_bytes());
            }
        })
    }));
    r.bound("names", "all case changes, all single edits with every byte, pairs of substitutions, affixes, concatenations");
    // lengths
    r.merge(parallel(300, |n, r| {
        piece(r, |r| {
            for c in "#0123459afAFg \0".chars() {
                let s: String = std::iter::repeat_n(c, n).collect();
                for p in ["", "#", "0", "red", "#0"] {
                    color(r, format!("{p}{s}").as_bytes());
                }
            }
        })
    }));
    // lengths that are small ones to a counter of 8 or 16 bits
    let mut good: Vec<String> = NAMES.iter().map(|n| n.0.to_string()).collect();
    good.extend(["7", "42", "255", "#f", "#A0", "#a1B2c3"].map(String::from));
    r.merge(parallel(good.len(), |i, r| piece(r, |r| wraps(r, good[i].as_bytes(), color))));
    r.bound("longest string", "131072 more bytes than an accepted one");
    for s in ["10", "#ff", "#a0b1c2", "256", "bright blue", "#zz"] {
        r.samples.push(format!("{s:?} -> {:?}", guarded(|| s.parse::<Color>())));
    }
    r
}

// ------------------------------------------------------------------ C07
const MODES: [(&str, Mode); 3] = [("detect", Mode::Detect), ("always", Mode::Always), ("never", Mode::Never)];
const STREAMS: [(&str, Stream); 4] = [("stdout", Stream::Stdout), ("stderr", Stream::Stderr), ("always", Stream::AlwaysColor), ("never", Stream::NeverColor)];

fn mode(r: &mut Report, b: &[u8]) {
    r.states += 1;
    r.transitions += b.len() as u64;
    r.traces += 2;
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        l.clear();
        l.extend_from_slice(b);
    });
    let wm = MODES.iter().find(|m| b.eq_ignore_ascii_case(m.0.as_bytes())).map(|m| m.1);
    let ws = STREAMS.iter().find(|m| b.eq_ignore_ascii_case(m.0.as_bytes())).map(|m| m.1);
    let (gm, gs) = (Mode::from_ascii_bytes(b).ok(), Stream::from_ascii_bytes(b).ok());
    if gm != wm {
        r.violation(format!("Mode::from_ascii_bytes of {} bytes gives {gm:?} instead of {wm:?}", len_class(b)), || format!("{b:?} ({:?})", String::from_utf8_lossy(b)));
    }
    if gs != ws {
        r.violation(format!("Stream::from_ascii_bytes of {} bytes gives {gs:?} instead of {ws:?}", len_class(b)), || format!("{b:?} ({:?})", String::from_utf8_lossy(b)));
    }
    if let Ok(s) = std::str::from_utf8(b) {
        r.traces += 2;
        let (gm, gs) = (s.parse::<Mode>().ok(), s.parse::<Stream>().ok());
        if gm != wm {
            r.violation(format!("parsing {} bytes as a Mode gives {gm:?} instead of {wm:?}", len_class(b)), || format!("{s:?}"));
        }
        if gs != ws {
            r.violation(format!("parsing {} bytes as a Stream gives {gs:?} instead of {ws:?}", len_class(b)), || format!("{s:?}"));
        }
    }
}
fn len_class(b: &[u8]) -> String {
    if b.len() < 10 {
        b.len().to_string()
    } else {
        "10 or more".into()
    }
}
fn c07(big: bool) -> Report {
    let bytes = symbols(&ALL_BYTES);
    let mut r = Report::default();
    piece(&mut r, |r| mode(r, b""));
    for n in 1..=3 {
        r.merge(words(&bytes, n, mode));
    }
    r.bound("all byte strings of up to", "3 bytes");
    // the letters of the keywords in both cases, and every byte that a sloppy mask could confuse with one
    let keys: Vec<&[u8]> = vec![b"detect", b"always", b"never", b"stdout", b"stderr"];
    static ALPHA: &[u8] = b"detcalwysnvroutDETCALWYSNVROUT\0 ";
    let alpha = symbols(ALPHA);
    let small = symbols(b"detcalwysnvrouN\0 \x0e");
    r.merge(words(&alpha, 4, mode));
    r.merge(words(&alpha, 5, mode));
    r.merge(words(if big { &alpha } else { &small }, 6, mode));
    r.bound("words over the keyword letters", if big { "32^5, 32^6" } else { "32^5, 18^6" });
    // any two (thorough: three) bytes of any keyword replaced by anything, also with up to three bytes appended or removed
    r.merge(parallel(keys.len() * 256, |job, r| {
        piece(r, |r| {
            let k = keys[job / 256];
            let c = (job % 256) as u8;
            for up in [false, true] {
                let base = if up { k.to_ascii_uppercase() } else { k.to_vec() };
                for tail in [&b""[..], b"\0", b" ", b"s", b"\0\0", b"  ", b"\0\x06", b"\0\0\x05"] {
                    let base = [&base[..], tail].concat();
                    let n = base.len();
                    for i in 0..n {
                        for j in i..n {
                            for d in 0..=255u8 {
                                let mut b = base.clone();
                                b[i] = c;
                                b[j] = d;
                                mode(r, &b);
                                if j + 1 == n {
                                    mode(r, &b[..n - 1]);
                                    mode(r, &b[1..]);
                                }
                            }
                        }
                    }
                }
            }
            // any byte inserted anywhere, and two appended
            for i in 0..=k.len() {
                for d in 0..=255u8 {
                    let mut b = k.to_vec();
                    b.insert(i, c);
                    mode(r, &b);
                    b.push(d);
                    mode(r, &b);
                    mode(r, &b[1..]);
                }
            }
        })
    }));
    if big {
        r.merge(parallel(keys.len() * 256, |job, r| {
            piece(r, |r| {
                let k = keys[job / 256];
                let c = (job % 256) as u8;
                let n = k.len();
                for i in 0..n {
                    for j in i + 1..n {
                        for l in j + 1..n {
                            for d in 0..=255u8 {
                                for e in 0..=255u8 {
                                    let mut b = [0u8; 6];
                                    b[..n].copy_from_slice(k);
                                    b[i] = c;
                                    b[j] = d;
                                    b[l] = e;
                                    mode(r, &b[..n]);
                                }
                            }
                        }
                    }
                }
            })
        }));
    }
    r.bound("keyword mutations", if big { "every three bytes" } else { "every two bytes" });
    // every spelling, every bit flip, every length
    r.merge(parallel(keys.len(), |i, r| {
        piece(r, |r| {
            let k = keys[i];
            for m in 0..1u32 << k.len() {
                let b: Vec<u8> = k.iter().enumerate().map(|(i, c)| if m & 1 << i != 0 { c.to_ascii_uppercase() } else { *c }).collect();
                mode(r, &b);
            }
            // every xor with a mask that could survive byte-wise masking
            for x in 0..=255u8 {
                mode(r, &k.iter().map(|c| c ^ x).collect::<Vec<_>>());
                mode(r, &k.iter().map(|c| c | x).collect::<Vec<_>>());
                mode(r, &k.iter().map(|c| c & x).collect::<Vec<_>>());
            }
            for n in 0..600 {
                for fill in [0u8, b' ', b'a', 0xff, b'\n', 6, 5] {
                    let pad = vec![fill; n];
                    mode(r, &[k, &pad].concat());
                    mode(r, &[&pad, k].concat());
                    mode(r, &[&pad, k, &pad].concat());
                    mode(r, &pad);
                }
                mode(r, &k.iter().cycle().take(n).copied().collect::<Vec<_>>());
            }
            wraps(r, k, mode);
            for o in &keys {
                mode(r, &[k, o].concat());
                mode(r, &[k, b" ", o].concat());
            }
            mode(r, &k.iter().rev().copied().collect::<Vec<_>>());
            for u in ["É", "ſ", "ı", "\u{ff4e}"] {
                for i in 0..k.len() {
                    mode(r, &[&k[..i], u.as_bytes(), &k[i + 1..]].concat());
                    mode(r, &[&k[..i], u.as_bytes(), &k[(i + u.len()).min(k.len())..]].concat());
                }
            }
        })
    }));
    for s in ["NeVeR", "never\0", "stdout", "detectt"] {
        r.samples.push(format!("{s:?} -> {:?} / {:?}", Mode::from_ascii_bytes(s.as_bytes()), Stream::from_ascii_bytes(s.as_bytes())));
    }
    r
}

fn main() {
    quiet_panics();
    let r = match property().as_str() {
        "C06" => c06(thorough()),
        "C07" => c07(thorough()),
        x => panic!("unknown property {x}"),
    };
    r.finish();
}
