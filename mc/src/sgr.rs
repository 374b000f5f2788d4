//! The terminal: an interpreter for SGR sequences (ECMA-48 8.3.117 with the usual 38/48/58 extensions).
//!
//! Each SGR parameter acts on each attribute independently of the prior state: it sets it to a value or
//! leaves it alone.  So a whole text is summarised, exactly and for every prior terminal state, by one
//! `Action` per attribute (`None` = keeps its prior value, `Some(v)` = has value v afterwards).

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Col {
    Default,
    Ansi(u8),
    Idx(u8),
    Rgb(u8, u8, u8),
}

pub const N_EFFECTS: usize = 13;
/// Effects in terminal terms; bit i of a mask is EFFECT_ON[i].
/// bold dim italic underline double-underline blink fast-blink reverse hidden strike overline super sub
pub const EFFECT_ON: [u8; N_EFFECTS] = [1, 2, 3, 4, 21, 5, 6, 7, 8, 9, 53, 73, 74];
pub const EFFECT_OFF: [u8; N_EFFECTS] = [22, 22, 23, 24, 24, 25, 25, 27, 28, 29, 55, 75, 75];
pub const UNDERLINES: u16 = 1 << 3 | 1 << 4;
pub const ALL_MASK: u16 = (1 << N_EFFECTS) - 1;

/// effects that are switched off together with any effect of `mask`
pub fn off_group(mask: u16) -> u16 {
    let mut g = 0;
    for i in 0..N_EFFECTS {
        if mask & 1 << i != 0 {
            for j in 0..N_EFFECTS {
                if EFFECT_OFF[j] == EFFECT_OFF[i] {
                    g |= 1 << j;
                }
            }
        }
    }
    g
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Action {
    pub fg: Option<Col>,
    pub bg: Option<Col>,
    pub ul: Option<Col>,
    pub on: u16,
    pub off: u16,
    /// number of escape sequences
    pub seqs: u32,
    /// number of SGR codes (steps of the terminal model)
    pub codes: u32,
}

impl Action {
    pub fn touches_nothing(&self) -> bool {
        self.fg.is_none() && self.bg.is_none() && self.ul.is_none() && self.on == 0 && self.off == 0
    }
    fn code(&mut self, ps: &[u16], i: &mut usize) -> Result<(), &'static str> {
        let p = ps[*i];
        *i += 1;
        self.codes += 1;
        match p {
            0 => {
                self.fg = Some(Col::Default);
                self.bg = Some(Col::Default);
                self.ul = Some(Col::Default);
                self.on = 0;
                self.off = ALL_MASK;
            }
            30..=37 => self.fg = Some(Col::Ansi((p - 30) as u8)),
            90..=97 => self.fg = Some(Col::Ansi((p - 90 + 8) as u8)),
            39 => self.fg = Some(Col::Default),
            40..=47 => self.bg = Some(Col::Ansi((p - 40) as u8)),
            100..=107 => self.bg = Some(Col::Ansi((p - 100 + 8) as u8)),
            49 => self.bg = Some(Col::Default),
            59 => self.ul = Some(Col::Default),
            38 | 48 | 58 => {
                let c = match ps.get(*i) {
                    Some(5) => {
                        let n = *ps.get(*i + 1).ok_or("truncated 5;n colour")?;
                        *i += 2;
                        if n > 255 {
                            return Err("palette index above 255");
                        }
                        Col::Idx(n as u8)
                    }
                    Some(2) => {
                        if ps.len() < *i + 4 {
                            return Err("truncated 2;r;g;b colour");
                        }
                        let (r, g, b) = (ps[*i + 1], ps[*i + 2], ps[*i + 3]);
                        *i += 4;
                        if r > 255 || g > 255 || b > 255 {
                            return Err("rgb component above 255");
                        }
                        Col::Rgb(r as u8, g as u8, b as u8)
                    }
                    _ => return Err("38/48/58 without a colour"),
                };
                match p {
                    38 => self.fg = Some(c),
                    48 => self.bg = Some(c),
                    _ => self.ul = Some(c),
                }
            }
            _ => {
                let mut known = false;
                for k in 0..N_EFFECTS {
                    if EFFECT_ON[k] as u16 == p {
                        self.on |= 1 << k;
                        self.off &= !(1 << k);
                        known = true;
                    }
                    if EFFECT_OFF[k] as u16 == p {
                        self.off |= 1 << k;
                        self.on &= !(1 << k);
                        known = true;
                    }
                }
                if !known {
                    return Err("unknown SGR code");
                }
            }
        }
        Ok(())
    }
}

/// One `ESC [ params m` at the start of `b`: returns its length and its parameters.
fn sequence(b: &[u8], ps: &mut [u16; 64]) -> Result<(usize, usize), &'static str> {
    if b.len() < 2 || b[0] != 0x1b || b[1] != b'[' {
        return Err("text outside an escape sequence");
    }
    let (mut i, mut n) = (2, 0);
    loop {
        let start = i;
        let mut v: u16 = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            v = v.saturating_mul(10).saturating_add((b[i] - b'0') as u16);
            i += 1;
        }
        if i == start {
            return Err("empty or non-numeric parameter");
        }
        if i - start > 1 && b[start] == b'0' {
            return Err("zero-padded parameter");
        }
        if n == 64 {
            return Err("too many parameters");
        }
        ps[n] = v;
        n += 1;
        match b.get(i) {
            Some(b';') => i += 1,
            Some(b'm') => return Ok((i + 1, n)),
            _ => return Err("sequence does not end in m"),
        }
    }
}

/// Interprets a text that must consist of SGR sequences only.
pub fn interpret(mut b: &[u8]) -> Result<Action, &'static str> {
    let mut a = Action::default();
    let mut ps = [0u16; 64];
    while !b.is_empty() {
        let (len, n) = sequence(b, &mut ps)?;
        let mut i = 0;
        while i < n {
            a.code(&ps[..n], &mut i)?;
        }
        a.seqs += 1;
        b = &b[len..];
    }
    Ok(a)
}

/// Interprets an argument list such as `38;5;1` (what goes between `ESC [` and `m`).
pub fn interpret_args(args: &[u8]) -> Result<Action, &'static str> {
    let mut v = vec![0x1b, b'['];
    v.extend_from_slice(args);
    v.push(b'm');
    interpret(&v)
}

/// Removes every well-formed SGR sequence.
pub fn strip(b: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    let mut ps = [0u16; 64];
    while i < b.len() {
        match sequence(&b[i..], &mut ps) {
            Ok((len, _)) => i += len,
            Err(_) => {
                out.push(b[i]);
                i += 1;
            }
        }
    }
    out
}
