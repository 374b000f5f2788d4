//! Sinks that do not allocate.
use core::fmt;

pub struct Buf<const N: usize> {
    pub data: [u8; N],
    pub len: usize,
    pub overflow: bool,
    pub writes: usize,
}

impl<const N: usize> Buf<N> {
    pub fn new() -> Self {
        Buf { data: [0; N], len: 0, overflow: false, writes: 0 }
    }
    pub fn clear(&mut self) {
        self.len = 0;
        self.overflow = false;
        self.writes = 0;
    }
    pub fn bytes(&self) -> &[u8] {
        &self.data[..self.len]
    }
}
impl<const N: usize> Default for Buf<N> {
    fn default() -> Self {
        Self::new()
    }
}

impl<const N: usize> fmt::Write for Buf<N> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.writes += 1;
        let b = s.as_bytes();
        if self.len + b.len() > N {
            self.overflow = true;
            return Ok(());
        }
        self.data[self.len..][..b.len()].copy_from_slice(b);
        self.len += b.len();
        Ok(())
    }
}

/// Formats `v` with Display into `b` (cleared first); overflow and errors are reported as Err.
pub fn show<const N: usize>(b: &mut Buf<N>, v: &dyn fmt::Display) -> Result<(), &'static str> {
    use fmt::Write;
    b.clear();
    match write!(b, "{v}") {
        Err(_) => Err("formatting returned an error"),
        Ok(()) if b.overflow => Err("output longer than any style can need"),
        Ok(()) => Ok(()),
    }
}

pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for c in String::from_utf8_lossy(b).chars() {
        match c {
            '\x1b' => s.push_str("\\x1b"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => s.push_str(&format!("\\x{:02x}", c as u32)),
            c => s.push(c),
        }
    }
    s
}
