//! The interface of supports-color 3.0.2 with the answers chosen by the harness.
use std::sync::atomic::{AtomicU8, Ordering::SeqCst};

#[derive(Clone, Copy, Debug)]
pub enum Stream {
    Stdout,
    Stderr,
}

#[derive(Debug, Clone, Copy, Eq, PartialEq, Hash)]
pub struct ColorLevel {
    pub has_basic: bool,
    pub has_256: bool,
    pub has_16m: bool,
}

/// per stream: 8 = no support, otherwise bits 0..3 = basic, 256, 16m
pub static LEVEL: [AtomicU8; 2] = [AtomicU8::new(8), AtomicU8::new(8)];

pub fn on(stream: Stream) -> Option<ColorLevel> {
    let l = LEVEL[stream as usize].load(SeqCst);
    (l < 8).then_some(ColorLevel { has_basic: l & 1 != 0, has_256: l & 2 != 0, has_16m: l & 4 != 0 })
}

pub fn on_cached(stream: Stream) -> Option<ColorLevel> {
    on(stream)
}
