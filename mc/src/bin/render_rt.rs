//! C01, C02: runtime styles (the type product is in render_p0..p7).
use mc::model::{few_masks, MStyle, LC};
use mc::render::*;
use mc::report::{guarded, parallel, thorough, Report};
use mc::reps;
use mc::sgr::{self, Col};
use mc::sink::{esc, show};
use colorz::Style;

/// runtime styles: full product of colour representatives, then every colour of every table
fn runtime(p: P, big: bool) -> Report {
    let k: Vec<Option<LC>> = vec![
        None,
        Some(LC::Ansi(1)),
        Some(LC::Ansi(12)),
        Some(LC::Ansi(16)),
        Some(LC::Xterm(208)),
        Some(reps::tomato()),
        Some(LC::Rgb(0, 10, 255)),
        Some(LC::Rgb(100, 99, 9)),
    ];
    let mut every: Vec<LC> = (0..17).map(LC::Ansi).collect();
    every.extend((0..=255).map(LC::Xterm));
    every.extend((0..mc::golden::CSS.len()).map(|i| LC::Css(i as u8)));
    for x in 0..=255u8 {
        for (a, b) in [(0, 9), (10, 99), (100, 255)] {
            every.extend([LC::Rgb(x, a, b), LC::Rgb(a, x, b), LC::Rgb(a, b, x)]);
        }
    }
    every.sort();
    every.dedup();
    let few = few_masks();
    let one = |m: MStyle, r: &mut Report| {
        let mut o = Out::new();
        let res = guarded(|| run(m.style(), &mut o));
        match res {
            Ok(()) => judge(p, &m, "runtime Style", &o, Some(&o), r),
            Err(e) => r.violation(format!("panic: {e} [{}]", class(&m)), || describe(&m, "runtime Style")),
        }
    };
    let mut r = parallel(k.len() * k.len(), |i, r| {
        for &ul in &k {
            for fx in 0..8192u16 {
                one(MStyle { fg: k[i / k.len()], bg: k[i % k.len()], ul, fx }, r);
            }
        }
    });
    r.merge(parallel(every.len(), |i, r| {
        let c = Some(every[i]);
        for &fx in &few {
            one(MStyle { fg: c, bg: None, ul: None, fx }, r);
            one(MStyle { fg: None, bg: c, ul: None, fx }, r);
            one(MStyle { fg: None, bg: None, ul: c, fx }, r);
            one(MStyle { fg: c, bg: c, ul: c, fx }, r);
        }
        // every pair of colours on two layers, on the single- and several-effects paths
        let step = if big { 1 } else { 13 };
        for d in every.iter().step_by(step) {
            for fx in [0, 1 << 3, 1 << 3 | 1] {
                one(MStyle { fg: c, bg: Some(*d), ul: Some(*d), fx }, r);
            }
        }
    }));
    if big {
        // every rgb value on every layer, joined path
        r.merge(parallel(256, |red, r| {
            for g in 0..=255u8 {
                for b in 0..=255u8 {
                    let c = Some(LC::Rgb(red as u8, g, b));
                    one(MStyle { fg: c, bg: c, ul: c, fx: 1 << 3 | 1 << 2 }, r);
                }
            }
        }));
        r.bound("rgb values on the joined path", "all 2^24");
    }
    r.bound("runtime colour representatives per slot", k.len());
    r.bound("effect sets", 8192);
    r.bound("table colours on every slot", every.len());
    r
}

fn clear_all(r: &mut Report) {
    let mut b = B::new();
    let s = format!("{:?}", Style::clear_all());
    let res = show(&mut b, &Style::clear_all());
    r.states += 1;
    r.transitions += 1;
    r.traces += 1;
    let a = sgr::interpret(b.bytes());
    let ok = res.is_ok() && s.as_bytes() == b.bytes() && a.is_ok_and(|a| a.fg == Some(Col::Default) && a.bg == Some(Col::Default) && a.ul == Some(Col::Default) && a.off == sgr::ALL_MASK && a.on == 0);
    if !ok {
        r.violation("clear_all does not reset every attribute", || format!("clear_all wrote {:?} (Debug {s:?})", esc(b.bytes())));
    }
}


fn main() {
    let p = which();
    let mut r = runtime(p, thorough());
    if p == P::C02 {
        clear_all(&mut r);
    }
    for m in [
        MStyle { fg: Some(reps::RED), bg: Some(reps::RGB), ul: Some(reps::AQUA), fx: 0b1001 },
        MStyle { fg: None, bg: Some(reps::AQUA), ul: None, fx: 1 << 12 },
    ] {
        let mut o = Out::new();
        if guarded(|| run(m.style(), &mut o)).is_ok() {
            r.samples.push(format!("{} -> apply {:?} clear {:?}", describe(&m, "runtime Style"), esc(o.apply.bytes()), esc(o.clear.bytes())));
        }
    }
    r.finish();
}
