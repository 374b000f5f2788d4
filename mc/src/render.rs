//! C01, C02, C03: what a style's start and end sequences do to a terminal, and that the static types of
//! the colours do not matter.  Exhaustive over the product of colour representatives, all 8192 effect
//! sets and all type representations (plus every colour of every table on every slot).
use colorz::{OptionalColor, Style};
use std::cell::Cell;
use crate::model::{flags, MStyle, LC};
use crate::report::{guarded, parallel, property, quiet_panics, Report};
use crate::reps::{self, Visitor};
use crate::sgr::{self, Col};
use crate::sink::{esc, show, Buf};

pub type B = Buf<512>;

pub struct Out {
    pub apply: B,
    pub clear: B,
    pub plain: bool,
    pub err: Option<String>,
}
impl Default for Out {
    fn default() -> Self {
        Self::new()
    }
}
impl Out {
    pub fn new() -> Self {
        Out { apply: B::new(), clear: B::new(), plain: false, err: None }
    }
    #[inline(never)]
    fn show(&mut self, plain: bool, apply: &dyn std::fmt::Display, clear: &dyn std::fmt::Display) {
        self.err = None;
        self.plain = plain;
        if let Err(e) = show(&mut self.apply, apply) {
            self.err = Some(format!("apply: {e}"));
        }
        if let Err(e) = show(&mut self.clear, clear) {
            self.err = Some(format!("clear: {e}"));
        }
    }
}

pub fn run(s: Style, o: &mut Out) {
    o.show(s.is_plain(), &s.apply(), &s.clear());
}

#[derive(Clone, Copy, PartialEq)]
pub enum P {
    C01,
    C02,
    C03,
}

pub fn describe(m: &MStyle, ty: &str) -> String {
    format!("style fg={:?} bg={:?} underline={:?} effects={:?} typed as ({ty})", m.fg, m.bg, m.ul, flags(m.fx))
}

/// which part of the style space a violation belongs to (stable, coarse)
pub fn class(m: &MStyle) -> String {
    let c = |c: Option<LC>| match c {
        None => "none",
        Some(LC::Ansi(16)) => "ansi-default",
        Some(LC::Ansi(_)) => "ansi",
        Some(LC::Xterm(_)) => "xterm",
        Some(LC::Css(_)) => "css",
        Some(LC::Rgb(..)) => "rgb",
    };
    let n = match m.fx.count_ones() {
        0 => "no effect",
        1 => "one effect",
        _ => "several effects",
    };
    format!("fg={} bg={} ul={} {}", c(m.fg), c(m.bg), c(m.ul), n)
}

fn expected_apply(m: &MStyle) -> (Option<Col>, Option<Col>, Option<Col>, u16) {
    let ul = if m.fx & sgr::UNDERLINES != 0 { m.ul.map(LC::ul_col) } else { None };
    (m.fg.map(LC::col), m.bg.map(LC::col), ul, m.fx)
}

fn judge_apply(m: &MStyle, ty: &str, o: &Out, r: &mut Report) {
    let d = || format!("{}: apply wrote {:?}", describe(m, ty), esc(o.apply.bytes()));
    if let Some(e) = &o.err {
        r.violation(format!("{e} [{}]", class(m)), d);
        return;
    }
    let a = match sgr::interpret(o.apply.bytes()) {
        Ok(a) => a,
        Err(e) => {
            r.violation(format!("apply is not SGR: {e} [{}]", class(m)), d);
            return;
        }
    };
    r.transitions += a.codes as u64;
    let (fg, bg, ul, on) = expected_apply(m);
    if a.fg != fg {
        r.violation(format!("apply sets foreground to {:?} instead of {:?} [{}]", a.fg, fg, class(m)), d);
    }
    if a.bg != bg {
        r.violation(format!("apply sets background to {:?} instead of {:?} [{}]", a.bg, bg, class(m)), d);
    }
    if a.ul != ul {
        r.violation(format!("apply sets underline colour to {:?} instead of {:?} [{}]", a.ul, ul, class(m)), d);
    }
    if a.on != on || a.off != 0 {
        r.violation(
            format!("apply switches on {:?} and off {:?} instead of on {:?} [{}]", flags(a.on), flags(a.off), flags(on), class(m)),
            d,
        );
    }
    if o.plain != m.plain() || o.plain != (o.apply.len == 0) {
        r.violation(format!("is_plain is {} [{}]", o.plain, class(m)), d);
    }
}

fn judge_clear(m: &MStyle, ty: &str, o: &Out, r: &mut Report) {
    let d = || format!("{}: apply wrote {:?}, clear wrote {:?}", describe(m, ty), esc(o.apply.bytes()), esc(o.clear.bytes()));
    if let Some(e) = &o.err {
        r.violation(format!("{e} [{}]", class(m)), d);
        return;
    }
    let (Ok(a), c) = (sgr::interpret(o.apply.bytes()), sgr::interpret(o.clear.bytes())) else {
        return; // not an SGR text at all: C01 reports it
    };
    let c = match c {
        Ok(c) => c,
        Err(e) => {
            r.violation(format!("clear is not SGR: {e} [{}]", class(m)), d);
            return;
        }
    };
    r.transitions += (a.codes + c.codes) as u64;
    for (name, a, c, wanted) in [
        ("foreground", a.fg, c.fg, m.fg.is_some()),
        ("background", a.bg, c.bg, m.bg.is_some()),
        ("underline colour", a.ul, c.ul, m.ul.is_some() && m.fx & sgr::UNDERLINES != 0),
    ] {
        // back to default if the start sequence (as written, or as the style asks for) set it
        let after = c.or(a).unwrap_or(Col::Default);
        if after != Col::Default || (wanted && c != Some(Col::Default)) {
            r.violation(format!("clear leaves {name} set [{}]", class(m)), d);
        }
        if c.is_some() && a.is_none() && !wanted {
            r.violation(format!("clear touches {name} that apply did not set [{}]", class(m)), d);
        }
    }
    let set = a.on | m.fx;
    if c.on != 0 || set & !c.off != 0 {
        r.violation(format!("clear leaves {:?} switched on [{}]", flags(set & !c.off | c.on), class(m)), d);
    }
    if c.off & !sgr::off_group(set) != 0 {
        r.violation(format!("clear switches off {:?} that apply did not set [{}]", flags(c.off & !sgr::off_group(set)), class(m)), d);
    }
    if m.plain() && o.clear.len != 0 {
        r.violation(format!("clear of a plain style is not empty [{}]", class(m)), d);
    }
}

pub fn judge(p: P, m: &MStyle, ty: &str, o: &Out, reference: Option<&Out>, r: &mut Report) {
    r.states += 1;
    r.traces += 2;
    match p {
        P::C01 => {
            judge_apply(m, ty, o, r);
            r.outcome(o.apply.bytes());
        }
        P::C02 => {
            judge_clear(m, ty, o, r);
            r.outcome(o.clear.bytes());
        }
        P::C03 => {
            let q = reference.unwrap();
            let d = || {
                format!(
                    "{}: apply {:?} clear {:?} is_plain {}; as a runtime style: apply {:?} clear {:?} is_plain {}",
                    describe(m, ty),
                    esc(o.apply.bytes()),
                    esc(o.clear.bytes()),
                    o.plain,
                    esc(q.apply.bytes()),
                    esc(q.clear.bytes()),
                    q.plain
                )
            };
            r.transitions += 3; // start sequence, end sequence and is_plain compared
            r.outcome(q.apply.bytes());
            if o.err.is_some() != q.err.is_some() {
                r.violation(format!("{:?} vs {:?} [{}]", o.err, q.err, class(m)), d);
            } else if o.apply.bytes() != q.apply.bytes() {
                r.violation(format!("start sequence depends on the types [{}]", class(m)), d);
            } else if o.clear.bytes() != q.clear.bytes() {
                r.violation(format!("end sequence depends on the types [{}]", class(m)), d);
            } else if o.plain != q.plain {
                r.violation(format!("is_plain depends on the types [{}]", class(m)), d);
            }
        }
    }
}


/// one type combination with one colour combination; only the two writers are generic code
trait Typed: Send + Sync {
    fn run(&self, fx: u16, o: &mut Out);
}
struct T<F, K, U>(F, K, U);
impl<F, K, U> Typed for T<F, K, U>
where
    F: OptionalColor + Send + Sync,
    K: OptionalColor + Send + Sync,
    U: OptionalColor + Send + Sync,
{
    fn run(&self, fx: u16, o: &mut Out) {
        let s = Style::new().fg(self.0).bg(self.1).underline_color(self.2).effect_flags(flags(fx));
        o.show(s.is_plain(), &s.apply(), &s.clear());
    }
}
pub struct Job {
    t: Box<dyn Typed>,
    l: [Option<LC>; 3],
    n: [&'static str; 3],
}
impl Job {
    fn run(&self, p: P, masks: &[u16], r: &mut Report) {
        let (mut o, mut q) = (Out::new(), Out::new());
        let at = Cell::new(0u16);
        let ty = self.n.join(", ");
        let m = |fx| MStyle { fg: self.l[0], bg: self.l[1], ul: self.l[2], fx };
        let res = guarded(|| {
            for &fx in masks {
                at.set(fx);
                let m = m(fx);
                self.t.run(fx, &mut o);
                if p == P::C03 {
                    run(m.style(), &mut q);
                }
                judge(p, &m, &ty, &o, Some(&q), r);
            }
        });
        if let Err(e) = res {
            let m = m(at.get());
            r.violation(format!("panic: {e} [{}]", class(&m)), || describe(&m, &ty));
        }
    }
}


/// visitors that build the product: foreground, then background, then underline colour
pub struct Fg<'a>(pub &'a mut Vec<Job>);
struct Bg<'a, F>(&'a mut Vec<Job>, (F, Option<LC>, &'static str));
struct Ul<'a, F, K>(&'a mut Vec<Job>, (F, Option<LC>, &'static str), (K, Option<LC>, &'static str));
impl Visitor for Fg<'_> {
    #[inline(never)]
    fn visit<C: OptionalColor + Send + Sync + 'static>(&mut self, c: C, lc: Option<LC>, n: &'static str) {
        reps::all(&mut Bg(self.0, (c, lc, n)));
    }
}
impl<F: OptionalColor + Send + Sync + 'static> Visitor for Bg<'_, F> {
    #[inline(never)]
    fn visit<C: OptionalColor + Send + Sync + 'static>(&mut self, c: C, lc: Option<LC>, n: &'static str) {
        reps::all(&mut Ul(self.0, self.1, (c, lc, n)));
    }
}
impl<F: OptionalColor + Send + Sync + 'static, K: OptionalColor + Send + Sync + 'static> Visitor for Ul<'_, F, K> {
    #[inline(never)]
    fn visit<C: OptionalColor + Send + Sync + 'static>(&mut self, c: C, lc: Option<LC>, n: &'static str) {
        self.0.push(Job { t: Box::new(T(self.1 .0, self.2 .0, c)), l: [self.1 .1, self.2 .1, lc], n: [self.1 .2, self.2 .2, n] });
    }
}

/// which of C01, C02, C03 to judge, from the command line
pub fn which() -> P {
    quiet_panics();
    match property().as_str() {
        "C01" => P::C01,
        "C02" => P::C02,
        "C03" => P::C03,
        x => panic!("unknown property {x}"),
    }
}

/// the main function of one part of the type product
pub fn typed_main(jobs: &[Job], part: &str) {
    let p = which();
    let all: Vec<u16> = (0..8192).collect();
    let mut r = parallel(jobs.len(), |i, r| jobs[i].run(p, &all, r));
    r.bound(&format!("typed colour combinations in part {part}"), jobs.len());
    r.bound("effect sets", 8192);
    r.finish();
}

#[macro_export]
macro_rules! render_part {
    ($p:ident) => {
        fn main() {
            let mut jobs = vec![];
            mc::reps::$p(&mut mc::render::Fg(&mut jobs));
            mc::render::typed_main(&jobs, stringify!($p));
        }
    };
}
