//! The specification: two shared registers (release writes, acquire reads, coherence per register) and operations
//! that read them.  All outcomes of a program are computed by explicit-state search.
use bodies::*;
use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Prog {
    /// by the main thread, before and after the threads run
    pub before: Vec<u8>,
    pub threads: Vec<Vec<u8>>,
    pub after: Vec<u8>,
}

/// answers[stream][kind] of a process that asks nothing else
pub type Answers = [[bool; 4]; 2];

#[derive(Clone, PartialEq, Eq, Hash, Default)]
struct Th {
    pc: u8,
    /// position inside the operation
    micro: u8,
    held: u8,
    acc: u8,
    view: [u8; 2],
    out: Vec<u8>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
struct St {
    th: Vec<Th>,
    msgs: [Vec<(u8, [u8; 2])>; 2],
}

pub struct Oracle<'a> {
    prog: &'a Prog,
    ans: &'a Answers,
    seen: HashSet<St>,
    pub outcomes: HashSet<Vec<u8>>,
    pub transitions: u64,
}

const MODE: usize = 0;
const DEF: usize = 1;

/// the colouring decisions an operation takes: (stream, kind, bits of the result when yes), and the bits always set
fn decisions(op: u8) -> Option<(Vec<(u8, u8, u8)>, u8)> {
    Some(match op {
        DECIDE..=35 => (vec![((op - DECIDE) / 4, (op - DECIDE) % 4, 1)], 0),
        STYLE..=59 => (vec![((op - STYLE) / 4, (op - STYLE) % 4, 1)], 0),
        FORMAT..=83 => (vec![((op - FORMAT) / 4, (op - FORMAT) % 4, 5)], 2),
        NESTED..=92 => (vec![(op - NESTED, 0, 5), (0, 0, 0x50)], 2),
        _ => return None,
    })
}

impl<'a> Oracle<'a> {
    pub fn run(prog: &'a Prog, ans: &'a Answers) -> Oracle<'a> {
        let mut o = Oracle { prog, ans, seen: HashSet::new(), outcomes: HashSet::new(), transitions: 0 };
        // the main thread is thread 0 of the search while it is alone
        let mut s = St { th: vec![Th::default()], msgs: [vec![(0, [0; 2])], vec![(2, [0; 2])]] };
        o.alone(&mut s, &prog.before);
        let main = s.th.remove(0);
        s.th = prog.threads.iter().map(|_| Th { view: main.view, ..Th::default() }).collect();
        o.search(s, &main.out);
        o
    }
    pub fn states(&self) -> u64 {
        self.seen.len() as u64
    }
    fn ops(&self, t: usize) -> &'a [u8] {
        &self.prog.threads[t]
    }
    fn alone(&self, s: &mut St, ops: &[u8]) {
        for &op in ops {
            let pc = s.th[0].pc;
            while s.th[0].pc == pc {
                // the latest message is the only one readable
                for r in 0..2 {
                    s.th[0].view[r] = s.msgs[r].len() as u8 - 1;
                }
                let mut next = vec![];
                self.step(s, 0, op, &mut next);
                *s = next.swap_remove(0);
            }
        }
    }
    fn search(&mut self, s: St, pre: &[u8]) {
        let mut todo = vec![s];
        while let Some(s) = todo.pop() {
            if !self.seen.insert(s.clone()) {
                continue;
            }
            let mut done = true;
            for t in 0..s.th.len() {
                if let Some(&op) = self.ops(t).get(s.th[t].pc as usize) {
                    done = false;
                    let from = todo.len();
                    self.step(&s, t, op, &mut todo);
                    self.transitions += (todo.len() - from) as u64;
                }
            }
            if done {
                let mut out = pre.to_vec();
                for t in &s.th {
                    out.extend(&t.out);
                }
                let mut m = St { th: vec![Th::default()], msgs: s.msgs };
                self.alone(&mut m, &self.prog.after);
                out.extend(&m.th[0].out);
                self.outcomes.insert(out);
            }
        }
    }
    fn reads(&self, s: &St, t: usize, r: usize) -> Vec<(u8, St)> {
        (s.th[t].view[r] as usize..s.msgs[r].len())
            .map(|m| {
                let (v, view) = s.msgs[r][m];
                let mut n = s.clone();
                n.th[t].view[r] = m as u8;
                for k in 0..2 {
                    n.th[t].view[k] = n.th[t].view[k].max(view[k]);
                }
                (v, n)
            })
            .collect()
    }
    fn finish(mut s: St, t: usize, r: u8) -> St {
        let th = &mut s.th[t];
        th.out.push(r);
        th.pc += 1;
        th.micro = 0;
        th.held = 0;
        th.acc = 0;
        s
    }
    fn write(s: &St, t: usize, r: usize, v: u8) -> St {
        let mut n = s.clone();
        let ts = n.msgs[r].len() as u8;
        n.th[t].view[r] = ts;
        let view = n.th[t].view;
        n.msgs[r].push((v, view));
        Self::finish(n, t, 0)
    }
    fn answer(&self, stream: u8, kind: u8) -> bool {
        match stream {
            1 | 2 => self.ans[stream as usize - 1][kind as usize],
            3 => true,
            4 => false,
            _ => unreachable!(),
        }
    }
    /// all ways in which thread `t` can take one step of `op`
    fn step(&self, s: &St, t: usize, op: u8, to: &mut Vec<St>) {
        match op {
            SET_MODE..=2 => return to.push(Self::write(s, t, MODE, op)),
            SET_DEFAULT..=6 => return to.push(Self::write(s, t, DEF, op - 3)),
            SET_FROM_ENV => return to.push(Self::write(s, t, MODE, 1)),
            GET_MODE | GET_DEFAULT => {
                for (v, n) in self.reads(s, t, (op - GET_MODE) as usize) {
                    to.push(Self::finish(n, t, v));
                }
                return;
            }
            _ => {}
        }
        let (ds, base) = decisions(op).expect("operation");
        let k = s.th[t].micro as usize / 4;
        let (stream, kind, bits) = ds[k];
        let decided = |mut n: St, yes: bool| {
            if yes {
                n.th[t].acc |= bits;
            }
            if k + 1 == ds.len() {
                let r = n.th[t].acc | base;
                Self::finish(n, t, r)
            } else {
                n.th[t].micro = 4 * (k as u8 + 1);
                n.th[t].held = 0;
                n
            }
        };
        match s.th[t].micro % 4 {
            0 => {
                for (m, mut n) in self.reads(s, t, MODE) {
                    match m {
                        1 => to.push(decided(n, true)),
                        2 => to.push(decided(n, false)),
                        _ if stream != 0 => to.push(decided(n, self.answer(stream, kind))),
                        _ => {
                            n.th[t].micro += 1;
                            to.push(n);
                        }
                    }
                }
                if stream == 0 {
                    // or the default stream first
                    for (d, mut n) in self.reads(s, t, DEF) {
                        n.th[t].micro += 2;
                        n.th[t].held = d;
                        to.push(n);
                    }
                }
            }
            1 => {
                for (d, n) in self.reads(s, t, DEF) {
                    to.push(decided(n, self.answer(d + 1, kind)));
                }
            }
            _ => {
                let d = s.th[t].held;
                for (m, n) in self.reads(s, t, MODE) {
                    let yes = match m {
                        1 => true,
                        2 => false,
                        _ => self.answer(d + 1, kind),
                    };
                    to.push(decided(n, yes));
                }
            }
        }
    }
}

pub fn name(op: u8) -> String {
    let s = |i: u8| ["default stream", "Stdout", "Stderr", "AlwaysColor", "NeverColor"][i as usize];
    let k = |i: u8| ["Ansi", "Xterm", "Rgb", "NoColor"][i as usize];
    match op {
        SET_MODE..=2 => format!("set_coloring_mode({:?})", MODES[op as usize]),
        SET_DEFAULT..=6 => format!("set_default_stream({:?})", STREAMS[op as usize - 3]),
        GET_MODE => "get_coloring_mode()".into(),
        GET_DEFAULT => "get_default_stream()".into(),
        SET_FROM_ENV => "set_coloring_mode_from_env() [ALWAYS_COLOR=1]".into(),
        DECIDE..=35 => format!("should_color({}, [{}])", s((op - DECIDE) / 4), k((op - DECIDE) % 4)),
        STYLE..=59 => format!("Style::should_color({}) of {}", s((op - STYLE) / 4), k((op - STYLE) % 4)),
        FORMAT..=83 => format!("format a value on {} with {}", s((op - FORMAT) / 4), k((op - FORMAT) % 4)),
        NESTED..=92 => format!("format nested values, outer on {}", s(op - NESTED)),
        _ => format!("litmus {}", op - LITMUS),
    }
}
pub fn describe(p: &Prog) -> String {
    let l = |v: &[u8]| v.iter().map(|o| name(*o)).collect::<Vec<_>>().join("; ");
    let mut s = String::new();
    if !p.before.is_empty() {
        s += &format!("first: {} | ", l(&p.before));
    }
    for (i, t) in p.threads.iter().enumerate() {
        s += &format!("thread {}: {} | ", i + 1, l(t));
    }
    s + &format!("finally: {}", l(&p.after))
}
