//! Depth-first enumeration of the executions of one program.
use crate::oracle::{describe, Prog};
use mc::os::engine;
use rt::*;
use std::collections::HashSet;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn alarm(s: u32) -> u32;
}

#[derive(Default)]
pub struct Explored {
    pub outcomes: HashSet<Vec<u8>>,
    pub executions: u64,
    pub complete: u64,
    pub steps: u64,
    pub states: u64,
    /// not everything was explored
    pub capped: bool,
    /// (kind, detail)
    pub bad: Option<(String, String)>,
}

fn ops(v: &[u8]) -> Vec<u8> {
    v.iter().map(|o| std::panic::catch_unwind(|| bodies::run(*o)).unwrap_or(bodies::PANIC)).collect()
}

/// one execution following `sh.choices[..sh.prefix]`
fn once(sh: *mut Shared, p: &Prog) -> Result<(), String> {
    // SAFETY: this process has one thread
    unsafe {
        let pid = fork();
        if pid < 0 {
            engine("fork");
        }
        if pid == 0 {
            alarm(30);
            let fs: Vec<_> = p.threads.iter().map(|t| move || ops(t)).collect();
            let ts: Vec<&(dyn Fn() -> Vec<u8> + Sync)> = fs.iter().map(|f| f as _).collect();
            execute(sh, &|| ops(&p.before), &ts, &|| ops(&p.after));
        }
        let mut st = 0;
        if waitpid(pid, &mut st, 0) != pid {
            engine("waitpid");
        }
        match st & 0x7f {
            0 if st == 0 => Ok(()),
            0 => engine(&format!("an execution exits with {}", st >> 8)),
            14 => Err("does not terminate".into()),
            s => Err(format!("process dies of signal {s}")),
        }
    }
}

fn trace(sh: &Shared) -> String {
    let mut addrs: Vec<u64> = vec![];
    let mut s = String::new();
    for t in &sh.trace[..sh.steps] {
        if !addrs.contains(&t.addr) {
            addrs.push(t.addr);
        }
        let a = addrs.iter().position(|x| *x == t.addr).unwrap();
        let order = ["relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst", "?"][(t.order as usize).min(6)];
        let what = match t.kind {
            b'R' => format!("loads {} of #{a} ({order}{})", t.val, if t.old == 1 { ", not the latest" } else { "" }),
            b'W' => format!("stores {} to #{a} ({order})", t.val),
            b'X' => format!("exchanges #{a} for {} ({order})", t.val),
            b'F' => format!("fails to exchange #{a}, which is {} ({order})", t.val),
            b'B' => format!("fence ({order})"),
            b'w' => format!("writes #{a} without synchronisation"),
            _ => format!("reads #{a} without synchronisation"),
        };
        s += &format!("t{} {what}; ", t.tid);
    }
    s
}

pub fn explore(sh: *mut Shared, p: &Prog, salt: u64, prune: bool, until: std::time::Instant, ok: &dyn Fn(&[u8]) -> bool) -> Explored {
    let mut r = Explored::default();
    // SAFETY: the mapping is alive, children have ended when this looks
    let s = unsafe { &mut *sh };
    if s.states > VISITED / 4 {
        s.visited.fill(0);
        s.states = 0;
    }
    let mut before = s.states;
    s.full = false;
    s.prune = prune;
    s.salt = salt;
    s.prefix = 0;
    loop {
        let end = once(sh, p);
        r.executions += 1;
        r.steps += s.steps as u64;
        let choices = s.choices[..s.len].iter().map(|c| c.at.to_string()).collect::<Vec<_>>().join(",");
        let out = s.out[..s.out_len].to_vec();
        let mut bad = None;
        match (&end, s.status) {
            (Err(e), _) => bad = Some(e.clone()),
            (_, COMPLETE) => {
                r.complete += 1;
                if !ok(&out) {
                    bad = Some("an outcome that the specification does not allow".into());
                }
                r.outcomes.insert(out.clone());
            }
            (_, PRUNED) => {}
            (_, DEADLOCK) => bad = Some("all threads wait for each other".into()),
            (_, ENDLESS) => bad = Some("threads wait in a loop for ever".into()),
            (_, RACE) => bad = Some("data race".into()),
            (_, RESTART) => {
                // (what was explored with that location out of sight does not count)
                s.visited.fill(0);
                s.states = 0;
                before = 0;
                s.prefix = 0;
                r.outcomes.clear();
                continue;
            }
            (_, DIVERGED) => engine(&format!("an execution does not repeat: {} [{choices}]", describe(p))),
            (_, x) => engine(&format!("status {x}")),
        }
        if let Some(kind) = bad {
            let text = trace(s);
            if s.status != PRUNED && end.is_ok() {
                // the same choices must do the same again
                s.prefix = s.len;
                let again = once(sh, p);
                if again != end || s.out[..s.out_len] != out[..] || trace(s) != text {
                    engine(&format!("an execution does not repeat: {} [{choices}]", describe(p)));
                }
            }
            r.bad = Some((kind, format!("{} => {out:?}; choices [{choices}]: {text}", describe(p))));
            break;
        }
        if r.executions % 64 == 0 && std::time::Instant::now() > until {
            r.capped = true;
            break;
        }
        let Some(i) = (0..s.len).rev().find(|i| s.choices[*i].at + 1 < s.choices[*i].n) else { break };
        s.choices[i].at += 1;
        s.prefix = i + 1;
    }
    if s.full {
        engine("the table of states is full");
    }
    r.states = (s.states - before) as u64;
    r
}
