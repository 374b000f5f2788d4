//! C12, C16, C17: all schedules (and all values the memory model lets loads return) of small programs of threads.
mod explore;
mod oracle;

use bodies::*;
use explore::explore;
use mc::os::{engine, in_child, log, pin, processes, shared, Ttys};
use mc::report::{property, quiet_panics, thorough, Report};
use oracle::{Answers, Oracle, Prog};
use std::collections::HashSet;
use std::sync::atomic::Ordering::Relaxed;

const STD: bool = cfg!(feature = "std");
const SC: bool = cfg!(feature = "supports-color");

// ---------------------------------------------------------------- the engine's own tests

fn litmus() {
    let sh = shared::<rt::Shared>();
    let run = |threads: &[&[u8]], after: &[u8], prune: bool| {
        let p = Prog {
            before: vec![],
            threads: threads.iter().map(|t| t.iter().map(|o| o + LITMUS).collect()).collect(),
            after: after.iter().map(|o| o + LITMUS).collect(),
        };
        static SALT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1 << 40);
        explore(sh, &p, SALT.fetch_add(1, Relaxed), prune, std::time::Instant::now() + std::time::Duration::from_secs(60), &|_| true)
    };
    let mut failed = false;
    let mut check = |what: &str, threads: &[&[u8]], after: &[u8], expect: &[&[u8]], bad: Option<&str>| {
        // (waiting threads make the unpruned trees large)
        for &prune in if what.contains("three") || what.contains("loop") || what.contains("lock") { &[true][..] } else { &[true, false] } {
            let e = run(threads, after, prune);
            let mut got: Vec<Vec<u8>> = e.outcomes.into_iter().collect();
            got.sort();
            let mut want: Vec<Vec<u8>> = expect.iter().map(|x| x.to_vec()).collect();
            want.sort();
            let fault = e.bad.map(|b| b.0);
            if fault.as_deref() != bad || (bad.is_none() && got != want) {
                eprintln!("litmus {what} (pruning {prune}): got {got:?} {fault:?}, want {want:?} {bad:?}");
                failed = true;
            }
        }
    };
    let mp: &[&[u8]] = &[&[0, 0], &[0, 1], &[0, 3]];
    let weak: &[&[u8]] = &[&[0, 0], &[0, 1], &[0, 2], &[0, 3]];
    check("message passing", &[&[0], &[1]], &[], mp, None);
    check("message passing, relaxed writer", &[&[2], &[1]], &[], weak, None);
    check("message passing, relaxed reader", &[&[0], &[18, 17]], &[], &[&[0, 0, 0], &[0, 0, 1], &[0, 1, 0], &[0, 1, 1]], None);
    check("message passing, fences", &[&[3], &[4]], &[], mp, None);
    check("message passing, half a fence", &[&[2], &[4]], &[], weak, None);
    check("message passing, release sequence", &[&[0], &[27], &[1]], &[], &[&[0, 0, 0], &[0, 0, 1], &[0, 0, 2], &[0, 0, 3], &[0, 0, 5]], None);
    check("message passing, broken release sequence", &[&[0], &[29], &[1]], &[], &[&[0, 0, 0], &[0, 0, 1], &[0, 0, 2], &[0, 0, 3]], None);
    let sb: &[&[u8]] = &[&[0, 0], &[0, 1], &[1, 0], &[1, 1]];
    check("store buffering", &[&[5], &[6]], &[], sb, None);
    check("store buffering, fences", &[&[7], &[8]], &[], &sb[1..], None);
    check("store buffering, seq_cst", &[&[9], &[10]], &[], &sb[1..], None);
    check("coherence", &[&[11], &[12]], &[], &[&[0, 0], &[0, 1], &[0, 2], &[0, 5], &[0, 6], &[0, 10]], None);
    check("lost update", &[&[13], &[13]], &[17], &[&[0, 0, 1], &[0, 0, 2]], None);
    check("fetch_add", &[&[14], &[14]], &[17], &[&[0, 1, 2], &[1, 0, 2]], None);
    check("mutex", &[&[15], &[15]], &[17], &[&[1, 2, 2], &[2, 1, 2]], None);
    check("mutex, three threads", &[&[15], &[15], &[15]], &[17], &[&[1, 2, 3, 3], &[1, 3, 2, 3], &[2, 1, 3, 3], &[2, 3, 1, 3], &[3, 1, 2, 3], &[3, 2, 1, 3]], None);
    check("once", &[&[16], &[16]], &[18], &[&[7, 7, 1]], None);
    check("once, three threads", &[&[16], &[16], &[16]], &[18], &[&[7, 7, 7, 1]], None);
    check("data race", &[&[19], &[20]], &[], &[], Some("data race"));
    check("data race, two writers", &[&[19], &[19]], &[], &[], Some("data race"));
    check("published data", &[&[21], &[22]], &[20], &[&[0, 1, 1], &[0, 9, 1]], None);
    check("published data, relaxed", &[&[21], &[23]], &[20], &[], Some("data race"));
    check("spin lock", &[&[24], &[24]], &[], &[&[1, 2], &[2, 1]], None);
    check("waiting loop", &[&[0], &[25]], &[], &[&[0, 1]], None);
    check("endless loop", &[&[17], &[25]], &[], &[], Some("threads wait in a loop for ever"));
    check("deadlock", &[&[26], &[26]], &[], &[], Some("all threads wait for each other"));
    if failed {
        engine("the litmus tests fail");
    }
}

// ---------------------------------------------------------------- programs

const D: fn(u8, u8) -> u8 = |stream, kind| DECIDE + 4 * stream + kind;
const FMT: fn(u8, u8) -> u8 = |stream, kind| FORMAT + 4 * stream + kind;
const FINAL: [u8; 2] = [GET_MODE, GET_DEFAULT];

fn words(alpha: &[u8], n: usize) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|w: Vec<u8>| alpha.iter().map(move |a| [&w[..], &[*a]].concat())).collect();
    }
    v
}

/// all multisets of one word per list (threads are interchangeable when their lists are the same)
fn teams(lists: &[Vec<Vec<u8>>], before: &[&[u8]], keep: impl Fn(&[Vec<u8>]) -> bool) -> Vec<Prog> {
    let mut out = vec![];
    let mut seen = HashSet::new();
    let mut idx = vec![0; lists.len()];
    'all: loop {
        let mut threads: Vec<Vec<u8>> = idx.iter().zip(lists).map(|(i, l)| l[*i].clone()).collect();
        threads.sort();
        if keep(&threads) && seen.insert(threads.clone()) {
            for b in before {
                out.push(Prog { before: b.to_vec(), threads: threads.clone(), after: FINAL.to_vec() });
            }
        }
        for k in 0..idx.len() {
            idx[k] += 1;
            if idx[k] < lists[k].len() {
                continue 'all;
            }
            idx[k] = 0;
        }
        return out;
    }
}

fn sets(o: u8) -> bool {
    o < GET_MODE || o == SET_FROM_ENV
}
/// something is written by one thread and something read or written by another
fn collides(t: &[Vec<u8>]) -> bool {
    t.iter().filter(|w| w.iter().any(|o| sets(*o))).count() >= 1
}

struct World {
    name: &'static str,
    /// terminals: bits of stdin, stdout, stderr
    ttys: u8,
    term: &'static str,
}

fn programs(prop: &str, thorough: bool, world: usize) -> Vec<Prog> {
    let mut out = vec![];
    // every change of either setting (two in a row) while a decision depends on it
    if prop == "C16" {
        let before: &[&[u8]] = &[&[], &[0], &[1], &[3], &[4], &[6]];
        out.extend(teams(&[words(&[0, 1, 2, 3, 4, 5, 6], 2), words(&[D(0, 0)], 1)], before, |_| true));
        let before: &[&[u8]] = &[&[3], &[4]];
        out.extend(teams(&[words(&[3, 4, 5, 6], 2), words(&[D(0, 0), D(0, 2), FMT(0, 0), GET_DEFAULT], 2)], before, |_| true));
        out.extend(teams(&[words(&[3, 4, 5, 6], 1), words(&[3, 4, 5, 6], 1), words(&[D(0, 0), FMT(0, 0)], 1)], before, |_| true));
        if world > 0 {
            return out;
        }
    }
    if prop == "C12" {
        out.extend(teams(&[words(&[FMT(0, 0), FMT(0, 2), NESTED], 1), words(&[3, 4, 5, 6, 1], 2)], &[&[3], &[4]], |_| true));
        if world > 0 {
            return out;
        }
    }
    match prop {
        "C16" => {
            // registers: modes, default streams, getters and a decision on the default stream
            let full = [0, 1, 2, 5, 6, 3, GET_MODE, GET_DEFAULT, D(0, 0), D(3, 0), D(4, 0)];
            let two = words(&full, 2);
            out.extend(teams(&[two.clone(), two], &[&[]], collides));
            let small = [2, 1, 6, GET_MODE, GET_DEFAULT, D(0, 0)];
            out.extend(teams(&[words(&small, 1), words(&small, 1), words(&small, 1)], &[&[], &[1], &[6]], collides));
            let core = [2, 6, GET_MODE, GET_DEFAULT];
            out.extend(teams(&[words(&core, 1), words(&core, 1), words(&core, 2)], &[&[]], collides));
            // a setting handed on by a second thread
            for (a, b, r1, r2) in [(2, 6, GET_MODE, GET_DEFAULT), (6, 2, GET_DEFAULT, GET_MODE)] {
                for x in [r1, D(0, 0)] {
                    for y in [r1, D(0, 0)] {
                        out.push(Prog { before: vec![], threads: vec![vec![a], vec![r1, b], vec![r2, y]], after: FINAL.to_vec() });
                        out.push(Prog { before: vec![], threads: vec![vec![a], vec![x, b], vec![r2, r1, y]], after: FINAL.to_vec() });
                    }
                }
            }
            if STD {
                let env = [SET_FROM_ENV, 2, 6, GET_MODE, GET_DEFAULT, D(0, 0)];
                let two = words(&env, 2);
                out.extend(teams(&[two.clone(), two], &[&[]], |t| t.iter().flatten().any(|o| *o == SET_FROM_ENV)));
            }
            if thorough {
                let three = words(&[1, 2, 6, GET_MODE, GET_DEFAULT, D(0, 0)], 3);
                out.extend(teams(&[three.clone(), three], &[&[]], collides));
                let two = words(&[1, 2, 6, GET_MODE, GET_DEFAULT, D(0, 0)], 2);
                out.extend(teams(&[two.clone(), two.clone(), words(&[2, 6, GET_MODE, GET_DEFAULT], 1)], &[&[]], collides));
                out.extend(teams(&[words(&[2, 6, GET_MODE, GET_DEFAULT], 2), words(&[2, 6, GET_MODE, GET_DEFAULT], 2), words(&[2, 6, GET_MODE, GET_DEFAULT], 2)], &[&[]], collides));
                let one = words(&[2, 6, GET_MODE, GET_DEFAULT, D(0, 0)], 1);
                out.extend(teams(&[one.clone(), one.clone(), one.clone(), one], &[&[], &[1]], collides));
            }
        }
        "C17" => {
            let asks = [D(1, 0), D(2, 0), D(1, 2), D(2, 1), FMT(1, 0), FMT(2, 2), D(0, 1)];
            let any = |_: &[Vec<u8>]| true;
            let prefixes: &[&[u8]] = &[&[], &[3], &[4]];
            out.extend(teams(&[words(&asks, 1), words(&asks, 1)], prefixes, any));
            let two: Vec<Vec<u8>> = words(&[D(1, 0), D(2, 0), D(1, 2), FMT(2, 1), D(0, 0), STYLE + 4 + 3], 2);
            out.extend(teams(&[two.clone(), two.clone()], if thorough { &[&[], &[3]] } else { &[&[]] }, any));
            let one = words(&[D(1, 0), D(2, 0), D(1, 1), FMT(2, 2)], 1);
            out.extend(teams(&[one.clone(), one.clone(), one.clone()], &[&[]], any));
            out.extend(teams(&[words(&[D(1, 0), D(2, 0)], 1), words(&[D(1, 0), D(2, 0)], 1), words(&[D(1, 0), D(2, 0)], 2)], &[&[]], any));
            // settings change in between
            let change = words(&[2, 1, 0, 3, 4], 1);
            out.extend(teams(&[change.clone(), words(&[D(1, 0), D(2, 0), D(0, 0), FMT(0, 0)], 2)], &[&[], &[3]], any));
            out.extend(teams(&[words(&[2, 4], 1), words(&[D(0, 0), D(1, 0)], 1), words(&[D(0, 0), D(2, 2)], 1)], &[&[3]], any));
            if thorough {
                let w = words(&[D(1, 0), D(2, 0), D(1, 2), FMT(2, 1)], 2);
                out.extend(teams(&[w.clone(), w.clone(), words(&[D(1, 0), D(2, 0), D(2, 2)], 1)], &[&[]], any));
                let w = words(&[D(1, 0), D(2, 0), D(0, 0), 4, 2], 3);
                out.extend(teams(&[w.clone(), words(&[D(1, 0), D(2, 1), D(0, 0), 3], 2)], &[&[], &[3]], any));
                let w = words(&[D(1, 0), D(2, 0)], 1);
                out.extend(teams(&[w.clone(), w.clone(), w.clone(), w], &[&[]], any));
            }
        }
        "C12" => {
            let forms = [FMT(0, 0), FMT(0, 3), FMT(1, 0), FMT(2, 2), FMT(3, 0), FMT(4, 0), NESTED, NESTED + 3, NESTED + 4];
            let sets = [0, 1, 2, 5, 6];
            let any = |_: &[Vec<u8>]| true;
            for n in 1..=2 {
                out.extend(teams(&[words(&forms, 1), words(&sets, n)], &[&[], &[2], &[1], &[6]], any));
            }
            out.extend(teams(&[words(&forms, 1), words(&[1, 2], 3)], &[&[]], any));
            out.extend(teams(&[words(&[FMT(0, 0), NESTED], 1), words(&[1, 2, 6], 1), words(&[0, 2, 5], 1)], &[&[], &[6]], any));
            out.extend(teams(&[words(&[FMT(0, 0), FMT(0, 1), NESTED], 2), words(&[1, 2, 6], 1)], &[&[]], any));
            out.extend(teams(&[words(&[FMT(0, 0)], 1), words(&[FMT(0, 0), NESTED], 1), words(&[2, 6], 1)], &[&[]], any));
            if thorough {
                out.extend(teams(&[words(&forms, 1), words(&sets, 3)], &[&[], &[2]], any));
                out.extend(teams(&[words(&[FMT(0, 0), FMT(3, 0), NESTED], 2), words(&sets, 2)], &[&[], &[6]], any));
                out.extend(teams(&[words(&[FMT(0, 0), NESTED], 1), words(&[0, 1, 2, 6], 2), words(&[2, 6, 5], 1)], &[&[]], any));
            }
        }
        _ => engine("unknown property"),
    }
    out
}

// ---------------------------------------------------------------- running

/// about the number of schedules
fn weight(p: &Prog) -> u64 {
    let steps = |o: &u8| match *o {
        0..DECIDE => 1,
        NESTED..LITMUS => 4,
        _ => 2u64,
    };
    let (mut n, mut w) = (0, 1u64);
    for t in &p.threads {
        for k in 1..=t.iter().map(steps).sum() {
            n += 1;
            w = w * n / k;
        }
    }
    w
}

fn answers() -> Answers {
    // each question in a process of its own
    let a = shared::<[[u8; 4]; 2]>();
    for s in 0..2 {
        for k in 0..4 {
            if let Err(e) = in_child(30, || unsafe { (*a)[s][k] = run(D(s as u8 + 1, k as u8)) }) {
                engine(&format!("a single query {e}"));
            }
        }
    }
    // SAFETY: the children have ended
    unsafe { (*a).map(|r| r.map(|x| x == 1)) }
}

fn main() {
    quiet_panics();
    let prop = property();
    let thorough = thorough();
    std::env::set_var("ALWAYS_COLOR", "1");
    let mut r = Report::default();
    if let Err(e) = in_child(60, || {
        pin();
        litmus()
    }) {
        engine(&format!("the litmus tests: {e}"));
    }
    r.bound("engine self-tests", "23 litmus programs, with and without state pruning: exact outcome sets");
    let worlds: &[World] = match prop.as_str() {
        _ if STD || SC => &[
            World { name: "stdout a 256-colour terminal, stderr not a terminal", ttys: 3, term: "xterm-256color" },
            World { name: "stderr a 256-colour terminal, stdout not a terminal", ttys: 4, term: "xterm-256color" },
        ],
        _ => &[World { name: "stdout a 256-colour terminal, stderr not a terminal", ttys: 3, term: "xterm-256color" }],
    };
    let ttys = Ttys::new();
    const CHUNK: usize = 2;
    for (wi, w) in worlds.iter().enumerate() {
        let mut all = programs(&prop, thorough, wi);
        // small ones first, in case the time runs out
        all.sort_by_cached_key(weight);
        std::env::set_var("TERM", w.term);
        let ans_mem = shared::<Answers>();
        // (the standard streams are replaced in processes of their own)
        if let Err(e) = in_child(60, || {
            ttys.place(w.ttys);
            // SAFETY: one process at a time
            unsafe { *ans_mem = answers() }
        }) {
            engine(&format!("the single queries: {e}"));
        }
        // SAFETY: the child has ended
        let ans = unsafe { *ans_mem };
        let totals = shared::<[std::sync::atomic::AtomicU64; 5]>();
        // SAFETY: alive to the end
        let totals = unsafe { &*totals };
        // (the code as it is needs a small part of this)
        let secs = match prop.as_str() {
            _ if thorough => 2 * 3600,
            "C12" | "C16" => [140, 40][wi],
            _ => 150 / worlds.len() as u64,
        };
        let until = std::time::Instant::now() + std::time::Duration::from_secs(secs);
        let part = processes(
            all.len().div_ceil(CHUNK),
            3600,
            |i| format!("programs from {}", oracle::describe(&all[i * CHUNK])),
            |i| {
                pin();
                ttys.place(w.ttys);
                let sh = shared::<rt::Shared>();
                for (j, p) in all.iter().enumerate().skip(i * CHUNK).take(CHUNK) {
                    if std::time::Instant::now() > until {
                        totals[4].fetch_add(1, Relaxed);
                        continue;
                    }
                    let spec = Oracle::run(p, &ans);
                    let e = explore(sh, p, (wi as u64 * 1_000_000 + j as u64 + 1) << 20, true, until, &|o| spec.outcomes.contains(o));
                    log(|l| {
                        l.states.fetch_add(e.states.max(1), Relaxed);
                        l.transitions.fetch_add(e.steps, Relaxed);
                        l.traces.fetch_add(e.executions, Relaxed);
                        for o in &e.outcomes {
                            l.outcome(&(j, o));
                        }
                        if let Some((k, d)) = &e.bad {
                            l.violation(k, || format!("{d} -- allowed: {}", show(&spec.outcomes)));
                        }
                    });
                    totals[0].fetch_add(spec.outcomes.len() as u64, Relaxed);
                    totals[1].fetch_add(e.outcomes.intersection(&spec.outcomes).count() as u64, Relaxed);
                    totals[2].fetch_add(spec.states(), Relaxed);
                    totals[3].fetch_add(e.complete, Relaxed);
                    totals[4].fetch_add(e.capped as u64, Relaxed);
                }
            },
        );
        r.merge(part);
        let t = totals.each_ref().map(|x| x.load(Relaxed));
        if t[4] > 0 {
            r.capped = true;
            r.bound(&format!("not (completely) explored, {}", w.name), format!("{} programs: the time ran out", t[4]));
        }
        r.bound(
            &format!("programs, {}", w.name),
            format!("{} programs, {} complete executions; {} of the {} outcomes the specification allows were seen; {} specification states", all.len(), t[3], t[1], t[0], t[2]),
        );
        for k in [0, all.len() / 3, 2 * all.len() / 3] {
            r.sample(|| oracle::describe(&all[k]));
        }
    }
    r.finish();
}

fn show(o: &HashSet<Vec<u8>>) -> String {
    let mut v: Vec<_> = o.iter().collect();
    v.sort();
    let more = v.len().saturating_sub(40);
    format!("{:?}{}", &v[..v.len() - more], if more > 0 { format!(" and {more} more") } else { String::new() })
}
