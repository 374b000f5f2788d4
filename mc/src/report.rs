//! Counters, violations and their JSON form.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

const MAX_VIOLATIONS: usize = 400;

#[derive(Default, Clone)]
pub struct Report {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub samples: Vec<String>,
    pub outcomes: HashSet<u64>,
    /// key -> (first detail, count)
    pub violations: BTreeMap<String, (String, u64)>,
    pub bounds: BTreeMap<String, String>,
    pub capped: bool,
    /// must be the same in every run of one check (compared by run.py)
    pub fingerprint: Option<String>,
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

static FOUND: AtomicU64 = AtomicU64::new(0);

/// Whether the rest may be left out: there are violations, none of them known before (MC_STOP, set by run.py),
/// and they are many or took long.
pub fn enough() -> bool {
    static ALLOWED: OnceLock<(bool, Instant)> = OnceLock::new();
    let (allowed, start) = *ALLOWED.get_or_init(|| (std::env::var_os("MC_STOP").is_some(), Instant::now()));
    let n = FOUND.load(Relaxed);
    allowed && n > 0 && (n > 20_000 || start.elapsed() > Duration::from_secs(45))
}

impl Report {
    pub fn violation(&mut self, key: impl Into<String>, detail: impl FnOnce() -> String) {
        FOUND.fetch_add(1, Relaxed);
        let key = key.into();
        if let Some(v) = self.violations.get_mut(&key) {
            v.1 += 1;
            return;
        }
        if self.violations.len() >= MAX_VIOLATIONS {
            let e = self.violations.entry("more violations than can be listed".into()).or_insert_with(|| (detail(), 0));
            e.1 += 1;
            return;
        }
        self.violations.insert(key, (detail(), 1));
    }
    pub fn bound(&mut self, k: &str, v: impl ToString) {
        self.bounds.insert(k.into(), v.to_string());
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            self.samples.push(s());
        }
    }
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.outcomes.len() < 200_000 {
            self.outcomes.insert(hash(t));
        }
    }
    pub fn merge(&mut self, o: Report) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        for s in o.samples {
            if self.samples.len() < 8 {
                self.samples.push(s);
            }
        }
        for h in o.outcomes {
            if self.outcomes.len() < 1_000_000 {
                self.outcomes.insert(h);
            }
        }
        for (k, (d, n)) in o.violations {
            let e = self.violations.entry(k).or_insert((d, 0));
            e.1 += n;
        }
        self.bounds.extend(o.bounds);
        self.capped |= o.capped;
        self.fingerprint = self.fingerprint.take().or(o.fingerprint);
    }
    pub fn json(&self) -> String {
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"states\":{},\"transitions\":{},\"traces\":{},\"distinct_outcomes\":{},\"capped\":{},",
            self.states,
            self.transitions,
            self.traces,
            self.outcomes.len(),
            self.capped
        );
        if let Some(f) = &self.fingerprint {
            let _ = write!(s, "\"fingerprint\":\"{f}\",");
        }
        s.push_str("\"samples\":[");
        for (i, x) in self.samples.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            jstr(&mut s, x);
        }
        s.push_str("],\"bounds\":{");
        for (i, (k, v)) in self.bounds.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            jstr(&mut s, k);
            s.push(':');
            jstr(&mut s, v);
        }
        s.push_str("},\"violations\":[");
        for (i, (k, (d, n))) in self.violations.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str("{\"key\":");
            jstr(&mut s, k);
            s.push_str(",\"detail\":");
            jstr(&mut s, d);
            let _ = write!(s, ",\"count\":{n}}}");
        }
        s.push_str("]}");
        s
    }
    /// Writes the result where run.py expects it (MC_OUT), or to stdout.
    pub fn finish(&self) {
        let j = self.json();
        match std::env::var("MC_OUT") {
            Ok(p) => std::fs::write(p, j).expect("cannot write MC_OUT"),
            Err(_) => {
                let _ = writeln!(std::io::stdout(), "{j}");
            }
        }
    }
}

fn jstr(s: &mut String, x: &str) {
    s.push('"');
    for c in x.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(s, "\\u{:04x}", c as u32);
            }
            c => s.push(c),
        }
    }
    s.push('"');
}

pub fn thorough() -> bool {
    std::env::args().any(|a| a == "thorough")
}
/// the property this run decides (first argument)
pub fn property() -> String {
    std::env::args().nth(1).expect("usage: BIN PROPERTY quick|thorough")
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// Runs `f`, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

/// Runs `n` independent jobs on all cores; the order of merging is fixed, so results are deterministic.
/// Half way through, a storm of faults is let loose on the crate, which must not change anything.
pub fn parallel(n: usize, job: impl Fn(usize, &mut Report) + Sync) -> Report {
    let next = AtomicUsize::new(0);
    enough();
    let threads = std::thread::available_parallelism().map_or(4, |x| x.get()).min(n.max(1));
    let mut parts: Vec<(usize, Report)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                s.spawn(|| {
                    let mut v = vec![];
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= n {
                            return v;
                        }
                        if i == n / 2 && n > 1 {
                            crate::storm::storm();
                        }
                        let mut r = Report::default();
                        if enough() {
                            r.capped = true;
                            v.push((i, r));
                            return v;
                        }
                        if let Err(e) = guarded(|| job(i, &mut r)) {
                            r.violation(format!("panic: {e}"), || format!("job {i} panicked: {e}"));
                        }
                        v.push((i, r));
                    }
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    parts.sort_by_key(|p| p.0);
    let mut r = Report::default();
    for p in parts {
        r.merge(p.1);
    }
    r
}
