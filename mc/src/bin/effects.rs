//! C14: EffectFlags against plain sets of effects.  The whole state space (8192 sets) is reached from the
//! empty set by the crate's own operations; every operation is applied in every state, every pair of states
//! is compared, and every way of building a set is enumerated up to a length and for every set.
//!
//! C21: the codes of each single effect.  All sequences of "switch effect on" and "switch effect off" up to a
//! length, written with the crate's escapes and as one sequence of the crate's arguments, are read by the terminal
//! model and must do to every prior state what the sequence says.
use colorz::{Effect, EffectFlags};
use mc::model::EFFECTS;
use mc::report::{guarded, parallel, property, quiet_panics, thorough, Report};
use mc::sgr::{interpret, interpret_args, off_group, Action, EFFECT_OFF, EFFECT_ON};
use std::collections::VecDeque;

const N: usize = 13;
const ALL: u16 = (1 << N) - 1;

fn members(m: u16) -> Vec<Effect> {
    (0..N).filter(|i| m >> i & 1 == 1).map(|i| EFFECTS[i]).collect()
}
fn index(e: Effect) -> usize {
    EFFECTS.iter().position(|x| *x == e).unwrap()
}
/// Err unless `f` is exactly the set `m`, by membership and by iteration
fn same(f: EffectFlags, m: u16) -> Result<(), String> {
    for i in 0..N {
        if f.is(EFFECTS[i]) != (m >> i & 1 == 1) {
            return Err(format!("is({:?}) is {} for the set {:?}", EFFECTS[i], f.is(EFFECTS[i]), members(m)));
        }
    }
    if f.is_plain() != (m == 0) {
        return Err(format!("is_plain is {} for the set {:?}", f.is_plain(), members(m)));
    }
    Ok(())
}

struct Set<'a>(&'a [Effect]);
impl std::fmt::Debug for Set<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_set().entries(self.0).finish()
    }
}

fn iteration(f: EffectFlags, m: u16) -> Result<(), String> {
    let want = m.count_ones() as usize;
    let mut seen = 0u16;
    let mut it = f.iter();
    let mut order = vec![];
    for k in 0..want {
        let (lo, hi) = it.size_hint();
        if lo > want - k || hi.is_some_and(|h| h < want - k) {
            return Err(format!("size_hint {:?} with {} members left of {:?}", it.size_hint(), want - k, members(m)));
        }
        // a copy of a half-finished iterator yields what is left
        let rest: Vec<Effect> = it.clone().take(20).collect();
        if rest.len() != want - k {
            return Err(format!("after {k} of {:?} a clone yields {rest:?}", members(m)));
        }
        // Debug of a half-finished iterator shows what is left
        if format!("{it:?}") != format!("{:?}", Set(&rest)) {
            return Err(format!("after {k} of {:?} the iterator's Debug is {it:?}", members(m)));
        }
        // stepping on by nth, count, last and folding from here
        let left = rest.len();
        if it.clone().count() != left || it.clone().last() != rest.last().copied() || it.clone().fold(0u16, |m, e| m | 1 << index(e)) != m & !seen {
            return Err(format!("after {k} of {:?} count, last or fold disagrees with {rest:?}", members(m)));
        }
        for j in [0, 1, left - 1, left, left + 1, 20] {
            let mut c = it.clone();
            let got = (c.nth(j), c.collect::<Vec<_>>());
            if got.0 != rest.get(j).copied() || got.1 != rest[(j + 1).min(left)..] {
                return Err(format!("after {k} of {:?} nth({j}) and the rest are {got:?}", members(m)));
            }
        }
        match it.next() {
            Some(e) => {
                if m >> index(e) & 1 == 0 || seen >> index(e) & 1 == 1 {
                    return Err(format!("iteration of {:?} yields {e:?} after {order:?}", members(m)));
                }
                seen |= 1 << index(e);
                order.push(e);
                if rest[0] != e {
                    return Err(format!("a clone yields {:?} where the iterator yields {e:?}", rest[0]));
                }
            }
            None => return Err(format!("iteration of {:?} ends after {order:?}", members(m))),
        }
    }
    for _ in 0..20 {
        if let Some(e) = it.next() {
            return Err(format!("iteration of {:?} goes on with {e:?}", members(m)));
        }
    }
    if seen != m {
        return Err(format!("iteration of {:?} yields {order:?}", members(m)));
    }
    let by_value: Vec<Effect> = f.into_iter().take(20).collect();
    if by_value != order {
        return Err(format!("into_iter yields {by_value:?}, iter {order:?}"));
    }
    // what the iterator's other methods say must agree with stepping through it
    if f.iter().count() != want || f.iter().last() != order.last().copied() {
        return Err(format!("count or last disagrees with the members of {:?}", members(m)));
    }
    for k in 0..=want {
        if f.iter().nth(k) != order.get(k).copied() {
            return Err(format!("nth({k}) of {:?} is {:?}", members(m), f.iter().nth(k)));
        }
    }
    let mut folded = 0u16;
    f.iter().for_each(|e| folded |= 1 << index(e));
    if folded != m {
        return Err(format!("for_each over {:?} sees {:?}", members(m), members(folded)));
    }
    // Debug shows the members as a set
    for (got, want) in [(format!("{f:?}"), format!("{:?}", Set(&order))), (format!("{f:#?}"), format!("{:#?}", Set(&order)))] {
        if got != want {
            return Err(format!("Debug of {:?} is {got}", members(m)));
        }
    }
    Ok(())
}

fn check(r: &mut Report, class: &str, f: impl FnOnce() -> Result<(), String>) {
    r.traces += 1;
    match guarded(f) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => r.violation(format!("{class} is not the set operation"), || e),
        Err(p) => r.violation(format!("{class} panics: {p}"), || p.clone()),
    }
}

const ARR: [EffectFlags; 4] = [
    EffectFlags::from_array([]),
    EffectFlags::from_array([Effect::SubScript, Effect::Bold, Effect::SubScript]),
    EffectFlags::new().with(Effect::Blink).toggled(Effect::Hidden).without(Effect::Blink),
    EffectFlags::all(),
];

fn in_place(f: EffectFlags, g: impl FnOnce(&mut EffectFlags)) -> EffectFlags {
    let mut f = f;
    g(&mut f);
    f
}

/// (apply_args, clear_args, apply_escape, clear_escape) of every effect
type Texts = [(&'static str, &'static str, &'static str, &'static str); N];
const TEXTS: Texts = {
    let mut t = [("", "", "", ""); N];
    let mut i = 0;
    while i < N {
        let e = EFFECTS[i];
        t[i] = (e.apply_args(), e.clear_args(), e.apply_escape(), e.clear_escape());
        i += 1;
    }
    t
};

/// what the terminal does with these operations (effect, on), from every prior state
fn expect(ops: &[(usize, bool)]) -> (u16, u16) {
    ops.iter().fold((0, 0), |(on, off), &(i, set)| if set { (on | 1 << i, off & !(1 << i)) } else { (on & !off_group(1 << i), off | off_group(1 << i)) })
}
fn obeys(what: &str, a: Result<Action, &'static str>, ops: &[(usize, bool)], text: &str) -> Result<(), String> {
    let say: Vec<_> = ops.iter().map(|o| format!("{}{:?}", if o.1 { "+" } else { "-" }, EFFECTS[o.0])).collect();
    match a {
        Err(e) => Err(format!("{what} of {say:?}: {e} in {text:?}")),
        Ok(a) if (a.on, a.off) != expect(ops) || a.fg.is_some() || a.bg.is_some() || a.ul.is_some() => Err(format!("{what} of {say:?}: {text:?} does {a:?}")),
        Ok(_) => Ok(()),
    }
}

/// all ways of continuing `ops` by up to `left` further operations
fn walk(r: &mut Report, ops: &mut Vec<(usize, bool)>, escapes: &str, args: &str, left: usize) {
    r.states += 1;
    r.transitions += 1;
    check(r, "a sequence of effect escapes", || obeys("the escapes", interpret(escapes.as_bytes()), ops, escapes));
    check(r, "a sequence of effect arguments", || obeys("the arguments", interpret_args(args.as_bytes()), ops, args));
    if left == 0 {
        return;
    }
    for i in 0..N {
        for set in [true, false] {
            let e = EFFECTS[i];
            let (x, y) = if set { (e.apply_escape(), e.apply_args()) } else { (e.clear_escape(), e.clear_args()) };
            ops.push((i, set));
            walk(r, ops, &format!("{escapes}{x}"), &format!("{args};{y}"), left - 1);
            ops.pop();
        }
    }
}

fn codes() {
    let depth = if thorough() { 5 } else { 4 };
    let mut r = Report::default();
    for i in 0..N {
        let e = EFFECTS[i];
        r.states += 1;
        check(&mut r, "an effect's text", || {
            let t = (e.apply_args(), e.clear_args(), e.apply_escape(), e.clear_escape());
            let (on, off) = (EFFECT_ON[i].to_string(), EFFECT_OFF[i].to_string());
            if t != (on.as_str(), off.as_str(), format!("\x1b[{on}m").as_str(), format!("\x1b[{off}m").as_str()) {
                return Err(format!("{e:?}: {t:?}"));
            }
            if t != TEXTS[i] {
                return Err(format!("{e:?}: {t:?}, in a constant {:?}", TEXTS[i]));
            }
            Ok(())
        });
        // the style with just this effect, in its explicit forms, does the same to a terminal
        check(&mut r, "a single effect's style", || {
            let s = colorz::Style::new().with(e);
            let (a, c) = (s.apply().to_string(), s.clear().to_string());
            obeys("the style's start", interpret(a.as_bytes()), &[(i, true)], &a)?;
            obeys("the style's end", interpret(c.as_bytes()), &[(i, false)], &c)
        });
        r.outcome(&TEXTS[i]);
    }
    r.merge(parallel(2 * N, |k, r| {
        let (i, set) = (k / 2, k % 2 == 0);
        let e = EFFECTS[i];
        let (x, y) = if set { (e.apply_escape(), e.apply_args()) } else { (e.clear_escape(), e.clear_args()) };
        walk(r, &mut vec![(i, set)], x, y, depth - 1);
    }));
    r.bound("operations", "13 effects x on, off");
    r.bound("sequences", format!("all up to length {depth}, as escapes and as one argument list, from every prior terminal state"));
    r.sample(|| "+Bold -Dim switches bold off".into());
    r.finish();
}

fn main() {
    quiet_panics();
    if property() == "C21" {
        return codes();
    }
    assert_eq!(property(), "C14");
    let big = thorough();
    let mut r = Report::default();
    // breadth-first from the empty set, by the crate's operations
    let mut reached: Vec<Option<EffectFlags>> = vec![None; 1 << N];
    check(&mut r, "new", || same(EffectFlags::new(), 0));
    check(&mut r, "default", || same(EffectFlags::default(), 0));
    check(&mut r, "all", || same(EffectFlags::all(), ALL));
    for (f, m) in ARR.iter().zip([0, 1 << 12 | 1, 1 << 8, ALL]) {
        check(&mut r, "a constant", || same(*f, m));
    }
    reached[0] = Some(EffectFlags::new());
    let mut queue = VecDeque::from([0u16]);
    while let Some(m) = queue.pop_front() {
        let f = reached[m as usize].unwrap();
        r.states += 1;
        check(&mut r, "iteration or Debug", || iteration(f, m));
        r.outcome(&m);
        for i in 0..N {
            let (e, b) = (EFFECTS[i], 1u16 << i);
            let ops: [(&str, u16, fn(EffectFlags, Effect) -> EffectFlags); 6] = [
                ("with", m | b, |f, e| f.with(e)),
                ("without", m & !b, |f, e| f.without(e)),
                ("toggled", m ^ b, |f, e| f.toggled(e)),
                ("set", m | b, |f, e| in_place(f, |f| f.set(e))),
                ("unset", m & !b, |f, e| in_place(f, |f| f.unset(e))),
                ("toggle", m ^ b, |f, e| in_place(f, |f| f.toggle(e))),
            ];
            for (name, want, op) in ops {
                r.transitions += 1;
                match guarded(|| op(f, e)) {
                    Err(p) => r.violation(format!("{name} panics"), || format!("{name}({e:?}) on {:?}: {p}", members(m))),
                    Ok(g) => {
                        check(&mut r, name, || same(g, want).map_err(|x| format!("{name}({e:?}) on {:?}: {x}", members(m))));
                        if reached[want as usize].is_none() {
                            reached[want as usize] = Some(g);
                            queue.push_back(want);
                        }
                        // equality and hash do not depend on the path
                        let first = reached[want as usize].unwrap();
                        check(&mut r, "equality", || {
                            if first != g || mc::report::hash(&first) != mc::report::hash(&g) {
                                Err(format!("{name}({e:?}) on {:?} differs from the same set reached otherwise", members(m)))
                            } else {
                                Ok(())
                            }
                        });
                    }
                }
            }
        }
    }
    r.bound("sets reached", reached.iter().filter(|x| x.is_some()).count());
    let sets: Vec<EffectFlags> = reached.iter().map(|x| x.unwrap_or_default()).collect();
    // all pairs
    r.merge(parallel(1 << N, |a, r| {
        for b in 0..1usize << N {
            let (x, y) = (sets[a], sets[b]);
            if x.is_any(y) != (a & b != 0) {
                r.violation("is_any is not the set operation", || format!("is_any of {:?} and {:?}", members(a as u16), members(b as u16)));
            }
            if (x == y) != (a == b) {
                r.violation("equality is not the set operation", || format!("== of {:?} and {:?}", members(a as u16), members(b as u16)));
            }
        }
        r.states += 1;
        r.transitions += 2 << N;
        r.traces += 2 << N;
        // building this set from sequences: sorted, reversed, doubled, rotated, from references
        let m = members(a as u16);
        let want = a as u16;
        let mut orders: Vec<Vec<Effect>> = vec![m.clone(), m.iter().rev().copied().collect(), [&m[..], &m[..]].concat()];
        for k in 1..m.len() {
            let mut v = m.clone();
            v.rotate_left(k);
            orders.push(v);
        }
        for mut o in orders {
            let say = |e: String| format!("from {o:?}: {e}");
            check(r, "collecting an iterator", || same(o.iter().copied().collect(), want).map_err(say));
            check(r, "collecting references", || same(o.iter().collect(), want).map_err(say));
            let text = format!("{o:?}");
            check(r, "collecting mutable references", || same(o.iter_mut().collect(), want).map_err(|e| format!("from {text}: {e}")));
        }
        check(r, "collecting a set", || same(sets[a].iter().collect(), want));
        check(r, "collecting without size hint", || same(m.iter().copied().filter(|_| true).collect(), want));
    }));
    // all sequences with repetition, as arrays and as iterators
    fn mask(v: &[Effect]) -> u16 {
        v.iter().fold(0, |m, e| m | 1 << index(*e))
    }
    check(&mut r, "from_array", || same(EffectFlags::from_array([]), 0));
    r.merge(parallel(N, |a, r| {
        let e = EFFECTS;
        let one = |r: &mut Report, f: EffectFlags, v: &[Effect]| {
            r.states += 1;
            r.transitions += 1;
            check(r, "from_array", || same(f, mask(v)).map_err(|x| format!("from_array({v:?}): {x}")));
            check(r, "collecting an iterator", || same(v.iter().copied().collect(), mask(v)).map_err(|x| format!("from {v:?}: {x}")));
        };
        one(r, EffectFlags::from_array([e[a]]), &[e[a]]);
        // the same effect many times over
        one(r, EffectFlags::from_array([e[a]; 16]), &[e[a]; 16]);
        one(r, EffectFlags::from_array([e[a]; 17]), &[e[a]; 17]);
        one(r, EffectFlags::from_array([e[a]; 65]), &[e[a]; 65]);
        for b in 0..N {
            one(r, EffectFlags::from_array([e[a], e[b]]), &[e[a], e[b]]);
            for c in 0..N {
                one(r, EffectFlags::from_array([e[a], e[b], e[c]]), &[e[a], e[b], e[c]]);
                for d in 0..N {
                    one(r, EffectFlags::from_array([e[a], e[b], e[c], e[d]]), &[e[a], e[b], e[c], e[d]]);
                    if big {
                        for f in 0..N {
                            let v = [e[a], e[b], e[c], e[d], e[f]];
                            one(r, EffectFlags::from_array(v), &v);
                            for g in 0..N {
                                let v = [e[a], e[b], e[c], e[d], e[f], e[g]];
                                one(r, EffectFlags::from_array(v), &v);
                            }
                        }
                    }
                }
            }
        }
        // long sequences in which one entry differs from the rest, at every place
        for b in 0..N {
            macro_rules! long {
                ($($n:literal)*) => {$(
                    for at in 0..$n {
                        let mut v = [e[a]; $n];
                        v[at] = e[b];
                        one(r, EffectFlags::from_array(v), &v);
                    }
                )*};
            }
            long!(5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 63 64 65 127 128 129 255 256 257);
            for n in [1000usize, 65535, 65536, 70000] {
                let v = || std::iter::repeat(e[a]).take(n).chain([e[b]]);
                let want = 1 << a | 1 << b;
                check(r, "collecting an iterator", || same(v().collect(), want).map_err(|x| format!("from {n} times {:?} and then {:?}: {x}", e[a], e[b])));
                r.states += 1;
                r.transitions += 1;
            }
        }
        // all thirteen, in rotated orders, forwards and backwards
        let mut v = EFFECTS;
        v.rotate_left(a);
        one(r, EffectFlags::from_array(v), &v);
        v.reverse();
        one(r, EffectFlags::from_array(v), &v);
    }));
    r.bound("pairs", "8192 x 8192");
    r.bound("sequences with repetition", if big { "all up to length 6" } else { "all up to length 4" });
    r.bound("long sequences", "39 lengths up to 257 with one entry that differs, at every place; iterators of up to 70001 items");
    r.bound("operations in every state", "with, without, toggled, set, unset, toggle x 13 effects; is, is_any, is_plain, ==, Hash, iter and its methods, Debug");
    r.sample(|| "{Bold, Hidden}.toggled(Hidden) = {Bold}".into());
    r.finish();
}
