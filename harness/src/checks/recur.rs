//! C14 the set of occurrences, C15 what an occurrence keeps, C16 windows.

use super::zones::{K, MORE_ZONES, ZONES, freq, instants_of, local_at, naive_at, offset_at, wall_ok};
use crate::cal;
use crate::cli::Info;
use crate::docs;
use crate::engine::{Case, Dec, Run, imp, product};
use crate::model::{self, Kind};
use crate::obs::{self, Any};
use std::cmp::Ordering;

const UNIT: [i64; 5] = [1, 60, 3600, cal::DAY, 7 * cal::DAY];

/// What the library says a date is.
fn k_of(d: &ikal::Date) -> Result<K, String> {
    match obs::date(d) {
        model::Val::Date(d) => Ok(K::Day(d)),
        model::Val::Naive(t, false) => Ok(K::Naive(t)),
        model::Val::Utc(t, false) => Ok(K::Local(t)),
        v => Err(format!("unexpected date {v:?}")),
    }
}

/// The wall clock of a floating or local time.
fn wall(k: K) -> i64 {
    match k {
        K::Day(d) => d * cal::DAY,
        K::Naive(t) => t,
        K::Local(t) => t + offset_at(t),
    }
}

/// Order of two dates; a floating time is the local clocks' one.
fn cmp(a: K, b: K) -> Ordering {
    a.cmp(b).unwrap_or_else(|| wall(a).cmp(&wall(b)))
}

/// A start the rule asks for.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cand {
    Is(K),
    /// the local clocks' reading
    Wall(i64),
    /// beyond the calendar
    Out,
}

#[derive(Clone, Debug)]
struct Rule {
    freq: usize,
    interval: u8,
    count: Option<u8>,
    until: Option<K>,
}

impl Rule {
    fn lib(&self) -> ikal::Recur {
        ikal::Recur {
            freq: freq(self.freq),
            interval: self.interval,
            count: self.count,
            until: self.until.map(K::date),
            ..Default::default()
        }
    }
    fn text(&self) -> String {
        let mut s = format!("FREQ={}", model::FREQS[self.freq]);
        if self.interval != 0 {
            s += &format!(";INTERVAL={}", self.interval);
        }
        if let Some(c) = self.count {
            s += &format!(";COUNT={c}");
        }
        if let Some(u) = self.until {
            s += &format!(";UNTIL={}", print(u));
        }
        s
    }
}

/// A date as a document writes it.
fn print(k: K) -> String {
    match k {
        K::Day(d) => cal::fmt_date(d),
        K::Naive(t) => cal::fmt_naive(t),
        K::Local(t) => format!("{}Z", cal::fmt_naive(t)),
    }
}

const LAST_YEAR: i64 = 262_142;

/// The `i`th multiple of the interval after the start, `None` if the calendar doesn't have it.
fn multiple(start: K, f: usize, interval: u8, i: i64) -> Option<Cand> {
    let by = i * i64::from(interval.max(1));
    if i == 0 {
        return Some(Cand::Is(start));
    }
    if f < 5 {
        let secs = by * UNIT[f];
        let k = match start {
            K::Day(d) if f >= 3 => K::Day(d + secs / cal::DAY),
            K::Day(d) => K::Naive(d * cal::DAY + secs),
            K::Naive(t) => K::Naive(t + secs),
            K::Local(t) => K::Local(t + secs),
        };
        let last = cal::days(LAST_YEAR, 12, 31);
        let over = match k {
            K::Day(d) => d > last,
            K::Naive(t) => t >= (last + 1) * cal::DAY,
            K::Local(t) => t >= (last + 1) * cal::DAY || t + offset_at((last - 400) * cal::DAY) >= (last + 1) * cal::DAY,
        };
        return Some(if over { Cand::Out } else { Cand::Is(k) });
    }
    let w = wall(start);
    let (y, m, d) = cal::civil(w.div_euclid(cal::DAY));
    let months = y * 12 + m - 1 + by * if f == 6 { 12 } else { 1 };
    let (y, m) = (months.div_euclid(12), months.rem_euclid(12) + 1);
    if y > LAST_YEAR {
        return Some(Cand::Out);
    }
    if d > cal::month_len(y, m) {
        return None;
    }
    let w = cal::days(y, m, d) * cal::DAY + w.rem_euclid(cal::DAY);
    Some(match start {
        K::Day(_) => Cand::Is(K::Day(w / cal::DAY)),
        K::Naive(_) => Cand::Is(K::Naive(w)),
        K::Local(_) => Cand::Wall(w),
    })
}

/// The first `n` occurrences of a start by itself, floating and dates only.
fn plain(start: K, f: usize, interval: u8, n: usize) -> Vec<K> {
    let mut out = Vec::new();
    let mut i = 0;
    while out.len() < n {
        match multiple(start, f, interval, i) {
            Some(Cand::Is(k)) => out.push(k),
            Some(Cand::Wall(w)) => out.extend(instants_of(w).last().map(|t| K::Local(*t))),
            Some(Cand::Out) => break,
            None => (),
        }
        i += 1;
    }
    out
}

/// Compares the first starts an expansion yields (`ended`: there were no more) with the rule's set.
/// Returns the number of steps of the model.
fn compare(start: K, rule: &Rule, exdates: &[K], got: &[K], ended: bool) -> Result<u64, String> {
    let mut g = got.iter().copied().peekable();
    let mut left = rule.count.map(i64::from);
    let mut i = -1;
    let mut steps = 0;
    loop {
        i += 1;
        if g.peek().is_none() && !ended {
            return Ok(steps);
        }
        let end = |why: &str, g: &mut std::iter::Peekable<_>, steps: u64| match g.peek() {
            None => Ok(steps),
            Some(x) => Err(format!("{x:?} is not part of the set, {why}")),
        };
        if left == Some(0) {
            return end("the count is used up", &mut g, steps);
        }
        steps += 1;
        let k = match multiple(start, rule.freq, rule.interval, i) {
            None => continue,
            Some(Cand::Out) => return end("the calendar ends before", &mut g, steps),
            Some(Cand::Is(k)) => k,
            Some(Cand::Wall(w)) => {
                let found = instants_of(w);
                match g.peek() {
                    Some(K::Local(t)) if wall_ok(w, Some(*t)) && (found.is_empty() || found.contains(t)) => K::Local(*t),
                    _ => match found.last() {
                        Some(t) => K::Local(*t),
                        None => continue,
                    },
                }
            }
        };
        if rule.until.is_some_and(|u| cmp(k, u) == Ordering::Greater) {
            return end("the rule ended before", &mut g, steps);
        }
        left = left.map(|x| x - 1);
        if exdates.contains(&k) {
            continue;
        }
        match g.next() {
            Some(x) if x == k => (),
            Some(x) => return Err(format!("{x:?} instead of {k:?}, number {i}")),
            None => return Err(format!("{k:?}, number {i}, is missing")),
        }
    }
}

/// An item that recurs.
trait Item: Clone + PartialEq + std::fmt::Debug {
    const KIND: Kind;
    fn build(start: ikal::Date, end: Option<ikal::Date>, rule: ikal::Recur, exdate: Vec<ikal::Date>) -> Self;
    fn rec(&self) -> ikal::iter::Recur<Self>
    where
        Self: ikal::iter::Recurring;
    fn start(&self) -> ikal::Date;
    fn end(&self) -> Option<ikal::Date>;
    fn rule(&self) -> Option<&ikal::Recur>;
    /// The same item at another place.
    fn placed_as(self, other: &Self) -> Self;
    fn any(self) -> Any;
}

macro_rules! item {
    ($ty:ident, $kind:ident, $start:expr, $put:expr, $end:expr, $putend:expr, $any:ident) => {
        impl Item for ikal::$ty {
            const KIND: Kind = Kind::$kind;
            fn build(start: ikal::Date, end: Option<ikal::Date>, rule: ikal::Recur, exdate: Vec<ikal::Date>) -> Self {
                let mut x = ikal::$ty { rrule: Some(rule), exdate, ..Default::default() };
                let put: fn(&mut Self, ikal::Date) = $put;
                put(&mut x, start);
                let put: fn(&mut Self, Option<ikal::Date>) = $putend;
                put(&mut x, end);
                x
            }
            fn rec(&self) -> ikal::iter::Recur<Self> {
                self.recurrent()
            }
            fn start(&self) -> ikal::Date {
                let f: fn(&Self) -> ikal::Date = $start;
                f(self)
            }
            fn end(&self) -> Option<ikal::Date> {
                let f: fn(&Self) -> Option<ikal::Date> = $end;
                f(self)
            }
            fn rule(&self) -> Option<&ikal::Recur> {
                self.rrule.as_ref()
            }
            fn placed_as(mut self, other: &Self) -> Self {
                let put: fn(&mut Self, ikal::Date) = $put;
                put(&mut self, other.start());
                let put: fn(&mut Self, Option<ikal::Date>) = $putend;
                put(&mut self, other.end());
                if let (Some(a), Some(b)) = (&mut self.rrule, &other.rrule) {
                    a.count = b.count;
                }
                self
            }
            fn any(self) -> Any {
                Any::$any(self)
            }
        }
    };
}

item!(VEvent, Event, |x| x.dtstart, |x, d| x.dtstart = d, |x| x.dtend, |x, d| x.dtend = d, Event);
item!(VTodo, Todo, |x| x.dtstart.unwrap(), |x, d| x.dtstart = Some(d), |x| x.due, |x, d| x.due = d, Todo);
item!(VJournal, Journal, |x| x.dtstart, |x, d| x.dtstart = d, |_| None, |_, _| (), Journal);

/// Calls `$f::<T>` for the kind of item.
macro_rules! by_kind {
    ($i:expr, $f:ident($($a:expr),*)) => {
        match $i {
            0 => $f::<ikal::VEvent>($($a),*),
            1 => $f::<ikal::VTodo>($($a),*),
            _ => $f::<ikal::VJournal>($($a),*),
        }
    };
}

/// Expands to at most `n` starts and compares with the rule's set.
fn expand<T: Item + ikal::iter::Recurring>(case: &mut Case, start: K, rule: &Rule, exdates: &[K], n: usize, parsed: bool) {
    let r = imp(|| {
        let item = if parsed {
            let v = |k: K| if matches!(k, K::Day(_)) { ";VALUE=DATE:" } else { ":" };
            let mut lines = vec!["UID:1".to_string(), "DTSTAMP:20240101T000000Z".to_string()];
            lines.push(format!("DTSTART{}{}", v(start), print(start)));
            lines.push(format!("RRULE:{}", rule.text()));
            // one per line, or all on one line
            if exdates.len() > 2 && exdates.iter().all(|x| x.kind() == exdates[0].kind()) {
                let all: Vec<String> = exdates.iter().map(|x| print(*x)).collect();
                lines.push(format!("EXDATE{}{}", v(exdates[0]), all.join(",")));
            } else {
                lines.extend(exdates.iter().map(|x| format!("EXDATE{}{}", v(*x), print(*x))));
            }
            let text = docs::doc(T::KIND, &lines, "");
            let any = Any::parse(T::KIND, &text).map_err(|e| format!("refused: {e}\n{text}"))?;
            return Ok::<_, String>(any_starts(&any, n));
        } else {
            T::build(start.date(), None, rule.lib(), exdates.iter().map(|x| x.date()).collect())
        };
        Ok(starts(item.rec(), n))
    });
    case.validated();
    let what = || {
        format!(
            "{:?} {}from {} ({start:?}) {} without {:?}",
            T::KIND,
            if parsed { "read " } else { "" },
            print(start),
            rule.text(),
            exdates.iter().map(|x| print(*x)).collect::<Vec<_>>()
        )
    };
    let (got, ended) = match r {
        Ok(Ok(x)) => x,
        Ok(Err(e)) | Err(e) => {
            case.fail(|| format!("{}: {e}", what()));
            return;
        }
    };
    let ks: Result<Vec<K>, String> = got.iter().map(k_of).collect();
    case.sample(|| format!("{}: {ks:?}", what()));
    let r = ks.and_then(|ks| {
        case.state(&(start.kind(), &ks));
        compare(start, rule, exdates, &ks, ended)
    });
    match r {
        Ok(n) => case.steps(n),
        Err(e) => case.fail(|| format!("{}: {e}\ngot {got:?} ended {ended}", what())),
    }
}

fn starts<T: Item + ikal::iter::Recurring>(mut it: ikal::iter::Recur<T>, n: usize) -> (Vec<ikal::Date>, bool) {
    let mut out = Vec::new();
    while out.len() < n {
        match it.next() {
            Some(x) => out.push(x.start()),
            None => return (out, true),
        }
    }
    (out, false)
}

fn any_starts(a: &Any, n: usize) -> (Vec<ikal::Date>, bool) {
    match a {
        Any::Event(x) => starts(x.rec(), n),
        Any::Todo(x) => starts(x.rec(), n),
        Any::Journal(x) => starts(x.rec(), n),
        _ => unreachable!(),
    }
}

pub const C14: Info = Info {
    id: "C14",
    zones: ZONES,
    more_zones: MORE_ZONES,
    rule: "frequencies x intervals x first starts (all days of four years, ends of months, both sides of every change of daylight saving; dates, floating, local) x counts and ends (each occurrence and its neighbours, of every kind) x all subsets of excluded occurrences x events, to-dos, journals, built and read from documents; each expansion compared with a brute-force set",
    assumptions: &["offsets of the local zone at an instant are those of chrono", "BYxxx parts and RDATE are outside the property"],
    run: c14,
};

const INTERVALS: [u8; 13] = [0, 1, 2, 3, 4, 5, 7, 12, 13, 31, 52, 128, 255];

/// First starts worth looking at.
fn some_starts(run: &Run) -> Vec<K> {
    let mut times: Vec<i64> = Vec::new();
    for (y, m, d) in [
        (2024, 1, 1), (2024, 1, 28), (2024, 1, 29), (2024, 1, 30), (2024, 1, 31), (2023, 1, 29), (2023, 1, 31), (2024, 2, 28), (2024, 2, 29),
        (2096, 2, 29), (2000, 2, 29), (2023, 2, 28), (2024, 3, 31), (2024, 4, 30), (2023, 12, 31), (2024, 12, 31), (2024, 10, 31), (1999, 12, 31), (1969, 12, 31),
        (1896, 2, 29), (1, 1, 1), (9999, 12, 31),
    ] {
        times.push(cal::secs(y, m, d, 2, 30, 0));
        if run.thorough() {
            times.extend([cal::secs(y, m, d, 0, 0, 0), cal::secs(y, m, d, 12, 0, 0), cal::secs(y, m, d, 23, 59, 59)]);
        }
    }
    let mut out: Vec<K> = Vec::new();
    for t in &times {
        out.extend([K::Day(t.div_euclid(cal::DAY)), K::Naive(*t), K::Local(*t)]);
    }
    // a month before the changes of daylight saving, and just before them
    for (m, d) in [(3, 10), (3, 31), (4, 7), (9, 29), (10, 6), (10, 27), (11, 3)] {
        let mid = cal::secs(2024, m, d, 0, 30, 0);
        for back in [0, 28, 29, 30, 31, 365, 366] {
            if back == 0 || run.thorough() {
                for h in [-11, -1, 0, 1, 2, 6, 7, 13, 15] {
                    out.push(K::Local(mid - back * cal::DAY + h * 3600));
                }
            } else {
                // walls an hour apart around the change
                for w in [1, 2, 3] {
                    let at = instants_of(mid - back * cal::DAY + w * 3600);
                    out.extend(at.last().map(|t| K::Local(*t)));
                }
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|x| seen.insert(*x));
    out
}

/// Ends of every kind around the occurrences.
fn untils(ks: &[K]) -> Vec<K> {
    let mut out = Vec::new();
    for k in ks {
        match k {
            K::Day(d) => {
                for d in [d - 1, *d, d + 1] {
                    out.extend([K::Day(d), K::Naive(d * cal::DAY), K::Naive(d * cal::DAY + cal::DAY - 1), K::Local(d * cal::DAY + 43_200)]);
                }
            }
            K::Naive(t) => {
                for d in [-1, 0, 1] {
                    out.extend([K::Naive(t + d), K::Day(t.div_euclid(cal::DAY) + d)]);
                    out.extend(instants_of(t + d).last().map(|t| K::Local(*t)));
                }
            }
            K::Local(t) => {
                for d in [-1, 0, 1] {
                    out.extend([K::Local(t + d), K::Day(k.day() + d), K::Naive(wall(*k) + d)]);
                }
            }
        }
    }
    out
}

fn c14(run: &Run) {
    let starts = some_starts(run);
    let n = starts.len();

    run.family("intervals", product(&[n, 7, 256, run.pick(1, 3)]), |i, case| {
        let mut d = Dec(i);
        let kind = if run.thorough() { (i / (n as u64 * 7 * 256)) as usize } else { (i % 3) as usize };
        let start = *d.of(&starts);
        let f = d.take(7);
        let rule = Rule { freq: f, interval: d.take(256) as u8, count: None, until: None };
        by_kind!(kind, expand(case, start, &rule, &[], run.pick(6, 14), false));
    });

    run.family("counts", product(&[n, 7, 3, 12, 3]), |i, case| {
        let mut d = Dec(i);
        let start = *d.of(&starts);
        let f = d.take(7);
        let interval = *d.of(&[1, 2, 5]);
        let count = *d.of(&[0u8, 1, 2, 3, 4, 5, 6, 9, 100, 127, 128, 255]);
        let rule = Rule { freq: f, interval, count: Some(count), until: None };
        let (exdates, cap): (Vec<K>, usize) = if i % 2 == 0 { (vec![], 300) } else { (vec![start], 300) };
        by_kind!(d.take(3), expand(case, start, &rule, &exdates, cap, false));
    });

    // ends: at each occurrence, a moment before and after, of each kind
    run.family("ends", product(&[n, 7, 2, 3]), |i, case| {
        let mut d = Dec(i);
        let start = *d.of(&starts);
        let f = d.take(7);
        let interval = *d.of(&[1u8, 3]);
        let kind = d.take(3);
        for (j, u) in untils(&plain(start, f, interval, run.pick(3, 5))).into_iter().enumerate() {
            let rule = Rule { freq: f, interval, count: None, until: Some(u) };
            let ex: Vec<K> = if j % 4 == 3 { vec![start] } else { vec![] };
            by_kind!(kind, expand(case, start, &rule, &ex, 120, false));
        }
    });

    // a count and an end
    run.family("count and end", product(&[n, 7, 4]), |i, case| {
        let mut d = Dec(i);
        let start = *d.of(&starts);
        let f = d.take(7);
        let count = d.take(4) as u8;
        let ks = plain(start, f, 1, 4);
        for u in &ks {
            let rule = Rule { freq: f, interval: 1, count: Some(count), until: Some(*u) };
            by_kind!((i % 3) as usize, expand(case, start, &rule, &[], 20, false));
            if wall(*u) < cal::secs(9999, 12, 31, 0, 0, 0) && wall(start) < cal::secs(9999, 12, 31, 0, 0, 0) {
                by_kind!((i / 3 % 3) as usize, expand(case, start, &rule, &[], 20, true));
            }
        }
    });

    // every subset of excluded occurrences
    let few: Vec<K> = starts.iter().copied().step_by(run.pick(4, 1)).collect();
    let bits = run.pick(5, 7);
    run.family("exceptions", product(&[few.len(), 7, 2, 6, 1 << bits]), |i, case| {
        let mut d = Dec(i);
        let start = *d.of(&few);
        let f = d.take(7);
        let interval = *d.of(&[1u8, 2]);
        let bound = d.take(6);
        let set = d.take(1 << bits);
        let ks = plain(start, f, interval, bits);
        let (count, until) = match bound {
            0 => (None, None),
            1 => (None, ks.get(2).copied()),
            b => (Some([1u8, 3, 5, 8][b - 2]), None),
        };
        let mut ex: Vec<K> = ks.iter().enumerate().filter(|(j, _)| set >> j & 1 == 1).map(|(_, k)| *k).collect();
        if i % 3 == 1 {
            ex.reverse();
            // a duplicate, and something which is no occurrence
            ex.extend(ex.first().copied());
            ex.push(match start {
                K::Day(d) => K::Day(d - 1),
                K::Naive(t) => K::Naive(t + 1),
                K::Local(t) => K::Local(t - 1),
            });
        }
        let rule = Rule { freq: f, interval, count, until };
        let written = i % 4 == 3 && !ks.iter().any(|k| wall(*k) >= cal::secs(9999, 12, 31, 0, 0, 0));
        by_kind!((i % 3) as usize, expand(case, start, &rule, &ex, bits + 2, written));
    });

    // long lists of them, in many orders
    let ns: Vec<usize> = super::numbers(run.pick(520, 2_100)).into_iter().filter(|n| *n > 4).collect();
    let fewer: Vec<K> = few.iter().copied().step_by(run.pick(4, 2)).collect();
    run.family("many exceptions", product(&[ns.len(), fewer.len(), 7, 6]), |i, case| {
        let mut d = Dec(i);
        let n = *d.of(&ns);
        let start = *d.of(&fewer);
        let f = d.take(7);
        let order = d.take(6);
        let mut ex = plain(start, f, 1, n);
        let len = ex.len();
        if len < 3 {
            return;
        }
        // one in five stays
        let mut k = 0;
        ex.retain(|_| {
            k += 1;
            k % 5 != 2
        });
        let len = ex.len().min(len);
        match order {
            0 => (),
            1 => ex.reverse(),
            2 => ex.rotate_left(len / 3),
            3 => ex = (0..len).map(|j| ex[if j % 2 == 0 { j / 2 } else { len - 1 - j / 2 }]).collect(),
            4 => ex = ex.iter().step_by(2).chain(ex.iter().skip(1).step_by(2)).copied().collect(),
            _ => ex = ex.iter().rev().flat_map(|k| [*k, *k]).collect(),
        }
        let rule = Rule { freq: f, interval: 1, count: None, until: None };
        let written = i % 4 == 3 && !ex.iter().any(|k| wall(*k) >= cal::secs(9999, 12, 31, 0, 0, 0));
        by_kind!((i % 3) as usize, expand(case, start, &rule, &ex, n / 5 + 3, written));
    });

    // far along
    let long = run.pick(2_000, 70_000);
    run.family("long expansions", product(&[fewer.len(), 7, 3]), |i, case| {
        let mut d = Dec(i);
        let start = *d.of(&fewer);
        let f = d.take(7);
        let rule = Rule { freq: f, interval: *d.of(&[1, 3, 255]), count: None, until: None };
        by_kind!((i % 3) as usize, expand(case, start, &rule, &[], long, false));
    });

    // exceptions of another kind
    run.family("other exceptions", product(&[few.len(), 7, 3]), |i, case| {
        let mut d = Dec(i);
        let start = *d.of(&few);
        let f = d.take(7);
        let rule = Rule { freq: f, interval: 1, count: Some(5), until: None };
        for k in plain(start, f, 1, 4) {
            for x in [K::Day(k.day()), K::Naive(wall(k)), K::Naive(wall(k) + 1)] {
                // an excluded date is the same date: neither another kind nor another time of the day
                by_kind!((i % 3) as usize, expand(case, start, &rule, &[x], 8, false));
            }
        }
    });

    // every day of four years, long
    let hours: &[i64] = run.pick(&[10][..], &[0, 1, 2, 3, 7, 10, 12, 15, 16, 23][..]);
    let len = run.pick(30, 80);
    let ivs: &[u8] = run.pick(&[1, 2, 3, 4, 6, 12, 48][..], &[1, 2, 3, 4, 5, 6, 7, 9, 11, 12, 13, 18, 24, 36, 48, 96, 100][..]);
    run.family("all days", product(&[1461, hours.len() + 2, 7, ivs.len()]), |i, case| {
        let mut d = Dec(i);
        let interval = *d.of(ivs);
        let f = d.take(7);
        let h = d.take(hours.len() + 2);
        let day = cal::days(2021, 3, 1) + d.take(1461) as i64;
        let start = match h {
            0 => K::Day(day),
            1 => K::Naive(day * cal::DAY + 9000),
            h => K::Local(day * cal::DAY + hours[h - 2] * 3600 + 1800),
        };
        let rule = Rule { freq: f, interval, count: None, until: None };
        by_kind!((i % 3) as usize, expand(case, start, &rule, &[], len, false));
    });

    // read from documents
    run.family("documents", product(&[n, 7, INTERVALS.len(), 8, 3]), |i, case| {
        let mut d = Dec(i);
        let start = *d.of(&starts);
        let f = d.take(7);
        let interval = *d.of(&INTERVALS);
        let ks = plain(start, f, interval, 4);
        let (count, until, ex): (Option<u8>, Option<K>, Vec<K>) = match d.take(8) {
            0 => (None, None, vec![]),
            1 => (Some(1), None, vec![]),
            2 => (Some(4), None, vec![ks[0]]),
            3 => (None, ks.last().copied(), ks.get(1).copied().into_iter().collect()),
            4 => (Some(255), None, ks.clone()),
            5 => (None, Some(start), vec![]),
            6 => (None, ks.get(2).map(|k| K::Day(k.day())), vec![]),
            _ => (Some(3), None, ks.iter().rev().copied().collect()),
        };
        // four-digit years only
        let too_far = |k: &K| wall(*k) >= cal::secs(9999, 12, 31, 0, 0, 0);
        if until.iter().chain(&ex).chain([&start]).any(too_far) {
            return;
        }
        let rule = Rule { freq: f, interval, count, until };
        by_kind!(d.take(3), expand(case, start, &rule, &ex, 12, true));
    });

    // what has no rule or no start has no occurrences
    run.family("no rule or start", product(&[n, 7, 5]), |i, case| {
        let mut d = Dec(i);
        let start = d.of(&starts).date();
        let rule = Rule { freq: d.take(7), interval: 1, count: Some(3), until: None }.lib();
        case.steps(1);
        case.state(&(i, "no rule or start"));
        case.validated();
        let got = imp(|| match d.take(5) {
            0 => ikal::VTodo { due: Some(start), rrule: Some(rule), ..Default::default() }.recurrent().take(3).count(),
            1 => ikal::VTodo { rrule: Some(rule), exdate: vec![start], ..Default::default() }.recurrent().take(3).count(),
            2 => ikal::VTodo { dtstart: Some(start), due: Some(start), ..Default::default() }.recurrent().take(3).count(),
            3 => ikal::VEvent { dtstart: start, dtend: Some(start), rdate: vec![ikal::RDate::Date(vec![start])], ..Default::default() }.recurrent().take(3).count(),
            _ => ikal::VJournal { dtstart: start, ..Default::default() }.recurrent().take(3).count(),
        });
        if got != Ok(0) {
            case.fail(|| format!("{got:?} occurrences without a rule or a start ({start:?})"));
        }
    });

    // to the end of the calendar
    let last = cal::days(LAST_YEAR, 12, 31);
    let ends: Vec<K> = [0, 1, 28, 31, 59, 366, 1000, 5000]
        .iter()
        .flat_map(|b| {
            let d = last - b;
            [K::Day(d), K::Naive(d * cal::DAY), K::Naive(d * cal::DAY + 86_399), K::Local((d - 2) * cal::DAY)]
        })
        .collect();
    run.family("end of the calendar", product(&[ends.len(), 7, INTERVALS.len()]), |i, case| {
        let mut d = Dec(i);
        let start = *d.of(&ends);
        let f = d.take(7);
        let interval = *d.of(&INTERVALS);
        let rule = Rule { freq: f, interval, count: Some(40), until: None };
        by_kind!((i % 3) as usize, expand(case, start, &rule, &[], 60, false));
    });
}

// ---------------------------------------------------------------- C15

pub const C15: Info = Info {
    id: "C15",
    zones: ZONES,
    more_zones: MORE_ZONES,
    rule: "rules x first starts x spans (none, none long, seconds to years, backwards) x excluded occurrences x minimal, built and full components; every occurrence reached compared field by field with the original and expanded again, its expansion compared with the rest",
    assumptions: &["the remaining COUNT in the rule of an occurrence is part of its place in the expansion"],
    run: c15,
};

/// Seconds between two dates of which the second may have become a time.
fn span(a: K, b: K) -> Option<i64> {
    match (a, b) {
        (K::Local(a), K::Local(b)) => Some(b - a),
        (K::Local(_), _) | (_, K::Local(_)) => None,
        (a, b) => Some(wall(b) - wall(a)),
    }
}

fn occurrences<T: Item + ikal::iter::Recurring>(case: &mut Case, item: T, n: usize, what: &str) {
    let bare = item.clone().any().obs();
    let all = match imp(|| item.rec().take(n).collect::<Vec<T>>()) {
        Ok(x) => x,
        Err(e) => {
            case.fail(|| format!("{what}: {e}"));
            return;
        }
    };
    case.validated();
    let k = |d: ikal::Date| k_of(&d).ok();
    let first = k(item.start());
    let s0 = item.end().and_then(|e| span(first?, k(e)?));
    let count0 = item.rule().and_then(|r| r.count);
    for (i, x) in all.iter().enumerate() {
        case.steps(1);
        case.state(&(k(x.start()), x.end().and_then(k), x.rule().and_then(|r| r.count)));
        // the span
        match (item.end(), x.end()) {
            (None, None) => (),
            (Some(_), Some(e)) => {
                let s = k(x.start()).and_then(|s| span(s, k(e)?));
                if s0.is_some() && s != s0 {
                    case.fail(|| format!("{what}: occurrence {i} from {:?} to {e:?} lasts {s:?}, the original {s0:?}", x.start()));
                }
            }
            (a, b) => case.fail(|| format!("{what}: occurrence {i} ends {b:?}, the original {a:?}")),
        }
        // everything else
        let back = x.clone().placed_as(&item);
        if back != item || back.clone().any().obs() != bare {
            case.fail(|| format!("{what}: occurrence {i} is changed: {}", super::diff(&bare, &back.any().obs())));
        }
        if count0.is_none() != x.rule().and_then(|r| r.count).is_none() {
            case.fail(|| format!("{what}: occurrence {i} has another rule {:?}", x.rule()));
        }
        if k(x.start()) == first && *x != item {
            case.fail(|| format!("{what}: the first occurrence isn't the original"));
        }
        // the rest
        match imp(|| x.rec().take(n - i).collect::<Vec<T>>()) {
            Ok(rest) => {
                case.validated();
                let same = rest.len() == all.len() - i && rest == all[i..];
                if !same {
                    let j = rest.iter().zip(&all[i..]).position(|(a, b)| a != b);
                    case.fail(|| {
                        format!(
                            "{what}: the expansion of occurrence {i} has {} items, {} are left; first difference at {j:?}: {:?}",
                            rest.len(),
                            all.len() - i,
                            j.map(|j| (rest[j].start(), rest[j].end(), all[i + j].start(), all[i + j].end()))
                        )
                    });
                    return;
                }
            }
            Err(e) => case.fail(|| format!("{what}: occurrence {i}: {e}")),
        }
    }
}

fn spans(start: K) -> Vec<Option<K>> {
    let mut out = vec![None];
    match start {
        K::Day(d) => {
            out.extend([0, 1, 2, 7, 31, 365, -1].map(|x| Some(K::Day(d + x))));
            out.extend([0, 3600, 90_000].map(|x| Some(K::Naive(d * cal::DAY + x))));
        }
        K::Naive(t) => {
            out.extend([0, 1, 3600, 86_399, 86_400, 200_000, 31_536_000, -60].map(|x| Some(K::Naive(t + x))));
            out.extend([0, 1, 40].map(|x| Some(K::Day(t.div_euclid(cal::DAY) + x))));
        }
        K::Local(t) => {
            out.extend([0, 1, 1800, 3600, 10_800, 86_399, 86_400, 200_000, 15_811_200, 31_536_000, -60].map(|x| Some(K::Local(t + x))));
        }
    }
    out
}

fn c15(run: &Run) {
    let starts = some_starts(run);
    let n = starts.len();

    fn go<T: Item + ikal::iter::Recurring>(case: &mut Case, start: K, end: Option<K>, rule: &Rule, ex: &[K], n: usize) {
        let item = match imp(|| T::build(start.date(), end.map(K::date), rule.lib(), ex.iter().map(|x| x.date()).collect())) {
            Ok(x) => x,
            Err(e) => {
                case.fail(|| e);
                return;
            }
        };
        let what = format!("{:?} {} to {} {} without {}", T::KIND, print(start), end.map(print).unwrap_or_default(), rule.text(), ex.len());
        case.sample(|| what.clone());
        occurrences(case, item, n, &what);
    }

    let deep = run.pick(6, 12);
    run.family("spans", product(&[n, 7, 4, 12, 2]), |i, case| {
        let mut d = Dec(i);
        let start = *d.of(&starts);
        let f = d.take(7);
        let interval = *d.of(&[1u8, 2, 13, 255]);
        let ends = spans(start);
        let j = d.take(12);
        let Some(end) = ends.get(j) else { return };
        let rule = Rule { freq: f, interval, count: None, until: None };
        by_kind!(d.take(2), go(case, start, *end, &rule, &[], deep));
    });

    // bounds and exceptions: what is left of them for each occurrence
    let few: Vec<K> = starts.iter().copied().step_by(run.pick(5, 1)).collect();
    run.family("bounds and exceptions", product(&[few.len(), 7, 2, 7, 16, 3]), |i, case| {
        let mut d = Dec(i);
        let start = *d.of(&few);
        let f = d.take(7);
        let interval = *d.of(&[1u8, 3]);
        let ks = plain(start, f, interval, 4);
        let (count, until) = match d.take(7) {
            0 => (None, None),
            1 => (None, ks.get(3).copied()),
            2 => (None, ks.get(1).copied()),
            c => (Some([1u8, 2, 5, 255][c - 3]), None),
        };
        let set = d.take(16);
        let ex: Vec<K> = ks.iter().enumerate().filter(|(j, _)| set >> j & 1 == 1).map(|(_, k)| *k).collect();
        let rule = Rule { freq: f, interval, count, until };
        let end = spans(start)[(i % 3) as usize];
        by_kind!(d.take(3), go(case, start, end, &rule, &ex, 7));
    });

    // components with everything in them
    let full: Vec<(Kind, String)> = full_docs();
    run.family("full components", product(&[full.len(), 7, 4, run.pick(6, 30), 4]), |i, case| {
        let mut d = Dec(i);
        let (kind, text) = d.of(&full);
        let f = d.take(7);
        let interval = *d.of(&[1u8, 2, 7, 255]);
        let start = starts[(d.take(run.pick(6, 30)) * 11 + f) % n];
        let bound = d.take(4);
        let r = imp(|| Any::parse(*kind, text));
        let Ok(Ok(any)) = r else {
            case.fail(|| format!("{kind:?} {text:?} refused: {:?}", r.map(|x| x.err())));
            return;
        };
        let ks = plain(start, f, interval, 3);
        let mut rule = Rule { freq: f, interval, count: None, until: None }.lib();
        // the other parts of the rule stay too
        rule.wkst = Some(ikal::Weekday::Tuesday);
        rule.by_month = vec![1, 2];
        rule.by_day = vec!["-1SU".parse().unwrap()];
        match bound {
            0 => (),
            1 => rule.count = Some(3),
            2 => rule.until = ks.last().map(|x| x.date()),
            _ => rule.count = Some(200),
        }
        let end = spans(start)[2 + (i % 3) as usize].map(K::date);
        let what = format!("full {kind:?} {} {}", print(start), model::FREQS[f]);
        macro_rules! run_it {
            ($x:expr, $put:expr) => {{
                let mut x = (*$x).clone();
                x.rrule = Some(rule);
                if bound == 3 {
                    x.exdate.extend(ks.get(1).map(|x| x.date()));
                }
                $put(&mut x);
                occurrences(case, x, 5, &what);
            }};
        }
        match &any {
            Any::Event(x) => run_it!(x, |x: &mut ikal::VEvent| {
                x.dtstart = start.date();
                x.dtend = end;
            }),
            Any::Todo(x) => run_it!(x, |x: &mut ikal::VTodo| {
                x.dtstart = Some(start.date());
                x.due = end;
            }),
            Any::Journal(x) => run_it!(x, |x: &mut ikal::VJournal| x.dtstart = start.date()),
            _ => unreachable!(),
        }
    });

    // as they stand in documents: one line of every property at a time, and the pairs of them
    for kind in [Kind::Event, Kind::Todo, Kind::Journal] {
        let lines: Vec<String> = docs::lines(kind)
            .into_iter()
            .filter(|l| !["DTSTART", "RRULE", "EXDATE", "DTEND", "DUE", "DTSTAMP", "UID"].iter().any(|p| l.starts_with(&format!("{p}:")) || l.starts_with(&format!("{p};"))))
            .collect();
        let l = lines.len();
        run.family(&format!("properties of {}", kind.tag()), product(&[l, l, run.pick(2, 6)]), |i, case| {
            let mut d = Dec(i);
            let (a, b) = (d.take(l), d.take(l));
            if b < a {
                return;
            }
            let (dtstart, rule) = [
                ("DTSTART:20240131T100000", "RRULE:FREQ=MONTHLY;COUNT=3"),
                ("DTSTART;VALUE=DATE:20240131", "RRULE:FREQ=WEEKLY;UNTIL=20240301"),
                ("DTSTART:20240131T100000Z", "RRULE:FREQ=DAILY;INTERVAL=20"),
                ("DTSTART:20240131T100000Z", "RRULE:FREQ=HOURLY;COUNT=3;WKST=SU"),
                ("DTSTART;VALUE=DATE:20240131", "RRULE:FREQ=MINUTELY;COUNT=3"),
                ("DTSTART:20240229T100000", "RRULE:FREQ=YEARLY;BYMONTH=2"),
            ][d.take(run.pick(2, 6))];
            let mut doc = vec!["UID:1".to_string(), "DTSTAMP:20240101T000000Z".to_string(), dtstart.to_string(), rule.to_string()];
            doc.push(lines[a].clone());
            doc.push(lines[b].clone());
            let text = docs::doc(kind, &doc, "");
            match imp(|| Any::parse(kind, &text)) {
                Ok(Ok(Any::Event(x))) => occurrences(case, x, 4, &text),
                Ok(Ok(Any::Todo(x))) => occurrences(case, x, 4, &text),
                Ok(Ok(Any::Journal(x))) => occurrences(case, x, 4, &text),
                // a pair that isn't allowed together
                Ok(_) => case.unspecified(),
                Err(e) => case.fail(|| format!("{text:?}: {e}")),
            }
        });
    }
}

fn full_docs() -> Vec<(Kind, String)> {
    [Kind::Event, Kind::Todo, Kind::Journal].iter().flat_map(|k| (0..4).map(|w| (*k, docs::full_doc(*k, w)))).collect()
}

// ---------------------------------------------------------------- C16

pub const C16: Info = Info {
    id: "C16",
    zones: ZONES,
    more_zones: MORE_ZONES,
    rule: "rules x first starts x windows whose ends are each occurrence, its neighbours, its day and the middles, as dates, floating and local times, through every type they can be given in; compared with the filtered expansion",
    assumptions: &["a window whose ends the clocks pass twice (floating ends of local occurrences across a change of daylight saving) is left open"],
    run: c16,
};

/// Gives a window's ends in the type number `how`.
fn window<T: Item + ikal::iter::Recurring>(item: &T, a: K, b: Option<K>, at: bool, how: usize, n: usize) -> Result<Vec<K>, String> {
    macro_rules! with {
        ($a:expr, $b:expr) => {
            if at {
                item.rec().at($a).take(n).map(|x| x.start()).collect::<Vec<_>>()
            } else if let Some(b) = $b {
                item.rec().between($a, b).take(n).map(|x| x.start()).collect()
            } else {
                item.rec().after($a).take(n).map(|x| x.start()).collect()
            }
        };
    }
    let got = match (how, a, b) {
        (1, K::Day(a), None | Some(K::Day(_))) => {
            let d = |x: i64| naive_at(x * cal::DAY).date();
            with!(d(a), b.map(|x| d(x.secs() / cal::DAY)))
        }
        (1, K::Naive(a), None | Some(K::Naive(_))) => with!(naive_at(a), b.map(|x| naive_at(x.secs()))),
        (1, K::Local(a), None | Some(K::Local(_))) => with!(local_at(a), b.map(|x| local_at(x.secs()))),
        (2, K::Naive(_) | K::Local(_), None | Some(K::Naive(_) | K::Local(_))) => {
            with!(a.date_time().unwrap(), b.map(|x| x.date_time().unwrap()))
        }
        _ => with!(a.date(), b.map(K::date)),
    };
    got.iter().map(k_of).collect()
}

fn c16(run: &Run) {
    let starts = some_starts(run);
    let n = starts.len();

    /// all window ends worth trying
    fn edges(ks: &[K], deep: bool) -> Vec<K> {
        let mut out = Vec::new();
        for (j, k) in ks.iter().enumerate() {
            match k {
                K::Day(d) => out.extend([K::Day(*d), K::Day(d - 1), K::Naive(d * cal::DAY + 3600), K::Local(d * cal::DAY + 43_200)]),
                K::Naive(t) => {
                    out.extend([K::Naive(*t), K::Naive(t - 1), K::Naive(t + 1), K::Day(t.div_euclid(cal::DAY))]);
                    out.extend(instants_of(*t).last().map(|t| K::Local(*t)));
                }
                K::Local(t) => out.extend([K::Local(*t), K::Local(t - 1), K::Local(t + 1), K::Day(k.day()), K::Naive(wall(*k))]),
            }
            if deep {
                out.extend([K::Day(k.day() + 1), K::Day(k.day() - 1)]);
            }
            if j == 0 {
                out.push(K::Day(k.day() - 400));
                out.push(K::Day(k.day() + 40_000));
            }
        }
        let mut seen = std::collections::HashSet::new();
        out.retain(|x| seen.insert(*x));
        out
    }

    fn go<T: Item + ikal::iter::Recurring>(case: &mut Case, start: K, span: u64, rule: &Rule, ex: &[K], deep: bool) {
        let cap = 8;
        let long = if deep { 300 } else { 60 };
        // no length, longer than it takes to the next occurrences, or no end
        let end = match (span % 3, start) {
            (0, k) => Some(k),
            (1, _) => None,
            (_, K::Day(d)) => Some(K::Day(d + 3)),
            (_, K::Naive(t)) => Some(K::Naive(t + 126_000)),
            (_, K::Local(t)) => Some(K::Local(t + 126_000)),
        };
        let item = T::build(start.date(), end.map(|x| x.date()), rule.lib(), ex.iter().map(|x| x.date()).collect());
        // the expansion, longer than any window answer judged
        let all = imp(|| item.rec().take(long).map(|x| k_of(&x.start())).collect::<Result<Vec<K>, String>>());
        let Ok(Ok(all)) = all else {
            case.fail(|| format!("{start:?} {rule:?}: {all:?}"));
            return;
        };
        let complete = all.len() < long;
        let some: Vec<K> = all.iter().take(4).copied().collect();
        let mut es = edges(&some, deep);
        if some.is_empty() {
            es = edges(&[start], deep);
        }
        let mut ask = |a: K, b: Option<K>, at: bool, how: usize| {
            // the bounds, and the occurrences in them
            let (lo, hi) = match (at, a) {
                (true, K::Day(d)) => (a, Some(K::Day(d + 1))),
                (true, K::Naive(t)) => (a, Some(K::Naive(t + cal::DAY))),
                (true, K::Local(t)) => (a, Some(K::Local(t + cal::DAY))),
                _ => (a, b),
            };
            let ge: Vec<bool> = all.iter().map(|k| cmp(*k, lo) != Ordering::Less).collect();
            let lt: Vec<bool> = all.iter().map(|k| hi.is_none_or(|hi| cmp(*k, hi) == Ordering::Less)).collect();
            let in_order = ge.windows(2).all(|w| w[0] <= w[1]) && lt.windows(2).all(|w| w[0] >= w[1]);
            // a far window of an endless expansion takes too long
            let reached = complete || hi.is_some() && lt.last() == Some(&false) && ge.last() == Some(&true) || ge.iter().filter(|x| **x).count() >= cap;
            if !reached {
                return;
            }
            let want: Vec<K> = all.iter().zip(ge.iter().zip(&lt)).filter(|(_, (a, b))| **a && **b).map(|(k, _)| *k).take(cap).collect();
            case.steps(1);
            case.state(&(lo, hi, &want));
            let got = imp(|| window(&item, a, b, at, how, cap));
            if !in_order {
                case.unspecified();
                return;
            }
            case.validated();
            let name = if at { "at" } else if b.is_some() { "between" } else { "after" };
            case.sample(|| format!("{start:?} {} {name} {a:?} {b:?}: {want:?}", rule.text()));
            if got != Ok(Ok(want.clone())) {
                case.fail(|| {
                    format!(
                        "{:?} from {} {} without {ex:?}: {name} {a:?} ({}) {b:?} ({}), given in way {how}:\ngot {got:?}\nis {want:?}",
                        T::KIND,
                        print(start),
                        rule.text(),
                        print(a),
                        b.map(print).unwrap_or_default()
                    )
                });
            }
        };
        for (x, a) in es.iter().enumerate() {
            for how in 0..3 {
                ask(*a, None, false, how);
                ask(*a, None, true, how);
            }
            for (y, b) in es.iter().enumerate() {
                ask(*a, Some(*b), false, (x + y) % 3);
            }
        }
    }

    run.family("windows", product(&[n, 7, 2, 4, run.pick(1, 3)]), |i, case| {
        let mut d = Dec(i);
        let start = *d.of(&starts);
        let f = d.take(7);
        let interval = *d.of(&[1u8, 3]);
        let (count, ex) = match d.take(4) {
            0 => (None, vec![]),
            1 => (Some(3), vec![]),
            2 => (None, plain(start, f, interval, 3).into_iter().skip(1).take(1).collect()),
            _ => (Some(4), vec![start]),
        };
        let kind = if run.thorough() { d.take(3) } else { ((i + i / n as u64) % 3) as usize };
        let rule = Rule { freq: f, interval, count, until: None };
        by_kind!(kind, go(case, start, i / n as u64 + i / (7 * n as u64), &rule, &ex, run.thorough()));
    });

    run.family("windows of ended rules", product(&[n, 7, 3]), |i, case| {
        let mut d = Dec(i);
        let start = *d.of(&starts);
        let f = d.take(7);
        let until = plain(start, f, 1, 3).last().copied();
        let rule = Rule { freq: f, interval: 1, count: None, until };
        by_kind!(d.take(3), go(case, start, i + i / n as u64, &rule, &[], false));
    });

    // around every change of daylight saving, by the hour and the half hour
    let mut around: Vec<(K, usize, u8)> = Vec::new();
    for (m, d) in [(3, 10), (3, 31), (4, 7), (9, 29), (10, 6), (10, 27), (11, 3)] {
        for h in [-14, -11, -2, 0, 5, 12, 14] {
            let t = cal::secs(2024, m, d, 0, 0, 0) + h * 3600;
            around.extend([(K::Local(t), 2, 1u8), (K::Local(t), 1, 30), (K::Local(t - cal::DAY), 3, 1), (K::Local(t - 7 * cal::DAY), 4, 1)]);
        }
    }
    run.family("changes of daylight saving", around.len() as u64, |i, case| {
        let (start, f, interval) = around[i as usize];
        let rule = Rule { freq: f, interval, count: Some(12), until: None };
        by_kind!((i % 3) as usize, go(case, start, i / 3, &rule, &[], true));
    });

}

// ---------------------------------------------------------------- C25

pub const C25: Info = Info {
    id: "C25",
    zones: ZONES,
    more_zones: MORE_ZONES,
    rule: "every frequency x every interval x starts (all days of four years, ends of months, both sides of every change of daylight saving, the ends of centuries; dates, floating, local) x rules with other parts; the sum is the next multiple of the interval that exists on the calendar, through every type it can be computed on, and repeated sums are those of the expansion",
    assumptions: &["sums beyond the calendar are left open", "frequencies below a day on a plain date of chrono are left open"],
    run: c25,
};

/// What the sum is, if the calendar has it.
fn next_of(start: K, f: usize, interval: u8, got: Option<K>) -> Option<K> {
    for i in 1.. {
        match multiple(start, f, interval, i) {
            None => (),
            Some(Cand::Out) => return None,
            Some(Cand::Is(k)) => return Some(k),
            Some(Cand::Wall(w)) => {
                let found = instants_of(w);
                match got {
                    Some(K::Local(t)) if wall_ok(w, Some(t)) && (found.is_empty() || found.contains(&t)) => return Some(K::Local(t)),
                    _ => {
                        if let Some(t) = found.last() {
                            return Some(K::Local(*t));
                        }
                    }
                }
            }
        }
    }
    unreachable!()
}

fn sum(case: &mut Case, start: K, rule: &ikal::Recur, f: usize) {
    case.steps(1);
    if next_of(start, f, rule.interval, None).is_none() {
        case.unspecified();
        return;
    }
    let d = start.date();
    let r = imp(|| {
        let mut out: Vec<ikal::Date> = vec![rule.clone() + d];
        match d {
            ikal::Date::Date(d) if f >= 3 => out.push((rule.clone() + d).into()),
            ikal::Date::Date(_) => (),
            ikal::Date::DateTime(dt) => {
                out.push((rule.clone() + dt).into());
                match dt {
                    ikal::DateTime::Naive(n) => out.push((rule.clone() + n).into()),
                    ikal::DateTime::Local(l) => out.push((rule.clone() + l).into()),
                }
            }
        }
        out
    });
    case.validated();
    let ks: Result<Vec<K>, String> = r.and_then(|x| x.iter().map(k_of).collect());
    let ok = ks.as_ref().is_ok_and(|ks| ks.iter().all(|k| next_of(start, f, rule.interval, Some(*k)) == Some(*k)) && ks.windows(2).all(|w| w[0] == w[1]));
    case.state(&(f, rule.interval, start));
    if !ok {
        case.fail(|| format!("{rule:?} + {start:?} gives {ks:?} instead of {:?}", next_of(start, f, rule.interval, None)));
    }
}

fn c25(run: &Run) {
    let starts = some_starts(run);
    run.family("all intervals", product(&[starts.len(), 7, 256]), |i, case| {
        let mut d = Dec(i);
        let interval = d.take(256) as u8;
        let f = d.take(7);
        let start = *d.of(&starts);
        sum(case, start, &ikal::Recur { freq: freq(f), interval, ..Default::default() }, f);
    });
    // every day of four years and of the years around the end of a century, at an hour clocks skip
    let mut days: Vec<i64> = (cal::days(2021, 1, 1)..cal::days(2025, 1, 1)).collect();
    for y in [1600, 1900, 2000, 2100, 2400] {
        days.extend(cal::days(y - 1, 12, 1)..cal::days(y, 4, 1));
    }
    let intervals = [0u8, 1, 2, 3, 4, 5, 6, 7, 11, 12, 13, 24, 28, 48, 100, 101, 200, 255];
    run.family("all days", product(&[days.len(), 7, intervals.len(), 3]), |i, case| {
        let mut d = Dec(i);
        let day = *d.of(&days);
        let f = d.take(7);
        let interval = *d.of(&intervals);
        let k = match d.take(3) {
            0 => K::Day(day),
            1 => K::Naive(day * cal::DAY + 9000),
            _ => match instants_of(day * cal::DAY + [9000, 86_399, 0][(i % 3) as usize]).last() {
                Some(t) => K::Local(*t),
                None => return,
            },
        };
        sum(case, k, &ikal::Recur { freq: freq(f), interval, ..Default::default() }, f);
    });
    // the other parts don't matter
    let parts: Vec<ikal::Recur> = [
        ";COUNT=1", ";COUNT=0", ";UNTIL=20000101", ";UNTIL=20300101T000000Z", ";BYDAY=MO", ";BYDAY=-1SU,2TU", ";BYMONTHDAY=1,-1", ";BYMONTH=2", ";BYSETPOS=1", ";BYHOUR=0;BYMINUTE=0;BYSECOND=0", ";BYYEARDAY=100",
        ";BYWEEKNO=20", ";WKST=SU", ";WKST=MO;COUNT=3;BYDAY=MO",
    ]
    .iter()
    .map(|x| format!("FREQ=DAILY{x}").parse().unwrap())
    .collect();
    run.family("other parts", product(&[starts.len(), 7, parts.len(), 2]), |i, case| {
        let mut d = Dec(i);
        let start = *d.of(&starts);
        let f = d.take(7);
        let rule = d.of(&parts).clone();
        sum(case, start, &ikal::Recur { freq: freq(f), interval: [1, 3][d.take(2)], ..rule }, f);
    });
}

// ---------------------------------------------------------------- C29

pub const C29: Info = Info {
    id: "C29",
    zones: &["UTC", "CET-1CEST,M3.5.0,M10.5.0/3"],
    more_zones: &["America/New_York"],
    rule: "every frequency x intervals x starts of each kind x no end, counts and ends around each occurrence x all subsets of excluded occurrences x events, to-dos, journals x the expansion and its windows; consumed step by step, and by every other method of an iterator from every position, after the end, in parts, side by side",
    assumptions: &[],
    run: c29,
};

/// Compares every way of consuming an iterator with step by step; `n` bounds what is looked at.
fn lawful<T: PartialEq + Clone + std::fmt::Debug, I: Iterator<Item = T>>(make: &dyn Fn() -> I, n: usize) -> Result<(usize, bool), String> {
    let mut it = make();
    let mut all: Vec<T> = Vec::new();
    let mut hints = Vec::new();
    let mut ended = false;
    while all.len() < n {
        hints.push(it.size_hint());
        match it.next() {
            Some(x) => all.push(x),
            None => {
                ended = true;
                break;
            }
        }
    }
    if ended {
        for i in 0..3 {
            let h = it.size_hint();
            if it.next().is_some() || h.0 > 0 {
                return Err(format!("{} more steps after the end: goes on, or says so {h:?}", i + 1));
            }
        }
    }
    for (i, (low, high)) in hints.iter().enumerate() {
        let left = all.len().saturating_sub(i);
        if ended && (*low > left || high.is_some_and(|h| h < left)) || !ended && high.is_some_and(|h| h < left) {
            return Err(format!("{left} left, promises {low} to {high:?}"));
        }
    }
    let is = |what: &str, got: &[T], want: &[T]| if got == want { Ok(()) } else { Err(format!("{what}: {got:?}, by steps {want:?}")) };
    let len = all.len();
    for k in 0..=len {
        if k == len && !ended {
            break;
        }
        let mut it = make();
        let x: Vec<T> = it.nth(k).into_iter().collect();
        is(&format!("nth({k})"), &x, all.get(k..k + 1).unwrap_or(&[]))?;
        if k + 1 < len {
            let y: Vec<T> = it.next().into_iter().collect();
            is(&format!("next after nth({k})"), &y, &all[k + 1..k + 2])?;
        }
        let want = &all[k.min(len)..];
        is(&format!("skip({k})"), &make().skip(k).take(len - k.min(len)).collect::<Vec<_>>(), want)?;
        is(&format!("take({k})"), &make().take(k).collect::<Vec<_>>(), &all[..k])?;
        let mut it = make();
        let mut parts: Vec<T> = it.by_ref().take(k).collect();
        parts.extend(it.take(len - k));
        is(&format!("in parts of {k}"), &parts, &all)?;
        // the rest at once, after some steps
        if ended {
            let rest = |k: usize| {
                let mut it = make();
                for _ in 0..k {
                    it.next();
                }
                it
            };
            is(&format!("collect after {k}"), &rest(k).collect::<Vec<_>>(), want)?;
            is(&format!("last after {k}"), &rest(k).last().into_iter().collect::<Vec<_>>(), if k < len { &all[len - 1..] } else { &[] })?;
            let c = rest(k).count();
            if c != len - k {
                return Err(format!("count after {k}: {c}, by steps {}", len - k));
            }
            let mut folded = Vec::new();
            rest(k).for_each(|x| folded.push(x));
            is(&format!("for_each after {k}"), &folded, want)?;
            is(&format!("fold after {k}"), &rest(k).fold(Vec::new(), |mut a, x| { a.push(x); a }), want)?;
            let mut looped = Vec::new();
            for x in rest(k) {
                looped.push(x);
            }
            is(&format!("for after {k}"), &looped, want)?;
            let mut reduced = rest(k);
            let found = reduced.find(|x| want.last() == Some(x));
            is(&format!("find after {k}"), &found.into_iter().collect::<Vec<_>>(), if k < len { &all[len - 1..] } else { &[] })?;
            if reduced.next().is_some() {
                return Err(format!("goes on after what find found behind {k}"));
            }
        }
    }
    for step in 1..=3 {
        let want: Vec<T> = all.iter().step_by(step).cloned().collect();
        let got: Vec<T> = if ended { make().step_by(step).collect() } else { make().step_by(step).take(want.len()).collect() };
        is(&format!("step_by({step})"), &got, &want)?;
    }
    if let Some(p) = make().position(|x| Some(&x) == all.last())
        && p + 1 != len
    {
        return Err(format!("position of the last: {p} of {len}"));
    }
    // side by side
    let mut two: Vec<T> = Vec::new();
    for (a, b) in make().zip(make()).take(len) {
        if a != b {
            return Err(format!("side by side: {a:?} and {b:?}"));
        }
        two.push(a);
    }
    is("side by side", &two, &all)?;
    let mut p = make().peekable();
    let mut peeked = Vec::new();
    while peeked.len() < len {
        let Some(x) = p.peek().cloned() else { break };
        p.next();
        peeked.push(x);
    }
    is("peeked", &peeked, &all)?;
    if ended {
        let (mut f, mut v) = (make().fuse(), Vec::new());
        while let Some(x) = f.next() {
            v.push(x);
        }
        is("fused", &v, &all)?;
        is("chained", &make().chain(make()).collect::<Vec<_>>(), &[all.clone(), all.clone()].concat())?;
        let flat: Vec<T> = std::iter::once(()).flat_map(|()| make()).collect();
        is("flattened", &flat, &all)?;
        if make().all(|_| true) != true || make().any(|_| true) != (len > 0) {
            return Err("all, any".into());
        }
        let mut it = make();
        let r: Result<Vec<T>, ()> = it.try_fold(Vec::new(), |mut a, x| { a.push(x); Ok(a) });
        is("try_fold", &r.unwrap_or_default(), &all)?;
    }
    Ok((len, ended))
}

fn consume<T: Item + ikal::iter::Recurring + PartialEq + std::fmt::Debug>(case: &mut Case, start: K, rule: ikal::Recur, exdate: Vec<ikal::Date>, how: usize, at: [ikal::Date; 2], n: usize) {
    let item = T::build(start.date(), None, rule, exdate);
    let r = imp(|| match how {
        0 => lawful(&|| item.rec(), n),
        1 => lawful(&|| item.rec().between(at[0], at[1]), n),
        2 => lawful(&|| item.rec().after(at[0]), n),
        _ => lawful(&|| item.rec().at(at[0]), n),
    });
    case.validated();
    match r {
        Ok(Ok((len, ended))) => {
            case.steps(len as u64 + 1);
            case.state(&(T::KIND, how, len, ended, print(start)));
        }
        Ok(Err(e)) | Err(e) => case.fail(|| format!("{:?} from {} by {:?}, excluded {:?}, way {how} at {at:?}: {e}", T::KIND, print(start), item.rule(), item.clone().any().obs().fields.get("exdate"))),
    }
}

fn c29(run: &Run) {
    let starts: Vec<K> = vec![
        K::Day(cal::days(2024, 1, 31)), K::Day(cal::days(2024, 2, 29)), K::Naive(cal::secs(2024, 2, 28, 23, 30, 0)), K::Naive(cal::secs(2023, 12, 31, 0, 0, 0)), K::Local(cal::secs(2024, 3, 30, 1, 30, 0)),
        K::Local(cal::secs(2024, 10, 27, 0, 30, 0)), K::Day(cal::days(9999, 12, 29)),
    ];
    let intervals: &[u8] = run.pick(&[1, 3], &[0, 1, 2, 3, 12, 255]);
    let depth = run.pick(4, 6);
    // ends: none, counts 0 to depth and the largest, until each occurrence; a count and an until
    let ends = 1 + (depth + 2) + (depth + 1) * 3;
    run.family("expansions", product(&[3, 7, intervals.len(), starts.len(), ends, 1 << depth]), |i, case| {
        let mut d = Dec(i);
        let kind = d.take(3);
        let f = d.take(7);
        let interval = intervals[d.take(intervals.len())];
        let start = starts[d.take(starts.len())];
        let end = d.take(ends);
        let out = d.take(1 << depth);
        let ks = plain(start, f, interval, depth);
        let mut rule = ikal::Recur { freq: freq(f), interval, ..Default::default() };
        match end {
            0 => (),
            e if e <= depth + 1 => rule.count = Some((e - 1) as u8),
            e if e == depth + 2 => rule.count = Some(255),
            e => {
                let e = e - depth - 3;
                let Some(k) = ks.get(e / 3) else {
                    case.unspecified();
                    return;
                };
                rule.until = Some(k.date());
                rule.count = [None, Some(depth as u8 - 1), Some(200)][e % 3];
            }
        }
        let ex: Vec<ikal::Date> = ks.iter().enumerate().filter(|(j, _)| out & (1 << j) != 0).map(|x| x.1.date()).collect();
        let w = [start.date(); 2];
        by_kind!(kind, consume(case, start, rule, ex, 0, w, depth + 2));
    });
    // to-dos without a start, components without a rule
    run.family("nothing to expand", product(&[4, 8, 4, 4]), |i, case| {
        let mut d = Dec(i);
        let (k, f, count, how) = (d.take(4), d.take(8), [None, Some(0), Some(1), Some(9)][d.take(4)], d.take(4));
        let day = K::Day(cal::days(2024, 1, 31)).date();
        let rrule = (f < 7).then(|| ikal::Recur { freq: freq(f), interval: 1, count, ..Default::default() });
        let windows = |n: usize| -> Result<(usize, bool), String> {
            match (k, &rrule) {
                (0, r) => lawful(&|| ikal::VTodo { rrule: r.clone(), due: Some(day), ..Default::default() }.recurrent(), n),
                (1, None) => lawful(&|| ikal::VTodo { dtstart: Some(day), ..Default::default() }.recurrent(), n),
                (2, None) => lawful(&|| ikal::VEvent { dtstart: day, ..Default::default() }.recurrent(), n),
                (3, None) => lawful(&|| ikal::VJournal { dtstart: day, ..Default::default() }.recurrent(), n),
                (1, r) => lawful(&|| ikal::VTodo { rrule: r.clone(), ..Default::default() }.recurrent().after(day), n),
                _ => Ok((0, true)),
            }
        };
        case.steps(1);
        case.validated();
        match imp(|| windows([1, 2, 5, 12][how])) {
            Ok(Ok(x)) => case.state(&(k, f, x)),
            Ok(Err(e)) | Err(e) => case.fail(|| format!("kind {k}, frequency {f}, count {count:?}: {e}")),
        }
    });
    run.family("windows", product(&[3, 7, intervals.len(), starts.len(), 3, depth + 1, depth + 1, 4]), |i, case| {
        let mut d = Dec(i);
        let kind = d.take(3);
        let f = d.take(7);
        let interval = intervals[d.take(intervals.len())];
        let start = starts[d.take(starts.len())];
        let way = 1 + d.take(3);
        let (a, b) = (d.take(depth + 1), d.take(depth + 1));
        let ks = plain(start, f, interval, depth + 1);
        let (Some(from), Some(to)) = (ks.get(a), ks.get(b)) else {
            case.unspecified();
            return;
        };
        if a > b || way != 1 && b > 0 {
            case.unspecified();
            return;
        }
        let mut rule = ikal::Recur { freq: freq(f), interval, ..Default::default() };
        let mut ex = Vec::new();
        match d.take(4) {
            0 => (),
            1 => rule.count = Some(depth as u8),
            2 => ex.push(from.date()),
            _ => {
                ex.push(to.date());
                rule.count = Some(depth as u8 + 1);
            }
        }
        by_kind!(kind, consume(case, start, rule, ex, way, [from.date(), to.date()], depth + 2));
    });
    // things without rule or start
    run.family("without rule or start", 5 * 4, |i, case| {
        let day = ikal::Date::Date(chrono::NaiveDate::from_ymd_opt(2024, 1, 1).unwrap());
        case.steps(1);
        case.validated();
        case.state(&i);
        fn four<T: ikal::iter::Recurring + PartialEq + std::fmt::Debug>(make: &dyn Fn() -> ikal::iter::Recur<T>, how: u64, day: ikal::Date) -> Result<(usize, bool), String> {
            match how {
                0 => lawful(&|| make(), 3),
                1 => lawful(&|| make().between(day, day + chrono::TimeDelta::days(2)), 3),
                2 => lawful(&|| make().after(day), 3),
                _ => lawful(&|| make().at(day), 3),
            }
        }
        let r = imp(|| {
            let (e, j) = (ikal::VEvent { dtstart: day, ..Default::default() }, ikal::VJournal { dtstart: day, ..Default::default() });
            let t = ikal::VTodo { dtstart: Some(day), ..Default::default() };
            let u = ikal::VTodo { rrule: Some(ikal::Recur::default()), due: Some(day), ..Default::default() };
            match i / 4 {
                0 => four(&|| e.recurrent(), i % 4, day),
                1 => four(&|| j.recurrent(), i % 4, day),
                2 => four(&|| t.recurrent(), i % 4, day),
                3 => four(&|| u.recurrent(), i % 4, day),
                _ => four(&|| ikal::VTodo::default().recurrent(), i % 4, day),
            }
        });
        if r != Ok(Ok((0, true))) {
            case.fail(|| format!("{i}: {r:?}"));
        }
    });
}
