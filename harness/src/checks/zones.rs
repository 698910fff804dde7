//! C07 instants and time zones, C17 progress of expansions, C18 order and arithmetic of dates.

use super::judge;
use super::values::{PERIOD, RECUR, alone, in_doc, places};
use crate::cal;
use crate::cli::Info;
use crate::docs;
use crate::engine::{Case, Dec, Run, imp, product};
use crate::model::{self, Kind, R, Ty, Val};
use crate::obs;
use chrono::{Local, NaiveDate, NaiveDateTime, Offset as _, TimeDelta, TimeZone as _};
use std::cmp::Ordering;

pub const ZONES: &[&str] = &[
    "UTC",
    "CET-1CEST,M3.5.0,M10.5.0/3",
    "EST5EDT,M3.2.0,M11.1.0",
    "IST-5:30",
    "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0",
    "NZST-12NZDT,M9.5.0,M4.1.0/3",
    "<-01>1<+00>,M3.5.0/0,M10.5.0/1",
];

pub const MORE_ZONES: &[&str] = &[
    "CET",
    "America/New_York",
    "Australia/Lord_Howe",
    "Pacific/Auckland",
    "America/Santiago",
    "Asia/Tehran",
    "Pacific/Apia",
    "<-12>12",
    "<+14>-14",
    "Europe/Dublin",
];

/// Instants worth looking at, in UTC seconds.
pub fn instants(run: &Run) -> Vec<i64> {
    let mut out = Vec::new();
    let step = run.pick(3600, 1800);
    // around the changes of daylight saving of every zone
    for (m, d) in [(3, 10), (3, 31), (4, 6), (4, 7), (9, 8), (9, 28), (10, 5), (10, 27), (11, 3)] {
        let mid = cal::secs(2024, m, d, 0, 0, 0);
        let mut t = mid - 2 * cal::DAY;
        while t <= mid + 2 * cal::DAY {
            out.push(t);
            t += step;
        }
        // to the second, around full hours of the days of the change
        for h in -14..=24 {
            out.extend([mid + h * 3600 - 1, mid + h * 3600 + 1, mid + h * 3600 + 1800]);
        }
    }
    // all months, many years
    for y in [1, 1582, 1883, 1900, 1969, 1970, 1996, 2000, 2016, 2023, 2024, 2037, 2038, 2039, 2100, 2500, 9998] {
        for m in 1..=12 {
            for (d, h, mi, s) in [(1, 0, 0, 0), (15, 12, 34, 56), (cal::month_len(y, m), 23, 59, 59)] {
                out.push(cal::secs(y, m, d, h, mi, s));
            }
        }
    }
    out.extend([
        cal::secs(1, 1, 1, 0, 0, 0), cal::secs(0, 12, 31, 23, 59, 59), cal::secs(9999, 12, 31, 23, 59, 59), cal::secs(9999, 12, 31, 0, 0, 0),
        cal::secs(0, 1, 1, 0, 0, 0), 0, -1, 1, i64::from(i32::MAX), i64::from(i32::MAX) + 1, i64::from(i32::MIN),
    ]);
    out.sort_unstable();
    out.dedup();
    out
}

pub fn naive_at(secs: i64) -> NaiveDateTime {
    chrono::DateTime::from_timestamp(secs, 0).unwrap().naive_utc()
}

pub fn local_at(secs: i64) -> chrono::DateTime<Local> {
    Local.from_utc_datetime(&naive_at(secs))
}

/// The offset of the local zone at an instant.
pub fn offset_at(secs: i64) -> i64 {
    // the calendar of chrono ends with the year 262142
    let secs = secs.clamp(-8_210_000_000_000, 8_210_266_000_000);
    i64::from(Local.offset_from_utc_datetime(&naive_at(secs)).fix().local_minus_utc())
}

/// The instants which the local clocks call `wall`, by trying every offset in force within two days.
pub fn instants_of(wall: i64) -> Vec<i64> {
    thread_local! { static SEEN: std::cell::RefCell<std::collections::HashMap<i64, Vec<i64>>> = Default::default(); }
    if let Some(x) = SEEN.with_borrow(|m| m.get(&wall).cloned()) {
        return x;
    }
    let out = find_instants(wall);
    SEEN.with_borrow_mut(|m| {
        if m.len() > 200_000 {
            m.clear();
        }
        m.insert(wall, out.clone());
    });
    out
}

fn find_instants(wall: i64) -> Vec<i64> {
    let mut offsets: Vec<i64> = (-32..=32).map(|h| offset_at(wall + h * 5400)).collect();
    offsets.sort_unstable();
    offsets.dedup();
    let mut out: Vec<i64> = offsets.iter().map(|o| wall - o).filter(|t| t + offset_at(*t) == wall).collect();
    out.sort_unstable();
    out
}

/// Whether the local clocks may be said to call the instant `got` `wall` (`None`: never).
///
/// Of the instants a wall-clock time stands for twice, either one will do. The first second of the
/// hour skipped by a change exists according to chrono.
pub fn wall_ok(wall: i64, got: Option<i64>) -> bool {
    let found = instants_of(wall);
    let Some(got) = got else {
        return found.is_empty();
    };
    let chrono = Local.from_local_datetime(&naive_at(wall));
    let is = |x: Option<chrono::DateTime<Local>>| x.is_some_and(|x| x.timestamp() == got);
    found.contains(&got) || is(chrono.earliest()) || is(chrono.latest())
}

pub const C07: Info = Info {
    id: "C07",
    zones: ZONES,
    more_zones: MORE_ZONES,
    rule: "a grid of instants (every hour around each change of daylight saving, its seconds on the days of the change, every month of many years, extreme years) x every property that holds a time x local time zones; every wall-clock time of the same grid through every conversion",
    assumptions: &["offsets of the local zone at an instant are those of chrono"],
    run: c07,
};

/// What documents hold also shows the day and the clock time of the local zone.
fn strict<R>(f: impl FnOnce() -> R) {
    obs::CLOCKS.set(true);
    f();
    obs::CLOCKS.set(false);
}

fn c07(run: &Run) {
    let ts = instants(run);
    let n = ts.len();

    // components: the instant written
    let mut spots = places(&[Ty::Dt, Ty::Date, Ty::DateList, Ty::RDate, Ty::Trigger]);
    for p in [
        "RRULE:FREQ=DAILY;UNTIL=", "EXDATE:20240101,", "RDATE;VALUE=PERIOD:20240101T000000Z/", "DTSTART;TZID=Asia/Tokyo:", "DTEND;VALUE=DATE-TIME:",
        "RRULE:INTERVAL=2;UNTIL=", "CREATED;X-A=1:",
    ] {
        spots.push((Kind::Event, p.into()));
    }
    spots.push((Kind::Freebusy, "FREEBUSY:20240101T000000Z/".into()));
    spots.push((Kind::Todo, "RRULE:FREQ=YEARLY;UNTIL=".into()));
    spots.push((Kind::Journal, "RRULE:FREQ=YEARLY;UNTIL=".into()));
    spots.push((Kind::Daylight, "RRULE:FREQ=YEARLY;UNTIL=".into()));
    run.family("instants in properties", product(&[n, spots.len()]), |i, case| {
        let mut d = Dec(i);
        let (k, p) = d.of(&spots);
        let t = *d.of(&ts);
        strict(|| judge(case, *k, &in_doc(*k, format!("{p}{}Z", cal::fmt_naive(t))), 1));
    });
    run.family("periods", n as u64, |i, case| {
        let (a, b) = (ts[i as usize], ts[(i as usize + 7) % n]);
        let s = format!("{}Z/PT1H,{}Z/{}Z,{}/{}Z", cal::fmt_naive(a), cal::fmt_naive(a), cal::fmt_naive(b), cal::fmt_naive(b), cal::fmt_naive(a));
        strict(|| judge(case, Kind::Freebusy, &in_doc(Kind::Freebusy, format!("FREEBUSY:{s}")), 3));
        strict(|| judge(case, Kind::Event, &in_doc(Kind::Event, format!("RDATE;VALUE=PERIOD:{s}")), 3));
        for s in s.split(',') {
            alone(case, &PERIOD, s);
        }
        alone(case, &RECUR, &format!("FREQ=HOURLY;UNTIL={}Z", cal::fmt_naive(a)));
        alone(case, &RECUR, &format!("FREQ=HOURLY;UNTIL={}", cal::fmt_naive(a)));
    });
    // a floating time and a date stay what they are
    run.family("floating times in properties", product(&[n, spots.len()]), |i, case| {
        let mut d = Dec(i);
        let (k, p) = d.of(&spots);
        let t = cal::fmt_naive(*d.of(&ts));
        judge(case, *k, &in_doc(*k, format!("{p}{t}")), 1);
        if i % 5 == 0 {
            judge(case, *k, &in_doc(*k, format!("{p}{}", &t[..8])), 1);
        }
    });
    run.family("full documents", (docs_in_zone().len() * 4) as u64, |i, case| {
        let mut d = Dec(i);
        let k = *d.of(&docs_in_zone());
        let doc = docs::full_doc(k, d.take(4));
        strict(|| judge(case, k, &doc, 1));
    });

    // stand-alone texts
    run.family("stand-alone texts", n as u64, |i, case| {
        let t = ts[i as usize];
        let s = format!("{}Z", cal::fmt_naive(t));
        case.steps(1);
        case.state(&t);
        case.validated();
        let want = Some(Val::Utc(t, false));
        // what taking the digits for the local wall clock gives (known finding)
        let wall = |g: &Option<Val>| match g {
            Some(Val::Utc(g, false)) => wall_ok(t, Some(*g)),
            Some(_) => false,
            None => wall_ok(t, None),
        };
        for (name, got) in [
            ("Date", imp(|| s.parse::<ikal::Date>().ok().map(|x| obs::date(&x)))),
            ("DateTime", imp(|| s.parse::<ikal::DateTime>().ok().map(|x| obs::date_time(&x)))),
            ("Trigger", imp(|| s.parse::<ikal::Trigger>().ok().map(|x| obs::trigger(&x)))),
        ] {
            match got {
                Ok(g) if g == want => (),
                Ok(g) if wall(&g) => case.known("wall-clock-parse", || format!("{name} {s:?} is {g:?} instead of {want:?} in {}", run.zone)),
                g => case.fail(|| format!("{name} {s:?} gives {g:?} instead of {want:?}")),
            }
        }
        // without Z
        let s = cal::fmt_naive(t);
        let want = Ok(Some(Val::Naive(t, false)));
        if imp(|| s.parse::<ikal::Date>().ok().map(|x| obs::date(&x))) != want
            || imp(|| s.parse::<ikal::DateTime>().ok().map(|x| obs::date_time(&x))) != want
        {
            case.fail(|| format!("floating {s:?} is misread"));
        }
    });

    // printed local times
    run.family("printed times", n as u64, |i, case| {
        let t = ts[i as usize];
        case.steps(1);
        case.state(&("print", t));
        case.validated();
        let l = ikal::DateTime::Local(local_at(t));
        let want = format!("{}Z", cal::fmt_naive(t));
        let wall = format!("{}Z", cal::fmt_naive(t + offset_at(t)));
        let five = |s: &str| s.len() == 16; // four-digit years only
        if !five(&want) || !five(&wall) || t + offset_at(t) < cal::secs(0, 1, 1, 0, 0, 0) || t < cal::secs(0, 1, 1, 0, 0, 0)
            || t + offset_at(t) >= cal::secs(10_000, 1, 1, 0, 0, 0)
        {
            return;
        }
        for got in [imp(|| l.to_string()), imp(|| ikal::Date::DateTime(l).to_string()), imp(|| ikal::ser::ical(&l).unwrap())] {
            match got {
                Ok(g) if g == want => (),
                Ok(g) if g == wall => case.known("wall-clock-print", || format!("the instant {want} is printed as {g:?} in {}", run.zone)),
                g => case.fail(|| format!("the instant {want} is printed as {g:?}")),
            }
        }
        let f = ikal::DateTime::Naive(naive_at(t));
        if imp(|| f.to_string()) != Ok(cal::fmt_naive(t)) {
            case.fail(|| format!("floating {} is printed as {f}", cal::fmt_naive(t)));
        }
    });

    // conversions
    run.family("conversions", n as u64, |i, case| {
        let t = ts[i as usize];
        case.steps(1);
        case.state(&("convert", t));
        case.validated();
        let r = imp(|| {
            let (l, f) = (local_at(t), naive_at(t));
            let day = f.date();
            let wall = naive_at(t + offset_at(t));
            let mut bad: Vec<String> = Vec::new();
            let mut is = |what: &str, ok: bool| {
                if !ok {
                    bad.push(what.to_string());
                }
            };
            let dl: ikal::DateTime = l.into();
            let df: ikal::DateTime = f.into();
            let al: ikal::Date = l.into();
            let af: ikal::Date = f.into();
            let ad: ikal::Date = day.into();
            is("DateTime from local", matches!(dl, ikal::DateTime::Local(x) if x == l));
            is("DateTime from naive", matches!(df, ikal::DateTime::Naive(x) if x == f));
            is("Date from local", al == ikal::Date::DateTime(dl));
            is("Date from naive", af == ikal::Date::DateTime(df));
            is("Date from day", ad == ikal::Date::Date(day));
            is("Date from DateTime", ikal::Date::from(dl) == al && ikal::Date::from(df) == af);
            is("naive of local", dl.naive() == wall && NaiveDateTime::from(dl) == wall);
            is("naive of naive", df.naive() == f && NaiveDateTime::from(df) == f);
            is("day of local", dl.date_naive() == wall.date() && al.date_naive() == wall.date() && NaiveDate::from(al) == wall.date());
            is("day of naive", df.date_naive() == day && af.date_naive() == day && NaiveDate::from(af) == day);
            is("day of date", ad.date_naive() == day && NaiveDate::from(ad) == day);
            is("has_time", al.has_time() && af.has_time() && !ad.has_time());
            is("DateTime from Date", ikal::DateTime::from(al) == dl && ikal::DateTime::from(af) == df);
            is("midnight", matches!(ikal::DateTime::from(ad), ikal::DateTime::Naive(x) if x == day.and_hms_opt(0, 0, 0).unwrap()));
            is("format", dl.format("%F %T").to_string() == wall.format("%F %T").to_string() && al.format("%F %T").to_string() == wall.format("%F %T").to_string());
            is("local from local", chrono::DateTime::<Local>::try_from(dl).ok() == Some(l));
            is("local from naive", wall_ok(t, chrono::DateTime::<Local>::try_from(df).ok().map(|x| x.timestamp())));
            bad
        });
        match r {
            Ok(bad) if bad.is_empty() => (),
            r => case.fail(|| format!("{} ({t}): wrong {r:?}", cal::fmt_naive(t))),
        }
    });
    // every quarter of an hour of the days with a change as a wall-clock time
    let mut walls: Vec<i64> = Vec::new();
    for y in [2023, 2024, 2025] {
        let (a, b) = (cal::secs(y, 1, 1, 0, 0, 0), cal::secs(y + 1, 1, 1, 0, 0, 0));
        let mut t = a;
        while t < b {
            walls.push(t);
            t += 900;
        }
    }
    run.family("wall-clock times", walls.len() as u64, |i, case| {
        let w = walls[i as usize];
        case.steps(1);
        case.state(&("wall", w));
        case.validated();
        let got = imp(|| chrono::DateTime::<Local>::try_from(ikal::DateTime::Naive(naive_at(w))).ok().map(|x| x.timestamp()));
        // a time which exists twice may be either one, but always the same
        match got {
            Ok(g) if wall_ok(w, g) => (),
            g => case.fail(|| format!("wall clock {} is {g:?}, not one of {:?}", cal::fmt_naive(w), instants_of(w))),
        }
    });
}

fn docs_in_zone() -> [Kind; 11] {
    model::KINDS
}

// ---------------------------------------------------------------- C18

pub const C18: Info = Info {
    id: "C18",
    zones: ZONES,
    more_zones: MORE_ZONES,
    rule: "all pairs and triples of boundary dates, floating times and local times (both sides of each change of daylight saving included), and of durations between them, in every local time zone",
    assumptions: &["offsets of the local zone at an instant are those of chrono"],
    run: c18,
};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Day(i64),
    Naive(i64),
    Local(i64),
}

impl K {
    pub fn date(self) -> ikal::Date {
        match self {
            K::Day(d) => ikal::Date::Date(naive_at(d * cal::DAY).date()),
            K::Naive(t) => ikal::Date::DateTime(ikal::DateTime::Naive(naive_at(t))),
            K::Local(t) => ikal::Date::DateTime(ikal::DateTime::Local(local_at(t))),
        }
    }
    pub fn date_time(self) -> Option<ikal::DateTime> {
        match self {
            K::Day(_) => None,
            K::Naive(t) => Some(ikal::DateTime::Naive(naive_at(t))),
            K::Local(t) => Some(ikal::DateTime::Local(local_at(t))),
        }
    }
    pub fn day(self) -> i64 {
        match self {
            K::Day(d) => d,
            K::Naive(t) => t.div_euclid(cal::DAY),
            K::Local(t) => (t + offset_at(t)).div_euclid(cal::DAY),
        }
    }
    /// None: two kinds of date-times aren't compared
    pub fn cmp(self, o: K) -> Option<Ordering> {
        match (self, o) {
            (K::Day(a), K::Day(b)) | (K::Naive(a), K::Naive(b)) | (K::Local(a), K::Local(b)) => Some(a.cmp(&b)),
            (K::Day(_), _) | (_, K::Day(_)) => Some(self.day().cmp(&o.day())),
            _ => None,
        }
    }
    pub fn secs(self) -> i64 {
        match self {
            K::Day(d) => d * cal::DAY,
            K::Naive(t) | K::Local(t) => t,
        }
    }
    pub fn kind(self) -> usize {
        match self {
            K::Day(_) => 0,
            K::Naive(_) => 1,
            K::Local(_) => 2,
        }
    }
}

fn operators<T: PartialOrd + Ord + Copy>(a: T, b: T) -> (Ordering, bool) {
    let c = a.cmp(&b);
    let max = std::cmp::Ord::max(a, b);
    let ok = a.partial_cmp(&b) == Some(c)
        && (a < b) == (c == Ordering::Less)
        && (a <= b) == (c != Ordering::Greater)
        && (a > b) == (c == Ordering::Greater)
        && (a >= b) == (c != Ordering::Less)
        && b.cmp(&a) == c.reverse()
        && max.cmp(&a) != Ordering::Less
        && max.cmp(&b) != Ordering::Less;
    (c, ok)
}

fn moments(run: &Run) -> Vec<K> {
    let mut times: Vec<i64> = Vec::new();
    for (m, d) in [(3, 10), (3, 31), (4, 6), (9, 28), (10, 5), (10, 27), (11, 3)] {
        let mid = cal::secs(2024, m, d, 0, 0, 0);
        let step = run.pick(6, 3);
        for h in 0..(42 / step) {
            times.push(mid - 12 * 3600 + h * step * 3600);
        }
        for h in [-14, -10, 0, 1, 2, 3, 6, 7, 10, 14, 15, 16] {
            times.push(mid + h * 3600);
            if run.thorough() {
                times.extend([mid + h * 3600 + 1800, mid + h * 3600 - 1]);
            }
        }
    }
    for y in [1, 1969, 1970, 2000, 2024, 9999] {
        for (m, d, h) in [(1, 1, 0), (2, cal::month_len(y, 2), 23), (3, 1, 0), (12, 31, 23)] {
            times.push(cal::secs(y, m, d, h, 0, 0));
        }
    }
    times.extend([0, 1, -1]);
    times.sort_unstable();
    times.dedup();
    let mut out: Vec<K> = Vec::new();
    for t in &times {
        out.push(K::Naive(*t));
        out.push(K::Local(*t));
        out.push(K::Day(t.div_euclid(cal::DAY)));
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|x| seen.insert(*x));
    out
}

fn c18(run: &Run) {
    let ks = moments(run);
    let n = ks.len();

    run.family("pairs", (n * n) as u64, |i, case| {
        let (a, b) = (ks[i as usize / n], ks[i as usize % n]);
        case.steps(2);
        case.state(&(a, b));
        case.validated();
        case.sample(|| format!("{a:?} with {b:?}"));
        let r = imp(|| {
            let mut bad = Vec::new();
            let (x, y) = (a.date(), b.date());
            let (c, ok) = operators(x, y);
            if !ok {
                bad.push("the operators on Date disagree".to_string());
            }
            if let Some(w) = a.cmp(b)
                && c != w
            {
                bad.push(format!("Date order {c:?}, is {w:?}"));
            }
            if a.kind() == b.kind() && ((x == y) != (a == b) || (x != y) != (a != b)) {
                bad.push("Date equality".into());
            }
            if let (Some(x), Some(y)) = (a.date_time(), b.date_time()) {
                let (c, ok) = operators(x, y);
                if !ok {
                    bad.push("the operators on DateTime disagree".into());
                }
                if a.kind() == b.kind() {
                    let w = a.secs().cmp(&b.secs());
                    if c != w || (x == y) != (w == Ordering::Equal) {
                        bad.push(format!("DateTime order {c:?}, is {w:?}"));
                    }
                    let delta = x - y;
                    let want = a.secs() - b.secs();
                    if delta != TimeDelta::seconds(want) {
                        bad.push(format!("difference {delta}, is {want} s"));
                    }
                    if y + delta != x {
                        bad.push("adding the difference to the one doesn't give the other".into());
                    }
                    if b.date() + delta != a.date() {
                        bad.push("adding the difference to the one date doesn't give the other".into());
                    }
                    if a.kind() == 1 && x - delta != y.naive() {
                        bad.push("subtracting the difference from the one doesn't give the other".into());
                    }
                    // a period between them
                    let p = ikal::Period::StartEnd(ikal::period::StartEnd { start: y, end: x });
                    let q = ikal::Period::StartDur(ikal::period::StartDur { start: y, duration: TimeDelta::seconds(want) });
                    if p.duration() != TimeDelta::seconds(want) || q.duration() != TimeDelta::seconds(want) {
                        bad.push(format!("period of {} or {}, is {want} s", p.duration(), q.duration()));
                    }
                }
            } else if a.kind() == 0 && b.kind() == 0 {
                let delta = TimeDelta::days(b.secs() / cal::DAY - a.secs() / cal::DAY);
                if x + delta != y {
                    bad.push("adding days to a date".into());
                }
            }
            bad
        });
        match r {
            Ok(bad) if bad.is_empty() => (),
            r => case.fail(|| format!("{a:?} ({}) and {b:?} ({}): {r:?}", a.date(), b.date())),
        }
    });

    // transitivity, and sorting
    let step = run.pick(2, 1);
    let few: Vec<K> = ks.iter().copied().step_by(step).collect();
    let n = few.len();
    run.family("triples", product(&[n, n, n]), |i, case| {
        let mut d = Dec(i);
        let (a, b, c) = (*d.of(&few), *d.of(&few), *d.of(&few));
        if a.kind() != b.kind() || b.kind() != c.kind() {
            // a day between two times of one kind
            if !(b.kind() == 0 && a.kind() == c.kind()) {
                return;
            }
        }
        case.steps(3);
        case.validated();
        let r = imp(|| {
            let (x, y, z) = (a.date(), b.date(), c.date());
            let whole = a.kind() == b.kind();
            let mut bad = Vec::new();
            if x < y && y < z && !(x < z) {
                bad.push("not transitive");
            }
            if whole {
                if x <= y && y <= z && !(x <= z) {
                    bad.push("not transitive");
                }
                let mut v = [x, y, z];
                v.sort();
                let mut w = [a.secs(), b.secs(), c.secs()];
                w.sort_unstable();
                let s: Vec<ikal::Date> = w
                    .iter()
                    .map(|t| match a {
                        K::Day(_) => K::Day(t.div_euclid(cal::DAY)).date(),
                        K::Naive(_) => K::Naive(*t).date(),
                        K::Local(_) => K::Local(*t).date(),
                    })
                    .collect();
                if v[..] != s[..] {
                    bad.push("wrong order after sorting");
                }
            }
            bad
        });
        match r {
            Ok(bad) if bad.is_empty() => (),
            r => case.fail(|| format!("{a:?}, {b:?}, {c:?}: {r:?}")),
        }
    });

    // sums
    let deltas: Vec<i64> = vec![
        0, 1, -1, 59, 60, 3599, 3600, -3600, 7200, 86_399, 86_400, -86_400, 90_000, 604_800, 2_592_000, 31_536_000, 31_622_400, -31_536_000,
    ];
    run.family("sums", product(&[ks.len(), deltas.len()]), |i, case| {
        let mut d = Dec(i);
        let (a, s) = (*d.of(&ks), *d.of(&deltas));
        case.steps(1);
        case.state(&(a, s));
        case.validated();
        let r = imp(|| {
            let delta = TimeDelta::seconds(s);
            let mut bad = Vec::new();
            match a {
                K::Day(x) => {
                    if s % cal::DAY == 0 && a.date() + delta != K::Day(x + s / cal::DAY).date() {
                        bad.push("day plus days");
                    }
                }
                K::Naive(t) | K::Local(t) => {
                    let to = if a.kind() == 1 { K::Naive(t + s) } else { K::Local(t + s) };
                    if a.date() + delta != to.date() || a.date_time().unwrap() + delta != to.date_time().unwrap() {
                        bad.push("time plus duration");
                    }
                    if (a.date_time().unwrap() + delta) - a.date_time().unwrap() != delta {
                        bad.push("difference of a sum");
                    }
                }
            }
            bad
        });
        match r {
            Ok(bad) if bad.is_empty() => (),
            r => case.fail(|| format!("{a:?} + {s} s: {r:?}")),
        }
    });

    // periods read from a document, in either form
    let ts: Vec<i64> = ks.iter().filter(|x| x.kind() == 2).map(|x| x.secs()).filter(|t| *t >= cal::secs(1, 1, 1, 0, 0, 0)).collect();
    let n = ts.len();
    run.family("parsed periods", (n * n) as u64, |i, case| {
        let (a, b) = (ts[i as usize / n], ts[i as usize % n]);
        case.steps(2);
        case.validated();
        for z in ["Z", ""] {
            let s = format!("{}{z}/{}{z}", cal::fmt_naive(a), cal::fmt_naive(b));
            let got = imp(|| s.parse::<ikal::Period>().ok().map(|x| x.duration()));
            if got != Ok(Some(TimeDelta::seconds(b - a))) {
                case.fail(|| format!("{s:?} lasts {got:?}, is {} s", b - a));
            }
        }
        if b >= a {
            let s = format!("{}Z/PT{}S", cal::fmt_naive(a), b - a);
            let got = imp(|| s.parse::<ikal::Period>().ok().map(|x| x.duration()));
            if got != Ok(Some(TimeDelta::seconds(b - a))) {
                case.fail(|| format!("{s:?} lasts {got:?}, is {} s", b - a));
            }
        }
    });
}

// ---------------------------------------------------------------- C17

pub const C17: Info = Info {
    id: "C17",
    zones: ZONES,
    more_zones: MORE_ZONES,
    rule: "every frequency x every interval 0 to 255 x starts (all days of a leap and a common year, hours around changes of daylight saving, the ends of the calendar; dates, floating and local times) x kinds of components x local time zones, to a number of steps",
    assumptions: &[],
    run: c17,
};

pub fn freq(i: usize) -> ikal::Freq {
    [
        ikal::Freq::Secondly,
        ikal::Freq::Minutely,
        ikal::Freq::Hourly,
        ikal::Freq::Daily,
        ikal::Freq::Weekly,
        ikal::Freq::Monthly,
        ikal::Freq::Yearly,
    ][i]
    .clone()
}

/// Nanoseconds since the epoch, of the wall clock unless local.
fn key(d: &ikal::Date) -> (usize, i128) {
    let nanos = |s: i64, n: u32| i128::from(s) * 1_000_000_000 + i128::from(n);
    match d {
        ikal::Date::Date(d) => (0, nanos(d.and_hms_opt(0, 0, 0).unwrap().and_utc().timestamp(), 0)),
        ikal::Date::DateTime(ikal::DateTime::Naive(n)) => (1, nanos(n.and_utc().timestamp(), n.and_utc().timestamp_subsec_nanos())),
        ikal::Date::DateTime(ikal::DateTime::Local(l)) => (2, nanos(l.timestamp(), l.timestamp_subsec_nanos())),
    }
}

fn walk(case: &mut Case, start: ikal::Date, rule: &ikal::Recur, steps: usize, kind: usize) {
    case.steps(steps as u64);
    let mut seen: Vec<ikal::Date> = Vec::with_capacity(steps);
    let r = imp(|| {
        macro_rules! go {
            ($c:expr, $f:expr) => {{
                let c = $c;
                let mut it = c.recurrent();
                let mut ended = false;
                for _ in 0..steps {
                    match it.next() {
                        Some(x) => {
                            if ended {
                                return Err("goes on after its end".to_string());
                            }
                            let f: fn(_) -> ikal::Date = $f;
                            seen.push(f(x));
                        }
                        None => ended = true,
                    }
                }
                ended
            }};
        }
        let rrule = Some(rule.clone());
        let ended = match kind {
            0 => go!(
                ikal::VEvent { dtstart: start, dtend: Some(start), rrule, ..Default::default() },
                |x: ikal::VEvent| x.dtstart
            ),
            1 => go!(
                ikal::VTodo { dtstart: Some(start), due: Some(start), rrule, ..Default::default() },
                |x: ikal::VTodo| x.dtstart.unwrap()
            ),
            _ => go!(ikal::VJournal { dtstart: start, rrule, ..Default::default() }, |x: ikal::VJournal| x.dtstart),
        };
        Ok(ended)
    });
    case.validated();
    let what = || {
        format!(
            "{} every {} from {start:?} after {} steps",
            model::FREQS[obs::freq(&rule.freq)],
            rule.interval,
            seen.len()
        )
    };
    match r {
        Ok(Ok(_)) => (),
        Ok(Err(e)) => case.fail(|| format!("{}: {e}", what())),
        Err(e) => {
            case.fail(|| format!("{}: {e}", what()));
            return;
        }
    }
    if let Some(x) = seen.last() {
        case.state(&(key(x), rule.interval, obs::freq(&rule.freq)));
    }
    let first_ok = seen.first().is_none_or(|x| *x == start);
    if !first_ok {
        case.fail(|| format!("{}: begins with {:?}", what(), seen.first()));
    }
    for w in seen.windows(2) {
        // a date followed by a time counts as its midnight
        if key(&w[1]).1 <= key(&w[0]).1 {
            case.fail(|| format!("{}: {:?} after {:?}", what(), w[1], w[0]));
            return;
        }
    }
    // the operator makes the same step
    if seen.len() > 1 && !(matches!(start, ikal::Date::Date(_)) && seen[1].has_time()) {
        let r = imp(|| {
            let a = rule.clone() + start;
            let b = match start {
                ikal::Date::Date(d) => ikal::Date::Date(rule.clone() + d),
                ikal::Date::DateTime(dt) => {
                    let x = rule.clone() + dt;
                    let y: ikal::Date = match dt {
                        ikal::DateTime::Naive(n) => (rule.clone() + n).into(),
                        ikal::DateTime::Local(l) => (rule.clone() + l).into(),
                    };
                    if y != x.into() {
                        return (a, y);
                    }
                    x.into()
                }
            };
            (a, b)
        });
        if r != Ok((seen[1], seen[1])) {
            case.fail(|| format!("{}: the sum is {r:?}, the next start {:?}", what(), seen[1]));
        }
    }
}

fn c17(run: &Run) {
    // starts
    let mut starts: Vec<ikal::Date> = Vec::new();
    let lim_n = [NaiveDateTime::MAX, NaiveDateTime::MIN];
    for n in lim_n {
        starts.push(ikal::Date::Date(n.date()));
        starts.push(ikal::Date::DateTime(ikal::DateTime::Naive(n)));
    }
    for back in [1, 3600, 86_400, 86_401, 7 * 86_400, 31 * 86_400, 366 * 86_400, 800 * 86_400, 255 * 366 * 86_400] {
        let n = NaiveDateTime::MAX - TimeDelta::seconds(back);
        starts.push(ikal::Date::Date(n.date()));
        starts.push(ikal::Date::DateTime(ikal::DateTime::Naive(n)));
        starts.push(ikal::Date::DateTime(ikal::DateTime::Local(Local.from_utc_datetime(&(n - TimeDelta::days(2))))));
    }
    for y in [0, 1, 1583, 1969, 1999, 9998, 9999, 2023, 2024] {
        for (m, d) in [(1, 1), (1, 29), (1, 30), (1, 31), (2, 28), (2, 29), (3, 1), (3, 31), (4, 30), (8, 31), (11, 30), (12, 31)] {
            if d > cal::month_len(y, m) {
                continue;
            }
            let t = cal::secs(y, m, d, 2, 30, 0);
            starts.push(K::Day(t.div_euclid(cal::DAY)).date());
            starts.push(K::Naive(t).date());
            starts.push(K::Local(t).date());
        }
    }
    for (m, d) in [(3, 10), (3, 31), (4, 7), (9, 29), (10, 6), (10, 27), (11, 3)] {
        for h in [-12, -11, -1, 0, 1, 2, 3, 6, 7, 12, 15, 16] {
            starts.push(K::Local(cal::secs(2024, m, d, 0, 30, 0) + h * 3600).date());
        }
    }
    let steps = run.pick(4, 12);
    let n = starts.len();
    run.family("all intervals", product(&[n, 7, 256]), |i, case| {
        let mut d = Dec(i);
        let interval = d.take(256) as u8;
        let f = d.take(7);
        let start = *d.of(&starts);
        let rule = ikal::Recur { freq: freq(f), interval, ..Default::default() };
        walk(case, start, &rule, steps, (i % 3) as usize);
    });

    // every day of a leap and a common year, at hours that clocks skip or repeat
    let intervals = [0u8, 1, 2, 3, 4, 6, 7, 11, 12, 13, 24, 28, 29, 52, 60, 97, 100, 128, 254, 255];
    let hours: &[i64] = if run.thorough() { &[0, 1, 2, 3, 5, 10, 12, 13, 14, 15, 16, 23] } else { &[1, 15] };
    run.family("all days", product(&[731, hours.len() + 2, 7, intervals.len()]), |i, case| {
        let mut d = Dec(i);
        let interval = *d.of(&intervals);
        let f = d.take(7);
        let h = d.take(hours.len() + 2);
        let day = cal::days(2023, 1, 1) + d.take(731) as i64;
        let k = match h {
            0 => K::Day(day),
            1 => K::Naive(day * cal::DAY + 9000),
            h => K::Local(day * cal::DAY + hours[h - 2] * 3600 + 1800),
        };
        let rule = ikal::Recur { freq: freq(f), interval, ..Default::default() };
        walk(case, k.date(), &rule, run.pick(3, 8), (i % 3) as usize);
    });

    // long walks
    let few: Vec<ikal::Date> = starts.iter().copied().step_by(run.pick(5, 1)).collect();
    let long = run.pick(400, 3000);
    run.family("long walks", product(&[few.len(), 7, 5]), |i, case| {
        let mut d = Dec(i);
        let start = *d.of(&few);
        let f = d.take(7);
        let interval = [0u8, 1, 2, 48, 255][d.take(5)];
        let rule = ikal::Recur { freq: freq(f), interval, ..Default::default() };
        walk(case, start, &rule, long, (i % 3) as usize);
    });

    // with every other part of a rule present
    let parts = [
        "BYMONTHDAY=31", "BYMONTH=2", "BYDAY=MO,-1SU", "BYHOUR=0,23", "BYSETPOS=-1", "BYWEEKNO=53", "BYYEARDAY=-100", "BYSECOND=60", "WKST=SU", "UNTIL=20240301",
        "UNTIL=20240301T000000", "UNTIL=20240301T000000Z", "UNTIL=99991231T235959Z", "COUNT=0", "COUNT=1", "COUNT=255",
    ];
    run.family("other parts", product(&[parts.len(), 7, 4, n]), |i, case| {
        let mut d = Dec(i);
        let p = *d.of(&parts);
        let (f, iv) = (d.take(7), ["0", "1", "7", "255"][d.take(4)]);
        let start = *d.of(&starts);
        let s = format!("FREQ={};INTERVAL={iv};{p}", model::FREQS[f]);
        let Ok(Some(rule)) = imp(|| s.parse::<ikal::Recur>().ok()) else {
            case.fail(|| format!("rule {s:?} refused"));
            return;
        };
        walk(case, start, &rule, 3, (i % 3) as usize);
    });

    // components without rule or start yield nothing
    run.family("no rule", 3, |i, case| {
        case.steps(1);
        case.state(&i);
        case.validated();
        let r = imp(|| match i {
            0 => ikal::VEvent::default().recurrent().take(3).count(),
            1 => ikal::VTodo { rrule: Some(ikal::Recur::default()), ..Default::default() }.recurrent().take(3).count(),
            _ => ikal::VJournal::default().recurrent().take(3).count(),
        });
        // either nothing at all or the component itself
        if !matches!(r, Ok(0 | 1)) {
            case.fail(|| format!("{i}: {r:?} occurrences without a rule"));
        }
    });

    // all ways to ask for occurrences, at the ends of the calendar
    run.family("windows", product(&[n, 7, 3]), |i, case| {
        let mut d = Dec(i);
        let start = *d.of(&starts);
        let f = d.take(7);
        let interval = [1u8, 2, 255][d.take(3)];
        case.steps(3);
        case.state(&("window", i));
        case.validated();
        let c = ikal::VEvent {
            dtstart: start,
            rrule: Some(ikal::Recur { freq: freq(f), interval, count: Some(9), ..Default::default() }),
            ..Default::default()
        };
        let r = imp(|| {
            let all = c.recurrent().count();
            let after = c.recurrent().after(start).count();
            let upto = c.recurrent().between(start, start).count();
            (all, after, upto)
        });
        match r {
            Ok((a, b, 0)) if a == b && a >= 1 => (),
            r => case.fail(|| format!("windows of {} every {interval} from {start:?}: {r:?}", model::FREQS[f])),
        }
    });
    let _ = R::Ok(docs::base(Kind::Event));
}
