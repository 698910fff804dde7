//! C06 dates, C08 durations, C09 recurrence rules, C10 keywords and numbers, C21 structured values.

use super::{judge, roundtrip};
use crate::cal;
use crate::cli::Info;
use crate::docs;
use crate::engine::{Case, Dec, Run, concat_at, imp, product, string_at, strings_count};
use crate::model::{self, KINDS, Kind, Prop, R, Ty, Val};
use crate::obs;

// ---------------------------------------------------------------- entry points

/// A stand-alone parser of the library with its reference.
pub struct Entry {
    pub name: &'static str,
    pub model: fn(&str) -> R<Val>,
    pub parse: fn(&str) -> Option<Val>,
}

pub fn m_trigger(s: &str) -> R<Val> {
    match model::date_time(s) {
        R::Bad => model::macro_duration(s),
        x => x,
    }
}

fn m_freq(s: &str) -> R<Val> {
    model::keyword(s, &model::FREQS)
}

fn m_weekday(s: &str) -> R<Val> {
    model::keyword(s, &model::WEEKDAYS)
}

fn m_status(s: &str) -> R<Val> {
    model::keyword(s, &model::STATUSES)
}

fn m_transp(s: &str) -> R<Val> {
    model::keyword(s, &model::TRANSPS)
}

fn wdn((d, n): (usize, Option<i64>)) -> Val {
    Val::Line(Default::default(), format!("{n:?} {}", model::WEEKDAYS[d]))
}

fn m_wdn(s: &str) -> R<Val> {
    model::weekdaynum(s).map(wdn)
}

macro_rules! by_str {
    ($ty:ty, $f:expr) => {
        |s| {
            // all the ways in are the same function
            let a = s.parse::<$ty>().ok().map(|x| $f(&x));
            let b = <$ty>::try_from(s).ok().map(|x| $f(&x));
            let c = <$ty>::try_from(s.to_string()).ok().map(|x| $f(&x));
            if a != b || b != c {
                return Some(Val::Odd(format!("FromStr {a:?}, TryFrom<&str> {b:?}, TryFrom<String> {c:?}")));
            }
            a
        }
    };
}

pub const DATE: Entry = Entry {
    name: "Date",
    model: model::date_or_dt,
    parse: |s| s.parse::<ikal::Date>().ok().map(|x| obs::date(&x)),
};
pub const DATE_TIME: Entry = Entry {
    name: "DateTime",
    model: model::date_time,
    parse: |s| s.parse::<ikal::DateTime>().ok().map(|x| obs::date_time(&x)),
};
pub const DURATION: Entry = Entry {
    name: "parse_duration",
    model: model::macro_duration,
    parse: |s| ikal::parse_duration(s).ok().map(|x| obs::duration(&x)),
};
pub const TRIGGER: Entry = Entry {
    name: "Trigger",
    model: m_trigger,
    parse: |s| s.parse::<ikal::Trigger>().ok().map(|x| obs::trigger(&x)),
};
pub const PERIOD: Entry = Entry { name: "Period", model: model::period, parse: by_str!(ikal::Period, obs::period) };
pub const RECUR: Entry = Entry { name: "Recur", model: model::recur, parse: by_str!(ikal::Recur, obs::recur) };
pub const RSTATUS: Entry =
    Entry { name: "RequestStatus", model: model::rstatus, parse: by_str!(ikal::RequestStatus, obs::rstatus) };
pub const GEO: Entry = Entry { name: "Geo", model: model::geo, parse: by_str!(ikal::Geo, obs::geo) };
pub const CLASS: Entry = Entry { name: "Class", model: model::class, parse: by_str!(ikal::Class, obs::class) };
pub const STATUS: Entry = Entry { name: "Status", model: m_status, parse: by_str!(ikal::Status, obs::status) };
pub const TRANSP: Entry =
    Entry { name: "TimeTransparency", model: m_transp, parse: by_str!(ikal::TimeTransparency, obs::transp) };
pub const FREQ: Entry = Entry {
    name: "Freq",
    model: m_freq,
    parse: by_str!(ikal::Freq, |x| Val::Key(model::FREQS[obs::freq(x)].into())),
};
pub const WEEKDAY: Entry = Entry {
    name: "Weekday",
    model: m_weekday,
    parse: by_str!(ikal::Weekday, |x| Val::Key(model::WEEKDAYS[obs::weekday(x)].into())),
};
pub const WEEKDAYNUM: Entry =
    Entry { name: "WeekdayNum", model: m_wdn, parse: by_str!(ikal::WeekdayNum, |x| wdn(obs::weekdaynum(x))) };

pub const ENTRIES: [Entry; 14] = [
    DATE, DATE_TIME, DURATION, TRIGGER, PERIOD, RECUR, RSTATUS, GEO, CLASS, STATUS, TRANSP, FREQ, WEEKDAY, WEEKDAYNUM,
];

/// One text for one stand-alone parser.
pub fn alone(case: &mut Case, e: &Entry, s: &str) -> Option<Val> {
    let want = (e.model)(s);
    case.steps(1);
    case.state(&(e.name, &want));
    case.sample(|| format!("{} {s:?} => {want:?}", e.name));
    let got = imp(|| (e.parse)(s));
    match (want, got) {
        (R::Unspec, g) => {
            case.unspecified();
            g.ok().flatten()
        }
        (_, Err(p)) => {
            case.fail(|| format!("{} {s:?} {p}", e.name));
            None
        }
        (R::Bad, Ok(None)) => {
            case.validated();
            None
        }
        (R::Ok(w), Ok(Some(g))) if w == g => {
            case.validated();
            Some(g)
        }
        (w, Ok(g)) => {
            case.fail(|| format!("{} {s:?} gives {g:?}, means {w:?}", e.name));
            None
        }
    }
}

/// Where a type occurs in documents, with what comes before and after the value.
pub fn places(tys: &[Ty]) -> Vec<(Kind, String)> {
    let mut out = Vec::new();
    for k in KINDS {
        for p in k.props() {
            if tys.contains(&p.ty) {
                out.push((k, format!("{}:", p.name)));
            }
        }
    }
    out
}

pub fn in_doc(kind: Kind, line: String) -> String {
    let mut ls = docs::base(kind);
    ls.push(line);
    docs::doc(kind, &ls, "")
}

/// Every text at distance one.
/// Characters that something could take for one of the grammar: everything that is numeric, white
/// space, a control, or that changes into ASCII by a change of case or of width, and the lower planes.
pub fn odd_chars() -> Vec<char> {
    (0..0x11_0000u32)
        .filter_map(char::from_u32)
        .filter(|c| {
            let n = u32::from(*c);
            n < 0x250 || c.is_numeric() || c.is_whitespace() || c.is_control() || (0xff00..0xff70).contains(&n) || (0x2000..0x2070).contains(&n)
                || c.to_uppercase().chain(c.to_lowercase()).any(|x| x.is_ascii()) || n & 0xfffe == 0xfffe || (0x200..0x2600).contains(&n) && n.is_multiple_of(256)
        })
        .collect()
}

/// Every odd character before, after and instead of each character of values, alone and in documents.
fn any_char(run: &Run, values: &[(Option<&Entry>, &[(Kind, &str)], &[&str])]) {
    let odd = odd_chars();
    let all: Vec<(Option<&Entry>, &[(Kind, &str)], &str)> = values.iter().flat_map(|(e, d, ts)| ts.iter().map(move |t| (*e, *d, *t))).collect();
    let most = all.iter().map(|x| x.2.chars().count()).max().unwrap_or(0) + 1;
    run.family("odd characters", product(&[odd.len(), all.len(), most, 2]), |i, case| {
        let mut d = Dec(i);
        let c = *d.of(&odd);
        let (entry, spots, text) = *d.of(&all);
        let (at, instead) = (d.take(most), d.take(2));
        let cs: Vec<char> = text.chars().collect();
        if at + instead > cs.len() {
            return;
        }
        let s: String = cs[..at].iter().chain([&c]).chain(&cs[at + instead..]).collect();
        if let Some(e) = entry
            && (run.zone == "UTC" || !s.ends_with('Z'))
        {
            alone(case, e, &s);
        }
        for (k, p) in spots {
            judge(case, *k, &in_doc(*k, format!("{p}{s}")), 1);
        }
    });
}

pub fn edits(s: &str, alphabet: &[&str]) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut out = std::collections::BTreeSet::new();
    let put = |a: &[char], m: &str, b: &[char]| -> String {
        a.iter().collect::<String>() + m + &b.iter().collect::<String>()
    };
    for i in 0..=cs.len() {
        for a in alphabet {
            out.insert(put(&cs[..i], a, &cs[i..]));
        }
        if i < cs.len() {
            out.insert(put(&cs[..i], "", &cs[i + 1..]));
            out.insert(put(&cs[..i], &cs[i].to_string(), &cs[i..]));
            for a in alphabet {
                out.insert(put(&cs[..i], a, &cs[i + 1..]));
            }
        }
        if i + 1 < cs.len() {
            out.insert(put(&cs[..i], &format!("{}{}", cs[i + 1], cs[i]), &cs[i + 2..]));
        }
        out.insert(put(&cs[..i], "", &[]));
        out.insert(put(&cs[i..], "", &[]));
    }
    out.insert(s.to_string());
    out.into_iter().collect()
}

// ---------------------------------------------------------------- C06

pub const C06: Info = Info {
    id: "C06",
    zones: &["UTC"],
    more_zones: &["America/New_York"],
    rule: "every day number of every month number of every year 0000 to 9999, every time of day, every single-character edit of representative texts, and every short suffix, for the stand-alone types and for every property that holds a date",
    assumptions: &["a 60th second is left open", "UTC times in other zones are judged by C07"],
    run: c06,
};

fn print_back(case: &mut Case, s: &str) {
    let r = imp(|| {
        let d: ikal::Date = s.parse().ok()?;
        let dt = s.parse::<ikal::DateTime>().ok();
        Some((d, dt, d.to_string(), ikal::ser::ical(&d).ok(), dt.map(|x| x.to_string()), dt.map(|x| ikal::ser::ical(&x).ok())))
    });
    match r {
        Ok(Some((d, dt, p, i, q, j))) => {
            let i_want = if d.has_time() { s.to_string() } else { format!("VALUE=DATE:{s}") };
            let same = p == s
                && i.as_deref() == Some(i_want.as_str())
                && q.as_deref().is_none_or(|x| x == s)
                && j.flatten().as_deref().is_none_or(|x| x == s)
                && d.has_time() == dt.is_some();
            if !same {
                case.fail(|| format!("{s:?} is printed as {p:?}, {i:?} or {q:?}"));
            }
            // the accessors agree
            let day = &s[..8];
            let f = d.date_naive().format("%Y%m%d").to_string();
            let g = d.format("%Y%m%d").to_string();
            if f != day || g != day || dt.is_some_and(|x| x.date_naive().format("%Y%m%d").to_string() != day) {
                case.fail(|| format!("{s:?} is the day {f} or {g}"));
            }
            if let Some(dt) = dt {
                let f = dt.naive().format("%Y%m%dT%H%M%S").to_string();
                let g = dt.format("%Y%m%dT%H%M%S").to_string();
                if f != s[..15] || g != s[..15] {
                    case.fail(|| format!("{s:?} is the time {f} or {g}"));
                }
            }
            case.validated();
        }
        Ok(None) => (),
        Err(p) => case.fail(|| format!("{s:?} {p}")),
    }
}

fn c06(run: &Run) {
    let utc = run.zone == "UTC";

    // every day
    if run.thorough() {
        run.family("all eight digits", 10_000 * 10_000, |i, case| {
            alone(case, &DATE, &format!("{i:08}"));
        });
    }
    run.family("days", 10_000 * 14 * 33, |i, case| {
        let mut d = Dec(i);
        let (day, month, year) = (d.take(33), d.take(14), d.take(10_000));
        let s = format!("{year:04}{month:02}{day:02}");
        if alone(case, &DATE, &s).is_some() {
            print_back(case, &s);
        }
        let t = format!("{s}T235959");
        if alone(case, &DATE_TIME, &t).is_some() && (day == 1 || day >= 28) {
            print_back(case, &t);
        }
    });
    // in documents: every day number of some years
    let years = [0, 1, 1582, 1600, 1900, 1970, 1999, 2000, 2023, 2024, 2038, 2100, 2400, 9999];
    run.family("days in properties", product(&[years.len(), 14, 33]), |i, case| {
        let mut d = Dec(i);
        let (year, month, day) = (*d.of(&years), d.take(14), d.take(33));
        let s = format!("{year:04}{month:02}{day:02}");
        let text = docs::in_calendar(&format!(
            "BEGIN:VEVENT\r\nDTSTAMP:{s}T000000\r\nUID:1\r\nDTSTART:{s}\r\nDTEND:{s}T235959\r\nEXDATE:{s},{s}T010101\r\nRDATE:{s}\r\nRRULE:FREQ=DAILY;UNTIL={s}\r\nEND:VEVENT\r\n"
        ));
        judge(case, Kind::Calendar, &text, 7);
        for l in [format!("DTSTART:{s}"), format!("EXDATE:20240101,{s}"), format!("RRULE:FREQ=DAILY;UNTIL={s}T000000")] {
            judge(case, Kind::Event, &in_doc(Kind::Event, l), 1);
        }
    });

    // every time of day
    let days = ["20240229", "19700101", "00010101", "99991231"];
    run.family("times of day", product(&[days.len(), 26, 62, 62, 2]), |i, case| {
        let mut d = Dec(i);
        let day = d.of(&days);
        let (h, m, s, z) = (d.take(26), d.take(62), d.take(62), d.take(2));
        let t = format!("{day}T{h:02}{m:02}{s:02}{}", if z == 1 { "Z" } else { "" });
        if z == 1 && !utc {
            return;
        }
        let a = alone(case, &DATE_TIME, &t);
        alone(case, &DATE, &t);
        if a.is_some() {
            print_back(case, &t);
        }
    });
    run.family("times of day in properties", product(&[26, 62, 62, 2]), |i, case| {
        let mut d = Dec(i);
        let (h, m, s, z) = (d.take(26), d.take(62), d.take(62), d.take(2));
        let t = format!("20240229T{h:02}{m:02}{s:02}{}", if z == 1 { "Z" } else { "" });
        judge(case, Kind::Event, &in_doc(Kind::Event, format!("CREATED:{t}")), 1);
    });

    // close texts, everywhere
    let alphabet: &[&str] = &[
        "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "T", "Z", "t", "z", "-", "+", ":", " ", ".", "/", "P", "W",
        "\u{e9}", "\u{663}", ",", ";", "\t",
    ];
    let mut texts: Vec<String> = Vec::new();
    for s in [
        "20240229", "20240229T235959", "19991231T000000Z", "00010101", "99991231T235959Z", "20231005T101010", "20240131T200000Z",
    ] {
        texts.extend(edits(s, alphabet));
    }
    texts.sort();
    texts.dedup();
    let n = texts.len();
    run.family("close texts", n as u64, |i, case| {
        let s = &texts[i as usize];
        if s.ends_with('Z') && !utc {
            return;
        }
        alone(case, &DATE, s);
        alone(case, &DATE_TIME, s);
    });
    let mut spots = places(&[Ty::Dt, Ty::Date, Ty::DateList, Ty::RDate, Ty::Trigger]);
    spots.push((Kind::Event, "RRULE:FREQ=DAILY;UNTIL=".into()));
    spots.push((Kind::Freebusy, "FREEBUSY:20240101T000000/".into()));
    spots.push((Kind::Event, "RDATE;VALUE=PERIOD:20240101T000000Z/".into()));
    spots.push((Kind::Todo, "DTSTART;VALUE=DATE:".into()));
    spots.push((Kind::Todo, "DUE;VALUE=DATE-TIME:".into()));
    spots.push((Kind::Journal, "DTSTART;TZID=Europe/Paris:".into()));
    run.family("close texts in properties", product(&[n, spots.len()]), |i, case| {
        let mut d = Dec(i);
        let (k, p) = d.of(&spots);
        let s = d.of(&texts);
        if s.contains([';', ':']) {
            return;
        }
        judge(case, *k, &in_doc(*k, format!("{p}{s}")), 1);
    });

    // every short continuation
    let alphabet: &[&str] = &["0", "2", "5", "6", "T", "Z", "-", " "];
    let max = run.pick(6, 7);
    for s in ["20240229T", "20240229T235", "2024022", "19990101T000000"] {
        let max = if s.len() == 15 { 5 } else { max };
        run.family(&format!("continuations of {s}"), strings_count(alphabet.len(), 0, max), |i, case| {
            let (t, _) = concat_at(alphabet, 0, i);
            let s = format!("{s}{t}");
            if s.ends_with('Z') && !utc {
                return;
            }
            alone(case, &DATE, &s);
            alone(case, &DATE_TIME, &s);
        });
    }
    let alphabet: &[&str] = &["2024", "02", "29", "T", "Z", "12", "-"];
    run.family("assembled texts", strings_count(alphabet.len(), 0, run.pick(7, 8)), |i, case| {
        let (s, _) = concat_at(alphabet, 0, i);
        if s.ends_with('Z') && !utc {
            return;
        }
        alone(case, &DATE, &s);
    });
    use Kind::*;
    any_char(run, &[
        (Some(&DATE), &[(Event, "DTSTART;VALUE=DATE:"), (Todo, "EXDATE:")], &["20240229"]),
        (Some(&DATE_TIME), &[(Event, "DTSTAMP:"), (Todo, "DUE:"), (Journal, "RRULE:FREQ=DAILY;UNTIL="), (Event, "RDATE:")], &["20240229T235958"]),
        (Some(&DATE), &[(Freebusy, "DTSTART:"), (Audio, "TRIGGER;VALUE=DATE-TIME:")], &["19991231T000000Z"]),
    ]);

}

// ---------------------------------------------------------------- C08

pub const C08: Info = Info {
    id: "C08",
    zones: &["UTC"],
    more_zones: &[],
    rule: "every subset of designators x sign x boundary numbers, every short text over the duration alphabet, for durations in properties, triggers, periods and macros; every number of seconds of a range printed and read back",
    assumptions: &["durations without any part, and years and months in macros, are left open"],
    run: c08,
};

fn c08(run: &Run) {
    let spots = [(Kind::Event, "DURATION:"), (Kind::Display, "TRIGGER:"), (Kind::Todo, "DURATION:"), (Kind::Email, "DURATION:")];

    // every short text
    let alphabet: &[&str] = &["P", "T", "W", "D", "H", "M", "S", "1", "20", "+", "-"];
    let n = strings_count(alphabet.len(), 0, run.pick(5, 6));
    for head in ["", "P1", "PT1", "-P"] {
        run.family(&format!("texts after {head:?}"), n, |i, case| {
            let (t, _) = concat_at(alphabet, 0, i);
            let s = format!("{head}{t}");
            alone(case, &DURATION, &s);
            alone(case, &TRIGGER, &s);
            let (k, p) = spots[i as usize % spots.len()];
            judge(case, k, &in_doc(k, format!("{p}{s}")), 1);
        });
    }
    let deep: &[&str] = &["1", "W", "D", "T", "H", "M", "S"];
    run.family("designators", strings_count(deep.len(), 0, run.pick(7, 8)), |i, case| {
        let (t, _) = concat_at(deep, 0, i);
        let s = format!("P{t}");
        alone(case, &DURATION, &s);
        if run.thorough() || i % 8 == 0 {
            judge(case, Kind::Event, &in_doc(Kind::Event, format!("DURATION:{s}")), 1);
        }
    });

    // every combination of parts
    let numbers: &[Option<&str>] = &[
        None, Some("0"), Some("1"), Some("00"), Some("7"), Some("59"), Some("60"), Some("61"), Some("007"), Some("1000000"),
    ];
    let signs = ["", "+", "-"];
    let k = numbers.len();
    let text = |d: &mut Dec, numbers: &[Option<&str>]| {
        let mut s = format!("{}P", d.of(&signs));
        for u in ["W", "D"] {
            if let Some(n) = d.of(numbers) {
                s.push_str(n);
                s.push_str(u);
            }
        }
        let mut t = String::new();
        for u in ["H", "M", "S"] {
            if let Some(n) = d.of(numbers) {
                t.push_str(n);
                t.push_str(u);
            }
        }
        if !t.is_empty() {
            s.push('T');
            s.push_str(&t);
        }
        s
    };
    run.family("sums of parts", product(&[3, k, k, k, k, k]), |i, case| {
        let mut d = Dec(i);
        let s = text(&mut d, numbers);
        alone(case, &DURATION, &s);
        if run.thorough() || i % 4 == 0 {
            alone(case, &TRIGGER, &s);
            let (k, p) = spots[(i / 4) as usize % spots.len()];
            judge(case, k, &in_doc(k, format!("{p}{s}")), 1);
        }
        if run.thorough() || i % 16 == 0 {
            let s = format!("20240101T000000Z/{}", s.trim_start_matches(['+', '-']));
            alone(case, &PERIOD, &s);
            judge(case, Kind::Freebusy, &in_doc(Kind::Freebusy, format!("FREEBUSY:{s}")), 1);
        }
    });
    // around the limits of representation
    let limit = model::MAX_DUR;
    let mut big: Vec<String> = Vec::new();
    for unit in [1, 60, 3600, 86_400, 604_800] {
        for d in -2..=2 {
            big.push((limit / unit + d).to_string());
        }
    }
    for x in [u128::from(u32::MAX), i64::MAX as u128, u128::from(u64::MAX), 1 << 31, 1 << 32, i64::MAX as u128 / 604_800] {
        for d in 0..=2 {
            big.push((x + d - 1).to_string());
        }
    }
    big.push("9".repeat(30));
    big.push("0".repeat(30) + "1");
    let mut numbers: Vec<Option<&str>> = vec![None, Some("1")];
    numbers.extend(big.iter().map(|x| Some(x.as_str())));
    let k = numbers.len();
    // at most two large parts
    run.family("sums near the limits", product(&[3, 5, 5, k, k]), |i, case| {
        let mut d = Dec(i);
        let sign = d.of(&signs);
        let (a, b) = (d.take(5), d.take(5));
        if a >= b {
            return;
        }
        let (x, y) = (d.of(&numbers).unwrap_or("0"), d.of(&numbers).unwrap_or("0"));
        let mut s = format!("{sign}P");
        for (u, name) in ["W", "D", "H", "M", "S"].iter().enumerate() {
            if u >= 2 && !s.contains('T') && (a == u || b == u) {
                s.push('T');
            }
            if u == a {
                s.push_str(&format!("{x}{name}"));
            }
            if u == b {
                s.push_str(&format!("{y}{name}"));
            }
        }
        alone(case, &DURATION, &s);
        alone(case, &TRIGGER, &s);
        judge(case, Kind::Event, &in_doc(Kind::Event, format!("DURATION:{s}")), 2);
    });

    // every number for every unit
    let top = run.pick(1000u64, 100_000);
    run.family("numbers", top * 5 * 2, |i, case| {
        let mut d = Dec(i);
        let (u, z) = (d.take(5), d.take(2));
        let s = format!("{}P{}{}{}", ["", "-"][z], if u >= 2 { "T" } else { "" }, d.0, ["W", "D", "H", "M", "S"][u]);
        alone(case, &DURATION, &s);
        judge(case, Kind::Todo, &in_doc(Kind::Todo, format!("DURATION:{s}")), 1);
    });

    // printing
    let span = run.pick(100_000i64, 1_000_000);
    let at: Vec<i64> = vec![
        0, span * 3, 31_536_000, i64::from(i32::MAX), i64::from(u32::MAX), 604_800 * 1000, limit as i64 - span,
        -(limit as i64) + span,
    ];
    run.family("printed durations", at.len() as u64 * (2 * span as u64 + 1), |i, case| {
        let mut d = Dec(i);
        let secs = *d.of(&at) + d.0 as i64 - span;
        let Some(delta) = chrono::TimeDelta::try_seconds(secs) else { return };
        case.steps(1);
        match imp(|| {
            let s = ikal::ser::ical(&delta).ok()?;
            let back = ikal::parse_duration(&s).ok().map(|x| obs::duration(&x));
            Some((s, back))
        }) {
            Ok(Some((s, back))) => {
                case.validated();
                if back != Some(Val::Dur(secs)) {
                    case.fail(|| format!("{secs} s printed as {s:?}, read back as {back:?}"));
                }
                if model::duration(&s) != R::Ok(Val::Dur(secs)) {
                    case.fail(|| format!("{secs} s printed as {s:?}"));
                }
                if i % 64 == 0 {
                    case.state(&secs);
                    let text = in_doc(Kind::Display, format!("DURATION:{s}\r\nTRIGGER:{s}"));
                    if let Some((any, _)) = judge(case, Kind::Display, &text, 1) {
                        roundtrip(case, Kind::Display, &any);
                    }
                }
            }
            x => case.fail(|| format!("{secs} s: {x:?}")),
        }
    });
    use Kind::*;
    any_char(run, &[
        (Some(&DURATION), &[(Event, "DURATION:"), (Audio, "DURATION:")], &["P1W2D", "-PT10H20M30S", "+P1DT2S", "P15DT5H0M20S"]),
        (Some(&TRIGGER), &[(Audio, "TRIGGER:"), (Display, "TRIGGER;RELATED=END:")], &["-PT15M", "P1W"]),
        (None, &[(Freebusy, "FREEBUSY:20240101T000000/")], &["PT1H", "P1DT2M"]),
    ]);

}

// ---------------------------------------------------------------- C09

pub const C09: Info = Info {
    id: "C09",
    zones: &["UTC"],
    more_zones: &["America/New_York"],
    rule: "every subset of rule parts in every rotation, every permutation of up to four parts, every value of each part, every single corruption and single-character edit; each accepted rule serialised and read back",
    assumptions: &["repeated and unknown parts, lower-case keywords and values the RFC forbids but the field holds are left open"],
    run: c09,
};

fn rule(case: &mut Case, s: &str, utc: bool) {
    let z = s.contains('Z') && !utc;
    let got = if z { None } else { alone(case, &RECUR, s) };
    if got.is_some() {
        // encode and decode again
        let r = imp(|| {
            let a: ikal::Recur = s.parse().ok()?;
            let t = ikal::ser::ical(&a).ok()?;
            let b = t.parse::<ikal::Recur>().ok();
            Some((b.as_ref() == Some(&a), t, b.map(|x| obs::recur(&x))))
        });
        match r {
            Ok(Some((true, t, b))) => {
                let again = model::recur(&t);
                if b != got || again == R::Bad || matches!(again, R::Ok(x) if Some(&x) != got.as_ref()) {
                    case.fail(|| format!("{s:?} is written as {t:?}"));
                }
            }
            r => case.fail(|| format!("{s:?} doesn't survive serialisation: {r:?}")),
        }
    }
}

fn rule_in_docs(case: &mut Case, s: &str, which: u64) {
    let places = [
        (Kind::Event, docs::base(Kind::Event)),
        (Kind::Todo, docs::base(Kind::Todo)),
        (Kind::Journal, docs::base(Kind::Journal)),
        (Kind::Standard, docs::base(Kind::Standard)),
        (Kind::Daylight, docs::base(Kind::Daylight)),
    ];
    let (k, mut ls) = places[which as usize % 5].clone();
    ls.push(format!("RRULE:{s}"));
    if let Some((any, o)) = judge(case, k, &docs::doc(k, &ls, ""), 1)
        && o.fields.contains_key("rrule")
    {
        roundtrip(case, k, &any);
    }
}

fn c09(run: &Run) {
    let utc = run.zone == "UTC";
    let parts: [&[&str]; 13] = [
        &["FREQ=DAILY", "FREQ=SECONDLY", "FREQ=MINUTELY", "FREQ=HOURLY", "FREQ=WEEKLY", "FREQ=MONTHLY", "FREQ=YEARLY"],
        &["UNTIL=20240229", "UNTIL=20300101T101112", "UNTIL=19971224T000000Z"],
        &["COUNT=10", "COUNT=1", "COUNT=255"],
        &["INTERVAL=2", "INTERVAL=1", "INTERVAL=255"],
        &["BYSECOND=0,59"],
        &["BYMINUTE=1,58,3"],
        &["BYHOUR=9", "BYHOUR=0,23"],
        &["BYDAY=MO", "BYDAY=-1SU,2MO,FR", "BYDAY=+1TU,WE,TH,SA"],
        &["BYMONTHDAY=-31,31", "BYMONTHDAY=1"],
        &["BYYEARDAY=-100,1,100"],
        &["BYWEEKNO=20,-53"],
        &["BYMONTH=1,12"],
        &["BYSETPOS=-1,2"],
    ];
    let last = ["WKST=SU", "WKST=MO", "WKST=SA"];
    let all: Vec<Vec<&str>> = parts.iter().map(|x| x.to_vec()).chain([last.to_vec()]).collect();
    let k = all.len();

    // subsets, in every rotation and reversed
    run.family("subsets", (1u64 << k) * run.pick(4, k as u64) * 2, |i, case| {
        let mut d = Dec(i);
        let set = d.take(1 << k);
        let rev = d.take(2);
        let rot = d.0 as usize;
        let mut ps: Vec<&str> =
            (0..k).filter(|b| set >> b & 1 == 1).map(|b| all[b][(set + b + rot) % all[b].len()]).collect();
        if ps.is_empty() || rot >= ps.len() {
            return;
        }
        if rev == 1 {
            ps.reverse();
        }
        ps.rotate_left(rot);
        let s = ps.join(";");
        rule(case, &s, utc);
        rule_in_docs(case, &s, i);
    });

    // permutations of few parts, all values
    let flat: Vec<&str> = all.iter().flatten().copied().collect();
    let n = flat.len();
    for len in 1..=run.pick(3u32, 4) {
        run.family(&format!("sequences of {len} parts"), (n as u64).pow(len) * (u64::from(len) + 1), |i, case| {
            let mut d = Dec(i);
            let mut ps: Vec<&str> = (0..len).map(|_| *d.of(&flat)).collect();
            let at = d.0 as usize;
            // with FREQ at every place
            if !ps.iter().any(|x| x.starts_with("FREQ")) {
                ps.insert(at, "FREQ=WEEKLY");
            } else if at > 0 {
                return;
            }
            let s = ps.join(";");
            rule(case, &s, utc);
        });
    }

    // every value of every part
    let lists = ["BYSECOND", "BYMINUTE", "BYHOUR", "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO", "BYMONTH", "BYSETPOS"];
    run.family("numbers of lists", 8 * 1000 * 4, |i, case| {
        let mut d = Dec(i);
        let l = *d.of(&lists);
        let form = d.take(4);
        let n = d.0 as i64 - 500;
        let v = match form {
            0 => n.to_string(),
            1 => format!("1,{n}"),
            2 => format!("{n},1,{n}"),
            _ => format!("{}{:02}", if n < 0 { "-" } else { "+" }, n.abs()),
        };
        let s = format!("FREQ=YEARLY;{l}={v}");
        rule(case, &s, utc);
        rule_in_docs(case, &s, i / 4);
    });
    run.family("pairs of numbers", 8 * 60 * 60, |i, case| {
        let mut d = Dec(i);
        let l = *d.of(&lists);
        let (a, b) = (d.take(60) as i64 - 30, d.take(60) as i64 - 30);
        rule(case, &format!("FREQ=YEARLY;{l}={a},{b};COUNT=2"), utc);
    });
    run.family("long lists", 8 * 150, |i, case| {
        let mut d = Dec(i);
        let l = d.take(8);
        let (lo, hi, zero) = model::BY_RANGE[l];
        let vs: Vec<String> = (0..d.0 as i64)
            .map(|x| lo.max(-128) + x % (hi.min(127) - lo.max(-128) + 1))
            .map(|x| if x == 0 && !zero { 1 } else { x })
            .map(|x| x.to_string())
            .collect();
        let s = if vs.is_empty() { "FREQ=DAILY".to_string() } else { format!("FREQ=DAILY;{}={}", model::BYS[l], vs.join(",")) };
        rule(case, &s, utc);
        rule_in_docs(case, &s, i);
    });
    run.family("weekday numbers", 9 * 600, |i, case| {
        let mut d = Dec(i);
        let w = d.take(9);
        let n = d.0 as i64 - 300;
        let day = ["SU", "MO", "TU", "WE", "TH", "FR", "SA", "XX", ""][w];
        for v in [format!("{n}{day}"), format!("+{n}{day}"), format!("{day}{n}"), format!("{n:03}{day}"), format!("{n} {day}")] {
            alone(case, &WEEKDAYNUM, &v);
            rule(case, &format!("BYDAY={v};FREQ=MONTHLY"), utc);
            rule(case, &format!("FREQ=MONTHLY;BYDAY=TU,{v},1MO;WKST=SU"), utc);
            // printed back
            if let (Ok(Some(t)), R::Ok(_)) =
                (imp(|| v.parse::<ikal::WeekdayNum>().ok().map(|x| (x.to_string(), ikal::ser::ical(&x).ok()))), model::weekdaynum(&v))
                && (model::weekdaynum(&t.0) != model::weekdaynum(&v) || t.1 != Some(t.0.clone()))
            {
                case.fail(|| format!("{v} is printed as {t:?}"));
            }
        }
    });
    run.family("counts and intervals", 2 * 1200 * 3, |i, case| {
        let mut d = Dec(i);
        let p = ["COUNT", "INTERVAL"][d.take(2)];
        let form = d.take(3);
        let n = d.0 as i64 - 100;
        let v = match form {
            0 => n.to_string(),
            1 => format!("{n:05}"),
            _ => format!("{n} "),
        };
        let s = format!("FREQ=DAILY;{p}={v}");
        rule(case, &s, utc);
        rule_in_docs(case, &s, i);
    });
    run.family("intervals x counts", 257 * 257, |i, case| {
        let mut d = Dec(i);
        let (a, b) = (d.take(257), d.take(257));
        rule(case, &format!("COUNT={a};INTERVAL={b};FREQ=HOURLY"), utc);
    });
    let letters: Vec<String> = (b'A'..=b'Z').map(|x| (x as char).to_string()).collect();
    run.family("all two-letter days", 26 * 26 * 2, |i, case| {
        let mut d = Dec(i);
        let w = letters[d.take(26)].clone() + &letters[d.take(26)];
        alone(case, &WEEKDAY, &w);
        alone(case, &WEEKDAYNUM, &w);
        alone(case, &WEEKDAYNUM, &format!("2{w}"));
        let s = if d.take(2) == 0 { format!("FREQ=WEEKLY;WKST={w}") } else { format!("FREQ=WEEKLY;BYDAY=MO,{w}") };
        rule(case, &s, utc);
    });
    let ends = ["20240229", "20230229", "20240229T000000", "20240229T000000Z", "20240229T246060", "20240229Z", "", "x", "2024022", "99991231T235959Z"];
    run.family("ends", ends.len() as u64 * 7 * 3, |i, case| {
        let mut d = Dec(i);
        let (e, f) = (d.of(&ends), *d.of(&model::FREQS));
        let s = match d.take(3) {
            0 => format!("FREQ={f};UNTIL={e}"),
            1 => format!("UNTIL={e};INTERVAL=3;FREQ={f}"),
            _ => format!("FREQ={f};UNTIL={e};BYMONTH=2;WKST=TU"),
        };
        rule(case, &s, utc);
        rule_in_docs(case, &s, i);
    });

    // corruptions
    let alphabet: &[&str] = &["0", "1", "9", "A", "O", "S", "Y", "T", "Z", "-", "+", "=", ";", ",", " ", ".", "\u{e9}", ":", "\""];
    let mut texts: Vec<String> = Vec::new();
    for s in [
        "FREQ=DAILY",
        "FREQ=MONTHLY;INTERVAL=3;COUNT=7;BYDAY=-1SU,2MO,FR;WKST=MO",
        "UNTIL=20301231T000000Z;FREQ=YEARLY;BYMONTH=1,12;BYSETPOS=-1",
        "FREQ=SECONDLY;BYSECOND=0;BYMINUTE=10;BYHOUR=20;BYMONTHDAY=1;BYYEARDAY=100;BYWEEKNO=20",
        "INTERVAL=10;UNTIL=20240101;FREQ=WEEKLY",
    ] {
        texts.extend(edits(s, alphabet));
    }
    texts.sort();
    texts.dedup();
    run.family("close texts", texts.len() as u64, |i, case| {
        let s = &texts[i as usize];
        rule(case, s, utc);
        rule_in_docs(case, s, i);
    });
    let alphabet: &[&str] = &["FREQ", "COUNT", "BYDAY", "=", ";", "DAILY", "1", "MO", ","];
    run.family("assembled rules", strings_count(alphabet.len(), 0, run.pick(6, 7)), |i, case| {
        let (s, _) = concat_at(alphabet, 0, i);
        rule(case, &s, utc);
    });
    use Kind::*;
    any_char(run, &[(Some(&RECUR), &[(Event, "RRULE:"), (Standard, "RRULE:")], &[
        "FREQ=WEEKLY;INTERVAL=12;COUNT=3",
        "UNTIL=20240101;FREQ=DAILY",
        "FREQ=YEARLY;BYDAY=-1MO,20SU,TU;WKST=WE",
        "FREQ=MONTHLY;BYMONTHDAY=1,-1;BYSETPOS=2;BYHOUR=0,23",
    ])]);

}

// ---------------------------------------------------------------- C10

pub const C10: Info = Info {
    id: "C10",
    zones: &["UTC"],
    more_zones: &[],
    rule: "every keyword and every text at distance one of it (two in the thorough tier), stand-alone and in every component that has the property; every number around every bound in every numeric property",
    assumptions: &["letter case and explicit plus signs are left open"],
    run: c10,
};

fn keyword_back(case: &mut Case, e: &Entry, s: &str) {
    let printed = imp(|| -> Option<(String, Option<String>)> {
        macro_rules! p {
            ($ty:ty) => {
                s.parse::<$ty>().ok().map(|x| (x.to_string(), ikal::ser::ical(&x).ok()))
            };
        }
        match e.name {
            "Class" => s.parse::<ikal::Class>().ok().map(|x| (x.to_string(), Some(x.to_string()))),
            "Status" => p!(ikal::Status),
            "TimeTransparency" => p!(ikal::TimeTransparency),
            "Freq" => p!(ikal::Freq),
            "Weekday" => p!(ikal::Weekday),
            _ => None,
        }
    });
    if printed != Ok(Some((s.to_string(), Some(s.to_string())))) {
        case.fail(|| format!("{} {s:?} is printed as {printed:?}", e.name));
    }
}

fn c10(run: &Run) {
    let alphabet: Vec<String> = (b'A'..=b'Z').chain(b'0'..=b'9').map(|x| (x as char).to_string()).collect();
    let mut alphabet: Vec<&str> = alphabet.iter().map(String::as_str).collect();
    alphabet.extend(["-", " ", "_", "\u{e9}", "\u{131}", ","]);

    let sets: [(&Entry, &[&str], Ty); 3] =
        [(&STATUS, &model::STATUSES, Ty::Status), (&CLASS, &model::CLASSES, Ty::Class), (&TRANSP, &model::TRANSPS, Ty::Transp)];
    for (e, words, ty) in sets {
        let spots = places(&[ty]);
        let mut texts: Vec<String> = words.iter().flat_map(|w| edits(w, &alphabet)).collect();
        for w in words.iter().flat_map(|a| words.iter().map(move |b| format!("{a}{b}"))) {
            texts.push(w);
        }
        for other in model::STATUSES.iter().chain(&model::CLASSES).chain(&model::TRANSPS).chain(&model::FREQS).chain(&model::ACTIONS) {
            texts.push((*other).to_string());
            texts.push(other.to_lowercase());
        }
        texts.sort();
        texts.dedup();
        run.family(&format!("{} keywords", e.name), product(&[texts.len(), spots.len()]), |i, case| {
            let mut d = Dec(i);
            let (k, p) = d.of(&spots);
            let s = d.of(&texts);
            alone(case, e, s);
            if words.contains(&s.as_str()) {
                keyword_back(case, e, s);
            }
            if let Some((any, o)) = judge(case, *k, &in_doc(*k, format!("{p}{s}")), 1)
                && words.contains(&s.as_str())
            {
                // serialised as the same keyword
                let line = format!("\r\n{p}{s}\r\n");
                let t = imp(|| any.ical().ok()).ok().flatten().unwrap_or_default();
                if !t.contains(&line) {
                    case.fail(|| format!("{p}{s} of {o:?} is serialised as {t:?}"));
                }
            }
        });
        if run.thorough() {
            for w in words {
                let near = edits(w, &["A", "E", "N", "T", "-", " ", "D", "S"]);
                run.family(&format!("{w} at distance two"), near.len() as u64, |i, case| {
                    for t in edits(&near[i as usize], &["A", "E", "N", "T", "-", " ", "D", "S"]) {
                        alone(case, e, &t);
                    }
                });
            }
        }
    }
    for (e, words) in [(&FREQ, &model::FREQS[..]), (&WEEKDAY, &model::WEEKDAYS)] {
        let mut texts: Vec<String> = words.iter().flat_map(|w| edits(w, &alphabet)).collect();
        texts.extend(words.iter().flat_map(|a| words.iter().map(move |b| format!("{a}{b}"))));
        texts.sort();
        texts.dedup();
        run.family(&format!("{} keywords", e.name), texts.len() as u64, |i, case| {
            let s = &texts[i as usize];
            alone(case, e, s);
            if words.contains(&s.as_str()) {
                keyword_back(case, e, s);
            }
            let r = if e.name == "Freq" { format!("FREQ={s};COUNT=3") } else { format!("FREQ=DAILY;WKST={s}") };
            rule(case, &r, true);
            rule_in_docs(case, &r, i);
        });
        if run.thorough() {
            for w in words {
                let near = edits(w, &alphabet);
                run.family(&format!("{w} at distance two"), near.len() as u64, |i, case| {
                    for t in edits(&near[i as usize], &["A", "I", "L", "Y", " ", "M", "S"]) {
                        alone(case, e, &t);
                    }
                });
            }
        }
    }

    // alarm actions, with and without what the other kinds of alarm require
    let mut texts: Vec<String> = model::ACTIONS.iter().flat_map(|w| edits(w, &alphabet)).collect();
    texts.sort();
    texts.dedup();
    run.family("actions", product(&[texts.len(), 3, 2]), |i, case| {
        let mut d = Dec(i);
        let s = d.of(&texts);
        let mut ls = vec!["TRIGGER:-PT1M".to_string()];
        let form = d.take(3);
        if form > 0 {
            ls.push("DESCRIPTION:d".into());
        }
        if form > 1 {
            ls.push("SUMMARY:s".into());
            ls.push("ATTENDEE:mailto:a@b".into());
        }
        if d.take(2) == 0 {
            ls.insert(0, format!("ACTION:{s}"));
        } else {
            ls.push(format!("ACTION;X-P=1:{s}"));
        }
        let t = docs::doc(Kind::Audio, &ls, "");
        judge(case, Kind::Audio, &t, 1);
        judge(case, Kind::Event, &docs::doc(Kind::Event, &docs::base(Kind::Event), &t), 1);
    });

    // numbers
    let mut texts: Vec<String> = Vec::new();
    for n in 0..=1100u64 {
        texts.push(n.to_string());
    }
    for n in [1u64 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 63, u64::MAX - 2, 10_000_000_000, 99_999_999_999] {
        for d in 0..=4 {
            texts.push((n - 2 + d).to_string());
        }
    }
    for p in 0..=20 {
        let n = 10u128.pow(p);
        texts.extend([n.to_string(), (n - 1).to_string(), (n + 1).to_string(), (256 * n).to_string()]);
    }
    for s in ["", "-0", "-1", "-9", "-255", "-256", "+0", "+9", "+10", "00", "09", "0010", "0000000000000000000009", "0255", "0256", "04294967295",
        "04294967296", "1 ", " 1", "1.0", "1.", ".5", "1e1", "0x1", "1,2", "1;2", "one", "\u{663}", "\u{ff11}", "1\u{a0}", "++1", "--1", "1-", "1_0", "9a", "a9"] {
        texts.push(s.to_string());
    }
    texts.sort();
    texts.dedup();
    let spots = places(&[Ty::U8, Ty::U32, Ty::Prio]);
    run.family("numbers", product(&[texts.len(), spots.len()]), |i, case| {
        let mut d = Dec(i);
        let (k, p) = d.of(&spots);
        let s = d.of(&texts);
        if let Some((any, _)) = judge(case, *k, &in_doc(*k, format!("{p}{s}")), 1) {
            roundtrip(case, *k, &any);
        }
    });
    let alphabet: &[&str] = &["0", "1", "2", "5", "9", "-", "+", " "];
    run.family("short numbers", strings_count(8, 0, run.pick(4, 5)) * spots.len() as u64, |i, case| {
        let mut d = Dec(i);
        let (k, p) = d.of(&spots);
        let (s, _) = concat_at(alphabet, 0, d.0);
        judge(case, *k, &in_doc(*k, format!("{p}{s}")), 1);
    });
    use Kind::*;
    any_char(run, &[
        (Some(&STATUS), &[(Event, "STATUS:"), (Todo, "STATUS:"), (Journal, "STATUS:")], &["CONFIRMED", "NEEDS-ACTION", "IN-PROCESS"]),
        (Some(&TRANSP), &[(Event, "TRANSP:")], &["OPAQUE", "TRANSPARENT"]),
        (Some(&CLASS), &[(Event, "CLASS:")], &["PUBLIC", "CONFIDENTIAL"]),
        (Some(&FREQ), &[(Event, "RRULE:FREQ=")], &["SECONDLY", "DAILY"]),
        (Some(&WEEKDAY), &[(Event, "RRULE:FREQ=DAILY;WKST=")], &["SU", "TH"]),
        (None, &[(Audio, "ACTION:"), (Email, "ACTION:")], &["AUDIO", "EMAIL"]),
        (None, &[(Event, "PRIORITY:"), (Event, "SEQUENCE:"), (Todo, "PERCENT-COMPLETE:"), (Audio, "REPEAT:")], &["5", "12"]),
    ]);

}

// ---------------------------------------------------------------- C21

pub const C21: Info = Info {
    id: "C21",
    zones: &["UTC"],
    more_zones: &[],
    rule: "every combination of parts from boundary sets for each structured value, lists of up to three (four), every single-character edit of each, stand-alone and in every property; each accepted value serialised and read back",
    assumptions: &["seconds in UTC offsets (known finding), exponents, infinities and signed periods are left open"],
    run: c21,
};

fn c21(run: &Run) {
    let everywhere = |case: &mut Case, spots: &[(Kind, String)], s: &str| {
        for (k, p) in spots {
            if let Some((any, o)) = judge(case, *k, &in_doc(*k, format!("{p}{s}")), 1)
                && !super::has_loose_text(&o)
            {
                // texts which aren't completely escaped are a known finding of C11
                roundtrip(case, *k, &any);
            }
        }
    };
    let edited = |seeds: &[&str], alphabet: &[&str]| {
        let mut v: Vec<String> = seeds.iter().flat_map(|s| edits(s, alphabet)).collect();
        v.sort();
        v.dedup();
        v
    };

    // periods
    let times = [
        "19970308T160000Z", "20240229T235959", "20000101T000000Z", "99991231T235959", "00010101T000000Z", "20230229T000000Z", "20240101", "",
    ];
    let ends = [
        "19970308T210000Z", "20240301T000000", "PT8H30M", "P1W", "P1DT1S", "PT0S", "P7D", "PT1X", "20230230T000000Z", "20240101", "", "P1", "x",
        "PT1H/PT1H",
    ];
    let spots = vec![
        (Kind::Freebusy, "FREEBUSY:".to_string()),
        (Kind::Freebusy, "FREEBUSY;FBTYPE=BUSY:".to_string()),
        (Kind::Event, "RDATE;VALUE=PERIOD:".to_string()),
        (Kind::Standard, "RDATE;VALUE=PERIOD:".to_string()),
    ];
    let mut one: Vec<String> = Vec::new();
    for a in times {
        for b in ends {
            one.push(format!("{a}/{b}"));
        }
    }
    let n = one.len();
    run.family("periods", n as u64, |i, case| {
        let s = &one[i as usize];
        if alone(case, &PERIOD, s).is_some() {
            let r = imp(|| {
                let p: ikal::Period = s.parse().ok()?;
                let t = ikal::ser::ical(&p).ok()?;
                let (u, v) = match &p {
                    ikal::Period::StartEnd(x) => (x.to_string(), ikal::ser::ical(x).ok()),
                    ikal::Period::StartDur(x) => (x.to_string(), ikal::ser::ical(x).ok()),
                };
                Some((t.parse::<ikal::Period>().ok() == Some(p.clone()), p.to_string() == t && u == t && v == Some(u), t))
            });
            if !matches!(r, Ok(Some((true, true, _)))) {
                case.fail(|| format!("{s:?} doesn't survive serialisation: {r:?}"));
            }
        }
        everywhere(case, &spots, s);
    });
    run.family("lists of periods", (n * n) as u64, |i, case| {
        let mut d = Dec(i);
        let s = format!("{},{}", d.of(&one), d.of(&one));
        everywhere(case, &spots[..2 + (i % 2) as usize], &s);
    });
    let few = ["19970308T160000Z/PT3H", "19970308T200000Z/19970308T210000Z", "20240229T235959/P1W", "", "20240101T000000Z"];
    run.family("longer lists of periods", strings_count(5, 1, 4), |i, case| {
        let s: Vec<&str> = string_at(5, 1, i).into_iter().map(|x| few[x]).collect();
        everywhere(case, &spots, &s.join(","));
    });
    let alphabet: &[&str] = &["0", "1", "9", "T", "Z", "P", "/", ",", "-", "+", " ", "H", "\u{e9}"];
    let texts = edited(
        &["19970308T160000Z/PT8H30M", "19970308T160000Z/19970308T210000Z", "20240229T235959/P1W", "20240229T235959/P1DT2H"],
        alphabet,
    );
    run.family("close periods", texts.len() as u64, |i, case| {
        let s = &texts[i as usize];
        alone(case, &PERIOD, s);
        everywhere(case, &spots, s);
    });

    // lists of dates
    let dates = ["20240101", "20240229T101112", "19970714T133000Z", "20230229", "", "x", "20240101T", "20240102"];
    let spots = vec![
        (Kind::Event, "EXDATE:".to_string()),
        (Kind::Todo, "EXDATE;VALUE=DATE:".to_string()),
        (Kind::Journal, "EXDATE;TZID=Europe/Paris:".to_string()),
        (Kind::Event, "RDATE:".to_string()),
        (Kind::Todo, "RDATE;VALUE=DATE:".to_string()),
        (Kind::Journal, "RDATE;VALUE=DATE-TIME:".to_string()),
        (Kind::Daylight, "RDATE:".to_string()),
        (Kind::Event, "RDATE;VALUE=PERIOD:".to_string()),
    ];
    run.family("lists of dates", strings_count(dates.len(), 1, run.pick(4, 5)), |i, case| {
        let s: Vec<&str> = string_at(dates.len(), 1, i).into_iter().map(|x| dates[x]).collect();
        // a list of one kind of dates: a mix has no announced type
        let mixed = s.iter().any(|x| x.len() == 8) && s.iter().any(|x| x.len() > 8);
        let s = s.join(",");
        for (k, p) in &spots {
            let got = judge(case, *k, &in_doc(*k, format!("{p}{s}")), 1);
            if let (Some((any, _)), false) = (got, mixed) {
                roundtrip(case, *k, &any);
            }
        }
    });

    // positions
    let mut numbers: Vec<String> = Vec::new();
    for a in ["0", "1", "37", "90", "179", "180", "007", "123456", "16777217", "340282350000000000000000000000000000000"] {
        for b in ["", ".0", ".5", ".386013", ".082932", ".000001", ".1", ".123456789", ".99999994"] {
            numbers.push(format!("{a}{b}"));
            numbers.push(format!("-{a}{b}"));
        }
    }
    for s in ["", "+1.5", "1,5", "x", "1.2.3", " 1", "1 ", "--1", "\u{663}", "0x10", "1_0", "-"] {
        numbers.push(s.to_string());
    }
    let n = numbers.len();
    let spots = vec![(Kind::Event, "GEO:".to_string()), (Kind::Todo, "GEO:".to_string())];
    run.family("positions", (n * n) as u64, |i, case| {
        let mut d = Dec(i);
        let s = format!("{};{}", d.of(&numbers), d.of(&numbers));
        if alone(case, &GEO, &s).is_some() {
            let r = imp(|| {
                let a: ikal::Geo = s.parse().ok()?;
                let t = ikal::ser::ical(&a).ok()?;
                let b: ikal::Geo = t.parse().ok()?;
                Some((a.lat.to_bits() == b.lat.to_bits() && a.lon.to_bits() == b.lon.to_bits(), t))
            });
            if !matches!(r, Ok(Some((true, _)))) {
                case.fail(|| format!("{s:?} doesn't survive serialisation: {r:?}"));
            }
        }
        if run.thorough() || i % 4 == 0 {
            everywhere(case, &spots[(i / 4 % 2) as usize..][..1], &s);
        }
    });
    let texts = edited(&["37.386013;-122.082932", "0;0", "-90.5;180"], &["0", "1", ".", ";", "-", " ", ",", "a", "\u{e9}"]);
    run.family("close positions", texts.len() as u64, |i, case| {
        alone(case, &GEO, &texts[i as usize]);
        everywhere(case, &spots, &texts[i as usize]);
    });
    // short decimal numbers, all of them
    run.family("decimal numbers", 400_000, |i, case| {
        let n = i as i64 - 200_000;
        let s = format!("{}{}.{:03};{}", if n < 0 { "-" } else { "" }, n.abs() / 1000, n.abs() % 1000, n);
        alone(case, &GEO, &s);
    });

    // request statuses
    let codes = ["2.0", "3.7", "1.1", "10.25", "2", "2.", ".2", "", "x", "2.0.1", "-2.0", "2,0", " 2.0", "2.0 ", "255.99"];
    let descs = ["Success", "", "a\\;b", "a\\,b", "\u{e9}\\n", "\\\\", "\\\\\\;x", "sp ace", "a:b\"c\"", "\\"];
    let exts = ["", ";", ";ext", ";a\\;b", ";a\\,b\\\\", ";x\\;y", ";ATTENDEE:mailto:x@y.z"];
    let spots = places(&[Ty::RStat]);
    run.family("request statuses", product(&[codes.len(), descs.len(), exts.len(), 2]), |i, case| {
        let mut d = Dec(i);
        let (c, t, x) = (*d.of(&codes), *d.of(&descs), *d.of(&exts));
        let s = if d.take(2) == 0 { format!("{c};{t}{x}") } else { format!("{c}{t}{x}") };
        alone(case, &RSTATUS, &s);
        everywhere(case, &spots, &s);
    });
    run.family("request status codes", 100 * 100, |i, case| {
        let s = format!("{}.{};d", i / 100, i % 100);
        alone(case, &RSTATUS, &s);
        everywhere(case, &spots[..1], &s);
    });
    let hostile: &[&str] = &["\\", ";", ",", "n", "a", "\u{e9}"];
    run.family("request status texts", strings_count(6, 0, run.pick(6, 7)), |i, case| {
        let (t, _) = concat_at(hostile, 0, i);
        alone(case, &RSTATUS, &format!("2.0;{t}"));
        judge(case, Kind::Todo, &in_doc(Kind::Todo, format!("REQUEST-STATUS:3.1;{t}")), 1);
    });
    let texts = edited(&["2.0;Success", "3.7;Invalid\\; user;ATTENDEE:mailto:x@y.z", "2.8;;"], &["0", ".", ";", "\\", " ", ",", "a", "-"]);
    run.family("close request statuses", texts.len() as u64, |i, case| {
        alone(case, &RSTATUS, &texts[i as usize]);
        everywhere(case, &spots, &texts[i as usize]);
    });

    // UTC offsets
    let spots = places(&[Ty::Offset]);
    run.family("UTC offsets", 10_000 * 3, |i, case| {
        let mut d = Dec(i);
        let sign = ["+", "-", ""][d.take(3)];
        everywhere(case, &spots[..2], &format!("{sign}{:04}", d.0));
    });
    run.family("UTC offsets in the other part", 10_000, |i, case| {
        everywhere(case, &spots[2..], &format!("{}{:04}", if i % 2 == 0 { "+" } else { "-" }, i));
    });
    let texts = edited(&["+0100", "-0530", "+1345", "-2359", "+010203"], &["0", "1", "3", "6", "9", "+", "-", ":", "Z", " ", "\u{e9}", "."]);
    run.family("close UTC offsets", texts.len() as u64, |i, case| everywhere(case, &spots, &texts[i as usize]));

    // triggers
    let spots: Vec<(Kind, String)> = [Kind::Audio, Kind::Display, Kind::Email]
        .into_iter()
        .flat_map(|k| ["TRIGGER:", "TRIGGER;RELATED=END:", "TRIGGER;VALUE=DATE-TIME:", "TRIGGER;VALUE=DURATION:"].map(|p| (k, p.to_string())))
        .collect();
    let texts = edited(
        &["-PT15M", "PT0S", "P1W", "-P1DT2H3M4S", "19970317T133000Z", "20240229T101112", "20240229"],
        &["0", "1", "T", "Z", "P", "-", "+", "M", "D", " ", ",", "\u{e9}"],
    );
    run.family("triggers", texts.len() as u64, |i, case| {
        alone(case, &TRIGGER, &texts[i as usize]);
        everywhere(case, &spots, &texts[i as usize]);
        // printed and read back
        let s = &texts[i as usize];
        if let R::Ok(_) = m_trigger(s) {
            let r = imp(|| {
                let a: ikal::Trigger = s.parse().ok()?;
                let t = ikal::ser::ical(&a).ok()?;
                let (ty, v) = t.split_once(':')?;
                let want = if matches!(a, ikal::Trigger::DateTime(_)) { "VALUE=DATE-TIME" } else { "VALUE=DURATION" };
                Some((ty == want && v.parse::<ikal::Trigger>().ok()? == a, t.clone()))
            });
            if !matches!(r, Ok(Some((true, _)))) {
                case.fail(|| format!("trigger {s:?} doesn't survive serialisation: {r:?}"));
            }
        }
    });

    // RDATE on its own: announced type
    let values = ["20240101", "20240229T101112", "19970714T133000Z"];
    run.family("recurrence dates alone", strings_count(3, 1, 3), |i, case| {
        let seq = string_at(3, 1, i);
        let s: Vec<&str> = seq.iter().map(|x| values[*x]).collect();
        case.steps(s.len() as u64);
        case.state(&s);
        let all_dates = seq.iter().all(|x| *x == 0);
        if !all_dates && seq.contains(&0) {
            return;
        }
        let r = imp(|| {
            let r = ikal::RDate::Date(s.iter().map(|x| x.parse().unwrap()).collect());
            ikal::ser::ical(&r).ok()
        });
        let want = if all_dates { format!("VALUE=DATE:{}", s.join(",")) } else { s.join(",") };
        case.validated();
        if r != Ok(Some(want.clone())) {
            case.fail(|| format!("recurrence dates {s:?} are serialised as {r:?}, not {want:?}"));
        }
    });

    // numbers printed alone
    run.family("offsets alone", 2 * 86_400, |i, case| {
        let n = i as i32 - 86_400;
        case.steps(1);
        case.state(&n);
        let Some(o) = chrono::FixedOffset::east_opt(n) else { return };
        let t = imp(|| ikal::ser::ical(&o).ok());
        let (sign, a) = (if n < 0 { "-" } else { "+" }, n.abs());
        let mut want = format!("{sign}{:02}{:02}", a / 3600, a / 60 % 60);
        if a % 60 != 0 {
            want.push_str(&format!("{:02}", a % 60));
        }
        case.validated();
        if t != Ok(Some(want.clone())) {
            case.fail(|| format!("offset of {n} seconds is serialised as {t:?}, not {want}"));
        }
    });
    let _ = cal::DAY;
    use Kind::*;
    any_char(run, &[
        (Some(&PERIOD), &[(Freebusy, "FREEBUSY:"), (Event, "RDATE;VALUE=PERIOD:")], &["20240101T000000/PT1H", "20240101T000000/20240102T000000"]),
        (Some(&GEO), &[(Event, "GEO:")], &["37.386013;-122.082932", "1;2"]),
        (Some(&RSTATUS), &[(Event, "REQUEST-STATUS:")], &["2.8;ok", "3.1.2;a\\;b;c"]),
        (Some(&WEEKDAYNUM), &[(Event, "RRULE:FREQ=YEARLY;BYDAY=")], &["-12MO", "TU", "3FR"]),
        (None, &[(Standard, "TZOFFSETTO:"), (Daylight, "TZOFFSETFROM:")], &["+0130", "-1200"]),
        (None, &[(Event, "EXDATE:"), (Event, "RDATE:")], &["20240101,20240102"]),
    ]);

}

/// The properties of a type in a kind.
pub fn props_of(kind: Kind, ty: Ty) -> Vec<&'static Prop> {
    kind.props().iter().filter(|p| p.ty == ty).collect()
}
