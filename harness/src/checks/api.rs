//! C23 ways of reading, C24 equality, C26 conversions.

use super::diff;
use super::values::{ENTRIES, Entry, edits, in_doc};
use crate::cli::Info;
use crate::docs;
use crate::engine::{Case, Dec, Run, concat_at, imp, product, strings_count};
use crate::model::{self, KINDS, Kind, Mult, Obs, R, Ty, Val};
use crate::obs::{Alone, Any, Component};

// ---------------------------------------------------------------- C23

pub const C23: Info = Info {
    id: "C23",
    zones: &["UTC"],
    more_zones: &["America/New_York"],
    rule: "every type that can be read from text (11 components, alarms of any kind, 11 values): short texts, every edit of every property line alone, every fold, every line of full documents dropped or doubled, every length; read by parse, from &str, from String, and as part of the type that holds it; all answers have to be equal",
    assumptions: &[],
    run: c23,
};

/// The answers of all the ways in, `None` where the text is refused.
macro_rules! ways {
    ($ty:ty, $s:expr) => {{
        let s: &str = $s;
        let a = s.parse::<$ty>().ok();
        let b = <$ty>::try_from(s).ok();
        let c = <$ty>::try_from(s.to_string()).ok();
        let d: Option<$ty> = s.to_string().parse().ok();
        if a == b && b == c && c == d {
            Ok(a)
        } else {
            Err(format!(
                concat!(stringify!($ty), ": parse gives {:?}, from &str {:?}, from String {:?}"),
                a, b, c
            ))
        }
    }};
}

/// Compares the ways to read a document as a component; whether it was accepted.
fn component(kind: Kind, s: &str) -> Result<bool, String> {
    macro_rules! one {
        ($ty:ty) => {
            ways!($ty, s).map(|x| x.is_some())
        };
    }
    /// the alarm of one kind is the alarm
    macro_rules! alarm {
        ($ty:ident) => {{
            let all = ways!(ikal::VAlarm, s)?;
            let one = ways!(ikal::valarm::$ty, s)?;
            let want = match all {
                Some(ikal::VAlarm::$ty(x)) => Some(x),
                _ => None,
            };
            if one != want {
                return Err(format!("as {} {one:?}, as an alarm {want:?}", stringify!($ty)));
            }
            if let Some(x) = one {
                let v = ikal::VAlarm::from(x.clone());
                if !matches!(&v, ikal::VAlarm::$ty(y) if y.trigger == x.trigger && y.x_prop == x.x_prop && y.repeat == x.repeat && y.duration == x.duration && *y.action == *stringify!($ty).to_uppercase()) {
                    return Err(format!("made an alarm {x:?} is {v:?}"));
                }
                Ok(true)
            } else {
                Ok(false)
            }
        }};
    }
    match kind {
        Kind::Calendar => one!(ikal::VCalendar),
        Kind::Event => one!(ikal::VEvent),
        Kind::Todo => one!(ikal::VTodo),
        Kind::Journal => one!(ikal::VJournal),
        Kind::Freebusy => one!(ikal::VFreebusy),
        Kind::Timezone => one!(ikal::VTimezone),
        Kind::Standard => one!(ikal::vtimezone::Standard),
        Kind::Daylight => one!(ikal::vtimezone::Daylight),
        Kind::Audio => alarm!(Audio),
        Kind::Display => alarm!(Display),
        Kind::Email => alarm!(Email),
    }
}

/// Where components of a kind are nested: the document around them, and how to get at them.
fn nested(kind: Kind, s: &str) -> Option<(String, fn(&str) -> Option<Any>)> {
    fn cal(s: &str) -> Option<ikal::VCalendar> {
        s.parse().ok()
    }
    let around = docs::in_calendar(s);
    Some(match kind {
        Kind::Event => (around, |s| cal(s)?.events.pop().map(Any::Event)),
        Kind::Todo => (around, |s| cal(s)?.todo.pop().map(Any::Todo)),
        Kind::Journal => (around, |s| cal(s)?.journals.pop().map(Any::Journal)),
        Kind::Freebusy => (around, |s| cal(s)?.freebusy.pop().map(Any::Freebusy)),
        Kind::Timezone => (around, |s| cal(s)?.timezones.pop().map(Any::Timezone)),
        Kind::Audio | Kind::Display | Kind::Email => (docs::doc(Kind::Event, &docs::base(Kind::Event), s), |s| {
            s.parse::<ikal::VEvent>().ok()?.alarms.pop().map(Any::Alarm)
        }),
        Kind::Standard => (docs::doc(Kind::Timezone, &docs::base(Kind::Timezone), s), |s| {
            s.parse::<ikal::VTimezone>().ok()?.standard.pop().map(Any::Standard)
        }),
        Kind::Daylight => (docs::doc(Kind::Timezone, &docs::base(Kind::Timezone), s), |s| {
            s.parse::<ikal::VTimezone>().ok()?.daylight.pop().map(Any::Daylight)
        }),
        Kind::Calendar => return None,
    })
}

fn every_way(case: &mut Case, kind: Kind, s: &str) {
    case.steps(4);
    case.validated();
    let r = imp(|| {
        let ok = component(kind, s)?;
        // what stands behind the end is another component's matter
        if let Some((around, get)) = nested(kind, s)
            && s.ends_with(&format!("\r\nEND:{}\r\n", kind.tag()))
            && s.matches(&format!("END:{}", kind.tag())).count() == 1
            && s.matches(&format!("BEGIN:{}\r\n", kind.tag())).count() == 1
            && s.starts_with(&format!("BEGIN:{}\r\n", kind.tag()))
        {
            let alone = Any::parse(kind, s).ok();
            let inside = get(&around);
            if alone != inside {
                return Err(format!("alone {alone:?}, nested {inside:?}"));
            }
        }
        Ok(ok)
    });
    match r {
        Ok(Ok(ok)) => case.state(&(kind, ok, s.len())),
        Ok(Err(e)) | Err(e) => case.fail(|| format!("{kind:?} {s:?}: {e}")),
    }
}

const TRANSFORMS: usize = 30;

/// What happens to texts on their way.
fn transform(how: usize, s: &str) -> String {
    match how {
        0 => s.to_string(),
        1 => s.replace("\r\n", "\n"),
        2 => s.replace("\r\n", "\r"),
        3 => s.replace("\r\n", "\n\r"),
        4 => s.to_lowercase(),
        5 => s.to_uppercase(),
        6 => s.trim_end().to_string(),
        7 => s.replace("\r\n", "\r\n\r\n"),
        8 => s.replace("\r\n", "\r\r\n"),
        9 => s.replace("\r\n", " \r\n"),
        10 => s.replace("\r\n", "\r\n "),
        11 => s.replace(':', " :"),
        12 => s.replace(':', ": "),
        13 => s.replace(';', "; "),
        14 => format!("{s}{s}"),
        15 => s.chars().flat_map(|c| ['\r', '\n', ' ', c]).collect(),
        16 => s.chars().rev().collect(),
        17 => s.replace('\r', ""),
        18 => s.replace("\r\n", "\\n"),
        19 => s.replace(';', ","),
        _ => {
            let c = ["\u{feff}", " ", "\t", "\n", "\r\n", "\0", "\u{a0}", "\"", "x", "\u{1a}"][(how - 20) % 10];
            if how % 2 == 0 { format!("{c}{s}") } else { format!("{s}{c}") }
        }
    }
}

fn values_of(name: &str) -> Vec<&'static str> {
    match name {
        "Date" => vec!["20240331", "20240331T013000", "20240331T013000Z"],
        "DateTime" => vec!["20240331T013000", "20240331T013000Z"],
        "parse_duration" => vec!["P1W", "-P1DT2H3M4S", "+PT5M"],
        "Trigger" => vec!["-PT15M", "20240331T013000Z", "20240331T013000"],
        "Period" => vec!["20240331T013000Z/PT1H", "20240331T013000/20240401T013000"],
        "Recur" => vec!["FREQ=DAILY;COUNT=2", "FREQ=WEEKLY;UNTIL=20240331;INTERVAL=2;BYDAY=MO,-1SU;WKST=SU", "COUNT=2;FREQ=YEARLY;BYMONTH=1,2;BYSETPOS=-1"],
        "RequestStatus" => vec!["2.0;Success", "3.7;Invalid;x", "2.8;;"],
        "Geo" => vec!["37.386013;-122.082932", "1;2"],
        "Class" => vec!["PUBLIC", "PRIVATE", "CONFIDENTIAL", "X-A"],
        "Status" => vec!["TENTATIVE", "NEEDS-ACTION", "IN-PROCESS", "DRAFT"],
        "TimeTransparency" => vec!["OPAQUE", "TRANSPARENT"],
        "Freq" => vec!["DAILY", "SECONDLY"],
        "Weekday" => vec!["MO", "SU"],
        "WeekdayNum" => vec!["MO", "-1SU", "+2WE"],
        _ => panic!("{name}"),
    }
}

fn one_value(case: &mut Case, e: &Entry, s: &str) {
    case.steps(4);
    case.validated();
    match imp(|| (e.parse)(s)) {
        Ok(Some(Val::Odd(x))) => case.fail(|| format!("{} {s:?}: {x}", e.name)),
        Ok(v) => case.state(&(e.name, v)),
        Err(p) => case.fail(|| format!("{} {s:?} {p}", e.name)),
    }
}

fn c23(run: &Run) {
    // values
    let short: Vec<(&str, Vec<&str>)> = vec![
        ("Period", vec!["20240331T120000", "Z", "/", "P", "T", "1", "H", " "]),
        ("Recur", vec!["FREQ=", "DAILY", ";", "COUNT=", "UNTIL=20240101", "BYDAY=MO", ",", "1", " "]),
        ("RequestStatus", vec!["2", ".", ";", "\\", "x", " "]),
        ("Geo", vec!["1", ".", ";", "-", "5", " "]),
        ("Class", vec!["PUBLIC", "PRIVATE", "X", "-", "p", "é", " "]),
        ("Status", vec!["DRAFT", "FINAL", "NEEDS-ACTION", "d", " "]),
        ("TimeTransparency", vec!["OPAQUE", "TRANSPARENT", "o", " "]),
        ("Freq", vec!["DAILY", "YEARLY", "daily", "S", " "]),
        ("Weekday", vec!["MO", "SU", "M", "o", "1", " "]),
        ("WeekdayNum", vec!["MO", "SU", "-", "1", "+", "5", " "]),
    ];
    for (name, alphabet) in &short {
        let e = ENTRIES.iter().find(|e| e.name == *name).unwrap();
        run.family(&format!("{name}: short texts"), strings_count(alphabet.len(), 0, run.pick(5, 6)), |i, case| {
            let (s, _) = concat_at(alphabet, 0, i);
            case.steps(4);
            case.validated();
            match imp(|| (e.parse)(&s)) {
                Ok(Some(Val::Odd(x))) => case.fail(|| format!("{name} {s:?}: {x}")),
                Ok(v) => case.state(&(name, v)),
                Err(p) => case.fail(|| format!("{name} {s:?} {p}")),
            }
        });
    }
    // every edit of every line
    let alphabet = ["", " ", "\t", "X", "z", "0", "9", ":", ";", "\"", "\\", ",", "-", "\r\n", "\r\n ", "\n", "é", "\u{a0}"];
    for kind in KINDS {
        let mut lines = docs::lines(kind);
        lines.extend(docs::odd_lines(kind));
        let texts: Vec<String> = lines.iter().flat_map(|l| edits(l, &alphabet)).collect();
        run.family(&format!("{kind:?}: edited lines"), texts.len() as u64, |i, case| {
            every_way(case, kind, &in_doc(kind, texts[i as usize].clone()));
        });
        // whole documents: every fold, every line dropped, doubled, moved to the end
        let full = docs::full_doc(kind, 0);
        let cs: Vec<char> = full.chars().collect();
        run.family(&format!("{kind:?}: edited documents"), product(&[cs.len() + 1, 6]), |i, case| {
            let mut d = Dec(i);
            let edit = d.take(6);
            let at = d.take(cs.len() + 1);
            let (a, b): (String, String) = (cs[..at].iter().collect(), cs[at..].iter().collect());
            let s = match edit {
                0 => format!("{a}\r\n {b}"),
                1 => format!("{a}\r\n\t{b}"),
                2 => a,
                3 => b,
                4 => format!("{a} {b}"),
                _ => format!("{a}{}", b.chars().skip(1).collect::<String>()),
            };
            every_way(case, kind, &s);
        });
        let ls: Vec<&str> = full.split_inclusive("\r\n").collect();
        run.family(&format!("{kind:?}: edited lines of documents"), product(&[ls.len(), 3]), |i, case| {
            let mut d = Dec(i);
            let (at, how) = (d.take(ls.len()), d.take(3));
            let mut ls = ls.clone();
            let l = ls.remove(at);
            match how {
                0 => (),
                1 => {
                    ls.insert(at, l);
                    ls.insert(at, l);
                }
                _ => ls.push(l),
            }
            every_way(case, kind, &ls.concat());
        });
        run.family(&format!("{kind:?}: sizes"), product(&[run.pick(700, 5000), 3]), |i, case| {
            let mut d = Dec(i);
            let how = d.take(3);
            let n = d.take(run.pick(700, 5000) as usize);
            let s = match how {
                0 => in_doc(kind, format!("X-A:{}", "é".repeat(n))),
                1 => in_doc(kind, (0..n % 300).map(|i| format!("X-{i}:{i}")).collect::<Vec<_>>().join("\r\n") + "\r\nX-A:1"),
                _ => format!("{}{}", docs::minimal(kind), "x".repeat(n)),
            };
            every_way(case, kind, &s);
        });
    }
    // texts as others write them
    for kind in KINDS {
        let mut texts = vec![docs::minimal(kind), docs::full_doc(kind, 0), docs::full_doc(kind, 1)];
        texts.extend(docs::lines(kind).into_iter().map(|l| in_doc(kind, l)));
        run.family(&format!("{kind:?}: rewritten documents"), product(&[texts.len(), TRANSFORMS, TRANSFORMS]), |i, case| {
            let mut d = Dec(i);
            let t = &texts[d.take(texts.len())];
            let (a, b) = (d.take(TRANSFORMS), d.take(TRANSFORMS));
            every_way(case, kind, &transform(b, &transform(a, t)));
        });
    }
    for e in &ENTRIES {
        let texts: Vec<&str> = values_of(e.name);
        let wide: Vec<String> = (0..128u8).map(|c| char::from(c).to_string()).chain(["\u{a0}", "\u{feff}", "é", "\u{2028}", "٣", "ſ"].map(String::from)).collect();
        let wide: Vec<&str> = wide.iter().map(String::as_str).collect();
        run.family(&format!("{}: rewritten values", e.name), product(&[texts.len(), TRANSFORMS, TRANSFORMS]), |i, case| {
            let mut d = Dec(i);
            let t = texts[d.take(texts.len())];
            let (a, b) = (d.take(TRANSFORMS), d.take(TRANSFORMS));
            one_value(case, e, &transform(b, &transform(a, t)));
        });
        let all: Vec<String> = texts.iter().flat_map(|t| edits(t, &wide)).collect();
        run.family(&format!("{}: edited values", e.name), all.len() as u64, |i, case| one_value(case, e, &all[i as usize]));
    }
    // every kind's documents as every kind
    run.family("documents of other kinds", product(&[KINDS.len(), KINDS.len(), 3]), |i, case| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&KINDS), *d.of(&KINDS));
        let s = match d.take(3) {
            0 => docs::minimal(a),
            1 => docs::full_doc(a, 0),
            _ => docs::full_doc(a, 1) + &docs::minimal(b),
        };
        every_way(case, b, &s);
    });
}

// ---------------------------------------------------------------- C24

pub const C24: Info = Info {
    id: "C24",
    zones: &["UTC", "CET-1CEST,M3.5.0,M10.5.0/3"],
    more_zones: &["America/New_York"],
    rule: "all pairs of components out of: one with each property line (all value forms, near values), with each pair of values of each list in both orders, with extensions, full ones with every single-character edit of each value that is still valid, and with each nested component; equal exactly if the reference reads the same content",
    assumptions: &["positions that aren't numbers or are a negative zero are left out"],
    run: c24,
};

fn read(kind: Kind, s: &str) -> Option<(Any, Obs)> {
    let R::Ok(o) = model::parse(kind, s) else {
        return None;
    };
    let a = imp(|| Any::parse(kind, s).ok()).ok().flatten()?;
    // what it reads is the matter of C05
    (a.obs() == o).then_some((a, o))
}

fn compare(case: &mut Case, (a, oa): &(Any, Obs), (b, ob): &(Any, Obs)) {
    case.steps(1);
    case.validated();
    let want = oa == ob;
    let r = imp(|| {
        #[allow(clippy::nonminimal_bool)]
        let r = (a == b, !(a != b), b == a);
        r
    });
    case.state(&(oa, want));
    if r != Ok((want, want, want)) {
        case.fail(|| format!("equality of {oa:?} and {ob:?} ({}) is {r:?}", diff(oa, ob)));
    }
}

/// Values close to the good ones.
fn near(ty: Ty) -> &'static [&'static str] {
    match ty {
        Ty::Dt => &[":20240229T123456", ":20240229T123457Z", ":20240229T113456Z", ":20240228T123456Z"],
        Ty::Date => &[":20240301T000000", ":20240301T000000Z", ":20240302", ":20240229T010204", ":20240229T230000Z"],
        Ty::Dur => &[":PT900S", ":-PT15M", ":PT15M1S", ":PT0S", ":P1D", ":PT24H"],
        Ty::U8 | Ty::U32 => &[":1", ":3"],
        Ty::Prio => &[":2"],
        Ty::Text | Ty::TextList => &[":Plain", ":plain ", ": plain", ":plain\\n", ";LANGUAGE=en:plain", ";LANGUAGE=EN:plain", ";LANGUAGE=:plain", ";LANGUAGE=en;X-A=1:plain", ";language=en:plain", ";X-A=1:plain", ";X-A=2:plain"],
        Ty::Uri => &[":mailto:A@example.com", ":mailto:a@example.com ", ";CN=a:mailto:a@example.com", ";CN=A:mailto:a@example.com", ";CN=A;ROLE=x:mailto:a@example.com"],
        Ty::Class => &[":X-SECRET2", ":X"],
        Ty::Status => &[":CONFIRMED", ":CANCELLED", ":COMPLETED", ":IN-PROCESS", ":DRAFT"],
        Ty::Transp => &[],
        Ty::Geo => &[":1;2", ":2;1", ":1.5;2", ":1;-2"],
        Ty::RStat => &[":2.0;success", ":2.1;Success", ":2.0;Success;", ":2.0;Success;x", ":2.0;Success;X"],
        Ty::Recur => &[
            ":FREQ=WEEKLY", ":FREQ=DAILY;INTERVAL=2", ":FREQ=DAILY;COUNT=1", ":FREQ=DAILY;COUNT=2", ":FREQ=DAILY;UNTIL=20240101", ":FREQ=DAILY;UNTIL=20240101T000000",
            ":FREQ=DAILY;UNTIL=20240101T000000Z", ":FREQ=DAILY;BYDAY=MO", ":FREQ=DAILY;BYDAY=1MO", ":FREQ=DAILY;BYDAY=TU", ":FREQ=DAILY;BYDAY=MO,TU", ":FREQ=DAILY;BYDAY=TU,MO",
            ":FREQ=DAILY;BYSECOND=1", ":FREQ=DAILY;BYMINUTE=1", ":FREQ=DAILY;BYHOUR=1", ":FREQ=DAILY;BYMONTHDAY=1", ":FREQ=DAILY;BYYEARDAY=1", ":FREQ=DAILY;BYWEEKNO=1", ":FREQ=DAILY;BYMONTH=1",
            ":FREQ=DAILY;BYSETPOS=1", ":FREQ=DAILY;BYSETPOS=-1", ":FREQ=DAILY;BYSETPOS=1,2", ":FREQ=DAILY;BYSETPOS=2,1", ":FREQ=DAILY;WKST=MO", ":FREQ=DAILY;WKST=SU", ":FREQ=DAILY;INTERVAL=1",
        ],
        Ty::RDate => &[
            ":20240101", ";VALUE=DATE:20240101", ";VALUE=DATE:20240101,20240103", ";VALUE=DATE:20240103", ":20240101T000000Z", ":20240101T000000,20240101T000000", ";VALUE=PERIOD:19960403T020000Z/19960403T040000Z",
            ";VALUE=PERIOD:19960403T020000Z/PT2H", ";VALUE=PERIOD:19960403T020000/PT2H", ";VALUE=PERIOD:19960403T020000Z/PT2H,19960403T020000Z/PT2H", ";VALUE=PERIOD:19960403T030000Z/PT2H", ";VALUE=PERIOD:19960403T030000Z/PT1H",
            ";VALUE=PERIOD:19960403T030000Z/19960403T050000Z",
        ],
        Ty::Offset => &[":+0100", ":-0100", ":+0001"],
        Ty::Trigger => &[":PT30M", ":-PT1800S", ":PT0S", ";VALUE=DATE-TIME:19970317T133000", ";VALUE=DATE-TIME:19970317T133001Z"],
        Ty::DateList => &[":20240102", ":20240101,20240102", ":20240102,20240101", ":20240101,20240101", ":20240101T000000", ":20240101T000000Z"],
        Ty::PeriodList => &[
            ":19970308T160000Z/PT8H", ":19970308T160000Z/19970309T003000Z", ":19970308T170000Z/PT8H30M", ":19970308T160000/PT8H30M", ":19970308T160000Z/PT8H30M,19970308T160000Z/PT8H30M", ":19970308T160000Z/19970308T170000Z",
            ":19970308T170000Z/19970308T180000Z",
        ],
    }
}

/// Many values of a type, close to each other.
fn many(ty: Ty, deep: bool) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let mut times = Vec::new();
    for d in ["20240331", "20241027", "20240310", "20241103", "20240101", "99991231"] {
        for h in 0..24 {
            times.push(format!("{d}T{h:02}0000"));
            if deep || h < 4 {
                times.push(format!("{d}T{h:02}3000"));
            }
        }
        times.push(format!("{d}T000001"));
        times.push(format!("{d}T235959"));
    }
    match ty {
        Ty::Dt | Ty::Date | Ty::DateList => {
            for t in &times {
                out.push(format!(":{t}"));
                out.push(format!(":{t}Z"));
            }
            if ty != Ty::Dt {
                for d in ["20231231", "20240101", "20240102", "20240330", "20240331", "20240401", "20241027", "20241028"] {
                    out.push(format!(":{d}"));
                    if ty == Ty::DateList {
                        for e in ["20240101", "20240331", "20240331T000000", "20240331T000000Z"] {
                            out.push(format!(":{d},{e}"));
                            out.push(format!(":{e},{d}"));
                        }
                    }
                }
            }
        }
        Ty::Dur | Ty::Trigger => {
            for sign in ["", "-"] {
                for d in ["PT0S", "PT1S", "PT59S", "PT60S", "PT61S", "PT1M", "PT2M", "PT60M", "PT1H", "PT1H1S", "PT23H", "PT24H", "PT25H", "P1D", "P1DT1S", "P2D", "P6D", "P7D", "P1W", "P8D", "P2W", "PT3600S", "PT86400S", "P365D", "P400W"] {
                    out.push(format!(":{sign}{d}"));
                }
            }
            if ty == Ty::Trigger {
                for t in &times {
                    out.push(format!(";VALUE=DATE-TIME:{t}"));
                    out.push(format!(";VALUE=DATE-TIME:{t}Z"));
                }
            }
        }
        Ty::U8 | Ty::Prio => out.extend((0..256).map(|n| format!(":{n}"))),
        Ty::U32 => {
            out.extend((0..300u32).map(|n| format!(":{n}")));
            out.extend((8..32).flat_map(|b| [-1i64, 0, 1].map(|d| format!(":{}", (1i64 << b) + d))));
            out.push(":4294967295".into());
        }
        Ty::Geo => {
            let fs = ["0", "0.00000000001", "0.00000001", "0.00000002", "0.0000001", "0.000001", "0.1", "1", "1.0000001", "1.0000002", "37.386013", "37.386017", "90", "90.00001", "-0.1", "-1", "-90", "16777216", "16777218"];
            for a in fs {
                for b in fs {
                    out.push(format!(":{a};{b}"));
                }
            }
        }
        Ty::RStat => {
            for c in ["1", "2", "2.0", "2.00", "2.1", "2.01", "3.7", "10", "20"] {
                for d in ["a", "A", "", "a ", " a", "a\\;b", "a\\,b"] {
                    for e in ["", ";", ";x", ";X", ";x;", ";x;y"] {
                        out.push(format!(":{c};{d}{e}"));
                    }
                }
            }
        }
        Ty::Recur => {
            let ends = ["", ";COUNT=1", ";COUNT=2", ";COUNT=255", ";UNTIL=20240331", ";UNTIL=20240401", ";UNTIL=20240331T000000", ";UNTIL=20240331T000000Z", ";UNTIL=20240330T230000Z", ";UNTIL=20240331T010000Z"];
            let parts = [
                "", ";BYDAY=MO", ";BYDAY=0MO", ";BYDAY=1MO", ";BYDAY=-1MO", ";BYDAY=SU", ";BYDAY=MO,SU", ";BYDAY=SU,MO", ";BYDAY=MO,MO", ";BYSECOND=0", ";BYSECOND=1", ";BYSECOND=0,1", ";BYSECOND=1,0", ";BYMINUTE=0", ";BYMINUTE=1", ";BYHOUR=0", ";BYHOUR=1",
                ";BYMONTHDAY=1", ";BYMONTHDAY=-1", ";BYYEARDAY=1", ";BYYEARDAY=-1", ";BYWEEKNO=1", ";BYWEEKNO=-1", ";BYMONTH=1", ";BYMONTH=2", ";BYMONTH=1,2", ";BYSETPOS=1", ";BYSETPOS=-1", ";WKST=MO", ";WKST=SU", ";WKST=TU",
            ];
            for f in ["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"] {
                for i in ["", ";INTERVAL=2", ";INTERVAL=3"] {
                    if f == "DAILY" || i.is_empty() {
                        for e in ends {
                            for p in parts {
                                if deep || f == "DAILY" && (i.is_empty() || e.is_empty()) || p.is_empty() {
                                    out.push(format!(":FREQ={f}{i}{e}{p}"));
                                }
                            }
                        }
                    }
                }
            }
        }
        Ty::Offset => {
            for sign in ["+", "-"] {
                for h in 0..15 {
                    for m in [0, 1, 15, 30, 59] {
                        out.push(format!(":{sign}{h:02}{m:02}"));
                    }
                }
            }
        }
        Ty::PeriodList | Ty::RDate => {
            let v = if ty == Ty::RDate { ";VALUE=PERIOD" } else { "" };
            let starts = ["20240331T000000Z", "20240331T000000", "20240330T230000Z", "20241027T003000Z", "20241027T013000Z"];
            let ends = ["20240401T000000Z", "20240401T000000", "20240331T220000Z", "P1D", "PT24H", "PT23H", "PT1H", "PT0S", "-PT1H", "20241027T013000Z", "20241027T003000Z"];
            let mut ps: Vec<String> = Vec::new();
            for a in starts {
                for b in ends {
                    ps.push(format!("{a}/{b}"));
                }
            }
            for (i, a) in ps.iter().enumerate() {
                out.push(format!("{v}:{a}"));
                for b in ps.iter().skip(i % 7).step_by(7) {
                    out.push(format!("{v}:{a},{b}"));
                }
            }
            if ty == Ty::RDate {
                for t in &times {
                    out.push(format!(":{t}"));
                    out.push(format!(":{t}Z"));
                }
                for d in ["20240331", "20240331,20240401", "20240401,20240331", "20240401"] {
                    out.push(format!(";VALUE=DATE:{d}"));
                }
            }
        }
        Ty::Text | Ty::TextList | Ty::Uri => {
            let alphabet = ["a", "A", "\\", "n", "N", "/", " ", ","];
            for i in 0..strings_count(alphabet.len(), 0, if deep { 4 } else { 3 }) {
                out.push(format!(":{}", concat_at(&alphabet, 0, i).0));
            }
            for c in ["é", "e\u{301}", "É", "ß", "ss", "ſ", "K", "\u{212a}", "\u{a0}", "\u{200b}", "%20", "%2F", "%2f", "0", "00", "-0", "http://a/", "HTTP://a/", "http://A/", "http://a:80/", "http://a/?", "http://a/#", "http://a/."] {
                out.push(format!(":{c}"));
            }
            let vs = ["", "a", "A", "\"a\"", "\"a b\"", "\"a,b\"", "b"];
            for n in ["X-P", "X-p", "Y-P", "LANGUAGE"] {
                for v in vs {
                    out.push(format!(";{n}={v}:a"));
                    for w in vs {
                        out.push(format!(";{n}={v};X-Q={w}:a"));
                        out.push(format!(";X-Q={w};{n}={v}:a"));
                    }
                }
            }
        }
        Ty::Class | Ty::Status | Ty::Transp => {
            for c in ["PUBLIC", "PRIVATE", "CONFIDENTIAL", "X-A", "X-B", "X-AB", "X-a", "public", "Public", "X", "PUBLIC2", "TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "DRAFT", "FINAL", "OPAQUE", "TRANSPARENT"] {
                out.push(format!(":{c}"));
            }
        }
    }
    out
}

fn some_lines(kind: Kind) -> Vec<String> {
    let mut ls = docs::lines(kind);
    for p in kind.props() {
        if p.name != "ACTION" {
            ls.extend(near(p.ty).iter().map(|v| format!("{}{v}", p.name)));
        }
    }
    ls.extend(docs::odd_lines(kind));
    ls.extend(
        ["X-FOO:Bar", "X-FOO:", "X-FOO;A=1:bar", "X-FOO;A=2:bar", "X-FOO;B=1:bar", "X-Foo:bar", "X-FOO2:bar", "FOO:bar", "FOO;A=1:bar", "FOO:baz", "FOO2:bar", "X-FOO:bar\r\nX-FOO2:bar", "FOO:bar\r\nFOO2:bar", "FOO:bar\r\nX-FOO:bar"].map(String::from),
    );
    ls
}

fn c24(run: &Run) {
    for kind in KINDS {
        let mut texts: Vec<String> = vec![docs::minimal(kind)];
        for l in some_lines(kind) {
            texts.push(in_doc(kind, l));
        }
        // lists: two values in both orders, one of them twice
        for p in kind.props().iter().filter(|p| p.mult == Mult::List) {
            let vs: Vec<&str> = docs::good(p.ty).iter().chain(near(p.ty)).copied().take(4).collect();
            for a in &vs {
                for b in &vs {
                    texts.push(in_doc(kind, format!("{n}{a}\r\n{n}{b}", n = p.name)));
                }
            }
        }
        // nested components
        let kids: &[Kind] = match kind {
            Kind::Event => &[Kind::Audio, Kind::Display, Kind::Email],
            Kind::Timezone => &[Kind::Standard, Kind::Daylight],
            Kind::Calendar => &[Kind::Event, Kind::Todo, Kind::Journal, Kind::Freebusy, Kind::Timezone, Kind::Audio, Kind::Display, Kind::Email],
            _ => &[],
        };
        let mut some: Vec<String> = Vec::new();
        for k in kids {
            some.push(docs::minimal(*k));
            some.push(in_doc(*k, "X-A:1".into()));
        }
        for a in &some {
            texts.push(docs::doc(kind, &docs::base(kind), a));
            for b in &some {
                texts.push(docs::doc(kind, &docs::base(kind), &format!("{a}{b}")));
            }
        }
        for k in kids {
            for l in some_lines(*k) {
                texts.push(docs::doc(kind, &docs::base(kind), &in_doc(*k, l)));
            }
        }
        let all: Vec<(Any, Obs)> = texts.iter().filter_map(|t| read(kind, t)).filter(|x| !odd_geo(&x.1)).collect();
        let n = all.len();
        run.family(&format!("{kind:?}: pairs"), product(&[n, n]), |i, case| {
            let mut d = Dec(i);
            let (a, b) = (d.take(n), d.take(n));
            compare(case, &all[a], &all[b]);
        });
        let mut done = std::collections::BTreeSet::new();
        for p in kind.props().iter().filter(|p| p.name != "ACTION") {
            // each type in each way of being held
            if !done.insert(format!("{:?} {:?}", p.ty, p.mult)) {
                continue;
            }
            let vs: Vec<(Any, Obs)> = many(p.ty, run.thorough())
                .iter()
                .filter_map(|v| read(kind, &in_doc(kind, format!("{}{v}", p.name))))
                .filter(|x| !odd_geo(&x.1))
                .collect();
            let n = vs.len();
            run.family(&format!("{kind:?}: values of {} by two", p.name), product(&[n, n]), |i, case| {
                let mut d = Dec(i);
                let (a, b) = (d.take(n), d.take(n));
                compare(case, &vs[a], &vs[b]);
            });
        }
        for name in ["X-FOO", "FOO"] {
            let vs: Vec<(Any, Obs)> = many(Ty::Text, run.thorough()).iter().filter_map(|v| read(kind, &in_doc(kind, format!("{name}{v}")))).collect();
            let n = vs.len();
            run.family(&format!("{kind:?}: values of {name} by two"), product(&[n, n]), |i, case| {
                let mut d = Dec(i);
                let (a, b) = (d.take(n), d.take(n));
                compare(case, &vs[a], &vs[b]);
            });
        }
        run.family(&format!("{kind:?}: copies"), n as u64, |i, case| {
            let (a, o) = &all[i as usize];
            case.validated();
            let r = imp(|| {
                let b = a.clone();
                let again = Any::parse(kind, &texts_of(a)?).ok();
                Some((b == *a, b.obs() == *o, b.ical().ok() == a.ical().ok(), again.is_some()))
            });
            if !matches!(r, Ok(Some((true, true, true, true)))) {
                case.fail(|| format!("the copy of {o:?} is another: {r:?}"));
            }
        });
        // full components: every valid edit of a line
        let lines = docs::full(kind, 0);
        let tail = docs::full_kids(kind, 0);
        if let Some(whole) = read(kind, &docs::doc(kind, &lines, &tail)) {
            let mut variants: Vec<(usize, String)> = Vec::new();
            for (j, l) in lines.iter().enumerate() {
                for e in edits(l, &["1", "2", "A", "b", ";", ",", " "]) {
                    variants.push((j, e));
                }
                variants.push((j, String::new()));
            }
            let whole = &whole;
            run.family(&format!("{kind:?}: edited full components"), variants.len() as u64, |i, case| {
                let (j, e) = &variants[i as usize];
                let mut ls = lines.clone();
                if e.is_empty() {
                    ls.remove(*j);
                } else {
                    ls[*j] = e.clone();
                }
                match read(kind, &docs::doc(kind, &ls, &tail)) {
                    Some(x) if !odd_geo(&x.1) => compare(case, whole, &x),
                    _ => case.unspecified(),
                }
            });
            // nested ones: every line of them dropped or changed
            let ls: Vec<&str> = tail.split_inclusive("\r\n").collect();
            run.family(&format!("{kind:?}: edited nested components"), product(&[ls.len(), 3]), |i, case| {
                let mut d = Dec(i);
                let (at, how) = (d.take(ls.len()), d.take(3));
                let mut t: Vec<String> = ls.iter().map(|x| (*x).to_string()).collect();
                match how {
                    0 => {
                        t.remove(at);
                    }
                    1 => t[at] = t[at].replace("\r\n", "1\r\n"),
                    _ => t[at] = t[at].replace('1', "2"),
                }
                match read(kind, &docs::doc(kind, &lines, &t.concat())) {
                    Some(x) if !odd_geo(&x.1) => compare(case, whole, &x),
                    _ => case.unspecified(),
                }
            });
        }
    }
}

fn texts_of(a: &Any) -> Option<String> {
    a.ical().ok()
}

fn odd_geo(o: &Obs) -> bool {
    let odd = |v: &Val| match v {
        Val::Geo(a, b) => [a, b].iter().any(|x| f32::from_bits(**x).is_nan() || **x == (-0.0f32).to_bits()),
        Val::RStat(a, ..) => f32::from_bits(*a).is_nan() || *a == (-0.0f32).to_bits(),
        _ => false,
    };
    o.fields.values().flatten().any(odd) || o.kids.values().flatten().any(odd_geo)
}

// ---------------------------------------------------------------- C26

pub const C26: Info = Info {
    id: "C26",
    zones: &["UTC"],
    more_zones: &[],
    rule: "every string over a hostile alphabet to the length bound, every character, every length to 3000, made a text, a URI and an extension's value in every way there is, and read through every accessor; every component made by new and by default",
    assumptions: &[],
    run: c26,
};

fn keep(case: &mut Case, s: &str) {
    case.steps(12);
    case.validated();
    case.state(&s.len());
    let r = imp(|| {
        let mut wrong: Vec<String> = Vec::new();
        let mut is = |what: &str, got: &str| {
            if got != s {
                wrong.push(format!("{what} is {got:?}"));
            }
        };
        let texts: [(&str, ikal::Text); 4] = [
            ("Text::from", ikal::Text::from(s)),
            ("Text from &str", s.into()),
            ("Text from String", s.to_string().into()),
            ("Text", ikal::Text { params: Default::default(), text: s.to_string() }),
        ];
        for (n, t) in &texts {
            is(n, &t.text);
            is(&format!("Display of {n}"), &t.to_string());
            is(&format!("Deref of {n}"), t);
            is(&format!("AsRef of {n}"), t.as_ref());
            if !t.params.is_empty() || *t != texts[3].1 {
                is(&format!("the parameters of {n}"), &format!("{:?}", t.params));
            }
        }
        let uris: [(&str, ikal::Uri); 3] =
            [("Uri from &str", s.into()), ("Uri from String", s.to_string().into()), ("Uri", ikal::Uri { params: Default::default(), uri: s.to_string() })];
        for (n, t) in &uris {
            is(n, &t.uri);
            is(&format!("Display of {n}"), &t.to_string());
            is(&format!("Deref of {n}"), t);
            if !t.params.is_empty() || *t != uris[2].1 {
                is(&format!("the parameters of {n}"), &format!("{:?}", t.params));
            }
        }
        let mut e = ikal::VEvent::default();
        e.x_prop.insert("X-A".into(), s.into());
        e.x_prop.insert("X-B".into(), s.to_string().into());
        for (n, l) in &e.x_prop {
            is(n, &l.value);
            is(&format!("Display of {n}"), &l.to_string());
            if !l.params.is_empty() {
                is(&format!("the parameters of {n}"), &format!("{:?}", l.params));
            }
        }
        wrong
    });
    match r {
        Ok(w) if w.is_empty() => (),
        r => case.fail(|| format!("{s:?}: {r:?}")),
    }
}

fn c26(run: &Run) {
    let hostile = ["a", "N", " ", "\t", "\r", "\n", "\\", ";", ",", ":", "\"", "é", "😀", "\0", "^", "="];
    run.family("strings", strings_count(hostile.len(), 0, run.pick(4, 5)), |i, case| {
        let (s, _) = concat_at(&hostile, 0, i);
        keep(case, &s);
    });
    run.family("characters", 0x11_0000, |i, case| {
        if let Some(c) = char::from_u32(i as u32) {
            keep(case, &format!("{c}"));
            keep(case, &format!("a{c}b"));
        }
    });
    run.family("lengths", 3000, |i, case| {
        for s in ["x", "é", " ", "\\,"] {
            keep(case, &s.repeat(i as usize));
        }
    });
    let big: Vec<usize> = (11..=run.pick(20, 23) as u32).flat_map(|b| [-1i64, 0, 1].map(|d| ((1i64 << b) + d) as usize)).collect();
    run.family("great lengths", product(&[big.len(), 4]), |i, case| {
        let mut d = Dec(i);
        let n = *d.of(&big);
        keep(case, &["x", "é", "\n", "ab c"][d.take(4)].repeat(n));
    });
    // text in brackets, quotes and the like
    let ends = ["", "<", ">", "\"", "'", "(", ")", "[", "]", "{", "}", "“", "”", "«", "mailto:", "MAILTO:", "http://", "URL:", "/", "\u{feff}", "\u{200b}", "\u{a0}", "%20", ".", ",", "=", "\\", "\\n", "CN=", "TEXT:", "^"];
    run.family("ends of texts", product(&[ends.len(), ends.len(), ends.len(), 2]), |i, case| {
        let mut d = Dec(i);
        let (a, b, c) = (*d.of(&ends), *d.of(&ends), *d.of(&ends));
        keep(case, &format!("{a}{}{b}{c}", if d.take(2) == 0 { "http://a.b/c" } else { "a b" }));
    });
    run.family("new components", 10, |i, case| {
        case.steps(1);
        case.validated();
        macro_rules! fresh {
            ($kind:expr, $ty:ty) => {{
                let (a, b): ($ty, $ty) = (<$ty>::new(), <$ty>::default());
                ($kind, a == b, a.obs(), b.obs())
            }};
        }
        let r = imp(|| match i {
            0 => fresh!(Kind::Calendar, ikal::VCalendar),
            1 => fresh!(Kind::Event, ikal::VEvent),
            2 => fresh!(Kind::Todo, ikal::VTodo),
            3 => fresh!(Kind::Journal, ikal::VJournal),
            4 => fresh!(Kind::Freebusy, ikal::VFreebusy),
            5 => fresh!(Kind::Timezone, ikal::VTimezone),
            6 => fresh!(Kind::Audio, ikal::valarm::Audio),
            7 => fresh!(Kind::Display, ikal::valarm::Display),
            8 => fresh!(Kind::Email, ikal::valarm::Email),
            _ => {
                let a = ikal::vtimezone::Standard::default();
                (Kind::Standard, true, a.obs(), a.obs())
            }
        });
        let ok = r.as_ref().is_ok_and(|(kind, same, a, b)| {
            let required: Vec<usize> = kind.props().iter().filter(|p| p.mult == Mult::Req).map(|_| 1).collect();
            let empty = |o: &Obs| {
                o.x.is_empty() && o.iana.is_empty() && o.kids.is_empty() && o.fields.len() == required.len()
                    && o.fields.values().flatten().all(|v| match v {
                        Val::Text(p, s) | Val::Uri(p, s) => p.is_empty() && s.is_empty(),
                        _ => true,
                    })
            };
            *same && empty(a) && empty(b)
        });
        case.state(&i);
        if !ok {
            case.fail(|| format!("a new component isn't empty: {r:?}"));
        }
    });
}

// ---------------------------------------------------------------- C27

pub const C27: Info = Info {
    id: "C27",
    zones: super::zones::ZONES,
    more_zones: super::zones::MORE_ZONES,
    rule: "every day of two centuries, every instant around the changes of daylight saving, ends of months, years and centuries, as a date, a floating and a local time; every accessor, conversion and chain of two conversions, every format item; in every local time zone",
    assumptions: &["offsets of the local zone at an instant are those of chrono"],
    run: c27,
};

const FORMATS: [&str; 22] = [
    "%Y", "%C", "%y", "%m", "%b", "%B", "%d", "%e", "%a", "%A", "%u", "%w", "%U", "%W", "%G", "%g", "%V", "%j", "%D", "%F", "%v", "day %d of %m",
];
const TIMES: [&str; 14] = ["%H", "%k", "%I", "%l", "%P", "%p", "%M", "%S", "%R", "%T", "%r", "%Y%m%dT%H%M%S", "%FT%T", "%d %H"];

fn views(t: i64) -> Vec<String> {
    use super::zones::{local_at, naive_at, offset_at, wall_ok};
    use chrono::{DateTime, Local, NaiveDate, NaiveDateTime};
    let mut bad = Vec::new();
    let (l, wall, f) = (local_at(t), naive_at(t + offset_at(t)), naive_at(t));
    for (name, d, w, local) in [("local", ikal::DateTime::Local(l), wall, true), ("floating", ikal::DateTime::Naive(f), f, false)] {
        let mut is = |what: &str, ok: bool| {
            if !ok {
                bad.push(format!("{what} of the {name} time {d:?}"));
            }
        };
        let a = ikal::Date::DateTime(d);
        is("the day", d.date_naive() == w.date() && a.date_naive() == w.date());
        is("the clock", d.naive() == w);
        is("has_time", a.has_time());
        is("from chrono", if local { ikal::DateTime::from(l) == d && ikal::Date::from(l) == a } else { ikal::DateTime::from(f) == d && ikal::Date::from(f) == a });
        is("to a date and back", ikal::Date::from(d) == a && ikal::DateTime::from(a) == d && ikal::DateTime::from(ikal::Date::from(d)) == d);
        is("to a naive time", NaiveDateTime::from(d) == w);
        is("to a naive day", NaiveDate::from(a) == w.date());
        let back = DateTime::<Local>::try_from(d).ok();
        is("to a local time", if local { back == Some(l) } else { wall_ok(t, back.map(|x| x.timestamp())) });
        if let Some(b) = back {
            is("to a local time and back", NaiveDateTime::from(ikal::DateTime::from(b)) == b.naive_local());
        }
        for fmt in FORMATS.iter().chain(&TIMES) {
            let want = w.format(fmt).to_string();
            is(fmt, d.format(fmt).to_string() == want && a.format(fmt).to_string() == want);
        }
        is("a copy", { let (x, y) = (d, a); x == d && y == a });
    }
    let day = f.date();
    let a = ikal::Date::from(day);
    let mut is = |what: &str, ok: bool| {
        if !ok {
            bad.push(format!("{what} of the date {a:?}"));
        }
    };
    is("from chrono", matches!(a, ikal::Date::Date(x) if x == day));
    is("the day", a.date_naive() == day && NaiveDate::from(a) == day);
    is("has_time", !a.has_time());
    is("to a time", matches!(ikal::DateTime::from(a), ikal::DateTime::Naive(x) if x == day.and_hms_opt(0, 0, 0).unwrap()));
    is("to a time and back", NaiveDate::from(ikal::Date::from(ikal::DateTime::from(a))) == day);
    for fmt in FORMATS {
        is(fmt, a.format(fmt).to_string() == day.format(fmt).to_string());
    }
    bad
}

fn c27(run: &Run) {
    use crate::cal;
    let judge = |t: i64, case: &mut Case| {
        case.steps(1);
        case.state(&t);
        case.validated();
        match imp(|| views(t)) {
            Ok(bad) if bad.is_empty() => (),
            r => case.fail(|| format!("{} ({t}): wrong {r:?}", cal::fmt_naive(t))),
        }
    };
    let ts = super::zones::instants(run);
    run.family("instants", ts.len() as u64, |i, case| judge(ts[i as usize], case));
    let (from, to) = (cal::days(1895, 1, 1), cal::days(2105, 1, 1));
    run.family("every day of two centuries", product(&[(to - from) as usize, 3]), |i, case| {
        let mut d = Dec(i);
        let at = [0, 43_200, 86_399][d.take(3)];
        judge((from + d.take((to - from) as usize) as i64) * cal::DAY + at, case);
    });
    let years: Vec<i64> = (0..=9999).collect();
    run.family("every year", product(&[years.len(), 6]), |i, case| {
        let mut d = Dec(i);
        let (m, day) = [(1, 1), (1, 3), (2, 28), (3, 1), (12, 29), (12, 31)][d.take(6)];
        judge(cal::secs(years[d.take(years.len())], m, day, 1, 2, 3), case);
    });
    // every minute of the days of change
    let days: Vec<i64> = [(3, 10), (3, 31), (4, 7), (9, 29), (10, 6), (10, 27), (11, 3)].iter().flat_map(|(m, d)| [-1, 0].map(|o| cal::days(2024, *m, *d) + o)).collect();
    run.family("every minute of days of change", product(&[days.len(), 1440]), |i, case| {
        let mut d = Dec(i);
        let minute = d.take(1440) as i64;
        judge(days[d.take(days.len())] * cal::DAY + minute * 60, case);
    });
}

// ---------------------------------------------------------------- C28

pub const C28: Info = Info {
    id: "C28",
    zones: &["UTC", "CET-1CEST,M3.5.0,M10.5.0/3"],
    more_zones: &["America/New_York"],
    rule: "every component with each property line, each of many values of each type, each pair of values of a list, full components, nested components; every short hostile text put into fields; each value written on its own, as an option, in a list and in its component: the same text",
    assumptions: &[],
    run: c28,
};

/// Compares what a component writes with what its parts write on their own.
fn parts_agree(kind: Kind, x: &Any) -> Result<(), String> {
    let p = x.parts();
    if let Some(w) = p.wrong.first() {
        return Err(w.clone());
    }
    let text = x.ical().map_err(|e| e.to_string())?;
    // the nested components, as they are, are the end of the text
    let mut lines = text.clone();
    for k in &p.kids {
        let Some(at) = lines.find(k.as_str()) else {
            return Err(format!("{k:?} isn't in {text:?}"));
        };
        lines.replace_range(at..at + k.len(), "");
    }
    let lines = model::unfold(&lines);
    let mut lines: Vec<&str> = lines.split("\r\n").collect();
    let whole = |a: &Alone| match &a.0 {
        Some(attr) => a.2 == format!("{attr}:{}", a.1),
        None => a.2 == a.1,
    };
    for (field, values) in &p.fields {
        let Some(prop) = kind.props().iter().find(|x| x.field == *field) else {
            return Err(format!("unknown field {field}"));
        };
        let mut rest = &values[..];
        while let Some(first) = rest.first() {
            if !whole(first) {
                return Err(format!("{field}: alone {:?}, of attributes {:?} and value {:?}", first.2, first.0, first.1));
            }
            // one line for it, or for it and the next ones
            let found = (1..=rest.len()).find_map(|n| {
                let value = rest[..n].iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(",");
                let with = rest[0].0.as_ref().map(|a| format!("{};{a}:{value}", prop.name));
                let without = format!("{}:{value}", prop.name);
                let at = lines.iter().position(|l| match &with {
                    Some(w) => l == w || prop.mult == Mult::List && *l == without && n > 1,
                    None => *l == without,
                })?;
                Some((n, at))
            });
            match found {
                Some((n, at)) => {
                    lines.remove(at);
                    rest = &rest[n..];
                }
                None => return Err(format!("{field}: {first:?} isn't a line of {lines:?}")),
            }
        }
    }
    for (name, a) in &p.extensions {
        if !whole(a) {
            return Err(format!("{name}: alone {:?}, of attributes {:?} and value {:?}", a.2, a.0, a.1));
        }
        let line = match &a.0 {
            Some(attr) => format!("{name};{attr}:{}", a.1),
            None => format!("{name}:{}", a.1),
        };
        match lines.iter().position(|l| *l == line) {
            Some(at) => {
                lines.remove(at);
            }
            None => return Err(format!("{line:?} isn't a line of {lines:?}")),
        }
    }
    if lines.len() != 3 || !lines[0].starts_with("BEGIN:") || !lines[1].starts_with("END:") || !lines[2].is_empty() {
        return Err(format!("belongs to no value: {lines:?}"));
    }
    Ok(())
}

fn agree(case: &mut Case, kind: Kind, x: &Any, what: &dyn Fn() -> String) {
    case.steps(1);
    case.validated();
    let r = imp(|| parts_agree(kind, x));
    case.state(&(kind, x.obs()));
    match r {
        Ok(Ok(())) => (),
        Ok(Err(e)) | Err(e) => case.fail(|| format!("{kind:?} {}: {e}", what())),
    }
}

fn c28(run: &Run) {
    for kind in KINDS {
        let mut texts: Vec<String> = vec![docs::minimal(kind)];
        for n in 0..4 {
            texts.push(docs::full_doc(kind, n));
        }
        texts.extend(some_lines(kind).into_iter().map(|l| in_doc(kind, l)));
        for p in kind.props().iter().filter(|p| p.name != "ACTION") {
            let vs = many(p.ty, run.thorough());
            texts.extend(vs.iter().map(|v| in_doc(kind, format!("{}{v}", p.name))));
            if p.mult == Mult::List {
                let few: Vec<&str> = docs::good(p.ty).iter().chain(near(p.ty)).copied().collect();
                for a in &few {
                    for b in &few {
                        texts.push(in_doc(kind, format!("{n}{a}\r\n{n}{b}", n = p.name)));
                        texts.push(in_doc(kind, format!("{n}{a}\r\n{n}{b}\r\n{n}{a}", n = p.name)));
                    }
                }
            }
        }
        run.family(&format!("{kind:?}: read"), texts.len() as u64, |i, case| {
            let t = &texts[i as usize];
            match imp(|| Any::parse(kind, t).ok()) {
                Ok(Some(x)) => agree(case, kind, &x, &|| format!("{t:?}")),
                _ => case.unspecified(),
            }
        });
    }
    // nested components
    for (kind, kids) in [
        (Kind::Event, &[Kind::Audio, Kind::Display, Kind::Email][..]),
        (Kind::Timezone, &[Kind::Standard, Kind::Daylight]),
        (Kind::Calendar, &[Kind::Event, Kind::Todo, Kind::Journal, Kind::Freebusy, Kind::Timezone, Kind::Audio, Kind::Display, Kind::Email]),
    ] {
        let some: Vec<String> = kids.iter().flat_map(|k| (0..2).map(|n| docs::full_doc(*k, n)).chain([docs::minimal(*k)])).collect();
        run.family(&format!("{kind:?}: nested"), product(&[some.len(), some.len() + 1]), |i, case| {
            let mut d = Dec(i);
            let a = &some[d.take(some.len())];
            let b = d.take(some.len() + 1);
            let tail = format!("{a}{}", some.get(b).map_or("", |x| x.as_str()));
            let t = docs::doc(kind, &docs::base(kind), &tail);
            match imp(|| Any::parse(kind, &t).ok()) {
                Ok(Some(x)) => agree(case, kind, &x, &|| format!("{t:?}")),
                _ => case.unspecified(),
            }
        });
    }
    // texts nobody would read
    let hostile = ["a", "N", " ", "\t", "\r", "\n", "\\", ";", ",", ":", "\"", "é", "😀", "\0"];
    run.family("built", strings_count(hostile.len(), 0, run.pick(4, 5)), |i, case| {
        let (s, _) = concat_at(&hostile, 0, i);
        let t = |p: &[(&str, &str)]| ikal::Text { params: p.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect(), text: s.clone() };
        let mut e = ikal::VEvent { uid: t(&[]), summary: Some(t(&[("LANGUAGE", "en")])), comment: vec![t(&[]), t(&[("A", "b"), ("C", "d;e")])], ..Default::default() };
        e.categories = vec![t(&[])];
        e.url = Some(ikal::Uri { params: Default::default(), uri: s.clone() });
        e.class = Some(ikal::Class::Custom(s.clone()));
        e.x_prop.insert("X-A".into(), s.as_str().into());
        e.iana_prop.insert("B".into(), s.as_str().into());
        e.rstatus = vec![ikal::RequestStatus { statcode: 2.0, statdesc: s.clone(), extdata: Some(s.clone()) }];
        agree(case, Kind::Event, &Any::Event(e), &|| format!("holding {s:?}"));
    });
    run.family("lengths", 400, |i, case| {
        let s = "é,".repeat(i as usize);
        let mut e = ikal::VEvent { uid: s.as_str().into(), comment: vec![s.as_str().into(), "x".into()], ..Default::default() };
        e.x_prop.insert("X-A".into(), s.as_str().into());
        agree(case, Kind::Event, &Any::Event(e), &|| format!("holding {s:?}"));
    });
}
