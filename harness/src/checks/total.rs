//! C01: parsing answers, whatever the text.

use super::values::{ENTRIES, Entry, edits, places};
use super::zones::{MORE_ZONES, ZONES};
use crate::cal;
use crate::cli::Info;
use crate::docs;
use crate::engine::{Case, Dec, Run, concat_at, imp, product, strings_count};
use crate::model::{KINDS, Kind, Ty};
use crate::obs::Any;

pub const C01: Info = Info {
    id: "C01",
    zones: ZONES,
    more_zones: MORE_ZONES,
    rule: "for every component and stand-alone parser: all short strings over its alphabet, every Unicode character (quick: one in 13 beyond U+3000) in and around every kind of value, every single edit of good values and every truncation and single edit of full documents, numbers and repetitions of growing length at every numeric place, every hour around the changes of daylight saving, deep and long documents; only panics, overflows, aborts and non-termination (40 s) are judged",
    assumptions: &["built with overflow checks and debug assertions"],
    run: c01,
};

fn value(case: &mut Case, e: &Entry, s: &str) {
    case.steps(1);
    case.validated();
    match imp(|| (e.parse)(s).is_some()) {
        Ok(ok) => case.state(&(e.name, ok, s.len().min(40))),
        Err(p) => case.fail(|| format!("parsing {s:?} as {} {p}", e.name)),
    }
}

fn others(s: &str) -> u8 {
    // the alarms have parsers of their own
    u8::from(s.parse::<ikal::valarm::Audio>().is_ok())
        + u8::from(s.parse::<ikal::valarm::Display>().is_ok())
        + u8::from(s.parse::<ikal::valarm::Email>().is_ok())
        + u8::from(ikal::valarm::Audio::try_from(s).is_ok())
        + u8::from(ikal::VAlarm::try_from(s.to_string()).is_ok())
}

fn short(s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    if cs.len() <= 700 {
        return format!("{s:?}");
    }
    let head: String = cs[..400].iter().collect();
    let tail: String = cs[cs.len() - 200..].iter().collect();
    format!("{head:?} … {} characters … {tail:?}", cs.len() - 600)
}

fn document(case: &mut Case, kind: Kind, s: &str) {
    case.steps(1);
    case.validated();
    // what is wrong can be said, too
    match imp(|| Any::parse(kind, s).map_err(|e| e.to_string()).is_ok()) {
        Ok(ok) => case.state(&(kind, ok, s.len())),
        Err(p) => case.fail(|| format!("parsing as {kind:?} {p}: {}", short(s))),
    }
}

fn everywhere(case: &mut Case, s: &str) {
    for k in KINDS {
        document(case, k, s);
    }
    case.steps(1);
    if let Err(p) = imp(|| others(s)) {
        case.fail(|| format!("parsing as an alarm {p}: {}", short(s)));
    }
    for e in &ENTRIES {
        value(case, e, s);
    }
}

const HOSTILE: &[&str] = &[
    "\0", "\t", "\n", "\r", "\r\n", "\r\n ", "\n\t", " ", "\"", "'", "+", ",", "-", ".", "/", "0", "9", ":", ";", "=", "A", "Z", "\\", "\\n", "_", "a", "\u{7f}", "\u{80}",
    "é", "ß", "ſ", "\u{300}", "€", "\u{feff}", "\u{2028}", "\u{1d7d8}", "٣", "😀", "\u{10ffff}",
];

/// Numbers of every length and around every boundary.
fn numbers() -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    for n in 1..=45 {
        out.extend(["0".repeat(n), "9".repeat(n), format!("1{}", "0".repeat(n)), "٣".repeat(n)]);
    }
    for p in [7u32, 8, 15, 16, 23, 24, 31, 32, 53, 63, 64, 127] {
        let x = if p == 127 { u128::MAX / 2 } else { 1u128 << p };
        out.extend([x.saturating_sub(1), x, x + 1].map(|x| x.to_string()));
    }
    for p in [i64::MAX / 1000, i64::MAX / 1_000_000, i64::MAX / 1_000_000_000] {
        for u in [1, 60, 3600, 86_400, 604_800] {
            out.extend([p / u - 1, p / u, p / u + 1].map(|x| x.to_string()));
        }
    }
    for n in 0..=400 {
        out.push(n.to_string());
    }
    out.push(format!("{}", f64::MAX));
    out.extend(
        ["262142", "262143", "262144", "1e400", "-0", "+1", "--1", "1.", ".1", "nan", "inf", "-inf", "1e-400", "0x1", "1_0", "", " 1", "1 "].map(String::from),
    );
    let signed: Vec<String> = out.iter().flat_map(|x| [format!("-{x}"), format!("+{x}")]).collect();
    out.extend(signed);
    out.sort();
    out.dedup();
    out
}

/// Texts with a number (`#`) in them, stand-alone and as properties.
const NUMERIC: &[&str] = &[
    "#", "#0101", "2024#01", "202401#", "#T000000", "20240101T#", "20240101T#0000", "20240101T00#00", "20240101T0000#", "20240101T0000#Z", "#Z", "P#D", "P#W", "PT#H", "PT#M", "PT#S",
    "-P#DT#H#M#S", "P#DT#H", "PT#H#M", "PT#M#S", "P1DT#S", "P#Y", "P#M", "P#Y#M#D", "+P#W", "#D", "T#S", "20240101T000000/P#D", "20240101T000000/PT#S", "20240101T000000Z/PT#H",
    "20240101T000000/20240101T0000#", "#/#", "99991231T235959Z/P#D", "00000101T000000Z/-P#D", "FREQ=DAILY;COUNT=#", "FREQ=DAILY;INTERVAL=#", "FREQ=YEARLY;UNTIL=#", "FREQ=YEARLY;UNTIL=#T000000Z",
    "FREQ=DAILY;BYSECOND=#", "FREQ=DAILY;BYMINUTE=0,#", "FREQ=DAILY;BYHOUR=#", "FREQ=DAILY;BYMONTHDAY=#", "FREQ=DAILY;BYYEARDAY=#", "FREQ=DAILY;BYWEEKNO=#", "FREQ=DAILY;BYMONTH=#",
    "FREQ=DAILY;BYSETPOS=#", "FREQ=DAILY;BYDAY=#MO", "#MO", "#SU", "-#FR", "#;#", "#.#;#.#", "#.1;1", "#;x", "#.#;x;y", "2.#;x", "+#", "-#", "+##", "+00#", "-#00", "+0000#", "+1200#", "#;", ";#",
];

fn c01(run: &Run) {
    // what doesn't depend on the local zone is explored in one of them
    let home = run.zone == "UTC";
    let wide = home || run.thorough();
    let deep = home && run.thorough();
    let pick = |q: usize, t: usize| if deep { t } else { q };

    // every short string
    let alphabets: Vec<(&str, Vec<&str>, usize)> = vec![
        ("Date", vec!["0", "1", "9", "T", "Z", "-", " ", "é"], pick(6, 8)),
        ("DateTime", vec!["2024", "01", "0", "3", "T", "Z", "+", "é"], pick(6, 8)),
        ("parse_duration", vec!["P", "T", "-", "+", "1", "9999999999", "W", "D", "H", "M", "S", "é"], pick(5, 6)),
        ("Trigger", vec!["P", "T", "-", "1", "9999999999", "W", "D", "20240331", "023000", "Z", "é"], pick(5, 6)),
        ("Period", vec!["/", "20240331T023000", "Z", "P", "T", "1", "D", "-", "99999999999999", "é"], pick(5, 6)),
        ("Recur", vec!["FREQ=", "DAILY", ";", "COUNT=", "UNTIL=", "BYDAY=", "MO", "-", "1", "999", ",", "é"], pick(5, 6)),
        ("RequestStatus", vec!["1", ".", ";", "\\", "-", "e", "9999999999", "é", "\""], pick(5, 7)),
        ("Geo", vec!["1", ".", ";", "-", "e", "9999999999", "é", "nan"], pick(6, 7)),
        ("Class", vec!["PUBLIC", "P", "p", "ß", "é", "-", " ", "ŉ"], pick(5, 7)),
        ("Status", vec!["DRAFT", "FINAL", "N", "-", "é", " ", "d"], pick(5, 7)),
        ("TimeTransparency", vec!["OPAQUE", "TRANSPARENT", "O", "é", "o"], pick(5, 7)),
        ("Freq", vec!["DAILY", "HOUR", "LY", "é", "d"], pick(5, 7)),
        ("Weekday", vec!["M", "O", "S", "U", "é", "1", "m"], pick(5, 7)),
        ("WeekdayNum", vec!["M", "O", "S", "U", "é", "1", "-", "+", "128", "😀"], pick(5, 7)),
    ];
    for (name, alphabet, len) in &alphabets {
        if !wide && !["Date", "DateTime", "Trigger", "Period"].contains(name) {
            continue;
        }
        let e = ENTRIES.iter().find(|e| e.name == *name).unwrap();
        run.family(&format!("short texts of {name}"), strings_count(alphabet.len(), 0, *len), |i, case| {
            let (s, _) = concat_at(alphabet, 0, i);
            case.sample(|| format!("{s:?}"));
            value(case, e, &s);
        });
    }

    // all parsers on all short hostile strings
    let few: Vec<&str> = HOSTILE.iter().copied().chain(["BEGIN:VEVENT", "END:VEVENT", "BEGIN:", "P", "T"]).collect();
    run.family("short hostile texts", strings_count(few.len(), 0, pick(2, 3)), |i, case| {
        let (s, _) = concat_at(&few, 0, i);
        everywhere(case, &s);
    });

    // every character
    let chars: Vec<char> = (0..=0x10_ffff).filter_map(char::from_u32).collect();
    let chars: Vec<char> = if deep {
        chars
    } else if home {
        chars.into_iter().filter(|c| (*c as u32) < 0x3000 || (*c as u32) % 13 == 0).collect()
    } else { chars.into_iter().step_by(if wide { 7 } else { 101 }).collect() };
    let samples: Vec<(usize, &str)> = vec![
        (0, "20240101"), (1, "20240101T000000"), (2, "P1D"), (3, "-PT5M"), (4, "20240101T000000/PT1H"), (5, "FREQ=DAILY;COUNT=1"), (6, "2.0;ok"), (7, "1.0;2.0"), (8, "PUBLIC"), (9, "DRAFT"), (10, "OPAQUE"),
        (11, "DAILY"), (12, "MO"), (13, "-1MO"),
    ];
    run.family("every character", chars.len() as u64, |i, case| {
        let c = chars[i as usize];
        for (e, good) in &samples {
            let e = &ENTRIES[*e];
            value(case, e, &c.to_string());
            value(case, e, &format!("{c}{good}"));
            value(case, e, &format!("{good}{c}"));
            let mid = good.len() / 2;
            value(case, e, &format!("{}{c}{}", &good[..mid], &good[mid..]));
        }
        if deep || (c as u32) < 0x300 || (c as u32) % 499 == 0 {
            for k in [Kind::Event, Kind::Calendar, Kind::Display] {
                for s in [format!("{c}"), format!("X-A{c}:1"), format!("X-A;{c}=1:1"), format!("X-A;B={c}:1"), format!("X-A;B=\"{c}\":1"), format!("DTSTAMP:{c}"), format!("X-A:{c}{c}\r\n {c}")] {
                    document(case, k, &super::values::in_doc(k, s));
                }
                document(case, k, &format!("BEGIN:{c}\r\nEND:{c}\r\n"));
                document(case, k, &format!("{c}{}", docs::minimal(k)));
                document(case, k, &format!("{}{c}", docs::minimal(k)));
                document(case, k, &docs::minimal(k).replace("\r\n", &c.to_string()));
            }
        }
    });

    // edits of good and bad values
    let tys = [
        Ty::Dt, Ty::Date, Ty::Dur, Ty::U8, Ty::U32, Ty::Prio, Ty::Text, Ty::Uri, Ty::Class, Ty::Status, Ty::Transp, Ty::Geo, Ty::RStat, Ty::Recur, Ty::RDate, Ty::Offset, Ty::Trigger, Ty::TextList,
        Ty::DateList, Ty::PeriodList,
    ];
    let mut values: Vec<String> = Vec::new();
    for ty in tys {
        for v in docs::good(ty).iter().chain(docs::bad(ty)) {
            let v = v.split_once(':').map_or(*v, |x| x.1);
            if v.len() < 120 {
                values.push(v.to_string());
            }
        }
    }
    values.sort();
    values.dedup();
    run.family("edited values", values.len() as u64, |i, case| {
        for s in edits(&values[i as usize], HOSTILE) {
            for e in &ENTRIES {
                value(case, e, &s);
            }
        }
    });
    let spots = places(&tys);
    run.family("edited values in documents", product(&[values.len(), spots.len()]), |i, case| {
        let mut d = Dec(i);
        let v = d.of(&values);
        let (k, p) = d.of(&spots);
        // every edit of a value in the properties of one type, a few in all the others
        let all = deep || k.prop(&p[..p.len() - 1]).is_some_and(|p| docs::good(p.ty).iter().any(|g| g.ends_with(v.as_str())));
        for (j, s) in edits(v, HOSTILE).into_iter().enumerate() {
            if all || j % 97 == (i % 97) as usize {
                document(case, *k, &super::values::in_doc(*k, format!("{p}{s}")));
            }
        }
    });

    // numbers
    let numbers = numbers();
    run.family("numbers", product(&[numbers.len(), NUMERIC.len()]), |i, case| {
        if !wide && i % 5 != 0 {
            return;
        }
        let mut d = Dec(i);
        let n = d.of(&numbers);
        let s = d.of(NUMERIC).replace('#', n);
        case.sample(|| s.clone());
        for e in &ENTRIES {
            value(case, e, &s);
        }
    });
    run.family("numbers in documents", product(&[numbers.len(), NUMERIC.len(), spots.len()]), |i, case| {
        let mut d = Dec(i);
        let n = d.take(numbers.len());
        let t = d.take(NUMERIC.len());
        let spot = d.take(spots.len());
        if !deep && (n * 7 + t * 3 + spot) % if wide { 9 } else { 89 } != 0 {
            return;
        }
        let (k, p) = &spots[spot];
        document(case, *k, &super::values::in_doc(*k, format!("{p}{}", NUMERIC[t].replace('#', &numbers[n]))));
    });

    // moments the clocks skip or pass twice, and the ends of the calendar
    let mut walls: Vec<String> = Vec::new();
    for y in [1, 1900, 1945, 1970, 2011, 2023, 2024, 2038, 9999] {
        let from = cal::days(y, 1, 1);
        for day in from..=from + 365 {
            let step = if y == 2024 { 1 } else { 3 };
            let mut h = 0;
            while h < 24 {
                let t = cal::fmt_naive(day * cal::DAY + h * 3600);
                if t.len() == 15 {
                    walls.push(t);
                }
                h += step;
            }
        }
    }
    walls.extend(["00000101T000000", "00000101T235959", "99991231T235959", "99991231T120000", "20161231T235960", "20240630T235960", "20240331T023000", "20240331T022960"].map(String::from));
    run.family("local times", walls.len() as u64, |i, case| {
        for t in [format!("{}Z", walls[i as usize]), format!("{}3000Z", &walls[i as usize][..11])] {
            for e in &ENTRIES[..6] {
                value(case, e, &t);
            }
            value(case, &ENTRIES[4], &format!("{t}/{t}"));
            value(case, &ENTRIES[4], &format!("{t}/P1D"));
            value(case, &ENTRIES[5], &format!("FREQ=DAILY;UNTIL={t}"));
            for l in ["DTSTART:", "EXDATE:", "RDATE;VALUE=PERIOD:", "RRULE:FREQ=DAILY;UNTIL="] {
                document(case, Kind::Event, &super::values::in_doc(Kind::Event, format!("{l}{t}")));
            }
            document(case, Kind::Freebusy, &super::values::in_doc(Kind::Freebusy, format!("FREEBUSY:{t}/{t}")));
            document(case, Kind::Display, &docs::minimal(Kind::Display).replace("TRIGGER:", &format!("TRIGGER:{t}\r\nX-OLD:")));
        }
    });

    // full documents cut and edited everywhere
    let alphabet: &[&str] = if deep { HOSTILE } else { &["\"", "\r\n", "\n", ":", ";", "😀", "", "\\"] };
    for k in KINDS {
        for which in 0..pick(1, 4) {
            let doc = docs::full_doc(k, which);
            let at: Vec<usize> = doc.char_indices().map(|(i, _)| i).chain([doc.len()]).collect();
            let stride = if deep || at.len() < 3000 {
                1
            } else if wide {
                3
            } else {
                29
            };
            run.family(&format!("edited {k:?} {which}"), product(&[at.len(), 4 + alphabet.len() * 2]), |i, case| {
                let mut d = Dec(i);
                let op = d.take(4 + alphabet.len() * 2);
                let x = d.take(at.len());
                if x % stride != 0 {
                    return;
                }
                let pos = at[x];
                let next = at.get(x + 1).copied().unwrap_or(pos);
                let s = match op {
                    0 => doc[..pos].to_string(),
                    1 => doc[pos..].to_string(),
                    2 => format!("{}{}{}", &doc[..next], &doc[pos..next], &doc[next..]),
                    3 => format!("{}END:{}\r\n", &doc[..pos], k.tag()),
                    o if o < 4 + alphabet.len() => format!("{}{}{}", &doc[..pos], alphabet[o - 4], &doc[next..]),
                    o => format!("{}{}{}", &doc[..pos], alphabet[o - 4 - alphabet.len()], &doc[pos..]),
                };
                document(case, k, &s);
            });
        }
    }

    // lines of full documents dropped, doubled, exchanged, and given to the other parsers
    for k in KINDS {
        let doc = docs::full_doc(k, 1);
        let lines: Vec<&str> = doc.split_inclusive("\r\n").collect();
        let n = lines.len();
        let far = pick(if wide { 12 } else { 2 }, n);
        run.family(&format!("lines of {k:?}"), product(&[n, far.min(n), 3]), |i, case| {
            let mut d = Dec(i);
            let (a, b) = (d.take(n), d.take(far.min(n)));
            let b = (a + b) % n;
            let mut v = lines.clone();
            match d.take(3) {
                0 => v.swap(a, b),
                1 => v[a] = lines[b],
                _ => {
                    v.drain(a.min(b)..=a.max(b));
                }
            }
            document(case, k, &v.concat());
        });
    }
    run.family("documents of another kind", product(&[KINDS.len(), 4]), |i, case| {
        let mut d = Dec(i);
        let k = *d.of(&KINDS);
        let doc = docs::full_doc(k, d.take(4));
        everywhere(case, &doc);
        everywhere(case, &docs::in_calendar(&doc));
        everywhere(case, &doc.replace("\r\n", "\n"));
        everywhere(case, &doc.replace("\r\n", "\r"));
        everywhere(case, &doc.replace("\r\n", "\r\n "));
        everywhere(case, &doc.to_lowercase());
        everywhere(case, &doc.repeat(3));
    });

    // all short sequences of structural lines
    let tokens: Vec<&str> = vec![
        "BEGIN:VCALENDAR\r\n", "END:VCALENDAR\r\n", "BEGIN:VEVENT\r\n", "END:VEVENT\r\n", "BEGIN:VALARM\r\n", "END:VALARM\r\n", "BEGIN:STANDARD\r\n", "ACTION:AUDIO\r\n", "UID:1\r\n",
        "BEGIN:\r\n", "BEGIN\r\n", "END", ":", " \r\n", "\r\n", "X-A:1\r\n", "BEGIN:VTIMEZONE\r\n", "END:VTIMEZONE\r\n",
    ];
    let len = pick(if wide { 4 } else { 2 }, 5);
    run.family("structures", strings_count(tokens.len(), 0, len), |i, case| {
        let (s, _) = concat_at(&tokens, 0, i);
        for k in [Kind::Calendar, Kind::Event, Kind::Timezone, Kind::Display] {
            document(case, k, &s);
        }
        let inner = format!("BEGIN:VCALENDAR\r\n{s}END:VCALENDAR\r\n");
        document(case, Kind::Calendar, &inner);
    });

    // long and deep texts
    if !home {
        return;
    }
    let sizes: &[usize] = run.pick(&[1, 2, 100, 1000, 2500, 20_000], &[1, 2, 50, 1000, 5000, 20_000, 100_000, 300_000]);
    let long = repetitions();
    run.tight("long texts", product(&[sizes.len(), long.len()]), |i, case| {
        let mut d = Dec(i);
        let n = *d.of(sizes);
        let (head, part, tail) = d.of(&long);
        let s = format!("{head}{}{tail}", part.repeat(n));
        if s.len() > 12_000_000 {
            return;
        }
        for k in [Kind::Calendar, Kind::Event, Kind::Timezone, Kind::Display, Kind::Freebusy, Kind::Todo] {
            document(case, k, &s);
        }
        for e in &ENTRIES {
            value(case, e, &s);
        }
    });
}

/// A head, something repeated, and a tail.
fn repetitions() -> Vec<(String, String, String)> {
    let mut out: Vec<(String, String, String)> = Vec::new();
    let cal = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:1\r\n";
    let ev = "BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nDTSTART:20240101T000000Z\r\n";
    let mut put = |a: &str, b: &str, c: &str| out.push((a.into(), b.into(), c.into()));
    for part in ["BEGIN:VCALENDAR\r\n", "BEGIN:VEVENT\r\n", "BEGIN:VALARM\r\n", "BEGIN:X\r\n", "BEGIN:X\r\nEND:X\r\n", "END:VCALENDAR\r\n", "X-A:1\r\n", "\r\n", "\n", " ", "\r\n ", "a", "é", ":", ";", "\"", "\\", ",", ";A=1", ";A=\"1\"", "P", "1", "-", "+", "/"] {
        put("", part, "");
        put(cal, part, "END:VCALENDAR\r\n");
        put(ev, part, "END:VEVENT\r\n");
        put(&format!("{cal}{ev}"), part, "END:VEVENT\r\nEND:VCALENDAR\r\n");
        for l in ["X-A:", "X-A;B=", "X-A;B=\"", "X-A", "X-A:\"", "DESCRIPTION:", "GEO:", "RRULE:FREQ=DAILY;BYDAY=", "EXDATE:", "RDATE:", "REQUEST-STATUS:", "DURATION:", "PRIORITY:", "DTEND:"] {
            put(&format!("{ev}{l}"), part, "\r\nEND:VEVENT\r\n");
        }
    }
    for (l, part) in [
        ("EXDATE:20240101", ",20240101"), ("RDATE;VALUE=PERIOD:20240101T000000Z/P1D", ",20240101T000000Z/P1D"), ("RRULE:FREQ=DAILY;BYMONTH=1", ",1"), ("RRULE:FREQ=DAILY", ";COUNT=1"), ("RRULE:FREQ=DAILY;BYDAY=1MO", ",-1SU"),
        ("CATEGORIES:a", ",b"), ("ATTENDEE", ";X=1"), ("X-A;B=1", ",2"), ("X-A;B=\"1\"", ",\"2\""), ("DURATION:P", "1D"), ("DURATION:PT", "1H"), ("REQUEST-STATUS:1", ".1"), ("REQUEST-STATUS:1.1", ";a"), ("GEO:1", ";1"), ("GEO:1.", "1"),
        ("X-A:a", "\r\n b"), ("X-A:a", "\r\n \r\n b"), ("X-A:a\\", "\\"),
    ] {
        put(&format!("{ev}{l}"), part, "\r\nEND:VEVENT\r\n");
    }
    for part in ["BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nDTSTART:20240101\r\nEND:VEVENT\r\n", "BEGIN:VTIMEZONE\r\nTZID:1\r\nEND:VTIMEZONE\r\n", "BEGIN:VALARM\r\nACTION:DISPLAY\r\nDESCRIPTION:1\r\nTRIGGER:-PT1M\r\nEND:VALARM\r\n"] {
        put(cal, part, "END:VCALENDAR\r\n");
        put(ev, part, "END:VEVENT\r\n");
    }
    for (a, b) in [("FREQ=DAILY;BYDAY=MO", ",MO"), ("FREQ=DAILY", ";FREQ=DAILY"), ("P", "1D"), ("PT", "1S"), ("2", ".0"), ("2.0;a", ";b"), ("1;", "1"), ("20240101T000000/P", "1D"), ("", "/"), ("-", "-"), ("+", "1MO")] {
        put(a, b, "");
    }
    out
}
