//! C30: what an operation costs grows in proportion to its input.

use super::values::{ENTRIES, Entry};
use crate::cli::Info;
use crate::docs;
use crate::engine::{Case, Dec, Run, imp, product};
use crate::meter::{Cost, cost};
use crate::model::{KINDS, Kind, Ty};
use crate::obs::Any;

pub const C30: Info = Info {
    id: "C30",
    zones: &["CET-1CEST,M3.5.0,M10.5.0/3"],
    more_zones: &["UTC"],
    rule: "every kind of component x every line, pair of lines, nested component, broken line or short text over a hostile alphabet, repeated at every kind of place (lines, folds, parameters, names, values, lists, quoted values, behind a good value), closed, left open or ended by a line that is refused; every type of value x the same; each read, explained if refused, written, compared, copied and dropped; every kind of recurring component walked; each at growing sizes: memory asked for at 128 times the size is at most 3 times 128 times as much, processor time at up to 256 times the size at most 8 times in proportion (judged only above 0.3 s, by the least of three measurements)",
    assumptions: &["constant factors below 3 (memory) and 8 (time) aren't judged", "the rest of the document is constant while one part grows"],
    run: c30,
};

/// Where the number of the repetition goes.
const EACH: &str = "{#}";
/// The same as a day.
const DAY: &str = "{day}";

/// A text with a part that is repeated.
struct Shape {
    head: String,
    unit: Vec<String>,
    tail: String,
}

impl Shape {
    fn text(&self, n: usize) -> String {
        let mut s = self.head.clone();
        for i in 0..n {
            for u in &self.unit {
                // each one different
                if u.contains(EACH) {
                    s.push_str(&u.replace(EACH, &i.to_string()));
                } else if u.contains(DAY) {
                    s.push_str(&u.replace(DAY, &format!("{:04}{:02}{:02}", 1900 + i / 336, i / 28 % 12 + 1, i % 28 + 1)));
                } else {
                    s.push_str(u);
                }
            }
        }
        s.push_str(&self.tail);
        s
    }
    fn unit_len(&self) -> usize {
        self.unit.iter().map(String::len).sum::<usize>().max(1)
    }
    fn show(&self) -> String {
        let tail: String = self.tail.chars().take(60).collect();
        format!("{:?} + n times {:?} + {tail:?}", self.head, self.unit.concat())
    }
}

const OPS: [&str; 5] = ["read", "write", "copy", "compare", "drop"];

/// The costs of all operations on a text.
fn operations(kind: Kind, s: &str) -> Result<([Cost; 5], bool), String> {
    imp(|| {
        let none = Cost { bytes: 0, nanos: 0 };
        let (r, read) = cost(|| Any::parse(kind, s).map_err(|e| e.to_string().len()));
        match r {
            Ok(x) => {
                let (w, write) = cost(|| x.ical().is_ok());
                let (y, copy) = cost(|| x.clone());
                let (e, compare) = cost(|| x == y);
                let ((), drop) = cost(|| std::mem::drop(y));
                assert!(w && e, "written and equal to its copy");
                ([read, write, copy, compare, drop], true)
            }
            Err(_) => ([read, none, none, none, none], false),
        }
    })
}

fn value(e: &Entry, s: &str) -> Result<([Cost; 5], bool), String> {
    imp(|| {
        let none = Cost { bytes: 0, nanos: 0 };
        let (r, read) = cost(|| (e.parse)(s).is_some());
        ([read, none, none, none, none], r)
    })
}

type Measure<'a> = &'a dyn Fn(usize) -> Result<([Cost; 5], bool), String>;

/// Memory: exact, so one measurement at two sizes decides.
fn memory(case: &mut Case, measure: Measure, small: usize, factor: usize, show: &dyn Fn() -> String) -> Option<bool> {
    let (a, b) = match (measure(small), measure(small * factor)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => {
            case.fail(|| format!("{e}: {}", show()));
            return None;
        }
    };
    case.steps(small as u64 * (factor as u64 + 1));
    case.validated();
    for (i, op) in OPS.iter().enumerate() {
        let (x, y) = (a.0[i].bytes, b.0[i].bytes);
        if y > 3 * factor as u64 * x + 65_536 {
            case.fail(|| format!("{op}: {x} bytes of memory at n = {small}, {y} at n = {}: {}", small * factor, show()));
            return None;
        }
    }
    Some(b.1)
}

/// Time: judged only where it is long, far out of proportion, and so again.
fn time(case: &mut Case, measure: Measure, most: usize, show: &dyn Fn() -> String) {
    const BASE: usize = 512;
    const LONG: u64 = 300_000_000;
    let least = |n: usize| -> Result<[u64; 5], String> {
        let mut m = [u64::MAX; 5];
        for _ in 0..3 {
            let c = measure(n)?.0;
            for i in 0..5 {
                m[i] = m[i].min(c[i].nanos);
            }
        }
        Ok(m)
    };
    let r: Result<Option<String>, String> = (|| {
        let base = least(BASE)?;
        let mut n = BASE;
        while n * 4 <= most {
            n *= 4;
            let c = measure(n)?.0;
            case.steps(n as u64);
            let over = |t: u64, i: usize| t > LONG && t > 8 * (n / BASE) as u64 * base[i].max(1000);
            if let Some(i) = (0..5).find(|i| over(c[*i].nanos, *i)) {
                let t = least(n)?[i];
                if over(t, i) {
                    return Ok(Some(format!("{}: {} µs at n = {BASE}, {} µs at n = {n}", OPS[i], base[i] / 1000, t / 1000)));
                }
            }
            if c.iter().any(|c| c.nanos > LONG) {
                break;
            }
        }
        Ok(None)
    })();
    case.validated();
    match r {
        Ok(Some(e)) | Err(e) => case.fail(|| format!("{e}: {}", show())),
        Ok(None) => (),
    }
}

const HOSTILE: &[&str] = &[
    "\0", "\t", "\n", "\r", "\r\n", "\r\n ", "\r\n\t", " ", "\"", "'", "+", ",", "-", ".", "/", "0", "9", ":", ";", "=", "A", "Z", "\\", "\\n", "\\,", "\\;", "\\\\", "^n", "a", "é", "😀",
    "\r\nX-A:b", "\r\nX-A{#}:b", ";X-P{#}=v", ";P=\"q\"", ",\"q\"", "BEGIN:", "END:",
];

/// Places in a document: `#` is what grows.
const PLACES: &[&str] =
    &["X-A:#\r\n", "X-A:b#\r\n", "X-A;P=#:b\r\n", "X-A;P=v#:b\r\n", "X-A;P=\"#\":b\r\n", "X-A;P=\"q\"#:b\r\n", "X-A;#=v:b\r\n", "X-A#:b\r\n", "X-A;X-P#=v:b\r\n", "#:b\r\n", "#"];

fn nested(kind: Kind) -> Vec<String> {
    let kids: &[Kind] = match kind {
        Kind::Calendar => &[Kind::Event, Kind::Todo, Kind::Journal, Kind::Freebusy, Kind::Timezone, Kind::Display],
        Kind::Timezone => &[Kind::Standard, Kind::Daylight],
        Kind::Event | Kind::Todo => &[Kind::Audio, Kind::Display, Kind::Email],
        _ => &[],
    };
    let mut out: Vec<String> = kids.iter().map(|k| docs::minimal(*k)).collect();
    // unknown, broken, unfinished and stray ones
    out.extend(["BEGIN:X-C\r\nX-A:b\r\nEND:X-C\r\n", "BEGIN:X-C\r\n", "END:X-C\r\n", "BEGIN:VALARM\r\nEND:VALARM\r\n", "BEGIN:VEVENT\r\n", "BEGIN:VALARM\r\nBEGIN:VALARM\r\n"].map(String::from));
    out.push(format!("BEGIN:{}\r\n", kind.tag()));
    out.push("BEGIN:X-C{#}\r\nX-A:b\r\nEND:X-C{#}\r\n".to_string());
    out
}

/// What may be repeated between the lines of a component.
fn units(kind: Kind) -> Vec<String> {
    let mut out: Vec<String> = docs::lines(kind).iter().chain(&docs::odd_lines(kind)).map(|l| format!("{l}\r\n")).collect();
    out.extend(["X-A{#}:b\r\n", "\r\n", "\n", " \r\n", "X\r\n", ":\r\n", "X-A;B={#}:b\r\n"].map(String::from));
    for p in kind.props() {
        out.push(format!("{}:?\r\n", p.name));
        // each with a value of its own
        match p.ty {
            Ty::DateList => out.push(format!("{}:{{day}}T100000,{{day}}\r\n", p.name)),
            Ty::PeriodList => out.push(format!("{}:{{day}}T100000/PT1H\r\n", p.name)),
            Ty::RDate | Ty::Date => out.push(format!("{}:{{day}}\r\n", p.name)),
            Ty::Dt => out.push(format!("{}:{{day}}T100000Z\r\n", p.name)),
            Ty::Text | Ty::TextList | Ty::Class | Ty::Uri => out.push(format!("{}:v{{#}}\r\n", p.name)),
            _ => (),
        }
    }
    out.extend(nested(kind));
    out
}

/// How a document may end.
fn tails(kind: Kind) -> Vec<String> {
    let end = format!("END:{}\r\n", kind.tag());
    vec![end.clone(), String::new(), format!("DTSTAMP:x\r\nTRIGGER:x\r\nTZOFFSETTO:x\r\nVERSION:\r\n{end}"), format!("{end}X-A:b\r\n"), "END:X\r\n".to_string(), "\"".to_string()]
}

fn head(kind: Kind) -> String {
    let d = docs::minimal(kind);
    d[..d.len() - format!("END:{}\r\n", kind.tag()).len()].to_string()
}

/// Shapes of lists: each kind of place in each property line.
fn grown(line: &str) -> Vec<(String, Vec<String>, String)> {
    let i = line.find([':', ';']).unwrap_or(line.len());
    let (name, rest) = line.split_at(i);
    let v = {
        // the value: behind the first colon outside of quotes
        let mut q = false;
        let at = rest.char_indices().find(|(_, c)| {
            q ^= *c == '"';
            *c == ':' && !q
        });
        at.map_or(line.len(), |(j, _)| i + j + 1)
    };
    let value = &line[v..];
    let mut out = vec![
        (name.to_string(), vec![";X-P=b".to_string()], format!("{rest}\r\n")),
        (name.to_string(), vec![";X-P{#}=b".to_string()], format!("{rest}\r\n")),
        (format!("{name};X-P=a"), vec![",b".to_string()], format!("{rest}\r\n")),
        (name.to_string(), vec!["\r\n ".to_string()], format!("{rest}\r\n")),
        (line.to_string(), vec!["\r\n ".to_string()], "\r\n".to_string()),
        (line.to_string(), vec![format!(",{value}")], "\r\n".to_string()),
        (line.to_string(), vec![",v{#}".to_string()], "\r\n".to_string()),
        (line.to_string(), vec![",{day}".to_string()], "\r\n".to_string()),
        (line.to_string(), vec![format!(";{value}")], "\r\n".to_string()),
        (line.to_string(), vec![value.to_string()], "\r\n".to_string()),
    ];
    if let Some((key, last)) = value.rsplit_once('=') {
        // the parts of a rule
        out.push((line.to_string(), vec![format!(",{last}")], "\r\n".to_string()));
        out.push((line.to_string(), vec![format!(";{}={last}", key.rsplit(';').next().unwrap_or(key))], "\r\n".to_string()));
    }
    for c in ["0", "9", "a", " ", "\\", "\\,", "é", "-", "/", "Z", "\"", "\r\n X"] {
        out.push((line.to_string(), vec![c.to_string()], "\r\n".to_string()));
        out.push((line[..v].to_string(), vec![c.to_string()], format!("{value}\r\n")));
    }
    out
}

fn walked<I: Iterator>(it: I, how: usize, n: usize) -> (bool, Cost) {
    cost(|| match how {
        0 => it.take(n).count() == n,
        1 => { let mut it = it; it.nth(n).is_some() },
        2 => it.step_by(2).take(n / 2).last().is_some(),
        _ => it.skip(n).next().is_some(),
    })
}

fn c30(run: &Run) {
    // walking an expansion
    let starts = ["20240131", "20240229T103000", "20240331T013000Z", "20241027T003000Z", "00010101"];
    let freqs = ["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"];
    let extras = ["", "EXDATE:20240101", "X-A:b", "BEGIN:VALARM\r\nACTION:AUDIO\r\nTRIGGER:-PT5M\r\nEND:VALARM"];
    run.family("expansions", product(&[3, starts.len(), freqs.len(), 4, extras.len(), 4]), |i, case| {
        let mut d = Dec(i);
        let (k, s, f, interval, x, how) = (d.take(3), d.of(&starts), d.of(&freqs), *d.of(&[1, 2, 5, 12]), d.of(&extras), d.take(4));
        if x.starts_with("BEGIN") && k != 0 {
            case.unspecified();
            return;
        }
        let name = ["VEVENT", "VTODO", "VJOURNAL"][k];
        let end = ["DTEND", "DUE", "X-END"][k];
        let x = if x.is_empty() { String::new() } else { format!("{x}\r\n") };
        let doc = format!("BEGIN:{name}\r\nUID:u\r\nDTSTAMP:20240101T000000\r\nDTSTART:{s}\r\n{end}:{s}\r\nRRULE:FREQ={f};INTERVAL={interval}\r\n{x}END:{name}\r\n");
        let walk = |n: usize| -> Result<([Cost; 5], bool), String> {
            imp(|| {
                let none = Cost { bytes: 0, nanos: 0 };
                let (r, c) = match k {
                    0 => walked(doc.parse::<ikal::VEvent>().unwrap().recurrent(), how, n),
                    1 => walked(doc.parse::<ikal::VTodo>().unwrap().recurrent(), how, n),
                    _ => walked(doc.parse::<ikal::VJournal>().unwrap().recurrent(), how, n),
                };
                ([c, none, none, none, none], r)
            })
        };
        let r = memory(case, &walk, 16, 128, &|| format!("n occurrences of {doc:?}, way {how}"));
        time(case, &walk, 1 << 14, &|| format!("n occurrences of {doc:?}, way {how}"));
        case.state(&(k, s, f, interval, how, r));
    });

    // lines and nested components
    let mut lines: Vec<(Kind, Shape)> = Vec::new();
    for k in KINDS {
        let us = units(k);
        for tail in tails(k) {
            for a in &us {
                lines.push((k, Shape { head: head(k), unit: vec![a.clone()], tail: tail.clone() }));
                // before what is required
                lines.push((k, Shape { head: format!("BEGIN:{}\r\n", k.tag()), unit: vec![a.clone()], tail: format!("{}{tail}", docs::base(k).join("\r\n") + "\r\n") }));
            }
        }
    }
    // texts and lists within lines
    let mut texts: Vec<(Kind, Shape)> = Vec::new();
    for k in KINDS {
        let end = format!("END:{}\r\n", k.tag());
        for l in docs::lines(k) {
            for (a, unit, b) in grown(&l) {
                texts.push((k, Shape { head: head(k) + &a, unit, tail: b + &end }));
            }
        }
        for p in PLACES {
            let (a, b) = p.split_once('#').unwrap();
            for u in HOSTILE {
                texts.push((k, Shape { head: head(k) + a, unit: vec![(*u).to_string()], tail: format!("{b}{end}") }));
                if k == Kind::Event || run.thorough() {
                    for w in HOSTILE {
                        texts.push((k, Shape { head: head(k) + a, unit: vec![(*u).to_string(), (*w).to_string()], tail: format!("{b}{end}") }));
                    }
                }
            }
        }
    }
    // all of a document
    for k in KINDS {
        for u in HOSTILE.iter().map(|x| (*x).to_string()).chain(units(k)) {
            for (a, b) in [(String::new(), String::new()), (String::new(), docs::minimal(k)), (docs::minimal(k), String::new())] {
                lines.push((k, Shape { head: a, unit: vec![u.clone()], tail: b }));
            }
        }
    }
    let both = |name: &str, shapes: &[(Kind, Shape)], small: usize| {
        run.family(&format!("memory of {name}"), shapes.len() as u64, |i, case| {
            let (k, shape) = &shapes[i as usize];
            let r = memory(case, &|n| operations(*k, &shape.text(n)), small, 128, &|| format!("{k:?} {}", shape.show()));
            case.state(&(k, i, r));
        });
        run.family(&format!("time of {name}"), shapes.len() as u64, |i, case| {
            let (k, shape) = &shapes[i as usize];
            // the largest sizes for the plainest shapes
            let plain = shape.unit.len() == 1 && shape.tail.ends_with(&format!("\r\nEND:{}\r\n", k.tag())) && matches!(k, Kind::Event | Kind::Calendar | Kind::Audio)
                || shape.tail == format!("END:{}\r\n", k.tag()) && shape.head.contains("\r\n");
            let long = shape.unit_len() == 1 && matches!(k, Kind::Event) && shape.tail.starts_with("\r\n");
            let (bytes, n) = if run.thorough() { (1 << 22, 1 << 17) } else if plain { (1 << 20, 1 << 17) } else { (1 << 17, 1 << 15) };
            let most = if long { 1 << 20 } else { (bytes / shape.unit_len()).min(n) };
            time(case, &|n| operations(*k, &shape.text(n)), most, &|| format!("{k:?} {}", shape.show()));
            case.state(&(k, i));
        });
    };
    both("lines", &lines, 16);
    both("texts", &texts, 16);

    // pairs of lines: taking turns, and one after the other
    for k in KINDS {
        let us = units(k);
        let (ts, h) = (tails(k), head(k));
        let ntails = run.pick(1, 3);
        run.family(&format!("pairs of lines of {k:?}"), product(&[us.len(), us.len(), ntails, 2]), |i, case| {
            let mut d = Dec(i);
            let (a, b) = (d.of(&us), d.of(&us));
            let tail = &ts[d.take(ntails)];
            let turns = d.take(2) == 0;
            let unit = |x: &String| Shape { head: String::new(), unit: vec![x.clone()], tail: String::new() };
            let text = |n: usize| {
                if turns {
                    Shape { head: h.clone(), unit: vec![a.clone(), b.clone()], tail: tail.clone() }.text(n)
                } else {
                    format!("{h}{}{}{tail}", unit(a).text(n), unit(b).text(n))
                }
            };
            let r = memory(case, &|n| operations(k, &text(n)), 16, run.pick(48, 128), &|| format!("{k:?} {h:?} + n times {a:?} and {b:?}, in turns: {turns}, + {tail:?}"));
            case.state(&(k, i, r));
        });
    }

    // values on their own
    let mut pieces: Vec<String> = HOSTILE.iter().map(|x| (*x).to_string()).collect();
    pieces.extend(["P", "T", "1", "1D", "T1H", "W", "20240101", "20240101T000000", "20240101T000000Z", "MO", "FREQ=DAILY", "COUNT=1", "BYDAY=MO", "BYHOUR=1", "PUBLIC", "DRAFT", "1.0", "PT1H", "/PT1H"].map(String::from));
    let fronts = ["", "1", "-", "P", "PT", "P1DT", "20240101", "20240101T000000", "20240101T000000/", "FREQ=DAILY", "FREQ=DAILY;", "FREQ=DAILY;BYDAY=MO", "FREQ=DAILY;BYHOUR=1", "1.0;", "1;1", "2.0;x;", "PUBLIC"];
    let two = |x: usize| if x == 0 { None } else { Some(x - 1) };
    run.family("memory of values", product(&[ENTRIES.len(), fronts.len(), pieces.len(), pieces.len() + 1]), |i, case| {
        let mut d = Dec(i);
        let (e, f, a, b) = (d.of(&ENTRIES), d.of(&fronts), d.of(&pieces), two(d.take(pieces.len() + 1)));
        let mut unit = vec![a.clone()];
        unit.extend(b.map(|b| pieces[b].clone()));
        let shape = Shape { head: (*f).to_string(), unit, tail: String::new() };
        let r = memory(case, &|n| value(e, &shape.text(n)), 8, 128, &|| format!("{} {}", e.name, shape.show()));
        case.state(&(e.name, f, a, r));
    });
    run.family("time of values", product(&[ENTRIES.len(), fronts.len(), pieces.len()]), |i, case| {
        let mut d = Dec(i);
        let (e, f, a) = (d.of(&ENTRIES), d.of(&fronts), d.of(&pieces));
        let shape = Shape { head: (*f).to_string(), unit: vec![a.clone()], tail: String::new() };
        time(case, &|n| value(e, &shape.text(n)), run.pick(1 << 17, 1 << 20) / shape.unit_len(), &|| format!("{} {}", e.name, shape.show()));
        case.state(&(e.name, f, a));
    });
}
