//! C04 structure of documents, C05 properties of components.

use super::{diff, judge, library};
use crate::cli::Info;
use crate::docs;
use crate::engine::{Case, Dec, Run, concat_at, product, string_at, strings_count};
use crate::model::{KINDS, Kind, Mult, Obs, Ty};

pub const C04: Info = Info {
    id: "C04",
    zones: &["UTC"],
    more_zones: &[],
    rule: "every sequence of components, alarms and time-zone parts, and every string of begin/end/property tokens, up to the bounds; every line of a nested document deleted, repeated, swapped, renamed or corrupted; every number of components up to the bound",
    assumptions: &["what follows the END of the outermost component is left open"],
    run: c04,
};

/// A component with a mark that tells it from the others of its kind.
fn marked(kind: Kind, n: usize, kids: &str) -> String {
    let mut ls = docs::base(kind);
    for l in &mut ls {
        if l.starts_with("UID:") {
            *l = format!("UID:{n}");
        }
        if l.starts_with("TZID:") {
            *l = format!("TZID:Zone/{n}");
        }
        if l.starts_with("TRIGGER:") {
            *l = format!("TRIGGER:-PT{}M", n + 1);
        }
        if l.starts_with("TZOFFSETTO:") {
            *l = format!("TZOFFSETTO:+{:02}00", n % 12);
        }
    }
    ls.push(format!("X-MARK:{n}"));
    docs::doc(kind, &ls, kids)
}

/// The calendar holds exactly these components, each as if parsed alone.
fn calendar_of(case: &mut Case, parts: &[(Kind, String)]) {
    let body: String = parts.iter().map(|x| x.1.as_str()).collect();
    let text = docs::in_calendar(&body);
    let Some((_, obs)) = judge(case, Kind::Calendar, &text, parts.len() as u64) else { return };
    for (name, kinds) in [
        ("events", &[Kind::Event][..]),
        ("todo", &[Kind::Todo]),
        ("journals", &[Kind::Journal]),
        ("freebusy", &[Kind::Freebusy]),
        ("timezones", &[Kind::Timezone]),
        ("alarms", &[Kind::Audio, Kind::Display, Kind::Email]),
    ] {
        let mine: Vec<&(Kind, String)> = parts.iter().filter(|x| kinds.contains(&x.0)).collect();
        let got: &[Obs] = obs.kids.get(name).map_or(&[], |x| x);
        if mine.len() != got.len() {
            case.fail(|| format!("{} {name} instead of {}\n{text:?}", got.len(), mine.len()));
            return;
        }
        for (m, g) in mine.iter().zip(got) {
            match library(m.0, &m.1) {
                Ok(Some((_, alone))) if alone == *g => (),
                Ok(Some((_, alone))) => {
                    case.fail(|| format!("differs from the component alone: {}\n{text:?}", diff(&alone, g)));
                }
                _ => case.fail(|| format!("refused alone: {:?}", m.1)),
            }
        }
    }
}

fn c04(run: &Run) {
    // every sequence of components
    let make: &[fn(usize) -> (Kind, String)] = &[
        |n| (Kind::Event, marked(Kind::Event, n, "")),
        |n| (Kind::Todo, marked(Kind::Todo, n, "")),
        |n| (Kind::Journal, marked(Kind::Journal, n, "")),
        |n| (Kind::Freebusy, marked(Kind::Freebusy, n, "")),
        |n| (Kind::Timezone, marked(Kind::Timezone, n, &marked(Kind::Standard, n, ""))),
        |n| (Kind::Display, marked(Kind::Display, n, "")),
        |n| (Kind::Event, marked(Kind::Event, n, &marked(Kind::Audio, n, ""))),
        |n| (Kind::Event, marked(Kind::Event, n, &(marked(Kind::Email, n, "") + &marked(Kind::Display, n + 10, "")))),
        |n| {
            (
                Kind::Timezone,
                marked(Kind::Timezone, n, &(marked(Kind::Daylight, n, "") + &marked(Kind::Standard, n + 1, ""))),
            )
        },
        |n| (Kind::Audio, marked(Kind::Audio, n, "")),
        |n| (Kind::Email, marked(Kind::Email, n, "")),
        |n| (Kind::Timezone, marked(Kind::Timezone, n, "")),
    ];
    let max = run.pick(4, 5);
    run.family("component sequences", strings_count(make.len(), 0, max), |i, case| {
        let parts: Vec<(Kind, String)> =
            string_at(make.len(), 0, i).into_iter().enumerate().map(|(n, k)| make[k](n)).collect();
        calendar_of(case, &parts);
    });

    // longer sequences of fewer kinds
    let few = [0, 1, 2, 4];
    let (lo, hi) = (run.pick(5, 6), run.pick(6, 8));
    run.family("longer component sequences", strings_count(4, lo, hi), |i, case| {
        let parts: Vec<(Kind, String)> =
            string_at(4, lo, i).into_iter().enumerate().map(|(n, k)| make[few[k]](n)).collect();
        calendar_of(case, &parts);
    });

    // every sequence of alarms of an event, of parts of a time zone
    for (kind, kids) in [
        (Kind::Event, &[Kind::Audio, Kind::Display, Kind::Email][..]),
        (Kind::Timezone, &[Kind::Standard, Kind::Daylight]),
    ] {
        let max = run.pick(if kids.len() == 3 { 6 } else { 9 }, if kids.len() == 3 { 9 } else { 14 });
        run.family(&format!("{kind:?}: sequences of parts"), strings_count(kids.len(), 0, max) * 2, |i, case| {
            let seq = string_at(kids.len(), 0, i / 2);
            let body: Vec<(Kind, String)> =
                seq.iter().enumerate().map(|(n, k)| (kids[*k], marked(kids[*k], n, ""))).collect();
            let text = marked(kind, 7, &body.iter().map(|x| x.1.as_str()).collect::<String>());
            if i % 2 == 1 {
                calendar_of(case, &[(Kind::Todo, marked(Kind::Todo, 1, "")), (kind, text), (Kind::Event, marked(Kind::Event, 3, ""))]);
                return;
            }
            let Some((_, obs)) = judge(case, kind, &text, seq.len() as u64) else { return };
            let mut next = std::collections::BTreeMap::new();
            for (k, t) in &body {
                let name = match k {
                    Kind::Standard => "standard",
                    Kind::Daylight => "daylight",
                    _ => "alarms",
                };
                let at: &mut usize = next.entry(name).or_default();
                let got = obs.kids.get(name).and_then(|x| x.get(*at));
                *at += 1;
                let alone = library(*k, t).ok().flatten().map(|x| x.1);
                if alone.as_ref() != got || got.is_none() {
                    case.fail(|| format!("{name}[{}] differs from the part alone\n{text:?}", *at - 1));
                    return;
                }
            }
        });
    }

    // every string of tokens
    let tokens: Vec<String> = vec![
        "BEGIN:VEVENT\r\nDTSTAMP:20240102T030405Z\r\nUID:1\r\nDTSTART:20240101\r\n".into(),
        "END:VEVENT\r\n".into(),
        "BEGIN:VTODO\r\nDTSTAMP:20240102T030405Z\r\nUID:2\r\n".into(),
        "END:VTODO\r\n".into(),
        "BEGIN:VALARM\r\nACTION:DISPLAY\r\nTRIGGER:-PT5M\r\nDESCRIPTION:x\r\n".into(),
        "END:VALARM\r\n".into(),
        "BEGIN:VTIMEZONE\r\nTZID:Z\r\n".into(),
        "END:VTIMEZONE\r\n".into(),
        "BEGIN:STANDARD\r\nDTSTART:20240101T000000\r\nTZOFFSETTO:+0100\r\nTZOFFSETFROM:+0200\r\n".into(),
        "END:STANDARD\r\n".into(),
        "X-LINE:v\r\n".into(),
        "BEGIN:X-COMP\r\n".into(),
        "END:X-COMP\r\n".into(),
    ];
    let max = run.pick(6, 7);
    run.family("token strings", strings_count(tokens.len(), 0, max), |i, case| {
        let seq = string_at(tokens.len(), 0, i);
        let body: String = seq.iter().map(|x| tokens[*x].as_str()).collect();
        judge(case, Kind::Calendar, &docs::in_calendar(&body), seq.len() as u64);
    });
    let tokens: Vec<&str> = vec![
        "BEGIN:VCALENDAR\r\n",
        "END:VCALENDAR\r\n",
        "PRODID:p\r\n",
        "VERSION:2.0\r\n",
        "BEGIN:VJOURNAL\r\nDTSTAMP:20240102T030405Z\r\nUID:1\r\n",
        "DTSTART:20240101\r\n",
        "END:VJOURNAL\r\n",
        "BEGIN:VFREEBUSY\r\n",
        "DTSTAMP:20240102T030405Z\r\nUID:2\r\n",
        "END:VFREEBUSY\r\n",
    ];
    for start in [0, 4, 7] {
        let kind = [Kind::Calendar, Kind::Journal, Kind::Freebusy][[0, 4, 7].iter().position(|x| *x == start).unwrap()];
        run.family(&format!("token strings from the start: {kind:?}"), strings_count(tokens.len(), 0, max), |i, case| {
            let seq = string_at(tokens.len(), 0, i);
            let body: String = std::iter::once(start).chain(seq.iter().copied()).map(|x| tokens[x]).collect();
            judge(case, kind, &body, seq.len() as u64);
        });
    }

    // every corruption of one line of a rich document
    for kind in KINDS {
        for w in 0..run.pick(1, 3) {
            let text = if kind == Kind::Calendar || kind == Kind::Event || kind == Kind::Timezone {
                docs::full_doc(kind, w)
            } else {
                docs::in_calendar(&(marked(Kind::Event, 1, "") + &docs::full_doc(kind, w) + &marked(Kind::Todo, 2, "")))
            };
            if matches!(kind, Kind::Standard | Kind::Daylight) {
                continue; // inside of a time zone
            }
            let as_kind = if matches!(kind, Kind::Event | Kind::Timezone) { kind } else { Kind::Calendar };
            let lines: Vec<String> = text.split_inclusive("\r\n").map(ToString::to_string).collect();
            let n = lines.len();
            let ops = 12 + 6;
            run.family(&format!("{kind:?} {w}: one corrupted line"), (n * ops) as u64, |i, case| {
                let mut d = Dec(i);
                let op = d.take(ops);
                let at = d.take(n);
                let mut ls = lines.clone();
                corrupt(&mut ls, at, op);
                judge(case, as_kind, &ls.concat(), 1);
            });
            if n * n < run.pick(40_000, 1_000_000) {
                run.family(&format!("{kind:?} {w}: two swapped or dropped lines"), (n * n * 2) as u64, |i, case| {
                    let mut d = Dec(i);
                    let op = d.take(2);
                    let (a, b) = (d.take(n), d.take(n));
                    if a >= b {
                        return;
                    }
                    let mut ls = lines.clone();
                    if op == 0 {
                        ls.swap(a, b);
                    } else {
                        ls.remove(b);
                        ls.remove(a);
                    }
                    judge(case, as_kind, &ls.concat(), 2);
                });
            }
        }
    }

    // one malformed component among others: everything is refused
    let bad: Vec<(Kind, String)> = broken();
    let n = product(&[bad.len(), make.len(), make.len(), 3]);
    run.family("one malformed component", n, |i, case| {
        let mut d = Dec(i);
        let (b, x, y, at) = (d.of(&bad), d.of(make)(1), d.of(make)(2), d.take(3));
        let mut parts = vec![x.1, y.1];
        parts.insert(at, b.1.clone());
        judge(case, Kind::Calendar, &docs::in_calendar(&parts.concat()), 3);
    });

    // counts
    let top = run.pick(150usize, 700);
    run.family("number of components", (top * make.len()) as u64, |i, case| {
        let mut d = Dec(i);
        let f = d.of(make);
        let n = d.take(top);
        if run.pick(n % 7 != 0 && n > 20, n % 5 != 0 && n > 40) {
            return;
        }
        let parts: Vec<(Kind, String)> = (0..n).map(f).collect();
        calendar_of(case, &parts);
    });
    run.family("number of alarms", top as u64, |n, case| {
        let kids: String = (0..n as usize).map(|k| marked([Kind::Audio, Kind::Display, Kind::Email][k % 3], k, "")).collect();
        judge(case, Kind::Event, &marked(Kind::Event, 0, &kids), n);
    });
    run.family("number of time-zone parts", top as u64, |n, case| {
        let kids: String = (0..n as usize).map(|k| marked([Kind::Standard, Kind::Daylight][k % 2], k, "")).collect();
        judge(case, Kind::Timezone, &marked(Kind::Timezone, 0, &kids), n);
    });
    let ns = super::numbers(run.pick(5_002, 70_000));
    let kinds: &[&[Kind]] = &[
        &[Kind::Event], &[Kind::Todo], &[Kind::Journal], &[Kind::Freebusy], &[Kind::Timezone], &[Kind::Audio], &[Kind::Display], &[Kind::Email],
        &[Kind::Event, Kind::Todo], &[Kind::Journal, Kind::Timezone, Kind::Audio],
    ];
    run.tight("great numbers of components", product(&[ns.len(), kinds.len()]), |i, case| {
        let mut d = Dec(i);
        let (n, ks) = (*d.of(&ns), *d.of(kinds));
        let kids: String = (0..n).map(|j| marked(ks[j % ks.len()], j, "")).collect();
        judge(case, Kind::Calendar, &docs::in_calendar(&kids), n as u64);
    });
    let kinds: &[(Kind, &[Kind])] = &[
        (Kind::Event, &[Kind::Audio]), (Kind::Event, &[Kind::Display]), (Kind::Event, &[Kind::Email]), (Kind::Event, &[Kind::Email, Kind::Audio]),
        (Kind::Timezone, &[Kind::Standard]), (Kind::Timezone, &[Kind::Daylight]), (Kind::Timezone, &[Kind::Daylight, Kind::Standard]),
    ];
    run.tight("great numbers of parts", product(&[ns.len(), kinds.len(), 2]), |i, case| {
        let mut d = Dec(i);
        let (n, (kind, ks)) = (*d.of(&ns), *d.of(kinds));
        let kids: String = (0..n).map(|j| marked(ks[j % ks.len()], j, "")).collect();
        let text = marked(kind, 0, &kids);
        if d.take(2) == 0 {
            judge(case, kind, &text, n as u64);
        } else {
            judge(case, Kind::Calendar, &docs::in_calendar(&(text.clone() + &text)), n as u64);
        }
    });
}

fn corrupt(ls: &mut Vec<String>, at: usize, op: usize) {
    let line = ls[at].trim_end_matches("\r\n").to_string();
    match op {
        0 => drop(ls.remove(at)),
        1 => ls.insert(at, format!("{line}\r\n")),
        2 => ls.truncate(at),
        3 => ls[at] = format!("{line}X\r\n"),
        4 => ls[at] = line, // no line break
        5 => ls[at] = format!("{line}\n"),
        6 => ls.insert(at, "\r\n".into()),
        7 => ls.insert(at, "BEGIN:VUNKNOWN\r\n".into()),
        8 => ls.insert(at, "END:VEVENT\r\n".into()),
        9 => ls.insert(at, "BEGIN:VEVENT\r\n".into()),
        10 => ls[at] = match line.split_once(':') {
            Some((a, _)) => format!("{a}:\r\n"),
            None => String::new(),
        },
        11 => ls[at] = match line.split_once(':') {
            Some((a, b)) if a != "BEGIN" && a != "END" => format!("X-{a}:{b}\r\n"),
            Some((a, b)) => format!("{}:{b}\r\n", if a == "BEGIN" { "END" } else { "BEGIN" }),
            None => String::new(),
        },
        12 => ls.insert(at, "BEGIN:VALARM\r\nACTION:DISPLAY\r\nTRIGGER:-PT1M\r\nDESCRIPTION:i\r\nEND:VALARM\r\n".into()),
        13 => ls.insert(at, "BEGIN:VALARM\r\nTRIGGER:-PT1M\r\nDESCRIPTION:i\r\nEND:VALARM\r\n".into()),
        14 => ls.insert(at, "END:VALARM\r\n".into()),
        15 => ls.insert(at, "END:VCALENDAR\r\n".into()),
        16 => ls.insert(at, "BEGIN:DAYLIGHT\r\nDTSTART:20240101T000000\r\nTZOFFSETTO:+0100\r\nTZOFFSETFROM:+0200\r\nEND:DAYLIGHT\r\n".into()),
        _ => ls.insert(at, "NO COLON\r\n".into()),
    }
}

/// Malformed components: a required property missing, an invalid value, a wrong end.
pub fn broken() -> Vec<(Kind, String)> {
    let mut out = Vec::new();
    let wrap = |kind: Kind, t: String| match kind {
        Kind::Standard | Kind::Daylight => docs::doc(Kind::Timezone, &docs::base(Kind::Timezone), &t),
        _ => t,
    };
    for kind in KINDS {
        if kind == Kind::Calendar {
            continue;
        }
        let base = docs::base(kind);
        for k in 0..base.len() {
            let mut ls = base.clone();
            ls.remove(k);
            out.push((kind, wrap(kind, docs::doc(kind, &ls, ""))));
        }
        for p in kind.props() {
            for v in docs::bad(p.ty) {
                let mut ls = base.clone();
                ls.push(format!("{}{v}", p.name));
                out.push((kind, wrap(kind, docs::doc(kind, &ls, ""))));
            }
        }
        let t = docs::minimal(kind);
        let end = format!("END:{}\r\n", kind.tag());
        for other in ["", "END:VEVENTS\r\n", "END:VX\r\n", "END:\r\n", "END\r\n", "END:VCALENDAR\r\n"] {
            out.push((kind, wrap(kind, t.replace(&end, other))));
        }
        for other in ["BEGIN:VX\r\n", "BEGIN:\r\n", "BEGIN\r\n", ""] {
            out.push((kind, wrap(kind, t.replace(&format!("BEGIN:{}\r\n", kind.tag()), other))));
        }
        if kind.is_alarm() {
            for a in ["ACTION:", "ACTION:PROCEDURE", "ACTION:X-A", "ACTION:DISPLAY "] {
                let ls: Vec<String> =
                    base.iter().map(|l| if l.starts_with("ACTION") { a.to_string() } else { l.clone() }).collect();
                out.push((kind, docs::doc(kind, &ls, "")));
            }
            // inside of an event
            let n = out.len();
            for k in 0..n {
                if out[k].0 == kind {
                    let t = docs::doc(Kind::Event, &docs::base(Kind::Event), &out[k].1.clone());
                    out.push((Kind::Event, t));
                }
            }
        }
    }
    out
}

pub const C05: Info = Info {
    id: "C05",
    zones: &["UTC"],
    more_zones: &[],
    rule: "for each component kind, every property line (all value forms, extensions) alone, in every ordered pair and triple, before, between and after the required ones; full documents in every rotation and with every swap; repeatable properties up to the count bound",
    assumptions: &["RECURRENCE-ID is left open (known finding)"],
    run: c05,
};

/// One document: the lines among the required ones.
fn among(kind: Kind, lines: &[&str], at: usize) -> String {
    let mut ls: Vec<String> = docs::base(kind);
    let at = match at {
        0 => ls.len(),
        1 => 0,
        _ => 1.min(ls.len()),
    };
    for (k, l) in lines.iter().enumerate() {
        ls.insert(at + k, (*l).to_string());
    }
    docs::doc(kind, &ls, "")
}

fn c05(run: &Run) {
    for kind in KINDS {
        let mut lines = docs::lines(kind);
        lines.extend(docs::odd_lines(kind));
        let n = lines.len();
        run.family(&format!("{kind:?}: single lines and pairs"), ((n + 1) * (n + 1) * 3) as u64, |i, case| {
            let mut d = Dec(i);
            let at = d.take(3);
            let mut ls: Vec<&str> = Vec::new();
            for _ in 0..2 {
                let k = d.take(n + 1);
                if k < n {
                    ls.push(&lines[k]);
                }
            }
            judge(case, kind, &among(kind, &ls, at), ls.len() as u64);
        });

        // a value that is refused, with any other line
        let mut bad: Vec<String> = Vec::new();
        for p in kind.props() {
            if p.name != "ACTION" {
                bad.extend(docs::bad(p.ty).iter().map(|v| format!("{}{v}", p.name)));
            }
        }
        if !bad.is_empty() {
            run.family(&format!("{kind:?}: refused values"), product(&[bad.len(), n, 2]), |i, case| {
                let mut d = Dec(i);
                let (b, l) = (d.of(&bad), d.of(&lines));
                let ls: [&str; 2] = if d.take(2) == 0 { [b, l] } else { [l, b] };
                judge(case, kind, &among(kind, &ls, 0), 2);
            });
        }

        let few: Vec<&String> = if run.thorough() {
            lines.iter().collect()
        } else {
            // two forms of each property
            let mut seen = std::collections::BTreeMap::new();
            lines
                .iter()
                .filter(|l| {
                    let name = l.split([':', ';']).next().unwrap();
                    let c = seen.entry(name).or_insert(0);
                    *c += 1;
                    *c <= 2
                })
                .collect()
        };
        let n = few.len();
        run.family(&format!("{kind:?}: triples"), product(&[n, n, n]), |i, case| {
            let mut d = Dec(i);
            let ls: [&str; 3] = [d.of(&few), d.of(&few), d.of(&few)];
            judge(case, kind, &among(kind, &ls, 0), 3);
        });

        // four lines of one repeatable property or of the extensions
        let lists: Vec<&crate::model::Prop> = kind.props().iter().filter(|p| p.mult == Mult::List).collect();
        for p in lists {
            let g: Vec<String> = docs::good(p.ty).iter().map(|v| format!("{}{v}", p.name)).collect();
            let k = g.len();
            let max = run.pick(5, 7);
            run.family(&format!("{kind:?}: sequences of {}", p.name), strings_count(k, 0, max), |i, case| {
                let seq = string_at(k, 0, i);
                let ls: Vec<&str> = seq.iter().map(|x| g[*x].as_str()).collect();
                judge(case, kind, &among(kind, &ls, 0), ls.len() as u64);
            });
        }
        let x: &[&str] = &["X-A:1", "X-A:2", "X-B;P=1:1", "IANA:1", "IANA;Q=2:2", "X:1", "XA:1", "X-:0"];
        run.family(&format!("{kind:?}: sequences of extensions"), strings_count(x.len(), 0, run.pick(5, 6)), |i, case| {
            let seq = string_at(x.len(), 0, i);
            let ls: Vec<&str> = seq.iter().map(|k| x[*k]).collect();
            judge(case, kind, &among(kind, &ls, 0), ls.len() as u64);
        });

        // full documents: rotations, reversals, swaps, all but one, all but two
        for w in 0..4 {
            let full = docs::full(kind, w);
            let n = full.len();
            run.family(&format!("{kind:?} {w}: orders of a full document"), (n * n + n * 2 + n * n) as u64, |i, case| {
                let i = i as usize;
                let mut ls = full.clone();
                if i < n {
                    ls.rotate_left(i);
                } else if i < 2 * n {
                    ls.reverse();
                    ls.rotate_left(i - n);
                } else if i < 2 * n + n * n {
                    let k = i - 2 * n;
                    ls.swap(k / n, k % n);
                } else {
                    let k = i - 2 * n - n * n;
                    let (a, b) = (k / n, k % n);
                    if a > b {
                        return;
                    }
                    ls.remove(b);
                    if a != b {
                        ls.remove(a);
                    }
                }
                judge(case, kind, &docs::doc(kind, &ls, ""), n as u64);
            });
        }

        // counts
        let top = run.pick(130usize, 700);
        let lists: Vec<&crate::model::Prop> =
            kind.props().iter().filter(|p| p.mult == Mult::List).collect();
        let m = lists.len() + 1;
        run.family(&format!("{kind:?}: number of values"), (top * m * 2) as u64, |i, case| {
            let mut d = Dec(i);
            let (form, k) = (d.take(2), d.take(m));
            let n = d.take(top);
            let ls: Vec<String> = match lists.get(k) {
                None => (0..n).map(|j| format!("X-{j}:{n}")).chain((0..n).map(|j| format!("I{j}:{j}"))).collect(),
                Some(p) if form == 0 => (0..n).map(|j| format!("{}{}", p.name, numbered(p.ty, j))).collect(),
                Some(p) if n > 0 && matches!(p.ty, Ty::TextList | Ty::DateList | Ty::PeriodList | Ty::RDate) => {
                    let vs: Vec<String> = (0..n).map(|j| numbered(p.ty, j)[1..].to_string()).collect();
                    vec![format!("{}:{}", p.name, vs.join(","))]
                }
                Some(_) => return,
            };
            let ls: Vec<&str> = ls.iter().map(String::as_str).collect();
            judge(case, kind, &among(kind, &ls, 0), n as u64);
        });
        let ns = super::numbers(run.pick(5_002, 70_000));
        run.tight(&format!("{kind:?}: great numbers of values"), product(&[2, m, ns.len()]), |i, case| {
            let mut d = Dec(i);
            let (form, k) = (d.take(2), d.take(m));
            let n = *d.of(&ns);
            let ls: Vec<String> = match lists.get(k) {
                None => (0..n).map(|j| format!("X-{j}:{n}")).chain((0..n).map(|j| format!("I{j}:{j}"))).collect(),
                Some(p) if form == 0 => (0..n).map(|j| format!("{}{}", p.name, numbered(p.ty, j))).collect(),
                Some(p) if n > 0 && matches!(p.ty, Ty::TextList | Ty::DateList | Ty::PeriodList | Ty::RDate) => {
                    let vs: Vec<String> = (0..n).map(|j| numbered(p.ty, j)[1..].to_string()).collect();
                    vec![format!("{}:{}", p.name, vs.join(","))]
                }
                Some(_) => return,
            };
            let ls: Vec<&str> = ls.iter().map(String::as_str).collect();
            judge(case, kind, &among(kind, &ls, 0), n as u64);
        });
    }
    // names that look alike, one after the other
    let alphabet = ["A", "B", "-"];
    let max = run.pick(5, 6);
    let count = strings_count(alphabet.len(), 1, max);
    run.family("similar names", count * count * 2, |i, case| {
        let (a, _) = concat_at(&alphabet, 1, i / 2 % count);
        let (b, _) = concat_at(&alphabet, 1, i / 2 / count);
        let x = if i % 2 == 0 { "X-" } else { "" };
        let (l, m) = (format!("{x}{a};P{b}=1;P{a}=2:{b}"), format!("{x}{b}:{a}"));
        judge(case, Kind::Event, &among(Kind::Event, &[&l, &m], 0), 2);
    });
    // values that look alike
    let alphabet = ["a", "b", " ", "\\"];
    let count = strings_count(alphabet.len(), 0, max - 1);
    run.family("similar values", count * count * 2, |i, case| {
        let (a, _) = concat_at(&alphabet, 0, i / 2 % count);
        let (b, _) = concat_at(&alphabet, 0, i / 2 / count);
        let ls = if i % 2 == 0 {
            [format!("COMMENT:{a}"), format!("COMMENT:{b}"), format!("SUMMARY:{b}"), format!("LOCATION:{a}")]
        } else {
            [format!("CATEGORIES;P={a}:{b},{a}"), format!("ATTENDEE;P={b}:{a}"), format!("ATTENDEE;P={a}:{b}"), format!("X-A;P={b}:{b}")]
        };
        let ls: Vec<&str> = ls.iter().map(String::as_str).collect();
        judge(case, Kind::Event, &among(Kind::Event, &ls, 0), 4);
    });
}

fn numbered(ty: Ty, n: usize) -> String {
    match ty {
        Ty::DateList | Ty::RDate => format!(":{:04}0{}1{}T0{}0000", 1900 + n % 400, 1 + n % 9, n % 10, n % 7),
        Ty::PeriodList => format!(":{:04}0101T000000Z/PT{n}M", 1900 + n % 400),
        Ty::RStat => format!(":2.{};d{n}", n % 10),
        _ => format!(":v{n}"),
    }
}
