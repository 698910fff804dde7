//! C11 serialise then parse, C12 shape of the serialised lines, C13 hostile content, C22 one line per value.

use super::{diff, library, roundtrip};
use crate::cal;
use crate::cli::Info;
use crate::docs;
use crate::engine::{Case, Dec, Run, concat_at, imp, product, strings_count};
use crate::model::{self, KINDS, Kind, Mult, Obs, Ty, Val};
use crate::obs::Any;

type Judge<'a> = dyn Fn(&mut Case, Kind, &str, u64) + Sync + 'a;

/// Symbols of texts whose serialisation might go wrong.
pub const HOSTILE: &[&str] = &["a", "\\", ";", ",", ":", "\"", "\r", "\n", " ", "\t", "=", "n", "\u{e9}", "N", "END:VEVENT"];

/// Symbols which may appear inside a line.
const INLINE: &[&str] = &["a", "\\", ";", ",", ":", "\"", " ", "\t", "=", "n", "N", "\u{e9}", "\u{1f600}"];

/// Where a free text may stand in a line; `{}` is the text.
fn text_lines() -> Vec<(Kind, String)> {
    let mut out: Vec<(Kind, String)> = Vec::new();
    for k in KINDS {
        for p in k.props() {
            if p.name == "ACTION" {
                continue;
            }
            match p.ty {
                Ty::Text | Ty::Uri | Ty::Class | Ty::TextList => out.push((k, format!("{}:{{}}", p.name))),
                Ty::RStat => {
                    out.push((k, format!("{}:2.0;{{}}", p.name)));
                    out.push((k, format!("{}:2.0;b;{{}}", p.name)));
                }
                _ => (),
            }
            match p.ty {
                Ty::TextList => out.push((k, format!("{}:a,{{}},b", p.name))),
                Ty::Text | Ty::Uri => out.push((k, format!("{};P=\"{{}}\":v", p.name))),
                _ => (),
            }
        }
        out.push((k, "X-FOO:{}".into()));
        out.push((k, "X-FOO;P=\"{}\";Q={}:v".into()));
        out.push((k, "COLOR:{}".into()));
        out.push((k, "COLOR;Q={};P=\"{}\":v".into()));
    }
    out
}

/// Values of a property besides the good ones.
fn more_values(ty: Ty) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let times = ["20240229T123456Z", "20240331T023000", "00000101T000000", "99991231T235959Z", "20241027T010000Z"];
    let dates = ["20240229", "00000101", "99991231", "20240101"];
    match ty {
        Ty::Dt => out.extend(times.iter().map(|x| format!(":{x}"))),
        Ty::Date | Ty::DateList => {
            out.extend(times.iter().chain(&dates).map(|x| format!(":{x}")));
            if ty == Ty::DateList {
                let all: Vec<&str> = times.iter().chain(&dates).copied().collect();
                for a in &all {
                    for b in &all {
                        out.push(format!(":{a},{b}"));
                        out.push(format!(":{b},{a},{b}"));
                    }
                }
            }
        }
        Ty::Dur | Ty::Trigger => {
            let nums = ["0", "1", "9", "10", "59", "60", "99", "100", "1000000"];
            for sign in ["", "-", "+"] {
                for n in nums {
                    for u in ["P{}W", "P{}D", "PT{}H", "PT{}M", "PT{}S", "P{}DT{}H", "PT{}H{}M", "PT{}M{}S", "P{}DT{}H{}M{}S", "PT{}H{}S", "P{}DT{}S"] {
                        out.push(format!(":{sign}{}", u.replace("{}", n)));
                    }
                }
            }
            if ty == Ty::Trigger {
                out.extend(times.iter().map(|x| format!(";VALUE=DATE-TIME:{x}")));
                out.push(";VALUE=DURATION;RELATED=START:-PT5M".into());
            }
        }
        Ty::U8 | Ty::Prio => out.extend((0..=255).map(|x| format!(":{x}"))),
        Ty::U32 => out.extend([":3", ":65535", ":65536", ":4294967294"].map(String::from)),
        Ty::Class => out.extend([":X", ":IANA-TOKEN", ":PUBLICX"].map(String::from)),
        Ty::Status => out.extend(model::STATUSES.iter().map(|x| format!(":{x}"))),
        Ty::Transp => out.extend(model::TRANSPS.iter().map(|x| format!(":{x}"))),
        Ty::Geo => {
            for a in ["0", "1", "-1", "0.1", "-0.000001", "48.85299", "90", "-90.5", "1.5e3"] {
                for b in ["0", "1", "-1", "0.1", "2.36885", "180", "-179.999999"] {
                    out.push(format!(":{a};{b}"));
                }
            }
            // floating-point numbers of every size and precision
            let mut many: Vec<String> = Vec::new();
            for e in -45..38 {
                for m in ["1", "-1.5", "1.2345678", "9.999999", "-3.3333333"] {
                    many.push(format!("{m}e{e}"));
                }
            }
            for e in 0..12 {
                many.push(format!("0.{}1", "0".repeat(e)));
                many.push(format!("-0.{}123456789", "0".repeat(e)));
                many.push(format!("1{}", "0".repeat(e)));
                many.push(format!("123456789{}", "0".repeat(e)));
            }
            many.extend(["-0", "16777217", "0.1", "89.999999", "179.99999", "3.4028234e38", "1.17549435e-38"].map(String::from));
            for m in &many {
                out.push(format!(":{m};1"));
                out.push(format!(":1;{m}"));
            }
        }
        Ty::RStat => {
            for m in 0..10 {
                for n in 0..100 {
                    out.push(format!(":{m}.{n};x"));
                    out.push(format!(":{m}.{n:02};x;y"));
                }
            }
            for c in ["1", "2.0", "2.8", "3.14", "4.1", "5", "0", "10.1", "2.8.1"] {
                for d in ["", "Success", "a\\;b", "\\,", "\\n"] {
                    out.push(format!(":{c};{d}"));
                    for e in ["", "x", "DTSTART:96-Apr-01", "a\\;b"] {
                        out.push(format!(":{c};{d};{e}"));
                    }
                }
            }
        }
        Ty::Recur => {
            for f in model::FREQS {
                for u in ["", ";UNTIL=20301231", ";UNTIL=20301231T235959", ";UNTIL=20301231T235959Z"] {
                    for c in ["", ";COUNT=0", ";COUNT=1", ";COUNT=255"] {
                        for i in ["", ";INTERVAL=0", ";INTERVAL=1", ";INTERVAL=2", ";INTERVAL=255"] {
                            out.push(format!(":FREQ={f}{u}{c}{i}"));
                        }
                    }
                }
            }
            for (b, (lo, hi, zero)) in model::BYS.iter().zip(model::BY_RANGE) {
                let (lo, hi) = (lo.max(-128), hi.min(127));
                for v in (lo..=hi).filter(|v| zero || *v != 0) {
                    out.push(format!(":FREQ=YEARLY;{b}={v}"));
                    out.push(format!(":{b}={v},{lo},{hi};WKST=SU;FREQ=DAILY"));
                }
            }
            for d in model::WEEKDAYS {
                out.push(format!(":FREQ=MONTHLY;WKST={d}"));
                for n in -53..=53 {
                    if n != 0 {
                        out.push(format!(":FREQ=MONTHLY;BYDAY={n}{d}"));
                        out.push(format!(":FREQ=MONTHLY;BYDAY=MO,{n}{d},+1FR"));
                    }
                }
            }
        }
        Ty::RDate => {
            for a in times.iter().chain(&dates) {
                out.push(format!(":{a}"));
                for b in times.iter().chain(&dates) {
                    out.push(format!(":{a},{b}"));
                }
            }
            for a in times {
                for b in ["PT1H", "-PT1H", "P1D", "20240301T000000Z", "20240301T000000"] {
                    out.push(format!(";VALUE=PERIOD:{a}/{b}"));
                    out.push(format!(";VALUE=PERIOD:{a}/{b},{a}/PT5M,{a}/{b}"));
                }
            }
        }
        Ty::PeriodList => {
            for a in times {
                for b in ["PT1H", "-PT1H", "P1D", "20240301T000000Z", "20240301T000000"] {
                    out.push(format!(":{a}/{b}"));
                    out.push(format!(";FBTYPE=BUSY:{a}/{b},{a}/PT5M,{a}/{b}"));
                }
            }
        }
        Ty::Offset => {
            for s in ["+", "-"] {
                for h in 0..24 {
                    for m in 0..60 {
                        out.push(format!(":{s}{h:02}{m:02}"));
                    }
                }
            }
        }
        Ty::TextList => out.extend([":a,b,c", ":a,,b", ":\\,,\\;", ";LANGUAGE=fr:x,y", ":"].map(String::from)),
        Ty::Text | Ty::Uri => (),
    }
    out
}

/// Walks a space of documents of every kind.
fn walk(run: &Run, f: &Judge) {
    let all: Vec<(Kind, Vec<String>)> = KINDS
        .iter()
        .map(|k| {
            let mut l = docs::lines(*k);
            l.push(";".into()); // no line at all, see `with`
            (*k, l)
        })
        .collect();
    let with = |k: Kind, add: &[&String]| {
        let mut ls = docs::base(k);
        ls.extend(add.iter().filter(|x| **x != ";").map(|x| (*x).clone()));
        docs::doc(k, &ls, "")
    };
    for (k, ls) in &all {
        let n = ls.len();
        run.family(&format!("{k:?}: pairs of lines"), product(&[n, n]), |i, case| {
            let mut d = Dec(i);
            let (a, b) = (d.of(ls), d.of(ls));
            f(case, *k, &with(*k, &[a, b]), 2);
        });
        // one value of each property (of the lists two) and one of each extension
        let few: Vec<&String> = {
            let mut seen = std::collections::BTreeMap::<String, usize>::new();
            ls.iter()
                .filter(|l| {
                    let name = l.split([':', ';']).next().unwrap_or_default().to_string();
                    let n = seen.entry(name).or_default();
                    *n += 1;
                    *n <= run.pick(1, 2)
                })
                .collect()
        };
        let n = few.len();
        run.family(&format!("{k:?}: triples of lines"), product(&[n, n, n]), |i, case| {
            let mut d = Dec(i);
            let (a, b, c) = (d.of(&few), d.of(&few), d.of(&few));
            f(case, *k, &with(*k, &[a, b, c]), 3);
        });
        // everything, everything but one line, everything but two lines
        let full: Vec<Vec<String>> = (0..4).map(|w| docs::full(*k, w)).collect();
        let most = full.iter().map(Vec::len).max().unwrap() + 1;
        run.family(&format!("{k:?}: all but two lines"), product(&[4, most, most]), |i, case| {
            let mut d = Dec(i);
            let w = d.take(4);
            let (a, b) = (d.take(most), d.take(most));
            let ls: Vec<String> = full[w].iter().enumerate().filter(|(i, _)| *i != a && *i != b).map(|x| x.1.clone()).collect();
            f(case, *k, &docs::doc(*k, &ls, &docs::full_kids(*k, w)), ls.len() as u64);
        });
        // other names
        let odd = docs::odd_lines(*k);
        run.family(&format!("{k:?}: other names"), product(&[odd.len(), odd.len()]), |i, case| {
            let mut d = Dec(i);
            let (a, b) = (d.of(&odd), d.of(&odd));
            f(case, *k, &with(*k, &[a, b]), 2);
        });
        // values, alone and after each other
        let values: Vec<String> = k
            .props()
            .iter()
            .filter(|p| p.name != "ACTION")
            .flat_map(|p| more_values(p.ty).into_iter().map(move |v| format!("{}{v}", p.name)))
            .collect();
        run.family(&format!("{k:?}: values"), values.len() as u64, |i, case| {
            let i = i as usize;
            f(case, *k, &with(*k, &[&values[i]]), 1);
            f(case, *k, &with(*k, &[&values[i], &values[(i + 1) % values.len()]]), 2);
        });
    }

    // nested components
    let kids = |kinds: &[Kind]| -> Vec<String> {
        kinds
            .iter()
            .flat_map(|k| [docs::minimal(*k), docs::full_doc(*k, 0), docs::full_doc(*k, 1)])
            .chain([String::new()])
            .collect()
    };
    let depth = run.pick(3, 4);
    for (parent, kinds, depth) in [
        (Kind::Event, vec![Kind::Audio, Kind::Display, Kind::Email], depth),
        (Kind::Timezone, vec![Kind::Standard, Kind::Daylight], depth),
        (
            Kind::Calendar,
            vec![Kind::Event, Kind::Todo, Kind::Journal, Kind::Freebusy, Kind::Timezone, Kind::Audio, Kind::Display],
            run.pick(2, 3),
        ),
    ] {
        let ks = kids(&kinds);
        run.family(&format!("{parent:?}: nested components"), product(&vec![ks.len(); depth]), |i, case| {
            let mut d = Dec(i);
            let body: String = (0..depth).map(|_| d.of(&ks).clone()).collect();
            f(case, parent, &docs::doc(parent, &docs::base(parent), &body), depth as u64);
        });
    }

    // texts
    let places = text_lines();
    let max = run.pick(3, 4);
    let n = strings_count(INLINE.len(), 0, max);
    run.family("texts", product(&[n as usize, places.len()]), |i, case| {
        let (s, len) = concat_at(INLINE, 0, i / places.len() as u64);
        let (k, p) = &places[(i % places.len() as u64) as usize];
        f(case, *k, &with(*k, &[&p.replace("{}", &s)]), len);
    });

    // two characters together, in every place a text may stand
    let chars: Vec<char> = (0x20u8..0x7f).map(char::from).chain(['\t', '\0', '\u{7f}', '\u{e9}']).collect();
    // no name twice in a document
    let mut rounds: Vec<(Kind, Vec<&String>)> = Vec::new();
    for (k, p) in &places {
        let name = |x: &str| x.split([':', ';']).next().unwrap_or_default().to_string();
        match rounds.iter_mut().find(|(k2, ps)| k == k2 && ps.iter().all(|x| name(x) != name(p))) {
            Some((_, ps)) => ps.push(p),
            None => rounds.push((*k, vec![p])),
        }
    }
    run.family("two characters", product(&[chars.len(), chars.len(), rounds.len(), 2]), |i, case| {
        let mut d = Dec(i);
        let s: String = [*d.of(&chars), *d.of(&chars)].iter().collect();
        let (k, ps) = d.of(&rounds);
        let s = if d.take(2) == 0 { s } else { format!("a{s}b") };
        let bare = s.replace('"', "'").replace([';', ':'], "-");
        let fill = |p: &str| if p.contains("P=") { p.replace("\"{}\"", &format!("\"{}\"", s.replace('"', "'"))).replace("{}", &bare) } else { p.replace("{}", &s) };
        let ls: Vec<String> = ps.iter().map(|p| fill(p)).collect();
        f(case, *k, &with(*k, &ls.iter().collect::<Vec<_>>()), 2);
    });

    // sizes
    let ns = super::numbers(run.pick(2_502, 20_002));
    let lists: Vec<(Kind, &'static str, String)> = KINDS
        .iter()
        .flat_map(|k| k.props().iter().filter(|p| p.mult == Mult::List).map(|p| (*k, p.name, docs::good(p.ty).first().map_or(":v".to_string(), ToString::to_string))))
        .collect();
    run.tight("great lists", product(&[ns.len(), lists.len()]), |i, case| {
        let mut d = Dec(i);
        let n = *d.of(&ns);
        let (k, name, v) = d.of(&lists);
        let l = format!("{name}{v}");
        f(case, *k, &with(*k, &vec![&l; n]), n as u64);
    });
    run.tight("great numbers", product(&[ns.len(), 8]), |i, case| {
        let mut d = Dec(i);
        let n = *d.of(&ns);
        let all = |x: &dyn Fn(usize) -> String, sep: &str| (0..n).map(x).collect::<Vec<_>>().join(sep);
        let (k, ls) = match d.take(8) {
            0 => (Kind::Event, (0..n).map(|i| format!("X-{i};P={i}:{i}")).collect()),
            1 => (Kind::Todo, (0..n).map(|i| format!("I{i}:{i}")).collect()),
            2 => (Kind::Journal, vec![format!("CATEGORIES:{}", all(&|i| format!("c{i}"), ","))]),
            3 => (Kind::Event, vec![format!("RESOURCES;P=1:{}", all(&|i| format!("c{i}"), ","))]),
            4 => (Kind::Event, vec![format!("EXDATE:{}", all(&|i| format!("2024010{}T0{}0000", 1 + i % 9, i % 7), ","))]),
            5 => (Kind::Freebusy, vec![format!("FREEBUSY:{}", all(&|i| format!("2024010{}T0{}0000Z/PT{i}S", 1 + i % 9, i % 7), ","))]),
            6 => (Kind::Email, vec![format!("SUMMARY;{}:v", all(&|i| format!("P{i}={i}"), ";"))]),
            _ => (Kind::Event, vec![format!("RRULE:FREQ=DAILY;BYSECOND={}", all(&|i| (i % 60).to_string(), ","))]),
        };
        f(case, k, &with(k, &ls.iter().collect::<Vec<_>>()), n as u64);
    });
    run.tight("great numbers of components", product(&[ns.len(), 6]), |i, case| {
        let mut d = Dec(i);
        let n = *d.of(&ns);
        let (parent, ks): (Kind, &[Kind]) = *d.of(&[
            (Kind::Event, &[Kind::Audio][..]), (Kind::Event, &[Kind::Display, Kind::Email]), (Kind::Timezone, &[Kind::Standard]),
            (Kind::Timezone, &[Kind::Standard, Kind::Daylight]), (Kind::Calendar, &[Kind::Event]), (Kind::Calendar, &[Kind::Todo, Kind::Journal, Kind::Freebusy, Kind::Timezone, Kind::Audio]),
        ]);
        let body: String = (0..n).map(|j| docs::minimal(ks[j % ks.len()])).collect();
        f(case, parent, &docs::doc(parent, &docs::base(parent), &body), n as u64);
    });
}

// ---------------------------------------------------------------- C11

pub const C11: Info = Info {
    id: "C11",
    zones: &["UTC", "CET-1CEST,M3.5.0,M10.5.0/3"],
    more_zones: &["<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "EST5EDT,M3.2.0,M11.1.0"],
    rule: "documents of every kind: every pair and triple of property lines, every full component less any two lines, every sequence of nested components to a depth, every text over an alphabet of special characters to a length in every place a text may stand, grids of values of every type",
    assumptions: &["the answer to a document is given by the library; its meaning is judged by the other checks"],
    run: c11,
};

/// What reading printed local times as UTC makes of the value (known finding of C07).
fn wall_val(v: &Val) -> Val {
    use super::zones::offset_at;
    match v {
        Val::Utc(t, l) => Val::Utc(t + offset_at(*t), *l),
        Val::Period(a, b) => Val::Period(Box::new(wall_val(a)), Box::new(wall_val(b))),
        Val::RDate(p, v) => Val::RDate(*p, v.iter().map(wall_val).collect()),
        Val::Recur(r) => {
            let mut r = r.clone();
            r.until = r.until.as_ref().map(wall_val);
            Val::Recur(r)
        }
        v => v.clone(),
    }
}

fn wall_obs(o: &Obs) -> Obs {
    Obs {
        kind: o.kind,
        fields: o.fields.iter().map(|(k, v)| (*k, v.iter().map(wall_val).collect())).collect(),
        x: o.x.clone(),
        iana: o.iana.clone(),
        kids: o.kids.iter().map(|(k, v)| (*k, v.iter().map(wall_obs).collect())).collect(),
    }
}

fn c11(run: &Run) {
    let utc = run.zone == "UTC";
    walk(run, &|case, kind, text, steps| {
        case.steps(steps);
        match library(kind, text) {
            Ok(Some((a, o))) => {
                case.state(&o);
                case.sample(|| format!("{kind:?} {text:?}"));
                if utc {
                    roundtrip(case, kind, &a);
                    return;
                }
                let walls = wall_obs(&o);
                if text.contains("99991231T235959Z") {
                    case.unspecified(); // the local year 10000
                    return;
                }
                if walls == o {
                    roundtrip(case, kind, &a);
                    return;
                }
                // local times are printed as wall-clock times
                case.validated();
                let back = imp(|| a.ical().ok().and_then(|t| Any::parse(kind, &t).ok()).map(|x| x.obs()));
                match back {
                    Ok(Some(b)) if model::normal_obs(&b) == model::normal_obs(&o) => (),
                    Ok(Some(b)) if model::normal_obs(&b) == model::normal_obs(&super::quotes(&walls)) => {
                        case.known("wall-clock-print", || format!("UTC times are moved by the local offset by serialise and parse in {}", run.zone));
                    }
                    Ok(Some(b)) => case.fail(|| format!("{kind:?} not equal after serialise and parse: {}\n{text:?}", diff(&o, &b))),
                    r => case.fail(|| format!("{kind:?} {r:?}\n{text:?}")),
                }
            }
            Ok(None) => case.unspecified(),
            Err(p) => case.fail(|| format!("parsing as {kind:?} {p}\n{text:?}")),
        }
    });
}

// ---------------------------------------------------------------- C22

pub const C22: Info = Info {
    id: "C22",
    zones: &["UTC"],
    more_zones: &[],
    rule: "the documents of C11; the serialised text is read by the reference parser and has to state every value held exactly once, under its name, with its parameters and value type",
    assumptions: &["the recurrence identifier and UTC offsets with seconds are left open"],
    run: c22,
};

fn c22(run: &Run) {
    walk(run, &|case, kind, text, steps| {
        case.steps(steps);
        match library(kind, text) {
            Ok(Some((a, o))) => {
                let t = match imp(|| a.ical()) {
                    Ok(Ok(t)) => t,
                    r => {
                        case.fail(|| format!("{kind:?} isn't serialised: {r:?}\n{text:?}"));
                        return;
                    }
                };
                let t2 = t.clone();
                states(case, kind, &o, &t, &t2);
            }
            Ok(None) => case.unspecified(),
            Err(p) => case.fail(|| format!("parsing as {kind:?} {p}\n{text:?}")),
        }
    });

    // components built in place rather than read
    let ps = spots();
    let values = ["", "x", "a b", "é", "1;2,3", "\\;", "line\nbreak", "\u{1f600}"];
    run.family("components built in place", product(&[ps.len(), values.len()]), |i, case| {
        let mut d = Dec(i);
        let p = d.of(&ps);
        let v = *d.of(&values);
        let mut a = start(p.kind);
        (p.set)(&mut a, v);
        let o = a.obs();
        case.steps(1);
        match imp(|| a.ical()) {
            // a line break has no form but the escaped one in parameters, URIs and extensions
            Ok(Ok(t)) if !v.contains('\n') || (p.text && (p.part == What::Value || p.field == "rstatus")) => states(case, p.kind, &o, &t, v),
            Ok(Ok(_)) => case.unspecified(),
            r => case.fail(|| format!("{} isn't serialised: {r:?}", p.what)),
        }
    });
    // lists of every length
    run.family("lists", product(&[KINDS.len(), 31, 5]), |i, case| {
        let mut d = Dec(i);
        let k = *d.of(&KINDS);
        let lists: Vec<&model::Prop> = k.props().iter().filter(|p| p.mult == Mult::List).collect();
        let p = d.take(31);
        let n = d.take(5);
        let Some(p) = lists.get(p) else { return };
        let g = docs::good(p.ty);
        for first in 0..g.len() {
            let mut ls = docs::base(k);
            ls.extend((0..n).map(|i| format!("{}{}", p.name, g[(first + i) % g.len()])));
            let text = docs::doc(k, &ls, "");
            case.steps(n as u64);
            if let Ok(Some((a, o))) = library(k, &text) {
                match imp(|| a.ical()) {
                    Ok(Ok(t)) => states(case, k, &o, &t, &text),
                    r => case.fail(|| format!("{k:?} isn't serialised: {r:?}\n{text:?}")),
                }
            }
        }
    });
}

fn states(case: &mut Case, kind: Kind, o: &Obs, t: &str, from: &str) {
    case.state(o);
    case.validated();
    case.sample(|| t.to_string());
    let r = model::tree(t).and_then(|tree| model::states_exactly(o, &tree));
    if let Err(e) = r {
        let q = super::quotes(o);
        if q != *o && model::tree(t).and_then(|tree| model::states_exactly(&q, &tree)).is_ok() {
            case.known("parameter-quote", || format!("{kind:?}: a double quote inside an unquoted parameter value is serialised as a single one: {t:?}"));
        } else {
            case.fail(|| format!("{kind:?}: {e}\n{t:?}\nfrom {from:?}"));
        }
    }
}

// ---------------------------------------------------------------- C13

pub const C13: Info = Info {
    id: "C13",
    zones: &["UTC"],
    more_zones: &[],
    rule: "every string over an alphabet of line breaks, separators, quotes, backslashes, white space and END lines, to a length, set in every text, URI, classification, request status, category, extension value and parameter value of every kind of component, and at every distance from a fold",
    assumptions: &[],
    run: c13,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum What {
    Value,
    Param,
}

/// Where a component can be given a text.
struct Spot {
    kind: Kind,
    what: String,
    /// the field, or the name of the extension property
    field: &'static str,
    at: usize,
    part: What,
    /// unescaped on reading
    text: bool,
    set: Box<dyn Fn(&mut Any, &str) + Send + Sync>,
}

fn text(s: &str) -> ikal::Text {
    ikal::Text { params: std::collections::BTreeMap::new(), text: s.to_string() }
}

fn params(s: &str) -> std::collections::BTreeMap<String, String> {
    [("A", "1"), ("P", s), ("Z", "2")].into_iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()
}

fn text_p(s: &str) -> ikal::Text {
    ikal::Text { params: params(s), text: "v".into() }
}

fn uri(s: &str) -> ikal::Uri {
    ikal::Uri { params: std::collections::BTreeMap::new(), uri: s.to_string() }
}

fn uri_p(s: &str) -> ikal::Uri {
    ikal::Uri { params: params(s), uri: "u:v".into() }
}

fn spots() -> Vec<Spot> {
    let mut out: Vec<Spot> = Vec::new();
    macro_rules! spot {
        ($kind:ident $var:ident $field:ident $at:expr, $part:ident $text:expr, |$c:ident, $s:ident| $set:expr) => {
            out.push(Spot {
                kind: Kind::$kind,
                what: format!("{} of {:?} ({:?})", stringify!($field), Kind::$kind, What::$part),
                field: stringify!($field),
                at: $at,
                part: What::$part,
                text: $text,
                set: Box::new(|a, $s| {
                    with!(a, $kind $var, |$c| $set);
                }),
            });
        };
    }
    macro_rules! with {
        ($a:ident, $kind:ident Alarm, |$c:ident| $set:expr) => {
            if let Any::Alarm(ikal::VAlarm::$kind($c)) = $a { $set; } else { unreachable!() }
        };
        ($a:ident, $kind:ident $var:ident, |$c:ident| $set:expr) => {
            if let Any::$var($c) = $a { $set; } else { unreachable!() }
        };
    }
    macro_rules! one {
        ($kind:ident $var:ident: $($field:ident)*) => { $(
            spot!($kind $var $field 0, Value true, |c, s| c.$field = text(s));
            spot!($kind $var $field 0, Param true, |c, s| c.$field = text_p(s));
        )* };
    }
    macro_rules! opt {
        ($kind:ident $var:ident: $($field:ident)*) => { $(
            spot!($kind $var $field 0, Value true, |c, s| c.$field = Some(text(s)));
            spot!($kind $var $field 0, Param true, |c, s| c.$field = Some(text_p(s)));
        )* };
    }
    macro_rules! list {
        ($kind:ident $var:ident: $($field:ident)*) => { $(
            spot!($kind $var $field 1, Value true, |c, s| c.$field = vec![text("a"), text(s), text("b")]);
            spot!($kind $var $field 1, Param true, |c, s| c.$field = vec![text("a"), text_p(s), text("b")]);
        )* };
    }
    macro_rules! uris {
        ($kind:ident $var:ident: $($field:ident)*) => { $(
            spot!($kind $var $field 0, Value false, |c, s| c.$field = Some(uri(s)));
            spot!($kind $var $field 0, Param false, |c, s| c.$field = Some(uri_p(s)));
        )* };
    }
    macro_rules! uri_list {
        ($kind:ident $var:ident: $($field:ident)*) => { $(
            spot!($kind $var $field 1, Value false, |c, s| c.$field = vec![uri("a"), uri(s), uri("b")]);
            spot!($kind $var $field 1, Param false, |c, s| c.$field = vec![uri("a"), uri_p(s), uri("b")]);
        )* };
    }
    macro_rules! class {
        ($($kind:ident)*) => { $(
            spot!($kind $kind class 0, Value false, |c, s| c.class = Some(ikal::Class::Custom(s.to_string())));
        )* };
    }
    macro_rules! rstatus {
        ($($kind:ident)*) => { $(
            spot!($kind $kind rstatus 1, Value true, |c, s| {
                let r = |d: &str, e: Option<&str>| ikal::RequestStatus { statcode: 2.0, statdesc: d.to_string(), extdata: e.map(str::to_string) };
                c.rstatus = vec![r("a", None), r(s, None), r("b", Some("c"))];
            });
            spot!($kind $kind rstatus 0, Value true, |c, s| {
                let r = |d: &str, e: Option<&str>| ikal::RequestStatus { statcode: 3.5, statdesc: d.to_string(), extdata: e.map(str::to_string) };
                c.rstatus = vec![r(s, Some("x")), r("b", Some("c"))];
            });
            spot!($kind $kind rstatus 0, Param true, |c, s| {
                let r = |d: &str, e: Option<&str>| ikal::RequestStatus { statcode: 3.5, statdesc: d.to_string(), extdata: e.map(str::to_string) };
                c.rstatus = vec![r("a", Some(s)), r("b", Some("c"))];
            });
        )* };
    }
    macro_rules! ext {
        ($($kind:ident $var:ident),*) => { $(
            for (part, name) in [(What::Value, "X-SPOT"), (What::Param, "X-SPOT"), (What::Value, "SPOT"), (What::Param, "SPOT")] {
                out.push(Spot {
                    kind: Kind::$kind,
                    what: format!("{name} of {:?} ({part:?})", Kind::$kind),
                    field: name,
                    at: 0,
                    part,
                    text: false,
                    set: Box::new(move |a, s| {
                        with!(a, $kind $var, |c| {
                            let line = if name == "SPOT" { c.iana_prop.get_mut(name) } else { c.x_prop.get_mut(name) };
                            let line = line.expect("extension property");
                            if part == What::Param {
                                line.params = params(s);
                            } else {
                                line.value = s.to_string();
                            }
                        });
                    }),
                });
            }
        )* };
    }
    one! { Event Event: uid }
    opt! { Event Event: description location summary }
    list! { Event Event: attach categories comment contact related_to resources }
    uris! { Event Event: organizer url }
    uri_list! { Event Event: attendee }
    one! { Todo Todo: uid }
    opt! { Todo Todo: location summary }
    list! { Todo Todo: attach categories comment contact related_to resources }
    uris! { Todo Todo: organizer url }
    uri_list! { Todo Todo: attendee }
    one! { Journal Journal: uid }
    opt! { Journal Journal: summary }
    list! { Journal Journal: attach categories comment contact description related_to }
    uris! { Journal Journal: organizer url }
    uri_list! { Journal Journal: attendee }
    one! { Freebusy Freebusy: uid }
    opt! { Freebusy Freebusy: contact }
    list! { Freebusy Freebusy: comment }
    uris! { Freebusy Freebusy: organizer url }
    uri_list! { Freebusy Freebusy: attendee }
    one! { Timezone Timezone: tzid }
    uris! { Timezone Timezone: tzurl }
    list! { Standard Standard: comment tzname }
    list! { Daylight Daylight: comment tzname }
    list! { Audio Alarm: attach }
    one! { Display Alarm: description }
    one! { Email Alarm: description summary }
    list! { Email Alarm: attach }
    uri_list! { Email Alarm: attendee }
    one! { Calendar Calendar: prodid version }
    opt! { Calendar Calendar: calscale method }
    class! { Event Todo Journal }
    rstatus! { Event Todo Journal Freebusy }
    ext! { Event Event, Todo Todo, Journal Journal, Freebusy Freebusy, Timezone Timezone, Standard Standard, Daylight Daylight,
        Audio Alarm, Display Alarm, Email Alarm, Calendar Calendar }
    out
}

/// The component a spot is filled in: everything else is there as well.
fn start(kind: Kind) -> Any {
    let mut ls = docs::full(kind, 0);
    // texts which come back as they are
    for l in &mut ls {
        if l.contains("Caf\u{e9}") {
            *l = format!("{}:text", l.split([':', ';']).next().unwrap());
        }
    }
    ls.extend(SPOTS.map(String::from));
    Any::parse(kind, &docs::doc(kind, &ls, &docs::full_kids(kind, 0))).expect("full document")
}

const SPOTS: [&str; 2] = ["X-SPOT;A=1;P=3;Z=2:v", "SPOT;A=1;P=3;Z=2:v"];

fn start_small(kind: Kind) -> Any {
    let mut ls = docs::base(kind);
    ls.extend(SPOTS.map(String::from));
    Any::parse(kind, &docs::doc(kind, &ls, "")).expect("minimal document")
}

fn newlines(s: &str) -> String {
    s.replace("\r\n", "\n").replace('\r', "\n")
}

/// How a parameter value has to come back: what has no form in a parameter is replaced.
fn param(s: &str) -> String {
    newlines(s).replace('\n', "\\n").replace('"', "'")
}

/// The values a spot is about.
fn values_mut<'a>(o: &'a mut Obs, p: &Spot) -> Option<&'a mut Val> {
    match p.field {
        "X-SPOT" => o.x.get_mut("X-SPOT"),
        "SPOT" => o.iana.get_mut("SPOT"),
        f => o.fields.get_mut(f).and_then(|x| x.get_mut(p.at)),
    }
}

fn breakout(case: &mut Case, p: &Spot, plain: &Obs, plain_lines: usize, any: &mut Any, s: &str, nested: bool) {
    case.validated();
    let (sp, kind) = (&p.set, p.kind);
    let wrap = |a: &Any| -> Option<(Any, Kind)> {
        Some(match a.clone() {
            Any::Event(e) => (Any::Calendar(ikal::VCalendar { events: vec![e], ..Default::default() }), Kind::Calendar),
            Any::Todo(e) => (Any::Calendar(ikal::VCalendar { todo: vec![e], ..Default::default() }), Kind::Calendar),
            Any::Journal(e) => (Any::Calendar(ikal::VCalendar { journals: vec![e], ..Default::default() }), Kind::Calendar),
            Any::Freebusy(e) => (Any::Calendar(ikal::VCalendar { freebusy: vec![e], ..Default::default() }), Kind::Calendar),
            Any::Timezone(e) => (Any::Calendar(ikal::VCalendar { timezones: vec![e], ..Default::default() }), Kind::Calendar),
            Any::Alarm(e) => (Any::Event(ikal::VEvent { alarms: vec![e], ..Default::default() }), Kind::Event),
            Any::Standard(e) => (Any::Timezone(ikal::VTimezone { standard: vec![e], ..Default::default() }), Kind::Timezone),
            Any::Daylight(e) => (Any::Timezone(ikal::VTimezone { daylight: vec![e], ..Default::default() }), Kind::Timezone),
            Any::Calendar(_) => return None,
        })
    };
    let r = imp(|| {
        sp(any, s);
        let (a, k) = if nested { wrap(any)? } else { (any.clone(), kind) };
        let t = a.ical();
        let back = t.as_ref().ok().map(|t| Any::parse(k, t));
        Some((t, back))
    });
    let r = match r {
        Ok(None) => return,
        Ok(Some(x)) => Ok(x),
        Err(e) => Err(e),
    };
    let (t, back) = match r {
        Ok((Ok(t), Some(Ok(back)))) => (t, back),
        r => {
            case.fail(|| format!("{} set to {s:?}: {r:?}", p.what));
            return;
        }
    };
    if let Err(e) = model::well_formed(&t) {
        case.fail(|| format!("{} set to {s:?}: {e}\n{t:?}", p.what));
        return;
    }
    if !nested && model::logical_lines(&t).len() != plain_lines {
        case.fail(|| format!("{} set to {s:?}: {} lines instead of {plain_lines}\n{t:?}", p.what, model::logical_lines(&t).len()));
        return;
    }
    let mut got = back.obs();
    if nested {
        let mut all: Vec<Obs> = got.kids.values().flatten().cloned().collect();
        if all.len() != 1 {
            case.fail(|| format!("{} set to {s:?}, nested: {} components\n{t:?}", p.what, all.len()));
            return;
        }
        let empty = |o: &Obs| o.x.is_empty() && o.iana.is_empty();
        if !empty(&got) {
            case.fail(|| format!("{} set to {s:?}, nested: properties outside\n{t:?}", p.what));
            return;
        }
        got = all.pop().unwrap();
    }
    case.state(&got);
    let mut plain = plain.clone();
    let (Some(g), Some(w)) = (values_mut(&mut got, p), values_mut(&mut plain, p)) else {
        case.fail(|| format!("{} set to {s:?} is lost\n{t:?}", p.what));
        return;
    };
    // the value concerned
    let plain_s = !s.contains('\\');
    let read = |x: &str| newlines(&model::unescape(x)) == newlines(s);
    let ps = |a: &model::Params, b: &model::Params| {
        a.keys().eq(b.keys()) && a.iter().all(|(k, v)| if k == "P" && p.part == What::Param { *v == param(s) } else { b[k] == *v })
    };
    let value = p.part == What::Value;
    let ok = match (&*g, &*w) {
        (Val::Text(a, x), Val::Text(b, y)) => ps(a, b) && if value { !plain_s || !p.text || read(x) } else { x == y },
        (Val::Uri(a, x), Val::Uri(b, y)) | (Val::Line(a, x), Val::Line(b, y)) => ps(a, b) && if value { s.contains(['\r', '\n']) || x == s } else { x == y },
        (Val::RStat(c, d, e), Val::RStat(c2, d2, e2)) => {
            c == c2
                && if value { e == e2 && (!plain_s || read(d)) } else { d == d2 && e.is_some() == e2.is_some() && (!plain_s || e.as_deref().is_some_and(read)) }
        }
        (Val::Custom(_) | Val::Key(_), Val::Custom(_)) => true,
        _ => false,
    };
    if !ok {
        case.fail(|| format!("{} set to {s:?}: reads back as {g:?}\n{t:?}", p.what));
        return;
    }
    // everything else
    *g = w.clone();
    if model::normal_obs(&got) != model::normal_obs(&plain) {
        case.fail(|| format!("{} set to {s:?} changes more: {}\n{t:?}", p.what, diff(&plain, &got)));
    }
}

struct Ready {
    spot: Spot,
    any: Any,
    plain: Obs,
    lines: usize,
}

fn ready(start: fn(Kind) -> Any) -> Vec<Ready> {
    spots()
        .into_iter()
        .map(|spot| {
            let mut any = start(spot.kind);
            (spot.set)(&mut any, "x");
            let t = any.ical().expect("serialise");
            // the other texts as they are after a first round
            let plain = Any::parse(spot.kind, &t).expect("parse").obs();
            Ready { any, plain, lines: model::logical_lines(&t).len(), spot }
        })
        .collect()
}

fn c13(run: &Run) {
    // the full components are the costly ones; most strings are tried in small ones
    let (Ok(rs), Ok(small)) = (imp(|| ready(start)), imp(|| ready(start_small))) else {
        run.family("components", 1, |_, case| case.fail(|| "a component isn't serialised and read back".to_string()));
        return;
    };
    let n = small.len();
    let max = run.pick(3, 4);
    let count = strings_count(HOSTILE.len(), 0, max) as usize;
    run.family("strings", product(&[count, n]), |i, case| {
        let r = &small[i as usize % n];
        let (s, len) = concat_at(HOSTILE, 0, i / n as u64);
        case.steps(len);
        case.sample(|| format!("{} set to {s:?}", r.spot.what));
        breakout(case, &r.spot, &r.plain, r.lines, &mut r.any.clone(), &s, false);
    });
    let count = strings_count(HOSTILE.len(), 0, run.pick(1, 2)) as usize;
    run.family("strings in full components", product(&[count, n]), |i, case| {
        let r = &rs[i as usize % n];
        let (s, len) = concat_at(HOSTILE, 0, i / n as u64);
        case.steps(len);
        breakout(case, &r.spot, &r.plain, r.lines, &mut r.any.clone(), &s, false);
    });
    let count = strings_count(HOSTILE.len(), 0, 2) as usize;
    run.family("strings in nested components", product(&[count, n]), |i, case| {
        let r = &small[i as usize % n];
        let (s, len) = concat_at(HOSTILE, 0, i / n as u64);
        case.steps(len);
        breakout(case, &r.spot, &r.plain, r.lines, &mut r.any.clone(), &s, true);
    });
    // at every distance from a fold
    let tails = strings_count(HOSTILE.len(), 1, 2) as usize;
    let (from, to) = (run.pick(48, 30), run.pick(78, 160));
    let some: Vec<&Ready> = small.iter().filter(|r| run.thorough() || matches!(r.spot.kind, Kind::Event | Kind::Email | Kind::Calendar)).collect();
    run.family("strings at a fold", product(&[tails, to - from, some.len()]), |i, case| {
        let mut d = Dec(i);
        let r = *d.of(&some);
        let len = from + d.take(to - from);
        let (tail, k) = concat_at(HOSTILE, 1, d.0);
        case.steps(k + 1);
        let s = format!("{}{tail}z", "f".repeat(len));
        breakout(case, &r.spot, &r.plain, r.lines, &mut r.any.clone(), &s, false);
    });
    // every character below U+0180, and those that break lines elsewhere
    let odd: Vec<char> = (0u32..0x180).chain([0x2028, 0x2029, 0xfeff, 0xfffd, 0xffff, 0x1f600, 0x10ffff]).filter_map(char::from_u32).collect();
    run.family("characters", product(&[odd.len(), n, 3]), |i, case| {
        let mut d = Dec(i);
        let c = *d.of(&odd);
        let r = d.of(&small);
        case.steps(1);
        let s = match d.take(3) {
            0 => c.to_string(),
            1 => format!("a{c}b"),
            _ => format!("\\{c}:"),
        };
        breakout(case, &r.spot, &r.plain, r.lines, &mut r.any.clone(), &s, false);
    });
    // every character there is
    let one: Vec<&Ready> = small.iter().filter(|r| r.spot.kind == Kind::Event && ["SUMMARY", "URL", "X-"].iter().any(|x| r.spot.what.contains(x))).collect();
    run.family("every character", 0x11_0000, |i, case| {
        let Some(c) = char::from_u32(i as u32) else { return };
        for r in &one {
            case.steps(1);
            breakout(case, &r.spot, &r.plain, r.lines, &mut r.any.clone(), &format!("a{c}{c}b"), false);
        }
    });
    // behind and before what looks like another kind of content
    let fronts = [
        "data:x;base64,AA==", "data:text/plain,", "mailto:a@b.c", "http://a.b/c?d=e&f#g", "HTTPS://", "urn:uuid:1", "cid:1", "tel:+1", "file:///a", "MAILTO:", "P1D", "-PT15M", "20240101", "20240101T000000Z",
        "20240101T000000/PT1H", "FREQ=DAILY;COUNT=2", "1.5;2.5", "2.0;Success", "PUBLIC", "X-A", "X-A:", "VALUE=DATE", "TZID=Europe/Paris:", "BEGIN:VEVENT", "END:VEVENT", "BEGIN:", "-//a//b//EN", "TRUE",
        "<p>", "</html>", "{\"a\":1}", "[1]", "CN=A B", "\"quoted\"", "'q'", "text/html", "=?utf-8?B?YQ==?=", "%0D%0A", "&#13;&#10;", "\\n", "\\N", "^n", "+0100", "en-US", "😀", "\u{feff}", "0", "-1",
    ];
    let count = strings_count(HOSTILE.len(), 1, 2) as usize;
    run.family("strings beside other content", product(&[fronts.len(), count, n, 3]), |i, case| {
        let mut d = Dec(i);
        let f = d.of(&fronts);
        let (s, len) = concat_at(HOSTILE, 1, d.take(count) as u64);
        let r = d.of(&small);
        case.steps(len + 1);
        let s = match d.take(3) {
            0 => format!("{f}{s}"),
            1 => format!("{s}{f}"),
            _ => format!("{f}{s}{f}"),
        };
        breakout(case, &r.spot, &r.plain, r.lines, &mut r.any.clone(), &s, false);
    });
    // lists on their own
    let count = strings_count(HOSTILE.len(), 0, 2) as usize;
    run.family("lists alone", product(&[count, count.min(run.pick(400, 2000)), 2]), |i, case| {
        let mut d = Dec(i);
        let two = [concat_at(HOSTILE, 0, d.take(count) as u64).0, concat_at(HOSTILE, 0, d.take(count.min(run.pick(400, 2000))) as u64).0];
        case.steps(2);
        case.validated();
        case.state(&two);
        let text = imp(|| match d.take(2) {
            0 => ikal::ser::ical(&two.to_vec()).unwrap(),
            _ => ikal::ser::ical(&two.iter().map(|x| ikal::Text::from(x.as_str())).collect::<Vec<_>>()).unwrap(),
        });
        // the items, between the commas that aren't escaped
        let items = text.clone().map(|t| {
            let mut out = vec![String::new()];
            let mut cs = t.chars();
            while let Some(c) = cs.next() {
                match c {
                    ',' => out.push(String::new()),
                    '\\' => out.last_mut().unwrap().extend([c].into_iter().chain(cs.next())),
                    c => out.last_mut().unwrap().push(c),
                }
            }
            out
        });
        let alone: Vec<_> = two.iter().map(|x| imp(|| ikal::ser::ical(x).unwrap())).collect();
        let same = items.as_ref().is_ok_and(|x| x.len() == 2 && alone.iter().zip(x).all(|(a, b)| a.as_ref() == Ok(b)));
        if !same || text.as_ref().is_ok_and(|t| t.contains(['\r', '\n'])) {
            case.fail(|| format!("the list {two:?} is serialised as {text:?}"));
        }
    });
}

// ---------------------------------------------------------------- C12

pub const C12: Info = Info {
    id: "C12",
    zones: &["UTC"],
    more_zones: &[],
    rule: "lines of every length around the folds, with characters of every width at every alignment, in the name, the parameter names, the parameter values and the value of every kind of property; every position of white space, escapes and separators around each fold; the documents of C11",
    assumptions: &[],
    run: c12,
};

/// Lines with a gap whose canonical form is themselves.
fn gaps() -> Vec<(Kind, String, bool)> {
    let mut out: Vec<(Kind, String, bool)> = Vec::new();
    for k in KINDS {
        for p in k.props() {
            match p.ty {
                Ty::Text | Ty::TextList | Ty::Uri if p.name != "ACTION" => {
                    out.push((k, format!("{}:{{}}", p.name), false));
                    if p.ty != Ty::TextList {
                        out.push((k, format!("{};CN={{}}:v", p.name), false));
                        out.push((k, format!("{};CN=\"{{}};\":v", p.name), false));
                    }
                }
                Ty::RStat => {
                    out.push((k, format!("{}:2.8;{{}}", p.name), false));
                    out.push((k, format!("{}:2.8;d;{{}}", p.name), false));
                }
                _ => (),
            }
        }
        out.push((k, "X-FOO:{}".into(), false));
        out.push((k, "X-FOO;B={}:v".into(), false));
        out.push((k, "COLOR;B=\"{}:\":{}".into(), false));
        out.push((k, "X-{}:v".into(), true));
        out.push((k, "N{}:v".into(), true));
        out.push((k, "X-FOO;B{}=1:v".into(), true));
    }
    out
}

fn lines_of(case: &mut Case, kind: Kind, line: &str) {
    let mut ls = docs::base(kind);
    let name = line.split([':', ';']).next().unwrap_or_default();
    ls.retain(|l| l.split([':', ';']).next() != Some(name));
    ls.push(line.to_string());
    let text = docs::doc(kind, &ls, "");
    let mut want = ls;
    case.validated();
    case.state(&(kind, line));
    let r = imp(|| Any::parse(kind, &text).ok().map(|x| x.ical()));
    let t = match r {
        Ok(Some(Ok(t))) => t,
        r => {
            case.fail(|| format!("{r:?}\n{text:?}"));
            return;
        }
    };
    case.sample(|| t.clone());
    if let Err(e) = model::well_formed(&t) {
        case.fail(|| format!("{kind:?}: {e}\n{t:?}"));
        return;
    }
    let mut got = model::logical_lines(&t);
    if got.first() != Some(&format!("BEGIN:{}", kind.tag())) || got.last() != Some(&format!("END:{}", kind.tag())) {
        case.fail(|| format!("{kind:?}: not between BEGIN and END\n{t:?}"));
        return;
    }
    got.remove(0);
    got.pop();
    got.sort();
    want.sort();
    if name != "TRIGGER" {
        // a duration has several forms
        got.retain(|l| !l.starts_with("TRIGGER"));
        want.retain(|l| !l.starts_with("TRIGGER"));
    }
    if got != want {
        let missing: Vec<&String> = want.iter().filter(|x| !got.contains(x)).collect();
        let extra: Vec<&String> = got.iter().filter(|x| !want.contains(x)).collect();
        case.fail(|| format!("{kind:?}: unfolds to {extra:?} instead of {missing:?}\n{t:?}"));
    }
}

fn c12(run: &Run) {
    let gs = gaps();
    let any: Vec<&(Kind, String, bool)> = gs.iter().filter(|x| !x.2).collect();
    let names: Vec<&(Kind, String, bool)> = gs.iter().filter(|x| x.2).collect();
    // lengths
    let max = run.pick(320, 1000);
    let fills = ["a", "\u{e9}", "\u{20ac}", "\u{1f600}", "a\u{e9}", "\u{e9}\u{20ac}a", "\u{1f600}a\u{e9}\u{20ac}", "\u{20ac}\u{1f600}", "a ", " ", "aa \u{e9} "];
    run.family("lengths", product(&[max, any.len(), fills.len()]), |i, case| {
        let mut d = Dec(i);
        let fill = *d.of(&fills);
        let (k, g, _) = *d.of(&any);
        let len = d.take(max);
        // so many octets at most
        let s: String = fill.chars().cycle().scan(0, |n, c| {
            *n += c.len_utf8();
            (*n <= len).then_some(c)
        }).collect();
        case.steps(1);
        lines_of(case, *k, &g.replace("{}", &s));
    });
    // longer ones, around each fold
    let long: Vec<usize> = (4..run.pick(70usize, 300)).flat_map(|k| (0..8).map(move |d| k * 75 - 14 + 3 * d)).chain([65_535, 65_536, 65_537, 100_000]).collect();
    let spots: Vec<&(Kind, String, bool)> = any.iter().copied().filter(|x| matches!(x.0, Kind::Event | Kind::Calendar | Kind::Audio)).collect();
    run.family("longer lines", product(&[long.len(), spots.len(), fills.len(), 2]), |i, case| {
        let mut d = Dec(i);
        let len = *d.of(&long);
        let (k, g, _) = *d.of(&spots);
        let fill = *d.of(&fills);
        let mut s: String = fill.chars().cycle().scan(0, |n, c| {
            *n += c.len_utf8();
            (*n <= len).then_some(c)
        }).collect();
        if d.take(2) == 1 {
            s.push_str("  \t ");
        }
        case.steps(1);
        lines_of(case, *k, &g.replace("{}", &s));
    });
    run.family("lengths of names", product(&[max, names.len()]), |i, case| {
        let mut d = Dec(i);
        let (k, g, _) = *d.of(&names);
        let len = d.take(max);
        case.steps(1);
        lines_of(case, *k, &g.replace("{}", &"N".repeat(len)));
    });
    // alignments of wide characters
    let aligned: Vec<&(Kind, String, bool)> = any.iter().copied().filter(|x| run.thorough() || matches!(x.0, Kind::Event | Kind::Display | Kind::Calendar)).collect();
    run.family("alignments", product(&[160, aligned.len(), 4, 4]), |i, case| {
        let mut d = Dec(i);
        let wide = ["\u{e9}", "\u{20ac}", "\u{1f600}", "a\u{301}"][d.take(4)];
        let n = d.take(4) + 1;
        let (k, g, _) = *d.of(&aligned);
        let before = d.take(160);
        case.steps(2);
        lines_of(case, *k, &g.replace("{}", &format!("{}{}{}", "b".repeat(before), wide.repeat(n), "c".repeat(40))));
    });
    // what stands around a fold
    let marks = [" ", "\t", "  ", "\\n", "\\\\", "\\;", "\\,", "=", "b ", " \t ", "\u{a0}", "\u{85}", "\u{2028}", "\u{0}", "\u{7f}", "\u{b}", "\u{c}"];
    let plain: Vec<&(Kind, String, bool)> = aligned.iter().copied().filter(|x| !x.1.contains('"')).collect();
    run.family("around a fold", product(&[160, plain.len(), marks.len(), 2]), |i, case| {
        let mut d = Dec(i);
        let many = d.take(2) == 1;
        let m = *d.of(&marks);
        let (k, g, _) = *d.of(&plain);
        let before = d.take(160);
        case.steps(2);
        if (m == "\\;" || m == "\\,") && g.contains("={}") {
            return; // would have to be quoted
        }
        let mid = if many { m.repeat(40) } else { m.to_string() };
        lines_of(case, *k, &g.replace("{}", &format!("{}{mid}{}", "b".repeat(before), "c".repeat(20))));
    });
    // the lines of lists and structured values
    let items = run.pick(60, 200);
    let listed: Vec<(Kind, &'static str, Ty)> = KINDS
        .iter()
        .flat_map(|k| k.props().iter().map(|p| (*k, p.name, p.ty)))
        .filter(|x| matches!(x.2, Ty::TextList | Ty::DateList | Ty::PeriodList | Ty::RDate | Ty::Recur))
        .collect();
    run.family("long lists", product(&[items, listed.len(), 4]), |i, case| {
        let mut d = Dec(i);
        let w = d.take(4);
        let (k, name, ty) = *d.of(&listed);
        let n = d.take(items) + 1;
        let item = |i: usize| {
            let day = cal::fmt_date(cal::days(2024, 1, 1) + i as i64);
            match ty {
                Ty::TextList => ["item", "\u{20ac}", "a\\,b", "i"][w].to_string(),
                Ty::PeriodList => [format!("{day}T000000Z/PT{i}H"), format!("{day}T000000/{day}T010000"), format!("{day}T000000Z/P1D"), format!("{day}T000000/PT1S")][w].clone(),
                Ty::Recur => format!("{}", i % 12 + 1),
                _ => [day.clone(), format!("{day}T000000"), format!("{day}T000000Z"), day.clone()][w].clone(),
            }
        };
        let body = (0..n).map(item).collect::<Vec<_>>().join(",");
        let line = match ty {
            Ty::Recur => format!("{name}:FREQ=DAILY;{}={body}", ["BYMONTH", "BYHOUR", "BYMONTHDAY", "BYSETPOS"][w]),
            _ => format!("{name}:{body}"),
        };
        let mut ls = docs::base(k);
        ls.push(line);
        case.steps(n as u64);
        shape(case, k, &docs::doc(k, &ls, ""));
    });
    // many parameters
    run.family("many parameters", product(&[40, 12, 3]), |i, case| {
        let mut d = Dec(i);
        let n = d.take(40);
        let len = d.take(12);
        let ps: String = (0..n).map(|i| format!(";P{i:02}={}", "v".repeat(len))).collect();
        case.steps(n as u64);
        let (k, name) = [(Kind::Event, "SUMMARY"), (Kind::Event, "ATTENDEE"), (Kind::Calendar, "X-FOO")][d.take(3)];
        lines_of(case, k, &format!("{name}{ps}:v"));
    });
    walk(run, &|case, kind, text, steps| {
        case.steps(steps);
        shape(case, kind, text);
    });
    // what no document holds: line breaks and the like in components built in place
    let Ok(small) = imp(|| ready(start_small)) else {
        run.family("components", 1, |_, case| case.fail(|| "a component isn't serialised and read back".to_string()));
        return;
    };
    let tails = strings_count(HOSTILE.len(), 0, run.pick(2, 3)) as usize;
    let lens = [0, 60, 66, 70, 74, 75, 140];
    run.family("components built in place", product(&[tails, small.len(), lens.len()]), |i, case| {
        let mut d = Dec(i);
        let (tail, k) = concat_at(HOSTILE, 0, d.take(tails) as u64);
        let r = d.of(&small);
        let s = format!("{}{tail}", "f".repeat(*d.of(&lens)));
        case.steps(k + 1);
        case.validated();
        case.state(&(&r.spot.what, &s));
        let mut any = r.any.clone();
        let t = imp(|| {
            (r.spot.set)(&mut any, &s);
            any.ical()
        });
        let shape = match &t {
            Ok(Ok(t)) => model::well_formed(t).and_then(|()| model::tree(t)).and_then(|tree| if tree.tag == r.spot.kind.tag() { Ok(()) } else { Err(tree.tag) }),
            _ => Err("not serialised".to_string()),
        };
        if let Err(e) = shape {
            case.fail(|| format!("{} set to {s:?}: {e}\n{t:?}", r.spot.what));
        }
    });
}

/// The serialised form of a document is well formed and says what the component holds.
fn shape(case: &mut Case, kind: Kind, text: &str) {
    match library(kind, text) {
        Ok(Some((a, o))) => {
            case.validated();
            case.state(&o);
            match imp(|| a.ical()) {
                Ok(Ok(t)) => {
                    let r = model::well_formed(&t).and_then(|()| model::tree(&t));
                    match r {
                        Ok(tree) if tree.tag == kind.tag() => (),
                        r => case.fail(|| format!("{kind:?}: {r:?}\n{t:?}")),
                    }
                }
                r => case.fail(|| format!("{kind:?} isn't serialised: {r:?}\n{text:?}")),
            }
        }
        Ok(None) => case.unspecified(),
        Err(p) => case.fail(|| format!("parsing as {kind:?} {p}\n{text:?}")),
    }
}
