//! C19: the construction macros, which need a program of their own since whether an invocation
//! compiles is a part of the property.

#[allow(unused)]
mod r#gen;
#[allow(unused)]
mod hand;

use ikalmc::checks::values::m_trigger;
use ikalmc::checks::zones::wall_ok;
use ikalmc::cli::Info;
use ikalmc::engine::{Case, Dec, Run, imp};
use ikalmc::model::{self, Kind, Mult, Obs, R, Ty, Val};
use ikalmc::obs::Any;
use std::collections::BTreeMap;

/// An invocation of a macro; `f` gets a text for each of `fields`.
pub struct Call {
    pub kind: Kind,
    pub label: &'static str,
    pub fields: &'static [&'static str],
    pub f: fn(&[&str]) -> ikal::Result<Any>,
}

pub fn num<T: std::str::FromStr>(s: &str) -> T {
    s.parse().ok().expect("number")
}

/// The argument texts explored for a field; the first ones are the shortest sample.
fn texts(kind: Kind, field: &str) -> &'static [&'static str] {
    match field {
        "geo.lat" | "geo.lon" => return &["37.386013", "-122.08293", "0", "90"],
        "rstatus.statcode" => return &["2.0", "3.1", "0"],
        "rstatus.statdesc" => return &["Success", "a\\;b", ""],
        "rstatus.extdata" => return &["DTSTART:96-Apr-01", "x\\,y", ""],
        _ if field.contains('=') => return &[""],
        _ => (),
    }
    match ty_of(kind, field) {
        Ty::Dt => &[
            "20240229T101112", "19970714T133000Z", "x", "00010101T000000", "99991231T235959", "20240229", "20240230T101112", "20240310T023000",
            "20240310T023000Z", "20241103T013000Z", "20240229T246060", "20240229T101112Zx", "", " 20240229T101112", "2024-02-29T10:11:12",
        ],
        Ty::Date | Ty::DateList => &[
            "20240229", "19970714T133000Z", "20230229", "20240229T101112", "00010101", "99991231", "20240310T023000", "20241103T013000Z", "x", "",
            "2024-02-29", "20240229T", "20240229T101112ZZ", "20240229Z",
        ],
        Ty::Dur => &[
            "PT15M", "-P1W", "P1", "P1DT2H3M4S", "P0D", "+PT1S", "P15DT", "PT1H1S", "P7W", "x", "", "P1H", "PT1D", "P1DT-1H", "-PT0S", "P99999999999999999999D",
        ],
        Ty::U8 | Ty::Prio => &["5", "0", "255", "9", "1"],
        Ty::U32 => &["7", "0", "4294967295", "65536"],
        Ty::Text | Ty::TextList => &["a text", "é\\,b\\;c\\n\\\\", "", "VALUE", " x ", "a:b;c=\"d\""],
        Ty::Uri => &["mailto:a@example.com", "http://example.com/?a=b;c,d", "", "é"],
        Ty::Class => &["X-SECRET", "", "PUBLIC"],
        Ty::Geo => &["37.386013;-122.08293", "0;0", "1", "-90;180", "1;2;3", "a;b", "", ";", "90.5;-180.25"],
        Ty::RStat => &["2.0;Success", "3.1;Invalid;DTSTART:96", "2.8", "2.0;a\\;b;c", "x;y", "", "3.7;d;"],
        Ty::Recur => &[
            "FREQ=DAILY", "FREQ=WEEKLY;INTERVAL=2;BYDAY=MO,-1TU;WKST=SU", "FREQ=X", "FREQ=MONTHLY;COUNT=10", "FREQ=YEARLY;UNTIL=20240229", "COUNT=1",
            "FREQ=HOURLY;UNTIL=19970714T133000Z", "", "FREQ=DAILY;BYMONTH=13", "FREQ=SECONDLY;BYSETPOS=-1", "FREQ=DAILY;COUNT=x",
        ],
        Ty::Offset => &["+0100", "-0530", "0100", "+0000", "+2400", "+1400", "-1159", "", "+010", "x", "+01:00"],
        Ty::Trigger => &["-PT15M", "19970317T133000Z", "x", "20240229T101112", "P1W", "", "P1", "20240310T023000Z", "20240230T101112"],
        Ty::PeriodList => &[
            "19970308T160000/PT3H", "19970308T160000Z/19970308T170000Z", "19970308T160000", "19970308T160000/19970308T170000", "x/PT1H", "", "19970308T160000/x",
            "/", "19970308T160000Z/PT8H30M",
        ],
        Ty::Status | Ty::Transp => &[""],
        Ty::RDate => unreachable!(),
    }
}

fn prop(kind: Kind, field: &str) -> model::Prop {
    *kind.props().iter().find(|x| x.field == field).unwrap_or_else(|| panic!("{kind:?}.{field}"))
}

fn ty_of(kind: Kind, field: &str) -> Ty {
    prop(kind, field).ty
}

/// What a text means in a macro.
fn value(kind: Kind, field: &str, s: &str) -> R<Val> {
    let text = |s: &str| Val::Text(BTreeMap::new(), s.to_string());
    match ty_of(kind, field) {
        Ty::Dt => model::date_time(s),
        Ty::Date | Ty::DateList => model::date_or_dt(s),
        Ty::Dur => model::macro_duration(s),
        Ty::U8 | Ty::U32 | Ty::Prio => R::Ok(Val::Int(num(s))),
        Ty::Text | Ty::TextList => R::Ok(text(s)),
        Ty::Uri => R::Ok(Val::Uri(BTreeMap::new(), s.to_string())),
        Ty::Class => R::Ok(Val::Custom(s.to_string())),
        Ty::Geo => model::geo(s),
        Ty::RStat => model::rstatus(s),
        Ty::Recur => model::recur(s),
        Ty::Offset => match model::offset(s) {
            // chrono reads some more notations than the format has
            R::Bad if s.starts_with(['+', '-']) && s.len() > 4 => R::Unspec,
            x => x,
        },
        Ty::Trigger => m_trigger(s),
        Ty::PeriodList => model::period(s),
        Ty::Status | Ty::Transp | Ty::RDate => unreachable!(),
    }
}

pub fn default_of(kind: Kind) -> Any {
    match kind {
        Kind::Calendar => Any::Calendar(Default::default()),
        Kind::Event => Any::Event(Default::default()),
        Kind::Todo => Any::Todo(Default::default()),
        Kind::Journal => Any::Journal(Default::default()),
        Kind::Freebusy => Any::Freebusy(Default::default()),
        Kind::Timezone => Any::Timezone(Default::default()),
        Kind::Standard => Any::Standard(Default::default()),
        Kind::Daylight => Any::Daylight(Default::default()),
        Kind::Audio => Any::Alarm(ikal::VAlarm::Audio(Default::default())),
        Kind::Display => Any::Alarm(ikal::VAlarm::Display(Default::default())),
        Kind::Email => Any::Alarm(ikal::VAlarm::Email(Default::default())),
    }
}

/// The component an invocation stands for.
fn meaning(call: &Call, args: &[&str]) -> R<Obs> {
    let mut want = default_of(call.kind).obs();
    let mut open = false;
    let mut set: BTreeMap<&'static str, Vec<Val>> = BTreeMap::new();
    let mut stat: (u32, String, Option<String>) = (0, String::new(), None);
    let mut geo = (0f32, 0f32);
    for (f, a) in call.fields.iter().zip(args) {
        match *f {
            "geo.lat" => geo.0 = num(a),
            "geo.lon" => geo.1 = num(a),
            "rstatus.statcode" => stat.0 = num::<f32>(a).to_bits(),
            "rstatus.statdesc" => stat.1 = (*a).to_string(),
            "rstatus.extdata" => stat.2 = Some((*a).to_string()),
            f => {
                let v = if let Some((_, v)) = f.split_once('=') { R::Ok(Val::Key(v.to_string())) } else { value(call.kind, f, a) };
                let f = f.split_once('=').map_or(f, |x| x.0);
                match v {
                    R::Ok(v) => set.entry(prop(call.kind, f).field).or_default().push(v),
                    R::Bad => return R::Bad,
                    R::Unspec => open = true,
                }
            }
        }
    }
    if call.label.starts_with("geo object") {
        set.insert("geo", vec![Val::Geo(geo.0.to_bits(), geo.1.to_bits())]);
    }
    if call.label.starts_with("rstatus object") {
        set.insert("rstatus", vec![Val::RStat(stat.0, stat.1, stat.2)]);
    }
    if open {
        return R::Unspec;
    }
    for (f, v) in set {
        want.fields.insert(f, v);
    }
    if call.kind.is_alarm() {
        let action = match call.kind {
            Kind::Audio => "AUDIO",
            Kind::Display => "DISPLAY",
            _ => "EMAIL",
        };
        want.fields.insert("action", vec![Val::Text(BTreeMap::new(), action.into())]);
    }
    R::Ok(want)
}

/// A document of the same properties.
fn document(call: &Call, args: &[&str]) -> String {
    let tag = call.kind.tag();
    let mut out = format!("BEGIN:{tag}\r\n");
    if call.kind.is_alarm() && !call.fields.contains(&"action") {
        out += match call.kind {
            Kind::Audio => "ACTION:AUDIO\r\n",
            Kind::Display => "ACTION:DISPLAY\r\n",
            _ => "ACTION:EMAIL\r\n",
        };
    }
    for (f, a) in call.fields.iter().zip(args) {
        let (f, a) = f.split_once('=').unwrap_or((f, a));
        if f.contains('.') {
            continue;
        }
        let p = prop(call.kind, f);
        let a = if f == "action" {
            match call.kind {
                Kind::Audio => "AUDIO",
                Kind::Display => "DISPLAY",
                _ => "EMAIL",
            }
        } else {
            a
        };
        let param = match p.ty {
            Ty::Trigger if a.contains('P') => ";VALUE=DURATION",
            Ty::Trigger => ";VALUE=DATE-TIME",
            Ty::Date | Ty::DateList if a.len() == 8 => ";VALUE=DATE",
            _ => "",
        };
        out += &format!("{}{param}:{a}\r\n", p.name);
    }
    out + &format!("END:{tag}\r\n")
}

/// Whether `got` only differs from `want` in times given in UTC which were taken for local ones.
fn wall_clock(want: &Val, got: &Val) -> bool {
    match (want, got) {
        (a, b) if a == b => true,
        (Val::Utc(a, x), Val::Utc(b, y)) => x == y && wall_ok(*a, Some(*b)),
        (Val::Period(a, b), Val::Period(c, d)) => wall_clock(a, c) && wall_clock(b, d),
        (Val::Recur(a), Val::Recur(b)) => {
            let (mut a, mut b) = (a.clone(), b.clone());
            let ok = match (a.until.take(), b.until.take()) {
                (Some(x), Some(y)) => wall_clock(&x, &y),
                (x, y) => x == y,
            };
            ok && a == b
        }
        _ => false,
    }
}

fn wall_clock_obs(want: &Obs, got: &Obs) -> bool {
    let keys = |o: &Obs| o.fields.keys().copied().collect::<Vec<_>>();
    want.kind == got.kind
        && want.x == got.x
        && want.iana == got.iana
        && want.kids == got.kids
        && keys(want) == keys(got)
        && want.fields.iter().all(|(k, v)| v.len() == got.get(k).len() && v.iter().zip(got.get(k)).all(|(a, b)| wall_clock(a, b)))
}

fn missing_time(v: &Val) -> bool {
    match v {
        Val::Utc(t, _) => wall_ok(*t, None),
        Val::Period(a, b) => missing_time(a) || missing_time(b),
        Val::Recur(r) => r.until.as_ref().is_some_and(missing_time),
        _ => false,
    }
}

fn show(call: &Call, args: &[&str]) -> String {
    format!("{:?} {{ {} }} with {args:?}", call.kind, call.label)
}

fn judge(run: &Run, case: &mut Case, call: &Call, args: &[&str]) {
    case.steps(call.fields.len() as u64);
    let want = meaning(call, args);
    case.state(&(call.kind, &want));
    case.sample(|| format!("{} => {}", show(call, args), ikalmc::checks::brief(&want)));
    let utc = run.zone == "UTC";
    let got = imp(|| (call.f)(args).ok());
    match (want, got) {
        (R::Unspec, _) => case.unspecified(),
        (_, Err(p)) => case.fail(|| format!("{} {p}", show(call, args))),
        (R::Bad, Ok(None)) => case.validated(),
        (R::Bad, Ok(Some(a))) => case.fail(|| format!("{} gives {:?} instead of an error", show(call, args), a.obs())),
        (R::Ok(want), Ok(None)) => {
            if !utc && want.fields.values().flatten().any(missing_time) {
                case.known("wall-clock-parse", || format!("{} is an error in {}", show(call, args), run.zone));
            } else {
                case.fail(|| format!("{} gives an error", show(call, args)));
            }
        }
        (R::Ok(want), Ok(Some(a))) => {
            case.validated();
            let got = a.obs();
            if got != want {
                if !utc && wall_clock_obs(&want, &got) {
                    case.known("wall-clock-parse", || format!("{} in {}: {}", show(call, args), run.zone, ikalmc::checks::diff(&want, &got)));
                } else {
                    case.fail(|| format!("{}: {}", show(call, args), ikalmc::checks::diff(&want, &got)));
                }
                return;
            }
            // the same as reading the same properties
            let complete = call.kind.props().iter().all(|p| p.mult != Mult::Req || p.field == "action" || call.fields.contains(&p.field));
            if !complete || call.fields.iter().any(|x| x.contains('.')) {
                return;
            }
            let doc = document(call, args);
            if model::parse(call.kind, &doc) == R::Ok(want) {
                case.validated();
                match imp(|| Any::parse(call.kind, &doc).ok()) {
                    Ok(Some(b)) if a == b => (),
                    Ok(Some(b)) => case.fail(|| format!("{} isn't equal to {doc:?}: {a:?} and {b:?}", show(call, args))),
                    Ok(None) => case.fail(|| format!("{} builds what can't be read: {doc:?}", show(call, args))),
                    Err(p) => case.fail(|| format!("reading {doc:?} {p}")),
                }
            }
        }
    }
}

/// The calls with, for each, the number of argument vectors, laid out one after another.
fn all_products(run: &Run, name: &str, calls: &'static [Call], cap: usize) {
    let mut at = Vec::new();
    let mut n = 0u64;
    for c in calls {
        at.push(n);
        n += c.fields.iter().map(|f| texts(c.kind, f).len().min(cap) as u64).product::<u64>();
    }
    run.family(name, n, |i, case| {
        let k = at.partition_point(|x| *x <= i) - 1;
        let c = &calls[k];
        let mut d = Dec(i - at[k]);
        let args: Vec<&str> = c.fields.iter().map(|f| {
            let t = texts(c.kind, f);
            t[d.take(t.len().min(cap))]
        }).collect();
        judge(run, case, c, &args);
    });
}

/// All properties at once: every value of every field, the others at each of their first values.
fn one_at_a_time(run: &Run, name: &str, calls: &'static [Call], bases: usize) {
    let mut at = Vec::new();
    let mut n = 0u64;
    for c in calls {
        at.push(n);
        n += (c.fields.iter().map(|f| texts(c.kind, f).len() as u64).sum::<u64>() + 1) * bases as u64;
    }
    run.family(name, n, |i, case| {
        let k = at.partition_point(|x| *x <= i) - 1;
        let c = &calls[k];
        let mut d = Dec(i - at[k]);
        let base = d.take(bases);
        let mut args: Vec<&str> = c.fields.iter().enumerate().map(|(j, f)| {
            let t = texts(c.kind, f);
            // a good value of each
            let good: Vec<&&str> = t.iter().filter(|x| f.contains('=') || !matches!(value(c.kind, f, x), R::Bad)).collect();
            if f.contains('.') || f.contains('=') { t[0] } else { *good[(base * (j + 1)) % good.len()] }
        }).collect();
        let mut r = d.0 as usize;
        for (j, f) in c.fields.iter().enumerate() {
            let t = texts(c.kind, f);
            if r < t.len() {
                args[j] = t[r];
                break;
            }
            r -= t.len();
        }
        judge(run, case, c, &args);
    });
}

fn c19(run: &Run) {
    all_products(run, "one property", r#gen::ONE, usize::MAX);
    all_products(run, "two properties", r#gen::PAIRS, usize::MAX);
    all_products(run, "required properties and one more", r#gen::REQUIRED, run.pick(6, 12));
    one_at_a_time(run, "all properties", r#gen::ALL, run.pick(12, 40));
    hand::c19(run);
}

const C19: Info = Info {
    id: "C19",
    zones: &["UTC", "America/New_York"],
    more_zones: &["CET", "Asia/Kolkata", "Australia/Lord_Howe"],
    rule: "every macro x every property alone (each form of value), every pair of properties, the required ones with every other, all of them, all but one; x every text of the property's list (valid, invalid, extreme), in all combinations up to three properties; nested components, objects, shorthands and expressions",
    assumptions: &["a property's values are the listed texts", "RDATE and alarms as nested objects aren't supported by the macros"],
    run: c19,
};

fn main() {
    ikalmc::cli::main(&[C19], |_| 2);
}
