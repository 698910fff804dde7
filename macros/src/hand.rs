//! Nested components, objects, shorthands and expressions.

use ikalmc::engine::{Dec, Run, imp};
use ikalmc::obs::Any;
use std::cell::RefCell;

type Res = ikal::Result<Any>;

/// An invocation and what it stands for; `a` is a text and `n` a number from their lists.
struct Pair {
    label: &'static str,
    f: fn(&str, usize) -> (Res, Res),
}

macro_rules! pairs {
    ($( $label:literal $kind:ident |$a:ident, $n:ident| $got:expr => $want:expr; )*) => {
        &[ $( Pair { label: $label, f: |$a, $n| {
            #[allow(unused_variables)]
            let got = (|| Ok(Any::$kind($got)))();
            #[allow(unused_variables, clippy::needless_update)]
            let want = (|| Ok(Any::$kind($want)))();
            (got, want)
        } }, )* ]
    };
}

const DATES: [&str; 4] = ["20240229", "20240229T101112", "20230229", "00010101T000000"];
fn d(n: usize) -> &'static str {
    DATES[n % DATES.len()]
}

fn wd(n: usize) -> ikal::Weekday {
    [ikal::Weekday::Sunday, ikal::Weekday::Monday, ikal::Weekday::Saturday][n % 3].clone()
}

fn line(a: &str, n: usize) -> ikal::VEvent {
    format!("BEGIN:VEVENT\r\nUID:{n}\r\nDTSTAMP:20240101T000000\r\nDTSTART:20240101\r\nX-A:{a}\r\nY-A;P=q:{a}\r\nEND:VEVENT\r\n").parse().unwrap()
}

fn t(s: &str) -> ikal::Text {
    s.into()
}

const PAIRS: &[Pair] = pairs! {
    // recurrence rules as objects
    "rrule object freq" Event |a, n| ikal::vevent! { rrule: { freq: Weekly } }?
        => ikal::VEvent { rrule: Some(ikal::Recur { freq: ikal::Freq::Weekly, ..Default::default() }), ..Default::default() };
    "rrule object secondly" Todo |a, n| ikal::vtodo! { rrule: { freq: Secondly, interval: 2 } }?
        => ikal::VTodo { rrule: Some(ikal::Recur { freq: ikal::Freq::Secondly, interval: 2, ..Default::default() }), ..Default::default() };
    "rrule object minutely" Journal |a, n| ikal::vjournal! { rrule: { freq: Minutely, interval: 2, } }?
        => ikal::VJournal { rrule: Some(ikal::Recur { freq: ikal::Freq::Minutely, interval: 2, ..Default::default() }), ..Default::default() };
    "rrule object hourly" Timezone |a, n| ikal::vtimezone! { standard: [{ rrule: { freq: Hourly } }], }?
        => ikal::VTimezone { standard: vec![ikal::vtimezone::Standard { rrule: Some(ikal::Recur { freq: ikal::Freq::Hourly, ..Default::default() }), ..Default::default() }], ..Default::default() };
    "rrule object daily" Timezone |a, n| ikal::vtimezone! { daylight: [{ rrule: { freq: Daily } }], }?
        => ikal::VTimezone { daylight: vec![ikal::vtimezone::Daylight { rrule: Some(ikal::Recur { freq: ikal::Freq::Daily, ..Default::default() }), ..Default::default() }], ..Default::default() };
    "rrule object monthly" Event |a, n| ikal::vevent! { rrule: { interval: n as u8, freq: Monthly } }?
        => ikal::VEvent { rrule: Some(ikal::Recur { interval: n as u8, freq: ikal::Freq::Monthly, ..Default::default() }), ..Default::default() };
    "rrule object yearly" Event |a, n| ikal::vevent! { rrule: { freq: Yearly, count: n as u8 } }?
        => ikal::VEvent { rrule: Some(ikal::Recur { count: Some(n as u8), freq: ikal::Freq::Yearly, ..Default::default() }), ..Default::default() };
    "rrule object all" Event |a, n| ikal::vevent! { rrule: {
            freq: Daily,
            until: d(n).parse::<ikal::Date>()?,
            count: n as u8,
            interval: 255 - n as u8,
            by_second: [n as i8, 2],
            by_minute: [3],
            by_hour: [4, 5, 6],
            by_day: [ikal::WeekdayNum { weekday: wd(n), ord: Some(n as i8) }, ikal::WeekdayNum { weekday: wd(n + 1), ord: None }],
            by_monthday: [7],
            by_yearday: [-8],
            by_weekno: [9, -9],
            by_month: [],
            by_setpos: [-1],
            wkst: wd(n),
        } }?
        => ikal::VEvent { rrule: Some(ikal::Recur {
            freq: ikal::Freq::Daily,
            until: Some(d(n).parse()?),
            count: Some(n as u8),
            interval: 255 - n as u8,
            by_second: vec![n as i8, 2],
            by_minute: vec![3],
            by_hour: vec![4, 5, 6],
            by_day: vec![ikal::WeekdayNum { weekday: wd(n), ord: Some(n as i8) }, ikal::WeekdayNum { weekday: wd(n + 1), ord: None }],
            by_monthday: vec![7],
            by_yearday: vec![-8],
            by_weekno: vec![9, -9],
            by_month: vec![],
            by_setpos: vec![-1],
            wkst: Some(wd(n)),
        }), ..Default::default() };
    // the property which is read and written as RECURID
    "recurid event" Event |a, n| ikal::vevent! { recurid: d(n) }?
        => ikal::VEvent { recurid: Some(d(n).parse()?), ..Default::default() };
    "recurid todo" Todo |a, n| ikal::vtodo! { recurid: d(n) }?
        => ikal::VTodo { recurid: Some(d(n).parse()?), ..Default::default() };
    "recurid journal" Journal |a, n| ikal::vjournal! { recurid: d(n), }?
        => ikal::VJournal { recurid: Some(d(n).parse()?), ..Default::default() };
    "rdate none" Event |a, n| ikal::vevent! { rdate: [], uid: a }?
        => ikal::VEvent { uid: t(a), ..Default::default() };
    // nested components
    "events" Calendar |a, n| ikal::vcalendar! { prodid: a, events: [{ uid: a, dtstart: d(n), summary: a, description: a }, { uid: "2", status: Cancelled, class: Private, transp: Opaque }], version: "2.0" }?
        => ikal::VCalendar { prodid: t(a), version: t("2.0"), events: vec![
            ikal::VEvent { uid: t(a), dtstart: d(n).parse()?, summary: Some(t(a)), description: Some(t(a)), ..Default::default() },
            ikal::VEvent { uid: t("2"), status: Some(ikal::Status::Cancelled), class: Some(ikal::Class::Private), transp: Some(ikal::TimeTransparency::Opaque), ..Default::default() },
        ], ..Default::default() };
    "events nested object" Calendar |a, n| ikal::vcalendar! { events: [{ rrule: { freq: Monthly, until: d(n).parse::<ikal::Date>()? }, geo: { lat: 1.5, lon: n as f32 }, rstatus: [{ statcode: 2.0, statdesc: a, extdata: a }, { statcode: 3.5, statdesc: "x" }] }] }?
        => ikal::VCalendar { events: vec![ikal::VEvent {
            rrule: Some(ikal::Recur { freq: ikal::Freq::Monthly, until: Some(d(n).parse()?), ..Default::default() }),
            geo: Some(ikal::Geo { lat: 1.5, lon: n as f32 }),
            rstatus: vec![
                ikal::RequestStatus { statcode: 2.0, statdesc: a.to_string(), extdata: Some(a.to_string()) },
                ikal::RequestStatus { statcode: 3.5, statdesc: "x".to_string(), extdata: None },
            ],
            ..Default::default()
        }], ..Default::default() };
    "todo" Calendar |a, n| ikal::vcalendar! { todo: [{ uid: a, dtstart: d(n), due: d(n), location: a, organizer: a, priority: n as u8, sequence: n as u32, percent_complete: Some(n as u8), url: a }] }?
        => ikal::VCalendar { todo: vec![ikal::VTodo {
            uid: t(a), dtstart: Some(d(n).parse()?), due: Some(d(n).parse()?), location: Some(t(a)), organizer: Some(a.into()),
            priority: Some(n as u8), sequence: Some(n as u32), percent_complete: Some(n as u8), url: Some(a.into()), ..Default::default()
        }], ..Default::default() };
    "journals" Calendar |a, n| ikal::vcalendar! { journals: [{ uid: a, dtstart: d(n), description: [a, "b"], categories: [a] }] }?
        => ikal::VCalendar { journals: vec![ikal::VJournal {
            uid: t(a), dtstart: d(n).parse()?, description: vec![t(a), t("b")], categories: vec![t(a)], ..Default::default()
        }], ..Default::default() };
    "freebusy" Calendar |a, n| ikal::vcalendar! { freebusy: [{ uid: a, dtstart: d(n), contact: a, freebusy: ["20240101T000000/PT1H"] }, {}] }?
        => ikal::VCalendar { freebusy: vec![ikal::VFreebusy {
            uid: t(a), dtstart: Some(d(n).parse()?), contact: Some(t(a)), freebusy: vec!["20240101T000000/PT1H".parse()?], ..Default::default()
        }, ikal::VFreebusy::default()], ..Default::default() };
    "timezones" Calendar |a, n| ikal::vcalendar! { timezones: [{ tzid: a, tzurl: a, last_modified: "20240101T000000", standard: [{ dtstart: d(n), tzoffsetto: "+0100", tzoffsetfrom: "-0230", tzname: [a], comment: [a, a] }], daylight: [{ tzname: [] }, { dtstart: d(n) }] }] }?
        => ikal::VCalendar { timezones: vec![ikal::VTimezone {
            tzid: t(a), tzurl: Some(a.into()), last_modified: Some("20240101T000000".parse()?),
            standard: vec![ikal::vtimezone::Standard {
                dtstart: d(n).parse()?,
                tzoffsetto: chrono::FixedOffset::east_opt(3600).unwrap(),
                tzoffsetfrom: chrono::FixedOffset::west_opt(9000).unwrap(),
                tzname: vec![t(a)], comment: vec![t(a), t(a)], ..Default::default()
            }],
            daylight: vec![ikal::vtimezone::Daylight::default(), ikal::vtimezone::Daylight { dtstart: d(n).parse()?, ..Default::default() }],
            ..Default::default()
        }], ..Default::default() };
    "all kinds" Calendar |a, n| ikal::vcalendar! { timezones: [{ tzid: "1" }], todo: [{ uid: "2" }], journals: [{ uid: "3" }], freebusy: [{ uid: "4" }], events: [{ uid: "5" }], alarms: [], method: a, calscale: a }?
        => ikal::VCalendar {
            method: Some(t(a)), calscale: Some(t(a)),
            events: vec![ikal::VEvent { uid: t("5"), ..Default::default() }],
            freebusy: vec![ikal::VFreebusy { uid: t("4"), ..Default::default() }],
            journals: vec![ikal::VJournal { uid: t("3"), ..Default::default() }],
            todo: vec![ikal::VTodo { uid: t("2"), ..Default::default() }],
            timezones: vec![ikal::VTimezone { tzid: t("1"), ..Default::default() }],
            ..Default::default()
        };
    "alarms in a calendar" Calendar |a, n| ikal::vcalendar! { alarms: [ikal::valarm! { @audio, trigger: "-PT15M", attach: [a] }?, ikal::valarm! { @display, description: a, }?] }?
        => ikal::VCalendar { alarms: vec![
            ikal::VAlarm::Audio(ikal::valarm::Audio { action: t("AUDIO"), trigger: "-PT15M".parse()?, attach: vec![t(a)], ..Default::default() }),
            ikal::VAlarm::Display(ikal::valarm::Display { action: t("DISPLAY"), description: t(a), ..Default::default() }),
        ], ..Default::default() };
    "alarms in an event" Event |a, n| {
            let email = ikal::valarm! { @email, summary: a, description: "d", attendee: [a, "mailto:b"], repeat: n as u32, duration: "PT1H" }?;
            ikal::vevent! { uid: a, alarms: [email] }?
        }
        => ikal::VEvent { uid: t(a), alarms: vec![
            ikal::VAlarm::Email(ikal::valarm::Email {
                action: t("EMAIL"), summary: t(a), description: t("d"), attendee: vec![a.into(), "mailto:b".into()], repeat: Some(n as u32),
                duration: Some(chrono::TimeDelta::hours(1)), ..Default::default()
            }),
        ], ..Default::default() };
    "components as values" Calendar |a, n| {
            let first = ikal::vevent! { uid: a, dtstart: d(n) }?;
            let zone = ikal::vtimezone! { tzid: a }?;
            ikal::vcalendar! { events: [first, ikal::vevent! { uid: "2" }?], timezones: [zone], journals: [ikal::vjournal! { uid: a }?], todo: [ikal::vtodo! {}?], freebusy: [ikal::vfreebusy! { url: a }?] }?
        }
        => ikal::VCalendar {
            events: vec![ikal::VEvent { uid: t(a), dtstart: d(n).parse()?, ..Default::default() }, ikal::VEvent { uid: t("2"), ..Default::default() }],
            timezones: vec![ikal::VTimezone { tzid: t(a), ..Default::default() }],
            journals: vec![ikal::VJournal { uid: t(a), ..Default::default() }],
            todo: vec![ikal::VTodo::default()],
            freebusy: vec![ikal::VFreebusy { url: Some(a.into()), ..Default::default() }],
            ..Default::default()
        };
    "the list as a value" Calendar |a, n| {
            let events = vec![line(a, n); n % 3];
            let todo = Vec::new();
            ikal::vcalendar! { events, todo, prodid: a }?
        }
        => ikal::VCalendar { prodid: t(a), events: vec![line(a, n); n % 3], ..Default::default() };
    // shorthands
    "shorthand" Event |a, n| {
            let uid = t(a);
            let dtstart: ikal::Date = d(n).parse()?;
            let duration = Some(chrono::TimeDelta::seconds(n as i64));
            let class = Some(ikal::Class::Public);
            let comment = vec![t(a)];
            ikal::vevent! { uid, dtstart, duration, class, comment, }?
        }
        => ikal::VEvent { uid: t(a), dtstart: d(n).parse()?, duration: Some(chrono::TimeDelta::seconds(n as i64)), class: Some(ikal::Class::Public), comment: vec![t(a)], ..Default::default() };
    "shorthand between" Todo |a, n| {
            let due: Option<ikal::Date> = Some(d(n).parse()?);
            let geo = Some(ikal::Geo { lat: 1., lon: 2. });
            ikal::vtodo! { uid: a, due, summary: a, geo, status: NeedsAction }?
        }
        => ikal::VTodo { uid: t(a), due: Some(d(n).parse()?), summary: Some(t(a)), geo: Some(ikal::Geo { lat: 1., lon: 2. }), status: Some(ikal::Status::NeedsAction), ..Default::default() };
    "shorthand in a nested component" Calendar |a, n| {
            let x_prop = line(a, n).x_prop;
            let iana_prop = line(a, n).iana_prop;
            let uid = t(a);
            ikal::vcalendar! { events: [{ uid, x_prop, iana_prop, }] }?
        }
        => ikal::VCalendar { events: vec![ikal::VEvent { uid: t(a), x_prop: line(a, n).x_prop, iana_prop: line(a, n).iana_prop, ..Default::default() }], ..Default::default() };
    "x_prop" Journal |a, n| ikal::vjournal! { x_prop: line(a, n).x_prop, iana_prop: line(a, n).iana_prop }?
        => ikal::VJournal { x_prop: line(a, n).x_prop, iana_prop: line(a, n).iana_prop, ..Default::default() };
    // values with parameters
    "typed with parameters" Event |a, n| {
            let mut text = t(a);
            text.params.insert("LANGUAGE".into(), "fr".into());
            let mut uri = ikal::Uri::from(a);
            uri.params.insert("CN".into(), a.into());
            ikal::vevent! { summary: text.clone(), description: text.clone(), comment: [text.clone(), t("x")], attendee: [uri.clone()], organizer: uri }?
        }
        => {
            let mut text = t(a);
            text.params.insert("LANGUAGE".into(), "fr".into());
            let mut uri = ikal::Uri::from(a);
            uri.params.insert("CN".into(), a.into());
            ikal::VEvent { summary: Some(text.clone()), description: Some(text.clone()), comment: vec![text, t("x")], attendee: vec![uri.clone()], organizer: Some(uri), ..Default::default() }
        };
    // enumerations
    "enumeration with a value" Event |a, n| ikal::vevent! { class: Custom(a.into()) }?
        => ikal::VEvent { class: Some(ikal::Class::Custom(a.to_string())), ..Default::default() };
    // literals
    "literals" Event |a, n| ikal::vevent! { uid: "u", dtstamp: "20240101T000000", dtstart: "20240101", priority: 1, sequence: 0, summary: "", geo: "1;2", exdate: ["20240102", "20240103"], duration: "P15DT", rstatus: ["2.0;Success"], rrule: "FREQ=DAILY" }?
        => ikal::VEvent {
            uid: t("u"), dtstamp: "20240101T000000".parse()?, dtstart: "20240101".parse()?, priority: Some(1), sequence: Some(0), summary: Some(t("")), geo: Some(ikal::Geo { lat: 1., lon: 2. }),
            exdate: vec!["20240102".parse()?, "20240103".parse()?], duration: Some(chrono::TimeDelta::days(15)), rstatus: vec!["2.0;Success".parse()?],
            rrule: Some("FREQ=DAILY".parse()?), ..Default::default()
        };
    "expressions" Event |a, n| ikal::vevent! {
            uid: format!("{a}-{n}"),
            dtstamp: &format!("2024010{}T000000", n % 9 + 1),
            created: format!("2024010{}T000000", n % 9 + 1),
            dtstart: if n % 2 == 0 { "20240101" } else { "20240102" },
            summary: match n { 0 => "zero", _ => a },
            location: a.to_string() + "x",
            priority: (n as u8).wrapping_add(1),
            sequence: 1 + n as u32,
            categories: [a, concat!("a", "b"), &a[..0]],
            duration: (["PT1S", "P1D"][n % 2]),
            rrule: { freq: Daily, count: n as u8, interval: 255 - n as u8, by_month: [-1, !0] },
        }?
        => ikal::VEvent {
            uid: t(&format!("{a}-{n}")),
            dtstamp: format!("2024010{}T000000", n % 9 + 1).parse()?,
            created: Some(format!("2024010{}T000000", n % 9 + 1).parse()?),
            dtstart: if n % 2 == 0 { "20240101" } else { "20240102" }.parse()?,
            summary: Some(t(if n == 0 { "zero" } else { a })),
            location: Some(t(&format!("{a}x"))),
            priority: Some(n as u8 + 1),
            sequence: Some(1 + n as u32),
            categories: vec![t(a), t("ab"), t("")],
            duration: Some(if n % 2 == 0 { chrono::TimeDelta::seconds(1) } else { chrono::TimeDelta::days(1) }),
            rrule: Some(ikal::Recur { freq: ikal::Freq::Daily, count: Some(n as u8), interval: 255 - n as u8, by_month: vec![-1, -1], ..Default::default() }),
            ..Default::default()
        };
    "documentation" Calendar |a, n| ikal::vcalendar! {
            version: "2.0",
            prodid: "-//hacksw/handcal//NONSGML v1.0//EN",
            events: [
                {
                    uid: "19970610T172345Z-AF23B2@example.com",
                    dtstamp: "19970610T172345Z",
                    dtstart: "19970714T170000Z",
                    summary: "Bastille Day Party",
                    status: Confirmed,
                }
            ],
        }?
        => ikal::VCalendar {
            version: "2.0".into(),
            prodid: "-//hacksw/handcal//NONSGML v1.0//EN".into(),
            events: vec![
                ikal::VEvent {
                    uid: "19970610T172345Z-AF23B2@example.com".into(),
                    dtstamp: "19970610T172345Z".parse()?,
                    dtstart: "19970714T170000Z".parse()?,
                    summary: Some("Bastille Day Party".into()),
                    status: Some(ikal::Status::Confirmed),
                    ..Default::default()
                }
            ],
            ..Default::default()
        };
    // the same macro inside a function that returns something else
    "inside a closure" Event |a, n| {
            let f = |x: &str| -> usize { ikal::vevent! { dtstart: x }.is_ok() as usize };
            ikal::vevent! { sequence: f(d(n)) as u32 }?
        }
        => ikal::VEvent { sequence: Some(d(n).parse::<ikal::Date>().is_ok() as u32), ..Default::default() };
};

pub fn c19(run: &Run) {
    let texts = ["text", "", "é\\,b", "a;b:c=\"d\"", "20240101T000000", "X"];
    let ns: usize = run.pick(16, 128);
    run.family("nested components, objects, shorthands and expressions", (PAIRS.len() * texts.len() * ns) as u64, |i, case| {
        let mut d = Dec(i);
        let p = &PAIRS[d.take(PAIRS.len())];
        let a = *d.of(&texts);
        let n = d.take(ns);
        case.steps(2);
        case.state(&(p.label, a, n));
        case.sample(|| format!("{} {a:?} {n}", p.label));
        match imp(|| (p.f)(a, n)) {
            Ok((Ok(x), Ok(y))) => {
                case.validated();
                if x != y || x.obs() != y.obs() {
                    case.fail(|| format!("{} {a:?} {n}: {}\n{x:?}\ninstead of\n{y:?}", p.label, ikalmc::checks::diff(&y.obs(), &x.obs())));
                }
            }
            Ok((Err(_), Err(_))) => case.validated(),
            Ok((x, y)) => case.fail(|| format!("{} {a:?} {n}: {:?} instead of {:?}", p.label, x.map(|_| "a component"), y.map(|_| "a component"))),
            Err(e) => case.fail(|| format!("{} {a:?} {n}: {e}", p.label)),
        }
    });

    // each value is computed once
    run.family("value expressions are evaluated once", (texts.len() * ns) as u64, |i, case| {
        let mut dec = Dec(i);
        let a = *dec.of(&texts);
        let n = dec.take(ns);
        case.steps(8);
        case.state(&("once", a, n));
        let r = imp(|| {
            let log = RefCell::new(Vec::new());
            let say = |k: &'static str, v: &'static str| {
                log.borrow_mut().push(k);
                v
            };
            let r = ikal::vevent! {
                uid: say("uid", "u"), dtstamp: say("dtstamp", "20240101T000000"), dtstart: say("dtstart", "20240101"), summary: say("summary", ""),
                duration: say("duration", "PT1H"), exdate: [say("exdate 1", "20240101"), say("exdate 2", "20240102")], categories: [say("categories", "x")],
                rrule: { freq: Daily, interval: say("interval", "1").len() as u8 },
                rstatus: [{ statcode: 2.0, statdesc: say("statdesc", "s") }],
                geo: say("geo", "1;2"), url: say("url", "u"), priority: n as u8 + say("priority", "").len() as u8,
            };
            let mut l = log.into_inner();
            l.sort_unstable();
            (r.is_ok(), l)
        });
        case.validated();
        let mut want = vec!["uid", "dtstamp", "dtstart", "summary", "duration", "exdate 1", "exdate 2", "categories", "interval", "statdesc", "geo", "url", "priority"];
        want.sort_unstable();
        if r != Ok((true, want)) {
            case.fail(|| format!("values evaluated: {r:?}"));
        }
    });

    // the items of a list are computed in the order they are written in
    run.family("items of lists are computed in order", 6 * 2, |i, case| {
        let (len, parsed) = (i / 2, i % 2 == 1);
        case.steps(len);
        case.state(&("order", i));
        case.validated();
        let r = imp(|| {
            let n = std::cell::Cell::new(0);
            let next = || {
                n.set(n.get() + 1);
                format!("2024010{}", n.get())
            };
            let e = match (len, parsed) {
                (0, false) => ikal::vevent! { comment: [] },
                (1, false) => ikal::vevent! { comment: [next()] },
                (2, false) => ikal::vevent! { comment: [next(), next()] },
                (3, false) => ikal::vevent! { comment: [next(), next(), next()] },
                (4, false) => ikal::vevent! { comment: [next(), next(), next(), next()] },
                (5, false) => ikal::vevent! { comment: [next(), next(), next(), next(), next()] },
                (0, true) => ikal::vevent! { exdate: [] },
                (1, true) => ikal::vevent! { exdate: [next()] },
                (2, true) => ikal::vevent! { exdate: [next(), next()] },
                (3, true) => ikal::vevent! { exdate: [next(), next(), next()] },
                (4, true) => ikal::vevent! { exdate: [next(), next(), next(), next()] },
                _ => ikal::vevent! { exdate: [next(), next(), next(), next(), next()] },
            }
            .ok()?;
            Some(e.comment.iter().map(|x| x.to_string()).chain(e.exdate.iter().map(|x| x.to_string())).collect::<Vec<_>>())
        });
        let want: Vec<String> = (1..=len).map(|n| format!("2024010{n}")).collect();
        if r != Ok(Some(want)) {
            case.fail(|| format!("{len} items: {r:?}"));
        }
        // components and objects
        let r = imp(|| {
            let n = std::cell::Cell::new(0);
            let next = || {
                n.set(n.get() + 1);
                n.get()
            };
            let c = match len {
                0 => ikal::vcalendar! { events: [] },
                1 => ikal::vcalendar! { events: [{ sequence: next() }] },
                2 => ikal::vcalendar! { events: [{ sequence: next() }, { sequence: next() }] },
                3 => ikal::vcalendar! { events: [{ sequence: next() }, { sequence: next() }, { sequence: next() }] },
                4 => ikal::vcalendar! { events: [{ sequence: next() }, { sequence: next() }, { sequence: next() }, { sequence: next() }] },
                _ => ikal::vcalendar! { events: [{ sequence: next() }, { sequence: next() }, { sequence: next() }, { sequence: next() }, { sequence: next() }] },
            }
            .ok()?;
            Some(c.events.iter().filter_map(|x| x.sequence).collect::<Vec<u32>>())
        });
        if r != Ok(Some((1..=len as u32).collect())) {
            case.fail(|| format!("{len} components: {r:?}"));
        }
    });

    // an invalid value anywhere is an error of the outermost macro
    run.family("errors of nested values", 64, |i, case| {
        let bad = |k: u64| i & (1 << k) != 0;
        let pick = |k: u64, good: &'static str| if bad(k) { "x" } else { good };
        case.steps(6);
        case.state(&("errors", i));
        case.validated();
        let r = imp(|| {
            ikal::vcalendar! {
                events: [{ dtstart: "20240101" }, { dtstart: pick(0, "20240101"), exdate: ["20240101", pick(1, "20240102")] }],
                timezones: [{ standard: [{ tzoffsetto: pick(2, "+0100") }], daylight: [{ dtstart: pick(3, "20240101") }] }],
                freebusy: [{ freebusy: [pick(4, "20240101T000000/PT1H")] }],
                alarms: [ikal::valarm! { @audio, trigger: pick(5, "PT1H") }?],
            }.is_ok()
        });
        if r != Ok(i == 0) {
            case.fail(|| format!("error {i:06b}: {r:?}"));
        }
    });
}
