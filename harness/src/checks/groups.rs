//! C20: sets of operations that are told apart by one detail only, which a memory with too coarse a key
//! would mix up.

use super::history::{Op, event, expand_op, parse_op, window_op};
use super::values::ENTRIES;
use crate::docs;
use crate::engine::imp;
use crate::model::{KINDS, Kind};

type F = Box<dyn Fn() -> String + Send + Sync>;
type Named = (String, F);

fn parse(k: Kind, t: String) -> Named {
    (format!("{k:?} {t:?}"), Box::new(move || parse_op(k, &t)))
}

fn expand(k: Kind, t: String) -> Named {
    (format!("expand {t:?}"), Box::new(move || expand_op(k, &t)))
}

fn lines<S: AsRef<str>>(ls: &[S]) -> Vec<Named> {
    ls.iter().map(|l| parse(Kind::Event, event(&[l.as_ref()]))).collect()
}

fn value(e: usize, vs: &'static [&'static str]) -> Vec<Named> {
    vs.iter()
        .map(|v| -> Named { (format!("{} {v}", ENTRIES[e].name), Box::new(move || format!("{:?}", (ENTRIES[e].parse)(v)))) })
        .collect()
}

const DATES: [&str; 24] = [
    "20240131T100000Z",
    "20240131T100000",
    "20240131",
    "20240131T100001Z",
    "20240130T100000Z",
    "20240731T100000Z",
    "20230131T100000Z",
    "20240331T005959Z",
    "20240331T010000Z",
    "20240331T015959Z",
    "20240331T020000",
    "20240331T030000",
    "20241027T005959Z",
    "20241027T010000Z",
    "20241027T020000",
    "20240310T065959Z",
    "20240310T070000Z",
    "20240310T020000",
    "20240406T140000Z",
    "20240406T133000Z",
    "20240229",
    "20230229",
    "2024",
    "21241031T100000Z",
];

pub fn groups() -> Vec<(String, Vec<Op>)> {
    let mut out: Vec<(String, Vec<Op>)> = Vec::new();
    let mut put = |name: &str, fs: Vec<Named>| {
        let ops = fs
            .into_iter()
            .map(|(name, f)| Op { name, run: Box::new(move || imp(&f).unwrap_or_else(|e| e)) })
            .collect();
        out.push((name.to_string(), ops));
    };

    put(
        "parameter names",
        lines(
            &["LANGUAGE", "Language", "language", "LANG", "LANGUAGE2", "LANGUAGF", "EGAUGNAL", "X-LANGUAGE", "L"]
                .map(|p| format!("SUMMARY;{p}=fr:s")),
        ),
    );
    put(
        "parameter values",
        lines(
            &["fr", "FR", "\"fr\"", "\" fr\"", "fr ", "", "fr-CA", "rf", "\"f,r\"", "fr;A=fr"]
                .map(|p| format!("SUMMARY;LANGUAGE={p}:s")),
        ),
    );
    put(
        "parameters",
        lines(&[
            "DESCRIPTION:s",
            "DESCRIPTION;A=1:s",
            "DESCRIPTION;A=1;B=2:s",
            "DESCRIPTION;B=2;A=1:s",
            "DESCRIPTION;A=2;B=1:s",
            "DESCRIPTION;B=1:s",
            "DESCRIPTION;A=1;A=2:s",
            "COMMENT;A=1;B=2:s",
        ]),
    );
    put(
        "names",
        lines(&[
            "X-A:1", "X-a:1", "x-A:1", "X-AB:1", "X-:1", "A:1", "a:1", "XA:1", "X-A;X-A=1:1", "SUMMARY:1", "Summary:1",
            "COMMENT:1", "CONTACT:1",
        ]),
    );
    let long = "0123456789abcdef".repeat(20);
    let mut texts: Vec<String> = [
        "s", "S", " s", "s ", "", "\\n", "\\N", "n", "\\,", ",", "\\;", "st", "ts", "\u{e9}", "e\u{301}", "s\r\n t",
        "\u{df}", "ss", "a\u{0}", "\\\\", "\\\\n",
    ]
    .map(|x| format!("SUMMARY:{x}"))
    .to_vec();
    for (at, c) in [
        (0, "#"),
        (8, "#"),
        (16, "#"),
        (32, "#"),
        (64, "#"),
        (128, "#"),
        (255, "#"),
        (256, "#"),
        (319, "#"),
        (319, ""),
        (0, ""),
    ] {
        let mut t = long.clone();
        t.replace_range(at..=at, c);
        texts.push(format!("SUMMARY:{t}"));
    }
    texts.push(format!("SUMMARY:{long}"));
    put("texts", lines(&texts));
    put(
        "one text in all the places",
        lines(
            &[
                "SUMMARY", "DESCRIPTION", "LOCATION", "COMMENT", "CATEGORIES", "RESOURCES", "CONTACT", "CLASS", "URL",
                "ATTACH", "ORGANIZER", "ATTENDEE", "RELATED-TO", "X-S", "S",
            ]
            .map(|x| format!("{x}:s")),
        ),
    );
    put(
        "lists",
        lines(&[
            "CATEGORIES:a,b",
            "CATEGORIES:b,a",
            "CATEGORIES:a",
            "CATEGORIES:a,a",
            "CATEGORIES:a\\,b",
            "CATEGORIES:ab",
            "CATEGORIES:A,B",
            "CATEGORIES:,",
            "RESOURCES:a,b",
            "CATEGORIES;LANGUAGE=fr:a,b",
            "CATEGORIES:a\r\nCATEGORIES:b",
            "COMMENT:a\r\nCOMMENT:b",
            "COMMENT:b\r\nCOMMENT:a",
            "COMMENT:a",
        ]),
    );
    put(
        "one UID",
        [
            event(&["SUMMARY:a"]),
            event(&["SUMMARY:b"]),
            event(&["SEQUENCE:1", "SUMMARY:a"]),
            event(&["SEQUENCE:2", "SUMMARY:b"]),
            event(&["SEQUENCE:0"]),
            event(&["STATUS:CANCELLED"]),
            event(&["RECURRENCE-ID:20240201T100000Z", "SUMMARY:c"]),
            event(&["LAST-MODIFIED:20240101T000000Z"]),
            event(&["DTSTART:20240131T100000"]),
            event(&["DTSTART:20240131"]),
            event(&["SUMMARY:a"]).replace("DTSTAMP:2024", "DTSTAMP:2023"),
            event(&["SUMMARY:x"]).replace("UID:1", "UID:2"),
            event(&["SUMMARY:x"]).replace("UID:1", "UID;A=1:1"),
        ]
        .into_iter()
        .map(|t| parse(Kind::Event, t))
        .collect(),
    );
    put(
        "one body in every kind",
        KINDS
            .iter()
            .map(|k| {
                let mut b: Vec<String> = Vec::new();
                for x in KINDS {
                    for l in docs::base(x) {
                        if !l.starts_with("ACTION") && !b.iter().any(|y| y.split(':').next() == l.split(':').next()) {
                            b.push(l);
                        }
                    }
                }
                for l in docs::base(*k) {
                    if l.starts_with("ACTION") {
                        b.insert(0, l);
                    }
                }
                parse(*k, docs::doc(*k, &b, ""))
            })
            .collect(),
    );
    let e = event(&["SUMMARY:long enough to be folded", "DTEND:20240201T000000Z"]);
    put(
        "one event written in several ways",
        vec![
            parse(Kind::Event, e.clone()),
            parse(Kind::Event, e.replace("enough", "en\r\n ough")),
            parse(Kind::Event, e.replace("enough", "en\r\n\though")),
            parse(Kind::Event, e.replace("enough", "en\r\n  ough")),
            parse(Kind::Event, e.replace("enough", "en ough")),
            parse(Kind::Event, e.replace("\r\n", "\n")),
            parse(Kind::Event, e.to_lowercase()),
            parse(Kind::Event, format!("{e}{e}")),
            parse(Kind::Event, e[..e.len() - 2].to_string()),
            parse(Kind::Event, format!(" {e}")),
            parse(Kind::Calendar, docs::in_calendar(&e)),
            parse(Kind::Calendar, docs::in_calendar(&format!("{e}{e}"))),
            parse(Kind::Calendar, e.clone()),
        ],
    );

    // values: what decides is a small part of the text
    put(
        "dates",
        DATES
            .iter()
            .map(|d| -> Named {
                (
                    format!("Date {d}"),
                    Box::new(move || {
                        format!(
                            "{:?} {:?}",
                            (ENTRIES[0].parse)(d),
                            d.parse::<ikal::Date>().map(|x| (x.to_string(), x.date_naive())).ok()
                        )
                    }),
                )
            })
            .collect(),
    );
    put(
        "times",
        DATES
            .iter()
            .map(|d| -> Named {
                (
                    format!("DateTime {d}"),
                    Box::new(move || {
                        format!("{:?} {:?}", (ENTRIES[1].parse)(d), d.parse::<ikal::DateTime>().map(|x| x.to_string()).ok())
                    }),
                )
            })
            .collect(),
    );
    put("starts", DATES.iter().map(|d| parse(Kind::Event, event(&[&format!("DTSTART:{d}")]))).collect());
    put(
        "dates with parameters",
        lines(&[
            "DTEND:20240331T020000",
            "DTEND;TZID=Europe/Paris:20240331T020000",
            "DTEND;TZID=America/New_York:20240331T020000",
            "DTEND;VALUE=DATE:20240331",
            "DTEND;VALUE=DATE-TIME:20240331T020000",
            "DTEND:20240331",
            "EXDATE:20240331,20240330",
            "EXDATE:20240330,20240331",
            "EXDATE:20240331",
            "RDATE:20240331,20240330",
            "RDATE:20240331T020000",
            "RDATE;VALUE=PERIOD:20240331T020000Z/PT1H",
            "RDATE;VALUE=DATE:20240331",
            "RECURRENCE-ID:20240331",
            "CREATED:20240331T020000Z",
        ]),
    );
    put(
        "durations",
        value(
            2,
            &[
                "P1D", "-P1D", "+P1D", "PT24H", "P1W", "P1DT1H", "PT1H", "1h", "1d", "1m", "-1h", "PT1M", "P1DT1M",
                "P10D", "P01D", "P1", "",
            ],
        ),
    );
    put(
        "triggers",
        value(
            3,
            &[
                "P1D", "-P1D", "PT24H", "PT1H", "20240131T100000Z", "20240131T100000", "20240731T100000Z", "-PT15M",
                "PT15M", "20240131",
            ],
        ),
    );
    put(
        "periods",
        value(
            4,
            &[
                "20240131T100000Z/PT1H",
                "20240131T100000/PT1H",
                "20240131T100000Z/PT2H",
                "20240131T100000Z/20240131T110000Z",
                "20240131T100000Z/20240131T120000Z",
                "20240131T090000Z/20240131T110000Z",
                "20240731T100000Z/PT1H",
                "20240131T100000Z/",
                "20240131T100000Z",
                "20240131T100000Z/-PT1H",
                "20240331T003000Z/PT1H",
                "20241027T003000Z/PT1H",
            ],
        ),
    );
    put(
        "rules",
        value(
            5,
            &[
                "FREQ=DAILY",
                "FREQ=DAILY;COUNT=2",
                "FREQ=DAILY;COUNT=3",
                "FREQ=DAILY;INTERVAL=2",
                "FREQ=DAILY;INTERVAL=3",
                "COUNT=2;FREQ=DAILY",
                "FREQ=WEEKLY",
                "FREQ=WEEKLY;COUNT=2",
                "FREQ=DAILY;UNTIL=20240131T100000Z",
                "FREQ=DAILY;UNTIL=20240731T100000Z",
                "FREQ=DAILY;UNTIL=20240131",
                "FREQ=DAILY;UNTIL=20240131T100000",
                "FREQ=DAILY;BYDAY=MO",
                "FREQ=DAILY;BYDAY=MO,TU",
                "FREQ=DAILY;BYDAY=TU,MO",
                "FREQ=DAILY;BYDAY=1MO",
                "FREQ=DAILY;BYDAY=-1MO",
                "FREQ=DAILY;BYMONTH=1",
                "FREQ=DAILY;BYHOUR=1",
                "FREQ=DAILY;BYMINUTE=1",
                "FREQ=DAILY;BYMONTHDAY=1",
                "FREQ=DAILY;BYMONTHDAY=-1",
                "FREQ=DAILY;WKST=MO",
                "FREQ=DAILY;WKST=SU",
                "FREQ=DAILY;COUNT=x",
                "FREQ=DAILY;COUNT=",
                "FREQ=daily",
                "FREQ=DAILYX",
            ],
        ),
    );
    put(
        "answers",
        value(6, &["2.0;a", "2.0;b", "2.0;a;b", "2.0;a;", "2.1;a", "3.0;a", "2.0;a\\;b", "2.0", "2.00;a", "20;a"]),
    );
    put("positions", value(7, &["1;2", "2;1", "-1;2", "1;-2", "1.0;2", "1.5;2", "1;2.5", "1,2", "12;", "1"]));
    put(
        "classes",
        value(8, &["PUBLIC", "public", "PRIVATE", "X-A", "x-a", "X-B", "", "CONFIDENTIAL", "Public"]),
    );
    put(
        "states",
        value(
            9,
            &[
                "DRAFT", "FINAL", "COMPLETED", "CONFIRMED", "CANCELLED", "TENTATIVE", "NEEDS-ACTION", "IN-PROCESS",
                "draft", "",
            ],
        ),
    );
    put("numbered days", value(13, &["MO", "1MO", "-1MO", "+1MO", "11MO", "1TU", "TU", "2", "MO1"]));
    put(
        "numbers",
        lines(&[
            "SEQUENCE:0",
            "SEQUENCE:1",
            "SEQUENCE:01",
            "SEQUENCE:10",
            "SEQUENCE:x",
            "SEQUENCE:4294967295",
            "SEQUENCE:4294967296",
            "PRIORITY:0",
            "PRIORITY:1",
            "PRIORITY:9",
            "PRIORITY:10",
            "TRANSP:OPAQUE",
            "TRANSP:TRANSPARENT",
            "STATUS:TENTATIVE",
            "STATUS:CONFIRMED",
            "STATUS:X",
            "GEO:1;2",
            "GEO:2;1",
            "DURATION:PT1H",
            "DURATION:-PT1H",
            "DURATION:P1D",
            "REQUEST-STATUS:2.0;a",
            "REQUEST-STATUS:2.0;b",
        ]),
    );
    put(
        "offsets",
        [
            "+0100/-0100", "-0100/+0100", "+0100/+0100", "+0130/+0100", "+0000/-0000", "-0030/+0030", "+1000/+0100",
            "+0100/+0200", "x/+0100",
        ]
        .iter()
        .map(|x| {
            let (a, b) = x.split_once('/').unwrap();
            let lines =
                ["DTSTART:20240101T000000".to_string(), format!("TZOFFSETFROM:{a}"), format!("TZOFFSETTO:{b}")];
            let part = docs::doc(Kind::Standard, &lines, "");
            parse(Kind::Timezone, docs::doc(Kind::Timezone, &["TZID:a".to_string()], &part))
        })
        .collect(),
    );
    let zone = |id: &str, kids: &[(Kind, &str)]| {
        let kids: String = kids
            .iter()
            .map(|(k, d)| {
                let lines = [format!("DTSTART:{d}T000000"), "TZOFFSETFROM:+0100".into(), "TZOFFSETTO:+0200".into()];
                docs::doc(*k, &lines, "")
            })
            .collect();
        docs::doc(Kind::Timezone, &[format!("TZID:{id}")], &kids)
    };
    let (s, d) = (Kind::Standard, Kind::Daylight);
    put(
        "zones of one name",
        vec![
            parse(Kind::Timezone, zone("a", &[(s, "20240101")])),
            parse(Kind::Timezone, zone("a", &[(d, "20240101")])),
            parse(Kind::Timezone, zone("a", &[(s, "20240102")])),
            parse(Kind::Timezone, zone("a", &[(s, "20240101"), (s, "20240102")])),
            parse(Kind::Timezone, zone("a", &[(s, "20240102"), (s, "20240101")])),
            parse(Kind::Timezone, zone("b", &[(s, "20240101")])),
            parse(Kind::Timezone, zone("A", &[(s, "20240101")])),
            parse(Kind::Timezone, zone("", &[(s, "20240101")])),
            parse(
                Kind::Calendar,
                docs::in_calendar(&(zone("a", &[(s, "20240101")]) + &event(&["DTSTART;TZID=a:20240131T100000"]))),
            ),
            parse(
                Kind::Calendar,
                docs::in_calendar(&(zone("a", &[(d, "20240101")]) + &event(&["DTSTART;TZID=a:20240131T100000"]))),
            ),
            parse(Kind::Event, event(&["DTSTART;TZID=a:20240131T100000"])),
            parse(Kind::Event, event(&["DTSTART:20240131T100000"])),
        ],
    );
    let alarm = |ls: &[&str]| docs::doc(Kind::Display, &ls.iter().map(|x| (*x).to_string()).collect::<Vec<_>>(), "");
    put(
        "alarms",
        vec![
            parse(Kind::Audio, alarm(&["ACTION:AUDIO", "TRIGGER:-PT15M"])),
            parse(Kind::Audio, alarm(&["ACTION:AUDIO", "TRIGGER:PT15M"])),
            parse(Kind::Audio, alarm(&["ACTION:AUDIO", "TRIGGER;RELATED=END:PT15M"])),
            parse(Kind::Display, alarm(&["ACTION:DISPLAY", "TRIGGER:-PT15M", "DESCRIPTION:a"])),
            parse(Kind::Display, alarm(&["ACTION:DISPLAY", "TRIGGER:-PT15M", "DESCRIPTION:b"])),
            parse(Kind::Email, alarm(&["ACTION:EMAIL", "TRIGGER:-PT15M", "DESCRIPTION:a", "SUMMARY:a"])),
            parse(Kind::Display, alarm(&["ACTION:X", "TRIGGER:-PT15M"])),
            parse(Kind::Display, alarm(&["TRIGGER:-PT15M", "DESCRIPTION:a", "ACTION:DISPLAY"])),
            parse(
                Kind::Event,
                docs::doc(Kind::Event, &docs::base(Kind::Event), &alarm(&["ACTION:AUDIO", "TRIGGER:-PT15M"])),
            ),
            parse(
                Kind::Event,
                docs::doc(
                    Kind::Event,
                    &docs::base(Kind::Event),
                    &alarm(&["ACTION:DISPLAY", "TRIGGER:-PT15M", "DESCRIPTION:a"]),
                ),
            ),
        ],
    );

    // expansions
    let rules = [
        "FREQ=DAILY;COUNT=3",
        "FREQ=DAILY;COUNT=2",
        "FREQ=DAILY",
        "FREQ=DAILY;INTERVAL=2",
        "FREQ=WEEKLY",
        "FREQ=MONTHLY",
        "FREQ=MONTHLY;INTERVAL=3",
        "FREQ=YEARLY",
        "FREQ=HOURLY",
        "FREQ=MINUTELY",
        "FREQ=SECONDLY",
        "FREQ=DAILY;UNTIL=20240202",
        "FREQ=DAILY;UNTIL=20240202T100000Z",
        "FREQ=DAILY;UNTIL=20240201T095959Z",
        "FREQ=DAILY;COUNT=0",
    ];
    put(
        "rules of one event",
        rules.iter().map(|r| expand(Kind::Event, event(&[&format!("RRULE:{r}")]))).collect(),
    );
    put(
        "starts of one rule",
        DATES[..20]
            .iter()
            .map(|d| expand(Kind::Event, event(&[&format!("DTSTART:{d}"), "RRULE:FREQ=DAILY;COUNT=3"])))
            .collect(),
    );
    put(
        "starts of a monthly rule",
        [
            "20240131T100000Z",
            "20240130T100000Z",
            "20240129T100000Z",
            "20230131T100000Z",
            "20231231T100000Z",
            "20240131T100000",
            "20240131",
            "20240831T100000Z",
            "20240328T003000Z",
        ]
        .iter()
        .map(|d| expand(Kind::Event, event(&[&format!("DTSTART:{d}"), "RRULE:FREQ=MONTHLY;COUNT=4"])))
        .collect(),
    );
    put(
        "exclusions of one event",
        [
            "X-A:1",
            "EXDATE:20240201T100000Z",
            "EXDATE:20240201T100000",
            "EXDATE:20240201",
            "EXDATE:20240202T100000Z",
            "EXDATE:20240131T100000Z",
            "EXDATE:20240201T100000Z,20240202T100000Z",
            "EXDATE:20240202T100000Z,20240201T100000Z",
            "EXDATE:20250201T100000Z",
        ]
        .iter()
        .map(|l| expand(Kind::Event, event(&["RRULE:FREQ=DAILY;COUNT=5", l])))
        .collect(),
    );
    put(
        "ends of one event",
        [
            "X-A:1",
            "DTEND:20240131T110000Z",
            "DTEND:20240131T120000Z",
            "DTEND:20240201T100000Z",
            "DURATION:PT1H",
            "DURATION:PT2H",
            "DTEND:20240131T110000",
            "DTEND:20240131",
        ]
        .iter()
        .map(|l| expand(Kind::Event, event(&["RRULE:FREQ=DAILY;COUNT=5", l])))
        .collect(),
    );
    put(
        "kinds that recur",
        ["UID:1", "UID:2"]
            .iter()
            .flat_map(|u| {
                let v =
                    [*u, "DTSTAMP:20240101T000000Z", "DTSTART:20240131T100000Z", "RRULE:FREQ=MONTHLY;COUNT=3"].map(String::from);
                let mut w = v.to_vec();
                w.push("DUE:20240201T100000Z".into());
                let mut x = v.to_vec();
                x.remove(2);
                let mut f = v.to_vec();
                f[3] = "RRULE:FREQ=WEEKLY;COUNT=3".into();
                vec![
                    expand(Kind::Event, docs::doc(Kind::Event, &v, "")),
                    expand(Kind::Todo, docs::doc(Kind::Todo, &v, "")),
                    expand(Kind::Journal, docs::doc(Kind::Journal, &v, "")),
                    expand(Kind::Todo, docs::doc(Kind::Todo, &w, "")),
                    expand(Kind::Todo, docs::doc(Kind::Todo, &x, "")),
                    expand(Kind::Journal, docs::doc(Kind::Journal, &f, "")),
                ]
            })
            .collect(),
    );
    let mut windows: Vec<Named> = Vec::new();
    for r in ["FREQ=DAILY;COUNT=9", "FREQ=DAILY;INTERVAL=2"] {
        for (a, b) in [
            ("20240202", "20240205"),
            ("20240202", "20240206"),
            ("20240203", "20240205"),
            ("20240202T100000Z", "20240205"),
            ("20240202T100000", "20240205"),
            ("20240202T100001Z", "20240205"),
            ("20240205", "20240202"),
        ] {
            let t = event(&[&format!("RRULE:{r}")]);
            windows.push((format!("{a} to {b} of {r}"), Box::new(move || window_op(&t, a, b))));
        }
    }
    put("windows", windows);
    // sums of rules: every frequency and interval on every type
    let rules: Vec<ikal::Recur> = (0..7)
        .flat_map(|f| [1u8, 2, 12].map(|interval| ikal::Recur { freq: super::zones::freq(f), interval, ..Default::default() }))
        .collect();
    for ty in 0..5usize {
        let mut sums: Vec<Named> = Vec::new();
        for at in ["20240115T100000", "20240131T013000"] {
            for r in &rules {
                let r = r.clone();
                let day = ["day", "floating", "local", "plain", "plain day"][ty];
                sums.push((
                    format!("{:?} every {} from {at}, {day}", r.freq, r.interval),
                    Box::new(move || {
                        let n = chrono::NaiveDateTime::parse_from_str(at, "%Y%m%dT%H%M%S").unwrap();
                        let r = r.clone();
                        match ty {
                            0 => format!("{:?}", r + ikal::Date::Date(n.date())),
                            1 => format!("{:?}", r + ikal::DateTime::Naive(n)),
                            2 => {
                                use chrono::TimeZone as _;
                                format!("{:?}", r + ikal::DateTime::Local(chrono::Local.from_utc_datetime(&n)))
                            }
                            3 => format!("{:?}", r + n),
                            _ => format!("{:?}", r + n.date()),
                        }
                    }),
                ));
            }
        }
        put("sums of rules", sums);
    }
    // expansions by every frequency and interval from the same start
    let mut by_rule: Vec<Named> = Vec::new();
    for f in ["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"] {
        for i in [1, 2, 12] {
            by_rule.push(expand(Kind::Event, event(&[&format!("RRULE:FREQ={f};INTERVAL={i}")])));
            by_rule.push(expand(Kind::Event, event(&["DTSTART:20240115", &format!("RRULE:FREQ={f};INTERVAL={i}")])));
        }
    }
    put("expansions by every rule", by_rule);
    // marks a text may leave: line ends, blanks, quotes and other oddities, in valid and refused documents
    let mut quirks: Vec<Named> = Vec::new();
    for q in ["\t", " ", "\n", "\r", "\r\n ", "\r\n\t", "\u{feff}", "\u{a0}", "\u{2028}", "\"", "\\", "\\n", "\\,", ",", ";", ":", "\0", "é", "😀", "=", "^n", "%0A"] {
        quirks.push(parse(Kind::Event, event(&[&format!("SUMMARY:a{q}")])));
        quirks.push(parse(Kind::Event, event(&[&format!("SUMMARY:{q}a{q}b")])));
        quirks.push(parse(Kind::Event, event(&[&format!("SUMMARY;X-P=a{q}:b")])));
        quirks.push(parse(Kind::Event, event(&["SUMMARY:a"]) + q));
    }
    quirks.push(parse(Kind::Event, event(&["SUMMARY:a"]).replace("\r\n", "\n")));
    quirks.push(parse(Kind::Event, event(&["SUMMARY:a"]).replacen("\r\nDT", "\nDT", 1)));
    quirks.push(parse(Kind::Event, event(&["SUMMARY:a"]).replace("\r\nDT", "\nDT")));
    quirks.push(parse(Kind::Event, event(&["SUMMARY:a"]).replace("\r\n", "\r")));
    quirks.push(parse(Kind::Event, event(&["SUMMARY:a"]).to_lowercase()));
    quirks.push(parse(Kind::Event, event(&["summary:a"])));
    put("marks", quirks);
    // dates: arithmetic, conversions and views
    let dates = ["20240131T100000Z", "20240131T100000", "20240131", "20240331T010000Z", "20241027T003000Z", "20240331T023000"];
    let mut sums: Vec<Named> = Vec::new();
    for a in dates {
        for b in dates {
            sums.push((
                format!("{a} and {b}"),
                Box::new(move || {
                    let (x, y): (ikal::Date, ikal::Date) = (a.parse().unwrap(), b.parse().unwrap());
                    let (s, t) = (ikal::DateTime::from(x), ikal::DateTime::from(y));
                    let delta = s - t;
                    format!("{:?} {:?} {delta:?} {:?} {:?} {:?} {:?}", x.partial_cmp(&y), s.cmp(&t), t + delta, s - delta, x.format("%c %Z %j").to_string(), (x == y, x.has_time(), s.naive(), y.date_naive()))
                }),
            ));
        }
    }
    put("arithmetic", sums);
    // the same value written by itself, in a list, in a component
    let mut written: Vec<Named> = Vec::new();
    for t in ["a", "a,b", "a\\,b", "a\nb", "", "A", "a\"b"] {
        written.push((format!("text {t:?} written"), Box::new(move || format!("{:?}", ikal::ser::ical(&ikal::Text::from(t)).ok()))));
        written.push((format!("string {t:?} written"), Box::new(move || format!("{:?}", ikal::ser::ical(&t.to_string()).ok()))));
        written.push((format!("uri {t:?} written"), Box::new(move || format!("{:?}", ikal::ser::ical(&ikal::Uri::from(t)).ok()))));
        written.push((format!("list of {t:?} written"), Box::new(move || format!("{:?}", ikal::ser::ical(&vec![ikal::Text::from(t), ikal::Text::from("z")]).ok()))));
        written.push((format!("event with {t:?} written"), Box::new(move || {
            let e = ikal::VEvent { summary: Some(ikal::Text::from(t)), categories: vec![t.into()], url: Some(t.into()), ..Default::default() };
            format!("{:?}", ikal::ser::ical(&e).ok())
        })));
    }
    put("written values", written);
    out
}
