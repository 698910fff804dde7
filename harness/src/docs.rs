//! Alphabets of values and documents.

use crate::model::{Kind, Mult, Prop, Ty};

/// Property lines (from the name's end) whose value is good for a type: `;params:value`.
pub fn good(ty: Ty) -> &'static [&'static str] {
    match ty {
        Ty::Dt => &[
            ":20240229T123456Z",
            ":19991231T235959",
            ":20240331T023000",
            ";X-P=1:20250101T000000Z",
        ],
        Ty::Date => &[
            ":20240301",
            ":20240229T010203",
            ":19970714T170000Z",
            ";VALUE=DATE:20001231",
            ";TZID=Europe/Paris:20240101T090000",
        ],
        Ty::Dur => &[":PT15M", ":-P1DT2H3M4S", ":P7W", ":P15DT5H0M20S"],
        Ty::U8 => &[":0", ":39", ":100", ":255"],
        Ty::U32 => &[":0", ":2", ":4294967295"],
        Ty::Prio => &[":0", ":1", ":9"],
        Ty::Text => &[
            ":plain",
            ":",
            ";LANGUAGE=fr;ALTREP=\"http://a.b/c;d:e\":Caf\u{e9} \\, \\; \\n \\\\ \u{1f600}",
            ": a:b=c\"d\" ",
        ],
        Ty::Uri => &[
            ":mailto:a@example.com",
            ";CN=\"Doe, John\";ROLE=CHAIR:mailto:b@example.com",
            ":http://x.y/?a=1;b=2,3#\\",
        ],
        Ty::Class => &[":PUBLIC", ":PRIVATE", ":CONFIDENTIAL", ":X-SECRET"],
        Ty::Status => &[":TENTATIVE", ":NEEDS-ACTION", ":FINAL"],
        Ty::Transp => &[":OPAQUE", ":TRANSPARENT"],
        Ty::Geo => &[":37.386013;-122.082932", ":0;0", ":-90.5;180"],
        Ty::RStat => &[
            ":2.0;Success",
            ":3.7;Invalid user\\; really;ATTENDEE:mailto:x@y.z",
            ":2.8;;",
        ],
        Ty::Recur => &[
            ":FREQ=DAILY",
            ":FREQ=MONTHLY;INTERVAL=3;COUNT=7;BYDAY=-1SU,2MO,FR;WKST=MO",
            ":UNTIL=20301231T000000Z;FREQ=YEARLY;BYMONTH=1,12;BYSETPOS=-1",
        ],
        Ty::RDate => &[
            ":20240101T000000",
            ";VALUE=DATE:20240103,20240101",
            ";VALUE=PERIOD:19960403T020000Z/19960403T040000Z,19960404T010000Z/PT3H",
        ],
        Ty::Offset => &[":+0000", ":-0530", ":+1345"],
        Ty::Trigger => &[
            ":-PT30M",
            ";RELATED=END:PT5M",
            ";VALUE=DATE-TIME:19970317T133000Z",
            ":-P1W2DT3H",
        ],
        Ty::TextList => &[":A", ":B,A,B", ";LANGUAGE=en:x\\,y,\u{e9}"],
        Ty::DateList => &[":20240101", ":20240105T000000,20240104T000000", ":20240229T100000Z"],
        Ty::PeriodList => &[
            ":19970308T160000Z/PT8H30M",
            ";FBTYPE=FREE:19970308T160000Z/PT3H,19970308T200000Z/19970308T210000Z",
        ],
    }
}

/// Values that a type refuses.
pub fn bad(ty: Ty) -> &'static [&'static str] {
    match ty {
        Ty::Dt => &[":", ":20240230T000000", ":20240229", ":20240101T240000", ":20240101T000000ZZ", ":x"],
        Ty::Date => &[":", ":20230229", ":2024-01-01", ":20240101T", ":20240101T000060X", ":202401010"],
        Ty::Dur => &[":", ":15M", ":P1H", ":PT1D", ":P1DT1H ", ":PT1Hx", ":P99999999999999999W"],
        Ty::U8 => &[":", ":256", ":-1", ":1.5", ":x"],
        Ty::U32 => &[":", ":4294967296", ":-1", ":1 ", ":one"],
        Ty::Prio => &[":", ":10", ":-1", ":255", ":256", ":9 "],
        Ty::Text | Ty::Uri | Ty::Class | Ty::TextList => &[],
        Ty::Status => &[":", ":UNKNOWN", ":FINAL ", ":NEEDSACTION"],
        Ty::Transp => &[":", ":BUSY", ":OPAQUE,TRANSPARENT"],
        Ty::Geo => &[":", ":1", ":1,2", ":1;2;3", ":a;b", ":1;2 "],
        Ty::RStat => &[":", ":2.0", ":x;y", ":;Success"],
        Ty::Recur => &[
            ":",
            ":INTERVAL=2",
            ":FREQ=FORTNIGHTLY",
            ":FREQ=DAILY;COUNT=x",
            ":FREQ=DAILY;BYDAY=XX",
            ":FREQ=DAILY;UNTIL=20230229",
            ":FREQ=DAILY;;",
        ],
        Ty::RDate => &[":", ":20240101,", ";VALUE=PERIOD:20240101T000000Z", ":20230229"],
        Ty::Offset => &[":", ":0100", ":+1", ":+01:00", ":+2500", ":+0160", ":Z"],
        Ty::Trigger => &[":", ":now", ":20240101", ":PT1X", ":20230229T000000Z"],
        Ty::DateList => &[":", ":20240101,", ":20240101,20230229", ":x"],
        Ty::PeriodList => &[
            ":",
            ":19970308T160000Z",
            ":19970308T160000Z/",
            ":/PT1H",
            ":19970308T160000Z/PT1H,",
            ":19970308T160000Z/-PT1X",
        ],
    }
}

/// A minimal line for a required property.
pub fn required(kind: Kind, p: &Prop) -> String {
    let v = match (p.name, p.ty) {
        ("ACTION", _) => match kind {
            Kind::Audio => ":AUDIO",
            Kind::Display => ":DISPLAY",
            _ => ":EMAIL",
        },
        ("VERSION", _) => ":2.0",
        ("PRODID", _) => ":-//a//b//EN",
        ("UID", _) => ":uid-1@example.com",
        ("TZID", _) => ":Europe/Paris",
        (_, Ty::Dt) => ":20240102T030405Z",
        (_, Ty::Date) => ":20240105T060708",
        (_, Ty::Text) => ":text",
        (_, Ty::Trigger) => ":-PT15M",
        (_, Ty::Offset) => ":+0100",
        _ => unreachable!(),
    };
    format!("{}{v}", p.name)
}

/// Required property lines of a kind.
pub fn base(kind: Kind) -> Vec<String> {
    kind.props().iter().filter(|p| p.mult == Mult::Req).map(|p| required(kind, p)).collect()
}

/// A document of one component.
pub fn doc(kind: Kind, lines: &[String], kids: &str) -> String {
    let mut s = format!("BEGIN:{}\r\n", kind.tag());
    for l in lines {
        s.push_str(l);
        s.push_str("\r\n");
    }
    s.push_str(kids);
    s.push_str("END:");
    s.push_str(kind.tag());
    s.push_str("\r\n");
    s
}

/// The minimal component of a kind.
pub fn minimal(kind: Kind) -> String {
    doc(kind, &base(kind), "")
}

/// Every property line of a kind: all its properties with all their good values, and extensions.
pub fn lines(kind: Kind) -> Vec<String> {
    let mut out = Vec::new();
    for p in kind.props() {
        if p.name == "ACTION" {
            continue; // decides the kind
        }
        for v in good(p.ty) {
            out.push(format!("{}{v}", p.name));
        }
    }
    for x in EXTENSIONS {
        out.push((*x).to_string());
    }
    out
}

pub const EXTENSIONS: &[&str] = &[
    "X-FOO:bar",
    "X-FOO;A=1;B=\"x;y:z,w\":b\\,a;r\\",
    "X-WR-CALNAME:  two  spaces ",
    "NON-STANDARD;LANGUAGE=en:v:1",
    "COLOR:",
];

/// A component with every property (each good value of the lists, the last one of the others).
pub fn full(kind: Kind, which: usize) -> Vec<String> {
    let mut out = Vec::new();
    for p in kind.props() {
        if p.name == "ACTION" {
            out.push(required(kind, p));
            continue;
        }
        let g = good(p.ty);
        if p.mult == Mult::List {
            for v in g {
                out.push(format!("{}{v}", p.name));
            }
        } else {
            out.push(format!("{}{}", p.name, g[which % g.len()]));
        }
    }
    out.push("X-FOO;A=1;B=\"x;y:z,w\":b\\,a;r\\".to_string());
    out.push("X-WR-CALNAME:  two  spaces ".to_string());
    out.push("NON-STANDARD;LANGUAGE=en:v:1".to_string());
    out
}

/// The nested components of a full component.
pub fn full_kids(kind: Kind, which: usize) -> String {
    let one = |k: Kind, w: usize| doc(k, &full(k, w), &full_kids(k, w));
    match kind {
        Kind::Event => {
            one(Kind::Audio, which) + &one(Kind::Display, which) + &one(Kind::Email, which + 1)
        }
        Kind::Timezone => {
            one(Kind::Standard, which) + &one(Kind::Daylight, which + 1) + &one(Kind::Standard, which + 2)
        }
        Kind::Calendar => {
            let mut s = String::new();
            for k in [
                Kind::Timezone,
                Kind::Event,
                Kind::Todo,
                Kind::Journal,
                Kind::Freebusy,
                Kind::Display,
                Kind::Event,
            ] {
                s.push_str(&one(k, which));
            }
            s
        }
        _ => String::new(),
    }
}

pub fn full_doc(kind: Kind, which: usize) -> String {
    doc(kind, &full(kind, which), &full_kids(kind, which))
}

/// Wraps a component in an otherwise empty calendar.
pub fn in_calendar(body: &str) -> String {
    format!("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//a//b//EN\r\n{body}END:VCALENDAR\r\n")
}

/// Lines that look like a property of the component without being one, or belong to another kind.
pub fn odd_lines(kind: Kind) -> Vec<String> {
    let mut out: Vec<String> = ["X-SUMMARY:x", "SUMMARYX:x", "X-DTSTART:20240101", "DTSTARTS:1", "UIDS;A=1:2", "X-UID:z"]
        .iter()
        .map(|x| (*x).to_string())
        .collect();
    // names of all the other kinds' properties are extensions here
    for k in crate::model::KINDS {
        for p in k.props() {
            if kind.prop(p.name).is_none() && !out.iter().any(|x| x.starts_with(&format!("{}:", p.name))) && p.name != "ACTION" {
                out.push(format!("{}:other", p.name));
            }
        }
    }
    out
}
