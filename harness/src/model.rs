//! The reference model: what a document means, written from the format's definition and the
//! properties, without any code of the library.

use crate::cal;
use std::collections::BTreeMap;

pub type Params = BTreeMap<String, String>;

/// Outcome of the reference: a meaning, a refusal, or something the properties leave open.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum R<T> {
    Ok(T),
    Bad,
    Unspec,
}

impl<T> R<T> {
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> R<U> {
        match self {
            R::Ok(x) => R::Ok(f(x)),
            R::Bad => R::Bad,
            R::Unspec => R::Unspec,
        }
    }
    pub fn and<U>(self, f: impl FnOnce(T) -> R<U>) -> R<U> {
        match self {
            R::Ok(x) => f(x),
            R::Bad => R::Bad,
            R::Unspec => R::Unspec,
        }
    }
}

macro_rules! tr {
    ($e:expr) => {
        match $e {
            R::Ok(x) => x,
            R::Bad => return R::Bad,
            R::Unspec => return R::Unspec,
        }
    };
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct RecurV {
    pub freq: usize, // index in FREQS
    pub until: Option<Val>,
    pub count: Option<i64>,
    pub interval: i64,
    pub by: [Vec<i64>; 8], // see BYS
    pub by_day: Vec<(usize, Option<i64>)>,
    pub wkst: Option<usize>,
}

pub const FREQS: [&str; 7] = ["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"];
pub const WEEKDAYS: [&str; 7] = ["SU", "MO", "TU", "WE", "TH", "FR", "SA"];
pub const BYS: [&str; 8] = [
    "BYSECOND", "BYMINUTE", "BYHOUR", "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO", "BYMONTH", "BYSETPOS",
];
/// The values the format allows for each of `BYS`.
pub const BY_RANGE: [(i64, i64, bool); 8] = [
    (0, 60, true),
    (0, 59, true),
    (0, 23, true),
    (-31, 31, false),
    (-366, 366, false),
    (-53, 53, false),
    (1, 12, true),
    (-366, 366, false),
];

pub const STATUSES: [&str; 8] = [
    "TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "DRAFT", "FINAL",
];
pub const CLASSES: [&str; 3] = ["PUBLIC", "PRIVATE", "CONFIDENTIAL"];
pub const TRANSPS: [&str; 2] = ["OPAQUE", "TRANSPARENT"];
pub const ACTIONS: [&str; 3] = ["AUDIO", "DISPLAY", "EMAIL"];

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    Date(i64),
    /// wall-clock seconds, leap second
    Naive(i64, bool),
    /// UTC seconds, leap second
    Utc(i64, bool),
    Dur(i64),
    Int(i64),
    Text(Params, String),
    Uri(Params, String),
    Key(String),
    Custom(String),
    Geo(u32, u32),
    RStat(u32, String, Option<String>),
    Recur(Box<RecurV>),
    RDate(bool, Vec<Val>),
    Period(Box<Val>, Box<Val>),
    Offset(i32),
    Line(Params, String),
    /// Something the reference never produces (fractions of a second for instance).
    Odd(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Dt,
    Date,
    Dur,
    U8,
    U32,
    Prio,
    Text,
    Uri,
    Class,
    Status,
    Transp,
    Geo,
    RStat,
    Recur,
    RDate,
    Offset,
    Trigger,
    TextList,
    DateList,
    PeriodList,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mult {
    Req,
    Opt,
    List,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Prop {
    pub name: &'static str,
    pub field: &'static str,
    pub ty: Ty,
    pub mult: Mult,
}

const fn p(name: &'static str, field: &'static str, ty: Ty, mult: Mult) -> Prop {
    Prop { name, field, ty, mult }
}

use Mult::{List, Opt, Req};

macro_rules! table {
    ($id:ident: $( $name:literal $field:ident $ty:ident $mult:ident; )*) => {
        pub const $id: &[Prop] = &[ $( p($name, stringify!($field), Ty::$ty, $mult), )* ];
    };
}

table! { EVENT:
    "DTSTAMP" dtstamp Dt Req; "UID" uid Text Req; "DTSTART" dtstart Date Req;
    "CLASS" class Class Opt; "CREATED" created Dt Opt; "DESCRIPTION" description Text Opt;
    "GEO" geo Geo Opt; "LAST-MODIFIED" last_modified Dt Opt; "LOCATION" location Text Opt;
    "ORGANIZER" organizer Uri Opt; "PRIORITY" priority Prio Opt; "SEQUENCE" sequence U32 Opt;
    "STATUS" status Status Opt; "SUMMARY" summary Text Opt; "TRANSP" transp Transp Opt;
    "URL" url Uri Opt; "RRULE" rrule Recur Opt; "DTEND" dtend Date Opt; "DURATION" duration Dur Opt;
    "ATTACH" attach Text List; "ATTENDEE" attendee Uri List; "CATEGORIES" categories TextList List;
    "COMMENT" comment Text List; "CONTACT" contact Text List; "EXDATE" exdate DateList List;
    "REQUEST-STATUS" rstatus RStat List; "RELATED-TO" related_to Text List;
    "RESOURCES" resources TextList List; "RDATE" rdate RDate List;
}
table! { TODO:
    "DTSTAMP" dtstamp Dt Req; "UID" uid Text Req;
    "CLASS" class Class Opt; "COMPLETED" completed Dt Opt; "CREATED" created Dt Opt;
    "DTSTART" dtstart Date Opt; "GEO" geo Geo Opt; "LAST-MODIFIED" last_modified Dt Opt;
    "LOCATION" location Text Opt; "ORGANIZER" organizer Uri Opt;
    "PERCENT-COMPLETE" percent_complete U8 Opt; "PRIORITY" priority Prio Opt;
    "SEQUENCE" sequence U32 Opt; "STATUS" status Status Opt; "SUMMARY" summary Text Opt;
    "URL" url Uri Opt; "RRULE" rrule Recur Opt; "DUE" due Date Opt; "DURATION" duration Dur Opt;
    "ATTACH" attach Text List; "ATTENDEE" attendee Uri List; "CATEGORIES" categories TextList List;
    "COMMENT" comment Text List; "CONTACT" contact Text List; "EXDATE" exdate DateList List;
    "REQUEST-STATUS" rstatus RStat List; "RELATED-TO" related_to Text List;
    "RESOURCES" resources TextList List; "RDATE" rdate RDate List;
}
table! { JOURNAL:
    "DTSTAMP" dtstamp Dt Req; "UID" uid Text Req; "DTSTART" dtstart Date Req;
    "CLASS" class Class Opt; "CREATED" created Dt Opt; "LAST-MODIFIED" last_modified Dt Opt;
    "ORGANIZER" organizer Uri Opt; "SEQUENCE" sequence U32 Opt; "STATUS" status Status Opt;
    "SUMMARY" summary Text Opt; "URL" url Uri Opt; "RRULE" rrule Recur Opt;
    "ATTACH" attach Text List; "ATTENDEE" attendee Uri List; "CATEGORIES" categories TextList List;
    "COMMENT" comment Text List; "CONTACT" contact Text List; "DESCRIPTION" description Text List;
    "EXDATE" exdate DateList List; "RELATED-TO" related_to Text List; "RDATE" rdate RDate List;
    "REQUEST-STATUS" rstatus RStat List;
}
table! { FREEBUSY:
    "DTSTAMP" dtstamp Dt Req; "UID" uid Text Req; "CONTACT" contact Text Opt;
    "DTSTART" dtstart Date Opt; "DTEND" dtend Date Opt; "ORGANIZER" organizer Uri Opt;
    "URL" url Uri Opt; "ATTENDEE" attendee Uri List; "COMMENT" comment Text List;
    "FREEBUSY" freebusy PeriodList List; "REQUEST-STATUS" rstatus RStat List;
}
table! { TIMEZONE:
    "TZID" tzid Text Req; "LAST-MODIFIED" last_modified Dt Opt; "TZURL" tzurl Uri Opt;
}
table! { TZPART:
    "DTSTART" dtstart Date Req; "TZOFFSETTO" tzoffsetto Offset Req;
    "TZOFFSETFROM" tzoffsetfrom Offset Req; "RRULE" rrule Recur Opt; "COMMENT" comment Text List;
    "RDATE" rdate RDate List; "TZNAME" tzname Text List;
}
table! { AUDIO:
    "ACTION" action Text Req; "TRIGGER" trigger Trigger Req; "DURATION" duration Dur Opt;
    "REPEAT" repeat U32 Opt; "ATTACH" attach Text List;
}
table! { DISPLAY:
    "ACTION" action Text Req; "TRIGGER" trigger Trigger Req; "DESCRIPTION" description Text Req;
    "DURATION" duration Dur Opt; "REPEAT" repeat U32 Opt;
}
table! { EMAIL:
    "ACTION" action Text Req; "TRIGGER" trigger Trigger Req; "DESCRIPTION" description Text Req;
    "SUMMARY" summary Text Req; "ATTENDEE" attendee Uri List; "DURATION" duration Dur Opt;
    "REPEAT" repeat U32 Opt; "ATTACH" attach Text List;
}
table! { CALENDAR:
    "PRODID" prodid Text Req; "VERSION" version Text Req; "CALSCALE" calscale Text Opt;
    "METHOD" method Text Opt;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Calendar,
    Event,
    Todo,
    Journal,
    Freebusy,
    Timezone,
    Standard,
    Daylight,
    Audio,
    Display,
    Email,
}

pub const KINDS: [Kind; 11] = [
    Kind::Calendar,
    Kind::Event,
    Kind::Todo,
    Kind::Journal,
    Kind::Freebusy,
    Kind::Timezone,
    Kind::Standard,
    Kind::Daylight,
    Kind::Audio,
    Kind::Display,
    Kind::Email,
];

impl Kind {
    /// Its name in a document.
    pub fn tag(self) -> &'static str {
        match self {
            Kind::Calendar => "VCALENDAR",
            Kind::Event => "VEVENT",
            Kind::Todo => "VTODO",
            Kind::Journal => "VJOURNAL",
            Kind::Freebusy => "VFREEBUSY",
            Kind::Timezone => "VTIMEZONE",
            Kind::Standard => "STANDARD",
            Kind::Daylight => "DAYLIGHT",
            Kind::Audio | Kind::Display | Kind::Email => "VALARM",
        }
    }
    pub fn props(self) -> &'static [Prop] {
        match self {
            Kind::Calendar => CALENDAR,
            Kind::Event => EVENT,
            Kind::Todo => TODO,
            Kind::Journal => JOURNAL,
            Kind::Freebusy => FREEBUSY,
            Kind::Timezone => TIMEZONE,
            Kind::Standard | Kind::Daylight => TZPART,
            Kind::Audio => AUDIO,
            Kind::Display => DISPLAY,
            Kind::Email => EMAIL,
        }
    }
    pub fn prop(self, name: &str) -> Option<&'static Prop> {
        self.props().iter().find(|x| x.name == name)
    }
    pub fn is_alarm(self) -> bool {
        matches!(self, Kind::Audio | Kind::Display | Kind::Email)
    }
}

/// The observable content of a component.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Obs {
    pub kind: Kind,
    pub fields: BTreeMap<&'static str, Vec<Val>>,
    pub x: BTreeMap<String, Val>,
    pub iana: BTreeMap<String, Val>,
    pub kids: BTreeMap<&'static str, Vec<Obs>>,
}

impl Obs {
    pub fn new(kind: Kind) -> Self {
        Obs {
            kind,
            fields: BTreeMap::new(),
            x: BTreeMap::new(),
            iana: BTreeMap::new(),
            kids: BTreeMap::new(),
        }
    }
    pub fn get(&self, field: &str) -> &[Val] {
        self.fields.get(field).map_or(&[], |x| x.as_slice())
    }
}

// ---------------------------------------------------------------- values

fn num(s: &str) -> i64 {
    s.bytes().fold(0, |n, b| n * 10 + i64::from(b - b'0'))
}

fn all_digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|x| x.is_ascii_digit())
}

pub fn date(s: &str) -> R<Val> {
    if s.len() != 8 || !all_digits(s) {
        return R::Bad;
    }
    let (y, m, d) = (num(&s[..4]), num(&s[4..6]), num(&s[6..]));
    if d < 1 || d > cal::month_len(y, m) {
        return R::Bad;
    }
    R::Ok(Val::Date(cal::days(y, m, d)))
}

pub fn date_time(s: &str) -> R<Val> {
    let (body, utc) = match s.strip_suffix('Z') {
        Some(x) => (x, true),
        None => (s, false),
    };
    if body.len() != 15 || !body.is_ascii() || body.as_bytes()[8] != b'T' || !all_digits(&body[9..]) {
        return R::Bad;
    }
    let Val::Date(days) = tr!(date(&body[..8])) else { unreachable!() };
    let (h, m, s) = (num(&body[9..11]), num(&body[11..13]), num(&body[13..15]));
    if h > 23 || m > 59 || s > 60 {
        return R::Bad;
    }
    if s == 60 {
        return R::Unspec; // leap seconds
    }
    let secs = days * cal::DAY + h * 3600 + m * 60 + s;
    R::Ok(if utc { Val::Utc(secs, false) } else { Val::Naive(secs, false) })
}

pub fn date_or_dt(s: &str) -> R<Val> {
    match date(s) {
        R::Bad => date_time(s),
        x => x,
    }
}

/// The longest length of time the library's duration can hold, in seconds.
pub const MAX_DUR: i128 = (i64::MAX / 1000) as i128;

fn big(s: &str) -> i128 {
    s.bytes().fold(0i128, |n, b| n.saturating_mul(10).saturating_add(i128::from(b - b'0')))
}

pub fn duration(s: &str) -> R<Val> {
    let (neg, body) = match s.as_bytes().first() {
        Some(b'+') => (false, &s[1..]),
        Some(b'-') => (true, &s[1..]),
        _ => (false, s),
    };
    let Some(mut rest) = body.strip_prefix('P') else { return R::Bad };
    let mut total: i128 = 0;
    let mut any = false;

    fn part<'a>(rest: &'a str, unit: char) -> Option<(i128, &'a str)> {
        let n = rest.bytes().take_while(|x| x.is_ascii_digit()).count();
        let after = rest[n..].strip_prefix(unit)?;
        (n > 0).then(|| (big(&rest[..n]), after))
    }

    for (unit, len) in [('W', 604_800), ('D', 86_400)] {
        if let Some((n, r)) = part(rest, unit) {
            total = total.saturating_add(n.saturating_mul(len));
            rest = r;
            any = true;
        }
    }
    let mut open = !any;
    if let Some(mut r) = rest.strip_prefix('T') {
        let mut any_time = false;
        for (unit, len) in [('H', 3600), ('M', 60), ('S', 1)] {
            if let Some((n, x)) = part(r, unit) {
                total = total.saturating_add(n.saturating_mul(len));
                r = x;
                any_time = true;
            }
        }
        open = !any_time;
        rest = r;
    }
    if !rest.is_empty() {
        return R::Bad;
    }
    if open {
        return R::Unspec; // no part at all, or nothing after T
    }
    if total > MAX_DUR {
        return R::Bad;
    }
    let total = total as i64;
    R::Ok(Val::Dur(if neg { -total } else { total }))
}

/// The duration texts of the macros, which are read by another function: same meaning, a few more
/// liberties left open.
pub fn macro_duration(s: &str) -> R<Val> {
    match duration(s) {
        R::Bad => {
            let body = s.strip_prefix(['+', '-']).unwrap_or(s);
            let Some(body) = body.strip_prefix('P') else { return R::Bad };
            if !body.bytes().all(|x| x.is_ascii_digit() || b"YMWDTHS".contains(&x)) {
                return R::Bad;
            }
            if body.ends_with(|c: char| c.is_ascii_digit()) {
                return R::Bad;
            }
            // a unit without number, or of the wrong half
            let b = body.as_bytes();
            let mut time = false;
            for i in 0..b.len() {
                match b[i] {
                    b'T' => {
                        if i > 0 && b[i - 1].is_ascii_digit() {
                            return R::Unspec;
                        }
                        time = true;
                    }
                    b'0'..=b'9' => (),
                    c => {
                        if i == 0 || !b[i - 1].is_ascii_digit() {
                            return R::Bad;
                        }
                        let ok = if time { b"HMS".contains(&c) } else { b"YMWD".contains(&c) };
                        if !ok {
                            return R::Bad;
                        }
                    }
                }
            }
            // out of range, or parts in another order, repeated, years or months
            let ordered = {
                let order = "WDTHMS";
                let mut last = -1;
                let mut t = false;
                body.chars().filter(|c| c.is_ascii_alphabetic()).all(|c| {
                    if c == 'T' {
                        t = true;
                    }
                    if c == 'M' && !t {
                        return false;
                    }
                    let Some(at) = order.find(c) else { return false };
                    let ok = at as i32 > last;
                    last = at as i32;
                    ok
                })
            };
            if ordered { R::Bad } else { R::Unspec }
        }
        x => x,
    }
}

fn int(s: &str, max: i64) -> R<Val> {
    if let Some(rest) = s.strip_prefix('+') {
        return if all_digits(rest) { R::Unspec } else { R::Bad };
    }
    if let Some(rest) = s.strip_prefix('-') {
        return if all_digits(rest) && big(rest) == 0 { R::Unspec } else { R::Bad };
    }
    if !all_digits(s) || big(s) > i128::from(max) {
        return R::Bad;
    }
    R::Ok(Val::Int(big(s) as i64))
}

/// A plain decimal number, correctly rounded.
fn float(s: &str) -> R<u32> {
    let body = s.strip_prefix(['+', '-']).unwrap_or(s);
    let (a, b) = body.split_once('.').map_or((body, None), |(a, b)| (a, Some(b)));
    if all_digits(a) && b.is_none_or(all_digits) {
        return R::Ok(s.parse::<f32>().unwrap().to_bits());
    }
    // other notations (exponent, missing digits, infinity...)
    if s.parse::<f32>().is_ok() || s.parse::<f64>().is_ok() { R::Unspec } else { R::Bad }
}

pub fn geo(s: &str) -> R<Val> {
    let Some((a, b)) = s.split_once(';') else { return R::Bad };
    match (float(a), float(b)) {
        (R::Ok(a), R::Ok(b)) => R::Ok(Val::Geo(a, b)),
        (R::Bad, _) | (_, R::Bad) => {
            // a mix of a bad half and an open one is still open when a prefix could be read
            if matches!(float(a), R::Unspec) || matches!(float(b), R::Unspec) { R::Unspec } else { R::Bad }
        }
        _ => R::Unspec,
    }
}

/// Splits at the separators which no backslash escapes.
pub fn split_unescaped(s: &str, sep: char) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut cs = s.chars();
    while let Some(c) = cs.next() {
        if c == '\\' {
            let last = out.last_mut().unwrap();
            last.push(c);
            if let Some(n) = cs.next() {
                last.push(n);
            }
        } else if c == sep {
            out.push(String::new());
        } else {
            out.last_mut().unwrap().push(c);
        }
    }
    out
}

pub fn rstatus(s: &str) -> R<Val> {
    let Some((code, rest)) = s.split_once(';') else { return R::Bad };
    let parts: Vec<&str> = code.split('.').collect();
    if parts.iter().all(|x| all_digits(x)) && parts.len() == 3 {
        return R::Unspec; // three levels
    }
    if parts.iter().all(|x| all_digits(x)) && parts.len() == 1 {
        return R::Unspec;
    }
    let bits = tr!(float(code));
    if code.starts_with(['+', '-']) {
        return R::Unspec;
    }
    let desc = split_unescaped(rest, ';').remove(0);
    let ext = (desc.len() < rest.len()).then(|| rest[desc.len() + 1..].to_string());
    R::Ok(Val::RStat(bits, desc, ext))
}

pub fn offset(s: &str) -> R<Val> {
    let sign = match s.as_bytes().first() {
        Some(b'+') => 1,
        Some(b'-') => -1,
        _ => return R::Bad,
    };
    let d = &s[1..];
    if !matches!(d.len(), 4 | 6) || !all_digits(d) {
        return R::Bad;
    }
    let (h, m, sec) = (num(&d[..2]), num(&d[2..4]), if d.len() == 6 { num(&d[4..]) } else { 0 });
    if h > 23 || m > 59 || sec > 59 {
        return R::Bad;
    }
    if d.len() == 6 {
        return R::Unspec; // see the known findings
    }
    if sign < 0 && h == 0 && m == 0 {
        return R::Unspec;
    }
    R::Ok(Val::Offset((sign * (h * 3600 + m * 60 + sec)) as i32))
}

pub fn period(s: &str) -> R<Val> {
    let Some((a, b)) = s.split_once('/') else { return R::Bad };
    let start = date_time(a);
    if b.starts_with(['+', '-']) {
        // a signed duration
        return if matches!(duration(b), R::Bad) { R::Bad } else { R::Unspec };
    }
    let end = if b.starts_with('P') { duration(b) } else { date_time(b) };
    match (start, end) {
        (R::Ok(a), R::Ok(b)) => R::Ok(Val::Period(Box::new(a), Box::new(b))),
        (R::Bad, R::Unspec) | (R::Unspec, _) | (R::Ok(_), R::Unspec) => R::Unspec,
        _ => R::Bad,
    }
}

pub fn list(s: &str, f: impl Fn(&str) -> R<Val>) -> R<Vec<Val>> {
    let mut out = Vec::new();
    let mut open = false;
    let mut bad = false;
    for x in s.split(',') {
        match f(x) {
            R::Ok(v) => out.push(v),
            R::Bad => bad = true,
            R::Unspec => open = true,
        }
    }
    if open {
        R::Unspec
    } else if bad {
        R::Bad
    } else {
        R::Ok(out)
    }
}

pub fn weekday(s: &str) -> R<usize> {
    match WEEKDAYS.iter().position(|x| *x == s) {
        Some(x) => R::Ok(x),
        None if WEEKDAYS.iter().any(|x| x.eq_ignore_ascii_case(s)) => R::Unspec,
        None => R::Bad,
    }
}

/// A number of a BY list: an optional sign and digits, in the range of its field.
fn by_num(s: &str) -> R<i64> {
    let (neg, d) = match s.as_bytes().first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    if !all_digits(d) {
        return R::Bad;
    }
    let n = if neg { -big(d) } else { big(d) };
    if !(-128..=127).contains(&n) {
        return R::Bad; // doesn't fit the field
    }
    R::Ok(n as i64)
}

pub fn weekdaynum(s: &str) -> R<(usize, Option<i64>)> {
    if s.len() < 2 || !s.is_char_boundary(s.len() - 2) {
        return R::Bad;
    }
    let (n, d) = s.split_at(s.len() - 2);
    let day = weekday(d);
    if n.is_empty() {
        return day.map(|x| (x, None));
    }
    let n = by_num(n);
    match (n, day) {
        (R::Bad, _) | (_, R::Bad) => R::Bad,
        (R::Ok(0), _) => R::Unspec,
        (R::Ok(n), R::Ok(d)) => R::Ok((d, Some(n))),
        _ => R::Unspec,
    }
}

pub fn recur(s: &str) -> R<Val> {
    if s.is_empty() {
        return R::Bad;
    }
    let mut out = RecurV { interval: 1, ..Default::default() };
    let mut seen: Vec<&str> = Vec::new();
    let mut open = false;
    let mut bad = false;
    let body = match s.strip_suffix(';') {
        Some(b) => {
            open = true; // a trailing separator
            b
        }
        None => s,
    };
    for part in body.split(';') {
        let Some((k, v)) = part.split_once('=') else {
            bad = true;
            continue;
        };
        if k.is_empty() || !k.bytes().all(|x| x.is_ascii_alphanumeric() || x == b'-') {
            if k.contains('/') {
                open = true;
            } else {
                bad = true;
            }
            continue;
        }
        if seen.contains(&k) {
            open = true; // repeated part
        }
        seen.push(k);
        let mut set = |r: R<()>| match r {
            R::Ok(()) => (),
            R::Bad => bad = true,
            R::Unspec => open = true,
        };
        match k {
            "FREQ" => match FREQS.iter().position(|x| *x == v) {
                Some(x) => out.freq = x,
                None => set(if FREQS.iter().any(|x| x.eq_ignore_ascii_case(v)) { R::Unspec } else { R::Bad }),
            },
            "UNTIL" => set(date_or_dt(v).map(|x| out.until = Some(x))),
            "COUNT" => set(int(v, 255).map(|x| {
                let Val::Int(x) = x else { unreachable!() };
                out.count = Some(x);
            })),
            "INTERVAL" => set(int(v, 255).map(|x| {
                let Val::Int(x) = x else { unreachable!() };
                out.interval = x;
            })),
            "WKST" => set(weekday(v).map(|x| out.wkst = Some(x))),
            "BYDAY" => {
                out.by_day.clear();
                for x in v.split(',') {
                    set(weekdaynum(x).map(|x| out.by_day.push(x)));
                }
            }
            k => {
                if let Some(i) = BYS.iter().position(|x| *x == k) {
                    out.by[i].clear();
                    for x in v.split(',') {
                        set(by_num(x).and(|n| {
                            let (lo, hi, zero) = BY_RANGE[i];
                            out.by[i].push(n);
                            if n < lo || n > hi || (n == 0 && !zero) { R::Unspec } else { R::Ok(()) }
                        }));
                    }
                } else {
                    open = true; // an unknown part
                }
            }
        }
    }
    if open {
        return R::Unspec;
    }
    if bad || !seen.contains(&"FREQ") {
        return R::Bad;
    }
    R::Ok(Val::Recur(Box::new(out)))
}

pub fn keyword(s: &str, words: &[&str]) -> R<Val> {
    if words.contains(&s) {
        R::Ok(Val::Key(s.to_string()))
    } else if words.iter().any(|x| x.eq_ignore_ascii_case(s)) {
        R::Unspec
    } else {
        R::Bad
    }
}

pub fn class(s: &str) -> R<Val> {
    match keyword(s, &CLASSES) {
        R::Bad => R::Ok(Val::Custom(s.to_string())),
        x => x,
    }
}

pub fn trigger(s: &str) -> R<Val> {
    match duration(s) {
        R::Bad => date_time(s),
        x => x,
    }
}

/// The values of a property (several for a comma list).
pub fn decode(ty: Ty, params: &Params, v: &str) -> R<Vec<Val>> {
    let one = |x: R<Val>| x.map(|x| vec![x]);
    match ty {
        Ty::Dt => one(date_time(v)),
        Ty::Date => one(date_or_dt(v)),
        Ty::Dur => one(duration(v)),
        Ty::U8 => one(int(v, 255)),
        Ty::U32 => one(int(v, i64::from(u32::MAX))),
        Ty::Prio => one(int(v, 9)),
        Ty::Text => one(R::Ok(Val::Text(params.clone(), v.to_string()))),
        Ty::Uri => one(R::Ok(Val::Uri(params.clone(), v.to_string()))),
        Ty::Class => one(class(v)),
        Ty::Status => one(keyword(v, &STATUSES)),
        Ty::Transp => one(keyword(v, &TRANSPS)),
        Ty::Geo => one(geo(v)),
        Ty::RStat => one(rstatus(v)),
        Ty::Recur => one(recur(v)),
        Ty::RDate => match params.get("VALUE").map(String::as_str) {
            Some("PERIOD") => list(v, period).map(|x| vec![Val::RDate(true, x)]),
            Some("DATE" | "DATE-TIME") | None => {
                list(v, date_or_dt).map(|x| vec![Val::RDate(false, x)])
            }
            Some(_) => R::Unspec,
        },
        Ty::Offset => one(offset(v)),
        Ty::Trigger => one(trigger(v)),
        Ty::TextList => R::Ok(
            split_unescaped(v, ',').into_iter().map(|x| Val::Text(params.clone(), x)).collect(),
        ),
        Ty::DateList => list(v, date_or_dt),
        Ty::PeriodList => list(v, period),
    }
}

// ---------------------------------------------------------------- content lines

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Line {
    pub name: String,
    pub params: Params,
    pub value: String,
}

fn is_name(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '-'
}

fn take_name(s: &str) -> (R<&str>, &str) {
    let n = s.find(|c| !is_name(c)).unwrap_or(s.len());
    if s[n..].starts_with('/') {
        return (R::Unspec, s);
    }
    if n == 0 {
        return (R::Bad, s);
    }
    (R::Ok(&s[..n]), &s[n..])
}

/// One content line, without its line break.
pub fn content_line(s: &str) -> R<Line> {
    if s.contains(['\r', '\n']) {
        return R::Bad;
    }
    let (name, mut rest) = take_name(s);
    let name = tr!(name).to_string();
    let mut params = Params::new();
    loop {
        let mut cs = rest.chars();
        match cs.next() {
            Some(':') => {
                let line = Line { name, params, value: cs.as_str().to_string() };
                if line.name.eq_ignore_ascii_case("BEGIN") || line.name.eq_ignore_ascii_case("END") {
                    return R::Unspec;
                }
                return R::Ok(line);
            }
            Some(';') => {
                let (key, r) = take_name(cs.as_str());
                let key = tr!(key);
                let Some(r) = r.strip_prefix('=') else { return R::Bad };
                if let Some(r) = r.strip_prefix('"') {
                    let Some(end) = r.find('"') else { return R::Bad };
                    params.insert(key.to_string(), r[..end].to_string());
                    rest = &r[end + 1..];
                    if rest.starts_with(',') {
                        return R::Unspec; // several values
                    }
                } else {
                    let Some(end) = r.find([';', ':']) else { return R::Bad };
                    if r[..end].contains('"') {
                        return R::Unspec;
                    }
                    params.insert(key.to_string(), r[..end].to_string());
                    rest = &r[end..];
                }
            }
            _ => return R::Bad,
        }
    }
}

// ---------------------------------------------------------------- documents

pub fn unfold(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(b"\r\n ") || b[i..].starts_with(b"\r\n\t") {
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).unwrap()
}

struct Doc<'a> {
    /// text, ends with CRLF, has a line break
    lines: Vec<(&'a str, bool, bool)>,
    at: usize,
}

impl<'a> Doc<'a> {
    fn new(s: &'a str) -> Self {
        let mut lines = Vec::new();
        let mut rest = s;
        while !rest.is_empty() {
            match rest.find('\n') {
                Some(n) => {
                    let line = &rest[..n];
                    match line.strip_suffix('\r') {
                        Some(l) => lines.push((l, true, true)),
                        None => lines.push((line, false, true)),
                    }
                    rest = &rest[n + 1..];
                }
                None => {
                    lines.push((rest, false, false));
                    rest = "";
                }
            }
        }
        Doc { lines, at: 0 }
    }

    fn peek(&self) -> Option<(&'a str, bool, bool)> {
        self.lines.get(self.at).copied()
    }
}

fn structural(l: &str) -> bool {
    let b = l.as_bytes();
    (b.len() >= 6 && b[..6].eq_ignore_ascii_case(b"BEGIN:")) || (b.len() >= 4 && b[..4].eq_ignore_ascii_case(b"END:"))
}

fn begin(doc: &mut Doc, tag: &str) -> R<()> {
    let Some((l, crlf, eol)) = doc.peek() else { return R::Bad };
    if l == format!("BEGIN:{tag}") {
        if !crlf {
            return if eol { R::Unspec } else { R::Bad };
        }
        doc.at += 1;
        R::Ok(())
    } else if l.eq_ignore_ascii_case(&format!("BEGIN:{tag}")) {
        R::Unspec
    } else {
        R::Bad
    }
}

fn lines(doc: &mut Doc) -> R<Vec<Line>> {
    let mut out = Vec::new();
    while let Some((l, _, eol)) = doc.peek() {
        if structural(l) {
            break;
        }
        let line = tr!(content_line(l));
        if !eol {
            return R::Bad;
        }
        out.push(line);
        doc.at += 1;
    }
    R::Ok(out)
}

fn end(doc: &mut Doc, tag: &str) -> R<()> {
    let Some((l, crlf, eol)) = doc.peek() else { return R::Bad };
    let want = format!("END:{tag}");
    if tag == "VCALENDAR" {
        if l == want {
            doc.at += 1;
            return R::Ok(());
        }
        if l.starts_with(&want) {
            return R::Unspec;
        }
    } else if l == want {
        if !crlf {
            return R::Unspec;
        }
        let _ = eol;
        doc.at += 1;
        return R::Ok(());
    }
    if l.eq_ignore_ascii_case(&want) { R::Unspec } else { R::Bad }
}

/// Builds a component from its content lines.
pub fn component(kind: Kind, lines: &[Line]) -> R<Obs> {
    let mut obs = Obs::new(kind);
    for l in lines {
        if l.name == "RECURRENCE-ID" || l.name == "RECURID" {
            return R::Unspec; // see the known findings
        }
        if let Some(p) = kind.prop(&l.name) {
            let last = p.mult != Mult::Req
                || std::ptr::eq(l, lines.iter().rfind(|x| x.name == l.name).unwrap());
            match decode(p.ty, &l.params, &l.value) {
                R::Ok(mut v) => match p.mult {
                    Mult::List => obs.fields.entry(p.field).or_default().append(&mut v),
                    _ => {
                        obs.fields.insert(p.field, v);
                    }
                },
                R::Bad if !last => return R::Unspec,
                R::Bad => return R::Bad,
                R::Unspec => return R::Unspec,
            }
        } else if kind.props().iter().any(|x| x.name.eq_ignore_ascii_case(&l.name)) {
            return R::Unspec;
        } else {
            let v = Val::Line(l.params.clone(), l.value.clone());
            if l.name.starts_with("X-") {
                obs.x.insert(l.name.clone(), v);
            } else if l.name.starts_with("x-") {
                return R::Unspec;
            } else {
                obs.iana.insert(l.name.clone(), v);
            }
        }
    }
    for p in kind.props() {
        if p.mult == Mult::Req && !obs.fields.contains_key(p.field) {
            return R::Bad;
        }
    }
    R::Ok(obs)
}

fn alarm_kind(lines: &[Line]) -> R<Kind> {
    let Some(l) = lines.iter().rfind(|x| x.name == "ACTION") else {
        return if lines.iter().any(|x| x.name.eq_ignore_ascii_case("ACTION")) { R::Unspec } else { R::Bad };
    };
    match l.value.as_str() {
        "AUDIO" => R::Ok(Kind::Audio),
        "DISPLAY" => R::Ok(Kind::Display),
        "EMAIL" => R::Ok(Kind::Email),
        x if ACTIONS.iter().any(|y| y.eq_ignore_ascii_case(x)) => R::Unspec,
        _ => R::Bad,
    }
}

fn alarm(doc: &mut Doc) -> R<Obs> {
    tr!(begin(doc, "VALARM"));
    let ls = tr!(lines(doc));
    tr!(end(doc, "VALARM"));
    component(tr!(alarm_kind(&ls)), &ls)
}

fn is_begin(doc: &Doc, tag: &str) -> bool {
    doc.peek().is_some_and(|(l, _, _)| l == format!("BEGIN:{tag}"))
}

fn element(doc: &mut Doc, kind: Kind) -> R<Obs> {
    if kind.is_alarm() {
        return alarm(doc);
    }
    let tag = kind.tag();
    tr!(begin(doc, tag));
    let ls = tr!(lines(doc));
    let mut kids: Vec<(&'static str, Obs)> = Vec::new();
    loop {
        if kind == Kind::Event && is_begin(doc, "VALARM") {
            kids.push(("alarms", tr!(alarm(doc))));
        } else if kind == Kind::Timezone && is_begin(doc, "STANDARD") {
            kids.push(("standard", tr!(element(doc, Kind::Standard))));
        } else if kind == Kind::Timezone && is_begin(doc, "DAYLIGHT") {
            kids.push(("daylight", tr!(element(doc, Kind::Daylight))));
        } else if kind == Kind::Todo && is_begin(doc, "VALARM") {
            return R::Unspec; // the alarms of a to-do are refused
        } else if kind == Kind::Calendar {
            let found = [
                ("alarms", Kind::Audio),
                ("events", Kind::Event),
                ("freebusy", Kind::Freebusy),
                ("journals", Kind::Journal),
                ("timezones", Kind::Timezone),
                ("todo", Kind::Todo),
            ]
            .into_iter()
            .find(|(_, k)| is_begin(doc, k.tag()));
            match found {
                Some((name, k)) => kids.push((name, tr!(element(doc, k)))),
                None => break,
            }
        } else {
            break;
        }
    }
    tr!(end(doc, tag));
    let mut obs = tr!(component(kind, &ls));
    for (name, kid) in kids {
        obs.kids.entry(name).or_default().push(kid);
    }
    R::Ok(obs)
}

/// The meaning of a whole document holding one component.
pub fn parse(kind: Kind, text: &str) -> R<Obs> {
    let text = unfold(text);
    let mut doc = Doc::new(&text);
    let obs = tr!(element(&mut doc, kind));
    if doc.at < doc.lines.len() {
        return R::Unspec; // what follows the component
    }
    R::Ok(obs)
}

// ---------------------------------------------------------------- serialised form

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tree {
    pub tag: String,
    pub lines: Vec<Line>,
    pub kids: Vec<Tree>,
}

/// The physical shape of a serialised text: CRLF lines of at most 76 octets.
pub fn well_formed(text: &str) -> Result<(), String> {
    if !text.ends_with("\r\n") {
        return Err("doesn't end with CRLF".into());
    }
    for l in text[..text.len() - 2].split("\r\n") {
        if l.contains(['\r', '\n']) {
            return Err(format!("stray line break in {l:?}"));
        }
        if l.len() > 76 {
            return Err(format!("line of {} octets: {l:?}", l.len()));
        }
    }
    Ok(())
}

/// The unfolded lines of a serialised text.
pub fn logical_lines(text: &str) -> Vec<String> {
    let t = text.replace("\r\n ", "");
    let t = t.strip_suffix("\r\n").unwrap_or(&t);
    t.split("\r\n").map(ToString::to_string).collect()
}

pub fn tree(text: &str) -> Result<Tree, String> {
    let lines = logical_lines(text);
    let mut stack: Vec<Tree> = Vec::new();
    let mut done: Option<Tree> = None;
    for l in lines {
        if done.is_some() {
            return Err(format!("{l:?} after the end"));
        }
        if let Some(tag) = l.strip_prefix("BEGIN:") {
            stack.push(Tree { tag: tag.to_string(), lines: vec![], kids: vec![] });
        } else if let Some(tag) = l.strip_prefix("END:") {
            let t = stack.pop().ok_or("END without BEGIN")?;
            if t.tag != tag {
                return Err(format!("END:{tag} closes {}", t.tag));
            }
            match stack.last_mut() {
                Some(p) => p.kids.push(t),
                None => done = Some(t),
            }
        } else {
            let R::Ok(line) = content_line(&l) else { return Err(format!("not a content line: {l:?}")) };
            let top = stack.last_mut().ok_or("line outside of a component")?;
            if !top.kids.is_empty() {
                return Err(format!("{l:?} after a nested component"));
            }
            top.lines.push(line);
        }
    }
    done.ok_or_else(|| "unclosed component".into())
}

/// What an escaped text stands for; a backslash that escapes nothing stands for itself.
pub fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut cs = s.chars().peekable();
    while let Some(c) = cs.next() {
        if c == '\\' {
            match cs.peek() {
                Some('n' | 'N') => {
                    out.push('\n');
                    cs.next();
                }
                Some(x @ ('\\' | ';' | ',')) => {
                    out.push(*x);
                    cs.next();
                }
                _ => out.push('\\'),
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// Every special character of the text is escaped, and every backslash escapes something.
pub fn well_escaped(s: &str) -> bool {
    let mut cs = s.chars();
    while let Some(c) = cs.next() {
        match c {
            '\\' => {
                if !matches!(cs.next(), Some('\\' | ';' | ',' | 'n' | 'N')) {
                    return false;
                }
            }
            ';' | ',' | '\r' | '\n' => return false,
            _ => (),
        }
    }
    true
}

fn newlines(s: &str) -> String {
    s.replace("\r\n", "\n").replace('\r', "\n")
}

/// The same value, whatever the escaping of its texts.
pub fn normal(v: &Val) -> Val {
    let t = |s: &str| newlines(&unescape(s));
    match v {
        Val::Text(p, s) => Val::Text(p.clone(), t(s)),
        Val::RStat(c, d, e) => Val::RStat(*c, t(d), e.as_deref().map(t)),
        Val::Custom(c) => Val::Custom(c.to_uppercase()),
        v => v.clone(),
    }
}

/// The same component, whatever the escaping of its texts.
pub fn normal_obs(o: &Obs) -> Obs {
    Obs {
        kind: o.kind,
        fields: o.fields.iter().map(|(k, v)| (*k, v.iter().map(normal).collect())).collect(),
        x: o.x.clone(),
        iana: o.iana.clone(),
        kids: o.kids.iter().map(|(k, v)| (*k, v.iter().map(normal_obs).collect())).collect(),
    }
}

fn announced(ty: Ty, params: &Params, vals: &[Val]) -> Result<(), String> {
    let value = params.get("VALUE").map(String::as_str);
    let kind = |v: &Val| match v {
        Val::Date(_) => "DATE",
        Val::Naive(..) | Val::Utc(..) => "DATE-TIME",
        Val::Dur(_) => "DURATION",
        Val::Period(..) => "PERIOD",
        _ => "",
    };
    let (default, kinds): (&str, Vec<&str>) = match ty {
        Ty::Dt | Ty::Date | Ty::DateList => ("DATE-TIME", vals.iter().map(kind).collect()),
        Ty::Trigger | Ty::Dur => ("DURATION", vals.iter().map(kind).collect()),
        Ty::PeriodList => ("PERIOD", vals.iter().map(kind).collect()),
        Ty::RDate => (
            "DATE-TIME",
            vals.iter()
                .flat_map(|x| match x {
                    Val::RDate(_, x) => x.iter().map(kind).collect::<Vec<_>>(),
                    _ => vec![],
                })
                .collect(),
        ),
        _ => return Ok(()),
    };
    let said = value.unwrap_or(default);
    let mixed = kinds.windows(2).any(|w| w[0] != w[1]);
    if !mixed && kinds.iter().any(|k| *k != said) {
        return Err(format!("announced as {said}, is {}", kinds[0]));
    }
    Ok(())
}

/// Whether `tree` states exactly the content of `obs`: every value once, nothing else.
pub fn states_exactly(obs: &Obs, tree: &Tree) -> Result<(), String> {
    if tree.tag != obs.kind.tag() {
        return Err(format!("component named {}, expected {}", tree.tag, obs.kind.tag()));
    }
    let mut said: BTreeMap<&str, Vec<Val>> = BTreeMap::new();
    let mut x = BTreeMap::new();
    let mut iana = BTreeMap::new();
    let mut count: BTreeMap<&str, usize> = BTreeMap::new();
    for l in &tree.lines {
        *count.entry(l.name.as_str()).or_default() += 1;
        if let Some(p) = obs.kind.prop(&l.name) {
            let vals = match decode(p.ty, &l.params, &l.value) {
                R::Ok(v) => v,
                _ => return Err(format!("unreadable value: {l:?}")),
            };
            announced(p.ty, &l.params, &vals).map_err(|e| format!("{e}: {l:?}"))?;
            said.entry(p.field).or_default().extend(vals);
        } else {
            let map = if l.name.starts_with("X-") { &mut x } else { &mut iana };
            if map.insert(l.name.clone(), Val::Line(l.params.clone(), l.value.clone())).is_some() {
                return Err(format!("repeated {}", l.name));
            }
        }
    }
    for p in obs.kind.props() {
        let want: Vec<Val> = obs.get(p.field).iter().map(normal).collect();
        let got: Vec<Val> =
            said.get(p.field).map(|x| x.iter().map(normal).collect()).unwrap_or_default();
        if want != got {
            return Err(format!("{}: states {got:?}, holds {want:?}", p.name));
        }
        let n = count.get(p.name).copied().unwrap_or(0);
        let comma = matches!(p.ty, Ty::TextList | Ty::DateList | Ty::PeriodList);
        if !(n == want.len() || (comma && n == 1 && !want.is_empty())) {
            return Err(format!("{}: {n} lines for {} values", p.name, want.len()));
        }
    }
    if x != obs.x || iana != obs.iana {
        return Err(format!("extension properties {x:?} {iana:?}, holds {:?} {:?}", obs.x, obs.iana));
    }
    // nested components, in order within their collection
    let mut rest: BTreeMap<&str, std::collections::VecDeque<&Obs>> =
        obs.kids.iter().map(|(k, v)| (*k, v.iter().collect())).collect();
    for k in &tree.kids {
        let name = match (obs.kind, k.tag.as_str()) {
            (Kind::Calendar | Kind::Event, "VALARM") => "alarms",
            (Kind::Calendar, "VEVENT") => "events",
            (Kind::Calendar, "VTODO") => "todo",
            (Kind::Calendar, "VJOURNAL") => "journals",
            (Kind::Calendar, "VFREEBUSY") => "freebusy",
            (Kind::Calendar, "VTIMEZONE") => "timezones",
            (Kind::Timezone, "STANDARD") => "standard",
            (Kind::Timezone, "DAYLIGHT") => "daylight",
            (_, t) => return Err(format!("unexpected {t} in {}", tree.tag)),
        };
        let Some(o) = rest.get_mut(name).and_then(std::collections::VecDeque::pop_front) else {
            return Err(format!("too many {name}"));
        };
        states_exactly(o, k)?;
    }
    if let Some((k, _)) = rest.iter().find(|x| !x.1.is_empty()) {
        return Err(format!("missing {k}"));
    }
    Ok(())
}
