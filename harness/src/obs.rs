//! What can be observed of the library's values, through its public interface only.

use crate::model::{Kind, Obs, RecurV, Val};
use chrono::Timelike as _;
use std::collections::BTreeMap;

fn naive_parts(n: chrono::NaiveDateTime) -> (i64, bool, bool) {
    let nanos = n.nanosecond();
    // a leap second is a 59th second of more than 10^9 nanoseconds
    (n.and_utc().timestamp(), nanos >= 1_000_000_000, nanos % 1_000_000_000 != 0)
}

pub fn naive_date(d: chrono::NaiveDate) -> Val {
    Val::Date(d.signed_duration_since(chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap()).num_days())
}

pub fn naive(n: chrono::NaiveDateTime) -> Val {
    let (s, leap, odd) = naive_parts(n);
    if odd { Val::Odd(format!("{n:?}")) } else { Val::Naive(s, leap) }
}

thread_local! {
    /// Whether the digits of a time have to be those of the local clocks at that instant: so in
    /// documents; texts on their own are read by the wall clock, and at the edge of a gap chrono
    /// itself answers with an offset which is not the one of the zone.
    pub static CLOCKS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn local(l: &chrono::DateTime<chrono::Local>) -> Val {
    let (s, leap, odd) = naive_parts(l.naive_utc());
    let wrong = CLOCKS.get() && l.with_timezone(&chrono::Local).offset() != l.offset();
    if odd || wrong { Val::Odd(format!("{l:?}")) } else { Val::Utc(s, leap) }
}

pub fn date_time(d: &ikal::DateTime) -> Val {
    match d {
        ikal::DateTime::Naive(n) => naive(*n),
        ikal::DateTime::Local(l) => local(l),
    }
}

pub fn date(d: &ikal::Date) -> Val {
    match d {
        ikal::Date::Date(d) => naive_date(*d),
        ikal::Date::DateTime(d) => date_time(d),
    }
}

pub fn duration(d: &chrono::TimeDelta) -> Val {
    if d.subsec_nanos() == 0 { Val::Dur(d.num_seconds()) } else { Val::Odd(format!("{d:?}")) }
}

pub fn text(t: &ikal::Text) -> Val {
    Val::Text(t.params.clone(), t.text.clone())
}

pub fn uri(t: &ikal::Uri) -> Val {
    Val::Uri(t.params.clone(), t.uri.clone())
}

pub fn class(c: &ikal::Class) -> Val {
    match c {
        ikal::Class::Public => Val::Key("PUBLIC".into()),
        ikal::Class::Private => Val::Key("PRIVATE".into()),
        ikal::Class::Confidential => Val::Key("CONFIDENTIAL".into()),
        ikal::Class::Custom(c) => Val::Custom(c.clone()),
    }
}

pub fn status(s: &ikal::Status) -> Val {
    use ikal::Status::*;
    let k = match s {
        Tentative => "TENTATIVE",
        Confirmed => "CONFIRMED",
        Cancelled => "CANCELLED",
        NeedsAction => "NEEDS-ACTION",
        Completed => "COMPLETED",
        InProcess => "IN-PROCESS",
        Draft => "DRAFT",
        Final => "FINAL",
    };
    Val::Key(k.into())
}

pub fn transp(s: &ikal::TimeTransparency) -> Val {
    let k = match s {
        ikal::TimeTransparency::Opaque => "OPAQUE",
        ikal::TimeTransparency::Transparent => "TRANSPARENT",
    };
    Val::Key(k.into())
}

pub fn geo(g: &ikal::Geo) -> Val {
    Val::Geo(g.lat.to_bits(), g.lon.to_bits())
}

pub fn rstatus(r: &ikal::RequestStatus) -> Val {
    Val::RStat(r.statcode.to_bits(), r.statdesc.clone(), r.extdata.clone())
}

pub fn period(p: &ikal::Period) -> Val {
    match p {
        ikal::Period::StartEnd(p) => Val::Period(Box::new(date_time(&p.start)), Box::new(date_time(&p.end))),
        ikal::Period::StartDur(p) => Val::Period(Box::new(date_time(&p.start)), Box::new(duration(&p.duration))),
    }
}

pub fn rdate(r: &ikal::RDate) -> Val {
    match r {
        ikal::RDate::Date(d) => Val::RDate(false, d.iter().map(date).collect()),
        ikal::RDate::Period(p) => Val::RDate(true, p.iter().map(period).collect()),
    }
}

pub fn weekday(w: &ikal::Weekday) -> usize {
    use ikal::Weekday::*;
    match w {
        Sunday => 0,
        Monday => 1,
        Tuesday => 2,
        Wenesday => 3,
        Thurday => 4,
        Friday => 5,
        Saturday => 6,
    }
}

pub fn weekdaynum(w: &ikal::WeekdayNum) -> (usize, Option<i64>) {
    (weekday(&w.weekday), w.ord.map(i64::from))
}

pub fn freq(f: &ikal::Freq) -> usize {
    use ikal::Freq::*;
    match f {
        Secondly => 0,
        Minutely => 1,
        Hourly => 2,
        Daily => 3,
        Weekly => 4,
        Monthly => 5,
        Yearly => 6,
    }
}

pub fn recur_v(r: &ikal::Recur) -> RecurV {
    let l = |x: &[i8]| x.iter().map(|x| i64::from(*x)).collect::<Vec<_>>();
    RecurV {
        freq: freq(&r.freq),
        until: r.until.as_ref().map(date),
        count: r.count.map(i64::from),
        interval: i64::from(r.interval),
        by: [
            l(&r.by_second),
            l(&r.by_minute),
            l(&r.by_hour),
            l(&r.by_monthday),
            l(&r.by_yearday),
            l(&r.by_weekno),
            l(&r.by_month),
            l(&r.by_setpos),
        ],
        by_day: r.by_day.iter().map(weekdaynum).collect(),
        wkst: r.wkst.as_ref().map(weekday),
    }
}

pub fn recur(r: &ikal::Recur) -> Val {
    Val::Recur(Box::new(recur_v(r)))
}

pub fn trigger(t: &ikal::Trigger) -> Val {
    match t {
        ikal::Trigger::DateTime(d) => date_time(d),
        ikal::Trigger::Duration(d) => duration(d),
    }
}

fn u8(n: &u8) -> Val {
    Val::Int(i64::from(*n))
}

fn u32(n: &u32) -> Val {
    Val::Int(i64::from(*n))
}

fn offset(o: &chrono::FixedOffset) -> Val {
    Val::Offset(o.local_minus_utc())
}

/// A value as it is written on its own: attributes, value, everything.
pub type Alone = (Option<String>, String, String);

pub fn alone<T: ikal::ser::Serialize>(v: &T) -> Alone {
    let all = |r: ikal::Result<String>| r.unwrap_or_else(|e| format!("error {e}"));
    (v.attr(), all(v.ical()), all(ikal::ser::ical(v)))
}

/// What a component holds, each value written on its own.
#[derive(Default)]
pub struct Parts {
    pub fields: Vec<(&'static str, Vec<Alone>)>,
    pub extensions: Vec<(String, Alone)>,
    /// nested components, in the order they are written
    pub kids: Vec<String>,
    pub wrong: Vec<String>,
}

impl Parts {
    fn one<T: ikal::ser::Serialize>(&mut self, name: &'static str, v: &T) {
        self.fields.push((name, vec![alone(v)]));
    }
    fn opt<T: ikal::ser::Serialize>(&mut self, name: &'static str, v: &Option<T>) {
        if let Some(x) = v {
            if alone(x) != alone(v) {
                self.wrong.push(format!("{name} alone is {:?}, as an option {:?}", alone(x), alone(v)));
            }
            self.fields.push((name, vec![alone(x)]));
        }
    }
    fn list<T: ikal::ser::Serialize>(&mut self, name: &'static str, v: &Vec<T>) {
        if !v.is_empty() {
            let parts: Vec<Alone> = v.iter().map(alone).collect();
            let joined = parts.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(",");
            if alone(v).1 != joined {
                self.wrong.push(format!("{name} by values is {joined:?}, as a list {:?}", alone(v).1));
            }
            self.fields.push((name, parts));
        }
    }
}

struct B(Obs);

impl B {
    fn one<T>(&mut self, name: &'static str, v: &T, f: impl Fn(&T) -> Val) {
        self.0.fields.insert(name, vec![f(v)]);
    }
    fn opt<T>(&mut self, name: &'static str, v: &Option<T>, f: impl Fn(&T) -> Val) {
        if let Some(v) = v {
            self.0.fields.insert(name, vec![f(v)]);
        }
    }
    fn list<T>(&mut self, name: &'static str, v: &[T], f: impl Fn(&T) -> Val) {
        if !v.is_empty() {
            self.0.fields.insert(name, v.iter().map(f).collect());
        }
    }
    fn kids<T: Component>(&mut self, name: &'static str, v: &[T]) {
        if !v.is_empty() {
            self.0.kids.insert(name, v.iter().map(Component::obs).collect());
        }
    }
}

macro_rules! ext {
    ($b:ident, $c:ident) => {
        for (k, v) in &$c.x_prop {
            $b.0.x.insert(k.clone(), line(k, &v.key, &v.params, &v.value));
        }
        for (k, v) in &$c.iana_prop {
            $b.0.iana.insert(k.clone(), line(k, &v.key, &v.params, &v.value));
        }
    };
}

fn line(name: &str, key: &str, params: &BTreeMap<String, String>, value: &str) -> Val {
    if name == key {
        Val::Line(params.clone(), value.to_string())
    } else {
        Val::Odd(format!("{name} holds {key} {params:?} {value:?}"))
    }
}

macro_rules! obs {
    ($ty:ty, $kind:ident: [$( $kids:ident )*] $( $how:ident $field:ident $f:ident; )* ) => {
        impl Component for $ty {
            fn obs(&self) -> Obs {
                let mut b = B(Obs::new(Kind::$kind));
                $( b.$how(stringify!($field), &self.$field, $f); )*
                $( b.kids(stringify!($kids), &self.$kids); )*
                ext!(b, self);
                b.0
            }
            fn parts(&self) -> Parts {
                let mut b = Parts::default();
                $( b.$how(stringify!($field), &self.$field); )*
                $( b.kids.extend(self.$kids.iter().map(|x| alone(x).2)); )*
                for (k, v) in self.x_prop.iter().chain(&self.iana_prop) {
                    b.extensions.push((k.clone(), alone(v)));
                }
                b
            }
        }
    };
}

pub trait Component {
    fn obs(&self) -> Obs;
    fn parts(&self) -> Parts;
}

obs! { ikal::VEvent, Event: [alarms]
    one dtstamp date_time; one uid text; one dtstart date; opt class class; opt created date_time;
    opt description text; opt geo geo; opt last_modified date_time; opt location text;
    opt organizer uri; opt priority u8; opt sequence u32; opt status status; opt summary text;
    opt transp transp; opt url uri; opt recurid date; opt rrule recur; opt dtend date;
    opt duration duration; list attach text; list attendee uri; list categories text;
    list comment text; list contact text; list exdate date; list rstatus rstatus;
    list related_to text; list resources text; list rdate rdate;
}
obs! { ikal::VTodo, Todo: []
    one dtstamp date_time; one uid text; opt class class; opt completed date_time;
    opt created date_time; opt dtstart date; opt geo geo; opt last_modified date_time;
    opt location text; opt organizer uri; opt percent_complete u8; opt priority u8; opt recurid date;
    opt sequence u32; opt status status; opt summary text; opt url uri; opt rrule recur; opt due date;
    opt duration duration; list attach text; list attendee uri; list categories text;
    list comment text; list contact text; list exdate date; list rstatus rstatus;
    list related_to text; list resources text; list rdate rdate;
}
obs! { ikal::VJournal, Journal: []
    one dtstamp date_time; one uid text; opt class class; opt created date_time; one dtstart date;
    opt last_modified date_time; opt organizer uri; opt recurid date; opt sequence u32;
    opt status status; opt summary text; opt url uri; opt rrule recur; list attach text;
    list attendee uri; list categories text; list comment text; list contact text;
    list description text; list exdate date; list related_to text; list rdate rdate;
    list rstatus rstatus;
}
obs! { ikal::VFreebusy, Freebusy: []
    one dtstamp date_time; one uid text; opt contact text; opt dtstart date; opt dtend date;
    opt organizer uri; opt url uri; list attendee uri; list comment text; list freebusy period;
    list rstatus rstatus;
}
obs! { ikal::VTimezone, Timezone: [standard daylight]
    one tzid text; opt last_modified date_time; opt tzurl uri;
}
obs! { ikal::vtimezone::Standard, Standard: []
    one dtstart date; one tzoffsetto offset; one tzoffsetfrom offset; opt rrule recur;
    list comment text; list rdate rdate; list tzname text;
}
obs! { ikal::vtimezone::Daylight, Daylight: []
    one dtstart date; one tzoffsetto offset; one tzoffsetfrom offset; opt rrule recur;
    list comment text; list rdate rdate; list tzname text;
}
obs! { ikal::valarm::Audio, Audio: []
    one action text; one trigger trigger; opt duration duration; opt repeat u32; list attach text;
}
obs! { ikal::valarm::Display, Display: []
    one action text; one trigger trigger; one description text; opt duration duration;
    opt repeat u32;
}
obs! { ikal::valarm::Email, Email: []
    one action text; one trigger trigger; one description text; one summary text;
    list attendee uri; opt duration duration; opt repeat u32; list attach text;
}
obs! { ikal::VCalendar, Calendar: [alarms events freebusy journals todo timezones]
    one prodid text; one version text; opt calscale text; opt method text;
}

impl Component for ikal::VAlarm {
    fn obs(&self) -> Obs {
        match self {
            ikal::VAlarm::Audio(x) => x.obs(),
            ikal::VAlarm::Display(x) => x.obs(),
            ikal::VAlarm::Email(x) => x.obs(),
        }
    }
    fn parts(&self) -> Parts {
        match self {
            ikal::VAlarm::Audio(x) => x.parts(),
            ikal::VAlarm::Display(x) => x.parts(),
            ikal::VAlarm::Email(x) => x.parts(),
        }
    }
}

/// A component of the library of any kind.
#[derive(Clone, Debug, PartialEq)]
pub enum Any {
    Calendar(ikal::VCalendar),
    Event(ikal::VEvent),
    Todo(ikal::VTodo),
    Journal(ikal::VJournal),
    Freebusy(ikal::VFreebusy),
    Timezone(ikal::VTimezone),
    Standard(ikal::vtimezone::Standard),
    Daylight(ikal::vtimezone::Daylight),
    Alarm(ikal::VAlarm),
}

impl Any {
    pub fn parse(kind: Kind, s: &str) -> ikal::Result<Self> {
        Ok(match kind {
            Kind::Calendar => Any::Calendar(s.parse()?),
            Kind::Event => Any::Event(s.parse()?),
            Kind::Todo => Any::Todo(s.parse()?),
            Kind::Journal => Any::Journal(s.parse()?),
            Kind::Freebusy => Any::Freebusy(s.parse()?),
            Kind::Timezone => Any::Timezone(s.parse()?),
            Kind::Standard => Any::Standard(s.parse()?),
            Kind::Daylight => Any::Daylight(s.parse()?),
            Kind::Audio | Kind::Display | Kind::Email => Any::Alarm(s.parse()?),
        })
    }

    pub fn ical(&self) -> ikal::Result<String> {
        match self {
            Any::Calendar(x) => ikal::ser::ical(x),
            Any::Event(x) => ikal::ser::ical(x),
            Any::Todo(x) => ikal::ser::ical(x),
            Any::Journal(x) => ikal::ser::ical(x),
            Any::Freebusy(x) => ikal::ser::ical(x),
            Any::Timezone(x) => ikal::ser::ical(x),
            Any::Standard(x) => ikal::ser::ical(x),
            Any::Daylight(x) => ikal::ser::ical(x),
            Any::Alarm(x) => ikal::ser::ical(x),
        }
    }

    pub fn obs(&self) -> Obs {
        match self {
            Any::Calendar(x) => x.obs(),
            Any::Event(x) => x.obs(),
            Any::Todo(x) => x.obs(),
            Any::Journal(x) => x.obs(),
            Any::Freebusy(x) => x.obs(),
            Any::Timezone(x) => x.obs(),
            Any::Standard(x) => x.obs(),
            Any::Daylight(x) => x.obs(),
            Any::Alarm(x) => x.obs(),
        }
    }

    pub fn parts(&self) -> Parts {
        match self {
            Any::Calendar(x) => x.parts(),
            Any::Event(x) => x.parts(),
            Any::Todo(x) => x.parts(),
            Any::Journal(x) => x.parts(),
            Any::Freebusy(x) => x.parts(),
            Any::Timezone(x) => x.parts(),
            Any::Standard(x) => x.parts(),
            Any::Daylight(x) => x.parts(),
            Any::Alarm(x) => x.parts(),
        }
    }
}
