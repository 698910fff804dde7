//! C20: results don't depend on the history of the process.

use super::values::ENTRIES;
use crate::cli::Info;
use crate::docs;
use crate::engine::{Case, Dec, Run, imp, product, string_at, strings_count};
use crate::model::{KINDS, Kind};
use crate::obs::{self, Any};
use std::collections::HashMap;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Mutex, OnceLock, mpsc};

pub const C20: Info = Info {
    id: "C20",
    zones: &["UTC", "CET-1CEST,M3.5.0,M10.5.0/3"],
    more_zones: &["EST5EDT,M3.2.0,M11.1.0", "Pacific/Auckland"],
    rule: "every sequence of operations (parsing, serialising, expanding, asking for windows; good, failing and colliding documents and values) to the stated depth, each in a process of its own and with every assignment to threads; all pairs of operations of one group that differ in a single detail; after many different documents and many repetitions; at several clock readings, environments and repetitions, in one long-lived process, inside each other, and on one object; every answer compared with the one of a fresh process",
    assumptions: &[
        "an operation is atomic: operations overlapping on two threads aren't interleaved (the library has no synchronisation or shared state a scheduler could be put into)",
    ],
    run: c20,
};

// ---------------------------------------------------------------- the clock

static CLOCK: AtomicI64 = AtomicI64::new(i64::MIN);

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

unsafe extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

/// The clock of the process, which the checks may set.
///
/// # Safety
/// As the C function.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: i32, out: *mut Timespec) -> i32 {
    let set = CLOCK.load(Ordering::Relaxed);
    if id == 0 && set != i64::MIN {
        unsafe {
            (*out).sec = set;
            (*out).nsec = 500_000_000;
        }
        return 0;
    }
    unsafe { syscall(228, i64::from(id), out) as i32 }
}

// ---------------------------------------------------------------- operations

pub struct Op {
    pub name: String,
    pub run: Box<dyn Fn() -> String + Send + Sync>,
}

pub fn parse_op(kind: Kind, text: &str) -> String {
    match Any::parse(kind, text) {
        Ok(a) => format!("{:?} {:?}", a.obs(), a.ical().map_err(|e| e.to_string())),
        Err(e) => format!("error {e}"),
    }
}

pub fn expand_op(kind: Kind, text: &str) -> String {
    match Any::parse(kind, text) {
        Ok(Any::Event(x)) => format!("{:?}", x.recurrent().take(4).map(|x| (obs::date(&x.dtstart), x.dtend.map(|d| obs::date(&d)), ikal::ser::ical(&x).ok())).collect::<Vec<_>>()),
        Ok(Any::Todo(x)) => format!("{:?}", x.recurrent().take(4).map(|x| (x.dtstart.map(|d| obs::date(&d)), x.due.map(|d| obs::date(&d)))).collect::<Vec<_>>()),
        Ok(Any::Journal(x)) => format!("{:?}", x.recurrent().take(4).map(|x| obs::date(&x.dtstart)).collect::<Vec<_>>()),
        Ok(_) => "nothing to expand".into(),
        Err(e) => format!("error {e}"),
    }
}

pub fn window_op(text: &str, a: &str, b: &str) -> String {
    let r = || {
        let x: ikal::VEvent = text.parse()?;
        let (a, b): (ikal::Date, ikal::Date) = (a.parse()?, b.parse()?);
        Ok::<_, ikal::Error>((
            x.recurrent().between(a, b).take(3).map(|x| obs::date(&x.dtstart)).collect::<Vec<_>>(),
            x.recurrent().after(b).take(3).map(|x| obs::date(&x.dtstart)).collect::<Vec<_>>(),
            x.recurrent().at(a).take(3).map(|x| obs::date(&x.dtstart)).collect::<Vec<_>>(),
        ))
    };
    format!("{:?}", r().map_err(|e| e.to_string()))
}

pub fn event(lines: &[&str]) -> String {
    let mut v = vec!["UID:1".to_string(), "DTSTAMP:20240101T000000Z".to_string()];
    if !lines.iter().any(|l| l.starts_with("DTSTART")) {
        v.push("DTSTART:20240131T100000Z".into());
    }
    v.extend(lines.iter().map(|x| (*x).to_string()));
    docs::doc(Kind::Event, &v, "")
}

/// The core comes first, the groups last.
pub struct Ops {
    all: Vec<Op>,
    core: usize,
    plain: usize,
    groups: Vec<(String, std::ops::Range<usize>)>,
}

pub fn ops() -> Ops {
    let mut out: Vec<Op> = Vec::new();
    let mut put = |name: &str, f: Box<dyn Fn() -> String + Send + Sync>| {
        out.push(Op { name: name.to_string(), run: Box::new(move || imp(&f).unwrap_or_else(|e| e)) });
    };
    let parse = |k: Kind, t: String| -> Box<dyn Fn() -> String + Send + Sync> { Box::new(move || parse_op(k, &t)) };
    let expand = |k: Kind, t: String| -> Box<dyn Fn() -> String + Send + Sync> { Box::new(move || expand_op(k, &t)) };
    let value = |e: usize, s: &'static str| -> Box<dyn Fn() -> String + Send + Sync> { Box::new(move || format!("{:?}", (ENTRIES[e].parse)(s))) };

    // the core: documents that collide in their UID, names, lengths and prefixes
    put("event", parse(Kind::Event, event(&["SUMMARY:a", "X-B:1", "X-A:2", "COLOR:red", "X-C;Q=1;P=2;O=3:4"])));
    put("the same event, other values", parse(Kind::Event, event(&["SUMMARY:b", "X-B:2", "X-A:1", "COLOR:blue", "X-C;Q=3;P=1;O=2:4"])));
    put("event without start", parse(Kind::Event, "BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nSUMMARY:c\r\nEND:VEVENT\r\n".into()));
    put("event with a bad date", parse(Kind::Event, event(&["SUMMARY:a", "DTEND:20241301"])));
    put("event with everything", parse(Kind::Event, docs::full_doc(Kind::Event, 0)));
    put("calendar with everything", parse(Kind::Calendar, docs::full_doc(Kind::Calendar, 1)));
    put("calendar cut short", {
        let d = docs::full_doc(Kind::Calendar, 1);
        parse(Kind::Calendar, d[..d.len() - 40].to_string())
    });
    put("timezone", parse(Kind::Timezone, docs::full_doc(Kind::Timezone, 0)));
    put("daily", expand(Kind::Event, event(&["DTEND:20240131T110000Z", "RRULE:FREQ=DAILY;COUNT=3"])));
    put("monthly", expand(Kind::Event, event(&["DTEND:20240131T110000Z", "RRULE:FREQ=MONTHLY;COUNT=3", "EXDATE:20240331T100000Z"])));
    put("the first of a monthly one excluded", expand(Kind::Event, event(&["RRULE:FREQ=MONTHLY;COUNT=3", "EXDATE:20240131T100000Z"])));
    put("a window", {
        let t = event(&["DTSTART;VALUE=DATE:20240131", "RRULE:FREQ=DAILY;INTERVAL=2"]);
        Box::new(move || window_op(&t, "20240210", "20240220"))
    });
    put("rule COUNT=2", value(5, "FREQ=DAILY;COUNT=2;BYDAY=MO,-1SU"));
    put("rule COUNT=3", value(5, "FREQ=WEEKLY;INTERVAL=3;BYMONTH=1"));
    put("bad rule", value(5, "FREQ=DAILY;COUNT=x"));
    put("local time", value(0, "20240731T120000Z"));
    put("duration P1D", value(2, "P1DT2H"));
    put("duration 1h", value(2, "1h"));
    let core = out.len();

    let mut put = |name: &str, f: Box<dyn Fn() -> String + Send + Sync>| {
        out.push(Op { name: name.to_string(), run: Box::new(move || imp(&f).unwrap_or_else(|e| e)) });
    };
    put("yearly", expand(Kind::Event, event(&["DTSTART;VALUE=DATE:20240229", "DTEND;VALUE=DATE:20240301", "RRULE:FREQ=YEARLY"])));
    put("minutely date", expand(Kind::Event, event(&["DTSTART;VALUE=DATE:20240229", "RRULE:FREQ=MINUTELY;UNTIL=20240301"])));
    put("to-do", expand(Kind::Todo, docs::doc(Kind::Todo, &["UID:1", "DTSTAMP:20240101T000000Z", "DTSTART:20240331T003000Z", "DUE:20240401T003000Z", "RRULE:FREQ=HOURLY;COUNT=5"].map(String::from), "")));
    put("journal", expand(Kind::Journal, docs::doc(Kind::Journal, &["UID:1", "DTSTAMP:20240101T000000Z", "DTSTART:20240331T003000", "RRULE:FREQ=WEEKLY"].map(String::from), "")));
    put("a window of local times", {
        let t = event(&["RRULE:FREQ=HOURLY;INTERVAL=5"]);
        Box::new(move || window_op(&t, "20240201T000000Z", "20240202"))
    });
    put("event read as a to-do", parse(Kind::Todo, docs::minimal(Kind::Event)));
    put("folded event", parse(Kind::Event, event(&["SUMMARY:a\r\n b\r\n\tc", "X-C;Q=1;P=2;O=3:4"])));
    put("event with lf", parse(Kind::Event, event(&["SUMMARY:a"]).replace("\r\n", "\n")));
    put("event with a long text", parse(Kind::Event, event(&[&format!("DESCRIPTION:{}", "é€😀\\n".repeat(60)), "SUMMARY:a"])));
    put("event with an alarm", parse(Kind::Event, docs::doc(Kind::Event, &docs::base(Kind::Event), &docs::full_doc(Kind::Display, 0))));
    put("to-do with everything", parse(Kind::Todo, docs::full_doc(Kind::Todo, 0)));
    put("journal with everything", parse(Kind::Journal, docs::full_doc(Kind::Journal, 0)));
    put("freebusy with everything", parse(Kind::Freebusy, docs::full_doc(Kind::Freebusy, 0)));
    put("another timezone", parse(Kind::Timezone, docs::minimal(Kind::Timezone)));
    put("audio", parse(Kind::Audio, docs::full_doc(Kind::Audio, 0)));
    put("display", parse(Kind::Display, docs::full_doc(Kind::Display, 0)));
    put("email", parse(Kind::Email, docs::full_doc(Kind::Email, 0)));
    put("alarm of no kind", parse(Kind::Display, "BEGIN:VALARM\r\nTRIGGER:P1D\r\nEND:VALARM\r\n".into()));
    put("empty", parse(Kind::Calendar, String::new()));
    put("calendar with two events", parse(Kind::Calendar, docs::in_calendar(&(event(&["SUMMARY:a"]) + &event(&["SUMMARY:b"])))));
    put("calendar with a bad event", parse(Kind::Calendar, docs::in_calendar(&(event(&["SUMMARY:a"]) + &event(&["DTEND:x"])))));
    put("until", value(5, "FREQ=DAILY;UNTIL=20240731T120000Z"));
    put("floating time", value(0, "20240731T120000"));
    put("day", value(0, "20240731"));
    put("bad day", value(0, "20240732"));
    put("date-time", value(1, "20241027T003000Z"));
    put("trigger", value(3, "-PT15M"));
    put("period", value(4, "20240101T000000Z/PT1H"));
    put("status text", value(6, "2.0;ok;x"));
    put("position", value(7, "48.85;2.35"));
    put("class", value(8, "X-SECRET"));
    put("public", value(8, "PUBLIC"));
    put("status", value(9, "DRAFT"));
    put("weekday number", value(13, "-1SU"));
    put("printed values", {
        Box::new(|| {
            use chrono::TimeZone as _;
            let l = chrono::Local.timestamp_opt(1_711_846_800, 0).unwrap();
            let d: ikal::Date = l.into();
            let p: Option<ikal::Period> = "20240101T000000Z/PT1H".parse().ok();
            let r: Option<ikal::Recur> = "FREQ=MONTHLY;BYDAY=1MO;COUNT=9".parse().ok();
            format!("{d} {:?} {:?} {:?}", d.date_naive(), p.map(|x| x.duration()), r.map(|r| ikal::ser::ical(&r).ok()))
        })
    });
    put("defaults", {
        Box::new(|| {
            format!("{:?} {:?} {:?} {:?}", ikal::VEvent::default(), ikal::VTodo::default(), ikal::VCalendar::default(), ikal::ser::ical(&ikal::VEvent::default()).ok())
        })
    });
    let plain = out.len();
    let mut groups = Vec::new();
    for (name, ops) in super::groups::groups() {
        let from = out.len();
        out.extend(ops);
        groups.push((name, from..out.len()));
    }
    Ops { all: out, core, plain, groups }
}

// ---------------------------------------------------------------- one process

/// `probe [-tCLOCK] OP@THREAD …`: an answer a line. Thread 0 is the main one, `n` a new one.
pub fn probe(args: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let ops = ops().all;
    let mut threads: HashMap<String, mpsc::Sender<(usize, mpsc::Sender<String>)>> = HashMap::new();
    let mut out = String::new();
    std::thread::scope(|s| {
        for a in args {
            if let Some(t) = a.strip_prefix("-t") {
                CLOCK.store(t.parse().unwrap(), Ordering::Relaxed);
                assert_eq!(chrono::Utc::now().timestamp().to_string(), t, "the clock isn't set");
                continue;
            }
            let (op, thread) = a.split_once('@').unwrap();
            let op: usize = op.parse().unwrap();
            if let Some(times) = thread.strip_prefix('*') {
                // many times, a line if it is always the same answer
                let first = (ops[op].run)();
                let times: u32 = times.parse().unwrap();
                let other = (1..times).map(|_| (ops[op].run)()).find(|x| *x != first);
                out.push_str(&line(&other.unwrap_or(first)));
                out.push('\n');
                continue;
            }
            if thread == "many" {
                // that many different documents
                for i in 0..op {
                    filler(i);
                }
                continue;
            }
            let answer = match thread {
                "0" => (ops[op].run)(),
                "n" => {
                    let ops = &ops;
                    s.spawn(move || (ops[op].run)()).join().unwrap()
                }
                t => {
                    let ops = &ops;
                    let to = threads.entry(t.to_string()).or_insert_with(|| {
                        let (tx, rx) = mpsc::channel::<(usize, mpsc::Sender<String>)>();
                        s.spawn(move || {
                            for (op, back) in rx {
                                back.send((ops[op].run)()).unwrap();
                            }
                        });
                        tx
                    });
                    let (tx, rx) = mpsc::channel();
                    to.send((op, tx)).unwrap();
                    rx.recv().unwrap()
                }
            };
            out.push_str(&line(&answer));
            out.push('\n');
        }
        threads.clear();
    });
    print!("{out}");
    0
}

/// The i-th of endlessly many documents, all different in everything that may differ.
fn filler(i: usize) {
    let day = chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap() + chrono::TimeDelta::days(i as i64 % 40_000);
    let d = day.format("%Y%m%d");
    let s = event(&[
        &format!("DTSTART:{d}T10{:02}{:02}Z", i / 60 % 60, i % 60),
        &format!("SUMMARY;P{i}=v{i}:text {i}"),
        &format!("X-N{i}:{i}"),
        &format!("N{i}:{i}"),
        &format!("SEQUENCE:{i}"),
        &format!("CLASS:X-{i}"),
        &format!("CATEGORIES:c{i},d{i}"),
        &format!("RRULE:FREQ=DAILY;INTERVAL={};BYMONTHDAY={};COUNT={}", i % 250 + 1, i % 28 + 1, i / 28 % 250 + 2),
        &format!("EXDATE:{d}T1000{:02}Z", (i + 1) % 60),
        &format!("GEO:{}.{i};{}", i % 90, i % 180),
    ])
    .replace("UID:1", &format!("UID:{i}"));
    if let Ok(e) = s.parse::<ikal::VEvent>() {
        let _ = ikal::ser::ical(&e);
        let _ = e.recurrent().nth(2);
    }
    let _ = docs::doc(Kind::Timezone, &[format!("TZID:{i}")], "").parse::<ikal::VTimezone>();
    let _ = ikal::parse_duration(&format!("PT{i}M"));
    let _ = format!("PT{i}S").parse::<ikal::Trigger>();
    let _ = format!("{d}/PT{i}S").parse::<ikal::Period>();
}

fn ask(args: &[String], env: usize) -> Vec<String> {
    let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
    cmd.arg("probe").args(args).stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    match env {
        1 => {
            let tz = std::env::var("TZ").unwrap_or_default();
            cmd.env_clear().env("TZ", tz);
        }
        2 => {
            cmd.env("LANG", "tr_TR.UTF-8").env("LC_ALL", "tr_TR.UTF-8").env("USER", "nobody").env("HOME", "/nonexistent").current_dir("/");
        }
        3 => {
            cmd.env("RUST_BACKTRACE", "full").env("RUST_LOG", "trace").env("DEBUG", "1").env("NO_COLOR", "1").current_dir("/proc/self");
        }
        _ => (),
    }
    let out = cmd.output().expect("probe");
    let mut v: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(String::from).collect();
    if !out.status.success() {
        v.push(format!("ended with {}", out.status));
    }
    v
}

fn arg(op: usize, thread: &str) -> String {
    format!("{op}@{thread}")
}

struct Base {
    ops: Vec<Op>,
    core: usize,
    plain: usize,
    groups: Vec<(String, std::ops::Range<usize>)>,
    answers: Vec<String>,
}

fn base() -> &'static Base {
    static BASE: OnceLock<Base> = OnceLock::new();
    BASE.get_or_init(|| {
        let ops = ops();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let answers = Mutex::new(vec![String::new(); ops.all.len()]);
        std::thread::scope(|s| {
            for _ in 0..std::thread::available_parallelism().map_or(4, |x| x.get()) {
                s.spawn(|| {
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= ops.all.len() {
                            break;
                        }
                        let a = ask(&[arg(i, "0")], 0).concat();
                        answers.lock().unwrap()[i] = a;
                    }
                });
            }
        });
        Base { ops: ops.all, core: ops.core, plain: ops.plain, groups: ops.groups, answers: answers.into_inner().unwrap() }
    })
}

fn cut(s: &str) -> String {
    s.chars().take(600).collect()
}

fn same(case: &mut Case, b: &Base, ops: &[usize], got: &[String], how: &dyn Fn() -> String) {
    case.steps(ops.len() as u64);
    case.validated();
    for (i, op) in ops.iter().enumerate() {
        let want = &b.answers[*op];
        case.state(&(op, want, i));
        if got.get(i) != Some(want) {
            let names: Vec<&str> = ops.iter().map(|x| b.ops[*x].name.as_str()).collect();
            case.fail(|| {
                format!("{names:?} {}: number {i} answers\n{}\nalone and first it answers\n{}", how(), got.get(i).map_or("nothing".into(), |x| cut(x)), cut(want))
            });
            return;
        }
    }
}

/// A date which does something else while it is converted.
#[derive(Clone, Copy)]
struct Reentrant(ikal::Date, usize);

static INNER: Mutex<Vec<String>> = Mutex::new(Vec::new());

impl From<Reentrant> for ikal::Date {
    fn from(r: Reentrant) -> ikal::Date {
        let b = base();
        let a = line(&(b.ops[r.1].run)());
        if a != b.answers[r.1] {
            INNER.lock().unwrap().push(format!("{}: {}", b.ops[r.1].name, cut(&a)));
        }
        r.0
    }
}

/// An answer on a line, cut but told apart.
fn line(answer: &str) -> String {
    let head: String = answer.chars().take(2000).collect();
    format!("{:016x} {}", crate::engine::hash_of(answer), head.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r"))
}

fn c20(run: &Run) {
    let b = base();
    let n = b.plain;
    if b.answers.iter().any(|x| x.is_empty()) {
        panic!("an operation has no answer");
    }

    // alone: repetitions, environments, clocks
    let clocks = [i64::MIN, 0, 951_782_399, 1_709_164_800, 1_711_846_799, 1_711_846_800, 1_729_990_800, 2_147_483_648, 4_107_542_399, 253_402_300_799];
    run.family("one operation", product(&[n, clocks.len(), 4, run.pick(2, 6)]), |i, case| {
        let mut d = Dec(i);
        let op = d.take(n);
        let clock = *d.of(&clocks);
        let env = d.take(4);
        let mut args = vec![arg(op, if i % 3 == 0 { "n" } else { "0" })];
        if clock != i64::MIN {
            args.insert(0, format!("-t{clock}"));
        }
        case.sample(|| format!("{} => {}", b.ops[op].name, cut(&b.answers[op])));
        let got = ask(&args, env);
        same(case, b, &[op], &got, &|| format!("at clock {clock}, environment {env}"));
    });

    // sequences, each in a process of its own
    run.family("two operations", product(&[n, n]), |i, case| {
        let ops = [i as usize / n, i as usize % n];
        let args: Vec<String> = ops.iter().map(|x| arg(*x, "0")).collect();
        let got = ask(&args, 0);
        same(case, b, &ops, &got, &|| "in a row".into());
    });
    let few = run.pick(b.core, n);
    run.family("three operations", strings_count(few, 3, 3), |i, case| {
        let ops = string_at(few, 3, i);
        let args: Vec<String> = ops.iter().map(|x| arg(*x, "0")).collect();
        let got = ask(&args, 0);
        same(case, b, &ops, &got, &|| "in a row".into());
    });
    if run.thorough() {
        run.family("four operations", strings_count(b.core, 4, 4), |i, case| {
            let ops = string_at(b.core, 4, i);
            let args: Vec<String> = ops.iter().map(|x| arg(*x, "0")).collect();
            let got = ask(&args, 0);
            same(case, b, &ops, &got, &|| "in a row".into());
        });
    }
    // the same one many times, with others before
    run.family("repetitions", product(&[n, 3]), |i, case| {
        let mut d = Dec(i);
        let op = d.take(n);
        let mut ops: Vec<usize> = vec![op; run.pick(300, 3000)];
        match d.take(3) {
            0 => (),
            1 => ops.extend(0..n),
            _ => {
                ops = (0..n).flat_map(|x| [x, op]).collect();
            }
        }
        let args: Vec<String> = ops.iter().map(|x| arg(*x, "0")).collect();
        let got = ask(&args, 0);
        same(case, b, &ops, &got, &|| "repeated".into());
    });

    // operations that differ in one detail
    let mut pairs: Vec<[usize; 2]> = Vec::new();
    for (_, g) in &b.groups {
        for x in g.clone() {
            pairs.extend(g.clone().map(|y| [x, y]));
        }
    }
    run.family("two operations differing in a detail", pairs.len() as u64, |i, case| {
        let ops = pairs[i as usize];
        let args: Vec<String> = ops.iter().map(|x| arg(*x, "0")).collect();
        let got = ask(&args, 0);
        case.sample(|| format!("{} after {}", b.ops[ops[1]].name, b.ops[ops[0]].name));
        same(case, b, &ops, &got, &|| "in a row".into());
    });
    // each one after all the others of its group, and the first again; forwards and backwards
    let turns: usize = b.groups.iter().map(|g| g.1.len()).sum();
    run.family("rotations of operations differing in a detail", product(&[turns, 2, 2]), |i, case| {
        let mut d = Dec(i);
        let mut at = d.take(turns);
        let g = b
            .groups
            .iter()
            .find_map(|g| {
                if at < g.1.len() {
                    return Some(g.1.clone());
                }
                at -= g.1.len();
                None
            })
            .unwrap();
        let mut ops: Vec<usize> = g.collect();
        ops.rotate_left(at);
        if d.take(2) == 1 {
            ops.reverse();
        }
        ops.push(ops[0]);
        let thread = ["0", "n"][d.take(2)];
        let args: Vec<String> = ops.iter().map(|x| arg(*x, thread)).collect();
        let got = ask(&args, 0);
        same(case, b, &ops, &got, &|| format!("on thread {thread}"));
    });
    if run.thorough() {
        let mut triples: Vec<[usize; 3]> = Vec::new();
        for (_, g) in &b.groups {
            for x in g.clone() {
                for y in g.clone() {
                    triples.extend(g.clone().map(|z| [x, y, z]));
                }
            }
        }
        run.family("three operations differing in a detail", triples.len() as u64, |i, case| {
            let ops = triples[i as usize];
            let args: Vec<String> = ops.iter().map(|x| arg(*x, "0")).collect();
            let got = ask(&args, 0);
            same(case, b, &ops, &got, &|| "in a row".into());
        });
    }
    // many different things before: tables that fill up, counters that run over
    let all = b.ops.len();
    let many = [1, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 1025, 4096, 10_000, 65_535, 65_536];
    let many = &many[..run.pick(24, many.len())];
    run.family("after many different documents", product(&[many.len(), 3]), |i, case| {
        let mut d = Dec(i);
        let m = *d.of(many);
        let mut args = vec![format!("{m}@many")];
        let mut ops: Vec<usize> = (0..all).collect();
        match d.take(3) {
            0 => (),
            1 => ops.reverse(),
            _ => {
                // in the middle of them
                ops.extend(0..all);
            }
        }
        args.extend(ops.iter().map(|x| arg(*x, "0")));
        if ops.len() > all {
            args = (0..all).map(|x| arg(x, "0")).collect();
            args.push(format!("{m}@many"));
            args.extend((0..all).map(|x| arg(x, "0")));
        }
        let got = ask(&args, 0);
        same(case, b, &ops, &got, &|| format!("and {m} different documents"));
    });
    run.family("one operation many times", all as u64, |i, case| {
        let op = i as usize;
        let times = run.pick(1100, 66_000);
        let got = ask(&[format!("{op}@*{times}")], 0);
        same(case, b, &[op], &got, &|| format!("{times} times"));
    });

    // handed over between threads
    let hands = ["0", "1", "2", "n"];
    run.family("two operations on threads", product(&[n, n, hands.len(), hands.len()]), |i, case| {
        let mut d = Dec(i);
        let ops = [d.take(n), d.take(n)];
        let t = [d.take(hands.len()), d.take(hands.len())];
        if t == [0, 0] || (!run.thorough() && (ops[0] >= b.core || ops[1] >= b.core) && t[0] != 0 && t[1] != 3) {
            return;
        }
        let args: Vec<String> = ops.iter().zip(t).map(|(x, t)| arg(*x, hands[t])).collect();
        let got = ask(&args, 0);
        same(case, b, &ops, &got, &|| format!("on threads {t:?}"));
    });
    let few = run.pick(6, b.core);
    run.family("three operations on threads", product(&[few, few, few, 27]), |i, case| {
        let mut d = Dec(i);
        let ops: Vec<usize> = (0..3).map(|_| [0, 1, 3, 9, 10, 12, 2, 4, 5, 6, 7, 8, 11, 13, 14, 15, 16, 17][d.take(few)]).collect();
        let t: Vec<usize> = (0..3).map(|_| d.take(3)).collect();
        let args: Vec<String> = ops.iter().zip(&t).map(|(x, t)| arg(*x, hands[*t])).collect();
        let got = ask(&args, 0);
        same(case, b, &ops, &got, &|| format!("on threads {t:?}"));
    });

    // in one long-lived process, all cores at once
    run.family("a long-lived process", strings_count(n, 1, 3).min(run.pick(40_000, 1_000_000)), |i, case| {
        let ops = string_at(n, 1, i);
        let got: Vec<String> = ops.iter().map(|x| line(&(b.ops[*x].run)())).collect();
        same(case, b, &ops, &got, &|| "after everything before".into());
    });

    // inside each other: the ends of a window do something else while they are converted
    run.family("operations inside a window", (n * 3) as u64, |i, case| {
        let mut d = Dec(i);
        let op = d.take(n);
        let how = d.take(3);
        let r = imp(|| {
            let t = event(&["DTSTART;VALUE=DATE:20240131", "RRULE:FREQ=DAILY;INTERVAL=2;COUNT=30", "EXDATE;VALUE=DATE:20240214"]);
            let x: ikal::VEvent = t.parse().ok()?;
            let (a, z): (ikal::Date, ikal::Date) = ("20240210".parse().ok()?, "20240220".parse().ok()?);
            let plain: Vec<ikal::VEvent> = match how {
                0 => x.recurrent().between(a, z).collect(),
                1 => x.recurrent().after(a).collect(),
                _ => x.recurrent().at(a).collect(),
            };
            let (ra, rz) = (Reentrant(a, op), Reentrant(z, op));
            let inside: Vec<ikal::VEvent> = match how {
                0 => x.recurrent().between(ra, rz).collect(),
                1 => x.recurrent().after(ra).collect(),
                _ => x.recurrent().at(ra).collect(),
            };
            Some(plain == inside && !plain.is_empty())
        });
        case.steps(2);
        case.validated();
        let inner: Vec<String> = std::mem::take(&mut *INNER.lock().unwrap());
        if r != Ok(Some(true)) || !inner.is_empty() {
            case.fail(|| format!("{} inside a window ({how}): {r:?} {inner:?}", b.ops[op].name));
        }
    });

    objects(run);
}

// ---------------------------------------------------------------- one object

/// What one can ask an object without changing it.
fn answer(a: &Any, q: usize) -> String {
    match q {
        0 => format!("{:?}", a.obs()),
        1 => format!("{:?}", a.ical().map_err(|e| e.to_string())),
        2 => {
            let c = a.clone();
            format!("{:?} {:?}", c == *a, c.ical().ok())
        }
        3 => debug(a),
        4 => expand(a, 3),
        5 => expand(a, 6),
        6 => match a {
            Any::Event(x) => {
                let d = x.dtstart + chrono::TimeDelta::days(9);
                format!("{:?}", x.recurrent().after(d).take(3).map(|x| obs::date(&x.dtstart)).collect::<Vec<_>>())
            }
            _ => expand(a, 1),
        },
        _ => {
            // two expansions side by side
            match a {
                Any::Event(x) => {
                    let (mut p, mut q) = (x.recurrent(), x.recurrent());
                    let mut v = Vec::new();
                    for i in 0..4 {
                        v.push(p.next().map(|x| obs::date(&x.dtstart)));
                        if i % 2 == 0 {
                            v.push(q.next().map(|x| obs::date(&x.dtstart)));
                        }
                    }
                    format!("{v:?}")
                }
                _ => expand(a, 2),
            }
        }
    }
}

fn debug(a: &Any) -> String {
    match a {
        Any::Calendar(x) => format!("{x:?}"),
        Any::Event(x) => format!("{x:?}"),
        Any::Todo(x) => format!("{x:?}"),
        Any::Journal(x) => format!("{x:?}"),
        Any::Freebusy(x) => format!("{x:?}"),
        Any::Timezone(x) => format!("{x:?}"),
        Any::Standard(x) => format!("{x:?}"),
        Any::Daylight(x) => format!("{x:?}"),
        Any::Alarm(x) => format!("{x:?}"),
    }
}

fn expand(a: &Any, n: usize) -> String {
    match a {
        Any::Event(x) => format!("{:?}", x.recurrent().take(n).map(|x| obs::date(&x.dtstart)).collect::<Vec<_>>()),
        Any::Todo(x) => format!("{:?}", x.recurrent().take(n).map(|x| x.dtstart.map(|d| obs::date(&d))).collect::<Vec<_>>()),
        Any::Journal(x) => format!("{:?}", x.recurrent().take(n).map(|x| obs::date(&x.dtstart)).collect::<Vec<_>>()),
        _ => String::new(),
    }
}

fn objects(run: &Run) {
    const Q: usize = 8;
    let mut texts: Vec<(Kind, String)> = KINDS.iter().map(|k| (*k, docs::full_doc(*k, 1))).collect();
    for l in ["RRULE:FREQ=DAILY;COUNT=5", "RRULE:FREQ=MONTHLY", "RRULE:FREQ=HOURLY;UNTIL=20240201T000000Z", "SUMMARY:none"] {
        for e in ["EXDATE:20240131T100000Z", "X-A:1"] {
            texts.push((Kind::Event, event(&[l, e])));
        }
    }
    let depth = run.pick(3, 5);
    run.family("questions to one object", texts.len() as u64 * strings_count(Q, 1, depth), |i, case| {
        let mut d = Dec(i);
        let (k, t) = d.of(&texts);
        let qs = string_at(Q, 1, d.0);
        let r = imp(|| {
            let a = Any::parse(*k, t).map_err(|e| e.to_string())?;
            for (j, q) in qs.iter().enumerate() {
                let fresh = Any::parse(*k, t).map_err(|e| e.to_string())?;
                let (x, y) = (answer(&a, *q), answer(&fresh, *q));
                if x != y {
                    return Err(format!("question {q}, number {j} of {qs:?}, answers {} instead of {}", cut(&x), cut(&y)));
                }
                if a != fresh {
                    return Err(format!("the object isn't what it was after {:?}", &qs[..=j]));
                }
            }
            Ok::<(), String>(())
        });
        case.steps(qs.len() as u64);
        case.state(&(k, &qs));
        case.validated();
        match r {
            Ok(Ok(())) => (),
            Ok(Err(e)) | Err(e) => case.fail(|| format!("{k:?} {e}\n{t:?}")),
        }
    });

    // two expansions of one object, in every order of their steps
    let len = run.pick(4, 6);
    run.family("two expansions", (texts.len() * (1 << (2 * len))) as u64, |i, case| {
        let mut d = Dec(i);
        let (_, t) = d.of(&texts);
        let order = d.0;
        if order.count_ones() != len {
            return;
        }
        let r = imp(|| {
            let Ok(x) = t.parse::<ikal::VEvent>() else { return true };
            let fresh: ikal::VEvent = t.parse().unwrap();
            let want: Vec<ikal::VEvent> = fresh.recurrent().take(len as usize).collect();
            let mut its = [x.recurrent(), x.recurrent()];
            let mut got = [Vec::new(), Vec::new()];
            for j in 0..2 * len {
                let w = (order >> j & 1) as usize;
                got[w].extend(its[w].next());
            }
            got[0] == want && got[1] == want
        });
        case.steps(2 * u64::from(len));
        case.state(&order);
        case.validated();
        if r != Ok(true) {
            case.fail(|| format!("two expansions in the order {order:b}: {r:?}\n{t:?}"));
        }
    });

    // expansions of two objects, in every order of their steps, handed over between threads
    let mut texts: Vec<String> = Vec::new();
    for r in ["FREQ=DAILY;COUNT=3", "FREQ=DAILY;INTERVAL=2", "FREQ=MONTHLY", "FREQ=YEARLY", "FREQ=HOURLY;UNTIL=20240201T000000Z"] {
        for d in ["20240131T100000Z", "20240131", "20240331T003000Z", "20240229T100000"] {
            for x in ["X-A:1", "EXDATE:20240201T100000Z,20240301"] {
                texts.push(event(&[&format!("DTSTART:{d}"), &format!("RRULE:{r}"), x]));
            }
        }
    }
    let orders: Vec<u32> = (0..64).filter(|o: &u32| o.count_ones() == 3).collect();
    let n = texts.len();
    run.family("expansions of two objects", product(&[n, n, orders.len(), 2]), |i, case| {
        let mut d = Dec(i);
        let (a, b) = (d.of(&texts), d.of(&texts));
        let order = *d.of(&orders);
        let threads = d.take(2) == 1;
        if threads && !run.thorough() && order != 0b010101 {
            return;
        }
        let r = imp(|| {
            let (Ok(x), Ok(y)) = (a.parse::<ikal::VEvent>(), b.parse::<ikal::VEvent>()) else { return true };
            let want: Vec<Vec<ikal::VEvent>> = [a, b].map(|t| t.parse::<ikal::VEvent>().unwrap().recurrent().take(3).collect()).to_vec();
            let mut its = [x.recurrent(), y.recurrent()];
            let mut got = vec![Vec::new(), Vec::new()];
            for j in 0..6 {
                let w = (order >> j & 1) as usize;
                let next = if threads {
                    let it = &mut its[w];
                    std::thread::scope(|s| s.spawn(|| it.next()).join().unwrap())
                } else {
                    its[w].next()
                };
                got[w].extend(next);
            }
            got == want
        });
        case.steps(6);
        case.state(&(a, b, order));
        case.validated();
        if r != Ok(true) {
            case.fail(|| format!("two expansions in the order {order:b}, on threads: {threads}: {r:?}\n{a:?}\n{b:?}"));
        }
    });
}
