//! Command line shared by the check programs.

use crate::engine::{self, Run, Tier};
use std::collections::BTreeMap;
use std::io::BufRead as _;
use std::time::{Duration, Instant};

/// A property's check.
pub struct Info {
    pub id: &'static str,
    /// Local time zones it is explored in; the last ones only in the thorough tier.
    pub zones: &'static [&'static str],
    pub more_zones: &'static [&'static str],
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&Run),
}

fn worker(registry: &[Info], args: &[String]) -> i32 {
    let (id, zone, tier) = (&args[0], &args[1], Tier::parse(&args[2]));
    let zones = registry.iter().find(|x| x.id == id).map_or(1, |x| x.zones.len().max(1)) as u64;
    let only = (args.len() >= 5).then(|| (args[3].clone(), args[4].parse::<u64>().unwrap()));
    let budget = match tier {
        // all zones together stay below a quarter of an hour
        Tier::Quick => Duration::from_secs(600 / zones),
        Tier::Thorough => Duration::from_secs(3600),
    };
    engine::install_handlers();
    let run = Run::new(tier, zone, only, budget);
    std::thread::scope(|s| {
        s.spawn(|| run.watchdog());
        if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (registry.iter().find(|x| x.id == id).unwrap().run)(&run))) {
            println!("\nHARNESS\t{}", esc(&engine::panic_message(&*e)));
            std::process::exit(2);
        }
        let counts = run.counts();
        let out = run.finish();
        if let Some(p) = &out.harness_panic {
            println!("\nHARNESS\t{}", esc(p));
        }
        for (n, size, done, complete) in &out.families {
            println!("FAMILY\t{}\t{size}\t{done}\t{complete}", esc(n));
        }
        for v in &out.violations {
            println!("VIOL\t{}\t{}\t{}", esc(&v.family), v.index, esc(&v.what));
        }
        println!("NVIOL\t{}", out.n_violations);
        for (k, (n, s)) in &out.known {
            println!("KNOWN\t{k}\t{n}\t{}", esc(s));
        }
        for s in &out.samples {
            println!("SAMPLE\t{}", esc(s));
        }
        println!("COUNTS\t{}\t{}\t{}\t{}", counts.0, counts.1, counts.2, counts.3);
        println!("DONE");
    });
    0
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t")
}

fn unesc(s: &str) -> String {
    let mut out = String::new();
    let mut cs = s.chars();
    while let Some(c) = cs.next() {
        if c == '\\' {
            match cs.next() {
                Some('n') => out.push('\n'),
                Some('r') => out.push('\r'),
                Some('t') => out.push('\t'),
                Some(c) => out.push(c),
                None => (),
            }
        } else {
            out.push(c);
        }
    }
    out
}

pub fn json(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

#[derive(Default)]
struct Result_ {
    violations: Vec<(String, String, u64, String)>, // zone, family, index, what
    n_violations: u64,
    known: BTreeMap<String, (u64, String)>,
    samples: Vec<String>,
    families: Vec<String>,
    complete: bool,
    counts: (u64, u64, u64, u64),
    errors: Vec<String>,
}

fn run_worker(id: &str, zone: &str, tier: Tier, only: Option<(&str, u64)>, res: &mut Result_) {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("worker").arg(id).arg(zone).arg(tier.name());
    if let Some((f, i)) = only {
        cmd.arg(f).arg(i.to_string());
    }
    cmd.env("TZ", zone).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
    let mut child = cmd.spawn().expect("spawn worker");
    let out = std::io::BufReader::new(child.stdout.take().unwrap());
    let mut fams: Vec<String> = Vec::new();
    let mut done = false;
    let mut stopped = false;
    for line in out.split(b'\n') {
        let Ok(line) = line else { break };
        let line = String::from_utf8_lossy(&line).into_owned();
        let f: Vec<&str> = line.split('\t').collect();
        match f[0] {
            "FAM" => fams.push(unesc(f[2])),
            "FAMILY" => {
                res.families.push(format!("{zone}: {} {}/{}", unesc(f[1]), f[3], f[2]));
                res.complete &= f[4] == "true";
            }
            "VIOL" => res.violations.push((zone.into(), unesc(f[1]), f[2].parse().unwrap(), unesc(f[3]))),
            "NVIOL" => res.n_violations += f[1].parse::<u64>().unwrap(),
            "KNOWN" => {
                let e = res.known.entry(f[1].to_string()).or_insert((0, unesc(f[3])));
                e.0 += f[2].parse::<u64>().unwrap();
            }
            "SAMPLE" => res.samples.push(format!("[{zone}] {}", unesc(f[1]))),
            "COUNTS" => {
                let n = |i: usize| f[i].parse::<u64>().unwrap();
                res.counts.0 += n(1);
                res.counts.1 += n(2);
                res.counts.2 += n(3);
                res.counts.3 += n(4);
            }
            "HARNESS" => res.errors.push(unesc(f[1])),
            "CRASH" | "HANG" => {
                stopped = true;
                let fam = f[1].parse::<usize>().ok().and_then(|i| fams.get(i)).cloned().unwrap_or_default();
                let what = if f[0] == "HANG" {
                    format!("doesn't terminate within {} s", engine::HANG_MS / 1000)
                } else {
                    "aborts the process (stack overflow or exhausted memory)".to_string()
                };
                match f[2].parse::<u64>() {
                    Ok(i) if i != u64::MAX => {
                        res.violations.push((zone.into(), fam, i, what));
                        res.n_violations += 1;
                    }
                    _ => res.errors.push(format!("worker aborted in {fam}")),
                }
            }
            "DONE" => done = true,
            _ => (),
        }
    }
    let status = child.wait().unwrap();
    if !done && !stopped {
        res.errors.push(format!("worker for {zone} ended early: {status}"));
    }
}

fn known_ids(verif: &str, id: &str) -> Vec<String> {
    let s = std::fs::read_to_string(format!("{verif}/known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter(|l| l.starts_with("known: "))
        .filter(|l| l.split_whitespace().any(|x| x == format!("property={id}")))
        .filter_map(|l| l.split_whitespace().find_map(|x| x.strip_prefix("id=")).map(ToString::to_string))
        .collect()
}

fn check(registry: &[Info], id: &str, verif: &str) -> i32 {
    let start = Instant::now();
    let tier = Tier::parse(&std::env::var("VERIF_TIER").unwrap_or_default());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(1);
    let Some(info) = registry.iter().find(|x| x.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let mut res = Result_ { complete: true, ..Default::default() };
    let zones: Vec<&str> = match tier {
        Tier::Quick => info.zones.to_vec(),
        Tier::Thorough => info.zones.iter().chain(info.more_zones).copied().collect(),
    };
    for zone in &zones {
        run_worker(id, zone, tier, None, &mut res);
    }

    let listed = known_ids(verif, id);
    for (k, (n, s)) in &res.known {
        if listed.contains(k) {
            println!("KNOWN-FINDING: property={id} {k}: {s} ({n} executions)");
        } else {
            res.n_violations += 1;
            res.violations.push(("-".into(), format!("finding {k}"), 0, s.clone()));
        }
    }

    let dir = format!("{verif}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    let mut shown = 0;
    for (n, (zone, fam, idx, what)) in res.violations.iter().enumerate() {
        let path = format!("{dir}/{id}-{n}.replay");
        let text = format!(
            "property: {id}\nzone: {zone}\ntier: {}\nfamily: {}\nindex: {idx}\n\n{what}\n",
            tier.name(),
            esc(fam)
        );
        std::fs::write(&path, text).unwrap();
        if shown < 5 {
            shown += 1;
            println!("VIOLATION property={id} replay={path}");
            for l in what.lines().take(40) {
                println!("    {l}");
            }
        }
    }

    let (states, transitions, executions, unspecified) = res.counts;
    let samples: Vec<String> = res.samples.iter().take(24).map(|x| json(x)).collect();
    let families: Vec<String> = res.families.iter().map(|x| json(x)).collect();
    let evidence = format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {states},\n  \"transitions\": {transitions},\n  \"traces_validated_against_impl\": {executions},\n  \"left_open_by_the_model\": {unspecified},\n  \"exhaustive\": {},\n  \"rule\": {},\n  \"families\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json(id),
        tier.name(),
        res.complete,
        json(info.rule),
        families.join(", "),
        samples.join(", "),
        info.assumptions.iter().map(|x| json(x)).collect::<Vec<_>>().join(", "),
        start.elapsed().as_secs_f64(),
        res.n_violations,
    );
    std::fs::write(format!("{verif}/evidence/{id}.json"), evidence).unwrap();
    println!(
        "{id} {}: {states} states, {transitions} transitions, {executions} executions validated, {unspecified} left open, {} violations, {:.1} s{}",
        tier.name(),
        res.n_violations,
        start.elapsed().as_secs_f64(),
        if res.complete { "" } else { " (time budget hit, not complete)" },
    );
    if res.n_violations > 0 {
        return 1;
    }
    if !res.errors.is_empty() {
        for e in &res.errors {
            eprintln!("error of the check: {e}");
        }
        return 2;
    }
    if executions == 0 {
        eprintln!("error of the check: nothing explored");
        return 2;
    }
    0
}

fn replay(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| {
        s.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.trim().to_string()).unwrap_or_default()
    };
    let (id, zone, fam) = (get("property:"), get("zone:"), unesc(&get("family:")));
    let tier = Tier::parse(&get("tier:"));
    let idx: u64 = get("index:").parse().unwrap();
    let mut res = Result_ { complete: true, ..Default::default() };
    run_worker(&id, &zone, tier, Some((&fam, idx)), &mut res);
    for (_, fam, idx, what) in &res.violations {
        println!("VIOLATION property={id} replay={path}\n{fam}[{idx}]: {what}");
    }
    for e in &res.errors {
        println!("error: {e}");
    }
    i32::from(!res.violations.is_empty())
}

pub fn main(registry: &[Info], probe: fn(&[String]) -> i32) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string());
    let code = match args.first().map(String::as_str) {
        Some("check") => check(registry, &args[1], &verif),
        Some("worker") => worker(registry, &args[1..]),
        Some("replay") => replay(&args[1]),
        Some("probe") => probe(&args[1..]),
        Some("list") => {
            for x in registry {
                println!("{}", x.id);
            }
            0
        }
        _ => {
            eprintln!("usage: check ID | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
