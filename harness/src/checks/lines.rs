//! C02 content lines, C03 folding.

use super::judge;
use crate::cli::Info;
use crate::docs;
use crate::engine::{Dec, Run, concat_at, product, strings_count};
use crate::model::{KINDS, Kind};

pub const C02: Info = Info {
    id: "C02",
    zones: &["UTC"],
    more_zones: &[],
    rule: "every string up to the length bound over the structural characters, after each kind of line start, inside a component; every combination of parameter forms, values, line ends, positions and property kinds; every length and parameter count up to the bound",
    assumptions: &[
        "several quoted values of one parameter, '/' in names and quotes inside unquoted values are left open",
    ],
    run: c02,
};

fn within(line: &str) -> String {
    format!(
        "BEGIN:VEVENT\r\nDTSTAMP:20240102T030405Z\r\nUID:1\r\n{line}DTSTART:20240105\r\nCOMMENT:tail\r\nEND:VEVENT\r\n"
    )
}

fn c02(run: &Run) {
    let starts: &[&str] = &["", "X-N", "SUMMARY", "URL;P=", "X-N;P=\"", "COMMENT;A=b;C"];
    let alphabet: &[&str] = &["a", "-", ";", ":", "=", ",", "\"", " ", "\u{e9}"];
    let max = run.pick(6, 7);
    for s in starts {
        let n = strings_count(alphabet.len(), 0, max);
        run.family(&format!("strings after {s:?}"), n, |i, case| {
            let (t, k) = concat_at(alphabet, 0, i);
            judge(case, Kind::Event, &within(&format!("{s}{t}\r\n")), k);
        });
    }

    // line ends of every form, anywhere
    let alphabet: &[&str] = &["A", ";", ":", "=", "\"", "\r\n", "\n", "\r", "\t", "\\"];
    let max = run.pick(5, 6);
    for (s, e) in [("X-N", "\r\n"), ("SUMMARY;P=", "\n"), ("COMMENT:", "\r\n"), ("", "\r\n")] {
        let n = strings_count(alphabet.len(), 0, max);
        run.family(&format!("line ends after {s:?} before {e:?}"), n, |i, case| {
            let (t, k) = concat_at(alphabet, 0, i);
            judge(case, Kind::Event, &within(&format!("{s}{t}{e}")), k);
        });
    }

    // every combination of parameters
    let names: &[&str] = &["A", "B", "LANGUAGE", "X-1"];
    let forms: &[&str] = &[
        "", "v", "V W", "a=b", "\u{e9}\u{1f600}", "\"\"", "\"a:b;c,d\"", "\"\u{e9}=1\"", "x\\n", "\"\\\"", "\"=\"", ",",
        "\t", "mailto%3A", "\"END:VEVENT\"",
    ];
    let values: &[&str] = &["", "v", ":", ";x=y:z", "\"", "\"q:r\" ", "\\;\\,", "\u{e9}", " lead", "END:VEVENT", "\\"];
    let props: &[&str] = &["SUMMARY", "URL", "ATTACH", "X-EXT", "IANA", "COMMENT", "ORGANIZER", "x1"];
    let eols: &[&str] = &["\r\n", "\n"];
    for count in 0..=run.pick(2usize, 3) {
        let n = product(&[props.len(), values.len(), eols.len(), 2]) * ((names.len() * forms.len()) as u64).pow(count as u32);
        run.family(&format!("{count} parameters"), n, |i, case| {
            let mut d = Dec(i);
            let (p, v, e, pos) = (*d.of(props), *d.of(values), *d.of(eols), d.take(2));
            let mut line = p.to_string();
            for _ in 0..count {
                let (name, form) = (*d.of(names), *d.of(forms));
                line.push_str(&format!(";{name}={form}"));
            }
            line.push_str(&format!(":{v}{e}"));
            let text = if pos == 0 {
                within(&line)
            } else {
                format!("BEGIN:VEVENT\r\nDTSTAMP:20240102T030405Z{e}UID:1\r\nDTSTART:20240105{e}{line}END:VEVENT\r\n")
            };
            judge(case, Kind::Event, &text, 3 + count as u64);
        });
    }

    // the same line as first, middle and last one of every kind of component
    let lines: &[&str] = &[
        "X-L:v", "X-L;A=1:v", "X-L;A=\"1:2\":v;w", "IANA;A=1;B=2;A=3:v", "X-L", "X-L;", "X-L;A", "X-L;A=", "X-L;A=b",
        "X-L;A=\"", "X-L;A=\"b", "X-L;A=\"b\"", "X-L;A=\"b\"c:d", "X-L;A=\"b\" :d", ":v", ";A=1:v", "=", " ", "",
        "X_L:v", "X-L :v", "X-L; A=1:v", "X-L;A =1:v", "X-L;:v", "X-L;A:v", "X-L;=1:v", "X-L;;A=1:v", "X-L;A=1;:v",
        "\u{e9}:v", "X-\u{e9}:v", "0:1", "-:-", "BEGINX:v", "ENDING:v", "END-X:v",
    ];
    let n = product(&[KINDS.len(), lines.len(), 2, 8]);
    run.family("line positions", n, |i, case| {
        let mut d = Dec(i);
        let (kind, line, eol, pos) = (*d.of(&KINDS), *d.of(lines), *d.of(eols), d.take(8));
        let base = docs::base(kind);
        let at = pos.min(base.len());
        let mut s = format!("BEGIN:{}\r\n", kind.tag());
        for k in 0..=base.len() {
            if k == at {
                s.push_str(line);
                s.push_str(eol);
            }
            if let Some(l) = base.get(k) {
                s.push_str(l);
                s.push_str(eol);
            }
        }
        s.push_str(&format!("END:{}\r\n", kind.tag()));
        judge(case, kind, &s, 4);
    });

    // sizes
    let top = run.pick(300u64, 1200);
    run.family("number of parameters", top, |i, case| {
        let mut line = "COMMENT".to_string();
        for k in 0..i {
            match k % 3 {
                0 => line.push_str(&format!(";P{k}=v{k}")),
                1 => line.push_str(&format!(";P{k}=\"{k}:;,\"")),
                _ => line.push_str(&format!(";P{}={k}", k / 2)),
            }
        }
        judge(case, Kind::Event, &within(&format!("{line}:v{i}\r\n")), i + 1);
    });
    let chars: &[&str] = &["a", "\u{e9}", "\u{20ac}", "\u{1f600}", ";", "\\", ":"];
    let top = run.pick(400usize, 3000);
    run.family("length of values", (top * chars.len()) as u64, |i, case| {
        let mut d = Dec(i);
        let c = *d.of(chars);
        let n = d.take(top);
        judge(case, Kind::Event, &within(&format!("SUMMARY:{}\r\nX-A;P=\"{}\":{}\r\n", c.repeat(n), c.repeat(n), c.repeat(n))), 3);
    });
    run.family("length of names", top as u64, |i, case| {
        let n = i as usize;
        judge(
            case,
            Kind::Event,
            &within(&format!("X-{}:1\r\nI{};{}=2:3\r\nCOMMENT;P={}:x\r\n", "a".repeat(n), "B".repeat(n), "k".repeat(n + 1), "v".repeat(n))),
            4,
        );
    });
    // sizes around 2^16, where a counter could wrap
    let sizes: Vec<usize> = vec![4095, 4096, 8191, 8192, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 131_072];
    run.family("large values", (sizes.len() * 3) as u64, |i, case| {
        let mut d = Dec(i);
        let n = *d.of(&sizes);
        let line = match d.take(3) {
            0 => format!("SUMMARY:{}\r\n", "v".repeat(n)),
            1 => format!("X-A;P={}:v\r\n", "p".repeat(n)),
            _ => format!("X-A;P=\"{}\":v\r\n", "\u{e9}".repeat(n)),
        };
        judge(case, Kind::Event, &within(&line), 1);
    });
    let ns = super::numbers(run.pick(5_002, 70_000));
    run.tight("great numbers", product(&[ns.len(), 4]), |i, case| {
        let mut d = Dec(i);
        let n = *d.of(&ns);
        let text = match d.take(4) {
            0 => format!("COMMENT{}:v\r\n", (0..n).map(|k| format!(";P{k}=v{k}")).collect::<String>()),
            1 => format!("COMMENT{}:v\r\n", (0..n).map(|k| format!(";P{}=\"{k}\"", k % 7)).collect::<String>()),
            2 => (0..n).map(|k| format!("COMMENT;P={k}:{k}\r\n")).collect(),
            _ => (0..n).map(|k| format!("X-{k};P={k}:{k}\n")).collect(),
        };
        judge(case, Kind::Event, &within(&text), n as u64);
    });
    // all that three characters may mean together
    let chars: Vec<char> = (0x20u8..0x7f).map(char::from).chain(['\t', '\0', '\u{7f}', '\u{e9}']).collect();
    let n = chars.len();
    run.family("three characters", product(&[n, n, n]), |i, case| {
        let mut d = Dec(i);
        let s: String = (0..3).map(|_| *d.of(&chars)).collect();
        let quoted = s.replace('"', "'");
        let bare = quoted.replace([';', ':'], "-");
        judge(case, Kind::Event, &within(&format!("SUMMARY;P={bare};Q=\"{quoted}\":{s}\r\nX-A;P=\"{quoted}\":{s}\r\nURL;P={bare}:{s}\r\n")), 3);
    });
    // every character there is, in each part of a line
    run.family("every character", 0x11_0000 * 2, |i, case| {
        let Some(c) = char::from_u32((i / 2) as u32) else { return };
        let line = match i % 2 {
            0 => format!("SUMMARY;P=a{c}b;Q=\"{c}\":{c}a{c}\r\n"),
            _ => format!("X-A{c}:1\r\n"),
        };
        judge(case, Kind::Event, &within(&line), 1);
        if i < 0x3000 {
            for line in [format!("{c}:1\r\n"), format!("X-A;{c}=1:2\r\n"), format!("X-A;P{c}Q=1:2\r\n"), format!("X-A;P=\"1\"{c}:2\r\n"), format!("X-A{c}")] {
                judge(case, Kind::Event, &within(&line), 1);
            }
        }
    });
}

pub const C03: Info = Info {
    id: "C03",
    zones: &["UTC"],
    more_zones: &[],
    rule: "every single fold position of every kind's full documents, every pair of positions inside each property line (and every triple inside short ones), with space and tab; every run of white space after a fold",
    assumptions: &[],
    run: c03,
};

fn bounds(s: &str) -> Vec<usize> {
    let b = s.as_bytes();
    s.char_indices()
        .map(|x| x.0)
        .chain([s.len()])
        .filter(|p| !(*p > 0 && *p < b.len() && b[*p] == b'\n' && b[*p - 1] == b'\r'))
        .collect()
}

fn folded(s: &str, at: &[(usize, &str)]) -> String {
    let mut out = String::new();
    let mut from = 0;
    for (p, ws) in at {
        out.push_str(&s[from..*p]);
        out.push_str("\r\n");
        out.push_str(ws);
        from = *p;
    }
    out.push_str(&s[from..]);
    out
}

fn c03(run: &Run) {
    let ws: &[&str] = &[" ", "\t"];

    let fold = |case: &mut crate::engine::Case, kind: Kind, text: &str, at: &[(usize, &str)]| {
        let f = folded(text, at);
        let got = judge(case, kind, &f, at.len() as u64);
        // and directly: same value as the unfolded text
        let plain = super::library(kind, text).ok().flatten();
        if got.as_ref().map(|x| &x.0) != plain.as_ref().map(|x| &x.0) {
            case.fail(|| format!("folding changes the {kind:?}\n{f:?}\ninstead of\n{text:?}"));
        }
    };

    // every single position
    for kind in KINDS {
        for w in 0..run.pick(1, 3) {
            let text = docs::full_doc(kind, w);
            // not before the first line, nor after the last one
            let pos: Vec<usize> = bounds(&text).into_iter().filter(|p| *p > 0 && *p < text.len()).collect();
            run.family(&format!("{kind:?} {w}: single folds"), (pos.len() * 2) as u64, |i, case| {
                let mut d = Dec(i);
                let w = *d.of(ws);
                fold(case, kind, &text, &[(*d.of(&pos), w)]);
            });
        }
    }

    // every pair inside each property line
    let mut seen = std::collections::BTreeSet::new();
    for kind in KINDS {
        let mut lines = docs::lines(kind);
        if !run.thorough() {
            // one kind is enough for a line
            lines.retain(|x| seen.insert(x.clone()));
        }
        let base = docs::base(kind);
        let mut spaces: Vec<(String, Vec<usize>)> = Vec::new();
        for l in &lines {
            let mut ls = base.clone();
            ls.push(l.clone());
            let text = docs::doc(kind, &ls, "");
            let from = text.rfind(&format!("\r\n{l}\r\n")).unwrap() + 2;
            let pos = bounds(&text).into_iter().filter(|p| *p >= from && *p <= from + l.len()).collect();
            spaces.push((text, pos));
        }
        let sizes: Vec<u64> = spaces.iter().map(|x| (x.1.len() * x.1.len()) as u64 * 4).collect();
        run.family(&format!("{kind:?}: pairs of folds"), sizes.iter().sum(), |i, case| {
            let mut i = i;
            let mut k = 0;
            while i >= sizes[k] {
                i -= sizes[k];
                k += 1;
            }
            let (text, pos) = &spaces[k];
            let mut d = Dec(i);
            let (a, b) = (d.take(pos.len()), d.take(pos.len()));
            if a > b {
                return;
            }
            let (x, y) = (*d.of(ws), *d.of(ws));
            fold(case, kind, text, &[(pos[a], x), (pos[b], y)]);
        });
        if run.thorough() {
            let short: Vec<&(String, Vec<usize>)> = spaces.iter().filter(|x| x.1.len() <= 48).collect();
            let sizes: Vec<u64> = short.iter().map(|x| (x.1.len() as u64).pow(3)).collect();
            run.family(&format!("{kind:?}: triples of folds"), sizes.iter().sum(), |i, case| {
                let mut i = i;
                let mut k = 0;
                while i >= sizes[k] {
                    i -= sizes[k];
                    k += 1;
                }
                let (text, pos) = short[k];
                let mut d = Dec(i);
                let (a, b, c) = (d.take(pos.len()), d.take(pos.len()), d.take(pos.len()));
                if a > b || b > c {
                    return;
                }
                fold(case, kind, text, &[(pos[a], " "), (pos[b], "\t"), (pos[c], " ")]);
            });
        }
    }

    // folds at every n-th position of every line at once
    for kind in KINDS {
        let text = docs::full_doc(kind, 0);
        let pos: Vec<usize> = bounds(&text).into_iter().filter(|p| *p > 0 && *p < text.len()).collect();
        run.family(&format!("{kind:?}: regular folds"), 80 * 2, |i, case| {
            let mut d = Dec(i);
            let w = *d.of(ws);
            let n = d.take(80) + 1;
            let at: Vec<(usize, &str)> = pos.iter().copied().skip(n / 2).step_by(n).map(|p| (p, w)).collect();
            fold(case, kind, &text, &at);
        });
    }

    // white space around a fold is content
    let ws: &[&str] = &[" ", "\t", "a", "\u{e9}", "\r\n ", "\r\n\t", ";", "\u{a0}"];
    let max = run.pick(5, 7);
    let n = strings_count(ws.len(), 0, max);
    for (kind, head) in [(Kind::Event, "SUMMARY:"), (Kind::Todo, "X-A;P="), (Kind::Display, "DESCRIPTION:x"), (Kind::Event, "X-A;P=\"")] {
        run.family(&format!("white space after {head:?}"), n, |i, case| {
            let (t, k) = concat_at(ws, 0, i);
            let mut ls = docs::base(kind);
            let tail = match head {
                "X-A;P=" => ":v",
                "X-A;P=\"" => "\":v",
                _ => "",
            };
            ls.push(format!("{head}{t}{tail}"));
            ls.push("X-AFTER:1".into());
            judge(case, kind, &docs::doc(kind, &ls, ""), k);
        });
    }

    // nested components: folds inside a calendar, in names of components too
    let text = docs::in_calendar(&(docs::minimal(Kind::Event) + &docs::minimal(Kind::Todo)));
    let pos: Vec<usize> = bounds(&text).into_iter().filter(|p| *p > 0 && *p < text.len()).collect();
    let n = pos.len();
    run.family("calendar: pairs of folds", (n * n) as u64, |i, case| {
        let mut d = Dec(i);
        let (a, b) = (d.take(n), d.take(n));
        if a <= b {
            fold(case, Kind::Calendar, &text, &[(pos[a], " "), (pos[b], "\t")]);
        }
    });

    // many folds
    run.family("number of folds", run.pick(400, 3000), |i, case| {
        let mut ls = docs::base(Kind::Event);
        let mut t = "SUMMARY:".to_string();
        for k in 0..i {
            t.push_str(if k % 2 == 0 { "\r\n " } else { "\r\n\t" });
            t.push_str(["a", " ", "\u{e9}", ""][k as usize % 4]);
        }
        ls.push(t);
        judge(case, Kind::Event, &docs::doc(Kind::Event, &ls, ""), i);
    });
}
