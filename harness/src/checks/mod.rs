//! The checks, one module per group of properties.

use crate::cli::Info;
use crate::engine::{Case, imp};
use crate::model::{self, Kind, Obs, R};
use crate::obs::Any;

pub mod api;
pub mod comps;
pub mod cost;
pub mod groups;
pub mod history;
pub mod lines;
pub mod recur;
pub mod ser;
pub mod total;
pub mod values;
pub mod zones;

pub const REGISTRY: &[Info] = &[total::C01, lines::C02, lines::C03, comps::C04, comps::C05, values::C06, values::C08, values::C09, values::C10, values::C21, zones::C07, zones::C17, zones::C18, recur::C14, recur::C15, recur::C16, history::C20, ser::C11, ser::C12, ser::C13, ser::C22, api::C23, api::C24, recur::C25, api::C26, api::C27, api::C28, recur::C29, cost::C30];

pub fn probe(args: &[String]) -> i32 {
    history::probe(args)
}

/// What the library makes of a document.
pub fn library(kind: Kind, text: &str) -> Result<Option<(Any, Obs)>, String> {
    imp(|| Any::parse(kind, text).ok().map(|x| {
        let o = x.obs();
        (x, o)
    }))
}

/// Parses a document with the library and compares the outcome with the reference.
pub fn judge(case: &mut Case, kind: Kind, text: &str, steps: u64) -> Option<(Any, Obs)> {
    let want = model::parse(kind, text);
    judge_with(case, kind, text, steps, &want)
}

pub fn judge_with(case: &mut Case, kind: Kind, text: &str, steps: u64, want: &R<Obs>) -> Option<(Any, Obs)> {
    case.steps(steps);
    case.state(&(kind, want));
    let got = library(kind, text);
    case.sample(|| format!("{kind:?} {text:?} => {}", brief(want)));
    match (want, got) {
        (R::Unspec, g) => {
            case.unspecified();
            g.ok().flatten()
        }
        (_, Err(p)) => {
            case.fail(|| format!("parsing as {kind:?} {p}\n{text:?}"));
            None
        }
        (R::Bad, Ok(None)) => {
            case.validated();
            None
        }
        (R::Bad, Ok(Some((_, o)))) => {
            case.fail(|| format!("accepted as {kind:?}, must be refused\n{text:?}\ngives {o:?}"));
            None
        }
        (R::Ok(w), Ok(None)) => {
            case.fail(|| format!("refused as {kind:?}, must be accepted\n{text:?}\nmeans {w:?}"));
            None
        }
        (R::Ok(w), Ok(Some((a, o)))) => {
            case.validated();
            if *w != o {
                case.fail(|| format!("misread as {kind:?}\n{text:?}\n{}", diff(w, &o)));
            }
            Some((a, o))
        }
    }
}

pub fn brief(r: &R<Obs>) -> String {
    match r {
        R::Ok(o) => format!("{o:?}"),
        R::Bad => "refused".into(),
        R::Unspec => "open".into(),
    }
}

/// First difference of two observations.
pub fn diff(want: &Obs, got: &Obs) -> String {
    if want.kind != got.kind {
        return format!("kind: expected {:?}, got {:?}", want.kind, got.kind);
    }
    let keys = |a: &Obs, b: &Obs| a.fields.keys().chain(b.fields.keys()).copied().collect::<std::collections::BTreeSet<_>>();
    for k in keys(want, got) {
        if want.get(k) != got.get(k) {
            return format!("{k}: expected {:?}, got {:?}", want.get(k), got.get(k));
        }
    }
    if want.x != got.x {
        return format!("X- properties: expected {:?}, got {:?}", want.x, got.x);
    }
    if want.iana != got.iana {
        return format!("extension properties: expected {:?}, got {:?}", want.iana, got.iana);
    }
    let names = want.kids.keys().chain(got.kids.keys()).copied().collect::<std::collections::BTreeSet<_>>();
    for k in names {
        let (a, b) = (want.kids.get(k), got.kids.get(k));
        if a != b {
            let (a, b) = (a.map_or(&[][..], |x| x), b.map_or(&[][..], |x| x));
            if a.len() != b.len() {
                return format!("{k}: expected {}, got {}", a.len(), b.len());
            }
            for (i, (a, b)) in a.iter().zip(b).enumerate() {
                if a != b {
                    return format!("{k}[{i}]: {}", diff(a, b));
                }
            }
        }
    }
    "equal".into()
}

/// Serialises a component, reads it back and compares, twice.
/// Returns the text.
pub fn roundtrip(case: &mut Case, kind: Kind, any: &Any) -> Option<String> {
    let o1 = any.obs();
    let r = imp(|| {
        let t1 = any.ical().map_err(|e| format!("serialising: {e}"))?;
        let b = Any::parse(kind, &t1).map_err(|e| format!("reading {t1:?} back: {e}"))?;
        let t2 = b.ical().map_err(|e| format!("serialising again: {e}"))?;
        Ok::<_, String>((t1, b, t2))
    });
    let (t1, b, t2) = match r {
        Ok(Ok(x)) => x,
        Ok(Err(e)) | Err(e) => {
            case.fail(|| format!("{kind:?} {e}\n{o1:?}"));
            return None;
        }
    };
    case.validated();
    let o2 = b.obs();
    if o1 != o2 || *any != b {
        let (n1, n2) = (model::normal_obs(&o1), model::normal_obs(&o2));
        let n3 = model::normal_obs(&quotes(&o1));
        if n1 != n3 && n2 == n3 {
            case.known("parameter-quote", || format!("{kind:?}: a double quote inside an unquoted parameter value becomes a single one: {t1:?}"));
        } else if n1 == n2 && has_loose_text(&o1) {
            // only the escaping of a text which wasn't completely escaped differs
            case.known("loose-text", || format!("{kind:?} with {} isn't equal after serialise and parse", loose_text(&o1)));
        } else {
            case.fail(|| format!("{kind:?} not equal after serialise and parse: {}\n{t1:?}", diff(&o1, &o2)));
        }
    }
    if t1 != t2 {
        case.fail(|| format!("{kind:?} serialises differently the second time\n{t1:?}\n{t2:?}"));
    }
    Some(t1)
}

/// The component with the double quotes in its parameter values made single ones.
pub fn quotes(o: &Obs) -> Obs {
    use model::Val;
    let ps = |p: &model::Params| p.iter().map(|(k, v)| (k.clone(), v.replace('"', "'"))).collect();
    let one = |v: &Val| match v {
        Val::Text(p, s) => Val::Text(ps(p), s.clone()),
        Val::Uri(p, s) => Val::Uri(ps(p), s.clone()),
        Val::Line(p, s) => Val::Line(ps(p), s.clone()),
        v => v.clone(),
    };
    let map = |m: &std::collections::BTreeMap<String, Val>| m.iter().map(|(k, v)| (k.clone(), one(v))).collect();
    Obs {
        kind: o.kind,
        fields: o.fields.iter().map(|(k, v)| (*k, v.iter().map(one).collect())).collect(),
        x: map(&o.x),
        iana: map(&o.iana),
        kids: o.kids.iter().map(|(k, v)| (*k, v.iter().map(quotes).collect())).collect(),
    }
}

fn loose_val(v: &model::Val) -> Option<String> {
    use model::Val;
    match v {
        Val::Text(_, s) if !model::well_escaped(s) => Some(s.clone()),
        Val::RStat(_, d, e) if !model::well_escaped(d) || e.as_deref().is_some_and(|x| !model::well_escaped(x)) => {
            Some(format!("{d};{e:?}"))
        }
        Val::Custom(c) if !model::well_escaped(c) || *c != c.to_uppercase() => Some(c.clone()),
        _ => None,
    }
}

fn loose(o: &Obs) -> Option<String> {
    o.fields
        .iter()
        .flat_map(|(k, v)| v.iter().map(move |v| (k, v)))
        .find_map(|(k, v)| loose_val(v).map(|s| format!("{k} {s:?}")))
        .or_else(|| o.kids.values().flatten().find_map(loose))
}

pub fn has_loose_text(o: &Obs) -> bool {
    loose(o).is_some()
}

pub fn loose_text(o: &Obs) -> String {
    loose(o).unwrap_or_default()
}

/// Every small number, and those around powers of two and ten, up to `top`.
pub fn numbers(top: usize) -> Vec<usize> {
    let mut out: Vec<usize> = (0..=20).collect();
    for p in (5..24).map(|p| 1usize << p).chain((2..8).map(|p| 10usize.pow(p))).chain([300, 500, 2_500, 5_000, 20_000, 50_000]) {
        out.extend([p - 1, p, p + 1, p + 2]);
    }
    out.retain(|n| *n <= top);
    out.sort_unstable();
    out.dedup();
    out
}
