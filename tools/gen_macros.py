#!/usr/bin/env python3
"""Writes macros/src/gen.rs: the invocations of the construction macros which C19 explores.

The list of properties is the one of the reference model (harness/src/model.rs)."""
import os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(here, "harness/src/model.rs")).read()
tables = {m[1]: re.findall(r'"([A-Z-]+)" (\w+) (\w+) (\w+);', m[2]) for m in re.finditer(r"table! \{ (\w+):(.*?)\n\}", src, re.S)}
KINDS = {
    "Calendar": ("CALENDAR", "Any::Calendar(ikal::vcalendar! {{ {} }}?)"),
    "Event": ("EVENT", "Any::Event(ikal::vevent! {{ {} }}?)"),
    "Todo": ("TODO", "Any::Todo(ikal::vtodo! {{ {} }}?)"),
    "Journal": ("JOURNAL", "Any::Journal(ikal::vjournal! {{ {} }}?)"),
    "Freebusy": ("FREEBUSY", "Any::Freebusy(ikal::vfreebusy! {{ {} }}?)"),
    "Timezone": ("TIMEZONE", "Any::Timezone(ikal::vtimezone! {{ {} }}?)"),
    "Standard": ("TZPART", "Any::Standard(ikal::vtimezone! {{ standard: [{{ {} }}] }}?.standard.remove(0))"),
    "Daylight": ("TZPART", "Any::Daylight(ikal::vtimezone! {{ daylight: [{{ {} }}] }}?.daylight.remove(0))"),
    "Audio": ("AUDIO", "Any::Alarm(ikal::valarm! {{ @audio, {} }}?)"),
    "Display": ("DISPLAY", "Any::Alarm(ikal::valarm! {{ @display, {} }}?)"),
    "Email": ("EMAIL", "Any::Alarm(ikal::valarm! {{ @email, {} }}?)"),
}
VARIANTS = {
    "Class": {"Public": "PUBLIC", "Private": "PRIVATE", "Confidential": "CONFIDENTIAL"},
    "Status": {"Tentative": "TENTATIVE", "Confirmed": "CONFIRMED", "Cancelled": "CANCELLED", "NeedsAction": "NEEDS-ACTION", "Completed": "COMPLETED", "InProcess": "IN-PROCESS", "Draft": "DRAFT", "Final": "FINAL"},
    "Transp": {"Opaque": "OPAQUE", "Transparent": "TRANSPARENT"},
}
FIXED = {"Class": ("Confidential", "CONFIDENTIAL"), "Status": ("InProcess", "IN-PROCESS"), "Transp": ("Transparent", "TRANSPARENT")}
NUM = {"U8": "u8", "Prio": "u8", "U32": "u32"}

def expr(ty, i):
    if ty in FIXED:
        return FIXED[ty][0]
    if ty in NUM:
        return f"num::<{NUM[ty]}>(a[{i}])"
    return f"a[{i}]"

def props(kind):
    # an RDATE can't be given as text
    return [(f, ty, mult) for _, f, ty, mult in tables[KINDS[kind][0]] if ty != "RDate"]

out = []
def put(table, kind, label, fields, body, elements=None):
    """fields: what the arguments stand for, in order"""
    tables_out.setdefault(table, []).append(
        f'    Call {{ kind: Kind::{kind}, label: "{label}", fields: &[{", ".join(chr(34) + f + chr(34) for f in fields)}], f: |a| Ok({KINDS[kind][1].format(body)}) }},')
tables_out = {}

for kind in KINDS:
    ps = props(kind)
    def entry(i, p, n=1):
        f, ty, mult = p
        if mult == "List":
            return f"{f}: [{', '.join(expr(ty, i + j) for j in range(n))}]"
        return f"{f}: {expr(ty, i)}"
    # one property
    for p in ps:
        f, ty, mult = p
        if ty in VARIANTS:
            for v, text in VARIANTS[ty].items():
                put("ONE", kind, f"{f}: {v}", [f + "=" + text], f"{f}: {v}")
            if ty == "Class":
                put("ONE", kind, f"{f}: Custom", [f], f"{f}: Custom(a[0].to_string())")
            continue
        put("ONE", kind, f, [f], entry(0, p))
        if mult == "List":
            put("ONE", kind, f + " none", [], f"{f}: []")
            put("ONE", kind, f + " two", [f, f], entry(0, p, 2))
            put("ONE", kind, f + " three", [f, f, f], entry(0, p, 3) + ",")
        else:
            put("ONE", kind, f + ",", [f], entry(0, p) + ",")
        if ty == "Geo":
            put("ONE", kind, "geo object", ["geo.lat", "geo.lon"], "geo: { lat: num::<f32>(a[0]), lon: num::<f32>(a[1]) }")
            put("ONE", kind, "geo object reversed", ["geo.lon", "geo.lat"], "geo: { lon: num::<f32>(a[0]), lat: num::<f32>(a[1]) }")
        if ty == "RStat":
            put("ONE", kind, "rstatus object", ["rstatus.statcode", "rstatus.statdesc"], "rstatus: [{ statcode: num::<f32>(a[0]), statdesc: a[1] }]")
            put("ONE", kind, "rstatus object with data", ["rstatus.statcode", "rstatus.statdesc", "rstatus.extdata"], "rstatus: [{ statcode: num::<f32>(a[0]), statdesc: a[1], extdata: a[2] }]")
    put("ONE", kind, "nothing", [], "")
    # all pairs
    for x in range(len(ps)):
        for y in range(x + 1, len(ps)):
            put("PAIRS", kind, f"{ps[x][0]} {ps[y][0]}", [(ps[x][0] + ("=" + FIXED[ps[x][1]][1] if ps[x][1] in FIXED else "")), ps[y][0] + ("=" + FIXED[ps[y][1]][1] if ps[y][1] in FIXED else "")], entry(0, ps[x]) + ", " + entry(1, ps[y]))
    # all properties, and all but one
    def name(p):
        return p[0] + ("=" + FIXED[p[1]][1] if p[1] in FIXED else "")
    def many(label, table, sel):
        put(table, kind, label, [name(p) for p in sel], ", ".join(entry(i, p) for i, p in enumerate(sel)))
    many("all", "ALL", ps)
    many("all reversed", "ALL", ps[::-1])
    for x in range(len(ps)):
        many(f"all but {ps[x][0]}", "ALL", ps[:x] + ps[x + 1:])
    # the required ones and one more
    req = [p for p in ps if p[2] == "Req"]
    for p in ps:
        if p[2] != "Req":
            many(f"required and {p[0]}", "REQUIRED", req + [p])
            many(f"{p[0]} and required", "REQUIRED", [p] + req)
    many("required", "REQUIRED", req)
    # fields that hold a value of their own type
    for p in ps:
        if p[1] in ("Text", "Uri") and p[2] != "List":
            ty = {"Text": "ikal::Text", "Uri": "ikal::Uri"}[p[1]]
            put("ONE", kind, f"{p[0]} String", [p[0]], f"{p[0]}: a[0].to_string()")
            put("ONE", kind, f"{p[0]} typed", [p[0]], f"{p[0]}: {ty}::from(a[0])")

with open(os.path.join(here, "macros/src/gen.rs"), "w") as o:
    o.write("// Written by tools/gen_macros.py.\n\nuse super::{Call, num};\nuse ikalmc::model::Kind;\nuse ikalmc::obs::Any;\n")
    for t, ls in tables_out.items():
        o.write(f"\npub const {t}: &[Call] = &[\n" + "\n".join(ls) + "\n];\n")
