#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = {
 "C01": "every input of the stated spaces is given to the real entry points; panics, aborts, overflow and non-termination (40 s) are violations",
 "C20": "every sequence of operations to the stated depth, on one thread and handed over between threads, against the answers of fresh processes",
}
DEFAULT = "every element of the stated finite space is executed on the real code and compared with an independent reference model; nothing outside the space is claimed"
TECH = {
 "C14": "explicit enumeration of recurrence rules, starts and exceptions, each expanded by the real iterator and compared with a brute-force reference set",
 "C15": "explicit enumeration of rules and components, every reached occurrence expanded again and compared with the rest of the history",
 "C16": "explicit enumeration of rules and windows, compared with the filtered reference expansion",
 "C17": "explicit enumeration of rules, starts and time zones, every step of the real iterator checked for progress",
 "C20": "bounded exhaustive exploration of operation histories and thread hand-overs on the real code, differential against fresh processes",
 "C19": "explicit enumeration of macro invocations compared with the parsed component",
}
DEFTECH = "bounded exhaustive exploration of documents (production by production, all values of small alphabets), every one executed on the real code and compared with a reference model"
done = sys.argv[1:] or [p["id"] for p in props]
m = {
 "version": 1,
 "setup_cmd": "bash check.sh --build",
 "checks": [
  {
   "property": p["id"],
   "quick_cmd": f"bash check.sh {p['id']} quick",
   "thorough_cmd": f"bash check.sh {p['id']} thorough",
   "technique": "model checking: " + TECH.get(p["id"], DEFTECH),
   "level": "model_checking",
   "level_note": NOTE.get(p["id"], DEFAULT),
  }
  for p in props if p["id"] in done
 ],
 "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in done],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
