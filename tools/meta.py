#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "xsd-types/src/types/"
P = []


def prop(id, title, st, over, q, why, files, mech, state=(), observe=(), level="proof", tech="deductive: MIR weakest-precondition style symbolic contracts (dv), regular-language + z3 back ends", note="", na=None):
    P.append(dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, state=state, observe=observe, level=level, tech=tech, note=note, na=na))


GT = [T + x + ".rs" for x in ("gday", "gmonth", "gmonthday", "gyear", "gyearmonth")]

prop("C01", "Timezone designators decode to exactly the offset they denote",
     "Parsing a timezone designator succeeds exactly for `Z` and for a sign followed by two-digit hours, a colon and two-digit minutes with minutes below 60 and magnitude at most 14:00, and yields exactly that signed offset from UTC (zero for `Z`). Every other text, including empty and non-ASCII text, is rejected with an error and never panics.",
     ["inputs"], "for every UTF-8 string given to the public timezone parser",
     "the unit test samples about twenty designators; neither all offsets nor all rejected strings (multi-byte, empty) are reached",
     [T + "utils.rs"], [{"name": "timezone parser", "where": T + "utils.rs"}], observe=["xsd_types::types::parse_timezone"],
     note="All UTF-8 strings, from MIR; assumed contracts: str/slice/iterator std functions and chrono FixedOffset constructors.")
prop("C02", "Gregorian date-part literals: exact acceptance and decoded value",
     "Parsing xs:gDay, xs:gMonth, xs:gMonthDay, xs:gYear and xs:gYearMonth succeeds exactly on their lexical form (two-digit day and month, at least four year digits with optional minus, optional timezone designator) when the value exists (day within its month with 29 days in February, month 1-12, year non-zero with magnitude at most 2147483647). The result carries exactly the written numbers and timezone (absent when none is written). Every other string gives an error, never a panic.",
     ["inputs"], "for every UTF-8 string given to each of the five parsers",
     "tests sample a dozen literals per type; splitting on signs interacts with negative years and negative offsets, and multi-byte text, in ways only all-string reasoning covers",
     GT + [T + "utils.rs"], [{"name": "from_str of each type", "where": "xsd-types/src/types/g*.rs"}], observe=["FromStr of GDay, GMonth, GMonthDay, GYear, GYearMonth"],
     note="All UTF-8 strings; parse_timezone executed inline, not assumed.")
prop("C03", "Gregorian constructors admit exactly the calendar values; parts keep data",
     "Constructing an xs:gDay, gMonth, gMonthDay, gYear or gYearMonth from numbers succeeds exactly when the number is a calendar value (day 1-31 and within its month, 29 in February; month 1-12; year non-zero) and stores the given numbers and timezone unchanged. Taking the month, day or year part of a combined value keeps that number and the timezone. Defaults are 1 (and month/day 1) with no timezone.",
     ["inputs"], "for all 32-bit integers and all timezone offsets",
     "no unit test calls the constructors with every month/day combination or with extreme integers",
     GT, [{"name": "new and part accessors", "where": "xsd-types/src/types/g*.rs"}], note="Loop-free: complete over i32.")
prop("C04", "Gregorian date-part values survive printing and parsing",
     "Printing any valid xs:gDay, gMonth, gMonthDay, gYear or gYearMonth never fails and gives the canonical text: zero-padded two-digit day and month, the year with a minus sign when negative and at least four digits without further padding, and the timezone as signed hh:mm. Parsing that text gives back an equal value, for every whole-minute timezone up to 14:00 and every year of magnitude at most 2147483647.",
     ["inputs"], "for every valid field combination and every whole-minute offset within 14:00 (or none)",
     "tests print a handful of values; padding, negative years and negative offsets combine",
     GT + [T + "utils.rs"], [{"name": "Display and FromStr", "where": "xsd-types/src/types/g*.rs"}], note="Print and parse executed on one symbolic value.")

exec(open(os.path.join(V, "tools", "meta_more.py")).read())
exec(open(os.path.join(V, "tools", "meta_gen.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["st"], "quantifier": {"over": p["over"], "text": p["q"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "state": list(p["state"]), "mechanism": p["mech"], "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "python3-vt checks/run.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3-vt checks/run.py %s" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": p["level"], "level_note": p["note"] or "see DESIGN.md"} for p in P if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
     "notes": "Checks are self-contained: each rebuilds MIR and the replay binary from /repo's working tree."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
