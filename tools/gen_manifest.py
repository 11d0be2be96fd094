#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "property-based testing: stateful games against a flood-fill reference",
 "C02": "property-based testing: every point of every state against a reference",
 "C03": "property-based testing: stateful ko histories against the definition",
 "C04": "property-based testing: stateful cyclic games against the set of past positions",
 "C05": "property-based testing: agreement of listing, verdict and attempt in every state",
 "C06": "property-based testing: twin and copied games (metamorphic)",
 "C07": "property-based testing: stateful protocol model",
 "C08": "property-based testing: conservation invariant over histories",
 "C09": "property-based testing: stateful edits against flood-fill groups, set model",
 "C10": "property-based testing: long stateful histories against a rebuilt board",
 "C11": "property-based testing: different histories to one position (metamorphic), constructed fingerprint collisions, small exhaustive part",
 "C12": "property-based testing: read-outs against a reference grid",
 "C13": "property-based testing: round trip",
 "C14": "property-based testing: positions against flood fill",
 "C15": "property-based testing: scores and results against a reference",
 "C16": "property-based testing: forecasts against playing (differential)",
 "C17": "property-based testing: games and their images (metamorphic)",
 "C18": "property-based testing: eye laws over positions and games",
 "C19": "property-based testing: printed records against a reference replay and a built game",
 "C20": "fuzzing: token soup, mutated records and free text; validity of every accepted game",
 "C21": "property-based testing: builder scripts against direct construction",
 "C22": "property-based testing: recorded history against observed positions",
 "C23": "property-based testing: off-board points and sizes, all small sizes enumerated",
 "C24": "property-based testing: eye counts per group against a reference",
 "C25": "property-based testing: estimates checked for validity on generated games",
 "C27": "property-based testing: the search's view against verdicts and playing (differential)",
 "C28": "property-based testing: conversions of random values against their meaning",
 "C29": "property-based testing: games mixed by random schedules against the same games alone (differential)",
 "C30": "property-based testing: the same random games and records told to differently compiled programs (differential)",
 "C26": "property-based testing: all sizes enumerated, both forms of every query",
}
checks = []
for line in open(H + "/properties.jsonl"):
    i = json.loads(line)["id"]
    checks.append(dict(property=i, quick_cmd=f"python3 run.py check {i} quick", thorough_cmd=f"python3 run.py check {i} thorough",
        technique=T[i], level="exploration",
        level_note="Holds on every generated case of the run (counts and classes in the evidence file), in a release build and in a build with debug assertions and overflow checks; trusts the independent reference implementation in harness/src. No proof of absence."))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=[],
    notes="No hooks in /repo: everything is observed through the public API (features history and deadstones). Replay a violation with: python3 run.py replay FILE")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
