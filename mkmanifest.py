#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json
import os
from specs import SPECS

HERE = os.path.dirname(os.path.abspath(__file__))
SAN = "ASan+UBSan build"
NOTES = {
    "C01": (SAN + ", generated tables, independent parser as oracle",
            "Every generated table is judged against a parser written from the property text. Holds for the generated tables only; subnormal numbers are outside."),
    "C02": (SAN + ", session snapshot before and after each refused call",
            "All observable state (values, names, flags, groups, answers) is compared around every refused call in random session states."),
    "C03": (SAN + ", random call histories against a session model",
            "A model of the session predicts listing, attributes and contents after each call."),
    "C04": (SAN + " round trips; enumeration of every byte at which writing stops",
            "File size limits stop the write at every byte position of each generated file; round trips are compared bit by bit."),
    "C05": (SAN + ", recomputed min-max transform",
            "Values, flags and returned bounds are compared with a recomputation on random datasets."),
    "C06": (SAN + ", all index and range triples around small datasets",
            "All triples around each generated dataset are asked; values, identity and refusals are judged."),
    "C07": (SAN + ", recomputation in long double",
            "Distances are compared with their definitions evaluated in long double, relative tolerance 1e-9."),
    "C08": (SAN + ", independent dynamic program and full enumeration of alignments",
            "Compared with a separately written dynamic program; for short series also with the enumeration of every alignment."),
    "C09": (SAN + ", validation of each returned alignment",
            "Each returned alignment is checked step by step and its cost recomputed."),
    "C10": (SAN + ", online assertions over cutoffs, envelopes and lower bounds",
            "Cutoffs around the exact distance, envelopes and bounds recomputed for each pair and band."),
    "C11": (SAN + ", partition check of the saved groups, manipulated clock",
            "The groups written to a text file are checked to be a partition; the wall clock is shifted during grouping."),
    "C12": (SAN + ", replay of the grouping rule",
            "The grouping rule is replayed from the property text over the saved groups, with a tolerance for ties."),
    "C13": ("ThreadSanitizer build and randomly delayed schedules, compared with one thread",
            "Data races seen by TSan on executed schedules; results compared with one thread. Schedules are sampled, not enumerated."),
    "C14": (SAN + ", recomputation of best representative and member",
            "Every answer is judged from the saved groups and an independent warped distance."),
    "C15": (SAN + ", recomputation of the examined set",
            "Every answer is judged from the saved groups and an independent warped distance; ties are tolerated."),
    "C16": (SAN + ", full recomputation of all warped distances",
            "The complete population is ranked with an independent warped distance."),
    "C17": (SAN + ", full recomputation on block means",
            "The complete population is reduced and ranked independently."),
    "C18": (SAN + ", save and load chains compared with the original",
            "Groups and answers after each generation are compared with the original."),
    "C19": ("enumeration of truncations, byte changes and write stops under an " + SAN,
            "Every truncation and every byte position of each generated file, several masks per byte, and every byte at which writing stops."),
    "C20": (SAN + ", repeated questions; allocator accounting",
            "Answers are compared bit by bit between repetitions; bytes in use are compared after warm-up."),
    "C21": ("ASan, UBSan, LSan, valgrind memcheck and heap accounting over random call sequences",
            "Sanitizer reports, crashes and hangs over random sessions with hostile arguments."),
    "C22": (SAN + " of the command line, differential against the library",
            "Scripts with valid, invalid and malformed lines; outputs compared with the library's results."),
    "C23": ("differential run of the Python module against the library",
            "Random call sequences in a Python process compared with the library's results."),
    "C24": (SAN + ", operation sequences against a value model",
            "Random operations on series objects are compared with a model holding plain vectors."),
}

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPECS:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": NOTES[i][0],
                       "level": SPECS[i].get("level", "exploration"), "level_note": NOTES[i][1]})
    else:
        na.append({"property": i, "reason": "not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks build the library sources of /repo's working tree themselves, in sanitizer variants, into build/ (git-ignored)."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
