#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of worlds."""
import json, os, re, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, here)
from swsim.registry import WORLDS

NOTES = {
    "C01": "seeded search over crash points, power cuts, disk errors and interrupts inside saves; real library, json and io code on a simulated file-call layer; trusts the stated durability model and that one process writes a file at a time",
    "C02": "seeded search over histories of saves, appends, loads, merges, damaged files and read faults against a model of the files; trusts the model (about 60 lines)",
    "C03": "seeded search over rejection histories with saves, crashes and restarts in between, against a boolean-mask model",
    "C04": "seeded search over scripted users driving the real matplotlib event handling on a virtual clock; the drawing itself and the terminal are stubs",
    "C05": "seeded search over scripted users (events, timeouts, figures switched) driving the real selection, picking and muting code on a virtual clock",
    "C06": "seeded search over synthesised .max files, file lists, damage and read faults against an independent record-by-record reader; restricted to files of geopsy 3.2.0 layout",
    "C07": "seeded search over synthesised shot files in three formats, file lists, damage and read faults against an independent model; obspy is real code and trusted for the sample encodings",
    "C08": "seeded search over chains of export/read/edit/export with faults at file calls; obspy real; trusts the durability model",
    "C09": "seeded search over recordings, tables and faults/restarts against the recorded sample values; obspy and pandas real",
    "C10": "seeded search over run histories with failures and over line-level interleavings of concurrent runs chosen by a seeded scheduler (switches between Python lines of swprocess only; C code and other packages run without switches)",
    "C11": "seeded search over settings, shot lists, scripted users and read faults against an independent re-statement of the documented steps; the transforms themselves are taken from the library (C17 is not claimed)",
    "C12": "seeded search over edit histories against an exact reference model of records",
    "C13": "seeded search over rejection/save/crash/reload histories against an independent computation of the statistics",
    "C14": "seeded search over the outcomes of the random draws through a simulated generator, including extreme ones",
    "C15": "seeded search over histories of normalising, plotting, picking and stacking against a reference model of the data",
    "C16": "seeded search over histories of inspection calls (plotting, repr, equality, statistics, saving) with injected failures; state compared before and after",
}
NA = {
    "C17": "numerical accuracy of the transforms is a pure function of one recording and its settings: no schedule, time, I/O, randomness or history for a simulator to decide, so sampling inputs of it would be plain property testing, another technique",
    "C18": "the resolution limits are a pure formula of the wavenumbers and the axes: nothing for a simulator to schedule or fail",
    "C19": "the least-squares solver is a pure function of its inputs: nothing for a simulator to schedule or fail",
    "C20": "first-arrival picking by threshold is a pure function of the recorded samples: nothing for a simulator to schedule or fail",
    "C21": "what is left of the SPAC support is two regular expressions without callers: pure functions of a line of text",
}
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in WORLDS:
        checks.append({"property": p, "quick_cmd": f"./check run {p} --tier quick",
                       "thorough_cmd": f"./check run {p} --tier thorough",
                       "technique": "deterministic simulation with fault injection (seeded search)",
                       "level": "exploration", "level_note": NOTES[p]})
    else:
        na.append({"property": p, "reason": NA.get(p, "check under construction")})
m = {"version": 1, "setup_cmd": "./check setup",
     "hooks": {"guard": "none needed", "enable": "no hooks in /repo: every seam is a wrapper installed by swsim before swprocess is imported", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Replay a violation with ./check replay FILE; prove determinism with ./check determinism."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
