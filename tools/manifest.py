#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": "one field of every data/length encoding at any length up to the limit + 3, arbitrary characters up to 4 (6), and 16 field combinations over the three bitmaps with five header/type/bitmap encodings",
    "C02": "arbitrary body bytes of any length up to the limit + 3 for one field of every encoding, 16 field combinations, arbitrary bitmap bytes of which at most two bits are set, redundant bitmaps",
    "C03": "any bytes of length 0-11 as a whole message, any body behind given bitmaps, unknown codecs, unspecified fields, bitmaps cut anywhere",
    "C04": "arbitrary keys (up to 3 characters, any code point; 4-6 digits), pairs of keys, arbitrary values up to 4 (6) characters and any length for one field of every encoding, unknown codecs",
    "C05": "as C01 and C10 for the layout of encode and decode; key order by symbolic permutation",
    "C06": "symbolic field numbers 1-192 (one to three fields, region by region) and stale bitmap entries with arbitrary text",
    "C07": "each bitmap byte arbitrary in turn for all three bitmaps and three encodings, plus given bitmaps followed by arbitrary bytes",
    "C08": "any length from 0 to beyond the limit for indicator widths 1-4 of each length encoding; arbitrary indicator bytes on decode",
    "C09": "any value length from 0 to beyond the limit, any characters up to 4 (6), every data/length encoding, nibble counts with every pad configuration",
    "C10": "compared with a reference parser: arbitrary bytes as whole message, header, body, bitmap positions; any truncation point",
    "C11": "content compared element-wise with one symbolic index (so for every position) for any length up to the limit + 3",
    "C12": "14 pad/codec configurations x 11 length configurations, any value length, arbitrary short values and bodies",
    "C13": "compared with a reference parser on all rejecting paths of the C10 scenarios",
    "C14": "compared with a reference builder on all rejecting paths of the C09 scenarios, arbitrary keys, fault at each field in turn",
    "C15": "errors of every rejecting path of sampled scenarios and hand-built errors with arbitrary parts; pickle protocols 0, 1, 2, 4 and 5",
    "C16": "snapshots before/after, and mutation of results, inputs and specification between calls on symbolic data",
    "C17": "two- and three-call histories of encode/decode over four specifications with symbolic data, specification edits in between, each judged by a reference without history; one call preempted by another before any of its first 210 statements",
    "C18": "result types on the C10/C09 scenarios, argument types by a fixed list of wrong types",
    "C19": "symbolic values (up to 3 (5) characters), description width and line width; every order and subset of given keys; symbolic field numbers",
    "C20": "as C19, with the layout computed by a reference printer",
    "C21": "every field of both specifications, every value length, against an independent table of the documented data elements",
    "C22": "arbitrary messages of 0-9 bytes and arbitrary header/type texts for five header and four type configurations",
}
checks = []
for p in ["C%02d" % i for i in range(1, 23)]:
    checks.append({
        "property": p,
        "quick_cmd": "python3-vt check.py %s --tier quick" % p,
        "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "symbolic execution of the package's own source, path conditions and assertions decided by z3, counterexamples replayed on the real package",
        "level": "model_checking",
        "level_note": "Bounded: " + NOTES[p] + ". Holds for every value within the task bounds listed in the evidence; trusts z3 and the str/bytes/int/dict/codec models of sx/, which are validated by re-running a witness of every path on the real package.",
    })
m = {
    "version": 1,
    "setup_cmd": "python3-vt -c 'import z3, sys; sys.path.insert(0, \".\"); import sx.run, harness.tasks'",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo. /repo is loaded from source on every run. KNOWN_FINDINGS lists the defects found (all repaired by fix: commits). See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
