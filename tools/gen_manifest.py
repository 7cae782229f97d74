#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
claimed = re.findall(r'^@run\("(C\d+)"\)', open(os.path.join(HERE, "check.py")).read(), re.M)
TECH = "TLA+ specification model-checked with TLC; its behaviours replayed on the real code and recorded traces of the real code validated against it with TLC"
NOTES = {
 "C01": "the grammar is a TLA+ pushdown automaton; exhaustive over all texts up to a length over an alphabet of token representatives, then seeded random and mutated texts of any Unicode",
 "C02": "print/parse agreement is checked in the specification for every small alg and on the real code for the same algs and random large ones",
 "C03": "the inversion rule is checked in the specification for every small alg and on the real code for the same algs and random large ones",
 "C04": "serialization compared with the specification's canonical text and grammar",
 "C05": "each generated literal is expanded by the real macros and compared with the specification's parse; refused literals must not compile",
 "C06": "the real binary is run on generated texts as argument and standard input, against the specification's parse and canonical inverse",
 "C07": "every short history of pushes and random longer ones, against the specification's concatenation",
 "C08": "group laws hold for every transformation of the model-checked small puzzles; the real code is compared with the specification on all pairs of those and on random puzzles with every size and number of orientations",
 "C09": "action laws hold for every pattern and transformation of the model-checked small puzzles; the real code is compared on those and on random puzzles",
 "C10": "the specification's closed form for powers is checked against repeated composition; the real code is compared on every small amount, the largest ones and random ones",
 "C11": "every small alg and random deep ones, on the real code against the specification's evaluation",
 "C12": "EvalAlg(InvertAlg(x)) = InverseT(EvalAlg(x)) is checked in the specification for every small alg; the real code is compared on those and on random ones",
 "C13": "every table of four amounts of one family, directly defined, derived, both or neither, on the real code",
 "C14": "every small system of derived moves and random larger ones, offered to the real code in shuffled order",
 "C15": "exhaustive over all 107 numbers of orientations, all moduli and all orientations; the amounts of change are exhaustive in the thorough tier",
 "C16": "random puzzles and values, converted in memory and through JSON",
 "C17": "seeded malformed data of every kind listed in the property; one flaw of each kind at every place of some layouts; memory safety of later use as far as the harness's checking allocator (canaries, freed memory kept and filled) and wrong values show it",
 "C18": "all short histories of clones and comparisons on small puzzles, and random puzzles with single-slot differences",
 "C19": "all short histories and random walks of buffer operations with every register logged after every step",
 "C20": "the built-in puzzles are compared with a geometric TLA+ model of the cube derived from turning layers in space",
 "C21": "concurrent sessions are run on real threads (real schedules, not all schedules) and each thread's trace is validated against the sequential specification; the first use of the built-in puzzles is model-checked as a specification of a once-cell; small sessions are also run under Miri, each with a random schedule, which reports data races as undefined behaviour",
 "C22": "macros are expanded from generated JSON files and compared with run-time loading; addresses are compared across threads",
 "C23": "every refusal the harness can provoke, with its kind, its text and its chain of causes",
 "C24": "all short histories of slot reads and writes with every register logged after every step, and random puzzle layouts",
 "C25": "the example is run on generated scrambles; what it printed is judged on the geometric model of the cube, and a solution that the specified search must find has to be printed",
}
REASONS = {}
doc = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{
        "property": p,
        "quick_cmd": f"VERIF_TIER=quick python3 tools/check.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {p}",
        "technique": TECH,
        "level": "model_checking",
        "level_note": NOTES[p] + "; trusts TLC, the harness in harness/ and rustc. Outside the enumerated bounds it is sampling, not proof.",
    } for p in props if p in claimed],
    "not_applicable": [{"property": p, "reason": REASONS.get(p, "no check has been built for it yet")}
                       for p in props if p not in claimed],
    "notes": "TLA+ with TLC. No hooks in /repo: everything is observed through the public API. See DESIGN.md.",
}
json.dump(doc, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(doc["checks"]), "claimed;", len(doc["not_applicable"]), "not")
