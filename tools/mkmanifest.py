"""Writes /verif/MANIFEST.json from the list of finished checks."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = {
    "C01": "Bounded-exhaustive on the real code: every file-system operation of every scenario fails, is interrupted, or kills the process once; one fault per run.",
    "C02": "Bounded-exhaustive on the real code against a reference model of the mirror.",
    "C03": "Bounded-exhaustive over a program grammar on the real code; oracle is Python's own compiler.",
    "C04": "Bounded-exhaustive over placements and layouts on the real code; oracle is Python's parser over the unmarked text.",
    "C05": "Bounded-exhaustive over text/identifier layouts on the real code; oracle is Python's parser and tokenizer.",
    "C06": "Bounded-exhaustive over statement sequences and file splits on the real code against hand counts.",
    "C07": "Bounded-exhaustive over the Python grammar to depth 2; oracle is syntax-tree identity.",
    "C08": "Bounded-exhaustive contexts x uses; reference is substitution of the standalone conversion.",
    "C09": "Every table entry x every import spelling; reference is the dotted spelling.",
    "C10": "Bounded-exhaustive over package names, import forms, mixes, local modules and exclusions against a reference model of recognition.",
    "C11": "Every declarative row x every call shape against an independent reference model of the table format.",
    "C12": "Every row with a parameter list x every spelling of each argument set, compared with each other.",
    "C13": "All directory orders / hash seeds / locations / log options in the bound, each in its own process where needed.",
    "C14": "All sequences of conversions up to the bound, each result compared with the one from a fresh process.",
    "C15": "Every file-system operation and write cut-off as crash point, then a re-run compared with a fresh run.",
    "C16": "All completely converted programs of the universe converted again.",
    "C17": "Every table entry in min mode compared with default mode and with the source.",
    "C18": "Scope analysis (symbol tables) of every output of the universe in file and directory mode.",
    "C20": "Every row x argument x compound expression; reference is substitution into the conversion with a variable.",
    "C21": "All option subsets and command lines compared with the plain library call; list contents against the tables and sums of single statements.",
    "C19": "Every executable corpus program x spelling variations run on both frameworks.",
}
TECH = {
    "C01": "fault enumeration on the real code (every FS operation, crash point and write cut-off)",
    "C15": "crash-point enumeration on the real code followed by re-run, state comparison",
    "C14": "explicit-state exploration of conversion histories on the real code vs fresh process",
    "C13": "exhaustive enumeration of environments (listing orders, hash seeds, locations)",
}
LEVEL = {}
DONE = [l.split()[0] for l in open(os.path.join(V, "tools", "done.txt")) if l.strip()]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import sys; sys.dont_write_bytecode = True; import mc.core; mc.core.import_paconvert()'",
         checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in DONE:
        c = "/opt/venv/bin/python -m mc.%s" % i.lower()
        m["checks"].append(dict(property=i, quick_cmd=c, thorough_cmd="VERIF_TIER=thorough " + c,
                                technique=TECH.get(i, "bounded-exhaustive state exploration of the real code against a reference oracle (stateless model checking)"),
                                level=LEVEL.get(i, "model_checking"), level_note=NOTE[i]))
    else:
        m["not_applicable"].append(dict(property=i, reason="the check is not finished yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
