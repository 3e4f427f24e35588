#!/usr/bin/env python3
"""writes MANIFEST.json: one entry per existing checks/C??.py, the rest under not_applicable"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TR = "TLA+ trace validation: events of the real library replayed as behaviours of FissionEvent.tla with TLC"
SC = "TLA+ scission model (Scission.tla): TLC evaluates the distributions from the data files and places every recorded pair in them; Frequencies.tla judges the placements"
T = {
 "C01": "TLA+ decision model (Gate.tla), every request TLC enumerates replayed into the real programs",
 "C02": TR, "C03": TR, "C04": TR, "C05": TR + "; toy world checked exhaustively", "C06": TR, "C07": TR, "C08": TR, "C09": TR,
 "C10": "TLA+ session model (Session.tla): TLC-generated operation histories replayed into the library, observations compared with the model's",
 "C11": "TLA+ session model (Session.tla): TLC-generated operation histories replayed into the library (also under AddressSanitizer)",
 "C12": "TLA+ session model (Session.tla): C and C++ operations of TLC-generated histories must observe the same event",
 "C13": "TLA+ trace validation: history file lines as behaviours of HistoryFile.tla, numbers bound to the library's event",
 "C14": "TLA+ model of a run (Run.tla): TLC-generated command lines replayed into cgmf.x, files and summary checked against the model",
 "C15": "TLA+ model of a run with ranks (Run.tla), replayed into the MPI build on a stub MPI",
 "C16": "TLA+ trace validation: yields lines as scissions of FissionEvent.tla",
 "C17": "TLA+ model of reader and writer (HistoryFile.tla): TLC-generated files replayed into CGMFtk",
 "C18": "TLA+ definitions of the observables (Toolkit.tla), evaluated by TLC on the file and compared with CGMFtk",
 "C19": "TLA+ definitions (YieldsTk.tla), evaluated by TLC and compared with CGMFtk",
 "C20": "TLA+ decision model (DataPath.tla), every configuration TLC enumerates replayed into cgmf.x",
 "C21": "TLA+ level model (Levels.tla, Frequencies.tla): TLC evaluates the decay probabilities of the level file and judges the recorded cascades",
 "C22": "TLA+ frequency model (Frequencies.tla): TLC judges direction counts of recorded events",
 "C23": "TLA+ trace validation: recorded de-excitations as behaviours of Deexcite.tla",
 "C26": "TLA+ scission model (Scission.tla): TLC judges the shares of every recorded fragment pair",
 "C27": SC, "C28": SC, "C29": SC, "C30": SC,
 "C25": "TLA+ frequency model (Frequencies.tla): the multi-chance table evaluated by TLC judges recorded events",
}
MODEL_NOTE = "Holds for every event/history explored in the run (counts in the evidence file); assumes the projection in lib/ and the fixed-point tolerances of the specification; random corpora are seeded by VERIF_SEED."
NA = {"C24": "numerical agreement of physics models with evaluated data: no state or transition to specify, needs external data and large statistics; TLA+ is the wrong tool (guide) and the data are not in the sandbox"}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i)):
        checks.append(dict(property=i, quick_cmd="python3 checks/%s.py quick" % i, thorough_cmd="python3 checks/%s.py thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=T[i], level="model_checking", level_note=MODEL_NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: everything is observed through the public API, cgmf.x and CGMFtk. /repo carries fix: commits, listed in known_findings.json.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
