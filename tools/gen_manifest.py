#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
CONTRACT = ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C18","C19","C23","C24","C25"]
PENDING = {}
CODEC = ["C21","C22"]
checks, na = [], []
TECH = {p: "TLA+ contract of the endpoint; TLC validates traces of the real endpoint recorded under generated and model-derived environments" for p in CONTRACT}
NOTE = {p: "Every event of every recorded execution is judged by the TLA+ contract; executions are sampled (random schedules, inputs and fault points, fixed by the seed), so the assurance is for the explored executions. Trusts TLC, the in-memory transport and the scripted peer of the harness." for p in CONTRACT}
for p in CODEC:
    TECH[p] = "TLA+ specification of the AMQP wire language; TLC enumerates vectors from it that the real codec replays, and judges records of the real codec on generated inputs"
    NOTE[p] = "The specification decodes bytes independently of the code; every record of the real encoder, decoder and frame splitter is compared with it. Exhaustive for the enumerated universe of values, forms and cuts; sampled beyond it. Trusts TLC and the harness's neutral tree of decoded values."
for p in ["C16", "C17"]:
    TECH[p] = "TLA+ specification of the handshake; TLC explores every sequence of peer items up to the end of the handshake, all are replayed on the real endpoint and the recorded behaviour is judged by the specification"
    NOTE[p] = "Exhaustive over the abstract alphabet of peer items and application decisions; field values, wire forms and the cutting of the stream are drawn from a seed. Trusts TLC, the in-memory transport and the harness's encoder."
TECH["C20"] = "TLA+ specification of keep-alive over discrete time; TLC explores schedules of traffic, they are replayed in real time on the real endpoint and the timed trace is judged by the specification"
NOTE["C20"] = "Timeouts of 300 ms to 3 s are waited for, larger ones only checked not to harm. The observer subtracts its own lateness, so a loaded machine raises no alarm. Trusts TLC and the in-memory transport."
extra = os.path.join(V, "tools", "manifest_extra.json")
if os.path.exists(extra):
    x = json.load(open(extra))
    TECH.update(x["tech"]); NOTE.update(x["note"])
for p in props:
    i = p["id"]
    if i in TECH:
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick bin/check {i}", thorough_cmd=f"VERIF_TIER=thorough bin/check {i}",
                           evidence_file=f"evidence/{i}.json", technique=TECH[i], level="model_checking", level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason="module under construction"))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed: the harness uses public interfaces only.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
