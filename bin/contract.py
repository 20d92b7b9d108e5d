"""Random and generated environments driven through the real endpoint; every recorded trace is
validated by TLC against spec/Contract.tla."""
import json, os, time, collections
from lib import *

# environments (harness profiles) per property, the first ones most relevant
PROFILES = {
    "C01": ["snd", "big", "ctl", "mix"],
    "C02": ["snd", "big", "dup", "sess"],
    "C03": ["snd", "big", "disp", "mix"],
    "C04": ["big", "snd", "close", "mix"],
    "C05": ["rcv", "pub", "router", "dup"],
    "C06": ["rcv", "big", "dup", "router"],
    "C07": ["disp", "snd", "dup", "mix"],
    "C08": ["rcv", "disp", "router", "dup"],
    "C09": ["snd", "rcv", "link", "sess", "disp", "close", "ctl", "mix"],
    "C10": ["close", "sess", "link", "snd", "rcv", "mix"],
    "C11": ["link", "ctl", "sess", "mix"],
    "C12": ["link", "snd", "rcv", "mix"],
    "C13": ["sess", "close", "link", "mix"],
    "C14": ["close", "sess", "mix", "mal"],
    "C15": ["sess", "sess", "close", "mix"],
    "C18": ["router", "rstream", "router", "mix"],
    "C19": ["ctl", "ctlq", "link", "pub", "close"],
    "C23": ["mal", "mal", "mix", "close"],
    "C24": ["rcv", "dup", "router", "rstream"],
    "C25": ["pub", "pub", "ctl", "mix"],
}
QUICK = (8, 220)       # shards, walks per shard
THOROUGH = (64, 500)

# what has to occur in a trace for the property to be at stake there
def _has(ev, e, **kw):
    return any(x["e"] == e and all(x.get(a) in b for a, b in kw.items()) for x in ev)
RELEVANT = {
    "C01": lambda t: _has(t, "out", f=["transfer"]) and _has(t, "ctl", k=["Flow"]),
    "C02": lambda t: _has(t, "out", f=["transfer"]) and _has(t, "in", f=["flow"]),
    "C03": lambda t: sum(x["e"] == "out" and x["f"] == "transfer" for x in t) > 1,
    "C04": lambda t: _has(t, "out", f=["transfer"]),
    "C05": lambda t: _has(t, "in", f=["transfer"]),
    "C06": lambda t: _has(t, "in", f=["transfer"]) or _has(t, "call", k=["send"]),
    "C07": lambda t: any(x["e"] == "in" and x["f"] == "disp" and x["role"] == "R" for x in t),
    "C08": lambda t: any(x["e"] == "out" and x["f"] == "disp" and x["role"] == "R" for x in t),
    "C09": lambda t: _has(t, "call", k=["send", "recv", "ready", "oncredit", "wait", "att", "begin", "end", "closel"]),
    "C10": lambda t: _has(t, "in", f=["detach", "end", "close"]) or _has(t, "eof") or _has(t, "call", k=["closel", "end", "close", "force"]),
    "C11": lambda t: _has(t, "in", f=["attach", "detach"]),
    "C12": lambda t: sum(x["e"] == "out" and x["f"] == "attach" for x in t) > 1,
    "C13": lambda t: _has(t, "out", f=["begin"]),
    "C14": lambda t: _has(t, "in", f=["close"]) or _has(t, "call", k=["close", "force"]) or _has(t, "eof"),
    "C15": lambda t: _has(t, "call", k=["begin"]),
    "C18": lambda t: _has(t, "hnd"),
    "C19": lambda t: _has(t, "ctl"),
    "C23": lambda t: len(t) > 4,
    "C24": lambda t: any(x["e"] == "out" and x["f"] == "flow" for x in t),
    "C25": lambda t: any(x["e"] == "msg" for x in t),
}


def shard(pid, d, k, profs, seed, n):
    """one shard: returns dict(viols, states, traces, relevant, events, sample)"""
    nd, sc = os.path.join(d, f"t{k}.nd"), os.path.join(d, f"s{k}.nd")
    st, txt = vh(["walk", ",".join(profs), seed, n, nd, sc], timeout=300, env={"VH_THREADS": "2"})
    crash = []
    if st != "ok":
        for i in range(n):
            st1, txt1 = vh(["walk", ",".join(profs), seed, n, nd, sc, i], timeout=20, env={"VH_THREADS": "1"})
            if st1 != "ok":
                crash.append(dict(text=f"the endpoint brought the process down ({st1}: {txt1.strip()[-160:]})", walk=[profs, seed, n, i], prop="*"))
                break
        if not crash:
            raise Broken(f"harness failed once: {st} {txt}")
        return dict(viols=crash, states=0, traces=0, relevant=0, events=0, sample=None, hist=collections.Counter())
    v, states = validate(nd, d)
    traces = load_nd(nd)
    rel = RELEVANT.get(pid, lambda t: True)
    hit, hist, sample = 0, collections.Counter(), None
    sigs = set()
    for t in traces:
        hist.update(x["e"] + ":" + str(x.get("f", x.get("k", ""))) for x in t["ev"] if x["e"] in ("in", "out", "call", "ctl", "hnd"))
        if rel(t["ev"]):
            hit += 1
            sigs.add(hash(json.dumps([(x["e"], x.get("f", x.get("k"))) for x in t["ev"]])))
            sample = sample or t
    mine = [x for x in v if x[2] in (pid, "*")]
    out = []
    if mine:
        tr = {t["id"]: t for t in traces}
        scs = {s["id"]: s for s in load_nd(sc)}
        done = set()
        for (i, pos, p, text) in sorted(mine, key=lambda x: x[1]):
            if i in done:
                continue
            done.add(i)
            out.append(dict(text=text, pos=pos, prop=p, scenario=scs[i], trace=tr[i], walk=[profs, seed, n, i]))
    for f in (nd, sc):
        os.unlink(f)
    return dict(viols=out, states=states, traces=len(traces), relevant=hit, distinct=sigs, events=sum(len(t["ev"]) for t in traces), sample=sample, hist=hist)


def confirm(pid, d, v):
    """a violation is reported when the recorded scenario shows it again"""
    if "scenario" not in v:
        profs, seed, n, i = v["walk"]
        return any(vh(["walk", ",".join(profs), seed, n, os.path.join(d, "c.nd"), os.path.join(d, "c.sc"), i], timeout=20, env={"VH_THREADS": "1"})[0] != "ok" for _ in range(3))
    sc, nd = os.path.join(d, "c.sc"), os.path.join(d, "c.nd")
    n = 12
    with open(sc, "w") as f:
        for i in range(n):
            f.write(json.dumps(dict(v["scenario"], id=i)) + "\n")
    st, _ = vh(["run", sc, nd], timeout=120, env={"VH_THREADS": "2"})
    if st != "ok":
        return True
    vs, _ = validate(nd, d)
    return any(x[2] in (pid, "*") for x in vs)


def run(pid, tier, seed, d, extra_shards=()):
    import design
    shards, n = QUICK if tier == "quick" else THOROUGH
    profs = PROFILES[pid]
    jobs = [(k, profs[k % len(profs):] + profs[:k % len(profs)] if tier != "quick" else profs, seed * 1000 + k, n) for k in range(shards)]
    res, budget = [], time.time() + (400 if tier == "quick" else 420)
    def one(j):
        if time.time() > budget:
            return None
        return shard(pid, d, *j)
    with ThreadPoolExecutor(CORES) as ex:
        for r in ex.map(one, jobs):
            if r:
                res.append(r)
    viols = [v for r in res for v in r["viols"]]
    dcov = {}
    if pid in design.MODULES and not viols:
        dv, dcov = design.run(pid, tier, seed, d, 200 if tier == "quick" else 330)
        viols += dv
    viols.sort(key=lambda v: len(v.get("trace", {}).get("ev", [])) or 10**6)
    ok, unconf = [], 0
    for v in viols[:6]:
        if confirm(pid, d, v):
            ok.append(v)
            break
        unconf += 1
    hist = collections.Counter()
    for r in res:
        hist.update(r["hist"])
    distinct = set()
    for r in res:
        distinct |= r.get("distinct", set())
    sample = next((r["sample"] for r in res if r["sample"]), None)
    cov = dict(dcov, states=sum(r["states"] for r in res), transitions=sum(r["states"] - r["traces"] for r in res),
               traces_validated_against_impl=sum(r["traces"] for r in res),
               traces_where_property_is_at_stake=sum(r["relevant"] for r in res),
               distinct_event_shapes_at_stake=len(distinct), unconfirmed=unconf,
               profiles=profs, events={k: c for k, c in hist.most_common(60)},
               samples=[dict(profile=sample["prof"], events=sample["ev"][:40])] if sample else [])
    return ok, cov
