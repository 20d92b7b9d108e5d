"""Handshakes: every scenario of spec/MdlHandshake.tla is run against the real endpoint, with parameters, wire forms and the
cutting of the stream drawn from a seed; the recorded behaviour is judged by spec/Handshake.tla."""
import collections
from lib import *

ROUNDS = {"quick": 6, "thorough": 120}
MODULE = "MdlHandshake"


def scenarios(pid, d):
    rc, out = tlc(MODULE + ".tla", MODULE + ".cfg", d, workers=4, heap="6g")
    if rc != 0 or "Model checking completed. No error" not in out:
        raise Broken(MODULE + " failed:\n" + "\n".join(out.splitlines()[-40:]))
    side = "srv" if pid == "C16" else "cli"
    sc = []
    for l in out.splitlines():
        l = l.strip()
        if l.startswith('"SCEN '):
            s = json.loads(json.loads(l)[5:])
            if s["cfg"]["side"] == side:
                sc.append(s)
    return tlc_states(out)[1], sorted(sc, key=lambda s: json.dumps(s, sort_keys=True))


def judge(nd, d):
    rc, out = tlc("HandshakeTrace.tla", "HandshakeTrace.cfg", d, env={"TRACES": nd})
    if rc != 0 or "Model checking completed. No error" not in out:
        raise Broken("validation of handshakes failed to run:\n" + "\n".join(out.splitlines()[-40:]))
    return [(int(m[1]), int(m[2]), m[3], m[4]) for m in (VIOL.match(l.strip()) for l in out.splitlines()) if m], tlc_states(out)[0]


def play(d, name, sc, seed, threads, base=0):
    p, nd = os.path.join(d, name + ".sc"), os.path.join(d, name + ".nd")
    with open(p, "w") as f:
        for s in sc:
            f.write(json.dumps(s) + "\n")
    st, txt = vh(["hs", p, seed, nd, base], timeout=240, env={"VH_THREADS": str(threads)})
    return st, txt, nd


def confirm(pid, d, v):
    """a violation counts when the same scenario shows it again"""
    for k in range(2):
        st, _, nd = play(d, "confirm", [v["scenario"]], v["rseed"], 1, v["index"])
        if st != "ok" or judge(nd, d)[0]:
            return True
    return False


def run(pid, tier, seed, d):
    mstates, sc = scenarios(pid, d)
    rounds = ROUNDS["quick" if tier == "quick" else "thorough"]
    budget = time.time() + (300 if tier == "quick" else 600)
    viols, states, traces, shapes, kinds = [], 0, 0, set(), collections.Counter()

    def one(k):
        if time.time() > budget:
            return None
        # scenarios that wait for the timeout only in the first round of a quick check
        part = sc if k == 0 or tier != "quick" else [s for s in sc if all(x["f"] != "wait" for x in s["ins"])]
        rs = seed * 1000 + k
        st, txt, nd = play(d, f"hs-{k}", part, rs, 64)
        if st != "ok":
            return [dict(text=f"handshake takes the process down ({st}): {txt}"[:300], handshake=[rs])], 0, 0, set(), {}
        vs, n = judge(nd, d)
        tr = load_nd(nd)
        os.remove(nd)
        out = [dict(text=t, trace=tr[i], scenario=part[i], rseed=rs, index=i) for i, _, p, t in vs if p == pid]
        sh = {tuple((e["e"], e.get("f") or e.get("a") or e.get("r")) for e in t["ev"]) for t in tr}
        c = collections.Counter(e["e"] + " " + str(e.get("f") or e.get("a") or e.get("r") or "") for t in tr for e in t["ev"])
        return out, n, len(tr), sh, c

    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, range(rounds)):
            if r:
                viols += r[0]
                states += r[1]
                traces += r[2]
                shapes |= r[3]
                kinds.update(r[4])
    ok, unconf = [], 0
    for v in viols[:6]:
        if "scenario" not in v or confirm(pid, d, v):
            ok.append(v)
            break
        unconf += 1
    cov = dict(states=mstates + states, transitions=states - traces, model_states=mstates, scenarios_from_model=len(sc), rounds=rounds,
               traces_validated_against_impl=traces, distinct_event_shapes=len(shapes), unconfirmed=unconf,
               events={k: n for k, n in kinds.most_common(60)})
    return ok, cov
