"""Keep-alive: schedules of spec/MdlKeepAlive.tla run in real time against the real endpoint, judged by spec/KeepAlive.tla."""
import collections, random
from lib import *

SIZE = {"quick": 700, "thorough": 1944 * 6}
THREADS = 160


def judge(nd, d):
    rc, out = tlc("KeepAliveTrace.tla", "KeepAliveTrace.cfg", d, env={"TRACES": nd})
    if rc != 0 or "Model checking completed. No error" not in out:
        raise Broken("validation of keep-alive traces failed to run:\n" + "\n".join(out.splitlines()[-40:]))
    return [(int(m[1]), int(m[2]), m[3], m[4]) for m in (VIOL.match(l.strip()) for l in out.splitlines()) if m], tlc_states(out)[0]


def play(d, name, sc, seed, base=0, timeout=300):
    p, nd = os.path.join(d, name + ".sc"), os.path.join(d, name + ".nd")
    with open(p, "w") as f:
        for s in sc:
            f.write(json.dumps(s) + "\n")
    st, txt = vh(["ka", p, seed, nd, base], timeout=timeout, env={"VH_THREADS": str(THREADS)})
    return st, txt, nd


def run(pid, tier, seed, d):
    def explore(mod):
        rc, out = tlc(mod + ".tla", mod + ".cfg", d, workers=2)
        if rc != 0 or "Model checking completed. No error" not in out:
            raise Broken(f"{mod} failed:\n" + "\n".join(out.splitlines()[-40:]))
        sc = {json.dumps(json.loads(json.loads(l.strip())[5:]), sort_keys=True) for l in out.splitlines() if l.strip().startswith('"SCEN ')}
        return [json.loads(s) for s in sorted(sc)], out
    sc, out = explore("MdlKeepAlive")
    silent, out2 = explore("MdlSilent")
    rnd = random.Random(seed)
    size = SIZE["quick" if tier == "quick" else "thorough"]
    part = []
    while len(part) < size:
        x = list(sc)
        rnd.shuffle(x)
        part += x
    # silent peers first
    part = (silent * (1 if tier == "quick" else 8) + part)[:size]
    st, txt, nd = play(d, "ka", part, seed, timeout=800)
    if st != "ok":
        return [dict(text=f"keep-alive driver taken down ({st}): {txt}"[:300], seed=seed)], dict(states=0, transitions=0)
    vs, states = judge(nd, d)
    tr = load_nd(nd)
    ok, unconf = [], 0
    for i, pos, prop, text in vs[:8]:
        # real time: a violation counts when the same schedule shows it again
        s2, _, nd2 = play(d, "confirm", [part[i]], seed, base=i, timeout=60)
        if s2 != "ok" or judge(nd2, d)[0]:
            ok.append(dict(text=text, scenario=part[i], seed=seed, index=i, trace=tr[i]))
            break
        unconf += 1
    c = collections.Counter(e["e"] + " " + str(e.get("f") or "") for t in tr for e in t["ev"])
    cov = dict(states=states + tlc_states(out)[1] + tlc_states(out2)[1], transitions=states - len(tr), model_states=tlc_states(out)[1] + tlc_states(out2)[1],
               scenarios_from_model=len(sc) + len(silent), traces_with_silent_peer=sum(1 for t in tr if t["lim"] > 0),
               traces_validated_against_impl=len(tr), traces_with_idle_timeout=sum(1 for t in tr if t["idle"] > 0),
               largest_lag_of_observer_ms=max([t["lag"] for t in tr] or [0]), unconfirmed=unconf, events=dict(c))
    return ok, cov
