"""Design modules of the session and link layer: TLC checks spec/MdlX.tla and exports the schedules it explored; they are run
against the real endpoint as they are and with the pauses between the commands removed, and judged by spec/Contract.tla."""
import collections, random
from contract import RELEVANT
from lib import *

# property -> modules, the first most relevant; constants of the modules per tier
MODULES = {
    "C01": ["MdlCredit"], "C02": ["MdlCredit"], "C03": ["MdlCredit", "MdlDisp", "MdlLong"], "C04": ["MdlCredit"],
    "C05": ["MdlRecv", "MdlRouter", "MdlMux"], "C06": ["MdlRecv", "MdlCredit"], "C07": ["MdlDisp"], "C08": ["MdlRecv", "MdlDisp", "MdlRouter"],
    "C09": ["MdlCredit", "MdlDisp", "MdlRecv"], "C10": ["MdlLink", "MdlSess", "MdlDisp", "MdlRecv", "MdlBad"], "C11": ["MdlLink", "MdlPub"], "C12": ["MdlMux", "MdlLink"],
    "C13": ["MdlSess", "MdlMux"], "C14": ["MdlSess", "MdlReady"], "C15": ["MdlSess"], "C18": ["MdlRouter"], "C19": ["MdlLink", "MdlPub", "MdlReady", "MdlCredit"],
    "C23": ["MdlBad", "MdlRouter"], "C24": ["MdlRecv", "MdlRouter", "MdlMux"], "C25": ["MdlPub", "MdlReady"],
}
QUICK = {
    "MdlCredit": dict(MaxSend=2, MaxFlow=2), "MdlDisp": dict(MaxDel=2, MaxDisp=2, MaxWait=2, States="StatesQuick"), "MdlRecv": dict(MaxDel=2, MaxOp=4),
    "MdlLink": dict(Keys="KeysQuick", MaxAtt=2, MaxClose=1), "MdlSess": dict(MaxSess=3, ChMax=1),
    "MdlRouter": dict(Links="LinksTwo", MaxMsg=3, Rdys="RdysAll"), "MdlLong": dict(), "MdlPub": dict(Links="LinksOne", MaxMsg=2, MaxAtt=2), "MdlReady": dict(Links="LinksTwo", MaxIn=4, MaxHold=2),
    "MdlMux": dict(MaxSend=1, MaxIn=1, MaxAtt=0, Chans="ChansOne"), "MdlBad": dict(MaxBad=1, Frames="FramesQuick"),
}
THOROUGH = {
    "MdlCredit": dict(MaxSend=3, MaxFlow=2), "MdlDisp": dict(MaxDel=3, MaxDisp=2, MaxWait=1, States="StatesQuick"), "MdlRecv": dict(MaxDel=3, MaxOp=5),
    "MdlLink": dict(Keys="KeysQuick", MaxAtt=2, MaxClose=2), "MdlSess": dict(MaxSess=4, ChMax=2),
    "MdlRouter": dict(Links="LinksAll", MaxMsg=4, Rdys="RdysAll"), "MdlLong": dict(), "MdlPub": dict(Links="LinksTwo", MaxMsg=2, MaxAtt=2), "MdlReady": dict(Links="LinksTwo", MaxIn=6, MaxHold=3),
    "MdlMux": dict(MaxSend=1, MaxIn=1, MaxAtt=1, Chans="ChansOne"), "MdlBad": dict(MaxBad=2, Frames="FramesQuick"),
}
SAMPLE = {"quick": 900, "thorough": 30000}     # schedules per module
EST = {"MdlCredit": (40_000, 289_000), "MdlDisp": (240_000, 4_200_000), "MdlRecv": (54_000, 800_000), "MdlLink": (300_000, 1_040_000),
       "MdlSess": (4_700, 60_000), "MdlRouter": (65_000, 370_000), "MdlLong": (1, 1), "MdlPub": (17_000, 3_200_000), "MdlReady": (24_000, 213_000), "MdlMux": (680_000, 8_000_000), "MdlBad": (90_000, 4_000_000)}


def explore(mod, tier, seed, d):
    """TLC over the module: (schedules, distinct states, transitions)"""
    consts = (QUICK if tier == "quick" else THOROUGH)[mod]
    base = open(os.path.join(V, "spec", mod + ".cfg")).read()
    base = re.sub(r"^CONSTANTS.*\n", "", base, flags=re.M)
    cfg = os.path.join(d, mod + ".cfg")
    with open(cfg, "w") as f:
        if consts:
            f.write("CONSTANTS " + " ".join(f"{k} <- {v}" if isinstance(v, str) else f"{k} = {v}" for k, v in consts.items()) + "\n")
        f.write(base)
    want = SAMPLE["quick" if tier == "quick" else "thorough"]
    thin = max(1, EST[mod][0 if tier == "quick" else 1] // (2 * want))
    rc, out = tlc(mod + ".tla", cfg, d, env={"THIN": str(thin)}, workers=1, heap="6g", extra=["-seed", str(seed), "-fp", "0"])
    if rc != 0 or "Model checking completed. No error" not in out:
        raise Broken(f"{mod} failed:\n" + "\n".join(out.splitlines()[-40:]))
    sc = [json.loads(json.loads(l.strip())[5:]) for l in out.splitlines() if l.strip().startswith('"SCEN ')]
    gen, dist = tlc_states(out)
    rnd = random.Random(seed * 7919 + len(sc))
    if len(sc) > want:
        sc = rnd.sample(sc, want)
    return sc, dist, gen


CLOSING = [{"c": "svcrdy", "k": "ctl", "m": "ok", "nq": True}, {"c": "svcrdy", "k": "pub", "m": "ok", "nq": True}, {"c": "ctlmode", "k": "*", "m": "ok", "nq": True}, {"c": "ctlall"}]


def vary(s, k, rnd):
    """k = 0: as explored; otherwise some of the commands follow each other without a pause"""
    cmds = [dict(c) for c in s["cmds"]]
    cfg, pre = s["cfg"], s["pre"]
    if pre and cmds[0].get("k") == "begin" and cfg["pub"] == "raw" and rnd.random() < 0.35:
        # the same from the other side: the peer begins the session and attaches the links
        cfg = dict(cfg, side=rnd.choice(["cli", "srv", "srv"]), local=dict(cfg["local"], maxsize=65535))
        head = [c for c in cmds[:pre] if not (c["c"] == "op" and c["k"] in ("begin", "att"))]
        for c in head:
            if c.get("f") == "begin":
                c.pop("sx")
        cmds = head + cmds[pre:]
        pre = len(head)
    for c in cmds:   # counters of the peer start anywhere, also just below wrap-around
        if c["c"] == "in" and rnd.random() < 0.4:
            if c["f"] == "begin" and "noi" in c:
                c["noi"] = rnd.choice([0, 4, -1, -2, -3])
            if c["f"] == "attach" and "idc" in c:
                c["idc"] = rnd.choice([3, -1, -2])
    if k:
        p = rnd.choice([0.2, 0.5, 0.9])
        for i in range(pre, len(cmds)):
            if rnd.random() < p:
                if cmds[i]["c"] == "in" and rnd.random() < 0.4 and i + 1 < len(cmds) and cmds[i + 1]["c"] == "in":
                    cmds[i]["hold"] = True
                else:
                    cmds[i]["nq"] = True
            elif cmds[i]["c"] == "in" and rnd.random() < 0.1:
                cmds[i]["split"] = 1 + rnd.randrange(20)
    return dict(cfg=cfg, cmds=cmds + [dict(c) for c in CLOSING])


def play(pid, d, name, scen):
    """run schedules and judge them: (violations, trace count, states, relevant, events)"""
    sc, nd = os.path.join(d, name + ".sc"), os.path.join(d, name + ".nd")
    with open(sc, "w") as f:
        for i, s in enumerate(scen):
            f.write(json.dumps(dict(s, id=i)) + "\n")
    st, txt = vh(["run", sc, nd], timeout=400, env={"VH_THREADS": "2"})
    if st != "ok":
        for s in scen:
            with open(sc, "w") as f:
                f.write(json.dumps(dict(s, id=0)) + "\n")
            st1, txt1 = vh(["run", sc, nd], timeout=20, env={"VH_THREADS": "1"})
            if st1 != "ok":
                return [dict(text=f"the endpoint brought the process down ({st1}: {txt1.strip()[-160:]})", scenario=s, prop="*")], 0, 0, 0, collections.Counter()
        raise Broken(f"harness failed once: {st} {txt}")
    v, states = validate(nd, d)
    tr = load_nd(nd)
    rel = RELEVANT.get(pid, lambda t: True)
    hist = collections.Counter()
    for t in tr:
        hist.update(x["e"] + ":" + str(x.get("f", x.get("k", ""))) for x in t["ev"] if x["e"] in ("in", "out", "call", "ctl", "hnd"))
    out = [dict(text=text, pos=pos, prop=p, scenario=scen[i], trace=tr[i]) for (i, pos, p, text) in v if p in (pid, "*")]
    r = sum(1 for t in tr if rel(t["ev"]))
    os.unlink(sc), os.unlink(nd)
    return out, len(tr), states, r, hist


def run(pid, tier, seed, d, budget):
    mods = MODULES[pid]
    end = time.time() + budget
    viols, cov = [], dict(design_modules={}, design_schedules=0, design_states=0, design_transitions=0, traces_from_design=0,
                          trace_states_from_design=0, traces_from_design_at_stake=0)
    hist = collections.Counter()
    share = SAMPLE["quick" if tier == "quick" else "thorough"]
    with ThreadPoolExecutor(CORES) as ex:
        got = list(ex.map(lambda m: (m, *explore(m, tier, seed, d)), mods))
        jobs = []
        for k, (m, sc, dist, gen) in enumerate(got):
            rnd = random.Random(seed)
            if tier == "quick" and len(mods) > 1:
                sc = rnd.sample(sc, min(len(sc), max(200, share // len(mods))))
            cov["design_modules"][m] = dict(states=dist, transitions=gen, schedules=len(sc))
            cov["design_schedules"] += len(sc)
            cov["design_states"] += dist
            cov["design_transitions"] += gen
            vs = [vary(s, i % 2, rnd) for i, s in enumerate(sc)]
            if tier != "quick" and len(sc) < share:   # a small module: more variations
                vs += [vary(s, 1, rnd) for s in sc for _ in range(min(5, share // max(1, len(sc))))]
            rnd.shuffle(vs)
            n = 150 if tier == "quick" else 800
            jobs += [(f"{m}{i}", vs[i:i + n]) for i in range(0, len(vs), n)]
        random.Random(seed).shuffle(jobs)
        def one(j):
            return play(pid, d, *j) if time.time() < end and not viols else None
        for r in ex.map(one, jobs):
            if r:
                viols += r[0]
                cov["traces_from_design"] += r[1]
                cov["trace_states_from_design"] += r[2]
                cov["traces_from_design_at_stake"] += r[3]
                hist.update(r[4])
    cov["design_events"] = {k: c for k, c in hist.most_common(40)}
    return viols, cov
