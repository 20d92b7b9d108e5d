"""Codec and framing: records of the real codec judged by spec/Codec.tla.

Two sources of inputs: TLC enumerates values, wire forms, performatives, and streams with all cuts from spec/MdlCodec.tla and the
harness replays them; the harness generates random values, frames, streams and mutations from a seed."""
import collections, itertools
from lib import *

COUNT = re.compile(r'^"?COUNT (\d+) (.*?)"?$')
# property -> (mode, shards, records) per tier
PLAN = {"C21": {"quick": [("stream", 6, 2500)], "thorough": [("stream", 64, 6000)]},
        "C22": {"quick": [("values", 6, 4000)], "thorough": [("values", 64, 12000)]},
        "C23": {"quick": [("values", 2, 3000), ("stream", 1, 2500)], "thorough": [("values", 12, 10000), ("stream", 6, 5000)]}}


def judge(nd, d):
    rc, out = tlc("CodecTrace.tla", "CodecTrace.cfg", d, env={"TRACES": nd})
    if rc != 0 or "Model checking completed. No error" not in out:
        raise Broken("validation of codec records failed to run:\n" + "\n".join(out.splitlines()[-40:]))
    v, c = [], collections.Counter()
    for l in out.splitlines():
        m = VIOL.match(l.strip())
        if m:
            v.append((int(m[1]), m[3], m[4]))
        m = COUNT.match(l.strip())
        if m:
            c[m[2]] += int(m[1])
    return v, c, tlc_states(out)[0]


def wanted(pid, prop, text):
    return prop == pid or (pid == "C23" and "panic" in text)


def collect(pid, nd, d, origin):
    vs, c, states = judge(nd, d)
    r = []
    if vs:
        recs = load_nd(nd)
        n = collections.Counter()
        for i, prop, text in vs:
            if wanted(pid, prop, text) and n[text] < 3:
                n[text] += 1
                r.append(dict(text=text, record=recs[i - 1], **origin))
    return r, c, states


def fell(pid, st, txt, origin):
    """the codec took the process down: stack overflow, abort, unbounded work or allocation"""
    return ([dict(text=f"codec takes the process down ({st}): {txt}"[:300], **origin)], collections.Counter(), 0)


def shard(pid, d, mode, seed, n, k):
    nd = os.path.join(d, f"cod-{mode}-{k}.nd")
    st, txt = vh(["codec", mode, seed, n, nd], timeout=120)
    origin = dict(codec=[mode, seed, n])
    if st != "ok":
        return fell(pid, st, txt, origin)
    r = collect(pid, nd, d, origin)
    os.remove(nd)
    return r


def model(pid, tier, d):
    """vectors enumerated by TLC, split for parallel replay"""
    vec = os.path.join(d, "vec.nd")
    rc, out = tlc("MdlCodec.tla", "MdlCodec.cfg" if tier == "quick" else "MdlCodecDeep.cfg", d, env={"OUT": vec}, workers=4, heap="8g")
    if rc != 0 or "Model checking completed. No error" not in out:
        raise Broken("MdlCodec failed:\n" + "\n".join(out.splitlines()[-40:]))
    keep = '"stream"' if pid == "C21" else '"dec"'
    parts, n = 6, 0
    fs = [open(os.path.join(d, f"vec-{k}.nd"), "w") for k in range(parts)]
    with open(vec) as f:
        for l in f:
            if keep in l:
                fs[n % parts].write(l)
                n += 1
    for f in fs:
        f.close()
    os.remove(vec)
    return tlc_states(out)[1], n, [os.path.join(d, f"vec-{k}.nd") for k in range(parts)]


def replay(pid, d, part):
    nd = part + ".out"
    st, txt = vh(["codecv", part, nd], timeout=120)
    if st != "ok":
        return fell(pid, st, txt, dict(vectors="MdlCodec"))
    return collect(pid, nd, d, dict(vectors="MdlCodec"))


def run(pid, tier, seed, d, with_model=True):
    plan = PLAN[pid]["quick" if tier == "quick" else "thorough"]
    jobs = [(mode, seed * 1000 + k, n, k) for mode, cnt, n in plan for k in range(cnt)]
    budget = time.time() + (300 if tier == "quick" else 600)
    viols, counts, states, vectors, mstates = [], collections.Counter(), 0, 0, 0
    with ThreadPoolExecutor(CORES) as ex:
        mf = ex.submit(model, pid, tier, d) if with_model else None
        fs = [ex.submit(lambda j: shard(pid, d, *j) if time.time() < budget else ([], collections.Counter(), 0), j) for j in jobs]
        if mf:
            mstates, vectors, parts = mf.result()
            fs += [ex.submit(replay, pid, d, p) for p in parts]
        for f in fs:
            v, c, s = f.result()
            viols += v
            counts.update(c)
            states += s
    cov = dict(states=states + mstates, transitions=states, traces_validated_against_impl=sum(counts.values()), vectors_from_model=vectors,
               model_states=mstates, records={k: n for k, n in counts.most_common()}, seeds=[seed * 1000, seed * 1000 + len(jobs)])
    return viols, cov
