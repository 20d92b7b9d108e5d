"""Common parts of the checks: building the harness, running TLC, reporting."""
import fcntl, json, os, re, resource, subprocess, sys, tempfile, time, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(V, "target")
VH = os.path.join(TARGET, "debug", "vh")
TLA = "/opt/veriftools/tla"
CP = ":".join([f"{TLA}/tla2tools.jar", f"{TLA}/CommunityModules-deps.jar", f"{TLA}/CommunityModules.jar"])
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
CORES = min(8, os.cpu_count() or 8)


class Broken(Exception):
    """the check itself could not run"""


def build():
    os.makedirs(TARGET, exist_ok=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    env.pop("RUSTFLAGS", None)
    with open(os.path.join(TARGET, ".vlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(V, "harness"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken("cargo build failed:\n" + p.stdout[-3000:])


def scratch(pid):
    base = os.path.join(V, "out")
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix=f"{pid}-", dir=base)


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def vh(args, timeout=300, env=None):
    """run the harness; returns (status, text); status is "ok", "crash" or "hang" """
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run([VH] + [str(a) for a in args], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=timeout, preexec_fn=_limits)
    except subprocess.TimeoutExpired:
        return "hang", "timeout"
    if p.returncode != 0:
        return "crash", f"exit status {p.returncode}: {p.stderr[-500:]}"
    return "ok", p.stdout


def tlc(module, cfg, d, env=None, workers=1, heap="3g", timeout=840, extra=()):
    """run TLC; returns its output; raises Broken on an evaluation error"""
    md = tempfile.mkdtemp(prefix="md-", dir=d)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", f"-Xmx{heap}", gc, "-Xss64m", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", md, "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=os.path.join(V, "spec"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc_states(out):
    m = None
    for m in STATES.finditer(out):
        pass
    return (int(m[1]), int(m[2])) if m else (0, 0)


VIOL = re.compile(r'^"?VIOL (\d+) (\d+) (\S+) (.*?)"?$')


def validate(traces, d):
    """check recorded traces against the contract; list of (id, pos, prop, text), states"""
    rc, out = tlc("Trace.tla", "Trace.cfg", d, env={"TRACES": traces})
    if rc != 0 or "Model checking completed. No error" not in out:
        raise Broken("trace validation failed to run:\n" + "\n".join(out.splitlines()[-40:]))
    v = []
    for l in out.splitlines():
        m = VIOL.match(l.strip())
        if m:
            v.append((int(m[1]), int(m[2]), m[3], m[4]))
    return v, tlc_states(out)[0]


def load_nd(p):
    with open(p) as f:
        return [json.loads(l) for l in f if l.strip()]


def known_findings():
    """lines 'known: property=<id> <regular expression over the violation text>'"""
    r = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m:
                r.append((m[1], m[2]))
    return r


def head_of(path="/repo"):
    try:
        return subprocess.run(["git", "-C", path, "rev-parse", "--short", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip()
    except OSError:
        return ""


def write_evidence(pid, level, coverage, t0, nviol, assumptions=()):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": coverage,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def report(pid, viols, t0, level, coverage, assumptions=()):
    """viols: list of dicts(text, replay-object). Prints and returns the exit status."""
    known = [re.compile(x) for (p, x) in known_findings() if p == pid]
    new, seen = [], set()
    for v in viols:
        k = next((r for r in known if r.search(v["text"])), None)
        if k:
            if k.pattern not in seen:
                seen.add(k.pattern)
                print(f"KNOWN-FINDING: property={pid} {v['text']}")
        else:
            new.append(v)
    write_evidence(pid, level, coverage, t0, len(new), assumptions)
    if not new:
        print(f"{pid}: held on everything explored ({json.dumps({k: x for k, x in coverage.items() if isinstance(x, int)})})")
        return 0
    os.makedirs(os.path.join(V, "out", "replay"), exist_ok=True)
    shown = set()
    for v in new:
        if v["text"] in shown or len(shown) >= 5:
            continue
        shown.add(v["text"])
        h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(V, "out", "replay", f"{pid}-{h}.json")
        with open(p, "w") as f:
            json.dump(dict(v, property=pid), f)
        print(f"  {v['text']}")
        print(f"VIOLATION property={pid} replay={p}")
    return 1
