"""Running TLC: exhaustive models, simulation, and validation of recorded traces."""
import json, os, re, shutil, subprocess, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SCRATCH = os.environ.get("CAKE_SCRATCH") or os.path.join(VERIF, "build", "run", str(os.getpid()))


class TlcError(Exception):
    """TLC could not be run or ended abnormally: says nothing about the code under test."""


def scratch(prefix):
    os.makedirs(SCRATCH, exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix, dir=SCRATCH)


class Result:
    pass


def run(module, cfg, files=None, timeout=600, workers=1, args=(), heap="2g", depth_first=False):
    d = scratch(module + "_")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, "M.cfg"), "w") as fh:
            fh.write(cfg)
        for n, src in (files or {}).items():
            if isinstance(src, (list, tuple)):
                with open(os.path.join(d, n), "w") as fh:
                    for e in src:
                        fh.write((e if isinstance(e, str) else json.dumps(e)) + "\n")
            else:
                shutil.copy(src, os.path.join(d, n))
        cmd = ["java", "-Xmx" + heap, "-Xss32m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC", "-config", "M.cfg", "-workers", str(workers), "-noGenerateSpecTE",
               "-metadir", os.path.join(d, "meta")] + list(args) + [module + ".tla"]
        env = dict(os.environ)
        env["JAVA_TOOL_OPTIONS"] = "-Djava.io.tmpdir=" + d
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcError("%s: TLC timed out after %ds" % (module, timeout))
        r = Result()
        r.out, r.rc, r.wall = p.stdout, p.returncode, time.time() - t0
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
        r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"The depth of the complete state graph search is (\d+)", p.stdout)
        r.depth = int(m.group(1)) if m else 0
        m = re.findall(r'<<"TRACE", (\d+), (\d+)>>', p.stdout)
        r.trace = (int(m[-1][0]), int(m[-1][1])) if m else None
        r.violated = re.findall(r"(?:Invariant|Property|property|Action property) (\S+) (?:is|was|of module \S+ is) violated", p.stdout)
        r.ok = p.returncode == 0 and "No error has been found" in p.stdout
        r.actions = {a: (int(x), int(y)) for a, x, y in re.findall(r"^<(\w+) line \d+.*?>: (\d+):(\d+)", p.stdout, re.M)}
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def model(module, cfg=None, timeout=600, workers=4, coverage=True, must_take=(), heap="3g"):
    """Exhaustive check of a model that does not depend on the code: any failure is an error of the
    specification (TlcError), never a violation."""
    cfg = open(os.path.join(SPEC, cfg or module + ".cfg")).read() if cfg is None or cfg.endswith(".cfg") else cfg
    r = run(module, cfg, timeout=timeout, workers=workers, args=["-coverage", "1"] if coverage else [], heap=heap)
    if not r.ok:
        raise TlcError("%s: the model itself does not check:\n%s" % (module, r.out[-3000:]))
    for a in must_take:
        if a in r.actions and r.actions[a][1] == 0 and r.actions[a][0] == 0:
            raise TlcError("%s: action %s is never taken (vacuous model)" % (module, a))
    return r


def tlc_trace(module, cfg, events, timeout=600):
    r = run(module, cfg, files={"trace.ndjson": events}, timeout=timeout)
    if r.trace is None:
        # an evaluation error in the middle of a trace: TLC could not even evaluate the step
        m = re.search(r"The depth of the complete state graph search is (\d+)", r.out)
        raise TlcError("%s: no verdict on a trace of %d events:\n%s" % (module, len(events), "\n".join(re.findall(r"(?m)^Error:.*(?:\n(?!State).*){0,6}", r.out))[:1500] + r.out[-1500:]))
    return r


def split_sessions(events):
    ses = []
    for e in events:
        if e.get("e") == "session" or not ses:
            ses.append([])
        ses[-1].append(e)
    return ses


class Verdict:
    def __init__(self):
        self.events = 0
        self.sessions = 0
        self.accepted = 0        # sessions TLC accepted from end to end
        self.states = 0
        self.rejected = []       # (session events, index of the first event no action explains)


def validate(module, cfg, events, jobs=6, timeout=600, max_reject=8):
    """Validate sessions (each starts with a "session" event) against a trace specification.
    A rejected session is confirmed by a run of its own, reported, and the rest goes on, until
    max_reject sessions have been rejected."""
    ses = split_sessions(events)
    v = Verdict()
    v.sessions = len(ses)
    v.events = len(events)
    if not ses:
        return v
    order = sorted(range(len(ses)), key=lambda i: -len(ses[i]))
    n = min(jobs, len(ses))
    bins = [[] for _ in range(n)]
    load = [0] * n
    for i in order:
        b = load.index(min(load))
        bins[b].append(i)
        load[b] += sum(e.get("w", 1) for e in ses[i])

    total = []

    def work(idx):
        todo = list(idx)
        rej, acc, states = [], 0, 0
        while todo and len(total) < max_reject:
            evs = [e for i in todo for e in ses[i]]
            r = tlc_trace(module, cfg, evs, timeout)
            states += r.distinct
            if r.trace[0] == r.trace[1]:
                acc += len(todo)
                break
            pos = r.trace[0]
            k = 0
            while pos >= len(ses[todo[k]]):
                pos -= len(ses[todo[k]])
                k += 1
            bad = todo[k]
            r2 = tlc_trace(module, cfg, ses[bad], timeout)
            if r2.trace[0] == r2.trace[1]:
                raise TlcError("%s: a rejection did not repeat" % module)
            rej.append((ses[bad], r2.trace[0]))
            total.append(bad)
            acc += k
            todo = todo[k + 1:]
        return rej, acc, states

    with cf.ThreadPoolExecutor(n) as ex:
        for rej, acc, states in ex.map(work, bins):
            v.rejected += rej
            v.accepted += acc
            v.states += states
    return v
