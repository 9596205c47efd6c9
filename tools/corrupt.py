#!/usr/bin/env python3
"""Self-test of the trace specifications: record the traces a check records, change one recorded value (or drop,
repeat or swap an event) at a time and see whether TLC still accepts the trace.  An accepted corruption is either a
value the property leaves open or a blind spot of the specification; the summary groups them by event and field.

  tools/corrupt.py C09 [corruptions per validation]      (not part of any check)"""
import collections, concurrent.futures as cf, copy, json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import checks, core, tlc

prop, per = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 40
rng = random.Random(7)
acc, tried, err = collections.Counter(), collections.Counter(), collections.Counter()
seen = {}


def paths(x, pre=()):
    if isinstance(x, bool) or isinstance(x, (int, str)):
        yield pre
    elif isinstance(x, list):
        for i in range(len(x)):
            yield from paths(x[i], pre + (i,))
    elif isinstance(x, dict):
        for k in x:
            if not (pre == () and k in ("e", "w")):
                yield from paths(x[k], pre + (k,))


def corrupt(ses):
    s = copy.deepcopy(ses)
    i = rng.randrange(1, len(s))
    how = rng.random()
    e = s[i]["e"]
    if how < .06 and len(s) > 2:
        del s[i]
        return s, "%s dropped" % e
    if how < .12:
        s.insert(i, copy.deepcopy(s[i]))
        return s, "%s repeated" % e
    ps = list(paths(s[i]))
    if not ps:
        return None, None
    keys = sorted({p[0] for p in ps})
    k = rng.choice(keys)
    p = rng.choice([q for q in ps if q[0] == k])
    o = s[i]
    for q in p[:-1]:
        o = o[q]
    v = o[p[-1]]
    if isinstance(v, bool):
        o[p[-1]] = not v
    elif isinstance(v, int):
        o[p[-1]] = v + rng.choice([-1, 1, 1, 2, 7])
    else:
        return None, None
    return s, "%s.%s%s" % (e, k, "[%s]" % p[-1] if len(p) > 1 and len(s[i][k]) else "")


def validate(self, module, cfg, sessions, events, what="", exe="real", **kw):
    ses = [s for s in tlc.split_sessions(events) if 1 < len(s) and sum(e.get("w", 1) for e in s) < 400]
    todo = []
    for _ in range(20*per):
        if len(todo) == per or not ses:
            break
        s, name = corrupt(rng.choice(ses))
        if s is not None:
            todo.append((s, "%s(%s) %s" % (module, what, name)))

    def one(t):
        try:
            r = tlc.tlc_trace(module, cfg, t[0], 120)
            return t, "ok" if r.trace[0] == r.trace[1] else "no"
        except Exception:
            return t, "err"
    with cf.ThreadPoolExecutor(4) as ex:
        for (s, name), v in ex.map(one, todo):
            tried[name] += 1
            if v == "ok":
                acc[name] += 1
            if v == "err":
                err[name] += 1


core.Check.validate = validate
core.Check.model = lambda self, *a, **k: None
c = core.Check(prop, "quick", 1)
getattr(checks, prop.lower())(c)
for k in sorted(tried):
    print("%-60s tried %3d accepted %3d%s" % (k, tried[k], acc[k], " undecided %d" % err[k] if err[k] else ""))
print("%s: %d corruptions, %d rejected, %d accepted, %d undecided" % (prop, sum(tried.values()), sum(tried.values()) - sum(acc.values()) - sum(err.values()), sum(acc.values()), sum(err.values())))
