"""Frame shared by all checks: seed, tier, evidence, known findings, violations."""
import json, os, random, re, shutil, sys, time, traceback
import build, run, tlc

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS")


def known_findings(prop):
    """Lines 'known: property=<id> match=<text> <what fails>' of the committed file ('fixed:' lines suppress nothing)."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        self.budget = float(os.environ.get("VERIF_BUDGET", "600"))
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.assumptions, self.viol, self.extra = [], [], [], {}
        self.level = "model_checking"
        self.arch = "x86"            # the build of the library under test (see build.build)

    # ---- thorough runs repeat their random part until the time is used up
    def rounds(self, quick=1):
        n = 0
        last = 0.0
        while True:
            t = time.time()
            yield n
            n += 1
            last = max(last, time.time() - t)
            if self.quick and n >= quick:
                break
            if not self.quick and time.time() - self.t0 + last > self.budget:
                break
            if self.viol:
                break
        self.extra["rounds"] = n

    def model(self, module, cfg=None, **kw):
        r = tlc.model(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault("models", {})[cfg.replace(".cfg", "") if isinstance(cfg, str) and cfg.endswith(".cfg") else module] = {"distinct": r.distinct, "generated": r.generated, "depth": r.depth}
        return r

    def execute(self, exe, sessions, **kw):
        return run.commands(exe, sessions, **kw)

    def validate(self, module, cfg, sessions, events, what="", exe="real", **kw):
        """Validate the events of `sessions` (list of command lists) against a trace specification."""
        if len(self.viol) >= 16:      # enough to report; what is left unjudged does not change the verdict
            return None
        v = tlc.validate(module, cfg, events, **kw)
        self.states += v.states
        self.transitions += v.events
        self.traces += v.accepted
        self.events += v.events
        for ses, i in v.rejected:
            sid = ses[0].get("id", 0)
            ev = ses[i] if i < len(ses) else {}
            self.violation(dict(module=module, cfg=cfg, commands=sessions[sid] if isinstance(sid, int) and sid < len(sessions) else [],
                                rejected_event=ev, exe=exe, arch=self.arch, event_index=i, what=what), self.describe(ev))
        if len(self.samples) < 3 and events:
            self.samples.append({"session": (sessions[0][:4] if sessions else []), "events": [trim(e) for e in events[:4]]})
        return v

    def describe(self, ev):
        return json.dumps(trim(ev))[:400]

    def violation(self, data, text):
        for match, what in known_findings(self.prop):
            if match in text:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
                return
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.viol)))
        data = dict(data, property=self.prop, tier=self.tier, seed=self.seed)
        with open(p, "w") as fh:
            json.dump(data, fh, indent=1)
        self.viol.append((p, text))
        if len(self.viol) <= 5:
            print("  rejected: %s %s" % (data.get("what", ""), text))

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict({"states": self.states, "transitions": self.transitions,
                                "traces_validated_against_impl": self.traces, "events_validated": self.events,
                                "samples": self.samples}, **self.extra),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for p, t in self.viol:
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(p, VERIF)))
        if not self.viol:
            print("OK property=%s tier=%s: %d traces (%d events) accepted, %d states, %.1fs" %
                  (self.prop, self.tier, self.traces, self.events, self.states, time.time() - self.t0))
        return 1 if self.viol else 0


def trim(e):
    return {k: (v if not isinstance(v, (list, str)) or len(v) < 200 else (v[:40] if isinstance(v, list) else v[:200])) for k, v in e.items()}


def cfg_text(name, **consts):
    """A .cfg of the spec folder with some constants replaced."""
    s = open(os.path.join(tlc.SPEC, name)).read()
    for k, v in consts.items():
        s, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=\s*).*$" % k, lambda m: m.group(1) + v, s)
        if n != 1:
            raise tlc.TlcError("constant %s not found in %s" % (k, name))
    return s


def main(table, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    args = list(argv)
    if "--replay" in args:
        i = args.index("--replay")
        replay = args[i + 1]
        del args[i:i + 2]
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    if not args or args[0] not in table:
        print("usage: check <%s> [--tier quick|thorough] [--replay file]" % "|".join(sorted(table)))
        return 2
    c = Check(args[0], tier, seed)
    try:
        if replay:
            d = json.load(open(replay))
            exe = build.build([d.get("exe", "real")], arch=d.get("arch", "x86"))[d.get("exe", "real")]
            ev = c.execute(exe, [d["commands"]])
            c.validate(d["module"], d["cfg"], [d["commands"]], ev, "replay")
            for p, t in c.viol:
                print("VIOLATION property=%s replay=%s" % (c.prop, replay))
            return 1 if c.viol else 0
        table[args[0]](c)
        return c.finish()
    except (build.BuildError, run.HarnessError, tlc.TlcError) as e:
        print("ERROR (no verdict): %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(os.path.join(tlc.SCRATCH), ignore_errors=True) if not os.environ.get("CAKE_KEEP") else None
