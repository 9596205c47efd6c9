"""Running the harnesses: command sessions in, recorded events out."""
import concurrent.futures as cf, json, os, shutil, subprocess
import build, tlc


class HarnessError(Exception):
    pass


def env_for(ncores=8, **kw):
    e = build.fake_env(ncores, **kw)
    e["OMP_WAIT_POLICY"] = "passive"
    e["GOMP_SPINCOUNT"] = "0"
    e["OMP_DYNAMIC"] = "false"
    return e


def commands(exe, sessions, jobs=4, timeout=900, per_session=60, env=None, keep=None):
    """sessions: list of lists of command lines (without the leading 'session' line).
    Returns the events in session order."""
    # sessions whose first line is "env NAME=VALUE" run in processes of their own with that environment
    def own_env(i):
        return sessions[i][0][4:] if sessions[i] and sessions[i][0].startswith("env ") else ""
    groups = {}
    for i in range(len(sessions)):
        groups.setdefault(own_env(i), []).append(i)
    chunks = []
    for key, ids in sorted(groups.items()):
        n = max(1, min(jobs if key == "" else 1, len(ids)))
        chunks += [(key, ids[i::n]) for i in range(n)]
    d = tlc.scratch("h_")
    try:
        def one(ci):
            key, ids = chunks[ci]
            e = dict(env or env_for(), **dict([key.split("=", 1)] if key else []))
            cf_, of = os.path.join(d, "c%d" % ci), os.path.join(d, "o%d" % ci)
            with open(cf_, "w") as fh:
                for i in ids:
                    fh.write("session id=%d\n" % i)
                    for l in sessions[i][1 if key else 0:]:
                        fh.write(l + "\n")
            try:
                p = subprocess.run([exe, cf_, of, str(per_session)], env=e, stdout=subprocess.DEVNULL,
                                   stderr=subprocess.PIPE, text=True, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise HarnessError("%s timed out" % exe)
            if p.returncode != 0:
                raise HarnessError("%s ended with %d: %s" % (exe, p.returncode, p.stderr[-1500:]))
            evs = []
            with open(of) as fh:
                for line in fh:
                    evs.append(json.loads(line))
            return evs
        out = {}
        with cf.ThreadPoolExecutor(jobs) as ex:
            for evs in ex.map(one, range(len(chunks))):
                for s in tlc.split_sessions(evs):
                    out[s[0].get("id")] = s
        return [e for i in sorted(out) for e in out[i]]
    finally:
        shutil.rmtree(d, ignore_errors=True)
