"""Builds the library under test from /repo's current working tree, outside /repo.

The tree is staged into a scratch folder, the project's own install step (install.sh: kernel
generation and grid-table generation) runs there under a fixed machine description (fake/bin),
and the compile commands are the ones the project's Makefiles print (make -n).  Variants:

  real   library + its real micro-kernels                            (exact results)
  prov   the same library objects + provenance-recording kernel stubs (schedule structure)
  mem    library compiled with -fsanitize=thread *callbacks*, linked with our own runtime
         that records memory footprints                               (memory / race model)

and, with arch="arm", the project's armv8 build (its generated Neon kernels and packing kernels) with
a stand-in <arm_neon.h>; with arch="wide", the x86 build with the kernel generator asked for more and
larger register tiles than the install script asks for.
"""
import hashlib, os, re, shlex, shutil, subprocess, sys, concurrent.futures as cf, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CAKE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
FAKE = os.path.join(VERIF, "fake", "bin")
ARM = os.path.join(VERIF, "fake", "arm")
ARMBIN = os.path.join(VERIF, "fake", "armbin")
IN = ["src", "include", "python", "Makefile", "kernels.mk", "install.sh", "env.sh"]


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, cmd if isinstance(cmd, str) else " ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def fake_env(ncores=8, **kw):
    e = dict(os.environ)
    arch = kw.pop("arch", "x86")
    e["PATH"] = (ARMBIN + ":" if arch == "arm" else "") + FAKE + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["LC_ALL"] = "C"
    e["FAKE_CPUS"] = str(ncores)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    for k, v in kw.items():
        e[k] = str(v)
    return e


def tree_hash(extra=""):
    h = hashlib.sha256()
    files = []
    for base in [os.path.join(REPO, i) for i in IN] + [HARN, FAKE, ARM, ARMBIN, os.path.abspath(__file__)]:
        if os.path.isfile(base):
            files.append(base)
        else:
            for d, ds, fs in os.walk(base):
                ds[:] = [x for x in ds if x != "__pycache__"]
                files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        if os.path.islink(f) or not os.path.isfile(f):
            continue
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    h.update(extra.encode())
    return h.hexdigest()[:16]


def stage(dst, ncores=8, arch="x86"):
    """Stage /repo and run its install step under a machine with `ncores` cores."""
    os.makedirs(dst)
    for i in IN:
        s = os.path.join(REPO, i)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(dst, i), ignore=shutil.ignore_patterns("__pycache__", "*.o", "*.so"))
        elif os.path.exists(s):
            shutil.copy2(s, os.path.join(dst, i))
    env = fake_env(ncores, arch=arch)
    sh(["bash", "-e", "./install.sh"], cwd=dst, env=env)
    if arch == "wide":
        sh("python3 python/kernel_gen.py haswell 12 48 dense && mv dense.cpp src/kernels/haswell", cwd=dst, env=env)


def compile_cmds(st, arch="x86"):
    """(flags, sources) of the two libraries, as the project's own makefiles give them."""
    env = fake_env(8, CAKE_HOME=st, BLIS_INSTALL_PATH=st, arch=arch)
    res = []
    for mk in ([], ["-f", "kernels.mk"]):
        out = sh(["make", "-n", "-B"] + mk, cwd=st, env=env)
        out = out.replace("\\\n", " ")
        flags, srcs = [], []
        for line in out.splitlines():
            t = shlex.split(line)
            if not t or not any(x.endswith((".cpp", ".c", ".cc")) for x in t):
                continue
            skip = False
            for x in t[1:]:
                if skip:
                    skip = False
                elif x == "-o":
                    skip = True
                elif x.endswith((".cpp", ".c", ".cc")):
                    srcs.append(x)
                elif x == "-shared" or x.startswith(("-l", "-L")):
                    pass
                elif arch == "arm" and x.startswith(("-mtune=", "-mcpu=", "-march=", "-mfpu=", "-mfloat-abi=")):
                    pass
                elif x.startswith("-"):
                    flags.append(x)
        if not srcs:
            raise BuildError("no compile command found in make -n:\n" + out[-2000:])
        res.append((flags + (["-I" + ARM, "-mfma"] if arch == "arm" else []), srcs))
    return res


def parse_kernels(st):
    """Micro-kernel symbols declared by the generated header: name -> (mr, nr)."""
    txt = open(os.path.join(st, "include", "kernels.h")).read()
    ks = {}
    for m in re.finditer(r"\bvoid\s+(\w+?_(\d+)x(\d+))\s*\(\s*float\s*\*\s*\w*\s*,\s*float\s*\*\s*\w*\s*,\s*float\s*\*\s*\w*\s*,\s*int\s+\w*\s*,\s*int\s+\w*\s*,\s*int\s+\w*\s*\)\s*;", txt):
        ks[m.group(1)] = (int(m.group(2)), int(m.group(3)))
    if not ks:
        raise BuildError("no micro-kernel prototype found in the generated kernels.h")
    return ks


PWRAP = ["GOMP_parallel"] + ["GOMP_parallel_loop_" + x for x in ("static", "dynamic", "guided", "runtime", "nonmonotonic_dynamic", "nonmonotonic_guided",
         "nonmonotonic_runtime", "maybe_nonmonotonic_runtime")] + ["GOMP_parallel_sections"]


WRAP = PWRAP + ["malloc", "calloc", "realloc", "posix_memalign", "aligned_alloc", "free", "memset", "memcpy", "memmove", "popen", "pclose",
                "_Znwm", "_Znam", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "GOMP_barrier", "GOMP_loop_end", "GOMP_sections_end",
                "GOMP_critical_start", "GOMP_critical_end", "GOMP_atomic_start", "GOMP_atomic_end"]


TS = ["-fsanitize=thread", "-O1", "-fno-builtin"]


def build(variants=("real",), ncores=8, arch="x86"):
    """Returns {variant: path of the harness executable, 'stage': ..., 'kernels': {...}}."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash("n%d" % ncores + arch)
    root = os.path.join(BUILD, key)
    lockf = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lockf, fcntl.LOCK_EX)
    try:
        # drop builds of other trees
        olds = sorted((d for d in os.listdir(BUILD) if len(d) == 16 and d != key),
                      key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in olds[:-3]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        st = os.path.join(root, "stage")
        if not os.path.exists(os.path.join(root, "staged")):
            shutil.rmtree(root, ignore_errors=True)
            os.makedirs(root)
            stage(st, ncores, arch)
            open(os.path.join(root, "staged"), "w").close()
        kern = parse_kernels(st)
        (lf, ls), (kf, ks) = compile_cmds(st, arch)
        res = {"stage": st, "kernels": kern, "root": root}
        jobs = []      # (cmd, obj)
        links = []
        h = lambda f: os.path.join(HARN, f)

        def objs(tag, srcs, flags):
            out = []
            for s in srcs:
                o = os.path.join(root, tag + "_" + os.path.relpath(s, st if s.startswith(st) else HARN).replace("/", "_").replace(".", "_") + ".o")
                out.append(o)
                if not os.path.exists(o):
                    jobs.append((["g++"] + flags + ["-w", "-c", s, "-o", o + ".tmp"], o))
            return out
        hf = ["-I" + st + "/include", "-I" + HARN, "-O2", "-g", "-fopenmp", "-mavx", "-mfma", "-std=c++17"] + (["-DUSE_CAKE_ARMV8", "-I" + ARM] if arch == "arm" else ["-DUSE_CAKE_HASWELL", "-DUSE_CAKE_PACK"])
        stubs = os.path.join(root, "stubs.cpp")
        write_stubs(stubs, kern)
        for v in variants:
            exe = os.path.join(root, "h_" + v)
            res[v] = exe
            if os.path.exists(exe):
                continue
            if v == "real":
                o = objs("lib", ls, lf) + objs("ker", ks, kf) + objs("h", [h("h_real.cpp")], hf)
                links.append((o, exe, ["popen", "pclose", "malloc", "calloc", "realloc", "posix_memalign", "aligned_alloc", "free"]))
            elif v == "prov":
                o = [stub_obj(stubs, hf, root, jobs)] + objs("lib", ls, lf) + objs("ker", ks, kf) + objs("h", [h("h_prov.cpp")], hf)
                links.append((o, exe, PWRAP))
            elif v == "mem":
                o = [stub_obj(stubs, hf, root, jobs)] + objs("tlib", ls, lf + TS) + objs("tker", ks, kf + TS) + objs("h", [h("h_mem.cpp")], hf)
                links.append((o, exe, WRAP))
        with cf.ThreadPoolExecutor(8) as ex:
            def one(j):
                sh(j[0]); os.rename(j[1] + ".tmp", j[1])
            list(ex.map(one, jobs))
            def lk(l):
                o, exe, wrap = l
                sh(["g++", "-fopenmp", "-rdynamic", "-o", exe + ".tmp"] + o + ["-Wl,--wrap=" + w for w in wrap] +
                   ["-Wl,--allow-multiple-definition", "-Wl,--unresolved-symbols=ignore-in-object-files", "-lpthread", "-ldl"])
                os.rename(exe + ".tmp", exe)
            list(ex.map(lk, links))
        return res
    finally:
        fcntl.flock(lockf, fcntl.LOCK_UN)
        lockf.close()


def stub_obj(src, flags, root, jobs):
    o = os.path.join(root, "stubs.o")
    if not os.path.exists(o) and not any(j[1] == o for j in jobs):
        jobs.append((["g++"] + flags + ["-w", "-c", src, "-o", o + ".tmp"], o))
    return o


def write_stubs(path, kern):
    s = "void prov_kernel(int mr, int nr, float* A, float* B, float* C, int m, int n, int k);\n"
    for n, (a, b) in sorted(kern.items()):
        s += "void %s(float* A, float* B, float* C, int m, int n, int k) { prov_kernel(%d, %d, A, B, C, m, n, k); }\n" % (n, a, b)
    if not os.path.exists(path) or open(path).read() != s:
        open(path, "w").write(s)
