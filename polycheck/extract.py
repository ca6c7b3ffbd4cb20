"""Builds the clang-based extractor, runs it over /repo's current sources and
loads the result.  Everything is keyed on the content of the sources."""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("POLY_REPO", "/repo")
CACHE = os.environ.get("POLY_CACHE", os.path.join(VERIF, ".cache"))
TUCACHE = os.environ.get("POLY_TUCACHE")      # used by dev/mut.py only
LLVM = "/usr/lib/llvm-18"


class AnalysisError(Exception):
    """The machinery could not give an answer (exit 2)."""


def _sha(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def _lock(name):
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_tool():
    src = os.path.join(VERIF, "tool", "extract.cc")
    key = _sha([src, os.path.join(VERIF, "tool", "build.sh")])
    out = os.path.join(CACHE, "polyx-" + key)
    with _lock("tool"):
        if not os.path.exists(out):
            r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh"), src, out],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode or not os.path.exists(out):
                raise AnalysisError("cannot build the extractor:\n" + r.stdout[-4000:])
    return out, key


def source_files():
    res = []
    for d in ("src", "polytope_c", "cmake"):
        for dp, dn, fn in os.walk(os.path.join(REPO, d)):
            if "/PYB11" in dp:
                continue
            for f in fn:
                if f.endswith((".cc", ".hh", ".h", ".c", ".in", ".txt", ".cmake", ".cpp", ".hpp")):
                    res.append(os.path.join(dp, f))
    res.append(os.path.join(REPO, "CMakeLists.txt"))
    return res


def _configure(bld):
    env = dict(os.environ, LC_ALL="C.UTF-8")
    for v in ("OMPI_CC", "OMPI_CXX"):
        env.pop(v, None)
    cmd = ["cmake", "-S", REPO, "-B", bld, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
           "-DCMAKE_C_COMPILER=/usr/bin/mpicc", "-DCMAKE_CXX_COMPILER=/usr/bin/mpic++",
           "-DUSE_MPI=ON", "-DHAVE_MPIEXEC=ON", "-DMPIEXEC=mpirun", "-DUSE_SILO=ON",
           "-DBUILD_C_INTERFACE=ON", "-DC_REAL_TYPE=double", "-DTESTING=OFF",
           "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    cc = os.path.join(bld, "compile_commands.json")
    if r.returncode or not os.path.exists(cc):
        raise AnalysisError("cmake configuration failed:\n" + r.stdout[-4000:])
    files, flags = [], set()
    for e in json.load(open(cc)):
        f = e["file"]
        if f.endswith((".cc", ".cpp")):
            files.append(f)
            for m in re.finditer(r"-(?:I|isystem )\s*(\S+)|-D(\S+)", e["command"]):
                if m.group(1):
                    flags.add("-I" + m.group(1))
                elif m.group(2) != "NDEBUG":
                    flags.add("-D" + m.group(2))
    mpi = subprocess.run(["/usr/bin/mpic++", "--showme:compile"], stdout=subprocess.PIPE, text=True).stdout.split()
    flags |= set(x for x in mpi if x.startswith(("-I", "-D")))
    flags.add("-I" + os.path.join(REPO, "polytope_c"))
    return sorted(set(files)), sorted(flags)


def extract(asserts=False):
    """Returns (list of records, meta).  asserts=True parses with NDEBUG off."""
    tool, tkey = build_tool()
    tus = [os.path.join(VERIF, "tool", "tu", f) for f in sorted(os.listdir(os.path.join(VERIF, "tool", "tu"))) if f.endswith(".cc")]
    key = _sha(source_files() + tus) + "-" + tkey[:8] + ("-a" if asserts else "-n")
    out = os.path.join(CACHE, "ir-" + key + ".json")
    with _lock("ir" + ("a" if asserts else "n")):
        if not os.path.exists(out):
            _run(tool, tus, out, asserts)
    with open(out) as f:
        d = json.load(f)
    return d["recs"], d["meta"]


def _tu_dir(f, asserts):
    n = f.replace(REPO, "R").replace(VERIF, "V").replace("/", "_") + ("-a" if asserts else "-n")
    d = os.path.join(TUCACHE, n)
    os.makedirs(d, exist_ok=True)
    return d


def _hash(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()[:24]


def _tu_load(f, o, asserts, tmp):
    d = _tu_dir(f, asserts)
    for x in os.listdir(d):
        if not x.endswith(".deps"):
            continue
        deps = json.load(open(os.path.join(d, x)))
        try:
            if all(_hash(p.replace("@R@", REPO).replace("@T@", tmp).replace("@V@", VERIF)) == h for p, h in deps):
                with open(os.path.join(d, x[:-5] + ".out")) as a, open(o, "w") as b:
                    b.write(a.read().replace("@R@", REPO).replace("@T@", tmp))
                return True
        except OSError:
            pass
    return False


def _tu_store(f, o, asserts, tmp):
    d = _tu_dir(f, asserts)
    with open(o) as a:
        s = a.read()
    deps = json.loads(s.rstrip().split("\n")[-1])["deps"]
    deps = [p for p in deps if p.startswith((REPO + "/", tmp + "/", VERIF + "/"))] + [f, os.path.join(VERIF, "tool", "extract.cc")]
    dl = sorted({(p.replace(REPO, "@R@").replace(tmp, "@T@").replace(VERIF, "@V@"), _hash(p)) for p in deps})
    x = os.path.join(d, hashlib.md5(repr(dl).encode()).hexdigest())
    with open(x + ".out.%d" % os.getpid(), "w") as b:
        b.write(s.replace(REPO, "@R@").replace(tmp, "@T@"))
    os.replace(x + ".out.%d" % os.getpid(), x + ".out")
    with open(x + ".deps.%d" % os.getpid(), "w") as b:
        json.dump(dl, b)
    os.replace(x + ".deps.%d" % os.getpid(), x + ".deps")


def _run(tool, tus, out, asserts):
    tmp = tempfile.mkdtemp(prefix="polyx.")
    try:
        files, flags = _configure(os.path.join(tmp, "b"))
        if not files:
            raise AnalysisError("no translation units in the configured build")

        def one(f):
            o = os.path.join(tmp, hashlib.md5(f.encode()).hexdigest() + ".jsonl")
            cmd = [tool, "-root", REPO + "/src/", "-root", REPO + "/polytope_c/", "-out", o, f, "--",
                   "-x", "c++", "-std=c++14", "-w", "-resource-dir", LLVM + "/lib/clang/18"] + flags
            if not asserts:
                cmd.append("-DNDEBUG")
            # development aid only: units already extracted from the very same text
            if TUCACHE and _tu_load(f, o, asserts, tmp):
                return f, o, subprocess.CompletedProcess(cmd, 0, "", "")
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            for _ in range(12):
                # an instantiation request of ours that no longer fits the templates is dropped
                src = cmd[cmd.index("-out") + 2]
                bad = set(re.findall(r"^%s:(\d+):\d+: (?:fatal )?error" % re.escape(src), r.stdout, re.M)) | \
                    set(re.findall(r"^%s:(\d+):\d+: note: in instantiation of" % re.escape(src), r.stdout, re.M))
                if not r.returncode or f not in tus or not bad:
                    break
                lines = open(src).read().split("\n")
                for b in bad:
                    lines[int(b) - 1] = "// dropped: " + lines[int(b) - 1]
                    dropped.append(lines[int(b) - 1])
                src = os.path.join(tmp, os.path.basename(f))
                with open(src, "w") as fh:
                    fh.write("\n".join(lines))
                cmd[cmd.index("-out") + 2] = src
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if TUCACHE and r.returncode == 0:
                _tu_store(f, o, asserts, tmp)
            return f, o, r
        recs, seen, dropped = [], set(), []
        work = files + tus
        # heavy units first
        work.sort(key=lambda f: -os.path.getsize(f))
        res = {}
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            for f, o, r in ex.map(one, work):
                if r.returncode or not os.path.exists(o):
                    raise AnalysisError("cannot parse %s:\n%s" % (f, r.stdout[-3000:]))
                res[f] = o
        for f in sorted(res):
            ended = False
            with open(res[f]) as fh:
                for line in fh:
                    d = json.loads(line)
                    k = d["rec"]
                    if k == "end":
                        ended = True
                        continue
                    if k == "error":
                        raise AnalysisError("errors while parsing " + f)
                    ident = (k, d.get("f") or d.get("n"), d.get("file") if k == "global" else "")
                    if ident in seen:
                        continue
                    seen.add(ident)
                    recs.append(d)
            if not ended:
                raise AnalysisError("truncated extraction for " + f)
        meta = {"tus": [os.path.relpath(f, REPO) if f.startswith(REPO) else os.path.basename(f) for f in sorted(res)],
                "asserts": asserts, "dropped": dropped}
        # keep only the newest few caches
        old = sorted((os.path.join(CACHE, x) for x in os.listdir(CACHE) if x.startswith("ir-")), key=os.path.getmtime)
        for x in old[:-5]:
            try:
                os.unlink(x)
            except OSError:
                pass
        with open(out + ".tmp", "w") as fh:
            json.dump({"recs": recs, "meta": meta}, fh)
        os.replace(out + ".tmp", out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
