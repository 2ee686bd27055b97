"""Shared machinery of the checks: building drivers from /repo's working tree,
running TLC, writing evidence and reporting violations."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
JOBS = os.cpu_count() or 4
CLASSPATH = ":".join(["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"])


class CheckError(Exception):
    """The check itself could not do its work (never a violation)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def scale(quick, thorough):
    return thorough if TIER == "thorough" else quick


# ---------------------------------------------------------------------------
# building

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read_bytes(path):
    with open(path, "rb") as f:
        return f.read()


def source_files(root, exts=(".h", ".hpp", ".cpp", ".c", ".in", ".xml")):
    res = []
    for d, _, files in os.walk(root):
        if os.path.basename(d) in ("test", "windows"):
            continue
        for f in files:
            if f.endswith(exts):
                res.append(os.path.join(d, f))
    return sorted(res)


def globs(*patterns):
    import glob
    res = []
    for p in patterns:
        res += sorted(glob.glob(os.path.join(REPO, "src", p)))
    return res


def ensure_version_header(incdir):
    """the generated header which CMake would place in the source tree"""
    os.makedirs(os.path.join(incdir, "common"), exist_ok=True)
    path = os.path.join(incdir, "common", "_version.h")
    if not os.path.exists(path):
        with open(path, "w") as f:
            f.write('#pragma once\n\nconst auto about_header =\n  "keymapper verification build\\n";\n')


def build_driver(name, sources, defines=(), flags=(), libs=(), opt="-O1", sanitize=True,
                 includes=(), repo_headers=None):
    """compile sources (harness files and repository files) to build/bin/<name>-<hash>"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    headers = [f for f in source_files(os.path.join(REPO, "src")) if f.endswith((".h", ".hpp", ".in"))]
    headers += [f for f in source_files(os.path.join(VERIF, "harness")) if f.endswith((".h", ".hpp"))]
    hh = sha(*[f.encode() + b"\0" + read_bytes(f) for f in headers])
    base = ["g++", "-std=c++17", opt, "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-U_FORTIFY_SOURCE",
            "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "harness")]
    base += ["-I" + i for i in includes]
    if sanitize:
        base += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
    base += list(flags)
    base += ["-D" + d for d in defines]

    def compile_one(src):
        # sources may be included as well
        text = read_bytes(src)
        inner = [read_bytes(os.path.join(REPO, "src", f.decode())) for f in re.findall(rb'^#include "(.*\.cpp)"', text, re.M)]
        key = sha(hh, " ".join(base), src, text, *inner)
        obj = os.path.join(BUILD, "obj", os.path.basename(src).replace(".", "_") + "-" + key + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            r = subprocess.run(base + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CheckError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
            os.replace(tmp, obj)
        return obj

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(compile_one, sources))
    exe = os.path.join(BUILD, "bin", name + "-" + sha(" ".join(objs), " ".join(base), " ".join(libs)))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()

        def link(more=()):
            return subprocess.run(base + objs + list(more) + list(libs) + ["-o", tmp],
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r = link()
        if r.returncode and "undefined reference" in r.stdout:
            # code may have moved to other files, of which only what is needed is taken
            def compile_other(src):
                try:
                    return compile_one(src)
                except CheckError:
                    return None
            others = [f for f in source_files(os.path.join(REPO, "src"), (".cpp",))
                      if f not in sources and os.path.basename(f) != "main.cpp" and "/src/control/" not in f]
            with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
                more = [o for o in ex.map(compile_other, others) if o]
            archive = tmp + ".a"
            if more and subprocess.run(["ar", "rcs", archive] + more).returncode == 0:
                r = link([archive])
                os.remove(archive)
        if r.returncode:
            raise CheckError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
        os.replace(tmp, exe)
    return exe


# ---------------------------------------------------------------------------
# TLC

class TlcResult:
    def __init__(self):
        self.out = ""
        self.generated = self.distinct = self.depth = 0
        self.violated = None


def tlc(module, cfg=None, env=None, workers=None, timeout=800, extra=(), xmx="6g"):
    """run TLC on spec/<module>.tla; returns TlcResult, raises CheckError when
    TLC itself fails"""
    work = tempfile.mkdtemp(prefix="tlc-", dir=ensure_dir(os.path.join(BUILD, "tmp")))
    try:
        cmd = ["java", "-Xss64m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4",
               "-Djava.io.tmpdir=" + work, "-cp", CLASSPATH, "tlc2.TLC",
               "-noGenerateSpecTE", "-workers", str(workers or JOBS), "-metadir", os.path.join(work, "md"),
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), *extra,
               os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC exceeded %d s on %s" % (timeout, module))
        r = TlcResult()
        r.out = p.stdout
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", p.stdout)
        if m:
            r.generated, r.distinct = int(m.group(1)), int(m.group(2))
        m = re.search(r"depth of the complete state graph search is (\d+)", p.stdout)
        if m:
            r.depth = int(m.group(1))
        m = re.search(r"(?:Invariant|Action property|property) (\S+) (?:is|was) violated", p.stdout)
        if m:
            r.violated = m.group(1)
        elif p.returncode or not r.generated:
            raise CheckError("TLC failed on %s (exit %d):\n%s" % (module, p.returncode, p.stdout[-3000:]))
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def ensure_dir(d):
    os.makedirs(d, exist_ok=True)
    return d


def cached(kind, key_parts, produce):
    """cache of results which depend on the specification only"""
    d = ensure_dir(os.path.join(BUILD, "cache"))
    path = os.path.join(d, "%s-%s.json" % (kind, sha(*key_parts)))
    if os.path.exists(path):
        try:
            with open(path) as f:
                return json.load(f), True
        except ValueError:
            pass
    data = produce()
    tmp = path + ".%d.tmp" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(data, f)
    os.replace(tmp, path)
    return data, False


def spec_hash(*modules):
    return sha(*[read_bytes(os.path.join(SPEC, m)) for m in modules])


class Scratch:
    """a scratch directory below build/tmp, removed on exit"""
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="run-", dir=ensure_dir(os.path.join(BUILD, "tmp")))
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def prune_build(limit_mb=1500):
    """keep the git-ignored build directory bounded"""
    files = []
    for d, _, fs in os.walk(BUILD):
        for f in fs:
            p = os.path.join(d, f)
            try:
                st = os.stat(p)
                files.append((st.st_mtime, st.st_size, p))
            except OSError:
                pass
    total = sum(f[1] for f in files)
    for _, size, p in sorted(files):
        if total < limit_mb << 20:
            break
        if os.sep + "cache" + os.sep in p:
            continue
        try:
            os.remove(p)
            total -= size
        except OSError:
            pass


# ---------------------------------------------------------------------------
# reporting

class Report:
    """collects the outcome of one check"""
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.start = time.time()
        self.violations = []
        self.coverage = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.known = load_known(prop)
        self.known_seen = {}

    def add(self, key, n):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def sample(self, s, limit=4):
        if len(self.coverage["samples"]) < limit:
            self.coverage["samples"].append(s)

    def violation(self, what, replay):
        """what: one line, replay: JSON-able description to reproduce"""
        for k in self.known:
            if k["match"](what, replay):
                self.known_seen[k["id"]] = k
                return
        self.violations.append((what, replay))

    def finish(self):
        d = ensure_dir(os.path.join(VERIF, "evidence"))
        self.coverage["tier_limits"] = TIER
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": self.coverage, "wall_s": round(time.time() - self.start, 2),
              "violations": len(self.violations)}
        tmp = os.path.join(d, self.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, self.prop + ".json"))
        for k in self.known_seen.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
        if not self.violations:
            print("OK property=%s wall=%.1fs %s" % (self.prop, ev["wall_s"], json.dumps(
                {k: v for k, v in self.coverage.items() if isinstance(v, int)})))
            return 0
        rd = ensure_dir(os.path.join(VERIF, "replay"))
        path = os.path.join(rd, self.prop + ".json")
        with open(path, "w") as f:
            json.dump([{"what": w, "replay": r} for w, r in self.violations[:20]], f, indent=1)
        for w, _ in self.violations[:5]:
            print("  " + w)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        return 1


def load_known(prop):
    """known-findings.json: [{id, property, text, where: {...}}]"""
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    res = []
    for k in data.get("known", []):
        if k["property"] != prop:
            continue
        ident = k["identify"]

        def match(what, replay, ident=ident):
            return isinstance(replay, dict) and all(replay.get(a) == b for a, b in ident.items())
        res.append(dict(id=k["id"], text=k["text"], match=match))
    return res
