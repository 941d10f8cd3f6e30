"""Front end: parse every project translation unit with hfacts and merge.

The result is cached under /verif/.cache keyed by a hash of every source
byte that went in (repo sources, stubs, the tool itself), so a cache hit is
exactly the analysis of the current tree.
"""
import hashlib, json, os, pickle, subprocess, sys, shutil, zlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HELFEM_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
LLVM = "/usr/lib/llvm-18"

class AnalysisBroken(Exception):
    """The analysis could not be carried out (exit 2, never 0 or 1)."""

SKIP_DIRS = ("_build", ".git", "tests", "examples", "python", "docs", "tools", "cmake")

def tool_path():
    src = os.path.join(VERIF, "tool", "hfacts.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(CACHE, "hfacts-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = ["g++", "-O1", "-std=c++17", "-fno-rtti", "-fno-exceptions", "-w",
           "-I" + LLVM + "/include", src, "-o", tmp, "-L" + LLVM + "/lib",
           "-l:libclang-cpp.so.18.1", "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("cannot build the AST exporter:\n" + r.stderr[-3000:])
    os.replace(tmp, out)
    return out

def project_files():
    fs = []
    for base in ("libhelfem", "libhelfemqc", "src"):
        for d, dn, fn in os.walk(os.path.join(REPO, base)):
            dn[:] = sorted(x for x in dn if x not in SKIP_DIRS)
            for f in sorted(fn):
                if f.endswith((".cpp", ".h", ".hpp", ".cc", ".cxx", ".ipp", ".inc")):
                    fs.append(os.path.join(d, f))
    return fs

# Not part of any library or program, and not self-contained: the stale
# duplicate of libhelfem/src/RadialPotential.cpp does not compile anywhere.
DEAD_TU = {"src/general/RadialPotential.cpp"}

def tus():
    return [f for f in project_files() if f.endswith((".cpp", ".cc", ".cxx"))
            and os.path.relpath(f, REPO) not in DEAD_TU]

def flags(gen):
    return ["-w", "-std=gnu++23", "-fopenmp", "-DNDEBUG", "-DEIGEN_USE_BLAS",
            "-resource-dir", LLVM + "/lib/clang/18",
            "-I" + gen,
            "-I" + os.path.join(REPO, "libhelfem/include"),
            "-I" + os.path.join(REPO, "libhelfemqc/include"),
            "-I" + os.path.join(REPO, "libhelfem/src"),
            "-I" + os.path.join(REPO, "src"),
            "-I" + os.path.join(REPO, "src/general"),
            "-I/usr/include/hdf5/serial",
            "-I" + os.path.join(VERIF, "stubs"),
            "-isystem", "/usr/include/eigen3"]

def _stub_files():
    out = []
    for d, dn, fn in os.walk(os.path.join(VERIF, "stubs")):
        dn.sort()
        out += [os.path.join(d, f) for f in sorted(fn)]
    return out

def _hashes():
    """(hash of everything any unit may include, per-unit hashes)"""
    h = hashlib.sha256()
    units = set(tus())
    included = set()
    for f in project_files():
        for ln in open(f, errors="replace"):
            if ln.lstrip().startswith("#include") and ".cpp" in ln: included.add(os.path.basename(ln.split('"')[1]) if '"' in ln else "")
    for f in project_files():
        if f in units and os.path.basename(f) not in included: continue
        h.update(os.path.relpath(f, REPO).encode()); h.update(b"\0")
        h.update(open(f, "rb").read()); h.update(b"\0")
    for f in _stub_files():
        if f.endswith("instantiate.cpp"): continue
        h.update(open(f, "rb").read())
    h.update(open(os.path.join(VERIF, "tool", "hfacts.cpp"), "rb").read())
    h.update(" ".join(flags("gen")).encode())
    common = h.digest()
    per = {}
    for f in sorted(units) + [os.path.join(VERIF, "stubs", "instantiate.cpp")]:
        k = hashlib.sha256(common)
        k.update(os.path.relpath(f, REPO if f in units else VERIF).encode())
        k.update(open(f, "rb").read())
        per[f] = k.hexdigest()[:24]
    return per

def _prune(prefix, keep):
    try:
        ds = [os.path.join(CACHE, x) for x in os.listdir(CACHE) if x.startswith(prefix)]
        ds.sort(key=os.path.getmtime)
        for x in ds[:-keep]:
            os.remove(x)
    except OSError:
        pass

def facts():
    """Parse the whole tree; returns the merged program (see program.py)."""
    per = _hashes()
    h = hashlib.sha256(repr(sorted((os.path.basename(f), v) for f, v in per.items())).encode()).hexdigest()[:24]
    os.makedirs(CACHE, exist_ok=True)
    pk = os.path.join(CACHE, "facts-" + h + ".pkl")
    if os.path.exists(pk):
        try:
            with open(pk, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    tool = tool_path()
    work = os.path.join(CACHE, "work-%d" % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    gen = os.path.join(work, "gen")
    os.makedirs(gen)
    src = os.path.join(REPO, "libhelfem/include/helfem.source.h")
    if os.path.exists(src):
        with open(os.path.join(gen, "helfem.h"), "w") as f:
            f.write(open(src).read().replace("${LIBHELFEM_VERSION}", "v0"))
    fl = flags(gen)
    todo = tus()
    extra = os.path.join(VERIF, "stubs", "instantiate.cpp")
    todo.append(extra)
    todo.sort(key=lambda f: -os.path.getsize(f))     # longest first
    rel = lambda f: os.path.relpath(f, REPO) if f != extra else "stubs/instantiate.cpp"

    def one(f):
        c = os.path.join(CACHE, "tu-" + per[f] + ".z")
        if os.path.exists(c):
            try:
                d = json.loads(zlib.decompress(open(c, "rb").read()))
                os.utime(c)
                return f, d, 0, ""
            except Exception:
                pass
        o = os.path.join(work, hashlib.md5(f.encode()).hexdigest() + ".json")
        r = subprocess.run([tool, o, REPO, "--"] + fl + [f], capture_output=True, text=True, timeout=600)
        d = None
        if r.returncode == 0 and os.path.exists(o):
            raw = open(o, "rb").read()
            d = json.loads(raw)
            tmp = c + ".%d.tmp" % os.getpid()
            with open(tmp, "wb") as g: g.write(zlib.compress(raw, 1))
            os.replace(tmp, c)
            os.remove(o)
        return f, d, r.returncode, r.stderr
    out, bad = [], []
    try:
        with ThreadPoolExecutor(8) as ex:
            for f, d, rc, err in ex.map(one, todo):
                if d is None:
                    if f != extra:      # the extra unit only widens coverage
                        bad.append((rel(f), err[-1500:]))
                else:
                    out.append((rel(f), d))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if bad:
        raise AnalysisBroken("cannot parse: " + "; ".join("%s: %s" % b for b in bad[:5]))
    out.sort(key=lambda x: x[0])
    res = {"tus": [f for f, _ in out], "data": out}
    tmp = pk + ".%d.tmp" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(res, f, protocol=4)
    os.replace(tmp, pk)
    _prune("facts-", 3)
    _prune("tu-", 400)
    return res

if __name__ == "__main__":
    import time
    t = time.time()
    r = facts()
    print(len(r["tus"]), "TUs", sum(len(d["funcs"]) for _, d in r["data"]), "function instances", "%.1fs" % (time.time() - t))
