"""Builds libisl.so from the current working tree of /repo into a folder git
ignores, object by object, with a cache keyed by the contents of everything the
object was compiled from (never by time stamps)."""
import hashlib, json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
OUT = os.environ.get("VP_BUILD", os.path.join(VERIF, ".build"))
LIB = os.path.join(VERIF, "lib")
ENV = {k: v for k, v in os.environ.items() if k != "LD_LIBRARY_PATH"}
ENV["LC_ALL"] = "C.UTF-8"


class BuildError(Exception):
    pass


def sources():
    text = open(os.path.join(REPO, "Makefile.am")).read()
    m = re.search(r"^libisl_la_SOURCES\s*=\s*((?:.*\\\n)*.*)\n", text, re.M)
    names = m.group(1).replace("\\\n", " ").split()
    srcs = [n for n in names if n.endswith(".c")]
    srcs += ["isl_gmp.c", "isl_val_gmp.c", "basis_reduction_tab.c"]
    return list(dict.fromkeys(s for s in srcs if s != "isl_ffs.c"))


_hash_cache = {}


def fhash(path):
    if path not in _hash_cache:
        try:
            with open(path, "rb") as f:
                _hash_cache[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hash_cache[path] = "missing"
    return _hash_cache[path]


def depfile(path):
    text = open(path).read().replace("\\\n", " ")
    text = text.split(":", 1)[1] if ":" in text else ""
    return [os.path.normpath(x) for x in text.split()]


def key_of(cmd, deps):
    h = hashlib.sha256(" ".join(cmd).encode())
    for d in sorted(set(deps)):
        h.update(d.encode())
        h.update(fhash(d).encode())
    return h.hexdigest()


def compile_one(src, obj, flags, cc):
    cmd = [cc, "-c", src, "-o", obj, "-MD", "-MF", obj + ".d"] + flags
    meta = obj + ".key"
    if os.path.exists(obj) and os.path.exists(meta) and os.path.exists(obj + ".d"):
        if open(meta).read() == key_of(cmd, depfile(obj + ".d")):
            return False
    if os.path.exists(meta):
        os.unlink(meta)
    p = subprocess.run(cmd, cwd=REPO, env=ENV, capture_output=True, text=True)
    if p.returncode:
        raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
    with open(meta, "w") as f:
        f.write(key_of(cmd, depfile(obj + ".d")))
    return True


def incflags():
    return ["-I" + os.path.join(LIB, "cfg"), "-I" + REPO + "/include", "-I" + REPO]


def build(name="isl", opt=("-O1",), cc="gcc", extra=(), link_extra=(), wrap=True):
    """Returns the path of the shared library."""
    odir = os.path.join(OUT, name)
    os.makedirs(odir, exist_ok=True)
    flags = list(opt) + ["-g1", "-fPIC", "-w"] + list(extra) + incflags()
    jobs = []
    for s in sources():
        jobs.append((os.path.join(REPO, s), os.path.join(odir, s.replace("/", "_")[:-2] + ".o")))
    for s in ("vp_helper.c",):
        jobs.append((os.path.join(LIB, "csrc", s), os.path.join(odir, s[:-2] + ".o")))
    # big files first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(8) as pool:
        changed = list(pool.map(lambda j: compile_one(j[0], j[1], flags, cc), jobs))
    so = os.path.join(odir, "libislvp.so")
    objs = [j[1] for j in jobs]
    lcmd = [cc, "-shared", "-o", so] + objs + list(link_extra)
    if wrap:
        lcmd += ["-Wl," + ",".join("--wrap=" + f for f in
                                   ("malloc", "calloc", "realloc", "free", "strdup"))]
    lcmd += ["-lgmp", "-lpthread"]
    lkey = hashlib.sha256((" ".join(lcmd)).encode()).hexdigest()
    kf = so + ".key"
    if any(changed) or not os.path.exists(so) or not os.path.exists(kf) or open(kf).read() != lkey:
        p = subprocess.run(lcmd, env=ENV, capture_output=True, text=True)
        if p.returncode:
            raise BuildError("link failed: %s" % p.stderr[-4000:])
        with open(kf, "w") as f:
            f.write(lkey)
    return so


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(), "%.1fs" % (time.time() - t))
