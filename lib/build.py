"""Compiles a harness with the /repo sources it needs, from /repo's current working tree.

Objects are kept in /verif/build/obj (ignored by git), keyed by the content of every file that went
into them, so an edit anywhere in /repo is seen and nothing else is recompiled.  Nothing is written
in /repo.
"""
import concurrent.futures
import fcntl
import hashlib
import os
import subprocess
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "build")
OBJ = os.path.join(OUT, "obj")
INCS = [REPO, REPO + "/core", REPO + "/aspects", REPO + "/ms-utils", REPO + "/gunns-ts-models"]
FLAGS = ["-Dno_TRICK_ENV=1", "-O1", "-g0", "-w", "-std=c++14"] + ["-I" + i for i in INCS]
HFLAGS = ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "harness", "stub"), "-fno-access-control"]
OMIT = {"TsHsConsolePlugin.cpp", "TsHsMsgStdFilter.cpp", "TsHsStdMngr.cpp", "TsHsTextPlugin.cpp",
        "TsMemoryManager.cpp", "TS_timer.c", "TS_conversions.c", "GunnsGasCooledTurbine.cpp",
        "FetSwitch.cpp", "FetSwitchElect.cpp", "TS_hs_msg.cpp", "TS_sgmt_conversion.c",
        "TsHsSqlitePlugin.cpp"}


class BuildError(Exception):
    pass


_hash_cache = {}


def fhash(path):
    h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_cache[path] = h
    return h


def _deps_of(dfile):
    with open(dfile) as f:
        txt = f.read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [os.path.normpath(p) for p in txt.split()]


def _state_key(deps):
    h = hashlib.sha256()
    for d in sorted(set(deps)):
        if d.startswith("/usr/"):
            continue
        h.update(d.encode() + b"=" + fhash(d).encode() + b"\n")
    return h.hexdigest()


def compile_one(src, flags):
    """Returns (object path, dependency list)."""
    tag = hashlib.sha256((src + " " + " ".join(flags)).encode()).hexdigest()[:24]
    base = os.path.join(OBJ, os.path.basename(src) + "." + tag)
    obj, dep, key = base + ".o", base + ".d", base + ".key"
    if os.path.exists(obj) and os.path.exists(dep) and os.path.exists(key):
        deps = _deps_of(dep)
        with open(key) as f:
            if f.read() == _state_key(deps):
                return obj, deps
    tmp = "%s.%d" % (base, os.getpid())
    start = time.time()
    cc = ["gcc"] + [f for f in flags if not f.startswith("-std=c++") and f != "-fno-access-control"] \
        if src.endswith(".c") else ["g++"] + flags
    p = subprocess.run(cc + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, p.stdout[-4000:]))
    deps = _deps_of(tmp + ".d")
    os.rename(tmp + ".d", dep)
    os.rename(tmp + ".o", obj)
    if any(os.path.exists(d) and os.stat(d).st_mtime >= start - 1.0 for d in deps):
        if os.path.exists(key):     # a file changed while it was being compiled: the object is not for reuse
            os.remove(key)
        return obj, deps
    with open(key + ".tmp%d" % os.getpid(), "w") as f:
        f.write(_state_key(deps))
    os.rename(key + ".tmp%d" % os.getpid(), key)
    return obj, deps


def _siblings(deps):
    out = []
    for d in deps:
        if not d.startswith(REPO + "/") or "/test/" in d or "/_build/" in d:
            continue
        root, ext = os.path.splitext(d)
        if ext in (".hh", ".h", ".hpp"):
            for e in (".cpp", ".c"):
                s = root + e
                if os.path.exists(s) and os.path.basename(s) not in OMIT:
                    out.append(s)
    return out


def build(name, extra=(), defines=()):
    """Builds /verif/harness/<name>.cpp and returns the path of the program. A source file that the harness includes is
    not compiled again on its own."""
    os.makedirs(OBJ, exist_ok=True)
    lock = open(os.path.join(OUT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        seen, links, included = set(), [], set()
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            todo = {(os.path.join(VERIF, "harness", name + ".cpp"), True)}
            todo |= {(os.path.join(REPO, e), False) for e in extra}
            while todo:
                seen |= {t[0] for t in todo}
                batch = sorted(todo)
                futs = [ex.submit(compile_one, s, FLAGS + list(defines) + (HFLAGS if h else [])) for s, h in batch]
                todo = set()
                for (src, own), f in zip(batch, futs):
                    obj, deps = f.result()
                    links.append(obj)
                    if own:
                        included |= {os.path.normpath(d) for d in deps if d.endswith(".cpp")}
                    for s in _siblings(deps):
                        if s not in seen and os.path.normpath(s) not in included:
                            todo.add((s, False))
        exe = os.path.join(OUT, "bin", name)
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        lk = hashlib.sha256(("\n".join("%s %s" % (o, fhash_nocache(o)) for o in sorted(links))).encode()).hexdigest()
        if os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == lk:
            return exe
        p = subprocess.run(["g++", "-o", exe + ".tmp"] + sorted(links) + ["-lm", "-lpthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if p.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (name, p.stdout[-4000:]))
        os.rename(exe + ".tmp", exe)
        with open(exe + ".key", "w") as f:
            f.write(lk)
        return exe
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def fhash_nocache(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()
