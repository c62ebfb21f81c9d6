"""Builds the test driver, the command-line program and the dictionary
compiler from the current working tree of /repo.

Objects are cached under /verif/build, keyed on the preprocessed source text
and the flags, so that an unchanged file is never compiled twice and a changed
one always is."""

import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUILD = os.path.join(VERIF, "build")
DRIVER = os.path.join(VERIF, "harness", "driver")

FLAVOURS = {
    # asserts on, memory errors, undefined behaviour, container misuse
    "san": ["-O1", "-g1", "-fsanitize=address,undefined",
            "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
            "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_DEBUG"],
    # release configuration
    "fast": ["-O2", "-DNDEBUG"],
    # counts executed basic blocks
    "cov": ["-O1", "-DNDEBUG", "-fsanitize-coverage=trace-pc"],
    # counts blocks of memory and open files
    "mem": ["-O1", "-DNDEBUG"],
}
STDS = ["-std=gnu++14", "-std=gnu++17"]
LIBS = ["-lthai", "-ldatrie"]


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


_compiler_id = {}


def compiler_id(cc):
    if cc not in _compiler_id:
        _compiler_id[cc] = _run([cc, "--version"]).stdout
    return _compiler_id[cc]


def _compile(cc, src, flags):
    """Compile to a cached object; returns (path, None) or (None, error)."""
    pre = _run([cc, "-E", "-P"] + flags + [src])
    if pre.returncode:
        return None, pre.stderr.decode("utf-8", "replace")
    h = hashlib.sha256()
    for part in (compiler_id(cc), "\0".join(flags).encode(), pre.stdout):
        h.update(hashlib.sha256(part).digest())
    obj = os.path.join(BUILD, "obj", h.hexdigest()[:32] + ".o")
    if os.path.exists(obj):
        return obj, None
    tmp = obj + ".tmp%d" % os.getpid() + os.path.basename(src)
    r = _run([cc, "-c", "-w"] + flags + [src, "-o", tmp])
    if r.returncode:
        return None, r.stderr.decode("utf-8", "replace")
    os.replace(tmp, obj)
    return obj, None


def _link(cc, objs, flags, libs, name):
    h = hashlib.sha256()
    for part in [compiler_id(cc), "\0".join(flags + libs).encode()] + [o.encode() for o in objs]:
        h.update(hashlib.sha256(part).digest())
    d = os.path.join(BUILD, "bin", h.hexdigest()[:24])
    out = os.path.join(d, name)
    if os.path.exists(out):
        return out
    os.makedirs(d, exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    r = _run([cc] + flags + objs + ["-o", tmp] + libs)
    if r.returncode:
        raise BuildError("link %s: %s" % (name, r.stderr.decode("utf-8", "replace")[-3000:]))
    os.replace(tmp, out)
    return out


def _has_main(path):
    with open(path, encoding="utf-8", errors="replace") as f:
        txt = f.read()
    import re
    return re.search(r"^(int\s+)?main\s*\(", txt, re.M) is not None


def _files(top, exts):
    """Sources below a directory of the repository, tests left out."""
    out = []
    for d, sub, names in os.walk(os.path.join(REPO, top)):
        sub[:] = [x for x in sub if not x.startswith((".", "_")) and x not in ("tests", "test")]
        out += [os.path.join(d, n) for n in names if n.endswith(exts) and not n.startswith((".", "#"))]
    return sorted(out)


CXX = (".cxx", ".cc", ".cpp")


def repo_sources():
    """(library sources, program sources) of the working tree."""
    lib, prog = [], []
    for d in sorted(os.listdir(REPO)):
        if d.startswith((".", "_")) or d in ("tests", "test", "build-aux", "autom4te.cache", "doc", "docs", "m4"):
            continue
        for f in _files(d, CXX):
            if d == "thpronun":
                prog.append(f)
            elif not _has_main(f):
                lib.append(f)
    return lib, prog


def _flags(flavour):
    fl = ["-I" + REPO, "-I" + DRIVER] + FLAVOURS[flavour]
    if os.path.isdir(os.path.join(REPO, "_build")):
        fl.append("-I" + os.path.join(REPO, "_build"))
    return fl + _late_dirs()


def _late_dirs():
    """Directories looked into last, for sources that were moved about."""
    out = []
    for d in sorted(os.listdir(REPO)):
        if not d.startswith((".", "_")) and glob.glob(os.path.join(REPO, d, "*.h")):
            out += ["-idirafter", os.path.join(REPO, d)]
    return out + ["-idirafter", os.path.join(DRIVER, "fallback")]


class Lock:
    def __enter__(self):
        for d in ("obj", "bin", "tmp"):
            os.makedirs(os.path.join(BUILD, d), exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def _compile_many(cc, jobs):
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        return list(ex.map(lambda j: _compile(cc, j[0], j[1]), jobs))


def build_cxx(flavours=("san", "fast"), want=("driver", "cli")):
    """Returns {flavour: {"driver": path, "cli": path, "missing": [...]}}."""
    with Lock():
        lib, prog = repo_sources()
        if not lib or not prog:
            raise BuildError("no sources found")
        sections = sorted(glob.glob(os.path.join(DRIVER, "*.cc")))
        own = {"sec_cov.cc": "cov", "sec_mem.cc": "mem"}
        jobs, what = [], []
        for fl in flavours:
            base = _flags(fl)
            for s in lib:
                jobs.append((s, base)); what.append((fl, "lib", s))
            if "cli" in want:
                for s in prog:
                    jobs.append((s, base + ['-DEXCEPT_DICT_DIR="."',
                                            '-DVERSION="9.9.9-test"',
                                            '-DPACKAGE_VERSION="9.9.9-test"',
                                            '-DPACKAGE_NAME="thpronun"',
                                            '-DPACKAGE="thpronun"']))
                    what.append((fl, "prog", s))
            if "driver" in want:
                for s in sections:
                    if own.get(os.path.basename(s), fl) != fl:
                        continue
                    f = base
                    if s.endswith("sec_cov.cc"):
                        f = [x for x in base if "coverage" not in x]
                    jobs.append((s, f)); what.append((fl, "drv", s))
        last = None
        for std in STDS:
            res = _compile_many("g++", [(s, [std] + f) for s, f in jobs])
            bad = [(w, r[1]) for w, r in zip(what, res) if r[0] is None
                   and (w[1] != "drv" or w[2].endswith("main.cc"))]
            if not bad:
                break
            last = bad
        else:
            raise BuildError("compile %s: %s" % (last[0][0][2], last[0][1][-3000:]))
        out = {}
        for fl in flavours:
            mine = [(w, r) for w, r in zip(what, res) if w[0] == fl]
            libo = [r[0] for w, r in mine if w[1] == "lib"]
            drvo = [r[0] for w, r in mine if w[1] == "drv" and r[0]]
            prgo = [r[0] for w, r in mine if w[1] == "prog"]
            lf = [x for x in FLAVOURS[fl] if x.startswith("-fsanitize=")]
            o = {"missing": [os.path.basename(w[2]) for w, r in mine if w[1] == "drv" and not r[0]]}
            if "driver" in want:
                o["driver"] = _link("g++", libo + drvo, lf, LIBS, "driver")
            if "cli" in want and fl != "cov":
                o["cli"] = _link("g++", libo + prgo, lf, LIBS, "thpronun")
            out[fl] = o
        return out


GLD_FLAGS = {
    "default": ["-g", "-O2", "-fno-strict-aliasing"],
    "O0": ["-O0"], "O1": ["-O1"], "O2": ["-O2"], "O3": ["-O3"],
    "san": ["-g1", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
            "-fno-omit-frame-pointer"],
}


def build_gld(kinds=("default",)):
    """Dictionary compiler, one binary per set of flags."""
    with Lock():
        srcs = _files("dict", (".c",))
        cc, std = "gcc", []
        if not any(_has_main(s) for s in srcs):
            srcs = [s for s in _files("dict", CXX) if _has_main(s)]
            cc, std = "g++", STDS[:1]
        if not srcs:
            raise BuildError("no dictionary compiler source")
        jobs = [(s, ["-I" + REPO] + _late_dirs() + std + GLD_FLAGS[k]) for k in kinds for s in srcs]
        res = _compile_many(cc, jobs)
        for j, r in zip(jobs, res):
            if r[0] is None:
                raise BuildError("compile %s: %s" % (j[0], r[1][-3000:]))
        out = {}
        for i, k in enumerate(kinds):
            objs = [r[0] for r in res[i * len(srcs):(i + 1) * len(srcs)]]
            lf = [x for x in GLD_FLAGS[k] if x.startswith("-fsanitize=")]
            out[k] = _link(cc, objs, lf, LIBS, "gen-lookup-dict")
        return out


def shipped_lines():
    """Lines of the shipped exception lists, as the build assembles them."""
    lines = set()
    for f in sorted(glob.glob(os.path.join(REPO, "data", "*.tsv"))):
        with open(f, "rb") as fh:
            for l in fh.read().split(b"\n"):
                if l:
                    lines.add(l)
    return sorted(lines)


def scratch(prefix):
    base = os.path.join(BUILD, "tmp")
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix, dir=base)


def rmscratch(path):
    base = os.path.realpath(os.path.join(BUILD, "tmp")) + os.sep
    if os.path.realpath(path).startswith(base):
        shutil.rmtree(path, ignore_errors=True)
