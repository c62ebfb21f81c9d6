from checks.common import *
from vp import dicts
import os
import shutil
import subprocess

# ways to name a file: %s is the scratch directory, then the name proper
NAMES = ["%s/%s", "%.0s%s", "%.0s./%s", "%.0s.%s", "%s/./%s", "%.0sdict-%s", "%.0s %s x", "%.0sก%s", "%.0s" + "n" * 150 + "%s", "%.0s-%s",
         "%.0s=%s", "%.0s~%s", "%.0s'%s", "%.0s\"%s\\", "%.0s$x%s;", "%.0s:%s", "%.0s%s,1", "%.0s%s.gz", "%.0s\xff%s"]


# what is not there
GONE = ["no-such-file", "no-such-dir/", "no-such-dir/x.dic", "no-such-dir//", "no-such-dir/..", "x" * 300, "no-such-dir/" * 500, "except.dic",
        "x.dic\n", "no such", "-", "0"]


class P13(Check):
    """Dictionary files cut at any byte, or not dictionaries at all, loaded
    in any order into analysers and into the program."""
    ID = "P13"
    GLD = ("default",)
    WANT = ("driver", "cli")
    RULE = "history with at least one failing load of a file that exists, and a text that some dictionary changes; " \
           "counted by files, history and texts"

    def make(self, env, f, made):
        """Write the file described by f; returns (path, model dictionary or None)."""
        name = NAMES[f.get("name", 0)]
        if f["kind"] == "missing":
            return name % (env.scratch, GONE[f.get("how", 0)]), None
        if f["kind"] == "directory":
            return name % (env.scratch, "") if name.endswith("/%s") else env.scratch, None
        # programs run in the scratch directory, so that the path may be relative
        given = name % (env.scratch, os.path.basename(dicts.fresh(env, ".dic")))
        path = os.path.join(env.scratch, given)
        made.append(path)
        if f["kind"] == "bytes":
            with open(path, "wb") as fh:
                fh.write(bytes.fromhex(f["raw"]))
            return given, None
        rc, p, err = dicts.compile_lines(env, [dicts.entry_line(k, a) for k, a in f["dic"]])
        if rc:
            raise RuntimeError("cannot compile: " + err)
        os.replace(p, path)
        if f["kind"] == "good":
            return given, dicts.as_model(f["dic"])
        blob = open(path, "rb").read()
        n = f["cut"] % len(blob) if f["cut"] >= 0 else len(blob) + f["cut"]
        n = max(0, min(n, len(blob) - 1))
        with open(path, "wb") as fh:
            fh.write(blob[:n])
        return given, None

    def expect(self, env, w, seg, md):
        u = T.u16(w)
        return model.analyse(u, breaks(env, w) if seg else (), md)

    def evaluate(self, env, case):
        made = []
        try:
            files = [self.make(env, f, made) for f in case["files"]]
            if case["mode"] == "cli":
                std = self.make(env, case["std"], made) if case.get("std") else None
                return self.cli(env, case, files, std, made)
            d = env.drv
            seg = case["seg"]
            failed = changed = 0
            cur = None
            first = True
            for fi in case["loads"]:
                path, md = files[fi]
                if first and case["ctor"]:
                    # a failing load at creation leaves an analyser without dictionary
                    d.ask("parser", "x", str(seg), hx(path), "ctor")
                else:
                    if first:
                        d.ask("parser", "x", str(seg), "-", "load")
                    ok = d.ask("load", "x", hx(path))[1] == "1"
                    if ok != (md is not None):
                        return "load: of %s said %d" % (case["files"][fi]["kind"], ok), None, ""
                first = False
                cur = md
                failed += md is None and case["files"][fi]["kind"] != "missing"
                for w in case["texts"]:
                    code = edges_of(d.ask("parse", "x", hx(w)))
                    ref = self.expect(env, w, seg, cur)
                    msg = differ(w, code, ref)
                    if msg:
                        return "effect: '%s' after loading %s: %s" % (w, case["files"][fi]["kind"], msg), None, ""
                    changed += any(m and ref != self.expect(env, w, seg, m) for _, m in files) or (
                        cur is not None and ref != self.expect(env, w, seg, None))
            return None, (repr(case) if failed and changed else None), "%d loads, %d failing" % (len(case["loads"]), min(failed, 3))
        finally:
            for p in made:
                if os.path.exists(p):
                    os.unlink(p)

    def cli(self, env, case, files, std, made):
        """The file is given by -d, perhaps after others, or is that of the
        installation; of several the last counts, and none stands in for it."""
        path, md = files[-1]
        kind = case["files"][-1]["kind"]
        default = os.path.join(env.scratch, "except.dic")
        if std:
            shutil.copyfile(os.path.join(env.scratch, std[0]), default)
            made.append(default)
            if not case["given"]:
                path, md = None, std[1]
                kind = case["std"]["kind"]
        cli = env.bins[env.flavour]["cli"]
        words = [w for w in case["texts"] if "\x00" not in w and w and not w.startswith("-")]
        args = [cli, "-w"] + ([] if case["seg"] else ["-n"])

        def run(extra):
            r = subprocess.run(args + extra + words, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=client.ENV, cwd=env.scratch, preexec_fn=dicts._limits)
            if r.returncode < 0 or b"Sanitizer" in r.stderr or b"runtime error" in r.stderr:
                raise client.Crash("status %d: %s" % (r.returncode, r.stderr[:300]))
            return r
        a = run(["-d" + p for p, _ in files] if path else [])
        if a.returncode:
            return "status: %d with %s dictionary" % (a.returncode, kind), None, ""
        warned = bool(a.stderr.strip())
        if warned == (md is not None):
            return "warning: %r with %s dictionary" % (a.stderr[:100], kind), None, ""
        if md is None:
            if std:
                os.unlink(default)
            b = run([])                 # the default dictionary does not exist here
            if a.stdout != b.stdout:
                return "effect: output with %s dictionary differs from that without" % kind, None, ""
        return None, (repr(case) if md is None and kind != "missing" else None), "program%s, %s" % (
            "" if not std else ", installed" if path else ", as installed", kind)

    def file(self, rng, share):
        f = self.some_file(rng, share)
        if rng.random() < .6:
            f["name"] = int(rng.random() * len(NAMES))
        return f

    def some_file(self, rng, share):
        r = rng.random()
        if r < .3:
            return {"kind": "good", "dic": share if rng.random() < .3 else dicts.entries(rng, 3)}
        if r < .75:
            d = share if rng.random() < .7 else dicts.entries(rng, 3)
            q = rng.random()
            # anywhere; near the end, where the data are; right at the borders
            cut = int(rng.random() * 4000) if q < .4 else -1 - int(rng.random() * 80)
            return {"kind": "cut", "dic": d, "cut": cut}
        if r < .8:
            return {"kind": "missing", "how": int(rng.random() * len(GONE))}
        if r < .85:
            return {"kind": "directory"}
        raw = gen.pick(rng, [b"", b"\n", "กา\tk_A_0@2\n".encode(), b"\x00" * 64, b"\xd9\xfc\xd9\xfc", b"\xd9\xfc\xd9\xfc\x00\x00\x00\x01",
                             bytes(int(rng.random() * 256) for _ in range(40)), b"\x7fELF" + b"\0" * 100, b"#!/bin/sh\n"])
        return {"kind": "bytes", "raw": raw.hex()}

    def texts(self, rng, files, n=4):
        keys = [k for f in files if "dic" in f for k, _ in f["dic"]] or ["กา"]
        return ["".join(gen.pick(rng, keys) if rng.random() < .7 else gen.syllable(rng)
                        for _ in range(1 + int(rng.random() * 2)))[:20] for _ in range(n)]

    def gen(self, rng):
        share = dicts.entries(rng, 3)
        files = [self.file(rng, share) for _ in range(1 + int(rng.random() * 4))]
        return {"mode": "lib", "files": files, "loads": [int(rng.random() * len(files)) for _ in range(1 + int(rng.random() * 5))],
                "ctor": int(rng.random() < .3), "seg": int(rng.random() < .3), "texts": self.texts(rng, files)}

    def gen_cli(self, rng):
        files = [self.file(rng, dicts.entries(rng, 3))]
        while rng.random() < .2:
            files.append(self.file(rng, dicts.entries(rng, 3)))
        std = None
        if rng.random() < .5 and not any(f.get("how") == GONE.index("except.dic") for f in files):
            while not std or std["kind"] in ("missing", "directory"):
                std = self.some_file(rng, dicts.entries(rng, 3))
        return {"mode": "cli", "files": files, "seg": int(rng.random() < .5), "texts": self.texts(rng, files + ([std] if std else []), 3),
                "std": std, "given": int(rng.random() < .6)}

    def every_cut(self, i):
        """One fixed dictionary cut at every byte, after a good load."""
        dic = [["กา", [[["k_a_1", 2]]]], ["กาล", [[["k_An0", 3]], [["k_A_0", 2], ["l_a_3", 3]]]], ["มา", [[["m_a_3", 2]]]]]
        return {"mode": "lib", "files": [{"kind": "good", "dic": dic}, {"kind": "cut", "dic": dic, "cut": i}],
                "loads": [0, 1, 0], "ctor": 0, "seg": 0, "texts": ["กา", "กาล", "มากาล"]}

    def shrink(self, case):
        if case["mode"] == "lib":
            for l in gen.shrink_list(case["loads"]):
                if l:
                    yield dict(case, loads=l)
        for t in gen.shrink_list(case["texts"]):
            if t:
                yield dict(case, texts=t)
        if case["mode"] == "cli":
            if case["std"]:
                yield dict(case, std=None)
            for l in gen.shrink_list(case["files"]):
                if l:
                    yield dict(case, files=l)
        for i, f in enumerate(case["files"]):
            if f.get("how"):
                yield dict(case, files=case["files"][:i] + [dict(f, how=0)] + case["files"][i + 1:])
            if f.get("name"):
                yield dict(case, files=case["files"][:i] + [dict(f, name=0)] + case["files"][i + 1:])
            if "dic" in f:
                for d in dicts.shrink_entries(f["dic"]):
                    if d:
                        yield dict(case, files=case["files"][:i] + [dict(f, dic=d)] + case["files"][i + 1:])

    def phases(self, tier):
        k = 6 if tier == "thorough" else 1
        return [Phase("loads", 10000 * k, gen=self.gen, chunk=50, flavours=MIX),
                Phase("every cut", 1800, enum=self.every_cut, chunk=60, exhaustive=True, flavours=("fast", "fast", "san")),
                Phase("program", 5000 * k, gen=self.gen_cli, chunk=50, flavours=MIX)]


CHECK = P13()
