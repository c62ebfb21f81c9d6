from checks.common import *
from vp import dicts
import os
import resource
import signal

GOOD = [chr(c) for c in range(0xe01, 0xe5c)]
MAXLINE = 254        # longest line, in bytes, that the tool is documented to take


def limited(n):
    def f():
        dicts._limits()
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    return f


def overlong(letter, n, zeros):
    """A Thai letter behind the first byte of a sequence of n bytes, which is
    completed by leading zeros, or not."""
    return bytes([0xff00 >> n & 0xff]) + b"\x80" * (n - 3 if zeros else 0) + bytes(letter[1:])


class P12(Check):
    """Exit status 0 promises that every line of the input is in the output."""
    ID = "P12"
    GLD = ("default", "san")
    RULE = "input that has at least one line the compiler cannot store, or a failing file operation; counted by the input"

    def evaluate(self, env, case):
        kind = case["kind"]
        if "fault" in case:
            return self.fault(env, case)
        raw = bytes.fromhex(case["raw"])
        src, dst = dicts.fresh(env, ".tsv"), dicts.fresh(env, ".dic")
        with open(src, "wb") as f:
            f.write(raw)
        if case.get("old"):
            # the output file exists already
            with open(dst, "wb") as f:
                f.write(self.old(env, case["old"]))
        rc, err = dicts.run_compiler(env, kind, [src, dst])
        try:
            lines = raw.split(b"\n")
            if lines and lines[-1] == b"":
                lines.pop()
            bad = [(l, w) for l in lines for w in [self.unusable(l)] if w]
            if rc != 0:
                if not bad and all(len(l) <= MAXLINE for l in lines):
                    return "rejected: well-formed input fails with status %d: %s" % (rc, err[:150]), None, ""
                return None, (case["raw"] if bad else None), "rejected (%s)" % (bad[0][1] if bad else "long line")
            # success: everything must be there
            if bad:
                return "accepted: %r (%s) reported as success" % (bad[0][0][:80], bad[0][1]), None, ""
            d = env.drv
            if d.ask("dict", "d", hx(dst.encode()))[1] != "1":
                return "lost: the result does not load", None, ""
            want = {}
            for l in lines:
                k, v = l.split(b"\t", 1)
                want[k.decode()] = v
            for k, v in want.items():
                r = d.ask("match", "d", "0", T.hex16(k))[1:]
                got = {int(r[i]): client.unhx(r[i + 1]) for i in range(0, len(r), 2)}
                if got.get(len(k)) != v:
                    return "lost: entry %r has data %r instead of %r" % (k, got.get(len(k)), v), None, ""
            return None, None, "stored"
        finally:
            for p in (src, dst):
                if os.path.exists(p):
                    os.unlink(p)

    def old(self, env, what):
        if what == "dictionary":
            if not hasattr(env, "old_dic"):
                rc, path, err = dicts.compile_lines(env, [("ก%s\told%d" % (GOOD[i], i)).encode() for i in range(40)])
                with open(path, "rb") as f:
                    env.old_dic = f.read()
                os.unlink(path)
            return env.old_dic
        return what.encode() * (1 if len(what) < 5 else 5000)

    def unusable(self, l):
        if b"\t" not in l:
            return "no separator"
        k = l.split(b"\t", 1)[0]
        try:
            s = k.decode("utf-8")
        except UnicodeDecodeError:
            return "undecodable key"
        if any(c not in GOOD_SET for c in s):
            return "foreign key"
        return None

    def fault(self, env, case):
        f, kind = case["fault"], case["kind"]
        src, dst = dicts.fresh(env, ".tsv"), dicts.fresh(env, ".dic")
        made = [src, dst]
        lines = [(k + "\t" + v).encode() for k, v in case["lines"]]
        with open(src, "wb") as fh:
            fh.write(b"".join(l + b"\n" for l in lines))
        kw = {}
        try:
            if f == "missing input":
                args = [src + "x", dst]
            elif f == "input is a directory":
                args = [env.scratch, dst]
            elif f == "output is a directory":
                args = [src, env.scratch]
            elif f == "output in missing directory":
                args = [src, os.path.join(env.scratch, "nodir", "x.dic")]
            elif f == "device full":
                args = [src, "/dev/full"]
            elif f == "file size limit":
                # any point of the output can be the one that does not fit
                args = [src, dst]
                rc, err = dicts.run_compiler(env, kind, args)
                if rc:
                    return "rejected: well-formed input fails with status %d: %s" % (rc, err[:150]), None, ""
                size = os.path.getsize(dst)
                os.unlink(dst)
                kw = {"limits": limited(min(size - 1, int(size * case["at"])))}
            elif f == "wrong number of arguments":
                args = [[], [src], [src, dst, dst]][case["n"] % 3]
            else:
                raise RuntimeError(f)
            rc, err = dicts.run_compiler(env, kind, args, **kw)
            if rc == 0:
                return "fault not reported: %s with %d entries exits with success" % (f, len(lines)), None, ""
            return None, (f, repr(case["lines"])), f
        finally:
            for p in made:
                if os.path.exists(p):
                    os.unlink(p)

    def key(self, rng):
        return "".join(gen.pick(rng, GOOD) for _ in range(1 + int(rng.random() * 8)))

    def line(self, rng, i):
        r = rng.random()
        v = "v%d" % i
        if r < .5:
            return (self.key(rng) + "\t" + v).encode()
        if r < .6:
            return gen.pick(rng, [b"", self.key(rng).encode(), b" ", b"abc", self.key(rng).encode() + b" " + v.encode()])
        if r < .7:
            k = list(self.key(rng))
            k.insert(int(rng.random() * (len(k) + 1)), gen.pick(rng, ["a", " ", "-", "é", "฀", "๜", "๿", "ກ", "中", "😀", "\r", "﻿", "\x01", "\x7f"]))
            return ("".join(k) + "\t" + v).encode()
        if r < .8:
            k = bytearray(self.key(rng).encode())
            q = rng.random()
            if q < .3:
                # one letter in another number of bytes
                i = 3 * int(rng.random() * (len(k) // 3))
                n = gen.pick(rng, [2, 4, 4, 4, 5, 6, 7])
                k[i:i + 3] = overlong(k[i:i + 3], n, gen.pick(rng, [0, 1, 1]))
            elif q < .5:
                del k[int(rng.random() * len(k))]
            elif q < .8:
                k.insert(int(rng.random() * (len(k) + 1)), gen.pick(rng, [0x80, 0xbf, 0xe0, 0xb8, 0xff, 0xc3, 0xfe]))
            else:
                k[int(rng.random() * len(k))] ^= gen.pick(rng, [0x80, 0x40, 0xc0])
            return bytes(b for b in k if b not in (9, 10, 0)) + b"\t" + v.encode()
        if r < .88:
            # near the longest line
            n = gen.pick(rng, [250, 252, 253, 254, 255, 256, 257, 258, 300, 510, 511, 512, 600, 1000])
            k = self.key(rng).encode()
            return k + b"\t" + b"w" * (n - len(k) - 1)
        if r < .93:
            # nearly all of the line is key
            n = gen.pick(rng, [60, 70, 80, 83, 84, 85, 86, 90, 100, 170])
            return ("".join(gen.pick(rng, GOOD) for _ in range(n)) + "\t" + v).encode()
        return (self.key(rng) + "\t" + gen.pick(rng, ["", "\t", "a\tb", "é", "\r", " x "])).encode()

    def gen(self, rng):
        ls = [self.line(rng, i) for i in range(1 + int(rng.random() * 5))]
        if rng.random() < .4:
            # a single bad line among good ones
            bad = self.line(rng, 99)
            ls = [(self.key(rng) + "\tv%d" % i).encode() for i in range(1 + int(rng.random() * 5))]
            ls.insert(int(rng.random() * (len(ls) + 1)), bad)
        raw = b"\n".join(ls) + (b"\n" if rng.random() < .8 else b"")
        return {"raw": raw.hex(), "kind": gen.pick(rng, ["default"] * 5 + ["san"]),
                "old": gen.pick(rng, [""] * 6 + ["dictionary"] * 2 + ["x", "garbage"])}

    def gen_fault(self, rng):
        return {"fault": gen.pick(rng, ["missing input", "input is a directory", "output is a directory",
                                        "output in missing directory", "device full", "file size limit",
                                        "wrong number of arguments"]), "n": int(rng.random() * 3), "at": round(rng.random() * 1.2, 3),
                "lines": [[self.key(rng), "v%d" % i + "z" * int(rng.random() * 80)]
                          for i in range(gen.pick(rng, [0, 1, 3, 30, 100]))], "kind": gen.pick(rng, ["default"] * 5 + ["san"])}

    def gen_many(self, rng):
        """A long list, perhaps with one bad line."""
        n = gen.pick(rng, [500, 2000, 9000, 20000])
        alpha = [gen.pick(rng, GOOD) for _ in range(gen.pick(rng, [5, 40]))]
        ls = [("".join(gen.pick(rng, alpha) for _ in range(1 + int(rng.random() * 8))) + "\tv%d" % i).encode() for i in range(n)]
        if rng.random() < .5:
            i = gen.pick(rng, [0, n - 1, int(rng.random() * n)])
            ls[i] = self.line(rng, i)
        raw = b"\n".join(ls) + (b"\n" if rng.random() < .8 else b"")
        return {"raw": raw.hex(), "kind": "default", "old": ""}

    def shrink(self, case):
        if "raw" in case:
            if case.get("old"):
                yield dict(case, old="")
            ls = bytes.fromhex(case["raw"]).split(b"\n")
            for l in gen.shrink_list(ls):
                yield dict(case, raw=b"\n".join(l).hex())
        else:
            for l in gen.shrink_list(case["lines"]):
                yield dict(case, lines=l)

    def show(self, case):
        if "raw" in case:
            return {"input": bytes.fromhex(case["raw"])[:300].decode("utf-8", "backslashreplace")}
        return {"fault": case["fault"], "entries": len(case["lines"])}

    def phases(self, tier):
        k = 6 if tier == "thorough" else 1
        return [Phase("lines", 24000 * k, gen=self.gen, chunk=100, flavours=MIX),
                Phase("many lines", 48 * k, gen=self.gen_many, chunk=4, flavours=("fast",)),
                Phase("faults", 2500 * k, gen=self.gen_fault, chunk=50, flavours=MIX)]


GOOD_SET = set(GOOD)
CHECK = P12()
