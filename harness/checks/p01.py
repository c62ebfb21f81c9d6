from checks.common import *
from vp import dicts
import os
import shutil

ALLF = ["tD2d", "rR", "rC", "pD20", "wD2c", "sD2d", "tJ", "rJ", "pJ", "wJ", "sJ", "tG", "rG", "pG", "wG", "sG"]
DIC = [["กา", [[["k_a_1", 2]]]], ["กาล", [[["k_An0", 3]], [["k_A_0", 2], ["l_a_3", 3]]]], ["เกม", [[["k_em0", 3]]]],
       ["ก็", [[["k_C_2", 2]]]], ["ตลก", [[["t_a_1", -3], ["l_ok1", 3]]]], ["น้ำ", [[["n_Am3", 3]]]], ["ทราย", [[["s_Ay0", 4]]]]]
TH = [chr(c) for c in range(0xe01, 0xe5c)]


class P01(Check):
    """Everything runs in the build with memory, undefined-behaviour and
    container checks (and assertions), except a tenth in the release build."""
    ID = "P01"
    WANT = ("driver", "cli")
    GLD = ("default",)
    RULE = "text that has at least one pronunciation or is not valid UTF-8; counted by text, mode and dictionary"

    def prepare(self, env):
        rc, env.dic, err = dicts.compile_lines(env, [dicts.entry_line(k, a) for k, a in DIC])
        if rc:
            raise RuntimeError(err)

    def evaluate(self, env, case):
        if "words" in case:
            return self.cli(env, case)
        raw = bytes.fromhex(case["raw"])
        d = env.drv
        pid = env.parser(case["seg"], env.dic if case["dic"] else None)
        es = bare(edges_of(d.ask("parse", pid, hx(raw))))
        n = graph.count_paths(es)
        if 0 < n <= 400 or not es:
            d.ask("word", pid, hx(raw), *(ALLF if case["all"] else ALLF[:1] + ALLF[-3:-2]))
        try:
            raw.decode("utf-8")
            valid = True
        except UnicodeDecodeError:
            valid = False
        return None, ((case["raw"], case["seg"], case["dic"]) if es or not valid else None), (
            "invalid" if not valid else "no reading" if not es else "many readings" if n > 400 else "readings")

    def cli(self, env, case):
        words = [bytes.fromhex(w) for w in case["words"]]
        opts = [o.encode() for o in case["opts"]] + ([b"-d" + env.dic.encode()] if case["dic"] else [])
        if case["stdin"]:
            r = run_cli(env, opts, b"".join(w + b"\n" for w in words))
        else:
            r = run_cli(env, opts + words)
        if r.returncode:
            return "status: %d" % r.returncode, None, ""
        pos = 0
        for w in words:
            i = r.stdout.find(w + b":\n", pos)
            if i < 0:
                return "no block: for word %r" % w, None, ""
            pos = i + len(w) + 2
        return None, repr(case["words"]), "program"

    def raw(self, rng, arg=False):
        r = rng.random()
        if r < .25:
            b = gen.thai_text(rng, 12).encode()
        elif r < .4:
            b = gen.mixed_text(rng, 4, 14).encode("utf-8", "surrogatepass")
        elif r < .6:
            b = "".join(gen.pick(rng, TH) for _ in range(1 + int(rng.random() * 8))).encode()
        elif r < .7:
            b = bytes(int(rng.random() * 256) for _ in range(int(rng.random() * 12)))
        elif r < .9:
            b = bytearray(gen.thai_text(rng, 8).encode())
            for _ in range(1 + int(rng.random() * 2)):
                q, i = rng.random(), int(rng.random() * (len(b) + 1))
                if q < .4 and i < len(b):
                    del b[i]
                elif q < .7:
                    b.insert(i, gen.pick(rng, [0, 0x20, 0x2e, 0x80, 0xb8, 0xe0, 0xf0, 0xff, 0xc0, 0xed]))
                elif i < len(b):
                    b[i] = int(rng.random() * 256)
            b = bytes(b)
        else:
            # boundary code points
            b = b"".join(gen.pick(rng, [chr(c).encode("utf-8", "surrogatepass") for c in
                                        (0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x10ffff,
                                         0xe00, 0xe01, 0xe3a, 0xe3b, 0xe3f, 0xe40, 0xe45, 0xe4e, 0xe5b, 0xe5c, 0xe7f)]
                                  + [b"\xf4\x90\x80\x80", b"\xc0\x80", b"\xe0\x80\x80", b"\xf8\x88\x80\x80\x80"])
                         for _ in range(1 + int(rng.random() * 5)))
        if arg:
            b = b.replace(b"\0", b"").lstrip(b"-")
        return b

    def gen(self, rng):
        return {"raw": self.raw(rng).hex(), "seg": int(rng.random() < .4), "dic": int(rng.random() < .3), "all": int(rng.random() < .4)}

    def gen_long(self, rng):
        w = ""
        p = gen.pick(rng, [1, 1, .95, .5])
        while len(w) < 60:
            w += gen.pick(rng, gen.WORDS) if rng.random() < p else gen.mixed_text(rng, 3, 9)
        return {"raw": w[:120].encode("utf-8", "surrogatepass").hex(), "seg": int(rng.random() < .4), "dic": int(rng.random() < .3), "all": 0}

    def gen_vast(self, rng):
        """Tens of thousands of characters, few syllables."""
        c = gen.pick(rng, ["a", "1", "中", "😀", " ", ".", "ๆ", "ะ", "่", "๑", "ab ", "\n"])
        # each full stop is an element of its own
        w = c * (gen.pick(rng, [100, 400, 1000]) if c == "." else gen.pick(rng, [3000, 20000, 60000]))
        i = gen.pick(rng, [0, len(w), int(rng.random() * len(w))])
        w = w[:i] + gen.pick(rng, ["", gen.syllable(rng), gen.mixed_text(rng, 3, 9)]) + w[i:]
        return {"raw": w.encode("utf-8", "surrogatepass").hex(), "seg": int(rng.random() < .2), "dic": int(rng.random() < .3), "all": 0}

    def gen_watched(self, rng):
        return dict(self.gen(rng) if rng.random() < .9 else self.gen_long(rng), all=1)

    def gen_cli(self, rng):
        stdin = int(rng.random() < .5)
        ws = [self.raw(rng, not stdin)[:21] for _ in range(1 + int(rng.random() * 4))]
        if stdin:
            ws = [w.replace(b"\n", b"") for w in ws]
        return {"words": [w.hex() for w in ws], "stdin": stdin, "dic": int(rng.random() < .3),
                "opts": [o for o in ("-n", "-j", "-g", "-r", "-s", "-w", "-t", "-p") if rng.random() < .3]}

    def all_short(self, i):
        """All texts of up to three Thai characters (one of them '.', one
        blank, one foreign)."""
        ch = TH + [".", " ", "a"]
        n = 1
        while i >= len(ch) ** n:
            i -= len(ch) ** n
            n += 1
        w = ""
        for _ in range(n):
            i, k = divmod(i, len(ch))
            w += ch[k]
        return {"raw": w.encode().hex(), "seg": 0, "dic": 0, "all": 0}

    def shrink(self, case):
        if "words" in case:
            for w in gen.shrink_list(case["words"]):
                if w:
                    yield dict(case, words=w)
            for o in gen.shrink_list(case["opts"]):
                yield dict(case, opts=o)
            if case["dic"]:
                yield dict(case, dic=0)
            return
        b = list(bytes.fromhex(case["raw"]))
        for k in ("seg", "dic", "all"):
            if case[k]:
                yield dict(case, **{k: 0})
        for l in gen.shrink_list(b):
            yield dict(case, raw=bytes(l).hex())

    def show(self, case):
        if "raw" in case:
            return {"text": bytes.fromhex(case["raw"]).decode("utf-8", "backslashreplace"), "segmentation": case["seg"]}
        return {"words": [bytes.fromhex(w).decode("utf-8", "backslashreplace") for w in case["words"]], "options": case["opts"]}

    def phases(self, tier):
        big = tier == "thorough"
        k = 8 if big else 1
        sn = ("san",) * 9 + ("fast",)
        m = len(TH) + 3
        more = []
        if shutil.which("valgrind"):
            more = [Phase("watched accesses", 800 * k, gen=self.gen_watched, chunk=50, flavours=("memcheck",))]
        return more + [Phase("texts", 60000 * k, gen=self.gen, chunk=400, flavours=sn),
                Phase("long texts", 1500 * k, gen=self.gen_long, chunk=20, flavours=sn),
                Phase("vast texts", 120 * k, gen=self.gen_vast, chunk=5, flavours=sn),
                Phase("program", 4000 * k, gen=self.gen_cli, chunk=50, flavours=("san", "fast")),
                Phase("short texts", m + m * m + (m ** 3 if big else 0), enum=self.all_short, chunk=1000, flavours=("san",),
                      exhaustive=True)]


CHECK = P01()
