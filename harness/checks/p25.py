from checks.common import *
from vp import build, dicts
import os
import re

LIVE = set("mngyw")
SHORT = set("aivueoxctyzw")


def lines():
    return [l.decode("utf-8", "replace") for l in build.shipped_lines()]


def split(line):
    k, v = line.split("\t", 1)
    alts = []
    for a in v.split(";"):
        alt = []
        for s in a.split(","):
            m = re.fullmatch(r"(.{5})@(-?[0-9]+)", s)
            if not m:
                raise ValueError("syllable '%s'" % s)
            alt.append((m.group(1), int(m.group(2))))
        alts.append(alt)
    return k, alts


def golden():
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vp", "irregular.tsv"), encoding="utf-8") as f:
        return [split(l) for l in f.read().split("\n") if l]


class P25(Check):
    ID = "P25"
    GLD = ("default",)
    RULE = "text in which at least one shipped entry is used; counted by text and segmentation mode; plus each entry itself"

    def prepare(self, env):
        env.lines = lines()
        env.dic = None

    def setup(self, env):
        if env.dic is None:
            rc, path, err = dicts.compile_lines(env, [l.encode() for l in env.lines])
            if rc:
                return "not compiled: %s" % err[:300]
            env.dic = path
            env.md = {}
            for l in env.lines:
                try:
                    k, a = split(l)
                except ValueError:
                    continue
                env.md[k] = a
        return None

    def wellformed(self, env, line):
        try:
            k, alts = split(line)
        except ValueError as e:
            return "malformed: '%s': %s" % (line, e)
        if not k or any(c not in T.WORDCH for c in k):
            return "malformed: key of '%s'" % line
        for alt in alts:
            pos, lead = 0, None
            for c, e in alt:
                if not (c[0] in T.INITS and c[1] in T.SECS and c[2] in T.VOWELS and c[3] in T.ENDS and c[4] in "01234"):
                    return "invalid syllable: %s in '%s'" % (c, line)
                if e < 0:
                    s, t = divmod(-e, 100)
                    if s != pos or not pos < t <= len(k) or lead is not None:
                        return "position: %d in '%s'" % (e, line)
                    lead = t
                    span = k[pos:t]
                else:
                    if e <= pos or (lead is not None and e != lead):
                        return "position: %d in '%s'" % (e, line)
                    span = k[pos:e]
                bad = self.implausible(k, pos, lead if e < 0 else e, c)
                if bad:
                    return "implausible: %s of %s in '%s'" % (bad, c, line)
                if e >= 0:
                    pos, lead = e, None
            if pos != len(k):
                return "position: '%s' stops at %d of %d" % (line, pos, len(k))
            for nt in "trpws":
                out = env.drv.ask("syl", nt, *["S%s@%d" % x for x in alt])[1:]
                if any(not utf8(o) for o in out):
                    return "not writable: '%s' in notation %s" % (line, nt)
        return None

    def implausible(self, k, a, b, c):
        """Sounds that the letters between a and b cannot stand for."""
        span = k[a:b]
        wide = k[a:b + 1]                       # a final may be shared with the next syllable
        ini = {T.SOUND[x] for x in span if x in T.SOUND} | {"r" for x in span if x in "ฤ"} | {"l" for x in span if x == "ฦ"}
        if "ทร" in span or "ซร" in span:
            ini.add("s")
        if "ฑ" in span:
            ini.add("d")
        if a and k[a - 1] in T.SOUND:
            ini.add(T.SOUND[k[a - 1]])
        if c[0] not in ini:
            return "initial"
        if c[3] != "_":
            fin = {T.FINAL[x] for x in wide if x in T.FINAL}
            if T.SARA_AM in span:
                fin.add("m")
            if "ไ" in span or "ใ" in span:
                fin.add("y")
            if "เ" in span and "า" in span:
                fin.add("w")
            if c[3] not in fin:
                return "final"
        dead = c[3] in "kpt" or (c[3] == "_" and c[2] in SHORT)
        if dead and c[4] == "0":
            return "tone"
        # without tone mark: ก็ apart, the length decides
        if not any(x in T.TONES for x in span) and span != "ก็":
            if c[4] not in ("04" if not dead else "13" if c[2] in SHORT else "12"):
                return "tone"
        return None

    def evaluate(self, env, case):
        if "line" in case:
            msg = self.wellformed(env, case["line"])
            return msg, case["line"], "entry"
        msg = self.setup(env)
        if msg:
            return msg, None, ""
        if "golden" in case:
            k, alts = case["golden"]
            # pronounced as listed, exactly
            for seg in (0,):
                got = set(graph.label_paths(bare(read(env, k, seg, env.dic))) or ())
                exp = {tuple((("S", c), e if e >= 0 else None) for c, e in a) for a in alts}
                # a shorter entry may start the word as well
                shorter = any(k != x and k.startswith(x) for x in env.md)
                if not (exp <= got if shorter else exp == got):
                    return "irregular word: '%s' is read %s instead of %s" % (k, sorted(got, key=repr), sorted(exp, key=repr)), None, ""
            return None, ("g", k), "irregular word"
        w, seg = case["w"], case["seg"]
        u = T.u16(w)
        brk = breaks(env, w) if seg else ()
        code = read(env, w, seg, env.dic)
        ref = model.analyse(u, brk, env.md)
        msg = ends_wrong(code) or differ(w, code, ref)
        used = bool(ref) and ref != model.analyse(u, brk)
        return msg, ((w, seg) if used else None), "used" if used else "not used"

    def gen(self, rng):
        keys = self.keys()
        out = ""
        for _ in range(1 + int(rng.random() * 4)):
            r = rng.random()
            if r < .5:
                out += gen.pick(rng, keys)
            elif r < .7:
                out += gen.syllable(rng)
            elif r < .85:
                out += gen.pick(rng, gen.WORDS)
            else:
                out += gen.pick(rng, [" ", ".", "1", "ๆ", "า", "ะ", "์", "ก"])
        return {"w": out[:40], "seg": int(rng.random() < .5)}

    def keys(self):
        if not hasattr(self, "_keys"):
            self._keys = sorted({l.split("\t")[0] for l in lines() if "\t" in l} | {k for k, _ in golden()})
        return self._keys

    def shrink(self, case):
        if "w" in case:
            if case["seg"]:
                yield dict(case, seg=0)
            for t in gen.shrink_text(case["w"]):
                if t:
                    yield dict(case, w=t)

    def phases(self, tier):
        ls, g, ks = lines(), golden(), self.keys()
        n, at = product(ks, ks, [0, 1])

        def pair(i):
            a, b, s = at(i)
            return {"w": a + b, "seg": s}
        return [Phase("entries", len(ls), enum=lambda i: {"line": ls[i]}, chunk=20, exhaustive=True),
                Phase("irregular words", len(g), enum=lambda i: {"golden": [g[i][0], g[i][1]]}, chunk=20, exhaustive=True),
                Phase("pairs", n, enum=pair, chunk=1000, exhaustive=True, flavours=MIX),
                Phase("contexts", 1000000 if tier == "thorough" else 200000, gen=self.gen, chunk=1000, flavours=MIX)]


CHECK = P25()
