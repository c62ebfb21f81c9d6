from checks.common import *
from vp import strgen
from vp.client import Unsupported, strings_of

ALL = product(T.INITS, T.SECS, T.VOWELS, T.ENDS, "01234")


class P17(Check):
    ID = "P17"
    RULE = "every case is non-trivial; counted by the syllables and end positions"

    def evaluate(self, env, case):
        d = env.drv
        if "init" in case:
            # all syllables of one initial in one go
            ini, end = case["init"], case["end"]
            syls = [ini + s + v + e + t for s in T.SECS for v in T.VOWELS for e in T.ENDS for t in "01234"]
            out = [utf8(x) for x in d.ask("syl", "w", *["S%s@%d" % (c, end) for c in syls])[1:]]
            for c, o in zip(syls, out):
                if o != "%s@%d" % (c, end):
                    return "raw notation: %s@%d is written '%s'" % (c, end, o), None, ""
                if hash_pick(c, end):
                    back = d.ask("desc", hx(o))[1]
                    if back != "S%s@%d" % (c, end):
                        return "read back: '%s' gives %s" % (o, back), None, ""
                    if end > 0:
                        b1 = d.ask("desc1", hx(c), str(end))[1]
                        if b1 != "S%s@%d" % (c, end):
                            return "read back: '%s' with default end %d gives %s" % (c, end, b1), None, ""
            return None, (ini, end), "all syllables of one initial"
        s = case["s"]
        w = strgen.wire(s)
        raw = [utf8(d.ask("syl", "w", strgen.wire([x]))[1]) for x in s]
        if raw != ["%s@%d" % (t, e) for k, t, e in s]:
            return "raw notation: %s is written %s" % (w, raw), None, ""
        text = utf8(d.ask("str", "wD2c", w)[1])
        if text != ",".join(raw):
            return "raw notation: string %s is written '%s'" % (w, text), None, ""
        back = d.ask("desc", hx(text))[1]
        if back != w:
            return "read back: '%s' gives %s" % (text, back), None, ""
        off = case["off"]
        tag = "string"
        try:
            sh = strings_of([d.ask("shift", str(off), w)[1]])[0]
            exp = [((k, t), model.shift_pos(e, off)) for k, t, e in s]
            if sh != exp:
                return "shift: %s by %d gives %s" % (w, off, sh), None, ""
            tag = "string, shifted"
        except Unsupported:
            pass
        return None, (w, off), tag

    def gen(self, rng):
        s = strgen.string(rng, 6, False, 0, 0, .25)
        if rng.random() < .3:
            for x in s:
                x[2] = x[2] * gen.pick(rng, [1, 10, 1000]) if x[2] >= 0 else x[2]
        elif rng.random() < .2:
            # positions of any size, as they come from very long texts
            for x in s:
                if rng.random() < .5:
                    x[2] = (1 if x[2] >= 0 else -1) * rng.randrange(10 ** rng.randrange(2, 10), 2 * 10 ** 9)
        if rng.random() < .05:
            # not set yet
            s[int(rng.random() * len(s))][2] = 0
        return {"s": s, "off": gen.pick(rng, [0, 1, 2, 5, 17, 99, 100, 101, 256, 1000, 70000])}

    def shrink(self, case):
        if "s" in case:
            for s in gen.shrink_list(case["s"]):
                if s:
                    yield dict(case, s=s)
            if case["off"]:
                yield dict(case, off=0)

    def phases(self, tier):
        big = tier == "thorough"
        ends = [1, 7, 12, 100, -12, -1, 0, -103, 12345, -2345, 1000000, -1234567, 2000000000, -2000000000] if not big else list(range(-30, 31)) + [100, 999, 12345, -20705, 65536, 1000000, -1234567, 16777216, 2000000000, -2000000000]
        n, at = product(T.INITS, ends)
        return [Phase("every syllable", n, enum=lambda i: dict(zip(("init", "end"), at(i))), chunk=4,
                      exhaustive=True, flavours=("fast", "fast", "fast", "san")),
                Phase("strings", 3000000 if big else 500000, gen=self.gen, chunk=1000, flavours=MIX)]


def hash_pick(c, end):
    return (sum(map(ord, c)) * 31 + end) % 3 == 0 or end in (1, -12)


CHECK = P17()
