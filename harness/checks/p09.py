from checks.common import *


def shift(es, off):
    return [(("x", off, a) if a < 0 else a + off, ("x", off, b) if b < 0 else b + off, l) for a, b, l in es]


class P09(Check):
    ID = "P09"
    RULE = "at least two readable parts; counted by the whole text"

    GLD = ("default",)

    def evaluate(self, env, case):
        with dictionary(env, case.get("dic")) as dic:
            return self.judge(env, case, dic)

    def judge(self, env, case, dic):
        parts, seps = case["parts"], case["seps"]
        whole = "".join(p + s for p, s in zip(parts, seps + [""]))
        exp, off, ok = [], 0, True
        for p, s in zip(parts, seps + [""]):
            es = bare(read(env, p, 0, dic))
            if not es:
                ok = False
            exp += shift(es, off)
            off += len(T.u16(p))
            if s:
                exp.append((off, off + len(s), ("L", s)))
                off += len(s)
        if not ok:
            exp = []
        code = read(env, whole, 0, dic)
        msg = ends_wrong(code)
        if not msg:
            d = differ(whole, code, exp)
            if d:
                msg = "not the combination of the parts: " + d
        return msg, (whole if ok and len(parts) > 1 else None), "%d parts%s" % (len(parts), "" if ok else ", unreadable")

    def part(self, rng):
        r = rng.random()
        if r < .45:
            return gen.thai_text(rng, 9)
        if r < .6:
            return "".join(gen.pick(rng, T.CONS) for _ in range(1 + int(rng.random() * 5))) + gen.pick(rng, ["", "."])
        if r < .8:
            return "".join(gen.syllable(rng) for _ in range(1 + int(rng.random() * 2)))
        # literals only inside, so that they do not merge with the blanks
        return (gen.syllable(rng) + gen.literal_run(rng, 2) + gen.syllable(rng) + gen.pick(rng, ["", "."]))

    def gen(self, rng):
        n = 2 + int(rng.random() * 3)
        return {"parts": [self.part(rng) for _ in range(n)],
                "seps": [" " * (1 + (rng.random() < .3)) for _ in range(n - 1)]}

    def gen_far(self, rng):
        c = self.gen(rng) if rng.random() < .7 else self.gen_dic(rng)
        f = gen.filler(rng, 70000)
        if f[0] not in T.WORDCH:
            f = "กา" + f
        if f[-1] not in T.WORDCH:
            f += "มี"
        return dict(c, parts=[f] + c["parts"], seps=[" "] + c["seps"])

    def gen_dic(self, rng):
        ents = dicts.entries(rng)
        n = 2 + int(rng.random() * 3)
        parts = []
        while len(parts) < n:
            p = dict_text(rng, ents, 2, 14).strip(" ").replace(" ", "")
            if p and (p[0] in T.WORDCH or p[0] == ".") and (p[-1] in T.WORDCH or p[-1] == "."):
                parts.append(p)
            elif rng.random() < .3:
                parts.append(self.part(rng))
        return {"parts": parts, "seps": [" " * (1 + (rng.random() < .3)) for _ in range(n - 1)], "dic": ents}

    def shrink(self, case):
        dic = case.get("dic")
        for c in self.shrink_parts(case):
            yield dict(c, dic=dic)
        if dic:
            yield dict(case, dic=None)
            for d in dicts.shrink_entries(dic):
                yield dict(case, dic=d)

    def shrink_parts(self, case):
        n = len(case["parts"])
        if n > 1:
            for i in range(n):
                yield {"parts": case["parts"][:i] + case["parts"][i + 1:], "seps": case["seps"][1:]}
        for i, p in enumerate(case["parts"]):
            for t in gen.shrink_text(p):
                if t and (t[0] in T.WORDCH or t[0] == ".") and (t[-1] in T.WORDCH or t[-1] == "."):
                    yield {"parts": case["parts"][:i] + [t] + case["parts"][i + 1:], "seps": case["seps"]}
        for i, s in enumerate(case["seps"]):
            if len(s) > 1:
                yield {"parts": case["parts"], "seps": case["seps"][:i] + [" "] + case["seps"][i + 1:]}

    def phases(self, tier):
        return [Phase("dictionaries", 100000 if tier == "thorough" else 20000, gen=self.gen_dic, chunk=200, flavours=MIX),
                Phase("far", 6000 if tier == "thorough" else 500, gen=self.gen_far, chunk=25, flavours=MIX),
                Phase("random", 1200000 if tier == "thorough" else 250000, gen=self.gen, chunk=1000, flavours=MIX)]


CHECK = P09()
