from checks.common import *
from vp import dicts

LINEAR_EDGES = 40          # measured: at most 7.4 per character
QUADRATIC = 80000          # measured: at most 6400 basic blocks per character squared


class P24(Check):
    """Effort is the number of basic blocks executed, so the verdict does not
    depend on the speed of the machine."""
    ID = "P24"
    FLAVOURS = ("cov",)
    GLD = ("default",)
    RULE = "text with at least two pronunciations per ten characters or more (edges > length); counted by text and mode"

    def evaluate(self, env, case):
        w, seg = case["w"], case["seg"]
        n = max(len(T.u16(w)), 10)
        limit = QUADRATIC * n * n
        d = env.drv
        with dictionary(env, case.get("dic")) as path:
            r = d.ask("work", str(seg), hx(w), str(limit), hx(path) if path else "-")
        if r[1] == "over":
            env.fresh()
            return "effort: more than %d steps for %d characters" % (limit, len(w)), None, ""
        e = int(r[2])
        if e > LINEAR_EDGES * n:
            return "size: %d edges for %d characters" % (e, len(w)), None, ""
        k = int(r[1]) / n / n
        return None, ((w, seg) if e > len(w) else None), "length %d: %s steps per character squared" % (
            len(w) // 50 * 50, "<100" if k < 100 else "100-1000" if k < 1000 else "1000+")

    def unit(self, rng):
        r = rng.random()
        if r < .25:
            return gen.syllable(rng)
        if r < .5:
            return "".join(gen.pick(rng, "กรลวหอนมสตทปฤ") for _ in range(1 + int(rng.random() * 4)))
        if r < .65:
            return "".join(gen.pick(rng, gen.CONS) for _ in range(1 + int(rng.random() * 3)))
        if r < .75:
            return gen.pick(rng, "เแโไใ") + gen.pick(rng, gen.CONS) * int(rng.random() * 3)
        if r < .9:
            return gen.soup(rng, 1 + int(rng.random() * 5))
        if r < .95:
            return gen.pick(rng, [".", " ", "1", "ก.", "a", "ๆ"])
        return gen.pick(rng, gen.WORDS)

    def text(self, rng, n):
        us = [self.unit(rng) for _ in range(gen.pick(rng, [1, 1, 1, 2, 2, 3, 5, 20]))]
        if len(us) > 1 and rng.random() < .5:
            us = ["".join(us)]
        w = ""
        while len(w) < n:
            w += gen.pick(rng, us) or "ก"
        return w[:n]

    def gen(self, rng):
        return {"w": self.text(rng, gen.pick(rng, [30, 60, 100])), "seg": int(rng.random() < .25)}

    def gen_dic(self, rng):
        """Texts made of listed words, many of them beginning alike."""
        dic = dicts.entries(rng, 4)
        k = dic[0][0]
        for i in range(1, len(k)):
            if rng.random() < .7 and k[:i] not in [e[0] for e in dic]:
                dic.append([k[:i], [dicts.alternative(rng, i) for _ in range(1 + int(rng.random() * 2))]])
        us = [e[0] for e in dic] + ([self.unit(rng)] if rng.random() < .4 else [])
        if rng.random() < .4:
            us = [gen.pick(rng, us)]
        w, n = "", gen.pick(rng, [30, 60, 100])
        while len(w) < n:
            w += gen.pick(rng, us) or "ก"
        return {"w": w[:n], "seg": int(rng.random() < .15), "dic": dic}

    def gen_long(self, rng):
        return {"w": self.text(rng, gen.pick(rng, [150, 200])), "seg": int(rng.random() < .25)}

    def letters(self, i):
        """Repetition of every pair of word characters."""
        a, b = divmod(i, len(T.WORDCH))
        ch = sorted(T.WORDCH)
        return {"w": (ch[a] + ch[b]) * 30, "seg": 0}

    def shrink(self, case):
        if case["seg"]:
            yield dict(case, seg=0)
        if case.get("dic"):
            for x in gen.shrink_list(case["dic"]):
                yield dict(case, dic=x)
        w = case["w"]
        for m in (len(w) // 2, len(w) - 10, len(w) - 1):
            if m > 0:
                yield dict(case, w=w[:m])
                yield dict(case, w=w[len(w) - m:])

    def phases(self, tier):
        big = tier == "thorough"
        n = len(T.WORDCH) ** 2
        return [Phase("texts", 20000 if big else 4000, gen=self.gen, chunk=20, flavours=("cov",)),
                Phase("dictionaries", 10000 if big else 2000, gen=self.gen_dic, chunk=20, flavours=("cov",)),
                Phase("long texts", 2500 if big else 300, gen=self.gen_long, chunk=5, flavours=("cov",)),
                Phase("repeated pairs", n, enum=self.letters, chunk=50, flavours=("cov",), exhaustive=True)]


CHECK = P24()
