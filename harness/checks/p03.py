from checks.common import *


def runs(u):
    """Maximal runs of characters that are neither Thai spelling nor '.'"""
    out, i = [], 0
    while i < len(u):
        if u[i] != "." and u[i] not in T.WORDCH:
            j = i
            while j < len(u) and u[j] != "." and u[j] not in T.WORDCH:
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def verbatim(u, edges):
    if not edges:
        return None
    want = set(runs(u))
    got = set()
    src, dst = {}, {}
    for a, b, l in edges:
        if b < 0:
            src.setdefault(b, set()).add(a)
        if a < 0:
            dst.setdefault(a, set()).add(b)
    for a, b, l in edges:
        if l[0] == "L":
            if l[1] == "." and a >= 0 and b == a + 1 and u[a] == ".":
                continue
            if b - 1 > a and u[b - 1] == ".":
                b -= 1          # absorbed full stop
            if (a, b) not in want:
                return "literal: '%s' at %d-%d is not a maximal run" % (l[1], a, b)
            if l[1] != "".join(u[a:b]):
                return "literal: '%s' instead of '%s'" % (l[1], "".join(u[a:b]))
            got.add((a, b))
        else:
            lo = a if a >= 0 else min(src.get(a, {0}))
            hi = b if b >= 0 else max(dst.get(b, {0}))
            for i, j in want:
                if lo < j and i < hi:
                    return "literal: syllable %s at %d-%d covers '%s'" % (l[1], lo, hi, "".join(u[i:j]))
    # every complete reading passes through the run: with no other edge over
    # it, the edge itself must be there
    if got != want:
        return "literal: run %s is missing" % sorted(want - got)
    return None


class P03(Check):
    ID = "P03"
    RULE = "readable text containing at least one literal run; counted by text and segmentation mode"

    GLD = ("default",)

    def evaluate(self, env, case):
        with dictionary(env, case.get("dic")) as dic:
            return self.judge(env, case, dic)

    def judge(self, env, case, dic):
        w, seg = case["w"], case["seg"]
        u = T.u16(w)
        code = read(env, w, seg, dic)
        es = bare(code)
        msg = ends_wrong(code) or verbatim(u, es)
        rs = runs(u)
        if not msg and u and rs == [(0, len(u))] and es != [(0, len(u), ("L", "".join(u)))]:
            msg = "literal: text without Thai has %d readings edges %s" % (len(es), show_edges(es))
        tag = "unreadable" if not es else "%d runs" % len(rs)
        if rs and not es and all(x in (" ", ".") or x not in T.WORDCH for x in u) and u:
            msg = "literal: text without Thai spelling has no reading"
        if not msg and case.get("print") and graph.count_paths(es) <= 300:
            msg = self.printed(env, env.parser(seg, dic), w, ["".join(u[i:j]).encode("utf-16", "surrogatepass").decode("utf-16") for i, j in rs])
        return msg, ((w, seg, repr(case.get("dic"))) if rs and es else None), tag

    @staticmethod
    def printed(env, pid, w, want):
        nts = list("trpws")
        # the delimiter cannot end a literal or a syllable
        ans = [utf8(x) for x in env.drv.ask("word", pid, hx(w), *([n + "J" for n in nts] + ["tD2d", "rR", "pD20", "wD2c", "sD2d"]))[1:]]
        for n, o in zip(nts, ans):
            for s in load_json(hx(o)):
                got = [x.rsplit("@", 1)[0] if n == "w" else x for x in s if x.startswith("(")]
                got = [x for x in got if x != "(.)"]
                if got != ["(%s)" % x for x in want]:
                    return "printed: literals %s in the list '%s' instead of %s" % (got, n, want)
        if any("\n" in x for x in want):
            return None
        for n, o in zip(nts, ans[5:]):
            for line in o.split("\n")[:-1]:
                at = 0
                for x in want:
                    at = line.find("(%s)" % x, at)
                    if at < 0:
                        return "printed: '%s' is not in its place in '%s'" % (x, line)
                    at += len(x) + 2
        return None

    def gen_print(self, rng):
        c = self.gen_mixed(rng)
        if rng.random() < .3:
            i = int(rng.random() * (len(c["w"]) + 1))
            c["w"] = c["w"][:i] + "".join(chr(self.cp(rng)) for _ in range(1 + int(rng.random() * 3))) + c["w"][i:]
        c["w"] = c["w"][:24 if rng.random() < .95 else 200]
        return dict(c, **{"print": 1})

    def gen_dic(self, rng):
        ents = dicts.entries(rng)
        w = dict_text(rng, ents)
        for _ in range(1 + int(rng.random() * 2)):
            i = int(rng.random() * (len(w) + 1))
            w = w[:i] + gen.literal_run(rng, 4) + w[i:]
        return {"w": w, "dic": ents, "seg": int(rng.random() < .35), "print": int(rng.random() < .5)}

    def gen_mixed(self, rng):
        parts = []
        for _ in range(1 + int(rng.random() * 5)):
            r = rng.random()
            if r < .4:
                parts.append(gen.literal_run(rng, 5))
            elif r < .5:
                parts.append(" " * (1 + int(rng.random() * 2)))
            elif r < .58:
                parts.append(".")
            elif r < .68:
                parts.append(gen.cons(rng) + ".")
            else:
                parts.append(gen.syllable(rng) if rng.random() < .8 else gen.thai_text(rng, 6))
        return {"w": "".join(parts), "seg": int(rng.random() < .35)}

    def gen_far(self, rng):
        c = self.gen_print(rng) if rng.random() < .5 else self.gen_mixed(rng)
        f = gen.filler(rng, 70000)
        return dict(c, w=f + c["w"] if rng.random() < .7 else c["w"] + f)

    def gen_lit(self, rng):
        n = int(rng.random() * (30 if rng.random() < .95 else 400))
        return {"w": "".join(gen.pick(rng, gen.LITERALS) if rng.random() < .3 else
                             chr(self.cp(rng)) for _ in range(n)), "seg": int(rng.random() < .35), "print": int(rng.random() < .2)}

    @staticmethod
    def cp(rng):
        while True:
            r = rng.random()
            c = int(rng.random() * (0x80 if r < .3 else 0x2000 if r < .6 else 0x10000 if r < .8 else 0x110000))
            if not 0xd800 <= c < 0xe000 and chr(c) not in T.WORDCH and c != 0x2e:
                return c

    def one(self, i):
        """Every BMP code point alone and between two syllables."""
        c, k = divmod(i, 2)
        ch = chr(c) if not 0xd800 <= c < 0xe000 else "-"
        return {"w": ("กา" + ch + "มี") if k else ch, "seg": 0}

    def shrink(self, case):
        if case.get("dic"):
            yield dict(case, dic=None)
            for d in dicts.shrink_entries(case["dic"]):
                yield dict(case, dic=d)
        if case.get("print"):
            yield dict(case, **{"print": 0})
        if case["seg"]:
            yield dict(case, seg=0)
        for t in gen.shrink_text(case["w"]):
            yield dict(case, w=t)

    def phases(self, tier):
        k = 5 if tier == "thorough" else 1
        return [Phase("mixed", 500000 * k, gen=self.gen_mixed, chunk=2000, flavours=MIX),
                Phase("printed", 60000 * k, gen=self.gen_print, chunk=600, flavours=MIX),
                Phase("dictionaries", 16000 * k, gen=self.gen_dic, chunk=250, flavours=MIX),
                Phase("far", 1200 * k, gen=self.gen_far, chunk=25, flavours=MIX),
                Phase("literal", 60000 * k, gen=self.gen_lit, chunk=1000, flavours=MIX),
                Phase("every code point", 2 * 65536, enum=self.one, chunk=2048, exhaustive=True, flavours=MIX)]


CHECK = P03()
