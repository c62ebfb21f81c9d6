import itertools
from checks.common import *
from vp import strgen


def strip(x):
    """Raw element without its end position."""
    return x.rsplit("@", 1)[0] if "@" in x else x


def expand(latt, limit=200000):
    """All pronunciations of a grouped result."""
    out = set()
    n = 0
    for chain in latt:
        k = 1
        for g in chain:
            k *= len(g)
        n += k
        if n > limit:
            return None
        for combo in itertools.product(*chain):
            out.add(tuple(x for part in combo for x in part))
    return out


def group_repeats(latt):
    for chain in latt:
        for g in chain:
            seen = set()
            for alt in g:
                t = tuple(alt)
                if t in seen:
                    return alt
                seen.add(t)
            if not g:
                return "empty group"
    return None


class P14(Check):
    ID = "P14"
    RULE = ("at least two pronunciations; counted by the word (and notation) or by the graph")

    def compare(self, grouped, plain, notation):
        if notation == "w":
            grouped = [[[[strip(x) for x in alt] for alt in g] for g in ch] for ch in grouped]
            plain = [[strip(x) for x in p] for p in plain]
        r = group_repeats(grouped)
        if r is not None and notation == "w":
            return "grouping repeats: alternative %s" % (r,)
        exp = expand(grouped)
        if exp is None:
            return None
        want = {tuple(p) for p in plain}
        if exp != want:
            return "grouping differs: lost %s invented %s" % (sorted(want - exp)[:3], sorted(exp - want)[:3])
        return None

    GLD = ("default",)

    def evaluate(self, env, case):
        with dictionary(env, case.get("dic")) as dic:
            return self.judge(env, case, dic)

    def judge(self, env, case, dic):
        if "w" in case:
            es = bare(read(env, case["w"], case["seg"], dic))
            n = graph.count_paths(es)
            if n > 3000:
                return None, None, "too many"
            nt = case["nt"]
            r = env.drv.ask("word", env.parser(case["seg"], dic), hx(case["w"]), nt + "J", nt + "G")
            plain, grouped = (load_json(x) for x in r[1:3])
            if nt == "w" and not any(l[0] == "L" for _, _, l in es):
                ps = {tuple(l[1] for l, _ in p) for p in graph.paths(es)}
                if ps != {tuple(strip(x) for x in p) for p in plain}:
                    return "plain differs: listing of %s" % case["w"], None, ""
            return self.compare(grouped, plain, nt), ((case["w"], case["seg"], nt, repr(case.get("dic"))) if n > 1 else None), \
                "word, %s" % ("1" if n == 1 else "0" if n == 0 else "2-9" if n < 10 else "10-99" if n < 100 else "100+")
        es = [(a, b, (k, t)) for a, b, k, t in case["g"]]
        n = graph.count_paths(es)
        if n > 3000:
            return None, None, "too many"
        want = {tuple((l[0], l[1]) for l, _ in p) for p in graph.paths(es)}
        r = env.drv.ask("lattice", *strgen.wire_edges(case["g"]))
        latt, stack = [], []
        for tok in r[1:]:
            if tok == "[":
                latt.append([])
            elif tok == "(":
                latt[-1].append([])
            elif tok in ")]":
                pass
            else:
                latt[-1][-1].append([l for l, _ in client.strings_of([tok])[0]])
        rep = group_repeats([[[tuple(a) for a in g] for g in ch] for ch in latt])
        if rep is not None:
            return "grouping repeats: %s" % (rep,), None, ""
        got = expand(latt)
        want = {tuple((k, "".join(T.u16(t))) for k, t in p) for p in want}
        msg = None
        if got is not None and got != want:
            msg = "grouping differs: lost %s invented %s" % (sorted(want - got)[:3], sorted(got - want)[:3])
        return msg, (("g", tuple(map(tuple, case["g"]))) if n > 1 else None), "graph, %s" % (
            "1" if n <= 1 else "2-9" if n < 10 else "10-99" if n < 100 else "100+")

    def gen_word(self, rng):
        r = rng.random()
        w = gen.thai_text(rng, 10) if r < .7 else gen.mixed_text(rng, 4, 12)
        if rng.random() < .06:
            w = "".join(gen.syllable(rng) + gen.pick(rng, ["", "", " ", "a"]) for _ in range(4 + int(rng.random() * 8)))
        if rng.random() < .01:
            w = gen.long_word(rng)
        dic = None
        if rng.random() < .08:
            dic = dicts.entries(rng, 3)
            w = dict_text(rng, dic, 3, 14)
        return {"w": w, "seg": int(rng.random() < .3), "nt": "w" if rng.random() < .6 else gen.pick(rng, "trps"), "dic": dic}

    def gen_graph(self, rng):
        return {"g": strgen.graph(rng) if rng.random() < .99 else strgen.large_graph(rng, 250)}

    def shrink(self, case):
        if "w" in case:
            if case["seg"]:
                yield dict(case, seg=0)
            if case.get("dic"):
                yield dict(case, dic=None)
                for d in dicts.shrink_entries(case["dic"]):
                    yield dict(case, dic=d)
            for t in gen.shrink_text(case["w"]):
                yield dict(case, w=t)
        else:
            for g in gen.shrink_list(case["g"]):
                # keep every node reachable from the root
                reach, grew = {0}, True
                while grew:
                    grew = False
                    for a, b, _, _ in g:
                        if a in reach and b not in reach:
                            reach.add(b)
                            grew = True
                if all(a in reach for a, _, _, _ in g):
                    yield {"g": g}

    def phases(self, tier):
        k = 5 if tier == "thorough" else 1
        return [Phase("words", 100000 * k, gen=self.gen_word, chunk=500, flavours=MIX),
                Phase("graphs", 120000 * k, gen=self.gen_graph, chunk=500, flavours=MIX)]


CHECK = P14()
