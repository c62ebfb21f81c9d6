from collections import Counter
from checks.common import *
from vp import dicts, strgen
import os

SEP = "1f"          # delimiter that no notation uses


class P27(Check):
    """What is printed for a word or graph against the paths of the graph."""
    ID = "P27"
    GLD = ("default",)
    RULE = "at least two pronunciations; counted by the word with its dictionary, or by the graph"

    def evaluate(self, env, case):
        d = env.drv
        made = None
        try:
            if "w" in case:
                path = None
                if case["dic"]:
                    rc, made, err = dicts.compile_lines(env, [dicts.entry_line(k, a) for k, a in case["dic"]])
                    if rc:
                        return "dictionary: not compiled: " + err[:200], None, ""
                    path = made
                d.ask("parser", "x", str(case["seg"]), hx(path) if path else "-", "load")
                es = bare(edges_of(d.ask("parse", "x", hx(case["w"]))))
                key, tag = (case["w"], case["seg"], repr(case["dic"])), "word"

                def out(*fms):
                    return d.ask("word", "x", hx(case["w"]), *fms)[1:]
            else:
                es = [(a, b, (k, "".join(T.u16(t)))) for a, b, k, t in case["g"]]
                wire = strgen.wire_edges(case["g"])
                key, tag = tuple(map(tuple, case["g"])), "graph"

                def out(*fms):
                    return [d.ask("dagout", f, *wire)[1] for f in fms]
            n = graph.count_paths(es)
            if n > 600:
                return None, None, "too many"
            paths = [tuple(p) for p in graph.paths(es)]
            # every element in every notation
            els = sorted({x for p in paths for x in p}, key=repr)
            raw = [client.fmt_syl(l, e) for l, e in els]
            nts = ["w"] + list(case["nts"])
            name = {nt: dict(zip(els, (utf8(x) for x in d.ask("syl", nt, *raw)[1:]))) if els else {} for nt in nts}
            res = out(*[nt + "J" for nt in nts])
            arrs = {nt: load_json(r) for nt, r in zip(nts, res)}
            # the raw notation shows labels and ends, hence the path
            want = Counter(tuple(name["w"][x] for x in p) for p in paths)
            got = Counter(map(tuple, arrs["w"]))
            if got != want:
                return "listing differs: missing %s, too many %s" % (
                    sorted((want - got).elements())[:3], sorted((got - want).elements())[:3]), None, ""
            back = {}
            for p in paths:
                back.setdefault(tuple(name["w"][x] for x in p), []).append(p)
            for nt in nts[1:]:
                if len(arrs[nt]) != len(arrs["w"]):
                    return "notation %s: %d pronunciations instead of %d" % (nt, len(arrs[nt]), len(arrs["w"])), None, ""
                for i, (a, r) in enumerate(zip(arrs[nt], arrs["w"])):
                    if all(a != [name[nt][x] for x in p] for p in back[tuple(r)]):
                        return "notation %s: number %d is %s, in raw notation %s" % (nt, i, a, r), None, ""
            fm = case["fm"]
            if n and not any(l[0] == "B" for l, _ in els):
                # structures that print lines: each line by itself
                exp = "".join(utf8(d.ask("str", fm, ",".join(client.fmt_syl(*x) for x in back[tuple(r)][0]))[1]) + "\n"
                              for r in arrs["w"])
                text = utf8(out(fm)[0])
                if text != exp:
                    return "lines: %s gives %r instead of %r" % (fm, text[:200], exp[:200]), None, ""
            return None, (key if n > 1 else None), "%s, %s" % (
                tag, "0" if not n else "1" if n == 1 else "2-9" if n < 10 else "10-99" if n < 100 else "100+")
        finally:
            if made:
                os.unlink(made)

    def how(self, rng):
        a, b = rng.sample("trps", 2)
        return {"nts": a + b, "fm": gen.pick(rng, ["rR", "rC", "tD2d", "pD20", "wD2c", "sD2d", "rD2d", "w" + "D" + SEP])}

    def gen_word(self, rng):
        dic = dicts.entries(rng, 3) if rng.random() < .15 else None
        r = rng.random()
        w = gen.thai_text(rng, 10) if r < .7 else gen.mixed_text(rng, 4, 12)
        if rng.random() < .01:
            w = gen.long_word(rng)
        if dic:
            i = int(rng.random() * (len(w) + 1))
            w = gen.pick(rng, dic)[0] + w[:3] if rng.random() < .6 else w[:i] + gen.pick(rng, dic)[0] + w[i:]
        return dict(self.how(rng), w=w, seg=int(rng.random() < .3), dic=dic)

    def gen_graph(self, rng):
        return dict(self.how(rng), g=strgen.graph(rng, small=rng.random() < .7) if rng.random() < .99 else strgen.large_graph(rng, 200))

    def shrink(self, case):
        if "w" in case:
            if case["seg"]:
                yield dict(case, seg=0)
            if case["dic"]:
                yield dict(case, dic=None)
            for t in gen.shrink_text(case["w"]):
                yield dict(case, w=t)
        else:
            for g in gen.shrink_list(case["g"]):
                yield dict(case, g=g)
        if len(case["nts"]) > 1:
            for x in case["nts"]:
                yield dict(case, nts=x)

    def phases(self, tier):
        k = 6 if tier == "thorough" else 1
        return [Phase("words", 60000 * k, gen=self.gen_word, chunk=300, flavours=MIX),
                Phase("graphs", 60000 * k, gen=self.gen_graph, chunk=500, flavours=MIX)]


CHECK = P27()
