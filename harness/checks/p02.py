from checks.common import *


def tiling(edges, n):
    """The graph must consist of complete left-to-right readings only."""
    if not edges:
        return None
    outs, ins = {}, {}
    for a, b, l, e in edges:
        if e != b:
            return "end position: syllable %s is said to end at %d but leads to %d" % (l[1], e, b)
        outs.setdefault(a, set()).add(b)
        ins.setdefault(b, set()).add(a)
        if a >= 0 and b >= 0 and not a < b:
            return "end position: syllable %s goes from %d back to %d" % (l[1], a, b)
    nodes = set(outs) | set(ins)
    for x in nodes:
        if x > n:
            return "end position: %d is beyond the text end %d" % (x, n)
        if x not in outs and x != n:
            return "dangling: a reading stops at %d, the text ends at %d" % (x, n)
        if x not in ins and x != 0:
            return "dangling: a reading starts at %d" % x
        if x < 0:
            # after a short leading syllable: from a place on the left to a
            # place on the right of it
            lo, hi = max(ins[x]), min(outs[x])
            if lo >= 0 and hi >= 0 and lo >= hi:
                return "end position: code %d joins %d and %d" % (x, lo, hi)
    if n in outs or 0 in ins:
        return "end position: reading goes on after the end"
    # reachability both ways (no cycles through negative nodes)
    for start, nxt in ((0, outs), (n, ins)):
        seen, todo = {start}, [start]
        while todo:
            for y in nxt.get(todo.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        if seen != nodes:
            return "dangling: nodes %s are on no complete reading" % sorted(nodes - seen)
    return None


class P02(Check):
    ID = "P02"
    GLD = ("default",)
    RULE = ("the text has a pronunciation of at least two elements; counted by text, segmentation mode and use of "
            "the listing output")

    def evaluate(self, env, case):
        with dictionary(env, case.get("dic")) as dic:
            return self.judge(env, case, dic)

    def judge(self, env, case, dic):
        w, seg = case["w"], case["seg"]
        n = len(T.u16(w))
        es = read(env, w, seg, dic)
        msg = tiling(es, n)
        if not msg and case["list"] and es and graph.count_paths(bare(es)) <= 300:
            # the printed form: every listed pronunciation ends at the text end
            r = env.drv.ask("word", env.parser(seg, dic), hx(w), "wJ")
            arr = load_json(r[1])
            if not arr:
                msg = "listing: no pronunciation although the graph has some"
            for s in arr:
                # a single blank is printed without its position
                pos = [int(x.rsplit("@", 1)[1]) for x in s if x != " "]
                if s[-1] != " " and pos[-1] != n:
                    msg = "listing: pronunciation %s does not end at %d" % (s, n)
                q = [p for p in pos if p >= 0]
                if any(x >= y for x, y in zip(q, q[1:])) or (q and q[0] <= 0):
                    msg = "listing: end positions of %s do not increase" % s
        return msg, ((w, seg, case["list"], repr(case.get("dic"))) if len(es) > 1 else None), "unreadable" if not es else (
            "with literal" if any(l[0] == "L" for _, _, l, _ in es) else "thai only")

    def gen_any(self, rng):
        r = rng.random()
        w = gen.thai_text(rng, 14) if r < .5 else gen.mixed_text(rng)
        return {"w": w, "seg": int(rng.random() < .35), "list": int(rng.random() < .3)}

    def gen_long(self, rng):
        w = "".join(gen.syllable(rng) if rng.random() < .8 else gen.pick(rng, [" ", ".", "1", "ๆ"])
                    for _ in range(5 + int(rng.random() * 15)))
        return {"w": w, "seg": int(rng.random() < .5), "list": 0}

    def gen_far(self, rng):
        c = self.gen_any(rng)
        f = gen.filler(rng, 70000)
        i = int(rng.random() * (len(c["w"]) + 1)) if rng.random() < .5 else 0
        return dict(c, w=c["w"][:i] + f + c["w"][i:])

    def gen_dic(self, rng):
        ents = dicts.entries(rng)
        return {"w": dict_text(rng, ents), "seg": int(rng.random() < .5), "list": int(rng.random() < .3), "dic": ents}

    def shrink(self, case):
        if case.get("dic"):
            yield dict(case, dic=None)
            for d in dicts.shrink_entries(case["dic"]):
                yield dict(case, dic=d)
        for k in ("seg", "list"):
            if case[k]:
                yield dict(case, **{k: 0})
        for t in gen.shrink_text(case["w"]):
            yield dict(case, w=t)

    def phases(self, tier):
        k = 5 if tier == "thorough" else 1
        return [Phase("any", 600000 * k, gen=self.gen_any, chunk=2000, flavours=MIX),
                Phase("dictionaries", 25000 * k, gen=self.gen_dic, chunk=250, flavours=MIX),
                Phase("far", 1500 * k, gen=self.gen_far, chunk=25, flavours=MIX),
                Phase("long", 30000 * k, gen=self.gen_long, chunk=250, flavours=MIX)]


CHECK = P02()
