from checks.common import *
from checks.p13 import CHECK as LOADS
from vp import dicts
import os

FM = ["tD2d", "rR", "rC", "pD20", "wD2c", "sD2d", "tJ", "wG", "rG"]
WARM, ROUNDS = 2, 4


class P26(Check):
    """A list of operations is carried out several times in one process; from
    the third time on nothing more may be held than before."""
    ID = "P26"
    FLAVOURS = ("mem",)
    GLD = ("default",)
    RULE = "list with at least two kinds of operation, one of them an analysis with a pronunciation; counted by the list"

    def once(self, d, case, files):
        kinds = set()
        for op in case["ops"]:
            if op[0] == "new":
                _, pid, seg, fi, how = op
                path = None if fi is None else files[fi][0]
                d.ask("parser", pid, str(seg), hx(path) if path else "-", how if path else "load")
            elif op[0] == "load":
                d.ask("load", op[1], hx(files[op[2]][0]))
            elif op[0] == "dict":
                d.ask("dict", op[1], hx(files[op[2]][0]))
            elif op[0] == "parse":
                if len(d.ask("parse", op[1], hx(op[2]))) == 1:
                    continue
            elif op[0] == "word":
                es = d.ask("parse", op[1], hx(op[2]))
                if len(es) > 300 or graph.count_paths(bare(edges_of(es))) > 100:
                    continue
                d.ask("word", op[1], hx(op[2]), *[FM[i] for i in op[3]])
            kinds.add(op[0] if op[0] != "load" else "load" + case["files"][op[2]]["kind"])
        d.ask("reset")
        return kinds

    def evaluate(self, env, case):
        made = []
        env.fresh()
        try:
            files = [LOADS.make(env, f, made) for f in case["files"]]
            d = env.drv
            held = []
            for _ in range(WARM + ROUNDS):
                kinds = self.once(d, case, files)
                held.append([int(x) for x in d.ask("held")[1:]])
            for i, what in ((0, "memory"), (1, "files")):
                h = [x[i] for x in held[WARM - 1:]]
                if all(a < b for a, b in zip(h, h[1:])):
                    return "%s: held after each repetition: %s" % (what, " ".join(map(str, h))), None, ""
            return None, (repr(case) if len(kinds) > 1 and kinds & {"parse", "word"} else None), "%d kinds of operation" % len(kinds)
        finally:
            for p in made:
                if os.path.exists(p):
                    os.unlink(p)

    def gen(self, rng):
        share = dicts.entries(rng, 3)
        files = [LOADS.file(rng, share) for _ in range(1 + int(rng.random() * 3))]
        texts = LOADS.texts(rng, files, 3) + [gen.thai_text(rng, 9), gen.mixed_text(rng, 3, 12), gen.mixed_text(rng, 8, 60)]

        def some():
            return int(rng.random() * len(files))
        ops = [["new", "a", int(rng.random() < .4), some() if rng.random() < .6 else None, gen.pick(rng, ["ctor", "load"])]]
        for _ in range(1 + int(rng.random() * 7)):
            r = rng.random()
            if r < .15:
                ops.append(["new", "a", int(rng.random() < .4), some() if rng.random() < .6 else None, gen.pick(rng, ["ctor", "load"])])
            elif r < .3:
                ops.append(["load", "a", some()])
            elif r < .4:
                ops.append(["dict", "d", some()])
            elif r < .7:
                ops.append(["parse", "a", gen.pick(rng, texts)])
            else:
                ops.append(["word", "a", gen.pick(rng, texts), [int(rng.random() * len(FM)) for _ in range(2)]])
        return {"files": files, "ops": ops}

    def shrink(self, case):
        for o in gen.shrink_list(case["ops"][1:]):
            yield dict(case, ops=case["ops"][:1] + o)
        for i, op in enumerate(case["ops"]):
            if op[0] == "new" and op[3] is not None:
                yield dict(case, ops=case["ops"][:i] + [op[:3] + [None, "load"]] + case["ops"][i + 1:])
            if op[0] in ("parse", "word"):
                for w in gen.shrink_text(op[2]):
                    yield dict(case, ops=case["ops"][:i] + [op[:2] + [w] + op[3:]] + case["ops"][i + 1:])

    def phases(self, tier):
        k = 6 if tier == "thorough" else 1
        return [Phase("repetitions", 6000 * k, gen=self.gen, chunk=50, flavours=("mem",))]


CHECK = P26()
