from checks.common import *
from vp import dicts
import os


class P10(Check):
    ID = "P10"
    GLD = ("default",)
    RULE = "text in which at least one entry is used (the result differs from that of the rules alone); counted by dictionary, text and mode"

    def evaluate(self, env, case):
        ents = case["dic"]
        rc, path, err = dicts.compile_lines(env, [dicts.entry_line(k, a) for k, a in ents])
        if rc:
            return "dictionary not compiled: %s" % err[:200], None, ""
        try:
            md = dicts.as_model(ents)
            used = 0
            for w in case["texts"]:
                u = T.u16(w)
                for seg in case["segs"]:
                    brk = breaks(env, w) if seg else ()
                    code = read(env, w, seg, path)
                    ref = model.analyse(u, brk, md)
                    msg = ends_wrong(code) or differ(w, code, ref)
                    if msg:
                        return "%s in '%s' (segmentation %d)" % (msg, w, seg), None, ""
                    if ref and ref != model.analyse(u, brk):
                        used += 1
            return None, (repr(case) if used else None), "entries used in %d" % min(used, 5)
        finally:
            os.unlink(path)

    def gen(self, rng):
        ents = dicts.entries(rng)
        return {"dic": ents, "texts": [dict_text(rng, ents) for _ in range(8)], "segs": [0, 1]}

    def gen_far(self, rng):
        ents = dicts.entries(rng, 3, 60)
        return {"dic": ents, "texts": [gen.filler(rng, 300) + dict_text(rng, ents, 3, 70), dict_text(rng, ents, 3, 70)],
                "segs": [int(rng.random() < .5)]}

    def shrink(self, case):
        for t in case["texts"] if len(case["texts"]) > 1 else ():
            yield dict(case, texts=[t])
        if len(case["segs"]) > 1:
            for s in case["segs"]:
                yield dict(case, segs=[s])
        for d in dicts.shrink_entries(case["dic"]):
            yield dict(case, dic=d)
        if len(case["texts"]) == 1:
            for t in gen.shrink_text(case["texts"][0]):
                yield dict(case, texts=[t])

    def phases(self, tier):
        return [Phase("dictionaries", 60000 if tier == "thorough" else 12000, gen=self.gen, chunk=50, flavours=MIX),
                Phase("far", 6000 if tier == "thorough" else 1200, gen=self.gen_far, chunk=25, flavours=MIX)]


CHECK = P10()
