from checks.common import *
from vp import orth

CORPUS = None


def corpus():
    global CORPUS
    if CORPUS is None:
        CORPUS = list(orth.regular())
    return CORPUS


class P04(Check):
    ID = "P04"
    RULE = "every case is non-trivial (a regular spelling with a prescribed reading); counted by text"
    ASSUMPTIONS = ["spellings that are by rule another form are left out: -w- clusters with the reduced vowel, "
                   "a doubled RO after a leading vowel, a bare final RO after the reduced vowel"]

    def evaluate(self, env, case):
        w, at, syl = case["w"], case["at"], case["syl"]
        es = read(env, w, case.get("seg", 0))
        want = (at, case["end"], ("S", syl), case["end"])
        msg = None
        if want not in es:
            got = [e[2][1] for e in es if e[0] == at and e[1] == case["end"]]
            msg = "reading: '%s' at %d-%d is not read %s, only %s" % (w, at, case["end"], syl, got)
        return msg, w, case["k"]

    def plain(self, i):
        sp, syl, k = corpus()[i]
        return {"w": sp, "at": 0, "end": len(sp), "syl": syl, "k": k[1]}

    def gen_karan(self, rng):
        while True:
            sp, syl, k = gen.pick(rng, corpus())
            if k[1] == "ไOMย":
                continue
            r = rng.random()
            if k[3] is None or r < .5:
                s = gen.pick(rng, T.CONS) + "์"
            elif r < .75:
                s = gen.pick(rng, T.CONS) + gen.pick(rng, T.CONS) + "์"
            else:
                s = gen.pick(rng, T.CONS) + gen.pick(rng, "ิุ") + "์"
            if s[0] == "ร" and sp[-1] == "ร":
                continue        # would be RO HAN
            return {"w": sp + s, "at": 0, "end": len(sp + s), "syl": syl, "k": k[1]}

    def gen_placed(self, rng):
        """Between blanks, digits and other literals, with full stop."""
        sp, syl, k = gen.pick(rng, corpus())
        pre = gen.pick(rng, ["", "1", " ", "กา ", "a b", "ๆ", "มีๆ ", "2. ", "ก. ", "ก.", "(", "ธรรม 1"])
        post = gen.pick(rng, ["", " ", "1", ".", ". ", "ๆ", "-", ".1", " กา", "ฯ"])
        # a lone reduced syllable before a full stop would be an abbreviation
        if k[1] == "OMF" and k[2] == "" or k[1] in ("Oร", "Oรร", "OรรF", "OMวF", "OMอ", "OMอF"):
            pre, post = pre + ("1" if pre[-1:] in (" ", ".", "") else ""), post.replace(".", "")
        end = len(pre + sp) + post.startswith(".")
        return {"w": pre + sp + post, "at": len(pre), "end": end, "syl": syl, "k": k[1]}

    def phases(self, tier):
        k = 5 if tier == "thorough" else 1
        return [Phase("all regular syllables", len(corpus()), enum=self.plain, exhaustive=True, chunk=2000, flavours=MIX),
                Phase("silenced letters", 400000 * k, gen=self.gen_karan, chunk=2000, flavours=MIX),
                Phase("in context", 500000 * k, gen=self.gen_placed, chunk=2000, flavours=MIX)]


CHECK = P04()
