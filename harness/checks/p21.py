from checks.common import *
from vp import strgen
import json

SEP = "\x1f"      # delimiter that no notation uses


class P21(Check):
    ID = "P21"
    RULE = "word or string list with at least one element; counted by the input, notation and structure"

    def evaluate(self, env, case):
        d = env.drv
        nt = case["nt"]
        if "w" in case:
            es = bare(read(env, case["w"], case["seg"]))
            n = graph.count_paths(es)
            if n > 2000:
                return None, None, "too many"
            pid = env.parser(case["seg"])
            r = d.ask("word", pid, hx(case["w"]), nt + "J", nt + "D" + SEP.encode().hex(), nt + "G")
            arr, grouped = load_json(r[1]), load_json(r[3])
            plain = utf8(r[2])
            key, tag = (case["w"], case["seg"], nt), "word"
            blanks = False
        else:
            w = [strgen.wire(s) for s in case["strs"]]
            n = len(w)
            arr = load_json(d.ask("strs", nt + "J", *w)[1])
            plain = utf8(d.ask("strs", nt + "D" + SEP.encode().hex(), *w)[1])
            grouped = load_json(d.ask("strs", nt + "G", *w)[1])
            key, tag = (tuple(w), nt), "list"
            # element by element
            exp = [[utf8(x) for x in d.ask("syl", nt, *[strgen.wire([y]) for y in s])[1:]] for s in case["strs"]]
            if arr != exp:
                return "elements: JSON %s instead of %s" % (json.dumps(arr)[:200], json.dumps(exp)[:200]), None, ""
            if n == 1:
                one = load_json(d.ask("str", nt + "J", w[0])[1])
                if one != exp[0]:
                    return "elements: JSON of one string %s instead of %s" % (one, exp[0]), None, ""
            blanks = any(x[0] == "B" for s in case["strs"] for x in s)
        if not isinstance(arr, list) or any(not isinstance(p, list) or not p or
                                            any(not isinstance(x, str) for x in p) for p in arr):
            return "shape: %s" % json.dumps(arr)[:200], None, ""
        if not isinstance(grouped, list) or any(not isinstance(ch, list) or any(
                not isinstance(g, list) or not g or any(not isinstance(a, list) or not a or any(
                    not isinstance(x, str) for x in a) for a in g) for g in ch) for ch in grouped):
            return "shape: grouped %s" % json.dumps(grouped)[:200], None, ""
        if not n and (arr != [] or grouped != [] or plain != ""):
            return "empty: no pronunciation but %s / %s / %r" % (arr, grouped, plain), None, ""
        if not blanks:
            lits = "\n" in "".join(x for p in arr for x in p)
            text = "".join(SEP.join(p) + "\n" for p in arr)
            if text != plain:
                return "order or text: JSON %r, delimited %r" % (text[:200], plain[:200]), None, ""
        return None, (key if n else None), "%s %s" % (tag, nt)

    def gen_word(self, rng):
        r = rng.random()
        if r < .45:
            w = gen.thai_text(rng, 8)
        elif r < .8:
            w = gen.mixed_text(rng, 4, 12)
        else:
            w = "".join(gen.pick(rng, ["\"", "\\", "\n", "\t", "\x01", "\x1e", "/", "a", "กา", "", "\x7f", "é", "中", "😀", "'",
                                       "\r", "\b", "\f", "</", "\x00"]) for _ in range(1 + int(rng.random() * 5)))
        if rng.random() < .01:
            w = gen.long_word(rng)
        return {"w": w.replace(SEP, ""), "seg": int(rng.random() < .3), "nt": gen.pick(rng, "trpws")}

    def gen_list(self, rng):
        if rng.random() < .01:
            # many short ones (long ones would have too many combinations in common)
            return {"strs": [strgen.string(rng, 5, False, .3)[:1] for _ in range(gen.pick(rng, [20, 70, 150, 600]))], "nt": gen.pick(rng, "trpws")}
        n = gen.pick(rng, [1, 1, 2, 3, 5])
        return {"strs": [strgen.string(rng, 5, rng.random() < .3, .3) for _ in range(n)], "nt": gen.pick(rng, "trpws")}

    def control(self, i):
        """Every character of the first plane that needs thought, alone."""
        c, nt = divmod(i, 5)
        return {"strs": [[["L", "x" + chr(c) + "y", 3]]], "nt": "trpws"[nt]}

    def shrink(self, case):
        if "w" in case:
            if case["seg"]:
                yield dict(case, seg=0)
            for t in gen.shrink_text(case["w"]):
                yield dict(case, w=t)
        else:
            for s in gen.shrink_list(case["strs"], lambda x: gen.shrink_list(x)):
                if s and all(s):
                    yield dict(case, strs=s)

    def phases(self, tier):
        k = 6 if tier == "thorough" else 1
        return [Phase("words", 130000 * k, gen=self.gen_word, chunk=500, flavours=MIX),
                Phase("lists", 80000 * k, gen=self.gen_list, chunk=500, flavours=MIX),
                Phase("characters", 5 * 0x300, enum=self.control, chunk=256, exhaustive=True, flavours=("fast", "san"))]


CHECK = P21()
