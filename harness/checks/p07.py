from checks.common import *

NAMEPOS = "ก ข น ร"


def letter_names(cs):
    return tuple(("S", T.SOUND[c] + "_C_" + ("4" if T.CLASS[c] == "H" else "0")) for c in cs)


class P07(ModelCheck):
    ID = "P07"
    RULE = ("readable text containing a full stop or a letter group where the abbreviation rule may apply; counted by "
            "text and segmentation mode")

    def evaluate(self, env, case):
        w, seg = case["w"], case.get("seg", 0)
        if case.get("meta"):
            # a full stop after a whole text changes no reading
            one, two = bare(read(env, w, seg)), bare(read(env, w + ".", seg))
            n = len(T.u16(w))
            exp = [(a, n + 1 if b == n else b, l) for a, b, l in one]
            d = differ(w, read(env, w + ".", seg), exp)
            return ("full stop changes the readings: " + d if d else None), ((w, seg, 1) if one else None), "stop appended"
        msg, key, tag = super().evaluate(env, case)
        if "names" in case and not msg:
            # stated without the reference rules: one reading, letter by letter
            ps = graph.label_paths(bare(read(env, w, seg)))
            got = [tuple(l for l, _ in p) for p in ps]
            exp = [tuple(letter_names(case["names"]))]
            if got != exp:
                msg = "abbreviation: '%s' read as %s instead of %s" % (w, got[:3], exp)
        if key is not None and "." not in w and len(w) > 1:
            key = None
        return msg, key, ("with stop " if "." in w else "no stop ") + tag

    def gen_abbr(self, rng):
        out = ""
        for _ in range(1 + int(rng.random() * 5)):
            r = rng.random()
            if r < .5:
                n = gen.pick(rng, [1, 1, 2, 2, 3, 4, 4, 5, 5, 6])
                out += "".join(gen.pick(rng, T.CONS) for _ in range(n))
                r2 = rng.random()
                out += "." if r2 < .65 else ". " if r2 < .75 else " " if r2 < .85 else ""
            elif r < .72:
                out += gen.syllable(rng) + ("." if rng.random() < .4 else "")
            elif r < .84:
                out += gen.pick(rng, [".", "..", " .", ". ", " ", "  "])
            elif r < .94:
                out += gen.pick(rng, ["1", "a", "ๆ", "ฯ", "-", "๑", "\t", " "]) + gen.pick(rng, ["", ".", "ก.", "ก"])
            else:
                out += gen.thai_text(rng, 6) + "."
        return {"w": out[:16 if rng.random() < .95 else 50], "seg": int(rng.random() < .3)}

    def gen_meta(self, rng):
        while True:
            w = gen.thai_text(rng, 10)
            if rng.random() < .2:
                w = gen.mixed_text(rng, 3, 10) + gen.syllable(rng)
            tail = w.replace(".", " ").split(" ")[-1]
            if w[-1] in T.WORDCH and not (len(tail) <= 4 and all(c in T.CONS for c in tail)):
                return {"w": w, "seg": 0, "meta": 1}

    def phases(self, tier):
        big = tier == "thorough"
        A = "กขรหนมอา. 1เิ"
        L = 6 if big else 5
        total = sum(len(A) ** k for k in range(1, L + 1))

        def word(i):
            k = 1
            while i >= len(A) ** k:
                i -= len(A) ** k
                k += 1
            s = ""
            for _ in range(k):
                i, r = divmod(i, len(A))
                s += A[r]
            return {"w": s}
        nn, at = product(["", "", " "], list(T.CONS), [""] + list(T.CONS))

        def names(i):
            _, a, b = at(i)
            return {"w": a + b + ".", "names": a + b}
        n3 = 44 + 44 * 44

        def lone(i):
            if i < 44:
                return {"w": T.CONS[i], "names": T.CONS[i]}
            a, b = divmod(i - 44, 44)
            return {"w": T.CONS[a] + T.CONS[b] + "กข.", "names": T.CONS[a] + T.CONS[b] + "กข"}
        def before(i):
            """Every code point right before a letter group: only a space and
            a full stop (and a segment boundary) open an abbreviation."""
            c, k = divmod(i, 3)
            ch = chr(c) if not 0xd800 <= c < 0xe000 else chr(0x10000 + (c - 0xd800) * 0x1f7)
            return {"w": (ch + "ก.", ch + "ข", "กา" + ch + "กข.")[k]}
        return [Phase("every code point", 3 * 65536, enum=before, exhaustive=True, chunk=3000, flavours=MIX),
                Phase("all short strings", total, enum=word, exhaustive=True, chunk=4000, flavours=MIX),
                Phase("letter names", nn, enum=names, exhaustive=True, flavours=MIX),
                Phase("lone and four letters", n3, enum=lone, exhaustive=True, flavours=MIX),
                Phase("appended stop", 600000 if big else 120000, gen=self.gen_meta, chunk=2000, flavours=MIX),
                Phase("long", 30000 if big else 6000, gen=lambda r: {"w": long_text(r, lambda q: self.gen_abbr(q)["w"]), "seg": int(r.random() < .2)},
                      chunk=100, flavours=MIX),
                Phase("random", 2000000 if big else 350000, gen=self.gen_abbr, chunk=2000, flavours=MIX)]

    def shrink(self, case):
        if "names" in case:
            return
        if case.get("meta"):
            for c in super().shrink(case):
                tail = c["w"].replace(".", " ").split(" ")[-1]
                if c["w"][-1] in T.WORDCH and not (len(tail) <= 4 and all(x in T.CONS for x in tail)):
                    yield c
            return
        yield from super().shrink(case)


CHECK = P07()
