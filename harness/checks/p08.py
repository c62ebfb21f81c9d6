from checks.common import *


class P08(ModelCheck):
    ID = "P08"
    RULE = ("text with at least one word break inside and at least one pronunciation; counted by text "
            "(each is read both with and without segmentation)")

    GLD = ("default",)

    def evaluate(self, env, case):
        with dictionary(env, case.get("dic")) as dic:
            return self.judge(env, case, dic)

    def judge(self, env, case, dic):
        w = case["w"]
        brk = breaks(env, w)
        u = T.u16(w)
        n = len(u)
        md = dicts.as_model(case["dic"]) if dic else None
        on, off = read(env, w, 1, dic), read(env, w, 0, dic)
        ref_on, ref_off = model.analyse(u, brk, md), model.analyse(u, (), md)
        msg = ends_wrong(on) or ends_wrong(off)
        d = msg or differ(w, on, ref_on)
        if d:
            return "with segmentation (breaks %s): %s" % (brk, d), None, ""
        d = differ(w, off, ref_off)
        if d:
            return "without segmentation: %s" % d, None, ""
        # stated directly: nothing crosses a break
        inner = [b for b in brk if 0 < b < n]
        src, dst = {}, {}
        for a, b, l, _ in on:
            if b < 0:
                src.setdefault(b, set()).add(a)
            if a < 0:
                dst.setdefault(a, set()).add(b)
        for a, b, l, _ in on:
            if l[0] == "L":
                continue
            lo = a if a >= 0 else min(src[a])
            hi = b if b >= 0 else max(dst[b])
            while hi > lo and u[hi - 1] == ".":
                hi -= 1
            for x in inner:
                if lo < x < hi:
                    return "crossing: %s at %d-%d crosses the break at %d" % (l[1], lo, hi, x), None, ""
        changed = graph.canon(ref_on) != graph.canon(ref_off)
        return None, ((w, repr(case.get("dic"))) if inner and ref_on else None), (
            "no break" if not inner else "unreadable" if not ref_on else
            "restricts" if changed else "breaks at syllable ends anyway")

    def gen_words(self, rng):
        r = rng.random()
        parts = [gen.pick(rng, gen.WORDS) if rng.random() < .7 else gen.syllable(rng)
                 for _ in range(1 + int(rng.random() * 4))]
        if r < .15:
            parts.insert(int(rng.random() * (len(parts) + 1)), gen.pick(rng, [" ", "1", ".", "ก.", "ๆ", "a"]))
        w = "".join(parts)
        if rng.random() < .2:
            w = gen.mutate(rng, w)
        return {"w": w[:40]}

    def gen_soup(self, rng):
        return {"w": gen.thai_text(rng, 14) if rng.random() < .6 else gen.mixed_text(rng)}

    def gen_repeat(self, rng):
        """Words the breaker knows, glued so that finals and initials compete."""
        w = "".join(gen.pick(rng, ["ตากลม", "มากราบ", "นวลลออ", "ขนลุก", "สมร", "พล", "กลม", "รถ", "ไฟ", "มาก", "กว่า", "ตา", "ตาก",
                                   "ลม", "ศิลปะ", "การ", "ธรรม", "ธรรมชาติ", "วิทยา", "ศาสตร์", "ราช", "ชาติ", "พระ", "ชน", "นก", "สตรี",
                                   "เกม", "เพลา", "ขยะ", "สระ", "ผล", "ไม้", "รัฐ", "บาล", "จักร", "ยาน", "บุตร", "ญาติ", "เหตุ", "การณ์"])
                    for _ in range(2 + int(rng.random() * 4)))
        return {"w": w}

    def gen_long(self, rng):
        """Many breaks, breaks far from the beginning."""
        w = "".join(gen.pick(rng, gen.WORDS) if rng.random() < .9 else gen.pick(rng, [" ", "ก.", "1", gen.syllable(rng)])
                    for _ in range(6 + int(rng.random() * 30)))
        return {"w": gen.filler(rng, 300) + w[:60] if rng.random() < .4 else w[:300]}

    def gen_dic(self, rng):
        """Entries that start or end anywhere in a text of several words, so
        that many of them lie across the breaks."""
        w = "".join(gen.pick(rng, gen.WORDS) if rng.random() < .7 else gen.syllable(rng)
                    for _ in range(2 + int(rng.random() * 3)))[:24]
        keys = []
        for _ in range(1 + int(rng.random() * 4)):
            i = int(rng.random() * len(w))
            k = w[i:i + 1 + int(rng.random() * 7)]
            if k and k not in keys:
                keys.append(k)
        return {"w": w, "dic": [[k, [dicts.alternative(rng, len(k)) for _ in range(1 + (rng.random() < .3))]] for k in keys]}

    def shrink(self, case):
        if case.get("dic"):
            for d in dicts.shrink_entries(case["dic"]):
                yield dict(case, dic=d)
        yield from ModelCheck.shrink(self, case)

    def phases(self, tier):
        k = 5 if tier == "thorough" else 1
        return [Phase("dictionaries", 25000 * k, gen=self.gen_dic, chunk=250, flavours=MIX),
                Phase("words", 100000 * k, gen=self.gen_words, chunk=500, flavours=MIX),
                Phase("fragments", 100000 * k, gen=self.gen_soup, chunk=1000, flavours=MIX),
                Phase("long", 1600 * k, gen=self.gen_long, chunk=25, flavours=MIX),
                Phase("glued words", 40000 * k, gen=self.gen_repeat, chunk=500, flavours=MIX)]


CHECK = P08()
