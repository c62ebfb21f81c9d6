from checks.common import *
from vp import dicts
import os

ALPHA = [chr(c) for c in range(0xe01, 0xe5c)]


class P11(Check):
    """Lookup of compiled dictionaries against a plain table."""
    ID = "P11"
    GLD = ("default", "O0", "O1", "O2", "O3", "san")
    RULE = "dictionary with at least two related keys and a lookup that finds at least one; counted by the list of entries"

    def expected(self, table, text, pos):
        u = "".join(T.u16(text))
        return [(pos + len(k), v) for k, v in sorted(table.items(), key=lambda x: len(x[0])) if k and u.startswith(k, pos)]

    def turns(self, env, case):
        """Several look-ups at once, in one or two dictionaries."""
        paths = []
        try:
            tables = []
            for i, lines in enumerate(case["lists"]):
                rc, path, err = dicts.compile_lines(env, [(k + "\t" + v).encode("utf-8") for k, v in lines], "default")
                paths.append(path)
                if rc:
                    return "not compiled: %s" % err[:200], None, ""
                if env.drv.ask("dict", "t%d" % i, hx(path.encode()))[1] != "1":
                    return "does not load", None, ""
                tables.append(dict(lines))
            args, left = [], []
            for i, text, pos in case["turns"]:
                args += ["t%d" % i, str(pos), T.hex16(text)]
                left.append(self.expected(tables[i], text, pos))
            some = sum(map(bool, left))
            sched = "".join(chr(97 + i) for i in case["sched"] if i < len(left))
            r = env.drv.ask("matches", sched or "-", *args)[1:] if sched else []
            for step, (c, g) in enumerate(zip(sched, r)):
                q = left[ord(c) - 97]
                exp = "%d:%s" % (q[0][0], hx(q[0][1].encode())) if q else "-"
                if g != exp:
                    return "lookup: number %s of %d in turn gives %s instead of %s at step %d" % (c, len(left), g, exp, step), None, ""
                q[:1] = []
            return None, (repr(case) if some > 1 else None), "in turn"
        finally:
            for p in paths:
                if os.path.exists(p):
                    os.unlink(p)

    def evaluate(self, env, case):
        if "turns" in case:
            return self.turns(env, case)
        lines = [(k + "\t" + v).encode("utf-8") for k, v in case["lines"]]
        if case.get("noeol"):
            # the last line need not be terminated
            pass
        table = {}
        for k, v in case["lines"]:
            table[k] = v
        blobs = {}
        paths = []
        try:
            for kind in case["kinds"]:
                rc, path, err = dicts.compile_lines(env, lines, kind)
                paths.append(path)
                if rc:
                    return "not compiled: (%s) %s" % (kind, err[:200]), None, ""
            found = 0
            for path, kind in zip(paths, case["kinds"]):
                d = env.drv
                if d.ask("dict", "d", hx(path.encode()))[1] != "1":
                    return "does not load: built with %s" % kind, None, ""
                for text, pos in case["looks"]:
                    r = d.ask("match", "d", str(pos), T.hex16(text))[1:]
                    got = [(int(r[i]), client.unhx(r[i + 1]).decode("utf-8", "replace")) for i in range(0, len(r), 2)]
                    exp = self.expected(table, text, pos)
                    if got != exp:
                        return "lookup: of %r at %d finds %s instead of %s (built with %s)" % (text, pos, got, exp, kind), None, ""
                    found += bool(exp)
            ks = sorted(table)
            rel = any(b.startswith(a) for a, b in zip(ks, ks[1:]))
            return None, (repr(case["lines"]) if found and rel else None), "%s entries" % (
                "0" if not table else "1-9" if len(table) < 10 else "10-99" if len(table) < 100 else "100+")
        finally:
            for p in paths:
                if os.path.exists(p):
                    os.unlink(p)

    def key(self, rng, alpha):
        return "".join(gen.pick(rng, alpha) for _ in range(1 + int(rng.random() * 8)))

    def gen(self, rng):
        alpha = ALPHA if rng.random() < .3 else [gen.pick(rng, ALPHA) for _ in range(2 + int(rng.random() * 3))]
        r = rng.random()
        n = gen.pick(rng, [0, 1, 2, 3, 5, 8, 13]) if r < .85 else gen.pick(rng, [30, 80, 200])
        lines = []
        for i in range(n):
            r = rng.random()
            if lines and r < .3:
                k = gen.pick(rng, lines)[0]
                k = (k + self.key(rng, alpha))[:40]
            elif lines and r < .45:
                k = gen.pick(rng, lines)[0]
                k = k[:1 + int(rng.random() * len(k))]
            elif rng.random() < .03:
                k = "".join(gen.pick(rng, alpha) for _ in range(60))
            else:
                k = self.key(rng, alpha)
            r = rng.random()
            if r < .4:
                v = "v%d" % i
            elif r < .6:
                v = dicts.pron_text(dicts.alternative(rng, len(k)))
            elif r < .8:
                v = "".join(gen.pick(rng, ["a", "é", "ก", "\t", "\"", ";", ",", " ", "\r", "0", "\x01"]) for _ in range(int(rng.random() * 12)))
            elif r < .95:
                v = "x" * int(rng.random() * 60) + str(i)
            else:
                # as long as the line may be
                v = "".join(gen.pick(rng, ["a", "b", "é", "ก"]) for _ in range(230))
                v = v.encode()[:gen.pick(rng, [230, 238, 120 + int(rng.random() * 110)]) - len(k.encode())].decode("utf-8", "ignore")
            if len((k + "\t" + v).encode()) > 240:
                v = "y"
            lines.append([k, v])
        looks = []
        for _ in range(6):
            r = rng.random()
            t = gen.pick(rng, lines)[0] if lines and r < .8 else self.key(rng, alpha)
            if rng.random() < .5:
                t = self.key(rng, alpha)[:2] + t
            elif rng.random() < .5:
                t = "".join(gen.pick(rng, ["a", " ", "1", "é", "中", "￠", "😀", "\x00", ".", "ÿ"]) if rng.random() < .7 else gen.pick(rng, ALPHA)
                            for _ in range(1 + int(rng.random() * gen.pick(rng, [3, 3, 3, 3, 400, 3000])))) + t
            if rng.random() < .5:
                t += gen.pick(rng, lines)[0] if lines and rng.random() < .5 else gen.pick(rng, ["", "a", " ", "๿", "\x00", "中", "ก", "\x80", "ÿ"])
            looks.append([t, int(rng.random() * (len(T.u16(t)) + 1)) if rng.random() < .6 else 0])
            ks = [k for k, _ in lines if k and k in t]
            if ks and rng.random() < .4:
                looks[-1][1] = len(T.u16(t[:t.rindex(gen.pick(rng, ks))]))
        kinds = ["default"] if rng.random() < .7 else [gen.pick(rng, ["O0", "O1", "O2", "O3", "san"])]
        return {"lines": lines, "looks": looks, "kinds": kinds}

    def gen_turns(self, rng):
        cs = [self.gen(rng) for _ in range(1 + int(rng.random() * 2))]
        looks = [[i, t, p] for i, c in enumerate(cs) for t, p in c["looks"]]
        rng.shuffle(looks)
        looks = looks[:2 + int(rng.random() * 4)]
        return {"lists": [c["lines"][:60] for c in cs], "turns": looks,
                "sched": [int(rng.random() * len(looks)) for _ in range(4 + int(rng.random() * 20))]}

    def gen_order(self, rng):
        """The same entries in two orders, several builds."""
        c = self.gen(rng)
        seen = {}
        for k, v in c["lines"]:
            seen[k] = v
        l = [[k, v] for k, v in seen.items()]
        rng.shuffle(l)
        c["lines"] = l
        c["kinds"] = ["default", "O0", "O3"]
        c["looks"] = [[k, 0] for k, _ in l[:40]] + c["looks"]
        return c

    def gen_big(self, rng):
        """Thousands of entries: data bank and trie must grow."""
        n = gen.pick(rng, [1000, 4000, 12000])
        alpha = [gen.pick(rng, ALPHA) for _ in range(gen.pick(rng, [4, 30]))]
        lines = [[self.key(rng, alpha), "v%d" % i + "z" * int(rng.random() * 40)] for i in range(n)]
        return {"lines": lines, "looks": [[gen.pick(rng, lines)[0] + self.key(rng, alpha), 0] for _ in range(300)],
                "kinds": ["default"]}

    def shrink(self, case):
        if "turns" in case:
            for l in gen.shrink_list(case["sched"]):
                yield dict(case, sched=l)
            for i, lines in enumerate(case["lists"]):
                for l in gen.shrink_list(lines):
                    yield dict(case, lists=case["lists"][:i] + [l] + case["lists"][i + 1:])
            return
        if len(case["kinds"]) > 1:
            for k in case["kinds"]:
                yield dict(case, kinds=[k])
        for l in gen.shrink_list(case["lines"]):
            yield dict(case, lines=l)
        for l in gen.shrink_list(case["looks"]):
            yield dict(case, looks=l)

    def show(self, case):
        if "turns" in case:
            return case
        return case if len(case["lines"]) < 15 else {"entries": len(case["lines"]), "first": case["lines"][:5], "looks": case["looks"][:3]}

    def phases(self, tier):
        k = 6 if tier == "thorough" else 1
        return [Phase("lists", 16000 * k, gen=self.gen, chunk=50, flavours=MIX),
                Phase("look-ups in turn", 4000 * k, gen=self.gen_turns, chunk=50, flavours=MIX),
                Phase("orders and builds", 3000 * k, gen=self.gen_order, chunk=25, flavours=MIX),
                Phase("large", 64 * k, gen=self.gen_big, chunk=4, flavours=("fast",))]


CHECK = P11()
