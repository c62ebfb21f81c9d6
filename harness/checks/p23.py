from checks.common import *
from vp import dicts, strgen
import os
import random
import shutil

FM = ["tD2d", "rR", "rC", "pD20", "wD2c", "sD2d", "tJ", "wG", "rG"]


class P23(Check):
    """Histories of analyses, dictionary loads and outputs on a few analysers;
    each result is compared with that of an analyser made for it alone."""
    ID = "P23"
    WANT = ("driver", "cli")
    GLD = ("default",)
    RULE = "history of at least four analyses with a pronunciation, on analysers that have been used before; counted by the history"

    def fresh_result(self, env, w, seg, path, fms, how):
        d = env.drv
        d.ask("parser", "fresh", str(seg), hx(path) if path else "-", how)
        return self.result(d, "fresh", w, fms)

    def result(self, d, pid, w, fms):
        es = sorted(d.ask("parse", pid, hx(w))[1:])
        if len(es) > 300:
            return es, None
        # the text of outputs only where the number of pronunciations allows
        if graph.count_paths(bare(edges_of(d.ask("parse", pid, hx(w))))) > 300:
            return es, None
        return es, d.ask("word", pid, hx(w), *fms)

    def evaluate(self, env, case):
        if "words" in case:
            return self.cli(env, case)
        if "pool" in case:
            return self.marathon(env, case)
        if "again" in case:
            return self.again(env, case)
        made = []
        try:
            paths = []
            for ents in case["dicts"]:
                rc, p, err = dicts.compile_lines(env, [dicts.entry_line(k, a) for k, a in ents])
                if rc:
                    return "dictionary: not compiled: " + err[:200], None, ""
                made.append(p)
                paths.append(p)
            d = env.drv
            state = {}
            done = 0
            seen = []
            for step, op in enumerate(case["ops"]):
                if op[0] == "new":
                    _, pid, seg, di, how = op
                    path = paths[di] if di is not None and di < len(paths) else None
                    d.ask("parser", pid, str(seg), hx(path) if path else "-", how if path else "load")
                    state[pid] = (seg, path)
                elif op[0] == "load":
                    _, pid, di = op
                    if pid not in state or di >= len(paths):
                        continue
                    if d.ask("load", pid, hx(paths[di]))[1] != "1":
                        return "load: step %d of a good dictionary fails" % step, None, ""
                    state[pid] = (state[pid][0], paths[di])
                elif op[0] == "swap":
                    # another dictionary under a path that has been used before
                    _, pid, di = op
                    if pid not in state or di >= len(paths):
                        continue
                    slot = os.path.join(env.scratch, "slot.dic")
                    shutil.copyfile(paths[di], slot)
                    if d.ask("load", pid, hx(slot))[1] != "1":
                        return "load: step %d of a good dictionary fails" % step, None, ""
                    state[pid] = (state[pid][0], paths[di])
                else:
                    _, pid, w, fi, how = op
                    if pid not in state:
                        continue
                    seg, path = state[pid]
                    fms = [FM[i] for i in fi]
                    got = self.result(d, pid, w, fms)
                    exp = self.fresh_result(env, w, seg, path, fms, how if path else "load")
                    if got != exp:
                        return "depends on history: step %d, '%s' with analyser %s" % (step, w, pid), None, ""
                    done += bool(exp[0])
                    seen.append((step, w, seg, path, fms, got))
            # the same in a new process, each with an analyser of its own, last
            # first; whatever is kept between analyses differs from that above,
            # and so does what memory holds before it is written
            if seen:
                fl = "san" if case["other"] else env.flavour
                d2 = client.Driver(env.bins[fl]["driver"], env.scratch, fl != "san", {"MALLOC_PERTURB_": "90"})
                try:
                    for step, w, seg, path, fms, got in reversed(seen):
                        d2.ask("parser", "p", str(seg), hx(path) if path else "-", "load")
                        if self.result(d2, "p", w, fms) != got:
                            return "depends on history: step %d, '%s', read first in another process" % (step, w), None, ""
                finally:
                    d2.stop()
            return None, (repr(case) if done >= 4 else None), "%d analyses" % (done // 5 * 5)
        finally:
            for p in made:
                os.unlink(p)

    def marathon(self, env, case):
        """Thousands of analyses, outputs and loads in one process; each text
        must always give what it gives to a process that does nothing else."""
        rng = random.Random(case["r"])
        made = []
        one = client.Driver(env.bins[env.flavour]["driver"], env.scratch, env.flavour != "san")
        try:
            for ents in case["dicts"]:
                rc, p, err = dicts.compile_lines(env, [dicts.entry_line(k, a) for k, a in ents])
                if rc:
                    return "dictionary: not compiled: " + err[:200], None, ""
                made.append(p)
            bad = os.path.join(env.scratch, "no-such-file")
            exp = {}
            cur = None
            one.ask("parser", "m", str(case["seg"]), "-", "load")
            for step in range(case["n"]):
                r = rng.random()
                if r < case["load"]:
                    i = int(rng.random() * (len(made) + 1))
                    cur = made[i] if i < len(made) else None
                    if (one.ask("load", "m", hx(cur or bad))[1] == "1") != (cur is not None):
                        return "load: step %d of %s" % (step, "a good dictionary fails" if cur else "a missing file succeeds"), None, ""
                    continue
                w = gen.pick(rng, case["pool"])
                fm = gen.pick(rng, FM)
                if (w, cur) not in exp:
                    two = client.Driver(env.bins[env.flavour]["driver"], env.scratch, env.flavour != "san")
                    try:
                        two.ask("parser", "p", str(case["seg"]), hx(cur) if cur else "-", "load")
                        exp[w, cur] = self.result(two, "p", w, FM)
                    finally:
                        two.stop()
                es, out = exp[w, cur]
                if sorted(one.ask("parse", "m", hx(w))[1:]) != es:
                    return "depends on history: '%s' at step %d" % (w, step), None, ""
                if out and rng.random() < .2 and one.ask("word", "m", hx(w), fm)[1:] != [out[1 + FM.index(fm)]]:
                    return "depends on history: output %s of '%s' at step %d" % (fm, w, step), None, ""
            return None, repr(case), "marathon"
        finally:
            one.stop()
            for p in made:
                os.unlink(p)

    def again(self, env, case):
        """The same few texts tens of thousands of times."""
        made, ans = None, []
        if case["dic"]:
            rc, made, err = dicts.compile_lines(env, [dicts.entry_line(k, a) for k, a in case["dic"]])
            if rc:
                return "dictionary: not compiled: " + err[:200], None, ""
        try:
            for n in (case["n"], 1):
                d = client.Driver(env.bins[env.flavour]["driver"], env.scratch, env.flavour != "san")
                try:
                    d.ask("parser", "m", str(case["seg"]), hx(made) if made else "-", "load")
                    ans.append(d.ask("again", "m", str(n), case["fm"], hx(made) if made and case["load"] else "-",
                                     *[hx(w) for w in case["again"]]))
                finally:
                    d.stop()
            a, b = ans
            if a[1] != "1":
                return "depends on history: analysis number %s of %s is not like the first" % (a[2], case["again"]), None, ""
            if a[3:] != b[3:]:
                return "depends on history: first results of two processes differ", None, ""
            return None, repr(case), "again"
        finally:
            if made:
                os.unlink(made)

    def cli(self, env, case):
        opts = [o.encode() for o in case["opts"]]
        words = [w.encode() for w in case["words"]]
        if "times" in case:
            # very many words, from few
            single = {w: run_cli(env, opts + [w]).stdout for w in words}
            rng = random.Random(case["r"])
            ws = [gen.pick(rng, words) for _ in range(case["times"])]
            if case["stdin"]:
                out = run_cli(env, opts, b"".join(w + b"\n" for w in ws)).stdout
            else:
                out = run_cli(env, opts + ws).stdout
            if out != b"".join(single[w] for w in ws):
                return "depends on history: one run with %d words differs from single runs" % len(ws), None, ""
            return None, repr(case), "program, many words"
        whole = run_cli(env, opts + words).stdout
        parts = b"".join(run_cli(env, opts + [w]).stdout for w in words)
        if whole != parts:
            return "depends on history: one run with %d words differs from single runs" % len(words), None, ""
        return None, repr(case), "program"

    def text(self, rng, keys):
        r = rng.random()
        if rng.random() < .05:
            return gen.mixed_text(rng, 10, 80)
        if keys and r < .35:
            return (gen.pick(rng, keys) + (gen.syllable(rng) if rng.random() < .4 else ""))[:12]
        if r < .75:
            return gen.thai_text(rng, 9)
        return gen.mixed_text(rng, 3, 10)

    def gen(self, rng):
        ds = [dicts.entries(rng, 3) for _ in range(int(rng.random() * 3))]
        keys = [k for e in ds for k, _ in e]
        pool = [self.text(rng, keys) for _ in range(3 + int(rng.random() * 5))]
        for _ in range(int(rng.random() * 4)):
            # texts that have something in common
            pool.append(gen.mutate(rng, gen.pick(rng, pool)) or "ก")
        ops = [["new", "a", int(rng.random() < .4), int(rng.random() * len(ds)) if ds and rng.random() < .6 else None,
                gen.pick(rng, ["ctor", "load"])]]
        if rng.random() < .5:
            ops.append(["new", "b", int(rng.random() < .4), int(rng.random() * len(ds)) if ds and rng.random() < .6 else None, "load"])
        for _ in range(5 + int(rng.random() * 14)):
            r = rng.random()
            if r < .12 and ds:
                ops.append([gen.pick(rng, ["load", "swap"]), gen.pick(rng, "ab"), int(rng.random() * len(ds))])
            else:
                ops.append(["read", gen.pick(rng, "aab"), gen.pick(rng, pool),
                            [int(rng.random() * len(FM)) for _ in range(2)], gen.pick(rng, ["ctor", "load"])])
        return {"dicts": ds, "ops": ops, "other": int(rng.random() < .15)}

    def alike(self, rng, w):
        """A text that agrees with w in most respects (length, ends, letters)."""
        w = list(w)
        for _ in range(gen.pick(rng, [1, 1, 1, 2])):
            if not w:
                break
            i = int(rng.random() * len(w))
            r = rng.random()
            if r < .6:
                c = w[i]
                for cl in (T.CONS, "เแโใไ", "ิีึืุู", "่้๊๋", "abcdefghijkl", "ABCDE", "0123456789", "中文字", "éàüßñ", " .,!-"):
                    if c in cl:
                        w[i] = gen.pick(rng, list(cl))
                        break
            elif r < .8 and len(w) > 2:
                j = int(rng.random() * len(w))
                w[i], w[j] = w[j], w[i]
            elif r < .87:
                w.pop(i)
            elif r < .94:
                w.insert(i, w[i])
            else:
                w = w[::-1] if rng.random() < .3 else w[i:] + w[:i]
        return "".join(w)

    def gen_alike(self, rng):
        ds = [dicts.entries(rng, 3) for _ in range(int(rng.random() * 2))]
        keys = [k for e in ds for k, _ in e]
        r = rng.random()
        if r < .35:
            base = self.text(rng, keys)
        elif r < .6:
            base = "".join(gen.pick(rng, list("abcdefghijkl0123中文字éß ,")) for _ in range(2 + int(rng.random() * 12)))
        elif r < .8:
            base = gen.syllable(rng) + gen.pick(rng, ["", " "]) + "".join(gen.pick(rng, list("abcdef01 ")) for _ in range(1 + int(rng.random() * 6))) + gen.syllable(rng)
        else:
            base = "".join(gen.pick(rng, gen.WORDS) for _ in range(3))
        pool = [base]
        for _ in range(4 + int(rng.random() * 5)):
            pool.append(self.alike(rng, gen.pick(rng, pool)))
        fi = [int(rng.random() * len(FM)) for _ in range(2)]
        ops = [["new", "a", int(rng.random() < .4), 0 if ds else None, "load"]]
        ops += [["read", "a", w, fi, "load"] for w in pool]
        return {"dicts": ds, "ops": ops, "other": 0}

    def gen_marathon(self, rng):
        ds = [dicts.entries(rng, 3) for _ in range(1 + int(rng.random() * 2))]
        keys = [k for e in ds for k, _ in e]
        pool = [self.text(rng, keys) for _ in range(14)]
        pool += [gen.mixed_text(rng, 8, 60), " ".join(gen.pick(rng, gen.WORDS) for _ in range(8)), "กทม.", "ก", gen.thai_text(rng, 30)]
        return {"pool": pool, "dicts": ds, "n": 5000, "load": gen.pick(rng, [0, .02, .4]), "seg": int(rng.random() < .3),
                "r": int(rng.random() * (1 << 30))}

    def gen_again(self, rng):
        dic = dicts.entries(rng, 2) if rng.random() < .5 else None
        ws = [gen.pick(rng, ["กา", "ก", "ก.", "a", " ", "ฯ", "มี", "ฤ", "ไป", "ท.", "", "กทม."]) for _ in range(1 + int(rng.random() * 3))]
        if dic:
            ws.append(dic[0][0][:4])
        return {"again": ws, "n": 70000, "fm": gen.pick(rng, FM), "dic": dic, "load": int(rng.random() < .5),
                "seg": int(rng.random() < .3)}

    def gen_cli(self, rng):
        ws = []
        for _ in range(2 + int(rng.random() * 4)):
            w = self.text(rng, None).replace("\0", "").lstrip("-")
            ws.append((w or "กา")[:8])
        if rng.random() < .5:
            ws.append(gen.pick(rng, ws))
        return {"words": ws, "opts": [gen.pick(rng, ["-r", "-t", "-p", "-w", "-s"])] + [o for o in ("-n", "-j", "-g") if rng.random() < .4]}

    def gen_many(self, rng):
        c = self.gen_cli(rng)
        ws = [w.replace("\n", " ") for w in c["words"]]
        return dict(c, words=[w for w in ws if w] or ["กา"], times=100 + int(rng.random() * gen.pick(rng, [300, 1500, 5000])),
                    stdin=int(rng.random() < .5), r=int(rng.random() * (1 << 30)))

    def shrink(self, case):
        if "words" in case:
            if "times" in case:
                for n in (10, 40, 160, 320, 640, 1300, 2600):
                    if n < case["times"]:
                        yield dict(case, times=n)
            for w in gen.shrink_list(case["words"]):
                if w:
                    yield dict(case, words=w)
            return
        if "again" in case:
            for n in (10, 100, 1000, 10000, 33000):
                if n < case["n"]:
                    yield dict(case, n=n)
            for w in gen.shrink_list(case["again"]):
                if w:
                    yield dict(case, again=w)
            return
        if "pool" in case:
            for n in (10, 40, 160, 640, 1300, 2600):
                if n < case["n"]:
                    yield dict(case, n=n)
            for p in gen.shrink_list(case["pool"]):
                if p:
                    yield dict(case, pool=p)
            return
        for o in gen.shrink_list(case["ops"]):
            yield dict(case, ops=o)

    def phases(self, tier):
        k = 6 if tier == "thorough" else 1
        return [Phase("histories", 5000 * k, gen=self.gen, chunk=50, flavours=MIX),
                Phase("alike", 3000 * k, gen=self.gen_alike, chunk=50, flavours=MIX),
                Phase("marathons", 48 * k, gen=self.gen_marathon, chunk=2, flavours=MIX),
                Phase("again", 16 * k, gen=self.gen_again, chunk=1),
                Phase("program", 800 * k, gen=self.gen_cli, chunk=25, flavours=MIX),
                Phase("program, many words", 60 * k, gen=self.gen_many, chunk=3, flavours=MIX)]


CHECK = P23()
