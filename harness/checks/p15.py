from checks.common import *
from vp import strgen
from vp.client import fmt_syl, parse_syl, Unsupported

LABELS = [["S", "k_a_1"], ["S", "k_an0"], ["S", "g_A_0"], ["L", "1"], ["L", "ab"], ["B", ""]]
NODES = [0, 1, 2, 3, 4, -102, -205]


class P15(Check):
    """A case is a list of operations on graphs a, b, c; the model is a dict
    of sets.  Equality of labels ignores the end position, so the model keys
    edges on (from, to, label) and keeps the end of the first insertion."""
    ID = "P15"
    RULE = "history with at least one insertion and one removal or union or copy; counted by the history"

    def gen_op(self, rng, ids):
        r = rng.random()
        g = gen.pick(rng, ids)
        if r < .45:
            return ["add", g, gen.pick(rng, NODES), gen.pick(rng, NODES), gen.pick(rng, LABELS), gen.pick(rng, [1, 3, 7])]
        if r < .6:
            return ["del", g, gen.pick(rng, NODES), gen.pick(rng, NODES), gen.pick(rng, LABELS), 9]
        if r < .68:
            return ["deld", g, gen.pick(rng, NODES), gen.pick(rng, NODES)]
        if r < .76:
            return ["has", g, gen.pick(rng, NODES), gen.pick(rng, NODES), gen.pick(rng, LABELS), 5]
        if r < .86:
            return ["union", g, gen.pick(rng, ids)]
        if r < .97:
            return [gen.pick(rng, ["copy", "assign", "move"]), g, gen.pick(rng, ids)]
        return ["new", g]

    def gen(self, rng):
        ids = ["a", "b", "c"][:1 + int(rng.random() * 3)]
        nodes = None
        ops = [self.gen_op(rng, ids) for _ in range(3 + int(rng.random() * 30))]
        if rng.random() < .6:
            # concentrate on few nodes and labels so that operations meet
            few = {x: gen.pick(rng, NODES[:2]) for x in NODES}
            for op in ops:
                if op[0] in ("add", "del", "deld", "has") and rng.random() < .7:
                    op[2], op[3] = few[op[2]], few[op[3]]
        return {"ops": ops}

    def gen_large(self, rng):
        """Many nodes, far apart, and labels that differ in one sound only."""
        nodes = sorted({gen.pick(rng, [-1, 1]) * int(rng.random() * 10 ** gen.pick(rng, [1, 2, 3, 5, 9])) for _ in range(3 + int(rng.random() * 40))})
        base = strgen.codes(rng)
        labels = [["S", base], ["S", base], ["S", strgen.codes(rng)], ["L", "a" * 40], ["L", "a" * 41], ["L", "é"], ["B", ""]]
        for i in range(5):
            labels.append(["S", base[:i] + strgen.codes(rng)[i] + base[i + 1:]])
        ids = ["a", "b", "c"][:1 + int(rng.random() * 3)]
        # one or a few pairs of nodes get most of the edges
        few = [gen.pick(rng, nodes) for _ in range(2)]
        ops = []
        for _ in range(20 + int(rng.random() * 250)):
            op = self.gen_op(rng, ids)
            if op[0] in ("new", "copy", "assign", "move", "union") and rng.random() < .7:
                continue
            if op[0] in ("add", "del", "deld", "has"):
                at = few if rng.random() < .4 else nodes
                op[2], op[3] = gen.pick(rng, at), gen.pick(rng, at)
            if op[0] in ("add", "del", "has"):
                op[4] = gen.pick(rng, labels)
                op[5] = gen.pick(rng, [op[3], 1, 7, -3, 100000])
            ops.append(op)
        return {"ops": ops, "nodes": nodes, "every": 40}

    def gen_strings(self, rng):
        return {"strs": [strgen.string(rng, 4, small=True) for _ in range(1 + int(rng.random() * 5))],
                "pos": gen.pick(rng, [0, 0, 2])}

    def evaluate(self, env, case):
        d = env.drv
        if "strs" in case:
            try:
                r = d.ask("strdag", str(case["pos"]), *[strgen.wire(s) for s in case["strs"]])
            except Unsupported:
                return None, None, "not available"
            exp = {}
            for s in case["strs"]:
                a = case["pos"]
                for k, t, e in s:
                    lab = (k, "".join(T.u16(t)))
                    exp.setdefault((a, e, lab), e)
                    a = e
            got = edges_of(r)
            g = {(a, b, l): e for a, b, l, e in got}
            if len(g) != len(got) or g != exp:
                return "string insertion: %s instead of %s" % (sorted(g, key=repr)[:4], sorted(exp, key=repr)[:4]), None, ""
            return None, ("s", repr(case)), "strings"
        model_ = {}
        for i in "abc":
            d.ask("gnew", i)
            model_[i] = {}
        kinds = set()
        for step, op in enumerate(case["ops"]):
            g = op[1]
            m = model_[g]
            kinds.add(op[0])
            if op[0] in ("add", "del", "has"):
                key = (op[2], op[3], tuple(op[4]))
                r = d.ask("g" + op[0], g, str(op[2]), str(op[3]), fmt_syl(tuple(op[4]), op[5]))[1]
                was = key in m
                if op[0] == "add":
                    exp = not was
                    m.setdefault(key, op[5])
                elif op[0] == "del":
                    exp = was
                    m.pop(key, None)
                else:
                    exp = was
                if r != ("1" if exp else "0"):
                    return "return value: step %d %s said %s" % (step, op, r), None, ""
            elif op[0] == "deld":
                r = d.ask("gdeld", g, str(op[2]), str(op[3]))[1]
                gone = [k for k in m if k[0] == op[2] and k[1] == op[3]]
                for k in gone:
                    del m[k]
                if r != ("1" if gone else "0"):
                    return "return value: step %d %s said %s" % (step, op, r), None, ""
            elif op[0] == "union":
                d.ask("gunion", g, op[2])
                for k, e in list(model_[op[2]].items()):
                    m.setdefault(k, e)
            elif op[0] in ("copy", "assign", "move"):
                d.ask("g" + op[0], g, op[2])
                model_[op[2]] = dict(m)
            else:
                d.ask("gnew", g)
                model_[g] = {}
            k = case.get("every", 5)
            if step % k == k - 1 or step == len(case["ops"]) - 1:
                for i in "abc":
                    bad = self.state(d, i, model_[i], case.get("nodes", NODES))
                    if bad:
                        return "state: after step %d %s graph %s: %s" % (step, op, i, bad), None, ""
        nt = "add" in kinds and kinds & {"del", "deld", "union", "copy", "assign", "move"}
        return None, (repr(case["ops"]) if nt else None), "history of %d+" % (len(case["ops"]) // 10 * 10)

    def state(self, d, i, m, nodes):
        r = d.ask("gstate", i, *map(str, nodes))
        k = r.index("I")
        n = r.index("N") if "N" in r else len(r)
        fwd = edges_of(r[:k])
        bwd = edges_of(["E"] + r[k + 1:n])
        for name, es in (("forward", fwd), ("backward", bwd)):
            got = [((a, b, l), e) for a, b, l, e in es]
            if len(got) != len(m) or dict(got) != m:
                return "%s view %s, expected %s" % (name, sorted(got, key=repr), sorted(m.items(), key=repr))
        j = n
        while j < len(r):
            _, x, od, idg, ko, ki = r[j:j + 6]
            o = sum(1 for a, b, l in m if a == int(x))
            n_in = sum(1 for a, b, l in m if b == int(x))
            if (int(od), int(idg), int(ko), int(ki)) != (o, n_in, o, n_in):
                return "degrees of %s are %s, expected out %d in %d" % (x, r[j + 2:j + 6], o, n_in)
            j += 6
        return None

    def shrink(self, case):
        if "ops" in case:
            for o in gen.shrink_list(case["ops"]):
                yield dict(case, ops=o)
            if case.get("every", 1) > 1:
                yield dict(case, every=1)
        else:
            for s in gen.shrink_list(case["strs"]):
                yield dict(case, strs=s)

    def phases(self, tier):
        k = 6 if tier == "thorough" else 1
        return [Phase("histories", 80000 * k, gen=self.gen, chunk=250, flavours=MIX),
                Phase("large", 6000 * k, gen=self.gen_large, chunk=50, flavours=MIX),
                Phase("string insertion", 50000 * k, gen=self.gen_strings, chunk=500, flavours=MIX)]


CHECK = P15()
