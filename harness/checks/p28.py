from checks.common import *
from vp import strgen
from vp.client import Unsupported, fmt_syl


def wire1(x):
    return fmt_syl((x[0], x[1]), x[2])


class P28(Check):
    """Histories on strings, and on alternatives, chains and lattices, against
    lists and tuples of Python."""
    ID = "P28"
    RULE = "history in which something is changed after it was copied from or into something else; counted by the history"

    # --- strings ----------------------------------------------------------

    def strings(self, env, case):
        s = [[] for _ in range(6)]
        exp, ops = [], []
        shared = changed = False
        for op in case["str"]:
            k, i = op[0], op[1]
            if k in ("set", "one", "mk", "push"):
                arg = op[2]
                ops.append("%s:%d:%s" % (k, i, strgen.wire(arg) if k == "set" else wire1(arg[0])))
                new = [tuple(x) for x in (arg if k == "set" else arg[:1])]
                s[i] = s[i] + new if k == "push" else new
                changed |= shared
            elif k == "new":
                ops.append("new:%d" % i)
                s[i] = []
            elif k == "end":
                ops.append("end:%d" % i)
                exp.append("e%d" % (s[i][-1][2] if s[i] else 0))
            elif k == "dump":
                ops.append("dump:%d" % i)
                exp.append(strgen.wire(s[i]))
            elif k == "at":
                ops.append("at:%d:%d:%d" % (i, op[2], op[3]))
                if op[2] < len(s[i]):
                    s[i] = [x if n != op[2] else (x[0], x[1], op[3]) for n, x in enumerate(s[i])]
                    changed |= shared
            else:
                j = op[2]
                if k == "add" and len(s[i]) + len(s[j]) > 300:
                    continue
                ops.append("%s:%d:%d" % (k, i, j))
                if k == "add":
                    s[i] = s[i] + s[j]
                elif k == "eq":
                    e = [x[:2] for x in s[i]] == [x[:2] for x in s[j]]
                    exp.append("q10" if e else "q01")
                else:
                    s[i] = list(s[j])
                shared |= i != j and k != "eq"
        exp += ["|"] + [strgen.wire(x) for x in s]
        got = env.drv.ask("vstr", *ops)[1:]
        if got != exp:
            at = next((n for n, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
            return "strings: answer %d is %s instead of %s" % (at, got[at:at + 1], exp[at:at + 1]), None, ""
        return None, (repr(case) if changed else None), "strings"

    def gen_str(self, rng):
        n = gen.pick(rng, [2, 3, 6])
        ops = []
        lit = gen.pick(rng, [0, .12, .4])
        for _ in range(3 + int(rng.random() * (25 if rng.random() < .9 else 150))):
            r = rng.random()
            i, j = int(rng.random() * n), int(rng.random() * n)
            if r < .3:
                k = gen.pick(rng, ["set", "one", "mk", "push", "push", "push"])
                ops.append([k, i, strgen.string(rng, 3, rng.random() < .5, lit)])
            elif r < .5:
                ops.append(["add", i, j])
            elif r < .75:
                ops.append([gen.pick(rng, ["asg", "cpy", "mov"]), i, j])
            elif r < .82:
                ops.append(["at", i, int(rng.random() * 4), gen.pick(rng, [0, 5, -102, 77, 2000000000])])
            elif r < .9:
                ops.append(["eq", i, j])
            elif r < .98:
                ops.append([gen.pick(rng, ["end", "dump"]), i])
            else:
                ops.append(["new", i])
        return {"str": ops}

    # --- alternatives, chains, lattices -------------------------------------

    def lattice(self, env, case):
        # a set of alternatives is a dictionary from labels to the string
        # that came first; ends only matter for the string itself
        F = [({}, -1) for _ in range(4)]
        C = [[] for _ in range(4)]
        L = [[] for _ in range(4)]
        exp, ops = [], []
        shared = changed = False

        def lab(s):
            return tuple((x[0], x[1]) for x in s)

        def add(f, s):
            d = dict(f)
            d.setdefault(lab(s), tuple(s))
            return d

        def merged(c):
            out, single = [], False
            for f in c:
                if len(f) == 1 and single:
                    s = list(out[-1].values())[0] + list(f.values())[0]
                    out[-1] = {lab(s): s}
                else:
                    out.append(f)
                single = len(f) == 1
            return out

        for op in case["lat"]:
            k, i = op[0], op[1]
            j = op[2] if len(op) > 2 and isinstance(op[2], int) else 0
            args = [str(x) if isinstance(x, int) else strgen.wire(x) for x in op[1:]]
            if k in ("fset", "fmk", "fadds"):
                s = tuple(tuple(x) for x in op[2])
                if k == "fadds":
                    F[i] = (add(F[i][0], s), F[i][1])
                else:
                    F[i] = (add({}, s), op[3] if k == "fmk" else (s[-1][2] if s else 0))
                changed |= shared
            elif k == "fnew":
                F[i] = ({}, -1)
            elif k == "fadd":
                d = F[i][0]
                for s in F[j][0].values():
                    d = add(d, s)
                F[i] = (d, F[i][1])
                shared |= i != j
            elif k == "fsetend":
                F[i] = (F[i][0], op[2])
            elif k == "fend":
                exp.append("e%d" % F[i][1])
            elif k == "fcnt":
                exp.append("n%d" % len(F[i][0]))
            elif k == "feq":
                if F[i][0] != F[j][0] and F[i][0].keys() == F[j][0].keys():
                    continue        # alike but for the ends: order is not promised
                exp.append("q%d" % (F[i][0] == F[j][0]))
            elif k == "cnew":
                C[i] = []
            elif k == "cmk":
                C[i] = [F[j][0]]
            elif k == "caddf":
                C[i] = C[i] + [F[j][0]]
                changed |= shared
            elif k == "cadd":
                if len(C[i]) + len(C[j]) > 60:
                    continue
                C[i] = C[i] + C[j]
            elif k == "cmerge":
                C[i] = merged(C[i])
                changed |= shared
            elif k == "lnew":
                L[i] = []
            elif k == "lmk":
                L[i] = [C[j]]
            elif k == "laddc":
                L[i] = L[i] + [C[j]]
                changed |= shared
            elif k == "lmerge":
                L[i] = [merged(c) for c in L[i]]
                changed |= shared
            elif k == "lcnt":
                exp.append("n%d" % len(L[i]))
            else:
                X = {"f": F, "c": C, "l": L}[k[0]]
                X[i] = X[j]
                shared |= i != j
            ops.append(":".join([k] + args))
        ans = env.drv.ask("vlat", *ops)[1:]
        bar = ans.index("|")
        if ans[:bar] != exp:
            at = next((n for n, (a, b) in enumerate(zip(ans, exp)) if a != b), min(bar, len(exp)))
            return "lattice: answer %d is %s instead of %s" % (at, ans[at:at + 1], exp[at:at + 1]), None, ""
        got = self.tree(ans[bar + 1:])
        want = [self.frac(f) for f, _ in F] + [[self.frac(f) for f in c] for c in C] + [[[self.frac(f) for f in c] for c in l] for l in L]
        for n, (a, b) in enumerate(zip(got, want)):
            if a != b:
                return "lattice: object %d holds %s instead of %s" % (n, self.brief(a), self.brief(b)), None, ""
        return None, (repr(case) if changed else None), "lattice"

    @staticmethod
    def brief(x):
        return repr(x)[:200]

    @staticmethod
    def frac(f):
        return ("alternatives", tuple(sorted(strgen.wire(s) for s in f.values())))

    @staticmethod
    def tree(toks):
        stack = [[]]
        for t in toks:
            if t in "([{":
                stack.append([])
            elif t in ")]}":
                x = stack.pop()
                stack[-1].append(("alternatives", tuple(sorted(x))) if t == ")" else x)
            else:
                stack[-1].append(t)
        return stack[0]

    def gen_lat(self, rng):
        n = gen.pick(rng, [2, 3, 4])
        # few strings, so that the same come again, some alike but for the ends
        pool = [strgen.string(rng, 2, True, .1, .1, .1) for _ in range(2 + int(rng.random() * 5))]
        for _ in range(int(rng.random() * 3)):
            pool.append([[k, t, e + 1] for k, t, e in gen.pick(rng, pool)])
        for x in pool:
            if rng.random() < .15:
                # any end, also that of a short leading syllable
                x[-1][2] = gen.pick(rng, [-102, -1, 0, -30205, 70000])
        ops = []
        for _ in range(4 + int(rng.random() * (35 if rng.random() < .9 else 200))):
            r = rng.random()
            i, j = int(rng.random() * n), int(rng.random() * n)
            if r < .3:
                k = gen.pick(rng, ["fset", "fmk", "fadds", "fadds"])
                ops.append([k, i, gen.pick(rng, pool)] + ([int(rng.random() * 20) - 2] if k == "fmk" else []))
            elif r < .38:
                ops.append(["fadd", i, j])
            elif r < .5:
                ops.append([gen.pick(rng, ["caddf", "caddf", "caddf", "cmk"]), i, j])
            elif r < .56:
                ops.append(["cadd", i, j])
            elif r < .64:
                ops.append([gen.pick(rng, ["cmerge", "cmerge", "lmerge"]), i])
            elif r < .72:
                ops.append([gen.pick(rng, ["laddc", "laddc", "laddc", "lmk"]), i, j])
            elif r < .86:
                ops.append([gen.pick(rng, "fcl") + gen.pick(rng, ["asg", "cpy", "mov"]), i, j])
            elif r < .97:
                k = gen.pick(rng, ["fend", "fcnt", "feq", "feq", "lcnt", "fsetend"])
                ops.append([k, i] + ([j] if k == "feq" else [int(rng.random() * 50)] if k == "fsetend" else []))
            else:
                ops.append([gen.pick(rng, "fcl") + "new", i])
        return {"lat": ops}

    def evaluate(self, env, case):
        return self.strings(env, case) if "str" in case else self.lattice(env, case)

    def shrink(self, case):
        k = "str" if "str" in case else "lat"
        for ops in gen.shrink_list(case[k]):
            yield {k: ops}
        for n, op in enumerate(case[k]):
            if len(op) > 2 and isinstance(op[2], list) and len(op[2]) > 1:
                for s in gen.shrink_list(op[2]):
                    if s:
                        yield {k: case[k][:n] + [op[:2] + [s] + op[3:]] + case[k][n + 1:]}

    def show(self, case):
        k = "str" if "str" in case else "lat"
        return {k: [[strgen.wire(x) if isinstance(x, list) else x for x in op] for op in case[k][:40]]}

    def phases(self, tier):
        k = 12 if tier == "thorough" else 2
        return [Phase("strings", 120000 * k, gen=self.gen_str, chunk=500, flavours=MIX),
                Phase("lattices", 160000 * k, gen=self.gen_lat, chunk=500, flavours=MIX)]


CHECK = P28()
