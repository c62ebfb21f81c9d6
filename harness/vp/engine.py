"""Runs a check: generation in deterministic chunks, judging, shrinking,
replay, evidence."""

import hashlib
import json
import multiprocessing
import os
import random
import re
import sys
import time
import traceback

from . import build, client
from .client import Driver, BadOutput, Crash, CodeException, NoVerdict, Unsupported

sys.setrecursionlimit(20000)
VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")
SOFT_DEADLINE = 720.0


class Phase:
    """n cases in chunks.  gen(rng) for random phases; for exhaustive ones
    enum(i) gives case i of n.  flavours: cycled over the chunks."""

    def __init__(self, name, n, gen=None, enum=None, chunk=500, flavours=("fast",), exhaustive=False):
        self.name, self.n, self.gen, self.enum = name, n, gen, enum
        self.chunk, self.flavours, self.exhaustive = chunk, flavours, exhaustive


class Check:
    ID = None
    FLAVOURS = ("fast", "san")
    WANT = ("driver",)
    GLD = ()
    RULE = ""
    ASSUMPTIONS = []

    def prepare(self, env):
        """Once per process, after the build."""

    def phases(self, tier):
        raise NotImplementedError

    def evaluate(self, env, case):
        """Returns (failure message or None, key of a non-trivial case or
        None, tag for the distribution)."""
        raise NotImplementedError

    def shrink(self, case):
        return ()

    def show(self, case):
        return case

    def extra(self, env):
        """Additional coverage figures."""
        return {}


MEMCHECK = ["valgrind", "-q", "--vgdb=no", "--error-exitcode=97", "--exit-on-first-error=yes", "--undef-value-errors=yes"]


class Env:
    def __init__(self, check, bins, gld):
        self.check, self.bins, self.gld = check, bins, gld
        self.scratch = build.scratch("%s-%d-" % (check.ID, os.getpid()))
        self._drv = {}
        self.flavour = None
        self.cache = {}
        check.prepare(self)

    @property
    def drv(self):
        return self.driver(self.flavour)

    def driver(self, fl):
        if fl not in self._drv:
            if fl == "memcheck":
                # release build, every access watched
                self._drv[fl] = Driver(MEMCHECK + [self.bins["fast"]["driver"]], self.scratch, False)
            else:
                self._drv[fl] = Driver(self.bins[fl]["driver"], self.scratch, fl != "san")
        return self._drv[fl]

    def parser(self, seg=False, dic=None, fl=None):
        """Id of a parser in the current driver (created on first use)."""
        d = self.driver(fl or self.flavour)
        pid = "%s%s" % ("s" if seg else "n", hashlib.md5((dic or "").encode()).hexdigest()[:8] if dic else "")
        if pid not in d.ready:
            r = d.ask("parser", pid, "1" if seg else "0", dic.encode().hex() if dic else "-", "load")
            if dic and r[1] != "1":
                raise RuntimeError("dictionary %s does not load" % dic)
            d.ready.add(pid)
        return pid

    def fresh(self):
        """Forget all processes: what follows depends on nothing before."""
        for d in self._drv.values():
            d.stop()
        self._drv = {}
        self.cache = {}

    def close(self):
        self.fresh()
        build.rmscratch(self.scratch)


def rng_for(seed, *parts):
    h = hashlib.sha256(("%d|" % seed + "|".join(map(str, parts))).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def judge(check, env, case):
    """evaluate() with misbehaviour of the process turned into a failure.
    A history (a list of cases in one process) fails if any of them does."""
    if isinstance(case, dict) and "history" in case:
        env.fresh()
        for c in case["history"]:
            r = judge(check, env, c)
            if r[0]:
                return r
        return None, None, "history"
    try:
        return check.evaluate(env, case)
    except Crash as e:
        return "crash: %s" % e, None, "crash"
    except CodeException as e:
        return "unexpected %s" % e, None, "exception"
    except BadOutput as e:
        return "unreadable output: %s" % e, None, "unreadable output"
    except (ValueError, LookupError, RecursionError):
        # an answer of a form that the oracle has never met
        last = traceback.format_exc().strip().split("\n")
        return "%s: %s" % (ODD, " ".join(x.strip() for x in last[-3:])), None, ODD


ODD = "uninterpretable output"
_W = {}


def _init(check, bins, gld):
    _W["check"] = check
    _W["env"] = Env(check, bins, gld)
    import atexit
    from multiprocessing import util
    util.Finalize(None, _W["env"].close, exitpriority=100)


def _key(k):
    return hashlib.blake2b(repr(k).encode("utf-8", "backslashreplace"), digest_size=8).digest()


def _run_chunk(args):
    seed, tier, pi, ci, t_end = args
    check, env = _W["check"], _W["env"]
    ph = _W.setdefault("phases", check.phases(tier))[pi]
    res = {"pi": pi, "ci": ci, "n": 0, "keys": set(), "samples": [], "tags": {}, "fail": None, "noverdict": 0,
           "err": None, "skipped": 0, "unsupported": 0}
    lo, hi = ci * ph.chunk, min(ph.n, (ci + 1) * ph.chunk)
    env.flavour = ph.flavours[ci % len(ph.flavours)]
    env.fresh()
    rng = rng_for(seed, check.ID, ph.name, ci)
    srng = rng_for(seed, check.ID, ph.name, ci, "sample")
    try:
        for i in range(lo, hi):
            if time.time() > t_end:
                res["skipped"] = hi - i
                break
            case = ph.enum(i) if ph.enum else ph.gen(rng)
            try:
                msg, key, tag = judge(check, env, case)
            except NoVerdict:
                res["noverdict"] += 1
                continue
            except Unsupported:
                # the code has no such interface any more
                res["unsupported"] += 1
                continue
            res["n"] += 1
            res["tags"][tag] = res["tags"].get(tag, 0) + 1
            if key is not None:
                res["keys"].add(_key(key))
                if len(res["samples"]) < 2 and srng.random() < .05:
                    res["samples"].append(check.show(case))
            if msg:
                res["fail"] = {"case": case, "flavour": env.flavour, "message": msg, "lo": lo, "i": i, "ci": ci}
                break
    except Exception:
        res["err"] = traceback.format_exc()
    return res


def _kind(msg):
    return re.match(r"[A-Za-z ]*", msg).group(0)


def shrink(check, env, fail, budget=4000, seconds=120):
    """What seems endless is given up sooner here; the result is judged again
    with the usual limit."""
    usual = client.CPU_LIMIT
    client.CPU_LIMIT = usual / 6
    try:
        return _shrink(check, env, fail, budget, seconds)
    finally:
        client.CPU_LIMIT = usual


def _shrink(check, env, fail, budget, seconds):
    best, msg = fail["case"], fail["message"]
    if _kind(msg) == ODD:
        return {"case": best, "flavour": fail["flavour"], "message": msg}
    env.flavour = fail["flavour"]
    kind = _kind(msg)
    t_end = time.time() + seconds
    improved = True
    while improved and budget > 0 and time.time() < t_end:
        improved = False
        for c in (shrink_history(check, best) if "history" in best else check.shrink(best)):
            budget -= 1
            if budget <= 0 or time.time() > t_end:
                break
            try:
                m, _, _ = judge(check, env, c)
            except (NoVerdict, Exception):
                continue
            if m and _kind(m) == kind:
                best, msg, improved = c, m, True
                break
    return {"case": best, "flavour": fail["flavour"], "message": msg}


def shrink_history(check, case):
    h = case["history"]
    n = len(h)
    k = n // 2
    while k:
        for i in range(0, n, k):
            yield {"history": h[:i] + h[i + k:]}
        k //= 2
    for i in range(n):
        for c in check.shrink(h[i]):
            yield {"history": h[:i] + [c] + h[i + 1:]}


def history_of(check, ph, seed, fail):
    rng = rng_for(seed, check.ID, ph.name, fail["ci"])
    cases = [ph.enum(i) if ph.enum else ph.gen(rng) for i in range(fail["lo"], fail["i"] + 1)]
    return dict(fail, case={"history": cases})


def reproduces(check, bins, gld, fail, times=3):
    msg = None
    for _ in range(times):
        env = Env(check, bins, gld)
        try:
            env.flavour = fail["flavour"]
            m, _, _ = judge(check, env, fail["case"])
        finally:
            env.close()
        if not m:
            return None
        msg = m
    return msg


def evidence(check, tier, seed, cov, wall, violations):
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": check.ID, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": cov, "assumptions": check.ASSUMPTIONS, "wall_s": round(wall, 2),
          "violations": violations}
    path = os.path.join(EVID, check.ID + ".json")
    with open(path + ".tmp", "w", encoding="utf-8", errors="backslashreplace") as f:
        json.dump(ev, f, ensure_ascii=False, indent=1, default=repr)
        f.write("\n")
    os.replace(path + ".tmp", path)


def do_build(check):
    bins = build.build_cxx(check.FLAVOURS, check.WANT) if check.WANT else {}
    gld = build.build_gld(check.GLD) if check.GLD else {}
    return bins, gld


def run(check, tier, seed):
    t0 = time.time()
    bins, gld = do_build(check)
    for fl in bins:
        if bins[fl].get("missing"):
            print("note: driver sections not available: %s" % ",".join(bins[fl]["missing"]))
            break
    phases = check.phases(tier)
    jobs = []
    t_end = t0 + SOFT_DEADLINE
    for pi, ph in enumerate(phases):
        for ci in range((ph.n + ph.chunk - 1) // ph.chunk):
            jobs.append((seed, tier, pi, ci, t_end))
    # interleave phases so that a failure in any of them surfaces early
    jobs.sort(key=lambda j: (j[3] * phases[j[2]].chunk / max(1, phases[j[2]].n), j[2]))
    total, keys, tags, samples, per, nov, skipped, unsup = 0, set(), {}, [], {}, 0, 0, 0
    fail = None
    nproc = min(os.cpu_count() or 4, 16)
    pool = multiprocessing.Pool(nproc, _init, (check, bins, gld))
    try:
        for r in pool.imap(_run_chunk, jobs):
            if r["err"]:
                print(r["err"], file=sys.stderr)
                pool.terminate()
                return 2
            ph = phases[r["pi"]]
            total += r["n"]
            per[ph.name] = per.get(ph.name, 0) + r["n"]
            keys |= r["keys"]
            nov += r["noverdict"]
            skipped += r["skipped"]
            unsup += r["unsupported"]
            for k, v in r["tags"].items():
                t = "%s/%s" % (ph.name, k) if k else ph.name
                tags[t] = tags.get(t, 0) + v
            if len(samples) < 12 or (len(samples) < 20 and not any(s[0] == ph.name for s in samples)):
                samples += [(ph.name, s) for s in r["samples"]]
            if r["fail"]:
                fail = r["fail"]
                fail["phase"] = ph.name
                break
        if fail:
            pool.terminate()
        else:
            pool.close()
        pool.join()
    except KeyboardInterrupt:
        pool.terminate()
        raise

    if not samples and not fail:
        samples = [("-", "(no non-trivial case sampled)")]
    cov = {"evaluations": total, "distinct_nontrivial": len(keys), "rule": check.RULE,
           "samples": [{"phase": p, "case": c} for p, c in samples[:16]],
           "per_phase": per, "distribution": dict(sorted(tags.items(), key=lambda x: -x[1])[:60]),
           "no_verdict": nov, "interface_missing": unsup, "not_reached_in_time": skipped,
           "exhaustive_phases": {p.name: p.n for p in phases if p.exhaustive and per.get(p.name) == p.n}}
    cov.update(check.extra(None))
    rc, viol = 0, []
    if fail:
        env = Env(check, bins, gld)
        try:
            small = shrink(check, env, fail)
        finally:
            env.close()
        msg = reproduces(check, bins, gld, small)
        if not msg:
            small = fail
            msg = reproduces(check, bins, gld, small)
        if not msg:
            # depends on what went before in the same process
            ph = [p for p in phases if p.name == fail["phase"]][0]
            whole = history_of(check, ph, seed, fail)
            env = Env(check, bins, gld)
            try:
                env.flavour = whole["flavour"]
                small = shrink(check, env, whole)
            finally:
                env.close()
            msg = reproduces(check, bins, gld, small) or reproduces(check, bins, gld, whole)
        if not msg:
            print("failure did not reproduce on its own: %s / %s"
                  % (fail["message"][:600], json.dumps(fail["case"], ensure_ascii=True, default=repr)[:1500]), file=sys.stderr)
            evidence(check, tier, seed, cov, time.time() - t0, [])
            return 2
        rep = {"property": check.ID, "phase": fail["phase"], "flavour": small["flavour"],
               "message": msg, "case": small["case"], "seed": seed, "tier": tier}
        rdir = os.path.join(EVID, "replays")
        os.makedirs(rdir, exist_ok=True)
        blob = json.dumps(rep, ensure_ascii=True, indent=1)
        path = os.path.join(rdir, "%s-%s.json" % (check.ID, hashlib.sha256(blob.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write(blob + "\n")
        shown = small["case"]
        shown = {"history": [check.show(c) for c in shown["history"]]} if "history" in shown else check.show(shown)
        print("failing case: %s" % json.dumps(shown, ensure_ascii=False)[:2000])
        print("reason: %s" % msg[:4000].replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
        viol = [{"message": msg, "replay": path}]
        rc = 1
    elif total == 0 or nov > max(5, total // 50):
        print("too many cases without verdict: %d of %d" % (nov, total + nov), file=sys.stderr)
        rc = 2
    evidence(check, tier, seed, cov, time.time() - t0, viol)
    if rc == 0:
        print("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (check.ID, tier, total, len(keys), time.time() - t0))
    return rc


def replay(check, path):
    with open(path) as f:
        rep = json.load(f)
    bins, gld = do_build(check)
    msg = reproduces(check, bins, gld, {"case": rep["case"], "flavour": rep["flavour"]})
    if msg:
        print("reason: %s" % msg[:4000].replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
        return 1
    print("%s: replay holds" % check.ID)
    return 0
