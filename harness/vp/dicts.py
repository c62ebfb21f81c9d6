"""Exception dictionaries: generation and compilation."""

import os
import resource
import subprocess

from . import thai as T
from .client import ENV, Crash
from .gen import CONS, WORDS, mutate, pick, syllable, thai_text
from . import strgen

CPU = 60


def _limits():
    resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_compiler(env, kind, args, cwd=None, **kw):
    """(exit status, stderr) of the dictionary compiler; a death by signal
    or a sanitizer report is a Crash.  Memory it has not written holds no zeros."""
    r = subprocess.run([env.gld[kind]] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=dict(ENV, MALLOC_PERTURB_="85"), cwd=cwd or env.scratch, preexec_fn=kw.pop("limits", _limits), **kw)
    err = r.stderr.decode("utf-8", "replace")
    if r.returncode < 0 or r.returncode in (98, 99) or "Sanitizer" in err:
        raise Crash("dictionary compiler ended with status %d: %s" % (r.returncode, err[:400]))
    return r.returncode, err


def fresh(env, suffix):
    env.serial = getattr(env, "serial", 0) + 1
    return os.path.join(env.scratch, "d%d%s" % (env.serial, suffix))


def compile_lines(env, lines, kind="default"):
    """Compile; returns (status, path of the dictionary, stderr)."""
    src, dst = fresh(env, ".tsv"), fresh(env, ".dic")
    with open(src, "wb") as f:
        f.write(b"".join(l + b"\n" for l in lines))
    rc, err = run_compiler(env, kind, [src, dst])
    os.unlink(src)
    return rc, dst, err


def pron_text(alt):
    return ",".join("%s@%d" % (c, e) for c, e in alt)


def entry_line(key, alts):
    return (key + "\t" + ";".join(pron_text(a) for a in alts)).encode("utf-8")


def as_model(entries):
    return {k: [[(c, e) for c, e in a] for a in alts] for k, alts in entries}


# --- generation -----------------------------------------------------------

SIGNS = ["ๆ", "ฯ", "ฯลฯ", "๑", "๐", "฿", "๏", "๚", "๛", "ํ", "๎", "ฺ", "ๅ", "ฦ"]


def key(rng, maxlen=7):
    r = rng.random()
    if r < .4:
        k = pick(rng, WORDS)
    elif r < .75:
        k = "".join(syllable(rng) for _ in range(1 + (rng.random() < .3)))
    elif r < .9:
        k = "".join(pick(rng, CONS) for _ in range(1 + int(rng.random() * 4)))
    else:
        k = thai_text(rng, maxlen)
    k = k[:maxlen]
    if rng.random() < .06:
        # signs that no syllable is spelled with
        i = len(k) if rng.random() < .5 else int(rng.random() * (len(k) + 1))
        k = k[:i] + pick(rng, SIGNS) + k[i:]
    return k[:maxlen]


def alternative(rng, n):
    """Syllables whose ends advance to exactly n."""
    out, pos = [], 0
    while pos < n:
        nxt = n if rng.random() < .35 else min(n, pos + 1 + int(rng.random() * 3))
        if rng.random() < .2:
            out.append([strgen.codes(rng), -(pos * 100 + nxt)])
        out.append([strgen.codes(rng), nxt])
        pos = nxt
    return out


def entries(rng, maxn=5, maxkey=14):
    """List of [key, alternatives], keys distinct, often related."""
    keys = []
    for _ in range(1 + int(rng.random() * maxn)):
        r = rng.random()
        if keys and r < .35:
            k = pick(rng, keys) + key(rng, 4)           # longer
        elif keys and r < .55:
            b = pick(rng, keys)
            k = b[:1 + int(rng.random() * len(b))]      # prefix
        elif keys and r < .62:
            k = mutate(rng, pick(rng, keys))
        else:
            k = key(rng)
        if maxkey > 14 and rng.random() < .5:
            k = "".join([k] + [pick(rng, WORDS) for _ in range(3 + int(rng.random() * 10))])[:15 + int(rng.random() * (maxkey - 14))]
        if k and k not in keys and len(k) <= maxkey:
            keys.append(k)
    out = []
    for k in keys:
        n = 1 + (rng.random() < .35) + (rng.random() < .15)
        if rng.random() < .08:
            n = 3 + int(rng.random() * 6)
        alts = []
        for _ in range(n):
            a = alternative(rng, len(k))
            if a not in alts:
                alts.append(a)
        # one line has to fit the compiler's limit
        while len(alts) > 1 and len(entry_line(k, alts)) > 240:
            alts.pop()
        if len(entry_line(k, alts)) > 240:
            alts = [[[strgen.codes(rng), len(k) // 2], [strgen.codes(rng), len(k)]]]
        out.append([k, alts])
    return out


def shrink_entries(es):
    n = len(es)
    for i in range(n):
        yield es[:i] + es[i + 1:]
    for i, (k, alts) in enumerate(es):
        if len(alts) > 1:
            for j in range(len(alts)):
                yield es[:i] + [[k, alts[:j] + alts[j + 1:]]] + es[i + 1:]
        if any(len(a) > 1 for a in alts):
            yield es[:i] + [[k, [[[a[-1][0], a[-1][1]]] for a in alts][:1]]] + es[i + 1:]
