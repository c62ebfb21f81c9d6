"""Pieces shared by several checks."""

import contextlib
import json
import os
import resource
import subprocess

from vp import client, dicts, gen, graph, model, thai as T
from vp.client import hx, edges_of
from vp.engine import Check, Phase

MIX = ("fast",) * 9 + ("san",)


def read(env, text, seg=False, dic=None):
    """Edges (from, to, label) of the readings the code finds.  The end
    position of a syllable must be the node it leads to."""
    raw = text if isinstance(text, bytes) else text.encode("utf-8", "surrogatepass")
    return edges_of(env.drv.ask("parse", env.parser(seg, dic), hx(raw)))


def breaks(env, text):
    return [int(x) for x in env.drv.ask("breaks", T.hex16(text))[1:]]


def bare(edges):
    return [(a, b, l) for a, b, l, _ in edges]


def show_edges(es, limit=6):
    def nm(x):
        return "*" if isinstance(x, tuple) else str(x)
    return "; ".join("%s>%s %s" % (nm(a), nm(b), l[1]) for a, b, l in sorted(es, key=repr)[:limit])


def differ(text, code, ref):
    """None if the two edge sets denote the same pronunciations."""
    cc, cr = graph.canon(bare(code)), graph.canon(ref)
    if cc == cr:
        return None
    pc, pr = graph.label_paths(bare(code)), graph.label_paths(ref)
    if pc is not None and pr is not None:
        pc, pr = set(pc), set(pr)
        if pc == pr:
            return None
        miss, inv = sorted(pr - pc, key=repr), sorted(pc - pr, key=repr)

        def f(p):
            return "-".join(l[1] for l, _ in p)
        return "readings differ: missing [%s] invented [%s]" % (
            ", ".join(map(f, miss[:4])), ", ".join(map(f, inv[:4])))
    return "readings differ: missing [%s] invented [%s]" % (show_edges(cr - cc), show_edges(cc - cr))


def ends_wrong(edges):
    for a, b, l, e in edges:
        if b != e:
            return "inconsistent: syllable %s ends at %d but leads to %d" % (l[1], e, b)
    return None


class ModelCheck(Check):
    """Differential check against the reference rules; a case is
    {"w": text, "seg": 0/1}."""
    RULE = "the text has at least one pronunciation by the reference rules; counted by text and segmentation mode"

    def evaluate(self, env, case):
        w, seg = case["w"], case.get("seg", 0)
        code = read(env, w, seg)
        brk = breaks(env, w) if seg else ()
        ref = model.analyse(T.u16(w), brk)
        msg = ends_wrong(code) or differ(w, code, ref)
        return msg, ((w, seg) if ref else None), self.tag(w, seg, brk, ref)

    def tag(self, w, seg, brk, ref):
        if not ref:
            return "unreadable"
        return "linked readings" if False else ("%d-%d edges" % ((len(ref) // 5) * 5, (len(ref) // 5) * 5 + 4)
                                                if len(ref) < 30 else "30+ edges")

    def shrink(self, case):
        if case.get("seg"):
            yield dict(case, seg=0)
        for t in gen.shrink_text(case["w"]):
            if t:
                yield dict(case, w=t)


def long_text(rng, piece):
    """Several pieces, possibly far from the beginning of the text."""
    n = 1 + int(rng.random() * 6)
    if rng.random() < .4:
        return gen.filler(rng, 300) + "".join(piece(rng) for _ in range(1 + n // 3))
    return "".join(piece(rng) + gen.pick(rng, ["", "", "", " ", "า"]) for _ in range(n))


def load_json(raw):
    """Strictly parsed JSON of a hex response token."""
    b = client.unhx(raw)
    try:
        return json.loads(b.decode("utf-8"))
    except ValueError as e:
        raise client.BadOutput("%s in %r" % (e, b[:200]))


def utf8(raw):
    b = client.unhx(raw)
    try:
        return b.decode("utf-8")
    except ValueError as e:
        raise client.BadOutput("%s in %r" % (e, b[:200]))


def product(*lists):
    """(size, function giving element i) of a cartesian product."""
    n = 1
    for l in lists:
        n *= len(l)

    def at(i):
        out = []
        for l in reversed(lists):
            i, r = divmod(i, len(l))
            out.append(l[r])
        return out[::-1]
    return n, at


# --- the program itself ---------------------------------------------------

NOTATIONS = "trpws"
PLAIN = {"t": "tD2d", "r": "rR", "p": "pD20", "w": "wD2c", "s": "sD2d"}


def run_cli(env, args, stdin=b"", vars=None):
    """Run the command-line program; memory errors and deaths are crashes."""
    cli = env.bins[env.flavour]["cli"]
    r = subprocess.run([cli] + args, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=dict(client.ENV, **vars) if vars else client.ENV, cwd=env.scratch, preexec_fn=cli_limits)
    if r.returncode < 0 or r.returncode in (98, 99) or b"Sanitizer" in r.stderr or b"runtime error:" in r.stderr:
        raise client.Crash("program ended with status %d: %s" % (r.returncode, r.stderr[:600].decode("utf-8", "replace")))
    return r


def cli_limits():
    resource.setrlimit(resource.RLIMIT_CPU, (120, 125))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


@contextlib.contextmanager
def dictionary(env, ents):
    """Path of a dictionary compiled from the entries; None for none."""
    if not ents:
        yield None
        return
    rc, path, err = dicts.compile_lines(env, [dicts.entry_line(k, a) for k, a in ents])
    if rc:
        raise client.BadOutput("dictionary not compiled: %s" % err[:200])
    try:
        yield path
    finally:
        os.unlink(path)


def dict_text(rng, ents, maxparts=4, maxlen=26):
    """Text in which entries of the dictionary occur, whole or in part."""
    keys = [k for k, _ in ents]
    out = ""
    for _ in range(1 + int(rng.random() * maxparts)):
        r = rng.random()
        if r < .5:
            out += gen.pick(rng, keys)
        elif r < .62:
            k = gen.pick(rng, keys)
            out += k[:1 + int(rng.random() * len(k))]
        elif r < .8:
            out += gen.syllable(rng)
        elif r < .87:
            out += gen.pick(rng, ["ะ", "า", "์", "่", "ิ", "ั", "ๆ", "็"])
        elif r < .93:
            out += gen.pick(rng, [".", " ", "1", "a", " .", ".."])
        else:
            out += gen.pick(rng, gen.WORDS)
    return out[:maxlen]


def npaths(env, w, seg, dic=None):
    return graph.count_paths(bare(read(env, w, seg, dic)))
