#!/usr/bin/env python3
"""Sensitivity measurement: makes small systematic changes to a scratch copy of
the sources, one at a time, and runs the checks that should notice until one
raises an alarm.

usage: mutate.py WORKDIR OUT.tsv SEED COUNT [FILE...]

Every line of OUT.tsv: file:line, outcome (check that raised the alarm,
SURVIVED, NOBUILD), old line, new line.
"""
import os
import random
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = [
    ("parser/parser.cxx", ["P06", "P05", "P04", "P10", "P07", "P08", "P03", "P02", "P09", "P01", "P24", "P23", "P13"]),
    ("thortho/", ["P05", "P06", "P04", "P07", "P18"]),
    ("dict/gen-lookup-dict.c", ["P11", "P12", "P01", "P10"]),
    ("dict/", ["P11", "P13", "P10", "P23", "P01"]),
    ("lattice/dag", ["P15", "P05", "P14", "P16", "P24"]),
    ("lattice/", ["P14", "P16", "P28", "P15", "P21"]),
    ("sylstring/", ["P16", "P17", "P28", "P15", "P14", "P10", "P05", "P19", "P20", "P18"]),
    ("output/sylout-thai", ["P18"]),
    ("output/sylout-raw", ["P17"]),
    ("output/sylout-roman", ["P19"]),
    ("output/output-roman", ["P19"]),
    ("output/output-gjson", ["P14", "P21"]),
    ("output/output-json", ["P21"]),
    ("output/", ["P20", "P19", "P21", "P03", "P14"]),
    ("thpronun/", ["P22", "P21", "P13", "P01"]),
    ("data/", ["P25"]),
]
FILES = ["parser/parser.cxx"] * 6 + [
    "thortho/thcons.cxx", "thortho/thcons.inl", "dict/gen-lookup-dict.c", "dict/dict.cxx", "dict/dict.inl", "lattice/dag.inl",
    "lattice/lattice.cxx", "lattice/lattice.inl", "lattice/pron-dag.cxx", "sylstring/syl.cxx", "sylstring/syl.inl",
    "sylstring/sylcomp.cxx", "sylstring/sylcomp.inl", "sylstring/sylstring.cxx", "sylstring/sylstring.inl",
    "output/sylout-thai.cxx", "output/sylout-phonetic.cxx", "output/sylout-raw.cxx", "output/sylout-roman.cxx",
    "output/sylout-soundex.cxx", "output/output-delim.cxx", "output/output-roman.cxx", "output/output-json.cxx",
    "output/output-gjson.cxx", "output/ioutput.cxx", "output/isyl-output.cxx", "thpronun/thpronun.cxx"]
SUBST = [("==", "!="), ("!=", "=="), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), ("&&", "||"), ("||", "&&"),
         (" + 1", " + 2"), (" + 1", ""), (" + 2", " + 1"), (" + 2", " + 3"), (" + 3", " + 2"), (" - 1", ""), ("true", "false"),
         ("false", "true"), ("!th_", "th_"), ("++", "--"), ("::LOWS", "::LOWP"), ("::HIGH", "::MID"), ("::SAMAN", "::EK"),
         ("::NONE", "::KOT"), ("UTH_RO_RUA", "UTH_LO_LING"), ("UTH_O_ANG", "UTH_YO_YAK"), ("UTH_HO_HIP", "UTH_HO_NOKHUK"),
         ("::A;", "::AA;"), (" = 0", " = 1"), ("MIN (", "MAX ("), (".first", ".second"), (".second", ".first"), ("EVowel::", "EVowel::O; EVowel::"),
         ("begin()", "end()"), ("'-'", "'+'"), ("* 2", "* 1"), ("0x80", "0x40"), ("0x3f", "0x1f"), ("101", "100")]
DELETE = [r"^\s*\+\+[\w.>-]+;", r"^\s*(break|continue);", r"^\s*\{ .* \},", r"^\s*(case )?UTH_\w+[:,]", r"^\s*[\w.>-]+ (\+?=) .*;$",
          r"^\s*return[^;]*;", r"^\s*\w[\w.:>-]* \([^;{]*\);$", r"^\s*(outStr|result) \+= .*;"]


def mutants(repo, files):
    out = []
    for f in sorted(set(files)):
        with open(os.path.join(repo, f), encoding="utf-8") as fh:
            lines = fh.read().split("\n")
        for i, l in enumerate(lines):
            s = l.strip()
            if not s or s.startswith(("//", "/*", "*", "#")) or "assert" in s:
                continue
            for a, b in SUBST:
                for m in re.finditer(re.escape(a), l):
                    if "//" in l[:m.start()]:
                        continue
                    out.append((f, i, l, l[:m.start()] + b + l[m.end():]))
            for d in DELETE:
                if re.search(d, l):
                    out.append((f, i, l, re.match(r"\s*", l).group(0) + ";" if not re.search(r"[,:]\s*(//.*)?$", l) else ""))
                    break
    return out


def checks_for(f):
    for p, c in CHECKS:
        if f.startswith(p):
            return c
    return []


def main():
    work, outp, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    files = sys.argv[5:] or FILES
    repo, ver = work + "/repo", work + "/verif"
    os.makedirs(work, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "_build", "/repo/", repo + "/"], check=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "seeded", "--exclude", "build", "--exclude", "evidence",
                    "--exclude", ".git", VERIF + "/", ver + "/"], check=True)
    allm = mutants(repo, files)
    rng = random.Random(seed)
    todo = []
    while len(todo) < count:
        f = files[int(rng.random() * len(files))]
        c = [m for m in allm if m[0] == f]
        if c:
            todo.append(c[int(rng.random() * len(c))])
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
    done = set()
    if os.path.exists(outp):
        for l in open(outp, encoding="utf-8"):
            p = l.rstrip("\n").split("\t")
            done.add((p[0], p[3]))
    for f, i, old, new in todo:
        where = "%s:%d" % (f, i + 1)
        if (where, new.strip()) in done:
            continue
        done.add((where, new.strip()))
        path = os.path.join(repo, f)
        with open(path, encoding="utf-8") as fh:
            text = fh.read()
        lines = text.split("\n")
        lines[i] = new
        with open(path, "w", encoding="utf-8") as fh:
            fh.write("\n".join(lines))
        res = "SURVIVED"
        try:
            for c in checks_for(f):
                p = subprocess.run([sys.executable, ver + "/harness/run.py", c], env=env, cwd=ver,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                o = p.stdout.decode("utf-8", "replace")
                if "build failed" in o:
                    res = "NOBUILD"
                    break
                if p.returncode == 1 and "VIOLATION property=" in o:
                    res = c
                    break
                if p.returncode != 0:
                    res = "ERROR-" + c
                    break
        finally:
            with open(path, "w", encoding="utf-8") as fh:
                fh.write(text)
        with open(outp, "a", encoding="utf-8") as fh:
            fh.write("%s\t%s\t%s\t%s\n" % (where, res, old.strip(), new.strip()))


main()
