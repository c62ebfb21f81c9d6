from checks.common import *
from vp import dicts
import os
import shutil


# none of these has a meaning for the program
SURROUNDINGS = [None, {"LC_ALL": "C", "LANG": "C"}, {"LC_ALL": "POSIX"}, {"LC_ALL": "xx_YY.UTF-8"}, {"LC_ALL": "", "LANG": "th_TH.UTF-8"},
                {"LC_ALL": "", "LC_CTYPE": "th_TH.TIS-620"}, {"LC_ALL": "C.UTF-8", "HOME": "/nonexistent", "TERM": "dumb", "COLUMNS": "3"}]

FILES = ["=%s", "d%s", "-%s", "n%s", " %s ", "%s.dic", "ก%s", "\"%s", "=%s=", ":%s", "~%s", "'%s'", "%s,a", "-d%s", "%s\n", "%sé", "\t%s",
         "%.0sx", "%.0s1", "%.0sก", "%.0s=", "%.0sab", "%.0s~", "%.0s,"]


class P22(Check):
    ID = "P22"
    WANT = ("driver", "cli")
    GLD = ("default",)
    RULE = "command line with at least one option and at least one word with a pronunciation; counted by arguments and input"

    def evaluate(self, env, case):
        made = []
        try:
            return self.judge(env, case, made)
        finally:
            for p in made:
                if os.path.exists(p):
                    os.unlink(p)

    def judge(self, env, case, made):
        args, words, opts = [], [], []
        dic = None
        for a in case["args"]:
            if a[0] == "word":
                args.append(bytes.fromhex(a[1]))
                words.append(bytes.fromhex(a[1]))
            elif a[0] == "dict":
                rc, path, err = dicts.compile_lines(env, [dicts.entry_line(k, x) for k, x in a[1]])
                if rc:
                    return "dictionary: not compiled: " + err[:200], None, ""
                made.append(path)
                if len(a) > 2:
                    # under a name of its own in the directory the program runs in
                    given = a[2] % os.path.basename(path)
                    named = os.path.join(env.scratch, given)
                    shutil.copyfile(path, named)
                    made.append(named)
                args.append(b"-d" + (given if len(a) > 2 else path).encode())
                opts.append("-d")
                dic = path
            else:
                args.append(a[1].encode())
                opts.append(a[1])
        stop = [o for o in opts if o in ("--help", "--version", "-h", "-V") or o == "--" or o.startswith("--")
                or (o.startswith("-") and o[:2] not in ("-d", "-n", "-j", "-g", "-r", "-t", "-p", "-w", "-s"))
                or o == "-d" and False]
        lines = [bytes.fromhex(x) for x in case["stdin"]]
        data = b"\n".join(lines) + (b"\n" if case["eol"] and lines else b"")
        if not case["eol"] and lines and lines[-1] == b"":
            lines = lines[:-1]
        todo = words or lines
        if case.get("std"):
            # the dictionary of the installation, used unless -d names another
            rc, path, err = dicts.compile_lines(env, [dicts.entry_line(k, x) for k, x in case["std"]])
            if rc:
                return "dictionary: not compiled: " + err[:200], None, ""
            made.append(path)
            here = os.path.join(env.scratch, "except.dic")
            shutil.copyfile(path, here)
            made.append(here)
            dic = dic or path
        r = run_cli(env, args, data, SURROUNDINGS[case.get("env", 0)])
        out = r.stdout
        if stop or "-d!" in case.get("flags", ()):
            first = (stop or ["-d"])[0]
            what = "information" if first in ("--help", "--version", "-h", "-V") else "wrong option"
            for w in todo:
                if w and (b"\n" + w + b":\n") in b"\n" + out:
                    return "%s: %s given but '%r' analysed" % (what, first, w), None, ""
            if what == "information":
                if first in ("--help", "-h"):
                    if b"-j" not in out or b"-n" not in out:
                        return "information: no help on standard output", None, ""
                elif b"9.9.9-test" not in out:
                    return "information: no version on standard output", None, ""
            elif r.returncode == 0 or not r.stderr:
                return "wrong option: %s gives status %d, message %r" % (first, r.returncode, r.stderr[:80]), None, ""
            return None, (repr(case["args"]), "stop"), what
        if r.returncode:
            return "status: %d" % r.returncode, None, ""
        seg = 0 if "-n" in opts else 1
        js = "G" if "-g" in opts else "J" if "-j" in opts else None
        nts = [o[1] for o in opts if o[1] in NOTATIONS] or list("trp")
        pid = env.parser(seg, dic)
        fm = [n + js if js else PLAIN[n] for n in nts]
        exp = b""
        some = False
        for w in todo:
            o = env.drv.ask("word", pid, hx(w), *fm)[1:]
            exp += w + b":\n" + b"".join(client.unhx(x) + b"\n" for x in o)
            some = some or any(len(client.unhx(x)) > 2 for x in o)
        if out != exp:
            i = 0
            while i < min(len(out), len(exp)) and out[i] == exp[i]:
                i += 1
            return "output: differs at byte %d: %r instead of %r" % (i, out[max(0, i - 30):i + 60], exp[max(0, i - 30):i + 60]), None, ""
        if words and case["also_stdin"] and not any(b"\n" in w for w in words):
            r2 = run_cli(env, [a for a in args if a.startswith(b"-")], b"".join(w + b"\n" for w in words))
            if r2.stdout != out:
                return "standard input: the same words give other output", None, ""
        nt = some and opts
        return None, ((repr(case["args"]), repr(case["stdin"])) if nt else None), "%s, %s" % (
            "arguments" if words else "lines", "json" if js == "J" else "grouped" if js else "plain")

    def word(self, rng, arg):
        r = rng.random()
        if r < .6:
            w = gen.thai_text(rng, 7).encode()
        elif r < .85:
            w = gen.mixed_text(rng, 3, 9).encode("utf-8", "surrogatepass")
        elif r < .89:
            w = b""
        elif r < .9:
            w = gen.pick(rng, ["x" * 2100, "中" * 700, " " * 300, "1." * 60, "y" * 130]).encode()
            w = w[:-1] if rng.random() < .2 else w
            if rng.random() < .2:
                w = b"z" * gen.pick(rng, [4095, 4096, 8192, 65535, 65536, 100000])
        elif r < .95:
            w = bytes(int(rng.random() * (255 + (not arg))) + arg for _ in range(1 + int(rng.random() * 5)))
        else:
            w = gen.pick(rng, ["กา -n", "a-b", ":", "กา:", "ก-", "\r", "กา\r", " -n", "\x00", "กา\x00นา", "\x00กา", "กา\t", "\tกา", "\x0b", "กา\x00"]).encode()
        if arg:
            w = w.replace(b"\0", b"")
            while w.startswith(b"-"):
                w = w[1:]
        elif rng.random() < .1:
            w = gen.pick(rng, [b"-n", b"-", b"--help", b"-V", b"-gg"]) + w
        return w.replace(b"\n", b"") if not arg else w

    def gen(self, rng):
        args = []
        for _ in range(int(rng.random() * 4)):
            args.append(["opt", gen.pick(rng, ["-r", "-t", "-p", "-w", "-s"])])
        for o, p in (("-n", .4), ("-j", .3), ("-g", .2)):
            if rng.random() < p:
                args.append(["opt", o])
                if rng.random() < .1:
                    args.append(["opt", o])
        while rng.random() < .25:
            args.append(["dict", dicts.entries(rng, 3)])
            if rng.random() < .4:
                args[-1].append(gen.pick(rng, FILES))
        r = rng.random()
        if r < .06:
            args.append(["opt", gen.pick(rng, ["--help", "--version", "-h", "-V"])])
        elif r < .12:
            args.append(["opt", gen.pick(rng, ["--", "--foo", "-x", "-", "-1", "-R", "-J", "--helpp", "--versio", "-q", "-T", "-?", "--json"])])
        elif r < .14:
            args.append(["opt", "-d"])
        dk = [k for a in args if a[0] == "dict" for k, _ in a[1]]
        std = dicts.entries(rng, 3) if rng.random() < .3 else []
        dk += [k for k, _ in std]
        lines = []
        if rng.random() < .6:
            for _ in range(1 + int(rng.random() * 4)):
                w = self.word(rng, True)
                if dk and rng.random() < .4:
                    w = gen.pick(rng, dk).encode()
                args.append(["word", w.hex()])
        else:
            lines = [self.word(rng, False) for _ in range(int(rng.random() * (5 if rng.random() < .96 else 60)))]
            if dk:
                lines = [gen.pick(rng, dk).encode() if rng.random() < .4 else l for l in lines]
        q = rng.random()
        if q < .02 and args:
            args += [gen.pick(rng, args)] * gen.pick(rng, [20, 130, 260])
        elif q < .03 and lines:
            lines += [gen.pick(rng, lines)] * gen.pick(rng, [20, 130, 260])
        elif q < .08 and any(a[0] == "word" for a in args):
            lines = [self.word(rng, False)]     # not read, as there are words
        rng.shuffle(args)
        return {"args": args, "stdin": [l.hex() for l in lines], "eol": int(rng.random() < .8), "std": std, "also_stdin": int(rng.random() < .3),
                "env": int(rng.random() * len(SURROUNDINGS)) if rng.random() < .3 else 0,
                "flags": ["-d!"] if ["opt", "-d"] in args else []}

    def shrink(self, case):
        for a in gen.shrink_list(case["args"]):
            yield dict(case, args=a, flags=["-d!"] if ["opt", "-d"] in a else [])
        if case.get("env"):
            yield dict(case, env=0)
        if case.get("std"):
            yield dict(case, std=[])
        for s in gen.shrink_list(case["stdin"]):
            yield dict(case, stdin=s)
        for i, a in enumerate(case["args"]):
            if a[0] == "word":
                b = bytes.fromhex(a[1]).decode("utf-8", "ignore")
                for t in gen.shrink_text(b):
                    if not t.startswith("-"):
                        yield dict(case, args=case["args"][:i] + [["word", t.encode().hex()]] + case["args"][i + 1:])

    def show(self, case):
        return {"args": [bytes.fromhex(a[1]).decode("utf-8", "backslashreplace") if a[0] == "word" else "-d..." if a[0] == "dict" else a[1]
                         for a in case["args"]], "stdin": [bytes.fromhex(s).decode("utf-8", "backslashreplace") for s in case["stdin"]]}

    def phases(self, tier):
        return [Phase("command lines", 150000 if tier == "thorough" else 14000, gen=self.gen, chunk=100, flavours=MIX)]


CHECK = P22()
