"""Generators.  All randomness comes from the random.Random passed in."""

import os
from . import thai as T

with open(os.path.join(os.path.dirname(__file__), "words.txt"), encoding="utf-8") as _f:
    WORDS = [w for w in _f.read().split("\n") if w]

CONS = T.CONS
COMMON = "กรลวหอนมยตสทบ"
VOWELS = "ะัาำิีึืุู็์เแโใไฤฦๅ"
_SOUP = list(CONS) * 2 + list(COMMON) * 6 + list("ะัาำิีึืุู็่้๊๋์เแโใไฤฦๅ") * 3 + list("าะิเ์ัร") * 6
LITERALS = ["1", "a", "Z", "ๆ", "ฯ", "๕", "-", "/", ",", "é", "中", "😀", "\t", "\"", "\\", "ฺ",
            "ํ", "๛", "(", ")", "​", "\x7f", "฿", "𝄞", "﻿", "'", "%", ";", "@", "{", "\x01"]
CLUSTERS = ["กร", "กล", "กว", "ขร", "ขล", "ขว", "คร", "คล", "คว", "ตร", "ปร", "ปล", "พร", "พล", "ผล",
            "ดร", "บร", "บล", "ฟร", "ฟล", "ทร", "จร", "สร", "ศร", "ซร"]
HLEAD = ["ห" + c for c in "งญณนมยรลวฬ"]


def pick(rng, seq):
    return seq[int(rng.random() * len(seq))]


def cons(rng):
    return pick(rng, COMMON) if rng.random() < .45 else pick(rng, CONS)


def onset(rng):
    r = rng.random()
    if r < .45:
        return cons(rng)
    if r < .62:
        return pick(rng, CLUSTERS)
    if r < .70:
        return pick(rng, HLEAD)
    if r < .9:
        return cons(rng) + cons(rng)
    return cons(rng) + "ฤ"


def tone(rng, p=.3):
    return pick(rng, T.TONES) if rng.random() < p else ""


def coda(rng):
    r = rng.random()
    if r < .35:
        return ""
    if r < .7:
        return cons(rng)
    if r < .75:
        return pick(rng, "กคชตท") + "ร"
    if r < .8:
        return pick(rng, "ฒตธร") + pick(rng, "ิุ")
    if r < .9:
        return cons(rng) + karan(rng)
    return karan(rng)


def karan(rng):
    r = rng.random()
    if r < .6:
        return cons(rng) + T.KARAN
    if r < .8:
        return cons(rng) + cons(rng) + T.KARAN
    return cons(rng) + pick(rng, "ิุ") + T.KARAN


FRAMES = ["%s%tะ", "%sั%t%c", "%s%tา", "%s%tา%c", "%s%tำ", "%sิ%t%c", "%sี%t%c", "%sึ%t%c", "%sื%t%c", "%sือ",
          "%sุ%t%c", "%sู%t%c", "เ%s%t%c", "เ%s็%c", "เ%s%tะ", "แ%s%t%c", "แ%s็%c", "แ%s%tะ", "โ%s%t%c",
          "โ%s%tะ", "ไ%s%t", "ใ%s%t", "ไ%s%tย", "เ%s%tา", "เ%s%tาะ", "%s%tอ%c", "%s็อ%c", "เ%sี%tย%c",
          "เ%sี%tยะ", "เ%sื%tอ%c", "เ%sื%tอะ", "%sั%tว", "%sั%tวะ", "%s%tว%c", "เ%s%tอ%c", "เ%s%tอะ",
          "เ%sิ%t%c", "เ%s%tย", "%s%t%c", "%sรร%c", "%sร%c", "%s", "ฤ%c", "ฤๅ", "ฦ%c", "%sฤ%c", "เ%s%t", "โ%s%t"]


def syllable(rng):
    f = pick(rng, FRAMES)
    out = f.replace("%s", onset(rng) if "ฤ" not in f or rng.random() < .5 else cons(rng))
    out = out.replace("%t", tone(rng))
    return out.replace("%c", coda(rng))


def soup(rng, n):
    return "".join(pick(rng, _SOUP) for _ in range(n))


def mutate(rng, w, alphabet=_SOUP):
    w = list(w)
    for _ in range(1 + int(rng.random() * 2)):
        r = rng.random()
        i = int(rng.random() * (len(w) + 1))
        if r < .35 and w and i < len(w):
            del w[i]
        elif r < .65:
            w.insert(i, pick(rng, alphabet))
        elif i < len(w):
            w[i] = pick(rng, alphabet)
    return "".join(w)


def thai_text(rng, maxlen=12):
    """Thai spelling characters only."""
    r = rng.random()
    if r < .2:
        w = soup(rng, 1 + int(rng.random() * 8))
    elif r < .75:
        w = "".join(syllable(rng) for _ in range(1 + int(rng.random() * 3)))
    else:
        w = pick(rng, WORDS)
        if rng.random() < .3:
            w += pick(rng, WORDS)
    if rng.random() < .3:
        w = mutate(rng, w)
    return w[:maxlen] or "ก"


def literal_run(rng, maxn=4):
    if rng.random() < .02:
        maxn *= 40
    return "".join(pick(rng, LITERALS) if rng.random() < .8 else chr(pick(rng, RANDOM_CP))
                   for _ in range(1 + int(rng.random() * maxn)))


RANDOM_CP = [c for c in list(range(0x20, 0x2e)) + list(range(0x2f, 0x7f)) + list(range(0xa0, 0x180))
             + list(range(0xe3f, 0xe40)) + list(range(0xe46, 0xe47)) + list(range(0xe4d, 0xe5c))
             + list(range(0xe80, 0xe90)) + list(range(0x3040, 0x3060)) + [0x1f600, 0x1d11e, 0xfffd, 0xfffe, 0xffff, 0x10ffff]
             + [0xb, 0xc, 0x85, 0x1680, 0x202f, 0x205f, 0x3000, 0xe3b, 0xe5c, 0xe7f] + list(range(0x2000, 0x2010)) + [0x2028, 0x2029]
             + list(range(0x180, 0xe00, 41)) + list(range(0xe90, 0x10000, 173)) + list(range(0x10000, 0x110000, 0x2fb1))
             if not 0xd800 <= c < 0xe000]


def filler(rng, limit=1100):
    """Something long with one reading, to have what follows far from the
    beginning of the text."""
    n = pick(rng, [80, 95, 110, 125, 240, 250, 260, 500, 1000])
    n = min(n, limit) + int(rng.random() * 30)
    if limit > 2000 and rng.random() < .1:
        n = limit - int(rng.random() * limit / (2 if rng.random() < .5 else 40))
    r = rng.random()
    if r < .4:
        return pick(rng, ["a", "1", "-", "中"]) * n
    if r < .5:
        return " " * n
    n = min(n, 1100)
    if r < .75:
        return pick(rng, ["กา", "มี", "ไป", "แมะ"]) * (n // 2)
    return (pick(rng, ["ดี ", "กา1", "ไป. "]) * n)[:n // 3 * 3]


def long_word(rng, limit=400):
    """Many elements but few readings."""
    one = pick(rng, ["ไป", "มี ", "แมะ1", "ดี.", "ไม", "a ไป"])
    n = 3 + int(rng.random() * limit / len(one))
    out = [one] * n
    for _ in range(int(rng.random() * 3)):
        out.insert(int(rng.random() * (len(out) + 1)), syllable(rng))
    return "".join(out)


def mixed_text(rng, maxparts=5, maxlen=16):
    out = ""
    for _ in range(1 + int(rng.random() * maxparts)):
        r = rng.random()
        if r < .45:
            out += thai_text(rng, 7)
        elif r < .6:
            out += "".join(pick(rng, CONS) for _ in range(1 + int(rng.random() * 5))) + (
                "." if rng.random() < .7 else "")
        elif r < .72:
            out += "." * (1 + int(rng.random() * 2))
        elif r < .86:
            out += " " * (1 + int(rng.random() * (2 if rng.random() < .97 else 12)))
        else:
            out += literal_run(rng, 3)
    return out[:maxlen]


# --- shrinking ------------------------------------------------------------

def shrink_text(s):
    n = len(s)
    k = n // 2
    while k >= 1:
        for i in range(0, n - k + 1, k):
            yield s[:i] + s[i + k:]
        k //= 2
    for i, c in enumerate(s):
        for r in ("ก", "า", "a"):
            if c != r and _simpler(r, c):
                yield s[:i] + r + s[i + 1:]


def _simpler(r, c):
    order = {"ก": 0, "า": 1, "a": 0}
    if (c in T.WORDCH) != (r in T.WORDCH):
        return False
    if c in T.CONS and r == "ก":
        return True
    return c not in T.CONS and c in T.WORDCH and r == "า" or (c not in T.WORDCH and c not in " ." and r == "a")


def shrink_list(xs, elem=None):
    n = len(xs)
    k = n // 2
    while k >= 1:
        for i in range(0, n - k + 1, k):
            yield xs[:i] + xs[i + k:]
        k //= 2
    if elem:
        for i, x in enumerate(xs):
            for y in elem(x):
                yield xs[:i] + [y] + xs[i + 1:]
