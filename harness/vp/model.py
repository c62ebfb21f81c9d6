"""Reference reading of Thai text: an executable statement of the
letter-to-sound rules, used as the oracle for sets of readings.

analyse() returns the edges of the graph of readings.  Nodes are positions;
the point after a short leading syllable is ('m', start, end)."""

from . import thai as T
from .thai import (CONS, LEAD, TONES, SOUND, CLASS, FINAL, UPLOW, TONE_OF)

_C = set(CONS)
_LEAD = set(LEAD)
_TONE = set(TONES)


def syl_start(c):
    return c in _C or c in _LEAD


class Onset:
    __slots__ = ("pos", "pre", "init", "cls", "sec", "vowel", "done")

    def __init__(self, pos, init, cls, sec="_", vowel=None, pre=None, done=False):
        self.pos, self.init, self.cls, self.sec = pos, init, cls, sec
        self.vowel, self.pre, self.done = vowel, pre, done


# true clusters: second letter -> first letters; the ones in *_LINK also occur
# when the first letter doubles as the final of the previous syllable
CLUSTER = {
    "ร": set("ขคดทบพฟกตป"),
    "ล": set("กขคบปผพฟ"),
    "ว": set("กขค"),
}
CLUSTER_LINK = {"ร": set("กตป"), "ล": set(), "ว": set()}
FALSE_CLUSTER = set("จซศส")           # + ร, ร silent
AURA = set("กคจทธนบปภมวสหอ")          # -o-ra- readings
RI_CLUSTER, RI_BOTH, RUE_CLUSTER, RUE_SEP, RUE_PEEK = (
    set("กตทป"), set("สศ"), set("ว"), set("น"), set("คพ"))
CODA_RO = set("กคชตท")
CODA_IU = set("ฒตธร")
LINK_VOWELS = {T.RU, T.SARA_A, T.HANAKAT, T.SARA_AA, T.SARA_I, T.SARA_II,
               T.SARA_U, T.SARA_UU}
RI_FINALS = set("ณทษ")


class Reader:
    def __init__(self, chars, stop):
        self.w = chars
        self.stop = stop          # end of the current segment

    def at(self, i):
        return self.w[i] if i < self.stop else None

    # --- initial consonants -------------------------------------------
    def onsets(self, i, linked):
        a = self.at(i)
        if a not in _C:
            return
        sa, ca = SOUND[a], CLASS[a]
        b, c = self.at(i + 1), self.at(i + 2)

        def short_a(cls):
            return sa + "_a_" + T.spoken_tone(cls, "0", True, True)

        def long_o():
            return sa + "_C_" + T.spoken_tone(ca, "0", False, False)

        if b in _C:
            rohan = b == "ร" and c == "ร"
            if a in CLUSTER.get(b, ()) and not rohan:
                if not linked or a in CLUSTER_LINK[b]:
                    yield Onset(i + 2, sa, ca, {"ร": "r", "ล": "l", "ว": "w"}[b])
            if b == "ร" and not rohan:
                if a in FALSE_CLUSTER and not linked:
                    yield Onset(i + 2, sa, ca)
                if c is not None:
                    if syl_start(c):
                        if a in AURA:
                            yield Onset(i + 2, "r", "S", "_", "a", long_o(), True)
                    elif a == "บ" and c == T.SARA_I:
                        yield Onset(i + 3, "r", "S", "_", "i", long_o(), True)
                    elif a == "จ" and c == T.SARA_A:
                        yield Onset(i + 3, "r", "S", "_", "a", long_o(), True)
            if a == "ห" and CLASS[b] == "S" and not rohan:
                yield Onset(i + 2, SOUND[b], "H")
            if not rohan:
                yield Onset(i + 2, SOUND[b], ca if CLASS[b] == "S" else CLASS[b],
                            pre=short_a(ca))
            if a == "บ" and b == "ด" and c in (T.SARA_I, T.SARA_II):
                yield Onset(i + 1, sa, ca, "_", "C", None, True)
        elif b == T.RU and c not in (T.LAKKHANG, T.SARA_AA):
            if a in RI_CLUSTER:
                yield Onset(i + 2, sa, ca, "r", "i")
            elif a in RI_BOTH:
                yield Onset(i + 2, sa, ca, "_", "i")
                yield Onset(i + 2, "r", ca, "_", "i", short_a(ca))
            elif a in RUE_CLUSTER:
                yield Onset(i + 2, sa, ca, "r", "v")
            elif a in RUE_SEP:
                yield Onset(i + 2, "r", "S", "_", "v", short_a(ca))
            elif a in RUE_PEEK:
                if c in FINAL:
                    yield Onset(i + 2, sa, ca, "r", "v")
                else:
                    yield Onset(i + 2, "r", "S", "_", "v", short_a(ca), True)
            else:
                for v in "iv":
                    if a != "ห":
                        yield Onset(i + 2, sa, ca, "r", v)
                    yield Onset(i + 2, "r", "S", "_", v, short_a(ca))
                yield Onset(i + 2, "r", "S", "_", "v", short_a(ca), True)
        yield Onset(i + 1, sa, ca)
        if b is not None and syl_start(b):
            yield Onset(i + 1, sa, ca, "_", "a", None, True)

    # --- silenced letters ---------------------------------------------
    def karan1(self, p):
        if self.at(p) in _C and self.at(p + 1) == T.KARAN:
            return p + 2
        return p

    def karan_iu(self, p):
        if (self.at(p) in _C and self.at(p + 1) in (T.SARA_I, T.SARA_U)
                and self.at(p + 2) == T.KARAN):
            return p + 3
        return p

    def karan2(self, p):
        q = self.karan1(p)
        if q != p:
            return q
        if self.at(p) in _C and self.at(p + 1) in _C and self.at(p + 2) == T.KARAN:
            return p + 3
        return self.karan_iu(p)

    # --- finals: yield (end, linked, class) ---------------------------
    def coda(self, p, excl=""):
        c = self.at(p)
        if c in FINAL and c not in excl:
            yield self.karan2(p + 1), False, FINAL[c]

    def coda_link(self, p, excl=""):
        c = self.at(p)
        if c not in FINAL or c in excl:
            return
        f = FINAL[c]
        k = self.karan2(p + 1)
        yield k, False, f
        if k > p + 1 or p + 1 >= self.stop:
            return
        d = self.at(p + 1)
        nxt = d
        e = self.at(p + 2)
        ends = e is None or syl_start(e)
        if d in _C:
            if d == "ร" and c in CODA_RO and ends:
                yield p + 2, False, f
            if e is None:
                return
            nxt = e
        elif d in (T.SARA_I, T.SARA_U):
            if c in CODA_IU and ends:
                yield p + 2, False, f
                if e is None:
                    return
        if nxt in LINK_VOWELS or nxt in _C:
            yield p, True, f

    # --- rimes: yield (end, linked, onset, vowel, final, mark) ---------
    def tone(self, p):
        c = self.at(p)
        return (p + 1, TONE_OF[c]) if c in _TONE else (p, "0")

    def plain(self, i, linked):
        """Syllables starting with a consonant letter."""
        for o in self.onsets(i, linked):
            p = o.pos
            if p >= self.stop:
                continue
            if o.done:
                yield p, False, o, o.vowel, "_", "0"
                continue
            c = self.at(p)
            if c == T.HANAKAT:
                p, m = self.tone(p + 1)
                if p >= self.stop:
                    continue
                if self.at(p) == "ว":
                    p, v = p + 1, "T"
                    if self.at(p) == T.SARA_A:
                        p, v = p + 1, "t"
                    yield self.karan1(p), False, o, v, "_", m
                else:
                    for e, l, f in (self.coda_link if m == "0" else self.coda)(p):
                        yield e, l, o, "a", f, m
            elif c in UPLOW:
                v = UPLOW[c]
                p, m = self.tone(p + 1)
                if p >= self.stop or self.at(p) in _LEAD or v != "V":
                    k = self.karan1(p)
                    if k == p:
                        k = self.karan_iu(p)
                        if k != p:
                            yield k, False, o, v, "_", m
                            continue
                    yield k, False, o, v, "_", m
                    p = k
                if p < self.stop and self.at(p) not in _LEAD:
                    if v == "V":
                        if self.at(p) == "อ":
                            yield self.karan1(p + 1), False, o, v, "_", m
                        else:
                            for e, l, f in self.coda(p):
                                yield e, l, o, v, f, m
                    else:
                        ex = "ย" if v in "iI" else ""
                        fn = self.coda if v == "v" or m != "0" else self.coda_link
                        for e, l, f in fn(p, ex):
                            yield e, l, o, v, f, m
            elif c == T.TAIKHU:
                if self.at(p + 1) == "อ" and p + 2 < self.stop:
                    for e, l, f in self.coda(self.karan1(p + 2)):
                        yield e, l, o, "c", f, "0"
            else:
                yield from self.plain_rest(o, linked)

    def plain_rest(self, o, linked):
        p, m = self.tone(o.pos)
        c = self.at(p)
        if c is None:
            return
        if c == T.SARA_A:
            yield self.karan1(p + 1), False, o, "a", "_", m
        elif c == T.SARA_AA:
            p = self.karan1(p + 1)
            yield p, False, o, "A", "_", m
            for e, l, f in self.coda_link(p):
                yield e, l, o, "A", f, m
        elif c == T.SARA_AM:
            yield self.karan1(p + 1), False, o, "a", "m", m
        elif c == "ว":
            for e, l, f in self.coda(p + 1):
                yield e, l, o, "T", f, m
        elif c == "อ":
            p = self.karan1(p + 1)
            yield p, False, o, "C", "_", m
            for e, l, f in self.coda(p):
                yield e, l, o, "C", f, m
        elif c == "ร":
            p += 1
            if o.init != "r":
                p = self.karan1(p)
                yield p, False, o, "C", "n", m
            if self.at(p) == "ร":
                p += 1
                k = self.karan1(p)
                yield k, False, o, "a", "n", m
                if k == p:
                    for e, l, f in self.coda_link(p):
                        yield e, l, o, "a", f, m
        elif c in _C:
            if o.vowel is None:
                if o.sec != "w" and not linked:
                    for e, l, f in self.coda(p, "ยว"):
                        yield e, l, o, "o", f, m
            else:
                yield p, False, o, o.vowel, "_", m
                for e, l, f in self.coda_link(p, "ว"):
                    yield e, l, o, o.vowel, f, m

    def sara_e(self, i, linked):
        if i + 1 >= self.stop:
            return
        for o in self.onsets(i + 1, linked):
            if o.done:
                continue
            p = o.pos
            ee_ok = o.pre is None or o.init != "?"
            c = self.at(p)
            if c is None:
                if ee_ok:
                    yield p, False, o, "E", "_", "0"
            elif c == T.SARA_I:
                if p + 1 < self.stop:
                    p, m = self.tone(p + 1)
                    for e, l, f in self.coda(self.karan1(p)):
                        yield e, l, o, "W", f, m
            elif c in (T.SARA_II, T.SARA_UEE):
                glide, short, long = (("ย", "y", "Y") if c == T.SARA_II
                                      else ("อ", "z", "Z"))
                p, m = self.tone(p + 1)
                if self.at(p) != glide:
                    continue
                p += 1
                if self.at(p) == T.SARA_A:
                    yield self.karan1(p + 1), False, o, short, "_", m
                else:
                    p = self.karan1(p)
                    yield p, False, o, long, "_", m
                    fn = self.coda_link if long == "Y" else self.coda
                    for e, l, f in fn(p):
                        yield e, l, o, long, f, m
            elif c == T.TAIKHU:
                for e, l, f in self.coda(p + 1):
                    yield e, l, o, "e", f, "0"
            else:
                p, m = self.tone(p)
                c = self.at(p)
                if c is None:
                    yield p, False, o, "E", "_", m
                elif c == "อ":
                    if ee_ok:
                        yield self.karan1(p), False, o, "E", "_", m
                    p, v = p + 1, "W"
                    if self.at(p) == T.SARA_A:
                        p, v = p + 1, "w"
                    yield self.karan1(p), False, o, v, "_", m
                elif c == T.SARA_A:
                    if ee_ok:
                        yield self.karan1(p + 1), False, o, "e", "_", m
                elif c == T.SARA_AA:
                    if self.at(p + 1) == T.SARA_A:
                        yield self.karan1(p + 2), False, o, "c", "_", m
                    else:
                        yield self.karan1(p + 1), False, o, "a", "w", m
                elif c == "ย" and (p + 1 >= self.stop or syl_start(self.at(p + 1))):
                    yield self.karan1(p + 1), False, o, "W", "y", m
                elif ee_ok:
                    p = self.karan1(p)
                    yield p, False, o, "E", "_", m
                    for e, l, f in self.coda_link(p):
                        yield e, l, o, "E", f, m

    def other_lead(self, i, linked):
        if i + 1 >= self.stop:
            return
        lv = self.w[i]
        for o in self.onsets(i + 1, linked):
            if o.done:
                continue
            p, m = self.tone(o.pos)
            c = self.at(p)
            if lv == T.SARA_AE:
                if c == T.TAIKHU:
                    for e, l, f in self.coda(p + 1):
                        yield e, l, o, "x", f, m
                elif c == T.SARA_A:
                    yield self.karan1(p + 1), False, o, "x", "_", m
                else:
                    p = self.karan1(p)
                    yield p, False, o, "X", "_", m
                    for e, l, f in self.coda(p):
                        yield e, l, o, "X", f, m
            elif lv == T.SARA_O:
                v = "O"
                if c == T.SARA_A:
                    p, v = p + 1, "o"
                k = self.karan1(p)
                if k == p:
                    k = self.karan_iu(p)
                    if k != p:
                        yield k, False, o, v, "_", m
                        continue
                p = k
                yield p, False, o, v, "_", m
                if v == "O":
                    for e, l, f in self.coda_link(p):
                        yield e, l, o, v, f, m
            elif lv == T.MAIMALAI:
                if c == "ย" and (p + 1 == self.stop or syl_start(self.at(p + 1))):
                    yield p + 1, False, o, "a", "y", m
                yield self.karan1(p), False, o, "a", "y", m
            else:
                yield self.karan1(p), False, o, "a", "y", m

    def rulu(self, i):
        o = Onset(i + 1, "l" if self.w[i] == T.LU else "r", "S")
        c = self.at(i + 1)
        if c is None:
            yield i + 1, False, o, "v", "_", "0"
        elif c in (T.LAKKHANG, T.SARA_AA):
            yield i + 2, False, o, "V", "_", "0"
        elif c in _C:
            d = self.at(i + 2)
            if c not in FINAL or (d is not None and not syl_start(d)):
                yield i + 1, False, o, "v", "_", "0"
            else:
                v = "i" if c in RI_FINALS else "v"
                for e, l, f in self.coda_link(i + 1):
                    yield e, l, o, v, f, "0"

    def syllables(self, i, linked):
        c = self.w[i]
        if c in _C:
            return self.plain(i, linked)
        if c == T.SARA_E:
            return self.sara_e(i, linked)
        if c in _LEAD:
            return self.other_lead(i, linked)
        if c in (T.RU, T.LU):
            return self.rulu(i)
        return ()


def token_char(c):
    return c == "." or c in T.WORDCH


def abbreviation(w, i, stop):
    """Edges of the letter-name reading of an abbreviation at i, or None."""
    if i > 0 and w[i - 1] not in " .":
        return None
    j = i
    while j < stop and w[j] in _C and j - i < 5:
        j += 1
    n = j - i
    if n > 4:
        return None
    if j < stop and w[j] == ".":
        end = j + 1
    elif j >= stop and n == 1:
        end = j
    else:
        return None
    edges = []
    for k in range(i, j):
        e = end if k == j - 1 else k + 1
        edges.append((k, e, ("S", SOUND[w[k]] + "_C_" + ("4" if CLASS[w[k]] == "H" else "0"))))
    if n == 0:
        edges.append((i, end, ("L", ".")))
    return edges, end


def shift_pos(p, off):
    return p + off if p >= 0 else p - 101 * off


def analyse(chars, breaks=(), dic=None):
    """Set of (from, to, label) edges lying on a full reading of the text.
    dic: {key string: [[(syllable, end), ...], ...]}"""
    n = len(chars)
    if n == 0:
        return set()
    brk = sorted(b for b in breaks if 0 < b < n)

    def segment_stop(i):
        stop = n
        for b in brk:
            if b > i:
                stop = b
                break
        j = i
        while j < stop and token_char(chars[j]):
            j += 1
        return j

    trans = {}          # state -> [(edges, next state)]
    todo = [(0, False)]
    seen = {(0, False)}
    text = "".join(chars)
    keys = sorted(dic, key=len) if dic else ()

    def emit(out, edges, nxt, linked):
        # a full stop after a reading is absorbed by it
        if nxt < n and chars[nxt] == "." and chars[nxt - 1] not in " .":
            edges = [(a, nxt + 1 if b == nxt else b, l) for a, b, l in edges]
            nxt += 1
        st = (nxt, linked)
        out.append((edges, st))
        if st not in seen:
            seen.add(st)
            todo.append(st)

    while todo:
        st = todo.pop()
        i, linked = st
        out = trans[st] = []
        if i >= n:
            continue
        if not token_char(chars[i]):
            j = i
            while j < n and not token_char(chars[j]):
                j += 1
            emit(out, [(i, j, ("L", "".join(chars[i:j])))], j, False)
            continue
        token_stop = stop = segment_stop(i)
        if chars[i] != "." and "." in chars[i:stop]:
            stop = chars.index(".", i)
        found = False
        for key in keys:
            e = i + len(key)
            if e <= stop and text.startswith(key, i) and (e == stop or syl_start(chars[e])):
                found = True
                edges = []
                for alt in dic[key]:
                    a = i
                    for syl, end in alt:
                        b = shift_pos(end, i)
                        edges.append((a, b, ("S", syl)))
                        a = b
                emit(out, edges, e, False)
        if found:
            continue
        ab = abbreviation(chars, i, token_stop)
        if ab is not None:
            emit(out, ab[0], ab[1], False)
            continue
        for end, lnk, o, v, f, m in Reader(chars, stop).syllables(i, linked):
            s = T.make_syl(o.init, o.cls, o.sec, v, f, m)
            if o.pre is not None:
                mid = ("m", i, end)
                edges = [(i, mid, ("S", o.pre)), (mid, end, ("S", s))]
            else:
                edges = [(i, end, ("S", s))]
            emit(out, edges, end, lnk)

    # keep only what leads to the end of the text
    good = set()
    for st in sorted(trans, reverse=True):
        if st[0] >= n or any(t in good for _, t in trans[st]):
            good.add(st)
    res = set()
    if (0, False) in good:
        for st in good:
            for edges, t in trans[st]:
                if t in good:
                    res.update(edges)
    return res
