"""Expected notations, written from the published tables."""

from . import thai as T

_R_INIT = {"k": "k", "c": "kh", "g": "ng", "j": "ch", "J": "ch", "y": "y", "d": "d", "t": "t", "T": "th", "n": "n",
           "b": "b", "p": "p", "P": "ph", "f": "f", "m": "m", "r": "r", "l": "l", "w": "w", "s": "s", "h": "h", "?": ""}
_R_VOW = dict(zip("aAiIvVuUeExXyYzZtToOcCwW",
                  "a a i i ue ue u u e e ae ae ia ia uea uea ua ua o o o o oe oe".split()))
_R_END = {"_": "", "k": "k", "t": "t", "p": "p", "g": "ng", "n": "n", "m": "m", "y": "i", "w": "o"}
_P_INIT = dict(_R_INIT, j="j")
_P_VOW = dict(zip("aAiIvVuUeExXyYzZtToOcCwW",
                  "ah aa ih iy ueh uee uh uw eh ey aeh aee iah iaa ueah ueaa uah uaa oh ow aoh aow oeh oee".split()))
_P_END = dict(_R_END, y="y", w="w")


def roman_syl(c):
    return _R_INIT[c[0]] + c[1].replace("_", "") + _R_VOW[c[2]] + _R_END[c[3]]


def phonetic_syl(c):
    return _P_INIT[c[0]] + c[1].replace("_", "") + _P_VOW[c[2]] + _P_END[c[3]] + c[4]


def soundex_syl(c):
    v = c[2].lower()
    return ("l" if c[0] == "r" else c[0]) + v + c[3]


def element(notation, k, t, end):
    """Expected notation of one element (Thai: see respell)."""
    if k == "B":
        return " "
    if k == "L":
        return "(" + t + ")" + ("@%d" % end if notation == "w" else "")
    if notation == "r":
        return roman_syl(t)
    if notation == "p":
        return phonetic_syl(t)
    if notation == "s":
        return soundex_syl(t)
    if notation == "w":
        return "%s@%d" % (t, end)
    raise ValueError(notation)


def roman_string(s, capital=False):
    """Romanization of a whole string with the hyphen rules."""
    out = ""
    prev = None            # previous element in the same word
    for k, t, end in s:
        if k == "B":
            out += " "
            prev = None
            continue
        if k == "S" and prev is not None:
            if t[0] == "?" or (t[0] == "g" and prev == "_"):
                out += "-"
        out += element("r", k, t, end)
        prev = t[3] if k == "S" else "_"
    if capital and out[:1].isascii():
        out = out[:1].upper() + out[1:]
    return out


def delimited(elems, delim):
    """Join notations with a delimiter, blanks standing bare."""
    out, begin = "", True
    for e, blank in elems:
        if blank:
            out += " "
            begin = True
        else:
            out += ("" if begin else delim) + e
            begin = False
    return out
