"""Reading of single respelled syllables by the rules of Thai orthography.
PHINTHU under a letter marks it as the first of a cluster or a leading HO."""

from . import thai as T

_P = T.PHINTHU
_MID = {"k": "ก", "j": "จ", "d": "ด", "t": "ต", "b": "บ", "p": "ป", "?": "อ"}
_PAIR = {"c": "ขค", "J": "ฉช", "T": "ถท", "P": "ผพ", "f": "ฝฟ", "s": "สซ", "h": "หฮ"}
_LOW = {"g": "ง", "y": "ย", "n": "น", "m": "ม", "r": "ร", "l": "ล", "w": "ว"}
ONSETS = []          # (spelling, sound, class, second)
for _sec, _tail in (("_", ""), ("r", _P + "ร"), ("l", _P + "ล"), ("w", _P + "ว")):
    for _s, _c in _MID.items():
        ONSETS.append((_c + _tail, _s, "M", _sec))
    for _s, _c in _PAIR.items():
        ONSETS.append((_c[0] + _tail, _s, "H", _sec))
        ONSETS.append((_c[1] + _tail, _s, "P", _sec))
    for _s, _c in _LOW.items():
        ONSETS.append((_c + _tail, _s, "S", _sec))
        ONSETS.append(("ห" + _P + _c + _tail, _s, "H", _sec))
_FINAL = {"k": "ก", "t": "ด", "p": "บ", "g": "ง", "n": "น", "m": "ม", "y": "ย", "w": "ว"}
_OPEN = [("a", "OMะ"), ("A", "OMา"), ("i", "OิM"), ("I", "OีM"), ("v", "OึM"), ("V", "OืMอ"), ("u", "OุM"), ("U", "OูM"),
         ("e", "เOMะ"), ("E", "เOM"), ("x", "แOMะ"), ("X", "แOM"), ("o", "โOMะ"), ("O", "โOM"), ("c", "เOMาะ"), ("C", "OMอ"),
         ("w", "เOMอะ"), ("W", "เOMอ"), ("y", "เOีMยะ"), ("Y", "เOีMย"), ("z", "เOืMอะ"), ("Z", "เOืMอ"), ("t", "OัMวะ"),
         ("T", "OัMว")]
_CLOSED = [("a", "OัMF"), ("A", "OMาF"), ("i", "OิMF"), ("I", "OีMF"), ("v", "OึMF"), ("V", "OืMF"), ("u", "OุMF"), ("U", "OูMF"),
           ("E", "เOMF"), ("X", "แOMF"), ("o", "OMF"), ("O", "โOMF"), ("C", "OMอF"), ("W", "เOิMF"), ("Y", "เOีMยF"),
           ("Z", "เOืMอF"), ("T", "OMวF")]
# short vowels marked by MAITAIKHU; a tone mark takes its place
_SHORTENED = [("e", "เO็F", "เOMF"), ("x", "แO็F", "แOMF"), ("c", "O็อF", "OMอF"), ("t", "O็วF", "OMวF")]
_MARKS = {"": "0", "่": "1", "้": "2", "๊": "3", "๋": "4"}


def table():
    """spelling -> set of syllables it may stand for."""
    tab = {}

    def put(form, on, mark, fin, sound, cls, sec, v, e):
        # the two upper marks belong to the mid class; elsewhere the last one
        # only stands for a rising tone that cannot be spelled otherwise
        if cls != "M" and (mark == "๊" or (mark == "๋" and not T.is_dead(v, e))):
            return
        sp = form.replace("O", on).replace("M", mark).replace("F", fin)
        tn = T.spoken_tone(cls, _MARKS[mark], T.is_dead(v, e), v in T.SHORT)
        tab.setdefault(sp, set()).add(sound + sec + v + e + tn)

    for on, sound, cls, sec in ONSETS:
        for m in _MARKS:
            for v, f in _OPEN:
                put(f, on, m, "", sound, cls, sec, v, "_")
            for e, fin in _FINAL.items():
                for v, f in _CLOSED:
                    # -aw is written as below, -iay/-oey and -E-y coincide
                    if (v, e) in (("a", "w"), ("E", "y"), ("W", "y")):
                        continue
                    put(f, on, m, fin, sound, cls, sec, v, e)
                for v, f0, f1 in _SHORTENED:
                    if m == "":
                        put(f0, on, m, fin, sound, cls, sec, v, e)
                    else:
                        put(f1, on, m, fin, sound, cls, sec, v, e)
            put("เOMา", on, m, "", sound, cls, sec, "a", "w")
            put("เOMย", on, m, "", sound, cls, sec, "W", "y")
            put("เOMย", on, m, "", sound, cls, sec, "E", "y")
    return tab


def exists(syl):
    """Syllables of the sound system: no dead syllable in the mid tone, no
    short diphthong (or short OE) before a final."""
    v, e, t = syl[2], syl[3], syl[4]
    if T.is_dead(v, e) and t == "0":
        return False
    return not (v in "yzw" and e != "_")
