"""Regular Thai spelling of single syllables, written from the orthography
(consonant classes, vowel forms, tone rules); independent of the reader."""

from . import thai as T

# onset spelling -> (initial sound, class, second consonant)
ONSETS = {c: (T.SOUND[c], T.CLASS[c], "_") for c in T.CONS if c not in "ฃฅ"}
for _a, _bs in {"ก": "รลว", "ข": "รลว", "ค": "รลว", "ต": "ร", "ป": "รล", "ผ": "ล", "พ": "รล",
                "บ": "รล", "ด": "ร", "ฟ": "รล", "ท": "ร"}.items():
    for _b in _bs:
        ONSETS[_a + _b] = (T.SOUND[_a], T.CLASS[_a], {"ร": "r", "ล": "l", "ว": "w"}[_b])
for _b in "งญนมยรลว":
    ONSETS["ห" + _b] = (T.SOUND[_b], "H", "_")

# vowel forms: O onset, M tone mark, F final letter
OPEN = [("a", "_", "OMะ"), ("A", "_", "OMา"), ("i", "_", "OิM"), ("I", "_", "OีM"), ("v", "_", "OึM"), ("V", "_", "OืMอ"),
        ("u", "_", "OุM"), ("U", "_", "OูM"), ("e", "_", "เOMะ"), ("E", "_", "เOM"), ("x", "_", "แOMะ"),
        ("X", "_", "แOM"), ("o", "_", "โOMะ"), ("O", "_", "โOM"), ("c", "_", "เOMาะ"), ("C", "_", "OMอ"),
        ("w", "_", "เOMอะ"), ("W", "_", "เOMอ"), ("y", "_", "เOีMยะ"), ("Y", "_", "เOีMย"), ("z", "_", "เOืMอะ"),
        ("Z", "_", "เOืMอ"), ("t", "_", "OัMวะ"), ("T", "_", "OัMว"), ("a", "m", "OMำ"), ("a", "y", "ไOM"),
        ("a", "y", "ใOM"), ("a", "y", "ไOMย"), ("a", "w", "เOMา"), ("W", "y", "เOMย")]
NOTONE = [("a", "n", "Oรร"), ("C", "n", "Oร")]
# vowel, form, final classes that never go with this form
CLOSED = [("a", "OัMF", "w"), ("A", "OMาF", ""), ("i", "OิMF", "y"), ("I", "OีMF", "y"), ("v", "OึMF", ""),
          ("V", "OืMF", ""), ("u", "OุMF", ""), ("U", "OูMF", ""), ("E", "เOMF", "y"), ("X", "แOMF", ""),
          ("o", "OMF", "yw"), ("O", "โOMF", ""), ("C", "OMอF", ""), ("W", "เOิMF", ""), ("Y", "เOีMยF", ""),
          ("Z", "เOืMอF", ""), ("T", "OMวF", "")]
CLOSED_NOTONE = [("a", "OรรF", "yw"), ("e", "เO็F", ""), ("x", "แO็F", ""), ("c", "O็อF", "")]
MARKS = ["", "่", "้", "๊", "๋"]


def forms():
    """All (vowel, end or None, form, excluded end classes, may carry a mark)."""
    for v, e, f in OPEN:
        yield v, e, f, "", True
    for v, e, f in NOTONE:
        yield v, e, f, "", False
    for v, f, x in CLOSED:
        yield v, None, f, x, True
    for v, f, x in CLOSED_NOTONE:
        yield v, None, f, x, False


def regular():
    """Every regular (spelling, syllable) without silenced letters."""
    for on, (init, cls, sec) in ONSETS.items():
        for v, e, form, excl, marked in forms():
            if form == "Oร" and (len(on) > 1 or on in "รหอ"):
                continue
            if form in ("Oรร", "OรรF") and len(on) > 1:
                continue
            if e is None:
                fins = [c for c in T.CONS if c in T.FINAL and c not in "ฃฅฉฌฝฟผซ" and T.FINAL[c] not in excl]
            else:
                fins = [None]
            for fc in fins:
                # spellings that are another form by rule: -ww-, a bare -r,
                # and a doubled RO
                if form == "OMF" and (fc == "ร" or on[1:] == "ว"):
                    continue
                if fc == "ร" and form in ("เOMF", "แOMF", "โOMF") and on[1:] == "ร":
                    continue
                end = e if fc is None else T.FINAL[fc]
                if form == "OMวF" and end == "w":
                    continue
                dead, short = T.is_dead(v, end), v in T.SHORT
                for m in MARKS if marked else MARKS[:1]:
                    k = T.TONE_OF[m]
                    if k in "34" and cls != "M":
                        continue
                    sp = form.replace("O", on).replace("M", m).replace("F", fc or "")
                    yield sp, init + sec + v + end + T.spoken_tone(cls, k, dead, short), (on, form, m, fc)
