"""Thai letters and their phonological values, written from the orthography
tables (not derived from the code under test)."""

CONS = "กขฃคฅฆงจฉชซฌญฎฏฐฑฒณดตถทธนบปผฝพฟภมยรลวศษสหฬอฮ"
assert len(CONS) == 44
LEAD = "เแโใไ"
TONES = "่้๊๋"
ABOVE = {"ิ": "i", "ี": "I", "ึ": "v", "ื": "V"}
BELOW = {"ุ": "u", "ู": "U"}
UPLOW = dict(ABOVE, **BELOW)
RU, LU = "ฤ", "ฦ"
SARA_A, HANAKAT, SARA_AA, SARA_AM = "ะ", "ั", "า", "ำ"
SARA_I, SARA_II, SARA_UE, SARA_UEE, SARA_U, SARA_UU = (
    "ิ", "ี", "ึ", "ื", "ุ", "ู")
SARA_E, SARA_AE, SARA_O, MAIMUAN, MAIMALAI = LEAD
LAKKHANG = "ๅ"
TAIKHU, KARAN = "็", "์"
PHINTHU = "ฺ"
WORDCH = set(CONS) | set(LEAD) | set(TONES) | set(UPLOW) | {
    RU, LU, SARA_A, HANAKAT, SARA_AA, SARA_AM, LAKKHANG, TAIKHU, KARAN}

_SOUND = {
    "k": "ก", "c": "ขฃคฅฆ", "g": "ง", "j": "จ", "J": "ฉชฌ", "y": "ญย",
    "d": "ฎด", "t": "ฏต", "T": "ฐฑฒถทธ", "n": "ณน", "b": "บ", "p": "ป",
    "P": "ผพภ", "f": "ฝฟ", "m": "ม", "r": "ร", "l": "ลฬ", "w": "ว",
    "s": "ซศษส", "h": "หฮ", "?": "อ",
}
SOUND = {c: s for s, cs in _SOUND.items() for c in cs}
INITS = "".join(_SOUND)            # 21 initial sounds
# consonant classes: H high, M mid, P low with a high counterpart, S low alone
CLASS = {}
for _c in "ขฃฉฐถผฝศษสห":
    CLASS[_c] = "H"
for _c in "กจฎฏดตบปอ":
    CLASS[_c] = "M"
for _c in "คฅฆชซฌฑฒทธพฟภฮ":
    CLASS[_c] = "P"
for _c in "งญณนมยรลวฬ":
    CLASS[_c] = "S"
assert len(SOUND) == 44 and len(CLASS) == 44
_FINAL = {
    "k": "กขฃคฅฆ", "g": "ง", "t": "จฉชซฌฎฏฐฑฒดตถทธศษส",
    "n": "ญณนรลฬ", "p": "บปผฝพฟภ", "m": "ม", "y": "ย", "w": "ว",
}
FINAL = {c: f for f, cs in _FINAL.items() for c in cs}
ENDS = "_ktpgnmyw"
SECS = "_rlw"
VOWELS = "aAiIvVuUeExXyYzZtToOcCwW"
SHORT = set("aivuexyztocw")
DEAD_END = set("ktp")
TONE_OF = {"": "0", TONES[0]: "1", TONES[1]: "2", TONES[2]: "3", TONES[3]: "4"}


def is_dead(vowel, end):
    return vowel in SHORT if end == "_" else end in DEAD_END


def spoken_tone(cls, mark, dead, short):
    """Tone rule of Thai orthography; mark is '0'..'4' (0 = unmarked)."""
    if mark == "0":
        if not dead:
            return "4" if cls == "H" else "0"
        if cls in "HM":
            return "1"
        return "3" if short else "2"
    if cls in "PS" and mark in "12":
        return {"1": "2", "2": "3"}[mark]
    return mark


def make_syl(init, cls, sec, vowel, end, mark):
    return (init + sec + vowel + end
            + spoken_tone(cls, mark, is_dead(vowel, end), vowel in SHORT))


def u16(s):
    """Python string -> list of one-character strings, one per UTF-16 unit."""
    b = s.encode("utf-16-be", "surrogatepass")
    return [chr((b[i] << 8) | b[i + 1]) for i in range(0, len(b), 2)]


def hex16(s):
    b = s.encode("utf-16-be", "surrogatepass")
    return b.hex() if b else "-"
