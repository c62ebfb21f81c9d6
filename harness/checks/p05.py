from checks.common import *

CTX = ["{}", "{}า", "{}น", "{}ิน", "{}ิ", "{}ี", "{}ะ", "{}ัน", "{}รน", "{}ร", "{}รร", "{}่อง", "{}ฤ", "{}ฤก", "{}ฤา",
       "{}ึก", "{}ือ", "{}ุ", "{}ู้", "{}อ", "{}วน", "{}็อก", "{}ำ", "เ{}", "เ{}า", "เ{}ียว", "เ{}อ", "เ{}ิน", "เ{}็น",
       "เ{}ย", "แ{}น", "โ{}", "ไ{}", "ใ{}้", "{}เก", "{}แม่", "กา{}า", "กั{}า", "มิ{}ิน", "ปุ{}ะ", "{}ๅ"]
PAIRS = [a + b for a in T.CONS for b in T.CONS]
CORE = "กขคจซดตทธนบปพมรลวศสหอฤ"


def sequence(rng):
    """Consonant sequences with a vowel frame around them, plus neighbours."""
    out = ""
    for _ in range(1 + int(rng.random() * 2)):
        n = 1 + int(rng.random() * 4)
        cs = "".join(gen.cons(rng) if rng.random() < .75 else gen.pick(rng, "รรลวหสบ") for _ in range(n))
        r = rng.random()
        if r < .6:
            out += gen.pick(rng, CTX).replace("{}", cs)
        elif r < .8:
            out += gen.pick(rng, gen.FRAMES).replace("%s", cs).replace("%t", gen.tone(rng)).replace("%c", gen.coda(rng))
        else:
            out += cs
    if rng.random() < .25:
        out = gen.mutate(rng, out)
    return out[:12] or "กร"


class P05(ModelCheck):
    ID = "P05"

    def phases(self, tier):
        big = tier == "thorough"
        n1, at1 = product(CTX, PAIRS)
        trip = CTX if big else ["{}", "{}า", "{}ิน", "เ{}น", "{}ร", "{}เก"]
        n2, at2 = product(trip, PAIRS, CORE)
        framed = [f for f in gen.FRAMES if "%s" in f]
        n4, at4 = product(framed, PAIRS, [""] + list(T.TONES), ["", "น", "ก"])

        def frame(x):
            return {"w": x[0].replace("%s", x[1]).replace("%t", x[2]).replace("%c", x[3])}
        n3, at3 = product(CTX, list(T.CONS) + ["ฤ", "ฦ"])
        return [
            Phase("single", n3, enum=lambda i: {"w": at3(i)[0].replace("{}", at3(i)[1])}, exhaustive=True,
                  flavours=("fast", "san")),
            Phase("pairs", n1, enum=lambda i: (lambda x: {"w": x[0].replace("{}", x[1])})(at1(i)), exhaustive=True,
                  flavours=MIX, chunk=1000),
            Phase("triples", n2, enum=lambda i: (lambda x: {"w": x[0].replace("{}", x[1] + x[2])})(at2(i)),
                  exhaustive=True, chunk=2000),
            Phase("framed pairs", 600000 if big else 150000, gen=lambda r: frame(at4(r.randrange(n4))), chunk=2000),
            Phase("long", 30000 if big else 6000, gen=lambda r: {"w": long_text(r, sequence), "seg": int(r.random() < .2)}, chunk=100, flavours=MIX),
            Phase("random", 2500000 if big else 500000, gen=lambda r: {"w": sequence(r)}, chunk=2000, flavours=MIX),
        ]


CHECK = P05()
