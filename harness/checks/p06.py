from checks.common import *

# vowel frames up to the place of the final
BODY = ["กั", "กา", "กิ", "กี", "กึ", "กื", "กุ", "กู", "เก", "เก็", "แก", "แก็", "โก", "ก", "กอ", "ก็อ", "เกิ", "เกีย",
        "เกือ", "กว", "กร", "กรร", "ฤ", "กฤ", "เกา", "ไก", "ใก", "กำ", "กะ", "เกะ", "แกะ", "โกะ", "เกาะ", "เกอะ", "เกอ",
        "เกียะ", "เกือะ", "กัว", "กัวะ", "สิ", "นุ", "หรา", "ครี", "พระ", "ฤๅ", "คฤ", "ศฤ", "นฤ", "หฤ"]
TONED = ["กั่", "ก้า", "กิ๊", "กี่", "กุ้", "กู๋", "เก่", "แก้", "โก่", "ก่", "ก้อ", "เกิ้", "เกี่ย", "เกื้อ", "ก้ว", "กึ่", "กื้",
         "เก้า", "ไก่", "ใก้", "ก้ำ", "น้า", "ข่า"]
END1 = list(T.CONS) + ["ิ", "ุ", "์", "ะ", "า", "ี", "ั", "เ", "ไ", "ฤ", "่", "็", "ๅ", "ำ", "ู", "ึ", "ื"]
END2 = list(T.CONS) + ["ิ", "ุ", "์", "า", "ะ", "เ", "ั", "ฤ"]
END3 = ["", "์", "า", "ก", "ร", "เ", "ิ", "น"]
TAIL = ["", "์", "ิ", "ุ", "ิ์", "ุ์", "ร", "ร์", "ก", "ก์", "ติ", "ต์", "ทร", "ทร์", "า", "ะ", "ัน", "ิน", "เ", "เก", "ตา", "รา",
        "ระ", "ษณ์", "ุ่", "ี", "ฤ", "น", "ู", "ีก์"]
ONS = ["ก", "ข", "ค", "น", "กร", "สร", "หม", "ทร", "ขน", "ตล", "พร", "อ", "ห", "ร", "บ", "จ", "ธ"]


def rime(rng):
    out = ""
    for _ in range(1 + int(rng.random() * 3)):
        f = gen.pick(rng, gen.FRAMES)
        f = f.replace("%s", gen.onset(rng) if rng.random() < .3 else gen.pick(rng, ONS))
        f = f.replace("%t", gen.tone(rng, .25)).replace("%c", gen.coda(rng))
        if rng.random() < .35:
            f += gen.pick(rng, TAIL)
        out += f
    if rng.random() < .3:
        out = gen.mutate(rng, out)
    return out[:13] or "กา"


def cat(x):
    return {"w": "".join(x)}


class P06(ModelCheck):
    ID = "P06"

    def phases(self, tier):
        big = tier == "thorough"
        n1, at1 = product(BODY + TONED, END1, END2)
        n2, at2 = product(BODY + TONED, list(T.CONS), TAIL)
        n3, at3 = product(BODY + TONED, END2, END2, END3)
        n4, at4 = product(BODY, ["ก", "ต", "ร", "น", "ย", "ว", "ห", "อ", "ท", "ธ"], ["", "่", "้"], TAIL, TAIL)
        heads, nexts = (["ก", "ข", "ค", "น", "กร", "หม", "ผล", "สร"], ["", "า", "ก", "เก", "ร", "์", "ิ"]) if big else (
            ["ก", "ข", "น", "กร"], ["", "า"])
        framed = [f for f in gen.FRAMES if "%c" in f and "%t" in f]
        n5, at5 = product(framed, heads, [""] + list(T.TONES), [""] + list(T.CONS), nexts)

        def frame(x):
            return {"w": x[0].replace("%s", x[1]).replace("%t", x[2]).replace("%c", x[3]) + x[4]}
        ph = [
            Phase("frames with tones and finals", n5, enum=lambda i: frame(at5(i)), exhaustive=True, chunk=2000, flavours=MIX),
            Phase("end pairs", n1, enum=lambda i: cat(at1(i)), exhaustive=True, chunk=2000, flavours=MIX),
            Phase("final and tail", n2, enum=lambda i: cat(at2(i)), exhaustive=True, chunk=2000, flavours=MIX),
            Phase("long", 30000 if big else 6000, gen=lambda r: {"w": long_text(r, rime), "seg": int(r.random() < .2)}, chunk=100, flavours=MIX),
            Phase("random", 2500000 if big else 450000, gen=lambda r: {"w": rime(r)}, chunk=2000, flavours=MIX),
        ]
        if big:
            ph.append(Phase("end triples", n3, enum=lambda i: cat(at3(i)), exhaustive=True, chunk=4000))
            ph.append(Phase("two tails", n4, enum=lambda i: cat(at4(i)), exhaustive=True, chunk=4000))
        else:
            ph.append(Phase("end triples (sampled)", 100000, gen=lambda r: cat(at3(r.randrange(n3))), chunk=2000))
        return ph


CHECK = P06()
