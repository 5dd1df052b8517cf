"""P11: integer codecs, bound to Codec.tla."""
import vf

ALL = "-cc -cC -cd -cD -ce -cE -cF -cg -cG -cn -cp -cq -cQ -cr -cs -ct -cT -cv -cV -cx -cX -cZ -c128 -c256 -c32r -c64 nybble8 lyck16".split()
NOZERO = {"-cC", "-cd", "-cD", "-cg", "-cG", "-cQ", "-cT"}
UNCHECKED = {"-cd", "-cg", "-ce", "-cV", "-cx", "-cX", "-cZ"}


def values(rng, n, bits, zero):
    style = rng.random()
    lo = 0 if zero else 1
    out = []
    while len(out) < n:
        if style < 0.25:            # one width throughout, with now and then an exception
            w = rng.choice([w for w in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 20, 28, 30, 31, 32) if w <= bits])
            while len(out) < n:
                w2 = w if rng.random() < 0.97 else rng.randint(1, bits)
                out.append(rng.randint(max(lo, 1 << (w2 - 1)) if rng.random() < 0.5 else lo, (1 << w2) - 1))
        elif style < 0.6:           # runs of one width, values at its ends
            w = rng.randint(1, bits)
            for _ in range(rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 14, 28, 30, 60, 120])):
                out.append(rng.choice([(1 << w) - 1, max(lo, 1 << (w - 1)), lo if zero else 1]))
        elif style < 0.8:
            out += [rng.choice([1, 1, 1, lo, 2, 3])] * rng.choice([1, 3, 20, 60, 119, 120, 121, 239, 240, 241, 256])
        else:
            w = rng.randint(1, bits)
            out.append(rng.randint(lo, (1 << w) - 1))
    return out[:n]


def pack(vs):
    out, i = [], 0
    while i < len(vs):
        j = i
        while j < len(vs) and vs[j] == vs[i]:
            j += 1
        out.append("%d" % vs[i] if j - i == 1 else "%dx%d" % (vs[i], j - i))
        i = j
    return " ".join(out)


def length(rng, big):
    return rng.choice([1, 2, 3, 4, 5, 7, 8, 14, 15, 27, 28, 29, 30, 31, 60]) if not big else rng.choice([61, 64, 100, 119, 120, 121, 127, 128, 129, 240, 241, 255, 256, 257, 300, 511, 512, 513, 700, 1025])


def scenario(rng, n):
    lines = []
    for _ in range(n):
        c = rng.choice(ALL)
        x = rng.random()
        if x < 0.85:
            big = rng.random() < 0.35
            k = length(rng, big)
            bits = 8 if c == "nybble8" else rng.choice([2, 4, 8, 16, 16, 16, 17]) if c == "lyck16" else rng.choice([4, 8, 16, 28, 28, 30, 32])
            vs = values(rng, k, bits, c not in NOZERO)
            limit = 1024 + 16 * k + 8 * rng.randint(0, 4)
            if c not in UNCHECKED and rng.random() < 0.3:
                limit = 8 * rng.randint(1, max(1, min(k, 40) + 2))
            lines.append("codec %s %d %d %s" % (c, limit, 1 if k <= 130 else 0, pack(vs)))
        else:
            n_ = rng.choice([1, 1, 2, 4, 8, 33])
            vs, at = [], 0
            for _ in range(max(n_, length(rng, rng.random() < 0.3))):
                at += rng.choice([1, 1, 2, 100, 70000])
                vs.append(at)
            lines.append(("d1 %s" if rng.random() < 0.5 else "dn %d %%s" % n_) % pack(vs))
    return "\n".join(lines) + "\n"


def from_spec(rng, g):
    same = {"-cs": ["-cs", "-cp"], "-ct": ["-ct", "-cq"], "-cT": ["-cT", "-cQ", "-cC", "-ce", "-cE", "-c32r"], "-cr": ["-cr", "-cF"], "-cc": ["-cc", "-cx"],
            "-c64": ["-c64", "-c128", "-c256"], "-cv": ["-cv", "-cX", "-cZ"], "lyck16": ["lyck16"]}
    v = [x % (1 << 32) for x in g["v"]]
    out = []
    for c in same.get(g["c"], [g["c"]]):
        w = v if c not in NOZERO else [max(1, x) for x in v]
        out.append("codec %s %d %d %s" % (c, 1024 + 16 * len(w), 1 if len(w) <= 160 else 0, pack(w)))
        if c not in UNCHECKED:
            out.append("codec %s %d 0 %s" % (c, 8 * rng.randint(1, max(2, len(w) // 4)), pack(w)))
    return "\n".join(out) + "\n"


def run(c):
    c.model("Codec_MC.tla", "Codec_MC.cfg", workers=vf.NCPU if c.thorough else 4, timeout=1200)
    exe = vf.Builder().harness("codec.cpp")
    gen = [from_spec(c.rng, g) for g in c.generate("Codec_MC.tla", "Codec_gen.cfg", c.pick(60, 1500), 7, timeout=900)]
    scen = ["".join(gen[i:i + 12]) for i in range(0, len(gen), 12)]
    scen += [scenario(c.rng, 25) for _ in range(c.pick(60, 1500))]
    runs = c.run_all(exe, scen, timeout=60)
    c.log("ran %d scenarios" % len(scen))
    c.validate("CodecTrace.tla", "CodecTrace.cfg", runs, exe, scen)
    findings(c, exe)
    c.assumptions += ["destination buffers are whole multiples of eight bytes", "the decoder is given room to write up to 255 integers past the requested count",
                      "Carry-8b refuses lists that fit its first word (pinned by its own unit test)"]


def findings(c, exe):
    for k in c.known:
        text = "codec %s %d 0 %s\n" % (k["codec"], k["limit"], k["values"])
        ev, st, _ = c.run_one(exe, text)
        if st != "ok" or not ev or ev[-1]["past"] > 0 or ev[-1]["got"] > k["limit"]:
            c.known_finding(k["what"])
