"""P31: general purpose compression (General.tla).  P38: arithmetic on bits (Arithmetic.tla)."""
import vf

KINDS = {"u8": 8, "u16": 16, "u32": 32, "i32": 31, "u64": 64}


def history(rng, h):
    lines = ["object %s" % k for k in ("zlib", "zstd", rng.choice(["zlib", "zstd"]))]
    scale = rng.choice([1, 2, 30, 400, 3000, rng.choice([20000, 60000])])
    count = {0: 0, 1: 0, 2: 0}
    for o in h:
        obj = rng.choice([0, 1, 0, 1, 2])
        if o["op"] == "encode":
            chunks = " ".join(("r%dx%d" if s % 2 else "%dx%d") % (s, max(1, rng.choice([scale, scale, scale // 3, scale + 1]))) for s in o["src"])
            if rng.random() < 0.05:
                chunks = ""
            limit = "+%d" % rng.randint(0, 9) if o["limit"] >= 2048 or rng.random() < 0.3 else str(o["limit"]) if o["limit"] <= 2 else rng.choice(["n", "n-1", "n+12", "n-%d" % rng.randint(1, 999), str(rng.randint(3, 200))])
            lines.append("encode %d %s %s" % (obj, limit, chunks))
            if rng.random() < 0.4:
                lines.append("encode %d g%s %s" % (obj, rng.choice(["", "-1", "-2", "-%d" % rng.randint(3, 40), "+1"]), chunks))
        else:
            k = o["k"] - 1
            cut = "0" if o["cut"] == 0 else rng.choice(["1", "2", "4", "5", "p%d" % rng.randint(1, 999), "p999"])
            room = rng.choice(["n", "n", "+5", "n+1"]) if o["cut"] or o["hurt"] or rng.random() < 0.4 else rng.choice(["n-1", "0", "n-7", "n", "n+1", "n+70000"])
            # a piece belongs to the compressor that made it, and any object of its kind undoes it
            lines.append("decode %s %d %s %s %d" % ("@", k, room, cut, rng.randint(0, 1 << 20) if o["hurt"] else -1))
    return lines


def one_kind(rng, h):
    kind = rng.choice(["zlib", "zstd"])
    lines = history(rng, h)
    out = []
    for l in lines:
        w = l.split(" ")
        if w[0] == "object":
            w[1] = kind
        elif w[0] == "encode":
            w[1] = str(rng.randint(0, 2))
        else:
            w[1] = str(rng.randint(0, 2))
        out.append(" ".join(w).rstrip())
    return "\n".join(out) + "\n"


def run(c):
    c.model("General_MC.tla", "General_MC_big.cfg" if c.thorough else "General_MC.cfg", workers=vf.NCPU if c.thorough else 4, timeout=3000)
    exe = vf.Builder().harness("general.cpp")
    gen = c.generate("General_MC.tla", "General_gen.cfg", c.pick(300, 4000), 15, timeout=600)
    scen = [one_kind(c.rng, h) for h in gen]
    runs = c.run_all(exe, scen, timeout=15)
    c.log("ran %d histories" % len(scen))
    c.validate("GeneralTrace.tla", "GeneralTrace.cfg", runs, exe, scen)
    c.assumptions += ["sources of at most some hundreds of kilobytes", "room enough for any source is taken as its length, a thirty-second more and a kilobyte",
                      "a piece whose bytes were changed may decode to anything within the room given"]


def values(rng, bits, n):
    top = (1 << bits) - 1
    out = []
    for _ in range(n):
        k = rng.randint(0, bits)
        v = rng.choice([(1 << k) - 1, 1 << k, (1 << k) + 1, rng.randint(0, top), rng.randint(0, (1 << k)), rng.getrandbits(bits) >> rng.randint(0, bits) << rng.randint(0, bits),
                        (top << k) & top, (rng.getrandbits(bits) << k) & top])
        out.append(min(max(v, 0), top) if v <= top else v & top)
    return out


def arithmetic(c):
    c.model("Arithmetic_MC.tla", "Arithmetic_MC_big.cfg" if c.thorough else "Arithmetic_MC.cfg", workers=1, timeout=1200)
    exe = vf.Builder().harness("general.cpp")
    scen = ["log u8 " + " ".join(map(str, range(256))) + "\n", "root u32 " + " ".join(map(str, range(2000))) + "\n"]
    for lo in range(0, 65536, 1024 if c.thorough else 8192):
        scen.append("log u16 %s\n" % " ".join(map(str, range(lo, lo + 1024))))
    for k, bits in sorted(KINDS.items()):
        powers = sorted({v & ((1 << bits) - 1) for p in range(bits) for v in ((1 << p) - 1, 1 << p, (1 << p) + 1, ((1 << bits) - 1) ^ ((1 << p) - 1))})
        scen.append("log %s %s\n" % (k, " ".join(map(str, powers))))
        if bits < 31:
            scen += ["log %s %s\n" % (k, " ".join(map(str, values(c.rng, bits, 400)))) for _ in range(c.pick(2, 20))]
            continue
        squares = [r * r + d for r in list(range(1, 60)) + [255, 256, 4095, 46340] for d in (-1, 0, 1)]
        scen.append("root %s %s\n" % (k, " ".join(str(v) for v in squares if v < min(1 << bits, 1 << 31))))
        for _ in range(c.pick(6, 60)):
            scen.append("log %s %s\n" % (k, " ".join(map(str, values(c.rng, bits, 400)))))
            scen.append("root %s %s\n" % (k, " ".join(map(str, values(c.rng, 31, 200)))))
    runs = c.run_all(exe, scen, timeout=60)
    c.validate("ArithmeticTrace.tla", "ArithmeticTrace.cfg", runs, exe, scen)
    c.assumptions += ["square roots are compared for values below 2^31 (TLC's integers)"]
