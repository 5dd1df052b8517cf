"""P12 (heaps, beaps, top-k sorting), P27 (accumulators and vector access), P29 (bit strings and streams)."""
import vf

MODELS = {"P12": [("Heaps_MC", "Heaps_gen", 14), ("TopK_MC", "TopK_gen", 13)], "P27": [("Accum_MC", "Accum_gen", 61)], "P29": [("Bits_MC", "Bits_gen", 26)]}
KINDS = ["2d", "c8", "c4", "i8", "i4", "i81", "i832", "i432"]


def csv(v):
    return ",".join(map(str, v)) or "-"


def array(rng, n, v=None):
    v = v or rng.choice([2, 4, 10, 1000, 2000000000])
    style = rng.random()
    a = [rng.randint(0, v) for _ in range(n)]
    if style < 0.15:
        a.sort()
    elif style < 0.3:
        a.sort(reverse=True)
    elif style < 0.4:
        a = [a[0]] * n
    elif style < 0.5:
        a = sorted(a)[:n // 2] + sorted(a, reverse=True)[:n - n // 2]
    return a


def heap(rng):
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 15, 16, 21, 22, 28, 29, 40, 40, 64, 100, 200])
    a = array(rng, n, rng.choice([3, 8, 100]))
    kind = rng.choice(["heap", "beap"])
    ops = ["m"]
    key = lambda: rng.choice(a + [-1, 0, max(a) + 1, rng.randint(0, max(a) + 1)])
    for _ in range(rng.choice([4, 12, 25])):
        if kind == "heap":
            ops.append(rng.choice(["p:%d" % key(), "f:%d" % key(), "m"] if rng.random() < 0.7 else ["u:%d:%d" % (rng.randrange(n), max(a) + rng.randint(0, 3))]))
            if ops[-1][0] in "pu":
                a.append(int(ops[-1].split(":")[-1]))
        else:
            x, y = key(), key()
            o = rng.choice("ffsrrrrlegq")
            if o in "lg" and y < x or o in "eq" and y > x:
                x, y = y, x
            if o in "gq":       # the caller guarantees the key is there: only replace what a `find` on the same array would
                o = {"g": "l", "q": "e"}[o]
            if o == "s":
                x = max(a) + rng.randint(0, 2)
            ops.append("%s:%d:%d" % (o, x, y) if o in "rle" else "%s:%d" % (o, x))
            a.append(y if o in "rle" else x)
    return "%s %s %s" % (kind, csv(a[:n]), " ".join(ops))


def sure(rng):
    """beap with the calls whose caller guarantees the key exists: distinct keys followed through the script"""
    n = rng.randint(1, 25)
    a = rng.sample(range(100), n)
    ops, now = ["m"], list(a)
    for _ in range(15):
        k = rng.randrange(n)
        y = rng.randint(0, 120)
        o = "g" if y >= now[k] else "q"
        ops.append("%s:%d:%d" % (o, now[k], y))
        now[k] = y
    return "beap %s %s" % (csv(a), " ".join(ops))


def topk(rng):
    k = rng.choice([1, 2, 3, 5, 10, 33])
    kind = rng.choice(["plain", "boxed"])
    v = rng.choice([3, 10, 1000])
    ops = []
    for _ in range(rng.choice([5, 15, 40, 100])):
        o = rng.choice("ppppppfs" if kind == "plain" else "ppppfsbbb")
        ops.append("p:%d" % rng.randint(0, v) if o == "p" else "b:%d:%d" % (rng.randrange(10), rng.choice([1, 1, 2, v])) if o == "b" else o)
    return "topk %s %d %s" % (kind, k, " ".join(ops))


def sort(rng):
    n = rng.choice([0, 1, 2, 6, 7, 8, 9, 20, 39, 40, 41, 42, 80, 100, 200, 400])
    return "sort %d %s" % (rng.choice([1, 1, 2, 5, 10, max(1, n // 2), max(1, n - 1), n + 1, n or 1]), csv(array(rng, n) if n else []))


def p12(rng):
    return rng.choice([heap, heap, sure, topk, topk, sort])(rng)


def acc(rng):
    kind = rng.choice(KINDS)
    ops = []
    n = 0
    bits = rng.choice(["16", "16", "32", "8"])
    hot = []
    for _ in range(rng.choice([10, 40, 120])):
        if n == 0 or rng.random() < 0.03:
            n = rng.choice([1, 2, 5, 20, 21, 22, 25, 63, 64, 65, 100, 255, 256, 257, 999, 1000])
            ops.append("I:%d:%d" % (n, rng.choice([0, 1, 2, 3, 5, 7] if n < 950 else [0, 1, 4, 5])))
            hot = [rng.randrange(n) for _ in range(6)] + [0, n - 1]
        i = rng.choice(hot) if rng.random() < 0.7 else rng.randrange(n)
        x = rng.choice([1, 2, 7, 255, 65535])
        o = rng.choice("aaaassgggggzxrrRvV")
        lanes = lambda k: csv([rng.choice(hot) if rng.random() < 0.6 else rng.randrange(n) for _ in range(k)])
        ops.append({"a": "a:%d:%d" % (i, x), "s": "s:%d:%d" % (i, x), "g": "g:%d" % i, "z": "z", "x": "x:%d" % i, "r": "r",
                    "R": "R:%d" % rng.choice([2, 14, 15, 16, 30, 254, 255, 256, 511]), "v": "v:" + lanes(8), "V": "V:" + lanes(16)}[o])
    return "acc %s/%s %s" % (kind, bits, " ".join(ops))


def simd(rng):
    o = rng.choice(["gather", "scatter", "sum"])
    if o == "sum":
        return "simd sum 32 %d %s" % (rng.choice([8, 16]), csv([rng.choice([0, 1, rng.randint(0, 100), rng.randint(0, 100000000)]) for _ in range(16)]))
    lanes = rng.choice([8, 16] if o == "gather" else [4, 8, 16])
    at = [rng.choice([0, 1, 299, rng.randrange(300)]) for _ in range(lanes)]
    if o == "scatter":
        at = rng.sample(range(300), lanes)
    return "simd %s %s %d %s %s" % (o, rng.choice(["8", "16", "32"]), lanes, csv(at), csv([rng.choice([0, 1, 255, 256, 65535, 65536, rng.randint(0, 2000000000)]) for _ in range(lanes)]))


def p27(rng):
    return rng.choice([acc, acc, acc, simd])(rng)


def bits(rng):
    ops = []
    top = rng.choice([3, 70, 200, 600])
    place = lambda: rng.choice([0, 1, 7, 8, 63, 64, 65, 127, 128, top, rng.randint(0, top)])
    for s in range(4):
        if rng.random() < 0.8:
            ops.append("n:%d:%d" % (s, place()))
    for _ in range(rng.choice([8, 30, 60])):
        o = rng.choice("nn+++++--??oxadcci01zb")
        s = rng.randrange(4)
        ops.append("%s:%d:%d:%d" % (o, s, rng.randrange(4), rng.randrange(4)) if o in "oxad" else "%s:%d" % (o, s) if o in "c01zb" else "%s:%d:%d" % (o, s, place()))
    return "bits " + " ".join(ops)


def stream(rng):
    ops, n = [], 0
    want = rng.choice([0, 1, 31, 32, 33, 64, 96, 128, rng.randint(1, 400)])
    while n < want:
        o = rng.choice("01zbbb")
        k = 1 if o in "01" else min(want - n, rng.choice([1, 2, 5, 31, 32, 33, 63, 64, 70]) if o == "z" else rng.choice([1, 2, 5, 8, 31, 32, 33, 63, 64]))
        ops.append(o if o in "01" else "z:%d" % k if o == "z" else "b:%d:%d" % (rng.choice([0, (1 << k) - 1, rng.getrandbits(k), 1 << (k - 1)]), k))
        n += k
    room = rng.choice([(n + 7) // 8, (n + 31) // 32 * 4, (n + 31) // 32 * 4, max(0, (n + 31) // 32 * 4 - 4), (n + 31) // 32 * 4 + 4, (n + 31) // 32 * 4 + 3, 1000])
    return "stream %d %s" % (room, " ".join(ops))


def p29(rng):
    return rng.choice([bits, bits, stream])(rng)


FAMILY = {"P12": p12, "P27": p27, "P29": p29}


def from_spec(rng, cfg, g):
    d = g["did"]
    if cfg == "Heaps_gen":
        return "%s %s %s" % (g["kind"], csv(d[0][1]), " ".join(":".join(map(str, o)) for o in d[1:]))
    if cfg == "TopK_gen":
        n, out = 0, []
        for o in d:
            # a value growing in place is named by what it was: the boxed elements are tried in turn, so use the position
            out.append({"p": "p:%d" % o[1], "f": "f", "s": "s", "b": "b:%d:%d" % (rng.randrange(3), max(1, o[3] - o[2]))}[o[0]])
        return "topk %s %d %s" % ("boxed" if any(o[0] == "b" for o in d) else rng.choice(["plain", "boxed"]), g["k"], " ".join(out))
    if cfg == "Accum_gen":
        ops = []
        for o in d:
            ops.append({"I": "I:%d:%d" % (o[1], o[2]), "a": "a:%d:%d" % (o[1], o[2]), "r": "r"}[o[0]])
            if o[0] == "I":
                n = o[1]
            if rng.random() < 0.4:
                ops += ["g:%d" % rng.randrange(n)]
        ops += ["g:%d" % i for i in range(0, n)]
        return "\n".join("acc %s/%s %s" % (k, b, " ".join(ops)) for k, b in zip(KINDS, rng.choice([["16", "32"] * 4, ["8", "16"] * 4])))
    ops = []
    for o in d:
        ops.append("%s:%d:%d:%d" % tuple(o[:4]))
        if rng.random() < 0.3:
            ops.append("c:%d" % rng.randrange(3))
    return "bits " + " ".join(ops) + " c:0 c:1 c:2 z:0 z:1 z:2 b:0 b:1 b:2"


def run(c):
    c.memory_limit = None
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0"}
    exe = vf.Builder(extra=["-fsanitize=address"]).harness("structs.cpp")
    scen = []
    for mc, gen, depth in MODELS[c.prop]:
        c.model(mc + ".tla", mc + ("_big" if c.thorough else "") + ".cfg", workers=vf.NCPU if c.thorough else 4, timeout=3000, heap="8g")
        g = c.generate(mc + ".tla", gen + ".cfg", c.pick(150, 3000), depth, timeout=900, limit=c.pick(400, 20000))
        lines = [from_spec(c.rng, gen, x) for x in g]
        scen += ["\n".join(lines[i:i + 10]) + "\n" for i in range(0, len(lines), 10)]
    f = FAMILY[c.prop]
    scen += ["".join(f(c.rng) + "\n" for _ in range(c.pick(30, 60))) for _ in range(c.pick(60, 800))]
    runs = c.run_all(exe, scen, timeout=60, env=env)
    c.log("ran %d scenarios" % len(scen))
    c.validate("StructsTrace.tla", "StructsTrace.cfg", runs, exe, scen, run_env=env)
    c.assumptions += {"P12": ["a heap, beap or bounded heap holds at least one element", "promoted values only grow"],
                      "P27": ["accumulators are initialised before use and indexed within their size"],
                      "P29": ["positions passed to the unchecked calls are within range", "at most 64 bits are pushed or read at once"]}[c.prop]
