"""P07-P10, P33: index construction, the files, quantisation and dumps, bound to Index.tla / IndexFiles.tla."""
import vf


def pct(s):
    b = s if isinstance(s, bytes) else s.encode("latin-1")
    return "".join(chr(x) if (48 <= x <= 57 or 65 <= x <= 90 or 97 <= x <= 122 or x == 45) else "%%%02X" % x for x in b)


def words(rng, n):
    """terms that sort awkwardly: prefixes of one another, digits, upper case, bytes above 127"""
    out = set()
    while len(out) < n:
        x = rng.random()
        alpha = b"ab" if x < 0.4 else b"abcxyz019AZ" if x < 0.8 else bytes([1, 32, 47, 127, 128, 200, 255, 97])
        out.add(bytes(rng.choice(alpha) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 8, 20, 60]))))
    out = sorted(out)
    rng.shuffle(out)
    return out


def key(rng, i):
    return rng.choice(["D%d" % i, "doc %d" % i, "WSJ-%d/x" % i, "k", "http://x.y/%d?a=b&c" % i, "\xe9%d" % i])


def build_docs(rng, ndocs, nterms, big_tf):
    """document at a time"""
    lines, names = ["new"], words(rng, nterms)
    used = set()
    for d in range(1, ndocs + 1):
        lines.append("begin " + pct(key(rng, d)))
        n = rng.choice([0, 1, 2, 5, 9, 14])
        total = 0
        for _ in range(n):
            t = rng.choice(names if rng.random() < 0.7 else names[:2])
            c = rng.choice([1, 1, 1, 2, 3]) if rng.random() < (0.6 if big_tf else 0.97) else rng.choice([7, 255, 256, 500, 1022, 1023, 1024, 1025, 2000, 65535])
            lines.append("tok %s %d" % (pct(t), c))
            used.add(t)
            total += c
        lines.append("end %d" % max(1, total))
        if rng.random() < 0.05 and used:
            lines.append("iterate")
    if not used:
        lines += ["begin z", "tok a 1", "end 1"]
        names, used = [b"a"], {b"a"}
    return lines, names


def build_lists(rng, ndocs, nterms, impacts):
    """a list at a time"""
    names = words(rng, nterms)
    lines = ["new", "keys " + " ".join(pct(key(rng, i)) for i in range(1, ndocs + 1))]
    for t in names:
        p = rng.choice([0.01, 0.1, 0.5, 1.0])
        docs = [d for d in range(1, ndocs + 1) if rng.random() < p] or [rng.randint(1, ndocs)]
        if rng.random() < 0.2:
            docs = sorted(set(docs + [1, ndocs]))
        lines.append("list %s %s" % (pct(t), " ".join("%d:%d" % (d, rng.choice(impacts)) for d in docs)))
    return lines, names


def probes(rng, names):
    ps = [rng.choice(names) for _ in range(4)]
    ps += [ps[0] + b"a", ps[1][:-1] or b"q", b"zzzz", b"\x01", bytes([255]), ps[2][:-1] + bytes([max(1, ps[2][-1] - 1)]), ps[3][:-1] + bytes([min(255, ps[3][-1] + 1)])]
    return " ".join(pct(p) for p in ps if p)


def impacts(rng):
    return rng.choice([[1], [1, 2], [1, 2, 3, 9], list(range(1, 30)), [1, 1023, 1024], [255, 256, 127, 128], list(range(1, 1025))])


def build_gaps(rng):
    """few documents with words, far apart"""
    lines, names = ["new"], words(rng, 3)
    for d in range(rng.choice([2, 4, 6])):
        gap = rng.choice([0, 1, 126, 127, 128, 129, 300]) if rng.random() < 0.6 else rng.choice([16382, 16383, 16384, 16385, 20000])
        lines += ["skip %d" % gap] if gap else []
        lines.append("begin " + pct(key(rng, d)))
        lines += ["tok %s %d" % (pct(t), rng.choice([1, 1, 3, 200])) for t in rng.sample(names, rng.randint(1, len(names)))]
        lines.append("end %d" % rng.choice([1, 5, 300]))
    return lines, [t for t in names if any(l.startswith("tok %s " % pct(t)) for l in lines)]


def build(rng, big):
    if rng.random() < 0.15:
        return build_gaps(rng)
    if rng.random() < 0.5:
        return build_docs(rng, rng.choice([1, 2, 5, 12]) if not big else rng.choice([40, 130]), rng.choice([1, 2, 6, 15]), rng.random() < 0.4)
    nd = rng.choice([1, 2, 3, 7, 20, 60]) if not big else rng.choice([127, 128, 129, 255, 257, 513, 700])
    return build_lists(rng, nd, rng.choice([1, 2, 4]) if big else rng.choice([1, 3, 8]), impacts(rng))


def scen_memory(rng, big):
    lines, names = build(rng, big)
    lines += ["iterate", "render"] if not big else ["iterate"]
    lines += ["impacts"]
    return lines


def scen_v1(rng, big):
    lines, names = build(rng, big)
    for c, a in rng.sample([("s", 1), ("s", 16), ("q", 16), ("G", 1), ("g", 4), ("D", 16)], 3):
        lines.append("write x%s 1 %s %d%s" % (c, c, a, " bytes" if not big or c == "s" else ""))
        lines.append("read x%s 1 %s" % (c, probes(rng, names)))
    lines.append("read nowhere 1 a")
    return lines


def scen_v2(rng, big):
    lines, names = build(rng, big)
    for c in rng.sample("sGgD", 3):
        lines.append("write y%s 2 %s 1%s" % (c, c, " bytes" if not big or c == "s" else ""))
        lines.append("read y%s 2 %s" % (c, probes(rng, names)))
    c = rng.choice("sqGgD")
    lines.append("write x%s 1 %s 16" % (c, c))
    lines.append("read x%s 1 %s" % (c, probes(rng, names)))
    lines.append("read nowhere 2 a")
    return lines


def scen_quant(rng, big):
    lines, names = build_docs(rng, rng.choice([2, 5, 12]) if not big else rng.choice([40, 80]), rng.choice([2, 6, 15]), rng.random() < 0.5)
    lines.append("impacts")
    for _ in range(3):
        lines.append("quantize %d %d %d" % (rng.choice([0, 1, 3, 10]), rng.choice([0, 1, 2, 50]), rng.choice([0, 1, 5])))
    lines.append("quantize_none")
    for _ in range(3):
        lines.append("bm25 %d %d" % (rng.choice([50, 90, 120, 200]), rng.choice([10, 40, 75, 90])))
    if rng.random() < 0.3:
        l2, names = build_lists(rng, rng.choice([5, 60]), 3, impacts(rng))
        lines += l2 + ["quantize 1 0 0", "quantize_none"]
    return lines


def scen_dump(rng, big):
    lines, names = build_docs(rng, rng.choice([1, 3, 8]) if not big else 30, rng.choice([1, 4, 10]), False)
    lines = [l for l in lines if not l.startswith("tok") or "%" not in l]
    lines += ["begin last", "tok a 3", "tok b 1", "end 4", "integers", "forward"]
    return lines


def gen_to_text(ops):
    out = []
    for o in ops:
        k = o["op"]
        if k == "begin":
            out.append("begin D%d" % o["v"])
        elif k == "end":
            out.append("end %d" % o["v"])
        elif k == "tok":
            out.append("tok %s %d" % (o["t"], o["v"]))
        elif k == "quantize":
            out.append("quantize %d %d %d" % (o["a"], o["b"], o["d"]))
        elif k == "bm25":
            out.append("bm25 %d %d" % (o["a"], o["b"]))
        elif k == "write":
            out.append("write %s %d %s %d bytes" % (o["dir"], o["version"], o["codec"], o["align"]))
        elif k == "read":
            out.append("read %s %d a aa ab abc b b9 zz Z zzz A" % (o["dir"], o["version"]))
        else:
            out.append(k)
    return "\n".join(out) + "\n"


PROPS = {"P07": (scen_memory, "memory"), "P08": (scen_v1, "files"), "P09": (scen_v2, "files"), "P10": (scen_quant, "order"), "P33": (scen_dump, "dumps")}
COUNT = {"quick": (40, 8, 40), "thorough": (900, 100, 800)}


def run(c):
    scen_f, flavour = PROPS[c.prop]
    c.model("Index_MC.tla", "Index_MC.cfg" if not c.thorough else "Index_MC_big.cfg", workers=4 if not c.thorough else vf.NCPU, timeout=3000, heap="8g")
    exe = vf.Builder().harness("index.cpp")
    small, big, gen = COUNT[c.tier]
    scen = [gen_to_text(g) for g in c.generate("IndexGen.tla", "IndexGen_%s.cfg" % flavour, gen, 47)]
    scen += ["\n".join(scen_f(c.rng, False)) + "\n" for _ in range(small)] + ["\n".join(scen_f(c.rng, True)) + "\n" for _ in range(big)]
    runs = c.run_all(exe, scen, timeout=120)
    c.log("ran %d scenarios" % len(scen))
    c.validate("IndexTrace.tla", "IndexTrace.cfg", runs, exe, scen, run_timeout=120)
    if c.prop == "P09":
        qmx_v2(c, exe)
    c.assumptions += ["the order in which the in-memory index visits its terms is unspecified",
                      "a quantised score that is an exact quotient may be rounded down by one in floating point"]


def qmx_v2(c, exe):
    """Known finding: the second format ignores the alignment QMX needs; decoding such lists faults."""
    for k in c.known:
        text = "new\n" + "".join("begin d%d\ntok a %d\ntok b 1\nend 3\n" % (i, 1 + i % 3) for i in range(1, 9)) + "write q 2 q 16\nread q 2 a b\n"
        ev, st, tail = c.run_one(exe, text)
        bad = st.startswith("crash")
        if not bad:
            ok, _, _ = c.accept("IndexTrace.tla", "IndexTrace.cfg", [{"e": "reset"}] + ev)
            bad = not ok
        if bad:
            c.known_finding(k["what"])
