"""P23 (the indexer, end to end), P24 (importing an index), P32 (the search program, end to end)."""
import os
import struct
import vf

TOOLS = ("tools/JASS_index.cpp", "tools/JASSv1_to_human.cpp", "anytime/JASS_anytime.cpp", "tools/ciff_to_JASS.cpp")


def pct(b):
    b = b if isinstance(b, bytes) else b.encode()
    return "".join("%%%02X" % x for x in b)


VOCAB = [b"cat", b"dog", b"running", b"runs", b"the", b"The", b"relational", b"x", b"it", b"2020", b"3", b"caf\xc3\xa9", b"\xce\xa9mega", b"hopping", b"generalizations", b"sky"]


def prose(rng, n):
    out = []
    for _ in range(n):
        k = rng.random()
        w = rng.choice(VOCAB)
        out.append(w if k < 0.8 else rng.choice([b"<b>", b"</b>", b"<br/>", b"&", b"'", b"a1b2", b"word%d" % rng.randint(0, 99), b"<!-- the cat -->", b"u.s.", b"."]))
    return rng.choice([b" ", b" ", b"\n"]).join(out)


def collection(rng, big=False):
    """(format, k, text)"""
    n = rng.choice([1, 2, 3, 5, 9, 20]) if not big else rng.choice([40, 64])
    k = rng.random()
    if k < 0.55:
        t = b""
        for i in range(n):
            t += b"<DOC>%s<DOCNO>%s</DOCNO>%s%s</DOC>" % (rng.choice([b"", b"\n"]), rng.choice([b" D-%d ", b"D-%d"]) % i, rng.choice([b"\n", b" "]), prose(rng, rng.choice([0, 1, 3, 10, 30])))
            t += rng.choice([b"", b"\n", b" \n\n"])
        return "trec", 0, t
    if k < 0.7:
        t = b""
        for i in range(n):
            t += b">seq%d %s\n" % (i, prose(rng, 2).replace(b"\n", b" ").replace(b">", b""))
            for _ in range(rng.choice([0, 1, 3])):
                t += bytes(rng.choice(b"ACGTacgtN" if rng.random() < 0.1 else b"ACGT") for _ in range(rng.choice([1, 5, 12, 20]))) + b"\n"
        return "fasta", rng.choice([1, 2, 3, 4, 8]), t
    t = []
    for i in range(n):
        names = rng.sample(["cat", "dog", "##ing", "running", "the", "a b", "caf\xe9", "2020", "<x>", "w%d" % i] + ["t%d" % j for j in range(30)], rng.choice([0, 1, 2, 8, 30]))
        v = ", ".join('"%s": %d' % (x, rng.choice([1, 2, 50, 94, 255, 256, 1023, 1024, 3000, rng.randint(1, 300)])) for x in names)
        t.append('{"id": "U%d", "contents": "%s", "vector": {%s}}' % (i, rng.choice(["The.", ""]), v))
    return "json", 0, ("\n".join(t) + rng.choice(["", "\n"])).encode()


def arg(rng, *forms):
    """an option and its value, joined or apart"""
    name, value = rng.choice(forms[:-1]), str(forms[-1])
    return [name + value] if rng.random() < 0.5 and not name.startswith("--") else [name, value]


def index(rng, n, big=False):
    fmt, k, t = collection(rng, big)
    name, lines = "c%d" % n, []
    a, version = [], rng.choice([1, 2])
    if fmt == "json":
        cut = sorted(rng.sample(range(len(t) + 1), 2)) if len(t) > 2 and rng.random() < 0.4 else [0, 0]
        parts = [t[:cut[0]], t[cut[0]:cut[1]], t[cut[1]:]]
        where = rng.choice(["gz", "gz", "dir"])
        if where == "gz":
            lines.append("gz %s %s" % (name, " ".join(pct(p) for p in parts if p)))
            target = name
        else:
            target, name = name, name + "/" + rng.choice(["only", "only.json.gz"])
            lines.append("%s %s %s" % ("gz" if name.endswith(".gz") else "file", name, pct(t)))
        a.append(["-djc"] if rng.random() < 0.7 else ["--document_JSON_uniCOIL"])
    else:
        target = name
        lines.append("file %s %s" % (name, pct(t)))
        if fmt == "fasta":
            a.append(arg(rng, "-IF", "--index_FASTA", k))
        elif rng.random() < 0.2:
            a.append(["-dt"])
    a.append(arg(rng, "-f", "--filename", target))
    a.append([rng.choice(["-I%d", "--index_jass_v%d"]) % version])
    stem, atire = rng.random() < 0.4, rng.random() < 0.2
    if stem:
        a.append(["-tp"])
    if atire:
        a.append(["-A"])
    for extra in (["-q"], ["-N", "2"], ["-Ib"], ["-If"]):
        if rng.random() < 0.15:
            a.append(extra)
    rng.shuffle(a)
    facts = "text=%s fmt=\"%s\" kmer=%d stem=%s atire=%s version=%d" % (name, fmt, k, str(stem).lower(), str(atire).lower(), version)
    lines.append("index %s | %s" % (facts, " ".join(pct(x) for g in a for x in g)))
    two = [["-2"]] if version == 2 else []
    lines.append("human version=%d what=dump | %s" % (version, " ".join(x for g in two for x in g)))
    if rng.random() < 0.4:
        lines.append("human version=%d what=dictionary | %s" % (version, " ".join(["-d"] + [x for g in two for x in g])))
    return lines, version, fmt


def p23(rng):
    return "\n".join(sum((index(rng, i)[0] for i in range(rng.choice([1, 2, 3]))), [])) + "\n"


def queries(rng, fmt, asc):
    ids = rng.sample(["1", "2", "3x", "0", "007", "51-a", "9.5", "42"], rng.choice([0, 1, 2, 4, 6]))
    if rng.random() < 0.25 and fmt == "trec" and not asc:
        t = "".join("<top>\n<num> Number: %d\n<title> %s\n<desc> whatever cat\n</top>\n" % (n, " ".join(query_words(rng, fmt))) for n in rng.sample(range(1, 700), rng.choice([1, 3])))
        return t.encode("utf-8", "surrogateescape")
    out = []
    for i in ids:
        w = " ".join(query_words(rng, fmt))
        out.append(i + rng.choice([" ", " ", "\t", ":", ": ", "  "]) + w + rng.choice(["", "", " ", "\r"]))
    t = "\n".join(out) + (rng.choice(["", "\n", "\n\n", "\n \n77 cat\n"]) if out else "")
    if not out:
        t = rng.choice(["", "\n", "no queries here\n"])
    return t.encode("utf-8", "surrogateescape")


def query_words(rng, fmt):
    if fmt == "fasta":
        pool = ["acg", "ac", "a", "acgt", "seq", "1", "cat"]
    else:
        pool = [w.decode() for w in VOCAB] + ["cat", "dog", "run", "t1", "t2", "t3", "unknown", "u.s.", "word7", "##ing"]
    return [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3, 6]))]


def search(rng, n, version, fmt):
    asc = rng.random() < (0.6 if fmt == "json" else 0.25)
    t = queries(rng, fmt, asc)
    name = "q%d" % n
    s = dict(k=10, rho=-1, pct=100, rel=100, min=0, minpct=0, ascii=asc, oracle="[]")
    lines, a = ["file %s %s" % (name, pct(t) if t else "")], [["-2"] if version == 2 else []]
    a.append(arg(rng, "-q", "--queryfile", name))
    if asc:
        a.append([rng.choice(["-a", "--asciiparser"])])
    if rng.random() < 0.6:
        s["k"] = rng.choice([1, 2, 3, 5, 100, 1000])
        a.append(arg(rng, "-k", "--top-k", s["k"]))
    x = rng.random()
    if x < 0.15:
        s["rho"] = rng.choice([1, 2, 3, 7, 20, 1000])
        a.append(arg(rng, "-R", "--RHO", s["rho"]))
    elif x < 0.3:
        s["pct"] = rng.choice([0, 1, 10, 50, 75, 200])
        a.append(arg(rng, "-r", "--rho", s["pct"]))
    elif x < 0.4:
        s["rel"] = rng.choice([0, 1, 30, 50, 99])
        a.append(arg(rng, "-\u211d", "--Relative_RHO", s["rel"]))
    if rng.random() < 0.2:
        pairs = [(rng.choice(["1", "2", "3x", "0", "42"]), rng.choice([0, 1, 5, 60, 200, 300])) for _ in range(rng.choice([1, 3]))]
        pairs = list(dict(pairs).items())
        lines.append("file o%d %s" % (n, pct("".join("%s %d\n" % p for p in pairs))))
        s["oracle"] = "[%s]" % ",".join("[%s,%d]" % (str([ord(c) for c in i]).replace(" ", ""), v) for i, v in pairs)
        a.append(arg(rng, "-Q", "--queryrsvfile", "o%d" % n))
        y = rng.random()
        if y < 0.3:
            s["min"] = rng.choice([1, 3, 10])
            a.append(arg(rng, "-\u230aR\u230b", "--RHO_min", s["min"]))
        elif y < 0.5:
            s["minpct"] = rng.choice([10, 50, 100])
            a.append(arg(rng, "-\u230ar\u230b", "--rho_min", s["minpct"]))
    if rng.random() < 0.4:
        a.append(arg(rng, "-t", "--threads", rng.choice([1, 2, 3, 5])))
    if rng.random() < 0.25:
        a.append(arg(rng, "-w", "--width", rng.choice([1, 2, 3, 8])))
    rng.shuffle(a)
    facts = " ".join("%s=%s" % (k, str(v).lower()) for k, v in s.items())
    lines.append("search text=%s %s | %s" % (name, facts, " ".join(pct(z) for g in a for z in g)))
    return lines


def p32(rng):
    out = []
    if rng.random() < 0.1:
        out += ["file q 1%20cat%0A", "search what=refused | -q q"]
    for i in range(rng.choice([1, 1, 2])):
        l, version, fmt = index(rng, i, rng.random() < 0.1)
        out += l
        for j in range(rng.choice([2, 3, 5])):
            out += search(rng, i * 10 + j, version, fmt)
    return "\n".join(out) + "\n"


def varint(n):
    out = bytearray()
    while n > 127:
        out.append(n & 127 | 128)
        n >>= 7
    return bytes(out + bytes([n]))


def message(fields):
    """(number, value): numbers and texts; a number of zero is left out, as the format's writers do"""
    out = b""
    for number, v in fields:
        if isinstance(v, bytes):
            out += bytes([number << 3 | 2]) + varint(len(v)) + v
        elif isinstance(v, float):
            out += bytes([number << 3 | 1]) + struct.pack("<d", v)
        elif v:
            out += bytes([number << 3]) + varint(v)
    return out


def framed(m):
    return varint(len(m)) + m


def ciff(rng, n):
    mode = rng.choice(["bm25", "exact", "scaled"])
    docs = rng.choice([1, 2, 3, 9, 40])
    terms = rng.sample(["cat", "dog", "a", "caf\xe9", "2020", "x" * rng.choice([20, 127, 128, 200]), "the", "running", "##ing"] + ["t%d" % i for i in range(40)], rng.choice([1, 1, 3, 8, 30]))
    if rng.random() < 0.5:
        terms.sort()
    lens, lists = [0] * docs, []
    for t in terms:
        here = sorted(rng.sample(range(docs), rng.randint(1, docs)))
        last, ps = 0, []
        for d in here:
            tf = rng.choice([1, 1, 1, 2, 3, 10, 127, 128, 200])
            if mode != "bm25":
                tf = rng.choice([tf, 255, 256, 1000, 1023, 1024, 1025, 5000, 65535, 65536, 65537, 70000])
            lens[d] += min(tf, 10)
            ps.append((4, message([(1, d - last), (2, tf)])))
            last = d
        lists.append([(1, t.encode()), (2, len(here)), (3, sum(lens))] + ps)
    lens = [l + rng.choice([0, 0, 5, 150]) for l in lens]
    records = [[(1, d), (2, rng.choice([b"key%d", b"K-%d", b"clueweb09-en0000-00-%05d"]) % d), (3, lens[d])] for d in range(docs)]
    more = rng.choice([0, 0, 0, 1, 30])
    header = [(1, 1), (2, len(lists)), (3, docs), (4, len(lists) + rng.choice([0, 7])), (5, docs + more), (6, rng.choice([sum(lens), 2 ** 31, 2 ** 40])), (7, 3.5), (8, rng.choice([b"", b"made by hand\nfor a test"]))]
    bad = rng.random()
    if bad < 0.05:
        rng.choice(lists).insert(rng.randint(0, 3), (rng.choice([5, 9, 15]), 3))
    elif bad < 0.1 and docs > 1:
        records[rng.randrange(docs)][0] = (1, rng.choice([docs, docs + 3]))
    elif bad < 0.13:
        rng.choice(records).append((5, 1))
    elif bad < 0.16:
        header.append((9, 1))
    for m in [header] + records:
        if rng.random() < 0.2:
            rng.shuffle(m)
    version = rng.choice([1, 2])
    lines = ["file i%d.ciff %s" % (n, pct(b"".join(framed(message(m)) for m in [header] + lists + records)))]
    a = ["i%d.ciff" % n]
    extra = [x for x in ({"bm25": None, "exact": "-passthrough", "scaled": "-scalepassthrough"}[mode], "-2" if version == 2 else None) if x]
    rng.shuffle(extra)
    lines.append('ciff text=i%d.ciff mode="%s" version=%d | %s' % (n, mode, version, " ".join(a + extra)))
    if bad >= 0.16:
        lines.append("human version=%d what=dump | %s" % (version, "-2" if version == 2 else ""))
        for j in range(rng.choice([0, 0, 1, 2])):
            lines += search(rng, n * 10 + j, version, "json")
    return lines


def p24(rng):
    return "\n".join(sum((ciff(rng, i) for i in range(rng.choice([1, 2, 4]))), [])) + "\n"


def p28(rng):
    """compiled indexes: words that can be part of a name in C++"""
    fmt = rng.choice(["trec", "trec", "fasta", "json"])
    n = rng.choice([1, 2, 5, 12, 20])
    words = ["cat", "dog", "running", "x", "it", "2020", "3", "sky", "int", "main", "w1", "running"]
    key = lambda i: rng.choice(["D-%d", "U%d", "clueweb09-en0000-%05d"] + (["a\"%d\"", "C:\\new\\%d", "??/%d", "%d\xe9"] if fmt == "trec" else [])) % i
    kmer = 0
    if fmt == "json":
        t = []
        for i in range(n):
            v = ", ".join('"%s": %d' % (x, rng.choice([1, 2, 3, 50, 255, 256, 1024, 2000])) for x in sorted(set(rng.choices(words, k=rng.choice([1, 3, 6])))))
            t.append('{"id": "%s", "contents": "", "vector": {%s}}' % (key(i), v))
        t = "\n".join(t) + "\n"
    elif fmt == "fasta":
        kmer = rng.choice([1, 2, 3, 4])
        t = "".join(">seq%d\n%s\n" % (i, "".join(rng.choice("ACGT") for _ in range(rng.choice([4, 12, 20])))) for i in range(n))
    else:
        t = "".join("<DOC><DOCNO>%s</DOCNO> %s</DOC>\n" % (key(i), " ".join(rng.choices(words, k=rng.choice([0, 1, 3, 10])))) for i in range(n))
    lines = ["%s c %s" % ("gz" if fmt == "json" else "file", pct(t))]
    a = [arg(rng, "-f", "--filename", "c"), [rng.choice(["-Ic", "--index_compiled"])]] + ([["-djc"]] if fmt == "json" else []) + ([arg(rng, "-IF", "--index_FASTA", kmer)] if kmer else [])
    rng.shuffle(a)
    lines.append('index text=c fmt="%s" kmer=%d stem=false atire=false version=3 | %s' % (fmt, kmer, " ".join(pct(x) for g in a for x in g)))
    lines.append("compiled |")
    return "\n".join(lines) + "\n"


def builds(b):
    """the command that builds the sources of a compiled index, to be looked at"""
    here = os.path.join(vf.HARN, "compiled")
    repo = os.path.join(vf.REPO, "compiled_index")
    cxx = "%s %s -O0" % (vf.CXX, " ".join(b.flags).replace(" -O1", ""))
    probe = "%s -I%s -I%s %s %s/probe.cpp JASS_postings.cpp JASS_vocabulary.cpp JASS_primary_keys.cpp -I. -o probe" % (cxx, here, repo, " ".join(b.incs), here)
    return [probe]


FAMILY = {"P28": p28, "P24": p24, "P23": p23, "P32": p32}


def run(c):
    b = vf.Builder()
    exe = b.harness("whole.cpp")
    tools = [b.program(t, ["anytime/JASS_anytime_api.cpp"] if "anytime" in t else []) for t in TOOLS]
    if c.prop == "P28":
        tools += builds(b)
    c.model("Bm25_MC.tla", "Bm25_MC_big.cfg" if c.thorough else "Bm25_MC.cfg", workers=vf.NCPU if c.thorough else 4, timeout=3000)
    c.memory_limit = None
    f = FAMILY[c.prop]
    scen = [f(c.rng) for _ in range(c.pick(60 if c.prop != "P28" else 32, 1200 if c.prop != "P28" else 300))]
    runs = c.run_all(exe, scen, timeout=120, args=tools)
    c.log("ran %d scenarios" % len(scen))
    c.validate("WholeTrace.tla", "WholeTrace.cfg", runs, exe, scen, args=tools)
