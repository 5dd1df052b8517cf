"""P17 (sources of bytes), P25 (files and channels), P30 (topics)."""
import vf
import text


def pct(b):
    return "".join("%%%02X" % x for x in b)


def blob(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 7, 16, 17, 40, 100, 700]) if n is None else n
    style = rng.random()
    return bytes(rng.randrange(256) if style < 0.5 else rng.choice(b"ab\n\r \0") for _ in range(n))


# ---- P25
def session(rng, name, exists, ops=None):
    mode = rng.choice(["w+b", "w+b", "wb"] + (["r+b", "r+b", "rb"] if exists else []))
    out = ["open %s %s" % (name, mode)]
    if rng.random() < 0.8:
        out.append("vbuf %d" % rng.choice([1, 2, 3, 5, 16, 64, 1000]))
    for _ in range(rng.randint(1, 14)):
        out.append(step(rng, mode))
    if rng.random() < 0.5:
        out += ["tell", "size"]
    out.append("close")
    if rng.random() < 0.6:
        out.append("look " + name)
    return out


def step(rng, mode):
    while True:
        k = rng.random()
        if k < 0.4 and mode != "rb":
            return "write " + pct(blob(rng, rng.choice([1, 1, 2, 3, 5, 15, 16, 17, 33]))) if rng.random() < 0.8 else "fill %d" % rng.choice([64, 65, 200, 999, 1000, 1001, 3000])
        if 0.4 <= k < 0.6 and mode != "wb":
            return "%s %d" % (rng.choice(["read", "vread"]), rng.choice([1, 1, 2, 3, 8, 33, 500, 4000]))
        if 0.6 <= k < 0.75:
            return "seek %d" % rng.choice([0, 0, 1, 2, 5, 16, 40, 100])
        if 0.75 <= k < 0.8:
            return "flush"
        if 0.8 <= k:
            return rng.choice(["tell", "size"])


def p25(rng):
    out, names, there = [], ["a", "b", "c"], set()
    for _ in range(rng.randint(2, 7)):
        k, n = rng.random(), rng.choice(names)
        if k < 0.15:
            out.append("put %s %s" % (n, pct(blob(rng))))
            there.add(n)
        elif k < 0.2:
            out.append("put nowhere/x " + pct(blob(rng, 5)))
        elif k < 0.45:
            out += session(rng, n, n in there)
            there.add(n)
        elif k < 0.65:
            out.append("%s %s %s" % (rng.choice(["get", "map"]), rng.choice(names), pct(blob(rng, rng.choice([0, 1, 50])))))
        elif k < 0.7:
            d = "d%d" % len(out)
            out += ["mkdir " + d, "isdir " + d, "isdir " + n, "isdir absent", "get " + d, "map " + d]
        elif k < 0.85:
            items = " ".join(item(rng) for _ in range(rng.randint(0, 6)))
            out += ["send %s %s" % (n, items), "hear %s %s" % (n, asks(rng))]
            if items:
                there.add(n)
        else:
            out.append("lines " + pct(bytes(rng.choice(b"ab\n\n\r") for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 30])))))
            out.append("hear buffer %s %s" % (asks(rng), pct(bytes(rng.choice(b"abc\n") for _ in range(rng.choice([0, 1, 5, 30, 300]))))))
    return "\n".join(out) + "\n"


def item(rng):
    k = rng.random()
    if k < 0.3:
        return "number:%d" % rng.choice([0, 1, 7, 10, 99, -1, -10, 2147483647, rng.randint(-10**6, 10**6)])
    return "%s:%s" % ("line" if k < 0.6 else "text", pct(bytes(rng.choice(b"ab \tz\n%") for _ in range(rng.choice([0, 1, 3, 10, 1100])))))


def asks(rng):
    return ",".join(str(rng.choice([0, 0, 0, 1, 2, 3, 10, 1200])) for _ in range(rng.randint(1, 12)))


# ---- P17
def sizes(rng, total):
    out, have = [], 0
    style = rng.choice([1, 3, 16, 100, 1000, total, total + 1, max(1, total - 1)])
    while have <= total + style and len(out) < 60:
        n = style if rng.random() < 0.7 else rng.choice([1, 2, 5, 33, 512])
        out.append(n)
        have += n
    return ",".join(map(str, out + [4, 1]))


def p17(rng):
    out = []
    for _ in range(rng.randint(2, 5)):
        k = rng.random()
        if k < 0.3:
            b = blob(rng)
            out.append("source %s %s %s" % (rng.choice(["memory", "file", "stream"]), sizes(rng, len(b)), pct(b)))
        elif k < 0.7:
            members, total = [], 0
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                if rng.random() < 0.6:
                    b = blob(rng)
                    members.append("=" + pct(b) if b[:1] in (b"*", b"=", b"z") or not b else "=" + pct(b))
                    total += len(b)
                else:
                    n = rng.choice([1, 100, 1000, 5000])
                    members.append("*%d" % n)
                    total += n
            if rng.random() < 0.2:
                members = ["z:" + members[0]]
            cut = rng.choice([1, 3, 8, 9, 20, 100]) if rng.random() < 0.25 else 0
            out.append("source %s %s %d %d %s" % ("damaged" if cut else "gz", sizes(rng, total), cut, rng.choice([1, 2, 7, 64, 1000, 1 << 20]), " ".join(members)))
        else:
            files, total = [], 0
            for i in range(rng.choice([0, 1, 2, 3, 4])):
                b = blob(rng)
                kind = rng.choice(["plain", "plain", "gz", "dir"])
                name = "f%d%s" % (i, ".gz" if kind == "gz" else rng.choice(["", ".txt", ".gz.txt", ".gzip"]))
                files.append("%s=%s:%s" % (name, kind, pct(b)))
                total += len(b)
            out.append("source directory %s %s" % (sizes(rng, total), " ".join(files)))
    return "\n".join(out) + "\n"


# ---- P30
def words(rng, n=5):
    return " ".join(rng.choice(["literacy", "Rates", "AFRICA", "u.s.", "x-ray", "2020", "12345678901", "caf\xc3\xa9", "7", "a"]) for _ in range(rng.randint(0, n)))


def topic(rng, n):
    style = rng.random()
    nl = rng.choice(["\n", "\n", "\r\n"])
    gap = lambda: rng.choice(["", " ", nl, nl + nl])
    fields = [("title", "title"), ("desc", rng.choice(["desc", "description"])), ("narr", "narr"), ("query", "query"), ("other", rng.choice(["subtopic", "con", "smry", "titles", "des"]))]
    rng.shuffle(fields)
    fields = fields[:rng.randint(0, 5)]
    if style < 0.55:            # the old layout: a line or more for each field, no end tags
        s = "<top>" + nl + "<num>%s%d%s" % (rng.choice([" Number: ", " ", "", " Number: MB"]), n, rng.choice([" ", ""])) + gap() + nl
        for _, tag in fields:
            s += "<%s>%s%s%s%s" % (tag, rng.choice(["", " ", " Topic: "]), gap(), words(rng), gap()) + nl
        return s + "</top>" + nl
    if style < 0.85:            # the web track's
        s = '<topic number="%d" type="%s">' % (n, rng.choice(["faceted", "ambiguous"])) + nl
        for _, tag in fields:
            s += "<%s>%s</%s>" % (tag, words(rng), tag) + nl
        return s + "</topic>" + nl
    s = rng.choice(["<num>%d</num>", '<topic number="%d">']) % n            # all on one line
    for _, tag in fields:
        s += "<%s>%s</%s>" % (tag, words(rng), tag)
    return s + (nl if s[1] == "t" else rng.choice([nl, " "]))


def p30(rng):
    out = []
    for _ in range(rng.randint(1, 3)):
        t = rng.choice(["", "\n", words(rng) + "\n"]) + "".join(topic(rng, rng.choice([1, 7, 51, 698, 100200, 0])) + rng.choice(["", "\n"]) for _ in range(rng.choice([0, 1, 1, 2, 3, 6])))
        if rng.random() < 0.15:
            t = t[:rng.randint(0, len(t))]
        out.append("topics %s %s %s" % (rng.choice(["file", "buffer"]), rng.choice(["t", "tq", "q", "d", "tdn", "qdnt"]), pct(t.encode("latin-1"))))
    return "\n".join(out) + "\n"


FAMILY = {"P17": p17, "P25": p25, "P30": p30}


def from_spec(g):
    out = ["open a w+b", "vbuf %d" % g["cap"]]
    for o in g["ops"]:
        out.append("fill %d" % o["n"] if o["op"] == "write" else o["op"] + (" %d" % o["n"] if o["op"] in ("read", "seek") else ""))
    return "\n".join(out + ["tell", "size", "close", "look a"]) + "\n"


def run(c):
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:max_allocation_size_mb=8192"}
    c.memory_limit = None
    exe = vf.Builder(extra=["-fsanitize=address"]).harness("files.cpp")
    scen = []
    if c.prop == "P25":
        c.model("Files_MC.tla", "Files_MC_big.cfg" if c.thorough else "Files_MC.cfg", workers=vf.NCPU if c.thorough else 4, timeout=3000)
        g = c.generate("Files_MC.tla", "Files_gen.cfg", c.pick(120, 2000), 15, limit=c.pick(240, 4000))
        s = [from_spec(x) for x in g]
        scen += ["".join(s[i:i + 8]) for i in range(0, len(s), 8)]
    elif c.prop == "P17":
        c.model("Files_MC.tla", "Sources_MC.cfg", workers=4)
    else:
        c.model("Tokens_MC.tla", "Tokens_MC.cfg" if not c.thorough else "Tokens_MC_big.cfg", workers=4, timeout=3000)
    f = FAMILY[c.prop]
    scen += [f(c.rng) for _ in range(c.pick(160, 3000))]
    runs = c.run_all(exe, scen, timeout=60, env=env)
    c.log("ran %d scenarios" % len(scen))
    c.validate("FilesTrace.tla", "FilesTrace.cfg", runs, exe, scen, run_env=env)
    c.assumptions += {"P17": ["the files do not change while they are read", "a source that is not the last of a chain hands over less than asked only at its end, unless it is below a decompressor"],
                      "P25": ["the buffer's size is changed only when nothing is waiting in it (as documented)", "the device has room", "a file is opened by one object at a time"],
                      "P30": ["the number of a topic has less than ten digits and follows its tag on the same line"]}[c.prop]
