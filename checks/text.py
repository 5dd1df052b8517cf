"""P16 (documents), P18 (tokens), P19 (FASTA), P20 (uniCOIL), P21 (queries), P35 (stemming)."""
import vf

MODELS = {"P16": ("Docs_MC", "Docs_gen", 25), "P18": ("Tokens_MC", "Tokens_gen", 15), "P21": ("Tokens_MC", "Tokens_gen", 15), "P35": ("Porter_MC", "Porter_gen", 8)}
TAGS = {"trec": [b"<DOC>", b"</DOC>", b"<DOCNO>", b"</DOCNO>"], "html": [b"<html", b"</html>", b"<title>", b"</title>"]}
LETTERS = "a b c d e f g i l n o r s t u v y z A B Q Z".split()
BEYOND = ["é", "É", "ß", "ẞ", "Σ", "ς", "α", "ﬁ", "①", "½", "٣", "Ⅷ", "ⅷ", "𝟘", "我", "𩸽", "İ", "Ǆ", "℃", "\u00a0", "\u2003", "\u3000", "\u0301", "—", "“", "€", "🙂", "\ufffd", "\uffff", "\U0010ffff", "\u0085", "\u2028", "ª", "ʰ", "々", "\u0345"]
BROKEN = [b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x99", b"\x80", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xe9"]


def pct(b):
    return "." + "".join("%%%02x" % x for x in b)


def word(rng, n=None):
    n = n or rng.choice([1, 2, 3, 4, 6, 9])
    return "".join(rng.choice(LETTERS) for _ in range(n)).encode()


def piece(rng):
    k = rng.random()
    if k < 0.3:
        return word(rng)
    if k < 0.4:
        return str(rng.randrange(10 ** rng.randint(1, 7))).encode()
    if k < 0.55:
        return rng.choice([b" ", b" ", b"  ", b"\n", b"\t", b"\r\n", b"\x0b", b"\x0c", b"\x00", b"\x1c", b"\x7f"])
    if k < 0.68:
        return rng.choice(BEYOND).encode()
    if k < 0.74:
        return rng.choice(BROKEN)
    if k < 0.82:
        return rng.choice([b".", b",", b"'", b'"', b"-", b"&amp;", b">", b"/", b"?", b"!", b"]", b"[", b"%", b"=", b"_", b":"])
    name = rng.choice([b"a", b"b-c", b"x:y", b"_q", "é".encode(), b"h1", b"a."])
    attr = rng.choice([b"", b"", b' p="1"', b" p='>'", b' p=">"', b' p="\'"', b' p="', b"  ", b" /", "ä='ß'".encode()])
    return rng.choice([b"<" + name + attr + b">", b"<" + name + attr + b"/>", b"</" + name + b">", b"</" + name + b" >", b"<" + name, b"</" + name, b"<" + name + attr,
                       b"<!--" + word(rng) + b"-->", b"<!-- a - b -- c --->", b"<!-->", b"<!--->", b"<!---->", b"<!--x", b"<![CDATA[" + word(rng) + b"]]>", b"<![CDATA[]]>", b"<![CDATA[]]", b"<![CDATA[ ]] > ]]]>",
                       b"<!DOCTYPE " + name + b">", b"<!d>", b"<! >", b"<!", b"<![ INCLUDE [", b"<![x", b"<![", b"<?p " + word(rng) + b"?>", b"<?p > ? >?>", b"<??>", b"<?", b"<", b"</", b"< ", b"</ ", b"<<", b"<1>", b"<\xff", b"</\xff", b"<-"])


def text(rng):
    k = rng.random()
    if k < 0.04:
        return b""
    if k < 0.1:         # words about as long as a token can be
        unit = rng.choice([b"a", b"Z", "é".encode(), "Σ".encode(), "ﬁ".encode(), b"7", "①".encode(), "𝟘".encode(), "我".encode()])
        t = unit * rng.choice([1023, 1024, 1025, 1030, 512, 513, 342, 341, 257])
        t = t[:rng.choice([1100, 1023, 1024, 1025])]
        tail = rng.choice([b"b", "é".encode(), "我".encode(), b" x", b"", b"4", b"aaa"])
        return rng.choice([b"", b"<", b"<!--", b"q"]) + t + tail
    return b"".join(piece(rng) for _ in range(rng.choice([1, 1, 2, 3, 5, 10, 25])))


AFTER = [b"", b"zz", b"99", b"/", b">", b'">', b"-->", b"]]>", b"\xa9", b"'x' />", b"?>", "é".encode(), b"<x>", b"!"]


def parse(rng, kind, texts):
    return "parse %s %s %s\n" % (kind, pct(rng.choice(AFTER)), " ".join(pct(t) for t in texts))


def fasta(rng):
    head = rng.choice([b"", b">", b">a", b">NR_1.1", b">seq one", b">x.", b">x1", b">x <b", b">x <b 'q", b"> " + piece(rng)])
    if b"\n" in head:
        head = b">y"
    if rng.random() < 0.08:
        return head
    style = rng.choice(["ACGT", "ACGTacgt", "ACGTN", "ACGTacgtNn-x.", "A"])
    n = rng.choice([0, 1, 2, 3, 5, 8, 20, 60])
    s = ""
    for _ in range(n):
        s += rng.choice(style)
        if rng.random() < 0.15:
            s += rng.choice(["\n", " ", "\n\n", "\r\n", "\t"])
    if rng.random() < 0.3:
        s = rng.choice(["\n", " ", "N", "N ", "N\nA"]) + s
    if rng.random() < 0.5:
        s += rng.choice(["\n", "\n\n", " ", "N", "N\n", "x "])
    return head + b"\n" + s.encode()


def vector(rng):
    terms = []
    for _ in range(rng.choice([0, 1, 2, 3, 8])):
        t = rng.choice(["the", "##ing", "a b", "é", "", "1", "12a", "\\\"", "\\\\", "a\\\"b: 5", "\\u00e9", "}", "{", ":", "}}", "x" * rng.choice([1022, 1023, 1024, 1025]) if rng.random() < 0.2 else "q"])
        terms.append('"%s"%s%s' % (t, rng.choice([": ", ":", " : "]), rng.choice([0, 1, 2, 94, 255, 256, 1023, 1024, 1025, 40000, 65535, 65536, 65537, 100000, 4294967296, 123456789012345678901234567890])))
    return rng.choice([", ", ",", " , "]).join(terms).encode() + (rng.choice([b"", b"", b"}", b"}}", b"}}\n", b" "]))


def pieces(rng, kind, at):
    g = TAGS[kind]
    out = b""
    for k in at:
        if k <= 4:
            out += g[k - 1]
            if kind == "html" and k == 1:
                out += rng.choice([b">", b" lang='en'>", b""])
        elif k == 5:
            out += rng.choice([b" ", b"\n", b"  ", b"\t\r\n"])
        elif k == 6:
            out += rng.choice([b"<", b"<D", b"</", b"<DO", b"</DOC", b"<DOCN", b"<h", b"</htm", b"<DOCS>", b">"])
        else:
            out += rng.choice([b"x", word(rng), b"WSJ-1", word(rng) * rng.randint(1, 8)])
    return out


def trec_text(rng, kind):
    out = []
    for _ in range(rng.choice([0, 1, 2, 4, 7])):
        out += rng.choice([[], [5], [7], [6, 7], [7, 2, 7]])
        out += [1] + rng.choice([[], [7]]) + rng.choice([[3, 7, 4], [3, 5, 7, 5, 4], [3, 5, 4], [3, 4], [3, 7], [4, 7, 3], [], [7, 3, 7, 4, 3, 7, 4], [3, 7, 5, 7, 4]]) + rng.choice([[], [7], [6], [7, 6, 5, 7, 1]]) + [2]
    out += rng.choice([[], [], [5], [7], [1], [1, 7], [1, 3, 7, 4, 7, 6], [6], [2]])
    return pieces(rng, kind, out)


def fasta_text(rng):
    out = rng.choice([b"", b"", b"junk\n", b"\n"])
    for _ in range(rng.choice([0, 1, 2, 3, 6])):
        out += rng.choice([b">", b">a", b">a b", b">a >b >c", b">x \t", b"> y", b">>"]) + b"\n"
        out += rng.choice([b"", b"ACGT\n", b"ACGT\nGGA\n", b"\n", b"AC GT\n\n", b"AC>GT\n", b"ACGT" * rng.randint(1, 12) + b"\n"])
    return out + rng.choice([b"", b"", b"\n", b">", b">last", b">last\n", b">last\nAC", b"AC", b"x>"])


def warc_text(rng):
    nl = rng.choice([b"\n", b"\n", b"\r\n"])
    out = b""
    for n in range(rng.choice([0, 1, 2, 4])):
        rec = [b"WARC/1.0", b"WARC-Type: response"]
        if rng.random() < 0.75:
            rec.append(b"WARC-TREC-ID:" + rng.choice([b" ", b"", b"  "]) + b"id-%d" % n)
        rec += rng.choice([[], [b"WARC-TREC-IDx: no"], [b"WARC-TREC-I"], [b"X: " + b"y" * rng.choice([900, 1022, 1023, 1024, 1025, 1026, 2050, 5000])], [b"content-length: 3"], [b""], [b"Content-Type: application/http: x"]])
        body = rng.choice([b"", b"x", b"HTTP/1.1 200" + nl + nl + b"<html>", b"WARC-TREC-ID: fake\nContent-Length: 2\n", b"y" * 2000, bytes(rng.randrange(256) for _ in range(20))])
        # the length counts from the end of its line
        length = len(nl + body) if rng.random() < 0.8 else len(body)
        rec.append(b"Content-Length: %d" % length)
        out += nl.join(rec) + nl + nl + body + rng.choice([nl + nl, nl, nl + nl + nl])
    if rng.random() < 0.25 and out:
        out = out[:rng.randrange(len(out))]
    return out


def coil_text(rng):
    lines = []
    for n in range(rng.choice([0, 1, 2, 3, 6])):
        v = ", ".join('"%s": %d' % (rng.choice(["the", "##ing", "é", "}}", "{", "vector", "id", '\\"'] + [word(rng).decode()]), rng.randint(0, 300)) for _ in range(rng.choice([0, 1, 2, 8, 40])))
        c = rng.choice(["The.", "", "\\\"id\\\": \\\"7\\\"", "{\\\"id\\\":", "\\\"vector\\\": {\\\"a\\\": 1}}", "é" * rng.randint(1, 30), "x" * rng.choice([10, 900, 1000, 1010, 1100])])
        lines.append('{"id": "%s", "contents": "%s", "vector": {%s}}' % (rng.choice(["%d" % n, "doc-%d" % n, "a b"]), c, v))
    return ("".join(l + rng.choice(["\n", "\n", "\n", "\n\n"]) for l in lines[:-1]) + (lines[-1] if lines else "") + (rng.choice(["\n", "\n\n", ""]) if lines else "")).encode()


def split(rng, kind=None):
    kind = kind or rng.choice(["trec", "trec", "html", "fasta", "fasta", "warc"])
    t = trec_text(rng, kind) if kind in TAGS else fasta_text(rng) if kind == "fasta" else warc_text(rng) if kind == "warc" else coil_text(rng)
    return sized(rng, kind, t)


def sized(rng, kind, t):
    sizes = [0] if kind in ("html", "warc", "coil") else sorted({max(12, len(t) // d + e) for d in (1, 2, 3, 5) for e in (0, 1, 7)} | {200})
    return "".join("split %s %d %s\n" % (kind, n, pct(t)) for n in (sizes if len(sizes) < 4 else rng.sample(sizes, 4)))


def p18(rng):
    return parse(rng, "doc", [text(rng) for _ in range(rng.choice([1, 3, 6]))])


def p19(rng):
    if rng.random() < 0.3:
        return split(rng, "fasta")
    return parse(rng, "fasta:%d" % rng.choice([1, 1, 2, 3, 5, 8, 30]), [fasta(rng) for _ in range(rng.choice([1, 3, 6]))])


def p20(rng):
    k = rng.random()
    if k < 0.5:
        return parse(rng, "json", [vector(rng) for _ in range(rng.choice([1, 3, 6]))])
    return split(rng, "coil")


def archive(rng, n, longest):
    return "coil %s %s\n" % (rng.choice(["bare", "ended"]), " ".join("d%d,%d,%d" % (k, rng.choice([0, 10, rng.randint(0, longest), longest]), rng.getrandbits(30)) for k in range(n)))


def p21(rng):
    kind = rng.choice(["query", "query", "query", "raw"])
    out = []
    for _ in range(rng.choice([1, 3, 8])):
        if rng.random() < 0.4:
            few = [piece(rng) for _ in range(3)] + [word(rng), word(rng).upper()]
            t = rng.choice([b" ", b" ", b"-", b", "]).join(rng.choice(few) for _ in range(rng.choice([2, 5, 12])))
        else:
            t = b"".join(piece(rng) for _ in range(rng.choice([0, 1, 2, 5, 15])))
        out.append(pct(t.replace(b"\x00", b"0") if kind == "raw" else t))
    return "query %s %s\n" % (kind, " ".join(out))


SUFFIXES = ("s es ed ing y ational tional enci anci izer abli alli entli eli ousli ization ation ator alism iveness fulness ousness aliti iviti biliti icate ative alize iciti ical ful ness al ance ence er ic able ible "
            "ant ement ment ent sion tion ion ou ism ate iti ous ive ize e ll sses ies ss eed at bl iz ley sed").split()
REAL = ("running runner runs happily happiness relational nationalization connections connected connecting probabilities agreed oscillators generalization hopefully adjustable sky skies toying syzygy yesterday "
        "yellow beyond rhythm controlled controlling falling missing buzzed humming oped aped used ying yyed sayyid queueing seeing freed need bleed was is as us gas this thus dying lying").split()


def p35(rng):
    words = []
    for _ in range(30):
        k = rng.random()
        if k < 0.2:
            w = rng.choice(REAL)
        elif k < 0.9:
            w = "".join(rng.choice("aeiouybcdfglmnprstvwxz") for _ in range(rng.randint(0, 6))) + "".join(rng.choice(SUFFIXES) for _ in range(rng.choice([1, 1, 2, 3])))
        else:
            w = rng.choice(["é", "naïvely", "123ed", "x" * 900 + "ing", "a" * 500, "yyyying", "ß"]) + rng.choice(SUFFIXES)
        if len(w) > 2:
            words.append(pct(w.encode()))
    return "stem %s\n" % " ".join(words) if words else ""


FAMILY = {"P16": split, "P18": p18, "P19": p19, "P20": p20, "P21": p21, "P35": p35}


def from_spec(rng, p, g):
    if p == "P16":
        kind = rng.choice(["trec", "trec", "html"])
        return sized(rng, kind, pieces(rng, kind, g["pieces"]))
    if p == "P18":
        return parse(rng, "doc", [bytes(g["text"])])
    if p == "P21":
        return "query query %s\n" % pct(bytes(g["text"]))
    return "stem %s\n" % pct(bytes(g["word"]))


def run(c):
    c.memory_limit = None
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:max_allocation_size_mb=8192"}
    exe = vf.Builder(extra=["-fsanitize=address"]).harness("text.cpp")
    p = c.prop
    scen = []
    mc, gen, depth = MODELS.get(p, ("Tokens_MC" if p != "P20" else "Docs_MC", None, 0))
    c.model(mc + ".tla", mc + ("_big" if c.thorough else "") + ".cfg", workers=vf.NCPU if c.thorough else 4, timeout=3000, heap="8g")
    if gen:
        g = c.generate(mc + ".tla", gen + ".cfg", c.pick(150, 4000), depth, timeout=900, limit=c.pick(400, 20000))
        lines = [from_spec(c.rng, p, x) for x in g]
        scen += ["".join(lines[i:i + 20]) for i in range(0, len(lines), 20)]
    f = FAMILY[p]
    scen += ["".join(f(c.rng) for _ in range(c.pick(20, 40))) for _ in range(c.pick(60, 800))]
    if p == "P20":
        scen += [archive(c.rng, c.rng.choice([1, 3, 30]), n) for n in [100, 5000, 70000, 400000, 2600000] * c.pick(2, 10)]
    runs = c.run_all(exe, scen, timeout=60, env=env)
    c.log("ran %d scenarios" % len(scen))
    c.validate("TextTrace.tla", "TextTrace.cfg", runs, exe, scen, run_env=env)
    c.assumptions += {"P16": ["a document and its surroundings fit in the reading buffer (16 MB in the tools)", "archives follow the format they claim"],
                      "P18": ["the classes of the characters beyond ASCII are the library's (P34 judges those)"],
                      "P19": ["k is between 1 and the longest token"], "P20": ["documents are well-formed JSON lines in the uniCOIL layout"],
                      "P21": ["raw queries hold no zero byte"], "P35": ["words are at least three bytes long, as the indexer ensures"]}[p]
