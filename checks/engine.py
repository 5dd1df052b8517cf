"""P01-P06: the search engine, bound to Engine.tla / SearchContract.tla / SearchAlg.tla."""
import string
import vf

MAPI = ["anytime/JASS_anytime_api.cpp"]


def pct(s):
    return "".join(c if c.isalnum() or c in "-_.:;!" else "%%%02X" % b for c in s for b in c.encode("latin-1"))


def term_names(rng, n):
    out = set()
    while len(out) < n:
        if rng.random() < 0.15:
            out.add("".join(rng.choice(string.digits) for _ in range(rng.randint(1, 4))))
        else:
            out.add("".join(rng.choice("abcdefgh" if rng.random() < 0.7 else string.ascii_lowercase) for _ in range(rng.choice([1, 2, 3, 5, 9]))))
    return sorted(out, key=lambda x: rng.random())


def index_lines(rng, ndocs, nterms, maximp, dense=None):
    keys = ["%s%d" % (rng.choice(["D", "WSJ-", "clueweb.00."]), i) for i in range(1, ndocs + 1)]
    names = term_names(rng, nterms)
    lines = ["docs " + " ".join(pct(k) for k in keys)]
    for t in names:
        p = dense if dense is not None else rng.choice([0.02, 0.2, 0.5, 0.9, 1.0])
        docs = [d for d in range(1, ndocs + 1) if rng.random() < p] or [rng.randint(1, ndocs)]
        style = rng.random()
        imps = [1 if style < 0.2 else rng.randint(1, maximp) if style < 0.8 else rng.choice([1, maximp]) for _ in docs]
        lines.append("term %s %s" % (pct(t), " ".join("%d:%d" % (d, i) for d, i in zip(docs, imps))))
    return lines, names


def sparse_lines(rng, nterms, maximp):
    """many documents, few of them in any list: numbers around powers of two, the first and the last"""
    n = rng.choice([1025, 4097, 20000, 65536, 65537, 70001])
    near = [x for e in range(0, 17) for x in (2 ** e - 1, 2 ** e, 2 ** e + 1) if 1 <= x <= n] + [n, n - 1, n // 2]
    names = term_names(rng, nterms)
    lines = ["docs " + " ".join("d%d" % i for i in range(1, n + 1))]
    for t in names:
        docs = sorted(set(rng.choice(near) if rng.random() < 0.5 else rng.randint(1, n) for _ in range(rng.choice([1, 5, 30, 90]))))
        lines.append("term %s %s" % (pct(t), " ".join("%d:%d" % (d, rng.choice([1, 1, maximp, rng.randint(1, maximp)])) for d in docs)))
    return lines, names, n


def scen_sparse(rng, prop):
    lines, names, n = sparse_lines(rng, rng.randint(3, 6), rng.choice([2, 9, 60, 255, 1000]))
    v, d = builds(rng, lines, [rng.choice([1, 2])])[0]
    lines += ["new", "k %d" % rng.choice([1, 3, 10, 40, 1000])]
    if rng.random() < 0.5:
        lines.append("width %d" % rng.choice([0, 1, 4, 7, 10, 12]))
    lines.append("load %d %s" % (v, d))
    if prop == "P03":
        lines.append("oracle " + " ".join("%d%%20%d" % (i, rng.choice([1, 2, 5, 60, 255])) for i in range(1, 9, 2)))
    for q in range(1, 9):
        if prop in ("P02", "P04") and q % 2:
            lines.append(rng.choice(["rho_inf", "rho %d" % rng.randint(1, 120), "rho_rel %d" % rng.randint(1, 100)]))
        lines.append("search %d %s" % (q if rng.random() < 0.8 else 1, query(rng, names)))
    return "\n".join(lines) + "\n"


def query(rng, names, maxlen=5):
    n = rng.randint(1, maxlen)
    pool = names + ["zz", "qqq"]
    w = [rng.choice(pool) if rng.random() < 0.15 else rng.choice(names) for _ in range(n)]
    if rng.random() < 0.3:
        w += [rng.choice(w)] * rng.randint(1, 3)
    return " ".join(pct(x) for x in w)


def builds(rng, lines, versions=(1, 2)):
    dirs = []
    for v in versions:
        c = rng.choice("sqGgD" if v == 1 else "sGgD")          # QMX needs aligned lists, which the second format does not give it (P09)
        a = rng.choice([1, 1, 4, 16]) if c != "q" else 16
        d = "i%d%s" % (v, c)
        lines.append("build %s %d %s %d" % (d, v, c, a))
        dirs.append((v, d))
    return dirs


def gen_to_text(ops):
    out = []
    for o in ops:
        k = o["op"]
        if k == "docs":
            out.append("docs " + " ".join(o["keys"]))
        elif k == "term":
            out.append("term %s %s" % (o["t"], " ".join("%d:%d" % tuple(p) for p in o["p"])))
        elif k == "build":
            out.append("build %s %d %s %d" % (o["dir"], o["version"], o["codec"], 16 if o["codec"] == "q" else 1))
        elif k == "load":
            out.append("load %d %s" % (o["version"], o["dir"]))
        elif k == "rho" and o["v"] < 0:
            out.append("rho_inf")
        elif k in ("new", "get"):
            out.append(k)
        elif k == "oracle":
            out.append("oracle " + " ".join("%s%%20%d" % tuple(p) for p in o["scores"]) if o["scores"] else "oracle_none")
        elif k == "search":
            out.append("search %s %s" % (o["id"], " ".join(o["w"])))
        elif k == "tsearch":
            out.append("tsearch %d %s" % (o["threads"], " ".join(",".join([q["id"]] + list(q["w"])) for q in o["qs"])))
        else:
            out.append("%s %d" % (k, o["v"]))
    return "\n".join(out) + "\n"


def sizes(rng, big=False):
    return rng.choice([1, 2, 3, 7, 8, 16, 31, 40, 64]) if not big else rng.choice([130, 257, 300, 520])


def scen_exact(rng, big=False):
    """no budget, no oracle: exact ranking; k around the number of matches; scaling; repeated terms"""
    n = sizes(rng, big)
    lines, names = index_lines(rng, n, rng.randint(2, 6), rng.choice([1, 2, 5, 30, 60, 255, 300, 1024]))
    dirs = builds(rng, lines)
    q = 0
    for v, d in dirs:
        for _ in range(2):
            lines.append("new")
            lines.append("k %d" % rng.choice([1, 2, 3, 5, 10, n, max(1, n - 1), n + 1, 1000]))
            if rng.random() < 0.5:
                lines.append("width %d" % rng.choice([0, 1, 2, 3, 5, 7, 10]))
            lines.append("load %d %s" % (v, d))
            for _ in range(4 if big else 8):
                q += 1
                lines.append("search %d %s" % (q, query(rng, names)))
    return "\n".join(lines) + "\n"


def scen_budget(rng, big=False):
    n = sizes(rng, big)
    lines, names = index_lines(rng, n, rng.randint(2, 6), rng.choice([1, 2, 3, 5, 9, 60, 255]))
    dirs = builds(rng, lines)
    q = 0
    for v, d in dirs:
        lines += ["new", "k %d" % rng.choice([1, 2, 3, 10, 1000]), "load %d %s" % (v, d)]
        for _ in range(4 if big else 14):
            x = rng.random()
            if x < 0.5:
                lines.append("rho %d" % rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20, n - 1, n, n + 1, 2 * n, 3 * n]))
            elif x < 0.6:
                lines.append("rho_inf")
            elif x < 0.75:
                lines.append("rho_pct %d" % rng.choice([0, 1, 10, 29, 50, 57, 99, 100, 101, 150, 200, 300]))
            elif x < 0.95:
                lines.append("rho_rel %d" % rng.choice([0, 5, 10, 20, 29, 50, 57, 58, 75, 90, 99, 100, 110, 200]))
            if rng.random() < 0.3:
                lines.append("get")
            for _ in range(rng.randint(1, 2)):
                q += 1
                lines.append("search %d %s" % (q, query(rng, names)))
    return "\n".join(lines) + "\n"


def scen_oracle(rng, big=False):
    n = sizes(rng, big)
    m = rng.choice([1, 2, 3, 5, 9, 60, 255])
    lines, names = index_lines(rng, n, rng.randint(2, 6), m)
    dirs = builds(rng, lines)
    q = 0
    for v, d in dirs:
        for _ in range(2):
            lines += ["new", "k %d" % rng.choice([1, 1, 2, 3, 4, 5, 10, n])]
            if rng.random() < 0.4:
                lines.append("width %d" % rng.choice([1, 2, 3, 7]))
            lines.append("load %d %s" % (v, d))
            for _ in range(3 if big else 6):
                ids = list(range(q + 1, q + 4))
                pairs = ["%d%%20%d" % (i, rng.choice([0, 1, 2, 3, m, m + 1, m + 2, 2 * m, 2 * m + 1, 3 * m, 254, 255, 256, 257, 300, 512])) for i in ids if rng.random() < 0.9]
                lines.append("oracle " + " ".join(pairs) if pairs else "oracle_none")
                if rng.random() < 0.4:
                    lines.append("rho_min %d" % rng.choice([0, 0, 1, 2, n // 2, n, 2 * n, 10000]))
                if rng.random() < 0.15:
                    lines.append("rho_min_pct %d" % rng.choice([0, 10, 50, 100, 150]))
                if rng.random() < 0.15:
                    lines.append("rho %d" % rng.choice([1, 3, n, 2 * n, 3 * n]))
                elif rng.random() < 0.3:
                    lines.append("rho_inf")
                for i in ids:
                    lines.append("search %d %s" % (i, query(rng, names, 4)))
                q += 3
    return "\n".join(lines) + "\n"


def scen_history(rng, big=False):
    """one engine, a long history of different queries with repeats in between"""
    n = sizes(rng, big)
    lines, names = index_lines(rng, n, rng.randint(3, 7), rng.choice([2, 5, 40, 255]))
    dirs = builds(rng, lines, [rng.choice([1, 2])])
    v, d = dirs[0]
    lines += ["k %d" % rng.choice([1, 2, 3, 10])]
    if rng.random() < 0.6:
        lines.append("width %d" % rng.choice([1, 2, 3, 4, 6]))
    lines.append("load %d %s" % (v, d))
    pool = ["search %d %s" % (i, query(rng, names)) for i in range(1, 8)]
    pool.append("search ~ " + pct(rng.choice(names)))
    pool.append("search 99 zz")
    pool.append("search ~")
    lines.append("oracle " + " ".join("%d%%20%d" % (i, rng.choice([1, 2, 3, 5, 9, 255])) for i in range(1, 4)) if rng.random() < 0.6 else "oracle_none")
    settings = ["rho_inf", "rho %d" % rng.randint(1, 2 * n), "rho_rel 50", "rho_rel 100", "rho_min %d" % rng.choice([0, n])]
    for _ in range(14 if big else 40):
        if rng.random() < 0.2:
            lines.append(rng.choice(settings))
        lines.append(rng.choice(pool))
    return "\n".join(lines) + "\n"


def scen_parallel(rng, big=False):
    n = sizes(rng, big)
    lines, names = index_lines(rng, n, rng.randint(3, 7), rng.choice([2, 5, 40, 255]))
    dirs = builds(rng, lines, [rng.choice([1, 2])])
    v, d = dirs[0]
    lines += ["k %d" % rng.choice([1, 2, 3, 10]), "load %d %s" % (v, d)]
    nq = rng.choice([0, 1, 2, 5, 17, 40])
    ids = list(range(1, nq + 1))
    qs = {i: query(rng, names, 4).split() for i in ids}
    if rng.random() < 0.5:
        lines.append("oracle " + " ".join("%d%%20%d" % (i, rng.choice([1, 2, 3, 5, 9, 255])) for i in ids[::2]) if nq else "oracle_none")
    for rep in range(3):
        if rng.random() < 0.5:
            lines.append(rng.choice(["rho_inf", "rho %d" % rng.randint(1, 2 * n), "rho_rel %d" % rng.choice([25, 50, 75]), "rho_rel 100"]))
        for i in rng.sample(ids, min(3, nq)):
            lines.append("search %d %s" % (i, " ".join(qs[i])))
        order = ids[:]
        rng.shuffle(order)
        parts = [",".join(["%d" % i] + qs[i]) for i in order]
        if rng.random() < 0.3:
            parts.insert(rng.randint(0, len(parts)), "~")         # an empty query in the list
        lines.append("tsearch %d %s" % (rng.choice([1, 2, 2, 3, 4, 8]), " ".join(parts)))
        for i in rng.sample(ids, min(2, nq)):
            lines.append("search %d %s" % (i, " ".join(qs[i])))
        if rng.random() < 0.5:
            lines.append("get")
    return "\n".join(lines) + "\n"


SCEN = {"P01": scen_exact, "P02": scen_budget, "P03": scen_oracle, "P04": scen_history, "P05": scen_parallel}
# (small, big, TLC-generated) scenario counts
COUNT = {"quick": {"P01": (36, 6, 12), "P02": (44, 6, 12), "P03": (40, 6, 12), "P04": (40, 6, 12), "P05": (40, 4, 12), "P06": (0, 0, 70)},
         "thorough": {"P01": (600, 60, 150), "P02": (600, 60, 150), "P03": (600, 60, 150), "P04": (600, 60, 150), "P05": (600, 40, 150), "P06": (0, 0, 1500)}}


def claims(c):
    """the shared work list on its own: every schedule with few pre-emptions, random schedules, real threads"""
    c.model("Claim_MC.tla", "Claim_MC.cfg" if not c.thorough else "Claim_MC_big.cfg")
    exe = vf.Builder().harness("claim.cpp")
    real = vf.Builder(defines=["COOP_REAL"]).harness("claim.cpp", name="claim-real")
    s = c.seed
    if c.thorough:
        sc = ["run 2 4 8 200000\n", "run 3 3 4 200000\n", "run 4 2 3 200000\n"] + ["random %d %d %d 1500\n" % (c.rng.randint(2, 6), c.rng.randint(0, 12), s * 100 + i) for i in range(24)]
        rs = ["stress %d %d 0 20000\n" % (w, q) for w, q in ((2, 1), (2, 5), (4, 9), (8, 30), (16, 40))]
    else:
        sc = ["run 2 3 4 20000\n", "run 3 2 3 20000\n", "run 2 0 2 10\n", "random 3 5 %d 700\n" % s, "random 4 9 %d 500\n" % (s + 7)]
        rs = ["stress 8 20 0 2000\nstress 4 3 0 3000\n"]
    c.validate("ClaimTrace.tla", "ClaimTrace.cfg", c.run_all(exe, sc, timeout=200), exe, sc, run_timeout=200, what="schedules")
    c.validate("ClaimTrace.tla", "ClaimTrace.cfg", c.run_all(real, rs, timeout=200, par=1), real, rs, run_timeout=200, what="stress runs")


def run(c):
    if c.prop == "P05":
        claims(c)
    elif c.prop == "P06":
        c.model("EngineLife_MC.tla", "EngineLife_MC.cfg" if not c.thorough else "EngineLife_MC_big.cfg")
    else:
        c.model("SearchAlg_MC.tla", "SearchAlg_%s.cfg" % c.prop if not c.thorough else "SearchAlg_MC_big.cfg", workers=vf.NCPU if c.thorough else 4, timeout=3000, heap="8g")
    small, big, gen = COUNT[c.tier][c.prop]
    b = vf.Builder()
    exe = b.harness("engine.cpp", MAPI)
    scen = []
    flavour = "life" if c.prop == "P06" else "search"
    for g in c.generate("EngineGen.tla", "EngineGen_%s.cfg" % flavour, gen, 42):
        scen.append(gen_to_text(g))
    if c.prop in SCEN:
        f = SCEN[c.prop]
        scen += [f(c.rng) for _ in range(small)] + [f(c.rng, True) for _ in range(big)]
        if c.prop != "P05":
            scen += [scen_sparse(c.rng, c.prop) for _ in range(c.pick(3, 40))]
    if c.prop == "P05":             # the same lists with every access of the workers recorded by the thread sanitizer
        tsan = vf.Builder(flag="-fsanitize=thread", instrument=lambda f: not f.startswith(("compress_integer_", "unicode", "ascii", "serialise"))).harness("engine.cpp", MAPI, name="engine-tsan")
        ts = [scen_parallel(c.rng) for _ in range(60 if c.thorough else 6)]
        env = {"TSAN_OPTIONS": "exitcode=0 report_signal_unsafe=0 atexit_sleep_ms=0"}
        c.memory_limit = None       # the sanitizer reserves address space
        if c.run_one(tsan, "k 1\n", 60, env=env)[1] == "ok":
            c.validate("EngineTrace.tla", "EngineTrace.cfg", c.run_all(tsan, ts, timeout=200, par=4, env=env), tsan, ts, run_timeout=200, what="instrumented runs", run_env=env)
        else:
            c.log("the thread sanitizer does not run here: left out")
        c.memory_limit = 12 << 30
    runs = c.run_all(exe, scen, timeout=120, par=4 if c.prop == "P05" else vf.NCPU)
    c.log("ran %d scenarios" % len(scen))
    c.validate("EngineTrace.tla", "EngineTrace.cfg", runs, exe, scen, run_timeout=120)
    c.assumptions += ["segment order between equal impact and equal length is unspecified, every order is allowed",
                      "a scaled impact that is an exact integer quotient may be rounded down by one in floating point",
                      "query ids within one parallel search are distinct"]
