"""P22: effectiveness measures and the evaluation tool."""
import vf


def judgements(rng, topics, docs):
    rows = []
    for t in topics:
        for d in rng.sample(docs, rng.randint(0, len(docs))):
            rows.append((t, d, rng.choice([0, 0, 0, 1, 1, 2, 3] if rng.random() < 0.7 else [0, 1])))
    rng.shuffle(rows)
    return rows


def prices(rng, docs):
    high = rng.choice([1, 3, 10, 200])
    return {d: rng.randint(1, high) for d in docs}


def csv(rows):
    return ",".join(":".join(map(str, r)) for r in rows) or "-"


def ids(rng, n):
    return rng.sample(range(1, rng.choice([n + 1, 130])), n)


def case(rng):
    docs = ids(rng, rng.choice([1, 3, 6, 12, 25]))
    topics = ids(rng, rng.randint(1, 4))
    rows = judgements(rng, topics, docs) or [(topics[0], docs[0], 1)]
    cost = prices(rng, docs) if rng.random() < 0.6 else {}
    out = []
    for _ in range(6):
        run = rng.sample(docs, rng.randint(0, len(docs)))
        depth = rng.choice([0, 0, 1, 2, 3, 5, 10, 24])
        out.append("eval %s %s %d %s %d %d %d\n" % (csv(rows), csv(cost.items()), rng.choice(topics + [131]), ",".join(map(str, run)) or "-",
                                                  depth, rng.randint(1, 5), rng.choice([500, 800, 950, 10])))
    return "".join(out)


def whole(rng):
    docs = ids(rng, rng.choice([1, 3, 6, 12, 25]))
    topics = sorted(ids(rng, rng.randint(1, 5)), key=str)
    rows = judgements(rng, topics, docs) or [(topics[0], docs[0], 1)]
    cost = prices(rng, docs) if rng.random() < 0.6 else {}
    some = [t for t in topics if rng.random() < 0.8] or topics[:1]
    runs = ["%d:%s" % (t, ",".join(map(str, rng.sample(docs, rng.randint(1, len(docs)))))) for t in some]
    return "tool %s %s %s %d %d %d %d\n" % (csv(rows), csv(cost.items()), " ".join(runs), rng.choice([0, 1, 3, 5, 10, 20]), rng.randint(1, 4),
                                           rng.choice([500, 800, 950]), rng.random() < 0.4)


def run(c):
    exe = vf.Builder().harness("eval.cpp")
    c.model("Eval_MC.tla", "Eval_MC" + ("_big" if c.thorough else "") + ".cfg", workers=vf.NCPU if c.thorough else 4, timeout=3000, heap="8g")
    g = c.generate("Eval_MC.tla", "Eval_gen.cfg", c.pick(150, 3000), 17, limit=c.pick(500, 10000))
    lines = ["eval %s %s 1 %s %d %d %d\n" % (csv([(1, d, s) for d, s in x["judged"]]) if x["judged"] else "2:1:1", csv(enumerate(x["costs"], 1)),
                                           ",".join(map(str, x["run"])) or "-", c.rng.choice([0, 1, 2, 3, 5, 10]), c.rng.randint(1, 3), c.rng.choice([500, 950])) for x in g]
    scen = ["".join(lines[i:i + 25]) for i in range(0, len(lines), 25)]
    scen += ["".join(case(c.rng) for _ in range(8)) for _ in range(c.pick(30, 500))]
    scen += ["".join(whole(c.rng) for _ in range(6)) for _ in range(c.pick(12, 200))]
    runs = c.run_all(exe, scen, timeout=60)
    c.log("ran %d scenarios" % len(scen))
    c.validate("EvalTrace.tla", "EvalTrace.cfg", runs, exe, scen)
    c.assumptions += ["grades are not negative, prices of relevant documents are positive, a run returns a document once and ranks a topic's documents together",
                      "the search length of a run that finds nothing is only defined when a depth is given; the geometric mean is not specified"]


# ---- P36 ----
def scores(rng, n, high=12):
    kind = rng.randrange(5)
    if kind == 0:
        return [rng.randint(0, 2) for _ in range(n)]
    if kind == 1:
        return sorted(rng.randint(0, high) for _ in range(n))
    if kind == 2:
        return [rng.randint(0, high)] * n
    return [rng.randint(0, high) for _ in range(n)]


def pair(rng, n):
    a = scores(rng, n)
    kind = rng.randrange(6)
    if kind == 0:
        return a, list(a)
    if kind == 1:
        return a, [x + rng.randint(0, 2) for x in a]
    if kind == 2:
        return a, [12 - x for x in a]
    if kind == 3:
        return a, [x + 3 for x in a]
    return a, scores(rng, n)


def put(s):
    return ",".join(map(str, s)) or "-"


def stats_case(rng):
    out = []
    for _ in range(20):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])
        a, b = pair(rng, n)
        what = rng.choice(["ranks", "corr", "corr", "ttest", "ttest", "ttest"])
        if what == "corr":
            a, b = a[:10], b[:10]
            if len(a) < 2:
                continue
        if what == "ttest":
            n = rng.choice([2, 3, 5, 8, 15, 16, 25, 40])
            a, b = pair(rng, n)
            if rng.random() < 0.1:
                b = b[:-1]
        if what == "ranks":
            b = []
        out.append("%s %d %s %s\n" % (what, rng.choice([1, 4, 4, 12]) if what != "ranks" else 4, put(a), put(b)))
    for _ in range(2):
        names = ["r%d" % x for x in sorted(rng.sample(range(10, 99), rng.randint(2, 4)))]
        queries = sorted(rng.sample(range(100, 140), rng.randint(1, 8)))
        rows = []
        for name in names:
            mine = [q for q in queries if rng.random() < 0.85] or queries[:1]
            rows.append((name, ["%d=%d" % (q, rng.randint(0, 4)) for q in mine]))
        if rng.random() < 0.3:
            rows[-1] = (rows[-1][0], rows[0][1])
        rng.shuffle(rows)
        rows.sort(key=lambda r: r[0])
        out.append("matrix %s\n" % " ".join("%s:%s" % (n, ",".join(s)) for n, s in rows))
    metrics = rng.sample([5, 6, 7, 9, 38, 39, 41, 42], rng.randint(2, 5))
    n = rng.randint(2, 8)
    out.append("table %s\n" % " ".join("%d:%s" % (m, put(scores(rng, n))) for m in metrics))
    return "".join(out)


def stats(c):
    exe = vf.Builder().harness("eval.cpp")
    c.model("Stats_MC.tla", "Stats_MC" + ("_big" if c.thorough else "") + ".cfg", workers=vf.NCPU if c.thorough else 4, timeout=3000, heap="8g")
    scen = [stats_case(c.rng) for _ in range(c.pick(60, 1500))]
    runs = c.run_all(exe, scen, timeout=60)
    c.log("ran %d scenarios" % len(scen))
    c.validate("StatsTrace.tla", "StatsTrace.cfg", runs, exe, scen)
    c.assumptions += ["scores are quarters of small integers, at most 40 pairs (the approximation used from a thousand pairs on is not explored)",
                      "when all differences are alike and not zero the probability may be 0 or not a number"]
