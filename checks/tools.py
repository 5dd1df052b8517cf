"""P37: the small programs that turn one kind of file into another, bound to Tools.tla."""
import concurrent.futures as cf
import os
import re
import struct
import subprocess
import tempfile
import vf

NAMES = ["ECOM19_to_JASS_eval", "ECOM19_to_run", "bin_to_human", "hash"]


def idents(rng, n, top):
    return rng.sample(range(0 if rng.random() < 0.3 else 1, top + 1), n)


def matrix(rng, docs, queries, values, blank):
    rows = [[d, [rng.choice(values) for _ in queries]] for d in docs]
    text = "%s\t%s\n" % (rng.choice(["0", "ID", "doc"]) if blank else "0", "\t".join(map(str, queries)))
    text += "".join("%d\t%s\n" % (d, "\t".join(map(str, v))) for d, v in rows)
    return {"queries": queries, "rows": rows}, text[:-1] if rng.random() < 0.2 else text


def prices(rng, docs):
    table = [[d, rng.choice([0, 1, 99, 100, 250, 1999, rng.randint(0, 99999)])] for d in docs]
    text = "ID\tprice" + rng.choice(["", "\ttitle"]) + "\n"
    for d, p in table:
        text += "%d\t%s%s\n" % (d, "%d.%02d" % divmod(p, 100) if p % 100 or rng.random() < 0.5 else str(p // 100), rng.choice(["", "\tcheap 12 thing"]))
    return table, text


def ecom(rng):
    top = rng.choice([5, 9, 40, 3000])
    docs = idents(rng, rng.randint(1, min(top, 5 if rng.random() < 0.7 else 30)), top)
    queries = idents(rng, rng.randint(1, 4), rng.choice([4, 9, 200]))
    table, text = prices(rng, docs)
    return docs, queries, table, text


def scenario(rng):
    """(program, files, arguments, given): what is run and what it is given"""
    kind = rng.choice(["assessments", "run", "run", "readable", "hash"])
    if kind == "assessments":
        docs, queries, table, text = ecom(rng)
        m, mt = matrix(rng, rng.sample(docs, rng.randint(1, len(docs))), queries, rng.choice([[0, 1, -1], [0, 0, 1], [-1]]), True)
        return "ECOM19_to_JASS_eval", {"docs": text, "judged": mt}, ["docs", "judged"], {"e": kind, "docs": table, "matrix": m}
    if kind == "run":
        docs, queries, table, text = ecom(rng)
        t, tt = matrix(rng, rng.sample(docs, rng.randint(1, len(docs))), queries if rng.random() < 0.5 else rng.sample(queries, len(queries)) + idents(rng, 2, 9)[:rng.randint(0, 2)], [0, 0, 1, -1], False)
        m, mt = matrix(rng, rng.sample(docs, rng.randint(1, len(docs))), queries, rng.choice([[0, 1], [1], [0, 1, -1]]), False)
        return "ECOM19_to_run", {"docs": text, "training": tt, "run": mt}, ["docs", "training", "run", "NAME"], {"e": kind, "docs": table, "run": m, "training": t}
    if kind == "readable":
        lists = [[rng.choice([0, 1, 2 ** 31, 2 ** 32 - 1, rng.randint(0, 10 ** 6)]) for _ in range(rng.choice([0, 1, 2, 7, 300]))] for _ in range(rng.choice([0, 1, 2, 5]))]
        data = b"".join(struct.pack("<I", len(x)) + struct.pack("<%dI" % len(x), *x) for x in lists)
        cut = rng.random() < 0.2
        if cut:
            data += struct.pack("<IIII", 5, 1, 2, 3)[:rng.choice([4, 8, 15, 16])]
        return "bin_to_human", {"lists": data}, ["lists"], {"e": kind, "lists": [[str(x) for x in l] for l in lists], "cut": cut}
    files = [bytes(rng.choice([0, 255, 254, 10, 32, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 2, 255, 256, 257, 600]))) for _ in range(rng.choice([1, 1, 3]))]
    return "hash", {"f%d" % i: x for i, x in enumerate(files)}, ["f%d" % i for i in range(len(files))], {"e": kind, "given": [list(x) for x in files]}


def cents(text):
    return int(text[:-3]) * 100 + int(text[-2:])


def parsed(given, args, out):
    """the output in the shape of the specification; nothing that does not have that shape is let through"""
    e = dict(given)
    lines = out.split("\n")
    if lines.pop() != "":
        return None
    if e["e"] == "assessments":
        p = [re.fullmatch(r"PRICE 0 (\d+) (\d+\.\d\d)", l) for l in lines]
        n = sum(1 for x in p if x)
        q = [re.fullmatch(r"(\d+) 0 (\d+) (\d+)", l) for l in lines[n:]]
        if not all(p[:n]) or not all(q):
            return None
        e["prices"] = [[int(x.group(1)), cents(x.group(2))] for x in p[:n]]
        e["lines"] = [[int(y) for y in x.groups()] for x in q]
    elif e["e"] == "run":
        q = [re.fullmatch(r"(\d+) Q0 (\d+) (\d+) (\d+) NAME", l) for l in lines]
        if not all(q):
            return None
        e["lines"] = [[int(y) for y in x.groups()] for x in q]
    elif e["e"] == "readable":
        if lines[0] != "Using:lists":
            return None
        e["printed"] = []
        for l in lines[1:]:
            if l == "i/o error":
                e["printed"].append([l])
            elif re.fullmatch(r"\d+:(\d+ )*", l):
                n, rest = l.split(":")
                e["printed"].append([n] + rest.split())
            else:
                return None
    else:
        if lines[0] != "Fletcher 16 Checksum" or len(lines) != len(args) + 1:
            return None
        q = [re.fullmatch(r"0x([0-9A-F]{4}) : %s" % a, l) for a, l in zip(args, lines[1:])]
        if not all(q):
            return None
        e["printed"] = [int(x.group(1), 16) for x in q]
    return e


def execute(c, exe, s):
    name, files, args, given = s
    d = tempfile.mkdtemp(prefix="tool", dir=c.work)
    for f, t in files.items():
        with open(os.path.join(d, f), "wb") as h:
            h.write(t if isinstance(t, bytes) else t.encode())
    try:
        r = subprocess.run([exe[name]] + args, cwd=d, capture_output=True, timeout=60, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return [], "hang", ""
    finally:
        for f in files:
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    if r.returncode < 0:
        return [], "crash:signal %d" % -r.returncode, r.stderr.decode("latin-1")[-500:]
    out = r.stdout.decode("latin-1")
    e = parsed(given, args, out)
    return ([e], "ok", "") if e else ([], "output of no known shape", out[-1500:])


def run(c):
    b = vf.Builder()
    with cf.ThreadPoolExecutor(4) as ex:
        exe = dict(zip(NAMES, ex.map(lambda n: b.program("tools/%s.cpp" % n), NAMES)))
    c.model("Tools_MC.tla", "Tools_MC_big.cfg" if c.thorough else "Tools_MC.cfg", workers=vf.NCPU, timeout=3000, heap="8g")
    scen = [scenario(c.rng) for _ in range(c.pick(400, 8000))]
    with cf.ThreadPoolExecutor(vf.NCPU) as ex:
        runs = list(ex.map(lambda s: execute(c, exe, s), scen))
    c.log("ran %d programs" % len(scen))
    c.validate("ToolsTrace.tla", "ToolsTrace.cfg", runs, None, [str(s)[:3000] for s in scen])
    c.assumptions += ["identifiers are numbers and prices have two decimals", "no document or query has two rows or columns that contradict each other"]
