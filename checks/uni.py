"""P34: character classes, normalisation and UTF-8 against the Unicode database."""
import json, os
import vf


def database():
    """The database files as they are published; an independent reading of them."""
    U = os.path.join(vf.REPO, "external", "Unicode")
    cats, decomp, first = [], [], None
    for line in open(os.path.join(U, "UnicodeData.txt"), encoding="ascii"):
        f = line.rstrip("\r\n").split(";")
        if len(f) < 6:
            continue
        cp = int(f[0], 16)
        if f[1].endswith(", First>"):
            first = cp
            continue
        lo = first if f[1].endswith(", Last>") else cp
        first = None
        if cats and cats[-1][2] == f[2] and cats[-1][1] + 1 == lo:
            cats[-1][1] = cp
        else:
            cats.append([lo, cp, f[2]])
        d = [int(x, 16) for x in f[5].split() if not x.startswith("<")]
        if d:
            decomp.append([cp, d])
    props = {}
    for line in open(os.path.join(U, "PropList.txt"), encoding="utf-8"):
        line = line.split("#")[0]
        if ";" in line:
            r, name = [x.strip() for x in line.split(";")]
            lo, _, hi = r.partition("..")
            props.setdefault(name, []).append([int(lo, 16), int(hi or lo, 16)])
    fold = {}
    for line in open(os.path.join(U, "CaseFolding.txt"), encoding="utf-8"):
        f = [x.strip() for x in line.split("#")[0].split(";")]
        if len(f) > 2 and f[1] in "CF":
            fold[int(f[0], 16)] = [int(x, 16) for x in f[2].split()]
    return {"cats": cats, "props": sorted([n, r] for n, r in props.items()), "decomp": sorted(decomp), "fold": sorted([c, f] for c, f in fold.items())}


def pct(b):
    return "".join("%%%02X" % x for x in b)


def run(c):
    db = database()
    path = os.path.join(c.work, "unicode.json")
    json.dump(db, open(path, "w"))
    exe = vf.Builder(extra=["-fsanitize=address"]).harness("uniclass.cpp")
    c.memory_limit = None
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0"}
    c.model("Unicode_MC.tla", "Unicode_MC" + ("_big" if c.thorough else "") + ".cfg", workers=4, timeout=1800)
    special = sorted({x[0] for x in db["decomp"]} | {x[0] for x in db["fold"]})
    scen = ["classes\n", "plain %s\nlength\n" % ",".join(map(str, special))]
    step = (len(special) + 5) // 6
    for i in range(0, len(special), step):
        part = special[i:i + step]
        scen.append("".join("normal %s\n" % ",".join(map(str, part[k:k + 100])) for k in range(0, len(part), 100)))
    rng = c.rng
    for _ in range(c.pick(4, 40)):
        lines = []
        for _ in range(10):
            lines.append("encode %s\n" % ",".join(str(rng.randint(0, rng.choice([200, 3000, 70000, 0x10FFFF]))) for _ in range(50)))
            bs = []
            for _ in range(60):
                k = rng.random()
                if k < 0.4:
                    b = chr(rng.choice([rng.randint(0, 0xD7FF), rng.randint(0xE000, 0x10FFFF), rng.randint(0x70, 0x900)])).encode()
                    b = b[:rng.randint(1, 4)] + bytes(rng.randint(0, 255) for _ in range(rng.randint(0, 2)))
                else:
                    b = bytes([rng.choice([0, 0x7F, 0x80, 0xBF, 0xC0, 0xC1, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF7, 0xF8, 0xFE, 0xFF, rng.randint(0, 255)])]
                              + [rng.choice([0x80, 0xBF, 0x90, 0x8F, 0x41, 0xC0, rng.randint(128, 191)]) for _ in range(rng.randint(0, 4))])
                bs.append(pct(b))
            lines.append("decode %s\n" % " ".join(bs))
        scen.append("".join(lines))
    runs = c.run_all(exe, scen, timeout=120, env=env)
    c.log("ran %d scenarios, %d code points decompose or fold" % (len(scen), len(special)))
    c.validate("UnicodeTrace.tla", "UnicodeTrace.cfg", runs, exe, scen, run_env=env, env={"DATABASE": path})
    c.assumptions += ["the database files in external/Unicode are the published ones", "code points are at most 10FFFF"]
