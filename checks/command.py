"""P26 the command line."""
import vf

TYPES = ["bool", "string", "int", "uint", "double", "short", "ushort", "long", "ulong", "llong", "ullong", "float", "bool", "string", "int", "uint", "double", "bool"]
BITS = {"short": 15, "ushort": 16, "int": 31, "uint": 32, "long": 63, "ulong": 64, "llong": 63, "ullong": 64}


def pct(s):
    return "".join("%%%02X" % x for x in s.encode()) if s else "%"


def whole(rng, t):
    b = BITS[t]
    n = rng.choice([0, 1, 7, 42, rng.randrange(2 ** b), 2 ** b - 1, 2 ** b, 2 ** b + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 5, 10 ** 25, rng.randrange(1000)])
    if rng.random() < 0.3:
        n = -n
    sign = "-" if n < 0 else rng.choice(["", "", "", "+"])
    if n == 0 and rng.random() < 0.2:
        sign = "-"
    n = abs(n)
    return sign + rng.choice(["%d", "%d", "%d", "%d", "0x%x", "0X%X", "0%o"]) % n


def fraction(rng, t):
    k = rng.random()
    if k < 0.15:
        return rng.choice(["0", "0.0", "-0.5", "1", "-1", "0.9", ".4", "-.25", "1.", "+2.5", "1e2", "-1.5e2", "5e-1", "1E+1", "100e-2", "0e5", "-0", "0.000001", "-0.000001", "1999.5"])
    if k < 0.3:
        return rng.choice(["", "-"]) + (rng.choice(["1e39", "5.5e40", "9e300"]) if t == "float" else rng.choice(["1e309", "2e999", "12e308", "9" * 320]))
    if k < 0.4:
        return rng.choice(["abc", "", "-", ".", "e5", "--x", "-e", "+"])
    if k < 0.45:
        return rng.choice(["1e-40", "1e-400", "-1e-50", "0." + "0" * 50 + "1"])
    return rng.choice(["", "", "-"]) + "%.*f" % (rng.randint(0, 6), rng.uniform(0, rng.choice([1, 10, 1900])))


def text(rng):
    return rng.choice(["", "x", "file.txt", "-b", "--none", "a b", "=5", "\u00e9", "0", "%", "-", "12"])


def value(rng, t):
    return text(rng) if t == "string" else fraction(rng, t) if t in ("float", "double") else whole(rng, t)


def names(rng):
    """names that run into one another: -r, -rh, --rho, --rho_min"""
    k = rng.random()
    if k < 0.3:
        letters = [c for c in "abcdefghijklmnopqrstuvwxyzABC"]
        rng.shuffle(letters)
        return [("-" + letters[i], "--" + letters[i] * 2 + "name") for i in range(18)]
    if k < 0.75:
        stem = rng.choice(["r", "I", "k"])
        pool = ["-" + stem + s for s in ("", "h", "ho", "1", "2", "12", "hom", "x", "xy", "R", "Rr")] + ["-q", "-Q", "-qq", "-\u211d", "-\u230ar\u230b", "-t", "-top"]
        full = ["--rho" + s for s in ("", "_min", "_", "_max", "_minimum", "2", "R")] + ["--RHO", "--r", "--q", "--query", "--queryfile", "--query_file", "--k", "--top-k", "--top", "--tops", "--w"]
        rng.shuffle(pool)
        rng.shuffle(full)
        return list(zip(pool, full))
    out = []
    for _ in range(18):         # anything goes, also the same name twice
        out.append(tuple(rng.choice(["-", "--", "", "+"]) + rng.choice(["a", "ab", "abc", "b", "ba", "aa"]) for _ in range(2)))
    return out


def one(rng):
    lines, ns = [], names(rng)
    for i in range(18):
        if rng.random() < 0.3:
            ns[i] = ("", "")
    words = ["options"]
    for i, (a, b) in enumerate(ns):
        words += [pct(a), pct(b), pct(rng.choice(["What %d is for" % i, "", "[default = 10]", "SECTION"]))]
    lines.append(" ".join(words))
    used = [i for i in range(18) if ns[i][0]]
    every = [n for i in used for n in ns[i]]

    def best(a):        # only to know where a bool's name would be followed by something, which is not defined
        fit = [n for n in every if a.startswith(n)]
        if not fit:
            return None, None
        n = max(fit, key=len)
        return n, min(i for i in used if n in ns[i])

    for _ in range(rng.choice([1, 3, 6])):
        args, waits = [], None
        for _ in range(rng.choice([0, 1, 2, 3, 6, 12])):
            if waits is not None:
                args.append(value(rng, TYPES[waits]))
                waits = None
                continue
            k = rng.random()
            if k < 0.1 or not used:
                a = rng.choice(["file", "-", "", "--", "-zz", "rho", "-\u00e9"])
            else:
                i = rng.choice(used)
                a = rng.choice(ns[i])
                if TYPES[i] != "bool" and k < 0.55:
                    v = value(rng, TYPES[i])
                    a += v
            n, j = best(a)
            if n is None:
                args.append(a)
                continue
            rest = a[len(n):]
            t = TYPES[j]
            if t == "bool" and rest:
                continue
            if rest and t in BITS:
                try:
                    int(rest.lstrip("+-"), 8 if rest.lstrip("+-").startswith("0") and rest.lstrip("+-")[1:2] not in ("x", "X") and rest.lstrip("+-") != "0" else 0)
                    if rest[1:2] in ("+", "-"):
                        continue
                except ValueError:
                    continue            # what follows a number, or stands where one should, is not defined
            if rest and t in ("float", "double"):
                import re
                if not re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", rest) and not re.fullmatch(r"[+-]?([.]|[a-z].*)?|--.*", rest):
                    continue
                if re.match(r"[+-]?(inf|nan)", rest, re.I):
                    continue
                m = re.fullmatch(r"[+-]?(\d*)\.?(\d*)([eE]([+-]?\d+))?", rest)
                if m and m.group(1) + m.group(2):
                    size = len(m.group(1).lstrip("0")) + int(m.group(4) or 0)
                    if 3 < size < (40 if t == "float" else 310) or (t == "double" and size == 309):
                        if not set(m.group(1) + m.group(2)) <= {"0"} and abs(float(rest)) >= 2000:
                            continue
            args.append(a)
            if not rest and t != "bool":
                waits = j
        lines.append(" ".join(["parse"] + [pct(a) for a in args]))
    if rng.random() < 0.6:
        lines.insert(rng.randint(1, len(lines)), "usage")
    return "\n".join(lines) + "\n"


FAMILY = {"P26": one}


def run(c):
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99"}
    c.memory_limit = None
    exe = vf.Builder(extra=["-fsanitize=address"]).harness("command.cpp")
    c.model("Command_MC.tla", "Command_MC_big.cfg" if c.thorough else "Command_MC.cfg", workers=vf.NCPU if c.thorough else 4, timeout=3000)
    scen = ["".join(one(c.rng) for _ in range(6)) for _ in range(c.pick(120, 4000))]
    runs = c.run_all(exe, scen, timeout=60, env=env)
    c.log("ran %d scenarios" % len(scen))
    c.validate("CommandTrace.tla", "CommandTrace.cfg", runs, exe, scen, run_env=env)
    c.assumptions += ["text after a number, text joined to an option that takes no value, and words given for whole numbers are not generated",
                      "fractions are compared to a millionth, up to 2000"]
