"""P13-P15: the structures shared by threads, bound to Shared.tla (contract) and Array_MC / Tree_MC / Pool_MC (algorithms)."""
import os
import vf
from index import pct

MODELS = {"P13": ["Array_MC"], "P14": ["Tree_MC"], "P15": ["Pool_MC_solo", "Pool_MC"]}


def lists(rng, n, f):
    return " ".join(",".join(f() for _ in range(rng.choice([1, 2, 2, 3]))) for _ in range(n))


def array(rng, big):
    t = rng.choice([2, 2, 3]) if not big else rng.choice([2, 4, 8])
    per = rng.choice([1, 2, 3]) if not big else rng.choice([20, 60, 150])
    return "array %d %d %d %d" % (t, per, rng.choice([1, 1, 2, 3]), rng.choice([100, 100, 150, 200, 170]))


def words(rng):
    a = rng.choice([[b"a", b"b", b"c", b"d"], [b"a", b"aa", b"aaa", b"b"], [b"\x00", b"\xff", b"\x80\x01", b"z"], [bytes([x]) for x in range(97, 117)]])
    return a


def tree(rng, big):
    t = rng.choice([2, 2, 3]) if not big else rng.choice([3, 6, 8])
    a = words(rng) if not big else [bytes(rng.choice(b"abc\xf0") for _ in range(rng.choice([1, 2, 3, 7]))) for _ in range(rng.choice([5, 40]))]
    n = rng.choice([1, 2, 2]) if not big else rng.choice([20, 50])
    kind = rng.choice(["tree", "tree", "hash8"]) if not big else rng.choice(["tree", "hash8", "hash16"])
    return "%s %d %s" % (kind, t, " ".join(",".join(pct(rng.choice(a)) for _ in range(n)) for _ in range(t)))


def pool(rng, big):
    t = rng.choice([1, 2, 2, 3]) if not big else rng.choice([2, 5, 8])
    n = rng.choice([1, 2, 3]) if not big else rng.choice([20, 60])
    block = rng.choice([16, 64, 100, 1024])

    def one():
        return "%d:%d" % (rng.choice([1, 2, 3, 7, 8, 15, 16, 17, block - 1, block, block + 1, 2 * block + 3, rng.randint(1, 200)]), rng.choice([1, 1, 2, 4, 8, 16, 16, 32, 64]))
    w = [[one() for _ in range(n)] for _ in range(t)]
    if rng.random() < 0.3:
        total = sum(int(x.split(":")[0]) + int(x.split(":")[1]) for l in w for x in l)
        return "memory %d %d %s" % (total + rng.choice([0, 1, 50]), t, " ".join(",".join(l) for l in w))
    return "pool %d %d %s" % (block, t, " ".join(",".join(l) for l in w))


def large(c):
    """single requests larger than what the C library hands out from its heap, at every alignment"""
    return "rnd 1 1 pool %d 1 %s\n" % (c.rng.choice([1024, 300000]), ",".join("%d:%d" % (c.rng.choice([200000, 262144, 300000, 1048576]), a) for a in (1, 16, 32, 64, 128, 8)))


FAMILY = {"P13": array, "P14": tree, "P15": pool}


def run(c):
    for m in MODELS[c.prop]:
        c.model(m.split("_solo")[0] + ".tla", m + ".cfg", workers=4, timeout=600)
    if c.thorough:
        c.model(MODELS[c.prop][-1] + ".tla", MODELS[c.prop][-1] + "_big.cfg", workers=vf.NCPU, timeout=3000, heap="12g")
    c.memory_limit = 3 << 30
    force = ["-include", os.path.join(vf.HARN, "coop.h")]
    exe = vf.Builder(extra=force).harness("conc.cpp")
    real = vf.Builder(defines=["COOP_REAL"], opt="-O2", extra=force).harness("conc.cpp", name="conc-real")
    f = FAMILY[c.prop]
    scen = ["".join("sys %d %d %s\n" % (c.pick(2, 3), c.pick(1500, 40000), f(c.rng, False)) for _ in range(2)) for _ in range(c.pick(24, 100))]
    scen += ["".join("rnd %d %d %s\n" % (c.rng.randint(1, 10**6), c.pick(60, 1000), f(c.rng, False)) for _ in range(4)) for _ in range(c.pick(10, 60))]
    scen += ["".join("rnd %d %d %s\n" % (c.rng.randint(1, 10**6), c.pick(6, 60), f(c.rng, True)) for _ in range(2)) for _ in range(c.pick(10, 60))]
    if c.prop == "P15":
        scen += [large(c) for _ in range(4)]
    runs = c.run_all(exe, scen, timeout=c.pick(60, 600), env={"MALLOC_PERTURB_": "0"})
    made = sum(e.get("runs", 0) for r in runs for e in r[0])
    c.log("ran %d schedules in %d scenarios" % (made, len(scen)))
    c.cov["schedules"] = made
    c.validate("SharedTrace.tla", "SharedTrace.cfg", runs, exe, scen, run_timeout=c.pick(60, 600))
    scen = ["".join("real 0 %d %s\n" % (c.pick(15, 150), f(c.rng, True)) for _ in range(2)) for _ in range(c.pick(8, 40))]
    if c.prop == "P14":
        scen += ["real 0 1 " + f(c.rng, True).replace("hash8", "hash24").replace("tree", "hash24").replace("hash16", "hash24") + "\n"]
    runs = c.run_all(real, scen, timeout=120, par=3)
    c.validate("SharedTrace.tla", "SharedTrace.cfg", runs, real, scen, run_timeout=120, what="real-thread trace", rerun=False)
    tsan = vf.Builder(defines=["COOP_REAL"], extra=force + ["-fsanitize=thread"]).harness("conc.cpp", name="conc-tsan")
    scen = ["".join("real 0 %d %s\n" % (c.pick(4, 40), f(c.rng, True)) for _ in range(2)) for _ in range(c.pick(4, 20))]
    env = {"TSAN_OPTIONS": "exitcode=66"}
    c.memory_limit = None
    if c.run_one(tsan, "", 60, env=env)[1] == "ok":
        c.validate("SharedTrace.tla", "SharedTrace.cfg", c.run_all(tsan, scen, timeout=120, par=3, env=env), tsan, scen, run_timeout=120, what="instrumented runs", rerun=False)
    else:
        c.log("the thread sanitizer does not run here: left out")
    c.assumptions += ["schedules are explored at the granularity of atomic operations under sequential consistency",
                      "an array starts with room for at least one element and never shrinks its blocks (growth of at least 1)",
                      "readers look when the writers are done"]
