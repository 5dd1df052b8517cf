"""Development aid: which /repo source files does a harness really need?  python3 lib/closure.py harness.cpp [extra...]
Records the answer in lib/closures.json (an optimisation only: a link failure falls back to the whole library)."""
import sys, os, json, subprocess, tempfile, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, concurrent.futures as cf
cfile = os.path.join(vf.VERIF, "lib", "closures.json")
def closure(harness, extra=(), defines=()):
    b = vf.Builder(opt="-O1", defines=defines)
    srcs = [os.path.join(vf.REPO, "source", f) for f in sorted(os.listdir(vf.REPO + "/source")) if f.endswith(".cpp")] + vf.generated_sources()
    with cf.ThreadPoolExecutor(8) as ex:
        objs = [o for o, e in ex.map(b.compile, srcs)]
    mine = [b.compile(os.path.join(vf.REPO if '/' in harness else vf.HARN, harness))] + [b.compile(e) for e in extra]
    for o, e in mine:
        if o is None: sys.exit(e)
    d = tempfile.mkdtemp(dir=vf.BUILD)
    names = {os.path.basename(o): os.path.basename(s) for o, s in zip(objs, srcs)}
    subprocess.check_call(["ar", "rc", d + "/l.a"] + objs)
    subprocess.check_call([vf.CXX] + [o for o, _ in mine] + [d + "/l.a", "-o", d + "/x", "-lpthread", "-lz", "-lzstd", "-Wl,-Map," + d + "/map"])
    used = sorted({names[m] for m in re.findall(r"l\.a\(([0-9a-f]+\.o)\)", open(d + "/map").read()) if m in names})
    subprocess.call(["rm", "-r", d])
    return used
if __name__ == "__main__":
    c = json.load(open(cfile)) if os.path.exists(cfile) else {}
    h = sys.argv[1]
    c[h] = closure(h, [vf.REPO + "/" + e for e in sys.argv[2:]])
    json.dump(c, open(cfile, "w"), indent=0, sort_keys=True)
    print(h, len(c[h]), c[h])
