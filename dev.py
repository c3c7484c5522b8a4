#!/usr/bin/env python3
"""Development helper: dev.py ENTRY [shards] [variant] [tier] [symir args...]: builds and runs one harness, prints a summary."""
import functools, concurrent.futures as cf, json, os, sys, time
import check as c
print = functools.partial(print, flush=True)
e = sys.argv[1]
sh = sys.argv[2] if len(sys.argv) > 2 else "1"
shards = range(int(sh.split('-')[0]), int(sh.split('-')[1])) if '-' in sh else range(int(sh))
var = sys.argv[3] if len(sys.argv) > 3 else "sp"
tier = int(sys.argv[4]) if len(sys.argv) > 4 else 0
extra = sys.argv[5:]
t = time.time()
try: c.build_engine(); c.build_secp(); ir = c.build_ir(var); rb = c.build_replay(var, False)
except c.Err as x: print(str(x)[:int(os.environ.get("E", "3000"))]); sys.exit(1)
print("build %.1f" % (time.time() - t))
os.makedirs("/tmp/dev", exist_ok=True)
def go(i):
    return i, c.sym(ir, {"entry": e}, i, tier, f"/tmp/dev/{e}-{i}.json", int(os.environ.get("T", "900")), extra)
with cf.ThreadPoolExecutor(8) as ex:
    for i, r in ex.map(go, shards):
        if "crash" in r: print(i, r["crash"]); continue
        print(i, f"{r['wall_s']:.1f}s load {r['load_s']:.1f} paths {r['paths']} ins {r['instructions']} q {r['queries']} solver {r['solver_s']:.1f} asserts {r['asserts_solver']}+{r['asserts_const']} covers {r['covers']} known {r['known']}")
        for k, n in r["problems"].items(): print("    PROBLEM", k, n)
        for v in r["violations"]:
            p = f"/tmp/dev/{e}-{i}.txt"; c.write_input(p, e, i, tier, v["inputs"])
            print("    VIOL", v["kind"], v["msg"], {k: x for k, x in v["inputs"].items()}, "native:", c.native(rb, p)[:2])
        bad = 0
        for w in r["witnesses"]:
            p = f"/tmp/dev/{e}-{i}-w.txt"; c.write_input(p, e, i, tier, w["inputs"])
            n = c.native(rb, p)
            if n[0] != "return" or n[2] != set(w["covers"]): bad += 1; print("    MISMATCH", n, w)
