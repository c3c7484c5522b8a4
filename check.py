#!/usr/bin/env python3
"""Runs the check of one property: python3 check.py C01   (or --setup to build everything once).

The IR that is executed symbolically is regenerated from /repo's working tree whenever its content (or
the harnesses') changed since the last build.  Exit 0: held on everything explored.  Exit 1: a violation
which the natively compiled code reproduces.  Exit 2: no verdict (incomplete exploration, encoding
mismatch, build failure).
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = "/repo"
B = os.path.join(V, "build")
HARN = os.path.join(V, "harness")
ENG = os.path.join(V, "engine")
SYMIR = os.path.join(ENG, "target/release/symir")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0", RUSTFLAGS="")
for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "CARGO_PROFILE_DEV_DEBUG"):
    ENV.pop(k, None)
JOBS = 8


def log(*a):
    print(*a, flush=True)


class Err(Exception):
    pass


def run(cmd, cwd, what, timeout=1500):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode:
        raise Err(f"{what} failed ({p.returncode}):\n{p.stdout[-6000:]}")
    return p.stdout


def hash_files(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def tree(d, ext=None):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        out += [os.path.join(r, f) for f in fs if ext is None or f.endswith(ext)]
    return out


def src_key():
    return hash_files(tree(REPO + "/src") + [REPO + "/Cargo.toml"] + tree(HARN + "/harness") + tree(HARN + "/replay") + [HARN + "/Cargo.toml", HARN + "/Cargo.lock"])


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.p = os.path.join(B, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def stamp_ok(path, key):
    try:
        return open(path).read() == key
    except OSError:
        return False


def build_engine():
    with Lock("engine"):
        key = hash_files(tree(ENG + "/src") + [ENG + "/Cargo.toml"])
        st = B + "/engine.key"
        if stamp_ok(st, key) and os.path.exists(SYMIR):
            return
        for d in glob.glob(ENG + "/target/release/.fingerprint/symir-*"):
            shutil.rmtree(d)
        run(["cargo", "build", "--release", "--offline"], ENG, "building the symbolic executor")
        open(st, "w").write(key)


SECP_FLAGS = ["-S", "-emit-llvm", "-O2", "-fno-vectorize", "-fno-slp-vectorize", "-DSECP256K1_API=", "-DENABLE_MODULE_ECDH=1", "-DENABLE_MODULE_SCHNORRSIG=1",
              "-DENABLE_MODULE_EXTRAKEYS=1", "-DENABLE_MODULE_ELLSWIFT=1", "-Dprintf(...)=", "-DECMULT_WINDOW_SIZE=4", "-DECMULT_GEN_PREC_BITS=2",
              "-DUSE_EXTERNAL_DEFAULT_CALLBACKS=1"]
SECP_SRC = ["src/secp256k1", "src/precomputed_ecmult", "src/precomputed_ecmult_gen", "contrib/lax_der_parsing"]


def secp_files():
    return [f"{B}/secp/{os.path.basename(s)}.ll" for s in SECP_SRC]


def build_secp():
    """The C library under secp256k1-sys, with smaller precomputed tables (same functions, same results)."""
    with Lock("secp"):
        if all(os.path.exists(f) for f in secp_files()):
            return
        ds = glob.glob(os.path.expanduser("~/.cargo/registry/src/*/secp256k1-sys-0.10.0/depend/secp256k1"))
        if not ds:
            raise Err("secp256k1-sys 0.10.0 sources not found in the cargo registry")
        d = ds[0]
        os.makedirs(B + "/secp", exist_ok=True)
        for s, o in zip(SECP_SRC, secp_files()):
            run(["clang", *SECP_FLAGS, f"-I{d}", f"-I{d}/include", f"-I{d}/src", f"{d}/{s}.c", "-o", o + ".tmp"], B, "compiling secp256k1 to IR")
            os.rename(o + ".tmp", o)


VARIANTS = {"sp": [], "nosp": ["--no-default-features"], "ser": ["--features", "ser"]}


def clean_fingerprints(profdir):
    for n in ("psbt-v2", "harness", "replay"):
        for d in glob.glob(f"{profdir}/.fingerprint/{n}-*"):
            shutil.rmtree(d)


def tdir(variant):
    return f"{HARN}/target/{variant}"


def build_ir(variant):
    """LLVM IR of psbt-v2 (current /repo working tree), its dependencies, std and the harnesses: one module."""
    out = f"{B}/ir/{variant}.ll"
    with Lock("ir-" + variant):
        key = src_key()
        if stamp_ok(out + ".key", key) and os.path.exists(out):
            return out
        os.makedirs(B + "/ir", exist_ok=True)
        prof = tdir(variant) + "/sym"
        clean_fingerprints(prof)
        for f in glob.glob(prof + "/deps/harness-*"):
            os.remove(f)
        run(["cargo", "rustc", "--offline", "--target-dir", tdir(variant), "-p", "harness", "--lib", "--crate-type", "staticlib", "--profile", "sym",
             *VARIANTS[variant], "--", "--emit=llvm-ir"], HARN, "compiling /repo and the harnesses to LLVM IR")
        lls = glob.glob(prof + "/deps/harness-*.ll")
        if len(lls) != 1:
            raise Err(f"expected one IR file, found {lls}")
        shutil.copy(lls[0], out + ".tmp")
        os.rename(out + ".tmp", out)
        open(out + ".key", "w").write(key)
    return out


def build_replay(variant, rel):
    out = f"{B}/bin/replay-{variant}-{'release' if rel else 'dev'}"
    with Lock("replay-" + variant + ("r" if rel else "d")):
        key = src_key()
        if stamp_ok(out + ".key", key) and os.path.exists(out):
            return out
        os.makedirs(B + "/bin", exist_ok=True)
        td = tdir(variant) + "-bin"
        clean_fingerprints(td + ("/release" if rel else "/debug"))
        run(["cargo", "build", "--offline", "--target-dir", td, "-p", "replay", *VARIANTS[variant], *(["--release"] if rel else [])], HARN, "building the replay binary")
        shutil.copy(td + ("/release" if rel else "/debug") + "/replay", out + ".tmp")
        os.rename(out + ".tmp", out)
        open(out + ".key", "w").write(key)
    return out


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def native(binary, path):
    """-> (class, detail, covers) of one native run."""
    try:
        p = subprocess.run([binary, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return "timeout", "no answer in 60 s", set()
    out = p.stdout.decode("utf8", "replace")
    covers = set(re.findall(r"^COVER (.*)$", out, re.M))
    last = out.strip().splitlines()[-1] if out.strip() else ""
    cls = {0: "return", 10: "fail", 11: "known", 12: "panic", 13: "assumption", 14: "badfile"}.get(p.returncode, "abort" if p.returncode < 0 else f"exit{p.returncode}")
    return cls, last, covers


def write_input(path, entry, shard, tier, inputs, note=""):
    with open(path, "w") as f:
        if note:
            f.write("# " + note.replace("\n", " ") + "\n")
        f.write(f"harness {entry}\nshard {shard}\ntier {tier}\n")
        for n, h in inputs.items():
            f.write(f"in {n} {h}\n")


def demangled_index(ir):
    """mangled -> readable name, from the comments rustc prints above each definition."""
    names, prev = {}, ""
    rx = re.compile(r"@(\"[^\"]+\"|[\w.$]+)\(")
    with open(ir) as f:
        for l in f:
            if l.startswith("define"):
                m = rx.search(l)
                if m and prev.startswith("; "):
                    names[m.group(1).strip('"')] = prev[2:].strip()
            prev = l
    return names


def findings(prop):
    out = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def sym(ir, spec, shard, tier, out, tlimit, extra=()):
    cmd = [SYMIR, "--ir", ir]
    for f in secp_files():
        cmd += ["--ir", f]
    cmd += ["--entry", spec["entry"], "--shard", str(shard), "--tier", str(tier), "--time", str(tlimit), "--out", out]
    for k in spec.get("keys", []):
        cmd += ["--key", k]
    cmd += list(spec.get("args", [])) + list(extra)
    t = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or not os.path.exists(out):
        return {"entry": spec["entry"], "shard": shard, "crash": f"executor exit {p.returncode}: {p.stdout[-1500:]}"}
    r = json.load(open(out))
    r["proc_s"] = time.time() - t
    return r


def main():
    if sys.argv[1:] == ["--setup"]:
        build_engine()
        build_secp()
        with cf.ThreadPoolExecutor(6) as ex:
            fs = [ex.submit(build_ir, v) for v in VARIANTS] + [ex.submit(build_replay, v, False) for v in VARIANTS]
            for f in fs:
                f.result()
            for f in [ex.submit(build_replay, v, True) for v in VARIANTS]:
                f.result()
        log("setup done")
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    tn = 1 if tier == "thorough" else 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from checks.table import CHECKS
    chk = CHECKS[prop]
    specs = chk["harnesses"]
    specs = [s for s in specs if tn or not s.get("thorough_only")]
    try:
        build_engine()
        build_secp()
        variants = sorted({s.get("variant", "sp") for s in specs})
        irs = {v: build_ir(v) for v in variants}
    except (Err, subprocess.TimeoutExpired) as e:
        log(str(e))
        return 2
    tb = time.time() - t0
    bins, berr = {}, []

    def build_bins():
        for v in variants:
            for rel in (False, True):
                try:
                    bins[v, rel] = build_replay(v, rel)
                except (Err, subprocess.TimeoutExpired) as e:
                    berr.append(str(e))

    bt = threading.Thread(target=build_bins)
    bt.start()
    work = f"{B}/run/{prop}-{os.getpid()}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    tlimit = (chk.get("thorough_time", 3000) if tn else chk.get("quick_time", 420))
    jobs = []
    for s in specs:
        n = s.get("tshards", s.get("shards", 1)) if tn else s.get("shards", 1)
        jobs += [(s, i) for i in range(n)]
    results = []
    found = threading.Event()

    def job(s, i):
        if found.is_set():  # a violation was found elsewhere: the rest need not be explored
            return {"entry": s["entry"], "shard": i, "crash": "not run after a violation elsewhere"}
        r = sym(irs[s.get("variant", "sp")], s, i, tn, f"{work}/{s['entry']}-{s.get('variant','sp')}-{i}.json", tlimit)
        if r.get("violations"):
            found.set()
        return r

    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(job, s, i): (s, i) for s, i in jobs}
        for f in cf.as_completed(futs):
            results.append((*futs[f], f.result()))
    bt.join()
    results.sort(key=lambda x: (x[0]["entry"], x[0].get("variant", "sp"), x[1]))
    if berr:
        log(berr[0])
        return 2
    problems, violations, knownhit = [], [], {}
    known = findings(prop)
    rdir = f"{V}/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(f"{rdir}/{prop}-*"):
        os.remove(f)
    nval = 0
    tot = {k: 0 for k in ("instructions", "forks", "queries", "cached", "byte_domain", "sat", "unsat", "unknown", "asserts_const", "asserts_solver", "assumed_keys")}
    paths, solver_s, max_q = {}, 0.0, 0.0
    funcs = set()
    per, samples, z3v = [], [], set()
    covers = {}
    for s, i, r in results:
        name = f"{s['entry']}[{s.get('variant','sp')},{i}]"
        if "crash" in r:
            problems.append(f"{name}: {r['crash']}")
            continue
        for k in tot:
            tot[k] += r[k]
        for k, n in r["paths"].items():
            paths[k] = paths.get(k, 0) + n
        solver_s += r["solver_s"]
        max_q = max(max_q, r["max_query_s"])
        z3v.add(r["z3"])
        funcs |= {(s.get("variant", "sp"), f) for f in r["functions"]}
        covers.setdefault(s["entry"] + "/" + s.get("variant", "sp"), set()).update(r["covers"])
        per.append({"harness": s["entry"], "variant": s.get("variant", "sp"), "shard": i, "paths": r["paths"], "instructions": r["instructions"], "queries": r["queries"],
                    "asserts_decided_by_solver": r["asserts_solver"], "asserts_decided_by_path": r["asserts_const"], "solver_s": round(r["solver_s"], 3), "wall_s": r["wall_s"]})
        for m, n in r["problems"].items():
            problems.append(f"{name}: {m} (x{n})")
        v = s.get("variant", "sp")
        bs = [bins[v, False], bins[v, True]]
        for j, viol in enumerate(r["violations"]):
            path = f"{rdir}/{prop}-{s['entry']}-{v}-{i}-{j}.txt"
            write_input(path, s["entry"], i, tn, viol["inputs"], f"{viol['kind']}: {viol['msg']}")
            res = [native(b, path) for b in bs]
            hit = [x for x in res if x[0] in ("fail", "panic", "abort", "timeout")]
            if hit:
                with open(path, "a") as f:
                    f.write(f"# native: {hit[0][0]} {hit[0][1]}\n# run: {bs[0]} {path}\n")
                violations.append((path, f"{name}: {viol['msg']} -> native {hit[0][0]}: {hit[0][1]}", viol["inputs"]))
            else:
                problems.append(f"{name}: counterexample does not reproduce natively ({viol['kind']}: {viol['msg']}; native {res[0][:2]}, {res[1][:2]}), see {path}")
        for kid, inp in r["known_inputs"].items():
            path = f"{rdir}/{prop}-known-{kid}-{s['entry']}-{v}-{i}.txt"
            write_input(path, s["entry"], i, tn, inp, f"known finding {kid}")
            res = [native(b, path) for b in bs]
            if any(x[0] == "known" for x in res) and res[0][1] == f"KNOWN {kid}" or any(x[0] in ("panic", "abort") for x in res):
                if kid in known:
                    knownhit.setdefault(kid, path)
                else:
                    violations.append((path, f"{name}: {kid} (not a listed finding)", inp))
            else:
                problems.append(f"{name}: known finding {kid} does not reproduce natively: {res[0][:2]} {res[1][:2]}")
        ws = r["witnesses"]
        cap = 40 if tn else 12
        if len(ws) > cap:
            ws = [ws[(k * len(ws)) // cap] for k in range(cap)]
        for j, w in enumerate(ws):
            path = f"{work}/w-{s['entry']}-{v}-{i}-{j}.txt"
            write_input(path, s["entry"], i, tn, w["inputs"])
            for b in bs:
                c, d, cov = native(b, path)
                if c != "return" or cov != set(w["covers"]):
                    keep = f"{rdir}/{prop}-mismatch-{s['entry']}-{v}-{i}-{j}.txt"
                    shutil.copy(path, keep)
                    problems.append(f"{name}: native run disagrees with the encoding on a witness ({c} {d}; covers differ by {sorted(cov ^ set(w['covers']))[:4]}), see {keep}")
                    break
                nval += 1
        if ws and len(samples) < 10:
            samples.append({"harness": s["entry"], "inputs": {k: (x if len(x) <= 160 else x[:160] + "...") for k, x in list(ws[-1]["inputs"].items())[:30]}, "reached": ws[-1]["covers"][:8]})
    for s in specs:
        got = covers.get(s["entry"] + "/" + s.get("variant", "sp"), set())
        for c in s.get("covers", []) + (s.get("tcovers", []) if tn else []):
            if c not in got:
                problems.append(f"{s['entry']}: required cover point never reached: {c} (vacuity guard)")
        if not got:
            problems.append(f"{s['entry']}: no cover point reached (vacuity guard)")
    names = {v: demangled_index(irs[v]) for v in variants}
    fl = sorted({names[v].get(f, f) for v, f in funcs})
    repo_f = [f for f in fl if "psbt_v2::" in f]
    complete = not problems
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": chk.get("level", "model_checking"),
        "coverage": {
            "states": sum(n for k, n in paths.items() if k != "infeasible"),
            "transitions": tot["instructions"],
            "traces_validated_against_impl": nval,
            "samples": samples,
            "explanation": "states: feasible execution paths (equivalence classes of inputs) explored; transitions: LLVM IR instructions executed symbolically; "
                           "traces_validated_against_impl: native runs (dev and release builds) of solver models, compared with the encoding's outcome and cover points.",
            "exhaustive_within_bounds": complete,
            "bounds": chk["bounds"],
            "paths": paths, "forks": tot["forks"],
            "solver": {"versions": sorted(z3v), "z3_queries": tot["queries"], "z3_sat": tot["sat"], "z3_unsat": tot["unsat"], "z3_unknown": tot["unknown"],
                       "answered_by_query_cache": tot["cached"], "answered_by_exact_byte_domain": tot["byte_domain"], "solver_s": round(solver_s, 3), "max_query_s": round(max_q, 4)},
            "assertions": {"decided_by_solver_query": tot["asserts_solver"], "true_on_path_condition": tot["asserts_const"]},
            "public_key_parses_assumed_in_key_set": tot["assumed_keys"],
            "cover_points_reached": sum(len(c) for c in covers.values()),
            "functions_encoded_total": len(fl), "functions_encoded_repo": repo_f,
            "harnesses": per, "build_s": round(tb, 2),
        },
        "assumptions": chk.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if known:
        ev["coverage"]["known_findings_seen"] = sorted(knownhit)
    if problems:
        ev["coverage"]["problems"] = problems[:40]
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    log(f"{prop} {tier}: {ev['coverage']['states']} paths, {tot['instructions']} instructions, {tot['queries']} Z3 queries ({solver_s:.1f} s), "
        f"{tot['asserts_solver']}+{tot['asserts_const']} assertions, {nval} native replays, build {tb:.0f} s, total {ev['wall_s']:.0f} s")
    for p in [p for p in problems if "not run after" not in p or not violations][:20]:
        log("PROBLEM:", p)
    for kid, path in sorted(knownhit.items()):
        log(f"KNOWN-FINDING: property={prop} {kid}: {known[kid]}")
    for path, m, inp in violations:
        log(f"  {m}")
        log(f"VIOLATION property={prop} replay={path}")
    if violations:
        return 1
    if problems:
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "rustc's lowering to LLVM IR at opt-level 1 (overflow checks and debug assertions on) preserves the source's meaning; the executor's IR semantics are cross-checked by native replays of solver models",
    "allocation never fails below 64 MiB per request; a larger request counts as a violation",
    "printing to stdout/stderr has no effect; panics count as violations",
]

if __name__ == "__main__":
    sys.exit(main())
