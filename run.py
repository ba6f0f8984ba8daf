#!/usr/bin/env python3
"""Build the instrumented code from /repo's current tree, run the symbolic
harnesses of one property, replay every counterexample on the plain build and
write evidence/<id>.json.   usage: run.py <property> [--tier quick|thorough]"""
import sys, os, re, json, time, hashlib, subprocess, glob, shutil, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYM_REPO", "/repo")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CACHE = os.path.join(HERE, ".cache")
ENG = os.path.join(HERE, "engine")
T0 = time.time()

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def die(msg, code=2):
    print(msg, flush=True)
    sys.exit(code)

_sha = {}
def sha(p):
    if p not in _sha:
        try:
            _sha[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
        except OSError:
            _sha[p] = "missing"
    return _sha[p]

def key(*a):
    return hashlib.sha1("\0".join(a).encode()).hexdigest()[:20]

def build(out, cmd, deps_fixed, depfile=None):
    """run cmd to produce out unless the recorded inputs are unchanged"""
    meta = out + ".json"
    sig = key(*cmd, *[sha(d) for d in deps_fixed])
    try:
        m = json.load(open(meta))
        if m["sig"] == sig and os.path.exists(out) and all(sha(p) == h for p, h in m["deps"].items()):
            return None
    except Exception:
        pass
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = sh(cmd)
    if r.returncode:
        raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), "\n".join([l for l in r.stdout.splitlines() if "error:" in l][:12]) or r.stdout[-3000:]))
    deps = {}
    if depfile:
        t = open(depfile).read().replace("\\\n", " ").split(":", 1)[1]
        for p in t.split():
            deps[p] = sha(p)
        os.remove(depfile)
    json.dump({"sig": sig, "deps": deps}, open(meta, "w"))
    return out

ENGINE_UNITS = ["expr", "runtime", "solve", "real", "main"]
def engine(pool):
    """returns (plugin future, finalise())"""
    e = os.path.join(CACHE, "engine")
    os.makedirs(e, exist_ok=True)
    hdr = sorted(glob.glob(ENG + "/rt/*.h")) + [ENG + "/include/sym.h"]
    plug = e + "/Sym.so"
    cpp = sh(["llvm-config-18", "--cppflags"]).stdout.split()
    fp = pool.submit(build, plug, ["clang++-18", "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti", *cpp,
                                   ENG + "/pass/SymPass.cpp", "-o", plug], [ENG + "/pass/SymPass.cpp"])
    fs = []
    for u in ENGINE_UNITS:
        fs.append(pool.submit(build, f"{e}/{u}.o", ["clang++-18", "-std=c++20", "-O2", "-g1", "-fno-omit-frame-pointer",
                  "-D_GLIBCXX_EXTERN_TEMPLATE=0", f"-I{Z3}/include", "-c", f"{ENG}/rt/{u}.cpp", "-o", f"{e}/{u}.o"], hdr + [f"{ENG}/rt/{u}.cpp"]))
    fs.append(pool.submit(build, f"{e}/heap.o", ["clang++-18", "-std=c++20", "-O2", "-c", f"{ENG}/rt/heap.cpp", "-o", f"{e}/heap.o"], hdr + [f"{ENG}/rt/heap.cpp"]))
    fs.append(pool.submit(build, f"{e}/replay.o", ["clang++-18", "-std=c++20", "-O1", "-c", f"{ENG}/rt/replay.cpp", "-o", f"{e}/replay.o"], hdr + [f"{ENG}/rt/replay.cpp"]))
    def stdinst():
        fp.result()
        return build(f"{e}/stdinst.o", ["clang++-18", "-std=c++20", "-O1", f"-fpass-plugin={plug}", "-c", f"{ENG}/rt/stdinst.cpp", "-o", f"{e}/stdinst.o"],
                     [ENG + "/rt/stdinst.cpp", ENG + "/pass/SymPass.cpp"])
    fs.append(pool.submit(stdinst))
    def fin():
        for f in fs:
            f.result()
        objs = [f"{e}/{u}.o" for u in ENGINE_UNITS]
        if not os.path.exists(e + "/engine.o") or any(os.path.getmtime(o) > os.path.getmtime(e + "/engine.o") for o in objs):
            r = sh(["ld", "-r", "--force-group-allocation", *objs, "-o", e + "/eng0.o"])
            r2 = sh(["objcopy", "-w", "--keep-global-symbol=__sym*", "--keep-global-symbol=sym_*", "--keep-global-symbol=main",
                     "--keep-global-symbol=_ZN10SymHarness*", "--redefine-sym", "_Znwm=__eng_new", "--redefine-sym", "_ZdlPv=__eng_del",
                     "--redefine-sym", "_ZdlPvm=__eng_dels", e + "/eng0.o", e + "/engine.o"])
            if r.returncode or r2.returncode:
                raise RuntimeError("engine link failed: " + r.stdout + r2.stdout)
        return e
    return fp, fin

MODULES = {  # directories globbed per module, with the modules each links against
    "ir": ["src/ir", "src/ir/operations"], "qasm3": ["src/qasm3", "src/qasm3/passes"],
    "opt": ["src/circuit_optimizer"], "dd": ["src/dd", "src/dd/statistics"], "zx": ["src/zx"],
    "na": ["src/na", "src/na/operations", "src/na/entities"], "ds": ["src/datastructures"], "alg": ["src/algorithms"],
}
DEFS = ["-DMQT_CORE_%s_STATIC_DEFINE" % m for m in "IR DD ZX NA CIRCUIT_OPTIMIZER DS QASM ALGORITHMS".split()]
COMMON = ["clang++-18", "-std=c++17", "-DNDEBUG", *DEFS, f"-I{HERE}/stubs", f"-I{REPO}/include/mqt-core", f"-I{REPO}/include", f"-I{ENG}/include", "-I" + HERE + "/harness", "-w"]
INSTR = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS"]
PLAIN = ["-O1", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS"]

def sources(mods):
    out = []
    for m in mods:
        if m.endswith(".cpp"):
            out.append(os.path.join(REPO, m))
            continue
        for d in MODULES[m]:
            out += sorted(glob.glob(os.path.join(REPO, d, "*.cpp")))
    return list(dict.fromkeys(out))

def program(name, cfg, want_plain=True):
    """compile & link the instrumented program and the plain replay program"""
    with ThreadPoolExecutor(max_workers=os.cpu_count()) as pool:
        fp, fin = engine(pool)
        srcs = [(s, []) for s in sources(cfg["mods"])]
        excl = cfg.get("exclude", [])
        srcs = [(s, f) for s, f in srcs if not any(s.endswith(x) for x in excl)]
        srcs += [(os.path.join(HERE, "harness", h), []) for h in cfg["src"]]
        plug = os.path.join(CACHE, "engine", "Sym.so")
        extra = cfg.get("flags", [])
        odir = os.path.join(CACHE, "obj")
        jobs = []
        def comp(src, mode, flags):
            if mode == "i":
                fp.result()
                cmd = COMMON + INSTR + extra + flags + [f"-fpass-plugin={plug}"]
            elif mode == "p":
                cmd = COMMON + PLAIN + extra + flags
            else:
                cmd = COMMON + ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-D_GLIBCXX_ASSERTIONS"] + extra + flags
            o = os.path.join(odir, key(src, mode, *extra, *flags) + ".o")
            build(o, cmd + ["-MMD", "-MF", o + ".d", "-c", src, "-o", o], [ENG + "/pass/SymPass.cpp"] if mode == "i" else [], o + ".d")
            return o
        # biggest first
        srcs.sort(key=lambda s: -os.path.getsize(s[0]))
        ijobs = [pool.submit(comp, s, "i", f) for s, f in srcs]
        pjobs = [pool.submit(comp, s, "p", f) for s, f in srcs] if want_plain else []
        iobjs = [j.result() for j in ijobs]
        e = fin()
        bdir = os.path.join(CACHE, "bin")
        os.makedirs(bdir, exist_ok=True)
        ibin, pbin = f"{bdir}/{name}.sym", f"{bdir}/{name}.replay"
        r = sh(["clang++-18", "-no-pie", f"{e}/engine.o", f"{e}/heap.o", *iobjs, f"{e}/stdinst.o", "-o", ibin, f"{Z3}/lib/libz3.so", f"-Wl,-rpath,{Z3}/lib", "-Wl,--gc-sections"])
        if r.returncode:
            raise RuntimeError("link failed\n" + r.stdout[-4000:])
        if want_plain:
            pobjs = [j.result() for j in pjobs]
            r = sh(["clang++-18", *pobjs, f"{e}/replay.o", "-o", pbin])
            if r.returncode:
                raise RuntimeError("link failed\n" + r.stdout[-4000:])
        def asan():
            abin = f"{bdir}/{name}.asan"
            with ThreadPoolExecutor(max_workers=os.cpu_count()) as p2:
                aobjs = [j.result() for j in [p2.submit(comp, s, "a", f) for s, f in srcs]]
            r = sh(["clang++-18", "-fsanitize=address,undefined", *aobjs, f"{e}/replay.o", "-o", abin])
            if r.returncode:
                raise RuntimeError("link failed\n" + r.stdout[-4000:])
            return abin
        return ibin, pbin, asan

def replay(binp, harness, tier, vals, path):
    with open(path, "w") as f:
        f.write("\n".join(str(v) for v in vals) + "\n")
    try:
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=97")
        r = subprocess.run([binp, harness, "--tier", str(tier), path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=150, env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return -14, "timeout"

def symbols(binp, addrs):
    want = {int(a, 16) for a in addrs}
    names = {}
    for l in sh(["nm", binp]).stdout.splitlines():
        p = l.split()
        if len(p) >= 3:
            try:
                a = int(p[0], 16)
            except ValueError:
                continue
            if a in want:
                names[a] = p[2]
    dm = sh(["c++filt", "-p"], input="\n".join(names.values())).stdout.splitlines()
    return sorted(set(dm))

def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--no-replay", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.setup:
        with ThreadPoolExecutor(max_workers=os.cpu_count()) as pool:
            fp, fin = engine(pool)
            fin()
        print("engine built")
        return
    sys.path.insert(0, HERE)
    from checks.config import CHECKS
    cfg = CHECKS[a.prop]
    tier = 1 if a.tier == "thorough" else 0
    try:
        ibin, pbin, asan = program(a.prop, cfg)
    except RuntimeError as e:
        die(f"ERROR: {e}")
    tb = time.time() - T0
    print(f"{a.prop}: built in {tb:.1f}s", flush=True)
    if a.build_only:
        return
    edir = os.path.join(HERE, "evidence")
    rdir = os.path.join(edir, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(f"{rdir}/{a.prop}-*"):
        os.remove(f)
    budget = (780 if tier == 0 else 24 * 3600) - tb
    hs = [h for h in cfg["harnesses"] if (not a.only or h["name"] in a.only.split(",")) and tier >= h.get("mintier", 0)]
    tot = dict(states=0, transitions=0, paths=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, assert_queries=0, identities=0)
    reps, functions, samples, viol, unconf, kf, validated = [], set(), [], [], [], [], 0
    allex = True
    for i, h in enumerate(hs):
        lim = h.get("time", (60, 1200))[tier]
        lim = min(lim, max(10, budget - (time.time() - T0 - tb) - 25))
        out = os.path.join(CACHE, f"{a.prop}.{h['name']}.out.json")
        if os.path.exists(out):
            os.remove(out)
        cmd = [ibin, h["name"], "--tier", str(tier), "--jobs", str(os.cpu_count()), "--time", str(int(lim)), "--out", out,
               "--qt", str(h.get("qt", 20000)), "--pathsecs", str(h.get("pathsecs", 60)), "--maxdecs", str(h.get("maxdecs", 200000))]
        if a.v:
            cmd.append("-v")
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=None if a.v else subprocess.STDOUT, text=True, errors="replace")
        try:
            d = json.load(open(out))
        except Exception:
            die(f"ERROR: harness {h['name']} produced no result: rc={r.returncode}\n{r.stdout[-2000:]}")
        for k in ("queries", "sat", "unsat", "unknown", "solver_s", "assert_queries", "identities", "paths"):
            tot[k] += d[k]
        tot["states"] += d["decisions"] + d["completed"]
        tot["transitions"] += d["decisions"]
        functions |= set(symbols(ibin, d["functions"]))
        miss = [c for c in h.get("covers", []) if c not in d["covers"]]
        allex &= d["exhausted"]
        ext = [x for x in symbols(ibin, d["extmem"])] if d["extmem"] else []
        rec = dict(harness=h["name"], bounds=h.get("bounds", ""), exhausted=d["exhausted"], paths=d["paths"], completed=d["completed"], queries=d["queries"],
                   assert_queries=d["assert_queries"], assertions_checked=d["assert_sites"], identities=d["identities"], unsat=d["unsat"], sat=d["sat"], unknown=d["unknown"],
                   solver_s=round(d["solver_s"], 2), wall_s=d["wall_s"], covers=d["covers"], missing_covers=miss, unsupported=d["unsupported"], external_reads=ext,
                   lost=d["lost"], limit=d["limit_paths"], diverged=d["diverged"], boundary=d["boundary"], capped=d["capped"], queue_left=d["queue_left"], violations=d["violations_total"])
        reps.append(rec)
        print(f"  {h['name']}: paths={d['paths']} exhausted={d['exhausted']} queries={d['queries']} unsat={d['unsat']} unknown={d['unknown']} lost={d['lost']} limit={d['limit_paths']} div={d["diverged"]} bnd={d["boundary"]} capped={d['capped']} viol={d['violations_total']} wall={d['wall_s']}s" + (f" MISSING COVERS {miss}" if miss else "") + (f" UNSUPPORTED {d['unsupported']}" if d["unsupported"] else ""), flush=True)
        if a.no_replay:
            for v in d["violations"]:
                print("   ", v)
            continue
        seen = {}
        for v in d["violations"]:
            k = v["kind"] + v["msg"]
            if seen.get(k, 0) >= 1 and seen.get(k + "!", False):
                continue
            seen[k] = seen.get(k, 0) + 1
            rp = f"{rdir}/{a.prop}-{h['name']}-{len(viol) + len(unconf) + len(kf)}.vals"
            rc, txt = replay(pbin, h["name"], tier, v["vals"], rp)
            bad = rc == 1 or (rc < 0) or rc > 100
            if not bad:
                try:
                    rc, txt = replay(asan(), h["name"], tier, v["vals"], rp)
                    bad = rc == 1 or rc < 0 or rc > 90
                except RuntimeError as e:
                    txt += str(e)
            if bad:
                seen[k + "!"] = True
                ent = None
                for kn in known():
                    if kn.get("status") == "known" and kn["property"] == a.prop and kn["harness"] == h["name"] and re.search(kn["match"], txt):
                        ent = kn
                        break
                with open(rp + ".txt", "w") as f:
                    f.write(f"property {a.prop} harness {h['name']} tier {tier}\n{v['kind']}: {v['msg']}\nreplayed against the plain build of {REPO} (exit {rc}):\n{txt}\n")
                (kf if ent else viol).append((rp + ".txt", v["kind"], v["msg"], ent))
            else:
                unconf.append((rp, v["kind"], v["msg"], rc))
        for s in d["samples"][:4 if tier == 0 else 16]:
            rp = f"{rdir}/{a.prop}-{h['name']}-sample.vals"
            rc, txt = replay(pbin, h["name"], tier, s, rp)
            if rc == 0:
                validated += 1
                if len(samples) < 6:
                    samples.append(h["name"] + ": " + "; ".join(l.strip()[6:] for l in txt.splitlines() if l.startswith("  input"))[:600])
            elif rc == 1 or rc < 0 or rc > 100:
                rp2 = f"{rdir}/{a.prop}-{h['name']}-path{len(viol)}.vals"
                shutil.copy(rp, rp2)
                with open(rp2 + ".txt", "w") as f:
                    f.write(f"property {a.prop} harness {h['name']} tier {tier}\nsampled path fails on the plain build (exit {rc}):\n{txt}\n")
                viol.append((rp2 + ".txt", "replay", txt.strip().splitlines()[-1] if txt.strip() else str(rc), None))
            os.remove(rp)
        if time.time() - T0 > (800 if tier == 0 else 1e9):
            allex = False
            break
    mine = [f for f in functions if re.match(r"(?:[\w:<>,&*\s]*\s)?(qc|dd|zx|na|qasm3|sym|std::ostream& sym)::", f) or any(n in f.split("(")[0] for n in ("qc::", "dd::", "zx::", "na::", "qasm3::", "sym::"))]
    mine = [f for f in mine if not f.startswith("std::") and not f.startswith("void std::")]
    wall = time.time() - T0
    ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=cfg.get("level", "model_checking"),
              coverage=dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=validated + len(viol) + len(kf), samples=samples,
                            exhaustive=bool(allex), symbolic_paths=tot["paths"], queries=tot["queries"], queries_unsat=tot["unsat"], queries_sat=tot["sat"],
                            queries_unknown=tot["unknown"], assertion_queries=tot["assert_queries"], polynomial_identities=tot["identities"], solver_s=round(tot["solver_s"], 2),
                            build_s=round(tb, 1), harnesses=reps, functions_encoded=len(mine), functions=[f[:160] for f in mine[:400]],
                            unconfirmed=[dict(kind=k, msg=m) for _, k, m, _ in unconf], known_findings=[m for _, _, m, _ in kf],
                            explanation="states = decision points reached plus completed paths of the symbolic execution; transitions = symbolic decisions (branch, switch, address, assertion) taken"),
              assumptions=cfg.get("assumptions", []), wall_s=round(wall, 1), violations=len(viol))
    json.dump(ev, open(os.path.join(edir, a.prop + ".json"), "w"), indent=1)
    for p, k, m, e in kf:
        print(f"KNOWN-FINDING: property={a.prop} {e['what']}")
    for p, k, m, rc in unconf:
        print(f"UNCONFIRMED (does not reproduce on the plain build, not reported): {k}: {m} [{p}]")
    for p, k, m, e in viol:
        print(f"VIOLATION property={a.prop} replay={p}")
        print(f"   {k}: {m}")
    print(f"{a.prop}: {'VIOLATED' if viol else 'held'} paths={tot['paths']} queries={tot['queries']} solver={tot['solver_s']:.1f}s exhaustive={allex} validated={validated} wall={wall:.1f}s")
    sys.exit(1 if viol else 0)

if __name__ == "__main__":
    main()
