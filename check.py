#!/usr/bin/env python3
"""Decide one property of WebFront by symbolic execution of the real code (see DESIGN.md).

usage: check.py ID            quick or thorough, by VERIF_TIER (or --tier)
       check.py --setup       build the executor
       check.py --replay FILE run one recorded counterexample against the real code
       check.py --list
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shlex, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
ENGINE = os.path.join(B, "engine", "wfsym")
sys.path.insert(0, V)

SYM_CXX = "clang++-18"
NAT_CXX = "g++-13" if shutil.which("g++-13") else "g++"
NPROC = max(2, min(8, os.cpu_count() or 2))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def die(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(2)


def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        for d, ds, fs in sorted(os.walk(p)) if os.path.isdir(p) else [(os.path.dirname(p), [], [os.path.basename(p)])]:
            ds.sort()
            for f in sorted(fs):
                q = os.path.join(d, f)
                h.update(q.encode() + b"\0")
                with open(q, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:24]


def setup():
    src = os.path.join(V, "engine")
    stamp = os.path.join(B, "engine", "stamp")
    want = tree_hash([src])
    if os.path.exists(ENGINE) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    os.makedirs(os.path.join(B, "engine"), exist_ok=True)
    r = sh(["make", "-C", src, "-j%d" % NPROC, "B=" + os.path.join(B, "engine")])
    if r.returncode:
        die("building the executor failed:\n" + r.stdout[-3000:])
    with open(stamp, "w") as f:
        f.write(want)


SYM_FLAGS = ("-std=c++23 -fbracket-depth=4096 -O1 -Xclang -disable-llvm-passes -g1 -ftrivial-auto-var-init=pattern -fno-vectorize -fno-slp-vectorize -fno-builtin-printf "
             "-D__NO_CTYPE -DVF_SYMBOLIC -DNDEBUG -Wno-everything "
             "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bounds,return,unreachable,bool,enum "
             "-fsanitize-trap=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bounds,return,unreachable,bool,enum").split()
NAT_FLAGS = ("-std=c++23 -O0 -g1 -w -ftrivial-auto-var-init=pattern -DNDEBUG -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=vptr,alignment,null,nonnull-attribute -fno-sanitize-recover=all").split()


def build(harness, defs=()):
    """compile one harness against REPO's current tree; returns (bitcode, native program future)"""
    cache = os.path.join(B, "cache")
    os.makedirs(cache, exist_ok=True)
    inc = os.path.join(REPO, "include")
    hdir = os.path.join(V, "harness")
    sdir = os.path.join(V, "sym")
    key = tree_hash([inc, hdir, sdir, ENGINE], harness + " ".join(SYM_FLAGS + NAT_FLAGS) + " ".join(defs))
    bc = os.path.join(cache, key + ".bc")
    nat = os.path.join(cache, key + ".native")
    d = tempfile.mkdtemp(prefix="b", dir=cache)

    def sym():
        if os.path.exists(bc):
            return bc
        rtk = tree_hash([sdir], " ".join(SYM_FLAGS))
        rt = os.path.join(cache, "runtime-" + rtk + ".bc")
        ps = []
        streams = "-DVF_STREAMS" in defs
        prelude = sdir + ("/prelude_streams.h" if streams else "/prelude.h")
        if streams:
            ps.append(subprocess.Popen([SYM_CXX] + SYM_FLAGS + ["-fno-access-control", "-include", prelude, "-emit-llvm", "-c", sdir + "/streams.cpp", "-o", d + "/st.bc"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        try:
            shutil.copy(rt, d + "/rt.bc")
            have_rt = True
        except FileNotFoundError:
            have_rt = False
        if not have_rt:
            ps.append(subprocess.Popen([SYM_CXX] + SYM_FLAGS + ["-include", sdir + "/prelude.h", "-I" + sdir + "/include", "-I" + hdir, "-emit-llvm", "-c", sdir + "/runtime.cpp", "-o", d + "/rt.bc"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        ps.append(subprocess.Popen([SYM_CXX] + SYM_FLAGS + list(defs) + ["-include", prelude, "-I" + sdir + "/include", "-I" + hdir, "-I" + inc, "-isystem", os.path.join(sdir, "native"), "-emit-llvm", "-c", os.path.join(hdir, harness), "-o", d + "/h.bc"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for p in ps:
            o, _ = p.communicate()
            if p.returncode:
                raise RuntimeError("compiling %s for symbolic execution failed:\n%s" % (harness, o[-4000:]))
        r = sh([ENGINE, "prep", d + "/h.bc", d + "/rt.bc", "-o", d + "/o.bc"] + (["--streams", d + "/st.bc"] if streams else []))
        if r.returncode:
            raise RuntimeError("preparing the bitcode failed:\n" + r.stdout[-3000:])
        if not have_rt:
            os.replace(d + "/rt.bc", rt)
        os.replace(d + "/o.bc", bc)
        return bc

    def native():
        if os.path.exists(nat):
            return nat
        ninc = ["-I" + hdir, "-I" + inc, "-isystem", os.path.join(V, "sym", "native")]
        objs = []
        ps = []
        for f in (os.path.join(hdir, harness), os.path.join(hdir, "vf_native.cpp")):
            o = os.path.join(d, os.path.basename(f) + ".o")
            objs.append(o)
            ps.append(subprocess.Popen([NAT_CXX] + NAT_FLAGS + list(defs) + ninc + ["-c", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for p in ps:
            o, _ = p.communicate()
            if p.returncode:
                raise RuntimeError("compiling %s natively failed:\n%s" % (harness, o[-4000:]))
        r = sh([NAT_CXX] + NAT_FLAGS + objs + ["-rdynamic", "-ldl", "-pthread", "-o", d + "/prog"])
        if r.returncode:
            raise RuntimeError("linking natively failed:\n" + r.stdout[-3000:])
        os.replace(d + "/prog", nat)
        return nat

    return sym, native, d


def write_replay(path, prop, job, params, inputs, note, tier="quick"):
    with open(path, "w") as f:
        f.write("property\t%s\t-\nharness\t%s\t%s\nentry\t%s\t-\nnote\t%s\t-\n" % (prop, job.harness, " ".join(job.defs) or "-", job.entry, note.replace("\n", " ").replace("\t", " ")))
        for k, v in sorted(params.items()):
            f.write("param\t%s\t%d\n" % (k, v))
        for n, h in inputs:
            f.write("in\t%s\t%s\n" % (n, h))


def run_native(prog, entry, replay, fill=0xbe, timeout=30):
    scratch = tempfile.mkdtemp(prefix="vfs")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1:max_malloc_fill_size=1073741824:malloc_fill_byte=%d:alloc_dealloc_mismatch=0:allocator_may_return_null=1:handle_abort=0:color=never" % fill,
               UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=0")
    try:
        p = subprocess.run([prog, entry, replay, scratch], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        out, err, rc = p.stdout.decode("latin1"), p.stderr.decode("latin1"), p.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = (e.stdout or b"").decode("latin1"), "timeout", 124
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    obs = [l[4:].split(" ", 1) for l in out.splitlines() if l.startswith("OBS ")]
    obs = [[a[0], a[1] if len(a) > 1 else ""] for a in obs]
    if rc == 0 and "VF-DONE" in out:
        return "done", "", obs
    if rc in (78, 79):
        return "diverged", (re.findall(r"VF-(?:DIVERGED|ASSUME).*", out) or ["?"])[0], obs
    m = re.findall(r"VF-FAIL (.*)", out)
    if m:
        return "failed", m[0], obs
    m = re.findall(r"(runtime error: .*)|ERROR: (AddressSanitizer:? .*)", err)
    if m:
        return "failed", (m[0][0] or m[0][1])[:160], obs
    if rc == 124:
        return "failed", "hang (no answer within %d s)" % timeout, obs
    return "failed", "exit status %d %s" % (rc, err.strip()[:160]), obs


def explore(bc, job, params, budget, seed, dump=None):
    out = tempfile.mkdtemp(prefix="x", dir=os.path.join(B, "cache"))
    cmd = [ENGINE, "run", bc, "--entry", job.entry, "--out", out, "--workers", str(NPROC), "--time", str(budget), "--steps", str(job.steps), "--seed", str(seed), "--query-ms", str(job.query_ms), "--viol", "6"]
    for k, v in params.items():
        cmd += ["-P", "%s=%d" % (k, v)]
    if dump:
        os.makedirs(dump, exist_ok=True)
        cmd += ["--dump", dump]
    t0 = time.time()
    try:
        r = sh(cmd, timeout=budget + 240)
        rc, log = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        rc, log = 99, "executor timed out"
        subprocess.run(["pkill", "-f", out])
    res = {"rc": rc, "log": log[-3000:], "viol": [], "samples": [], "stats": {"paths": 0, "steps": 0, "asserts": 0, "maxForks": 0, "queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "cacheHits": 0, "tableHits": 0, "modelHits": 0, "assertQueries": 0, "solverSeconds": 0.0, "maxQuery": 0.0, "crashed": 0},
           "ends": {}, "msgs": {}, "tags": {}, "funcs": set(), "wall": 0.0, "params": params}
    for f in glob.glob(out + "/w*.jsonl"):
        for line in open(f, errors="replace"):
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if j["type"] == "violation":
                res["viol"].append(j)
            elif j["type"] == "sample":
                res["samples"].append(j)
            elif j["type"] == "stats":
                for k in res["stats"]:
                    if k in ("maxQuery", "maxForks"):
                        res["stats"][k] = max(res["stats"][k], j[k])
                    else:
                        res["stats"][k] += j[k]
                for k in ("ends", "msgs", "tags"):
                    for a, b in j[k].items():
                        res[k][a] = res[k].get(a, 0) + b
                res["funcs"].update(j["funcs"])
    shutil.rmtree(out, ignore_errors=True)
    res["wall"] = round(time.time() - t0, 2)
    bad = {k: v for k, v in res["ends"].items() if k in ("unsupported", "unknown", "limit", "timeout", "stopped") and v}
    if res["stats"]["crashed"]:
        bad["crashed workers"] = res["stats"]["crashed"]
    if rc:
        bad["executor exit"] = rc
    res["incomplete"] = bad
    return res


def known_findings():
    ks = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\S+) entry=(\S+) kind=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m:
                ks.append(m.groups())
    return ks


def check(pid, tier, seed):
    import props
    t0 = time.time()
    P = props.PROPS[pid]
    setup()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    rdir = os.path.join(B, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "-*")):
        os.remove(f)
    os.makedirs(os.path.join(B, "cache"), exist_ok=True)
    budget_total = 420 if tier == "quick" else 3000
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "functions_encoded": [], "runs": [], "queries": {}, "solver_seconds": 0.0, "exhaustive": True,
           "explanation": "Symbolic execution of the LLVM bitcode of /repo's current sources; states = explored paths (each one an equivalence class of inputs and schedules), transitions = instructions executed symbolically; every assertion and memory access on every path is decided by the solver for all values on that path."}
    funcs, found, unconfirmed, notes, dirs = set(), [], [], [], []
    old = sorted(glob.glob(os.path.join(B, "cache", "*.bc")) + glob.glob(os.path.join(B, "cache", "*.native")), key=os.path.getmtime)
    for f in old[:-120]:
        if time.time() - os.path.getmtime(f) > 3600:
            os.remove(f)
    builds = {}
    pool = cf.ThreadPoolExecutor(max_workers=8)
    for j in P.jobs:
        k = (j.harness, j.defs)
        if k not in builds:
            s, n, d = build(j.harness, j.defs)
            dirs.append(d)
            builds[k] = (pool.submit(s), pool.submit(n))
    knowns = [k for k in known_findings() if k[0] == pid]
    known_hit = set()
    nviol = 0
    rc = 0
    try:
        for k, (s, n) in builds.items():
            s.result()
        plan = []
        for j in P.jobs:
            plan.append((j, j.base, True))
        rungs = max([0] + [len(j.more) + (len(j.deep) if tier == "thorough" else 0) for j in P.jobs])
        for i in range(rungs):
            for j in P.jobs:
                m = j.more + (j.deep if tier == "thorough" else [])
                if i < len(m):
                    plan.append((j, dict(j.base, **m[i]), False))
        tags_seen = {}
        gave_up, streamed = set(), {}
        soft_end = t0 + (P.quick_s if tier == "quick" else 1800)
        for j, params, isbase in plan:
            left = budget_total - (time.time() - t0)
            if not isbase:
                if nviol or j in gave_up or time.time() > soft_end:
                    cov["runs"].append({"entry": j.entry, "params": params, "explored": "not started (time)"})
                    continue
                budget = max(5, min(left, soft_end - time.time()))
            else:
                budget = max(20, min(j.time if tier == "quick" else 3 * j.time, left)) if not nviol else 20
            s, n = builds[(j.harness, j.defs)]
            bc = streamed.get(j.harness) or s.result()
            r = explore(bc, j, params, budget, seed)
            if "-DVF_STREAMS" not in j.defs and j.harness not in streamed and r["incomplete"] and any(re.search(r"unsupported.*(stream|ios_base|locale|num_put|ctype)", m) for m in r["msgs"]):
                # the code under check formats text with streams: execute them as well instead of passing over what is printed
                s2, _, d2 = build(j.harness, j.defs + ("-DVF_STREAMS",))
                dirs.append(d2)
                streamed[j.harness] = s2()
                r = explore(streamed[j.harness], j, params, budget, seed)
            if r["rc"]:
                print(r["log"], file=sys.stderr)
            for f in r["funcs"]:
                funcs.add(f)
            for k, v in r["tags"].items():
                tags_seen.setdefault(j.entry, set()).add(k)
            complete = not r["incomplete"]
            st = r["stats"]
            cov["states"] += st["paths"]
            cov["transitions"] += st["steps"]
            cov["solver_seconds"] = round(cov["solver_seconds"] + st["solverSeconds"], 2)
            for k in ("queries", "sat", "unsat", "unknown", "cacheHits", "tableHits", "modelHits", "assertQueries"):
                cov["queries"][k] = cov["queries"].get(k, 0) + st[k]
            run = {"entry": j.entry, "harness": j.harness, "params": params, "bounds": j.bounds, "base": isbase, "complete": complete, "paths": st["paths"], "path_ends": r["ends"], "asserts_evaluated": st["asserts"], "instructions": st["steps"], "max_query_s": st["maxQuery"], "wall_s": r["wall"], "tags": r["tags"]}
            if r["incomplete"]:
                run["incomplete"] = r["incomplete"]
                run["reasons"] = dict(list(r["msgs"].items())[:8])
                if not isbase:
                    gave_up.add(j)
                else:
                    cov["exhaustive"] = False
                    notes.append("%s: base bounds not exhausted: %s %s" % (j.entry, r["incomplete"], list(r["msgs"].items())[:4]))
            # ---- counterexamples: replay against the real code
            prog = n.result()
            tries, told = {}, set()
            for v in r["viol"]:
                sig = (v["kind"], v["msg"], v["where"])
                if sig in told or tries.get(sig, 0) >= 4 or nviol >= 4:
                    continue
                tries[sig] = tries.get(sig, 0) + 1
                path = os.path.join(rdir, "%s-%s-%d.txt" % (pid, j.entry, len(os.listdir(rdir))))
                write_replay(path, pid, j, params, v["inputs"], "%s: %s at %s" % sig)
                res = None
                for fill in (0xbe, 0, 0xff):
                    what, msg, obs = run_native(prog, j.entry, path, fill)
                    res = (what, msg)
                    if what == "failed":
                        break
                kn = next((k for k in knowns if k[1] == j.entry and (k[2] == v["kind"] or k[2] == "any") and re.search(k[3], v["msg"] + " @ " + v["where"])), None)
                if kn:
                    told.add(sig)
                    if kn not in known_hit:
                        known_hit.add(kn)
                        print("KNOWN-FINDING: property=%s %s" % (pid, kn[4]), flush=True)
                    continue
                if res[0] == "failed":
                    nviol += 1
                    told.add(sig)
                    found.append({"entry": j.entry, "params": params, "kind": v["kind"], "symbolic": v["msg"], "where": v["where"], "native": res[1], "replay": path})
                    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
                    print("  %s: %s: %s at %s; real code: %s" % (j.entry, v["kind"], v["msg"], v["where"], res[1]), flush=True)
                else:
                    unconfirmed.append({"entry": j.entry, "params": params, "kind": v["kind"], "symbolic": v["msg"], "where": v["where"], "native": "%s %s" % res, "replay": path})
            # ---- sampled complete paths: the real code must agree
            smp = r["samples"]
            def one(i):
                p = os.path.join(d0, "s%d.txt" % i)
                write_replay(p, pid, j, params, smp[i]["inputs"], "sample")
                return run_native(prog, j.entry, p, 0xbe, 60) + (p,)
            d0 = tempfile.mkdtemp(prefix="s", dir=os.path.join(B, "cache"))
            agree = 0
            take = list(range(len(smp)))[: (16 if isbase else 8)]
            for i, (what, msg, obs, p) in zip(take, pool.map(one, take)):
                if what == "done" and obs == [[a, b] for a, b in smp[i]["obs"]]:
                    agree += 1
                    if len(cov["samples"]) < 6 and len(json.dumps(smp[i])) < 1500:
                        cov["samples"].append({"entry": j.entry, "inputs": smp[i]["inputs"], "observed": smp[i]["obs"]})
                elif what == "failed":
                    path = os.path.join(rdir, "%s-%s-%d.txt" % (pid, j.entry, len(os.listdir(rdir))))
                    shutil.copy(p, path)
                    nviol += 1
                    found.append({"entry": j.entry, "params": params, "kind": "replay", "symbolic": "-", "where": "-", "native": msg, "replay": path})
                    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
                    print("  %s: found when replaying a symbolic path on the real code: %s" % (j.entry, msg), flush=True)
                else:
                    diff = [(a, b) for a, b in zip(obs, smp[i]["obs"]) if list(a) != list(b)][:1]
                    notes.append("%s: sampled path not confirmed by the real code: %s %s inputs=%s diff=%s" % (j.entry, what, msg, json.dumps(smp[i]["inputs"])[:300], str(diff)[:300]))
            shutil.rmtree(d0, ignore_errors=True)
            run["samples_replayed"] = len(take)
            run["samples_agree"] = agree
            cov["traces_validated_against_impl"] += agree
            cov["runs"].append(run)
            if nviol >= 3:
                break
        if not nviol:
            for j in P.jobs:
                miss = [t for t in j.tags if t not in tags_seen.get(j.entry, set())]
                if miss:
                    notes.append("%s: expected situations never reached: %s" % (j.entry, miss))
                    if not any(r["entry"] == j.entry and r.get("incomplete") for r in cov["runs"]):
                        rc = 2
            if cov["states"] == 0 or cov["traces_validated_against_impl"] == 0:
                notes.append("nothing explored or confirmed")
                rc = 2
        else:
            rc = 1
    except (RuntimeError, OSError) as e:
        notes.append(str(e)[:1500])
        rc = 2
    finally:
        pool.shutdown(wait=True, cancel_futures=True)
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)
    cov["functions_encoded"] = sorted(funcs)
    cov["unconfirmed"] = unconfirmed
    cov["violations_found"] = found
    cov["notes"] = notes
    if notes or unconfirmed:
        cov["exhaustive"] = False
    if not cov["samples"]:
        cov["samples"] = [{"note": "no short sample path in this run"}]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": list(P.assumptions) + props.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n in notes:
        print("NOTE " + n)
    for u in unconfirmed[:4]:
        print("UNCONFIRMED %s: %s: %s at %s; real code: %s (%s)" % (u["entry"], u["kind"], u["symbolic"], u["where"], u["native"], u["replay"]))
    print("%s %s: %d paths, %d instructions, %d solver queries (%.1f s), %d paths confirmed on the real code, %d violations, %.1f s" % (
        pid, tier, cov["states"], cov["transitions"], cov["queries"].get("queries", 0), cov["solver_seconds"], cov["traces_validated_against_impl"], nviol, ev["wall_s"]))
    return rc


def replay(path):
    if open(path).read(1) == "{":
        return subprocess.run(["python3-vt", os.path.join(V, "js", "jscheck.py"), "--replay", path]).returncode
    d = {}
    for l in open(path):
        a = l.rstrip("\n").split("\t")
        d.setdefault(a[0], a[1:])
    setup()
    defs = [] if d["harness"][1] == "-" else d["harness"][1].split()
    s, n, dd = build(d["harness"][0], tuple(defs))
    try:
        prog = n()
    finally:
        shutil.rmtree(dd, ignore_errors=True)
    bad = 0
    for fill in (0xbe, 0, 0xff):
        what, msg, obs = run_native(prog, d["entry"][0], path, fill)
        print("heap fill %02x: %s %s" % (fill, what, msg))
        bad |= what == "failed"
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if not a or a[0] in ("-h", "--help"):
        print(__doc__)
        return 2
    if a[0] == "--setup":
        setup()
        return 0
    if a[0] == "--list":
        import props
        for k in sorted(props.PROPS):
            print(k)
        return 0
    if a[0] == "--replay":
        return replay(a[1])
    if a[0] == "C34":
        setup()
        os.makedirs(os.path.join(B, "replay"), exist_ok=True)
        return subprocess.run(["python3-vt", os.path.join(V, "js", "jscheck.py"), "thorough" if tier == "thorough" else "quick", str(seed)]).returncode
    return check(a[0], "thorough" if tier == "thorough" else "quick", seed)


if __name__ == "__main__":
    sys.exit(main())
