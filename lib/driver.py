"""Build a harness from /repo's working tree, run the symbolic executor on its
entries, replay what the solver found against the native build, write evidence."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
TC = "1.91.1"
WORK = os.path.join(V, "work")
NCPU = os.cpu_count() or 4


class Broken(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace")


def lock():
    os.makedirs(WORK, exist_ok=True)
    f = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_tools():
    d = os.path.join(V, "engine")
    r = sh(["cargo", "build", "--release", "--offline"], cwd=d, env={"RUSTUP_TOOLCHAIN": TC, "RUSTFLAGS": ""})
    if r.returncode:
        raise Broken("engine build failed:\n" + r.stdout[-3000:])
    os.makedirs(WORK, exist_ok=True)
    r = sh(["gcc", "-O1", "-rdynamic", "-o", os.path.join(WORK, "runner"), os.path.join(V, "runner/runner.c"), "-ldl"])
    if r.returncode:
        raise Broken("runner build failed:\n" + r.stdout)


def repo_digest():
    """content of every source file of the project (mtimes are not trusted)"""
    h = hashlib.sha256()
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in (".git", "target", "node_modules", "vsix"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".json", ".rbs", ".yml", ".yaml", ".wit")):
                out.append(os.path.join(root, f))
    for p in out:
        try:
            with open(p, "rb") as fh:
                d = fh.read()
        except OSError:
            continue
        if p.endswith(".rs"):
            d = strip_tail(d)
        h.update(p.encode() + b"\0" + hashlib.sha256(d).digest())
    return h.hexdigest()


def strip_tail(d):
    """without the blank and plain comment lines after the last line of code: they compile to nothing"""
    lines = d.split(b"\n")
    while lines:
        t = lines[-1].strip()
        if t == b"" or (t.startswith(b"//") and not t.startswith((b"///", b"//!"))):
            lines.pop()
        else:
            break
    return b"\n".join(lines)


def tree_digest(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d) if os.path.isdir(d) else [(os.path.dirname(d), [], [os.path.basename(d)])]:
            ds[:] = sorted(x for x in ds if x != "target")
            for f in sorted(fs):
                if f != "Cargo.lock":
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()


def build_parsers():
    """the C parsers the project links, as IR (same sources, from cargo's registry)"""
    lockf = open(os.path.join(REPO, "Cargo.lock")).read()
    reg = os.path.expanduser("~/.cargo/registry/src/*/")

    def src(crate):
        m = re.search(r'name = "%s"\nversion = "([^"]+)"' % crate, lockf)
        d = sorted(glob.glob(reg + "%s-%s/" % (crate, m.group(1)))) if m else []
        if not d:
            raise Broken(crate + " sources not found")
        return d[0]
    prism = sorted(glob.glob(src("ruby-prism-sys") + "vendor/prism-*/"))[0]
    ts, rbs = src("tree-sitter"), src("tree-sitter-rbs")
    jobs = [(c, ["-DPRISM_EXPORT_SYMBOLS=1", "-I" + prism + "include"], "prism-")
            for c in sorted(glob.glob(prism + "src/*.c") + glob.glob(prism + "src/util/*.c"))]
    jobs.append((ts + "src/lib.c", ["-std=c11", "-D_POSIX_C_SOURCE=200112L", "-D_DEFAULT_SOURCE", "-I" + ts + "src",
                                    "-I" + ts + "src/wasm", "-I" + ts + "include"], "ts-"))
    for c in ("parser.c", "scanner.c"):
        if os.path.exists(rbs + "src/" + c):
            jobs.append((rbs + "src/" + c, ["-I" + rbs + "src"], "rbs-"))
    out = os.path.join(WORK, "parsers")
    os.makedirs(out, exist_ok=True)
    files, procs = [], []
    for c, opts, pre in jobs:
        o = os.path.join(out, pre + os.path.basename(c)[:-2] + ".ll")
        files.append(o)
        if not os.path.exists(o):
            procs.append((o, subprocess.Popen(["clang", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w",
                                               *opts, "-S", "-emit-llvm", c, "-o", o + ".tmp"])))
    for o, q in procs:
        if q.wait():
            raise Broken("parser IR build failed")
        os.rename(o + ".tmp", o)
    return files


LOCAL = ["ruby-fast-lsp", "ruby-analysis", "rbs-parser", "jvm-metadata", "jruby-support", "lsp-test-harness",
         "ruby-fast-lsp-", "h-"]


def build_harness(crate, feature):
    d = os.path.join(V, "harness", crate)
    shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    target = os.path.join(d, "target")
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "vp.stamp")
    digest = repo_digest()
    # the IR of exactly this tree and this harness, if it was built before
    key = digest + tree_digest(d, os.path.join(V, "harness", "stubs"), os.path.join(V, "harness", "sx.rs"), os.path.join(V, "lib", "driver.py"))
    keep = os.path.join(target, "vp", feature)
    kl, ks, kk = (os.path.join(keep, x) for x in ("h.ll", "h.so", "key"))
    if os.path.exists(kk) and open(kk).read() == key and os.path.exists(kl) and os.path.exists(ks):
        return kl, ks, 0.0
    shutil.rmtree(keep, ignore_errors=True)
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != digest:
        for fp in glob.glob(os.path.join(target, "*", "release", ".fingerprint", "*")) + \
                glob.glob(os.path.join(target, "release", ".fingerprint", "*")):
            b = os.path.basename(fp)
            if any(b.startswith(x) for x in LOCAL):
                shutil.rmtree(fp, ignore_errors=True)
    if os.path.exists(stamp):
        os.unlink(stamp)
    rel = os.path.join(target, "x86_64-unknown-linux-gnu", "release")
    lib = "h_" + crate.replace("-", "_")
    for p in glob.glob(os.path.join(rel, "deps", lib + "*.ll")):
        os.unlink(p)
    for fp in glob.glob(os.path.join(rel, ".fingerprint", "h-*")):
        shutil.rmtree(fp, ignore_errors=True)
    t = time.time()
    cmd = ["cargo", "rustc", "--release", "--offline", "--features", feature,
           "--target", "x86_64-unknown-linux-gnu", "--", "--emit=llvm-ir,link"]
    env = {"RUSTUP_TOOLCHAIN": TC, "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0",
           "RUSTFLAGS": "-C no-vectorize-loops -C no-vectorize-slp -A warnings"}
    r = sh(cmd, cwd=d, env=env)
    if r.returncode:
        raise Broken("harness build failed:\n" + r.stdout[-6000:])
    with open(stamp, "w") as fh:
        fh.write(digest)
    ll = os.path.join(rel, "deps", lib + ".ll")
    so = os.path.join(rel, "lib" + lib + ".so")
    if not (os.path.exists(ll) and os.path.exists(so)):
        raise Broken("harness build left no IR")
    os.makedirs(keep)
    os.rename(ll, kl)
    shutil.copyfile(so, ks)
    with open(kk, "w") as fh:
        fh.write(key)
    return kl, ks, time.time() - t


def replay_file(path, prop, entry, params, inputs, note=""):
    with open(path, "w") as f:
        f.write("# property %s entry %s\n" % (prop, entry))
        if note:
            f.write("# " + note.replace("\n", " ") + "\n")
        for k, v in params.items():
            f.write("p %s %s\n" % (k, v))
        f.write("\n".join(inputs) + "\n")


def native(so, entry, path, timeout=20):
    try:
        r = subprocess.run([os.path.join(WORK, "runner"), so, entry, path], timeout=timeout, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace", env={**os.environ, "RUST_BACKTRACE": "0"})
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", "", ""


def run_entry(ll, entry, params, secs, out, extra, more=()):
    shutil.rmtree(out, ignore_errors=True)
    cmd = [os.path.join(V, "engine/target/release/rsx"), ll, *more, "--entry", entry, "--out", out, "--workers", str(NCPU),
           "--secs", str(secs), "--after-violation", "5"]
    for k, v in params.items():
        cmd += ["--param", "%s=%s" % (k, v)]
    cmd += extra
    t = time.time()
    try:
        r = sh(cmd, timeout=secs + 120)
        rc, log = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, log = -1, "engine did not stop"
    tot = {"violations": [], "errors": {}, "limits": {}, "covers": {}, "cover_inputs": {}, "funcs": set(), "fork_sites": []}
    for f in glob.glob(os.path.join(out, "w*.json")):
        j = json.load(open(f))
        for k, v in j.items():
            if k == "violations":
                tot[k] += v
            elif k == "funcs":
                tot[k].update(v)
            elif k == "fork_sites":
                pass
            elif k == "cover_inputs":
                for a, b in v.items():
                    tot[k].setdefault(a, []).append(b)
            elif isinstance(v, dict):
                for a, b in v.items():
                    tot[k][a] = tot[k].get(a, 0) + b
            elif k.startswith("max_"):
                tot[k] = max(tot.get(k, 0), v)
            else:
                tot[k] = tot.get(k, 0) + v
    tot["wall_s"] = round(time.time() - t, 2)
    tot["rc"] = rc
    tot["log"] = log[-2000:]
    root = os.path.join(out, "root.json")
    tot["z3"] = json.load(open(root)).get("z3") if os.path.exists(root) else None
    return tot


def known(prop):
    out = []
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                j = json.loads(l)
                if j["property"] == prop:
                    out.append(j)
    return out


def matches(k, entry, v, inputs):
    if k.get("entry") and k["entry"] != entry:
        return False
    if k.get("msg") and k["msg"] != v["msg"]:
        return False
    return re.fullmatch(k.get("inputs", ".*"), " ; ".join(inputs), re.S) is not None


def interesting(f):
    return "ruby_analysis" in f or "ruby_fast_lsp" in f or "rbs_parser" in f or "jvm_metadata" in f or "jruby_support" in f


def check(prop, spec, tier, log=print):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    lk = lock()
    build_tools()
    tb = time.time()
    builds = {}
    for r in spec["runs"]:
        builds.setdefault(r.get("crate", spec["crate"]), None)
    for c in builds:
        builds[c] = build_harness(c, spec["feature"])
    more = build_parsers() if spec.get("ruby") else []
    build_s = time.time() - tb
    log("built %s in %.0fs" % (",".join(builds), build_s))
    rdir = os.path.join(WORK, "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    agg = {k: 0 for k in ("paths", "assumed", "instrs", "forks", "branch_unsat", "asserts_concrete", "asserts_solver",
                          "queries", "sat", "unsat", "unknown", "cache_hits", "sym_loads", "sym_stores")}
    solver_ms, maxq = 0.0, 0.0
    funcs, runs, samples, incomplete, problems = set(), [], [], [], []
    viols, knowns, validated = [], {}, 0
    budget = spec.get("budget", {}).get(tier, 420 if tier == "quick" else 3600)
    for r in spec["runs"]:
        ts = r.get("tiers")
        if ts and tier not in ts:
            continue
        crate = r.get("crate", spec["crate"])
        ll, so, _ = builds[crate]
        entry = r["entry"]
        for params in (r.get(tier) or r.get("quick") or [{}]):
            params = {str(k): v for k, v in params.items()}
            left = budget - (time.time() - t0 - build_s)
            secs = int(max(10, min(r.get("secs", 300 if tier == "quick" else 1800), left)))
            res = run_entry(ll, entry, params, secs, os.path.join(WORK, "out", prop), r.get("extra", []) + (["--path-instr", "40000000000"] if spec.get("ruby") else []), more)
            tag = entry + "(" + ",".join("%s=%s" % kv for kv in params.items()) + ")"
            if res["rc"] != 0:
                problems.append("%s: engine exit %s %s" % (tag, res["rc"], res["log"][-400:]))
            for k in agg:
                agg[k] += res.get(k, 0)
            solver_ms += res.get("solver_ms", 0)
            maxq = max(maxq, res.get("max_query_ms", 0))
            funcs |= res["funcs"]
            done = not (res["errors"] or res["limits"] or res.get("unknown", 0))
            if not done:
                incomplete.append("%s: %s" % (tag, json.dumps({"errors": res["errors"], "limits": res["limits"],
                                                               "unknown": res.get("unknown", 0)})[:1500]))
            n = 0
            found = None
            for v in res["violations"]:
                if n >= 12:
                    break
                n += 1
                p = os.path.join(rdir, "%s-%d.txt" % (entry, len(os.listdir(rdir))))
                replay_file(p, prop, entry, params, v["inputs"], "%s: %s %s" % (v["kind"], v["msg"], v["at"]))
                rc, so_out, so_err = native(so, entry, p)
                bad = rc == 3 or rc == "timeout" or (isinstance(rc, int) and rc < 0)
                if v["kind"] == "hang" and not bad:
                    continue
                if not bad:
                    problems.append("%s: counterexample does not reproduce natively (exit %s): %s %s %s" % (tag, rc, v["kind"], v["msg"], v["at"]))
                    continue
                k = next((k for k in known(prop) if matches(k, entry, v, v["inputs"])), None)
                if k:
                    knowns[k["what"]] = k
                    continue
                found = (p, v, rc, so_out, so_err)
                viols.append((tag,) + found)
                break
            miss = [c for c in r.get("covers", []) if c not in res["covers"]]
            cov_only = r.get("covers_any")
            if miss and not res["violations"]:
                # a witness may be out of reach of this run's parameters; judged over the whole entry below
                r.setdefault("_miss", []).append(set(miss))
            else:
                r.setdefault("_miss", []).append(set())
            for label, ins in sorted(res["cover_inputs"].items()):
                for i in ins[:2]:
                    p = os.path.join(WORK, "cover.txt")
                    replay_file(p, prop, entry, params, i)
                    rc, o, e = native(so, entry, p)
                    # 6: the witness was recorded on the way, before the path's last input
                    if "COVER " + label in o and (rc in (0, 6) or found or knowns or res["violations"]):
                        validated += 1
                    elif not res["violations"]:
                        problems.append("%s: witness for '%s' does not replay natively (exit %s)" % (tag, label, rc))
                if len(samples) < 12:
                    samples.append({"entry": tag, "witness": label, "inputs": ins[0][:40]})
            runs.append({"entry": tag, "bounds": r.get("bounds", ""), "complete": done, "wall_s": res["wall_s"],
                         **{k: res.get(k, 0) for k in ("paths", "assumed", "forks", "branch_unsat", "asserts_concrete",
                                                       "asserts_solver", "queries", "sat", "unsat", "unknown", "instrs", "max_path")},
                         "solver_s": round(res.get("solver_ms", 0) / 1000, 2), "covers": res["covers"]})
            log("%-46s paths %-7d queries %-7d solver %6.1fs wall %6.1fs %s%s" % (
                tag, res.get("paths", 0), res.get("queries", 0), res.get("solver_ms", 0) / 1000, res["wall_s"],
                "complete" if done else "INCOMPLETE", " VIOLATED" if found else ""))
            if found and spec.get("stop", True):
                break
        if viols and spec.get("stop", True):
            break
    if not viols:
        for r in spec["runs"]:
            ms = r.pop("_miss", None)
            if ms:
                never = set.intersection(*ms)
                if never and not knowns:
                    problems.append("%s never reached: %s" % (r["entry"], sorted(never)))
    z3 = sh([os.path.join(V, "engine/target/release/rsx"), "--version"]).stdout.strip()
    mine = sorted(f for f in funcs if interesting(f))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": agg["paths"], "transitions": agg["forks"] + agg["branch_unsat"],
            "traces_validated_against_impl": validated,
            "samples": samples or [{"entry": x["entry"]} for x in runs[:3]],
            "exhaustive": not incomplete and not problems and not viols,
            "explanation": "states: feasible symbolic paths run to the end; transitions: branch decisions settled by the "
                           "solver or its cache (both sides feasible, or one side unsatisfiable). Every path of every entry "
                           "within the bounds was explored unless listed under incomplete.",
            "paths_cut_by_assumptions": agg["assumed"],
            "solver": "z3 " + z3, "queries": agg["queries"], "sat": agg["sat"], "unsat": agg["unsat"], "unknown": agg["unknown"],
            "query_cache_hits": agg["cache_hits"], "solver_s": round(solver_ms / 1000, 2), "max_query_ms": round(maxq, 1),
            "assertions_decided_by_solver": agg["asserts_solver"], "assertions_concrete_on_path": agg["asserts_concrete"],
            "ir_instructions": agg["instrs"], "symbolic_loads": agg["sym_loads"], "symbolic_stores": agg["sym_stores"],
            "functions_encoded": len(funcs), "project_functions_encoded": len(mine), "project_functions": mine[:400],
            "runs": runs, "incomplete": incomplete, "problems": problems, "build_s": round(build_s, 1),
        },
        "assumptions": spec.get("assumptions", []) + [
            "LLVM IR produced by rustc %s (overflow checks on, panic=abort) from /repo's working tree; the machine code of the "
            "release build is taken to agree with it" % TC,
            "libc/allocator/clock/hash-seed stubs of the executor (DESIGN.md, 'trusted base')"],
        "wall_s": round(time.time() - t0, 1), "violations": len(viols),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w in sorted(knowns):
        log("KNOWN-FINDING: property=%s %s" % (prop, w))
    for tag, p, v, rc, o, e in viols:
        log("%s: %s: %s %s" % (tag, v["kind"], v["msg"], v["at"]))
        log("  native replay: exit %s %s" % (rc, (o.strip().splitlines() or [""])[-1] if rc == 3 else e.strip()[:300]))
        log("  in: " + " < ".join(v["stack"][:5]))
        log("  inputs: " + " ; ".join(v["inputs"])[:600])
        log("VIOLATION property=%s replay=%s" % (prop, p))
    if viols:
        return 1
    for x in incomplete:
        log("INCOMPLETE " + x)
    for x in problems:
        log("PROBLEM " + x)
    lk.close()
    return 2 if problems else 0
