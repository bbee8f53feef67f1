#!/usr/bin/env python3
"""Driver of the property checks.

  run.py <ID>                      run the check (VERIF_SEED, VERIF_TIER from the environment)
  run.py <ID> --replay FILE        re-execute a replay file (exit 1 if it still fails)
  run.py --build-all               build every harness (setup)
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Other: error of the check.
"""
import sys, os, json, glob, hashlib, subprocess, time, shutil, fcntl, signal, re, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, ROOT)
from checks import CHECKS, WRAPS  # noqa: E402

NCPU = min(8, os.cpu_count() or 8)

FLAVORS = {
    "plain": dict(cxx="clang++", c=["-O1", "-g1", "-DNDEBUG"], l=[]),
    "asan": dict(cxx="clang++", c=["-O1", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                   "-fno-sanitize=vptr,function,nonnull-attribute", "-fno-sanitize-recover=undefined"],
                 l=["-fsanitize=address,undefined"]),
    "tsan": dict(cxx="clang++", c=["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"], l=["-fsanitize=thread"]),
    "fuzz": dict(cxx="clang++", c=["-O1", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer", "-fsanitize=fuzzer-no-link,address,undefined",
                                   "-fno-sanitize=vptr,function,nonnull-attribute", "-fno-sanitize-recover=undefined"],
                 l=["-fsanitize=fuzzer,address,undefined"]),
}
COMMON = ["-DVEIGAR_STATIC", "-w", "-pthread",
          "-I", os.path.join(REPO, "include"), "-iquote", os.path.join(REPO, "src"),
          "-I", os.path.join(ROOT, "harness/common")]
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:handle_abort=1:print_summary=0:symbolize=1:max_allocation_size_mb=4096",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4:report_thread_leaks=0",
}


def die(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(3)


def sha(*parts):
    h = hashlib.sha256()
    for x in parts:
        h.update(x if isinstance(x, bytes) else x.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_files():
    r = []
    for d in ("src", "include"):
        for base, _, fs in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(base, f) for f in fs]
    return r


def common_files():
    return glob.glob(os.path.join(ROOT, "harness/common/*"))


def compile_one(args):
    cmd, out = args
    if os.path.exists(out):
        return None
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return "%s\n%s" % (" ".join(cmd), r.stdout[-4000:])
    os.rename(tmp, out)
    return None


def build(parts, quiet=True):
    """Builds the parts, returns {part name: binary}."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    files = repo_files()
    rh = tree_hash(files)                                                  # everything: what is linked
    hh = tree_hash([f for f in files if not f.endswith(".cpp")])           # what any translation unit may include
    ch = tree_hash(common_files() + glob.glob(os.path.join(ROOT, "harness/*.h")))
    # the results of old builds go, except the most recent ones
    obj = os.path.join(BUILD, "obj")
    os.makedirs(obj, exist_ok=True)
    for pat, keep in (("bin-*", 60), ("lib-*", 0), ("obj/*", 1500)):
        for d in sorted(glob.glob(os.path.join(BUILD, pat)), key=os.path.getmtime, reverse=True)[keep:]:
            shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else os.unlink(d)
    jobs = {}
    links = []
    bins = {}

    def compile_to(src, flags, *deps):
        cmd = [flags[0]] + COMMON + flags[1:] + ["-c", src]
        o = os.path.join(obj, "%s-%s.o" % (os.path.basename(src), sha(json.dumps(cmd), tree_hash([src]), *deps)))
        if os.path.exists(o):
            os.utime(o)
        jobs[o] = (cmd, o)
        return o

    for p in parts:
        fl = FLAVORS[p["flavor"]]
        extra = p.get("defs", []) + (["-DVP_WRAP"] if p.get("wrap") else [])
        cc = [fl["cxx"], "-std=" + p.get("std", "gnu++17")] + fl["c"]
        objs = []
        if p.get("lib", True):
            objs += [compile_to(s, cc, hh) for s in sorted(glob.glob(os.path.join(REPO, "src/*.cpp")))]
        srcs = [os.path.join(ROOT, "harness", s) for s in p["src"]]
        if p.get("engine", True):
            srcs.append(os.path.join(ROOT, "harness/common/vp.cpp"))
        if p.get("wrap"):
            srcs.append(os.path.join(ROOT, "harness/common/wrap.cpp"))
        objs += [compile_to(s, cc + extra, hh, ch) for s in srcs]
        wl = ["-Wl,--wrap=" + w for g in p.get("wrap", []) for w in WRAPS[g]]
        link = [fl["cxx"]] + fl["l"] + objs + wl + ["-pthread", "-lrt"]
        bd = os.path.join(BUILD, "bin-%s-%s-%s" % (p["name"], p["flavor"], sha(json.dumps(link), rh)))
        os.makedirs(bd, exist_ok=True)
        os.utime(bd)
        exe = os.path.join(bd, p["name"])
        links.append((link, exe))
        bins[p["name"]] = exe
    # big translation units first
    order = sorted(jobs.values(), key=lambda j: 0 if "/harness/" in j[0][-1] and "common" not in j[0][-1] else 1)
    with ThreadPoolExecutor(NCPU) as ex:
        for e in ex.map(compile_one, order):
            if e:
                die("build failed: " + e)
        for e in ex.map(compile_one, links):
            if e:
                die("link failed: " + e)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return bins


def known_findings(pid):
    """[(signature, text)] of the findings listed for the property."""
    r = []
    f = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3)))
    return r


def clean_shm(pids):
    for pid in pids:
        for f in glob.glob("/dev/shm/*vp%d_*" % pid):
            try:
                os.unlink(f)
            except OSError:
                pass


def child_env():
    e = dict(os.environ)
    e.update(ENV)
    e["LC_ALL"] = "C"
    return e


def run_engine_parts(pid, parts, bins, seed, tier, work, knowns):
    """Runs the workers of the given parts concurrently. Returns list of (part, result json, workdir)."""
    procs = []
    wi = 0
    for p in parts:
        budget = p["thorough_s"] if tier == "thorough" else p["quick_s"]
        n = p.get("workers", NCPU)
        for i in range(n):
            wi += 1
            wd = os.path.join(work, "%s.%d" % (p["name"], i))
            os.makedirs(wd)
            cmd = [bins[p["name"]], "--seed", str(seed * 1000 + i * 7 + p.get("seed_offset", 0)), "--budget-ms", str(int(budget * 1000)),
                   "--work", wd, "--out", os.path.join(wd, "out.json")]
            if tier == "thorough":
                cmd.append("--thorough")
            if knowns:
                cmd += ["--known", ",".join(k for k, _ in knowns)]
            log = open(os.path.join(wd, "log"), "w")
            pr = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=child_env(), cwd=wd)
            procs.append((p, pr, wd))
    limit = time.time() + max((p["thorough_s"] if tier == "thorough" else p["quick_s"]) for p in parts) + 240
    results = []
    pending = list(procs)
    violated = False
    while pending:
        time.sleep(0.05)
        for t in list(pending):
            p, pr, wd = t
            rc = pr.poll()
            if rc is None:
                continue
            pending.remove(t)
            of = os.path.join(wd, "out.json")
            if os.path.exists(of):
                try:
                    results.append((p, json.load(open(of)), wd))
                    if results[-1][1]["violations"]:
                        violated = True
                    continue
                except ValueError:
                    pass
            die("worker %s ended with %s: %s" % (wd, rc, open(os.path.join(wd, "log")).read()[-1500:]))
        if violated and pending:
            # give the others a moment (they may be confirming a simpler failure), then stop them
            limit = min(limit, time.time() + 1)
        if time.time() > limit:
            for p, pr, wd in pending:
                pr.kill()
            for p, pr, wd in pending:
                pr.wait()
            if not violated:
                die("a worker did not end in time")
            break
    time.sleep(0.05)
    clean_shm([pr.pid for _, pr, _ in procs])
    return results


def run_fuzz_part(p, exe, seed, tier, work):
    """libFuzzer targets: one process per worker, fresh corpus each."""
    budget = p["thorough_s"] if tier == "thorough" else p["quick_s"]
    n = p.get("workers", NCPU)
    procs = []
    for i in range(n):
        wd = os.path.join(work, "%s.%d" % (p["name"], i))
        os.makedirs(os.path.join(wd, "corpus"))
        cmd = [exe, "-seed=%d" % (seed * 1000 + i + 1), "-max_total_time=%d" % int(budget), "-max_len=%d" % p.get("max_len", 512),
               "-timeout=20", "-rss_limit_mb=3000", "-malloc_limit_mb=2000", "-print_final_stats=1", "-artifact_prefix=" + wd + "/", "-len_control=20",
               os.path.join(wd, "corpus")]
        log = open(os.path.join(wd, "log"), "w")
        env = child_env()
        env["VP_STATS"] = os.path.join(wd, "stats")
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=wd), wd))
    res = []
    t_end = time.time() + budget + 200
    for pr, wd in procs:
        try:
            pr.wait(max(1, t_end - time.time()))
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.wait()
            die("fuzzer did not end")
        log = open(os.path.join(wd, "log"), errors="replace").read()
        arts = [a for a in glob.glob(wd + "/crash-*") + glob.glob(wd + "/timeout-*") + glob.glob(wd + "/oom-*")]
        execs = int((re.findall(r"stat::number_of_executed_units:\s*(\d+)", log) or ["0"])[-1])
        corpus = os.listdir(os.path.join(wd, "corpus"))
        st = {}
        if os.path.exists(os.path.join(wd, "stats")):
            for line in open(os.path.join(wd, "stats")):
                k, _, v = line.rstrip("\n").partition("=")
                st[k] = v
        res.append(dict(wd=wd, log=log, arts=arts, execs=execs, corpus=corpus, stats=st, rc=pr.returncode))
    return res


def save_replay(pid, part, src, kind):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    data = open(src, "rb").read()
    ext = "case" if kind == "case" else "bin"
    dst = os.path.join(d, "%s-%s-%s.%s" % (pid, part, hashlib.sha256(data).hexdigest()[:10], ext))
    if kind == "case":
        data = ("# part %s\n" % part).encode() + data
    with open(dst, "wb") as f:
        f.write(data)
    return dst


def replay_cmd(pid, path):
    chk = CHECKS[pid]
    part = None
    head = open(path, "rb").read(200)
    m = re.match(rb"# part (\S+)", head)
    name = m.group(1).decode() if m else os.path.basename(path).split("-")[1]
    for p in chk["parts"]:
        if p["name"] == name:
            part = p
    if part is None:
        die("replay file names no part of " + pid)
    exe = build([part])[name]
    if part.get("kind") == "fuzz":
        r = subprocess.run([exe, path], env=child_env())
        sys.exit(1 if r.returncode else 0)
    work = tempfile.mkdtemp(prefix="vpw.")
    try:
        r = subprocess.run([exe, "--replay", path, "--repeat", os.environ.get("VP_REPEAT", "3"), "--work", work], env=child_env())
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(r.returncode)


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--build-all":
        allp = [p for c in CHECKS.values() for p in c["parts"]]
        build(allp)
        print("built %d harnesses" % len(allp))
        return 0
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        die("usage: run.py <%s> [--replay FILE]" % "|".join(sorted(CHECKS)))
    pid = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        replay_cmd(pid, os.path.abspath(sys.argv[3]))
    chk = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if os.environ.get("VP_QUICK_S"):   # for campaigns with planted bugs
        for p in chk["parts"]:
            p["quick_s"] = int(os.environ["VP_QUICK_S"])
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    bins = build(chk["parts"])
    t_build = time.time() - t0
    knowns = known_findings(pid)
    work = tempfile.mkdtemp(prefix="vpw.")
    violations = []   # (replay path, message)
    known_seen = {}
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], parts=[])
    rules = []
    try:
        groups = {}
        for p in chk["parts"]:
            groups.setdefault(p.get("group", 0), []).append(p)
        for g in sorted(groups):
            eng = [p for p in groups[g] if p.get("kind") != "fuzz"]
            fz = [p for p in groups[g] if p.get("kind") == "fuzz"]
            hashes = {}
            if eng:
                res = run_engine_parts(pid, eng, bins, seed, tier, work, knowns)
                byp = {}
                for p, r, wd in res:
                    e = byp.setdefault(p["name"], dict(part=p["name"], flavor=p["flavor"], workers=0, evaluations=0, discards=0, inconclusive=0,
                                                       unreproduced=0, labels={}, metrics={}, slowest_batch_ms=0))
                    e["workers"] += 1
                    for k in ("evaluations", "discards", "inconclusive", "unreproduced"):
                        e[k] += r[k]
                    e["slowest_batch_ms"] = max(e["slowest_batch_ms"], r["slowest_batch_ms"])
                    for k in ("labels", "metrics"):
                        for a, b in r[k].items():
                            e[k][a] = e[k].get(a, 0) + b
                    hashes.setdefault(p["name"], set()).update(r["hashes"])
                    if p["name"] + r["rule"] not in [x[0] for x in rules]:
                        rules.append((p["name"] + r["rule"], "[%s] %s" % (p["name"], r["rule"])))
                    have = len([s for s in cov["samples"] if s["part"] == p["name"]])
                    for s in r["samples"]:
                        if have < 3:
                            cov["samples"].append(dict(part=p["name"], case=s))
                            have += 1
                    for k, _ in knowns:
                        n = r["metrics"].get("known:" + k, 0)
                        if n:
                            known_seen[k] = known_seen.get(k, 0) + n
                    if r["violations"]:
                        f = r["failure"]
                        path = save_replay(pid, p["name"], os.path.join(wd, "violation.case"), "case")
                        violations.append((path, "[%s] %s%s (reproduced %d of %d, %d shrink runs, %d -> %d operations): %s" % (
                            p["name"], f["kind"], "" if f["sig"] in ("", "-") else " " + f["sig"], f["confirmed"], f["tried"], f["shrink_runs"], f["ops_before"], f["ops_after"], f["msg"])))
                # hard failures that did not reproduce, over all workers
                un = {}
                for p, r, wd in res:
                    for f in sorted(glob.glob(wd + "/unrepro*.case")):
                        un.setdefault(p["name"], []).append((f, r["unreproduced_msgs"]))
                for name, lst in un.items():
                    byp[name]["unreproduced_msgs"] = sorted(set(m[:300] for _, ms in lst for m in ms))[:5]
                    for f, ms in lst:   # kept for a look at them
                        os.makedirs(os.path.join(BUILD, "unrepro"), exist_ok=True)
                        shutil.copy(f, os.path.join(BUILD, "unrepro", "%s-%s-%s" % (pid, sha(open(f).read())[:8], os.path.basename(f))))
                        print("  not reproduced: %s" % ms[:3])
                    if not violations and len(lst) >= 2:
                        path = save_replay(pid, name, lst[0][0], "case")
                        violations.append((path, "[%s] %d cases failed hard but rarely (not reproduced on replay): %s" % (name, len(lst), lst[0][1][:1])))
                # timing-dependent failures: confirm one by one on the quiet machine
                tried = 0
                for p, r, wd in res:
                    for f in sorted(glob.glob(wd + "/timing*.case")):
                        if violations or tried >= 8:
                            break
                        tried += 1
                        rr = subprocess.run([bins[p["name"]], "--replay", f, "--repeat", "4", "--work", wd], env=child_env(),
                                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                        m = re.search(r"REPLAY bad=(\d+) of", rr.stdout)
                        byp[p["name"]].setdefault("timing_replays", []).append(m.group(1) + "/4" if m else "?")
                        if m and int(m.group(1)) >= 3:
                            path = save_replay(pid, p["name"], f, "case")
                            violations.append((path, "[%s] timing: %s" % (p["name"], rr.stdout[:600])))
                for name, e in byp.items():
                    e["distinct_nontrivial"] = len(hashes.get(name, ()))
                    cov["evaluations"] += e["evaluations"]
                    cov["distinct_nontrivial"] += e["distinct_nontrivial"]
                    cov["parts"].append(e)
            for p in fz:
                if violations:
                    break
                rs = run_fuzz_part(p, bins[p["name"]], seed, tier, work)
                e = dict(part=p["name"], flavor=p["flavor"], workers=len(rs), evaluations=sum(r["execs"] for r in rs),
                         distinct_nontrivial=sum(int(r["stats"].get("nontrivial", 0)) for r in rs),
                         corpus_units=sum(len(r["corpus"]) for r in rs))
                rules.append((p["name"], "[%s] %s" % (p["name"], p.get("rule", ""))))
                for r in rs:
                    for k, v in r["stats"].items():
                        if k.startswith("sample") and len([s for s in cov["samples"] if s["part"] == p["name"]]) < 3:
                            cov["samples"].append(dict(part=p["name"], case=v))
                        elif not k.startswith("sample") and v.isdigit() and k != "nontrivial":
                            e.setdefault("metrics", {})[k] = e.setdefault("metrics", {}).get(k, 0) + int(v)
                    if r["arts"]:
                        # confirm and minimise
                        a = r["arts"][0]
                        oks = 0
                        out = ""
                        for _ in range(3):
                            q = subprocess.run([bins[p["name"]], "-timeout=20", "-rss_limit_mb=3000", a], env=child_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=r["wd"])
                            oks += q.returncode != 0
                            out = q.stdout
                        if oks >= 2:
                            mini = os.path.join(r["wd"], "min")
                            subprocess.run([bins[p["name"]], "-minimize_crash=1", "-max_total_time=10", "-exact_artifact_path=" + mini, a], env=child_env(),
                                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=r["wd"])
                            path = save_replay(pid, p["name"], mini if os.path.exists(mini) and os.path.getsize(mini) else a, "bin")
                            i = out.find("ORACLE")
                            if i < 0:
                                i = max(0, out.find("ERROR"))
                            violations.append((path, "[%s] %s" % (p["name"], out[i:i + 800])))
                            break
                    elif r["rc"] not in (0,):
                        die("fuzzer ended with %s: %s" % (r["rc"], r["log"][-1500:]))
                cov["evaluations"] += e["evaluations"]
                cov["distinct_nontrivial"] += e["distinct_nontrivial"]
                cov["parts"].append(e)
            if violations:
                break
        cov["rule"] = " ".join(r for _, r in rules)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=chk.get("level", "exploration"), coverage=cov,
                  assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(violations))
        ev["coverage"]["build_s"] = round(t_build, 1)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    finally:
        if os.environ.get("VP_KEEP"):
            print("work dir kept: " + work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    for k, text in knowns:
        print("KNOWN-FINDING: property=%s %s (sig %s, %d cases in this run)" % (pid, text, k, known_seen.get(k, 0)))
    print("%s: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" % (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, t_build))
    for e in cov["parts"]:
        print("  part %s: %s" % (e["part"], json.dumps({k: v for k, v in e.items() if k not in ("labels", "part")})))
    if violations:
        path, msg = violations[0]
        print(msg)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if cov["evaluations"] == 0:
        die("nothing was explored")
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
