#!/usr/bin/env python3
"""Mutation campaign: small generic changes to the sources, run against the checks (in a copy, VERIF_REPO).

  mutate.py LOG [--n N] [--seed S] [--secs Q] [--files substr,substr]   results are appended to LOG
"""
import sys, os, re, random, subprocess, time, json, argparse
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/vp_mut"
MAP = [
    ("src/message_queue.cpp", 5, "C04 C15 C01 C10 C18 C14 C05 C08 C13 C21"),
    ("src/semaphore.cpp", 2, "C06 C14 C10 C18 C04"),
    ("src/semaphore.h", 1, "C06"),
    ("src/shared_memory.cpp", 4, "C17 C18 C14 C10 C15 C04"),
    ("src/sender.cpp", 6, "C01 C08 C15 C07 C14 C21 C10 C13 C18 C16"),
    ("src/resp_dispatcher.cpp", 5, "C01 C19 C11 C21 C14 C07 C18 C16 C03"),
    ("src/call_dispatcher.cpp", 5, "C03 C19 C11 C20 C09 C01 C21 C14 C18 C16"),
    ("include/veigar/call_dispatcher.inl", 2, "C03 C09 C02 C19 C20"),
    ("include/veigar/call_dispatcher.h", 1, "C03 C09 C01 C20"),
    ("src/veigar.cpp", 5, "C09 C01 C03 C21 C22 C18 C14 C07 C08 C16"),
    ("include/veigar/veigar.inl", 4, "C03 C01 C07 C21 C09 C18 C14 C16"),
    ("include/veigar/call_result.h", 1, "C03 C01 C07 C09 C16"),
    ("src/response.cpp", 1, "C19 C03 C01"),
    ("src/uuid.cpp", 1, "C22 C01"),
    ("src/event.cpp", 2, "C01 C21 C08 C14 C16"),
    ("src/event.h", 1, "C01 C21 C08 C16"),
    ("src/string_helper.cpp", 1, "C03 C07 C11"),
    ("src/time_util.cpp", 1, "C08 C07 C01"),
    ("src/log.cpp", 1, "C11 C03 C18"),
    ("include/veigar/detail/", 2, "C03 C02 C09 C19"),
    ("include/veigar/msgpack/v1/pack.hpp", 3, "C12 C02 C19"),
    ("include/veigar/msgpack/v2/parse.hpp", 3, "C12 C11 C02 C19"),
    ("include/veigar/msgpack/v2/create_object_visitor.hpp", 2, "C12 C11 C02"),
    ("include/veigar/msgpack/v1/adaptor/", 6, "C02 C12 C03"),
    ("include/veigar/msgpack/v1/object.hpp", 2, "C12 C02 C11"),
    ("include/veigar/msgpack/v3/unpack.hpp", 1, "C12 C11"),
    ("include/veigar/msgpack/v1/detail/cpp11_zone.hpp", 1, "C12 C02 C11 C14"),
    ("include/veigar/msgpack/v1/sbuffer.hpp", 1, "C12 C02 C01"),
]


def candidates(path, text):
    out = []
    lines = text.split("\n")
    win = 0
    for i, ln in enumerate(lines):
        s = ln.strip()
        if re.match(r"#\s*ifdef VEIGAR_OS_WINDOWS", s):
            win = 1
        elif win and re.match(r"#\s*(else|endif)", s):
            win = 0
        if win or not s or s.startswith(("//", "/*", "*", "#", "assert(", "veigar::log(", "using ", "namespace ", "template", "public:", "private:", "inline ", "static_assert")):
            continue
        code = ln.split("//")[0]
        if '"' in code and ("log(" in code or "StringPrintf" in code):
            continue

        def add(new, what):
            if new != ln:
                out.append((path, i, ln, new, what))

        for a, bs in ((" == ", (" != ",)), (" != ", (" == ",)), (" <= ", (" < ",)), (" >= ", (" > ",)), (" < ", (" <= ",)), (" > ", (" >= ",)), (" && ", (" || ",)), (" || ", (" && ",)),
                      (" + ", (" - ",)), (" - ", (" + ",)), (" += ", (" = ", " -= ")), (" -= ", (" += ",)), ("true", ("false",)), ("false", ("true",)), (" * ", (" + ",))):
            for m in re.finditer(re.escape(a), code):
                if "template" in code or "typename" in code or "<<" in code:
                    continue
                if a in ("true", "false") and re.search(r"\w$", code[:m.start()]) :
                    continue
                for b in bs:
                    add(ln[:m.start()] + b + ln[m.end():], "%s ->%s" % (a, b))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            n = int(m.group(1))
            for k in {n + 1, max(0, n - 1)} - {n}:
                add(ln[:m.start()] + str(k) + ln[m.end():], "%d -> %d" % (n, k))
        m = re.match(r"(\s*(?:\} else |else )?if ?\()(.*)(\) ?\{?\s*)$", code)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            add(m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "negated condition")
            add(m.group(1) + "false && (" + m.group(2) + ")" + m.group(3), "condition never")
        if s.endswith(";") and s.count("(") == s.count(")") and not s.startswith(("return", "}", "typedef")):
            if re.match(r"^[\w:.>\-\[\]*()+ ,&!]+(\(.*\)|[+\-]?= .*|\+\+|--);$", s) and not re.match(r"^(const |auto |static |[\w:<>,\s*&]+\s[\w]+ =|std::(lock_guard|unique_lock|string \w|shared_ptr|vector|unordered_map|list))", s) or s in ("continue;",) or re.match(r"std::(lock_guard|unique_lock)", s) or s.startswith("*"):
                add(re.match(r"\s*", ln).group(0) + ";", "statement deleted")
        if re.match(r"return (true|false);$", s):
            pass
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("log")
    ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--secs", default="8")
    ap.add_argument("--files", default="")
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    sh("mkdir -p %s; git -C /repo archive HEAD | tar x -C %s" % (WT, WT))
    done = set()
    if os.path.exists(a.log):
        done = {tuple(json.loads(l)["key"]) for l in open(a.log)}
    pool = []
    for pre, w, checks in MAP:
        if a.files and not any(x in pre for x in a.files.split(",")):
            continue
        fs = [pre] if not pre.endswith("/") else [os.path.join(pre, f) for f in sorted(os.listdir(os.path.join(WT, pre))) if os.path.isfile(os.path.join(WT, pre, f))]
        cs = []
        for f in fs:
            cs += candidates(f, open(os.path.join(WT, f), newline="").read())
        rnd.shuffle(cs)
        for k, c in enumerate(cs):
            pool.append(((k + rnd.random()) / w, c, checks))
    pool.sort(key=lambda x: x[0])
    n = 0
    for _, (f, i, old, new, what), checks in pool:
        key = (f, old.strip(), new.strip())
        if key in done:
            continue
        if n >= a.n:
            break
        n += 1
        p = os.path.join(WT, f)
        orig = open(p, newline="").read()
        lines = orig.split("\n")
        assert lines[i] == old
        lines[i] = new + ("\r" if old.endswith("\r") and not new.endswith("\r") else "")
        open(p, "w", newline="").write("\n".join(lines))
        res = "SURVIVED"
        t0 = time.time()
        errs = []
        try:
            for c in checks.split():
                e = dict(os.environ, VERIF_REPO=WT, VP_QUICK_S=a.secs, VERIF_SEED=str(rnd.randrange(1, 1000)))
                try:
                    r = subprocess.run(["python3", os.path.join(ROOT, "run.py"), c], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=500)
                except subprocess.TimeoutExpired:
                    errs.append(c + ":timeout")
                    sh("pkill -9 -f vpw; true")
                    continue
                if r.returncode == 1:
                    m = re.findall(r"^\[.*$", r.stdout, re.M)
                    res = "%s %s" % (c, m[0][:250] if m else r.stdout[-250:])
                    break
                if r.returncode != 0:
                    if "build failed" in r.stdout:
                        res = "BUILD"
                        break
                    errs.append("%s:%d:%s" % (c, r.returncode, r.stdout[-300:]))
        finally:
            open(p, "w", newline="").write(orig)
        rec = dict(key=key, line=i + 1, what=what, res=res, errs=errs, s=round(time.time() - t0))
        with open(a.log, "a") as o:
            o.write(json.dumps(rec) + "\n")
        print(rec["res"][:60], f, i + 1, what, "|", old.strip(), "=>", new.strip(), "|", errs, flush=True)


main()
