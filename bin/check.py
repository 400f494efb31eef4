#!/usr/bin/env python3
"""Runs the runtime-monitoring check of one property against /repo's current working tree.

usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--cases N] [--keep]
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from props import PROPS  # noqa: E402

NCPU = int(os.environ.get("VF_NCPU", 0)) or max(1, min(8, os.cpu_count() or 1))
# For tools/mutate.py and tools/coverage.py only: a subset of the cell types, a cache of object files, gcov instrumentation.
PAIRS = [int(x) for x in os.environ.get("VF_PAIRS", "").split(",") if x]
OBJCACHE = os.environ.get("VF_OBJCACHE")
COV = os.environ.get("VF_COV")


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def run_out(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"],
    "tsan": ["-fsanitize=thread"],
    "none": [],
}


def flags(part, gdal_cflags, mongo_cflags):
    f = ["-std=c++11", "-fopenmp", "-fPIC", "-g1", "-fno-omit-frame-pointer", "-w", "-DLINUX", "-DSUPPORT_OMP", "-DUSE_GDAL", "-DUNITTEST",
         "-D_GLIBCXX_ASSERTIONS", "-I" + REPO + "/src", "-I" + HARN]
    if COV:
        f += ["--coverage", "-DVF_COV"]
    f += gdal_cflags + SAN[part.get("san", "asan")] + part.get("flags", [])
    if part.get("mongo"):
        f += ["-DUSE_MONGODB"] + mongo_cflags
    return f


def build(prop, spec, work):
    gdal_c = run_out(["gdal-config", "--cflags"]).stdout.split()
    gdal_l = run_out(["gdal-config", "--libs"]).stdout.split()
    mongo_c = mongo_l = []
    if any(p.get("mongo") for p in spec["parts"]):
        mongo_c = run_out(["pkg-config", "--cflags", "libmongoc-1.0"]).stdout.split()
        mongo_l = run_out(["pkg-config", "--libs", "libmongoc-1.0"]).stdout.split()
    jobs = []
    exes = []
    for pi, part in enumerate(spec["parts"]):
        fl = flags(part, gdal_c, mongo_c)
        objs = []
        srcs = []
        tus = part["tus"]
        if PAIRS:
            ty = [t for t in tus if not isinstance(t, str) and any(d.startswith("-DVT=") for d in t[1])]
            keep = [ty[k % len(ty)] for k in PAIRS] if ty else []
            tus = [t for t in tus if t not in ty or t in keep]
        for tu in tus:
            f, defs = (tu, []) if isinstance(tu, str) else tu
            srcs.append((os.path.join(REPO, f[1:]) if f[0] == "@" else os.path.join(HARN, f), defs, part.get("opt", "-O1")))
        srcs.append((os.path.join(HARN, "vf_main.cpp"), [], "-O1")) if not part.get("own_main") else None
        for s in part["libs"]:
            srcs.append((os.path.join(REPO, s), part.get("libdefs", []), part.get("libopt", "-O1")))
        srcs.sort(key=lambda s: 0 if "harness" in s[0] else 1)
        for i, (s, defs, opt) in enumerate(srcs):
            o = os.path.join(work, "p%d_%d.o" % (pi, i))
            objs.append(o)
            jobs.append(["g++"] + fl + [opt] + defs + ["-c", s, "-o", o])
        exe = os.path.join(work, part["name"])
        san = [x for x in SAN[part.get("san", "asan")] if x.startswith("-fsanitize") or x.startswith("-fno-san")]
        omp = ["-fopenmp"] if not part.get("gomp_shim") else []
        exes.append((["g++"] + (["--coverage"] if COV else []) + san + omp + objs + ["-o", exe] + part.get("ldflags", []) + gdal_l + (mongo_l if part.get("mongo") else []) + ["-lpthread", "-ldl"]))
    t0 = time.time()

    def comp(cmd):
        if OBJCACHE and "-c" in cmd:
            c = cmd[:-4] + ["-E", cmd[-3]]
            pre = run_out(c)
            if pre.returncode == 0:
                h = hashlib.sha1((" ".join(c) + pre.stdout).replace(REPO, "@").replace(VERIF, "@").encode()).hexdigest()
                o = os.path.join(OBJCACHE, h + ".o")
                if not os.path.exists(o):
                    r = run_out(cmd)
                    if r.returncode:
                        return r.returncode, cmd, r.stdout
                    if not os.path.exists(os.path.join(OBJCACHE, "frozen")):
                        shutil.copy(cmd[-1], o + str(os.getpid()))
                        os.rename(o + str(os.getpid()), o)
                    return 0, cmd, ""
                shutil.copy(o, cmd[-1])
                return 0, cmd, ""
        r = run_out(cmd)
        return r.returncode, cmd, r.stdout

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for rc, cmd, out in ex.map(comp, jobs):
            if rc != 0:
                die("compilation failed: %s\n%s" % (" ".join(cmd), out[-6000:]))
        for rc, cmd, out in ex.map(comp, exes):
            if rc != 0:
                die("link failed: %s\n%s" % (" ".join(cmd), out[-6000:]))
    return time.time() - t0


def parse_san(text):
    """(signature, summary) of a sanitizer report."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer:? ([^\n]*)", text)
    if m:
        kind = "asan:" + re.split(r"[ :(]", m.group(1).strip())[0]
        if "attempting double-free" in m.group(1):
            kind = "asan:double-free"
        if "requested allocation size" in m.group(1):
            kind = "asan:alloc-size-too-big"
    if kind is None:
        m = re.search(r"runtime error: ([^\n]*)", text)
        if m:
            w = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*|'[^']*'", "N", m.group(1))
            kind = "ubsan:" + re.sub(r"\s+", "-", w.strip())[:60]
    if kind is None:
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", text)
        if m:
            kind = "tsan:" + m.group(1).strip().replace(" ", "-")
    if kind is None:
        m = re.search(r"ERROR: LeakSanitizer", text)
        if m:
            kind = "lsan:leak"
    if kind is None:
        return None, ""
    fn = "?"
    for m in re.finditer(r"^\s*#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)", text, re.M):
        if m.group(2).startswith(REPO + "/"):
            fn = m.group(1)
            break
    fn = re.sub(r"\[clone.*|\(.*", "", fn)
    while re.search(r"<[^<>]*>", fn):
        fn = re.sub(r"<[^<>]*>", "", fn)
    fn = fn.split("::")[-1].strip().split(" ")[-1] if fn != "?" else fn
    return kind + ":" + fn, "\n".join(text.splitlines()[:60])


class Progress:
    FMT = "QQq64s1024s"

    def __init__(self, path):
        self.path = path

    def read(self):
        try:
            with open(self.path, "rb") as f:
                b = f.read(struct.calcsize(self.FMT))
            s, c, t, k, d = struct.unpack(self.FMT, b)
            z = lambda x: x.split(b"\0")[0].decode("latin1")
            return dict(seq=s, case=c, t0=t, kind=z(k), desc=z(d))
        except Exception:
            return None


def worker_env(part, logbase):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("GDAL_") or k.startswith("OMP_") or k in ("TZ", "CPL_DEBUG"):
            del env[k]
    env["LC_ALL"] = "C.UTF-8"
    env["TZ"] = "UTC"
    env["VF_WORK"] = os.path.dirname(logbase)  # where the programs built for this check are
    env["OMP_NUM_THREADS"] = "2"
    env["OMP_DYNAMIC"] = "false"
    env["OMP_WAIT_POLICY"] = "passive"
    env["GDAL_CACHEMAX"] = "64"
    env["GDAL_PAM_ENABLED"] = "YES"
    env["CPL_LOG"] = "/dev/null"
    env["ASAN_OPTIONS"] = ("detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=1:"
                           "max_malloc_fill_size=4096:malloc_fill_byte=190:strict_string_checks=0:max_allocation_size_mb=1500:"
                           "hard_rss_limit_mb=6000:quarantine_size_mb=64:exitcode=99:log_path=" + logbase)
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99:log_path=" + logbase
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:detect_deadlocks=0:log_path=" + logbase
    env["LSAN_OPTIONS"] = "exitcode=99:log_path=" + logbase
    env.update(part.get("env", {}))
    return env


CASE_HANG_S = 60
DONE = 42  # what a worker that ran to its end exits with


def run_part(prop, part, work, tier, seed, ncases, budget, fails, sums, only=None):
    """Runs all workers of a part; appends violation dicts to fails and summaries to sums."""
    exe = os.path.join(work, part["name"])
    nw = 1 if only is not None else part.get("workers", NCPU)
    scr = os.path.join(work, "scratch_" + part["name"])
    os.makedirs(scr, exist_ok=True)
    os.chmod(scr, 0o755)
    W = []

    def start(i, first, alone=None):
        log = os.path.join(work, "san_%s_%d_%d" % (part["name"], i, time.time_ns()))
        out = os.path.join(work, "out_%s_%d" % (part["name"], i))
        prog = os.path.join(work, "prog_%s_%d" % (part["name"], i))
        cmd = [exe, "--worker", str(i), "--nworkers", str(nw), "--start", str(first), "--ncases", str(ncases), "--seed", str(seed),
               "--tier", tier, "--budget", str(int(max(1, budget - (time.time() - t0)))), "--scratch", scr, "--out", out, "--progress", prog]
        if alone is not None:
            cmd += ["--only", str(alone)]
        if part.get("memcheck"):
            cmd = ["valgrind", "-q", "--leak-check=no", "--num-callers=30", "--error-limit=no", "--fair-sched=no", "--vgdb=no"] + (["--log-file=" + log + ".vg"] if only is None else []) + cmd
        so = open(os.path.join(work, "std_%s_%d" % (part["name"], i)), "wb")
        se = open(log + ".err", "wb")  # gcc's UBSan reports there rather than to log_path
        p = subprocess.Popen(cmd, stdout=so if alone is not None else subprocess.DEVNULL, stderr=so if only is not None else se,
                             env=worker_env(part, log), cwd=scr, start_new_session=True)
        so.close()
        se.close()
        return dict(i=i, p=p, log=log, out=out, prog=Progress(prog), restarts=0, first=first, lastseq=-1, lasttime=time.time(), alone=alone)

    def log_text(w):
        t = ""
        for f in sorted(glob.glob(w["log"] + "*")):
            try:
                with open(f, errors="replace") as fh:
                    fh.seek(max(0, os.path.getsize(f) - 200000))
                    t += fh.read()
            except OSError:
                pass
        return t

    def crash(w, rc):
        pr = w["prog"].read() or dict(case=0, kind="?", desc="?")
        text = log_text(w)
        sig, summ = parse_san(text)
        if sig is None:
            sig = "crash:%s:rc%d" % (pr["kind"], rc)
            summ = text[:2000]
        fails.append(dict(sig=sig, msg=summ, case=pr["case"], kind=pr["kind"], desc=pr["desc"], part=part["name"]))
        return pr

    t0 = time.time()
    if only is not None:
        w = start(0, 0, only)
        W = [w]
    else:
        W = [start(i, 0) for i in range(nw)]
    active = list(W)
    ncrash = 0
    hangs = []
    while active:
        time.sleep(0.05)
        for w in list(active):
            rc = w["p"].poll()
            if rc is None:
                pr = w["prog"].read()
                seq = pr["seq"] if pr else -1
                if seq != w["lastseq"]:
                    w["lastseq"] = seq
                    w["lasttime"] = time.time()
                elif time.time() - w["lasttime"] > CASE_HANG_S * (3 if part.get("slow") else 1):
                    try:
                        os.killpg(w["p"].pid, signal.SIGKILL)
                    except OSError:
                        pass
                    w["p"].wait()
                    if pr and seq > 0:
                        hangs.append(pr)
                    active.remove(w)
                    if pr and only is None and len(hangs) < 3:
                        n = start(w["i"], pr["case"] + 1)
                        active.append(n)
                        W.append(n)
                continue
            active.remove(w)
            if rc == DONE:
                continue
            if rc == 3 or not (w["prog"].read() or {}).get("seq"):
                sys.stderr.write(log_text(w)[-3000:])
                die("harness worker failed to start (%s)" % part["name"])
            pr = crash(w, rc)
            ncrash += 1
            if only is None and ncrash < 400 and time.time() - t0 < budget:
                n = start(w["i"], pr["case"] + 1)
                active.append(n)
                W.append(n)
    # a hang is only believed after a second run of that case alone
    for pr in hangs:
        if only is not None:
            fails.append(dict(sig="hang:" + pr["kind"], msg="case does not end", case=pr["case"], kind=pr["kind"], desc=pr["desc"], part=part["name"]))
            break
        w = start(900 + len(fails), 0, pr["case"])
        try:
            rc = w["p"].wait(timeout=CASE_HANG_S * 2)
            if rc != DONE:
                crash(w, rc)
        except subprocess.TimeoutExpired:
            os.killpg(w["p"].pid, signal.SIGKILL)
            w["p"].wait()
            fails.append(dict(sig="hang:" + pr["kind"], msg="case does not end (%d s, alone)" % (CASE_HANG_S * 2), case=pr["case"], kind=pr["kind"],
                              desc=pr["desc"], part=part["name"]))
        break
    hashes = set()
    for out in sorted(set(w["out"] for w in W)):
        try:
            for line in open(out, errors="replace"):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d["t"] == "fail":
                    d["part"] = part["name"]
                    fails.append(d)
                else:
                    sums.append(d)
        except OSError:
            pass
        try:
            b = open(out + ".hash", "rb").read()
            hashes.update(struct.unpack("%dQ" % (len(b) // 8), b))
        except OSError:
            pass
    if only is not None:
        for f in glob.glob(os.path.join(work, "std_%s_*" % part["name"])):
            sys.stdout.write(open(f, errors="replace").read()[-20000:])
    return dict(hashes=hashes, crashes=ncrash, hangs=len(hangs))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--all", action="store_true", help="print every violation, not one per signature")
    a = ap.parse_args()
    if a.prop not in PROPS:
        die("unknown property " + a.prop)
    spec = PROPS[a.prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    replay = None
    if a.replay:
        replay = json.load(open(a.replay))
        seed, tier = replay["seed"], replay["tier"]
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vf_%s_" % a.prop, dir="/tmp")
    os.chmod(work, 0o1777)  # unprivileged workers write their sanitizer reports here
    try:
        tb = build(a.prop, spec, work)
        fails, sums, tally, samples = [], [], {}, []
        distinct, crashes, hangs, cut = 0, 0, 0, False
        rules = []
        for part in spec["parts"]:
            if part.get("tool") or (replay and replay["part"] != part["name"]):
                continue
            n = a.cases or part["cases"][0 if tier == "quick" else 1]
            budget = part.get("budget", (300, 780))[0 if tier == "quick" else 1]
            sums = []
            r = run_part(a.prop, part, work, tier, seed, n, budget, fails, sums, replay["case"] if replay else None)
            distinct += len(r["hashes"])
            crashes += r["crashes"]
            hangs += r["hangs"]
            for s in sums:
                for k, v in s["tally"].items():
                    tally[k] = tally.get(k, 0) + v
                tally["evals"] = tally.get("evals", 0) + s["evals"]
                cut = cut or s["cut"]
                if s["rule"] not in rules:
                    rules.append(s["rule"])
                for x in s["samples"]:
                    if len(samples) < 12:
                        samples.append(x)
        evals = tally.pop("evals", 0)
        # known findings
        known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf))["findings"] if k["property"] == a.prop and k["status"] == "known"]
        bysig = {}
        for f in fails:
            bysig.setdefault(f["sig"], []).append(f)
        nviol = 0
        seen = set()
        if not replay:
            for old in glob.glob(os.path.join(EVID, a.prop + "_replay_*.json")):
                os.unlink(old)
        for sig in sorted(bysig):
            hit = [k for k in known if re.fullmatch(k["sig"], sig)]
            if hit:
                seen.add(hit[0]["id"])
                continue
            f = min(bysig[sig], key=lambda x: x["case"])
            nviol += 1
            if nviol > 40:
                continue
            h = hashlib.sha1(sig.encode()).hexdigest()[:10]
            path = os.path.join(EVID, "%s_replay_%s.json" % (a.prop, h))
            json.dump(dict(property=a.prop, seed=seed, tier=tier, part=f["part"], case=f["case"], kind=f["kind"], sig=sig, desc=f.get("desc", ""),
                           msg=f["msg"], count=len(bysig[sig]), replay="python3 bin/check.py %s --replay %s" % (a.prop, path)),
                      open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            print("  %s (%d times; case %d %s)\n  %s\n  %s" % (sig, len(bysig[sig]), f["case"], f["kind"], f.get("desc", ""),
                                                          f["msg"][:1500].replace("\n", "\n  ")), flush=True)
        if not replay:
            for k in known:
                if k["id"] in seen:
                    print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, k["id"], k["what"]))
        wall = time.time() - t0
        if not replay:
            cov = dict(evaluations=evals, distinct_nontrivial=distinct, rule=" ".join(rules) or "n/a", samples=samples or ["(none)"],
                       observed=dict(sorted(tally.items())), build_s=round(tb, 1), crashed_workers=crashes, hung_cases=hangs, stopped_by_time_limit=cut,
                       known_findings_seen=sorted(seen))
            ev = dict(property=a.prop, tier=tier, seed=seed, level=spec.get("level", "exploration"), coverage=cov,
                      assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=nviol)
            json.dump(ev, open(os.path.join(EVID, a.prop + ".json"), "w"), indent=1)
            print("%s %s: %d evaluations, %d distinct, build %.1f s, total %.1f s, %d violation signatures%s" % (
                a.prop, tier, evals, distinct, tb, wall, nviol, ", stopped by time limit" if cut else ""))
            if evals == 0 and nviol == 0:
                die("nothing was evaluated")
        sys.exit(1 if nviol else 0)
    finally:
        if COV:
            subprocess.run("cd %s && for f in *.gcda; do gcov -t --json-format $f 2>/dev/null; done > %s" % (work, os.path.join(COV, a.prop + ".json")), shell=True)
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept " + work)


if __name__ == "__main__":
    main()
