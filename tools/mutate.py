#!/usr/bin/env python3
"""Mutation campaign: how many small faults of the original lines the checks notice.

usage: mutate.py COVDIR OUT.jsonl NWORKERS FILE[:first-last] ...   (COVDIR as left by coverage.py)
Each mutant is tried in a private copy of the sources with the checks that execute the mutated line; survivors are read by hand.
"""
import collections, hashlib, json, os, random, re, shutil, subprocess, sys, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from props import PROPS
covd, out, nw = sys.argv[1], sys.argv[2], int(sys.argv[3])
MAXPROPS = int(os.environ.get("MUT_MAXPROPS", 5))
PERLINE = int(os.environ.get("MUT_PERLINE", 2))
SEED = int(os.environ.get("MUT_SEED", 1))
LIMIT = int(os.environ.get("MUT_LIMIT", 100000))
R = "/repo"
OPS = [(r" < ", " <= "), (r" < ", " > "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" \+ 1\b", " + 2"), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"([=(,] ?)0\b(?![.x])", r"\g<1>1"), (r"([=(,] ?)1\b(?![.x])", r"\g<1>0"),
       (r"\bcontinue;", "break;"), (r"\bif \(", "if (!"), (r" \+= ", " = "), (r" -= ", " += "),
       (r"\brows\b", "cols"), (r"\bcols\b", "rows"), (r"\brow\b", "col"), (r"\bcol\b", "row"), (r"_XLL\b", "_YLL"), (r"_YLL\b", "_XLL"),
       (r"\bilyr\b", "0"), (r"\bn_lyrs_", "1"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bfloor\b", "ceil"), (r"\bceil\b", "floor"),
       (r"\bn_cells_\b", "n_lyrs_"), (r"\bsrows\b", "scols"), (r"CVT_INT\(", "("), (r"break;", ";"), (r"!(\w)", r"\1"), (r"([a-z_]\.)empty\(\)", r"\1size() < 2"), (r"no_data_value_", "default_value_"), (r"\breturn ([a-z]\w*);", None)]


def targets():
    ex = collections.defaultdict(dict)
    for f, n, p in json.load(open(covd + "/lines.out")):
        if p:
            ex[f][n] = p
    for spec in sys.argv[4:]:
        f, _, rng = spec.partition(":")
        lo, hi = map(int, rng.split("-")) if rng else (1, 10 ** 9)
        bl = subprocess.check_output(["git", "-C", R, "blame", "-s", f], text=True, errors="replace").splitlines()
        L = open(R + "/" + f, errors="replace").read().splitlines()
        for n, (b, l) in enumerate(zip(bl, L), 1):
            if not lo <= n <= hi or not b.lstrip("^").startswith("2caedbe"[:7]) or n not in ex[R + "/" + f]:
                continue
            c = l.split("//")[0]
            if "cout" in c or "cerr" in c or "StatusMessage" in c or c.strip().startswith(("#", "*", "/*")):
                continue
            c0 = re.sub(r'"[^"]*"', lambda m: "\x01" * len(m.group(0)), c)
            m = []
            for o, r in OPS:
                if r is None:
                    continue
                for h in list(re.finditer(o, c0))[:2]:
                    if h.group(0) == "if (" or o.startswith(r"\bif"):
                        # negate a whole one-line condition
                        d, k = 0, h.end() - 1
                        while k < len(c0):
                            d += (c0[k] == "(") - (c0[k] == ")")
                            if d == 0:
                                break
                            k += 1
                        if k >= len(c0):
                            continue
                        m.append(c[:h.start()] + "if (!" + c[h.end() - 1:k + 1] + ")" + c[k + 1:])
                        m.append(c[:h.start()] + "if (false && " + c[h.end() - 1:k + 1] + ")" + c[k + 1:])
                        continue
                    m.append(c[:h.start()] + h.expand(r) + c[h.end():])
            if re.match(r"^\s+[\w:>.\-\[\]()*]+(\(.*\)|\s*[-+*/]?= .*);\s*$", c) and "return" not in c:
                m.append(re.match(r"^\s*", c).group(0) + ";")
            m = [x for x in dict.fromkeys(m) if x != c]
            rnd = random.Random("%d:%s:%d" % (SEED, f, n))
            rnd.shuffle(m)
            for x in m[:PERLINE]:
                yield f, n, l, x, ex[R + "/" + f][n]


done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l)
        done.add((d["file"], d["line"], d["new"]))
T = [t for t in targets() if (t[0], t[1], t[3]) not in done]
random.Random(SEED).shuffle(T)
T = T[:LIMIT]
print(len(T), "mutants", flush=True)
q = queue.Queue()
for t in T:
    q.put(t)
lock = threading.Lock()
kills = collections.Counter()
cache = os.environ.get("VF_OBJCACHE", "/tmp/w/objcache")
os.makedirs(cache, exist_ok=True)
F = open(out, "a")


def work(k):
    d = "/tmp/w/mut%d" % k
    subprocess.run(["rm", "-rf", d])
    os.makedirs(d + "/repo")
    for x in ("src", "apps"):
        shutil.copytree(R + "/" + x, d + "/repo/" + x)
    os.makedirs(d + "/verif")
    for x in ("bin", "harness"):
        shutil.copytree(V + "/" + x, d + "/verif/" + x)
    shutil.copy(V + "/known_findings.json", d + "/verif/")
    while True:
        try:
            f, n, old, new, pr = q.get_nowait()
        except queue.Empty:
            return
        p = d + "/repo/" + f
        L = open(R + "/" + f, errors="replace").read().split("\n")
        assert L[n - 1] == old
        L[n - 1] = new
        open(p, "w").write("\n".join(L))
        tot = {x: c for x, c in pr.items()}
        # most executed first, but checks that killed in this file's neighbourhood earlier come first
        order = sorted(tot, key=lambda x: -(kills[(f, n // 40, x)] * 1e9 + tot[x] ** 0.25 * {"C14": 0.2, "C13": 0.5, "C17": 0.6, "C16": 0.8, "C15": 0.6}.get(x, 1)))[:MAXPROPS]
        res, tried = "survived", []
        t0 = time.time()
        for x in order:
            part = PROPS[x]["parts"][0]
            h = int(hashlib.sha1((f + str(n) + new).encode()).hexdigest(), 16)
            env = dict(os.environ, VF_REPO=d + "/repo", VF_NCPU="2", VF_PAIRS="%d,%d" % (h % 4, 4 + h // 4 % 6), VF_OBJCACHE=cache, VERIF_SEED=str(1 + h % 3))
            try:
                r = subprocess.run([sys.executable, d + "/verif/bin/check.py", x, "--cases", str(max(300, part["cases"][0] // 3))], env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
                rc, o = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, o = 1, "timeout"
            tried.append((x, rc))
            if rc == 1:
                m = re.search(r"^  (\S+) \(", o, re.M)
                res = "killed"
                tried[-1] = (x, rc, m.group(1) if m else "?")
                kills[(f, n // 40, x)] += 1
                break
            if rc == 2:
                res = "invalid" if "compilation failed" in o or "link failed" in o else "error"
                tried[-1] = (x, rc, o[-300:] if res == "error" else "")
                break
        with lock:
            F.write(json.dumps(dict(file=f, line=n, old=old.strip(), new=new, res=res, tried=tried, s=round(time.time() - t0), cover=sorted(pr))) + "\n")
            F.flush()
        shutil.copy(R + "/" + f, p)


th = [threading.Thread(target=work, args=(k,)) for k in range(nw)]
[t.start() for t in th]
[t.join() for t in th]
for k in range(nw):
    subprocess.run(["rm", "-rf", "/tmp/w/mut%d" % k])
