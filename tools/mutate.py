#!/usr/bin/env python3
"""Mutation sweep (not a check; used while strengthening the checks).

mutate.py OUT WORKERS PER_FILE SEED FILE=CHECK[,CHECK..] ...
Makes small changes to copies of the repository's sources, one at a time, and
runs the named checks (recording and validation only) against each copy."""
import sys, os, re, random, shutil, subprocess, json, threading, queue
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")
out, workers, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
todo = [(a.split("=")[0], a.split("=")[1].split(",")) for a in sys.argv[5:]]
SWAPS = [("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("<=", "<"), (">=", ">"),
         (" < ", " <= "), (" > ", " >= "), ("++", "--"), (" + 1", ""), (" - 1", ""), ("+ 1", "+ 2"),
         ("true", "false"), ("false", "true"), (" + ", " - "), (" - ", " + "), (" += ", " = "),
         ("= 0;", "= 1;"), ("== 0", "== 1"), ("(0)", "(1)"), ("begin()", "end()"), ("!", "")]
def mutants(path):
    src = open(path).read().split("\n")
    res, comment = [], False
    for i, l in enumerate(src):
        s = l.strip()
        if s.startswith("/*"): comment = True
        if comment or s.startswith(("//", "#", "namespace", "using")) or not s:
            if "*/" in s: comment = False
            continue
        if i < 18: continue
        for a, b in SWAPS:
            for m in re.finditer(re.escape(a), l):
                res.append((i, l[:m.start()] + b + l[m.end():], a + "->" + b))
        if s.endswith(";") and not s.startswith(("return", "}", "class", "struct")):
            ind = l[:len(l) - len(l.lstrip())]
            res.append((i, ind + ";", "delete"))
        if s.startswith("return") and s != "return;":
            pass
        m = re.match(r"^(\s*(?:else )?)(if|while) \((.*)\)(\s*\{?)$", l)
        if m:
            res.append((i, "%s%s (!(%s))%s" % m.groups(), "negate"))
        if s in ("else", "} else {"):
            res.append((i, l.replace("else", ";if (true)"), "else"))
        for m in re.finditer(r"\b(\d+)\b", l):
            res.append((i, l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():], "num+1"))
    return src, res
work = queue.Queue()
rng = random.Random(seed)
items = []
for f, checks in todo:
    src, ms = mutants(REPO + "/src/" + f)
    seen, u = set(), []
    for m in ms:
        if (m[0], m[1]) not in seen:
            seen.add((m[0], m[1])); u.append(m)
    rng.shuffle(u)
    items += [(f, checks, src, m) for m in u[:per]]
rng.shuffle(items)
for it in items: work.put(it)
lock = threading.Lock()
def worker(k):
    d = "/tmp/mut/w%d" % k
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", REPO, d + "/repo"])
    subprocess.run(["rsync" if False else "cp", "-a", VERIF, d + "/verif"])
    env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick")
    nomc = ("import sys; sys.path[:0]=['%s/verif/tools','%s/verif/checks']\n"
            "import vlib; vlib.Ctx.model_check=lambda *a,**k:None\n"
            "sys.argv=['%s/verif/checks/run.py']+sys.argv[1:]\n__file__=sys.argv[0]\n"
            "exec(open(__file__).read())" % (d, d, d))
    n = 0
    while True:
        try: f, checks, src, (i, new, kind) = work.get_nowait()
        except queue.Empty: break
        n += 1
        if n % 25 == 0:
            subprocess.run("find %s/verif/build -name '*.a' -mmin +3 -delete; find %s/verif/build/bin -mmin +3 -type f -delete; find %s/verif/build/obj -mmin +3 -newer %s/repo/README.md -name '*.o' -mmin -0 -delete" % (d, d, d, d), shell=True)
        p = d + "/repo/src/" + f
        orig = "\n".join(src)
        m = list(src); m[i] = new
        open(p, "w").write("\n".join(m))
        r = "survived"
        for c in checks:
            try:
                q = subprocess.run(["python3", "-c", nomc, c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=400)
            except subprocess.TimeoutExpired:
                r = "timeout " + c; continue
            if q.returncode == 1: r = "killed " + c; break
            if q.returncode != 0:
                if re.search(r"error:|BuildError|undefined reference", q.stdout): r = "nobuild"; break
                r = "error " + c + " " + q.stdout[-300:].replace("\n", " "); break
        open(p, "w").write(orig)
        with lock:
            open(out, "a").write(json.dumps(dict(file=f, line=i + 1, kind=kind, old=src[i].strip(), new=new.strip(), r=r)) + "\n")
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(workers)]
for t in ts: t.start()
for t in ts: t.join()
