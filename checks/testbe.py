"""backend_test (C33)."""
import re
from vlib import build_harness
from filt import J, bk, during, flexml, goodbye, hexs, init, record, run_scripts, scan, search, present


def clip(n, lo=-1, hi=44):
    return max(lo, min(hi, n))


def esn(name):
    """The size in bytes an FF element set asks for; below 0: no such element set."""
    m = re.match(r"FF\s*([+-]?\d*)", name)
    if not m:
        return {"name": name, "size": -1}
    n = int(m.group(1) or 0) if m.group(1) not in ("+", "-") else 0
    if name == "FF":
        n = 1
    return {"name": name, "size": n * 1024 if 0 <= n <= (2**31 - 1) // 1024 else -1}


def marc(v, first={}):
    """The USMARC record, but for the position in it."""
    m = re.match(r"(.{186})test__(\d{9})_(.*)$", v, re.S)
    if not m or not re.match(r"\d{5}", v) or int(v[:5]) != len(v.encode("utf-8", "surrogateescape")):
        return None
    return (int(m.group(2)), m.group(1) + m.group(3))


def post(base):
    def go(e):
        r = e.get("r")
        if not isinstance(r, dict):
            return
        if r["t"] == "search":
            r["se"], r["me"] = esn(r["sesn"]), esn(r["mesn"])
            for k in ("ssub", "lslb", "mspn"):
                r[k] = clip(r[k], -5, 1000)
        elif r["t"] == "present":
            r["at"], r["many"], r["ee"] = clip(r["start"]), clip(r["num"]), esn(r["esn"])
            r["start"], r["num"] = 0, 0
        for x in r.get("recs", []):
            m = marc(x["v"])
            if m:
                base.setdefault("marc", m[1])
                x["v"], x["n"] = ("marc", m[0]) if m[1] == base["marc"] else (x["v"], -1)
            elif re.match(r"<a>a*</a>$", x["v"]) or x["v"] == "<a>aaa</a>":
                x["v"], x["n"] = "xml", len(x["v"])
            else:
                x["n"] = -1
    return go


HEAD = "config " + hexs(flexml({"start": ['<filter type="backend_test"/>', bk("main")]}))
PLAIN = {"t": "init", "opts": ["search", "present"]}
# the histories of known-findings.json, which has their numbers
KNOWN = [
    [("1", PLAIN), ("2", {"t": "init", "opts": ["search", "present", "named"]}), ("1", {"t": "search", "dbs": ["D"], "set": "A", "q": "a"})],
    [("1", PLAIN), ("1", {"t": "present", "set": "default", "start": 1, "num": -1})],
    [("1", PLAIN), ("1", {"t": "present", "set": "default", "start": 2**31 - 1, "num": 2})],
    [("1", PLAIN), ("1", {"t": "present", "set": "default", "start": 2**32 + 1, "num": 1})],
    [("1", PLAIN), ("1", {"t": "search", "dbs": ["D"], "set": "default", "q": "a", "ssub": 0, "lslb": 100, "mspn": -1})],
    [("1", PLAIN), ("1", {"t": "present", "set": "default", "start": 1, "num": 1, "syn": "xml", "esn": "FF-1"})],
    [("1", PLAIN), ("1", {"t": "present", "set": "default", "start": 1, "num": 1, "syn": "xml", "esn": "FF2097152"})],
    [("1", PLAIN), ("1", {"t": "search", "dbs": ["D"], "set": "default", "q": "a", "ssub": 5, "lslb": 100, "mspn": 2, "syn": "usmarc", "sesn": "zz", "mesn": "F"})],
]


def backend_test(ctx):
    ctx.model_check("TestMC", ctx.pick("TestMC", "TestMCT"))
    r = ctx.rng
    scripts = []
    # what known-findings.json lists is left to the scripts in KNOWN: numbers
    # that are negative or beyond 32 bits, where these count records, sizes of
    # records out of range, sessions that differ in naming result sets, and
    # different element sets for small and medium sets of that few records
    far = [2**31, 2**32 + 1, 2**40, 2**63 - 1]
    big = [2**31 - 1000, 1000000]

    def number():
        return r.choice([0, 1, 1, 2, 3, 5, 10, 20, 21, 22, 41, 42, 43, 44, r.randint(0, 44), r.choice(big)])

    def first():
        return r.choice([number(), number(), number(), number(), -1, -2, -1000000])

    def near(start):
        return max(0, r.choice([43 - start, 42 - start, 44 - start])) if abs(start) < 50 else r.choice([0, 1, 5, 44])
    es = ["", "B", "F", "b", "BF", "FF", "FF0", "FF1", "FF2", "FF1x", "FFx", "FF 1", "f", "Fx"]

    named = [True]

    def opts():
        return ["search", "present"] + (["named"] if named[0] else []) + r.choice([[], ["scan"], ["scan", "delSet", "sort"]])

    def rq(s):
        x = r.random()
        syn = {"syn": r.choice(["usmarc", "usmarc", "xml", "xml", "SUTRS", "OPAC"])} if r.random() < .8 else {}
        ref = {"ref": "r%d" % r.randint(1, 9)} if r.random() < .3 else {}
        if x < .06:
            return init(r, opts=opts(), **ref)
        if x < .5:
            q = search(r, ["D"], sets=("default", "default", "A", "Default", ""), **syn)
            y = r.random()
            if y < .6:
                q.update(ssub=r.choice([0, 1, 41, 42, 43, r.choice(far), -1]), lslb=r.choice([0, 1, 41, 42, 43, 100, -1, r.choice(far)]), mspn=r.choice([0, 1, 2, 5, 41, 42, 43, 100, r.choice(big)]))
                if y < .3:
                    q.update(ssub=r.choice([0, 1, 10, 41]), lslb=r.choice([43, 100]))
            if r.random() < .7:
                q.update(sesn=r.choice(es), mesn=r.choice(es))
            if q.get("ssub", 0) < 42 and 0 < q.get("mspn", 0) <= q.get("ssub", 0):
                q.update(mesn=q.get("sesn", ""), sesn=q.get("sesn", ""))
            return q
        if x < .9:
            st = first()
            q = present(r, sets=("default", "A", "B"), start=st, num=r.choice([number(), near(st)]) if st < 1000 else near(st), **syn)
            if r.random() < .6:
                q["esn"] = r.choice(es)
            if r.random() < .08:
                q["comp"] = "complex"
            return q
        return r.choice([dict({"t": "close"}, **ref), {"t": "http", "path": "/"}, scan(r, ["D"], **ref), {"t": "delete", "sets": ["A"]}, {"t": "trigger"}, {"t": "none"}])
    for _ in range(ctx.pick(2500, 25000)):
        s = ["config " + hexs(flexml({"start": ['<filter type="backend_test"/>', bk("main")]})), 'bk main {}']
        named[0] = r.random() < .6
        for c in "123":
            if r.random() < .85:
                s.append("req %s %s" % (c, J(init(r, opts=opts(), **({"pms": r.choice([1, 1000, 50000]), "mrs": r.choice([1, 70000])} if r.random() < .5 else {})))))
        for _ in range(r.randint(2, 14)):
            s.append("req %s %s" % (r.choice("1123"), J(rq(s))) if r.random() < .97 else "drop " + r.choice("123"))
        goodbye(r, s, "123", .7)
        scripts.append(s)
    base = {}
    exe = build_harness("h_filter", "asan", need=["filter_backend_test.cpp", "util.cpp"])

    def known(i):    # alone, as they may crash
        t = record(ctx, exe, [[HEAD, "bk main {}"] + ["req %s %s" % (c, J(q)) for c, q in KNOWN[i]]], 300, post(base))[0]
        t["name"] = "known-%d" % i
        return t
    ctx.validate("TestTrace", [known(i) for i in range(len(KNOWN))], confirm=lambda t: known(int(t["name"][6:])))
    run_scripts(ctx, "TestTrace", scripts, parallel=.4, post=post(base), need=["filter_backend_test.cpp", "util.cpp"])
