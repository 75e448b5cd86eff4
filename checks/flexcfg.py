"""FleXML configurations: generation, loading, life of filters."""
import json
from vlib import CheckError, build_harness
from core import parse_traces, crashed, NS, hexs


def E(n, a=(), c=(), ns=True, mk=0):
    return {"n": n, "ns": ns, "a": [list(x) for x in a], "c": list(c), "mk": mk}


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")


def xml(e, rng, ns=True, top=True):
    s = "<" + e["n"]
    if top or e["ns"] != ns:
        s += ' xmlns="%s"' % (NS if e["ns"] else "http://other.example/")
    for n, v in e["a"]:
        s += ' %s="%s"' % (n, esc(v))
    s += ">"
    for k in e["c"]:
        s += rng.choice(["", "", "\n", "<!-- c -->", " text ", "<?pi x?>"]) + xml(k, rng, e["ns"], False)
    return s + rng.choice(["", "\n", "<!-- e -->"]) + "</%s>" % e["n"]


class Gen:
    def __init__(self, rng, faults=True):
        self.r, self.faults = rng, faults
        self.mk = 0

    def marker(self):
        self.mk += 1
        return self.mk

    def flt(self, attrs, routes):
        mk = self.marker()
        c = [E("m", [("v", str(mk))])]
        if self.r.random() < .3:
            k = self.r.choice(["route", "target", "virtual"])
            at = [("route", self.r.choice(routes))] if self.r.random() < .7 else [("x", "nosuch")]
            sub = []
            if self.r.random() < .3:      # deeper down nothing is checked
                sub = [E("z", [("route", "nosuch")])]
            c.append(E(k, at, sub, ns=self.r.random() < .8))
        self.r.shuffle(c)
        # the marker child must be found whatever its place
        return E("filter", attrs, c, mk=mk)

    def doc(self):
        r = self.r
        names = r.sample(["start", "a", "b", "st", "z9", "start2"], r.randint(1, 4))
        start = r.choice(names)
        ids = r.sample(["f1", "f2", "f3", "", "f10"], r.randint(0, 4))
        top = []
        if r.random() < .15:
            top.append(E("dlpath"))
        at = [("route", start)]
        if start == "start" and r.random() < .4:
            at = []
        if r.random() < .1:
            at.append(("base", "x"))
        top.append(E("start", at))
        if ids or r.random() < .5:
            fs = []
            for i in ids:
                a = [("id", i), ("type", r.choice(["ta", "tb"]))]
                if i == "" and r.random() < .5:
                    a = a[1:]
                if r.random() < .1:
                    a.append(("base", "q"))
                r.shuffle(a)
                fs.append(self.flt(a, names))
            top.append(E("filters", (), fs))
        rts = []

        def body(depth=0):
            out = []
            for _ in range(r.randint(0, 4)):
                x = r.random()
                refs = [i for i in ids if i]
                if x < .5 and refs:
                    a = [("refid", r.choice(refs))]
                    if r.random() < .2:
                        a.append(("type", r.choice(["ta", "zz", ""])))
                    out.append(E("filter", a, mk=0))
                elif x < .75:
                    out.append(self.flt([("type", r.choice(["ta", "tb"]))], names))
                elif x < .87 and depth < 3:
                    out.append(E("filters", [("k", "v")] if r.random() < .3 else [], body(depth + 1)))
                elif x < .96:
                    out.append(E("filter", r.choice([[], [], [("base", "b")], [("refid", "")]])))
            return out
        for n in names:
            a = [("id", n)]
            if r.random() < .1:
                a.append(("base", "z"))
            rts.append(E("route", a, body()))
        r.shuffle(rts)
        top.append(E("routes", [("x", "y")] if r.random() < .1 else (), rts))
        root = E("metaproxy", [("version", "1.0")], top)
        if self.faults:
            for _ in range(r.choice([0, 1, 1, 1, 2])):
                self.fault(root)
        return root

    def all(self, e, out=None, parent=None):
        out = [] if out is None else out
        out.append((e, parent))
        for c in e["c"]:
            self.all(c, out, e)
        return out

    def fault(self, root):
        """one change somewhere; it may or may not make the document invalid"""
        r = self.r
        al = self.all(root)
        e, parent = r.choice(al)
        if e["n"] == "m":
            return
        k = r.randrange(12)
        if k == 0:
            e["ns"] = False
        elif k == 1:
            e["n"] = r.choice(["filter", "filters", "route", "routes", "start", "bogus", "dlpath"])
        elif k == 2 and all(n != "extra" for n, _ in e["a"]):
            e["a"].append(["extra", "1"])
        elif k == 3 and e["a"]:
            r.choice(e["a"])[1] = r.choice(["nosuch", "", "f1", "a", "zz", "ta", "start"])
        elif k == 4 and e["a"]:
            i = r.randrange(len(e["a"]))
            nm = r.choice(["id", "type", "refid", "route", "base", "ID"])
            if all(n != nm for n, _ in e["a"]):
                e["a"][i][0] = nm
        elif k == 5 and e["a"]:
            del e["a"][r.randrange(len(e["a"]))]
        elif k == 6 and parent:
            parent["c"].remove(e)
        elif k == 7 and parent:
            i = parent["c"].index(e)
            cp = json.loads(json.dumps(e))
            parent["c"].insert(r.choice([i, i + 1, len(parent["c"])]), cp)
        elif k == 8 and parent and len(parent["c"]) > 1:
            c = parent["c"]
            i, j = r.randrange(len(c)), r.randrange(len(c))
            c[i], c[j] = c[j], c[i]
        elif k == 9:
            e["c"].insert(r.randint(0, len(e["c"])), E(r.choice(["bogus", "filter", "route", "filters", "start", "routes", "dlpath"]),
                                                      r.choice([(), [("id", "q")], [("type", "ta")], [("refid", "f1")], [("route", "nosuch")]])))
        elif k == 10:
            fs = [x for x, _ in al if x["n"] in ("filter", "route") and x["a"]]
            if len(fs) > 1:
                a, b = r.sample(fs, 2)
                a["a"] = [list(x) for x in b["a"]]
        elif k == 11:
            rs = [x for x, _ in al for n, _v in x["a"] if n == "route"]
            if rs:
                x = r.choice(rs)
                for t in x["a"]:
                    if t[0] == "route":
                        t[1] = r.choice(["nosuch", "a", "start", ""])


def systematic():
    """where a filter may be: a bad route reference, an unknown refid, type or
    attribute at every place of every small shape of a route and of filters"""
    plain = [lambda: E("filter"), lambda: E("filter", [("refid", "f1")]), lambda: E("filter", [("type", "ta")]),
             lambda: E("filter", [("base", "u")]), lambda: E("filters"), lambda: E("filters", (), [E("filter", [("type", "tb")])])]
    bad = [lambda: E("filter", [("type", "ta")], [E("target", [("route", "nosuch")])]),
           lambda: E("filter", [("type", "ta")], [E("k"), E("target", [("x", "y"), ("route", "nosuch")], ns=False)]),
           lambda: E("filter", [("type", "ta")], [E("target", [("route", "b")]), E("target", [("route", "nosuch")])]),
           lambda: E("filter", [("type", "ta")], [E("target", [], [E("deep", [("route", "nosuch")])])]),
           lambda: E("filter", [], [E("target", [("route", "nosuch")])]),
           lambda: E("filter", [("refid", "f1")], [E("target", [("route", "nosuch")])]),
           lambda: E("filter", [("refid", "f9")]), lambda: E("filter", [("type", "zz")]),
           lambda: E("filter", [("type", "ta"), ("route", "nosuch")]), lambda: E("bogus"), lambda: E("filter", ns=False)]
    for b in bad:
        for p in plain + [None]:
            for shape in range(8):
                x = b()
                l = [] if p is None else [p()]
                body = (l + [x] if shape < 4 else [x] + l)
                for _ in range(shape % 4):
                    body = [E("filters", (), body)]
                if shape % 2:
                    body.append(E("filter", [("type", "tb")]))
                for where in (0, 1, 2):
                    r0, r1 = [E("filter", [("type", "tb")])], []
                    fs = [E("filter", [("id", "f1"), ("type", "ta")])]
                    if where == 0:
                        r0 = body
                    elif where == 1:
                        r1 = body
                    elif shape > 0 or p is not None:
                        continue
                    else:
                        for a in x["a"]:
                            if a[0] == "refid":
                                a[0] = "id"
                        fs += body
                    yield E("metaproxy", (), [E("start", [("route", "a")]), E("filters", (), fs),
                                              E("routes", (), [E("route", [("id", "a")], json.loads(json.dumps(r0))),
                                                               E("route", [("id", "b")], json.loads(json.dumps(r1)))])])


def fix_markers(e):
    """a filter element's marker is that of its own last <m> child"""
    own = [int(c["a"][0][1]) for c in e["c"] if c["n"] == "m" and c["a"]]
    e["mk"] = own[-1] if own else 0
    for c in e["c"]:
        fix_markers(c)


def remark(e, counter):
    """markers are unique in a document even after duplication; a filter
    element that may be instantiated always has one"""
    if e["n"] == "filter":
        e["c"] = [c for c in e["c"] if c["n"] != "m"]
        counter[0] += 1
        e["c"].insert(0, E("m", [("v", str(counter[0]))]))
        e["mk"] = counter[0]
    else:
        e["mk"] = 0
    for c in e["c"]:
        if c["n"] != "m":
            remark(c, counter)


def script(ctx, root, life):
    r = ctx.rng
    types = "ta,tb"
    path = r.choice(["-", "-", "30", "2f746d702f6e6f73756368"]) if True else "-"
    l = ["load %d %s %s %s %s" % (r.randint(0, 1), path, types, hexs(json.dumps(root)), hexs(xml(root, r)))]
    return l


def run_flex(ctx, n, faults, life):
    exe = build_harness("h_flex", need=["router_flexml.cpp", "router_xml.cpp", "factory_filter.cpp", "xmlutil.cpp"])
    g = Gen(ctx.rng, faults)
    scripts, roots = [], []
    docs = list(systematic()) if faults else []
    ctx.cov["systematic_documents"] = len(docs)
    docs += [g.doc() for _ in range(n)]
    for root in docs:
        remark(root, [0])
        roots.append(root)
        scripts.append(script(ctx, root, life))
    # first pass: which documents load (decides only which operations follow)
    def record(scr):
        rc, out, err = ctx.run(exe, stdin="".join("trace\n" + "".join(x + "\n" for x in s) + "end\n" for s in scr))
        return parse_traces(ctx, rc, out, err)
    tr = record(scripts)
    if len(tr) < len(scripts) and not crashed(tr):
        raise CheckError("harness lost traces")
    ok = 0
    for i, t in enumerate(tr):
        if t["ops"] and t["ops"][0].get("ok"):
            ok += 1
            s = scripts[i]
            names = ["", "nosuch"] + sorted({v for e, _ in g.all(roots[i]) for a, v in e["a"] if a == "id"})
            for nm in names:
                s.append("walk " + hexs(nm))
            if life:
                for _ in range(ctx.rng.randint(0, 3)):
                    s.append(ctx.rng.choice(["start", "start", "stop 15", "stop 10", "stop 2"]))
            s.append("destroy")
    ctx.cov["documents_loaded"] = ok
    ctx.cov["documents_rejected"] = len(tr) - ok
    if life:
        for _ in range(n // 10):
            scripts.append(["chain %d %s" % (ctx.rng.choice([2, 10, 15]),
                            " ".join(str(ctx.rng.randint(1, 4)) for _ in range(ctx.rng.randint(0, 7))))])
    if crashed(tr):
        scripts = scripts[:len(tr)]
    tr = record(scripts)
    for i, t in enumerate(tr):
        t["name"] = "config-%d" % i
    ctx.validate("FlexTrace", tr, confirm=lambda t: record([scripts[int(t["name"].split("-")[1])]])[0])


def config(ctx):
    run_flex(ctx, ctx.pick(6000, 60000), True, False)


def lifecycle(ctx):
    run_flex(ctx, ctx.pick(3000, 30000), False, True)
