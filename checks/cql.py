"""cql_rpn (C39)."""
from filt import J, bk, during, flexml, goodbye, hexs, init, present, run_scripts

CODES = lambda t: [ord(c) for c in t]


def attrs(l):
    return {t: v for t, v in l}


def one(r):
    """A configuration: the file's text, and what it means."""
    idx = {"cql.serverChoice": [("1", "1016")], "dc.title": [("1", "4")], "dc.creator": [("1", "1003")], "dc.date": [("1", "30"), ("4", "5")],
           "dc.id": [("1", "12"), ("2", "3")], "my.thing": [("1", "local")]}
    rel = {"eq": [("2", "3")], "<": [("2", "1")], ">": [("2", "5")], "le": [("2", "2")], "ge": [("2", "4")]}
    idx = {k: v for k, v in idx.items() if k == "dc.title" or r.random() < .75}
    rel = {k: v for k, v in rel.items() if r.random() < .8}
    every = [("4", "1"), ("3", "3"), ("6", "1")]
    t = ["set.cql = info:srw/cql-context-set/1/cql-v1.1", "set.dc = info:srw/cql-context-set/1/dc-v1.1", "set = info:srw/cql-context-set/1/dc-v1.1",
         "set.my = urn:my", "structure.* = 4=1", "position.any = 3=3 6=1"]
    w = lambda l: " ".join("%s=%s" % x for x in l)
    if r.random() < .4:
        every.append(("5", "100")); t.append("always = 5=100")
    mod = {"stem": [("2", "101")]}
    t.append("relationModifier.stem = 2=101")
    t += ["index.%s = %s" % (k, w(v)) for k, v in idx.items()] + ["relation.%s = %s" % (k, w(v)) for k, v in rel.items()]
    return "\n".join(t) + "\n", {"index": {k: attrs(v) for k, v in idx.items()}, "relation": {k: attrs(v) for k, v in rel.items()}, "mod": {k: attrs(v) for k, v in mod.items()},
                                 "every": attrs(every), "sets": ["cql", "dc", "my"],
                                 "back": [{"at": attrs(v), "name": k} for k, v in idx.items()], "rels": {"1": "<", "2": "<=", "3": "=", "4": ">=", "5": ">"}}


WORDS = ["a", "water", "x y", "b2", "and then", "1990", ""]


def query(r, depth=2):
    """-> text, tree"""
    x = r.random()
    if depth and x < .4:
        op = r.choice(["and", "or", "not"])
        (lt, l), (rt, rr) = query(r, depth - 1), query(r, depth - 1)
        paren = lambda t, k: "(" + t + ")" if k["k"] == "op" or r.random() < .1 else t
        return "%s %s %s" % (paren(lt, l), op, paren(rt, rr)), {"k": "op", "op": op, "l": l, "r": rr}
    word = r.choice(WORDS)
    q = '"%s"' % word if " " in word or not word or r.random() < .2 else word
    if x < .45:
        n = r.choice(["A", "s1"])
        return "cql.resultSet=" + n, {"k": "term", "set": "cql", "index": "resultSet", "rel": "eq", "shown": "=", "mod": "", "codes": CODES(n), "text": n}
    o = {"k": "term", "set": "cql", "index": "serverChoice", "rel": "eq", "shown": "=", "mod": "", "codes": CODES(word), "text": word}
    if x < .6:
        return q, o
    s, i = r.choice([("dc", "title"), ("dc", "title"), ("dc", "creator"), ("dc", "date"), ("dc", "id"), ("my", "thing"), ("dc", "foo"), ("my", "x"), ("bath", "title"), ("cql", "serverChoice")])
    rl = r.choice(["=", "=", "=", "<", ">", "<=", ">=", "<>", "any"])
    o.update(set=s, index=i, rel={"=": "eq", "<=": "le", ">=": "ge"}.get(rl, rl), shown=rl)
    m = ""
    if rl == "=" and r.random() < .15:
        o["mod"], m = "stem", "/stem"
    name = i if s == "dc" and r.random() < .6 else s + "." + i
    return "%s %s%s %s" % (name, rl, m, q), o


def rpn(r, depth=2):
    x = r.random()
    if depth and x < .4:
        return "@%s %s %s" % (r.choice(["and", "or", "not"]), rpn(r, depth - 1), rpn(r, depth - 1))
    if x < .45:
        return "@set A"
    a = ""
    if r.random() < .8:
        a += "@attr 1=%s " % r.choice(["4", "4", "1003", "30", "12", "99", "1016"])
    if r.random() < .5:
        a += "@attr 2=%s " % r.choice(["3", "3", "1", "5", "2", "4"])
    if r.random() < .2:
        a += "@attr 5=%s " % r.choice(["1", "100", "2", "3"])
    return a + '"%s"' % r.choice([w for w in WORDS if "then" not in w])


def post(e):
    def fix(t):
        if t["k"] == "op":
            fix(t["l"]); fix(t["r"])
        elif t["k"] == "apt":
            a = t.pop("a")
            t["at"] = {str(x[1]): x[2] for x in a}
            t["text"] = "".join(map(chr, t["term"]))
    if "r" in e and e["r"]["t"] == "search":
        r = e["r"]
        fix(r["tree"])
        r["qk"] = "cql" if r["q"].startswith("CQL ") else "rpn" if r["tree"]["k"] != "noRPN" else "other"
        r.pop("sz", 0)


def cql_rpn(ctx):
    ctx.model_check("CqlMC", ctx.pick("CqlMC", "CqlMCT"))
    r = ctx.rng
    scripts, files = [], []
    for i in range(60):
        t, p = one(r)
        f = ctx.path("cql%d.properties" % i)
        with open(f, "w") as o:
            o.write(t)
        files.append((f, p))
    for _ in range(ctx.pick(2500, 30000)):
        f, p = r.choice(files)
        p = dict(p, cql={}, reverse=r.random() < .4, ok=True)
        rev = ' reverse="%s"' % r.choice(["1", "true"]) if p["reverse"] else r.choice(["", ' reverse="0"', ' reverse="false"'])
        conv = '<conversion file="%s"%s/>' % (f, rev)
        x = r.random()
        if x < .03:
            p["ok"] = False
            conv = r.choice(["", "<conversion/>", '<conversion file="%s.no"/>' % f, '<conversion file="%s" x="1"/>' % f, '<other/>' + conv])
        s = ["trees 1", "config " + hexs(flexml({"start": ['<filter type="cql_rpn">%s</filter>' % conv, bk("main")]}))]
        body = []
        def rq():
            z = r.random()
            q = {"t": "search", "dbs": [r.choice(["A", "B"])], "ref": r.choice(["", "r1", "r2"]), "set": r.choice(["default", "S"])}
            if z < .15:
                return r.choice([init(r), present(r), {"t": "scan", "dbs": ["A"], "q": "@attr 1=4 a"}, {"t": "http", "path": "/?query=a"}, {"t": "delete", "sets": ["A"]}])
            if z < (.3 if p["reverse"] else .85):
                if r.random() < .07:
                    t, tree = r.choice(["a and", "(", "title = ", "a b) c", ""]), {"k": "bad"}
                else:
                    t, tree = query(r)
                p["cql"]["CQL " + t] = tree
                return dict(q, cql=t)
            return dict(q, q=rpn(r))
        if p["ok"]:
            for _ in range(r.choice([0, 0, 0, 2])):
                body.append("push main " + J(during(r, "12", rq, .3)))
            body += ["req %s %s" % (r.choice("12"), J(rq())) for _ in range(r.randint(1, 7))]
        s += ["params " + J(p)]
        s += ["live 0"] + body
        goodbye(r, s, "12", 1)
        s.append("live 1")
        scripts.append(s)
    run_scripts(ctx, "CqlTrace", scripts, parallel=.4, post=post, need=["filter_cql_rpn.cpp", "package.cpp"])
