"""Filters, driven through whole configurations with scripted back ends
(harness/h_filter.cpp); what clients and back ends saw is validated by TLC."""
import json
from vlib import CheckError, build_harness
from core import parse_traces, crashed, NS, hexs

J = lambda x: json.dumps(x, separators=(",", ":"))
XE = lambda s: s.replace("&", "&amp;").replace("<", "&lt;")


def flexml(routes, start="start"):
    """routes: {name: [filter xml, ...]}"""
    return '<metaproxy xmlns="%s" version="1.0"><start route="%s"/><routes>%s</routes></metaproxy>' % (
        NS, start, "".join('<route id="%s">%s</route>' % (n, "".join(f)) for n, f in routes.items()))


def bk(name):
    return '<filter type="bk"><name>%s</name></filter>' % name


def record(ctx, exe, scr, timeout=300, post=None):
    text = "".join(("" if s and s[0].startswith("trace ") else "trace\n") + "".join(x + "\n" for x in s) + "end\n" for s in scr)
    rc, out, err = ctx.run(exe, stdin=text, timeout=timeout)
    tr = parse_traces(ctx, rc, out, err)
    if post:
        for t in tr:
            for e in t["ops"]:
                post(e)
    return tr


def owner(e):
    return e["s"] if e["op"] in ("creq", "cresp", "threw") else e.get("o")


def split(t):
    """The part of a history with concurrent clients each session took part in."""
    ss = sorted({e["s"] for e in t["ops"] if e["op"] == "creq"})
    return [dict(t, ops=[e for e in t["ops"] if owner(e) in (None, k)]) for k in ss] or [t]


def run_scripts(ctx, module, scripts, harness="h_filter", variant="asan", need=(), what="script", timeout=300, chunk=20000, post=None, parallel=0, apart=False, **kw):
    exe = build_harness(harness, variant, need=list(need))
    scripts = [par(ctx.rng, s) if ctx.rng.random() < parallel else s for s in scripts]
    tr = record(ctx, exe, scripts, timeout, post)
    if len(tr) < len(scripts) and not crashed(tr):
        raise CheckError("harness lost traces")

    def parts(i, t):
        ps = split(t) if apart and scripts[i][0].startswith("trace ") else [t]
        for k, x in enumerate(ps):
            x["name"] = "%s-%d-%d" % (what, i, k)
        return ps
    tr = [x for i, t in enumerate(tr) for x in parts(i, t)]

    def again(t):
        i, k = map(int, t["name"].split("-")[-2:])
        # what is done once in a process is done before
        warm = scripts[:1] if i and scripts[i][0].startswith("trace ") else []
        ps = parts(i, record(ctx, exe, warm + [scripts[i]], timeout, post)[-1])
        return ps[min(k, len(ps) - 1)]
    ctx.sample(tr[0])
    return ctx.validate(module, tr, chunk=chunk,
                        confirm=again, **kw)


def par(r, s):
    """The script with its requests made by concurrent clients, in a schedule
    of the scheduler's."""
    out, run = ["trace %d %d" % (r.randrange(1 << 30), r.choice([0, 1, 1, 2]))], []

    def flush():
        if run:
            out.append("par")
            out.extend(run)
            out.append("join")
            run.clear()
    for x in s:
        if x.startswith(("req ", "drop ")):
            run.append(x)
            if r.random() < .12:
                flush()
        elif x.startswith(("push ", "bk ")):
            out.append(x)
        else:
            flush()
            out.append(x)
    flush()
    return out


# ------------------------------------------------------------------ requests
QS = ["a", "@and a b", "@attr 1=4 water", "@or x @not y z"]


def init(r, **kw):
    d = {"t": "init", "opts": r.choice([["search", "present", "named", "scan"], ["search", "present"],
                                        ["search", "present", "scan", "delSet", "sort", "named"]])}
    if r.random() < .3:
        d.update({"auth": "idpass", "user": r.choice("uv"), "pass": "p"})
    elif r.random() < .2:
        d.update({"auth": "open", "open": r.choice(["u/p", "v/q"])})
    d.update(kw)
    return d


def search(r, dbs, sets=("default", "A", "B"), **kw):
    d = {"t": "search", "dbs": dbs, "set": r.choice(sets), "q": r.choice(QS), "rep": r.random() < .8}
    x = r.random()
    if x < .3:
        d.update(ssub=r.choice([1, 5, 100]), lslb=r.choice([1, 6, 101]), mspn=r.choice([0, 1, 3]))
    if r.random() < .2:
        d["syn"] = r.choice(["usmarc", "xml", "SUTRS"])
    if r.random() < .2:
        d["sesn"] = "B"
        d["mesn"] = "F"
    if r.random() < .3:
        d["ref"] = "r%d" % r.randint(1, 9)
    d.update(kw)
    return d


def present(r, sets=("default", "A", "B"), **kw):
    d = {"t": "present", "set": r.choice(sets), "start": r.choice([1, 1, 2, 3, 9, 11]), "num": r.choice([1, 1, 2, 5, 0])}
    if r.random() < .3:
        d["syn"] = r.choice(["usmarc", "xml"])
    if r.random() < .3:
        d["esn"] = r.choice(["B", "F"])
    if r.random() < .3:
        d["ref"] = "r%d" % r.randint(1, 9)
    d.update(kw)
    return d


def scan(r, dbs, **kw):
    d = {"t": "scan", "dbs": dbs, "q": r.choice(["a", "@attr 1=4 w"]), "num": r.choice([1, 5, 10]), "pos": r.choice([1, 1, 2, -1])}
    if r.random() < .3:
        d["ref"] = "s%d" % r.randint(1, 9)
    d.update(kw)
    return d


def directive(r, p=.25):
    """what a back end does with one request"""
    if r.random() > p:
        return r.choice([{"act": "ok"}, {"act": "ok", "hits": r.randint(0, 12)}, {"act": "ok", "give": r.randint(0, 3)}])
    return r.choice([{"act": "diag", "code": r.choice([1, 2, 109]), "add": "no"}, {"act": "close"}, {"act": "drop"}, {"act": "none"},
                     {"act": "diag", "code": 114, "add": "x", "close": True}, {"act": "ok", "thenclose": True},
                     {"act": "raw", "resp": {"t": "presentr"}}, {"act": "raw", "resp": {"t": "searchr", "hits": 3}}])


# ------------------------------------------------------------------ virt_db
def virt_db(ctx):
    ctx.model_check("VirtMC", ctx.pick("VirtMC", "VirtMCT"))
    r = ctx.rng
    scripts = []
    pool = ["db1", "Db2", "combined", "x", "db3", "a+b", "", "default", "DB1"]
    for _ in range(ctx.pick(2500, 25000)):
        maps, xmlm = [], ""
        for _ in range(r.randint(1, 5)):
            pat = r.choice(["db1", "db2", "combined", "db?", "*", "x*", "D*3", "", "*b*", "db3"])
            ts = []
            for _ in range(r.choice([1, 1, 1, 2, 3, 0])):
                host, dbs = r.choice(["localhost:9999", "h.example", "tcp:z:210", "unix:/tmp/s"]), r.choice([[], ["D"], ["D", "E"], ["gils"]])
                if host.startswith("unix"):
                    dbs = []
                ts.append({"s": host + ("/" + "+".join(dbs) if dbs else ""), "dbs": dbs})
            route = r.choice(["main", "main", "r1", "r2"])
            maps.append({"pat": [ord(c) for c in pat], "targets": ts, "route": route})
            xmlm += "<virtual%s><database>%s</database>%s</virtual>" % (
                "" if route == "main" else ' route="%s"' % route, pat, "".join("<target>%s</target>" % t["s"] for t in ts))
        pv = r.random() < .3
        f = '<filter type="virt_db">%s%s</filter>' % ("<pass-vhosts>true</pass-vhosts>" if pv else "", xmlm)
        s = ["config " + hexs(flexml({"start": [f, bk("main")], "r1": [bk("r1")], "r2": [bk("r2")]})),
             "params " + J({"maps": maps, "pass": pv, "names": {d: [ord(c) for c in d] for d in pool}})]
        for b in ("main", "r1", "r2"):
            o = {"hits": r.choice([0, 3, 10])}
            if r.random() < .5:
                o["opts"] = r.choice([["search", "present"], ["search", "present", "scan"], ["search", "present", "named"]])
            s.append("bk %s %s" % (b, J(o)))
            if r.random() < .7:
                for _ in range(r.randint(0, 12)):
                    s.append("push %s %s" % (b, J(directive(r, r.choice([0, .1, .4])))))
        fav = r.sample(pool, 2)
        for _ in range(r.randint(2, 16)):
            c = r.choice("123") if r.random() < .5 else "1"
            x = r.random()
            dbs = [r.choice(fav)] if r.random() < .7 else [r.choice(pool) for _ in range(r.randint(1, 3))]
            if x < .25 or len(s) < 8:
                q = init(r, **({"vh": ["h"]} if r.random() < .3 else {}))
            elif x < .6:
                q = search(r, dbs)
            elif x < .85:
                q = present(r)
            elif x < .93:
                q = scan(r, dbs)
            elif x < .96:
                q = {"t": r.choice(["close", "delete", "trigger"]), "sets": ["A"]}
            else:
                s.append("drop " + c)
                continue
            s.append("req %s %s" % (c, J(q)))
        for c in "123":
            if r.random() < .8:
                s.append("drop " + c)
        scripts.append(s)
    run_scripts(ctx, "VirtTrace", scripts, parallel=.3, apart=True, need=["filter_virt_db.cpp", "util.cpp", "package.cpp"])


# ------------------------------------------------------------------ multi
TERMS = ["a", "ab", "b", "ba", "c", "zz", "A", "0"]


def scan_directive(r):
    n = r.randint(0, 5)
    return {"act": "ok", "scan": {"t": "scanr", "pos": r.choice([-1, 0, 1, 1, 2, 3, 7]),
                                  "entries": [{"term": r.choice(TERMS + [""]), "n": r.randint(0, 9)} if r.random() < .9 else {"k": "diag"}
                                              for _ in range(n)]}}


def multi(ctx):
    ctx.model_check("MultiMC", ctx.pick("MultiMC", "MultiMCT"))
    r = ctx.rng
    scripts = []
    vhs = ["h1:210/A", "h1", "h2:9999/B+C", "lx/D", "z3950.x.org/gils", "other"]
    for _ in range(ctx.pick(2500, 25000)):
        maps, xml = [], ""
        for _ in range(r.randint(0, 4)):
            pat = r.choice(["h1*", "*", "h2:9999/B+C", "l?/D", "*.org/*", "", "h?", "r1"])
            route = r.choice(["r1", "r2", "r3"])
            auth = r.choice(["", "", "me/pw", "joe"])
            maps.append({"pat": [ord(c) for c in (pat or route)], "route": route, "auth": auth})
            xml += '<target route="%s"%s>%s</target>' % (route, ' auth="%s"' % auth if auth else "", pat)
        hu, he, mg = r.random() < .5, r.random() < .4, r.choice(["rr", "rr", "so", ""])
        f = '<filter type="multi">%s%s%s%s</filter>' % (
            xml, "<hideunavailable/>" if hu else "", "<hideerrors/>" if he else "",
            {"rr": "<mergetype>roundrobin</mergetype>", "so": "<mergetype>serveorder</mergetype>", "": ""}[mg])
        s = ["config " + hexs(flexml({"start": [f, bk("main")], "r1": [bk("r1")], "r2": [bk("r2")], "r3": [bk("r3")]})),
             "params " + J({"maps": maps, "hideunav": hu, "hideerr": he, "merge": mg or "rr",
                            "names": {v: [ord(c) for c in v] for v in vhs}, "rank": {t: i for i, t in enumerate(sorted(TERMS + ["t-" + b for b in ("main", "r1", "r2", "r3")]))},
                            "zdbs": {v: v.split("/")[1].split("+") if "/" in v else [] for v in vhs}})]
        wild = r.random()
        for b in ("main", "r1", "r2", "r3"):
            o = {"hits": r.choice([0, 1, 2, 3, 5, 10, 17, 40])}
            if r.random() < .3:
                o["opts"] = r.choice([["search", "present"], ["search", "present", "scan"], ["search", "present", "named"]])
            if r.random() < .1:
                o["maxgive"] = r.randint(0, 3)
            s.append("bk %s %s" % (b, J(o)))
            if r.random() < .6:
                for _ in range(r.randint(0, 12)):
                    s.append("push %s %s" % (b, J(directive(r, r.choice([0, .1, .4]) if wild < .7 else 0) if r.random() < .7 else scan_directive(r))))
        for c in "12":
            q = init(r, vh=r.sample(vhs, r.choice([0, 1, 2, 2, 3, 3, 4])))
            if r.random() < .3:
                q["oi"] = "10.0.0.%d" % r.randint(1, 9)
            if r.random() < .3:
                q["pms"] = r.choice([100, 100000000])
            if c == "1" or r.random() < .4:
                s.append("req %s %s" % (c, J(q)))
        for _ in range(r.randint(1, 10)):
            c = r.choice("112")
            x = r.random()
            dbs = [r.choice(["X", "Y"])]
            if x < .02:
                q = init(r, vh=r.choice([[], ["h1"]]))
            elif x < .4:
                q = search(r, dbs)
                if r.random() < .4:
                    q.update(ssub=r.choice([0, 5, 30, 100]), lslb=r.choice([1, 20, 101]), mspn=r.choice([0, 1, 3, 30]))
            elif x < .8:
                q = present(r, start=r.choice([1, 1, 2, 3, 4, 6, 9, 11, 14, 25, 60, 0, -1, -3]), num=r.choice([1, 2, 3, 5, 9, 30, 0, -1]))
            elif x < .94:
                q = scan(r, dbs, num=r.choice([0, 1, 2, 5, 10]), pos=r.choice([-1, 0, 1, 1, 2, 3, 4, 8, 12]))
            elif x < .97:
                q = {"t": r.choice(["close", "delete", "trigger"]), "sets": ["A"]}
            else:
                s.append("drop " + c)
                continue
            s.append("req %s %s" % (c, J(q)))
        for c in "12":
            if r.random() < .8:
                s.append("drop " + c)
        scripts.append(s)
    run_scripts(ctx, "MultiTrace", scripts, parallel=.5, apart=True, need=["filter_multi.cpp", "util.cpp", "package.cpp"])


# ------------------------------------------------- what follows shares this
def during(r, clients, req, p=.3):
    """a directive during which other clients act"""
    d = directive(r, r.choice([0, .1, .3]))
    if r.random() < p:
        d["during"] = [[r.choice(clients)] + ([req()] if r.random() < .9 else []) for _ in range(r.randint(1, 2))]
    return d


def goodbye(r, s, clients, p=.8):
    for c in clients:
        if r.random() < p:
            s.append("drop " + c)


def codes(names):
    return {n: [ord(c) for c in n] for n in names}


# ------------------------------------------------------------------ auth_simple
def auth(ctx):
    ctx.model_check("AuthMC", ctx.pick("AuthMC", "AuthMCT"))
    r = ctx.rng
    scripts = []
    users, pws = ["mike", "adam", "rob", "u", "", "Mike"], ["quercus", "betula", "", "p/q", "p"]
    dbs, vhs = ["A", "b", "B", "Foo", "foo", "*", "", "x y"], ["h1:210/A", "H1:210/a", "h2", "*", "lx/D", "h3/E+F"]
    for i in range(ctx.pick(2000, 20000)):
        us = [{"u": r.choice(users[:5] if r.random() < .1 else users[:4]), "pw": r.choice(pws[:4]), "dbs": [r.choice(dbs) for _ in range(r.choice([1, 1, 2, 3, 60 if r.random() < .05 else 2]))]}
              for _ in range(r.randint(0, 4))]
        ts = [{"u": r.choice(users), "ts": [r.choice(vhs) for _ in range(r.choice([1, 1, 2, 3]))]} for _ in range(r.randint(0, 4))]
        pad = r.random() < .05            # a long line
        mode = r.choice(["u", "t", "ut", "u"])
        longdb = "L" * 1200
        if pad and us:
            us[r.randrange(len(us))]["dbs"].insert(0, longdb)
        def reg(name, lines):
            p = ctx.path("%s%d" % (name, i))
            out = []
            for x in lines:
                if r.random() < .2:
                    out.append(r.choice(["", "# comment:with:colons", "#"]))
                out.append(x)
            if r.random() < .2:
                out.append("")
            with open(p, "w") as f:
                f.write("\n".join(out))
            return p
        f = ""
        if "u" in mode:
            f += "<userRegister>%s</userRegister>" % reg("u", ["%s:%s:%s" % (x["u"], x["pw"], ",".join(x["dbs"])) for x in us])
        if "t" in mode:
            f += "<targetRegister>%s</targetRegister>" % reg("t", ["%s:%s" % (x["u"], ",".join(x["ts"])) for x in ts])
        disc = r.random() < .5
        if disc:
            f += "<discardUnauthorisedTargets/>"
        opens = {}
        for u in users:
            for pw in pws:
                opens["%s/%s" % (u, pw)] = {"u": u, "pw": pw}
        opens["rob"] = {"u": "rob", "pw": ""}
        opens[""] = {"u": "", "pw": ""}
        s = ["config " + hexs(flexml({"start": ['<filter type="auth_simple">%s</filter>' % f, bk("main")]})),
             "params " + J({"users": us, "targets": ts, "gotu": "u" in mode, "gott": "t" in mode, "discard": disc,
                            "open": opens, "names": codes(dbs + vhs + [longdb])})]
        known = [(x["u"], x["pw"]) for x in us] or [("u", "p")]
        known += [(x["u"], "p") for x in ts] if mode == "t" else []
        def cred():
            u, pw = r.choice(known) if r.random() < .8 else (r.choice(users), r.choice(pws))
            if r.random() < .5:
                o = {"auth": "open", "open": u + "/" + pw}
                if "/" in u or o["open"] not in opens:
                    o = {"auth": "idpass", "user": u, "pass": pw}
                return o
            return {"auth": "idpass", "user": u, "pass": pw} if r.random() < .9 else {"auth": r.choice(["open", "none", "anon"]), "open": "rob"}
        def rq():
            x = r.random()
            ds = [r.choice(dbs[:-1]) for _ in range(r.choice([1, 1, 2, 3]))]
            if x < .35:
                q = {"t": "init", "opts": ["search", "present"], **cred()}
                if "t" in mode or r.random() < .2:
                    q["vh"] = r.sample(vhs[:3] + vhs[4:], r.choice([0, 1, 1, 2, 3]))
                return q
            if x < .65:
                return search(r, ds)
            if x < .75:
                return scan(r, ds)
            if x < .85:
                return present(r)
            return r.choice([{"t": "close"}, {"t": "delete", "sets": ["A"]}, {"t": "http", "path": "/x"}, {"t": "sort"}])
        for _ in range(r.randint(0, 10)):
            s.append("push main %s" % J(during(r, "123", rq)))
        for _ in range(r.randint(2, 14)):
            s.append("req %s %s" % (r.choice("1123"), J(rq())) if r.random() < .93 else "drop " + r.choice("123"))
        goodbye(r, s, "123")
        scripts.append(s)
    run_scripts(ctx, "AuthTrace", scripts, parallel=.3, need=["filter_auth_simple.cpp", "util.cpp", "package.cpp"])


# ------------------------------------------------------------------ load_balance
def load(ctx):
    ctx.model_check("LoadMC", ctx.pick("LoadMC", "LoadMCT"))
    r = ctx.rng
    scripts = []
    vhs = ["h1", "h2:210/A", "h3", "h4"]
    clients = "123456"
    for _ in range(ctx.pick(2500, 25000)):
        s = ["config " + hexs(flexml({"start": ['<filter type="load_balance"/>', bk("main")]})), "params {}"]
        few = r.sample(vhs, r.choice([1, 2, 2, 3, 4]))
        def rq(first=False):
            x = r.random()
            if first or x < .4:
                v = few if r.random() < .6 else r.sample(few, r.randint(0, len(few)))
                if r.random() < .05:
                    v = v + [r.choice(few)]
                return {"t": "init", "opts": ["search", "present"], "vh": v, **({"ref": "x"} if r.random() < .3 else {})}
            if x < .7:
                return search(r, ["D"])
            if x < .9:
                return present(r)
            return r.choice([{"t": "close"}, {"t": "close"}, {"t": "http", "path": "/"}, scan(r, ["D"])])
        for _ in range(r.randint(0, 24)):
            s.append("push main %s" % J(during(r, clients, rq, .35)))
        for i in range(r.randint(3, 24)):
            c = r.choice(clients)
            s.append("req %s %s" % (c, J(rq(i < 4))) if r.random() < .9 else "drop " + c)
        goodbye(r, s, clients, .7)
        scripts.append(s)
    run_scripts(ctx, "LoadTrace", scripts, need=["filter_load_balance.cpp", "util.cpp", "package.cpp"])


# ------------------------------------------------------------------ limit
def limit(ctx):
    ctx.model_check("LimitMC", ctx.pick("LimitMC", "LimitMCT"))
    r = ctx.rng
    scripts = []
    for _ in range(ctx.pick(1500, 15000)):
        p = {"bw": r.choice([0, 0, 300, 1000, 5000]), "pdu": r.choice([0, 0, 1, 2, 5, 7, 60, 100]),
             "search": r.choice([0, 0, 1, 2, 5]), "retrieve": r.choice([0, 1, 2, 4])}
        a = "".join(' %s="%d"' % (n, p[k]) for n, k in (("bandwidth", "bw"), ("pdu", "pdu"), ("search", "search"), ("retrieve", "retrieve")) if p[k] or r.random() < .2)
        s = ["config " + hexs(flexml({"start": ['<filter type="limit"><limit%s/></filter>' % a, bk("main")]})), "params " + J(p)]
        def rq():
            x = r.random()
            return (init(r) if x < .1 else search(r, ["D"]) if x < .5 else present(r, num=r.choice([0, 1, 2, 3, 4, 5, 10, -1])) if x < .8
                    else r.choice([{"t": "close"}, {"t": "http", "path": "/"}, scan(r, ["D"])]))
        for _ in range(r.randint(0, 12)):
            s.append("push main %s" % J(during(r, "123", rq, .3)))
        for _ in range(r.randint(3, 30)):
            if r.random() < .2:
                s.append("time %d" % r.choice([1, 5, 20, 29, 30, 31, 58, 59, 60, 61]))
            c = r.choice("1112") if r.random() < .8 else "3"
            s.append("req %s %s" % (c, J(rq())) if r.random() < .95 else "drop " + c)
        goodbye(r, s, "123", .7)
        scripts.append(s)
    run_scripts(ctx, "LimitTrace", scripts, need=["filter_limit.cpp", "package.cpp"])


# ------------------------------------------------------------------ present_chunk
def chunk(ctx):
    ctx.model_check("ChunkMC", ctx.pick("ChunkMC", "ChunkMCT"))
    r = ctx.rng
    scripts = []
    for _ in range(ctx.pick(2500, 25000)):
        n = r.choice([0, 1, 1, 2, 3, 5, 10])
        s = ["config " + hexs(flexml({"start": ['<filter type="present_chunk"><chunk>%d</chunk></filter>' % n, bk("main")]})), "params " + J({"chunk": n})]
        o = {"hits": r.choice([0, 1, 5, 12, 30])}
        if r.random() < .3:
            o["maxgive"] = r.randint(0, 4)
        s.append("bk main " + J(o))
        def rq():
            x = r.random()
            return (init(r) if x < .1 else search(r, ["D"]) if x < .3
                    else present(r, num=r.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 29, 30, 31, -1, -5, 2000000000])) if x < .9
                    else r.choice([{"t": "close"}, {"t": "http", "path": "/"}, scan(r, ["D"])]))
        def bkd():
            d = during(r, "12", rq, .15)
            if r.random() < .15:
                k = r.randint(0, 6)
                d = {"act": "raw", "resp": {"t": "presentr", "kind": "recs", "n": k, "next": r.choice([0, 7]), "pstatus": r.choice([0, 1, 4]),
                                            "recs": [{"v": "extra%d" % j} for j in range(k)]}, **({"thenclose": True} if r.random() < .2 else {})}
            return d
        for _ in range(r.choice([0, 3, 14])):
            s.append("push main %s" % J(bkd()))
        s.append("req 1 " + J(search(r, ["D"])))
        for _ in range(r.randint(1, 8)):
            s.append("req %s %s" % (r.choice("112"), J(rq())))
        goodbye(r, s, "12", .7)
        scripts.append(s)
    run_scripts(ctx, "ChunkTrace", scripts, parallel=.2, need=["filter_present_chunk.cpp", "util.cpp", "package.cpp"])


# ------------------------------------------------------------------ sort
def sort(ctx):
    ctx.model_check("SortMC", ctx.pick("SortMC", "SortMCT"))
    r = ctx.rng
    scripts = []
    keys = ["", "a", "aa", "b", "ba", "B", "z", "10", "9"]
    for _ in range(ctx.pick(2000, 20000)):
        ns = r.random() < .3
        pre, up = r.choice([0, 1, 3, 5, 10, 20]), r.random() < .6
        rank, texts = {}, []
        for k in r.sample(keys, r.randint(2, len(keys))):
            for v in range(r.choice([1, 1, 2])):
                t = "<r%s><k>%s</k><v>%d</v></r>" % (' xmlns="http://x/"' if ns else "", k, v)
                if k == "" and r.random() < .3:
                    t = r.choice(["<r><o/></r>", "not xml", "<r%s><k/></r>" % (' xmlns="http://x/"' if ns else "")])
                rank[t] = sorted(keys).index(k)
                texts.append(t)
        r.shuffle(texts)
        a = ' xpath="%s"' % (r.choice(["/m:r/m:k", "//m:k", "/m:r/m:k/text()"]) if ns else r.choice(["/r/k", "//k", "/r/k/text()"]))
        if ns:
            a += ' namespaces="%s"' % r.choice(["m=http://x/", " q=http://y m=http://x/"])
        if pre != 20 or r.random() < .5:
            a += ' prefetch="%d"' % pre
        if not up or r.random() < .5:
            a += ' ascending="%s"' % ("true" if up else "false")
        s = ["config " + hexs(flexml({"start": ['<filter type="sort"><sort%s/></filter>' % a, bk("main")]})),
             "params " + J({"prefetch": pre, "up": up, "rank": rank})]
        o = {"hits": r.choice([0, 1, 4, 12, 30]), "texts": texts}
        if r.random() < .3:
            o["maxgive"] = r.randint(0, 4)
        s.append("bk main " + J(o))
        def rq():
            x = r.random()
            syn = {"syn": "xml"} if r.random() < .8 else {}
            if x < .05:
                return init(r)
            if x < .35:
                q = search(r, ["D"], sets=("default", "A"), **syn)
                if r.random() < .6:
                    q.update(ssub=r.choice([0, 1, 4, 5]), lslb=r.choice([1, 4, 13, 31]), mspn=r.choice([1, 2, 5]), sesn="B", mesn="F")
                return q
            if x < .92:
                return present(r, sets=("default", "A", "A", "B"), start=r.choice([1, 1, 1, 2, 3, 4, 5, 9, 11, 0, -1]), num=r.choice([1, 1, 2, 3, 5, 8, 10, 20, 0, -1]), **syn)
            return r.choice([{"t": "close"}, {"t": "http", "path": "/"}, scan(r, ["D"])])
        if r.random() < .1:               # a search that gets no proper answer, then the result set it should have replaced
            q = search(r, ["D"], sets=("A",), syn="xml", rep=True, ssub=0, lslb=1, mspn=0)
            for d in ({}, {}, r.choice([{"act": "none"}, {"act": "raw", "resp": {"t": "presentr"}}, {"act": "diag"}])):
                s.append("push main " + J(d))
            for x in (init(r), q, q, present(r, sets=("A",), start=1, num=r.choice([1, 2]), syn="xml")):
                s.append("req 3 " + J(x))
        for _ in range(r.choice([0, 0, 5, 14])):
            s.append("push main %s" % J(during(r, "12", rq, .15)))
        for c in "12":
            if r.random() < .9:
                s.append("req %s %s" % (c, J(init(r))))
        for _ in range(r.randint(2, 12)):
            s.append("req %s %s" % (r.choice("112"), J(rq())) if r.random() < .97 else "drop " + r.choice("12"))
        goodbye(r, s, "12", .7)
        scripts.append(s)
    run_scripts(ctx, "SortTrace", scripts, parallel=.3, need=["filter_sort.cpp", "util.cpp", "package.cpp"])


# ------------------------------------------------------------------ http_file
def C(s):
    return [ord(c) for c in s]


def http_file(ctx):
    ctx.model_check("HttpMC", ctx.pick("HttpMC", "HttpMCT"))
    r = ctx.rng
    base = ctx.path("w")
    import os
    files = []
    def put(path, text, kind="file"):
        full = base + "/" + path
        os.makedirs(os.path.dirname(full), exist_ok=True)
        f = {"p": C(full), "kind": kind, "t": text, "rawok": False, "code": 0, "rt": ""}
        if kind == "dir":
            os.makedirs(full, exist_ok=True)
        else:
            with open(full, "w") as h:
                h.write(text * (200000 if kind == "big" else 1))
        if text.startswith("HTTP/"):
            head, body = text.split("\r\n\r\n", 1)
            f.update(rawok=True, code=int(head.split()[1]), rt=body)
        if kind == "big":
            f["t"] = ""
        files.append(f)
    put("html/index.html", "<html>index</html>")
    put("html/a b.txt", "a b")
    put("html/empty.xml", "")
    put("html/noext", "no extension")
    put("html/.htm", "hidden")
    put("html/d.ot/plain", "in a directory with a dot")
    put("html/d.ot", "", "dir")
    put("html/sub/x.tar.gz", "tar")
    put("html/sub", "", "dir")
    put("html/a+b.html", "plus")
    put("html/big.html", "toobig", "big")
    put("html/r200", "HTTP/1.1 200 OK\r\nX-Y: z\r\nContent-Length: 5\r\n\r\nhello")
    put("html/r404", "HTTP/1.0 404 Not found\r\nContent-Length: 2\r\n\r\nno")
    put("html-secret/x.html", "secret")
    put("html-secret", "", "dir")
    put("htmlx", "secret beside")
    put("secret.txt", "secret above")
    put("etc/conf.xml", "conf")
    put("html/-secret/x.html", "not secret")
    words = ["index.html", "a%20b.txt", "a+b.txt", "empty.xml", "noext", ".htm", "d.ot/plain", "d.ot", "sub/x.tar.gz", "sub", "sub/", "a%2Bb.html", "a+b.html",
             "big.html", "r200", "r404", "-secret/x.html", "x", "../secret.txt", "%2e%2e/secret.txt", ".%2E/secret.txt", "sub/../index.html", "./index.html", "sub/./x.tar.gz",
             "/index.html", "%2findex.html", "index.html%00.txt", "%00", "index.html?q=1", "index.html#f", "index.html%3fq", "index.html%", "index.html/", "index.html?../x", "",
             "in%64ex.html", "%zz", "conf.xml", "nope.html", "...", "sub//x.tar.gz", "?", "index.HTML"]
    scripts = []
    for i in range(ctx.pick(1200, 12000)):
        mime, mt = [], []
        for _ in range(r.randint(0, 5)):
            ty, ex = r.choice(["text/html", "text/plain", "application/xml", "x/y"]), r.sample(["html", "htm", "txt", "xml", "gz", "tar.gz", "HTML", "ot/plain"], r.randint(0, 3))
            mt.append(" ".join([ty] + ex))
            mime += [{"ext": C(x), "type": ty} for x in ex]
        areas, ax = [], ""
        for _ in range(r.choice([1, 1, 2, 3])):
            a = {"prefix": r.choice(["/etc", "/e", "/etc/", "/", "", "/x", "/etc/sub", "/etc/index.html", "/et%63"]),
                 "root": base + r.choice(["/html", "/html", "/html", "/html/", "/etc", "/html/sub", "/html/index.html", "/nowhere", "/html/."]),
                 "raw": r.random() < .2, "pass": r.random() < .3}
            ax += "<area><documentroot>%s</documentroot><prefix>%s</prefix>%s%s</area>" % (
                a["root"], a["prefix"], "<raw>true</raw>" if a["raw"] else r.choice(["", "<raw>false</raw>"]), "<passthru>true</passthru>" if a["pass"] else "")
            areas.append({**a, "prefix": C(a["prefix"]), "root": C(a["root"])})
        m = ""
        if mt or r.random() < .3:
            p = ctx.path("mime%d" % i)
            with open(p, "w") as f:
                f.write("\n".join(mt) + r.choice(["", "\n"]))
            m = "<mimetypes>%s</mimetypes>" % p
        names, reqs = {}, []
        for _ in range(r.randint(1, 6)):
            c = r.choice("12")
            if r.random() < .1:
                reqs.append((c, r.choice([{"t": "close"}, init(r), search(r, ["D"])])))
                continue
            p = r.choice(["/etc/", "/etc/", "/etc", "/e", "/", "", "/x/", "/x", "/etc/sub/", "/%65tc/", "//etc/"]) + r.choice(words)
            q = {"t": "http", "path": p or "/", "ver": r.choice(["1.0", "1.1", "1.1"]), "method": r.choice(["GET"] * 6 + ["POST", "HEAD", "get"]),
                 "h": [["Connection", r.choice(["Keep-Alive", "close", "x"])]] if r.random() < .4 else []}
            seen = q["path"].split("#")[0]           # YAZ drops the fragment
            names[seen] = C(seen)
            reqs.append((c, q))
        s = ["config " + hexs(flexml({"start": ['<filter type="http_file">%s%s</filter>' % (m, ax), bk("main")]})),
             "params " + J({"areas": areas, "files": files, "mime": mime, "names": names})]
        for _ in range(r.choice([0, 0, 3])):
            s.append("push main " + J(directive(r)))
        s += ["req %s %s" % (c, J(q)) for c, q in reqs]
        goodbye(r, s, "12", .7)
        scripts.append(s)
    run_scripts(ctx, "HttpTrace", scripts, need=["filter_http_file.cpp", "util.cpp", "package.cpp"])


# ------------------------------------------------------------------ sru_z3950
def srw_codes(codes_):
    import ctypes
    y = ctypes.CDLL("libyaz.so.5")
    return {str(c): y.yaz_diag_bib1_to_srw(c) for c in codes_}


def sru_parse(body):
    """an SRU response as the specification speaks of it"""
    import xml.etree.ElementTree as ET
    ln = lambda e: e.tag.rsplit("}", 1)[-1]
    kid = lambda e, n: next((k for k in e if ln(k) == n), None)
    text = lambda e, n, d="": d if kid(e, n) is None else (kid(e, n).text or "")
    dg = lambda e: [int(text(e, "uri").rsplit("/", 1)[-1]), text(e, "details")]
    bad = {"k": "bad"}
    try:
        x = ET.fromstring(body)
    except ET.ParseError:
        return bad
    if ln(x) == "Envelope":
        b = kid(x, "Body")
        x = b[0] if b is not None and len(b) else x
        if ln(x) == "Fault":
            return {"k": "fault"}
    ds = [dg(d) for d in (kid(x, "diagnostics") if kid(x, "diagnostics") is not None else [])]
    def rec(r):
        data = kid(r, "recordData")
        o = {"pos": int(text(r, "recordPosition", "-1")), "schema": text(r, "recordSchema"),
             "packing": text(r, "recordPacking") or text(r, "recordXMLEscaping"), "v": "", "code": 0, "add": ""}
        if data is None:
            o["v"] = "(none)"
            return o
        if "diagnostics-v1.1" in o["schema"]:
            d = data[0] if len(data) else ET.fromstring(data.text)
            o["code"], o["add"] = dg(d)
            o["packing"] = "xml"
        else:
            o["v"] = "".join(ET.tostring(k, encoding="unicode").strip() for k in data) if len(data) else (data.text or "")
        return o
    if ln(x) == "searchRetrieveResponse":
        rs = kid(x, "records")
        return {"k": "sr", "hits": int(text(x, "numberOfRecords", "-1")), "next": int(text(x, "nextRecordPosition", "-1")),
                "recs": [rec(r) for r in (rs if rs is not None else [])], "diags": ds}
    if ln(x) == "scanResponse":
        return {"k": "scan", "diags": ds}
    if ln(x) == "explainResponse":
        r = kid(x, "record")
        data = kid(r, "recordData") if r is not None else None
        if data is None:
            return {"k": "explain", "host": "(none)", "port": "", "db": "", "diags": ds}
        e = data[0] if len(data) else ET.fromstring(data.text or "<x/>")
        si = kid(e, "serverInfo")
        si = e if si is None else si
        return {"k": "explain", "host": text(si, "host"), "port": text(si, "port"), "db": text(si, "database"), "diags": ds,
                "packing": text(r, "recordPacking") or text(r, "recordXMLEscaping")}
    return bad


def sru_post(e):
    if e["op"] == "cresp" and e["r"]["t"] == "httpr":
        e["r"]["sru"] = sru_parse(e["r"]["body"])


def sru(ctx):
    from urllib.parse import quote_plus
    ctx.model_check("SruMC", ctx.pick("SruMC", "SruMCT"))
    r = ctx.rng
    codes_ = [1, 2, 3, 13, 14, 30, 109, 114, 235, 1014]
    dmap = srw_codes(codes_)
    scripts = []
    for _ in range(ctx.pick(2000, 20000)):
        lim = r.choice([0, 0, 1, 2, 5])
        cfgdb = r.random() < .3
        x = '<limit retrieve="%d"/>' % lim if lim or r.random() < .2 else ""
        if cfgdb:
            x += '<database name="Gils"><explain xmlns="http://explain.z3950.org/dtd/2.0/"><serverInfo><host>cfg</host><port>9</port><database>G</database></serverInfo></explain></database>'
        reqs = {}
        def rq():
            rid = str(len(reqs) + 1)
            h = [["X-Id", rid]]
            q = {"op": "search", "hasq": True, "qs": "", "badq": False, "auth": "none", "open": "", "user": "", "pass": "", "vh": [], "oi": "",
                 "dbs": ["Default"], "start": 1, "max": 0, "xpath": False, "sort": False, "schema": "", "packing": "xml", "pre": [], "host": "localhost", "port": "80", "db": "Default"}
            ver = r.choice(["1.0", "1.1", "1.1"])
            db = r.choice(["", "db", "db", "Gils", "a%20b", "x/y", "a&b"])
            if db:
                q["dbs"], q["db"] = [db], db
            method, body = "GET", ""
            a = []
            k = r.random()
            if k < .8:
                sv = r.choice(["1.1", "1.1", "1.2", "2.0"])
                a += [("version", sv)] + ([("operation", "searchRetrieve")] if sv != "2.0" else [])
                z = r.random()
                if z < .55:
                    t = r.choice(["a", "title=x", "a and b", "\"x y\""])
                    a.append(("query", t)); q["qs"] = "CQL " + t
                elif z < .9:
                    t = r.choice(["a", "@and a b", "@attr 1=4 water", "@and a", "@attr 1= x @or"])
                    a.append(("x-pquery", t)); q["badq"] = t in ("@and a", "@attr 1= x @or")
                    q["qs"] = "@attrset Bib-1 " + ('"%s"' % t if " " in t and t[0] != "@" else t)
                elif sv != "2.0":
                    q["hasq"] = False; q["pre"] = [[7, "query"]]
                else:
                    a.append(("query", "a")); q["qs"] = "CQL a"
                if r.random() < .8:
                    q["max"] = r.choice([0, 1, 1, 2, 3, 4, 5, 9, 10, 100, -1, -3]); a.append(("maximumRecords", str(q["max"])))
                if r.random() < .6:
                    q["start"] = r.choice([1, 1, 2, 3, 4, 5, 9, 10, 11, 12, 0, -1]); a.append(("startRecord", str(q["start"])))
                if r.random() < .3:
                    q["schema"] = r.choice(["F", "B", "marcxml"]); a.append(("recordSchema", q["schema"]))
                if r.random() < .3:
                    q["packing"] = r.choice(["xml", "string"]); a.append(("recordPacking" if sv != "2.0" else "recordXMLEscaping", q["packing"]))
                if r.random() < .05 and sv != "2.0":
                    q["xpath"] = True; a.append(("recordXPath", "/x"))
                if r.random() < .05:
                    q["sort"] = True; a.append(("sortKeys", "title"))
                if r.random() < .3:
                    host, ds = r.choice([("h1:210", ["A"]), ("h2", []), ("h3:9999", ["B", "C"]), ("tcp:h4:1", ["D"])])
                    a.append(("x-target", host + ("/" + "+".join(ds) if ds else "")))
                    q["vh"] = [host]
                    if ds:
                        q["dbs"] = ds
                    else:
                        q["nodb"] = True
                cl = [(n, v) for n, v in [("user", "me"), ("pass", "x y&z")] if r.random() < .12]
                a += [("x-client-" + n, v) for n, v in cl]
                if cl and not (q["vh"] and not q.get("nodb")):
                    q["dbs"] = [q["dbs"][0] + "," + "&".join("%s=%s" % (n, v.replace(" ", "%20").replace("&", "%26")) for n, v in cl)]
                q.pop("nodb", 0)
                z = r.random()
                if z < .15:
                    q.update(auth="idpass", user="u", **{"pass": "p"}); a += [("x-username", "u"), ("x-password", "p")]
                elif z < .25:
                    q.update(auth="open", open="v"); a.append(("x-username", "v"))
                elif z < .35:
                    q.update(auth="idpass", user="u", **{"pass": "p"}); h.append(["Authorization", "Basic dTpw"])
                if r.random() < .2:
                    q["oi"] = "10.1.1.%d" % r.randint(1, 9); h.append(["X-Forwarded-For", q["oi"]])
            elif k < .88:
                q["op"] = "explain"
                if r.random() < .5:
                    q["host"], q["port"] = r.choice([("h.example", "81"), ("x", "1")]); h.append(["Host", q["host"] + ":" + q["port"]])
                if r.random() < .4:
                    a += [("version", "1.1"), ("operation", "explain")]
                if r.random() < .2:
                    a.append(("foo", "bar")); q["pre"] = [[8, "foo"]]
                if db == "a&b" and r.random() < .5:
                    q["host"], q["port"] = "h&<", "80"; h = [x for x in h if x[0] != "Host"] + [["Host", "h&<:80"]]
                if db == "Gils" and cfgdb:
                    q.update(host="cfg", port="9", db="G")
            elif k < .93:
                q["op"] = "scan"; a += [("version", "1.1"), ("operation", "scan"), ("scanClause", "x")]
            elif k < .96:
                q["op"] = "fault"; method, body = "POST", "<hello"; h.append(["Content-Type", "text/xml"])
            else:
                q["op"] = "bad"; method = r.choice(["PUT", "DELETE"])
            path = "/" + db
            names = {n for n, _ in a}
            if q["op"] == "search" and q["hasq"] and r.random() < .2 and names <= {"version", "operation", "query", "x-pquery", "maximumRecords", "startRecord", "recordSchema", "recordPacking"} and ("version", "2.0") not in a:
                E = "http://schemas.xmlsoap.org/soap/envelope/"
                method, body = "POST", "<e:Envelope xmlns:e='%s'><e:Body><s:searchRetrieveRequest xmlns:s='http://www.loc.gov/zing/srw/'>%s</s:searchRetrieveRequest></e:Body></e:Envelope>" % (
                    E, "".join("<s:%s>%s</s:%s>" % (n2, v, n2) for n2, v in (({"x-pquery": "pQuery"}.get(n, n), v) for n, v in a if n != "operation")))
                h.append(["Content-Type", "text/xml"])
                q["pre"] = []
                a = []
            elif q["op"] == "search":        # YAZ refuses these itself
                bad = []
                if q["max"] < 0:
                    q["max"] = 0; bad.append([6, "maximumRecords"])
                if q["start"] < 1:
                    q["start"] = 1; bad.append([6, "startRecord"])
                q["pre"] += bad
            qs = "&".join(n + "=" + quote_plus(v) for n, v in a)
            if qs and r.random() < .15 and method == "GET":
                method, body = "POST", qs
                h.append(["Content-Type", "application/x-www-form-urlencoded"])
            elif qs:
                path += "?" + qs
            if r.random() < .3:
                h.append(["Connection", r.choice(["close", "Keep-Alive"])])
            reqs[rid] = q
            return {"t": "http", "path": path, "method": method, "ver": ver, "h": h, **({"body": body} if body else {})}
        texts = r.sample(["<r>a</r>", "<r><b>&amp; &lt;</b></r>", "<r x=\"1\">c</r>", "<r />", "<r>d e</r>"], r.randint(1, 5))
        s = []
        o = {"hits": r.choice([0, 1, 3, 5, 10, 12]), "texts": texts}
        if r.random() < .3:
            o["maxgive"] = r.randint(0, 3)
        s.append("bk main " + J(o))
        def bkd():
            z = r.random()
            if z < .1:
                k = r.randint(0, 7)
                mk = lambda j: r.choice([{"v": "<r>x%d</r>" % j, "syn": "xml"}, {"v": "y%d" % j, "syn": "usmarc"}, {"k": "diag", "code": r.choice([14, 109, 1]), "add": r.choice(["", "no"])}])
                return {"act": "raw", "resp": {"t": "presentr", "kind": "recs", "n": k, "recs": [mk(j) for j in range(k)]}}
            if z < .15:
                return {"act": "raw", "resp": {"t": r.choice(["presentr", "searchr"]), "kind": r.choice(["mnsd", "nsd"]), "diag": 109, "add": "m", "hits": r.choice([0, 3]), "status": 0}}
            if z < .18:
                return {"act": "raw", "resp": {"t": "initr", "ok": False}}
            d = during(r, "12", lambda: r.choice([rq, rq, lambda: search(r, ["D"])])(), .15)
            if d["act"] == "raw":
                d = {"act": "none"}
            return d
        body = []
        for _ in range(r.choice([0, 3, 10, 20])):
            body.append("push main %s" % J(bkd()))
        for _ in range(r.randint(1, 6)):
            body.append("req %s %s" % (r.choice("112"), J(rq() if r.random() < .95 else r.choice([init(r), search(r, ["D"]), {"t": "close"}]))))
        goodbye(r, body, "12", .7)
        s += ["config " + hexs(flexml({"start": ['<filter type="sru_z3950">%s</filter>' % x, bk("main")]})),
              "params " + J({"reqs": reqs, "limit": lim, "d": dmap})] + body
        scripts.append(s)
    run_scripts(ctx, "SruTrace", scripts, post=sru_post, need=["filter_sru_to_z3950.cpp", "sru_util.cpp", "util.cpp", "package.cpp"])
