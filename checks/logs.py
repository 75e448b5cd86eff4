"""log (C37)."""
from filt import J, XE, bk, flexml, goodbye, hexs, run_scripts, sru_parse


def flat(v):
    """Entries are one line, whatever the texts."""
    if isinstance(v, str):
        return v.replace("\n", " ").replace("\r", " ")
    if isinstance(v, list):
        return [flat(x) for x in v]
    if isinstance(v, dict):
        return {k: flat(x) for k, x in v.items()}
    return v


CATS = {"access": "access", "user-access": "user", "line": "line", "request-session": "reqs", "response-session": "ress",
        "init-options": "opts", "request-apdu": "reqa", "response-apdu": "resa"}


def log(ctx):
    ctx.model_check("LogMC", ctx.pick("LogMC", "LogMCT"))
    r = ctx.rng
    scripts = []
    S = lambda: r.choice(["a", "water", "x y", "a\nb", "q\r\nX9 9.9.9.9:1 1 0.000000 Z3950 x", "\"", "-", "b\\", "%s%n", "<&>"])
    for _ in range(ctx.pick(2500, 30000)):
        fs, chain = [], []
        for i in range(r.choice([1, 1, 1, 2, 3])):
            f = {v: False for v in CATS.values()}
            f.update(access=True, msg="M%d" % i, file="yaz", pre="T [log] ")
            c = ["<message>M%d</message>" % i]
            fmt = r.choice(["T", "T", ""])
            for name in r.choice([[], ["A"], ["A"], ["B"], ["B", "A"], ["A", "no/such"]]):
                c.append("<filename>%s</filename>" % name)
                f["file"] = "yaz" if "/" in name else name
            if f["file"] != "yaz":
                f["pre"] = "T "
            c.append("<time-format>%s</time-format>" % fmt)
            if f["file"] != "yaz":
                f["pre"] = fmt + " " if fmt else ""
            for _ in range(r.choice([0, 1, 1, 2])):
                at = {}
                for k in r.sample(sorted(CATS) + ["session", "apdu"], r.choice([1, 2, 3, 5])):
                    on = r.random() < .75
                    at[k] = r.choice(["true", "1"]) if on else r.choice(["false", "0"])
                    for k2 in {"session": ["reqs", "ress"], "apdu": ["reqa", "resa"]}.get(k, [CATS.get(k)]):
                        f[k2] = on
                c.append("<category %s/>" % " ".join('%s="%s"' % x for x in at.items()))
            # the entry an answer's or request's entries begin with tells whose they are
            if f["opts"] and not (f["access"] and f["ress"] or f["reqs"] and f["ress"]):
                c.append('<category session="true"/>')
                f["reqs"] = f["ress"] = True
            if (f["reqa"] or f["resa"]) and not f["access"]:
                c.append('<category access="true"/>')
                f["access"] = True
            order = r.random()
            fs.append(f)
            chain.append('<filter type="log">%s</filter>' % "".join(c))
        peers = {c: "10.0.0.%s" % c for c in "12" if r.random() < .7}
        s = ["trace %d %d" % (r.randrange(1 << 30), r.choice([0, 1, 1, 2])), "logs A B yaz", "timed",
             "config " + hexs(flexml({"start": chain + [bk("main")]})), "params " + J({"filters": fs, "peers": peers}),
             "bk main " + J({"hits": 3})]
        s += ["origin %s %s 1.1.1.1" % (c, a) for c, a in sorted(peers.items())]

        def recs():
            x = r.random()
            if x < .3:
                return {"kind": "nsd", "diag": r.choice([1, 14, 114]), "add": S()}
            if x < .6:
                return {"kind": "mnsd", "diag": r.choice([1, 14]), "add": S(), "many": r.choice([0, 1, 2])}
            return {"recs": [{"db": "D", "v": "<r/>"}] * r.choice([0, 1, 2])} if x < .85 else {}

        def response(t):
            if r.random() < .1:
                t = r.choice(["init", "search", "present", "scan", "sort", "es", "http", "close", "none", "apdu", "request"])
            n = r.choice([-1, 0, 1, 2])
            return {"init": lambda: dict({"t": "initr", "ok": r.random() < .5, "opts": r.sample(["search", "present", "scan", "named"], 2)},
                                         **(r.choice([{}, {"diag": r.choice([1014, 2]), "add": S()}, {"impl": S()}]))),
                    "search": lambda: dict({"t": "searchr", "hits": r.choice([0, 1, 99]), "next": r.choice([0, 1]), "status": r.choice([0, 1])}, **recs()),
                    "present": lambda: dict({"t": "presentr", "next": r.choice([0, 1]), "pstatus": r.choice([0, 1, 2, 3, 4, 5, 6])}, **recs()),
                    "scan": lambda: {"t": "scanr", "status": r.choice([0, 1, 2, 5, 6, 7]), "pos": n, "entries": [{"term": "a", "n": 1}] * r.choice([0, 2])},
                    "sort": lambda: {"t": "sortr", "status": r.choice([0, 1, 2]), "n": r.choice([0, 1, 2]), "diag": 3, "add": S()},
                    "es": lambda: {"t": "esr", "status": r.choice([1, 2, 3, 4]), "n": r.choice([0, 1, 2]), "diag": 5, "add": S()},
                    "http": lambda: {"t": "httpr", "code": r.choice([200, 404]), "body": r.choice(["", "abc"])},
                    "request": lambda: {"t": "present"}, "none": lambda: {"t": "none"},
                    "close": lambda: {"t": "close", "reason": r.choice(range(11)), **({"msg": S()} if r.random() < .5 else {})},
                    "apdu": lambda: {"t": "apdu", "which": r.choice([8, 10, 12, 15, 25])}}[t]()

        def request():
            t = r.choice(["init", "init", "search", "search", "present", "scan", "sort", "es", "http", "close", "apdu", "delete", "trigger", "none"])
            q = {"t": t}
            if t == "init":
                x = r.random()
                q.update(opts=r.sample(["search", "present", "delSet", "scan", "sort", "es", "named", "trigger", "negotiation"], r.choice([0, 1, 3])))
                if x < .3:
                    q.update({"auth": "idpass", "pass": "p"}, **r.choice([{}, {"user": S()}, {"user": "u", "group": "g"}]))
                elif x < .5:
                    q.update(auth="open", open=S())
                elif x < .6:
                    q["auth"] = "anonymous"
                if r.random() < .4:
                    q["vh"] = [S().replace("\n", "").replace("\r", "") for _ in range(r.choice([1, 2]))]
                if r.random() < .5:
                    q["impl"] = [r.choice([None, "", S()]) for _ in range(3)]
            elif t == "search":
                q.update(dbs=[S() for _ in range(r.choice([1, 2, 3]))], set=S(), q=r.choice(['@attr 1=4 "a\nb"', "@and a b", "@set A"]), syn=r.choice(["", "usmarc", "xml"]))
                if r.random() < .2:
                    q["cql"] = S()
            elif t == "present":
                q.update(set=S(), start=r.choice([1, 5]), num=r.choice([0, 2]), syn=r.choice(["", "SUTRS"]), esn=r.choice(["", "F"]))
            elif t == "scan":
                q.update(dbs=[S() for _ in range(r.choice([1, 2]))], pos=r.choice([-1, 0, 3]), step=r.choice([-1, 0, 2]), num=r.choice([1, 7]))
            elif t == "sort":
                q.update({"in": [S() for _ in range(r.choice([1, 2]))], "out": S()})
            elif t == "es":
                q.update({k: S() for k in ("user", "pack", "desc") if r.random() < .5}, fn=r.choice([1, 2, 3, 9]))
            elif t == "http":
                q.update(method=r.choice(["GET", "POST"]), path=r.choice(["/", "/a?b=%s"]), ver=r.choice(["1.0", "1.1"]))
            elif t == "close":
                q = response("close")
                t = q["t"]
            elif t == "apdu":
                q["which"] = r.choice([2, 8, 11, 14, 20, 4, 6])
            elif t == "delete":
                q["sets"] = ["A"]
            if t != "none":
                d = {}
                if r.random() < .8:
                    d = {"act": "raw", "resp": response(t if t in ("init", "search", "present", "scan", "sort", "es", "http") else r.choice(["apdu", "close", "none"]))}
                if r.random() < .3:
                    d["wait"] = r.choice([1, 20, 1234, 61001])
                if r.random() < .1:
                    d["thenclose"] = True
                s.append("push main " + J(d))
            return q
        conc = r.random() < .4
        for _ in range(r.randint(1, 6)):
            # answers are taken in the order requests arrive, so concurrent ones may get another's
            if conc and r.random() < .7:
                run = ["req %s %s" % (r.choice("12"), J(request())) for _ in range(r.randint(2, 4))]
                s += ["par"] + run + ["join"]
            else:
                q = request()
                s.append("req %s %s" % (r.choice("12"), J(q)))
        s += ["drop 1", "drop 2"]
        scripts.append(s)

    def post(e):
        for k in ("r",):
            if isinstance(e.get(k), dict):
                e[k] = flat(e[k])
                if e[k]["t"] == "httpr":
                    e[k]["len"] = len(e[k].pop("body"))
    run_scripts(ctx, "LogTrace", scripts, post=post, need=["filter_log.cpp", "gduutil.cpp"])


# ------------------------------------------ bounce, sd_remove, zeerex_explain
def diag_names(codes):
    import ctypes
    y = ctypes.CDLL("libyaz.so.5")
    y.diagbib1_str.restype = ctypes.c_char_p
    return {str(c): y.diagbib1_str(c).decode() for c in codes}


def plain_post(e):
    r = e.get("r")
    if isinstance(r, dict) and r["t"] in ("http", "httpr"):
        r["len"] = len(r["body"])
        if r["t"] == "httpr":
            r["sru"] = sru_parse(r["body"])


def plain(ctx):
    from urllib.parse import quote_plus
    ctx.model_check("PlainMC", ctx.pick("PlainMC", "PlainMCT"))
    r = ctx.rng
    names = diag_names(range(0, 245))
    names.update(diag_names([1001, 1014, 1074, 99999]))
    S = lambda: r.choice(["a", "water", "x y", "<&>", "%s%n", "q\"z", ""])
    scripts = []
    for _ in range(ctx.pick(2500, 25000)):
        kind = r.choice(["bounce", "sdr", "zee"])
        p = {"kind": kind, "echo": False, "names": names if kind == "sdr" else {}, "reqs": {}}
        cfg = ""

        def zreq():
            t = r.choice(["init", "search", "search", "present", "scan", "sort", "es", "close", "delete", "trigger"])
            q = {"t": t, "ref": r.choice(["", "r1", "R2"])}
            if t == "init" and r.random() < .6:
                q.update(r.choice([{"auth": "idpass", "user": "u", "pass": "p"}, {"auth": "open", "open": S()}, {"vh": ["h:1"]}, {"impl": [S(), None, S()]}]))
            elif t == "search":
                q.update(dbs=[S() or "D" for _ in range(r.choice([1, 2]))], set=r.choice(["default", "s"]), q=r.choice(["@attr 1=4 a", "@and a b"]))
            elif t == "present":
                q.update(set="s", start=r.choice([1, 5]), num=r.choice([0, 2]), syn=r.choice(["", "SUTRS"]), esn=r.choice(["", "F"]))
            elif t == "scan":
                q.update(dbs=["D"], q="@attr 1=4 a", num=3, pos=1)
            elif t == "close":
                q.update(reason=r.choice(range(10)))
            return q

        def http():
            q = {"t": "http", "method": r.choice(["GET", "GET", "POST", "PUT"]), "path": r.choice(["/", "/a?b=c", "/x%20y"]), "ver": r.choice(["1.0", "1.1", "1.1"]),
                 "h": [["X-A", S() or "b"]] if r.random() < .5 else []}
            if r.random() < .3:
                q["h"].append(["Connection", r.choice(["Keep-Alive", "close"])])
            if q["method"] != "GET":
                q["body"] = r.choice(["", "abc", "a\nb"])
            return q

        def record():
            if r.random() < .6:
                return {"k": "diag", "db": r.choice(["D", "E", ""]), "code": r.choice([1, 2, 14, 13, r.randrange(245), 1014, 1074, 0, 99999]), "add": S()}
            return {"db": r.choice(["D", ""]), "v": r.choice(["<r/>", "abc", ""]), "syn": r.choice(["xml", "usmarc", "sutrs"])}

        def answer():
            x = r.random()
            rs = [record() for _ in range(r.choice([0, 1, 2, 3, 5]))]
            o = {"n": len(rs) if r.random() < .9 else r.choice([0, 1, 7]), "recs": rs, "kind": "recs"}
            if x < .4:
                return dict({"t": "presentr", "pstatus": r.choice([0, 1, 5])}, **o)
            if x < .8:
                return dict({"t": "searchr", "hits": len(rs), "status": r.choice([0, 1])}, **o)
            if x < .9:
                return {"t": r.choice(["searchr", "presentr"]), "kind": r.choice(["nsd", "mnsd"]), "diag": r.choice([14, 235]), "add": S()}
            return r.choice([{"t": "close", "reason": 1}, {"t": "none"}, {"t": "initr"}, {"t": "httpr", "code": 200, "body": "x"}, {"t": "scanr", "entries": []}])

        def zee():
            rid = str(len(p["reqs"]) + 1)
            h = [["X-Id", rid]]
            if r.random() < .1:
                return zreq()
            db = r.choice(["Gils", "Gils", "Gils", "G&h", "none", "other", "", "Gils/x"])
            q = {"do": "pass", "host": "cfg", "port": "9", "db": "G", "diags": [], "packing": "xml"}
            if db == "G&h":
                q.update(host="c2", port="", db="H&")
            if db == "none":
                q.update(host="localhost", port="80", db="none")
                if r.random() < .6:
                    q["host"], q["port"] = r.choice([("h.example", "81"), ("x", "1"), ("h&<", "3")])
                    h.append(["Host", q["host"] + ":" + q["port"]])
            own = db in ("Gils", "G&h", "none")
            method, body, a = "GET", "", []
            x = r.random()
            if x < .55:
                q["do"] = "explain"
                if r.random() < .6:
                    a += [("version", r.choice(["1.1", "1.2"])), ("operation", "explain")]
                    if r.random() < .3:
                        a.append(("recordPacking", r.choice(["string", "xml"])))
                        q["packing"] = a[-1][1]
                    if r.random() < .3:
                        a.append(("foo", "bar")); q["diags"] = [[8, "foo"]]
            elif x < .75:
                a = r.choice([[("version", "1.1"), ("operation", "searchRetrieve"), ("query", "a")], [("version", "1.1"), ("operation", "scan"), ("scanClause", "x")], [("query", "b")]])
            elif x < .85:
                q["do"] = "fault"; method, body = "POST", r.choice(["<hello", "junk", "<x/>"]); h.append(["Content-Type", "text/xml"])
            else:
                q["do"] = "refused"
                method = r.choice(["PUT", "DELETE", "POST"])
                if method == "POST":
                    body = r.choice(["", "junk"])
                    h += r.choice([[["Content-Type", "application/x"]], [], [["Content-Type", "text/html"]]])
            if not own:
                q["do"] = "pass"
            qs = "&".join(n + "=" + quote_plus(v) for n, v in a)
            path = "/" + db
            if qs and r.random() < .15 and method == "GET":
                method, body = "POST", qs
                h.append(["Content-Type", "application/x-www-form-urlencoded"])
            elif qs:
                path += "?" + qs
            if r.random() < .3:
                h.append(["Connection", r.choice(["close", "Keep-Alive"])])
            p["reqs"][rid] = q
            return {"t": "http", "path": path, "method": method, "ver": r.choice(["1.0", "1.1", "1.1"]), "h": h, **({"body": body} if body else {})}
        s, reqs = [], []
        if kind == "bounce":
            e = r.choice(["", "true", "1", "false"])
            p["echo"] = e in ("true", "1")
            cfg = "<echo>%s</echo>" % e if e else ""
            for _ in range(r.randint(1, 4)):
                reqs.append((r.choice("12"), r.choice([zreq, zreq, http, lambda: {"t": "httpr", "code": 200, "body": "x"}])()))
        elif kind == "sdr":
            for _ in range(r.randint(1, 6)):
                reqs.append((r.choice("12"), r.choice([zreq, zreq, zreq, http])()))
                s.append("push main " + J({"act": "raw", "resp": answer()} if r.random() < .85 else r.choice([{}, {"act": "close"}])))
        else:
            E = '<explain xmlns="http://explain.z3950.org/dtd/2.0/"><serverInfo><host>%s</host><port>%s</port><database>%s</database></serverInfo></explain>'
            cfg = '<database name="Gils">%s</database><database name="none"/><database name="G&amp;h">\n%s</database>' % (E % ("cfg", "9", "G"), E % ("c2", "", "H&amp;"))
            for _ in range(r.randint(1, 6)):
                reqs.append((r.choice("112"), zee()))
        name = {"bounce": "bounce", "sdr": "sd_remove", "zee": "zeerex_explain"}[kind]
        s = ["logs A B yaz", "config " + hexs(flexml({"start": ['<filter type="%s">%s</filter>' % (name, cfg), bk("main")]})), "params " + J(p)] + s
        s += ["req %s %s" % (c, J(q)) for c, q in reqs]
        goodbye(r, s, "12", .7)
        scripts.append(s)
    run_scripts(ctx, "PlainTrace", scripts, parallel=.2, post=plain_post, need=["filter_bounce.cpp", "filter_sd_remove.cpp", "filter_zeerex_explain.cpp", "package.cpp", "gduutil.cpp"])
