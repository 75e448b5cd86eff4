"""http_client and http_rewrite1 (C42)"""
from filt import J, bk, flexml, goodbye, hexs, init, present, run_scripts, search
from links import Re, XA, codes

TYPES = ["text/html", "text/plain", "text/x", "text/html; charset=utf-8"]
BODIES = ["foo", "http://foo/a", "oofoo", "aaa", "abcab", "x", "", "a b", "ABC Foo FOO", "b/c:b", "//b//", "\u00e6foo"]


def both_cases(ns):
    for n in ns:
        if n["k"] == "set":
            n["s"] = sorted(set(n["s"]) | {ord(chr(c).swapcase()) for c in n["s"] if c < 128})
        elif n["k"] == "alt":
            for a in n["a"]:
                both_cases(a)


def body(r):
    b = "".join(r.choice(BODIES) for _ in range(r.choice([0, 1, 2, 3, 5])))
    if r.random() < .06:
        i = r.randint(0, len(b))
        b = b[:i] + "\0" + b[i:]
    return b


def zreq(r):
    return r.choice([init(r), search(r, ["D"]), present(r), {"t": "close"}])


def hdrs(r, names, prob=.3):
    return [[n, r.choice(v)] for n, v in names if r.random() < prob]


def client_script(r):
    p = {"kind": "get", "proxy": "", "host": "", "red": 0, "xff": False, "bind": False, "ids": {}, "ok": True}
    x = []
    if r.random() < .4:
        p["proxy"] = r.choice(["proxy:3128", "http://p"])
        x.append("<proxy>%s</proxy>" % p["proxy"])
    if r.random() < .5:
        p["host"] = r.choice(["http://h:80", "https://x.y", "http://u:p@h/b"])
        x.append("<default-host>%s</default-host>" % p["host"])
    if r.random() < .4:
        p["red"] = r.choice([0, 1, 10])
        x.append("<max-redirects>%d</max-redirects>" % p["red"])
    for n, k in (("x-forwarded-for", "xff"), ("bind_host", "bind")):
        if r.random() < .5:
            v = r.choice(["true", "true", "1", "false", "0"])
            p[k] = v in ("true", "1")
            x.append("<%s>%s</%s>" % (n, v, n))
    r.shuffle(x)
    origins = {}
    s = ["timed"]
    for c in "12":
        if r.random() < .8:
            origins[c] = r.choice([("10.0.0.1", "192.168.0.1"), ("::1", "::2"), ("h.b", "0.0.0.0")])
            s.append("origin %s %s %s" % ((c,) + origins[c]))
        else:
            origins[c] = ("", "")
    n = 0
    reqs = []
    for _ in range(r.randint(1, 6)):
        c = r.choice("12")
        if r.random() < .1:
            reqs.append("req %s %s" % (c, J(zreq(r))))
            continue
        n += 1
        path = r.choice(["/", "/a?b=c", "/x%20y", "http://far/a", "https://far:1/", "http://far"])
        q = {"t": "http", "method": r.choice(["GET", "GET", "POST", "HEAD", "PUT"]), "path": path, "ver": r.choice(["1.0", "1.1", "1.1"]),
             "h": hdrs(r, [("X-A", "ab"), ("X-Metaproxy-Proxy", ["other:1", "other:2"]), ("x-metaproxy-proxy", ["low:1"]), ("Host", ["h"])], .2)}
        if "X-Metaproxy-Proxy" in [a for a, b in q["h"]]:
            q["h"] = [z for z in q["h"] if z[0] != "x-metaproxy-proxy"]
        q["h"] += hdrs(r, [(r.choice(["X-Forwarded-For", "x-forwarded-for"]), ["1.2.3.4", "1.2.3.4, 5.6.7.8"]), ("Connection", ["Keep-Alive", "close"])], .3)
        q["h"].insert(r.randint(0, len(q["h"])), ["X-Id", str(n)])
        if r.random() < .4:
            q["body"] = body(r)
        p["ids"][str(n)] = {"abs": path[0] != "/", "peer": origins[c][0], "bind": origins[c][1]}
        reqs.append("req %s %s" % (c, J(q)))
        if r.random() < .8:
            reqs.insert(r.randint(0, len(reqs)) if r.random() < .2 else len(reqs) - 1, "web " + J(
                {"t": "httpr", "code": r.choice([200, 200, 302, 404, 500]), "ver": r.choice(["1.0", "1.1"]), "body": body(r),
                 "h": hdrs(r, [("Content-Type", TYPES), ("Transfer-Encoding", ["chunked"]), ("transfer-encoding", ["chunked"]), ("X-B", "cd"), ("Connection", ["close", "Keep-Alive"])])}
                if r.random() < .85 else {"err": "no such host"}))
    return p, ['<filter type="http_client">%s</filter>' % "".join(x)], s + reqs


def subst_script(r):
    p, x = {"kind": "subst", "rules": [], "ids": {}, "ok": True}, ""
    for _ in range(r.choice([1, 1, 2, 3])):
        e = Re(r, ["p"])
        mode = r.choice(["", "g", "i", "gi", "ig", "-"])
        to, tx = [], ""
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if r.random() < .35:
                k = r.choice([0] + list(range(1, len(e.groups) + 1)))
                to.append({"k": "cap", "n": k})
                tx += "$&" if k == 0 else "$%d" % k
                tx += " "
                to.append({"k": "lit", "c": [32]})
            else:
                w = r.choice(["X", "foo", "a", "/", "b c"])
                to.append({"k": "lit", "c": codes(w)})
                tx += w
        t = r.choice(TYPES[:3])
        pat = e.tx.replace("(?P<", "(?<")
        if r.random() < .03:
            pat, p["ok"] = r.choice(["(", "[a", "*a", "a)"]), False
        at = [("pattern", pat), ("replacement", tx), ("content-type", t)]
        if mode:
            at.append(("mode", mode))
        r.shuffle(at)
        if r.random() < .06 and p["ok"]:
            at = [a for a in at if a[0] != "pattern"]
        elif "i" in mode:
            both_cases(e.ns)
        x += "<replace %s/>" % " ".join('%s="%s"' % (n, XA(v)) for n, v in at)
        if any(a[0] == "pattern" for a in at) and e.tx:
            p["rules"].append({"ns": e.ns, "to": to, "all": "g" in mode, "type": t})
    s = []
    for _ in range(r.randint(1, 5)):
        y = r.random()
        ans = {"t": "httpr", "code": r.choice([200, 200, 404]), "body": body(r), "h": hdrs(r, [("X-B", "cd")]) + hdrs(r, [(r.choice(["Content-Type", "Content-Type", "content-type"]), TYPES)], .9)}
        d = {"act": "raw", "resp": ans}
        if y < .05:
            d = {"act": "none"}
        elif y < .1:
            d = {"act": "close"}
        elif y < .15:
            d = {"act": "raw", "resp": {"t": "close"}}
        if r.random() < .1:
            q = zreq(r)
        else:
            q = {"t": "http", "path": "/", "method": r.choice(["GET", "POST"]), "h": hdrs(r, [("Content-Type", TYPES), ("Connection", ["close"])])}
            if r.random() < .3:
                q["body"] = body(r)
            s.append("push main " + J(d))
        s.append("req %s %s" % (r.choice("12"), J(q)))
    return p, ['<filter type="http_rewrite1">%s</filter>' % x], s


def web(ctx):
    ctx.model_check("WebMC", ctx.pick("WebMC", "WebMCT"))
    r = ctx.rng
    scripts = []
    for _ in range(ctx.pick(3000, 30000)):
        p, f, s = r.choice([client_script, subst_script])(r)
        s = ["params " + J(p), "config " + hexs(flexml({"start": f + [bk("main")]})), 'bk main {"hits":3}'] + s
        goodbye(r, s, "12", .5)
        scripts.append(s)
        if r.random() < .1:
            s.append("urls")

    state = {"kind": ""}

    def post(e):
        if e["op"] == "params":
            state["kind"] = e["p"]["kind"]
        q = e.get("r")
        if isinstance(q, dict) and q["t"] in ("http", "httpr"):
            q["h"] = [x for x in q["h"] if x[0].lower() != "content-length"]
            if state["kind"] == "subst":
                q["body"] = codes(q["body"])
        if e["op"] == "exec":
            e["h"] = [x for x in e["h"] if x[0].lower() != "content-length"]
    run_scripts(ctx, "WebTrace", scripts, parallel=.3, post=post, need=["filter_http_client.cpp", "filter_http_rewrite1.cpp"])
