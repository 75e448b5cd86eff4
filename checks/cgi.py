"""cgi (C43)"""
import os
from filt import J, bk, flexml, goodbye, hexs, run_scripts
from links import XA, codes
from web import hdrs, zreq
from vlib import VERIF

DIR = os.path.join(VERIF, "harness", "cgi")
VARS = {"REQUEST_METHOD", "REQUEST_URI", "SCRIPT_NAME", "PATH_INFO", "QUERY_STRING", "HTTP_COOKIE", "HTTP_USER_AGENT", "HTTP_ACCEPT", "HTTP_ACCEPT_ENCODING", "DOCUMENT_ROOT",
        "GATEWAY_INTERFACE", "CONTENT_LENGTH", "CONTENT_TYPE", "MY_A", "MY_B", "PWD"}


def script(r):
    p, x = {"maps": [], "env": {}}, ""
    paths = ["/cgi", "/cgi/two", "/c", "/x y", "/cgi?"]
    for _ in range(r.choice([1, 1, 2, 3])):
        path, prog = r.choice(paths), r.choice(["one.sh", "two.sh", "two.sh", "nope.sh"] if r.random() < .3 else ["one.sh", "two.sh"])
        p["maps"].append({"path": codes(path), "dir": codes(os.path.realpath(DIR)), "prog": prog, "there": prog != "nope.sh"})
        x += '<map path="%s" exec="%s"/>' % (path, XA(DIR + "/" + prog))
    for n in ["MY_A", "MY_B", "HTTP_COOKIE", "PATH_INFO"]:
        if r.random() < .2:
            v = r.choice(["v", "", "a b", "x=y"])
            p["env"][n] = codes(v)
            x += '<env name="%s" value="%s"/>' % (n, v)
    s = []
    for _ in range(r.randint(1, 5)):
        c = r.choice("12")
        if r.random() < .08:
            s.append("req %s %s" % (c, J(zreq(r))))
            continue
        path = r.choice(["/cgi", "/cgi/two/x", "/cgi", "/cgi/a/b", "/cgix", "/", "/d", "/x y", "/c"])
        y = r.random()
        m = r.choice(["env", "env", "read", "read", "big", "bigread m=big&m=read", "close", "close&" + "y" * 400, "fail", "junk", "none", "plain"])
        if y < .85:
            path += "?" + r.choice(["", "a=b&", "q?"]) + "m=" + m
        q = {"t": "http", "method": r.choice(["GET", "POST", "PUT"]), "path": path, "ver": r.choice(["1.0", "1.1", "1.1"]),
             "h": hdrs(r, [(r.choice(["Cookie", "cookie"]), ["a=b", ""]), ("User-Agent", ["me"]), (r.choice(["Accept", "accept"]), ["*/*"]), ("Accept-Encoding", ["gzip"]), ("X-A", ["x"]),
                           ("Connection", ["close", "Keep-Alive"])])}
        if r.random() < .6:
            q["body"] = "".join(r.choice("ab\0\xe6\n= ") for _ in range(r.choice([0, 1, 5, 600]))) if r.random() < .95 else r.choice("ab") * 70000
            if r.random() < .85:
                q["h"].append(["Content-Type", r.choice(["text/plain", "x"])])
        if r.random() < .06:
            s.append(r.choice(["nopipe 1", "nopipe 2", "nofork 1"]))
        if m in ("close", "close&" + "y" * 400, "fail", "env") and r.random() < .25:
            s.append("slow")
        s.append("req %s %s" % (c, J(q)))
    return p, x, s


def post(e):
    q = e.get("r")
    if isinstance(q, dict) and q["t"] in ("http", "httpr"):
        q["h"] = [x for x in q["h"] if x[0].lower() != "content-length"]
        b = q["body"]
        q["env"], q["big"] = {}, False
        if q["t"] == "http":
            q.update(methodc=codes(q["method"]), lenc=codes(str(len(b))), path=codes(q["path"]), hc=[[n, codes(v)] for n, v in q["h"]])
        elif "\n\n" in b and "=" in b:
            t, b = b.split("\n\n", 1)
            for l in t.split("\n"):
                n, _, v = l.partition("=")
                if n not in VARS:
                    n = "?" + n
                q["env"][n] = codes(v)
            if b.startswith("\0" * 100000):
                q["big"], b = True, b[100000:]
        q["body"] = codes(b) if len(b) < 60000 else codes(str(len(b)) + b[:5] + b[-5:])


def cgi(ctx):
    ctx.model_check("CgiMC", ctx.pick("CgiMC", "CgiMCT"))
    r = ctx.rng
    scripts = []
    for _ in range(ctx.pick(1500, 12000)):
        p, x, s = script(r)
        s = ["params " + J(p), "config " + hexs(flexml({"start": ['<filter type="cgi">%s</filter>' % x, bk("main")]})), 'bk main {"hits":3}'] + s
        goodbye(r, s, "12", .5)
        s.append("procs")
        scripts.append(s)
    run_scripts(ctx, "CgiTrace", scripts, parallel=.3, post=post, need=["filter_cgi.cpp"])
