"""z3950_client (C38)"""
import json
from filt import run_scripts, flexml, bk, init, search, present, scan, directive, J
from core import hexs

HOSTS = ["h1:210", "h2:9999/db", "h3"]
OPTS = ["search", "present", "delSet", "scan", "sort", "es", "named", "trigger", "negotiation", "concurrent"]


def script(r):
    p = {"ct": 10, "it": 10, "gt": 30, "mt": 15, "max": 0, "omax": 0, "force": False, "ip": False, "bind": False, "cs": "", "deflt": "",
         "forced": "", "peer": "", "mine": "", "optorder": OPTS}
    x = []

    def conf(prob, key, name, v):
        if r.random() < prob:
            p[key] = v
            x.append("<%s>%s</%s>" % (name, str(v).lower() if isinstance(v, bool) else v, name))
    conf(.4, "gt", "timeout", r.choice([1, 2, 5, 31]))
    conf(.4, "ct", "connect-timeout", r.choice([1, 2, 4, 11]))
    conf(.4, "it", "init-timeout", r.choice([1, 3, 6, 12]))
    conf(.3, "mt", "max-sockets-timeout", r.choice([1, 3, 20]))
    conf(.5, "deflt", "default_target", r.choice(HOSTS))
    conf(.15, "forced", "force_target", r.choice(HOSTS))
    conf(.4, "max", "max-sockets", r.choice([0, 1, 1, 2]))
    conf(.4, "force", "force_close", r.random() < .8)
    conf(.4, "ip", "client_ip", r.random() < .8)
    conf(.3, "cs", "charset", r.choice(["UTF-8", "ISO-8859-1"]))
    conf(.3, "bind", "bind_host", r.random() < .8)
    r.shuffle(x)
    both = r.random() < .3
    cs = ["c%d" % i for i in range(r.randint(1, 2 if both else 3))]
    s = ["trace %d %d" % (r.randrange(1 << 30), r.choice([0, 1, 1, 2])), "timed both" if both else "timed"]
    if r.random() < .7:
        p["peer"], p["mine"] = r.choice(["10.0.0.1", "::1"]), r.choice(["10.9.9.9", "127.0.0.1"])
        p["omax"] = r.choice([0, 0, 0, 1, 2])
        s += ["origin %s %s %s %d" % (c, p["peer"], p["mine"], p["omax"]) for c in cs]
    s += ["config " + hexs(flexml({"start": ['<filter type="z3950_client">' + "".join(x) + "</filter>", bk("b")]})), "params " + J(p)]
    s.append('bk b {"hits":3}')
    hs = r.sample(HOSTS, r.randint(1, 3))
    for h in hs:
        s.append("bk %s %s" % (h, J(r.choice([{"hits": 3}, {"hits": 10}, {"hits": 3, "opts": ["search", "present"]}]))))
    ms = [0, 0, 1, 400, 999, 1000, 1001, 2500, 4000, 9999, 29000, 40000]

    def events(h):
        if r.random() < .35:
            y = r.random()
            s.append("onconn %s %s" % (h, J({"how": "ok", "d": r.choice(ms)} if y < .6 else {"how": "refuse"} if y < .75 else
                                           {"how": "fail", "d": r.choice(ms)} if y < .9 else {"how": "never"})))
        if r.random() < .4:
            for _ in range(r.randint(1, 3)):
                y = r.random()
                s.append("onsent %s %s" % (h, J({"d": r.choice(ms)} if y < .55 else {"act": "none"} if y < .65 else {"d": r.choice(ms[:5]), "n": 2} if y < .72 else
                                               {"act": "junk", "d": r.choice(ms[:5])} if y < .77 else {})))
        if r.random() < .4:
            s.append("push %s %s" % (h, J(multi() if r.random() < .15 else directive(r, .4))))

    def multi():
        return {"act": "raw", "resp": r.choice([{"t": "searchr", "kind": "nsd", "diag": 3, "add": r.choice(["", "a b"])},
                                                {"t": "initr", "ok": False, "diag": 1011, "add": r.choice(["", "u"])},
                                                {"t": "presentr", "kind": "nsd", "diag": 13, "add": ""}, {"t": "deleter"}])}

    def hello():
        k = {}
        if r.random() < .6:
            k["vh"] = [r.choice(hs) for _ in range(r.choice([1, 1, 1, 1, 2]))]
        if r.random() < .2:
            k["oi"] = "1.2.3.4"
        if r.random() < .2:
            k["cs"] = r.choice(["UTF-8", "ISO-8859-1,UTF-16"])
        if r.random() < .3:
            k["ref"] = "i%d" % r.randint(1, 9)
        return init(r, **k)

    def rq():
        y = r.random()
        f = {"ref": "x%d" % r.randint(1, 9)} if r.random() < .3 else {}
        if y < .5:
            return search(r, ["db"])
        if y < .7:
            return present(r)
        if y < .78:
            return scan(r, ["db"])
        if y < .84:
            return dict(f, t="close", reason=r.choice([0, 4]))
        if y < .89:
            return dict(f, t="trigger")
        if y < .93:
            return dict(f, t="delete", sets=["A"])
        if y < .96:
            return {"t": "http", "method": "GET", "path": "/a"}
        return hello()
    for h in hs:
        events(h)
    began = set()

    def one(c):
        if c not in began and r.random() < .9:
            began.add(c)
            return "req %s %s" % (c, J(hello()))
        if r.random() < .1:
            began.discard(c)
            return "drop " + c
        return "req %s %s" % (c, J(rq()))
    conc = both or r.random() < .5
    for _ in range(r.randint(3, 9)):
        for h in hs:
            if r.random() < .3:
                events(h)
        if r.random() < .1:
            s.append("time %d" % r.choice([1, 7, 50]))
        if conc and r.random() < .7:
            s.append("par")
            s += [one(r.choice(cs)) for _ in range(r.randint(2, 5))]
            s.append("join")
        else:
            s.append(one(r.choice(cs)))
    s += ["drop " + c for c in cs]
    return s


def client(ctx):
    ctx.model_check("ClientMC", ctx.pick("ClientMC", "ClientMCT"))
    scripts = [script(ctx.rng) for _ in range(ctx.pick(3000, 40000))]
    run_scripts(ctx, "ClientTrace", scripts, need=["filter_z3950_client.cpp", "util.cpp", "package.cpp"])
