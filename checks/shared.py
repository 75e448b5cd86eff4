"""session_shared: clients at work at the same time, under the scheduler."""
from filt import J, bk, flexml, hexs, par, run_scripts
import json, re

QUERIES = ["a", "b", "@and a b", "@or x @not y z", "@attr 1=4 water"]


def post(e):
    r = e.get("r")
    if r and r["t"] == "search":
        r["dk"] = [d.lower() for d in r["dbs"]]
        q = r["q"].split()
        r["qt"] = q[2:] if q[:1] == ["@attrset"] else q


def request(r, sets, few):
    x = r.random()
    dbs = r.choice([["D"], ["D"], ["d"], ["E"], ["D", "E"]][:2 if few else 5])
    d = {"ref": "r%d" % r.randint(1, 9)} if r.random() < .3 else {}
    if x < .45:
        n = r.choice(sets)
        q = r.choice(QUERIES[:2 if few else 5])
        if r.random() < .2:      # refers to another set
            o = r.choice([m for m in sets + ["Z"] if m != n])
            q = r.choice(["@set %s", "@and @set %s b", "@or a @and @set %s c"]) % o
        d.update(t="search", dbs=dbs, set=n, q=q, rep=r.random() < .85)
        if r.random() < .2:
            d.update(ssub=5, lslb=6, mspn=2)
        if r.random() < .2:
            d["syn"] = r.choice(["usmarc", "xml"])
    elif x < .85:
        d.update(t="present", set=r.choice(sets), start=r.choice([1, 1, 1, 2, 3, 0, 11]), num=r.choice([1, 1, 2, 3, 0]))
        if r.random() < .7:
            d["syn"] = r.choice(["xml", "xml", "usmarc"])
        if r.random() < .2:
            d["esn"] = r.choice(["B", "F"])
    elif x < .95:
        d.update(t="scan", dbs=dbs, q="@attr 1=4 " + r.choice("xy"), num=5)
    elif x < .96:
        d.update(t="close")
    elif x < .97:
        d.update(t="delete", sets=["A"])
    elif x < .98:
        d.update(t="init", opts=["search"])
    else:
        d = {"t": "http", "path": "/"}
    return d


def script(r):
    p = {"max": r.choice([1, 1, 2, 2, 3, 100]), "ttl": r.choice([5, 20, 90]), "restart": r.random() < .5, "ignore": r.random() < .2,
         "sets": r.choice([1, 2, 3, 10]), "rttl": r.choice([0, 3, 30]), "pms": r.choice([0, 0, 4000]), "mrs": r.choice([0, 0, 60000]),
         "named": r.random() < .75}
    ini = ""
    if p["ignore"] or p["pms"] or p["mrs"]:
        ini = '<init' + (' ignore-auth="true"' if p["ignore"] else "") + (' preferred-message-size="%d"' % p["pms"] if p["pms"] else "") + \
            (' maximum-record-size="%d"' % p["mrs"] if p["mrs"] else "") + "/>"
    s = ["config " + hexs(flexml({"start": ['<filter type="session_shared"><resultset ttl="%d" max="%d" restart="%s"/><session ttl="%d" max="%d"/>%s</filter>'
                                            % (p["rttl"], p["sets"], "true" if p["restart"] else "false", p["ttl"], p["max"], ini), bk("main")]})),
         "params " + J(p)]
    o = {"hits": r.choice([0, 3, 12])}
    if not p["named"]:
        o["opts"] = ["search", "present", "scan"]
    s.append("bk main " + J(o))
    if r.random() < .6:
        for _ in range(r.randint(1, 14)):
            s.append("push main " + J(r.choice([{}, {}, {}, {}, {"act": "diag", "code": r.choice([2, 2, 14, 1014]), "add": "why"}, {"act": "drop"}, {"act": "close"},
                                                {"thenclose": True}, {"act": "none"}, {"hits": r.choice([-1, 1, 7])},
                                                {"act": "raw", "resp": {"t": "searchr", "hits": 2, "kind": "mnsd", "diag": r.choice([2, 3]), "add": "m"}}])))
    few = r.random() < .5
    cs = "1234"[:r.choice([1, 2, 3, 4, 4])]
    sets = ["A", "B"] if few else ["A", "B", "default"]

    def hello(c, same):
        d = {"t": "init", "opts": r.choice([["search", "present", "named", "scan"], ["search", "present"], ["search", "present", "scan", "delSet", "sort"]])}
        if not same:
            z = r.random()
            if z < .4:
                d.update(auth="idpass", user=r.choice("uv"), **({"pass": r.choice("pq")}))
            elif z < .5:
                d.update(auth="open", open="u/p")
            elif z < .6:
                d.update(auth="anon")
            if r.random() < .3:
                d["oi"] = r.choice(["1", "2", "9" * r.choice([10, 3000, 9000])])
            if r.random() < .15:
                d["vh"] = [r.choice(["h1", "h2"])]
        if r.random() < .3:
            d.update(pms=r.choice([3000, 5000, 100000]), mrs=r.choice([3000, 50000, 100000]))
        if r.random() < .2:
            d["ref"] = "i"
        return "req %s %s" % (c, J(d))
    same = r.random() < .75
    if r.random() < .1:
        s.append("req 1 " + J(request(r, sets, few)))
    for c in cs:
        if r.random() < .95:
            s.append(hello(c, same))
    for _ in range(r.choice([4, 8, 14, 24])):
        c = r.choice(cs)
        z = r.random()
        if z < .08:
            s.append("time %d" % r.choice([1, 4, p["ttl"], 3 * p["ttl"]]))
        elif z < .11:
            s.append("drop " + c)
            if r.random() < .8:
                s.append(hello(c, same))
        else:
            s.append("req %s %s" % (c, J(request(r, sets, few))))
    if r.random() < .5:
        s.append("time %d" % (3 * p["ttl"]))
    s.append("stop")
    return par(r, s) if r.random() < .8 else ["trace %d 0" % r.randrange(1 << 30)] + s


def shared(ctx):
    for cfg in ["SharedMC", "SharedMCL"] + ctx.pick([], ["SharedMCE", "SharedMCT"]):
        ctx.model_check("SharedMC", cfg)
    scripts = [script(ctx.rng) for _ in range(ctx.pick(3000, 30000))]
    run_scripts(ctx, "SharedTrace", scripts, post=post, need=["filter_session_shared.cpp", "util.cpp", "package.cpp"])
