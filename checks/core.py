"""Checks of the core framework: sessions, routers, factory, lifecycle."""
import json
from vlib import CheckError, build_harness


def parse_traces(ctx, rc, out, err, expect=None):
    """Harness output -> traces.  A crash or hang becomes an event that no
    specification allows."""
    rows = []
    lines = out.split("\n")
    for ln in lines:
        if not ln.strip():
            continue
        try:
            rows.append(json.loads(ln))
        except ValueError:
            # unfinished last line: close it
            for tail in ("]}", '{}]}'):
                try:
                    r = json.loads(ln.rstrip(",") + tail)
                    r["unfinished"] = True
                    rows.append(r)
                    break
                except ValueError:
                    continue
            else:
                rows.append({"ops": [], "unfinished": True})
    if rc != 0:
        kind = "hang" if rc in (-999, 97) else "crash"
        ev = {"op": kind, "rc": rc, "err": err[-1500:]}
        if rows and rows[-1].get("unfinished"):
            rows[-1]["ops"].append(ev)
        else:
            rows.append({"ops": [ev], "unfinished": True})
    for r in rows:
        r.pop("unfinished", None)
    return rows


def session(ctx):
    ctx.model_check("Session", "SessionMC")
    ctx.model_check("SessionGen", "SessionGenMC")
    exe = build_harness("h_session")
    n = ctx.pick(400, 4000)
    scripts = ctx.generate("SessionGen", "SessionGen", workers=1,
                           args=["-simulate", "num=%d" % n, "-depth", "40",
                                 "-seed", str(ctx.seed)])
    if not scripts:
        raise CheckError("no behaviours generated")

    def record(scr):
        text = "".join("trace\n" + "".join(" ".join(map(str, o)) + "\n" for o in s) + "end\n"
                       for s in scr)
        rc, out, err = ctx.run(exe, stdin=text)
        return parse_traces(ctx, rc, out, err)

    traces = record(scripts)
    if len(traces) < len(scripts) and not any(o["op"] in ("crash", "hang") for o in traces[-1]["ops"]):
        raise CheckError("harness lost traces")
    for i, t in enumerate(traces):
        t["name"] = "script-%d" % i
    ctx.validate("SessionTrace", traces,
                 confirm=lambda t: record([scripts[int(t["name"].split("-")[1])]])[0])
    # concurrent creation in the real code
    st = []
    for k in range(ctx.pick(6, 40)):
        T = [2, 3, 4, 8, 8, 6][k % 6]
        rc, out, err = ctx.run(exe, ["stress", str(T), str(ctx.pick(150000, 400000)), str(ctx.seed * 100 + k)])
        st += parse_traces(ctx, rc, out, err)
    rc, out, err = ctx.run(exe, ["wide"])
    st += parse_traces(ctx, rc, out, err)
    for t in st:
        for o in t["ops"]:
            if o["op"] == "new":
                # ids of the whole process; keep TLC's integers small
                o["id"] %= 1 << 30
    ctx.cov["concurrent_sessions_created"] = sum(o["made"] for t in st for o in t["ops"] if o["op"] == "bulk")
    ctx.validate("SessionTrace", st)


# ---------------------------------------------------------------- routing
NS = "http://indexdata.com/metaproxy"


def hexs(s):
    return s.encode("latin-1", "replace").hex() or "-"


def flex_doc(routes, inline=False):
    fs = sorted({f for _, l in routes for f in l})
    x = '<metaproxy xmlns="%s" version="1.0"><start route="start"/>' % NS
    x += "<filters>" + "".join('<filter id="%s" type="t"/>' % f for f in fs) + "</filters>" if fs else ""
    x += "<routes>"
    for n, l in routes:
        x += '<route id="%s">' % n + "".join('<filter refid="%s"/>' % f for f in l) + "</route>"
    return x + "</routes></metaproxy>"


def router_script(kind, g):
    head = '"kind":"%s","routes":%s,"start":"start"' % (kind, json.dumps(g["routes"]))
    if kind == "chain":
        l = "chain %s %s\n" % (hexs(head), " ".join(g["routes"][0][1]))
    else:
        l = "flexml %s %s\n" % (hexs(head), hexs(flex_doc(g["routes"])))
    return l + "".join(" ".join(map(str, o)) + "\n" for o in g["ops"]) + "end\n"


def run_router(ctx, kind, cfgs, n, variant="plain"):
    exe = build_harness("h_router", variant)

    def record(gs):
        rc, out, err = ctx.run(exe, stdin="".join(router_script(kind, g) for g in gs))
        rows = parse_traces(ctx, rc, out, err)
        for i, r in enumerate(rows):
            for k, v in (("kind", kind), ("routes", gs[i]["routes"]), ("start", "start")):
                r.setdefault(k, v)
        return rows

    for cfg in cfgs:
        gs = ctx.generate("RouterGen", cfg, workers=1,
                          args=["-simulate", "num=%d" % n, "-depth", "200", "-seed", str(ctx.seed)])
        if len(gs) < n // 2:
            raise CheckError("too few behaviours generated: %d" % len(gs))
        tr = record(gs)
        if len(tr) < len(gs) and not crashed(tr):
            raise CheckError("harness lost traces")
        for i, t in enumerate(tr):
            t["name"] = "%s-%d" % (cfg, i)
        ctx.validate("RouterTrace", tr,
                     confirm=lambda t: record([gs[int(t["name"].rsplit("-", 1)[1])]])[0])


def crashed(tr):
    return bool(tr) and any(o["op"] in ("crash", "hang") for o in tr[-1]["ops"])


def chain(ctx):
    ctx.model_check("RouterGen", "RouterGenMC2")
    run_router(ctx, "chain", ["RouterGenChainPos", "RouterGenChainPkg"], ctx.pick(600, 6000))


def flexml(ctx):
    ctx.model_check("RouterGen", "RouterGenMC")
    run_router(ctx, "flexml", ["RouterGenFlexPos", "RouterGenFlexPkg"], ctx.pick(600, 6000))


def package(ctx):
    run_router(ctx, "flexml", ["RouterGenLog", "RouterGenFlexPkg"], ctx.pick(600, 6000))
    run_router(ctx, "chain", ["RouterGenChainPkg"], ctx.pick(200, 2000))


def simple(ctx, exe, module, scripts, sep=" "):
    def record(scr):
        rc, out, err = ctx.run(exe, stdin="".join(
            "trace\n" + "".join(sep.join(map(str, o)) + "\n" for o in s) + "end\n" for s in scr))
        return parse_traces(ctx, rc, out, err)
    tr = record(scripts)
    if len(tr) < len(scripts) and not crashed(tr):
        raise CheckError("harness lost traces")
    for i, t in enumerate(tr):
        t["name"] = "script-%d" % i
    return ctx.validate(module, tr, confirm=lambda t: record([scripts[int(t["name"].split("-")[1])]])[0])


def origin(ctx):
    ctx.model_check("OriginMC")
    exe = build_harness("h_origin", need=["origin.cpp"])
    gs = ctx.generate("OriginMC", "OriginGen", workers=1,
                      args=["-simulate", "num=%d" % ctx.pick(1500, 10000), "-depth", "20", "-seed", str(ctx.seed)])
    for g in gs:
        g.append(["get"])
    simple(ctx, exe, "OriginTrace", gs, "\t")


def factory(ctx):
    import os, subprocess
    import build as B
    ctx.model_check("FactoryGen", "FactoryGenMC")
    exe = build_harness("h_factory", need=["factory_filter.cpp", "factory_static.cpp"])
    d = ctx.path("plugins")
    os.makedirs(d)
    inc = ["-I" + B._write_config(), "-I" + os.path.join(B.VERIF, "shim", "include"),
           "-I" + os.path.join(B.REPO, "include")] + B.yaz_cflags()
    for so, sym in (("plug", "metaproxy_1_filter_plug"), ("bad", "some_other_symbol")):
        r = subprocess.run(["g++", "-std=c++14", "-w", "-shared", "-fPIC", "-DNAME=" + sym, *inc,
                            os.path.join(B.VERIF, "harness", "plugin.cpp"),
                            "-o", os.path.join(d, "metaproxy_filter_%s.so" % so)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("plugin does not build:\n" + r.stdout[-2000:])
    gs = ctx.generate("FactoryGen", "FactoryGen", workers=1,
                      args=["-simulate", "num=%d" % ctx.pick(300, 2000), "-depth", "30", "-seed", str(ctx.seed)])

    def record(s):        # a process of its own: loaded modules stay loaded
        rc, out, err = ctx.run(exe, [d], stdin="trace\n" + "".join(" ".join(map(str, o)) + "\n" for o in s) + "end\n")
        return parse_traces(ctx, rc, out, err)[0]
    names = ["auth_simple", "backend_test", "bounce", "cgi", "cql_rpn", "frontend_net", "http_client",
             "http_file", "http_rewrite", "limit", "load_balance", "log", "multi", "present_chunk",
             "query_rewrite", "record_transform", "sd_remove", "session_shared", "sort", "sru_z3950",
             "template", "virt_db", "z3950_client", "zeerex_explain", "zoom"]
    gs.append([["static", n] for n in names])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        tr = list(ex.map(record, gs))
    for i, t in enumerate(tr):
        t["name"] = "script-%d" % i
    ctx.validate("FactoryTrace", tr, confirm=lambda t: record(gs[int(t["name"].split("-")[1])]))
