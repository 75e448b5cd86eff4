"""Threads: programs run under the seeded scheduler (harness/sched.hpp), what
happened is validated by TLC."""
from filt import run_scripts


def pool(ctx):
    ctx.model_check("PoolMC", ctx.pick("PoolMC", "PoolMCT"))
    r = ctx.rng
    scripts = []
    for k in range(ctx.pick(1500, 20000)):
        mn = r.choice([1, 1, 2, 3, 5])
        mx = r.choice([mn, mn, mn + 1, mn + 2, mn + 4])
        s = ["trace %d %d %d %d %d" % (r.randrange(1 << 30), r.choice([0, 1, 1, 2]), mn, mx, r.random() < .2)]
        m, gated, wait = 0, 0, []
        many = k % 100 == 7
        clean = r.random() < .4
        for _ in range(r.randrange(100, 260) if many else r.randrange(1, 16)):
            z = r.random()
            if z < .6 or many and z < .97:
                m += 1
                need = 0
                # a message may wait for the next one to be begun; not all threads may
                if not clean and not many and gated < mx - 1 and r.random() < .35:
                    need, gated = m + 1, gated + 1
                s.append("put %d %d %d %d" % (m, r.randrange(1, 4), need, r.random() < .1))
                wait = need
            elif wait:
                pass
            elif z < .7 and clean:
                s.append("cleanup %d" % r.randrange(1, 4))
            elif z < .8:
                s.append("pump")
            elif z < .85:
                s.append("drain")
                gated = 0
            elif z < .9:
                s.append("info")
            else:
                s.append("yield %d" % r.randrange(1, 30))
        if wait:
            m += 1
            s.append("put %d 1 0 0" % m)
        if r.random() < .8:
            s.append("drain")
        scripts.append(s)
    return run_scripts(ctx, "PoolTrace", scripts, harness="h_pool", need=["thread_pool_observer.cpp", "pipe.cpp"])
