// The thread pool under the seeded scheduler: a script of the observer's
// thread (put, cleanup, drain, ...), and what the pool did with the messages.
#define SCHED_IMPL
#include "sched.hpp"
#include "hx.hpp"
#include "thread_pool_observer.hpp"
#include <poll.h>
#include <set>
namespace mp = metaproxy_1;
static hx::Trace tr;
struct Obs : yazpp_1::ISocketObservable {
    int fd; yazpp_1::ISocketObserver *o; int mask;
    Obs() : fd(-1), o(0), mask(0) {}
    void addObserver(int f, yazpp_1::ISocketObserver *x) { fd = f; o = x; }
    void deleteObserver(yazpp_1::ISocketObserver *x) { if (o == x) o = 0; }
    void deleteObservers() { o = 0; }
    void maskObserver(yazpp_1::ISocketObserver *, int m) { mask = m; }
    void timeoutObserver(yazpp_1::ISocketObserver *, int) {}
    bool readable() { struct pollfd p; p.fd = fd; p.events = POLLIN; p.revents = 0; return poll(&p, 1, 0) == 1 && (p.revents & POLLIN); }
};
static Obs *obs;
static bool over;                          // the pool is being destroyed
static std::set<int> started, open_;      // handling begun; results outstanding
struct Msg : mp::IThreadPoolMsg {
    int m, g, need, null;
    mp::IThreadPoolMsg *handle()
    {
        tr.op(hx::Rec().str("op", "handle").num("m", m).num("t", sched::id()));
        started.insert(m);
        int k = need;
        if (k) sched::wait_for([k]() { return over || started.count(k) > 0; });
        else sched::yield();
        tr.op(hx::Rec().str("op", "handled").num("m", m).boolean("null", null));
        if (null) { open_.erase(m); return 0; }
        return this;
    }
    void result(const char *info)
    {
        tr.op(hx::Rec().str("op", "result").num("m", m).num("t", sched::id()).boolean("info", info && *info));
        open_.erase(m);
    }
    bool cleanup(void *info)
    {
        bool r = info == (void *) (long) g;
        tr.op(hx::Rec().str("op", "ask").num("m", m).boolean("r", r));
        return r;
    }
    ~Msg() { if (tr.open) { tr.op(hx::Rec().str("op", "free").num("m", m)); open_.erase(m); } }
};
static mp::ThreadPoolSocketObserver *pool;
static bool pump()
{
    sched::wait_for([]() { return obs->readable() || open_.empty(); });
    if (open_.empty() && !obs->readable()) return false;
    if (obs->o && (obs->mask & yazpp_1::SOCKET_OBSERVE_READ)) obs->o->socketNotify(yazpp_1::SOCKET_OBSERVE_READ);
    return true;
}
static void finish()
{
    if (pool) {
        tr.op(hx::Rec().str("op", "destroy"));
        over = true;
        delete pool; pool = 0;
        tr.op(hx::Rec().str("op", "destroyed").boolean("obs", obs->o != 0));
    }
}
int main()
{
    std::string line;
    std::vector<Msg *> msgs;
    int nput = 0;
    while (std::getline(std::cin, line)) {
        std::vector<std::string> v = hx::tokens(line);
        if (v.empty()) continue;
        std::vector<int> n;
        for (size_t i = 1; i < v.size(); i++) n.push_back(atoi(v[i].c_str()));
        if (v[0] == "trace") {            // trace <seed> <strategy> <min> <max> <spurious>
            started.clear(); open_.clear(); nput = 0; over = false;
            alarm(60);
            tr.begin();
            sched::begin(n[0], n[1]);
            sched::spurious = n[4];
            obs = new Obs;
            pool = new mp::ThreadPoolSocketObserver(obs, n[2], n[3], 0);
            tr.op(hx::Rec().str("op", "pool").num("min", n[2]).num("max", n[3]));
        } else if (v[0] == "put") {       // put <m> <group> <need> <null>
            Msg *m = new Msg;
            m->m = n[0]; m->g = n[1]; m->need = n[2]; m->null = n[3];
            open_.insert(m->m);
            tr.op(hx::Rec().str("op", "put").num("m", m->m).num("g", m->g));
            pool->put(m);
            tr.op(hx::Rec().str("op", "putdone"));
        } else if (v[0] == "cleanup") {
            tr.op(hx::Rec().str("op", "cleanup").num("g", n[0]));
            pool->cleanup(0, (void *) (long) n[0]);
            tr.op(hx::Rec().str("op", "cleaned").num("g", n[0]));
        } else if (v[0] == "pump") pump();
        else if (v[0] == "drain") {
            while (!open_.empty()) if (!pump()) break;
            tr.op(hx::Rec().str("op", "drained"));
        } else if (v[0] == "yield") { for (int i = 0; i < n[0]; i++) sched::yield(); }
        else if (v[0] == "info") {
            int b = -1, t = -1;
            pool->get_thread_info(b, t);
            tr.op(hx::Rec().str("op", "info").num("busy", b).num("total", t));
        } else if (v[0] == "end") {
            finish();
            tr.op(hx::Rec().str("op", "fin"));
            sched::end();
            delete obs;
            tr.end();
        } else return 9;
    }
    return 0;
}
