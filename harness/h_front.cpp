// Drives frontend_net: connections to its ports, what comes and goes on them,
// and what reaches the back ends, under the scheduler.
#define SCHED_IMPL
#include "fz.hpp"
#include <shimnet.h>
#include <metaproxy/router_xml.hpp>
#include "router_flexml.hpp"
#include "factory_static.hpp"
#include <sys/time.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <dlfcn.h>
namespace mp = metaproxy_1;
typedef yazpp_1::PDU_Assoc A;
hx::Trace fz::tr;
bool fz::timed = true;
thread_local int fz::curq = 0;
std::map<unsigned long, int> fz::sess_no;
std::map<std::string, fz::BkState> fz::bks;
void (*fz::bk_pause)() = 0;
void (*fz::bk_nested)(const std::string &, const fz::J &) = 0;
extern "C" const char *__asan_default_options() { return "malloc_fill_byte=17:max_malloc_fill_size=65536"; }
extern "C" time_t time(time_t *t) noexcept
{
    time_t v = sched::now / 1000000000LL;
    if (t) *t = v;
    return v;
}
// ---------------------------------------------------------------- network
struct Con { std::string name; A *a; long long last; bool ok; };
static std::map<std::string, Con> cons;
static std::map<std::string, A *> ports;
struct Do { std::string what, name, x, y; };
static std::deque<Do> todo;
static bool poked = false, going = false;
static Con *find(A *a)
{
    for (std::map<std::string, Con>::iterator i = cons.begin(); i != cons.end(); ++i)
        if (i->second.a == a) return &i->second;
    return 0;
}
static long long due(Con **which = 0)       // the next idle time
{
    long long d = -1;
    for (std::map<std::string, Con>::iterator i = cons.begin(); i != cons.end(); ++i) {
        Con &c = i->second;
        if (!c.a || !c.a->net_open() || c.a->net_timeout() < 0) continue;
        long long t = c.last + c.a->net_timeout() * 1000000000LL;
        if (d < 0 || t < d) { d = t; if (which) *which = &c; }
    }
    return d;
}
static hx::Rec cev(const char *op, const std::string &c) { return fz::ev(op).str("c", c); }
static int on_listen(A *a)
{
    ports[a->net_addr()] = a;
    if (fz::tr.open) fz::tr.op(fz::ev("listen").str("a", a->net_addr()));
    return 0;
}
static void on_send(A *a, const std::string &data)
{
    Con *c = find(a);
    if (!c) return;
    c->last = sched::now;
    ODR dec = odr_createmem(ODR_DECODE);
    odr_setbuf(dec, (char *) data.data(), data.length(), 0);
    Z_GDU *g = 0;
    if (!z_GDU(dec, &g, 0, 0)) fz::tr.op(cev("junk", c->name));
    else fz::tr.op(cev("sent", c->name).raw("r", fz::to_json(g)));
    odr_destroy(dec);
}
static std::string leaving;
static void on_close(A *a)
{
    for (std::map<std::string, A *>::iterator i = ports.begin(); i != ports.end(); ++i)
        if (i->second == a) {
            if (going) fz::tr.op(fz::ev("unlisten").str("a", i->first));
            ports.erase(i);
            return;
        }
    Con *c = find(a);
    if (c && c->name != leaving) fz::tr.op(cev("disc", c->name));
}
static void on_destroy(A *a)
{
    Con *c = find(a);
    if (!c) return;
    if (c->ok) fz::tr.op(cev("gone", c->name));
    c->a = 0;
}
static std::string enc(const std::string &j)
{
    ODR o = odr_createmem(ODR_ENCODE);
    mp::odr odr;
    Z_GDU *g = fz::from_json(odr, fz::json(j));
    std::string s;
    if (z_GDU(o, &g, 0, 0)) { int len; char *b = odr_getbuf(o, &len, 0); s.assign(b, len); }
    odr_destroy(o);
    return s;
}
static std::string canon(const std::string &d)      // what of it arrives
{
    ODR dec = odr_createmem(ODR_DECODE);
    odr_setbuf(dec, (char *) d.data(), d.length(), 0);
    Z_GDU *g = 0;
    std::string s = z_GDU(dec, &g, 0, 0) ? fz::to_json(g) : "{\"t\":\"junk\"}";
    odr_destroy(dec);
    return s;
}
static bool idle(yazpp_1::SocketManager *)
{
    Con *c = 0;
    long long d = due(&c);
    if (d >= 0 && d <= sched::now) {
        c->last = sched::now;
        fz::tr.op(cev("deliver", c->name).str("k", "timeout").raw("r", "{\"t\":\"none\"}"));
        c->a->net_push(shimnet::TIMEOUT, "");
        return true;
    }
    if (todo.empty() || sched::rng() % 3 == 0) return false;
    Do t = todo.front();
    todo.pop_front();
    if (t.what == "conn") {
        if (!ports.count(t.x)) { fz::tr.op(cev("unheard", t.name)); return true; }
        Con &n = cons[t.name];
        n.name = t.name; n.a = 0; n.last = sched::now; n.ok = false;
        // the session of a connection is the one made for it
        unsigned long before, after;
        { mp::Session s; before = s.id(); }
        A *a = ports[t.x]->net_accept(t.y == "-" ? 0 : t.y.c_str());
        { mp::Session s; after = s.id(); }
        unsigned long id = after == before + 2 ? before + 1 : 0;
        if (id && a) { int k = fz::sess_no.size() + 1; fz::sess_no[id] = k; }
        n.a = a; n.ok = a != 0;
        fz::tr.op(cev("acc", t.name).str("a", t.x).str("peer", t.y).boolean("ok", a != 0).num("s", id && a ? fz::sess_no[id] : 0));
        return true;
    }
    if (!cons.count(t.name)) return true;
    Con &c2 = cons[t.name];
    if (!c2.a || !c2.a->net_open()) return true;
    c2.last = sched::now;
    if (t.what == "hang") {
        fz::tr.op(cev("deliver", t.name).str("k", "fail").raw("r", "{\"t\":\"none\"}"));
        leaving = t.name;
        c2.a->net_push(shimnet::FAIL, "");
    } else {
        std::string d = t.what == "junk" ? "junk" : enc(t.x);
        if (t.what == "junk") leaving = t.name;
        fz::tr.op(cev("deliver", t.name).str("k", t.what == "junk" ? "fail" : "recv").raw("r", canon(d)));
        c2.a->net_push(shimnet::RECV, d);
    }
    return true;
}
extern "C" int poll(struct pollfd *f, nfds_t n, int timeout)
{
    typedef int (*F)(struct pollfd *, nfds_t, int);
    static F p = (F) dlsym(RTLD_NEXT, "poll");
    if (!sched::managed() || timeout == 0) return p(f, n, timeout);
    leaving = "";
    long long d = due(), t = timeout < 0 ? -1 : timeout * 1000000LL;
    if (d >= 0) { d = d > sched::now ? d - sched::now : 0; if (t < 0 || d < t) t = d; }
    if (t != 0) sched::wait_for([=] { return poked || !todo.empty() || p(f, n, 0) > 0; }, t);
    poked = false;
    return p(f, n, 0);
}
extern "C" void yaz_daemon_stop(void) { if (fz::tr.open) fz::tr.op(fz::ev("daemonstop")); }
// ---------------------------------------------------------------- metaproxy
static mp::filter::Base *mkbk() { return new fz::Bk; }
static mp::RouterFleXML *router = 0;
static xmlDoc *doc = 0;
static bool returned = false;
static void *serve(void *)
{
    mp::Package p;
    p.router(*router).move();
    returned = true;
    fz::tr.op(fz::ev("returned"));
    return 0;
}
static pthread_t th;
static void stuck(const char *w)
{
    if (fz::tr.open) fz::tr.op(hx::Rec().str("op", "stuck").str("what", w));
    _exit(97);
}
static void on_alarm(int) { _exit(97); }
static void watch()
{
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = 20;
    setitimer(ITIMER_PROF, &t, 0);
    t.it_value.tv_sec = 100;
    setitimer(ITIMER_REAL, &t, 0);
}
static void add(const char *what, const std::vector<std::string> &v)
{
    Do d;
    d.what = what; d.name = v[0];
    if (v.size() > 1) d.x = v[1];
    if (v.size() > 2) d.y = v[2];
    todo.push_back(d);
    sched::yield();
}
int main(int, char **)
{
    yaz_log_init_level(0);
    sched::stuck = stuck;
    std::string line;
    signal(SIGALRM, on_alarm);
    signal(SIGPROF, on_alarm);
    mp::FactoryStatic factory;
    factory.add_creator("bk", mkbk);
    shimnet::hooks.on_listen = on_listen; shimnet::hooks.on_send = on_send; shimnet::hooks.on_close = on_close;
    shimnet::hooks.on_destroy = on_destroy; shimnet::hooks.on_idle = idle;
    fz::addrs() = true;
    while (std::getline(std::cin, line)) {
        size_t sp = line.find(' ');
        std::string cmd = line.substr(0, sp), rest = sp == std::string::npos ? "" : line.substr(sp + 1);
        std::vector<std::string> v = hx::tokens(rest);
        if (cmd == "trace") {
            fz::sess_no.clear(); fz::bks.clear(); cons.clear(); ports.clear(); todo.clear();
            returned = poked = going = false; leaving = "";
            watch();
            fz::tr.begin();
            sched::begin(atoi(v[0].c_str()), atoi(v[1].c_str()));
            fz::bk_pause = sched::yield;
        } else if (cmd == "end") {
            if (router && going) {
                if (!returned) sched::wait_for([] { return returned; }, 3600 * 1000000000LL);
                if (!returned) fz::tr.op(fz::ev("busy"));
            }
            fz::tr.op(fz::ev("fin"));
            bool all = true;                 // of a stopped server something may be left, it then stays
            for (std::map<std::string, Con>::iterator i = cons.begin(); i != cons.end(); ++i) if (i->second.a) all = false;
            if (all && (!going || returned)) {
                if (going) pthread_join(th, 0);
                going = false;
                delete router;
                if (doc) xmlFreeDoc(doc);
            }
            going = false;
            router = 0; doc = 0;
            sched::end(); fz::bk_pause = 0;
            fz::tr.end();
        } else if (cmd == "config") {
            bool ok = true; std::string err, x = hx::unhex(rest);
            doc = xmlParseMemory(x.data(), x.length());
            try {
                router = new mp::RouterFleXML(doc, factory, false, 0);
                router->start();
            } catch (std::exception &e) { ok = false; err = e.what(); router = 0; }
            fz::tr.op(hx::Rec().str("op", "config").boolean("ok", ok).str("err", err));
        } else if (cmd == "params") fz::tr.op(hx::Rec().str("op", "params").raw("p", rest));
        else if (cmd == "bk" || cmd == "push") {
            size_t k = rest.find(' ');
            fz::BkState &b = fz::bks[rest.substr(0, k)];
            if (cmd == "bk") b.def = fz::json(rest.substr(k + 1)); else b.queue.push_back(fz::json(rest.substr(k + 1)));
        } else if (cmd == "run") { if (router) { going = true; pthread_create(&th, 0, serve, 0); } }
        else if (!going) ;
        else if (cmd == "conn" || cmd == "hang" || cmd == "junk") add(cmd.c_str(), v);
        else if (cmd == "send") {
            size_t k = rest.find(' ');
            add("send", {rest.substr(0, k), rest.substr(k + 1)});
        } else if (cmd == "pause") sched::pause_for(atoi(v[0].c_str()) * 1000000LL);
        else if (cmd == "settle") sched::wait_for([] { return todo.empty() || returned; }, 3600 * 1000000000LL);
        else if (cmd == "signal") {
            fz::tr.op(fz::ev("signal").str("k", v[0]));
            router->stop(v[0] == "TERM" ? SIGTERM : v[0] == "USR1" ? SIGUSR1 : SIGHUP);
            poked = true;
        } else { fprintf(stderr, "bad command %s\n", cmd.c_str()); return 9; }
    }
    return 0;
}
