// Drives a configured router (any filters, scripted back ends) with requests
// of several client sessions, one at a time, and records both sides.
#define SCHED_IMPL
#include "fz.hpp"
#include "net.hpp"
#include <metaproxy/router_xml.hpp>
#include "router_flexml.hpp"
#include "factory_static.hpp"
#include <sys/time.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <dlfcn.h>
#include <yaz/rpn2cql.h>
#include <yaz/record_conv.h>
namespace mp = metaproxy_1;
#include "web.hpp"
#include "cgi.hpp"
hx::Trace fz::tr;
bool fz::timed = false;
thread_local int fz::curq = 0;
namespace fz { static int lastq = 0; }
std::map<unsigned long, int> fz::sess_no;
std::map<std::string, fz::BkState> fz::bks;
void (*fz::bk_pause)() = 0;
void (*fz::bk_nested)(const std::string &, const fz::J &) = 0;
// ------------------------------------------------------- virtual time
static long long vtime = 1700000000;
static bool virt = false;
extern "C" time_t time(time_t *t) noexcept
{
    time_t v;
    if (sched::managed()) v = sched::now / 1000000000LL;
    else if (virt) v = vtime;
    else { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    if (t) *t = v;
    return v;
}
extern "C" unsigned int sleep(unsigned int n)
{
    if (fz::tr.open) fz::tr.op(hx::Rec().str("op", "sleep").num("n", n));
    if (sched::managed()) sched::pause_for(n * 1000000000LL);
    else vtime += n;
    return 0;
}
// memory not initialised is seen to be so
extern "C" const char *__asan_default_options() { return "malloc_fill_byte=17:max_malloc_fill_size=65536"; }
// what the program asks the YAZ library for: buffers it has not given back
// yet, and the error of a conversion, before which other threads may run
static int live_wrbufs = 0, live_base = 0;
template <class F> static F yaz_real(const char *name) { return (F) dlsym(RTLD_NEXT, name); }
extern "C" {
WRBUF wrbuf_alloc(void)
{
    static WRBUF (*f)(void) = yaz_real<WRBUF (*)(void)>("wrbuf_alloc");
    __atomic_add_fetch(&live_wrbufs, 1, __ATOMIC_RELAXED);
    return f();
}
void wrbuf_destroy(WRBUF b)
{
    static void (*f)(WRBUF) = yaz_real<void (*)(WRBUF)>("wrbuf_destroy");
    if (b) __atomic_sub_fetch(&live_wrbufs, 1, __ATOMIC_RELAXED);
    f(b);
}
int cql_transform_error(cql_transform_t ct, const char **addinfo)
{
    static int (*f)(cql_transform_t, const char **) = yaz_real<int (*)(cql_transform_t, const char **)>("cql_transform_error");
    static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
    pthread_mutex_lock(&m);
    pthread_mutex_unlock(&m);
    return f(ct, addinfo);
}
// likewise
const char *yaz_record_conv_get_error(yaz_record_conv_t rc)
{
    static const char *(*f)(yaz_record_conv_t) = yaz_real<const char *(*)(yaz_record_conv_t)>("yaz_record_conv_get_error");
    static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
    pthread_mutex_lock(&m);
    pthread_mutex_unlock(&m);
    return f(rc);
}
}
// ------------------------------------------------------- log files
struct LogFile { std::string name; long at; };
static std::vector<LogFile> logs;
static std::string logdir;
static void read_logs()          // what has been written since is part of the history
{
    static bool busy = false;
    if (busy) return;
    busy = true;
    fflush(0);
    for (size_t i = 0; i < logs.size(); i++) {
        FILE *f = fopen((logdir + "/" + logs[i].name).c_str(), "r");
        if (!f) continue;
        fseek(f, logs[i].at, SEEK_SET);
        std::string t;
        int c;
        while ((c = getc(f)) != EOF) t += (char) c;
        logs[i].at += t.length();
        fclose(f);
        if (!fz::tr.open) continue;
        for (size_t p = 0; p < t.length(); ) {
            size_t e = t.find('\n', p);
            std::string x = t.substr(p, e - p), k;
            size_t l = x.length();
            if (!x.compare(0, 2, "T ") || x[0] == 'M')            // an entry
                fz::tr.op(hx::Rec().str("op", e == std::string::npos ? "part" : "line").str("f", logs[i].name).str("x", x));
            else if (x[0] != ' ' && l > 2 && !x.compare(l - 2, 2, " {")) k = x.substr(0, l - 2);      // a package in full
            else if (!x.compare(0, 8, "-- HTTP ")) k = x.substr(3, l - 4);
            if (k.length()) fz::tr.op(hx::Rec().str("op", "dump").str("f", logs[i].name).str("x", k));
            p = e == std::string::npos ? t.length() : e + 1;
        }
    }
    busy = false;
}
static void clean_logs()
{
    for (size_t i = 0; i < logs.size(); i++) unlink((logdir + "/" + logs[i].name).c_str());
    if (logdir.length() && !chdir("..")) rmdir(logdir.c_str());
}
static mp::filter::Base *mkbk() { return new fz::Bk; }
struct Client { std::shared_ptr<mp::Session> s; std::shared_ptr<mp::Origin> o; int busy; bool ended; long oid; Client() : busy(0), ended(false), oid(0) {} };
static bool both = false;        // several requests of a client at a time
static std::map<std::string, Client> cl;
static mp::Router *router = 0;
static xmlDoc *doc = 0;          // kept as long as the router, as metaproxy does
// one request of a client (J of type Nul: the client goes away)
static void request(const std::string &name, const fz::J &j)
{
    Client &c = cl[name];
    if (!router || (c.busy && !both) || (c.busy && c.ended)) return;
    bool drop = j.t == fz::J::Nul;
    if (drop && c.busy) return;          // goes when it has no requests left
    c.busy++;
    if (drop) c.ended = true;
    int tag = sched::tag();
    if (!c.s) {
        std::shared_ptr<mp::Session> n(new mp::Session);      // others may run meanwhile
        if (!c.s) c.s = n;
        if (!fz::timed || !c.o) c.o.reset(new mp::Origin);
    }
    std::shared_ptr<mp::Session> cs = c.s;
    std::shared_ptr<mp::Origin> co = c.o;
    {
    mp::Package p(*cs, *co);
    mp::odr odr;
    Z_GDU *g = drop ? 0 : fz::from_json(odr, j);
    if (g) p.request() = g;
    if (drop) p.session().close();
    int s = fz::sno(*cs);
    if (sched::managed()) sched::self->tag = s;
    int id = fz::curq = ++fz::lastq;
    hx::Rec ce = fz::ev("creq");
    if (fz::texts) ce.str("who", name).num("sid", cs->id()).num("oid", c.oid);
    fz::tr.op(ce.num("s", s).boolean("closed", p.session().is_closed())
              .num("sz", p.request().get_size()).raw("r", fz::to_json(p.request().get())));
    try {
        p.router(*router).move();
        // filters before these may look at the request again, as log does
        if (fz::to_json(p.request().get()).empty()) abort();
        fz::curq = id;
        fz::tr.op(fz::ev("cresp").num("s", s).boolean("closed", p.session().is_closed())
              .num("sz", p.response().get_size()).raw("r", fz::to_json(p.response().get())));
    } catch (std::exception &e) {
        fz::tr.op(hx::Rec().str("op", "threw").num("s", s).str("what", e.what()));
    }
    fz::curq = 0;
    if (p.session().is_closed()) c.ended = true;
    if (!--c.busy && c.ended) {
        if (!drop && fz::timed) request(name, fz::J());      // announced once more, see below
        else if (!drop) {
            // what frontend_net does: a closed session is announced once more
            c.busy++;
            cs->close();
            mp::Package q(*cs, *co);
            q.session().close();
            q.router(*router).move();
            c.busy--;
        }
        c.s.reset();
        c.ended = false;
    }
    }
    if (sched::managed()) sched::self->tag = tag;
}
// clients at work at the same time, each with requests of its own
struct Job { std::string name; std::vector<fz::J> reqs; };
static void *work(void *p)
{
    Job *j = (Job *) p;
    for (size_t i = 0; i < j->reqs.size(); i++) request(j->name, j->reqs[i]);
    return 0;
}
static std::map<std::string, Job> jobs;
static bool par = false;
static void run_jobs()
{
    std::vector<pthread_t> th;
    for (std::map<std::string, Job>::iterator it = jobs.begin(); it != jobs.end(); ++it) cl[it->first];
    for (std::map<std::string, Job>::iterator it = jobs.begin(); it != jobs.end(); ++it) {
        pthread_t t;
        pthread_create(&t, 0, work, &it->second);
        th.push_back(t);
    }
    for (size_t i = 0; i < th.size(); i++) pthread_join(th[i], 0);
    jobs.clear();
}
static void stuck(const char *w)
{
    if (fz::tr.open) fz::tr.op(hx::Rec().str("op", "stuck").str("what", w));
    _exit(97);
}
static void on_alarm(int) { _exit(97); }
static void watch()          // CPU time: a loop; real time: a deadlock
{
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = 20;
    setitimer(ITIMER_PROF, &t, 0);
    t.it_value.tv_sec = 100;
    setitimer(ITIMER_REAL, &t, 0);
}
int main(int argc, char **argv)
{
    yaz_log_init_level(0);
    virt = true;
    std::cout.rdbuf(std::cerr.rdbuf());       // some filters say things
    sched::stuck = stuck;
    std::string line;
    signal(SIGALRM, on_alarm);
    signal(SIGPROF, on_alarm);
    fz::bk_nested = request;
    mp::FactoryStatic factory;
    factory.add_creator("bk", mkbk);
    while (std::getline(std::cin, line)) {
        size_t sp = line.find(' ');
        std::string cmd = line.substr(0, sp), rest = sp == std::string::npos ? "" : line.substr(sp + 1);
        if (cmd == "trace") {
            fz::sess_no.clear(); fz::bks.clear(); cl.clear();
            delete router; router = 0;
            if (doc) xmlFreeDoc(doc);
            doc = 0;
            vtime = 1700000000;
            fz::timed = both = false; fz::lastq = 0;
            web::answers().clear();
            cgi::begin();
            watch();
            fz::tr.begin();
            std::vector<std::string> v = hx::tokens(rest);
            if (v.size() == 2) {             // trace <seed> <strategy>: threads are scheduled
                sched::begin(atoi(v[0].c_str()), atoi(v[1].c_str()));
                fz::bk_pause = sched::yield;
                net::begin();
            }
        } else if (cmd == "end") {
            fz::tr.op(hx::Rec().str("op", "fin"));
            cl.clear();
            delete router; router = 0;
            if (doc) xmlFreeDoc(doc);
            doc = 0;
            if (sched::on) { sched::end(); fz::bk_pause = 0; }
            fz::tr.end();
        } else if (cmd == "config") {
            bool ok = true; std::string err;
            std::string x = hx::unhex(rest);
            doc = xmlParseMemory(x.data(), x.length());
            try {
                router = new mp::RouterFleXML(doc, factory, false, 0);
                router->start();
            } catch (std::exception &e) { ok = false; err = e.what(); router = 0; }
            fz::tr.op(hx::Rec().str("op", "config").boolean("ok", ok).str("err", err));
        } else if (cmd == "params") {            // facts of the script the specification needs
            fz::tr.op(hx::Rec().str("op", "params").raw("p", rest));
        } else if (cmd == "bk") {
            size_t k = rest.find(' ');
            fz::bks[rest.substr(0, k)].def = fz::json(rest.substr(k + 1));
        } else if (cmd == "push") {
            size_t k = rest.find(' ');
            fz::bks[rest.substr(0, k)].queue.push_back(fz::json(rest.substr(k + 1)));
        } else if (cmd == "web") web::answers().push_back(fz::json(rest));        // what the next URL gives
        else if (cmd == "nopipe") cgi::nopipe() = atoi(rest.c_str());
        else if (cmd == "nofork") cgi::nofork() = atoi(rest.c_str());
        else if (cmd == "slow") cgi::slow() = true;
        else if (cmd == "procs") fz::tr.op(fz::ev("procs").num("fds", cgi::fds() - cgi::base())
                                           .num("kids", waitpid(-1, 0, WNOHANG) == -1 && errno == ECHILD ? 0 : 1));
        else if (cmd == "urls") fz::tr.op(fz::ev("urls").num("n", web::open()));        // those not given back
        else if (cmd == "time") {
            if (sched::managed()) sched::pause_for(atoi(rest.c_str()) * 1000000000LL);
            else vtime += atoi(rest.c_str());
            fz::tr.op(fz::ev("time").num("n", atoi(rest.c_str())));
        } else if (cmd == "client") {            // client <name> <peer>
            std::vector<std::string> v = hx::tokens(rest);
            Client &c = cl[v[0]];
            c.s.reset(new mp::Session);
            c.o.reset(new mp::Origin);
            c.o->set_tcpip_address(v.size() > 1 ? v[1] : "127.0.0.1", c.s->id());
        } else if (cmd == "origin") {            // origin <name> <peer> <bind> [<max-sockets>]
            std::vector<std::string> v = hx::tokens(rest);
            Client &c = cl[v[0]];
            c.s.reset(new mp::Session);
            c.o.reset(new mp::Origin);
            c.o->set_tcpip_address(v[1] + " " + v[2], c.oid = c.s->id());
            if (v.size() > 3) c.o->set_max_sockets(atoi(v[3].c_str()));
        } else if (cmd == "req" || cmd == "drop") {
            size_t k = rest.find(' ');
            fz::J j = cmd == "req" ? fz::json(rest.substr(k + 1)) : fz::J();
            if (par) {
                std::string n = rest.substr(0, k);
                Job &b = jobs[both && cmd == "req" && fz::lastq++ % 2 ? n + "#" : n]; b.name = rest.substr(0, k); b.reqs.push_back(j);
            }
            else request(rest.substr(0, k), j);
        } else if (cmd == "logs") {              // logs <file> ...: in a directory of our own
            fz::texts = true;
            if (logdir.empty()) {
                char d[] = "./logXXXXXX", c[4096];
                if (!mkdtemp(d) || chdir(d) || !getcwd(c, sizeof c)) return 9;
                logdir = c;
                atexit(clean_logs);
                yaz_log_init_file((logdir + "/yaz").c_str());
                yaz_log_init_level(YLOG_LOG);
                yaz_log_time_format("T");
                std::vector<std::string> v = hx::tokens(rest);
                for (size_t i = 0; i < v.size(); i++) { LogFile f = {v[i], 0}; logs.push_back(f); }
                fz::tr.before = read_logs;
            }
        } else if (cmd == "live") {              // first: from here on; then: what there is since
            if (rest == "0") live_base = live_wrbufs;
            else fz::tr.op(fz::ev("live").num("n", live_wrbufs - live_base));
        } else if (cmd == "trees") fz::trees = rest == "1";
        else if (cmd == "timed") { fz::timed = true; both = rest == "both"; }
        else if (cmd == "onconn" || cmd == "onsent") {   // onconn <address> <what>
            size_t k = rest.find(' ');
            net::Plan &n = net::plans()[rest.substr(0, k)];
            (cmd == "onconn" ? n.conn : n.sent).push_back(fz::json(rest.substr(k + 1)));
        } else if (cmd == "stop") {              // metaproxy goes down
            fz::tr.op(fz::ev("stop"));
            delete router; router = 0;
        } else if (cmd == "par") par = true;
        else if (cmd == "join") {
            run_jobs(); par = false;
        } else { fprintf(stderr, "bad command %s\n", cmd.c_str()); return 9; }
    }
    return 0;
}
