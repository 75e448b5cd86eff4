// Loads configurations and follows the life of the filters in them.
//   load <test 0/1> <path hex or -> <types,..> <tree json hex> <xml hex>
//   walk <route hex> | start | stop <sig> | destroy | chain <sig> n n n
#include "hx.hpp"
#include <map>
#include <memory>
#include <metaproxy/filter.hpp>
#include <metaproxy/router_chain.hpp>
#include <metaproxy/xmlutil.hpp>
#include "router_flexml.hpp"
#include "factory_filter.hpp"
#include "factory_static.hpp"
#include <metaproxy/router_xml.hpp>
#include <yaz/log.h>
#include <libxml/parser.h>
#include <algorithm>
namespace mp = metaproxy_1;

struct Call { std::string what; int mk; int sig; };
static std::vector<Call> calls;
static int alive = 0;
static std::string made, tests;

class Mock : public mp::filter::Base {
public:
    std::string m_type;
    int mk;
    int configured;
    Mock(const char *t) : m_type(t), mk(0), configured(0) { alive++; }
    ~Mock() { alive--; Call c = { "destroy", mk, 0 }; calls.push_back(c); }
    void process(mp::Package &p) const { }
    void configure(const xmlNode *n, bool test_only, const char *path) {
        configured++;
        mk = -1;
        for (const xmlNode *p = n->children; p; p = p->next)
            if (p->type == XML_ELEMENT_NODE && !strcmp((const char *) p->name, "m") && p->properties)
                mk = atoi((const char *) p->properties->children->content);
        if (configured > 1) mk = -2;
        made += (made.length() ? "," : "") + std::string("[") + hx::q(m_type) + "," + std::to_string(mk) + "]";
        tests += (tests.length() ? "," : "") + std::string(test_only ? "true" : "false");
    }
    void start() const { Call c = { "start", mk, 0 }; calls.push_back(c); }
    void stop(int s) const { Call c = { "stop", mk, s }; calls.push_back(c); }
};
template <int N> struct T { static const char *name; static mp::filter::Base *mk() { return new Mock(name); } };
template <> const char *T<0>::name = "ta";
template <> const char *T<1>::name = "tb";
template <> const char *T<2>::name = "t";

static std::string seq(const char *what, int *sigs_n = 0, std::string *sigs = 0)
{
    std::string s = "[", g = "[";
    for (auto &c : calls)
        if (c.what == what) {
            s += (s.length() > 1 ? "," : "") + std::to_string(c.mk);
            g += (g.length() > 1 ? "," : "") + std::to_string(c.sig);
        }
    if (sigs) *sigs = g + "]";
    return s + "]";
}

// RouterXML takes its filters from FactoryStatic: here it has those of the mocks
static std::vector<std::string> static_types;
static void add_types(mp::FactoryFilter &f)
{
    for (auto &t : static_types)
        f.add_creator(t, t == "ta" ? T<0>::mk : t == "tb" ? T<1>::mk : T<2>::mk);
}
mp::FactoryStatic::FactoryStatic() { add_types(*this); }

static void quiet(void *, const char *, ...) { }

int main(int argc, char **argv)
{
    yaz_log_init_level(0);
    xmlSetGenericErrorFunc(0, quiet);
    std::string line;
    hx::Trace tr;
    std::unique_ptr<mp::Router> router;
    while (std::getline(std::cin, line)) {
        std::vector<std::string> v = hx::tokens(line);
        if (v.empty()) continue;
        if (v[0] == "trace") { tr.begin(); continue; }
        if (v[0] == "end") { router.reset(); calls.clear(); tr.end(); continue; }
        hx::Rec r;
        r.str("op", v[0]);
        calls.clear();
        if (v[0] == "load") {
            mp::FactoryFilter f;
            bool pub = hx::unhex(v[5]).length() % 2;      // the public class, or what it wraps
            static_types.clear();
            std::string types;
            std::istringstream is(v[3]);
            std::string t;
            while (std::getline(is, t, ',')) {
                static_types.push_back(t);
                types += (types.length() ? "," : "") + hx::q(t);
            }
            add_types(f);
            router.reset();
            made = tests = "";
            bool ok = false, test = v[1] == "1";
            std::string xml = hx::unhex(v[5]);
            // stdout carries the trace
            fflush(stdout);
            std::streambuf *sb = std::cout.rdbuf(0);
            try {
                if (v[2] == "-")
                    router.reset(pub ? (mp::Router *) new mp::RouterXML(xml, test)
                                 : new mp::RouterFleXML(xml, f, test));
                else {
                    xmlDocPtr doc = xmlParseMemory(xml.c_str(), xml.length());
                    std::string path = hx::unhex(v[2]);
                    try {
                        const char *ip = path == "0" ? 0 : path.c_str();
                        router.reset(pub ? (mp::Router *) new mp::RouterXML(doc, test, ip)
                                     : new mp::RouterFleXML(doc, f, test, ip));
                    } catch (...) { xmlFreeDoc(doc); throw; }
                    xmlFreeDoc(doc);
                }
                ok = true;
            } catch (std::exception &) {
            }
            std::cout.rdbuf(sb);
            r.boolean("test", test).raw("types", "[" + types + "]").raw("tree", hx::unhex(v[4]))
                .boolean("ok", ok).raw("made", "[" + (ok ? made : "") + "]")
                .raw("tests", "[" + (ok ? tests : "") + "]").num("alive", alive);
        } else if (v[0] == "walk") {
            std::string route = hx::unhex(v[1]);
            r.str("route", route);
            std::unique_ptr<mp::RoutePos> p(router->createpos());
            std::string s;
            int n = 0;
            const mp::filter::Base *f = p->move(route.length() ? route.c_str() : 0);
            while (f && n++ < 1000) {
                const Mock *m = dynamic_cast<const Mock *>(f);
                s += (s.length() ? "," : "") + std::to_string(m ? m->mk : -3);
                f = p->move(0);
            }
            r.raw("res", "[" + s + "]");
        } else if (v[0] == "start") {
            router->start();
            r.raw("seq", seq("start")).raw("sigs", "[]").num("sig", 0);
        } else if (v[0] == "stop") {
            router->stop(atoi(v[1].c_str()));
            std::string g;
            r.raw("seq", seq("stop", 0, &g));
            r.raw("sigs", g).num("sig", atoi(v[1].c_str()));
        } else if (v[0] == "destroy") {
            router.reset();
            r.raw("seq", seq("destroy"));
        } else if (v[0] == "chain") {
            mp::RouterChain c;
            std::map<int, std::unique_ptr<Mock>> ms;
            std::string list = "[";
            for (size_t i = 2; i < v.size(); i++) {
                int n = atoi(v[i].c_str());
                if (!ms[n]) { ms[n].reset(new Mock("t")); ms[n]->mk = n; }
                c.append(*ms[n]);
                list += (list.length() > 1 ? "," : "") + v[i];
            }
            int sig = atoi(v[1].c_str());
            c.start();
            c.stop(sig);
            std::string g;
            r.raw("list", list + "]").raw("starts", seq("start")).raw("stops", seq("stop", 0, &g));
            r.raw("sigs", g).num("sig", sig);
        }
        tr.op(r);
    }
    return 0;
}
