// Drives routers, positions and packages with scripts, and records what the
// code did.  Also loads whole configurations (h_router load).
#include "hx.hpp"
#include <map>
#include <memory>
#include <metaproxy/package.hpp>
#include <metaproxy/router_chain.hpp>
#include <metaproxy/router_xml.hpp>
#include <metaproxy/xmlutil.hpp>
#include "router_flexml.hpp"
#include "factory_filter.hpp"
#include "factory_static.hpp"
#include <yaz/zgdu.h>
#include <yaz/log.h>
namespace mp = metaproxy_1;

static hx::Trace tr;
static void interp();
static std::vector<std::string> script;
static size_t at = 0;
static bool next(std::string &line)
{
    if (at >= script.size()) return false;
    line = script[at++];
    return true;
}
static std::map<const mp::Package *, int> pk_no;

class Mock : public mp::filter::Base {
public:
    std::string m_name;
    std::string m_type;
    mutable int starts;
    Mock(std::string name) : m_name(name), starts(0) {}
    void process(mp::Package &p) const {
        int k = pk_no.count(&p) ? pk_no[&p] : 0;
        tr.op(hx::Rec().str("op", "enter").num("k", k).str("f", m_name));
        interp();
        tr.op(hx::Rec().str("op", "leave").num("k", k).str("f", m_name));
    }
    void configure(const xmlNode *n, bool test_only, const char *path) {
        for (const struct _xmlAttr *a = n->properties; a; a = a->next)
            if (!strcmp((const char *) a->name, "id"))
                m_name = (const char *) a->children->content;
    }
};
static mp::filter::Base *mk() { return new Mock("?"); }

static std::map<int, std::unique_ptr<mp::RoutePos>> pos;
static std::map<int, std::unique_ptr<mp::Package>> pk;
static std::map<int, unsigned long> ses;
static mp::Router *router;

static std::string gdu_text(yazpp_1::GDU &g)
{
    Z_GDU *z = g.get();
    if (!z) return "";
    if (z->which == Z_GDU_HTTP_Request) return z->u.HTTP_Request->path;
    return "?";
}
static void gdu_set(yazpp_1::GDU &g, const std::string &s)
{
    ODR o = odr_createmem(ODR_ENCODE);
    Z_GDU *z = z_get_HTTP_Request(o);
    z->u.HTTP_Request->path = odr_strdup(o, s.c_str());
    g = z;
    odr_destroy(o);
}

static void interp()
{
    std::string line;
    while (next(line)) {
        std::vector<std::string> v = hx::tokens(line);
        if (v.empty()) continue;
        if (v[0] == "end") {
            at--;                 // seen by every frame
            return;
        }
        if (v[0] == "ret") return;
        int a = v.size() > 1 ? atoi(v[1].c_str()) : 0;
        int b = v.size() > 2 ? atoi(v[2].c_str()) : 0;
        std::string t = v.size() > 2 ? v[2] : "";
        hx::Rec r;
        r.str("op", v[0]);
        if (v[0] == "pos") { pos[a].reset(router->createpos()); r.num("p", a); }
        else if (v[0] == "clone") { pos[b].reset(pos[a]->clone()); r.num("p", a).num("q", b); }
        else if (v[0] == "drop") { pos.erase(a); r.num("p", a); }
        else if (v[0] == "move") {
            const mp::filter::Base *f = pos[a]->move(t.length() ? t.c_str() : 0);
            const Mock *m = dynamic_cast<const Mock *>(f);
            r.num("p", a).str("route", t).str("res", f ? m ? m->m_name : "?" : "-");
        }
        else if (v[0] == "pkg") {
            mp::Session s;
            mp::Origin o;
            pk[a].reset(new mp::Package(s, o));
            pk_no[pk[a].get()] = a;
            ses[a] = s.id();
            r.num("k", a);
        }
        else if (v[0] == "router") { pk[a]->router(*router); r.num("k", a); }
        else if (v[0] == "copy") { pk[b]->copy_filter(*pk[a]); r.num("k", a).num("m", b); }
        else if (v[0] == "croute") { pk[b]->copy_route(*pk[a]); r.num("k", a).num("m", b); }
        else if (v[0] == "pmove") {
            r.num("k", a).str("route", t);
            tr.op(r);
            if (t.length()) pk[a]->move(t); else if (a & 1) pk[a]->move(); else pk[a]->move("");
            tr.op(hx::Rec().str("op", "pret").num("k", a));
            continue;
        }
        else if (v[0] == "setreq") { gdu_set(pk[a]->request(), t); r.num("k", a).str("txt", t); }
        else if (v[0] == "setresp") { gdu_set(pk[a]->response(), t); r.num("k", a).str("txt", t); }
        else if (v[0] == "close") { pk[a]->session().close(); r.num("k", a); }
        else if (v[0] == "look") {
            int who = 0;
            for (auto &x : ses) if (x.second == pk[a]->session().id()) who = x.first;
            r.num("k", a).str("req", gdu_text(pk[a]->request()))
                .str("resp", gdu_text(pk[a]->response()))
                .boolean("closed", pk[a]->session().is_closed()).num("ses", who);
        }
        else if (v[0] == "logen") { pk[a]->log_enable(); r.num("k", a); }
        else if (v[0] == "logw") { pk[a]->log_write(t.c_str(), t.length()); r.num("k", a).str("txt", t); }
        else if (v[0] == "log") { pk[a]->log(t.c_str(), 0, "%s", v[3].c_str()); r.num("k", a).str("mod", t).str("txt", v[3]); }
        else if (v[0] == "logreset") {
            std::string res = "\001";
            pk[a]->log_reset(res);
            bool had = res != "\001";
            r.num("k", a).boolean("had", had).str("txt", had ? res : "");
        }
        else continue;
        tr.op(r);
    }
}

// RouterXML takes its filters from FactoryStatic
mp::FactoryStatic::FactoryStatic() { add_creator("t", mk); }

int main(int argc, char **argv)
{
    yaz_log_init_level(0);
    std::string line;
    while (std::getline(std::cin, line)) script.push_back(line);
    std::map<std::string, std::unique_ptr<Mock>> chainf;
    while (next(line)) {
        std::vector<std::string> v = hx::tokens(line);
        if (v.empty()) continue;
        if (v[0] == "chain") {              // chain <json header> f f f
            mp::RouterChain *c = new mp::RouterChain;
            chainf.clear();
            for (size_t i = 2; i < v.size(); i++) {
                if (!chainf[v[i]]) chainf[v[i]].reset(new Mock(v[i]));
                c->append(*chainf[v[i]]);
            }
            router = c;
            tr.begin(hx::unhex(v[1]));
            interp();
        } else if (v[0] == "flexml") {      // flexml <json header> <xml>
            mp::FactoryFilter f;
            f.add_creator("t", mk);
            router = 0;
            tr.begin(hx::unhex(v[1]));
            try {
                router = hx::unhex(v[2]).length() % 2 ? (mp::Router *) new mp::RouterXML(hx::unhex(v[2]), false)
                    : new mp::RouterFleXML(hx::unhex(v[2]), f, false);
            } catch (std::exception &e) {
                tr.op(hx::Rec().str("op", "error").str("what", e.what()));
            }
            if (router) interp();
        } else if (v[0] == "end") {
            tr.end();
            pos.clear(); pk.clear(); pk_no.clear(); ses.clear();
            delete router; router = 0;
        }
    }
    return 0;
}
