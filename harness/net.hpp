// The other end of the connections filters make through the YAZ++ stand-in:
// targets that answer as the scripted back end (bk) of their address does,
// at once or later, or refuse, hang or go away, as the script says.
#ifndef NET_HPP
#define NET_HPP
#include "fz.hpp"
#include <shimnet.h>
namespace net {
    using namespace fz;
    typedef yazpp_1::PDU_Assoc A;
    struct Ev { long long due; int kind; std::string data, j; };
    struct Con { int id; std::string addr; std::unique_ptr<mp::Session> s; std::list<Ev> q; long long last; };
    inline std::map<A *, Con> &cons() { static std::map<A *, Con> c; return c; }
    // what happens to connections to an address, and to what is sent to it
    struct Plan { std::deque<J> conn, sent; };
    inline std::map<std::string, Plan> &plans() { static std::map<std::string, Plan> p; return p; }
    inline J next(std::deque<J> &q) { J j; if (q.size()) { j = q.front(); q.pop_front(); } return j; }
    inline void add(Con &c, long long ms, int kind, const std::string &data = "", const std::string &j = "") {
        Ev e;
        e.due = sched::now + ms * 1000000; e.kind = kind; e.data = data; e.j = j;
        std::list<Ev>::iterator i = c.q.begin();
        while (i != c.q.end() && i->due <= e.due) ++i;
        c.q.insert(i, e);
    }
    inline int connect(A *a) {
        std::string full = a->net_addr(), addr = full.substr(0, full.find(' '));
        Con &c = cons()[a];
        c.s.reset(new mp::Session); c.id = sno(*c.s); c.addr = addr; c.last = sched::now;
        J d = next(plans()[addr].conn);
        std::string how = d.str("how", "ok");
        tr.op(ev("conn").num("s", c.id).num("o", sched::tag()).str("a", full).str("how", how));
        if (how == "refuse") return -1;
        if (how == "ok") add(c, d.num("d"), shimnet::CONNECT);
        if (how == "fail") add(c, d.num("d"), shimnet::FAIL);
        return 0;
    }
    inline void sent(A *a, const std::string &data) {
        Con &c = cons()[a];
        ODR dec = odr_createmem(ODR_DECODE);
        odr_setbuf(dec, (char *) data.data(), data.length(), 0);
        Z_GDU *g = 0;
        if (!z_GDU(dec, &g, 0, 0)) tr.op(ev("junk").num("s", c.id));
        else {
            J d = next(plans()[c.addr].sent);
            mp::Origin o;
            mp::Package p(*c.s, o);
            p.request() = g;
            if (g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_triggerResourceControlRequest)
                tr.op(ev("breq").str("bk", c.addr).num("s", c.id).num("o", sched::tag()).boolean("closed", false).raw("r", to_json(g)));
            else { Bk b(c.addr); b.process(p); }
            std::string j = to_json(p.response().get());
            if (cons().count(a) && d.str("act") != "none") {
                for (int i = 0; p.response().get() && i < d.num("n", 1); i++) {
                    ODR enc = odr_createmem(ODR_ENCODE);
                    Z_GDU *r = p.response().get();
                    if (z_GDU(enc, &r, 0, 0)) {
                        int len;
                        char *b = odr_getbuf(enc, &len, 0);
                        if (d.str("act") == "junk") add(c, d.num("d"), shimnet::RECV, "junk", "{\"t\":\"junk\"}");
                        else add(c, d.num("d"), shimnet::RECV, std::string(b, len), j);
                    }
                    odr_destroy(enc);
                }
                if (p.session().is_closed()) add(c, d.num("d"), shimnet::FAIL);
            }
        }
        odr_destroy(dec);
    }
    inline void closed(A *a) { if (cons().count(a)) tr.op(ev("disc").num("s", cons()[a].id)); }
    inline void gone(A *a) { cons().erase(a); }
    inline bool idle(yazpp_1::SocketManager *sm) {
        A *a = 0;
        long long due = -1;
        bool any = false;
        for (std::map<A *, Con>::iterator i = cons().begin(); i != cons().end(); ++i) {
            if (i->first->net_manager() != sm || !i->first->net_open()) continue;
            any = true;
            long long t = i->second.q.size() ? i->second.q.front().due : -1;
            int to = i->first->net_timeout();
            if (to >= 0 && (t < 0 || i->second.last + to * 1000000000LL < t)) t = i->second.last + to * 1000000000LL;
            if (t >= 0 && (!a || t < due)) { a = i->first; due = t; }
        }
        if (!any) return false;
        if (!a) sched::wait_for([] { return false; });
        if (due > sched::now) sched::pause_for(due - sched::now); else sched::yield();
        if (!cons().count(a) || !a->net_open()) return true;
        Con &c = cons()[a];
        c.last = sched::now;
        if (c.q.empty() || c.q.front().due > sched::now) { a->net_push(shimnet::TIMEOUT, ""); return true; }
        Ev e = c.q.front();
        c.q.pop_front();
        tr.op(ev("deliver").num("s", c.id).num("o", sched::tag())
              .str("k", e.kind == shimnet::CONNECT ? "connect" : e.kind == shimnet::FAIL ? "fail" : "recv")
              .raw("r", e.j.length() ? e.j : "{\"t\":\"none\"}"));
        a->net_push(e.kind, e.data);
        return true;
    }
    inline void begin() {
        cons().clear(); plans().clear();
        shimnet::hooks.on_connect = connect; shimnet::hooks.on_send = sent; shimnet::hooks.on_close = closed;
        shimnet::hooks.on_destroy = gone; shimnet::hooks.on_idle = idle;
    }
}
#endif
