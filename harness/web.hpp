// Stands in for YAZ's HTTP client: a request for a URL is an event, and the
// answer is what the script says (or none, with an error).  Include after fz.hpp.
#pragma once
#include <yaz/url.h>
namespace web {
    struct Url { std::string proxy, err; int red; mp::odr odr; };
    inline std::deque<fz::J> &answers() { static std::deque<fz::J> a; return a; }
    inline int &open() { static int n = 0; return n; }
    inline std::string id(Z_HTTP_Header *h) { const char *v = z_HTTP_header_lookup(h, "X-Id"); return v ? v : ""; }
}
extern "C" {
yaz_url_t yaz_url_create(void)
{
    web::open()++;
    web::Url *u = new web::Url;
    u->red = 0;
    return (yaz_url_t) u;
}
void yaz_url_destroy(yaz_url_t p) { if (p) { web::open()--; delete (web::Url *) p; } }
void yaz_url_set_proxy(yaz_url_t p, const char *proxy) { ((web::Url *) p)->proxy = proxy ? proxy : ""; }
void yaz_url_set_max_redirects(yaz_url_t p, int num) { ((web::Url *) p)->red = num; }
const char *yaz_url_get_error(yaz_url_t p) { return ((web::Url *) p)->err.c_str(); }
Z_HTTP_Response *yaz_url_exec(yaz_url_t p, const char *uri, const char *method,
                              Z_HTTP_Header *headers, const char *buf, size_t len)
{
    web::Url *u = (web::Url *) p;
    std::string id = web::id(headers);
    fz::tr.op(fz::ev("exec").str("id", id).str("uri", uri).str("method", method).raw("h", fz::headers(headers))
              .str("body", std::string(buf ? buf : "", len)).str("proxy", u->proxy).num("red", u->red));
    fz::J j;
    if (web::answers().size()) { j = web::answers().front(); web::answers().pop_front(); }
    int tag = sched::managed() ? sched::self->tag : 0;
    if (fz::bk_pause) fz::bk_pause();
    if (sched::managed()) sched::self->tag = tag;
    Z_GDU *g = j.str("t") == "httpr" ? fz::from_json(u->odr, j) : 0;
    fz::tr.op(fz::ev("got").str("id", id).raw("r", fz::to_json(g)));
    if (g) return g->u.HTTP_Response;
    u->err = j.str("err", "error");
    return 0;
}
}
