// Calls of the utility functions. A line is a name and tokens (hex: texts).
#include "fz.hpp"
#include <yaz/diagbib1.h>
#include <fstream>
#include <unistd.h>
namespace mp = metaproxy_1;
using hx::unhex;
typedef std::vector<std::string> V;

// the reference id of a PDU, not by the code under test
#define TYPES \
    X(initRequest) X(initResponse) X(searchRequest) X(searchResponse) X(presentRequest) X(presentResponse) \
    X(deleteResultSetRequest) X(deleteResultSetResponse) X(accessControlRequest) X(accessControlResponse) \
    X(resourceControlRequest) X(resourceControlResponse) X(triggerResourceControlRequest) X(resourceReportRequest) \
    X(resourceReportResponse) X(scanRequest) X(scanResponse) X(sortRequest) X(sortResponse) X(segmentRequest) \
    X(extendedServicesRequest) X(extendedServicesResponse) X(close) X(duplicateDetectionRequest) X(duplicateDetectionResponse)
static Z_ReferenceId **refof(Z_APDU *a)
{
#define X(n) if (a->which == Z_APDU_##n) return &a->u.n->referenceId;
    TYPES
#undef X
    return 0;
}
static Z_APDU *blank(ODR odr, int which)
{
    Z_APDU *a = (Z_APDU *) odr_malloc(odr, sizeof *a);
    a->which = which;
#define X(n) if (which == Z_APDU_##n) { size_t z = sizeof(*a->u.n); void *p = odr_malloc(odr, z); memset(p, 0, z); *(void **) &a->u.n = p; }
    TYPES
#undef X
    return a;
}
static Z_APDU *with_ref(ODR odr, int which, const std::string &has, const std::string &id)
{
    if (which == 0) return 0;
    Z_APDU *a = blank(odr, which);
    if (has == "1") *refof(a) = odr_create_Odr_oct(odr, id.data(), id.length());
    return a;
}
static std::string opt(const std::string &t, bool &null) { null = t == "null"; return null ? "" : unhex(t); }
static std::string cstr(const char *s) { return s ? s : ""; }
static void put(hx::Rec &r, const char *k, const char *v)
{
    r.boolean((std::string(k) + "null").c_str(), !v).cod(k, cstr(v));
}
static std::string units(Z_OtherInformation *o)
{
    V v;
    for (int i = 0; o && i < o->num_elements; i++) {
        Z_OtherInformationUnit *u = o->list[i];
        std::string k = !u->category ? "none" : !oid_oidcmp(u->category->categoryTypeId, yaz_oid_userinfo_proxy) ? "vh" : "other";
        v.push_back(hx::Rec().str("k", k).num("cat", u->category ? *u->category->categoryValue : 0)
                    .cod("v", u->which == Z_OtherInfo_characterInfo ? u->information.characterInfo : "?").done());
    }
    return fz::arr(v);
}
static std::string cods(const std::list<std::string> &l)
{
    V v;
    for (std::list<std::string>::const_iterator it = l.begin(); it != l.end(); it++) v.push_back(hx::codes(*it));
    return fz::arr(v);
}

int main(int argc, char **argv)
{
    std::string line;
    hx::Trace tr;
    while (std::getline(std::cin, line)) {
        if (line == "trace") { tr.begin(); continue; }
        if (line == "end") { tr.end(); continue; }
        V v = hx::tokens(line);
        const std::string &f = v[0];
        hx::Rec r;
        mp::odr odr;
        r.str("op", f);
        if (f == "ip")
            r.cod("pat", unhex(v[1])).cod("val", unhex(v[2])).boolean("res", mp::util::match_ip(unhex(v[1]), unhex(v[2])));
        else if (f == "norm")
            r.cod("x", unhex(v[1])).cod("res", mp::util::database_name_normalize(unhex(v[1])));
        else if (f == "match") {
            std::list<std::string> a, b;
            int n = atoi(v[1].c_str());
            for (size_t i = 2; i < v.size(); i++) ((int) i < 2 + n ? a : b).push_back(unhex(v[i]));
            r.raw("a", cods(a)).raw("b", cods(b)).boolean("res", mp::util::match(a, b));
        }
        else if (f == "mem") {
            std::string a = unhex(v[1]), b = unhex(v[2]);
            std::vector<char> x(a.begin(), a.end()), y(b.begin(), b.end());
            x.reserve(1); y.reserve(1);
            r.cod("a", a).cod("b", b).num("res", mp::util::memcmp2(x.data(), x.size(), y.data(), y.size()));
        }
        else if (f == "enc") {
            std::string e = mp::util::uri_encode(unhex(v[1]));
            r.cod("x", unhex(v[1])).cod("res", e).cod("back", mp::util::uri_decode(e));
        }
        else if (f == "dec")
            r.cod("x", unhex(v[1])).cod("res", mp::util::uri_decode(unhex(v[1])));
        else if (f == "zurl") {
            std::string host;
            std::list<std::string> db;
            mp::util::split_zurl(unhex(v[1]), host, db);
            int n = -1;
            char **p = 0;
            bool ok = mp::util::set_databases_from_zurl(odr, unhex(v[1]), &n, &p);
            std::list<std::string> db2;
            for (int i = 0; i < n; i++) db2.push_back(p[i]);
            r.cod("x", unhex(v[1])).cod("host", host).raw("db", cods(db)).boolean("ok", ok).raw("db2", cods(db2));
        }
        else if (f == "hdr") {
            Z_HTTP_Header *h = 0;
            V hs;
            for (size_t i = 2; i + 1 < v.size(); i += 2) {
                z_HTTP_header_add(odr, &h, unhex(v[i]).c_str(), unhex(v[i + 1]).c_str());
                hs.push_back("[" + hx::codes(unhex(v[i])) + "," + hx::codes(unhex(v[i + 1])) + "]");
            }
            r.cod("name", unhex(v[1])).raw("h", fz::arr(hs)).cod("res", mp::util::http_header_value(h, unhex(v[1])));
        }
        else if (f == "esn") {
            bool null;
            std::string n = opt(v[2], null);
            Z_RecordComposition *c = 0;
            if (v[1] != "null") {
                c = (Z_RecordComposition *) odr_malloc(odr, sizeof *c);
                if (v[1][0] == 's') {
                    c->which = Z_RecordComp_simple;
                    c->u.simple = fz::esn(odr, n.empty() ? "x" : n);
                    if (v[1] == "sdb") c->u.simple->which = Z_ElementSetNames_databaseSpecific;
                } else {
                    c->which = Z_RecordComp_complex;
                    Z_CompSpec *s = c->u.complex = (Z_CompSpec *) odr_malloc(odr, sizeof *s);
                    memset(s, 0, sizeof *s);
                    if (v[1] != "c0") {
                        s->generic = (Z_Specification *) odr_malloc(odr, sizeof(Z_Specification));
                        memset(s->generic, 0, sizeof(Z_Specification));
                        if (v[1] != "cn") {
                            s->generic->elementSpec = (Z_ElementSpec *) odr_malloc(odr, sizeof(Z_ElementSpec));
                            s->generic->elementSpec->which = v[1] == "cx" ? Z_ElementSpec_externalSpec : Z_ElementSpec_elementSetName;
                            s->generic->elementSpec->u.elementSetName = odr_strdup(odr, n.empty() ? "x" : n.c_str());
                        }
                    }
                }
            }
            r.str("c", v[1]).cod("name", n.empty() ? "x" : n);
            put(r, "res", mp::util::record_composition_to_esn(c));
        }
        else if (f == "pig") {        // small large medium size sname mname
            bool n1, n2;
            std::string s = opt(v[5], n1), m = opt(v[6], n2);
            long long a[4];
            for (int i = 0; i < 4; i++) a[i] = atoll(v[1 + i].c_str());
            Odr_int num = -7, num2 = -7;
            const char *e1 = 0, *e2 = 0;
            mp::util::piggyback(a[0], a[1], a[2], n1 ? 0 : s.c_str(), n2 ? 0 : m.c_str(), a[3], num, &e1);
            Z_APDU *ap = zget_APDU(odr, Z_APDU_searchRequest);
            Z_SearchRequest *q = ap->u.searchRequest;
            *q->smallSetUpperBound = a[0]; *q->largeSetLowerBound = a[1]; *q->mediumSetPresentNumber = a[2];
            q->smallSetElementSetNames = n1 ? 0 : fz::esn(odr, s);
            q->mediumSetElementSetNames = n2 ? 0 : fz::esn(odr, m);
            mp::util::piggyback_sr(q, a[3], num2, &e2);
            Z_RecordComposition *c = mp::util::piggyback_to_RecordComposition(odr, a[3], q);
            int num3 = -7;
            mp::util::piggyback((int) a[0], (int) a[1], (int) a[2], (int) a[3], num3);
            r.num("small", a[0]).num("large", a[1]).num("medium", a[2]).num("size", a[3])
                .boolean("snull", n1).cod("s", s).boolean("mnull", n2).cod("m", m).num("num", num).num("num2", num2).num("num3", num3);
            put(r, "e", e1);
            put(r, "f", e2);
            put(r, "g", c && c->which == Z_RecordComp_simple && c->u.simple->which == Z_ElementSetNames_generic ? c->u.simple->u.generic : 0);
        }
        else if (f == "pqf") {
            Z_APDU *a = zget_APDU(odr, Z_APDU_searchRequest);
            bool ok = mp::util::pqf(odr, a, unhex(v[1]));
            r.cod("x", unhex(v[1])).boolean("ok", ok).cod("res", ok ? mp::util::zQueryToString(a->u.searchRequest->query) : "");
        }
        else if (f == "vh") {        // op, then units k:cat:v, "--", values
            Z_OtherInformation *o = 0;
            size_t i = 2;
            for (; i < v.size() && v[i] != "--"; i++) {
                size_t c1 = v[i].find(':'), c2 = v[i].find(':', c1 + 1);
                if (!o) {
                    o = (Z_OtherInformation *) odr_malloc(odr, sizeof *o);
                    o->num_elements = 0;
                    o->list = (Z_OtherInformationUnit **) odr_malloc(odr, 100 * sizeof(void *));
                }
                Z_OtherInformationUnit *u = (Z_OtherInformationUnit *) odr_malloc(odr, sizeof *u);
                o->list[o->num_elements++] = u;
                std::string k = v[i].substr(0, c1);
                u->category = 0;
                if (k != "none") {
                    u->category = (Z_InfoCategory *) odr_malloc(odr, sizeof *u->category);
                    u->category->categoryTypeId = odr_oiddup(odr, k == "vh" ? yaz_oid_userinfo_proxy : yaz_oid_userinfo_client_ip);
                    u->category->categoryValue = odr_intdup(odr, atoi(v[i].substr(c1 + 1).c_str()));
                }
                u->which = Z_OtherInfo_characterInfo;
                u->information.characterInfo = odr_strdup(odr, unhex(v[i].substr(c2 + 1)).c_str());
            }
            std::list<std::string> a, res;
            for (i++; i < v.size(); i++) a.push_back(unhex(v[i]));
            r.str("do", v[1]).raw("before", units(o)).raw("a", cods(a));
            int n = 0;
            if (v[1] == "get") mp::util::get_vhost_otherinfo(o, res);
            else if (v[1] == "remove") n = mp::util::remove_vhost_otherinfo(&o, res);
            else if (v[1] == "set") mp::util::set_vhost_otherinfo(&o, odr, a);
            else if (v[1] == "set1") mp::util::set_vhost_otherinfo(&o, odr, a.front(), 2);
            r.raw("res", cods(res)).num("n", n).raw("after", units(o));
        }
        else if (f == "ref") {       // from-type has id to-type has id
            Z_APDU *s = with_ref(odr, atoi(v[1].c_str()), v[2], unhex(v[3])), *d = with_ref(odr, atoi(v[4].c_str()), v[5], unhex(v[6]));
            mp::util::transfer_referenceId(odr, s, d);
            Z_ReferenceId *x = *refof(d), *y = s ? *refof(s) : 0;
            r.num("src", atoi(v[1].c_str())).boolean("has", s && v[2] == "1").cod("id", unhex(v[3])).num("dst", d->which)
                .boolean("set", x != 0).cod("res", x ? std::string((const char *) x->buf, x->len) : "").boolean("copy", !x || x != y && (x->buf != y->buf || !x->len));
        }
        else if (f == "mk") {        // what, request type, has, id, error, addinfo
            bool null;
            std::string add = opt(v[6], null);
            int err = atoi(v[5].c_str());
            Z_APDU *s = with_ref(odr, atoi(v[2].c_str()), v[3], unhex(v[4])), *d = 0;
            const char *ad = null ? 0 : add.c_str();
            if (v[1] == "close") d = odr.create_close(s, err, ad);
            else if (v[1] == "initr") d = odr.create_initResponse(s, err, ad);
            else if (v[1] == "searchr") d = odr.create_searchResponse(s, err, ad);
            else if (v[1] == "presentr") d = odr.create_presentResponse(s, err, ad);
            else if (v[1] == "scanr") d = odr.create_scanResponse(s, err, ad);
            Z_ReferenceId *x = *refof(d);
            Z_GDU g;
            g.which = Z_GDU_Z3950;
            g.u.z3950 = d;
            // what a client would get
            mp::odr enc(ODR_ENCODE), dec(ODR_DECODE);
            Z_GDU *gp = &g, *back = 0;
            bool wire = z_GDU(enc, &gp, 0, 0);
            if (wire) {
                int len;
                char *b = odr_getbuf(enc, &len, 0);
                odr_setbuf(dec, b, len, 0);
                wire = z_GDU(dec, &back, 0, 0);
            }
            r.str("what", v[1]).num("src", atoi(v[2].c_str())).boolean("has", s && v[3] == "1").str("id", unhex(v[4])).num("err", err).str("add", add)
                .boolean("set", x != 0).str("res", x ? std::string((const char *) x->buf, x->len) : "").boolean("wire", wire)
                .raw("r", fz::to_json(wire ? back : &g));
        }
        else if (f == "diag") {      // form (2, 3), code, addinfo
            Z_DefaultDiagFormat *d = zget_DefaultDiagFormat(odr, atoi(v[2].c_str()), unhex(v[3]).c_str());
            if (v[1] == "3") { d->which = Z_DefaultDiagFormat_v3Addinfo; d->u.v3Addinfo = odr_strdup(odr, unhex(v[3]).c_str()); }
            int code = -1;
            std::string add = "before";
            mp::util::get_default_diag(d, code, add);
            r.num("code", atoi(v[2].c_str())).cod("add", unhex(v[3])).num("rcode", code).cod("radd", add);
        }
        else if (f == "idiag") {     // has, code, addinfo
            Z_APDU *a = zget_APDU(odr, Z_APDU_initResponse);
            if (v[1] == "1") a->u.initResponse->userInformationField = zget_init_diagnostics(odr, atoi(v[2].c_str()), unhex(v[3]).c_str());
            int code = -1;
            std::string add = "before";
            mp::util::get_init_diagnostics(a->u.initResponse, code, add);
            r.boolean("has", v[1] == "1").num("code", atoi(v[2].c_str())).cod("add", unhex(v[3])).num("rcode", code).cod("radd", add);
        }
        else if (f == "http") {      // version, connection (null), code, body
            bool null;
            std::string con = opt(v[2], null);
            Z_GDU *q = z_get_HTTP_Request(odr);
            q->u.HTTP_Request->version = odr_strdup(odr, unhex(v[1]).c_str());
            z_HTTP_header_add(odr, &q->u.HTTP_Request->headers, "Host", "h");
            if (!null) z_HTTP_header_add(odr, &q->u.HTTP_Request->headers, "Connection", con.c_str());
            mp::Package p;
            p.request() = q;
            std::string body = unhex(v[4]);
            if (v[5] == "body") mp::util::http_response(p, body, atoi(v[3].c_str()));
            else {
                mp::Session s = p.session();
                p.response() = v[5] == "det" ? odr.create_HTTP_Response_details(s, q->u.HTTP_Request, atoi(v[3].c_str()), body.c_str())
                    : odr.create_HTTP_Response(s, q->u.HTTP_Request, atoi(v[3].c_str()));
                if (s.is_closed()) p.session().close();
            }
            Z_GDU *g = p.response().get();
            Z_HTTP_Response *h = g->u.HTTP_Response;
            int nc = 0;
            std::string cv;
            for (Z_HTTP_Header *x = h->headers; x; x = x->next) if (!strcasecmp(x->name, "connection")) { nc++; cv = x->value; }
            std::string rb(cstr(h->content_buf).length() || h->content_len ? std::string(h->content_buf, h->content_len) : "");
            r.cod("ver", unhex(v[1])).boolean("cnull", null).cod("con", con).num("code", atoi(v[3].c_str())).str("how", v[5]).cod("body", body)
                .num("rcode", h->code).cod("rver", h->version).boolean("closed", p.session().is_closed()).num("ncon", nc).cod("rcon", cv)
                .cod("rbody", v[5] == "body" ? rb : "").boolean("has", rb.find(body) != std::string::npos);
        }
        else if (f == "plain") {     // contents
            char name[] = "/tmp/h_utilXXXXXX";
            int fd = mkstemp(name);
            std::string c = unhex(v[1]);
            if (write(fd, c.data(), c.length()) != (ssize_t) c.length()) return 3;
            close(fd);
            mp::PlainFile pf;
            V a, lines;
            bool before = pf.getline(a), no = pf.open(std::string(name) + "/no"), ok = pf.open(name);
            alarm(10);
            while (pf.getline(a)) {
                V w;
                for (size_t i = 0; i < a.size(); i++) w.push_back(hx::codes(a[i]));
                lines.push_back(fz::arr(w));
            }
            bool after = pf.getline(a);
            alarm(0);
            unlink(name);
            r.cod("x", c).boolean("before", before).boolean("no", no).boolean("ok", ok).boolean("after", after).raw("lines", fz::arr(lines));
        }
        else { fprintf(stderr, "what is %s\n", f.c_str()); return 9; }
        tr.op(r);
    }
    return 0;
}
