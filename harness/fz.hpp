// Z39.50 and HTTP PDUs <-> JSON, and a scripted back end filter ("bk").
#ifndef FZ_HPP
#define FZ_HPP
#include "sched.hpp"
#include "hx.hpp"
#include <map>
#include <deque>
#include <memory>
#include <mutex>
#include <algorithm>
#include <metaproxy/package.hpp>
#include <metaproxy/filter.hpp>
#include <metaproxy/util.hpp>
#include <metaproxy/xmlutil.hpp>
#include <yaz/zgdu.h>
#include <yaz/otherinfo.h>
#include <yaz/pquery.h>
#include <yaz/querytowrbuf.h>
#include <yaz/oid_db.h>
#include <yaz/diagbib1.h>
#include <yaz/log.h>
#include <yaz/charneg.h>
namespace fz {
    namespace mp = metaproxy_1;
    // ------------------------------------------------------------- JSON
    struct J {
        enum T { Nul, Bool, Num, Str, Arr, Obj } t;
        long long n; std::string s; std::vector<J> a; std::map<std::string, J> o;
        J() : t(Nul), n(0) {}
        bool has(const char *k) const { return o.count(k) > 0; }
        const J &operator[](const char *k) const {
            static J nul;
            std::map<std::string, J>::const_iterator i = o.find(k);
            return i == o.end() ? nul : i->second;
        }
        std::string str(const char *k, const std::string &d = "") const { return has(k) ? (*this)[k].s : d; }
        long long num(const char *k, long long d = 0) const { return has(k) ? (*this)[k].n : d; }
        bool boo(const char *k, bool d = false) const { return has(k) ? (*this)[k].n != 0 : d; }
    };
    inline J parse(const char *&p) {
        J v;
        while (*p == ' ') p++;
        if (*p == '{') {
            v.t = J::Obj; p++;
            while (*p == ' ') p++;
            if (*p == '}') { p++; return v; }
            for (;;) {
                J k = parse(p);
                while (*p == ' ' || *p == ':') p++;
                v.o[k.s] = parse(p);
                while (*p == ' ') p++;
                if (*p == ',') { p++; continue; }
                if (*p == '}') p++;
                return v;
            }
        }
        if (*p == '[') {
            v.t = J::Arr; p++;
            while (*p == ' ') p++;
            if (*p == ']') { p++; return v; }
            for (;;) {
                v.a.push_back(parse(p));
                while (*p == ' ') p++;
                if (*p == ',') { p++; continue; }
                if (*p == ']') p++;
                return v;
            }
        }
        if (*p == '"') {
            v.t = J::Str; p++;
            while (*p && *p != '"') {
                if (*p == '\\') {
                    p++;
                    if (*p == 'n') v.s += '\n';
                    else if (*p == 't') v.s += '\t';
                    else if (*p == 'r') v.s += '\r';
                    else if (*p == 'u') { v.s += (char) strtol(std::string(p + 1, 4).c_str(), 0, 16); p += 4; }
                    else v.s += *p;
                    p++;
                } else v.s += *p++;
            }
            if (*p) p++;
            return v;
        }
        if (!strncmp(p, "true", 4)) { v.t = J::Bool; v.n = 1; p += 4; return v; }
        if (!strncmp(p, "false", 5)) { v.t = J::Bool; p += 5; return v; }
        if (!strncmp(p, "null", 4)) { p += 4; return v; }
        char *e;
        v.t = J::Num; v.n = strtoll(p, &e, 10);
        if (e == p) { fprintf(stderr, "bad json at %.40s\n", p); exit(9); }
        p = e;
        return v;
    }
    inline J json(const std::string &s) { const char *p = s.c_str(); return parse(p); }
    inline std::string arr(const std::vector<std::string> &v) {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + v[i];
        return r + "]";
    }
    inline std::string qarr(const std::vector<std::string> &v) {
        std::vector<std::string> w;
        for (size_t i = 0; i < v.size(); i++) w.push_back(hx::q(v[i]));
        return arr(w);
    }
    // -------------------------------------------------- option names
    struct Opt { const char *n; int b; };
    inline const Opt *opts() {
        static const Opt o[] = {
            {"search", Z_Options_search}, {"present", Z_Options_present}, {"delSet", Z_Options_delSet},
            {"scan", Z_Options_scan}, {"sort", Z_Options_sort}, {"es", Z_Options_extendedServices},
            {"named", Z_Options_namedResultSets}, {"trigger", Z_Options_triggerResourceCtrl},
            {"negotiation", Z_Options_negotiationModel}, {"concurrent", Z_Options_concurrentOperations}, {0, 0}};
        return o;
    }
    inline std::string optnames(Odr_bitmask *m) {
        std::vector<std::string> v;
        for (const Opt *o = opts(); o->n; o++) if (ODR_MASK_GET(m, o->b)) v.push_back(o->n);
        return qarr(v);
    }
    inline void setopts(Odr_bitmask *m, const J &a) {
        ODR_MASK_ZERO(m);
        for (size_t i = 0; i < a.a.size(); i++)
            for (const Opt *o = opts(); o->n; o++) if (a.a[i].s == o->n) ODR_MASK_SET(m, o->b);
    }
    inline const char *S(const char *s) { return s ? s : ""; }
    inline std::string oidname(const Odr_oid *o) {
        if (!o) return "";
        char b[OID_STR_MAX];
        return yaz_oid_to_string_buf(o, 0, b);
    }
    inline Odr_oid *oid(ODR odr, const std::string &n) {
        if (n.empty()) return 0;
        return yaz_string_to_oid_odr(yaz_oid_std(), CLASS_RECSYN, n.c_str(), odr);
    }
    inline std::string esnname(Z_ElementSetNames *e) {
        return e && e->which == Z_ElementSetNames_generic ? e->u.generic : e ? "?" : "";
    }
    inline Z_ElementSetNames *esn(ODR odr, const std::string &s) {
        if (s.empty()) return 0;
        Z_ElementSetNames *e = (Z_ElementSetNames *) odr_malloc(odr, sizeof(*e));
        e->which = Z_ElementSetNames_generic; e->u.generic = odr_strdup(odr, s.c_str());
        return e;
    }
    inline std::string ref(Z_ReferenceId *r) { return r ? std::string((const char *) r->buf, r->len) : ""; }
    inline std::string qstr(Z_Query *q) {
        WRBUF w = wrbuf_alloc();
        if (q && (q->which == Z_Query_type_1 || q->which == Z_Query_type_101)) {
            yaz_rpnquery_to_wrbuf(w, q->u.type_1);
            std::string s = wrbuf_cstr(w);
            wrbuf_destroy(w);
            while (s.length() && s[s.length() - 1] == ' ') s.erase(s.length() - 1);
            return s;
        }
        if (q) yaz_query_to_wrbuf(w, q);
        std::string s = wrbuf_cstr(w);
        wrbuf_destroy(w);
        return s;
    }
    // a query as a tree: what its terms are, byte by byte
    static bool trees = false;
    inline std::string bytes(const char *b, size_t n) {
        std::string s = "[";
        for (size_t i = 0; i < n; i++) s += (i ? "," : "") + std::to_string((unsigned char) b[i]);
        return s + "]";
    }
    inline std::string tree(Z_RPNStructure *s) {
        if (s->which == Z_RPNStructure_complex) {
            Z_Complex *c = s->u.complex;
            static const char *ops[] = {"?", "and", "or", "not", "prox"};
            int w = c->roperator->which;
            return "{\"k\":\"op\",\"op\":\"" + std::string(ops[w >= 1 && w <= 4 ? w : 0]) + "\",\"l\":" + tree(c->s1) + ",\"r\":" + tree(c->s2) + "}";
        }
        Z_Operand *o = s->u.simple;
        if (o->which == Z_Operand_resultSetId) return "{\"k\":\"set\",\"name\":" + hx::q(o->u.resultSetId) + "}";
        if (o->which != Z_Operand_APT) return "{\"k\":\"other\"}";
        Z_AttributesPlusTerm *a = o->u.attributesPlusTerm;
        std::vector<std::string> v;
        for (int i = 0; a->attributes && i < a->attributes->num_attributes; i++) {
            Z_AttributeElement *e = a->attributes->attributes[i];
            std::string val = "?";
            if (e->which == Z_AttributeValue_numeric) val = std::to_string(*e->value.numeric);
            else if (e->value.complex->num_list && e->value.complex->list[0]->which == Z_StringOrNumeric_string) val = e->value.complex->list[0]->u.string;
            v.push_back("[" + hx::q(oidname(e->attributeSet)) + "," + std::to_string(*e->attributeType) + "," + hx::q(val) + "]");
        }
        Z_Term *t = a->term;
        std::string kind = "other", b = "[]";
        if (t->which == Z_Term_general) { kind = "general"; b = bytes((const char *) t->u.general->buf, t->u.general->len); }
        else if (t->which == Z_Term_numeric) { kind = "numeric"; std::string n = std::to_string(*t->u.numeric); b = bytes(n.data(), n.length()); }
        else if (t->which == Z_Term_characterString) { kind = "string"; b = bytes(t->u.characterString, strlen(t->u.characterString)); }
        return "{\"k\":\"apt\",\"a\":" + arr(v) + ",\"tt\":\"" + kind + "\",\"term\":" + b + "}";
    }
    inline std::string tree(Z_Query *q) {
        if (!q || (q->which != Z_Query_type_1 && q->which != Z_Query_type_101)) return "{\"k\":\"noRPN\"}";
        return tree(q->u.type_1->RPNStructure);
    }
    inline Z_Query *query(ODR odr, const J &j) {
        Z_Query *q = (Z_Query *) odr_malloc(odr, sizeof(*q));
        if (j.has("cql")) {
            q->which = Z_Query_type_104;
            Z_External *e = (Z_External *) odr_malloc(odr, sizeof(*e));
            memset(e, 0, sizeof *e);
            e->direct_reference = odr_oiddup(odr, yaz_oid_userinfo_cql);
            e->which = Z_External_CQL;
            e->u.cql = odr_strdup(odr, j.str("cql").c_str());
            q->u.type_104 = e;
            return q;
        }
        q->which = Z_Query_type_1;
        q->u.type_1 = p_query_rpn(odr, j.str("q", "@attr 1=4 x").c_str());
        if (!q->u.type_1) { fprintf(stderr, "bad pqf %s\n", j.str("q").c_str()); exit(9); }
        return q;
    }
    inline std::string stext(const Odr_oct *o) { return std::string((const char *) o->buf, o->len); }
    inline std::string ddf(Z_DefaultDiagFormat *d, int &code) {
        code = d->condition ? *d->condition : 0;
        return d->which == Z_DefaultDiagFormat_v2Addinfo ? S(d->u.v2Addinfo) : S((const char *) d->u.v3Addinfo);
    }
    inline std::string record(Z_NamePlusRecord *r) {
        hx::Rec o;
        int code = 0; std::string k = "rec", syn, v, add;
        if (r->which == Z_NamePlusRecord_databaseRecord) {
            Z_External *e = r->u.databaseRecord;
            syn = oidname(e->direct_reference);
            if (e->which == Z_External_octet) v = stext((Odr_oct *) e->u.octet_aligned);
            else if (e->which == Z_External_sutrs) v = stext((Odr_oct *) e->u.sutrs);
            else if (e->which == Z_External_OPAC) v = "opac";
            else v = "?";
        } else if (r->which == Z_NamePlusRecord_surrogateDiagnostic) {
            k = "diag";
            Z_DiagRec *d = r->u.surrogateDiagnostic;
            if (d->which == Z_DiagRec_defaultFormat) add = ddf(d->u.defaultFormat, code);
        } else k = "other";
        return o.str("db", S(r->databaseName)).str("k", k).str("syn", syn).str("v", v).num("code", code).str("add", add).done();
    }
    inline void records(hx::Rec &o, Z_Records *r) {
        std::vector<std::string> v;
        int code = 0; std::string add; bool given = r != 0; std::string kind = "none";
        if (r && r->which == Z_Records_DBOSD) {
            kind = "recs";
            for (int i = 0; i < r->u.databaseOrSurDiagnostics->num_records; i++)
                v.push_back(record(r->u.databaseOrSurDiagnostics->records[i]));
        } else if (r && r->which == Z_Records_NSD) {
            kind = "nsd";
            add = ddf(r->u.nonSurrogateDiagnostic, code);
        } else if (r && r->which == Z_Records_multipleNSD) {
            kind = "mnsd";
            Z_DiagRecs *d = r->u.multipleNonSurDiagnostics;
            if (d->num_diagRecs && d->diagRecs[0]->which == Z_DiagRec_defaultFormat)
                add = ddf(d->diagRecs[0]->u.defaultFormat, code);
        }
        o.str("kind", kind).raw("recs", arr(v)).num("diag", code).str("add", add);
    }
    inline std::string headers(Z_HTTP_Header *h) {
        std::vector<std::string> v;
        for (; h; h = h->next) v.push_back("[" + hx::q(S(h->name)) + "," + hx::q(S(h->value)) + "]");
        return arr(v);
    }
    // the character sets proposed in an init request
    inline std::string charset(Z_OtherInformation *p) {
        std::string t;
        for (int i = 0; p && i < p->num_elements; i++) {
            Z_OtherInformationUnit *u = p->list[i];
            if (u->which != Z_OtherInfo_externallyDefinedInfo || !u->information.externallyDefinedInfo ||
                u->information.externallyDefinedInfo->which != Z_External_charSetandLanguageNegotiation) continue;
            NMEM m = nmem_create();
            char **cs = 0, **lang = 0; int ncs = 0, nl = 0, sel = 0;
            yaz_get_proposal_charneg(m, u->information.externallyDefinedInfo->u.charNeg3, &cs, &ncs, &lang, &nl, &sel);
            t += "(";
            for (int k = 0; k < ncs; k++) t += std::string(k ? "," : "") + cs[k];
            t += sel ? ")" : ")-";
            nmem_destroy(m);
        }
        return t;
    }
    inline long long N(const Odr_int *i, long long d = -1) { return i ? *i : d; }
    // what only logs tell of; absent texts are []
    static bool texts = false;
    inline std::string opt(const char *s) { return s ? "[" + hx::q(s) + "]" : "[]"; }
    inline std::string init_opts(Odr_bitmask *m) {
        std::vector<std::string> v;
        yaz_init_opt_decode(m, [](const char *n, void *h) { ((std::vector<std::string> *) h)->push_back(n); }, &v);
        return qarr(v);
    }
    inline std::string more(Z_APDU *a) {
        hx::Rec o;
        o.num("w", a->which);
        WRBUF w = wrbuf_alloc();
        if (a->which == Z_APDU_initRequest) {
            Z_InitRequest *r = a->u.initRequest;
            o.raw("id", opt(r->implementationId)).raw("name", opt(r->implementationName)).raw("ver", opt(r->implementationVersion)).raw("opts", init_opts(r->options));
        } else if (a->which == Z_APDU_initResponse) {
            Z_InitResponse *r = a->u.initResponse;
            o.raw("id", opt(r->implementationId)).raw("name", opt(r->implementationName)).raw("ver", opt(r->implementationVersion)).raw("opts", init_opts(r->options));
        } else if (a->which == Z_APDU_searchRequest) {
            yaz_query_to_wrbuf(w, a->u.searchRequest->query);
            o.str("q", wrbuf_cstr(w));
        } else if (a->which == Z_APDU_scanRequest) {
            yaz_scan_to_wrbuf(w, a->u.scanRequest->termListAndStartPoint, a->u.scanRequest->attributeSet);
            o.str("q", wrbuf_cstr(w));
        } else if (a->which == Z_APDU_extendedServicesRequest) {
            Z_ExtendedServicesRequest *r = a->u.extendedServicesRequest;
            o.num("fn", r->function ? *r->function : -1).raw("user", opt(r->userId)).raw("pack", opt(r->packageName)).raw("desc", opt(r->description));
        } else if (a->which == Z_APDU_extendedServicesResponse) {
            Z_ExtendedServicesResponse *r = a->u.extendedServicesResponse;
            int code = 0; std::string add;
            if (r->num_diagnostics) add = ddf(r->diagnostics[0]->u.defaultFormat, code);
            o.num("status", r->operationStatus ? *r->operationStatus : -1).num("n", r->num_diagnostics).num("diag", code).str("add", add);
        } else if (a->which == Z_APDU_sortRequest) {
            Z_SortRequest *r = a->u.sortRequest;
            std::vector<std::string> d(r->inputResultSetNames, r->inputResultSetNames + r->num_inputResultSetNames);
            o.raw("in", qarr(d)).str("out", r->sortedResultSetName);
        } else if (a->which == Z_APDU_sortResponse) {
            Z_SortResponse *r = a->u.sortResponse;
            int code = 0; std::string add;
            if (r->num_diagnostics) add = ddf(r->diagnostics[0]->u.defaultFormat, code);
            o.num("status", *r->sortStatus).num("n", r->num_diagnostics).num("diag", code).str("add", add);
        } else if (a->which == Z_APDU_searchResponse || a->which == Z_APDU_presentResponse) {
            Z_Records *r = a->which == Z_APDU_searchResponse ? a->u.searchResponse->records : a->u.presentResponse->records;
            o.num("n", r && r->which == Z_Records_multipleNSD ? r->u.multipleNonSurDiagnostics->num_diagRecs : 1);
        } else if (a->which == Z_APDU_close) o.raw("msg", opt(a->u.close->diagnosticInformation));
        wrbuf_destroy(w);
        return o.done();
    }
    inline std::string to_json(Z_GDU *g) {
        hx::Rec o;
        if (!g) return o.str("t", "none").done();
        if (g->which == Z_GDU_HTTP_Request) {
            Z_HTTP_Request *h = g->u.HTTP_Request;
            return o.str("t", "http").str("method", S(h->method)).str("path", S(h->path)).str("ver", S(h->version))
                .raw("h", headers(h->headers)).str("body", std::string(S(h->content_buf), h->content_len)).done();
        }
        if (g->which == Z_GDU_HTTP_Response) {
            Z_HTTP_Response *h = g->u.HTTP_Response;
            return o.str("t", "httpr").num("code", h->code).str("ver", S(h->version)).raw("h", headers(h->headers))
                .str("body", std::string(S(h->content_buf), h->content_len)).done();
        }
        Z_APDU *a = g->u.z3950;
        if (texts) o.raw("x", more(a));
        Z_ReferenceId **rr = mp::util::get_referenceId(a);
        std::string rf = rr && *rr ? ref(*rr) : "";
        if (a->which == Z_APDU_initRequest) {
            Z_InitRequest *r = a->u.initRequest;
            std::string k = "none", op, gr, us, pa;
            if (r->idAuthentication) {
                Z_IdAuthentication *i = r->idAuthentication;
                if (i->which == Z_IdAuthentication_open) { k = "open"; op = S(i->u.open); }
                else if (i->which == Z_IdAuthentication_idPass) {
                    k = "idpass"; gr = S(i->u.idPass->groupId); us = S(i->u.idPass->userId); pa = S(i->u.idPass->password);
                } else k = "other";
            }
            std::list<std::string> vh;
            mp::util::get_vhost_otherinfo(r->otherInfo, vh);
            return o.str("t", "init").str("ref", rf).raw("opts", optnames(r->options)).str("auth", k).str("open", op)
                .str("group", gr).str("user", us).str("pass", pa)
                .raw("vh", qarr(std::vector<std::string>(vh.begin(), vh.end())))
                .str("oi", S(yaz_oi_get_string_oid(&r->otherInfo, yaz_oid_userinfo_client_ip, 1, 0))).str("cs", charset(r->otherInfo))
                .num("pms", N(r->preferredMessageSize)).num("mrs", N(r->maximumRecordSize)).done();
        }
        if (a->which == Z_APDU_initResponse) {
            Z_InitResponse *r = a->u.initResponse;
            int code = 0; std::string add;
            mp::util::get_init_diagnostics(r, code, add);
            return o.str("t", "initr").str("ref", rf).boolean("ok", r->result && *r->result).raw("opts", optnames(r->options))
                .num("diag", code).str("add", add).str("impl", S(r->implementationName))
                .num("pms", N(r->preferredMessageSize)).num("mrs", N(r->maximumRecordSize)).done();
        }
        if (a->which == Z_APDU_searchRequest) {
            Z_SearchRequest *r = a->u.searchRequest;
            std::vector<std::string> d(r->databaseNames, r->databaseNames + r->num_databaseNames);
            std::list<std::string> vh;
            mp::util::get_vhost_otherinfo(r->additionalSearchInfo, vh);
            if (trees) o.raw("tree", tree(r->query));
            return o.str("t", "search").str("ref", rf).raw("dbs", qarr(d)).str("set", S(r->resultSetName))
                .str("q", qstr(r->query)).boolean("rep", r->replaceIndicator && *r->replaceIndicator)
                .num("ssub", N(r->smallSetUpperBound)).num("lslb", N(r->largeSetLowerBound)).num("mspn", N(r->mediumSetPresentNumber))
                .str("syn", oidname(r->preferredRecordSyntax)).str("sesn", esnname(r->smallSetElementSetNames))
                .str("mesn", esnname(r->mediumSetElementSetNames)).done();
        }
        if (a->which == Z_APDU_searchResponse) {
            Z_SearchResponse *r = a->u.searchResponse;
            o.str("t", "searchr").str("ref", rf).num("hits", N(r->resultCount)).num("n", N(r->numberOfRecordsReturned))
                .num("next", N(r->nextResultSetPosition)).num("status", r->searchStatus ? *r->searchStatus : -1)
                .num("pstatus", N(r->presentStatus));
            records(o, r->records);
            return o.done();
        }
        if (a->which == Z_APDU_presentRequest) {
            Z_PresentRequest *r = a->u.presentRequest;
            const char *e = r->recordComposition ? mp::util::record_composition_to_esn(r->recordComposition) : 0;
            return o.str("t", "present").str("ref", rf).str("set", S(r->resultSetId)).num("start", N(r->resultSetStartPoint))
                .num("num", N(r->numberOfRecordsRequested)).str("syn", oidname(r->preferredRecordSyntax)).str("esn", S(e))
                .str("comp", !r->recordComposition ? "none" : r->recordComposition->which == Z_RecordComp_simple ? "simple" : "complex").done();
        }
        if (a->which == Z_APDU_presentResponse) {
            Z_PresentResponse *r = a->u.presentResponse;
            o.str("t", "presentr").str("ref", rf).num("n", N(r->numberOfRecordsReturned)).num("next", N(r->nextResultSetPosition))
                .num("pstatus", N(r->presentStatus));
            records(o, r->records);
            return o.done();
        }
        if (a->which == Z_APDU_scanRequest) {
            Z_ScanRequest *r = a->u.scanRequest;
            std::vector<std::string> d(r->databaseNames, r->databaseNames + r->num_databaseNames);
            WRBUF w = wrbuf_alloc();
            yaz_scan_to_wrbuf(w, r->termListAndStartPoint, r->attributeSet);
            std::string q = wrbuf_cstr(w);
            wrbuf_destroy(w);
            while (q.length() && q[q.length() - 1] == ' ') q.erase(q.length() - 1);
            return o.str("t", "scan").str("ref", rf).raw("dbs", qarr(d)).str("q", q).num("num", N(r->numberOfTermsRequested))
                .num("pos", N(r->preferredPositionInResponse)).num("step", N(r->stepSize)).done();
        }
        if (a->which == Z_APDU_scanResponse) {
            Z_ScanResponse *r = a->u.scanResponse;
            std::vector<std::string> v;
            int code = 0; std::string add;
            if (r->entries) {
                for (int i = 0; i < r->entries->num_entries; i++) {
                    Z_Entry *e = r->entries->entries[i];
                    if (e->which == Z_Entry_termInfo) {
                        Z_TermInfo *t = e->u.termInfo;
                        v.push_back(hx::Rec().str("k", "term").str("term", t->term->which == Z_Term_general ?
                            stext((Odr_oct *) t->term->u.general) : "?").num("n", N(t->globalOccurrences)).str("disp", S(t->displayTerm)).done());
                    } else v.push_back(hx::Rec().str("k", "diag").str("term", "").num("n", 0).str("disp", "").done());
                }
                if (r->entries->num_nonsurrogateDiagnostics && r->entries->nonsurrogateDiagnostics[0]->which == Z_DiagRec_defaultFormat)
                    add = ddf(r->entries->nonsurrogateDiagnostics[0]->u.defaultFormat, code);
            }
            return o.str("t", "scanr").str("ref", rf).num("status", N(r->scanStatus)).num("n", N(r->numberOfEntriesReturned))
                .num("pos", N(r->positionOfTerm)).num("step", N(r->stepSize)).raw("entries", arr(v)).num("diag", code).str("add", add).done();
        }
        if (a->which == Z_APDU_close) {
            Z_Close *r = a->u.close;
            return o.str("t", "close").str("ref", rf).num("reason", N(r->closeReason)).str("msg", S(r->diagnosticInformation)).done();
        }
        if (a->which == Z_APDU_deleteResultSetRequest) {
            Z_DeleteResultSetRequest *r = a->u.deleteResultSetRequest;
            std::vector<std::string> v;
            if (r->deleteFunction && *r->deleteFunction == Z_DeleteResultSetRequest_list && r->resultSetList)
                v.assign(r->resultSetList, r->resultSetList + r->num_resultSetList);
            return o.str("t", "delete").str("ref", rf).raw("sets", qarr(v)).done();
        }
        if (a->which == Z_APDU_deleteResultSetResponse)
            return o.str("t", "deleter").str("ref", rf).num("status", N(a->u.deleteResultSetResponse->deleteOperationStatus)).done();
        if (a->which == Z_APDU_sortRequest) return o.str("t", "sort").str("ref", rf).done();
        if (a->which == Z_APDU_sortResponse) return o.str("t", "sortr").str("ref", rf).done();
        if (a->which == Z_APDU_extendedServicesRequest) return o.str("t", "es").str("ref", rf).done();
        if (a->which == Z_APDU_extendedServicesResponse) return o.str("t", "esr").str("ref", rf).done();
        if (a->which == Z_APDU_triggerResourceControlRequest) return o.str("t", "trigger").str("ref", rf).done();
        return o.str("t", "apdu").num("which", a->which).str("ref", rf).done();
    }
    inline Z_HTTP_Header *hdrs(ODR odr, const J &j) {
        Z_HTTP_Header *h = 0;
        for (size_t i = 0; i < j.a.size(); i++)
            z_HTTP_header_add(odr, &h, j.a[i].a[0].s.c_str(), j.a[i].a[1].s.c_str());
        return h;
    }
    inline Z_Records *mkrecs(ODR odr, const J &j) {
        if (j.str("kind") == "mnsd") {
            Z_Records *r = (Z_Records *) odr_malloc(odr, sizeof(*r));
            r->which = Z_Records_multipleNSD;
            Z_DiagRecs *d = r->u.multipleNonSurDiagnostics = (Z_DiagRecs *) odr_malloc(odr, sizeof(*d));
            d->num_diagRecs = j.num("many", 1);
            d->diagRecs = (Z_DiagRec **) odr_malloc(odr, sizeof(Z_DiagRec *) * (d->num_diagRecs + 1));
            for (int i = 0; i < d->num_diagRecs; i++) d->diagRecs[i] = zget_DiagRec(odr, j.num("diag") + i, j.str("add").c_str());
            return r;
        }
        if (j.str("kind") == "nsd" || j.num("diag")) {
            Z_Records *r = (Z_Records *) odr_malloc(odr, sizeof(*r));
            r->which = Z_Records_NSD;
            r->u.nonSurrogateDiagnostic = zget_DefaultDiagFormat(odr, j.num("diag"), j.has("add") ? j.str("add").c_str() : 0);
            return r;
        }
        if (!j.has("recs")) return 0;
        const J &l = j["recs"];
        Z_Records *r = (Z_Records *) odr_malloc(odr, sizeof(*r));
        r->which = Z_Records_DBOSD;
        r->u.databaseOrSurDiagnostics = (Z_NamePlusRecordList *) odr_malloc(odr, sizeof(Z_NamePlusRecordList));
        r->u.databaseOrSurDiagnostics->num_records = l.a.size();
        r->u.databaseOrSurDiagnostics->records = (Z_NamePlusRecord **) odr_malloc(odr, sizeof(Z_NamePlusRecord *) * (l.a.size() + 1));
        for (size_t i = 0; i < l.a.size(); i++) {
            const J &x = l.a[i];
            Z_NamePlusRecord *n = (Z_NamePlusRecord *) odr_malloc(odr, sizeof(*n));
            n->databaseName = x.str("db").length() ? odr_strdup(odr, x.str("db").c_str()) : 0;
            if (x.str("k") == "diag") {
                n->which = Z_NamePlusRecord_surrogateDiagnostic;
                n->u.surrogateDiagnostic = zget_DiagRec(odr, x.num("code", 14), x.str("add").c_str());
            } else {
                n->which = Z_NamePlusRecord_databaseRecord;
                std::string syn = x.str("syn", "XML");
                n->u.databaseRecord = z_ext_record_oid(odr, oid(odr, syn), x.str("v").data(), x.str("v").length());
            }
            r->u.databaseOrSurDiagnostics->records[i] = n;
        }
        return r;
    }
    inline void setref(ODR odr, Z_APDU *a, const std::string &s) {
        if (s.empty()) return;
        Z_ReferenceId **r = mp::util::get_referenceId(a);
        if (r) *r = odr_create_Odr_oct(odr, s.c_str(), s.length());
    }
    inline void setdbs(ODR odr, const J &j, int &n, char **&d) {
        n = j.a.size();
        d = (char **) odr_malloc(odr, sizeof(char *) * (n + 1));
        for (int i = 0; i < n; i++) d[i] = odr_strdup(odr, j.a[i].s.c_str());
    }
    inline void mkdiags(ODR odr, const J &j, int &n, Z_DiagRec **&d) {
        n = j.num("n");
        d = n ? (Z_DiagRec **) odr_malloc(odr, sizeof(Z_DiagRec *) * n) : 0;
        for (int i = 0; i < n; i++) d[i] = zget_DiagRec(odr, j.num("diag", 1), j.str("add").c_str());
    }
    inline Z_GDU *from_json(ODR odr, const J &j) {
        std::string t = j.str("t");
        if (t == "none") return 0;
        Z_GDU *g = (Z_GDU *) odr_malloc(odr, sizeof(*g));
        if (t == "http") {
            g = z_get_HTTP_Request(odr);
            Z_HTTP_Request *h = g->u.HTTP_Request;
            h->method = odr_strdup(odr, j.str("method", "GET").c_str());
            h->path = odr_strdup(odr, j.str("path", "/").c_str());
            h->version = odr_strdup(odr, j.str("ver", "1.1").c_str());
            h->headers = hdrs(odr, j["h"]);
            if (j.str("body").length()) {
                h->content_buf = odr_strdupn(odr, j.str("body").data(), j.str("body").length());
                h->content_len = j.str("body").length();
            } else { h->content_buf = 0; h->content_len = 0; }
            return g;
        }
        if (t == "httpr") {
            g = z_get_HTTP_Response(odr, j.num("code", 200));
            Z_HTTP_Response *h = g->u.HTTP_Response;
            if (j.has("h")) h->headers = hdrs(odr, j["h"]);
            if (j.has("ver")) h->version = odr_strdup(odr, j.str("ver").c_str());
            h->content_buf = odr_strdupn(odr, j.str("body").data(), j.str("body").length());
            h->content_len = j.str("body").length();
            return g;
        }
        g->which = Z_GDU_Z3950;
        Z_APDU *a = 0;
        if (t == "init") {
            a = zget_APDU(odr, Z_APDU_initRequest);
            Z_InitRequest *r = a->u.initRequest;
            if (j.has("opts")) setopts(r->options, j["opts"]);
            ODR_MASK_SET(r->protocolVersion, Z_ProtocolVersion_1);
            ODR_MASK_SET(r->protocolVersion, Z_ProtocolVersion_2);
            ODR_MASK_SET(r->protocolVersion, Z_ProtocolVersion_3);
            std::string k = j.str("auth", "none");
            if (k != "none") {
                Z_IdAuthentication *i = (Z_IdAuthentication *) odr_malloc(odr, sizeof(*i));
                if (k == "open") { i->which = Z_IdAuthentication_open; i->u.open = odr_strdup(odr, j.str("open").c_str()); }
                else if (k == "idpass") {
                    i->which = Z_IdAuthentication_idPass;
                    i->u.idPass = (Z_IdPass *) odr_malloc(odr, sizeof(Z_IdPass));
                    i->u.idPass->groupId = j.str("group").length() ? odr_strdup(odr, j.str("group").c_str()) : 0;
                    i->u.idPass->userId = j.has("user") ? odr_strdup(odr, j.str("user").c_str()) : 0;
                    i->u.idPass->password = j.has("pass") ? odr_strdup(odr, j.str("pass").c_str()) : 0;
                } else { i->which = Z_IdAuthentication_anonymous; i->u.anonymous = odr_nullval(); }
                r->idAuthentication = i;
            }
            if (j.has("vh")) {
                std::list<std::string> l;
                for (size_t i = 0; i < j["vh"].a.size(); i++) l.push_back(j["vh"].a[i].s);
                int cat = 1;
                for (std::list<std::string>::iterator i = l.begin(); i != l.end(); i++)
                    yaz_oi_set_string_oid(&r->otherInfo, odr, yaz_oid_userinfo_proxy, cat++, i->c_str());
            }
            if (j.has("oi"))
                yaz_oi_set_string_oid(&r->otherInfo, odr, yaz_oid_userinfo_client_ip, 1, j.str("oi").c_str());
            if (j.has("cs")) {
                Z_OtherInformationUnit *u = yaz_oi_update(&r->otherInfo, odr, 0, 0, 0);
                u->which = Z_OtherInfo_externallyDefinedInfo;
                u->information.externallyDefinedInfo = yaz_set_proposal_charneg_list(odr, ",", j.str("cs").c_str(), 0, 1);
            }
            if (j.has("impl")) {
                const J &l = j["impl"];
                char **to[] = {&r->implementationId, &r->implementationName, &r->implementationVersion};
                for (int i = 0; i < 3; i++) *to[i] = l.a[i].t == J::Nul ? 0 : odr_strdup(odr, l.a[i].s.c_str());
            }
            if (j.has("pms")) *r->preferredMessageSize = j.num("pms");
            if (j.has("mrs")) *r->maximumRecordSize = j.num("mrs");
        } else if (t == "initr") {
            a = zget_APDU(odr, Z_APDU_initResponse);
            Z_InitResponse *r = a->u.initResponse;
            *r->result = j.boo("ok", true);
            setopts(r->options, j["opts"]);
            ODR_MASK_SET(r->protocolVersion, Z_ProtocolVersion_1);
            ODR_MASK_SET(r->protocolVersion, Z_ProtocolVersion_2);
            ODR_MASK_SET(r->protocolVersion, Z_ProtocolVersion_3);
            if (j.num("diag"))
                r->userInformationField = zget_init_diagnostics(odr, j.num("diag"), j.str("add").c_str());
            if (j.has("impl")) r->implementationName = odr_strdup(odr, j.str("impl").c_str());
        } else if (t == "search") {
            a = zget_APDU(odr, Z_APDU_searchRequest);
            Z_SearchRequest *r = a->u.searchRequest;
            setdbs(odr, j["dbs"], r->num_databaseNames, r->databaseNames);
            r->resultSetName = odr_strdup(odr, j.str("set", "default").c_str());
            *r->replaceIndicator = j.boo("rep", true);
            *r->smallSetUpperBound = j.num("ssub", 0);
            *r->largeSetLowerBound = j.num("lslb", 1);
            *r->mediumSetPresentNumber = j.num("mspn", 0);
            r->preferredRecordSyntax = oid(odr, j.str("syn"));
            r->smallSetElementSetNames = esn(odr, j.str("sesn"));
            r->mediumSetElementSetNames = esn(odr, j.str("mesn"));
            r->query = query(odr, j);
        } else if (t == "searchr") {
            a = zget_APDU(odr, Z_APDU_searchResponse);
            Z_SearchResponse *r = a->u.searchResponse;
            *r->resultCount = j.num("hits");
            *r->numberOfRecordsReturned = j.has("n") ? j.num("n") : (long long) j["recs"].a.size();
            *r->nextResultSetPosition = j.num("next");
            *r->searchStatus = j.num("status", j.num("diag") ? 0 : 1);
            r->records = mkrecs(odr, j);
        } else if (t == "present") {
            a = zget_APDU(odr, Z_APDU_presentRequest);
            Z_PresentRequest *r = a->u.presentRequest;
            r->resultSetId = odr_strdup(odr, j.str("set", "default").c_str());
            *r->resultSetStartPoint = j.num("start", 1);
            *r->numberOfRecordsRequested = j.num("num", 1);
            r->preferredRecordSyntax = oid(odr, j.str("syn"));
            if (j.str("comp") == "complex") {
                r->recordComposition = (Z_RecordComposition *) odr_malloc(odr, sizeof(Z_RecordComposition));
                r->recordComposition->which = Z_RecordComp_complex;
                r->recordComposition->u.complex = (Z_CompSpec *) odr_malloc(odr, sizeof(Z_CompSpec));
                memset(r->recordComposition->u.complex, 0, sizeof(Z_CompSpec));
                r->recordComposition->u.complex->selectAlternativeSyntax = odr_booldup(odr, 0);
            } else if (j.str("esn").length()) {
                r->recordComposition = (Z_RecordComposition *) odr_malloc(odr, sizeof(Z_RecordComposition));
                r->recordComposition->which = Z_RecordComp_simple;
                r->recordComposition->u.simple = esn(odr, j.str("esn"));
            }
        } else if (t == "presentr") {
            a = zget_APDU(odr, Z_APDU_presentResponse);
            Z_PresentResponse *r = a->u.presentResponse;
            *r->numberOfRecordsReturned = j.has("n") ? j.num("n") : (long long) j["recs"].a.size();
            *r->nextResultSetPosition = j.num("next");
            *r->presentStatus = j.num("pstatus", j.num("diag") ? Z_PresentStatus_failure : Z_PresentStatus_success);
            r->records = mkrecs(odr, j);
        } else if (t == "scan") {
            a = zget_APDU(odr, Z_APDU_scanRequest);
            Z_ScanRequest *r = a->u.scanRequest;
            setdbs(odr, j["dbs"], r->num_databaseNames, r->databaseNames);
            YAZ_PQF_Parser p = yaz_pqf_create();
            r->termListAndStartPoint = yaz_pqf_scan(p, odr, &r->attributeSet, j.str("q", "@attr 1=4 x").c_str());
            yaz_pqf_destroy(p);
            *r->numberOfTermsRequested = j.num("num", 10);
            if (j.has("pos") && j.num("pos") >= 0) r->preferredPositionInResponse = odr_intdup(odr, j.num("pos"));
            else r->preferredPositionInResponse = 0;
            if (j.has("step") && j.num("step") >= 0) r->stepSize = odr_intdup(odr, j.num("step"));
        } else if (t == "scanr") {
            a = zget_APDU(odr, Z_APDU_scanResponse);
            Z_ScanResponse *r = a->u.scanResponse;
            const J &l = j["entries"];
            *r->scanStatus = j.num("status", j.num("diag") ? Z_Scan_failure : Z_Scan_success);
            *r->numberOfEntriesReturned = j.has("n") ? j.num("n") : (long long) l.a.size();
            if (j.has("pos") && j.num("pos") >= 0) r->positionOfTerm = odr_intdup(odr, j.num("pos"));
            r->entries = (Z_ListEntries *) odr_malloc(odr, sizeof(Z_ListEntries));
            memset(r->entries, 0, sizeof *r->entries);
            r->entries->num_entries = l.a.size();
            r->entries->entries = (Z_Entry **) odr_malloc(odr, sizeof(Z_Entry *) * (l.a.size() + 1));
            for (size_t i = 0; i < l.a.size(); i++) {
                Z_Entry *e = (Z_Entry *) odr_malloc(odr, sizeof(*e));
                if (l.a[i].str("k") == "diag") {
                    e->which = Z_Entry_surrogateDiagnostic;
                    e->u.surrogateDiagnostic = zget_DiagRec(odr, 14, "");
                } else {
                    e->which = Z_Entry_termInfo;
                    Z_TermInfo *ti = (Z_TermInfo *) odr_malloc(odr, sizeof(*ti));
                    memset(ti, 0, sizeof *ti);
                    ti->term = (Z_Term *) odr_malloc(odr, sizeof(Z_Term));
                    ti->term->which = Z_Term_general;
                    ti->term->u.general = odr_create_Odr_oct(odr, l.a[i].str("term").c_str(), l.a[i].str("term").length());
                    ti->globalOccurrences = odr_intdup(odr, l.a[i].num("n"));
                    if (l.a[i].str("disp").length()) ti->displayTerm = odr_strdup(odr, l.a[i].str("disp").c_str());
                    e->u.termInfo = ti;
                }
                r->entries->entries[i] = e;
            }
            if (j.num("diag")) {
                r->entries->num_nonsurrogateDiagnostics = 1;
                r->entries->nonsurrogateDiagnostics = (Z_DiagRec **) odr_malloc(odr, sizeof(Z_DiagRec *));
                r->entries->nonsurrogateDiagnostics[0] = zget_DiagRec(odr, j.num("diag"), j.str("add").c_str());
            }
        } else if (t == "close") {
            a = zget_APDU(odr, Z_APDU_close);
            *a->u.close->closeReason = j.num("reason");
            if (j.has("msg")) a->u.close->diagnosticInformation = odr_strdup(odr, j.str("msg").c_str());
        } else if (t == "delete") {
            a = zget_APDU(odr, Z_APDU_deleteResultSetRequest);
            Z_DeleteResultSetRequest *r = a->u.deleteResultSetRequest;
            *r->deleteFunction = Z_DeleteResultSetRequest_list;

            setdbs(odr, j["sets"], r->num_resultSetList, r->resultSetList);
        } else if (t == "trigger") {
            a = zget_APDU(odr, Z_APDU_triggerResourceControlRequest);
        } else if (t == "deleter") {
            a = zget_APDU(odr, Z_APDU_deleteResultSetResponse);
        } else if (t == "sort") {
            a = zget_APDU(odr, Z_APDU_sortRequest);
            Z_SortRequest *r = a->u.sortRequest;
            setdbs(odr, j.has("in") ? j["in"] : json("[\"default\"]"), r->num_inputResultSetNames, r->inputResultSetNames);
            r->sortedResultSetName = odr_strdup(odr, j.str("out", "sorted").c_str());
            r->sortSequence = (Z_SortKeySpecList *) odr_malloc(odr, sizeof(*r->sortSequence));
            r->sortSequence->num_specs = 0;
            r->sortSequence->specs = (Z_SortKeySpec **) odr_malloc(odr, sizeof(Z_SortKeySpec *));
        } else if (t == "sortr") {
            a = zget_APDU(odr, Z_APDU_sortResponse);
            Z_SortResponse *r = a->u.sortResponse;
            *r->sortStatus = j.num("status");
            mkdiags(odr, j, r->num_diagnostics, r->diagnostics);
        } else if (t == "es") {
            a = zget_APDU(odr, Z_APDU_extendedServicesRequest);
            Z_ExtendedServicesRequest *r = a->u.extendedServicesRequest;
            *r->function = j.num("fn", 1);
            r->packageType = odr_oiddup(odr, yaz_oid_extserv_item_order);
            if (j.has("user")) r->userId = odr_strdup(odr, j.str("user").c_str());
            if (j.has("pack")) r->packageName = odr_strdup(odr, j.str("pack").c_str());
            if (j.has("desc")) r->description = odr_strdup(odr, j.str("desc").c_str());
        } else if (t == "esr") {
            a = zget_APDU(odr, Z_APDU_extendedServicesResponse);
            Z_ExtendedServicesResponse *r = a->u.extendedServicesResponse;
            *r->operationStatus = j.num("status", 1);
            mkdiags(odr, j, r->num_diagnostics, r->diagnostics);
        } else if (t == "apdu") {
            a = zget_APDU(odr, j.num("which"));
        } else { fprintf(stderr, "bad pdu %s\n", t.c_str()); exit(9); }
        setref(odr, a, j.str("ref"));
        g->u.z3950 = a;
        return g;
    }
    // ------------------------------------------------- the recording
    extern hx::Trace tr;
    // an event; with virtual time, when it was
    extern bool timed;                   // events have the time and the request they belong to
    extern thread_local int curq;
    inline hx::Rec ev(const char *op) {
        hx::Rec r;
        r.str("op", op);
        if (sched::managed()) r.num("vt", sched::now / 1000000000LL - 1700000000LL);
        if (timed) r.num("ms", sched::now / 1000000LL - 1700000000000LL).num("q", curq);
        return r;
    }
    extern std::map<unsigned long, int> sess_no;     // session id -> number
    inline int sno(const mp::Session &s) {
        unsigned long id = s.id();
        if (!sess_no.count(id)) { int n = sess_no.size() + 1; sess_no[id] = n; }
        return sess_no[id];
    }
    // ------------------------------------------------- the back end
    struct Set { std::vector<std::string> dbs; std::string q; long long hits; };
    struct BkState {
        J def;
        std::deque<J> queue;
        std::map<std::string, std::deque<J> > byvh;
        std::map<std::pair<int, std::string>, Set> sets;     // session no, set name
    };
    extern std::map<std::string, BkState> bks;
    inline bool &addrs() { static bool a = false; return a; }      // requests say where they are from
    extern void (*bk_pause)();          // a scheduling point inside the back end
    extern void (*bk_nested)(const std::string &client, const J &req);   // another client's request meanwhile
    inline std::string rectext(const std::string &name, int s, const std::string &set, const Set &x, long long pos) {
        std::string d;
        for (size_t i = 0; i < x.dbs.size(); i++) d += (i ? "+" : "") + x.dbs[i];
        return name + "|" + d + "|" + x.q + "|" + std::to_string(pos);
    }
    inline std::recursive_mutex &bk_mutex() { static std::recursive_mutex m; return m; }
    class Bk : public mp::filter::Base {
        std::string m_name;
        std::string m_move;
    public:
        Bk(const std::string &name = "") : m_name(name) {}
        void configure(const xmlNode *ptr, bool, const char *) {
            for (ptr = ptr->children; ptr; ptr = ptr->next)
                if (ptr->type == XML_ELEMENT_NODE && !strcmp((const char *) ptr->name, "name"))
                    m_name = mp::xml::get_text(ptr);
        }
        static Z_NamePlusRecord *rec(ODR odr, const std::string &text, const std::string &syn, const std::string &db) {
            Z_NamePlusRecord *n = (Z_NamePlusRecord *) odr_malloc(odr, sizeof(*n));
            n->databaseName = db.length() ? odr_strdup(odr, db.c_str()) : 0;
            n->which = Z_NamePlusRecord_databaseRecord;
            n->u.databaseRecord = z_ext_record_oid(odr, oid(odr, syn.length() ? syn : "SUTRS"), text.data(), text.length());
            return n;
        }
        Z_Records *recs(ODR odr, int s, const std::string &set, const Set &x, long long start, long long n,
                        const std::string &syn, const J &d) const {
            Z_Records *r = (Z_Records *) odr_malloc(odr, sizeof(*r));
            r->which = Z_Records_DBOSD;
            r->u.databaseOrSurDiagnostics = (Z_NamePlusRecordList *) odr_malloc(odr, sizeof(Z_NamePlusRecordList));
            r->u.databaseOrSurDiagnostics->num_records = n;
            r->u.databaseOrSurDiagnostics->records = (Z_NamePlusRecord **) odr_malloc(odr, sizeof(Z_NamePlusRecord *) * (n + 1));
            for (long long i = 0; i < n; i++) {
                std::string text = rectext(m_name, s, set, x, start + i);
                if (d.has("text")) text = d.str("text");
                if (d.has("texts") && d["texts"].a.size()) {
                    const std::vector<J> &l = d["texts"].a;
                    text = l[(start + i - 1) % l.size()].s;
                }
                r->u.databaseOrSurDiagnostics->records[i] = rec(odr, text, syn, x.dbs.size() == 1 ? x.dbs[0] : "");
            }
            return r;
        }
        void process(mp::Package &p) const {
            std::unique_lock<std::recursive_mutex> lock(bk_mutex(), std::defer_lock);
            if (!sched::managed()) lock.lock();          // one at a time, whoever calls
            BkState &b = bks[m_name];
            int s = sno(p.session());
            Z_GDU *g = p.request().get();
            hx::Rec be = ev("breq").str("bk", m_name).num("s", s).num("o", sched::tag()).boolean("closed", p.session().is_closed());
            int mine = 0;
            if (addrs()) {
                static int last = 0;
                be.num("n", mine = ++last);
                std::ostringstream os;
                os << p.origin();
                be.str("addr", p.origin().get_address()).str("fwd", os.str().substr(0, os.str().rfind(':'))).str("mine", p.origin().get_bind_address());
            }
            tr.op(be.raw("r", to_json(g)));
            if (bk_pause) bk_pause();
            mp::odr odr;
            Z_GDU *res = 0;
            J d;
            if (g && b.queue.size()) { d = b.queue.front(); b.queue.pop_front(); }
            if (bk_nested && d.has("during"))
                for (size_t i = 0; i < d["during"].a.size(); i++) {
                    J e = d["during"].a[i];          // [client, request]; no request: the client goes
                    bk_nested(e.a[0].s, e.a.size() > 1 ? e.a[1] : J());
                }
            if (d.num("wait") && sched::managed()) sched::pause_for(d.num("wait") * 1000000LL);
            std::string act = d.str("act", "ok");
            if (!g) { res = 0; }
            else if (act == "raw") res = from_json(odr, d["resp"]);
            else if (act == "drop") p.session().close();
            else if (act == "none") ;
            else if (g->which == Z_GDU_HTTP_Request) {
                J r = json("{\"t\":\"httpr\"}");
                r.o["body"].t = J::Str;
                r.o["body"].s = m_name + " " + S(g->u.HTTP_Request->method) + " " + S(g->u.HTTP_Request->path);
                res = from_json(odr, r);
            }
            else if (g->which == Z_GDU_Z3950) {
                Z_APDU *a = g->u.z3950, *o = 0;
                int code = act == "diag" ? (int) d.num("code", 2) : 0;
                std::string add = d.str("add");
                if (act == "close") {
                    o = odr.create_close(a, d.num("reason", Z_Close_systemProblem), "bk closed");
                    p.session().close();
                } else switch (a->which) {
                case Z_APDU_initRequest: {
                    o = zget_APDU(odr, Z_APDU_initResponse);
                    Z_InitResponse *r = o->u.initResponse;
                    Z_InitRequest *q = a->u.initRequest;
                    J dflt = json("[\"search\",\"present\",\"scan\",\"named\",\"delSet\"]");
                    const J &have = d.has("opts") ? d["opts"] : b.def.has("opts") ? b.def["opts"] : dflt;
                    setopts(r->options, have);
                    for (const Opt *op = opts(); op->n; op++)
                        if (!ODR_MASK_GET(q->options, op->b)) ODR_MASK_CLEAR(r->options, op->b);
                    for (int v = 0; v < 3; v++) ODR_MASK_SET(r->protocolVersion, v);
                    r->implementationName = odr_strdup(odr, m_name.c_str());
                    if (code) {
                        *r->result = 0;
                        r->userInformationField = zget_init_diagnostics(odr, code, add.c_str());
                        if (d.boo("close")) p.session().close();
                    }
                    break;
                }
                case Z_APDU_searchRequest: {
                    Z_SearchRequest *q = a->u.searchRequest;
                    o = zget_APDU(odr, Z_APDU_searchResponse);
                    Z_SearchResponse *r = o->u.searchResponse;
                    if (code) { *r->searchStatus = 0; r->records = mkrecs(odr, json("{\"kind\":\"nsd\",\"diag\":" + std::to_string(code) + ",\"add\":" + hx::q(add) + "}"));
                        *r->resultCount = d.num("hits", 0); b.sets.erase(std::make_pair(s, std::string(q->resultSetName))); break; }
                    Set x;
                    x.dbs.assign(q->databaseNames, q->databaseNames + q->num_databaseNames);
                    x.q = qstr(q->query);
                    x.hits = d.has("hits") ? d.num("hits") : b.def.num("hits", 10);
                    b.sets[std::make_pair(s, std::string(q->resultSetName))] = x;
                    *r->resultCount = x.hits;
                    long long n = x.hits <= *q->smallSetUpperBound ? x.hits :
                        x.hits >= *q->largeSetLowerBound ? 0 : std::min((long long) *q->mediumSetPresentNumber, x.hits);
                    if (d.has("give")) n = std::min(n, d.num("give"));
                    if (b.def.has("nopiggy")) n = 0;
                    if (n > 0) {
                        r->records = recs(odr, s, q->resultSetName, x, 1, n, oidname(q->preferredRecordSyntax), b.def);
                        *r->numberOfRecordsReturned = n;
                    }
                    *r->nextResultSetPosition = n < x.hits ? n + 1 : 0;
                    break;
                }
                case Z_APDU_presentRequest: {
                    Z_PresentRequest *q = a->u.presentRequest;
                    o = zget_APDU(odr, Z_APDU_presentResponse);
                    Z_PresentResponse *r = o->u.presentResponse;
                    std::pair<int, std::string> k(s, q->resultSetId);
                    long long st = *q->resultSetStartPoint, n = *q->numberOfRecordsRequested;
                    if (!code && !b.sets.count(k)) { code = YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST; add = q->resultSetId; }
                    if (!code && (st < 1 || n < 0 || st + n - 1 > b.sets[k].hits)) code = YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE;
                    if (code) { *r->presentStatus = Z_PresentStatus_failure;
                        r->records = mkrecs(odr, json("{\"kind\":\"nsd\",\"diag\":" + std::to_string(code) + ",\"add\":" + hx::q(add) + "}")); break; }
                    if (d.has("give")) n = std::min(n, d.num("give"));
                    if (b.def.has("maxgive")) n = std::min(n, b.def.num("maxgive"));
                    r->records = recs(odr, s, q->resultSetId, b.sets[k], st, n, oidname(q->preferredRecordSyntax), b.def);
                    *r->numberOfRecordsReturned = n;
                    *r->nextResultSetPosition = st + n <= b.sets[k].hits ? st + n : 0;
                    break;
                }
                case Z_APDU_scanRequest: {
                    if (code) {
                        o = odr.create_scanResponse(a, code, add.c_str());
                    } else if (d.has("scan")) {
                        o = from_json(odr, d["scan"])->u.z3950;
                    } else {
                        o = from_json(odr, json("{\"t\":\"scanr\",\"entries\":[{\"term\":\"t-" + m_name + "\",\"n\":1}],\"pos\":1}"))->u.z3950;
                    }
                    break;
                }
                case Z_APDU_deleteResultSetRequest:
                    o = zget_APDU(odr, Z_APDU_deleteResultSetResponse);
                    break;
                case Z_APDU_close:
                    o = odr.create_close(a, Z_Close_finished, 0);
                    p.session().close();
                    break;
                default:
                    o = odr.create_close(a, Z_Close_protocolError, "bk: unhandled");
                    p.session().close();
                }
                mp::util::transfer_referenceId(odr, a, o);
                res = (Z_GDU *) odr_malloc(odr, sizeof(*res));
                res->which = Z_GDU_Z3950;
                res->u.z3950 = o;
            }
            if (d.boo("thenclose")) p.session().close();
            if (bk_pause) bk_pause();
            if (res) p.response() = res;
            if (g || mine) {
                tr.op(ev("bresp").str("bk", m_name).num("s", s).num("o", sched::tag()).num("n", mine).boolean("closed", p.session().is_closed())
                      .raw("r", to_json(res ? p.response().get() : 0)));
            }
        }
    };
}
#endif
