// <fn> <node json hex> <xml hex or - for no node> args...   applied to the root element
#include "hx.hpp"
#include <metaproxy/xmlutil.hpp>
#include <libxml/parser.h>
namespace X = metaproxy_1::xml;
static int type_of(const std::string &t)
{
    return t == "element" ? XML_ELEMENT_NODE : t == "text" ? XML_TEXT_NODE : XML_COMMENT_NODE;
}
static int index_of(const xmlNode *root, const xmlNode *n)
{
    int i = 1;
    for (const xmlNode *p = root->children; p; p = p->next, i++)
        if (p == n) return i;
    return n ? -1 : 0;
}
static const xmlNode *child(const xmlNode *root, int i)
{
    const xmlNode *p = root->children;
    for (; p && i > 1; i--) p = p->next;
    return p;
}
int main(int argc, char **argv)
{
    std::string line;
    hx::Trace tr;
    while (std::getline(std::cin, line)) {
        if (line == "trace") { tr.begin(); continue; }
        if (line == "end") { tr.end(); continue; }
        std::vector<std::string> v = hx::tokens(line);
        std::string xml = hx::unhex(v[2]), fn = v[0];
        xmlDocPtr doc = v[2] == "-" ? 0 : xmlParseMemory(xml.c_str(), xml.length());
        const xmlNode *n = doc ? xmlDocGetRootElement(doc) : 0;
        std::vector<std::string> a;
        for (size_t i = 3; i < v.size(); i++) a.push_back(hx::unhex(v[i]));
        hx::Rec r;
        r.str("op", fn).raw("node", hx::unhex(v[1]));
        std::vector<std::string> vals;
        bool ok = true, has_ok = false, has_vals = false;
        try {
            if (fn == "get_text") r.cod("text", X::get_text(n));
            else if (fn == "attr_text") {
                has_vals = true;
                for (const struct _xmlAttr *p = n->properties; p; p = p->next) vals.push_back(X::get_text(p));
            }
            else if (fn == "get_bool") r.boolean("def", a[0] == "1").boolean("res", X::get_bool(n, a[0] == "1"));
            else if (fn == "get_int") r.num("def", atoi(a[0].c_str())).num("res", X::get_int(n, atoi(a[0].c_str())));
            else if (fn == "parse_attr") {
                has_ok = has_vals = true;
                std::vector<const char *> names;
                std::string js;
                for (auto &s : a) { names.push_back(s.c_str()); js += (js.length() ? "," : "") + hx::q(s); }
                names.push_back(0);
                r.raw("names", "[" + js + "]");
                vals.assign(a.size(), "stale");
                X::parse_attr(n, &names[0], vals.empty() ? 0 : &vals[0]);
            }
            else if (fn == "get_route") { has_ok = has_vals = true; vals.push_back(X::get_route(n)); }
            else if (fn == "get_route2") {
                has_ok = has_vals = true;
                std::string auth = "stale";
                std::string s = X::get_route(n, auth);
                vals.push_back(s); vals.push_back(auth);
            }
            else if (fn == "children") r.str("type", a[0]).num("res", index_of(n, X::jump_to_children(n, type_of(a[0]))));
            else if (fn == "next") r.str("type", a[0]).num("at", atoi(a[1].c_str()))
                .num("res", index_of(n, X::jump_to_next(child(n, atoi(a[1].c_str())), type_of(a[0]))));
            else if (fn == "jump") r.str("type", a[0]).num("at", atoi(a[1].c_str()))
                .num("res", index_of(n, X::jump_to(child(n, atoi(a[1].c_str())), type_of(a[0]))));
            else if (fn == "is_element") r.str("ns", a[0]).str("name", a[1]).boolean("res", X::is_element(n, a[0], a[1]));
            else if (fn == "is_element_mp") r.str("name", a[0]).boolean("res", X::is_element_mp(n, a[0]));
            else if (fn == "check_element_mp") { has_ok = true; r.str("name", a[0]); X::check_element_mp(n, a[0]); }
            else if (fn == "check_empty") { has_ok = true; X::check_empty(n); }
            else if (fn == "is_attribute" || fn == "check_attribute") {
                int i = atoi(a[2].c_str());
                const struct _xmlAttr *p = n->properties;
                for (int k = 1; k < i; k++) p = p->next;
                r.str("ns", a[0]).str("name", a[1]).num("at", i);
                if (fn == "is_attribute") r.boolean("res", X::is_attribute(p, a[0], a[1]));
                else { has_ok = true; X::check_attribute(p, a[0], a[1]); }
            }
        } catch (metaproxy_1::XMLError &) { ok = false; vals.clear(); }
        if (has_ok) r.boolean("ok", ok);
        if (has_vals) {
            std::string js;
            for (size_t i = 0; i < vals.size(); i++) js += (i ? "," : "") + hx::codes(vals[i]);
            r.raw("vals", "[" + js + "]");
        }
        tr.op(r);
        if (doc) xmlFreeDoc(doc);
    }
    return 0;
}
