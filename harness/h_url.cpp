// line: <recipe hex> { m|u|x <type hex> <text hex> }*   m metadata, u metadata
// without type, x another element
#include "hx.hpp"
#include <metaproxy/xmlutil.hpp>
#include <libxml/tree.h>
int main(int argc, char **argv)
{
    std::string line;
    hx::Trace tr;
    while (std::getline(std::cin, line)) {
        if (line == "trace") { tr.begin(); continue; }
        if (line == "end") { tr.end(); continue; }
        std::vector<std::string> v = hx::tokens(line);
        std::string recipe = hx::unhex(v[0]);
        xmlDoc *doc = xmlNewDoc(BAD_CAST "1.0");
        xmlNode *root = xmlNewNode(0, BAD_CAST "record");
        xmlDocSetRootElement(doc, root);
        std::string meta;
        for (size_t i = 1; i + 2 < v.size(); i += 3) {
            std::string type = hx::unhex(v[i + 1]), text = hx::unhex(v[i + 2]);
            xmlAddChild(root, xmlNewText(BAD_CAST "\n"));
            xmlNode *n = xmlNewTextChild(root, 0, BAD_CAST (v[i] == "x" ? "other" : "metadata"),
                                         BAD_CAST text.c_str());
            xmlNewProp(n, BAD_CAST "a", BAD_CAST "title");
            if (v[i] != "u") xmlNewProp(n, BAD_CAST "type", BAD_CAST type.c_str());
            xmlNewProp(n, BAD_CAST "z", BAD_CAST "date");
            meta += (i > 1 ? "," : "") + hx::Rec().boolean("typed", v[i] == "m" && type.length())
                .cod("type", type).cod("text", text).done();
        }
        hx::Rec r;
        r.str("op", "recipe").raw("meta", "[" + meta + "]").cod("recipe", recipe);
        try {
            r.cod("out", metaproxy_1::xml::url_recipe_handle(doc, recipe));
        } catch (std::exception &e) {
            r.cod("out", std::string("exception ") + e.what());
        }
        tr.op(r);
        xmlFreeDoc(doc);
    }
    return 0;
}
