// Runs the HTML parser on documents (hex, one per line); one parser object
// per trace ("trace" ... "end").
#include "hx.hpp"
#include <memory>
#include "html_parser.hpp"
namespace mp = metaproxy_1;
struct Ev : public mp::HTMLParserEvent {
    std::string out, pend;
    void put(const char *e, const std::string &t, const std::string &n, bool h,
             const std::string &v, int x) {
        out += (out.length() ? "," : "") +
            hx::Rec().str("e", e).cod("t", t).cod("n", n).boolean("h", h).cod("v", v).num("x", x).done();
    }
    void flush() { if (pend.length()) { put("text", "", "", false, pend, 0); pend = ""; } }
    void openTagStart(const char *tag, int len) { flush(); put("open", std::string(tag, len), "", false, "", 0); }
    void anyTagEnd(const char *tag, int len, int c) { flush(); put("end", std::string(tag, len), "", false, "", c); }
    void attribute(const char *tag, int len, const char *a, int al, const char *v, int vl, const char *sep) {
        flush();
        put("attr", std::string(tag, len), std::string(a, al), v != 0,
            v ? std::string(v, vl) : "", v && sep ? (unsigned char) *sep : 0);
    }
    void closeTag(const char *tag, int len) { flush(); put("close", std::string(tag, len), "", false, "", 0); }
    void text(const char *v, int len) { pend += std::string(v, len); }
};
int main(int argc, char **argv)
{
    std::string line;
    hx::Trace tr;
    std::unique_ptr<mp::HTMLParser> p;
    while (std::getline(std::cin, line)) {
        if (line == "trace") { p.reset(new mp::HTMLParser); tr.begin(); continue; }
        if (line == "end") { tr.end(); continue; }
        std::string d = hx::unhex(line);
        // exact allocation so that a read past the end is seen (asan)
        std::unique_ptr<char[]> buf(new char[d.length() + 1]);
        memcpy(buf.get(), d.c_str(), d.length() + 1);
        Ev e;
        p->parse(e, buf.get());
        e.flush();
        tr.op(hx::Rec().str("op", "html").cod("doc", d).raw("evs", "[" + e.out + "]"));
    }
    return 0;
}
