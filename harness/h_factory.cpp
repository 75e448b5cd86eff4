// argv[1]: plugin directory
#include "hx.hpp"
#include <memory>
#include <metaproxy/filter.hpp>
#include <metaproxy/package.hpp>
#include "factory_filter.hpp"
#include "factory_static.hpp"
namespace mp = metaproxy_1;
static std::string made;
extern "C" void hx_dl_mark(const char *s) { made = s; }
class F : public mp::filter::Base {
public:
    void process(mp::Package &) const { }
    void configure(const xmlNode *, bool, const char *) { }
};
static mp::filter::Base *c1() { made = "c1"; return new F; }
static mp::filter::Base *c2() { made = "c2"; return new F; }
static mp::filter::Base *c3() { made = "c3"; return new F; }
static mp::filter::Base *cdl() { made = "dl-exedl"; return new F; }
extern "C" {
    struct metaproxy_1_filter_struct metaproxy_1_filter_exedl = { 0, "exedl", cdl };
}
int main(int argc, char **argv)
{
    std::string line;
    hx::Trace tr;
    std::unique_ptr<mp::FactoryFilter> f;
    std::cout.rdbuf(0);
    while (std::getline(std::cin, line)) {
        std::vector<std::string> v = hx::tokens(line);
        if (v.empty()) continue;
        if (v[0] == "trace") { f.reset(new mp::FactoryFilter); tr.begin(); continue; }
        if (v[0] == "end") { tr.end(); continue; }
        hx::Rec r;
        r.str("op", v[0]).str("name", v[1]);
        if (v[0] == "add") {
            r.str("creator", v[2]).boolean("res", f->add_creator(v[1], v[2] == "c1" ? c1 : v[2] == "c2" ? c2 : c3));
        } else if (v[0] == "drop") r.boolean("res", f->drop_creator(v[1]));
        else if (v[0] == "exist") r.boolean("res", f->exist(v[1]));
        else if (v[0] == "dl")
            r.boolean("dir", v[2] == "1").boolean("res", f->add_creator_dl(v[1], v[2] == "1" ? argv[1] : "/nonexistent"));
        else if (v[0] == "create") {
            made = "?";
            try {
                std::unique_ptr<mp::filter::Base> b(f->create(v[1]));
                if (!b) made = "null";
            } catch (mp::FactoryFilter::NotFound &) { made = "NotFound"; }
            r.str("made", made);
        } else if (v[0] == "static") {
            mp::FactoryStatic s;
            bool e = s.exist(v[1]), c = false;
            try {
                std::unique_ptr<mp::filter::Base> b(s.create(v[1]));
                c = b.get() != 0;
            } catch (std::exception &) { }
            r.boolean("exists", e).boolean("created", c);
        }
        tr.op(r);
    }
    return 0;
}
