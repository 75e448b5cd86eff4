// A filter module: -DNAME=... names the exported structure
#include <metaproxy/filter.hpp>
#include <metaproxy/package.hpp>
namespace mp = metaproxy_1;
extern "C" void hx_dl_mark(const char *);
class Plug : public mp::filter::Base {
public:
    void process(mp::Package &) const { }
    void configure(const xmlNode *, bool, const char *) { }
};
static mp::filter::Base *creator() { hx_dl_mark("dl-plug"); return new Plug; }
extern "C" {
    struct metaproxy_1_filter_struct NAME = { 0, "plug", creator };
}
