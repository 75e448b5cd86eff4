#include "hx.hpp"
#include <memory>
#include <metaproxy/origin.hpp>
namespace mp = metaproxy_1;
int main(int argc, char **argv)
{
    std::string line;
    hx::Trace tr;
    std::unique_ptr<mp::Origin> o;
    while (std::getline(std::cin, line)) {
        if (line == "trace") { o.reset(new mp::Origin); tr.begin(); continue; }
        if (line == "end") { tr.end(); continue; }
        // fields are separated by tabs; words may be empty
        std::vector<std::string> v;
        std::istringstream is(line);
        std::string t;
        while (std::getline(is, t, '\t')) v.push_back(t);
        if (line[line.length() - 1] == '\t') v.push_back("");
        hx::Rec r;
        r.str("op", v[0]);
        if (v[0] == "set") {
            std::string a, w;
            for (size_t i = 2; i < v.size(); i++) {
                a += (i > 2 ? " " : "") + v[i];
                w += (i > 2 ? "," : "") + hx::q(v[i]);
            }
            o->set_tcpip_address(a, atoi(v[1].c_str()));
            r.raw("words", "[" + w + "]").num("id", atoi(v[1].c_str()));
        } else if (v[0] == "custom") { o->set_custom_session(v[1]); r.str("txt", v[1]); }
        else if (v[0] == "max") { o->set_max_sockets(atoi(v[1].c_str())); r.num("n", atoi(v[1].c_str())); }
        else {
            mp::Origin c(*o);      // a copy is as good as the original
            std::ostringstream os;
            os << c;
            r.str("address", c.get_address()).str("bind", o->get_bind_address())
                .num("max", o->get_max_sockets()).str("print", os.str());
        }
        tr.op(r);
    }
    return 0;
}
