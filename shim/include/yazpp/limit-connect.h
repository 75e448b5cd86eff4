#ifndef SHIM_LIMIT_CONNECT_H
#define SHIM_LIMIT_CONNECT_H
#include <map>
#include <string>
#include <yazpp/timestat.h>
namespace yazpp_1 {
    class LimitConnect {
        std::map<std::string, TimeStat> m_peers;
        int m_period;
    public:
        LimitConnect();
        ~LimitConnect();
        void set_period(int sec);
        void add_connect(const char *peername);
        int get_total(const char *peername);
        void cleanup(bool all);
    };
}
#endif
