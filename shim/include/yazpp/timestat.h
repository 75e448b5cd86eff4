#ifndef SHIM_TIMESTAT_H
#define SHIM_TIMESTAT_H
#include <time.h>
#include <list>
namespace yazpp_1 {
    class TimeStat {
        struct B { time_t t; long bytes; };
        std::list<B> m_b;
        int m_period;
        void purge();
    public:
        TimeStat(int period);
        ~TimeStat();
        void add_bytes(int b);
        int get_total();
    };
}
#endif
