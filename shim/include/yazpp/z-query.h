#ifndef SHIM_Z_QUERY_H
#define SHIM_Z_QUERY_H
#include <string>
#include <yaz/proto.h>
#include <yaz/odr.h>
namespace yazpp_1 {
    class Yaz_Z_Query {
    public:
        Yaz_Z_Query();
        Yaz_Z_Query(const Yaz_Z_Query &q);
        ~Yaz_Z_Query();
        Yaz_Z_Query &operator=(const Yaz_Z_Query &q);
        int set_rpn(const char *rpn);
        void set_Z_Query(Z_Query *z_query);
        Z_Query *get_Z_Query();
        bool match(const Yaz_Z_Query *other);
    private:
        std::string m_buf;
        bool m_set;
        ODR m_decode;
    };
}
#endif
