#ifndef SHIM_CQL2RPN_H
#define SHIM_CQL2RPN_H
#include <yaz/cql.h>
#include <yaz/proto.h>
#include <yaz/wrbuf.h>
namespace yazpp_1 {
    class Yaz_cql2rpn {
        cql_transform_t m_transform;
    public:
        Yaz_cql2rpn();
        ~Yaz_cql2rpn();
        void set_pqf_file(const char *fname);
        bool parse_spec_file(const char *fname, int *error);
        int query_transform(const char *cql, Z_RPNQuery **rpn, ODR o,
                            char **addinfo);
        int rpn2cql_transform(Z_RPNQuery *rpn, WRBUF cql, ODR o,
                              char **addinfo);
    };
}
#endif
