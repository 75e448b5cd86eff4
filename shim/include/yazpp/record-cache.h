#ifndef SHIM_RECORD_CACHE_H
#define SHIM_RECORD_CACHE_H
#include <yaz/proto.h>
#include <yaz/odr.h>
#include <string>
#include <list>
namespace yazpp_1 {
    class RecordCache {
        struct Entry { int pos; std::string comp; std::string rec; };
        std::list<Entry> m_entries;
        size_t m_size, m_max;
    public:
        RecordCache();
        ~RecordCache();
        void add(ODR o, Z_NamePlusRecordList *npr, int start,
                 Z_RecordComposition *comp);
        bool lookup(ODR o, Z_NamePlusRecordList **npr, int start, int num,
                    Odr_oid *syntax, Z_RecordComposition *comp);
        void clear();
        void set_max_size(int sz) { m_max = sz; }
    };
}
#endif
