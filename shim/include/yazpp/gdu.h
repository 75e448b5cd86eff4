/* Minimal stand-in for YAZ++ <yazpp/gdu.h> (YAZ++ itself is not installed). */
#ifndef SHIM_GDU_H
#define SHIM_GDU_H
#include <yaz/zgdu.h>
#include <yaz/proto.h>
#include <yaz/odr.h>
#include <yaz/wrbuf.h>
namespace yazpp_1 {
    class GDU {
    public:
        GDU(Z_GDU *gdu);
        GDU(Z_APDU *apdu);
        GDU(Z_GDU *gdu, ODR encode);
        GDU(const GDU &g);
        GDU();
        ~GDU();
        GDU &operator=(const GDU &g);
        GDU &operator=(Z_GDU *g);
        GDU &operator=(Z_APDU *a);
        Z_GDU *get() const;
        void move_away_gdu(ODR dst, Z_GDU **dst_gdu);
        int get_size();
        bool is_close(int val);
    private:
        void base(Z_GDU *gdu, ODR encode);
        Z_GDU *m_gdu;
        ODR m_decode;
        int m_size;
    };
}
#endif
