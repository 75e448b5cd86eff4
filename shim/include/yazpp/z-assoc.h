#ifndef SHIM_Z_ASSOC_H
#define SHIM_Z_ASSOC_H
#include <yazpp/pdu-observer.h>
#include <yaz/zgdu.h>
#include <yaz/odr.h>
namespace yazpp_1 {
    class Z_Assoc : public IPDU_Observer {
    public:
        Z_Assoc(IPDU_Observable *the_PDU_Observable);
        virtual ~Z_Assoc();
        void recv_PDU(const char *buf, int len);
        virtual void connectNotify() = 0;
        virtual void failNotify() = 0;
        virtual void timeoutNotify() = 0;
        virtual void recv_GDU(Z_GDU *apdu, int len) = 0;
        Z_APDU *create_Z_PDU(int type);
        int send_Z_PDU(Z_APDU *apdu, int *len);
        int send_GDU(Z_GDU *apdu, int *len);
        void timeout(int timeout);
        void close();
        int client(const char *addr);
        int server(const char *addr);
        const char *get_hostname();
        ODR odr_encode() { return m_encode; }
        ODR odr_decode() { return m_decode; }
    private:
        IPDU_Observable *m_obs;
        ODR m_encode, m_decode;
        char *m_hostname;
    };
}
#endif
