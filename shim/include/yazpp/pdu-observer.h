#ifndef SHIM_PDU_OBSERVER_H
#define SHIM_PDU_OBSERVER_H
#include <yaz/comstack.h>
namespace yazpp_1 {
    class IPDU_Observer;
    class IPDU_Observable {
    public:
        virtual int send_PDU(const char *buf, int len) = 0;
        virtual int connect(IPDU_Observer *observer, const char *addr) = 0;
        virtual int listen(IPDU_Observer *observer, const char *addr) = 0;
        virtual void close_session() = 0;
        virtual void shutdown() = 0;
        virtual IPDU_Observable *clone() = 0;
        virtual void destroy() = 0;
        virtual void idleTime(int timeout) = 0;
        virtual const char *getpeername() = 0;
        virtual ~IPDU_Observable() {}
    };
    class IPDU_Observer {
    public:
        virtual void recv_PDU(const char *buf, int len) = 0;
        virtual void connectNotify() = 0;
        virtual void failNotify() = 0;
        virtual void timeoutNotify() = 0;
        virtual IPDU_Observer *sessionNotify(
            IPDU_Observable *the_PDU_Observable, int fd) = 0;
        virtual ~IPDU_Observer() {}
    };
}
#endif
