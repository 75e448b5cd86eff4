#ifndef SHIM_PDU_ASSOC_H
#define SHIM_PDU_ASSOC_H
#include <yazpp/pdu-observer.h>
#include <yazpp/socket-manager.h>
#include <string>
#include <list>
namespace yazpp_1 {
    class PDU_Assoc : public IPDU_Observable {
        friend class SocketManager;
    public:
        PDU_Assoc(ISocketObservable *so);
        ~PDU_Assoc();
        int send_PDU(const char *buf, int len);
        int connect(IPDU_Observer *observer, const char *addr);
        int listen(IPDU_Observer *observer, const char *addr);
        void close_session();
        void shutdown();
        IPDU_Observable *clone();
        void destroy();
        void idleTime(int timeout);
        const char *getpeername();
        void set_cert_fname(const char *fname);
        COMSTACK get_comstack() { return 0; }
        // --- stand-in network side (see shimnet.h) ---
        struct Ev { int kind; std::string data; };
        int net_id() const { return m_id; }
        SocketManager *net_manager() const { return m_sm; }
        const std::string &net_addr() const { return m_addr; }
        bool net_open() const { return m_open; }
        bool net_listening() const { return m_listening; }
        int net_timeout() const { return m_timeout; }
        void net_push(int kind, const std::string &data);
        PDU_Assoc *net_accept(const char *peer);
        bool net_has_event();
        void net_deliver();
    private:
        SocketManager *m_sm;
        IPDU_Observer *m_observer;
        std::string m_addr, m_peer;
        std::list<Ev> m_events;
        int m_id, m_timeout;
        bool m_open, m_listening;
    };
}
#endif
