#ifndef SHIM_SOCKET_MANAGER_H
#define SHIM_SOCKET_MANAGER_H
#include <yazpp/socket-observer.h>
#include <list>
#include <time.h>
namespace yazpp_1 {
    class PDU_Assoc;
    /* Real descriptors are polled; in addition in-memory connections of the
       stand-in network (shimnet.h) deliver their events through here. */
    class SocketManager : public ISocketObservable {
    public:
        SocketManager();
        ~SocketManager();
        void addObserver(int fd, ISocketObserver *observer);
        void deleteObserver(ISocketObserver *observer);
        void deleteObservers();
        void maskObserver(ISocketObserver *observer, int mask);
        void timeoutObserver(ISocketObserver *observer, int timeout);
        int processEvent();
        int getNumberOfObservers();
        void attach(PDU_Assoc *a);
        void detach(PDU_Assoc *a);
    private:
        struct E { int fd; ISocketObserver *o; int mask; int timeout; time_t last; };
        std::list<E> m_obs;
        std::list<PDU_Assoc *> m_assocs;
    };
}
#endif
