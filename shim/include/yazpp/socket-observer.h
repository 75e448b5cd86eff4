#ifndef SHIM_SOCKET_OBSERVER_H
#define SHIM_SOCKET_OBSERVER_H
namespace yazpp_1 {
    enum SocketObserve {
        SOCKET_OBSERVE_READ = 1,
        SOCKET_OBSERVE_WRITE = 2,
        SOCKET_OBSERVE_EXCEPT = 4,
        SOCKET_OBSERVE_TIMEOUT = 8
    };
    class ISocketObserver {
    public:
        virtual void socketNotify(int event) = 0;
        virtual ~ISocketObserver() {}
    };
    class ISocketObservable {
    public:
        virtual void addObserver(int fd, ISocketObserver *observer) = 0;
        virtual void deleteObserver(ISocketObserver *observer) = 0;
        virtual void deleteObservers() = 0;
        virtual void maskObserver(ISocketObserver *observer, int mask) = 0;
        virtual void timeoutObserver(ISocketObserver *observer, int timeout) = 0;
        virtual ~ISocketObservable() {}
    };
}
#endif
