/* Control side of the in-memory network behind the YAZ++ stand-in. */
#ifndef SHIMNET_H
#define SHIMNET_H
#include <yazpp/pdu-assoc.h>
#include <string>
#include <functional>
namespace shimnet {
    enum { RECV = 1, FAIL = 2, TIMEOUT = 3, CONNECT = 4 };
    struct Hooks {
        // client side connect: return 0 for "started", -1 immediate failure
        std::function<int(yazpp_1::PDU_Assoc *)> on_connect;
        std::function<int(yazpp_1::PDU_Assoc *)> on_listen;
        std::function<void(yazpp_1::PDU_Assoc *, const std::string &)> on_send;
        std::function<void(yazpp_1::PDU_Assoc *)> on_close;    // close/shutdown
        std::function<void(yazpp_1::PDU_Assoc *)> on_destroy;  // assoc deleted
        // nothing to deliver on this manager: return true if something was
        // queued and delivery should be tried again
        std::function<bool(yazpp_1::SocketManager *)> on_idle;
    };
    extern Hooks hooks;
}
#endif
