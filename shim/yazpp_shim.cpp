#include <yazpp/gdu.h>
#include <yazpp/z-query.h>
#include <yazpp/record-cache.h>
#include <yazpp/timestat.h>
#include <yazpp/limit-connect.h>
#include <yazpp/socket-manager.h>
#include <yazpp/pdu-assoc.h>
#include <yazpp/z-assoc.h>
#include <yazpp/cql2rpn.h>
#include <shimnet.h>
#include <yaz/oid_util.h>
#include <yaz/pquery.h>
#include <yaz/rpn2cql.h>
#include <poll.h>
#include <string.h>
#include <stdlib.h>
#include <vector>
using namespace yazpp_1;

shimnet::Hooks shimnet::hooks;

// ---------------------------------------------------------------- GDU
void GDU::base(Z_GDU *g, ODR encode)
{
    m_decode = odr_createmem(ODR_DECODE);
    m_gdu = 0;
    m_size = 0;
    if (g && z_GDU(encode, &g, 0, "encode"))
    {
        int len;
        char *buf = odr_getbuf(encode, &len, 0);
        m_size = len;
        odr_setbuf(m_decode, buf, len, 0);
        z_GDU(m_decode, &m_gdu, 0, 0);
    }
}
GDU::GDU(Z_APDU *apdu)
{
    ODR e = odr_createmem(ODR_ENCODE);
    if (!apdu)
        base(0, e);
    else
    {
        Z_GDU *g = (Z_GDU *) odr_malloc(e, sizeof(*g));
        g->which = Z_GDU_Z3950;
        g->u.z3950 = apdu;
        base(g, e);
    }
    odr_destroy(e);
}
GDU::GDU(Z_GDU *g, ODR encode) { base(g, encode); }
GDU::GDU(Z_GDU *g)
{
    ODR e = odr_createmem(ODR_ENCODE);
    base(g, e);
    odr_destroy(e);
}
GDU::GDU() { base(0, 0); }
GDU::GDU(const GDU &g)
{
    ODR e = odr_createmem(ODR_ENCODE);
    base(g.get(), e);
    odr_destroy(e);
}
GDU::~GDU() { odr_destroy(m_decode); }
GDU &GDU::operator=(const GDU &g)
{
    if (this != &g)
    {
        ODR old = m_decode;
        ODR e = odr_createmem(ODR_ENCODE);
        base(g.get(), e);
        odr_destroy(e);
        odr_destroy(old);
    }
    return *this;
}
GDU &GDU::operator=(Z_GDU *g) { GDU t(g); return *this = t; }
GDU &GDU::operator=(Z_APDU *a) { GDU t(a); return *this = t; }
Z_GDU *GDU::get() const { return m_gdu; }
void GDU::move_away_gdu(ODR dst, Z_GDU **dst_gdu)
{
    NMEM nmem = odr_extract_mem(m_decode);
    if (dst->mem == 0)
        dst->mem = nmem_create();
    nmem_transfer(dst->mem, nmem);
    nmem_destroy(nmem);
    *dst_gdu = m_gdu;
    m_gdu = 0;
}
int GDU::get_size() { return m_size; }
bool GDU::is_close(int)
{
    return m_gdu && m_gdu->which == Z_GDU_Z3950
        && m_gdu->u.z3950->which == Z_APDU_close;
}

// ---------------------------------------------------------------- Z_Query
Yaz_Z_Query::Yaz_Z_Query() : m_set(false) { m_decode = odr_createmem(ODR_DECODE); }
Yaz_Z_Query::Yaz_Z_Query(const Yaz_Z_Query &q) : m_buf(q.m_buf), m_set(q.m_set)
{
    m_decode = odr_createmem(ODR_DECODE);
}
Yaz_Z_Query::~Yaz_Z_Query() { odr_destroy(m_decode); }
Yaz_Z_Query &Yaz_Z_Query::operator=(const Yaz_Z_Query &q)
{
    if (this != &q)
    {
        m_buf = q.m_buf;
        m_set = q.m_set;
    }
    return *this;
}
void Yaz_Z_Query::set_Z_Query(Z_Query *q)
{
    m_set = false;
    m_buf.clear();
    ODR e = odr_createmem(ODR_ENCODE);
    if (z_Query(e, &q, 0, 0))
    {
        int len;
        char *b = odr_getbuf(e, &len, 0);
        m_buf.assign(b, len);
        m_set = true;
    }
    odr_destroy(e);
}
int Yaz_Z_Query::set_rpn(const char *rpn)
{
    ODR e = odr_createmem(ODR_ENCODE);
    YAZ_PQF_Parser p = yaz_pqf_create();
    Z_Query q;
    q.which = Z_Query_type_1;
    q.u.type_1 = yaz_pqf_parse(p, e, rpn);
    yaz_pqf_destroy(p);
    int r = -1;
    if (q.u.type_1)
    {
        set_Z_Query(&q);
        r = 0;
    }
    odr_destroy(e);
    return r;
}
Z_Query *Yaz_Z_Query::get_Z_Query()
{
    Z_Query *q = 0;
    if (!m_set)
        return 0;
    odr_setbuf(m_decode, (char *) m_buf.data(), m_buf.length(), 0);
    if (!z_Query(m_decode, &q, 0, 0))
        return 0;
    return q;
}
bool Yaz_Z_Query::match(const Yaz_Z_Query *o)
{
    return m_set && o->m_set && m_buf == o->m_buf;
}

// ---------------------------------------------------------------- RecordCache
static std::string enc_comp(Z_RecordComposition *c)
{
    std::string r;
    if (!c)
        return r;
    ODR e = odr_createmem(ODR_ENCODE);
    if (z_RecordComposition(e, &c, 0, 0))
    {
        int len;
        char *b = odr_getbuf(e, &len, 0);
        r.assign("x");
        r.append(b, len);
    }
    odr_destroy(e);
    return r;
}
RecordCache::RecordCache() : m_size(0), m_max(200000) {}
RecordCache::~RecordCache() {}
void RecordCache::clear() { m_entries.clear(); m_size = 0; }
void RecordCache::add(ODR, Z_NamePlusRecordList *npr, int start,
                      Z_RecordComposition *comp)
{
    if (m_size > m_max)
        return;
    std::string c = enc_comp(comp);
    for (int i = 0; i < npr->num_records; i++)
    {
        if (npr->records[i]->which != Z_NamePlusRecord_databaseRecord)
            continue;
        ODR e = odr_createmem(ODR_ENCODE);
        Z_NamePlusRecord *n = npr->records[i];
        if (z_NamePlusRecord(e, &n, 0, 0))
        {
            int len;
            char *b = odr_getbuf(e, &len, 0);
            Entry en;
            en.pos = start + i;
            en.comp = c;
            en.rec.assign(b, len);
            m_size += len;
            m_entries.push_back(en);
        }
        odr_destroy(e);
    }
}
bool RecordCache::lookup(ODR o, Z_NamePlusRecordList **npr, int start, int num,
                         Odr_oid *syntax, Z_RecordComposition *comp)
{
    std::string c = enc_comp(comp);
    if (num <= 0 || !syntax)
        return false;
    Z_NamePlusRecordList *l =
        (Z_NamePlusRecordList *) odr_malloc(o, sizeof(*l));
    l->num_records = 0;
    l->records = (Z_NamePlusRecord **)
        odr_malloc(o, sizeof(*l->records) * num);
    for (int i = 0; i < num; i++)
    {
        bool found = false;
        std::list<Entry>::iterator it = m_entries.begin();
        for (; it != m_entries.end() && !found; it++)
        {
            if (it->pos != start + i || it->comp != c)
                continue;
            ODR d = odr_createmem(ODR_DECODE);
            char *b = (char *) odr_malloc(o, it->rec.length());
            memcpy(b, it->rec.data(), it->rec.length());
            odr_setbuf(d, b, it->rec.length(), 0);
            Z_NamePlusRecord *n = 0;
            if (z_NamePlusRecord(d, &n, 0, 0)
                && n->u.databaseRecord->direct_reference
                && !oid_oidcmp(n->u.databaseRecord->direct_reference, syntax))
            {
                NMEM nm = odr_extract_mem(d);
                nmem_transfer(odr_getmem(o), nm);
                nmem_destroy(nm);
                l->records[l->num_records++] = n;
                found = true;
            }
            odr_destroy(d);
        }
        if (!found)
            return false;
    }
    *npr = l;
    return true;
}

// ---------------------------------------------------------------- TimeStat
TimeStat::TimeStat(int period) : m_period(period) {}
TimeStat::~TimeStat() {}
void TimeStat::purge()
{
    time_t now = time(0);
    while (!m_b.empty() && now - m_b.front().t >= m_period)
        m_b.pop_front();
}
void TimeStat::add_bytes(int b)
{
    time_t now = time(0);
    purge();
    if (m_b.empty() || m_b.back().t != now)
    {
        B e;
        e.t = now;
        e.bytes = 0;
        m_b.push_back(e);
    }
    m_b.back().bytes += b;
}
int TimeStat::get_total()
{
    purge();
    long s = 0;
    for (std::list<B>::iterator it = m_b.begin(); it != m_b.end(); it++)
        s += it->bytes;
    return s;
}
LimitConnect::LimitConnect() : m_period(60) {}
LimitConnect::~LimitConnect() {}
void LimitConnect::set_period(int sec) { m_period = sec; }
void LimitConnect::add_connect(const char *p)
{
    m_peers.insert(std::make_pair(std::string(p), TimeStat(m_period)))
        .first->second.add_bytes(1);
}
int LimitConnect::get_total(const char *p)
{
    std::map<std::string, TimeStat>::iterator it = m_peers.find(p);
    return it == m_peers.end() ? 0 : it->second.get_total();
}
void LimitConnect::cleanup(bool all)
{
    std::map<std::string, TimeStat>::iterator it = m_peers.begin();
    while (it != m_peers.end())
        if (all || it->second.get_total() == 0)
            m_peers.erase(it++);
        else
            it++;
}

// ---------------------------------------------------------------- network
SocketManager::SocketManager() {}
SocketManager::~SocketManager() {}
void SocketManager::addObserver(int fd, ISocketObserver *o)
{
    for (std::list<E>::iterator it = m_obs.begin(); it != m_obs.end(); it++)
        if (it->o == o)
        {
            it->fd = fd;
            return;
        }
    E e;
    e.fd = fd; e.o = o; e.mask = 0; e.timeout = -1; e.last = time(0);
    m_obs.push_back(e);
}
void SocketManager::deleteObserver(ISocketObserver *o)
{
    for (std::list<E>::iterator it = m_obs.begin(); it != m_obs.end(); it++)
        if (it->o == o)
        {
            m_obs.erase(it);
            return;
        }
}
void SocketManager::deleteObservers() { m_obs.clear(); }
void SocketManager::maskObserver(ISocketObserver *o, int mask)
{
    for (std::list<E>::iterator it = m_obs.begin(); it != m_obs.end(); it++)
        if (it->o == o)
            it->mask = mask;
}
void SocketManager::timeoutObserver(ISocketObserver *o, int timeout)
{
    for (std::list<E>::iterator it = m_obs.begin(); it != m_obs.end(); it++)
        if (it->o == o)
        {
            it->timeout = timeout;
            it->last = time(0);
        }
}
void SocketManager::attach(PDU_Assoc *a) { m_assocs.push_back(a); }
void SocketManager::detach(PDU_Assoc *a) { m_assocs.remove(a); }
int SocketManager::getNumberOfObservers()
{
    int n = m_obs.size();
    for (std::list<PDU_Assoc *>::iterator it = m_assocs.begin();
         it != m_assocs.end(); it++)
        if ((*it)->m_open)
            n++;
    return n;
}
int SocketManager::processEvent()
{
    bool again = true;
    while (again)
    {
        for (std::list<PDU_Assoc *>::iterator it = m_assocs.begin();
             it != m_assocs.end(); it++)
            if ((*it)->net_has_event())
            {
                (*it)->net_deliver();
                return 1;
            }
        again = shimnet::hooks.on_idle && shimnet::hooks.on_idle(this);
    }
    if (getNumberOfObservers() == 0)
        return 0;
    if (m_obs.empty())
        return shimnet::hooks.on_idle ? 0 : 1;
    std::vector<pollfd> p;
    std::vector<ISocketObserver *> o;
    int to = -1;
    for (std::list<E>::iterator it = m_obs.begin(); it != m_obs.end(); it++)
    {
        pollfd f;
        f.fd = it->fd;
        f.events = 0;
        f.revents = 0;
        if (it->mask & SOCKET_OBSERVE_READ)
            f.events |= POLLIN;
        if (it->mask & SOCKET_OBSERVE_WRITE)
            f.events |= POLLOUT;
        p.push_back(f);
        o.push_back(it->o);
        if (it->timeout >= 0)
        {
            int left = it->last + it->timeout - time(0);
            if (left < 0)
                left = 0;
            if (to < 0 || left < to)
                to = left;
        }
    }
    int r = poll(&p[0], p.size(), to < 0 ? -1 : to * 1000);
    if (r > 0)
    {
        for (size_t i = 0; i < p.size(); i++)
            if (p[i].revents)
            {
                int ev = 0;
                if (p[i].revents & (POLLIN | POLLHUP))
                    ev |= SOCKET_OBSERVE_READ;
                if (p[i].revents & POLLOUT)
                    ev |= SOCKET_OBSERVE_WRITE;
                if (p[i].revents & (POLLERR | POLLNVAL))
                    ev |= SOCKET_OBSERVE_EXCEPT;
                for (std::list<E>::iterator it = m_obs.begin();
                     it != m_obs.end(); it++)
                    if (it->o == o[i])
                        it->last = time(0);
                o[i]->socketNotify(ev);
                return 1;
            }
    }
    time_t now = time(0);
    for (std::list<E>::iterator it = m_obs.begin(); it != m_obs.end(); it++)
        if (it->timeout >= 0 && now - it->last >= it->timeout)
        {
            it->last = now;
            it->o->socketNotify(SOCKET_OBSERVE_TIMEOUT);
            return 1;
        }
    return 1;
}

static int g_next_id = 0;
PDU_Assoc::PDU_Assoc(ISocketObservable *so)
    : m_sm(dynamic_cast<SocketManager *>(so)), m_observer(0),
      m_id(__sync_add_and_fetch(&g_next_id, 1)), m_timeout(-1), m_open(false),
      m_listening(false)
{
    if (m_sm)
        m_sm->attach(this);
}
PDU_Assoc::~PDU_Assoc()
{
    shutdown();
    if (shimnet::hooks.on_destroy)
        shimnet::hooks.on_destroy(this);
    if (m_sm)
        m_sm->detach(this);
}
int PDU_Assoc::send_PDU(const char *buf, int len)
{
    if (!m_open)
        return -1;
    if (shimnet::hooks.on_send)
        shimnet::hooks.on_send(this, std::string(buf, len));
    return 0;
}
int PDU_Assoc::connect(IPDU_Observer *o, const char *addr)
{
    shutdown();
    m_observer = o;
    m_addr = addr;
    m_peer = addr;
    if (shimnet::hooks.on_connect && shimnet::hooks.on_connect(this))
        return -1;
    m_open = true;
    return 0;
}
int PDU_Assoc::listen(IPDU_Observer *o, const char *addr)
{
    shutdown();
    m_observer = o;
    m_addr = addr;
    if (!*addr)
        return -1;
    if (shimnet::hooks.on_listen && shimnet::hooks.on_listen(this))
        return -1;
    m_open = true;
    m_listening = true;
    return 0;
}
void PDU_Assoc::close_session()
{
    // as in YAZ++: output drained (it always is here), then the observer is
    // told that the connection is gone
    shutdown();
    if (m_observer)
        m_observer->failNotify();
}
void PDU_Assoc::shutdown()
{
    m_events.clear();
    if (m_open)
    {
        m_open = false;
        m_listening = false;
        if (shimnet::hooks.on_close)
            shimnet::hooks.on_close(this);
    }
}
IPDU_Observable *PDU_Assoc::clone() { return new PDU_Assoc(m_sm); }
void PDU_Assoc::destroy() { delete this; }
void PDU_Assoc::idleTime(int t) { m_timeout = t; }
const char *PDU_Assoc::getpeername()
{
    return m_peer.empty() ? 0 : m_peer.c_str();
}
void PDU_Assoc::set_cert_fname(const char *) {}
void PDU_Assoc::net_push(int kind, const std::string &data)
{
    Ev e;
    e.kind = kind;
    e.data = data;
    m_events.push_back(e);
}
bool PDU_Assoc::net_has_event() { return m_open && !m_events.empty(); }
void PDU_Assoc::net_deliver()
{
    Ev e = m_events.front();
    m_events.pop_front();
    if (!m_observer)
        return;
    switch (e.kind)
    {
    case shimnet::RECV: m_observer->recv_PDU(e.data.data(), e.data.length()); break;
    case shimnet::FAIL: shutdown(); m_observer->failNotify(); break;
    case shimnet::TIMEOUT: m_observer->timeoutNotify(); break;
    case shimnet::CONNECT: m_observer->connectNotify(); break;
    }
}
PDU_Assoc *PDU_Assoc::net_accept(const char *peer)
{
    PDU_Assoc *n = new PDU_Assoc(m_sm);
    n->m_open = true;
    if (peer)
        n->m_peer = peer;
    n->m_observer = m_observer->sessionNotify(n, 1000 + n->m_id);
    if (!n->m_observer)
    {
        delete n;
        return 0;
    }
    return n;
}

Z_Assoc::Z_Assoc(IPDU_Observable *o) : m_obs(o), m_hostname(0)
{
    m_encode = odr_createmem(ODR_ENCODE);
    m_decode = odr_createmem(ODR_DECODE);
}
Z_Assoc::~Z_Assoc()
{
    m_obs->destroy();
    odr_destroy(m_encode);
    odr_destroy(m_decode);
    free(m_hostname);
}
void Z_Assoc::timeout(int t) { m_obs->idleTime(t); }
void Z_Assoc::close() { m_obs->close_session(); }
void Z_Assoc::recv_PDU(const char *buf, int len)
{
    odr_reset(m_decode);
    odr_setbuf(m_decode, (char *) buf, len, 0);
    Z_GDU *g = 0;
    if (!z_GDU(m_decode, &g, 0, 0))
    {
        m_obs->shutdown();
        failNotify();
        return;
    }
    recv_GDU(g, len);
}
int Z_Assoc::send_GDU(Z_GDU *g, int *plen)
{
    if (!z_GDU(m_encode, &g, 0, 0))
    {
        odr_reset(m_encode);
        return -1;
    }
    int len;
    char *b = odr_getbuf(m_encode, &len, 0);
    *plen = len;
    std::string s(b, len);
    odr_reset(m_encode);
    return m_obs->send_PDU(s.data(), len);
}
int Z_Assoc::send_Z_PDU(Z_APDU *a, int *plen)
{
    Z_GDU g;
    g.which = Z_GDU_Z3950;
    g.u.z3950 = a;
    return send_GDU(&g, plen);
}
Z_APDU *Z_Assoc::create_Z_PDU(int type) { return zget_APDU(m_encode, type); }
int Z_Assoc::client(const char *addr)
{
    free(m_hostname);
    m_hostname = strdup(addr);
    return m_obs->connect(this, addr);
}
const char *Z_Assoc::get_hostname() { return m_hostname; }
int Z_Assoc::server(const char *addr) { return m_obs->listen(this, addr); }

// ---------------------------------------------------------------- CQL
Yaz_cql2rpn::Yaz_cql2rpn() : m_transform(0) {}
Yaz_cql2rpn::~Yaz_cql2rpn()
{
    if (m_transform)
        cql_transform_close(m_transform);
}
void Yaz_cql2rpn::set_pqf_file(const char *f)
{
    if (!m_transform)
        m_transform = cql_transform_open_fname(f);
}
bool Yaz_cql2rpn::parse_spec_file(const char *f, int *error)
{
    *error = 0;
    cql_transform_t n = cql_transform_open_fname(f);
    if (!n)
        return false;
    if (m_transform)
        cql_transform_close(m_transform);
    m_transform = n;
    return true;
}
int Yaz_cql2rpn::rpn2cql_transform(Z_RPNQuery *q, WRBUF cql, ODR o,
                                   char **addinfo)
{
    const char *ai = 0;
    *addinfo = 0;
    if (!m_transform)
        return -3;
    int r = cql_transform_rpn2cql_wrbuf(m_transform, cql, q);
    if (r)
        cql_transform_error(m_transform, &ai);
    if (ai)
        *addinfo = odr_strdup(o, ai);
    return r;
}
int Yaz_cql2rpn::query_transform(const char *q, Z_RPNQuery **rpn, ODR o,
                                 char **addinfo)
{
    const char *ai = 0;
    *addinfo = 0;
    if (!m_transform)
        return -3;
    CQL_parser cp = cql_parser_create();
    int r = cql_parser_string(cp, q);
    if (r)
    {
        cql_parser_destroy(cp);
        return 10; // YAZ_SRW_QUERY_SYNTAX_ERROR
    }
    char rpn_buf[10240];
    r = cql_transform_buf(m_transform, cql_parser_result(cp), rpn_buf,
                          sizeof(rpn_buf) - 1);
    if (!r)
    {
        YAZ_PQF_Parser pp = yaz_pqf_create();
        *rpn = yaz_pqf_parse(pp, o, rpn_buf);
        if (!*rpn)
            r = -1;
        yaz_pqf_destroy(pp);
    }
    else
    {
        r = cql_transform_error(m_transform, &ai);
        if (ai)
            *addinfo = odr_strdup(o, ai);
    }
    cql_parser_destroy(cp);
    return r;
}
