// Contracts of statistics collection: each session is added to its vhost, backend, source and the overall numbers, and taken out again.
#include "vc.h"
#include <amqpprox_connectionstats.h>
#include <amqpprox_sessionstate.h>
#include <amqpprox_statcollector.h>
#include <amqpprox_statsnapshot.h>
#include <boost/lexical_cast.hpp>
#include <string>

using namespace Bloomberg::amqpprox;
using D = SessionState::DisconnectType;

OBS size_t sizeof_ConnectionStats() { return sizeof(ConnectionStats); }

namespace {
enum { PAUSED, ACTIVE, DENIED, LIMITED, GRACEFUL, BROKER, CLIENT, PIN, POUT, FIN, FOUT, BIN, BOUT, NAMES };
enum { SEND, SENDN, RECV, RECVN };
struct Row {
    const void *o;
    uint64_t    v[14], d[4], v0[14], d0[4];
};
Row rows[5];
struct Ghost {
    uint64_t n;
    uint16_t egressPort;
    const void *cur, *prev, *temp;
    StatCollector      *c;
    const SessionState *s;
    int      tc, tp, tt, made;
} g;
std::string brokerHost, sourceHost;
alignas(8) char ofVhost[sizeof(ConnectionStats)], ofBackend[sizeof(ConnectionStats)], ofSource[sizeof(ConnectionStats)];

int index(const std::string &s)
{
    return s == "pausedConnectionCount"            ? PAUSED
           : s == "activeConnectionCount"          ? ACTIVE
           : s == "authDeniedConnectionCount"      ? DENIED
           : s == "limitedConnectionCount"         ? LIMITED
           : s == "removedConnectionGraceful"      ? GRACEFUL
           : s == "removedConnectionBrokerSnapped" ? BROKER
           : s == "removedConnectionClientSnapped" ? CLIENT
           : s == "packetsReceived"                ? PIN
           : s == "packetsSent"                    ? POUT
           : s == "framesReceived"                 ? FIN
           : s == "framesSent"                     ? FOUT
           : s == "bytesReceived"                  ? BIN
           : s == "bytesSent"                      ? BOUT
                                                   : NAMES;
}
void start(Row &r, const void *o)
{
    ++g.n;
    r.o = o;
#define FRESH(k) r.v[k] = r.v0[k] = vc_any_u64()
    FRESH(0); FRESH(1); FRESH(2); FRESH(3); FRESH(4); FRESH(5); FRESH(6); FRESH(7); FRESH(8); FRESH(9); FRESH(10); FRESH(11); FRESH(12); FRESH(13);
    r.d[0] = r.d0[0] = vc_any_u64(); r.d[1] = r.d0[1] = vc_any_u64(); r.d[2] = r.d0[2] = vc_any_u64(); r.d[3] = r.d0[3] = vc_any_u64();
}
Row &row(const void *o)
{
#define ROW(k)                       \
    if (g.n > k && rows[k].o == o)   \
        return rows[k];              \
    if (g.n == k) {                  \
        start(rows[k], o);           \
        return rows[k];              \
    }
    ROW(0) ROW(1) ROW(2) ROW(3)
    vc_ensure(false, "at most four sets of numbers are changed");
    return rows[4];
}
bool known(const void *o)
{
    return (g.n > 0 && rows[0].o == o) || (g.n > 1 && rows[1].o == o) || (g.n > 2 && rows[2].o == o) || (g.n > 3 && rows[3].o == o);
}
struct Totals {
    uint64_t v[10];
    explicit Totals(const SessionState &s) { s.getTotals(v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8, v + 9); }
};
bool traffic(const Row &r, const Totals &t, bool plus)
{
#define T(k, i) (r.v[k] == (plus ? r.v0[k] + t.v[i] : r.v0[k] - t.v[i]))
#define U(k, i) (r.d[k] == (plus ? r.d0[k] + t.v[i] : r.d0[k] - t.v[i]))
    return T(PIN, 0) & T(FIN, 1) & T(BIN, 2) & T(POUT, 5) & T(FOUT, 6) & T(BOUT, 7) & U(RECV, 3) & U(RECVN, 4) & U(SEND, 8) & U(SENDN, 9) & (r.v[NAMES] == r.v0[NAMES]);
}
bool counts(const Row &r, const SessionState &s)
{
    const D    d = s.getDisconnectType();
    const bool cl = d == D::DISCONNECTED_CLIENT, br = d == D::DISCONNECTED_SERVER, gr = (d == D::DISCONNECTED_CLEANLY) | (d == D::DISCONNECTED_PROXY);
#define C(k, c) (r.v[k] == r.v0[k] + ((c) ? 1 : 0))
    return C(CLIENT, cl) & C(BROKER, br) & C(GRACEFUL, gr) & C(ACTIVE, !(cl | br | gr)) & C(PAUSED, s.getPaused()) & C(DENIED, s.getAuthDeniedConnection()) & C(LIMITED, s.getLimitedConnection());
}
bool nocounts(const Row &r)
{
#define N(k) (r.v[k] == r.v0[k])
    return N(CLIENT) & N(BROKER) & N(GRACEFUL) & N(ACTIVE) & N(PAUSED) & N(DENIED) & N(LIMITED);
}
}

// @replaces ConnectionStats::statsValue | ConnectionStats::statsValue\([^)]*\)$
OBS uint64_t &tr_value(ConnectionStats *s, const std::string &name)
{
    const int i = index(name);
    vc_ensure(i < NAMES, "the name of a statistic");
    return row(s).v[i];
}
// @replaces ConnectionStats::addDistributionStats | ConnectionStats::addDistributionStats\(
OBS void tr_dist(ConnectionStats *s, const std::string &name, uint64_t total, uint64_t count)
{
    const bool send = name == "sendLatency";
    vc_ensure(send || name == "receiveLatency", "the name of a distribution");
    Row &r = row(s);
    if (send) {
        r.d[SEND] += total;
        r.d[SENDN] += count;
    }
    else {
        r.d[RECV] += total;
        r.d[RECVN] += count;
    }
}
// @replaces SessionState::hostname | SessionState::hostname\(
OBS std::string tr_host(const SessionState *, const boost::asio::ip::tcp::endpoint &e) { return e.port() == g.egressPort ? brokerHost : sourceHost; }
// @replaces boost::lexical_cast<std::string>(port) | boost::lexical_cast<.*unsigned short>\(
OBS std::string tr_port(const uint16_t &p) { return std::to_string((int)p); }

// @replaces StatSnapshot::StatsMap::operator[] | std::unordered_map<.*ConnectionStats.*>::operator\[\]\(
OBS ConnectionStats &tr_entry(StatSnapshot::StatsMap *m, const std::string &key)
{
    StatSnapshot &now = g.c->d_current;
    if (m == &now.vhosts()) {
        vc_ensure(key == g.s->getVirtualHost(), "by its vhost");
        return reinterpret_cast<ConnectionStats &>(ofVhost);
    }
    if (m == &now.backends()) {
        vc_ensure(key == brokerHost + "_" + std::to_string((int)g.egressPort), "by its backend, told apart by port");
        return reinterpret_cast<ConnectionStats &>(ofBackend);
    }
    vc_ensure(m == &now.sources() && key == sourceHost, "by its source");
    return reinterpret_cast<ConnectionStats &>(ofSource);
}

namespace {
void begin(StatCollector &c, const SessionState &s)
{
    g   = Ghost();
    g.c = &c;
    g.s = &s;
    vc_any_string(&brokerHost);
    vc_any_string(&sourceHost);
    g.egressPort = s.d_egressRemoteEndpoint.port();
    vc_assume(g.egressPort != s.d_ingressRemoteEndpoint.port());
}
}

namespace {
void collected(StatCollector &c, const SessionState &s)
{
    begin(c, s);
    const bool   perSource = c.d_collectPerSourceStats;
    const Totals t(s);
    c.collect(s);
    vc_ensure(known(ofVhost) && known(ofBackend) && known(&c.d_current.overall()) && known(ofSource) == perSource, "for its vhost, backend, overall and, if wanted, source");
    vc_ensure(g.n == (perSource ? 4 : 3), "for nothing else");
    vc_ensure(traffic(rows[0], t, true) & traffic(rows[1], t, true) & traffic(rows[2], t, true), "all its traffic and latencies, each once");
    vc_ensure(counts(rows[0], s) & counts(rows[1], s) & counts(rows[2], s), "by the way it ended or as active, and as paused, denied or limited");
    if (perSource)
        vc_ensure(traffic(rows[3], t, true) & counts(rows[3], s), "for the source as well");
}
}
// @contract StatCollector::collect(client gone): a session counts once for its vhost, its backend, its source and overall | StatCollector::collect
OBS void c_collectClient(StatCollector &c, const SessionState &s)
{
    vc_assume(s.getDisconnectType() == D::DISCONNECTED_CLIENT);
    collected(c, s);
}
// @contract StatCollector::collect(broker gone): a session counts once for its vhost, its backend, its source and overall | StatCollector::collect
OBS void c_collectBroker(StatCollector &c, const SessionState &s)
{
    vc_assume(s.getDisconnectType() == D::DISCONNECTED_SERVER);
    collected(c, s);
}
// @contract StatCollector::collect(ended gracefully): a session counts once for its vhost, its backend, its source and overall | StatCollector::collect
OBS void c_collectClean(StatCollector &c, const SessionState &s)
{
    vc_assume(s.getDisconnectType() == D::DISCONNECTED_CLEANLY);
    collected(c, s);
}
// @contract StatCollector::collect(ended by the proxy): a session counts once for its vhost, its backend, its source and overall | StatCollector::collect
OBS void c_collectProxy(StatCollector &c, const SessionState &s)
{
    vc_assume(s.getDisconnectType() == D::DISCONNECTED_PROXY);
    collected(c, s);
}
// @contract StatCollector::collect(active): a session counts once for its vhost, its backend, its source and overall | StatCollector::collect
OBS void c_collectActive(StatCollector &c, const SessionState &s)
{
    vc_assume(s.getDisconnectType() == D::NOT_DISCONNECTED);
    collected(c, s);
}

// @contract StatCollector::deletedSession: takes the traffic of a session out again | StatCollector::deletedSession
OBS void c_deleted(StatCollector &c, const SessionState &s)
{
    begin(c, s);
    vc_assume(c.d_collectPerSourceStats);
    const Totals t(s);
    c.deletedSession(s);
    vc_ensure(known(ofVhost) && known(ofBackend) && known(&c.d_current.overall()) && known(ofSource) && g.n == 4, "for its vhost, backend, source and overall, and for nothing else");
    vc_ensure(traffic(rows[0], t, false) & traffic(rows[1], t, false) & traffic(rows[2], t, false) & traffic(rows[3], t, false), "exactly what it added");
    vc_ensure(nocounts(rows[0]) & nocounts(rows[1]) & nocounts(rows[2]) & nocounts(rows[3]), "no connection is counted");
}

namespace {
int &token(const void *s)
{
    return s == g.cur ? g.tc : s == g.prev ? g.tp : g.tt;
}
}
// @replaces StatSnapshot constructor | StatSnapshot::StatSnapshot\(\)
OBS void tr_new(StatSnapshot *s)
{
    ++g.made;
    g.temp = s;
    g.tt   = 3;
}
// @replaces StatSnapshot destructor | StatSnapshot::~StatSnapshot\(\)
OBS void tr_del(StatSnapshot *) {}
// @replaces StatSnapshot::swap | StatSnapshot::swap\(
OBS void tr_swap(StatSnapshot *a, StatSnapshot &b)
{
    int &x = token(a), &y = token(&b);
    int  t = x;
    x      = y;
    y      = t;
}
// @contract StatCollector::reset: what was collected becomes the previous interval, and nothing is collected yet | StatCollector::reset
OBS void c_reset(StatCollector &c)
{
    g      = Ghost();
    g.cur  = &c.d_current;
    g.prev = &c.d_previous;
    g.tc   = 1;
    g.tp   = 2;
    c.reset();
    vc_ensure(g.tp == 1, "what was collected becomes the previous interval");
    vc_ensure(g.tc == 3 && g.made == 1, "nothing is collected yet");
}
