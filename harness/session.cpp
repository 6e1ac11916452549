// Drives the real Session, Connector and PacketProcessor with simulated sockets: random conversations, random splitting of reads and
// writes, random order of completions, checked against an independent account of what each peer must see.
#define SOCKET_TESTING
#include "harness.h"
#include "ref.h"
#include "parts.h"
#include <amqpprox_authinterceptinterface.h>
#include <amqpprox_backend.h>
#include <amqpprox_backendset.h>
#include <amqpprox_bufferpool.h>
#include <amqpprox_closeerror.h>
#include <amqpprox_connectionmanager.h>
#include <amqpprox_connectionselectorinterface.h>
#include <amqpprox_connector.h>
#include <amqpprox_dataratelimitmanager.h>
#include <amqpprox_dnsresolver.h>
#include <amqpprox_eventsource.h>
#include <amqpprox_flowtype.h>
#include <amqpprox_frame.h>
#include <amqpprox_hostnamemapper.h>
#include <amqpprox_maybesecuresocketadaptor.h>
#include <amqpprox_packetprocessor.h>
#include <amqpprox_proxyprotocolheaderv1.h>
#include <amqpprox_robinbackendselector.h>
#include <amqpprox_session.h>
#include <amqpprox_sessionstate.h>
#include <amqpprox_socketintercept.h>
#include <amqpprox_socketinterceptinterface.h>
#include <amqpprox_methods_startok.h>
#include <authrequest.pb.h>
#include <authresponse.pb.h>
#include <sasl.pb.h>
#include <deque>
using namespace Bloomberg::amqpprox;
using H::Rng;
using boost::system::error_code;
using EP = boost::asio::ip::tcp::endpoint;

static const std::string HEADER("AMQP\x00\x00\x09\x01", 8), LEGACY("AMQP\x01\x01\x00\x09", 8);
static EP ep(const std::string &a, uint16_t p) { return EP(boost::asio::ip::address::from_string(a), p); }

// ---------------------------------------------------------------- frames
struct Msg {
    uint8_t type;
    uint16_t ch;
    std::string pl;
    bool method(uint16_t m) const { return type == 1 && pl.size() >= 4 && pl.substr(0, 4) == ref::be(2, 10) + ref::be(2, m); }
    std::string args() const { return pl.substr(4); }
};
// takes one complete frame off the front of s
static bool take(std::string &s, Msg &m)
{
    if (s.size() < 8) return false;
    size_t p = 3;
    uint64_t n;
    ref::rd(s, p, s.size(), 4, n);
    if (s.size() < 8 + n) return false;
    H::check((unsigned char)s[7 + n] == 0xCE, "a frame sent by the proxy is badly terminated");
    m.type = (uint8_t)s[0];
    m.ch = (uint16_t)((unsigned char)s[1] << 8 | (unsigned char)s[2]);
    m.pl = s.substr(7, n);
    s.erase(0, 8 + n);
    return true;
}
enum { START = 10, STARTOK = 11, SECURE = 20, SECUREOK = 21, TUNE = 30, TUNEOK = 31, OPEN = 40, OPENOK = 41, CLOSE = 50, CLOSEOK = 51 };
static std::string meth(uint16_t m, const std::string &args, uint16_t ch = 0) { return ref::method(10, m, args, ch); }
static std::string closeArgs(uint16_t code, const std::string &t, uint16_t c = 0, uint16_t m = 0) { return ref::be(2, code) + ref::encStr(1, t) + ref::be(2, c) + ref::be(2, m); }

// ---------------------------------------------------------------- one simulated socket
struct Sock : SocketInterceptInterface {
    std::string name;
    EP local, remote;
    bool connected = true, closed = false, eof = false, shut = false, secure = false;
    std::string in, out;              // to be read by the proxy / written by the proxy
    struct W { std::vector<std::pair<const void *, size_t>> b; AsyncWriteHandler h; };
    std::deque<W> writes;
    std::vector<AsyncReadHandler> reads;
    std::vector<AsyncConnectHandler> connects;
    std::vector<EP> connectedTo;
    std::vector<AsyncHandshakeHandler> handshakes;
    std::vector<AsyncShutdownHandler> shutdowns;
    bool lateWrites = true;
    int handshakesAsked = 0;
    Rng *r = nullptr;
    void setSecure(bool s) override { secure = s; }
    void refreshSocketContext() override {}
    EP remote_endpoint(error_code &ec) override { ec = error_code(); return remote; }
    EP local_endpoint(error_code &ec) override { ec = error_code(); return local; }
    void close(error_code &ec) override { ec = error_code(); closed = true; }
    void setDefaultOptions(error_code &ec) override { ec = error_code(); }
    size_t available(error_code &ec) override
    {
        ec = error_code();
        return r->chance(20) ? r->below(in.size() + 1) : in.size();
    }
    void async_connect(const EP &e, AsyncConnectHandler h) override { connectedTo.push_back(e); connects.push_back(h); }
    void async_handshake(handshake_type, AsyncHandshakeHandler h) override { handshakesAsked++; handshakes.push_back(h); }
    void async_shutdown(AsyncShutdownHandler h) override { shut = true; shutdowns.push_back(h); }
    void async_write_some(const std::vector<std::pair<const void *, size_t>> &b, AsyncWriteHandler h) override { writes.push_back({b, h}); }
    size_t read_some(const std::vector<std::pair<void *, size_t>> &b, error_code &ec) override
    {
        ec = error_code();
        size_t room = 0;
        for (auto &x : b) room += x.second;
        H::check(room > 0, "the proxy reads into a buffer with no room left");
        size_t n = std::min(room, in.size());
        if (n == 0) {
            if (eof) ec = boost::asio::error::eof;
            else ec = boost::asio::error::would_block;
            return 0;
        }
        if (r->chance(50)) n = 1 + r->below(n);
        size_t done = 0;
        for (auto &x : b) {
            size_t k = std::min(x.second, n - done);
            memcpy(x.first, in.data() + done, k);
            done += k;
        }
        in.erase(0, done);
        return done;
    }
    void async_read_some(const std::vector<std::pair<void *, size_t>> &, AsyncReadHandler h) override { reads.push_back(h); }
    // completions that may happen now
    void events(std::vector<std::function<void()>> &ev)
    {
        if (!connects.empty()) return;
        if (!reads.empty() && (closed || eof || !in.empty()))
            ev.push_back([this] { auto h = reads.front(); reads.erase(reads.begin()); h(closed ? error_code(boost::asio::error::operation_aborted) : error_code(), 0); });
        if (!writes.empty())
            ev.push_back([this] {
                auto w = writes.front();
                writes.pop_front();
                if (closed) { w.h(boost::asio::error::operation_aborted, 0); return; }
                std::string all;
                for (auto &x : w.b) all.append((const char *)x.first, x.second);
                size_t n = all.size();
                if (n > 1 && r->chance(40)) n = 1 + r->below(n);
                out.append(all, 0, n);
                w.h(error_code(), n);
            });
        if (!handshakes.empty())
            ev.push_back([this] { auto h = handshakes.front(); handshakes.erase(handshakes.begin()); h(error_code()); });
        if (!shutdowns.empty())
            ev.push_back([this] { auto h = shutdowns.front(); shutdowns.erase(shutdowns.begin()); h(error_code()); });
    }
};

struct Mapper : HostnameMapper {
    std::map<EP, std::string> m;
    void prime(boost::asio::io_context &, std::initializer_list<EP>) override {}
    std::string mapToHostname(const EP &e) const override { auto i = m.find(e); return i == m.end() ? std::string("nohost") : i->second; }
};
struct Selector : ConnectionSelectorInterface {
    std::shared_ptr<ConnectionManager> cm;
    SessionState::ConnectionStatus rc = SessionState::ConnectionStatus::SUCCESS;
    int asked = 0;
    std::string vhost;
    SessionState::ConnectionStatus acquireConnection(std::shared_ptr<ConnectionManager> *out, const SessionState &s) override
    {
        asked++;
        vhost = s.getVirtualHost();
        if (rc == SessionState::ConnectionStatus::SUCCESS) *out = cm;
        return rc;
    }
};
struct Auth : AuthInterceptInterface {
    std::vector<std::pair<authproto::AuthRequest, ReceiveResponseCb>> asked, all;
    explicit Auth(boost::asio::io_context &io) : AuthInterceptInterface(io) {}
    void authenticate(const authproto::AuthRequest q, const ReceiveResponseCb &cb) override { asked.emplace_back(q, cb); all.emplace_back(q, cb); }
    void print(std::ostream &) const override {}
};

// what happens in one run
struct Plan {
    bool pauses = false, unpause = true, heartbeatWhilePaused = false;
    int auth = 0;              // 0 allow, 1 deny, 2 anything else
    bool authData = false;
    std::string reason;
    int wrongAt = -1;          // stage at which one peer misbehaves
    int selectorRc = 0;
    int failConnects = 0;
    size_t backends = 1;
    bool proxyProto = false;
    bool gracefulClose = false;
    bool brokerRefuses = false;
};

struct World {
    Rng &r;
    Plan plan;
    boost::asio::io_context io;
    BufferPool pool;
    std::vector<std::unique_ptr<Backend>> backends;
    std::shared_ptr<Mapper> mapper = std::make_shared<Mapper>();
    DNSResolver dns;
    Selector sel;
    RobinBackendSelector robin;
    EventSource es;
    Sock cli, srv;             // cli: socket of the client; srv: socket to the broker
    SocketIntercept icli, isrv;
    std::shared_ptr<Auth> auth;
    DataRateLimitManager limits;
    std::shared_ptr<Session> session;
    std::string secureHost = "proxy-host";
    bool ingressSecure = false;
    EventSubscriptionHandle sub;
    std::vector<std::string> vhostEvents;

    // peers
    std::string header, cliRead, srvRead, proxyLine;
    ref::Table props;
    std::string mech, cred, locale, vhost, tuneok, brokerStart, brokerTune, openokArgs;
    int cst = 0, bst = 0;      // client / broker progress
    std::string cliPayload, srvPayload;   // sent once open
    std::string cliPayloadGot, srvPayloadGot;
    std::string pendCli, pendSrv;         // still to be put on the wire
    int startSeen = 0, tuneSeen = 0, openOkSeen = 0;
    bool misbehaved = false, refused = false;
    std::string relayedClose;
    uint64_t cliFrames = 0, srvFrames = 0;
    std::string log;
    bool sawClose = false;
    std::string closeSeen;

    World(Rng &rr, const Plan &p)
    : r(rr), plan(p), pool(rr.chance(50) ? std::vector<size_t>{32, 64, 128, 256, 512, 1024, 4096, 16384, 32768, 65536, 131072} :
                           rr.chance(50) ? std::vector<size_t>{64, 4096} : std::vector<size_t>{})
    , dns(io), icli(cli), isrv(srv), auth(std::make_shared<Auth>(io))
    {
        cli.r = srv.r = &r;
        cli.name = "client";
        srv.name = "broker";
        srv.connected = false;
        ingressSecure = r.chance(30);
        cli.local = ep("1.2.3.4", (uint16_t)r.range(1, 65535));
        cli.remote = ep(r.chance(80) ? "2.3.4.5" : "93.184.216.34", (uint16_t)r.range(1, 65535));
        srv.local = ep("1.2.3.4", (uint16_t)r.range(1, 65535));
        srv.remote = ep("127.0.0.1", 5672);
        mapper->m[cli.remote] = "client-" + r.word(r.below(30));
        secureHost = r.word(r.range(1, 40));
        BackendSet::Partition part;
        for (size_t i = 0; i < plan.backends; ++i) {
            backends.emplace_back(new Backend("b" + std::to_string(i), "dc", "127.0.0." + std::to_string(i + 1), "127.0.0." + std::to_string(i + 1), (int)(5672 + i), plan.proxyProto));
            part.push_back(backends.back().get());
        }
        sel.cm = std::make_shared<ConnectionManager>(std::make_shared<BackendSet>(std::vector<BackendSet::Partition>{part}), &robin);
        sel.rc = (SessionState::ConnectionStatus)plan.selectorRc;
        for (size_t i = 0; i < plan.backends; ++i)
            dns.setCachedResolution("127.0.0." + std::to_string(i + 1), std::to_string(5672 + i), {ep("127.0.0." + std::to_string(i + 1), (uint16_t)(5672 + i))});
        sub = es.connectionVhostEstablished().subscribe([this](uint64_t, std::string v) { vhostEvents.push_back(v); if (plan.pauses) session->pause(); });
        session = std::make_shared<Session>(io, std::make_shared<MaybeSecureSocketAdaptor<>>(io, icli, false), std::make_shared<MaybeSecureSocketAdaptor<>>(io, isrv, false),
                                            &sel, &es, &pool, &dns, mapper, secureHost, auth, ingressSecure, &limits);
        header = r.chance(80) ? HEADER : LEGACY;
        props = ref::genTable(r, 2);
        for (auto &e : props) if (e.second.bytes.size() > 3000) e.second.bytes.resize(3000);
        if (r.chance(30)) { ref::Val v; v.type = 'S'; v.bytes = "conn-" + r.word(5); props.emplace_back("connection_name", v); }
        if (r.chance(50)) { ref::Val v, b; v.type = 'F'; b.type = 't'; b.num = r.chance(70); v.tab.emplace_back("authentication_failure_close", b); props.emplace_back("capabilities", v); }
        mech = r.chance(70) ? "PLAIN" : r.bytes(r.below(256));
        cred = r.bytes(r.chance(5) ? r.below(3000) : r.below(60));
        locale = r.chance(70) ? "en_US" : r.bytes(r.below(256));
        vhost = r.chance(60) ? "/" + r.word(r.below(20)) : r.bytes(r.below(256));
        tuneok = ref::be(2, r.edgy(16)) + ref::be(4, r.edgy(32)) + ref::be(2, r.edgy(16));
        brokerStart = std::string("\x00\x09", 2) + ref::encTable(ref::genTable(r, 1)) + ref::encStr(4, "PLAIN AMQPLAIN") + ref::encStr(4, "en_US");
        brokerTune = ref::be(2, r.edgy(16)) + ref::be(4, 131072) + ref::be(2, r.edgy(16));
        openokArgs = ref::encStr(1, "");
    }
    ~World()
    {
        error_code ec;
        cli.close(ec);
        srv.close(ec);
        auth->asked.clear();
        auth->all.clear();
        for (int i = 0; i < 50; ++i) {
            std::vector<std::function<void()>> ev;
            cli.events(ev);
            srv.events(ev);
            srv.connects.clear();
            for (auto &e : ev) e();
            io.restart();
            io.poll();
            if (ev.empty()) break;
        }
    }
    std::string payload(uint64_t &frames)
    {
        std::string s;
        for (int i = (int)r.below(7); i > 0; --i) {
            size_t n = r.chance(5) ? r.range(60000, 131064) : r.chance(20) ? r.below(5000) : r.below(40);
            if (r.chance(3)) n = 131064;
            uint8_t t = (uint8_t)(r.chance(90) ? r.range(1, 3) : 8);
            s += ref::frame(t, (uint16_t)r.edgy(16), r.bytes(n));
            frames++;
        }
        return s;
    }
    void wrong(std::string &pend, bool client)
    {
        // a method that does not belong here
        misbehaved = true;
        static const std::vector<uint16_t> ms = {START, STARTOK, SECURE, TUNE, TUNEOK, OPEN, OPENOK, 99};
        uint16_t m = r.pick(ms);
        pend += meth(m, argsFor(m));
        log += client ? " client-wrong:" : " broker-wrong:";
        log += std::to_string(m);
        wrongMethod = m;
        wrongFromClient = client;
    }
    uint16_t wrongMethod = 0;
    bool wrongFromClient = false;
    std::string argsFor(uint16_t m)
    {
        switch (m) {
        case START: return brokerStart;
        case STARTOK: return ref::encTable(props) + ref::encStr(1, mech) + ref::encStr(4, cred) + ref::encStr(1, locale);
        case TUNE: return brokerTune;
        case TUNEOK: return tuneok;
        case OPEN: return ref::encStr(1, vhost) + std::string(2, 0);
        case OPENOK: return openokArgs;
        case CLOSE: return closeArgs(200, "x");
        default: return "";
        }
    }
    std::string hb() { return r.chance(10) ? ref::frame(8, 0, "") : ""; }
    // the peers read what the proxy wrote and answer
    void peers()
    {
        cliRead += cli.out;
        cli.out.clear();
        srvRead += srv.out;
        srv.out.clear();
        Msg m;
        if (cst == 0) { pendCli += header; cst = 1; }
        while (true) {
            std::string before = cliRead;
            if (cst >= 4 && openOkSeen) {
                cliPayloadGot += cliRead;
                cliRead.clear();
                break;
            }
            if (!take(cliRead, m)) break;
            if (m.type == 8 && cst == 3 && bst >= 4) continue;   // a heartbeat that arrived together with open-ok
            H::check(m.type == 1 && m.ch == 0, "the client receives something other than a connection method during the handshake");
            if (m.method(CLOSE)) { sawClose = true; closeSeen = m.args(); continue; }
            if (cst == 1) {
                H::check(m.method(START), "the protocol header is not answered with connection.start");
                std::string a = m.args();
                H::check(a.size() > 6 && a[0] == 0 && a[1] == 9, "connection.start announces another protocol version");
                size_t p = 2; ref::Table t; std::string mechs, locs;
                H::check(ref::decTable(a, p, a.size(), t) && ref::decStr(a, p, a.size(), 4, mechs) && ref::decStr(a, p, a.size(), 4, locs) && p == a.size(), "connection.start is malformed");
                H::check(mechs == "PLAIN" && locs == "en_US", "connection.start announces other mechanisms or locales");
                startSeen++;
                pendCli += hb();
                if (plan.wrongAt == 1) wrong(pendCli, true);
                else pendCli += meth(STARTOK, argsFor(STARTOK));
                cst = 2;
            }
            else if (cst == 2) {
                H::check(m.method(TUNE), "connection.start-ok is not answered with connection.tune");
                H::check(m.args() == ref::be(2, 2047) + ref::be(4, 131072) + ref::be(2, 60), "connection.tune announces other limits");
                tuneSeen++;
                pendCli += hb();
                if (plan.wrongAt == 2) wrong(pendCli, true);
                else {
                    pendCli += meth(TUNEOK, tuneok) + hb();
                    if (plan.wrongAt == 3) wrong(pendCli, true);
                    else pendCli += meth(OPEN, argsFor(OPEN));
                }
                cst = 3;
            }
            else if (cst == 3) {
                H::check(m.method(OPENOK), "connection.open is answered with something else");
                H::check(m.args() == openokArgs, "connection.open-ok differs");
                H::check(bst >= 4, "connection.open-ok is sent before the broker accepted the connection");
                openOkSeen++;
                cst = 4;
                cliPayload = payload(cliFrames);
                pendCli += cliPayload;
                if (r.chance(30) && !plan.gracefulClose) pendCli += r.bytes(r.below(7)).insert(0, "\x01", 1);   // an incomplete frame at the end: never passed on
            }
        }
        // broker
        if (!srv.connected) { H::check(srvRead.empty(), "octets are written to a broker that is not connected"); return; }
        if (bst == 0) {
            if (plan.proxyProto) {
                size_t p = srvRead.find("\r\n");
                if (p == std::string::npos) return;
                proxyLine = srvRead.substr(0, p + 2);
                srvRead.erase(0, p + 2);
                size_t bi = 0;
                for (size_t i = 0; i < backends.size(); ++i) if (srv.remote.port() == backends[i]->port()) bi = i;
                std::string want = "PROXY TCP4 " + cli.remote.address().to_string() + " " + backends[bi]->ip() + " " + std::to_string(cli.remote.port()) + " " + std::to_string(backends[bi]->port()) + "\r\n";
                H::check(proxyLine == want, [&] { return "PROXY line differs: " + proxyLine + " expected " + want; });
                bst = -1;
            }
            else bst = -1;
        }
        if (bst == -1) {
            if (srvRead.size() < 8) return;
            H::check(srvRead.substr(0, 8) == HEADER, "the broker is not greeted with the protocol header");
            srvRead.erase(0, 8);
            if (plan.wrongAt == 4) wrong(pendSrv, false);
            else if (plan.brokerRefuses && r.chance(50)) { relayedClose = closeArgs((uint16_t)r.edgy(16), r.word(r.below(200))); pendSrv += meth(CLOSE, relayedClose); refused = true; }
            else pendSrv += hb() + meth(START, brokerStart);
            bst = 1;
        }
        while (true) {
            if (bst >= 4) { srvPayloadGot += srvRead; srvRead.clear(); break; }
            if (!take(srvRead, m)) break;
            H::check(m.type == 1 && m.ch == 0, "the broker receives something other than a connection method during the handshake");
            if (bst == 1) {
                H::check(m.method(STARTOK), "the broker's connection.start is not answered with start-ok");
                std::string a = m.args();
                size_t p = 0; ref::Table t; std::string me, cr, lo;
                H::check(ref::decTable(a, p, a.size(), t) && ref::decStr(a, p, a.size(), 1, me) && ref::decStr(a, p, a.size(), 4, cr) && ref::decStr(a, p, a.size(), 1, lo) && p == a.size(), "start-ok to the broker is malformed");
                ref::Table want = props;
                bool repl = plan.auth == 0 && plan.authData;
                if (repl && !plan.reason.empty()) { ref::Val v; v.type = 'S'; v.bytes = plan.reason; want.emplace_back("amqpprox_auth", v); }
                ref::Val v; v.type = 'S';
                v.bytes = mapper->m[cli.remote] + ":" + std::to_string(cli.remote.port()) + (ingressSecure ? " TLS" : ""); want.emplace_back("amqpprox_client", v);
                v.bytes = "(:" + std::to_string(cli.local.port()) + ") " + secureHost + ":" + std::to_string(srv.local.port()); want.emplace_back("amqpprox_host", v);
                H::check(ref::encTable(t) == ref::encTable(want), [&] { return "client properties presented to the broker differ: " + H::hex(ref::encTable(t)) + " expected " + H::hex(ref::encTable(want)); });
                H::check(me == (repl ? authMech : mech), "authentication mechanism presented to the broker differs");
                H::check(cr == (repl ? authCred : cred), "credentials presented to the broker differ");
                H::check(lo == locale, "locale presented to the broker differs");
                pendSrv += hb();
                if (plan.wrongAt == 5) wrong(pendSrv, false);
                else if (plan.brokerRefuses) { relayedClose = closeArgs((uint16_t)r.edgy(16), r.word(r.below(200))); pendSrv += meth(CLOSE, relayedClose); refused = true; }
                else pendSrv += meth(TUNE, brokerTune);
                bst = 2;
            }
            else if (bst == 2) {
                H::check(m.method(TUNEOK) && m.args() == tuneok, "tune-ok presented to the broker is not the client's");
                bst = 3;
            }
            else if (bst == 3) {
                H::check(m.method(OPEN), "tune-ok is not followed by connection.open");
                std::string a = m.args(), vh; size_t p = 0;
                H::check(ref::decStr(a, p, a.size(), 1, vh) && vh == vhost && a.substr(p) == std::string(2, 0), "connection.open presented to the broker is not the client's");
                srvPayload = payload(srvFrames);
                srvFrames++;
                std::string h = hb();
                srvHeartbeat = h;
                pendSrv += h + meth(OPENOK, openokArgs) + srvPayload;
                if (r.chance(30) && !plan.gracefulClose) pendSrv += r.bytes(r.below(7)).insert(0, "\x01", 1);
                bst = 4;
            }
        }
    }
    std::string srvHeartbeat;
    std::string authMech, authCred;

    bool step()
    {
        peers();
        std::vector<std::function<void()>> ev;
        cli.events(ev);
        srv.events(ev);
        if (!pendCli.empty() && !cli.closed)
            ev.push_back([this] { size_t n = r.chance(50) ? pendCli.size() : 1 + r.below(pendCli.size()); cli.in += pendCli.substr(0, n); pendCli.erase(0, n); });
        if (!pendSrv.empty() && !srv.closed && srv.connected)
            ev.push_back([this] { size_t n = r.chance(50) ? pendSrv.size() : 1 + r.below(pendSrv.size()); srv.in += pendSrv.substr(0, n); pendSrv.erase(0, n); });
        if (!srv.connects.empty())
            ev.push_back([this] {
                auto h = srv.connects.front();
                srv.connects.erase(srv.connects.begin());
                if (plan.failConnects > 0) { plan.failConnects--; h(boost::asio::error::connection_refused); return; }
                H::check(allowedToConnect(), "the broker is contacted although authentication did not allow it or the session is paused");
                srv.remote = srv.connectedTo.back();
                srv.connected = true;
                h(error_code());
            });
        if (!auth->asked.empty())
            ev.push_back([this] {
                auto q = auth->asked.front();
                auth->asked.erase(auth->asked.begin());
                checkRequest(q.first);
                authproto::AuthResponse a;
                a.set_reason(plan.reason);
                a.set_result(plan.auth == 0 ? authproto::AuthResponse::ALLOW : plan.auth == 1 ? authproto::AuthResponse::DENY : (authproto::AuthResponse::AuthResult)(2 + r.below(5)));
                if (plan.authData) {
                    authMech = r.word(r.range(1, 9)); authCred = r.bytes(r.below(50));
                    a.mutable_authdata()->set_authmechanism(authMech);
                    a.mutable_authdata()->set_credentials(authCred);
                }
                answered = true;
                q.second(a);
            });
        if (session->state().getPaused() && plan.unpause && cst == 3 && session->state().getReadyToConnectOnUnpause())
            ev.push_back([this] { if (plan.heartbeatWhilePaused && !hbSent) { hbSent = true; pendCli += ref::frame(8, 0, ""); return; } if (hbSent && !pendCli.empty()) return; H::check(sel.asked == 0 && auth->all.empty() && srv.connectedTo.empty(), "a paused session contacts the broker"); unpaused = true; session->unpause(); });
        if (ev.empty() || r.chance(20)) {
            io.restart();
            size_t n = io.poll();
            if (n) return true;
            if (ev.empty()) return false;
        }
        ev[r.below(ev.size())]();
        return true;
    }
    bool hbSent = false;
    bool answered = false, unpaused = false;
    bool allowedToConnect() { return answered && plan.auth == 0 && (!plan.pauses || unpaused); }
    void checkRequest(const authproto::AuthRequest &q)
    {
        H::check(q.vhostname() == vhost, "vhost presented for authentication differs");
        H::check(q.authdata().authmechanism() == mech && q.authdata().credentials() == cred, "mechanism or credentials presented for authentication differ");
        H::check(q.clienthostname() == mapper->m[cli.remote], "client host name presented for authentication differs");
        std::string want;
        for (auto &e : props) if (e.first == "connection_name") { want = e.second.type == 'S' ? e.second.bytes : ""; break; }
        H::check(q.connectionname() == want, "connection name presented for authentication differs");
    }
    // run until nothing more can happen
    void run(int maxSteps = 6000)
    {
        session->start();
        for (int i = 0; i < maxSteps; ++i) if (!step()) return;
        H::fail("the session keeps running without end");
    }
};

static std::string describe(World &w)
{
    std::ostringstream o;
    o << "vhost=" << H::hex(w.vhost) << " header=" << H::hex(w.header) << " wrongAt=" << w.plan.wrongAt << w.log << " auth=" << w.plan.auth << " authData=" << w.plan.authData << " pauses=" << w.plan.pauses
      << " backends=" << w.plan.backends << " failConnects=" << w.plan.failConnects << " client payload=" << w.cliPayload.size() << " broker payload=" << w.srvPayload.size() << " (seed and case number reproduce it)";
    return o.str();
}

// a session that must come up and pass everything through
static void good(Rng &r, Plan p)
{
    World w(r, p);
    H::note() = describe(w);
    w.run();
    H::note() = describe(w);
    H::check(w.openOkSeen == 1 && w.bst == 4, [&] { return "the handshake did not complete: client stage " + std::to_string(w.cst) + " broker stage " + std::to_string(w.bst) + " finished " + std::to_string(w.session->finished()); });
    H::check(w.startSeen == 1 && w.tuneSeen == 1, "a handshake message was repeated");
    H::check(w.srvPayloadGot == w.cliPayload, [&] { return "octets passed to the broker differ from those sent by the client (" + std::to_string(w.srvPayloadGot.size()) + " of " + std::to_string(w.cliPayload.size()) + ")"; });
    H::check(w.cliPayloadGot == w.srvPayload, [&] { return "octets passed to the client differ from those sent by the broker (" + std::to_string(w.cliPayloadGot.size()) + " of " + std::to_string(w.srvPayload.size()) + ")"; });
    H::check(!w.session->finished() && !w.cli.closed && !w.srv.closed, "an undisturbed session was disconnected");
    H::check(w.vhostEvents.size() == 1 && w.vhostEvents[0] == w.vhost && w.session->state().getVirtualHost() == w.vhost, "the session is registered under another vhost");
    uint64_t t[10];
    w.session->state().getTotals(&t[0], &t[1], &t[2], &t[3], &t[4], &t[5], &t[6], &t[7], &t[8], &t[9]);
    H::check(t[1] == w.cliFrames && t[2] == w.cliPayload.size(), "frames or octets counted from the client differ from what it sent");
    // the frame that opens the session is counted with what is passed through together with it
    H::check(t[6] + 2 >= w.srvFrames && t[6] <= w.srvFrames + 1, "frames counted from the broker differ from what it sent");
    H::check(w.auth->all.size() == 1 && w.sel.asked == 1 && w.sel.vhost == w.vhost, "selection or authentication did not happen exactly once");
    if (p.gracefulClose) {
        // the operator closes: client is asked first, then the broker, then both sockets are closed
        w.session->disconnect(false);
        int guard = 0;
        std::string c, s;
        bool cok = false, sok = false;
        while (guard++ < 4000) {
            c += w.cli.out; w.cli.out.clear();
            s += w.srv.out; w.srv.out.clear();
            Msg m;
            if (!cok && take(c, m)) { H::check(m.method(CLOSE) && m.args() == closeArgs(200, "OK"), "the client is not asked to close"); H::check(s.empty(), "the broker is closed before the client"); cok = true; w.pendCli.clear(); w.cli.in.clear(); w.cli.in += meth(CLOSEOK, ""); }
            if (!sok && take(s, m)) { H::check(cok && m.method(CLOSE) && m.args() == closeArgs(200, "OK"), "the broker is not asked to close"); sok = true; w.srv.in.clear(); w.srv.in += meth(CLOSEOK, ""); }
            std::vector<std::function<void()>> ev;
            w.cli.events(ev); w.srv.events(ev);
            w.io.restart();
            if (ev.empty()) { if (!w.io.poll()) break; continue; }
            ev[r.below(ev.size())]();
        }
        H::check(cok && sok, "closing did not reach both sides");
        H::check(w.cli.closed && w.srv.closed && w.session->finished(), "the sockets are not closed after the closing handshake");
        H::check(w.session->state().getDisconnectType() == SessionState::DisconnectType::DISCONNECTED_CLEANLY, "a graceful close is not recorded as clean");
    }
}

static void ended(World &w)
{
    H::check(w.session->finished(), "the session was not ended");
    H::check(w.cli.closed && w.srv.closed, "the sockets were not closed");
    H::check(w.openOkSeen == 0 && w.cliPayloadGot.empty() && w.srvPayloadGot.empty(), "data was passed although the handshake was refused");
}

// one peer sends a method that does not belong at its place
static void misbehaving(Rng &r)
{
    Plan p;
    p.wrongAt = (int)r.range(1, 5);
    World w(r, p);
    H::note() = describe(w);
    w.run();
    H::note() = describe(w);
    // the random method may happen to be the right one
    static const uint16_t right[] = {0, STARTOK, TUNEOK, OPEN, START, TUNE};
    if (w.wrongMethod == right[p.wrongAt]) return;
    H::check(w.misbehaved, "the conversation stopped early");
    ended(w);
    if (p.wrongAt <= 3) H::check(w.srv.connectedTo.empty() && w.auth->all.empty() && w.sel.asked == 0, "the broker is contacted although the client broke the handshake");
}

static void refusedByBroker(Rng &r)
{
    Plan p;
    p.brokerRefuses = true;
    World w(r, p);
    w.run();
    H::note() = describe(w);
    H::check(w.refused, "the conversation stopped early");
    ended(w);
    std::string a = w.relayedClose;
    std::string want = a.substr(0, a.size() - 4) + std::string(4, 0);
    // the close is written before the sockets are shut; it is not required to arrive if the socket was closed first
    H::check(!w.sawClose || w.closeSeen == want, "the broker's close is relayed with other contents");
}

static void authRun(Rng &r)
{
    Plan p;
    p.auth = (int)r.below(3);
    p.authData = r.chance(50);
    p.reason = r.chance(30) ? "" : r.word(r.chance(20) ? r.range(250, 400) : r.below(40));
    if (p.auth == 0) {
        if (p.authData && p.reason.size() > 200) p.reason.resize(200);
        good(r, p);
        return;
    }
    World w(r, p);
    w.run();
    H::note() = describe(w);
    H::check(w.answered && w.auth->all.size() == 1, "the client was not authenticated");
    H::check(w.srv.connectedTo.empty() && !w.srv.connected, "the broker is contacted although authentication did not allow it");
    ended(w);
    H::check(w.session->state().getAuthDeniedConnection(), "a denied session is not marked as denied");
    bool wants = false;
    for (auto &e : w.props) if (e.first == "capabilities") { wants = e.second.type == 'F' && !e.second.tab.empty() && e.second.tab[0].first == "authentication_failure_close" && e.second.tab[0].second.type == 't' && e.second.tab[0].second.num; break; }
    std::string why = p.reason.substr(0, 255);
    if (w.sawClose) { H::check(wants, "connection.close sent to a client that does not understand it"); H::check(w.closeSeen == closeArgs(403, why, 10, 11), "connection.close of a denied client has other contents"); }
}

static void selectorFails(Rng &r)
{
    Plan p;
    p.selectorRc = (int)r.range(2, 4);
    World w(r, p);
    w.run();
    H::note() = describe(w) + " selector=" + std::to_string(p.selectorRc);
    H::check(w.sel.asked == 1 && w.auth->all.empty() && w.srv.connectedTo.empty(), "a broker is contacted although none was selected");
    ended(w);
}

static void noBackendLeft(Rng &r)
{
    Plan p;
    p.backends = r.range(1, 4);
    p.failConnects = (int)r.range(0, p.backends);
    if (p.failConnects < (int)p.backends) {
        int f = p.failConnects;
        World w(r, p);
        w.run();
        H::note() = describe(w);
        H::check(w.openOkSeen == 1, "the session did not come up although a backend accepts connections");
        H::check((int)w.srv.connectedTo.size() == f + 1, "a backend was skipped or tried twice");
        for (size_t i = 0; i < w.srv.connectedTo.size(); ++i)
            for (size_t j = 0; j < i; ++j) H::check(w.srv.connectedTo[i] != w.srv.connectedTo[j], "a backend that failed is tried again");
        return;
    }
    World w(r, p);
    w.run();
    H::note() = describe(w);
    H::check(w.srv.connectedTo.size() == p.backends, "not every backend was tried");
    ended(w);
}

static void paused(Rng &r)
{
    Plan p;
    p.pauses = true;
    p.unpause = r.chance(70);
    p.heartbeatWhilePaused = r.chance(40);
    if (p.unpause) { good(r, p); return; }
    World w(r, p);
    w.run();
    H::note() = describe(w);
    H::check(w.sel.asked == 0 && w.auth->all.empty() && w.srv.connectedTo.empty(), "a paused session contacts the broker");
    H::check(w.openOkSeen == 0 && !w.session->finished() && !w.cli.closed, "a paused session is answered or disconnected");
}

// ---------------------------------------------------------------- packet processing against a reference
static void processor(Rng &r)
{
    SessionState st;
    EventSource es;
    BufferPool pool({64, 1024, 65536});
    Connector c(&st, &es, &pool, "host");
    bool created = false;
    c.setConnectionCreationHandler([&] { created = true; });
    std::string openAll;
    auto feed = [&](FlowType d, const std::string &s, std::string *ing, std::string *egr, std::string *rem) {
        std::unique_ptr<char[]> mem(new char[s.size() + r.below(5)]);
        memcpy(mem.get(), s.data(), s.size());
        Buffer b(mem.get(), s.size());
        b.seek(s.size());
        PacketProcessor pp(st, c);
        pp.process(d, b);
        auto str = [](Buffer x) { return std::string((const char *)x.originalPtr(), x.size()); };
        *ing = str(pp.ingressWrite());
        *egr = str(pp.egressWrite());
        *rem = str(pp.remaining());
    };
    std::string i, e, m;
    // incomplete header is kept
    size_t k = r.below(8);
    H::note() = "partial protocol header";
    feed(FlowType::INGRESS, HEADER.substr(0, k), &i, &e, &m);
    H::check(i.empty() && e.empty() && m == HEADER.substr(0, k) && c.state() == Connector::State::AWAITING_PROTOCOL_HEADER, "an incomplete protocol header is not kept");
    feed(FlowType::INGRESS, HEADER, &i, &e, &m);
    H::check(!i.empty() && e.empty() && m.empty(), "the protocol header is not answered to the client");
    auto go = [&](FlowType d, uint16_t mm, const std::string &a) { feed(d, meth(mm, a), &i, &e, &m); };
    go(FlowType::INGRESS, STARTOK, ref::encTable({}) + ref::encStr(1, "PLAIN") + ref::encStr(4, "x") + ref::encStr(1, "en"));
    go(FlowType::INGRESS, TUNEOK, std::string(8, 1));
    go(FlowType::INGRESS, OPEN, ref::encStr(1, "v") + std::string(2, 0));
    H::check(created && i.empty() && e.empty(), "open not accepted");
    // not open: nothing is passed
    { uint64_t f = 0; std::string s = ref::frame(1, 1, ref::be(2, 20) + ref::be(2, 10)) + ref::frame(8, 0, ""); feed(r.chance(50) ? FlowType::INGRESS : FlowType::EGRESS, s, &i, &e, &m); (void)f; H::check(i.empty() && e.empty() && m.empty(), "frames are passed on before the session is open"); }
    go(FlowType::EGRESS, START, std::string("\x00\x09", 2) + ref::encTable({}) + ref::encStr(4, "PLAIN") + ref::encStr(4, "en"));
    H::check(i.empty() && !e.empty(), "start-ok is not sent to the broker");
    go(FlowType::EGRESS, TUNE, std::string(8, 1));
    H::check(i.empty() && !e.empty(), "tune-ok and open are not sent to the broker");
    std::string tail = r.chance(50) ? ref::frame(1, 3, r.bytes(r.below(30))) : "", part = r.chance(50) ? ref::frame(1, 3, r.bytes(20)).substr(0, r.below(20)) : "";
    std::string all = meth(OPENOK, ref::encStr(1, "")) + tail;
    feed(FlowType::EGRESS, all + part, &i, &e, &m);
    H::check(i == all && e.empty() && m == part && c.state() == Connector::State::OPEN, "open-ok and what follows it are not passed to the client unchanged");
    uint64_t t0[10], t1[10];
    for (int n = 0; n < 6; ++n) {
        FlowType d = r.chance(50) ? FlowType::INGRESS : FlowType::EGRESS;
        std::string whole, rest;
        uint64_t frames = r.below(5);
        for (uint64_t j = 0; j < frames; ++j) whole += ref::frame((uint8_t)r.edgy(8), (uint16_t)r.edgy(16), r.chance(30) ? ref::be(2, 10) + ref::be(2, r.pick(std::vector<uint16_t>{10, 50, 51, 40, 41})) + r.bytes(r.below(9)) : r.bytes(r.below(60)));
        std::string nx = ref::frame((uint8_t)r.edgy(8), 1, r.bytes(r.below(40)));
        if (r.chance(60)) rest = nx.substr(0, r.below(nx.size()));
        st.getTotals(&t0[0], &t0[1], &t0[2], &t0[3], &t0[4], &t0[5], &t0[6], &t0[7], &t0[8], &t0[9]);
        H::note() = std::string(d == FlowType::INGRESS ? "ingress " : "egress ") + H::hex(whole) + " | " + H::hex(rest);
        feed(d, whole + rest, &i, &e, &m);
        st.getTotals(&t1[0], &t1[1], &t1[2], &t1[3], &t1[4], &t1[5], &t1[6], &t1[7], &t1[8], &t1[9]);
        bool in = d == FlowType::INGRESS;
        H::check((in ? e : i) == whole && (in ? i : e).empty() && m == rest, "octets passed on or kept differ");
        H::check(c.state() == Connector::State::OPEN, "the session does not stay open");
        int o = in ? 0 : 5;
        H::check(t1[o + 1] - t0[o + 1] == frames && t1[o + 2] - t0[o + 2] == whole.size(), "frames or octets are not counted");
        H::check(t1[5 - o + 1] == t0[5 - o + 1] && t1[5 - o + 2] == t0[5 - o + 2], "the other direction is counted");
        if (r.chance(10)) {
            std::string bad = nx; bad[bad.size() - 1] = (char)(r.below(0xCE));
            H::note() = "badly terminated frame " + H::hex(whole + bad);
            bool thrown = false;
            try { feed(d, whole + bad, &i, &e, &m); } catch (const std::runtime_error &) { thrown = true; }
            H::check(thrown, "a badly terminated frame is accepted");
        }
    }
}

// ---------------------------------------------------------------- connector against a reference state machine
static void connector(Rng &r)
{
    SessionState st;
    EventSource es;
    BufferPool pool(r.chance(50) ? std::vector<size_t>{64, 1024, 200000} : std::vector<size_t>{});
    Connector c(&st, &es, &pool, "host");
    int created = 0, established = 0;
    c.setConnectionCreationHandler([&] { created++; });
    auto sub = es.connectionEstablished().subscribe([&](uint64_t) { established++; });
    std::vector<std::string> vhosts;
    auto sub2 = es.connectionVhostEstablished().subscribe([&](uint64_t, std::string v) { vhosts.push_back(v); });
    using S = Connector::State;
    std::string hist;
    std::string hdr = r.chance(70) ? HEADER : r.chance(50) ? LEGACY : r.chance(50) ? std::string("AMQP\x00\x00\x09\x00", 8) : r.bytes(r.range(8, 12));
    auto outs = [&] { Buffer b = c.outBuffer(); return std::string((const char *)b.originalPtr(), b.size()); };
    bool ok = hdr == HEADER || hdr == LEGACY;
    H::note() = "header " + H::hex(hdr);
    c.receive(Buffer((const void *)hdr.data(), hdr.size()));
    H::check(c.sendToIngressSide(), "the reply to the protocol header does not go to the client");
    if (!ok) {
        H::check(outs() == HEADER && c.state() == S::ERROR, "a wrong protocol header is not answered with the supported one");
        return;
    }
    { std::string o = outs(); Msg m; H::check(take(o, m) && o.empty() && m.method(START) && c.state() == S::START_SENT, "the protocol header is not answered with connection.start"); }
    std::string tune, vhost, mech, cred, loc;
    ref::Table props;
    S s = S::START_SENT;
    for (int n = 0; n < 14; ++n) {
        // mostly the right message, sometimes another
        uint16_t m = 0; FlowType d = FlowType::INGRESS;
        switch (s) {
        case S::START_SENT: m = STARTOK; break;
        case S::TUNE_SENT: m = TUNEOK; break;
        case S::AWAITING_OPEN: m = OPEN; break;
        case S::AWAITING_CONNECTION: m = START; d = FlowType::EGRESS; break;
        case S::STARTOK_SENT: m = TUNE; d = FlowType::EGRESS; break;
        case S::OPEN_SENT: m = OPENOK; d = FlowType::EGRESS; break;
        case S::CLIENT_CLOSE_SENT: m = CLOSEOK; break;
        case S::SERVER_CLOSE_SENT: m = CLOSEOK; d = FlowType::EGRESS; break;
        default: m = CLOSE; break;
        }
        static const std::vector<uint16_t> ms = {START, STARTOK, SECURE, TUNE, TUNEOK, OPEN, OPENOK, CLOSE, CLOSEOK, 99};
        if (r.chance(12)) m = r.pick(ms);
        if (r.chance(8)) d = d == FlowType::INGRESS ? FlowType::EGRESS : FlowType::INGRESS;
        if (r.chance(4) && (s == S::OPEN || s == S::OPEN_SENT)) {
            bool toClient = r.chance(70);
            c.synthesizeClose(toClient);
            std::string o = outs(); Msg q;
            H::check(take(o, q) && o.empty() && q.method(CLOSE) && q.args() == closeArgs(200, "OK") && c.sendToIngressSide() == toClient, "closing does not send connection.close to the right side");
            s = toClient ? S::CLIENT_CLOSE_SENT : S::SERVER_CLOSE_SENT;
            H::check(c.state() == s, "closing leaves another state");
            continue;
        }
        std::string a;
        std::string nmech = r.bytes(r.below(20)), ncred = r.bytes(r.below(50)), nloc = r.bytes(r.below(10)), nt = r.bytes(8), nv = r.bytes(r.below(30));
        auto np = ref::genTable(r, 1);
        for (auto &x : np) if (x.second.bytes.size() > 3000) x.second.bytes.resize(3000);
        std::string cl = closeArgs((uint16_t)r.edgy(16), r.word(r.below(30)), 1, 2);
        switch (m) {
        case START: a = std::string("\x00\x09", 2) + ref::encTable(ref::genTable(r, 1)) + ref::encStr(4, "PLAIN") + ref::encStr(4, "en"); break;
        case STARTOK: a = ref::encTable(np) + ref::encStr(1, nmech) + ref::encStr(4, ncred) + ref::encStr(1, nloc); break;
        case TUNE: a = r.bytes(8); break;
        case TUNEOK: a = nt; break;
        case OPEN: a = ref::encStr(1, nv) + std::string(2, 0); break;
        case OPENOK: a = ref::encStr(1, ""); break;
        case CLOSE: a = cl; break;
        }
        bool trunc = r.chance(5) && !a.empty() && (m == START || m == STARTOK || m == TUNE || m == TUNEOK || m == CLOSE);
        if (trunc) a.resize(m == START || m == STARTOK ? r.below(4) : r.below(m == CLOSE ? 3 : a.size()));
        hist += " " + std::to_string(m) + (d == FlowType::INGRESS ? "<" : ">") + (trunc ? "!" : "");
        H::note() = "methods" + hist + " state " + std::to_string((int)s);
        Method me;
        me.classType = 10; me.methodType = m;
        std::unique_ptr<char[]> mem(new char[a.size()]);
        memcpy(mem.get(), a.data(), a.size());
        me.payload = mem.get(); me.length = a.size();
        bool thrown = false, closeErr = false;
        std::string ceText; uint64_t ceCode = 0;
        try { c.receive(me, d); }
        catch (CloseError &x) { closeErr = true; auto cm = x.closeMethod(); ceText = cm.replyString(); ceCode = cm.replyCode(); }
        catch (std::runtime_error &) { thrown = true; }
        bool in = d == FlowType::INGRESS;
        std::string o = outs();
        auto refuse = [&](uint16_t want, bool wantIn) {
            if (m == want && in == wantIn && !trunc) return false;
            bool ce = m != want && m == CLOSE && !in && !trunc;
            H::check(ce ? closeErr : thrown, "a message that does not belong here is not refused");
            if (ce) H::check(ref::be(2, ceCode) + ref::encStr(1, ceText) == cl.substr(0, cl.size() - 4), "the broker's close is reported with other contents");
            H::check(o.empty() && c.state() == s, "a refused message has an effect");
            return true;
        };
        Msg q;
        switch (s) {
        case S::START_SENT:
            if (refuse(STARTOK, true)) return;
            mech = nmech; cred = ncred; loc = nloc; props = np;
            H::check(take(o, q) && o.empty() && q.method(TUNE) && c.sendToIngressSide(), "start-ok is not answered with tune to the client");
            s = S::TUNE_SENT; break;
        case S::TUNE_SENT:
            if (refuse(TUNEOK, true)) return;
            tune = nt; H::check(o.empty(), "tune-ok is answered"); s = S::AWAITING_OPEN; break;
        case S::AWAITING_OPEN:
            if (refuse(OPEN, true)) return;
            vhost = nv; H::check(o.empty() && created == 1 && st.getVirtualHost() == vhost && vhosts.size() == 1 && vhosts[0] == vhost, "open does not start connecting for its vhost"); s = S::AWAITING_CONNECTION; break;
        case S::AWAITING_CONNECTION: {
            if (refuse(START, false)) return;
            H::check(take(o, q) && o.empty() && q.method(STARTOK) && !c.sendToIngressSide(), "the broker's start is not answered with start-ok");
            std::string x = q.args(); size_t p = 0; ref::Table t; std::string me2, cr, lo;
            H::check(ref::decTable(x, p, x.size(), t) && ref::decStr(x, p, x.size(), 1, me2) && ref::decStr(x, p, x.size(), 4, cr) && ref::decStr(x, p, x.size(), 1, lo) && p == x.size(), "start-ok malformed");
            H::check(me2 == mech && cr == cred && lo == loc, "mechanism, credentials or locale differ from the client's");
            H::check(t.size() == props.size() + 2 && t[props.size()].first == "amqpprox_client" && t[props.size() + 1].first == "amqpprox_host", "the identification of the proxy is not appended to the client properties");
            t.resize(props.size()); H::check(ref::encTable(t) == ref::encTable(props), "client properties are changed");
            s = S::STARTOK_SENT; } break;
        case S::STARTOK_SENT:
            if (refuse(TUNE, false)) return;
            H::check(take(o, q) && q.method(TUNEOK) && q.args() == tune && !c.sendToIngressSide(), "tune-ok to the broker is not the client's");
            H::check(take(o, q) && o.empty() && q.method(OPEN) && q.args() == ref::encStr(1, vhost) + std::string(2, 0), "open to the broker is not the client's");
            s = S::OPEN_SENT; break;
        case S::OPEN_SENT:
            H::check(!thrown && !closeErr, "unexpected refusal");
            if (m == OPENOK && !in) { H::check(established == 1 && take(o, q) && o.empty() && q.method(OPENOK) && c.sendToIngressSide(), "open-ok does not open the session"); s = S::OPEN; }
            else H::check(o.empty(), "a stray message is answered");
            break;
        case S::OPEN:
            H::check(o.empty() && !thrown && !closeErr, "a message on an open session is answered");
            if (m == CLOSE || m == CLOSEOK) s = S::CLOSED;
            break;
        case S::CLIENT_CLOSE_SENT:
            H::check(!thrown && !closeErr, "unexpected refusal");
            if (m == CLOSEOK && in) { H::check(take(o, q) && o.empty() && q.method(CLOSE) && !c.sendToIngressSide(), "the client's close-ok is not followed by close to the broker"); s = S::SERVER_CLOSE_SENT; }
            else if (m == CLOSE && in) { H::check(c.state() == S::SERVER_CLOSE_SENT, "the client's close does not lead to closing the broker"); s = S::SERVER_CLOSE_SENT; }
            else if (m == CLOSE) { H::check(take(o, q) && o.empty() && q.method(CLOSEOK) && !c.sendToIngressSide(), "the broker's close is not answered"); s = S::CLOSED; }
            else H::check(o.empty(), "a stray message is answered");
            break;
        case S::SERVER_CLOSE_SENT:
            H::check(!thrown && !closeErr, "unexpected refusal");
            if (m == CLOSE) { H::check(take(o, q) && o.empty() && q.method(CLOSEOK) && c.sendToIngressSide() == in, "close is not answered with close-ok to its sender"); if (!in) s = S::CLOSED; }
            else { H::check(o.empty(), "a stray message is answered"); if (m == CLOSEOK && !in) s = S::CLOSED; }
            break;
        default:
            H::check(o.empty() && !thrown && !closeErr, "a closed session answers");
        }
        H::check(c.state() == s, [&] { return "state " + std::to_string((int)c.state()) + " instead of " + std::to_string((int)s); });
    }
}

static void proxyHeader(Rng &r)
{
    Plan p;
    p.proxyProto = true;
    p.backends = r.range(1, 3);
    p.failConnects = (int)r.below(p.backends);
    World w(r, p);
    w.run();
    H::note() = describe(w);
    H::check(w.openOkSeen == 1 && !w.proxyLine.empty(), "the session did not come up behind the PROXY line");
    // the text itself
    using PP = ProxyProtocolHeaderV1;
    for (int k = 0; k < 3; ++k) {
        std::string a = r.word(r.range(1, 39)), b = r.word(r.range(1, 39));
        int x = (int)r.below(65536), y = (int)r.below(65536);
        std::ostringstream o;
        PP::InetProtocol pr = k == 0 ? PP::InetProtocol::TCP4 : k == 1 ? PP::InetProtocol::TCP6 : PP::InetProtocol::UNKNOWN;
        o << PP(pr, a, b, x, y);
        std::string want = k == 2 ? "PROXY UNKNOWN\r\n" : std::string("PROXY ") + (k == 0 ? "TCP4 " : "TCP6 ") + a + " " + b + " " + std::to_string(x) + " " + std::to_string(y) + "\r\n";
        H::note() = want;
        H::check(o.str() == want, "PROXY line differs");
    }
    std::ostringstream o; o << PP(); H::check(o.str() == "PROXY UNKNOWN\r\n", "default PROXY line differs");
}

int main(int argc, char **argv)
{
    H::init(argc, argv);
    std::string m = H::mode();
    return H::loop([&](Rng &r) {
        if (m == "P06") { if (r.chance(40)) processor(r); else good(r, Plan()); }
        else if (m == "P07") { int k = (int)r.below(10); if (k < 4) connector(r); else if (k < 6) misbehaving(r); else if (k < 7) refusedByBroker(r); else { Plan p; p.gracefulClose = r.chance(50); good(r, p); } }
        else if (m == "P08") { if (r.chance(50)) connector(r); else { Plan p; p.authData = r.chance(20); p.reason = r.chance(50) ? r.word(r.below(30)) : ""; good(r, p); } }
        else if (m == "P09") authRun(r);
        else if (m == "P15") { if (r.chance(40)) parts::routes(r); else if (r.chance(50)) selectorFails(r); else noBackendLeft(r); }
        else if (m == "P19") paused(r);
        else if (m == "P20") proxyHeader(r);
        else H::fail("unknown mode");
    }, 100);
}
