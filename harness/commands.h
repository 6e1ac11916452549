// P25: control commands, given as text over the real control socket, against an independent account of what each may change.
#pragma once
#include "harness.h"
#include "parts.h"
#include <amqpprox_authcontrolcommand.h>
#include <amqpprox_backendcontrolcommand.h>
#include <amqpprox_backendselectorstore.h>
#include <amqpprox_control.h>
#include <amqpprox_controlcommand.h>
#include <amqpprox_datacentercontrolcommand.h>
#include <amqpprox_dataratelimitmanager.h>
#include <amqpprox_eventsource.h>
#include <amqpprox_farmcontrolcommand.h>
#include <amqpprox_helpcontrolcommand.h>
#include <amqpprox_limitcontrolcommand.h>
#include <amqpprox_listencontrolcommand.h>
#include <amqpprox_mapcontrolcommand.h>
#include <amqpprox_partitionpolicystore.h>
#include <amqpprox_server.h>
#include <amqpprox_session.h>
#include <amqpprox_sessioncontrolcommand.h>
#include <amqpprox_tlscontrolcommand.h>
#include <amqpprox_vhostcontrolcommand.h>
#include <amqpprox_vhoststate.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <fstream>
#include <netinet/in.h>
#include <openssl/pem.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include <optional>
#include <poll.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

namespace commands {
using namespace Bloomberg::amqpprox;
using H::Rng;
using parts::same;

// a scratch directory with a key and two certificates, removed at the end
struct Scratch {
    std::string dir, key, cert;
    EVP_PKEY   *pkey = nullptr;
    Scratch()
    {
        char t[] = "/tmp/amqpprox-cmd-XXXXXX";
        dir      = mkdtemp(t);
        key      = dir + "/key.pem";
        cert     = dir + "/cert.pem";
        pkey     = EVP_RSA_gen(2048);
        if (FILE *f = fopen(key.c_str(), "w")) { PEM_write_PrivateKey(f, pkey, nullptr, nullptr, 0, nullptr, nullptr); fclose(f); }
        X509 *x = X509_new();
        ASN1_INTEGER_set(X509_get_serialNumber(x), 7);
        X509_gmtime_adj(X509_getm_notBefore(x), 0);
        X509_gmtime_adj(X509_getm_notAfter(x), 86400);
        X509_set_pubkey(x, pkey);
        X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const unsigned char *)"t", -1, -1, 0);
        X509_set_issuer_name(x, X509_get_subject_name(x));
        X509_sign(x, pkey, EVP_sha256());
        if (FILE *f = fopen(cert.c_str(), "w")) { PEM_write_X509(f, x); fclose(f); }
        X509_free(x);
        H::cleanup() = [this] { remove(); };
    }
    void remove() { unlink(key.c_str()); unlink(cert.c_str()); unlink((dir + "/s").c_str()); rmdir(dir.c_str()); }
    ~Scratch()
    {
        remove();
        EVP_PKEY_free(pkey);
    }
};
inline Scratch &scratch() { static Scratch s; return s; }

inline std::string cased(Rng &r, const std::string &s)
{
    std::string o = s;
    if (r.chance(50)) for (auto &c : o) if (r.chance(50)) c = (char)tolower(c);
    return o;
}
struct Number { std::string text; bool ok; uint64_t value; bool negative = false; };
inline Number number(Rng &r, uint64_t max)
{
    switch (r.below(9)) {
    case 0: return {"x", false, 0};
    case 1: return {"0", true, 0};
    case 2: return {std::to_string(max), true, max};
    case 3: return {"99999999999999999999", false, 0};
    case 4: { uint64_t v = max + 1 + r.below(9); if (v <= max) v = max; return {std::to_string(v), v <= max, v}; }
    default: { uint64_t v = r.range(1, r.chance(50) ? 100 : max < 100000 ? max : 100000); return {std::to_string(v), true, v}; }
    }
}
inline Number port(Rng &r)
{
    switch (r.below(10)) {
    case 0: return {"0", false, 0};
    case 1: return {"65536", false, 0};
    case 2: return {std::to_string(65536 + r.range(1, 65535)), false, 0};
    case 3: return {"-" + std::to_string(r.range(1, 70000)), false, 0};
    case 4: return {"abc", false, 0};
    case 5: return {"99999999999", false, 0};
    case 6: return {"65535", true, 65535};
    case 7: return {"1", true, 1};
    default: { uint64_t v = r.range(1, 65535); return {std::to_string(v), true, v}; }
    }
}
inline bool bindable(int p)
{
    int fd = socket(AF_INET, SOCK_STREAM, 0), one = 1;
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port   = htons(p);
    bool ok      = bind(fd, (sockaddr *)&a, sizeof a) == 0;
    close(fd);
    return ok;
}
inline int freePort()
{
    int fd = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    socklen_t n  = sizeof a;
    bind(fd, (sockaddr *)&a, sizeof a);
    getsockname(fd, (sockaddr *)&a, &n);
    close(fd);
    return ntohs(a.sin_port);
}
struct Fd {
    int fd = -1;
    Fd() {}
    explicit Fd(int f) : fd(f) {}
    Fd(Fd &&o) : fd(o.fd) { o.fd = -1; }
    ~Fd() { if (fd >= 0) close(fd); }
};
inline Fd client(int p)
{
    Fd f(socket(AF_INET, SOCK_STREAM, 0));
    sockaddr_in a{};
    a.sin_family      = AF_INET;
    a.sin_port        = htons(p);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (connect(f.fd, (sockaddr *)&a, sizeof a)) { close(f.fd); f.fd = -1; }
    else fcntl(f.fd, F_SETFL, O_NONBLOCK);
    return f;
}

struct World {
    BufferPool               pool{std::vector<uint64_t>{256, 4096, 16384, 65536, 131072}};
    EventSource              events;
    FarmStore                farms;
    BackendStore             store;
    ResourceMapper           mapper;
    ConnectionLimiterManager limits;
    DataRateLimitManager     rates;
    ConnectionSelector       sel{&farms, &store, &mapper, &limits};
    VhostState               vhosts;
    PartitionPolicyStore     policies;
    BackendSelectorStore     selectors;
    Datacenter               dc;
    std::string              path;
    Server                   server{&sel, &events, &pool, &rates};
    Control                  control;
    explicit World(const std::string &p) : path(p), control(&server, &events, (unlink(p.c_str()), p))
    {
        selectors.addSelector(std::unique_ptr<BackendSelector>(new RobinBackendSelector));
        policies.addPolicy(std::unique_ptr<PartitionPolicy>(new AffinityPartitionPolicy(&dc)));
        auto add = [&](ControlCommand *c) { control.addControlCommand(std::unique_ptr<ControlCommand>(c)); };
        add(new MapControlCommand(&mapper, &sel));
        add(new ListenControlCommand);
        add(new SessionControlCommand);
        add(new DatacenterControlCommand(&dc, &farms));
        add(new BackendControlCommand(&store));
        add(new LimitControlCommand(&limits, &rates));
        add(new AuthControlCommand);
        add(new VhostControlCommand(&vhosts));
        add(new TlsControlCommand);
        add(new FarmControlCommand(&farms, &store, &selectors, &policies));
        add(new HelpControlCommand);
    }
    void settle()
    {
        for (int i = 0; i < 4; ++i) { server.ioContext().restart(); server.ioContext().poll(); }
    }
    // one line over the control socket, until its output ends
    void say(const std::string &line)
    {
        Fd f(socket(AF_UNIX, SOCK_STREAM, 0));
        sockaddr_un a{};
        a.sun_family = AF_UNIX;
        strncpy(a.sun_path, path.c_str(), sizeof a.sun_path - 1);
        H::check(connect(f.fd, (sockaddr *)&a, sizeof a) == 0, "the control socket takes no connection");
        fcntl(f.fd, F_SETFL, O_NONBLOCK);
        std::string text = line + "\n";
        H::check(write(f.fd, text.data(), text.size()) == (ssize_t)text.size(), "the control socket takes no command");
        char buf[4096];
        for (int i = 0; i < 20000; ++i) {
            control.ioContext().restart();
            control.ioContext().poll();
            ssize_t n = read(f.fd, buf, sizeof buf);
            if (n == 0) { control.ioContext().poll(); return; }
        }
        H::fail("the output of a command does not end");
    }
};

// what the commands amount to
struct Model {
    std::map<std::string, Backend>                                        backends;
    std::map<std::string, std::pair<std::set<std::string>, int>>          farms;
    std::map<std::string, std::pair<bool, std::string>>                   maps;
    std::string                                                           def, dc;
    std::map<std::string, std::optional<uint32_t>>                        conn, connAlarm;
    std::optional<uint32_t>                                               defConn, defConnAlarm;
    std::map<std::string, size_t>                                         data, dataAlarm;
    size_t                                                                defData = ~(size_t)0, defDataAlarm = ~(size_t)0;
    std::set<std::string>                                                 paused;
    int                                                                   verify[2] = {0, 0};
    bool                                                                  key[2] = {false, false}, cert[2] = {false, false}, oneCipher[2] = {false, false};
    int                                                                   ca[2] = {0, 0};
    std::string                                                           auth;
    std::map<int, bool>                                                   listening;
};

inline void verify(World &w, const Model &m, const std::vector<int> &ports, const std::string &auth0)
{
    for (char c = 'a'; c < 'e'; ++c) {
        std::string n(1, c), N(1, (char)toupper(c));
        for (auto &v : {n, N}) {
            const Backend *b = w.store.lookup(v);
            H::check(!!b == !!m.backends.count(v), [&] { return "backend " + v + (b ? " exists although never added, or removed" : " is missing"); });
            H::check(!b || same(*b, m.backends.at(v)), [&] { return "backend " + v + " is not as described"; });
            bool has = true;
            std::vector<std::string> members;
            std::shared_ptr<BackendSet> set;
            try { Farm &f = w.farms.getFarmByName(v); f.members(&members); set = f.backendSet(); } catch (std::runtime_error &) { has = false; }
            H::check(has == !!m.farms.count(v), [&] { return "farm " + v + (has ? " exists although never added, or removed" : " is missing"); });
            if (has) {
                auto &f = m.farms.at(v);
                H::check(std::set<std::string>(members.begin(), members.end()) == f.first, [&] { return "farm " + v + " has other members"; });
                std::vector<std::set<std::string>> want(1), is;
                if (f.second) {
                    std::set<std::string> l, o;
                    for (auto &x : f.first) (m.backends.at(x).datacenterTag() == m.dc ? l : o).insert(x);
                    want.clear();
                    if (!l.empty()) want.push_back(l);
                    if (!o.empty()) want.push_back(o);
                }
                else want[0] = f.first;
                for (auto &p : set->partitions()) { is.emplace_back(); for (auto b : p) is.back().insert(b->name()); }
                H::check(is == want, [&] { return "farm " + v + " is divided another way than its policies and the data center say"; });
            }
            SessionState st;
            st.setVirtualHost(v);
            bool isFarm = false;
            std::string res;
            bool mapped = w.mapper.getResourceMap(&isFarm, &res, st);
            H::check(mapped == !!m.maps.count(v), [&] { return "vhost " + v + (mapped ? " is mapped" : " is not mapped"); });
            H::check(!mapped || m.maps.at(v) == std::make_pair(isFarm, res), [&] { return "vhost " + v + " is mapped to " + res; });
            H::check(w.vhosts.isPaused(v) == !!m.paused.count(v), [&] { return "vhost " + v + " is paused or not although another was named"; });
            auto limit = [&](const std::shared_ptr<ConnectionLimiterInterface> &l, const std::map<std::string, std::optional<uint32_t>> &k, const std::optional<uint32_t> &d, const char *what) {
                auto it   = k.find(v);
                bool own  = it != k.end();
                H::check(own ? !!l : !l || d, [&] { return std::string(what) + " of vhost " + v + (l ? " is set" : " is not set"); });
                if (l) {
                    std::string t = l->toString(), n = " " + std::to_string(own ? *it->second : *d) + " ";
                    H::check(t.find(n) != std::string::npos, [&] { return std::string(what) + " of vhost " + v + " is: " + t; });
                }
            };
            limit(w.limits.getConnectionRateLimiter(v), m.conn, m.defConn, "the connection limit");
            limit(w.limits.getAlarmOnlyConnectionRateLimiter(v), m.connAlarm, m.defConnAlarm, "the connection alarm");
            auto rate = [&](size_t is, const std::map<std::string, size_t> &k, size_t d, const char *what) {
                size_t want = k.count(v) ? k.at(v) : d;
                H::check(is == want, [&] { return std::string(what) + " of vhost " + v + " is " + std::to_string(is) + " instead of " + std::to_string(want); });
            };
            rate(w.rates.getDataRateLimit(v), m.data, m.defData, "the data limit");
            rate(w.rates.getDataRateAlarm(v), m.dataAlarm, m.defDataAlarm, "the data alarm");
        }
    }
    SessionState st;
    st.setVirtualHost("zz");
    w.limits.getDefaultConnectionRateLimit();
    H::check(w.limits.getDefaultConnectionRateLimit() == m.defConn, "the default connection limit is another");
    H::check(w.limits.getAlarmOnlyDefaultConnectionRateLimit() == m.defConnAlarm, "the default connection alarm is another");
    H::check(w.rates.getDefaultDataRateLimit() == m.defData, "the default data limit is another");
    H::check(w.rates.getDefaultDataRateAlarm() == m.defDataAlarm, "the default data alarm is another");
    if (!m.defConn) { // a route of a vhost that nothing maps: the default farm
        std::shared_ptr<ConnectionManager> cm;
        using S = SessionState::ConnectionStatus;
        S rc = w.sel.acquireConnection(&cm, st), want = m.def.empty() ? S::NO_FARM : m.farms.count(m.def) ? S::SUCCESS : S::ERROR_FARM;
        H::check(rc == want, [&] { return "the default farm is not " + (m.def.empty() ? std::string("unset") : m.def); });
        if (cm) { const Backend *b = cm->getConnection(0); H::check(b && m.farms.at(m.def).first.count(b->name()), [&] { return "the default farm is not " + m.def; }); }
    }
    H::check(w.dc.get() == m.dc, [&] { return "the data center is " + w.dc.get(); });
    for (int i = 0; i < 2; ++i) {
        SSL_CTX *c = (i ? w.server.egressTlsContext() : w.server.ingressTlsContext()).native_handle();
        const char *d = i ? "egress" : "ingress";
        H::check(SSL_CTX_get_verify_mode(c) == m.verify[i], [&] { return std::string(d) + " verify mode is " + std::to_string(SSL_CTX_get_verify_mode(c)) + " instead of " + std::to_string(m.verify[i]); });
        H::check(!!SSL_CTX_get0_privatekey(c) == m.key[i], [&] { return std::string(d) + " key is " + (m.key[i] ? "not set" : "set"); });
        H::check(!!SSL_CTX_get0_certificate(c) == m.cert[i], [&] { return std::string(d) + " certificate is " + (m.cert[i] ? "not set" : "set"); });
        STACK_OF(X509_OBJECT) *os = X509_STORE_get0_objects(SSL_CTX_get_cert_store(c));
        H::check((sk_X509_OBJECT_num(os) > 0) == (m.ca[i] > 0), [&] { return std::string(d) + " trusted certificates are " + (m.ca[i] ? "not set" : "set"); });
        STACK_OF(SSL_CIPHER) *cs = SSL_CTX_get_ciphers(c);
        int old = 0;
        for (int k = 0; k < sk_SSL_CIPHER_num(cs); ++k) old += std::string(SSL_CIPHER_get_version(sk_SSL_CIPHER_value(cs, k))) != "TLSv1.3";
        H::check((old == 1) == m.oneCipher[i], [&] { return std::string(d) + " ciphers are " + (m.oneCipher[i] ? "not changed" : "changed"); });
    }
    std::ostringstream os;
    w.server.getAuthIntercept()->print(os);
    H::check(m.auth.empty() ? os.str() == auth0 : os.str().find(m.auth + "\n") != std::string::npos, [&] { return "authentication: " + os.str() + " instead of " + (m.auth.empty() ? auth0 : m.auth); });
    for (int p : ports) H::check(bindable(p) == !m.listening.count(p), [&] { return "port " + std::to_string(p) + (m.listening.count(p) ? " is not listened on" : " is listened on"); });
}

inline void run(Rng &r)
{
    Scratch &s = scratch();
    World w(s.dir + "/s");
    Model m;
    std::ostringstream a0;
    w.server.getAuthIntercept()->print(a0);
    for (int i = 0; i < 2; ++i) m.verify[i] = SSL_CTX_get_verify_mode((i ? w.server.egressTlsContext() : w.server.ingressTlsContext()).native_handle());
    std::vector<int> ports;
    bool sockets = r.chance(30);
    if (sockets) { ports.push_back(freePort()); do { int p = freePort(); if (p != ports[0]) ports.push_back(p); } while (ports.size() < 2); }
    std::string hist;
    const int focus[2] = {(int)r.below(sockets ? 13 : 11), sockets ? 11 : (int)r.below(11)}; // mostly two commands, so that their histories grow
    for (int n = 0; n < 25; ++n) {
        auto name = [&] { std::string x(1, (char)('a' + r.below(4))); if (r.chance(10)) x[0] = (char)toupper(x[0]); return x; };
        std::vector<std::string> words;              // as given
        std::function<void()>    effect = [] {};     // what it does to the model
        std::string x = name(), y = name();
        bool more = r.chance(10);                    // words beyond those needed
        size_t need = 0;                             // with fewer words nothing changes
        auto sub = [&](const std::string &t) { return cased(r, t); };
        switch (r.chance(80) ? focus[r.below(2)] : (int)r.below(sockets ? 13 : 11)) {
        case 0: {
            const char *k[] = {"BACKEND", "FARM", "UNMAP", "DEFAULT", "REMOVE_DEFAULT", "PRINT"};
            int i = (int)r.below(6);
            words = {"MAP", sub(k[i]), x, y};
            if (i < 2) { need = 4; effect = [&, i] { m.maps[x] = {i == 1, y}; }; }
            else if (i == 2) { need = 3; effect = [&] { m.maps.erase(x); }; }
            else if (i == 3) { need = 3; effect = [&] { m.def = x; }; }
            else if (i == 4) { need = 2; effect = [&] { m.def.clear(); }; }
            } break;
        case 1: case 2: {
            bool dns = r.chance(50);
            std::string dc = r.chance(50) ? "dc1" : "dc2", host = dns ? "host" + x : "127.0.0." + std::to_string(r.range(1, 9)), o1, o2;
            Number p = port(r);
            words = {"BACKEND", sub(dns ? "ADD_DNS" : "ADD"), x, dc, host, p.text};
            bool proxy = false, tls = false;
            for (int i = 0; i < 2; ++i) switch (r.below(3)) {
                case 0: words.push_back(cased(r, "SEND-PROXY")); proxy = true; break;
                case 1: words.push_back(cased(r, "TLS")); tls = true; break;
                default: i = 2;
            }
            need = 6;
            if (p.ok) effect = [&, dc, host, p, proxy, tls, dns] { m.backends.emplace(x, Backend(x, dc, host, dns ? "" : host, (int)p.value, proxy, tls, dns)); };
            } break;
        case 3: {
            bool used = false;
            for (auto &f : m.farms) used |= !!f.second.first.count(x);
            if (used) continue;
            words = {"BACKEND", sub("DELETE"), x};
            need  = 3;
            effect = [&] { m.backends.erase(x); };
            } break;
        case 4: {
            std::set<std::string> ms;
            bool ok = r.chance(90);
            words = {"FARM", sub(r.chance(50) ? "ADD" : "ADD_MANUAL"), x, ok ? "round-robin" : "other"};
            for (size_t i = 0, k = r.below(4); i < k; ++i) { std::string b = name(); if (!m.backends.empty() && r.chance(80)) { auto it = m.backends.begin(); std::advance(it, r.below(m.backends.size())); b = it->first; } words.push_back(b); ms.insert(b); ok &= !!m.backends.count(b); }
            if (ms.empty()) ok = false;
            need = words.size();
            more = false;
            if (ok) effect = [&, ms] { m.farms[x] = {ms, 0}; };
            // a farm given fewer backends is another farm: not shortened
            } break;
        case 5:
            if (r.chance(60)) {
                bool ok = r.chance(80);
                words = {"FARM", sub("PARTITION"), x, ok ? "datacenter-affinity" : "other"};
                need  = 4;
                if (ok) effect = [&] { if (m.farms.count(x)) m.farms[x].second++; };
            }
            else { words = {"FARM", sub("DELETE"), x}; need = 3; effect = [&] { m.farms.erase(x); }; }
            break;
        case 6: {
            std::string d = r.chance(50) ? "dc1" : "dc2";
            words = {"DATACENTER", sub("SET"), d};
            need  = 0;                               // without a name: not specified
            effect = [&, d] { m.dc = d; };
            } break;
        case 7: {
            bool off = r.chance(30), def = r.chance(40);
            int k = (int)r.below(4);
            const char *ks[] = {"CONN_RATE", "CONN_RATE_ALARM", "DATA_RATE", "DATA_RATE_ALARM"};
            Number v = number(r, k < 2 ? 0xffffffffull : ~0ull);
            words = {"LIMIT"};
            if (off) words.push_back(sub("DISABLE"));
            words.push_back(off ? ks[k] : sub(ks[k]));
            words.push_back(sub(def ? "DEFAULT" : "VHOST"));
            if (!def) words.push_back(x);
            if (!off) words.push_back(v.text);
            need = words.size();
            if (off || v.ok) effect = [&, off, def, k, v] {
                if (k < 2) {
                    auto &one = k ? m.connAlarm : m.conn;
                    auto &d   = k ? m.defConnAlarm : m.defConn;
                    if (def) d = off ? std::optional<uint32_t>() : std::optional<uint32_t>((uint32_t)v.value);
                    else if (off) one.erase(x);
                    else one[x] = (uint32_t)v.value;
                }
                else {
                    auto &one = k == 3 ? m.dataAlarm : m.data;
                    auto &d   = k == 3 ? m.defDataAlarm : m.defData;
                    if (def) d = off ? ~(size_t)0 : v.value;
                    else if (off) one.erase(x);
                    else one[x] = v.value;
                }
            };
            } break;
        case 8: {
            int i = (int)r.below(3);
            Number p = port(r);
            if (i == 0) {
                std::string h = "h" + x, t = "/t" + y;
                words = {"AUTH", sub("SERVICE"), h, p.text, t};
                need  = 5;
                if (p.ok) effect = [&, h, t, p] { m.auth = "http://" + h + ":" + std::to_string(p.value) + t; };
            }
            else if (i == 1) { words = {"AUTH", sub("ALWAYS_ALLOW")}; need = 2; effect = [&] { m.auth.clear(); }; }
            else { words = {"AUTH", sub("PRINT")}; }
            } break;
        case 9: {
            const char *k[] = {"PAUSE", "UNPAUSE", "FORCE_DISCONNECT", "BACKEND_DISCONNECT"};
            int i = (int)r.below(4);
            words = {"VHOST", sub(k[i]), x};
            need  = 3;
            if (i < 2) effect = [&, i] { if (i) m.paused.erase(x); else m.paused.insert(x); };
            } break;
        case 10: {
            int e = (int)r.below(2), i = (int)r.below(6);
            words = {"TLS", sub(e ? "EGRESS" : "INGRESS")};
            if (r.chance(5)) { words[1] = "BOTH"; e = -1; }
            if (i < 2) {
                words.push_back(sub("VERIFY_MODE"));
                const std::pair<const char *, int> ks[] = {{"PEER", 1}, {"NONE", 0}, {"FAIL_IF_NO_PEER_CERT", 2}, {"CLIENT_ONCE", 4}, {"OTHER", -1}};
                int mode = 0;
                bool ok = true;
                for (size_t q = 0, z = r.range(1, 3); q < z; ++q) { auto &t = ks[r.chance(90) ? r.below(4) : 4]; words.push_back(cased(r, t.first)); if (t.second < 0) ok = false; else mode |= t.second; }
                more = false;
                if (ok && e >= 0) effect = [&, e, mode] { m.verify[e] = mode; };
            }
            else if (i == 2) {
                if (e >= 0 && m.cert[e]) continue;
                bool rsa = r.chance(50); words.push_back(sub(rsa ? "RSA_KEY_FILE" : "KEY_FILE")); words.push_back(s.key); need = 4; if (e >= 0) effect = [&, e] { m.key[e] = true; };
            }
            else if (i == 3) { words.push_back(sub("CERT_CHAIN_FILE")); words.push_back(s.cert); need = 4; if (e >= 0) effect = [&, e] { m.cert[e] = true; }; }
            else if (i == 4) { words.push_back(sub("CA_CERT_FILE")); words.push_back(s.cert); need = 4; if (e >= 0) effect = [&, e] { m.ca[e] = 1; }; }
            else { words.push_back(sub("CIPHERS")); words.push_back("SET"); words.push_back("AES128-SHA256"); more = false; if (e >= 0) effect = [&, e] { m.oneCipher[e] = true; }; }
            } break;
        case 11: case 12: {
            int p = ports[r.below(2)];
            int i = (int)r.below(5);
            if (i < 2) { bool tls = r.chance(50); words = {"LISTEN", sub(tls ? "START_SECURE" : "START"), std::to_string(p)}; need = 3; effect = [&, p, tls] { m.listening.emplace(p, tls); }; }
            else if (i == 2) { words = {"LISTEN", sub("STOP"), std::to_string(p)}; effect = [&, p] { m.listening.erase(p); }; }
            else if (i == 3) {
                Number q = port(r);
                words = {"LISTEN", sub("STOP"), q.text};
                if (r.chance(30)) { words.pop_back(); effect = [&] { m.listening.clear(); }; more = false; }
                else if (q.ok) effect = [&, q] { m.listening.erase((int)q.value); };
            }
            else { const char *bad[] = {"0", "65536", "-1", "x", "70000"}; words = {"LISTEN", sub(r.chance(50) ? "START" : "START_SECURE"), bad[r.below(5)]}; }
            } break;
        }
        std::string verb = words[0];
        bool farmAdd = verb == "FARM" && words.size() > 3 && toupper(words[1][0]) == 'A';
        int spoil = (int)r.below(12);
        if (spoil == 0) { words[0] += "X"; effect = [] {}; }                                              // no such command
        else if (spoil == 1 && verb != "TLS" && words.size() > 1) { words[1] += "X"; effect = [] {}; }    // no such part of it
        else if (spoil == 2 && need > 1 && !farmAdd) { words.resize(r.range(1, need - 1)); effect = [] {}; more = false; }
        else if (more) words.push_back("x");
        words[0] = cased(r, words[0]);
        std::string line = words[0];
        for (size_t i = 1; i < words.size(); ++i) line += std::string(1 + (r.chance(10) ? r.below(3) : 0), ' ') + words[i];
        if (r.chance(5) && !farmAdd && verb != "TLS") line += " ";
        hist += (hist.empty() ? "" : "; ") + line;
        H::note() = hist;
        w.say(line);
        w.settle();
        effect();
        verify(w, m, ports, a0.str());
    }
    if (!sockets) return;
    // sessions: exactly the one named is acted on
    for (int p : ports) if (!m.listening.count(p)) { w.say("LISTEN START " + std::to_string(p)); w.settle(); m.listening.emplace(p, false); hist += "; LISTEN START " + std::to_string(p); }
    std::vector<Fd> cs;
    for (int k = 0; k < 3; ++k) {
        int p = ports[k % 2];
        cs.push_back(client(p));
        H::note() = hist + "; a client connects to " + std::to_string(p);
        H::check(cs.back().fd >= 0, "a port listened on takes no connection");
        w.settle();
        // TLS or not: the protocol header is answered in clear, or refused
        char buf[64];
        ssize_t got = -1;
        H::check(write(cs.back().fd, "AMQP\0\0\x09\x01", 8) == 8, "cannot write");
        if (m.listening[p] || k == 0) {
            for (int t = 0; t < 200 && got < 0; ++t) { w.settle(); got = read(cs.back().fd, buf, sizeof buf); if (got < 0) usleep(500); }
            bool clear = got > 7 && buf[0] == 1;
            H::check(clear == !m.listening[p], [&] { return "port " + std::to_string(p) + (clear ? " answers in clear although TLS was asked for" : " does not answer in clear"); });
        }
    }
    auto all = [&] { std::map<uint64_t, std::tuple<bool, int, bool>> o; w.server.visitSessions([&](const std::shared_ptr<Session> &x) { o[x->state().id()] = std::make_tuple(x->state().getPaused(), (int)x->state().getDisconnectType(), x->finished()); }); return o; };
    for (int k = 0; k < 4; ++k) {
        auto was = all();
        if (was.empty()) break;
        auto it = was.begin();
        std::advance(it, r.below(was.size()));
        uint64_t id = it->first;
        bool none = r.chance(20);
        if (none) id += 1000;
        const char *ks[] = {"PAUSE", "FORCE_DISCONNECT", "OTHER"};
        int i = (int)r.below(3);
        std::string line = cased(r, "SESSION") + " " + std::to_string(id) + " " + cased(r, ks[i]);
        hist += "; " + line;
        H::note() = hist;
        w.say(line);
        w.settle();
        auto is = all();
        for (auto &x : was) {
            if (!is.count(x.first)) continue;
            if (x.first != id || i == 2) H::check(is[x.first] == x.second, [&] { return "session " + std::to_string(x.first) + " is changed although another was named"; });
            else if (i == 0) H::check(std::get<0>(is[id]), "the session named is not paused");
            else H::check(std::get<1>(is[id]) != 0 || std::get<2>(is[id]), "the session named is not disconnected");
        }
    }
}
}
