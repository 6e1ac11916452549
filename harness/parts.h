// Checks of the parts around a session on the real code, against independent accounts: routes, selection, partitions, buffers, totals, statistics.
#pragma once
#include "harness.h"
#include <amqpprox_hostnamemapper.h>
#include <amqpprox_affinitypartitionpolicy.h>
#include <amqpprox_backend.h>
#include <amqpprox_backendset.h>
#include <amqpprox_backendstore.h>
#include <amqpprox_bufferhandle.h>
#include <amqpprox_bufferpool.h>
#include <amqpprox_connectionlimitermanager.h>
#include <amqpprox_connectionmanager.h>
#include <amqpprox_connectionselector.h>
#include <amqpprox_connectionstats.h>
#include <amqpprox_datacenter.h>
#include <amqpprox_farm.h>
#include <amqpprox_farmstore.h>
#include <amqpprox_partitionpolicy.h>
#include <amqpprox_resourcemapper.h>
#include <amqpprox_robinbackendselector.h>
#include <amqpprox_sessionstate.h>
#include <amqpprox_statcollector.h>
#include <amqpprox_statsnapshot.h>
#include <algorithm>
#include <map>
#include <set>
#include <stdexcept>

namespace parts {
using namespace Bloomberg::amqpprox;
using H::Rng;

inline Backend backend(Rng &r, const std::string &name)
{
    return Backend(name, r.chance(50) ? "dc1" : "dc2", "host-" + r.word(4), "10.0.0." + std::to_string(r.below(200)), (int)r.range(1, 65535), r.chance(50), r.chance(50), r.chance(50));
}
inline bool same(const Backend &a, const Backend &b)
{
    return a.name() == b.name() && a.host() == b.host() && a.ip() == b.ip() && a.port() == b.port() && a.datacenterTag() == b.datacenterTag() && a.proxyProtocolEnabled() == b.proxyProtocolEnabled() &&
           a.tlsEnabled() == b.tlsEnabled() && a.dnsBasedEntry() == b.dnsBasedEntry();
}

// ---------------------------------------------------------------- P15: which backend a virtual host goes to
inline void routes(Rng &r)
{
    BackendStore store;
    FarmStore farms;
    ResourceMapper mapper;
    ConnectionLimiterManager limits;
    ConnectionSelector sel(&farms, &store, &mapper, &limits);
    RobinBackendSelector robin;
    std::map<std::string, Backend> known;
    std::map<std::string, std::vector<std::string>> farmMembers;
    std::map<std::string, std::pair<bool, std::string>> maps;
    std::map<std::string, uint32_t> limited;
    std::string def, hist;
    auto name = [&] { return std::string(1, (char)('a' + r.below(4))); };
    for (int n = 0; n < 40; ++n) {
        std::string x = name(), y = name();
        switch (r.below(10)) {
        case 0: case 1: {
            Backend b = backend(r, x);
            int rc = store.insert(b);
            hist += " insert:" + x;
            H::note() = hist;
            H::check((rc == 0) == !known.count(x), "a backend is accepted although its name is taken, or refused although it is free");
            known.emplace(x, b);
            } break;
        case 2: {
            bool used = false;                    // removing a backend that a farm uses is outside what is promised
            for (auto &f : farmMembers) for (auto &m : f.second) used |= m == x;
            if (used) break;
            int rc = store.remove(x);
            hist += " remove:" + x;
            H::note() = hist;
            H::check((rc == 0) == !!known.count(x), "removing a backend reports the wrong result");
            known.erase(x);
            } break;
        case 3:
            if (known.count(x)) { farms.addFarm(std::unique_ptr<Farm>(new Farm(y, {x}, &store, &robin))); farmMembers[y] = {x}; hist += " farm:" + y + "=" + x; }
            break;
        case 4: farms.removeFarmByName(y); farmMembers.erase(y); hist += " nofarm:" + y; break;
        case 5: mapper.mapVhostToFarm(x, y); maps[x] = {true, y}; hist += " map:" + x + ">farm:" + y; break;
        case 6: mapper.mapVhostToBackend(x, y); maps[x] = {false, y}; hist += " map:" + x + ">" + y; break;
        case 7: mapper.unmapVhost(x); maps.erase(x); hist += " unmap:" + x; break;
        case 8:
            if (r.chance(50)) { sel.setDefaultFarm(y); def = y; hist += " default:" + y; }
            else { sel.unsetDefaultFarm(); def.clear(); hist += " nodefault"; }
            break;
        case 9:
            if (r.chance(30)) { limits.addConnectionRateLimiter(x, 0); limited[x] = 0; hist += " limit0:" + x; }
            else { limits.removeConnectionRateLimiter(x); limited.erase(x); hist += " nolimit:" + x; }
            break;
        }
        H::note() = hist;
        for (int k = 0; k < 4; ++k) {
            std::string v(1, (char)('a' + k));
            const Backend *b = store.lookup(v);
            H::check(!!b == !!known.count(v) && (!b || same(*b, known.at(v))), [&] { return "looking up backend " + v + " yields another one"; });
            SessionState st;
            st.setVirtualHost(v);
            using S = SessionState::ConnectionStatus;
            std::shared_ptr<ConnectionManager> cm;
            S rc = sel.acquireConnection(&cm, st);
            S want;
            std::string target;
            bool mapped = maps.count(v), isFarm = mapped ? maps[v].first : true;
            std::string res = mapped ? maps[v].second : def;
            if (limited.count(v)) want = S::LIMIT;
            else if (!mapped && def.empty()) want = S::NO_FARM;
            else if (isFarm) { want = farmMembers.count(res) ? S::SUCCESS : S::ERROR_FARM; if (want == S::SUCCESS) target = farmMembers[res][0]; }
            else { want = known.count(res) ? S::SUCCESS : S::NO_BACKEND; target = res; }
            H::note() = hist + " vhost " + v;
            H::check(rc == want, [&] { return "routing vhost " + v + " ends with status " + std::to_string((int)rc) + " instead of " + std::to_string((int)want); });
            H::check(!!cm == (want == S::SUCCESS), "a route is given without success or missing on success");
            if (cm) {
                const Backend *c = cm->getConnection(0);
                H::check(c && c->name() == target, [&] { return "vhost " + v + " is routed to " + (c ? c->name() : "nothing") + " instead of " + target; });
                H::check(!isFarm || c == store.lookup(target), "the backend of a farm is not the one of the store");
                H::check(cm->getConnection(1) == nullptr, "one backend is tried twice");
            }
        }
    }
    // errors of a farm that does not exist
    bool threw = false;
    try { farms.getFarmByName("nothing"); } catch (std::runtime_error &) { threw = true; }
    H::check(threw, "a farm that does not exist is found");
}

// ---------------------------------------------------------------- P13: every backend once, first partition first
inline void selection(Rng &r)
{
    std::vector<std::unique_ptr<Backend>> bs;
    std::vector<BackendSet::Partition> ps;
    std::string what;
    for (size_t i = 0, n = r.below(5); i < n; ++i) {
        BackendSet::Partition p;
        for (size_t k = 0, m = r.below(5); k < m; ++k) {
            bs.emplace_back(new Backend(backend(r, "b" + std::to_string(bs.size()))));
            p.push_back(bs.back().get());
        }
        what += "|" + std::to_string(p.size());
        ps.push_back(p);
    }
    auto set = std::make_shared<BackendSet>(ps);
    RobinBackendSelector robin;
    size_t total = bs.size();
    std::vector<std::map<const Backend *, size_t>> firsts(ps.size());
    std::vector<size_t> began(ps.size());
    size_t firstNonEmpty = ps.size();
    for (size_t i = ps.size(); i-- > 0;) if (!ps[i].empty()) firstNonEmpty = i;
    size_t conns = r.range(1, 12);
    for (size_t c = 0; c < conns; ++c) {
        ConnectionManager cm(set, &robin);
        std::set<const Backend *> seen;
        size_t upto = r.chance(50) ? total : r.below(total + 1), at = 0;
        H::note() = "partitions" + what + " connection " + std::to_string(c);
        size_t part = 0, inPart = 0;
        for (at = 0; at < upto; ++at) {
            while (part < ps.size() && inPart == ps[part].size()) { part++; inPart = 0; }
            size_t times = r.range(1, 3);
            const Backend *b = nullptr;
            for (size_t t = 0; t < times; ++t) { const Backend *d = cm.getConnection(at); H::check(!t || d == b, "asking again for the same attempt yields another backend"); b = d; }
            H::check(b != nullptr, "a backend is missing from the attempts");
            H::check(std::find(ps[part].begin(), ps[part].end(), b) != ps[part].end(), "a backend is tried before those of an earlier partition");
            H::check(seen.insert(b).second, "a backend is tried twice");
            inPart++;
        }
        if (upto == total) for (size_t e = 0; e < 3; ++e) H::check(cm.getConnection(total + e + r.below(1000)) == nullptr, "there are more attempts than backends");
    }
    // wherever the markers stand
    std::vector<uint64_t> marks;
    for (size_t i = 0; i < ps.size(); ++i) {
        static const uint64_t corner[] = {0, 1, 1ull << 16, 1ull << 31, 1ull << 32, 1ull << 48};
        marks.push_back(r.chance(50) ? corner[r.below(6)] - (r.chance(60) ? r.below(6) : 0) : r.below(1000));
        if (marks.back() > ~0ull - 100) marks.back() = 7;
    }
    H::note() = "partitions" + what + " markers";
    for (auto m : marks) H::note() += " " + std::to_string(m);
    for (size_t i = 0, at = 0; i < ps.size(); ++i)
        for (size_t k = 0; k < ps[i].size(); ++k, ++at) {
            auto before = set->markers();
            H::check(robin.select(set.get(), marks, at) == ps[i][(marks[i] + k) % ps[i].size()], "the attempts do not go round from the marker");
            before[i]++;
            H::check(set->markers() == before, "an attempt moves other markers than that of its partition by one");
        }
    H::check(robin.select(set.get(), marks, total) == nullptr, "there are more attempts than backends");
    // successive connections that each ask once start one further each time
    if (firstNonEmpty < ps.size()) {
        auto set2 = std::make_shared<BackendSet>(ps);
        const auto &p = ps[firstNonEmpty];
        for (size_t c = 0; c < 3 * p.size(); ++c) {
            ConnectionManager cm(set2, &robin);
            H::check(cm.getConnection(0) == p[c % p.size()], "connections are not distributed round robin");
        }
    }
    // markers
    auto set3 = std::make_shared<BackendSet>(ps);
    std::vector<uint64_t> count(ps.size());
    H::check(set3->markers().size() == ps.size() && set3->partitions().size() == ps.size(), "partitions and markers do not correspond");
    for (int k = 0; k < 20 && !ps.empty(); ++k) {
        size_t i = r.below(ps.size());
        H::check(set3->markPartition(i) == ++count[i], "marking a partition counts wrongly");
        for (size_t j = 0; j < ps.size(); ++j) H::check(set3->markers()[j] == count[j], "marking a partition changes another");
    }
}

// ---------------------------------------------------------------- P14: partitions by datacenter
inline void partitions(Rng &r)
{
    Datacenter dc;
    dc.set(r.chance(90) ? "dc1" : "");
    AffinityPartitionPolicy pol(&dc);
    std::vector<std::unique_ptr<Backend>> bs;
    std::vector<BackendSet::Partition> ps;
    for (size_t i = 0, n = r.below(5); i < n; ++i) {
        BackendSet::Partition p;
        for (size_t k = 0, m = r.below(5); k < m; ++k) {
            bs.emplace_back(new Backend("b" + std::to_string(bs.size()), r.chance(40) ? "dc1" : r.chance(50) ? "dc2" : "", "h", "1.1.1.1", 1, false));
            p.push_back(bs.back().get());
        }
        ps.push_back(p);
    }
    std::vector<BackendSet::Partition> want;
    std::string what;
    for (auto &p : ps) {
        BackendSet::Partition a, b;
        for (auto x : p) { (x->datacenterTag() == dc.get() ? a : b).push_back(x); what += x->datacenterTag() + ","; }
        what += "|";
        if (!a.empty()) want.push_back(a);
        if (!b.empty()) want.push_back(b);
    }
    H::note() = what + " here " + dc.get();
    auto out = pol.partition(std::make_shared<BackendSet>(ps));
    H::check(out->partitions() == want, "partitioning by datacenter loses, moves or adds a backend");
    H::check(out->markers() == std::vector<uint64_t>(want.size(), 0), "new partitions do not start at the beginning");
    // a farm: members in the store, policies applied in order, changes take effect at once
    BackendStore store;
    std::map<std::string, std::string> dcs;
    for (int i = 0; i < 6; ++i) {
        std::string n(1, (char)('a' + i)), d = r.chance(50) ? "dc1" : "dc2";
        dcs[n] = d;
        store.insert(Backend(n, d, "h", "1.1.1.1", 1, false));
    }
    std::set<std::string> members;
    std::vector<std::string> first;
    for (auto &d : dcs) if (r.chance(50)) { members.insert(d.first); first.push_back(d.first); }
    if (!first.empty() && r.chance(30)) first.push_back(first[0]);
    RobinBackendSelector robin;
    Farm farm("farm", first, &store, &robin);
    bool policy = false;
    std::string hist;
    for (int k = 0; k < 12; ++k) {
        std::string n(1, (char)('a' + r.below(6)));
        switch (r.below(5)) {
        case 0: case 1: farm.addMember(n); members.insert(n); hist += " +" + n; break;
        case 2: farm.removeMember(n); members.erase(n); hist += " -" + n; break;
        case 3: if (!policy) { farm.addPartitionPolicy(&pol); policy = true; hist += " policy"; } break;
        case 4: dc.set(r.chance(50) ? "dc1" : "dc2"); farm.repartition(); hist += " dc=" + dc.get(); break;
        }
        H::note() = hist;
        std::vector<std::set<std::string>> w, g;
        std::set<std::string> a, b;
        for (auto &m : members) (!policy || dcs[m] == dc.get() ? a : b).insert(m);
        if (!policy || !a.empty()) w.push_back(a);
        if (!b.empty()) w.push_back(b);
        auto bsSet = farm.backendSet();
        for (auto &p : bsSet->partitions()) {
            std::set<std::string> s;
            for (auto x : p) { H::check(x == store.lookup(x->name()), "a farm holds a backend that is not in the store"); H::check(s.insert(x->name()).second, "a farm holds a backend twice"); }
            g.push_back(s);
        }
        H::check(g == w, "the backends of a farm are not its members, those of this datacenter first");
        std::vector<std::string> ms;
        farm.members(&ms);
        H::check(std::set<std::string>(ms.begin(), ms.end()) == members && ms.size() == members.size(), "the members of a farm differ");
        H::check(farm.backendSelector() == &robin && farm.name() == "farm", "the farm's selector or name differ");
    }
}

// ---------------------------------------------------------------- P16: buffers
// number of arrays allocated and not freed
long arraysInUse();

inline void buffers(Rng &r)
{
    std::vector<size_t> buckets;
    for (size_t i = 0, n = r.below(6); i < n; ++i) buckets.push_back(r.chance(50) ? r.range(8, 64) : r.range(64, 5000));
    if (r.chance(20) && !buckets.empty()) buckets.push_back(buckets[0]);
    std::string what;
    for (auto b : buckets) what += " " + std::to_string(b);
    BufferPool pool(buckets);
    const long arrays = arraysInUse();
    struct Slot { BufferHandle h; size_t n = 0; char c = 0; bool held = false; };
    std::vector<std::unique_ptr<Slot>> hs;
    for (int i = 0; i < 6; ++i) hs.emplace_back(new Slot);
    auto ok = [&](Slot &s, const char *when) {
        H::check(s.h.size() == s.n, "a buffer has another size than asked for");
        for (size_t i = 0; i < s.n; ++i) if (((char *)s.h.data())[i] != s.c) H::fail(std::string("a buffer in use is changed by others ") + when);
    };
    std::vector<size_t> sorted(buckets);
    std::sort(sorted.begin(), sorted.end());
    auto bucketOf = [&](size_t n) { for (size_t i = 0; i < sorted.size(); ++i) if (n <= sorted[i]) return i; return sorted.size(); };
    std::vector<uint64_t> cur(sorted.size() + 1), high(sorted.size() + 1), spill(1);
    std::string hist;
    char next = 1;
    for (int k = 0; k < 60; ++k) {
        Slot &s = *hs[r.below(hs.size())], &t = *hs[r.below(hs.size())];
        switch (r.below(4)) {
        case 0: case 1: {
            size_t n = r.chance(30) && !sorted.empty() ? r.pick(sorted) + r.below(3) - 1 : r.below(6000);
            if (r.chance(5)) n = 0;
            hist += " get" + std::to_string(n);
            H::note() = "buckets" + what + hist;
            bool had = s.held;
            size_t old = bucketOf(s.n), b = bucketOf(n);
            pool.acquireBuffer(&s.h, n);
            // the new buffer is taken before the old one is given back
            cur[b]++;
            high[b] = std::max(high[b], cur[b]);
            if (had) cur[old]--;
            if (b == sorted.size()) spill[0]++;
            s.n = n; s.c = next++; s.held = true;
            if (n) memset(s.h.data(), s.c, n);
            } break;
        case 2:
            hist += " put";
            H::note() = "buckets" + what + hist;
            if (s.held) cur[bucketOf(s.n)]--;
            s.h.release();
            H::check(s.h.data() == nullptr && s.h.size() == 0, "a released handle still holds a buffer");
            s.n = 0; s.held = false;
            break;
        case 3:
            if (&s == &t) break;
            hist += " swap";
            s.h.swap(t.h); std::swap(s.n, t.n); std::swap(s.c, t.c); std::swap(s.held, t.held);
            break;
        }
        H::note() = "buckets" + what + hist;
        for (auto &x : hs) ok(*x, "");
    }
    long heap = 0;
    for (auto &x : hs) heap += x->held && bucketOf(x->n) == sorted.size();
    // the pools themselves take memory from there too
    if (buckets.empty()) H::check(arraysInUse() - arrays == heap, "a buffer of the heap is not freed exactly once");
    std::vector<BufferPool::BufferAllocationStat> st;
    uint64_t sp = 0;
    pool.getPoolStatistics(&st, &sp);
    H::check(st.size() == sorted.size() && sp == spill[0], "the number of buckets or of buffers outside them is reported wrongly");
    // buckets of equal size share: only the first is used
    for (size_t i = 0; i < sorted.size(); ++i) {
        H::check(std::get<0>(st[i]) == sorted[i], "bucket sizes are reported wrongly");
        H::check(std::get<1>(st[i]) == cur[i], "buffers in use are reported wrongly");
        H::check(std::get<2>(st[i]) == high[i], "the most buffers in use are reported wrongly");
    }
}

// ---------------------------------------------------------------- P17: totals and marks of a session
inline void totals(Rng &r)
{
    SessionState s;
    uint64_t w[10] = {}, t[10];
    using D = SessionState::DisconnectType;
    D d = D::NOT_DISCONNECTED;
    bool p = false, ready = false, denied = false, lim = false, sec = false;
    std::string v, hist;
    SessionState other;
    H::check(other.id() != s.id(), "two sessions have the same number");
    for (int k = 0; k < 30; ++k) {
        uint64_t a = r.edgy(64), b = r.edgy(64);
        switch (r.below(11)) {
        case 0: s.incrementIngressTotals(a, b); w[0]++; w[1] += a; w[2] += b; hist += " in"; break;
        case 1: s.incrementEgressTotals(a, b); w[5]++; w[6] += a; w[7] += b; hist += " out"; break;
        case 2: s.addIngressLatency(a); w[3] += a; w[4]++; hist += " inlat"; break;
        case 3: s.addEgressLatency(a); w[8] += a; w[9]++; hist += " outlat"; break;
        case 4: { D n = (D)r.below(5); s.setDisconnected(n); d = n; hist += " disc" + std::to_string((int)n); } break;
        case 5: p = a & 1; s.setPaused(p); break;
        case 6: ready = a & 1; s.setReadyToConnectOnUnpause(ready); break;
        case 7: denied = a & 1; s.setAuthDeniedConnection(denied); break;
        case 8: lim = true; s.setLimitedConnection(); break;
        case 9: sec = a & 1; s.setIngressSecured(sec); break;
        case 10: v = r.word(3); s.setVirtualHost(v); break;
        }
        H::note() = hist;
        s.getTotals(&t[0], &t[1], &t[2], &t[3], &t[4], &t[5], &t[6], &t[7], &t[8], &t[9]);
        for (int i = 0; i < 10; ++i) H::check(t[i] == w[i], [&] { return "total " + std::to_string(i) + " is " + std::to_string(t[i]) + " instead of " + std::to_string(w[i]); });
        H::check(s.getDisconnectType() == d, "how the session ended is recorded wrongly");
        H::check(s.getPaused() == p && s.getReadyToConnectOnUnpause() == ready && s.getAuthDeniedConnection() == denied && s.getLimitedConnection() == lim && s.getIngressSecured() == sec && s.getVirtualHost() == v,
                 "a mark of the session is lost or mixed up");
    }
}

// ---------------------------------------------------------------- P18: statistics
struct Names : HostnameMapper {
    void prime(boost::asio::io_context &, std::initializer_list<boost::asio::ip::tcp::endpoint>) override {}
    std::string mapToHostname(const boost::asio::ip::tcp::endpoint &e) const override { return "h" + e.address().to_string(); }
};
inline void statistics(Rng &r)
{
    boost::asio::io_context io;
    auto names = std::make_shared<Names>();
    StatCollector col;
    bool perSource = r.chance(80);
    col.collectPerSourceStats(perSource);
    struct S { std::unique_ptr<SessionState> s; std::string v, b, src; bool gone = false; uint64_t last[10] = {}; };
    std::vector<S> ss;
    using V = std::array<uint64_t, 10>;
    std::string hist;
    auto ep = [&](int a, uint16_t p) { return boost::asio::ip::tcp::endpoint(boost::asio::ip::address_v4(0x0a000000u + (unsigned)a), p); };
    for (int round = 0; round < 5; ++round) {
        for (size_t k = r.below(3); k > 0; --k) {
            S x;
            x.s.reset(new SessionState(names));
            int src = (int)r.below(3), dst = (int)r.below(2);
            uint16_t port = (uint16_t)(5672 + r.below(2));
            x.s->setIngress(io, ep(9, 1), ep(src, (uint16_t)r.range(1, 65535)));
            x.s->setEgress(io, ep(9, 2), ep(100 + dst, port));
            x.v = std::string(1, (char)('a' + r.below(3)));
            x.s->setVirtualHost(x.v);
            x.src = "h10.0.0." + std::to_string(src);
            x.b = "h10.0.0." + std::to_string(100 + dst) + "_" + std::to_string(port);
            ss.push_back(std::move(x));
        }
        std::map<std::string, V> wv, wb, ws;
        std::map<std::string, std::map<std::string, uint64_t>> cv, cb, cs, co;
        V wo{};
        for (auto &x : ss) {
            for (int k = (int)r.below(4); k > 0; --k) {
                uint64_t a = r.below(1000), b = r.below(100000);
                switch (r.below(4)) {
                case 0: x.s->incrementIngressTotals(a, b); break;
                case 1: x.s->incrementEgressTotals(a, b); break;
                case 2: x.s->addIngressLatency(a); break;
                case 3: x.s->addEgressLatency(a); break;
                }
            }
            if (r.chance(20)) x.s->setPaused(r.chance(50));
            if (r.chance(10)) x.s->setAuthDeniedConnection(true);
            if (r.chance(10)) x.s->setLimitedConnection();
            using D = SessionState::DisconnectType;
            if (r.chance(20)) { x.s->setDisconnected((D)r.range(1, 4)); x.gone = true; }
            uint64_t t[10];
            x.s->getTotals(&t[0], &t[1], &t[2], &t[3], &t[4], &t[5], &t[6], &t[7], &t[8], &t[9]);
            for (auto *m : {&wv[x.v], &wb[x.b], &ws[x.src], &wo}) for (int i = 0; i < 10; ++i) (*m)[i] += t[i] - x.last[i];
            memcpy(x.last, t, sizeof t);
            D d = x.s->getDisconnectType();
            std::string key = d == D::DISCONNECTED_CLIENT ? "removedConnectionClientSnapped" : d == D::DISCONNECTED_SERVER ? "removedConnectionBrokerSnapped" : d == D::NOT_DISCONNECTED ? "activeConnectionCount" : "removedConnectionGraceful";
            for (auto *m : {&cv[x.v], &cb[x.b], &cs[x.src], &co[""]}) {
                (*m)[key]++;
                if (x.s->getPaused()) (*m)["pausedConnectionCount"]++;
                if (x.s->getAuthDeniedConnection()) (*m)["authDeniedConnectionCount"]++;
                if (x.s->getLimitedConnection()) (*m)["limitedConnectionCount"]++;
            }
            col.collect(*x.s);
        }
        StatSnapshot snap;
        col.populateStats(&snap);
        H::note() = "round " + std::to_string(round) + " sessions " + std::to_string(ss.size());
        auto cmp = [&](ConnectionStats &g, const V &w, std::map<std::string, uint64_t> &c, const std::string &what) {
            static const char *nm[10] = {"packetsReceived", "framesReceived", "bytesReceived", 0, 0, "packetsSent", "framesSent", "bytesSent", 0, 0};
            for (int i = 0; i < 10; ++i) if (nm[i]) H::check(g.statsValue(nm[i]) == w[i], [&] { return what + ": " + nm[i] + " is " + std::to_string(g.statsValue(nm[i])) + " instead of " + std::to_string(w[i]); });
            auto rl = g.distributionPair("receiveLatency"), sl = g.distributionPair("sendLatency");
            H::check(rl.first == w[3] && rl.second == w[4] && sl.first == w[8] && sl.second == w[9], [&] { return what + ": latencies differ"; });
            for (auto k : {"removedConnectionClientSnapped", "removedConnectionBrokerSnapped", "activeConnectionCount", "removedConnectionGraceful", "pausedConnectionCount", "authDeniedConnectionCount", "limitedConnectionCount"})
                H::check(g.statsValue(k) == c[k], [&] { return what + ": " + k + " is " + std::to_string(g.statsValue(k)) + " instead of " + std::to_string(c[k]); });
        };
        H::check(snap.vhosts().size() == wv.size() && snap.backends().size() == wb.size() && snap.sources().size() == (perSource ? ws.size() : 0), "statistics are reported for others than those there are");
        for (auto &k : wv) { H::check(snap.vhosts().count(k.first), "a vhost is missing from the statistics"); cmp(snap.vhosts()[k.first], k.second, cv[k.first], "vhost " + k.first); }
        for (auto &k : wb) { H::check(snap.backends().count(k.first), "a backend is missing from the statistics"); cmp(snap.backends()[k.first], k.second, cb[k.first], "backend " + k.first); }
        if (perSource) for (auto &k : ws) { H::check(snap.sources().count(k.first), "a source is missing from the statistics"); cmp(snap.sources()[k.first], k.second, cs[k.first], "source " + k.first); }
        cmp(snap.overall(), wo, co[""], "overall");
        for (size_t i = 0; i < ss.size();) {
            if (ss[i].gone) { col.deletedSession(*ss[i].s); ss.erase(ss.begin() + (long)i); }
            else ++i;
        }
        col.reset();
    }
}
}
