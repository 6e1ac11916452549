// Drives the real connection and data rate limiters against a straightforward reference.
#include "harness.h"
#include <amqpprox_connectionlimitermanager.h>
#include <amqpprox_dataratelimit.h>
#include <amqpprox_dataratelimitmanager.h>
#include <amqpprox_fixedwindowconnectionratelimiter.h>
#include <amqpprox_maybesecuresocketadaptor.h>
#include <deque>
#include <map>
#include <optional>
using namespace Bloomberg::amqpprox;
using H::Rng;
using boost::system::error_code;

// ---------------------------------------------------------------- P10
struct TestClock : LimiterClock {
    int64_t ms = 0;
    std::chrono::time_point<std::chrono::steady_clock, std::chrono::milliseconds> now() override
    {
        return std::chrono::time_point<std::chrono::steady_clock, std::chrono::milliseconds>(std::chrono::milliseconds(ms));
    }
};

struct Limiter : FixedWindowConnectionRateLimiter {
    Limiter(const std::shared_ptr<LimiterClock> &c, uint32_t n, uint32_t w) : FixedWindowConnectionRateLimiter(c, n, w) {}
};

static void window(Rng &r)
{
    auto     clock = std::make_shared<TestClock>();
    uint32_t limit = (uint32_t)(r.chance(5) ? r.edgy(32) : r.below(8));
    uint32_t win   = (uint32_t)(r.chance(5) ? r.below(2000000) : r.below(6));
    clock->ms      = (int64_t)r.below(1u << 30);
    Limiter l(clock, limit, win);
    int64_t  start = clock->ms;
    uint64_t used  = 0;
    std::ostringstream log;
    log << "limit " << limit << " window " << win << "s:";
    for (int i = 0, n = (int)r.range(5, 60); i < n; ++i) {
        switch (r.below(5)) {
        case 0: clock->ms += (int64_t)r.below(300); break;
        case 1: clock->ms += (int64_t)win * 1000; break;
        case 2: clock->ms += (int64_t)win * 1000 - (win ? 1 : 0); break;
        default: break;
        }
        if (clock->ms - start >= (int64_t)win * 1000) {
            start = clock->ms;
            used  = 0;
        }
        bool want = used < limit;
        log << " " << clock->ms;
        H::note() = log.str();
        bool got  = l.allowNewConnection();
        H::check(got == want, want ? "refused although the window has room" : "allowed beyond the limit of the window");
        if (got) ++used;
        H::check(l.getConnectionLimit() == limit && l.getTimeWindowInSec() == win, "limit or window changed");
    }
}

// ---------------------------------------------------------------- P11
struct RefLim {
    bool     custom;
    uint32_t limit;
    uint64_t used;
};

static void manager(Rng &r)
{
    ConnectionLimiterManager        m;
    std::map<std::string, RefLim>   lim, ala;
    std::optional<uint32_t>         def, adef;
    std::vector<std::string>        vh = {"/", "a", "b", ""};
    std::ostringstream              log;
    auto                            t0 = std::chrono::steady_clock::now();
    auto late = [&] { return std::chrono::steady_clock::now() - t0 > std::chrono::milliseconds(600); };
    for (int i = 0, n = (int)r.range(5, 80); i < n; ++i) {
        std::string v = r.pick(vh);
        uint32_t    k = (uint32_t)(r.chance(4) ? r.edgy(32) : r.below(5));
        int         op = (int)r.below(16);
        log << "; " << op << " '" << v << "' " << k;
        H::note() = log.str();
        auto perVhost = [&](auto &map, const std::string &x, const std::optional<uint32_t> &d) {
            if (d) map[x] = RefLim{false, *d, 0};
            else map.erase(x);
        };
        switch (op) {
        case 0: m.addConnectionRateLimiter(v, k); lim[v] = RefLim{true, k, 0}; break;
        case 1: m.addAlarmOnlyConnectionRateLimiter(v, k); ala[v] = RefLim{true, k, 0}; break;
        case 2:
            m.setDefaultConnectionRateLimit(k);
            def = k;
            for (auto &e : lim) if (!e.second.custom) e.second = RefLim{false, k, 0};
            break;
        case 3:
            m.setAlarmOnlyDefaultConnectionRateLimit(k);
            adef = k;
            for (auto &e : ala) if (!e.second.custom) e.second = RefLim{false, k, 0};
            break;
        case 4: m.removeConnectionRateLimiter(v); perVhost(lim, v, def); break;
        case 5: m.removeAlarmOnlyConnectionRateLimiter(v); perVhost(ala, v, adef); break;
        case 6:
            m.removeDefaultConnectionRateLimit();
            def.reset();
            for (auto it = lim.begin(); it != lim.end();) it = it->second.custom ? std::next(it) : lim.erase(it);
            break;
        case 7:
            m.removeAlarmOnlyDefaultConnectionRateLimit();
            adef.reset();
            for (auto it = ala.begin(); it != ala.end();) it = it->second.custom ? std::next(it) : ala.erase(it);
            break;
        default: {
            if (def && !lim.count(v)) lim[v] = RefLim{false, *def, 0};
            if (adef && !ala.count(v)) ala[v] = RefLim{false, *adef, 0};
            bool want = true;
            if (lim.count(v)) {
                want = lim[v].used < lim[v].limit;
                if (want) ++lim[v].used;
            }
            bool got = m.allowNewConnectionForVhost(v);
            if (late()) return;
            H::check(got == want, want ? "refused although within the limit in force" : "allowed beyond the limit in force");
        }
        }
        if (late()) return;
        for (auto &x : vh) {
            auto l = m.getConnectionRateLimiter(x), a = m.getAlarmOnlyConnectionRateLimiter(x);
            H::check(!!l == !!lim.count(x) || (!l && def), "limiter in force");
            H::check(!!a == !!ala.count(x) || (!a && adef), "alarm in force");
            auto limitOf = [](const std::shared_ptr<ConnectionLimiterInterface> &p) {
                auto *f = dynamic_cast<FixedWindowConnectionRateLimiter *>(p.get());
                return f ? f->getConnectionLimit() : 0xdeadbeef;
            };
            if (l && lim.count(x)) H::check(limitOf(l) == lim[x].limit, "limit of the limiter in force");
            if (a && ala.count(x)) H::check(limitOf(a) == ala[x].limit, "limit of the alarm in force");
        }
        H::check(m.getDefaultConnectionRateLimit() == def && m.getAlarmOnlyDefaultConnectionRateLimit() == adef, "defaults");
    }
}

// ---------------------------------------------------------------- P12
static const size_t INF = ~size_t(0);

static void rateManager(Rng &r)
{
    DataRateLimitManager          m;
    std::map<std::string, size_t> lim, ala;
    size_t                        def = INF, adef = INF;
    std::vector<std::string>      vh = {"/", "a", "b", ""};
    std::ostringstream            log;
    for (int i = 0; i < 40; ++i) {
        std::string v  = r.pick(vh);
        size_t      k  = r.chance(10) ? r.edgy(64) : r.below(1000);
        int         op = (int)r.below(6);
        log << "; " << op << " '" << v << "' " << k;
        H::note() = log.str();
        switch (op) {
        case 0: m.setVhostDataRateLimit(v, k); lim[v] = k; break;
        case 1: m.setVhostDataRateAlarm(v, k); ala[v] = k; break;
        case 2: m.setDefaultDataRateLimit(k); def = k; break;
        case 3: m.setDefaultDataRateAlarm(k); adef = k; break;
        case 4: m.disableVhostDataRateLimit(v); lim.erase(v); break;
        case 5: m.disableVhostDataRateAlarm(v); ala.erase(v); break;
        }
        for (auto &x : vh) {
            H::check(m.getDataRateLimit(x) == (lim.count(x) ? lim[x] : def), "data rate limit of a vhost");
            H::check(m.getDataRateAlarm(x) == (ala.count(x) ? ala[x] : adef), "data rate alarm of a vhost");
        }
        H::check(m.getDefaultDataRateLimit() == def && m.getDefaultDataRateAlarm() == adef, "default data rates");
    }
}

static void rateLimit(Rng &r)
{
    DataRateLimit d;
    size_t        quota = INF, rem = INF;
    std::ostringstream log;
    for (int i = 0; i < 40; ++i) {
        size_t k  = r.chance(10) ? r.edgy(64) : r.below(1000);
        int    op = (int)r.below(6);
        log << "; " << op << " " << k;
        H::note() = log.str();
        if (op == 0) {
            d.setQuota(k);
            quota = k;
            if (i == 0) { d.onTimer(); rem = quota; }
        }
        else if (op == 1) {
            d.onTimer();
            rem = quota;
        }
        else {
            d.recordUsage(k);
            if (quota != INF) {
                rem = std::min(rem, quota);
                rem -= std::min(rem, k);
            }
            H::check(d.remainingQuota() == rem || quota == INF, "allowance after use");
            if (quota == INF && rem != 0) H::check(d.remainingQuota() != 0, "exhausted without a quota");
            rem = d.remainingQuota();
        }
        H::check(d.getQuota() == quota, "quota");
    }
}

// socket adaptor over a simulated stream and timer
namespace sim {
typedef std::chrono::steady_clock::time_point TP;
struct Timer;
struct Stream;
struct Io {
    TP      now;
    Stream *stream = nullptr;
    std::vector<Timer *> timers;
};
struct Timer {
    Io                                                                       &io;
    TP                                                                         when;
    std::vector<std::function<void(const error_code &)>> waiting;
    explicit Timer(Io &i) : io(i) { io.timers.push_back(this); }
    ~Timer()
    {
        for (auto &t : io.timers) if (t == this) t = nullptr;
    }
    size_t cancel()
    {
        auto w = std::move(waiting);
        waiting.clear();
        for (auto &h : w) h(boost::asio::error::operation_aborted);
        return w.size();
    }
    TP     expiry() const { return when; }
    size_t expires_at(TP t) { size_t n = cancel(); when = t; return n; }
    template <typename D> size_t expires_after(D d) { return expires_at(io.now + d); }
    template <typename D> size_t expires_from_now(D d) { return expires_at(io.now + d); }
    template <typename H> void   async_wait(H h) { waiting.push_back(h); }
    bool fire()
    {
        if (waiting.empty() || when > io.now) return false;
        auto w = std::move(waiting);
        waiting.clear();
        for (auto &h : w) h(error_code());
        return true;
    }
};
struct Tls {};
struct Stream {
    typedef int executor_type;
    Io     &io;
    size_t  pending = 0, asyncReads = 0;
    unsigned char seq = 0;
    std::function<void(error_code, size_t)> reader;
    char   *into = nullptr;
    size_t  room = 0;
    Stream(Io &i, Tls &) : io(i) { io.stream = this; }
    template <typename H> void async_handshake(int, H h) { h(error_code()); }
    Stream &next_layer() { return *this; }
    Stream &lowest_layer() { return *this; }
    template <typename B> size_t read_some(const B &b, error_code &ec)
    {
        size_t n = std::min(pending, b.size());
        ec       = error_code();
        if (n == 0) ec = boost::asio::error::would_block;
        for (size_t i = 0; i < n; ++i) static_cast<char *>(b.data())[i] = (char)seq++;
        pending -= n;
        return n;
    }
    void take(char *p, size_t n, std::function<void(error_code, size_t)> h)
    {
        ++asyncReads;
        H::check(!reader, "two reads at once");
        into   = p;
        room   = n;
        reader = h;
    }
    template <typename H> void async_read_some(const boost::asio::mutable_buffer &b, H h) { take(static_cast<char *>(b.data()), b.size(), h); }
    template <typename H> void async_read_some(const boost::asio::mutable_buffers_1 &b, H h)
    {
        take(static_cast<char *>(b.data()), b.size(), h);
    }
    template <typename H> void async_read_some(const boost::asio::null_buffers &, H h) { take(nullptr, 0, h); }
    bool deliver()
    {
        if (!reader || !pending) return false;
        auto h = std::move(reader);
        reader = nullptr;
        size_t n = into ? std::min(room, pending) : 0;
        for (size_t i = 0; i < n; ++i) into[i] = (char)seq++;
        pending -= n;
        h(error_code(), n);
        return true;
    }
};
}

static void socket(Rng &r)
{
    using namespace sim;
    Io  io;
    io.now = TP(std::chrono::seconds(1000));
    Tls tls;
    typedef MaybeSecureSocketAdaptor<Stream, Timer, Io, Tls> Adaptor;
    bool    secure = r.chance(40);
    auto    a = std::make_shared<Adaptor>(io, tls, secure);
    Stream &s = *io.stream;
    a->async_handshake(boost::asio::ssl::stream_base::client, [](error_code) {});
    size_t  quota = r.chance(15) ? INF : r.range(1, 200);
    a->setReadRateLimit(quota);
    size_t aquota = INF;
    if (r.chance(40)) a->setReadRateAlarm(aquota = r.range(1, 200));
    // reference of the accounting
    size_t rem = INF, arem = INF;
    bool   started = false, alarmed = false;
    TP     end;
    auto   count   = [&](size_t k) {
        if (quota != INF) rem = std::min(rem, quota), rem -= std::min(rem, k);
        if (aquota != INF) arem = std::min(arem, aquota), arem -= std::min(arem, k);
    };
    auto restore = [&] {
        rem     = quota;
        arem    = aquota;
        started = true;
        alarmed = false;
        end     = io.now + std::chrono::seconds(1);
    };
    auto wantRead = [&] {
        if (!alarmed && arem == 0) {
            if (started) alarmed = true;
            else restore();
        }
        if (rem == 0 && started) return;
        if (rem == 0) restore();
    };
    std::ostringstream log;
    log << (secure ? "tls " : "plain ") << "quota " << quota << ":";
    // octets handed out since the last full second boundary of the limiter are unknown to us; bound over the whole run instead
    size_t        got = 0, sent = 0;
    unsigned char expect = 0;
    bool          want  = true, reading = false;
    TP            begin = io.now;
    std::function<void(error_code, size_t)> onRead = [&](error_code ec, size_t) {
        reading = false;
        if (ec) return;
        want = true;
    };
    size_t biggest = 1;
    for (int i = 0, n = (int)r.range(10, 120); i < n; ++i) {
        H::note() = log.str();
        if (want && !reading) {
            want    = false;
            reading = true;
            wantRead();
            a->async_read_some(boost::asio::null_buffers(), onRead);
        }
        switch (r.below(3)) {
        case 0: {
            size_t k = r.range(1, 150);
            s.pending += k;
            sent += k;
            log << " +" << k;
            break;
        }
        case 1: {
            bool before = s.reader != nullptr;
            if (s.deliver()) {
                H::check(before, "delivered without a read");
                char       buf[256];
                error_code ec;
                size_t     room = r.range(1, 64), k = a->read_some(boost::asio::buffer(buf, room), ec);
                log << " r" << room << "=" << k;
                H::check(k <= room, "more octets than room");
                for (size_t j = 0; j < k; ++j) H::check((unsigned char)buf[j] == expect++, "octets out of order");
                got += k;
                count(k);
                biggest = std::max(biggest, k);
            }
            break;
        }
        case 2: {
            int ms = (int)r.pick(std::vector<int>{1, 100, 400, 999, 1000});
            log << " t" << ms;
            io.now += std::chrono::milliseconds(ms);
            for (size_t j = 0; j < io.timers.size(); ++j)
                if (io.timers[j]) io.timers[j]->fire();
            if (started && io.now >= end) {
                restore();
                if (reading) wantRead();
            }
            break;
        }
        }
        H::note() = log.str();
        if (reading) {
            H::check(rem != 0 || s.reader == nullptr, "a read is pending although the allowance of the period is used up");
            H::check(rem == 0 || s.reader != nullptr, "reading is held back although the allowance is not used up");
        }
        // one period of at most quota + one read per elapsed second, one more running, and the free first one
        if (quota != INF) {
            size_t secs = (size_t)std::chrono::duration_cast<std::chrono::seconds>(io.now - begin).count();
            H::check(got <= (secs + 2) * (quota + biggest), "more octets than the limit allows");
        }
        else {
            // never held back without a limit
            H::check(!reading || s.reader != nullptr, "reading is held back although there is no limit");
        }
    }
    // everything arrives in the end
    for (int i = 0; i < 4000 && got < sent; ++i) {
        if (want && !reading) {
            want    = false;
            reading = true;
            wantRead();
            a->async_read_some(boost::asio::null_buffers(), onRead);
        }
        if (s.deliver()) {
            char       buf[256];
            error_code ec;
            size_t     k = a->read_some(boost::asio::buffer(buf, 64), ec);
            for (size_t j = 0; j < k; ++j) H::check((unsigned char)buf[j] == expect++, "octets out of order");
            got += k;
                count(k);
        }
        else {
            io.now += std::chrono::milliseconds(1000);
            for (size_t j = 0; j < io.timers.size(); ++j)
                if (io.timers[j]) io.timers[j]->fire();
            if (started && io.now >= end) {
                restore();
                if (reading) wantRead();
            }
        }
    }
    H::check(got == sent, "reading does not resume");
}

static void all12(Rng &r)
{
    switch (r.below(3)) {
    case 0: rateManager(r); break;
    case 1: rateLimit(r); break;
    case 2: socket(r); break;
    }
}

int main(int argc, char **argv)
{
    H::init(argc, argv);
    std::string m = H::mode();
    return H::loop([m](Rng &r) {
        if (m == "P10") window(r);
        else if (m == "P11") manager(r);
        else all12(r);
    });
}
