// Contracts of data rate limiting in the socket adaptor, on a stream and a timer of which only the interface is known.
#include "vc.h"
#include <amqpprox_maybesecuresocketadaptor.h>
#include <algorithm>
#include <new>

using namespace Bloomberg::amqpprox;
using boost::system::error_code;

namespace {
struct Io {};
struct Tls {};

struct Stream {
    typedef int executor_type;
    unsigned    syncReads = 0, asyncReads = 0;
    std::size_t given = 0, result = 0;
    char       *at   = nullptr;
    bool        fail = false;
    Stream     &next_layer() { return *this; }
    template <typename B> std::size_t read_some(const B &b, error_code &ec)
    {
        ++syncReads;
        at    = static_cast<char *>(b.data());
        given = b.size();
        fail  = vc_any_bool();
        if (fail)
            ec = error_code(1, boost::system::generic_category());
        else
            ec = error_code();
        result = vc_any_u64();
        vc_assume(result <= given);
        return result;
    }
    bool        completes = false; // the next read completes at once
    error_code  with;
    const void *into = nullptr;
    template <typename B, typename H> void async_read_some(const B &b, H &&h)
    {
        ++asyncReads;
        target(b);
        if (completes) {
            completes = false;
            h(with, result);
        }
    }
    void target(const boost::asio::null_buffers &) {}
    template <typename B> void target(const B &b)
    {
        into  = b.data();
        given = b.size();
    }
};

struct Timer {
    unsigned waits = 0, cancels = 0, after = 0, at = 0;
    int64_t  ms    = 0;
    explicit Timer(Io &) {}
    void cancel() { ++cancels; }
    int  expiry() { return 7; }
    void expires_at(int) { ++at; }
    template <typename D> void expires_after(D d)
    {
        ++after;
        ms = std::chrono::duration_cast<std::chrono::milliseconds>(d).count();
    }
    bool       fires = false; // the next wait is over at once
    error_code with;
    template <typename H> void async_wait(H &&h)
    {
        ++waits;
        if (fires) {
            fires = false;
            h(with);
        }
    }
};

typedef MaybeSecureSocketAdaptor<Stream, Timer, Io, Tls> Adaptor;

struct Ghost {
    unsigned    calls;
    error_code  ec;
    std::size_t length;
    void       *self;     // the adaptor, while it lives
} g;
struct Handler {
    void operator()(error_code ec, std::size_t n) const
    {
        ++g.calls;
        g.ec     = ec;
        g.length = n;
    }
};
error_code someError(unsigned kind) { return kind == 0 ? error_code() : kind == 1 ? error_code(boost::asio::error::operation_aborted) : error_code(1, boost::system::generic_category()); }

void plug(Adaptor &a, Stream &s, Timer &t)
{
    vc_assume(!a.d_intercept.has_value());
    new (&a.d_socket) std::unique_ptr<Stream>(&s);
    new (&a.d_dataRateTimer) std::shared_ptr<Timer>(std::shared_ptr<void>(), &t);
}

// allowance left after n octets, as DataRateLimit::recordUsage promises
std::size_t left(const DataRateLimit &d, std::size_t n)
{
    std::size_t q = d.getQuota(), r = d.remainingQuota();
    if (q == ~std::size_t(0))
        return r;
    r = std::min(q, r);
    return r - std::min(r, n);
}
}

// @contract MaybeSecureSocketAdaptor::read_some: every octet read counts towards limit and alarm | MaybeSecureSocketAdaptor::read_some
OBS void c_read_some(Adaptor &a, std::size_t room)
{
    Stream s;
    Io     io;
    Timer  t(io);
    plug(a, s, t);
    vc_assume(room >= 1 && room <= (std::size_t(1) << 32));
    static char  space[16];
    const bool   secure = a.d_secured && a.d_handshook, kept = a.d_smallBufferSet;
    const char   keptOctet = a.d_smallBuffer;
    DataRateLimit limit(a.d_dataRateLimit), alarm(a.d_dataRateAlarm);
    error_code   ec;
    std::size_t  n = a.read_some(boost::asio::mutable_buffer(space, room), ec);
    const bool   first = secure && kept;
    vc_ensure(a.d_dataRateLimit.remainingQuota() == left(limit, n), "the limit sees exactly the octets read");
    vc_ensure(a.d_dataRateAlarm.remainingQuota() == left(alarm, n), "the alarm sees exactly the octets read");
    vc_ensure(a.d_dataRateLimit.getQuota() == limit.getQuota() && a.d_dataRateAlarm.getQuota() == alarm.getQuota(), "quotas unchanged");
    vc_ensure(s.syncReads == 1 && s.at == space + (first ? 1 : 0) && s.given == room - (first ? 1 : 0), "the rest of the space is filled from the socket");
    vc_ensure(n == s.result + (first ? 1 : 0) && n <= room, "the number of octets is reported exactly");
    if (first)
        vc_ensure(space[0] == keptOctet && !a.d_smallBufferSet, "the octet read ahead comes first, once");
    else
        vc_ensure(a.d_smallBufferSet == kept, "an octet read ahead is kept until it is used");
    vc_ensure(bool(ec) == (s.fail && !(first && s.result == 0)), "errors are reported unless an octet is delivered instead");
}

// @contract MaybeSecureSocketAdaptor::async_read_some: no read is started while the allowance is used up | MaybeSecureSocketAdaptor::async_read_some
OBS void c_async_read_some(Adaptor &a)
{
    Stream s;
    Io     io;
    Timer  t(io);
    plug(a, s, t);
    const bool        started = a.d_dataRateTimerStarted;
    const std::size_t rem = a.d_dataRateLimit.remainingQuota(), arem = a.d_dataRateAlarm.remainingQuota();
    const std::size_t quota = a.d_dataRateLimit.getQuota(), aquota = a.d_dataRateAlarm.getQuota();
    const bool        alarmed = a.d_alarmed;
    Handler           h;
    a.async_read_some(boost::asio::null_buffers(), h);
    // the period starts with the first exhaustion of limit or alarm
    const bool starts  = !started && (rem == 0 || (!alarmed && arem == 0));
    const bool blocked = rem == 0 && started;
    if (blocked) {
        vc_ensure(s.asyncReads == 0 && s.syncReads == 0, "reading waits while the allowance is used up");
        vc_ensure(t.waits == 1, "reading resumes when the period ends");
        vc_ensure(a.d_dataRateLimit.remainingQuota() == 0, "the allowance is not restored before the period ends");
    }
    else {
        vc_ensure(s.asyncReads == 1 || quota == 0, "one read is started");
        vc_ensure(s.asyncReads <= 1, "never two reads");
        if (!starts)
            vc_ensure(a.d_dataRateLimit.remainingQuota() == rem && a.d_dataRateAlarm.remainingQuota() == arem, "allowances are left alone within a period");
    }
    if (starts)
        vc_ensure(a.d_dataRateTimerStarted && t.after >= 1 && t.ms == 1000, "a period of one second starts");
    vc_ensure(a.d_dataRateLimit.getQuota() == quota && a.d_dataRateAlarm.getQuota() == aquota, "quotas unchanged");
}

// @replaces weak_from_this | std::enable_shared_from_this<.*>::weak_from_this\(
OBS std::weak_ptr<Adaptor> kr_weak(void *) { return std::weak_ptr<Adaptor>(); }
// @replaces weak_ptr::lock | std::weak_ptr<.*>::lock\(\) const
OBS std::shared_ptr<Adaptor> kr_lock(const void *) { return std::shared_ptr<Adaptor>(std::shared_ptr<void>(), static_cast<Adaptor *>(g.self)); }

// @contract MaybeSecureSocketAdaptor::async_read_some, end of the wait: reading resumes with the allowance of a new period | MaybeSecureSocketAdaptor::async_read_some
OBS void c_resume(Adaptor &a, unsigned error, bool lives)
{
    Stream s;
    Io     io;
    Timer  t(io);
    plug(a, s, t);
    g                   = Ghost();
    g.self              = lives ? &a : nullptr;
    t.fires             = true;
    t.with              = someError(error);
    const std::size_t q = a.d_dataRateLimit.getQuota(), aq = a.d_dataRateAlarm.getQuota(), aleft = a.d_dataRateAlarm.remainingQuota();
    vc_assume(a.d_dataRateTimerStarted && a.d_dataRateLimit.remainingQuota() == 0);
    a.async_read_some(boost::asio::null_buffers(), Handler());
    if (lives && error != 1) {
        vc_ensure(s.asyncReads == (q ? 1u : 0u) && s.syncReads == 0, "one read is started in the new period");
        vc_ensure(a.d_dataRateLimit.remainingQuota() == q && a.d_dataRateAlarm.remainingQuota() == aq, "with both allowances restored");
        vc_ensure(a.d_dataRateTimerStarted && t.after == 1 && t.ms == 1000 && t.waits >= 2, "and the new period runs");
    }
    else {
        vc_ensure(s.asyncReads == 0 && s.syncReads == 0 && g.calls == 0, "nothing is read after the connection is gone or the wait given up");
        vc_ensure(a.d_dataRateLimit.remainingQuota() == 0 && a.d_dataRateAlarm.remainingQuota() == aleft, "and no allowance restored");
    }
}

// @contract MaybeSecureSocketAdaptor::async_read_some, completion: an octet read ahead is kept, and the reader is told, once | MaybeSecureSocketAdaptor::async_read_some
OBS void c_complete(Adaptor &a, unsigned error, std::size_t length)
{
    Stream s;
    Io     io;
    Timer  t(io);
    plug(a, s, t);
    g           = Ghost();
    s.completes = true;
    s.with      = someError(error);
    s.result    = length;
    vc_assume(length <= 1 && a.d_dataRateLimit.remainingQuota() > 0);
    const bool        secure = a.d_secured && a.d_handshook, kept = a.d_smallBufferSet;
    const std::size_t rem = a.d_dataRateLimit.remainingQuota();
    vc_assume(!(secure && kept) || length == 0); // no room for a second octet
    a.async_read_some(boost::asio::null_buffers(), Handler());
    if (rem == a.d_dataRateLimit.remainingQuota()) { // no new period began
        vc_ensure(g.calls == 1 && g.ec == someError(error) && g.length == length, "the reader is told the outcome");
        if (secure) {
            vc_ensure(s.into == &a.d_smallBuffer && s.given == (kept ? 0u : 1u), "at most one octet is read ahead, where it is kept");
            vc_ensure(a.d_smallBufferSet == (kept || length != 0), "an octet read ahead is kept");
        }
        else
            vc_ensure(a.d_smallBufferSet == kept, "nothing is read ahead without TLS");
    }
}

// @contract MaybeSecureSocketAdaptor::onTimer, end of a period: the next one begins, unless the connection is gone | MaybeSecureSocketAdaptor::onTimer
OBS void c_nextPeriod(Adaptor &a, unsigned error, bool lives)
{
    Stream s;
    Io     io;
    Timer  t(io);
    plug(a, s, t);
    g       = Ghost();
    g.self  = lives ? &a : nullptr;
    t.fires = true;
    t.with  = someError(error);
    a.onTimer(error_code());
    vc_ensure(t.waits == (lives && error != 1 ? 2u : 1u) && s.asyncReads == 0 && s.syncReads == 0, "the next period begins, and nothing is read");
    a.onTimer(error_code(boost::asio::error::operation_aborted));
    vc_ensure(t.waits == (lives && error != 1 ? 2u : 1u), "a period that is given up begins no other");
}

// @contract MaybeSecureSocketAdaptor::onTimer: a period ends after one second and restores both allowances | MaybeSecureSocketAdaptor::onTimer
OBS void c_socketTimer(Adaptor &a)
{
    Stream s;
    Io     io;
    Timer  t(io);
    plug(a, s, t);
    const std::size_t q = a.d_dataRateLimit.getQuota(), aq = a.d_dataRateAlarm.getQuota();
    a.onTimer(error_code());
    vc_ensure(a.d_dataRateLimit.remainingQuota() == q && a.d_dataRateAlarm.remainingQuota() == aq, "both allowances restored");
    vc_ensure(t.waits == 1 && t.after == 1 && t.ms == 1000, "the next period ends one second later");
    vc_ensure(a.d_dataRateTimerStarted && !a.d_alarmed, "the period is running");
}

// @contract MaybeSecureSocketAdaptor::setReadRateLimit: sets the quotas | MaybeSecureSocketAdaptor::setReadRateLimit, setReadRateAlarm
OBS void c_socketQuota(Adaptor &a, std::size_t q, std::size_t aq)
{
    a.setReadRateLimit(q);
    a.setReadRateAlarm(aq);
    vc_ensure(a.d_dataRateLimit.getQuota() == q && a.d_dataRateAlarm.getQuota() == aq, "as given");
}
