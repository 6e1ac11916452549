// Contracts of the fixed window connection rate limiter.
#include "vc.h"
#include <amqpprox_fixedwindowconnectionratelimiter.h>
#include <new>

using namespace Bloomberg::amqpprox;
using Limiter = FixedWindowConnectionRateLimiter;
using TP      = std::chrono::time_point<std::chrono::steady_clock, std::chrono::milliseconds>;

namespace {
struct ProbeClock : LimiterClock {
    int64_t d_ms;
    int     d_calls = 0;
    TP      now() override
    {
        ++d_calls;
        return TP(std::chrono::milliseconds(d_ms));
    }
};

void useClock(Limiter &l, ProbeClock &c)
{
    new (&l.d_clockPtr) std::shared_ptr<LimiterClock>(std::shared_ptr<void>(), &c);
}
}

// @contract FixedWindowConnectionRateLimiter::allowNewConnection: at most the limit per window, and never fewer | FixedWindowConnectionRateLimiter::allowNewConnection()
OBS void c_allowNewConnection(Limiter &l)
{
    ProbeClock clock;
    clock.d_ms = int64_t(vc_any_u64());
    useClock(l, clock);
    const uint32_t limit = l.getConnectionLimit();
    const int64_t  win   = l.d_timeWindowInMs.count();
    const int64_t  start = l.d_lastTime.time_since_epoch().count();
    const uint32_t count = l.d_currentCount;
    const int64_t  T     = int64_t(1) << 60;
    // invariant of the limiter: the count of the current window is within the limit; clocks run forward
    vc_assume(count <= limit && win >= 0 && win < T && start > -T && start <= clock.d_ms && clock.d_ms < T);
    const bool     next = clock.d_ms - start >= win;
    const uint32_t used = next ? 0 : count;

    const bool allowed = l.Limiter::allowNewConnection();

    vc_ensure(allowed == (used < limit), "a connection is allowed exactly while the window has room");
    vc_ensure(l.d_currentCount == used + (allowed ? 1 : 0), "every allowed connection is counted, refused ones are not");
    vc_ensure(l.d_currentCount <= limit, "the count never exceeds the limit");
    vc_ensure(l.d_lastTime.time_since_epoch().count() == (next ? clock.d_ms : start), "a window starts only when the previous one is over");
    vc_ensure(l.getConnectionLimit() == limit && l.d_timeWindowInMs.count() == win, "limit and window stay as configured");
}

// @contract FixedWindowConnectionRateLimiter(limit, window): starts empty, as configured | FixedWindowConnectionRateLimiter::FixedWindowConnectionRateLimiter(uint32_t, uint32_t)
OBS void c_limiterCtor(uint32_t limit, uint32_t window)
{
    vc_assume(window < 2000000);
    Limiter l(limit, window);
    vc_ensure(l.getConnectionLimit() == limit, "limit as given");
    vc_ensure(l.d_timeWindowInMs.count() == int64_t(window) * 1000, "window as given");
    vc_ensure(l.getTimeWindowInSec() == window, "window is reported in seconds");
    vc_ensure(l.d_currentCount == 0, "nothing used yet");
}

// @contract FixedWindowConnectionRateLimiter(limit): the default window is one second | FixedWindowConnectionRateLimiter::FixedWindowConnectionRateLimiter(uint32_t, uint32_t)
OBS void c_limiterCtorDefault(uint32_t limit)
{
    Limiter l(limit);
    vc_ensure(l.getConnectionLimit() == limit && l.d_timeWindowInMs.count() == 1000 && l.d_currentCount == 0, "one second window");
}
