edits = [('libamqpprox/amqpprox_fixedwindowconnectionratelimiter.cpp', '''        d_lastTime     = currentTime;
        d_currentCount = 0;''', '''        d_lastTime += d_timeWindowInMs;
        d_currentCount = 0;''')]
demo = r'''
#include <amqpprox_fixedwindowconnectionratelimiter.h>
#include <cstdio>
using namespace Bloomberg::amqpprox;
struct Clock : LimiterClock {
    int64_t ms = 5000;
    std::chrono::time_point<std::chrono::steady_clock, std::chrono::milliseconds> now() override
    {
        return std::chrono::time_point<std::chrono::steady_clock, std::chrono::milliseconds>(std::chrono::milliseconds(ms));
    }
};
struct L : FixedWindowConnectionRateLimiter {
    L(const std::shared_ptr<LimiterClock> &c, uint32_t n, uint32_t w) : FixedWindowConnectionRateLimiter(c, n, w) {}
};
int main()
{
    auto c = std::make_shared<Clock>();
    L    l(c, 2, 1);
    c->ms += 10000; // idle for ten windows
    int ok = 0;
    for (int i = 0; i < 50; ++i)
        ok += l.allowNewConnection();
    if (ok != 2) {
        printf("%d connections admitted at one instant, limit 2\n", ok);
        return 1;
    }
    return 0;
}
'''
meta = {'property': 'P10', 'needs': 'an idle time of several windows followed by a burst',
        'what_it_breaks': 'a burst after an idle time is admitted beyond the limit of one window'}
