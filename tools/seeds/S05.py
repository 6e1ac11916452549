edits = [('libamqpprox/amqpprox_connectionlimitermanager.cpp', '''    for (auto &limiter : d_connectionRateLimitersPerVhost) {
        if (!limiter.second.first) {
            limiter.second.second =
                std::make_shared<FixedWindowConnectionRateLimiter>(
                    *d_defaultConnectionRateLimit);
        }''', '''    auto renewed = std::make_shared<FixedWindowConnectionRateLimiter>(
        *d_defaultConnectionRateLimit);
    for (auto &limiter : d_connectionRateLimitersPerVhost) {
        if (!limiter.second.first) {
            limiter.second.second = renewed;
        }''')]
demo = r'''
#include <amqpprox_connectionlimitermanager.h>
#include <cstdio>
using namespace Bloomberg::amqpprox;
int main()
{
    ConnectionLimiterManager m;
    m.setDefaultConnectionRateLimit(100);
    m.allowNewConnectionForVhost("a");
    m.allowNewConnectionForVhost("b");
    m.setDefaultConnectionRateLimit(1);
    bool a = m.allowNewConnectionForVhost("a"), b = m.allowNewConnectionForVhost("b");
    if (!a || !b) {
        printf("first connection of each vhost within a default limit of one: %d %d\n", a, b);
        return 1;
    }
    return 0;
}
'''
meta = {'property': 'P11', 'needs': 'two vhosts on the default limit, the default changed while both have a limiter, then connections to both within one window',
        'what_it_breaks': 'vhosts on the default limit share one count after the default is changed'}
