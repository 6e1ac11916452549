// Contracts of the sets of numbers that are collected.
#include "vc.h"
#include <amqpprox_connectionstats.h>
#include <amqpprox_statsnapshot.h>
#include <string>

using namespace Bloomberg::amqpprox;


// @contract ConnectionStats::addDistributionStats: adds to that distribution only | ConnectionStats::addDistributionStats
OBS void c_addDistribution(ConnectionStats &c, uint64_t total, uint64_t count)
{
    std::string name, other;
    vc_any_string(&name);
    vc_any_string(&other);
    vc_assume(name != other);
    const auto a = c.distributionPair(name), o = c.distributionPair(other);
    c.addDistributionStats(name, total, count);
    const auto b = c.distributionPair(name), p = c.distributionPair(other);
    vc_ensure(b.first == a.first + total && b.second == a.second + count, "total and count");
    vc_ensure(p.first == o.first && p.second == o.second, "the others stay");
    vc_ensure(c.distributionCount(name) == a.second + count, "as reported");
}
// @contract ConnectionStats::statsValue: the number under that name | ConnectionStats::statsValue
OBS void c_value(ConnectionStats &c, uint64_t x)
{
    std::string name, other;
    vc_any_string(&name);
    vc_any_string(&other);
    vc_assume(name != other);
    const uint64_t a = c.statsValue(name), o = c.statsValue(other);
    c.statsValue(name) += x;
    const ConnectionStats &k = c;
    vc_ensure(k.statsValue(name) == a + x, "changed under that name");
    vc_ensure(k.statsValue(other) == o, "the others stay");
}
// @contract ConnectionStats::swap: exchanges all numbers | ConnectionStats::swap
OBS void c_swapStats(ConnectionStats &a, ConnectionStats &b)
{
    std::string name, dist;
    vc_any_string(&name);
    vc_any_string(&dist);
    const uint64_t x = a.statsValue(name), y = b.statsValue(name);
    const auto     p = a.distributionPair(dist), q = b.distributionPair(dist);
    a.swap(b);
    vc_ensure(a.statsValue(name) == y && b.statsValue(name) == x, "every number");
    const auto r = a.distributionPair(dist), s = b.distributionPair(dist);
    vc_ensure(r.first == q.first && r.second == q.second && s.first == p.first && s.second == p.second, "every distribution");
}
