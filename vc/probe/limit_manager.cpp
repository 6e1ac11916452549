// Contracts of the connection limiter manager, against limiters of which only the interface is known.
#include "vc.h"
#include <amqpprox_connectionlimitermanager.h>
#include <amqpprox_fixedwindowconnectionratelimiter.h>
#include <memory>
#include <new>

using namespace Bloomberg::amqpprox;
using Mgr = ConnectionLimiterManager;
using Ptr = std::shared_ptr<ConnectionLimiterInterface>;

namespace {
struct Stub : ConnectionLimiterInterface {
    bool     answer;
    unsigned asked = 0;
    bool     allowNewConnection() override
    {
        ++asked;
        return answer;
    }
    std::string toString() const override { return std::string(); }
};

// gives the entry of a vhost, if there is one, an arbitrary "custom" mark and a limiter with arbitrary answers
struct Entry {
    bool                         here   = false;
    bool                         custom = false;
    ConnectionLimiterInterface  *lim    = nullptr;
};

Entry fill(Mgr::ConnectionLimiters &m, const std::string &v, Stub &s)
{
    Entry e;
    auto  it = m.find(v);
    if (it != m.end()) {
        e.here   = true;
        e.custom = vc_any_bool();
        e.lim    = &s;
        s.answer = vc_any_bool();
        it->second.first = e.custom;
        new (&it->second.second) Ptr(std::shared_ptr<void>(), &s);
    }
    return e;
}

Entry see(Mgr::ConnectionLimiters &m, const std::string &v)
{
    Entry e;
    auto  it = m.find(v);
    if (it != m.end()) {
        e.here   = true;
        e.custom = it->second.first;
        e.lim    = it->second.second.get();
    }
    return e;
}

bool same(const Entry &a, const Entry &b) { return a.here == b.here && a.custom == b.custom && a.lim == b.lim; }

uint32_t limitOf(const Entry &e) { return static_cast<FixedWindowConnectionRateLimiter *>(e.lim)->getConnectionLimit(); }
uint32_t windowOf(const Entry &e) { return static_cast<FixedWindowConnectionRateLimiter *>(e.lim)->getTimeWindowInSec(); }

// a limiter made on the spot for this vhost
bool fresh(const Entry &e, bool custom, uint32_t limit)
{
    return e.here && e.custom == custom && e.lim && limitOf(e) == limit && windowOf(e) == 1;
}

struct World {
    Stub  lv, lo, av, ao;
    Entry v, o, va, oa;

    World(Mgr &m, const std::string &vhost)
    {
        v  = fill(m.d_connectionRateLimitersPerVhost, vhost, lv);
        va = fill(m.d_alarmOnlyConnectionRateLimitersPerVhost, vhost, av);
    }

    World(Mgr &m, const std::string &vhost, const std::string &other)
    : World(m, vhost)
    {
        vc_assume(vhost != other);
        o  = fill(m.d_connectionRateLimitersPerVhost, other, lo);
        oa = fill(m.d_alarmOnlyConnectionRateLimitersPerVhost, other, ao);
    }
};

typedef std::optional<uint32_t> Opt;

#define LIM m.d_connectionRateLimitersPerVhost
#define ALA m.d_alarmOnlyConnectionRateLimitersPerVhost
}

// @contract ConnectionLimiterManager::allowNewConnectionForVhost: refused exactly when the limiter in force refuses | ConnectionLimiterManager::allowNewConnectionForVhost(string)
OBS void c_allowForVhost(Mgr &m, const std::string &vhost, const std::string &other)
{
    World     w(m, vhost, other);
    const Opt def = m.getDefaultConnectionRateLimit();

    const bool ok = m.allowNewConnectionForVhost(vhost);

    if (w.v.here) {
        vc_ensure(ok == w.lv.answer, "the vhost's limiter decides");
        vc_ensure(w.lv.asked == 1, "the connection is counted once by the vhost's limiter");
        vc_ensure(same(see(LIM, vhost), w.v), "the vhost's limiter stays");
    }
    else if (!def) {
        vc_ensure(ok, "no limit, no refusal");
        vc_ensure(!see(LIM, vhost).here, "no limiter appears from nowhere");
    }
    else {
        vc_ensure(fresh(see(LIM, vhost), false, *def), "the default limit applies to a vhost without a limiter");
        vc_ensure(ok == (*def > 0), "the first connection is within the default limit");
    }
    vc_ensure(same(see(LIM, other), w.o) && same(see(ALA, other), w.oa) && w.lo.asked == 0 && w.ao.asked == 0, "other vhosts are not affected");
    vc_ensure(!w.va.here || (w.av.asked == 1 && same(see(ALA, vhost), w.va)), "the alarm limiter sees the connection too");
    vc_ensure(m.getDefaultConnectionRateLimit() == def, "defaults stay");
}

// @contract ConnectionLimiterManager::addConnectionRateLimiter: replaces the limiter of that vhost only | ConnectionLimiterManager::addConnectionRateLimiter(string, uint32_t)
OBS void c_addLimiter(Mgr &m, const std::string &vhost, const std::string &other, uint32_t n)
{
    World     w(m, vhost, other);
    const Opt def = m.getDefaultConnectionRateLimit(), adef = m.getAlarmOnlyDefaultConnectionRateLimit();
    Ptr       r = m.addConnectionRateLimiter(vhost, n);
    Entry     e = see(LIM, vhost);
    vc_ensure(fresh(e, true, n), "a limiter with the given limit, marked as specific");
    vc_ensure(r.get() == e.lim, "the limiter in force is returned");
    vc_ensure(same(see(LIM, other), w.o) && same(see(ALA, other), w.oa) && same(see(ALA, vhost), w.va), "nothing else changes");
    vc_ensure(m.getDefaultConnectionRateLimit() == def && m.getAlarmOnlyDefaultConnectionRateLimit() == adef, "defaults stay");
}

// @contract ConnectionLimiterManager::addAlarmOnlyConnectionRateLimiter: replaces the alarm of that vhost only | ConnectionLimiterManager::addAlarmOnlyConnectionRateLimiter(string, uint32_t)
OBS void c_addAlarm(Mgr &m, const std::string &vhost, const std::string &other, uint32_t n)
{
    World     w(m, vhost, other);
    const Opt def = m.getDefaultConnectionRateLimit(), adef = m.getAlarmOnlyDefaultConnectionRateLimit();
    Ptr       r = m.addAlarmOnlyConnectionRateLimiter(vhost, n);
    Entry     e = see(ALA, vhost);
    vc_ensure(fresh(e, true, n), "an alarm with the given limit, marked as specific");
    vc_ensure(r.get() == e.lim, "the limiter in force is returned");
    vc_ensure(same(see(LIM, other), w.o) && same(see(ALA, other), w.oa) && same(see(LIM, vhost), w.v), "nothing else changes");
    vc_ensure(m.getDefaultConnectionRateLimit() == def && m.getAlarmOnlyDefaultConnectionRateLimit() == adef, "defaults stay");
}

// @contract ConnectionLimiterManager::setDefaultConnectionRateLimit: renews default limiters, keeps specific ones | ConnectionLimiterManager::setDefaultConnectionRateLimit(uint32_t)
OBS void c_setDefault(Mgr &m, const std::string &vhost, uint32_t n)
{
    World     w(m, vhost);
    const Opt adef = m.getAlarmOnlyDefaultConnectionRateLimit();
    m.setDefaultConnectionRateLimit(n);
    Entry e = see(LIM, vhost);
    vc_ensure(m.getDefaultConnectionRateLimit() == Opt(n) && m.getAlarmOnlyDefaultConnectionRateLimit() == adef, "default as set");
    if (w.v.here && w.v.custom)
        vc_ensure(same(e, w.v), "specific limiters stay");
    else if (w.v.here)
        vc_ensure(fresh(e, false, n), "vhosts on the default get the new limit");
    else
        vc_ensure(!e.here, "no limiter appears from nowhere");
    vc_ensure(same(see(ALA, vhost), w.va), "alarms stay");
}

// @contract ConnectionLimiterManager::setAlarmOnlyDefaultConnectionRateLimit: renews default alarms, keeps specific ones | ConnectionLimiterManager::setAlarmOnlyDefaultConnectionRateLimit(uint32_t)
OBS void c_setAlarmDefault(Mgr &m, const std::string &vhost, uint32_t n)
{
    World     w(m, vhost);
    const Opt def = m.getDefaultConnectionRateLimit();
    m.setAlarmOnlyDefaultConnectionRateLimit(n);
    Entry e = see(ALA, vhost);
    vc_ensure(m.getAlarmOnlyDefaultConnectionRateLimit() == Opt(n) && m.getDefaultConnectionRateLimit() == def, "default as set");
    if (w.va.here && w.va.custom)
        vc_ensure(same(e, w.va), "specific alarms stay");
    else if (w.va.here)
        vc_ensure(fresh(e, false, n), "vhosts on the default get the new limit");
    else
        vc_ensure(!e.here, "no alarm appears from nowhere");
    vc_ensure(same(see(LIM, vhost), w.v), "limiters stay");
}

// @contract ConnectionLimiterManager::removeConnectionRateLimiter: the vhost falls back to the default | ConnectionLimiterManager::removeConnectionRateLimiter(string)
OBS void c_removeLimiter(Mgr &m, const std::string &vhost, const std::string &other)
{
    World     w(m, vhost, other);
    const Opt def = m.getDefaultConnectionRateLimit();
    m.removeConnectionRateLimiter(vhost);
    Entry e = see(LIM, vhost);
    vc_ensure(def ? fresh(e, false, *def) : !e.here, "default limit, or none");
    vc_ensure(same(see(LIM, other), w.o) && same(see(ALA, other), w.oa) && same(see(ALA, vhost), w.va), "nothing else changes");
    vc_ensure(m.getDefaultConnectionRateLimit() == def, "defaults stay");
}

// @contract ConnectionLimiterManager::removeAlarmOnlyConnectionRateLimiter: the vhost falls back to the default | ConnectionLimiterManager::removeAlarmOnlyConnectionRateLimiter(string)
OBS void c_removeAlarm(Mgr &m, const std::string &vhost, const std::string &other)
{
    World     w(m, vhost, other);
    const Opt def = m.getAlarmOnlyDefaultConnectionRateLimit();
    m.removeAlarmOnlyConnectionRateLimiter(vhost);
    Entry e = see(ALA, vhost);
    vc_ensure(def ? fresh(e, false, *def) : !e.here, "default limit, or none");
    vc_ensure(same(see(LIM, other), w.o) && same(see(ALA, other), w.oa) && same(see(LIM, vhost), w.v), "nothing else changes");
    vc_ensure(m.getAlarmOnlyDefaultConnectionRateLimit() == def, "defaults stay");
}

// @contract ConnectionLimiterManager::removeDefaultConnectionRateLimit: only specific limiters remain | ConnectionLimiterManager::removeDefaultConnectionRateLimit()
OBS void c_removeDefault(Mgr &m, const std::string &vhost)
{
    World     w(m, vhost);
    const Opt adef = m.getAlarmOnlyDefaultConnectionRateLimit();
    m.removeDefaultConnectionRateLimit();
    Entry e = see(LIM, vhost);
    vc_ensure(!m.getDefaultConnectionRateLimit() && m.getAlarmOnlyDefaultConnectionRateLimit() == adef, "no default");
    vc_ensure(w.v.here && w.v.custom ? same(e, w.v) : !e.here, "specific limiters stay, default ones go");
    vc_ensure(same(see(ALA, vhost), w.va), "alarms stay");
}

// @contract ConnectionLimiterManager::removeAlarmOnlyDefaultConnectionRateLimit: only specific alarms remain | ConnectionLimiterManager::removeAlarmOnlyDefaultConnectionRateLimit()
OBS void c_removeAlarmDefault(Mgr &m, const std::string &vhost)
{
    World     w(m, vhost);
    const Opt def = m.getDefaultConnectionRateLimit();
    m.removeAlarmOnlyDefaultConnectionRateLimit();
    Entry e = see(ALA, vhost);
    vc_ensure(!m.getAlarmOnlyDefaultConnectionRateLimit() && m.getDefaultConnectionRateLimit() == def, "no default");
    vc_ensure(w.va.here && w.va.custom ? same(e, w.va) : !e.here, "specific alarms stay, default ones go");
    vc_ensure(same(see(LIM, vhost), w.v), "limiters stay");
}

// @contract ConnectionLimiterManager::getConnectionRateLimiter: the limiter in force | ConnectionLimiterManager::getConnectionRateLimiter(string)
OBS void c_getLimiter(Mgr &m, const std::string &vhost)
{
    World w(m, vhost);
    vc_ensure(m.getConnectionRateLimiter(vhost).get() == w.v.lim, "limiter of the vhost");
    vc_ensure(m.getAlarmOnlyConnectionRateLimiter(vhost).get() == w.va.lim, "alarm of the vhost");
    vc_ensure(same(see(LIM, vhost), w.v) && same(see(ALA, vhost), w.va), "nothing changes");
}

// @contract ConnectionLimiterManager::setDefaultConnectionRateLimit: each vhost gets a limiter of its own | ConnectionLimiterManager::setDefaultConnectionRateLimit(uint32_t)
OBS void c_setDefaultOwn(Mgr &m, const std::string &vhost, const std::string &other, uint32_t n)
{
    vc_assume(vhost != other);
    Stub  a, b;
    Entry v = fill(LIM, vhost, a), o = fill(LIM, other, b);
    vc_assume(v.here && o.here && !v.custom && !o.custom);
    m.setDefaultConnectionRateLimit(n);
    vc_ensure(fresh(see(LIM, vhost), false, n) && fresh(see(LIM, other), false, n), "vhosts on the default get the new limit");
    vc_ensure(see(LIM, vhost).lim != see(LIM, other).lim, "vhosts do not share a count");
}

// @contract ConnectionLimiterManager::setAlarmOnlyDefaultConnectionRateLimit: each vhost gets a alarm of its own | ConnectionLimiterManager::setAlarmOnlyDefaultConnectionRateLimit(uint32_t)
OBS void c_setAlarmDefaultOwn(Mgr &m, const std::string &vhost, const std::string &other, uint32_t n)
{
    vc_assume(vhost != other);
    Stub  a, b;
    Entry v = fill(ALA, vhost, a), o = fill(ALA, other, b);
    vc_assume(v.here && o.here && !v.custom && !o.custom);
    m.setAlarmOnlyDefaultConnectionRateLimit(n);
    vc_ensure(fresh(see(ALA, vhost), false, n) && fresh(see(ALA, other), false, n), "vhosts on the default get the new limit");
    vc_ensure(see(ALA, vhost).lim != see(ALA, other).lim, "vhosts do not share a count");
}
