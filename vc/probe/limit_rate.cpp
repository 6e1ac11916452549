// Contracts of data rate limits.
#include "vc.h"
#include <amqpprox_dataratelimit.h>
#include <amqpprox_dataratelimitmanager.h>
#include <algorithm>

using namespace Bloomberg::amqpprox;

static const std::size_t INF = ~std::size_t(0);

// @contract DataRateLimit::recordUsage: usage comes off the allowance, which never exceeds the quota | DataRateLimit::recordUsage(size_t)
OBS void c_recordUsage(DataRateLimit &d, std::size_t n)
{
    const std::size_t q = d.getQuota(), r = d.remainingQuota();
    d.recordUsage(n);
    const std::size_t base = std::min(q, r);
    vc_ensure(d.getQuota() == q, "quota unchanged");
    vc_ensure(d.remainingQuota() == (q == INF ? r : base - std::min(base, n)), "allowance reduced by exactly the usage, not below zero");
    vc_ensure(q == INF || d.remainingQuota() <= q, "allowance within the quota");
}

// @contract DataRateLimit::onTimer: a new period restores exactly the quota | DataRateLimit::onTimer()
OBS void c_onTimer(DataRateLimit &d)
{
    const std::size_t q = d.getQuota();
    d.onTimer();
    vc_ensure(d.getQuota() == q && d.remainingQuota() == q, "the whole quota is available again");
}

// @contract DataRateLimit::setQuota: changes the quota only | DataRateLimit::setQuota(size_t)
OBS void c_setQuota(DataRateLimit &d, std::size_t q)
{
    d.setQuota(q);
    vc_ensure(d.getQuota() == q, "quota as set");
}

// @contract DataRateLimit(): unlimited until a quota is set | DataRateLimit::DataRateLimit()
OBS void c_rateCtor()
{
    DataRateLimit d;
    vc_ensure(d.getQuota() == INF && d.remainingQuota() != 0, "no quota");
    std::size_t n = vc_any_u64();
    d.recordUsage(n);
    vc_ensure(d.remainingQuota() != 0, "never exhausted without a quota");
}

// @contract DataRateLimit(copy): copies quota and allowance | DataRateLimit::DataRateLimit(DataRateLimit&)
OBS void c_rateCopy(DataRateLimit &s)
{
    DataRateLimit d(s);
    vc_ensure(d.getQuota() == s.getQuota() && d.remainingQuota() == s.remainingQuota(), "same quota and allowance");
}

namespace {
struct Limits {
    std::size_t lim, alarm;
    bool        operator==(const Limits &o) const { return lim == o.lim && alarm == o.alarm; }
};
Limits of(const DataRateLimitManager &m, const std::string &v) { return {m.getDataRateLimit(v), m.getDataRateAlarm(v)}; }
bool   hasLimit(const DataRateLimitManager &m, const std::string &v) { return m.d_vhostDataRateQuota.find(v) != m.d_vhostDataRateQuota.end(); }
bool   hasAlarm(const DataRateLimitManager &m, const std::string &v)
{
    return m.d_vhostDataRateAlarmQuota.find(v) != m.d_vhostDataRateAlarmQuota.end();
}
}

// @contract DataRateLimitManager::setVhostDataRateLimit: sets the limit of that vhost only | DataRateLimitManager::setVhostDataRateLimit(string, size_t)
OBS void c_setVhostLimit(DataRateLimitManager &m, const std::string &v, const std::string &other, std::size_t q)
{
    vc_assume(v != other);
    const Limits o = of(m, other), mine = of(m, v);
    m.setVhostDataRateLimit(v, q);
    vc_ensure(m.getDataRateLimit(v) == q, "limit as set");
    vc_ensure(m.getDataRateAlarm(v) == mine.alarm, "alarm of the vhost unchanged");
    vc_ensure(of(m, other) == o, "other vhosts unchanged");
    vc_ensure(hasLimit(m, v), "specific to the vhost");
}

// @contract DataRateLimitManager::setVhostDataRateAlarm: sets the alarm of that vhost only | DataRateLimitManager::setVhostDataRateAlarm(string, size_t)
OBS void c_setVhostAlarm(DataRateLimitManager &m, const std::string &v, const std::string &other, std::size_t q)
{
    vc_assume(v != other);
    const Limits o = of(m, other), mine = of(m, v);
    m.setVhostDataRateAlarm(v, q);
    vc_ensure(m.getDataRateAlarm(v) == q, "alarm as set");
    vc_ensure(m.getDataRateLimit(v) == mine.lim, "limit of the vhost unchanged");
    vc_ensure(of(m, other) == o, "other vhosts unchanged");
    vc_ensure(hasAlarm(m, v), "specific to the vhost");
}

// @contract DataRateLimitManager::setDefaultDataRateLimit: applies to vhosts without a limit of their own | DataRateLimitManager::setDefaultDataRateLimit(size_t)
OBS void c_setDefaultLimit(DataRateLimitManager &m, const std::string &v, std::size_t q)
{
    const Limits o   = of(m, v);
    const bool   own = hasLimit(m, v);
    m.setDefaultDataRateLimit(q);
    vc_ensure(m.getDefaultDataRateLimit() == q, "default as set");
    vc_ensure(m.getDataRateLimit(v) == (own ? o.lim : q), "default for vhosts without a limit, own limit otherwise");
    vc_ensure(m.getDataRateAlarm(v) == o.alarm, "alarms unchanged");
}

// @contract DataRateLimitManager::setDefaultDataRateAlarm: applies to vhosts without an alarm of their own | DataRateLimitManager::setDefaultDataRateAlarm(size_t)
OBS void c_setDefaultAlarm(DataRateLimitManager &m, const std::string &v, std::size_t q)
{
    const Limits o   = of(m, v);
    const bool   own = hasAlarm(m, v);
    m.setDefaultDataRateAlarm(q);
    vc_ensure(m.getDefaultDataRateAlarm() == q, "default as set");
    vc_ensure(m.getDataRateAlarm(v) == (own ? o.alarm : q), "default for vhosts without an alarm, own alarm otherwise");
    vc_ensure(m.getDataRateLimit(v) == o.lim, "limits unchanged");
}

// @contract DataRateLimitManager::disableVhostDataRateLimit: the vhost falls back to the default | DataRateLimitManager::disableVhostDataRateLimit(string)
OBS void c_disableVhostLimit(DataRateLimitManager &m, const std::string &v, const std::string &other)
{
    vc_assume(v != other);
    const Limits o = of(m, other), mine = of(m, v);
    m.disableVhostDataRateLimit(v);
    vc_ensure(m.getDataRateLimit(v) == m.getDefaultDataRateLimit(), "default limit applies");
    vc_ensure(m.getDataRateAlarm(v) == mine.alarm, "alarm unchanged");
    vc_ensure(of(m, other) == o, "other vhosts unchanged");
}

// @contract DataRateLimitManager::disableVhostDataRateAlarm: the vhost falls back to the default | DataRateLimitManager::disableVhostDataRateAlarm(string)
OBS void c_disableVhostAlarm(DataRateLimitManager &m, const std::string &v, const std::string &other)
{
    vc_assume(v != other);
    const Limits o = of(m, other), mine = of(m, v);
    m.disableVhostDataRateAlarm(v);
    vc_ensure(m.getDataRateAlarm(v) == m.getDefaultDataRateAlarm(), "default alarm applies");
    vc_ensure(m.getDataRateLimit(v) == mine.lim, "limit unchanged");
    vc_ensure(of(m, other) == o, "other vhosts unchanged");
}

// @contract DataRateLimitManager(): no limits at first | DataRateLimitManager::DataRateLimitManager()
OBS void c_rateManagerCtor(const std::string &v)
{
    DataRateLimitManager m;
    vc_ensure(m.getDataRateLimit(v) == INF && m.getDataRateAlarm(v) == INF, "no vhost is limited");
    vc_ensure(m.getDefaultDataRateLimit() == INF && m.getDefaultDataRateAlarm() == INF, "no default");
}
