// Contracts of how a session applies the data rate limits of its virtual host.
#include "vc.h"
#include <amqpprox_dataratelimitmanager.h>
#include <amqpprox_session.h>
#include <memory>
#include <new>

using namespace Bloomberg::amqpprox;

namespace {
struct Ghost {
    Session    *session;
    const void *manager, *socket;
    size_t      limit, alarm, limitSet, alarmSet;
    int         limits, alarms;
} g;
}

// @replaces getDataRateLimit | DataRateLimitManager::getDataRateLimit\(
OBS size_t ks_limit(const void *m, const std::string &v)
{
    vc_ensure(m == g.manager && v == g.session->d_sessionState.getVirtualHost(), "the limit of the vhost of this session");
    return g.limit;
}
// @replaces getDataRateAlarm | DataRateLimitManager::getDataRateAlarm\(
OBS size_t ks_alarm(const void *m, const std::string &v)
{
    vc_ensure(m == g.manager && v == g.session->d_sessionState.getVirtualHost(), "the alarm of the vhost of this session");
    return g.alarm;
}
// @replaces setReadRateLimit | MaybeSecureSocketAdaptor<.*>::setReadRateLimit\(
OBS void ks_setLimit(const void *s, size_t n)
{
    vc_ensure(s == g.socket, "on the client's connection");
    ++g.limits;
    g.limitSet = n;
}
// @replaces setReadRateAlarm | MaybeSecureSocketAdaptor<.*>::setReadRateAlarm\(
OBS void ks_setAlarm(const void *s, size_t n)
{
    vc_ensure(s == g.socket, "on the client's connection");
    ++g.alarms;
    g.alarmSet = n;
}

// @contract Session::updateDataRateLimits: the client's connection gets the limit and the alarm of its vhost | Session::updateDataRateLimits()
OBS void c_update(Session &s, uint8_t &manager, uint8_t &socket, size_t limit, size_t alarm)
{
    g                = Ghost();
    g.session        = &s;
    g.manager        = &manager;
    g.socket         = &socket;
    g.limit          = limit;
    g.alarm          = alarm;
    s.d_limitManager = reinterpret_cast<DataRateLimitManager *>(&manager);
    new (&s.d_serverSocket) std::shared_ptr<MaybeSecureSocketAdaptor<>>(std::shared_ptr<void>(), reinterpret_cast<MaybeSecureSocketAdaptor<> *>(&socket));
    s.updateDataRateLimits();
    vc_ensure(g.limits == 1 && g.limitSet == limit, "the limit is applied");
    vc_ensure(g.alarms == 1 && g.alarmSet == alarm, "the alarm is applied");
}
