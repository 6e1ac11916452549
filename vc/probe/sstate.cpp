// Contracts of the per-session accounting.
#include "vc.h"
#include <amqpprox_sessionstate.h>

using namespace Bloomberg::amqpprox;
using D = SessionState::DisconnectType;

namespace {
struct Totals {
    uint64_t v[10];
    explicit Totals(const SessionState &s) { s.getTotals(v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8, v + 9); }
};

bool only(const Totals &a, const Totals &b, int i, uint64_t x, int j, uint64_t y, int k, uint64_t z)
{
#define ONE(n) (b.v[n] == a.v[n] + (n == i ? x : n == j ? y : n == k ? z : 0))
    return ONE(0) & ONE(1) & ONE(2) & ONE(3) & ONE(4) & ONE(5) & ONE(6) & ONE(7) & ONE(8) & ONE(9);
}

struct Flags {
    bool p, r, a, i, l;
    D    d;
    explicit Flags(const SessionState &s)
    : p(s.getPaused()), r(s.getReadyToConnectOnUnpause()), a(s.getAuthDeniedConnection()), i(s.getIngressSecured()), l(s.getLimitedConnection()), d(s.getDisconnectType())
    {
    }
    bool operator==(const Flags &o) const { return (p == o.p) & (r == o.r) & (a == o.a) & (i == o.i) & (l == o.l) & (d == o.d); }
};
}

// @contract SessionState::incrementIngressTotals: one packet with its frames and octets, client to broker | SessionState::incrementIngressTotals
OBS void c_ingress(SessionState &s, uint64_t frames, uint64_t bytes)
{
    Totals a(s);
    Flags  f(s);
    s.incrementIngressTotals(frames, bytes);
    vc_ensure(only(a, Totals(s), 0, 1, 1, frames, 2, bytes), "exactly these totals grow");
    vc_ensure(f == Flags(s), "nothing else changes");
}

// @contract SessionState::incrementEgressTotals: one packet with its frames and octets, broker to client | SessionState::incrementEgressTotals
OBS void c_egress(SessionState &s, uint64_t frames, uint64_t bytes)
{
    Totals a(s);
    Flags  f(s);
    s.incrementEgressTotals(frames, bytes);
    vc_ensure(only(a, Totals(s), 5, 1, 6, frames, 7, bytes), "exactly these totals grow");
    vc_ensure(f == Flags(s), "nothing else changes");
}

// @contract SessionState::addIngressLatency: one measurement | SessionState::addIngressLatency
OBS void c_ingressLatency(SessionState &s, uint64_t t)
{
    Totals a(s);
    s.addIngressLatency(t);
    vc_ensure(only(a, Totals(s), 3, t, 4, 1, -1, 0), "exactly this total and count grow");
}

// @contract SessionState::addEgressLatency: one measurement | SessionState::addEgressLatency
OBS void c_egressLatency(SessionState &s, uint64_t t)
{
    Totals a(s);
    s.addEgressLatency(t);
    vc_ensure(only(a, Totals(s), 8, t, 9, 1, -1, 0), "exactly this total and count grow");
}

// @contract SessionState: each mark is kept by itself | SessionState::set*
OBS void c_marks(SessionState &s, uint8_t which, bool on, uint8_t d)
{
    Totals a(s);
    Flags  f(s);
    const std::string v = s.getVirtualHost();
    const uint64_t    id = s.id();
    const D    dt = d == 0 ? D::NOT_DISCONNECTED : d == 1 ? D::DISCONNECTED_CLEANLY : d == 2 ? D::DISCONNECTED_CLIENT : d == 3 ? D::DISCONNECTED_SERVER : D::DISCONNECTED_PROXY;
    switch (which) {
    case 0: s.setPaused(on); f.p = on; break;
    case 1: s.setReadyToConnectOnUnpause(on); f.r = on; break;
    case 2: s.setAuthDeniedConnection(on); f.a = on; break;
    case 3: s.setIngressSecured(on); f.i = on; break;
    case 4: s.setLimitedConnection(); f.l = true; break;
    default: s.setDisconnected(dt); f.d = dt;
    }
    vc_ensure(f == Flags(s) && only(a, Totals(s), -1, 0, -1, 0, -1, 0), "only the given mark changes, to the given value");
    vc_ensure(s.getVirtualHost() == v && s.id() == id, "the session stays itself");
}

// @contract SessionState::setVirtualHost: the vhost is the one last set | SessionState::setVirtualHost
OBS void c_vhost(SessionState &s, const std::string &v)
{
    Flags f(s);
    s.setVirtualHost(v);
    vc_ensure(s.getVirtualHost() == v && f == Flags(s), "kept");
}
