// Contracts of route selection: which farm or backend a virtual host goes to, and what happens without one.
#include "vc.h"
#include <amqpprox_backend.h>
#include <amqpprox_backendselector.h>
#include <amqpprox_backendset.h>
#include <amqpprox_backendstore.h>
#include <amqpprox_connectionlimitermanager.h>
#include <amqpprox_connectionmanager.h>
#include <amqpprox_connectionselector.h>
#include <amqpprox_farm.h>
#include <amqpprox_farmstore.h>
#include <amqpprox_resourcemapper.h>
#include <amqpprox_sessionstate.h>
#include <memory>
#include <new>
#include <stdexcept>

using namespace Bloomberg::amqpprox;
using Status = SessionState::ConnectionStatus;

namespace {
struct Ghost {
    const SessionState *state;
    bool                allowed, mapped, isFarm, haveFarm, haveBackend, made;
    int                 asked, looked;
    Farm               *farm;
    const Backend      *backend;
    const void         *set, *selector, *markers;
    uint64_t            retry;
} g;
std::string resource, asked;

struct Sel : BackendSelector {
    const Backend *select(BackendSet *b, const std::vector<uint64_t> &m, uint64_t r) const override
    {
        ++g.asked;
        vc_ensure(b == g.set && &m == g.markers && r == g.retry, "with the farm's backends, this connection's markers and the number of the attempt");
        return g.backend;
    }
    const std::string &selectorName() const override { return resource; }
};
}

// @replaces ConnectionLimiterManager::allowNewConnectionForVhost | ConnectionLimiterManager::allowNewConnectionForVhost\(
OBS bool kr_allow(void *, const std::string &v)
{
    vc_ensure(v == g.state->getVirtualHost(), "the limits of the virtual host apply");
    vc_ensure(g.asked == 0, "and are asked once");
    ++g.asked;
    return g.allowed;
}
// @replaces ResourceMapper::getResourceMap | ResourceMapper::getResourceMap\(
OBS bool kr_map(const ResourceMapper *, bool *isFarm, std::string *name, const SessionState &s)
{
    vc_ensure(&s == g.state, "the mapping of the virtual host is used");
    vc_ensure(g.asked == 1 && g.allowed, "after the limits");
    if (g.mapped) {
        *isFarm = g.isFarm;
        *name   = resource;
    }
    return g.mapped;
}
// @replaces FarmStore::getFarmByName | FarmStore::getFarmByName\(
OBS Farm &kr_farm(const FarmStore *, const std::string &name)
{
    ++g.looked;
    asked = name;
    if (!g.haveFarm)
        throw std::runtime_error("No such farm");
    return *g.farm;
}
// @replaces BackendStore::lookup | BackendStore::lookup\(
OBS const Backend *kr_lookup(const BackendStore *, const std::string &name)
{
    g.looked += 16;
    asked = name;
    return g.haveBackend ? g.backend : nullptr;
}
// @replaces ConnectionManager constructor | ConnectionManager::ConnectionManager\(
OBS void kr_manager(ConnectionManager *, std::shared_ptr<BackendSet> set, BackendSelector *sel)
{
    g.made     = true;
    g.set      = set.get();
    g.selector = sel;
}

// @contract ConnectionSelector::acquireConnection: limits, mapping, default farm, farm or backend | ConnectionSelector::acquireConnection
OBS void c_acquire(ConnectionSelector &c, const SessionState &s, Farm &farm, const Backend &backend, bool allowed, bool mapped, bool isFarm, bool haveFarm, bool haveBackend)
{
    g             = Ghost();
    g.state       = &s;
    g.allowed     = allowed;
    g.mapped      = mapped;
    g.isFarm      = isFarm;
    g.haveFarm    = haveFarm;
    g.haveBackend = haveBackend;
    g.farm        = &farm;
    g.backend     = &backend;
    vc_any_string(&resource);
    const std::string def = c.d_defaultFarmName;
    std::shared_ptr<ConnectionManager> out;
    const Status r = c.ConnectionSelector::acquireConnection(&out, s);
    vc_ensure((r == Status::SUCCESS) == (out != nullptr) && g.made == (out != nullptr), "a route is given exactly on success");
    vc_ensure(g.asked == 1, "limits are applied to every connection");
    if (!allowed) {
        vc_ensure(r == Status::LIMIT && g.looked == 0, "a limited connection goes nowhere");
        return;
    }
    if (!mapped && def.empty()) {
        vc_ensure(r == Status::NO_FARM && g.looked == 0, "no mapping and no default farm");
        return;
    }
    if (!mapped || isFarm) {
        vc_ensure(g.looked == 1 && asked == (mapped ? resource : def), "the mapped farm, or the default farm without mapping");
        vc_ensure(r == (haveFarm ? Status::SUCCESS : Status::ERROR_FARM), "that farm has to exist");
        if (haveFarm)
            vc_ensure(g.set == farm.d_backendSet.get() && g.selector == farm.d_backendSelector_p, "its backends and its selector are used");
    }
    else {
        vc_ensure(g.looked == 16 && asked == resource, "the mapped backend");
        vc_ensure(r == (haveBackend ? Status::SUCCESS : Status::NO_BACKEND), "that backend has to exist");
        if (haveBackend) {
            const BackendSet *set = static_cast<const BackendSet *>(g.set);
            vc_ensure(g.selector == nullptr, "no selector is involved");
            vc_ensure(set->d_partitions.size() == 1 && set->d_partitions[0].size() == 1, "one backend");
            vc_ensure(set->d_partitions[0][0] == &backend, "exactly that one");
        }
    }
}

// @contract ConnectionSelector::setDefaultFarm, unsetDefaultFarm | ConnectionSelector::setDefaultFarm
OBS void c_default(ConnectionSelector &c)
{
    std::string n;
    vc_any_string(&n);
    c.setDefaultFarm(n);
    vc_ensure(c.d_defaultFarmName == n, "that farm is the default");
    c.unsetDefaultFarm();
    vc_ensure(c.d_defaultFarmName.empty(), "there is no default");
}

// @contract ConnectionManager::getConnection with a selector: asks it | ConnectionManager::getConnection
OBS void c_viaSelector(ConnectionManager &m, BackendSet &set, const Backend &b, uint64_t retry, bool have)
{
    g = Ghost();
    Sel sel;
    m.d_backendSelector_p = &sel;
    new (&m.d_backendSet) std::shared_ptr<BackendSet>(std::shared_ptr<void>(), &set);
    g.set     = &set;
    g.markers = &m.d_markerSnapshot;
    g.retry   = retry;
    g.backend = have ? &b : nullptr;
    const Backend *r = m.getConnection(retry);
    vc_ensure(g.asked == 1 && r == g.backend, "its choice is used");
}

// @contract ConnectionManager::getConnection of a direct mapping: its backend, once | ConnectionManager::getConnection
OBS void c_direct(ConnectionManager &m, BackendSet &set, const Backend &b, uint64_t retry, uint64_t np, uint64_t nb)
{
    vc_assume(np <= 0xffffff && nb <= 0xffffff);
    const Backend *backends[1] = {&b};
    BackendSet::Partition parts[1];
    parts[0]._M_impl._M_start    = backends;
    parts[0]._M_impl._M_finish   = backends + nb;
    set.d_partitions._M_impl._M_start  = parts;
    set.d_partitions._M_impl._M_finish = parts + np;
    m.d_backendSelector_p = nullptr;
    new (&m.d_backendSet) std::shared_ptr<BackendSet>(std::shared_ptr<void>(), &set);
    const Backend *r = m.getConnection(retry);
    vc_ensure(r == (retry == 0 && np > 0 && nb > 0 ? &b : nullptr), "the backend at the first attempt, none afterwards");
    new (&parts[0]) BackendSet::Partition;
}

// @contract ResourceMapper::mapVhostToFarm: changes that virtual host only | ResourceMapper::mapVhostToFarm
OBS void c_mapFarm(ResourceMapper &m, SessionState &s, bool toFarm)
{
    std::string v, f;
    vc_any_string(&v);
    vc_any_string(&f);
    bool        farm0 = false, farm1 = false;
    std::string name0, name1;
    const bool  had = m.getResourceMap(&farm0, &name0, s);
    if (toFarm)
        m.mapVhostToFarm(v, f);
    else
        m.mapVhostToBackend(v, f);
    const bool has = m.getResourceMap(&farm1, &name1, s);
    if (v == s.getVirtualHost())
        vc_ensure(has && farm1 == toFarm && name1 == f, "it goes where it was mapped last");
    else {
        vc_ensure(has == had, "others stay mapped or unmapped");
        if (had)
            vc_ensure(farm1 == farm0 && name1 == name0, "to the same place");
    }
}

// @contract ResourceMapper::unmapVhost: changes that virtual host only | ResourceMapper::unmapVhost
OBS void c_unmap(ResourceMapper &m, SessionState &s)
{
    std::string v;
    vc_any_string(&v);
    bool        farm0 = false, farm1 = false;
    std::string name0, name1;
    const bool  had = m.getResourceMap(&farm0, &name0, s);
    m.unmapVhost(v);
    const bool has = m.getResourceMap(&farm1, &name1, s);
    if (v == s.getVirtualHost())
        vc_ensure(!has, "it is mapped no longer");
    else {
        vc_ensure(has == had, "others stay mapped or unmapped");
        if (had)
            vc_ensure(farm1 == farm0 && name1 == name0, "to the same place");
    }
}
