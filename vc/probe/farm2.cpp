// Contracts of changes to a farm: they affect what is named, and partition anew afterwards.
#include "vc.h"
#include <amqpprox_backendset.h>
#include <amqpprox_backendstore.h>
#include <amqpprox_farm.h>
#include <amqpprox_partitionpolicy.h>
#include <memory>
#include <new>

using namespace Bloomberg::amqpprox;

namespace {
struct Ghost {
    uint64_t           again, pushed;
    bool               had, others;
    const std::string *name, *other;
    const Farm        *farm;
    const void        *policy;
} g;
void start(Farm &f, const std::string &name, const std::string &other)
{
    g       = Ghost();
    g.farm  = &f;
    g.name  = &name;
    g.other = &other;
}
}

// @replaces Farm::doRepartitionWhileLocked | Farm::doRepartitionWhileLocked\(
OBS void gr_again(Farm *f, void *)
{
    ++g.again;
    vc_ensure(f == g.farm, "of this farm");
    if (g.name)
        g.had = f->d_backendMembers.count(*g.name) != 0;
}
// @replaces std::vector<PartitionPolicy *>::push_back | std::vector<Bloomberg::amqpprox::PartitionPolicy\*, .*>::(push_back|emplace_back<.*>)\(
OBS void gr_push(void *v, PartitionPolicy *const &p)
{
    vc_ensure(v == &g.farm->d_partitionPolicies && g.again == 0, "to its policies");
    ++g.pushed;
    g.policy = p;
}

// @contract Farm::addMember: that member belongs to it, the others stay, partitioned anew | Farm::addMember
OBS void c_add(Farm &f)
{
    std::string name, other;
    vc_any_string(&name);
    vc_any_string(&other);
    vc_assume(name != other);
    start(f, name, other);
    const bool before = f.d_backendMembers.count(other) != 0;
    f.addMember(name);
    vc_ensure(f.d_backendMembers.count(name) == 1 && g.had, "a member, already when partitioned anew");
    vc_ensure((f.d_backendMembers.count(other) != 0) == before, "the others stay");
    vc_ensure(g.again == 1, "partitioned anew");
}

// @contract Farm::removeMember: that member is gone, the others stay, partitioned anew | Farm::removeMember
OBS void c_remove(Farm &f)
{
    std::string name, other;
    vc_any_string(&name);
    vc_any_string(&other);
    vc_assume(name != other);
    start(f, name, other);
    const bool before = f.d_backendMembers.count(other) != 0;
    f.removeMember(name);
    vc_ensure(f.d_backendMembers.count(name) == 0 && !g.had, "no member, already when partitioned anew");
    vc_ensure((f.d_backendMembers.count(other) != 0) == before, "the others stay");
    vc_ensure(g.again == 1, "partitioned anew");
}

// @contract Farm::addPartitionPolicy: behind the others, partitioned anew | Farm::addPartitionPolicy
OBS void c_policy(Farm &f, uint8_t &p)
{
    std::string name;
    vc_any_string(&name);
    start(f, name, name);
    const bool before = f.d_backendMembers.count(name) != 0;
    f.addPartitionPolicy(reinterpret_cast<PartitionPolicy *>(&p));
    vc_ensure(g.pushed == 1 && g.policy == &p, "that policy, last");
    vc_ensure(g.again == 1 && (f.d_backendMembers.count(name) != 0) == before, "partitioned anew");
}

// @contract Farm::repartition: partitioned anew | Farm::repartition
OBS void c_anew(Farm &f)
{
    std::string name;
    vc_any_string(&name);
    start(f, name, name);
    const bool before = f.d_backendMembers.count(name) != 0;
    f.repartition();
    vc_ensure(g.again == 1 && (f.d_backendMembers.count(name) != 0) == before, "once, with the same members");
}

// @contract Farm::setBackendSelector: that selector, nothing else | Farm::setBackendSelector
OBS void c_selector(Farm &f, uint8_t &s)
{
    std::string name;
    vc_any_string(&name);
    start(f, name, name);
    const bool before = f.d_backendMembers.count(name) != 0;
    const void *set = f.d_backendSet.get();
    f.setBackendSelector(reinterpret_cast<BackendSelector *>(&s));
    vc_ensure(f.backendSelector() == reinterpret_cast<BackendSelector *>(&s), "that selector");
    vc_ensure(f.d_backendSet.get() == set && (f.d_backendMembers.count(name) != 0) == before, "nothing else");
}
