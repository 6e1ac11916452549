// Contracts of farms: which backends belong to one, and how they are partitioned.
#include "vc.h"
#include <amqpprox_backend.h>
#include <amqpprox_backendset.h>
#include <amqpprox_backendstore.h>
#include <amqpprox_farm.h>
#include <amqpprox_partitionpolicy.h>
#include <memory>
#include <new>

using namespace Bloomberg::amqpprox;
using Partition = BackendSet::Partition;

namespace {
struct Ghost {
    uint64_t           asked, pending, pushed, lookups, sets, policies, again, done;
    const std::string *name;
    const void        *given, *store;
} g;
alignas(8) char object[sizeof(BackendSet)];

std::shared_ptr<BackendSet> later()
{
    return std::shared_ptr<BackendSet>(std::shared_ptr<void>(), reinterpret_cast<BackendSet *>(object));
}

struct Policy : PartitionPolicy {
    std::shared_ptr<BackendSet> partition(const std::shared_ptr<BackendSet> &from) override
    {
        vc_ensure(vc_index(this) == g.policies, "policies in their order");
        vc_ensure(g.sets == 1, "starting with the set of all members");
        vc_ensure((from.get() == reinterpret_cast<BackendSet *>(object)) == (g.policies != 0), "each on what the one before made");
        ++g.policies;
        return later();
    }
    const std::string &policyName() const override { return *g.name; }
};

template <typename V, typename T> void become(V &v, T *p, size_t n)
{
    v._M_impl._M_start  = p;
    v._M_impl._M_finish = v._M_impl._M_end_of_storage = p + n;
}
}

// @replaces BackendStore::lookup(name) | BackendStore::lookup\(std::
OBS const Backend *fr_lookup(const BackendStore *s, const std::string &name)
{
    vc_ensure(s == g.store && g.pending == 0, "in the store of backends");
    if (name == *g.name)
        ++g.asked;
    ++g.pending;
    const Backend *b = static_cast<const Backend *>(vc_any_pointer());
    g.given = b;
    return b;
}
// @replaces Partition::push_back | std::vector<Bloomberg::amqpprox::Backend const\*, .*>::(push_back|emplace_back<.*>)\(Bloomberg::amqpprox::Backend const\* ?(const&|&&)\)
OBS void fr_push(Partition *v, const Backend *const &b)
{
    vc_ensure(g.pending == 1 && b == g.given, "the backend of that name");
    vc_ensure(g.sets == 0, "before it is partitioned");
    g.pending = 0;
    ++g.pushed;
}
// @replaces BackendSet::BackendSet | Bloomberg::amqpprox::BackendSet::BackendSet\(
OBS void fr_set(BackendSet *s, std::vector<Partition> *partitions)
{
    ++g.sets;
    vc_ensure(g.pending == 0, "with every backend found");
    vc_ensure(partitions->_M_impl._M_finish - partitions->_M_impl._M_start == 1, "one partition at first");
}

// @invariant
OBS bool fi_next(uint64_t i)
{
    return g.policies == i;
}

// @contract Farm::doRepartitionWhileLocked: looks up every member once, then applies the policies one after the other | Farm::doRepartitionWhileLocked
OBS void c_repartition(Farm &f, uint8_t &guard, uint8_t &store, uint64_t n)
{
    g = Ghost();
    std::string name;
    vc_any_string(&name);
    vc_assume(n <= 1ull << 32);
    g.name             = &name;
    g.store            = &store;
    f.d_backendStore_p = reinterpret_cast<BackendStore *>(&store);
    Policy proto;
    become(f.d_partitionPolicies, static_cast<PartitionPolicy **>(vc_objects_like(n, &proto, sizeof proto)), n);
    new (&f.d_backendSet) std::shared_ptr<BackendSet>();
    const bool member = f.d_backendMembers.count(name) != 0;
    f.doRepartitionWhileLocked(reinterpret_cast<std::lock_guard<std::mutex> &>(guard));
    vc_ensure(g.asked == member, "every member once, and nothing else");
    vc_ensure((f.d_backendMembers.count(name) != 0) == member, "the members stay");
    vc_ensure(g.sets == 1 && g.policies == n, "all policies");
    vc_ensure((f.d_backendSet.get() == reinterpret_cast<BackendSet *>(object)) == (n != 0) && f.d_backendSet.get(), "and keeps what the last one made");
}
