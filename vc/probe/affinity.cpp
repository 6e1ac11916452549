// Contract of partitioning by datacenter: each partition is split in two, those of this datacenter first.
#include "vc.h"
#include <amqpprox_affinitypartitionpolicy.h>
#include <amqpprox_backend.h>
#include <amqpprox_backendset.h>
#include <amqpprox_datacenter.h>
#include <memory>
#include <new>

using namespace Bloomberg::amqpprox;
using Partition = BackendSet::Partition;

namespace {
// elements are handed out in the order of the input; base: those before it are in the output
struct Ghost {
    uint64_t           j, base, open, sets, n;
    uint64_t           out;                 // the others of a partition are in the output, those of this datacenter are not
    uint64_t           match[2], other[2];  // per partition being built
    const Backend    **at[2];
    const std::string *here, *there;
} g;

template <typename V, typename T> void become(V &v, T *p, size_t n)
{
    v._M_impl._M_start  = p;
    v._M_impl._M_finish = v._M_impl._M_end_of_storage = p + n;
}
}

// @replaces Backend::datacenterTag | Backend::datacenterTag\(
OBS const std::string *pr_tag(const Backend *b)
{
    return vc_pred(b) ? g.here : g.there;
}
// @replaces Datacenter::get | Datacenter::get\(
OBS const std::string *pr_here(const Datacenter *)
{
    return g.here;
}
// @replaces Partition() | std::vector<Bloomberg::amqpprox::Backend const\*, .*>::vector\(\)
OBS void pr_new(Partition *v)
{
    vc_within(g.open < 2);
    if (g.open == 0)
        become(*v, g.at[0], 0);
    else
        become(*v, g.at[1], 0);
    ++g.open;
}
// @replaces ~Partition() | std::vector<Bloomberg::amqpprox::Backend const\*, .*>::~vector\(\)
OBS void pr_delete(Partition *v)
{
    --g.open;
}
// @replaces Partition::push_back | std::vector<Bloomberg::amqpprox::Backend const\*, .*>::push_back\(Bloomberg::amqpprox::Backend const\* const&\)
OBS void pr_push(Partition *v, const Backend *const &b)
{
    vc_within(v->_M_impl._M_start == g.at[0] || v->_M_impl._M_start == g.at[1]);
    vc_ensure(g.j < vc_first(g.n), "no more than there are");
    vc_ensure(b == vc_elements()[g.j], "each backend once, in order");
    vc_ensure(!g.out, "partition by partition");
    ++g.j;
    if (v->_M_impl._M_start == g.at[0])
        ++(vc_pred(b) ? g.match[0] : g.other[0]);
    else
        ++(vc_pred(b) ? g.match[1] : g.other[1]);
    ++v->_M_impl._M_finish;
}
namespace {
void output(Partition &v, const Backend **at, uint64_t &match, uint64_t &other)
{
    const uint64_t size = match + other;
    vc_within(v._M_impl._M_start == at && v._M_impl._M_finish == at + size);
    vc_ensure(size > 0, "no empty partition");
    vc_ensure(match == 0 || other == 0, "here and elsewhere kept apart");
    vc_ensure(vc_first(vc_group(g.base)) == g.base && vc_first(vc_group(g.base) + 1) == g.j, "of one whole partition");
    if (match)
        vc_ensure(!g.out, "this datacenter first");
    else
        vc_ensure(g.match[0] == 0 && g.match[1] == 0, "the others second");
    g.out = other != 0;
    match = other = 0;
    if (g.match[0] == 0 && g.match[1] == 0 && g.other[0] == 0 && g.other[1] == 0) {
        g.base = g.j;
        g.out  = 0;
    }
}
void output(Partition &v)
{
    if (v._M_impl._M_start == g.at[0])
        output(v, g.at[0], g.match[0], g.other[0]);
    else
        output(v, g.at[1], g.match[1], g.other[1]);
}
}
// @replaces std::vector<Partition>::push_back(Partition &&) | std::vector<std::vector<Bloomberg::amqpprox::Backend const\*, .*>, .*>::push_back\(std::vector<.*>&&\)
OBS void pr_output(void *, Partition &v)
{
    output(v);
}
// @replaces std::vector<Partition>::push_back(const Partition &) | std::vector<std::vector<Bloomberg::amqpprox::Backend const\*, .*>, .*>::push_back\(std::vector<.*> const&\)
OBS void pr_output2(void *, Partition &v)
{
    output(v);
}
// @replaces std::vector<Partition>::emplace_back | std::vector<std::vector<Bloomberg::amqpprox::Backend const\*, .*>, .*>::emplace_back<std::vector<.*>>\(
OBS Partition *pr_output3(void *, Partition &v)
{
    output(v);
    return &v;
}
// @replaces BackendSet::BackendSet | Bloomberg::amqpprox::BackendSet::BackendSet\(
OBS void pr_set(BackendSet *s, void *partitions)
{
    ++g.sets;
    vc_ensure(g.j == vc_first(g.n), "every backend is in the output");
    vc_ensure(g.base == g.j && !g.out, "no partition is left over");
}
// @invariant
OBS bool pi_few()
{
    const uint64_t n = g.j - g.base;
    return g.base <= g.j && g.match[0] <= n && g.match[1] <= n && g.other[0] <= n && g.other[1] <= n;
}
// @invariant
OBS bool pi_pending()
{
    return g.match[0] || g.match[1] || g.other[0] || g.other[1] || g.j == g.base;
}

// @contract AffinityPartitionPolicy::partition: splits each partition in two, this datacenter first, keeping the order, leaving out empty ones | AffinityPartitionPolicy::partition
OBS void c_partition(BackendSet &set, uint8_t &center, uint64_t n)
{
    g = Ghost();
    g.n = n;
    std::string here, there;
    vc_any_string(&here);
    vc_any_string(&there);
    vc_assume(here != there);
    g.here           = &here;
    g.there          = &there;
    Partition *parts = static_cast<Partition *>(vc_groups(n));
    become(set.d_partitions, parts, n);
    g.at[0] = static_cast<const Backend **>(vc_any_array(vc_first(n), 8));
    g.at[1] = static_cast<const Backend **>(vc_any_array(vc_first(n), 8));
    AffinityPartitionPolicy     policy(reinterpret_cast<Datacenter *>(&center));
    std::shared_ptr<BackendSet> from(std::shared_ptr<void>(), &set);
    auto                        r = policy.AffinityPartitionPolicy::partition(from);
    vc_ensure(g.sets == 1 && r.get() != &set, "a new set");
}
