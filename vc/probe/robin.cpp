// Contracts of backend selection: every backend once, partition by partition, starting where the marker is.
#include "vc.h"
#include <amqpprox_backend.h>
#include <amqpprox_backendset.h>
#include <amqpprox_connectionmanager.h>
#include <amqpprox_robinbackendselector.h>
#include <memory>
#include <new>

using namespace Bloomberg::amqpprox;
using Partition = BackendSet::Partition;

namespace {
struct Ghost {
    uint64_t marks, marked;
} g;

template <typename V, typename T> void become(V &v, T *p, size_t n)
{
    v._M_impl._M_start  = p;
    v._M_impl._M_finish = v._M_impl._M_end_of_storage = p + n;
}
}

// @replaces BackendSet::markPartition | BackendSet::markPartition\(
OBS uint64_t nr_mark(BackendSet *, uint64_t i)
{
    ++g.marks;
    g.marked = i;
    return vc_any_u64();
}

// @contract RobinBackendSelector::select: attempt n yields the n-th backend, partition by partition, from the marker on | RobinBackendSelector::select
OBS void c_select(BackendSet &set, std::vector<uint64_t> &markers, uint64_t n, uint64_t retry)
{
    g = Ghost();
    RobinBackendSelector robin;
    Partition *parts = static_cast<Partition *>(vc_groups(n));
    uint64_t  *marks = static_cast<uint64_t *>(vc_any_array(n, 8));
    become(set.d_partitions, parts, n);
    become(markers, marks, n);
    const void *b = robin.RobinBackendSelector::select(&set, markers, retry);
    if (retry >= vc_first(n)) {
        vc_ensure(b == nullptr && g.marks == 0, "no more attempts than backends");
        return;
    }
    const uint64_t i = g.marked;
    vc_ensure(g.marks == 1 && i < n, "one partition is marked as used");
    vc_ensure(vc_first(i) <= retry && retry < vc_first(i + 1), "the one this attempt falls into");
    const uint64_t size = vc_first(i + 1) - vc_first(i);
    vc_ensure(b == vc_elements()[vc_first(i) + (marks[i] + (retry - vc_first(i))) % size], "backends in turn, from the marker on");
}
