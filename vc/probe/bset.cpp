// Contracts of backend sets and of the markers a connection works with.
#include "vc.h"
#include <amqpprox_backend.h>
#include <amqpprox_backendset.h>
#include <amqpprox_connectionmanager.h>
#include <memory>
#include <new>

using namespace Bloomberg::amqpprox;
using Partition = BackendSet::Partition;

namespace {
struct Ghost {
    uint64_t    n, value, filled, copied;
    const void *from;
    uint64_t   *to;
} g;

template <typename V, typename T> void become(V &v, T *p, size_t n)
{
    v._M_impl._M_start  = p;
    v._M_impl._M_finish = v._M_impl._M_end_of_storage = p + n;
}
}

// @replaces std::vector<uint64_t>(n, value) | std::vector<unsigned long, .*>::vector\(unsigned long, unsigned long const&,
OBS void br_fill(std::vector<uint64_t> *v, size_t n, const uint64_t &x, void *)
{
    g.n     = n;
    g.value = x;
    ++g.filled;
    become(*v, static_cast<uint64_t *>(vc_any_array(n, 8)), n);
    g.to = v->_M_impl._M_start;
}
// @replaces std::vector<uint64_t>(const vector &) | std::vector<unsigned long, .*>::vector\(std::vector<unsigned long, .*> const&\)
OBS void br_copy(std::vector<uint64_t> *v, const std::vector<uint64_t> &from)
{
    g.from = &from;
    ++g.copied;
    become(*v, g.to, from._M_impl._M_finish - from._M_impl._M_start);
}

// @contract BackendSet::markPartition: moves that marker by one, no other | BackendSet::markPartition
OBS void c_mark(BackendSet &s, uint64_t n, uint64_t i, uint64_t j)
{
    vc_assume(n <= 1ull << 32 && i < n && j < n && j != i);
    uint64_t *marks = static_cast<uint64_t *>(vc_any_array(n, 8));
    become(s.d_markers, marks, n);
    const uint64_t mi = marks[i], mj = marks[j];
    const uint64_t r = s.markPartition(i);
    vc_ensure(r == mi + 1 && marks[i] == mi + 1, "one further");
    vc_ensure(marks[j] == mj, "the others stay");
    vc_ensure(s.markers().data() == marks && s.markers().size() == n, "as many markers as before");
}

// @contract BackendSet::BackendSet: keeps the partitions, each marked at its beginning | BackendSet::BackendSet
OBS void c_newSet(uint64_t n)
{
    g = Ghost();
    vc_assume(n <= 1ull << 32);
    alignas(8) char at[sizeof(BackendSet)], from[sizeof(std::vector<Partition>)];
    auto      &v = *reinterpret_cast<std::vector<Partition> *>(from);
    Partition *p = static_cast<Partition *>(vc_groups(n));
    become(v, p, n);
    BackendSet *s = new (at) BackendSet(std::move(v));
    vc_ensure(s->partitions().data() == p && s->partitions().size() == n, "the partitions given, in order");
    vc_ensure(g.filled == 1 && g.n == n && g.value == 0 && s->markers().data() == g.to && s->markers().size() == n, "a marker at the beginning of each");
}

// @contract ConnectionManager::ConnectionManager: works with the markers as they were | ConnectionManager::ConnectionManager
OBS void c_manager(BackendSet &s, uint8_t &selector, uint64_t n)
{
    g = Ghost();
    vc_assume(n <= 1ull << 32);
    uint64_t *marks = static_cast<uint64_t *>(vc_any_array(n, 8));
    become(s.d_markers, marks, n);
    g.to = static_cast<uint64_t *>(vc_any_array(n, 8));
    alignas(8) char    at[sizeof(ConnectionManager)];
    ConnectionManager *m = new (at) ConnectionManager(std::shared_ptr<BackendSet>(std::shared_ptr<void>(), &s), reinterpret_cast<BackendSelector *>(&selector));
    vc_ensure(m->d_backendSet.get() == &s && m->d_backendSelector_p == reinterpret_cast<BackendSelector *>(&selector), "of the backends and with the selector given");
    vc_ensure(g.copied == 1 && g.from == &s.d_markers && m->d_markerSnapshot.data() == g.to && m->d_markerSnapshot.size() == n, "a copy of the markers");
}
