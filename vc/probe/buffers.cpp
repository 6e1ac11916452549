// Contracts of pooled buffers: who owns a buffer, and where it goes back to.
#include "vc.h"
#include <amqpprox_bufferhandle.h>
#include <amqpprox_bufferpool.h>
#include <amqpprox_buffersource.h>
#include <new>

using namespace Bloomberg::amqpprox;

namespace {
struct Ghost {
    uint64_t    released, freed, taken, j, sz, n;
    const void *source, *data, *freedData;
    void       *give;
} g;
struct Stats {
    uint64_t a, d, h;
    explicit Stats(const BufferSource &s) { s.allocationStats(&a, &d, &h); }
};
}

// @replaces BufferSource::release | BufferSource::release\(
OBS void ur_release(BufferSource *s, void *data)
{
    ++g.released;
    g.source = s;
    g.data   = data;
}
// @replaces BufferSource::acquire | BufferSource::acquire\(
OBS void *ur_acquire(BufferSource *s)
{
    ++g.taken;
    g.source = s;
    return g.give;
}
// @replaces boost::pool::malloc | boost::pool<.*>::malloc\(
OBS void *ur_malloc(void *)
{
    ++g.taken;
    return g.give;
}
// @replaces boost::pool::free | boost::pool<.*>::free\(void\*
OBS void ur_free(void *, void *data)
{
    ++g.freed;
    g.freedData = data;
}

namespace {
// a handle that holds nothing, a pooled buffer or one of the heap
void hold(BufferHandle &h, BufferSource &src, uint8_t what, uint64_t n, uint8_t &pooled)
{
    g = Ghost();
    vc_assume(what <= 2 && n <= 1ull << 32);
    h.d_size   = what ? n : 0;
    h.d_data   = what == 0 ? nullptr : what == 1 ? static_cast<void *>(&pooled) : new char[n];
    h.d_source = what == 1 ? &src : nullptr;
}
bool givenBack(BufferSource &src, uint8_t what, void *data)
{
    if (what == 0)
        return g.released == 0;
    if (what == 1)
        return g.released == 1 && g.source == &src && g.data == data;
    return g.released == 0 && !vc_alive(data);
}
}

// @contract BufferHandle::release: the buffer goes back to where it came from, once | BufferHandle::release
OBS void c_release(BufferHandle &h, BufferSource &src, uint8_t &pooled, uint8_t what, uint64_t n)
{
    hold(h, src, what, n, pooled);
    void *d = h.d_data;
    h.release();
    vc_ensure(givenBack(src, what, d), "to its pool or the heap");
    vc_ensure(h.data() == nullptr && h.size() == 0 && h.source() == nullptr, "the handle is empty");
    h.release();
    vc_ensure(givenBack(src, what, d), "and not again");
}
// @contract BufferHandle::~BufferHandle: the buffer goes back to where it came from | BufferHandle::~BufferHandle
OBS void c_drop(BufferHandle &h, BufferSource &src, uint8_t &pooled, uint8_t what, uint64_t n)
{
    hold(h, src, what, n, pooled);
    void *d = h.d_data;
    h.~BufferHandle();
    vc_ensure(givenBack(src, what, d), "to its pool or the heap");
}
// @contract BufferHandle::assign: takes over a buffer and gives back the one held | BufferHandle::assign
OBS void c_assign(BufferHandle &h, BufferSource &src, BufferSource &other, uint8_t &pooled, uint8_t &next, uint8_t what, uint64_t n, uint64_t m, bool fromPool)
{
    hold(h, src, what, n, pooled);
    void *d = h.d_data;
    h.assign(&next, m, fromPool ? &other : nullptr);
    vc_ensure(givenBack(src, what, d), "the one held goes back");
    vc_ensure(h.data() == &next && h.size() == m && h.source() == (fromPool ? &other : nullptr), "the new one is held");
}
// @contract BufferHandle::swap: exchanges two buffers | BufferHandle::swap
OBS void c_swap(BufferHandle &h, BufferHandle &k, BufferSource &s1, BufferSource &s2, uint8_t &a, uint8_t &b, uint64_t n, uint64_t m)
{
    g = Ghost();
    h.d_data = &a; h.d_size = n; h.d_source = &s1;
    k.d_data = &b; k.d_size = m; k.d_source = &s2;
    h.swap(k);
    vc_ensure(h.data() == &b && h.size() == m && h.source() == &s2, "what the other held");
    vc_ensure(k.data() == &a && k.size() == n && k.source() == &s1, "and the other way round");
    vc_ensure(g.released == 0, "nothing goes back");
}
// @contract BufferHandle::BufferHandle: holds what it is given | BufferHandle::BufferHandle
OBS void c_handle(BufferSource &s, uint8_t &a, uint64_t n)
{
    alignas(8) char m1[sizeof(BufferHandle)], m2[sizeof(BufferHandle)];
    BufferHandle *h = new (m1) BufferHandle(), *k = new (m2) BufferHandle(&a, n, &s);
    vc_ensure(h->data() == nullptr && h->size() == 0 && h->source() == nullptr, "nothing at first");
    vc_ensure(k->data() == &a && k->size() == n && k->source() == &s, "or this buffer");
}
// @contract BufferSource::acquire: one buffer of its pool, counted | BufferSource::acquire | throws
OBS void c_acquire(BufferSource &s, uint8_t &b, bool have)
{
    g      = Ghost();
    g.give = have ? &b : nullptr;
    Stats    o(s);
    bool     threw = false;
    const size_t size = s.bufferSize();
    void    *p     = nullptr;
    try {
        p = s.acquire();
    }
    catch (std::bad_alloc &) {
        threw = true;
    }
    vc_ensure(threw == !have, "an error exactly when there is none");
    if (have)
        vc_ensure(p == &b && g.taken == 1 && g.freed == 0, "the buffer the pool gave");
    Stats n(s);
    vc_ensure(n.a == o.a + 1 && n.d == o.d, "one more given out");
    const uint64_t used = n.a - n.d;
    vc_ensure(n.h == (used > o.h ? used : o.h), "the most in use at once");
    vc_ensure(s.bufferSize() == size, "of the same size");
}
// @contract BufferSource::release: the buffer goes back to the pool, counted | BufferSource::release
OBS void c_sourceRelease(BufferSource &s, uint8_t &b)
{
    g = Ghost();
    Stats o(s);
    s.release(&b);
    Stats n(s);
    vc_ensure(g.freed == 1 && g.freedData == &b && g.taken == 0, "this buffer, once");
    vc_ensure(n.a == o.a && n.d == o.d + 1 && n.h == o.h, "one more given back");
}

// @invariant sources before the one looked at are too small
OBS bool ui_small(uint64_t k)
{
    return (k <= g.n) & !((g.j < k) & (g.sz <= static_cast<BufferSource *>(vc_object(g.j))->d_allocatedBufferSize));
}

// @contract BufferPool::acquireBuffer: the first source that is large enough, otherwise the heap | BufferPool::acquireBuffer
OBS void c_pool(BufferPool &pool, BufferHandle &h, uint8_t &b, uint64_t n, uint64_t sz, uint64_t j)
{
    g = Ghost();
    vc_assume(n <= 1ull << 24 && sz <= 1ull << 40 && j < n);
    h.d_data = nullptr; h.d_size = 0; h.d_source = nullptr;
    g.give = &b; g.j = j; g.sz = sz; g.n = n;
    auto *p = static_cast<std::unique_ptr<BufferSource> *>(vc_objects(n, sizeof(BufferSource)));
    pool.d_bufferSources._M_impl._M_start  = p;
    pool.d_bufferSources._M_impl._M_finish = pool.d_bufferSources._M_impl._M_end_of_storage = p + n;
    const uint64_t spill = pool.d_spillover;
    pool.acquireBuffer(&h, sz);
    const size_t jth = static_cast<BufferSource *>(vc_object(j))->d_allocatedBufferSize;
    vc_ensure(h.size() == sz, "of the size asked for");
    if (g.taken) {
        const uint64_t i = vc_index(g.source);
        vc_ensure(g.taken == 1 && i < n && h.source() == g.source && h.data() == &b, "a buffer of one source, which gets it back");
        vc_ensure(static_cast<BufferSource *>(vc_object(i))->d_allocatedBufferSize >= sz, "which is large enough");
        vc_ensure(!(j < i) | (jth < sz), "the first of these");
        vc_ensure(pool.d_spillover == spill, "counted there");
    }
    else {
        vc_ensure(jth < sz, "only when no source is large enough");
        vc_ensure(h.source() == nullptr && vc_alive(h.data()) && vc_room(h.data()) == sz, "a buffer of the heap");
        vc_ensure(pool.d_spillover == spill + 1, "counted");
    }
}
