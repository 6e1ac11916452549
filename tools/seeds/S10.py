edits = [('libamqpprox/amqpprox_bufferhandle.cpp', '''        if (d_data) {''', '''        if (d_size > 0) {''')]
demo = r'''
#include <amqpprox_bufferhandle.h>
#include <amqpprox_bufferpool.h>
#include <cstdio>
#include <cstdlib>
#include <new>
static long arrays = 0;
void *operator new[](std::size_t n) { ++arrays; return malloc(n ? n : 1); }
void operator delete[](void *p) noexcept { if (p) --arrays; free(p); }
void operator delete[](void *p, std::size_t) noexcept { if (p) --arrays; free(p); }
using namespace Bloomberg::amqpprox;
int main()
{
    BufferPool pool((std::vector<std::size_t>()));
    long       before = arrays;
    for (std::size_t n : {0, 1, 100, 0}) {
        BufferHandle h;
        pool.acquireBuffer(&h, n);
    }
    if (arrays != before) {
        printf("%ld buffers were never freed\n", arrays - before);
        return 1;
    }
    return 0;
}
'''
meta = {'property': 'P16', 'needs': 'a buffer of no octets from the heap, because no size class serves it', 'what_it_breaks': 'the buffer is never freed'}
