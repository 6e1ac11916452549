edits = [('libamqpprox/amqpprox_robinbackendselector.cpp', '''            uint64_t point = (marker + retry) % partitionSize;''', '''            uint32_t turn  = marker + retry;
            uint32_t point = turn % partitionSize;''')]
demo = r'''
#include <amqpprox_backend.h>
#include <amqpprox_backendset.h>
#include <amqpprox_robinbackendselector.h>
#include <cstdio>
#include <set>
using namespace Bloomberg::amqpprox;
int main()
{
    Backend a, b, c;
    BackendSet set({{&a, &b, &c}});
    RobinBackendSelector robin;
    for (uint64_t m : {0ull, 5ull, 0xfffffffeull, 0xffffffffull, 0x100000000ull}) {
        std::set<const Backend *> seen;
        for (int i = 0; i < 3; ++i)
            seen.insert(robin.select(&set, {m}, i));
        if (seen.size() != 3) {
            printf("marker %llu: only %zu of 3 backends tried\n", (unsigned long long)m, seen.size());
            return 1;
        }
    }
    return 0;
}
'''
meta = {'property': 'P13', 'needs': 'a partition whose size is no power of two and whose marker passes 2^32 between two attempts of a connection',
        'what_it_breaks': 'one backend is tried twice and another one not at all'}
