edits = [('libamqpprox/amqpprox_statcollector.cpp', '''    ConnectionStats        zeroStats;

    for (auto &k : output) {
        const ConnectionStats *prevValue = &zeroStats;

''', '''    ConnectionStats        zeroStats;
    const ConnectionStats *prevValue = &zeroStats;

    for (auto &k : output) {
''')]
demo = r'''
#include <amqpprox_connectionstats.h>
#include <amqpprox_sessionstate.h>
#include <amqpprox_statcollector.h>
#include <amqpprox_statsnapshot.h>
#include <cstdio>
using namespace Bloomberg::amqpprox;
int main()
{
    StatCollector c;
    SessionState  o[8], t[8];
    for (int i = 0; i < 8; ++i) {
        o[i].setVirtualHost("old" + std::to_string(i));
        o[i].incrementIngressTotals(3, 300);
        c.collect(o[i]);
    }
    c.reset();
    for (int i = 0; i < 8; ++i) {
        t[i].setVirtualHost("new" + std::to_string(i));
        t[i].incrementIngressTotals(1, 100);
        c.collect(t[i]);
        c.collect(o[i]);
    }
    StatSnapshot b;
    c.populateStats(&b);
    for (int i = 0; i < 8; ++i) {
        long long n = b.vhosts()[t[i].getVirtualHost()].statsValue("bytesReceived");
        if (n != 100) {
            printf("a new vhost with 100 bytes is reported with %lld\n", n);
            return 1;
        }
    }
    return 0;
}
'''
meta = {'property': 'P18', 'needs': 'a vhost, backend or source that is new in an interval and comes after a known one in the order of the hash table',
        'what_it_breaks': 'the figures of another one are subtracted from its own'}
