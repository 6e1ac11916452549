edits = [('libamqpprox/amqpprox_affinitypartitionpolicy.cpp', '''            if (backend->datacenterTag() == d_datacenter_p->get()) {''', '''            const std::string &here = d_datacenter_p->get();
            if (backend->datacenterTag().compare(0, here.size(), here) == 0) {''')]
demo = r'''
#include <amqpprox_affinitypartitionpolicy.h>
#include <amqpprox_backend.h>
#include <amqpprox_backendset.h>
#include <amqpprox_datacenter.h>
#include <cstdio>
using namespace Bloomberg::amqpprox;
int main()
{
    Backend a("a", "ny10", "h", "1.1.1.1", 1, false), b("b", "ny1", "h", "1.1.1.1", 2, false);
    Datacenter dc;
    dc.set("ny1");
    AffinityPartitionPolicy p(&dc);
    std::vector<BackendSet::Partition> in = {{&a, &b}};
    auto out = p.partition(std::make_shared<BackendSet>(in));
    std::vector<BackendSet::Partition> want = {{&b}, {&a}};
    if (out->partitions() != want) {
        printf("another datacenter is taken for this one\n");
        return 1;
    }
    return 0;
}
'''
meta = {'property': 'P14', 'needs': 'a datacenter whose name begins with the name of this one',
        'what_it_breaks': 'its backends are mixed with those of this datacenter instead of being tried after them'}
