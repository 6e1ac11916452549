edits = [('libamqpprox/amqpprox_farmcontrolcommand.cpp', '''            auto backend = d_backendStore_p->lookup(backendName);
            if (!backend) {
                allBackendsOk = false;''', '''            auto backend  = d_backendStore_p->lookup(backendName);
            allBackendsOk = backend != nullptr;
            if (!allBackendsOk) {''')]
demo = r'''
#include <amqpprox_backend.h>
#include <amqpprox_backendselectorstore.h>
#include <amqpprox_backendstore.h>
#include <amqpprox_farm.h>
#include <amqpprox_farmcontrolcommand.h>
#include <amqpprox_farmstore.h>
#include <amqpprox_partitionpolicystore.h>
#include <amqpprox_robinbackendselector.h>
#include <cstdio>
#include <stdexcept>
using namespace Bloomberg::amqpprox;
int main()
{
    FarmStore farms;
    BackendStore store;
    BackendSelectorStore selectors;
    PartitionPolicyStore policies;
    selectors.addSelector(std::make_unique<RobinBackendSelector>());
    store.insert(Backend("b1", "dc", "h", "1.2.3.4", 1, false, false, false));
    store.insert(Backend("b2", "dc", "h", "1.2.3.4", 1, false, false, false));
    FarmControlCommand c(&farms, &store, &selectors, &policies);
    auto out = [](const std::string &, bool) { return true; };
    auto has = [&](const char *n) { try { farms.getFarmByName(n); return true; } catch (std::runtime_error &) { return false; } };
    c.handleCommand("FARM", " ADD f1 round-robin b1 b2", out, nullptr, nullptr);
    if (!has("f1")) { printf("farm not added\n"); return 1; }
    c.handleCommand("FARM", " ADD f2 round-robin b1 nope", out, nullptr, nullptr);
    if (has("f2")) { printf("farm of an unknown backend added\n"); return 1; }
    c.handleCommand("FARM", " ADD f3 round-robin nope b2", out, nullptr, nullptr);
    if (has("f3")) { printf("farm of an unknown backend added\n"); return 1; }
    return 0;
}
'''
meta = {'property': 'P25', 'needs': 'a farm given with an unknown backend that is not the last one',
        'what_it_breaks': 'the farm is added although one of its backends does not exist'}
