edits = [('libamqpprox/amqpprox_connectionselector.cpp', '''    if (!d_resourceMapper_p->getResourceMap(
            &isFarm, &resourceName, sessionState)) {''', '''    bool mapped = d_resourceMapper_p->getResourceMap(
        &isFarm, &resourceName, sessionState);
    if (mapped && isFarm) {
        // Mappings may outlive their farm
        try {
            d_farmStore_p->getFarmByName(resourceName);
        }
        catch (std::runtime_error &) {
            std::lock_guard<std::mutex> lg(d_mutex);
            mapped = d_defaultFarmName.empty();
        }
    }
    if (!mapped) {''')]
demo = r'''
#include <amqpprox_backendstore.h>
#include <amqpprox_connectionlimitermanager.h>
#include <amqpprox_connectionmanager.h>
#include <amqpprox_connectionselector.h>
#include <amqpprox_farm.h>
#include <amqpprox_farmstore.h>
#include <amqpprox_resourcemapper.h>
#include <amqpprox_robinbackendselector.h>
#include <amqpprox_sessionstate.h>
#include <amqpprox_vhoststate.h>
#include <cstdio>
using namespace Bloomberg::amqpprox;
int main()
{
    VhostState vs;
    FarmStore farms;
    BackendStore backends;
    ResourceMapper mapper;
    ConnectionLimiterManager limits;
    RobinBackendSelector robin;
    backends.insert(Backend("b", "x", "h", "127.0.0.1", 5672, false));
    farms.addFarm(std::make_unique<Farm>("default", std::vector<std::string>{"b"}, &backends, &robin));
    mapper.mapVhostToFarm("secret", "own");
    ConnectionSelector sel(&farms, &backends, &mapper, &limits);
    sel.setDefaultFarm("default");
    SessionState s;
    s.setVirtualHost("secret");
    std::shared_ptr<ConnectionManager> out;
    auto rc = sel.acquireConnection(&out, s);
    if (rc != SessionState::ConnectionStatus::ERROR_FARM || out) {
        printf("a vhost mapped to a farm that is gone was sent to the default farm\n");
        return 1;
    }
    return 0;
}
'''
meta = {'property': 'P15', 'needs': 'a vhost mapped to a farm that does not exist (any more) while a default farm is set',
        'what_it_breaks': 'the vhost is sent to the default farm instead of being refused'}
