edits = [('libamqpprox/amqpprox_tlscontrolcommand.cpp', '''                output << "Unknown mode: " << mode_str << "\\n";
                return;''', '''                output << "Unknown mode: " << mode_str << "\\n";
                break;''')]
demo = r'''
#include <amqpprox_bufferpool.h>
#include <amqpprox_backendstore.h>
#include <amqpprox_connectionlimitermanager.h>
#include <amqpprox_connectionselector.h>
#include <amqpprox_dataratelimitmanager.h>
#include <amqpprox_eventsource.h>
#include <amqpprox_farmstore.h>
#include <amqpprox_resourcemapper.h>
#include <amqpprox_server.h>
#include <amqpprox_tlscontrolcommand.h>
#include <openssl/ssl.h>
#include <cstdio>
using namespace Bloomberg::amqpprox;
int main()
{
    BufferPool pool({1024});
    EventSource events;
    FarmStore farms;
    BackendStore store;
    ResourceMapper mapper;
    ConnectionLimiterManager limits;
    DataRateLimitManager rates;
    ConnectionSelector sel(&farms, &store, &mapper, &limits);
    Server server(&sel, &events, &pool, &rates);
    TlsControlCommand c;
    auto out = [](const std::string &, bool) { return true; };
    auto mode = [&] { return SSL_CTX_get_verify_mode(server.ingressTlsContext().native_handle()); };
    c.handleCommand("TLS", " INGRESS VERIFY_MODE PEER FAIL_IF_NO_PEER_CERT", out, &server, nullptr);
    if (mode() != 3) { printf("mode %d\n", mode()); return 1; }
    c.handleCommand("TLS", " INGRESS VERIFY_MODE PEERS FAIL_IF_NO_PEER_CERT", out, &server, nullptr);
    if (mode() != 3) { printf("a mistyped mode changes the mode to %d\n", mode()); return 1; }
    return 0;
}
'''
meta = {'property': 'P25', 'needs': 'a verify mode that is mistyped, after a stricter one was set',
        'what_it_breaks': 'certificates are no longer verified although the command was refused'}
