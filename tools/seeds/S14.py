edits = [('libamqpprox/amqpprox_connectorutil.cpp', '''    std::stringstream remoteClient;
    remoteClient << clientHostname << ":" << clientRemotePort;''', '''    const short port = clientRemotePort;

    std::stringstream remoteClient;
    remoteClient << clientHostname << ":" << port;''')]
demo = r'''
#include <amqpprox_connectorutil.h>
#include <amqpprox_fieldvalue.h>
#include <amqpprox_methods_startok.h>
#include <cstdio>
using namespace Bloomberg::amqpprox;
int main()
{
    for (int port : {1, 32767, 32768, 65535}) {
        methods::StartOk s;
        ConnectorUtil::injectProxyClientIdent(&s, "client", port, "here", 5672, 1234, false);
        FieldValue v('S', std::string());
        if (!s.properties().findFieldValue(&v, "amqpprox_client") || v.value<std::string>() != "client:" + std::to_string(port)) {
            printf("wrong port for %d\n", port);
            return 1;
        }
    }
    return 0;
}
'''
meta = {'property': 'P08', 'needs': 'a client port of 32768 or more', 'what_it_breaks': 'the broker is told a negative port of the client'}
