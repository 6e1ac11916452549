// Contracts of the PROXY protocol header text.
#include "vc.h"
#include <amqpprox_proxyprotocolheaderv1.h>
#include <sstream>

using namespace Bloomberg::amqpprox;
using H = ProxyProtocolHeaderV1;

// @contract operator<<(ProxyProtocolHeaderV1): the text PROXY protocol version 1 prescribes | operator<<(ostream, ProxyProtocolHeaderV1)
OBS void c_proxyText(const H &h)
{
    std::ostringstream o;
    o << h;
    const bool v4 = h.d_inetProtocol == H::InetProtocol::TCP4, v6 = h.d_inetProtocol == H::InetProtocol::TCP6;
    if (v4 || v6)
        vc_ensure(o.str() == std::string(v4 ? "PROXY TCP4 " : "PROXY TCP6 ") + h.d_sourceIp + " " + h.d_destinationIp + " " + std::to_string(h.d_sourcePort) + " " +
                                 std::to_string(h.d_destinationPort) + "\r\n",
                  "protocol, source and destination address, source and destination port");
    else
        vc_ensure(o.str() == "PROXY UNKNOWN\r\n", "unknown protocol");
}

// @contract ProxyProtocolHeaderV1::ProxyProtocolHeaderV1: keeps what it is given | ProxyProtocolHeaderV1::ProxyProtocolHeaderV1
OBS void c_proxyMake(bool v4, const std::string &src, const std::string &dst, uint16_t sp, uint16_t dp)
{
    H h(v4 ? H::InetProtocol::TCP4 : H::InetProtocol::TCP6, src, dst, sp, dp);
    vc_ensure(h.d_inetProtocol == (v4 ? H::InetProtocol::TCP4 : H::InetProtocol::TCP6) && h.sourceIp() == src && h.destinationIp() == dst && h.sourcePort() == sp &&
                  h.destinationPort() == dp,
              "addresses and ports");
}
