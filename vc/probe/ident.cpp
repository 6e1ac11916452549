// Contracts of what the proxy changes in the client's start-ok.
#include "vc.h"
#include <amqpprox_connector.h>
#include <amqpprox_connectorutil.h>
#include <string>

using namespace Bloomberg::amqpprox;

namespace {
struct Ghost {
    int               made, pushed;
    char              type[3];
    const void       *value[3], *used[3];
    const FieldTable *table[3];
} g;
std::string text[3], name[3];
}

// @replaces FieldValue(string) | Bloomberg::amqpprox::FieldValue::FieldValue\(char, std::string const&\)
OBS void ki_value(FieldValue *v, char t, const std::string &s)
{
    if (g.made < 3) {
        g.type[g.made]  = t;
        g.value[g.made] = v;
        text[g.made]    = s;
    }
    ++g.made;
}
// @replaces ~FieldValue | Bloomberg::amqpprox::FieldValue::~FieldValue\(
OBS void ki_unvalue(FieldValue *) {}
// @replaces FieldTable::pushField | Bloomberg::amqpprox::FieldTable::pushField\(
OBS void ki_push(FieldTable *t, const std::string &n, const FieldValue &v)
{
    vc_ensure(g.made == g.pushed + 1, "each value is added when made");
    if (g.pushed < 3) {
        g.table[g.pushed] = t;
        g.used[g.pushed]  = &v;
        name[g.pushed]    = n;
    }
    ++g.pushed;
}

namespace {
bool field(int i, methods::StartOk &m, const char *n, const std::string &t)
{
    return g.table[i] == &m.properties() && g.used[i] == g.value[i] && g.type[i] == 'S' && name[i] == n && text[i] == t;
}
}

// @contract ConnectorUtil::injectProxyClientIdent: adds who the client and who the proxy is, nothing else | ConnectorUtil::injectProxyClientIdent
OBS void c_ident(methods::StartOk &m, const std::string &client, uint16_t clientPort, const std::string &local, uint16_t in, uint16_t out, bool secured)
{
    g = Ghost();
    const std::string mech = m.d_mechanism, resp = m.d_response, loc = m.d_locale;
    ConnectorUtil::injectProxyClientIdent(&m, client, clientPort, local, in, out, secured);
    vc_ensure(g.pushed == 2 && g.made == 2, "two properties are added");
    vc_ensure(field(0, m, "amqpprox_client", client + ":" + std::to_string((int)clientPort) + (secured ? " TLS" : "")), "amqpprox_client: host:port, marked when secured");
    vc_ensure(field(1, m, "amqpprox_host", "(:" + std::to_string((int)in) + ") " + local + ":" + std::to_string((int)out)), "amqpprox_host: (:listen port) host:outbound port");
    vc_ensure(m.d_mechanism == mech && m.d_response == resp && m.d_locale == loc, "credentials and locale are left alone");
}

// @contract Connector::setAuthMechanismCredentials: replaces mechanism and credentials, nothing else | Connector::setAuthMechanismCredentials
OBS void c_credentials(Connector &c, const std::string &mech, const std::string &cred)
{
    g                     = Ghost();
    const std::string loc = c.d_startOk.d_locale;
    const auto        st  = c.d_state;
    c.setAuthMechanismCredentials(mech, cred);
    vc_ensure(c.d_startOk.mechanism() == mech && c.d_startOk.response() == cred, "both are replaced");
    vc_ensure(c.d_startOk.d_locale == loc && g.pushed == 0 && c.d_state == st, "nothing else changes");
}

// @contract Connector::getAuthMechanismCredentials: those of the client | Connector::getAuthMechanismCredentials
OBS void c_getCredentials(Connector &c)
{
    auto p = c.getAuthMechanismCredentials();
    vc_ensure(p.first == c.d_startOk.d_mechanism && p.second == c.d_startOk.d_response, "mechanism and response");
}

// @contract Connector::setAuthReasonAsClientProperties: adds the reason | Connector::setAuthReasonAsClientProperties
OBS void c_reason(Connector &c, const std::string &reason)
{
    g                      = Ghost();
    const std::string mech = c.d_startOk.d_mechanism, resp = c.d_startOk.d_response;
    c.setAuthReasonAsClientProperties(reason);
    vc_ensure(g.pushed == 1 && field(0, c.d_startOk, "amqpprox_auth", reason), "as property amqpprox_auth");
    vc_ensure(c.d_startOk.d_mechanism == mech && c.d_startOk.d_response == resp, "credentials are left alone");
}
