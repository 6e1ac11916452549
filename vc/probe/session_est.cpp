// Contracts of Session::establishConnection: paused, no route, limited, authentication, connecting.
#include "vc.h"
#include <amqpprox_authinterceptinterface.h>
#include <amqpprox_connectionselectorinterface.h>
#include <amqpprox_reply.h>
#include <amqpprox_session.h>
#include <authrequest.pb.h>
#include <authresponse.pb.h>
#include <sasl.pb.h>
#include <memory>
#include <new>

using namespace Bloomberg::amqpprox;
using Status = SessionState::ConnectionStatus;

namespace {
enum { LIMITS = 1, ACQUIRE, AUTH, CONNECT, DENY, CLOSE, FLUSH, DISCONNECT, TIMER };

struct Ghost {
    uint64_t trace;   // what happened, in order, one decimal digit each
    Status   status;
    uint16_t code;
    bool     toClient, forcible, limitedBeforeTimer;
    const void *manager;
    Session *session;
    int      credentialsSet, reasonSet, result;
    bool     hasData, requestRight;
    const authproto::AuthResponse *response;
    bool     vhostSet, hostSet, mechSet, credSet;
} g;
std::string host, reason, newMech, newCred;

void did(int what) { g.trace = g.trace * 10 + what; }

struct Selector : ConnectionSelectorInterface {
    Status acquireConnection(std::shared_ptr<ConnectionManager> *out, const SessionState &st) override
    {
        did(ACQUIRE);
        vc_ensure(&st == &g.session->d_sessionState, "a route is chosen for this session");
        if (g.status == Status::SUCCESS)
            *out = std::shared_ptr<ConnectionManager>(std::shared_ptr<void>(), static_cast<ConnectionManager *>(const_cast<void *>(g.manager)));
        return g.status;
    }
};

struct Auth : AuthInterceptInterface {
    explicit Auth(boost::asio::io_context &c) : AuthInterceptInterface(c) {}
    void authenticate(const authproto::AuthRequest, const ReceiveResponseCb &cb) override
    {
        did(AUTH);
        cb(*g.response);
    }
    void print(std::ostream &) const override {}
};
}

// @replaces Session::updateDataRateLimits | Bloomberg::amqpprox::Session::updateDataRateLimits\(
OBS void ke_limits(Session *) { did(LIMITS); }
// @replaces Session::attemptConnection | Bloomberg::amqpprox::Session::attemptConnection\(
OBS void ke_attempt(Session *, const std::shared_ptr<ConnectionManager> &m)
{
    did(CONNECT);
    vc_ensure(m.get() == g.manager, "the route that was chosen is tried");
}
// @replaces Session::disconnect | Bloomberg::amqpprox::Session::disconnect\(
OBS void ke_disconnect(Session *, bool forcible)
{
    did(DISCONNECT);
    g.forcible = forcible;
}
// @replaces Session::sendSyntheticData | Bloomberg::amqpprox::Session::sendSyntheticData\(
OBS void ke_flush(Session *) { did(FLUSH); }
// @replaces Session::disconnectUnauthClient | Bloomberg::amqpprox::Session::disconnectUnauthClient\(
OBS void ke_deny(Session *, const FieldTable &, std::string_view why)
{
    did(DENY);
    vc_ensure(std::string(why) == reason, "with the reason given");
}
// @replaces Connector::synthesizeCustomCloseError | Bloomberg::amqpprox::Connector::synthesizeCustomCloseError\(
OBS void ke_close(Connector *, bool toClient, uint16_t code, std::string_view, uint16_t, uint16_t)
{
    did(CLOSE);
    g.toClient = toClient;
    g.code     = code;
}
// @replaces timer expires_after | boost::asio::basic_waitable_timer<.*::expires_after\(
OBS size_t ke_after(void *, const void *) { return 0; }
// @replaces timer async_wait | boost::asio::basic_waitable_timer<.*::async_wait<
OBS void ke_wait(void *, const void *handler)
{
    did(TIMER);
    g.limitedBeforeTimer = g.session->d_sessionState.getLimitedConnection();
    boost::system::error_code ec;
    vc_invoke_p(handler, &ec);
}
// @replaces shared_from_this | std::enable_shared_from_this<Bloomberg::amqpprox::Session>::shared_from_this\(\)
OBS std::shared_ptr<Session> ke_self(void *) { return std::shared_ptr<Session>(std::shared_ptr<void>(), g.session); }
// @replaces SessionState::hostname | SessionState::hostname\(
OBS std::string ke_hostname(const SessionState *, const boost::asio::ip::tcp::endpoint &e)
{
    vc_ensure(e == g.session->d_sessionState.d_ingressRemoteEndpoint, "the host asked about is the client's");
    return host;
}
// @replaces getConnectionName | \(anonymous namespace\)::getConnectionName\(
OBS std::string ke_name(const Connector &)
{
    std::string s;
    vc_any_string(&s);
    return s;
}
// @replaces Connector::getClientProperties | Connector::getClientProperties\(
OBS FieldTable ke_props(const Connector *) { return FieldTable(); }
// @replaces ~FieldTable | Bloomberg::amqpprox::FieldTable::~FieldTable\(
OBS void ke_unprops(FieldTable *) {}
// @replaces Connector::setAuthMechanismCredentials | Connector::setAuthMechanismCredentials\(
OBS void ke_setCred(Connector *, std::string_view m, std::string_view c)
{
    ++g.credentialsSet;
    vc_ensure(std::string(m) == newMech && std::string(c) == newCred, "the credentials are those given by the service");
}
// @replaces Connector::setAuthReasonAsClientProperties | Connector::setAuthReasonAsClientProperties\(
OBS void ke_setReason(Connector *, std::string_view r)
{
    ++g.reasonSet;
    vc_ensure(std::string(r) == reason, "the reason is the one given by the service");
}

// the messages of the authentication protocol are seen through their accessors only
// @replaces AuthRequest() | authproto::AuthRequest::~?AuthRequest\(
OBS void ke_req(void *, const void *) {}
// @replaces SASL() | authproto::SASL::~?SASL\(
OBS void ke_sasl(void *, const void *) {}
// @replaces AuthRequest::set_vhostname | authproto::AuthRequest::set_vhostname<
OBS void ke_setVhost(void *, const std::string &v)
{
    vc_ensure(v == g.session->d_sessionState.d_virtualHost, "the vhost asked about is the client's");
    g.vhostSet = true;
}
// @replaces AuthRequest::set_clienthostname | authproto::AuthRequest::set_clienthostname<
OBS void ke_setHost(void *, const std::string &v)
{
    vc_ensure(v == host, "the host asked about is the client's");
    g.hostSet = true;
}
// @replaces AuthRequest::set_connectionname | authproto::AuthRequest::set_connectionname<
OBS void ke_setName(void *, const std::string &) {}
// @replaces AuthRequest::mutable_authdata | authproto::AuthRequest::mutable_authdata\(
OBS void *ke_mutable(void *p) { return p; }
// @replaces SASL::set_authmechanism | authproto::SASL::set_authmechanism<
OBS void ke_setMech(void *, const std::string &v)
{
    vc_ensure(v == g.session->d_connector.d_startOk.d_mechanism, "the mechanism presented is the client's");
    g.mechSet = true;
}
// @replaces SASL::set_credentials | authproto::SASL::set_credentials<
OBS void ke_setCreds(void *, const std::string &v)
{
    vc_ensure(v == g.session->d_connector.d_startOk.d_response, "the credentials presented are the client's");
    g.credSet = true;
}
// @replaces AuthResponse::result | authproto::AuthResponse::result\(\) const
OBS int ke_result(const void *) { return g.result; }
// @replaces AuthResponse::reason | authproto::AuthResponse::reason\(\) const
OBS const std::string &ke_reason(const void *) { return reason; }
// @replaces AuthResponse::has_authdata | authproto::AuthResponse::has_authdata\(\) const
OBS bool ke_has(const void *) { return g.hasData; }
// @replaces AuthResponse::authdata | authproto::AuthResponse::authdata\(\) const
OBS const void *ke_data(const void *p) { return p; }
// @replaces SASL::authmechanism | authproto::SASL::authmechanism\(\) const
OBS const std::string &ke_newMech(const void *) { return newMech; }
// @replaces SASL::credentials | authproto::SASL::credentials\(\) const
OBS const std::string &ke_newCred(const void *) { return newCred; }

// @contract Session::establishConnection: connects only unpaused, routed and allowed sessions | Session::establishConnection()
OBS void c_establish(Session &s, const authproto::AuthResponse &response, uint8_t &manager, uint8_t status, uint32_t result, bool hasData)
{
    g = Ghost();
    Selector sel;
    Auth     auth(s.d_ioContext);
    g.session                = &s;
    g.manager                = &manager;
    g.response               = &response;
    g.result                 = (int)result;
    g.hasData                = hasData;
    g.status                 = static_cast<Status>(status);
    s.d_connectionSelector_p = &sel;
    new (&s.d_authIntercept) std::shared_ptr<AuthInterceptInterface>(std::shared_ptr<void>(), &auth);
    vc_any_string(&host);
    vc_any_string(&reason);
    vc_any_string(&newMech);
    vc_any_string(&newCred);
    const bool paused  = s.d_sessionState.getPaused(), ready = s.d_sessionState.getReadyToConnectOnUnpause();
    const bool limited = s.d_sessionState.getLimitedConnection();
    s.establishConnection();
    vc_ensure(s.d_sessionState.getPaused() == paused, "pausing is not changed");
    if (paused) {
        vc_ensure(g.trace == LIMITS && s.d_sessionState.getReadyToConnectOnUnpause(), "a paused session waits, and nothing else happens");
        return;
    }
    vc_ensure(s.d_sessionState.getReadyToConnectOnUnpause() == ready, "an unpaused session does not wait");
    if (g.status == Status::LIMIT) {
        vc_ensure(g.trace == 129678, "a limited session is closed after a while, and not connected");
        vc_ensure(g.toClient && g.code == 506 && g.forcible, "with a resource error to the client");
        vc_ensure(g.limitedBeforeTimer && s.d_sessionState.getLimitedConnection(), "and counted as limited");
        return;
    }
    vc_ensure(s.d_sessionState.getLimitedConnection() == limited, "only limited sessions are counted as limited");
    if (g.status == Status::NO_FARM || g.status == Status::ERROR_FARM || g.status == Status::NO_BACKEND) {
        vc_ensure(g.trace == 12678, "a session without route is closed, and not connected");
        vc_ensure(g.toClient && g.code == 506 && g.forcible, "with a resource error to the client");
        return;
    }
    if (g.status != Status::SUCCESS) {
        vc_ensure(g.trace == 128 && g.forcible, "any other failure to find a route ends the session");
        return;
    }
    vc_ensure(g.vhostSet && g.hostSet && g.mechSet && g.credSet, "the service is asked about this client");
    if (g.result == authproto::AuthResponse::ALLOW) {
        vc_ensure(g.trace == 1234, "an allowed session is connected, once");
        vc_ensure(g.credentialsSet == (hasData ? 1 : 0) && g.reasonSet == (hasData && !reason.empty() ? 1 : 0), "with the credentials given, if any");
    }
    else {
        vc_ensure(g.trace == 1235, "any other answer refuses the client, which is not connected");
        vc_ensure(g.credentialsSet == 0 && g.reasonSet == 0, "and changes nothing");
    }
}
