// Contracts of the handshake: Connector::receive from every state, for every method from either side.
#include "vc.h"
#include <amqpprox_closeerror.h>
#include <amqpprox_connector.h>
#include <amqpprox_connectorutil.h>
#include <amqpprox_eventsource.h>
#include <amqpprox_eventsourcesignal.h>
#include <amqpprox_sessionstate.h>
#include <new>

using namespace Bloomberg::amqpprox;
using S = Connector::State;

// @init Bloomberg::amqpprox::\(anonymous.namespace\)::(legacyP|p)rotocolHeader$

namespace {
enum Kind { NONE, START = 10, STARTOK = 11, TUNE = 30, TUNEOK = 31, OPEN = 40, OPENOK = 41, CLOSE = 50, CLOSEOK = 51 };

// ghost: what the connector did
struct Ghost {
    int         sent;
    Kind        kind[3];
    const void *obj[3];
    bool        in[3];
    int         decoded;
    const void *decodedInto;
    bool        decodeOk;
    int         created, ready, vhostEvents, openEvents, injected;
    const void *payload;
    size_t      length;
    uint64_t    closeCode;
    SessionState *session;
    bool        identRight;
    int         hostOf;
    const std::string *local;
} g;

std::string hostGiven;

void send(Connector *c, Kind k, const void *o, bool in)
{
    if (g.sent < 3) {
        g.kind[g.sent] = k;
        g.obj[g.sent]  = o;
        g.in[g.sent]   = in;
    }
    ++g.sent;
    c->d_sendToIngressSide = in;
}

bool decode(const void *t, Buffer &b)
{
    vc_ensure(b.originalPtr() == g.payload && b.size() == g.length && b.offset() == 0, "arguments are decoded from the method received");
    ++g.decoded;
    g.decodedInto = t;
    g.decodeOk    = vc_any_bool();
    return g.decodeOk;
}
}

// @replaces sendResponse(start) | Connector::sendResponse<Bloomberg::amqpprox::methods::Start>
OBS void k_sendStart(Connector *c, const methods::Start &m, bool in) { send(c, START, &m, in); }
// @replaces sendResponse(start-ok) | Connector::sendResponse<Bloomberg::amqpprox::methods::StartOk>
OBS void k_sendStartOk(Connector *c, const methods::StartOk &m, bool in) { send(c, STARTOK, &m, in); }
// @replaces sendResponse(tune) | Connector::sendResponse<Bloomberg::amqpprox::methods::Tune>
OBS void k_sendTune(Connector *c, const methods::Tune &m, bool in) { send(c, TUNE, &m, in); }
// @replaces sendResponse(tune-ok) | Connector::sendResponse<Bloomberg::amqpprox::methods::TuneOk>
OBS void k_sendTuneOk(Connector *c, const methods::TuneOk &m, bool in) { send(c, TUNEOK, &m, in); }
// @replaces sendResponse(open) | Connector::sendResponse<Bloomberg::amqpprox::methods::Open>
OBS void k_sendOpen(Connector *c, const methods::Open &m, bool in) { send(c, OPEN, &m, in); }
// @replaces sendResponse(open-ok) | Connector::sendResponse<Bloomberg::amqpprox::methods::OpenOk>
OBS void k_sendOpenOk(Connector *c, const methods::OpenOk &m, bool in) { send(c, OPENOK, &m, in); }
// @replaces sendResponse(close) | Connector::sendResponse<Bloomberg::amqpprox::methods::Close>
OBS void k_sendClose(Connector *c, const methods::Close &m, bool in)
{
    g.closeCode = m.d_replyCode;
    send(c, CLOSE, &m, in);
}
// @replaces sendResponse(close-ok) | Connector::sendResponse<Bloomberg::amqpprox::methods::CloseOk>
OBS void k_sendCloseOk(Connector *c, const methods::CloseOk &m, bool in) { send(c, CLOSEOK, &m, in); }

// @replaces methods::Start::decode | methods::Start::decode\(
OBS bool k_decStart(methods::Start *m, Buffer &b) { return decode(m, b); }
// @replaces methods::StartOk::decode | methods::StartOk::decode\(
OBS bool k_decStartOk(methods::StartOk *m, Buffer &b) { return decode(m, b); }
// @replaces methods::Tune::decode | methods::Tune::decode\(
OBS bool k_decTune(methods::Tune *m, Buffer &b) { return decode(m, b); }
// @replaces methods::TuneOk::decode | methods::TuneOk::decode\(
OBS bool k_decTuneOk(methods::TuneOk *m, Buffer &b) { return decode(m, b); }
// @replaces methods::Open::decode | methods::Open::decode\(
OBS bool k_decOpen(methods::Open *m, Buffer &b)
{
    vc_any_string(&m->d_virtualHost);
    return decode(m, b);
}
// @replaces methods::Close::decode | methods::Close::decode\(
OBS bool k_decClose(methods::Close *m, Buffer &b)
{
    m->d_replyCode = vc_any_u16();
    vc_any_string(&m->d_replyString);
    g.closeCode = m->d_replyCode;
    return decode(m, b);
}
// @replaces ConnectorUtil::injectProxyClientIdent | ConnectorUtil::injectProxyClientIdent\(
OBS void k_inject(methods::StartOk *m, const std::string &host, int clientPort, std::string_view local, int inPort, int outPort, bool secured)
{
    vc_ensure(g.sent == 0, "identification is added before the message is sent");
    SessionState &s = *g.session;
    g.identRight = host == hostGiven && g.hostOf == 1 && clientPort == s.d_ingressRemoteEndpoint.port() && inPort == s.d_ingressLocalEndpoint.port() &&
                   outPort == s.d_egressLocalEndpoint.port() && secured == s.d_ingressSecured && std::string(local) == *g.local;
    g.decodedInto = m;
    ++g.injected;
}
// @replaces SessionState::hostname | SessionState::hostname\(
OBS std::string k_hostname(const SessionState *, const boost::asio::ip::tcp::endpoint &e)
{
    g.hostOf += e == g.session->d_ingressRemoteEndpoint ? 1 : 2;
    std::string s;
    vc_any_string(&s);
    hostGiven = s;
    return s;
}
// @replaces connectionVhostEstablished().emit | EventSourceSignal<unsigned long, std::string const ?&>::emit\(
OBS void k_emitVhost(void *, uint64_t id, const std::string &v)
{
    vc_ensure(id == g.session->id() && v == g.session->d_virtualHost, "the vhost is announced for this session");
    ++g.vhostEvents;
}
// @replaces connectionEstablished().emit | EventSourceSignal<unsigned long>::emit\(
OBS void k_emitOpen(void *, uint64_t id)
{
    vc_ensure(id == g.session->id(), "the opening is announced for this session");
    ++g.openEvents;
}
// @replaces BufferHandle::release | BufferHandle::release\(
OBS void k_release(BufferHandle *h)
{
    h->d_data   = nullptr;
    h->d_source = nullptr;
    h->d_size   = 0;
}

namespace {
struct Run {
    bool refused = false, relayed = false;
    uint64_t relayedCode = 0;
};

void prepare(Connector &c, SessionState &s, EventSource &e)
{
    g                  = Ghost();
    g.session          = &s;
    c.d_sessionState_p = &s;
    c.d_eventSource_p  = &e;
    new (&c.d_connectionCreationHandler) std::function<void()>([] { ++g.created; });
    new (&c.d_connectionReadyHandler) std::function<void()>([] { ++g.ready; });
}

Run receive(Connector &c, const Method &m, FlowType d)
{
    Run r;
    vc_assume(d == FlowType::INGRESS || d == FlowType::EGRESS);
    g.payload = m.payload;
    g.length  = m.length;
    try {
        c.receive(m, d);
    }
    catch (const CloseError &x) {
        r.relayed = true;
        r.relayedCode = x.d_closeMethod.d_replyCode;
    }
    catch (const std::runtime_error &) {
        r.refused = true;
    }
    return r;
}

// in a handshake state only the awaited method from the awaited side is accepted; true: it was, and decoded
bool step(Connector &c, const Method &m, FlowType d, const Run &r, S before, Kind want, FlowType side, const void *into)
{
    const bool expected = m.methodType == want && d == side;
    if (expected && g.decodeOk) {
        vc_ensure(!r.refused && !r.relayed, "the awaited message is accepted");
        vc_ensure(g.decoded == 1 && (g.decodedInto == into || g.injected), "its arguments are kept");
        return true;
    }
    const bool brokerCloses = m.methodType == CLOSE && d == FlowType::EGRESS && want != CLOSE;
    if (brokerCloses && g.decodeOk) {
        vc_ensure(r.relayed && r.relayedCode == g.closeCode, "the broker's close is reported with its contents");
    }
    else
        vc_ensure(r.refused, "any other message is refused");
    vc_ensure(c.d_state == before && g.sent == 0 && g.created == 0 && g.ready == 0 && g.vhostEvents == 0 && g.openEvents == 0 && g.injected == 0 && c.outBuffer().size() == 0,
              "a refused message has no effect");
    return false;
}

bool quiet(const Run &r) { return !r.refused && !r.relayed && g.created == 0 && g.ready == 0 && g.vhostEvents == 0 && g.openEvents == 0 && g.injected == 0; }

bool sent1(Kind k, const void *o, bool in) { return g.sent == 1 && g.kind[0] == k && g.obj[0] == o && g.in[0] == in; }
}

// @contract Connector::receive(start-sent): start-ok of the client is kept and answered with tune | Connector::receive(Method, FlowType)
OBS void c_startSent(Connector &c, SessionState &s, EventSource &e, const Method &m, FlowType d)
{
    prepare(c, s, e);
    c.d_state = S::START_SENT;
    vc_assume(m.classType == 10);
    Run r = receive(c, m, d);
    if (step(c, m, d, r, S::START_SENT, STARTOK, FlowType::INGRESS, &c.d_startOk)) {
        vc_ensure(sent1(TUNE, &c.d_synthesizedTune, true), "tune is sent to the client");
        vc_ensure(c.d_state == S::TUNE_SENT && quiet(r), "the client's tune-ok is awaited");
    }
}

// @contract Connector::receive(tune-sent): tune-ok of the client is kept | Connector::receive(Method, FlowType)
OBS void c_tuneSent(Connector &c, SessionState &s, EventSource &e, const Method &m, FlowType d)
{
    prepare(c, s, e);
    c.d_state = S::TUNE_SENT;
    vc_assume(m.classType == 10);
    Run r = receive(c, m, d);
    if (step(c, m, d, r, S::TUNE_SENT, TUNEOK, FlowType::INGRESS, &c.d_tuneOk)) {
        vc_ensure(g.sent == 0 && c.outBuffer().size() == 0, "nothing is sent");
        vc_ensure(c.d_state == S::AWAITING_OPEN && quiet(r), "the client's open is awaited");
    }
}

// @contract Connector::receive(awaiting-open): open of the client starts connecting, once, for its vhost | Connector::receive(Method, FlowType)
OBS void c_awaitingOpen(Connector &c, SessionState &s, EventSource &e, const Method &m, FlowType d)
{
    prepare(c, s, e);
    c.d_state = S::AWAITING_OPEN;
    vc_assume(m.classType == 10);
    Run r = receive(c, m, d);
    if (step(c, m, d, r, S::AWAITING_OPEN, OPEN, FlowType::INGRESS, &c.d_open)) {
        vc_ensure(g.sent == 0 && c.outBuffer().size() == 0, "nothing is sent yet");
        vc_ensure(c.d_state == S::AWAITING_CONNECTION, "the broker is awaited");
        vc_ensure(g.created == 1 && g.vhostEvents == 1, "connecting starts once");
        vc_ensure(s.getVirtualHost() == c.d_open.virtualHost(), "the session is registered under the vhost of the open");
        vc_ensure(g.ready == 0 && g.openEvents == 0 && g.injected == 0, "nothing else happens");
    }
}

// @contract Connector::receive(awaiting-connection): start of the broker is answered with the client's start-ok | Connector::receive(Method, FlowType)
OBS void c_awaitingConnection(Connector &c, SessionState &s, EventSource &e, const Method &m, FlowType d)
{
    prepare(c, s, e);
    c.d_state = S::AWAITING_CONNECTION;
    g.local = &c.d_localHostname;
    vc_assume(m.classType == 10);
    Run r = receive(c, m, d);
    if (step(c, m, d, r, S::AWAITING_CONNECTION, START, FlowType::EGRESS, &c.d_receivedStart)) {
        vc_ensure(sent1(STARTOK, &c.d_startOk, false), "the client's start-ok is sent to the broker");
        vc_ensure(g.injected == 1 && g.decodedInto == &c.d_startOk, "with the identification added once");
        vc_ensure(g.identRight, "naming the client's host and port, its security, the proxy's host and both ports");
        vc_ensure(c.d_state == S::STARTOK_SENT, "the broker's tune is awaited");
        vc_ensure(g.created == 0 && g.ready == 0 && g.vhostEvents == 0 && g.openEvents == 0, "nothing else happens");
    }
}

// @contract Connector::receive(startok-sent): tune of the broker is answered with the client's tune-ok and open | Connector::receive(Method, FlowType)
OBS void c_startOkSent(Connector &c, SessionState &s, EventSource &e, const Method &m, FlowType d)
{
    prepare(c, s, e);
    c.d_state = S::STARTOK_SENT;
    vc_assume(m.classType == 10);
    Run r = receive(c, m, d);
    if (step(c, m, d, r, S::STARTOK_SENT, TUNE, FlowType::EGRESS, &c.d_receivedTune)) {
        vc_ensure(g.sent == 2 && g.kind[0] == TUNEOK && g.obj[0] == &c.d_tuneOk && !g.in[0] && g.kind[1] == OPEN && g.obj[1] == &c.d_open && !g.in[1],
                  "the client's tune-ok and open are sent to the broker");
        vc_ensure(c.d_state == S::OPEN_SENT && quiet(r), "the broker's open-ok is awaited");
    }
}

// @contract Connector::receive(open-sent): only open-ok of the broker opens the session | Connector::receive(Method, FlowType)
OBS void c_openSent(Connector &c, SessionState &s, EventSource &e, const Method &m, FlowType d)
{
    prepare(c, s, e);
    c.d_state = S::OPEN_SENT;
    vc_assume(m.classType == 10 && !c.d_reconnection);
    Run r = receive(c, m, d);
    if (m.methodType == OPENOK && d == FlowType::EGRESS) {
        vc_ensure(sent1(OPENOK, &c.d_openOk, true), "the client's open is answered");
        vc_ensure(c.d_state == S::OPEN && g.openEvents == 1, "the session is open");
        vc_ensure(!r.refused && !r.relayed && g.created == 0 && g.vhostEvents == 0 && g.injected == 0, "nothing else happens");
    }
    else {
        vc_ensure(g.sent == 0 && c.d_state == S::OPEN_SENT && g.openEvents == 0 && g.ready == 0, "no other message opens the session");
        vc_ensure(g.created == 0 && g.vhostEvents == 0 && g.injected == 0, "or has another effect");
    }
}

// @contract Connector::receive(open): close or close-ok ends an open session, the connector adds nothing | Connector::receive(Method, FlowType)
OBS void c_open(Connector &c, SessionState &s, EventSource &e, const Method &m, FlowType d)
{
    prepare(c, s, e);
    c.d_state = S::OPEN;
    vc_assume(m.classType == 10);
    Run r = receive(c, m, d);
    vc_ensure(g.sent == 0 && c.outBuffer().size() == 0 && quiet(r), "nothing is added to the traffic");
    vc_ensure(c.d_state == (m.methodType == CLOSE || m.methodType == CLOSEOK ? S::CLOSED : S::OPEN), "closed by close and close-ok only");
}

// @contract Connector::receive(client-close-sent): the broker is closed after the client | Connector::receive(Method, FlowType)
OBS void c_clientCloseSent(Connector &c, SessionState &s, EventSource &e, const Method &m, FlowType d)
{
    prepare(c, s, e);
    c.d_state = S::CLIENT_CLOSE_SENT;
    vc_assume(m.classType == 10);
    Run        r  = receive(c, m, d);
    const bool in = d == FlowType::INGRESS;
    vc_ensure(quiet(r), "nothing is refused or started");
    if (m.methodType == CLOSEOK && in) {
        vc_ensure(sent1(CLOSE, &c.d_close, false) && g.closeCode == 200 && c.d_state == S::SERVER_CLOSE_SENT, "the client's close-ok is followed by close to the broker");
    }
    else if (m.methodType == CLOSE && in)
        vc_ensure(g.sent >= 1 && g.kind[g.sent - 1] == CLOSE && !g.in[g.sent - 1] && c.d_state == S::SERVER_CLOSE_SENT, "so is the client's close");
    else if (m.methodType == CLOSE)
        vc_ensure(sent1(CLOSEOK, &c.d_closeOk, false) && c.d_state == S::CLOSED, "the broker's close is answered");
    else
        vc_ensure(g.sent == 0 && c.d_state == S::CLIENT_CLOSE_SENT, "anything else is discarded");
}

// @contract Connector::receive(server-close-sent): the session ends with the broker's answer | Connector::receive(Method, FlowType)
OBS void c_serverCloseSent(Connector &c, SessionState &s, EventSource &e, const Method &m, FlowType d)
{
    prepare(c, s, e);
    c.d_state = S::SERVER_CLOSE_SENT;
    vc_assume(m.classType == 10);
    Run        r  = receive(c, m, d);
    const bool in = d == FlowType::INGRESS;
    vc_ensure(quiet(r), "nothing is refused or started");
    vc_ensure(m.methodType == CLOSE ? sent1(CLOSEOK, &c.d_closeOk, in) : g.sent == 0, "close is answered to its sender, nothing else is");
    vc_ensure(c.d_state == ((m.methodType == CLOSE || m.methodType == CLOSEOK) && !in ? S::CLOSED : S::SERVER_CLOSE_SENT), "closed by the broker's answer only");
}

// @contract Connector::receive(ended): a session that has ended ignores everything | Connector::receive(Method, FlowType)
OBS void c_ended(Connector &c, SessionState &s, EventSource &e, const Method &m, FlowType d)
{
    prepare(c, s, e);
    const S before = c.d_state;
    vc_assume(m.classType == 10);
    vc_assume(before == S::AWAITING_PROTOCOL_HEADER || before == S::EXPECTING_CLOSE || before == S::ERROR || before == S::CLOSED);
    Run r = receive(c, m, d);
    vc_ensure(g.sent == 0 && c.d_state == before && quiet(r) && c.outBuffer().size() == 0, "no effect");
}

namespace {
bool octets(const uint8_t *p, uint32_t hi, uint32_t lo)
{
    auto w = [](const uint8_t *q) { return uint32_t(q[0]) << 24 | uint32_t(q[1]) << 16 | uint32_t(q[2]) << 8 | q[3]; };
    return (w(p) == hi) & (w(p + 4) == lo);
}
}

// @contract Connector::receive(header): only a protocol header of AMQP 0-9-1 is answered with start | Connector::receive(Buffer)
OBS void c_header(Connector &c, SessionState &s, EventSource &e, uint64_t n)
{
    prepare(c, s, e);
    auto        *p      = static_cast<uint8_t *>(vc_any_bytes(n));
    const S      before = c.d_state;
    const Buffer b(p, n);
    c.receive(b);
    vc_ensure(g.created == 0 && g.ready == 0 && g.vhostEvents == 0 && g.openEvents == 0 && g.injected == 0, "nothing is started");
    if (before != S::AWAITING_PROTOCOL_HEADER) {
        vc_ensure(c.d_state == S::ERROR && g.sent == 0, "a second header is an error");
        return;
    }
    if (n == 8 && (octets(p, 0x414d5150, 0x00000901) | octets(p, 0x414d5150, 0x01010009))) {
        vc_ensure(sent1(START, &c.d_synthesizedStart, true) && c.d_state == S::START_SENT, "the header is answered with start");
        return;
    }
    vc_ensure(g.sent == 0 && c.d_state == S::ERROR, "anything else is refused");
    const Buffer o = c.outBuffer();
    vc_ensure(c.sendToIngressSide() && o.size() == 8 && o.offset() == 0, "the client is told");
    vc_ensure(octets(static_cast<const uint8_t *>(o.originalPtr()), 0x414d5150, 0x00000901), "which protocol is spoken here");
}

// @contract Connector::synthesizeClose: close with reply code 200 to the given side | Connector::synthesizeClose(bool)
OBS void c_synthesizeClose(Connector &c, SessionState &s, EventSource &e, bool in)
{
    prepare(c, s, e);
    c.synthesizeClose(in);
    vc_ensure(sent1(CLOSE, &c.d_close, in) && g.closeCode == 200, "one close to that side");
    vc_ensure(c.d_state == (in ? S::CLIENT_CLOSE_SENT : S::SERVER_CLOSE_SENT), "its answer is awaited");
}

// @contract Connector::synthesizeCustomCloseError: close with the given code to the given side | Connector::synthesizeCustomCloseError(bool, uint16_t, string_view)
OBS void c_customClose(Connector &c, SessionState &s, EventSource &e, bool in, uint16_t code, const std::string &text, uint16_t cls, uint16_t mth)
{
    prepare(c, s, e);
    const S before = c.d_state;
    c.synthesizeCustomCloseError(in, code, text, cls, mth);
    vc_ensure(sent1(CLOSE, &c.d_close, in) && g.closeCode == code && c.d_close.d_replyString == text, "one close with that code and text to that side");
    vc_ensure((cls == 0 || c.d_close.d_classId == cls) && (mth == 0 || c.d_close.d_methodId == mth) && c.d_state == before, "naming the method at fault");
}
