// Contracts of the session: reading, processing, writing, pausing, refusing, connecting and ending.
#include "vc.h"
#include <amqpprox_backend.h>
#include <amqpprox_bufferpool.h>
#include <amqpprox_closeerror.h>
#include <amqpprox_connectionmanager.h>
#include <amqpprox_connector.h>
#include <amqpprox_fieldtable.h>
#include <amqpprox_fieldvalue.h>
#include <amqpprox_packetprocessor.h>
#include <amqpprox_session.h>
#include <memory>
#include <new>
#include <sstream>

using namespace Bloomberg::amqpprox;
using S    = Connector::State;
using D    = SessionState::DisconnectType;
using Sock = MaybeSecureSocketAdaptor<>;
using boost::system::error_code;
using Endpoint = boost::asio::ip::tcp::endpoint;

namespace {
enum { READ = 1, WRITE, PROCESS, DISCONNECT, BOTH, ESTABLISH, SERROR, CLOSE, FLUSH, ATTEMPT, RESOLVED, ENDPOINT, CERROR, HEADER, SHAKE };

struct Ghost {
    uint64_t trace;   // what happened, in order, one hexadecimal digit each
    Session *session;
    bool     forcible;
    FlowType dir;
    Sock    *sock;
    Buffer   data;
    bool     toClient;
    uint16_t code, cls, mth;
    int      released, closed;
    // outcomes chosen for the environment
    uint8_t  ec1, ec2, ec3;
    uint64_t avail, amount;
    uint8_t  result;
    uint16_t closeCode;
    const void *manager;
    const Backend *backend;
    int      asked;
    bool     keptAll, keptFirst, capable;
    const void *wanted;
    const FieldTable *props;
    FieldTable *capTable;
    uint8_t  caps, cap;
} g;
using Endpoints = std::vector<Endpoint>;
Endpoints   found;
std::string textSent, closeText, addressText, hostAsked, portAsked, headerText;
Buffer      remaining, inWrite, outWrite;

void did(int what) { g.trace = g.trace * 16 + what; }

void outcome(error_code &ec, uint8_t kind)
{
    if (kind == 0)
        ec = error_code();
    else if (kind == 1)
        ec = boost::asio::error::would_block;
    else if (kind == 2)
        ec = boost::asio::error::operation_aborted;
    else {
        // any other error, of the system or one that only asio knows (end of file)
        const int v = (int)vc_any_u64();
        vc_assume(v != 0 && v != (int)boost::asio::error::would_block && v != (int)boost::asio::error::operation_aborted);
        if (kind == 3)
            ec = error_code(v, boost::system::system_category());
        else
            ec = error_code(v, boost::asio::error::get_misc_category());
    }
}

void begin(Session &s, Sock &server, Sock &client)
{
    g         = Ghost();
    g.session = &s;
    new (&s.d_serverSocket) std::shared_ptr<Sock>(std::shared_ptr<void>(), &server);
    new (&s.d_clientSocket) std::shared_ptr<Sock>(std::shared_ptr<void>(), &client);
}
}

// @replaces shared_from_this | std::enable_shared_from_this<Bloomberg::amqpprox::Session>::shared_from_this\(\)
OBS std::shared_ptr<Session> kq_self(void *) { return std::shared_ptr<Session>(std::shared_ptr<void>(), g.session); }
// @replaces io_context::dispatch (runs the handler) | boost::asio::io_context::dispatch<
OBS void kq_dispatch(void *, const void *h) { vc_invoke(h); }
// @replaces Session::readData | Bloomberg::amqpprox::Session::readData\(
OBS void kq_readData(Session *, FlowType d)
{
    did(READ);
    g.dir = d;
}
// @replaces Session::handleData | Bloomberg::amqpprox::Session::handleData\(
OBS void kq_handleData(Session *, FlowType d)
{
    did(PROCESS);
    g.dir = d;
}
// @replaces Session::handleWriteData | Bloomberg::amqpprox::Session::handleWriteData\(
OBS void kq_write(Session *, FlowType d, Sock &sock, Buffer data)
{
    did(WRITE);
    g.dir  = d;
    g.sock = &sock;
    g.data = data;
}
// @replaces Session::disconnect | Bloomberg::amqpprox::Session::disconnect\(
OBS void kq_disconnect(Session *, bool f)
{
    did(DISCONNECT);
    g.forcible = f;
}
// @replaces Session::performDisconnectBoth | Bloomberg::amqpprox::Session::performDisconnectBoth\(
OBS void kq_both(Session *) { did(BOTH); }
// @replaces Session::establishConnection | Bloomberg::amqpprox::Session::establishConnection\(
OBS void kq_establish(Session *s)
{
    did(ESTABLISH);
    vc_ensure(!s->d_sessionState.getPaused(), "the session is no longer paused when it connects");
}
// @replaces Session::handleSessionError | Bloomberg::amqpprox::Session::handleSessionError\(
OBS void kq_serror(Session *, const char *, FlowType d, error_code)
{
    did(SERROR);
    g.dir = d;
}
// @replaces Session::handleConnectionError | Bloomberg::amqpprox::Session::handleConnectionError\(
OBS void kq_cerror(Session *, const char *, error_code, const std::shared_ptr<ConnectionManager> &m)
{
    did(CERROR);
    vc_ensure(m.get() == g.manager, "the chosen route is kept");
}
// @replaces Session::sendSyntheticData | Bloomberg::amqpprox::Session::sendSyntheticData\(
OBS void kq_flush(Session *) { did(FLUSH); }
// @replaces Session::attemptConnection | Bloomberg::amqpprox::Session::attemptConnection\(
OBS void kq_attempt(Session *, const std::shared_ptr<ConnectionManager> &m)
{
    did(ATTEMPT);
    vc_ensure(m.get() == g.manager, "the chosen route is kept");
}
// @replaces Session::attemptResolvedConnection | Bloomberg::amqpprox::Session::attemptResolvedConnection\(
OBS void kq_resolved(Session *, const std::shared_ptr<ConnectionManager> &m)
{
    did(RESOLVED);
    vc_ensure(m.get() == g.manager, "the chosen route is kept");
}
// @replaces Connector::synthesizeCustomCloseError | Bloomberg::amqpprox::Connector::synthesizeCustomCloseError\(
OBS void kq_close(Connector *, bool toClient, uint16_t code, std::string_view text, uint16_t cls, uint16_t mth)
{
    did(CLOSE);
    g.toClient = toClient;
    g.code     = code;
    g.cls      = cls;
    g.mth      = mth;
    textSent   = std::string(text);
}
// @replaces Connector::synthesizeClose | Bloomberg::amqpprox::Connector::synthesizeClose\(
OBS void kq_sclose(Connector *, bool toClient)
{
    did(CLOSE);
    g.toClient = toClient;
}
// @replaces Connector::synthesizeCloseError | Bloomberg::amqpprox::Connector::synthesizeCloseError\(
OBS void kq_cclose(Connector *, bool toClient)
{
    did(CLOSE);
    vc_ensure(toClient, "the client is told last");
}
// @replaces Connector::synthesizeProtocolHeader | Bloomberg::amqpprox::Connector::synthesizeProtocolHeader\(
OBS void kq_header(Connector *) { did(HEADER); }
// @replaces Connector::synthesizeProxyProtocolHeader | Bloomberg::amqpprox::Connector::synthesizeProxyProtocolHeader\(
OBS void kq_proxy(Connector *, const std::string &t)
{
    did(HEADER);
    vc_ensure(t == headerText, "the PROXY header of this session is sent");
}
// @replaces SessionState::hostname | SessionState::hostname\(
OBS std::string kq_hostname(const SessionState *, const Endpoint &)
{
    std::string s;
    vc_any_string(&s);
    return s;
}
// @replaces BufferHandle::release | BufferHandle::release\(
OBS void kq_release(BufferHandle *h)
{
    ++g.released;
    h->d_data   = nullptr;
    h->d_source = nullptr;
    h->d_size   = 0;
}
// @replaces BufferPool::acquireBuffer | Bloomberg::amqpprox::BufferPool::acquireBuffer\(
OBS void kq_acquire(BufferPool *, BufferHandle *h, size_t n)
{
    h->d_data   = vc_any_bytes(n);
    h->d_size   = n;
    h->d_source = nullptr;
}
// @replaces Frame::getMaxFrameSize | Bloomberg::amqpprox::Frame::getMaxFrameSize\(
OBS size_t kq_max()
{
    static size_t m;
    vc_assume(m >= 4096 && m <= 0xffffffff);
    return m;
}
// @replaces PacketProcessor::process | Bloomberg::amqpprox::PacketProcessor::process\(
OBS void kq_process(PacketProcessor *p, FlowType d, const Buffer &b)
{
    did(PROCESS);
    g.dir  = d;
    g.data = b;
    if (g.result == 1)
        throw std::runtime_error("refused");
    if (g.result == 2) {
        methods::Close m;
        m.d_replyCode   = g.closeCode;
        m.d_replyString = closeText;
        throw CloseError("closed by the broker", m);
    }
    p->d_remainingBuffer    = remaining;
    p->d_ingressWriteBuffer = inWrite;
    p->d_egressWriteBuffer  = outWrite;
}
// @replaces logException | \(anonymous namespace\)::logException\(
OBS void kq_logException(std::string_view, const SessionState &, FlowType) {}
// @replaces TlsUtil::augmentTlsError | TlsUtil::augmentTlsError\(
OBS std::string kq_augment(const error_code &) { return std::string(); }

// sockets are seen through their interface only
// @replaces socket async_read_some (completes) | MaybeSecureSocketAdaptor<.*::async_read_some<
OBS void kq_asyncRead(Sock *s, const void *, const void *h)
{
    did(READ);
    g.sock = s;
    error_code ec;
    outcome(ec, g.ec1);
    vc_invoke_pn(h, &ec, 0);
}
// @replaces socket available | MaybeSecureSocketAdaptor<.*::available\(
OBS size_t kq_available(Sock *s, error_code &ec)
{
    vc_ensure(s == g.sock, "asked of the socket that is read");
    outcome(ec, g.ec2);
    return g.avail;
}
// @replaces socket read_some | MaybeSecureSocketAdaptor<.*::read_some<
OBS size_t kq_readSome(Sock *s, const boost::asio::mutable_buffers_1 &b, error_code &ec)
{
    vc_ensure(s == g.sock, "data is read from that socket");
    BufferHandle &h = g.session->bufferHandle(g.dir);
    vc_ensure(b.data() == static_cast<char *>(h.d_data) + g.session->waterMark(g.dir), "behind the data that is there");
    vc_ensure(b.size() <= h.d_size - g.session->waterMark(g.dir), "and not beyond the end of the buffer");
    vc_assume(g.amount <= b.size());
    outcome(ec, g.ec3);
    return g.amount;
}
// @replaces socket async_write (completes) | boost::asio::async_write<
OBS void kq_asyncWrite(Sock &s, const boost::asio::mutable_buffers_1 &b, const void *h)
{
    did(WRITE);
    g.sock = &s;
    g.data = Buffer(b.data(), b.size());
    error_code ec;
    outcome(ec, g.ec1);
    vc_invoke_pn(h, &ec, b.size());
}
// @replaces socket close | MaybeSecureSocketAdaptor<.*::close\(
OBS void kq_sockClose(Sock *s, error_code &ec)
{
    g.closed += s == g.session->d_serverSocket.get() ? 1 : s == g.session->d_clientSocket.get() ? 16 : 256;
    outcome(ec, g.ec1);
}
// @replaces socket async_connect (completes) | MaybeSecureSocketAdaptor<.*::async_connect<
OBS void kq_connect(Sock *s, const Endpoint &e, const void *h)
{
    did(ENDPOINT);
    g.sock = s;
    error_code ec;
    outcome(ec, g.ec1);
    vc_invoke_p(h, &ec);
}
// @replaces socket local_endpoint | MaybeSecureSocketAdaptor<.*::local_endpoint\(
OBS Endpoint kq_local(const Sock *, error_code &ec)
{
    outcome(ec, g.ec2);
    return Endpoint();
}
// @replaces socket remote_endpoint | MaybeSecureSocketAdaptor<.*::remote_endpoint\(
OBS Endpoint kq_remote(const Sock *, error_code &ec)
{
    outcome(ec, 0);
    return Endpoint();
}
// @replaces socket setDefaultOptions | MaybeSecureSocketAdaptor<.*::setDefaultOptions\(
OBS void kq_options(Sock *, error_code &ec) { outcome(ec, g.ec3); }
// @replaces socket setSecure | MaybeSecureSocketAdaptor<.*::setSecure\(
OBS void kq_secure(Sock *s, bool on)
{
    vc_ensure(s == g.session->d_clientSocket.get() && on == g.backend->d_tlsEnabled, "the connection is secured exactly as configured for the backend");
    ++g.asked;
}
// @replaces socket async_handshake (completes) | MaybeSecureSocketAdaptor<.*::async_handshake<
OBS void kq_shake(Sock *s, uint32_t, const void *h)
{
    did(SHAKE);
    vc_ensure(s == g.session->d_clientSocket.get() && g.asked == 1, "after it is known whether to secure it");
    error_code ec;
    outcome(ec, g.result);
    vc_invoke_p(h, &ec);
}
// @replaces SessionState::setEgress | SessionState::setEgress\(
OBS void kq_egress(SessionState *, void *, Endpoint, Endpoint) {}
// @replaces ConnectionManager::getConnection | ConnectionManager::getConnection\(
OBS const Backend *kq_backend(const ConnectionManager *m, uint64_t retry)
{
    vc_ensure(m == g.manager && retry == g.session->d_egressRetryCounter, "the backend of the current attempt is used");
    return g.backend;
}
// @replaces getConnectionName | \(anonymous namespace\)::getConnectionName\(
OBS std::string kq_name(const Connector &) { return std::string(); }
// @replaces Session::getProxyProtocolHeader | Bloomberg::amqpprox::Session::getProxyProtocolHeader\(
OBS std::string kq_proxyText(Session *, const Backend *b)
{
    vc_ensure(b == g.backend, "for the backend connected to");
    return headerText;
}
// @replaces text of an address | operator<< ?<char, std::char_traits<char> >\(std::basic_ostream<char, std::char_traits<char> >&, boost::asio::ip::address const&\)
OBS std::ostream &kq_address(std::ostream &os, const boost::asio::ip::address &a)
{
    vc_ensure(a == g.session->d_sessionState.d_ingressRemoteEndpoint.address(), "the source is the client's address");
    return os << addressText;
}
// @replaces DNSResolver::resolve (completes) | DNSResolver::resolve<
OBS void kq_resolve(void *, std::string_view host, std::string_view port, const void *h)
{
    did(READ);
    hostAsked = std::string(host);
    portAsked = std::string(port);
    error_code ec;
    outcome(ec, g.ec1);
    vc_invoke_pp(h, &ec, &found);
}
// @replaces keeping all addresses | std::vector<boost::asio::ip::basic_endpoint<boost::asio::ip::tcp>, .*>::operator=\(
OBS Endpoints &kq_keepAll(Endpoints *to, const Endpoints &from)
{
    g.keptAll = to == &g.session->d_resolvedEndpoints && from._M_impl._M_start == found._M_impl._M_start && from._M_impl._M_finish == found._M_impl._M_finish;
    return *to;
}
// @replaces keeping one address | std::vector<boost::asio::ip::basic_endpoint<boost::asio::ip::tcp>, .*>::push_back\(
OBS void kq_keepOne(Endpoints *to, const Endpoint &one)
{
    g.keptFirst = to == &g.session->d_resolvedEndpoints && to->_M_impl._M_start == to->_M_impl._M_finish && &one == found._M_impl._M_start;
}
// @replaces Session::attemptEndpointConnection | Bloomberg::amqpprox::Session::attemptEndpointConnection\(
OBS void kq_endpoint(Session *, Endpoint e, const std::shared_ptr<ConnectionManager> &m)
{
    did(ENDPOINT);
    vc_ensure(m.get() == g.manager, "the chosen route is kept");
    const uint32_t *a = reinterpret_cast<const uint32_t *>(&e), *b = static_cast<const uint32_t *>(g.wanted);
    vc_ensure((a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]) & (a[3] == b[3]) & (a[4] == b[4]) & (a[5] == b[5]) & (a[6] == b[6]), "the next address found is tried");
}
// @replaces FieldTable::findFieldValue | FieldTable::findFieldValue\(
OBS bool kq_find(const FieldTable *t, FieldValue *fv, const std::string &key)
{
    ++g.asked;
    if (g.asked == 1) {
        vc_ensure(t == g.props && key == "capabilities", "the client's capabilities are looked at");
        if (g.caps == 1)
            *fv = FieldValue('F', std::shared_ptr<FieldTable>(std::shared_ptr<void>(), g.capTable));
        if (g.caps == 2)
            *fv = FieldValue('S', std::string());
        return g.caps != 0;
    }
    vc_ensure(t == g.capTable && key == "authentication_failure_close", "whether it understands a refusal");
    if (g.cap == 1)
        *fv = FieldValue('t', g.capable);
    if (g.cap == 2)
        *fv = FieldValue('S', std::string());
    return g.cap != 0;
}
// @replaces ~FieldValue | FieldValue::~FieldValue\(
OBS void kq_unvalue(FieldValue *) {}

// @contract Session::disconnectUnauthClient: the client learns why if it said it can, and is disconnected | Session::disconnectUnauthClient
OBS void c_unauth(Session &s, Sock &server, Sock &client, const FieldTable &props, FieldTable &capTable, uint8_t caps, uint8_t cap, bool capable)
{
    begin(s, server, client);
    vc_assume(caps <= 2 && cap <= 2);
    g.props    = &props;
    g.capTable = &capTable;
    g.caps     = caps;
    g.cap      = cap;
    g.capable  = capable;
    std::string reason;
    vc_any_string(&reason);
    s.disconnectUnauthClient(props, reason);
    vc_ensure(s.d_sessionState.getAuthDeniedConnection() && g.forcible, "denied, and disconnected");
    if (caps == 1 && cap == 1 && capable) {
        vc_ensure(g.trace == 0x894 && g.toClient && g.code == 403 && g.cls == 10 && g.mth == 11, "access refused, in reply to its start-ok, then the end");
        vc_ensure(textSent == std::string(std::string_view(reason).substr(0, reason.size() > 255 ? 255 : reason.size())), "with the reason given, as far as it fits");
    }
    else
        vc_ensure(g.trace == DISCONNECT, "nothing is sent");
}

// @contract Session::attemptResolvedConnection: each address once, in order, then the next backend | Session::attemptResolvedConnection
OBS void c_resolved(Session &s, Sock &server, Sock &client, uint8_t &manager, uint64_t n)
{
    begin(s, server, client);
    g.manager = &manager;
    vc_assume(n <= 0xffffff);
    Endpoint *all = static_cast<Endpoint *>(vc_any_bytes(n * sizeof(Endpoint)));
    s.d_resolvedEndpoints._M_impl._M_start  = all;
    s.d_resolvedEndpoints._M_impl._M_finish = s.d_resolvedEndpoints._M_impl._M_end_of_storage = all + n;
    const auto i = s.d_resolvedEndpointsIndex;
    const auto retry = s.d_egressRetryCounter;
    g.wanted     = all + i;
    const std::shared_ptr<ConnectionManager> m(std::shared_ptr<void>(), reinterpret_cast<ConnectionManager *>(&manager));
    s.attemptResolvedConnection(m);
    if (i < n)
        vc_ensure(g.trace == ENDPOINT && s.d_resolvedEndpointsIndex == i + 1 && s.d_egressRetryCounter == retry && s.d_resolvedEndpoints.size() == n, "one address, and not again");
    else
        vc_ensure(g.trace == ATTEMPT && s.d_resolvedEndpoints.empty() && s.d_resolvedEndpointsIndex == 0 && s.d_egressRetryCounter == retry + 1, "no address left: the next backend is tried");
}

// @contract Session::handleData: what the processor leaves over is kept, what it passes is written, the rest of the session follows its state | Session::handleData(FlowType)
OBS void c_handleData(Session &s, Sock &server, Sock &client, bool ingress, uint64_t cap, uint64_t w, uint64_t at, uint64_t r, uint64_t j, uint8_t result)
{
    begin(s, server, client);
    const FlowType d = ingress ? FlowType::INGRESS : FlowType::EGRESS;
    vc_assume(cap <= 0xffffffff && w <= cap && at <= w && r == w - at && result <= 2);
    uint8_t      *data = static_cast<uint8_t *>(vc_any_bytes(cap));
    BufferHandle &h = s.bufferHandle(d);
    h.d_data        = data;
    h.d_size        = cap;
    s.waterMark(d)  = w;
    const std::size_t otherMark = s.waterMark(ingress ? FlowType::EGRESS : FlowType::INGRESS);
    g.result        = result;
    g.closeCode     = vc_any_u16();
    vc_any_string(&closeText);
    remaining = r ? Buffer(data + at, r) : Buffer();
    inWrite   = vc_any_bool() ? Buffer(vc_any_bytes(10), 10) : Buffer();
    outWrite  = vc_any_bool() ? Buffer(data, at) : Buffer();
    vc_assume(inWrite.size() == 0 || outWrite.size() == 0);
    const uint8_t octet = j < r ? data[at + j] : 0;
    s.handleData(d);
    if (result != 0) {
        vc_ensure(g.trace == (result == 1 ? 0x34 : 0x3894) && g.forcible, "a refused message ends the session, nothing is passed on");
        if (result == 2)
            vc_ensure(g.toClient && g.code == g.closeCode && textSent == closeText, "the client gets the broker's reason");
        return;
    }
    vc_ensure(s.waterMark(d) == r && s.waterMark(ingress ? FlowType::EGRESS : FlowType::INGRESS) == otherMark, "what is left over is kept");
    if (r) {
        vc_ensure(vc_room(h.d_data) >= h.d_size && h.d_size >= r && h.d_data != data, "in a buffer of its own");
        if (j < r)
            vc_ensure(static_cast<uint8_t *>(h.d_data)[j] == octet, "unchanged");
        vc_ensure(s.bufferWriteDataHandle(d).d_data == data, "and the data being written stays");
    }
    else
        vc_ensure(h.d_data == data, "data being written stays");
    const bool     open = s.d_connector.d_state == S::OPEN;
    const uint64_t then = s.d_connector.d_state == S::CLOSED ? BOTH : s.d_connector.d_state == S::ERROR ? DISCONNECT : 0;
    uint64_t       want = inWrite.size() || outWrite.size() ? 0x32 : 0x31;
    vc_ensure(g.trace == (then ? want * 16 + then : want), "one write or, with nothing to write, one read follows; a closed or failed session ends");
    if (inWrite.size())
        vc_ensure(g.sock == &server && g.data.originalPtr() == inWrite.originalPtr() && g.data.size() == inWrite.size() && g.data.offset() == 0 && (g.dir == FlowType::EGRESS) == open,
                  "to the client, exactly what was passed");
    else if (outWrite.size())
        vc_ensure(g.sock == &client && g.data.originalPtr() == outWrite.originalPtr() && g.data.size() == outWrite.size() && g.data.offset() == 0 && (g.dir == FlowType::INGRESS) == open,
                  "to the broker, exactly what was passed");
    else
        vc_ensure(g.dir == d, "of the same side");
}

// @contract Session::readData: received data is kept in order and processed unless the client is paused | Session::readData(FlowType)
OBS void c_readData(Session &s, Sock &server, Sock &client, bool ingress, uint64_t cap, uint64_t w, uint8_t e1, uint8_t e2, uint8_t e3, uint64_t avail, uint64_t n)
{
    begin(s, server, client);
    const FlowType d = ingress ? FlowType::INGRESS : FlowType::EGRESS;
    g.dir            = d;
    vc_assume(cap <= 0xffffffff && w <= cap && avail <= 0xffffffff);
    vc_assume(e1 == 0 || e1 == 3);
    vc_assume(e2 == 0 || e2 == 3);
    vc_assume(e3 == 0 || e3 == 1 || e3 == 3);
    uint8_t      *data = static_cast<uint8_t *>(vc_any_bytes(cap));
    BufferHandle &h = s.bufferHandle(d);
    h.d_data        = data;
    h.d_size        = cap;
    s.waterMark(d)  = w;
    g.ec1           = e1;
    g.ec2           = e2;
    g.ec3           = e3;
    g.avail         = avail;
    g.amount        = n;
    const bool held = s.d_ingressHeldWhilePaused, paused = s.d_sessionState.getPaused();
    s.readData(d);
    vc_ensure(g.sock == (ingress ? &server : &client), "that side is read");
    if (e1 || e2) {
        vc_ensure(g.trace == 0x17 && g.dir == d && s.waterMark(d) == w, "an error is handled");
        return;
    }
    if (w == 0)
        vc_ensure(h.d_size >= 1 && h.d_size >= avail, "there is room for what is there");
    else
        vc_ensure(h.d_data == data && h.d_size == cap, "data that is there stays there");
    vc_ensure(s.waterMark(d) == (e3 == 0 ? w + n : w), "exactly what was read is counted");
    if (e3 == 0 && ingress && paused)
        vc_ensure(g.trace == 0x1 && s.d_ingressHeldWhilePaused, "data of a paused client is held");
    else {
        vc_ensure(g.trace == (e3 == 0 ? 0x13 : e3 == 1 ? 0x11 : 0x17) && g.dir == d, "data is processed, once");
        vc_ensure(s.d_ingressHeldWhilePaused == held, "nothing is held");
    }
}

// @contract Session::handleWriteData: exactly the given data is written, then reading goes on | Session::handleWriteData(FlowType, MaybeSecureSocketAdaptor, Buffer)
OBS void c_handleWrite(Session &s, Sock &server, Sock &client, bool ingress, bool toServer, uint64_t n, uint8_t e1)
{
    begin(s, server, client);
    const FlowType d = ingress ? FlowType::INGRESS : FlowType::EGRESS;
    vc_assume(e1 == 0 || e1 == 3);
    g.ec1 = e1;
    void    *p = vc_any_bytes(n);
    uint64_t t[10], u[10];
    s.d_sessionState.getTotals(t, t + 1, t + 2, t + 3, t + 4, t + 5, t + 6, t + 7, t + 8, t + 9);
    const size_t mark = s.waterMark(d);
    s.handleWriteData(d, toServer ? server : client, Buffer(p, n));
    vc_ensure(g.sock == (toServer ? &server : &client) && g.data.originalPtr() == p && g.data.size() == n, "to that socket");
    vc_ensure(g.trace == (e1 ? 0x27 : 0x21) && g.dir == d, "then an error is handled or reading goes on");
    vc_ensure(mark != 0 ? g.released == 0 : g.released == 2, "buffers are given back only when no data is left in them");
    s.d_sessionState.getTotals(u, u + 1, u + 2, u + 3, u + 4, u + 5, u + 6, u + 7, u + 8, u + 9);
    vc_ensure((u[4] == t[4] + (ingress && !e1)) & (u[9] == t[9] + (!ingress && !e1)), "its latency is counted once");
    vc_ensure((u[0] == t[0]) & (u[1] == t[1]) & (u[2] == t[2]) & (u[5] == t[5]) & (u[6] == t[6]) & (u[7] == t[7]), "the totals of traffic are not changed by writing");
}

// @contract Session::sendSyntheticData: what the connector has ready is written to its side, once | Session::sendSyntheticData()
OBS void c_synthetic(Session &s, Sock &server, Sock &client, uint64_t n)
{
    begin(s, server, client);
    void *p                = vc_any_bytes(n);
    s.d_connector.d_buffer = Buffer(p, n);
    const bool in          = s.d_connector.d_sendToIngressSide, error = s.d_connector.d_state == S::ERROR;
    s.sendSyntheticData();
    vc_ensure(g.trace == (n ? (error ? 0x24 : 0x2) : (error ? 0x4 : 0)), "written once if there is any; a failed session ends");
    if (n) {
        vc_ensure(g.sock == (in ? &server : &client) && g.data.originalPtr() == p && g.data.size() == n, "to the side it is for");
        vc_ensure(s.d_connector.outBuffer().size() == 0, "and not again");
    }
}

// @contract Session::pause: marks the session, nothing else | Session::pause()
OBS void c_pause(Session &s, Sock &server, Sock &client)
{
    begin(s, server, client);
    const bool ready = s.d_sessionState.getReadyToConnectOnUnpause();
    s.pause();
    vc_ensure(s.d_sessionState.getPaused() && s.d_sessionState.getReadyToConnectOnUnpause() == ready && g.trace == 0, "paused");
}

// @contract Session::unpause: a waiting session connects, once, and goes on reading; any other paused session ends | Session::unpause()
OBS void c_unpause(Session &s, Sock &server, Sock &client)
{
    begin(s, server, client);
    const bool paused = s.d_sessionState.getPaused(), ready = s.d_sessionState.getReadyToConnectOnUnpause(), held = s.d_ingressHeldWhilePaused;
    s.unpause();
    if (!paused)
        vc_ensure(g.trace == 0 && !s.d_sessionState.getPaused() && s.d_sessionState.getReadyToConnectOnUnpause() == ready, "a session that is not paused is left alone");
    else if (!ready)
        vc_ensure(g.trace == DISCONNECT && g.forcible, "a session that was connected when paused ends");
    else {
        vc_ensure(!s.d_sessionState.getPaused() && !s.d_sessionState.getReadyToConnectOnUnpause(), "it no longer waits");
        vc_ensure(g.trace == (held ? 0x63 : 0x6), "it connects once and takes up the data that was held");
        vc_ensure(!held || g.dir == FlowType::INGRESS, "of the client");
        vc_ensure(!s.d_ingressHeldWhilePaused, "once");
    }
}

// @contract Session::attemptConnection: a paused or ended session does not connect; without backend it ends; otherwise the backend of this attempt is resolved | Session::attemptConnection
OBS void c_attempt(Session &s, Sock &server, Sock &client, const Backend &b, uint8_t &manager, bool have, uint8_t e1, uint64_t n)
{
    begin(s, server, client);
    g.manager = &manager;
    g.backend = have ? &b : nullptr;
    vc_assume(e1 == 0 || e1 == 3);
    vc_assume(n <= 0xffffff);
    g.ec1         = e1;
    Endpoint *all = static_cast<Endpoint *>(vc_any_bytes(n * sizeof(Endpoint)));
    found._M_impl._M_start  = all;
    const uint64_t old      = vc_any_u64();
    vc_assume(old <= 0xffffff);
    s.d_resolvedEndpoints._M_impl._M_start  = static_cast<Endpoint *>(vc_any_bytes(old * sizeof(Endpoint)));
    s.d_resolvedEndpoints._M_impl._M_finish = s.d_resolvedEndpoints._M_impl._M_end_of_storage = s.d_resolvedEndpoints._M_impl._M_start + old;
    found._M_impl._M_finish = found._M_impl._M_end_of_storage = all + n;
    const std::shared_ptr<ConnectionManager> m(std::shared_ptr<void>(), reinterpret_cast<ConnectionManager *>(&manager));
    const bool     paused = s.d_sessionState.getPaused(), over = s.d_sessionState.getDisconnectType() != D::NOT_DISCONNECTED;
    const auto     retry = s.d_egressRetryCounter;
    s.attemptConnection(m);
    if (paused || over || !have)
        vc_ensure(s.d_egressRetryCounter == retry, "no attempt is counted");
    if (paused || over)
        vc_ensure(g.trace == 0, "nothing happens");
    else if (!have)
        vc_ensure(g.trace == DISCONNECT && g.forcible, "no backend left: the session ends");
    else {
        vc_ensure(hostAsked == (b.d_dnsBasedEntry ? b.d_host : b.d_ip) && portAsked == std::to_string((int)b.d_port), "the backend's address is looked up");
        if (e1 == 0 && n > 0) {
            vc_ensure(g.trace == READ * 16 + RESOLVED && s.d_egressRetryCounter == retry && s.d_resolvedEndpointsIndex == 0, "the addresses found are tried from the first");
            vc_ensure(b.d_dnsBasedEntry ? g.keptAll && !g.keptFirst : g.keptFirst && !g.keptAll, "all of them for a name, one for an address");
        }
        else
            vc_ensure(g.trace == READ * 16 + ATTEMPT && s.d_egressRetryCounter == retry + 1, "none: the next backend is tried");
    }
}

// @contract Session::attemptEndpointConnection: the broker side is secured as configured, the PROXY header goes first, then the protocol header | Session::attemptEndpointConnection
OBS void c_endpoint(Session &s, Sock &server, Sock &client, const Backend &b, uint8_t &manager, uint8_t e1, uint8_t e2, uint8_t e3, uint8_t shake, uint64_t n)
{
    begin(s, server, client);
    g.manager = &manager;
    g.backend = &b;
    const std::shared_ptr<ConnectionManager> m(std::shared_ptr<void>(), reinterpret_cast<ConnectionManager *>(&manager));
    vc_assume(e1 == 0 || e1 == 3);
    vc_assume(e2 == 0 || e2 == 3);
    vc_assume(e3 == 0 || e3 == 3);
    vc_assume(shake == 0 || shake == 3);
    g.ec1    = e1;
    g.ec2    = e2;
    g.ec3    = e3;
    g.result = shake;
    vc_any_string(&headerText);
    void *p                = vc_any_bytes(n);
    s.d_connector.d_buffer = Buffer(p, n);
    Endpoint e;
    s.attemptEndpointConnection(e, m);
    vc_ensure(g.sock != &server, "the client's socket is not used");
    if (e1 || e2 || e3) {
        vc_ensure(g.trace == 0xcd, "a failed connection is reported once, nothing is sent");
        return;
    }
    const uint64_t first = b.d_proxyProtocolEnabled ? 0xce2 : 0xc;
    vc_ensure(g.trace == (shake ? first * 256 + 0xf7 : first * 4096 + 0xfe2), "PROXY header if configured, then TLS if configured, then the protocol header");
    if (!shake)
        vc_ensure(g.sock == &client && g.dir == FlowType::EGRESS && g.data.originalPtr() == p && g.data.size() == n, "to the broker");
}

// @contract Session::getProxyProtocolHeader: client and backend, as PROXY protocol version 1 text | Session::getProxyProtocolHeader
OBS void c_proxyHeader(Session &s, Sock &server, Sock &client, const Backend &b)
{
    begin(s, server, client);
    vc_any_string(&addressText);
    const std::string t = s.getProxyProtocolHeader(&b);
    vc_ensure(t == "PROXY TCP4 " + addressText + " " + b.d_ip + " " + std::to_string((int)s.d_sessionState.d_ingressRemoteEndpoint.port()) + " " + std::to_string((int)b.d_port) + "\r\n",
              "source and destination address, source and destination port");
}

// @contract Session::handleConnectionError: the next address is tried | Session::handleConnectionError
OBS void c_connectionError(Session &s, Sock &server, Sock &client, const Backend &b, uint8_t &manager, bool have)
{
    begin(s, server, client);
    g.manager = &manager;
    g.backend = have ? &b : nullptr;
    const std::shared_ptr<ConnectionManager> m(std::shared_ptr<void>(), reinterpret_cast<ConnectionManager *>(&manager));
    error_code ec;
    s.handleConnectionError("test", ec, m);
    vc_ensure(g.trace == RESOLVED, "once, and nothing else happens");
}

// @contract Session::disconnect: forcibly both sides at once, otherwise by closing the client | Session::disconnect(bool)
OBS void c_disconnect(Session &s, Sock &server, Sock &client, bool forcible)
{
    begin(s, server, client);
    const D d = s.d_sessionState.getDisconnectType();
    s.disconnect(forcible);
    if (forcible)
        vc_ensure(g.trace == BOTH && s.d_sessionState.getDisconnectType() == D::DISCONNECTED_PROXY, "both sides are disconnected, by the proxy");
    else
        vc_ensure(g.trace == 0x89 && g.toClient && s.d_sessionState.getDisconnectType() == d, "the client is sent a close");
}

// @contract Session::handleSessionError: the side that failed is recorded, once, and both sockets are closed | Session::handleSessionError
OBS void c_sessionError(Session &s, Sock &server, Sock &client, bool ingress, uint8_t e)
{
    begin(s, server, client);
    vc_assume(e == 2 || e == 3);
    error_code ec;
    outcome(ec, e);
    const D d     = s.d_sessionState.getDisconnectType();
    const S state = s.d_connector.d_state;
    s.handleSessionError("test", ingress ? FlowType::INGRESS : FlowType::EGRESS, ec);
    const D now = s.d_sessionState.getDisconnectType();
    if (state == S::CLIENT_CLOSE_SENT && ingress) {
        vc_ensure(g.trace == 0x8989 && !g.toClient && now == d && g.closed == 0, "a client that goes away while being closed leaves the broker to be closed");
        return;
    }
    vc_ensure(g.trace == 0, "nothing is sent");
    vc_ensure(now == (state == S::CLOSED ? D::DISCONNECTED_CLEANLY : d != D::NOT_DISCONNECTED ? d : ingress ? D::DISCONNECTED_CLIENT : D::DISCONNECTED_SERVER), "who ended it");
    vc_ensure(g.closed == (e == 2 ? 0 : 17), "both sockets are closed unless that is under way");
}
