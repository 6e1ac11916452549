// Contracts of HttpAuthIntercept: each step either goes on with the next one or denies, and only an answer that was received and understood is passed on.
#include "vc.h"
#include <amqpprox_httpauthintercept.h>
#include <authrequest.pb.h>
#include <authresponse.pb.h>
#include <sasl.pb.h>
#include <boost/beast/core.hpp>
#include <boost/beast/http.hpp>
#include <memory>
#include <new>

using namespace Bloomberg::amqpprox;
namespace beast = boost::beast;
using boost::system::error_code;
typedef beast::http::request<beast::http::string_body>  Request;
typedef beast::http::response<beast::http::string_body> Response;

namespace {
struct Ghost {
    int         answers, resolves, connects, writes, reads, timeouts;
    const void *answer;              // the message handed to the session
    const void *parsedInto, *resultSetOn;
    int         parsedResult, resultSet;
    bool        serialized, parsed, bodySet, hostRight, serviceRight;
    unsigned    status;
    HttpAuthIntercept *self;
    const void *stream, *question;
    int         prepared;
    bool        targetRight;
} g;
std::string text, body, sent; // a reason; what is received or written; what is sent

struct Category : boost::system::error_category {
    const char *name() const noexcept override { return "c"; }
    std::string message(int) const override { return text; }
    bool        failed(int v) const noexcept override { return v != 0; }
};

int answered()
{
    // what the message handed over says: as received, as set, or the default of a new message
    if (g.answer == g.parsedInto)
        return g.parsedResult;
    return g.answer == g.resultSetOn ? g.resultSet : int(authproto::AuthResponse::ALLOW);
}

void respond(const authproto::AuthResponse &r)
{
    ++g.answers;
    g.answer = &r;
}

template <typename T> std::shared_ptr<T> alias(void *p) { return std::shared_ptr<T>(std::shared_ptr<void>(), static_cast<T *>(p)); }

void begin(HttpAuthIntercept &h)
{
    g      = Ghost();
    g.self = &h;
    vc_any_string(&text);
    vc_any_string(&body);
}

__attribute__((noinline)) void ask(HttpAuthIntercept &h, const void *question, const HttpAuthIntercept::ReceiveResponseCb &cb)
{
    h.HttpAuthIntercept::authenticate(*static_cast<const authproto::AuthRequest *>(question), cb);
}

bool denied() { return g.answers == 1 && answered() == authproto::AuthResponse::DENY; }
}

// @replaces AuthResponse() | authproto::AuthResponse::~?AuthResponse\(
OBS void kh_resp(void *, const void *) {}
// @replaces AuthRequest() | authproto::AuthRequest::~?AuthRequest\(
OBS void kh_req(void *, const void *) {}
// @replaces AuthResponse::set_result | authproto::AuthResponse::set_result\(
OBS void kh_setResult(void *p, int r)
{
    g.resultSetOn = p;
    g.resultSet   = r;
}
// @replaces AuthResponse::set_reason | authproto::AuthResponse::set_reason<
OBS void kh_setReason(void *, const void *) {}
// @replaces AuthResponse::result | authproto::AuthResponse::result\(\) const
OBS int kh_result(const void *p)
{
    const void *had = g.answer;
    g.answer        = p;
    const int r     = answered();
    g.answer        = had;
    return r;
}
// @replaces AuthResponse::reason | authproto::AuthResponse::reason\(\) const
OBS const std::string &kh_reason(const void *) { return text; }
// @replaces AuthResponse::has_authdata | authproto::AuthResponse::has_authdata\(\) const
OBS bool kh_has(const void *) { return vc_any_bool(); }
// @replaces AuthResponse::authdata | authproto::AuthResponse::authdata\(\) const
OBS const void *kh_data(const void *p) { return p; }
// @replaces SASL::authmechanism | authproto::SASL::authmechanism\(\) const
OBS const std::string &kh_mech(const void *) { return text; }
// @replaces ParseFromString | google::protobuf::MessageLite::ParseFromString\(
OBS bool kh_parse(void *p, const std::string &from)
{
    vc_ensure(&from == &body, "what is parsed is the body of the response");
    g.parsedInto   = p;
    g.parsedResult = (int)vc_any_u32();
    g.parsed       = vc_any_bool();
    return g.parsed;
}
// @replaces SerializeToString | google::protobuf::MessageLite::SerializeToString\(
OBS bool kh_serialize(const void *, std::string *out)
{
    *out         = body;
    g.serialized = vc_any_bool();
    return g.serialized;
}

// @replaces message() | boost::beast::http::message<.*>::message\(
OBS void kh_message(void *, const void *) {}
// @replaces message::body | boost::beast::http::message<.*>::body\(\)
OBS std::string &kh_body(void *) { return g.question ? sent : body; }
// @replaces header::version | boost::beast::http::header<.*>::version\(unsigned
OBS void kh_version(void *, unsigned) {}
// @replaces header::method | boost::beast::http::header<.*>::method\(boost::beast::http::verb\)
OBS void kh_method(void *, unsigned v) { vc_ensure(v == (unsigned)beast::http::verb::post, "the question is posted"); }
// @replaces header::target | boost::beast::http::header<.*>::target\(
OBS void kh_target(void *, const char *to, size_t length) { g.targetRight = std::string(to, length) == g.self->d_target; }
// @replaces fields::set | boost::beast::http::basic_fields<.*>::set\(boost::beast::http::field
OBS void kh_set(void *) {}
// @replaces prepare_payload | boost::beast::http::message<.*>::prepare_payload\(
OBS void kh_prepare(void *) { ++g.prepared; }
// @replaces header::result | boost::beast::http::header<.*>::result\(\) const
OBS unsigned kh_status(const void *) { return (unsigned)beast::http::int_to_status(g.status); }
// @replaces header::result_int | boost::beast::http::header<.*>::result_int\(\) const
OBS unsigned kh_statusInt(const void *) { return g.status; }
// @replaces DNSResolver::resolve | Bloomberg::amqpprox::DNSResolver::resolve<
OBS void kh_resolve(void *, std::string_view host, std::string_view service, const void *)
{
    ++g.resolves;
    g.hostRight    = std::string(host) == g.self->d_hostname;
    g.serviceRight = std::string(service) == g.self->d_port;
}
// @replaces make_strand | boost::asio::make_strand<
OBS void kh_strand(void *, const void *) {}
// @replaces make_shared stream | std::make_shared<boost::beast::basic_stream
OBS std::shared_ptr<beast::tcp_stream> kh_stream(const void *) { return alias<beast::tcp_stream>(const_cast<void *>(g.stream)); }
// @replaces expires_after | boost::beast::basic_stream<.*>::expires_after\(
OBS void kh_expires(void *, int64_t ns)
{
    ++g.timeouts;
    vc_ensure(ns > 0, "a time limit is set");
}
// @replaces async_connect | boost::beast::basic_stream<.*>::async_connect<
OBS void kh_connect(void *) { ++g.connects; }
// @replaces async_write | boost::beast::http::async_write<
OBS void kh_write(void *) { ++g.writes; }
// @replaces async_read | boost::beast::http::async_read<
OBS void kh_read(void *) { ++g.reads; }
// @replaces socket | boost::beast::basic_stream<.*>::socket\(\)
OBS void *kh_socket(void *p) { return p; }
// @replaces shutdown | boost::asio::basic_socket<.*>::shutdown\(
OBS void kh_shutdown(void *, int, error_code &ec) { (void)ec; }
// @replaces shared_from_this | std::enable_shared_from_this<Bloomberg::amqpprox::HttpAuthIntercept>::shared_from_this\(\)
OBS std::shared_ptr<HttpAuthIntercept> kh_self(void *) { return alias<HttpAuthIntercept>(g.self); }

// @replaces make_error_code | make_error_code\(
OBS error_code kh_code(int v) { return error_code(v, boost::system::system_category()); }
// @replaces whether an error is a particular one (any may be) | boost::system::operator==\(boost::system::error_code const&, boost::system::error_co
OBS bool kh_same(const error_code &a, const void *) { return a.value() != 0 && vc_any_bool(); }

// @contract HttpAuthIntercept::onRead: only an answer received with success allows, everything else denies | HttpAuthIntercept::onRead
OBS void c_onRead(HttpAuthIntercept &h, uint8_t &stream, uint8_t &response, uint32_t status, bool fails)
{
    begin(h);
    vc_assume(status >= 100 && status <= 999);
    g.status = status;
    Category         category;
    const error_code ec(fails ? 1 : 0, category);
    HttpAuthIntercept::ReceiveResponseCb cb(respond);
    h.onRead(nullptr, alias<beast::tcp_stream>(&stream), alias<Response>(&response), cb, ec, 0);
    vc_ensure(g.answers == 1, "exactly one answer is given");
    const bool understood = !fails && g.parsedInto && g.parsed;
    const bool success    = status >= 200 && status <= 299;
    if (answered() == authproto::AuthResponse::ALLOW)
        vc_ensure(understood && success && g.answer == g.parsedInto, "only an answer received with success allows");
    if (understood && (success || g.parsedResult == authproto::AuthResponse::DENY))
        vc_ensure(g.answer == g.parsedInto, "an answer of the service is passed on as it is");
    else
        vc_ensure(answered() == authproto::AuthResponse::DENY || (understood && g.parsedResult != authproto::AuthResponse::ALLOW), "everything else denies");
}

// @contract HttpAuthIntercept::onWrite: reads the answer, or denies | HttpAuthIntercept::onWrite
OBS void c_onWrite(HttpAuthIntercept &h, uint8_t &stream, uint8_t &request, bool fails)
{
    begin(h);
    Category         category;
    const error_code ec(fails ? 1 : 0, category);
    HttpAuthIntercept::ReceiveResponseCb cb(respond);
    h.onWrite(alias<beast::tcp_stream>(&stream), alias<Request>(&request), cb, ec, 0);
    if (fails)
        vc_ensure(denied() && g.reads == 0, "a question that could not be sent denies");
    else
        vc_ensure(g.answers == 0 && g.reads == 1, "the answer is waited for, once");
}

// @contract HttpAuthIntercept::onConnect: sends the question with a time limit, or denies | HttpAuthIntercept::onConnect
OBS void c_onConnect(HttpAuthIntercept &h, uint8_t &stream, uint8_t &request, bool fails)
{
    begin(h);
    Category         category;
    const error_code ec(fails ? 1 : 0, category);
    HttpAuthIntercept::ReceiveResponseCb cb(respond);
    h.onConnect(alias<beast::tcp_stream>(&stream), alias<Request>(&request), cb, ec, boost::asio::ip::tcp::endpoint());
    if (fails)
        vc_ensure(denied() && g.writes == 0, "a service that cannot be reached denies");
    else
        vc_ensure(g.answers == 0 && g.writes == 1 && g.timeouts == 1, "the question is sent, once, with a time limit");
}

// @contract HttpAuthIntercept::onResolve: connects with a time limit, or denies | HttpAuthIntercept::onResolve
OBS void c_onResolve(HttpAuthIntercept &h, uint8_t &stream, uint8_t &request, bool fails)
{
    begin(h);
    g.stream = &stream;
    Category         category;
    const error_code ec(fails ? 1 : 0, category);
    HttpAuthIntercept::ReceiveResponseCb cb(respond);
    h.onResolve(alias<Request>(&request), cb, ec, std::vector<boost::asio::ip::tcp::endpoint>());
    if (fails)
        vc_ensure(denied() && g.connects == 0, "a service that cannot be found denies");
    else
        vc_ensure(g.answers == 0 && g.connects == 1 && g.timeouts == 1, "the service is connected, once, with a time limit");
}

// @contract HttpAuthIntercept::authenticate: asks the configured service, or denies | HttpAuthIntercept::authenticate
OBS void c_authenticate(HttpAuthIntercept &h, uint8_t &question)
{
    begin(h);
    g.question = &question;
    HttpAuthIntercept::ReceiveResponseCb cb(respond);
    ask(h, &question, cb);
    if (g.serialized)
        vc_ensure(g.answers == 0 && g.resolves == 1 && g.hostRight && g.serviceRight && sent == body && g.prepared == 1 && g.targetRight, "the question goes to the configured service");
    else
        vc_ensure(denied() && g.resolves == 0, "a question that cannot be written denies");
}
