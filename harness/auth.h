// A real HttpAuthIntercept against a scripted service on the loopback interface.
#pragma once
#include "harness.h"
#include <amqpprox_dnsresolver.h>
#include <amqpprox_httpauthintercept.h>
#include <authrequest.pb.h>
#include <authresponse.pb.h>
#include <boost/asio.hpp>

namespace auth {
using namespace Bloomberg::amqpprox;
using boost::asio::ip::tcp;

struct Service {
    boost::asio::io_context &io;
    tcp::acceptor            acceptor;
    tcp::socket              peer;
    std::string              got, reply;
    size_t                   cut = 0, sent = 0;
    bool                     readFirst = true, complete = false;
    std::array<char, 4096>   chunk;

    explicit Service(boost::asio::io_context &i) : io(i), acceptor(i, tcp::endpoint(boost::asio::ip::address_v4::loopback(), 0)), peer(i) {}

    void start()
    {
        acceptor.async_accept(peer, [this](const boost::system::error_code &ec) {
            if (ec) return;
            if (readFirst) read();
            else write();
        });
    }
    bool whole()
    {
        size_t end = got.find("\r\n\r\n");
        if (end == std::string::npos) return false;
        std::string head = got.substr(0, end);
        for (auto &c : head) c = (char)tolower(c);
        size_t cl = head.find("content-length:");
        size_t n  = cl == std::string::npos ? 0 : strtoull(head.c_str() + cl + 15, nullptr, 10);
        return got.size() >= end + 4 + n;
    }
    void read()
    {
        peer.async_read_some(boost::asio::buffer(chunk), [this](const boost::system::error_code &ec, size_t n) {
            got.append(chunk.data(), n);
            if (ec) return;
            if (whole()) { complete = true; write(); }
            else read();
        });
    }
    void write()
    {
        if (sent >= reply.size()) { finish(); return; }
        size_t n = cut && sent < cut ? std::min(cut, reply.size()) - sent : reply.size() - sent;
        boost::asio::async_write(peer, boost::asio::buffer(reply.data() + sent, n), [this](const boost::system::error_code &ec, size_t m) {
            sent += m;
            if (ec) { finish(); return; }
            boost::asio::post(io, [this] { write(); });
        });
    }
    void finish()
    {
        boost::system::error_code ec;
        if (readFirst) { peer.shutdown(tcp::socket::shutdown_send, ec); drain(); }
        else peer.close(ec);
    }
    void drain()
    {
        peer.async_read_some(boost::asio::buffer(chunk), [this](const boost::system::error_code &ec, size_t) {
            boost::system::error_code e;
            if (ec) peer.close(e);
            else drain();
        });
    }
};

inline void service(H::Rng &r)
{
    boost::asio::io_context io;
    Service                 svc(io);
    const std::string       port   = std::to_string(svc.acceptor.local_endpoint().port());
    const std::string       target = "/" + r.word(r.range(1, 12));
    const int               kind   = (int)r.below(12);
    // what the service says
    authproto::AuthResponse says;
    says.set_result(r.chance(50) ? authproto::AuthResponse::ALLOW : authproto::AuthResponse::DENY);
    if (r.chance(10)) says.set_result((authproto::AuthResponse::AuthResult)r.range(2, 9));
    if (r.chance(60)) says.set_reason(r.word(r.range(0, 300)));
    if (r.chance(50)) {
        says.mutable_authdata()->set_authmechanism(r.word(r.range(0, 8)));
        says.mutable_authdata()->set_credentials(r.bytes(r.range(0, 60)));
    }
    std::string body;
    says.SerializeToString(&body);
    if (kind == 0) body.clear();
    if (kind == 1) body = r.bytes(r.range(1, 40));
    if (kind == 2 && !body.empty()) body.resize(r.below(body.size()));
    static const std::vector<int> good{200, 200, 200, 201, 202, 299}, bad{301, 302, 400, 401, 403, 404, 407, 429, 500, 502, 503, 504, 599};
    const int   status = r.chance(55) ? r.pick(good) : r.pick(bad);
    std::string full   = "HTTP/1.1 " + std::to_string(status) + " Whatever\r\nContent-Length: " + std::to_string(body.size()) + "\r\n" +
                       (r.chance(50) ? "Content-Type: application/octet-stream\r\n" : "") + (r.chance(50) ? "Connection: close\r\n" : "") + "\r\n" + body;
    bool arrives = true, resolves = true;
    svc.reply = full;
    svc.cut   = r.chance(50) ? r.range(1, full.size()) : 0;
    if (kind == 3) { svc.reply = full.substr(0, r.below(full.size())); arrives = false; }                  // ends in the middle
    if (kind == 4) { svc.reply.clear(); svc.readFirst = r.chance(50); arrives = false; }                   // says nothing
    if (kind == 5) { svc.reply = r.chance(50) ? r.bytes(r.range(1, 60)) : "HTTP/1.1 2x0 OK\r\n\r\n"; arrives = false; } // not http
    if (kind == 6) { svc.acceptor.close(); arrives = false; }                                              // nobody there
    if (kind == 7) { resolves = arrives = false; }                                                         // no such host
    const std::string named = kind == 7 ? "nowhere" : r.chance(50) ? "127.0.0.1" : "auth.example";
    bool              asked = false;
    int               lookups = 0;
    DNSResolver::setOverrideFunction([&](std::vector<tcp::endpoint> *out, const std::string &host, const std::string &serv) -> boost::system::error_code {
        ++lookups;
        asked = host == named && serv == port;
        if (!resolves) return boost::asio::error::host_not_found;
        out->push_back(tcp::endpoint(boost::asio::ip::address_v4::loopback(), (unsigned short)atoi(port.c_str())));
        return boost::system::error_code();
    });
    authproto::AuthRequest question;
    question.set_vhostname(r.word(r.range(0, 20)));
    question.set_connectionname(r.word(r.range(0, 20)));
    question.mutable_authdata()->set_credentials(r.bytes(r.range(0, 200)));
    std::string questionBytes;
    question.SerializeToString(&questionBytes);

    H::note() = "kind " + std::to_string(kind) + ", status " + std::to_string(status) + ", service " + (arrives ? "answers" : "does not answer properly") + ": " +
                H::hex(svc.reply);
    int                     answers = 0;
    authproto::AuthResponse answer;
    {
        DNSResolver resolver(io);
        auto        icept = std::make_shared<HttpAuthIntercept>(io, named, port, target, &resolver);
        if (svc.acceptor.is_open()) svc.start();
        icept->authenticate(question, [&](const authproto::AuthResponse &a) { ++answers; answer = a; });
        auto t0 = std::chrono::steady_clock::now();
        while (!answers && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(20)) io.run_for(std::chrono::milliseconds(50));
        // nothing more may follow
        boost::system::error_code ec;
        svc.acceptor.close(ec);
        auto t1 = std::chrono::steady_clock::now();
        do io.poll(); while (std::chrono::steady_clock::now() - t1 < std::chrono::microseconds(500));
        svc.peer.close(ec);
        io.poll();
    }
    DNSResolver::setOverrideFunction(DNSResolver::OverrideFunction());
    H::check(answers == 1, "the question was not answered exactly once");
    H::check(lookups == 1 && asked, "the service was not looked up by its configured host and port");
    authproto::AuthResponse parsed;
    const bool              understood = parsed.ParseFromString(body);
    const bool              success    = status >= 200 && status <= 299;
    if (arrives && understood && (success || parsed.result() == authproto::AuthResponse::DENY))
        H::check(answer.SerializeAsString() == parsed.SerializeAsString(), "the answer of the service was not passed on as it is");
    else
        H::check(answer.result() != authproto::AuthResponse::ALLOW, "allowed without a successful answer of the service");
    if (arrives) {
        H::check(svc.complete, "the question was not sent completely");
        size_t end = svc.got.find("\r\n\r\n");
        H::check(svc.got.compare(0, 6 + target.size(), "POST " + target + " ") == 0, "the question went to another target");
        H::check(svc.got.substr(end + 4) == questionBytes, "the question was altered");
    }
}
}
