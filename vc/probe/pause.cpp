// Contracts of pausing: which virtual hosts are paused, and which sessions that concerns.
#include "vc.h"
#include <amqpprox_controlcommand.h>
#include <amqpprox_eventsource.h>
#include <amqpprox_server.h>
#include <amqpprox_session.h>
#include <amqpprox_vhostcontrolcommand.h>
#include <amqpprox_vhostestablishedpauser.h>
#include <amqpprox_vhoststate.h>
#include <functional>
#include <memory>
#include <new>

using namespace Bloomberg::amqpprox;
using SessionPtr = std::shared_ptr<Session>;

namespace {
struct Ghost {
    uint64_t    trace;
    int         words;
    Session    *session;
    bool        paused, setTo, seen;
    uint64_t    id;
    VhostState *states;
    Server     *server;
    const void *want;
} g;
std::string word1, word2, vhost;
enum { SETPAUSED = 1, PAUSE, UNPAUSE };
void did(int what) { g.trace = g.trace * 16 + what; }
}

// @replaces reading a word | std::operator>> ?<char, std::char_traits<char>, std::allocator<char> ?>\(
OBS std::istream &kp_word(std::istream &is, std::string &s)
{
    ++g.words;
    s = g.words == 1 ? word1 : word2;
    return is;
}
// @replaces boost::to_upper (words are given in upper case) | boost::(algorithm::)?to_upper<
OBS void kp_upper(void *, const void *) {}
// @replaces output of the command | ControlCommandOutput<.*>::~?ControlCommandOutput\(
OBS void kp_output(void *) {}
// @replaces VhostState::setPaused | VhostState::setPaused\(
OBS void kp_setPaused(VhostState *, const std::string &v, bool p)
{
    did(SETPAUSED);
    g.setTo = p;
    vc_ensure(v == word2, "the virtual host named");
}
// @replaces VhostState::isPaused | VhostState::isPaused\(
OBS bool kp_isPaused(VhostState *s, const std::string &v)
{
    vc_ensure(s == g.states && v == vhost, "whether the virtual host is paused is asked");
    return g.paused;
}
// @replaces Session::pause | Bloomberg::amqpprox::Session::pause\(
OBS void kp_pause(Session *s)
{
    did(PAUSE);
    vc_ensure(s == g.session, "that session");
}
// @replaces Session::unpause | Bloomberg::amqpprox::Session::unpause\(
OBS void kp_unpause(Session *s)
{
    did(UNPAUSE);
    vc_ensure(s == g.session, "that session");
}
// @replaces Server::visitSessions (visits any one session) | Server::visitSessions\(
OBS void kp_visit(Server *s, const std::function<void(const SessionPtr &)> &f)
{
    vc_ensure(s == g.server && (g.trace == SETPAUSED), "all sessions are visited after the virtual host is marked");
    SessionPtr p(std::shared_ptr<void>(), g.session);
    f(p);
}
// @replaces Server::getSession | Server::getSession\(
OBS SessionPtr kp_session(Server *s, uint64_t id)
{
    vc_ensure(s == g.server && id == g.id, "the session that announced its virtual host");
    return SessionPtr(std::shared_ptr<void>(), g.session);
}
// @replaces event subscription (the event happens) | EventSourceSignal<unsigned long, std::string const&>::subscribe\(
OBS EventSubscriptionHandle kp_subscribe(void *, const std::function<void(uint64_t, const std::string &)> &f)
{
    f(g.id, vhost);
    return EventSubscriptionHandle();
}
// @replaces connectionVhostEstablished | EventSource::connectionVhostEstablished\(
OBS void *kp_signal(EventSource *) { return &g; }

// @contract VhostControlCommand::handleCommand PAUSE and UNPAUSE: marks the virtual host, and its sessions only | VhostControlCommand::handleCommand
OBS void c_vhostCommand(VhostControlCommand &c, VhostState &st, Session &s, Server &server, bool pause)
{
    g         = Ghost();
    g.session = &s;
    g.server  = &server;
    word1     = pause ? "PAUSE" : "UNPAUSE";
    vc_any_string(&word2);
    vc_assume(!word2.empty());
    std::string                                     command, rest;
    const std::function<bool(const std::string &, bool)> out;
    c.d_vhostState_p = &st;
    c.VhostControlCommand::handleCommand(command, rest, out, &server, nullptr);
    vc_ensure(g.setTo == pause, "as asked");
    if (s.d_sessionState.getVirtualHost() == word2)
        vc_ensure(g.trace == (pause ? 0x12 : 0x13), "a session of that virtual host is told, once");
    else
        vc_ensure(g.trace == SETPAUSED, "a session of another virtual host is not");
}

// @contract vhostEstablishedPauser: a session is paused when it announces a paused virtual host | vhostEstablishedPauser
OBS void c_pauser(EventSource &e, Server &server, VhostState &st, Session &s, bool paused, uint64_t id)
{
    g         = Ghost();
    g.session = &s;
    g.server  = &server;
    g.states  = &st;
    g.paused  = paused;
    g.id      = id;
    vc_any_string(&vhost);
    EventSubscriptionHandle h = vhostEstablishedPauser(&e, &server, &st);
    vc_ensure(g.trace == (paused ? PAUSE : 0), "paused, or left alone");
}

// @contract Server::visitSessions: every session is visited | Server::visitSessions
OBS void c_visit(Server &server, uint64_t id)
{
    g      = Ghost();
    auto i = server.d_sessions.find(id);
    vc_assume(i != server.d_sessions.end());
    g.want = i->second.get();
    const std::function<void(const SessionPtr &)> f = [](const SessionPtr &p) {
        if (p.get() == g.want)
            g.seen = true;
    };
    server.visitSessions(f);
    vc_ensure(g.seen, "this one too");
}
