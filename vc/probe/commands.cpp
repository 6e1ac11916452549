// Contracts of the control commands: what each of them changes, for any words given to it.
#include "vc.h"
#include <amqpprox_authcontrolcommand.h>
#include <amqpprox_authinterceptinterface.h>
#include <amqpprox_backend.h>
#include <amqpprox_backendcontrolcommand.h>
#include <amqpprox_backendstore.h>
#include <amqpprox_connectionlimiterinterface.h>
#include <amqpprox_connectionlimitermanager.h>
#include <amqpprox_connectionselector.h>
#include <amqpprox_controlcommand.h>
#include <amqpprox_datacenter.h>
#include <amqpprox_datacentercontrolcommand.h>
#include <amqpprox_dataratelimitmanager.h>
#include <amqpprox_defaultauthintercept.h>
#include <amqpprox_backendselectorstore.h>
#include <amqpprox_farm.h>
#include <amqpprox_farmcontrolcommand.h>
#include <amqpprox_farmstore.h>
#include <amqpprox_partitionpolicystore.h>
#include <amqpprox_tlscontrolcommand.h>
#include <amqpprox_vhostcontrolcommand.h>
#include <amqpprox_vhoststate.h>
#include <amqpprox_httpauthintercept.h>
#include <amqpprox_limitcontrolcommand.h>
#include <amqpprox_listencontrolcommand.h>
#include <amqpprox_mapcontrolcommand.h>
#include <amqpprox_resourcemapper.h>
#include <amqpprox_server.h>
#include <amqpprox_session.h>
#include <amqpprox_sessioncontrolcommand.h>
#include <functional>
#include <memory>
#include <new>
#include <optional>

using namespace Bloomberg::amqpprox;
using SessionPtr = std::shared_ptr<Session>;

namespace {
enum { WORDS = 7 };
struct Ghost {
    const void *is, *other;
    int         read, count;         // words read so far, words there are
    bool        failed;
    uint64_t    trace;
    const void *on;                  // the object changed
    bool        flag;
    int         number;
    uint64_t    id;
    Session    *session;
    void       *server, *io, *dns, *made;
    const void *into[WORDS];         // the string each word was read into
    bool        resolved;
    int         tail;                // any number of further words follow after this many
    bool        bad, atEnd, fresh, some;
    int         modes;
    uint64_t    words, looked, kept;
} g;
std::string word[WORDS], upper[WORDS]; // the words given, and in upper case
uint64_t    number[WORDS];             // what each means as a number, if it is one
bool        numeric[WORDS], negative[WORDS];
std::string arg1, arg2, any1;
const std::string *last;

enum { TOLD = 15, MAPBACKEND = 1, MAPFARM, UNMAP, SETDEFAULT, UNSETDEFAULT, LISTEN, STOP, STOPALL, PAUSE, DISCONNECT, SETDC, REPARTITION, INSERT, REMOVE };
enum { ADDCONN = 1, ADDCONNALARM, DEFCONN, DEFCONNALARM, RMCONN, RMCONNALARM, RMDEFCONN, RMDEFCONNALARM, DEFDATA, DEFDATAALARM, SETDATA, SETDATAALARM, OFFDATA, OFFDATAALARM };
enum { SETAUTH = 1, SETALLOW };
enum { VERIFY = 1, KEY, CHAIN, RSAKEY, TMPDH, CACERT, CIPHERS };
enum { ADDFARM = 1, ADDPOLICY, RMFARM };
void did(int what, const void *on)
{
    g.trace = g.trace * 16 + what;
    g.on    = on;
}
std::function<bool(const std::string &, bool)> out;
const std::string none, rest;
long              table[4];

void any(int i)
{
    vc_any_string(&word[i]);
    vc_any_string(&upper[i]);
    vc_assume(!word[i].empty() && !upper[i].empty());
    number[i]   = vc_any_u64();
    numeric[i]  = vc_any_bool();
    negative[i] = vc_any_bool();
}
void begin(int count)
{
    g       = Ghost();
    g.count = count;
    vc_assume(count >= 0 && count <= WORDS);
    any(0), any(1), any(2), any(3), any(4), any(5), any(6);
}
// the subcommand, if there is one
bool is(int i, const char *s) { return g.count > i && upper[i] == s; }
}

// @replaces istringstream(text) | std::(__cxx11::)?basic_istringstream<char, .*>::basic_istringstream\(
OBS void kx_stream(void **is, const std::string &text, int)
{
    vc_ensure(&text == &rest && !g.is, "the command is read, once");
    table[0] = 120; // where its virtual base lies
    *is      = &table[3];
    g.is     = is;
}
// @replaces ~istringstream | std::(__cxx11::)?basic_istringstream<char, .*>::~basic_istringstream\(
OBS void kx_unstream(void *) {}
// @replaces writing text | std::operator<< ?<
OBS void *kx_text(void *os, const void *) { return os; }
// @replaces writing a value | std::basic_ostream<char, std::char_traits<char> ?>::operator<<\(
OBS void *kx_value(void *os) { return os; }
// @replaces writing a code | boost::system::operator<< ?<
OBS void *kx_code(void *os) { return os; }
// @replaces writing a backend | Bloomberg::amqpprox::operator<<\(
OBS void *kx_backendText(void *os) { return os; }
// @replaces reading a word | std::operator>> ?<char, std::char_traits<char>, std::allocator<char> ?>\(
OBS std::istream &kx_word(std::istream &is, std::string &s)
{
    if (g.tail && g.read >= g.tail && !g.failed) {
        if (g.atEnd || vc_any_bool())
            g.failed = g.atEnd = true;
        else {
            vc_any_string(&s);
            vc_assume(!s.empty());
            any1    = s;
            g.atEnd = vc_any_bool();
            g.fresh = g.some = true;
            ++g.words;
        }
    }
    else if (g.failed || g.read >= g.count)
        g.failed = true;
    else {
        s               = word[g.read];
        g.into[g.read++] = &s;
        if (g.tail && g.read == g.tail)
            g.atEnd = vc_any_bool();
    }
    return is;
}
// @replaces skipping blanks | std::ws<
OBS std::istream &kx_ws(std::istream &is) { return is; }
// @replaces end of the command | std::basic_ios<char, std::char_traits<char> ?>::eof\(\) const
OBS bool kx_eof(const void *) { return g.tail ? g.atEnd : g.read >= g.count; }
// @replaces whether more can be read | std::basic_ios<char, std::char_traits<char> ?>::good\(\) const
OBS bool kx_good(const void *) { return !g.failed && !(g.tail ? g.atEnd : g.read >= g.count); }
// @replaces clearing the state | std::basic_ios<char, std::char_traits<char> ?>::clear\(
OBS void kx_clear(void *, int) { g.failed = false; }
// @replaces reading a number | std::basic_istream<char, std::char_traits<char> ?>::operator>>\(int&\)
OBS std::istream &kx_int(std::istream &is, int &n)
{
    if (g.failed || g.read >= g.count)
        g.failed = true;
    else if (!numeric[g.read]) {
        n        = 0;
        g.failed = true;
    }
    else {
        const uint64_t v   = number[g.read];
        const bool     neg = negative[g.read++];
        if (v > (neg ? 0x80000000u : 0x7fffffffu)) {
            n        = neg ? (int)0x80000000u : 0x7fffffff;
            g.failed = true;
        }
        else
            n = neg ? (int)-(int64_t)v : (int)v;
    }
    return is;
}
// @replaces reading an unsigned number | std::basic_istream<char, std::char_traits<char> ?>::operator>>\(unsigned int&\)
OBS std::istream &kx_uint(std::istream &is, unsigned &n)
{
    if (g.failed || g.read >= g.count)
        g.failed = true;
    else if (!numeric[g.read]) {
        n        = 0;
        g.failed = true;
    }
    else {
        const uint64_t v   = number[g.read];
        const bool     neg = negative[g.read++];
        if (v > 0xffffffffu) {
            n        = 0xffffffffu;
            g.failed = true;
        }
        else
            n = neg ? 0u - (unsigned)v : (unsigned)v;
    }
    return is;
}
// @replaces reading a long unsigned number | std::basic_istream<char, std::char_traits<char> ?>::operator>>\(unsigned long&\)
OBS std::istream &kx_ulong(std::istream &is, unsigned long &n)
{
    if (g.failed || g.read >= g.count)
        g.failed = true;
    else if (!numeric[g.read]) {
        n        = 0;
        g.failed = true;
    }
    else {
        n = negative[g.read] ? 0 - number[g.read] : number[g.read];
        ++g.read;
    }
    return is;
}
// @replaces stream state | std::basic_ios<char, std::char_traits<char> ?>::operator bool\(\) const
OBS bool kx_ok(const void *) { return !g.failed; }
// @replaces stream failure | std::basic_ios<char, std::char_traits<char> ?>::operator!\(\) const
OBS bool kx_not(const void *) { return g.failed; }
// @replaces boost::to_upper | boost::(algorithm::)?to_upper<
OBS void kx_upper(std::string &s, const void *)
{
    if (s.empty())
        return;
    if (&s == g.into[6]) s = upper[6];
    else if (&s == g.into[5]) s = upper[5];
    else if (&s == g.into[4]) s = upper[4];
    else if (&s == g.into[3]) s = upper[3];
    else if (&s == g.into[2]) s = upper[2];
    else if (&s == g.into[1]) s = upper[1];
    else if (&s == g.into[0]) s = upper[0];
    else {
        vc_any_string(&s);
        if (s == "PEER") g.modes |= 1;
        else if (s == "NONE") g.modes |= 0;
        else if (s == "FAIL_IF_NO_PEER_CERT") g.modes |= 2;
        else if (s == "CLIENT_ONCE") g.modes |= 4;
        else g.bad = true;
    }
}
// @replaces output of the command | ControlCommandOutput<.*>::~?ControlCommandOutput\(
OBS void kx_output(void *) {}

// @replaces mapVhostToBackend | ResourceMapper::mapVhostToBackend\(
OBS void kx_mapb(void *m, const std::string &v, const std::string &b)
{
    did(MAPBACKEND, m);
    arg1 = v;
    arg2 = b;
}
// @replaces mapVhostToFarm | ResourceMapper::mapVhostToFarm\(
OBS void kx_mapf(void *m, const std::string &v, const std::string &b)
{
    did(MAPFARM, m);
    arg1 = v;
    arg2 = b;
}
// @replaces unmapVhost | ResourceMapper::unmapVhost\(
OBS void kx_unmap(void *m, const std::string &v)
{
    did(UNMAP, m);
    arg1 = v;
}
// @replaces print | ResourceMapper::print\(
OBS void kx_printm(void *, void *) {}
// @replaces setDefaultFarm | ConnectionSelector::setDefaultFarm\(
OBS void kx_setd(void *m, const std::string &v)
{
    did(SETDEFAULT, m);
    arg1 = v;
}
// @replaces unsetDefaultFarm | ConnectionSelector::unsetDefaultFarm\(
OBS void kx_unsetd(void *m) { did(UNSETDEFAULT, m); }

// @contract MapControlCommand::handleCommand: changes exactly the mapping named | MapControlCommand::handleCommand
OBS void c_map(MapControlCommand &c, uint8_t &selector, uint8_t &mapper, int count)
{
    begin(count);
    c.d_selector_p = reinterpret_cast<ConnectionSelector *>(&selector);
    c.d_mapper_p   = reinterpret_cast<ResourceMapper *>(&mapper);
    c.MapControlCommand::handleCommand(none, rest, out, nullptr, nullptr);
    if (is(0, "BACKEND") && count >= 3)
        vc_ensure(g.trace == MAPBACKEND && g.on == &mapper && arg1 == word[1] && arg2 == word[2], "the vhost is mapped to the backend");
    else if (is(0, "FARM") && count >= 3)
        vc_ensure(g.trace == MAPFARM && g.on == &mapper && arg1 == word[1] && arg2 == word[2], "the vhost is mapped to the farm");
    else if (is(0, "UNMAP") && count >= 2)
        vc_ensure(g.trace == UNMAP && g.on == &mapper && arg1 == word[1], "the vhost is unmapped");
    else if (is(0, "DEFAULT") && count >= 2)
        vc_ensure(g.trace == SETDEFAULT && g.on == &selector && arg1 == word[1], "the default farm is set");
    else if (is(0, "REMOVE_DEFAULT"))
        vc_ensure(g.trace == UNSETDEFAULT && g.on == &selector, "the default farm is removed");
    else
        vc_ensure(g.trace == 0, "anything else changes nothing");
}

// @replaces startListening | Server::startListening\(
OBS void kx_listen(void *m, int port, bool secure)
{
    did(LISTEN, m);
    g.number = port;
    g.flag   = secure;
}
// @replaces stopListening | Server::stopListening\(
OBS void kx_stop(void *m, int port)
{
    did(STOP, m);
    g.number = port;
}
// @replaces stopAllListening | Server::stopAllListening\(
OBS void kx_stopAll(void *m) { did(STOPALL, m); }

// @contract ListenControlCommand::handleCommand: starts and stops listening on the port named | ListenControlCommand::handleCommand
OBS void c_listen(ListenControlCommand &c, uint8_t &server, int count)
{
    begin(count);
    c.ListenControlCommand::handleCommand(none, rest, out, reinterpret_cast<Server *>(&server), nullptr);
    const bool port = count >= 2 && numeric[1] && !negative[1] && number[1] >= 1 && number[1] <= 65535;
    const bool start = is(0, "START"), secure = is(0, "START_SECURE");
    if ((start || secure) && port)
        vc_ensure(g.trace == LISTEN && g.on == &server && g.number == (int)number[1] && g.flag == secure, "listening on that port, with TLS as asked");
    else if (is(0, "STOP") && port)
        vc_ensure(g.trace == STOP && g.on == &server && g.number == (int)number[1], "no more listening on that port");
    else if (is(0, "STOP") && count == 1)
        vc_ensure(g.trace == STOPALL && g.on == &server, "no more listening at all");
    else
        vc_ensure(g.trace == 0, "anything else changes nothing");
}

// @replaces Session::pause | Bloomberg::amqpprox::Session::pause\(
OBS void kx_pause(void *s) { did(PAUSE, s); }
// @replaces Session::disconnect | Bloomberg::amqpprox::Session::disconnect\(
OBS void kx_disconnect(void *s, bool force)
{
    did(DISCONNECT, s);
    g.flag = force;
}
// @replaces Server::getSession | Server::getSession\(
OBS SessionPtr kx_session(void *s, uint64_t id)
{
    vc_ensure(s == g.server, "the session of this server");
    g.id = id;
    return SessionPtr(std::shared_ptr<void>(), g.session);
}

// @contract SessionControlCommand::handleCommand: acts on exactly the session named | SessionControlCommand::handleCommand
OBS void c_session(SessionControlCommand &c, uint8_t &server, uint8_t &session, bool exists, int count)
{
    begin(count);
    g.server  = &server;
    g.session = exists ? reinterpret_cast<Session *>(&session) : nullptr;
    vc_assume(!negative[0]);
    c.SessionControlCommand::handleCommand(none, rest, out, reinterpret_cast<Server *>(&server), nullptr);
    if (g.trace)
        vc_ensure(exists && count >= 2 && g.id == number[0] && g.on == &session, "that session");
    exists = exists && numeric[0];
    if (exists && is(1, "PAUSE"))
        vc_ensure(g.trace == PAUSE, "paused");
    else if (exists && is(1, "DISCONNECT_GRACEFUL"))
        vc_ensure(g.trace == DISCONNECT && !g.flag, "disconnected, announced");
    else if (exists && is(1, "FORCE_DISCONNECT"))
        vc_ensure(g.trace == DISCONNECT && g.flag, "disconnected at once");
    else
        vc_ensure(g.trace == 0, "anything else changes nothing");
}

// @replaces repartitionAll | FarmStore::repartitionAll\(
OBS void kx_repartition(void *m) { did(REPARTITION, m); }

// @contract DatacenterControlCommand::handleCommand: sets the data center and divides the farms anew | DatacenterControlCommand::handleCommand
OBS void c_datacenter(DatacenterControlCommand &c, Datacenter &dc, uint8_t &farms, int count)
{
    begin(count);
    const std::string had(dc.d_datacenter);
    c.d_datacenter_p = &dc;
    c.d_farmStore_p  = reinterpret_cast<FarmStore *>(&farms);
    c.DatacenterControlCommand::handleCommand(none, rest, out, nullptr, nullptr);
    if (is(0, "SET") && count >= 2)
        vc_ensure(dc.d_datacenter == word[1] && g.trace == REPARTITION && g.on == &farms, "the name given, and the farms divided anew");
    else if (!is(0, "SET"))
        vc_ensure(dc.d_datacenter == had && g.trace == 0, "anything else changes nothing");
}

// @replaces BackendStore::insert | BackendStore::insert\(
OBS int kx_insert(void *m, const Backend &b)
{
    did(INSERT, m);
    const bool dns = upper[0] == "ADD_DNS";
    vc_ensure(b.name() == word[1] && b.datacenterTag() == word[2] && b.host() == word[3], "a backend with the names given");
    vc_ensure(numeric[4] && !negative[4] && (uint64_t)b.port() == number[4] && b.port() > 0 && b.port() < 65536, "with the port given");
    vc_ensure(b.dnsBasedEntry() == dns && (dns || b.ip() == arg1), "with the address found");
    vc_ensure(b.proxyProtocolEnabled() == (is(5, "SEND-PROXY") || is(6, "SEND-PROXY")), "with PROXY as asked");
    vc_ensure(b.tlsEnabled() == (is(5, "TLS") || is(6, "TLS")), "with TLS as asked");
    return vc_any_bool() ? 0 : 1;
}
// @replaces BackendStore::remove | BackendStore::remove\(
OBS int kx_remove(void *m, const std::string &name)
{
    did(REMOVE, m);
    arg2 = name;
    return vc_any_bool() ? 0 : 1;
}
// @replaces BackendStore::print | BackendStore::print\(
OBS void kx_printb(void *, void *) {}
// @replaces Control::ioContext | Control::ioContext\(
OBS void *kx_io(void *c) { return c; }
// @replaces resolver | boost::asio::ip::basic_resolver<.*>::~?basic_resolver[<(]
OBS void kx_resolver(void *) {}
// @replaces query | boost::asio::ip::basic_resolver_query<.*>::basic_resolver_query\(
OBS void kx_query(void *, const std::string &host) { vc_ensure(host == word[3], "the host given is looked up"); }
// @replaces ~query | boost::asio::ip::basic_resolver_query<.*>::~basic_resolver_query\(
OBS void kx_unquery(void *) {}
// @replaces resolve | boost::asio::ip::basic_resolver<.*>::resolve\(
OBS void kx_resolve(void *, void *, const void *, boost::system::error_code &ec)
{
    g.resolved = vc_any_bool();
    if (!g.resolved)
        ec = boost::system::error_code(1, boost::system::system_category());
}
// @replaces ~results | boost::asio::ip::basic_resolver_(results|iterator)<.*>::~basic_resolver_(results|iterator)\(
OBS void kx_unresults(void *) {}
// @replaces iterator | boost::asio::ip::basic_resolver_iterator<.*>::operator->\(
OBS void *kx_entry(void *p) { return p; }
// @replaces endpoint | boost::asio::ip::basic_resolver_entry<.*>::endpoint\(
OBS void kx_endpoint(void *, const void *) {}
// @replaces address | boost::asio::ip::basic_endpoint<.*>::address\(
OBS void kx_address(void *, const void *) {}
// @replaces address to text | boost::asio::ip::address::to_string\[?
OBS std::string kx_addressText(const void *) { return arg1; }

// @contract BackendControlCommand::handleCommand: adds the backend described, removes the one named | BackendControlCommand::handleCommand
OBS void c_backend(BackendControlCommand &c, uint8_t &store, uint8_t &control, int count)
{
    begin(count);
    vc_any_string(&arg1);
    c.d_store_p = reinterpret_cast<BackendStore *>(&store);
    c.BackendControlCommand::handleCommand(none, rest, out, nullptr, reinterpret_cast<Control *>(&control));
    const bool dns = is(0, "ADD_DNS"), add = dns || is(0, "ADD");
    if (add && count >= 5 && numeric[4] && !negative[4] && number[4] >= 1 && number[4] <= 65535 && (dns || g.resolved))
        vc_ensure(g.trace == INSERT && g.on == &store, "the backend is added");
    else if (is(0, "DELETE") && count >= 2)
        vc_ensure(g.trace == REMOVE && g.on == &store && arg2 == word[1], "the backend is removed");
    else
        vc_ensure(g.trace == 0, "anything else changes nothing");
}

namespace {
struct Limiter : ConnectionLimiterInterface {
    bool        allowNewConnection() override { return true; }
    std::string toString() const override { return none; }
};
alignas(Limiter) unsigned char limiterRoom[sizeof(Limiter)];
ConnectionLimiterInterface *limiter() { return new (limiterRoom) Limiter; }
std::shared_ptr<ConnectionLimiterInterface> made(int what, void *m, const std::string &v, uint32_t n)
{
    did(what, m);
    arg1 = v;
    g.id = n;
    return std::shared_ptr<ConnectionLimiterInterface>(std::shared_ptr<void>(), limiter());
}
void with(int what, void *m, const std::string &v)
{
    did(what, m);
    arg1 = v;
}
void to(int what, void *m, uint64_t n)
{
    did(what, m);
    g.id = n;
}
}
// @replaces addConnectionRateLimiter | ConnectionLimiterManager::addConnectionRateLimiter\(
OBS std::shared_ptr<ConnectionLimiterInterface> kl_add(void *m, const std::string &v, uint32_t n) { return made(ADDCONN, m, v, n); }
// @replaces addAlarmOnlyConnectionRateLimiter | ConnectionLimiterManager::addAlarmOnlyConnectionRateLimiter\(
OBS std::shared_ptr<ConnectionLimiterInterface> kl_addAlarm(void *m, const std::string &v, uint32_t n) { return made(ADDCONNALARM, m, v, n); }
// @replaces setDefaultConnectionRateLimit | ConnectionLimiterManager::setDefaultConnectionRateLimit\(
OBS void kl_def(void *m, uint32_t n) { to(DEFCONN, m, n); }
// @replaces setAlarmOnlyDefaultConnectionRateLimit | ConnectionLimiterManager::setAlarmOnlyDefaultConnectionRateLimit\(
OBS void kl_defAlarm(void *m, uint32_t n) { to(DEFCONNALARM, m, n); }
// @replaces removeConnectionRateLimiter | ConnectionLimiterManager::removeConnectionRateLimiter\(
OBS void kl_rm(void *m, const std::string &v) { with(RMCONN, m, v); }
// @replaces removeAlarmOnlyConnectionRateLimiter | ConnectionLimiterManager::removeAlarmOnlyConnectionRateLimiter\(
OBS void kl_rmAlarm(void *m, const std::string &v) { with(RMCONNALARM, m, v); }
// @replaces removeDefaultConnectionRateLimit | ConnectionLimiterManager::removeDefaultConnectionRateLimit\(
OBS void kl_rmDef(void *m) { did(RMDEFCONN, m); }
// @replaces removeAlarmOnlyDefaultConnectionRateLimit | ConnectionLimiterManager::removeAlarmOnlyDefaultConnectionRateLimit\(
OBS void kl_rmDefAlarm(void *m) { did(RMDEFCONNALARM, m); }
// @replaces getDefaultConnectionRateLimit | ConnectionLimiterManager::get(AlarmOnly)?DefaultConnectionRateLimit\(
OBS std::optional<uint32_t> kl_get(void *) { return 1u; }
// @replaces getConnectionRateLimiter | ConnectionLimiterManager::get(AlarmOnly)?ConnectionRateLimiter\(
OBS std::shared_ptr<ConnectionLimiterInterface> kl_getOne(void *, const std::string &)
{
    return std::shared_ptr<ConnectionLimiterInterface>(std::shared_ptr<void>(), vc_any_bool() ? limiter() : nullptr);
}
// @replaces getDataRate | DataRateLimitManager::get(Default)?DataRate(Limit|Alarm)\(
OBS size_t kl_getData(void *) { return vc_any_u64(); }
// @replaces setDefaultDataRateLimit | DataRateLimitManager::setDefaultDataRateLimit\(
OBS void kl_defData(void *m, size_t n) { to(DEFDATA, m, n); }
// @replaces setDefaultDataRateAlarm | DataRateLimitManager::setDefaultDataRateAlarm\(
OBS void kl_defDataAlarm(void *m, size_t n) { to(DEFDATAALARM, m, n); }
// @replaces setVhostDataRateLimit | DataRateLimitManager::setVhostDataRateLimit\(
OBS void kl_setData(void *m, const std::string &v, size_t n)
{
    to(SETDATA, m, n);
    arg1 = v;
}
// @replaces setVhostDataRateAlarm | DataRateLimitManager::setVhostDataRateAlarm\(
OBS void kl_setDataAlarm(void *m, const std::string &v, size_t n)
{
    to(SETDATAALARM, m, n);
    arg1 = v;
}
// @replaces disableVhostDataRateLimit | DataRateLimitManager::disableVhostDataRateLimit\(
OBS void kl_offData(void *m, const std::string &v) { with(OFFDATA, m, v); }
// @replaces disableVhostDataRateAlarm | DataRateLimitManager::disableVhostDataRateAlarm\(
OBS void kl_offDataAlarm(void *m, const std::string &v) { with(OFFDATAALARM, m, v); }
// @replaces Server::visitSessions (visits any one session) | Server::visitSessions\(
OBS void kl_visit(void *s, const std::function<void(const SessionPtr &)> &f)
{
    vc_ensure(s == g.server, "the sessions of this server");
    SessionPtr p(std::shared_ptr<void>(), g.session);
    f(p);
}
// @replaces Session::updateDataRateLimits | Bloomberg::amqpprox::Session::updateDataRateLimits\(
OBS void kl_update(Session *s)
{
    vc_ensure(s == g.session, "that session");
    g.trace = g.trace * 16 + TOLD;
}

// @contract LimitControlCommand::handleCommand: sets and removes exactly the limit named, and tells the sessions it concerns | LimitControlCommand::handleCommand
OBS void c_limit(LimitControlCommand &c, uint8_t &conn, uint8_t &data, Session &session, uint8_t &server, int count)
{
    begin(count);
    g.server  = &server;
    g.session = &session;
    vc_assume(!negative[2] && !negative[3]);
    c.d_connectionLimiterManager_p = reinterpret_cast<ConnectionLimiterManager *>(&conn);
    c.d_dataRateLimitManager       = reinterpret_cast<DataRateLimitManager *>(&data);
    c.LimitControlCommand::handleCommand(none, rest, out, reinterpret_cast<Server *>(&server), nullptr);
    // LIMIT [DISABLE] kind (DEFAULT | VHOST name) [number]
    const bool off   = is(0, "DISABLE");
    const int  k     = off ? 1 : 0;
    const bool def   = is(k + 1, "DEFAULT"), one = is(k + 1, "VHOST") && count > k + 2;
    const bool ca    = count > k && (off ? word[1] : upper[0]) == "CONN_RATE_ALARM", cl = count > k && (off ? word[1] : upper[0]) == "CONN_RATE";
    const bool da    = count > k && (off ? word[1] : upper[0]) == "DATA_RATE_ALARM", dl = count > k && (off ? word[1] : upper[0]) == "DATA_RATE";
    const int  at    = def ? 2 : 3;
    const bool given = !off && count > at && numeric[at] && ((dl || da) || number[at] <= 0xffffffffu);
    const bool mine  = session.d_sessionState.getVirtualHost() == (off ? word[3] : word[2]);
    if ((ca || cl) && (def || one) && (off || given)) {
        vc_ensure(g.on == &conn, "a connection limit");
        if (one)
            vc_ensure(g.trace == (uint64_t)(off ? (ca ? RMCONNALARM : RMCONN) : (ca ? ADDCONNALARM : ADDCONN)) && arg1 == (off ? word[3] : word[2]), "of that vhost");
        else
            vc_ensure(g.trace == (uint64_t)(off ? (ca ? RMDEFCONNALARM : RMDEFCONN) : (ca ? DEFCONNALARM : DEFCONN)), "the default");
        if (!off)
            vc_ensure(g.id == number[at], "the number given");
    }
    else if ((da || dl) && (def || one) && (off || given)) {
        vc_ensure(g.on == &data, "a data limit");
        if (one) {
            const uint64_t what = off ? (da ? OFFDATAALARM : OFFDATA) : (da ? SETDATAALARM : SETDATA);
            vc_ensure(g.trace == (mine ? what * 16 + TOLD : what) && arg1 == (off ? word[3] : word[2]), "of that vhost, and its sessions are told");
        }
        else
            vc_ensure(g.trace == (uint64_t)(da ? DEFDATAALARM : DEFDATA) * 16 + TOLD, "the default, and all sessions are told");
        if (!off)
            vc_ensure(g.id == number[at], "the number given");
        else if (def)
            vc_ensure(g.id == ~(uint64_t)0, "no limit");
    }
    else
        vc_ensure(g.trace == 0, "anything else changes nothing");
}

namespace {
struct Printer : AuthInterceptInterface {
    explicit Printer(boost::asio::io_context &io) : AuthInterceptInterface(io) {}
    void authenticate(const authproto::AuthRequest, const ReceiveResponseCb &) override {}
    void print(std::ostream &) const override {}
};
alignas(Printer) unsigned char printerRoom[sizeof(Printer)];
}
// @replaces Server::ioContext | Server::ioContext\(
OBS void *ka_io(void *s)
{
    vc_ensure(s == g.server, "of this server");
    return g.io;
}
// @replaces Server::getDNSResolverPtr | Server::getDNSResolverPtr\(
OBS void *ka_dns(void *) { return g.dns; }
// @replaces make_shared HttpAuthIntercept | std::make_shared<Bloomberg::amqpprox::HttpAuthIntercept
OBS std::shared_ptr<HttpAuthIntercept> ka_make(void *io, const std::string &host, const std::string &port, const std::string &target, void **dns)
{
    vc_ensure(io == g.io && *dns == g.dns, "with the parts of the server");
    vc_ensure(host == word[1] && target == word[3], "the host and target given");
    vc_ensure(port == std::to_string((int)number[2]), "the port given");
    did(SETAUTH, g.made);
    return std::shared_ptr<HttpAuthIntercept>(std::shared_ptr<void>(), static_cast<HttpAuthIntercept *>(g.made));
}
// @replaces make_shared DefaultAuthIntercept | std::make_shared<Bloomberg::amqpprox::DefaultAuthIntercept
OBS std::shared_ptr<DefaultAuthIntercept> ka_default(void *io)
{
    vc_ensure(io == g.io, "with the parts of the server");
    did(SETALLOW, g.made);
    return std::shared_ptr<DefaultAuthIntercept>(std::shared_ptr<void>(), static_cast<DefaultAuthIntercept *>(g.made));
}
// @replaces Server::setAuthIntercept | Server::setAuthIntercept\(
OBS void ka_set(void *s, const std::shared_ptr<AuthInterceptInterface> &p)
{
    vc_ensure(s == g.server && (void *)p.get() == g.made, "used by the server");
    g.trace = g.trace * 16 + TOLD;
}
// @replaces Server::getAuthIntercept | Server::getAuthIntercept\(
OBS std::shared_ptr<AuthInterceptInterface> ka_get(void *)
{
    return std::shared_ptr<AuthInterceptInterface>(std::shared_ptr<void>(), new (printerRoom) Printer(*static_cast<boost::asio::io_context *>(g.io)));
}

// @contract AuthControlCommand::handleCommand: uses exactly the authentication named | AuthControlCommand::handleCommand
OBS void c_auth(AuthControlCommand &c, uint8_t &server, uint8_t &io, uint8_t &dns, uint8_t &made, int count)
{
    begin(count);
    g.server = &server;
    g.io     = &io;
    g.dns    = &dns;
    g.made   = &made;
    c.AuthControlCommand::handleCommand(none, rest, out, reinterpret_cast<Server *>(&server), nullptr);
    if (is(0, "SERVICE") && count >= 4 && numeric[2] && !negative[2] && number[2] >= 1 && number[2] <= 65535)
        vc_ensure(g.trace == SETAUTH * 16 + TOLD, "the service given is asked from now on");
    else if (is(0, "ALWAYS_ALLOW"))
        vc_ensure(g.trace == SETALLOW * 16 + TOLD, "everyone is allowed from now on");
    else
        vc_ensure(g.trace == 0, "anything else changes nothing");
}

// @replaces setPaused | VhostState::setPaused\(
OBS void kv_paused(void *m, const std::string &v, bool p)
{
    did(SETDC, m);
    arg1   = v;
    g.flag = p;
}
// @replaces VhostState::print | VhostState::print\(
OBS void kv_print(void *, void *) {}
// @replaces Session::unpause | Bloomberg::amqpprox::Session::unpause\(
OBS void kv_unpause(void *s) { did(UNMAP, s); }
// @replaces Session::backendDisconnect | Bloomberg::amqpprox::Session::backendDisconnect\(
OBS void kv_backend(void *s) { did(REMOVE, s); }

// @contract VhostControlCommand::handleCommand: acts on the sessions of exactly the vhost named | VhostControlCommand::handleCommand
OBS void c_vhost(VhostControlCommand &c, uint8_t &states, Session &session, uint8_t &server, int count)
{
    begin(count);
    g.server         = &server;
    g.session        = &session;
    c.d_vhostState_p = reinterpret_cast<VhostState *>(&states);
    c.VhostControlCommand::handleCommand(none, rest, out, reinterpret_cast<Server *>(&server), nullptr);
    const bool mine  = count >= 2 && session.d_sessionState.getVirtualHost() == word[1];
    const bool pause = is(0, "PAUSE") && count >= 2, unpause = is(0, "UNPAUSE") && count >= 2;
    if (pause || unpause) {
        vc_ensure(arg1 == word[1] && (mine ? g.on == &session : g.on == &states), "that vhost");
        vc_ensure(g.flag == pause && g.trace == (mine ? SETDC * 16ull + (pause ? PAUSE : UNMAP) : (uint64_t)SETDC), "marked, and its sessions are told");
    }
    else if (is(0, "FORCE_DISCONNECT") && mine)
        vc_ensure(g.trace == DISCONNECT && g.flag && g.on == &session, "disconnected at once");
    else if (is(0, "BACKEND_DISCONNECT") && mine)
        vc_ensure(g.trace == REMOVE && g.on == &session, "its broker is disconnected");
    else
        vc_ensure(g.trace == 0, "anything else changes nothing");
}

// @replaces ingressTlsContext | Server::ingressTlsContext\(
OBS void *kt_ingress(void *) { return g.io; }
// @replaces egressTlsContext | Server::egressTlsContext\(
OBS void *kt_egress(void *) { return g.dns; }
// @replaces set_verify_mode | boost::asio::ssl::context::set_verify_mode\(
OBS void kt_verify(void *, void *context, int mode)
{
    did(VERIFY, context);
    g.number = mode;
}
// @replaces use_private_key_file | boost::asio::ssl::context::use_private_key_file\(
OBS void kt_key(void *, void *context, const std::string &name, int format)
{
    did(KEY, context);
    arg1     = name;
    g.number = format;
}
// @replaces use_certificate_chain_file | boost::asio::ssl::context::use_certificate_chain_file\(
OBS void kt_chain(void *, void *context, const std::string &name) { with(CHAIN, context, name); }
// @replaces use_rsa_private_key_file | boost::asio::ssl::context::use_rsa_private_key_file\(
OBS void kt_rsa(void *, void *context, const std::string &name) { with(RSAKEY, context, name); }
// @replaces use_tmp_dh_file | boost::asio::ssl::context::use_tmp_dh_file\(
OBS void kt_dh(void *, void *context, const std::string &name) { with(TMPDH, context, name); }
// @replaces load_verify_file | boost::asio::ssl::context::load_verify_file\(
OBS void kt_ca(void *, void *context, const std::string &name) { with(CACERT, context, name); }
// @replaces native_handle | boost::asio::ssl::context::native_handle\(
OBS void *kt_native(void *context) { return context; }
// @replaces rest of the line | std::getline<
OBS std::istream &kt_line(std::istream &is, std::string &s)
{
    vc_any_string(&s);
    arg2 = s;
    return is;
}
// @replaces SSL_CTX_set_cipher_list | ^SSL_CTX_set_cipher_list
OBS int kt_ciphers(void *context, const char *)
{
    did(CIPHERS, context);
    return vc_any_bool();
}
// @replaces logCipherSuites | logCipherSuites
OBS void kt_log(void *, void *) {}

// @invariant the modes collected are those read
OBS bool ti_modes(uint64_t mode)
{
    return (int)mode == g.modes && !g.bad;
}

// @contract TlsControlCommand::handleCommand: configures exactly the direction and the part named | TlsControlCommand::handleCommand
OBS void c_tls(TlsControlCommand &c, uint8_t &server, uint8_t &ingress, uint8_t &egress, int count)
{
    begin(count);
    vc_assume(count <= 3);
    g.io   = &ingress;
    g.dns  = &egress;
    g.tail = is(1, "VERIFY_MODE") ? 2 : 0;
    c.TlsControlCommand::handleCommand(none, rest, out, reinterpret_cast<Server *>(&server), nullptr);
    const bool in = is(0, "INGRESS"), known = in || is(0, "EGRESS");
    if (g.trace)
        vc_ensure(known && g.on == (in ? &ingress : &egress), "that direction");
    if (known && is(1, "VERIFY_MODE"))
        vc_ensure(g.bad ? g.trace == 0 : g.trace == VERIFY && g.number == g.modes, "the modes given, or none of them");
    else if (known && is(1, "CIPHERS") && count >= 3 && (word[2] == "PRINT" || word[2] == "SET"))
        vc_ensure(g.trace == (word[2] == "SET" ? CIPHERS : 0), "the ciphers are changed when asked to");
    else if (known && count >= 3) {
        const uint64_t what = is(1, "KEY_FILE") ? KEY : is(1, "CERT_CHAIN_FILE") ? CHAIN : is(1, "RSA_KEY_FILE") ? RSAKEY : is(1, "TMP_DH_FILE") ? TMPDH : is(1, "CA_CERT_FILE") ? CACERT : 0;
        vc_ensure(g.trace == what && (!what || arg1 == word[2]), "the file given, for the part named");
    }
    else
        vc_ensure(g.trace == 0, "anything else changes nothing");
}

// @replaces getSelector | BackendSelectorStore::getSelector\(
OBS void *kf_selector(char *store, const std::string &name)
{
    vc_ensure(name == word[2], "the selector given");
    return g.flag ? store + 1 : nullptr;
}
// @replaces getPolicy | PartitionPolicyStore::getPolicy\(
OBS void *kf_policy(char *store, const std::string &name)
{
    vc_ensure(name == word[2], "the policy given");
    return g.flag ? store + 1 : nullptr;
}
// @replaces BackendStore::lookup | BackendStore::lookup\(
OBS const void *kf_lookup(void *store, const std::string &name)
{
    vc_ensure(name.empty() || name == any1, "the backend given is looked up");
    ++g.looked;
    const bool found = !name.empty() && vc_any_bool();
    if (!found)
        g.bad = true;
    return found ? store : nullptr;
}
// @replaces adding to the list | std::vector<std::string.*>::(emplace|push)_back
OBS void *kf_keep(void *list, const std::string &name)
{
    vc_ensure(name.empty() || (name == any1 && g.fresh), "each backend is kept as given, once");
    if (!name.empty())
        ++g.kept;
    g.fresh = false;
    return list;
}
// @replaces Farm() | Bloomberg::amqpprox::Farm::Farm\(
OBS void kf_farm(void *farm, const std::string &name, void *, void *store, void *selector)
{
    vc_ensure(name == word[1] && store == g.dns && selector == (char *)g.io + 1 && g.kept == g.words, "a farm of all the backends given, with that selector");
    g.other = farm;
}
// @replaces ~Farm | Bloomberg::amqpprox::Farm::~Farm\(
OBS void kf_unfarm(void *) {}
// @replaces addFarm | FarmStore::addFarm\(
OBS void kf_add(void *m, std::unique_ptr<Farm> &p)
{
    vc_ensure(p.get() == g.other && g.other, "that farm");
    did(ADDFARM, m);
}
// @replaces getFarmByName | FarmStore::getFarmByName\(
OBS void *kf_get(void *m, const std::string &name)
{
    vc_ensure(m == g.server, "in this store");
    arg1 = name;
    return m;
}
// @replaces addPartitionPolicy | Farm::addPartitionPolicy\(
OBS void kf_addPolicy(void *farm, void *policy)
{
    did(ADDPOLICY, farm);
    vc_ensure(policy == (char *)g.made + 1, "that policy");
}
// @replaces removeFarmByName | FarmStore::removeFarmByName\(
OBS void kf_remove(void *m, const std::string &name) { with(RMFARM, m, name); }
// @replaces FarmStore::print | FarmStore::print\(
OBS void kf_print(void *, void *) {}

// @invariant what was kept and looked up
OBS bool fi_kept()
{
    return (g.kept == g.words) & !g.fresh;
}
// @invariant at least one is read
OBS bool fi_first()
{
    return g.some | g.bad | (!g.atEnd & !g.failed);
}
// @invariant whether all were found
OBS bool fi_found(uint64_t ok)
{
    return (bool)(ok & 1) == !g.bad;
}

// @contract FarmControlCommand::handleCommand: adds the farm described, removes or divides the one named | FarmControlCommand::handleCommand
OBS void c_farm(FarmControlCommand &c, uint8_t &farms, uint8_t &backends, uint16_t &selectors, uint16_t &policies, int count, bool known)
{
    begin(count);
    vc_assume(count <= 3);
    g.flag                      = known;
    g.tail                      = is(0, "ADD") || is(0, "ADD_MANUAL") ? 3 : 0;
    g.server                    = &farms;
    g.dns                       = &backends;
    g.io                        = &selectors;
    g.made                      = &policies;
    c.d_store_p                 = reinterpret_cast<FarmStore *>(&farms);
    c.d_backendStore_p          = reinterpret_cast<BackendStore *>(&backends);
    c.d_backendSelectorStore_p  = reinterpret_cast<BackendSelectorStore *>(&selectors);
    c.d_partitionPolicyStore_p  = reinterpret_cast<PartitionPolicyStore *>(&policies);
    c.FarmControlCommand::handleCommand(none, rest, out, nullptr, nullptr);
    if (g.trace)
        vc_ensure(g.on == &farms, "the farms");
    if (g.tail && known && count >= 3 && g.some && !g.bad)
        vc_ensure(g.trace == ADDFARM, "a farm is added when all its backends are known");
    else if (is(0, "PARTITION") && known && count >= 3)
        vc_ensure(g.trace == ADDPOLICY && arg1 == word[1], "the farm named is divided");
    else if (is(0, "DELETE") && count >= 2)
        vc_ensure(g.trace == RMFARM && arg1 == word[1], "the farm named is removed");
    else
        vc_ensure(g.trace == 0, "anything else changes nothing");
}
