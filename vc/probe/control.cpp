// Contracts of the control interface: which command a line of input runs. The source file is included for its local class.
#include "vc.h"
#include <amqpprox_control.cpp>

using namespace Bloomberg::amqpprox;

namespace {
struct Ghost {
    int   handled, helped;
    bool  known;
    void *server, *control, *session;
} g;
std::string input, upper;
size_t      space;

struct Command : ControlCommand {
    void handleCommand(const std::string &verb, const std::string &rest, const OutputFunctor &, Server *server, Control *control) override
    {
        ++g.handled;
        vc_ensure(g.known && server == g.server && control == g.control, "of this server");
        vc_ensure(verb == upper, "with the verb given");
        vc_ensure(rest.size() == (space == std::string::npos ? 0 : input.size() - space), "with all that follows");
        if (space != std::string::npos)
            vc_ensure(rest == input.substr(space), "with what follows the verb");
    }
    std::string commandVerb() const override { return upper; }
    std::string helpText() const override { return upper; }
};
struct Help : Command {
    void handleCommand(const std::string &, const std::string &, const OutputFunctor &, Server *, Control *) override { ++g.helped; }
};
alignas(Command) unsigned char room[sizeof(Command)], helpRoom[sizeof(Help)];
}

// @replaces finding the first blank | std::(__cxx11::)?(basic_string<.*>|string)::find(_first_of)?\((char|char const\*), unsigned long\) const
OBS size_t ki_find(const std::string &s, char c, size_t from)
{
    vc_within(&s == &input && from == 0 && c == ' ');
    return space;
}
// @replaces boost::to_upper | boost::(algorithm::)?to_upper<
OBS void ki_upper(std::string &s, const void *)
{
    vc_ensure(s.size() == (space == std::string::npos ? input.size() : space), "the verb is what precedes the first blank");
    vc_ensure(s == input.substr(0, space), "the verb as given");
    s = upper;
}
// @replaces getControlCommand | Control::getControlCommand\(
OBS ControlCommand *ki_get(void *c, const std::string &verb)
{
    vc_ensure(c == g.control, "of this control interface");
    if (verb == upper)
        return g.known ? new (room) Command : nullptr;
    vc_ensure(verb == "HELP" && !g.known, "help for an unknown verb only");
    return new (helpRoom) Help;
}
// @replaces shared_from_this | std::enable_shared_from_this<.*ControlSession>::shared_from_this\(\)
OBS std::shared_ptr<ControlSession> ki_self(void *) { return std::shared_ptr<ControlSession>(std::shared_ptr<void>(), static_cast<ControlSession *>(g.session)); }

// @contract ControlSession::processInput: runs the command named, with the rest of the line | ControlSession::processInput
OBS void c_input(ControlSession &s, uint8_t &server, uint8_t &control, bool known)
{
    g         = Ghost();
    g.session = &s;
    g.server  = &server;
    g.control = &control;
    g.known   = known;
    vc_any_string(&input);
    vc_any_string(&upper);
    vc_assume(upper != "HELP");
    space = vc_any_u64();
    vc_assume(space == std::string::npos || space < input.size());
    s.d_server_p  = reinterpret_cast<Server *>(&server);
    s.d_control_p = reinterpret_cast<Control *>(&control);
    s.processInput(input);
    if (known)
        vc_ensure(g.handled == 1 && g.helped == 0, "the command runs, once");
    else
        vc_ensure(g.handled == 0, "an unknown verb runs no command");
}

