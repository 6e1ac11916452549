// Contracts of the table of paused virtual hosts.
#include "vc.h"
#include <amqpprox_vhoststate.h>

using namespace Bloomberg::amqpprox;

OBS unsigned long sizeof_State() { return sizeof(VhostState::State); }

// @contract VhostState::setPaused: changes that virtual host only | VhostState::setPaused
OBS void c_setPaused(VhostState &s, bool p)
{
    std::string v, w;
    vc_any_string(&v);
    vc_any_string(&w);
    const bool before = s.isPaused(w);
    s.setPaused(v, p);
    vc_ensure(s.isPaused(w) == (v == w ? p : before), "paused until told otherwise");
}

// @contract VhostState: virtual hosts are not paused at first | VhostState::isPaused
OBS void c_notPaused()
{
    std::string v;
    vc_any_string(&v);
    VhostState s;
    vc_ensure(!s.isPaused(v), "not paused");
}
