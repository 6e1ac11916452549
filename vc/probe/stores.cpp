// Contracts of the stores of backends and farms.
#include "vc.h"
#include <amqpprox_backend.h>
#include <amqpprox_backendstore.h>
#include <amqpprox_farm.h>
#include <amqpprox_farmstore.h>
#include <memory>
#include <new>
#include <stdexcept>

using namespace Bloomberg::amqpprox;

OBS unsigned long sizeof_Backend() { return sizeof(Backend); }

// @contract BackendStore::insert: adds a backend under a new name, keeps all others | BackendStore::insert
OBS void c_insert(BackendStore &st, const Backend &b)
{
    std::string other;
    vc_any_string(&other);
    const Backend *had  = st.lookup(other);
    const Backend *same = st.lookup(b.name());
    const int      rc   = st.insert(b);
    const Backend *has  = st.lookup(other);
    const Backend *now  = st.lookup(b.name());
    vc_ensure((rc == 0) == (same == nullptr), "refused exactly when the name is taken");
    vc_ensure(now != nullptr, "the name is known");
    if (same)
        vc_ensure(now == same, "a known backend stays");
    else
        vc_ensure(now->d_name == b.d_name && now->d_host == b.d_host && now->d_ip == b.d_ip && now->d_port == b.d_port && now->d_datacenterTag == b.d_datacenterTag
                      && now->d_proxyProtocolEnabled == b.d_proxyProtocolEnabled && now->d_tlsEnabled == b.d_tlsEnabled && now->d_dnsBasedEntry == b.d_dnsBasedEntry,
                  "with all that was given");
    if (other != b.name())
        vc_ensure(has == had, "others stay");
}

// @contract BackendStore::remove: removes that backend only | BackendStore::remove
OBS void c_remove(BackendStore &st)
{
    std::string n, other;
    vc_any_string(&n);
    vc_any_string(&other);
    const Backend *had  = st.lookup(other);
    const Backend *same = st.lookup(n);
    const int      rc   = st.remove(n);
    vc_ensure((rc == 0) == (same != nullptr), "refused exactly when there is none");
    vc_ensure(st.lookup(n) == nullptr, "it is gone");
    if (other != n)
        vc_ensure(st.lookup(other) == had, "others stay");
}

// @contract FarmStore::getFarmByName: the farm added last under that name, an error without one | FarmStore::getFarmByName
OBS void c_farmByName(FarmStore &st)
{
    std::string n;
    vc_any_string(&n);
    Farm *f     = nullptr;
    bool  error = false;
    try {
        f = &st.getFarmByName(n);
    }
    catch (std::runtime_error &) {
        error = true;
    }
    auto it = st.d_farms.find(n);
    if (it == st.d_farms.end())
        vc_ensure(error, "no such farm");
    else
        vc_ensure(!error && f == it->second.get(), "that farm");
}
