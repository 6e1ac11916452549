// Shared parts of the harnesses: deterministic randomness, time budget, failure reports.
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include <boost/core/null_deleter.hpp>
#include <boost/log/core.hpp>
#include <boost/log/sinks.hpp>
#include <boost/make_shared.hpp>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#define HAVE_DEATH 1
#endif
#endif

namespace H {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool chance(int pct) { return below(100) < (uint64_t)pct; }
    template <typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    // biased towards edges
    uint64_t edgy(int bits)
    {
        uint64_t m = bits >= 64 ? ~0ull : ((1ull << bits) - 1);
        switch (below(7)) {
        case 0: return 0;
        case 1: return m;
        case 2: return m >> 1;
        case 3: return (m >> 1) + 1;
        case 4: return below(4) & m;
        case 5: return next() & m & 0xff;
        default: return next() & m;
        }
    }
    std::string bytes(size_t n)
    {
        std::string r(n, 0);
        for (auto &c : r) c = (char)next();
        return r;
    }
    std::string word(size_t n)
    {
        std::string r(n, 0);
        for (auto &c : r) c = (char)('a' + below(26));
        return r;
    }
};

inline std::string &outFile() { static std::string s; return s; }
inline std::string &note() { static std::string s; return s; }
inline uint64_t &cases() { static uint64_t c = 0; return c; }
inline double &seconds() { static double d = 5; return d; }
inline uint64_t &seed() { static uint64_t d = 1; return d; }
inline std::string &mode() { static std::string s; return s; }

inline std::string hex(const std::string &s)
{
    static const char *d = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < s.size() && i < 4096; ++i) {
        r += d[(unsigned char)s[i] >> 4];
        r += d[(unsigned char)s[i] & 15];
    }
    if (s.size() > 4096) r += "... (" + std::to_string(s.size()) + " octets)";
    return r;
}

// what is left to remove when a run ends early
inline std::function<void()> &cleanup() { static std::function<void()> f; return f; }

inline void dump(const std::string &what)
{
    if (FILE *f = fopen(outFile().c_str(), "w")) {
        fprintf(f, "%s\nseed %llu case %llu\ninput: %s\n", what.c_str(), (unsigned long long)seed(),
                (unsigned long long)cases(), note().c_str());
        fclose(f);
    }
    if (cleanup()) cleanup()();
}

inline void died() { dump("sanitizer report or abnormal end (see log)"); }

[[noreturn]] inline void fail(const std::string &msg)
{
    dump(msg);
    printf("FAILED: %s\n  input: %s\n", msg.c_str(), note().substr(0, 3000).c_str());
    fflush(stdout);
    _Exit(1);
}

inline void check(bool ok, const char *msg)
{
    if (!ok) fail(msg);
}
inline void check(bool ok, const std::function<std::string()> &msg)
{
    if (!ok) fail(msg());
}

inline void init(int argc, char **argv)
{
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") seed() = strtoull(v.c_str(), nullptr, 10);
        if (a == "--seconds") seconds() = atof(v.c_str());
        if (a == "--out") outFile() = v;
        if (a == "--mode") mode() = v;
    }
    if (!outFile().empty()) remove(outFile().c_str());
    // log statements run, their text goes nowhere
    {
        static std::ostream null(nullptr);
        using Backend = boost::log::sinks::text_ostream_backend;
        auto be = boost::make_shared<Backend>();
        be->add_stream(boost::shared_ptr<std::ostream>(&null, boost::null_deleter()));
        boost::log::core::get()->add_sink(boost::make_shared<boost::log::sinks::synchronous_sink<Backend>>(be));
    }
#ifdef HAVE_DEATH
    __sanitizer_set_death_callback(died);
#endif
}

// run f(rng) until the time is up, at least `min` times
inline int loop(const std::function<void(Rng &)> &f, uint64_t min = 200, uint64_t max = ~0ull)
{
    auto t0 = std::chrono::steady_clock::now();
    while (true) {
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if ((el > seconds() && (cases() >= min || el > seconds() * 4)) || cases() >= max) break;
        Rng r(seed() * 1000003 + cases());
        try {
            f(r);
        }
        catch (const std::exception &e) {
            fail(std::string("unexpected exception: ") + e.what());
        }
        catch (...) {
            fail("unexpected exception of unknown type");
        }
        ++cases();
    }
    printf("CASES %llu\n", (unsigned long long)cases());
    return 0;
}
}
