// Drives the real codec against an independent reference of the AMQP 0-9-1 (RabbitMQ dialect) wire format.
#include "harness.h"
#include "ref.h"
#include <amqpprox_buffer.h>
#include <amqpprox_constants.h>
#include <amqpprox_fieldtable.h>
#include <amqpprox_fieldvalue.h>
#include <amqpprox_frame.h>
#include <amqpprox_method.h>
#include <amqpprox_methods_close.h>
#include <amqpprox_methods_closeok.h>
#include <amqpprox_methods_open.h>
#include <amqpprox_methods_openok.h>
#include <amqpprox_methods_start.h>
#include <amqpprox_methods_startok.h>
#include <amqpprox_methods_tune.h>
#include <amqpprox_methods_tuneok.h>
#include <amqpprox_types.h>
using namespace Bloomberg::amqpprox;
using H::Rng;

// a Buffer over a heap block of exactly n octets: any octet touched outside is a sanitizer report
struct Exact {
    std::unique_ptr<char[]> mem;
    size_t n;
    Buffer b;
    explicit Exact(const std::string &s) : mem(new char[s.size()]), n(s.size()), b()
    {
        memcpy(mem.get(), s.data(), n);
        b = Buffer((const void *)mem.get(), n);
    }
    explicit Exact(size_t room) : mem(new char[room]), n(room), b()
    {
        memset(mem.get(), 0xA5, n);
        b = Buffer((void *)mem.get(), n);
    }
    std::string str(size_t k) const { return std::string(mem.get(), k); }
};

// ---------------------------------------------------------------- decoding
static void decodeEverything(const std::string &in)
{
    H::note() = H::hex(in);
    auto bounds = [&](Exact &e) {
        H::check(e.b.offset() <= e.n && e.b.size() == e.n && e.b.originalPtr() == e.mem.get(), "buffer out of range after decode");
    };
    { Exact e(in); std::string s; Types::decodeLongString(&s, e.b); bounds(e); }
    { Exact e(in); std::string s; Types::decodeShortString(&s, e.b); bounds(e); }
    { Exact e(in); FieldValue v('V', false); Types::decodeFieldValue(&v, e.b); bounds(e); }
    { Exact e(in); std::vector<FieldValue> v; Types::decodeFieldArray(&v, e.b); bounds(e); }
    { Exact e(in); FieldTable v; Types::decodeFieldTable(&v, e.b); bounds(e); }
    { Exact e(in); methods::Start m; methods::Start::decode(&m, e.b); bounds(e); }
    { Exact e(in); methods::StartOk m; methods::StartOk::decode(&m, e.b); bounds(e); }
    { Exact e(in); methods::Tune m; methods::Tune::decode(&m, e.b); bounds(e); }
    { Exact e(in); methods::TuneOk m; methods::TuneOk::decode(&m, e.b); bounds(e); }
    { Exact e(in); methods::Open m; methods::Open::decode(&m, e.b); bounds(e); }
    { Exact e(in); methods::OpenOk m; methods::OpenOk::decode(&m, e.b); bounds(e); }
    { Exact e(in); methods::Close m; methods::Close::decode(&m, e.b); bounds(e); }
    { Exact e(in); Method m; Method::decode(&m, e.mem.get(), e.n); }
    {
        Exact       e(in);
        Frame       f;
        const void *end = nullptr;
        size_t      rem = 0;
        try {
            Frame::decode(&f, &end, &rem, e.mem.get(), e.n);
        }
        catch (const std::runtime_error &) {
        }
    }
}

static std::string mutate(Rng &r, std::string s)
{
    int n = (int)r.below(4);
    for (int i = 0; i < n && !s.empty(); ++i) {
        size_t p = r.below(s.size());
        switch (r.below(6)) {
        case 0: s[p] = (char)r.next(); break;
        case 1: s.resize(p); break;
        case 2: s.insert(p, r.bytes(r.range(1, 4))); break;
        case 3: s[p] = (char)0xff; break;
        case 4: s[p] = "tbBsuIilLfdDSATFVxU"[r.below(19)]; break;
        case 5: for (size_t k = p; k < s.size() && k < p + 4; ++k) s[k] = (char)r.edgy(8); break;
        }
    }
    if (r.chance(40)) s.resize(r.below(s.size() + 1));
    return s;
}

static std::string nested(size_t levels, bool table)
{
    // levels arrays (or tables) inside each other, every length prefix correct
    std::string s;
    uint64_t per = table ? 6 : 5;   // [name length 0] type, 4 octets length
    for (size_t i = 0; i < levels; ++i) {
        uint64_t inner = (levels - 1 - i) * per;
        if (i) { if (table) s += '\0'; s += table ? 'F' : 'A'; }
        for (int k = 3; k >= 0; --k) s += (char)(inner >> (8 * k));
    }
    return s;
}

static void p01(Rng &r)
{
    if (H::cases() < 6) {
        static const size_t lv[] = {50, 127, 2000, 100000, 400000, 1000000};
        size_t n = lv[H::cases()];
        for (bool t : {false, true}) {
            std::string s = nested(n, t);
            H::note() = std::to_string(n) + " levels of nesting, table=" + std::to_string(t);
            if (t) { Exact e(s); FieldTable v; Types::decodeFieldTable(&v, e.b); }
            else { Exact e(s); std::vector<FieldValue> v; Types::decodeFieldArray(&v, e.b); }
            if (t) { Exact e("\x00\x09" + s); methods::Start v; methods::Start::decode(&v, e.b); }
            if (t) { Exact e(s); methods::StartOk v; methods::StartOk::decode(&v, e.b); }
        }
        // mixed nesting
        return;
    }
    std::string in;
    switch (r.below(8)) {
    case 0: in = r.bytes(r.below(40)); break;
    case 1: in = ref::encStr(4, r.bytes(r.below(10))); break;
    case 2: in = ref::encTable(ref::genTable(r, 3)); break;
    case 3: in = ref::encValue(ref::gen(r, 3)); break;
    case 4: in = std::string("\x00\x09", 2) + ref::encTable(ref::genTable(r, 2)) + ref::encStr(4, r.word(5)) + ref::encStr(4, r.word(3)); break;
    case 5: in = ref::encTable(ref::genTable(r, 2)) + ref::encStr(1, r.word(5)) + ref::encStr(4, r.bytes(9)) + ref::encStr(1, r.word(3)); break;
    case 6: in = ref::frame((uint8_t)r.edgy(8), (uint16_t)r.edgy(16), r.bytes(r.below(30))); break;
    case 7: in = ref::be(2, r.edgy(16)) + ref::encStr(1, r.bytes(r.below(255))) + ref::be(4, r.next()); break;
    }
    decodeEverything(r.chance(15) ? in : mutate(r, in));
}

// ---------------------------------------------------------------- values
static FieldValue toReal(const ref::Val &v);
static std::shared_ptr<FieldTable> toRealTable(const ref::Table &t)
{
    auto p = std::make_shared<FieldTable>();
    for (auto &e : t) p->pushField(e.first, toReal(e.second));
    return p;
}
static FieldValue toReal(const ref::Val &v)
{
    switch (v.type) {
    case 't': return FieldValue('t', (bool)v.num);
    case 'V': return FieldValue('V', false);
    case 'S': return FieldValue('S', v.bytes);
    case 'f': case 'd': case 'D': case 'x': return FieldValue(v.type, std::vector<uint8_t>(v.bytes.begin(), v.bytes.end()));
    case 'A': { std::vector<FieldValue> a; for (auto &e : v.arr) a.push_back(toReal(e)); return FieldValue('A', a); }
    case 'F': return FieldValue('F', toRealTable(v.tab));
    case 'B': case 'u': case 'i': case 'T': return FieldValue(v.type, (uint64_t)v.num);
    default: return FieldValue(v.type, (int64_t)v.num);
    }
}
static bool same(const ref::Val &v, const FieldValue &f);
static bool sameTable(const ref::Table &t, const FieldTable &f)
{
    if (f.numberFields() != t.size()) return false;
    for (size_t i = 0; i < t.size(); ++i)
        if (f.fieldName(i) != t[i].first || !same(t[i].second, f.fieldIndex(i))) return false;
    return true;
}
static bool same(const ref::Val &v, const FieldValue &f)
{
    if (f.type() != v.type) return false;
    switch (v.type) {
    case 't': return f.value<bool>() == (bool)v.num;
    case 'V': return true;
    case 'S': return f.value<std::string>() == v.bytes;
    case 'f': case 'd': case 'D': case 'x': { auto b = f.value<std::vector<uint8_t>>(); return std::string(b.begin(), b.end()) == v.bytes; }
    case 'A': { auto a = f.value<std::vector<FieldValue>>(); if (a.size() != v.arr.size()) return false;
        for (size_t i = 0; i < a.size(); ++i) if (!same(v.arr[i], a[i])) return false; return true; }
    case 'F': return sameTable(v.tab, *f.value<std::shared_ptr<FieldTable>>());
    case 'B': case 'u': case 'i': case 'T': return f.value<uint64_t>() == (uint64_t)v.num;
    default: return f.value<int64_t>() == (int64_t)v.num;
    }
}

// encoding into every amount of room: never outside, full octets or failure
template <typename F>
static void encodeRooms(Rng &r, const std::string &want, F enc, bool full = true)
{
    size_t n = want.size();
    std::vector<size_t> rooms = {n, n + 1 + r.below(20)};
    if (n) { rooms.push_back(n - 1); rooms.push_back(r.below(n)); rooms.push_back(r.below(n < 6 ? n : 6)); }
    for (size_t room : rooms) {
        H::note() = "encode into " + std::to_string(room) + " octets of " + H::hex(want);
        size_t lead = r.chance(30) ? r.below(5) : 0;
        Exact e(room + lead);
        e.b.skip(lead);
        bool ok = enc(e.b);
        H::check(e.b.size() == e.n && e.b.originalPtr() == e.mem.get() && e.b.offset() <= e.n, "buffer out of range after encode");
        H::check(ok == (room >= n), ok ? "encoding reported success without room for it" : "encoding failed although there was room");
        if (!full) continue;
        for (size_t i = 0; i < lead; ++i) H::check((unsigned char)e.mem[i] == 0xA5, "octets before the write position changed");
        if (ok) {
            H::check(e.b.offset() == lead + n, "encoded length differs");
            H::check(std::string(e.mem.get() + lead, n) == want, "encoded octets differ");
            for (size_t i = lead + n; i < e.n; ++i) H::check((unsigned char)e.mem[i] == 0xA5, "octets after the encoding changed");
        }
    }
}

static void p02(Rng &r)
{
    switch (r.below(14)) {
    case 0: { std::string s = r.bytes(r.below(300)); encodeRooms(r, ref::encStr(4, s), [&](Buffer &b) { return Types::encodeLongString(b, s); }); } break;
    case 1: { std::string s = r.bytes(r.below(256)); encodeRooms(r, ref::encStr(1, s), [&](Buffer &b) { return Types::encodeShortString(b, s); });
              std::string l = r.bytes(256 + r.below(600)); Exact e(1024); H::note() = "short string of " + std::to_string(l.size());
              H::check(!Types::encodeShortString(e.b, l), "short string over 255 octets accepted"); } break;
    case 2: { std::string s = r.bytes(r.below(40)); std::vector<uint8_t> v(s.begin(), s.end()); encodeRooms(r, s, [&](Buffer &b) { return Types::encodeByteVector(b, v); }); } break;
    case 3: case 4: { auto v = ref::gen(r, 3); auto f = toReal(v); encodeRooms(r, ref::encValue(v), [&](Buffer &b) { return Types::encodeFieldValue(b, f); }); } break;
    case 5: { auto v = ref::genArray(r, 3); std::vector<FieldValue> a; for (auto &x : v) a.push_back(toReal(x));
              encodeRooms(r, ref::encArray(v), [&](Buffer &b) { return Types::encodeFieldArray(b, a); }); } break;
    case 6: case 7: { auto t = ref::genTable(r, 3); auto f = toRealTable(t); encodeRooms(r, ref::encTable(t), [&](Buffer &b) { return Types::encodeFieldTable(b, *f); });
              if (r.chance(20)) { f->pushField(r.bytes(256 + r.below(300)), FieldValue('t', true)); Exact e(100000);
                  H::note() = "table with a field name over 255 octets"; H::check(!Types::encodeFieldTable(e.b, *f), "oversized field name accepted"); } } break;
    case 8: { auto t = ref::genTable(r, 2); auto f = toRealTable(t); std::string a = r.word(r.below(20)), l = r.word(r.below(9)); uint8_t x = (uint8_t)r.edgy(8), y = (uint8_t)r.edgy(8);
              methods::Start m(x, y, *f, {a}, {l}); encodeRooms(r, ref::be(2, 10) + ref::be(2, 10) + ref::be(1, x) + ref::be(1, y) + ref::encTable(t) + ref::encStr(4, a) + ref::encStr(4, l), [&](Buffer &b) { return Method::encode(b, m); }); } break;
    case 9: { methods::Tune m((uint16_t)r.edgy(16), (uint32_t)r.edgy(32), (uint16_t)r.edgy(16));
              encodeRooms(r, ref::be(2, 10) + ref::be(2, 30) + ref::be(2, m.channelMax()) + ref::be(4, m.frameMax()) + ref::be(2, m.heartbeatInterval()), [&](Buffer &b) { return Method::encode(b, m); }); } break;
    case 10: { methods::Close m; std::string s = r.bytes(r.below(256)); uint16_t c = (uint16_t)r.edgy(16), k = (uint16_t)r.edgy(16), q = (uint16_t)r.edgy(16); m.setReply(c, s, k, q);
              encodeRooms(r, ref::be(2, 10) + ref::be(2, 50) + ref::be(2, c) + ref::encStr(1, s) + ref::be(2, k) + ref::be(2, q), [&](Buffer &b) { return Method::encode(b, m); }); } break;
    case 11: { auto t = ref::genTable(r, 2); methods::StartOk m; m.setClientProperties(*toRealTable(t)); std::string a = r.word(r.below(20)), c = r.bytes(r.below(90)); m.setAuthMechanism(a); m.setCredentials(c);
              encodeRooms(r, ref::be(2, 10) + ref::be(2, 11) + ref::encTable(t) + ref::encStr(1, a) + ref::encStr(4, c) + ref::encStr(1, ""), [&](Buffer &b) { return Method::encode(b, m); }); } break;
    case 12: { std::string v = r.bytes(r.below(256)); Exact in(ref::encStr(1, v) + std::string(2, 0)); methods::Open m; H::check(methods::Open::decode(&m, in.b), "open not decoded");
              encodeRooms(r, ref::be(2, 10) + ref::be(2, 40) + ref::encStr(1, v) + ref::encStr(1, "") + ref::be(1, 0), [&](Buffer &b) { return Method::encode(b, m); }); } break;
    case 13: { encodeRooms(r, ref::be(2, 10) + ref::be(2, 41) + ref::encStr(1, ""), [&](Buffer &b) { return Method::encode(b, methods::OpenOk()); });
               encodeRooms(r, ref::be(2, 10) + ref::be(2, 51), [&](Buffer &b) { return Method::encode(b, methods::CloseOk()); });
               uint16_t c = (uint16_t)r.edgy(16), h = (uint16_t)r.edgy(16); uint32_t f = (uint32_t)r.edgy(32); std::string w = ref::be(2, c) + ref::be(4, f) + ref::be(2, h);
               Exact in(w); methods::TuneOk m; H::check(methods::TuneOk::decode(&m, in.b), "tune-ok not decoded");
               encodeRooms(r, ref::be(2, 10) + ref::be(2, 31) + w, [&](Buffer &b) { return Method::encode(b, m); }); } break;
    }
}

static void p03(Rng &r)
{
    if (r.chance(70)) {
        auto t = ref::genTable(r, 4);
        std::string w = ref::encTable(t), tail = r.bytes(r.below(6));
        H::note() = H::hex(w);
        { Exact e(w + tail); FieldTable f; H::check(Types::decodeFieldTable(&f, e.b), "well formed table not decoded");
          H::check(e.b.offset() == w.size(), "table extent differs"); H::check(sameTable(t, f), "decoded table differs");
          Exact o(w.size()); H::check(Types::encodeFieldTable(o.b, f), "decoded table does not encode"); H::check(o.str(o.n) == w, "re-encoded octets differ"); }
        { auto f = toRealTable(t); Exact o(w.size()); H::check(Types::encodeFieldTable(o.b, *f) && o.str(o.n) == w, "encoded octets differ"); }
        auto a = ref::genArray(r, 3); w = ref::encArray(a); H::note() = H::hex(w);
        { Exact e(w + tail); std::vector<FieldValue> f; H::check(Types::decodeFieldArray(&f, e.b) && e.b.offset() == w.size() && f.size() == a.size(), "array not decoded exactly");
          for (size_t i = 0; i < a.size(); ++i) H::check(same(a[i], f[i]), "decoded array element differs"); }
        auto v = ref::gen(r, 3); w = ref::encValue(v); H::note() = H::hex(w);
        { Exact e(w + tail); FieldValue f('V', false); H::check(Types::decodeFieldValue(&f, e.b) && e.b.offset() == w.size(), "value not decoded exactly"); H::check(same(v, f), "decoded value differs"); }
        for (int lw : {1, 4}) {
            std::string s = r.bytes(r.below(lw == 1 ? 256 : 3000)), out; w = ref::encStr(lw, s); H::note() = H::hex(w); Exact e(w + tail);
            H::check((lw == 1 ? Types::decodeShortString(&out, e.b) : Types::decodeLongString(&out, e.b)) && out == s && e.b.offset() == w.size(), "string not decoded exactly"); }
    }
    else {
        // malformed or not: verdict and extent must agree with the reference
        std::string in = mutate(r, r.chance(50) ? ref::encTable(ref::genTable(r, 3)) : r.bytes(r.below(30)));
        H::note() = H::hex(in);
        ref::Table t; size_t p = 0;
        bool ok = ref::decTable(in, p, in.size(), t);
        Exact e(in); FieldTable f;
        bool got = Types::decodeFieldTable(&f, e.b);
        H::check(got == ok, got ? "malformed table accepted" : "well formed table refused");
        if (ok) { H::check(e.b.offset() == p, "table extent differs"); H::check(sameTable(t, f), "decoded table differs"); }
        ref::Val v; p = 0; ok = ref::decValue(in, p, in.size(), v);
        Exact e2(in); FieldValue g('V', false); got = Types::decodeFieldValue(&g, e2.b);
        H::check(got == ok, got ? "malformed value accepted" : "well formed value refused");
        if (ok) { H::check(e2.b.offset() == p, "value extent differs"); H::check(same(v, g), "decoded value differs"); }
    }
}

static void p04(Rng &r)
{
    std::string tail = r.bytes(r.below(4));
    auto t = ref::genTable(r, 2);
    std::string a = r.bytes(r.below(256)), b = r.bytes(r.below(400)), c = r.bytes(r.below(256));
    auto cut = [&](const std::string &w, auto dec) {
        if (w.empty()) return;
        size_t n = r.below(w.size());
        H::note() = "truncated to " + std::to_string(n) + ": " + H::hex(w);
        Exact e(w.substr(0, n));
        H::check(!dec(e.b), "incomplete method decoded successfully");
    };
    {
        uint8_t x = (uint8_t)r.edgy(8), y = (uint8_t)r.edgy(8);
        std::string w = ref::be(1, x) + ref::be(1, y) + ref::encTable(t) + ref::encStr(4, a) + ref::encStr(4, b);
        H::note() = "Start " + H::hex(w); Exact e(w + tail); methods::Start m;
        H::check(methods::Start::decode(&m, e.b), "Start not decoded");
        H::check(m.versionMajor() == x && m.versionMinor() == y && m.mechanisms() == a && m.locales() == b && sameTable(t, m.properties()), "Start fields differ");
        H::check(e.b.offset() == w.size(), "Start extent differs");
        Exact o(w.size() + 4); H::check(Method::encode(o.b, m) && o.str(o.n) == ref::be(2, 10) + ref::be(2, 10) + w, "Start re-encoding differs");
        cut(w, [](Buffer &q) { methods::Start m; return methods::Start::decode(&m, q); });
    }
    {
        std::string w = ref::encTable(t) + ref::encStr(1, a) + ref::encStr(4, b) + ref::encStr(1, c);
        H::note() = "StartOk " + H::hex(w); Exact e(w + tail); methods::StartOk m;
        H::check(methods::StartOk::decode(&m, e.b), "StartOk not decoded");
        H::check(m.mechanism() == a && m.response() == b && m.locale() == c && sameTable(t, m.properties()), "StartOk fields differ");
        H::check(e.b.offset() == w.size(), "StartOk extent differs");
        Exact o(w.size() + 4); H::check(Method::encode(o.b, m) && o.str(o.n) == ref::be(2, 10) + ref::be(2, 11) + w, "StartOk re-encoding differs");
        cut(w, [](Buffer &q) { methods::StartOk m; return methods::StartOk::decode(&m, q); });
        auto t2 = ref::genTable(r, 2); std::string a2 = r.bytes(r.below(50)), b2 = r.bytes(r.below(50));
        m.setClientProperties(*toRealTable(t2)); m.setAuthMechanism(a2); m.setCredentials(b2);
        w = ref::encTable(t2) + ref::encStr(1, a2) + ref::encStr(4, b2) + ref::encStr(1, c); H::note() = "StartOk changed " + H::hex(w);
        Exact o2(w.size() + 4); H::check(Method::encode(o2.b, m) && o2.str(o2.n) == ref::be(2, 10) + ref::be(2, 11) + w, "changed StartOk encoding differs");
    }
    {
        uint16_t x = (uint16_t)r.edgy(16), h = (uint16_t)r.edgy(16); uint32_t f = (uint32_t)r.edgy(32);
        std::string w = ref::be(2, x) + ref::be(4, f) + ref::be(2, h); H::note() = "Tune/TuneOk " + H::hex(w);
        { Exact e(w + tail); methods::Tune m; H::check(methods::Tune::decode(&m, e.b) && m.channelMax() == x && m.frameMax() == f && m.heartbeatInterval() == h && e.b.offset() == 8, "Tune differs");
          Exact o(12); H::check(Method::encode(o.b, m) && o.str(12) == ref::be(2, 10) + ref::be(2, 30) + w, "Tune re-encoding differs"); }
        { Exact e(w + tail); methods::TuneOk m; H::check(methods::TuneOk::decode(&m, e.b) && m.channelMax() == x && m.frameMax() == f && m.heartbeatInterval() == h && e.b.offset() == 8, "TuneOk differs");
          Exact o(12); H::check(Method::encode(o.b, m) && o.str(12) == ref::be(2, 10) + ref::be(2, 31) + w, "TuneOk re-encoding differs"); }
        { methods::Tune m(x, f, h); Exact o(12); H::check(Method::encode(o.b, m) && o.str(12) == ref::be(2, 10) + ref::be(2, 30) + w, "Tune encoding differs"); }
        cut(w, [](Buffer &q) { methods::Tune m; return methods::Tune::decode(&m, q); });
        cut(w, [](Buffer &q) { methods::TuneOk m; return methods::TuneOk::decode(&m, q); });
    }
    {
        std::string w = ref::encStr(1, a) + std::string(2, 0); H::note() = "Open " + H::hex(w);
        Exact e(w); methods::Open m; H::check(methods::Open::decode(&m, e.b) && m.virtualHost() == a, "Open differs");
        Exact o(w.size() + 4); H::check(Method::encode(o.b, m) && o.str(o.n) == ref::be(2, 10) + ref::be(2, 40) + w, "Open re-encoding differs");
        cut(ref::encStr(1, a), [](Buffer &q) { methods::Open m; return methods::Open::decode(&m, q); });
        Exact e2(ref::encStr(1, a)); methods::OpenOk k; H::check(methods::OpenOk::decode(&k, e2.b), "OpenOk not decoded");
        Exact o2(5); H::check(Method::encode(o2.b, k) && o2.str(5) == ref::be(2, 10) + ref::be(2, 41) + std::string(1, 0), "OpenOk encoding differs");
    }
    {
        uint16_t k = (uint16_t)r.edgy(16), x = (uint16_t)r.edgy(16), y = (uint16_t)r.edgy(16);
        std::string w = ref::be(2, k) + ref::encStr(1, a) + ref::be(2, x) + ref::be(2, y); H::note() = "Close " + H::hex(w);
        Exact e(w + tail); methods::Close m; H::check(methods::Close::decode(&m, e.b) && m.replyCode() == k && m.replyString() == a && m.classId() == x && m.methodId() == y && e.b.offset() == w.size(), "Close differs");
        Exact o(w.size() + 4); H::check(Method::encode(o.b, m) && o.str(o.n) == ref::be(2, 10) + ref::be(2, 50) + w, "Close re-encoding differs");
        cut(w, [](Buffer &q) { methods::Close m; return methods::Close::decode(&m, q); });
        methods::Close n; n.setReply(k, a); w = ref::be(2, k) + ref::encStr(1, a) + ref::be(4, 0);
        Exact o2(w.size() + 4); H::check(Method::encode(o2.b, n) && o2.str(o2.n) == ref::be(2, 10) + ref::be(2, 50) + w, "fresh Close encoding differs");
        Exact o3(4); H::check(Method::encode(o3.b, methods::CloseOk()) && o3.str(4) == ref::be(2, 10) + ref::be(2, 51), "CloseOk encoding differs");
        std::string mm = ref::be(2, x) + ref::be(2, y) + a; H::note() = "Method " + H::hex(mm);
        Exact em(mm); Method q; H::check(Method::decode(&q, em.mem.get(), em.n) && q.classType == x && q.methodType == y && q.length == a.size() && (a.empty() || q.payload == em.mem.get() + 4), "Method differs");
        for (size_t n2 = 0; n2 < 4; ++n2) { Exact es(mm.substr(0, n2)); H::check(!Method::decode(&q, es.mem.get(), n2), "short method decoded"); }
    }
}

static void p05(Rng &r)
{
    const size_t MAX = Frame::getMaxFrameSize();
    std::string pl = r.chance(2) ? r.bytes(MAX - 8 - r.below(3)) : r.bytes(r.below(60));
    uint8_t ty = (uint8_t)r.edgy(8);
    uint16_t ch = (uint16_t)r.edgy(16);
    std::string w = ref::frame(ty, ch, pl), tail = r.bytes(r.below(12));
    {
        H::note() = "frame " + H::hex(w);
        Exact e(w + tail); Frame f; const void *end = nullptr; size_t rem = 12345;
        H::check(Frame::decode(&f, &end, &rem, e.mem.get(), e.n), "complete frame reported incomplete");
        H::check(f.type == ty && f.channel == ch && f.length == pl.size() && f.payload == e.mem.get() + 7, "frame fields differ");
        H::check(end == e.mem.get() + w.size() && rem == tail.size(), "frame delimited wrongly");
        Frame g; g.type = ty; g.channel = ch; g.length = pl.size(); g.payload = pl.data();
        Exact o(w.size()); size_t wr = 0; H::check(Frame::encode(o.mem.get(), &wr, g) && wr == w.size() && o.str(wr) == w, "frame encoding differs");
    }
    {
        size_t n = r.below(w.size());
        H::note() = "truncated frame, " + std::to_string(n) + " of " + H::hex(w);
        Exact e(w.substr(0, n)); Frame f; const void *end = e.mem.get(); size_t rem = 777;
        H::check(!Frame::decode(&f, &end, &rem, e.mem.get(), e.n), "incomplete frame accepted");
        H::check(end == e.mem.get() && rem == 777, "incomplete frame consumed");
    }
    {
        std::string bad = w; bad.back() = (char)((unsigned char)0xCE ^ r.range(1, 255));
        H::note() = "bad end octet " + H::hex(bad);
        Exact e(bad + tail); Frame f; const void *end = e.mem.get(); size_t rem = 777; bool threw = false;
        try { Frame::decode(&f, &end, &rem, e.mem.get(), e.n); } catch (const std::runtime_error &) { threw = true; }
        H::check(threw && end == e.mem.get() && rem == 777, "frame without end octet accepted");
    }
    {
        uint64_t big = r.chance(50) ? MAX - 7 + r.below(5) : 0xffffffffull - r.below(20);
        std::string h = ref::be(1, ty) + ref::be(2, ch) + ref::be(4, big) + "x"; H::note() = "declared length " + std::to_string(big);
        Exact e(h); Frame f; const void *end = e.mem.get(); size_t rem = 777; bool threw = false, got = false;
        try { got = Frame::decode(&f, &end, &rem, e.mem.get(), e.n); } catch (const std::runtime_error &) { threw = true; }
        H::check(threw && !got, "oversized frame not refused");
        h = ref::be(1, ty) + ref::be(2, ch) + ref::be(4, MAX - 8) + "x"; Exact e2(h);
        H::check(!Frame::decode(&f, &end, &rem, e2.mem.get(), e2.n), "incomplete frame of maximum size");
        Frame g; g.type = ty; g.channel = ch; std::string p2 = std::string(MAX - 7 + r.below(4), 'x'); g.length = p2.size(); g.payload = p2.data();
        Exact o(64); size_t wr = 0; H::note() = "encode oversized frame"; H::check(!Frame::encode(o.mem.get(), &wr, g), "oversized frame encoded");
    }
}

int main(int argc, char **argv)
{
    H::init(argc, argv);
    auto m = H::mode();
    return H::loop(m == "P01" ? p01 : m == "P02" ? p02 : m == "P03" ? p03 : m == "P04" ? p04 : p05);
}
