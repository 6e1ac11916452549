// Independent reference of the wire format (AMQP 0-9-1 as amended by RabbitMQ), written from the specification.
#pragma once
#include "harness.h"
namespace ref {
struct Val;
using Table = std::vector<std::pair<std::string, Val>>;
struct Val {
    char type = 'V';
    int64_t num = 0;
    std::string bytes;
    std::vector<Val> arr;
    Table tab;
};
inline std::string be(int n, uint64_t v)
{
    std::string s;
    for (int k = n - 1; k >= 0; --k) s += (char)(v >> (8 * k));
    return s;
}
inline std::string encStr(int w, const std::string &s) { return be(w, s.size()) + s; }
inline std::string encTable(const Table &t);
inline std::string encArray(const std::vector<Val> &a);
inline int width(char t)
{
    switch (t) {
    case 'b': case 'B': case 't': return 1;
    case 's': case 'u': case 'U': return 2;
    case 'I': case 'i': return 4;
    case 'l': case 'L': case 'T': return 8;
    }
    return 0;
}
inline bool isSigned(char t) { return strchr("bsUIlL", t) != nullptr; }
inline int rawWidth(char t) { return t == 'f' ? 4 : t == 'd' ? 8 : t == 'D' ? 5 : 0; }
inline std::string encValue(const Val &v)
{
    std::string s(1, v.type);
    if (width(v.type)) return s + be(width(v.type), (uint64_t)v.num);
    if (rawWidth(v.type)) return s + v.bytes;
    if (v.type == 'S' || v.type == 'x') return s + encStr(4, v.bytes);
    if (v.type == 'A') return s + encArray(v.arr);
    if (v.type == 'F') return s + encTable(v.tab);
    return s;
}
inline std::string encArray(const std::vector<Val> &a)
{
    std::string s;
    for (auto &v : a) s += encValue(v);
    return encStr(4, s);
}
inline std::string encTable(const Table &t)
{
    std::string s;
    for (auto &e : t) s += encStr(1, e.first) + encValue(e.second);
    return encStr(4, s);
}
inline std::string frame(uint8_t ty, uint16_t ch, const std::string &pl)
{
    return be(1, ty) + be(2, ch) + encStr(4, pl) + (char)0xCE;
}
inline std::string method(uint16_t cls, uint16_t m, const std::string &args, uint16_t ch = 0)
{
    return frame(1, ch, be(2, cls) + be(2, m) + args);
}
inline Val gen(H::Rng &r, int depth);
inline std::vector<Val> genArray(H::Rng &r, int depth)
{
    std::vector<Val> a;
    for (size_t n = r.below(5); n > 0; --n) a.push_back(gen(r, depth - 1));
    return a;
}
inline Table genTable(H::Rng &r, int depth)
{
    Table t;
    for (size_t n = r.below(6); n > 0; --n)
        t.emplace_back(r.chance(3) ? r.bytes(r.range(200, 255)) : r.bytes(r.below(9)), gen(r, depth - 1));
    return t;
}
inline Val gen(H::Rng &r, int depth)
{
    static const char ty[] = "tbBsuIilLTfdDSxVAF";
    Val v;
    v.type = ty[r.below(depth > 0 ? 18 : 16)];
    int w = width(v.type);
    if (v.type == 't') v.num = (int64_t)r.below(2);
    else if (w) {
        uint64_t x = r.edgy(8 * w);
        if (isSigned(v.type) && w < 8 && (x >> (8 * w - 1))) x |= ~0ull << (8 * w);
        v.num = (int64_t)x;
    }
    else if (rawWidth(v.type)) v.bytes = r.bytes(rawWidth(v.type));
    else if (v.type == 'S' || v.type == 'x') v.bytes = r.bytes(r.chance(3) ? r.below(70000) : r.below(20));
    else if (v.type == 'A') v.arr = genArray(r, depth);
    else if (v.type == 'F') v.tab = genTable(r, depth);
    return v;
}
inline bool rd(const std::string &s, size_t &p, size_t e, int n, uint64_t &v)
{
    if (e - p < (size_t)n) return false;
    v = 0;
    for (int k = 0; k < n; ++k) v = (v << 8) | (unsigned char)s[p + k];
    p += n;
    return true;
}
inline bool decStr(const std::string &s, size_t &p, size_t e, int w, std::string &o)
{
    uint64_t n;
    if (!rd(s, p, e, w, n) || n > e - p) return false;
    o = s.substr(p, n);
    p += n;
    return true;
}
inline bool decTable(const std::string &s, size_t &p, size_t e, Table &t);
inline bool decValue(const std::string &s, size_t &p, size_t e, Val &v)
{
    uint64_t t, n;
    if (!rd(s, p, e, 1, t)) return false;
    v = Val();
    v.type = (char)t;
    if (int w = t < 128 ? width((char)t) : 0) {
        if (!rd(s, p, e, w, n)) return false;
        if (t == 't') n = n != 0;
        else if (isSigned(v.type) && w < 8 && (n >> (8 * w - 1))) n |= ~0ull << (8 * w);
        v.num = (int64_t)n;
        if (t == 'U') v.type = 's';
        return true;
    }
    if (int w = rawWidth(v.type)) {
        if (e - p < (size_t)w) return false;
        v.bytes = s.substr(p, w);
        p += w;
        return true;
    }
    switch (v.type) {
    case 'V': return true;
    case 'S': case 'x': return decStr(s, p, e, 4, v.bytes);
    case 'F': return decTable(s, p, e, v.tab);
    case 'A': {
        if (!rd(s, p, e, 4, n) || n > e - p) return false;
        size_t q = p + n;
        while (p < q) { Val x; if (!decValue(s, p, q, x)) return false; v.arr.push_back(x); }
        return true; }
    }
    return false;
}
inline bool decTable(const std::string &s, size_t &p, size_t e, Table &t)
{
    uint64_t n;
    if (!rd(s, p, e, 4, n) || n > e - p) return false;
    size_t q = p + n;
    while (p < q) {
        std::string k;
        Val v;
        if (!decStr(s, p, q, 1, k) || !decValue(s, p, q, v)) return false;
        t.emplace_back(k, v);
    }
    return true;
}
}
