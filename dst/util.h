#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <algorithm>
#include <sstream>

struct Rng { // splitmix64/xorshift: the only source of choices
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull)); return r.next(); }
struct Hash {
    uint64_t h = 1469598103934665603ull;
    void add(const void *p, size_t n)
    {
        auto c = (const unsigned char *)p;
        for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    }
    void add(const std::string &s) { add(s.data(), s.size()); num(s.size()); }
    void num(uint64_t v) { add(&v, sizeof v); }
};
inline std::string esc(const std::string &s)
{
    std::string o;
    char b[8];
    for (unsigned char c : s) {
        if (c == '\\') o += "\\\\";
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c == 127) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
inline std::string unesc(const std::string &s)
{
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] != '\\') { o += s[i]; continue; }
        i++;
        if (i >= s.size()) break;
        if (s[i] == 'n') o += '\n';
        else if (s[i] == 'x') { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else o += s[i];
    }
    return o;
}
inline std::string jstr(const std::string &s)
{
    std::string o = "\"";
    char b[8];
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c == 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else if (c < 128) o += c;
        else { // keep valid UTF-8 sequences, replace anything else
            int n = c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : c >= 0xC2 ? 1 : 0;
            bool ok = n > 0 && i + n < s.size() + 0 && c < 0xF5;
            for (int k = 1; ok && k <= n; k++) ok = i + k < s.size() && ((unsigned char)s[i + k] & 0xC0) == 0x80;
            if (ok && c == 0xE0 && (unsigned char)s[i+1] < 0xA0) ok = false;
            if (ok && c == 0xED && (unsigned char)s[i+1] > 0x9F) ok = false;
            if (ok && c == 0xF0 && (unsigned char)s[i+1] < 0x90) ok = false;
            if (ok && c == 0xF4 && (unsigned char)s[i+1] > 0x8F) ok = false;
            if (ok) { o += s.substr(i, n + 1); i += n; }
            else { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        }
    }
    return o + "\"";
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
#include <cstdarg>
inline std::string fmt(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    char b[4096];
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
inline bool starts(const std::string &s, const std::string &p) { return s.compare(0, p.size(), p) == 0; }
inline bool ends(const std::string &s, const std::string &p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
