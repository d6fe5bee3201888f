/* Common helpers of the harnesses: JSON event writer and exact projection of
 * floating point values to scaled integers. A value that is not (within 1e-6)
 * a multiple of 1/scale is written as the sentinel 999999999, which no
 * specification accepts. */
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace vh {

constexpr long SENTINEL = 999999999;

inline long Q(double x, double scale = 1.0, double tol = 1e-6)
{
    double y = x * scale;
    if (!std::isfinite(y) || std::fabs(y) > 5e8) return SENTINEL;
    double r = std::nearbyint(y);
    if (std::fabs(y - r) > tol * std::max(1.0, std::fabs(r) * 1e-3)) return SENTINEL;
    return long(r);
}

/* tiny JSON builder */
struct J
{
    std::string s;
    bool first = true;
    char close = 0;
    static std::string esc(const std::string& x)
    {
        std::string r = "\"";
        for (char c : x) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if ((unsigned char)c < 32) r += ' ';
            else r += c;
        }
        return r + "\"";
    }
};

template<typename T> std::string js(const T& x);
inline std::string js(const std::string& x) { return J::esc(x); }
inline std::string js(const char* x) { return J::esc(x); }
inline std::string js(bool x) { return x ? "true" : "false"; }
inline std::string js(long x) { return std::to_string(x); }
inline std::string js(int x) { return std::to_string(x); }
inline std::string js(size_t x) { return x > 2000000000UL ? std::to_string(SENTINEL) : std::to_string(x); }
template<typename A, typename B> std::string js(const std::pair<A, B>& p);
template<typename T> std::string js(const std::set<T>& v);
template<typename T> std::string js(const std::vector<T>& v)
{
    std::string r = "[";
    bool f = true;
    for (const auto& x : v) { if (!f) r += ","; f = false; r += js(T(x)); }
    return r + "]";
}
template<typename T> std::string js(const std::set<T>& v)
{
    return js(std::vector<T>(v.begin(), v.end()));
}
template<typename A, typename B> std::string js(const std::pair<A, B>& p)
{
    return "[" + js(p.first) + "," + js(p.second) + "]";
}

struct Obj
{
    std::string s = "{";
    bool first = true;
    template<typename T> Obj& operator()(const char* k, const T& v)
    {
        if (!first) s += ",";
        first = false;
        s += J::esc(k) + ":" + js(v);
        return *this;
    }
    Obj& raw(const char* k, const std::string& v)
    {
        if (!first) s += ",";
        first = false;
        s += J::esc(k) + ":" + v;
        return *this;
    }
    std::string str() const { return s + "}"; }
};

struct Trace
{
    std::ofstream ofs;
    Trace(const std::string& f) : ofs(f) { if (!ofs) { std::cerr << "cannot write " << f << std::endl; _exit(97); } }
    void emit(const Obj& o) { ofs << o.str() << "\n"; ofs.flush(); }
};

/* run f, and report an exception of the code under test as an event */
inline void guarded(Trace& tr, const std::string& what, const std::function<void()>& f)
{
    try { f(); }
    catch (const std::exception& e) { tr.emit(Obj()("ev", "Exception")("where", what)("msg", std::string(e.what()).substr(0, 200))); }
    catch (...) { tr.emit(Obj()("ev", "Exception")("where", what)("msg", "unknown")); }
}

/* deterministic generator, independent of libstdc++ distributions */
struct Rng
{
    unsigned long long s;
    Rng(unsigned long long seed) : s(seed * 6364136223846793005ULL + 1442695040888963407ULL) { next(); next(); }
    unsigned next() { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return unsigned(s >> 33); }
    int range(int lo, int hi) { return lo + int(next() % unsigned(hi - lo + 1)); }
};

} // namespace vh
