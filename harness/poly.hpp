/* Polynomial fields named as in spec/PolySpaces.tla, and sample lattices. Grid
 * coordinates X = S x, S an integer; everything sampled is an integer there. */
#pragma once
#include "meshbuild.hpp"
#include "meshdump.hpp"
#include <Eigen/Dense>
#include <complex>
namespace vh {
using VL = std::vector<long>;
using MX = Eigen::MatrixXd;
using VX = Eigen::VectorXd;

inline double dpow(double x, long e) { double r = 1; while (e-- > 0) r *= x; return r; }
struct Poly { std::vector<std::pair<double, VL>> t;
    double operator()(const std::vector<double>& x) const
    { double r = 0; for (auto& [c, e] : t) { double v = c; for (size_t k = 0; k < e.size(); k++) v *= dpow(x[k], e[k]); r += v; } return r; } };
inline Poly pmono(const VL& e) { return Poly{{{1.0, e}}}; }
inline Poly padd(const Poly& a, const Poly& b) { Poly r = a; r.t.insert(r.t.end(), b.t.begin(), b.t.end()); return r; }
inline Poly pscale(double c, const Poly& a) { Poly r = a; for (auto& x : r.t) x.first *= c; return r; }
inline Poly pmul(const Poly& a, const Poly& b)
{ Poly r; for (auto& x : a.t) for (auto& y : b.t) { VL e = x.second; for (size_t k = 0; k < e.size(); k++) e[k] += y.second[k]; r.t.push_back({x.first * y.first, e}); } return r; }
inline Poly pd(const Poly& a, size_t k)
{ Poly r; for (auto& [c, e] : a.t) if (e[k] > 0) { VL f = e; f[k]--; r.t.push_back({c * e[k], f}); } return r; }
inline Poly pvar(size_t d, size_t k) { VL e(d, 0); e[k] = 1; return pmono(e); }
using Field = std::vector<Poly>;
inline const std::vector<std::vector<VL>>& iso(size_t d)
{
    static std::vector<std::vector<VL>> i2 = {{{1, 0}, {0, 1}}};
    static std::vector<std::vector<VL>> i3 = {{{1, 0, 0}, {0, 1, 0}}, {{1, 0, 0}, {0, 0, 1}}, {{0, 1, 0}, {0, 0, 1}},
                                              {{3, 4, 0}, {0, 0, 5}}, {{3, 0, 4}, {0, 5, 0}}, {{0, 3, 4}, {5, 0, 0}}};
    return d == 2 ? i2 : i3;
}
inline Field tangential(const Field& w, const VL& N)
{
    double n2 = 0; for (auto x : N) n2 += x * x;
    Field r;
    for (size_t i = 0; i < w.size(); i++) {
        Poly p = pscale(n2, w[i]);
        for (size_t k = 0; k < w.size(); k++) p = padd(p, pscale(-double(N[i] * N[k]), w[k]));
        r.push_back(p);
    }
    return r;
}
inline Field field(const VL& g, size_t d, size_t nc, const VL& N)
{
    VL e; for (size_t k = 0; k < d; k++) e.push_back(g[0] == 7 ? 0 : g[k + 1]);
    Poly m = pmono(e), z;
    auto mx = [&](size_t k) { return pmul(m, pvar(d, k)); };
    Field r;
    auto mat = [&](auto f) { for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) r.push_back(f(i, j)); };
    long a = g.size() > d + 1 ? g[d + 1] - 1 : 0, b = g.size() > d + 2 ? g[d + 2] - 1 : 0;
    switch (g[0]) {
        case 0: for (size_t i = 0; i < nc; i++) r.push_back(long(i) == a ? m : z); break;
        case 1: for (size_t i = 0; i < d; i++) r.push_back(mx(i)); break;
        case 2: mat([&](long i, long j) { return i == a ? mx(j) : z; }); break;
        case 3: mat([&](long i, long j) { return padd(i == a ? mx(j) : z, j == a ? mx(i) : z); }); break;
        case 4: mat([&](long i, long j) { return padd(i == a && j == b ? m : z, j == a && i == b ? m : z); }); break;
        case 5: { Field w(d, z); w[a] = m; r = tangential(w, N); } break;
        case 6: { Field w; for (size_t k = 0; k < d; k++) w.push_back(pd(m, k)); r = tangential(w, N); } break;
        case 8: for (size_t k = 0; k < d; k++) r.push_back(pd(m, k)); break;
        case 7: {
            auto& v = iso(d)[g[2] - 1];
            auto lin = [&](const VL& c) { Poly p; for (size_t k = 0; k < d; k++) if (c[k]) p.t.push_back(pscale(c[k], pvar(d, k)).t[0]); return p; };
            Poly re = lin(v[0]), im = lin(v[1]), cr = re, ci = im;
            for (long n = 1; n < g[1]; n++) { Poly t = padd(pmul(re, cr), pscale(-1, pmul(im, ci))); ci = padd(pmul(re, ci), pmul(im, cr)); cr = t; }
            r.push_back(g[3] == 0 ? cr : ci);
        } break;
    }
    return r;
}
inline std::vector<VL> exps(size_t d, long n, bool eq)
{
    std::vector<VL> r;
    VL e(d, 0);
    std::function<void(size_t, long)> go = [&](size_t k, long left) {
        if (k == d) { if (!eq || left == 0) r.push_back(e); return; }
        for (long x = 0; x <= left; x++) { e[k] = x; go(k + 1, left - x); }
        e[k] = 0;
    };
    if (n >= 0) go(0, n);
    return r;
}
inline void mk(std::vector<VL>& out, long t, const std::vector<VL>& E, const std::vector<VL>& S)
{ for (auto& e : E) for (auto& s : S) { VL g = {t}; g.insert(g.end(), e.begin(), e.end()); g.insert(g.end(), s.begin(), s.end()); out.push_back(g); } }
inline std::vector<VL> upto(long n) { std::vector<VL> r; for (long i = 1; i <= n; i++) r.push_back({i}); return r; }
inline std::vector<VL> pairs_le(long n) { std::vector<VL> r; for (long i = 1; i <= n; i++) for (long j = 1; j <= n; j++) r.push_back({i, j}); return r; }
inline std::vector<VL> gens(const std::string& f, long k, long d, long p = 0)
{
    std::vector<VL> r;
    if (f == "scal") mk(r, 0, exps(d, k, false), {{1}});
    if (f == "vec") mk(r, 0, exps(d, k, false), upto(d));
    if (f == "mat") mk(r, 0, exps(d, k, false), upto(d * d));
    if (f == "sym") mk(r, 4, exps(d, k, false), pairs_le(d));
    if (f == "rt") { mk(r, 0, exps(d, k - 1, false), upto(d)); mk(r, 1, exps(d, k - 1, true), {{}}); }
    if (f == "matrt") { mk(r, 0, exps(d, k - 1, false), upto(d * d)); mk(r, 2, exps(d, k - 1, true), upto(d)); }
    if (f == "symrt") { mk(r, 4, exps(d, k - 1, false), pairs_le(d)); mk(r, 3, exps(d, k - 1, true), upto(d)); }
    if (f == "tang") mk(r, 5, exps(d, k, false), upto(d));
    if (f == "ned") { mk(r, 5, exps(d, k - 1, false), upto(d)); mk(r, 6, exps(d, k + 1, false), {{}}); }
    if (f == "grads") for (auto& e : exps(d, k, false)) { long t = 0; for (auto x : e) t += x; if (t > 0) mk(r, 8, {e}, {{}}); }
    if (f == "harm") {
        mk(r, 0, exps(d, p, false), {{1}});
        for (long n = p + 1; n <= k; n++) for (size_t v = 1; v <= iso(d).size(); v++) for (long q = 0; q < 2; q++) r.push_back({7, n, long(v), q});
    }
    return r;
}
inline long ncomp(const std::string& f, long d)
{ return f == "scal" || f == "harm" ? 1 : f == "mat" || f == "sym" || f == "matrt" || f == "symrt" ? d * d : d; }

/* sample lattice of an element, in grid coordinates (1/S) relative to an origin */
struct Lat
{
    long S = 1, n = 0;
    std::vector<double> org;  // grid coordinates of the origin (integers)
    VL p0;
    std::vector<VL> dirs, idx, ex;
    std::vector<std::vector<double>> X() const
    {
        std::vector<std::vector<double>> r;
        auto add = [&](const VL& i) { std::vector<double> x(p0.begin(), p0.end()); for (size_t a = 0; a < dirs.size(); a++) for (size_t k = 0; k < x.size(); k++) x[k] += double(i[a]) * dirs[a][k]; r.push_back(x); };
        for (auto& i : idx) add(i);
        for (auto& i : ex) add(i);
        return r;
    }
    template<typename P> P phys(const std::vector<double>& x) const { P p; for (size_t k = 0; k < x.size(); k++) p[k] = (x[k] + org[k]) / double(S); return p; }
    template<typename P> std::vector<double> grid(const P& p) const { std::vector<double> x; for (size_t k = 0; k < org.size(); k++) x.push_back(double(p[k]) * S - org[k]); return x; }
    void indices(Rng& g)
    {
        idx.clear(); ex.clear();
        VL e(dirs.size(), 0);
        std::function<void(size_t, long)> go = [&](size_t k, long left) {
            if (k == dirs.size()) { idx.push_back(e); return; }
            for (long x = 0; x <= left; x++) { e[k] = x; go(k + 1, left - x); }
            e[k] = 0;
        };
        go(0, n);
        for (int t = 0; t < 3 && !dirs.empty(); t++) { VL i; for (size_t k = 0; k < dirs.size(); k++) i.push_back(g.range(0, n)); ex.push_back(i); }
    }
    VL normal() const
    {
        if (dirs.size() != 2 || p0.size() != 3) return VL(3, 0);
        auto &u = dirs[0], &v = dirs[1];
        return {u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]};
    }
    void put(Obj& o) const { o("p0", p0)("dirs", dirs)("n", n)("ex", ex); }
};
template<typename P> Lat cell_lattice(const P& bar, size_t d, long scale, long n, Rng& g)
{
    Lat L; L.S = scale; L.n = n;
    for (size_t k = 0; k < d; k++) { L.org.push_back(std::nearbyint(double(bar[k]) * scale)); L.p0.push_back(-(n / 2)); VL u(d, 0); u[k] = 1; L.dirs.push_back(u); }
    L.indices(g);
    return L;
}
/* faces: a lattice of order n on the first edge / the first non-degenerate corner */
template<typename PS> Lat face_lattice(const PS& ps, size_t d, long scale, long n, Rng& g)
{
    Lat L; L.n = n; L.S = scale * std::max(n, 1L);
    auto G = [&](size_t i) { VL x; for (size_t k = 0; k < d; k++) x.push_back(std::lround(double(ps[i][k]) * scale)); return x; };
    VL a = G(0);
    for (size_t k = 0; k < d; k++) L.p0.push_back(0);
    auto diff = [&](size_t i) { VL x = G(i); for (size_t k = 0; k < d; k++) x[k] -= a[k]; return x; };
    if (d >= 2) L.dirs.push_back(diff(1));
    if (d == 3)
        for (size_t i = 2; i < ps.size(); i++) {
            L.dirs.push_back(diff(i));
            auto N = L.normal();
            if (N[0] || N[1] || N[2]) break;
            L.dirs.pop_back();
        }
    for (size_t k = 0; k < d; k++) {
        long s = 0;
        for (auto& u : L.dirs) s += u[k];
        long mid = s * n / (long(L.dirs.size()) + 1);
        L.p0[k] = -mid;
        L.org.push_back(double(a[k] * std::max(n, 1L) + mid));
    }
    L.indices(g);
    return L;
}
/* integer values, tolerance relative to the largest one */
inline VL ints(const std::vector<double>& v, double rel = 1e-8, double lo = 1e-6)
{
    double M = 1;
    for (auto x : v) if (std::isfinite(x)) M = std::max(M, std::fabs(x));
    double tol = std::max(lo, rel * M);
    VL r;
    for (auto x : v) { double q = std::nearbyint(x); r.push_back(!std::isfinite(x) || std::fabs(x) > 5e8 || std::fabs(x - q) > std::min(tol, 0.2) ? SENTINEL : long(q)); }
    return r;
}
/* limbs (base 10^4) of a value times 10^8; anything not finite or clearly
 * negative is a huge number, which no moment equals */
inline VL limbs(long double x)
{
    x *= 1e8L;
    if (!(x > -1e3L) || !(x < 1e300L)) return VL(2000, 9999);
    if (x < 0) x = 0;
    char buf[400];
    snprintf(buf, sizeof(buf), "%.0Lf", x);
    std::string s(buf);
    VL r;
    for (int i = int(s.size()); i > 0; i -= 4) { int b = std::max(0, i - 4); r.push_back(atol(s.substr(b, i - b).c_str())); }
    return r;
}
inline long double rising(int q, int d) { long double r = 1; for (int i = 1; i <= d; i++) r *= q + i; return r; }
/* coordinate along which a face is measured, and the ratio of the measures */
template<typename PS> std::pair<int, long double> face_measure(const PS& ps, size_t D)
{
    int k = 0; long double ratio = 1;
    if (D == 2) {
        double dx = double(ps[1][0]) - double(ps[0][0]), dy = double(ps[1][1]) - double(ps[0][1]), n = std::sqrt(dx * dx + dy * dy);
        k = std::fabs(dx) >= std::fabs(dy) ? 1 : 2;
        ratio = (k == 1 ? std::fabs(dx) : std::fabs(dy)) / (long double)(n);
    }
    if (D == 3) {
        double n[3] = {0, 0, 0};
        for (size_t a = 0; a < ps.size(); a++) {
            auto& p = ps[a]; auto& q = ps[(a + 1) % ps.size()];
            for (int c = 0; c < 3; c++) n[c] += double(p[(c + 1) % 3]) * double(q[(c + 2) % 3]) - double(p[(c + 2) % 3]) * double(q[(c + 1) % 3]);
        }
        double nn = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
        for (int c = 0; c < 3; c++) if (k == 0 || std::fabs(n[c]) > std::fabs(n[k - 1])) k = c + 1;
        ratio = std::fabs(n[k - 1]) / (long double)(nn);
    }
    return {k, ratio};
}
} // namespace vh
