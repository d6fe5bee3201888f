/* Events about local operators applied to polynomials: see spec/HHOTrace.tla */
#pragma once
#include "poly.hpp"
namespace vh {
struct Degs { long rd, cd, gd; VL fds; };
struct Comb { std::vector<VL> mem; VL coef; std::string fam; long deg; Field F; };

inline Comb comb(const std::string& fam, long deg, long d, Rng& g, long par = 0)
{
    Comb c; c.fam = fam; c.deg = deg;
    c.mem = gens(fam, deg, d, par);
    long nc = ncomp(fam, d);
    c.F.resize(nc);
    for (auto& m : c.mem) {
        long x = g.range(1, 3) * (g.range(0, 1) ? 1 : -1);
        c.coef.push_back(x);
        auto f = field(m, d, nc, {});
        for (long i = 0; i < nc; i++) c.F[i] = padd(c.F[i], pscale(x, f[i]));
    }
    return c;
}
inline long rec_exact(const Degs& g, long rd)
{
    for (long p = g.rd + g.gd + 2; p >= 0; p--) {
        bool ok = p <= rd && (p <= g.cd || rd - 2 <= g.cd);
        for (auto f : g.fds) ok = ok && (p <= f || rd - 1 <= f);
        if (ok) return p;
    }
    return 0;
}
inline long facemin(const Degs& g) { long r = 1000; for (auto f : g.fds) r = std::min(r, f); return r; }
inline bool fall(const Degs& g, long n) { return facemin(g) >= n; }
inline long exact(const std::string& op, const Degs& g)
{
    auto cellok = [&](long p, long n) { return p <= g.cd || n <= g.cd; };
    auto faceok = [&](long p, long n) { for (auto f : g.fds) if (!(p <= f || n <= f)) return false; return true; };
    for (long p = g.rd + g.gd + 2; p >= 0; p--) {
        bool ok = false;
        if (op == "rec") ok = p <= rec_exact(g, g.rd);
        if (op == "fproj") ok = p <= g.rd && (p <= g.cd || (g.rd - 2 <= g.cd && fall(g, g.rd - 1)));
        if (op == "harm") ok = p <= std::min(g.rd, g.cd + 2) && faceok(p, g.rd - 1);
        if (op == "harmproj") ok = p <= std::min(g.rd, g.cd + 2) && (p <= g.cd || fall(g, g.rd - 1));
        if (op == "sfl") ok = p <= std::min(g.rd, g.cd + 2) && p <= rec_exact(g, facemin(g) + 1);
        if (op == "grad") ok = p <= g.gd + 1 && cellok(p, g.gd - 1) && faceok(p, g.gd);
        if (op == "rt") ok = p <= g.gd && cellok(p, g.gd - 1) && faceok(p, g.gd - 1);
        if (op == "symrt") ok = p <= g.gd && cellok(p, g.gd - 1) && faceok(p, g.gd);
        if (op == "ned") { ok = p <= g.gd + 1 && cellok(p, g.gd - 1); for (auto f : g.fds) ok = ok && (p <= f - 1 || g.gd <= f - 1); ok = ok || p == 0; }
        if (op == "sequence") ok = p <= facemin(g) + 1 && (p - 1 <= g.cd || g.gd - 1 <= g.cd);
        if (op == "cellface") ok = p <= g.cd && p <= facemin(g);
        if (op == "cell") ok = p <= g.cd;
        if (ok) return p;
    }
    return 0;
}
inline Obj& degs(Obj& o, const Degs& g)
{
    Obj x; x("rd", g.rd)("cd", g.cd)("gd", g.gd)("fds", g.fds);
    o.raw("g", x.str());
    return o;
}
inline void head(Obj& o, const std::string& what, const std::string& op, const Degs& g, long d, long ci, const Comb& c)
{
    o("what", what)("op", op)("fam", c.fam)("d", d)("i", ci)("deg", c.deg)("mem", c.mem)("coef", c.coef);
    degs(o, g);
}
/* what the operator gives at the points of the lattice */
inline void recon(Trace& tr, const std::string& what, const std::string& op, const std::string& oper, const Degs& g, long d, long ci, const Comb& c, const Lat& L,
                  const std::function<std::vector<double>(const std::vector<double>&)>& at, double scale)
{
    guarded(tr, what, [&]() {
        std::vector<double> v;
        for (auto& x : L.X()) for (auto y : at(x)) v.push_back(y * scale);
        Obj o; o("ev", "Recon")("oper", oper)("val", ints(v, 1e-8, 1e-2));
        head(o, what, op, g, d, ci, c);
        L.put(o);
        tr.emit(o);
    });
}
inline VL zeros(const VX& r, double ref, double tol = 1e-8)
{
    VL v;
    for (long i = 0; i < r.size(); i++) { double q = r(i) / (ref * tol); v.push_back(!(std::fabs(q) < 1e8) ? SENTINEL : std::lround(q / 2)); }
    return v;
}
inline void kernel(Trace& tr, const std::string& what, const std::string& op, const Degs& g, long d, long ci, const Comb& c, const MX& S, const VX& u, double floor = 0)
{
    guarded(tr, what, [&]() {
        VX r = S.cols() == u.size() ? VX(S * u) : VX(VX::Constant(1, 1e300));
        double ref = 1e-300 + std::max(floor, S.cwiseAbs().maxCoeff()) * u.cwiseAbs().maxCoeff();
        Obj o; o("ev", "Kernel")("size", S.rows())("v", zeros(r, ref));
        head(o, what, op, g, d, ci, c);
        tr.emit(o);
    });
}
inline void form(Trace& tr, const std::string& what, const std::string& kind, const Degs& g, long d, long nc, long ci, const MX& A, const std::string& op = "")
{
    guarded(tr, what, [&]() {
        MX B = A;
        double M = 1e-300 + A.cwiseAbs().maxCoeff();
        long asym = std::lround((A - A.transpose()).cwiseAbs().maxCoeff() / M * 1e7);
        for (long i = 0; i < A.rows(); i++) for (long j = 0; j < A.cols(); j++) {
            double di = A(i, i), dj = A(j, j);
            B(i, j) = di > 0 && dj > 0 ? 0.5 * (A(i, j) + A(j, i)) / std::sqrt(di * dj) : (A(i, j) == 0 ? 0 : 1e6);
        }
        long rank = 0, neg = 0;
        if (A.allFinite()) {
            Eigen::SelfAdjointEigenSolver<MX> es(B, Eigen::EigenvaluesOnly);
            auto ev = es.eigenvalues();
            double top = ev(ev.size() - 1);
            for (long i = 0; i < ev.size(); i++) { if (ev(i) > 1e-10 * top) rank++; if (ev(i) < -1e-9 * top) neg++; }
        }
        Obj o; o("ev", "Form")("what", what)("kind", kind)("op", op)("d", d)("nc", nc)("i", ci)("size", A.rows())("rank", rank)("asym", asym)("neg", neg);
        degs(o, g);
        tr.emit(o);
    });
}
inline void equal(Trace& tr, const std::string& what, long ci, const MX& A, const MX& B, double tol = 1e-8, double floor = 1e-300)
{
    long diff = SENTINEL;
    if (A.rows() == B.rows() && A.cols() == B.cols()) {
        double M = floor + std::max(A.cwiseAbs().maxCoeff(), B.cwiseAbs().maxCoeff());
        double q = (A - B).cwiseAbs().maxCoeff() / M / tol;
        diff = q < 1e8 ? std::lround(q / 2) : SENTINEL;
    }
    tr.emit(Obj()("ev", "Equal")("what", what)("i", ci)("ra", A.rows())("rb", B.rows())("ca", A.cols())("cb", B.cols())("diff", diff));
}
inline std::vector<double> sv(const MX& m) { std::vector<double> r; for (long a = 0; a < m.rows(); a++) for (long b = 0; b < m.cols(); b++) r.push_back(m(a, b)); return r; }
template<typename V> MX flat(const V& v)
{
    if (v.size() == 0) return MX(0, 0);
    MX r(v.size(), v[0].size());
    for (size_t i = 0; i < v.size(); i++) for (long a = 0; a < v[i].rows(); a++) for (long b = 0; b < v[i].cols(); b++) r(i, a * v[i].cols() + b) = v[i](a, b);
    return r;
}
template<typename T, int R, int C> MX flat(const Eigen::Matrix<T, R, C>& m) { return m; }

template<typename PS> VL affine(Rng& g, const PS& ps, size_t d, double S)
{
    VL f(d);
    bool nz = false;
    for (auto& x : f) { x = g.range(-1, 1); nz |= (x != 0); }
    if (!nz) f[g.range(0, d - 1)] = 1;
    long mn = 1000000;
    for (auto& p : ps) { double v = 0; for (size_t k = 0; k < d; k++) v += f[k] * double(p[k]) * S; mn = std::min(mn, std::lround(v)); }
    f.push_back(g.range(0, 1) - mn);
    return f;
}
/* energies u_a^T A u_b / (a b fac) of the interpolates of L^a, a <= p: moments of L^(a+b-2) */
inline void energy(Trace& tr, const std::string& what, long ci, size_t D, double S, long p, const VL& form, const std::vector<VX>& u, const MX& A, double fac)
{
    guarded(tr, what, [&]() {
        std::vector<long> q; std::vector<VL> v;
        long double unit = std::pow((long double)(S), D);
        for (long a = 1; a <= p; a++) for (long b = 1; b <= p; b++) {
            q.push_back(a + b - 2);
            v.push_back(limbs((long double)(u[a].dot(A * u[b])) / (a * b * fac) / (S * S) * unit * rising(a + b - 2, D)));
        }
        tr.emit(Obj()("ev", "Gram")("what", what)("cell", true)("i", ci)("deg", p)("k", 0)("form", form)("kind", 1)("q", q)("v", v)("maxq", 2 * p - 2)("tol", 20000));
    });
}
inline double f2(const VL& f, size_t D) { double s = 0; for (size_t a = 0; a < D; a++) s += f[a] * f[a]; return s; }

/* width of the cell over its diameter: the degrees used on thin cells are limited */
template<typename PS> double aspect(const PS& ps, size_t D)
{
    double w = 1e300, dm = 0;
    auto dif = [&](size_t a, size_t b) { std::array<double, 3> r{0, 0, 0}; for (size_t k = 0; k < D; k++) r[k] = double(ps[a][k]) - double(ps[b][k]); return r; };
    auto dot = [](const std::array<double, 3>& a, const std::array<double, 3>& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; };
    auto look = [&](const std::array<double, 3>& n) {
        double q = std::sqrt(dot(n, n)); if (q < 1e-9) return;
        double lo = 1e300, hi = -1e300;
        for (size_t i = 0; i < ps.size(); i++) { double v = dot(dif(i, 0), n) / q; lo = std::min(lo, v); hi = std::max(hi, v); }
        w = std::min(w, hi - lo); };
    for (size_t i = 0; i < ps.size(); i++) for (size_t j = 0; j < i; j++) {
        auto u = dif(i, j); dm = std::max(dm, std::sqrt(dot(u, u)));
        if (D == 2) look({u[1], -u[0], 0});
        else for (size_t k = 0; k < j; k++) { auto v = dif(k, j); look({u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]}); }
    }
    return D == 1 ? 1.0 : w / dm;
}
} // namespace vh
