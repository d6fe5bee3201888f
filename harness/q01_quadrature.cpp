/* Values of the quadratures of the code on powers of affine forms.
   args: OUT DOCS RAWS SEED PART PARTS */
#include "meshbuild.hpp"
#include "meshdump.hpp"
#include "diskpp/quadratures/quadratures.hpp"
#include "diskpp/quadratures/quadratures_raw.hpp"
#include "diskpp/quadratures/bits/quad_raw_gauss_lobatto.hpp"
using namespace vh;
using VL = std::vector<long>;

/* limbs (base 10^4) of a value times 10^8; anything not finite or clearly
 * negative is a huge number, which no moment equals */
static VL limbs(long double x)
{
    x *= 1e8L;
    if (!(x > -1e3L) || !(x < 1e300L)) return VL(2000, 9999);
    if (x < 0) x = 0;
    char buf[400];
    snprintf(buf, sizeof(buf), "%.0Lf", x);
    std::string s(buf);
    VL r;
    for (int i = int(s.size()); i > 0; i -= 4) { int b = std::max(0, i - 4); r.push_back(atol(s.substr(b, i - b).c_str())); }
    return r;
}
template<typename P> long double form(const VL& f, const P& p, size_t dim)
{
    long double r = f[dim];
    for (size_t k = 0; k < dim; k++) r += (long double)(f[k]) * (long double)(double(p[k]));
    return r;
}
static long double ipow(long double x, int q) { long double r = 1; while (q-- > 0) r *= x; return r; }
static long double clear(int q, int d) { long double r = 1; for (int i = 1; i <= d; i++) r *= q + i; return r; }
template<typename QPS> long double value(const QPS& qps, const VL& f, size_t dim, int q)
{
    long double r = 0;
    for (auto& qp : qps) { auto p = qp.point(); r += (long double)(double(qp.weight())) * ipow(form(f, p, dim), q); }
    return r;
}
static VL make_form(Rng& g, const std::vector<std::vector<double>>& ps)
{
    size_t d = ps[0].size();
    VL f(d);
    bool nz = false;
    for (auto& x : f) { x = g.range(-1, 1); nz |= (x != 0); }
    if (!nz) f[g.range(0, d - 1)] = 1;
    long mn = 1000000;
    for (auto& p : ps) { double v = 0; for (size_t k = 0; k < d; k++) v += f[k] * p[k]; mn = std::min(mn, lround(v)); }
    f.push_back(g.range(0, 1) - mn);
    return f;
}
template<typename P> std::vector<std::vector<double>> coords(const P& pts, size_t d)
{ std::vector<std::vector<double>> r; for (auto& p : pts) { std::vector<double> v; for (size_t k = 0; k < d; k++) v.push_back(double(p[k])); r.push_back(v); } return r; }

template<typename Mesh> void mesh(Trace& tr, Mesh& msh, const Doc& doc, long seed)
{
    constexpr size_t D = Mesh::dimension;
    Obj o; o("ev", "Mesh")("n", doc.n); snapshot(o, msh, doc.scale); tr.emit(o);
    Rng g(seed * 77 + doc.n);
    int Qm = D == 3 ? 6 : 8;
    size_t i = 0;
    for (auto& cl : msh) {
        auto ps = coords(points(msh, cl), D);
        auto f = make_form(g, ps);
        std::vector<VL> v, w;
        for (int q = 0; q <= Qm; q++) {
            v.push_back(limbs(value(disk::integrate(msh, cl, q), f, D, q) * clear(q, D)));
            w.push_back(limbs(value(disk::integrate(msh, cl, q + 1), f, D, q) * clear(q, D)));
        }
        tr.emit(Obj()("ev", "Cell")("i", i)("form", f)("v", v)("w", w)("tol", D == 3 ? 100 : 10));
        i++;
    }
    i = 0;
    for (auto it = msh.faces_begin(); it != msh.faces_end(); ++it, ++i) {
        auto fc = *it;
        auto ps = coords(points(msh, fc), D);
        if (D > 1 && i % 3 != size_t(seed + doc.n) % 3 && doc.n % 4 != 0) continue;
        auto f = make_form(g, ps);
        int k = 0;
        long double ratio = 1;
        if (D == 2) {
            double dx = ps[1][0] - ps[0][0], dy = ps[1][1] - ps[0][1], n = std::sqrt(dx * dx + dy * dy);
            k = std::fabs(dx) >= std::fabs(dy) ? 1 : 2;
            ratio = (k == 1 ? std::fabs(dx) : std::fabs(dy)) / (long double)(n);
        }
        if (D == 3) {
            double n[3] = {0, 0, 0};
            for (size_t a = 0; a < ps.size(); a++) {
                auto& p = ps[a]; auto& q = ps[(a + 1) % ps.size()];
                for (int c = 0; c < 3; c++) n[c] += p[(c + 1) % 3] * q[(c + 2) % 3] - p[(c + 2) % 3] * q[(c + 1) % 3];
            }
            double nn = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
            for (int c = 0; c < 3; c++) if (k == 0 || std::fabs(n[c]) > std::fabs(n[k - 1])) k = c + 1;
            ratio = std::fabs(n[k - 1]) / (long double)(nn);
        }
        if (D == 1) {
            VL v;
            for (int q = 0; q <= 4; q++) v.push_back(Q(double(value(disk::integrate(msh, fc, q), f, D, q))));
            tr.emit(Obj()("ev", "Face")("i", i)("k", 0)("form", f)("v", v)("w", VL())("tol", 10));
            continue;
        }
        std::vector<VL> v, w;
        for (int q = 0; q <= Qm; q++) {
            v.push_back(limbs(value(disk::integrate(msh, fc, q), f, D, q) * clear(q, D - 1) * ratio));
            w.push_back(limbs(value(disk::integrate(msh, fc, q + 1), f, D, q) * clear(q, D - 1) * ratio));
        }
        tr.emit(Obj()("ev", "Face")("i", i)("k", k)("form", f)("v", v)("w", w)("tol", 10));
    }
}

template<size_t D> disk::point<double, D> mk(const VL& v) { disk::point<double, D> p; for (size_t k = 0; k < D; k++) p[k] = v[k]; return p; }
template<typename T> auto from_pairs(const T& v, std::integral_constant<size_t, 1>)
{ std::vector<disk::quadrature_point<double, 1>> r; for (auto& x : v) r.push_back(disk::make_qp(x.first, double(x.second))); return r; }
template<typename T> auto from_pairs(const T& v, std::integral_constant<size_t, 2>)
{ std::vector<disk::quadrature_point<double, 2>> r; for (auto& x : v) r.push_back(disk::make_qp(x.first, double(x.second))); return r; }

struct RawCase { std::string rule, shape; int deg, q, k, max; std::vector<VL> ps; VL form; };
static long double eval(const RawCase& c)
{
    namespace dq = disk::quadrature;
    const auto& P = c.ps;
    auto& r = c.rule;
    size_t d = P[0].size();
    auto val = [&](const auto& qps) { return value(qps, c.form, d, c.q); };
    double a = P[0][0], b = P.size() > 1 ? P[1][0] : 0;
    if (r == "gl1") return val(dq::gauss_legendre<double>(c.deg, a, b)) * (b < a ? -1 : 1);
    if (r == "lob1") return val(dq::gauss_lobatto<double>(c.deg, a, b)) * (b < a ? -1 : 1);
    if (r == "gl2") return val(dq::gauss_legendre(c.deg, mk<2>(P[0]), mk<2>(P[1])));
    if (r == "gl3") return val(dq::gauss_legendre(c.deg, mk<3>(P[0]), mk<3>(P[1])));
    if (r == "lob2") return val(dq::gauss_lobatto(c.deg, mk<2>(P[0]), mk<2>(P[1])));
    if (r == "lob3") return val(dq::gauss_lobatto(c.deg, mk<3>(P[0]), mk<3>(P[1])));
    if (r == "gw") return val(from_pairs(disk::golub_welsch<double>(c.deg), std::integral_constant<size_t, 1>()));
    if (r == "gold") return val(from_pairs(disk::edge_quadrature<double>(c.deg), std::integral_constant<size_t, 1>()));
    if (r == "quadr") return val(from_pairs(disk::quadrangle_quadrature<double>(c.deg), std::integral_constant<size_t, 2>()));
    if (r == "iq") return val(disk::priv::integrate_quadrangle_tens<double>(c.deg, {mk<2>(P[0]), mk<2>(P[1]), mk<2>(P[2]), mk<2>(P[3])}));
    if (r == "tens2") return val(dq::tensorized_gauss_legendre(c.deg, mk<2>(P[0]), mk<2>(P[1]), mk<2>(P[2]), mk<2>(P[3])));
    if (r == "tens2a") return val(dq::tensorized_gauss_legendre(c.deg, std::array<disk::point<double, 2>, 4>{mk<2>(P[0]), mk<2>(P[1]), mk<2>(P[2]), mk<2>(P[3])}));
    if (r == "tens3f") return val(dq::tensorized_gauss_legendre(c.deg, mk<3>(P[0]), mk<3>(P[1]), mk<3>(P[2]), mk<3>(P[3])));
    if (r == "tens3") {
        auto p = mk<3>(P[0]), u = mk<3>(P[1]) - p, w = mk<3>(P[2]) - p, z = mk<3>(P[3]) - p;
        return val(dq::tensorized_gauss_legendre(c.deg, std::array<disk::point<double, 3>, 8>{p, p + u, p + u + w, p + w, p + z, p + u + z, p + u + w + z, p + w + z}));
    }
    if (r == "tri") return val(dq::triangle_gauss(c.deg, mk<2>(P[0]), mk<2>(P[1]), mk<2>(P[2])));
    if (r == "tria") return val(dq::triangle_gauss(c.deg, std::array<disk::point<double, 2>, 3>{mk<2>(P[0]), mk<2>(P[1]), mk<2>(P[2])}));
    if (r == "tri3") return val(dq::triangle_gauss(c.deg, mk<3>(P[0]), mk<3>(P[1]), mk<3>(P[2])));
    if (r == "dun") return val(dq::dunavant(c.deg, mk<2>(P[0]), mk<2>(P[1]), mk<2>(P[2])));
    if (r == "dun3") return val(dq::dunavant(c.deg, mk<3>(P[0]), mk<3>(P[1]), mk<3>(P[2])));
    if (r == "gm2") return val(dq::grundmann_moeller(c.deg, mk<2>(P[0]), mk<2>(P[1]), mk<2>(P[2])));
    if (r == "gm3") return val(dq::grundmann_moeller(c.deg, mk<3>(P[0]), mk<3>(P[1]), mk<3>(P[2]), mk<3>(P[3])));
    if (r == "arbq") return val(dq::arbq(c.deg, mk<3>(P[0]), mk<3>(P[1]), mk<3>(P[2]), mk<3>(P[3])));
    _exit(96);
}
static void raw(Trace& tr, const RawCase& c)
{
    int sd = c.shape == "seg" ? 1 : c.shape == "poly" ? 2 : 3;
    size_t d = c.ps[0].size();
    long double ratio = 1;
    if (c.shape == "seg" && d > 1) {
        long double n = 0; for (size_t k = 0; k < d; k++) n += (c.ps[1][k] - c.ps[0][k]) * (c.ps[1][k] - c.ps[0][k]);
        ratio = std::fabs((long double)(c.ps[1][c.k - 1] - c.ps[0][c.k - 1])) / std::sqrt(n);
    }
    if (c.shape == "poly" && d == 3) {
        long double n[3];
        VL u(3), w(3);
        for (int k = 0; k < 3; k++) { u[k] = c.ps[1][k] - c.ps[0][k]; w[k] = c.ps[2][k] - c.ps[0][k]; }
        for (int k = 0; k < 3; k++) n[k] = u[(k + 1) % 3] * w[(k + 2) % 3] - u[(k + 2) % 3] * w[(k + 1) % 3];
        ratio = std::fabs(n[c.k - 1]) / std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
    }
    Obj o;
    o("ev", "Raw")("rule", c.rule)("shape", c.shape)("deg", c.deg)("q", c.q)("k", c.k)("max", c.max)("ps", c.ps)("form", c.form)("tol", c.deg > 15 || c.rule[0] == 'g' ? 100 : 10);
    bool threw = false;
    VL v;
    try { v = limbs(eval(c) * clear(c.q, sd) * ratio); } catch (const std::exception&) { threw = true; }
    o("threw", threw)("v", v);
    tr.emit(o);
}

int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto docs = read_docs(argv[2]);
    long seed = atol(argv[4]);
    int part = atoi(argv[5]), parts = atoi(argv[6]);
    std::ifstream f(argv[3]);
    int n = 0;
    RawCase c;
    size_t np, d;
    while (f >> c.rule >> c.shape >> c.deg >> c.q >> c.k >> c.max >> np >> d) {
        c.ps.assign(np, VL(d)); c.form.assign(d + 1, 0);
        for (auto& p : c.ps) for (auto& x : p) f >> x;
        for (auto& x : c.form) f >> x;
        if (n++ % parts == part) raw(tr, c);
    }
    for (auto& dd : docs)
        if (dd.n % parts == part)
            guarded(tr, "doc " + std::to_string(dd.n), [&]() { with_mesh(dd, [&](auto& msh, const Doc& x) { mesh(tr, msh, x, seed); }); });
    tr.emit(Obj()("ev", "End"));
    return 0;
}
