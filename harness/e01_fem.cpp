/* First order finite elements on triangles.  args: OUT DOCS SEED PART PARTS */
#include "poly.hpp"
#include "diskpp/cfem/cfem.hpp"
using namespace vh;
using Mesh = disk::simplicial_mesh<double, 2>;
using M2 = disk::static_matrix<double, 2, 2>;
template<typename M> std::vector<VL> mat(const M& A, double s)
{
    double top = A.cwiseAbs().maxCoeff() * s;
    std::vector<VL> r;
    for (long i = 0; i < A.rows(); i++) { std::vector<double> v; for (long j = 0; j < A.cols(); j++) v.push_back(A(i, j) * s); r.push_back(ints(v, 1e-9, std::max(1e-6, 1e-11 * std::fabs(top)))); }
    return r;
}
template<typename V> VL col(const V& v, double s) { std::vector<double> r; for (long i = 0; i < v.size(); i++) r.push_back(v(i) * s); return ints(r, 1e-9, 1e-6); }
static M2 diffusion(Rng& g, std::vector<VL>& Kl)
{
    M2 K; K(0, 0) = g.range(2, 4); K(1, 1) = g.range(2, 4); K(0, 1) = g.range(-1, 1); K(1, 0) = g.range(-1, 1);
    Kl.assign(2, VL(2)); for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) Kl[a][b] = long(K(a, b));
    return K;
}
static void run(Trace& tr, Mesh& msh, const Doc& doc, long seed)
{
    namespace fem = disk::cfem;
    double S = doc.scale;
    Rng g(seed * 911 + doc.n * 17);
    Obj o; o("ev", "Mesh")("n", doc.n); snapshot(o, msh, S); tr.emit(o);
    long i = 0;
    for (auto& cl : msh) {
        long ci = i++;
        guarded(tr, "cell", [&]() {
            auto pts = points(msh, cl);
            auto G = [&](int a, int k) { return std::nearbyint(double(pts[a][k]) * S); };
            double det = (G(1, 0) - G(0, 0)) * (G(2, 1) - G(0, 1)) - (G(1, 1) - G(0, 1)) * (G(2, 0) - G(0, 0)), ad = std::fabs(det);
            Obj o; o("ev", "FemCell")("i", ci);
            std::vector<VL> at, phi;
            for (int t = 0; t < 4; t++) {
                VL x = {g.range(-6, 12), g.range(-6, 12)};
                if (t < 3) x = {long(G(t, 0)), long(G(t, 1))};
                at.push_back(x); phi.push_back(col(fem::eval_basis(msh, cl, disk::point<double, 2>(x[0] / S, x[1] / S)), det));
            }
            std::vector<VL> Kl; M2 K = diffusion(g, Kl);
            long a = g.range(-3, 3); VL b = {g.range(-3, 3), g.range(-3, 3)};
            auto f = [&](const disk::point<double, 2>& p) { return a + b[0] * p.x() * S + b[1] * p.y() * S; };
            o("at", at)("phi", phi)("grad", mat(fem::eval_basis_grad(msh, cl), det / S))("mass", mat(fem::mass_matrix(msh, cl), 24 * S * S / ad));
            o("stiff", mat(fem::stiffness_matrix(msh, cl), 2 * ad))("K", Kl)("stiffk", mat(fem::stiffness_matrix(msh, cl, K), 2 * ad));
            o("a", a)("b", b)("load", col(fem::make_rhs(msh, cl, f), 18 * S * S / ad));
            tr.emit(o);
        });
    }
    if (msh.points_size() < 400) guarded(tr, "patch", [&]() {
        size_t N = msh.points_size();
        VL form = {g.range(-3, 3), g.range(1, 3)};
        std::vector<VL> Kl; M2 K = diffusion(g, Kl);
        MX A = MX::Zero(N, N);
        for (auto& cl : msh) {
            MX L = fem::stiffness_matrix(msh, cl, K);
            auto id = cl.point_ids();
            for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) A(size_t(id[a]), size_t(id[b])) += L(a, b);
        }
        std::vector<bool> fix(N, false); VX x = VX::Zero(N);
        for (auto it = msh.faces_begin(); it != msh.faces_end(); ++it) { auto fc = *it; if (msh.is_boundary(fc)) for (auto p : fc.point_ids()) fix[size_t(p)] = true; }
        size_t pi = 0;
        for (auto it = msh.points_begin(); it != msh.points_end(); ++it, ++pi) { auto p = *it; if (fix[pi]) x(pi) = (form[0] * p.x() + form[1] * p.y()) * S; }
        std::vector<long> fr; for (size_t a = 0; a < N; a++) if (!fix[a]) fr.push_back(a);
        MX Af(fr.size(), fr.size()); VX bf(fr.size()), Ax = A * x;
        for (size_t a = 0; a < fr.size(); a++) { bf(a) = -Ax(fr[a]); for (size_t b = 0; b < fr.size(); b++) Af(a, b) = A(fr[a], fr[b]); }
        if (fr.size()) { VX y = Af.partialPivLu().solve(bf); for (size_t a = 0; a < fr.size(); a++) x(fr[a]) = y(a); }
        tr.emit(Obj()("ev", "FemPatch")("form", form)("val", col(x, 1)));
    });
}
int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto docs = read_docs(argv[2]);
    long seed = atol(argv[3]);
    int part = atoi(argv[4]), parts = atoi(argv[5]);
    for (auto& dd : docs)
        if (dd.dim == 2 && dd.kind == "simplex" && dd.n % parts == part)
            guarded(tr, "doc " + std::to_string(dd.n), [&]() { Mesh msh; build(dd, msh); run(tr, msh, dd, seed); });
    tr.emit(Obj()("ev", "End"));
    return 0;
}
