/* Virtual elements in two dimensions: numbering of the unknowns, local matrices
   applied to polynomials, problems with polynomial solutions.
   args: OUT DOCS SEED PART PARTS KMAX */
#include "local.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/methods/vem"
using namespace vh;
static std::vector<long> ids(const std::vector<size_t>& v) { return std::vector<long>(v.begin(), v.end()); }
/* coefficients of a function in a basis that contains it */
template<typename B, typename F> VX fit(const B& b, const Lat& L, F f)
{
    auto X = L.X();
    MX A(X.size(), b.size()); VX y(X.size());
    for (size_t i = 0; i < X.size(); i++) { A.row(i) = b.eval_functions(L.phys<disk::point<double, 2>>(X[i])).transpose(); y(i) = f(X[i]); }
    return A.colPivHouseholderQr().solve(y);
}
static VL fixed(const VX& v, double s, double tol)
{
    VL r;
    for (long i = 0; i < v.size(); i++) { double x = v(i) * s, q = std::nearbyint(x); r.push_back(!(std::fabs(x) < 9e8) || std::fabs(x - q) > tol * std::max(1.0, std::fabs(x) * 1e-7) ? SENTINEL : long(q)); }
    return r;
}
template<typename Mesh> VL positions(const VX& v, double s)
{
    VL r;
    for (long i = 0; i < v.size(); i++) { double x = v(i) * s; r.push_back(!(std::fabs(x) < 9e8) ? SENTINEL : std::lround(x)); }
    return r;
}
template<typename Mesh> void numbering(Trace& tr, Mesh& msh, disk::dof_mapper<Mesh>& dm, const std::string& how, long k)
{
    std::vector<VL> c, f, b;
    for (size_t i = 0; i < msh.cells_size(); i++) c.push_back(ids(dm.cell_to_global(i)));
    for (size_t i = 0; i < msh.faces_size(); i++) { f.push_back(ids(dm.face_to_global(i))); b.push_back(ids(dm.bnd_to_global(i))); }
    tr.emit(Obj()("ev", "Dofs")("how", how)("k", k)("cells", c)("faces", f)("bnd", b));
}
template<typename Mesh> void local(Trace& tr, Mesh& msh, const Doc& doc, long ci, long k, Rng& g)
{
    using P = typename Mesh::point_type;
    auto cl = msh[ci];
    auto pts = points(msh, cl);
    auto bar = barycenter(msh, cl);
    double S = doc.scale, area = disk::measure(msh, cl);
    long nf = faces(msh, cl).size(), nb = nf * k;
    auto cb = disk::make_scalar_monomial_basis(msh, cl, k);
    MX G = disk::vem_2d::matrix_G(msh, cl, k), B = disk::vem_2d::matrix_B(msh, cl, k), D = disk::vem_2d::matrix_D(msh, cl, k);
    MX PN = disk::vem_2d::projector_nabla(msh, cl, k, G);
    MX K = disk::vem_2d::local_stiffness_matrix(msh, cl, k, G, D, PN);
    MX P0 = disk::vem_2d::projector_zero(msh, cl, k, k - 1, PN), PK = disk::vem_2d::projector_zero(msh, cl, k, k, PN);
    auto L = cell_lattice(bar, 2, doc.scale, k, g);
    auto coefs = [&](const Poly& p) { return fit(cb, L, p); };
    auto X = [&](size_t a) { return pvar(2, a); };
    long ni = k * (k - 1) / 2, n = nb + ni;
    tr.emit(Obj()("ev", "VemShape")("i", ci)("k", k)("nf", nf)("shapes", std::vector<VL>{{G.rows(), G.cols()}, {B.rows(), B.cols()}, {D.rows(), D.cols()}, {PN.rows(), PN.cols()}, {K.rows(), K.cols()}, {P0.rows(), P0.cols()}}));
    if (D.rows() != n || K.rows() != n || PN.cols() != n || P0.cols() != n) return;
    /* where the unknowns are */
    {
        MX Db = D.topRows(nb);
        tr.emit(Obj()("ev", "VemCell")("i", ci)("k", k)("x", positions<Mesh>(VX(Db * coefs(padd(X(0), Poly{{{L.org[0], {0, 0}}}}))), 1e5))("y", positions<Mesh>(VX(Db * coefs(padd(X(1), Poly{{{L.org[1], {0, 0}}}}))), 1e5)));
    }
    Degs dg{k, k, k, VL()};
    equal(tr, "B D = G", ci, B * D, G);
    auto c = comb("scal", k, 2, g);
    VX cc = coefs(c.F[0]), u = D * cc;
    auto val = [&](const auto& b, const VX& r) { return [&b, &L, r](const std::vector<double>& x) { auto v = b.eval_functions(L.template phys<P>(x)); return std::vector<double>{v.size() == r.size() ? v.dot(r) : 1e300}; }; };
    recon(tr, "elliptic projection", "cell", "id", dg, 2, ci, c, L, val(cb, PN * u), 1);
    recon(tr, "projection of full degree", "cell", "id", dg, 2, ci, c, L, val(cb, PK * u), 1);
    {
        auto cb1 = disk::make_scalar_monomial_basis(msh, cl, k - 1);
        Degs d1{k - 1, k - 1, k - 1, VL()};
        auto c1 = comb("scal", k - 1, 2, g);
        recon(tr, "projection", "cell", "id", d1, 2, ci, c1, L, val(cb1, P0 * D * coefs(c1.F[0])), 1);
    }
    /* powers of an affine form */
    auto form = affine(g, pts, 2, S);
    double n2 = f2(form, 2);
    auto Lp = [&](const P& x) { return form[0] * double(x[0]) * S + form[1] * double(x[1]) * S + form[2]; };
    std::vector<VX> pc, pu;
    for (long a = 0; a <= k; a++) { pc.push_back(fit(cb, L, [&](const std::vector<double>& x) { return dpow(Lp(L.template phys<P>(x)), a); })); pu.push_back(D * pc.back()); }
    energy(tr, "stiffness energy", ci, 2, S, k, form, pu, K, n2);
    energy(tr, "energy of the elliptic projection", ci, 2, S, k, form, pc, disk::make_stiffness_matrix(msh, cl, cb), n2);
    auto gram = [&](const std::string& what, long amax, long bmax, const std::function<long double(long, long)>& v) {
        guarded(tr, what, [&]() {
            std::vector<long> q; std::vector<VL> r;
            for (long a = 0; a <= amax; a++) for (long b = 0; b <= bmax; b++) { q.push_back(a + b); r.push_back(limbs(v(a, b) * (long double)(S * S) * rising(a + b, 2))); }
            tr.emit(Obj()("ev", "Gram")("what", what)("cell", true)("i", ci)("deg", amax)("k", 0)("form", form)("kind", 0)("q", q)("v", r)("maxq", amax + bmax)("tol", 20000));
        }); };
    if (k > 1) {
        auto lb = disk::make_scalar_monomial_basis(msh, cl, k - 2);
        std::vector<VX> lc;
        for (long a = 0; a <= k - 2; a++) lc.push_back(fit(lb, L, [&](const std::vector<double>& x) { return dpow(Lp(L.template phys<P>(x)), a); }));
        gram("moments", k - 2, k, [&](long a, long b) { return area * lc[a].dot(pu[b].tail(ni)); });
    }
    auto cb1 = disk::make_scalar_monomial_basis(msh, cl, k - 1);
    MX H1 = disk::make_mass_matrix(msh, cl, cb1);
    std::vector<VX> c1;
    for (long a = 0; a < k; a++) c1.push_back(fit(cb1, L, [&](const std::vector<double>& x) { return dpow(Lp(L.template phys<P>(x)), a); }));
    gram("projection in L2", k - 1, k, [&](long a, long b) { return c1[a].dot(H1 * (P0 * pu[b])); });
    std::vector<VX> loads;
    for (long a = 0; a < k; a++) {
        auto f = [&](const P& x) { return dpow(Lp(x), a); };
        loads.push_back(disk::vem_2d::local_rhs(msh, cl, k, k - 1, P0, f));
        auto [K2, r2] = disk::vem_2d::compute_local(msh, cl, k, f);
        equal(tr, "local matrix", ci, K2, K); equal(tr, "local load", ci, r2, loads.back());
    }
    gram("loads", k - 1, k, [&](long a, long b) { return loads[a].dot(pu[b]); });
    /* rows of the stiffness of a polynomial: fluxes and laplacian */
    {
        std::vector<VL> v, e, in;
        for (long a = 1; a <= k; a++) {
            VX r = K * pu[a];
            double M = std::max(1.0, r.cwiseAbs().maxCoeff());
            VX cor(nf); VX mid((k - 1) * nf);
            for (long i = 0; i < nf; i++) { cor(i) = r(i * k) * k * (k + 1); for (long j = 1; j < k; j++) mid(i * (k - 1) + j - 1) = r(i * k + j); }
            v.push_back(ints(sv(cor), 1e-8, 1e-3));
            e.push_back(a == 1 ? ints(sv(mid * 180), k <= 4 ? 1e-8 : 1e300, k <= 4 ? 1e-3 : 1e300) : k == 2 ? ints(sv(mid * 6), 1e-8, 1e-3) : VL());
            if (a <= 2) { VX t = r.tail(ni); for (long j = 0; j < ni; j++) if (std::fabs(t(j)) < 1e-9 * M) t(j) = 0; in.push_back(ints(sv(t), 1e-8, 1e-3)); }
        }
        tr.emit(Obj()("ev", "VemFlux")("i", ci)("k", k)("form", form)("corners", v)("edges", e)("inner", in));
    }
    /* symmetric, positive, constants only in the kernel */
    {
        double M = K.cwiseAbs().maxCoeff();
        MX Kd(n, n);
        for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) Kd(i, j) = K(i, i) > 0 && K(j, j) > 0 ? 0.5 * (K(i, j) + K(j, i)) / std::sqrt(K(i, i) * K(j, j)) : 1e6;
        Eigen::SelfAdjointEigenSolver<MX> es(Kd, Eigen::EigenvaluesOnly);
        long rank = 0, neg = 0;
        double top = es.eigenvalues()(n - 1);
        for (long i = 0; i < n; i++) { if (es.eigenvalues()(i) > 1e-11 * top) rank++; if (es.eigenvalues()(i) < -1e-9 * top) neg++; }
        tr.emit(Obj()("ev", "VemForm")("i", ci)("k", k)("nf", nf)("size", n)("rank", rank)("neg", neg)("asym", std::lround((K - K.transpose()).cwiseAbs().maxCoeff() / M * 1e7))("kernel", zeros(K * pu[0], M)));
    }
}
/* the solution is a polynomial: found exactly */
template<typename Mesh> void patch(Trace& tr, Mesh& msh, const Doc& doc, long k, disk::dof_mapper<Mesh>& dm, Rng& g)
{
    using P = typename Mesh::point_type;
    auto L = cell_lattice(barycenter(msh, msh[0]), 2, doc.scale, 1, g);
    double S = doc.scale;
    auto c = comb("scal", k, 2, g);
    Poly lap = padd(pd(pd(c.F[0], 0), 0), pd(pd(c.F[0], 1), 1));
    auto f = [&](const P& x) { return -S * S * lap(L.grid(x)); };
    size_t N = msh.points_size() + msh.faces_size() * (k - 1);
    MX A = MX::Zero(N, N); VX b = VX::Zero(N), x = VX::Zero(N);
    std::vector<bool> fix(N, false);
    std::vector<MX> As; std::vector<VX> bs;
    for (size_t ci = 0; ci < msh.cells_size(); ci++) {
        auto l2g = dm.cell_to_global(ci);
        auto [Lo, R] = disk::vem_2d::compute_local(msh, msh[ci], k, f);
        auto [Lc, Rc] = disk::vem::schur(Lo, R, l2g.size());
        for (size_t i = 0; i < l2g.size(); i++) { b(l2g.at(i)) += Rc(i); for (size_t j = 0; j < l2g.size(); j++) A(l2g.at(i), l2g.at(j)) += Lc(i, j); }
        As.push_back(Lo); bs.push_back(R);
    }
    /* values on the boundary, at the nodes of the edges */
    for (size_t fi = 0; fi < msh.faces_size(); fi++) {
        auto fc = *std::next(msh.faces_begin(), fi);
        auto d = dm.bnd_to_global(fi);
        if (d.empty()) continue;
        auto fp = points(msh, fc);
        if (d[0] != size_t(fc.point_ids()[0])) std::swap(fp[0], fp[1]);
        auto q = disk::quadrature::gauss_lobatto(2 * k - 1, fp[0], fp[1]);
        for (size_t j = 0; j < d.size(); j++) { fix[d[j]] = true; x(d[j]) = c.F[0](L.grid(q.at(j).point())); }
    }
    std::vector<long> fr;
    for (size_t i = 0; i < N; i++) if (!fix[i]) fr.push_back(i);
    MX Af(fr.size(), fr.size()); VX bf(fr.size());
    VX Ax = A * x;
    for (size_t i = 0; i < fr.size(); i++) { bf(i) = b(fr[i]) - Ax(fr[i]); for (size_t j = 0; j < fr.size(); j++) Af(i, j) = A(fr[i], fr[j]); }
    if (fr.size()) { VX y = Af.partialPivLu().solve(bf); for (size_t i = 0; i < fr.size(); i++) x(fr[i]) = y(i); }
    Obj o; o("ev", "VemPatch")("k", k)("fam", c.fam)("d", 2)("deg", k)("mem", c.mem)("coef", c.coef)("org", VL{std::lround(L.org[0]), std::lround(L.org[1])});
    VX xp = x.head(msh.points_size());
    double M = std::max(1.0, x.cwiseAbs().maxCoeff());
    o("val", ints(sv(xp), 1e-7 , std::min(0.1, std::max(1e-2, 1e-9 * M))));
    /* the projections cell by cell */
    long bad = 0;
    for (size_t ci = 0; ci < msh.cells_size(); ci++) {
        auto l2g = dm.cell_to_global(ci);
        VX xb(l2g.size()); for (size_t i = 0; i < l2g.size(); i++) xb(i) = x(l2g[i]);
        VX full = disk::vem::deschur(As[ci], bs[ci], xb, l2g.size());
        VX r = disk::vem_2d::projector_nabla(msh, msh[ci], k, disk::vem_2d::matrix_G(msh, msh[ci], k)) * full;
        auto cb = disk::make_scalar_monomial_basis(msh, msh[ci], k);
        for (auto& p : points(msh, msh[ci])) { double ex = c.F[0](L.grid(p)); if (!(std::fabs(cb.eval_functions(p).dot(r) - ex) < 1e-6 * M)) bad++; }
    }
    o("bad", bad);
    tr.emit(o);
}
template<typename Mesh> void run(Trace& tr, Mesh& msh, const Doc& doc, long seed, long kmax)
{
    Rng g(seed * 641 + doc.n * 7);
    bool marked = doc.n % 3 == 1;
    if (marked) {
        auto st = msh.backend_storage();
        for (size_t i = 0; i < msh.faces_size(); i++)
            if (!st->boundary_info[i].is_boundary() && g.range(0, 2) == 0) st->boundary_info[i] = disk::boundary_descriptor(20 + g.range(0, 3), true);
        disk::mark_internal_faces(msh);
    }
    Obj o; o("ev", "Mesh")("n", doc.n); snapshot(o, msh, doc.scale); tr.emit(o);
    {
        long thrown = 0;
        try { disk::dof_mapper<Mesh> dm(msh, 0); } catch (const std::invalid_argument&) { thrown = 1; }
        tr.emit(Obj()("ev", "VemDegree0")("refused", thrown == 1));
    }
    double as = 1; size_t most = 0;
    for (auto& cl : msh) { as = std::min(as, aspect(points(msh, cl), 2)); most = std::max<size_t>(most, faces(msh, cl).size()); }
    long k = 1 + (seed + doc.n) % kmax;
    disk::dof_mapper<Mesh> dm(msh, k);
    numbering(tr, msh, dm, "new", k);
    size_t nc = msh.cells_size();
    auto cap = [&](size_t ci) { double a = aspect(points(msh, msh[ci]), 2); size_t n = faces(msh, msh[ci]).size(); return a < 0.1 ? 1L : a < 0.25 ? 2L : n > 10 ? 3L : a < 0.4 ? 4L : kmax; };
    for (size_t ci = 0; ci < nc; ci++) {
        if (nc > 2 && ci % 3 != size_t(seed + doc.n) % 3) continue;
        if (k <= cap(ci)) guarded(tr, "cell", [&]() { local(tr, msh, doc, ci, k, g); });
    }
    long k2 = 1 + g.range(0, kmax - 1);
    dm.recompute(msh, k2);
    numbering(tr, msh, dm, "again", k2);
    for (size_t ci = 0; ci < nc; ci++)
        if (g.range(0, nc > 2 ? 3 : 0) == 0 && k2 <= cap(ci)) guarded(tr, "cell", [&]() { local(tr, msh, doc, ci, k2, g); });
    long k3 = std::min<long>(1 + g.range(0, kmax - 1), as < 0.1 ? 1 : as < 0.25 ? 2 : most > 10 ? 3 : as < 0.4 ? 4 : kmax);
    if (msh.points_size() + msh.faces_size() * (k3 - 1) < 600) guarded(tr, "patch", [&]() { disk::dof_mapper<Mesh> d3(msh, k3); patch(tr, msh, doc, k3, d3, g); });
}
int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto docs = read_docs(argv[2]);
    long seed = atol(argv[3]);
    int part = atoi(argv[4]), parts = atoi(argv[5]);
    long kmax = atol(argv[6]);
    for (auto& dd : docs)
        if (dd.dim == 2 && dd.n % parts == part)
            guarded(tr, "doc " + std::to_string(dd.n), [&]() {
                auto go = [&](auto msh) { build(dd, msh); run(tr, msh, dd, seed, kmax); };
                if (dd.kind == "simplex") go(disk::simplicial_mesh<double, 2>());
                else if (dd.kind == "cart") go(disk::cartesian_mesh<double, 2>());
                else go(disk::generic_mesh<double, 2>());
            });
    tr.emit(Obj()("ev", "End"));
    return 0;
}
