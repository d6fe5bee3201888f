/* Bases, mass and stiffness matrices, right-hand sides and projections.
   args: OUT DOCS SEED PART PARTS KMAX ; compiled with -DPDIM=1|2|3 */
#include "poly.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/bases/bases_new.hpp"
#include "diskpp/bases/bases_operations.hpp"
#include "diskpp/methods/hho"
using namespace vh;

/* a basis evaluated: values (functions x components), derivatives */
using Eval = std::function<MX(const std::vector<double>&)>;
struct Op { std::string name; Eval f; };

template<typename V> MX flat(const V& v)  // vector of square matrices, row by row
{
    if (v.size() == 0) return MX(0, 0);
    MX r(v.size(), v[0].size());
    for (size_t i = 0; i < v.size(); i++) for (long a = 0; a < v[i].rows(); a++) for (long b = 0; b < v[i].cols(); b++) r(i, a * v[i].cols() + b) = v[i](a, b);
    return r;
}
template<typename T, int R, int C> MX flat(const Eigen::Matrix<T, R, C>& m) { return m; }
inline MX flat(double x) { MX m(1, 1); m(0, 0) = x; return m; }

struct Solver
{
    MX V; VX sc; Eigen::ColPivHouseholderQR<MX> qr; long rank = 0, nc = 1;
    std::vector<std::vector<double>> X;
    Solver(const Lat& L, const Eval& f, size_t size, long nc) : nc(nc)
    {
        X = L.X();
        V = MX::Zero(X.size() * nc, size);
        for (size_t p = 0; p < X.size(); p++) { MX v = f(X[p]); if (size_t(v.rows()) != size || v.cols() != nc) return; for (long c = 0; c < nc; c++) V.row(p * nc + c) = v.col(c).transpose(); }
        if (!V.allFinite()) return;
        sc = VX::Ones(size);
        for (size_t j = 0; j < size; j++) { double n = V.col(j).norm(); if (n > 0) { sc(j) = 1 / n; V.col(j) *= sc(j); } }
        qr.compute(V);
        qr.setThreshold(1e-9);
        rank = qr.rank();
    }
    VX coef(const Field& F) const
    {
        VX b(X.size() * nc);
        for (size_t p = 0; p < X.size(); p++) for (long c = 0; c < nc; c++) b(p * nc + c) = F[c](X[p]);
        if (rank == 0) return VX::Zero(V.cols());
        VX c = qr.solve(b);
        return c.cwiseProduct(sc);
    }
};

static void space(Trace& tr, const std::string& what, const std::string& fam, size_t d, size_t s, long i, long deg, long par, const Lat& L, size_t size, const Eval& f, const std::vector<Op>& ops)
{
    guarded(tr, what + " " + std::to_string(deg), [&]() {
        long nc = ncomp(fam, d);
        Solver so(L, f, size, nc);
        auto mem = gens(fam, deg, d, par);
        auto N = L.normal();
        std::vector<VL> val;
        std::vector<std::vector<VL>> dv(ops.size());
        std::vector<std::string> names;
        std::vector<MX> vs;
        std::vector<std::vector<MX>> ds(ops.size());
        for (auto& x : so.X) vs.push_back(f(x));
        for (size_t o = 0; o < ops.size(); o++) { names.push_back(ops[o].name); for (auto& x : so.X) ds[o].push_back(ops[o].f(x)); }
        for (auto& g : mem) {
            VX c = so.coef(field(g, d, nc, N));
            std::vector<double> v;
            auto app = [&](const MX& m, double scale) {
                if (m.rows() != c.size()) { v.push_back(1e300); return; }
                VX r = m.transpose() * c; for (long k = 0; k < r.size(); k++) v.push_back(r(k) * scale); };
            for (auto& m : vs) app(m, 1);
            val.push_back(ints(v));
            for (size_t o = 0; o < ops.size(); o++) {
                v.clear();
                for (auto& m : ds[o]) app(m, (ops[o].name == "sgrad2" ? 2.0 : 1.0) / double(L.S));
                dv[o].push_back(ints(v));
            }
        }
        Obj o; o("ev", "Space")("what", what)("fam", fam)("d", d)("s", s)("i", i)("deg", deg)("par", par)("size", size)("rank", so.rank);
        L.put(o);
        o("mem", mem)("val", val)("ops", names)("dv", dv);
        tr.emit(o);
    });
}
static void proj(Trace& tr, const std::string& what, const std::string& fam, const std::string& op, size_t d, long i, long deg, const Lat& L, const VL& mem, const std::function<std::vector<double>(const std::vector<double>&)>& at, double scale)
{
    guarded(tr, what + " " + std::to_string(deg), [&]() {
        std::vector<double> v;
        for (auto& x : L.X()) for (auto y : at(x)) v.push_back(y * scale);
        Obj o; o("ev", "Proj")("what", what)("fam", fam)("op", op)("d", d)("i", i)("deg", deg)("mem", mem)("val", ints(v, 1e-8, 1e-2));
        L.put(o);
        tr.emit(o);
    });
}
static std::vector<double> sv(const MX& m) { std::vector<double> r; for (long a = 0; a < m.rows(); a++) for (long b = 0; b < m.cols(); b++) r.push_back(m(a, b)); return r; }

template<typename PS> VL affine(Rng& g, const PS& ps, size_t d, double S)
{
    VL f(d);
    bool nz = false;
    for (auto& x : f) { x = g.range(-1, 1); nz |= (x != 0); }
    if (!nz) f[g.range(0, d - 1)] = 1;
    long mn = 1000000;
    for (auto& p : ps) { double v = 0; for (size_t k = 0; k < d; k++) v += f[k] * double(p[k]) * S; mn = std::min(mn, std::lround(v)); }
    f.push_back(g.range(0, 1) - mn);
    return f;
}
/* moments through the matrices of the code. M(0) mass, M(1) stiffness (or an empty matrix); rhs(f) */
template<typename PS, typename P>
void gram(Trace& tr, const std::string& what, bool cell, size_t D, long i, const PS& ps, double S, long k, Rng& g, const Lat& L, const Eval& f, size_t size,
          const MX& M, const MX& K, const std::function<VX(const std::function<double(const P&)>&, size_t di)>& rhs)
{
    guarded(tr, what + " " + std::to_string(k), [&]() {
        auto form = affine(g, ps, D, S);
        Solver so(L, f, size, 1);
        auto LV = [&](const P& p) { double r = form[D]; for (size_t c = 0; c < D; c++) r += form[c] * double(p[c]) * S; return r; };
        std::vector<VX> c;
        for (long a = 0; a <= k; a++) {   // coefficients of L^a by collocation
            VX b(so.X.size());
            for (size_t p = 0; p < so.X.size(); p++) b(p) = dpow(LV(L.template phys<P>(so.X[p])), a);
            VX x = so.rank ? VX(so.qr.solve(b)) : VX(VX::Zero(size));
            c.push_back(so.rank ? VX(x.cwiseProduct(so.sc)) : x);
        }
        int sd = cell ? int(D) : int(D) - 1;
        auto [dir, ratio] = cell ? std::pair<int, long double>(0, 1.0L) : face_measure(ps, D);
        long double unit = std::pow((long double)(S), sd) * ratio;
        double g2 = 0; for (size_t a = 0; a < D; a++) g2 += form[a] * form[a];
        auto put = [&](int kind, const std::vector<long>& q, const std::vector<VL>& v, long maxq) {
            tr.emit(Obj()("ev", "Gram")("what", what)("cell", cell)("i", i)("deg", k)("k", dir)("form", form)("kind", kind)("q", q)("v", v)("maxq", maxq)("tol", 2000));
        };
        std::vector<long> q; std::vector<VL> v;
        if (M.size()) {
            for (long a = 0; a <= k; a++) for (long b = 0; b <= k; b++) { q.push_back(a + b); v.push_back(limbs((long double)(c[a].dot(M * c[b])) * unit * rising(a + b, sd))); }
            put(0, q, v, 2 * k);
        }
        if (K.size() && k > 0) {
            q.clear(); v.clear();
            for (long a = 1; a <= k; a++) for (long b = 1; b <= k; b++) {
                q.push_back(a + b - 2);
                v.push_back(limbs((long double)(c[a].dot(K * c[b])) / (a * b * g2) / (S * S) * unit * rising(a + b - 2, sd)));
            }
            put(1, q, v, 2 * k - 2);
        }
        if (rhs) {
            q.clear(); v.clear();
            for (long dg = k; dg <= k + 2; dg++) {
                VX r = rhs([&](const P& p) { return dpow(LV(p), dg); }, size_t((dg - k + 1) / 2));
                for (long a = 0; a <= k; a++) { q.push_back(a + dg); v.push_back(limbs((long double)(c[a].dot(r)) * unit * rising(a + dg, sd))); }
            }
            put(2, q, v, 2 * k + 2);
        }
    });
}

template<typename Mesh> void run(Trace& tr, Mesh& msh, const Doc& doc, long seed, long kmax)
{
    constexpr size_t D = Mesh::dimension;
    using P = typename Mesh::point_type;
    using T = typename Mesh::coordinate_type;
    Obj o; o("ev", "Mesh")("n", doc.n); snapshot(o, msh, doc.scale); tr.emit(o);
    Rng g(seed * 131 + doc.n);
    bool simplex = doc.kind == "simplex";
    size_t nc = msh.cells_size(), i = 0;
    for (auto& cl : msh) {
        size_t ci = i++;
        if (nc > 2 && ci % 3 != size_t(seed + doc.n) % 3) continue;
        auto bar = barycenter(msh, cl);
        auto pts = points(msh, cl);
        for (long k = 0; k <= kmax; k++) {
            auto L = cell_lattice(bar, D, doc.scale, k, g);
            auto ph = [&](const std::vector<double>& x) { return L.template phys<P>(x); };
            auto scal = [&](const std::string& w, auto b) {
                space(tr, w, "scal", D, D, ci, k, 0, L, b.size(), [&](const auto& x) { return flat(b.eval_functions(ph(x))); },
                      {{"grad", [&](const auto& x) { return flat(b.eval_gradients(ph(x))); }}});
                return 0;
            };
            if constexpr (D == 1) scal("monomial cell", disk::make_scalar_monomial_basis(msh, cl, k));
            else {
                scal("monomial cell", disk::make_scalar_monomial_basis(msh, cl, k, false));
                scal("monomial cell inertia", disk::make_scalar_monomial_basis(msh, cl, k, true));
                scal("legendre cell", disk::make_scalar_legendre_basis(msh, cl, k, false));
                scal("legendre cell inertia", disk::make_scalar_legendre_basis(msh, cl, k, true));
                if (k <= (D == 2 ? 4 : 3))
                    for (long p = 0; p < k; p++) {
                        auto hb = disk::make_scalar_harmonic_top_basis(msh, cl, k);
                        hb.maximum_polynomial_degree(p);
                        auto LH = cell_lattice(bar, D, doc.scale, k, g);
                        space(tr, "harmonic", "harm", D, D, ci, k, p, LH, hb.size(), [&](const auto& x) { return flat(hb.eval_functions(LH.template phys<P>(x))); },
                              {{"grad", [&](const auto& x) { return flat(hb.eval_gradients(LH.template phys<P>(x))); }}});
                    }
            }
            auto snew = [&](const std::string& w, auto b) {
                std::vector<Op> ops;
                ops.push_back({"grad", [&](const auto& x) { return flat(b.grad(ph(x))); }});
                space(tr, w, "scal", D, D, ci, k, 0, L, b.size(), [&](const auto& x) { return flat(b(ph(x))); }, ops);
            };
            namespace bs = disk::basis;
            if constexpr (D == 2) {
                snew("new cell none", bs::scaled_monomial_basis(msh, cl, k, bs::rescaling_strategy::none));
                snew("new cell inertial", bs::scaled_monomial_basis(msh, cl, k, bs::rescaling_strategy::inertial));
                if (doc.kind != "gen") snew("new cell gram-schmidt", bs::scaled_monomial_basis(msh, cl, k, bs::rescaling_strategy::gram_schmidt));
            }
            snew("new cell", bs::scaled_monomial_basis(msh, cl, k));
            /* matrices and projections of the scalar basis */
            if constexpr (D > 1) {
                auto b = disk::make_scalar_monomial_basis(msh, cl, k);
                Eval f = [&](const auto& x) { return flat(b.eval_functions(ph(x))); };
                gram<decltype(pts), P>(tr, "cell", true, D, ci, pts, doc.scale, k, g, L, f, b.size(), disk::make_mass_matrix(msh, cl, b), disk::make_stiffness_matrix(msh, cl, b),
                    [&](const std::function<double(const P&)>& fn, size_t di) { return VX(disk::make_rhs(msh, cl, b, fn, di)); });
                auto bl = disk::make_scalar_legendre_basis(msh, cl, k, true);
                Eval fl = [&](const auto& x) { return flat(bl.eval_functions(ph(x))); };
                gram<decltype(pts), P>(tr, "cell legendre", true, D, ci, pts, doc.scale, k, g, L, fl, bl.size(), disk::make_mass_matrix(msh, cl, bl), disk::make_stiffness_matrix(msh, cl, bl), nullptr);
                auto G = gens("scal", k, D);
                auto gm = G[g.range(0, G.size() - 1)];
                auto F = field(gm, D, 1, {});
                disk::scalar_rhs_function<Mesh> fn = [&](const P& p) { return F[0](L.grid(p)); };
                VX c1 = disk::project_function(msh, cl, size_t(k), fn), c2 = disk::project_function(msh, cl, b, fn, 1);
                proj(tr, "project_function(degree)", "scal", "id", D, ci, k, L, gm, [&](const auto& x) { return std::vector<double>{disk::eval(c1, b.eval_functions(ph(x)))}; }, 1);
                proj(tr, "project_function(basis)", "scal", "id", D, ci, k, L, gm, [&](const auto& x) { return std::vector<double>{disk::eval(c2, b.eval_functions(ph(x)))}; }, 1);
                proj(tr, "projected gradient", "scal", "grad", D, ci, k, L, gm, [&](const auto& x) { return sv(disk::eval(c2, b.eval_gradients(ph(x)))); }, 1.0 / doc.scale);
                /* L2 projection beyond the degree of the basis: the moments are kept */
                gram<decltype(pts), P>(tr, "cell projection", true, D, ci, pts, doc.scale, k, g, L, f, b.size(), MX(), MX(),
                    [&](const std::function<double(const P&)>& fn, size_t di) { return VX(disk::make_mass_matrix(msh, cl, b) * disk::project_function(msh, cl, b, disk::scalar_rhs_function<Mesh>(fn), di)); });
                auto nb = bs::scaled_monomial_basis(msh, cl, k);
                Eval fnb = [&](const auto& x) { return flat(nb(ph(x))); };
                gram<decltype(pts), P>(tr, "cell new", true, D, ci, pts, doc.scale, k, g, L, fnb, nb.size(), bs::integrate(msh, cl, nb, nb), MX(), nullptr);
                if (k > 0) gram<decltype(pts), P>(tr, "cell new stiffness", true, D, ci, pts, doc.scale, k, g, L, fnb, nb.size(), MX(), bs::integrate(msh, cl, bs::grad(nb), bs::grad(nb)), nullptr);
                VX c3 = bs::L2_project(msh, cl, bs::fun<decltype(nb)>(fn), nb);
                bs::L2_projector<decltype(nb)> pr(msh, cl, nb);
                VX c4 = pr(fn);
                proj(tr, "L2_project", "scal", "id", D, ci, k, L, gm, [&](const auto& x) { return std::vector<double>{bs::eval(ph(x), c3, nb)}; }, 1);
                proj(tr, "L2_projector", "scal", "id", D, ci, k, L, gm, [&](const auto& x) { return std::vector<double>{bs::eval(ph(x), c4, nb)}; }, 1);
            }
            if constexpr (D == 1) {
                auto b = disk::make_scalar_monomial_basis(msh, cl, k);
                Eval f = [&](const auto& x) { return flat(b.eval_functions(ph(x))); };
                gram<decltype(pts), P>(tr, "cell", true, D, ci, pts, doc.scale, k, g, L, f, b.size(), disk::make_mass_matrix(msh, cl, b), disk::make_stiffness_matrix(msh, cl, b),
                    [&](const std::function<double(const P&)>& fn, size_t di) { return VX(disk::make_rhs(msh, cl, b, fn, di)); });
            }
            /* orthonormality on boxes */
            if constexpr (D > 1)
                if (doc.kind == "cart") {
                    auto b = disk::make_scalar_legendre_basis(msh, cl, k, false);
                    MX M = disk::make_mass_matrix(msh, cl, b);
                    std::vector<VL> gr;
                    for (long a = 0; a < M.rows(); a++) { VL r; for (long c = 0; c < M.cols(); c++) r.push_back(std::lround(M(a, c) * 1e6)); gr.push_back(r); }
                    tr.emit(Obj()("ev", "Ortho")("what", "legendre cell")("size", b.size())("gram", gr));
                }
            /* vector and matrix bases */
            if constexpr (D > 1)
                if (k <= (D == 2 ? 3 : 2)) {
                    auto vb = disk::make_vector_monomial_basis(msh, cl, k, k % 2 == 0);
                    std::vector<Op> ops = {{"jac", [&](const auto& x) { return flat(vb.eval_gradients(ph(x))); }},
                                           {"sgrad2", [&](const auto& x) { return flat(vb.eval_sgradients(ph(x))); }},
                                           {"div", [&](const auto& x) { return flat(vb.eval_divergences(ph(x))); }}};
                    if constexpr (D == 2) ops.push_back({"curl", [&](const auto& x) { return flat(vb.eval_curls(ph(x))); }});
                    if constexpr (D == 3) ops.push_back({"curl", [&](const auto& x) { return flat(vb.eval_curls2(ph(x))); }});
                    space(tr, "vector cell", "vec", D, D, ci, k, 0, L, vb.size(), [&](const auto& x) { return flat(vb.eval_functions(ph(x))); }, ops);
                    if (D == 2 || k <= 1) {
                        auto mb = disk::make_matrix_monomial_basis(msh, cl, k, k % 2 == 1);
                        space(tr, "matrix cell", "mat", D, D, ci, k, 0, L, mb.size(), [&](const auto& x) { return flat(mb.eval_functions(ph(x))); }, {});
                    }
                    auto sb = disk::make_sym_matrix_monomial_basis(msh, cl, k, k % 2 == 1);
                    space(tr, "sym matrix cell", "sym", D, D, ci, k, 0, L, sb.size(), [&](const auto& x) { return flat(sb.eval_functions(ph(x))); }, {});
                    auto G = gens("vec", k, D);
                    auto gm = G[g.range(0, G.size() - 1)];
                    auto F = field(gm, D, D, {});
                    disk::vector_rhs_function<Mesh> fn = [&](const P& p) { Eigen::Matrix<T, D, 1> r; auto x = L.grid(p); for (size_t c = 0; c < D; c++) r(c) = F[c](x); return r; };
                    auto vb0 = disk::make_vector_monomial_basis(msh, cl, k);
                    VX c1 = disk::project_function(msh, cl, size_t(k), fn), c2 = disk::project_function(msh, cl, vb, fn, 1);
                    proj(tr, "project_function(vector, degree)", "vec", "id", D, ci, k, L, gm, [&](const auto& x) { return sv(disk::eval(c1, vb0.eval_functions(ph(x)))); }, 1);
                    proj(tr, "project_function(vector, basis)", "vec", "id", D, ci, k, L, gm, [&](const auto& x) { return sv(disk::eval(c2, vb.eval_functions(ph(x)))); }, 1);
                    if (k > 0) {
                        disk::matrix_rhs_function<Mesh> mf = [&](const P& p) { Eigen::Matrix<T, D, D> r; auto x = L.grid(p); for (size_t c = 0; c < D; c++) for (size_t b = 0; b < D; b++) r(c, b) = pd(F[c], b)(x) * doc.scale; return r; };
                        VX c3 = disk::project_gradient(msh, cl, k, mf);
                        proj(tr, "project_gradient", "vec", "jac", D, ci, k, L, gm, [&](const auto& x) { return sv(disk::eval(c3, vb0.eval_gradients(ph(x)), D)); }, 1.0 / doc.scale);
                    }
                    /* vector mass and stiffness on fields with equal components L^a */
                    auto bsc = disk::make_scalar_monomial_basis(msh, cl, k);
                    Eval fs = [&](const auto& x) { return flat(bsc.eval_functions(ph(x))); };
                    MX Mv = disk::make_mass_matrix(msh, cl, vb0), Kv = disk::make_stiffness_matrix(msh, cl, vb0);
                    MX E = MX::Zero(vb0.size(), bsc.size());
                    size_t comp = g.range(0, D - 1);
                    for (size_t a = 0; a < bsc.size(); a++) E(a * D + comp, a) = 1;
                    gram<decltype(pts), P>(tr, "cell vector", true, D, ci, pts, doc.scale, k, g, L, fs, bsc.size(), E.transpose() * Mv * E, E.transpose() * Kv * E,
                        [&](const std::function<double(const P&)>& fn, size_t di) { std::function<Eigen::Matrix<T, D, 1>(const P&)> vf = [&](const P& p) { Eigen::Matrix<T, D, 1> r = Eigen::Matrix<T, D, 1>::Zero(); r(comp) = fn(p); return r; };
                                                                                    return VX(E.transpose() * disk::make_rhs(msh, cl, vb0, vf, di)); });
                }
            if constexpr (D > 1)
                if (simplex && k >= 1 && k <= 3) {
                    auto rt = disk::make_vector_monomial_basis_RT(msh, cl, k);
                    space(tr, "RT", "rt", D, D, ci, k, 0, L, rt.size(), [&](const auto& x) { return flat(rt.eval_functions(ph(x))); }, {{"div", [&](const auto& x) { return flat(rt.eval_divergences(ph(x))); }}});
                    if (D == 2 || k <= 2) {
                        auto mrt = disk::make_matrix_monomial_basis_RT(msh, cl, k);
                        space(tr, "matrix RT", "matrt", D, D, ci, k, 0, L, mrt.size(), [&](const auto& x) { return flat(mrt.eval_functions(ph(x))); }, {});
                    }
                    auto srt = disk::make_sym_matrix_monomial_basis_RT(msh, cl, k);
                    space(tr, "sym matrix RT", "symrt", D, D, ci, k, 0, L, srt.size(), [&](const auto& x) { return flat(srt.eval_functions(ph(x))); }, {});
                }
        }
    }
    i = 0;
    for (auto it = msh.faces_begin(); it != msh.faces_end(); ++it) {
        size_t fi = i++;
        if (D > 1 && msh.faces_size() > 4 && fi % 5 != size_t(seed + doc.n) % 5) continue;
        auto fc = *it;
        auto pts = points(msh, fc);
        std::vector<P> ps(pts.begin(), pts.end());
        for (long k = 0; k <= std::min(kmax, 4L); k++) {
            auto L = face_lattice(ps, D, doc.scale, k, g);
            auto ph = [&](const std::vector<double>& x) { return L.template phys<P>(x); };
            auto scal = [&](const std::string& w, auto b) {
                space(tr, w, "scal", D, D - 1, fi, k, 0, L, b.size(), [&](const auto& x) { return flat(b.eval_functions(ph(x))); }, {});
            };
            namespace bs = disk::basis;
            auto nb = bs::scaled_monomial_basis(msh, fc, k);
            space(tr, "new face", "scal", D, D - 1, fi, k, 0, L, nb.size(), [&](const auto& x) { return flat(nb(ph(x))); }, {});
            if constexpr (D > 1) {
                scal("monomial face", disk::make_scalar_monomial_basis(msh, fc, k));
                scal("legendre face", disk::make_scalar_legendre_basis(msh, fc, k));
                if (k <= 3) {
                    auto vb = disk::make_vector_monomial_basis(msh, fc, k);
                    space(tr, "vector face", "vec", D, D - 1, fi, k, 0, L, vb.size(), [&](const auto& x) { return flat(vb.eval_functions(ph(x))); }, {});
                }
                auto b = disk::make_scalar_monomial_basis(msh, fc, k);
                Eval f = [&](const auto& x) { return flat(b.eval_functions(ph(x))); };
                gram<decltype(ps), P>(tr, "face", false, D, fi, ps, doc.scale, k, g, L, f, b.size(), disk::make_mass_matrix(msh, fc, b), MX(),
                    [&](const std::function<double(const P&)>& fn, size_t di) { return VX(disk::make_rhs(msh, fc, b, fn, di)); });
                gram<decltype(ps), P>(tr, "face projection", false, D, fi, ps, doc.scale, k, g, L, f, b.size(), MX(), MX(),
                    [&](const std::function<double(const P&)>& fn, size_t di) { return VX(disk::make_mass_matrix(msh, fc, b) * disk::project_function(msh, fc, b, disk::scalar_rhs_function<Mesh>(fn), di)); });
                Eval fnb = [&](const auto& x) { return flat(nb(ph(x))); };
                gram<decltype(ps), P>(tr, "face new", false, D, fi, ps, doc.scale, k, g, L, fnb, nb.size(), bs::integrate(msh, fc, nb, nb), MX(), nullptr);
                auto G = gens("scal", k, D);
                auto gm = G[g.range(0, G.size() - 1)];
                auto F = field(gm, D, 1, {});
                disk::scalar_rhs_function<Mesh> fn = [&](const P& p) { return F[0](L.grid(p)); };
                VX c1 = disk::project_function(msh, fc, size_t(k), fn);
                proj(tr, "project_function(face)", "scal", "id", D, fi, k, L, gm, [&](const auto& x) { return std::vector<double>{disk::eval(c1, b.eval_functions(ph(x)))}; }, 1);
                VX c3 = bs::L2_project(msh, fc, bs::fun<decltype(nb)>(fn), nb);
                proj(tr, "L2_project(face)", "scal", "id", D, fi, k, L, gm, [&](const auto& x) { return std::vector<double>{bs::eval(ph(x), c3, nb)}; }, 1);
                auto GV = gens("vec", k, D);
                auto gv = GV[g.range(0, GV.size() - 1)];
                auto FV = field(gv, D, D, {});
                disk::vector_rhs_function<Mesh> vfn = [&](const P& p) { Eigen::Matrix<T, D, 1> r; auto x = L.grid(p); for (size_t c = 0; c < D; c++) r(c) = FV[c](x); return r; };
                auto vb0 = disk::make_vector_monomial_basis(msh, fc, k);
                VX cv = disk::project_function(msh, fc, size_t(k), vfn);
                proj(tr, "project_function(face, vector)", "vec", "id", D, fi, k, L, gv, [&](const auto& x) { return sv(disk::eval(cv, vb0.eval_functions(ph(x)))); }, 1);
            }
            if constexpr (D == 2) {
                auto b = disk::make_scalar_legendre_basis(msh, fc, k);
                MX M = disk::make_mass_matrix(msh, fc, b);
                std::vector<VL> gr;
                for (long a = 0; a < M.rows(); a++) { VL r; for (long c = 0; c < M.cols(); c++) r.push_back(std::lround(M(a, c) * 1e6)); gr.push_back(r); }
                if (b.is_orthonormal()) tr.emit(Obj()("ev", "Ortho")("what", "legendre face")("size", b.size())("gram", gr));
            }
            if constexpr (D == 3)
                if (k <= 2) {
                    auto tb = disk::make_vector_monomial_tangential_basis(msh, fc, k);
                    space(tr, "tangential", "tang", D, 2, fi, k, 0, L, tb.size(), [&](const auto& x) { return flat(tb.eval_functions(ph(x))); }, {});
                    if (k >= 1) {
                        auto ne = disk::make_vector_monomial_nedelec_tangential_basis(msh, fc, k);
                        space(tr, "nedelec tangential", "ned", D, 2, fi, k, 0, L, ne.size(), [&](const auto& x) { return flat(ne.eval_functions(ph(x))); }, {});
                    }
                }
        }
    }
}
/* high degrees of the Legendre basis, on unit boxes only (cost) */
template<typename Mesh> void high(Trace& tr, Mesh& msh, const Doc& doc, long seed)
{
    if constexpr (Mesh::dimension == 2) {
        using P = typename Mesh::point_type;
        Rng g(seed);
        long ci = 0;
        for (auto& cl : msh) {
            if (ci == 2) break;
            for (long k = 5; k <= 10; k++) {
                auto L = cell_lattice(barycenter(msh, cl), 2, doc.scale, k, g);
                auto b = disk::make_scalar_legendre_basis(msh, cl, k, false);
                space(tr, "legendre cell", "scal", 2, 2, ci, k, 0, L, b.size(), [&](const auto& x) { return flat(b.eval_functions(L.template phys<P>(x))); },
                      {{"grad", [&](const auto& x) { return flat(b.eval_gradients(L.template phys<P>(x))); }}});
                if (k <= 8) {
                    auto m = disk::make_scalar_monomial_basis(msh, cl, k, false);
                    space(tr, "monomial cell", "scal", 2, 2, ci, k, 0, L, m.size(), [&](const auto& x) { return flat(m.eval_functions(L.template phys<P>(x))); },
                          {{"grad", [&](const auto& x) { return flat(m.eval_gradients(L.template phys<P>(x))); }}});
                }
            }
            ci++;
        }
    }
}
int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto docs = read_docs(argv[2]);
    long seed = atol(argv[3]);
    int part = atoi(argv[4]), parts = atoi(argv[5]);
    long kmax = atol(argv[6]);
    for (auto& dd : docs)
        if (dd.dim == PDIM && dd.n % parts == part)
            guarded(tr, "doc " + std::to_string(dd.n), [&]() {
                auto f = [&](auto& msh, const Doc& x) { run(tr, msh, x, seed, kmax); if (x.kind == "cart") high(tr, msh, x, seed); };
                auto go = [&](auto msh) { build(dd, msh); f(msh, dd); };
#if PDIM == 1
                go(disk::generic_mesh<double, 1>());
#elif PDIM == 2
                if (dd.kind == "simplex") go(disk::simplicial_mesh<double, 2>());
                else if (dd.kind == "cart") go(disk::cartesian_mesh<double, 2>());
                else go(disk::generic_mesh<double, 2>());
#else
                if (dd.kind == "simplex") go(disk::simplicial_mesh<double, 3>());
                else if (dd.kind == "cart") go(disk::cartesian_mesh<double, 3>());
                else go(disk::generic_mesh<double, 3>());
#endif
            });
    tr.emit(Obj()("ev", "End"));
    return 0;
}
