/* Static condensation, whole problems, conjugate gradient. args: OUT DOCS SEED PART PARTS N */
#include "meshbuild.hpp"
#include "meshdump.hpp"
#include "diskpp/boundary_conditions/boundary_conditions.hpp"
#include "diskpp/methods/hho"
#include "diskpp/methods/implementation_hho/curl.hpp"
#include "diskpp/methods/hho_slapl.hpp"
#include "diskpp/methods/implementation_vem/methods_vem_2d.hpp"
#include "diskpp/solvers/solver.hpp"
using namespace vh;
using VL = std::vector<long>;
using VVL = std::vector<VL>;
using DM = disk::dynamic_matrix<double>;
using DV = disk::dynamic_vector<double>;
static VL qv(const DV& b) { VL r; for (long i = 0; i < b.size(); i++) r.push_back(Q(b(i))); return r; }
static VVL qm(const DM& A) { VVL r; for (long i = 0; i < A.rows(); i++) r.push_back(qv(A.row(i))); return r; }
template<typename F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static long val(Rng& g) { return g.range(0, 2) ? 0 : g.range(-4, 4); }
static DM rmat(Rng& g, long n, long m) { DM A(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) A(i, j) = val(g); return A; }
static DV rvec(Rng& g, long n) { DV b(n); for (long i = 0; i < n; i++) b(i) = g.range(-9, 9); return b; }
/* unit lower triangular whose off-diagonal part has square zero */
static DM unit(Rng& g, long n)
{
    std::vector<int> c(n); for (auto& x : c) x = g.range(0, 1);
    DM L = DM::Identity(n, n);
    for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) if (c[i] && !c[j] && g.range(0, 2) == 0) L(i, j) = g.range(0, 1) ? 1 : -1;
    return L;
}
struct Sized { size_t n; size_t size() const { return n; } };
struct Sys { DM L, A, X; DV b; std::vector<DV> xF; long t, n; };
static Sys make(Rng& g, long t, long f)
{
    Sys s; s.t = t; s.n = t + f; s.L = unit(g, t); s.A = rmat(g, t + f, t + f);
    s.A.topLeftCorner(t, t) = s.L * s.L.transpose();
    if (g.range(0, 1)) { s.A.bottomLeftCorner(f, t) = s.A.topRightCorner(t, f).transpose(); s.A.bottomRightCorner(f, f) += DM(s.A.bottomRightCorner(f, f)).transpose(); }
    s.b = rvec(g, t + f);
    for (int i = 0; i < 2; i++) s.xF.push_back(rvec(g, f));
    return s;
}
static Obj sys(const Sys& s, const DV& b)
{
    VVL x; for (auto& v : s.xF) x.push_back(qv(v));
    Obj o; o("ev", "System")("L", qm(s.L))("A", qm(s.A))("b", qv(b))("xF", x); return o;
}
static void cond(Trace& tr, const std::string& how, const DM& A) { tr.emit(Obj()("ev", "Condense")("how", how)("A", qm(A))); }
static void cond(Trace& tr, const std::string& how, const DM& A, const DV& b) { tr.emit(Obj()("ev", "Condense")("how", how)("A", qm(A))("b", qv(b))); }
static void cond(Trace& tr, const std::string& how, const DM& A, const DV& b, const DM& X, const DV& y) { tr.emit(Obj()("ev", "Condense")("how", how)("A", qm(A))("b", qv(b))("X", qm(X))("y", qv(y))); }
static void deco(Trace& tr, const std::string& how, const VVL& x, bool hom = false) { tr.emit(Obj()("ev", "Decondense")("how", how)("homogeneous", hom)("x", x)); }
static void wrong(Trace& tr, const std::string& op, long size, bool threw) { tr.emit(Obj()("ev", "WrongSize")("op", op)("size", size)("threw", threw)); }
static void deconds(Trace& tr, const std::string& how, const Sys& s, std::function<DV(const DV&)> f) { VVL x; for (auto& v : s.xF) x.push_back(qv(f(v))); deco(tr, how, x); }

/* VEM keeps the eliminated unknowns last */
static DM turned(const DM& A, long t)
{
    long n = A.rows(), f = n - t; DM B(n, n);
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) B(i < t ? f + i : i - t, j < t ? f + j : j - t) = A(i, j);
    return B;
}
static DV turned(const DV& b, long t) { DV r(b.size()); r << b.tail(b.size() - t), b.head(t); return r; }

static void raw(Trace& tr, Rng& g, int turns)
{
    for (int k = 0; k < turns; k++) guarded(tr, "raw " + std::to_string(k), [&]() {
        Sys s = make(g, g.range(1, 6), g.range(1, 7));
        tr.emit(sys(s, s.b));
        { auto [c, X, y] = disk::priv::static_condensation_impl(s.A, s.b, s.t, s.n - s.t); cond(tr, "impl", c.first, c.second, X, y);
          deconds(tr, "impl", s, [&](const DV& u) { return disk::priv::static_decondensation_impl(s.A, s.b, u, s.t, s.n - s.t); });
          deconds(tr, "scalar, matrices", s, [&](const DV& u) { return disk::make_scalar_static_decondensation_withMatrix(X, y, u); });
          deconds(tr, "vector, matrices", s, [&](const DV& u) { return disk::make_vector_static_decondensation_withMatrix(X, y, u); }); }
        { auto c = disk::static_condensation(s.A, s.b, s.t); cond(tr, "curl", c.first, c.second);
          cond(tr, "curl, matrix", disk::static_condensation(s.A, size_t(s.t)));
          deconds(tr, "curl", s, [&](const DV& u) { return disk::static_decondensation(s.A, s.b, u); });
          DM U(s.n - s.t, s.xF.size()); for (size_t j = 0; j < s.xF.size(); j++) U.col(j) = s.xF[j];
          DM x = disk::static_decondensation(s.A, U); VVL xx; for (long j = 0; j < x.cols(); j++) xx.push_back(qv(x.col(j)));
          deco(tr, "curl, matrix", xx, true); }
        { Sized b{size_t(s.t)}; auto c = disk::hho::schur(s.A, s.b, b); cond(tr, "schur", c.first, c.second);
          deconds(tr, "deschur", s, [&](const DV& u) { return DV(disk::hho::deschur(s.A, s.b, u, b)); }); }
        { DM A = turned(s.A, s.t); DV b = turned(s.b, s.t); size_t nf = s.n - s.t;
          auto c = disk::vem::schur(A, b, nf); cond(tr, "vem", c.first, c.second);
          deconds(tr, "vem", s, [&](const DV& u) { return turned(DV(disk::vem::deschur(A, b, u, nf)), nf); }); }
        for (int i = 0; i < 2; i++) {
            long z = g.range(0, s.n + 2);
            if (z != s.t && z != s.n) wrong(tr, "condense", z, throws([&]() { disk::priv::static_condensation_impl(s.A, rvec(g, z), s.t, s.n - s.t); }));
            if (z < s.t) wrong(tr, "expand", z, throws([&]() { disk::priv::static_decondensation_impl(s.A, rvec(g, z), s.xF[0], s.t, s.n - s.t); }));
        }
        Sys h = s; h.b = s.b.head(s.t);
        tr.emit(sys(h, h.b));
        { auto [c, X, y] = disk::priv::static_condensation_impl(h.A, h.b, s.t, s.n - s.t); cond(tr, "impl, cell", c.first, c.second, X, y);
          deconds(tr, "impl, cell", h, [&](const DV& u) { return disk::priv::static_decondensation_impl(h.A, h.b, u, s.t, s.n - s.t); }); }
    });
}
template<typename Mesh> void cells(Trace& tr, Mesh& msh, Rng& g)
{
    constexpr size_t D = Mesh::dimension;
    size_t i = 0;
    for (auto& cl : msh) {
        if (i++ > 3) break;
        guarded(tr, "cell " + std::to_string(i - 1), [&]() {
        size_t nf = disk::howmany_faces(msh, cl);
        size_t fd = nf > 4 ? 0 : g.range(0, 1), cd = D == 3 ? g.range(0, 1) : g.range(0, 2);
        if (cd + 1 < fd || cd > fd + 1) cd = fd;
        disk::hho_degree_info hdi(cd, fd);
        for (size_t nc : {size_t(1), size_t(D)}) {
            long t = nc * disk::scalar_basis_size(cd, D), f = nc * nf * disk::scalar_basis_size(fd, D - 1);
            if (t + f > 40) continue;
            bool part = g.range(0, 2) == 0;
            Sys s = make(g, t, f); DV b = part ? DV(s.b.head(t)) : s.b;
            Obj o = sys(s, b); o("cdeg", cd)("fdegs", VL(nf, fd))("nc", nc); tr.emit(o);
            if (nc == 1) {
                auto c = disk::make_scalar_static_condensation(msh, cl, hdi, s.A, b); cond(tr, "scalar", c.first, c.second);
                auto [c2, X, y] = disk::make_scalar_static_condensation_withMatrix(msh, cl, hdi, s.A, b); cond(tr, "scalar, matrices", c2.first, c2.second, X, y);
                deconds(tr, "scalar", s, [&](const DV& u) { return disk::make_scalar_static_decondensation(msh, cl, hdi, s.A, b, u); });
                wrong(tr, "condense", t + f + 1, throws([&]() { disk::make_scalar_static_condensation(msh, cl, hdi, s.A, rvec(g, t + f + 1)); }));
            }
            if (nc == D) {
                auto c = disk::make_vector_static_condensation(msh, cl, hdi, s.A, b); cond(tr, "vector", c.first, c.second);
                auto [c2, X, y] = disk::make_vector_static_condensation_withMatrix(msh, cl, hdi, s.A, b); cond(tr, "vector, matrices", c2.first, c2.second, X, y);
                deconds(tr, "vector", s, [&](const DV& u) { return disk::make_vector_static_decondensation(msh, cl, hdi, s.A, b, u); });
                if constexpr (D > 1) {
                disk::MeshDegreeInfo<Mesh> mdi(msh, cd, fd, fd + 1);
                auto [c3, X3, y3] = disk::make_vector_static_condensation_withMatrix(msh, cl, mdi, s.A, b); cond(tr, "vector, mesh degrees", c3.first, c3.second, X3, y3);
                auto [c4, X4, y4] = disk::make_vector_static_condensation_withMatrix(msh, cl, mdi, s.A, s.b, false); cond(tr, "vector, no check", c4.first, part ? DV(c4.second - s.b.tail(f)) : c4.second, X4, y4);
                }
            }
        }
        });
    }
}
template<typename Mesh> auto cell_at(Mesh& msh, size_t c) { return *std::next(msh.cells_begin(), c); }
static double err(const DV& x, const DV& y) { return (x - y).norm(); }
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }

/* whole problems: matrices W W^T, solution made of integers */
template<typename Mesh> void problem(Trace& tr, Mesh& msh, Rng& g, const std::string& how)
{
    constexpr size_t D = Mesh::dimension;
    using T = double;
    using BC = disk::scalar_boundary_conditions<Mesh>;
    size_t nc = msh.cells_size(), nfc = msh.faces_size();
    size_t fd = g.range(0, 1), cd = D == 3 ? fd : fd + g.range(0, 1);
    disk::hho_degree_info hdi(cd, fd);
    size_t t = disk::scalar_basis_size(cd, D), nb = disk::scalar_basis_size(fd, D - 1);
    if (nfc * nb > 120) return;
    BC bc(msh);
    std::vector<bool> dir(nfc, false); VL dval(nfc, 0);
    double g0 = double(g.range(-4, 4));
    if (how == "diff0") for (size_t f = 0; f < nfc; f++) { auto fc = *std::next(msh.faces_begin(), f); if (msh.is_boundary(fc)) { dir[f] = true; dval[f] = long(g0); } }
    else if (how == "basicD") { for (size_t f = 0; f < nfc; f++) dir[f] = g.range(0, 3) == 0; }
    else {
        std::set<size_t> ids;
        for (auto it = msh.boundary_faces_begin(); it != msh.boundary_faces_end(); ++it) ids.insert(msh.boundary_id(*it));
        for (auto id : ids) if (g.range(0, 2)) {
            double v = double(g.range(-4, 4));
            bc.addDirichletBC(disk::DIRICHLET, id, [v](const disk::point<double, D>&) -> double { return v; });
            for (size_t f = 0; f < nfc; f++) { auto fc = *std::next(msh.faces_begin(), f); if (msh.is_boundary(fc) && msh.boundary_id(fc) == id) { dir[f] = true; dval[f] = long(v); } }
        }
    }
    DV uF(nfc * nb);
    for (size_t f = 0; f < nfc; f++) for (size_t k = 0; k < nb; k++) uF(f * nb + k) = dir[f] ? (k ? 0 : dval[f]) : g.range(-9, 9);
    std::vector<DM> A(nc); std::vector<DV> b(nc), u(nc);
    std::vector<DM> W(nc);
    auto ids_of = [&](size_t c) { return disk::faces_id(msh, cell_at(msh, c)); };
    for (size_t c = 0; c < nc; c++) {
        auto ids = ids_of(c); size_t n = t + nb * ids.size();
        W[c] = DM::Zero(n, n); W[c].topLeftCorner(t, t) = unit(g, t);
        for (size_t i = t; i < n; i++) { for (size_t j = 0; j < i; j++) W[c](i, j) = g.range(0, 3) ? 0 : g.range(-1, 1); W[c](i, i) = g.range(2, 4); }
        A[c] = W[c] * W[c].transpose();
        u[c] = rvec(g, n);
        for (size_t i = 0; i < ids.size(); i++) u[c].segment(t + i * nb, nb) = uF.segment(ids[i] * nb, nb);
        b[c] = A[c] * u[c];
    }
    for (size_t f = 0; f < nfc; f++) { /* loads of the faces that cancel out */
        std::vector<std::pair<size_t, size_t>> own;
        for (size_t c = 0; c < nc; c++) { auto ids = ids_of(c); for (size_t i = 0; i < ids.size(); i++) if (ids[i] == f) own.push_back({c, i}); }
        if (own.size() == 2) for (size_t k = 0; k < nb; k++) { double r = g.range(-9, 9); b[own[0].first](t + own[0].second * nb + k) += r; b[own[1].first](t + own[1].second * nb + k) -= r; }
    }
    tr.emit(Obj()("ev", "Problem")("how", how)("cdeg", cd)("fdeg", fd)("dir", dir)("dval", dval));
    Sized bs{t};
    std::vector<DM> X(nc); std::vector<DV> y(nc), cb(nc); std::vector<DM> C(nc);
    int way = g.range(0, 1);
    for (size_t c = 0; c < nc; c++) {
        auto cl = cell_at(msh, c);
        if (way == 0) { auto q = disk::make_scalar_static_condensation_withMatrix(msh, cl, hdi, A[c], b[c]); C[c] = std::get<0>(q).first; cb[c] = std::get<0>(q).second; X[c] = std::get<1>(q); y[c] = std::get<2>(q); }
        else { auto q = disk::hho::schur(A[c], b[c], bs); C[c] = q.first; cb[c] = q.second; }
        tr.emit(Obj()("ev", "Local")("c", c)("W", qm(W[c]))("b", qv(b[c]))("A", qm(C[c]))("cb", qv(cb[c])));
    }
    auto expand = [&](size_t c, const DV& lf) { if (way == 0) return DV(disk::make_scalar_static_decondensation_withMatrix(X[c], y[c], lf)); return DV(disk::hho::deschur(A[c], b[c], lf, bs)); };
    auto solve = [&](auto& as) {
        if (as.LHS.rows() == 0) return DV(0);
        if (g.range(0, 1)) { Eigen::SparseLU<Eigen::SparseMatrix<T>> lu; lu.compute(as.LHS); return DV(lu.solve(as.RHS)); }
        disk::solvers::conjugated_gradient_params<T> cgp; cgp.max_iter = 50 * as.LHS.rows(); cgp.rr_tol = 1e-13; cgp.rr_max = 1e6;
        DV x = DV::Zero(as.LHS.rows()); disk::solvers::conjugated_gradient(cgp, Eigen::SparseMatrix<T>(as.LHS), DV(as.RHS), x); return x;
    };
    VVL out(nc);
    auto done = [&]() { tr.emit(Obj()("ev", "Solution")("how", how)("x", out)); };
    auto order = [&]() { std::vector<size_t> o(nc); for (size_t i = 0; i < nc; i++) o[i] = i; for (size_t i = nc; i > 1; i--) std::swap(o[i - 1], o[g.next() % i]); return o; };
    if (how == "diff0") {
        auto as = disk::make_diffusion_assembler(msh, hdi);
        auto df = [&](const typename Mesh::point_type&) -> double { return g0; };
        for (auto c : order()) as.assemble(msh, cell_at(msh, c), C[c], cb[c], df);
        as.finalize(); DV x = solve(as);
        for (size_t c = 0; c < nc; c++) out[c] = qv(expand(c, as.take_local_solution(msh, cell_at(msh, c), x, df)));
        done();
    } else if (how == "diff") {
        auto as = disk::make_diffusion_assembler(msh, hdi, bc);
        for (auto c : order()) as.assemble(msh, cell_at(msh, c), bc, C[c], cb[c]);
        as.finalize(); DV x = solve(as);
        for (size_t c = 0; c < nc; c++) out[c] = qv(expand(c, as.take_local_data(msh, cell_at(msh, c), bc, x)));
        done();
    } else if (how == "primal") {
        auto as = disk::make_scalar_primal_hho_assembler(msh, hdi, bc);
        for (auto c : order()) as.assemble(msh, cell_at(msh, c), bc, C[c], cb[c]);
        as.finalize(); DV x = solve(as);
        for (size_t c = 0; c < nc; c++) out[c] = qv(expand(c, as.take_local_solution(msh, cell_at(msh, c), bc, x)));
        done();
    } else if constexpr (D > 1) {
        using fbt = typename disk::hho::slapl::hho_space<Mesh>::face_basis_type;
        disk::hho::basic_condensed_assembler<Mesh, fbt> as(msh, fd, dir);
        for (auto c : order()) as.assemble(msh, cell_at(msh, c), C[c], cb[c]);
        as.finalize(); DV x = solve(as);
        for (size_t c = 0; c < nc; c++) out[c] = qv(expand(c, as.take_local_solution(msh, cell_at(msh, c), x)));
        done();
    }
}
static void cgs(Trace& tr, Rng& g, const std::string& dir, int turns)
{
    namespace ds = disk::solvers;
    using SM = Eigen::SparseMatrix<double>;
    for (int k = 0; k < turns; k++) guarded(tr, "cg " + std::to_string(k), [&]() {
        long n = g.range(1, 12);
        DM W = DM::Zero(n, n);
        for (long i = 0; i < n; i++) { for (long j = 0; j < i; j++) W(i, j) = g.range(0, 3) ? 0 : g.range(-1, 1); W(i, i) = g.range(2, 4); }
        DM A = W * W.transpose();
        DV xs = g.range(0, 7) ? rvec(g, n) : DV(DV::Zero(n)), b = A * xs, x0 = g.range(0, 5) ? rvec(g, n) : xs;
        if (g.range(0, 2) == 0) x0 *= 1000;
        if (g.range(0, 4) == 0) x0 = xs + 1e-3 * rvec(g, n);
        ds::conjugated_gradient_params<double> p;
        double tols[] = {1e-2, 1e-6, 1e-8, 1e-10}, maxs[] = {20, 1e4, 1.5};
        int mi[] = {0, 0, 1, 2, 3, 100};
        p.rr_tol = tols[g.range(0, 3)]; p.rr_max = maxs[g.range(0, 2)]; p.max_iter = mi[g.range(0, 5)];
        p.use_initial_guess = g.range(0, 1); p.save_iteration_history = g.range(0, 4) > 0; p.history_filename = dir;
        SM S = A.sparseView();
        DV x = x0; bool square = true;
        switch (g.range(0, 9)) {
            case 0: S = DM(A.topRows(n - 1)).sparseView(); square = n == 0; break;
            case 1: b.conservativeResize(n + 1); b(n) = 0; square = false; break;
            case 2: x = rvec(g, n + 1); x0 = x; square = false; break;
        }
        unlink(dir.c_str());
        bool ret = ds::conjugated_gradient(p, S, b, x);
        std::vector<double> h; { std::ifstream i(dir); std::string w; while (i >> w) h.push_back(atof(w.c_str())); }
        DV start = p.use_initial_guess ? x0 : DV(DV::Zero(n));
        double r0 = square ? (b - A * start).norm() : 1;
        bool exact = r0 == 0;
        VL lev; for (double v : h) lev.push_back(v >= p.rr_max ? 2 : v > p.rr_tol ? 1 : 0);
        if (lev.empty()) lev.push_back(-1);
        long res = 0, er = 0;
        if (square) {
            double cn = 1; { Eigen::SelfAdjointEigenSolver<DM> es(A); cn = es.eigenvalues()(n - 1) / es.eigenvalues()(0); }
            double rr = (b - A * x).norm() / (exact ? 1 : r0), e = err(x, xs) / std::max(1e-3, err(start, xs));
            res = rr / p.rr_tol < 1e6 ? std::lround(rr / p.rr_tol / 2) : SENTINEL; er = e / cn / p.rr_tol < 1e6 ? std::lround(e / cn / p.rr_tol / 4) : SENTINEL;
        }
        tr.emit(Obj()("ev", "CG")("n", n)("square", square)("maxit", p.max_iter)("hist", p.save_iteration_history && square)("levels", lev)("exact", exact)("ret", ret)("same", x.size() == x0.size() && x == x0)("res", res)("err", er));
        if (square && !p.use_initial_guess && p.max_iter > 0) {
            sol::state lua; ds::init_lua(lua);
            lua["solver"]["cg"]["max_iter"] = p.max_iter; lua["solver"]["cg"]["rr_tol"] = p.rr_tol; lua["solver"]["cg"]["rr_max"] = p.rr_max;
            if (p.save_iteration_history) lua["solver"]["cg"]["hist_file"] = dir + "l";
            unlink((dir + "l").c_str());
            DV y = x0; bool r2 = g.range(0, 1) ? ds::conjugated_gradient(lua, S, b, y) : ds::linear_solver(lua, S, b, y);
            tr.emit(Obj()("ev", "Same")("what", "configured")("same", r2 == ret && y == x && slurp(dir) == slurp(dir + "l")));
            unlink((dir + "l").c_str());
        }
        unlink(dir.c_str());
    });
}
int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto docs = read_docs(argv[2]);
    long seed = atol(argv[3]), part = atol(argv[4]), parts = atol(argv[5]), n = atol(argv[6]);
    Rng g(seed * 7919 + part);
    raw(tr, g, n);
    cgs(tr, g, std::string(argv[1]) + ".hist", 3 * n);
    for (auto& d : docs) if (d.n % parts == part) guarded(tr, "doc " + std::to_string(d.n), [&]() { with_mesh(d, [&](auto& msh, const Doc& dd) {
        Obj b; b("ev", "Mesh")("n", dd.n); snapshot(b, msh, dd.scale); tr.emit(b);
        cells(tr, msh, g);
        if (msh.cells_size() <= 12) for (auto how : {"diff0", "diff", "primal", "basicD"}) guarded(tr, how, [&]() { problem(tr, msh, g, how); });
    }); });
    tr.emit(Obj()("ev", "End"));
    return 0;
}
