/* Model problems with polynomial solutions on whole meshes.  args: OUT DOCS PROBLEMS SEED PART PARTS TAG */
#include <Eigen/Dense>
#include <Eigen/SparseLU>
#include "json.hpp"
#include "poly.hpp"
#include "diskpp/methods/hho"
#include "diskpp/methods/hho_slapl.hpp"
#include "diskpp/methods/hho_assemblers.hpp"
#include "diskpp/solvers/solver.hpp"
#include "diskpp/output/gmshConvertMesh.hpp"
#include "diskpp/output/gmshDisk.hpp"
#include "diskpp/output/postMesh.hpp"
#include "diskpp/common/timecounter.hpp"
#include <fstream>
#include <cmath>
#include <sstream>
namespace app_el {
#include "apps/linear_elasticity/src/linear_elasticity_solver.hpp"
}
#undef _USE_MATH_DEFINES
namespace app_vl {
#include "apps/vector_laplacian/src/vector_laplacian_solver.hpp"
}
#ifndef KIND
#define KIND 20
#endif
#if KIND == 20
using MESH = disk::simplicial_mesh<double, 2>;
#elif KIND == 21
using MESH = disk::cartesian_mesh<double, 2>;
#elif KIND == 22
using MESH = disk::generic_mesh<double, 2>;
#elif KIND == 30
using MESH = disk::simplicial_mesh<double, 3>;
#elif KIND == 31
using MESH = disk::cartesian_mesh<double, 3>;
#else
using MESH = disk::generic_mesh<double, 3>;
#endif
static const char* KINDNAME[] = {"simplex", "cart", "gen"};
using namespace vh;
static constexpr size_t D = MESH::dimension;
using PT = MESH::point_type;
using SV = disk::static_vector<double, D>;
using SM = disk::static_matrix<double, D, D>;
using DV = disk::dynamic_vector<double>;
using DM = disk::dynamic_matrix<double>;
static Poly poly(const Json& j) { Poly p; for (auto& t : j.a) p.t.push_back({double(t[0].n), t[1].ints()}); return p; }
struct Pb
{
    std::string kind, text; int d, k, l; long la, mu, sides;
    std::vector<Poly> u, f; std::vector<std::vector<Poly>> flux; Poly p; DM K;
    static std::vector<double> co(const PT& x) { std::vector<double> r; for (size_t i = 0; i < D; i++) r.push_back(x[i]); return r; }
    double at(const Poly& q, const PT& x) const { return q(co(x)); }
    SV vec(const std::vector<Poly>& v, const PT& x) const { SV r; for (size_t i = 0; i < D; i++) r(i) = at(v[i], x); return r; }
    SV normalflux(const PT& x, const SV& n) const { SV r = SV::Zero(); for (size_t i = 0; i < flux.size(); i++) for (size_t j = 0; j < D; j++) r(i) += at(flux[i][j], x) * n(j); return r; }
    SM stress(const PT& x) const { SM r; for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) r(i, j) = at(flux[i][j], x); return r; }
};
static DV solve(const Eigen::SparseMatrix<double>& A, const DV& b)
{
    if (b.size() == 0) return b;
    Eigen::SparseLU<Eigen::SparseMatrix<double>> lu; lu.compute(A);
    if (lu.info() != Eigen::Success) throw std::runtime_error("singular system");
    return lu.solve(b);
}
/* parts of the boundary with one normal: 0 solution, 1 flux, 2 flux plus solution given */
struct Side { size_t id; int type; SV n; };
static std::vector<Side> sides(const MESH& msh, long code, int types)
{
    std::map<size_t, std::pair<SV, bool>> N;
    for (auto& cl : msh) for (auto& fc : faces(msh, cl)) if (msh.is_boundary(fc)) {
        size_t id = msh.boundary_id(fc); SV n = normal(msh, cl, fc);
        if (!N.count(id)) N[id] = {n, true}; else if ((N[id].first - n).norm() > 1e-8) N[id].second = false;
    }
    std::vector<Side> r; bool some = false;
    for (auto& [id, q] : N) { int t = code % types; code /= types; if (!q.second) t = 0; if (t == 0) some = true; r.push_back({id, t, q.first}); }
    if (!some && !r.empty()) r[0].type = 0;
    return r;
}
struct Out
{
    Trace& tr; const Pb& b; Rng& g; long n; double sum, size, lo;
    /* values of the unknown (empty when its degree is lower than that of the solution) and of an image, on a lattice */
    template<typename Cl> void cell(const MESH& msh, const Cl& cl, long i, const std::function<DV(const PT&)>& val, const std::string& oper, const std::function<DV(const PT&)>& img,
                                    const std::function<DV(const PT&)>& pres = {})
    {
        Lat L = cell_lattice(barycenter(msh, cl), D, 1, b.k + 1, g);
        for (size_t k = 0; k < D; k++) { L.p0[k] += long(L.org[k]); L.org[k] = 0; }
        Obj o; o("ev", "Found")("i", i); L.put(o);
        auto put = [&](const char* nm, const std::function<DV(const PT&)>& f) {
            std::vector<double> v; double first = 0; bool st = true;
            if (f) for (auto& X : L.X()) { DV y = f(L.phys<PT>(X)); if (std::string(nm) == "pres") { if (st) first = y(0); st = false; y(0) -= first; } for (long c = 0; c < y.size(); c++) v.push_back(y(c)); }
            o(nm, ints(v, 1e-7, lo));
        };
        put("val", val); o("oper", oper); put("img", img); put("pres", pres);
        tr.emit(o); n++;
    }
};
template<typename B> std::function<DV(const PT&)> evalv(const B& b, const DV& c)
{ return [b, c](const PT& x) mutable { auto phi = b.eval_functions(x); DV r(1); if constexpr (std::is_same_v<decltype(disk::eval(c, phi)), double>) r(0) = disk::eval(c, phi); else r = disk::eval(c, phi); return r; }; }
template<typename Recon> static std::function<DV(const PT&)> gradient(const MESH& msh, const MESH::cell_type& cl, size_t deg, const Recon& R)
{
    auto rb = disk::make_scalar_monomial_basis(msh, cl, deg);
    DV c = R;
    return [rb, c](const PT& x) mutable { auto dphi = rb.eval_gradients(x); DV r = DV::Zero(D); for (long i = 0; i < c.size(); i++) for (size_t k = 0; k < D; k++) r(k) += c(i) * dphi(i + 1, k); return r; };
}
/* HHO for diffusion: mode 0 imposed everywhere, 1 with conditions of three types, 2 the operators of hho_slapl */
static void diffusion(Trace& tr, const MESH& msh, const Pb& b, Rng& g, Out& out)
{
    disk::hho_degree_info hdi(b.k + b.l, b.k);
    disk::diffusion_tensor<MESH> K; for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) K(i, j) = b.K(i, j);
    auto uf = [&](const PT& x) -> double { return b.at(b.u[0], x); };
    auto ff = [&](const PT& x) -> double { return b.at(b.f[0], x); };
    auto local = [&](const auto& cl) {
        auto [GR, A] = disk::make_scalar_hho_laplacian(msh, cl, hdi, K);
        DM S = b.l == 1 ? DM(disk::make_scalar_hdg_stabilization(msh, cl, hdi)) : DM(disk::make_scalar_hho_stabilization(msh, cl, GR, hdi));
        auto cb = disk::make_scalar_monomial_basis(msh, cl, hdi.cell_degree());
        DV rhs = disk::make_rhs(msh, cl, cb, ff, 2);
        return std::tuple<DM, DM, DV>(GR, A + S, rhs);
    };
    auto post = [&](const auto& take) {
        long i = 0;
        for (auto& cl : msh) {
            auto [GR, A, rhs] = local(cl);
            DV loc = take(cl);
            DV full = disk::make_scalar_static_decondensation(msh, cl, hdi, A, rhs, loc);
            auto cb = disk::make_scalar_monomial_basis(msh, cl, hdi.cell_degree());
            out.cell(msh, cl, i++, b.l == 1 ? evalv(cb, full.head(cb.size())) : nullptr, "grad", gradient(msh, cl, b.k + 1, DV(GR * full)));
        }
    };
    if (b.kind == "diffusion") {
        auto A = disk::make_diffusion_assembler(msh, hdi);
        for (auto& cl : msh) { auto [GR, L, rhs] = local(cl); auto sc = disk::make_scalar_static_condensation(msh, cl, hdi, L, rhs); A.assemble(msh, cl, sc.first, sc.second, uf); }
        A.finalize();
        DV x = solve(A.LHS, A.RHS);
        post([&](const auto& cl) { return DV(A.take_local_data(msh, cl, x, uf)); });
    } else {
        disk::scalar_boundary_conditions<MESH> bnd(msh);
        for (auto s : sides(msh, b.sides, 3)) {
            if (s.type == 0) bnd.addDirichletBC(disk::DIRICHLET, s.id, uf);
            if (s.type == 1) bnd.addNeumannBC(disk::NEUMANN, s.id, [&b, s](const PT& x) -> double { return b.normalflux(x, s.n)(0); });
            if (s.type == 2) bnd.addRobinBC(disk::ROBIN, s.id, [&b, s](const PT& x) -> double { return b.normalflux(x, s.n)(0) + b.at(b.u[0], x); });
        }
        auto A = disk::make_scalar_primal_hho_assembler(msh, hdi, bnd);
        for (auto& cl : msh) { auto [GR, L, rhs] = local(cl); auto sc = disk::make_scalar_static_condensation(msh, cl, hdi, L, rhs); A.assemble(msh, cl, bnd, sc.first, sc.second, 2); }
        A.impose_neumann_boundary_conditions(msh, bnd, 2);
        A.impose_robin_boundary_conditions(msh, bnd, 2);
        A.finalize();
        DV x = solve(A.LHS, A.RHS);
        post([&](const auto& cl) { return DV(A.take_local_solution(msh, cl, bnd, x, 2)); });
    }
}
/* the same with the operators and the assembler of hho_slapl; given values are lifted, as its assembler knows only homogeneous conditions */
static void slapl(Trace& tr, const MESH& msh, const Pb& b, Rng& g, Out& out)
{
    namespace sl = disk::hho::slapl;
    using Space = sl::hho_space<MESH>;
    sl::degree_info di(b.k + b.l, b.k);
    auto uf = [&](const PT& x) -> double { return b.at(b.u[0], x); };
    auto ff = [&](const PT& x) -> double { return b.at(b.f[0], x); };
    auto [szT, szF, szR] = sl::space_dimensions<Space>(di);
    const long nF = szF, nT = szT;
    auto local = [&](const auto& cl) {
        auto [R, A] = sl::local_operator(msh, cl, di);
        DM L = b.l == 1 ? DM(A + sl::local_stabilization_hdg(msh, cl, di)) : DM(A + sl::local_stabilization(msh, cl, di, R));
        typename Space::cell_basis_type phi(msh, cl, di.cell);
        auto fcs = faces(msh, cl);
        DV r = DV::Zero(L.rows()), lift = DV::Zero(L.rows());
        r.head(nT) = disk::basis::integrate(msh, cl, ff, phi);
        long off = nT;
        for (auto& fc : fcs) {
            if (msh.is_boundary(fc)) {
                typename Space::face_basis_type phF(msh, fc, di.face);
                DM M = DM::Zero(nF, nF); DV v = DV::Zero(nF);
                for (auto& qp : disk::integrate(msh, fc, 2 * (b.k + 2))) { auto f0 = phF(qp.point()); DV f; if constexpr (std::is_arithmetic_v<decltype(f0)>) f = DV::Constant(1, f0); else f = f0; M += qp.weight() * f * f.transpose(); v += qp.weight() * uf(qp.point()) * f; }
                lift.segment(off, nF) = M.ldlt().solve(v);
            }
            off += nF;
        }
        r -= L * lift;
        return std::tuple<DM, DM, DV, DV>(R, L, r, lift);
    };
    auto A = sl::make_assembler(msh, di);
    for (auto& cl : msh) {
        auto [R, L, r, lift] = local(cl);
        typename Space::cell_basis_type phi(msh, cl, di.cell);
        auto [Lc, rc] = disk::hho::schur(L, r, phi);
        A.assemble(msh, cl, Lc, rc);
    }
    A.finalize();
    DV x = solve(A.LHS, A.RHS);
    long i = 0;
    for (auto& cl : msh) {
        auto [R, L, r, lift] = local(cl);
        typename Space::cell_basis_type phi(msh, cl, di.cell);
        DV w = A.take_local_solution(msh, cl, x);
        DV full = disk::hho::deschur(L, r, w, phi) + lift, grad = R * full, vT = full.head(nT);
        typename Space::reco_basis_type rb(msh, cl, di.reco);
        out.cell(msh, cl, i++, b.l == 1 ? std::function<DV(const PT&)>([phi, vT](const PT& y) -> DV { auto v = phi(y); DV q(1); q(0) = vT.dot(DV(v)); return q; }) : nullptr, "grad",
                 [rb, grad](const PT& y) -> DV { DM G = rb.grad(y); DV q = G.bottomRows(G.rows() - 1).transpose() * grad; return q; });
    }
}
static void stokes(Trace& tr, const MESH& msh, const Pb& b, Rng& g, Out& out)
{
    bool sym = b.kind == "stokessym";
    disk::hho_degree_info hdi(b.k + b.l, b.k);
    disk::vector_boundary_conditions<MESH> bnd(msh);
    auto uf = [&](const PT& x) { return b.vec(b.u, x); };
    bnd.addDirichletEverywhere(uf);
    auto A = disk::make_stokes_assembler(msh, hdi, bnd);
    for (auto& cl : msh) {
        auto gr = disk::make_hho_stokes(msh, cl, hdi, sym);
        DM S = disk::make_vector_hho_stabilization(msh, cl, gr.first, hdi);
        DM M = sym ? DM(disk::make_hlow_stokes(msh, cl, hdi, true).second) : DM(gr.second);
        DM dr = disk::make_hho_divergence_reconstruction_rhs(msh, cl, hdi);
        auto cb = disk::make_vector_monomial_basis(msh, cl, hdi.cell_degree());
        DV rhs = disk::make_rhs(msh, cl, cb, [&](const PT& x) { return b.vec(b.f, x); }, 2);
        A.assemble(msh, cl, (sym ? 2. : 1.) * (M + S), -dr, rhs);
    }
    A.finalize();
    DV x = solve(A.LHS, A.RHS);
    long i = 0;
    for (auto& cl : msh) {
        DV v = A.take_velocity(msh, cl, x), p = A.take_pressure(msh, cl, x);
        auto cb = disk::make_vector_monomial_basis(msh, cl, hdi.cell_degree());
        auto pb = disk::make_scalar_monomial_basis(msh, cl, hdi.face_degree());
        for (auto& qp : disk::integrate(msh, cl, b.k + 1)) { double q = p.dot(DV(pb.eval_functions(qp.point()))); out.sum += qp.weight() * q; out.size += qp.weight() * std::abs(q); }
        auto gr = disk::make_matrix_hho_gradrec(msh, cl, hdi);
        auto gb = disk::make_matrix_monomial_basis(msh, cl, hdi.face_degree());
        DV G = gr.first * v;
        auto img = [gb, G](const PT& y) mutable { auto M = disk::eval(G, gb.eval_functions(y)); DV r(D * D); for (size_t a = 0; a < D; a++) for (size_t c = 0; c < D; c++) r(a * D + c) = M(a, c); return r; };
        out.cell(msh, cl, i++, b.l == 1 ? evalv(cb, v.head(cb.size())) : nullptr, "jac", img, evalv(pb, p));
    }
}
/* the solvers of the applications: errors against the solution, and against the solution plus something known */
template<bool EL> static void app(Trace& tr, const MESH& msh, const Pb& b)
{
    disk::vector_boundary_conditions<MESH> bnd(msh);
    for (auto s : sides(msh, b.sides, 2)) {
        if (s.type == 0) bnd.addDirichletBC(disk::DIRICHLET, s.id, [&b](const PT& x) { return b.vec(b.u, x); });
        else bnd.addNeumannBC(disk::NEUMANN, s.id, [&b, s](const PT& x) { return b.normalflux(x, s.n); });
    }
    double vol = 0, top = 1, ftop = 1; for (auto& cl : msh) { vol += measure(msh, cl); for (auto& x : points(msh, cl)) { top = std::max(top, b.vec(b.u, x).norm()); ftop = std::max(ftop, b.stress(x).norm()); } }
    auto uf = [&](const PT& x) { return b.vec(b.u, x); };
    auto ff = [&](const PT& x) { return b.vec(b.f, x); };
    SV c; SM C; for (size_t i = 0; i < D; i++) { c(i) = (1 + i) * top; for (size_t j = 0; j < D; j++) C(i, j) = (1 + i + 2 * j) * ftop; }
    auto uc = [&](const PT& x) -> SV { return b.vec(b.u, x) + c; };
    auto one = [&](double e, double t) { return Q(e * e / (t * vol), 1, 1e-6); };
    Obj o; o("ev", "Errors");
    if constexpr (EL) {
        app_el::ElasticityParameters par; par.lambda = 1; par.mu = 77;
        app_el::linear_elasticity_solver<MESH> S(msh, bnd, par, b.k, b.l);
        par.lambda = b.la; par.mu = b.mu; S.changeElasticityParameters(par);
        auto ai = S.assemble(ff);
        S.solve(); S.postprocess(ff);
        o("exact", Q(S.compute_l2_displacement_error(uf) / (top * std::sqrt(vol)), 1, 1e-6))("shift", one(S.compute_l2_displacement_error(uc), c.squaredNorm()));
        o("image", Q(S.compute_l2_stress_error([&](const PT& x) { return b.stress(x); }) / (ftop * std::sqrt(vol)), 1, 1e-6));
        o("ishift", one(S.compute_l2_stress_error([&](const PT& x) -> SM { return b.stress(x) + C; }), C.squaredNorm()));
        o("dofs", S.getDofs());
    } else {
        app_vl::Parameters par; par.lambda = 77;
        app_vl::vector_laplacian_solver<MESH> S(msh, bnd, par, b.k, b.l);
        par.lambda = b.la; S.changeParameters(par);
        S.assemble(ff); S.solve(); S.postprocess(ff);
        o("exact", Q(S.compute_l2_displacement_error(uf) / (top * std::sqrt(vol)), 1, 1e-6))("shift", one(S.compute_l2_displacement_error(uc), c.squaredNorm()));
        auto G = [&](const PT& x) -> SM { return b.stress(x) / double(b.la); };
        o("image", Q(S.compute_l2_gradient_error(G) / (ftop * std::sqrt(vol)), 1, 1e-6));
        o("ishift", one(S.compute_l2_gradient_error([&](const PT& x) -> SM { return G(x) + C; }), C.squaredNorm()));
        o("dofs", S.getDofs());
    }
    tr.emit(o);
}
/* how thin the thinnest cell is */
static double thin(const MESH& msh) { double r = 0; for (auto& cl : msh) r = std::max(r, std::pow(diameter(msh, cl), D) / measure(msh, cl)); return r; }
/* the largest value in the problem: errors of integers grow with it */
static double top(const MESH& msh, const Pb& b)
{
    double r = 1;
    for (auto& cl : msh) for (auto& x : points(msh, cl)) {
        for (auto& q : b.u) r = std::max(r, std::abs(b.at(q, x)));
        for (auto& row : b.flux) for (auto& q : row) r = std::max(r, std::abs(b.at(q, x)));
    }
    return r;
}
int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto docs = read_docs(argv[2]);
    std::vector<Pb> P;
    { std::ifstream f(argv[3]); std::string s;
      while (std::getline(f, s)) {
          auto j = parse_json(s); Pb b; b.text = s; b.kind = j["kind"].s; b.d = j["d"].n; b.k = j["k"].n; b.l = j["l"].n; b.la = j["la"].n; b.mu = j["mu"].n; b.sides = j["sides"].n;
          for (auto& q : j["u"].a) b.u.push_back(poly(q));
          for (auto& q : j["f"].a) b.f.push_back(poly(q));
          for (auto& r : j["flux"].a) { b.flux.emplace_back(); for (auto& q : r.a) b.flux.back().push_back(poly(q)); }
          b.p = poly(j["p"]); b.K = DM::Zero(b.d, b.d); for (int i = 0; i < b.d; i++) for (int k = 0; k < b.d; k++) b.K(i, k) = j["K"][i][k].n;
          P.push_back(b);
      } }
    long seed = atol(argv[4]);
    int part = atoi(argv[5]), parts = atoi(argv[6]);
    size_t cap = atol(argv[7]);
    std::vector<const Doc*> mine;
    for (auto& dd : docs) if (dd.dim == int(D) && dd.kind == KINDNAME[KIND % 10]) mine.push_back(&dd);
    std::ostringstream sink;
    auto* old = std::cout.rdbuf(sink.rdbuf());
    long pi = 0;
    for (auto& b : P) if (b.d == int(D)) {
        long q = pi++;
        if (q % parts != part || mine.empty()) continue;
        /* one mesh per problem, the large degrees on the small ones */
        for (size_t t = 0; t < mine.size(); t++) {
            auto& dd = *mine[(q * 7 + seed + t) % mine.size()];
            if (dd.cells.size() * disk::scalar_basis_size(b.k + 1, D) * D > cap) continue;
            bool done = false;
            guarded(tr, b.kind + " " + std::to_string(q) + " on " + std::to_string(dd.n), [&]() {
                MESH msh; build(dd, msh);
                if (b.k >= 2 && thin(msh) > (D == 3 ? 50 : b.k == 2 ? 15 : 8)) return;   /* rounding */
                double lo = (b.k >= 3 ? 5e-8 : b.k == 2 ? 1e-8 : 1e-9) * top(msh, b);
                if (lo > 0.1) return;
                lo = std::max(lo, 1e-5);
                Rng g(seed * 31 + q);
                Obj o; o("ev", "Problem")("doc", dd.n)("cells", msh.cells_size()).raw("b", b.text); tr.emit(o);
                Out out{tr, b, g, 0, 0, 1, lo};
                if (b.kind == "diffusion" || b.kind == "robin") diffusion(tr, msh, b, g, out);
                else if (b.kind == "slapl") slapl(tr, msh, b, g, out);
                else if (b.kind == "elasticity") app<true>(tr, msh, b);
                else if (b.kind == "vector") app<false>(tr, msh, b);
                else stokes(tr, msh, b, g, out);
                tr.emit(Obj()("ev", "Solved")("faces", msh.faces_size())("mean", Q(out.sum / out.size, 1, 1e-6)));
                done = true;
            });
            if (done) break;
        }
    }
    std::cout.rdbuf(old);
    tr.emit(Obj()("ev", "End"));
    return 0;
}
