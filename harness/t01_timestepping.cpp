/* Nonlinear mechanics solver, its list of steps, parameters and stabilization
 * coefficients. args: OUT DOCS CFGS PART PARTS. One scenario per line of CFGS:
 * kind and integers (see checks/t01.py), then the JSON text of the scenario. */
#include <Eigen/Dense>
#include "meshbuild.hpp"
#include "meshdump.hpp"
#include "poly.hpp"
#include "diskpp/loaders/loader.hpp"
#include "diskpp/mechanics/NewtonSolver/NewtonSolver.hpp"
#include <map>
#include <sstream>
using namespace vh;
namespace dm = disk::mechanics;
constexpr double U = 240;
#ifndef KIND
#define KIND 22
#endif
#if KIND == 20
using MESH = disk::simplicial_mesh<double, 2>;
#elif KIND == 21
using MESH = disk::cartesian_mesh<double, 2>;
#elif KIND == 22
using MESH = disk::generic_mesh<double, 2>;
#elif KIND == 30
using MESH = disk::simplicial_mesh<double, 3>;
#elif KIND == 31
using MESH = disk::cartesian_mesh<double, 3>;
#elif KIND == 32
using MESH = disk::generic_mesh<double, 3>;
#endif
long tick(double t) { return Q(t * U, 1, 1e-4); }
/* largest error of a view, 0 when negligible */
long E(double e) { return !std::isfinite(e) ? SENTINEL : e < 2e-5 ? 0 : long(std::min(e * 1e6, 1e8)) + 1; }

struct In { std::istringstream s; long operator()() { long x = 0; s >> x; return x; }
    VL list() { VL r((*this)()); for (auto& x : r) x = (*this)(); return r; }
    Poly poly(size_t d) { Poly p; long n = (*this)(); for (long i = 0; i < n; i++) { double c = (*this)(); VL e(d); for (auto& x : e) x = (*this)(); p.t.push_back({c, e}); } return p; } };
struct Row { long s, e, o, d, a, p, plastic, sg; };

template<typename Mesh> void run(Trace& tr, Mesh msh, In& in, const std::string& json)
{
    constexpr size_t D = Mesh::dimension;
    using PT = typename Mesh::point_type;
    using V = disk::static_vector<double, D>;
    using M3 = disk::static_matrix<double, 3, 3>;
    long mode = in();
    NewtonSolverParameter<double> rp;
    rp.m_face_degree = in(); rp.m_cell_degree = in(); rp.m_grad_degree = in(); rp.m_stab_type = in(); rp.m_precomputation = in(); rp.m_adapt_stab = in(); rp.m_beta = in();
    double lam = in(), mu = in(), H = in(), K = in(), sy = in(), qs = in();
    long def = in(), law = in(), ltype = in();
    rp.m_sublevel = in(); rp.m_iter_max = in();
    long fin = in();
    if (fin >= 0) { rp.m_has_user_end_time = true; rp.m_user_end_time = fin / U; }
    rp.m_time_step.clear();
    for (long n = in(); n > 0; n--) { long e = in(), k = in(); rp.m_time_step.push_back({e / U, int(k)}); }
    for (auto t : in.list()) rp.m_time_save.push_back(t / U);
    rp.m_n_time_save = rp.m_time_save.size();
    double uden = in();
    double b = in(), g = in(), d0 = in(), v0 = in(), a0 = in(), rho = in();
    bool exact = in(); /* the cells represent the solution */
    VL bnd = in.list();
    Field u, f, sig;
    for (size_t i = 0; i < D; i++) u.push_back(in.poly(D));
    for (size_t i = 0; i < D; i++) f.push_back(in.poly(D));
    for (size_t i = 0; i < D * D; i++) sig.push_back(in.poly(D));
    std::vector<Row> rows(in());
    for (auto& r : rows) { r.s = in(); r.e = in(); r.o = in(); r.d = in(); r.a = in(); r.p = in(); r.plastic = in(); r.sg = in(); }
    rp.m_epsilon = mode == 0 || mode == 2 ? 1e-8 : 1e-10;
    if (mode == 2) { rp.isUnsteady(true); rp.setUnsteadyParameters({{"rho", rho}, {"beta", b / 4}, {"gamma", g / 4}}); }

    auto xs = [&](const PT& p) { std::vector<double> x; for (size_t k = 0; k < D; k++) x.push_back(p[k]); return x; };
    auto amp = [&](const Row& r) { return r.d / (4 * U * U) / uden; };
    auto uat = [&](const PT& p) { V r; auto x = xs(p); for (size_t i = 0; i < D; i++) r(i) = u[i](x); return r; };
    auto stress = [&](const PT& p, const Row& r) {
        M3 S = M3::Zero(); auto x = xs(p);
        for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) S(i, j) = sig[i * D + j](x);
        double div = 0; for (size_t i = 0; i < D; i++) div += pd(u[i], i)(x);
        if (D == 2) S(2, 2) = lam * div;
        S *= amp(r);
        if (mode == 3) {
            M3 n = M3::Zero();
            for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) n(i, j) = pd(u[i], j)(x) / uden;
            double e = amp(r) * uden;
            S = (n - M3::Identity() / 3) * (r.sg / (8 * qs)) + (lam + 2 * mu / 3) * e * M3::Identity();
        }
        return S;
    };

    long att = -1, calls = 0, lastacc = -1; double curt = -1; PT first; bool fresh = false;
    auto row = [&]() -> const Row& { return rows.at(std::min<size_t>(std::max(att, 0L), rows.size() - 1)); };
    auto ratio = [&]() { return amp(row()) / (row().e / U); };
    disk::vector_boundary_conditions<Mesh> bc(msh);
    {
        auto st = msh.backend_storage();
        size_t nb = msh.boundary_faces_size(), i = 0;
        for (auto it = msh.boundary_faces_begin(); it != msh.boundary_faces_end(); ++it, ++i) st->boundary_info.at(msh.lookup(*it)).id(100 + i);
        std::map<size_t, V> normals;
        for (auto& cl : msh) for (auto& fc : disk::faces(msh, cl)) if (msh.is_boundary(fc)) normals[msh.boundary_id(fc)] = normal(msh, cl, fc);
        auto dir = [&](const PT& p) -> V { return ratio() * uat(p); };
        for (i = 0; i < nb; i++) {
            long k = i == 0 || mode == 1 ? 0 : i + 1 == nb ? 1 : bnd[i % bnd.size()];
            V n = normals.at(100 + i);
            auto neu = [&, n](const PT& p) -> V { M3 S = stress(p, row()); V r = V::Zero(); for (size_t a = 0; a < D; a++) for (size_t c = 0; c < D; c++) r(a) += S(a, c) * n(c); return r / (row().e / U); };
            if (k == 0) bc.addDirichletBC(disk::DIRICHLET, 100 + i, dir);
            else {
                if (k == 2) bc.addDirichletBC(disk::DX, 100 + i, dir);
                if (k == 3) bc.addDirichletBC(disk::DY, 100 + i, dir);
                bc.addNeumannBC(disk::NEUMANN, 100 + i, neu);
            }
        }
    }
    /* loads: where the attempts are seen, and made to fail */
    auto lf = [&](const PT& p, double t) -> V {
        if (t != curt) {
            curt = t; att++; calls = 0; first = p;
            tr.emit(Obj()("ev", "Attempt")("e", tick(t)));
            if (att > 80) throw std::runtime_error("too many attempts");
        }
        { bool same = true; for (size_t k = 0; k < D; k++) same = same && p[k] == first[k]; if (same) calls++; }
        const Row& r = row();
        if (r.o == 1) throw std::invalid_argument("planned");
        if (r.o == 2 && calls > 1) throw std::invalid_argument("planned");
        V v; auto x = xs(p);
        for (size_t i = 0; i < D; i++) v(i) = mode == 1 || mode == 3 ? 0 : amp(r) * f[i](x) + (mode == 2 ? rho * r.a * u[i](x) : 0);
        if (r.o == 3) v(D - 1) = std::nan("");
        return v;
    };
    /* results */
    std::vector<PT> disc, gp;
    bool linear = mode != 1 || (def == 0 && law == 0);
    gmsh::sink() = [&](const gmsh::Written& w) {
        const Row& r = row();
        double err = 0, t = atof(w.file.substr(w.file.find("_t") + 2).c_str());
        std::string prefix = "result" + std::to_string(D) + "D_t" + std::to_string(t) + "_", view = w.file;
        if (view.rfind(prefix, 0) == 0) view = view.substr(prefix.size());
        if (view.size() > 4) view = view.substr(0, view.size() - 4);
        long n = 0, want = 0;
        auto P = [&](const gmsh::Node& nd) { PT p; auto c = nd.getCoordinate(); for (size_t k = 0; k < D; k++) p[k] = c[k]; return p; };
        auto see = [&](double a, double b2) { double d = std::fabs(a - b2) / (1 + std::fabs(b2)); if (!(d <= err)) err = std::isfinite(d) ? d : 1e9; };
        auto nodes = w.mesh->getNodes();
        if (view == "depl_disc" || view == "depl_cont") {
            want = nodes.size(); n = w.data->data.size();
            std::vector<long> seen(nodes.size(), 0);
            for (auto& x : w.data->data) {
                auto& nd = nodes.at(x.getIndex() - 1); auto v = x.getData(); auto p = P(nd); V ex = uat(p);
                if (nd.getIndex() != x.getIndex() || v.size() != 3 || w.comps != 3 || seen[x.getIndex() - 1]++) err = 1e9;
                for (size_t k = 0; k < D && exact; k++) see(v[k], amp(r) * ex(k));
                if (D == 2) see(v[2], 0);
            }
            if (view == "depl_disc") { disc.clear(); for (auto& nd : nodes) disc.push_back(P(nd)); }
        } else if (view == "deformed_disc") {
            want = disc.size(); n = nodes.size();
            for (size_t i = 0; i < nodes.size() && i < disc.size(); i++) { auto p = P(nodes[i]); V ex = uat(disc[i]); for (size_t k = 0; k < D && exact; k++) see(p[k] - disc[i][k], amp(r) * ex(k)); }
        } else {
            n = w.data->sub.size();
            bool isdef = view == "CauchyStress_GP_def", iss = view == "CauchyStress_GP" || isdef;
            if (view == "CauchyStress_GP") { gp.clear(); for (auto& x : w.data->sub) gp.push_back(P(x.getNode())); }
            want = view == "stabCoeff" ? msh.cells_size() : gp.size();
            for (size_t i = 0; i < w.data->sub.size(); i++) {
                auto v = w.data->sub[i].getData(); auto p = P(w.data->sub[i].getNode());
                if (v.size() < w.comps || w.comps != (iss ? 9 : 1)) { err = 1e9; continue; }
                if (isdef && i < gp.size()) { V ex = uat(gp[i]); for (size_t k = 0; k < D && exact; k++) see(p[k] - gp[i][k], amp(r) * ex(k)); p = gp[i]; }
                if (!isdef && view != "stabCoeff" && i < gp.size()) for (size_t k = 0; k < D; k++) see(p[k], gp[i][k]);
                if (iss && linear) { M3 S = stress(p, r); for (size_t a = 0; a < 3; a++) for (size_t c = 0; c < 3; c++) see(v[3 * a + c], S(a, c)); }
                if (view == "plastic_GP" && mode != 1) see(v[0], r.plastic);
                if (view == "equivalentPlasticStrain_GP" && mode != 1) see(v[0], r.p / (8 * qs));
                if (view == "stabCoeff") {
                    see(v[0], rp.m_adapt_stab ? 2 * mu : double(rp.m_beta));
                    auto bar = barycenter(msh, *std::next(msh.cells_begin(), i));
                    for (size_t k = 0; k < D; k++) see(p[k], bar[k]);
                }
            }
        }
        tr.emit(Obj()("ev", "View")("view", view)("t", tick(t))("n", n)("want", want)("err", E(err)));
    };
    Obj ro; ro("ev", "Run")("faces", msh.faces_size()).raw("p", json); tr.emit(ro);
    dm::NewtonSolver<Mesh> ns(msh, bc, rp);
    ns.addBehavior(def, law);
    disk::MaterialData<double> md;
    md.setMu(mu); md.setLambda(lam); md.setH(H); md.setK(K); md.setSigma_y0(sy / 8); md.setType(ltype);
    if (law == 2) { md.addCurvePoint(0, sy / 8); md.addCurvePoint(0.1, sy / 8 + 0.05); md.addCurvePoint(10, sy / 8 + 9.0); md.checkRpCurve(); }
    ns.addMaterialData(md);
    tr.emit(Obj()("ev", "Dofs")("n", ns.numberOfDofs()));
    auto fn = [&](double c) { return [&, c](const PT& p) -> V { return c * uat(p); }; };
    if (mode == 2) ns.initial_fields(fn(d0 / (4 * U * U)), fn(v0 / (4 * U)), fn(a0));
    auto si = ns.compute(lf);
    /* amplitude of the last accepted attempt, as planned */
    long last = -1;
    for (size_t i = 0; i < rows.size() && long(i) <= att; i++) if (rows[i].o == 0) last = i;
    double A = last < 0 ? (mode == 2 ? d0 / (4 * U * U) : 0) : amp(rows[last]);
    double vol = 0; for (auto& cl : msh) vol += measure(msh, cl);
    disk::vector_rhs_function<Mesh> s1 = [&](const PT& p) -> V { V r = A * uat(p); r(0) += 3; r(D - 1) += 4; return r; };
    disk::vector_rhs_function<Mesh> s2 = [&](const PT& p) -> V { V r = A * uat(p); r(0) += p[0] + 2 * p[1]; return r; };
    double l2 = ns.compute_l2_displacement_error(s1), h1 = ns.compute_H1_error(s2);
    std::ostringstream dump; auto* old = std::cout.rdbuf(dump.rdbuf()); ns.printSolutionCell(); std::cout.rdbuf(old);
    long lines = 0; std::string ln; std::istringstream is(dump.str()); while (std::getline(is, ln)) if (ln.rfind("cell ", 0) == 0) lines++;
    tr.emit(Obj()("ev", "Finished")("conv", ns.convergence())("nstep", si.m_time_step)("iters", si.m_iter)
                 ("l2", Q(l2 * l2 / vol, 1, 1e-4))("h1", Q(h1 * h1 / vol, 1, 1e-4))("printed", lines == long(msh.cells_size())));
    gmsh::sink() = nullptr;
}

void list_steps(Trace& tr, In& in)
{
    std::vector<std::pair<double, int>> segs;
    long fin = in();
    VL raw; for (long n = in(); n > 0; n--) { long e = in(), k = in(); segs.push_back({e / U, int(k)}); raw.push_back(e); raw.push_back(k); }
    VL ops = in.list();
    auto state = [&](Obj& o, dm::ListOfTimeStep<double>& L) {
        o("empty", L.empty())("total", L.numberOfTimeStep())("left", L.numberOfRemainingTimeStep())("done", L.numberOfTimeStepRealized())("index", L.indexOfCurrentTimeStep());
        if (!L.empty()) { auto c = L.getCurrentTimeStep(); o("cur", VL{tick(c.start_time()), tick(c.end_time()), long(c.level()), tick(c.increment_time())}); }
        else o("cur", VL{});
    };
    auto L = fin < 0 ? dm::ListOfTimeStep<double>(segs) : dm::ListOfTimeStep<double>(segs, fin / U);

    std::vector<VL> sg; for (size_t i = 0; i < raw.size(); i += 2) sg.push_back({raw[i], raw[i + 1]});
    Obj o; o("ev", "LNew")("segs", sg)("final", fin); state(o, L); tr.emit(o);
    for (auto op : ops) {
        if (L.empty()) break;
        if (op == 0) L.removeCurrentTimeStep(); else L.splitCurrentTimeStep();
        Obj q; q("ev", "LOp")("op", op); state(q, L); tr.emit(q);
    }
    while (!L.empty()) { L.removeCurrentTimeStep(); Obj q; q("ev", "LOp")("op", 0L); state(q, L); tr.emit(q); }
    if (segs.size() == 1 && fin < 0) { dm::ListOfTimeStep<double> S(segs[0].first, size_t(segs[0].second)); Obj q; q("ev", "LNew")("segs", sg)("final", -1L); state(q, S); tr.emit(q); }
}

void params(Trace& tr, In& in, const std::string& json, const std::string& file, long end)
{
    NewtonSolverParameter<double> p;
    bool ok;
    { std::ostringstream dump; auto* old = std::cout.rdbuf(dump.rdbuf()); ok = p.readParameters(file); if (ok) p.infos(); std::cout.rdbuf(old); }
    std::vector<VL> ts; for (auto& [t, n] : p.m_time_step) ts.push_back({Q(t, 4), n});
    VL sv; for (auto t : p.m_time_save) sv.push_back(Q(t, 4));
    Obj v; v("fd", p.getFaceDegree())("cd", p.getCellDegree())("gd", p.getGradDegree())("sub", p.m_sublevel)("imax", p.m_iter_max)("eps", Q(-std::log10(p.m_epsilon), 1))
        ("verb", p.getVerbose())("pre", p.getPrecomputation())("stab", p.m_stab)("type", p.m_stab_type)("beta", Q(p.getStabilizationParameter(), 4))("nsave", p.m_n_time_save)("save", sv)
        ("tend", Q(p.m_user_end_time, 4))("hasend", p.m_has_user_end_time)("adapt", p.m_adapt_stab)("dyna", p.isUnsteady())("theta", Q(p.m_theta, 4))
        ("gamma", Q(p.m_gamma_0, 4))("thr", Q(p.m_threshold, 4))("frot", p.m_frot_type)("steps", ts);
    Obj o; o("ev", "Params")("ok", ok).raw("got", v.str()).raw("kvs", json)("end", end); tr.emit(o);
    /* setters */
    p.setFaceDegree(3); p.setCellDegree(4); p.setGradDegree(5); p.setStabilizationParameter(2.5); p.setVerbose(true); p.setPrecomputation(true); p.isUnsteady(true); p.setTimeStep(2.0, 7);
    p.setUnsteadyParameters({{"beta", 0.5}});
    tr.emit(Obj()("ev", "Set")("got", VL{p.getFaceDegree(), p.getCellDegree(), p.getGradDegree(), Q(p.getStabilizationParameter(), 2), p.getVerbose(), p.getPrecomputation(), p.isUnsteady(),
        long(p.m_time_step.size()), Q(p.m_time_step[0].first), p.m_time_step[0].second, Q(p.getUnsteadyParameters()["beta"], 2)}));
}

template<typename Mesh> void stabs(Trace& tr, const Mesh& msh, In& in)
{
    long beta = in(), n = in();
    dm::StabCoeffManager<double> S(msh, double(beta));
    auto vals = [&]() { VL r; for (auto& cl : msh) r.push_back(Q(S.getValue(msh, cl))); return r; };
    tr.emit(Obj()("ev", "SNew")("v", beta)("vals", vals()));
    for (; n > 0; n--) {
        long o = in(), c = in(), v = in();
        c = msh.cells_size() ? c % msh.cells_size() : 0;
        auto cl = *std::next(msh.cells_begin(), c);
        if (o == 0) S.setValue(msh, cl, double(v));
        if (o == 1) S.setValueNext(msh, cl, double(v));
        if (o == 2) S.update();
        tr.emit(Obj()("ev", "SOp")("op", VL{o, c, v})("vals", vals()));
    }
}

int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto docs = read_docs(argv[2]);
    std::ifstream f(argv[3]);
    int part = atoi(argv[4]), parts = atoi(argv[5]);
    std::string line; long k = 0;
    static std::ofstream& nul = *new std::ofstream("/dev/null"); std::cout.rdbuf(nul.rdbuf()); std::cerr.rdbuf(nul.rdbuf());
    while (std::getline(f, line)) {
        if (k++ % parts != part) continue;
        auto cut = line.find('|');
        std::string json = line.substr(cut + 1);
        In in; in.s.str(line.substr(0, cut));
        std::string kind; in.s >> kind;
        guarded(tr, kind, [&]() {
            if (kind == "run" || kind == "stb") {
                long dn = in();
                for (auto& d : docs) if (d.n == dn) { MESH msh; build(d, msh); if (kind == "run") run(tr, msh, in, json); else stabs(tr, msh, in); }
            }
            if (kind == "lst") list_steps(tr, in);
            if (kind == "par") { std::string file; long end; in.s >> file >> end; params(tr, in, json, file, end); }
        });
    }
    tr.emit(Obj()("ev", "End"));
    return 0;
}
