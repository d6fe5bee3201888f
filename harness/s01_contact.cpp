/* Contact and friction contributions and the solver with contact.  args: OUT DOCS SEED PART PARTS */
#include <Eigen/Dense>
#include "meshbuild.hpp"
#include "meshdump.hpp"
#include "poly.hpp"
#include "diskpp/loaders/loader.hpp"
#include "diskpp/mesh/meshgen.hpp"
#include "diskpp/mechanics/NewtonSolver/NewtonSolver.hpp"
#include <numeric>
#include <sstream>
#ifndef KIND
#define KIND 20
#endif
#if KIND == 20
using MESH = disk::simplicial_mesh<double, 2>;
#define NAME "triangles"
#elif KIND == 21
using MESH = disk::cartesian_mesh<double, 2>;
#define NAME "squares"
#elif KIND == 22
using MESH = disk::generic_mesh<double, 2>;
#define NAME "polygons"
#elif KIND == 30
using MESH = disk::simplicial_mesh<double, 3>;
#define NAME "tetrahedra"
#elif KIND == 31
using MESH = disk::cartesian_mesh<double, 3>;
#define NAME "boxes"
#else
using MESH = disk::generic_mesh<double, 3>;
#define NAME "polyhedra"
#endif
static const char* KINDNAME[] = {"simplex", "cart", "gen"};
using namespace vh;
namespace dm = disk::mechanics;
struct Fl { VL c; std::vector<VL> A; };
static std::string js(const Fl& f) { Obj o; o("c", f.c)("A", f.A); return o.str(); }
static long dot(const VL& a, const VL& b) { long s = 0; for (size_t k = 0; k < a.size(); k++) s += a[k] * b[k]; return s; }
static VL mul(const std::vector<VL>& A, const VL& x) { VL r; for (auto& a : A) r.push_back(dot(a, x)); return r; }
static VL aff(const Fl& f, const VL& x) { VL r = mul(f.A, x); for (size_t k = 0; k < r.size(); k++) r[k] += f.c[k]; return r; }
struct Par { VL N; std::vector<VL> X; long la, mu, g, theta, fr, r2; bool face; };
static std::vector<VL> hooke(const Par& p, const Fl& f)
{
    size_t d = f.c.size(); long t = 0; for (size_t i = 0; i < d; i++) t += f.A[i][i];
    std::vector<VL> S(d, VL(d)); for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) S[i][j] = p.mu * (f.A[i][j] + f.A[j][i]) + (i == j ? p.la * t : 0);
    return S;
}
static long Wn(const Par& p) { return p.N.back() ? std::labs(p.N.back()) : 1; }
static long phin(const Par& p, const Fl& u, const VL& x)
{
    VL v = aff(u, x), s = mul(hooke(p, u), p.N);
    return dot(s, p.N) * Wn(p) + (p.face ? p.g * (x.back() + v.back()) * dot(p.N, p.N) : p.g * x.back() * dot(p.N, p.N) - p.g * dot(v, p.N) * Wn(p));
}
static VL tau(const Par& p, const Fl& u, const VL& x) { VL v = aff(u, x), s = mul(hooke(p, u), p.N); for (size_t k = 0; k < s.size(); k++) s[k] -= p.g * v[k]; return s; }
static VL tang(const Par& p, const VL& t) { VL r(t); long L = dot(p.N, p.N), n = dot(t, p.N); for (size_t k = 0; k < r.size(); k++) r[k] = L * t[k] - n * p.N[k]; return r; }
static long big(const VL& v) { long b = 0; for (auto x : v) b = std::max(b, std::labs(x)); return b; }
static long dets(const std::vector<VL>& A)
{
    if (A.size() == 2) return A[0][0] * A[1][1] - A[0][1] * A[1][0];
    return A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]);
}
static Fl draw(Rng& g, size_t d, long ac, long aa) { Fl f; f.c.resize(d); for (auto& x : f.c) x = g.range(-ac, ac); f.A.assign(d, VL(d)); for (auto& r : f.A) for (auto& x : r) x = g.range(-aa, aa); return f; }
static bool parallel(const VL& a, const VL& b) { for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) if (a[i] * b[j] != a[j] * b[i]) return false; return true; }
static long Ez(double e) { return !std::isfinite(e) ? SENTINEL : e < 1e-6 ? 0 : long(std::min(e * 1e6, 1e8)) + 1; }
static double relerr(const MX& A, const MX& B) { return (A - B).cwiseAbs().maxCoeff() / std::max(1.0, B.cwiseAbs().maxCoeff()); }

template<typename Mesh> void run(Trace& tr, Mesh& msh, const Doc& doc, long seed, long maxf)
{
    constexpr size_t D = Mesh::dimension;
    using PT = typename Mesh::point_type;
    using V = disk::static_vector<double, D>;
    double S = doc.scale;
    Rng g(seed * 523 + doc.n * 31);
    { Obj o; o("ev", "Mesh")("n", doc.n); snapshot(o, msh, S); tr.emit(o); }
    { auto st = msh.backend_storage(); size_t i = 0;
      for (auto it = msh.boundary_faces_begin(); it != msh.boundary_faces_end(); ++it, ++i) st->boundary_info.at(msh.lookup(*it)).id(100 + i); }
    auto fn = [&](const Fl& f) { return [&, f](const PT& p) -> V { V r; for (size_t i = 0; i < D; i++) { r(i) = f.c[i]; for (size_t k = 0; k < D; k++) r(i) += f.A[i][k] * p[k] * S; r(i) /= S; } return r; }; };
    std::vector<std::array<long, 3>> cand; /* cell, local face, boundary id */
    { long ci = 0; for (auto& cl : msh) { long k = 0; for (auto& fc : faces(msh, cl)) { if (msh.is_boundary(fc)) cand.push_back({ci, k, long(msh.boundary_id(fc))}); k++; } ci++; } }
    for (size_t i = cand.size(); i > 1; i--) std::swap(cand[i - 1], cand[g.range(0, i - 1)]);
    long done = 0;
    for (auto& cd : cand) {
        if (done >= maxf) break;
        auto cl = *std::next(msh.cells_begin(), cd[0]);
        auto fcs = faces(msh, cl);
        auto fc = fcs[cd[1]];
        auto pts = points(msh, fc);
        Par p;
        std::vector<PT> P(pts.begin(), pts.end());
        for (auto& q : P) { VL x; for (size_t k = 0; k < D; k++) x.push_back(std::lround(q[k] * S)); p.X.push_back(x); }
        if (D == 3 && P.size() > 4) continue;
        if (P.size() == 4) { bool par = true; for (size_t k = 0; k < D; k++) par = par && p.X[0][k] + p.X[2][k] == p.X[1][k] + p.X[3][k]; if (!par) continue; }
        VL N(D);
        if (D == 2) N = {p.X[1][1] - p.X[0][1], p.X[0][0] - p.X[1][0]};
        else { VL a(3), b(3); for (size_t k = 0; k < 3; k++) a[k] = p.X[1][k] - p.X[0][k], b[k] = p.X[P.size() - 1][k] - p.X[0][k];
            N = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
        long kk = 0; for (auto x : N) kk = std::gcd(kk, std::labs(x));
        for (auto& x : N) x /= kk;
        /* outward, as the library's normal says; the specification has its own */
        { auto n = normal(msh, cl, fc); double s = 0; for (size_t k = 0; k < D; k++) s += n(k) * N[k]; if (s < 0) for (auto& x : N) x = -x; }
        p.N = N;
        long L = dot(N, N);
        if (L > 400) continue;
        double nn = std::sqrt(double(L)), hF = 0;
        for (auto& a : P) for (auto& b : P) hF = std::max(hF, (a - b).to_vector().norm());
        double kap = kk * (P.size() == 3 ? 0.5 : 1.0); /* area = kap |N| */
        for (long rep = 0; rep < 4; rep++) {
            p.face = g.range(0, 1); p.fr = g.range(0, 2); if (!p.face && p.fr == 2) p.fr = 1;
            p.r2 = VL{0, 1, 4}[g.range(0, 2)]; p.theta = g.range(-1, 1); p.g = g.range(1, 3); p.la = g.range(0, 2); p.mu = g.range(1, 2);
            long want = g.range(0, 2); /* open once in three */
            Fl u; bool ok = false;
            for (long t = 0; t < 400 && !ok; t++) {
                u = draw(g, D, 40, t < 200 ? 1 : 0);
                if (t % 50 == 49) { long a = g.range(0, 2); for (size_t i = 0; i < D; i++) u.A[i][i] = a; }
                if (p.face) {
                    VL B(D, 0); for (size_t i = 0; i < D; i++) for (size_t k = 0; k < D; k++) B[i] += u.A[k][i] * N[k];
                    if (!parallel(B, N)) continue;
                    auto IA = u.A; for (size_t i = 0; i < D; i++) IA[i][i]++;
                    if (dets(IA) == 0) continue;
                }
                long lo = 1, hi = -1, top = 0, zt = 1, tt = 0; bool first = true;
                for (auto& x : p.X) { long v = phin(p, u, x); lo = first ? v : std::min(lo, v); hi = first ? v : std::max(hi, v); first = false; top = std::max(top, std::labs(v)); auto t = tang(p, tau(p, u, x)); if (!big(t)) zt = 0; tt = std::max(tt, big(tau(p, u, x))); }
                if (p.face && !N.back()) { bool above = true; for (auto& x : p.X) above = above && x.back() + aff(u, x).back() > 0; if (!above) continue; }
                if (N.back() && (want ? hi >= 0 : lo <= 0)) continue;
                if (p.fr) for (auto& x : p.X) for (auto& y : p.X) if (dot(tang(p, tau(p, u, x)), tang(p, tau(p, u, y))) <= 0) zt = 0; /* the trial traction vanishes nowhere */
                long tg = 0; for (auto& x : p.X) tg = std::max(tg, big(tang(p, tau(p, u, x))));
                if (p.fr && (!zt || tg > 15000)) continue;
                ok = top < 60000 && tt < 2000;
            }
            if (!ok) continue;
            bool far = N.back() == 0, closed = !far && phin(p, u, p.X[0]) < 0;
            std::vector<Fl> v;
            for (size_t i = 0; i < D; i++) { Fl f; f.c.assign(D, 0); f.c[i] = 1; f.A.assign(D, VL(D, 0)); v.push_back(f); }
            for (int i = 0; i < 2; i++) { /* linear about the first vertex of the face */
                Fl f = draw(g, D, 0, 1); f.c = mul(f.A, p.X[0]); for (auto& x : f.c) x = -x; v.push_back(f); }
            long ps = 0; for (auto& f : v) for (auto& x : p.X) { ps = std::max(ps, 2 * std::labs(dot(mul(hooke(p, f), N), N)) + p.g * std::labs(dot(aff(f, x), N))); }
            double top = 0; for (auto& x : p.X) top = std::max(top, double(std::labs(phin(p, u, x))));
            double tt = 0, tv = 0; for (auto& x : p.X) { tt = std::max(tt, double(big(tau(p, u, x)))); for (auto& f : v) tv = std::max(tv, double(big(tau(p, f, x)))); }
            if (24 * top * ps > 5e8 || 24 * D * L * tt * (tv + 1) * std::max(1L, std::min(2L, p.r2)) * Wn(p) > 8e8 || 24 * D * L * tv * tv > 8e8 || 24.0 * L * Wn(p) * tt * tv * D > 8e8) continue;
            long fd = g.range(1, 2), cdg = std::max(p.face ? 0L : 1L, fd + g.range(-1, 1));
            done++;
            guarded(tr, "contact", [&]() {
                disk::MeshDegreeInfo<Mesh> di(msh, cdg, fd, fd);
                if (p.face) di.degree(msh, fc, fd + 1); else di.hasUnknowns(msh, fc, false);
                auto ci = di.cellDegreeInfo(msh, cl);
                MX ET = make_matrix_hho_symmetric_gradrec(msh, cl, di).first;
                VX uTF = project_function(msh, cl, di, fn(u), 2);
                NewtonSolverParameter<double> rp;
                rp.m_theta = p.theta; rp.m_gamma_0 = p.g * S * hF / nn; rp.m_frot_type = p.fr == 0 ? NO_FRICTION : p.fr == 1 ? TRESCA : COULOMB;
                disk::MaterialData<double> md; md.setLambda(p.la); md.setMu(p.mu);
                auto grid = [&](const PT& q) { std::vector<double> x; for (size_t k = 0; k < D; k++) x.push_back(q[k] * S); return x; };
                /* the bound: a multiple of the length of the trial traction at the point */
                auto thr = [&](const PT& q) -> double {
                    auto x = grid(q); double L2 = 0; VL s = mul(hooke(p, u), N); std::vector<double> t(D), uu(D); double tn = 0, un = 0;
                    for (size_t i = 0; i < D; i++) { uu[i] = u.c[i]; for (size_t k = 0; k < D; k++) uu[i] += u.A[i][k] * x[k]; t[i] = s[i] - p.g * uu[i]; tn += t[i] * N[i]; un += uu[i] * N[i]; }
                    for (size_t i = 0; i < D; i++) { double w = t[i] - tn * N[i] / L; L2 += w * w; }
                    double a = std::sqrt(L2) / nn * p.r2 / 2.0;
                    if (p.fr < 2) return a;
                    double ph = far ? 1 : (dot(s, N) * Wn(p) + (p.face ? p.g * (x[D - 1] + uu[D - 1]) * L : p.g * x[D - 1] * L - p.g * un * Wn(p))) / double(L * Wn(p));
                    return a / std::fabs(ph);
                };
                disk::vector_boundary_conditions<Mesh> bc(msh);
                bc.addContactBC(p.face ? disk::SIGNORINI_FACE : disk::SIGNORINI_CELL, cd[2], thr);
                dm::contact_contribution<Mesh> cc(msh, md, rp, bc);
                cc.compute(cl, ci, ET, uTF);
                double sc = 2 * p.g * std::pow(S, D) * L * (P.size() == 2 ? 6 : 12) / kap;
                std::vector<VX> tv; for (auto& f : v) tv.push_back(project_function(msh, cl, di, fn(f), 2));
                std::vector<double> F; for (auto& t : tv) F.push_back(cc.F_cont.dot(t) * sc * Wn(p));
                std::vector<std::vector<double>> K; for (auto& a : tv) { K.push_back({}); for (auto& b : tv) K.back().push_back(a.dot(cc.K_cont * b) * sc); }
                double topK = 1; for (auto& r : K) for (auto x : r) topK = std::max(topK, std::fabs(x));
                std::vector<VL> Ki; for (auto& r : K) Ki.push_back(ints(r, 1e-8, 1e-5 + 1e-10 * topK));
                double topF = 1; for (auto x : F) topF = std::max(topF, std::fabs(x));
                Obj o; o("ev", "Contact")("i", cd[0])("f", long(msh.lookup(fc)))("N", N)("k", kk)("face", p.face)("fr", p.fr)("r2", p.r2)("theta", p.theta)("g", p.g)("la", p.la)("mu", p.mu)
                    ("closed", closed)("degs", VL{cdg, fd});
                o.raw("u", js(u)); std::string vs; for (auto& f : v) vs += (vs.empty() ? "" : ",") + js(f); o.raw("v", "[" + vs + "]");
                o("F", ints(F, 1e-8, 1e-4 + 1e-10 * topF))("K", Ki);
                /* pointwise */
                auto cb = disk::make_vector_monomial_basis(msh, cl, ci.cell_degree());
                auto gb = disk::make_sym_matrix_monomial_basis(msh, cl, ci.grad_degree());
                auto n = normal(msh, cl, fc); VX EU = ET * uTF; double gam = p.g * S / nn;
                size_t off = cb.size(); auto fdis = ci.facesDegreeInfo();
                for (long k = 0; k < cd[1]; k++) off += fdis[k].hasUnknowns() ? disk::make_vector_monomial_basis(msh, fcs[k], fdis[k].degree()).size() : 0;
                auto fb = disk::make_vector_monomial_basis(msh, fc, fdis[cd[1]].degree());
                std::vector<double> pn, pj, un; std::vector<VL> pt, pp, ut, st;
                auto vec = [&](const V& x, double s) { std::vector<double> r; for (size_t k = 0; k < D; k++) r.push_back(x(k) * s); return ints(r, 1e-8, 1e-5); };
                for (auto& q : P) {
                    double LW = double(L) * Wn(p);
                    if (p.face) {
                        pn.push_back(far ? 0 : cc.eval_phi_n_uF(fc, EU, gb, fb, uTF, off, n, gam, q) * LW);
                        pt.push_back(vec(cc.eval_phi_t_uF(EU, gb, fb, uTF, off, n, gam, q), nn * L));
                        if (p.fr == 2) pp.push_back(vec(cc.eval_proj_coulomb_phi_t_uF(fc, EU, gb, fb, uTF, off, n, gam, thr(q), q), 2 * nn * L));
                        else if (p.fr == 1) pp.push_back(vec(cc.eval_proj_tresca_phi_t_uF(EU, gb, fb, uTF, off, n, gam, thr(q), q), 2 * nn * L));
                        VX uF = uTF.segment(off, fb.size());
                        un.push_back(cc.eval_uF_n(fb, uF, n, q) * S * nn); ut.push_back(vec(cc.eval_uF_t(fb, uF, n, q), S * L));
                    } else {
                        pn.push_back(far ? 0 : cc.eval_phi_n_uT(EU, gb, cb, uTF, n, gam, q) * LW);
                        pj.push_back(far ? 0 : cc.eval_proj_phi_n_uT(EU, gb, cb, uTF, n, gam, q) * LW);
                        pt.push_back(vec(cc.eval_phi_t_uT(EU, gb, cb, uTF, n, gam, q), nn * L));
                        if (p.fr == 1) pp.push_back(vec(cc.eval_proj_phi_t_uT(EU, gb, cb, uTF, n, gam, thr(q), q), 2 * nn * L));
                        un.push_back(cc.eval_uT_n(cb, uTF, n, q) * S * nn); ut.push_back(vec(cc.eval_uT_t(cb, uTF, n, q), S * L));
                    }
                    auto sg = cc.eval_stress(EU, gb, q);
                    if (st.empty()) for (size_t a = 0; a < D; a++) { V r; for (size_t b = 0; b < D; b++) r(b) = sg(a, b); st.push_back(vec(r, 1)); }
                    if (&q == &P[0]) { o("snn", Q(cc.eval_stress_nn(EU, gb, n, q) * L, 1, 1e-5))("snt", vec(cc.eval_stress_nt(EU, gb, n, q), nn * L)); }
                }
                o("phin", ints(pn, 1e-8, 1e-4))("projn", ints(pj, 1e-8, 1e-4))("un", ints(un, 1e-8, 1e-5))("ut", ut)("phit", pt)("projt", pp)("stress", st);
                tr.emit(o);
                /* the tangent is the derivative of the residual, where the branch does not change and the moved face looks at the obstacle and is parallel to it */
                bool flat = N.back() < 0; for (size_t k = 0; k + 1 < D; k++) flat = flat && N[k] == 0;
                double sym = p.theta == 1 && !(p.fr == 2 && p.r2 == 1) ? relerr(cc.K_cont, cc.K_cont.transpose()) : 0;
                Obj q; q("ev", "Tangent")("i", cd[0])("fr", p.fr)("r2", p.r2)("theta", p.theta)("sym", Ez(sym));
                if ((!p.face || flat) && (p.fr < 2 || p.r2 != 1 || !closed)) {
                    auto con = [&](const PT& x) -> double { return thr(P[0]); };
                    disk::vector_boundary_conditions<Mesh> bq(msh);
                    bq.addContactBC(p.face ? disk::SIGNORINI_FACE : disk::SIGNORINI_CELL, cd[2], con);
                    dm::contact_contribution<Mesh> c2(msh, md, rp, bq);
                    double err = 0;
                    if (p.fr == 0 || closed) for (int t = 0; t < 2; t++) {
                        VX del = VX::Random(uTF.size()); double e = 1e-5;
                        if (p.r2 == 1 && p.fr == 1) { /* sliding at a constant bound: stay clear of its edge */
                            bool sure = true; for (auto& x : P) sure = sure && thr(x) * 2 > 1.3 * thr(P[0]); if (!sure) continue; }
                        if (p.r2 == 4) { bool sure = true; for (auto& x : P) { double tt = p.fr == 1 ? thr(x) : 0; sure = sure && (p.fr == 2 || tt / 2 < thr(P[0]) * 0.9); } if (!sure || p.fr == 2) continue; }
                        if (p.fr && p.r2 == 0) continue;
                        c2.compute(cl, ci, ET, uTF); MX K = c2.K_cont;
                        c2.compute(cl, ci, ET, uTF + e * del); VX Fp = c2.F_cont;
                        c2.compute(cl, ci, ET, uTF - e * del); VX Fm = c2.F_cont;
                        VX fdv = (Fp - Fm) / (2 * e), kd = K * del;
                        double s = std::max(1.0, std::max(kd.cwiseAbs().maxCoeff(), Fp.cwiseAbs().maxCoeff()));
                        err = std::max(err, (fdv - kd).cwiseAbs().maxCoeff() / s / 100);
                    }
                    q("tan", Ez(err));
                } else q("tan", 0L);
                /* without the consistency term nothing but the contact unknowns feels the contact */
                double out = 0;
                if (p.theta == 0) for (long a = 0; a < uTF.size(); a++) {
                    bool mine = p.face ? a >= long(off) && a < long(off + fb.size()) : a < long(cb.size());
                    if (!mine) out = std::max(out, std::max(std::fabs(cc.F_cont(a)), cc.K_cont.row(a).cwiseAbs().maxCoeff()));
                }
                q("outside", Ez(out));
                /* on several faces at once: the sum, whatever the kinds of the faces */
                double addi = 0; bool both = false;
                if (p.fr == 0) for (size_t k = 0; k < fcs.size(); k++) if (long(k) != cd[1] && msh.is_boundary(fcs[k])) {
                    both = true; bool face2 = g.range(0, 1) || ci.cell_degree() < 1;
                    disk::MeshDegreeInfo<Mesh> dj = di;
                    if (face2) dj.degree(msh, fcs[k], fd + 1); else dj.hasUnknowns(msh, fcs[k], false);
                    auto cj = dj.cellDegreeInfo(msh, cl);
                    MX E2 = make_matrix_hho_symmetric_gradrec(msh, cl, dj).first; VX w = project_function(msh, cl, dj, fn(u), 2);
                    auto go = [&](bool a, bool b) {
                        disk::vector_boundary_conditions<Mesh> bb(msh);
                        if (a) bb.addContactBC(p.face ? disk::SIGNORINI_FACE : disk::SIGNORINI_CELL, cd[2], thr);
                        if (b) bb.addContactBC(face2 ? disk::SIGNORINI_FACE : disk::SIGNORINI_CELL, long(msh.boundary_id(fcs[k])), thr);
                        dm::contact_contribution<Mesh> c3(msh, md, rp, bb); c3.compute(cl, cj, E2, w);
                        MX r(w.size(), w.size() + 1); r << c3.K_cont, c3.F_cont; return r; };
                    MX a = go(true, false), b = go(false, true), ab = go(true, true), none = go(false, false);
                    addi = std::max(relerr(ab, a + b), none.cwiseAbs().maxCoeff());
                    /* the first face alone does what it did before */
                    double F1 = 0, F2 = 0; for (auto& f : v) { VX x = project_function(msh, cl, dj, fn(f), 2); F1 = std::max(F1, std::fabs(x.dot(a.col(w.size())) * sc * Wn(p) - F[&f - &v[0]])); F2 = std::max(F2, std::fabs(F[&f - &v[0]])); }
                    addi = std::max(addi, F1 / std::max(1.0, F2));
                    break;
                }
                q("add", Ez(addi))("both", both);
                tr.emit(q);
            });
        }
        if (!p.face) { /* friction of Coulomb is not there for the version with cell unknowns: it says so */
            long said = 0;
            try {
                disk::MeshDegreeInfo<Mesh> di(msh, 1, 1, 1); di.hasUnknowns(msh, fc, false);
                NewtonSolverParameter<double> rp; rp.m_frot_type = COULOMB; disk::MaterialData<double> md; md.setLambda(1); md.setMu(1);
                disk::vector_boundary_conditions<Mesh> bc(msh); bc.addContactBC(disk::SIGNORINI_CELL, cd[2], [](const PT&) -> double { return 1; });
                dm::contact_contribution<Mesh> cc(msh, md, rp, bc);
                Fl z; z.c.assign(D, 0); z.A.assign(D, VL(D, 0));
                cc.compute(cl, di.cellDegreeInfo(msh, cl), make_matrix_hho_symmetric_gradrec(msh, cl, di).first, project_function(msh, cl, di, fn(z), 2));
            } catch (const std::exception&) { said = 1; }
            tr.emit(Obj()("ev", "Refused")("said", said));
        }
    }
}
/* bodies resting on the obstacle, with affine solutions */
template<typename Mesh> void solve(Trace& tr, Mesh& msh, const std::string& what, Rng& g)
{
    constexpr size_t D = Mesh::dimension;
    using PT = typename Mesh::point_type;
    using V = disk::static_vector<double, D>;
    auto st = msh.backend_storage(); size_t i = 0; double unit = 0;
    for (auto it = msh.points_begin(); it != msh.points_end(); ++it) for (size_t k = 0; k < D; k++) unit = std::max(unit, std::fabs((*it)[k]));
    std::vector<size_t> sides, floor;
    for (auto it = msh.boundary_faces_begin(); it != msh.boundary_faces_end(); ++it, ++i) {
        st->boundary_info.at(msh.lookup(*it)).id(100 + i);
        bool low = true; for (auto& q : points(msh, *it)) low = low && std::fabs(q[D - 1]) < 1e-12 * unit;
        (low ? floor : sides).push_back(100 + i);
    }
    for (long mode = 0; mode < 4; mode++) { /* pressed, pressed and sheared, sliding, lifted */
        guarded(tr, "solve " + what, [&]() {
            long la = g.range(1, 2), mu = g.range(1, 2), fr = mode == 0 ? g.range(0, 2) : mode == 3 ? g.range(0, 1) : 1, q = 0;
            std::vector<VL> A(D, VL(D, 0)); VL c(D, 0);
            long d = g.range(1, 3);
            A[D - 1][D - 1] = -d;
            if (mode == 1 || mode == 2) { A[0][D - 1] = g.range(1, 3) * (g.range(0, 1) ? 1 : -1); if (D == 3 && mode == 1) A[1][2] = g.range(-2, 2); }
            if (mode == 0 && fr == 0) A[0][0] = g.range(-1, 1);
            if (mode == 1) q = mu * 6;
            if (mode == 2) { q = mu * std::labs(A[0][D - 1]); c[0] = A[0][D - 1] > 0 ? g.range(1, 3) : -g.range(1, 3); }
            if (mode == 3) { la = 2 * mu; /* no traction on the floor */
                A[D - 1][D - 1] = d; A[0][0] = -2 * d; c[D - 1] = g.range(1, 3); if (fr == 1) q = 0; }
            if (mode == 0 && fr == 1) q = g.range(0, 4);
            double e = 1.0 / 16 / unit;
            long fd = g.range(1, 2), theta = g.range(-1, 1);
            auto sol = [&](const PT& p) -> V { V r; for (size_t k = 0; k < D; k++) { r(k) = c[k] * unit / 4; for (size_t j = 0; j < D; j++) r(k) += A[k][j] * p[j]; r(k) *= e * unit / 4; } return r; };
            double am = e * unit / 4;
            auto zero = [](const PT&, double) -> V { return V::Zero(); };
            NewtonSolverParameter<double> rp;
            rp.m_face_degree = fd; rp.m_cell_degree = fd; rp.m_grad_degree = fd; rp.m_verbose = false; rp.m_precomputation = g.range(0, 1); rp.m_stab_type = HHO; rp.m_stab = true; rp.m_beta = 2 * mu;
            rp.m_theta = theta; rp.m_gamma_0 = 20.0 * (la + 2 * mu); rp.m_frot_type = fr == 0 ? NO_FRICTION : fr == 1 ? TRESCA : COULOMB; rp.m_epsilon = 1e-10; rp.m_iter_max = 40; rp.m_sublevel = 0;
            rp.m_time_step.clear(); rp.m_time_step.push_back({1.0, 1});
            disk::MaterialData<double> md; md.setLambda(la); md.setMu(mu);
            disk::vector_boundary_conditions<Mesh> bc(msh);
            auto thr = [&](const PT&) -> double { return fr == 2 ? 0.5 : q * am; };
            for (auto b : floor) bc.addContactBC(disk::SIGNORINI_FACE, b, thr);
            for (auto b : sides) bc.addDirichletBC(disk::DIRICHLET, b, sol);
            dm::NewtonSolver<Mesh> ns(msh, bc, rp);
            ns.addBehavior(disk::DeformationMeasure::SMALL_DEF, disk::LawType::ELASTIC);
            ns.addMaterialData(md);
            if (g.range(0, 1)) ns.initial_guess(sol);
            std::ostringstream dump; auto* old = std::cout.rdbuf(dump.rdbuf());
            auto si = ns.compute(zero);
            double err = ns.compute_l2_displacement_error(sol), h1 = ns.compute_H1_error(sol);
            std::cout.rdbuf(old);
            double vol = 0; for (auto& cl : msh) vol += measure(msh, cl);
            tr.emit(Obj()("ev", "Solved")("on", what)("A", A)("c", c)("la", la)("mu", mu)("fr", fr)("q", q)("conv", ns.convergence())("floor", floor.size())
                    ("err", Ez(err / std::sqrt(vol) / (am * unit)))("h1", Ez(h1 / std::sqrt(vol) / am)));
        });
    }
}
int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto docs = read_docs(argv[2]);
    long seed = atol(argv[3]);
    int part = atoi(argv[4]), parts = atoi(argv[5]);
    long maxf = argc > 6 ? atol(argv[6]) : 10;
    for (auto& dd : docs) {
        if (dd.n % parts != part) continue;
        if (dd.dim != KIND / 10 || dd.kind != KINDNAME[KIND % 10]) continue;
        guarded(tr, "doc " + std::to_string(dd.n), [&]() { MESH msh; build(dd, msh); run(tr, msh, dd, seed, maxf); });
    }
    Rng g(seed * 77 + part);
    guarded(tr, "solver", [&]() {
        MESH m;
#if KIND == 22
        auto me = disk::make_fvca5_hex_mesher(m); me.make_level(2);
#elif KIND < 31
        auto me = disk::make_simple_mesher(m); for (long k = KIND < 30 ? g.range(1, 2) : 0; k > 0; k--) me.refine();
#else
        return;
#endif
        solve(tr, m, NAME, g);
    });
    tr.emit(Obj()("ev", "End"));
}
