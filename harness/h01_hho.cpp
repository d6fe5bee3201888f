/* Local HHO operators applied to interpolates of polynomials.
   args: OUT DOCS SEED PART PARTS KMAX ; compiled with -DPDIM=2|3 -DPKIND=1 (scalar) | 2 (vector) | 3 (curl, 3D only) */
#include "local.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/methods/hho"
#include "diskpp/methods/implementation_hho/scalar_hho_laplacian.hpp"
#include "diskpp/methods/hho_slapl.hpp"
#include "diskpp/methods/implementation_hho/curl.hpp"
using namespace vh;

/* the same cell, twice as large */
template<typename Mesh> Mesh doubled(const Doc& doc) { Doc d2 = doc; Mesh m; for (auto& p : d2.pts) for (auto& x : p) x *= 2; build(d2, m); return m; }

template<typename Mesh> void scalar(Trace& tr, Mesh& msh, Mesh& big, const Doc& doc, long ci, const typename Mesh::cell_type& cl, long k, long cd, Rng& g)
{
    constexpr size_t D = Mesh::dimension;
    using P = typename Mesh::point_type;
    using T = typename Mesh::coordinate_type;
    auto fcs = faces(msh, cl);
    auto pts = points(msh, cl);
    auto bar = barycenter(msh, cl);
    double S = doc.scale;
    auto Fn = [&](const Lat& L, const Comb& c) { return disk::scalar_rhs_function<Mesh>([&](const P& p) { return c.F[0](L.grid(p)); }); };
    Degs dg{k + 1, cd, k, VL(fcs.size(), k)};
    disk::hho_degree_info hdi(cd, k);
    auto lat = [&](long n) { return cell_lattice(bar, D, doc.scale, n, g); };
    auto inter = [&](const disk::hho_degree_info& h, const Lat& L, const Comb& c) { return VX(disk::project_function(msh, cl, h, Fn(L, c), 2)); };
    auto gradof = [&](const auto& rb, const Lat& L, const VX& r) {
        return [&rb, &L, r](const std::vector<double>& x) { auto b = flat(rb.eval_gradients(L.template phys<P>(x))); if (b.rows() != r.size() + 1) return std::vector<double>{1e300}; return sv(MX(r.transpose() * b.bottomRows(b.rows() - 1))); }; };
    auto form1 = affine(g, pts, D, S);
    auto powers = [&](auto project, long p) {
        std::vector<VX> u;
        for (long a = 0; a <= p; a++) { disk::scalar_rhs_function<Mesh> f = [&, a](const P& x) { double r = form1[D]; for (size_t c = 0; c < D; c++) r += form1[c] * double(x[c]) * S; return dpow(r, a); }; u.push_back(project(f)); }
        return u; };
    double n2 = f2(form1, D);
    /* symmetric positive tensor and its action on the form */
    Eigen::Matrix<T, D, D> K = Eigen::Matrix<T, D, D>::Zero();
    for (size_t a = 0; a < D; a++) { K(a, a) = g.range(2, 4); for (size_t b = 0; b < a; b++) K(a, b) = K(b, a) = double(g.range(-1, 1)) * 0.5; }
    double kn = 0; for (size_t a = 0; a < D; a++) for (size_t b = 0; b < D; b++) kn += form1[a] * K(a, b) * form1[b];
    Eigen::Matrix<T, D, D> cI = Eigen::Matrix<T, D, D>::Identity() * 3.0;

    auto proj1 = [&](const disk::scalar_rhs_function<Mesh>& f) { return VX(disk::project_function(msh, cl, hdi, f, 2)); };
    auto rb = disk::make_scalar_monomial_basis(msh, cl, k + 1);
    long pr = exact("rec", dg);
    auto L = lat(pr);
    auto c = comb("scal", pr, D, g);
    VX u = inter(hdi, L, c);
    /* interpolate, where nothing is lost */
    {
        long pc = exact("cellface", dg);
        auto Lc = lat(pc); auto cc = comb("scal", pc, D, g);
        VX w = inter(hdi, Lc, cc);
        auto cb = disk::make_scalar_monomial_basis(msh, cl, cd);
        recon(tr, "interpolate, cell", "cellface", "id", dg, D, ci, cc, Lc, [&](const auto& x) { return std::vector<double>{cb.eval_functions(Lc.template phys<P>(x)).dot(w.head(cb.size()))}; }, 1);
        size_t off = cb.size();
        for (auto& fc : fcs) {
            auto fb = disk::make_scalar_monomial_basis(msh, fc, k);
            auto fp = points(msh, fc);
            VX wf = w.segment(off, fb.size());
            off += fb.size();
            long bad = 0; double M = 1;
            for (int t = 0; t < 4; t++) {
                P x = fp[0]; double s[3] = {g.range(0, 8) / 8.0, g.range(0, 8) / 8.0, 0};
                for (size_t a = 0; a < D; a++) { x[a] += s[0] * (fp[1][a] - fp[0][a]); if (D == 3) x[a] += s[1] * (fp[2][a] - fp[1][a]); }
                double ex = cc.F[0](Lc.grid(x)); M = std::max(M, std::fabs(ex));
                if (!(std::fabs(fb.eval_functions(x).dot(wf) - ex) < 1e-8 * M)) bad++;
            }
            equal(tr, "interpolate, face", ci, MX::Constant(1, 1, 1.0 + bad), MX::Constant(1, 1, 1.0));
        }
    }
    auto R = disk::make_scalar_hho_laplacian(msh, cl, hdi);
    recon(tr, "laplacian", "rec", "grad", dg, D, ci, c, L, gradof(rb, L, R.first * u), 1 / S);
    auto pw = powers(proj1, pr);
    energy(tr, "laplacian energy", ci, D, S, pr, form1, pw, R.second, n2);
    auto RK = disk::make_scalar_hho_laplacian(msh, cl, hdi, K);
    recon(tr, "laplacian tensor", "rec", "grad", dg, D, ci, c, L, gradof(rb, L, RK.first * u), 1 / S);
    energy(tr, "laplacian tensor energy", ci, D, S, pr, form1, pw, RK.second, kn);
    disk::MeshDegreeInfo<Mesh> mdi(msh, size_t(cd), size_t(k));
    auto RM = disk::make_scalar_hho_laplacian(msh, cl, mdi);
    equal(tr, "laplacian, mesh degrees", ci, RM.first, R.first); equal(tr, "laplacian, mesh degrees: form", ci, RM.second, R.second);
    /* face projection, harmonic, stabilisation free: any reconstruction degree */
    for (int t = 0; t < 2; t++) {
        long rd = t == 0 ? k + 1 : std::min<long>(k + 1 + g.range(0, 2), D == 3 || aspect(pts, D) < 0.12 ? 3 : 4);
        long cd2 = t == 0 ? cd : g.range(std::max(0L, k - 1), k + 1), fd2 = t == 0 ? k : g.range(std::max(0L, rd - 2), rd - 1);
        cd2 = std::max(cd2, fd2 - 1);
        if (rd < fd2 + 1) rd = fd2 + 1;
        Degs dh{rd, cd2, fd2, VL(fcs.size(), fd2)};
        disk::hho_degree_info hh(disk::priv::hdi_named_args{.rd = size_t(rd), .cd = size_t(cd2), .fd = size_t(fd2)});
        auto mono = disk::make_scalar_monomial_basis(msh, cl, rd);
        auto harm = disk::make_scalar_harmonic_top_basis(msh, cl, rd);
        harm.maximum_polynomial_degree(cd2 + 2);
        auto one = [&](const std::string& w, const std::string& op, const auto& bas, const auto& RR, double fac, bool hmode) {
            long p = exact(op, dh);
            auto Lh = lat(p); auto ch = comb("scal", p, D, g);
            VX uh = VX(disk::project_function(msh, cl, hh, Fn(Lh, ch), 3));
            recon(tr, w, op, "grad", dh, D, ci, ch, Lh, gradof(bas, Lh, RR.first * uh), 1 / S);
            auto pwh = powers([&](const auto& f) { return VX(disk::project_function(msh, cl, hh, f, 3)); }, p);
            energy(tr, w + " energy", ci, D, S, p, form1, pwh, RR.second, fac);
            if (hmode && fall(dh, rd - 1)) {
                long par = std::min(rd, cd2 + 2);
                auto Lg = lat(rd); auto cg = comb("harm", rd, D, g, par);
                VX ug = VX(disk::project_function(msh, cl, hh, Fn(Lg, cg), 3));
                recon(tr, w + ", harmonic", op, "grad", dh, D, ci, cg, Lg, gradof(bas, Lg, RR.first * ug), 1 / S);
            }
        };
        guarded(tr, "named", [&]() {
            one("laplacian(rd)", "rec", mono, disk::make_scalar_hho_laplacian(msh, cl, hh), n2, false);
            one("face proj", "fproj", mono, disk::make_shl_face_proj(msh, cl, hh), n2, false);
            one("face proj tensor", "fproj", mono, disk::make_shl_face_proj(msh, cl, hh, K), kn, false);
            one("harmonic", "harm", harm, disk::make_shl_harmonic(msh, cl, hh), n2, true);
            one("harmonic tensor", "harm", harm, disk::make_shl_harmonic(msh, cl, hh, cI), 3 * n2, true);
            one("harmonic face proj", "harmproj", harm, disk::make_shl_face_proj_harmonic(msh, cl, hh), n2, true);
            one("harmonic face proj tensor", "harmproj", harm, disk::make_shl_face_proj_harmonic(msh, cl, hh, cI), 3 * n2, true);
            one("stabilisation free", "sfl", harm, disk::make_sfl(msh, cl, hh, cI), 3 * n2, false);
        });
        /* stabilisation with any basis */
        if (t == 1 && cd2 <= rd) guarded(tr, "stab(rb)", [&]() {
            long p = exact("harm", dh);
            auto Lh = lat(p); auto ch = comb("scal", p, D, g);
            VX uh = VX(disk::project_function(msh, cl, hh, Fn(Lh, ch), 3));
            auto RR = disk::make_shl_harmonic(msh, cl, hh);
            kernel(tr, "hho stabilisation(harmonic)", "harm", dh, D, ci, ch, disk::make_scalar_hho_stabilization(msh, cl, harm, RR.first, hh), uh, RR.second.cwiseAbs().maxCoeff()); // may vanish altogether
        });
    }
    /* stabilisations */
    bool hF = g.range(0, 1);
    MX Sh = disk::make_scalar_hho_stabilization(msh, cl, R.first, hdi);
    kernel(tr, "hho stabilisation", "rec", dg, D, ci, c, Sh, u);
    form(tr, "laplacian + hho", "scalar", dg, D, 1, ci, R.second + Sh);
    form(tr, "laplacian tensor + hho", "scalar", dg, D, 1, ci, RK.second + Sh);
    MX Sm = disk::make_scalar_hho_stabilization(msh, cl, R.first, mdi, false);
    equal(tr, "hho stabilisation, mesh degrees", ci, Sm, Sh);
    MX SmF = disk::make_scalar_hho_stabilization(msh, cl, R.first, mdi, true);
    kernel(tr, "hho stabilisation(hF)", "rec", dg, D, ci, c, SmF, u);
    form(tr, "laplacian + hho(hF)", "scalar", dg, D, 1, ci, R.second + SmF);
    MX S2 = disk::make_scalar_hho_stabilization2(msh, cl, R.first, hdi, cI);
    equal(tr, "hho stabilisation2", ci, S2, 3.0 * Sh);
    MX S2K = disk::make_scalar_hho_stabilization2(msh, cl, RK.first, hdi, K);
    kernel(tr, "hho stabilisation2 tensor", "rec", dg, D, ci, c, S2K, u);
    form(tr, "laplacian tensor + hho2", "scalar", dg, D, 1, ci, RK.second + S2K);
    auto at = [&](const std::string& op) { long p = exact(op, dg); auto Lc = lat(p); auto cc = comb("scal", p, D, g); VX w = inter(hdi, Lc, cc); return std::pair(cc, w); };
    auto [cc, w] = at("cell");
    auto [cf, wf] = at("cellface");
    MX H = disk::make_scalar_hdg_stabilization(msh, cl, hdi, hF);
    kernel(tr, "hdg stabilisation", "cell", dg, D, ci, cc, H, w);
    form(tr, "laplacian + hdg", "scalar", dg, D, 1, ci, R.second + H);
    equal(tr, "hdg stabilisation, mesh degrees", ci, disk::make_scalar_hdg_stabilization(msh, cl, mdi, hF), H);
    MX H2 = disk::make_scalar_hdg_stabilization2(msh, cl, hdi, cI);
    equal(tr, "hdg stabilisation2", ci, H2, 3.0 * disk::make_scalar_hdg_stabilization(msh, cl, hdi, false));
    MX H2K = disk::make_scalar_hdg_stabilization2(msh, cl, hdi, K);
    kernel(tr, "hdg stabilisation2 tensor", "cell", dg, D, ci, cc, H2K, w);
    MX G = disk::make_scalar_dg_stabilization(msh, cl, hdi, hF);
    kernel(tr, "dg stabilisation", "cellface", dg, D, ci, cf, G, wf);
    form(tr, "laplacian + dg", "scalar", dg, D, 1, ci, R.second + G);
    equal(tr, "dg stabilisation, mesh degrees", ci, disk::make_scalar_dg_stabilization(msh, cl, mdi, hF), G);
    MX Df = disk::make_scalar_hho_difference(msh, cl, hdi);
    kernel(tr, "difference", "cellface", dg, D, ci, cf, Df, wf);
    MX Hd = disk::make_scalar_hdg_stabilization_diff(msh, cl, hdi, hF);
    disk::CellDegreeInfo<Mesh> cdi(msh, cl, size_t(cd), size_t(k));
    MX Gd = disk::make_scalar_dg_stabilization_diff(msh, cl, cdi, hF);
    equal(tr, "hdg on differences", ci, Df.transpose() * Hd * Df, H);
    equal(tr, "dg on differences", ci, Df.transpose() * Gd * Df, G);
    if constexpr (D == 2) { /* curls in 2D are rotated gradients */
        auto C2 = disk::curl_reconstruction(msh, cl, hdi);
        equal(tr, "curl in 2D", ci, C2.first, R.first); equal(tr, "curl in 2D: form", ci, C2.second, R.second);
        equal(tr, "curl in 2D: hdg", ci, disk::curl_hdg_stabilization(msh, cl, hdi), disk::make_scalar_hdg_stabilization(msh, cl, hdi, true));
    }
    /* fluxes: S(u, v) = sum over the faces of (flux(u), v_F - v_T) / h */
    {
        size_t cbs = disk::scalar_basis_size(cd, D);
        MX SS = hF ? SmF : Sm;
        MX Fl = disk::make_scalar_hho_stabilization_fluxes(msh, cl, R.first, hdi, hF);
        equal(tr, "hho fluxes", ci, G.rightCols(G.cols() - cbs) * Fl, SS, 1e-7);
        MX Fd = disk::make_scalar_dg_stabilization_fluxes(msh, cl, hdi, hF);
        equal(tr, "dg fluxes", ci, Df.transpose() * Gd * Fd, G);
    }
    /* twice as large: the energies scale with the dimension */
    {
        auto it = big.cells_begin(); std::advance(it, ci);
        auto cl2 = *it;
        double f = std::pow(2.0, double(D) - 2);
        auto R2 = disk::make_scalar_hho_laplacian(big, cl2, hdi);
        equal(tr, "scaling of the laplacian", ci, R2.second, f * R.second);
        equal(tr, "scaling of hho", ci, disk::make_scalar_hho_stabilization(big, cl2, R2.first, hdi), f * Sh);
        disk::MeshDegreeInfo<Mesh> mdb(big, size_t(cd), size_t(k));
        equal(tr, "scaling of hho(hF)", ci, disk::make_scalar_hho_stabilization(big, cl2, R2.first, mdb, true), f * SmF);
        equal(tr, "scaling of hdg", ci, disk::make_scalar_hdg_stabilization(big, cl2, hdi, hF), f * H);
        equal(tr, "scaling of dg", ci, disk::make_scalar_dg_stabilization(big, cl2, hdi, hF), f * G);
    }
    /* degrees varying from face to face */
    {
        disk::MeshDegreeInfo<Mesh> var(msh, size_t(std::max(cd, k)), size_t(k));
        Degs dv{k + 1, std::max(cd, k), k, {}};
        for (auto& fc : fcs) { long f = k + g.range(0, 2); dv.fds.push_back(f); var.degree(msh, fc, f); }
        long ccd = dv.cd + g.range(0, 1);
        dv.cd = std::min(ccd, k + 1); var.degree(msh, cl, dv.cd);
        long p = exact("rec", dv);
        auto Lv = lat(p); auto cv = comb("scal", p, D, g);
        VX uv = disk::project_function(msh, cl, var, Fn(Lv, cv), 3);
        auto RV = disk::make_scalar_hho_laplacian(msh, cl, var);
        recon(tr, "laplacian, varying degrees", "rec", "grad", dv, D, ci, cv, Lv, gradof(rb, Lv, RV.first * uv), 1 / S);
        MX SV = disk::make_scalar_hho_stabilization(msh, cl, RV.first, var);
        kernel(tr, "hho stabilisation, varying degrees", "rec", dv, D, ci, cv, SV, uv);
        form(tr, "laplacian + hho, varying degrees", "scalar", dv, D, 1, ci, RV.second + SV);
        long pc = exact("cell", dv);
        auto Lc = lat(pc); auto c3 = comb("scal", pc, D, g);
        VX u3 = disk::project_function(msh, cl, var, Fn(Lc, c3), 3);
        kernel(tr, "hdg stabilisation, varying degrees", "cell", dv, D, ci, c3, disk::make_scalar_hdg_stabilization(msh, cl, var, hF), u3);
        auto GV = disk::make_vector_hho_gradrec(msh, cl, var);
        long pg = exact("grad", dv);
        auto Lg = lat(pg); auto cg = comb("scal", pg, D, g);
        VX ug = disk::project_function(msh, cl, var, Fn(Lg, cg), 3);
        auto gb = disk::make_vector_monomial_basis(msh, cl, k);
        recon(tr, "gradient, varying degrees", "grad", "grad", dv, D, ci, cg, Lg, [&](const auto& x) { return sv(MX((GV.first * ug).transpose() * flat(gb.eval_functions(Lg.template phys<P>(x))))); }, 1 / S);
    }
    /* gradient reconstructions */
    {
        long gd = k + g.range(0, 1);
        Degs dG{k + 1, cd, gd, VL(fcs.size(), k)};
        disk::hho_degree_info hg(cd, k, gd);
        long p = exact("grad", dG);
        auto Lg = lat(p); auto cg = comb("scal", p, D, g);
        VX ug = inter(hg, Lg, cg);
        auto gb = disk::make_vector_monomial_basis(msh, cl, gd);
        auto GR = disk::make_vector_hho_gradrec(msh, cl, hg);
        auto val = [&](const auto& b, const Lat& LL, VX r) { return [&b, &LL, r](const std::vector<double>& x) { return sv(MX(r.transpose() * flat(b.eval_functions(LL.template phys<P>(x))))); }; };
        recon(tr, "gradient", "grad", "grad", dG, D, ci, cg, Lg, val(gb, Lg, GR.first * ug), 1 / S);
        auto pg = powers(proj1, p);
        energy(tr, "gradient energy", ci, D, S, p, form1, pg, GR.second, n2);
        form(tr, "gradient + hdg", "scalar", dG, D, 1, ci, GR.second + H);
        auto tf = [&](const P&) { return K; };
        auto GK = disk::make_vector_hho_gradrec(msh, cl, hg, tf);
        equal(tr, "gradient with a tensor", ci, GK.first, GR.first);
        energy(tr, "gradient tensor energy", ci, D, S, p, form1, pg, GK.second, kn);
        disk::MeshDegreeInfo<Mesh> mg(msh, size_t(cd), size_t(k), size_t(gd));
        auto GM = disk::make_vector_hho_gradrec(msh, cl, mg);
        equal(tr, "gradient, mesh degrees", ci, GM.first, GR.first); equal(tr, "gradient, mesh degrees: form", ci, GM.second, GR.second);
        equal(tr, "gradient with a tensor, mesh degrees: form", ci, disk::make_vector_hho_gradrec(msh, cl, mg, tf).second, GK.second);
        if (doc.kind == "simplex" && gd >= 1) {
            disk::hho_degree_info hr(cd, k, k + 1);
            Degs dR{k + 1, cd, k + 1, VL(fcs.size(), k)};
            long pR = exact("rt", dR);
            auto Lr = lat(pR); auto cr = comb("scal", pR, D, g);
            VX ur = inter(hr, Lr, cr);
            auto rt = disk::make_vector_monomial_basis_RT(msh, cl, k + 1);
            auto RT = disk::make_vector_hho_gradrec_RT(msh, cl, hr);
            recon(tr, "RT gradient", "rt", "grad", dR, D, ci, cr, Lr, val(rt, Lr, RT.first * ur), 1 / S);
            energy(tr, "RT gradient energy", ci, D, S, pR, form1, powers(proj1, pR), RT.second, n2);
            if (cd == k) form(tr, "RT gradient", "scalar", dR, D, 1, ci, RT.second);
            disk::MeshDegreeInfo<Mesh> mr(msh, size_t(cd), size_t(k), size_t(k + 1));
            auto RTM = disk::make_vector_hho_gradrec_RT(msh, cl, mr);
            equal(tr, "RT gradient, mesh degrees", ci, RTM.first, RT.first);
            auto RTK = disk::make_vector_hho_gradrec_RT(msh, cl, hr, tf);
            energy(tr, "RT gradient tensor energy", ci, D, S, pR, form1, powers(proj1, pR), RTK.second, kn);
            equal(tr, "RT gradient with a tensor, mesh degrees: form", ci, disk::make_vector_hho_gradrec_RT(msh, cl, mr, tf).second, RTK.second);
        }
    }
    /* Nitsche: consistent on boundary faces, and on the cell up to -(laplacian p, v) */
    if (k >= 0) {
        Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> op = R.first, lhs = R.second;
        Eigen::Matrix<T, Eigen::Dynamic, 1> rhs = Eigen::Matrix<T, Eigen::Dynamic, 1>::Zero(lhs.rows());
        auto fn = Fn(L, c);
        disk::apply_dirichlet_via_nitsche(msh, cl, op, lhs, rhs, hdi, fn, 2.5);
        VX r = lhs * u - rhs;
        size_t cbs = disk::scalar_basis_size(cd, D), fbs = disk::scalar_basis_size(k, D - 1);
        VX z = VX::Zero(r.size());
        for (size_t f = 0; f < fcs.size(); f++) if (msh.is_boundary(fcs[f])) z.segment(cbs + f * fbs, fbs) = r.segment(cbs + f * fbs, fbs);
        if (pr <= 1) z.head(cbs) = r.head(cbs);
        double ref = lhs.cwiseAbs().maxCoeff() * u.cwiseAbs().maxCoeff();
        Obj o; o("ev", "Kernel")("size", z.size())("v", zeros(z, ref));
        head(o, "nitsche", "rec", dg, D, ci, c);
        tr.emit(o);
        equal(tr, "nitsche form symmetric", ci, lhs, lhs.transpose());
    }
}

/* hho_slapl: the same on the new bases */
template<typename Mesh> void slapl(Trace& tr, Mesh& msh, const Doc& doc, long ci, const typename Mesh::cell_type& cl, long k, long cd, Rng& g)
{
    constexpr size_t D = Mesh::dimension;
    using P = typename Mesh::point_type;
    namespace sl = disk::hho::slapl;
    auto fcs = faces(msh, cl);
    auto bar = barycenter(msh, cl);
    double S = doc.scale;
    Degs dg{k + 1, cd, k, VL(fcs.size(), k)};
    sl::degree_info di(cd, k);
    long p = exact("rec", dg);
    auto L = cell_lattice(bar, D, doc.scale, p, g);
    auto c = comb("scal", p, D, g);
    auto fn = [&](const P& x) { return c.F[0](L.grid(x)); };
    /* the projection of the code integrates with twice the degree of the basis: interpolate with a larger one and cut */
    using Space = sl::hho_space<Mesh>;
    auto [szT, szF, szR] = sl::space_dimensions<Space>(di);
    VX u = VX::Zero(szT + szF * fcs.size());
    {
        auto phT = typename Space::cell_basis_type(msh, cl, cd);
        auto proj = [&](const auto& el, const auto& b) {
            MX M = MX::Zero(b.size(), b.size()); VX r = VX::Zero(b.size());
            for (auto& qp : disk::integrate(msh, el, 2 * (k + 2))) { auto f0 = b(qp.point()); VX f; if constexpr (std::is_arithmetic_v<decltype(f0)>) f = VX::Constant(1, f0); else f = f0; M += qp.weight() * f * f.transpose(); r += qp.weight() * fn(qp.point()) * f; }
            return VX(M.ldlt().solve(r)); };
        u.head(szT) = proj(cl, phT);
        size_t off = szT;
        for (auto& fc : fcs) { auto phF = typename Space::face_basis_type(msh, fc, k); u.segment(off, szF) = proj(fc, phF); off += szF; }
    }
    auto [R, A] = sl::local_operator(msh, cl, di);
    auto rb = typename Space::reco_basis_type(msh, cl, k + 1);
    VX ru = R * u;
    recon(tr, "slapl operator", "rec", "grad", dg, D, ci, c, L, [&](const auto& x) { auto b = flat(rb.grad(L.template phys<P>(x))); return sv(MX(ru.transpose() * b.bottomRows(b.rows() - 1))); }, 1 / S);
    MX St = sl::local_stabilization(msh, cl, di, R);
    kernel(tr, "slapl stabilisation", "rec", dg, D, ci, c, St, u);
    form(tr, "slapl", "scalar", dg, D, 1, ci, A + St);
    long pc = exact("cellface", dg);
    auto Lc = cell_lattice(bar, D, doc.scale, pc, g);
    auto cc = comb("scal", pc, D, g);
    VX w = sl::local_reduction(msh, cl, di, [&](const P& x) { return cc.F[0](Lc.grid(x)); });
    recon(tr, "slapl reduction, operator", "cellface", "grad", dg, D, ci, cc, Lc, [&](const auto& x) { auto b = flat(rb.grad(Lc.template phys<P>(x))); return sv(MX((R * w).transpose() * b.bottomRows(b.rows() - 1))); }, 1 / S);
    kernel(tr, "slapl reduction, stabilisation", "cellface", dg, D, ci, cc, St, w);
    std::stringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf());
    MX Sg = sl::local_stabilization_hdg(msh, cl, di);
    std::cout.rdbuf(old);
    kernel(tr, "slapl hdg stabilisation", "cellface", dg, D, ci, cc, Sg, w);
    form(tr, "slapl + hdg", "scalar", dg, D, 1, ci, A + Sg);
}

template<typename Mesh> void vectors(Trace& tr, Mesh& msh, Mesh& big, const Doc& doc, long ci, const typename Mesh::cell_type& cl, long k, long cd, Rng& g)
{
    constexpr size_t D = Mesh::dimension;
    using P = typename Mesh::point_type;
    using T = typename Mesh::coordinate_type;
    using V = Eigen::Matrix<T, D, 1>;
    auto fcs = faces(msh, cl);
    auto pts = points(msh, cl);
    auto bar = barycenter(msh, cl);
    double S = doc.scale;
    auto Fn = [&](const Lat& L, const Comb& c) { return disk::vector_rhs_function<Mesh>([&](const P& p) { V r; auto x = L.grid(p); for (size_t a = 0; a < D; a++) r(a) = c.F[a](x); return r; }); };
    Degs dg{k + 1, cd, k, VL(fcs.size(), k)};
    disk::hho_degree_info hdi(cd, k);
    disk::MeshDegreeInfo<Mesh> mdi(msh, size_t(cd), size_t(k));
    auto lat = [&](long n) { return cell_lattice(bar, D, doc.scale, n, g); };
    auto form1 = affine(g, pts, D, S);
    double n2 = f2(form1, D);
    V dir; double dn = 0, dd = 0;
    for (size_t a = 0; a < D; a++) { dir(a) = g.range(-2, 2); dn += dir(a) * form1[a]; dd += dir(a) * dir(a); }
    if (dd == 0) { dir(0) = 1; dd = 1; dn = form1[0]; }
    auto powers = [&](auto project, long p) {
        std::vector<VX> u;
        for (long a = 0; a <= p; a++) { disk::vector_rhs_function<Mesh> f = [&, a](const P& x) { double r = form1[D]; for (size_t c = 0; c < D; c++) r += form1[c] * double(x[c]) * S; return V(dir * dpow(r, a)); }; u.push_back(project(f)); }
        return u; };
    auto projv = [&](const disk::vector_rhs_function<Mesh>& f) { return VX(disk::project_function(msh, cl, hdi, f, 2)); };
    long p = exact("rec", dg);
    auto L = lat(p); auto c = comb("vec", p, D, g);
    VX u = disk::project_function(msh, cl, hdi, Fn(L, c), 2);
    equal(tr, "vector interpolate, mesh degrees", ci, VX(disk::project_function(msh, cl, mdi, Fn(L, c), 2)), u);
    auto rb = disk::make_vector_monomial_basis(msh, cl, k + 1);
    auto derof = [&](const auto& ev, const VX& r, size_t skip) { return [&ev, r, skip](const std::vector<double>& x) { MX b = ev(x); if (b.rows() != r.size() + long(skip)) return std::vector<double>{1e300}; return sv(MX(r.transpose() * b.bottomRows(r.size()))); }; };
    auto jac = [&](const auto& x) { return flat(rb.eval_gradients(L.template phys<P>(x))); };
    auto sgr = [&](const auto& x) { return flat(rb.eval_sgradients(L.template phys<P>(x))); };
    auto pw = powers(projv, p);
    auto VL1 = disk::make_vector_hho_laplacian(msh, cl, hdi);
    recon(tr, "vector laplacian", "rec", "jac", dg, D, ci, c, L, derof(jac, VL1.first * u, D), 1 / S);
    energy(tr, "vector laplacian energy", ci, D, S, p, form1, pw, VL1.second, n2 * dd);
    auto VM = disk::make_vector_hho_laplacian(msh, cl, mdi);
    equal(tr, "vector laplacian, mesh degrees", ci, VM.first, VL1.first); equal(tr, "vector laplacian, mesh degrees: form", ci, VM.second, VL1.second);
    MX Sv = disk::make_vector_hho_stabilization(msh, cl, VL1.first, hdi, false);
    kernel(tr, "vector hho stabilisation", "rec", dg, D, ci, c, Sv, u);
    form(tr, "vector laplacian + hho", "vector", dg, D, D, ci, VL1.second + Sv);
    auto sc = disk::make_scalar_hho_laplacian(msh, cl, hdi);
    equal(tr, "vector hho stabilisation, optimised", ci, disk::make_vector_hho_stabilization_optim(msh, cl, sc.first, mdi, false), Sv);
    equal(tr, "vector hho stabilisation, optimised(hdi)", ci, disk::make_vector_hho_stabilization_optim(msh, cl, sc.first, hdi, false), Sv);
    MX SvF = disk::make_vector_hho_stabilization(msh, cl, VL1.first, mdi, true);
    equal(tr, "vector hho stabilisation(hF), optimised", ci, disk::make_vector_hho_stabilization_optim(msh, cl, sc.first, mdi, true), SvF);
    equal(tr, "stokes: vector laplacian", ci, disk::make_hho_stokes(msh, cl, hdi, false).second, VL1.second);
    bool hF = g.range(0, 1);
    auto at = [&](const std::string& op) { long q = exact(op, dg); auto Lc = lat(q); auto cc = comb("vec", q, D, g); VX w = disk::project_function(msh, cl, hdi, Fn(Lc, cc), 2); return std::pair(cc, w); };
    auto [cc, w] = at("cell");
    auto [cf, wf] = at("cellface");
    MX Hv = disk::make_vector_hdg_stabilization(msh, cl, hdi, hF);
    kernel(tr, "vector hdg stabilisation", "cell", dg, D, ci, cc, Hv, w);
    form(tr, "vector laplacian + hdg", "vector", dg, D, D, ci, VL1.second + Hv);
    equal(tr, "vector hdg stabilisation, mesh degrees", ci, disk::make_vector_hdg_stabilization(msh, cl, mdi, hF), Hv);
    MX Gv = disk::make_vector_dg_stabilization(msh, cl, hdi, hF);
    kernel(tr, "vector dg stabilisation", "cellface", dg, D, ci, cf, Gv, wf);
    equal(tr, "vector dg stabilisation, mesh degrees", ci, disk::make_vector_dg_stabilization(msh, cl, mdi, hF), Gv);
    /* symmetric gradient of the potential */
    if (k >= 1 && cd >= 1) {
        auto SY = disk::make_vector_hho_symmetric_laplacian(msh, cl, hdi);
        recon(tr, "symmetric laplacian", "rec", "sgrad2", dg, D, ci, c, L, derof(sgr, SY.first * u, D), 2 / S);
        energy(tr, "symmetric laplacian energy", ci, D, S, p, form1, pw, SY.second, 0.5 * (n2 * dd + dn * dn));
        auto SM = disk::make_vector_hho_symmetric_laplacian(msh, cl, mdi);
        equal(tr, "symmetric laplacian, mesh degrees", ci, SM.first, SY.first); equal(tr, "symmetric laplacian, mesh degrees: form", ci, SM.second, SY.second);
        MX Ss = disk::make_vector_hho_stabilization(msh, cl, SY.first, hdi, hF);
        kernel(tr, "symmetric hho stabilisation", "rec", dg, D, ci, c, Ss, u);
        form(tr, "symmetric laplacian + hho", "sym", dg, D, D, ci, SY.second + Ss);
        equal(tr, "stokes: symmetric laplacian", ci, disk::make_hho_stokes(msh, cl, hdi, true).second, SY.second);
    }
    /* gradient reconstructions */
    {
        long gd = k + g.range(0, 1);
        Degs dG{k + 1, cd, gd, VL(fcs.size(), k)};
        disk::hho_degree_info hg(cd, k, gd);
        disk::MeshDegreeInfo<Mesh> mg(msh, size_t(cd), size_t(k), size_t(gd));
        long q = exact("grad", dG);
        auto Lg = lat(q); auto cg = comb("vec", q, D, g);
        VX ug = disk::project_function(msh, cl, hg, Fn(Lg, cg), 2);
        auto pg = powers(projv, q);
        auto mb = disk::make_matrix_monomial_basis(msh, cl, gd);
        auto sb = disk::make_sym_matrix_monomial_basis(msh, cl, gd);
        auto evm = [&](const auto& x) { return flat(mb.eval_functions(Lg.template phys<P>(x))); };
        auto evs = [&](const auto& x) { return flat(sb.eval_functions(Lg.template phys<P>(x))); };
        auto GM = disk::make_matrix_hho_gradrec(msh, cl, hg);
        recon(tr, "matrix gradient", "grad", "jac", dG, D, ci, cg, Lg, derof(evm, GM.first * ug, 0), 1 / S);
        energy(tr, "matrix gradient energy", ci, D, S, q, form1, pg, GM.second, n2 * dd);
        form(tr, "matrix gradient + hdg", "vector", dG, D, D, ci, GM.second + Hv);
        auto GMM = disk::make_matrix_hho_gradrec(msh, cl, mg);
        equal(tr, "matrix gradient, mesh degrees", ci, GMM.first, GM.first); equal(tr, "matrix gradient, mesh degrees: form", ci, GMM.second, GM.second);
        auto GS = disk::make_matrix_hho_symmetric_gradrec(msh, cl, hg);
        recon(tr, "symmetric gradient", "grad", "sgrad2", dG, D, ci, cg, Lg, derof(evs, GS.first * ug, 0), 2 / S);
        energy(tr, "symmetric gradient energy", ci, D, S, q, form1, pg, GS.second, 0.5 * (n2 * dd + dn * dn));
        if (cd >= 1 && k >= 1) form(tr, "symmetric gradient + hdg", "sym", dG, D, D, ci, GS.second + Hv);
        auto GSM = disk::make_matrix_hho_symmetric_gradrec(msh, cl, mg);
        equal(tr, "symmetric gradient, mesh degrees", ci, GSM.first, GS.first);
        MX full = GM.first;
        auto GF = disk::make_matrix_hho_symmetric_gradrec(msh, cl, hg, disk::dynamic_matrix<T>(GM.first));
        equal(tr, "symmetric gradient from the gradient: form", ci, GF.second, GS.second);
        auto DV = disk::make_hho_divergence_reconstruction(msh, cl, hg);
        auto db = disk::make_scalar_monomial_basis(msh, cl, gd);
        auto evd = [&](const auto& x) { return flat(db.eval_functions(Lg.template phys<P>(x))); };
        recon(tr, "divergence", "grad", "div", dG, D, ci, cg, Lg, derof(evd, DV.first * ug, 0), 1 / S);
        if (dn != 0) energy(tr, "divergence energy", ci, D, S, q, form1, pg, DV.second, dn * dn);
        auto DM = disk::make_hho_divergence_reconstruction(msh, cl, mg);
        equal(tr, "divergence, mesh degrees", ci, DM.first, DV.first);
        MX rhs = disk::make_hho_divergence_reconstruction_rhs(msh, cl, hg);
        equal(tr, "divergence right-hand side", ci, disk::make_mass_matrix(msh, cl, db) * DV.first, rhs);
        equal(tr, "divergence right-hand side, mesh degrees", ci, disk::make_hho_divergence_reconstruction_rhs(msh, cl, mg), rhs);
        equal(tr, "stokes: matrix gradient", ci, disk::make_hlow_stokes(msh, cl, hg, false).second, GM.second);
        equal(tr, "stokes: symmetric gradient", ci, disk::make_hlow_stokes(msh, cl, hg, true).second, GS.second);
        if (doc.kind == "simplex") {
            disk::hho_degree_info hr(cd, k, k + 1);
            Degs dR{k + 1, cd, k + 1, VL(fcs.size(), k)};
            long pR = exact("symrt", dR);
            auto Lr = lat(pR); auto cr = comb("vec", pR, D, g);
            VX ur = disk::project_function(msh, cl, hr, Fn(Lr, cr), 2);
            auto rt = disk::make_sym_matrix_monomial_basis_RT(msh, cl, k + 1);
            auto evr = [&](const auto& x) { return flat(rt.eval_functions(Lr.template phys<P>(x))); };
            auto RT = disk::make_matrix_hho_symmetric_gradrec_RT(msh, cl, hr);
            recon(tr, "symmetric RT gradient", "symrt", "sgrad2", dR, D, ci, cr, Lr, derof(evr, RT.first * ur, 0), 2 / S);
            energy(tr, "symmetric RT gradient energy", ci, D, S, pR, form1, powers(projv, pR), RT.second, 0.5 * (n2 * dd + dn * dn));
        }
    }
    {   /* degrees varying from face to face */
        disk::MeshDegreeInfo<Mesh> var(msh, size_t(std::max(cd, k)), size_t(k));
        Degs dv{k + 1, std::max(cd, k), k, {}};
        for (auto& fc : fcs) { long f = k + g.range(0, 1); dv.fds.push_back(f); var.degree(msh, fc, f); }
        long q = exact("rec", dv);
        auto Lv = lat(q); auto cv = comb("vec", q, D, g);
        VX uv = disk::project_function(msh, cl, var, Fn(Lv, cv), 2);
        auto VV = disk::make_vector_hho_laplacian(msh, cl, var);
        auto jv = [&](const auto& x) { return flat(rb.eval_gradients(Lv.template phys<P>(x))); };
        recon(tr, "vector laplacian, varying degrees", "rec", "jac", dv, D, ci, cv, Lv, derof(jv, VV.first * uv, D), 1 / S);
        kernel(tr, "vector hho stabilisation, varying degrees", "rec", dv, D, ci, cv, disk::make_vector_hho_stabilization(msh, cl, VV.first, var, hF), uv);
        long qg = exact("grad", dv);
        auto Lg = lat(qg); auto cg = comb("vec", qg, D, g);
        VX ug = disk::project_function(msh, cl, var, Fn(Lg, cg), 2);
        auto db = disk::make_scalar_monomial_basis(msh, cl, k);
        auto evd = [&](const auto& x) { return flat(db.eval_functions(Lg.template phys<P>(x))); };
        auto DV = disk::make_hho_divergence_reconstruction(msh, cl, var);
        recon(tr, "divergence, varying degrees", "grad", "div", dv, D, ci, cg, Lg, derof(evd, DV.first * ug, 0), 1 / S);
        auto sb = disk::make_sym_matrix_monomial_basis(msh, cl, k);
        auto evs = [&](const auto& x) { return flat(sb.eval_functions(Lg.template phys<P>(x))); };
        auto GS = disk::make_matrix_hho_symmetric_gradrec(msh, cl, var);
        recon(tr, "symmetric gradient, varying degrees", "grad", "sgrad2", dv, D, ci, cg, Lg, derof(evs, GS.first * ug, 0), 2 / S);
        auto mb = disk::make_matrix_monomial_basis(msh, cl, k);
        auto evm = [&](const auto& x) { return flat(mb.eval_functions(Lg.template phys<P>(x))); };
        auto GM = disk::make_matrix_hho_gradrec(msh, cl, var);
        recon(tr, "matrix gradient, varying degrees", "grad", "jac", dv, D, ci, cg, Lg, derof(evm, GM.first * ug, 0), 1 / S);
    }
    {   /* twice as large */
        auto it = big.cells_begin(); std::advance(it, ci);
        auto cl2 = *it;
        double f = std::pow(2.0, double(D) - 2);
        auto V2 = disk::make_vector_hho_laplacian(big, cl2, hdi);
        equal(tr, "scaling of the vector laplacian", ci, V2.second, f * VL1.second);
        equal(tr, "scaling of the vector hho stabilisation", ci, disk::make_vector_hho_stabilization(big, cl2, V2.first, hdi, false), f * Sv);
        disk::MeshDegreeInfo<Mesh> mdb(big, size_t(cd), size_t(k));
        equal(tr, "scaling of the vector hho stabilisation(hF)", ci, disk::make_vector_hho_stabilization(big, cl2, V2.first, mdb, true), f * SvF);
    }
}

#if PKIND == 3
template<typename Mesh> void curls(Trace& tr, Mesh& msh, const Doc& doc, long ci, const typename Mesh::cell_type& cl, long k, long cd, Rng& g)
{
    constexpr size_t D = 3;
    using P = typename Mesh::point_type;
    using V = Eigen::Matrix<double, 3, 1>;
    auto fcs = faces(msh, cl);
    auto pts = points(msh, cl);
    auto bar = barycenter(msh, cl);
    double S = doc.scale;
    cd = std::max(cd, k);
    auto Fn = [&](const Lat& L, const Comb& c) { return disk::vector_rhs_function<Mesh>([&](const P& p) { V r; auto x = L.grid(p); for (size_t a = 0; a < D; a++) r(a) = c.F[a](x); return r; }); };
    auto lat = [&](long n) { return cell_lattice(bar, D, doc.scale, n, g); };
    auto form1 = affine(g, pts, D, S);
    V dir, ln; for (size_t a = 0; a < D; a++) { dir(a) = g.range(-2, 2); ln(a) = form1[a]; }
    double cr = ln.cross(dir).squaredNorm();
    auto powers = [&](auto project, long p) {
        std::vector<VX> u;
        for (long a = 0; a <= p; a++) { disk::vector_rhs_function<Mesh> f = [&, a](const P& x) { double r = form1[D]; for (size_t c = 0; c < D; c++) r += form1[c] * double(x[c]) * S; return V(dir * dpow(r, a)); }; u.push_back(project(f)); }
        return u; };
    auto cb = disk::make_vector_monomial_basis(msh, cl, cd);
    size_t cbs = cb.size();
    for (int t = 0; t < 2; t++) {
        long rd = std::max({cd, k + t, 1L});
        Degs dg{rd, cd, rd, VL(fcs.size(), k)};
        disk::hho_degree_info hdi(disk::priv::hdi_named_args{.rd = size_t(rd), .cd = size_t(cd), .fd = size_t(k)});
        if (long(hdi.reconstruction_degree()) != rd || long(hdi.cell_degree()) != cd || long(hdi.face_degree()) != k) continue;
        auto rb = disk::make_vector_monomial_basis(msh, cl, rd);
        auto proj = [&](const disk::vector_rhs_function<Mesh>& f) { return VX(disk::project_tangent(msh, cl, hdi, f, 2)); };
        auto projn = [&](const disk::vector_rhs_function<Mesh>& f) { return VX(disk::project_tangent_nedelec(msh, cl, hdi, f, 2)); };
        auto one = [&](const std::string& w, const std::string& op, const std::string& fam, const std::string& oper, const auto& R, auto pr, bool curlof) {
            long p = exact(op, dg);
            auto L = lat(p); auto c = comb(fam, p, D, g);
            VX r = R.first * pr(Fn(L, c));
            recon(tr, w, op, oper, dg, D, ci, c, L, [&](const auto& x) {
                MX b = curlof ? MX(rb.eval_curls2(L.template phys<P>(x))) : MX(rb.eval_functions(L.template phys<P>(x)));
                if (b.rows() < r.size() || b.rows() > r.size() + 3) return std::vector<double>{1e300};
                return sv(MX(r.transpose() * b.bottomRows(r.size()))); }, 1 / S);
            if (cr != 0 && fam == "vec") energy(tr, w + " energy", ci, D, S, p, form1, powers(pr, p), R.second, cr);
        };
        auto CR = disk::curl_reconstruction(msh, cl, hdi);
        one("curl of the potential", "rec", "vec", "curl", CR, proj, true);
        auto CP = disk::curl_reconstruction_pk(msh, cl, hdi);
        one("curl", "grad", "vec", "curl", CP, proj, false);
        auto CN = disk::curl_reconstruction_nedelec(msh, cl, hdi);
        one("curl, Nedelec traces", "ned", "vec", "curl", CN, projn, false);
        one("curl of gradients, Nedelec traces", "sequence", "grads", "curl", CN, projn, false);
        long pc = exact("cell", dg);
        auto Lc = lat(pc); auto c = comb("vec", pc, D, g);
        VX u = proj(Fn(Lc, c)), un = projn(Fn(Lc, c));
        MX H = disk::curl_hdg_stabilization(msh, cl, hdi), HN = disk::curl_hdg_stabilization_nedelec(msh, cl, hdi);
        kernel(tr, "curl hdg stabilisation", "cell", dg, D, ci, c, H, u);
        kernel(tr, "curl hdg stabilisation, Nedelec", "cell", dg, D, ci, c, HN, un);
        MX Z = disk::curl_Z_stabilization(msh, cl, hdi, 1.0, 2.0, 0.5);
        kernel(tr, "curl impedance stabilisation", "cell", dg, D, ci, c, Z, u);
        equal(tr, "curl impedance stabilisation", ci, Z, 16.0 * H);
        if (exact("rec", dg) >= cd) form(tr, "curl of the potential + hdg", "curl", dg, D, D, ci, CR.second + H, "rec");
        if (exact("grad", dg) >= cd) form(tr, "curl + hdg", "curl", dg, D, D, ci, CP.second + H, "grad");
        if (exact("ned", dg) >= cd) form(tr, "curl, Nedelec + hdg", "curlned", dg, D, D, ci, CN.second + HN, "ned");
        /* the rest */
        if (t == 0) {
            MX cc = disk::make_curl_curl_matrix(msh, cl, cb);
            std::vector<VX> pw; for (auto& v : powers(proj, cd)) pw.push_back(v.head(cbs));
            if (cr != 0) energy(tr, "curl curl matrix", ci, D, S, cd, form1, pw, cc, cr);
            MX M = disk::make_vector_mass_oper(msh, cl, hdi);
            MX M0 = MX::Zero(M.rows(), M.cols()); M0.topLeftCorner(cbs, cbs) = disk::make_mass_matrix(msh, cl, cb);
            equal(tr, "mass operator", ci, M, M0);
            auto zf = [&](const P& x) { Eigen::Matrix<std::complex<double>, 3, 1> r; auto y = Lc.grid(x); for (size_t a = 0; a < 3; a++) r(a) = std::complex<double>(c.F[a](y), -2 * c.F[a](y)); return r; };
            auto zp = disk::maxwell_prj(msh, cl, hdi, zf);
            VX pu = disk::project_tangent(msh, cl, hdi, Fn(Lc, c), 2);
            long fbs = disk::vector_basis_size(k, 2, 2);
            bool done = pc <= k;
            equal(tr, "complex interpolate, real part", ci, VX(zp.real()).head(done ? zp.size() : cbs), pu.head(done ? pu.size() : cbs), 1e-8, 1.0);
            equal(tr, "complex interpolate, imaginary part", ci, VX(zp.imag()).head(done ? zp.size() : cbs), -2 * pu.head(done ? pu.size() : cbs), 1e-8, 1.0);
            MX Y0 = MX::Zero(M.rows(), M.cols());
            size_t id = 1000000;
            for (auto& fc : fcs) if (msh.is_boundary(fc) && (id == 1000000 || g.range(0, 1))) id = msh.boundary_id(fc);
            for (size_t f = 0; f < fcs.size(); f++) {
                auto fb = disk::make_vector_monomial_tangential_basis(msh, fcs[f], k);
                MX mf = disk::make_mass_matrix(msh, fcs[f], fb);
                equal(tr, "impedance of a face", ci, disk::make_impedance_term(msh, fcs[f], k), mf);
                auto [Y, y] = disk::make_plane_wave_term(msh, fcs[f], k, [&](const P& x) { V r; auto z = Lc.grid(x); for (size_t a = 0; a < 3; a++) r(a) = c.F[a](z); return r; });
                equal(tr, "plane wave of a face", ci, Y, mf);
                if (pc <= k) equal(tr, "plane wave of a face, values", ci, MX(mf.ldlt().solve(VX(y))), pu.segment(cbs + f * fbs, fbs), 1e-8, 1.0);
                if (msh.is_boundary(fcs[f]) && msh.boundary_id(fcs[f]) == id) Y0.block(cbs + f * fbs, cbs + f * fbs, fbs, fbs) = 3.0 * mf;
            }
            equal(tr, "impedance of a boundary", ci, disk::make_impedance_term<double>(msh, cl, hdi, id, 3.0).first, Y0);
        }
    }
}
#endif
template<typename Mesh> void run(Trace& tr, Mesh& msh, const Doc& doc, long seed, long kmax)
{
    constexpr size_t D = Mesh::dimension;
    Obj o; o("ev", "Mesh")("n", doc.n); snapshot(o, msh, doc.scale); tr.emit(o);
    Rng g(seed * 977 + doc.n * 3 + PKIND);
    Mesh big = doubled<Mesh>(doc);
    size_t nc = msh.cells_size(), i = 0;
    long turn = seed + doc.n;
    for (auto& cl : msh) {
        size_t ci = i++;
        if (nc > 2 && ci % 4 != size_t(seed + doc.n) % 4) continue;
        if (faces(msh, cl).size() > 10) continue;
        double as = aspect(points(msh, cl), D);
        long kcap = std::min<long>(kmax, D == 3 ? (as < 0.25 ? 1 : 2) : as < 0.1 ? 1 : as < 0.25 ? 2 : 3);
        for (int t = 0; t < 2; t++, turn++) {
            long k = std::min(kcap, turn % (kmax + 1)), cd = k + (turn / (kmax + 1)) % 3 - 1;
            if (cd < 0) cd = 0;
            guarded(tr, "cell " + std::to_string(ci) + " k " + std::to_string(k) + " cd " + std::to_string(cd), [&]() {
                if constexpr (PKIND == 1) { scalar(tr, msh, big, doc, ci, cl, k, cd, g); slapl(tr, msh, doc, ci, cl, k, cd, g); }
#if PKIND == 3
                else if constexpr (D == 3) curls(tr, msh, doc, ci, cl, k, cd, g);
#endif
                else vectors(tr, msh, big, doc, ci, cl, k, cd, g);
            });
        }
    }
}
int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto docs = read_docs(argv[2]);
    long seed = atol(argv[3]);
    int part = atoi(argv[4]), parts = atoi(argv[5]);
    long kmax = atol(argv[6]);
    for (auto& dd : docs)
        if (dd.dim == PDIM && dd.n % parts == part)
            guarded(tr, "doc " + std::to_string(dd.n), [&]() {
                auto go = [&](auto msh) { build(dd, msh); run(tr, msh, dd, seed, kmax); };
#if PDIM == 2
                if (dd.kind == "simplex") go(disk::simplicial_mesh<double, 2>());
                else if (dd.kind == "cart") go(disk::cartesian_mesh<double, 2>());
                else go(disk::generic_mesh<double, 2>());
#else
                if (dd.kind == "simplex") go(disk::simplicial_mesh<double, 3>());
                else if (dd.kind == "cart") go(disk::cartesian_mesh<double, 3>());
                else go(disk::generic_mesh<double, 3>());
#endif
            });
    tr.emit(Obj()("ev", "End"));
    return 0;
}
