/* Programs of material points. args: OUT DOCS PROGRAMS K P. One program per line (JSON). */
#include <Eigen/Dense>
#include "vh.hpp"
#include "json.hpp"
#include "meshbuild.hpp"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
#include "diskpp/mechanics/behaviors/laws/law_cell_bones.hpp"
using namespace vh;
using namespace disk;
using M3 = static_matrix<double, 3, 3>;
template<int D> using MD = static_matrix<double, D, D>;
const double LN2 = 0.69314718055994530942;

M3 m3(const Json& j, double s = 1) { M3 r; for (int i = 0; i < 9; i++) r(i / 3, i % 3) = j[i].n / s; return r; }
template<int D> MD<D> md(const M3& a) { return a.template block<D, D>(0, 0); }
template<typename X> std::vector<long> ints(const X& m, double sc, double tol)
{
    std::vector<long> r;
    for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) r.push_back(Q(m(i, j), sc, tol));
    return r;
}
MaterialData<double> data(const Json& m, double unit)
{
    MaterialData<double> d(m["lam"].n, m["mu"].n, m["H"].n, m["K"].n, unit * m["sy"].n / 8.0);
    d.setType(m["type"].n);
    for (auto& p : m["curve"].a) d.addCurvePoint(unit * p[0].n / 8.0, unit * p[1].n / 8.0);
    return d;
}
/* dense contraction of a fourth order tensor A_ijkl, block (i, j), entry (k, l) */
template<int D> MD<D> apply(const static_tensor<double, D>& A, const MD<D>& e)
{
    MD<D> r = MD<D>::Zero();
    for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) for (int k = 0; k < D; k++) for (int l = 0; l < D; l++) r(i, j) += A(i * D + k, j * D + l) * e(k, l);
    return r;
}
template<int D> MD<D> direction(int k, int l, bool sym)
{
    MD<D> e = MD<D>::Zero();
    if (sym) { e(k, l) += 0.5; e(l, k) += 0.5; } else e(k, l) = 1;
    return e;
}
/* logarithmic strain, computed independently */
M3 logstrain(const M3& F)
{
    Eigen::SelfAdjointEigenSolver<M3> es(M3(F.transpose() * F));
    M3 r = M3::Zero();
    for (int i = 0; i < 3; i++) r += 0.5 * std::log(es.eigenvalues()(i)) * es.eigenvectors().col(i) * es.eigenvectors().col(i).transpose();
    return r;
}
M3 embed1(const MD<2>& a) { M3 r = M3::Identity(); r.block<2, 2>(0, 0) = a; return r; }
M3 embed1(const M3& a) { return a; }
M3 embed0(const MD<2>& a) { M3 r = M3::Zero(); r.block<2, 2>(0, 0) = a; return r; }
M3 embed0(const M3& a) { return a; }

template<typename Mesh> struct Runner
{
    static const int D = Mesh::dimension;
    using B = Behavior<Mesh>;
    const Mesh& msh;
    Trace& tr;
    B beh, twin;
    MaterialData<double> mat;
    std::vector<std::pair<size_t, size_t>> qps;
    struct Last { M3 rot = M3::Identity(), FT = M3::Identity(); double sc = 1, psc = 1, unit = 1, tol = 1e-2; bool pk = false, round = false; };
    std::map<long, Last> lasts;
    Json neu;
    Runner(const Mesh& m, Trace& t) : msh(m), tr(t) {}

    std::pair<size_t, size_t> at(const Json& x) { return qps.at((x["pt"].n - 1) * (qps.size() / 3)); }
    /* |C : e - d sigma(e)| relative, in millionths */
    long fd(const B& b0, std::pair<size_t, size_t> q, const MD<D>& E, const static_tensor<double, D>& C, bool sym, double h = 1e-5)
    {
        double err = 0, top = C.cwiseAbs().maxCoeff() + 1;
        for (int k = 0; k < D; k++) for (int l = sym ? k : 0; l < D; l++)
        {
            auto e = direction<D>(k, l, sym);
            B b = b0;
            MD<D> sp = b.compute_whole(q.first, q.second, E + h * e, false).first;
            MD<D> sm = b.compute_whole(q.first, q.second, E - h * e, false).first;
            err = std::max(err, (apply<D>(C, e) - (sp - sm) / (2 * h)).cwiseAbs().maxCoeff() / top);
        }
        return std::isfinite(err) ? long(std::min(err * 1e6, 1e8)) : SENTINEL;
    }
    void state(Obj& o, const Json& x)
    {
        auto q = at(x);
        auto& L = lasts[x["pt"].n];
        M3 s = beh.compute_stress3D(q.first, q.second);
        if (L.pk) s = L.rot.transpose() * (s * L.FT) * L.rot / L.unit;
        o("s3", ints(s, L.sc, L.tol))("pl", beh.is_plastic(q.first, q.second))("p", Q(beh.equivalentPlasticStrain(q.first, q.second) / L.unit, L.psc, L.tol));
    }
    void create(const Json& x, Obj& o)
    {
        neu = x;
        lasts.clear();
        qps.clear();
        size_t def = x["def"].n, law = x["law"].n, deg = x["deg"].n;
        mat = data(x["m"], def == LOGARITHMIC_DEF && x["kind"].s == "pl" ? LN2 : 1.0);
        beh = B(msh, deg, def, law);
        beh.addMaterialData(mat);
        if (x["kind"].s == "lc") { twin = B(msh, deg, SMALL_DEF, law); twin.addMaterialData(mat); }
        std::vector<long> cells, want;
        long bad = 0, id = 0;
        for (auto& cl : msh)
        {
            auto w = integrate(msh, cl, deg);
            cells.push_back(beh.numberOfQP(size_t(id)));
            want.push_back(w.size());
            if (beh.numberOfQP(msh, cl) != w.size()) bad++;
            for (size_t i = 0; i < w.size() && i < size_t(cells.back()); i++)
            {
                auto a = beh.quadrature_point(size_t(id), i);
                if ((a.point().to_vector() - w[i].point().to_vector()).norm() > 0 || a.weight() != w[i].weight()) bad++;
                qps.push_back({size_t(id), i});
            }
            id++;
        }
        auto md2 = beh.getMaterialData();
        const auto& md3 = std::as_const(beh).getMaterialData();
        o("total", long(beh.numberOfQP()))("cells", cells)("want", want)("qpbad", bad)("def", long(beh.getDeformation()))
         ("defname", beh.getDeformationName())("lawname", beh.getLawName())("data", md2.getMu() == mat.getMu() && md3.getLambda() == mat.getLambda());
    }
    void trial(const Json& x, Obj& o)
    {
        auto q = at(x);
        bool tan = x["tan"].n > 0, log = neu["def"].n == LOGARITHMIC_DEF;
        double k = x["k"].n, sc = x["sc"].n;
        Last L;
        M3 E = M3::Zero();
        if (log)
        {
            M3 V = m3(x["V"], x["vd"].n), U = M3::Zero();
            for (int i = 0; i < 3; i++) U += std::exp2(x["a"][i].n / 8.0) * V.col(i) * V.col(i).transpose();
            L.rot = m3(x["R"], x["rd"].n);
            E = L.rot * U;
            L.FT = E.transpose();
            L.pk = true; L.unit = LN2; L.tol = 5e-2;
        }
        else E = m3(x["E"], 24 * k);
        L.sc = sc; L.psc = sc / (3 * k);
        lasts[x["pt"].n] = L;
        B before = beh;
        auto r = beh.compute_whole(q.first, q.second, md<D>(E), tan);
        state(o, x);
        MD<D> s = r.first;
        if (log)
        {
            /* only the in-plane part of PK1 is given: complete it with the full stress */
            M3 full = beh.compute_stress3D(q.first, q.second);
            if ((md<D>(full) - s).norm() > 1e-9 * (1 + s.norm())) throw std::runtime_error("plane part of the stress differs");
            full = L.rot.transpose() * (full * L.FT) * L.rot / LN2;
            s = md<D>(full);
        }
        o("s2", ints(s, L.sc, L.tol));
        o("fd", x["tan"].n == 2 ? fd(before, q, md<D>(E), r.second, !log) : 0L);
    }
    void strain(const Json& x, Obj& o)
    {
        auto q = at(x);
        M3 E = m3(x["E"], x["ed"].n);
        Last L; L.sc = 600; L.psc = 600; L.tol = 1;
        lasts[x["pt"].n] = L;
        B before = beh;
        auto r = beh.compute_whole(q.first, q.second, md<D>(E), x["tan"].n > 0);
        state(o, x);
        o("s2", ints(r.first, 600, 1));
        o("fd", x["tan"].n == 2 ? fd(before, q, md<D>(E), r.second, true) : 0L);
    }
    void logpath(const Json& x, Obj& o)
    {
        auto q = at(x);
        M3 F = m3(x["F"], x["fd"].n) + m3(x["P"]) * (x["j"].n == 0 ? 0.01 : std::pow(10.0, -double(x["j"].n)));
        Last L; L.sc = 1000; L.psc = 1000; L.tol = 1;
        lasts[x["pt"].n] = L;
        B before = beh, tbefore = twin;
        auto r = beh.compute_whole(q.first, q.second, md<D>(F), x["tan"].n > 0);
        state(o, x);
        o("s2", ints(r.first, 1000, 1));
        M3 E = logstrain(F);
        twin.compute_whole(q.first, q.second, md<D>(E), false);
        M3 T = twin.compute_stress3D(q.first, q.second);
        std::vector<std::vector<long>> DE;
        const double h = 1e-6;
        for (int i = 0; i < D; i++) for (int j = 0; j < D; j++)
        {
            M3 dF = M3::Zero(); dF(i, j) = h;
            DE.push_back(ints(M3((logstrain(F + dF) - logstrain(F - dF)) / (2 * h)), 500, 1));
        }
        o("T", ints(T, 500, 1))("DE", DE)("pl2", twin.is_plastic(q.first, q.second))("p2", Q(twin.equivalentPlasticStrain(q.first, q.second), 1000, 1));
        /* the answer is differentiable if small changes do not switch the plastic flag */
        long margin = 1;
        if (x["tan"].n == 2)
        {
            bool pl = twin.is_plastic(q.first, q.second);
            for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) for (double s : {-1e-3, 1e-3})
            {
                M3 G = F; G(i, j) += s;
                B t = tbefore;
                t.compute_whole(q.first, q.second, md<D>(logstrain(G)), false);
                if (t.is_plastic(q.first, q.second) != pl) margin = 0;
            }
        }
        if (neu["law"].n == NONLINEAR_HARDENING) for (auto& c : mat.getRpCurve()) if (std::abs(c.getP() - twin.equivalentPlasticStrain(q.first, q.second)) < 1e-3) margin = 0;
        o("margin", margin)("fd", x["tan"].n == 2 ? fd(before, q, md<D>(F), r.second, false) : 0L);
    }
    void elastic(const Json& x, Obj& o)
    {
        auto q = at(x);
        lasts[x["pt"].n] = Last();
        auto r = beh.compute_whole(q.first, q.second, md<D>(m3(x["E"])), x["tan"].n > 0);
        state(o, x);
        o("s2", ints(r.first, 1, 1e-6))("tg", x["tan"].n > 0 ? ints(r.second, 1, 1e-6) : std::vector<long>());
    }
    void hencky(const Json& x, Obj& o)
    {
        auto q = at(x);
        MD<D> E;
        for (int i = 0; i < D * D; i++) E(i / D, i % D) = x["E"][i].n;
        auto r = beh.compute_whole(q.first, q.second, E, x["tan"].n > 0);
        o("s2", ints(r.first, 2 * x["q"].n, 1e-6))("tg", x["tan"].n > 0 ? ints(r.second, 1, 1e-6) : std::vector<long>())
         ("pl", beh.is_plastic(q.first, q.second))("p", Q(beh.equivalentPlasticStrain(q.first, q.second)));
    }
    template<typename Qp> long energy(Qp qp, const MD<D>& F)
    {
        const double h = 1e-5;
        double err = 0;
        MD<D> P = qp.compute_whole(F, mat, true).first;
        for (int i = 0; i < D; i++) for (int j = 0; j < D; j++)
        {
            MD<D> d = MD<D>::Zero(); d(i, j) = h;
            qp.compute_whole(F + d, mat, false);
            double a = qp.compute_energy(mat);
            qp.compute_whole(F - d, mat, false);
            double b = qp.compute_energy(mat);
            err = std::max(err, std::abs((a - b) / (2 * h) - P(i, j)) / (1 + P.cwiseAbs().maxCoeff()));
        }
        return std::isfinite(err) ? long(std::min(err * 1e6, 1e8)) : SENTINEL;
    }
    void hyper(const Json& x, Obj& o)
    {
        auto q = at(x);
        MD<D> F;
        for (int i = 0; i < D * D; i++) F(i / D, i % D) = x["F"][i].n;
        Last L; L.sc = x["sc"].n; L.tol = 1e-5;
        lasts[x["pt"].n] = L;
        auto r = beh.compute_whole(q.first, q.second, F, x["tan"].n > 0);
        state(o, x);
        o("sr", ints(beh.compute_stress3D(q.first, q.second), 1000, 1))("s2r", ints(r.first, 1000, 1))("tg", ints(r.second, x["st"].n, 1e-4));
        o("fd", fd(beh, q, F, r.second, false))
         ("en", neu["law"].n == NEOHOKEAN ? energy(Neohookean_qp<double, D>(), F) : energy(Cavitation_qp<double, D>(), F));
    }
    void bad(const Json& x, Obj& o)
    {
        auto q = at(x);
        beh.compute_whole(q.first, q.second, md<D>(m3(x["F"])), true);
    }
    /* the L2 projection of values at the quadrature points leaves a residual orthogonal to the polynomials */
    template<typename Law> void project1(const Json& x, Obj& o, Law law)
    {
        int gd = x["gd"].n;
        mat = data(x["m"], 1.0);
        Rng rng(x["seed"].n);
        for (size_t c = 0; c < msh.cells_size(); c++)
            for (auto& qp : law.getCellQPs(c).getQPs())
            {
                MD<D> E;
                for (int i = 0; i < D; i++) for (int j = i; j < D; j++) E(i, j) = E(j, i) = rng.range(-16, 16) / 8.0;
                qp.compute_whole(E, mat, false);
            }
        std::vector<long> res, pres, sres;
        bool sizes = true;
        hho_degree_info hdi(0, 0, gd);
        size_t id = 0;
        for (auto& cl : msh)
        {
            auto& cq = std::as_const(law).getCellQPs(id++);
            dynamic_vector<double> cs = cq.projectStressOnCell(msh, cl, hdi, mat), cp = cq.projectPOnCell(msh, cl, hdi), ct = cq.projectStateOnCell(msh, cl, hdi);
            auto gb = make_matrix_monomial_basis(msh, cl, gd);
            auto pb = make_scalar_monomial_basis(msh, cl, gd);
            sizes = sizes && cs.size() == gb.size() && cp.size() == pb.size() && ct.size() == pb.size();
            double area = measure(msh, cl);
            dynamic_vector<double> rs = dynamic_vector<double>::Zero(gb.size()), rp = dynamic_vector<double>::Zero(pb.size()), rt = rp;
            for (auto& qp : cq.getQPs())
            {
                auto g = gb.eval_functions(qp.point());
                auto f = pb.eval_functions(qp.point());
                MD<D> s = qp.compute_stress(mat);
                MD<D> sh = MD<D>::Zero();
                for (int i = 0; i < cs.size(); i++) sh += cs(i) * g[i];
                double ph = cp.dot(f), th = ct.dot(f);
                for (int i = 0; i < cs.size(); i++) rs(i) += qp.weight() / area * (g[i].cwiseProduct(sh - s)).sum();
                rp += qp.weight() / area * (ph - qp.getEquivalentPlasticStrain()) * f;
                rt += qp.weight() / area * (th - (qp.is_plastic() ? 1.0 : 0.0)) * f;
            }
            for (int i = 0; i < rs.size(); i++) res.push_back(Q(rs(i), 1, 1e-7));
            for (int i = 0; i < rp.size(); i++) { pres.push_back(Q(rp(i), 1, 1e-7)); sres.push_back(Q(rt(i), 1, 1e-7)); }
        }
        o("res", res)("pres", pres)("sres", sres)("sizes", sizes);
    }
    void project(const Json& x, Obj& o)
    {
        int law = x["law"].n, deg = 2 * x["gd"].n + 1;
        if (law == ELASTIC) project1(x, o, LinearElasticityLaw<Mesh>(msh, deg));
        else if (law == LINEAR_HARDENING) project1(x, o, LinearIsotropicAndKinematicHardening<Mesh>(msh, deg));
        else project1(x, o, IsotropicHardeningVMis<Mesh>(msh, deg));
    }
    void dispatch(const Json& x, Obj& o)
    {
        B a(x["def"].n, x["law"].n);
        B b(msh, 1, x["def"].n, x["law"].n);
        o("defname", b.getDeformationName())("lawname", b.getLawName());
    }
    void op(const Json& x)
    {
        Obj o;
        o("ev", "Op").raw("in", x.text);
        std::string err;
        try
        {
            const auto& k = x["op"].s;
            if (k == "new") create(x, o);
            else if (k == "up") { beh.update(); if (neu["kind"].s == "lc") twin.update(); }
            else if (k == "ps") state(o, x);
            else if (k == "tr") trial(x, o);
            else if (k == "st") strain(x, o);
            else if (k == "lf") logpath(x, o);
            else if (k == "el") elastic(x, o);
            else if (k == "hm") hencky(x, o);
            else if (k == "hy") hyper(x, o);
            else if (k == "bad") bad(x, o);
            else if (k == "prj") project(x, o);
            else if (k == "dis") dispatch(x, o);
            else if (k == "mat")
            {
                double L = x["lam"].n, mu = x["mu"].n;
                MaterialData<double> d(L, mu, x["H"].n, x["K"].n, x["sy"].n), e;
                double E = d.getE(), nu = d.getNu(), ET = d.getET();
                e.setMu(E, nu); e.setLambda(E, nu); e.setK(d.getK()); e.setH(E, ET, d.getK());
                MaterialData<double> f(L, mu);
                f.setMu(1); f.setLambda(7); f.setMu(mu); f.setLambda(L); f.setH(d.getH()); f.setK(d.getK()); f.setSigma_y0(d.getSigma_y0());
                o("E", Q(E, L + mu))("nu", Q(nu, 2 * (L + mu)))("ET", Q(ET, x["etd"].n))("lam2", Q(e.getLambda()))("mu2", Q(e.getMu()))("H2", Q(e.getH()))
                 ("lam", Q(f.getLambda()))("mu", Q(f.getMu()))("H", Q(f.getH()))("K", Q(f.getK()))("sy", Q(f.getSigma_y0()));
            }
            else if (k == "curve")
            {
                MaterialData<double> d;
                size_t i = 0;
                std::vector<curve_point<double>> first;
                for (auto& p : x["pts"].a) { if (i++ == 0) { first.push_back({double(p[0].n), double(p[1].n)}); d.setRpCurve(first); } else d.addCurvePoint(p[0].n, p[1].n); }
                d.checkRpCurve();
                std::vector<std::vector<long>> out;
                for (auto& p : d.getRpCurve()) out.push_back({Q(p.getP()), Q(p.getRp())});
                o("out", out);
            }
            else throw std::logic_error("unknown operation");
        }
        catch (const std::exception& e) { err = std::string(e.what()).substr(0, 150); if (err.empty()) err = "?"; }
        o("err", err);
        tr.emit(o);
    }
};

int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto* null = new std::ofstream("/dev/null");
    std::cout.rdbuf(null->rdbuf());
    auto docs = read_docs(argv[2]);
    int K = atoi(argv[4]), P = atoi(argv[5]);
    std::ifstream in(argv[3]);
    std::string line;
    for (int n = 0; std::getline(in, line); n++)
    {
        if (n % P != K) continue;
        auto ops = parse_json(line);
        int d = ops[0].has("d") ? ops[0]["d"].n : 2;
        std::vector<const Doc*> ds;
        for (auto& x : docs) if (x.dim == d) ds.push_back(&x);
        with_mesh<double>(*ds[(n / P) % ds.size()], [&](auto& msh, const Doc&) {
            using Mesh = std::decay_t<decltype(msh)>;
            if constexpr (Mesh::dimension > 1)
            {
                Runner<Mesh> r(msh, tr);
                for (auto& x : ops.a) guarded(tr, "op", [&] { r.op(x); });
            }
        });
    }
    tr.emit(Obj()("ev", "End"));
    return 0;
}
