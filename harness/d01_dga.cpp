/* The discrete geometric approach on tetrahedral meshes.  args: OUT DOCS SEED PART PARTS */
#include "poly.hpp"
#include "diskpp/methods/dga"
using namespace vh;
using Mesh = disk::simplicial_mesh<double, 3>;
using V3 = Eigen::Vector3d;
using M3 = disk::static_matrix<double, 3, 3>;
static VL vec(const V3& v, double s) { return ints({v(0) * s, v(1) * s, v(2) * s}, 1e-9, 1e-6); }
template<typename A> std::vector<VL> vecs(const A& a, double s) { std::vector<VL> r; for (auto& v : a) r.push_back(vec(v, s)); return r; }
template<typename M> std::vector<VL> mat(const M& A, double s)
{
    double top = A.cwiseAbs().maxCoeff() * s;
    std::vector<VL> r;
    for (long i = 0; i < A.rows(); i++) { std::vector<double> v; for (long j = 0; j < A.cols(); j++) v.push_back(A(i, j) * s); r.push_back(ints(v, 1e-9, std::max(1e-6, 1e-11 * top))); }
    return r;
}
template<typename V> VL col(const V& v, double s) { std::vector<double> r; for (long i = 0; i < v.size(); i++) r.push_back(v(i) * s); return ints(r, 1e-9, 1e-6); }
static void run(Trace& tr, Mesh& msh, const Doc& doc, long seed)
{
    using edge = Mesh::edge_type;
    double S = doc.scale;
    Rng g(seed * 311 + doc.n * 13);
    Obj o; o("ev", "Mesh")("n", doc.n); snapshot(o, msh, S); tr.emit(o);
    guarded(tr, "edges", [&]() {
        std::vector<VL> list, absent; std::vector<long> off; std::vector<bool> refused;
        auto es = disk::edges(msh);
        for (auto& ed : es) { list.push_back(pids(ed)); off.push_back(disk::offset(msh, ed)); }
        std::vector<std::vector<VL>> ce, fe; std::vector<VL> ci, fi;
        for (auto& cl : msh) { std::vector<VL> r; for (auto& ed : disk::edges(msh, cl)) r.push_back(pids(ed)); ce.push_back(r); auto id = disk::edge_ids(msh, cl); ci.push_back(VL(id.begin(), id.end())); }
        for (auto it = msh.faces_begin(); it != msh.faces_end(); ++it) { auto fc = *it; std::vector<VL> r; for (auto& ed : disk::edges(msh, fc)) r.push_back(pids(ed)); fe.push_back(r); auto id = disk::edge_ids(msh, fc); fi.push_back(VL(id.begin(), id.end())); }
        size_t np = msh.points_size();
        for (int t = 0; t < 6; t++) {
            size_t a = g.range(0, np - 1), b = g.range(0, np - 1);
            if (t == 0) { a = np - 1; b = np; }      // past the last one
            if (a == b) continue;
            if (a > b) std::swap(a, b);
            using pid = disk::point_identifier<3>;
            bool thrown = false;
            try { disk::offset(msh, edge({pid(a), pid(b)})); } catch (const std::invalid_argument&) { thrown = true; }
            absent.push_back({long(a), long(b)}); refused.push_back(thrown);
        }
        tr.emit(Obj()("ev", "Edges")("list", list)("size", long(es.size()))("offsets", off)("cells", ce)("faces", fe)("cellids", ci)("faceids", fi)("absent", absent)("refused", refused));
    });
    size_t i = 0;
    for (auto& cl : msh) {
        size_t ci = i++;
        if (msh.cells_size() > 4 && ci % 3 != size_t(seed + doc.n) % 3) continue;
        guarded(tr, "cell", [&]() {
            auto fcs = faces(msh, cl);
            auto pts = points(msh, cl);
            double sv = disk::priv::volume_signed(msh, cl), uv = disk::priv::volume_unsigned(msh, cl);
            auto G3 = [&](int a) { V3 v; for (int k = 0; k < 3; k++) v(k) = std::nearbyint(double(pts[a][k]) * S); return v; };
            double det = std::fabs((G3(1) - G3(0)).dot((G3(2) - G3(0)).cross(G3(3) - G3(0))));
            Obj o; o("ev", "Cell")("i", long(ci))("svol", Q(sv * 6 * S * S, S))("uvol", Q(uv * 6 * S * S, S));
            auto pev = disk::primal_edge_vectors(msh, cl);
            auto pav = disk::primal_area_vectors(msh, cl);
            auto dev = disk::dual_edge_vectors(msh, cl);
            auto dav = disk::dual_area_vectors(msh, cl);
            o("pev", vecs(pev, S))("pav", vecs(pav, 2 * S * S))("dev", vecs(dev, 12 * S))("dav", vecs(dav, 24 * S * S));
            std::vector<VL> p1; for (auto& ed : disk::edges(msh, cl)) p1.push_back(vec(disk::primal_edge_vectors(msh, ed), S));
            o("pev1", p1);
            VL E; for (int k = 0; k < 3; k++) E.push_back(g.range(-3, 3));
            V3 vf(E[0], E[1], E[2]);
            std::vector<std::vector<VL>> pf, df, fn; std::vector<VL> of;
            for (auto& fc : fcs) {
                auto pe = disk::primal_edge_vectors(msh, fc);
                pf.push_back(vecs(pe, S));
                df.push_back(vecs(disk::dual_edge_vectors(msh, fc, cl), 6 * S));
                of.push_back(col(disk::integrate_on_primal_edges(msh, fc, vf), S));
                auto n = disk::priv::normals(msh, fc);
                V3 N = pe[0].cross(pe[2]);
                std::vector<VL> r; for (int k = 0; k < 3; k++) r.push_back(vec(n[k] * pe[k].cross(N).norm(), S * S * S));
                fn.push_back(r);
            }
            o("pevf", pf)("devf", df)("onpef", of)("fnormals", fn);
            bool foreign = true;
            for (auto it = msh.faces_begin(); it != msh.faces_end(); ++it) {
                auto fc = *it;
                if (std::find(fcs.begin(), fcs.end(), fc) != fcs.end()) continue;
                bool thrown = false;
                try { disk::dual_edge_vectors(msh, fc, cl); } catch (const std::invalid_argument&) { thrown = true; }
                foreign = foreign && thrown;
            }
            o("foreign", foreign)("E", E);
            o("onpe", col(disk::integrate_on_primal_edges(msh, cl, vf), S))("onpf", col(disk::integrate_on_primal_faces(msh, cl, vf), 2 * S * S));
            o("onde", col(disk::integrate_on_dual_edges(msh, cl, vf), 12 * S))("ondf", col(disk::integrate_on_dual_faces(msh, cl, vf), 24 * S * S));
            auto n = disk::priv::normals(msh, cl);
            std::vector<VL> nn; for (int k = 0; k < 4; k++) nn.push_back(vec(n[k] * pav[k].norm(), 2 * S * S));
            o("normals", nn);
            o("grad", mat(disk::grad_matrix(msh, cl), 1))("curl", mat(disk::curl_matrix(msh, cl), 1));
            M3 K = M3::Zero(); std::vector<VL> Kl(3, VL(3));
            for (int a = 0; a < 3; a++) { K(a, a) = g.range(2, 4); for (int b = 0; b < a; b++) K(a, b) = K(b, a) = g.range(-1, 1); }
            for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) Kl[a][b] = long(K(a, b));
            long c = g.range(1, 3);
            o("c", c)("K", Kl);
            o("me", mat(disk::edge_matrix(msh, cl, double(c)), 24 * det * S))("met", mat(disk::edge_matrix(msh, cl, K), 24 * det * S));
            o("mf", mat(disk::face_matrix(msh, cl, double(c)), 6 * det / S))("mft", mat(disk::face_matrix(msh, cl, K), 6 * det / S));
            tr.emit(o);
        });
    }
    /* nodal problem with an affine solution */
    if (msh.points_size() < 300) guarded(tr, "patch", [&]() {
        size_t N = msh.points_size();
        VL form = {g.range(-2, 2), g.range(-2, 2), g.range(1, 3)};
        M3 K = M3::Zero(); for (int a = 0; a < 3; a++) { K(a, a) = g.range(2, 4); for (int b = 0; b < a; b++) K(a, b) = K(b, a) = g.range(-1, 1); }
        MX A = MX::Zero(N, N);
        for (auto& cl : msh) {
            Eigen::Matrix<double, 6, 4> G = disk::grad_matrix(msh, cl);
            MX L = G.transpose() * disk::edge_matrix(msh, cl, K) * G;
            auto id = cl.point_ids();
            for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) A(size_t(id[a]), size_t(id[b])) += L(a, b);
        }
        std::vector<bool> fix(N, false); VX x = VX::Zero(N);
        for (auto it = msh.faces_begin(); it != msh.faces_end(); ++it) { auto fc = *it; if (msh.is_boundary(fc)) for (auto p : fc.point_ids()) fix[size_t(p)] = true; }
        size_t pi = 0;
        for (auto it = msh.points_begin(); it != msh.points_end(); ++it, ++pi) { auto p = *it; if (fix[pi]) for (int k = 0; k < 3; k++) x(pi) += form[k] * p[k] * S; }
        std::vector<long> fr; for (size_t a = 0; a < N; a++) if (!fix[a]) fr.push_back(a);
        MX Af(fr.size(), fr.size()); VX bf(fr.size()), Ax = A * x;
        for (size_t a = 0; a < fr.size(); a++) { bf(a) = -Ax(fr[a]); for (size_t b = 0; b < fr.size(); b++) Af(a, b) = A(fr[a], fr[b]); }
        if (fr.size()) { VX y = Af.ldlt().solve(bf); for (size_t a = 0; a < fr.size(); a++) x(fr[a]) = y(a); }
        tr.emit(Obj()("ev", "Patch")("form", form)("val", col(x, 1)));
    });
}
int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto docs = read_docs(argv[2]);
    long seed = atol(argv[3]);
    int part = atoi(argv[4]), parts = atoi(argv[5]);
    for (auto& dd : docs)
        if (dd.dim == 3 && dd.kind == "simplex" && dd.n % parts == part)
            guarded(tr, "doc " + std::to_string(dd.n), [&]() { Mesh msh; build(dd, msh); run(tr, msh, dd, seed); });
    tr.emit(Obj()("ev", "End"));
    return 0;
}
