/* Geometric quantities of cells and faces, projected to integers.
 * args: OUT DOCS SEED PART PARTS */
#include <map>
#include <optional>
#include "meshbuild.hpp"
#include "meshdump.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace vh;
using VL = std::vector<long>;
using VVL = std::vector<VL>;

template<typename P> VL pq(const P& p, size_t dim, double s) { VL r; for (size_t k = 0; k < dim; k++) r.push_back(Q(double(p[k]), s)); return r; }
template<typename V> VL vq(const V& p, size_t dim, double s) { VL r; for (size_t k = 0; k < dim; k++) r.push_back(Q(double(p(k)), s)); return r; }
template<typename M> VL mq(const M& m, double s) { VL r; for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) r.push_back(Q(double(m(i, j)), s)); return r; }

template<typename M> struct is_generic { static constexpr bool v = false; };
template<typename T, size_t D> struct is_generic<disk::generic_mesh<T, D>> { static constexpr bool v = true; };
template<typename M> struct is_simplicial { static constexpr bool v = false; };
template<typename T, size_t D> struct is_simplicial<disk::simplicial_mesh<T, D>> { static constexpr bool v = true; };

template<typename Mesh> void geom(Trace& tr, Mesh& msh, const Doc& d, int seed)
{
    constexpr size_t D = Mesh::dimension;
    Rng r(seed * 977 + d.n);
    double s = d.scale, unit = D == 1 ? s : D == 2 ? 2 * s * s : 6 * s * s * s;
    Obj o;
    o("ev", "Geom")("n", d.n);
    snapshot(o, msh, s);
    VL cmeas, smeas, cdiam, fmeas, fdiam, relmeas;
    VVL cbar, cdiams, bbbar, dbb, fbar, fdiams, fnrm, axes, saxes, laxes;
    std::vector<VVL> nrm;
    std::vector<bool> convex;
    std::vector<VVL> qpt;
    std::vector<std::vector<bool>> qin;
    double dsum = 0;
    for (auto& cl : msh) {
        double m = measure(msh, cl);
        cmeas.push_back(Q(m, unit));
        if constexpr (is_simplicial<Mesh>::v && D > 1) smeas.push_back(Q(measure(msh, cl, true), unit));
        auto pts = points(msh, cl);
        auto bar = barycenter(msh, cl);
        double bs = is_generic<Mesh>::v && D == 2 ? 6 * m * s * s * s : pts.size() * s;
        cbar.push_back(pq(bar, D, bs));
        double dd = diameter(msh, cl);
        dsum += dd;
        cdiam.push_back(Q(dd * dd, s * s));
        cdiams.push_back(vq(diameters(msh, cl), D, s));
        bbbar.push_back(pq(bb_barycenter(msh, cl), D, 2 * s));
        if constexpr (D > 1) {
            dbb.push_back(pq(diameter_boundingbox(msh, cl), D, s));
            auto ax = inertia_axes(msh, cl);
            axes.push_back(mq((ax.transpose() * ax).eval(), 1000));
            auto sx = scaled_inertia_axes(msh, cl);
            auto g = (sx.transpose() * sx).eval();
            for (size_t i = 0; i < D; i++) g(i, i) = g(i, i) > 0;
            saxes.push_back(mq(g, 1000));
            auto la = element_local_axes(msh, cl);
            auto h = (la.transpose() * la).eval();
            double mx = h.diagonal().maxCoeff();
            h /= mx;
            for (size_t i = 0; i < D; i++) h(i, i) = h(i, i) >= 0;
            laxes.push_back(mq(h, 1000));
        }
        VVL nn;
        for (auto& fc : faces(msh, cl)) {
            if constexpr (D == 1) nn.push_back({Q(normal(msh, cl, fc), 1)});
            else nn.push_back(vq(normal(msh, cl, fc), D, double(measure(msh, fc)) * (D == 2 ? s : 2 * s * s)));
        }
        nrm.push_back(nn);
        if constexpr (is_generic<Mesh>::v && D == 2) convex.push_back(is_convex(msh, cl));
        if constexpr (D == 2 || (D == 3 && is_simplicial<Mesh>::v)) {
            VVL ps; std::vector<bool> ins;
            std::vector<std::pair<long, long>> bb(D, {1000000, -1000000});
            for (auto& p : pts) for (size_t k = 0; k < D; k++) {
                bb[k].first = std::min(bb[k].first, 2 * Q(p[k], s)); bb[k].second = std::max(bb[k].second, 2 * Q(p[k], s));
            }
            for (int k = 0; k < 24; k++) {
                typename Mesh::point_type p; VL x;
                for (size_t j = 0; j < D; j++) { long v = r.range(bb[j].first - 1, bb[j].second + 1); x.push_back(v); p[j] = v / (2.0 * s); }
                ps.push_back(x); ins.push_back(is_inside(msh, cl, p));
            }
            qpt.push_back(ps); qin.push_back(ins);
        }
    }
    for (auto it = msh.faces_begin(); it != msh.faces_end(); ++it) {
        auto fc = *it;
        double m = measure(msh, fc);
        fmeas.push_back(D == 1 ? Q(m, 1) : D == 2 ? Q(m * m, s * s) : Q(4 * m * m, s * s * s * s));
        auto pts = points(msh, fc);
        fbar.push_back(pq(barycenter(msh, fc), D, pts.size() * s));
        if constexpr (D > 1) {
            double dd = diameter(msh, fc);
            fdiam.push_back(Q(dd * dd, s * s));
            fdiams.push_back(vq(diameters(msh, fc), D, s));
            fnrm.push_back(vq(normal(msh, fc), D, m * (D == 2 ? s : 2 * s * s)));
        }
    }
    o("cmeas", cmeas)("smeas", smeas)("cbar", cbar)("cdiam", cdiam)("cdiams", cdiams)("bbbar", bbbar)("dbb", dbb);
    o("axes", axes)("saxes", saxes)("laxes", laxes)("nrm", nrm)("convex", convex)("qpt", qpt)("qin", qin);
    o("fmeas", fmeas)("fbar", fbar)("fdiam", fdiam)("fdiams", fdiams)("fnrm", fnrm);
    o("avgd", Q(average_diameter(msh) * msh.cells_size() / dsum, 1000));
    tr.emit(o);
}

int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto docs = read_docs(argv[2]);
    int seed = atoi(argv[3]), part = atoi(argv[4]), parts = atoi(argv[5]);
    for (auto& d : docs)
        if (d.n % parts == part)
            guarded(tr, "doc " + std::to_string(d.n), [&]() { with_mesh(d, [&](auto& msh, const Doc& dd) { geom(tr, msh, dd, seed); }); });
    return 0;
}
