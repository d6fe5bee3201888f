/* Decompositions of cells and faces in simplices. args: OUT DOCS SEED PART PARTS */
#include <map>
#include <numeric>
#include <optional>
#include "meshbuild.hpp"
#include "meshdump.hpp"
#include "diskpp/quadratures/quadratures.hpp"
using namespace vh;
using VL = std::vector<long>;
using VVL = std::vector<VL>;
using VVVL = std::vector<VVL>;

template<typename P> VL pq(const P& p, size_t dim, double s) { VL r; for (size_t k = 0; k < dim; k++) r.push_back(Q(double(p[k]), s)); return r; }
template<typename M> struct is_generic { static constexpr bool v = false; };
template<typename T, size_t D> struct is_generic<disk::generic_mesh<T, D>> { static constexpr bool v = true; };

template<typename RS> VVVL pieces(const RS& rss, size_t dim, double s, VL& meas, double mu)
{
    VVVL r;
    for (auto& rs : rss) {
        VVL ps;
        for (auto& p : rs.points()) ps.push_back(pq(p, dim, s));
        r.push_back(ps);
        double m = measure(rs);
        meas.push_back(Q(m, mu));
    }
    return r;
}

template<typename Mesh> void split(Trace& tr, Mesh& msh, const Doc& d)
{
    constexpr size_t D = Mesh::dimension;
    double s = d.scale;
    Obj o;
    o("ev", "Split")("n", d.n);
    snapshot(o, msh, s);
    std::vector<VVVL> cp, tp, fp, ip;   /* per cell/face: pieces: points */
    VL cK, fK;
    VVL cm, tm, fm;
    if constexpr (D == 2) {
        for (auto& cl : msh) {
            auto pts = points(msh, cl);
            long K = pts.size();
            cK.push_back(K);
            VL ms;
            cp.push_back(pieces(split_in_raw_triangles(msh, cl), D, s * K, ms, 2 * s * s * K * K));
            cm.push_back(ms);
            VVVL ix;
            for (auto& t : split_in_raw_triangles_index(msh, cl)) { VVL q; for (auto& p : t) q.push_back({long(size_t(p))}); ix.push_back(q); }
            ip.push_back(ix);
            if constexpr (is_generic<Mesh>::v) {
                VVVL r; VL tms;
                for (auto& t : triangulate_polygon(msh, cl)) {
                    r.push_back({pq(t.p0, D, s * K), pq(t.p1, D, s * K), pq(t.p2, D, s * K)});
                    tms.push_back(Q(measure(t), 2 * s * s * K * K));
                }
                tp.push_back(r); tm.push_back(tms);
                VVVL r2; VL tms2;
                for (auto& t : triangulate_nonconvex_polygon(msh, cl)) {
                    r2.push_back({pq(t.p0, D, s * K), pq(t.p1, D, s * K), pq(t.p2, D, s * K)});
                    tms2.push_back(Q(measure(t), 2 * s * s * K * K));
                }
                fp.push_back(r2); fm.push_back(tms2);
            }
        }
    }
    if constexpr (D == 3) {
        for (auto& cl : msh) {
            long K = points(msh, cl).size();
            for (auto& fc : faces(msh, cl)) K = std::lcm(K, long(points(msh, fc).size()));
            cK.push_back(K);
            VL ms;
            cp.push_back(pieces(split_in_raw_tetrahedra(msh, cl), D, s * K, ms, 6 * s * s * s * K * K * K));
            cm.push_back(ms);
        }
        for (auto it = msh.faces_begin(); it != msh.faces_end(); ++it) {
            auto fc = *it;
            long K = points(msh, fc).size();
            fK.push_back(K);
            VL ms;
            VVVL r;
            for (auto& rs : split_in_raw_triangles(msh, fc)) {
                VVL ps;
                for (auto& p : rs.points()) ps.push_back(pq(p, D, s * K));
                r.push_back(ps);
                double m = measure(rs);
                ms.push_back(Q(4 * m * m, s * s * s * s * K * K * K * K, 1e-4));
            }
            fp.push_back(r); fm.push_back(ms);
        }
    }
    o("cp", cp)("tp", tp)("fp", fp)("ip", ip)("cK", cK)("fK", fK)("cm", cm)("tm", tm)("fm", fm);
    tr.emit(o);
}

int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto docs = read_docs(argv[2]);
    int part = atoi(argv[4]), parts = atoi(argv[5]);
    for (auto& d : docs)
        if (d.n % parts == part && d.dim > 1)
            guarded(tr, "doc " + std::to_string(d.n), [&]() { with_mesh(d, [&](auto& msh, const Doc& dd) { if constexpr (std::remove_reference_t<decltype(msh)>::dimension > 1) split(tr, msh, dd); }); });
    if (part >= int(docs.size())) return 0;
    tr.emit(Obj()("ev", "End"));
    return 0;
}
