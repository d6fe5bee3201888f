/* Mesh hierarchies: refinement levels and point location.
 * args: OUT DOCS LEVELS SEED PART PARTS */
#include <list>
#include <map>
#include <optional>
#include "meshbuild.hpp"
#include "meshdump.hpp"
#include "diskpp/mesh/mesh_hierarchy.hpp"
using namespace vh;
using M = disk::simplicial_mesh<double, 2>;

static void level(Trace& tr, M msh, int lev, double sc)
{
    Obj o;
    o("ev", "Level")("level", lev);
    snapshot(o, msh, sc);
    std::vector<long> dom;
    for (auto& cl : msh) dom.push_back(msh.domain_info(cl).id());
    o("dom", dom);
    tr.emit(o);
}

int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    auto docs = read_docs(argv[2]);
    int levels = atoi(argv[3]), seed = atoi(argv[4]), part = atoi(argv[5]), parts = atoi(argv[6]);
    for (auto& d : docs) {
        if (d.n % parts != part) continue;
        guarded(tr, "doc", [&]() {
            M base;
            build(d, base);
            double sc = 6.0 * (1 << levels);
            disk::mesh_hierarchy<double> mh;
            if (d.n % 2) { /* a hierarchy object is rebuilt over an older one */
                mh.build_hierarchy(base, 1);
                mh.build_hierarchy(base, levels);
            } else
                mh = disk::mesh_hierarchy<double>(base, levels);
            tr.emit(Obj()("ev", "Hierarchy")("levels", levels)("size", size_t(mh.meshes_size())));
            int lev = 0;
            for (auto it = mh.meshes_begin(); it != mh.meshes_end(); ++it) level(tr, *it, lev++, sc);
            tr.emit(Obj()("ev", "Ends")("coarse", size_t(mh.coarsest_mesh().cells_size()))("fine", size_t(mh.finest_mesh().cells_size())));
            Rng r(seed * 77 + d.n);
            long xmax = 0, ymax = 0, xmin = 0, ymin = 0;
            for (auto& p : d.pts) { xmax = std::max(xmax, long(p[0])); ymax = std::max(ymax, long(p[1])); xmin = std::min(xmin, long(p[0])); ymin = std::min(ymin, long(p[1])); }
            auto loc = [&](long px, long py, int lv) {
                disk::point<double, 2> pt(px / sc, py / sc);
                long res;
                try { res = long(mh.locate_point(pt, lv)); } catch (const std::exception&) { res = -1; }
                tr.emit(Obj()("ev", "Locate")("pt", std::vector<long>{px, py})("level", lv)("res", res));
            };
            for (int k = 0; k < 12; k++) {
                loc(r.range(sc * xmin - 5, sc * xmax + 5), r.range(sc * ymin - 5, sc * ymax + 5), r.range(0, levels));
            }
            lev = 0;
            int w[3][3] = {{1, 2, 3}, {2, 2, 2}, {4, 1, 1}};
            for (auto it = mh.meshes_begin(); it != mh.meshes_end(); ++it, lev++) {
                auto msh = *it;
                size_t nq = std::min<size_t>(msh.cells_size(), 16);
                for (size_t k = 0; k < nq; k++) {
                    size_t c = (nq == msh.cells_size()) ? k : r.range(0, msh.cells_size() - 1);
                    auto cl = *std::next(msh.cells_begin(), c);
                    auto ps = points(msh, cl);
                    int* ww = w[r.range(0, 2)];
                    double x = 0, y = 0;
                    for (int j = 0; j < 3; j++) { x += ww[j] * ps[j].x() / 6; y += ww[j] * ps[j].y() / 6; }
                    loc(Q(x, sc), Q(y, sc), lev);
                    if (lev > 0) loc(Q(x, sc), Q(y, sc), lev - 1);
                }
            }
            /* levels that do not exist */
            for (int lv : {levels + 1, levels + 2, levels + 7}) {
                auto cl = *std::next(base.cells_begin(), 0);
                auto b = barycenter(base, cl);
                bool t = false;
                try { mh.locate_point(b, lv); } catch (const std::exception&) { t = true; }
                tr.emit(Obj()("ev", "NoLevel")("level", lv)("throws", t));
            }
        });
    }
    return 0;
}
