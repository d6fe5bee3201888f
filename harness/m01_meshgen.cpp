/* Build/refine histories of the structured mesh generators. args: OUT MESHER NREF */
#include <map>
#include <optional>
#include <regex>
#include "meshdump.hpp"
#include "diskpp/mesh/meshgen.hpp"
using namespace vh;

template<typename Mesh>
void run(Trace& tr, const std::string& name, int nref, int base)
{
    guarded(tr, name, [&]() {
        Mesh msh;
        auto mesher = disk::make_simple_mesher(msh);
        double scale = base << nref;
        for (int r = 0; r <= nref; r++) {
            if (r > 0) mesher.refine();
            Obj o;
            o("ev", r == 0 ? "Build" : "Refine")("mesher", name);
            snapshot(o, msh, scale);
            tr.emit(o);
        }
    });
}

int main(int argc, char** argv)
{
    Trace tr(argv[1]);
    std::string m = argv[2];
    int n = atoi(argv[3]);
    if (m == "tri") run<disk::triangular_mesh<double>>(tr, m, n, 2);
    else if (m == "quad") run<disk::cartesian_mesh<double, 2>>(tr, m, n, 2);
    else if (m == "tet") run<disk::tetrahedral_mesh<double>>(tr, m, n, 2);
    else if (m == "hex") {
        for (int l = 0; l <= n; l++)
            guarded(tr, m, [&]() {
                disk::generic_mesh<double, 2> msh;
                auto mesher = disk::make_fvca5_hex_mesher(msh);
                mesher.make_level(l);
                Obj o;
                o("ev", "Level")("mesher", m)("level", l);
                snapshot(o, msh, double(4 << l));
                tr.emit(o);
            });
        /* one mesher object, several levels in a row */
        disk::generic_mesh<double, 2> msh;
        auto mesher = disk::make_fvca5_hex_mesher(msh);
        for (int l : {1, 0, 2}) {
            if (l > n) continue;
            guarded(tr, m, [&]() {
                mesher.make_level(l);
                Obj o;
                o("ev", "Level")("mesher", m)("level", l);
                snapshot(o, msh, double(4 << l));
                tr.emit(o);
            });
        }
    }
    else _exit(97);
    return 0;
}
